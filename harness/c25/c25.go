// Package c25: proving and verifying leave their inputs unchanged and are repeatable.
package c25

import (
	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

// describe is what a circuit consists of.
func describe(c circuit.Circuit) (ints []int, ids []string) {
	for _, l := range c.Layers {
		ints = append(ints, l.BGInputs, l.BGOutputs, len(l.Wires), len(l.Gates))
		for _, w := range l.Wires {
			ints = append(ints, w.L, w.R, w.O)
			ids = append(ids, w.Gate.ID())
		}
		for _, g := range l.Gates {
			ids = append(ids, g.ID())
		}
	}
	return
}

func sameCircuit(c circuit.Circuit, ints []int, ids []string) {
	i2, s2 := describe(c)
	vx.Assert(vx.IntEq(len(i2), len(ints)), "the circuit is not modified")
	vx.Assert(vx.IntEq(len(s2), len(ids)), "the circuit is not modified")
	for i := range ints {
		vx.Assert(vx.IntEq(i2[i], ints[i]), "the circuit is not modified")
	}
	for i := range ids {
		vx.Assert(s2[i] == ids[i], "the circuit is not modified")
	}
}

func same2(a, b [][]fr.Element, label string) {
	vx.Assert(vx.IntEq(len(a), len(b)), label)
	for i := range a {
		vx.Assert(vx.EqS(a[i], b[i]), label)
	}
}

func copyProof(p gkr.Proof) gkr.Proof {
	r := gkr.Proof{ClaimsLeft: hx.Copy(p.ClaimsLeft), ClaimsRight: hx.Copy(p.ClaimsRight)}
	for _, s := range p.SumcheckProofs {
		r.SumcheckProofs = append(r.SumcheckProofs, sumcheck.Proof{PolyCoeffs: hx.Copy2(s.PolyCoeffs)})
	}
	return r
}

func sameProof(a, b gkr.Proof, label string) {
	vx.Assert(vx.IntEq(len(a.SumcheckProofs), len(b.SumcheckProofs)), label)
	for i := range a.SumcheckProofs {
		same2(a.SumcheckProofs[i].PolyCoeffs, b.SumcheckProofs[i].PolyCoeffs, label)
	}
	vx.Assert(vx.And(vx.EqS(a.ClaimsLeft, b.ClaimsLeft), vx.EqS(a.ClaimsRight, b.ClaimsRight)), label)
}

// shared lays the chunks behind each other in one array, with more data behind them, which is returned too.
func shared(ch [][]fr.Element, more []fr.Element) (res [][]fr.Element, mem []fr.Element) {
	mem = hx.Cat(append(append([][]fr.Element{}, ch...), more)...)
	for i, n := 0, 0; i < len(ch); i++ {
		res = append(res, mem[n:n+len(ch[i])])
		n += len(ch[i])
	}
	return
}

// Prove: assigning and proving.
func Prove() {
	cat := hx.Catalogue(vx.Param("circ"))
	bN, nCh, cores := vx.Param("bN"), 1<<uint(vx.Param("chunks")), vx.Param("cores")
	c := cat.Build()
	ints, ids := describe(c)
	in, mem := shared(hx.Chunk(vx.Frs("x", 1<<uint(cat.In[0]+bN)), nCh), vx.Frs("behind", 2))
	keep := hx.Copy(mem)
	a := c.Assign(in, cores)
	vx.Assert(vx.EqS(mem, keep), "assigning does not modify the inputs")
	vals := make([][][]fr.Element, len(a.Values))
	for i := range vals {
		vals[i] = hx.Copy2(a.Values[i])
	}
	a2 := c.Assign(in, cores)
	for i := range vals {
		same2(a2.Values[i], vals[i], "assigning twice gives the same assignment")
	}
	// assigning must not have shared memory with the first assignment, apart from the inputs
	p := gkr.NewProver(c, a)
	proof := p.Prove(cores)
	first := copyProof(proof)
	for i := range vals {
		same2(a.Values[i], vals[i], "proving does not modify the assignment")
	}
	vx.Assert(vx.EqS(mem, keep), "proving does not modify the inputs")
	sameProof(p.Prove(cores), first, "proving twice gives the same proof")
	p2 := gkr.NewProver(c, a)
	sameProof(p2.Prove(cores), first, "proving twice gives the same proof")
	sameProof(proof, first, "the first proof keeps its values")
	for i := range vals {
		same2(a.Values[i], vals[i], "proving does not modify the assignment")
	}
	vx.Assert(vx.EqS(mem, keep), "proving does not modify the inputs")
	sameCircuit(c, ints, ids)
	vx.Reach("end")
}

// Verify: verifying any proof.
func Verify() {
	cat := hx.Catalogue(vx.Param("circ"))
	bN, nCh := vx.Param("bN"), 1<<uint(vx.Param("chunks"))
	c := cat.Build()
	ints, ids := describe(c)
	in, mi := shared(hx.Chunk(vx.Frs("x", 1<<uint(cat.In[0]+bN)), nCh), vx.Frs("bx", 2))
	out, mo := shared(hx.Chunk(vx.Frs("y", 1<<uint(cat.Out+bN)), nCh), vx.Frs("by", 2))
	ki, ko := hx.Copy(mi), hx.Copy(mo)
	proof := cat.SymProof(bN, vx.Param("deg"))
	first := copyProof(proof)
	v := gkr.NewVerifier(bN, c)
	ok := v.Verify(proof, in, out)
	unchanged := func() {
		vx.Assert(vx.And(vx.EqS(mi, ki), vx.EqS(mo, ko)), "verifying does not modify the statement")
		sameProof(proof, first, "verifying does not modify the proof")
	}
	unchanged()
	vx.Assert(vx.Iff(v.Verify(proof, in, out), ok), "verifying twice gives the same result")
	w := gkr.NewVerifier(bN, c)
	vx.Assert(vx.Iff(w.Verify(proof, in, out), ok), "another verifier gives the same result")
	unchanged()
	sameCircuit(c, ints, ids)
	vx.Reach("end")
}

// Mimc: assigning the example circuit, and its description.
func Mimc() {
	bN, nCh, cores := vx.Param("bN"), 1<<uint(vx.Param("chunks")), vx.Param("cores")
	c := examples.CreateMimcCircuit()
	ints, ids := describe(c)
	in, mem := shared(hx.Chunk(vx.Frs("x", 2<<uint(bN)), nCh), vx.Frs("behind", 2))
	keep := hx.Copy(mem)
	a := c.Assign(in, cores)
	last := hx.Copy2(a.Values[len(a.Values)-1])
	b := c.Assign(in, cores)
	same2(b.Values[len(b.Values)-1], last, "assigning twice gives the same assignment")
	same2(a.Values[len(a.Values)-1], last, "the first assignment keeps its values")
	vx.Assert(vx.EqS(mem, keep), "assigning does not modify the inputs")
	sameCircuit(c, ints, ids)
	sameCircuit(examples.CreateMimcCircuit(), ints, ids)
	vx.Reach("end")
}
