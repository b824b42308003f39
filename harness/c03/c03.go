// Package c03: a proof is bound to its inputs and outputs.
package c03

import (
	"gkr-mimc/gkr"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

// Outputs: altering one claimed output makes any accepted proof rejected.
func Outputs() {
	cat := hx.Catalogue(vx.Param("circ"))
	bN := vx.Param("bN")
	nCh := 1 << uint(vx.Param("chunks"))
	in := vx.Frs("x", 1<<uint(cat.In[0]+bN))
	out := vx.Frs("y", 1<<uint(cat.Out+bN))
	proof := cat.SymProof(bN, vx.Param("deg"))
	v := gkr.NewVerifier(bN, cat.Build())
	ci, co := hx.Chunk(in, nCh), hx.Chunk(out, nCh)
	vx.Assume(v.Verify(proof, ci, co))
	k := vx.Choose("position", len(out))
	d := vx.Fr("delta")
	vx.Assume(vx.Not(vx.Eq(d, hx.C(0))))
	// altered in place: what the verifier has seen before must not count
	x := &co[k%nCh][k/nCh]
	x.Add(x, &d)
	vx.Assert(vx.Not(v.Verify(proof, ci, co)), "an altered output is rejected")
	vx.Reach("end")
}

// Inputs: altering one input makes any accepted proof rejected, unless the final challenge ignores it.
func Inputs() {
	cat := hx.Catalogue(vx.Param("circ"))
	bN := vx.Param("bN")
	nCh := 1 << uint(vx.Param("chunks"))
	in := vx.Frs("x", 1<<uint(cat.In[0]+bN))
	out := vx.Frs("y", 1<<uint(cat.Out+bN))
	proof := cat.SymProof(bN, vx.Param("deg"))
	v := gkr.NewVerifier(bN, cat.Build())
	ci, co := hx.Chunk(in, nCh), hx.Chunk(out, nCh)
	vx.Assume(v.Verify(proof, ci, co))
	k := vx.Choose("position", len(in))
	d := vx.Fr("delta")
	vx.Assume(vx.Not(vx.Eq(d, hx.C(0))))
	// altered in place: what the verifier has seen before must not count
	x := &ci[k%nCh][k/nCh]
	x.Add(x, &d)
	ok := v.Verify(proof, ci, co)
	var rs []fr.Element
	for _, p := range proof.SumcheckProofs[0].PolyCoeffs {
		rs = append(rs, vx.Hash(p))
	}
	b := cat.In[0]
	wL := hx.EqAt(hx.Cat(rs[:b], rs[2*b:]), k)
	wR := hx.EqAt(hx.Cat(rs[b:2*b], rs[2*b:]), k)
	vx.Assert(vx.Implies(ok, vx.And(vx.Eq(wL, hx.C(0)), vx.Eq(wR, hx.C(0)))), "an altered input is rejected unless it has no weight")
	vx.Reach("end")
}

// Honest: an honest proof is not accepted for other outputs, whatever they are.
func Honest() {
	cat := hx.Catalogue(vx.Param("circ"))
	bN := vx.Param("bN")
	c := cat.Build()
	in := hx.Chunk(vx.Frs("x", 1<<uint(cat.In[0]+bN)), 1)
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	out := hx.Unchunk(a.Values[len(a.Values)-1])
	out2 := hx.Copy(out)
	d := vx.Frs("delta", len(out))
	var same []bool
	for i := range out2 {
		out2[i].Add(&out2[i], &d[i])
		same = append(same, vx.Eq(d[i], hx.C(0)))
	}
	v := gkr.NewVerifier(bN, c)
	vx.Assert(vx.Implies(v.Verify(proof, in, hx.Chunk(out2, 1)), vx.And(same...)), "other outputs are rejected")
	vx.Reach("end")
}

// Point: every output and every copy has a weight in the first claim. (A coordinate 0 or 1 would take it away.)
func Point() {
	bN, bG := vx.Param("bN"), vx.Param("bG")
	qPrime, q := gkr.GetInitialQPrimeAndQ(bN, bG)
	vx.Assert(vx.IntEq(len(qPrime), bN), "one coordinate per copy variable")
	vx.Assert(vx.IntEq(len(q), bG), "one coordinate per output variable")
	for _, r := range hx.Cat(qPrime, q) {
		vx.Assert(vx.Not(vx.Or(vx.Eq(r, hx.C(0)), vx.Eq(r, hx.C(1)))), "no output is left out of the first claim")
	}
	vx.Reach("end")
}

// InPlace: an honest proof is accepted, then the statement is altered in place: rejected from then on.
func InPlace() {
	cat := hx.Catalogue(vx.Param("circ"))
	bN := vx.Param("bN")
	nCh := 1 << uint(vx.Param("chunks"))
	c := cat.Build()
	in := hx.Chunk(vx.Frs("x", 1<<uint(cat.In[0]+bN)), nCh)
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	out := hx.Copy2(a.Values[len(a.Values)-1])
	v := gkr.NewVerifier(bN, c)
	vx.Assert(v.Verify(proof, in, out), "the honest proof is accepted")
	d := vx.Fr("delta")
	out[0][0].Add(&out[0][0], &d)
	vx.Assert(vx.Iff(v.Verify(proof, in, out), vx.Eq(d, hx.C(0))), "an output altered in place is rejected")
	out[0][0].Sub(&out[0][0], &d)
	vx.Assert(v.Verify(proof, in, out), "the honest proof is accepted again")
	in[0][0].Add(&in[0][0], &d)
	w := gkr.NewVerifier(bN, c)
	vx.Assert(vx.Iff(v.Verify(proof, in, out), w.Verify(proof, hx.Copy2(in), hx.Copy2(out))), "inputs altered in place are judged as a new verifier judges them")
	vx.Reach("end")
}
