// Package c17: the example MiMC circuit.
package c17

import (
	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	gsnark "gkr-mimc/snark/gkr"
	"gkr-mimc/zz_verif/gad"
	"gkr-mimc/zz_verif/golden"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

const rounds = 91

// Run: the circuit on (state+block, block) in every copy.
func Run() {
	bN, nCh, cores := vx.Param("bN"), 1<<uint(vx.Param("chunks")), vx.Param("cores")
	n := 1 << uint(bN)
	state, block := vx.Frs("s", n), vx.Frs("b", n)
	in := make([]fr.Element, 2*n)
	run := make([]fr.Element, n)
	for h := range state {
		run[h].Add(&state[h], &block[h])
		in[h], in[n+h] = run[h], block[h]
	}
	c := examples.CreateMimcCircuit()
	vx.Assert(vx.IntEq(len(c.Layers), rounds), "one layer per round")
	a := c.Assign(hx.Chunk(in, nCh), cores)
	vx.Assert(vx.IntEq(len(a.Values), rounds+1), "one table per layer and one for the inputs")
	// run is the state before a round plus the block; perm the MiMC permutation of the state keyed by the block
	perm := hx.Copy(state)
	for i := 0; i < rounds; i++ {
		for h := range run {
			perm[h].Add(&perm[h], &block[h])
			perm[h].Add(&perm[h], &golden.Ark[i])
			perm[h] = hx.Pow7(perm[h])
			run[h].Add(&perm[h], &block[h])
		}
		want := hx.Copy(run)
		if i+1 < rounds {
			want = hx.Cat(run, block)
		}
		got := a.Values[i+1]
		vx.Assert(vx.IntEq(len(got), nCh), "one chunk per input chunk")
		for k, w := range hx.Chunk(want, nCh) {
			if i+1 < rounds {
				vx.Assert(vx.EqS(got[k], w), "intermediate layers hold the running state and the block")
			} else {
				vx.Assert(vx.EqS(got[k], w), "the output is the permutation plus the block")
			}
		}
	}
	vx.Reach("end")
}

// Layers: widths, gates and static tables of every layer.
func Layers() {
	c := examples.CreateMimcCircuit()
	q := vx.Fr("q")
	zero, one := hx.C(0), hx.C(1)
	var nq fr.Element
	nq.Sub(&one, &q)
	vx.Assert(vx.IntEq(len(c.Layers), rounds), "one layer per round")
	for i := range c.Layers {
		l := &c.Layers[i]
		last := i == rounds-1
		want := [][]fr.Element{{zero, zero, nq, zero}, {zero, zero, q, zero}}
		pt := []fr.Element{q}
		bOut := 1
		if last {
			want = [][]fr.Element{{zero, zero, one, zero}}
			pt, bOut = nil, 0
		}
		vx.Assert(vx.And(vx.IntEq(l.BGInputs, 1), vx.IntEq(l.BGOutputs, bOut)), "widths")
		vx.Assert(vx.IntEq(len(l.Gates), len(want)), "gates of a layer")
		st := l.GetStaticTable(pt)
		vx.Assert(vx.IntEq(len(st), len(want)), "one static table per gate")
		x, y := vx.Fr("x"+string(rune(1000+i))), vx.Fr("y"+string(rune(1000+i)))
		for g := range want {
			vx.Assert(vx.EqS(st[g].Table, want[g]), "the wiring")
			var got fr.Element
			l.Gates[g].Eval(&got, &x, &y)
			exp := x
			if g == 0 {
				exp = hx.GateRef(hx.Cipher, golden.Ark[i], x, y)
			}
			vx.Assert(vx.Eq(got, exp), "the gates and their constants")
		}
	}
	vx.Reach("end")
}

// Snark: the combination of every layer of the snark description is the one of the native layer.
func Snark() {
	bN := vx.Param("bN")
	c := examples.CreateMimcCircuit()
	vx.Assert(vx.IntEq(len(c.Layers), rounds), "one layer per round")
	qL, qR, hL, hR := vx.Frs("qL", 1), vx.Frs("qR", 1), vx.Frs("hL", 1), vx.Frs("hR", 1)
	qP, hP := vx.Frs("qP", bN), vx.Frs("hP", bN)
	lam := vx.Frs("lambda", 2)
	vL, vR := vx.Fr("vL"), vx.Fr("vR")
	in := hx.Cat(qL, qR, qP, hL, hR, hP, lam, []fr.Element{vL, vR})
	var want []fr.Element
	for i := range c.Layers {
		l := &c.Layers[i]
		one := hx.C(1)
		pt := hx.Cat(hL, hR)
		// the weights of the layer's two outputs: at q, and combined for qL and qR
		weight := func(q []fr.Element, o int) fr.Element {
			if i == rounds-1 {
				return one // a single output
			}
			return hx.EqAt(q, o)
		}
		both := func(o int) fr.Element {
			a, b := weight(qL, o), weight(qR, o)
			a.Mul(&a, &lam[0])
			b.Mul(&b, &lam[1])
			a.Add(&a, &b)
			return a
		}
		single := func(o int) fr.Element { return weight(qL, o) }
		e := hx.Eq(qP, hP)
		ws := []func(int) fr.Element{single, both}
		if i == rounds-1 {
			ws = ws[:1]
		}
		for _, w := range ws {
			var v fr.Element
			for g := 0; g < len(l.Gates); g++ {
				x := hx.GateRef(hx.Cipher, golden.Ark[i], vL, vR)
				if g == 1 {
					x = vL
				}
				y := w(g)
				x.Mul(&x, &y)
				v.Add(&v, &x)
			}
			// gates read the block (wire 1) on their left and the state (wire 0) on their right
			var wire fr.Element
			wire.Sub(&one, &hR[0])
			wire.Mul(&wire, &hL[0])
			v.Mul(&v, &wire)
			v.Mul(&v, &e)
			want = append(want, v)
		}
		// the native layer evaluates to the same
		q := qL
		if i == rounds-1 {
			q = nil
		}
		tabs := l.GetStaticTable(q)
		evals := make([]fr.Element, len(tabs))
		for k := range tabs {
			evals[k] = tabs[k].Evaluate(pt)
		}
		nat := circuit.EvaluateCombinator(&vL, &vR, &e, l.Gates, evals)
		vx.Assert(vx.Eq(nat, want[2*i]), "the native combination")
	}
	vx.Assert(vx.IntEq(len(want), 2*rounds-1), "two combinations per layer, one of the output layer")
	out := vx.Frs("out", len(want))
	vx.Assert(vx.Iff(gad.Sat("layers", []int{bN}, hx.Cat(in, out)), vx.EqS(out, want)), "the snark description has the same layers, gates, constants and wiring")
	vx.Assert(gad.Sat("layers", []int{bN}, hx.Cat(in, want)), "the snark description has an honest witness")
	s := gsnark.CreateMimcCircuit()
	vx.Assert(vx.And(vx.IntEq(s.BGOut, 0), vx.IntEq(len(s.Layers), rounds)), "output width and number of layers")
	for i := range s.Layers {
		l, r, p := 0, 0, 0
		for _, g := range c.Layers[i].Gates {
			a, b, d := g.Degrees()
			l, r, p = max(l, a), max(r, b), max(p, d)
		}
		vx.Assert(vx.And(vx.IntEq(s.Layers[i].BG, 1), vx.IntEq(s.Layers[i].DegHL, l+1), vx.IntEq(s.Layers[i].DegHR, r+1), vx.IntEq(s.Layers[i].DegHPrime, p+1)), "widths and degrees")
	}
	vx.Reach("end")
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
