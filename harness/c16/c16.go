// Package c16: static tables, gate lists and widths.
package c16

import (
	"gkr-mimc/circuit"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

func log2(n int) int {
	b := 0
	for 1<<uint(b) < n {
		b++
	}
	return b
}

func check(ws []hx.W) {
	c := hx.Circ{Layers: [][]hx.W{ws}}
	wires := c.Wires()[0]
	l := circuit.NewLayer(wires)
	in, out := 1, 1
	var kinds []int
	for _, w := range ws {
		if w.L+1 > in {
			in = w.L + 1
		}
		if w.R+1 > in {
			in = w.R + 1
		}
		if w.O+1 > out {
			out = w.O + 1
		}
		seen := false
		for _, k := range kinds {
			seen = seen || k == w.Kind
		}
		if !seen {
			kinds = append(kinds, w.Kind)
		}
	}
	bi, bo := log2(in), log2(out)
	vx.Assert(vx.And(vx.IntEq(l.BGInputs, bi), vx.IntEq(l.BGOutputs, bo)), "widths are the smallest powers of two covering the indices")
	vx.Assert(vx.IntEq(len(l.Gates), len(kinds)), "every distinct gate is listed once")
	vx.Assert(vx.IntEq(len(l.Wires), len(ws)), "the wires are kept")
	for i, k := range kinds {
		vx.Assert(l.Gates[i].ID() == hx.Gate(k, hx.Ark(k)).ID(), "gates are listed in order of first appearance")
	}
	q := vx.Frs("q", bo)
	keep := hx.Copy(q)
	for rep := 0; rep < 2; rep++ {
		t := l.GetStaticTable(q)
		vx.Assert(vx.IntEq(len(t), len(kinds)), "one static table per gate")
		for i, k := range kinds {
			vx.Assert(vx.IntEq(len(t[i].Table), 1<<uint(2*bi)), "a static table is indexed by left and right input")
			want := make([]fr.Element, 1<<uint(2*bi))
			for _, w := range ws {
				if w.Kind == k {
					e := hx.EqAt(keep, w.O)
					want[w.L<<uint(bi)+w.R].Add(&want[w.L<<uint(bi)+w.R], &e)
				}
			}
			vx.Assert(vx.EqS(t[i].Table, want), "static tables hold the weights of exactly the gate's wires")
			if rep == 0 && len(t[i].Table) > 1 {
				t[i].Fold(hx.C(3)) // the next tables must be fresh
			}
		}
	}
	vx.Assert(vx.EqS(q, keep), "the point is unchanged")
	vx.Reach("end")
}

// Wirings: every wiring with a given number of wires.
func Wirings() {
	nw, wi, wo, kinds := vx.Param("wires"), vx.Param("in"), vx.Param("out"), vx.Param("kinds")
	var ws []hx.W
	for i := 0; i < nw; i++ {
		k := string(rune('0' + i))
		w := hx.W{L: vx.Choose("L"+k, wi), R: vx.Choose("R"+k, wi), O: vx.Choose("O"+k, wo)}
		w.Kind = []int{hx.Mul, hx.Cipher, hx.Cipher + 1, hx.Cpy}[vx.Choose("K"+k, kinds)]
		ws = append(ws, w)
	}
	check(ws)
}

// Catalogue: the layers of the catalogued circuits.
func Catalogue() {
	c := hx.Catalogue(vx.Param("circ"))
	check(c.Layers[vx.Choose("layer", len(c.Layers))])
}

// Widths: widths and gate lists for arbitrary indices.
func Widths() {
	nw, hi := vx.Param("wires"), 1<<uint(vx.Param("bits"))-1
	var ws []circuit.Wire
	var ids []int
	for i := 0; i < nw; i++ {
		k := string(rune('0' + i))
		w := circuit.Wire{L: vx.Int("L"+k, 0, hi), R: vx.Int("R"+k, 0, hi), O: vx.Int("O"+k, 0, hi)}
		w.Gate = hx.Gate([]int{hx.Mul, hx.Add, hx.Cpy}[(i+i/2)%3], hx.C(1))
		ws = append(ws, w)
		ids = append(ids, w.L, w.R)
	}
	l := circuit.NewLayer(ws)
	in, out := l.BGInputs, l.BGOutputs
	vx.Assert(vx.And(in >= 0, out >= 0, in < 63, out < 63), "widths are logarithms")
	fits, needed := true, vx.IntEq(in, 0)
	for _, x := range ids {
		fits = vx.And(fits, x < 1<<uint(in))
		if in > 0 {
			needed = vx.Or(needed, x >= 1<<uint(in-1))
		}
	}
	vx.Assert(fits, "every input index fits the width")
	vx.Assert(needed, "the input width is the smallest one")
	fits, needed = true, vx.IntEq(out, 0)
	for _, w := range ws {
		fits = vx.And(fits, w.O < 1<<uint(out))
		if out > 0 {
			needed = vx.Or(needed, w.O >= 1<<uint(out-1))
		}
	}
	vx.Assert(fits, "every output index fits the width")
	vx.Assert(needed, "the output width is the smallest one")
	for i, w := range l.Wires {
		vx.Assert(vx.And(vx.IntEq(w.L, ids[2*i]), vx.IntEq(w.R, ids[2*i+1])), "the wires are kept")
	}
	vx.Reach("end")
}

// Again: the tables of one layer at one point after another, in other memory and in the same.
func Again() {
	cat := hx.Catalogue(vx.Param("circ"))
	k := vx.Choose("layer", len(cat.Layers))
	ws := cat.Layers[k]
	bi := cat.In[k]
	bo := cat.Out
	if k+1 < len(cat.Layers) {
		bo = cat.In[k+1]
	}
	c := cat.Build()
	l := &c.Layers[k]
	var q []fr.Element
	for _, p := range []string{"a", "b", "c"} {
		x := vx.Frs("q"+p, bo)
		if p == "b" {
			copy(q, x)
		} else {
			q = x
		}
		t := l.GetStaticTable(q)
		var kinds []int
		for _, w := range ws {
			seen := false
			for _, k := range kinds {
				seen = seen || k == w.Kind
			}
			if !seen {
				kinds = append(kinds, w.Kind)
			}
		}
		vx.Assert(vx.IntEq(len(t), len(kinds)), "one static table per gate")
		for i, kind := range kinds {
			want := make([]fr.Element, 1<<uint(2*bi))
			for _, w := range ws {
				if w.Kind == kind {
					e := hx.EqAt(x, w.O)
					want[w.L<<uint(bi)+w.R].Add(&want[w.L<<uint(bi)+w.R], &e)
				}
			}
			vx.Assert(vx.EqS(t[i].Table, want), "static tables hold the weights of the gate's wires, whatever was computed before")
		}
	}
	vx.Reach("end")
}
