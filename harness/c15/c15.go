// Package c15: evaluating layers.
package c15

import (
	"gkr-mimc/circuit"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

func log2(n int) int {
	b := 0
	for 1<<uint(b) < n {
		b++
	}
	return b
}

func widths(ws []hx.W) (in, out int) {
	for _, w := range ws {
		if w.L+1 > in {
			in = w.L + 1
		}
		if w.R+1 > in {
			in = w.R + 1
		}
		if w.O+1 > out {
			out = w.O + 1
		}
	}
	return log2(in), log2(out)
}

func choose() []hx.W {
	nw, wi, wo, kinds := vx.Param("wires"), vx.Param("in"), vx.Param("out"), vx.Param("kinds")
	var ws []hx.W
	for i := 0; i < nw; i++ {
		k := string(rune('0' + i))
		w := hx.W{L: vx.Choose("L"+k, wi), R: vx.Choose("R"+k, wi), O: vx.Choose("O"+k, wo)}
		w.Kind = []int{hx.Mul, hx.Add, hx.Cpy, hx.Cipher}[vx.Choose("K"+k, kinds)]
		ws = append(ws, w)
	}
	return ws
}

func layer(ws []hx.W, bN, nCh, cores int) {
	bi, bo := widths(ws)
	c := hx.Circ{Layers: [][]hx.W{ws}, In: []int{bi}, Out: bo}
	x := vx.Frs("x", 1<<uint(bi+bN))
	l := circuit.NewLayer(c.Wires()[0])
	in := hx.Chunk(x, nCh)
	out := l.Evaluate(in, cores)
	vx.Assert(vx.IntEq(len(out), nCh), "one output chunk per input chunk")
	want := hx.Chunk(c.Eval(0, x), nCh)
	for i := range want {
		vx.Assert(vx.EqS(out[i], want[i]), "every gate on every copy")
		vx.Assert(vx.EqS(in[i], hx.Chunk(x, nCh)[i]), "the inputs are unchanged")
	}
	vx.Reach("end")
}

// Wirings: every wiring with a given number of wires.
func Wirings() { layer(choose(), vx.Param("bN"), 1<<uint(vx.Param("chunks")), vx.Param("cores")) }

// Catalogue: the layers of the catalogued circuits.
func Catalogue() {
	c := hx.Catalogue(vx.Param("circ"))
	i := vx.Choose("layer", len(c.Layers))
	layer(c.Layers[i], vx.Param("bN"), 1<<uint(vx.Param("chunks")), vx.Param("cores"))
}

// Copies: any number of copies, a power of two or not, in any number of chunks.
func Copies() {
	c := hx.Catalogue(vx.Param("circ"))
	ly, n, k := vx.Param("layer"), vx.Param("n"), vx.Param("k")
	var in [][]fr.Element
	for i := 0; i < k; i++ {
		in = append(in, vx.Frs("x"+string(rune('a'+i)), n<<uint(c.In[ly])))
	}
	l := circuit.NewLayer(c.Wires()[ly])
	out := l.Evaluate(hx.Copy2(in), vx.Param("cores"))
	vx.Assert(vx.IntEq(len(out), k), "one output chunk per input chunk")
	for i := range in {
		vx.Assert(vx.EqS(out[i], c.Eval(ly, in[i])), "every gate on every copy")
	}
	vx.Reach("end")
}

// Assign: a full assignment chains the layers.
func Assign() {
	cat := hx.Catalogue(vx.Param("circ"))
	bN, nCh := vx.Param("bN"), 1<<uint(vx.Param("chunks"))
	x := vx.Frs("x", 1<<uint(cat.In[0]+bN))
	c := cat.Build()
	a := c.Assign(hx.Chunk(x, nCh), vx.Param("cores"))
	vx.Assert(vx.IntEq(len(a.Values), len(cat.Layers)+1), "one layer of values more than layers")
	cur := x
	for k := range a.Values {
		want := hx.Chunk(cur, nCh)
		vx.Assert(vx.IntEq(len(a.Values[k]), nCh), "same number of chunks everywhere")
		for i := range want {
			vx.Assert(vx.EqS(a.Values[k][i], want[i]), "inputs first, then layer after layer")
		}
		if k < len(cat.Layers) {
			cur = cat.Eval(k, cur)
		}
	}
	vx.Reach("end")
}

// Tables: per-layer tables handed out with copy share no memory with the assignment.
func Tables() {
	nCh, n := 1<<uint(vx.Param("chunks")), vx.Param("n")
	x, y := vx.Frs("x", 1<<uint(n)), vx.Frs("y", 1<<uint(n))
	a := circuit.Assignment{Values: [][][]fr.Element{hx.Chunk(x, nCh), hx.Chunk(y, nCh)}}
	d := vx.Fr("d")
	same := func(got [][]fr.Element, want []fr.Element, label string) {
		for i, w := range hx.Chunk(want, nCh) {
			vx.Assert(vx.EqS(got[i], w), label)
		}
	}
	for k, want := range [][]fr.Element{x, y} {
		t := a.LayerAsBKTWithCopy(k, vx.Param("cores"))
		t2 := a.LayerAsBKTWithCopy(k, vx.Param("cores"))
		nc := a.LayerAsBKTNoCopy(k)
		vx.Assert(vx.IntEq(len(t), nCh), "one table per chunk")
		for i, w := range hx.Chunk(want, nCh) {
			vx.Assert(vx.EqS(t[i].Table, w), "the tables hold the values of the layer")
			vx.Assert(vx.EqS(nc[i].Table, w), "the uncopied tables hold the values of the layer")
		}
		for i := range t {
			t[i].Fold(d)
			for j := range t[i].Table {
				t[i].Table[j].Add(&t[i].Table[j], &d)
			}
		}
		same(a.Values[0], x, "changing a copied table leaves the assignment")
		same(a.Values[1], y, "changing a copied table leaves the assignment")
		for i, w := range hx.Chunk(want, nCh) {
			vx.Assert(vx.EqS(t2[i].Table, w), "two copies are independent")
		}
	}
	vx.Reach("end")
}

// Again: one layer, or one circuit, evaluated on one input after another, in other memory and in the same.
func Again() {
	cat := hx.Catalogue(vx.Param("circ"))
	bN, nCh, cores := vx.Param("bN"), 1<<uint(vx.Param("chunks")), vx.Param("cores")
	c := cat.Build()
	var in [][]fr.Element
	for _, p := range []string{"a", "b", "c"} {
		x := vx.Frs("x"+p, 1<<uint(cat.In[0]+bN))
		ch := hx.Chunk(x, nCh)
		if p == "b" {
			for i := range in {
				copy(in[i], ch[i])
			}
		} else {
			in = ch
		}
		out := c.Layers[0].Evaluate(in, cores)
		for i, w := range hx.Chunk(cat.Eval(0, x), nCh) {
			vx.Assert(vx.EqS(out[i], w), "every gate on every copy, whatever was evaluated before")
		}
		a := c.Assign(in, cores)
		for k := range a.Values {
			for i, w := range hx.Chunk(x, nCh) {
				vx.Assert(vx.EqS(a.Values[k][i], w), "layer after layer, whatever was evaluated before")
			}
			if k < len(cat.Layers) {
				x = cat.Eval(k, x)
			}
		}
	}
	vx.Reach("end")
}
