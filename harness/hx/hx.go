// Package hx holds the reference definitions and the circuit catalogue shared by the harnesses.
//
// The reference definitions are the textbook ones: sums and products over the boolean hypercube.
package hx

import (
	"gkr-mimc/circuit"

	"github.com/consensys/gurvy/bn256/fr"
)

// C is a small constant.
func C(n int) fr.Element {
	var x fr.Element
	x.SetUint64(uint64(n))
	return x
}

// Bit is the j-th most significant of n bits of i.
func Bit(i, j, n int) bool { return (i>>uint(n-1-j))&1 == 1 }

// Eq is the product of q_j h_j + (1-q_j)(1-h_j).
func Eq(q, h []fr.Element) fr.Element {
	var res, one fr.Element
	one.SetOne()
	res.SetOne()
	for j := range q {
		var a, b, c fr.Element
		a.Mul(&q[j], &h[j])
		b.Sub(&one, &q[j])
		c.Sub(&one, &h[j])
		b.Mul(&b, &c)
		a.Add(&a, &b)
		res.Mul(&res, &a)
	}
	return res
}

// EqAt is eq(q, bits of i).
func EqAt(q []fr.Element, i int) fr.Element {
	var res, one fr.Element
	one.SetOne()
	res.SetOne()
	for j := range q {
		var f fr.Element
		if Bit(i, j, len(q)) {
			f = q[j]
		} else {
			f.Sub(&one, &q[j])
		}
		res.Mul(&res, &f)
	}
	return res
}

// MLE is the multilinear extension of table at point: the sum of table[i] * eq(point, i).
func MLE(table, point []fr.Element) fr.Element {
	var res fr.Element
	for i := range table {
		w := EqAt(point, i)
		w.Mul(&w, &table[i])
		res.Add(&res, &w)
	}
	return res
}

// Poly is the sum of coeffs[i] * x^i.
func Poly(coeffs []fr.Element, x fr.Element) fr.Element {
	var res, pow fr.Element
	pow.SetOne()
	for i := range coeffs {
		var t fr.Element
		t.Mul(&coeffs[i], &pow)
		res.Add(&res, &t)
		pow.Mul(&pow, &x)
	}
	return res
}

// Pow7 is x^7.
func Pow7(x fr.Element) fr.Element {
	r := x
	for i := 0; i < 6; i++ {
		r.Mul(&r, &x)
	}
	return r
}

// Chunk splits a table into interleaved chunks: chunk k holds the entries k, k+n, k+2n...
func Chunk(table []fr.Element, n int) [][]fr.Element {
	res := make([][]fr.Element, n)
	for k := range res {
		for i := k; i < len(table); i += n {
			res[k] = append(res[k], table[i])
		}
	}
	return res
}

// Unchunk is the inverse of Chunk.
func Unchunk(chunks [][]fr.Element) []fr.Element {
	n := len(chunks)
	res := make([]fr.Element, n*len(chunks[0]))
	for k := range chunks {
		for i := range chunks[k] {
			res[k+i*n] = chunks[k][i]
		}
	}
	return res
}

// Copy is a deep copy.
func Copy(a []fr.Element) []fr.Element { return append([]fr.Element{}, a...) }

// Copy2 is a deep copy.
func Copy2(a [][]fr.Element) [][]fr.Element {
	res := make([][]fr.Element, len(a))
	for i := range a {
		res[i] = Copy(a[i])
	}
	return res
}

// ---------- gates

// The gate kinds of the catalogue. A kind of Cipher+i is the cipher gate with constant i.
const (
	Add = iota
	Mul
	Cpy
	Cipher
)

// Gate is the gate of a kind.
func Gate(kind int, ark fr.Element) circuit.Gate {
	switch {
	case kind == Add:
		return circuit.AddGate{}
	case kind == Mul:
		return circuit.MulGate{}
	case kind == Cpy:
		return circuit.CopyGate{}
	}
	return circuit.NewCipherGate(ark)
}

// GateRef is what a gate of that kind must compute.
func GateRef(kind int, ark, l, r fr.Element) fr.Element {
	var res fr.Element
	switch {
	case kind == Add:
		res.Add(&l, &r)
	case kind == Mul:
		res.Mul(&l, &r)
	case kind == Cpy:
		res = l
	default:
		res.Add(&r, &ark)
		res = Pow7(res)
		res.Add(&res, &l)
	}
	return res
}

// W is a wire of a catalogued circuit.
type W struct{ L, R, O, Kind int }

// Circ describes a layered circuit.
type Circ struct {
	Layers [][]W
	// log2 of the widths: In[i] of the inputs of layer i, Out of the outputs of the last layer
	In  []int
	Out int
}

// Ark is the constant of cipher gates of kind k in the catalogue.
func Ark(k int) fr.Element { return C(7*k + 5) }

func (c Circ) Wires() [][]circuit.Wire {
	res := make([][]circuit.Wire, len(c.Layers))
	for i, l := range c.Layers {
		for _, w := range l {
			res[i] = append(res[i], circuit.Wire{L: w.L, R: w.R, O: w.O, Gate: Gate(w.Kind, Ark(w.Kind))})
		}
	}
	return res
}

// Build makes the circuit.
func (c Circ) Build() circuit.Circuit { return circuit.NewCircuit(c.Wires()) }

func (c Circ) outWidth(i int) int {
	if i+1 < len(c.In) {
		return 1 << uint(c.In[i+1])
	}
	return 1 << uint(c.Out)
}

// Eval evaluates one layer on one unchunked table (index = wire * N + copy).
func (c Circ) Eval(layer int, in []fr.Element) []fr.Element {
	n := len(in) >> uint(c.In[layer])
	out := make([]fr.Element, n*c.outWidth(layer))
	for _, w := range c.Layers[layer] {
		for h := 0; h < n; h++ {
			v := GateRef(w.Kind, Ark(w.Kind), in[w.L*n+h], in[w.R*n+h])
			out[w.O*n+h].Add(&out[w.O*n+h], &v)
		}
	}
	return out
}

// Catalogue of circuits.
func Catalogue(id int) Circ {
	switch id {
	case 0: // one addition
		return Circ{Layers: [][]W{{{0, 1, 0, Add}}}, In: []int{1}, Out: 0}
	case 1: // two outputs, two gates
		return Circ{Layers: [][]W{{{0, 1, 0, Mul}, {1, 0, 1, Add}}}, In: []int{1}, Out: 1}
	case 2: // the same gate on several wires, also into the same output
		return Circ{Layers: [][]W{{{0, 1, 0, Mul}, {1, 1, 1, Mul}, {0, 0, 1, Add}, {0, 1, 1, Mul}}}, In: []int{1}, Out: 1}
	case 3: // two layers
		return Circ{Layers: [][]W{
			{{0, 1, 0, Mul}, {1, 0, 1, Add}},
			{{0, 1, 0, Add}, {1, 1, 1, Mul}},
		}, In: []int{1, 1}, Out: 1}
	case 4: // three layers, the last with one output
		return Circ{Layers: [][]W{
			{{0, 1, 0, Mul}, {1, 0, 1, Cpy}},
			{{0, 1, 0, Add}, {1, 0, 1, Mul}, {1, 1, 1, Add}},
			{{1, 0, 0, Mul}},
		}, In: []int{1, 1, 1}, Out: 0}
	case 5: // one round of the mimc shape
		return Circ{Layers: [][]W{{{1, 0, 0, Cipher}}}, In: []int{1}, Out: 0}
	case 6: // two rounds of the mimc shape
		return Circ{Layers: [][]W{
			{{1, 0, 0, Cipher}, {1, 1, 1, Cpy}},
			{{1, 0, 0, Cipher + 1}},
		}, In: []int{1, 1}, Out: 0}
	case 7: // wider layers
		return Circ{Layers: [][]W{
			{{0, 1, 0, Mul}, {2, 3, 1, Add}, {3, 0, 2, Mul}, {1, 2, 3, Add}},
			{{0, 2, 0, Mul}, {1, 3, 1, Add}},
		}, In: []int{2, 2}, Out: 1}
	case 8: // widening, narrowing, unused wires and outputs without wires
		return Circ{Layers: [][]W{
			{{0, 1, 0, Mul}, {1, 1, 2, Add}, {1, 0, 2, Mul}, {0, 0, 3, Cpy}},
			{{3, 0, 1, Mul}, {2, 1, 0, Add}},
			{{0, 1, 0, Cpy}},
		}, In: []int{1, 2, 1}, Out: 0}
	case 9: // width-one layers
		return Circ{Layers: [][]W{
			{{0, 0, 0, Mul}},
			{{0, 0, 0, Add}},
		}, In: []int{0, 0}, Out: 0}
	case 10: // one width-one input feeding two outputs
		return Circ{Layers: [][]W{
			{{0, 0, 0, Mul}, {0, 0, 1, Add}},
			{{0, 1, 0, Mul}, {1, 0, 1, Mul}},
		}, In: []int{0, 1}, Out: 1}
	case 11: // five gates in one layer
		return Circ{Layers: [][]W{
			{{0, 0, 1, Mul}, {1, 1, 0, Add}, {0, 0, 0, Cpy}, {1, 0, 1, Cipher}, {0, 1, 0, Cipher + 1}},
		}, In: []int{1}, Out: 1}
	case 12: // three gates in each of two layers, wires on equal and on (0, 0) inputs
		return Circ{Layers: [][]W{
			{{1, 1, 0, Mul}, {0, 0, 1, Add}, {0, 1, 0, Cpy}},
			{{0, 0, 1, Cpy}, {1, 0, 0, Mul}, {0, 1, 1, Add}},
		}, In: []int{1, 1}, Out: 1}
	case 13: // the right input decides the width, the indices are not monotone
		return Circ{Layers: [][]W{
			{{1, 2, 0, Mul}, {0, 1, 0, Add}},
		}, In: []int{2}, Out: 0}
	case 14: // the left input decides the width, three outputs
		return Circ{Layers: [][]W{
			{{2, 1, 2, Add}, {0, 1, 0, Mul}, {1, 1, 1, Mul}},
			{{2, 0, 0, Mul}, {1, 2, 1, Mul}},
		}, In: []int{2, 2}, Out: 1}
	case 15: // four layers
		return Circ{Layers: [][]W{
			{{0, 1, 0, Mul}, {1, 1, 1, Add}},
			{{1, 0, 0, Add}, {0, 0, 1, Mul}},
			{{0, 1, 1, Mul}, {1, 0, 0, Cpy}},
			{{1, 0, 0, Mul}},
		}, In: []int{1, 1, 1, 1}, Out: 0}
	case 16: // five layers of one value
		return Circ{Layers: [][]W{
			{{0, 0, 0, Add}},
			{{0, 0, 0, Mul}},
			{{0, 0, 0, Cpy}},
			{{0, 0, 0, Mul}, {0, 0, 0, Add}},
			{{0, 0, 0, Mul}},
		}, In: []int{0, 0, 0, 0, 0}, Out: 0}
	case 17: // five inputs, three outputs, three gates
		return Circ{Layers: [][]W{
			{{4, 1, 2, Mul}, {0, 3, 0, Add}, {2, 2, 1, Cpy}, {3, 4, 2, Add}, {1, 0, 0, Mul}},
		}, In: []int{3}, Out: 2}
	case 18: // a wide output from a narrow input, then the top output alone
		return Circ{Layers: [][]W{
			{{0, 0, 3, Mul}, {0, 0, 5, Add}, {0, 0, 0, Cpy}},
			{{5, 3, 0, Mul}, {0, 5, 1, Add}},
		}, In: []int{0, 3}, Out: 1}
	}
	panic("no such circuit")
}

// NCat is the size of the catalogue.
const NCat = 19

// ---------- sumcheck instances

// Sum is a sumcheck instance: the sum over l, r, h of eq[h] * sum_i static_i[l,r] * gate_i(vL[l,h], vR[r,h]).
type Sum struct {
	Kinds      []int
	VL, VR, Eq []fr.Element
	Statics    [][]fr.Element
	BL, BR, BN int // log-sizes of the three groups of variables
}

// Gates of the instance.
func (s Sum) Gates() []circuit.Gate {
	var g []circuit.Gate
	for _, k := range s.Kinds {
		g = append(g, Gate(k, Ark(k)))
	}
	return g
}

// KindSet is a catalogue of gate lists.
func KindSet(id int) []int {
	switch id {
	case 0:
		return []int{Add}
	case 1:
		return []int{Mul}
	case 2:
		return []int{Cpy, Cipher}
	case 3:
		return []int{Add, Mul}
	case 4:
		return []int{Cpy}
	case 5:
		return []int{Cipher + 1}
	case 6:
		return []int{Mul, Cpy, Add}
	case 7:
		return []int{Cipher, Cipher + 1}
	// the order of the gates, whatever their degrees, is arbitrary
	case 8:
		return []int{Cpy, Add}
	case 9:
		return []int{Mul, Add}
	case 10:
		return []int{Cpy, Mul}
	case 11:
		return []int{Mul, Cpy}
	case 12:
		return []int{Add, Cpy}
	case 13:
		return []int{Cipher, Cpy}
	case 14:
		return []int{Cpy, Mul, Add}
	case 15:
		return []int{Cpy, Add, Mul, Cipher}
	case 16:
		return []int{Cipher + 1, Mul, Add, Cpy}
	case 17:
		return []int{Add, Cipher}
	}
	panic("no such gate list")
}

// Partial is the sum with the first variables of each group bound: hl, hr, hp are points for the leading
// variables, the rest is summed over the hypercube. It is computed from the definition.
func (s Sum) Partial(hl, hr, hp []fr.Element) fr.Element {
	var res fr.Element
	nl, nr, nn := s.BL-len(hl), s.BR-len(hr), s.BN-len(hp)
	vl := bindLead(s.VL, append(append([]fr.Element{}, hl...)), s.BL, s.BN, hp)
	vr := bindLead(s.VR, append(append([]fr.Element{}, hr...)), s.BR, s.BN, hp)
	eq := bindLead(s.Eq, nil, 0, s.BN, hp)
	st := make([][]fr.Element, len(s.Statics))
	for i := range st {
		st[i] = bindLead(s.Statics[i], hl, s.BL, s.BR, hr)
	}
	for h := 0; h < 1<<uint(nn); h++ {
		for l := 0; l < 1<<uint(nl); l++ {
			for r := 0; r < 1<<uint(nr); r++ {
				for i, k := range s.Kinds {
					v := GateRef(k, Ark(k), vl[l<<uint(nn)+h], vr[r<<uint(nn)+h])
					v.Mul(&v, &st[i][l<<uint(nr)+r])
					v.Mul(&v, &eq[h])
					res.Add(&res, &v)
				}
			}
		}
	}
	return res
}

// bindLead binds the leading variables of the two groups (sizes na, nb) of a table to a and b.
func bindLead(t, a []fr.Element, na, nb int, b []fr.Element) []fr.Element {
	ra, rb := na-len(a), nb-len(b)
	res := make([]fr.Element, 1<<uint(ra+rb))
	for i := 0; i < 1<<uint(ra); i++ {
		for j := 0; j < 1<<uint(rb); j++ {
			var acc fr.Element
			for x := 0; x < 1<<uint(len(a)); x++ {
				for y := 0; y < 1<<uint(len(b)); y++ {
					w := EqAt(a, x)
					w2 := EqAt(b, y)
					w.Mul(&w, &w2)
					w.Mul(&w, &t[(x<<uint(ra)+i)<<uint(nb)+(y<<uint(rb)+j)])
					acc.Add(&acc, &w)
				}
			}
			res[i<<uint(rb)+j] = acc
		}
	}
	return res
}

// ---------- GKR reference

// Points are the challenges of one layer.
type Points struct{ L, R, P []fr.Element }

// RoundChecks are the sumcheck conditions of a list of round polynomials for a claim, the challenges and the
// final running value.
func RoundChecks(claim fr.Element, polys [][]fr.Element, hash func([]fr.Element) fr.Element, eq func(a, b fr.Element) bool) (conds []bool, rs []fr.Element, run fr.Element) {
	run = claim
	for i := range polys {
		at0, at1 := Poly(polys[i], C(0)), Poly(polys[i], C(1))
		at0.Add(&at0, &at1)
		conds = append(conds, eq(at0, run))
		r := hash(polys[i])
		rs = append(rs, r)
		run = Poly(polys[i], r)
	}
	return
}

// Combine is the sum over the wires of a layer of weight(output) * eq(l, left) * eq(r, right) * gate(vL, vR).
func (c Circ) Combine(layer int, weight func(o int) fr.Element, hl, hr []fr.Element, vl, vr fr.Element) fr.Element {
	var res fr.Element
	for _, w := range c.Layers[layer] {
		t := weight(w.O)
		a, b := EqAt(hl, w.L), EqAt(hr, w.R)
		g := GateRef(w.Kind, Ark(w.Kind), vl, vr)
		t.Mul(&t, &a)
		t.Mul(&t, &b)
		t.Mul(&t, &g)
		res.Add(&res, &t)
	}
	return res
}

// Cat concatenates.
func Cat(a ...[]fr.Element) []fr.Element {
	var r []fr.Element
	for _, x := range a {
		r = append(r, x...)
	}
	return r
}
