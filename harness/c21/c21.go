// Package c21: the polynomial gadgets.
package c21

import (
	"gkr-mimc/polynomial"
	gpoly "gkr-mimc/snark/polynomial"
	"gkr-mimc/zz_verif/gad"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
)

func f(x ...fr.Element) []fr.Element { return x }

// iff states that the system accepts exactly the expected outputs, and that it accepts those.
func iff(name string, p []int, in, out, want []fr.Element, label string) {
	ok := gad.Sat(name, p, hx.Cat(in, out))
	vx.Assert(vx.Iff(ok, vx.EqS(out, want)), label)
	vx.Assert(gad.Sat(name, p, hx.Cat(in, want)), label+": an honest witness exists")
}

// Uni: evaluation, repeated evaluation, and the sum of the values at zero and one.
func Uni() {
	deg := vx.Param("deg")
	c := vx.Frs("c", deg+1)
	x, y := vx.Fr("x"), vx.Fr("y")
	out := vx.Frs("out", 3)
	at0, at1 := hx.C(0), hx.C(1)
	z, z1 := hx.Poly(c, at0), hx.Poly(c, at1)
	z.Add(&z, &z1)
	iff("uni", []int{deg}, hx.Cat(c, f(x, y)), out, f(hx.Poly(c, x), z, hx.Poly(c, y)), "univariate polynomial")
	iff("uninew", []int{deg}, hx.Cat(c, f(x)), out[:2], f(z, hx.Poly(c, x)), "univariate polynomial from variables")
	vx.Assert(vx.Eq(hx.Poly(c, x), polynomial.EvaluatePolynomial(c, x)), "the native evaluation is the same")
	vx.Reach("end")
}

// Multi: evaluation, repeated evaluation and folding of tables.
func Multi() {
	n := vx.Param("n")
	t := vx.Frs("t", 1<<uint(n))
	x, y := vx.Frs("x", n), vx.Frs("y", n)
	out := vx.Frs("out", 2)
	iff("ml", []int{n}, hx.Cat(t, x, y), out, f(hx.MLE(t, x), hx.MLE(t, y)), "multilinear polynomial")
	b := hx.BKT(t)
	vx.Assert(vx.Eq(hx.MLE(t, x), b.Evaluate(x)), "the native evaluation is the same")
	if n > 0 {
		h := 1 << uint(n-1)
		folded := make([]fr.Element, h)
		for i := range folded {
			folded[i] = hx.MLE(f(t[i], t[h+i]), x[:1])
		}
		out2 := vx.Frs("folded", h)
		iff("fold", []int{n}, hx.Cat(t, x[:1]), out2, folded, "folding")
	}
	vx.Reach("end")
}

// Mixed: the left and right evaluations sharing a copy point.
func Mixed() {
	bG, bN := vx.Param("bG"), vx.Param("bN")
	t := vx.Frs("t", 1<<uint(bG+bN))
	qL, qR, qP := vx.Frs("l", bG), vx.Frs("r", bG), vx.Frs("p", bN)
	out := vx.Frs("out", 3)
	l, r := hx.MLE(t, hx.Cat(qL, qP)), hx.MLE(t, hx.Cat(qR, qP))
	iff("mixed", []int{bG, bN}, hx.Cat(t, qL, qR, qP), out, f(l, r, l), "mixed evaluation")
	nl, nr := polynomial.EvaluateMixedChunked(polynomial.AsChunkedBookKeepingTable(hx.Chunk(t, 1)), hx.Copy(qP), hx.Copy(qL), hx.Copy(qR))
	vx.Assert(vx.And(vx.Eq(nl, l), vx.Eq(nr, r)), "the native mixed evaluation is the same")
	vx.Reach("end")
}

// EqPoly: the eq polynomial.
func EqPoly() {
	n := vx.Param("n")
	q, h := vx.Frs("q", n), vx.Frs("h", n)
	out := vx.Fr("out")
	iff("eq", []int{n}, hx.Cat(q, h), f(out), f(hx.Eq(q, h)), "eq polynomial")
	if n == 1 {
		iff("eq1", nil, hx.Cat(q, h), f(out), f(hx.Eq(q, h)), "eq polynomial in one variable")
	}
	vx.Assert(vx.Eq(hx.Eq(q, h), polynomial.EvalEq(q, h)), "the native eq polynomial is the same")
	vx.Reach("end")
}

func vals(vs []frontend.Variable, label string) []fr.Element {
	xs, all := gad.Values(vs)
	vx.Assert(all, label+": every variable is assigned")
	return xs
}

// Assign: the values of chunks, slices and coefficients reach their variables.
func Assign() {
	n, k := vx.Param("n"), vx.Param("chunks")
	t := vx.Frs("t", 1<<uint(n))
	m := gpoly.AllocateMultilinear(n)
	vx.Assert(vx.IntEq(len(m.Table), len(t)), "allocated size")
	ch := hx.Chunk(t, 1<<uint(k))
	m.AssignFromChunkedBKT(ch)
	xs := vals(m.Table, "from chunks")
	vx.Assert(vx.EqS(xs, t), "assigning from chunks lays values out as the table")
	vx.Assert(vx.EqS(hx.Unchunk(ch), t), "the chunks are unchanged")
	// what the gadget then evaluates is what the native chunked evaluation computes
	x := vx.Frs("x", n)
	y := vx.Frs("y", n)
	ev := polynomial.EvaluateChunked(polynomial.AsChunkedBookKeepingTable(ch), hx.Copy(x))
	vx.Assert(gad.Sat("ml", []int{n}, hx.Cat(xs, x, y, f(ev, hx.MLE(t, y)))), "gadget and native chunked evaluation agree")

	m2 := gpoly.AllocateMultilinear(n)
	var vs []interface{}
	for i := range t {
		vs = append(vs, t[i])
	}
	m2.Assign(vs)
	vx.Assert(vx.EqS(vals(m2.Table, "from values"), t), "assigning values keeps their order")

	u := gpoly.AllocateUnivariate(len(t) - 1)
	u.Assign(t)
	vx.Assert(vx.EqS(vals(u.Coefficients, "from coefficients"), t), "assigning coefficients keeps their order")
	dc := m2.DeepCopy()
	dc.Table[0] = frontend.Variable{}
	vx.Assert(vx.EqS(vals(m2.Table, "after copying"), t), "a deep copy is independent")
	vx.Reach("end")
}

// Refused: assignments of the wrong size panic or leave variables without a value, which the solver refuses.
func Refused() {
	n, size, k := vx.Param("n"), vx.Param("size"), vx.Param("chunks")
	t := vx.Frs("t", size)
	var vs []interface{}
	for i := range t {
		vs = append(vs, t[i])
	}
	want := 1 << uint(n)
	m := gpoly.AllocateMultilinear(n)
	vx.Assert(vx.Iff(vx.Panics(func() { m.Assign(vs) }), size != want), "values of the wrong number are refused")
	u := gpoly.AllocateUnivariate(want - 1)
	vx.Assert(vx.Iff(vx.Panics(func() { u.Assign(t) }), size != want), "coefficients of the wrong number are refused")
	if size%(1<<uint(k)) == 0 {
		m2 := gpoly.AllocateMultilinear(n)
		p := vx.Panics(func() { m2.AssignFromChunkedBKT(hx.Chunk(t, 1<<uint(k))) })
		_, all := gad.Values(m2.Table)
		vx.Assert(vx.Iff(p || !all, size != want), "chunks of the wrong size are refused")
	}
	vx.Reach("end")
}

// Several: several polynomials in one circuit, evaluated at variables and at constants.
func Several() {
	n := vx.Param("n")
	c, d, x := vx.Frs("c", n+1), vx.Frs("d", n+1), vx.Frs("x", n)
	sum := func(p []fr.Element) fr.Element {
		a, b := hx.Poly(p, hx.C(0)), hx.Poly(p, hx.C(1))
		a.Add(&a, &b)
		return a
	}
	iff("unis", []int{n}, hx.Cat(c, d, x[:1]), vx.Frs("o", 6), f(hx.Poly(c, x[0]), hx.Poly(d, x[0]), hx.Poly(c, hx.C(1)), hx.Poly(d, hx.C(1)), sum(c), sum(d)), "two univariate polynomials")
	t, u := vx.Frs("t", 1<<uint(n)), vx.Frs("u", 1<<uint(n))
	ones := make([]fr.Element, n)
	for i := range ones {
		ones[i] = hx.C(1)
	}
	at := func(k int) fr.Element { return hx.MLE(t, hx.Cat(f(hx.C(k)), x[1:])) }
	iff("mls", []int{n}, hx.Cat(t, u, x), vx.Frs("p", 6), f(hx.MLE(t, x), hx.MLE(u, x), at(0), at(1), hx.Eq(x, x), hx.Eq(x, ones)), "two multilinear polynomials")
	vx.Reach("end")
}
