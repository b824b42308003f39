// Package c11: the forms of the eq polynomial.
package c11

import (
	"gkr-mimc/polynomial"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

// Forms: the folded table, its evaluation and the closed form.
func Forms() {
	n := vx.Param("n")
	q, h := vx.Frs("q", n), vx.Frs("h", n)
	keep := hx.Copy(q)
	t := polynomial.GetFoldedEqTable(q)
	vx.Assert(vx.IntEq(len(t.Table), 1<<uint(n)), "one entry per boolean index")
	for i := range t.Table {
		vx.Assert(vx.Eq(t.Table[i], hx.EqAt(keep, i)), "entries are the products of q_i or 1-q_i")
	}
	e := polynomial.EvalEq(q, h)
	vx.Assert(vx.Eq(e, hx.Eq(keep, h)), "closed form")
	vx.Assert(vx.Eq(e, polynomial.EvalEq(h, q)), "symmetric")
	vx.Assert(vx.Eq(t.Evaluate(h), e), "the table evaluates to the closed form")
	vx.Assert(vx.EqS(q, keep), "the point is unchanged")
	vx.Reach("end")
}

// Boolean: 1 on equal boolean points and 0 on different ones.
func Boolean() {
	n := vx.Param("n")
	i, j := vx.Choose("i", 1<<uint(n)), vx.Choose("j", 1<<uint(n))
	a, b := make([]fr.Element, n), make([]fr.Element, n)
	for k := 0; k < n; k++ {
		if hx.Bit(i, k, n) {
			a[k].SetOne()
		}
		if hx.Bit(j, k, n) {
			b[k].SetOne()
		}
	}
	want := hx.C(0)
	if i == j {
		want = hx.C(1)
	}
	vx.Assert(vx.Eq(polynomial.EvalEq(a, b), want), "indicator of equality on boolean points")
	vx.Reach("end")
}

// Chunked: the chunked table is the interleaved split of the plain one.
func Chunked() {
	n, k := vx.Param("n"), 1<<uint(vx.Param("chunks"))
	q := vx.Frs("q", n)
	keep := hx.Copy(q)
	c := polynomial.GetChunkedEqTable(q, k, vx.Param("cores"))
	vx.Assert(vx.IntEq(len(c), k), "one table per chunk")
	plain := make([]fr.Element, 1<<uint(n))
	for i := range plain {
		plain[i] = hx.EqAt(keep, i)
	}
	for i, w := range hx.Chunk(plain, k) {
		vx.Assert(vx.EqS(c[i].Table, w), "interleaved split of the unchunked table")
	}
	vx.Assert(vx.EqS(q, keep), "the point is unchanged")
	vx.Reach("end")
}

// Again: one point after another, in other memory and in the same.
func Again() {
	n, k := vx.Param("n"), 1<<uint(vx.Param("chunks"))
	q, h := vx.Frs("q", n), vx.Frs("h", n)
	for _, p := range []string{"a", "b", "c"} {
		x, y := vx.Frs("q"+p, n), vx.Frs("h"+p, n)
		if p == "b" {
			copy(q, x)
			copy(h, y)
		} else {
			q, h = x, y
		}
		plain := make([]fr.Element, 1<<uint(n))
		for i := range plain {
			plain[i] = hx.EqAt(x, i)
		}
		vx.Assert(vx.EqS(polynomial.GetFoldedEqTable(q).Table, plain), "entries are the products of q_i or 1-q_i, whatever was computed before")
		vx.Assert(vx.Eq(polynomial.EvalEq(q, h), hx.Eq(x, y)), "closed form, whatever was computed before")
		c := polynomial.GetChunkedEqTable(q, k, vx.Param("cores"))
		for i, w := range hx.Chunk(plain, k) {
			vx.Assert(vx.EqS(c[i].Table, w), "interleaved split of the unchunked table, whatever was computed before")
		}
	}
	if n > 0 {
		// a shorter point
		t := polynomial.GetFoldedEqTable(q[:n-1])
		for i := range t.Table {
			vx.Assert(vx.Eq(t.Table[i], hx.EqAt(q[:n-1], i)), "a shorter point")
		}
	}
	vx.Reach("end")
}
