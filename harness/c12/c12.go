// Package c12: evaluating chunked tables.
package c12

import (
	"gkr-mimc/polynomial"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

func unchanged(b []polynomial.BookKeepingTable, want [][]fr.Element) {
	vx.Assert(vx.IntEq(len(b), len(want)), "the chunks are unchanged")
	for i := range want {
		vx.Assert(vx.EqS(b[i].Table, want[i]), "the chunks are unchanged")
	}
}

// Plain evaluation.
func Plain() {
	n, k := vx.Param("n"), 1<<uint(vx.Param("chunks"))
	t, q := vx.Frs("t", 1<<uint(n)), vx.Frs("q", n)
	keep := hx.Copy(q)
	ch := hx.Chunk(t, k)
	b := polynomial.AsChunkedBookKeepingTable(hx.Copy2(ch))
	vx.Assert(vx.Eq(polynomial.EvaluateChunked(b, q), hx.MLE(t, keep)), "equals the evaluation of the whole table")
	unchanged(b, ch)
	vx.Assert(vx.EqS(q, keep), "the point is unchanged")
	vx.Assert(vx.Eq(polynomial.EvaluateChunked(b, q), hx.MLE(t, keep)), "can be repeated")
	vx.Reach("end")
}

// Mixed: left and right evaluation.
func Mixed() {
	bG, bN, k := vx.Param("bG"), vx.Param("bN"), 1<<uint(vx.Param("chunks"))
	t := vx.Frs("t", 1<<uint(bG+bN))
	hL, hR, hP, mem := hx.Layout(vx.Param("layout"), vx.Frs("hL", bG), vx.Frs("hR", bG), vx.Frs("hP", bN), vx.Frs("behind", bG+bN))
	kL, kR, kP, kM := hx.Copy(hL), hx.Copy(hR), hx.Copy(hP), hx.Copy(mem)
	ch := hx.Chunk(t, k)
	b := polynomial.AsChunkedBookKeepingTable(hx.Shared(ch))
	l, r := polynomial.EvaluateMixedChunked(b, hP, hL, hR)
	vx.Assert(vx.Eq(l, hx.MLE(t, hx.Cat(kL, kP))), "left evaluation equals that of the whole table")
	vx.Assert(vx.Eq(r, hx.MLE(t, hx.Cat(kR, kP))), "right evaluation equals that of the whole table")
	unchanged(b, ch)
	vx.Assert(vx.And(vx.EqS(hL, kL), vx.EqS(hR, kR), vx.EqS(hP, kP), vx.EqS(mem, kM)), "the point and the memory around it are unchanged")
	vx.Reach("end")
}

// Refused: chunk counts that are not a power of two, or more chunks than the point has room for.
func Refused() {
	k, bG, bN := vx.Param("k"), vx.Param("bG"), vx.Param("bN")
	ch := make([][]fr.Element, k)
	for i := range ch {
		ch[i] = vx.Frs("t"+string(rune('a'+i)), 1<<uint(bG))
	}
	q := vx.Frs("q", 2*bG+bN)
	b := polynomial.AsChunkedBookKeepingTable(ch)
	vx.Assert(vx.Panics(func() { polynomial.EvaluateMixedChunked(b, q[2*bG:], q[:bG], q[bG:2*bG]) }), "left/right evaluation refuses")
	if vx.Param("plain") == 1 {
		vx.Assert(vx.Panics(func() { polynomial.EvaluateChunked(b, q[:bN]) }), "plain evaluation refuses")
	}
	vx.Reach("end")
}

// Again: one chunked table after another, at one point after another, in other memory and in the same.
func Again() {
	bG, bN, k := vx.Param("bG"), vx.Param("bN"), 1<<uint(vx.Param("chunks"))
	n := bG + bN
	var ch [][]fr.Element
	hL, hR, hP := vx.Frs("hL", bG), vx.Frs("hR", bG), vx.Frs("hP", bN)
	var t []fr.Element
	for _, p := range []string{"a", "b", "c", "d"} {
		l, r, q := vx.Frs("hL"+p, bG), vx.Frs("hR"+p, bG), vx.Frs("hP"+p, bN)
		copy(hL, l)
		copy(hR, r)
		copy(hP, q)
		switch p {
		case "a":
			t = vx.Frs("t"+p, 1<<uint(n))
			ch = hx.Chunk(t, k)
		case "c": // the same memory
			t = vx.Frs("t"+p, 1<<uint(n))
			for i, w := range hx.Chunk(t, k) {
				copy(ch[i], w)
			}
		case "d":
			t = vx.Frs("t"+p, 1<<uint(n))
			ch = hx.Chunk(t, k)
		}
		b := polynomial.AsChunkedBookKeepingTable(ch)
		x, y := polynomial.EvaluateMixedChunked(b, hP, hL, hR)
		vx.Assert(vx.Eq(x, hx.MLE(t, hx.Cat(l, q))), "left evaluation, whatever was evaluated before")
		vx.Assert(vx.Eq(y, hx.MLE(t, hx.Cat(r, q))), "right evaluation, whatever was evaluated before")
		vx.Assert(vx.Eq(polynomial.EvaluateChunked(b, hx.Cat(hL, hP)), x), "evaluation of the whole table, whatever was evaluated before")
	}
	vx.Reach("end")
}
