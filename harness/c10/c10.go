// Package c10: folding and evaluating tables.
package c10

import (
	"gkr-mimc/polynomial"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"
)

// Evaluate: full evaluation is the multilinear extension and does not change the table.
func Evaluate() {
	n := vx.Param("n")
	t := vx.Frs("t", 1<<uint(n))
	p := vx.Frs("p", n)
	keep, keepP := hx.Copy(t), hx.Copy(p)
	b := polynomial.NewBookKeepingTable(t)
	r := b.Evaluate(p)
	vx.Assert(vx.Eq(r, hx.MLE(keep, p)), "Evaluate is the multilinear extension")
	vx.Assert(vx.EqS(b.Table, keep), "Evaluate leaves the table unchanged")
	vx.Assert(vx.EqS(p, keepP), "Evaluate leaves the point unchanged")
	r2 := b.Evaluate(p)
	vx.Assert(vx.Eq(r, r2), "Evaluate can be repeated")
	vx.Reach("end")
}

// Fold: folding binds the first variable.
func Fold() {
	n := vx.Param("n")
	t := vx.Frs("t", 1<<uint(n))
	p := vx.Frs("p", n)
	b := hx.BKT(t)
	for k := 0; k < n; k++ {
		b.Fold(p[k])
		size := 1 << uint(n-k-1)
		vx.Assert(vx.IntEq(len(b.Table), size), "folding halves the table")
		for i := range b.Table {
			want := hx.C(0)
			for j := 0; j < 1<<uint(k+1); j++ {
				w := hx.EqAt(p[:k+1], j)
				w.Mul(&w, &t[j*size+i])
				want.Add(&want, &w)
			}
			vx.Assert(vx.Eq(b.Table[i], want), "folding binds the first remaining variable")
		}
	}
	vx.Reach("end")
}

// LeftRight: the two evaluations, the point being given in separate slices or in one.
func LeftRight() {
	bG, bN := vx.Param("bG"), vx.Param("bN")
	t := vx.Frs("t", 1<<uint(bG+bN))
	hL, hR, hP, mem := hx.Layout(vx.Param("layout"), vx.Frs("hL", bG), vx.Frs("hR", bG), vx.Frs("hP", bN), vx.Frs("behind", bG+bN))
	kL, kR, kP, kM := hx.Copy(hL), hx.Copy(hR), hx.Copy(hP), hx.Copy(mem)
	b := polynomial.NewBookKeepingTable(hx.Copy(t))
	l, r := b.EvaluateLeftAndRight(hP, hL, hR)
	vx.Assert(vx.Eq(l, hx.MLE(t, hx.Cat(kL, kP))), "left evaluation")
	vx.Assert(vx.Eq(r, hx.MLE(t, hx.Cat(kR, kP))), "right evaluation")
	vx.Assert(vx.EqS(b.Table, t), "the table is unchanged")
	vx.Assert(vx.And(vx.EqS(hL, kL), vx.EqS(hR, kR), vx.EqS(hP, kP), vx.EqS(mem, kM)), "the point and the memory around it are unchanged")
	vx.Reach("end")
}

// Copy: a deep copy equals the original and shares no memory with it.
func Copy() {
	n := vx.Param("n")
	t := vx.Frs("t", 1<<uint(n))
	keep := hx.Copy(t)
	b := polynomial.NewBookKeepingTable(t)
	c := b.DeepCopy()
	vx.Assert(vx.EqS(c.Table, keep), "the copy has the same values")
	x := vx.Fr("x")
	for i := range c.Table {
		c.Table[i].Add(&c.Table[i], &x)
	}
	vx.Assert(vx.EqS(b.Table, keep), "changing the copy leaves the original")
	d := b.DeepCopy()
	for i := range b.Table {
		b.Table[i].Add(&b.Table[i], &x)
	}
	vx.Assert(vx.EqS(d.Table, keep), "changing the original leaves the copy")
	if n > 0 {
		e := d.DeepCopy()
		e.Fold(x)
		vx.Assert(vx.EqS(d.Table, keep), "folding the copy leaves the original")
		// a copy of a folded table
		f := e.DeepCopy()
		vx.Assert(vx.EqS(f.Table, e.Table), "a folded table is copied")
	}
	vx.Reach("end")
}

// Chunk: the interleaved chunk holds every n-th entry.
func Chunk() {
	n, k := vx.Param("n"), 1<<uint(vx.Param("chunks"))
	t := vx.Frs("t", 1<<uint(n))
	b := polynomial.NewBookKeepingTable(hx.Copy(t))
	want := hx.Chunk(t, k)
	for i := 0; i < k; i++ {
		c := b.InterleavedChunk(i, k)
		vx.Assert(vx.EqS(c.Table, want[i]), "interleaved chunk")
	}
	vx.Assert(vx.EqS(b.Table, t), "chunking leaves the table")
	ev := b.FunctionEvals()
	for i := range ev {
		var d = t[i+len(t)/2]
		d.Sub(&d, &t[i])
		vx.Assert(vx.Eq(ev[i], d), "function evaluations are the slopes in the first variable")
	}
	vx.Assert(vx.EqS(b.Table, t), "function evaluations leave the table")
	vx.Reach("end")
}

// Again: one table after another, at one point after another, in other memory and in the same.
func Again() {
	bG, bN := vx.Param("bG"), vx.Param("bN")
	n := bG + bN
	t, hL, hR, hP := vx.Frs("t", 1<<uint(n)), vx.Frs("hL", bG), vx.Frs("hR", bG), vx.Frs("hP", bN)
	for _, p := range []string{"a", "b", "c"} {
		u, l, r, q := vx.Frs("t"+p, 1<<uint(n)), vx.Frs("hL"+p, bG), vx.Frs("hR"+p, bG), vx.Frs("hP"+p, bN)
		if p == "a" {
			copy(t, u)
		}
		if p != "c" {
			copy(hL, l)
			copy(hR, r)
			copy(hP, q)
		} else {
			hL, hR, hP = hx.Copy(l), hx.Copy(r), hx.Copy(q)
			copy(t, u)
		}
		b := polynomial.NewBookKeepingTable(t)
		want := hx.MLE(t, hx.Cat(l, q))
		vx.Assert(vx.Eq(b.Evaluate(hx.Cat(l, q)), want), "multilinear extension, whatever was evaluated before")
		x, y := b.EvaluateLeftAndRight(hP, hL, hR)
		vx.Assert(vx.Eq(x, want), "left evaluation, whatever was evaluated before")
		vx.Assert(vx.Eq(y, hx.MLE(t, hx.Cat(r, q))), "right evaluation, whatever was evaluated before")
	}
	vx.Reach("end")
}
