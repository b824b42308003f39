// Package c26: table arithmetic.
package c26

import (
	"gkr-mimc/polynomial"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

// dest is a destination table: 0 none yet, 1 the left operand, 2 the right operand, 3 shorter, 4 exactly as long,
// 5 short with room behind, 6 longer.
func dest(kind, size int, l, r *polynomial.BookKeepingTable) (d *polynomial.BookKeepingTable, mem []fr.Element) {
	switch kind {
	case 1:
		return l, nil
	case 2:
		return r, nil
	case 3:
		return &polynomial.BookKeepingTable{Table: make([]fr.Element, size/2, size/2)}, nil
	case 4:
		mem = vx.Frs("dest", size)
		return &polynomial.BookKeepingTable{Table: mem}, nil
	case 5:
		mem = vx.Frs("dest", size+3)
		return &polynomial.BookKeepingTable{Table: mem[:size/2]}, mem
	case 6:
		mem = vx.Frs("dest", size+3)
		return &polynomial.BookKeepingTable{Table: mem}, mem
	}
	return &polynomial.BookKeepingTable{}, nil
}

// Op: op 0 sum, 1 difference, 2 scaling.
func Op() {
	op, size, kind, cores := vx.Param("op"), vx.Param("size"), vx.Param("dest"), vx.Param("cores")
	x, y := vx.Frs("x", size), vx.Frs("y", size)
	c := vx.Fr("c")
	kx, ky := hx.Copy(x), hx.Copy(y)
	l, r := polynomial.NewBookKeepingTable(x), polynomial.NewBookKeepingTable(y)
	d, mem := dest(kind, size, &l, &r)
	km := hx.Copy(mem)
	switch op {
	case 0:
		d.Add(l, r)
	case 1:
		d.Sub(l, r, cores)
	case 2:
		if kind == 2 {
			l, r = r, l
			x, y = y, x
			kx, ky = ky, kx
		}
		d.Mul(c, l, cores)
	}
	vx.Assert(vx.IntEq(len(d.Table), size), "the result is as long as the operands")
	want := make([]fr.Element, size)
	for i := range want {
		switch op {
		case 0:
			want[i].Add(&kx[i], &ky[i])
		case 1:
			want[i].Sub(&kx[i], &ky[i])
		case 2:
			want[i].Mul(&kx[i], &c)
		}
	}
	vx.Assert(vx.EqS(d.Table, want), "every element is computed")
	if d != &l {
		vx.Assert(vx.EqS(x, kx), "an operand that is not the destination keeps its values")
	}
	if d != &r {
		vx.Assert(vx.EqS(y, ky), "an operand that is not the destination keeps its values")
	}
	if mem != nil {
		vx.Assert(vx.EqS(mem[size:], km[size:]), "nothing is written behind the result")
	}
	if kind == 0 || kind == 3 {
		// the result has its own memory
		for i := range d.Table {
			d.Table[i].Add(&d.Table[i], &c)
		}
		vx.Assert(vx.And(vx.EqS(x, kx), vx.EqS(y, ky)), "the result has its own memory")
	}
	vx.Reach("end")
}

// Combination: linear combinations of two tables.
func Combination() {
	size := vx.Param("size")
	x, y := vx.Frs("x", size), vx.Frs("y", size)
	a, b := vx.Fr("a"), vx.Fr("b")
	kx, ky := hx.Copy(x), hx.Copy(y)
	t := polynomial.LinearCombinationOfBookKeepingTables(polynomial.NewBookKeepingTable(x), polynomial.NewBookKeepingTable(y), a, b)
	want := make([]fr.Element, size)
	for i := range want {
		var u, v fr.Element
		u.Mul(&kx[i], &a)
		v.Mul(&ky[i], &b)
		want[i].Add(&u, &v)
	}
	vx.Assert(vx.EqS(t.Table, want), "two-term linear combination")
	vx.Reach("end")
}

// Mismatch: sums and differences of tables of different sizes are refused.
func Mismatch() {
	op, n, m, cores := vx.Param("op"), vx.Param("n"), vx.Param("m"), vx.Param("cores")
	x, y := vx.Frs("x", n), vx.Frs("y", m)
	vx.Assert(vx.Panics(func() {
		var d polynomial.BookKeepingTable
		l, r := polynomial.NewBookKeepingTable(x), polynomial.NewBookKeepingTable(y)
		if op == 0 {
			d.Add(l, r)
		} else {
			d.Sub(l, r, cores)
		}
	}), "tables of different sizes are refused")
	vx.Reach("end")
}

// Again: the operations, one after another, on the same tables with other contents.
func Again() {
	size, cores := vx.Param("size"), vx.Param("cores")
	x, y := make([]fr.Element, size), make([]fr.Element, size)
	var d [3]polynomial.BookKeepingTable
	var last fr.Element
	for _, p := range []string{"a", "b", "c"} {
		u, v, c := vx.Frs("x"+p, size), vx.Frs("y"+p, size), vx.Fr("c"+p)
		if p == "c" {
			c = last // the same factor once more
		}
		last = c
		copy(x, u)
		copy(y, v)
		l, r := polynomial.NewBookKeepingTable(x), polynomial.NewBookKeepingTable(y)
		d[0].Add(l, r)
		d[1].Sub(l, r, cores)
		d[2].Mul(c, l, cores)
		var w [3][]fr.Element
		for k := range w {
			w[k] = make([]fr.Element, size)
		}
		for i := 0; i < size; i++ {
			w[0][i].Add(&u[i], &v[i])
			w[1][i].Sub(&u[i], &v[i])
			w[2][i].Mul(&u[i], &c)
		}
		for k := range w {
			vx.Assert(vx.EqS(d[k].Table, w[k]), "every element is computed, whatever was computed before")
		}
	}
	vx.Reach("end")
}
