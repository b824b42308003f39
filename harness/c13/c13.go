// Package c13: interpolation.
package c13

import (
	"gkr-mimc/polynomial"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"
)

// Interpolate: n coefficients, right values; interpolating values of a polynomial gives it back.
func Interpolate() {
	n := vx.Param("n")
	v, c := vx.Frs("v", n), vx.Frs("c", n)
	keep := hx.Copy(v)
	r := polynomial.InterpolateOnRange(v)
	vx.Assert(vx.IntEq(len(r), n), "n coefficients")
	for i := 0; i < n; i++ {
		vx.Assert(vx.Eq(hx.Poly(r, hx.C(i)), keep[i]), "takes the i-th value at i")
	}
	vx.Assert(vx.EqS(v, keep), "the values are unchanged")
	vals := hx.Copy(c)
	for i := range vals {
		vals[i] = hx.Poly(c, hx.C(i))
	}
	vx.Assert(vx.EqS(polynomial.InterpolateOnRange(vals), c), "interpolating the values of a polynomial returns it")
	// the tables are not consumed by interpolating
	vx.Assert(vx.EqS(polynomial.InterpolateOnRange(keep), r), "interpolation can be repeated")
	vx.Reach("end")
}

// Evaluate is the sum of coefficient times power.
func Evaluate() {
	n := vx.Param("n")
	c, x := vx.Frs("c", n), vx.Fr("x")
	keep := hx.Copy(c)
	vx.Assert(vx.Eq(polynomial.EvaluatePolynomial(c, x), hx.Poly(keep, x)), "polynomial evaluation")
	vx.Assert(vx.EqS(c, keep), "the coefficients are unchanged")
	vx.Reach("end")
}

// Again: one list of values after another, in other memory and in the same, and a shorter one.
func Again() {
	n := vx.Param("n")
	v, x := vx.Frs("v", n), vx.Fr("x")
	for _, p := range []string{"a", "b", "c"} {
		w, y := vx.Frs("v"+p, n), vx.Fr("x"+p)
		if p == "b" {
			copy(v, w)
		} else {
			v = hx.Copy(w)
		}
		if p != "b" {
			x = y
		}
		vx.Assert(vx.Eq(polynomial.EvaluatePolynomial(v, x), hx.Poly(w, x)), "polynomial evaluation, whatever was evaluated before")
		r := polynomial.InterpolateOnRange(v)
		for i := 0; i < n; i++ {
			vx.Assert(vx.Eq(hx.Poly(r, hx.C(i)), w[i]), "takes the i-th value at i, whatever was interpolated before")
		}
		if n > 1 {
			r = polynomial.InterpolateOnRange(v[:n-1])
			for i := 0; i < n-1; i++ {
				vx.Assert(vx.Eq(hx.Poly(r, hx.C(i)), w[i]), "takes the i-th value at i for the shorter list")
			}
		}
	}
	vx.Reach("end")
}
