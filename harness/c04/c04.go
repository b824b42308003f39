// Package c04: the prover's round polynomials.
package c04

import (
	"gkr-mimc/polynomial"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

func one(x fr.Element) []fr.Element { return []fr.Element{x} }

// HL: the round on the first left variable, from any prover state.
func HL() {
	s := hx.SymSum(hx.KindSet(vx.Param("gates")), vx.Param("bL"), vx.Param("bR"), vx.Param("bN"))
	p := s.Single()
	check(p.GetEvalsOnHL(), func(x fr.Element) fr.Element { return s.Partial(one(x), nil, nil) })
}

// HR: the round on the first right variable, the left ones being bound.
func HR() {
	s := hx.SymSum(hx.KindSet(vx.Param("gates")), 0, vx.Param("bR"), vx.Param("bN"))
	p := s.Single()
	check(p.GetEvalsOnHR(), func(x fr.Element) fr.Element { return s.Partial(nil, one(x), nil) })
}

// HPrime: the round on the first copy variable, the others being bound.
func HPrime() {
	s := hx.SymSum(hx.KindSet(vx.Param("gates")), 0, 0, vx.Param("bN"))
	p := s.Single()
	check(p.GetEvalsOnHPrime(), func(x fr.Element) fr.Element { return s.Partial(nil, nil, one(x)) })
}

func check(evals []fr.Element, ref func(fr.Element) fr.Element) {
	for i := range evals {
		vx.Assert(vx.Eq(evals[i], ref(hx.C(i))), "the evaluations are the partial sums")
	}
	x := vx.Fr("x")
	coeffs := polynomial.InterpolateOnRange(evals)
	vx.Assert(vx.Eq(hx.Poly(coeffs, x), ref(x)), "the round polynomial is the partial sum at every point")
	vx.Reach("end")
}

// Whole: every round polynomial of a full proof.
func Whole() {
	b := vx.Param("bG")
	s := hx.SymSum(hx.KindSet(vx.Param("gates")), b, b, vx.Param("bN"))
	p := s.Single()
	proof, _, _, _, _ := p.Prove()
	x := vx.Fr("x")
	var pt []fr.Element
	for i := range proof.PolyCoeffs {
		var hl, hr, hp []fr.Element
		at := append(append([]fr.Element{}, pt...), x)
		for j, r := range at {
			if j < b {
				hl = append(hl, r)
			} else if j < 2*b {
				hr = append(hr, r)
			} else {
				hp = append(hp, r)
			}
		}
		vx.Assert(vx.Eq(hx.Poly(proof.PolyCoeffs[i], x), s.Partial(hl, hr, hp)), "every emitted polynomial is the partial sum")
		pt = append(pt, vx.Hash(proof.PolyCoeffs[i]))
	}
	vx.Assert(vx.IntEq(len(proof.PolyCoeffs), 2*b+s.BN), "one polynomial per variable")
	vx.Reach("end")
}
