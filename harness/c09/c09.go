// Package c09: GetClaim.
package c09

import (
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"
)

// Single: the claim is the full sum, and computing it does not disturb proving.
func Single() {
	b := vx.Param("bG")
	s := hx.SymSum(hx.KindSet(vx.Param("gates")), b, b, vx.Param("bN"))
	p, q := s.Single(), s.Single()
	c := p.GetClaim()
	vx.Assert(vx.Eq(c, s.Partial(nil, nil, nil)), "the claim is the sum over the hypercube")
	vx.Assert(vx.Eq(p.GetClaim(), c), "the claim can be computed again")
	if vx.Param("prove") == 1 {
		proof, qPrime, qL, qR, fin := p.Prove()
		proof2, qPrime2, qL2, qR2, fin2 := q.Prove()
		for i := range proof.PolyCoeffs {
			vx.Assert(vx.EqS(proof.PolyCoeffs[i], proof2.PolyCoeffs[i]), "proving is undisturbed")
		}
		vx.Assert(vx.And(vx.EqS(qPrime, qPrime2), vx.EqS(qL, qL2), vx.EqS(qR, qR2), vx.EqS(fin, fin2)), "proving is undisturbed")
	}
	vx.Reach("end")
}

// Multi: the same for the multi-threaded prover.
func Multi() {
	b := vx.Param("bG")
	s := hx.SymSum(hx.KindSet(vx.Param("gates")), b, b, vx.Param("bN"))
	nCh, cores := 1<<uint(vx.Param("chunks")), vx.Param("cores")
	p, q := s.Multi(nCh), s.Multi(nCh)
	c := p.GetClaim(cores)
	vx.Assert(vx.Eq(c, s.Partial(nil, nil, nil)), "the claim is the sum over the hypercube")
	if vx.Param("prove") == 1 {
		proof, qPrime, qL, qR, fin := p.Prove(cores)
		proof2, qPrime2, qL2, qR2, fin2 := q.Prove(cores)
		for i := range proof.PolyCoeffs {
			vx.Assert(vx.EqS(proof.PolyCoeffs[i], proof2.PolyCoeffs[i]), "proving is undisturbed")
		}
		vx.Assert(vx.And(vx.EqS(qPrime, qPrime2), vx.EqS(qL, qL2), vx.EqS(qR, qR2), vx.EqS(fin, fin2)), "proving is undisturbed")
	}
	vx.Reach("end")
}

// Again: the claims of one instance after another.
func Again() {
	b := vx.Param("bG")
	s := hx.SymSum(hx.KindSet(vx.Param("gates")), b, b, vx.Param("bN"))
	p, m := s.Single(), s.Multi(1<<uint(vx.Param("chunks")))
	vx.Assert(vx.Eq(p.GetClaim(), s.Partial(nil, nil, nil)), "the claim is the sum over the hypercube")
	vx.Assert(vx.Eq(m.GetClaim(vx.Param("cores")), s.Partial(nil, nil, nil)), "the claim is the sum over the hypercube")
	s.Refill("z")
	p, m = s.Single(), s.Multi(1<<uint(vx.Param("chunks")))
	vx.Assert(vx.Eq(p.GetClaim(), s.Partial(nil, nil, nil)), "the claim is the sum over the hypercube, whatever was computed before")
	vx.Assert(vx.Eq(m.GetClaim(vx.Param("cores")), s.Partial(nil, nil, nil)), "the claim is the sum over the hypercube, whatever was computed before")
	vx.Reach("end")
}
