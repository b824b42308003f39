// Package c07: multi-threaded proving equals single-threaded proving.
package c07

import (
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"
)

// Same: same proof, challenges and claims.
func Same() {
	b := vx.Param("bG")
	s := hx.SymSum(hx.KindSet(vx.Param("gates")), b, b, vx.Param("bN"))
	p := s.Single()
	m := s.Multi(1 << uint(vx.Param("chunks")))
	proof, qPrime, qL, qR, fin := p.Prove()
	proof2, qPrime2, qL2, qR2, fin2 := m.Prove(vx.Param("cores"))
	vx.Assert(vx.IntEq(len(proof.PolyCoeffs), len(proof2.PolyCoeffs)), "same number of rounds")
	for i := range proof.PolyCoeffs {
		vx.Assert(vx.EqS(proof.PolyCoeffs[i], proof2.PolyCoeffs[i]), "same round polynomials")
	}
	vx.Assert(vx.EqS(qPrime, qPrime2), "same copy challenges")
	vx.Assert(vx.EqS(qL, qL2), "same left challenges")
	vx.Assert(vx.EqS(qR, qR2), "same right challenges")
	vx.Assert(vx.EqS(fin, fin2), "same final claims")
	vx.Reach("end")
}
