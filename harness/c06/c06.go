// Package c06: the sumcheck verifier on arbitrary proofs.
package c06

import (
	"gkr-mimc/sumcheck"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

// Iff: acceptance is exactly the conjunction of the round checks.
func Iff() {
	bG, bN, deg := vx.Param("bG"), vx.Param("bN"), vx.Param("deg")
	n := 2*bG + bN
	claim := vx.Fr("claim")
	var proof sumcheck.Proof
	for i := 0; i < n; i++ {
		proof.PolyCoeffs = append(proof.PolyCoeffs, vx.Frs("p"+string(rune('a'+i)), deg+1))
	}
	var v sumcheck.Verifier
	ok, qPrime, qL, qR, last := v.Verify(claim, proof, bN, bG)

	run := claim
	var rs []fr.Element
	var conds []bool
	for i := 0; i < n; i++ {
		at0, at1 := hx.Poly(proof.PolyCoeffs[i], hx.C(0)), hx.Poly(proof.PolyCoeffs[i], hx.C(1))
		at0.Add(&at0, &at1)
		conds = append(conds, vx.Eq(at0, run))
		r := vx.Hash(proof.PolyCoeffs[i])
		rs = append(rs, r)
		run = hx.Poly(proof.PolyCoeffs[i], r)
	}
	vx.Assert(vx.Iff(ok, vx.And(conds...)), "accepts exactly when every round check holds")
	if ok {
		vx.Reach("accepted")
		vx.Assert(vx.EqS(qL, rs[:bG]), "left challenges")
		vx.Assert(vx.EqS(qR, rs[bG:2*bG]), "right challenges")
		vx.Assert(vx.EqS(qPrime, rs[2*bG:]), "copy challenges")
		vx.Assert(vx.Eq(last, run), "the final value is the last polynomial at the last challenge")
	} else {
		vx.Reach("rejected")
	}
	vx.Reach("end")
}

// Twice: the transcript lies in the memory of one that was judged before.
func Twice() {
	bG, bN, deg := vx.Param("bG"), vx.Param("bN"), vx.Param("deg")
	n := 2*bG + bN
	claim := vx.Fr("claim")
	var proof sumcheck.Proof
	for i := 0; i < n; i++ {
		proof.PolyCoeffs = append(proof.PolyCoeffs, vx.Frs("p"+string(rune('a'+i)), deg+1))
	}
	var v sumcheck.Verifier
	v.Verify(claim, proof, bN, bG)
	claim = vx.Fr("claim2")
	for i := range proof.PolyCoeffs {
		copy(proof.PolyCoeffs[i], vx.Frs("s"+string(rune('a'+i)), deg+1))
	}
	ok, qPrime, qL, qR, last := v.Verify(claim, proof, bN, bG)
	run := claim
	var rs []fr.Element
	var conds []bool
	for i := 0; i < n; i++ {
		at0, at1 := hx.Poly(proof.PolyCoeffs[i], hx.C(0)), hx.Poly(proof.PolyCoeffs[i], hx.C(1))
		at0.Add(&at0, &at1)
		conds = append(conds, vx.Eq(at0, run))
		r := vx.Hash(proof.PolyCoeffs[i])
		rs = append(rs, r)
		run = hx.Poly(proof.PolyCoeffs[i], r)
	}
	vx.Assert(vx.Iff(ok, vx.And(conds...)), "accepts exactly when every round check holds, whatever was verified before")
	if ok {
		vx.Assert(vx.EqS(hx.Cat(qL, qR, qPrime), rs), "challenges")
		vx.Assert(vx.Eq(last, run), "the final value is the last polynomial at the last challenge")
	}
	vx.Reach("end")
}
