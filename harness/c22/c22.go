// Package c22: the sumcheck verifier gadget.
package c22

import (
	gsum "gkr-mimc/snark/sumcheck"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zz_verif/gad"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

func shape(bG, bN int) (l []int) {
	for i := 0; i < bG; i++ {
		l = append(l, vx.Param("dL")+1)
	}
	for i := 0; i < bG; i++ {
		l = append(l, vx.Param("dR")+1)
	}
	for i := 0; i < bN; i++ {
		l = append(l, vx.Param("dP")+1)
	}
	return
}

// Iff: the gadget accepts exactly when the native verifier accepts, with the native challenges and last claim.
func Iff() {
	bG, bN := vx.Param("bG"), vx.Param("bN")
	p := []int{bG, bN, vx.Param("dL"), vx.Param("dR"), vx.Param("dP")}
	claim := vx.Fr("claim")
	var proof sumcheck.Proof
	for i, n := range shape(bG, bN) {
		proof.PolyCoeffs = append(proof.PolyCoeffs, vx.Frs("p"+string(rune('a'+i)), n))
	}
	gp := gsum.AllocateProof(bN, bG, p[2], p[3], p[4])
	gp.Assign(proof)
	in := []fr.Element{claim}
	assigned := true
	for i := range gp.HPolys {
		xs, all := gad.Values(gp.HPolys[i].Coefficients)
		assigned = assigned && all
		in = append(in, xs...)
	}
	vx.Assert(assigned, "assigning a proof gives every variable a value")
	hs := vx.Frs("h", 2*bG+bN)
	lastOut := vx.Fr("last")
	for i := range proof.PolyCoeffs {
		gad.Know(proof.PolyCoeffs[i])
	}
	sat := gad.Sat("sumcheck", p, hx.Cat(in, hs, []fr.Element{lastOut}))
	var v sumcheck.Verifier
	ok, qPrime, qL, qR, last := v.Verify(claim, proof, bN, bG)
	if ok {
		vx.Assert(vx.Iff(sat, vx.And(vx.EqS(hs, hx.Cat(qL, qR, qPrime)), vx.Eq(lastOut, last))), "accepts accepted proofs with exactly the native challenges and last claim")
		vx.Assert(gad.Sat("sumcheck", p, hx.Cat(in, qL, qR, qPrime, []fr.Element{last})), "an honest witness exists")
		vx.Reach("accepted")
	} else {
		vx.Assert(vx.Not(sat), "refuses rejected proofs")
		vx.Reach("rejected")
	}
	vx.Reach("end")
}

// Honest: the proofs of the prover have the shape the gadget allocates, and are assigned as they are.
func Honest() {
	bG, bN := vx.Param("bG"), vx.Param("bN")
	s := hx.SymSum(hx.KindSet(vx.Param("kinds")), bG, bG, bN)
	pr := s.Single()
	proof, _, _, _, _ := pr.Prove()
	gp := gsum.AllocateProof(bN, bG, vx.Param("dL"), vx.Param("dR"), vx.Param("dP"))
	gp.Assign(proof)
	vx.Assert(vx.IntEq(len(gp.HPolys), len(proof.PolyCoeffs)), "one polynomial per round")
	for i := range gp.HPolys {
		xs, all := gad.Values(gp.HPolys[i].Coefficients)
		vx.Assert(all, "assigning an honest proof gives every variable a value")
		vx.Assert(vx.EqS(xs, proof.PolyCoeffs[i]), "an honest proof is assigned as it is")
	}
	vx.Reach("end")
}

// Refused: proofs of the wrong shape cannot be assigned.
func Refused() {
	bG, bN := vx.Param("bG"), vx.Param("bN")
	gp := gsum.AllocateProof(bN, bG, vx.Param("dL"), vx.Param("dR"), vx.Param("dP"))
	var proof sumcheck.Proof
	l := shape(bG, bN)
	n := len(l) + vx.Param("more")
	if n < 0 {
		n = 0
	}
	same := n == len(l)
	for i := 0; i < n; i++ {
		k := 1
		if i < len(l) {
			k = l[i]
		}
		if i == vx.Param("at") {
			k += vx.Param("longer")
			same = same && vx.Param("longer") == 0
		}
		proof.PolyCoeffs = append(proof.PolyCoeffs, vx.Frs("p"+string(rune('a'+i)), k))
	}
	vx.Assert(vx.Iff(vx.Panics(func() { gp.Assign(proof) }), !same), "proofs of another shape are refused")
	vx.Reach("end")
}
