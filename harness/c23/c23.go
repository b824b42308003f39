// Package c23: the GKR verifier gadget.
package c23

import (
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	ggkr "gkr-mimc/snark/gkr"
	"gkr-mimc/snark/polynomial"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zz_verif/gad"
	"gkr-mimc/zz_verif/golden"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

const rounds = 91

func proofShape(bN int) []int {
	l := []int{3, 9}
	for i := 0; i < bN; i++ {
		l = append(l, 9)
	}
	return l
}

func symProof(bN int) (p gkr.Proof) {
	for i := 0; i < rounds; i++ {
		var s sumcheck.Proof
		for j, n := range proofShape(bN) {
			s.PolyCoeffs = append(s.PolyCoeffs, vx.Frs("p"+string(rune(1000+i))+string(rune('a'+j)), n))
		}
		p.SumcheckProofs = append(p.SumcheckProofs, s)
	}
	p.ClaimsLeft, p.ClaimsRight = vx.Frs("cl", rounds), vx.Frs("cr", rounds)
	return
}

// flat is the assignment of the system for a proof: the values given by the gadgets' own assignment functions.
func flat(bN int, p gkr.Proof, in, out [][]fr.Element, qPrime []fr.Element) []fr.Element {
	c := ggkr.CreateMimcCircuit()
	gp := ggkr.AllocateProof(bN, c)
	gp.Assign(p)
	vIn, vOut := polynomial.AllocateMultilinear(bN+1), polynomial.AllocateMultilinear(bN)
	vIn.AssignFromChunkedBKT(in)
	vOut.AssignFromChunkedBKT(out)
	assigned := true
	res := hx.Copy(qPrime)
	add := func(xs []fr.Element, all bool) {
		res = append(res, xs...)
		assigned = assigned && all
	}
	add(gad.Values(vIn.Table))
	add(gad.Values(vOut.Table))
	for i := range gp.SumcheckProofs {
		for j := range gp.SumcheckProofs[i].HPolys {
			add(gad.Values(gp.SumcheckProofs[i].HPolys[j].Coefficients))
		}
	}
	add(gad.Values(gp.ClaimsLeft))
	add(gad.Values(gp.ClaimsRight))
	vx.Assert(assigned, "assigning gives every variable a value")
	return res
}

// conditions are the checks of the GKR verifier for the MiMC circuit at the initial point qPrime.
func conditions(bN int, p gkr.Proof, in, out, qPrime []fr.Element) (conds []bool) {
	claim := hx.MLE(out, qPrime)
	var pL, pR, pP []fr.Element
	one := hx.C(1)
	for k := rounds - 1; k >= 0; k-- {
		// the weights of the cipher gate's and of the copy gate's output
		w0, w1 := one, hx.C(0)
		prevP := qPrime
		if k < rounds-1 {
			lambda := hash.MimcHash([]fr.Element{p.ClaimsLeft[k+1], p.ClaimsRight[k+1]})
			claim.Mul(&lambda, &p.ClaimsRight[k+1])
			claim.Add(&claim, &p.ClaimsLeft[k+1])
			w1.Mul(&lambda, &pR[0])
			w1.Add(&w1, &pL[0])
			w0.Add(&one, &lambda)
			w0.Sub(&w0, &w1)
			prevP = pP
		}
		cs, rs, run := hx.RoundChecks(claim, p.SumcheckProofs[k].PolyCoeffs, func(a []fr.Element) fr.Element { return hash.MimcHash(a) }, vx.Eq)
		conds = append(conds, cs...)
		pL, pR, pP = rs[:1], rs[1:2], rs[2:]
		// both gates read the block (wire 1) on their left and the state (wire 0) on their right
		l, r := p.ClaimsLeft[k], p.ClaimsRight[k]
		cipher := hx.GateRef(hx.Cipher, golden.Ark[k], l, r)
		v := cipher
		v.Mul(&w0, &cipher)
		var c fr.Element
		c.Mul(&w1, &l)
		v.Add(&v, &c)
		var wire fr.Element
		wire.Sub(&one, &pR[0])
		wire.Mul(&wire, &pL[0])
		v.Mul(&v, &wire)
		e := hx.Eq(prevP, pP)
		v.Mul(&v, &e)
		conds = append(conds, vx.Eq(v, run))
	}
	return append(conds,
		vx.Eq(p.ClaimsLeft[0], hx.MLE(in, hx.Cat(pL, pP))),
		vx.Eq(p.ClaimsRight[0], hx.MLE(in, hx.Cat(pR, pP))))
}

// know lists the messages the verifier hashes.
func know(p gkr.Proof) {
	for i := range p.SumcheckProofs {
		for j := range p.SumcheckProofs[i].PolyCoeffs {
			gad.Know(p.SumcheckProofs[i].PolyCoeffs[j])
		}
		gad.Know([]fr.Element{p.ClaimsLeft[i], p.ClaimsRight[i]})
	}
}

// Iff: on every proof of the right shape the gadget's constraints hold exactly when the verifier's checks do.
func Iff() {
	bN, nCh := vx.Param("bN"), 1<<uint(vx.Param("chunks"))
	in, out := vx.Frs("x", 2<<uint(bN)), vx.Frs("y", 1<<uint(bN))
	qPrime := vx.Frs("q", bN)
	p := symProof(bN)
	know(p)
	sat := gad.Sat("gkr", []int{bN}, flat(bN, p, hx.Chunk(in, nCh), hx.Chunk(out, nCh), qPrime))
	vx.Assert(vx.Iff(sat, vx.And(conditions(bN, p, in, out, qPrime)...)), "the constraints hold exactly when every check of the verifier holds")
	vx.Reach("end")
}
