// Package c05: honest sumcheck transcripts.
package c05

import (
	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

func cat(a, b []fr.Element) []fr.Element { return append(append([]fr.Element{}, a...), b...) }

func check(s hx.Sum, claim fr.Element, proof sumcheck.Proof, qPrime, qL, qR, fin []fr.Element) {
	var v sumcheck.Verifier
	ok, vqPrime, vqL, vqR, last := v.Verify(claim, proof, s.BN, s.BL)
	vx.Assert(ok, "the honest transcript is accepted")
	vx.Assert(vx.And(vx.EqS(qPrime, vqPrime), vx.EqS(qL, vqL), vx.EqS(qR, vqR)), "prover and verifier derive the same challenges")
	vx.Assert(vx.And(vx.IntEq(len(qL), s.BL), vx.IntEq(len(qR), s.BR), vx.IntEq(len(qPrime), s.BN)), "the challenges are split by group")
	vx.Assert(vx.Eq(fin[0], hx.MLE(s.VL, cat(qL, qPrime))), "the left claim is the evaluation of the left table")
	vx.Assert(vx.Eq(fin[1], hx.MLE(s.VR, cat(qR, qPrime))), "the right claim is the evaluation of the right table")
	vx.Assert(vx.Eq(fin[2], hx.MLE(s.Eq, qPrime)), "the eq claim is the evaluation of the eq table")
	vx.Assert(vx.IntEq(len(fin), 3+len(s.Statics)), "one claim per table")
	for i := range s.Statics {
		vx.Assert(vx.Eq(fin[3+i], hx.MLE(s.Statics[i], cat(qL, qR))), "the static claims are the evaluations of the static tables")
	}
	vx.Assert(vx.Eq(last, circuit.EvaluateCombinator(&fin[0], &fin[1], &fin[2], s.Gates(), fin[3:])), "the final value is the gate combination of the claims")
	vx.Reach("end")
}

// Single: single-threaded prover.
func Single() {
	b := vx.Param("bG")
	s := hx.SymSum(hx.KindSet(vx.Param("gates")), b, b, vx.Param("bN"))
	p := s.Single()
	claim := p.GetClaim()
	proof, qPrime, qL, qR, fin := p.Prove()
	check(s, claim, proof, qPrime, qL, qR, fin)
}

// Multi: multi-threaded prover.
func Multi() {
	b := vx.Param("bG")
	s := hx.SymSum(hx.KindSet(vx.Param("gates")), b, b, vx.Param("bN"))
	p := s.Multi(1 << uint(vx.Param("chunks")))
	claim := p.GetClaim(vx.Param("cores"))
	proof, qPrime, qL, qR, fin := p.Prove(vx.Param("cores"))
	check(s, claim, proof, qPrime, qL, qR, fin)
}

// Again: a second prover, over the memory of the first.
func Again() {
	b := vx.Param("bG")
	s := hx.SymSum(hx.KindSet(vx.Param("gates")), b, b, vx.Param("bN"))
	l, r, e, st := hx.Copy(s.VL), hx.Copy(s.VR), hx.Copy(s.Eq), hx.Copy2(s.Statics)
	for _, p := range []string{"", "z"} {
		if p != "" {
			s.Refill(p)
		}
		copy(l, s.VL)
		copy(r, s.VR)
		copy(e, s.Eq)
		var bs []polynomial.BookKeepingTable
		for i := range st {
			copy(st[i], s.Statics[i])
			bs = append(bs, polynomial.NewBookKeepingTable(st[i]))
		}
		q := sumcheck.NewSingleThreadedProver(polynomial.NewBookKeepingTable(l), polynomial.NewBookKeepingTable(r), polynomial.NewBookKeepingTable(e), s.Gates(), bs)
		claim := q.GetClaim()
		vx.Assert(vx.Eq(claim, s.Partial(nil, nil, nil)), "the claim is the sum, whatever was computed before")
		proof, qPrime, qL, qR, fin := q.Prove()
		check(s, claim, proof, qPrime, qL, qR, fin)
	}
	vx.Reach("both")
}
