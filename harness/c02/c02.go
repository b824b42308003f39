// Package c02: the GKR verifier on arbitrary proofs.
package c02

import (
	"gkr-mimc/gkr"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"
)

// Iff: acceptance is exactly the conjunction of the protocol's checks.
func Iff() {
	cat := hx.Catalogue(vx.Param("circ"))
	bN := vx.Param("bN")
	nCh := 1 << uint(vx.Param("chunks"))
	in := vx.Frs("x", 1<<uint(cat.In[0]+bN))
	out := vx.Frs("y", 1<<uint(cat.Out+bN))
	proof := cat.SymProof(bN, vx.Param("deg"))
	v := gkr.NewVerifier(bN, cat.Build())
	ok := v.Verify(proof, hx.Chunk(in, nCh), hx.Chunk(out, nCh))
	qPrime, q := gkr.GetInitialQPrimeAndQ(bN, cat.Out)
	conds, _ := cat.Conditions(bN, proof, in, out, qPrime, q)
	vx.Assert(vx.Iff(ok, vx.And(conds...)), "accepts exactly when every check of the protocol holds")
	vx.Reach("end")
}

// Twice: a verifier that has judged another proof before, in the same memory.
func Twice() {
	cat := hx.Catalogue(vx.Param("circ"))
	bN := vx.Param("bN")
	nCh := 1 << uint(vx.Param("chunks"))
	ci := hx.Chunk(vx.Frs("x", 1<<uint(cat.In[0]+bN)), nCh)
	co := hx.Chunk(vx.Frs("y", 1<<uint(cat.Out+bN)), nCh)
	v := gkr.NewVerifier(bN, cat.Build())
	proof := cat.SymProof(bN, vx.Param("deg"))
	v.Verify(proof, ci, co)
	in, out := vx.Frs("xx", 1<<uint(cat.In[0]+bN)), vx.Frs("yy", 1<<uint(cat.Out+bN))
	for i, w := range hx.Chunk(in, nCh) {
		copy(ci[i], w)
	}
	for i, w := range hx.Chunk(out, nCh) {
		copy(co[i], w)
	}
	if vx.Param("same") == 0 {
		for i := range proof.SumcheckProofs {
			for j, p := range proof.SumcheckProofs[i].PolyCoeffs {
				copy(p, vx.Frs("pp"+string(rune('a'+i))+string(rune('a'+j)), len(p)))
			}
		}
		copy(proof.ClaimsLeft, vx.Frs("ccl", len(proof.ClaimsLeft)))
		copy(proof.ClaimsRight, vx.Frs("ccr", len(proof.ClaimsRight)))
	}
	ok := v.Verify(proof, ci, co)
	qPrime, q := gkr.GetInitialQPrimeAndQ(bN, cat.Out)
	conds, _ := cat.Conditions(bN, proof, in, out, qPrime, q)
	vx.Assert(vx.Iff(ok, vx.And(conds...)), "accepts exactly when every check of the protocol holds, whatever was verified before")
	vx.Reach("end")
}
