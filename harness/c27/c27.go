// Package c27: malformed proofs.
package c27

import (
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

type polys [][]fr.Element

func drop(p polys, i int) polys { return append(append(polys{}, p[:i]...), p[i+1:]...) }

func extra(p polys, i int) polys {
	return append(append(append(polys{}, p[:i]...), vx.Frs("extra", 2)), p[i:]...)
}

// damage is one way of damaging a list of rounds; n is how many there are.
func damage(p polys, how int) polys {
	switch how {
	case 0:
		return drop(p, 0)
	case 1:
		return drop(p, len(p)-1)
	case 2:
		return extra(p, 0)
	case 3:
		return extra(p, len(p))
	case 4:
		return nil
	case 5:
		return polys{}
	case 6: // twice as many
		return append(append(polys{}, p...), p...)
	case 7: // an extra round without polynomial
		return append(append(polys{}, p...), nil)
	case 8:
		return append(polys{nil}, p...)
	case 9: // no polynomial at all
		return make(polys, len(p))
	case 10: // the last two rounds in one
		if len(p) < 2 {
			return nil
		}
		r := append(polys{}, p[:len(p)-2]...)
		return append(r, append(hx.Copy(p[len(p)-2]), p[len(p)-1]...))
	}
	i := (how - 11) / 2
	r := append(polys{}, p...)
	r[i] = nil
	if how%2 == 0 {
		r[i] = []fr.Element{}
	}
	return r
}

func damages(n int) int { return 11 + 2*n }

// lists damages a list of claims.
func lists(l []fr.Element, how int) []fr.Element {
	switch how {
	case 0:
		return l[:len(l)-1]
	case 1:
		return l[1:]
	case 2:
		return append(hx.Copy(l), vx.Fr("extra"))
	}
	return nil
}

func refused(proof gkr.Proof, c hx.Circ, bN, nCh int) {
	in := hx.Chunk(vx.Frs("x", 1<<uint(c.In[0]+bN)), nCh)
	out := hx.Chunk(vx.Frs("y", 1<<uint(c.Out+bN)), nCh)
	ok := false
	v := gkr.NewVerifier(bN, c.Build())
	p := vx.Panics(func() { ok = v.Verify(proof, in, out) })
	vx.Assert(!p, "no panic")
	vx.Assert(vx.Or(p, vx.Not(ok)), "a malformed proof is rejected")
	var verdict fr.Element
	if ok {
		verdict.SetOne()
	}
	vx.Note(verdict)
	vx.Reach("end")
}

// Rounds: missing, extra and empty round polynomials in one layer.
func Rounds() {
	c := hx.Catalogue(vx.Param("circ"))
	bN, nCh := vx.Param("bN"), 1<<uint(vx.Param("chunks"))
	proof := c.SymProof(bN, vx.Param("deg"))
	k := vx.Choose("layer", len(c.Layers))
	p := polys(proof.SumcheckProofs[k].PolyCoeffs)
	if len(p) == 0 {
		if vx.Choose("how", 2) == 0 {
			p = extra(p, 0)
		} else {
			p = append(p, nil)
		}
	} else {
		p = damage(p, vx.Choose("how", damages(len(p))))
	}
	proof.SumcheckProofs[k].PolyCoeffs = p
	refused(proof, c, bN, nCh)
}

// Moved: as many rounds as there should be in all, but not in their layers, or two damaged layers.
func Moved() {
	c := hx.Catalogue(vx.Param("circ"))
	bN, nCh := vx.Param("bN"), 1<<uint(vx.Param("chunks"))
	proof := c.SymProof(bN, vx.Param("deg"))
	n := len(c.Layers)
	i := vx.Choose("from", n)
	j := (i + 1 + vx.Choose("to", n-1)) % n
	a, b := polys(proof.SumcheckProofs[i].PolyCoeffs), polys(proof.SumcheckProofs[j].PolyCoeffs)
	switch vx.Choose("how", 4) {
	case 0: // the last round to the end
		a, b = a[:len(a)-1], append(append(polys{}, b...), a[len(a)-1])
	case 1: // the first round to the front
		a, b = a[1:], append(polys{a[0]}, b...)
	case 2: // everything
		a, b = nil, append(append(polys{}, b...), a...)
	case 3:
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	proof.SumcheckProofs[i].PolyCoeffs, proof.SumcheckProofs[j].PolyCoeffs = a, b
	refused(proof, c, bN, nCh)
}

// Layers: missing and extra layers and claims.
func Layers() {
	c := hx.Catalogue(vx.Param("circ"))
	bN, nCh := vx.Param("bN"), 1<<uint(vx.Param("chunks"))
	proof := c.SymProof(bN, vx.Param("deg"))
	sp := proof.SumcheckProofs
	n := len(sp)
	switch how := vx.Choose("how", 22); how {
	case 0:
		proof.SumcheckProofs = sp[:len(sp)-1]
	case 1:
		proof.SumcheckProofs = sp[1:]
	case 2:
		proof.SumcheckProofs = append(append([]sumcheck.Proof{}, sp...), sp[0])
	case 3:
		proof.SumcheckProofs = nil
	case 4, 5, 6, 7:
		proof.ClaimsLeft = lists(proof.ClaimsLeft, how-4)
	case 8, 9, 10, 11:
		proof.ClaimsRight = lists(proof.ClaimsRight, how-8)
	case 12: // a whole layer more
		proof.SumcheckProofs = append(append([]sumcheck.Proof{}, sp...), sp[len(sp)-1])
		proof.ClaimsLeft = append(hx.Copy(proof.ClaimsLeft), proof.ClaimsLeft[0])
		proof.ClaimsRight = append(hx.Copy(proof.ClaimsRight), proof.ClaimsRight[0])
	case 13: // nothing
		proof = gkr.Proof{}
	case 14: // a whole layer less
		proof = gkr.Proof{SumcheckProofs: sp[:n-1], ClaimsLeft: proof.ClaimsLeft[:n-1], ClaimsRight: proof.ClaimsRight[:n-1]}
	case 15:
		proof = gkr.Proof{SumcheckProofs: sp[1:], ClaimsLeft: proof.ClaimsLeft[1:], ClaimsRight: proof.ClaimsRight[1:]}
	case 16: // no claims
		proof.ClaimsLeft, proof.ClaimsRight = nil, nil
	case 17:
		proof.ClaimsLeft, proof.ClaimsRight = []fr.Element{}, []fr.Element{}
	case 18: // as many claims as there should be, all on one side
		proof.ClaimsLeft, proof.ClaimsRight = append(hx.Copy(proof.ClaimsLeft), proof.ClaimsRight...), nil
	case 19:
		proof.ClaimsLeft, proof.ClaimsRight = append(hx.Copy(proof.ClaimsLeft), proof.ClaimsRight[n-1]), proof.ClaimsRight[:n-1]
	case 20: // the layers without their rounds
		proof.SumcheckProofs = make([]sumcheck.Proof, n)
		if len(sp[0].PolyCoeffs) == 0 {
			proof.SumcheckProofs = nil
		}
	case 21: // a layer more, without anything in it
		proof.SumcheckProofs = append(append([]sumcheck.Proof{}, sp...), sumcheck.Proof{})
		proof.ClaimsLeft = append(hx.Copy(proof.ClaimsLeft), fr.Element{})
		proof.ClaimsRight = append(hx.Copy(proof.ClaimsRight), fr.Element{})
	}
	refused(proof, c, bN, nCh)
}

// Sumcheck: the sumcheck verifier on empty polynomials and too few rounds.
func Sumcheck() {
	bN, bG, n := vx.Param("bN"), vx.Param("bG"), vx.Param("rounds")
	var p polys
	for i := 0; i < n; i++ {
		p = append(p, vx.Frs("p"+string(rune('a'+i)), 2))
	}
	bad := n < 2*bG
	if k := vx.Choose("empty", 2*n+1); k > 0 {
		bad = true
		p[(k-1)/2] = nil
		if k%2 == 0 {
			p[(k-1)/2] = []fr.Element{}
		}
	}
	claim := vx.Fr("claim")
	ok := false
	panics := vx.Panics(func() { ok, _, _, _, _ = sumcheck.Verifier{}.Verify(claim, sumcheck.Proof{PolyCoeffs: p}, bN, bG) })
	vx.Assert(!panics, "no panic")
	if bad {
		vx.Assert(vx.Or(panics, vx.Not(ok)), "a malformed sumcheck proof is rejected")
	}
	vx.Reach("end")
}
