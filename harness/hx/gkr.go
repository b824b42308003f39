package hx

import (
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

// SymProof is an arbitrary proof of the expected shape, every polynomial having deg+1 coefficients.
func (c Circ) SymProof(bN, deg int) gkr.Proof {
	var p gkr.Proof
	n := len(c.Layers)
	for i := 0; i < n; i++ {
		var sp sumcheck.Proof
		for j := 0; j < 2*c.In[i]+bN; j++ {
			sp.PolyCoeffs = append(sp.PolyCoeffs, vx.Frs("p"+string(rune('a'+i))+string(rune('a'+j)), deg+1))
		}
		p.SumcheckProofs = append(p.SumcheckProofs, sp)
	}
	p.ClaimsLeft = vx.Frs("cl", n)
	p.ClaimsRight = vx.Frs("cr", n)
	return p
}

// Conditions of the protocol, and the challenges of every layer.
func (c Circ) Conditions(bN int, p gkr.Proof, in, out []fr.Element, qPrime, q []fr.Element) (conds []bool, pts []Points) {
	n := len(c.Layers)
	pts = make([]Points, n)
	claim := MLE(out, Cat(q, qPrime))
	prev := Points{P: qPrime}
	for k := n - 1; k >= 0; k-- {
		lambda := C(0)
		if k < n-1 {
			lambda = vx.Hash([]fr.Element{p.ClaimsLeft[k+1], p.ClaimsRight[k+1]})
			claim.Mul(&lambda, &p.ClaimsRight[k+1])
			claim.Add(&claim, &p.ClaimsLeft[k+1])
		}
		cs, rs, run := RoundChecks(claim, p.SumcheckProofs[k].PolyCoeffs, vx.Hash, vx.Eq)
		conds = append(conds, cs...)
		b := c.In[k]
		pts[k] = Points{rs[:b], rs[b : 2*b], rs[2*b:]}
		v := c.Combine(k, func(o int) fr.Element {
			if k == n-1 {
				return EqAt(q, o)
			}
			w, w2 := EqAt(prev.L, o), EqAt(prev.R, o)
			w2.Mul(&w2, &lambda)
			w.Add(&w, &w2)
			return w
		}, pts[k].L, pts[k].R, p.ClaimsLeft[k], p.ClaimsRight[k])
		e := Eq(prev.P, pts[k].P)
		v.Mul(&v, &e)
		conds = append(conds, vx.Eq(v, run))
		prev = pts[k]
	}
	conds = append(conds,
		vx.Eq(p.ClaimsLeft[0], MLE(in, Cat(prev.L, prev.P))),
		vx.Eq(p.ClaimsRight[0], MLE(in, Cat(prev.R, prev.P))))
	return
}

// Layout lays the three parts of a point out in memory: layouts 0 to 5 place them behind each other in one slice,
// in every order and with further memory behind them, layout 6 keeps them apart. It returns the parts and the
// whole slice.
func Layout(k int, a, b, c, behind []fr.Element) (x, y, z, mem []fr.Element) {
	na, nb, nc := len(a), len(b), len(c)
	switch k {
	case 0:
		mem = Cat(a, b, c, behind)
		return mem[:na], mem[na : na+nb], mem[na+nb : na+nb+nc], mem
	case 1:
		mem = Cat(a, c, b, behind)
		return mem[:na], mem[na+nc : na+nc+nb], mem[na : na+nc], mem
	case 2:
		mem = Cat(b, a, c, behind)
		return mem[nb : nb+na], mem[:nb], mem[na+nb : na+nb+nc], mem
	case 3:
		mem = Cat(b, c, a, behind)
		return mem[nb+nc : nb+nc+na], mem[:nb], mem[nb : nb+nc], mem
	case 4:
		mem = Cat(c, a, b, behind)
		return mem[nc : nc+na], mem[nc+na : nc+na+nb], mem[:nc], mem
	case 5:
		mem = Cat(c, b, a, behind)
		return mem[nc+nb : nc+nb+na], mem[nc : nc+nb], mem[:nc], mem
	}
	return a, b, c, nil
}

// Shared copies chunks into one array, one behind the other.
func Shared(ch [][]fr.Element) [][]fr.Element {
	all := Cat(ch...)
	res := make([][]fr.Element, len(ch))
	for i, n := 0, 0; i < len(ch); i++ {
		res[i] = all[n : n+len(ch[i])]
		n += len(ch[i])
	}
	return res
}
