// Package c14: the gates.
package c14

import (
	"gkr-mimc/circuit"
	"gkr-mimc/hash"
	"gkr-mimc/zz_verif/gad"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"math/big"

	"github.com/consensys/gurvy/bn256/fr"
)

func gate(kind int) (circuit.Gate, fr.Element) {
	var ark fr.Element
	if kind >= hx.Cipher {
		ark = vx.Fr("ark")
	}
	return hx.Gate(kind, ark), ark
}

// Native: single, many-left and many-right evaluation compute the gate's function, operands are unchanged.
func Native() {
	kind, n := vx.Param("kind"), vx.Param("n")
	g, ark := gate(kind)
	l, r := vx.Fr("l"), vx.Fr("r")
	kl, kr := l, r
	res := vx.Fr("old")
	g.Eval(&res, &l, &r)
	vx.Assert(vx.Eq(res, hx.GateRef(kind, ark, kl, kr)), "single evaluation")
	vx.Assert(vx.And(vx.Eq(l, kl), vx.Eq(r, kr)), "single evaluation leaves its operands")

	ls, rs := vx.Frs("ls", n), vx.Frs("rs", n)
	kls, krs := hx.Copy(ls), hx.Copy(rs)
	out := vx.Frs("oldL", n)
	g.EvalManyVL(out, ls, &r)
	for i := range out {
		vx.Assert(vx.Eq(out[i], hx.GateRef(kind, ark, kls[i], kr)), "many-left evaluation")
	}
	out2 := vx.Frs("oldR", n)
	g.EvalManyVR(out2, &l, rs)
	for i := range out2 {
		vx.Assert(vx.Eq(out2[i], hx.GateRef(kind, ark, kl, krs[i])), "many-right evaluation")
	}
	vx.Assert(vx.And(vx.EqS(ls, kls), vx.EqS(rs, krs), vx.Eq(l, kl), vx.Eq(r, kr)), "many-evaluations leave their operands")
	// the result does not alias an operand
	for i := range out {
		out[i].Add(&out[i], &res)
	}
	vx.Assert(vx.EqS(ls, kls), "results share no memory with the operands")
	// the gate keeps no state
	var again fr.Element
	g.Eval(&again, &l, &r)
	vx.Assert(vx.Eq(again, hx.GateRef(kind, ark, kl, kr)), "evaluation can be repeated")
	vx.Reach("end")
}

func difference(deg int, at func(k int) fr.Element) fr.Element {
	var acc fr.Element
	c := big.NewInt(1)
	for k := 0; k <= deg+1; k++ {
		v := at(k)
		m := hx.C(int(c.Int64()))
		v.Mul(&v, &m)
		if k%2 == 0 {
			acc.Add(&acc, &v)
		} else {
			acc.Sub(&acc, &v)
		}
		c = big.NewInt(c.Int64() * int64(deg+1-k) / int64(k+1))
	}
	return acc
}

func line(a, d fr.Element, k int) fr.Element {
	x := hx.C(k)
	x.Mul(&x, &d)
	x.Add(&x, &a)
	return x
}

// Degrees: on every line the gate is a polynomial of at most the declared degree: its finite difference of the
// next order vanishes.
func Degrees() {
	kind := vx.Param("kind")
	g, _ := gate(kind)
	dl, dr, dp := g.Degrees()
	l, r, d, e := vx.Fr("l"), vx.Fr("r"), vx.Fr("d"), vx.Fr("e")
	zero := hx.C(0)
	eval := func(a, b fr.Element) fr.Element {
		var res fr.Element
		g.Eval(&res, &a, &b)
		return res
	}
	vx.Assert(vx.Eq(difference(dl, func(k int) fr.Element { return eval(line(l, d, k), r) }), zero), "degree in the left operand")
	vx.Assert(vx.Eq(difference(dr, func(k int) fr.Element { return eval(l, line(r, d, k)) }), zero), "degree in the right operand")
	vx.Assert(vx.Eq(difference(dp, func(k int) fr.Element { return eval(line(l, d, k), line(r, e, k)) }), zero), "degree in both operands")
	vx.Assert(dl <= 11 && dr <= 11 && dp <= 11, "degrees are within the interpolation domains")
	vx.Reach("end")
}

func dec(s string) fr.Element {
	var e fr.Element
	e.SetString(s)
	return e
}

// arks are constants that are easily confused.
func arks() []fr.Element {
	var r []fr.Element
	for _, s := range []string{
		"0", "1", "2", "10", "11", "12", "21", "100", "101", "110", "1000000000", "10000000000", "1000000001",
		"12345678901234567890123456789012345678901234567890123456789012345678901234567",
		"12345678901234567890123456789012345678901234567890123456789012345678901234568",
		"2345678901234567890123456789012345678901234567890123456789012345678901234567",
		"12345678901234567890123456789012345678", "12345678901234567890123456789012345679",
		"18446744073709551616", "18446744073709551617", "36893488147419103232",
		"340282366920938463463374607431768211456", "340282366920938463463374607431768211457",
		"6277101735386680763835789423207666416102355444464034512896",
		"21888242871839275222246405745257275088548364400416034343698204186575808495616",
		"21888242871839275222246405745257275088548364400416034343698204186575808495615",
	} {
		r = append(r, dec(s))
	}
	return append(r, hash.Arks...)
}

// Identity: two gates have the same identity only if they compute the same function.
func Identity() {
	type g struct {
		g    circuit.Gate
		kind int
		ark  fr.Element
	}
	gs := []g{{hx.Gate(hx.Add, fr.Element{}), hx.Add, fr.Element{}}, {hx.Gate(hx.Mul, fr.Element{}), hx.Mul, fr.Element{}}, {hx.Gate(hx.Cpy, fr.Element{}), hx.Cpy, fr.Element{}}}
	for _, a := range arks() {
		gs = append(gs, g{hx.Gate(hx.Cipher, a), hx.Cipher, a})
	}
	l, r := vx.Fr("l"), vx.Fr("r")
	ids := make([]string, len(gs))
	for i := range gs {
		ids[i] = gs[i].g.ID()
		vx.Assert(ids[i] == hx.Gate(gs[i].kind, gs[i].ark).ID(), "the identity depends only on the gate")
	}
	for i := range gs {
		for j := 0; j < i; j++ {
			if ids[i] == ids[j] {
				var a, b fr.Element
				gs[i].g.Eval(&a, &l, &r)
				gs[j].g.Eval(&b, &l, &r)
				vx.Assert(vx.Eq(a, b), "gates of the same identity compute the same function")
			}
		}
	}
	vx.Note(l, r)
	vx.Reach("end")
}

// AnyIdentity: for arbitrary constants, equal identities mean equal constants.
func AnyIdentity() {
	a, b := vx.Fr("a"), vx.Fr("b")
	same := hx.Gate(hx.Cipher, a).ID() == hx.Gate(hx.Cipher, b).ID()
	vx.Assert(vx.Iff(same, vx.Eq(a, b)), "cipher gates have the same identity exactly when their constants are the same")
	vx.Reach("end")
}

// Combinator: eq times the weighted sum of the gates.
func Combinator() {
	kinds := hx.KindSet(vx.Param("gates"))
	s := hx.Sum{Kinds: kinds}
	l, r, e := vx.Fr("l"), vx.Fr("r"), vx.Fr("e")
	st := vx.Frs("st", len(kinds))
	kl, kr, ke, kst := l, r, e, hx.Copy(st)
	var want fr.Element
	for i, k := range kinds {
		v := hx.GateRef(k, hx.Ark(k), kl, kr)
		v.Mul(&v, &kst[i])
		want.Add(&want, &v)
	}
	want.Mul(&want, &ke)
	got := circuit.EvaluateCombinator(&l, &r, &e, s.Gates(), st)
	vx.Assert(vx.Eq(got, want), "eq times the weighted sum of the gates")
	vx.Assert(vx.And(vx.Eq(l, kl), vx.Eq(r, kr), vx.Eq(e, ke), vx.EqS(st, kst)), "the operands are unchanged")
	vx.Reach("end")
}

// Gnark: the constraint system of every gate allows exactly the gate's value.
func Gnark() {
	l, r := vx.Fr("l"), vx.Fr("r")
	arks := gad.Arks()
	eval := func(kind int, ark fr.Element) fr.Element {
		var res fr.Element
		a, b := l, r
		hx.Gate(kind, ark).Eval(&res, &a, &b)
		vx.Assert(vx.Eq(res, hx.GateRef(kind, ark, l, r)), "native evaluation")
		return res
	}
	var zero fr.Element
	want := []fr.Element{eval(hx.Add, zero), eval(hx.Mul, zero), eval(hx.Cpy, zero)}
	for _, a := range arks {
		want = append(want, eval(hx.Cipher, a))
	}
	out := vx.Frs("out", len(want))
	in := []fr.Element{l, r}
	vx.Assert(vx.Iff(gad.Sat("gates", nil, hx.Cat(in, out)), vx.EqS(out, want)), "constraint-system evaluation allows exactly the gate's value")
	vx.Assert(gad.Sat("gates", nil, hx.Cat(in, want)), "constraint-system evaluation has an honest witness")
	w2 := want[2:]
	vx.Assert(vx.Iff(gad.Sat("snarkgates", nil, hx.Cat(in, out[2:])), vx.EqS(out[2:], w2)), "the gate gadgets allow exactly the gate's value")
	vx.Assert(gad.Sat("snarkgates", nil, hx.Cat(in, w2)), "the gate gadgets have an honest witness")
	vx.Reach("end")
}
