package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/consensys/gurvy/bn256/fr"
	"golang.org/x/tools/go/ssa"
)

// The vx package is the harness interface: these intrinsics are its symbolic meaning. The same package has
// a native implementation used to replay counterexamples.

const vxPath = "gkr-mimc/zz_verif/vx"

func vxStr(v value) string {
	s, ok := v.(string)
	if !ok {
		unsup("vx name must be concrete")
	}
	return s
}

func (m *Machine) input(name string) string {
	if m.inputs[name] {
		unsup("duplicate input name %s", name)
	}
	m.inputs[name] = true
	return name
}

// noteEq records the operands of a comparison made by the harness, for the validation against native runs.
func (m *Machine) noteEq(a, b *T) {
	if len(m.spec) > 0 {
		m.cmpBad = true
		return
	}
	m.cmps = append(m.cmps, a, b)
}

func vxIntrinsics() map[string]intrinsic {
	r := map[string]intrinsic{}
	def := func(n string, f func(m *Machine, g *Gor, a []value) value) {
		r[vxPath+".."+n] = func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) { return f(m, g, a), true }
	}
	fvar := func(m *Machine, n string) Fe {
		if m.cfg.Pin != nil {
			return Fe{m.st.Const(m.cfg.Pin.F[n])}
		}
		return Fe{m.st.Var(n)}
	}
	def("Fr", func(m *Machine, g *Gor, a []value) value { return fvar(m, m.input(vxStr(a[0]))) })
	def("Frs", func(m *Machine, g *Gor, a []value) value {
		n := int(a[1].(int64))
		nm := m.input(vxStr(a[0]))
		s := make([]value, n)
		for i := range s {
			s[i] = fvar(m, fmt.Sprintf("%s.%d", nm, i))
		}
		return s
	})
	def("Int", func(m *Machine, g *Gor, a []value) value {
		lo, hi := a[1].(int64), a[2].(int64)
		if m.cfg.Pin != nil {
			return int64(m.cfg.Pin.V[m.input(vxStr(a[0]))])
		}
		v := m.st.VVar(m.input(vxStr(a[0])), 64, lo, hi)
		m.assume(m.st.VCmp("bvsle", m.st.VConst(uint64(lo), 64), v))
		m.assume(m.st.VCmp("bvsle", v, m.st.VConst(uint64(hi), 64)))
		return v
	})
	def("Bool", func(m *Machine, g *Gor, a []value) value {
		if m.cfg.Pin != nil {
			return m.cfg.Pin.B[m.input(vxStr(a[0]))]
		}
		return m.st.BVar(m.input(vxStr(a[0])))
	})
	def("Choose", func(m *Machine, g *Gor, a []value) value {
		nm := m.input(vxStr(a[0]))
		n := a[1].(int64)
		k := int64(m.decide(int(n), "choose"))
		m.choices[nm] = k
		return k
	})
	def("Param", func(m *Machine, g *Gor, a []value) value {
		v, ok := m.cfg.Params[vxStr(a[0])]
		if !ok {
			unsup("missing parameter %s", vxStr(a[0]))
		}
		return v
	})
	def("Assume", func(m *Machine, g *Gor, a []value) value {
		m.noSpec("assume")
		b := m.toB(a[0])
		if v, known := m.knownTruth(b); known {
			if !v {
				panic(infeasible{})
			}
			return nil
		}
		m.assume(b)
		return nil
	})
	def("Assert", func(m *Machine, g *Gor, a []value) value {
		m.noSpec("assert")
		m.check(m.toB(a[0]), vxStr(a[1]))
		return nil
	})
	def("Reach", func(m *Machine, g *Gor, a []value) value {
		m.noSpec("reach")
		m.reach(vxStr(a[0]))
		return nil
	})
	def("Eq", func(m *Machine, g *Gor, a []value) value {
		m.noteEq(m.toFe(a[0]).t, m.toFe(a[1]).t)
		return m.fromB(m.st.FEq(m.toFe(a[0]).t, m.toFe(a[1]).t))
	})
	def("EqS", func(m *Machine, g *Gor, a []value) value {
		x, y := a[0].([]value), a[1].([]value)
		if len(x) != len(y) {
			return false
		}
		var bs []*B
		for i := range x {
			m.noteEq(m.toFe(x[i]).t, m.toFe(y[i]).t)
			bs = append(bs, m.st.FEq(m.toFe(x[i]).t, m.toFe(y[i]).t))
		}
		return m.fromB(m.st.And(bs...))
	})
	def("Note", func(m *Machine, g *Gor, a []value) value {
		for _, x := range a[0].([]value) {
			m.noteEq(m.toFe(x).t, m.toFe(x).t)
		}
		return nil
	})
	def("Sometimes", func(m *Machine, g *Gor, a []value) value {
		m.noSpec("sometimes")
		m.sometimes(m.toB(a[0]), vxStr(a[1]))
		return nil
	})
	def("MaxQueued", func(m *Machine, g *Gor, a []value) value {
		m.noSpec("maxqueued")
		if m.log != nil {
			ch := a[0].(iface).v.(*Chan)
			m.log.inv = append(m.log.inv, invariant{obj: ch.id, max: int(a[1].(int64)), label: vxStr(a[2])})
		}
		return nil
	})
	def("IntEq", func(m *Machine, g *Gor, a []value) value { return m.equals(a[0], a[1]) })
	bools := func(m *Machine, v value) []*B {
		var bs []*B
		for _, x := range v.([]value) {
			bs = append(bs, m.toB(x))
		}
		return bs
	}
	def("And", func(m *Machine, g *Gor, a []value) value { return m.fromB(m.st.And(bools(m, a[0])...)) })
	def("Or", func(m *Machine, g *Gor, a []value) value { return m.fromB(m.st.Or(bools(m, a[0])...)) })
	def("Not", func(m *Machine, g *Gor, a []value) value { return m.fromB(m.st.Not(m.toB(a[0]))) })
	def("Implies", func(m *Machine, g *Gor, a []value) value {
		return m.fromB(m.st.Or(m.st.Not(m.toB(a[0])), m.toB(a[1])))
	})
	def("Iff", func(m *Machine, g *Gor, a []value) value {
		p, q := m.toB(a[0]), m.toB(a[1])
		return m.fromB(m.iff(p, q))
	})
	def("Panics", func(m *Machine, g *Gor, a []value) (res value) {
		m.noSpec("Panics")
		d := g.depth
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			if tp, ok := x.(targetPanic); ok {
				g.depth = d
				m.lastPanic = tp.msg
				res = true
				return
			}
			panic(x)
		}()
		m.call(g, nil, a[0], nil)
		return false
	})
	def("Named", func(m *Machine, g *Gor, a []value) value {
		if m.toFe(a[0]).t.kind == kConst {
			return a[0]
		}
		return Fe{m.st.Named(vxStr(a[1]), m.toFe(a[0]).t)}
	})
	def("Root7", func(m *Machine, g *Gor, a []value) value { return Fe{m.st.Root7(m.toFe(a[0]).t)} })
	def("IsSymbolic", func(m *Machine, g *Gor, a []value) value { return true })
	def("Hash", func(m *Machine, g *Gor, a []value) value {
		sl := a[0].([]value)
		ts := make([]*T, len(sl))
		for i := range sl {
			ts[i] = m.toFe(sl[i]).t
		}
		return Fe{m.st.Hash(ts)}
	})
	return r
}

// root7Exp is the inverse of 7 modulo p-1: x -> x^root7Exp inverts x -> x^7 on the whole field.
var root7Exp = func() *big.Int {
	order := new(big.Int).Sub(fr.Modulus(), big.NewInt(1))
	d := new(big.Int).ModInverse(big.NewInt(7), order)
	if d == nil {
		panic("x^7 is not a bijection")
	}
	return d
}()

func root7Fe(x fr.Element) fr.Element {
	if x.IsZero() {
		return x
	}
	var r fr.Element
	r.Exp(x, root7Exp)
	return r
}

// Root7 is the seventh root, which exists and is unique in the field, so that it undoes seventh powers exactly.
func (s *Store) Root7(t *T) *T {
	switch t.kind {
	case kConst:
		return s.Const(root7Fe(t.c))
	case kMono:
		fs := make([]fexp, len(t.args))
		for i := range t.args {
			if t.exps[i]%7 != 0 {
				fs = nil
				break
			}
			fs[i] = fexp{t.args[i], t.exps[i] / 7}
		}
		if fs != nil {
			return s.fromFactors(fs)
		}
	case kSum:
		if t.c.IsZero() && len(t.args) == 1 {
			k := root7Fe(t.coefs[0])
			return s.Scale(s.Root7(t.args[0]), &k)
		}
	}
	return s.App("root7", []*T{t})
}

// Hash is the application of the (uninterpreted) hash; constants are hashed for real.
func (s *Store) Hash(ts []*T) *T {
	allC := true
	for i, t := range ts {
		if t.kind != kConst {
			allC = false
			ts[i] = s.canon(t)
		}
	}
	if allC {
		vs := make([]fr.Element, len(ts))
		for i := range ts {
			vs[i] = ts[i].c
		}
		return s.Const(s.hashEval("H", vs))
	}
	return s.App(fmt.Sprintf("H%d", len(ts)), ts)
}

// iff is p == q. Equations common to two conjunctions are factored out: equations with proportional fingerprints
// are replaced by each other once the solver agrees that they are equivalent.
func (m *Machine) iff(p, q *B) *B {
	st := m.st
	conj := func(b *B) []*B {
		if b.kind == bAnd {
			return b.args
		}
		return []*B{b}
	}
	if p == q || p.kind != bAnd && q.kind != bAnd {
		return st.BIte(p, q, st.Not(q))
	}
	pl, ql := conj(p), conj(q)
	inQ := map[*B]bool{}
	for _, x := range ql {
		inQ[x] = true
	}
	var l, common []*B
	for _, x := range pl {
		if inQ[x] {
			common = append(common, x)
			delete(inQ, x)
		} else {
			l = append(l, x)
		}
	}
	key := func(b *B) (string, bool) {
		if b.kind != bFEq || b.t.fp[0].IsZero() {
			return "", false
		}
		var i fr.Element
		i.Inverse(&b.t.fp[0])
		k := ""
		for j := range b.t.fp {
			var x fr.Element
			x.Mul(&b.t.fp[j], &i)
			k += feKey(&x)
		}
		return k, true
	}
	byKey := map[string]*B{}
	for _, x := range ql {
		if inQ[x] {
			if k, ok := key(x); ok {
				byKey[k] = x
			}
		}
	}
	var rest []*B
	for _, x := range l {
		k, ok := key(x)
		y := byKey[k]
		if !ok || y == nil || !inQ[y] {
			rest = append(rest, x)
			continue
		}
		var c fr.Element
		c.Inverse(&x.t.fp[0])
		c.Mul(&c, &y.t.fp[0])
		if m.prove(st.FEq(st.Scale(x.t, &c), y.t), 10*time.Second) != Unsat {
			rest = append(rest, x)
			continue
		}
		common = append(common, x)
		delete(inQ, y)
	}
	var other []*B
	for _, x := range ql {
		if inQ[x] {
			other = append(other, x)
		}
	}
	a, b := st.And(rest...), st.And(other...)
	return st.Or(st.Not(st.And(common...)), st.BIte(a, b, st.Not(b)))
}
