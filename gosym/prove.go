package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"time"

	"github.com/consensys/gurvy/bn256/fr"
)

// Oblig is a proof obligation that was not discharged, or its counterexample.
type Oblig struct {
	Label     string
	Verdict   Verdict // Sat: counterexample found ; Unknown: undecided
	Cex       *Asg
	PC        []string
	Goal      string
	Choices   map[string]int64
	Prefix    []int
	Script    []int // the scheduling and choice decisions among them
	Kind      string
	Confirmed string // how the counterexample was confirmed already
	Case      *Case  // the native case, if it was found natively
	Sched     bool   // several goroutines take part
	tried     bool   // a native replay was attempted
	how       string // and what came of it
	ok        bool
	Msg       string
	Way       []map[string]int // the cuts the execution was steered through
}

// ---------- variable occurrences

func (s *Store) freeVars(bs []*B, ts []*T) (fv map[*T]bool, bv map[*B]bool, vv map[*V]bool) {
	fv, bv, vv = map[*T]bool{}, map[*B]bool{}, map[*V]bool{}
	seenT, seenB, seenV := map[*T]bool{}, map[*B]bool{}, map[*V]bool{}
	var ft func(*T)
	var fb func(*B)
	var fvv func(*V)
	fvv = func(v *V) {
		if seenV[v] {
			return
		}
		seenV[v] = true
		if v.op == "var" {
			vv[v] = true
		}
		if v.t != nil {
			ft(v.t)
		}
		if v.cond != nil {
			fb(v.cond)
		}
		for _, a := range v.args {
			fvv(a)
		}
	}
	ft = func(t *T) {
		if seenT[t] {
			return
		}
		seenT[t] = true
		if t.kind == kVar {
			if t.def != nil {
				ft(t.def)
			} else {
				fv[t] = true
			}
		}
		if t.cond != nil {
			fb(t.cond)
		}
		for _, a := range t.args {
			ft(a)
		}
	}
	fb = func(b *B) {
		if seenB[b] {
			return
		}
		seenB[b] = true
		if b.kind == bVar {
			bv[b] = true
		}
		if b.t != nil {
			ft(b.t)
		}
		if b.x != nil {
			fvv(b.x)
			fvv(b.y)
		}
		for _, a := range b.args {
			fb(a)
		}
	}
	for _, b := range bs {
		fb(b)
	}
	for _, t := range ts {
		ft(t)
	}
	return
}

// ---------- probing: is a generalised question worth asking?

// probe evaluates b under random values with applications free and named cuts below level lvl free.
func (s *Store) probeTrue(b *B, lvl int, seed string) bool {
	a := &Asg{F: map[string]fr.Element{}, B: map[string]bool{}, V: map[string]uint64{}}
	e := s.newEval(a)
	e.free = true
	e.lvl = lvl
	e.seed = seed
	return e.bool(b)
}

// ---------- proving

// proveFree decides whether b is valid without path condition.
func (s *Store) proveFree(sv *Solver, b *B, to time.Duration) Verdict {
	if b.kind == bConst {
		if b.val {
			return Unsat
		}
		return Sat
	}
	for _, v := range b.fp {
		if !v {
			return Sat
		}
	}
	if r, ok := s.freeMemo[b]; ok {
		return r
	}
	res := Unknown
	if b.kind == bAnd {
		res = Unsat
		for _, a := range b.args {
			r := s.proveFree(sv, a, to)
			if r == Sat {
				res = Sat
				break
			}
			if r != Unsat {
				res = Unknown
			}
		}
		s.freeMemo[b] = res
		return res
	}
	if cut := s.findCut(b); len(cut) > 0 {
		v, _ := sv.Ask(s, &Query{Asserts: []*B{s.Not(b)}, DefLvl: -1, Cut: cut, Timeout: to})
		if v == Unsat {
			s.freeMemo[b] = Unsat
			return Unsat
		}
	}
	levels := []int{0, 1, 2, 4, -1}
	hasDef := s.defDepth(b) > 0
	if !hasDef {
		levels = []int{-1}
	}
	for _, l := range levels {
		if l >= 0 && !(s.probeTrue(b, l, "p1") && s.probeTrue(b, l, "p2")) {
			continue
		}
		v, _ := sv.Ask(s, &Query{Asserts: []*B{s.Not(b)}, DefLvl: l, Timeout: to})
		if v == Unsat {
			res = Unsat
			break
		}
		if v == Sat && l < 0 {
			res = Sat
		}
	}
	s.freeMemo[b] = res
	return res
}

// findCut looks for inner terms that can be replaced by arbitrary values without (visibly) invalidating b.
// The generalised question is then decided by the solver: it is sound whatever the cut, since an identity
// of the generalisation is one of b.
func (s *Store) findCut(b *B) map[*T]bool {
	t0 := time.Now()
	cut := map[*T]bool{}
	var e *evaluator
	try := func() bool {
		for i := 0; i < 2; i++ {
			x := s.newEval(&Asg{F: map[string]fr.Element{}, B: map[string]bool{}, V: map[string]uint64{}})
			x.free, x.lvl, x.cut = true, 1<<30, cut
			x.seed = fmt.Sprint("cut", i)
			x.sd = uint64(i + 1)
			if !x.bool(b) {
				return false
			}
			e = x
		}
		return true
	}
	if !try() {
		return nil
	}
	var nodes []*T
	for t := range e.ft {
		switch t.kind {
		case kSum, kMono, kIte, kInv:
			nodes = append(nodes, t)
		case kVar:
			if t.def != nil {
				nodes = append(nodes, t)
			}
		}
	}
	if len(nodes) < 12 {
		return nil
	}
	sort.Slice(nodes, func(i, j int) bool { return nodes[i].id > nodes[j].id })
	for _, t := range nodes {
		if b.t == t {
			continue
		}
		if _, ok := e.ft[t]; !ok {
			continue
		}
		if time.Since(t0) > 10*time.Second {
			break
		}
		keep := e
		cut[t] = true
		if !try() {
			delete(cut, t)
			e = keep
		}
	}
	for t := range cut {
		if _, ok := e.ft[t]; !ok {
			delete(cut, t)
		}
	}
	if debugCut {
		var dump func(t *T)
		seen := map[*T]bool{}
		dump = func(t *T) {
			if seen[t] || t.kind == kConst {
				return
			}
			seen[t] = true
			for _, a := range t.args {
				dump(a)
			}
			o := ""
			for i, a := range t.args {
				c := ""
				if t.kind == kSum {
					c = feShort(t.coefs[i]) + "*"
				}
				x := fmt.Sprintf("n%d", a.id)
				if a.kind == kVar {
					x = a.name
				}
				if t.kind == kMono && t.exps[i] > 1 {
					x += fmt.Sprintf("^%d", t.exps[i])
				}
				o += " " + c + x
			}
			fmt.Fprintf(os.Stderr, "  n%d cut=%v kind=%d %s c=%s:%s\n", t.id, cut[t], t.kind, t.name, feShort(t.c), o)
		}
		if os.Getenv("GOSYM_CUT") == "2" && b.t != nil {
			dump(b.t)
		}
		fmt.Fprintf(os.Stderr, "cut: %d nodes -> %d, %d cut, %s\n", len(nodes), len(e.ft), len(cut), time.Since(t0))
	}
	return cut
}

var debugCut = os.Getenv("GOSYM_CUT") != ""

func (s *Store) defDepth(b *B) int {
	seen := map[*T]int{}
	var ft func(t *T) int
	seenB := map[*B]bool{}
	var fb func(b *B) int
	ft = func(t *T) int {
		if d, ok := seen[t]; ok {
			return d
		}
		seen[t] = 0
		d := 0
		if t.kind == kVar && t.def != nil {
			d = 1
		}
		if t.kind != kApp {
			for _, a := range t.args {
				d = max(d, ft(a))
			}
		}
		if t.cond != nil {
			d = max(d, fb(t.cond))
		}
		seen[t] = d
		return d
	}
	fb = func(b *B) int {
		if seenB[b] {
			return 0
		}
		seenB[b] = true
		d := 0
		if b.t != nil {
			d = ft(b.t)
		}
		for _, a := range b.args {
			d = max(d, fb(a))
		}
		return d
	}
	return fb(b)
}

// canon replaces t by an equal, earlier canonical term when the solver proves them equal.
func (s *Store) canon(t *T) *T {
	if t.kind == kConst || t.kind == kVar || t.kind == kApp {
		return t
	}
	k := fpKey([]*T{t})
	for _, c := range s.canonTab[k] {
		if c == t {
			return t
		}
	}
	for _, c := range s.canonTab[k] {
		if s.solver != nil && s.proveFree(s.solver, s.FEq(c, t), s.sweepTO) == Unsat {
			s.sweeps++
			return c
		}
	}
	s.canonTab[k] = append(s.canonTab[k], t)
	return t
}

// prove decides whether the path condition implies b. Unsat means proved.
func (m *Machine) prove(b *B, to time.Duration) Verdict {
	st := m.st
	if b.kind == bConst {
		if b.val {
			return Unsat
		}
		if len(m.pc) == 0 {
			return Sat
		}
	}
	if m.pcSet[b] {
		return Unsat
	}
	if b.kind == bAnd {
		res := Unsat
		for _, a := range b.args {
			r := m.prove(a, to)
			if r == Sat {
				return Sat
			}
			if r != Unsat {
				res = r
			}
		}
		return res
	}
	for _, k := range m.activeFP() {
		if !b.fp[k] {
			return Sat
		}
	}
	for _, w := range m.witnesses() {
		if !w.ev.bool(b) {
			return Sat
		}
	}
	allFP := true
	for _, v := range b.fp {
		allFP = allFP && v
	}
	if allFP {
		if st.proveFree(m.solver, b, to) == Unsat {
			return Unsat
		}
	}
	if len(m.pc) == 0 {
		return Unknown
	}
	if allFP && m.branchCex(b) != nil {
		return Sat
	}
	// with the relevant part of the path condition
	rel := m.relevant(b)
	if len(rel) == 0 && b.kind == bConst {
		return Unknown
	}
	key := fmt.Sprintf("%d|", b.id)
	for _, p := range rel {
		key += fmt.Sprintf("%d,", p.id)
	}
	if r, ok := st.proveMemo[key]; ok {
		return r
	}
	as := append(append([]*B(nil), rel...), st.Not(b))
	res := Unknown
	levels := []int{0, 1, -1}
	for i, l := range levels {
		if l >= 0 && i > 0 {
			// same level of detail as before when nothing is cut
			if !m.hasCuts(as) {
				continue
			}
		}
		v, _ := m.solver.Ask(st, &Query{Asserts: as, DefLvl: l, Timeout: to})
		if v == Unsat {
			res = Unsat
			break
		}
		if v == Sat {
			res = Sat // of the abstraction: hash values free; not necessarily a counterexample
			if l >= 0 {
				res = Unknown
			}
			if !m.hasCuts(as) {
				break
			}
		}
		if v == Unknown && !m.hasCuts(as) {
			break
		}
	}
	if res == Sat {
		res = Unknown
		if !m.hasApps(as) {
			res = Sat
		}
	}
	st.proveMemo[key] = res
	return res
}

func (m *Machine) hasCuts(bs []*B) bool {
	for _, b := range bs {
		if m.st.defDepth(b) > 0 {
			return true
		}
	}
	return false
}

func (m *Machine) hasApps(bs []*B) bool {
	seen := map[*T]bool{}
	var ft func(t *T) bool
	var fb func(b *B) bool
	ft = func(t *T) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.kind == kApp {
			return true
		}
		if t.cond != nil && fb(t.cond) {
			return true
		}
		if t.def != nil && ft(t.def) {
			return true
		}
		for _, a := range t.args {
			if ft(a) {
				return true
			}
		}
		return false
	}
	var fw func(v *V) bool
	fw = func(v *V) bool {
		if v.op == "limb" || v.cond != nil && fb(v.cond) {
			return true
		}
		for _, a := range v.args {
			if fw(a) {
				return true
			}
		}
		return false
	}
	fb = func(b *B) bool {
		if b.t != nil && ft(b.t) || b.x != nil && (fw(b.x) || fw(b.y)) {
			return true
		}
		for _, a := range b.args {
			if fb(a) {
				return true
			}
		}
		return false
	}
	for _, b := range bs {
		if fb(b) {
			return true
		}
	}
	return false
}

// relevant is the part of the path condition connected to b through shared variables.
func (m *Machine) relevant(b *B) []*B {
	fv, bv, vv := m.st.freeVars([]*B{b}, nil)
	type occ struct {
		f map[*T]bool
		b map[*B]bool
		v map[*V]bool
	}
	var os []occ
	for _, p := range m.pc {
		f, bb, v := m.st.freeVars([]*B{p}, nil)
		os = append(os, occ{f, bb, v})
	}
	in := make([]bool, len(m.pc))
	if b.kind == bConst {
		for i := range in {
			in[i] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for i := range m.pc {
			if in[i] {
				continue
			}
			hit := false
			for x := range os[i].f {
				if fv[x] {
					hit = true
					break
				}
			}
			for x := range os[i].b {
				if bv[x] {
					hit = true
				}
			}
			for x := range os[i].v {
				if vv[x] {
					hit = true
				}
			}
			if hit {
				in[i] = true
				ch = true
				for x := range os[i].f {
					fv[x] = true
				}
				for x := range os[i].b {
					bv[x] = true
				}
				for x := range os[i].v {
					vv[x] = true
				}
			}
		}
	}
	var r []*B
	for i := range m.pc {
		if in[i] {
			r = append(r, m.pc[i])
		}
	}
	return r
}

// ---------- witnesses

// witness is a concrete assignment satisfying the path condition (kept up to date incrementally).
type witness struct {
	asg    *Asg
	ev     *evaluator
	locked map[*T]bool
	solved []solvedEq
	n      int // literals of pc processed
	ok     bool
	again  bool // rebuilt from scratch once
	seed   int
}

// solvedEq is an equation t = 0 that was satisfied by the choice of variable y.
type solvedEq struct{ t, y *T }

func (m *Machine) baseAsg(k int) *Asg {
	a := &Asg{F: map[string]fr.Element{}, B: map[string]bool{}, V: map[string]uint64{}}
	for _, v := range m.st.vars {
		a.F[v.name] = m.st.fpVar(v.name, k)
	}
	for _, v := range m.st.bvars {
		a.B[v.name] = v.fp[k%nFP]
	}
	for _, v := range m.st.vvars {
		a.V[v.name] = v.fp[k%nFP]
	}
	return a
}

func (m *Machine) witnesses() []*witness {
	if len(m.pc) == 0 {
		return nil
	}
	if m.wits == nil {
		for _, k := range []int{0, 3} {
			w := &witness{asg: m.baseAsg(k), locked: map[*T]bool{}, ok: true, seed: k}
			m.wits = append(m.wits, w)
		}
		m.witVars = len(m.st.vars)
	}
	var r []*witness
	for _, w := range m.wits {
		if !w.ok {
			continue
		}
		if m.witVars != len(m.st.vars) || w.ev == nil {
			for _, v := range m.st.vars {
				if _, has := w.asg.F[v.name]; !has {
					w.asg.F[v.name] = m.st.fpVar(v.name, w.seed)
				}
			}
			for _, v := range m.st.bvars {
				if _, has := w.asg.B[v.name]; !has {
					w.asg.B[v.name] = v.fp[w.seed%nFP]
				}
			}
			for _, v := range m.st.vvars {
				if _, has := w.asg.V[v.name]; !has {
					w.asg.V[v.name] = v.fp[w.seed%nFP]
				}
			}
			w.ev = m.st.newEval(w.asg)
		}
		if len(m.spec) == 0 {
			for w.ok && w.n < len(m.pc) {
				if !m.satisfy(w, m.pc[w.n]) {
					w.ok = false
				}
				w.n++
			}
			if !w.ok && !w.again {
				// once more, the literals with the fewest variables first
				n := &witness{asg: m.baseAsg(w.seed), locked: map[*T]bool{}, seed: w.seed, ok: true, n: len(m.pc)}
				n.ev = m.st.newEval(n.asg)
				lits := append([]*B(nil), m.pc...)
				m.fewestFirst(lits)
				for _, p := range lits {
					if !m.satisfy(n, p) {
						n.ok = false
						break
					}
				}
				w.again = true
				if n.ok {
					*w = *n
				}
			}
			if !w.ok {
				continue
			}
		}
		good := true
		for _, p := range m.pc {
			if !w.ev.bool(p) {
				good = false
				break
			}
		}
		if good {
			r = append(r, w)
		} else if len(m.spec) == 0 {
			w.ok = false
		}
	}
	m.witVars = len(m.st.vars)
	return r
}

// satisfy adjusts w so that literal b holds, changing only unlocked variables.
func (m *Machine) satisfy(w *witness, b *B) bool {
	if w.ev.bool(b) {
		m.lock(w, b)
		return true
	}
	switch b.kind {
	case bFEq:
		return m.solveEq(w, b.t)
	case bBV:
		// equal words of two elements: give one of them the word of the other
		if b.op == "=" {
			for _, p := range [][2]*V{{b.x, b.y}, {b.y, b.x}} {
				x, u := p[0], p[1]
				if x.op != "limb" || x.t.kind != kVar || x.t.def != nil || w.locked[x.t] {
					continue
				}
				old := w.asg.F[x.t.name]
				e := old
				e[x.li] = w.ev.bv(u)
				if !reduced(e) {
					continue
				}
				w.asg.F[x.t.name] = e
				w.ev = m.st.newEval(w.asg)
				if w.ev.bool(b) {
					if u.op == "limb" {
						fv, _, _ := m.st.freeVars(nil, []*T{u.t})
						for v := range fv {
							w.locked[v] = true
						}
					}
					return true
				}
				w.asg.F[x.t.name] = old
				w.ev = m.st.newEval(w.asg)
			}
		}
		return false
	case bAnd:
		for _, a := range b.args {
			if !m.satisfy(w, a) {
				return false
			}
		}
		return w.ev.bool(b)
	case bOr:
		for _, a := range b.args {
			save := w.asg.clone()
			sv := append([]solvedEq(nil), w.solved...)
			lk := cloneSet(w.locked)
			if m.satisfy(w, a) {
				return true
			}
			w.asg, w.locked, w.solved = save, lk, sv
			w.ev = m.st.newEval(w.asg)
		}
		return false
	case bVar:
		w.asg.B[b.name] = true
		w.ev = m.st.newEval(w.asg)
		return true
	case bNot:
		x := b.args[0]
		switch x.kind {
		case bVar:
			w.asg.B[x.name] = false
			w.ev = m.st.newEval(w.asg)
			return true
		case bFEq: // make t nonzero: perturb an unlocked variable
			fv, _, _ := m.st.freeVars([]*B{x}, nil)
			for _, v := range sortVars(fv) {
				if w.locked[v] {
					continue
				}
				old := w.asg.F[v.name]
				w.asg.F[v.name] = randFe("perturb", v.name)
				w.ev = m.st.newEval(w.asg)
				if w.ev.bool(b) {
					m.lock(w, b)
					return true
				}
				w.asg.F[v.name] = old
				w.ev = m.st.newEval(w.asg)
			}
			return false
		case bAnd:
			var bs []*B
			for _, a := range x.args {
				bs = append(bs, m.st.Not(a))
			}
			return m.satisfy(w, m.st.Or(bs...))
		case bOr:
			var bs []*B
			for _, a := range x.args {
				bs = append(bs, m.st.Not(a))
			}
			return m.satisfy(w, m.st.And(bs...))
		}
	}
	return false
}

// reduced: e is below the modulus, like every element in Montgomery form.
func reduced(e fr.Element) bool {
	x := new(big.Int)
	for i := 3; i >= 0; i-- {
		x.Lsh(x, 64)
		x.Or(x, new(big.Int).SetUint64(e[i]))
	}
	return x.Cmp(fr.Modulus()) < 0
}

func (m *Machine) fewestFirst(l []*B) {
	n := map[*B]int{}
	for _, p := range l {
		f, b, v := m.st.freeVars([]*B{p}, nil)
		n[p] = len(f) + len(b) + len(v)
	}
	sort.SliceStable(l, func(i, j int) bool { return n[l[i]] < n[l[j]] })
}

func sortVars(fv map[*T]bool) []*T {
	var l []*T
	for v := range fv {
		l = append(l, v)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id > l[j].id })
	return l
}

func cloneSet(s map[*T]bool) map[*T]bool {
	r := map[*T]bool{}
	for k, v := range s {
		r[k] = v
	}
	return r
}

func (a *Asg) clone() *Asg {
	r := &Asg{F: map[string]fr.Element{}, B: map[string]bool{}, V: map[string]uint64{}}
	for k, v := range a.F {
		r.F[k] = v
	}
	for k, v := range a.B {
		r.B[k] = v
	}
	for k, v := range a.V {
		r.V[k] = v
	}
	return r
}

func (m *Machine) lock(w *witness, b *B) {
	// only equalities constrain; disequalities hold generically
	hasEq := false
	var walk func(x *B, pos bool)
	walk = func(x *B, pos bool) {
		switch x.kind {
		case bFEq:
			if pos {
				hasEq = true
			}
		case bNot:
			walk(x.args[0], !pos)
		case bAnd, bOr:
			for _, a := range x.args {
				walk(a, pos)
			}
		}
	}
	walk(b, true)
	if !hasEq {
		return
	}
	fv, _, _ := m.st.freeVars([]*B{b}, nil)
	for v := range fv {
		w.locked[v] = true
	}
}

// solveEq makes t = 0 by solving for an unlocked variable in which t is linear.
func (m *Machine) solveEq(w *witness, t *T) bool {
	all, _, _ := m.st.freeVars(nil, []*T{t})
	inApp := map[*T]bool{}
	outApp := map[*T]bool{}
	seen := map[*T]bool{}
	var walk func(x *T)
	walk = func(x *T) {
		if seen[x] {
			return
		}
		seen[x] = true
		switch x.kind {
		case kVar:
			if x.def != nil {
				walk(x.def)
			} else {
				outApp[x] = true
			}
		case kApp, kInv:
			fv, _, _ := m.st.freeVars(nil, x.args)
			for v := range fv {
				inApp[v] = true
			}
		case kIte:
			fv, _, _ := m.st.freeVars([]*B{x.cond}, nil)
			for v := range fv {
				inApp[v] = true
			}
			walk(x.args[0])
			walk(x.args[1])
		default:
			for _, a := range x.args {
				walk(a)
			}
		}
	}
	walk(t)
	var cands, second []*T
	for _, v := range sortVars(outApp) {
		if w.locked[v] {
			continue
		}
		if inApp[v] {
			second = append(second, v)
		} else {
			cands = append(cands, v)
		}
	}
	_ = second
	at := func(v *T, x fr.Element) fr.Element {
		w.asg.F[v.name] = x
		w.ev = m.st.newEval(w.asg)
		return w.ev.term(t)
	}
	for _, v := range cands {
		old := w.asg.F[v.name]
		var zero, one, two fr.Element
		one.SetOne()
		two.SetUint64(2)
		f0, f1, f2 := at(v, zero), at(v, one), at(v, two)
		var d, d2 fr.Element
		d.Sub(&f1, &f0)
		d2.Sub(&f2, &f1)
		if d.Equal(&d2) && !d.IsZero() {
			var x fr.Element
			x.Inverse(&d)
			x.Mul(&x, &f0)
			x.Neg(&x)
			r := at(v, x)
			if r.IsZero() {
				for y := range all {
					w.locked[y] = true
				}
				w.solved = append(w.solved, solvedEq{t, v})
				return true
			}
		}
		w.asg.F[v.name] = old
		w.ev = m.st.newEval(w.asg)
	}
	return m.solveJointly(w, t, sortVars(outApp))
}

// solveJointly makes t = 0 by moving a variable while the equations solved before are solved again.
func (m *Machine) solveJointly(w *witness, t *T, vars []*T) bool {
	if len(w.solved) == 0 {
		return false
	}
	isY := map[*T]bool{}
	for _, e := range w.solved {
		isY[e.y] = true
	}
	set := func(v *T, x fr.Element) {
		w.asg.F[v.name] = x
		w.ev = m.st.newEval(w.asg)
	}
	var one, two, zero fr.Element
	one.SetOne()
	two.SetUint64(2)
	resolve := func() bool {
		for _, e := range w.solved {
			r := w.ev.term(e.t)
			if r.IsZero() {
				continue
			}
			set(e.y, zero)
			f0 := w.ev.term(e.t)
			set(e.y, one)
			d := w.ev.term(e.t)
			d.Sub(&d, &f0)
			if d.IsZero() {
				return false
			}
			d.Inverse(&d)
			d.Mul(&d, &f0)
			d.Neg(&d)
			set(e.y, d)
			r = w.ev.term(e.t)
			if !r.IsZero() {
				return false
			}
		}
		return true
	}
	at := func(v *T, x fr.Element) (fr.Element, bool) {
		set(v, x)
		if !resolve() {
			return zero, false
		}
		return w.ev.term(t), true
	}
	save := w.asg.clone()
	tried := 0
	for _, v := range vars {
		if isY[v] {
			continue
		}
		if tried++; tried > 12 {
			break
		}
		f0, ok0 := at(v, zero)
		f1, ok1 := at(v, one)
		f2, ok2 := at(v, two)
		if ok0 && ok1 && ok2 {
			var d, d2 fr.Element
			d.Sub(&f1, &f0)
			d2.Sub(&f2, &f1)
			if d.Equal(&d2) && !d.IsZero() {
				d.Inverse(&d)
				d.Mul(&d, &f0)
				d.Neg(&d)
				if r, ok := at(v, d); ok && r.IsZero() {
					w.locked[v] = true
					w.solved = append(w.solved, solvedEq{t, v})
					return true
				}
			}
		}
		w.asg = save.clone()
		w.ev = m.st.newEval(w.asg)
	}
	return false
}

// findCex looks for an assignment satisfying the path condition and refuting b.
func (m *Machine) findCex(b *B) *Asg {
	st := m.st
	for _, k := range m.activeFP() {
		if !b.fp[k] {
			return m.baseAsg(k)
		}
	}
	for _, w := range m.witnesses() {
		if !w.ev.bool(b) {
			return w.asg.clone()
		}
	}
	check := func(w *witness) bool {
		for _, p := range m.pc {
			if !w.ev.bool(p) {
				return false
			}
		}
		return !w.ev.bool(b)
	}
	nb := st.Not(b)
	for _, k := range []int{0, 1, 3, 2} {
		if m.stopped() {
			return nil
		}
		// refute the goal after, then before, satisfying the path condition
		for order := 0; order < 4; order++ {
			w := &witness{asg: m.baseAsg(k), locked: map[*T]bool{}, seed: k}
			w.ev = st.newEval(w.asg)
			lits := append([]*B(nil), m.pc...)
			if order >= 2 {
				m.fewestFirst(lits)
			}
			if order%2 == 0 {
				lits = append(lits, nb)
			} else {
				lits = append([]*B{nb}, lits...)
			}
			ok := true
			for _, p := range lits {
				if !m.satisfy(w, p) {
					ok = false
					break
				}
			}
			if ok && check(w) {
				return w.asg.clone()
			}
		}
	}
	if a := m.branchCex(b); a != nil {
		return a
	}
	// ask the solver for a model of the abstraction and see whether it is real
	if !m.hasApps(append(append([]*B(nil), m.pc...), nb)) {
		v, mod := m.solver.Ask(st, &Query{Asserts: append(append([]*B(nil), m.pc...), nb), DefLvl: -1, Want: true, Timeout: m.cfg.ProveTimeout})
		if v == Sat && mod != nil {
			base := m.baseAsg(0)
			for k, x := range mod.F {
				base.F[k] = x
			}
			for k, x := range mod.B {
				base.B[k] = x
			}
			for k, x := range mod.V {
				base.V[k] = x
			}
			w := &witness{asg: base, locked: map[*T]bool{}}
			w.ev = st.newEval(base)
			if check(w) {
				return base
			}
			m.dbg("solver model does not check")
		}
	}
	return nil
}

// branchCex looks for a counterexample among the inputs for which some conditional value in the goal takes the
// alternative it does not take generically.
func (m *Machine) branchCex(b *B) *Asg {
	st := m.st
	nb := st.Not(b)
	check := func(w *witness) bool {
		for _, p := range m.pc {
			if !w.ev.bool(p) {
				return false
			}
		}
		return !w.ev.bool(b)
	}
	for _, conds := range m.branches(nb, 12) {
		if m.stopped() {
			return nil
		}
		for order := 0; order < 2; order++ {
			w := &witness{asg: m.baseAsg(0), locked: map[*T]bool{}, seed: 0}
			w.ev = st.newEval(w.asg)
			lits := append([]*B(nil), m.pc...)
			if order == 1 {
				m.fewestFirst(lits)
			}
			lits = append(append(append([]*B(nil), conds...), lits...), nb)
			ok := true
			for _, p := range lits {
				if !m.satisfy(w, p) {
					ok = false
					break
				}
			}
			if ok && check(w) {
				return w.asg.clone()
			}
		}
	}
	return nil
}

// branches lists the ways through the conditional values of b in which some condition has the value it does not
// have for generic inputs: each is the conjunction of conditions that leads to one alternative.
func (m *Machine) branches(b *B, limit int) (r [][]*B) {
	seen := map[*T]bool{}
	seenB := map[*B]bool{}
	have := map[string]bool{}
	add := func(path []*B) {
		key := ""
		generic := true
		for _, p := range path {
			key += fmt.Sprintf("%d,", p.id)
			generic = generic && p.fp[0]
		}
		if generic || have[key] || len(r) >= limit {
			return
		}
		have[key] = true
		r = append(r, append([]*B(nil), path...))
	}
	var term func(x *T, path []*B)
	var cond func(x *B)
	term = func(x *T, path []*B) {
		if seen[x] || len(r) >= limit {
			return
		}
		seen[x] = true
		if x.kind == kVar && x.def != nil {
			term(x.def, path)
			return
		}
		if x.kind == kIte {
			for i, c := range []*B{x.cond, m.st.Not(x.cond)} {
				if c.kind == bConst {
					continue
				}
				p := append(append([]*B(nil), path...), c)
				add(p)
				term(x.args[i], p)
			}
			return
		}
		for _, a := range x.args {
			term(a, path)
		}
	}
	cond = func(x *B) {
		if seenB[x] {
			return
		}
		seenB[x] = true
		if x.t != nil {
			term(x.t, nil)
		}
		for _, a := range x.args {
			cond(a)
		}
	}
	cond(b)
	// the longest paths first: they determine the most
	sort.SliceStable(r, func(i, j int) bool { return len(r[i]) > len(r[j]) })
	return r
}

// confirm asks the solver about the counterexample itself: path condition and refuted goal, pinned.
func (m *Machine) confirm(b *B, a *Asg) bool {
	e := m.st.newEval(a)
	v, _ := m.solver.Ask(m.st, &Query{Asserts: append(append([]*B(nil), m.pc...), m.st.Not(b)), DefLvl: -1, Eval: e, Timeout: 20 * time.Second})
	return v == Sat
}

// check discharges an assertion of the harness.
func (m *Machine) check(b *B, label string) {
	if m.stopped() {
		panic(unsupported{"time budget exhausted"})
	}
	m.stats.Obligs++
	m.stats.Labels[label]++
	if b.kind == bConst && b.val {
		m.stats.Normal++
	}
	v := m.prove(b, m.cfg.ProveTimeout)
	if v == Unsat {
		m.stats.Discharged++
		return
	}
	m.fail(b, label, "assertion", "")
}

// sometimes is the obligation that some input on this path satisfies b.
func (m *Machine) sometimes(b *B, label string) {
	m.stats.Obligs++
	m.stats.Labels[label]++
	if m.findCex(m.st.Not(b)) != nil {
		m.stats.Discharged++
		return
	}
	if m.prove(m.st.Not(b), m.cfg.ProveTimeout) == Unsat {
		m.fail(b, label, "never", "no input satisfies this")
		return
	}
	m.stats.UnknownOb++
	m.obligs = append(m.obligs, &Oblig{Label: label, Verdict: Unknown, Kind: "never", Goal: b.str(6)})
}

func (m *Machine) fail(b *B, label, kind, msg string) {
	for _, o := range m.obligs {
		if o.Label == label && o.Kind == kind && o.Verdict == Sat {
			return // one counterexample per label is enough
		}
	}
	o := &Oblig{Label: label, Verdict: Unknown, Kind: kind, Msg: msg, Goal: b.str(6), Way: m.way}
	for _, p := range m.pc {
		o.PC = append(o.PC, p.str(3))
	}
	o.Choices = map[string]int64{}
	for k, x := range m.choices {
		o.Choices[k] = x
	}
	o.Sched = m.gid > 1
	for _, d := range m.trace {
		o.Prefix = append(o.Prefix, d.pick)
		if d.kind != "branch" {
			o.Script = append(o.Script, d.pick)
		}
	}
	if c := m.findCex(b); c != nil {
		if m.confirm(b, c) {
			o.Verdict = Sat
			o.Cex = c
			if m.found != nil {
				m.found(label)
			}
		} else {
			o.Msg += " (candidate not confirmed by the solver)"
		}
	}
	if o.Verdict == Unknown {
		m.stats.UnknownOb++
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "undecided %s: %s\n  pc=%v\n", label, o.Goal, o.PC)
		}
	}
	m.obligs = append(m.obligs, o)
}

// reach records that a point is reachable: some concrete assignment satisfies the path condition.
func (m *Machine) reach(label string) {
	if m.stats.Reached[label] > 0 {
		return
	}
	if len(m.pc) == 0 || len(m.activeFP()) > 0 || len(m.witnesses()) > 0 {
		m.stats.Reached[label]++
		return
	}
	if c := m.findCex(m.st.fls); c != nil {
		m.stats.Reached[label]++
	}
}

func feShort(e fr.Element) string {
	var b big.Int
	e.ToBigIntRegular(&b)
	if b.BitLen() > 200 {
		b.Sub(&b, modP)
	}
	if b.BitLen() > 40 {
		return "?" + b.String()[:6]
	}
	return b.String()
}
