package main

// Hash-consed terms over the BN254 scalar field F_p, booleans and bit-vectors.
//
// Field terms are kept in a light normal form: a Sum is  c + sum(coef_i * mono_i)  and a monomial is a
// product of powers of "factors". A factor is a variable, an application of an uninterpreted function, an
// ite, an inverse or an (un-expanded, monic) Sum. Products of sums are NOT distributed: proving two
// differently shaped polynomials equal is left to the SMT solver.

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/consensys/gurvy/bn256/fr"
)

const nFP = 4 // number of fingerprint assignments per term

var modP = fr.Modulus()

type tkind uint8

const (
	kConst tkind = iota
	kVar
	kApp
	kIte
	kInv
	kSum  // c + sum coef*mono
	kMono // product of factor^exp; >=2 distinct factors or exp>=2
)

// T is a field term.
type T struct {
	id    int
	kind  tkind
	c     fr.Element // kConst: value ; kSum: constant part
	name  string     // kVar, kApp
	args  []*T       // kApp: args ; kIte: then, else ; kInv: arg ; kSum: monomials ; kMono: factors
	coefs []fr.Element
	exps  []uint64
	cond  *B // kIte
	def   *T // kVar: optional definition (named cut)
	fp    [nFP]fr.Element
	depth int
	nvars []int32 // sorted ids of free variables (capped)
}

type bkind uint8

const (
	bConst bkind = iota
	bVar
	bFEq // field term == 0
	bNot
	bAnd
	bOr
	bBV // bit-vector predicate: op(a,b)
	bBVBit
)

// B is a boolean term.
type B struct {
	id   int
	kind bkind
	val  bool
	name string
	t    *T
	args []*B
	op   string
	x, y *V
	fp   [nFP]bool
}

// V is a bit-vector term (symbolic machine integer).
type V struct {
	id   int
	op   string // "var", "const", or smt op; "ite"
	w    int
	u    uint64
	name string
	args []*V
	cond *B
	hi   int
	lo   int
	t    *T  // op "limb": the element
	li   int // and the index of its word
	fp   [nFP]uint64
}

// Store interns terms.
type Store struct {
	ft    map[string]*T
	bt    map[string]*B
	vt    map[string]*V
	nid   int
	zero  *T
	one   *T
	tru   *B
	fls   *B
	seed  uint64
	vars  []*T
	bvars []*B
	vvars []*V
	// hashEval evaluates an uninterpreted function on concrete arguments (the real function)
	hashEval func(name string, args []fr.Element) fr.Element
	// onApp, when set, may merge a new application with an existing one proved equal
	onApp  func(name string, args []*T) *T
	apps   map[string][]*T // by fingerprint key
	pinned map[string]fr.Element
	// ite-product simplification oracle
	implZero func(c *B, t *T) (bool, bool)
	mulIte   map[[3]int]bool

	freeMemo  map[*B]Verdict
	proveMemo map[string]Verdict
	canonTab  map[string][]*T
	solver    *Solver
	sweepTO   time.Duration
	sweeps    int
	lem       *lemmaLog
}

func newStore(seed uint64) *Store {
	s := &Store{ft: map[string]*T{}, bt: map[string]*B{}, vt: map[string]*V{}, seed: seed,
		apps: map[string][]*T{}, mulIte: map[[3]int]bool{},
		freeMemo: map[*B]Verdict{}, proveMemo: map[string]Verdict{}, canonTab: map[string][]*T{}, sweepTO: 10 * time.Second}
	var z, o fr.Element
	o.SetOne()
	s.zero = s.Const(z)
	s.one = s.Const(o)
	s.tru = s.internB("T", func() *B {
		b := &B{kind: bConst, val: true}
		b.fp = [nFP]bool{}
		for i := range b.fp {
			b.fp[i] = true
		}
		return b
	})
	s.fls = s.internB("F", func() *B { return &B{kind: bConst, val: false} })
	return s
}

func (s *Store) internB(k string, mk func() *B) *B {
	if b, ok := s.bt[k]; ok {
		return b
	}
	b := mk()
	s.nid++
	b.id = s.nid
	s.bt[k] = b
	return b
}

func feKey(e *fr.Element) string {
	var b [32]byte
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(b[8*i:], e[i])
	}
	return string(b[:])
}

func (s *Store) intern(k string, mk func() *T) *T {
	if t, ok := s.ft[k]; ok {
		return t
	}
	t := mk()
	s.nid++
	t.id = s.nid
	s.ft[k] = t
	return t
}

func (s *Store) Const(e fr.Element) *T {
	return s.intern("c"+feKey(&e), func() *T {
		t := &T{kind: kConst, c: e}
		for i := range t.fp {
			t.fp[i] = e
		}
		return t
	})
}

func (s *Store) ConstU(u uint64) *T {
	var e fr.Element
	e.SetUint64(u)
	return s.Const(e)
}

func (s *Store) ConstBig(b *big.Int) *T {
	var e fr.Element
	e.SetBigInt(new(big.Int).Mod(b, modP))
	return s.Const(e)
}

func h64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func randFe(parts ...string) fr.Element {
	var bs [32]byte
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(bs[8*i:], h64(append(parts, fmt.Sprint(i))...))
	}
	bs[0] &= 0x1f
	var e fr.Element
	e.SetBigInt(new(big.Int).Mod(new(big.Int).SetBytes(bs[:]), modP))
	return e
}

// fpVar is the value of variable name under fingerprint assignment k.
func (s *Store) fpVar(name string, k int) fr.Element {
	sd := fmt.Sprint(s.seed)
	switch k {
	case 0, 1:
		return randFe(name, fmt.Sprint(k), sd)
	case 2: // sparse / boolean-ish
		switch h64(name, "sp", sd) % 4 {
		case 0:
			return fr.Element{}
		case 1:
			var o fr.Element
			o.SetOne()
			return o
		}
		return randFe(name, "2", sd)
	default: // small integers
		var e fr.Element
		e.SetUint64(h64(name, "sm", sd) % 7)
		return e
	}
}

func (s *Store) Var(name string) *T {
	return s.intern("v"+name, func() *T {
		t := &T{kind: kVar, name: name}
		for i := range t.fp {
			t.fp[i] = s.fpVar(name, i)
		}
		s.vars = append(s.vars, t)
		return t
	})
}

// Named returns a fresh variable defined to be equal to d.
func (s *Store) Named(name string, d *T) *T {
	if d.kind == kConst || d.kind == kVar || d.kind == kApp {
		return d
	}
	return s.intern(fmt.Sprintf("n%d", d.id), func() *T {
		return &T{kind: kVar, name: fmt.Sprintf("%s_d%d", name, d.id), def: d, fp: d.fp, depth: 0}
	})
}

func termsKey(ts []*T) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%d,", t.id)
	}
	return b.String()
}

func (s *Store) App(name string, args []*T) *T {
	k := "a" + name + "(" + termsKey(args) + ")"
	if t, ok := s.ft[k]; ok {
		return t
	}
	if s.onApp != nil {
		if t := s.onApp(name, args); t != nil {
			s.ft[k] = t
			return t
		}
	}
	return s.intern(k, func() *T {
		t := &T{kind: kApp, name: name, args: append([]*T(nil), args...)}
		for i := range t.fp {
			vals := make([]fr.Element, len(args))
			for j, a := range args {
				vals[j] = a.fp[i]
			}
			t.fp[i] = s.hashEval(name, vals)
		}
		fk := name + fpKey(args)
		s.apps[fk] = append(s.apps[fk], t)
		return t
	})
}

func fpKey(args []*T) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d:", len(args))
	for _, a := range args {
		for i := range a.fp {
			b.WriteString(feKey(&a.fp[i]))
		}
	}
	return b.String()
}

// linear view of a term: c + sum coef*mono ; monos sorted by id
type lin struct {
	c     fr.Element
	monos []*T
	coefs []fr.Element
}

func (s *Store) toLin(t *T) lin {
	switch t.kind {
	case kConst:
		return lin{c: t.c}
	case kSum:
		return lin{t.c, t.args, t.coefs}
	}
	return lin{monos: []*T{t}, coefs: []fr.Element{s.one.c}}
}

func (s *Store) fromLin(l lin) *T {
	if len(l.monos) == 0 {
		return s.Const(l.c)
	}
	if len(l.monos) == 1 && l.c.IsZero() && l.coefs[0].Equal(&s.one.c) {
		return l.monos[0]
	}
	var kb strings.Builder
	kb.WriteByte('s')
	kb.WriteString(feKey(&l.c))
	for i, m := range l.monos {
		fmt.Fprintf(&kb, "|%d*", m.id)
		kb.WriteString(feKey(&l.coefs[i]))
	}
	return s.intern(kb.String(), func() *T {
		t := &T{kind: kSum, c: l.c, args: l.monos, coefs: l.coefs}
		for k := range t.fp {
			acc := l.c
			for i, m := range l.monos {
				var x fr.Element
				x.Mul(&m.fp[k], &l.coefs[i])
				acc.Add(&acc, &x)
			}
			t.fp[k] = acc
		}
		for _, m := range l.monos {
			if m.depth >= t.depth {
				t.depth = m.depth + 1
			}
		}
		return t
	})
}

func mergeLin(a, b lin, cb *fr.Element) lin {
	var r lin
	var x fr.Element
	x.Mul(&b.c, cb)
	r.c.Add(&a.c, &x)
	r.monos = make([]*T, 0, len(a.monos)+len(b.monos))
	r.coefs = make([]fr.Element, 0, len(a.monos)+len(b.monos))
	i, j := 0, 0
	for i < len(a.monos) || j < len(b.monos) {
		switch {
		case j == len(b.monos) || (i < len(a.monos) && a.monos[i].id < b.monos[j].id):
			r.monos = append(r.monos, a.monos[i])
			r.coefs = append(r.coefs, a.coefs[i])
			i++
		case i == len(a.monos) || b.monos[j].id < a.monos[i].id:
			x.Mul(&b.coefs[j], cb)
			r.monos = append(r.monos, b.monos[j])
			r.coefs = append(r.coefs, x)
			j++
		default:
			x.Mul(&b.coefs[j], cb)
			x.Add(&x, &a.coefs[i])
			if !x.IsZero() {
				r.monos = append(r.monos, a.monos[i])
				r.coefs = append(r.coefs, x)
			}
			i++
			j++
		}
	}
	return r
}

func (s *Store) Add(a, b *T) *T {
	if a.kind == kConst && a.c.IsZero() {
		return b
	}
	if b.kind == kConst && b.c.IsZero() {
		return a
	}
	r := s.fromLin(mergeLin(s.toLin(a), s.toLin(b), &s.one.c))
	s.linLemma(a, b, &s.one.c, r)
	for k := range r.fp {
		var x fr.Element
		x.Add(&a.fp[k], &b.fp[k])
		s.selfCheck(x.Equal(&r.fp[k]))
	}
	return r
}

// selfCheck guards the normal form: at random points, the normalised result of an operation has the value of
// the operation (Schwartz-Zippel).
func (s *Store) selfCheck(ok bool) {
	if !ok {
		panic(unsupported{"internal error: the normal form changed a value"})
	}
}

func (s *Store) Sub(a, b *T) *T {
	var m fr.Element
	m.Neg(&s.one.c)
	r := s.fromLin(mergeLin(s.toLin(a), s.toLin(b), &m))
	s.linLemma(a, b, &m, r)
	return r
}

func (s *Store) Neg(a *T) *T { return s.Sub(s.zero, a) }

func (s *Store) Scale(a *T, k *fr.Element) *T {
	if k.IsZero() {
		return s.zero
	}
	r := s.fromLin(mergeLin(lin{}, s.toLin(a), k))
	if a.kind != kConst && !k.Equal(&s.one.c) {
		s.scaleLemma(a, k, r)
	}
	return r
}

// AddMany sums many terms at once.
func (s *Store) AddMany(ts []*T) *T {
	acc := lin{}
	for _, t := range ts {
		acc = mergeLin(acc, s.toLin(t), &s.one.c)
	}
	r := s.fromLin(acc)
	s.sumLemma(ts, r)
	return r
}

// monic splits t = k * u with u having leading coefficient one (or t itself).
func (s *Store) monic(t *T) (fr.Element, *T) {
	if t.kind != kSum {
		return s.one.c, t
	}
	lead := t.coefs[0]
	if lead.Equal(&s.one.c) {
		return lead, t
	}
	var inv fr.Element
	inv.Inverse(&lead)
	return lead, s.Scale(t, &inv)
}

func (s *Store) Mul(a, b *T) *T {
	if a.kind == kConst {
		return s.Scale(b, &a.c)
	}
	if b.kind == kConst {
		return s.Scale(a, &b.c)
	}
	if r := s.mulIteSimplify(a, b); r != nil {
		return r
	}
	if r := s.mulIteSimplify(b, a); r != nil {
		return r
	}
	ka, ua := s.monic(a)
	kb, ub := s.monic(b)
	var k fr.Element
	k.Mul(&ka, &kb)
	m := s.mono(ua, ub)
	r := s.Scale(m, &k)
	s.mulLemma(ka, ua, kb, ub, r)
	for k := range r.fp {
		var x fr.Element
		x.Mul(&a.fp[k], &b.fp[k])
		s.selfCheck(x.Equal(&r.fp[k]))
	}
	return r
}

type fexp struct {
	f *T
	e uint64
}

func (s *Store) mono(a, b *T) *T {
	// single-monomial sums (coef*mono with coef 1 are not sums), so a,b are factors or monos
	fs := map[*T]uint64{}
	var order []*T
	add := func(t *T) {
		if t.kind == kMono {
			for i, f := range t.args {
				if _, ok := fs[f]; !ok {
					order = append(order, f)
				}
				fs[f] += t.exps[i]
			}
			return
		}
		if t.kind == kSum && len(t.args) == 1 && t.c.IsZero() { // monic single monomial
			t = t.args[0]
			if t.kind == kMono {
				for i, f := range t.args {
					if _, ok := fs[f]; !ok {
						order = append(order, f)
					}
					fs[f] += t.exps[i]
				}
				return
			}
		}
		if _, ok := fs[t]; !ok {
			order = append(order, t)
		}
		fs[t]++
	}
	add(a)
	add(b)
	var l []fexp
	for _, f := range order {
		l = append(l, fexp{f, fs[f]})
	}
	return s.fromFactors(l)
}

func (s *Store) fromFactors(l []fexp) *T {
	sort.Slice(l, func(i, j int) bool { return l[i].f.id < l[j].f.id })
	if len(l) == 1 && l[0].e == 1 {
		return l[0].f
	}
	var kb strings.Builder
	kb.WriteByte('m')
	for _, x := range l {
		fmt.Fprintf(&kb, "|%d^%d", x.f.id, x.e)
	}
	return s.intern(kb.String(), func() *T {
		t := &T{kind: kMono}
		for _, x := range l {
			t.args = append(t.args, x.f)
			t.exps = append(t.exps, x.e)
			if x.f.depth >= t.depth {
				t.depth = x.f.depth + 1
			}
		}
		for k := range t.fp {
			acc := s.one.c
			for _, x := range l {
				p := powFe(x.f.fp[k], x.e)
				acc.Mul(&acc, &p)
			}
			t.fp[k] = acc
		}
		return t
	})
}

func powFe(x fr.Element, e uint64) fr.Element {
	var r fr.Element
	r.SetOne()
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r.Mul(&r, &x)
		}
		x.Square(&x)
	}
	return r
}

func (s *Store) Pow(a *T, e uint64) *T {
	if e == 0 {
		return s.one
	}
	r := a
	for i := uint64(1); i < e; i++ {
		r = s.Mul(r, a)
	}
	return r
}

// Inv is the field inverse with Inv(0)=0.
func (s *Store) Inv(a *T) *T {
	if a.kind == kConst {
		var e fr.Element
		e.Inverse(&a.c)
		return s.Const(e)
	}
	return s.intern(fmt.Sprintf("i%d", a.id), func() *T {
		t := &T{kind: kInv, args: []*T{a}, depth: a.depth + 1}
		for k := range t.fp {
			t.fp[k].Inverse(&a.fp[k])
		}
		return t
	})
}

func (s *Store) Ite(c *B, a, b *T) *T {
	if c.kind == bConst {
		if c.val {
			return a
		}
		return b
	}
	if c.kind == bNot {
		c, a, b = c.args[0], b, a
	}
	a = s.assumeIn(a, c, true, 3)
	b = s.assumeIn(b, c, false, 3)
	if a == b {
		return a
	}
	return s.intern(fmt.Sprintf("?%d,%d,%d", c.id, a.id, b.id), func() *T {
		t := &T{kind: kIte, cond: c, args: []*T{a, b}}
		for k := range t.fp {
			if c.fp[k] {
				t.fp[k] = a.fp[k]
			} else {
				t.fp[k] = b.fp[k]
			}
		}
		t.depth = max(a.depth, b.depth) + 1
		return t
	})
}

// assumeIn replaces ite(c,..) sub-terms of t (looking through sums and products) given the value of c.
func (s *Store) assumeIn(t *T, c *B, val bool, depth int) *T {
	if depth < 0 {
		return t
	}
	switch t.kind {
	case kIte:
		if t.cond == c {
			if val {
				return t.args[0]
			}
			return t.args[1]
		}
	case kSum:
		hit := false
		for _, m := range t.args {
			if m.kind == kIte && m.cond == c {
				hit = true
			}
		}
		if !hit {
			return t
		}
		acc := s.Const(t.c)
		for i, m := range t.args {
			acc = s.Add(acc, s.Scale(s.assumeIn(m, c, val, depth-1), &t.coefs[i]))
		}
		return acc
	}
	return t
}

// mulIteSimplify: if a contains ite(c,x,y) summands and c (resp. not c) implies b=0, the ite can be
// replaced in the product by the other branch. The implication is decided by the solver.
func (s *Store) mulIteSimplify(a, b *T) *T {
	pick := func(it *T) (*T, bool) {
		if s.impliesZero(it.cond, true, b) {
			return it.args[1], true
		}
		if s.impliesZero(it.cond, false, b) {
			return it.args[0], true
		}
		return nil, false
	}
	switch a.kind {
	case kIte:
		if r, ok := pick(a); ok {
			return s.Mul(r, b)
		}
	case kSum:
		for i, m := range a.args {
			if m.kind == kIte {
				if r, ok := pick(m); ok {
					d := s.Sub(a, s.Scale(m, &a.coefs[i]))
					d = s.Add(d, s.Scale(r, &a.coefs[i]))
					return s.Mul(d, b)
				}
			}
		}
	}
	return nil
}

// zerosOf lists terms that vanish when c has the given value.
func zerosOf(c *B, val bool) []*T {
	switch c.kind {
	case bFEq:
		if val {
			return []*T{c.t}
		}
	case bNot:
		return zerosOf(c.args[0], !val)
	case bAnd, bOr:
		if (c.kind == bAnd) == val {
			var r []*T
			for _, a := range c.args {
				r = append(r, zerosOf(a, val)...)
			}
			return r
		}
	}
	return nil
}

// impliesZero: c having the given value forces t = 0, because t is a linear combination of terms that
// vanish then. The coefficients are guessed from the fingerprints, the identity is checked symbolically.
func (s *Store) impliesZero(c *B, val bool, t *T) bool {
	key := [3]int{c.id, t.id, 0}
	if val {
		key[2] = 1
	}
	if r, ok := s.mulIte[key]; ok {
		return r
	}
	r := s.impliesZero1(c, val, t)
	s.mulIte[key] = r
	return r
}

func (s *Store) impliesZero1(c *B, val bool, t *T) bool {
	us := zerosOf(c, val)
	if len(us) == 0 {
		return false
	}
	if t.kind == kMono {
		for _, f := range t.args {
			if s.impliesZero(c, val, f) {
				return true
			}
		}
	}
	n := len(us)
	if n >= nFP {
		return false
	}
	// solve sum a_i us_i = t at n points by elimination
	var mat [nFP][nFP + 1]fr.Element
	for k := 0; k < nFP; k++ {
		for i := range us {
			mat[k][i] = us[i].fp[k]
		}
		mat[k][n] = t.fp[k]
	}
	row := 0
	piv := make([]int, n)
	for i := 0; i < n; i++ {
		piv[i] = -1
		p := -1
		for k := row; k < nFP; k++ {
			if !mat[k][i].IsZero() {
				p = k
				break
			}
		}
		if p < 0 {
			continue
		}
		mat[row], mat[p] = mat[p], mat[row]
		var inv fr.Element
		inv.Inverse(&mat[row][i])
		for j := i; j <= n; j++ {
			mat[row][j].Mul(&mat[row][j], &inv)
		}
		for k := 0; k < nFP; k++ {
			if k == row || mat[k][i].IsZero() {
				continue
			}
			f := mat[k][i]
			for j := i; j <= n; j++ {
				var x fr.Element
				x.Mul(&f, &mat[row][j])
				mat[k][j].Sub(&mat[k][j], &x)
			}
		}
		piv[i] = row
		row++
	}
	for k := row; k < nFP; k++ {
		if !mat[k][n].IsZero() {
			return false
		}
	}
	d := t
	for i := range us {
		if piv[i] >= 0 {
			d = s.Sub(d, s.Scale(us[i], &mat[piv[i]][n]))
		}
	}
	e := s.FZero(d)
	if e.kind == bConst {
		return e.val
	}
	return s.solver != nil && s.proveFree(s.solver, e, 2*time.Second) == Unsat
}

// ---------- booleans

func (s *Store) BVar(name string) *B {
	return s.internB("v"+name, func() *B {
		b := &B{kind: bVar, name: name}
		for i := range b.fp {
			b.fp[i] = h64(name, fmt.Sprint(i), fmt.Sprint(s.seed))%2 == 0
		}
		s.bvars = append(s.bvars, b)
		return b
	})
}

func (s *Store) Bool(v bool) *B {
	if v {
		return s.tru
	}
	return s.fls
}

// FEq is a == b.
func (s *Store) FEq(a, b *T) *B {
	d := s.Sub(a, b)
	return s.FZero(d)
}

func (s *Store) FZero(d *T) *B {
	if d.kind == kConst {
		return s.Bool(d.c.IsZero())
	}
	_, d = s.monic(d)
	if d.kind == kMono { // product is zero iff some factor is
		var bs []*B
		for _, f := range d.args {
			bs = append(bs, s.FZero(f))
		}
		return s.Or(bs...)
	}
	if d.kind == kSum && len(d.args) == 1 && d.c.IsZero() {
		return s.FZero(d.args[0])
	}
	return s.internB(fmt.Sprintf("z%d", d.id), func() *B {
		b := &B{kind: bFEq, t: d}
		for k := range b.fp {
			b.fp[k] = d.fp[k].IsZero()
		}
		return b
	})
}

func (s *Store) Not(a *B) *B {
	switch a.kind {
	case bConst:
		return s.Bool(!a.val)
	case bNot:
		return a.args[0]
	}
	return s.internB(fmt.Sprintf("!%d", a.id), func() *B {
		b := &B{kind: bNot, args: []*B{a}}
		for k := range b.fp {
			b.fp[k] = !a.fp[k]
		}
		return b
	})
}

func (s *Store) And(bs ...*B) *B { return s.nary(bAnd, bs) }
func (s *Store) Or(bs ...*B) *B  { return s.nary(bOr, bs) }

func (s *Store) nary(k bkind, bs []*B) *B {
	neutral := k == bAnd
	seen := map[*B]bool{}
	var l []*B
	var rec func(bs []*B) bool
	rec = func(bs []*B) bool {
		for _, b := range bs {
			if b.kind == bConst {
				if b.val != neutral {
					return false
				}
				continue
			}
			if b.kind == k {
				if !rec(b.args) {
					return false
				}
				continue
			}
			if seen[b] {
				continue
			}
			if seen[s.Not(b)] {
				return false
			}
			seen[b] = true
			l = append(l, b)
		}
		return true
	}
	if !rec(bs) {
		return s.Bool(!neutral)
	}
	if len(l) == 0 {
		return s.Bool(neutral)
	}
	if len(l) == 1 {
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	var kb strings.Builder
	fmt.Fprintf(&kb, "%d&", k)
	for _, b := range l {
		fmt.Fprintf(&kb, "%d,", b.id)
	}
	return s.internB(kb.String(), func() *B {
		b := &B{kind: k, args: l}
		for i := range b.fp {
			v := neutral
			for _, a := range l {
				if neutral {
					v = v && a.fp[i]
				} else {
					v = v || a.fp[i]
				}
			}
			b.fp[i] = v
		}
		return b
	})
}

func (s *Store) BIte(c, a, b *B) *B {
	if c.kind == bConst {
		if c.val {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	return s.Or(s.And(c, a), s.And(s.Not(c), b))
}

// ---------- bit-vectors

func maskW(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	sh := uint(64 - w)
	return int64(u<<sh) >> sh
}

func (s *Store) internV(k string, mk func() *V) *V {
	if v, ok := s.vt[k]; ok {
		return v
	}
	v := mk()
	s.nid++
	v.id = s.nid
	s.vt[k] = v
	return v
}

func (s *Store) VConst(u uint64, w int) *V {
	u &= maskW(w)
	return s.internV(fmt.Sprintf("c%d:%d", u, w), func() *V {
		v := &V{op: "const", u: u, w: w}
		for k := range v.fp {
			v.fp[k] = u
		}
		return v
	})
}

func (s *Store) VVar(name string, w int, lo, hi int64) *V {
	return s.internV("v"+name, func() *V {
		v := &V{op: "var", name: name, w: w}
		rng := uint64(hi-lo) + 1
		for k := range v.fp {
			r := h64(name, fmt.Sprint(k), fmt.Sprint(s.seed))
			if rng != 0 {
				r %= rng
			}
			if k == 3 {
				r = 0
			}
			v.fp[k] = uint64(lo+int64(r)) & maskW(w)
		}
		s.vvars = append(s.vvars, v)
		return v
	})
}

// Limb is one of the four words of a field element (of its Montgomery form): an uninterpreted function of the element
// to the solver, with its real value wherever the element has one.
func (s *Store) Limb(t *T, i int) *V {
	if t.kind == kConst {
		return s.VConst(t.c[i], 64)
	}
	return s.internV(fmt.Sprintf("limb%d:%d", i, t.id), func() *V {
		v := &V{op: "limb", w: 64, t: t, li: i}
		for k := range v.fp {
			v.fp[k] = t.fp[k][i]
		}
		return v
	})
}

func evalBV(op string, w int, a, b uint64) uint64 {
	m := maskW(w)
	sa, sb := sext(a, w), sext(b, w)
	switch op {
	case "bvadd":
		return (a + b) & m
	case "bvsub":
		return (a - b) & m
	case "bvmul":
		return (a * b) & m
	case "bvand":
		return a & b
	case "bvor":
		return a | b
	case "bvxor":
		return a ^ b
	case "bvsdiv":
		if sb == 0 {
			if sa >= 0 {
				return m
			}
			return 1
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case "bvsrem":
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case "bvudiv":
		if b == 0 {
			return m
		}
		return a / b
	case "bvurem":
		if b == 0 {
			return a
		}
		return a % b
	case "bvshl":
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case "bvlshr":
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case "bvashr":
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sa>>b) & m
	}
	panic("evalBV " + op)
}

func (s *Store) VOp(op string, a, b *V) *V {
	if a.op == "const" && b.op == "const" {
		return s.VConst(evalBV(op, a.w, a.u, b.u), a.w)
	}
	return s.internV(fmt.Sprintf("%s %d %d", op, a.id, b.id), func() *V {
		v := &V{op: op, w: a.w, args: []*V{a, b}}
		for k := range v.fp {
			v.fp[k] = evalBV(op, a.w, a.fp[k], b.fp[k])
		}
		return v
	})
}

func (s *Store) VIte(c *B, a, b *V) *V {
	if c.kind == bConst {
		if c.val {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	return s.internV(fmt.Sprintf("ite %d %d %d", c.id, a.id, b.id), func() *V {
		v := &V{op: "ite", w: a.w, args: []*V{a, b}, cond: c}
		for k := range v.fp {
			if c.fp[k] {
				v.fp[k] = a.fp[k]
			} else {
				v.fp[k] = b.fp[k]
			}
		}
		return v
	})
}

// VConv truncates or extends.
func (s *Store) VConv(a *V, w int, signed bool) *V {
	if a.w == w {
		return a
	}
	if a.op == "const" {
		if signed {
			return s.VConst(uint64(sext(a.u, a.w)), w)
		}
		return s.VConst(a.u, w)
	}
	op := "trunc"
	if w > a.w {
		op = "zext"
		if signed {
			op = "sext"
		}
	}
	return s.internV(fmt.Sprintf("%s%d %d", op, w, a.id), func() *V {
		v := &V{op: op, w: w, args: []*V{a}}
		for k := range v.fp {
			u := a.fp[k]
			if op == "sext" {
				u = uint64(sext(u, a.w))
			}
			v.fp[k] = u & maskW(w)
		}
		return v
	})
}

func evalCmp(op string, w int, a, b uint64) bool {
	sa, sb := sext(a, w), sext(b, w)
	switch op {
	case "=":
		return a == b
	case "bvslt":
		return sa < sb
	case "bvsle":
		return sa <= sb
	case "bvult":
		return a < b
	case "bvule":
		return a <= b
	}
	panic("evalCmp " + op)
}

func (s *Store) VCmp(op string, a, b *V) *B {
	if a.op == "const" && b.op == "const" {
		return s.Bool(evalCmp(op, a.w, a.u, b.u))
	}
	if a == b {
		return s.Bool(op == "=" || op == "bvsle" || op == "bvule")
	}
	return s.internB(fmt.Sprintf("bv%s %d %d", op, a.id, b.id), func() *B {
		x := &B{kind: bBV, op: op, x: a, y: b}
		for k := range x.fp {
			x.fp[k] = evalCmp(op, a.w, a.fp[k], b.fp[k])
		}
		return x
	})
}

// ---------- evaluation under an arbitrary assignment

// Asg is a concrete assignment.
type Asg struct {
	F map[string]fr.Element
	B map[string]bool
	V map[string]uint64
}

type evaluator struct {
	s  *Store
	a  *Asg
	ft map[*T]fr.Element
	bt map[*B]bool
	vt map[*V]uint64
	// probing: variables and applications are random, named cuts deeper than lvl are free
	free bool
	lvl  int
	seed string
	cut  map[*T]bool
	sd   uint64
}

// quickFe is a cheap pseudo-random element.
func quickFe(a, b uint64) fr.Element {
	var e fr.Element
	x := a*0x9E3779B97F4A7C15 + b*0xD1B54A32D192ED03 + 0x2545F4914F6CDD1D
	for i := range e {
		x ^= x >> 30
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 27
		x *= 0x94D049BB133111EB
		x ^= x >> 31
		e[i] = x
		x += 0x9E3779B97F4A7C15
	}
	e[3] &= 1<<60 - 1 // below the modulus
	return e
}

func (s *Store) newEval(a *Asg) *evaluator {
	return &evaluator{s: s, a: a, ft: map[*T]fr.Element{}, bt: map[*B]bool{}, vt: map[*V]uint64{}}
}

func (e *evaluator) term(t *T) fr.Element {
	if t.kind == kConst {
		return t.c
	}
	if r, ok := e.ft[t]; ok {
		return r
	}
	var r fr.Element
	if e.cut != nil && (e.cut[t] || t.kind == kApp || t.kind == kVar && t.def == nil) {
		r = quickFe(uint64(t.id), e.sd)
		e.ft[t] = r
		return r
	}
	switch t.kind {
	case kVar:
		if e.free {
			if t.def == nil || e.lvl <= 0 {
				r = randFe(e.seed, t.name)
			} else {
				e.lvl--
				r = e.term(t.def)
				e.lvl++
			}
		} else if t.def != nil {
			r = e.term(t.def)
		} else {
			r = e.a.F[t.name]
		}
	case kApp:
		if e.free {
			r = randFe(e.seed, fmt.Sprintf("app%d", t.id))
			break
		}
		vs := make([]fr.Element, len(t.args))
		for i, a := range t.args {
			vs[i] = e.term(a)
		}
		r = e.s.hashEval(t.name, vs)
	case kIte:
		if e.bool(t.cond) {
			r = e.term(t.args[0])
		} else {
			r = e.term(t.args[1])
		}
	case kInv:
		x := e.term(t.args[0])
		r.Inverse(&x)
	case kSum:
		r = t.c
		for i, m := range t.args {
			x := e.term(m)
			x.Mul(&x, &t.coefs[i])
			r.Add(&r, &x)
		}
	case kMono:
		r = e.s.one.c
		for i, f := range t.args {
			x := powFe(e.term(f), t.exps[i])
			r.Mul(&r, &x)
		}
	}
	e.ft[t] = r
	return r
}

func (e *evaluator) bool(b *B) bool {
	if b.kind == bConst {
		return b.val
	}
	if r, ok := e.bt[b]; ok {
		return r
	}
	var r bool
	switch b.kind {
	case bVar:
		r = e.a.B[b.name]
	case bFEq:
		x := e.term(b.t)
		r = x.IsZero()
	case bNot:
		r = !e.bool(b.args[0])
	case bAnd:
		r = true
		for _, a := range b.args {
			if !e.bool(a) {
				r = false
				break
			}
		}
	case bOr:
		for _, a := range b.args {
			if e.bool(a) {
				r = true
				break
			}
		}
	case bBV:
		r = evalCmp(b.op, b.x.w, e.bv(b.x), e.bv(b.y))
	}
	e.bt[b] = r
	return r
}

func (e *evaluator) bv(v *V) uint64 {
	if v.op == "const" {
		return v.u
	}
	if r, ok := e.vt[v]; ok {
		return r
	}
	var r uint64
	switch v.op {
	case "var":
		r = e.a.V[v.name] & maskW(v.w)
	case "limb":
		x := e.term(v.t)
		r = x[v.li]
	case "ite":
		if e.bool(v.cond) {
			r = e.bv(v.args[0])
		} else {
			r = e.bv(v.args[1])
		}
	case "trunc", "zext":
		r = e.bv(v.args[0]) & maskW(v.w)
	case "sext":
		r = uint64(sext(e.bv(v.args[0]), v.args[0].w)) & maskW(v.w)
	default:
		r = evalBV(v.op, v.w, e.bv(v.args[0]), e.bv(v.args[1]))
	}
	e.vt[v] = r
	return r
}

func (t *T) String() string { return t.str(4) }

func (t *T) str(d int) string {
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	switch t.kind {
	case kConst:
		var n fr.Element
		n.Neg(&t.c)
		a, b := feStr(&t.c), feStr(&n)
		if len(b) < len(a) {
			return "-" + b
		}
		return a
	case kVar:
		return t.name
	case kApp:
		var l []string
		for _, a := range t.args {
			l = append(l, a.str(d-1))
		}
		return t.name + "(" + strings.Join(l, ",") + ")"
	case kIte:
		return "ite(" + t.cond.str(d-1) + "," + t.args[0].str(d-1) + "," + t.args[1].str(d-1) + ")"
	case kInv:
		return "inv(" + t.args[0].str(d-1) + ")"
	case kSum:
		var l []string
		if !t.c.IsZero() {
			l = append(l, (&T{kind: kConst, c: t.c}).str(1))
		}
		for i, m := range t.args {
			one := new(fr.Element).SetOne()
			if t.coefs[i].Equal(one) {
				l = append(l, m.str(d-1))
			} else {
				l = append(l, (&T{kind: kConst, c: t.coefs[i]}).str(1)+"*"+m.str(d-1))
			}
		}
		return "(" + strings.Join(l, " + ") + ")"
	case kMono:
		var l []string
		for i, f := range t.args {
			x := f.str(d - 1)
			if t.exps[i] > 1 {
				x += fmt.Sprintf("^%d", t.exps[i])
			}
			l = append(l, x)
		}
		return strings.Join(l, "*")
	}
	return "?"
}

func (b *B) String() string { return b.str(4) }
func (b *B) str(d int) string {
	if d <= 0 {
		return fmt.Sprintf("b#%d", b.id)
	}
	switch b.kind {
	case bConst:
		return fmt.Sprint(b.val)
	case bVar:
		return b.name
	case bFEq:
		return "(" + b.t.str(d-1) + " == 0)"
	case bNot:
		return "!" + b.args[0].str(d-1)
	case bAnd, bOr:
		var l []string
		for _, a := range b.args {
			l = append(l, a.str(d-1))
		}
		sep := " && "
		if b.kind == bOr {
			sep = " || "
		}
		return "(" + strings.Join(l, sep) + ")"
	case bBV:
		return fmt.Sprintf("(%s v%d v%d)", b.op, b.x.id, b.y.id)
	}
	return "?"
}

// feStr is Element.String without gurvy's pool of big integers: all objects
// of that pool share one backing array, so String is not safe to call from
// several goroutines.
func feStr(e *fr.Element) string {
	c := *e
	var b big.Int
	return c.ToBigIntRegular(&b).String()
}
