package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Program is the loaded SSA program, shared by all machines.
type Program struct {
	prog  *ssa.Program
	mu    sync.Mutex
	infos map[*ssa.Function]*fnInfo
	built map[*ssa.Package]bool
	sys   *systems
}

// Machine executes harnesses symbolically along one path at a time.
type Machine struct {
	p      *Program
	st     *Store
	solver *Solver
	cfg    *RunCfg
	script []int // scheduling and choice decisions of a concrete re-execution
	cmps   []*T  // operands of the comparisons made by the harness on this path
	cmpBad bool

	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]bool

	// path state
	pc      []*B
	pcSet   map[*B]bool
	prefix  []int
	trace   []decision
	picks   map[string]uint64 // values chosen by the solver for symbolic sizes
	steps   int64
	spec    []*journal // active speculation journals
	noSpecN int
	sideTab map[*value]interface{} // WaitGroup, Mutex, Once state by address
	chans   int

	gors    []*Gor
	runq    []*Gor
	cur     *Gor
	gid     int
	pathEnd chan pathResult
	dead    bool

	log       *evLog
	guide     *guide           // guided execution of one interleaving
	way       []map[string]int // cuts every execution is steered through
	deviate   int              // scheduling deviations still allowed
	funcs     map[*ssa.Function]int64
	obligs    []*Oblig
	reached   map[string]bool
	inputs    map[string]bool // named inputs created on this path
	choices   map[string]int64
	hashFn    *ssa.Function
	found     func(string)
	deadline  time.Time
	stop      *atomic.Bool
	stubHash  bool
	satMemo   map[string]*B
	knownMemo map[string]bool
	known     map[*T]*T // last product of an expanded hash, in terms of the hash
	implMemo  map[[2]int][2]bool
	validMem  map[int]Verdict
	stats     *Stats
	wits      []*witness
	witVars   int
	lastPanic string
	rnd       int
	killAck   chan struct{}
	draining  bool
	inInit    bool
	schedPts  int
	violNow   bool
	spawnSt   map[*Gor]string
}

// Stats are measured on this run.
type Stats struct {
	Paths      int
	Steps      int64
	Merges     int
	Forks      int
	Obligs     int
	Discharged int
	Normal     int // closed because both sides have the same normal form
	UnknownOb  int
	Sweeps     int
	Reached    map[string]int
	Labels     map[string]int
	SchedForks int
	MaxSched   int
	MergeFail  map[string]int
}

type decision struct {
	n, pick int
	kind    string
}

type journal struct {
	addr []*value
	old  []value
}

type pathResult struct {
	err  interface{}
	gor  *Gor
	leak string
}

type duration = time.Duration

type fnInfo struct {
	fn     *ssa.Function
	idx    map[ssa.Value]int
	n      int
	blocks []*cblock
	ipdom  []int // immediate post-dominator of each block (-1: exit)
}

type cblock struct {
	b     *ssa.BasicBlock
	phis  []*cphi
	ops   []func(m *Machine, fr *frame)
	instr []ssa.Instruction
	term  func(m *Machine, fr *frame) int // next block, -1 return
	isIf  bool
	cond  opnd
}

type cphi struct {
	dst   int
	edges []opnd
}

type opnd struct {
	idx int // >=0: env slot
	k   func(m *Machine) value
	c   value
}

type frame struct {
	g         *Gor
	caller    *frame
	fi        *fnInfo
	env       []value
	block     int
	prev      int
	defers    []deferred
	result    value
	panicking *targetPanic
	recovered bool
	phiVals   []value
	mergeAt   []*ssa.BasicBlock // branches whose sides are being executed for merging
}

type deferred struct {
	fn   value
	args []value
}

func (o *opnd) get(m *Machine, fr *frame) value {
	if o.idx >= 0 {
		return fr.env[o.idx]
	}
	if o.k != nil {
		return o.k(m)
	}
	return o.c
}

func (p *Program) info(m *Machine, fn *ssa.Function) *fnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi, ok := p.infos[fn]; ok {
		return fi
	}
	if fn.Blocks == nil && fn.Pkg != nil && !p.built[fn.Pkg] {
		fn.Pkg.Build()
		p.built[fn.Pkg] = true
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}}
	p.infos[fn] = fi
	if fn.Blocks == nil {
		return fi
	}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.ipdom = postDoms(fn)
	for _, b := range fn.Blocks {
		fi.blocks = append(fi.blocks, compileBlock(fi, b))
	}
	return fi
}

// postDoms computes immediate post-dominators with a virtual exit (-1).
func postDoms(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	full := make([]map[int]bool, n)
	all := map[int]bool{}
	for i := 0; i < n; i++ {
		all[i] = true
	}
	for i := range full {
		if len(fn.Blocks[i].Succs) == 0 {
			full[i] = map[int]bool{i: true}
		} else {
			full[i] = map[int]bool{}
			for k := range all {
				full[i][k] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			nw := map[int]bool{}
			for k := range full[b.Succs[0].Index] {
				ok := true
				for _, s := range b.Succs[1:] {
					if !full[s.Index][k] {
						ok = false
						break
					}
				}
				if ok {
					nw[k] = true
				}
			}
			nw[i] = true
			if len(nw) != len(full[i]) {
				full[i] = nw
				ch = true
			}
		}
	}
	res := make([]int, n)
	for i := range res {
		res[i] = -1
		// the strict post-dominator that is post-dominated by all the others
		for k := range full[i] {
			if k == i {
				continue
			}
			ok := true
			for j := range full[i] {
				if j != i && j != k && !full[k][j] {
					ok = false
					break
				}
			}
			if ok {
				res[i] = k
			}
		}
	}
	return res
}

func constVal(m *Machine, c *ssa.Const) value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		unsup("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		if b.Info()&types.IsUnsigned != 0 {
			return int64(c.Uint64())
		}
		return c.Int64()
	case b.Info()&types.IsFloat != 0:
		return c.Float64()
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	return unsup("constant %s", c)
}

func (fi *fnInfo) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{idx: -1}
	case *ssa.Function:
		return opnd{idx: -1, c: v}
	case *ssa.Builtin:
		return opnd{idx: -1, c: v}
	case *ssa.Const:
		if v.Value != nil {
			if b, ok := under(v.Type()).(*types.Basic); ok {
				_ = b
				return opnd{idx: -1, c: constVal(nil, v)}
			}
		}
		return opnd{idx: -1, k: func(m *Machine) value { return constVal(m, v) }}
	case *ssa.Global:
		return opnd{idx: -1, k: func(m *Machine) value { return m.global(v) }}
	}
	i, ok := fi.idx[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s in %s", v.Name(), fi.fn))
	}
	return opnd{idx: i}
}

func (m *Machine) global(g *ssa.Global) *value {
	if a, ok := m.globals[g]; ok {
		return a
	}
	cell := m.zero(deref(g.Type()))
	a := &cell
	m.globals[g] = a
	if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), "gkr-mimc") {
		m.lazyInit(g.Pkg)
	}
	return a
}

var initAllowed = map[string]bool{"errors": true, "strconv": true, "strings": true, "sort": true, "math": true,
	"math/bits": true, "unicode": true, "unicode/utf8": true, "bytes": true, "slices": true, "cmp": true, "maps": true, "iter": true}

func (m *Machine) lazyInit(p *ssa.Package) {
	if m.inited[p] {
		return
	}
	m.inited[p] = true
	if !initAllowed[p.Pkg.Path()] {
		return
	}
	m.runInit(p)
}

func (m *Machine) runInit(p *ssa.Package) {
	f := p.Func("init")
	if f == nil {
		return
	}
	m.call(m.cur, nil, f, nil)
}

func (m *Machine) noSpec(what string) {
	if len(m.spec) > 0 {
		panic(specFail{what})
	}
}

type specFail struct{ why string }

func (m *Machine) write(addr *value, v value) {
	if n := len(m.spec); n > 0 {
		j := m.spec[n-1]
		j.addr = append(j.addr, addr)
		j.old = append(j.old, *addr)
	}
	*addr = v
}

func (m *Machine) store(g *Gor, addr *value, v value) {
	if addr == nil {
		rtPanic("invalid memory address or nil pointer dereference")
	}
	if m.log != nil {
		m.log.access(g, addr, true)
	}
	switch v := v.(type) {
	case structure:
		if dst, ok := (*addr).(structure); ok && len(dst) == len(v) {
			for i := range v {
				m.store2(&dst[i], v[i])
			}
			return
		}
	case array:
		if dst, ok := (*addr).(array); ok && len(dst) == len(v) {
			for i := range v {
				m.store2(&dst[i], v[i])
			}
			return
		}
		if _, ok := (*addr).(Fe); ok {
			m.write(addr, m.toFe(v))
			return
		}
	case Fe:
		if dst, ok := (*addr).(array); ok { // limb view active
			_ = dst
			m.write(addr, v)
			return
		}
	}
	m.write(addr, v)
}

func (m *Machine) store2(addr *value, v value) {
	switch v := v.(type) {
	case structure:
		if dst, ok := (*addr).(structure); ok {
			for i := range v {
				m.store2(&dst[i], v[i])
			}
			return
		}
	case array:
		if dst, ok := (*addr).(array); ok {
			for i := range v {
				m.store2(&dst[i], v[i])
			}
			return
		}
	}
	m.write(addr, v)
}

func (m *Machine) load(g *Gor, addr *value) value {
	if addr == nil {
		rtPanic("invalid memory address or nil pointer dereference")
	}
	if m.log != nil {
		m.log.access(g, addr, false)
	}
	v := *addr
	switch v.(type) {
	case structure, array:
		return copyVal(v)
	}
	return v
}

// ---------- calls

func (m *Machine) call(g *Gor, caller *frame, fn value, args []value) value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.callFn(g, caller, f, args, nil)
	case *closure:
		return m.callFn(g, caller, f.fn, args, f.env)
	case native:
		return f(m, g, args)
	case *ssa.Builtin:
		return m.builtin(g, caller, f, args, nil)
	}
	return unsup("call of %T", fn)
}

func (m *Machine) callFn(g *Gor, caller *frame, fn *ssa.Function, args []value, env []value) value {
	if in := lookupIntrinsic(fn); in != nil {
		if r, handled := in(m, g, fn, args); handled {
			return r
		}
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Pkg != nil && m.inInit {
		if !strings.HasPrefix(fn.Pkg.Pkg.Path(), "gkr-mimc") {
			return nil
		}
	}
	fi := m.p.info(m, fn)
	if fi.blocks == nil {
		return unsup("no body for %s", fn)
	}
	if fn.Pkg != nil && !m.inInit {
		if !strings.HasPrefix(fn.Pkg.Pkg.Path(), "gkr-mimc") {
			m.lazyInit(fn.Pkg)
		}
	}
	m.funcs[fn]++
	fr := &frame{g: g, caller: caller, fi: fi, env: make([]value, fi.n), prev: -1}
	g.depth++
	if g.depth > 2000 {
		unsup("call depth")
	}
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], env)
	if len(args) != len(fn.Params) {
		unsup("arity of %s: %d != %d", fn, len(args), len(fn.Params))
	}
	m.runFrame(fr)
	g.depth--
	return fr.result
}

func (m *Machine) runFrame(fr *frame) {
	hasDefer := false
	for _, b := range fr.fi.blocks {
		for _, in := range b.instr {
			if _, ok := in.(*ssa.Defer); ok {
				hasDefer = true
			}
		}
	}
	if !hasDefer {
		m.runBlocks(fr, -2)
		return
	}
	for {
		if m.protected(fr) {
			return
		}
		// a panic was recovered: continue at the recover block
		if fr.fi.fn.Recover == nil {
			return
		}
		fr.block = fr.fi.fn.Recover.Index
		fr.phiVals = nil
		fr.prev = -1
	}
}

// protected runs fr and its deferred calls on panic; true when it returned normally.
func (m *Machine) protected(fr *frame) (normal bool) {
	depth := fr.g.depth
	defer func() {
		if normal {
			return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		fr.g.depth = depth
		fr.panicking = &tp
		m.runDefers(fr)
		if fr.panicking != nil {
			panic(*fr.panicking)
		}
		if fr.fi.fn.Recover == nil {
			fr.result = m.zeroResult(fr.fi.fn)
		}
	}()
	m.runBlocks(fr, -2)
	return true
}

func (m *Machine) zeroResult(fn *ssa.Function) value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(r.At(0).Type())
	}
	return m.zero(r)
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, is := r.(targetPanic)
				if !is {
					panic(r)
				}
				fr.panicking = &tp
			}()
			m.call(fr.g, fr, d.fn, d.args)
			ok = true
		}()
	}
}

// runBlocks executes until return or until control reaches block stop.
func (m *Machine) runBlocks(fr *frame, stop int) {
	for {
		if fr.block == stop {
			return
		}
		cb := fr.fi.blocks[fr.block]
		for _, at := range fr.mergeAt {
			// a back edge: the registers of this block are visible at the join and would not be merged
			if cb.b == at || cb.b.Dominates(at) {
				panic(specFail{"loop in region"})
			}
		}
		if fr.phiVals != nil {
			for i, p := range cb.phis {
				fr.env[p.dst] = fr.phiVals[i]
			}
			fr.phiVals = nil
		} else if len(cb.phis) > 0 {
			m.doPhis(fr, cb)
		}
		m.steps += int64(len(cb.ops)) + 1
		for _, op := range cb.ops {
			op(m, fr)
		}
		if m.steps&0xfff < int64(len(cb.ops))+1 {
			m.tick()
		}
		if cb.isIf {
			m.doIf(fr, cb)
			continue
		}
		nb := cb.term(m, fr)
		if nb < 0 {
			if stop >= 0 {
				panic(specFail{"return in region"})
			}
			return
		}
		fr.prev, fr.block = fr.block, nb
	}
}

func (m *Machine) tick() {
	if m.steps > m.cfg.MaxSteps {
		panic(unsupported{"step budget exhausted"})
	}
	if !m.deadline.IsZero() && time.Now().After(m.deadline) || m.stopped() {
		panic(unsupported{"time budget exhausted"})
	}
}

func (m *Machine) doPhis(fr *frame, cb *cblock) {
	pi := -1
	for i, p := range cb.b.Preds {
		if p.Index == fr.prev {
			pi = i
		}
	}
	if len(cb.phis) == 1 {
		fr.env[cb.phis[0].dst] = cb.phis[0].edges[pi].get(m, fr)
		return
	}
	tmp := make([]value, len(cb.phis))
	for i, p := range cb.phis {
		tmp[i] = p.edges[pi].get(m, fr)
	}
	for i, p := range cb.phis {
		fr.env[p.dst] = tmp[i]
	}
}

func (m *Machine) doIf(fr *frame, cb *cblock) {
	c := cb.cond.get(m, fr)
	succs := cb.b.Succs
	goTo := func(v bool) {
		fr.prev = fr.block
		if v {
			fr.block = succs[0].Index
		} else {
			fr.block = succs[1].Index
		}
	}
	if v, ok := c.(bool); ok {
		goTo(v)
		return
	}
	b := c.(*B)
	if v, known := m.knownTruth(b); known {
		goTo(v)
		return
	}
	if !m.cfg.NoMerge {
		if m.tryMerge(fr, cb, b) {
			m.stats.Merges++
			return
		}
	}
	if len(m.spec) > 0 {
		panic(specFail{"fork in region"})
	}
	goTo(m.fork(b))
}

// tryMerge executes both sides of the branch up to its join point and merges the states with ite.
func (m *Machine) tryMerge(fr *frame, cb *cblock, c *B) bool {
	j := fr.fi.ipdom[fr.block]
	if j < 0 {
		return false
	}
	if len(m.spec) > 6 {
		return false
	}
	saveBlock, savePrev := fr.block, fr.prev
	saveDef := len(fr.defers)
	type side struct {
		j     *journal
		prev  int
		final map[*value]value
		phis  []value
	}
	jb := fr.fi.blocks[j]
	runSide := func(succ int, cond *B) (s side, ok bool) {
		s.j = &journal{}
		m.spec = append(m.spec, s.j)
		npc := len(m.pc)
		depth := fr.g.depth
		nlog := 0
		_ = nlog
		fr.prev = saveBlock
		fr.block = succ
		fr.mergeAt = append(fr.mergeAt, cb.b)
		steps := m.steps
		defer func() {
			r := recover()
			// roll back
			fr.mergeAt = fr.mergeAt[:len(fr.mergeAt)-1]
			m.spec = m.spec[:len(m.spec)-1]
			for _, p := range m.pc[npc:] {
				delete(m.pcSet, p)
			}
			m.pc = m.pc[:npc]
			s.final = map[*value]value{}
			for i := range s.j.addr {
				s.final[s.j.addr[i]] = *s.j.addr[i]
			}
			for i := len(s.j.addr) - 1; i >= 0; i-- {
				*s.j.addr[i] = s.j.old[i]
			}
			if r != nil {
				fr.g.depth = depth
				ok = false
				if sf, is := r.(specFail); is {
					m.stats.MergeFail[sf.why]++
					return
				}
				if _, is := r.(targetPanic); is {
					m.stats.MergeFail["panic in region"]++
					return
				}
				panic(r)
			}
		}()
		had := m.pcSet[cond]
		if !had {
			m.pc = append(m.pc, cond)
			m.pcSet[cond] = true
		}
		m.runBlocks(fr, j)
		if m.steps-steps > 2000000 {
			panic(specFail{"region too long"})
		}
		s.prev = fr.prev
		if fr.phiVals != nil {
			s.phis = append([]value{}, fr.phiVals...)
			fr.phiVals = nil
			return s, true
		}
		pi := -1
		for i, p := range jb.b.Preds {
			if p.Index == fr.prev {
				pi = i
			}
		}
		for _, p := range jb.phis {
			s.phis = append(s.phis, p.edges[pi].get(m, fr))
		}
		return s, true
	}
	restore := func() {
		fr.block, fr.prev = saveBlock, savePrev
		fr.phiVals = nil
		fr.defers = fr.defers[:saveDef]
	}
	a, ok := runSide(cb.b.Succs[0].Index, c)
	if !ok {
		restore()
		return false
	}
	b, ok := runSide(cb.b.Succs[1].Index, m.st.Not(c))
	if !ok {
		restore()
		return false
	}
	// merge memory
	type upd struct {
		addr *value
		v    value
	}
	var ups []upd
	addrs := map[*value]bool{}
	for _, l := range [][]*value{a.j.addr, b.j.addr} {
		for _, ad := range l {
			if addrs[ad] {
				continue
			}
			addrs[ad] = true
			va, vb := *ad, *ad
			if v, ok := a.final[ad]; ok {
				va = v
			}
			if v, ok := b.final[ad]; ok {
				vb = v
			}
			v, ok := m.mergeVal(c, va, vb)
			if !ok {
				m.stats.MergeFail[fmt.Sprintf("unmergeable %T/%T", va, vb)]++
				restore()
				return false
			}
			ups = append(ups, upd{ad, v})
		}
	}
	phis := make([]value, len(jb.phis))
	for i := range phis {
		v, ok := m.mergeVal(c, a.phis[i], b.phis[i])
		if !ok {
			m.stats.MergeFail[fmt.Sprintf("unmergeable phi %T/%T", a.phis[i], b.phis[i])]++
			restore()
			return false
		}
		phis[i] = v
	}
	for _, u := range ups {
		m.write(u.addr, u.v)
	}
	// continue at the join block with the merged phi values
	fr.prev = a.prev
	fr.block = j
	fr.phiVals = phis
	return true
}

func (m *Machine) mergeVal(c *B, a, b value) (value, bool) {
	switch x := a.(type) {
	case Fe:
		if y, ok := b.(Fe); ok {
			return Fe{m.st.Ite(c, x.t, y.t)}, true
		}
		return nil, false
	case bool, *B:
		switch b.(type) {
		case bool, *B:
			return m.fromB(m.st.BIte(c, m.toB(a), m.toB(b))), true
		}
		return nil, false
	case int64:
		if y, ok := b.(int64); ok {
			if x == y {
				return x, true
			}
			return nil, false
		}
		if y, ok := b.(*V); ok {
			return m.st.VIte(c, m.st.VConst(uint64(x), y.w), y), true
		}
		return nil, false
	case *V:
		switch y := b.(type) {
		case *V:
			return m.st.VIte(c, x, y), true
		case int64:
			return m.st.VIte(c, x, m.st.VConst(uint64(y), x.w)), true
		}
		return nil, false
	case string:
		y, ok := b.(string)
		return a, ok && x == y
	case float64:
		y, ok := b.(float64)
		return a, ok && x == y
	case *value:
		y, ok := b.(*value)
		return a, ok && x == y
	case *Map:
		y, ok := b.(*Map)
		return a, ok && x == y
	case *Chan:
		y, ok := b.(*Chan)
		return a, ok && x == y
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return a, ok && x == y
	case *closure:
		y, ok := b.(*closure)
		return a, ok && x == y
	case nil:
		return nil, b == nil
	case []value:
		y, ok := b.([]value)
		if !ok || len(x) != len(y) || cap(x) != cap(y) {
			return nil, false
		}
		if x == nil || y == nil {
			return a, x == nil && y == nil
		}
		if cap(x) == 0 {
			return a, true
		}
		return a, &x[:1][0] == &y[:1][0]
	case iface:
		y, ok := b.(iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return nil, false
		}
		if x.t == nil {
			return a, true
		}
		if !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := m.mergeVal(c, x.v, y.v)
		return iface{x.t, v}, ok
	case structure:
		y, ok := b.(structure)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(structure, len(x))
		for i := range x {
			v, ok := m.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case array:
		y, ok := b.(array)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(array, len(x))
		for i := range x {
			v, ok := m.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case tuple:
		y, ok := b.(tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(tuple, len(x))
		for i := range x {
			v, ok := m.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	}
	return nil, false
}

// ---------- truth of symbolic conditions

// knownTruth says whether the path condition decides b.
func (m *Machine) knownTruth(b *B) (bool, bool) {
	if b.kind == bConst {
		return b.val, true
	}
	if m.pcSet[b] {
		return true, true
	}
	if m.pcSet[m.st.Not(b)] {
		return false, true
	}
	switch b.kind {
	case bNot:
		v, k := m.knownTruth(b.args[0])
		return !v, k
	case bAnd:
		all := true
		for _, a := range b.args {
			v, k := m.knownTruth(a)
			if k && !v {
				return false, true
			}
			all = all && k && v
		}
		if all {
			return true, true
		}
	case bOr:
		all := true
		for _, a := range b.args {
			v, k := m.knownTruth(a)
			if k && v {
				return true, true
			}
			all = all && k && !v
		}
		if all {
			return false, true
		}
	}
	// does any fingerprint assignment consistent with the path condition refute it?
	act := m.activeFP()
	canT, canF := false, false
	for _, k := range act {
		if b.fp[k] {
			canT = true
		} else {
			canF = true
		}
	}
	if !canF {
		if m.valid(b) {
			return true, true
		}
	}
	if !canT {
		if m.valid(m.st.Not(b)) {
			return false, true
		}
	}
	return false, false
}

func (m *Machine) activeFP() []int {
	var r []int
	for k := 0; k < nFP; k++ {
		ok := true
		for _, p := range m.pc {
			if !p.fp[k] {
				ok = false
				break
			}
		}
		if ok {
			r = append(r, k)
		}
	}
	return r
}

// valid decides whether b holds under the path condition.
func (m *Machine) valid(b *B) bool {
	return m.prove(b, m.cfg.BranchTimeout) == Unsat
}

// fork picks a branch direction, exploring both.
func (m *Machine) fork(b *B) bool {
	if m.stopped() {
		panic(unsupported{"time budget exhausted"})
	}
	m.stats.Forks++
	pick := m.decide(2, "branch")
	v := pick == 0
	if v {
		m.assume(b)
	} else {
		m.assume(m.st.Not(b))
	}
	return v
}

// truth forces a boolean value to be concrete, forking when necessary.
func (m *Machine) truth(v value) bool {
	if c, ok := v.(bool); ok {
		return c
	}
	b := v.(*B)
	if r, known := m.knownTruth(b); known {
		return r
	}
	m.noSpec("fork")
	return m.fork(b)
}

func (m *Machine) assume(b *B) {
	if b.kind == bAnd {
		for _, a := range b.args {
			m.assume(a)
		}
		return
	}
	if b.kind == bConst {
		if !b.val {
			panic(infeasible{})
		}
		return
	}
	if m.pcSet[b] {
		return
	}
	if m.pcSet[m.st.Not(b)] {
		panic(infeasible{})
	}
	m.pc = append(m.pc, b)
	m.pcSet[b] = true
}

type infeasible struct{}

// decide returns the next choice on this path.
func (m *Machine) decide(n int, kind string) int {
	if n <= 1 {
		return 0
	}
	i := len(m.trace)
	pick := 0
	if m.cfg.Pin != nil && kind != "branch" {
		if len(m.script) > 0 {
			pick = m.script[0] % n
			m.script = m.script[1:]
		}
		return pick
	}
	if i < len(m.prefix) {
		pick = m.prefix[i]
	}
	m.trace = append(m.trace, decision{n, pick, kind})
	return pick
}

// concretize turns a symbolic integer into a concrete one, forking over its feasible values.
func (m *Machine) concretize(v value, signed bool) int64 {
	return m.concretizeUpTo(v, signed, 256, "size", false)
}

// extreme is the smallest (largest) feasible value of sv on this path; from is a feasible one, and next, if near, the
// neighbour of the last extreme.
func (m *Machine) extreme(sv *V, signed, largest bool, from uint64, near bool, next uint64) (uint64, bool) {
	ask := func(c *B) (Verdict, uint64) {
		v, mod := m.solver.Ask(m.st, &Query{Asserts: append(append([]*B(nil), m.pc...), c), DefLvl: -1, Want: true, Timeout: 20 * time.Second})
		if v != Sat {
			return v, 0
		}
		return v, m.st.newEval(mod).bv(sv)
	}
	if near {
		if v, _ := ask(m.st.VCmp("=", sv, m.st.VConst(next, sv.w))); v == Sat {
			return next, true
		}
	}
	lt := "bvult"
	if signed {
		lt = "bvslt"
	}
	// widen away from a feasible value until nothing lies beyond, then bisect
	best, step := from, uint64(1)
	beyond := func(x uint64) *B { // values at least as extreme as x
		if largest {
			return m.st.Not(m.st.VCmp(lt, sv, m.st.VConst(x, sv.w)))
		}
		return m.st.Not(m.st.VCmp(lt, m.st.VConst(x, sv.w), sv))
	}
	for i := 0; i < 3*sv.w; i++ {
		at := best - step
		if largest {
			at = best + step
		}
		wrapped := at > best
		if largest {
			wrapped = at < best
		}
		if wrapped || step == 0 {
			if step >>= 1; step == 0 {
				return best, true
			}
			continue
		}
		v, x := ask(beyond(at))
		switch v {
		case Sat:
			best, step = x, step<<1
		case Unsat:
			if step == 1 {
				return best, true
			}
			// nothing at distance step: bisect below it
			lo, hi := uint64(1), step // something may lie at distances in [lo, hi)
			for lo < hi {
				mid := lo + (hi-lo)/2
				at := best - mid
				if largest {
					at = best + mid
				}
				v, x := ask(beyond(at))
				switch v {
				case Sat:
					d := best - x
					if largest {
						d = x - best
					}
					best, lo, hi = x, 1, hi-d
				case Unsat:
					hi = mid
				default:
					return 0, false
				}
			}
			return best, true
		default:
			return 0, false
		}
	}
	return 0, false
}

// concretizeUpTo forks over at most max values; with corners, the smallest and the largest ones come first.
func (m *Machine) concretizeUpTo(v value, signed bool, max int, what string, corners bool) int64 {
	if c, ok := v.(int64); ok {
		return c
	}
	sv := v.(*V)
	m.noSpec("concretize")
	var last [2]uint64
	for n := 0; ; n++ {
		if n > max {
			unsup("too many values for a symbolic %s", what)
		}
		key := fmt.Sprint(sv.id, corners, n)
		for _, b := range m.pc {
			key += fmt.Sprint(" ", b.id)
		}
		cv, seen := m.picks[key]
		if !seen {
			verdict, mod := m.solver.Ask(m.st, &Query{Asserts: append([]*B(nil), m.pc...), DefLvl: -1, Want: true, Timeout: 20 * time.Second})
			if verdict == Unsat {
				panic(infeasible{})
			}
			if verdict != Sat {
				unsup("cannot enumerate a symbolic size")
			}
			cv = m.st.newEval(mod).bv(sv)
			if corners {
				k := n % 2
				if c, ok := m.extreme(sv, signed, k == 1, cv, n > 1, last[k]+1-2*uint64(k)); ok {
					cv = c
				}
			}
			m.picks[key] = cv
		}
		last[n%2] = cv
		eq := m.st.VCmp("=", sv, m.st.VConst(cv, sv.w))
		if val, known := m.knownTruth(eq); known {
			if val {
				if signed {
					return sext(cv, sv.w)
				}
				return int64(cv)
			}
			unsup("inconsistent model")
		}
		if m.fork(eq) {
			if signed {
				return sext(cv, sv.w)
			}
			return int64(cv)
		}
	}
}

func (m *Machine) dbg(f string, a ...interface{}) {
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func sortedKeys(mm map[string]int) []string {
	var r []string
	for k := range mm {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func posOf(fn *ssa.Function, p token.Pos) string {
	return fn.Prog.Fset.Position(p).String()
}

func (m *Machine) stopped() bool {
	return m.stop != nil && m.stop.Load() || !m.deadline.IsZero() && time.Now().After(m.deadline)
}
