package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/consensys/gurvy/bn256/fr"
	"golang.org/x/tools/go/ssa"
)

// Inst is one harness instance: a harness function with fixed structural parameters.
type Inst struct {
	Pkg, Fn string
	P       map[string]int64
	Cfg     RunCfg
	Name    string
	Conc    bool             // interleaving analysis
	Way     []map[string]int // steer the execution through these cuts
	Budget  time.Duration
	Lem     *lemmaSet    // collects the identities used by the normal form
	Stop    *atomic.Bool // set when the check has enough counterexamples
	Found   func(string) // told the label of every counterexample
	// the harness must reach these points on some path
	Must []string
}

func (i *Inst) String() string {
	var ks []string
	for k := range i.P {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	fmt.Fprintf(&b, "%s.%s", i.Pkg, i.Fn)
	for _, k := range ks {
		fmt.Fprintf(&b, " %s=%d", k, i.P[k])
	}
	return b.String()
}

// Result of an instance.
type Result struct {
	Inst     *Inst
	Stats    *Stats
	Viol     []*Oblig // counterexamples
	Undec    []string // what could not be decided
	Funcs    map[string]int64
	Queries  int
	NUnsat   int
	NSat     int
	NUnk     int
	SolverT  time.Duration
	MaxQ     time.Duration
	Wall     time.Duration
	Conc     *ConcStats
	TimedOut bool
	Valid    *Case // a path to be validated against a native run
}

func newMachine(p *Program, seed uint64) *Machine {
	st := newStore(seed)
	m := &Machine{p: p, st: st, solver: &Solver{}}
	if f := os.Getenv("GOSYM_SMT"); f != "" {
		m.solver.Log, _ = os.Create(f)
	}
	st.solver = m.solver
	m.stats = &Stats{Reached: map[string]int{}, Labels: map[string]int{}, MergeFail: map[string]int{}}
	m.funcs = map[*ssa.Function]int64{}
	m.picks = map[string]uint64{}
	m.implMemo = map[[2]int][2]bool{}
	m.known = map[*T]*T{}
	m.knownMemo = map[string]bool{}
	m.satMemo = map[string]*B{}
	m.validMem = map[int]Verdict{}
	return m
}

// resetPath prepares the machine for a fresh path.
func (m *Machine) resetPath(prefix []int) {
	m.globals = map[*ssa.Global]*value{}
	m.inited = map[*ssa.Package]bool{}
	m.pc = nil
	m.pcSet = map[*B]bool{}
	m.prefix = prefix
	m.trace = nil
	m.script = m.cfg.Script
	m.cmps, m.cmpBad = nil, false
	m.steps = 0
	m.spec = nil
	m.sideTab = map[*value]interface{}{}
	m.inputs = map[string]bool{}
	m.choices = map[string]int64{}
	m.wits = nil
	m.lastPanic = ""
	m.rnd = 0
	m.schedPts = 0
	m.deviate = m.cfg.Deviations
	m.stubHash = m.cfg.StubHash
	m.log = nil
	if m.cfg.LogEvents {
		m.log = &evLog{}
	}
}

// initAll runs the initialisers of the packages of the repository.
func (m *Machine) initAll(root *ssa.Package) {
	lg := m.log
	m.log = nil
	sh := m.stubHash
	m.stubHash = false
	m.inInit = true
	m.call(m.cur, nil, root.Func("init"), nil)
	m.inInit = false
	m.stubHash = sh
	m.log = lg
}

// ---------- concrete evaluation of the real hash

type hashOracle struct {
	mu   sync.Mutex
	m    *Machine
	fn   *ssa.Function
	memo map[string]fr.Element
	bad  bool
}

func newHashOracle(p *Program) *hashOracle {
	return &hashOracle{fn: p.fn("gkr-mimc/hash", "MimcHash"), memo: map[string]fr.Element{}, m: newMachine(p, 1)}
}

func (h *hashOracle) eval(args []fr.Element) fr.Element {
	var kb strings.Builder
	for i := range args {
		kb.WriteString(feKey(&args[i]))
	}
	k := kb.String()
	h.mu.Lock()
	defer h.mu.Unlock()
	if r, ok := h.memo[k]; ok {
		return r
	}
	r, ok := fr.Element{}, false
	if h.fn != nil && !h.bad {
		r, ok = h.run(args)
		if !ok {
			h.bad = true
		}
	}
	if !ok {
		r = randFe("hash", k)
	}
	h.memo[k] = r
	return r
}

func (h *hashOracle) run(args []fr.Element) (res fr.Element, ok bool) {
	m := h.m
	m.cfg = &RunCfg{MaxSteps: 1 << 40}
	m.st.hashEval = func(string, []fr.Element) fr.Element { panic("nested") }
	first := m.globals == nil
	if first {
		m.resetPath(nil)
	}
	m.steps = 0
	out := m.execPath(func(g *Gor) {
		if first {
			m.initAll(h.fn.Pkg)
		}
		sl := make([]value, len(args))
		for i := range args {
			sl[i] = Fe{m.st.Const(args[i])}
		}
		v := m.call(g, nil, h.fn, []value{sl})
		f := m.toFe(v)
		if f.t.kind == kConst {
			res, ok = f.t.c, true
		}
	})
	// keep the term store small
	if len(m.st.ft) > 200000 {
		m.globals = nil
		m.st = newStore(1)
	}
	if out.err != nil {
		return res, false
	}
	return
}

// ---------- exploration of one instance

func runInst(p *Program, ho *hashOracle, in *Inst, seed uint64) *Result {
	res := &Result{Inst: in, Funcs: map[string]int64{}}
	t0 := time.Now()
	m := newMachine(p, seed)
	defer m.solver.Close()
	cfg := in.Cfg
	cfg.Params = in.P
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 400e6
	}
	if cfg.BranchTimeout == 0 {
		cfg.BranchTimeout = 5 * time.Second
	}
	if cfg.ProveTimeout == 0 {
		cfg.ProveTimeout = 60 * time.Second
	}
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 5000
	}
	if cfg.SchedWindow == 0 {
		cfg.SchedWindow = 1 << 30
	}
	if in.Conc {
		cfg.LogEvents = true
	}
	m.cfg = &cfg
	if in.Budget == 0 {
		in.Budget = 10 * time.Minute
	}
	m.deadline = t0.Add(in.Budget)
	m.stop = in.Stop
	m.found = in.Found
	m.solver.over = m.stopped
	if in.Lem != nil {
		m.st.lem = &lemmaLog{set: in.Lem, done: map[lemmaKey]bool{}}
		defer in.Lem.close(m.st.lem)
	}
	m.st.hashEval = func(name string, args []fr.Element) fr.Element {
		if name == "root7" {
			return root7Fe(args[0])
		}
		return ho.eval(args)
	}
	fn := p.fn("gkr-mimc/zz_verif/"+in.Pkg, in.Fn)
	if fn == nil {
		res.Undec = append(res.Undec, "harness "+in.String()+" is missing")
		return res
	}
	undec := map[string]bool{}
	note := func(s string) {
		if !undec[s] {
			undec[s] = true
			res.Undec = append(res.Undec, s)
		}
	}
	m.way = in.Way
	var conc *concAnalysis
	if in.Conc {
		conc = newConc(m, in, fn)
	}
	prefix := []int{}
	for {
		m.resetPath(prefix)
		if m.way != nil {
			m.guide = &guide{cuts: m.way}
		}
		r := m.execPath(func(g *Gor) {
			m.initAll(fn.Pkg)
			if fn.Signature.Params().Len() != 0 {
				unsup("harness with parameters")
			}
			m.call(g, nil, fn, nil)
		})
		m.guide = nil
		m.stats.Paths++
		m.stats.Steps += m.steps
		switch e := r.err.(type) {
		case nil:
			if r.leak != "" && !cfg.AllowLeak {
				m.failPath("no goroutine is left blocked", "schedule", r.leak)
			}
		case infeasible:
		case unsupported:
			note(e.msg)
			if strings.HasPrefix(e.msg, "time budget") {
				res.TimedOut = true
			}
		case deadlock:
			m.failPath("no deadlock", "schedule", e.msg)
		case targetPanic:
			m.failPath("no panic", "panic", e.msg)
		case specFail:
			note("internal: speculation escaped: " + e.why)
		default:
			if os.Getenv("GOSYM_DEBUG") != "" {
				panic(e)
			}
			note(fmt.Sprintf("internal error: %v", e))
		}
		if r.err == nil && res.Valid == nil && !m.cmpBad && len(m.cmps) > 0 && m.stats.SchedForks == 0 {
			res.Valid = m.validationCase(in)
		}
		if conc != nil {
			conc.add(r)
		}
		if res.TimedOut {
			break
		}
		if m.stats.Paths >= cfg.MaxPaths {
			note(fmt.Sprintf("path bound %d reached", cfg.MaxPaths))
			break
		}
		if time.Now().After(m.deadline) || m.stopped() {
			note("time budget exhausted")
			res.TimedOut = true
			break
		}
		// next path
		i := len(m.trace) - 1
		for i >= 0 && m.trace[i].pick+1 >= m.trace[i].n {
			i--
		}
		if i < 0 {
			if conc != nil && conc.next() {
				prefix = []int{}
				continue
			}
			break
		}
		prefix = nil
		for j := 0; j < i; j++ {
			prefix = append(prefix, m.trace[j].pick)
		}
		prefix = append(prefix, m.trace[i].pick+1)
	}
	if conc != nil {
		conc.finish()
		res.Conc = conc.stats
		for u := range conc.undec {
			note(u)
		}
	}
	for _, o := range m.obligs {
		if o.Verdict == Sat {
			res.Viol = append(res.Viol, o)
		} else {
			note("undecided: " + o.Label + o.Msg)
		}
	}
	for _, l := range append([]string{"end"}, in.Must...) {
		if m.stats.Reached[l] == 0 && len(res.Viol) == 0 {
			note("never reached: " + l)
		}
	}
	for f, n := range m.funcs {
		pk := ""
		if f.Pkg != nil {
			pk = f.Pkg.Pkg.Path()
		} else if f.Origin() != nil && f.Origin().Pkg != nil {
			pk = f.Origin().Pkg.Pkg.Path()
		}
		if strings.HasPrefix(pk, "gkr-mimc") && !strings.Contains(pk, "zz_verif") && f.Name() != "init" {
			res.Funcs[f.String()] += n
		}
	}
	res.Stats = m.stats
	s := m.solver
	res.Queries, res.NUnsat, res.NSat, res.NUnk, res.SolverT, res.MaxQ = s.Queries, s.NUnsat, s.NSat, s.NUnk, s.Time, s.MaxT
	res.Wall = time.Since(t0)
	return res
}

// failPath records that this path ended badly; its path condition must be satisfiable for it to count.
func (m *Machine) failPath(label, kind, msg string) {
	m.stats.Obligs++
	m.stats.Labels[label]++
	m.fail(m.st.fls, label, kind, msg)
}
