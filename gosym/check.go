package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check decides one property.
type Check struct {
	ID        string
	Level     string
	Technique string
	Bounds    string
	Outside   string
	Trusted   []string
	Quick     []*Inst
	Deep      []*Inst // added by the thorough tier
}

type checkRun struct {
	env    *Env
	prog   *Program
	ho     *hashOracle
	chk    *Check
	tier   string
	seed   uint64
	until  time.Time
	mu     sync.Mutex
	res    []*Result
	extra  []*Result // results that do not come from harness instances
	viol   []string
	nfound int
	known  map[string]string
	notes  []string
	nat    *natRunner
	natMu  sync.Mutex
	nval   int
	badVal []string
	lem    *lemmaSet
	lemRep lemmaReport
}

func P(kv ...interface{}) map[string]int64 {
	m := map[string]int64{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = int64(kv[i+1].(int))
	}
	return m
}

func runCheck(id, tier string) int {
	t0 := time.Now()
	chk := registry()[id]
	if chk == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	seed := uint64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	env := newEnv()
	defer env.close()
	insts := append([]*Inst(nil), chk.Quick...)
	total := 300 * time.Second
	if tier == "thorough" {
		insts = append(insts, chk.Deep...)
		total = 3600 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		var n int
		fmt.Sscan(s, &n)
		total = time.Duration(n) * time.Second
	}
	c := &checkRun{env: env, chk: chk, tier: tier, seed: seed, until: t0.Add(total), known: knownFindings(env, id)}
	pk := map[string]bool{}
	for _, in := range insts {
		pk[in.Pkg] = true
	}
	var pats, pkgs []string
	for p := range pk {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	for _, p := range pkgs {
		pats = append(pats, "./zz_verif/"+p)
	}
	pats = append(pats, "./zz_verif/vx")
	prog, err := env.load(pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.prog = prog
	c.lem = newLemmaSet(map[bool]int{false: 8000, true: 60000}[tier == "thorough"])
	c.ho = newHashOracle(prog)
	// the native build runs beside the exploration
	natDone := make(chan struct{})
	go func() {
		c.nat = env.buildNative(prog, pkgs, false)
		close(natDone)
	}()
	prog.sys = &systems{m: map[string]*system{}, dir: env.Work, nat: func() *natRunner {
		<-natDone
		return c.nat
	}}
	skipped := c.explore(insts, false)
	<-natDone
	if c.nat.err != nil {
		c.notes = append(c.notes, "native build failed: "+tail(c.nat.err.Error(), 500))
		fmt.Fprintln(os.Stderr, "native build failed:", c.nat.err)
	}
	c.validate()
	if len(skipped) > 0 {
		if c.confirmed() {
			c.notes = append(c.notes, fmt.Sprintf("%d instances not explored: enough counterexamples were found", len(skipped)))
		} else {
			// none of them could be reproduced
			c.explore(skipped, true)
		}
	}
	c.lemmas(t0)
	code := c.report(time.Since(t0), len(insts))
	return code
}

// explore runs the instances on all cores, in order.
func (c *checkRun) explore(insts []*Inst, all bool) (skipped []*Inst) {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	var wg sync.WaitGroup
	ch := make(chan *Inst)
	t0 := time.Now()
	var stop atomic.Bool
	bad := 0
	done := make(chan struct{})
	go func() {
		for tick := time.NewTicker(5 * time.Second); ; {
			select {
			case <-done:
				tick.Stop()
				return
			case <-tick.C:
				c.mu.Lock()
				if e := time.Since(t0); all {
				} else if bad >= 8 && e > 20*time.Second || bad > 0 && e > 100*time.Second {
					stop.Store(true)
				}
				c.mu.Unlock()
			}
		}
	}()
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for in := range ch {
				left := time.Until(c.until)
				if left < time.Second {
					c.mu.Lock()
					c.notes = append(c.notes, "not explored within the time budget: "+in.String())
					c.mu.Unlock()
					continue
				}
				if stop.Load() {
					c.mu.Lock()
					skipped = append(skipped, in)
					c.mu.Unlock()
					continue
				}
				k := *in
				k.Stop = &stop
				k.Lem = c.lem
				seen := map[string]bool{}
				k.Found = func(label string) {
					if _, ok := c.known[in.String()+": "+label]; !ok {
						c.mu.Lock()
						seen[label] = true
						bad++
						c.mu.Unlock()
					}
				}
				if k.Budget == 0 || k.Budget > left {
					k.Budget = left
				}
				r := runInst(c.prog, c.ho, &k, c.seed)
				r.Inst = in
				if os.Getenv("GOSYM_V") != "" {
					fmt.Fprintf(os.Stderr, "%-60s paths %d obl %d/%d q %d solver %s wall %s undec %v\n", in.String(), r.Stats.Paths, r.Stats.Discharged, r.Stats.Obligs, r.Queries, r.SolverT.Round(time.Millisecond), r.Wall.Round(time.Millisecond), r.Undec)
				}
				c.mu.Lock()
				c.res = append(c.res, r)
				for _, o := range r.Viol {
					if _, ok := c.known[in.String()+": "+o.Label]; !ok && !seen[o.Label] {
						bad++
					}
				}
				c.mu.Unlock()
			}
		}()
	}
	for _, in := range insts {
		ch <- in
	}
	close(ch)
	wg.Wait()
	close(done)
	return skipped
}

// lemmas discharges the identities the normal form rests on.
func (c *checkRun) lemmas(t0 time.Time) {
	for _, r := range c.res {
		for _, o := range r.Viol {
			if _, ok := c.known[r.Inst.String()+": "+o.Label]; !ok {
				return // there is something to report; the proofs do not matter
			}
		}
	}
	until := time.Now().Add(60 * time.Second)
	if c.tier == "thorough" {
		until = time.Now().Add(300 * time.Second)
	}
	c.lemRep = c.lem.discharge(min(runtime.NumCPU(), 8), until)
	for _, q := range c.lemRep.Refuted {
		c.notes = append(c.notes, "the executor's algebra used an identity the solver refutes: "+q)
	}
}

// validate runs one explored path per instance natively and compares what the harness saw.
func (c *checkRun) validate() {
	if c.nat.err != nil {
		return
	}
	var cs []*Case
	var rs []*Result
	for _, r := range c.res {
		if r.Valid != nil && len(r.Viol) == 0 {
			cs = append(cs, r.Valid)
			rs = append(rs, r)
		}
	}
	if len(cs) == 0 {
		return
	}
	outs, log, err := c.nat.run(c.env.Work, cs, 200*time.Second)
	if err != nil {
		// one case at a time
		outs = make([]Outcome, len(cs))
		crashed := 0
		for i := range cs {
			if crashed > 3 {
				outs[i].Panic = "not run"
				continue
			}
			o, l, err := c.nat.run(c.env.Work, cs[i:i+1], 30*time.Second)
			switch {
			case err == nil && len(o) == 1:
				outs[i] = o[0]
			case strings.Contains(l, "panic:") || strings.Contains(l, "fatal error:"):
				outs[i].Panic = "crash: " + tail(l, 200)
				crashed++
			default:
				outs[i].Panic = "not run"
				c.notes = append(c.notes, "validation run: "+err.Error()+" "+tail(log, 200))
				crashed++
			}
		}
	}
	for i, o := range outs {
		bad := ""
		if o.Panic == "not run" {
			continue
		} else if o.Assumed {
			bad = "assumption fails natively"
		} else if o.Panic != "" || len(o.Failed) > 0 {
			bad = "fails natively: " + o.Panic + strings.Join(o.Failed, ", ")
			// the real code fails on these inputs: believe it if it fails every time
			same := true
			for k := 0; k < 3 && same; k++ {
				o2, l, err := c.nat.run(c.env.Work, cs[i:i+1], 30*time.Second)
				if err != nil {
					same = strings.Contains(l, "panic:") || strings.Contains(l, "fatal error:")
				} else {
					same = len(o2) == 1 && !o2[0].Assumed && (o2[0].Panic != "" || len(o2[0].Failed) > 0)
				}
			}
			if same {
				l := "no panic"
				if len(o.Failed) > 0 {
					l = o.Failed[0]
				}
				rs[i].Viol = append(rs[i].Viol, &Oblig{Label: l, Kind: "native", Verdict: Sat, Msg: o.Panic, Choices: cs[i].Choices, Case: cs[i], Confirmed: "native run of a path the executor considered correct, repeated: " + bad})
				continue
			}
		} else if len(o.Trace) != len(cs[i].Expect) {
			bad = fmt.Sprintf("%d values natively, %d symbolically", len(o.Trace), len(cs[i].Expect))
		} else {
			for j := range o.Trace {
				if o.Trace[j] != cs[i].Expect[j] {
					bad = fmt.Sprintf("value %d differs", j)
					break
				}
			}
		}
		if bad == "" {
			c.nval++
		} else {
			c.badVal = append(c.badVal, cs[i].Harness+fmt.Sprint(cs[i].Params)+": "+bad)
		}
	}
}

// confirmViolation replays a counterexample on the real code.
func (c *checkRun) confirmViolation(in *Inst, o *Oblig) (string, bool) {
	if !o.tried {
		o.how, o.ok = c.replay(in, o)
		o.tried = true
	}
	return o.how, o.ok
}

// confirmed tells whether an unlisted counterexample was reproduced.
func (c *checkRun) confirmed() bool {
	for _, r := range c.res {
		for _, o := range r.Viol {
			if _, ok := c.known[r.Inst.String()+": "+o.Label]; !ok {
				if _, ok := c.confirmViolation(r.Inst, o); ok {
					return true
				}
			}
		}
	}
	return false
}

func (c *checkRun) replay(in *Inst, o *Oblig) (string, bool) {
	cs := newCase(in, o.Cex, o.Choices)
	cs.Label = o.Label
	if o.Kind == "native" {
		return o.Confirmed, true
	}
	if c.nat.err == nil && o.Kind != "race" {
		envs := [][]string{nil}
		if o.Sched || in.Conc || o.Kind == "schedule" {
			envs = [][]string{nil, {"GOMAXPROCS=1"}, {"GOMAXPROCS=2"}, nil}
		}
		for _, ev := range envs {
			outs, log, err := c.nat.run(c.env.Work, []*Case{cs}, 20*time.Second, ev...)
			if err != nil {
				if strings.Contains(log, "all goroutines are asleep") || strings.HasPrefix(err.Error(), "timeout") && o.Kind == "schedule" {
					return "native replay: deadlock", true
				}
				if strings.Contains(log, "panic:") || strings.Contains(log, "fatal error") {
					return "native replay: crash: " + tail(log, 200), true
				}
				continue
			}
			if len(outs) == 1 && !outs[0].Assumed && (outs[0].Panic != "" || len(outs[0].Failed) > 0) {
				return "native replay: " + outs[0].Panic + strings.Join(outs[0].Failed, ", "), true
			}
		}
	}
	if o.Sched || o.Kind == "schedule" {
		if ok, msg := reexec(c.prog, c.ho, in, o); ok {
			return "re-execution of the compiled code's SSA under the recorded schedule: " + msg, true
		}
	}
	if o.Confirmed != "" {
		return o.Confirmed, true
	}
	return "", false
}

func knownFindings(e *Env, id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(e.Verif, "known_findings.json"))
	if err != nil {
		return r
	}
	var l []struct {
		Property, Status, Finding, What string
	}
	if err := json.Unmarshal(b, &l); err != nil {
		fatal("known_findings.json: ", err)
	}
	for _, x := range l {
		if x.Property == id && x.Status == "open" {
			r[x.Finding] = x.What
		}
	}
	return r
}

func (c *checkRun) report(wall time.Duration, planned int) int {
	id := c.chk.ID
	var obl, norm, dis, paths, q, nu, ns, nk, merges, forks int
	var steps int64
	var st, maxq time.Duration
	funcs := map[string]int64{}
	labels := map[string]int{}
	var undec, knownHit []string
	var samples []interface{}
	all := append(append([]*Result(nil), c.res...), c.extra...)
	sort.SliceStable(all, func(i, j int) bool { return all[i].Inst.String() < all[j].Inst.String() })
	code := 0
	nviol := 0
	conc := &ConcStats{}
	rdir := filepath.Join(c.env.Verif, "evidence", "replay")
	knownSeen := map[string]bool{}
	var insts []string
	for _, r := range all {
		s := r.Stats
		obl += s.Obligs
		dis += s.Discharged
		norm += s.Normal
		paths += s.Paths
		steps += s.Steps
		merges += s.Merges
		forks += s.Forks
		q += r.Queries
		nu += r.NUnsat
		ns += r.NSat
		nk += r.NUnk
		st += r.SolverT
		if r.MaxQ > maxq {
			maxq = r.MaxQ
		}
		for f, n := range r.Funcs {
			funcs[f] += n
		}
		for l, n := range s.Labels {
			labels[l] += n
		}
		for _, u := range r.Undec {
			undec = append(undec, r.Inst.String()+": "+u)
		}
		if r.Conc != nil {
			conc.addAll(r.Conc)
		}
		insts = append(insts, fmt.Sprintf("%s: %d paths, %d of %d obligations, %d queries, %.2fs", r.Inst.String(), s.Paths, s.Discharged, s.Obligs, r.Queries, r.Wall.Seconds()))
		if len(samples) < 6 {
			samples = append(samples, map[string]interface{}{"instance": r.Inst.String(), "paths": s.Paths, "ssa_steps": s.Steps, "obligations": s.Obligs, "queries": r.Queries, "labels": s.Labels})
		}
		for _, o := range r.Viol {
			key := r.Inst.String() + ": " + o.Label
			if w, ok := c.known[key]; ok {
				if !knownSeen[key] {
					knownSeen[key] = true
					knownHit = append(knownHit, key)
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, w, key)
				}
				dis++ // accounted for
				continue
			}
			how, ok := c.confirmViolation(r.Inst, o)
			if !ok {
				undec = append(undec, r.Inst.String()+": counterexample not reproduced natively: "+o.Label+" "+o.Msg)
				continue
			}
			nviol++
			code = 1
			if nviol > 10 {
				continue
			}
			cs := newCase(r.Inst, o.Cex, o.Choices)
			if o.Case != nil {
				k := *o.Case
				cs = &k
			}
			cs.Property, cs.Kind, cs.Msg, cs.Script, cs.Label, cs.Goal, cs.Verified = id, o.Kind, o.Msg, o.Script, o.Label, o.Goal, how
			os.MkdirAll(rdir, 0o755)
			f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, nviol))
			j, _ := json.MarshalIndent(cs, "", " ")
			os.WriteFile(f, j, 0o644)
			fmt.Printf("%s: %s: %s %s\n  confirmed by %s\n", id, r.Inst.String(), o.Label, tail(o.Msg, 300), tail(how, 300))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		}
	}
	undec = append(undec, c.notes...)
	for _, b := range c.badVal {
		undec = append(undec, "executor and native run disagree: "+b)
	}
	sort.Strings(undec)
	for i, u := range undec {
		if i < 20 {
			fmt.Printf("INCONCLUSIVE property=%s %s\n", id, tail(u, 400))
		}
	}
	var fl []string
	for f, n := range funcs {
		fl = append(fl, fmt.Sprintf("%s (%d)", f, n))
	}
	sort.Strings(fl)
	ver, _ := exec.Command("z3-new", "--version").Output()
	cov := map[string]interface{}{
		"states":                        paths,
		"transitions":                   steps,
		"traces_validated_against_impl": c.nval,
		"samples":                       samples,
		"obligations":                   obl,
		"discharged":                    dis,
		"closed_by_normal_form":         norm,
		"obligations_by_label":          labels,
		"functions_encoded":             fl,
		"bounds":                        c.chk.Bounds,
		"outside_bounds":                c.chk.Outside,
		"instances":                     insts,
		"instances_planned":             planned,
		"queries":                       q,
		"queries_unsat":                 nu,
		"queries_sat":                   ns,
		"queries_unknown":               nk,
		"queries_on_algebra":            c.lemRep.summary(),
		"solver":                        strings.TrimSpace(string(ver)),
		"solver_s":                      st.Seconds(),
		"longest_query_s":               maxq.Seconds(),
		"merged_branches":               merges,
		"forks":                         forks,
		"inconclusive":                  undec,
		"known_findings_seen":           knownHit,
		"explanation":                   "states = symbolic paths, transitions = SSA instructions executed symbolically, traces_validated_against_impl = paths whose symbolic values were compared with a native run of the same harness on a concrete assignment",
	}
	if l := c.prog.sys.report(); len(l) > 0 {
		sort.Strings(l)
		cov["constraint_systems"] = l
	}
	if conc.Logs > 0 {
		cov["interleavings"] = conc
	}
	ev := map[string]interface{}{
		"property": id, "tier": c.tier, "seed": c.seed, "level": c.chk.Level,
		"coverage": cov, "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": append([]string{}, c.chk.Trusted...),
	}
	os.MkdirAll(filepath.Join(c.env.Verif, "evidence"), 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(c.env.Verif, "evidence", id+".json"), append(j, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d instances, %d paths, %d/%d obligations discharged, %d queries (%d unsat, %d sat, %d unknown) %.1fs solver, %d of %d identities, %d native validations, %d inconclusive, %d violations, %.1fs\n",
		id, c.tier, len(all), paths, dis, obl, q, nu, ns, nk, st.Seconds(), c.lemRep.Proved, c.lemRep.Unique, c.nval, len(undec), nviol, wall.Seconds())
	if code == 0 && dis == 0 {
		fmt.Println("nothing was decided")
		return 2
	}
	return code
}
