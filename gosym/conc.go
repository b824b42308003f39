package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/consensys/gurvy/bn256/fr"
	"golang.org/x/tools/go/ssa"
)

// The interleaving analysis. One execution of the harness gives, for every goroutine, the sequence of its
// synchronisation operations (spawn, channel, WaitGroup, mutex) with the memory cells touched between them. An
// interleaving of these sequences is described by its cuts: how many operations every goroutine has performed.
// The solver is asked, over all cuts the semantics of the operations allow, whether one exists in which
//   - no goroutine can continue and not all have ended (deadlock, goroutine blocked forever),
//   - a goroutine is about to send on, or close, a channel that is closed,
//   - a WaitGroup counter is negative, an unlocked mutex is unlocked,
//   - two goroutines are in segments that touch the same memory cell, one of them writing (data race),
//   - a channel holds more values than the harness declared possible.
// Messages that carry data are delivered in the order of the execution; the solver enumerates the other orders
// in which the senders of a channel can deliver, and every one of them is executed and analysed in turn.
// A cut the solver proposes is steered to in the executor before it counts.

// ConcStats describes an interleaving analysis.
type ConcStats struct {
	Logs       int           `json:"executions_analysed"`
	Orders     int           `json:"message_orders"`
	MoreOrders int           `json:"instances_with_message_orders_beyond_the_bound"`
	Threads    int           `json:"max_goroutines"`
	Events     int           `json:"max_operations"`
	Pairs      int           `json:"conflicting_segment_pairs"`
	Queries    int           `json:"queries"`
	NUnsat     int           `json:"unsat"`
	NSat       int           `json:"sat"`
	Guided     int           `json:"guided_executions"`
	Time       time.Duration `json:"-"`
	Seconds    float64       `json:"solver_seconds"`
}

func (c *ConcStats) addAll(o *ConcStats) {
	c.Logs += o.Logs
	c.Orders += o.Orders
	c.MoreOrders += o.MoreOrders
	if o.Threads > c.Threads {
		c.Threads = o.Threads
	}
	if o.Events > c.Events {
		c.Events = o.Events
	}
	c.Pairs += o.Pairs
	c.Queries += o.Queries
	c.NUnsat += o.NUnsat
	c.NSat += o.NSat
	c.Guided += o.Guided
	c.Time += o.Time
	c.Seconds = c.Time.Seconds()
}

// guide steers an execution through a sequence of cuts.
type guide struct {
	cuts     []map[string]int
	first    string // the goroutine to run first after the last cut
	stage    int
	released bool
	missed   bool // a cut was not reached
}

// release is called when every goroutine is blocked or held back.
func (gd *guide) release(m *Machine) {
	cut := gd.cuts[gd.stage]
	gd.stage++
	gd.released = gd.stage == len(gd.cuts)
	seen := map[string]bool{}
	for _, t := range m.log.thr {
		seen[t.path] = true
		if n, ok := cut[t.path]; !ok || len(t.evs) != n {
			gd.missed = true
		}
	}
	for p, n := range cut {
		if n > 0 && !seen[p] {
			gd.missed = true
		}
	}
	if !gd.released {
		return
	}
	for _, g := range m.gors {
		if g.ev != nil && g.ev.path == gd.first {
			m.removeGor(g)
			m.gors = append([]*Gor{g}, m.gors...)
			break
		}
	}
}

// arrDec: the next message of the channel comes from this goroutine.
type arrDec struct{ ch, from string }

// arrOrder is a prefix of the decisions of the goroutine at which data arrives in several orders, with cuts that
// lead there.
type arrOrder struct {
	decs []arrDec
	way  []map[string]int
}

type concAnalysis struct {
	m     *Machine
	in    *Inst
	stats *ConcStats
	undec map[string]bool
	done  map[string]bool // labels already reported
	viol  []*Oblig
	work  []arrOrder
	cur   arrOrder
	seen  map[string]bool
	recv  string // the goroutine at which data arrives in several orders
	solv  *Solver
}

func newConc(m *Machine, in *Inst, fn *ssa.Function) *concAnalysis {
	return &concAnalysis{m: m, in: in, stats: &ConcStats{Orders: 1}, undec: map[string]bool{}, done: map[string]bool{}, seen: map[string]bool{"": true}, solv: &Solver{Log: m.solver.Log}}
}

func (c *concAnalysis) maxOrders() int {
	if n := c.in.Cfg.MaxOrders; n > 0 {
		return n
	}
	return 8
}

// next selects the next order of arrival to execute.
func (c *concAnalysis) next() bool {
	if len(c.work) == 0 {
		return false
	}
	if c.stats.Orders >= c.maxOrders() {
		c.stats.MoreOrders = 1
		return false
	}
	c.stats.Orders++
	c.cur = c.work[0]
	c.work = c.work[1:]
	c.m.way = c.cur.way
	return true
}

func (c *concAnalysis) finish() {
	c.m.way = nil
	c.solv.Close()
}

func (c *concAnalysis) note(s string) { c.undec[s] = true }

// ---------- the encoding

type thrPos struct{ t, i int }

type enc struct {
	log    *evLog
	relax  map[int]int // channel -> number of messages whose order is kept (default: all)
	sends  map[int][]thrPos
	recvs  map[int][]thrPos
	closes map[int][]thrPos
	rclose map[int][]thrPos
	adds   map[int][]thrPos
	locks  map[int][]thrPos
	rlocks map[int][]thrPos
	chans  map[int]event
	cuts   []string // names of the cuts: the cut asked about, then one per WaitGroup.Wait that needs one
	waits  []thrPos // their waits
	order  []int    // channels, sorted
	wgs    []int    // WaitGroups, sorted
	mus    []int    // mutexes, sorted
}

func newEnc(l *evLog) *enc {
	e := &enc{log: l, relax: map[int]int{}, sends: map[int][]thrPos{}, recvs: map[int][]thrPos{}, closes: map[int][]thrPos{}, rclose: map[int][]thrPos{}, adds: map[int][]thrPos{}, locks: map[int][]thrPos{}, rlocks: map[int][]thrPos{}, chans: map[int]event{}}
	add := func(mp map[int][]thrPos, k int, p thrPos) { mp[k] = append(mp[k], p) }
	wg, mu := map[int]bool{}, map[int]bool{}
	e.cuts = []string{"c"}
	for _, t := range l.thr {
		for i, ev := range t.evs {
			p := thrPos{t.id, i}
			switch ev.kind {
			case evSend:
				add(e.sends, ev.obj, p)
			case evRecv:
				add(e.recvs, ev.obj, p)
			case evClose:
				add(e.closes, ev.obj, p)
			case evRecvClosed:
				add(e.rclose, ev.obj, p)
			case evWgAdd:
				add(e.adds, ev.obj, p)
				wg[ev.obj] = true
			case evWgWait:
				wg[ev.obj] = true
			case evLock, evUnlock:
				add(e.locks, ev.obj, p)
				mu[ev.obj] = true
			case evRLock, evRUnlock:
				add(e.rlocks, ev.obj, p)
				mu[ev.obj] = true
			}
			switch ev.kind {
			case evSend, evRecv, evClose, evRecvClosed:
				e.chans[ev.obj] = ev
			}
		}
	}
	for k := range e.chans {
		e.order = append(e.order, k)
	}
	for k := range wg {
		e.wgs = append(e.wgs, k)
	}
	for k := range mu {
		e.mus = append(e.mus, k)
	}
	sort.Ints(e.order)
	sort.Ints(e.wgs)
	sort.Ints(e.mus)
	// waits whose counter can be raised by others need the cut at which they returned
	for _, t := range l.thr {
		for i, ev := range t.evs {
			if ev.kind == evWgWait && !e.simpleWait(t.id, ev.obj) {
				e.cuts = append(e.cuts, fmt.Sprintf("w%d_", len(e.waits)))
				e.waits = append(e.waits, thrPos{t.id, i})
			}
		}
	}
	return e
}

func (e *enc) ev(p thrPos) event { return e.log.thr[p.t].evs[p.i] }

// simpleWait: only the waiting goroutine raises the counter.
func (e *enc) simpleWait(t, wg int) bool {
	for _, p := range e.adds[wg] {
		if e.ev(p).n > 0 && p.t != t {
			return false
		}
	}
	return true
}

func (e *enc) v(cut string, t int) string { return cut + strconv.Itoa(t) }

func (e *enc) exec(cut string, p thrPos) string { return fmt.Sprintf("(> %s %d)", e.v(cut, p.t), p.i) }

func (e *enc) spawned(cut string, t int) string {
	l := e.log.thr[t]
	if l.parent < 0 {
		return "true"
	}
	return e.exec(cut, thrPos{l.parent, l.spawn})
}

// at: goroutine t is about to perform its i-th operation.
func (e *enc) at(cut string, p thrPos) string {
	return fmt.Sprintf("(and (= %s %d) %s)", e.v(cut, p.t), p.i, e.spawned(cut, p.t))
}

func sum(l []string) string {
	switch len(l) {
	case 0:
		return "0"
	case 1:
		return l[0]
	}
	return "(+ " + strings.Join(l, " ") + ")"
}

func orOf(l []string) string {
	switch len(l) {
	case 0:
		return "false"
	case 1:
		return l[0]
	}
	return "(or " + strings.Join(l, " ") + ")"
}

func andOf(l []string) string {
	switch len(l) {
	case 0:
		return "true"
	case 1:
		return l[0]
	}
	return "(and " + strings.Join(l, " ") + ")"
}

func num(n int) string {
	if n < 0 {
		return fmt.Sprintf("(- %d)", -n)
	}
	return strconv.Itoa(n)
}

func (e *enc) count(cut string, ps []thrPos) string {
	var l []string
	for _, p := range ps {
		l = append(l, fmt.Sprintf("(ite %s 1 0)", e.exec(cut, p)))
	}
	return sum(l)
}

func (e *enc) queued(cut string, ch int) string {
	return fmt.Sprintf("(- %s %s)", e.count(cut, e.sends[ch]), e.count(cut, e.recvs[ch]))
}

func (e *enc) closed(cut string, ch int) string {
	var l []string
	for _, p := range e.closes[ch] {
		l = append(l, e.exec(cut, p))
	}
	return orOf(l)
}

func (e *enc) counter(cut string, wg int) string {
	var l []string
	for _, p := range e.adds[wg] {
		l = append(l, fmt.Sprintf("(ite %s %s 0)", e.exec(cut, p), num(e.ev(p).n)))
	}
	return sum(l)
}

func (e *enc) held(cut string, mu int, k []thrPos) string {
	var l []string
	for _, p := range k {
		n := 1
		if ev := e.ev(p); ev.kind == evUnlock || ev.kind == evRUnlock {
			n = -1
		}
		l = append(l, fmt.Sprintf("(ite %s %s 0)", e.exec(cut, p), num(n)))
	}
	return sum(l)
}

// valid: what every cut of every interleaving satisfies.
func (e *enc) valid(cut string) []string {
	var r []string
	for _, t := range e.log.thr {
		v := e.v(cut, t.id)
		r = append(r, fmt.Sprintf("(<= 0 %s %d)", v, len(t.evs)))
		if t.parent >= 0 {
			r = append(r, fmt.Sprintf("(=> (> %s 0) %s)", v, e.spawned(cut, t.id)))
		}
	}
	for _, ch := range e.order {
		ev := e.chans[ch]
		q := e.queued(cut, ch)
		r = append(r, fmt.Sprintf("(<= 0 %s %d)", q, ev.cap))
		if !ev.zero {
			for _, l := range [][]thrPos{e.sends[ch], e.recvs[ch]} {
				l = append([]thrPos(nil), l...)
				sort.Slice(l, func(i, j int) bool { return e.ev(l[i]).n < e.ev(l[j]).n })
				if n, ok := e.relax[ch]; ok && n < len(l) {
					l = l[:n]
				}
				for i := 1; i < len(l); i++ {
					if l[i-1].t != l[i].t {
						r = append(r, fmt.Sprintf("(=> %s %s)", e.exec(cut, l[i]), e.exec(cut, l[i-1])))
					}
				}
			}
		}
		for _, p := range e.rclose[ch] {
			r = append(r, fmt.Sprintf("(=> %s %s)", e.exec(cut, p), e.closed(cut, ch)))
		}
	}
	for _, mu := range e.mus {
		h, rd := e.held(cut, mu, e.locks[mu]), e.held(cut, mu, e.rlocks[mu])
		r = append(r, fmt.Sprintf("(<= %s 1)", h), fmt.Sprintf("(=> (= %s 1) (<= %s 0))", h, rd))
	}
	w := 0
	for _, t := range e.log.thr {
		for i, ev := range t.evs {
			if ev.kind != evWgWait {
				continue
			}
			p := thrPos{t.id, i}
			if e.simpleWait(t.id, ev.obj) {
				pos, neg := 0, []string{}
				for _, a := range e.adds[ev.obj] {
					if n := e.ev(a).n; n > 0 {
						if a.i < i {
							pos += n
						}
					} else {
						neg = append(neg, fmt.Sprintf("(ite %s %d 0)", e.exec(cut, a), -n))
					}
				}
				r = append(r, fmt.Sprintf("(=> %s (>= %s %d))", e.exec(cut, p), sum(neg), pos))
				continue
			}
			wc := e.cuts[1+w]
			w++
			if wc == cut {
				continue
			}
			l := []string{fmt.Sprintf("(= %s %d)", e.v(wc, p.t), p.i), fmt.Sprintf("(= %s 0)", e.counter(wc, ev.obj))}
			for _, u := range e.log.thr {
				l = append(l, fmt.Sprintf("(<= %s %s)", e.v(wc, u.id), e.v(cut, u.id)))
			}
			r = append(r, fmt.Sprintf("(=> %s %s)", e.exec(cut, p), andOf(l)))
		}
	}
	return r
}

// base is the script describing all cuts.
func (e *enc) base() string {
	var b strings.Builder
	b.WriteString("(reset)\n(set-logic QF_LIA)\n")
	for _, c := range e.cuts {
		for _, t := range e.log.thr {
			fmt.Fprintf(&b, "(declare-const %s Int)\n", e.v(c, t.id))
		}
	}
	for _, c := range e.cuts {
		for _, a := range e.valid(c) {
			fmt.Fprintf(&b, "(assert %s)\n", a)
		}
	}
	for i, w := range e.waits {
		for j, x := range e.waits[:i] {
			var le, ge []string
			for _, t := range e.log.thr {
				a, bb := e.v(e.cuts[1+i], t.id), e.v(e.cuts[1+j], t.id)
				le = append(le, fmt.Sprintf("(<= %s %s)", a, bb))
				ge = append(ge, fmt.Sprintf("(>= %s %s)", a, bb))
			}
			fmt.Fprintf(&b, "(assert (=> (and %s %s) (or %s %s)))\n", e.exec("c", w), e.exec("c", x), andOf(le), andOf(ge))
		}
	}
	return b.String()
}

// stuck: goroutine t cannot continue.
func (e *enc) stuck(t int) string {
	l := e.log.thr[t]
	or := []string{fmt.Sprintf("(= %s %d)", e.v("c", t), len(l.evs))}
	if l.parent >= 0 {
		or = append(or, "(not "+e.spawned("c", t)+")")
	}
	partner := func(ch int, ps []thrPos) string {
		var a []string
		for _, p := range ps {
			a = append(a, e.at("c", p))
		}
		return orOf(a)
	}
	for i, ev := range l.evs {
		c := ""
		switch ev.kind {
		case evSend:
			if ev.cap == 0 {
				c = "(not " + partner(ev.obj, append(append([]thrPos(nil), e.recvs[ev.obj]...), e.rclose[ev.obj]...)) + ")"
			} else {
				c = fmt.Sprintf("(>= %s %d)", e.queued("c", ev.obj), ev.cap)
			}
			c = fmt.Sprintf("(and %s (not %s))", c, e.closed("c", ev.obj))
		case evRecv, evRecvClosed:
			if ev.cap == 0 {
				c = "(not " + partner(ev.obj, e.sends[ev.obj]) + ")"
			} else {
				c = fmt.Sprintf("(<= %s 0)", e.queued("c", ev.obj))
			}
			c = fmt.Sprintf("(and %s (not %s))", c, e.closed("c", ev.obj))
		case evWgWait:
			c = fmt.Sprintf("(not (= %s 0))", e.counter("c", ev.obj))
		case evLock:
			c = fmt.Sprintf("(or (> %s 0) (> %s 0))", e.held("c", ev.obj, e.locks[ev.obj]), e.held("c", ev.obj, e.rlocks[ev.obj]))
		case evRLock:
			c = fmt.Sprintf("(> %s 0)", e.held("c", ev.obj, e.locks[ev.obj]))
		default:
			continue
		}
		or = append(or, fmt.Sprintf("(and (= %s %d) %s)", e.v("c", t), i, c))
	}
	return orOf(or)
}

// ask checks base and cond; a model is a cut.
func (c *concAnalysis) ask(e *enc, cond string) (Verdict, map[string]int) {
	script := e.base() + "(assert " + cond + ")\n(check-sat)\n"
	t0 := time.Now()
	out, ok := c.solv.run(script, c.m.cfg.ProveTimeout)
	defer func() {
		d := time.Since(t0)
		c.stats.Time += d
		s := c.m.solver
		s.Queries++
		s.Time += d
		if d > s.MaxT {
			s.MaxT = d
		}
	}()
	c.stats.Queries++
	if !ok || len(out) == 0 {
		c.m.solver.NUnk++
		return Unknown, nil
	}
	for _, l := range out {
		if strings.Contains(l, "error") {
			panic("solver: " + l)
		}
	}
	switch out[len(out)-1] {
	case "unsat":
		c.stats.NUnsat++
		c.m.solver.NUnsat++
		return Unsat, nil
	case "sat":
	default:
		c.m.solver.NUnk++
		return Unknown, nil
	}
	c.stats.NSat++
	c.m.solver.NSat++
	var vs []string
	for _, t := range e.log.thr {
		vs = append(vs, e.v("c", t.id))
	}
	out, ok = c.solv.run("(get-value ("+strings.Join(vs, " ")+"))", c.m.cfg.ProveTimeout)
	if !ok {
		return Unknown, nil
	}
	cut := map[string]int{}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(strings.Join(out, " ")))
	for i := 0; i+1 < len(f); i += 2 {
		id, _ := strconv.Atoi(f[i][1:])
		x, _ := strconv.Atoi(f[i+1])
		cut[e.log.thr[id].path] = x
	}
	return Sat, cut
}

// not excludes one cut.
func (e *enc) not(cut map[string]int) string {
	var l []string
	for _, t := range e.log.thr {
		l = append(l, fmt.Sprintf("(= %s %d)", e.v("c", t.id), cut[t.path]))
	}
	return "(not " + andOf(l) + ")"
}

// plan looks for an interleaving leading to the cut, the messages of every channel arriving in the order given
// by seq (the position of a message in its channel). It is a search in the space of cuts below.
func (e *enc) plan(cut map[string]int, seq func(p thrPos) int) []map[string]int {
	n := len(e.log.thr)
	goal := make([]int, n)
	for _, t := range e.log.thr {
		goal[t.id] = cut[t.path]
	}
	cnt := make([]int, n)
	type chst struct {
		q, sent int
		closed  bool
	}
	chs := map[int]*chst{}
	for _, ch := range e.order {
		chs[ch] = &chst{}
	}
	ctr := map[int]int{} // WaitGroups, locks
	rd := map[int]int{}
	dead := map[string]bool{}
	var path []int
	states := 0
	ready := func(t int) bool {
		l := e.log.thr[t]
		if cnt[t] >= goal[t] || l.parent >= 0 && cnt[l.parent] <= l.spawn {
			return false
		}
		ev := l.evs[cnt[t]]
		switch ev.kind {
		case evSend:
			s := chs[ev.obj]
			return !s.closed && s.q < ev.cap && (ev.zero || seq(thrPos{t, cnt[t]}) == s.sent+1)
		case evRecv:
			return chs[ev.obj].q > 0
		case evRecvClosed:
			return chs[ev.obj].closed && chs[ev.obj].q == 0
		case evClose:
			return !chs[ev.obj].closed
		case evWgWait:
			return ctr[ev.obj] == 0
		case evLock:
			return ctr[ev.obj] == 0 && rd[ev.obj] == 0
		case evRLock:
			return ctr[ev.obj] == 0
		}
		return true
	}
	step := func(t, d int) {
		if d < 0 {
			cnt[t]--
		}
		ev := e.log.thr[t].evs[cnt[t]]
		switch ev.kind {
		case evSend:
			chs[ev.obj].q += d
			chs[ev.obj].sent += d
		case evRecv:
			chs[ev.obj].q -= d
		case evClose:
			chs[ev.obj].closed = d > 0
		case evWgAdd:
			ctr[ev.obj] += d * ev.n
		case evLock:
			ctr[ev.obj] += d
		case evUnlock:
			ctr[ev.obj] -= d
		case evRLock:
			rd[ev.obj] += d
		case evRUnlock:
			rd[ev.obj] -= d
		}
		if d > 0 {
			cnt[t]++
		}
	}
	// partner of an unbuffered send
	meet := func(t int) []int {
		l := e.log.thr[t]
		if cnt[t] >= goal[t] || l.parent >= 0 && cnt[l.parent] <= l.spawn || l.evs[cnt[t]].kind != evSend || l.evs[cnt[t]].cap > 0 {
			return nil
		}
		ev := l.evs[cnt[t]]
		if chs[ev.obj].closed || !ev.zero && seq(thrPos{t, cnt[t]}) != chs[ev.obj].sent+1 {
			return nil
		}
		var r []int
		for u, x := range e.log.thr {
			if u != t && cnt[u] < goal[u] && (x.parent < 0 || cnt[x.parent] > x.spawn) && x.evs[cnt[u]].kind == evRecv && x.evs[cnt[u]].obj == ev.obj {
				r = append(r, u)
			}
		}
		return r
	}
	var search func() bool
	search = func() bool {
		done := true
		for t := range cnt {
			done = done && cnt[t] == goal[t]
		}
		if done {
			return true
		}
		states++
		if states > 200000 {
			return false
		}
		k := fmt.Sprint(cnt)
		if dead[k] {
			return false
		}
		for t := range cnt {
			if ready(t) {
				step(t, 1)
				path = append(path, t)
				if search() {
					return true
				}
				path = path[:len(path)-1]
				step(t, -1)
			}
			for _, u := range meet(t) {
				step(t, 1)
				step(u, 1)
				path = append(path, t, u)
				if search() {
					return true
				}
				path = path[:len(path)-2]
				step(u, -1)
				step(t, -1)
			}
		}
		dead[k] = true
		return false
	}
	if !search() {
		return nil
	}
	at := map[string]int{}
	for _, t := range e.log.thr {
		at[t.path] = 0
	}
	var res []map[string]int
	for i, t := range path {
		l := e.log.thr[t]
		ev := l.evs[at[l.path]]
		at[l.path]++
		if ev.cap == 0 && ev.kind == evSend && i+1 < len(path) {
			continue // together with its partner
		}
		c := map[string]int{}
		for p, n := range at {
			c[p] = n
		}
		res = append(res, c)
	}
	if len(res) == 0 {
		res = append(res, at)
	}
	return res
}

// bySeq is the order of messages of the execution analysed.
func (e *enc) bySeq(p thrPos) int { return e.ev(p).n }

// ---------- analysis of one execution

func descend(l *evLog, t, anc int) int { // index of the operation of anc that led to t, or -1
	for t >= 0 {
		p := l.thr[t].parent
		if p == anc {
			return l.thr[t].spawn
		}
		t = p
	}
	return -1
}

func (c *concAnalysis) add(r pathResult) {
	m := c.m
	l := m.log
	if l == nil || r.err != nil || r.leak != "" || l.bad != "" {
		if l != nil && l.bad != "" {
			c.note("interleavings not analysed: " + l.bad)
		}
		return
	}
	if l.note != "" {
		c.note(l.note)
	}
	trace := m.trace
	defer func() { m.trace, m.log = trace, l }()
	n := 0
	for _, t := range l.thr {
		n += len(t.evs)
	}
	c.stats.Logs++
	if len(l.thr) > c.stats.Threads {
		c.stats.Threads = len(l.thr)
	}
	if n > c.stats.Events {
		c.stats.Events = n
	}
	if len(l.thr) < 2 && len(l.inv) == 0 {
		return // a single goroutine: nothing to interleave
	}
	e := newEnc(l)
	if os.Getenv("GOSYM_V") != "" {
		for _, t := range l.thr {
			fmt.Fprintf(os.Stderr, "%s:", t.path)
			for _, ev := range t.evs {
				fmt.Fprintf(os.Stderr, " %s", ev.String())
			}
			fmt.Fprintln(os.Stderr)
		}
	}
	// the analysed execution itself must be one of the interleavings
	var end []string
	for _, t := range l.thr {
		end = append(end, fmt.Sprintf("(= %s %d)", e.v("c", t.id), len(t.evs)))
	}
	if v, _ := c.ask(e, andOf(end)); v != Sat {
		c.note("internal: the encoding excludes the execution it was made from")
		return
	}
	c.orders(e)
	// deadlock
	var st []string
	for _, t := range l.thr {
		st = append(st, e.stuck(t.id))
	}
	c.check(e, "no interleaving blocks forever", "(and (not "+andOf(end)+") "+andOf(st)+")", "deadlock", "", nil)
	// closed channels
	for _, ch := range e.order {
		if len(e.closes[ch]) == 0 {
			continue
		}
		var or []string
		for _, p := range e.sends[ch] {
			or = append(or, fmt.Sprintf("(and %s %s)", e.at("c", p), e.closed("c", ch)))
		}
		c.check(e, "no send on a closed channel", orOf(or), "panic", "send", e.sends[ch])
		or = nil
		for _, p := range e.closes[ch] {
			for _, q := range e.closes[ch] {
				if p != q {
					or = append(or, fmt.Sprintf("(and %s %s)", e.at("c", p), e.exec("c", q)))
				}
			}
		}
		if or != nil {
			c.check(e, "no close of a closed channel", orOf(or), "panic", "close", e.closes[ch])
		}
	}
	var neg []string
	for _, w := range e.wgs {
		neg = append(neg, fmt.Sprintf("(< %s 0)", e.counter("c", w)))
	}
	if neg != nil {
		c.check(e, "no WaitGroup counter is negative", orOf(neg), "panic", "", nil)
	}
	neg = nil
	for _, mu := range e.mus {
		neg = append(neg, fmt.Sprintf("(< %s 0)", e.held("c", mu, e.locks[mu])), fmt.Sprintf("(< %s 0)", e.held("c", mu, e.rlocks[mu])))
	}
	if neg != nil {
		c.check(e, "no unlock of an unlocked mutex", orOf(neg), "panic", "", nil)
	}
	for _, iv := range l.inv {
		c.check(e, iv.label, fmt.Sprintf("(> %s %d)", e.queued("c", iv.obj), iv.max), "reach", "", nil)
	}
	c.races(e)
}

func (ev event) String() string {
	s := evNames[ev.kind]
	switch ev.kind {
	case evSend, evRecv, evClose, evRecvClosed:
		s += ":" + ev.name
	case evWgAdd:
		s += fmt.Sprintf(":%d", ev.n)
	}
	return s
}

// check asks whether a bad cut exists, and steers the executor there.
func (c *concAnalysis) check(e *enc, label, cond, how, first string, at []thrPos) {
	c.m.stats.Obligs++
	c.m.stats.Labels[label]++
	if c.done[label] {
		return
	}
	what := ""
	for try := 0; try < 8; try++ {
		v, cut := c.ask(e, cond)
		if v == Unsat {
			c.m.stats.Discharged++
			return
		}
		if v == Unknown {
			c.note("undecided over all interleavings: " + label)
			return
		}
		fst := ""
		for _, p := range at {
			t := e.log.thr[p.t]
			if cut[t.path] == p.i && first != "" {
				fst = t.path
			}
		}
		way := e.plan(cut, e.bySeq)
		if how == "panic" && first == "" && way == nil {
			// the cut is beyond the panic
			way = []map[string]int{cut}
		}
		var ok bool
		if way != nil {
			if ok, what = c.steer(way, how, fst); ok {
				c.report(e, label, what, cut)
				return
			}
		}
		cond = "(and " + cond + " " + e.not(cut) + ")"
	}
	c.note("an interleaving the encoding allows could not be realised: " + label + ": " + what)
}

func (c *concAnalysis) report(e *enc, label, what string, cut map[string]int) {
	c.done[label] = true
	var sb strings.Builder
	for _, t := range e.log.thr {
		fmt.Fprintf(&sb, " %s after %d", t.path, cut[t.path])
		if n := cut[t.path]; n < len(t.evs) {
			fmt.Fprintf(&sb, " (next %s)", t.evs[n])
		}
		sb.WriteString(";")
	}
	o := &Oblig{Label: label, Verdict: Sat, Kind: "race", Sched: true, Msg: what + ":" + sb.String(), Cex: &Asg{F: map[string]fr.Element{}, B: map[string]bool{}, V: map[string]uint64{}}, Choices: map[string]int64{}, Confirmed: "the compiled code's SSA executed along that interleaving: " + what}
	for _, d := range c.m.trace {
		if d.kind != "branch" {
			o.Script = append(o.Script, d.pick)
		}
	}
	for k, v := range c.m.choices {
		o.Choices[k] = v
	}
	c.viol = append(c.viol, o)
	c.m.obligs = append(c.m.obligs, o)
}

// steer executes the harness up to the cut and on from there.
func (c *concAnalysis) steer(cuts []map[string]int, how, first string) (ok bool, what string) {
	m := c.m
	if cuts == nil {
		return false, "no way there"
	}
	c.stats.Guided++
	var prefix []int
	for _, d := range m.trace {
		prefix = append(prefix, d.pick)
	}
	obl := m.obligs
	trace, log, ch := m.trace, m.log, m.choices
	gd := &guide{cuts: cuts, first: first}
	m.guide = gd
	defer func() {
		m.guide = nil
		m.trace, m.log, m.choices = trace, log, ch
		m.obligs = obl
	}()
	m.resetPath(prefix)
	fn := m.p.fn("gkr-mimc/zz_verif/"+c.in.Pkg, c.in.Fn)
	r := m.execPath(func(g *Gor) {
		m.initAll(fn.Pkg)
		m.call(g, nil, fn, nil)
	})
	what = fmt.Sprint(r.err)
	switch how {
	case "reach":
		return gd.released && !gd.missed, "reached"
	case "deadlock":
		if d, is := r.err.(deadlock); is {
			return true, "deadlock: " + d.msg
		}
		if r.err == nil && r.leak != "" {
			return true, "goroutines blocked forever: " + r.leak
		}
	case "panic":
		if p, is := r.err.(targetPanic); is {
			return true, "panic: " + p.msg
		}
	}
	return false, what
}

func (c *concAnalysis) races(e *enc) {
	const label = "no two goroutines touch a memory cell at the same time, one of them writing"
	type acc struct {
		t, i int
		w    bool
		pos  token.Pos
	}
	l := e.log
	cells := map[interface{}][]acc{}
	for _, t := range l.thr {
		for i, s := range t.segs {
			for k, p := range s.wr {
				cells[k] = append(cells[k], acc{t.id, i, true, p})
			}
			for k, p := range s.rd {
				if _, w := s.wr[k]; !w {
					cells[k] = append(cells[k], acc{t.id, i, false, p})
				}
			}
		}
	}
	type pair struct{ a, b thrPos }
	found := map[[2]int]map[pair][2]token.Pos{}
	for _, as := range cells {
		any := false
		for _, a := range as {
			any = any || a.w && a.t != as[0].t || as[0].w && a.t != as[0].t || a.w && len(as) > 1
		}
		if !any {
			continue
		}
		for x := range as {
			for y := range as {
				a, b := as[x], as[y]
				if a.t >= b.t || !a.w && !b.w {
					continue
				}
				if s := descend(l, b.t, a.t); s >= 0 && a.i <= s {
					continue // before the goroutine exists
				}
				if a.i > len(l.thr[a.t].evs)-1 || b.i > len(l.thr[b.t].evs)-1 {
					continue // nothing follows the last operation
				}
				k := [2]int{a.t, b.t}
				if found[k] == nil {
					found[k] = map[pair][2]token.Pos{}
				}
				found[k][pair{thrPos{a.t, a.i}, thrPos{b.t, b.i}}] = [2]token.Pos{a.pos, b.pos}
			}
		}
	}
	var ks [][2]int
	for k := range found {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i][0] != ks[j][0] {
			return ks[i][0] < ks[j][0]
		}
		return ks[i][1] < ks[j][1]
	})
	c.m.stats.Obligs++
	c.m.stats.Labels[label]++
	if c.done[label] {
		return
	}
	bad := false
	var or []string
	for _, k := range ks {
		for p := range found[k] {
			or = append(or, fmt.Sprintf("(and %s %s)", e.at("c", p.a), e.at("c", p.b)))
			c.stats.Pairs++
		}
	}
	sort.Strings(or)
	cond := orOf(or)
	for try := 0; or != nil; try++ {
		v, cut := c.ask(e, cond)
		if v == Unsat {
			break
		}
		if v == Unknown {
			bad = true
			c.note("undecided over all interleavings: " + label)
			break
		}
		where := ""
		for _, k := range ks {
			for p, pos := range found[k] {
				if cut[l.thr[p.a.t].path] == p.a.i && cut[l.thr[p.b.t].path] == p.b.i {
					fs := c.m.p.prog.Fset
					where = fmt.Sprintf("goroutines %s (near %s) and %s (near %s)", l.thr[p.a.t].path, fs.Position(pos[0]), l.thr[p.b.t].path, fs.Position(pos[1]))
				}
			}
		}
		if way := e.plan(cut, e.bySeq); way != nil {
			if ok, _ := c.steer(way, "reach", ""); ok {
				bad = true
				c.report(e, label, "data race between "+where, cut)
				break
			}
		}
		if try == 8 {
			bad = true
			c.note("an interleaving the encoding allows could not be realised: " + label + ": " + where)
			break
		}
		cond = "(and " + cond + " " + e.not(cut) + ")"
	}
	if !bad {
		c.m.stats.Discharged++
	}
}

// orders looks for other orders in which data can arrive.
func (c *concAnalysis) orders(e *enc) {
	l := e.log
	// channels carrying data from several goroutines, by receiver
	cand := map[int]bool{}
	for _, ch := range e.order {
		if e.chans[ch].zero || len(e.recvs[ch]) == 0 {
			continue
		}
		for _, p := range e.sends[ch] {
			cand[ch] = cand[ch] || p.t != e.sends[ch][0].t
		}
		for _, p := range e.recvs[ch] {
			if p.t != e.recvs[ch][0].t {
				c.note("several goroutines receive data from one channel: only the explored assignment of messages to receivers is covered")
			}
		}
	}
	sendOf := func(ch, n int) (thrPos, bool) {
		for _, p := range e.sends[ch] {
			if e.ev(p).n == n {
				return p, true
			}
		}
		return thrPos{}, false
	}
	for _, t := range l.thr {
		var decs []arrDec
		var pos []thrPos
		for i, ev := range t.evs {
			if ev.kind != evRecv || !cand[ev.obj] {
				continue
			}
			sp, ok := sendOf(ev.obj, ev.n)
			if !ok {
				c.note("internal: a message without sender")
				return
			}
			d := arrDec{ev.name, l.thr[sp.t].path}
			var alts []arrOrder
			if t.path == c.recv && len(decs) < len(c.cur.decs) {
				// decided by an ancestor of this execution
				if d != c.cur.decs[len(decs)] {
					if os.Getenv("GOSYM_V") != "" {
						fmt.Fprintln(os.Stderr, "missed", d, c.cur.decs, c.cur.way)
					}
					c.note("an order of arrival the solver considered possible could not be realised")
					return
				}
			} else {
				alts = c.alternatives(e, t.id, i, ev, sp, pos)
			}
			if len(alts) > 0 && c.recv != "" && c.recv != t.path {
				c.note("data arrives in several orders at several goroutines: only the explored orders are covered")
				alts = nil
			}
			for _, alt := range alts {
				c.recv = t.path
				alt.decs = append(append([]arrDec(nil), decs...), alt.decs...)
				if key := fmt.Sprint(alt.decs); !c.seen[key] {
					c.seen[key] = true
					c.work = append(c.work, alt)
				}
			}
			decs = append(decs, d)
			pos = append(pos, sp)
		}
	}
}

// alternatives returns the goroutines that can deliver the message received by operation i of t instead, the
// messages before it having arrived as they did.
func (c *concAnalysis) alternatives(e *enc, t, i int, ev event, sp thrPos, before []thrPos) []arrOrder {
	var res []arrOrder
	tried := map[int]bool{sp.t: true}
	sends := append([]thrPos(nil), e.sends[ev.obj]...)
	sort.Slice(sends, func(a, b int) bool { return e.ev(sends[a]).n < e.ev(sends[b]).n })
	got := map[int]int{}
	for _, p := range before {
		got[e.ev(p).obj]++
	}
	for _, s := range sends {
		if e.ev(s).n <= ev.n || tried[s.t] {
			continue
		}
		tried[s.t] = true
		// received in the same goroutine: keep only the order of what was received before
		for ch, rs := range e.recvs {
			if !e.chans[ch].zero && len(rs) > 0 && rs[0].t == t {
				e.relax[ch] = got[ch]
			}
		}
		conds := []string{fmt.Sprintf("(= %s %d)", e.v("c", t), i), e.exec("c", s)}
		for _, o := range sends {
			if e.ev(o).n >= ev.n && o != s {
				conds = append(conds, "(not "+e.exec("c", o)+")")
			}
		}
		seq := func(p thrPos) int {
			if p == s {
				return ev.n
			}
			return e.ev(p).n
		}
		for try := 0; ; try++ {
			v, cut := c.ask(e, andOf(conds))
			if v == Unsat {
				break
			}
			if v == Unknown || try == 8 {
				c.note("undecided: other orders of arrival")
				break
			}
			if way := e.plan(cut, seq); way != nil {
				res = append(res, arrOrder{[]arrDec{{ev.name, e.log.thr[s.t].path}}, way})
				break
			}
			conds = append(conds, e.not(cut))
		}
		e.relax = map[int]int{}
	}
	return res
}
