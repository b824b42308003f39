package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines are coroutines: exactly one runs at a time; control moves only at blocking operations (and at
// explicit preemption points while scheduling deviations are left).

type Gor struct {
	id     int
	depth  int
	pos    token.Pos
	resume chan struct{}
	ready  func() bool // nil: runnable
	why    string
	done   bool
	parent int
	par    *Gor
	ev     *thrLog
	name   string
}

type Chan struct {
	id     int
	name   string
	zero   bool // zero-size payload
	nsend  int
	nrecv  int
	cap    int
	buf    []value
	sendq  []*pendSend
	rwait  int
	closed bool
}

type pendSend struct {
	v     value
	seq   int
	taken bool
}

type killed struct{}

type deadlock struct{ msg string }

func (m *Machine) newChan(g *Gor, n int, zero bool) *Chan {
	m.chans++
	c := &Chan{id: m.chans, cap: n, zero: zero}
	if g.ev != nil {
		c.name = fmt.Sprintf("%s#%d", g.ev.path, g.ev.nch)
		g.ev.nch++
	}
	return c
}

func (c *Chan) event(k evKind, n int) event {
	return event{kind: k, obj: c.id, cap: c.cap, n: n, zero: c.zero, name: c.name}
}

func (m *Machine) newGor(parent *Gor) *Gor {
	g := &Gor{id: m.gid, resume: make(chan struct{}, 1)}
	m.gid++
	if parent != nil {
		g.parent = parent.id
		g.par = parent
	}
	m.gors = append(m.gors, g)
	if m.log != nil {
		g.ev = m.log.newThread(g)
	}
	return g
}

func (m *Machine) spawn(g *Gor, fn value, args []value) {
	m.noSpec("go")
	m.gateEv(g)
	ng := m.newGor(g)
	ng.name = fnName(fn)
	if m.log != nil {
		m.log.event(g, event{kind: evSpawn, obj: ng.ev.id})
	}
	go func() {
		<-ng.resume
		defer func() {
			r := recover()
			ng.done = true
			m.removeGor(ng)
			if _, ok := r.(killed); ok {
				m.killAck <- struct{}{}
				return
			}
			if r != nil {
				m.finish(pathResult{err: r, gor: ng})
				return
			}
			if m.log != nil {
				m.log.event(ng, event{kind: evEnd})
			}
			m.handOff()
		}()
		if m.dead {
			panic(killed{})
		}
		m.call(ng, nil, fn, args)
		m.gateEv(ng)
	}()
	m.preempt(g)
}

func fnName(fn value) string {
	switch f := fn.(type) {
	case *ssa.Function:
		return f.String()
	case *closure:
		return f.fn.String()
	}
	return "?"
}

func (m *Machine) removeGor(g *Gor) {
	for i, x := range m.gors {
		if x == g {
			m.gors = append(append([]*Gor(nil), m.gors[:i]...), m.gors[i+1:]...)
			return
		}
	}
}

// readyList returns the runnable goroutines in queue order.
func (m *Machine) readyList() []*Gor {
	var l []*Gor
	for _, g := range m.gors {
		if g.ready == nil || g.ready() {
			l = append(l, g)
		}
	}
	return l
}

func (m *Machine) pickNext() *Gor {
	l := m.readyList()
	for len(l) == 0 && m.guide != nil && !m.guide.released {
		m.guide.release(m)
		l = m.readyList()
	}
	if len(l) == 0 {
		return nil
	}
	i := 0
	if len(l) > 1 {
		m.schedPts++
		if m.deviate > 0 && m.schedPts <= m.cfg.SchedWindow {
			i = m.decide(len(l), "sched")
			if i > 0 {
				m.deviate--
				m.stats.SchedForks++
			}
		}
	}
	g := l[i]
	// move to the back of the queue
	m.removeGor(g)
	m.gors = append(m.gors, g)
	return g
}

func (m *Machine) describeBlocked() string {
	s := ""
	for _, g := range m.gors {
		s += fmt.Sprintf("[goroutine %d %s: %s] ", g.id, g.name, g.why)
	}
	return s
}

// handOff passes control on after a goroutine ended.
func (m *Machine) handOff() {
	var n *Gor
	func() {
		defer func() {
			if r := recover(); r != nil {
				m.finish(pathResult{err: r})
				n = nil
				m.dead = true
			}
		}()
		n = m.pickNext()
	}()
	if n == nil {
		if m.dead {
			return
		}
		if m.draining {
			m.finish(pathResult{})
			return
		}
		m.finish(pathResult{err: deadlock{m.describeBlocked()}})
		return
	}
	m.cur = n
	n.resume <- struct{}{}
}

func (m *Machine) finish(r pathResult) {
	m.pathEnd <- r
}

// block suspends g until ready holds.
func (m *Machine) block(g *Gor, why string, ready func() bool) {
	if ready() {
		return
	}
	m.noSpec("blocking operation")
	g.ready, g.why = ready, why
	m.yieldTo(g)
	g.ready, g.why = nil, ""
}

func (m *Machine) yieldTo(g *Gor) {
	n := m.pickNext()
	if n == nil {
		if m.draining {
			m.finish(pathResult{})
		} else {
			m.finish(pathResult{err: deadlock{m.describeBlocked()}})
		}
	} else if n == g {
		return
	} else {
		m.cur = n
		n.resume <- struct{}{}
	}
	<-g.resume
	if m.dead {
		panic(killed{})
	}
}

// preempt is a possible context switch.
func (m *Machine) preempt(g *Gor) {
	if m.deviate > 0 && m.cfg.Preempt && len(m.spec) == 0 && len(m.gors) > 1 {
		m.schedPts++
		if m.schedPts > m.cfg.SchedWindow {
			return
		}
		if m.decide(2, "preempt") == 1 {
			m.deviate--
			m.stats.SchedForks++
			l := m.readyList()
			for _, n := range l {
				if n != g {
					m.removeGor(n)
					m.gors = append(m.gors, n)
					m.cur = n
					n.resume <- struct{}{}
					<-g.resume
					if m.dead {
						panic(killed{})
					}
					return
				}
			}
		}
	}
}

func (m *Machine) chanSend(g *Gor, c *Chan, v value) {
	m.noSpec("send")
	m.gateEv(g)
	m.preempt(g)
	if c == nil {
		m.block(g, "send on nil channel", func() bool { return false })
	}
	if c.closed {
		panic(targetPanic{iface{types.Typ[types.String], "send on closed channel"}, "send on closed channel"})
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		c.nsend++
		if m.log != nil {
			m.log.event(g, c.event(evSend, c.nsend))
		}
		return
	}
	c.nsend++
	p := &pendSend{v: v, seq: c.nsend}
	c.sendq = append(c.sendq, p)
	m.block(g, fmt.Sprintf("send on channel %d (cap %d)", c.id, c.cap), func() bool { return p.taken || c.closed })
	if !p.taken {
		panic(targetPanic{iface{types.Typ[types.String], "send on closed channel"}, "send on closed channel"})
	}
	if m.log != nil {
		m.log.event(g, c.event(evSend, p.seq))
	}
}

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (c *Chan) take() (value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]value(nil), c.buf[1:]...)
		if len(c.sendq) > 0 {
			p := c.sendq[0]
			c.sendq = c.sendq[1:]
			p.taken = true
			c.buf = append(c.buf, p.v)
		}
		return v, true
	}
	if len(c.sendq) > 0 {
		p := c.sendq[0]
		c.sendq = c.sendq[1:]
		p.taken = true
		return p.v, true
	}
	return nil, false
}

func (m *Machine) chanRecv(g *Gor, c *Chan) (value, bool) {
	m.noSpec("receive")
	m.gateEv(g)
	m.preempt(g)
	if c == nil {
		m.block(g, "receive from nil channel", func() bool { return false })
	}
	c.rwait++
	m.block(g, fmt.Sprintf("receive on channel %d", c.id), c.canRecv)
	c.rwait--
	v, ok := c.take()
	if m.log != nil {
		if ok {
			c.nrecv++
			m.log.event(g, c.event(evRecv, c.nrecv))
		} else {
			m.log.event(g, c.event(evRecvClosed, 0))
		}
	}
	return v, ok
}

func (m *Machine) chanClose(g *Gor, c *Chan) {
	m.noSpec("close")
	m.gateEv(g)
	m.preempt(g)
	if c == nil {
		panic(targetPanic{iface{types.Typ[types.String], "close of nil channel"}, "close of nil channel"})
	}
	if c.closed {
		panic(targetPanic{iface{types.Typ[types.String], "close of closed channel"}, "close of closed channel"})
	}
	c.closed = true
	if m.log != nil {
		m.log.event(g, c.event(evClose, 0))
	}
}

func compileSelect(fi *fnInfo, in *ssa.Select, dst int) func(m *Machine, fr *frame) {
	type scase struct {
		send bool
		ch   opnd
		v    *opnd
		et   types.Type
	}
	var cs []scase
	for _, s := range in.States {
		c := scase{send: s.Dir == types.SendOnly, ch: fi.op(s.Chan), et: under(s.Chan.Type()).(*types.Chan).Elem()}
		if c.send {
			c.v = fi.op2(s.Send)
		}
		cs = append(cs, c)
	}
	return func(m *Machine, fr *frame) {
		m.noSpec("select")
		g := fr.g
		if m.log != nil {
			m.log.bad = "select statement"
		}
		m.preempt(g)
		chs := make([]*Chan, len(cs))
		for i := range cs {
			chs[i] = cs[i].ch.get(m, fr).(*Chan)
		}
		rdy := func() []int {
			var l []int
			for i, c := range chs {
				if c == nil {
					continue
				}
				if cs[i].send {
					if c.closed || len(c.buf) < c.cap || (c.cap == 0 && c.rwait > 0) {
						l = append(l, i)
					}
				} else if c.canRecv() {
					l = append(l, i)
				}
			}
			return l
		}
		l := rdy()
		pick := -1
		if len(l) == 0 && in.Blocking {
			for _, c := range chs {
				if c != nil {
					c.rwait++
				}
			}
			m.block(g, "select", func() bool { return len(rdy()) > 0 })
			for _, c := range chs {
				if c != nil {
					c.rwait--
				}
			}
			l = rdy()
		}
		if len(l) > 0 {
			pick = l[m.decide(len(l), "select")]
		}
		res := tuple{int64(pick), false}
		for i := range cs {
			if cs[i].send {
				if i == pick {
					m.chanSend(g, chs[i], copyVal(cs[i].v.get(m, fr)))
				}
				continue
			}
			v := m.zero(cs[i].et)
			if i == pick {
				x, ok := m.chanRecv(g, chs[i])
				if ok {
					v = x
				}
				res[1] = ok
			}
			res = append(res, v)
		}
		fr.env[dst] = res
	}
}

// ---------- path execution

// RunCfg bounds one exploration.
type RunCfg struct {
	MaxSteps      int64
	BranchTimeout duration
	ProveTimeout  duration
	NoMerge       bool
	Deviations    int
	SchedWindow   int
	Preempt       bool
	StubHash      bool
	LogEvents     bool
	Params        map[string]int64
	MaxPaths      int
	AllowLeak     bool
	MaxOrders     int   // orders of data arrival executed
	Pin           *Asg  // concrete re-execution under these inputs
	Script        []int // with these scheduling decisions
}

// execPath runs body as the main goroutine of a fresh path.
func (m *Machine) execPath(body func(g *Gor)) pathResult {
	m.gors = nil
	m.gid = 0
	m.dead = false
	m.draining = false
	m.chans = 0
	m.pathEnd = make(chan pathResult, 4)
	m.killAck = make(chan struct{}, 64)
	g := m.newGor(nil)
	g.name = "main"
	m.cur = g
	go func() {
		<-g.resume
		defer func() {
			r := recover()
			g.done = true
			m.removeGor(g)
			if _, ok := r.(killed); ok {
				m.killAck <- struct{}{}
				return
			}
			if r != nil {
				m.finish(pathResult{err: r, gor: g})
				return
			}
			if m.log != nil {
				m.log.event(g, event{kind: evEnd})
			}
			// let the other goroutines finish
			m.draining = true
			m.handOff()
		}()
		body(g)
		m.gateEv(g)
	}()
	g.resume <- struct{}{}
	r := <-m.pathEnd
	if r.err == nil && len(m.gors) > 0 {
		r.leak = m.describeBlocked()
	}
	// kill what is left
	m.dead = true
	for _, x := range append([]*Gor(nil), m.gors...) {
		if x.done || x == r.gor {
			continue
		}
		x.resume <- struct{}{}
		<-m.killAck
	}
	m.spec = nil
	return r
}

// gateEv lets a guided execution hold a goroutine back before its next synchronisation operation.
func (m *Machine) gateEv(g *Gor) {
	gd := m.guide
	if m.log == nil || gd == nil || gd.released || g.ev == nil {
		return
	}
	for st := gd.stage; !gd.released; st = gd.stage {
		n, ok := gd.cuts[st][g.ev.path]
		if !ok || len(g.ev.evs) < n {
			return
		}
		m.block(g, "held back", func() bool { return gd.stage != st })
	}
}
