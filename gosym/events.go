package main

import (
	"fmt"
	"go/token"
)

// Event logs: what each goroutine did, as a sequence of synchronisation operations with the memory cells
// touched between them. The interleaving analysis (conc.go) works on these.

type evKind int

const (
	evSpawn evKind = iota
	evEnd
	evSend
	evRecv
	evRecvClosed
	evClose
	evWgAdd
	evWgWait
	evLock
	evUnlock
	evRLock
	evRUnlock
	evBad
)

var evNames = [...]string{"spawn", "end", "send", "recv", "recv-closed", "close", "wg-add", "wg-wait", "lock", "unlock", "rlock", "runlock", "unmodelled"}

type event struct {
	kind evKind
	obj  int
	cap  int
	n    int
	zero bool
	name string
	seq  int // position among all events of the execution
	pos  token.Pos
}

type segment struct {
	rd, wr map[interface{}]token.Pos
}

type thrLog struct {
	id     int
	parent int
	spawn  int // index of the spawn event in the parent
	path   string
	nsp    int
	nch    int
	evs    []event
	segs   []*segment
}

type evLog struct {
	thr  []*thrLog
	bad  string
	note string
	nseq int
	inv  []invariant
}

// invariant: at no time are there more than max values in channel obj
type invariant struct {
	obj, max int
	label    string
}

func newSeg() *segment {
	return &segment{rd: map[interface{}]token.Pos{}, wr: map[interface{}]token.Pos{}}
}

func (l *evLog) newThread(g *Gor) *thrLog {
	t := &thrLog{id: len(l.thr), parent: -1, spawn: -1, segs: []*segment{newSeg()}}
	l.thr = append(l.thr, t)
	if g.par != nil && g.par.ev != nil {
		p := g.par.ev
		t.parent = p.id
		t.path = fmt.Sprintf("%s.%d", p.path, p.nsp)
		p.nsp++
		t.spawn = len(p.evs)
	} else {
		t.path = "main"
	}
	return t
}

func (l *evLog) event(g *Gor, e event) {
	t := g.ev
	e.seq, e.pos = l.nseq, g.pos
	l.nseq++
	t.evs = append(t.evs, e)
	t.segs = append(t.segs, newSeg())
}

func (l *evLog) access(g *Gor, addr *value, write bool) {
	switch v := (*addr).(type) {
	case structure:
		for i := range v {
			l.access(g, &v[i], write)
		}
		return
	case array:
		for i := range v {
			l.access(g, &v[i], write)
		}
		return
	}
	l.touch(g, addr, write)
}

func (l *evLog) touch(g *Gor, k interface{}, write bool) {
	s := g.ev.segs[len(g.ev.segs)-1]
	if write {
		s.wr[k] = g.pos
	} else {
		s.rd[k] = g.pos
	}
}
