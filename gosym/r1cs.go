package main

import (
	"encoding/gob"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/consensys/gurvy/bn256/fr"
	"golang.org/x/tools/go/ssa"
)

// Constraint systems. The harness package gad compiles a gadget of the repository to its constraints; they are
// imported here. Every constraint that introduces one new wire defines it, the others are assertions: the system
// accepts an assignment of its inputs exactly when all of them hold.

const gadPath = "gkr-mimc/zz_verif/gad"

// rawSystem is gad.Constraints.
type rawSystem struct {
	Wires, Inputs int
	Computed      int
	Coeffs        []string
	Rows          []uint32
	Panic         string
}

type system struct {
	once   sync.Once
	raw    rawSystem
	coeffs []fr.Element
	ncons  int
	dump   time.Duration
	err    error
}

type systems struct {
	mu  sync.Mutex
	m   map[string]*system
	nat func() *natRunner
	dir string
}

// stats of the systems imported during a run
func (s *systems) report() (l []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k, x := range s.m {
		if x.err == nil && x.raw.Panic == "" {
			l = append(l, fmt.Sprintf("%s: %d constraints (%d of them assertions), %d wires, %d inputs", k, x.ncons, x.ncons-x.raw.Computed, x.raw.Wires, x.raw.Inputs))
		}
	}
	return
}

func (s *systems) get(name string, p []int64) *system {
	key := name
	for _, x := range p {
		key += fmt.Sprintf(" %d", x)
	}
	s.mu.Lock()
	x := s.m[key]
	if x == nil {
		x = &system{}
		s.m[key] = x
	}
	s.mu.Unlock()
	x.once.Do(func() {
		t0 := time.Now()
		defer func() { x.dump = time.Since(t0) }()
		n := s.nat()
		if n.err != nil {
			x.err = n.err
			return
		}
		d, err := os.MkdirTemp(s.dir, "dump")
		if err != nil {
			x.err = err
			return
		}
		defer os.RemoveAll(d)
		f := filepath.Join(d, "system")
		args := []string{"-dump", f, name}
		for _, v := range p {
			args = append(args, fmt.Sprint(v))
		}
		out, err := exec.Command(n.bin, args...).CombinedOutput()
		if err != nil {
			x.err = fmt.Errorf("writing the constraints: %v %s", err, tail(string(out), 300))
			return
		}
		fd, err := os.Open(f)
		if err != nil {
			x.err = err
			return
		}
		defer fd.Close()
		if err := gob.NewDecoder(fd).Decode(&x.raw); err != nil {
			x.err = err
			return
		}
		for _, c := range x.raw.Coeffs {
			b, _ := new(big.Int).SetString(c, 10)
			var e fr.Element
			e.SetBigInt(new(big.Int).Mod(b, modP))
			x.coeffs = append(x.coeffs, e)
		}
	})
	return x
}

func gadIntrinsics() map[string]intrinsic {
	r := map[string]intrinsic{}
	r[gadPath+"..Sat"] = func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
		name := vxStr(a[0])
		var p []int64
		for _, x := range a[1].([]value) {
			p = append(p, x.(int64))
		}
		var in []*T
		for _, x := range a[2].([]value) {
			in = append(in, x.(Fe).t)
		}
		if m.p.sys == nil {
			unsup("constraint systems are not available")
		}
		s := m.p.sys.get(name, p)
		if s.err != nil {
			unsup("%v", s.err)
		}
		if s.raw.Panic != "" {
			rtPanic("%s", s.raw.Panic)
		}
		var key strings.Builder
		fmt.Fprint(&key, name, p, len(m.known), m.stubHash)
		for _, t := range in {
			fmt.Fprintf(&key, " %d", t.id)
		}
		b := m.satMemo[key.String()]
		if b == nil {
			b = m.importSystem(s, in)
			m.satMemo[key.String()] = b
		}
		return m.fromB(b), true
	}
	r[gadPath+"..Know"] = func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
		if !m.stubHash {
			return tuple{}, true
		}
		sl := a[0].([]value)
		var key strings.Builder
		for i := range sl {
			fmt.Fprintf(&key, "%d ", m.toFe(m.load(g, &sl[i])).t.id)
		}
		if m.knownMemo[key.String()] {
			return tuple{}, true
		}
		m.knownMemo[key.String()] = true
		hf := m.p.fn("gkr-mimc/hash", "MimcHash")
		m.stubHash = false
		h := m.call(g, nil, hf, []value{sl}).(Fe).t
		m.stubHash = true
		app := m.call(g, nil, hf, []value{sl}).(Fe).t
		// the innermost step of the hash is its deepest product
		var top *T
		if h.kind == kSum {
			for i, x := range h.args {
				if h.coefs[i].Equal(&m.st.one.c) && (top == nil || x.depth > top.depth) {
					top = x
				}
			}
		} else if h.kind == kMono {
			top = h
		}
		if top != nil && top.kind == kMono {
			m.known[top] = m.st.Sub(app, m.st.Sub(h, top))
		}
		return tuple{}, true
	}
	r[gadPath+"..Value"] = func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
		v := a[0].(structure)[0].(structure)[2].(iface)
		if v.t == nil {
			return tuple{Fe{m.st.zero}, false}, true
		}
		f, ok := v.v.(Fe)
		if !ok {
			unsup("a variable is assigned a %s", v.t)
		}
		return tuple{f, true}, true
	}
	return r
}

// importSystem is the condition under which a constraint system accepts its inputs.
func (m *Machine) importSystem(s *system, in []*T) *B {
	st := m.st
	if len(in) != s.raw.Inputs {
		rtPanic("a constraint system with %d inputs is given %d", s.raw.Inputs, len(in))
	}
	w := make([]*T, s.raw.Wires)
	n0 := s.raw.Wires - 1 - s.raw.Inputs
	copy(w[n0:], in)
	w[s.raw.Wires-1] = st.one
	known := n0
	for i := 0; i < n0; i++ {
		if w[i] == nil {
			known--
		}
	}
	var conds []*B
	rows := s.raw.Rows
	pos := 0
	ncons := 0
	// pending are constraints with several unknown wires
	for pos < len(rows) {
		var val [3]*T
		unk, unkPart := -1, -1
		var unkC fr.Element
		multi := false
		for k := 0; k < 3; k++ {
			n := int(rows[pos])
			pos++
			var ts []*T
			for j := 0; j < n; j++ {
				c, id := rows[pos], int(rows[pos+1])
				pos += 2
				co := &s.coeffs[c]
				if co.IsZero() {
					continue
				}
				if w[id] == nil {
					if unk >= 0 && (unk != id || unkPart != k) {
						multi = true
					}
					if unk != id {
						unkC = fr.Element{}
					}
					unk, unkPart = id, k
					unkC.Add(&unkC, co)
					continue
				}
				ts = append(ts, st.Scale(w[id], co))
			}
			val[k] = st.AddMany(ts)
		}
		ncons++
		m.steps++
		if ncons&0xfff == 0 {
			m.tick()
		}
		switch {
		case multi || unk >= 0 && unkC.IsZero():
			unsup("a constraint does not define its wire")
		case unk < 0:
			conds = append(conds, st.FEq(st.Mul(val[0], val[1]), val[2]))
		case unkPart == 2:
			// L*R = rest + c*w
			var inv fr.Element
			inv.Inverse(&unkC)
			w[unk] = st.Scale(st.Sub(st.Mul(val[0], val[1]), val[2]), &inv)
			if k, ok := m.known[w[unk]]; ok {
				w[unk] = k
			}
			known++
		default:
			// (rest + c*w)*R = O where R must not vanish
			o := val[1-unkPart]
			if o.kind != kConst || o.c.IsZero() {
				unsup("a constraint divides by a value that may vanish")
			}
			k := o.c
			k.Inverse(&k)
			var inv fr.Element
			inv.Inverse(&unkC)
			w[unk] = st.Scale(st.Sub(st.Scale(val[2], &k), val[unkPart]), &inv)
			known++
		}
	}
	if known != n0 {
		unsup("%d internal wires are not determined", n0-known)
	}
	s.ncons = ncons
	return st.And(conds...)
}

func hasGad(p *Program) bool {
	for _, sp := range p.prog.AllPackages() {
		if strings.HasPrefix(sp.Pkg.Path(), gadPath) {
			return true
		}
	}
	return false
}
