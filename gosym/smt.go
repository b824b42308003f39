package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/consensys/gurvy/bn256/fr"
)

// Verdict of a solver query.
type Verdict int

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

func (v Verdict) String() string { return [...]string{"unsat", "sat", "unknown"}[v] }

// Solver drives one persistent z3-new process.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	lines   chan string
	Queries int
	NUnsat  int
	NSat    int
	NUnk    int
	Time    time.Duration
	MaxT    time.Duration
	Log     io.Writer
	errs    []string
	memMB   int
	base    bool        // the field is declared and one scope is open
	over    func() bool // the time is over: nothing is asked any more
}

const ffSort = "(_ FiniteField 21888242871839275222246405745257275088548364400416034343698204186575808495617)"

func (s *Solver) start() error {
	s.cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:3000", "smt.ff.max_terms=1000000", "smt.ff.max_steps=2000000000", "smt.ff.compact_encoding=false")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	lines := make(chan string, 1024)
	s.lines = lines
	go func() {
		r := bufio.NewReaderSize(o, 1<<20)
		for {
			l, err := r.ReadString('\n')
			if l != "" {
				lines <- strings.TrimRight(l, "\n")
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
		s.base = false
	}
}

// run sends a self-contained script and returns its output lines.
func (s *Solver) run(script string, timeout time.Duration) ([]string, bool) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			panic("cannot start z3-new: " + err.Error())
		}
	}
	if strings.HasPrefix(script, "(reset)") {
		s.base = false
	}
	if s.Log != nil {
		fmt.Fprintf(s.Log, ";;;;; query\n%s\n", script)
	}
	go func(in io.Writer) { io.WriteString(in, script+"\n(echo \"@@done\")\n") }(s.in)
	var res []string
	t := time.NewTimer(timeout)
	defer t.Stop()
	for {
		select {
		case l, ok := <-s.lines:
			if !ok {
				s.Close()
				return res, false
			}
			if l == "@@done" {
				return res, true
			}
			res = append(res, l)
		case <-t.C:
			s.Close()
			return res, false
		}
	}
}

// Query describes one satisfiability question.
type Query struct {
	Asserts []*B
	Pin     *Asg // pin every free input (and every UF application) to these values
	Eval    *evaluator
	Cut     map[*T]bool // terms replaced by arbitrary values
	DefLvl  int         // how many levels of named definitions to include (-1 = all)
	Named   bool
	Timeout time.Duration
	Want    bool // get a model
}

// Model is a solver model for inputs.
type Model = Asg

type emitter struct {
	st    *Store
	sb    strings.Builder
	tdone map[*T]bool
	bdone map[*B]bool
	vdone map[*V]bool
	uses  map[*T]int
	named bool
	lvl   int
	defq  []*T // named vars whose definitions were not yet expanded
	defd  map[*T]int
	fvars []*T
	apps  []*T
	bvars []*B
	vvars []*V
	pinE  *evaluator
	useFF bool
	cut   map[*T]bool
}

func ffc(e *fr.Element) string {
	x := *e
	var b big.Int
	x.ToBigIntRegular(&b)
	return "(as ff" + b.String() + " F)"
}

func (e *emitter) tref(t *T) string {
	switch t.kind {
	case kConst:
		return ffc(&t.c)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (e *emitter) define(id string, body string) {
	if e.named {
		fmt.Fprintf(&e.sb, "(declare-const %s F)(assert (= %s %s))\n", id, id, body)
	} else {
		fmt.Fprintf(&e.sb, "(define-fun %s () F %s)\n", id, body)
	}
}

func (e *emitter) term(t *T) {
	if t.kind == kConst || e.tdone[t] {
		return
	}
	e.tdone[t] = true
	e.useFF = true
	if e.cut[t] {
		fmt.Fprintf(&e.sb, "(declare-const t%d F) ; cut\n", t.id)
		return
	}
	switch t.kind {
	case kVar:
		fmt.Fprintf(&e.sb, "(declare-const t%d F) ; %s\n", t.id, t.name)
		if t.def != nil {
			e.defq = append(e.defq, t)
		} else {
			e.fvars = append(e.fvars, t)
		}
		if e.pinE != nil {
			v := e.pinE.term(t)
			fmt.Fprintf(&e.sb, "(assert (= t%d %s))\n", t.id, ffc(&v))
		}
	case kApp:
		fmt.Fprintf(&e.sb, "(declare-const t%d F) ; app %s\n", t.id, t.name)
		e.apps = append(e.apps, t)
		if e.pinE != nil {
			v := e.pinE.term(t)
			fmt.Fprintf(&e.sb, "(assert (= t%d %s))\n", t.id, ffc(&v))
		}
	case kInv:
		e.term(t.args[0])
		a := e.tref(t.args[0])
		fmt.Fprintf(&e.sb, "(declare-const t%d F)(assert (ite (= %s (as ff0 F)) (= t%d (as ff0 F)) (= (ff.mul %s t%d) (as ff1 F))))\n", t.id, a, t.id, a, t.id)
		if e.pinE != nil {
			v := e.pinE.term(t)
			fmt.Fprintf(&e.sb, "(assert (= t%d %s))\n", t.id, ffc(&v))
		}
	case kIte:
		e.bool(t.cond)
		e.term(t.args[0])
		e.term(t.args[1])
		e.define(fmt.Sprintf("t%d", t.id), fmt.Sprintf("(ite %s %s %s)", e.bref(t.cond), e.tref(t.args[0]), e.tref(t.args[1])))
	case kSum:
		for _, m := range t.args {
			e.term(m)
		}
		var parts []string
		if !t.c.IsZero() {
			parts = append(parts, ffc(&t.c))
		}
		for i, m := range t.args {
			if t.coefs[i].Equal(&e.st.one.c) {
				parts = append(parts, e.tref(m))
			} else {
				parts = append(parts, "(ff.mul "+ffc(&t.coefs[i])+" "+e.tref(m)+")")
			}
		}
		body := parts[0]
		if len(parts) > 1 {
			body = "(ff.add " + strings.Join(parts, " ") + ")"
		}
		e.define(fmt.Sprintf("t%d", t.id), body)
	case kMono:
		for _, m := range t.args {
			e.term(m)
		}
		var parts []string
		for i, m := range t.args {
			for k := uint64(0); k < t.exps[i]; k++ {
				parts = append(parts, e.tref(m))
			}
		}
		e.define(fmt.Sprintf("t%d", t.id), "(ff.mul "+strings.Join(parts, " ")+")")
	}
}

func (e *emitter) bref(b *B) string {
	switch b.kind {
	case bConst:
		return fmt.Sprint(b.val)
	}
	return fmt.Sprintf("b%d", b.id)
}

func (e *emitter) bool(b *B) {
	if b.kind == bConst || e.bdone[b] {
		return
	}
	e.bdone[b] = true
	var body string
	switch b.kind {
	case bVar:
		fmt.Fprintf(&e.sb, "(declare-const b%d Bool) ; %s\n", b.id, b.name)
		e.bvars = append(e.bvars, b)
		if e.pinE != nil {
			fmt.Fprintf(&e.sb, "(assert (= b%d %v))\n", b.id, e.pinE.bool(b))
		}
		return
	case bFEq:
		e.term(b.t)
		body = fmt.Sprintf("(= %s (as ff0 F))", e.tref(b.t))
		// write a - b = 0 as it is; the solver normalises
	case bNot:
		e.bool(b.args[0])
		body = "(not " + e.bref(b.args[0]) + ")"
	case bAnd, bOr:
		var l []string
		for _, a := range b.args {
			e.bool(a)
			l = append(l, e.bref(a))
		}
		op := "and"
		if b.kind == bOr {
			op = "or"
		}
		body = "(" + op + " " + strings.Join(l, " ") + ")"
	case bBV:
		e.bv(b.x)
		e.bv(b.y)
		body = fmt.Sprintf("(%s %s %s)", b.op, e.vref(b.x), e.vref(b.y))
	}
	fmt.Fprintf(&e.sb, "(define-fun b%d () Bool %s)\n", b.id, body)
}

func (e *emitter) vref(v *V) string {
	if v.op == "const" {
		return fmt.Sprintf("(_ bv%d %d)", v.u, v.w)
	}
	return fmt.Sprintf("w%d", v.id)
}

func (e *emitter) bv(v *V) {
	if v.op == "const" || e.vdone[v] {
		return
	}
	e.vdone[v] = true
	for _, a := range v.args {
		e.bv(a)
	}
	var body string
	switch v.op {
	case "var", "limb":
		fmt.Fprintf(&e.sb, "(declare-const w%d (_ BitVec %d)) ; %s\n", v.id, v.w, v.name)
		if v.op == "var" {
			e.vvars = append(e.vvars, v)
		}
		if e.pinE != nil {
			fmt.Fprintf(&e.sb, "(assert (= w%d (_ bv%d %d)))\n", v.id, e.pinE.bv(v), v.w)
		}
		return
	case "ite":
		e.bool(v.cond)
		body = fmt.Sprintf("(ite %s %s %s)", e.bref(v.cond), e.vref(v.args[0]), e.vref(v.args[1]))
	case "trunc":
		body = fmt.Sprintf("((_ extract %d 0) %s)", v.w-1, e.vref(v.args[0]))
	case "zext":
		body = fmt.Sprintf("((_ zero_extend %d) %s)", v.w-v.args[0].w, e.vref(v.args[0]))
	case "sext":
		body = fmt.Sprintf("((_ sign_extend %d) %s)", v.w-v.args[0].w, e.vref(v.args[0]))
	default:
		body = fmt.Sprintf("(%s %s %s)", v.op, e.vref(v.args[0]), e.vref(v.args[1]))
	}
	fmt.Fprintf(&e.sb, "(define-fun w%d () (_ BitVec %d) %s)\n", v.id, v.w, body)
}

// Ask discharges one query.
func (s *Solver) Ask(st *Store, q *Query) (Verdict, *Model) {
	if s.over != nil && s.over() {
		return Unknown, nil
	}
	e := &emitter{st: st, tdone: map[*T]bool{}, bdone: map[*B]bool{}, vdone: map[*V]bool{}, named: q.Named, pinE: q.Eval, cut: q.Cut}
	for _, b := range q.Asserts {
		e.bool(b)
		fmt.Fprintf(&e.sb, "(assert %s)\n", e.bref(b))
	}
	lvl := 0
	for len(e.defq) > 0 && (q.DefLvl < 0 || lvl < q.DefLvl) {
		cur := e.defq
		e.defq = nil
		for _, v := range cur {
			e.term(v.def)
			fmt.Fprintf(&e.sb, "(assert (= t%d %s))\n", v.id, e.tref(v.def))
		}
		lvl++
	}
	truncated := len(e.defq) > 0 || len(q.Cut) > 0
	to := q.Timeout
	if to == 0 {
		to = 5 * time.Second
	}
	body := e.sb.String() + "(check-sat)\n"
	base := fmt.Sprintf("(define-sort F () %s)\n", ffSort)
	t0 := time.Now()
	once := func(script string, to time.Duration) Verdict {
		out, ok := s.run(script, to+2*time.Second)
		if !ok {
			return Unknown
		}
		v := Unknown
		for _, l := range out {
			switch l {
			case "unsat":
				v = Unsat
			case "sat":
				v = Sat
			}
			if strings.Contains(l, "error") {
				s.errs = append(s.errs, l)
				if len(s.errs) < 4 {
					fmt.Fprintln(os.Stderr, "z3 error:", l)
				}
				return Unknown
			}
		}
		return v
	}
	// first in a scope of the running solver (declaring the field again for every query costs far more than
	// most queries), then from scratch
	first := to / 4
	if first < 500*time.Millisecond {
		first = 500 * time.Millisecond
	}
	if first > to {
		first = to
	}
	head := "(pop)\n(push)\n"
	if !s.base || s.Queries%2000 == 1999 {
		head = "(reset)\n" + base + "(push)\n"
	}
	v := once(fmt.Sprintf("%s(set-option :timeout %d)\n%s", head, first.Milliseconds(), body), first)
	s.base = s.cmd != nil
	if v == Unknown {
		v = once(fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s%s", to.Milliseconds(), base, body), to)
		s.base = false
	}
	d := time.Since(t0)
	s.Queries++
	s.Time += d
	if d > s.MaxT {
		s.MaxT = d
	}
	var m *Model
	if v == Sat && truncated {
		v = Unknown // only valid for the generalised question
	}
	if v == Sat && q.Want {
		m = s.model(e, to)
	}
	switch v {
	case Unsat:
		s.NUnsat++
	case Sat:
		s.NSat++
	default:
		s.NUnk++
	}
	return v, m
}

func (s *Solver) model(e *emitter, to time.Duration) *Model {
	m := &Model{F: map[string]fr.Element{}, B: map[string]bool{}, V: map[string]uint64{}}
	if len(e.fvars)+len(e.bvars)+len(e.vvars) == 0 {
		return m
	}
	var sc strings.Builder
	sc.WriteString("(get-value (")
	for _, t := range e.fvars {
		fmt.Fprintf(&sc, "t%d ", t.id)
	}
	for _, t := range e.bvars {
		fmt.Fprintf(&sc, "b%d ", t.id)
	}
	for _, t := range e.vvars {
		fmt.Fprintf(&sc, "w%d ", t.id)
	}
	sc.WriteString("))")
	out, ok := s.run(sc.String(), to+5*time.Second)
	if !ok {
		return nil
	}
	txt := strings.NewReplacer("(", " ( ", ")", " ) ").Replace(strings.Join(out, " "))
	toks := strings.Fields(txt)
	val := map[string]string{}
	for i := 0; i+1 < len(toks); i++ {
		tk := toks[i]
		if len(tk) > 1 && (tk[0] == 't' || tk[0] == 'b' || tk[0] == 'w') && tk[1] >= '0' && tk[1] <= '9' {
			nx := toks[i+1]
			if nx == "(" && i+3 < len(toks) { // (as ffN F)
				nx = toks[i+3]
			}
			val[tk] = nx
		}
	}
	for _, t := range e.fvars {
		str := val[fmt.Sprintf("t%d", t.id)]
		b, ok := parseFF(str)
		if !ok {
			continue
		}
		var el fr.Element
		el.SetBigInt(new(big.Int).Mod(b, modP))
		m.F[t.name] = el
	}
	for _, b := range e.bvars {
		m.B[b.name] = val[fmt.Sprintf("b%d", b.id)] == "true"
	}
	for _, v := range e.vvars {
		str := val[fmt.Sprintf("w%d", v.id)]
		var b big.Int
		if strings.HasPrefix(str, "#x") {
			b.SetString(str[2:], 16)
		} else if strings.HasPrefix(str, "#b") {
			b.SetString(str[2:], 2)
		} else {
			continue
		}
		m.V[v.name] = b.Uint64()
	}
	return m
}

func parseFF(s string) (*big.Int, bool) {
	s = strings.TrimPrefix(s, "#f")
	s = strings.TrimPrefix(s, "ff")
	if i := strings.IndexByte(s, 'm'); i >= 0 {
		s = s[:i]
	}
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, false
	}
	return b.Mod(b, modP), true
}
