package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/consensys/gurvy/bn256/fr"
)

// The executor keeps field values in a normal form. Every operation that produces a new term records the identity
// it used, operation(operands) = normal form, over the monomials or factors of the terms as free variables; the
// identities, up to renaming of the variables, are then discharged by the solver. With them, obligations whose two
// sides have the same normal form do not rest on the executor's algebra.

const (
	lemmaWidth = 40    // identities over more variables are counted, not sent
	lemmaOps   = 60000 // operations looked at per instance
)

// lemmaSet collects the identities of a check, across instances.
type lemmaSet struct {
	mu    sync.Mutex
	seen  map[string]bool
	order []string
	ops   int
	wide  int
	over  int
	max   int
}

func newLemmaSet(max int) *lemmaSet { return &lemmaSet{seen: map[string]bool{}, max: max} }

func (l *lemmaSet) add(q string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.seen[q] {
		return
	}
	if len(l.order) >= l.max {
		l.over++
		return
	}
	l.seen[q] = true
	l.order = append(l.order, q)
}

func (l *lemmaSet) close(g *lemmaLog) {
	l.mu.Lock()
	l.ops += g.ops
	l.wide += g.wide
	l.mu.Unlock()
}

type lemmaKey struct {
	op      byte
	a, b, k int
}

// lemmaLog is the view of one instance.
type lemmaLog struct {
	set  *lemmaSet
	done map[lemmaKey]bool
	ops  int
	wide int
}

type lemmaNames struct {
	m map[*T]int
}

func (n *lemmaNames) ref(t *T) string {
	i, ok := n.m[t]
	if !ok {
		i = len(n.m)
		n.m[t] = i
	}
	return fmt.Sprintf("v%d", i)
}

// sum writes t as a linear combination of its monomials, each a variable.
func (n *lemmaNames) sum(s *Store, t *T) string {
	l := s.toLin(t)
	parts := []string{}
	if !l.c.IsZero() || len(l.monos) == 0 {
		parts = append(parts, ffc(&l.c))
	}
	for i, m := range l.monos {
		if l.coefs[i].Equal(&s.one.c) {
			parts = append(parts, n.ref(m))
		} else {
			parts = append(parts, "(ff.mul "+ffc(&l.coefs[i])+" "+n.ref(m)+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(ff.add " + strings.Join(parts, " ") + ")"
}

// prod writes k*t as a product of t's factors, each a variable.
func (n *lemmaNames) prod(s *Store, k fr.Element, t *T) string {
	if t.kind == kSum && len(t.args) == 1 && t.c.IsZero() {
		k.Mul(&k, &t.coefs[0])
		t = t.args[0]
	}
	parts := []string{ffc(&k)}
	if t.kind == kMono {
		for i, f := range t.args {
			for j := uint64(0); j < t.exps[i]; j++ {
				parts = append(parts, n.ref(f))
			}
		}
	} else if t.kind == kConst {
		parts = append(parts, ffc(&t.c))
	} else {
		parts = append(parts, n.ref(t))
	}
	return "(ff.mul " + strings.Join(parts, " ") + ")"
}

func (s *Store) skipLemma(op byte, a, b *T, k int) bool {
	l := s.lem
	if l == nil || a.kind == kConst && (b == nil || b.kind == kConst) {
		return true
	}
	key := lemmaKey{op, a.id, 0, k}
	if b != nil {
		key.b = b.id
	}
	if l.done[key] {
		return true
	}
	if l.ops >= lemmaOps {
		l.set.mu.Lock()
		l.set.over++
		l.set.mu.Unlock()
		return true
	}
	l.done[key] = true
	l.ops++
	w := len(a.args)
	if b != nil {
		w += len(b.args)
	}
	if w > lemmaWidth {
		l.wide++
		return true
	}
	return false
}

// linLemma: a + k*b = r.
func (s *Store) linLemma(a, b *T, k *fr.Element, r *T) {
	kk := 1
	if !k.Equal(&s.one.c) {
		kk = int(k[0])
	}
	if s.skipLemma('+', a, b, kk) {
		return
	}
	n := &lemmaNames{m: map[*T]int{}}
	x := n.sum(s, a)
	y := n.sum(s, b)
	if kk != 1 {
		y = "(ff.mul " + ffc(k) + " " + y + ")"
	}
	s.lem.set.add("(= (ff.add " + x + " " + y + ") " + n.sum(s, r) + ")")
}

// sumLemma: the sum of ts = r.
func (s *Store) sumLemma(ts []*T, r *T) {
	if s.lem == nil || len(ts) < 2 {
		return
	}
	w, id := 0, 0
	for _, t := range ts {
		w += len(t.args)
		id = id*31 + t.id
	}
	if w > lemmaWidth {
		s.lem.wide++
		return
	}
	if s.skipLemma('s', r, nil, id) {
		return
	}
	n := &lemmaNames{m: map[*T]int{}}
	l := ""
	for _, t := range ts {
		l += " " + n.sum(s, t)
	}
	s.lem.set.add("(= (ff.add" + l + ") " + n.sum(s, r) + ")")
}

// scaleLemma: k*a = r.
func (s *Store) scaleLemma(a *T, k *fr.Element, r *T) {
	if s.skipLemma('k', a, nil, int(k[0])) {
		return
	}
	n := &lemmaNames{m: map[*T]int{}}
	x := n.sum(s, a)
	s.lem.set.add("(= (ff.mul " + ffc(k) + " " + x + ") " + n.sum(s, r) + ")")
}

// mulLemma: (ka*ua) * (kb*ub) = r.
func (s *Store) mulLemma(ka fr.Element, ua *T, kb fr.Element, ub *T, r *T) {
	if s.lem == nil {
		return
	}
	if s.skipLemma('*', ua, ub, int(ka[0]^(kb[0]*31))) {
		return
	}
	n := &lemmaNames{m: map[*T]int{}}
	x := n.prod(s, ka, ua)
	y := n.prod(s, kb, ub)
	// the result is a multiple of one monomial
	var k fr.Element
	k.SetOne()
	s.lem.set.add("(= (ff.mul " + x + " " + y + ") " + n.prod(s, k, r) + ")")
}

type lemmaReport struct {
	Ops, Unique, Proved, Open, Wide, Over int
	Refuted                               []string
	Time                                  time.Duration
	Max                                   time.Duration
}

// discharge asks the solver for every identity.
func (l *lemmaSet) discharge(workers int, deadline time.Time) lemmaReport {
	r := lemmaReport{Ops: l.ops, Unique: len(l.order), Wide: l.wide, Over: l.over}
	sort.Strings(l.order)
	const batch = 60
	var jobs [][]string
	for i := 0; i < len(l.order); i += batch {
		jobs = append(jobs, l.order[i:min(i+batch, len(l.order))])
	}
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sv := &Solver{}
			defer sv.Close()
			var head strings.Builder
			fmt.Fprintf(&head, "(reset)\n(define-sort F () %s)\n", ffSort)
			for i := 0; i < 2*lemmaWidth+20; i++ {
				fmt.Fprintf(&head, "(declare-const v%d F)\n", i)
			}
			fresh := true
			ask := func(qs []string, to time.Duration) Verdict {
				var sb strings.Builder
				if fresh {
					sb.WriteString(head.String())
				}
				fmt.Fprintf(&sb, "(push)\n(set-option :timeout %d)\n(assert (or", to.Milliseconds())
				for _, q := range qs {
					sb.WriteString("\n(not " + q + ")")
				}
				sb.WriteString(" false))\n(check-sat)\n(pop)\n")
				t0 := time.Now()
				out, ok := sv.run(sb.String(), to+2*time.Second)
				d := time.Since(t0)
				fresh = !ok
				mu.Lock()
				r.Time += d
				r.Max = max(r.Max, d)
				mu.Unlock()
				v := Unknown
				for _, o := range out {
					switch o {
					case "unsat":
						v = Unsat
					case "sat":
						v = Sat
					}
					if strings.Contains(o, "error") {
						return Unknown
					}
				}
				return v
			}
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(jobs) {
					return
				}
				if time.Now().After(deadline) {
					mu.Lock()
					r.Open += len(jobs[i])
					mu.Unlock()
					continue
				}
				if ask(jobs[i], 5*time.Second) == Unsat {
					mu.Lock()
					r.Proved += len(jobs[i])
					mu.Unlock()
					continue
				}
				for _, q := range jobs[i] {
					v := ask([]string{q}, 3*time.Second)
					mu.Lock()
					switch v {
					case Unsat:
						r.Proved++
					case Sat:
						r.Refuted = append(r.Refuted, q)
					default:
						r.Open++
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return r
}

func (r lemmaReport) summary() map[string]interface{} {
	return map[string]interface{}{
		"explanation":         "obligations with equal normal forms on both sides need no query of their own; these queries discharge every distinct algebraic identity the normal forms were built with (operation on operands = normal form, over free variables)",
		"operations":          r.Ops,
		"distinct_identities": r.Unique,
		"proved":              r.Proved,
		"undecided":           r.Open,
		"not_sent_too_wide":   r.Wide,
		"not_sent_over_limit": r.Over,
		"refuted":             r.Refuted,
		"solver_s":            r.Time.Seconds(),
		"longest_query_s":     r.Max.Seconds(),
	}
}
