// Package vx is the interface between verification harnesses and the engine deciding them.
//
// The functions below are the native meaning, used when a counterexample is replayed against the compiled
// code. The symbolic executor gives them their symbolic meaning: Fr, Frs, Int and Bool are arbitrary values,
// Assert is a proof obligation over all of them.
package vx

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"

	"gkr-mimc/hash"

	"github.com/consensys/gurvy/bn256/fr"
)

// Inputs is a concrete assignment.
type Inputs struct {
	F       map[string]string `json:"f"`
	B       map[string]bool   `json:"b"`
	V       map[string]int64  `json:"v"`
	Choices map[string]int64  `json:"choices"`
	Params  map[string]int64  `json:"params"`
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
}

// In is the assignment being replayed.
var In Inputs

// Failed collects the labels of failed assertions.
var Failed []string

// Trace records the values compared by the harness.
var Trace []string

// Outcome of one replay.
type Outcome struct {
	Harness string   `json:"harness"`
	Failed  []string `json:"failed"`
	Panic   string   `json:"panic"`
	Assumed bool     `json:"assumed"` // an assumption did not hold
	Trace   []string `json:"trace"`
}

func note(a fr.Element) {
	var b big.Int
	Trace = append(Trace, a.ToBigIntRegular(&b).String())
}

// Main replays the cases of a file on the given harnesses and writes their outcomes.
func Main(fns map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cases []Inputs
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	var res []Outcome
	for _, c := range cases {
		In = c
		Failed, Trace = nil, nil
		f := fns[c.Harness]
		if f == nil {
			panic("no harness " + c.Harness)
		}
		o := Run(f)
		o.Harness = c.Harness
		res = append(res, o)
	}
	j, _ := json.Marshal(res)
	if err := os.WriteFile(os.Args[2], j, 0o644); err != nil {
		panic(err)
	}
}

func parse(s string) fr.Element {
	var e fr.Element
	b, ok := new(big.Int).SetString(s, 10)
	if ok {
		e.SetBigInt(b)
	}
	return e
}

// Fr is an arbitrary field element.
func Fr(name string) fr.Element { return parse(In.F[name]) }

// Frs are n arbitrary field elements.
func Frs(name string, n int) []fr.Element {
	r := make([]fr.Element, n)
	for i := range r {
		r[i] = parse(In.F[fmt.Sprintf("%s.%d", name, i)])
	}
	return r
}

// Int is an arbitrary integer with lo <= x <= hi.
func Int(name string, lo, hi int) int {
	if v, ok := In.V[name]; ok {
		return int(v)
	}
	return lo
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return In.B[name] }

// Choose is an arbitrary integer in [0,n), explored one by one.
func Choose(name string, n int) int { return int(In.Choices[name]) }

// Param is a structural parameter of the harness instance.
func Param(name string) int { return int(In.Params[name]) }

type assumeFailed struct{}

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		panic(assumeFailed{})
	}
}

// Assert is a proof obligation.
func Assert(b bool, label string) {
	if !b {
		Failed = append(Failed, label)
	}
}

// Reach marks a point that must be reachable.
func Reach(label string) {}

// Eq compares field elements.
func Eq(a, b fr.Element) bool {
	note(a)
	note(b)
	return a == b
}

// EqS compares slices of field elements.
func EqS(a, b []fr.Element) bool {
	if len(a) != len(b) {
		return false
	}
	res := true
	for i := range a {
		res = Eq(a[i], b[i]) && res
	}
	return res
}

// Note records values, so that a symbolic run can be compared with a native one.
func Note(xs ...fr.Element) {
	for i := range xs {
		note(xs[i])
		note(xs[i])
	}
}

// Sometimes is the obligation that some inputs satisfy b.
func Sometimes(b bool, label string) {
	if In.Label == label {
		Assert(b, label)
	}
}

// IntEq compares integers.
func IntEq(a, b int) bool { return a == b }

// And is a conjunction without branching.
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

// Or is a disjunction without branching.
func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

// Not is negation without branching.
func Not(b bool) bool { return !b }

// Implies is implication without branching.
func Implies(a, b bool) bool { return !a || b }

// Iff is equivalence without branching.
func Iff(a, b bool) bool { return a == b }

// Panics says whether f panics.
func Panics(f func()) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFailed); ok {
				panic(r)
			}
			res = true
		}
	}()
	f()
	return false
}

// Named gives a name to an intermediate value.
func Named(x fr.Element, name string) fr.Element { return x }

// Root7 is the seventh root: 7 has an inverse modulo p-1.
func Root7(x fr.Element) fr.Element {
	order := new(big.Int).Sub(fr.Modulus(), big.NewInt(1))
	d := new(big.Int).ModInverse(big.NewInt(7), order)
	var r fr.Element
	if !x.IsZero() {
		r.Exp(x, d)
	}
	return r
}

// IsSymbolic distinguishes symbolic execution from replay.
func IsSymbolic() bool { return false }

// Hash is the challenge hash.
func Hash(a []fr.Element) fr.Element { return hash.MimcHash(a) }

// MaxQueued states that the channel never holds more than n values.
func MaxQueued(ch interface{}, n int, label string) {}

// Run executes a harness on the current inputs.
func Run(f func()) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFailed); ok {
				o.Assumed = true
			} else {
				o.Panic = fmt.Sprint(r)
			}
		}
		o.Failed, o.Trace = Failed, Trace
	}()
	f()
	return
}
