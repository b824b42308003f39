// Package gad gives harnesses access to the constraint systems of the gadgets of the repository.
//
// A system is a gadget called the way its users call it, its inputs being free variables and each of its outputs
// being compared with a further free variable. Sat says whether the compiled constraint system accepts an
// assignment. Natively the system is compiled and solved. The executor imports the compiled constraints (written
// by Dump) and gives Sat its meaning as a formula over the assignment.
package gad

import (
	"encoding/gob"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"unsafe"

	"gkr-mimc/circuit"
	"gkr-mimc/hash"
	ggkr "gkr-mimc/snark/gkr"
	ghash "gkr-mimc/snark/hash"
	gpoly "gkr-mimc/snark/polynomial"
	gsum "gkr-mimc/snark/sumcheck"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
)

type define func(cs *frontend.ConstraintSystem, in []frontend.Variable)

type circ struct {
	In []frontend.Variable
	f  func(cs *frontend.ConstraintSystem, in []frontend.Variable)
}

// Define implements frontend.Circuit.
func (c *circ) Define(id gurvy.ID, cs *frontend.ConstraintSystem) error {
	c.f(cs, append([]frontend.Variable{}, c.In...))
	return nil
}

func compile(id gurvy.ID, name string, p []int) (r1cs.R1CS, int) {
	n, f := build(name, p)
	c := &circ{In: make([]frontend.Variable, n), f: f}
	r, err := frontend.Compile(id, c)
	if err != nil {
		panic("the gadget does not compile: " + err.Error())
	}
	return r, n
}

var compiled = map[string]r1cs.R1CS{}

type solver interface {
	IsSolved(map[string]interface{}) error
}

// Sat says whether the constraint system of a gadget accepts an assignment of its inputs.
func Sat(name string, p []int, in []fr.Element) bool {
	key := fmt.Sprint(name, p)
	r, ok := compiled[key]
	if !ok {
		var n int
		r, n = compile(gurvy.BN256, name, p)
		if n != len(in) {
			panic(fmt.Sprintf("%s has %d inputs, got %d", key, n, len(in)))
		}
		compiled[key] = r
	}
	w := map[string]interface{}{}
	for i := range in {
		w[fmt.Sprintf("In_%d", i)] = in[i]
	}
	return r.(solver).IsSolved(w) == nil
}

// Constraints is a compiled system. Wires are internal wires, then inputs, then the constant one.
type Constraints struct {
	Wires, Inputs int
	Computed      int // constraints computing internal wires; the others are assertions
	Coeffs        []string
	Rows          []uint32 // for every constraint and each of L, R, O: number of terms, then coefficient and wire of each
	Panic         string
}

// Dump writes the constraints of a system to a file.
func Dump(name string, p []int, file string) {
	var d Constraints
	func() {
		defer func() {
			if r := recover(); r != nil {
				d.Panic = fmt.Sprint(r)
			}
		}()
		rr, n := compile(gurvy.UNKNOWN, name, p)
		r := rr.(*r1cs.UntypedR1CS)
		if r.NbPublicWires != 1 || int(r.NbSecretWires) != n {
			panic("unexpected wires")
		}
		for i, s := range r.SecretWires {
			if s != fmt.Sprintf("In_%d", i) {
				panic("unexpected wire order")
			}
		}
		d.Wires, d.Inputs, d.Computed = int(r.NbWires), n, int(r.NbCOConstraints)
		base := len(r.Coefficients)
		for i := range r.Coefficients {
			d.Coeffs = append(d.Coeffs, r.Coefficients[i].String())
		}
		special := map[int]int{-1: 0, 0: 1, 1: 2, 2: 3}
		for _, k := range []int{-1, 0, 1, 2} {
			d.Coeffs = append(d.Coeffs, big.NewInt(int64(k)).String())
		}
		for _, c := range r.Constraints {
			if c.Solver != 0 {
				panic("unexpected kind of constraint")
			}
			for k := 0; k < 3; k++ {
				l := c.L
				if k == 1 {
					l = c.R
				} else if k == 2 {
					l = c.O
				}
				d.Rows = append(d.Rows, uint32(len(l)))
				for _, t := range l {
					// as the solver does: small coefficients are stored beside their index
					v, id, w, _ := t.Unpack()
					if s, ok := special[v]; ok {
						id = base + s
					}
					d.Rows = append(d.Rows, uint32(id), uint32(w))
				}
			}
		}
	}()
	f, err := os.Create(file)
	if err == nil {
		err = gob.NewEncoder(f).Encode(d)
	}
	if err == nil {
		err = f.Close()
	}
	if err != nil {
		panic(err)
	}
}

// Know tells the executor to recognise the hash of a message where a constraint system computes it.
func Know(msg []fr.Element) {}

// Value is the value assigned to a variable, if there is one.
func Value(v frontend.Variable) (x fr.Element, ok bool) {
	f := reflect.ValueOf(&v).Elem().FieldByName("val")
	i := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
	if i == nil {
		return x, false
	}
	x.SetInterface(i)
	return x, true
}

// Values are the values assigned to variables, and whether all of them have one.
func Values(vs []frontend.Variable) (xs []fr.Element, all bool) {
	all = true
	for i := range vs {
		x, ok := Value(vs[i])
		all = all && ok
		xs = append(xs, x)
	}
	return
}

// take hands out the inputs in order.
type take struct{ in []frontend.Variable }

func (t *take) n(k int) []frontend.Variable {
	r := append([]frontend.Variable{}, t.in[:k]...)
	t.in = t.in[k:]
	return r
}

func (t *take) one() frontend.Variable { return t.n(1)[0] }

func same(cs *frontend.ConstraintSystem, a, b []frontend.Variable) {
	if len(a) != len(b) {
		panic("outputs of different lengths")
	}
	for i := range a {
		cs.AssertIsEqual(a[i], b[i])
	}
}

func fill(dst, src []frontend.Variable) {
	if len(dst) != len(src) {
		panic(fmt.Sprintf("a gadget allocates %d variables instead of %d", len(dst), len(src)))
	}
	copy(dst, src)
}

// Gates of the systems "gates" and "snarkgates", in this order.
func nGates() int { return 3 + len(arkList()) }

func arkList() []fr.Element {
	var r []fr.Element
	for _, s := range []string{"0", "1", "2", "21888242871839275222246405745257275088548364400416034343698204186575808495616",
		"10944121435919637611123202872628637544274182200208017171849102093287904247809",
		"18446744073709551616", "340282366920938463463374607431768211456"} {
		var e fr.Element
		e.SetString(s)
		r = append(r, e)
	}
	return append(r, hash.Arks...)
}

// Arks are the gate constants of the systems "gates" and "snarkgates".
func Arks() []fr.Element { return arkList() }

func sumShape(bG, bN, dL, dR, dP int) []int {
	var l []int
	for i := 0; i < bG; i++ {
		l = append(l, dL+1)
	}
	for i := 0; i < bG; i++ {
		l = append(l, dR+1)
	}
	for i := 0; i < bN; i++ {
		l = append(l, dP+1)
	}
	return l
}

func sum(l []int) (s int) {
	for _, x := range l {
		s += x
	}
	return
}

func build(name string, p []int) (int, define) {
	switch name {
	case "mimc": // message, digest
		n := p[0]
		return n + 1, func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			cs.AssertIsEqual(ghash.MimcHash(cs, in[:n]...), in[n])
		}
	case "mimcs": // two messages, the digests of: the first, the second, the first again, a constant and a word, a word twice
		n, k := p[0], p[1]
		return n + k + 5, func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			t := take{in}
			a, b := t.n(n), t.n(k)
			d := []frontend.Variable{ghash.MimcHash(cs, a...), ghash.MimcHash(cs, b...), ghash.MimcHash(cs, a...),
				ghash.MimcHash(cs, cs.Constant(5), a[0]), ghash.MimcHash(cs, a[0], a[0])}
			same(cs, d, t.n(5))
		}
	case "unis": // two polynomials, x, their values at x, at one, their sums of the values at zero and one
		n := p[0] + 1
		return 2*n + 1 + 6, func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			t := take{in}
			u, v := gpoly.NewUnivariate(t.n(n)), gpoly.NewUnivariate(t.n(n))
			x := t.one()
			one := cs.Constant(1)
			same(cs, []frontend.Variable{u.Eval(cs, x), v.Eval(cs, x), u.Eval(cs, one), v.Eval(cs, one), u.ZeroAndOne(cs), v.ZeroAndOne(cs)}, t.n(6))
		}
	case "mls": // two tables, x, their values at x, those of the first with the first coordinate zero and one, eq(x,x), eq(x, ones)
		n := p[0]
		return 2<<uint(n) + n + 6, func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			t := take{in}
			u, v := gpoly.NewMultilinearByValues(t.n(1<<uint(n))), gpoly.NewMultilinearByValues(t.n(1<<uint(n)))
			x := t.n(n)
			at := func(c int) []frontend.Variable {
				return append([]frontend.Variable{cs.Constant(c)}, x[1:]...)
			}
			ones := make([]frontend.Variable, n)
			for i := range ones {
				ones[i] = cs.Constant(1)
			}
			same(cs, []frontend.Variable{u.Eval(cs, x), v.Eval(cs, x), u.Eval(cs, at(0)), u.Eval(cs, at(1)), gpoly.EqEval(cs, x, x), gpoly.EqEval(cs, x, ones)}, t.n(6))
		}
	case "uni": // coefficients, x, y, p(x), p(0)+p(1), p(y)
		n := p[0] + 1
		return n + 5, func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			t := take{in}
			u := gpoly.AllocateUnivariate(p[0])
			fill(u.Coefficients, t.n(n))
			x, y := t.one(), t.one()
			px := u.Eval(cs, x)
			z := u.ZeroAndOne(cs)
			py := u.Eval(cs, y)
			same(cs, []frontend.Variable{px, z, py}, t.n(3))
		}
	case "uninew": // the same on a polynomial that is not allocated
		n := p[0] + 1
		return n + 3, func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			t := take{in}
			u := gpoly.NewUnivariate(t.n(n))
			x := t.one()
			same(cs, []frontend.Variable{u.ZeroAndOne(cs), u.Eval(cs, x)}, t.n(2))
		}
	case "ml": // table, x, y, f(x), f(y)
		n := p[0]
		return 1<<uint(n) + 2*n + 2, func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			t := take{in}
			m := gpoly.AllocateMultilinear(n)
			fill(m.Table, t.n(1<<uint(n)))
			x, y := t.n(n), t.n(n)
			fx := m.Eval(cs, x)
			fy := m.Eval(cs, y)
			same(cs, []frontend.Variable{fx, fy}, t.n(2))
		}
	case "fold": // table, x, folded table
		n := p[0]
		return 1<<uint(n) + 1 + 1<<uint(n-1), func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			t := take{in}
			m := gpoly.NewMultilinearByValues(t.n(1 << uint(n)))
			m.Fold(cs, t.one())
			same(cs, m.Table, t.n(1<<uint(n-1)))
		}
	case "mixed": // table, qL, qR, qPrime, f(qL,qPrime), f(qR,qPrime), f(qL,qPrime) again
		bG, bN := p[0], p[1]
		return 1<<uint(bG+bN) + 2*bG + bN + 3, func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			t := take{in}
			m := gpoly.AllocateMultilinear(bG + bN)
			fill(m.Table, t.n(1<<uint(bG+bN)))
			qL, qR, qP := t.n(bG), t.n(bG), t.n(bN)
			vL, vR := m.EvalMixed(cs, qL, qR, qP)
			again := m.Eval(cs, append(append([]frontend.Variable{}, qL...), qP...))
			same(cs, []frontend.Variable{vL, vR, again}, t.n(3))
		}
	case "eq": // q, h, eq(q,h)
		n := p[0]
		return 2*n + 1, func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			t := take{in}
			q, h := t.n(n), t.n(n)
			cs.AssertIsEqual(gpoly.EqEval(cs, q, h), t.one())
		}
	case "eq1":
		return 3, func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			cs.AssertIsEqual(gpoly.UnivariateEqEval(cs, in[0], in[1]), in[2])
		}
	case "gates": // l, r, results of the circuit gates
		return 2 + nGates(), func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			gs := []circuit.Gate{circuit.AddGate{}, circuit.MulGate{}, circuit.CopyGate{}}
			for _, a := range arkList() {
				gs = append(gs, circuit.NewCipherGate(a))
			}
			for i, g := range gs {
				cs.AssertIsEqual(g.GnarkEval(cs, in[0], in[1]), in[2+i])
			}
		}
	case "snarkgates": // l, r, results of the gate gadgets: copy, ciphers
		return 2 + 1 + len(arkList()), func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			gs := []ggkr.Gate{ggkr.CopyGate()}
			for _, a := range arkList() {
				gs = append(gs, ggkr.CipherGate(a))
			}
			for i, g := range gs {
				cs.AssertIsEqual(g(cs, in[0], in[1]), in[2+i])
			}
		}
	case "layers": // qL, qR, qPrime, hL, hR, hPrime, lambdaL, lambdaR, vL, vR, combination of every layer for qL, for both
		bN := p[0]
		c := ggkr.CreateMimcCircuit()
		n := len(c.Layers)
		return 2 + bN + 2 + bN + 4 + 2*n - 1, func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			t := take{in}
			qL, qR, qP, hL, hR, hP := t.n(1), t.n(1), t.n(bN), t.n(1), t.n(1), t.n(bN)
			l := t.n(4)
			for i := range c.Layers {
				q := qL
				if i == n-1 {
					q = nil // the output layer has width 0
				}
				cs.AssertIsEqual(c.Layers[i].Combine(cs, q, qP, hL, hR, hP, l[2], l[3]), t.one())
				if i == n-1 {
					continue // nor is it ever combined
				}
				cs.AssertIsEqual(c.Layers[i].CombineWithLinearComb(cs, qL, qR, qP, hL, hR, hP, l[0], l[1], l[2], l[3]), t.one())
			}
		}
	case "sumcheck": // claim, polynomials, challenges, last claim
		bG, bN := p[0], p[1]
		shape := sumShape(bG, bN, p[2], p[3], p[4])
		return 1 + sum(shape) + len(shape) + 1, func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			t := take{in}
			claim := t.one()
			pr := gsum.AllocateProof(bN, bG, p[2], p[3], p[4])
			if len(pr.HPolys) != len(shape) {
				panic("unexpected number of polynomials")
			}
			for i := range pr.HPolys {
				fill(pr.HPolys[i].Coefficients, t.n(shape[i]))
			}
			hL, hR, hP, last := pr.AssertValid(cs, claim, bG)
			same(cs, hL, t.n(bG))
			same(cs, hR, t.n(bG))
			same(cs, hP, t.n(bN))
			cs.AssertIsEqual(last, t.one())
		}
	case "gkr": // qPrime, inputs, outputs, polynomials, left claims, right claims
		bN := p[0]
		c := ggkr.CreateMimcCircuit()
		n := len(c.Layers)
		shape := sumShape(1, bN, 2, 8, 8)
		return bN + 2<<uint(bN) + 1<<uint(bN) + n*sum(shape) + 2*n, func(cs *frontend.ConstraintSystem, in []frontend.Variable) {
			t := take{in}
			qP := t.n(bN)
			vIn := gpoly.AllocateMultilinear(bN + 1)
			fill(vIn.Table, t.n(2<<uint(bN)))
			vOut := gpoly.AllocateMultilinear(bN)
			fill(vOut.Table, t.n(1<<uint(bN)))
			pr := ggkr.AllocateProof(bN, c)
			if len(pr.SumcheckProofs) != n {
				panic("unexpected number of layers")
			}
			for i := range pr.SumcheckProofs {
				if len(pr.SumcheckProofs[i].HPolys) != len(shape) {
					panic("unexpected number of polynomials")
				}
				for j := range shape {
					fill(pr.SumcheckProofs[i].HPolys[j].Coefficients, t.n(shape[j]))
				}
			}
			fill(pr.ClaimsLeft, t.n(n))
			fill(pr.ClaimsRight, t.n(n))
			pr.AssertValid(cs, c, []frontend.Variable{}, qP, vIn, vOut)
		}
	}
	panic("no system " + name)
}
