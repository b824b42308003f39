package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const frPath = "github.com/consensys/gurvy/bn256/fr"

type intrinsic func(m *Machine, g *Gor, fn *ssa.Function, args []value) (value, bool)

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	o := fn.Origin()
	if o == nil {
		o = fn
	}
	if in, ok := intrCache.Load(o); ok {
		if in == nil {
			return nil
		}
		return in.(intrinsic)
	}
	var in intrinsic
	pkg := ""
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		pkg = o.Object().Pkg().Path()
	}
	recv := ""
	if r := o.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	key := pkg + "." + recv + "." + o.Name()
	if o.Parent() == nil && o.Synthetic == "" {
		if f, ok := intrinsics[key]; ok {
			in = f
		} else if pkg == frPath {
			in = func(m *Machine, g *Gor, fn *ssa.Function, args []value) (value, bool) {
				return unsup("fr.%s", fn), true
			}
		}
	}
	if in == nil {
		intrCache.Store(o, nil)
		return nil
	}
	intrCache.Store(o, in)
	return in
}

func ptr(v value) *value {
	p, ok := v.(*value)
	if !ok {
		unsup("pointer expected, got %T", v)
	}
	if p == nil {
		rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (m *Machine) loadFe(g *Gor, v value) *T { return m.toFe(m.load(g, ptr(v))).t }

func (m *Machine) storeFe(g *Gor, v value, t *T) value {
	m.store(g, ptr(v), Fe{t})
	return v
}

func feBin(f func(s *Store, a, b *T) *T) intrinsic {
	return func(m *Machine, g *Gor, fn *ssa.Function, args []value) (value, bool) {
		a := m.loadFe(g, args[1])
		b := m.loadFe(g, args[2])
		return m.storeFe(g, args[0], f(m.st, a, b)), true
	}
}

func feUn(f func(s *Store, a *T) *T) intrinsic {
	return func(m *Machine, g *Gor, fn *ssa.Function, args []value) (value, bool) {
		return m.storeFe(g, args[0], f(m.st, m.loadFe(g, args[1]))), true
	}
}

func feAcc(f func(s *Store, a, b *T) *T) intrinsic {
	return func(m *Machine, g *Gor, fn *ssa.Function, args []value) (value, bool) {
		return m.storeFe(g, args[0], f(m.st, m.loadFe(g, args[0]), m.loadFe(g, args[1]))), true
	}
}

func mkErr(m *Machine, msg string) value {
	p := m.p.prog.ImportedPackage("errors")
	if p == nil {
		return unsup("errors package not loaded")
	}
	t := p.Type("errorString").Type()
	var cell value = structure{msg}
	return iface{types.NewPointer(t), &cell}
}

func (m *Machine) bigVal(v value) *big.Int {
	p := ptr(v)
	s, ok := (*p).(structure)
	if !ok {
		unsup("big.Int")
	}
	r := new(big.Int)
	for i := len(s[1].([]value)) - 1; i >= 0; i-- {
		w, ok := s[1].([]value)[i].(int64)
		if !ok {
			unsup("symbolic big.Int")
		}
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(uint64(w)))
	}
	if s[0].(bool) {
		r.Neg(r)
	}
	return r
}

// bigFe is the absolute value of a big.Int that holds the canonical representative of a symbolic field element.
type bigFe struct{ t *T }

// pooled records a use of gurvy's pool of big integers: all its objects share one backing array, so a use counts as a
// write to one memory cell.
func (m *Machine) pooled(g *Gor) {
	if m.log != nil {
		m.log.touch(g, "the memory shared by gurvy's pool of big integers", true)
	}
}

// bigText is the text of a big.Int in the given base.
func (m *Machine) bigText(p *value, base int) value {
	if s, ok := (*p).(structure); ok {
		if abs := s[1].([]value); len(abs) == 1 {
			if b, ok := abs[0].(bigFe); ok {
				if base == 10 {
					return &SymStr{[]interface{}{b.t}}
				}
				return &SymStr{[]interface{}{fmt.Sprintf("[base %d ", base), b.t, "]"}}
			}
		}
	}
	return m.bigVal(p).Text(base)
}

func (m *Machine) setBig(v value, b *big.Int) value {
	var abs []value
	for _, w := range b.Bits() {
		abs = append(abs, int64(uint64(w)))
	}
	m.write(ptr(v), structure{b.Sign() < 0, abs})
	return v
}

func (m *Machine) setIface(g *Gor, dst value, i iface) {
	switch v := i.v.(type) {
	case Fe:
		m.storeFe(g, dst, v.t)
	case *value:
		if v == nil {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		if f, ok := (*v).(Fe); ok {
			m.storeFe(g, dst, f.t)
			return
		}
		m.storeFe(g, dst, m.st.ConstBig(m.bigVal(v)))
	case string:
		b, ok := new(big.Int).SetString(v, 10)
		if !ok {
			panic(targetPanic{iface{types.Typ[types.String], "bad string"}, "Element.SetString failed"})
		}
		m.storeFe(g, dst, m.st.ConstBig(b))
	case int64:
		m.storeFe(g, dst, m.st.ConstBig(big.NewInt(v)))
	default:
		unsup("SetInterface(%T)", i.v)
	}
}

var intrinsics map[string]intrinsic

func init() {
	fp := frPath + ".Element."
	intrinsics = map[string]intrinsic{
		fp + "Add":       feBin((*Store).Add),
		fp + "Sub":       feBin((*Store).Sub),
		fp + "Mul":       feBin((*Store).Mul),
		fp + "Div":       feBin(func(s *Store, a, b *T) *T { return s.Mul(a, s.Inv(b)) }),
		fp + "Square":    feUn(func(s *Store, a *T) *T { return s.Mul(a, a) }),
		fp + "Double":    feUn(func(s *Store, a *T) *T { return s.Add(a, a) }),
		fp + "Neg":       feUn((*Store).Neg),
		fp + "Inverse":   feUn((*Store).Inv),
		fp + "Set":       feUn(func(s *Store, a *T) *T { return a }),
		fp + "AddAssign": feAcc((*Store).Add),
		fp + "SubAssign": feAcc((*Store).Sub),
		fp + "MulAssign": feAcc((*Store).Mul),
		fp + "SetZero": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return m.storeFe(g, a[0], m.st.zero), true
		},
		fp + "SetOne": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return m.storeFe(g, a[0], m.st.one), true
		},
		frPath + "..One": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return Fe{m.st.one}, true
		},
		frPath + "..Modulus": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			var c value = structure{false, []value(nil)}
			return m.setBig(&c, modP), true
		},
		fp + "SetUint64": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			c := m.concretize(a[1], false)
			return m.storeFe(g, a[0], m.st.ConstU(uint64(c))), true
		},
		fp + "SetString": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			m.pooled(g)
			s, ok := a[1].(string)
			if !ok {
				unsup("SetString of a symbolic string")
			}
			b, good := new(big.Int).SetString(s, 10)
			if !good {
				panic(targetPanic{iface{types.Typ[types.String], "Element.SetString failed"}, "Element.SetString failed"})
			}
			return m.storeFe(g, a[0], m.st.ConstBig(b)), true
		},
		fp + "SetBigInt": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			b := m.bigVal(a[1])
			if b.Sign() < 0 || b.Cmp(modP) > 0 {
				m.pooled(g)
			}
			return m.storeFe(g, a[0], m.st.ConstBig(b)), true
		},
		fp + "SetInterface": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			m.setIface(g, a[0], a[1].(iface))
			return a[0], true
		},
		fp + "SetRandom": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			m.rnd++
			r := m.storeFe(g, a[0], m.st.Var(fmt.Sprintf("random%d", m.rnd)))
			return tuple{r, iface{}}, true
		},
		fp + "IsZero": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return m.fromB(m.st.FZero(m.loadFe(g, a[0]))), true
		},
		fp + "Equal": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return m.fromB(m.st.FEq(m.loadFe(g, a[0]), m.loadFe(g, a[1]))), true
		},
		fp + "Cmp": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			x, y := m.loadFe(g, a[0]), m.loadFe(g, a[1])
			if x == y {
				return int64(0), true
			}
			if x.kind != kConst || y.kind != kConst {
				if m.truth(m.fromB(m.st.FEq(x, y))) {
					return int64(0), true
				}
				unsup("ordering of symbolic field elements")
			}
			return int64(x.c.Cmp(&y.c)), true
		},
		fp + "Exp": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			e := m.bigVal(a[2])
			if e.BitLen() > 12 {
				unsup("Exp with a large exponent")
			}
			if e.Sign() < 0 {
				unsup("Exp with a negative exponent")
			}
			return m.storeFe(g, a[0], m.st.Pow(m.toFe(a[1]).t, e.Uint64())), true
		},
		"math/big.Int.String": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			if p, ok := a[0].(*value); ok && p == nil {
				return "<nil>", true
			}
			return m.bigText(ptr(a[0]), 10), true
		},
		"math/big.Int.Text": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			if p, ok := a[0].(*value); ok && p == nil {
				return "<nil>", true
			}
			return m.bigText(ptr(a[0]), int(m.concretize(a[1], true))), true
		},
		fp + "String": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			m.pooled(g)
			t := m.loadFe(g, a[0])
			if t.kind == kConst {
				return feStr(&t.c), true
			}
			return &SymStr{[]interface{}{t}}, true
		},
		fp + "ToBigIntRegular": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			t := m.toFe(a[0]).t
			if t.kind != kConst {
				m.write(ptr(a[1]), structure{false, []value{bigFe{t}}})
				return a[1], true
			}
			var b big.Int
			c := t.c
			c.ToBigIntRegular(&b)
			return m.setBig(a[1], &b), true
		},
		fp + "Bytes": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			t := m.loadFe(g, a[0])
			if t.kind != kConst {
				unsup("bytes of a symbolic field element")
			}
			c := t.c
			r := make(array, 32)
			for i, x := range c.Bytes() {
				r[i] = int64(x)
			}
			return r, true
		},
		fp + "SetBytes": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			m.pooled(g)
			var bs []byte
			for _, x := range a[1].([]value) {
				c, ok := x.(int64)
				if !ok {
					unsup("symbolic bytes")
				}
				bs = append(bs, byte(c))
			}
			return m.storeFe(g, a[0], m.st.ConstBig(new(big.Int).SetBytes(bs))), true
		},
		"gkr-mimc/hash..MimcHash": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			if !m.stubHash {
				return nil, false
			}
			sl, ok := a[0].([]value)
			if !ok || fn.Signature.Params().Len() != 1 {
				return nil, false
			}
			ts := make([]*T, len(sl))
			for i := range sl {
				ts[i] = m.toFe(m.load(g, &sl[i])).t
			}
			return Fe{m.st.Hash(ts)}, true
		},

		// std
		"fmt..Sprintf": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return m.sprintf(a[0], a[1].([]value)), true
		},
		"fmt..Sprint": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return m.sprint(a[0].([]value), false), true
		},
		"fmt..Sprintln": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return m.sprint(a[0].([]value), true), true
		},
		"fmt..Errorf": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			s := m.sprintf(a[0], a[1].([]value))
			str, ok := s.(string)
			if !ok {
				str = showVal(s)
			}
			return mkErr(m, str), true
		},
		"fmt..Printf":     retPrint,
		"fmt..Println":    retPrint,
		"fmt..Print":      retPrint,
		"fmt..Fprintf":    retPrint,
		"fmt..Fprintln":   retPrint,
		"fmt..Fprint":     retPrint,
		"os..Getenv":      func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) { return "", true },
		"runtime..NumCPU": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) { return int64(2), true },
		"runtime..GOMAXPROCS": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return int64(2), true
		},
		"runtime..Gosched": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return nil, true
		},
		"runtime..GC":        retNil,
		"runtime..KeepAlive": retNil,
		"log..Printf":        retNil,
		"log..Println":       retNil,
		"time..Now": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return m.zero(fn.Signature.Results().At(0).Type()), true
		},
		"time..Since": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) { return int64(0), true },
		"strings.Builder.WriteString": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			k := ptr(a[0])
			cur, _ := m.sideTab[k].(value)
			if cur == nil {
				cur = ""
			}
			m.noSpec("strings.Builder")
			m.sideTab[k] = strCat(cur, a[1])
			return tuple{int64(0), iface{}}, true
		},
		"strings.Builder.WriteByte": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			k := ptr(a[0])
			cur, _ := m.sideTab[k].(value)
			if cur == nil {
				cur = ""
			}
			m.noSpec("strings.Builder")
			m.sideTab[k] = strCat(cur, string(rune(a[1].(int64))))
			return iface{}, true
		},
		"strings.Builder.String": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			cur, _ := m.sideTab[ptr(a[0])].(value)
			if cur == nil {
				cur = ""
			}
			return cur, true
		},
		"math..Float64bits": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return int64(math.Float64bits(a[0].(float64))), true
		},
		"math..Float64frombits": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return math.Float64frombits(uint64(a[0].(int64))), true
		},
		"math..Log":                  flt1(math.Log),
		"math..Log2":                 flt1(math.Log2),
		"math..Log10":                flt1(math.Log10),
		"math..Exp":                  flt1(math.Exp),
		"math..Exp2":                 flt1(math.Exp2),
		"math..Sqrt":                 flt1(math.Sqrt),
		"math..Ceil":                 flt1(math.Ceil),
		"math..Floor":                flt1(math.Floor),
		"math..Trunc":                flt1(math.Trunc),
		"math..Round":                flt1(math.Round),
		"math..Abs":                  flt1(math.Abs),
		"math..Pow":                  flt2(math.Pow),
		"math..Mod":                  flt2(math.Mod),
		"math..Max":                  flt2(math.Max),
		"math..Min":                  flt2(math.Min),
		"math/bits..Len":             bitsLen(64),
		"math/bits..Len64":           bitsLen(64),
		"math/bits..Len32":           bitsLen(32),
		"math/bits..LeadingZeros":    bitsLZ(64),
		"math/bits..LeadingZeros64":  bitsLZ(64),
		"math/bits..TrailingZeros":   bitsTZ(64),
		"math/bits..TrailingZeros64": bitsTZ(64),
		"math/bits..OnesCount":       bitsOnes(64),
		"math/bits..OnesCount64":     bitsOnes(64),
	}
	for k, v := range syncIntrinsics() {
		intrinsics[k] = v
	}
	for k, v := range gadIntrinsics() {
		intrinsics[k] = v
	}
	for k, v := range vxIntrinsics() {
		intrinsics[k] = v
	}
}

// bit counting on symbolic words is expressed with ites over the bits
func (m *Machine) bitOf(v *V, i int) *B {
	one := m.st.VConst(1, v.w)
	return m.st.VCmp("=", m.st.VOp("bvand", m.st.VOp("bvlshr", v, m.st.VConst(uint64(i), v.w)), one), one)
}

func flt1(f func(float64) float64) intrinsic {
	return func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) { return f(a[0].(float64)), true }
}

func flt2(f func(a, b float64) float64) intrinsic {
	return func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
		return f(a[0].(float64), a[1].(float64)), true
	}
}

func bitsLen(w int) intrinsic {
	return func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
		v := m.toV(a[0], w)
		r := m.st.VConst(0, 64)
		for i := 0; i < w; i++ {
			r = m.st.VIte(m.bitOf(v, i), m.st.VConst(uint64(i+1), 64), r)
		}
		return m.fromV(r, true), true
	}
}

func bitsLZ(w int) intrinsic {
	l := bitsLen(w)
	return func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
		r, _ := l(m, g, fn, a)
		return m.fromV(m.st.VOp("bvsub", m.st.VConst(uint64(w), 64), m.toV(r, 64)), true), true
	}
}

func bitsTZ(w int) intrinsic {
	return func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
		v := m.toV(a[0], w)
		r := m.st.VConst(uint64(w), 64)
		for i := w - 1; i >= 0; i-- {
			r = m.st.VIte(m.bitOf(v, i), m.st.VConst(uint64(i), 64), r)
		}
		return m.fromV(r, true), true
	}
}

func bitsOnes(w int) intrinsic {
	return func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
		v := m.toV(a[0], w)
		r := m.st.VConst(0, 64)
		for i := 0; i < w; i++ {
			r = m.st.VOp("bvadd", r, m.st.VIte(m.bitOf(v, i), m.st.VConst(1, 64), m.st.VConst(0, 64)))
		}
		return m.fromV(r, true), true
	}
}

func retNil(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) { return nil, true }

func retPrint(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
	return tuple{int64(0), iface{}}, true
}

// ---------- fmt

func (m *Machine) fmtArg(v value, verb byte) value {
	i, ok := v.(iface)
	if !ok {
		i = iface{nil, v}
	}
	if i.t == nil && i.v == nil {
		return "<nil>"
	}
	if i.t != nil && (verb == 'v' || verb == 's') {
		// Stringer / error
		for _, name := range []string{"Error", "String"} {
			ms := types.NewMethodSet(i.t)
			sel := ms.Lookup(nil, name)
			if sel == nil {
				continue
			}
			sg := sel.Type().(*types.Signature)
			if sg.Params().Len() == 0 && sg.Results().Len() == 1 && isString(sg.Results().At(0).Type()) {
				m.p.mu.Lock()
				f := m.p.prog.MethodValue(sel)
				m.p.mu.Unlock()
				if f != nil {
					return m.callFn(m.cur, nil, f, []value{copyVal(i.v)}, nil)
				}
			}
		}
	}
	if p, ok := i.v.(*value); ok && p != nil && i.t != nil && i.t.String() == "*math/big.Int" {
		switch verb {
		case 'x':
			return m.bigText(p, 16)
		case 'b':
			return m.bigText(p, 2)
		case 'o':
			return m.bigText(p, 8)
		default:
			return m.bigText(p, 10)
		}
	}
	switch x := i.v.(type) {
	case string:
		if verb == 'q' {
			return strconv.Quote(x)
		}
		return x
	case *SymStr:
		return x
	case int64:
		_, s := intTypeOr2(i.t)
		if verb == 'x' {
			return strconv.FormatUint(uint64(x), 16)
		}
		if verb == 'c' {
			return string(rune(x))
		}
		if s {
			return strconv.FormatInt(x, 10)
		}
		return strconv.FormatUint(uint64(x), 10)
	case bool:
		return fmt.Sprint(x)
	case float64:
		return fmt.Sprint(x)
	case Fe:
		if x.t.kind == kConst {
			return fmt.Sprint([4]uint64(x.t.c))
		}
		return &SymStr{[]interface{}{"[limbs ", x.t, "]"}}
	case []value, structure, array:
		var l []value
		var els []value
		var et func(k int) types.Type
		open, cl := "[", "]"
		switch y := x.(type) {
		case []value:
			els = y
			et = func(int) types.Type { return under(i.t).(*types.Slice).Elem() }
		case array:
			els = y
			et = func(int) types.Type { return under(i.t).(*types.Array).Elem() }
		case structure:
			els = y
			open, cl = "{", "}"
			et = func(k int) types.Type { return under(i.t).(*types.Struct).Field(k).Type() }
		}
		l = append(l, open)
		for k, e := range els {
			if k > 0 {
				l = append(l, " ")
			}
			if _, is := e.(iface); is {
				l = append(l, m.fmtArg(e, verb))
			} else {
				l = append(l, m.fmtArg(iface{et(k), e}, verb))
			}
		}
		l = append(l, cl)
		var r value = ""
		for _, p := range l {
			r = strCat(r, p)
		}
		return r
	}
	// pointers, maps, symbolic integers: opaque text
	return fmt.Sprintf("<%T>", i.v)
}

func intTypeOr2(t types.Type) (int, bool) {
	if t == nil {
		return 64, true
	}
	return intTypeOr(t)
}

func (m *Machine) sprintf(f value, args []value) value {
	s, ok := f.(string)
	if !ok {
		return unsup("symbolic format string")
	}
	var r value = ""
	lit := func(x string) { r = strCat(r, x) }
	ai := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := strings.IndexByte(s[i:], '%')
			if j < 0 {
				lit(s[i:])
				break
			}
			lit(s[i : i+j])
			i += j - 1
			continue
		}
		i++
		flag := ""
		for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
			flag += string(s[i])
			i++
		}
		if i >= len(s) {
			lit("%!(NOVERB)")
			break
		}
		if s[i] == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(s[i]) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		if s[i] == 'T' {
			if x, ok := a.(iface); ok && x.t != nil {
				lit(x.t.String())
			} else {
				lit("<nil>")
			}
			continue
		}
		v := m.fmtArg(a, s[i])
		if c, ok := v.(string); ok && flag != "" && (s[i] == 'd' || s[i] == 's' || s[i] == 'v' || s[i] == 'x') {
			if w, err := strconv.Atoi(strings.TrimLeft(flag, "+# ")); err == nil {
				pad := " "
				if strings.HasPrefix(flag, "0") {
					pad = "0"
				}
				if w < 0 {
					for len(c) < -w {
						c += " "
					}
				}
				for len(c) < w {
					c = pad + c
				}
			}
			v = c
		}
		r = strCat(r, v)
	}
	return r
}

func (m *Machine) sprint(args []value, ln bool) value {
	var r value = ""
	for i, a := range args {
		if i > 0 {
			str := func(v value) bool {
				x, ok := v.(iface)
				if !ok {
					return false
				}
				switch x.v.(type) {
				case string, *SymStr:
					return true
				}
				return false
			}
			if ln || !(str(args[i-1]) || str(a)) {
				r = strCat(r, " ")
			}
		}
		r = strCat(r, m.fmtArg(a, 'v'))
	}
	if ln {
		r = strCat(r, "\n")
	}
	return r
}

// ---------- sync

type wgState struct {
	n  int64
	id int
}
type muState struct {
	id      int
	locked  bool
	readers int
}
type onceState struct {
	done bool
	by   *Gor
	ch   *Chan
}

func (m *Machine) wg(v value) *wgState {
	k := ptr(v)
	if s, ok := m.sideTab[k].(*wgState); ok {
		return s
	}
	m.chans++
	s := &wgState{id: m.chans}
	m.sideTab[k] = s
	return s
}

func (m *Machine) mu(v value) *muState {
	k := ptr(v)
	if s, ok := m.sideTab[k].(*muState); ok {
		return s
	}
	m.chans++
	s := &muState{id: m.chans}
	m.sideTab[k] = s
	return s
}

func (m *Machine) ev(g *Gor, k evKind, obj, n int) {
	if m.log != nil {
		m.log.event(g, event{kind: k, obj: obj, n: n, zero: true})
	}
}

func (m *Machine) wgAdd(g *Gor, v value, d int64) {
	m.noSpec("WaitGroup")
	m.gateEv(g)
	m.preempt(g)
	w := m.wg(v)
	w.n += d
	if w.n < 0 {
		panic(targetPanic{iface{types.Typ[types.String], "sync: negative WaitGroup counter"}, "sync: negative WaitGroup counter"})
	}
	m.ev(g, evWgAdd, w.id, int(d))
}

func syncIntrinsics() map[string]intrinsic {
	lock := func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
		m.noSpec("lock")
		m.gateEv(g)
		m.preempt(g)
		s := m.mu(a[0])
		m.block(g, "lock", func() bool { return !s.locked && s.readers == 0 })
		s.locked = true
		m.ev(g, evLock, s.id, 0)
		return nil, true
	}
	unlock := func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
		m.noSpec("unlock")
		m.gateEv(g)
		s := m.mu(a[0])
		if !s.locked {
			panic(targetPanic{iface{types.Typ[types.String], "sync: unlock of unlocked mutex"}, "sync: unlock of unlocked mutex"})
		}
		s.locked = false
		m.ev(g, evUnlock, s.id, 0)
		m.preempt(g)
		return nil, true
	}
	atomicAdd := func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
		m.noSpec("atomic")
		if m.log != nil {
			m.log.bad = "atomic operation"
		}
		p := ptr(a[0])
		w, s := intType(fn.Signature.Results().At(0).Type())
		x, ok1 := (*p).(int64)
		y, ok2 := a[1].(int64)
		if !ok1 || !ok2 {
			unsup("symbolic atomic")
		}
		*p = truncInt(x+y, w, s)
		return *p, true
	}
	atomicLoad := func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
		if m.log != nil {
			m.log.bad = "atomic operation"
		}
		return *ptr(a[0]), true
	}
	atomicStore := func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
		m.noSpec("atomic")
		if m.log != nil {
			m.log.bad = "atomic operation"
		}
		*ptr(a[0]) = a[1]
		return nil, true
	}
	inner := func(v value) *value { // last field of the atomic.XintN struct
		s := (*ptr(v)).(structure)
		return &s[len(s)-1]
	}
	r := map[string]intrinsic{
		"sync.WaitGroup.Add": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			m.wgAdd(g, a[0], m.concretize(a[1], true))
			return nil, true
		},
		"sync.WaitGroup.Done": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			m.wgAdd(g, a[0], -1)
			return nil, true
		},
		"sync.WaitGroup.Wait": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			m.noSpec("WaitGroup")
			m.gateEv(g)
			w := m.wg(a[0])
			m.preempt(g)
			m.block(g, "WaitGroup.Wait", func() bool { return w.n == 0 })
			m.ev(g, evWgWait, w.id, 0)
			return nil, true
		},
		"sync.WaitGroup.Go": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			m.wgAdd(g, a[0], 1)
			wgv, f := a[0], a[1]
			m.spawn(g, native(func(m *Machine, ng *Gor, _ []value) value {
				m.call(ng, nil, f, nil)
				m.wgAdd(ng, wgv, -1)
				return nil
			}), nil)
			return nil, true
		},
		"sync.Mutex.Lock":     lock,
		"sync.Mutex.Unlock":   unlock,
		"sync.RWMutex.Lock":   lock,
		"sync.RWMutex.Unlock": unlock,
		"sync.RWMutex.RLock": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			m.noSpec("lock")
			m.gateEv(g)
			m.preempt(g)
			s := m.mu(a[0])
			m.block(g, "rlock", func() bool { return !s.locked })
			s.readers++
			m.ev(g, evRLock, s.id, 0)
			return nil, true
		},
		"sync.RWMutex.RUnlock": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			m.gateEv(g)
			s := m.mu(a[0])
			s.readers--
			m.ev(g, evRUnlock, s.id, 0)
			return nil, true
		},
		"sync.Once.Do": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			m.noSpec("once")
			k := ptr(a[0])
			s, ok := m.sideTab[k].(*onceState)
			if !ok {
				// the end of f happens before every return of Do: a channel closed by
				// the caller that runs f, and received from by the others
				s = &onceState{ch: m.newChan(g, 0, true)}
				m.sideTab[k] = s
				m.call(g, nil, a[1], nil)
				s.by, s.done = g, true
				m.chanClose(g, s.ch)
				return nil, true
			}
			if s.done && s.by == g {
				return nil, true
			}
			if m.log != nil {
				m.log.note = "sync.Once: only the explored choice of the goroutine that runs the function is covered"
			}
			m.chanRecv(g, s.ch)
			return nil, true
		},
		"sync.Pool.Get": func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			s := (*ptr(a[0])).(structure)
			f := s[len(s)-1]
			if x, ok := f.(*ssa.Function); ok && x == nil {
				return iface{}, true
			}
			return m.call(g, nil, f, nil), true
		},
		"sync.Pool.Put": retNil,
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		r["sync/atomic..Add"+t] = atomicAdd
		r["sync/atomic..Load"+t] = atomicLoad
		r["sync/atomic..Store"+t] = atomicStore
		r["sync/atomic."+t+".Add"] = func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return atomicAdd(m, g, fn, []value{inner(a[0]), a[1]})
		}
		r["sync/atomic."+t+".Load"] = func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			return *inner(a[0]), true
		}
		r["sync/atomic."+t+".Store"] = func(m *Machine, g *Gor, fn *ssa.Function, a []value) (value, bool) {
			m.noSpec("atomic")
			if m.log != nil {
				m.log.bad = "atomic operation"
			}
			*inner(a[0]) = a[1]
			return nil, true
		}
	}
	return r
}
