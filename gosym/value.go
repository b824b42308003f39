package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"github.com/consensys/gurvy/bn256/fr"
	"golang.org/x/tools/go/ssa"
)

// Values of the symbolic executor:
//
//	int64            every concrete integer (value truncated to its type, sign- or zero-extended)
//	*V               symbolic integer
//	bool / *B        concrete / symbolic boolean
//	float64, string, *SymStr
//	Fe               fr.Element
//	*value           pointer ; []value slice ; array, structure
//	iface, *Map, *Chan, *closure, *ssa.Function, *ssa.Builtin, tuple, iter
type value = interface{}

type array []value
type structure []value
type tuple []value

type Fe struct{ t *T }

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type native func(m *Machine, g *Gor, args []value) value

// SymStr is a string with embedded decimal renderings of field terms.
type SymStr struct {
	parts []interface{} // string or *T
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return "unsupported: " + u.msg }

func unsup(f string, a ...interface{}) value {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// targetPanic is a panic of the program under execution.
type targetPanic struct {
	v   value
	msg string
}

func rtPanic(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	panic(targetPanic{iface{types.Typ[types.String], "runtime error: " + s}, "runtime error: " + s})
}

type bad struct{}

func isFe(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Element" && o.Pkg() != nil && o.Pkg().Path() == "github.com/consensys/gurvy/bn256/fr"
}

func under(t types.Type) types.Type { return t.Underlying() }

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref of " + t.String())
}

func (m *Machine) zero(t types.Type) value {
	if isFe(t) {
		return Fe{m.st.zero}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case u.Kind() == types.UntypedNil:
			return iface{}
		}
		return unsup("zero of %s", t)
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, u.Len())
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Slice:
		return []value(nil)
	case *types.Interface:
		return iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return m.zero(u.At(0).Type())
		}
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = m.zero(u.At(i).Type())
		}
		return s
	}
	return unsup("zero of %s", t)
}

// copyVal makes an unaliased copy of an aggregate.
func copyVal(v value) value {
	switch v := v.(type) {
	case array:
		a := make(array, len(v))
		for i, x := range v {
			a[i] = copyVal(x)
		}
		return a
	case structure:
		a := make(structure, len(v))
		for i, x := range v {
			a[i] = copyVal(x)
		}
		return a
	}
	return v
}

// limbs <-> field element
func feFromLimbs(a array) (fr.Element, bool) {
	var e fr.Element
	if len(a) != 4 {
		return e, false
	}
	for i := range e {
		x, ok := a[i].(int64)
		if !ok {
			return e, false
		}
		e[i] = uint64(x)
	}
	return e, true
}

// elementOf is the element whose four words v are, if they are the words of one symbolic element.
func elementOf(a array) *T {
	if len(a) != 4 {
		return nil
	}
	var t *T
	for i, x := range a {
		v, ok := x.(*V)
		if !ok || v.op != "limb" || v.li != i || t != nil && v.t != t {
			return nil
		}
		t = v.t
	}
	return t
}

func (m *Machine) toFe(v value) Fe {
	switch v := v.(type) {
	case Fe:
		return v
	case array:
		if t := elementOf(v); t != nil {
			return Fe{t}
		}
		e, ok := feFromLimbs(v)
		if !ok {
			unsup("field element with symbolic limbs")
		}
		return Fe{m.st.Const(e)}
	}
	unsup("not a field element: %T", v)
	return Fe{}
}

func (m *Machine) feLimbs(f Fe) array {
	a := make(array, 4)
	if f.t.kind != kConst {
		for i := range a {
			a[i] = m.st.Limb(f.t, i)
		}
		return a
	}
	for i := range a {
		a[i] = int64(f.t.c[i])
	}
	return a
}

// ---------- maps

type mapEnt struct {
	k, v value
	dead bool
}

type Map struct {
	ents []*mapEnt
	idx  map[string]*mapEnt
	sym  bool
	n    int
}

func keyEnc(v value) (string, bool) {
	switch v := v.(type) {
	case int64:
		return fmt.Sprintf("i%d", v), true
	case string:
		return "s" + v, true
	case bool:
		return fmt.Sprintf("b%v", v), true
	case float64:
		return fmt.Sprintf("f%v", v), true
	case *value:
		return fmt.Sprintf("p%p", v), true
	case *Chan:
		return fmt.Sprintf("c%p", v), true
	case Fe:
		if v.t.kind == kConst {
			return "e" + feKey(&v.t.c), true
		}
		return "", false
	case structure:
		s := "{"
		for _, x := range v {
			k, ok := keyEnc(x)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d:%s,", len(k), k)
		}
		return s + "}", true
	case array:
		s := "["
		for _, x := range v {
			k, ok := keyEnc(x)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d:%s,", len(k), k)
		}
		return s + "]", true
	case iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := keyEnc(v.v)
		return "I" + v.t.String() + "|" + k, ok
	}
	return "", false
}

func (m *Machine) mapFind(mp *Map, k value) *mapEnt {
	if mp == nil {
		return nil
	}
	ks, ok := keyEnc(k)
	if ok && !mp.sym {
		return mp.idx[ks]
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		if m.truth(m.equals(e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *Map, k, v value) {
	if mp == nil {
		panic(targetPanic{iface{types.Typ[types.String], "assignment to entry in nil map"}, "assignment to entry in nil map"})
	}
	m.noSpec("map update")
	if e := m.mapFind(mp, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	mp.ents = append(mp.ents, e)
	mp.n++
	if ks, ok := keyEnc(k); ok {
		mp.idx[ks] = e
	} else {
		mp.sym = true
	}
}

func (m *Machine) mapDel(mp *Map, k value) {
	m.noSpec("map delete")
	if e := m.mapFind(mp, k); e != nil {
		e.dead = true
		mp.n--
		if ks, ok := keyEnc(k); ok {
			delete(mp.idx, ks)
		}
	}
}

// ---------- equality

func (m *Machine) equals(x, y value) value {
	switch a := x.(type) {
	case int64:
		if b, ok := y.(int64); ok {
			return a == b
		}
		if b, ok := y.(*V); ok {
			return m.fromB(m.st.VCmp("=", m.st.VConst(uint64(a), b.w), b))
		}
	case *V:
		switch b := y.(type) {
		case *V:
			return m.fromB(m.st.VCmp("=", a, b))
		case int64:
			return m.fromB(m.st.VCmp("=", a, m.st.VConst(uint64(b), a.w)))
		}
	case bool, *B:
		p, q := m.toB(x), m.toB(y)
		return m.fromB(m.st.BIte(p, q, m.st.Not(q)))
	case string:
		if b, ok := y.(string); ok {
			return a == b
		}
		if b, ok := y.(*SymStr); ok {
			return m.fromB(m.symStrEq(&SymStr{[]interface{}{a}}, b))
		}
	case *SymStr:
		switch b := y.(type) {
		case string:
			return m.fromB(m.symStrEq(a, &SymStr{[]interface{}{b}}))
		case *SymStr:
			return m.fromB(m.symStrEq(a, b))
		}
	case float64:
		return a == y.(float64)
	case Fe:
		return m.fromB(m.st.FEq(a.t, m.toFe(y).t))
	case *value:
		b, ok := y.(*value)
		return ok && a == b
	case *Chan:
		return a == y.(*Chan)
	case *Map:
		return a == y.(*Map)
	case []value:
		// only comparison with nil is possible
		b := y.([]value)
		return a == nil && b == nil
	case *ssa.Function:
		b, ok := y.(*ssa.Function)
		return ok && a == b
	case *closure:
		b, ok := y.(*closure)
		return ok && a == b
	case iface:
		b, ok := y.(iface)
		if !ok {
			break
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !types.Identical(a.t, b.t) {
			return false
		}
		switch under(a.t).(type) {
		case *types.Slice, *types.Map, *types.Signature:
			rtPanic("comparing uncomparable type %s", a.t)
		}
		return m.equals(a.v, b.v)
	case structure:
		b := y.(structure)
		res := m.st.tru
		for i := range a {
			res = m.st.And(res, m.toB(m.equals(a[i], b[i])))
		}
		return m.fromB(res)
	case array:
		if f, ok := y.(Fe); ok {
			return m.equals(m.toFe(a), f)
		}
		b := y.(array)
		res := m.st.tru
		for i := range a {
			res = m.st.And(res, m.toB(m.equals(a[i], b[i])))
		}
		return m.fromB(res)
	}
	return unsup("comparison of %T and %T", x, y)
}

func (m *Machine) symStrEq(a, b *SymStr) *B {
	st := m.st
	pa, pb := a.parts, b.parts
	// match literal prefixes / terms; a term against literal digits is an equation
	res := st.tru
	ia, ib := 0, 0
	var la, lb string
	for {
		for la == "" && ia < len(pa) {
			s, ok := pa[ia].(string)
			if !ok {
				break
			}
			la = s
			ia++
		}
		for lb == "" && ib < len(pb) {
			s, ok := pb[ib].(string)
			if !ok {
				break
			}
			lb = s
			ib++
		}
		switch {
		case la != "" && lb != "":
			n := min(len(la), len(lb))
			if la[:n] != lb[:n] {
				return st.fls
			}
			la, lb = la[n:], lb[n:]
		case la == "" && lb == "" && ia == len(pa) && ib == len(pb):
			return res
		case la == "" && lb == "" && ia < len(pa) && ib < len(pb):
			res = st.And(res, st.FEq(pa[ia].(*T), pb[ib].(*T)))
			ia++
			ib++
		case la != "" && ib < len(pb):
			d, rest := digits(la)
			if d == nil {
				return st.fls
			}
			res = st.And(res, st.FEq(st.ConstBig(d), pb[ib].(*T)))
			la = rest
			ib++
		case lb != "" && ia < len(pa):
			d, rest := digits(lb)
			if d == nil {
				return st.fls
			}
			res = st.And(res, st.FEq(st.ConstBig(d), pa[ia].(*T)))
			lb = rest
			ia++
		default:
			return st.fls
		}
	}
}

func digits(s string) (*big.Int, string) {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	if i == 0 || (i > 1 && s[0] == '0') {
		return nil, s
	}
	b, _ := new(big.Int).SetString(s[:i], 10)
	if b.Cmp(modP) >= 0 {
		return nil, s
	}
	return b, s[i:]
}

func (m *Machine) toB(v value) *B {
	switch v := v.(type) {
	case bool:
		return m.st.Bool(v)
	case *B:
		return v
	}
	unsup("not a boolean: %T", v)
	return nil
}

func (m *Machine) fromB(b *B) value {
	if b.kind == bConst {
		return b.val
	}
	return b
}

func intType(t types.Type) (w int, signed bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		unsup("integer type %s", t)
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	}
	unsup("integer type %s", t)
	return 0, false
}

func truncInt(x int64, w int, signed bool) int64 {
	if w == 64 {
		return x
	}
	if signed {
		return sext(uint64(x)&maskW(w), w)
	}
	return int64(uint64(x) & maskW(w))
}

func (m *Machine) toV(v value, w int) *V {
	switch v := v.(type) {
	case int64:
		return m.st.VConst(uint64(v), w)
	case *V:
		return v
	}
	unsup("not an integer: %T", v)
	return nil
}

func (m *Machine) fromV(v *V, signed bool) value {
	if v.op == "const" {
		if signed {
			return sext(v.u, v.w)
		}
		return int64(v.u)
	}
	return v
}

func showVal(v value) string {
	switch v := v.(type) {
	case Fe:
		return v.t.String()
	case iface:
		if v.t == nil {
			return "nil"
		}
		return showVal(v.v)
	case *SymStr:
		var b strings.Builder
		for _, p := range v.parts {
			if t, ok := p.(*T); ok {
				b.WriteString("<" + t.String() + ">")
			} else {
				b.WriteString(p.(string))
			}
		}
		return b.String()
	case []value:
		var l []string
		for _, x := range v {
			l = append(l, showVal(x))
		}
		return "[" + strings.Join(l, " ") + "]"
	case structure:
		var l []string
		for _, x := range v {
			l = append(l, showVal(x))
		}
		return "{" + strings.Join(l, " ") + "}"
	case array:
		return showVal([]value(v))
	case *value:
		if v == nil {
			return "nil"
		}
		return "&" + showVal(*v)
	}
	return fmt.Sprint(v)
}
