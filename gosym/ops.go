package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Compilation of SSA instructions into closures.

func compileBlock(fi *fnInfo, b *ssa.BasicBlock) *cblock {
	cb := &cblock{b: b, instr: b.Instrs}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			p := &cphi{dst: fi.idx[in]}
			for _, e := range in.Edges {
				p.edges = append(p.edges, fi.op(e))
			}
			cb.phis = append(cb.phis, p)
		case *ssa.If:
			cb.isIf = true
			cb.cond = fi.op(in.Cond)
		case *ssa.Jump:
			t := b.Succs[0].Index
			cb.term = func(m *Machine, fr *frame) int { return t }
		case *ssa.Return:
			var ops []opnd
			for _, r := range in.Results {
				ops = append(ops, fi.op(r))
			}
			cb.term = func(m *Machine, fr *frame) int {
				switch len(ops) {
				case 0:
				case 1:
					fr.result = ops[0].get(m, fr)
				default:
					t := make(tuple, len(ops))
					for i := range ops {
						t[i] = ops[i].get(m, fr)
					}
					fr.result = t
				}
				return -1
			}
		case *ssa.Panic:
			x := fi.op(in.X)
			pos := in.Pos()
			cb.term = func(m *Machine, fr *frame) int {
				v := x.get(m, fr)
				panic(targetPanic{v, showVal(v) + " at " + posOf(fi.fn, pos)})
			}
		case *ssa.DebugRef:
		default:
			if op := compileInstr(fi, in); op != nil {
				cb.ops = append(cb.ops, op)
			}
		}
	}
	if cb.term == nil && !cb.isIf {
		cb.term = func(m *Machine, fr *frame) int { unsup("block without terminator"); return -1 }
	}
	return cb
}

func compileInstr(fi *fnInfo, in ssa.Instruction) func(m *Machine, fr *frame) {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = fi.idx[v]
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		x := fi.op(in.X)
		switch in.Op {
		case token.MUL:
			fe := isFe(in.Type())
			return func(m *Machine, fr *frame) {
				a, ok := x.get(m, fr).(*value)
				if !ok {
					unsup("load through %T", x.get(m, fr))
				}
				v := m.load(fr.g, a)
				if fe {
					if l, is := v.(array); is {
						v = m.toFe(l)
					}
				}
				fr.env[dst] = v
			}
		case token.NOT:
			return func(m *Machine, fr *frame) {
				v := x.get(m, fr)
				if b, ok := v.(bool); ok {
					fr.env[dst] = !b
					return
				}
				fr.env[dst] = m.fromB(m.st.Not(v.(*B)))
			}
		case token.SUB:
			t := in.Type()
			if isFloat(t) {
				return func(m *Machine, fr *frame) { fr.env[dst] = -x.get(m, fr).(float64) }
			}
			w, s := intType(t)
			return func(m *Machine, fr *frame) {
				v := x.get(m, fr)
				if c, ok := v.(int64); ok {
					fr.env[dst] = truncInt(-c, w, s)
					return
				}
				fr.env[dst] = m.fromV(m.st.VOp("bvsub", m.st.VConst(0, w), v.(*V)), s)
			}
		case token.XOR:
			w, s := intType(in.Type())
			return func(m *Machine, fr *frame) {
				v := x.get(m, fr)
				if c, ok := v.(int64); ok {
					fr.env[dst] = truncInt(^c, w, s)
					return
				}
				fr.env[dst] = m.fromV(m.st.VOp("bvxor", m.st.VConst(^uint64(0), w), v.(*V)), s)
			}
		case token.ARROW:
			commaOk := in.CommaOk
			et := under(in.X.Type()).(*types.Chan).Elem()
			return func(m *Machine, fr *frame) {
				ch := x.get(m, fr).(*Chan)
				v, ok := m.chanRecv(fr.g, ch)
				if !ok {
					v = m.zero(et)
				}
				if commaOk {
					fr.env[dst] = tuple{v, ok}
				} else {
					fr.env[dst] = v
				}
			}
		}
	case *ssa.BinOp:
		return compileBinOp(fi, in, dst)
	case *ssa.Call:
		f := compileCall(fi, &in.Call)
		pos := in.Pos()
		return func(m *Machine, fr *frame) {
			fn, args := f(m, fr)
			fr.g.pos = pos
			fr.env[dst] = m.callAny(fr, fn, args, in)
		}
	case *ssa.ChangeInterface:
		x := fi.op(in.X)
		return func(m *Machine, fr *frame) { fr.env[dst] = x.get(m, fr) }
	case *ssa.ChangeType:
		x := fi.op(in.X)
		toF := isFe(in.Type())
		fromF := isFe(in.X.Type()) && !toF
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			if toF {
				v = m.toFe(v)
			} else if fromF {
				if f, ok := v.(Fe); ok {
					v = m.feLimbs(f)
				}
			}
			fr.env[dst] = v
		}
	case *ssa.Convert:
		return compileConvert(fi, in, dst)
	case *ssa.MultiConvert:
		return func(m *Machine, fr *frame) { unsup("multiconvert") }
	case *ssa.SliceToArrayPointer:
		return func(m *Machine, fr *frame) { unsup("slice to array pointer") }
	case *ssa.MakeInterface:
		x := fi.op(in.X)
		t := in.X.Type()
		return func(m *Machine, fr *frame) { fr.env[dst] = iface{t, copyVal(x.get(m, fr))} }
	case *ssa.Extract:
		x := fi.op(in.Tuple)
		i := in.Index
		return func(m *Machine, fr *frame) { fr.env[dst] = x.get(m, fr).(tuple)[i] }
	case *ssa.Slice:
		return compileSlice(fi, in, dst)
	case *ssa.Store:
		a, v := fi.op(in.Addr), fi.op(in.Val)
		return func(m *Machine, fr *frame) {
			ad, ok := a.get(m, fr).(*value)
			if !ok {
				unsup("store through %T", a.get(m, fr))
			}
			m.store(fr.g, ad, copyVal(v.get(m, fr)))
		}
	case *ssa.Defer:
		f := compileCall(fi, &in.Call)
		return func(m *Machine, fr *frame) {
			m.noSpec("defer")
			fn, args := f(m, fr)
			fr.defers = append(fr.defers, deferred{fn, args})
		}
	case *ssa.RunDefers:
		return func(m *Machine, fr *frame) {
			if len(fr.defers) > 0 {
				m.noSpec("run defers")
			}
			m.runDefers(fr)
			if fr.panicking != nil {
				p := *fr.panicking
				panic(p)
			}
		}
	case *ssa.Go:
		f := compileCall(fi, &in.Call)
		return func(m *Machine, fr *frame) {
			fn, args := f(m, fr)
			m.spawn(fr.g, fn, args)
		}
	case *ssa.MakeChan:
		sz := fi.op(in.Size)
		zsz := types.SizesFor("gc", "amd64").Sizeof(under(in.Type()).(*types.Chan).Elem()) == 0
		return func(m *Machine, fr *frame) {
			n := m.concretize(sz.get(m, fr), true)
			if n < 0 {
				rtPanic("makechan: size out of range")
			}
			fr.env[dst] = m.newChan(fr.g, int(n), zsz)
		}
	case *ssa.Alloc:
		t := deref(in.Type())
		return func(m *Machine, fr *frame) {
			var cell value = m.zero(t)
			fr.env[dst] = &cell
		}
	case *ssa.MakeSlice:
		ln, cp := fi.op(in.Len), fi.op(in.Cap)
		et := under(in.Type()).(*types.Slice).Elem()
		return func(m *Machine, fr *frame) {
			n := m.concretize(ln.get(m, fr), true)
			c := m.concretize(cp.get(m, fr), true)
			if n < 0 || n > 1<<40 {
				rtPanic("makeslice: len out of range")
			}
			if c < n {
				rtPanic("makeslice: cap out of range")
			}
			if c > 1<<24 {
				unsup("slice of %d elements", c)
			}
			s := make([]value, c)
			for i := range s {
				s[i] = m.zero(et)
			}
			fr.env[dst] = s[:n]
		}
	case *ssa.MakeMap:
		return func(m *Machine, fr *frame) { fr.env[dst] = &Map{idx: map[string]*mapEnt{}} }
	case *ssa.Range:
		x := fi.op(in.X)
		return func(m *Machine, fr *frame) {
			m.noSpec("range")
			switch v := x.get(m, fr).(type) {
			case *Map:
				fr.env[dst] = &mapIter{m: v}
			case string:
				fr.env[dst] = &strIter{s: v}
			default:
				unsup("range over %T", v)
			}
		}
	case *ssa.Next:
		x := fi.op(in.Iter)
		tt := in.Type().(*types.Tuple)
		return func(m *Machine, fr *frame) {
			m.noSpec("next")
			switch it := x.get(m, fr).(type) {
			case *mapIter:
				for it.m != nil && it.i < len(it.m.ents) && it.m.ents[it.i].dead {
					it.i++
				}
				if it.m == nil || it.i >= len(it.m.ents) {
					r := tuple{false, nil, nil}
					for k := 1; k < 3; k++ {
						if b, ok := tt.At(k).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
							r[k] = m.zero(tt.At(k).Type())
						}
					}
					fr.env[dst] = r
					return
				}
				e := it.m.ents[it.i]
				it.i++
				fr.env[dst] = tuple{true, copyVal(e.k), copyVal(e.v)}
			case *strIter:
				if it.i >= len(it.s) {
					fr.env[dst] = tuple{false, int64(0), int64(0)}
					return
				}
				r, n := utf8.DecodeRuneInString(it.s[it.i:])
				fr.env[dst] = tuple{true, int64(it.i), int64(r)}
				it.i += n
			}
		}
	case *ssa.FieldAddr:
		x := fi.op(in.X)
		f := in.Field
		return func(m *Machine, fr *frame) {
			p, ok := x.get(m, fr).(*value)
			if !ok {
				unsup("field address of %T", x.get(m, fr))
			}
			if p == nil {
				rtPanic("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(structure)
			if !ok {
				unsup("field address in %T", *p)
			}
			fr.env[dst] = &s[f]
		}
	case *ssa.Field:
		x := fi.op(in.X)
		f := in.Field
		return func(m *Machine, fr *frame) { fr.env[dst] = copyVal(x.get(m, fr).(structure)[f]) }
	case *ssa.IndexAddr:
		x, ix := fi.op(in.X), fi.op(in.Index)
		_, sgn := intTypeOr(in.Index.Type())
		return func(m *Machine, fr *frame) {
			iv := ix.get(m, fr)
			var i int64
			if c, ok := iv.(int64); ok {
				i = c
			} else {
				i = m.concretize(iv, sgn)
			}
			switch c := x.get(m, fr).(type) {
			case []value:
				if i < 0 || i >= int64(len(c)) {
					rtPanic("index out of range [%d] with length %d at %s", i, len(c), posOf(fi.fn, in.Pos()))
				}
				fr.env[dst] = &c[i]
			case *value:
				if c == nil {
					rtPanic("invalid memory address or nil pointer dereference")
				}
				switch a := (*c).(type) {
				case array:
					if i < 0 || i >= int64(len(a)) {
						rtPanic("index out of range [%d] with length %d", i, len(a))
					}
					fr.env[dst] = &a[i]
				case Fe:
					if i < 0 || i >= 4 {
						rtPanic("index out of range [%d] with length 4", i)
					}
					l := m.feLimbs(a)
					m.noSpec("limb view")
					*c = l
					fr.env[dst] = &l[i]
				default:
					unsup("index address in %T", *c)
				}
			default:
				unsup("index address of %T", c)
			}
		}
	case *ssa.Index:
		x, ix := fi.op(in.X), fi.op(in.Index)
		_, sgn := intTypeOr(in.Index.Type())
		return func(m *Machine, fr *frame) {
			i := m.concretize(ix.get(m, fr), sgn)
			switch c := x.get(m, fr).(type) {
			case array:
				if i < 0 || i >= int64(len(c)) {
					rtPanic("index out of range [%d] with length %d", i, len(c))
				}
				fr.env[dst] = copyVal(c[i])
			case string:
				if i < 0 || i >= int64(len(c)) {
					rtPanic("index out of range [%d] with length %d", i, len(c))
				}
				fr.env[dst] = int64(c[i])
			case Fe:
				fr.env[dst] = m.feLimbs(c)[i]
			default:
				unsup("index of %T", c)
			}
		}
	case *ssa.Lookup:
		x, ix := fi.op(in.X), fi.op(in.Index)
		commaOk := in.CommaOk
		var et types.Type
		if mt, ok := under(in.X.Type()).(*types.Map); ok {
			et = mt.Elem()
		}
		return func(m *Machine, fr *frame) {
			switch c := x.get(m, fr).(type) {
			case *Map:
				if m.log != nil && c != nil {
					m.log.touch(fr.g, c, false)
				}
				e := m.mapFind(c, ix.get(m, fr))
				var v value
				if e != nil {
					v = copyVal(e.v)
				} else {
					v = m.zero(et)
				}
				if commaOk {
					fr.env[dst] = tuple{v, e != nil}
				} else {
					fr.env[dst] = v
				}
			case string:
				i := m.concretize(ix.get(m, fr), true)
				if i < 0 || i >= int64(len(c)) {
					rtPanic("index out of range [%d] with length %d", i, len(c))
				}
				fr.env[dst] = int64(c[i])
			default:
				unsup("lookup in %T", c)
			}
		}
	case *ssa.MapUpdate:
		x, k, v := fi.op(in.Map), fi.op(in.Key), fi.op(in.Value)
		return func(m *Machine, fr *frame) {
			mp := x.get(m, fr).(*Map)
			if m.log != nil && mp != nil {
				m.log.touch(fr.g, mp, true)
			}
			m.mapSet(mp, copyVal(k.get(m, fr)), copyVal(v.get(m, fr)))
		}
	case *ssa.TypeAssert:
		x := fi.op(in.X)
		t := in.AssertedType
		return func(m *Machine, fr *frame) {
			i := x.get(m, fr).(iface)
			ok := false
			var v value
			if it, is := under(t).(*types.Interface); is {
				if i.t != nil && types.Implements(i.t, it) {
					ok = true
					v = i
				}
				if !ok {
					v = iface{}
				}
			} else {
				if i.t != nil && types.Identical(i.t, t) {
					ok = true
					v = copyVal(i.v)
				} else {
					v = m.zero(t)
				}
			}
			if in.CommaOk {
				fr.env[dst] = tuple{v, ok}
				return
			}
			if !ok {
				rtPanic("interface conversion to %s", t)
			}
			fr.env[dst] = v
		}
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var ops []opnd
		for _, b := range in.Bindings {
			ops = append(ops, fi.op(b))
		}
		return func(m *Machine, fr *frame) {
			env := make([]value, len(ops))
			for i := range ops {
				env[i] = ops[i].get(m, fr)
			}
			fr.env[dst] = &closure{fn, env}
		}
	case *ssa.Send:
		c, x := fi.op(in.Chan), fi.op(in.X)
		return func(m *Machine, fr *frame) {
			m.chanSend(fr.g, c.get(m, fr).(*Chan), copyVal(x.get(m, fr)))
		}
	case *ssa.Select:
		return compileSelect(fi, in, dst)
	}
	s := fmt.Sprintf("%T %s in %s", in, in, fi.fn)
	return func(m *Machine, fr *frame) { unsup("instruction %s", s) }
}

type mapIter struct {
	m *Map
	i int
}
type strIter struct {
	s string
	i int
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func intTypeOr(t types.Type) (int, bool) {
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return intType(t)
	}
	return 64, true
}

func compileSlice(fi *fnInfo, in *ssa.Slice, dst int) func(m *Machine, fr *frame) {
	x, lo, hi, mx := fi.op(in.X), fi.op2(in.Low), fi.op2(in.High), fi.op2(in.Max)
	return func(m *Machine, fr *frame) {
		geti := func(o *opnd, def int) int {
			if o == nil {
				return def
			}
			return int(m.concretize(o.get(m, fr), true))
		}
		switch c := x.get(m, fr).(type) {
		case string:
			l, h := geti(lo, 0), geti(hi, len(c))
			if l < 0 || h < l || h > len(c) {
				rtPanic("slice bounds out of range [%d:%d] with length %d", l, h, len(c))
			}
			fr.env[dst] = c[l:h]
		case []value:
			h, l := geti(hi, len(c)), geti(lo, 0)
			k := geti(mx, cap(c))
			if h < 0 || l < 0 || l > h || h > k || k > cap(c) {
				rtPanic("slice bounds out of range [%d:%d:%d] with capacity %d at %s", l, h, k, cap(c), posOf(fi.fn, in.Pos()))
			}
			if c == nil {
				fr.env[dst] = []value(nil)
				return
			}
			fr.env[dst] = c[l:h:k]
		case *value:
			if c == nil {
				rtPanic("invalid memory address or nil pointer dereference")
			}
			if f, ok := (*c).(Fe); ok {
				m.noSpec("limb view")
				*c = m.feLimbs(f)
			}
			a := []value((*c).(array))
			h, l := geti(hi, len(a)), geti(lo, 0)
			k := geti(mx, cap(a))
			if h < 0 || l < 0 || l > h || h > k || k > cap(a) {
				rtPanic("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, k, cap(a))
			}
			fr.env[dst] = a[l:h:k]
		default:
			unsup("slice of %T", c)
		}
	}
}

func (fi *fnInfo) op2(v ssa.Value) *opnd {
	if v == nil {
		return nil
	}
	o := fi.op(v)
	return &o
}

func compileConvert(fi *fnInfo, in *ssa.Convert, dst int) func(m *Machine, fr *frame) {
	x := fi.op(in.X)
	src, dt := under(in.X.Type()), under(in.Type())
	sb, sok := src.(*types.Basic)
	db, dok := dt.(*types.Basic)
	if sok && dok {
		si, di := sb.Info(), db.Info()
		switch {
		case si&types.IsInteger != 0 && di&types.IsInteger != 0:
			_, ss := intType(src)
			w, s := intType(dt)
			return func(m *Machine, fr *frame) {
				v := x.get(m, fr)
				if c, ok := v.(int64); ok {
					fr.env[dst] = truncInt(c, w, s)
					return
				}
				fr.env[dst] = m.fromV(m.st.VConv(v.(*V), w, ss), s)
			}
		case si&types.IsInteger != 0 && di&types.IsFloat != 0:
			_, ss := intType(src)
			return func(m *Machine, fr *frame) {
				c, ok := x.get(m, fr).(int64)
				if !ok {
					// floating point is executed on concrete values only: exhaustive for small domains,
					// both ends of the domain and inconclusive otherwise
					c = m.concretizeUpTo(x.get(m, fr), ss, 12, "floating-point number", true)
				}
				var f float64
				if ss {
					f = float64(c)
				} else {
					f = float64(uint64(c))
				}
				if db.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				fr.env[dst] = f
			}
		case si&types.IsFloat != 0 && di&types.IsInteger != 0:
			w, s := intType(dt)
			return func(m *Machine, fr *frame) {
				f := x.get(m, fr).(float64)
				if s {
					fr.env[dst] = truncInt(int64(f), w, s)
				} else {
					fr.env[dst] = truncInt(int64(uint64(f)), w, s)
				}
			}
		case si&types.IsFloat != 0 && di&types.IsFloat != 0:
			return func(m *Machine, fr *frame) {
				f := x.get(m, fr).(float64)
				if db.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				fr.env[dst] = f
			}
		case si&types.IsString != 0 && di&types.IsString != 0:
			return func(m *Machine, fr *frame) { fr.env[dst] = x.get(m, fr) }
		case si&types.IsInteger != 0 && di&types.IsString != 0:
			return func(m *Machine, fr *frame) { fr.env[dst] = string(rune(x.get(m, fr).(int64))) }
		}
	}
	if sok && sb.Info()&types.IsString != 0 {
		if sl, ok := dt.(*types.Slice); ok {
			eb, _ := under(sl.Elem()).(*types.Basic)
			return func(m *Machine, fr *frame) {
				s, ok := x.get(m, fr).(string)
				if !ok {
					unsup("bytes of a symbolic string")
				}
				var out []value
				if eb.Kind() == types.Uint8 {
					for i := 0; i < len(s); i++ {
						out = append(out, int64(s[i]))
					}
				} else {
					for _, r := range s {
						out = append(out, int64(r))
					}
				}
				if out == nil {
					out = []value{}
				}
				fr.env[dst] = out
			}
		}
	}
	if dok && db.Info()&types.IsString != 0 {
		if sl, ok := src.(*types.Slice); ok {
			eb, _ := under(sl.Elem()).(*types.Basic)
			return func(m *Machine, fr *frame) {
				var sbd strings.Builder
				for _, v := range x.get(m, fr).([]value) {
					c, ok := v.(int64)
					if !ok {
						unsup("string of symbolic bytes")
					}
					if eb.Kind() == types.Uint8 {
						sbd.WriteByte(byte(c))
					} else {
						sbd.WriteRune(rune(c))
					}
				}
				fr.env[dst] = sbd.String()
			}
		}
	}
	if _, ok := src.(*types.Pointer); ok {
		return func(m *Machine, fr *frame) { unsup("pointer conversion %s -> %s", in.X.Type(), in.Type()) }
	}
	return func(m *Machine, fr *frame) { unsup("conversion %s -> %s", in.X.Type(), in.Type()) }
}

func compileBinOp(fi *fnInfo, in *ssa.BinOp, dst int) func(m *Machine, fr *frame) {
	x, y := fi.op(in.X), fi.op(in.Y)
	op := in.Op
	t := in.X.Type()
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		return func(m *Machine, fr *frame) {
			a, b := x.get(m, fr), y.get(m, fr)
			if p, ok := a.(int64); ok {
				if q, ok := b.(int64); ok {
					fr.env[dst] = (p == q) != neg
					return
				}
			}
			r := m.equalsAny(a, b)
			if neg {
				if v, ok := r.(bool); ok {
					r = !v
				} else {
					r = m.fromB(m.st.Not(r.(*B)))
				}
			}
			fr.env[dst] = r
		}
	}
	if isString(t) {
		return func(m *Machine, fr *frame) {
			a, b := x.get(m, fr), y.get(m, fr)
			if op == token.ADD {
				fr.env[dst] = strCat(a, b)
				return
			}
			p, ok1 := a.(string)
			q, ok2 := b.(string)
			if !ok1 || !ok2 {
				unsup("ordering of symbolic strings")
			}
			switch op {
			case token.LSS:
				fr.env[dst] = p < q
			case token.LEQ:
				fr.env[dst] = p <= q
			case token.GTR:
				fr.env[dst] = p > q
			case token.GEQ:
				fr.env[dst] = p >= q
			}
		}
	}
	if isFloat(t) {
		return func(m *Machine, fr *frame) {
			a, b := x.get(m, fr).(float64), y.get(m, fr).(float64)
			switch op {
			case token.ADD:
				fr.env[dst] = a + b
			case token.SUB:
				fr.env[dst] = a - b
			case token.MUL:
				fr.env[dst] = a * b
			case token.QUO:
				fr.env[dst] = a / b
			case token.LSS:
				fr.env[dst] = a < b
			case token.LEQ:
				fr.env[dst] = a <= b
			case token.GTR:
				fr.env[dst] = a > b
			case token.GEQ:
				fr.env[dst] = a >= b
			default:
				unsup("float op %s", op)
			}
			if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Float32 {
				if f, ok := fr.env[dst].(float64); ok {
					fr.env[dst] = float64(float32(f))
				}
			}
		}
	}
	b, ok := under(t).(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		if ok && b.Info()&types.IsBoolean != 0 {
			return func(m *Machine, fr *frame) {
				p, q := m.toB(x.get(m, fr)), m.toB(y.get(m, fr))
				switch op {
				case token.AND, token.LAND:
					fr.env[dst] = m.fromB(m.st.And(p, q))
				case token.OR, token.LOR:
					fr.env[dst] = m.fromB(m.st.Or(p, q))
				default:
					unsup("bool op %s", op)
				}
			}
		}
		return func(m *Machine, fr *frame) { unsup("binop %s on %s", op, t) }
	}
	w, s := intType(t)
	var yw int
	var ys bool
	if op == token.SHL || op == token.SHR {
		yw, ys = intTypeOr(in.Y.Type())
	}
	pos := in.Pos()
	return func(m *Machine, fr *frame) {
		av, bv := x.get(m, fr), y.get(m, fr)
		a, ok1 := av.(int64)
		b, ok2 := bv.(int64)
		if ok1 && ok2 {
			fr.env[dst] = concBin(op, a, b, w, s, ys, fi, pos)
			return
		}
		fr.env[dst] = m.symBin(fr, op, av, bv, w, s, yw, ys)
	}
}

func concBin(op token.Token, a, b int64, w int, s, ys bool, fi *fnInfo, pos token.Pos) value {
	switch op {
	case token.ADD:
		return truncInt(a+b, w, s)
	case token.SUB:
		return truncInt(a-b, w, s)
	case token.MUL:
		return truncInt(a*b, w, s)
	case token.QUO, token.REM:
		if b == 0 {
			rtPanic("integer divide by zero at %s", posOf(fi.fn, pos))
		}
		if s {
			if b == -1 {
				if op == token.REM {
					return int64(0)
				}
				return truncInt(-a, w, s)
			}
			if op == token.QUO {
				return truncInt(a/b, w, s)
			}
			return a % b
		}
		if op == token.QUO {
			return int64(uint64(a) / uint64(b))
		}
		return int64(uint64(a) % uint64(b))
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return truncInt(a^b, w, s)
	case token.AND_NOT:
		return a &^ b
	case token.SHL, token.SHR:
		if ys && b < 0 {
			rtPanic("negative shift amount")
		}
		c := uint64(b)
		if op == token.SHL {
			if c >= 64 {
				return int64(0)
			}
			return truncInt(a<<c, w, s)
		}
		if s {
			if c >= 64 {
				c = 63
			}
			return a >> c
		}
		if c >= 64 {
			return int64(0)
		}
		return int64(uint64(a) >> c)
	}
	if s {
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	ua, ub := uint64(a), uint64(b)
	switch op {
	case token.LSS:
		return ua < ub
	case token.LEQ:
		return ua <= ub
	case token.GTR:
		return ua > ub
	case token.GEQ:
		return ua >= ub
	}
	return unsup("binop %s", op)
}

func (m *Machine) symBin(fr *frame, op token.Token, av, bv value, w int, s bool, yw int, ys bool) value {
	st := m.st
	if op == token.SHL || op == token.SHR {
		b := m.toV(bv, yw)
		if ys {
			if m.truth(m.fromB(st.VCmp("bvslt", b, st.VConst(0, yw)))) {
				rtPanic("negative shift amount")
			}
		}
		a := m.toV(av, w)
		// saturate the count when it does not fit the operand width
		var c *V
		if yw > w {
			big := st.VCmp("bvult", st.VConst(uint64(w), yw), b)
			c = st.VIte(big, st.VConst(uint64(w), w), st.VConv(b, w, false))
		} else {
			c = st.VConv(b, w, false)
		}
		o := "bvshl"
		if op == token.SHR {
			o = "bvlshr"
			if s {
				o = "bvashr"
			}
		}
		return m.fromV(st.VOp(o, a, c), s)
	}
	a, b := m.toV(av, w), m.toV(bv, w)
	pick := func(sg, un string) string {
		if s {
			return sg
		}
		return un
	}
	switch op {
	case token.ADD:
		return m.fromV(st.VOp("bvadd", a, b), s)
	case token.SUB:
		return m.fromV(st.VOp("bvsub", a, b), s)
	case token.MUL:
		return m.fromV(st.VOp("bvmul", a, b), s)
	case token.QUO, token.REM:
		if m.truth(m.fromB(st.VCmp("=", b, st.VConst(0, w)))) {
			rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			return m.fromV(st.VOp(pick("bvsdiv", "bvudiv"), a, b), s)
		}
		return m.fromV(st.VOp(pick("bvsrem", "bvurem"), a, b), s)
	case token.AND:
		return m.fromV(st.VOp("bvand", a, b), s)
	case token.OR:
		return m.fromV(st.VOp("bvor", a, b), s)
	case token.XOR:
		return m.fromV(st.VOp("bvxor", a, b), s)
	case token.AND_NOT:
		return m.fromV(st.VOp("bvand", a, st.VOp("bvxor", b, st.VConst(^uint64(0), w))), s)
	case token.LSS:
		return m.fromB(st.VCmp(pick("bvslt", "bvult"), a, b))
	case token.LEQ:
		return m.fromB(st.VCmp(pick("bvsle", "bvule"), a, b))
	case token.GTR:
		return m.fromB(st.VCmp(pick("bvslt", "bvult"), b, a))
	case token.GEQ:
		return m.fromB(st.VCmp(pick("bvsle", "bvule"), b, a))
	}
	return unsup("symbolic binop %s", op)
}

func strCat(a, b value) value {
	p, ok1 := a.(string)
	q, ok2 := b.(string)
	if ok1 && ok2 {
		return p + q
	}
	var parts []interface{}
	for _, v := range []value{a, b} {
		switch v := v.(type) {
		case string:
			if v != "" {
				parts = append(parts, v)
			}
		case *SymStr:
			parts = append(parts, v.parts...)
		default:
			unsup("concatenation of %T", v)
		}
	}
	return &SymStr{parts}
}

// equalsAny compares operands of == in Go code, including nil comparisons of any reference kind.
func (m *Machine) equalsAny(a, b value) value {
	isNil := func(v value) (bool, bool) {
		switch v := v.(type) {
		case *ssa.Function:
			return v == nil, true
		case *closure, native, *ssa.Builtin:
			return false, true
		}
		return false, false
	}
	if x, ok := isNil(a); ok {
		y, _ := isNil(b)
		if x || y {
			return x == y
		}
	}
	if c, ok := a.([]value); ok {
		if d, ok := b.([]value); ok {
			if c == nil || d == nil {
				return c == nil && d == nil
			}
		}
	}
	return m.equals(a, b)
}

// ---------- calls

func compileCall(fi *fnInfo, c *ssa.CallCommon) func(m *Machine, fr *frame) (value, []value) {
	var args []opnd
	for _, a := range c.Args {
		args = append(args, fi.op(a))
	}
	fn := fi.op(c.Value)
	meth := c.Method
	return func(m *Machine, fr *frame) (value, []value) {
		f := fn.get(m, fr)
		var vs []value
		if meth != nil {
			recv, ok := f.(iface)
			if !ok {
				unsup("method call on %T", f)
			}
			if recv.t == nil {
				rtPanic("invalid memory address or nil pointer dereference")
			}
			impl := m.method(recv.t, meth)
			if impl == nil {
				unsup("no method %s on %s", meth, recv.t)
			}
			f = impl
			vs = make([]value, 0, len(args)+1)
			vs = append(vs, copyVal(recv.v))
		} else {
			vs = make([]value, 0, len(args))
		}
		for i := range args {
			vs = append(vs, copyVal(args[i].get(m, fr)))
		}
		return f, vs
	}
}

func (m *Machine) method(t types.Type, f *types.Func) *ssa.Function {
	m.p.mu.Lock()
	defer m.p.mu.Unlock()
	return m.p.prog.LookupMethod(t, f.Pkg(), f.Name())
}

func (m *Machine) callAny(fr *frame, fn value, args []value, in *ssa.Call) value {
	if b, ok := fn.(*ssa.Builtin); ok {
		return m.builtin(fr.g, fr, b, args, in)
	}
	return m.call(fr.g, fr, fn, args)
}

func (m *Machine) builtin(g *Gor, fr *frame, b *ssa.Builtin, args []value, in *ssa.Call) value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		x := args[0].([]value)
		var y []value
		switch v := args[1].(type) {
		case []value:
			y = v
		case string:
			for i := 0; i < len(v); i++ {
				y = append(y, int64(v[i]))
			}
		default:
			unsup("append %T", v)
		}
		if m.log != nil {
			for i := range y {
				m.log.access(g, &y[i], false)
			}
		}
		if len(y) == 0 {
			return x
		}
		n := len(x) + len(y)
		if n <= cap(x) {
			r := x[:n]
			tmp := make([]value, len(y))
			for i := range y {
				tmp[i] = copyVal(y[i])
			}
			for i := range tmp {
				m.store(g, &r[len(x)+i], tmp[i])
			}
			return r
		}
		// growth policy of the Go runtime for small element sizes is not modelled: capacities double
		nc := n
		if cap(x) > 0 && 2*cap(x) > nc {
			nc = 2 * cap(x)
		}
		et := under(b.Type().(*types.Signature).Params().At(0).Type()).(*types.Slice).Elem()
		r := make([]value, nc)
		for i := range x {
			if m.log != nil {
				m.log.access(g, &x[i], false)
			}
			r[i] = copyVal(x[i])
		}
		for i := range y {
			r[len(x)+i] = copyVal(y[i])
		}
		for i := n; i < nc; i++ {
			r[i] = m.zero(et)
		}
		return r[:n]
	case "copy":
		x := args[0].([]value)
		var y []value
		switch v := args[1].(type) {
		case []value:
			y = v
		case string:
			for i := 0; i < len(v); i++ {
				y = append(y, int64(v[i]))
			}
		}
		n := min(len(x), len(y))
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(m.load(g, &y[i]))
		}
		for i := 0; i < n; i++ {
			m.store(g, &x[i], tmp[i])
		}
		return int64(n)
	case "len":
		switch v := args[0].(type) {
		case []value:
			return int64(len(v))
		case string:
			return int64(len(v))
		case array:
			return int64(len(v))
		case Fe:
			return int64(4)
		case *value:
			switch a := (*v).(type) {
			case array:
				return int64(len(a))
			case Fe:
				return int64(4)
			}
		case *Map:
			if v == nil {
				return int64(0)
			}
			return int64(v.n)
		case *Chan:
			if v == nil {
				return int64(0)
			}
			return int64(len(v.buf))
		}
		return unsup("len of %T", args[0])
	case "cap":
		switch v := args[0].(type) {
		case []value:
			return int64(cap(v))
		case array:
			return int64(len(v))
		case *value:
			return int64(len((*v).(array)))
		case *Chan:
			if v == nil {
				return int64(0)
			}
			return int64(v.cap)
		}
		return unsup("cap of %T", args[0])
	case "delete":
		if mp := args[0].(*Map); mp != nil {
			m.mapDel(mp, args[1])
		}
		return nil
	case "panic":
		panic(targetPanic{args[0], showVal(args[0])})
	case "recover":
		// recover is called by a deferred function: its caller frame holds the panicking state
		c := fr.caller
		if c != nil && c.panicking != nil {
			p := c.panicking
			c.panicking = nil
			c.recovered = true
			return p.v
		}
		return iface{}
	case "close":
		m.chanClose(g, args[0].(*Chan))
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			p, ok1 := r.(int64)
			q, ok2 := a.(int64)
			if !ok1 || !ok2 {
				if f, ok := r.(float64); ok {
					if b.Name() == "min" {
						r = math.Min(f, a.(float64))
					} else {
						r = math.Max(f, a.(float64))
					}
					continue
				}
				w, s := intType(b.Type().(*types.Signature).Params().At(0).Type())
				vp, vq := m.toV(r, w), m.toV(a, w)
				o := "bvult"
				if s {
					o = "bvslt"
				}
				c := m.st.VCmp(o, vp, vq)
				if b.Name() == "max" {
					c = m.st.VCmp(o, vq, vp)
				}
				r = m.fromV(m.st.VIte(c, vp, vq), s)
				continue
			}
			_, s := intType(b.Type().(*types.Signature).Params().At(0).Type())
			less := q < p
			if !s {
				less = uint64(q) < uint64(p)
			}
			if b.Name() == "max" {
				less = !less && p != q
			}
			if less {
				r = a
			}
		}
		return r
	case "clear":
		switch v := args[0].(type) {
		case *Map:
			m.noSpec("clear")
			v.ents, v.idx, v.n, v.sym = nil, map[string]*mapEnt{}, 0, false
		case []value:
			for i := range v {
				m.store(g, &v[i], zeroLike(m, v[i]))
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			rtPanic("value method called using nil pointer")
		}
		return args[0]
	}
	return unsup("builtin %s", b.Name())
}

func zeroLike(m *Machine, v value) value {
	switch v.(type) {
	case Fe:
		return Fe{m.st.zero}
	case int64, *V:
		return int64(0)
	case bool, *B:
		return false
	case string, *SymStr:
		return ""
	}
	return unsup("clear of %T", v)
}
