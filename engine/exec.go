package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func lastPosOf(b *ssa.BasicBlock, fn *ssa.Function) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return fn.Pos()
}

func (m *Machine) describe(v Value) string {
	switch v := v.(type) {
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return v.t.String() + ":" + m.describe(v.v)
	case Str:
		return m.strDebug(v)
	case *Expr:
		return v.String()
	case Ptr:
		if v.a == nil {
			return "nil"
		}
		if len(v.a.e) > v.i {
			if a, ok := v.a.e[v.i].(*Agg); ok && len(a.e) > 0 {
				return "&{" + m.describe(a.e[0]) + "..}"
			}
		}
		return "ptr"
	}
	return fmt.Sprintf("%T", v)
}

func (m *Machine) exec(fr *frame, ci *cinstr) {
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		a := &Agg{e: []Value{m.zero(in.Type().(*types.Pointer).Elem())}, epoch: m.epoch}
		fr.regs[ci.dst] = Ptr{a: a}
	case *ssa.BinOp:
		m.lastPos = in.Pos()
		fr.regs[ci.dst] = m.binop(in.Op, in.X.Type(), in.Y.Type(), m.get(fr, &ci.ops[0]), m.get(fr, &ci.ops[1]))
	case *ssa.UnOp:
		m.lastPos = in.Pos()
		x := m.get(fr, &ci.ops[0])
		switch in.Op {
		case token.MUL:
			p, ok := x.(Ptr)
			if !ok {
				panic(&engineError{fmt.Sprintf("load through %T in %v", x, fr.fn)})
			}
			v := m.load(p)
			// reinterpretation through unsafe pointers
			if sl, ok := v.(Slice); ok {
				if b, isb := under(in.Type()).(*types.Basic); isb && b.Info()&types.IsString != 0 {
					v = m.sliceToStr(sl)
				}
			}
			fr.regs[ci.dst] = v
		case token.NOT:
			fr.regs[ci.dst] = m.c.Not(x.(*Expr))
		case token.SUB:
			switch x := x.(type) {
			case *Expr:
				fr.regs[ci.dst] = m.c.Neg(x)
			case float64:
				fr.regs[ci.dst] = -x
			}
		case token.XOR:
			fr.regs[ci.dst] = m.c.BNot(x.(*Expr))
		default:
			m.unsupported("unop " + in.Op.String())
		}
	case *ssa.Store:
		m.lastPos = in.Pos()
		p, ok := m.get(fr, &ci.ops[0]).(Ptr)
		if !ok {
			panic(&engineError{fmt.Sprintf("store through non-pointer in %v", fr.fn)})
		}
		m.store(p, m.get(fr, &ci.ops[1]))
	case *ssa.FieldAddr:
		p := m.get(fr, &ci.ops[0]).(Ptr)
		if p.a == nil {
			m.lastPos = in.Pos()
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if p.sym != nil {
			p = m.fixPtr(p)
		}
		sa, ok := p.a.e[p.i].(*Agg)
		if !ok {
			m.unsupported(fmt.Sprintf("field address into %T", p.a.e[p.i]))
		}
		fr.regs[ci.dst] = Ptr{a: sa, i: in.Field}
	case *ssa.Field:
		a, ok := m.get(fr, &ci.ops[0]).(*Agg)
		if !ok {
			m.unsupported("field of opaque value")
		}
		fr.regs[ci.dst] = m.copyVal(a.e[in.Field])
	case *ssa.IndexAddr:
		m.lastPos = in.Pos()
		idx := m.get(fr, &ci.ops[1]).(*Expr)
		_, signed, _ := typeInt(in.Index.Type())
		switch x := m.get(fr, &ci.ops[0]).(type) {
		case Slice:
			k, sym := m.index(idx, signed, x.len)
			if sym != nil {
				fr.regs[ci.dst] = m.symPtr(x.a, x.off, x.len, sym)
			} else {
				fr.regs[ci.dst] = Ptr{a: x.a, i: x.off + k}
			}
		case Ptr:
			if x.a == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			if x.sym != nil {
				x = m.fixPtr(x)
			}
			arr := x.a.e[x.i].(*Agg)
			k, sym := m.index(idx, signed, len(arr.e))
			if sym != nil {
				fr.regs[ci.dst] = m.symPtr(arr, 0, len(arr.e), sym)
			} else {
				fr.regs[ci.dst] = Ptr{a: arr, i: k}
			}
		default:
			panic(&engineError{fmt.Sprintf("indexaddr %T", x)})
		}
	case *ssa.Index:
		m.lastPos = in.Pos()
		idx := m.get(fr, &ci.ops[1]).(*Expr)
		_, signed, _ := typeInt(in.Index.Type())
		switch x := m.get(fr, &ci.ops[0]).(type) {
		case *Agg:
			k, sym := m.index(idx, signed, len(x.e))
			if sym != nil {
				fr.regs[ci.dst] = m.symLoad(x, 0, len(x.e), sym)
			} else {
				fr.regs[ci.dst] = m.copyVal(x.e[k])
			}
		case Str:
			fr.regs[ci.dst] = m.strIndex(x, idx, signed)
		default:
			panic(&engineError{fmt.Sprintf("index %T", x)})
		}
	case *ssa.Lookup:
		m.lastPos = in.Pos()
		x := m.get(fr, &ci.ops[0])
		if s, ok := x.(Str); ok {
			_, signed, _ := typeInt(in.Index.Type())
			fr.regs[ci.dst] = m.strIndex(s, m.get(fr, &ci.ops[1]).(*Expr), signed)
			return
		}
		mv := x.(*MapV)
		i := m.mapFind(mv, m.get(fr, &ci.ops[1]))
		var v Value
		if i >= 0 {
			v = m.copyVal(mv.ents[i].v)
		} else {
			v = m.zero(under(in.X.Type()).(*types.Map).Elem())
		}
		if in.CommaOk {
			fr.regs[ci.dst] = Tuple{v, m.c.Bool(i >= 0)}
		} else {
			fr.regs[ci.dst] = v
		}
	case *ssa.MapUpdate:
		m.lastPos = in.Pos()
		m.mapSet(m.get(fr, &ci.ops[0]).(*MapV), m.get(fr, &ci.ops[1]), m.get(fr, &ci.ops[2]))
	case *ssa.Extract:
		fr.regs[ci.dst] = m.get(fr, &ci.ops[0]).(Tuple)[in.Index]
	case *ssa.ChangeType:
		fr.regs[ci.dst] = m.get(fr, &ci.ops[0])
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = m.get(fr, &ci.ops[0])
	case *ssa.MakeInterface:
		v := m.get(fr, &ci.ops[0])
		if iv, ok := v.(Iface); ok {
			fr.regs[ci.dst] = iv
		} else {
			fr.regs[ci.dst] = Iface{in.X.Type(), m.copyVal(v)}
		}
	case *ssa.Convert:
		m.lastPos = in.Pos()
		fr.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), m.get(fr, &ci.ops[0]))
	case *ssa.MultiConvert:
		m.lastPos = in.Pos()
		fr.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), m.get(fr, &ci.ops[0]))
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops))
		for i := range ci.ops {
			env[i] = m.get(fr, &ci.ops[i])
		}
		fr.regs[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.MakeMap:
		fr.regs[ci.dst] = m.newMap()
	case *ssa.MakeSlice:
		m.lastPos = in.Pos()
		ln := m.sizeArg(m.get(fr, &ci.ops[0]).(*Expr), in.Len.Type(), "makeslice: len out of range")
		cp := m.sizeArg(m.get(fr, &ci.ops[1]).(*Expr), in.Cap.Type(), "makeslice: cap out of range")
		if cp < ln {
			m.rtPanic("makeslice: cap out of range")
		}
		if cp > 1<<26 {
			m.unsupported("huge allocation")
		}
		fr.regs[ci.dst] = m.makeSlice(under(in.Type()).(*types.Slice).Elem(), ln, cp)
	case *ssa.MakeChan:
		fr.regs[ci.dst] = &ChanV{}
	case *ssa.Slice:
		m.lastPos = in.Pos()
		fr.regs[ci.dst] = m.sliceOp(fr, ci, in)
	case *ssa.SliceToArrayPointer:
		x := m.get(fr, &ci.ops[0]).(Slice)
		n := int(under(in.Type()).(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if x.len < n {
			m.rtPanic("cannot convert slice to array pointer: length too short")
		}
		if x.a == nil {
			fr.regs[ci.dst] = Ptr{}
			return
		}
		// pointer to a window of the backing array: only the exact-window case keeps aliasing
		if x.off == 0 && len(x.a.e) == n {
			fr.regs[ci.dst] = Ptr{a: &Agg{e: []Value{x.a}, epoch: m.epoch}}
			return
		}
		fr.regs[ci.dst] = Ptr{a: &Agg{e: []Value{m.window(x, n)}, epoch: m.epoch}}
	case *ssa.TypeAssert:
		m.lastPos = in.Pos()
		fr.regs[ci.dst] = m.typeAssert(in, m.get(fr, &ci.ops[0]).(Iface))
	case *ssa.Range:
		x := m.get(fr, &ci.ops[0])
		switch x := x.(type) {
		case Str:
			m.needStr(x)
			fr.regs[ci.dst] = &iterV{isStr: true, str: x}
		case *MapV:
			it := &iterV{m: x}
			if x != nil {
				it.ents = append([]mapEnt(nil), x.ents...)
				if m.mapNondet && len(it.ents) > 1 && m.inInit == 0 && strings.HasPrefix(pkgPathOf(in.Parent()), repoMod) {
					m.permute(it.ents)
				}
			}
			fr.regs[ci.dst] = it
		}
	case *ssa.Next:
		m.lastPos = in.Pos()
		fr.regs[ci.dst] = m.next(in, m.get(fr, &ci.ops[0]).(*iterV))
	case *ssa.Call:
		fr.regs[ci.dst] = m.doCall(fr, ci, in.Common())
		return
	case *ssa.Defer:
		m.doDefer(fr, ci, in)
	case *ssa.Go, *ssa.Select, *ssa.Send:
		m.unsupported("concurrency instruction")
	default:
		m.unsupported(fmt.Sprintf("instruction %T", in))
	}
}

// permute the entries nondeterministically (the scheduler forks over all orders)
func (m *Machine) permute(e []mapEnt) {
	n := len(e)
	if n > 4 {
		n = 4
	}
	for i := 0; i < n-1; i++ {
		m.nsym++
		v := m.c.Var(8, fmt.Sprintf("!perm%d", m.nsym))
		m.assume(m.c.Ult(v, m.c.Const(8, uint64(len(e)-i))))
		k := int(m.concretize(v))
		e[i], e[i+k] = e[i+k], e[i]
	}
}

func (m *Machine) window(x Slice, n int) *Agg {
	a := m.newAgg(n)
	copy(a.e, x.a.e[x.off:x.off+n])
	return a
}

func (m *Machine) fixPtr(p Ptr) Ptr {
	if p.sym == nil {
		return p
	}
	k := int(m.concretize(p.sym))
	return Ptr{a: p.a, i: p.i + k}
}

func (m *Machine) symPtr(a *Agg, off, n int, idx *Expr) Ptr {
	if n > 0 {
		if _, ok := a.e[off].(*Expr); ok && n <= 1<<16 {
			return Ptr{a: a, i: off, sym: idx, n: n}
		}
	}
	k := int(m.concretize(idx))
	return Ptr{a: a, i: off + k}
}

func (m *Machine) toInt64(e *Expr, signed bool) *Expr {
	if signed {
		return m.c.Sext(e, 64)
	}
	return m.c.Zext(e, 64)
}

// index does the bounds check; returns a concrete index or a symbolic one.
func (m *Machine) index(idx *Expr, signed bool, n int) (int, *Expr) {
	if idx.isConst() {
		var k int64
		if signed {
			k = sext64(idx.k, idx.w)
		} else {
			k = int64(idx.k)
		}
		if k < 0 || k >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return int(k), nil
	}
	e := m.toInt64(idx, signed)
	if !m.branch(m.c.Ult(e, m.c.Const(64, uint64(n)))) {
		m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	if n == 1 {
		return 0, nil
	}
	return 0, e
}

func (m *Machine) strIndex(s Str, idx *Expr, signed bool) Value {
	m.needStr(s)
	k, sym := m.index(idx, signed, s.Len())
	if sym == nil {
		return m.strByte(s, k)
	}
	if s.a == nil {
		sl := m.mkBytes([]byte(s.s))
		return m.symLoad(sl.a, 0, sl.len, sym)
	}
	return m.symLoad(s.a, s.off, s.n, sym)
}

func (m *Machine) sizeArg(e *Expr, t types.Type, msg string) int {
	_, signed, _ := typeInt(t)
	x := m.toInt64(e, signed)
	if !x.isConst() {
		// out of range first, so that concretisation only sees reasonable sizes
		if !m.branch(m.c.Ult(x, m.c.Const(64, 1<<47))) {
			m.rtPanic(msg)
		}
	}
	k := int64(m.concretize(x))
	if k < 0 || k > 1<<47 {
		m.rtPanic(msg)
	}
	return int(k)
}

func (m *Machine) makeSlice(elem types.Type, ln, cp int) Slice {
	a := m.newAgg(cp)
	if cp > 0 {
		z := m.zero(elem)
		if _, isAgg := z.(*Agg); isAgg {
			a.e[0] = z
			for i := 1; i < cp; i++ {
				a.e[i] = m.zero(elem)
			}
		} else {
			for i := range a.e {
				a.e[i] = z
			}
		}
	}
	return Slice{a, 0, ln, cp}
}

func (m *Machine) bound(fr *frame, o *opnd, v ssa.Value, def int, limit int) int {
	if v == nil {
		return def
	}
	e := m.get(fr, o).(*Expr)
	_, signed, _ := typeInt(v.Type())
	x := m.toInt64(e, signed)
	if !x.isConst() {
		if !m.branch(m.c.Ule(x, m.c.Const(64, uint64(limit)))) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [symbolic] with capacity %d", limit))
		}
	}
	k := int64(m.concretize(x))
	if k < 0 || k > int64(limit) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d] with capacity %d", k, limit))
	}
	return int(k)
}

func (m *Machine) sliceOp(fr *frame, ci *cinstr, in *ssa.Slice) Value {
	x := m.get(fr, &ci.ops[0])
	switch x := x.(type) {
	case Str:
		m.needStr(x)
		hi := m.bound(fr, &ci.ops[2], in.High, x.Len(), x.Len())
		lo := m.bound(fr, &ci.ops[1], in.Low, 0, x.Len())
		if lo > hi {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return m.substr(x, lo, hi)
	case Slice:
		max := m.bound(fr, &ci.ops[3], in.Max, x.cap, x.cap)
		hi := m.bound(fr, &ci.ops[2], in.High, x.len, max)
		lo := m.bound(fr, &ci.ops[1], in.Low, 0, max)
		if lo > hi {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return Slice{x.a, x.off + lo, hi - lo, max - lo}
	case Ptr:
		if x.a == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		x = m.fixPtr(x)
		arr := x.a.e[x.i].(*Agg)
		n := len(arr.e)
		max := m.bound(fr, &ci.ops[3], in.Max, n, n)
		hi := m.bound(fr, &ci.ops[2], in.High, n, max)
		lo := m.bound(fr, &ci.ops[1], in.Low, 0, max)
		if lo > hi {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return Slice{arr, lo, hi - lo, max - lo}
	}
	panic(&engineError{fmt.Sprintf("slice of %T", x)})
}

func (m *Machine) sliceToStr(s Slice) Str {
	if s.len == 0 {
		return Str{}
	}
	a := m.newAgg(s.len)
	copy(a.e, s.a.e[s.off:s.off+s.len])
	return m.normStr(Str{a: a, n: s.len})
}

func (m *Machine) next(in *ssa.Next, it *iterV) Value {
	if it.isStr {
		if it.pos >= it.str.Len() {
			return Tuple{m.c.fls, m.c.Const(64, 0), m.c.Const(32, 0)}
		}
		pos := it.pos
		r, sz := m.decodeRune(m.substr(it.str, pos, it.str.Len()))
		it.pos += sz
		return Tuple{m.c.tru, m.c.Const(64, uint64(pos)), r}
	}
	for it.pos < len(it.ents) {
		e := it.ents[it.pos]
		it.pos++
		// entries deleted during the iteration are not produced
		live := false
		for i := range it.m.ents {
			if k1, ok1 := m.ckey(it.m.ents[i].k); ok1 {
				if k2, ok2 := m.ckey(e.k); ok2 && k1 == k2 {
					live = true
					e = it.m.ents[i]
					break
				}
			} else {
				live = true
			}
		}
		if !live {
			continue
		}
		return Tuple{m.c.tru, m.copyVal(e.k), m.copyVal(e.v)}
	}
	t := in.Type().(*types.Tuple)
	z := Tuple{m.c.fls, nil, nil}
	for i := 1; i <= 2; i++ {
		if b, ok := t.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			continue
		}
		z[i] = m.zero(t.At(i).Type())
	}
	return z
}

func (m *Machine) decodeRune(s Str) (*Expr, int) {
	n := s.Len()
	if n > 4 {
		n = 4
		s = m.substr(s, 0, 4)
	}
	if s.a == nil {
		r, sz := utf8.DecodeRuneInString(s.s)
		return m.c.Const(32, uint64(uint32(r))), sz
	}
	b := m.strByte(s, 0)
	if m.branch(m.c.Ult(b, m.c.Const(8, 0x80))) {
		return m.c.Zext(b, 32), 1
	}
	f := m.L.fn("unicode/utf8.DecodeRuneInString")
	t := m.call(nil, f, []Value{s}, nil).(Tuple)
	return t[0].(*Expr), int(m.concretize(t[1].(*Expr)))
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := under(in.AssertedType).(*types.Interface); isI {
			ok = m.implements(x.t, it)
			v = x
		} else {
			ok = types.Identical(x.t, in.AssertedType)
			v = x.v
		}
	}
	if in.CommaOk {
		if !ok {
			v = m.zero(in.AssertedType)
		}
		return Tuple{v, m.c.Bool(ok)}
	}
	if !ok {
		have := "nil"
		if x.t != nil {
			have = x.t.String()
		}
		m.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", have, in.AssertedType))
	}
	return v
}

type implKey struct{ a, b types.Type }

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	k := implKey{t, it}
	if r, ok := m.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	m.implCache[k] = r
	return r
}

// ---------- calls ----------

func (m *Machine) doCall(fr *frame, ci *cinstr, cc *ssa.CallCommon) Value {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(cc.Args))
		for i := range args {
			args[i] = m.get(fr, &ci.ops[i+1])
		}
		m.lastPos = ci.in.Pos()
		return m.builtin(fr, b.Name(), cc, args, ci.in)
	}
	if cc.IsInvoke() {
		recv := m.get(fr, &ci.ops[0]).(Iface)
		args := make([]Value, 1+len(cc.Args))
		for i := range cc.Args {
			args[i+1] = m.get(fr, &ci.ops[i+1])
		}
		m.lastPos = ci.in.Pos()
		return m.invoke(fr, recv, cc.Method, args)
	}
	args := make([]Value, len(cc.Args))
	for i := range args {
		args[i] = m.get(fr, &ci.ops[i+1])
	}
	m.lastPos = ci.in.Pos()
	if f, ok := cc.Value.(*ssa.Function); ok {
		return m.call(fr, f, args, nil)
	}
	cl, _ := m.get(fr, &ci.ops[0]).(*Closure)
	return m.callClosure(fr, cl, args)
}

// invoke calls an interface method; args[0] is filled in.
func (m *Machine) invoke(fr *frame, recv Iface, meth *types.Func, args []Value) Value {
	if recv.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if rt, ok := recv.v.(RType); ok {
		return m.rtypeMethod(fr, rt.t, meth.Name(), args[1:])
	}
	f := m.method(recv.t, meth)
	if f == nil {
		panic(&engineError{"no method " + meth.Name() + " on " + recv.t.String()})
	}
	args[0] = m.copyVal(recv.v)
	return m.call(fr, f, args, nil)
}

func (m *Machine) method(t types.Type, meth *types.Func) *ssa.Function {
	k := methodKey{t, meth}
	f, ok := m.methods[k]
	if !ok {
		f = m.L.lookupMethod(t, meth.Pkg(), meth.Name())
		m.methods[k] = f
	}
	return f
}

// callMethod calls a method by name on an interface value, if it exists.
func (m *Machine) callMethod(fr *frame, recv Iface, name string, args ...Value) (Value, bool) {
	f := m.L.lookupMethod(recv.t, nil, name)
	if f == nil {
		return nil, false
	}
	return m.call(fr, f, append([]Value{m.copyVal(recv.v)}, args...), nil), true
}

func (m *Machine) doDefer(fr *frame, ci *cinstr, in *ssa.Defer) {
	cc := in.Common()
	args := make([]Value, len(cc.Args))
	for i := range args {
		args[i] = m.get(fr, &ci.ops[i+1])
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		name := b.Name()
		fr.defers = append(fr.defers, deferred{nat: func() { m.builtin(fr, name, cc, args, in) }})
		return
	}
	if cc.IsInvoke() {
		recv := m.get(fr, &ci.ops[0]).(Iface)
		if recv.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		full := append([]Value{nil}, args...)
		fr.defers = append(fr.defers, deferred{nat: func() { m.invoke(fr, recv, cc.Method, full) }})
		return
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		fr.defers = append(fr.defers, deferred{f: &Closure{fn: f}, args: args})
		return
	}
	cl, _ := m.get(fr, &ci.ops[0]).(*Closure)
	fr.defers = append(fr.defers, deferred{f: cl, args: args})
}

func (m *Machine) builtin(fr *frame, name string, cc *ssa.CallCommon, args []Value, at ssa.Instruction) Value {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return m.c.Const(64, uint64(x.len))
		case Str:
			m.needStr(x)
			return m.c.Const(64, uint64(x.Len()))
		case *MapV:
			if x == nil {
				return m.c.Const(64, 0)
			}
			return m.c.Const(64, uint64(len(x.ents)))
		case *Agg:
			return m.c.Const(64, uint64(len(x.e)))
		case Ptr:
			return m.c.Const(64, uint64(under(under(cc.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len()))
		case *ChanV:
			return m.c.Const(64, 0)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return m.c.Const(64, uint64(x.cap))
		case *Agg:
			return m.c.Const(64, uint64(len(x.e)))
		case Ptr:
			return m.c.Const(64, uint64(under(under(cc.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len()))
		}
	case "append":
		x := args[0].(Slice)
		if len(args) == 1 {
			return x
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			if y.len > 0 {
				add = y.a.e[y.off : y.off+y.len]
			}
		case Str:
			m.needStr(y)
			add = make([]Value, y.Len())
			for i := range add {
				add[i] = m.strByte(y, i)
			}
		}
		return m.appendVals(x, add, cc.Args[0].Type())
	case "copy":
		dst := args[0].(Slice)
		n := dst.len
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			if y.len < n {
				n = y.len
			}
			if n > 0 {
				src = append([]Value(nil), y.a.e[y.off:y.off+n]...)
			}
		case Str:
			m.needStr(y)
			if y.Len() < n {
				n = y.Len()
			}
			src = make([]Value, n)
			for i := range src {
				src[i] = m.strByte(y, i)
			}
		}
		for i := 0; i < n; i++ {
			m.setCell(dst.a, dst.off+i, m.copyVal(src[i]))
		}
		return m.c.Const(64, uint64(n))
	case "delete":
		m.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				m.mapTouch(x)
				x.ents = nil
				x.idx = map[interface{}]int{}
				x.nsym = 0
			}
		case Slice:
			z := m.zero(under(cc.Args[0].Type()).(*types.Slice).Elem())
			for i := 0; i < x.len; i++ {
				m.setCell(x.a, x.off+i, m.copyVal(z))
			}
		}
		return nil
	case "panic":
		panic(&goPanic{v: args[0], msg: "panic: " + m.describe(args[0]), stack: m.stackString()})
	case "recover":
		// recover is effective when called directly by a deferred function
		c := fr.caller
		if c != nil && c.panicking != nil {
			p := c.panicking
			c.panicking = nil
			return p.v
		}
		return Iface{}
	case "print", "println", "close":
		return nil
	case "min", "max":
		acc := args[0]
		for _, y := range args[1:] {
			var lt *Expr
			if s, ok := acc.(Str); ok {
				lt = m.ltStr(y.(Str), s)
			} else {
				_, signed, _ := typeInt(cc.Args[0].Type())
				if signed {
					lt = m.c.Slt(y.(*Expr), acc.(*Expr))
				} else {
					lt = m.c.Ult(y.(*Expr), acc.(*Expr))
				}
			}
			if name == "max" {
				lt = m.c.Not(m.c.Or(lt, m.eq(y, acc)))
			}
			if j, ok := m.joinVal(lt, y, acc); ok {
				acc = j
			} else if m.branch(lt) {
				acc = y
			}
		}
		return acc
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.a == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(m.concretize(args[1].(*Expr)))
		p := args[0].(Ptr)
		if n == 0 {
			return Str{}
		}
		return m.sliceToStr(Slice{p.a, p.i, n, n})
	case "StringData":
		s := args[0].(Str)
		m.needStr(s)
		sl := m.mkBytesE(m.bytesOf(s))
		return Ptr{a: sl.a}
	case "SliceData":
		s := args[0].(Slice)
		if s.a == nil {
			return Ptr{}
		}
		return Ptr{a: s.a, i: s.off}
	case "Slice": // unsafe.Slice
		n := int(m.concretize(args[1].(*Expr)))
		p := args[0].(Ptr)
		if p.a == nil {
			return Slice{}
		}
		return Slice{p.a, p.i, n, n}
	case "real", "imag":
		return float64(0)
	}
	m.unsupported("builtin " + name)
	return nil
}

func (m *Machine) appendVals(x Slice, add []Value, t types.Type) Slice {
	need := x.len + len(add)
	if x.a != nil && need <= x.cap {
		for i, v := range add {
			if _, ok := x.a.e[x.off+x.len+i].(*Agg); ok {
				m.setCell(x.a, x.off+x.len+i, m.copyVal(v))
			} else {
				m.setCell(x.a, x.off+x.len+i, m.copyVal(v))
			}
		}
		return Slice{x.a, x.off, need, x.cap}
	}
	if len(add) == 0 {
		return x
	}
	nc := x.cap
	if nc == 0 {
		nc = need
		if nc < 4 {
			// matches small append growth closely enough; capacities are not observable in the harnesses
			nc = need
		}
	} else {
		for nc < need {
			if nc < 256 {
				nc *= 2
			} else {
				nc += nc/4 + 192
			}
		}
	}
	if et, ok := under(t).(*types.Slice); ok {
		if w, _, ok := typeInt(et.Elem()); ok && w == 8 {
			nc = (nc + 7) &^ 7
		}
	}
	a := m.newAgg(nc)
	for i := 0; i < x.len; i++ {
		a.e[i] = m.copyVal(x.a.e[x.off+i])
	}
	for i, v := range add {
		a.e[x.len+i] = m.copyVal(v)
	}
	if nc > need {
		elem := under(t).(*types.Slice).Elem()
		z := m.zero(elem)
		_, isAgg := z.(*Agg)
		for i := need; i < nc; i++ {
			if isAgg {
				a.e[i] = m.zero(elem)
			} else {
				a.e[i] = z
			}
		}
	}
	return Slice{a, 0, need, nc}
}

// ---------- operators ----------

func (m *Machine) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return m.eqOp(xt, yt, x, y)
	case token.NEQ:
		return m.c.Not(m.eqOp(xt, yt, x, y))
	}
	switch a := x.(type) {
	case *Expr:
		b, ok := y.(*Expr)
		if !ok {
			panic(&engineError{fmt.Sprintf("binop %v %T %T", op, x, y)})
		}
		if a.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return m.c.And(a, b)
			case token.OR, token.LOR:
				return m.c.Or(a, b)
			}
		}
		_, signed, _ := typeInt(xt)
		switch op {
		case token.ADD:
			return m.c.Bin(OpAdd, a, b)
		case token.SUB:
			return m.c.Bin(OpSub, a, b)
		case token.MUL:
			return m.c.Bin(OpMul, a, b)
		case token.QUO, token.REM:
			if m.branch(m.c.Eq(b, m.c.Const(b.w, 0))) {
				m.rtPanic("integer divide by zero")
			}
			switch {
			case op == token.QUO && signed:
				return m.c.Bin(OpSDiv, a, b)
			case op == token.QUO:
				return m.c.Bin(OpUDiv, a, b)
			case signed:
				return m.c.Bin(OpSRem, a, b)
			}
			return m.c.Bin(OpURem, a, b)
		case token.AND:
			return m.c.Bin(OpBAnd, a, b)
		case token.OR:
			return m.c.Bin(OpBOr, a, b)
		case token.XOR:
			return m.c.Bin(OpBXor, a, b)
		case token.AND_NOT:
			return m.c.Bin(OpBAnd, a, m.c.BNot(b))
		case token.SHL, token.SHR:
			_, ysigned, _ := typeInt(yt)
			if ysigned && !nonneg(b) {
				if m.branch(m.c.Slt(b, m.c.Const(b.w, 0))) {
					m.rtPanic("negative shift amount")
				}
			}
			// bring the count to the width of a, saturating
			var cnt *Expr
			if b.w > a.w {
				big := m.c.Not(m.c.Ult(b, m.c.Const(b.w, uint64(a.w))))
				cnt = m.c.Ite(big, m.c.Const(a.w, uint64(a.w)), m.c.Extract(b, 0, a.w))
			} else {
				cnt = m.c.Zext(b, a.w)
			}
			switch {
			case op == token.SHL:
				return m.c.Bin(OpShl, a, cnt)
			case signed:
				return m.c.Bin(OpAshr, a, cnt)
			}
			return m.c.Bin(OpLshr, a, cnt)
		case token.LSS:
			if signed {
				return m.c.Slt(a, b)
			}
			return m.c.Ult(a, b)
		case token.LEQ:
			if signed {
				return m.c.Sle(a, b)
			}
			return m.c.Ule(a, b)
		case token.GTR:
			if signed {
				return m.c.Slt(b, a)
			}
			return m.c.Ult(b, a)
		case token.GEQ:
			if signed {
				return m.c.Sle(b, a)
			}
			return m.c.Ule(b, a)
		}
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			return m.concat(a, b)
		case token.LSS:
			return m.ltStr(a, b)
		case token.GTR:
			return m.ltStr(b, a)
		case token.LEQ:
			return m.c.Not(m.ltStr(b, a))
		case token.GEQ:
			return m.c.Not(m.ltStr(a, b))
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return m.c.Bool(a < b)
		case token.LEQ:
			return m.c.Bool(a <= b)
		case token.GTR:
			return m.c.Bool(a > b)
		case token.GEQ:
			return m.c.Bool(a >= b)
		}
	}
	m.unsupported(fmt.Sprintf("binop %v on %T", op, x))
	return nil
}

func (m *Machine) eqOp(xt, yt types.Type, x, y Value) *Expr {
	// comparisons between interface and concrete values
	_, xi := under(xt).(*types.Interface)
	_, yi := under(yt).(*types.Interface)
	if xi && !yi {
		if _, ok := y.(Iface); !ok {
			y = Iface{yt, y}
		}
	}
	if yi && !xi {
		if _, ok := x.(Iface); !ok {
			x = Iface{xt, x}
		}
	}
	switch a := x.(type) {
	case Slice:
		if b, ok := y.(Slice); ok {
			return m.c.Bool(a.a == nil && b.a == nil)
		}
	}
	return m.eq(x, y)
}

func (m *Machine) convert(from, to types.Type, v Value) Value {
	fu, tu := under(from), under(to)
	if tp, ok := tu.(*types.Basic); ok {
		if tw, _, isInt := intWidth(tp); isInt {
			switch x := v.(type) {
			case *Expr:
				_, fs, _ := typeInt(fu)
				if tw <= x.w {
					return m.c.Extract(x, 0, tw)
				}
				if fs {
					return m.c.Sext(x, tw)
				}
				return m.c.Zext(x, tw)
			case float64:
				return m.c.Const(tw, uint64(int64(x)))
			case Ptr:
				// uintptr(unsafe.Pointer): identity only
				if x.a == nil {
					return m.c.Const(tw, 0)
				}
				m.unsupported("pointer to integer conversion")
			}
		}
		switch tp.Kind() {
		case types.Float32, types.Float64:
			switch x := v.(type) {
			case float64:
				if tp.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case *Expr:
				if !x.isConst() {
					k := m.concretize(x)
					x = m.c.Const(x.w, k)
				}
				_, fs, _ := typeInt(fu)
				if fs {
					return float64(sext64(x.k, x.w))
				}
				return float64(x.k)
			}
		case types.String:
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				el := under(fu.(*types.Slice).Elem()).(*types.Basic)
				if el.Kind() == types.Uint8 {
					return m.sliceToStr(x)
				}
				// []rune
				var out []*Expr
				for i := 0; i < x.len; i++ {
					r := x.a.e[x.off+i].(*Expr)
					out = append(out, m.encodeRune(r)...)
				}
				return m.strFromExprs(out)
			case *Expr:
				_, fs, _ := typeInt(fu)
				return m.strFromExprs(m.encodeRune(m.runeOf(x, fs)))
			}
		case types.UnsafePointer:
			return v
		}
	}
	switch tt := tu.(type) {
	case *types.Slice:
		if s, ok := v.(Str); ok {
			m.needStr(s)
			el := under(tt.Elem()).(*types.Basic)
			if el.Kind() == types.Uint8 {
				return m.mkBytesE(m.bytesOf(s))
			}
			var rs []Value
			pos := 0
			for pos < s.Len() {
				r, n := m.decodeRune(m.substr(s, pos, s.Len()))
				rs = append(rs, r)
				pos += n
			}
			a := m.newAgg(len(rs))
			copy(a.e, rs)
			return Slice{a, 0, len(rs), len(rs)}
		}
		return v
	case *types.Pointer:
		return v
	case *types.Array:
		if s, ok := v.(Slice); ok {
			if s.len < int(tt.Len()) {
				m.rtPanic("cannot convert slice to array: length too short")
			}
			return m.window(s, int(tt.Len()))
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	m.unsupported(fmt.Sprintf("conversion %v -> %v (%T)", from, to, v))
	return nil
}

func (m *Machine) runeOf(x *Expr, signed bool) *Expr {
	if x.w == 32 {
		return x
	}
	if x.w < 32 {
		if signed {
			return m.c.Sext(x, 32)
		}
		return m.c.Zext(x, 32)
	}
	if x.isConst() {
		if x.k > 0x10ffff {
			return m.c.Const(32, 0xfffd)
		}
		return m.c.Const(32, x.k)
	}
	if m.branch(m.c.Ule(x, m.c.Const(x.w, 0x10ffff))) {
		return m.c.Extract(x, 0, 32)
	}
	return m.c.Const(32, 0xfffd)
}

func (m *Machine) encodeRune(r *Expr) []*Expr {
	if r.isConst() {
		var out []*Expr
		for _, b := range []byte(string(rune(int32(r.k)))) {
			out = append(out, m.c.bytes[b])
		}
		return out
	}
	c := m.c
	k := func(v uint64) *Expr { return c.Const(32, v) }
	cont := func(lo uint8) *Expr {
		return c.Bin(OpBOr, c.Zext(c.Extract(r, lo, 6), 8), c.bytes[0x80])
	}
	if m.branch(c.Ult(r, k(0x80))) {
		return []*Expr{c.Extract(r, 0, 8)}
	}
	if m.branch(c.Ult(r, k(0x800))) {
		return []*Expr{c.Bin(OpBOr, c.Zext(c.Extract(r, 6, 5), 8), c.bytes[0xc0]), cont(0)}
	}
	bad := c.Or(c.And(c.Ule(k(0xd800), r), c.Ule(r, k(0xdfff))), c.Ult(k(0x10ffff), r))
	if m.branch(bad) {
		return []*Expr{c.bytes[0xef], c.bytes[0xbf], c.bytes[0xbd]}
	}
	if m.branch(c.Ult(r, k(0x10000))) {
		return []*Expr{c.Bin(OpBOr, c.Zext(c.Extract(r, 12, 4), 8), c.bytes[0xe0]), cont(6), cont(0)}
	}
	return []*Expr{c.Bin(OpBOr, c.Zext(c.Extract(r, 18, 3), 8), c.bytes[0xf0]), cont(12), cont(6), cont(0)}
}
