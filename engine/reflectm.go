package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Model of package reflect over the engine's values.

func (m *Machine) mkRType(t types.Type) Iface {
	return Iface{m.L.rtypeT(), RType{t}}
}

func (l *Loaded) rtypeT() types.Type {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.loc == nil {
		l.loc = map[string]*types.Named{}
	}
	if l.rtypePtr == nil {
		l.rtypePtr = types.NewPointer(l.typ("reflect", "rtype"))
	}
	return l.rtypePtr
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func qual(p *types.Package) string { return p.Name() }

func typeName(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		return t.Obj().Name()
	case *types.Basic:
		return t.Name()
	}
	return ""
}

var stdSizes = types.SizesFor("gc", "amd64")

func (m *Machine) structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	sf := m.zero(m.L.typ("reflect", "StructField")).(*Agg)
	sf.e[0] = Str{s: f.Name()}
	if !f.Exported() {
		sf.e[1] = Str{s: f.Pkg().Path()}
	}
	sf.e[2] = m.mkRType(f.Type())
	sf.e[3] = Str{s: st.Tag(i)}
	ia := m.newAgg(1)
	ia.e[0] = m.c.Const(64, uint64(i))
	sf.e[5] = Slice{ia, 0, 1, 1}
	sf.e[6] = m.c.Bool(f.Embedded())
	return sf
}

func (m *Machine) rtypeMethod(fr *frame, t types.Type, name string, args []Value) Value {
	num := func(i int) Value { return m.c.Const(64, uint64(i)) }
	switch name {
	case "Kind":
		return num(int(rkind(t)))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return m.mkRType(u.Elem())
		case *types.Slice:
			return m.mkRType(u.Elem())
		case *types.Array:
			return m.mkRType(u.Elem())
		case *types.Map:
			return m.mkRType(u.Elem())
		}
	case "NumField":
		return num(t.Underlying().(*types.Struct).NumFields())
	case "Field":
		return m.structField(t.Underlying().(*types.Struct), int(m.concretize(args[0].(*Expr))))
	case "NumMethod":
		if it, ok := t.Underlying().(*types.Interface); ok {
			return num(it.NumMethods())
		}
		return num(0)
	case "Size":
		return num(int(stdSizes.Sizeof(t)))
	case "Bits":
		return num(int(stdSizes.Sizeof(t)) * 8)
	case "Len":
		return num(int(t.Underlying().(*types.Array).Len()))
	case "Name":
		return Str{s: typeName(t)}
	case "String":
		return Str{s: types.TypeString(t, qual)}
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return Str{s: n.Obj().Pkg().Path()}
		}
		return Str{}
	case "Comparable":
		return m.c.Bool(types.Comparable(t))
	case "Implements":
		u := args[0].(Iface).v.(RType).t
		return m.c.Bool(types.Implements(t, u.Underlying().(*types.Interface)))
	case "AssignableTo":
		return m.c.Bool(types.AssignableTo(t, args[0].(Iface).v.(RType).t))
	case "ConvertibleTo":
		return m.c.Bool(types.ConvertibleTo(t, args[0].(Iface).v.(RType).t))
	}
	m.unsupported("reflect.Type." + name)
	return nil
}

func (m *Machine) rget(v RValue) Value {
	if v.addr {
		return m.load(v.p)
	}
	return v.v
}

func (m *Machine) rinterface(v RValue) Value {
	x := m.rget(v)
	if i, ok := x.(Iface); ok {
		return i
	}
	return Iface{v.t, m.copyVal(x)}
}

func (m *Machine) rset(dst RValue, src Value) {
	if !dst.addr {
		m.rtPanic("reflect.Set using unaddressable value")
	}
	m.store(dst.p, src)
}

func (m *Machine) assignTo(src RValue, t types.Type) Value {
	x := m.rget(src)
	if _, ok := t.Underlying().(*types.Interface); ok {
		if i, isI := x.(Iface); isI {
			return i
		}
		return Iface{src.t, m.copyVal(x)}
	}
	if !types.AssignableTo(src.t, t) {
		panic(&goPanic{v: Iface{types.Typ[types.String], Str{s: "reflect.Set: type mismatch"}},
			msg: fmt.Sprintf("panic: reflect.Set: value of type %s is not assignable to type %s", src.t, t), stack: m.stackString()})
	}
	return x
}

func (m *Machine) rvalueMethod(fr *frame, name string, v RValue, args []Value) Value {
	num := func(i int) Value { return m.c.Const(64, uint64(i)) }
	if v.t == nil {
		switch name {
		case "IsValid":
			return m.c.fls
		case "Kind":
			return num(0)
		}
		panic(&goPanic{v: Iface{types.Typ[types.String], Str{s: "reflect: call of Value method on zero Value"}},
			msg: "panic: reflect: call of reflect.Value." + name + " on zero Value", stack: m.stackString()})
	}
	switch name {
	case "IsValid":
		return m.c.tru
	case "Kind":
		return num(int(rkind(v.t)))
	case "Type":
		return m.mkRType(v.t)
	case "CanSet":
		return m.c.Bool(v.addr && !v.ro)
	case "CanAddr":
		return m.c.Bool(v.addr)
	case "CanInterface":
		return m.c.Bool(!v.ro)
	case "Interface":
		return m.rinterface(v)
	case "Addr":
		if !v.addr {
			m.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return RValue{t: m.L.canonPtr(types.NewPointer(v.t)), v: v.p}
	case "IsNil":
		switch x := m.rget(v).(type) {
		case Ptr:
			return m.c.Bool(x.a == nil)
		case Slice:
			return m.c.Bool(x.a == nil)
		case *MapV:
			return m.c.Bool(x == nil)
		case Iface:
			return m.c.Bool(x.t == nil)
		case *Closure:
			return m.c.Bool(x == nil)
		}
	case "Elem":
		switch x := m.rget(v).(type) {
		case Ptr:
			if x.a == nil {
				return RValue{}
			}
			return RValue{t: v.t.Underlying().(*types.Pointer).Elem(), p: x, addr: true}
		case Iface:
			if x.t == nil {
				return RValue{}
			}
			return RValue{t: x.t, v: x.v}
		}
	case "NumField":
		return num(v.t.Underlying().(*types.Struct).NumFields())
	case "Field":
		i := int(m.concretize(args[0].(*Expr)))
		st := v.t.Underlying().(*types.Struct)
		if i >= st.NumFields() {
			m.rtPanic("reflect: Field index out of range")
		}
		f := st.Field(i)
		if v.addr {
			return RValue{t: f.Type(), p: Ptr{a: v.p.a.e[v.p.i].(*Agg), i: i}, addr: true, ro: !f.Exported() || v.ro}
		}
		return RValue{t: f.Type(), v: v.v.(*Agg).e[i], ro: !f.Exported() || v.ro}
	case "FieldByName":
		n := args[0].(Str).s
		st := v.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return m.rvalueMethod(fr, "Field", v, []Value{num(i)})
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				m.unsupported("FieldByName with embedded fields")
			}
		}
		return RValue{}
	case "Len":
		switch x := m.rget(v).(type) {
		case Slice:
			return num(x.len)
		case Str:
			m.needStr(x)
			return num(x.Len())
		case *Agg:
			return num(len(x.e))
		case *MapV:
			if x == nil {
				return num(0)
			}
			return num(len(x.ents))
		}
	case "Cap":
		return num(m.rget(v).(Slice).cap)
	case "Index":
		i := int(m.concretize(args[0].(*Expr)))
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			s := m.rget(v).(Slice)
			if i < 0 || i >= s.len {
				m.rtPanic("reflect: slice index out of range")
			}
			return RValue{t: u.Elem(), p: Ptr{a: s.a, i: s.off + i}, addr: true}
		case *types.Array:
			if v.addr {
				return RValue{t: u.Elem(), p: Ptr{a: v.p.a.e[v.p.i].(*Agg), i: i}, addr: true}
			}
			return RValue{t: u.Elem(), v: v.v.(*Agg).e[i]}
		}
	case "Set":
		m.rset(v, m.assignTo(args[0].(RValue), v.t))
		return nil
	case "SetBool":
		m.rset(v, args[0])
		return nil
	case "SetInt", "SetUint":
		w, _, _ := typeInt(v.t)
		m.rset(v, m.c.Extract(args[0].(*Expr), 0, w))
		return nil
	case "SetString":
		m.rset(v, args[0])
		return nil
	case "SetBytes":
		m.rset(v, args[0])
		return nil
	case "SetLen":
		s := m.rget(v).(Slice)
		s.len = int(m.concretize(args[0].(*Expr)))
		m.rset(v, s)
		return nil
	case "SetZero":
		m.rset(v, m.zero(v.t))
		return nil
	case "OverflowInt", "OverflowUint":
		w, _, _ := typeInt(v.t)
		x := args[0].(*Expr)
		if w >= 64 {
			return m.c.fls
		}
		lo := m.c.Extract(x, 0, w)
		if name == "OverflowInt" {
			return m.c.Not(m.c.Eq(m.c.Sext(lo, 64), x))
		}
		return m.c.Not(m.c.Eq(m.c.Zext(lo, 64), x))
	case "Bool":
		return m.rget(v)
	case "Int":
		e := m.rget(v).(*Expr)
		return m.c.Sext(e, 64)
	case "Uint":
		e := m.rget(v).(*Expr)
		return m.c.Zext(e, 64)
	case "String":
		if s, ok := m.rget(v).(Str); ok {
			return s
		}
		return Str{s: "<" + types.TypeString(v.t, qual) + " Value>"}
	case "Bytes":
		x := m.rget(v)
		if a, ok := x.(*Agg); ok {
			return Slice{a, 0, len(a.e), len(a.e)}
		}
		return x
	case "Slice":
		lo, hi := int(m.concretize(args[0].(*Expr))), int(m.concretize(args[1].(*Expr)))
		s := m.rget(v).(Slice)
		return RValue{t: v.t, v: Slice{s.a, s.off + lo, hi - lo, s.cap - lo}}
	case "Pointer", "UnsafePointer":
		m.unsupported("reflect.Value.Pointer")
	case "Convert":
		t := args[0].(Iface).v.(RType).t
		x := m.rget(v)
		if !types.ConvertibleTo(v.t, t) {
			panic(&goPanic{v: Iface{types.Typ[types.String], Str{s: "reflect: Convert"}},
				msg: "panic: reflect.Value.Convert: value of type " + v.t.String() + " cannot be converted to type " + t.String(), stack: m.stackString()})
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			if i, isI := x.(Iface); isI {
				return RValue{t: t, v: i}
			}
			return RValue{t: t, v: Iface{v.t, x}}
		}
		if types.Identical(v.t.Underlying(), t.Underlying()) {
			return RValue{t: t, v: x}
		}
		return RValue{t: t, v: m.convert(v.t, t, x)}
	case "IsZero":
		return m.deepEq(v.t, m.rget(v), m.zero(v.t))
	case "MapIndex", "MapKeys", "MapRange":
		m.unsupported("reflect map access")
	case "NumMethod":
		return num(0)
	case "CanConvert":
		return m.c.Bool(types.ConvertibleTo(v.t, args[0].(Iface).v.(RType).t))
	}
	m.unsupported("reflect.Value." + name)
	return nil
}

// deepEq is reflect.DeepEqual on two values of the same static type.
func (m *Machine) deepEq(t types.Type, x, y Value) *Expr {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return m.eq(x, y)
	case *types.Pointer:
		a, b := x.(Ptr), y.(Ptr)
		if a.a == nil || b.a == nil {
			return m.c.Bool(a.a == nil && b.a == nil)
		}
		if a == b {
			return m.c.tru
		}
		return m.deepEq(u.Elem(), m.load(a), m.load(b))
	case *types.Slice:
		a, b := x.(Slice), y.(Slice)
		if (a.a == nil) != (b.a == nil) || a.len != b.len {
			return m.c.fls
		}
		r := m.c.tru
		for i := 0; i < a.len; i++ {
			r = m.c.And(r, m.deepEq(u.Elem(), a.a.e[a.off+i], b.a.e[b.off+i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Array:
		a, b := x.(*Agg), y.(*Agg)
		r := m.c.tru
		for i := range a.e {
			r = m.c.And(r, m.deepEq(u.Elem(), a.e[i], b.e[i]))
		}
		return r
	case *types.Struct:
		if isReflectValue(t) {
			m.unsupported("DeepEqual of reflect.Value")
		}
		a, b := x.(*Agg), y.(*Agg)
		r := m.c.tru
		for i := range a.e {
			r = m.c.And(r, m.deepEq(u.Field(i).Type(), a.e[i], b.e[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.t == nil || b.t == nil {
			return m.c.Bool(a.t == nil && b.t == nil)
		}
		if ra, ok := a.v.(RType); ok {
			rb, ok := b.v.(RType)
			return m.c.Bool(ok && types.Identical(ra.t, rb.t))
		}
		if !types.Identical(a.t, b.t) {
			return m.c.fls
		}
		return m.deepEq(a.t, a.v, b.v)
	case *types.Signature:
		a, _ := x.(*Closure)
		b, _ := y.(*Closure)
		return m.c.Bool(a == nil && b == nil)
	case *types.Map:
		a, _ := x.(*MapV)
		b, _ := y.(*MapV)
		if (a == nil) != (b == nil) {
			return m.c.fls
		}
		if a == nil {
			return m.c.tru
		}
		if len(a.ents) != len(b.ents) {
			return m.c.fls
		}
		r := m.c.tru
		for i := range a.ents {
			j := m.mapFind(b, a.ents[i].k)
			if j < 0 {
				return m.c.fls
			}
			r = m.c.And(r, m.deepEq(u.Elem(), a.ents[i].v, b.ents[j].v))
		}
		return r
	}
	m.unsupported("DeepEqual of " + t.String())
	return nil
}

func reflectMethodIntrinsic(fn *ssa.Function) func(m *Machine, fr *frame, args []Value) Value {
	recv := fn.Signature.Recv()
	if recv == nil {
		return nil
	}
	name := fn.Name()
	if isReflectValue(recv.Type()) {
		return func(m *Machine, fr *frame, args []Value) Value {
			return m.rvalueMethod(fr, name, args[0].(RValue), args[1:])
		}
	}
	if p, ok := recv.Type().(*types.Pointer); ok && isReflectValue(p.Elem()) {
		return func(m *Machine, fr *frame, args []Value) Value {
			return m.rvalueMethod(fr, name, m.load(args[0].(Ptr)).(RValue), args[1:])
		}
	}
	return nil
}

func (m *Machine) rvOf(v Value) RValue {
	i := v.(Iface)
	if i.t == nil {
		return RValue{}
	}
	return RValue{t: i.t, v: i.v}
}

func init() {
	reg := func(name string, f func(m *Machine, fr *frame, args []Value) Value) { intrinsics[name] = f }
	reg("reflect.TypeOf", func(m *Machine, fr *frame, args []Value) Value {
		i := args[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return m.mkRType(i.t)
	})
	reg("reflect.ValueOf", func(m *Machine, fr *frame, args []Value) Value { return m.rvOf(args[0]) })
	reg("internal/reflectlite.ValueOf", func(m *Machine, fr *frame, args []Value) Value { return m.rvOf(args[0]) })
	reg("reflect.Indirect", func(m *Machine, fr *frame, args []Value) Value {
		v := args[0].(RValue)
		if v.t != nil && rkind(v.t) == reflect.Pointer {
			return m.rvalueMethod(fr, "Elem", v, nil)
		}
		return v
	})
	reg("reflect.New", func(m *Machine, fr *frame, args []Value) Value {
		t := args[0].(Iface).v.(RType).t
		a := m.newAgg(1)
		a.e[0] = m.zero(t)
		return RValue{t: m.L.canonPtr(types.NewPointer(t)), v: Ptr{a: a}}
	})
	reg("reflect.Zero", func(m *Machine, fr *frame, args []Value) Value {
		t := args[0].(Iface).v.(RType).t
		return RValue{t: t, v: m.zero(t)}
	})
	reg("reflect.MakeSlice", func(m *Machine, fr *frame, args []Value) Value {
		t := args[0].(Iface).v.(RType).t
		n, c := int(m.concretize(args[1].(*Expr))), int(m.concretize(args[2].(*Expr)))
		return RValue{t: t, v: m.makeSlice(t.Underlying().(*types.Slice).Elem(), n, c)}
	})
	reg("reflect.Append", func(m *Machine, fr *frame, args []Value) Value {
		s := args[0].(RValue)
		xs := args[1].(Slice)
		var add []Value
		et := s.t.Underlying().(*types.Slice).Elem()
		for i := 0; i < xs.len; i++ {
			add = append(add, m.assignTo(xs.a.e[xs.off+i].(RValue), et))
		}
		return RValue{t: s.t, v: m.appendVals(m.rget(s).(Slice), add, s.t)}
	})
	reg("reflect.Copy", func(m *Machine, fr *frame, args []Value) Value {
		d, s := args[0].(RValue), args[1].(RValue)
		var dst Slice
		if a, ok := m.rget(d).(Slice); ok {
			dst = a
		} else {
			a := d.p.a.e[d.p.i].(*Agg)
			dst = Slice{a, 0, len(a.e), len(a.e)}
		}
		var src []Value
		switch x := m.rget(s).(type) {
		case Slice:
			if x.len > 0 {
				src = append(src, x.a.e[x.off:x.off+x.len]...)
			}
		case Str:
			for _, e := range m.bytesOf(x) {
				src = append(src, e)
			}
		case *Agg:
			src = append(src, x.e...)
		}
		n := dst.len
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			m.setCell(dst.a, dst.off+i, m.copyVal(src[i]))
		}
		return m.c.Const(64, uint64(n))
	})
	reg("reflect.DeepEqual", func(m *Machine, fr *frame, args []Value) Value {
		return m.deepEq(types.NewInterfaceType(nil, nil), args[0], args[1])
	})
	reg("reflect.Swapper", swapper)
	reg("internal/reflectlite.Swapper", swapper)
	reg("internal/reflectlite.TypeOf", func(m *Machine, fr *frame, args []Value) Value {
		i := args[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return m.mkRType(i.t)
	})
	reg("(reflect.StructTag).Get", func(m *Machine, fr *frame, args []Value) Value {
		return Str{s: reflect.StructTag(args[0].(Str).s).Get(args[1].(Str).s)}
	})
	reg("(reflect.StructTag).Lookup", func(m *Machine, fr *frame, args []Value) Value {
		v, ok := reflect.StructTag(args[0].(Str).s).Lookup(args[1].(Str).s)
		return Tuple{Str{s: v}, m.c.Bool(ok)}
	})
	reg("(reflect.Kind).String", func(m *Machine, fr *frame, args []Value) Value {
		k := m.concretize(args[0].(*Expr))
		return Str{s: reflect.Kind(k).String()}
	})
	reg("(reflect.StructField).IsExported", func(m *Machine, fr *frame, args []Value) Value {
		return m.eqStr(args[0].(*Agg).e[1].(Str), Str{})
	})
	_ = strconv.Itoa
}

func swapper(m *Machine, fr *frame, args []Value) Value {
	s := args[0].(Iface).v.(Slice)
	return &Closure{native: func(m *Machine, a []Value) Value {
		i, j := int(m.concretize(a[0].(*Expr))), int(m.concretize(a[1].(*Expr)))
		if i < 0 || j < 0 || i >= s.len || j >= s.len {
			m.rtPanic("reflect: slice index out of range")
		}
		x, y := m.copyVal(s.a.e[s.off+i]), m.copyVal(s.a.e[s.off+j])
		m.setCell(s.a, s.off+i, y)
		m.setCell(s.a, s.off+j, x)
		return nil
	}}
}
