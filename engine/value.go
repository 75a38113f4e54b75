package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Agg is a mutable memory container: the cells of a struct, an array, a slice
// backing store or a single heap variable.
type Agg struct {
	e     []Value
	epoch uint32
}

type Ptr struct {
	a   *Agg
	i   int
	sym *Expr // symbolic index relative to i (64 bit), n elements
	n   int
}

func (p Ptr) isNil() bool { return p.a == nil }

type Slice struct {
	a             *Agg
	off, len, cap int
}

type Str struct {
	s      string
	a      *Agg // symbolic bytes if non-nil
	off, n int
	opaque bool
}

func (s Str) Len() int {
	if s.a != nil {
		return s.n
	}
	return len(s.s)
}

type Iface struct {
	t types.Type
	v Value
}

type mapEnt struct {
	k, v Value
}

type MapV struct {
	ents  []mapEnt
	idx   map[interface{}]int
	nsym  int
	epoch uint32
	keyT  types.Type
	elemT types.Type
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	// native implementation (bound intrinsics)
	native func(m *Machine, args []Value) Value
}

type Tuple []Value

type iterV struct {
	m     *MapV
	ents  []mapEnt
	pos   int
	str   Str
	isStr bool
}

// reflect model
type RType struct{ t types.Type }

type RValue struct {
	t    types.Type // nil = zero Value
	v    Value      // when not addressable
	p    Ptr        // when addressable
	addr bool
	ro   bool
}

type ChanV struct{}

func under(t types.Type) types.Type { return t.Underlying() }

func intWidth(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func typeInt(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	return intWidth(b)
}

func (m *Machine) newAgg(n int) *Agg {
	return &Agg{e: make([]Value, n), epoch: m.epoch}
}

func (m *Machine) zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			return m.c.Const(w, 0)
		}
		switch t.Kind() {
		case types.Bool, types.UntypedBool:
			return m.c.fls
		case types.String, types.UntypedString:
			return Str{}
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer:
			return Ptr{}
		case types.Complex64, types.Complex128:
			return complex(0, 0)
		case types.UntypedNil:
			return nil
		}
		panic(&engineError{"zero of " + t.String()})
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		if isReflectValueStruct(t) {
			return RValue{}
		}
		a := m.newAgg(t.NumFields())
		for i := range a.e {
			a.e[i] = m.zero(t.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(t.Len())
		a := m.newAgg(n)
		if n > 0 {
			z := m.zero(t.Elem())
			if _, isAgg := z.(*Agg); isAgg {
				a.e[0] = z
				for i := 1; i < n; i++ {
					a.e[i] = m.zero(t.Elem())
				}
			} else {
				for i := range a.e {
					a.e[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = m.zero(t.At(i).Type())
		}
		return r
	case *types.Named:
		if isReflectValue(t) {
			return RValue{}
		}
		return m.zero(t.Underlying())
	case *types.Alias:
		return m.zero(types.Unalias(t))
	case *types.TypeParam:
		panic(&engineError{"zero of type parameter"})
	}
	panic(&engineError{fmt.Sprintf("zero of %T %v", t, t)})
}

func isReflectValue(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "reflect" || n.Obj().Pkg().Path() == "internal/reflectlite")
}

var reflectValueStruct types.Type

func isReflectValueStruct(t *types.Struct) bool {
	return reflectValueStruct != nil && t == reflectValueStruct
}

// copyVal makes an independent copy of aggregates.
func (m *Machine) copyVal(v Value) Value {
	a, ok := v.(*Agg)
	if !ok {
		return v
	}
	n := m.newAgg(len(a.e))
	copy(n.e, a.e)
	for i, x := range n.e {
		if _, ok := x.(*Agg); ok {
			n.e[i] = m.copyVal(x)
		}
	}
	return n
}

type trailEnt struct {
	a   *Agg
	i   int
	old Value
	m   *MapV
	mv  MapV
}

// setCell stores v into cell i of a, copying aggregates in place.
func (m *Machine) setCell(a *Agg, i int, v Value) {
	if src, ok := v.(*Agg); ok {
		if dst, ok := a.e[i].(*Agg); ok {
			if dst == src {
				return
			}
			if len(dst.e) != len(src.e) {
				panic(&engineError{"aggregate shape mismatch in store"})
			}
			// guard against aliasing
			for j := range src.e {
				m.setCell(dst, j, src.e[j])
			}
			return
		}
		v = m.copyVal(src)
	}
	if a.epoch != m.epoch {
		m.trail = append(m.trail, trailEnt{a: a, i: i, old: a.e[i]})
	}
	a.e[i] = v
}

func (m *Machine) undoTrail() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		t := &m.trail[i]
		if t.m != nil {
			*t.m = t.mv
		} else {
			t.a.e[t.i] = t.old
		}
	}
	m.trail = m.trail[:0]
}

func (m *Machine) load(p Ptr) Value {
	if p.a == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if p.sym != nil {
		return m.symLoad(p.a, p.i, p.n, p.sym)
	}
	v := p.a.e[p.i]
	if _, ok := v.(*Agg); ok {
		return m.copyVal(v)
	}
	return v
}

func (m *Machine) symLoad(a *Agg, off, n int, idx *Expr) Value {
	scalar := true
	for i := 0; i < n; i++ {
		if _, ok := a.e[off+i].(*Expr); !ok {
			scalar = false
			break
		}
	}
	if !scalar {
		k := int(m.concretize(idx))
		v := a.e[off+k]
		if _, ok := v.(*Agg); ok {
			return m.copyVal(v)
		}
		return v
	}
	if mx := umax(idx); mx < uint64(n) {
		n = int(mx) + 1
	}
	var rec func(lo, hi int, bit int) *Expr
	rec = func(lo, hi, bit int) *Expr {
		if hi-lo == 1 || bit < 0 {
			return a.e[off+lo].(*Expr)
		}
		mid := lo + (1 << bit)
		if mid >= hi {
			return rec(lo, hi, bit-1)
		}
		l := rec(lo, mid, bit-1)
		h := rec(mid, hi, bit-1)
		if same(l, h) {
			return l
		}
		b := m.c.Eq(m.c.Extract(idx, uint8(bit), 1), m.c.Const(1, 1))
		return m.c.Ite(b, h, l)
	}
	top := 0
	for (1 << (top + 1)) < n {
		top++
	}
	return rec(0, n, top)
}

func (m *Machine) store(p Ptr, v Value) {
	if p.a == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if p.sym != nil {
		e, ok := v.(*Expr)
		if !ok || p.n > 4096 {
			k := int(m.concretize(p.sym))
			m.setCell(p.a, p.i+k, v)
			return
		}
		for i := 0; i < p.n; i++ {
			old := p.a.e[p.i+i].(*Expr)
			m.setCell(p.a, p.i+i, m.c.Ite(m.c.Eq(p.sym, m.c.Const(64, uint64(i))), e, old))
		}
		return
	}
	m.setCell(p.a, p.i, v)
}

// ---- strings ----

func (m *Machine) strByte(s Str, i int) *Expr {
	if s.a == nil {
		return m.c.bytes[s.s[i]]
	}
	return s.a.e[s.off+i].(*Expr)
}

func (m *Machine) substr(s Str, lo, hi int) Str {
	if s.a == nil {
		return Str{s: s.s[lo:hi]}
	}
	return m.normStr(Str{a: s.a, off: s.off + lo, n: hi - lo})
}

func (m *Machine) normStr(s Str) Str {
	if s.a == nil {
		return s
	}
	for i := 0; i < s.n; i++ {
		if s.a.e[s.off+i].(*Expr).op != OpConst {
			return s
		}
	}
	b := make([]byte, s.n)
	for i := range b {
		b[i] = byte(s.a.e[s.off+i].(*Expr).k)
	}
	return Str{s: string(b)}
}

func (m *Machine) needStr(s Str) {
	if s.opaque {
		panic(&engineError{"inspection of an opaque formatted string: " + s.s})
	}
}

func (m *Machine) concat(x, y Str) Str {
	if x.opaque || y.opaque {
		return Str{s: m.strDebug(x) + m.strDebug(y), opaque: true}
	}
	if x.a == nil && y.a == nil {
		return Str{s: x.s + y.s}
	}
	if x.Len() == 0 {
		return y
	}
	if y.Len() == 0 {
		return x
	}
	a := m.newAgg(x.Len() + y.Len())
	for i := 0; i < x.Len(); i++ {
		a.e[i] = m.strByte(x, i)
	}
	for i := 0; i < y.Len(); i++ {
		a.e[x.Len()+i] = m.strByte(y, i)
	}
	return Str{a: a, n: len(a.e)}
}

func (m *Machine) strDebug(s Str) string {
	if s.a == nil {
		return s.s
	}
	var b strings.Builder
	for i := 0; i < s.n; i++ {
		e := m.strByte(s, i)
		if e.isConst() {
			b.WriteByte(byte(e.k))
		} else {
			b.WriteByte('?')
		}
	}
	return b.String()
}

func (m *Machine) eqStr(x, y Str) *Expr {
	if x.opaque || y.opaque {
		m.needStr(x)
		m.needStr(y)
	}
	if x.a == nil && y.a == nil {
		return m.c.Bool(x.s == y.s)
	}
	if x.Len() != y.Len() {
		return m.c.fls
	}
	r := m.c.tru
	for i := 0; i < x.Len(); i++ {
		r = m.c.And(r, m.c.Eq(m.strByte(x, i), m.strByte(y, i)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// ltStr builds x < y lexicographically.
func (m *Machine) ltStr(x, y Str) *Expr {
	if x.opaque || y.opaque {
		m.needStr(x)
		m.needStr(y)
	}
	if x.a == nil && y.a == nil {
		return m.c.Bool(x.s < y.s)
	}
	n := x.Len()
	if y.Len() < n {
		n = y.Len()
	}
	r := m.c.Bool(x.Len() < y.Len())
	for i := n - 1; i >= 0; i-- {
		a, b := m.strByte(x, i), m.strByte(y, i)
		r = m.c.Or(m.c.Ult(a, b), m.c.And(m.c.Eq(a, b), r))
	}
	return r
}

func (m *Machine) bytesOf(v Value) []*Expr {
	switch v := v.(type) {
	case Slice:
		r := make([]*Expr, v.len)
		for i := range r {
			r[i] = v.a.e[v.off+i].(*Expr)
		}
		return r
	case Str:
		m.needStr(v)
		r := make([]*Expr, v.Len())
		for i := range r {
			r[i] = m.strByte(v, i)
		}
		return r
	case *Agg:
		r := make([]*Expr, len(v.e))
		for i := range r {
			r[i] = v.e[i].(*Expr)
		}
		return r
	}
	panic(&engineError{fmt.Sprintf("bytesOf %T", v)})
}

func (m *Machine) concBytes(v Value) ([]byte, bool) {
	if s, ok := v.(Str); ok && s.a == nil {
		return []byte(s.s), !s.opaque
	}
	es := m.bytesOf(v)
	r := make([]byte, len(es))
	for i, e := range es {
		if e.op != OpConst {
			return nil, false
		}
		r[i] = byte(e.k)
	}
	return r, true
}

func (m *Machine) mkBytes(b []byte) Slice {
	if len(b) == 0 {
		return Slice{a: m.newAgg(0)}
	}
	a := m.newAgg(len(b))
	for i, x := range b {
		a.e[i] = m.c.bytes[x]
	}
	return Slice{a, 0, len(b), len(b)}
}

func (m *Machine) mkBytesE(b []*Expr) Slice {
	a := m.newAgg(len(b))
	for i, x := range b {
		a.e[i] = x
	}
	return Slice{a, 0, len(b), len(b)}
}

func (m *Machine) strFromExprs(b []*Expr) Str {
	if len(b) == 0 {
		return Str{}
	}
	a := m.newAgg(len(b))
	for i, x := range b {
		a.e[i] = x
	}
	return m.normStr(Str{a: a, n: len(b)})
}

// ---- equality ----

func (m *Machine) eq(x, y Value) *Expr {
	switch x := x.(type) {
	case *Expr:
		return m.c.Eq(x, y.(*Expr))
	case Str:
		return m.eqStr(x, y.(Str))
	case Ptr:
		yp, ok := y.(Ptr)
		if !ok {
			return m.c.fls
		}
		if x.sym != nil || yp.sym != nil {
			panic(&engineError{"comparison of symbolic pointers"})
		}
		if x.a == nil || yp.a == nil {
			return m.c.Bool(x.a == yp.a)
		}
		if x.a == yp.a && x.i == yp.i {
			return m.c.tru
		}
		return m.c.Bool(m.cellAgg(x) != nil && m.cellAgg(x) == m.cellAgg(yp))
	case Iface:
		switch y := y.(type) {
		case Iface:
			if x.t == nil || y.t == nil {
				return m.c.Bool(x.t == nil && y.t == nil)
			}
			if rx, ok := x.v.(RType); ok {
				if ry, ok := y.v.(RType); ok {
					return m.c.Bool(types.Identical(rx.t, ry.t))
				}
				return m.c.fls
			}
			if !types.Identical(x.t, y.t) {
				return m.c.fls
			}
			if !types.Comparable(x.t) {
				m.rtPanic("comparing uncomparable type " + x.t.String())
			}
			return m.eq(x.v, y.v)
		case nil:
			return m.c.Bool(x.t == nil)
		}
		panic(&engineError{fmt.Sprintf("eq iface with %T", y)})
	case *Agg:
		ya := y.(*Agg)
		r := m.c.tru
		for i := range x.e {
			r = m.c.And(r, m.eq(x.e[i], ya.e[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case float64:
		return m.c.Bool(x == y.(float64))
	case Slice:
		return m.c.Bool(x.a == nil) // comparison with nil only
	case *MapV:
		if x == nil {
			yy, _ := y.(*MapV)
			return m.c.Bool(yy == nil)
		}
		return m.c.fls
	case *Closure:
		if x == nil {
			yy, _ := y.(*Closure)
			return m.c.Bool(yy == nil)
		}
		return m.c.fls
	case *ChanV:
		yy, _ := y.(*ChanV)
		return m.c.Bool(x == yy)
	case RType:
		yt, ok := y.(RType)
		return m.c.Bool(ok && types.Identical(x.t, yt.t))
	case nil:
		if y == nil {
			return m.c.tru
		}
		return m.eq(y, x)
	}
	panic(&engineError{fmt.Sprintf("eq %T %T", x, y)})
}

func (m *Machine) cellAgg(p Ptr) *Agg {
	if p.a == nil || p.i >= len(p.a.e) {
		return nil
	}
	a, _ := p.a.e[p.i].(*Agg)
	return a
}

// ---- maps ----

type ifaceKey struct {
	t string
	k interface{}
}
type ptrKey struct {
	a *Agg
	i int
}

func (m *Machine) ckey(v Value) (interface{}, bool) {
	switch v := v.(type) {
	case *Expr:
		if v.op == OpConst {
			return v.k, true
		}
		return nil, false
	case Str:
		m.needStr(v)
		if v.a == nil {
			return v.s, true
		}
		return nil, false
	case Iface:
		if v.t == nil {
			return ifaceKey{}, true
		}
		if rt, ok := v.v.(RType); ok {
			return ifaceKey{"rtype", rt.t.String()}, true
		}
		k, ok := m.ckey(v.v)
		return ifaceKey{v.t.String(), k}, ok
	case Ptr:
		if a := m.cellAgg(v); a != nil {
			return ptrKey{a, -1}, true
		}
		return ptrKey{v.a, v.i}, true
	case *Agg:
		var b strings.Builder
		for _, x := range v.e {
			k, ok := m.ckey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&b, "%T:%v|", k, k)
		}
		return b.String(), true
	case float64:
		return v, true
	}
	panic(&engineError{fmt.Sprintf("map key %T", v)})
}

func (m *Machine) mapFind(mv *MapV, key Value) int {
	if mv == nil || len(mv.ents) == 0 {
		return -1
	}
	k, conc := m.ckey(key)
	if conc {
		if i, ok := mv.idx[k]; ok {
			return i
		}
		if mv.nsym == 0 {
			return -1
		}
	}
	for i := range mv.ents {
		if conc {
			if _, c := m.ckey(mv.ents[i].k); c {
				continue
			}
		}
		if m.branch(m.eq(key, mv.ents[i].k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapTouch(mv *MapV) {
	if mv.epoch != m.epoch {
		old := *mv
		m.trail = append(m.trail, trailEnt{m: mv, mv: old})
		mv.ents = append([]mapEnt(nil), old.ents...)
		mv.idx = make(map[interface{}]int, len(old.idx))
		for k, v := range old.idx {
			mv.idx[k] = v
		}
		mv.epoch = m.epoch
	}
}

func (m *Machine) mapSet(mv *MapV, key, val Value) {
	if mv == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	i := m.mapFind(mv, key)
	m.mapTouch(mv)
	if i >= 0 {
		mv.ents[i].v = m.copyVal(val)
		return
	}
	mv.ents = append(mv.ents, mapEnt{m.copyVal(key), m.copyVal(val)})
	if k, ok := m.ckey(key); ok {
		mv.idx[k] = len(mv.ents) - 1
	} else {
		mv.nsym++
	}
}

func (m *Machine) mapDelete(mv *MapV, key Value) {
	i := m.mapFind(mv, key)
	if i < 0 {
		return
	}
	m.mapTouch(mv)
	ents := make([]mapEnt, 0, len(mv.ents))
	ents = append(ents, mv.ents[:i]...)
	ents = append(ents, mv.ents[i+1:]...)
	mv.ents = ents
	mv.idx = map[interface{}]int{}
	mv.nsym = 0
	for j := range ents {
		if k, ok := m.ckey(ents[j].k); ok {
			mv.idx[k] = j
		} else {
			mv.nsym++
		}
	}
}

func (m *Machine) newMap() *MapV {
	return &MapV{idx: map[interface{}]int{}, epoch: m.epoch}
}
