package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Native model of the fmt verbs; text that depends on symbolic values becomes opaque unless
// it is a plain string splice.

type fmtPiece struct {
	s      Str
	opaque bool
}

// goValue converts a fully concrete engine value to a Go value with the same formatting.
func (m *Machine) goValue(t types.Type, v Value, depth int) (interface{}, bool) {
	if depth > 4 {
		return nil, false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Expr:
			if !x.isConst() {
				return nil, false
			}
			switch u.Kind() {
			case types.Bool:
				return x.k == 1, true
			case types.Int:
				return int(x.k), true
			case types.Int8:
				return int8(x.k), true
			case types.Int16:
				return int16(x.k), true
			case types.Int32:
				return int32(x.k), true
			case types.Int64:
				return int64(x.k), true
			case types.Uint8:
				return uint8(x.k), true
			case types.Uint16:
				return uint16(x.k), true
			case types.Uint32:
				return uint32(x.k), true
			case types.Uint64:
				return x.k, true
			case types.Uint, types.Uintptr:
				return uint(x.k), true
			}
		case Str:
			if x.a == nil && !x.opaque {
				return x.s, true
			}
		case float64:
			return x, true
		}
	case *types.Slice:
		s := v.(Slice)
		if eb, ok := u.Elem().Underlying().(*types.Basic); ok {
			switch eb.Kind() {
			case types.Uint8:
				b, ok := m.concBytes(s)
				if ok && s.a == nil {
					return []byte(nil), true
				}
				return b, ok
			case types.Int:
				r := []int{}
				for i := 0; i < s.len; i++ {
					e := s.a.e[s.off+i].(*Expr)
					if !e.isConst() {
						return nil, false
					}
					r = append(r, int(e.k))
				}
				return r, true
			case types.String:
				r := []string{}
				for i := 0; i < s.len; i++ {
					e := s.a.e[s.off+i].(Str)
					if e.a != nil || e.opaque {
						return nil, false
					}
					r = append(r, e.s)
				}
				return r, true
			}
		}
		if _, ok := u.Elem().Underlying().(*types.Interface); ok {
			r := []interface{}{}
			for i := 0; i < s.len; i++ {
				e := s.a.e[s.off+i].(Iface)
				g, ok := m.fmtArg(e, 'v', depth+1)
				if !ok {
					return nil, false
				}
				r = append(r, g)
			}
			return r, true
		}
	case *types.Array:
		if eb, ok := u.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
			return m.concBytes(v)
		}
	}
	return nil, false
}

type strArg string

// fmtArg converts an argument for a verb, calling Error/String methods like fmt does.
func (m *Machine) fmtArg(a Iface, verb byte, depth int) (interface{}, bool) {
	if a.t == nil {
		return nil, true
	}
	if rt, ok := a.v.(RType); ok {
		return types.TypeString(rt.t, qual), true
	}
	if strings.IndexByte("vsxXq", verb) >= 0 {
		for _, name := range []string{"Error", "String"} {
			f := m.L.lookupMethod(a.t, nil, name)
			if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
				continue
			}
			if b, ok := f.Signature.Results().At(0).Type().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			if p, ok := a.v.(Ptr); ok && p.a == nil {
				return "<nil>", true
			}
			r := m.call(nil, f, []Value{m.copyVal(a.v)}, nil).(Str)
			if r.opaque || r.a != nil {
				return r, false
			}
			return r.s, true
		}
	}
	if s, ok := a.v.(Str); ok && (s.a != nil || s.opaque) {
		return s, false
	}
	return m.goValue(a.t, a.v, depth)
}

func (m *Machine) format(f Str, args []Value) Str {
	if f.a != nil || f.opaque {
		return Str{s: "?", opaque: true}
	}
	s := f.s
	var pieces []Str
	ai := 0
	opaque := false
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			pieces = append(pieces, Str{s: s[i:]})
			break
		}
		if j > 0 {
			pieces = append(pieces, Str{s: s[i : i+j]})
		}
		i += j
		k := i + 1
		for k < len(s) && strings.IndexByte("+-# 0123456789.", s[k]) >= 0 {
			k++
		}
		if k >= len(s) {
			pieces = append(pieces, Str{s: "%!(NOVERB)"})
			break
		}
		verb := s[k]
		spec := s[i : k+1]
		i = k + 1
		if verb == '%' {
			pieces = append(pieces, Str{s: "%"})
			continue
		}
		if ai >= len(args) {
			pieces = append(pieces, Str{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == 'T' {
			if a.t == nil {
				pieces = append(pieces, Str{s: "<nil>"})
			} else {
				pieces = append(pieces, Str{s: types.TypeString(a.t, qual)})
			}
			continue
		}
		if verb == 'w' {
			verb = 'v'
			spec = spec[:len(spec)-1] + "v"
		}
		if verb == 'p' || verb == 'c' || verb == 'U' {
			opaque = true
			pieces = append(pieces, Str{s: "?"})
			continue
		}
		g, ok := m.fmtArg(a, verb, 0)
		if !ok {
			if gs, isStr := g.(Str); isStr && !gs.opaque && (spec == "%s" || spec == "%v") {
				pieces = append(pieces, gs)
				continue
			}
			// symbolic decimal numbers of one-byte range are spliced by forking is not attempted
			opaque = true
			pieces = append(pieces, Str{s: "?"})
			continue
		}
		pieces = append(pieces, Str{s: fmt.Sprintf(spec, g)})
	}
	out := Str{}
	for _, p := range pieces {
		if opaque {
			out = Str{s: out.s + m.strDebug(p), opaque: true}
		} else {
			out = m.concat(out, p)
		}
	}
	if opaque {
		out.opaque = true
	}
	return out
}

func (m *Machine) sprint(args []Value, ln bool) Str {
	out := Str{}
	for i, a := range args {
		if i > 0 && ln {
			out = m.concat(out, Str{s: " "})
		}
		out = m.concat(out, m.format(Str{s: "%v"}, []Value{a}))
	}
	if ln {
		out = m.concat(out, Str{s: "\n"})
	}
	return out
}

func (m *Machine) writeTo(fr *frame, w Iface, s Str) Value {
	if w.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.needStr(s)
	sl := m.mkBytesE(m.bytesOf(s))
	r, ok := m.callMethod(fr, w, "Write", sl)
	if !ok {
		m.unsupported("Fprintf writer")
	}
	return r
}

func init() {
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	reg("fmt.Sprintf", func(m *Machine, fr *frame, args []Value) Value { return m.format(args[0].(Str), m.sliceArgs(args[1])) })
	reg("fmt.Sprint", func(m *Machine, fr *frame, args []Value) Value { return m.sprint(m.sliceArgs(args[0]), false) })
	reg("fmt.Sprintln", func(m *Machine, fr *frame, args []Value) Value { return m.sprint(m.sliceArgs(args[0]), true) })
	reg("fmt.Errorf", func(m *Machine, fr *frame, args []Value) Value {
		f := args[0].(Str)
		as := m.sliceArgs(args[1])
		s := m.format(f, as)
		if strings.Count(f.s, "%w") == 1 {
			// the wrapped operand
			n := strings.Index(f.s, "%w")
			k := strings.Count(strings.ReplaceAll(f.s[:n], "%%", ""), "%")
			if k < len(as) {
				st := m.zero(m.L.typ("fmt", "wrapError")).(*Agg)
				st.e[0] = s
				st.e[1] = as[k]
				a := m.newAgg(1)
				a.e[0] = st
				return Iface{m.L.canonPtr(types.NewPointer(m.L.typ("fmt", "wrapError"))), Ptr{a: a}}
			}
		}
		return m.errStr(s)
	})
	reg("fmt.Fprintf", func(m *Machine, fr *frame, args []Value) Value {
		return m.writeTo(fr, args[0].(Iface), m.format(args[1].(Str), m.sliceArgs(args[2])))
	})
	reg("fmt.Fprint", func(m *Machine, fr *frame, args []Value) Value {
		return m.writeTo(fr, args[0].(Iface), m.sprint(m.sliceArgs(args[1]), false))
	})
	reg("fmt.Fprintln", func(m *Machine, fr *frame, args []Value) Value {
		return m.writeTo(fr, args[0].(Iface), m.sprint(m.sliceArgs(args[1]), true))
	})
	nilTuple := func(m *Machine, fr *frame, args []Value) Value { return Tuple{m.c.Const(64, 0), Iface{}} }
	reg("fmt.Printf", nilTuple)
	reg("fmt.Println", nilTuple)
	reg("fmt.Print", nilTuple)
}
