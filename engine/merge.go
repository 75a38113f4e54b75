package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Speculative merging of small pure control-flow regions: instead of forking,
// both sides are evaluated and joined with if-then-else terms.

type mexit struct {
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	// index of successor edge in from
	succ int
}

type region struct {
	blocks []*ssa.BasicBlock // absorbed blocks in absorption (topological) order
	exits  []mexit
	t0, t1 *ssa.BasicBlock // distinct targets (t1 may be nil)
}

func pureInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM:
			_, ok := in.Y.(*ssa.Const)
			return ok
		case token.SHL, token.SHR:
			return true
		}
		_, isb := in.X.Type().Underlying().(*types.Basic)
		return isb
	case *ssa.UnOp:
		return in.Op != token.ARROW
	case *ssa.Convert:
		_, _, a := typeInt(in.Type())
		_, _, b := typeInt(in.X.Type())
		return a && b
	case *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.Extract, *ssa.DebugRef:
		return true
	case *ssa.Jump, *ssa.If:
		return true
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		return false
	}
	return false
}

func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 || len(b.Instrs) > 24 {
		return false
	}
	for _, in := range b.Instrs {
		if !pureInstr(in) {
			return false
		}
	}
	return true
}

func exitTargets(ex []mexit) []*ssa.BasicBlock {
	var t []*ssa.BasicBlock
outer:
	for _, e := range ex {
		for _, x := range t {
			if x == e.to {
				continue outer
			}
		}
		t = append(t, e.to)
	}
	return t
}

func (m *Machine) findRegion(b *ssa.BasicBlock) *region {
	exits := []mexit{{b, b.Succs[0], 0}, {b, b.Succs[1], 1}}
	var blocks []*ssa.BasicBlock
	var best *region
	in := map[*ssa.BasicBlock]bool{b: true}
	for len(blocks) < 10 {
		t := exitTargets(exits)
		if len(t) == 1 {
			return &region{append([]*ssa.BasicBlock(nil), blocks...), append([]mexit(nil), exits...), t[0], nil}
		}
		if len(t) == 2 && len(blocks) > 0 {
			best = &region{append([]*ssa.BasicBlock(nil), blocks...), append([]mexit(nil), exits...), t[0], t[1]}
		}
		// absorb the first absorbable exit
		k := -1
		for i, e := range exits {
			if !in[e.to] && pureBlock(e.to) {
				k = i
				break
			}
		}
		if k < 0 {
			break
		}
		nb := exits[k].to
		in[nb] = true
		blocks = append(blocks, nb)
		exits = append(exits[:k:k], exits[k+1:]...)
		for si, s := range nb.Succs {
			exits = append(exits, mexit{nb, s, si})
		}
	}
	// targets must not be region blocks (loops)
	return best
}

type specAbort struct{}

// tryMerge returns (target, pred, ok). pred == nil means the phis of the target are already assigned.
func (m *Machine) tryMerge(fr *frame, b *ssa.BasicBlock, c *Expr) (*ssa.BasicBlock, *ssa.BasicBlock, bool) {
	if m.noMerge {
		return nil, nil, false
	}
	r, ok := m.regions[b]
	if !ok {
		r = m.findRegion(b)
		if r != nil {
			for _, x := range r.blocks {
				if x == r.t0 || x == r.t1 {
					r = nil
					break
				}
			}
			if r != nil && (r.t0 == b || r.t1 == b) {
				r = nil
			}
		}
		m.regions[b] = r
	}
	if r == nil {
		return nil, nil, false
	}
	guards := map[*ssa.BasicBlock]*Expr{b: m.c.tru}
	conds := map[*ssa.BasicBlock]*Expr{b: c}
	edgeGuard := func(e mexit) *Expr {
		g := guards[e.from]
		if len(e.from.Succs) == 2 {
			cc := conds[e.from]
			if e.succ == 1 {
				cc = m.c.Not(cc)
			}
			g = m.c.And(g, cc)
		}
		return g
	}
	for _, x := range r.blocks {
		p := x.Preds[0]
		var g *Expr
		for si, s := range p.Succs {
			if s == x {
				g = edgeGuard(mexit{p, x, si})
			}
		}
		guards[x] = g
		if g.isFalse() {
			conds[x] = m.c.fls
			continue
		}
		if !m.specBlock(fr, x, conds) {
			return nil, nil, false
		}
	}
	// group exits
	var g0, g1 *Expr = m.c.fls, m.c.fls
	for _, e := range r.exits {
		if e.to == r.t0 {
			g0 = m.c.Or(g0, edgeGuard(e))
		} else {
			g1 = m.c.Or(g1, edgeGuard(e))
		}
	}
	// check mergeability of phis for each target first
	v0, ok0 := m.mergePhis(fr, r, r.t0, edgeGuard)
	if !ok0 {
		return nil, nil, false
	}
	var v1 []Value
	if r.t1 != nil {
		var ok1 bool
		v1, ok1 = m.mergePhis(fr, r, r.t1, edgeGuard)
		if !ok1 {
			return nil, nil, false
		}
	}
	t, v := r.t0, v0
	if r.t1 != nil {
		// prefer the branch direction order of the source: t0 first
		if !m.branch(g0) {
			t, v = r.t1, v1
		}
	}
	code := fr.fi.blocks[t.Index]
	for i := range v {
		fr.regs[code[i].dst] = v[i]
	}
	m.merges++
	return t, nil, true
}

func (m *Machine) mergePhis(fr *frame, r *region, t *ssa.BasicBlock, eg func(mexit) *Expr) ([]Value, bool) {
	code := fr.fi.blocks[t.Index]
	var out []Value
	for i := range code {
		if _, ok := code[i].in.(*ssa.Phi); !ok {
			break
		}
		var acc Value
		first := true
		for _, e := range r.exits {
			if e.to != t {
				continue
			}
			g := eg(e)
			if g.isFalse() {
				continue
			}
			// a block may reach t by both successors: ambiguous pred index
			np := 0
			for _, p := range t.Preds {
				if p == e.from {
					np++
				}
			}
			if np != 1 {
				return nil, false
			}
			v := m.get(fr, &code[i].ops[predIndex(t, e.from)])
			if first {
				acc = v
				first = false
				continue
			}
			j, ok := m.joinVal(g, v, acc)
			if !ok {
				return nil, false
			}
			acc = j
		}
		if first {
			return nil, false
		}
		out = append(out, acc)
	}
	return out, true
}

func (m *Machine) joinVal(g *Expr, a, b Value) (Value, bool) {
	switch a := a.(type) {
	case *Expr:
		bb, ok := b.(*Expr)
		if !ok || bb.w != a.w {
			return nil, false
		}
		return m.c.Ite(g, a, bb), true
	case Str:
		bb, ok := b.(Str)
		if ok && a == bb {
			return a, true
		}
	case Ptr:
		bb, ok := b.(Ptr)
		if ok && a == bb {
			return a, true
		}
	case Slice:
		bb, ok := b.(Slice)
		if ok && a == bb {
			return a, true
		}
	case Iface:
		bb, ok := b.(Iface)
		if ok && a.t == nil && bb.t == nil {
			return a, true
		}
	}
	return nil, false
}

// specBlock evaluates the pure block x speculatively; false if some instruction could branch or panic.
func (m *Machine) specBlock(fr *frame, x *ssa.BasicBlock, conds map[*ssa.BasicBlock]*Expr) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	for i := range fr.fi.blocks[x.Index] {
		ci := &fr.fi.blocks[x.Index][i]
		switch in := ci.in.(type) {
		case *ssa.Jump:
		case *ssa.If:
			e, ok := m.get(fr, &ci.ops[0]).(*Expr)
			if !ok {
				return false
			}
			conds[x] = e
		default:
			if !m.specOK(fr, ci, in) {
				return false
			}
			m.exec(fr, ci)
		}
	}
	return true
}

func (m *Machine) specOK(fr *frame, ci *cinstr, in ssa.Instruction) bool {
	for i := range ci.ops {
		if ci.ops[i].k == 0 && fr.regs[ci.ops[i].i] == nil {
			return false
		}
	}
	switch in := in.(type) {
	case *ssa.BinOp:
		x := m.get(fr, &ci.ops[0])
		y := m.get(fr, &ci.ops[1])
		if _, ok := x.(*Expr); !ok {
			xs, ok := x.(Str)
			ys, ok2 := y.(Str)
			return ok && ok2 && !xs.opaque && !ys.opaque
		}
		ye, ok := y.(*Expr)
		if !ok {
			return false
		}
		switch in.Op {
		case token.SHL, token.SHR:
			_, signed, _ := typeInt(in.Y.Type())
			return !signed || nonneg(ye)
		case token.QUO, token.REM:
			return ye.isConst() && ye.k != 0
		}
		return true
	case *ssa.UnOp:
		if in.Op == token.MUL {
			p, ok := m.get(fr, &ci.ops[0]).(Ptr)
			if !ok || p.a == nil {
				return false
			}
			if p.sym == nil {
				_, agg := p.a.e[p.i].(*Agg)
				return !agg
			}
			return true
		}
		_, ok := m.get(fr, &ci.ops[0]).(*Expr)
		return ok
	case *ssa.FieldAddr:
		p, ok := m.get(fr, &ci.ops[0]).(Ptr)
		return ok && p.a != nil && p.sym == nil
	case *ssa.IndexAddr:
		idx, ok := m.get(fr, &ci.ops[1]).(*Expr)
		if !ok {
			return false
		}
		n := 0
		switch x := m.get(fr, &ci.ops[0]).(type) {
		case Slice:
			n = x.len
		case Ptr:
			if x.a == nil || x.sym != nil {
				return false
			}
			n = len(x.a.e[x.i].(*Agg).e)
		}
		_, signed, _ := typeInt(in.Index.Type())
		return m.provablyIn(idx, signed, n)
	case *ssa.Index:
		idx, ok := m.get(fr, &ci.ops[1]).(*Expr)
		if !ok {
			return false
		}
		_, signed, _ := typeInt(in.Index.Type())
		switch x := m.get(fr, &ci.ops[0]).(type) {
		case *Agg:
			return m.provablyIn(idx, signed, len(x.e))
		case Str:
			return !x.opaque && m.provablyIn(idx, signed, x.Len())
		}
		return false
	case *ssa.Lookup:
		idx, ok := m.get(fr, &ci.ops[1]).(*Expr)
		if !ok {
			return false
		}
		if x, ok := m.get(fr, &ci.ops[0]).(Str); ok {
			_, signed, _ := typeInt(in.Index.Type())
			return !x.opaque && m.provablyIn(idx, signed, x.Len())
		}
		return false
	case *ssa.Extract:
		return true
	}
	return true
}

func (m *Machine) provablyIn(idx *Expr, signed bool, n int) bool {
	if idx.isConst() {
		if signed {
			s := sext64(idx.k, idx.w)
			return s >= 0 && s < int64(n)
		}
		return idx.k < uint64(n)
	}
	if signed && !nonneg(idx) {
		return false
	}
	return umax(idx) < uint64(n)
}
