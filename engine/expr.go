package main

import (
	"fmt"
	"math/bits"
)

// Expressions over booleans (w==0) and bit-vectors of width 1..64.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpShl
	OpLshr
	OpAshr
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpConcat
	OpExtract // k = lo ; width = w
	OpZext
	OpSext
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "ite", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvshl", "bvlshr", "bvashr",
	"bvand", "bvor", "bvxor", "bvnot", "bvneg", "concat", "extract", "zext", "sext"}

type Expr struct {
	op      Op
	w       uint8 // 0 = Bool
	k       uint64
	a, b, c *Expr
	name    string
	id      uint32
	// evaluation memo
	evGen uint32
	evVal uint64
}

func (e *Expr) isConst() bool { return e.op == OpConst }
func (e *Expr) isTrue() bool  { return e.op == OpConst && e.w == 0 && e.k == 1 }
func (e *Expr) isFalse() bool { return e.op == OpConst && e.w == 0 && e.k == 0 }

func (e *Expr) String() string { return e.str(6) }
func (e *Expr) str(d int) string {
	if e == nil {
		return "nil"
	}
	switch e.op {
	case OpConst:
		if e.w == 0 {
			return fmt.Sprint(e.k == 1)
		}
		return fmt.Sprintf("%d:%d", e.k, e.w)
	case OpVar:
		return e.name
	}
	if d == 0 {
		return "..."
	}
	s := "(" + opNames[e.op]
	if e.op == OpExtract {
		s += fmt.Sprintf("[%d+%d]", e.k, e.w)
	}
	for _, x := range []*Expr{e.a, e.b, e.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}

type exprKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Expr
}

type constKey struct {
	w uint8
	k uint64
}

type Ctx struct {
	consts map[constKey]*Expr
	bytes  [256]*Expr
	tru    *Expr
	fls    *Expr
	tab    map[exprKey]*Expr
	vars   map[string]*Expr
	nextID uint32
	evGen  uint32
	model  map[string]uint64
}

func NewCtx() *Ctx {
	c := &Ctx{consts: map[constKey]*Expr{}}
	c.tru = &Expr{op: OpConst, w: 0, k: 1}
	c.fls = &Expr{op: OpConst, w: 0, k: 0}
	for i := range c.bytes {
		c.bytes[i] = &Expr{op: OpConst, w: 8, k: uint64(i)}
	}
	c.Reset(nil)
	return c
}

func (c *Ctx) Reset(model map[string]uint64) {
	c.tab = make(map[exprKey]*Expr, 1024)
	c.vars = map[string]*Expr{}
	c.nextID = 1
	c.SetModel(model)
}

func (c *Ctx) SetModel(m map[string]uint64) {
	if m == nil {
		m = map[string]uint64{}
	}
	c.model = m
	c.evGen++
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) Const(w uint8, k uint64) *Expr {
	if w == 8 {
		return c.bytes[k&0xff]
	}
	if w == 0 {
		if k != 0 {
			return c.tru
		}
		return c.fls
	}
	k &= mask(w)
	key := constKey{w, k}
	if e := c.consts[key]; e != nil {
		return e
	}
	e := &Expr{op: OpConst, w: w, k: k}
	if len(c.consts) > 1<<20 {
		c.consts = map[constKey]*Expr{}
	}
	c.consts[key] = e
	return e
}

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.tru
	}
	return c.fls
}

func (c *Ctx) Var(w uint8, name string) *Expr {
	if e := c.vars[name]; e != nil {
		if e.w != w {
			panic("var width mismatch " + name)
		}
		return e
	}
	e := &Expr{op: OpVar, w: w, name: name, id: c.nextID}
	c.nextID++
	c.vars[name] = e
	return e
}

func (c *Ctx) mk(op Op, w uint8, k uint64, a, b, d *Expr) *Expr {
	key := exprKey{op, w, k, a, b, d}
	if e := c.tab[key]; e != nil {
		return e
	}
	e := &Expr{op: op, w: w, k: k, a: a, b: b, c: d, id: c.nextID}
	c.nextID++
	c.tab[key] = e
	return e
}

func sext64(k uint64, w uint8) int64 {
	if w >= 64 {
		return int64(k)
	}
	sh := 64 - w
	return int64(k<<sh) >> sh
}

func same(a, b *Expr) bool {
	return a == b || (a.op == OpConst && b.op == OpConst && a.w == b.w && a.k == b.k)
}

func (c *Ctx) Not(a *Expr) *Expr {
	switch a.op {
	case OpConst:
		return c.Bool(a.k == 0)
	case OpNot:
		return a.a
	}
	return c.mk(OpNot, 0, 0, a, nil, nil)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.isConst() {
		if a.k == 1 {
			return b
		}
		return a
	}
	if b.isConst() {
		if b.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return c.fls
	}
	return c.mk(OpAnd, 0, 0, a, b, nil)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return c.tru
	}
	return c.mk(OpOr, 0, 0, a, b, nil)
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d: %v %v", a.w, b.w, a, b))
	}
	if same(a, b) {
		return c.tru
	}
	if a.isConst() && b.isConst() {
		return c.fls
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w == 0 {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
		switch a.op {
		case OpZext:
			if b.k > mask(a.a.w) {
				return c.fls
			}
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case OpSext:
			lo := b.k & mask(a.a.w)
			if uint64(sext64(lo, a.a.w))&mask(a.w) != b.k {
				return c.fls
			}
			return c.Eq(a.a, c.Const(a.a.w, lo))
		case OpConcat:
			return c.And(c.Eq(a.a, c.Const(a.a.w, b.k>>a.b.w)), c.Eq(a.b, c.Const(a.b.w, b.k)))
		case OpAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.k-a.b.k))
			}
		case OpBXor:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.k^a.b.k))
			}
		case OpBNot:
			return c.Eq(a.a, c.Const(a.w, ^b.k))
		case OpIte:
			if a.b.isConst() && a.c.isConst() {
				t, f := a.b.k == b.k, a.c.k == b.k
				switch {
				case t && f:
					return c.tru
				case t:
					return a.a
				case f:
					return c.Not(a.a)
				default:
					return c.fls
				}
			}
			if a.b.isConst() {
				if a.b.k == b.k {
					return c.Or(a.a, c.Eq(a.c, b))
				}
				return c.And(c.Not(a.a), c.Eq(a.c, b))
			}
			if a.c.isConst() {
				if a.c.k == b.k {
					return c.Or(c.Not(a.a), c.Eq(a.b, b))
				}
				return c.And(a.a, c.Eq(a.b, b))
			}
		}
	} else {
		if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OpConcat && b.op == OpConcat && a.a.w == b.a.w {
			return c.And(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(OpEq, 0, 0, a, b, nil)
}

func (c *Ctx) Ite(g, a, b *Expr) *Expr {
	if g.isConst() {
		if g.k == 1 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if g.op == OpNot {
		g, a, b = g.a, b, a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k == 1 {
				return c.Or(g, b)
			}
			return c.And(c.Not(g), b)
		}
		if b.isConst() {
			if b.k == 1 {
				return c.Or(c.Not(g), a)
			}
			return c.And(g, a)
		}
	}
	if b.op == OpIte && b.a == g {
		b = b.c
	}
	if a.op == OpIte && a.a == g {
		a = a.b
	}
	if b.op == OpIte && same(b.b, a) {
		return c.Ite(c.Or(g, b.a), a, b.c)
	}
	return c.mk(OpIte, a.w, 0, g, a, b)
}

// upper bound on unsigned value (cheap)
func umax(e *Expr) uint64 {
	switch e.op {
	case OpConst:
		return e.k
	case OpZext:
		return umax(e.a)
	case OpConcat:
		if e.a.isConst() {
			return e.a.k<<e.b.w | mask(e.b.w)
		}
	case OpIte:
		x, y := umax2(e.b), umax2(e.c)
		if x > y {
			return x
		}
		return y
	case OpBAnd:
		if e.b.isConst() {
			return e.b.k
		}
	case OpLshr:
		if e.b.isConst() && e.b.k < uint64(e.w) {
			return mask(e.w) >> e.b.k
		}
	case OpURem:
		if e.b.isConst() && e.b.k > 0 {
			return e.b.k - 1
		}
	}
	return mask(e.w)
}
func umax2(e *Expr) uint64 {
	switch e.op {
	case OpConst:
		return e.k
	case OpZext:
		return mask(e.a.w)
	}
	return mask(e.w)
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return c.Bool(a.k < b.k)
	}
	if same(a, b) {
		return c.fls
	}
	if b.isConst() {
		if b.k == 0 {
			return c.fls
		}
		if umax(a) < b.k {
			return c.tru
		}
		if a.op == OpZext && b.k <= mask(a.a.w) {
			return c.Ult(a.a, c.Const(a.a.w, b.k))
		}
	}
	if a.isConst() {
		if a.k >= umax(b) {
			return c.fls
		}
		if b.op == OpZext {
			return c.Ult(c.Const(b.a.w, a.k), b.a)
		}
	}
	return c.mk(OpUlt, 0, 0, a, b, nil)
}
func (c *Ctx) Ule(a, b *Expr) *Expr { return c.Not(c.Ult(b, a)) }

func nonneg(e *Expr) bool {
	return umax(e) <= mask(e.w)>>1
}

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return c.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	if same(a, b) {
		return c.fls
	}
	if nonneg(a) && nonneg(b) {
		return c.Ult(a, b)
	}
	if b.isConst() && b.k == 1<<(b.w-1) {
		return c.fls
	}
	if a.isConst() && a.k == mask(a.w)>>1 {
		return c.fls
	}
	if a.op == OpSext && b.op == OpSext && a.a.w == b.a.w {
		return c.Slt(a.a, b.a)
	}
	if a.op == OpSext && b.isConst() {
		sb := sext64(b.k, b.w)
		lo := int64(-1) << (a.a.w - 1)
		hi := -lo - 1
		if sb > hi {
			return c.tru
		}
		if sb <= lo {
			return c.fls
		}
		return c.Slt(a.a, c.Const(a.a.w, uint64(sb)))
	}
	if b.op == OpSext && a.isConst() {
		sa := sext64(a.k, a.w)
		lo := int64(-1) << (b.a.w - 1)
		hi := -lo - 1
		if sa < lo {
			return c.tru
		}
		if sa >= hi {
			return c.fls
		}
		return c.Slt(c.Const(b.a.w, uint64(sa)), b.a)
	}
	return c.mk(OpSlt, 0, 0, a, b, nil)
}
func (c *Ctx) Sle(a, b *Expr) *Expr { return c.Not(c.Slt(b, a)) }

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAshr:
		sx := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	}
	panic("evalBin")
}

func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	if a.w != b.w {
		panic(fmt.Sprintf("bin %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(w, evalBin(op, w, a.k, b.k))
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	zero := func(e *Expr) bool { return e.isConst() && e.k == 0 }
	ones := func(e *Expr) bool { return e.isConst() && e.k == mask(w) }
	switch op {
	case OpAdd:
		if zero(b) {
			return a
		}
		if b.isConst() && a.op == OpAdd && a.b.isConst() {
			return c.Bin(OpAdd, a.a, c.Const(w, a.b.k+b.k))
		}
	case OpSub:
		if zero(b) {
			return a
		}
		if a == b {
			return c.Const(w, 0)
		}
		if b.isConst() {
			return c.Bin(OpAdd, a, c.Const(w, -b.k))
		}
		if a.op == OpAdd && a.a == b {
			return a.b
		}
		if a.op == OpAdd && a.b == b {
			return a.a
		}
	case OpMul:
		if zero(b) {
			return b
		}
		if b.isConst() && b.k == 1 {
			return a
		}
		if b.isConst() && bits.OnesCount64(b.k) == 1 {
			return c.Bin(OpShl, a, c.Const(w, uint64(bits.TrailingZeros64(b.k))))
		}
	case OpUDiv:
		if b.isConst() && b.k != 0 && bits.OnesCount64(b.k) == 1 {
			return c.Bin(OpLshr, a, c.Const(w, uint64(bits.TrailingZeros64(b.k))))
		}
	case OpURem:
		if b.isConst() && b.k != 0 && bits.OnesCount64(b.k) == 1 {
			return c.Bin(OpBAnd, a, c.Const(w, b.k-1))
		}
	case OpSDiv:
		if nonneg(a) && nonneg(b) {
			return c.Bin(OpUDiv, a, b)
		}
	case OpSRem:
		if nonneg(a) && nonneg(b) {
			return c.Bin(OpURem, a, b)
		}
	case OpShl:
		if zero(b) || zero(a) {
			return a
		}
		if b.isConst() {
			n := b.k
			if n >= uint64(w) {
				return c.Const(w, 0)
			}
			// concat(extract(a), 0)
			return c.Concat(c.Extract(a, 0, w-uint8(n)), c.Const(uint8(n), 0))
		}
	case OpLshr:
		if zero(b) || zero(a) {
			return a
		}
		if b.isConst() {
			n := b.k
			if n >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.Zext(c.Extract(a, uint8(n), w-uint8(n)), w)
		}
	case OpAshr:
		if zero(b) || zero(a) {
			return a
		}
		if nonneg(a) {
			return c.Bin(OpLshr, a, b)
		}
		if b.isConst() {
			n := b.k
			if n >= uint64(w) {
				n = uint64(w) - 1
			}
			return c.Sext(c.Extract(a, uint8(n), w-uint8(n)), w)
		}
	case OpBAnd:
		if zero(b) {
			return b
		}
		if ones(b) || a == b {
			return a
		}
		if b.isConst() {
			if a.op == OpZext || a.op == OpConcat {
				return c.splitBit(op, a, b)
			}
			// low mask
			if b.k&(b.k+1) == 0 {
				n := uint8(bits.OnesCount64(b.k))
				return c.Zext(c.Extract(a, 0, n), w)
			}
		}
	case OpBOr:
		if zero(b) || a == b {
			return a
		}
		if ones(b) {
			return b
		}
		if b.isConst() && (a.op == OpZext || a.op == OpConcat) {
			return c.splitBit(op, a, b)
		}
		if r := c.orDisjoint(a, b); r != nil {
			return r
		}
	case OpBXor:
		if zero(b) {
			return a
		}
		if a == b {
			return c.Const(w, 0)
		}
		if ones(b) {
			return c.BNot(a)
		}
		if b.isConst() && a.op == OpBXor && a.b.isConst() {
			return c.Bin(OpBXor, a.a, c.Const(w, a.b.k^b.k))
		}
		if b.isConst() && (a.op == OpZext || a.op == OpConcat) {
			return c.splitBit(op, a, b)
		}
	}
	return c.mk(op, w, 0, a, b, nil)
}

// bitwise op with a constant distributed over concat/zext
func (c *Ctx) splitBit(op Op, a, b *Expr) *Expr {
	var hi, lo *Expr
	if a.op == OpZext {
		hi, lo = c.Const(a.w-a.a.w, 0), a.a
	} else {
		hi, lo = a.a, a.b
	}
	return c.Concat(c.Bin(op, hi, c.Const(hi.w, b.k>>lo.w)), c.Bin(op, lo, c.Const(lo.w, b.k)))
}

// pieces of an expression as (lo bit, expr|zero)
// a | b where bit ranges that may be nonzero are disjoint -> concat
func (c *Ctx) orDisjoint(a, b *Expr) *Expr {
	la, ha, oka := nzRange(a)
	lb, hb, okb := nzRange(b)
	if !oka || !okb {
		return nil
	}
	if la >= hb {
		// a above b
	} else if lb >= ha {
		a, b = b, a
		la, ha, lb, hb = lb, hb, la, ha
	} else {
		return nil
	}
	w := a.w
	// result: [w-1 .. la] from a, [la-1..0] from b
	if la == 0 {
		return nil
	}
	return c.Concat(c.Extract(a, la, w-la), c.Extract(b, 0, la))
}

// nzRange returns [lo,hi) bits that may be nonzero.
func nzRange(e *Expr) (lo, hi uint8, ok bool) {
	switch e.op {
	case OpZext:
		l, h, ok := nzRange(e.a)
		if ok {
			return l, h, true
		}
		return 0, e.a.w, true
	case OpConcat:
		if e.b.isConst() && e.b.k == 0 {
			_, h, ok := nzRange(e.a)
			if !ok {
				h = e.a.w
			}
			return e.b.w, e.b.w + h, true
		}
		if e.a.isConst() && e.a.k == 0 {
			l, h, ok := nzRange(e.b)
			if ok {
				return l, h, true
			}
			return 0, e.b.w, true
		}
		l, _, ok := nzRange(e.b)
		if !ok {
			l = 0
		}
		_, h, ok2 := nzRange(e.a)
		if !ok2 {
			h = e.a.w
		}
		return l, e.b.w + h, true
	}
	return 0, e.w, false
}

func (c *Ctx) BNot(a *Expr) *Expr {
	if a.isConst() {
		return c.Const(a.w, ^a.k)
	}
	if a.op == OpBNot {
		return a.a
	}
	return c.mk(OpBNot, a.w, 0, a, nil, nil)
}

func (c *Ctx) Neg(a *Expr) *Expr {
	if a.isConst() {
		return c.Const(a.w, -a.k)
	}
	return c.mk(OpNeg, a.w, 0, a, nil, nil)
}

func (c *Ctx) Concat(a, b *Expr) *Expr {
	w := a.w + b.w
	if w > 64 {
		panic("concat too wide")
	}
	if a.isConst() && b.isConst() {
		return c.Const(w, a.k<<b.w|b.k)
	}
	if a.isConst() && a.k == 0 {
		return c.Zext(b, w)
	}
	if a.op == OpZext {
		return c.Zext(c.Concat(a.a, b), w)
	}
	// concat of adjacent extracts
	if a.op == OpExtract && b.op == OpExtract && a.a == b.a && a.k == b.k+uint64(b.w) {
		return c.Extract(a.a, uint8(b.k), w)
	}
	if a.op == OpExtract && b == a.a && false {
		return nil
	}
	if b.op == OpConcat && a.isConst() && b.a.isConst() {
		return c.Concat(c.Concat(a, b.a), b.b)
	}
	return c.mk(OpConcat, w, 0, a, b, nil)
}

func (c *Ctx) Extract(a *Expr, lo, w uint8) *Expr {
	if lo == 0 && w == a.w {
		return a
	}
	if lo+w > a.w {
		panic("extract range")
	}
	switch a.op {
	case OpConst:
		return c.Const(w, a.k>>lo)
	case OpExtract:
		return c.Extract(a.a, uint8(a.k)+lo, w)
	case OpZext:
		if lo >= a.a.w {
			return c.Const(w, 0)
		}
		if lo+w <= a.a.w {
			return c.Extract(a.a, lo, w)
		}
		return c.Zext(c.Extract(a.a, lo, a.a.w-lo), w)
	case OpSext:
		if lo+w <= a.a.w {
			return c.Extract(a.a, lo, w)
		}
		if lo < a.a.w {
			return c.Sext(c.Extract(a.a, lo, a.a.w-lo), w)
		}
	case OpConcat:
		if lo >= a.b.w {
			return c.Extract(a.a, lo-a.b.w, w)
		}
		if lo+w <= a.b.w {
			return c.Extract(a.b, lo, w)
		}
		return c.Concat(c.Extract(a.a, 0, lo+w-a.b.w), c.Extract(a.b, lo, a.b.w-lo))
	case OpBAnd, OpBOr, OpBXor:
		if a.b.isConst() {
			return c.Bin(a.op, c.Extract(a.a, lo, w), c.Const(w, a.b.k>>lo))
		}
	case OpIte:
		if a.b.isConst() || a.c.isConst() {
			return c.Ite(a.a, c.Extract(a.b, lo, w), c.Extract(a.c, lo, w))
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, 0, w), c.Extract(a.b, 0, w))
		}
	}
	return c.mk(OpExtract, w, uint64(lo), a, nil, nil)
}

func (c *Ctx) Zext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(a, 0, w)
	}
	switch a.op {
	case OpConst:
		return c.Const(w, a.k)
	case OpZext:
		return c.Zext(a.a, w)
	case OpIte:
		if a.b.isConst() && a.c.isConst() {
			return c.Ite(a.a, c.Const(w, a.b.k), c.Const(w, a.c.k))
		}
	}
	return c.mk(OpZext, w, 0, a, nil, nil)
}

func (c *Ctx) Sext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(a, 0, w)
	}
	switch a.op {
	case OpConst:
		return c.Const(w, uint64(sext64(a.k, a.w)))
	case OpSext:
		return c.Sext(a.a, w)
	case OpZext:
		return c.Zext(a.a, w)
	}
	return c.mk(OpSext, w, 0, a, nil, nil)
}

// BoolToBV turns a Bool into a bit-vector 0/1.
func (c *Ctx) BoolToBV(a *Expr, w uint8) *Expr { return c.Ite(a, c.Const(w, 1), c.Const(w, 0)) }

// Eval evaluates under the current model; missing variables are 0.
func (c *Ctx) Eval(e *Expr) uint64 {
	if e.op == OpConst {
		return e.k
	}
	if e.evGen == c.evGen {
		return e.evVal
	}
	var r uint64
	switch e.op {
	case OpVar:
		r = c.model[e.name] & func() uint64 {
			if e.w == 0 {
				return 1
			}
			return mask(e.w)
		}()
	case OpNot:
		r = c.Eval(e.a) ^ 1
	case OpAnd:
		r = c.Eval(e.a)
		if r == 1 {
			r = c.Eval(e.b)
		}
	case OpOr:
		r = c.Eval(e.a)
		if r == 0 {
			r = c.Eval(e.b)
		}
	case OpEq:
		if c.Eval(e.a) == c.Eval(e.b) {
			r = 1
		}
	case OpIte:
		if c.Eval(e.a) == 1 {
			r = c.Eval(e.b)
		} else {
			r = c.Eval(e.c)
		}
	case OpUlt:
		if c.Eval(e.a) < c.Eval(e.b) {
			r = 1
		}
	case OpUle:
		if c.Eval(e.a) <= c.Eval(e.b) {
			r = 1
		}
	case OpSlt:
		if sext64(c.Eval(e.a), e.a.w) < sext64(c.Eval(e.b), e.b.w) {
			r = 1
		}
	case OpSle:
		if sext64(c.Eval(e.a), e.a.w) <= sext64(c.Eval(e.b), e.b.w) {
			r = 1
		}
	case OpBNot:
		r = ^c.Eval(e.a) & mask(e.w)
	case OpNeg:
		r = -c.Eval(e.a) & mask(e.w)
	case OpConcat:
		r = c.Eval(e.a)<<e.b.w | c.Eval(e.b)
	case OpExtract:
		r = c.Eval(e.a) >> e.k & mask(e.w)
	case OpZext:
		r = c.Eval(e.a)
	case OpSext:
		r = uint64(sext64(c.Eval(e.a), e.a.w)) & mask(e.w)
	default:
		r = evalBin(e.op, e.w, c.Eval(e.a), c.Eval(e.b))
	}
	e.evGen = c.evGen
	e.evVal = r
	return r
}
