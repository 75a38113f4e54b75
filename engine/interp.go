package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Decision struct {
	conc    bool
	val     uint64
	taken   bool
	implied bool
	n       bool // free choice (no constraint)
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string // assert | panic
	Model   map[string]uint64
	Stack   string
}

type obsEnt struct {
	label string
	kind  int // 0 int, 1 bool, 2 bytes, 3 err
	e     []*Expr
}

// Machine executes harnesses symbolically; one per worker goroutine.
type Machine struct {
	L       *Loaded
	c       *Ctx
	s       *Solver
	epoch   uint32
	ctr     uint32
	trail   []trailEnt
	globals map[*ssa.Global]*Agg
	inited  map[*ssa.Package]int
	fns     map[*ssa.Function]*fnInfo
	methods map[methodKey]*ssa.Function

	// per path
	pc          []*Expr
	sent        int
	prefix      []Decision
	dec         []Decision
	emit        func(prefix []Decision, model map[string]uint64)
	viol        func(v *Violation)
	steps       int64
	maxSteps    int64
	ndCount     map[string]int
	ndOrder     []string
	covers      map[string]bool
	depth       int
	incomplete  []string
	harness     string
	inInit      int
	curPanic    []*frame
	hashApps    []hashApp
	hashIDs     map[string]int
	sigReg      []sigEnt
	nsym        int
	mapNondet   bool
	lastPos     token.Pos
	callStack   []*ssa.Function
	nondetBytes int
	deadline    int64
	branches    int64
	crossCheck  bool
	noMerge     bool
	regions     map[*ssa.BasicBlock]*region
	merges      int64
	asserts     int64
	implCache   map[implKey]bool
	b64         map[string][]*Expr
	funcs       map[string]bool // repository functions executed
	obsE        []obsEnt
	memo        map[string]Value
	tier        int
}

type methodKey struct {
	t types.Type
	f *types.Func
}

type opnd struct {
	k int // 0 = reg, 1 = const value, 2 = global
	i int
	v Value
	g *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []opnd
}

type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	blocks   [][]cinstr
	fvBase   int
	hasDefer bool
	intr     func(m *Machine, fr *frame, args []Value) Value
	redirect *ssa.Function
	checked  bool
	reg      map[ssa.Value]int
	name     string
}

type frame struct {
	fi        *fnInfo
	fn        *ssa.Function
	regs      []Value
	defers    []deferred
	caller    *frame
	panicking *goPanic
	recovered bool
	isDefer   bool // frame was invoked by running a deferred call of caller
	result    Value
	env       []Value
	soft      bool // package initialiser: unsupported calls yield zero values
}

func fr0(fn *ssa.Function) bool {
	return fn.Synthetic == "package initializer" || strings.HasPrefix(fn.Name(), "init#")
}

// softCall runs a call made by a package initialiser; what the engine cannot execute yields a zero value.
func (m *Machine) softCall(caller *frame, fn *ssa.Function, args []Value, env []Value) (ret Value) {
	depth, stack, ep, in := m.depth, len(m.callStack), m.epoch, m.inInit
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case *pathEnd:
				m.softFail(fn, r.msg)
			case *engineError:
				m.softFail(fn, r.msg)
			case *goPanic:
				m.softFail(fn, r.msg)
			default:
				panic(r)
			}
			m.depth = depth
			m.callStack = m.callStack[:stack]
			m.epoch, m.inInit = ep, in
			ret = m.zeroResults(fn)
		}
	}()
	caller.soft = false
	defer func() { caller.soft = true }()
	return m.call(caller, fn, args, env)
}

func (m *Machine) softFail(fn *ssa.Function, msg string) {
	if debugInit {
		fmt.Println("init:", fn, msg)
	}
}

var debugInit = false

type deferred struct {
	f    *Closure
	args []Value
	nat  func()
}

type goPanic struct {
	v     Value
	msg   string
	stack string
}

type pathEnd struct {
	kind string // infeasible | steps | unsupported | done
	msg  string
}

func (m *Machine) rtPanic(msg string) {
	// runtime error value
	t := m.L.rtErrType
	var v Value
	if t != nil {
		a := m.newAgg(1)
		a.e[0] = Str{s: msg}
		v = Iface{t, a.e[0]}
	} else {
		v = Iface{types.Typ[types.String], Str{s: msg}}
	}
	panic(&goPanic{v: v, msg: "runtime error: " + msg, stack: m.stackString()})
}

func (m *Machine) unsupported(msg string) {
	panic(&pathEnd{"unsupported", msg + " at " + m.stackString()})
}

func (m *Machine) stackString() string {
	var b strings.Builder
	n := len(m.callStack)
	for i := n - 1; i >= 0 && i > n-12; i-- {
		if i != n-1 {
			b.WriteString(" < ")
		}
		b.WriteString(m.callStack[i].String())
	}
	if m.lastPos.IsValid() {
		p := m.L.fset.Position(m.lastPos)
		b.WriteString(fmt.Sprintf(" (%s:%d)", p.Filename, p.Line))
	}
	return b.String()
}

// ---------- branching ----------

// stopNow ends the exploration: a violation is confirmed natively.
var stopNow atomic.Bool

func (m *Machine) checkTime() {
	if m.branches&15 == 0 && m.deadline != 0 && (stopNow.Load() || time.Now().UnixNano() > m.deadline+5e9) {
		panic(&pathEnd{"time", "time budget"})
	}
}

var tickDebug = os.Getenv("VF_TICK") != ""

// tick keeps long concrete stretches within the time budget.
func (m *Machine) tick() {
	if tickDebug {
		fmt.Fprintln(os.Stderr, "tick", m.steps>>20, m.stackString())
	}
	if m.deadline != 0 && (stopNow.Load() || time.Now().UnixNano() > m.deadline+5e9) {
		panic(&pathEnd{"time", "time budget at " + m.stackString()})
	}
}

func (m *Machine) addPC(e *Expr) {
	if e.isTrue() {
		return
	}
	m.pc = append(m.pc, e)
}

func (m *Machine) flushPC() {
	for ; m.sent < len(m.pc); m.sent++ {
		m.s.Assert(m.pc[m.sent])
	}
}

func (m *Machine) replaying() bool { return len(m.dec) < len(m.prefix) }

func (m *Machine) nextPrefix() Decision { return m.prefix[len(m.dec)] }

// forkStats counts forks by call stack (VF_FORKS=1, for tuning harnesses).
var forkStats map[string]int
var forkMu sync.Mutex

func printForks() {
	var ks []string
	for k := range forkStats {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkStats[ks[i]] > forkStats[ks[j]] })
	for i, k := range ks {
		if i < 25 {
			fmt.Printf("  fork %6d %s\n", forkStats[k], clip(k, 900))
		}
	}
}

func (m *Machine) push(alt Decision, model map[string]uint64) {
	if forkStats != nil {
		forkMu.Lock()
		forkStats[m.stackString()]++
		forkMu.Unlock()
	}
	p := make([]Decision, len(m.dec)+1)
	copy(p, m.dec)
	p[len(m.dec)] = alt
	m.emit(p, model)
}

func (m *Machine) branch(cond *Expr) bool {
	if cond.isConst() {
		return cond.k == 1
	}
	if m.inInit > 0 {
		panic(&engineError{"symbolic branch in package init"})
	}
	m.branches++
	m.checkTime()
	if m.replaying() {
		d := m.nextPrefix()
		if d.conc {
			panic(&engineError{"nondeterministic replay (branch vs conc) at " + m.stackString()})
		}
		m.dec = append(m.dec, d)
		if !d.implied {
			if d.taken {
				m.addPC(cond)
			} else {
				m.addPC(m.c.Not(cond))
			}
		}
		return d.taken
	}
	v := m.c.Eval(cond) == 1
	other := cond
	if v {
		other = m.c.Not(cond)
	}
	m.flushPC()
	res, model := m.s.Check(other, true)
	d := Decision{taken: v}
	switch res {
	case rSat:
		m.push(Decision{taken: !v}, model)
	case rUnsat:
		d.implied = true
	case rUnknown:
		m.incomplete = append(m.incomplete, "solver timeout at "+m.stackString())
	}
	m.dec = append(m.dec, d)
	if !d.implied {
		if v {
			m.addPC(cond)
		} else {
			m.addPC(m.c.Not(cond))
		}
	}
	return v
}

// choose is a free n-way choice by the scheduler (no constraint attached).
func (m *Machine) concretize(e *Expr) uint64 {
	if e.isConst() {
		return e.k
	}
	if m.inInit > 0 {
		panic(&engineError{"symbolic value in package init"})
	}
	n := 0
	for {
		n++
		if n > 5 { // many values: decide bit by bit, so that decision sequences stay short
			v := uint64(0)
			top := int(e.w) - 1
			for _, b := range []int{4, 8, 16, 32} {
				if b < int(e.w) && m.branch(m.c.Ult(e, m.c.Const(e.w, 1<<uint(b)))) {
					top = b - 1
					break
				}
			}
			for i := top; i >= 0; i-- {
				if m.branch(m.c.Eq(m.c.Extract(e, uint8(i), 1), m.c.Const(1, 1))) {
					v |= 1 << uint(i)
				}
			}
			return v
		}
		if m.replaying() {
			d := m.nextPrefix()
			if !d.conc {
				panic(&engineError{"nondeterministic replay (conc vs branch) at " + m.stackString()})
			}
			m.dec = append(m.dec, d)
			eq := m.c.Eq(e, m.c.Const(e.w, d.val))
			if d.taken {
				if !d.implied {
					m.addPC(eq)
				}
				return d.val
			}
			m.addPC(m.c.Not(eq))
			continue
		}
		m.branches++
		m.checkTime()
		v := m.c.Eval(e)
		eq := m.c.Eq(e, m.c.Const(e.w, v))
		if eq.isTrue() {
			return v
		}
		m.flushPC()
		res, model := m.s.Check(m.c.Not(eq), true)
		d := Decision{conc: true, val: v, taken: true}
		switch res {
		case rSat:
			m.push(Decision{conc: true, val: v, taken: false}, model)
		case rUnsat:
			d.implied = true
		case rUnknown:
			m.incomplete = append(m.incomplete, "solver timeout at "+m.stackString())
		}
		m.dec = append(m.dec, d)
		if !d.implied {
			m.addPC(eq)
		}
		return v
	}
}

func (m *Machine) assume(cond *Expr) {
	if cond.isTrue() {
		return
	}
	if cond.isFalse() {
		panic(&pathEnd{"infeasible", ""})
	}
	if m.c.Eval(cond) == 1 {
		m.addPC(cond)
		return
	}
	if m.replaying() {
		panic(&engineError{"assume false under model while replaying at " + m.stackString()})
	}
	m.flushPC()
	res, model := m.s.Check(cond, true)
	switch res {
	case rSat:
		m.addPC(cond)
		m.c.SetModel(model)
	case rUnsat:
		panic(&pathEnd{"infeasible", ""})
	default:
		m.incomplete = append(m.incomplete, "solver timeout in assume")
		panic(&pathEnd{"infeasible", "unknown"})
	}
}

func (m *Machine) assert(cond *Expr, msg string) {
	if cond.isTrue() {
		return
	}
	if m.replaying() {
		// the parent path already decided this assertion
		if cond.isFalse() {
			panic(&pathEnd{"infeasible", ""})
		}
		m.addPC(cond)
		return
	}
	if m.c.Eval(cond) == 0 {
		m.viol(&Violation{Harness: m.harness, Msg: msg, Kind: "assert", Model: m.fullModel(m.c.model), Stack: m.stackString()})
	} else {
		m.flushPC()
		res, model := m.s.Check(m.c.Not(cond), true)
		switch res {
		case rSat:
			m.viol(&Violation{Harness: m.harness, Msg: msg, Kind: "assert", Model: m.fullModel(model), Stack: m.stackString()})
		case rUnknown:
			m.incomplete = append(m.incomplete, "solver timeout in assertion "+msg)
		}
	}
	m.assume(cond)
}

func (m *Machine) fullModel(model map[string]uint64) map[string]uint64 {
	r := map[string]uint64{}
	for _, n := range m.ndOrder {
		r[n] = model[n]
	}
	return r
}

// ---------- function compilation ----------

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	fi := m.fns[fn]
	if fi != nil {
		return fi
	}
	fi = &fnInfo{fn: fn}
	m.fns[fn] = fi
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	fi.name = name
	if strings.HasPrefix(pkgPathOf(fn), repoMod) && pkgPathOf(fn) != vfPath && !strings.Contains(fn.Name(), "VF_") {
		m.funcs[name] = true
	}
	if h := intrinsics[name]; h != nil {
		fi.intr = h
		return fi
	}
	if r := m.L.redirects[name]; r != nil && r != fn {
		fi.redirect = r
		return fi
	}
	if h := prefixIntrinsic(fn, name); h != nil {
		fi.intr = h
		return fi
	}
	if fn.Blocks == nil {
		return fi
	}
	m.compile(fi)
	return fi
}

func (m *Machine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return m.c.Const(w, uint64(i))
			}
			if i, ok := constant.Uint64Val(v); ok {
				return m.c.Const(w, i)
			}
			panic(&engineError{"const " + c.String()})
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return m.c.Bool(constant.BoolVal(c.Value))
		case types.String, types.UntypedString:
			return Str{s: constant.StringVal(c.Value)}
		case types.Float64, types.UntypedFloat, types.Float32:
			f, _ := constant.Float64Val(c.Value)
			return f
		case types.Complex128, types.Complex64:
			return complex(0, 0)
		}
	case *types.TypeParam:
		panic(&engineError{"const of type param"})
	case *types.Interface:
		if c.Value == nil {
			return Iface{}
		}
	}
	panic(&engineError{fmt.Sprintf("const %v %v", c, t)})
}

func (m *Machine) compile(fi *fnInfo) {
	fn := fi.fn
	reg := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		reg[p] = n
		n++
	}
	fi.fvBase = n
	for _, p := range fn.FreeVars {
		reg[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg[v] = n
				n++
			}
			switch in.(type) {
			case *ssa.Defer:
				fi.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		fi.hasDefer = true
	}
	fi.nregs = n
	fi.reg = reg
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{k: 1, v: nil}
		case *ssa.Const:
			return opnd{k: 1, v: m.constVal(v)}
		case *ssa.Function:
			return opnd{k: 1, v: &Closure{fn: v}}
		case *ssa.Global:
			return opnd{k: 2, g: v}
		case *ssa.Builtin:
			return opnd{k: 1, v: nil}
		}
		i, ok := reg[v]
		if !ok {
			panic(&engineError{fmt.Sprintf("no register for %v in %v", v, fn)})
		}
		return opnd{k: 0, i: i}
	}
	fi.blocks = make([][]cinstr, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cs := make([]cinstr, 0, len(b.Instrs))
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range in.Edges {
					ci.ops = append(ci.ops, op(e))
				}
			case ssa.CallInstruction:
				cc := in.Common()
				ci.ops = append(ci.ops, op(cc.Value))
				for _, a := range cc.Args {
					ci.ops = append(ci.ops, op(a))
				}
			case *ssa.MakeClosure:
				for _, a := range in.Bindings {
					ci.ops = append(ci.ops, op(a))
				}
			case *ssa.Slice:
				ci.ops = append(ci.ops, op(in.X))
				for _, x := range []ssa.Value{in.Low, in.High, in.Max} {
					if x == nil {
						ci.ops = append(ci.ops, opnd{k: 1})
					} else {
						ci.ops = append(ci.ops, op(x))
					}
				}
			case *ssa.Return:
				for _, a := range in.Results {
					ci.ops = append(ci.ops, op(a))
				}
			default:
				for _, o := range in.Operands(nil) {
					if *o == nil {
						ci.ops = append(ci.ops, opnd{k: 1})
					} else {
						ci.ops = append(ci.ops, op(*o))
					}
				}
			}
			cs = append(cs, ci)
		}
		fi.blocks[bi] = cs
	}
}

func (m *Machine) get(fr *frame, o *opnd) Value {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		if a, ok := o.v.(*Agg); ok {
			return m.copyVal(a)
		}
		return o.v
	}
	return Ptr{a: m.global(o.g)}
}

func (m *Machine) global(g *ssa.Global) *Agg {
	if a := m.globals[g]; a != nil {
		return a
	}
	m.initPkg(g.Pkg)
	if a := m.globals[g]; a != nil {
		return a
	}
	save := m.epoch
	m.epoch = 0
	a := &Agg{e: []Value{m.zero(g.Type().(*types.Pointer).Elem())}}
	m.globals[g] = a
	m.epoch = save
	return a
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "os", "syscall", "reflect", "net", "testing", "log", "os/exec", "os/signal", "unsafe",
		"crypto/internal/boring", "math/rand", "math/rand/v2", "crypto/rand", "crypto/tls", "internal/reflectlite",
		"internal/cpu", "internal/poll", "internal/godebug", "internal/godebugs", "internal/testlog", "internal/abi":
		return true
	}
	if strings.HasPrefix(path, "crypto/internal/fips140/aes") || strings.HasPrefix(path, "vendor/golang.org/x/crypto/cryptobyte") {
		return false
	}
	for _, p := range []string{"runtime/", "crypto/internal/", "internal/syscall/", "internal/runtime/", "vendor/", "net/"} {
		if strings.HasPrefix(path, p) {
			return true
		}
	}
	return false
}

// initPkg runs the package initialiser of p alone (dependencies are initialised lazily).
func (m *Machine) initPkg(p *ssa.Package) {
	if p == nil || m.inited[p] != 0 {
		return
	}
	m.inited[p] = 1
	saveEpoch := m.epoch
	m.epoch = 0
	saveStack := m.callStack
	saveSteps, saveMax := m.steps, m.maxSteps
	m.maxSteps = 1 << 60
	m.inInit++
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			m.globals[g] = &Agg{e: []Value{m.zero(g.Type().(*types.Pointer).Elem())}}
		}
	}
	if !skipInit(p.Pkg.Path()) {
		if f := p.Func("init"); f != nil && f.Blocks != nil {
			m.softInit(f)
		}
	}
	m.inInit--
	m.epoch = saveEpoch
	m.callStack = saveStack
	m.steps, m.maxSteps = saveSteps, saveMax
	m.inited[p] = 2
}

func (m *Machine) softInit(f *ssa.Function) {
	m.call(nil, f, nil, nil)
}

// ---------- execution ----------

func (m *Machine) callClosure(caller *frame, cl *Closure, args []Value) Value {
	if cl == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if cl.native != nil {
		return cl.native(m, args)
	}
	return m.call(caller, cl.fn, args, cl.env)
}

func (m *Machine) call(caller *frame, fn *ssa.Function, args []Value, env []Value) (ret Value) {
	fi := m.info(fn)
	if fi.intr != nil {
		m.callStack = append(m.callStack, fn)
		r := fi.intr(m, caller, args)
		m.callStack = m.callStack[:len(m.callStack)-1]
		return r
	}
	if fi.redirect != nil {
		return m.call(caller, fi.redirect, args, nil)
	}
	if fn.Blocks == nil {
		if m.inInit > 0 {
			return m.zeroResults(fn)
		}
		m.unsupported("external function " + fn.String())
	}
	if m.inInit > 0 && caller != nil && caller.soft && !fr0(fn) {
		return m.softCall(caller, fn, args, env)
	}
	if m.inInit > 0 && fn.Synthetic == "package initializer" && caller != nil {
		return nil // dependencies are initialised lazily
	}
	m.depth++
	if m.depth > 3000 {
		m.depth = 0
		panic(&pathEnd{"depth", "call depth at " + m.stackString()})
	}
	m.callStack = append(m.callStack, fn)
	fr := &frame{fi: fi, fn: fn, caller: caller, env: env}
	if m.inInit > 0 && (fn.Synthetic == "package initializer" || strings.HasPrefix(fn.Name(), "init#")) {
		fr.soft = true
	}
	fr.regs = make([]Value, fi.nregs)
	if len(args) != len(fn.Params) {
		panic(&engineError{fmt.Sprintf("arg count for %v: %d vs %d", fn, len(args), len(fn.Params))})
	}
	copy(fr.regs, args)
	copy(fr.regs[fi.fvBase:], env)
	depth := m.depth
	stack := len(m.callStack)
	if !fi.hasDefer {
		ret = m.run(fr, fn.Blocks[0])
		m.depth = depth - 1
		m.callStack = m.callStack[:stack-1]
		return ret
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				m.depth = depth
				m.callStack = m.callStack[:stack]
				fr.panicking = gp
				m.runDefers(fr)
				if fr.panicking != nil {
					panic(fr.panicking)
				}
				// recovered
				if fn.Recover != nil {
					ret = m.run(fr, fn.Recover)
				} else {
					ret = m.zeroResults(fn)
				}
			}
		}()
		ret = m.run(fr, fn.Blocks[0])
	}()
	m.depth = depth - 1
	m.callStack = m.callStack[:stack-1]
	return ret
}

func (m *Machine) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(r.At(0).Type())
	}
	return m.zero(r)
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth, stack := m.depth, len(m.callStack)
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					m.depth = depth
					m.callStack = m.callStack[:stack]
					fr.panicking = gp // replaces any earlier panic
				}
			}()
			if d.nat != nil {
				d.nat()
				return
			}
			m.callClosureDefer(fr, d.f, d.args)
		}()
	}
}

func (m *Machine) callClosureDefer(fr *frame, cl *Closure, args []Value) {
	if cl == nil {
		m.rtPanic("nil func deferred")
	}
	if cl.native != nil {
		cl.native(m, args)
		return
	}
	m.call(fr, cl.fn, args, cl.env)
}

const stepLimit = 40_000_000

func (m *Machine) run(fr *frame, b *ssa.BasicBlock) Value {
	var prevB *ssa.BasicBlock
	skipPhi := false
	for {
		code := fr.fi.blocks[b.Index]
		i := 0
		if len(code) > 0 {
			if _, ok := code[0].in.(*ssa.Phi); ok {
				if skipPhi {
					for i < len(code) {
						if _, ok := code[i].in.(*ssa.Phi); !ok {
							break
						}
						i++
					}
				} else {
					pi := predIndex(b, prevB)
					var tmp [16]Value
					vals := tmp[:0]
					for i < len(code) {
						if _, ok := code[i].in.(*ssa.Phi); !ok {
							break
						}
						vals = append(vals, m.get(fr, &code[i].ops[pi]))
						i++
					}
					for k := 0; k < i; k++ {
						fr.regs[code[k].dst] = vals[k]
					}
				}
			}
		}
		skipPhi = false
		m.steps += int64(len(code))
		if m.steps&0xfffff < int64(len(code)) {
			m.tick()
		}
		if m.steps > m.maxSteps {
			panic(&pathEnd{"steps", "step limit at " + m.stackString()})
		}
		var next *ssa.BasicBlock
	instrs:
		for ; i < len(code); i++ {
			ci := &code[i]
			switch in := ci.in.(type) {
			case *ssa.If:
				c := m.get(fr, &ci.ops[0]).(*Expr)
				if !c.isConst() {
					if nb, pb, ok := m.tryMerge(fr, b, c); ok {
						next = nb
						prevB = pb
						skipPhi = pb == nil
						break instrs
					}
				}
				if m.branch(c) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
				prevB = b
				break instrs
			case *ssa.Jump:
				next = b.Succs[0]
				prevB = b
				break instrs
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					return nil
				case 1:
					return m.get(fr, &ci.ops[0])
				}
				t := make(Tuple, len(ci.ops))
				for k := range ci.ops {
					t[k] = m.get(fr, &ci.ops[k])
				}
				return t
			case *ssa.Panic:
				m.lastPos = in.Pos()
				v := m.get(fr, &ci.ops[0])
				panic(&goPanic{v: v, msg: "panic: " + m.describe(v), stack: m.stackString()})
			case *ssa.RunDefers:
				m.runDefers(fr)
				if fr.panicking != nil {
					panic(fr.panicking)
				}
			default:
				m.exec(fr, ci)
			}
		}
		if next == nil {
			panic(&engineError{"block without successor in " + fr.fn.String()})
		}
		b = next
	}
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for k, p := range b.Preds {
		if p == prev {
			return k
		}
	}
	panic(&engineError{"no pred edge in " + b.Parent().String()})
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Parent() != nil {
		return pkgPathOf(fn.Parent())
	}
	return ""
}
