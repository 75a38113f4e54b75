package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(m *Machine, fr *frame, args []Value) Value

var intrinsics = map[string]intrinsic{}

var redirectTable = map[string]string{
	"crypto/md5.New":                           "redirNewMD5",
	"crypto/sha1.New":                          "redirNewSHA1",
	"crypto/sha256.New":                        "redirNewSHA256",
	"crypto/sha256.New224":                     "redirNewSHA224",
	"crypto/sha512.New":                        "redirNewSHA512",
	"crypto/sha512.New384":                     "redirNewSHA384",
	"crypto/md5.Sum":                           "redirSumMD5",
	"crypto/sha1.Sum":                          "redirSumSHA1",
	"crypto/sha256.Sum256":                     "redirSumSHA256",
	"crypto/sha256.Sum224":                     "redirSumSHA224",
	"crypto/sha512.Sum512":                     "redirSumSHA512",
	"crypto/sha512.Sum384":                     "redirSumSHA384",
	"(crypto.Hash).New":                        "redirHashNew",
	"(*sync.Map).Load":                         "redirMapLoad",
	"(*sync.Map).Store":                        "redirMapStore",
	"(*sync.Map).LoadOrStore":                  "redirMapLoadOrStore",
	"crypto/internal/fips140/subtle.XORBytes":  "redirXORBytes",
	"crypto/internal/constanttime.boolToUint8": "redirBool",
	"(crypto.Hash).Available":                  "redirHashAvailable",
	"crypto/rand.Read":                         "redirRandRead",
	"crypto/rsa.EncryptPKCS1v15":               "redirEncryptPKCS1v15",
	"crypto/rsa.DecryptPKCS1v15":               "redirDecryptPKCS1v15",
	"crypto/rsa.SignPKCS1v15":                  "redirSignPKCS1v15",
	"os.Open":                                  "redirOpen",
	"(*os.File).Read":                          "redirFileRead",
	"(*os.File).ReadAt":                        "redirFileReadAt",
	"(*os.File).Seek":                          "redirFileSeek",
	"(*os.File).Close":                         "redirFileClose",
}

func prefixIntrinsic(fn *ssa.Function, name string) intrinsic {
	if fn.Pkg == nil && fn.Signature.Recv() == nil && fn.Origin() == nil {
		return nil
	}
	if strings.HasPrefix(name, "(reflect.Value).") || strings.HasPrefix(name, "(*reflect.Value).") ||
		strings.HasPrefix(name, "(internal/reflectlite.Value).") {
		return reflectMethodIntrinsic(fn)
	}
	if strings.HasPrefix(name, "sync/atomic.") && fn.Blocks == nil {
		return atomicIntrinsic(fn.Name())
	}
	if strings.HasPrefix(name, "internal/runtime/atomic.") {
		return atomicIntrinsic(fn.Name())
	}
	switch name {
	case "reflect.TypeFor":
		t := fn.TypeArgs()[0]
		return func(m *Machine, fr *frame, args []Value) Value { return m.mkRType(t) }
	case "reflect.TypeAssert":
		t := fn.TypeArgs()[0]
		return func(m *Machine, fr *frame, args []Value) Value {
			v := args[0].(RValue)
			i := m.rinterface(v).(Iface)
			if it, ok := under(t).(*types.Interface); ok {
				if i.t != nil && m.implements(i.t, it) {
					return Tuple{i, m.c.tru}
				}
				return Tuple{m.zero(t), m.c.fls}
			}
			if i.t != nil && types.Identical(i.t, t) {
				return Tuple{m.copyVal(i.v), m.c.tru}
			}
			return Tuple{m.zero(t), m.c.fls}
		}
	}
	return nil
}

func atomicIntrinsic(name string) intrinsic {
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(m *Machine, fr *frame, args []Value) Value { return m.load(args[0].(Ptr)) }
	case strings.HasPrefix(name, "Store"):
		return func(m *Machine, fr *frame, args []Value) Value { m.store(args[0].(Ptr), args[1]); return nil }
	case strings.HasPrefix(name, "Add"):
		return func(m *Machine, fr *frame, args []Value) Value {
			v := m.c.Bin(OpAdd, m.load(args[0].(Ptr)).(*Expr), args[1].(*Expr))
			m.store(args[0].(Ptr), v)
			return v
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(m *Machine, fr *frame, args []Value) Value {
			if m.branch(m.eq(m.load(args[0].(Ptr)), args[1])) {
				m.store(args[0].(Ptr), args[2])
				return m.c.tru
			}
			return m.c.fls
		}
	case strings.HasPrefix(name, "Swap"):
		return func(m *Machine, fr *frame, args []Value) Value {
			v := m.load(args[0].(Ptr))
			m.store(args[0].(Ptr), args[1])
			return v
		}
	case strings.HasPrefix(name, "Or"), strings.HasPrefix(name, "And"):
		op := OpBOr
		if strings.HasPrefix(name, "And") {
			op = OpBAnd
		}
		return func(m *Machine, fr *frame, args []Value) Value {
			v := m.load(args[0].(Ptr)).(*Expr)
			m.store(args[0].(Ptr), m.c.Bin(op, v, args[1].(*Expr)))
			return v
		}
	}
	return nil
}

// ---------- inputs ----------

func (m *Machine) inputKey(v Value) string {
	s, ok := v.(Str)
	if !ok || s.a != nil {
		panic(&engineError{"symbolic input name"})
	}
	n := m.ndCount[s.s]
	m.ndCount[s.s] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", s.s, n)
	}
	return s.s
}

func (m *Machine) input(w uint8, name string) *Expr {
	m.ndOrder = append(m.ndOrder, name)
	return m.c.Var(w, name)
}

func (m *Machine) int(v Value) int { return int(int64(m.concretize(v.(*Expr)))) }

func (m *Machine) errStr(msg Str) Iface {
	t := types.NewPointer(m.L.typ("errors", "errorString"))
	t = m.L.canonPtr(t)
	a := m.newAgg(1)
	s := m.newAgg(1)
	s.e[0] = msg
	a.e[0] = s
	return Iface{t, Ptr{a: a}}
}

func (l *Loaded) canonPtr(t *types.Pointer) *types.Pointer {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.ptrs == nil {
		l.ptrs = map[types.Type]*types.Pointer{}
	}
	if p := l.ptrs[t.Elem()]; p != nil {
		return p
	}
	l.ptrs[t.Elem()] = t
	return t
}

func (m *Machine) sliceArgs(v Value) []Value {
	s := v.(Slice)
	if s.len == 0 {
		return nil
	}
	return s.a.e[s.off : s.off+s.len]
}

func noop(m *Machine, fr *frame, args []Value) Value { return nil }

func init() {
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	vf := vfPath + "."
	for _, x := range []struct {
		n string
		w uint8
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"I32", 32}, {"I64", 64}} {
		w := x.w
		reg(vf+x.n, func(m *Machine, fr *frame, args []Value) Value { return m.input(w, m.inputKey(args[0])) })
	}
	reg(vf+"Bool", func(m *Machine, fr *frame, args []Value) Value {
		v := m.input(8, m.inputKey(args[0]))
		return m.c.Eq(m.c.Extract(v, 0, 1), m.c.Const(1, 1))
	})
	reg(vf+"Int", func(m *Machine, fr *frame, args []Value) Value {
		v := m.input(64, m.inputKey(args[0]))
		m.assume(m.c.And(m.c.Sle(args[1].(*Expr), v), m.c.Sle(v, args[2].(*Expr))))
		return v
	})
	reg(vf+"Choice", func(m *Machine, fr *frame, args []Value) Value {
		v := m.input(64, m.inputKey(args[0]))
		n := m.int(args[1])
		if n == 1 {
			m.assume(m.c.Eq(v, m.c.Const(64, 0)))
			return m.c.Const(64, 0)
		}
		m.assume(m.c.Ult(v, m.c.Const(64, uint64(n))))
		lo, hi := 0, n-1
		for hi-lo >= 8 { // halve, so that decision sequences stay short
			mid := lo + (hi-lo)/2
			if m.branch(m.c.Ult(v, m.c.Const(64, uint64(mid+1)))) {
				hi = mid
			} else {
				lo = mid + 1
			}
		}
		return m.c.Const(64, m.concretize(v))
	})
	reg(vf+"Bytes", func(m *Machine, fr *frame, args []Value) Value {
		k := m.inputKey(args[0])
		n := m.int(args[1])
		a := m.newAgg(n)
		for i := range a.e {
			a.e[i] = m.input(8, fmt.Sprintf("%s[%d]", k, i))
		}
		m.nondetBytes += n
		return Slice{a, 0, n, n}
	})
	reg(vf+"Concrete", func(m *Machine, fr *frame, args []Value) Value {
		e := args[0].(*Expr)
		return m.c.Const(e.w, m.concretize(e))
	})
	reg(vf+"Assume", func(m *Machine, fr *frame, args []Value) Value { m.assume(args[0].(*Expr)); return nil })
	reg(vf+"Assert", func(m *Machine, fr *frame, args []Value) Value {
		m.asserts++
		m.assert(args[0].(*Expr), m.strDebug(args[1].(Str)))
		return nil
	})
	reg(vf+"Cover", func(m *Machine, fr *frame, args []Value) Value {
		m.covers[m.strDebug(args[0].(Str))] = true
		return nil
	})
	reg(vf+"And", func(m *Machine, fr *frame, args []Value) Value { return m.c.And(args[0].(*Expr), args[1].(*Expr)) })
	reg(vf+"Or", func(m *Machine, fr *frame, args []Value) Value { return m.c.Or(args[0].(*Expr), args[1].(*Expr)) })
	reg(vf+"Ite", func(m *Machine, fr *frame, args []Value) Value {
		return m.c.Ite(args[0].(*Expr), args[1].(*Expr), args[2].(*Expr))
	})
	reg(vf+"MapNondet", func(m *Machine, fr *frame, args []Value) Value { m.mapNondet = args[0].(*Expr).isTrue(); return nil })
	reg(vf+"Tier", func(m *Machine, fr *frame, args []Value) Value { return m.c.Const(64, uint64(m.tier)) })
	reg(vf+"Symbolic", func(m *Machine, fr *frame, args []Value) Value { return m.c.tru })
	reg(vf+"ObsInt", func(m *Machine, fr *frame, args []Value) Value {
		m.obsE = append(m.obsE, obsEnt{m.strDebug(args[0].(Str)), 0, []*Expr{args[1].(*Expr)}})
		return nil
	})
	reg(vf+"ObsBool", func(m *Machine, fr *frame, args []Value) Value {
		m.obsE = append(m.obsE, obsEnt{m.strDebug(args[0].(Str)), 1, []*Expr{args[1].(*Expr)}})
		return nil
	})
	reg(vf+"ObsBytes", func(m *Machine, fr *frame, args []Value) Value {
		m.obsE = append(m.obsE, obsEnt{m.strDebug(args[0].(Str)), 2, m.bytesOf(args[1])})
		return nil
	})
	reg(vf+"ObsErr", func(m *Machine, fr *frame, args []Value) Value {
		m.obsE = append(m.obsE, obsEnt{m.strDebug(args[0].(Str)), 1, []*Expr{m.c.Bool(args[1].(Iface).t != nil)}})
		return nil
	})

	// ---- runtime-ish ----
	for _, n := range []string{"(*sync.Mutex).Lock", "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*strings.Builder).copyCheck", "(*internal/godebug.Setting).IncNonDefault",
		"runtime.KeepAlive", "runtime.SetFinalizer", "(*sync.Pool).Put", "time.initLocal", "runtime.GC", "(*sync.WaitGroup).Add",
		"crypto/internal/fips140only.Enforced", "crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "runtime/debug.SetGCPercent"} {
		reg(n, noop)
	}
	fls := func(m *Machine, fr *frame, args []Value) Value { return m.c.fls }
	reg("crypto/internal/fips140only.Enforced", fls)
	reg("crypto/fips140.Enabled", fls)
	reg("crypto/internal/fips140/alias.AnyOverlap", fls) // in-place use only
	reg("crypto/internal/fips140/alias.InexactOverlap", fls)
	reg("crypto/internal/boring.Enabled", fls)
	reg("(*sync.Mutex).TryLock", func(m *Machine, fr *frame, args []Value) Value { return m.c.tru })
	reg("(*internal/godebug.Setting).Value", func(m *Machine, fr *frame, args []Value) Value { return Str{} })
	reg("(*internal/godebug.Setting).Name", func(m *Machine, fr *frame, args []Value) Value { return Str{} })
	reg("internal/godebug.New", func(m *Machine, fr *frame, args []Value) Value {
		a := m.newAgg(1)
		a.e[0] = m.zero(m.L.typ("internal/godebug", "Setting"))
		return Ptr{a: a}
	})
	reg("(*sync.Pool).Get", func(m *Machine, fr *frame, args []Value) Value {
		p := args[0].(Ptr)
		pool := p.a.e[p.i].(*Agg)
		st := m.L.typ("sync", "Pool").Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				if cl, _ := pool.e[i].(*Closure); cl != nil {
					return m.callClosure(fr, cl, nil)
				}
			}
		}
		return Iface{}
	})
	reg("(*sync/atomic.Value).Load", func(m *Machine, fr *frame, args []Value) Value {
		p := args[0].(Ptr)
		return p.a.e[p.i].(*Agg).e[0]
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, fr *frame, args []Value) Value {
		p := args[0].(Ptr)
		m.setCell(p.a.e[p.i].(*Agg), 0, args[1])
		return nil
	})
	reg("internal/abi.NoEscape", func(m *Machine, fr *frame, args []Value) Value { return args[0] })
	reg("time.now", func(m *Machine, fr *frame, args []Value) Value {
		return Tuple{m.c.Const(64, 1790000000), m.c.Const(32, 0), m.c.Const(64, 1)}
	})
	reg("time.runtimeNano", func(m *Machine, fr *frame, args []Value) Value { return m.c.Const(64, 1) })
	reg("time.Now", func(m *Machine, fr *frame, args []Value) Value {
		f := m.L.fn("time.Unix")
		return m.call(fr, f, []Value{m.c.Const(64, 1790000000), m.c.Const(64, 0)}, nil)
	})
	_ = time.Now
	reg("os.Getenv", func(m *Machine, fr *frame, args []Value) Value { return Str{} })
	reg("syscall.Getenv", func(m *Machine, fr *frame, args []Value) Value { return Tuple{Str{}, m.c.fls} })
	reg("runtime.Caller", func(m *Machine, fr *frame, args []Value) Value {
		return Tuple{m.c.Const(64, 0), Str{}, m.c.Const(64, 0), m.c.fls}
	})

	// ---- math ----
	reg("math.Float64bits", func(m *Machine, fr *frame, args []Value) Value {
		return m.c.Const(64, math.Float64bits(args[0].(float64)))
	})
	reg("math.Float64frombits", func(m *Machine, fr *frame, args []Value) Value {
		return math.Float64frombits(m.concretize(args[0].(*Expr)))
	})
	reg("math.Float32bits", func(m *Machine, fr *frame, args []Value) Value {
		return m.c.Const(32, uint64(math.Float32bits(float32(args[0].(float64)))))
	})
	reg("math.Float32frombits", func(m *Machine, fr *frame, args []Value) Value {
		return float64(math.Float32frombits(uint32(m.concretize(args[0].(*Expr)))))
	})
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Sqrt": math.Sqrt, "Trunc": math.Trunc, "Log": math.Log, "Abs": math.Abs} {
		f := f
		reg("math."+n, func(m *Machine, fr *frame, args []Value) Value { return f(args[0].(float64)) })
	}

	// ---- byte algorithms ----
	reg("bytes.Equal", func(m *Machine, fr *frame, args []Value) Value { return m.eqBytes(args[0], args[1]) })
	reg("internal/bytealg.Equal", func(m *Machine, fr *frame, args []Value) Value { return m.eqBytes(args[0], args[1]) })
	reg("crypto/subtle.ConstantTimeCompare", func(m *Machine, fr *frame, args []Value) Value {
		return m.c.BoolToBV(m.eqBytes(args[0], args[1]), 64)
	})
	indexByte := func(m *Machine, fr *frame, args []Value) Value {
		c := args[1].(*Expr)
		if s, ok := args[0].(Str); ok && s.a == nil && c.isConst() {
			m.needStr(s)
			return m.c.Const(64, uint64(int64(strings.IndexByte(s.s, byte(c.k)))))
		}
		for i, b := range m.bytesOf(args[0]) {
			if m.branch(m.c.Eq(b, c)) {
				return m.c.Const(64, uint64(i))
			}
		}
		return m.c.Const(64, ^uint64(0))
	}
	reg("internal/bytealg.IndexByte", indexByte)
	reg("internal/bytealg.IndexByteString", indexByte)
	reg("bytes.IndexByte", indexByte)
	reg("strings.IndexByte", indexByte)
	lastIndexByte := func(m *Machine, fr *frame, args []Value) Value {
		c := args[1].(*Expr)
		bs := m.bytesOf(args[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if m.branch(m.c.Eq(bs[i], c)) {
				return m.c.Const(64, uint64(i))
			}
		}
		return m.c.Const(64, ^uint64(0))
	}
	reg("internal/bytealg.LastIndexByte", lastIndexByte)
	reg("internal/bytealg.LastIndexByteString", lastIndexByte)
	count := func(m *Machine, fr *frame, args []Value) Value {
		r := m.c.Const(64, 0)
		for _, b := range m.bytesOf(args[0]) {
			r = m.c.Bin(OpAdd, r, m.c.BoolToBV(m.c.Eq(b, args[1].(*Expr)), 64))
		}
		return r
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	compare := func(m *Machine, fr *frame, args []Value) Value {
		x, y := m.strFromExprs(m.bytesOf(args[0])), m.strFromExprs(m.bytesOf(args[1]))
		lt, eq := m.ltStr(x, y), m.eqStr(x, y)
		return m.c.Ite(eq, m.c.Const(64, 0), m.c.Ite(lt, m.c.Const(64, ^uint64(0)), m.c.Const(64, 1)))
	}
	reg("internal/bytealg.Compare", compare)
	reg("internal/bytealg.CompareString", compare)
	reg("bytes.Compare", compare)
	reg("strings.Compare", compare)
	index := func(m *Machine, fr *frame, args []Value) Value {
		h, n := m.bytesOf(args[0]), m.bytesOf(args[1])
		if hb, ok := m.concBytes(args[0]); ok {
			if nb, ok := m.concBytes(args[1]); ok {
				return m.c.Const(64, uint64(int64(strings.Index(string(hb), string(nb)))))
			}
		}
		for i := 0; i+len(n) <= len(h); i++ {
			c := m.c.tru
			for j := range n {
				c = m.c.And(c, m.c.Eq(h[i+j], n[j]))
				if c.isFalse() {
					break
				}
			}
			if m.branch(c) {
				return m.c.Const(64, uint64(i))
			}
		}
		return m.c.Const(64, ^uint64(0))
	}
	reg("bytes.Index", index)
	reg("strings.Index", index)
	reg("internal/bytealg.Index", index)
	reg("internal/bytealg.IndexString", index)
	reg("internal/bytealg.MakeNoZero", func(m *Machine, fr *frame, args []Value) Value {
		n := m.int(args[0])
		if n < 0 {
			m.rtPanic("makeslice: len out of range")
		}
		return m.makeSlice(types.Typ[types.Uint8], n, n)
	})
	reg("strings.Clone", func(m *Machine, fr *frame, args []Value) Value { return args[0] })
	reg("internal/stringslite.Clone", func(m *Machine, fr *frame, args []Value) Value { return args[0] })
	reg("strings.Repeat", func(m *Machine, fr *frame, args []Value) Value {
		n := m.int(args[1])
		s := args[0].(Str)
		if s.a != nil {
			m.unsupported("Repeat of symbolic string")
		}
		return Str{s: strings.Repeat(s.s, n)}
	})
	reg("strings.ToLower", caseMap(strings.ToLower, "unicode.ToLower", 'A', 'Z', 0x20))
	reg("strings.ToUpper", caseMap(strings.ToUpper, "unicode.ToUpper", 'a', 'z', ^uint64(0x20)+1))

	// ---- CRC is irrelevant to the properties; harness archives carry CRC 0 (unchecked) ----
	reg("hash/crc32.update", func(m *Machine, fr *frame, args []Value) Value { return m.c.Const(32, 0) })
	reg("hash/crc32.Update", func(m *Machine, fr *frame, args []Value) Value { return m.c.Const(32, 0) })
	reg("hash/crc32.ChecksumIEEE", func(m *Machine, fr *frame, args []Value) Value { return m.c.Const(32, 0) })
	reg("hash/crc32.ieeeInit", noop)

	// ---- strconv on concrete data natively is not needed: the source is interpreted ----
}

// caseMap maps ASCII letters without branching when every byte is provably or explorably ASCII.
func caseMap(native func(string) string, mapping string, lo, hi uint64, delta uint64) intrinsic {
	return func(m *Machine, fr *frame, args []Value) Value {
		s := args[0].(Str)
		m.needStr(s)
		if s.a == nil {
			return Str{s: native(s.s)}
		}
		bs := m.bytesOf(s)
		ascii := m.c.tru
		for _, b := range bs {
			ascii = m.c.And(ascii, m.c.Ult(b, m.c.Const(8, 0x80)))
		}
		if !m.branch(ascii) {
			return m.call(fr, m.L.fn("strings.Map"), []Value{&Closure{fn: m.L.fn(mapping)}, s}, nil)
		}
		out := make([]*Expr, len(bs))
		for i, b := range bs {
			in := m.c.And(m.c.Ule(m.c.Const(8, lo), b), m.c.Ule(b, m.c.Const(8, hi)))
			out[i] = m.c.Ite(in, m.c.Bin(OpAdd, b, m.c.Const(8, delta&0xff)), b)
		}
		return m.strFromExprs(out)
	}
}

func (m *Machine) eqBytes(x, y Value) *Expr {
	a, b := x.(Slice), y.(Slice)
	if a.len != b.len {
		return m.c.fls
	}
	r := m.c.tru
	for i := 0; i < a.len; i++ {
		p, q := a.a.e[a.off+i].(*Expr), b.a.e[b.off+i].(*Expr)
		if p == q {
			continue
		}
		r = m.c.And(r, m.c.Eq(p, q))
		if r.isFalse() {
			return r
		}
	}
	return r
}
