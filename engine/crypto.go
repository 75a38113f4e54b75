package main

import (
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/md5"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"fmt"
	"math/big"
)

// Ideal cryptography. Hash applications on symbolic data give fresh digests constrained to be
// injective and functional; signatures verify exactly when they were produced by vf.Sign for the
// same key, scheme and digest. Fully concrete applications are computed for real.

type hashApp struct {
	kind int
	in   []*Expr
	out  []*Expr
	key  string // concrete input, if conc
	conc bool
}

func realDigest(kind int, b []byte) []byte {
	switch crypto.Hash(kind) {
	case crypto.MD5:
		s := md5.Sum(b)
		return s[:]
	case crypto.SHA1:
		s := sha1.Sum(b)
		return s[:]
	case crypto.SHA224:
		s := sha256.Sum224(b)
		return s[:]
	case crypto.SHA256:
		s := sha256.Sum256(b)
		return s[:]
	case crypto.SHA384:
		s := sha512.Sum384(b)
		return s[:]
	case crypto.SHA512:
		s := sha512.Sum512(b)
		return s[:]
	}
	panic(&engineError{fmt.Sprintf("digest kind %d", kind)})
}

func (m *Machine) eqExprs(a, b []*Expr) *Expr {
	if len(a) != len(b) {
		return m.c.fls
	}
	r := m.c.tru
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		r = m.c.And(r, m.c.Eq(a[i], b[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (m *Machine) digest(kind int, in []*Expr) []*Expr {
	conc := true
	for _, e := range in {
		if e.op != OpConst {
			conc = false
			break
		}
	}
	if conc {
		b := make([]byte, len(in))
		for i, e := range in {
			b[i] = byte(e.k)
		}
		d := realDigest(kind, b)
		out := make([]*Expr, len(d))
		for i, x := range d {
			out[i] = m.c.bytes[x]
		}
		if m.inInit > 0 {
			return out
		}
		// register, so that symbolic applications are related to it
		for _, h := range m.hashApps {
			if h.kind == kind && h.conc && sameExprs(h.in, in) {
				return h.out
			}
		}
		app := hashApp{kind: kind, in: append([]*Expr(nil), in...), out: out, conc: true}
		m.relate(app)
		m.hashApps = append(m.hashApps, app)
		return out
	}
	for _, h := range m.hashApps {
		if h.kind == kind && !h.conc && sameExprs(h.in, in) {
			return h.out
		}
	}
	n := len(realDigest(kind, nil))
	m.nsym++
	out := make([]*Expr, n)
	for i := range out {
		out[i] = m.c.Var(8, fmt.Sprintf("!h%d[%d]", m.nsym, i))
	}
	app := hashApp{kind: kind, in: append([]*Expr(nil), in...), out: out}
	m.relate(app)
	m.hashApps = append(m.hashApps, app)
	return out
}

func sameExprs(a, b []*Expr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *Machine) relate(app hashApp) {
	for _, h := range m.hashApps {
		if h.kind != app.kind || (h.conc && app.conc) {
			continue
		}
		ein := m.eqExprs(h.in, app.in)
		eout := m.eqExprs(h.out, app.out)
		m.assume(m.c.Eq(ein, eout))
	}
}

type sigEnt struct {
	key    string // canonical key identity
	scheme string
	hash   int
	digest []*Expr
	sig    []byte
	r, s   *big.Int
	pub    any
}

func (m *Machine) bigOf(v Value) ([]*Expr, bool) {
	// *big.Int -> little endian words
	p := v.(Ptr)
	st := p.a.e[p.i].(*Agg)
	neg := st.e[0].(*Expr)
	if !neg.isFalse() {
		return nil, false
	}
	return m.sliceExprs(st.e[1].(Slice)), true
}

func (m *Machine) sliceExprs(s Slice) []*Expr {
	r := make([]*Expr, s.len)
	for i := range r {
		r[i] = s.a.e[s.off+i].(*Expr)
	}
	return r
}

func (m *Machine) concBig(v Value) (*big.Int, bool) {
	p := v.(Ptr)
	if p.a == nil {
		return nil, false
	}
	st := p.a.e[p.i].(*Agg)
	r := new(big.Int)
	ws := m.sliceExprs(st.e[1].(Slice))
	for i := len(ws) - 1; i >= 0; i-- {
		if !ws[i].isConst() {
			return nil, false
		}
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(ws[i].k))
	}
	ng := st.e[0].(*Expr)
	if !ng.isConst() {
		return nil, false
	}
	if ng.isTrue() {
		r.Neg(r)
	}
	return r, true
}

func (m *Machine) structOf(v Value) *Agg {
	p := v.(Ptr)
	if p.a == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p.a.e[p.i].(*Agg)
}

func concExprs(es []*Expr) ([]byte, bool) {
	b := make([]byte, len(es))
	for i, e := range es {
		if e.op != OpConst {
			return nil, false
		}
		b[i] = byte(e.k)
	}
	return b, true
}

// rsaPub extracts a concrete RSA key.
// A key with symbolic parts is either one of the keys that signed something here (decided by
// forking) or a key nothing was signed with.
func (m *Machine) rsaPub(v Value) *rsa.PublicKey {
	st := m.structOf(v)
	n, ok := m.concBig(st.e[0])
	e := st.e[1].(*Expr)
	if ok && e.isConst() {
		return &rsa.PublicKey{N: n, E: int(sext64(e.k, 64))}
	}
	var found *rsa.PublicKey
	m.knownKeys(func(pub any) bool {
		k, ok := pub.(*rsa.PublicKey)
		if ok && m.branch(m.c.And(m.bigEq(st.e[0], k.N), m.c.Eq(e, m.c.Const(64, uint64(k.E))))) {
			found = k
		}
		return found != nil
	})
	return found
}

func (m *Machine) knownKeys(f func(pub any) bool) {
	seen := map[string]bool{}
	for _, e := range append([]sigEnt(nil), m.sigReg...) {
		if !seen[e.key] && f(e.pub) {
			return
		}
		seen[e.key] = true
	}
}

func (m *Machine) bigEq(v Value, x *big.Int) *Expr {
	w, ok := m.bigOf(v)
	if !ok || len(w)*64 < x.BitLen() {
		return m.c.fls
	}
	return m.eqWords(w, x)
}

func rsaKeyID(k *rsa.PublicKey) string { return fmt.Sprintf("rsa:%x:%d", k.N, k.E) }

func (m *Machine) curveName(v Value) string {
	c := v.(Iface)
	if c.t == nil {
		return ""
	}
	r, ok := m.callMethod(nil, c, "Params")
	if !ok {
		return ""
	}
	p := r.(Ptr)
	if p.a == nil {
		return ""
	}
	st := p.a.e[p.i].(*Agg)
	for _, f := range st.e {
		if s, ok := f.(Str); ok {
			return s.s
		}
	}
	return ""
}

func hostCurve(name string) elliptic.Curve {
	switch name {
	case "P-224":
		return elliptic.P224()
	case "P-256":
		return elliptic.P256()
	case "P-384":
		return elliptic.P384()
	case "P-521":
		return elliptic.P521()
	}
	return nil
}

func (m *Machine) ecPub(v Value) *ecdsa.PublicKey {
	st := m.structOf(v)
	c := hostCurve(m.curveName(st.e[0]))
	x, ok1 := m.concBig(st.e[1])
	y, ok2 := m.concBig(st.e[2])
	if c != nil && ok1 && ok2 {
		return &ecdsa.PublicKey{Curve: c, X: x, Y: y}
	}
	var found *ecdsa.PublicKey
	m.knownKeys(func(pub any) bool {
		k, ok := pub.(*ecdsa.PublicKey)
		if ok && c == k.Curve && m.branch(m.c.And(m.bigEq(st.e[1], k.X), m.bigEq(st.e[2], k.Y))) {
			found = k
		}
		return found != nil
	})
	return found
}

// ecPoint is the encoded point; one with symbolic bytes is a point some signer here has, or not on
// the curve.
func (m *Machine) ecPoint(c elliptic.Curve, v Value) []byte {
	if c == nil {
		m.unsupported("unknown elliptic curve")
	}
	if b, ok := m.concBytes(v); ok {
		return b
	}
	bs := m.bytesOf(v)
	found := make([]byte, len(bs))
	m.knownKeys(func(pub any) bool {
		k, ok := pub.(*ecdsa.PublicKey)
		if !ok || k.Curve != c {
			return false
		}
		want := elliptic.Marshal(c, k.X, k.Y)
		if len(want) == len(bs) && m.branch(m.eqExprs(bs, m.constBytes(want))) {
			found = want
			return true
		}
		return false
	})
	return found
}

func ecKeyID(k *ecdsa.PublicKey) string { return fmt.Sprintf("ec:%x:%x", k.X, k.Y) }

func (m *Machine) dsaPub(v Value) *dsa.PublicKey {
	st := m.structOf(v)
	par := st.e[0].(*Agg)
	k := &dsa.PublicKey{}
	var ok [4]bool
	k.P, ok[0] = m.concBig(par.e[0])
	k.Q, ok[1] = m.concBig(par.e[1])
	k.G, ok[2] = m.concBig(par.e[2])
	k.Y, ok[3] = m.concBig(st.e[1])
	if ok == [4]bool{true, true, true, true} {
		return k
	}
	var found *dsa.PublicKey
	m.knownKeys(func(pub any) bool {
		k, ok := pub.(*dsa.PublicKey)
		if ok && m.branch(m.c.And(m.c.And(m.bigEq(par.e[0], k.P), m.bigEq(par.e[1], k.Q)), m.c.And(m.bigEq(par.e[2], k.G), m.bigEq(st.e[1], k.Y)))) {
			found = k
		}
		return found != nil
	})
	return found
}

func dsaKeyID(k *dsa.PublicKey) string { return fmt.Sprintf("dsa:%x:%x:%x:%x", k.P, k.Q, k.G, k.Y) }

// idealVerify builds the condition under which a signature verifies.
func (m *Machine) idealVerify(key, scheme string, hash int, digest, sig []*Expr, native func(d, s []byte) bool) *Expr {
	r := m.c.fls
	cs, sigConc := concExprs(sig)
	for i := range m.sigReg {
		s := &m.sigReg[i]
		if s.key != key || s.scheme != scheme || s.hash != hash {
			continue
		}
		var es *Expr
		if sigConc {
			es = m.c.Bool(string(cs) == string(s.sig))
		} else {
			es = m.eqExprs(sig, m.constBytes(s.sig))
		}
		r = m.c.Or(r, m.c.And(es, m.eqExprs(digest, s.digest)))
	}
	if r.isFalse() && sigConc && native != nil {
		if d, ok := concExprs(digest); ok {
			return m.c.Bool(native(d, cs))
		}
	}
	return r
}

func (m *Machine) constBytes(b []byte) []*Expr {
	r := make([]*Expr, len(b))
	for i, x := range b {
		r[i] = m.c.bytes[x]
	}
	return r
}

func (m *Machine) verdict(ok *Expr, msg string) Value {
	if m.branch(ok) {
		return Iface{}
	}
	return m.errStr(Str{s: msg})
}

func pseudoSig(seed string, n int) []byte {
	var out []byte
	for i := 0; len(out) < n; i++ {
		h := sha512.Sum512([]byte(fmt.Sprintf("%s/%d", seed, i)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

func derSig(r, s *big.Int) []byte {
	enc := func(x *big.Int) []byte {
		b := x.Bytes()
		if len(b) == 0 || b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return append([]byte{2, byte(len(b))}, b...)
	}
	body := append(enc(r), enc(s)...)
	return append([]byte{0x30, byte(len(body))}, body...)
}

func init() {
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	vf := vfPath + "."
	reg(vf+"Digest", func(m *Machine, fr *frame, args []Value) Value {
		return m.mkBytesE(m.digest(m.int(args[0]), m.bytesOf(args[1])))
	})
	reg("crypto/rsa.VerifyPKCS1v15", func(m *Machine, fr *frame, args []Value) Value {
		st := m.structOf(args[0])
		_ = st
		k := m.rsaPub(args[0])
		if k == nil {
			return m.verdict(m.c.fls, "crypto/rsa: verification error")
		}
		h := m.int(args[1])
		ok := m.idealVerify(rsaKeyID(k), "pkcs1", h, m.bytesOf(args[2]), m.bytesOf(args[3]), func(d, s []byte) bool {
			return rsa.VerifyPKCS1v15(k, crypto.Hash(h), d, s) == nil
		})
		return m.verdict(ok, "crypto/rsa: verification error")
	})
	reg("crypto/rsa.VerifyPSS", func(m *Machine, fr *frame, args []Value) Value {
		k := m.rsaPub(args[0])
		if k == nil {
			return m.verdict(m.c.fls, "crypto/rsa: verification error")
		}
		h := m.int(args[1])
		salt := 0
		if p := args[4].(Ptr); p.a != nil {
			salt = m.int(p.a.e[p.i].(*Agg).e[0])
		}
		ok := m.idealVerify(rsaKeyID(k), fmt.Sprintf("pss%d", salt), h, m.bytesOf(args[2]), m.bytesOf(args[3]), func(d, s []byte) bool {
			return rsa.VerifyPSS(k, crypto.Hash(h), d, s, &rsa.PSSOptions{SaltLength: salt}) == nil
		})
		return m.verdict(ok, "crypto/rsa: verification error")
	})
	// (r, s) signatures
	rsVerify := func(m *Machine, key, scheme string, digest []*Expr, rv, sv Value, native func(d []byte, r, s *big.Int) bool) *Expr {
		rw, ok1 := m.bigOf(rv)
		sw, ok2 := m.bigOf(sv)
		if !ok1 || !ok2 {
			return m.c.fls
		}
		res := m.c.fls
		for i := range m.sigReg {
			e := &m.sigReg[i]
			if e.key != key || e.scheme != scheme {
				continue
			}
			c := m.c.And(m.eqWords(rw, e.r), m.eqWords(sw, e.s))
			if c.isFalse() {
				continue
			}
			// a verifier uses the leftmost bytes of the digest it is given
			n := len(digest)
			if n != len(e.digest) {
				continue
			}
			res = m.c.Or(res, m.c.And(c, m.eqExprs(digest[:n], e.digest[:n])))
		}
		if res.isFalse() {
			if d, ok := concExprs(digest); ok {
				r, ok1 := m.concBig(rv)
				s, ok2 := m.concBig(sv)
				if ok1 && ok2 {
					return m.c.Bool(native(d, r, s))
				}
			}
		}
		return res
	}
	reg("crypto/ecdsa.Verify", func(m *Machine, fr *frame, args []Value) Value {
		k := m.ecPub(args[0])
		if k == nil {
			return m.c.fls
		}
		m.nilBig(args[2])
		m.nilBig(args[3])
		return rsVerify(m, ecKeyID(k), "ecdsa", m.bytesOf(args[1]), args[2], args[3], func(d []byte, r, s *big.Int) bool { return ecdsa.Verify(k, d, r, s) })
	})
	reg("crypto/dsa.Verify", func(m *Machine, fr *frame, args []Value) Value {
		k := m.dsaPub(args[0])
		if k == nil {
			return m.c.fls
		}
		m.nilBig(args[2])
		m.nilBig(args[3])
		if k.P.Sign() == 0 {
			return m.c.fls
		}
		return rsVerify(m, dsaKeyID(k), "dsa", m.bytesOf(args[1]), args[2], args[3], func(d []byte, r, s *big.Int) bool { return dsa.Verify(k, d, r, s) })
	})
	reg("crypto/ecdsa.VerifyASN1", func(m *Machine, fr *frame, args []Value) Value {
		k := m.ecPub(args[0])
		if k == nil {
			return m.c.fls
		}
		return m.idealVerify(ecKeyID(k), "ecdsa", 0, m.bytesOf(args[1]), m.bytesOf(args[2]), func(d, s []byte) bool { return ecdsa.VerifyASN1(k, d, s) })
	})
	// vf.signDigest(k *Key, spki []byte, scheme string, hash int, digest []byte) []byte
	reg(vf+"signDigest", func(m *Machine, fr *frame, args []Value) Value {
		spki, ok := m.concBytes(args[1])
		if !ok {
			panic(&engineError{"symbolic key in vf.signDigest"})
		}
		pub, err := x509.ParsePKIXPublicKey(spki)
		if err != nil {
			panic(&engineError{"signDigest: " + err.Error()})
		}
		scheme := args[2].(Str).s
		h := m.int(args[3])
		dg := m.bytesOf(args[4])
		ent := sigEnt{scheme: scheme, hash: h, digest: append([]*Expr(nil), dg...)}
		seed := fmt.Sprintf("%s/%d/%d", scheme, h, len(m.sigReg))
		rsSig := func(n int) {
			rb, sb := pseudoSig(seed+"r", n), pseudoSig(seed+"s", n)
			rb[0], sb[0] = 0x31, 0x32
			ent.hash = 0
			ent.r, ent.s = new(big.Int).SetBytes(rb), new(big.Int).SetBytes(sb)
			ent.sig = derSig(ent.r, ent.s)
		}
		switch k := pub.(type) {
		case *rsa.PublicKey:
			ent.key = rsaKeyID(k)
			ent.sig = pseudoSig(seed, (k.N.BitLen()+7)/8)
			ent.sig[0] = 1
			if scheme == "pss" {
				ent.scheme = fmt.Sprintf("pss%d", crypto.Hash(h).Size())
			}
		case *ecdsa.PublicKey:
			ent.key = ecKeyID(k)
			rsSig(32)
		case *dsa.PublicKey:
			ent.key = dsaKeyID(k)
			rsSig(k.Q.BitLen() / 8)
		default:
			panic(&engineError{"signDigest key type"})
		}
		ent.pub = pub
		m.sigReg = append(m.sigReg, ent)
		return m.mkBytes(ent.sig)
	})
	// elliptic curve point decoding
	unm := func(m *Machine, fr *frame, args []Value) Value {
		c := hostCurve(m.curveName(args[0]))
		b := m.ecPoint(c, args[1])
		x, y := elliptic.Unmarshal(c, b)
		if x == nil {
			return Tuple{Ptr{}, Ptr{}}
		}
		return Tuple{m.mkBig(x), m.mkBig(y)}
	}
	reg("crypto/elliptic.Unmarshal", unm)
	reg("crypto/ecdsa.ParseUncompressedPublicKey", func(m *Machine, fr *frame, args []Value) Value {
		c := hostCurve(m.curveName(args[0]))
		b := m.ecPoint(c, args[1])
		k, err := ecdsa.ParseUncompressedPublicKey(c, b)
		if err != nil {
			return Tuple{Ptr{}, m.errStr(Str{s: err.Error()})}
		}
		st := m.zero(m.L.typ("crypto/ecdsa", "PublicKey")).(*Agg)
		st.e[0] = args[0]
		st.e[1] = m.mkBig(k.X)
		st.e[2] = m.mkBig(k.Y)
		h := m.newAgg(1)
		h.e[0] = st
		return Tuple{Ptr{a: h}, Iface{}}
	})
}

func (m *Machine) nilBig(v Value) {
	if p := v.(Ptr); p.a == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
}

func (m *Machine) eqWords(ws []*Expr, x *big.Int) *Expr {
	r := m.c.tru
	y := new(big.Int).Set(x)
	mask64 := new(big.Int).SetUint64(^uint64(0))
	for _, w := range ws {
		k := new(big.Int).And(y, mask64).Uint64()
		y.Rsh(y, 64)
		r = m.c.And(r, m.c.Eq(w, m.c.Const(64, k)))
	}
	if y.Sign() != 0 {
		return m.c.fls
	}
	return r
}

func (m *Machine) mkBig(x *big.Int) Value {
	if x == nil {
		return Ptr{}
	}
	st := m.zero(m.L.typ("math/big", "Int")).(*Agg)
	st.e[0] = m.c.Bool(x.Sign() < 0)
	y := new(big.Int).Abs(x)
	mask64 := new(big.Int).SetUint64(^uint64(0))
	var ws []Value
	for y.Sign() != 0 {
		ws = append(ws, m.c.Const(64, new(big.Int).And(y, mask64).Uint64()))
		y.Rsh(y, 64)
	}
	a := m.newAgg(len(ws))
	copy(a.e, ws)
	st.e[1] = Slice{a, 0, len(ws), len(ws)}
	h := m.newAgg(1)
	h.e[0] = st
	return Ptr{a: h}
}
