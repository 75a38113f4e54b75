package signingblock

import (
	"bytes"

	"github.com/avast/apkverifier/internal/vf"
)

// ---- P29

// zzMut builds nested structures of which one part is malformed. Parts are counted as they are built.
type zzMut struct {
	n, at, how int
	big        bool // more kinds of arbitrary lengths
}

const zzHows = 9

// part changes the content of a part; size encodes its length in front (nil: the part has none).
func (m *zzMut) part(b []byte, size func(n uint32, any bool) []byte) []byte {
	i := m.n
	m.n++
	pre := func(b []byte) []byte {
		if size == nil {
			return b
		}
		return vf.Cat(size(uint32(len(b)), false), b)
	}
	if i != m.at {
		return pre(b)
	}
	switch m.how {
	case 0:
		return nil
	case 1:
		return pre(nil)
	case 2: // any content of a few bytes
		if len(b) > 60 { // encodings, which P26 covers
			return pre(vf.Bytes("content", 3))
		}
		if size == nil && vf.Tier() == 0 { // what follows moves
			return make([]byte, zzFew("size", 3, 8))
		}
		return pre(vf.Bytes("content", zzFew("size", 3, 8, 1, 4)))
	case 3: // any length
		if size == nil {
			return vf.Bytes("field", len(b))
		}
		return vf.Cat(size(uint32(len(b)), true), b)
	case 4:
		n := zzFew("cut", 1, 4, 2, 3, 5, 8, 12)
		if n > len(b) {
			n = len(b)
		}
		return pre(b[:len(b)-n])
	case 5:
		if size == nil && vf.Tier() == 0 {
			return vf.Cat(b, make([]byte, 4))
		}
		return pre(vf.Cat(b, vf.Bytes("tail", zzFew("more", 4, 4, 1, 2, 3, 5, 7, 8, 9))))
	case 6:
		return vf.Cat(pre(b), pre(b))
	case 7:
		return pre(vf.Cat(vf.Bytes("head", zzFew("more", 4, 1, 2, 3)), b))
	default:
		if len(b) < 4 {
			return pre(vf.Bytes("first", len(b)))
		}
		return pre(vf.Cat(vf.Bytes("first", 4), b[4:]))
	}
}

// zzFew is one of the numbers, of the first two in the quick tier.
func zzFew(name string, ns ...int) int {
	if vf.Tier() == 0 {
		ns = ns[:2]
		if ns[0] == ns[1] {
			ns = ns[:1]
		}
	} else if ns[0] == ns[1] {
		ns = ns[1:]
	}
	return ns[vf.Choice(name, len(ns))]
}

func (m *zzMut) fix(b []byte) []byte { return m.part(b, nil) }

// zzAnyLen is a length that is wrong for n bytes; in the quick tier any that is too long and some others.
func zzAnyLen(n uint32) uint32 {
	l := vf.U32("length")
	if vf.Tier() == 0 {
		vf.Assume(vf.Or(l > n+5, vf.Or(l <= 2, vf.And(l >= n-2, l <= n+2))))
	}
	return l
}

func (m *zzMut) lp(parts ...[]byte) []byte {
	return m.part(vf.Cat(parts...), func(n uint32, any bool) []byte {
		if any {
			return vf.LE32(zzAnyLen(n))
		}
		return vf.LE32(n)
	})
}

func (m *zzMut) vlp(parts ...[]byte) []byte {
	return m.part(vf.Cat(parts...), func(n uint32, any bool) []byte {
		if any {
			if vf.Tier() > 0 && vf.Choice("varint", 2) == 1 {
				return vf.Bytes("varint", 1+vf.Choice("bytes", 2))
			}
			return zzVar(zzAnyLen(n), 5)
		}
		return zzVar(n, 0)
	})
}

// zzMutated runs build first to count the parts and then with one of them malformed.
func zzMutated(build func(m *zzMut) []byte) []byte {
	m := &zzMut{at: -1}
	build(m)
	m = &zzMut{at: vf.Choice("part", m.n), how: vf.Choice("how", zzHows-2+2*vf.Tier())}
	return build(m)
}

func (m *zzMut) sigs(k *vf.Key, data []byte) []byte {
	return m.lp(m.lp(m.fix(vf.LE32(vf.AlgDefault(k))), m.lp(vf.AlgSign(k, vf.AlgDefault(k), data))))
}

func (m *zzMut) lineage() []byte {
	b := m.fix(vf.LE32(1))
	var prev *vf.Key
	for _, k := range []*vf.Key{vf.KeyR1, vf.KeyE0} {
		var pa uint32
		var sig []byte
		if prev != nil {
			pa = vf.AlgDefault(prev)
		}
		data := vf.Cat(m.lp(k.Cert()), m.fix(vf.LE32(pa)))
		if prev != nil {
			sig = vf.AlgSign(prev, pa, data)
		}
		b = vf.Cat(b, m.lp(m.lp(data), m.fix(vf.LE32(23)), m.fix(vf.LE32(vf.AlgDefault(k))), m.lp(sig)))
		prev = k
	}
	return b
}

func (m *zzMut) scheme(k *vf.Key, digest []byte, v3 bool, attrs ...[]byte) []byte {
	ds := m.lp(m.lp(m.fix(vf.LE32(vf.AlgDefault(k))), m.lp(digest)))
	cs := m.lp(m.lp(k.Cert()))
	var sdk []byte
	if v3 {
		sdk = vf.Cat(m.fix(vf.LE32(24)), m.fix(vf.LE32(0x7fffffff)))
	}
	sd := vf.Cat(ds, cs, sdk, m.lp(attrs...))
	return m.lp(m.lp(m.lp(sd), sdk, m.sigs(k, sd), m.lp(k.SPKI())))
}

func (m *zzMut) attr(id uint32, v []byte) []byte { return m.lp(m.fix(vf.LE32(id)), v) }

var zzExtracts bool

// zzNoPanic verifies or extracts.
func zzNoPanic(f []byte, min, max int32) {
	if zzExtracts || vf.Tier() > 0 && vf.Choice("extract", 2) == 1 {
		_, err := ExtractCertsReader(bytes.NewReader(f), min, max)
		vf.ObsErr("extract", err)
		vf.Cover("extracted")
		return
	}
	res, _, err := VerifySigningBlockReaderWithZip(bytes.NewReader(f), min, max, nil)
	vf.ObsErr("err", err)
	vf.Assert(res != nil || err != nil, "neither a result nor an error")
	vf.Cover("done")
}

func zzPlain() (*vf.Apk, []byte) {
	a := &vf.Apk{Before: []byte{1}, CD: []byte{2}}
	return a, zzDigest(a, vf.SHA256)
}

// One malformed part of a v2 or v3 signer that is otherwise right, its signature included.
func VF_P29_signer() {
	a, d := zzPlain()
	v3 := vf.Choice("v3", 2) == 1
	id := uint32(vf.IDv2)
	if v3 {
		id = vf.IDv3
	}
	v := zzMutated(func(m *zzMut) []byte {
		strip := m.attr(0xbeeff00d, m.fix(vf.LE32(3)))
		if v3 {
			strip = m.attr(zzAttrMinSdk, m.fix(vf.LE32(35)))
		}
		return m.scheme(vf.KeyE0, d, v3, strip)
	})
	zzNoPanic(a.File(vf.SigningBlock(vf.Pair(id, v))), 24, 34)
}

// One part missing, empty or too long in a signer whose certificates are extracted.
func VF_P29_extract() {
	a, d := zzPlain()
	zzExtracts = true
	m := &zzMut{at: -1}
	v3 := vf.Choice("v3", 2) == 1
	build := func() []byte { return m.scheme(vf.KeyE0, d, v3, m.attr(zzAttrStrip, m.fix(vf.LE32(5)))) }
	build()
	m = &zzMut{at: vf.Choice("part", m.n), how: []int{0, 1, 3, 4}[vf.Choice("how", 4)]}
	v := build()
	id := uint32(vf.IDv2)
	if v3 {
		id = vf.IDv3
	}
	zzNoPanic(a.File(vf.SigningBlock(vf.Pair(id, v))), 24, 34)
	zzExtracts = false
}

// One malformed part of a signing history that is otherwise right, in a v3 or v3.1 signer or a stamp.
func VF_P29_lineage() {
	a, d := zzPlain()
	where := vf.Choice("where", 2+vf.Tier())
	l := zzMutated(func(m *zzMut) []byte { return m.attr(0x3ba06f8c, m.lineage()) })
	m := &zzMut{at: -1}
	v := m.scheme(vf.KeyE0, d, true, l)
	switch where {
	case 0:
		v = vf.Pair(vf.IDv3, v)
	case 1:
		data := vf.LP(l) // the stamp's own reader of histories
		if len(l) >= 8 {
			data = vf.LP(l[:4], vf.LE32(zzStampRotation), l[8:])
		}
		zzStampOnly(vf.Cat(vf.LP(data), zzSignOne(vf.KeyE0, data)), nil)
		return
	case 2:
		v = vf.Cat(vf.Pair(vf.IDv3, m.scheme(vf.KeyE0, d, true)), vf.Pair(vf.IDv31, v))
	}
	zzNoPanic(a.File(vf.SigningBlock(v)), 24, 34)
}

func zzStampOnly(attrs, stamp []byte) {
	k := vf.KeyE0
	s := zzNewStamped(2, k, zzCertHash(k))
	if stamp == nil {
		stamp = (&zzStamp{key: k, schemes: zzStampScheme(2, zzSignOne(k, s.msg())), attrs: attrs}).encode()
	}
	zzNoPanic(s.file(stamp), 28, 34)
}

// One malformed part of a stamp that is otherwise right.
func VF_P29_stamp() {
	k := vf.KeyE0
	s := zzNewStamped(2, k, zzCertHash(k))
	msg := s.msg()
	zzStampOnly(nil, vf.Pair(vf.IDStamp, zzMutated(func(m *zzMut) []byte {
		data := m.lp(m.attr(zzStampTime, m.fix(vf.LE64(1700000000))))
		schemes := m.lp(m.lp(m.fix(vf.LE32(2)), m.sigs(k, msg)))
		return m.lp(m.lp(k.Cert()), schemes, m.lp(data), m.sigs(k, data))
	})))
}

// One malformed part of frosting that is otherwise right.
func VF_P29_frosting() {
	a := &vf.Apk{Before: []byte{1}, CD: []byte{2}}
	v2v := []byte{1, 2, 3}
	d := zzFrostDigest(a, v2v)
	n := 2
	if vf.Tier() > 0 {
		n = 1 + vf.Choice("entries", 3)
	}
	b := zzMutated(func(m *zzMut) []byte {
		proto := m.vlp([]byte{1})
		var es []byte
		for i := 0; i < n; i++ {
			off := byte(0)
			if i < n-1 {
				off = 1
			}
			es = vf.Cat(es, m.vlp(m.fix([]byte{off}), m.fix([]byte{0}), m.fix(d)))
		}
		signed := vf.Cat(proto, m.vlp(es))
		var ss []byte
		for i := 0; i < n; i++ {
			ss = vf.Cat(ss, m.vlp(vf.Sign(vf.KeyE0, "", vf.SHA256, signed)))
		}
		return vf.Cat(m.vlp(signed), m.vlp(ss))
	})
	zzNoPanic(a.File(vf.SigningBlock(vf.Pair(vf.IDFrost, b), vf.Pair(vf.IDv2, v2v))), 24, 28)
}

// Any short value of any pair.
func VF_P29_value() {
	ids := []uint32{vf.IDv2, vf.IDv3, vf.IDv31, vf.IDStamp, vf.IDFrost, 0x2b09189e, vf.IDPad}
	id := ids[vf.Choice("id", len(ids))]
	a, d := zzPlain()
	ps := vf.Pair(id, vf.Bytes("value", vf.Choice("size", 10+4*vf.Tier())))
	if id != vf.IDv2 {
		m := &zzMut{at: -1}
		ps = vf.Cat(ps, vf.Pair(vf.IDv2, m.scheme(vf.KeyE0, d, false)))
	}
	zzNoPanic(a.File(vf.SigningBlock(ps)), 24, 34)
}

// Any file of a few bytes, with an end record or without.
func VF_P29_file() {
	if vf.Choice("record", 2) == 0 {
		f := vf.Bytes("file", vf.Choice("size", 24))
		zzOneRecord(f)
		zzNoPanic(f, 24, 34)
		return
	}
	n := zzFew("before", 19, 32, 0, 1, 20, 24, 46)
	e := vf.EOCD(0, vf.U32("size"), vf.U32("offset"), nil)
	copy(e[20:], vf.Bytes("comment", 2))
	b := make([]byte, n)
	if n >= 24 {
		copy(b[n-24:], vf.Bytes("footer", 8))
		copy(b[n-16:], vf.SigBlockMagic)
	}
	f := vf.Cat(b, e)
	zzOneRecord(f, n)
	zzNoPanic(f, 24, 34)
}

// Any signing block framing between two sections.
func VF_P29_framing() {
	block := vf.SigningBlock(vf.Pair(vf.IDv2, vf.Bytes("value", vf.Choice("size", 3))))
	at := []int{0, 8, len(block) - 24}[vf.Choice("field", 3)]
	copy(block[at:], vf.Bytes("field", 8))
	if vf.Choice("cut", 2) == 1 {
		block = block[vf.Choice("from", len(block)):]
	}
	a, _ := zzPlain()
	zzNoPanic(a.File(block), 24, 34)
}

// A malformed certificate or key of any kind in a signer, a history or a stamp.
func VF_P29_cert() {
	keys := []*vf.Key{vf.KeyE0, vf.KeyR0, vf.KeyD1}
	k := keys[vf.Choice("key", len(keys))]
	a, d := zzPlain()
	c, pub := k.Cert(), k.SPKI()
	if vf.Choice("key only", 2) == 1 {
		pub = vf.Reshape(pub)
		if vf.Choice("both", 2) == 1 { // the certificate has the same key
			c = vf.WithKey(c, k.SPKI(), pub)
		}
	} else {
		c = vf.Reshape(c)
	}
	where := vf.Choice("where", 1+2*vf.Tier())
	s := &vf.Signer{Key: k, Digests: [][]byte{d}, Certs: [][]byte{c}}
	switch where {
	case 0:
	case 1:
		s.Certs = nil
		n := &zzNode{key: k, algo: vf.AlgDefault(k), flags: 23, data: vf.Cat(vf.LP(c), vf.LE32(0))}
		s.V3, s.Min, s.Max = true, 24, 0x7fffffff
		s.Attrs = [][]byte{vf.Attr(0x3ba06f8c, zzLineage([]*zzNode{n}))}
		zzNoPanic(a.File(vf.SigningBlock(zzPairV3(s.Encode()))), 24, 34)
		return
	case 2:
		st := zzNewStamped(2, k, vf.Digest(vf.SHA256, c))
		zzStampOnly(nil, vf.Pair(vf.IDStamp, vf.LP(vf.LP(c), vf.LP(zzStampScheme(2, zzSignOne(k, st.msg()))))))
		return
	}
	sd := s.SignedData()
	al := vf.AlgDefault(k)
	enc := s.EncodeWith(sd, vf.LP(vf.LE32(al), vf.LP(vf.AlgSign(k, al, sd))), pub)
	zzNoPanic(a.File(vf.SigningBlock(zzPairV2(enc))), 24, 34)
}

// Every key with every algorithm, known or not, and any signature of a few bytes or with other numbers.
func VF_P29_algorithms() {
	keys := []*vf.Key{vf.KeyE0, vf.KeyR0, vf.KeyD1}
	k := keys[vf.Choice("key", len(keys))]
	algs := []uint32{vf.AlgPss256, vf.AlgPss512, vf.AlgRsa256, vf.AlgRsa512, vf.AlgEc256, vf.AlgEc512, vf.AlgDsa256, vf.AlgVRsa256, vf.AlgVEc256, vf.AlgVDsa256, 0, 0x999}
	al := algs[vf.Choice("algorithm", len(algs))]
	al2 := al
	if vf.Tier() > 0 {
		al2 = algs[vf.Choice("second", len(algs))]
	}
	a, d := zzPlain()
	s := &vf.Signer{Key: k, Algs: []uint32{al, al2}, Digests: [][]byte{d, d}}
	sd := s.SignedData()
	var sig []byte
	switch vf.Choice("signature", 5) {
	case 0:
		sig = vf.AlgSign(k, vf.AlgDefault(k), sd)
	case 1:
		sig = vf.Bytes("signature", vf.Choice("size", 4))
	case 2:
		nums := [][]byte{{2, 1, 0}, {2, 1, 1}, {2, 1, 0xff}, {5, 0}, {4, 1, 1}}
		var c []byte
		for i, n := 0, vf.Choice("numbers", 4); i < n; i++ {
			j := 0
			if i == 0 || vf.Tier() > 0 {
				j = vf.Choice("number", len(nums))
			}
			c = vf.Cat(c, nums[j])
		}
		sig = vf.DER(0x30, c)
	case 3:
		sig = vf.DER(0x30, vf.DER(2, vf.Bytes("r", 2)), vf.DER(2, vf.Bytes("s", 1)))
	case 4:
		sig = make([]byte, 300)
	}
	enc := s.EncodeWith(sd, vf.Cat(vf.LP(vf.LE32(al), vf.LP(sig)), vf.LP(vf.LE32(al2), vf.LP(sig))), k.SPKI())
	id := []uint32{vf.IDv2}[0]
	zzNoPanic(a.File(vf.SigningBlock(vf.Pair(id, vf.SchemeBlock(enc)))), 24, 34)
}
