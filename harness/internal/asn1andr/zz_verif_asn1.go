package asn1andr

import (
	"encoding/asn1"
	"math/big"
	"time"

	"github.com/avast/apkverifier/internal/vf"
)

// ---- P26

// zzElem is an element as X.690 defines it, with definite length.
type zzElem struct {
	class, tag        int
	cons              bool
	at, content, stop int
	unfit             bool // the header is right but the content does not fit
}

// zzRead reads the element at p of d[:lim]. Numbers may have leading zeros; tag numbers take at most five bytes.
func zzRead(d []byte, p, lim int) (e zzElem, ok bool) {
	e.at = p
	if p >= lim {
		return e, false
	}
	e.class, e.cons, e.tag = int(d[p]>>6), d[p]&0x20 != 0, int(d[p]&0x1f)
	p++
	if e.tag == 0x1f {
		v, n, good := zzVarint(d, p, lim)
		if !good {
			return e, false
		}
		e.tag, p = v, n
	}
	if p >= lim {
		return e, false
	}
	l := int(d[p])
	p++
	if l >= 0x80 {
		n := vf.Concrete(l - 0x80)
		if n == 0 {
			return e, false
		}
		l = 0
		for i := 0; i < n; i++ {
			if p >= lim || l > 0x7fffff {
				return e, false
			}
			l = l*256 + int(d[p])
			p++
		}
	}
	if l > lim-p {
		e.content, e.unfit = p, true
		return e, false
	}
	e.content, e.stop = p, p+vf.Concrete(l)
	return e, true
}

func zzVarint(d []byte, p, lim int) (v, next int, ok bool) {
	var n uint64
	for i := 0; i < 5 && p < lim; i++ {
		n = n*128 + uint64(d[p]&0x7f)
		p++
		if d[p-1] < 0x80 {
			return int(n), p, n < 1<<31
		}
	}
	return 0, 0, false
}

// zzInteger is the two's complement number of at most eight bytes.
func zzInteger(c []byte) (v int64, minimal bool) {
	if len(c) == 0 {
		return 0, false
	}
	if len(c) > 1 {
		minimal = !vf.Or(vf.And(c[0] == 0, c[1] < 0x80), vf.And(c[0] == 0xff, c[1] >= 0x80))
	} else {
		minimal = true
	}
	u := vf.Ite(c[0] >= 0x80, ^uint64(0), 0)
	for _, b := range c {
		u = u*256 + uint64(b)
	}
	return int64(u), minimal
}

func zzEnd(rest []byte, err error, d []byte, e zzElem) {
	if err == nil {
		vf.Assert(len(rest) == len(d)-e.stop, "a value of another length than encoded is consumed")
	}
}

// zzInput is a whole arbitrary string of bytes, or an element of the tag with arbitrary content.
func zzInput(tag byte, any, content int) []byte {
	if vf.Choice("shape", 2) == 0 {
		return vf.Bytes("input", vf.Choice("length", any+1))
	}
	n := vf.Choice("content length", content+1)
	return append([]byte{tag, byte(n)}, vf.Bytes("content", n)...)
}

func zzMore() int { return vf.Tier() }

func VF_P26_integer() {
	kind := vf.Choice("kind", 5)
	tag := byte(TagInteger)
	if kind == 3 {
		tag = TagEnum
	}
	d := zzInput(tag, 5+zzMore(), 9+zzMore())
	var rest []byte
	var err error
	var got int64
	width := 4
	switch kind {
	case 0:
		var v int32
		rest, err = Unmarshal(d, &v)
		got = int64(v)
	case 1:
		var v int64
		rest, err = Unmarshal(d, &v)
		got, width = v, 8
	case 2:
		var v int
		rest, err = Unmarshal(d, &v)
		got, width = int64(v), 8
	case 3:
		var v asn1.Enumerated
		rest, err = Unmarshal(d, &v)
		got, width = int64(v), 8
		if err == nil {
			vf.Assert(got == int64(int32(got)), "an enumerated value out of range")
		}
	case 4:
		var v interface{}
		vf.Assume(len(d) > 1)
		vf.Assume(d[0] == TagInteger)
		rest, err = Unmarshal(d, &v)
		if err == nil {
			got = v.(int64)
		}
		width = 8
	}
	e, ok := zzRead(d, 0, len(d))
	ok = vf.And(ok, vf.And(vf.And(e.class == 0, !e.cons), e.tag == int(tag)))
	if ok {
		c := d[e.content:e.stop]
		v, minimal := zzInteger(c)
		ok = vf.And(minimal, len(c) <= 8)
		if width == 4 || kind == 3 {
			ok = vf.And(ok, v == int64(int32(v)))
		}
		if ok && err == nil {
			vf.Assert(got == v, "an integer is decoded to another value")
			vf.Cover("integer")
		}
	}
	vf.ObsErr("err", err)
	vf.Assert(ok == (err == nil), "an integer is accepted or rejected against its encoding")
	zzEnd(rest, err, d, e)
}

func VF_P26_big() {
	d := zzInput(TagInteger, 4, 9+3*zzMore())
	var v *big.Int
	rest, err := Unmarshal(d, &v)
	e, ok := zzRead(d, 0, len(d))
	ok = vf.And(ok, vf.And(vf.And(e.class == 0, !e.cons), e.tag == TagInteger))
	if ok {
		c := d[e.content:e.stop]
		_, minimal := zzInteger(c)
		ok = minimal
		if ok && err == nil {
			// v + 2^k as bytes, where k is large enough for it to be positive
			bits := uint(len(c)*8 + 8)
			sum := new(big.Int).Lsh(big.NewInt(1), bits)
			sum.Add(sum, v)
			got := sum.Bytes()
			neg := c[0] >= 0x80
			want := append([]byte{1, 0}, c...)
			if neg {
				want = append([]byte{0xff}, c...)
			}
			vf.Assert(string(got) == string(want), "a large integer is decoded to another value")
			vf.Cover("big")
			again, merr := Marshal(v)
			vf.Assert(merr == nil && string(again) == string(append([]byte{TagInteger, byte(len(c))}, c...)), "a large integer is encoded to another value")
		}
	}
	vf.ObsErr("err", err)
	vf.Assert(ok == (err == nil), "a large integer is accepted or rejected against its encoding")
	zzEnd(rest, err, d, e)
}

func VF_P26_oid() {
	d := zzInput(TagOID, 3+zzMore(), 5+zzMore())
	var v asn1.ObjectIdentifier
	rest, err := Unmarshal(d, &v)
	e, ok := zzRead(d, 0, len(d))
	ok = vf.And(ok, vf.And(vf.And(e.class == 0, !e.cons), e.tag == TagOID))
	if ok {
		c := d[e.content:e.stop]
		ok = len(c) > 0
		var arcs []int
		for p := 0; ok && p < len(c); {
			var x int
			x, p, ok = zzVarint(c, p, len(c))
			if len(arcs) == 0 {
				if x < 40 {
					arcs = append(arcs, 0, x)
				} else if x < 80 {
					arcs = append(arcs, 1, x-40)
				} else {
					arcs = append(arcs, 2, x-80)
				}
			} else {
				arcs = append(arcs, x)
			}
		}
		if ok && err == nil {
			vf.Assert(len(v) == len(arcs), "an object identifier is decoded to another length")
			if len(v) == len(arcs) {
				same := true
				for i := range v {
					same = vf.And(same, v[i] == arcs[i])
				}
				vf.Assert(same, "an object identifier is decoded to another one")
			}
			again, merr := Marshal(v)
			var w asn1.ObjectIdentifier
			if merr == nil {
				_, merr = Unmarshal(again, &w)
			}
			vf.Assert(merr == nil && len(again) <= 2+len(c) && w.Equal(v), "an object identifier cannot be encoded again")
			vf.Cover("oid")
		}
	}
	vf.ObsErr("err", err)
	vf.Assert(ok == (err == nil), "an object identifier is accepted or rejected against its encoding")
	zzEnd(rest, err, d, e)
}

func VF_P26_bits() {
	if vf.Choice("what", 2) == 0 {
		d := zzInput(TagBoolean, 5, 2)
		var v bool
		rest, err := Unmarshal(d, &v)
		e, ok := zzRead(d, 0, len(d))
		ok = vf.And(ok, vf.And(vf.And(e.class == 0, !e.cons), e.tag == TagBoolean))
		if ok {
			c := d[e.content:e.stop]
			ok = len(c) == 1
			if ok {
				ok = vf.Or(c[0] == 0, c[0] == 0xff)
				if err == nil {
					vf.Assert(v == (c[0] != 0), "a boolean is decoded to another value")
					vf.Cover("bool")
				}
			}
		}
		vf.ObsErr("err", err)
		vf.Assert(ok == (err == nil), "a boolean is accepted or rejected against its encoding")
		zzEnd(rest, err, d, e)
		return
	}
	d := zzInput(TagBitString, 5, 5+zzMore())
	var v asn1.BitString
	rest, err := Unmarshal(d, &v)
	e, ok := zzRead(d, 0, len(d))
	ok = vf.And(ok, vf.And(vf.And(e.class == 0, !e.cons), e.tag == TagBitString))
	if ok {
		c := d[e.content:e.stop]
		ok = len(c) > 0
		if ok {
			pad := c[0]
			ok = pad <= 7
			for i := byte(0); i < 7; i++ {
				clear := c[len(c)-1]&(1<<i) == 0
				ok = vf.And(ok, vf.Or(pad <= i, vf.And(len(c) > 1, clear)))
			}
			if ok && err == nil {
				vf.Assert(v.BitLength == 8*(len(c)-1)-int(pad), "a bit string is decoded to another length")
				vf.Assert(string(v.Bytes) == string(c[1:]), "a bit string is decoded to other bits")
				again, merr := Marshal(v)
				vf.Assert(merr == nil && string(again) == string(append([]byte{TagBitString, byte(len(c))}, c...)), "a bit string is encoded to another one")
				vf.Cover("bits")
			}
		}
	}
	vf.ObsErr("err", err)
	vf.Assert(ok == (err == nil), "a bit string is accepted or rejected against its encoding")
	zzEnd(rest, err, d, e)
}

func zzStringTag(t int) bool {
	switch t {
	case TagPrintableString, TagIA5String, TagGeneralString, TagT61String, TagUTF8String, TagNumericString:
		return true
	}
	return false
}

// Strings, octet strings, raw values and elements of any kind.
func VF_P26_string() {
	kind := vf.Choice("kind", 4)
	d := vf.Bytes("input", vf.Choice("length", 4+2*zzMore()))
	e, ok := zzRead(d, 0, len(d))
	var rest []byte
	var err error
	switch kind {
	case 0:
		var v []byte
		rest, err = Unmarshal(d, &v)
		ok = vf.And(ok, vf.And(vf.And(e.class == 0, !e.cons), e.tag == TagOctetString))
		if ok && err == nil {
			vf.Assert(string(v) == string(d[e.content:e.stop]), "an octet string is decoded to another one")
			vf.Cover("octets")
		}
	case 1:
		var v asn1.RawValue
		rest, err = Unmarshal(d, &v)
		if ok && err == nil {
			vf.Assert(v.Class == e.class && v.Tag == e.tag && v.IsCompound == e.cons, "the tag of a raw value differs")
			vf.Assert(string(v.Bytes) == string(d[e.content:e.stop]), "the content of a raw value differs")
			vf.Assert(string(v.FullBytes) == string(d[:e.stop]), "the encoding of a raw value differs")
			vf.Cover("raw")
		}
	case 2:
		var v string
		rest, err = Unmarshal(d, &v)
		ok = vf.And(ok, vf.And(e.class == 0, !e.cons))
		if ok {
			t := vf.Concrete(e.tag)
			c := d[e.content:e.stop]
			if t == TagBMPString {
				vf.Cover("bmp")
				break
			}
			ok = zzStringTag(t)
			if ok {
				if t == TagIA5String || t == TagNumericString || t == TagUTF8String {
					for _, b := range c {
						if t == TagNumericString {
							ok = vf.And(ok, vf.Or(b == ' ', vf.And(b >= '0', b <= '9')))
						} else if t == TagIA5String {
							ok = vf.And(ok, b < 0x80)
						} else if b >= 0x80 { // multi-byte characters are left out
							vf.Assume(err == nil)
						}
					}
				}
				if ok && err == nil {
					vf.Assert(v == string(c), "a string is decoded to another one")
					vf.Cover("string")
				}
			}
		}
	case 3:
		var v interface{}
		rest, err = Unmarshal(d, &v)
		if !ok {
			break
		}
		simple := vf.And(e.class == 0, !e.cons)
		if !simple {
			vf.Assert(err == nil && v == nil, "an element of another class is decoded to a value")
			break
		}
		switch t := vf.Concrete(e.tag); t {
		case TagOctetString:
			b, is := v.([]byte)
			vf.Assert(err == nil && is && string(b) == string(d[e.content:e.stop]), "an octet string of unknown type is decoded to another value")
			vf.Cover("any")
		case TagInteger, TagBitString, TagOID, TagUTCTime, TagGeneralizedTime, TagBMPString, TagIA5String, TagNumericString, TagUTF8String, TagPrintableString, TagT61String:
			ok = err == nil
		default:
			vf.Assert(err == nil && v == nil, "an element of unknown type is decoded to a value")
		}
	}
	vf.ObsErr("err", err)
	if kind == 2 && e.tag == TagBMPString {
		return
	}
	vf.Assert(ok == (err == nil), "an element is accepted or rejected against its encoding")
	zzEnd(rest, err, d, e)
}

// ---- structures

type zzInner struct {
	A int
	B []byte `asn1:"optional,tag:0"`
	C int    `asn1:"optional,default:7"`
}

type zzOuter struct {
	Raw  asn1.RawContent
	V    int `asn1:"optional,explicit,default:1,tag:0"`
	ID   asn1.ObjectIdentifier
	In   zzInner
	L    []int         `asn1:"set"`
	Flag bool          `asn1:"application,optional,tag:3"`
	Any  asn1.RawValue `asn1:"optional"`
}

type zzShape struct{ v, b, c, flag, any bool }

type zzFields struct {
	v, a, c      int64
	b, id        []byte
	l            []int64
	flag         bool
	any          []byte
	hasB, hasAny bool
	n            int
}

func zzTLV(tag byte, c ...[]byte) []byte {
	var all []byte
	for _, x := range c {
		all = append(all, x...)
	}
	return append([]byte{tag, byte(len(all))}, all...)
}

// zzSample is an encoded structure with arbitrary values.
func zzSample(s zzShape) []byte {
	num := func(name string) []byte { return zzTLV(TagInteger, vf.Bytes(name, 1)) }
	var parts [][]byte
	if s.v {
		parts = append(parts, zzTLV(0xa0, num("v")))
	}
	parts = append(parts, zzTLV(TagOID, []byte{0x2a, 3}))
	inner := [][]byte{num("a")}
	if s.b {
		inner = append(inner, zzTLV(0x80, vf.Bytes("b", 2)))
	}
	if s.c {
		inner = append(inner, num("c"))
	}
	parts = append(parts, zzTLV(0x30, inner...), zzTLV(0x31, num("l0"), num("l1")))
	if s.flag {
		parts = append(parts, []byte{0x43, 1, 0xff})
	}
	if s.any {
		parts = append(parts, zzTLV(0xbe, num("any")))
	}
	return zzTLV(0x30, parts...)
}

type zzReader struct {
	d      []byte
	p, lim int
	bad    bool
}

// next takes the element if it has the tag; otherwise it stays.
func (r *zzReader) next(class, tag int, cons bool) (zzElem, bool) {
	if r.bad || r.p >= r.lim {
		return zzElem{}, false
	}
	e, ok := zzRead(r.d, r.p, r.lim)
	if !ok && !e.unfit {
		r.bad = true
		return e, false
	}
	if e.class != class || e.tag != tag || e.cons != cons {
		return e, false
	}
	if !ok {
		r.bad = true
		return e, false
	}
	r.p = e.stop
	return e, true
}

func (r *zzReader) sub(e zzElem) *zzReader { return &zzReader{d: r.d, p: e.content, lim: e.stop} }

func (r *zzReader) must(class, tag int, cons bool) zzElem {
	e, ok := r.next(class, tag, cons)
	if !ok {
		r.bad = true
	}
	return e
}

func (r *zzReader) number(e zzElem) int64 {
	if r.bad {
		return 0
	}
	c := r.d[e.content:e.stop]
	v, minimal := zzInteger(c)
	if !minimal || len(c) > 8 {
		r.bad = true
	}
	return v
}

// zzDecode reads the structure. The length of the explicit tag is not used, see VF_P26_wrapper.
func zzDecode(d []byte) (f zzFields, ok bool) {
	top := &zzReader{d: d, lim: len(d)}
	e := top.must(0, 16, true)
	if top.bad {
		return f, false
	}
	f.n = e.stop
	r := top.sub(e)
	f.v, f.c = 1, 7
	w, good := zzRead(d, r.p, r.lim)
	if !good && !w.unfit {
		return f, false
	}
	if w.class == 2 && w.tag == 0 && w.cons {
		r.p = w.content
		f.v = r.number(r.must(0, TagInteger, false))
	}
	id := r.must(0, TagOID, false)
	if r.bad {
		return f, false
	}
	f.id = d[id.content:id.stop]
	in := r.must(0, 16, true)
	if r.bad {
		return f, false
	}
	s := r.sub(in)
	f.a = s.number(s.must(0, TagInteger, false))
	if b, has := s.next(2, 0, false); has {
		f.hasB, f.b = true, d[b.content:b.stop]
	}
	if c, has := s.next(0, TagInteger, false); has {
		f.c = s.number(c)
	}
	if s.bad {
		return f, false
	}
	set := r.must(0, 17, true)
	if r.bad {
		return f, false
	}
	l := r.sub(set)
	for l.p < l.lim && !l.bad {
		f.l = append(f.l, l.number(l.must(0, TagInteger, false)))
	}
	if l.bad {
		return f, false
	}
	if b, has := r.next(1, 3, false); has {
		c := d[b.content:b.stop]
		if len(c) != 1 || !vf.Or(c[0] == 0, c[0] == 0xff) {
			return f, false
		}
		f.flag = c[0] != 0
	}
	if r.bad {
		return f, false
	}
	if r.p < r.lim {
		a, good := zzRead(d, r.p, r.lim)
		if !good {
			return f, false
		}
		f.hasAny, f.any = true, d[a.at:a.stop]
	}
	return f, true
}

func VF_P26_struct() {
	s := zzShape{true, true, true, true, true}
	if vf.Tier() > 0 {
		s = zzShape{vf.Choice("v?", 2) == 1, vf.Choice("b?", 2) == 1, vf.Choice("c?", 2) == 1, vf.Choice("flag?", 2) == 1, vf.Choice("any?", 2) == 1}
	} else {
		switch vf.Choice("absent", 6) {
		case 1:
			s.v = false
		case 2:
			s.b = false
		case 3:
			s.c = false
		case 4:
			s.flag = false
		case 5:
			s.any = false
		}
	}
	d := zzSample(s)
	if k := vf.Choice("change", 4); k == 1 {
		i := vf.Choice("at", len(d))
		if vf.Tier() > 0 {
			d[i] = byte(vf.Concrete(int(vf.U8("to"))))
		} else {
			to := []byte{d[i] + 1, d[i] - 1, d[i] ^ 0x20, d[i] ^ 0x80, d[i] ^ 0x40, 0, 0x1f, 0x7f, 0x80, 0x81, 0x82, 0xff, TagInteger, 0x30, 5, 9}
			d[i] = to[vf.Choice("to", len(to))]
		}
	} else if k == 2 {
		d = d[:vf.Choice("cut", len(d))]
	} else if k == 3 {
		d = append(d, vf.Bytes("after", 2)...)
	}
	var v zzOuter
	rest, err := Unmarshal(d, &v)
	f, ok := zzDecode(d)
	vf.ObsErr("err", err)
	if err == nil {
		vf.Assert(ok, "a malformed structure is accepted")
	}
	if !ok || err != nil {
		return
	}
	vf.Cover("decoded")
	vf.Assert(len(rest) == len(d)-f.n && string(v.Raw) == string(d[:f.n]), "a structure of another length than encoded is consumed")
	vf.Assert(int64(v.V) == f.v && int64(v.In.A) == f.a && int64(v.In.C) == f.c, "a number of a structure is decoded to another value")
	vf.Assert((v.In.B != nil) == f.hasB && string(v.In.B) == string(f.b), "an octet string of a structure is decoded to another value")
	vf.Assert(len(v.L) == len(f.l), "a list is decoded to another length")
	for i := range v.L {
		if i < len(f.l) {
			vf.Assert(int64(v.L[i]) == f.l[i], "an entry of a list is decoded to another value")
		}
	}
	vf.Assert(v.Flag == f.flag, "a boolean of a structure is decoded to another value")
	vf.Assert(string(v.Any.FullBytes) == string(f.any), "the last element of a structure is decoded to another one")
}

type zzWrapped struct {
	V int    `asn1:"explicit,tag:0"`
	B []byte `asn1:"optional"`
}

// The length of an explicit tag is that of the element in it.
func VF_P26_wrapper() {
	d := zzTLV(0x30, zzTLV(0xa0, zzTLV(TagInteger, vf.Bytes("v", 2))), zzTLV(TagOctetString, vf.Bytes("b", 2)))
	d[3] = byte(vf.Concrete(int(vf.U8("length"))))
	var v zzWrapped
	_, err := Unmarshal(d, &v)
	vf.ObsErr("err", err)
	if err == nil {
		vf.Assert(d[3] == 4, "the length of an explicit tag is not that of the element in it")
		vf.Cover("right")
	}
}

// ---- times

func zzTwo(d []byte) (n int, ok bool) {
	ok = vf.And(vf.And(d[0] >= '0', d[0] <= '9'), vf.And(d[1] >= '0', d[1] <= '9'))
	return int(d[0]-'0')*10 + int(d[1]-'0'), ok
}

// Times with up to two arbitrary bytes.
func VF_P26_time() {
	samples := []string{"9912312359Z", "000229235959Z", "491231235959+0130", "20240229120000Z", "19000228120000Z", "20991231235959-1200", "500101000000Z"}
	d := []byte(samples[vf.Choice("sample", len(samples))])
	general := len(d) == 15 || len(d) == 19
	field := 2 * vf.Choice("field", len(d)/2)
	if vf.Choice("two", 1+vf.Tier()) == 0 {
		i := vf.Choice("which", 2)
		d[field+i] = vf.U8("byte")
	} else {
		copy(d[field:], vf.Bytes("bytes", 2))
	}
	for i := range d { // symbolic digits make date arithmetic hard to solve
		if d[i] >= '0' && d[i] <= '9' {
			d[i] = byte(vf.Concrete(int(d[i])))
		}
	}
	tag := byte(TagUTCTime)
	if general {
		tag = TagGeneralizedTime
	}
	var v time.Time
	_, err := Unmarshal(append([]byte{tag, byte(len(d))}, d...), &v)
	vf.ObsErr("err", err)

	p, ok := 0, true
	two := func() int {
		if p+2 > len(d) {
			ok = false
			return 0
		}
		n, good := zzTwo(d[p:])
		ok = vf.And(ok, good)
		p += 2
		return n
	}
	year := two()
	if general {
		year = 100*year + two()
	} else {
		year = int(vf.Ite(year >= 50, uint64(1900+year), uint64(2000+year)))
	}
	month, day, hour, min, sec := two(), two(), two(), two(), 0
	if d[p] != 'Z' && d[p] != '+' && d[p] != '-' {
		sec = two()
	}
	if !ok || p >= len(d) {
		vf.Assert(err != nil, "a malformed time is accepted")
		return
	}
	zone := 0
	c := d[p]
	p++
	switch c {
	case 'Z':
	case '+':
		zone = two() * 60
		zone += two()
	case '-':
		zone = two() * 60
		zone = -(zone + two())
	default:
		ok = false
	}
	if !ok || p != len(d) {
		vf.Assert(err != nil, "a malformed time is accepted")
		return
	}
	year, month, day = vf.Concrete(year), vf.Concrete(month), vf.Concrete(day)
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if month < 1 || month > 12 {
		vf.Assert(err != nil, "a time with a wrong month is accepted")
		return
	}
	last := days[month-1]
	if month == 2 && year%4 == 0 && (year%100 != 0 || year%400 == 0) {
		last = 29
	}
	if day < 1 || day > last || hour > 23 || min > 59 || sec > 59 {
		vf.Assert(err != nil, "a time which does not exist is accepted")
		return
	}
	if err != nil {
		// offsets of a day and more, and of zero other than Z
		vf.Assert(zone == 0 && c != 'Z' || zone >= 24*60 || zone <= -24*60 || d[len(d)-2] >= '6' && c != 'Z', "a correct time is rejected")
		return
	}
	// the day number, counted from March of year 0
	y, m := year, month
	if m <= 2 {
		y, m = y-1, m+12
	}
	n := 365*y + y/4 - y/100 + y/400 + (153*(m-3)+2)/5 + day - 719469
	vf.Assert(v.Unix() == int64(n*86400+hour*3600+min*60+sec-zone*60), "a time is decoded to another one")
	vf.Cover("time")
	if vf.Choice("again", 2) == 1 {
		again, merr := Marshal(v)
		var w time.Time
		if merr == nil {
			_, merr = Unmarshal(again, &w)
		}
		vf.Assert(merr == nil && w.Equal(v), "a time cannot be encoded again")
	}
}

// ---- encoding

func zzSameBytes(a, b []byte) bool { return len(a) == len(b) && string(a) == string(b) }

// Values are encoded in DER and decoded to themselves.
func VF_P26_encode() {
	switch vf.Choice("kind", 6) {
	case 0:
		x := vf.I64("x")
		d, err := Marshal(x)
		var y int64
		rest, uerr := Unmarshal(d, &y)
		vf.Assert(err == nil && uerr == nil && len(rest) == 0 && y == x, "a number is not encoded")
		e, ok := zzRead(d, 0, len(d))
		vf.Assert(ok && d[0] == TagInteger && e.content == 2, "the header of a number is wrong")
		z, minimal := zzInteger(d[2:])
		vf.Assert(minimal && z == x, "a number is encoded as another one")
		vf.Cover("number")
	case 1:
		arcs := asn1.ObjectIdentifier{vf.Int("first", -1, 3), vf.Int("second", -1, 200)}
		for i, n := 0, vf.Choice("more", 2+vf.Tier()); i < n; i++ {
			arcs = append(arcs, int(vf.I32("arc")))
		}
		d, err := Marshal(arcs)
		good := vf.And(vf.And(arcs[0] >= 0, arcs[0] <= 2), vf.And(arcs[1] >= 0, vf.Or(arcs[0] == 2, arcs[1] < 40)))
		for _, a := range arcs[2:] {
			vf.Assume(a >= 0)
		}
		vf.Assume(arcs[1] >= 0)
		vf.Assume(arcs[0] >= 0)
		vf.Assert(good == (err == nil), "an object identifier is encoded or rejected wrongly")
		if err != nil {
			return
		}
		var back asn1.ObjectIdentifier
		_, err = Unmarshal(d, &back)
		vf.Assert(err == nil && len(back) == len(arcs), "an object identifier is not encoded")
		same := true
		for i := range back {
			same = vf.And(same, back[i] == arcs[i])
		}
		vf.Assert(same, "an object identifier is encoded as another one")
		vf.Cover("oid")
	case 2:
		// lengths
		ns := []int{0, 1, 126, 127, 128, 129, 255, 256, 257, 65535, 65536}
		n := ns[vf.Choice("size", len(ns))]
		b := make([]byte, n)
		if n > 0 {
			b[0], b[n-1] = vf.U8("one"), vf.U8("other")
		}
		d, err := Marshal(b)
		vf.Assert(err == nil, "an octet string is not encoded")
		e, ok := zzRead(d, 0, len(d))
		vf.Assert(ok && d[0] == TagOctetString && e.stop == len(d) && zzSameBytes(d[e.content:], b), "an octet string is encoded as another one")
		head := 2
		if n > 127 {
			head++
		}
		if n > 255 {
			head++
		}
		if n > 65535 {
			head++
		}
		vf.Assert(e.content == head, "the length is not minimal")
		var back []byte
		_, err = Unmarshal(d, &back)
		vf.Assert(err == nil && zzSameBytes(back, b), "an octet string is decoded to another one")
		vf.Cover("octets")
	case 3:
		n := vf.Choice("bits", 20)
		b := vf.Bytes("content", (n+7)/8)
		d, err := Marshal(asn1.BitString{Bytes: b, BitLength: n})
		vf.Assert(err == nil, "a bit string is not encoded")
		pad := 8*len(b) - n
		if pad > 0 && b[len(b)-1]&(1<<uint(pad)-1) != 0 {
			return
		}
		var back asn1.BitString
		_, err = Unmarshal(d, &back)
		vf.Assert(err == nil && back.BitLength == n && zzSameBytes(back.Bytes, b), "a bit string is decoded to another one")
		vf.Cover("bits")
	case 4:
		w := zzOuter{V: int(vf.I32("v")), ID: asn1.ObjectIdentifier{1, 2, 3}, Flag: vf.Choice("flag", 2) == 1}
		w.In.A, w.In.C = int(int16(vf.U16("a"))), int(int8(vf.U8("c")))
		if vf.Choice("b?", 2) == 1 {
			w.In.B = vf.Bytes("b", 1+vf.Choice("n", 2))
		}
		for i, n := 0, vf.Choice("entries", 3); i < n; i++ {
			w.L = append(w.L, int(vf.U8("l")))
		}
		if vf.Choice("any?", 2) == 1 {
			w.Any.FullBytes = zzTLV(TagInteger, vf.Bytes("any", 1))
		}
		d, err := Marshal(w)
		vf.Assert(err == nil, "a structure is not encoded")
		var back zzOuter
		rest, err := Unmarshal(d, &back)
		vf.Assert(err == nil && len(rest) == 0, "an encoded structure is not decoded")
		vf.Assert(vf.And(vf.And(back.V == w.V, back.In.A == w.In.A), back.In.C == w.In.C), "a number of a structure is encoded as another one")
		vf.Assert(back.ID.Equal(w.ID) && back.Flag == w.Flag, "a structure is encoded as another one")
		vf.Assert(zzSameBytes(back.In.B, w.In.B) && zzSameBytes(back.Any.FullBytes, w.Any.FullBytes), "bytes of a structure are encoded as others")
		vf.Assert(len(back.L) == len(w.L), "a list is encoded with another length")
		for i := range back.L {
			vf.Assert(back.L[i] == w.L[i], "a list is encoded as another one")
		}
		vf.Cover("struct")
	case 5:
		var x bool
		if vf.Choice("x", 2) == 1 {
			x = true
		}
		d, err := Marshal(x)
		var y bool
		_, uerr := Unmarshal(d, &y)
		vf.Assert(err == nil && uerr == nil && x == y, "a boolean is not encoded")
	}
}
