package signingblock

import (
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P23

// zzVar is a base-128 varint of at most five bytes, of the shortest form or padded to n bytes.
func zzVar(v uint32, n int) []byte {
	if n == 0 {
		for n = 1; n < 5 && v>>(7*uint(n)) != 0; n++ {
		}
	}
	var b []byte
	for i := 0; i < n; i++ {
		x := byte(v >> (7 * uint(i)))
		if i < n-1 {
			x |= 0x80
		} else {
			x &= 0x7f
		}
		b = append(b, x)
	}
	return b
}

func zzVLP(parts ...[]byte) []byte {
	b := vf.Cat(parts...)
	return vf.Cat(zzVar(uint32(len(b)), 0), b)
}

type zzFrostEntry struct {
	disabled, index []byte // encoded
	digest          []byte
	signature       []byte
}

type zzFrost struct {
	proto   []byte
	entries []*zzFrostEntry
}

func (e *zzFrostEntry) encode() []byte { return zzVLP(e.disabled, e.index, e.digest) }

// signed is the data the signature of entry n covers.
func (f *zzFrost) signed(n int) []byte {
	var size int
	for _, e := range f.entries {
		size += len(e.encode())
	}
	b := vf.Cat(zzVLP(f.proto), zzVar(uint32(size), 0))
	for _, e := range f.entries[:n+1] {
		b = vf.Cat(b, e.encode())
	}
	return b
}

func (f *zzFrost) encode() []byte {
	var es, ss []byte
	for _, e := range f.entries {
		es = vf.Cat(es, e.encode())
		ss = vf.Cat(ss, zzVLP(e.signature))
	}
	return vf.Cat(zzVLP(zzVLP(f.proto), zzVLP(es)), zzVLP(ss))
}

// zzFrostDigest is the digest frosting signs, written from the format's description.
func zzFrostDigest(a *vf.Apk, v2 []byte) []byte {
	b := a.Before
	if len(v2) != 0 {
		b = vf.Cat(b, vf.LE32(vf.IDv2), v2)
	}
	return vf.Digest(vf.SHA256, vf.Cat(b, a.CD, vf.EOCD(a.Entries, uint32(len(a.CD)), uint32(len(a.Before)), a.Comment)))
}

// Frosting of an APK signed with v2, v3 or both, with up to two of its parts wrong.
func VF_P23_parts() {
	if !vf.KeysReplaced {
		return
	}
	a := vf.Archive(vf.Member{Name: "f", Data: []byte{1}})
	a.Comment = []byte("c")
	d := zzDigest(a, vf.SHA256)
	v2v := vf.SchemeBlock((&vf.Signer{Key: vf.KeyR0, Digests: [][]byte{d}}).Encode())
	v3v := vf.SchemeBlock((&vf.Signer{Key: vf.KeyR0, Digests: [][]byte{d}, V3: true, Min: 24, Max: 0x7fffffff}).Encode())
	var ps [][]byte
	var covered []byte
	kind := vf.Choice("schemes", 3)
	if kind != 1 {
		covered = v2v
		ps = append(ps, vf.Pair(vf.IDv2, v2v))
	}
	if kind != 0 {
		ps = append(ps, vf.Pair(vf.IDv3, v3v))
	}
	min, max := int32(28), int32(30)
	if kind != 1 && vf.Bool("old platforms") { // v2 is not used there, but frosting covers it
		min, max = 19, 23
	}
	const faults = 9
	f1 := vf.Choice("fault", faults+1)
	f2 := f1
	if f1 != 0 && vf.Tier() > 0 {
		f2 = f1 + vf.Choice("second fault", faults+1-f1)
	}
	has := func(n int) bool { return f1 == n || f2 == n }
	good := f1 == 0
	fr := &zzFrost{proto: vf.Bytes("protobuf", 1+vf.Choice("protobuf length", 2))}
	digest := zzFrostDigest(a, covered)
	switch {
	case has(1):
		digest = zzBad("digest", digest)
	case has(2):
		digest = d
	case has(3):
		digest = zzFrostDigest(a, nil)
		if covered == nil {
			digest = zzFrostDigest(a, v2v)
		}
	case has(4):
		digest = [][]byte{digest[:31], vf.Cat(digest, []byte{0})}[vf.Choice("digest length", 2)]
	}
	skip := vf.Choice("disabled entries", 3)
	for i := 0; i < skip; i++ {
		dis := vf.U32("disabled")
		vf.Assume(dis != 0 && dis < 0x80)
		fr.entries = append(fr.entries, &zzFrostEntry{disabled: zzVar(dis, 1), index: []byte{byte(vf.U8("index") & 0x7f)}, digest: vf.Bytes("other digest", vf.Choice("other length", 2)), signature: vf.Bytes("other signature", 1)})
	}
	e := &zzFrostEntry{disabled: []byte{0}, index: []byte{0}, digest: digest}
	if has(5) { // no such key, with every encoding
		x := vf.U32("key index")
		if vf.Bool("padded") {
			e.index = zzVar(x, 5)
		} else {
			vf.Assume(x < 0x4000)
			e.index = zzVar(x, 2)
		}
		good = x == 0 && f1 == 5 && f2 == 5
	}
	if has(6) {
		e.disabled = []byte{1}
	}
	fr.entries = append(fr.entries, e)
	signer := vf.KeyE0
	if has(7) {
		signer = vf.KeyE1
	}
	msg := fr.signed(skip)
	if has(8) {
		o := &zzFrost{proto: vf.Cat([]byte{fr.proto[0] ^ 1}, fr.proto[1:]), entries: fr.entries}
		msg = o.signed(skip)
	}
	e.signature = vf.Sign(signer, "", vf.SHA256, msg)
	if has(9) {
		e.signature = zzBad("signature", e.signature)
	}
	tail := vf.Bool("entry after") // not covered by the signature, which must not matter to it
	if tail {
		fr.entries = append(fr.entries, &zzFrostEntry{disabled: []byte{0}, index: []byte{0}, digest: vf.Bytes("tail digest", 1), signature: vf.Bytes("tail signature", 1)})
		e.signature = vf.Sign(signer, "", vf.SHA256, fr.signed(skip))
		good = good && !has(8)
		if has(8) || has(9) {
			vf.Assume(false)
		}
	}
	fp := vf.Pair(vf.IDFrost, fr.encode())
	if vf.Bool("frosting first") {
		ps = append([][]byte{fp}, ps...)
	} else {
		ps = append(ps, fp)
	}
	res, err := zzVerify(a.File(vf.SigningBlock(ps...)), min, max)
	vf.Assert(err == nil, "frosting changes the APK's verdict")
	vf.Assert(res.Frosting != nil, "frosting is not reported")
	if res.Frosting == nil {
		return
	}
	if res.Frosting.Error == nil {
		vf.Cover("valid")
		vf.Assert(good, "wrong frosting is reported as valid")
		vf.Assert(vf.Equal(res.Frosting.ProtobufInfo, fr.proto), "the reported information is not the signed one")
		vf.Assert(res.Frosting.KeySha256 == zzHex(vf.Digest(vf.SHA256, vf.KeyE0.SPKI())), "the reported key is not the one used")
	} else {
		vf.Cover("invalid")
		vf.Assert(!good, "right frosting is reported as invalid")
	}
}

func zzHex(b []byte) string {
	const d = "0123456789abcdef"
	var s []byte
	for _, x := range b {
		s = append(s, d[x>>4], d[x&15])
	}
	return string(s)
}

// Arbitrary bytes as frosting: never valid, never a crash, and no effect on the verdict.
func VF_P23_arbitrary() {
	a := &vf.Apk{Before: []byte{1, 2, 3, 4}, CD: []byte{5}}
	d := zzDigest(a, vf.SHA256)
	v2 := vf.Pair(vf.IDv2, vf.SchemeBlock((&vf.Signer{Key: vf.KeyE1, Digests: [][]byte{d}}).Encode()))
	n := vf.Choice("length", 8+3*vf.Tier())
	b := vf.Bytes("frosting", n)
	res, err := zzVerify(a.File(vf.SigningBlock(v2, vf.Pair(vf.IDFrost, b))), 24, 28)
	vf.Assert(err == nil, "frosting changes the APK's verdict")
	vf.Assert(res.Frosting != nil && res.Frosting.Error != nil, "arbitrary bytes are reported as valid frosting")
	vf.Cover("reported")
}

// One byte of valid frosting is replaced: if it is still valid, what is reported is still what was signed.
func VF_P23_byte() {
	if !vf.KeysReplaced {
		return
	}
	a := &vf.Apk{Before: []byte{1, 2, 3, 4}, CD: []byte{5}}
	d := zzDigest(a, vf.SHA256)
	v2v := vf.SchemeBlock((&vf.Signer{Key: vf.KeyE1, Digests: [][]byte{d}}).Encode())
	fr := &zzFrost{proto: []byte{8, 1, 16}}
	fr.entries = []*zzFrostEntry{{disabled: []byte{1}, index: []byte{7}, signature: []byte{9}}, {disabled: []byte{0}, index: []byte{0}, digest: zzFrostDigest(a, v2v)}}
	fr.entries[1].signature = vf.Sign(vf.KeyE0, "", vf.SHA256, fr.signed(1))
	b := fr.encode()
	i := vf.Choice("position", len(b)+1)
	if i < len(b) {
		x := vf.U8("difference")
		vf.Assume(x != 0)
		b[i] ^= x
	}
	res, err := zzVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDFrost, b), vf.Pair(vf.IDv2, v2v))), 24, 28)
	vf.Assert(err == nil, "frosting changes the APK's verdict")
	if i == len(b) {
		vf.Assert(res.Frosting != nil && res.Frosting.Error == nil, "right frosting is reported as invalid")
	}
	if res.Frosting != nil && res.Frosting.Error == nil {
		vf.Cover("valid")
		vf.Assert(vf.Equal(res.Frosting.ProtobufInfo, fr.proto), "the reported information is not the signed one")
	} else {
		vf.Cover("invalid")
	}
}

// The signed file digest covers every byte of the file outside the signing block, and the v2 block.
func VF_P23_content() {
	if !vf.KeysReplaced {
		return
	}
	big := []int{4, 8191, 8192, 8193, 16385}[vf.Choice("before", 3+2*vf.Tier())]
	cd := []int{1, 8192, 8193}[vf.Choice("directory", 2+vf.Tier())]
	mk := func(n int) []byte { return make([]byte, n) }
	a := &vf.Apk{Before: mk(big), CD: mk(cd), Comment: []byte{1, 2}}
	v2v := []byte{1, 2, 3}
	fr := &zzFrost{proto: []byte{1}}
	fr.entries = []*zzFrostEntry{{disabled: []byte{0}, index: []byte{0}, digest: zzFrostDigest(a, v2v)}}
	fr.entries[0].signature = vf.Sign(vf.KeyE0, "", vf.SHA256, fr.signed(0))
	x := vf.U8("difference")
	at := func(b []byte, ps ...int) {
		p := ps[vf.Choice("position", len(ps))]
		if p >= len(b) {
			vf.Assume(false)
		}
		b[p] ^= x
	}
	entries := a.Entries
	switch vf.Choice("section", 4) {
	case 0:
		at(a.Before, 0, big/2, big-1, 8191, 8192)
	case 1:
		at(a.CD, 0, cd-1, 8191, 8192)
	case 2:
		at(v2v, 0, 2)
	case 3:
		a.Entries = entries ^ int(x)
	}
	res, _ := zzVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, v2v), vf.Pair(vf.IDFrost, fr.encode()))), 24, 28)
	vf.Assert(res.Frosting != nil, "frosting is not reported")
	if res.Frosting.Error == nil {
		vf.Cover("valid")
		vf.Assert(x == 0, "frosting of other content is reported as valid")
	} else {
		vf.Cover("invalid")
		vf.Assert(x != 0, "right frosting is reported as invalid")
	}
}
