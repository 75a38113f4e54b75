package signingblock

import (
	"github.com/avast/apkverifier/internal/vf"
)

// zzSym is n bytes of which a few, spread over the interesting places, are symbolic.
func zzSym(name string, n int, at ...int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>12 + 1)
	}
	for _, i := range at {
		if i < 0 {
			i += n
		}
		if i >= 0 && i < n {
			b[i] = vf.U8(name)
		}
	}
	return b
}

// zzBlockFor encodes one signer with the given algorithms and content digests for v2 (2) or v3 (3).
func zzBlockFor(scheme int, k *vf.Key, algs []uint32, digests [][]byte) []byte {
	s := &vf.Signer{Key: k, Algs: algs, Digests: digests}
	if scheme == 3 {
		s.V3, s.Min, s.Max = true, 24, 0x7fffffff
		return vf.SigningBlock(vf.Pair(vf.IDv3, vf.SchemeBlock(s.Encode())))
	}
	return vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode())))
}

type zzAlg struct {
	k    *vf.Key
	alg  uint32
	hash int
}

func zzPlainAlgs() []zzAlg {
	return []zzAlg{
		{vf.KeyR0, vf.AlgRsa256, vf.SHA256}, {vf.KeyR0, vf.AlgRsa512, vf.SHA512},
		{vf.KeyE0, vf.AlgEc256, vf.SHA256}, {vf.KeyE0, vf.AlgEc512, vf.SHA512},
		{vf.KeyR1, vf.AlgPss256, vf.SHA256}, {vf.KeyR1, vf.AlgPss512, vf.SHA512},
		{vf.KeyD1, vf.AlgDsa256, vf.SHA256},
	}
}

// Small files with arbitrary contents and an arbitrary digest in the signed data: accepted if and
// only if that digest is the one of the sections.
func VF_P03_exact() {
	scheme := 2 + vf.Choice("scheme", 2)
	algs := zzPlainAlgs()
	al := algs[vf.Choice("alg", len(algs))]
	a := &vf.Apk{
		Before:  vf.Bytes("before", []int{0, 1, 5}[vf.Choice("nbefore", 3)]),
		CD:      vf.Bytes("cd", 1+vf.Choice("ncd", 2)),
		Comment: vf.Bytes("comment", 2*vf.Choice("ncomment", 2)),
	}
	want := zzDigest(a, al.hash)
	d := zzNear("digest", want)
	f := a.File(zzBlockFor(scheme, al.k, []uint32{al.alg}, [][]byte{d}))
	zzOneRecord(f, len(a.Before), len(f)-22-len(a.Comment))
	res, err := zzVerify(f, 28, 32)
	same := vf.Equal(d, want)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(same, "accepted with a wrong content digest")
		vf.Assert(res.SchemeId == scheme, "scheme")
	} else {
		vf.Cover("rejected")
		vf.Assert(!same, "refused with the right content digest")
	}
}

// The digest is not just compared in part, or in length.
func VF_P03_length() {
	scheme := 2 + vf.Choice("scheme", 2)
	a := &vf.Apk{Before: vf.Bytes("before", 2), CD: []byte{9}}
	want := zzDigest(a, vf.SHA256)
	var d []byte
	switch vf.Choice("kind", 4) {
	case 0:
		d = want[:vf.Choice("n", 32)]
	case 1:
		d = vf.Cat(want, vf.Bytes("more", 1+vf.Choice("n", 3)))
	case 2:
		d = zzDigest(a, vf.SHA512)
	case 3:
		d = vf.Cat(want, want)
	}
	f := a.File(zzBlockFor(scheme, vf.KeyE0, nil, [][]byte{d}))
	_, err := zzVerify(f, 28, 32)
	vf.Cover("length")
	vf.Assert(err != nil, "accepted a digest of another length")
}

// Two v2 signers (or two algorithms of one signer) using different digests: each one counts.
func VF_P03_several() {
	a := &vf.Apk{Before: vf.Bytes("before", 3), CD: []byte{9, 8}}
	w1, w2 := zzDigest(a, vf.SHA256), zzDigest(a, vf.SHA512)
	d1, d2 := zzNear("d1", w1), zzNear("d2", w2)
	var f []byte
	two := vf.Bool("two signers")
	if two {
		s1 := &vf.Signer{Key: vf.KeyR0, Digests: [][]byte{d1}}
		s2 := &vf.Signer{Key: vf.KeyE0, Algs: []uint32{vf.AlgEc512}, Digests: [][]byte{d2}}
		x, y := s1.Encode(), s2.Encode()
		if vf.Bool("swap") {
			x, y = y, x
		}
		f = a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(x, y))))
	} else {
		algs, ds := []uint32{vf.AlgRsa256, vf.AlgRsa512}, [][]byte{d1, d2}
		if vf.Bool("swap") {
			algs, ds = []uint32{vf.AlgRsa512, vf.AlgRsa256}, [][]byte{d2, d1}
		}
		f = a.File(zzBlockFor(2+vf.Choice("scheme", 2), vf.KeyR0, algs, ds))
	}
	_, err := zzVerify(f, 28, 32)
	ok1, ok2 := vf.Equal(d1, w1), vf.Equal(d2, w2)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(ok2, "accepted with a wrong SHA-512 digest")
		if two {
			vf.Assert(ok1, "accepted with a wrong SHA-256 digest")
		}
	} else {
		vf.Cover("rejected")
		vf.Assert(!vf.And(ok1, ok2), "refused with the right digests")
	}
}

// Sections around the 1 MB chunk size.
func VF_P03_chunks() {
	const mb = 1 << 20
	sizes := [][2]int{{mb, 1}, {mb + 1, mb + 3}, {2*mb + 5, 2}, {mb - 1, 1}, {3, mb}}
	n := 3
	if vf.Tier() > 0 {
		n = len(sizes)
	}
	sz := sizes[vf.Choice("size", n)]
	a := &vf.Apk{
		Before: zzSym("before", sz[0], 0, -1, mb-1, mb),
		CD:     zzSym("cd", sz[1], 0, -1, mb),
	}
	al := zzPlainAlgs()[vf.Choice("alg", 2)]
	want := zzDigest(a, al.hash)
	d := zzNear("digest", want)
	_, err := zzVerify(a.File(zzBlockFor(2, al.k, []uint32{al.alg}, [][]byte{d})), 24, 27)
	same := vf.Equal(d, want)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(same, "accepted with a wrong content digest")
	} else {
		vf.Cover("rejected")
		vf.Assert(!same, "refused with the right content digest")
	}
}

// ---- P04

// zzVerity is the verity digest of a byte stream, from the specification.
func zzVerity(sections ...[]byte) []byte {
	data := vf.Cat(sections...)
	total := len(data)
	salt := make([]byte, 8)
	for {
		var level []byte
		for off := 0; off < len(data); off += 4096 {
			end := off + 4096
			if end > len(data) {
				end = len(data)
			}
			page := make([]byte, 4096)
			copy(page, data[off:end])
			level = append(level, vf.Digest(vf.SHA256, vf.Cat(salt, page))...)
		}
		if len(level) <= 4096 {
			page := make([]byte, 4096)
			copy(page, level)
			return vf.Cat(vf.Digest(vf.SHA256, vf.Cat(salt, page)), vf.LE64(uint64(total)))
		}
		data = level
	}
}

var zzVerityAlgs = []zzAlg{{vf.KeyR0, vf.AlgVRsa256, vf.SHA256}, {vf.KeyE0, vf.AlgVEc256, vf.SHA256}, {vf.KeyD1, vf.AlgVDsa256, vf.SHA256}}

func zzVerityCheck(a *vf.Apk, scheme int, al zzAlg) {
	want := zzVerity(a.Sections()...)
	d := zzNear("digest", want)
	_, err := zzVerify(a.File(zzBlockFor(scheme, al.k, []uint32{al.alg}, [][]byte{d})), 28, 32)
	same := vf.Equal(d, want)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(same, "accepted with a wrong verity digest")
	} else {
		vf.Cover("rejected")
		vf.Assert(!same, "refused with the right verity digest")
	}
}

// One level of the tree; the last page partly filled, exactly filled, or just begun.
func VF_P04_root() {
	before := 4096 * vf.Choice("pages", 3)
	cd := []int{1, 30, 4096 - 23, 4096 - 22, 4096 - 21, 8192 - 22}[vf.Choice("cd", 6)]
	a := &vf.Apk{Before: zzSym("before", before, 0, 4095, 4096, -1), CD: zzSym("cdb", cd, 0, -1)}
	zzVerityCheck(a, 2+vf.Choice("scheme", 2), zzVerityAlgs[vf.Choice("alg", 3)])
}

// Around 128 pages, where a second level begins.
func VF_P04_levels() {
	cases := [][2]int{{127 * 4096, 4096 - 22}, {127 * 4096, 4096 - 21}, {128 * 4096, 3}, {126 * 4096, 77}, {256 * 4096, 9}, {255 * 4096, 4096 - 22}}
	n := 3
	if vf.Tier() > 0 {
		n = len(cases)
	}
	c := cases[vf.Choice("case", n)]
	a := &vf.Apk{Before: zzSym("before", c[0], 0, -1), CD: zzSym("cdb", c[1], 0, -1)}
	zzVerityCheck(a, 2, zzVerityAlgs[vf.Choice("alg", 2)])
}

// The part before the signing block must be page aligned.
func VF_P04_aligned() {
	n := []int{1, 4095, 4097, 8191, 2048, 512}[vf.Choice("n", 6)]
	a := &vf.Apk{Before: zzSym("before", n, 0), CD: []byte{1, 2, 3}}
	want := zzVerity(a.Sections()...)
	al := zzVerityAlgs[vf.Choice("alg", 3)]
	_, err := zzVerify(a.File(zzBlockFor(2+vf.Choice("scheme", 2), al.k, []uint32{al.alg}, [][]byte{want})), 28, 32)
	vf.Cover("unaligned")
	vf.Assert(err != nil, "accepted an unaligned signing block")
}

// A verity digest and a chunked digest from two signers: both count.
func VF_P04_mixed() {
	a := &vf.Apk{Before: zzSym("before", 4096, 0, -1), CD: []byte{1, 2, 3}}
	wv, wc := zzVerity(a.Sections()...), zzDigest(a, vf.SHA256)
	dv, dc := zzNear("dv", wv), zzNear("dc", wc)
	s1 := &vf.Signer{Key: vf.KeyR0, Algs: []uint32{vf.AlgVRsa256}, Digests: [][]byte{dv}}
	s2 := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{dc}}
	x, y := s1.Encode(), s2.Encode()
	if vf.Bool("swap") {
		x, y = y, x
	}
	_, err := zzVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(x, y)))), 24, 27)
	okv, okc := vf.Equal(dv, wv), vf.Equal(dc, wc)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(vf.And(okv, okc), "accepted with a wrong digest")
	} else {
		vf.Cover("rejected")
		vf.Assert(!vf.And(okv, okc), "refused with the right digests")
	}
}

// With a rotated (v3.1) signature both blocks carry a digest, and both count.
func VF_P03_rotated() {
	a := &vf.Apk{Before: vf.Bytes("before", 2), CD: []byte{9}}
	h31 := []zzAlg{{vf.KeyR0, vf.AlgRsa256, vf.SHA256}, {vf.KeyR0, vf.AlgRsa512, vf.SHA512}}[vf.Choice("alg31", 2)]
	h3 := []zzAlg{{vf.KeyE0, vf.AlgEc256, vf.SHA256}, {vf.KeyE0, vf.AlgEc512, vf.SHA512}}[vf.Choice("alg3", 2)]
	w31, w3 := zzDigest(a, h31.hash), zzDigest(a, h3.hash)
	d31, d3 := zzNear("d31", w31), zzNear("d3", w3)
	s31 := &vf.Signer{Key: h31.k, Algs: []uint32{h31.alg}, Digests: [][]byte{d31}, V3: true, Min: 33, Max: 0x7fffffff}
	s3 := &vf.Signer{Key: h3.k, Algs: []uint32{h3.alg}, Digests: [][]byte{d3}, V3: true, Min: 24, Max: 32, Attrs: [][]byte{vf.Attr(attrV3MinSdkVersion, vf.LE32(33))}}
	f := a.File(vf.SigningBlock(vf.Pair(vf.IDv3, vf.SchemeBlock(s3.Encode())), vf.Pair(vf.IDv31, vf.SchemeBlock(s31.Encode()))))
	_, err := zzVerify(f, 28, 34)
	ok := vf.And(vf.Equal(d31, w31), vf.Equal(d3, w3))
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(ok, "accepted with a wrong content digest")
	} else {
		vf.Cover("rejected")
		vf.Assert(!ok, "refused with the right digests")
	}
}
