package signingblock

import (
	"bytes"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P32

// zzIOFile is one of several signed files: verity, several digests, rotation, stamp, frosting; right or with wrong content digest.
func zzIOFile() (f []byte, frosted bool, max int32) {
	max = 34
	a := vf.Archive(vf.Member{Name: "f", Data: []byte{1}})
	a.Comment = []byte("c")
	kinds := 4
	if vf.KeysReplaced {
		kinds = 5
	}
	kind := vf.Choice("kind", kinds)
	wrong := vf.Choice("wrong", 2) == 1
	odd := func(d []byte) []byte {
		if wrong {
			d = append([]byte{d[0] ^ 1}, d[1:]...)
		}
		return d
	}
	switch kind {
	case 0: // verity along with a chunked digest
		a = &vf.Apk{Before: zzSym("before", 4096, 0, -1), CD: []byte{1, 2, 3}}
		s1 := &vf.Signer{Key: vf.KeyR0, Algs: []uint32{vf.AlgVRsa256}, Digests: [][]byte{odd(zzVerity(a.Sections()...))}}
		s2 := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{zzDigest(a, vf.SHA256)}}
		return a.File(vf.SigningBlock(zzPairV2(s1.Encode(), s2.Encode()))), false, max
	case 1: // two digests
		a = &vf.Apk{Before: vf.Bytes("before", 5), CD: []byte{1, 2, 3}, Comment: []byte{7}}
		s1 := &vf.Signer{Key: vf.KeyR0, Algs: []uint32{vf.AlgRsa512}, Digests: [][]byte{odd(zzDigest(a, vf.SHA512))}}
		s2 := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{zzDigest(a, vf.SHA256)}}
		return a.File(vf.SigningBlock(zzPairV2(s1.Encode(), s2.Encode()))), false, max
	case 2: // rotation
		d := zzDigest(a, vf.SHA256)
		old := &vf.Signer{Key: vf.KeyE0, V3: true, Min: 28, Max: 32, Digests: [][]byte{d}, Attrs: [][]byte{vf.Attr(zzAttrMinSdk, vf.LE32(33))}}
		v31 := &vf.Signer{Key: vf.KeyE1, V3: true, Min: 33, Max: 40, Digests: [][]byte{odd(d)}}
		return a.File(vf.SigningBlock(zzPairV3(old.Encode()), zzPairV31(v31.Encode()))), false, max
	case 3: // stamp
		s := zzNewStamped(2, vf.KeyE1, zzCertHash(vf.KeyE1))
		msg := odd(s.msg())
		st := &zzStamp{key: vf.KeyE1, schemes: zzStampScheme(s.schemeID(), zzSignOne(vf.KeyE1, msg))}
		return s.file(st.encode()), false, max
	}
	d := zzDigest(a, vf.SHA256)
	v2v := vf.SchemeBlock((&vf.Signer{Key: vf.KeyR0, Digests: [][]byte{d}}).Encode())
	fr := &zzFrost{proto: []byte{5}}
	e := &zzFrostEntry{disabled: []byte{0}, index: []byte{0}, digest: odd(zzFrostDigest(a, v2v))}
	fr.entries = []*zzFrostEntry{e}
	e.signature = vf.Sign(vf.KeyE0, "", vf.SHA256, fr.signed(0))
	return a.File(vf.SigningBlock(vf.Pair(vf.IDv2, v2v), vf.Pair(vf.IDFrost, fr.encode()))), true, max
}

func zzSameVerdict(a, b *VerificationResult) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.SchemeId != b.SchemeId || len(a.Certs) != len(b.Certs) || len(a.Errors) != len(b.Errors) || len(a.Warnings) != len(b.Warnings) || len(a.ExtraResults) != len(b.ExtraResults) ||
		(a.Frosting == nil) != (b.Frosting == nil) || (a.SourceStamp == nil) != (b.SourceStamp == nil) {
		return false
	}
	if a.Frosting != nil && (a.Frosting.Error == nil) != (b.Frosting.Error == nil) {
		return false
	}
	return a.SourceStamp == nil || zzClean(a.SourceStamp) == zzClean(b.SourceStamp)
}

// A call of the reader that is partial or fails.
func VF_P32_calls() {
	f, frosted, max := zzIOFile()
	zip, err := apkparser.OpenZipReader(bytes.NewReader(f))
	if err != nil {
		zip = &apkparser.ZipReader{}
	}
	min := int32(24)
	fault := vf.Choice("fault", 3)
	r := &vf.Reader{Data: f, Fault: -1, Short: -1}
	call := vf.Int("call", 0, 200)
	switch fault {
	case 0:
		r.Short, r.Part = call, vf.Choice("part", 3)
	default:
		r.Fault, r.EOF = call, fault == 2
	}
	want, _, werr := VerifySigningBlockReaderWithZip(bytes.NewReader(f), min, max, zip)
	got, _, err := VerifySigningBlockReaderWithZip(r, min, max, zip)
	vf.ObsErr("err", err)
	if werr == nil {
		vf.Cover("right " + zzFileKind(want, len(f)))
	}
	if !r.Failed {
		vf.Assert((err == nil) == (werr == nil), "the verdict depends on how reads are split")
		vf.Assert(zzSameVerdict(got, want), "the result depends on how reads are split")
		vf.Cover("split")
		return
	}
	vf.Cover("failed")
	vf.Assert(err != nil || werr == nil, "an invalid APK is accepted when reading it fails")
	vf.Assert(!IsSigningBlockNotFoundError(err), "signatures count as absent when reading them fails")
	if err == nil {
		if frosted && got.Frosting != nil && got.Frosting.Error != nil {
			vf.Cover("frosting")
			return
		}
		vf.Assert(zzSameVerdict(got, want), "the result differs when reading the file fails")
		vf.Cover("accepted")
	}
}

func zzFileKind(res *VerificationResult, size int) string {
	switch {
	case size > 4096:
		return "verity"
	case res.Frosting != nil:
		return "frosting"
	case res.SourceStamp != nil:
		return "stamp"
	case res.SchemeId == schemeIdV31:
		return "rotation"
	}
	return "v2"
}
