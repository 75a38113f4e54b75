package signingblock

import (
	"github.com/avast/apkverifier/internal/vf"
)

const zzUnknownID = 0x12345678

// zzFrame says, from the format's definition, where the signing block of a file is.
// It is executed symbolically next to the code under test.
func zzFrame(f []byte) (start, end int, ok bool) {
	n := len(f)
	eocd := -1
	for c := 0; c <= n-22 && c <= 0xffff; c++ {
		p := n - 22 - c
		if vf.Get32(f[p:]) == 0x06054b50 && vf.Get16(f[p+20:]) == c {
			eocd = p
			break
		}
	}
	if eocd < 0 {
		return 0, 0, false
	}
	size, off := int64(vf.Get32(f[eocd+12:])), int64(vf.Get32(f[eocd+16:]))
	if off >= int64(eocd) || off+size != int64(eocd) {
		return 0, 0, false
	}
	if eocd >= 20 && vf.Get32(f[eocd-20:]) == 0x07064b50 {
		return 0, 0, false
	}
	if off < 32 {
		return 0, 0, false
	}
	end = vf.Concrete(int(off))
	if !vf.Equal(f[end-16:end], []byte(vf.SigBlockMagic)) {
		return 0, 0, false
	}
	sz := vf.Get64(f[end-24:])
	if sz < 24 || sz > uint64(end-8) {
		return 0, 0, false
	}
	start = end - 8 - vf.Concrete(int(sz))
	if vf.Get64(f[start:]) != sz {
		return 0, 0, false
	}
	return start, end, true
}

func zzFraming(f []byte) {
	res, err := zzVerify(f, 24, 34)
	start, end, ok := zzFrame(f)
	vf.ObsErr("err", err)
	vf.Assert(err != nil, "a file without a scheme block was accepted")
	if !ok {
		vf.Cover("not framed")
		vf.Assert(IsSigningBlockNotFoundError(err), "bad framing is not reported as a missing signature")
		vf.Assert(res == nil || (len(res.ExtraBlocks) == 0 && len(res.Certs) == 0), "pairs delivered from a block that is not framed")
		return
	}
	vf.Cover("framed")
	pairs := f[start+8 : end-24]
	if len(pairs) == 0 {
		vf.Cover("empty block")
		vf.Assert(IsSigningBlockNotFoundError(err), "empty block is not a missing signature")
		vf.Assert(len(res.ExtraBlocks) == 0, "pairs delivered from an empty block")
	}
	if len(pairs) == 13 && vf.Get64(pairs) == 5 && vf.Get32(pairs[8:]) == zzUnknownID {
		vf.Cover("one pair")
		v := res.ExtraBlocks[zzUnknownID]
		vf.Assert(len(res.ExtraBlocks) == 1 && len(v) == 1 && v[0] == pairs[12], "the pair of the block is not delivered")
	}
}

// zzOneRecord assumes that the end record's magic occurs in f only at the given positions.
func zzOneRecord(f []byte, at ...int) {
	none := true
	for p := 0; p+22 <= len(f); p++ {
		skip := false
		for _, a := range at {
			skip = skip || a == p
		}
		if !skip {
			none = vf.And(none, vf.Get32(f[p:]) != 0x06054b50)
		}
	}
	vf.Assume(none)
}

// Every byte of a short file is arbitrary, with up to two end record magics at any positions.
func VF_P01_any() {
	n := 54
	if vf.Tier() > 0 {
		n = 54 + vf.Choice("n", 14)
	}
	f := vf.Bytes("f", n)
	p := vf.Choice("at", n-21)
	q := p
	if vf.Tier() > 0 {
		q = vf.Choice("at2", n-21)
	}
	zzOneRecord(f, p, q)
	zzFraming(f)
}

// All framing fields of a laid out file are arbitrary; sizes of the parts vary.
func VF_P01_fields() {
	before := make([]byte, vf.Choice("before", 2)*(3+2*vf.Tier()))
	cd := make([]byte, vf.Choice("cd", 2)*21)
	if len(cd) > 0 {
		copy(cd[1:], vf.Bytes("locator", 4))
	}
	comment := vf.Choice("comment", 2)
	if vf.Tier() > 0 {
		comment = vf.Choice("comment2", 24)
	}
	block := vf.Cat(vf.Bytes("hdr", 8), vf.LE64(5), vf.LE32(zzUnknownID), vf.Bytes("v", 1), vf.Bytes("ftr", 8), vf.Bytes("magic", 16))
	eocd := vf.EOCD(0, vf.U32("cdsize"), vf.U32("cdoff"), vf.Bytes("c", comment))
	cl := vf.U16("commentlen")
	eocd[20], eocd[21] = byte(cl), byte(cl>>8)
	f := vf.Cat(before, block, cd, eocd)
	zzOneRecord(f, len(f)-22-comment)
	zzFraming(f)
}

// A comment may hold a complete imitation of an end record; the record that ends the file counts.
func VF_P01_comment() {
	pair := vf.Pair(zzUnknownID, vf.Bytes("v", 1))
	block := vf.SigningBlock(pair)
	fake := vf.EOCD(0, vf.U32("fsize"), vf.U32("foff"), nil)
	fl := vf.U16("flen")
	fake[20], fake[21] = byte(fl), byte(fl>>8)
	cd := vf.Bytes("cd", 2)
	pre, post := vf.Choice("pre", 2), vf.Choice("post", 3)
	comment := vf.Cat(vf.Bytes("p", pre), fake, vf.Bytes("q", post))
	eocd := vf.EOCD(0, uint32(len(cd)), uint32(len(block)), comment)
	zzFraming(vf.Cat(block, cd, eocd))
}

// Content digests bind the framing: a valid signature does not verify when the end record says anything else.
func VF_P01_signed() {
	a := &vf.Apk{Before: vf.Bytes("b", 4), CD: vf.Bytes("cd", 3)}
	s := &vf.Signer{Key: vf.KeyR0, Digests: [][]byte{zzDigest(a, vf.SHA256)}}
	f := a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode()))))
	orig := append([]byte(nil), f...)
	e := f[len(f)-22:]
	copy(e[4:], vf.Bytes("eocd", 18))
	vf.Assume(!vf.Equal(orig[len(f)-22:], e))
	vf.Assume(vf.Get32(e[16:])+2-vf.Get32(orig[len(f)-6:]) <= 4 || vf.Get32(e[16:]) > uint32(len(f)))
	zzOneRecord(f, len(f)-22)
	res, err := zzVerify(f, 24, 27)
	vf.Cover("altered record")
	vf.Assert(err != nil, "accepted with an altered end record")
	vf.Assert(!IsSigningBlockNotFoundError(err) || res == nil || len(res.Certs) == 0, "certificates reported from a block that is not there")
}

// ZIP64 archives are refused whatever else they contain.
func VF_P01_zip64() {
	cd := vf.Cat(vf.Bytes("x", 1+vf.Choice("n", 2)), vf.LE32(0x07064b50), vf.Bytes("loc", 16))
	a := &vf.Apk{Before: vf.Bytes("b", 4), CD: cd}
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{zzDigest(a, vf.SHA256)}}
	f := a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode())), vf.Pair(zzUnknownID, nil)))
	res, err := zzVerify(f, 24, 27)
	vf.Cover("zip64")
	vf.Assert(IsSigningBlockNotFoundError(err), "ZIP64 archive not reported as unsigned")
	vf.Assert(res == nil || len(res.Certs) == 0, "certificates from a ZIP64 archive")
}
