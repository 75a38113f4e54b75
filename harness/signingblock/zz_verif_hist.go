package signingblock

import (
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P33

// zzWhole is an APK with v3.1, v3 and v2 signers, a signing history, a stamp and frosting, of which one part is altered.
func zzWhole(part int) []byte {
	is := func(n int, name string, b []byte) []byte {
		if part == n {
			return zzBad(name, b)
		}
		return b
	}
	a := vf.Archive(vf.Member{Name: "f", Data: []byte{1}}, vf.Member{Name: zzStampEntry, Data: is(1, "entry", zzCertHash(vf.KeyD1))})
	d := zzDigest(a, vf.SHA256)
	nodes := zzChain(vf.KeyR0, vf.KeyE0)
	nodes[1].signature = is(2, "link", nodes[1].signature)
	if part == 3 { // another key's
		nodes[1].signature = vf.AlgSign(vf.KeyR1, vf.AlgDefault(vf.KeyR1), nodes[1].data)
	}
	signer := func(k *vf.Key, v3 bool, min, max uint32, n int, attrs ...[]byte) []byte {
		s := &vf.Signer{Key: k, Digests: [][]byte{is(n, "digest", d)}, V3: v3, Min: min, Max: max, Attrs: attrs}
		sd := s.SignedData()
		return s.EncodeWith(sd, vf.LP(vf.LE32(vf.AlgDefault(k)), vf.LP(is(n+1, "signature", vf.AlgSign(k, vf.AlgDefault(k), sd)))), k.SPKI())
	}
	b31 := vf.SchemeBlock(signer(vf.KeyE0, true, 33, zzMaxSdk, 4, vf.Attr(zzAttrRotation, zzLineage(nodes))))
	b3 := vf.SchemeBlock(signer(vf.KeyR0, true, 28, 32, 6, vf.Attr(zzAttrMinSdk, vf.LE32(33))))
	b2 := vf.SchemeBlock(signer(vf.KeyR0, false, 0, 0, 8))
	sigs := func(data []byte, n int) []byte {
		return zzSigList(zzSig(vf.AlgDefault(vf.KeyD1), is(n, "stamp signature", vf.AlgSign(vf.KeyD1, vf.AlgDefault(vf.KeyD1), data))))
	}
	msg := zzStampDigests(vf.LE32(1), d)
	data := vf.LP(vf.LP(vf.LE32(zzStampTime), vf.LE64(0x60000000)))
	stamp := &zzStamp{key: vf.KeyD1, schemes: vf.Cat(zzStampScheme(3, sigs(msg, 10)), zzStampScheme(2, sigs(msg, 11))),
		attrs: vf.Cat(vf.LP(data), sigs(data, 12))}
	fr := &zzFrost{proto: []byte{7}}
	e := &zzFrostEntry{disabled: []byte{0}, index: []byte{0}, digest: is(13, "frosting digest", zzFrostDigest(a, b2))}
	fr.entries = []*zzFrostEntry{e}
	e.signature = is(14, "frosting signature", vf.Sign(vf.KeyE0, "", vf.SHA256, fr.signed(0)))
	return a.File(vf.SigningBlock(vf.Pair(vf.IDv31, b31), vf.Pair(vf.IDv3, b3), vf.Pair(vf.IDv2, b2), stamp.encode(), vf.Pair(vf.IDFrost, fr.encode())))
}

const zzWholeParts = 15

// zzWholeCheck verifies the file of zzWhole with the part altered.
func zzWholeCheck(f []byte, part int, v2 bool) *VerificationResult {
	min, max := int32(28), int32(34)
	if v2 {
		min, max = 24, 27
	}
	res, err := zzVerifyZip(f, min, max)
	vf.ObsErr("err", err)
	wrong := !v2 && part >= 2 && part <= 7 || v2 && part >= 8 && part <= 9
	vf.Assert((err != nil) == wrong, "the verdict depends on earlier calls")
	if res == nil {
		return nil
	}
	if err == nil {
		k, n := vf.KeyE0, 2
		if v2 {
			k, n = vf.KeyR0, 0
		}
		vf.Assert(zzCertsAre(res, k), "the certificates depend on earlier calls")
		vf.Assert((res.SigningLineage != nil) == (n != 0), "the history depends on earlier calls")
		vf.Assert(res.SigningLineage == nil || len(res.SigningLineage.Nodes) == n, "the history depends on earlier calls")
		bad := part == 1 || part == 12 || !v2 && part == 10 || v2 && part == 11
		vf.Assert(zzClean(res.SourceStamp) == !bad, "the stamp's result depends on earlier calls")
	}
	vf.Assert(res.Frosting != nil && (res.Frosting.Error != nil) == (part == 13 || part == 14), "the frosting's result depends on earlier calls")
	return res
}

// An APK with signatures of all schemes, history, stamp and frosting, with any one part altered, before and after
// the one that is right.
func VF_P33_whole() {
	if !vf.KeysReplaced {
		return
	}
	v2 := vf.Choice("old platforms", 2) == 1
	part := 1 + vf.Choice("part", zzWholeParts-1)
	good, bad := zzWhole(0), zzWhole(part)
	if vf.Choice("wrong first", 2) == 1 {
		zzWholeCheck(bad, part, v2)
	}
	res := zzWholeCheck(good, 0, v2)
	if vf.Choice("other platforms between", 2) == 1 {
		zzWholeCheck(good, 0, !v2)
	}
	var raw [][]byte
	if res != nil {
		for _, b := range res.ExtraBlocks {
			for i := range b {
				b[i] = 0
			}
		}
		if l := res.SigningLineage; l != nil {
			for _, n := range l.Nodes {
				raw = append(raw, n.Signature)
			}
			for _, b := range raw {
				for i := range b {
					b[i] = 0
				}
			}
		}
	}
	zzWholeCheck(bad, part, v2)
	zzWholeCheck(good, 0, v2)
	vf.Cover("done")
}
