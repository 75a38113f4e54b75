package signingblock

import (
	"github.com/avast/apkverifier/internal/vf"
)

// zzPairID picks an identifier: any of the ones with a meaning, or an arbitrary unknown one.
func zzPairID(name string) uint32 {
	ids := []uint32{vf.IDv2, vf.IDv3, vf.IDv31, vf.IDStamp, vf.IDPad, uint32(BlockIdDependencyMetadata), uint32(BlockIdSourceStampV1), 0}
	id := ids[vf.Choice(name, len(ids))]
	if id != 0 {
		return id
	}
	id = vf.U32(name + "v")
	known := vf.Or(id == vf.IDv2, vf.Or(id == vf.IDv3, vf.Or(id == vf.IDv31, vf.Or(id == vf.IDStamp, vf.Or(id == vf.IDPad, id == vf.IDFrost)))))
	vf.Assume(!known)
	return id
}

func zzSupported(id uint32, max int32) bool {
	return id == vf.IDv2 && max >= 24 || id == vf.IDv3 && max >= 28 || id == vf.IDv31 && max >= 33
}

func zzIsScheme(id uint32) bool { return id == vf.IDv2 || id == vf.IDv3 || id == vf.IDv31 }

// Two or three pairs of any kinds and lengths, for any SDK range: each value is delivered as the format says.
func VF_P02_delivery() {
	n := 2 + vf.Tier()*vf.Choice("n", 2)
	max := vf.I32("max")
	vf.Assume(max >= 1)
	var ids []uint32
	var vals, pairs [][]byte
	for i := 0; i < n; i++ {
		id := zzPairID("id")
		v := vf.Bytes("v", vf.Choice("len", 3))
		for _, o := range ids {
			vf.Assume(id != o)
		}
		ids, vals, pairs = append(ids, id), append(vals, v), append(pairs, vf.Pair(id, v))
	}
	a := &vf.Apk{Before: []byte{1, 2, 3, 4}, CD: []byte{5}}
	res, err := zzVerify(a.File(vf.SigningBlock(pairs...)), 1, max)
	if res == nil {
		vf.Assert(false, "no result for a well-formed block")
		return
	}
	anyScheme := false
	for i, id := range ids {
		x, there := res.ExtraBlocks[BlockId(id)]
		switch {
		case zzIsScheme(id) && zzSupported(id, max):
			anyScheme = true
			vf.Cover("scheme used")
			// a value this short holds no signer
			vf.Assert(err != nil && !IsSigningBlockNotFoundError(err), "a supported scheme's block was not looked at")
		case id == vf.IDStamp:
			vf.Cover("stamp")
			vf.Assert(res.SourceStamp != nil, "the source stamp block was not looked at")
		case id == vf.IDPad:
			vf.Cover("padding")
		default:
			vf.Cover("extra")
			if len(vals[i]) == 0 {
				vf.Cover("empty value")
			}
			vf.Assert(there && vf.Equal(x, vals[i]), "a pair is not delivered unchanged")
		}
	}
	if !anyScheme && max >= 24 {
		vf.Assert(IsSigningBlockNotFoundError(err), "no scheme block, but not reported as missing")
	}
	if max < 24 {
		vf.Assert(len(res.Certs) == 0 && res.SchemeId == 1, "block schemes applied for platforms without them")
	}
}

// The pair area is an arbitrary byte string: it is either a sequence of pairs, delivered exactly, or refused.
func VF_P02_any() {
	n := vf.Choice("n", 15) + 2
	if vf.Tier() > 0 {
		n = vf.Choice("n", 28)
	}
	area := vf.Bytes("p", n)
	a := &vf.Apk{Before: []byte{1, 2, 3, 4}, CD: []byte{5}}
	// specification
	type pr struct {
		id uint32
		v  []byte
	}
	var want []pr
	ok := true
	for rest := area; len(rest) > 0; {
		if len(rest) < 8 {
			ok = false
			break
		}
		l := vf.Get64(rest)
		if l < 4 || l > uint64(len(rest)-8) {
			ok = false
			break
		}
		k := vf.Concrete(int(l))
		id := vf.Get32(rest[8:])
		known := vf.Or(id == vf.IDv2, vf.Or(id == vf.IDv3, vf.Or(id == vf.IDv31, vf.Or(id == vf.IDStamp, vf.Or(id == vf.IDPad, id == vf.IDFrost)))))
		vf.Assume(!known)
		for _, w := range want {
			vf.Assume(w.id != id)
		}
		want = append(want, pr{id, rest[12 : 8+k]})
		rest = rest[8+k:]
	}
	res, err := zzVerify(a.File(vf.SigningBlock(area)), 24, 34)
	vf.ObsErr("err", err)
	vf.Assert(err != nil && IsSigningBlockNotFoundError(err), "a block without schemes is not reported as unsigned")
	if !ok {
		vf.Cover("malformed")
		return
	}
	if len(want) > 0 {
		vf.Cover("well-formed")
	}
	vf.Assert(len(res.ExtraBlocks) == len(want), "number of delivered pairs")
	for _, w := range want {
		x, there := res.ExtraBlocks[BlockId(w.id)]
		vf.Assert(there && vf.Equal(x, w.v), "a pair is not delivered unchanged")
	}
}

// A malformed pair after a valid scheme block is never overlooked.
func VF_P02_malformed() {
	a := &vf.Apk{Before: []byte{1, 2, 3, 4}, CD: []byte{5}}
	k := zzKeys[vf.Choice("key", 2)]
	s := &vf.Signer{Key: k, Digests: [][]byte{zzDigest(a, vf.SHA256)}}
	good := vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode()))
	l := vf.U64("len")
	tail := vf.Cat(vf.LE64(l), vf.LE32(zzUnknownID), vf.Bytes("v", 3))
	tail = tail[:vf.Choice("cut", 16)]
	res, err := zzVerify(a.File(vf.SigningBlock(good, tail)), 24, 27)
	wellFormed := len(tail) == 0 || len(tail) >= 12 && l == uint64(len(tail)-8)
	if wellFormed {
		vf.Cover("accepted")
		vf.Assert(err == nil && res.SchemeId == 2, "a well-formed block was refused")
	} else {
		vf.Cover("refused")
		vf.Assert(IsSigningBlockNotFoundError(err) && len(res.Certs) == 0, "a malformed block was not refused")
	}
}

// If an identifier repeats, the first pair counts, as on Android.
func VF_P02_repeated() {
	a := &vf.Apk{Before: []byte{1, 2, 3, 4}, CD: []byte{5}}
	d := zzDigest(a, vf.SHA256)
	v3 := vf.Bool("v3")
	mk := func(k *vf.Key) []byte {
		if v3 {
			return vf.Pair(vf.IDv3, vf.SchemeBlock((&vf.Signer{Key: k, Digests: [][]byte{d}, V3: true, Min: 24, Max: 0x7fffffff}).Encode()))
		}
		return vf.Pair(vf.IDv2, vf.SchemeBlock((&vf.Signer{Key: k, Digests: [][]byte{d}}).Encode()))
	}
	first, second := vf.KeyR0, vf.KeyE0
	if vf.Bool("swap") {
		first, second = second, first
	}
	res, err := zzVerify(a.File(vf.SigningBlock(mk(first), mk(second))), 28, 32)
	vf.Cover("repeated")
	vf.Assert(err == nil, "a repeated identifier makes a valid file fail")
	if err == nil {
		vf.Assert(len(res.Certs) == 1 && vf.Equal(res.Certs[0][0].Raw, first.Cert()), "a repeated block replaced the first one")
	}
}
