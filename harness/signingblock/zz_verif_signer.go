package signingblock

import (
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P05

// zzGood is a small valid file for a scheme (2, 3 or 31), with the offsets that may not change freely.
func zzGood(a *vf.Apk, scheme int, k *vf.Key) (f []byte, lo, hi int32, free func(i int) bool) {
	d := zzDigest(a, vf.SHA256)
	mk := func(k *vf.Key, min, max uint32, attrs ...[]byte) (enc []byte, free func(i int) bool) {
		s := &vf.Signer{Key: k, Digests: [][]byte{d}, V3: scheme != 2, Min: min, Max: max, Attrs: attrs}
		sd := s.SignedData()
		sig := vf.AlgSign(k, vf.AlgDefault(k), sd)
		enc = s.EncodeWith(sd, vf.LP(vf.LE32(vf.AlgDefault(k)), vf.LP(sig)), k.SPKI())
		sdk := 0
		if s.V3 {
			sdk = 8
		}
		s0 := 4 + len(sd) + sdk + 4 + 4 + 4 + 4
		p0 := s0 + len(sig) + 4
		return enc, func(i int) bool {
			return i >= 4 && i < 4+len(sd) || i >= s0 && i < s0+len(sig) || i >= p0 && i < p0+len(k.SPKI())
		}
	}
	n := len(a.Before)
	switch scheme {
	case 2:
		e, in := mk(k, 0, 0)
		f = a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(e))))
		at := n + 8 + 12 + 8
		return f, 24, 27, func(i int) bool { return i >= at && in(i-at) }
	case 3:
		e, in := mk(k, 24, 0x7fffffff)
		f = a.File(vf.SigningBlock(vf.Pair(vf.IDv3, vf.SchemeBlock(e))))
		at := n + 8 + 12 + 8
		return f, 28, 32, func(i int) bool { return i >= at && in(i-at) }
	}
	e31, in31 := mk(k, 33, 0x7fffffff)
	e3, in3 := mk(vf.KeyR1, 24, 32, vf.Attr(attrV3MinSdkVersion, vf.LE32(33)))
	b31, b3 := vf.SchemeBlock(e31), vf.SchemeBlock(e3)
	f = a.File(vf.SigningBlock(vf.Pair(vf.IDv31, b31), vf.Pair(vf.IDv3, b3)))
	at := n + 8 + 12 + 8
	at3 := at - 8 + len(b31) + 12 + 8
	return f, 28, 34, func(i int) bool {
		return i >= at && i < at-8+len(b31) && in31(i-at) || i >= at3 && in3(i-at3)
	}
}

// Any one byte of the protected parts, of the signed data, of a signature, of a key or of a
// certificate is changed, at any position, to any other value.
func VF_P05_byte() {
	scheme := []int{2, 3, 31}[vf.Choice("scheme", 3)]
	k := vf.KeyE0
	if vf.Tier() > 0 {
		k = []*vf.Key{vf.KeyE0, vf.KeyR0, vf.KeyD1}[vf.Choice("key", 3)]
	} else if scheme == 2 {
		k = vf.KeyR0
	}
	a := &vf.Apk{Before: []byte{1, 2, 3}, CD: []byte{4, 5}, Comment: []byte{6}}
	f, lo, hi, in := zzGood(a, scheme, k)
	eocd := len(f) - 23
	cd := eocd - 2
	var pos []int
	for i := range f {
		// the end record's count, size, offset and comment length fields locate things; P01
		if i < 3 || i >= cd && i < eocd || i >= eocd+4 && i < eocd+12 || i == len(f)-1 || in(i) {
			pos = append(pos, i)
		}
	}
	i := pos[vf.Choice("pos", len(pos))]
	g := append([]byte(nil), f...)
	x := vf.U8("x")
	vf.Assume(x != 0)
	g[i] ^= x
	_, err := zzVerify(g, lo, hi)
	vf.Cover("changed")
	vf.Assert(err != nil, "a changed byte is not noticed")
}

// The untouched file verifies, for any contents.
func VF_P05_untouched() {
	scheme := []int{2, 3, 31}[vf.Choice("scheme", 3)]
	k := []*vf.Key{vf.KeyE0, vf.KeyR0, vf.KeyD1}[vf.Choice("key", 3)]
	a := &vf.Apk{Before: vf.Bytes("before", 2), CD: vf.Bytes("cd", 1), Comment: vf.Bytes("comment", 1)}
	f, lo, hi, _ := zzGood(a, scheme, k)
	res, err := zzVerify(f, lo, hi)
	vf.Cover("verified")
	vf.Assert(err == nil && res.SchemeId == scheme, "a valid file is refused")
	vf.Assert(len(res.Certs) == 1 && len(res.Certs[0]) == 1 && vf.Equal(res.Certs[0][0].Raw, k.Cert()), "reported certificate")
}

// ---- P34

// A certificate with a negative modulus stands for the key with the same bits.
func VF_P34_negative() {
	k := []*vf.Key{vf.KeyR0, vf.KeyR2}[vf.Choice("key", 2)]
	cert, key, negative := vf.Unsigned(k.Cert())
	a := &vf.Apk{Before: []byte{1, 2, 3}, CD: []byte{4, 5}, Comment: []byte{6}}
	scheme := 2 + vf.Choice("scheme", 2)
	s := &vf.Signer{Key: k, Digests: [][]byte{zzDigest(a, vf.SHA256)}, Certs: [][]byte{cert}, V3: scheme == 3, Min: 24, Max: 0x7fffffff}
	sd := s.SignedData()
	sig := vf.AlgSign(k, vf.AlgDefault(k), sd)
	pub, right := key, true
	switch vf.Choice("public key", 3) {
	case 1:
		pub, right = negative, false
	case 2:
		x := vf.U8("x")
		vf.Assume(x != 0)
		pub, right = append([]byte(nil), key...), false
		pub[len(pub)-6] ^= x
	}
	enc := s.EncodeWith(sd, vf.LP(vf.LE32(vf.AlgDefault(k)), vf.LP(sig)), pub)
	id := uint32(vf.IDv2)
	if scheme == 3 {
		id = vf.IDv3
	}
	res, err := zzVerify(a.File(vf.SigningBlock(vf.Pair(id, vf.SchemeBlock(enc)))), 28, 30)
	vf.ObsErr("err", err)
	vf.Assert(right == (err == nil), "a certificate with a negative modulus does not stand for its key")
	if err == nil {
		vf.Assert(len(res.Certs) == 1 && len(res.Certs[0]) == 1 && string(res.Certs[0][0].Raw) == string(cert), "another certificate is reported")
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

// ---- P06

var zzSupportedAlgs = []uint32{vf.AlgPss256, vf.AlgPss512, vf.AlgRsa256, vf.AlgRsa512, vf.AlgEc256, vf.AlgEc512, vf.AlgDsa256, vf.AlgVRsa256, vf.AlgVEc256, vf.AlgVDsa256}

func zzUnsupported(name string) uint32 {
	id := vf.U32(name)
	for _, a := range zzSupportedAlgs {
		vf.Assume(id != a)
	}
	return id
}

func zzStrength(alg uint32) int {
	switch alg {
	case vf.AlgPss512, vf.AlgRsa512, vf.AlgEc512:
		return 3
	case vf.AlgVRsa256, vf.AlgVEc256, vf.AlgVDsa256:
		return 2
	}
	return 1
}

func zzFits(k *vf.Key, alg uint32) bool {
	switch alg {
	case vf.AlgEc256, vf.AlgEc512, vf.AlgVEc256:
		return k.Type == "ec"
	case vf.AlgDsa256, vf.AlgVDsa256:
		return k.Type == "dsa"
	}
	return k.Type == "rsa"
}

// One signer listing up to three algorithms - supported, unsupported, or of another kind of key -
// with each signature right or wrong: accepted exactly if the strongest supported one is right.
func VF_P06_algorithms() {
	scheme := 2 + vf.Choice("scheme", 2)
	k := []*vf.Key{vf.KeyR0, vf.KeyE0, vf.KeyD1}[vf.Choice("key", 3)]
	choices := map[string][]uint32{
		"rsa": {0, vf.AlgRsa256, vf.AlgPss512, vf.AlgVRsa256, vf.AlgEc512, vf.AlgPss256, vf.AlgRsa512},
		"ec":  {0, vf.AlgEc256, vf.AlgEc512, vf.AlgVEc256, vf.AlgRsa512, vf.AlgDsa256},
		"dsa": {0, vf.AlgDsa256, vf.AlgVDsa256, vf.AlgEc512, vf.AlgPss256},
	}[k.Type]
	a := &vf.Apk{CD: []byte{1, 2}} // nothing before the block: aligned for verity
	dig := map[int][]byte{1: zzDigest(a, vf.SHA256), 2: zzVerity(a.Sections()...), 3: zzDigest(a, vf.SHA512)}
	n := 1 + vf.Choice("n", 2+vf.Tier())
	var algs []uint32
	var ds [][]byte
	var best uint32
	for i := 0; i < n; i++ {
		al := choices[vf.Choice("alg", len(choices))]
		d := []byte{7, 7}
		if al == 0 {
			al = zzUnsupported("unsupported")
		} else {
			d = dig[zzStrength(al)]
			for _, o := range algs {
				vf.Assume(o != al)
			}
			if best == 0 || zzStrength(al) > zzStrength(best) {
				best = al
			}
		}
		algs, ds = append(algs, al), append(ds, d)
	}
	s := &vf.Signer{Key: k, Algs: algs, Digests: ds, V3: scheme == 3, Min: 24, Max: 0x7fffffff}
	sd := s.SignedData()
	var sigs []byte
	bestOK := false
	for _, al := range algs {
		var sig []byte
		ok := vf.Bool("ok")
		switch {
		case zzStrengthKnown(al) && zzFits(k, al) && ok:
			sig = vf.AlgSign(k, al, sd)
		case k.Type == "rsa" && vf.Choice("wrong", 2) == 0:
			sig = vf.AlgSign(k, vf.AlgPss512, vf.Cat(sd, []byte{1}))
		default:
			ok = false
			sig = vf.AlgSign(vf.KeyE1, vf.AlgEc256, sd)
		}
		if al == best {
			bestOK = ok && zzFits(k, al)
		}
		sigs = append(sigs, vf.LP(vf.LE32(al), vf.LP(sig))...)
	}
	enc := s.EncodeWith(sd, sigs, k.SPKI())
	id := uint32(vf.IDv2)
	if scheme == 3 {
		id = vf.IDv3
	}
	_, err := zzVerify(a.File(vf.SigningBlock(vf.Pair(id, vf.SchemeBlock(enc)))), 28, 32)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(best != 0, "accepted without a supported signature")
		vf.Assert(bestOK, "accepted although the strongest supported signature is wrong")
	} else {
		vf.Cover("rejected")
		vf.Assert(best == 0 || !bestOK, "refused although the strongest supported signature is right")
	}
}

func zzStrengthKnown(al uint32) bool {
	for _, a := range zzSupportedAlgs {
		if a == al {
			return true
		}
	}
	return false
}

// The signature bytes are arbitrary: only the one made by the key over the signed data will do.
func VF_P06_signature() {
	scheme := 2 + vf.Choice("scheme", 2)
	a := &vf.Apk{Before: vf.Bytes("before", 1), CD: []byte{1, 2}}
	k := []*vf.Key{vf.KeyR0, vf.KeyE0, vf.KeyD1}[vf.Choice("key", 3)]
	al := vf.AlgDefault(k)
	s := &vf.Signer{Key: k, Digests: [][]byte{zzDigest(a, vf.SHA256)}, V3: scheme == 3, Min: 24, Max: 0x7fffffff}
	sd := s.SignedData()
	right := vf.AlgSign(k, al, sd)
	sig := append([]byte(nil), right...)
	if k.Type == "rsa" {
		sig = zzNear("sig", right)
	} else {
		// r and s arbitrary, in the usual framing
		half := int(sig[3])
		for i := 5; i < 4+half; i++ {
			sig[i] ^= vf.U8("r")
		}
		for i := 4 + half + 3; i < len(sig); i++ {
			sig[i] ^= vf.U8("s")
		}
	}
	id := uint32(vf.IDv2)
	if scheme == 3 {
		id = vf.IDv3
	}
	enc := s.EncodeWith(sd, vf.LP(vf.LE32(al), vf.LP(sig)), k.SPKI())
	_, err := zzVerify(a.File(vf.SigningBlock(vf.Pair(id, vf.SchemeBlock(enc)))), 28, 32)
	same := vf.Equal(sig, right)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(same, "accepted a signature that was never made")
	} else {
		vf.Cover("rejected")
		vf.Assert(!same, "refused the right signature")
	}
}

// Public key, first certificate and signing key are any of several keys: all three must be one.
func VF_P06_keys() {
	scheme := 2 + vf.Choice("scheme", 2)
	keys := []*vf.Key{vf.KeyR0, vf.KeyR1, vf.KeyE0, vf.KeyE1, vf.KeyD1}
	nk := 4 + vf.Tier()
	a := &vf.Apk{Before: []byte{1}, CD: []byte{1, 2}}
	signer, listed := keys[vf.Choice("signer", nk)], keys[vf.Choice("listed", nk)]
	var certs []*vf.Key
	var raw [][]byte
	for i, n := 0, vf.Choice("ncerts", 3); i < n; i++ {
		c := keys[vf.Choice("cert", nk)]
		certs, raw = append(certs, c), append(raw, c.Cert())
	}
	if raw == nil {
		raw = [][]byte{}
	}
	al := vf.AlgDefault(signer)
	s := &vf.Signer{Key: signer, Digests: [][]byte{zzDigest(a, vf.SHA256)}, Certs: raw, V3: scheme == 3, Min: 24, Max: 0x7fffffff}
	sd := s.SignedData()
	enc := s.EncodeWith(sd, vf.LP(vf.LE32(al), vf.LP(vf.AlgSign(signer, al, sd))), listed.SPKI())
	id := uint32(vf.IDv2)
	if scheme == 3 {
		id = vf.IDv3
	}
	res, err := zzVerify(a.File(vf.SigningBlock(vf.Pair(id, vf.SchemeBlock(enc)))), 28, 32)
	want := signer == listed && len(certs) > 0 && certs[0] == signer
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(want, "accepted although keys and certificates do not belong together")
		ok := len(res.Certs) == 1 && len(res.Certs[0]) == len(certs)
		for i := 0; ok && i < len(certs); i++ {
			ok = vf.Equal(res.Certs[0][i].Raw, certs[i].Cert())
		}
		vf.Assert(ok, "the reported chain is not the listed one")
	} else {
		vf.Cover("rejected")
		vf.Assert(!want, "refused although everything belongs together")
	}
}

// The lists of algorithms of signatures and digests must be identical.
func VF_P06_lists() {
	scheme := 2 + vf.Choice("scheme", 2)
	k := vf.KeyE0
	a := &vf.Apk{Before: []byte{1}, CD: []byte{1, 2}}
	pick := func(name string) (algs []uint32) {
		for i, n := 0, vf.Choice(name+"n", 4); i < n; i++ {
			switch vf.Choice(name, 3) {
			case 0:
				algs = append(algs, vf.AlgEc256)
			case 1:
				algs = append(algs, vf.AlgEc512)
			default:
				algs = append(algs, zzUnsupported(name+"u"))
			}
		}
		return
	}
	var ds, sigs []byte
	da := pick("d")
	for _, al := range da {
		d := zzDigest(a, vf.SHA256)
		if al == vf.AlgEc512 {
			d = zzDigest(a, vf.SHA512)
		}
		ds = append(ds, vf.LP(vf.LE32(al), vf.LP(d))...)
	}
	var sdk []byte
	if scheme == 3 {
		sdk = vf.Cat(vf.LE32(24), vf.LE32(0x7fffffff))
	}
	sd := vf.Cat(vf.LP(ds), vf.LP(vf.LP(k.Cert())), sdk, vf.LP())
	sa := pick("s")
	supported := false
	for _, al := range sa {
		sig := []byte{1}
		if al == vf.AlgEc256 || al == vf.AlgEc512 {
			supported = true
			sig = vf.AlgSign(k, al, sd)
		}
		sigs = append(sigs, vf.LP(vf.LE32(al), vf.LP(sig))...)
	}
	s := &vf.Signer{Key: k, V3: scheme == 3, Min: 24, Max: 0x7fffffff}
	id := uint32(vf.IDv2)
	if scheme == 3 {
		id = vf.IDv3
	}
	_, err := zzVerify(a.File(vf.SigningBlock(vf.Pair(id, vf.SchemeBlock(s.EncodeWith(sd, sigs, k.SPKI()))))), 28, 32)
	same := len(sa) == len(da)
	for i := 0; i < len(sa) && i < len(da); i++ {
		same = vf.And(same, sa[i] == da[i])
	}
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(same, "accepted with different algorithm lists")
		vf.Assert(supported, "accepted without a supported signature")
	} else {
		vf.Cover("rejected")
		vf.Assert(!vf.And(same, supported), "refused with identical lists")
	}
}

// ---- P07

// Several v2 signers, each one right or wrong in one of several ways.
func VF_P07_all() {
	n := 1 + vf.Choice("n", 3)
	a := &vf.Apk{Before: vf.Bytes("before", 1), CD: []byte{1, 2}}
	right := zzDigest(a, vf.SHA256)
	keys := []*vf.Key{vf.KeyR0, vf.KeyE0, vf.KeyR1, vf.KeyE1}
	var encs [][]byte
	var chains [][]*vf.Key
	good := true
	odd := -1
	if n == 3 && vf.Tier() == 0 {
		odd = vf.Choice("odd", 3)
	}
	for i := 0; i < n; i++ {
		k := keys[i]
		kinds := 10
		if odd >= 0 && i != odd {
			kinds = 2
		}
		chain := []*vf.Key{k}
		if (n < 3 || i == 1 || vf.Tier() > 0) && vf.Bool("long") {
			chain = append(chain, vf.KeyR2)
		}
		var raw [][]byte
		for _, c := range chain {
			raw = append(raw, c.Cert())
		}
		s := &vf.Signer{Key: k, Certs: raw, Digests: [][]byte{right}}
		var enc []byte
		switch vf.Choice("kind", kinds) {
		case 0:
			enc = s.Encode()
		case 6: // signatures and digests by unknown algorithms only
			alg := vf.U32("unknown algorithm")
			vf.Assume(alg > 0x1000)
			s.Algs = []uint32{alg}
			sd := s.SignedData()
			enc = s.EncodeWith(sd, vf.LP(vf.LE32(alg), vf.LP([]byte{1, 2, 3})), k.SPKI())
			good = false
		case 7: // nothing at all, or cut
			s.Certs = nil
			enc = s.Encode()
			enc = enc[:[]int{0, 3, 4, len(enc) - 1}[vf.Choice("left", 4)]]
			good = false
		case 8: // no digests
			s.Digests = nil
			s.Algs = []uint32{}
			sd := s.SignedData()
			enc = s.EncodeWith(sd, vf.LP(vf.LE32(vf.AlgDefault(k)), vf.LP(vf.AlgSign(k, vf.AlgDefault(k), sd))), k.SPKI())
			good = false
		case 9: // no public key
			sd := s.SignedData()
			enc = s.EncodeWith(sd, vf.LP(vf.LE32(vf.AlgDefault(k)), vf.LP(vf.AlgSign(k, vf.AlgDefault(k), sd))), nil)
			good = false
		case 1: // signature over something else
			sd := s.SignedData()
			enc = s.EncodeWith(sd, vf.LP(vf.LE32(vf.AlgDefault(k)), vf.LP(vf.AlgSign(k, vf.AlgDefault(k), vf.Cat(sd, sd)))), k.SPKI())
			good = false
		case 2: // other content digest
			how := 0
			if n < 3 || vf.Tier() > 0 {
				how = vf.Choice("how", 3)
			}
			switch how {
			case 0:
				s.Digests = [][]byte{zzBad("bad", right)}
			case 1:
				s.Digests = [][]byte{right[:vf.Choice("cut", 2)*31]}
			case 2:
				s.Digests = [][]byte{vf.Cat(right, vf.Bytes("more", 1))}
			}
			enc = s.Encode()
			good = false
		case 3: // other public key
			sd := s.SignedData()
			enc = s.EncodeWith(sd, vf.LP(vf.LE32(vf.AlgDefault(k)), vf.LP(vf.AlgSign(k, vf.AlgDefault(k), sd))), vf.KeyR2.SPKI())
			good = false
		case 4: // no certificate
			s.Certs = [][]byte{}
			enc = s.Encode()
			good = false
		case 5: // no signature
			enc = s.EncodeWith(s.SignedData(), nil, k.SPKI())
			good = false
		}
		encs, chains = append(encs, enc), append(chains, chain)
	}
	res, err := zzVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(encs...)))), 24, 27)
	if err != nil {
		vf.Cover("rejected")
		vf.Assert(!good, "refused although every signer is right")
		return
	}
	vf.Cover("accepted")
	vf.Assert(good, "accepted although a signer is wrong")
	vf.Assert(len(res.Certs) == n, "number of reported chains")
	for i, chain := range chains {
		ok := len(res.Certs[i]) == len(chain)
		for j := 0; ok && j < len(chain); j++ {
			ok = vf.Equal(res.Certs[i][j].Raw, chain[j].Cert())
		}
		vf.Assert(ok, "a reported chain is not the signer's")
	}
}

// The number of signers: none, up to ten, and more.
func VF_P07_count() {
	n := vf.Choice("n", 13)
	a := &vf.Apk{Before: []byte{1}, CD: []byte{1, 2}}
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{zzDigest(a, vf.SHA256)}}
	enc := s.Encode()
	var encs [][]byte
	for i := 0; i < n; i++ {
		encs = append(encs, enc)
	}
	res, err := zzVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(encs...)))), 24, 27)
	vf.Assert((err == nil) == (n >= 1 && n <= 10), "number of signers")
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(len(res.Certs) == n, "number of reported chains")
	} else {
		vf.Cover("rejected")
	}
}

// Something after or instead of the list of signers is not overlooked.
func VF_P07_truncated() {
	a := &vf.Apk{Before: []byte{1}, CD: []byte{1, 2}}
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{zzDigest(a, vf.SHA256)}}
	good := vf.LP(s.Encode())
	l := vf.U32("len")
	tail := vf.Cat(vf.LE32(l), vf.Bytes("tail", 4))[:vf.Choice("cut", 9)]
	_, err := zzVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.LP(good, tail)))), 24, 27)
	vf.Assert((err == nil) == (len(tail) == 0), "an incomplete further signer is overlooked")
	vf.Cover("truncated")
}
