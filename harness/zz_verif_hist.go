package apkverifier

import (
	"bytes"
	"crypto/x509"

	"github.com/avast/apkverifier/internal/vf"
	"github.com/avast/apkverifier/signingblock"
)

// ---- P33

// zzState is a result as text.
func zzState(res Result, err error) string {
	s := zzErrText(err) + "|" + string(rune('0'+res.SigningSchemeId)) + zzChainText(res.SignerCerts)
	if b := res.SigningBlockResult; b != nil {
		s += "|" + string(rune('0'+b.SchemeId)) + zzChainText(b.Certs)
		for _, e := range b.Errors {
			s += "|" + e.Error()
		}
		for _, w := range b.Warnings {
			s += "|" + w
		}
		for i, id := range []signingblock.BlockId{vf.IDv2, vf.IDv3, vf.IDv31} {
			if v, prs := b.ExtraBlocks[id]; prs {
				s += "|" + string(rune('0'+i)) + string(v)
			}
		}
	}
	return s
}

func zzChainText(chains [][]*x509.Certificate) (s string) {
	for _, c := range chains {
		s += ";"
		for _, x := range c {
			s += "," + string(x.Raw)
		}
	}
	return s
}

// zzEarlier is any call before: of one of the cases, or of the case itself.
func zzEarlier() (res Result, err error) {
	f := zzIOCase().file()
	switch vf.Choice("earlier call", 3) {
	case 0:
		return zzVerify(f, -1, zzMaxInt)
	case 1:
		return zzVerify(f, 1, 25)
	}
	res.SignerCerts, err = ExtractCertsReader(bytes.NewReader(f), nil)
	return res, err
}

// Any file verified after any other call.
func VF_P33_cases() {
	res, err := zzEarlier()
	before := zzState(res, err)
	c := zzIOCase()
	min, max := zzIORange()
	c.check(min, max)
	vf.Assert(zzState(res, err) == before, "a result is changed by a later call")
}

// zzHistorySigner is a block with one signer record.
func zzHistorySigner(k *vf.Key, sf []byte, attrs bool) []byte {
	s := &vf.P7Signer{Key: k, Digest: vf.OIDSHA256}
	if attrs {
		s.Attrs = [][]byte{vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDData)), vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, vf.Digest(vf.SHA256, sf)))}
	}
	return vf.P7([][]byte{k.Cert()}, s.Encode(sf))
}

// A v1-signed APK, then the same with one part altered, then the first again.
func VF_P33_v1() {
	k := []*vf.Key{vf.KeyE0, vf.KeyR0, vf.KeyD1}[vf.Choice("key", 2+vf.Tier())]
	attrs := vf.Choice("attributes", 2) == 1
	mf, sf := zzJar(zzTwoFiles)
	block := zzHistorySigner(k, sf, attrs)
	good := zzArchive(mf, []*zzSig{{name: "META-INF/A", key: k, sf: sf, block: block}}, zzTwoFiles...).File(nil)
	files, mf2, sf2, block2 := zzTwoFiles, mf, sf, block
	switch vf.Choice("part", 7) {
	case 0: // any byte of the signature file's main part
		sf2 = zzXor("change", sf, vf.Choice("position", 20)*9)
	case 1: // a file
		files = append([]vf.Member{{Name: files[0].Name, Data: zzXor("data", files[0].Data, 0)}}, files[1:]...)
	case 2: // the signature
		i := vf.Choice("position", 8)
		block2 = zzXor("change", block, len(block)-1-i)
	case 3: // another key's signature
		block2 = zzHistorySigner(vf.KeyE1, sf, attrs)
		block2 = vf.P7([][]byte{k.Cert()}, (&vf.P7Signer{Key: k, Sig: (&vf.P7Signer{Key: vf.KeyE1}).Sign(sf)}).Encode(sf))
	case 4: // a file more
		files = append([]vf.Member{{Name: "g", Data: []byte{1}}}, files...)
	case 5: // a manifest of other files
		mf2, _ = zzJar(zzTwoFiles[:1])
	case 6: // no signature
		block2 = nil
	}
	bad := zzArchive(mf2, []*zzSig{{name: "META-INF/A", key: k, sf: sf2, block: block2}}, files...).File(nil)
	if block2 == nil {
		bad = vf.Archive(append([]vf.Member{{Name: "META-INF/MANIFEST.MF", Data: mf}, {Name: "META-INF/A.SF", Data: sf}}, files...)...).File(nil)
	}
	zzBeforeAndAfter(good, bad, k, 1, 25)
}

// zzBeforeAndAfter verifies a right file, then a wrong one, then the right one, or starts with the wrong one.
func zzBeforeAndAfter(good, bad []byte, k *vf.Key, min, max int32) {
	path := ""
	verify := zzVerify
	if vf.Choice("by path", 2) == 1 { // the same path and the same reader for all
		path = vf.File(good)
		verify = func(f []byte, min, max int32) (Result, error) {
			vf.Overwrite(path, f)
			return VerifyWithSdkVersion(path, nil, min, max)
		}
	}
	if vf.Choice("wrong first", 2) == 0 {
		res, err := verify(good, min, max)
		vf.ObsErr("err", err)
		vf.Assert(err == nil && zzOnly(res, k), "a valid APK is rejected")
		before := zzState(res, err)
		_, err = verify(bad, min, max)
		vf.Assert(err != nil, "an invalid APK is accepted after a valid one")
		vf.Assert(zzState(res, nil) == before, "a result is changed by a later call")
		zzScribble(res)
	} else {
		_, err := verify(bad, min, max)
		vf.Assert(err != nil, "an invalid APK is accepted")
	}
	res, err := verify(good, min, max)
	vf.Assert(err == nil && zzOnly(res, k), "a valid APK is rejected after an invalid one, or with other certificates")
	if path != "" {
		vf.Remove(path)
	}
	vf.Cover("done")
}

// zzScribble changes what was handed out.
func zzScribble(res Result) {
	for _, c := range res.SignerCerts {
		for _, x := range c {
			for i := range x.Raw {
				x.Raw[i] = 0
			}
			x.RawIssuer, x.SerialNumber, x.PublicKey = nil, nil, nil
		}
	}
	for i := range res.SignerCerts {
		res.SignerCerts[i] = nil
	}
	if b := res.SigningBlockResult; b != nil {
		for id, v := range b.ExtraBlocks {
			for i := range v {
				v[i] = 0
			}
			delete(b.ExtraBlocks, id)
		}
		b.Certs = nil
	}
}

// Block signatures, then the same with any one byte of digests, signed data or signature altered.
func VF_P33_block() {
	scheme := 2 + vf.Choice("scheme", 2)
	k := []*vf.Key{vf.KeyE0, vf.KeyR0, vf.KeyD1}[vf.Choice("key", 2+vf.Tier())]
	a := vf.Archive(vf.Member{Name: "f", Data: []byte("data")})
	d := vf.ChunkedDigest(vf.SHA256, a.Sections()...)
	s := &vf.Signer{Key: k, Digests: [][]byte{d}, V3: scheme == 3, Min: 24, Max: zzMaxInt}
	sd := s.SignedData()
	sig := vf.AlgSign(k, vf.AlgDefault(k), sd)
	id := uint32(vf.IDv2)
	if scheme == 3 {
		id = vf.IDv3
	}
	mk := func(a *vf.Apk, sd, sig, key []byte) []byte {
		e := s.EncodeWith(sd, vf.LP(vf.LE32(vf.AlgDefault(k)), vf.LP(sig)), key)
		return a.File(vf.SigningBlock(vf.Pair(id, vf.SchemeBlock(e)), vf.Pair(0x12345678, []byte{1, 2})))
	}
	good := mk(a, sd, sig, k.SPKI())
	var bad []byte
	switch vf.Choice("part", 5) {
	case 0:
		bad = mk(a, zzXor("change", sd, vf.Choice("position", len(sd)/13)*13), sig, k.SPKI())
	case 1:
		bad = mk(a, sd, zzXor("change", sig, vf.Choice("position", len(sig)/3)*3), k.SPKI())
	case 2:
		p := k.SPKI()
		bad = mk(a, sd, sig, zzXor("change", p, vf.Choice("position", len(p)/13)*13))
	case 3: // other content under the same signature
		bad = mk(vf.Archive(vf.Member{Name: "f", Data: []byte("date")}), sd, sig, k.SPKI())
	case 4: // another key's signature
		o := vf.KeyE1
		bad = mk(a, sd, vf.AlgSign(o, vf.AlgDefault(o), sd), k.SPKI())
	}
	zzBeforeAndAfter(good, bad, k, 28, 32)
}

// APKs signed by keys whose certificates have the same names and serial number, one after the other.
func VF_P33_twins() {
	pairs := [][2]*vf.Key{{vf.KeyE0, vf.KeyE1}, {vf.KeyR0, vf.KeyR1}}
	ks := pairs[vf.Choice("keys", 2)]
	certs := [2][]byte{ks[0].Cert(), vf.WithKey(ks[0].Cert(), ks[0].SPKI(), ks[1].SPKI())}
	wrong := vf.Choice("wrong", 2) == 1 // the other's key for the first one's certificate
	mf, sf := zzJar(zzTwoFiles)
	block := vf.Choice("block", 2) == 1
	file := func(c, k int) []byte {
		if !block {
			b := vf.P7([][]byte{certs[c]}, (&vf.P7Signer{Key: ks[k], Cert: certs[c]}).Encode(sf))
			return zzArchive(mf, []*zzSig{{name: "META-INF/A", key: ks[k], sf: sf, block: b}}, zzTwoFiles...).File(nil)
		}
		a := vf.Archive(zzTwoFiles...)
		s := &vf.Signer{Key: ks[k], Digests: [][]byte{vf.ChunkedDigest(vf.SHA256, a.Sections()...)}, Certs: [][]byte{certs[c]}}
		return a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode()))))
	}
	min := int32(1)
	if block {
		min = 24
	}
	for n := 0; n < 3; n++ {
		c := n & 1
		k := c
		if wrong && n == 1 {
			c = 0
		}
		f := file(c, k)
		res, err := zzVerify(f, min, 25)
		vf.ObsErr("err", err)
		vf.Assert((err == nil) == (c == k), "the verdict depends on earlier calls")
		vf.Assert(err != nil || zzChainText(res.SignerCerts) == ";,"+string(certs[c]), "the certificate depends on earlier calls")
		if c == k {
			got, err := ExtractCertsReader(bytes.NewReader(f), nil)
			vf.Assert(err == nil && zzChainText(got) == ";,"+string(certs[c]), "the extracted certificate depends on earlier calls")
		}
	}
	vf.Cover("done")
}
