package apkverifier

import (
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P15

var zzTwoFiles = zzFiles[:2]

// zzXor is b with its first byte changed by any non-zero value.
func zzXor(name string, b []byte, at int) []byte {
	r := append([]byte(nil), b...)
	d := vf.U8(name)
	vf.Assume(d != 0)
	r[at] ^= d
	return r
}

// zzRecord is a signer record right or wrong in one of several ways.
// right tells whether it verifies on platforms up to max; fatal whether it spoils the whole block.
func zzRecord(tag string, k, other *vf.Key, sf []byte, kind int, max int32) (rec []byte, right, fatal bool) {
	s := &vf.P7Signer{Key: k, Digest: vf.OIDSHA256}
	ctype := vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDData))
	dig := vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, vf.Digest(vf.SHA256, sf)))
	attrs := [][]byte{ctype, dig}
	switch kind {
	case 0: // direct
		return s.Encode(sf), true, false
	case 1: // with signed attributes
		s.Attrs = attrs
		return s.Encode(sf), true, false
	case 2: // content type of something else
		s.Attrs = [][]byte{vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDSignedData)), dig}
		return s.Encode(sf), max < 24, false
	case 3: // no content type
		s.Attrs = [][]byte{dig}
		return s.Encode(sf), max < 24, max >= 24
	case 4: // altered signature
		sig := s.Sign(sf)
		s.Sig = zzXor(tag+" sig", sig, len(sig)-1)
	case 5: // of another key
		s.Sig = (&vf.P7Signer{Key: other}).Sign(sf)
	case 6: // of something else
		s.Sig = s.Sign([]byte("other"))
	case 7: // digest of something else
		s.Attrs = [][]byte{ctype, vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, zzXor(tag+" digest", vf.Digest(vf.SHA256, sf), vf.Choice(tag+" at", 2)*31)))}
	case 8: // attributes exchanged after signing
		s.Attrs = [][]byte{ctype, vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, vf.Digest(vf.SHA256, []byte("other"))))}
		s.Sig = s.Sign(nil)
		s.Attrs = attrs
	case 9: // attributes not signed
		s.Sig = s.Sign(sf)
		s.Attrs = attrs
	case 10: // attributes signed as they are tagged in the block
		s.Sig = s.Sign(vf.DER(0xa0, attrs...))
		s.Attrs = attrs
	case 11: // no digest
		s.Attrs = [][]byte{ctype}
		return s.Encode(sf), false, true
	case 12: // an issuer no certificate has
		s.Issuer, _, _ = vf.CertParts(vf.KeyR3.Cert())
		return s.Encode(sf), false, true
	case 13: // a serial number no certificate has
		s.Serial = []byte{2, 1, 77}
		return s.Encode(sf), false, true
	case 14: // an algorithm nobody knows
		s.Enc = vf.OIDRSAPSS
		return s.Encode(sf), false, true
	case 15: // names the other certificate
		s.Cert = other.Cert()
	case 16: // truncated digest
		s.Attrs = [][]byte{ctype, vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, vf.Digest(vf.SHA256, sf)[:31]))}
	case 17: // unauthenticated attributes only
		s.Unauth = vf.DER(0xa1, attrs...)
		return s.Encode(sf), true, false
	case 18: // an empty signature
		s.Sig = []byte{}
	}
	return s.Encode(sf), false, false
}

const zzRecords = 19

// One or two signer records of two keys, each right or wrong in any way.
func VF_P15_records() {
	min, max := int32(1), int32(23)
	if vf.Choice("from N", 3) > 0 {
		max = 25
		if vf.Choice("only N", 2) == 1 {
			min = 24
		}
	}
	k0, k1 := vf.KeyE0, vf.KeyE1
	if vf.Tier() > 0 && vf.Choice("keys", 2) == 1 {
		k0, k1 = vf.KeyR0, vf.KeyE1
	}
	mf, sf := zzJar(zzTwoFiles)
	certs := [][]byte{k0.Cert(), k1.Cert()}
	if vf.Choice("certs", 2) == 1 {
		certs = [][]byte{k1.Cert(), k0.Cert()}
		// The ends of the ranges in which platforms agree.
		if min == 1 {
			min = 23
		}
		if max == 25 {
			max = 24
		}
	}
	n := 1 + vf.Choice("records", 2)
	keys := [][2]*vf.Key{{k0, k1}, {k1, k0}}
	var recs [][]byte
	var first *vf.Key
	fatal := false
	for i := 0; i < n; i++ {
		ks := keys[0]
		if i == 1 && vf.Choice("second key", 2) == 1 {
			ks = keys[1]
		}
		kind := vf.Choice("kind", zzRecords)
		if n == 2 && i == 0 && vf.Tier() == 0 {
			vf.Assume(kind != 3 && kind != 8 && kind != 10 && kind != 13 && kind != 16 && kind != 17)
		}
		r, right, bad := zzRecord("r", ks[0], ks[1], sf, kind, max)
		recs = append(recs, r)
		if i > 0 && min < 24 {
			continue
		}
		fatal = fatal || bad
		if right && first == nil {
			first = ks[0]
		}
	}
	f := zzArchive(mf, []*zzSig{{name: "META-INF/A", key: k0, sf: sf, block: vf.P7(certs, recs...)}}, zzTwoFiles...).File(nil)
	res, err := zzVerify(f, min, max)
	vf.ObsErr("err", err)
	if err == nil {
		vf.Assert(first != nil, "a signer without a valid signature is accepted")
		vf.Assert(first == nil || zzOnly(res, first), "a certificate is reported whose key did not sign")
		vf.Cover("accepted")
	} else {
		vf.Assert(first == nil || fatal, "a valid signature is rejected")
		vf.Cover("rejected")
	}
}

// Two certificates with any of some serial numbers, of one issuer or not, and a record naming another or one of them.
func VF_P15_serial() {
	k, other := vf.KeyE0, vf.KeyE1
	serials := [][]byte{{5}, {0xfb}, {0, 0xfb}, {1, 5}, {1, 0, 0, 0, 0, 0, 0, 0, 5}, {0}}
	sa, sb := serials[vf.Choice("serial", 5)], serials[vf.Choice("other serial", 5)]
	_, _, na := vf.CertParts(k.Cert())
	_, _, nb := vf.CertParts(other.Cert())
	vf.Assume(len(na) == len(nb))
	ca, cb := vf.Reserial(k.Cert(), sa), vf.Reserial(other.Cert(), sb)
	same := vf.Choice("same issuer", 2) == 1
	if same {
		cb = vf.Reissue(cb, na, na)
	}
	certs := [][]byte{ca, cb}
	if vf.Choice("order", 2) == 1 {
		certs = [][]byte{cb, ca}
	}
	var s []byte
	if i := vf.Choice("named", len(serials)+1); i < len(serials) {
		s = serials[i]
	} else {
		s = append([]byte(nil), sa...)
		s[len(s)-1] = vf.U8("last byte")
	}
	mf, sf := zzJar(zzTwoFiles)
	rec := &vf.P7Signer{Key: k, Cert: ca, Issuer: na, Serial: vf.DER(2, s)}
	block := vf.P7(certs, rec.Encode(sf))
	res, err := zzVerify(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: k, sf: sf, block: block}}, zzTwoFiles...).File(nil), 1, 25)
	vf.ObsErr("err", err)
	isA, isB := string(s) == string(sa), same && string(s) == string(sb)
	if isA && isB {
		isA = string(certs[0]) == string(ca)
	}
	vf.Assert(err != nil || isA, "a certificate is used that the record does not name")
	vf.Assert(err == nil || !isA, "a signature of the named certificate is rejected")
	if err == nil {
		vf.Assert(len(res.SignerCerts) == 1 && len(res.SignerCerts[0]) > 0 && string(res.SignerCerts[0][0].Raw) == string(ca), "a certificate is reported that the record does not name")
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

// Extensions of the signer's certificate: a critical one nobody understands makes the signature invalid.
func VF_P15_critical() {
	k := []*vf.Key{vf.KeyE0, vf.KeyR0, vf.KeyD1}[vf.Choice("key", 1+2*vf.Tier())]
	var exts []byte
	bad, usage := false, false
	for n := 1 + vf.Choice("extensions", 3); n > 0; n-- {
		oid, value := "\x2a\x03\x04", vf.Bytes("value", 1)
		var flag []byte
		switch vf.Choice("critical", 3) {
		case 1:
			flag = []byte{1, 1, 0xff}
		case 2:
			flag = []byte{1, 1, 0}
		}
		if !usage && vf.Choice("known", 2) == 1 {
			oid, value, usage = "\x55\x1d\x0f", []byte{3, 2, 7, 0x80}, true
		} else if len(flag) > 0 && flag[2] != 0 {
			bad = true
		}
		exts = vf.Cat(exts, vf.DER(0x30, vf.OID(oid), flag, vf.DER(4, value)))
	}
	cert := vf.Reextend(k.Cert(), exts)
	certs := [][]byte{cert}
	if vf.Choice("others", 2) == 1 {
		certs = [][]byte{vf.KeyE1.Cert(), cert}
	}
	mf, sf := zzJar(zzTwoFiles)
	block := vf.P7(certs, (&vf.P7Signer{Key: k, Cert: cert}).Encode(sf))
	min := []int32{1, 24}[vf.Choice("min", 2)]
	res, err := zzVerify(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: k, sf: sf, block: block}}, zzTwoFiles...).File(nil), min, 25)
	vf.ObsErr("err", err)
	vf.Assert(bad == (err != nil), "a critical extension nobody understands is ignored, or another one is not")
	if err == nil {
		vf.Assert(len(res.SignerCerts) == 1 && len(res.SignerCerts[0]) > 0 && string(res.SignerCerts[0][0].Raw) == string(cert), "another certificate is reported")
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

// A signature with a byte before or behind it, or without its first or last byte.
func VF_P15_length() {
	k := []*vf.Key{vf.KeyR0, vf.KeyE0, vf.KeyD0, vf.KeyD1}[vf.Choice("key", 4)]
	mf, sf := zzJar(zzTwoFiles)
	s := &vf.P7Signer{Key: k, Digest: vf.OIDSHA256}
	if vf.Choice("attributes", 2) == 1 {
		s.Attrs = [][]byte{vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDData)), vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, vf.Digest(vf.SHA256, sf)))}
	}
	sig := s.Sign(sf)
	extra := []byte{vf.U8("extra")}
	switch vf.Choice("change", 6) {
	case 0:
		s.Sig = vf.Cat(extra, sig)
	case 1:
		s.Sig = vf.Cat(sig, extra)
	case 2:
		s.Sig = vf.Cat(sig, sig)
	case 3:
		vf.Assume(sig[0] != 0)
		s.Sig = sig[1:]
	case 4:
		s.Sig = sig[:len(sig)-1]
	case 5:
		s.Sig = vf.Cat(make([]byte, len(sig)), sig)
	}
	_, err := zzVerify(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: k, sf: sf, block: vf.P7([][]byte{k.Cert()}, s.Encode(sf))}}, zzTwoFiles...).File(nil), 1, 25)
	vf.ObsErr("err", err)
	vf.Assert(err != nil, "a signature of another length is accepted")
	vf.Cover("done")
}

// Every byte of a signature file replaced by any other value.
func VF_P15_sf() {
	k := []*vf.Key{vf.KeyE0, vf.KeyR0, vf.KeyD1}[vf.Choice("key", 1+2*vf.Tier())]
	mf, sf := zzJar(zzTwoFiles)
	s := &vf.P7Signer{Key: k, Digest: vf.OIDSHA256}
	if vf.Choice("attributes", 2) == 1 {
		s.Attrs = [][]byte{vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDData)), vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, vf.Digest(vf.SHA256, sf)))}
	}
	block := vf.P7([][]byte{k.Cert()}, s.Encode(sf))
	n := len(sf)
	if vf.Tier() == 0 {
		n = 190 // main part
	}
	bad := zzXor("change", sf, vf.Choice("position", n))
	_, err := zzVerify(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: k, sf: bad, block: block}}, zzTwoFiles...).File(nil), 1, 25)
	vf.ObsErr("err", err)
	vf.Assert(err != nil, "an altered signature file is accepted")
	vf.Cover("done")
}

// Digest and signature algorithms of a record against key type and the hash really signed.
func VF_P15_algorithms() {
	keys := []*vf.Key{vf.KeyR0, vf.KeyE0, vf.KeyD0, vf.KeyD1}
	k := keys[vf.Choice("key", 4)]
	mf, sf := zzJar(zzTwoFiles)
	digs := []string{vf.OIDSHA256, vf.OIDSHA1, vf.OIDSHA384, vf.OIDSHA512, vf.OIDMD5, "\x2a\x03"}
	encs := []string{vf.OIDRSA, vf.OIDRSASHA1, vf.OIDRSASHA256, vf.OIDDSA, vf.OIDDSASHA1, vf.OIDDSASHA256, vf.OIDEC, vf.OIDECSHA256, vf.OIDRSAPSS, "\x2a\x03"}
	di, ei := vf.Choice("digest", len(digs)), vf.Choice("algorithm", len(encs))
	d, e := digs[di], encs[ei]
	hd := []int{vf.SHA256, vf.SHA1, vf.SHA384, vf.SHA512, vf.MD5, 0}[di]
	typ := []string{"rsa", "rsa", "rsa", "dsa", "dsa", "dsa", "ec", "ec", "", ""}[ei]
	he := []int{hd, vf.SHA1, vf.SHA256, hd, vf.SHA1, vf.SHA256, hd, vf.SHA256, 0, 0}[ei]
	h := []int{vf.SHA256, vf.SHA1, vf.SHA384, vf.SHA512, vf.MD5}[vf.Choice("signed with", 2+3*vf.Tier())]
	if hd != 0 && vf.Tier() == 0 && vf.Choice("same", 2) == 1 {
		h = hd
	}
	s := &vf.P7Signer{Key: k, Digest: d, Enc: e, Sig: vf.Sign(k, "pkcs1", h, sf)}
	_, err := zzVerify(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: k, sf: sf, block: vf.P7([][]byte{k.Cert()}, s.Encode(sf))}}, zzTwoFiles...).File(nil), 1, 25)
	vf.ObsErr("err", err)
	right := typ == k.Type && hd != 0 && hd == he && hd == h
	vf.Assert(right || err != nil, "a signature by another algorithm than named is accepted")
	// The combinations Android supports.
	supported := typ == "rsa" || hd == vf.SHA1 || hd == vf.SHA256 || typ == "ec" && hd != vf.MD5
	vf.Assert(!right || !supported || err == nil, "a valid signature by a supported algorithm is rejected")
	if right {
		vf.Cover("right")
	}
}

// Certificates issued by others: the signer's comes first and the chain ends, whatever the names are.
func VF_P15_chain() {
	k, ca, root := vf.KeyE0, vf.KeyR1, vf.KeyR2
	_, _, n0 := vf.CertParts(k.Cert())
	_, _, n1 := vf.CertParts(ca.Cert())
	_, _, n2 := vf.CertParts(root.Cert())
	names := [][]byte{n0, n1, n2}
	i0, i1, i2 := vf.Choice("issuer 0", 3), vf.Choice("issuer 1", 3), vf.Choice("issuer 2", 3)
	// all names must have one length for this
	vf.Assume(len(n0) == len(n1) && len(n1) == len(n2))
	subj := []int{0, 1, 2}
	if vf.Choice("same subject", 2) == 1 {
		subj[2] = 1
		vf.Assume(i0 == 1 || vf.Tier() > 0)
	}
	cs := [][]byte{vf.Reissue(k.Cert(), names[i0], n0), vf.Reissue(ca.Cert(), names[i1], n1), vf.Reissue(root.Cert(), names[i2], names[subj[2]])}
	perm := [][]int{{0, 1, 2}, {1, 0, 2}, {2, 1, 0}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}}[vf.Choice("order", 6)]
	mf, sf := zzJar(zzTwoFiles)
	s := &vf.P7Signer{Key: k, Cert: cs[0]}
	block := vf.P7([][]byte{cs[perm[0]], cs[perm[1]], cs[perm[2]]}, s.Encode(sf))
	res, err := zzVerify(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: k, sf: sf, block: block}}, zzTwoFiles...).File(nil), 1, 25)
	vf.ObsErr("err", err)
	vf.Assert(err == nil, "a signature with a certificate issued by another is rejected")
	if err != nil {
		return
	}
	// The chain follows issuers (the first certificate with the name) up to a self-issued certificate or the first
	// certificate met again.
	iss := []int{i0, i1, i2}
	var want []int
	for c := 0; c >= 0; {
		want = append(want, c)
		if iss[c] == subj[c] || len(want) > 3 {
			break
		}
		next := -1
		for _, d := range perm {
			if next < 0 && subj[d] == iss[c] {
				next = d
			}
		}
		c = next
	}
	ch := res.SignerCerts
	ok := len(ch) == 1 && len(ch[0]) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = string(ch[0][i].Raw) == string(cs[want[i]])
	}
	vf.ObsInt("chain", len(ch[0]))
	vf.Assert(ok, "the reported chain is not the one the issuers name")
	vf.Cover("done")
}

// zzInDates reports whether position i is inside an ASN.1 time.
func zzInDates(b []byte, i int) bool {
	for j := i - 16; j <= i; j++ {
		for _, n := range []int{13, 15} {
			if j >= 0 && j+2+n <= len(b) && int(b[j]) == 0x17+(n-13)/2 && int(b[j+1]) == n && b[j+1+n] == 'Z' && i < j+2+n {
				return true
			}
		}
	}
	return false
}

func zzIndex(b, s []byte) int {
	for i := 0; i+len(s) <= len(b); i++ {
		if vf.Equal(b[i:i+len(s)], s) {
			return i
		}
	}
	return -1
}

// zzHeads marks the tags and lengths of a DER encoding.
func zzHeads(b []byte) []bool {
	r := make([]bool, len(b))
	for i := 0; i+1 < len(b); {
		r[i], r[i+1] = true, true
		n, h := int(b[i+1]), 2
		if n >= 0x80 {
			for n, h = 0, 2; h < 2+int(b[i+1]&0x7f); h++ {
				r[i+h] = true
				n = n<<8 | int(b[i+h])
			}
		}
		if b[i]&0x20 != 0 {
			n = 0
		}
		i += h + n
	}
	return r
}

// zzChange is b with the byte at pos replaced by any other value; tags and lengths by some (by each in the thorough tier).
func zzChange(name string, b []byte, pos int) []byte {
	if !zzHeads(b)[pos] {
		return zzXor(name, b, pos)
	}
	r := append([]byte(nil), b...)
	if vf.Tier() > 0 {
		r[pos] = byte(vf.Choice(name+" head", 256))
	} else {
		o := b[pos]
		r[pos] = []byte{0, 0x1f, 0x80, 0x84, o + 1, o - 1}[vf.Choice(name+" head", 6)]
	}
	vf.Assume(r[pos] != b[pos])
	return r
}

// Every byte of a PKCS#7 block replaced by any other value: whatever is accepted is reported with the key that signed,
// and a change of signature, signed attributes or key is never accepted.
func VF_P15_byte() {
	k := vf.KeyE0
	mf, sf := zzJar(zzTwoFiles)
	s := &vf.P7Signer{Key: k, Digest: vf.OIDSHA256}
	sig := []byte(nil)
	var attrs []byte
	if vf.Choice("attributes", 2) == 1 {
		s.Attrs = [][]byte{vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDData)), vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, vf.Digest(vf.SHA256, sf)))}
		attrs = vf.Cat(s.Attrs...)
	}
	sig = s.Sign(sf)
	s.Sig = sig
	block := vf.P7([][]byte{k.Cert()}, s.Encode(sf))
	si := len(block) - len(sig)
	ai, ki := -1, zzIndex(block, k.SPKI())
	if attrs != nil {
		ai = zzIndex(block, attrs)
	}
	pos := vf.Choice("position", len(block))
	if zzInDates(block, pos) || vf.Tier() == 0 && attrs != nil && pos < ai-64 { // the rest is the same in both variants
		vf.Assume(false)
	}
	b := zzChange("change", block, pos)
	res, err := zzVerify(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: k, sf: sf, block: b}}, zzTwoFiles...).File(nil), 24, 25)
	vf.ObsErr("err", err)
	if err != nil {
		vf.Cover("rejected")
		return
	}
	content := !zzHeads(block)[pos] // another tag or length may mean the same in BER
	vf.Assert(!content || pos < si, "an altered signature is accepted")
	vf.Assert(!content || ai < 0 || pos < ai || pos >= ai+len(attrs), "altered signed attributes are accepted")
	vf.Assert(!content || pos < ki || pos >= ki+len(k.SPKI()), "an altered key is accepted")
	ok := len(res.SignerCerts) == 1 && len(res.SignerCerts[0]) >= 1
	vf.Assert(ok, "no certificate is reported")
	if ok {
		got := res.SignerCerts[0][0].RawSubjectPublicKeyInfo
		point := k.SPKI()[len(k.SPKI())-65:] // the key without its framing
		vf.Assert(zzIndex(got, point) >= 0, "a certificate of another key is reported")
	}
	vf.Cover("accepted")
}
