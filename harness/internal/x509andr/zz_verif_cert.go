package x509andr

import (
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"math/big"
	"time"

	"github.com/avast/apkverifier/internal/vf"
)

// ---- P34

// zzC is a certificate in parts, all of them DER.
type zzC struct {
	version, serial, inner, issuer, from, to, subject, key, rest, outer, sig []byte
}

func zzRDN(oid string, tag byte, value []byte) []byte {
	return vf.DER(0x31, vf.DER(0x30, vf.OID(oid), vf.DER(tag, value)))
}

func zzBase(k *vf.Key) *zzC {
	return &zzC{version: vf.DER(0xa0, []byte{2, 1, 2}), serial: []byte{2, 1, 5}, inner: vf.AlgID(vf.OIDRSASHA256),
		issuer: vf.DER(0x30, zzRDN("\x55\x04\x03", 12, []byte("issuer"))), from: vf.DER(23, []byte("200101000000Z")), to: vf.DER(23, []byte("300101000000Z")),
		subject: vf.DER(0x30, zzRDN("\x55\x04\x03", 12, []byte("subject"))), key: k.SPKI(), outer: vf.AlgID(vf.OIDRSASHA256), sig: vf.DER(3, []byte{0, 1, 2, 3})}
}

func (c *zzC) tbs() []byte {
	return vf.DER(0x30, c.version, c.serial, c.inner, c.issuer, vf.DER(0x30, c.from, c.to), c.subject, c.key, c.rest)
}

func (c *zzC) der() []byte { return vf.DER(0x30, c.tbs(), c.outer, c.sig) }

func (c *zzC) parse() (*x509.Certificate, error) { return c.parseAs(false) }

// parseAs parses the certificate, alone or after another, and checks the parts that are copied.
func (c *zzC) parseAs(several bool) (*x509.Certificate, error) {
	b := c.der()
	var crt *x509.Certificate
	var err error
	if several {
		o := zzBase(vf.KeyE1)
		var cs []*x509.Certificate
		cs, err = ParseCertificatesForGo(vf.Cat(o.der(), b))
		if err == nil {
			vf.Assert(len(cs) == 2 && string(cs[0].Raw) == string(o.der()), "another number of certificates than there are")
			crt = cs[1]
		}
	} else {
		crt, err = ParseCertificateForGo(b)
	}
	vf.ObsErr("err", err)
	if err != nil {
		vf.Cover("rejected")
		return nil, err
	}
	vf.Cover("accepted")
	vf.Assert(string(crt.Raw) == string(b), "Raw is not the certificate")
	vf.Assert(string(crt.RawTBSCertificate) == string(c.tbs()), "RawTBSCertificate is another part")
	vf.Assert(string(crt.RawIssuer) == string(c.issuer), "RawIssuer is another part")
	vf.Assert(string(crt.RawSubject) == string(c.subject), "RawSubject is another part")
	return crt, nil
}

func zzInt(x *big.Int, b []byte) bool { // two's complement
	v := new(big.Int).SetBytes(b)
	if b[0] >= 0x80 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return x != nil && x.Cmp(v) == 0
}

// Version, serial number and signature.
func VF_P34_numbers() {
	c := zzBase(vf.KeyE0)
	v := 0
	switch vf.Choice("version", 3) {
	case 0:
		c.version = nil
	case 1:
		b := vf.U8("v")
		vf.Assume(b < 0x80)
		v = int(b)
		c.version = vf.DER(0xa0, []byte{2, 1, b})
	case 2:
		v = 2
	}
	n := 1 + vf.Choice("length", 3+vf.Tier())
	serial := vf.Bytes("serial", n)
	minimal := n == 1 || !vf.Or(vf.And(serial[0] == 0, serial[1] < 0x80), vf.And(serial[0] == 0xff, serial[1] >= 0x80))
	c.serial = vf.DER(2, serial)
	pad := vf.Choice("pad", 9)
	sig := vf.Bytes("sig", 2)
	c.sig = vf.DER(3, []byte{byte(pad)}, sig)
	clean := pad < 8 && sig[1]&(1<<uint(pad&7)-1) == 0
	crt, err := c.parseAs(vf.Choice("several", 2) == 1)
	if err != nil {
		vf.Assert(!minimal || !clean, "a certificate with a valid serial number and signature is rejected")
		return
	}
	vf.Assert(clean, "a malformed bit string is accepted")
	vf.Assert(minimal, "a serial number that is not minimal is accepted")
	vf.Assert(crt.Version == v+1, "another version")
	vf.Assert(zzInt(crt.SerialNumber, serial), "another serial number")
	w := (uint(sig[0])<<8 | uint(sig[1])) >> uint(pad)
	vf.Assert(len(crt.Signature) == 2 && crt.Signature[0] == byte(w>>8) && crt.Signature[1] == byte(w), "another signature")
}

// Signature algorithms.
func VF_P34_algorithm() {
	const pk = "\x2a\x86\x48\x86\xf7\x0d\x01\x01"
	algs := []struct {
		oid string
		alg x509.SignatureAlgorithm
	}{{pk + "\x02", x509.MD2WithRSA}, {pk + "\x04", x509.MD5WithRSA}, {pk + "\x05", x509.SHA1WithRSA}, {"\x2b\x0e\x03\x02\x1d", x509.SHA1WithRSA},
		{pk + "\x0b", x509.SHA256WithRSA}, {pk + "\x0c", x509.SHA384WithRSA}, {pk + "\x0d", x509.SHA512WithRSA},
		{"\x2a\x86\x48\xce\x38\x04\x03", x509.DSAWithSHA1}, {"\x60\x86\x48\x01\x65\x03\x04\x03\x02", x509.DSAWithSHA256},
		{"\x2a\x86\x48\xce\x3d\x04\x01", x509.ECDSAWithSHA1}, {"\x2a\x86\x48\xce\x3d\x04\x03\x02", x509.ECDSAWithSHA256}, {"\x2a\x86\x48\xce\x3d\x04\x03\x03", x509.ECDSAWithSHA384}, {"\x2a\x86\x48\xce\x3d\x04\x03\x04", x509.ECDSAWithSHA512},
		{pk + "\x01", x509.UnknownSignatureAlgorithm}, {pk + "\x0e", x509.UnknownSignatureAlgorithm}, {"\x2b\x65\x70", x509.UnknownSignatureAlgorithm}}
	c := zzBase(vf.KeyE0)
	want := x509.UnknownSignatureAlgorithm
	i := vf.Choice("algorithm", len(algs)+2)
	switch {
	case i < len(algs):
		want = algs[i].alg
		if vf.Choice("parameters", 2) == 0 {
			c.inner = vf.AlgID(algs[i].oid)
		} else {
			c.inner = vf.DER(0x30, vf.OID(algs[i].oid))
		}
	case i == len(algs): // the last byte of the identifier is any
		b := vf.U8("last")
		vf.Assume(b < 0x80)
		c.inner = vf.AlgID(pk + string([]byte{b}))
		for _, a := range algs {
			if a.oid[:len(a.oid)-1] == pk && a.oid[len(a.oid)-1] == b {
				want = a.alg
			}
		}
	default: // RSA-PSS
		hs := []string{"\x60\x86\x48\x01\x65\x03\x04\x02\x01", "\x60\x86\x48\x01\x65\x03\x04\x02\x02", "\x60\x86\x48\x01\x65\x03\x04\x02\x03", vf.OIDSHA1}
		h, m := vf.Choice("hash", 4), vf.Choice("mgf hash", 4)
		salt, trailer := vf.U8("salt"), uint8(1)
		vf.Assume(salt < 0x80)
		mgf := pk + "\x08"
		if vf.Choice("mgf", 2) == 1 {
			mgf = pk + "\x09"
		}
		null := vf.Choice("null", 3)
		hid, mid := vf.AlgID(hs[h]), vf.AlgID(hs[m])
		switch null {
		case 1:
			hid = vf.DER(0x30, vf.OID(hs[h]))
		case 2:
			mid = vf.DER(0x30, vf.OID(hs[m]))
		}
		var tr []byte
		if vf.Choice("trailer", 2) == 1 {
			trailer = vf.U8("trailer")
			vf.Assume(trailer < 0x80)
			tr = vf.DER(0xa3, []byte{2, 1, trailer})
		}
		ps := vf.DER(0x30, vf.DER(0xa0, hid), vf.DER(0xa1, vf.DER(0x30, vf.OID(mgf), mid)), vf.DER(0xa2, []byte{2, 1, salt}), tr)
		if vf.Choice("no parameters", 2) == 1 {
			ps = []byte{5, 0}
		} else if null == 0 && h == m && mgf == pk+"\x08" && trailer == 1 {
			switch {
			case h == 0 && salt == 32:
				want = x509.SHA256WithRSAPSS
			case h == 1 && salt == 48:
				want = x509.SHA384WithRSAPSS
			case h == 2 && salt == 64:
				want = x509.SHA512WithRSAPSS
			}
		}
		c.inner = vf.DER(0x30, vf.OID(pk+"\x0a"), ps)
	}
	if i < len(algs) && vf.Choice("outer", 2) == 1 {
		c.outer = vf.AlgID(pk + "\x05") // not protected, so it does not matter
	} else {
		c.outer = c.inner
	}
	crt, err := c.parse()
	vf.Assert(err == nil, "a certificate is rejected because of its signature algorithm")
	if err == nil {
		vf.Assert(crt.SignatureAlgorithm == want, "another signature algorithm")
	}
}

// zzPKIX parses a key by itself: it is the same, and malformed if it is malformed in a certificate.
func zzPKIX(der []byte, want interface{}, good bool) {
	k, err := ParsePKIXPublicKey(der)
	vf.ObsErr("key err", err)
	vf.Assert(good == (err == nil), "a key by itself is read in another way than in a certificate")
	if err != nil || !good {
		return
	}
	_, err = ParsePKIXPublicKey(vf.Cat(der, []byte{5, 0}))
	vf.Assert(err != nil, "a key with something behind it is accepted")
	same := false
	switch k := k.(type) {
	case *rsa.PublicKey:
		w, ok := want.(*rsa.PublicKey)
		same = ok && k.E == w.E && k.N.Cmp(w.N) == 0
	case *dsa.PublicKey:
		w, ok := want.(*dsa.PublicKey)
		same = ok && k.P.Cmp(w.P) == 0 && k.Q.Cmp(w.Q) == 0 && k.G.Cmp(w.G) == 0 && k.Y.Cmp(w.Y) == 0
	case *ecdsa.PublicKey:
		w, ok := want.(*ecdsa.PublicKey)
		same = ok && k.X.Cmp(w.X) == 0 && k.Y.Cmp(w.Y) == 0 && k.Curve == w.Curve
	}
	vf.Assert(same, "a key by itself is another one than in a certificate")
}

// Public keys.
func VF_P34_key() {
	c := zzBase(vf.KeyE0)
	right := true
	bits := func(b []byte) []byte { return vf.DER(3, []byte{0}, b) }
	tail := []byte{}
	if vf.Choice("trailing", 2) == 1 {
		tail, right = []byte{5, 0}, false
	}
	switch vf.Choice("kind", 4) {
	case 0: // RSA: a negative modulus is read as unsigned, as Android does
		n := 1 + vf.Choice("length", 3)
		mod, e := vf.Bytes("n", n), vf.Bytes("e", 1)
		minimal := n == 1 || !vf.Or(vf.And(mod[0] == 0, mod[1] < 0x80), vf.And(mod[0] == 0xff, mod[1] >= 0x80))
		any := byte(0)
		for _, b := range mod {
			any |= b
		}
		vf.Assume(any != 0)
		params := []byte{5, 0}
		if vf.Choice("parameters", 2) == 1 {
			params = nil
		}
		alg := vf.DER(0x30, vf.OID(vf.OIDRSA), params)
		c.key = vf.DER(0x30, alg, bits(vf.Cat(vf.DER(0x30, vf.DER(2, mod), vf.DER(2, e)), tail)))
		crt, err := c.parse()
		right = right && minimal && e[0] > 0 && e[0] < 0x80
		if err != nil {
			zzPKIX(c.key, nil, false)
			vf.Assert(!right, "a certificate with a valid RSA key is rejected")
			return
		}
		vf.Assert(right, "a certificate with a malformed RSA key is accepted")
		zzPKIX(c.key, crt.PublicKey, true)
		k, ok := crt.PublicKey.(*rsa.PublicKey)
		vf.Assert(ok && crt.PublicKeyAlgorithm == x509.RSA, "another kind of key")
		if !ok {
			return
		}
		vf.Assert(k.E == int(e[0]), "another exponent")
		vf.Assert(k.N.Cmp(new(big.Int).SetBytes(mod)) == 0, "another modulus")
		want := c.key
		if mod[0] >= 0x80 {
			want = vf.DER(0x30, vf.AlgID(vf.OIDRSA), bits(vf.DER(0x30, vf.DER(2, []byte{0}, mod), vf.DER(2, e))))
		}
		vf.Assert(string(crt.RawSubjectPublicKeyInfo) == string(want), "RawSubjectPublicKeyInfo is another key")
	case 1: // DSA
		v := vf.Bytes("pqgy", 4)
		alg := vf.DER(0x30, vf.OID(vf.OIDDSA), vf.DER(0x30, vf.DER(2, v[:1]), vf.DER(2, v[1:2]), vf.DER(2, v[2:3])))
		c.key = vf.DER(0x30, alg, bits(vf.Cat(vf.DER(2, v[3:]), tail)))
		crt, err := c.parse()
		for _, b := range v {
			right = vf.And(right, vf.And(b > 0, b < 0x80))
		}
		if err != nil {
			zzPKIX(c.key, nil, false)
			vf.Assert(!right, "a certificate with a valid DSA key is rejected")
			return
		}
		vf.Assert(right, "a certificate with a malformed DSA key is accepted")
		zzPKIX(c.key, crt.PublicKey, true)
		k, ok := crt.PublicKey.(*dsa.PublicKey)
		vf.Assert(ok && crt.PublicKeyAlgorithm == x509.DSA, "another kind of key")
		if ok {
			vf.Assert(zzInt(k.P, v[:1]) && zzInt(k.Q, v[1:2]) && zzInt(k.G, v[2:3]) && zzInt(k.Y, v[3:]), "another DSA key")
		}
		vf.Assert(string(crt.RawSubjectPublicKeyInfo) == string(c.key), "RawSubjectPublicKeyInfo is another part")
	case 2: // EC
		_, spki, _ := vf.DERNext(vf.KeyE0.SPKI())
		_, _, point := vf.DERNext(spki)
		_, point, _ = vf.DERNext(point)
		point = append([]byte(nil), point[1:]...)
		curve := "\x2a\x86\x48\xce\x3d\x03\x01\x07"
		if i := vf.Choice("curve", 5); i > 0 {
			curve, right = []string{"\x2b\x81\x04\x00\x21", "\x2b\x81\x04\x00\x22", "\x2b\x81\x04\x00\x23", "\x2b\x81\x04\x00\x24"}[i-1], false
		}
		switch vf.Choice("point", 3) {
		case 1:
			point, right = point[:len(point)-1], false
		case 2:
			point[0], right = 5, false
		}
		c.key = vf.DER(0x30, vf.DER(0x30, vf.OID(vf.OIDEC), vf.OID(curve)), bits(vf.Cat(point, tail)))
		crt, err := c.parse()
		if err != nil {
			zzPKIX(c.key, nil, false)
			vf.Assert(!right, "a certificate with a valid EC key is rejected")
			return
		}
		vf.Assert(right, "a certificate with a malformed EC key is accepted")
		zzPKIX(c.key, crt.PublicKey, true)
		k, ok := crt.PublicKey.(*ecdsa.PublicKey)
		vf.Assert(ok && crt.PublicKeyAlgorithm == x509.ECDSA, "another kind of key")
		if ok {
			vf.Assert(k.X.Cmp(new(big.Int).SetBytes(point[1:33])) == 0 && k.Y.Cmp(new(big.Int).SetBytes(point[33:])) == 0 && k.Curve.Params().Name == "P-256", "another EC key")
		}
		vf.Assert(string(crt.RawSubjectPublicKeyInfo) == string(c.key), "RawSubjectPublicKeyInfo is another part")
	case 3: // a kind nobody knows
		c.key = vf.DER(0x30, vf.AlgID("\x2b\x65\x70"), bits(vf.Bytes("key", 2)))
		crt, err := c.parse()
		vf.Assert(err == nil, "a certificate with an unknown kind of key is rejected")
		zzPKIX(c.key, nil, false)
		if err == nil {
			vf.Assert(crt.PublicKey == nil && crt.PublicKeyAlgorithm == x509.UnknownPublicKeyAlgorithm, "a key is made up")
			vf.Assert(string(crt.RawSubjectPublicKeyInfo) == string(c.key), "RawSubjectPublicKeyInfo is another part")
		}
	}
}

func zzList(got []string, want ...string) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i] {
			return false
		}
	}
	return true
}

// Names.
func VF_P34_name() {
	c := zzBase(vf.KeyE0)
	types := []struct {
		oid string
		id  int
	}{{"\x55\x04\x03", 3}, {"\x55\x04\x05", 5}, {"\x55\x04\x06", 6}, {"\x55\x04\x07", 7}, {"\x55\x04\x08", 8}, {"\x55\x04\x09", 9}, {"\x55\x04\x0a", 10}, {"\x55\x04\x0b", 11}, {"\x55\x04\x11", 17}, {"\x55\x04\x0c", 12}, {"\x55\x04\x83\x03", -1}, {"\x2a\x03", -2}}
	t0 := vf.Choice("type", len(types))
	t1 := vf.Choice("other type", 3)
	t1 = []int{t0, 0, 6}[t1]
	v0, v1 := vf.Bytes("value", vf.Choice("length", 3)), vf.Bytes("other value", 1)
	for _, b := range v0 {
		vf.Assume(b >= 'a' && b <= 'z')
	}
	vf.Assume(v1[0] >= 'a' && v1[0] <= 'z')
	tag := []byte{12, 19, 22}[(t0+vf.Choice("string", 1+2*vf.Tier()))%3]
	shape := vf.Choice("shape", 5)
	a0, a1 := vf.DER(0x30, vf.OID(types[t0].oid), vf.DER(tag, v0)), vf.DER(0x30, vf.OID(types[t1].oid), vf.DER(12, v1))
	n := vf.DER(0x30, vf.DER(0x31, a0), vf.DER(0x31, a1))
	if shape == 1 {
		n = vf.DER(0x30, vf.DER(0x31, a0, a1))
	}
	issuer := shape == 2 || shape == 3 && len(v0) == 0
	bad := shape == 3
	if bad {
		// The value of one attribute is cut off.
		n = vf.DER(0x30, vf.DER(0x31, vf.DER(0x30, vf.OID(types[t0].oid), []byte{tag, byte(len(v0) + 1)}, v0)))
	}
	if issuer {
		c.issuer = n
	} else {
		c.subject = n
	}
	crt, err := c.parseAs(shape == 4)
	if err != nil {
		vf.Assert(bad, "a certificate with a valid name is rejected")
		return
	}
	vf.Assert(!bad, "a certificate with a malformed name is accepted")
	got, other, text := crt.Subject, crt.Issuer, "issuer"
	if issuer {
		got, other, text = crt.Issuer, crt.Subject, "subject"
	}
	vf.Assert(other.CommonName == text && len(other.Names) == 1, "another name")
	vf.Assert(len(got.Names) == 2, "another number of attributes")
	of := func(id int) []string {
		var r []string
		if types[t0].id == id {
			r = append(r, string(v0))
		}
		if types[t1].id == id {
			r = append(r, string(v1))
		}
		return r
	}
	last := func(id int) string {
		r := of(id)
		if len(r) == 0 {
			return ""
		}
		return r[len(r)-1]
	}
	vf.Assert(got.CommonName == last(3), "another common name")
	vf.Assert(got.SerialNumber == last(5), "another serial number attribute")
	vf.Assert(zzList(got.Country, of(6)...) && zzList(got.Locality, of(7)...) && zzList(got.Province, of(8)...) && zzList(got.StreetAddress, of(9)...), "another place")
	vf.Assert(zzList(got.Organization, of(10)...) && zzList(got.OrganizationalUnit, of(11)...) && zzList(got.PostalCode, of(17)...), "another organization")
	for i, v := range []string{string(v0), string(v1)} {
		if i < len(got.Names) {
			s, ok := got.Names[i].Value.(string)
			vf.Assert(ok && s == v, "another attribute value")
		}
	}
}

// Validity.
func VF_P34_validity() {
	c := zzBase(vf.KeyE0)
	dates := []struct {
		tag  byte
		text string
		want time.Time
		ok   bool
	}{{23, "491231235959Z", time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC), true}, {23, "500101000000Z", time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC), true},
		{24, "20500102030405Z", time.Date(2050, 1, 2, 3, 4, 5, 0, time.UTC), true}, {24, "00010101000000Z", time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC), true}, {24, "99991231235959Z", time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC), true},
		{23, "2001020304Z", time.Date(2020, 1, 2, 3, 4, 0, 0, time.UTC), true}, {23, "200102030405+0130", time.Date(2020, 1, 2, 1, 34, 5, 0, time.UTC), true},
		{23, "201302030405Z", time.Time{}, false}, {23, "210229030405Z", time.Time{}, false}, {23, "200102240405Z", time.Time{}, false}, {24, "200102030405Z", time.Time{}, false}, {23, "", time.Time{}, false}, {4, "200102030405Z", time.Time{}, false}}
	i, j := vf.Choice("from", len(dates)), vf.Choice("to", len(dates))
	c.from, c.to = vf.DER(dates[i].tag, []byte(dates[i].text)), vf.DER(dates[j].tag, []byte(dates[j].text))
	crt, err := c.parse()
	ok := dates[i].ok && dates[j].ok
	if err != nil {
		vf.Assert(!ok, "a certificate with valid dates is rejected")
		return
	}
	vf.Assert(ok, "a certificate with a date that does not exist is accepted")
	vf.Assert(!ok || crt.NotBefore.Equal(dates[i].want), "another beginning")
	vf.Assert(!ok || crt.NotAfter.Equal(dates[j].want), "another end")
}

// Extensions.
func VF_P34_extension() {
	c := zzBase(vf.KeyE0)
	const ce = "\x55\x1d"
	critical := vf.Choice("critical", 2) == 1
	var oid string
	var value []byte
	ok, unhandled := true, false
	var check func(x *x509.Certificate)
	b := vf.Bytes("b", 4)
	switch vf.Choice("kind", 13) {
	case 0: // key usage
		n, pad := 1+vf.Choice("length", 2), vf.Choice("pad", 8)
		bits := b[:n]
		oid, value = ce+"\x0f", vf.DER(3, []byte{byte(pad)}, bits)
		ok = bits[n-1]&(1<<uint(pad)-1) == 0
		check = func(x *x509.Certificate) {
			for i := 0; i < 9; i++ {
				set := i < n*8-pad && bits[i/8]&(0x80>>uint(i%8)) != 0
				vf.Assert((x.KeyUsage&(1<<uint(i)) != 0) == set, "another key usage")
			}
			vf.Assert(x.KeyUsage>>9 == 0, "a key usage that does not exist")
		}
	case 1: // basic constraints
		var ca, length []byte
		isCA, max := false, -1
		if vf.Choice("ca", 2) == 1 {
			ca = vf.DER(1, b[:1])
			ok = vf.Or(b[0] == 0, b[0] == 0xff)
			isCA = b[0] == 0xff
		}
		if vf.Choice("path", 2) == 1 {
			vf.Assume(b[1] < 0x80)
			length = vf.DER(2, b[1:2])
			max = int(b[1])
		}
		oid, value = ce+"\x13", vf.DER(0x30, ca, length)
		check = func(x *x509.Certificate) {
			vf.Assert(x.BasicConstraintsValid && x.IsCA == isCA, "another kind of certificate")
			vf.Assert(x.MaxPathLen == max && x.MaxPathLenZero == (max == 0), "another path length")
		}
	case 2: // alternative names
		var dns, mail []string
		var ips [][]byte
		var names []byte
		n := vf.Choice("names", 3)
		for i := 0; i < n; i++ {
			t := []byte{0x81, 0x82, 0x87, 0x86}[vf.Choice("name", 4)]
			v := b[i : i+1]
			switch t {
			case 0x81:
				mail = append(mail, string(v))
			case 0x82:
				dns = append(dns, string(v))
			case 0x87:
				v = []byte{1, 2, 3, b[i], 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}[:[]int{4, 16, 5}[vf.Choice("address", 3)]]
				ok = ok && len(v) != 5
				ips = append(ips, v)
			}
			names = vf.Cat(names, vf.DER(t, v))
		}
		oid, value = ce+"\x11", vf.DER(0x30, names)
		unhandled = len(dns)+len(mail)+len(ips) == 0
		check = func(x *x509.Certificate) {
			vf.Assert(zzList(x.DNSNames, dns...) && zzList(x.EmailAddresses, mail...) && len(x.IPAddresses) == len(ips), "other alternative names")
			for i := range ips {
				vf.Assert(i >= len(x.IPAddresses) || string(x.IPAddresses[i]) == string(ips[i]), "another address")
			}
		}
	case 3: // subject key identifier
		id := b[:vf.Choice("length", 3)]
		oid, value = ce+"\x0e", vf.DER(4, id)
		check = func(x *x509.Certificate) {
			vf.Assert(string(x.SubjectKeyId) == string(id), "another subject key identifier")
		}
	case 4: // authority key identifier
		id := b[:vf.Choice("length", 3)]
		oid, value = ce+"\x23", vf.DER(0x30, vf.DER(0x80, id))
		check = func(x *x509.Certificate) {
			vf.Assert(string(x.AuthorityKeyId) == string(id) && len(x.SubjectKeyId) == 0, "another authority key identifier")
		}
	case 5: // policies
		vf.Assume(b[0] < 0x80)
		oid, value = ce+"\x20", vf.DER(0x30, vf.DER(0x30, vf.OID("\x2a"+string(b[:1]))), vf.DER(0x30, vf.OID("\x2a\x07")))
		check = func(x *x509.Certificate) {
			p := x.PolicyIdentifiers
			vf.Assert(len(p) == 2 && len(p[0]) == 3 && p[0][0] == 1 && p[0][1] == 2 && p[0][2] == int(b[0]) && p[1].Equal(asn1.ObjectIdentifier{1, 2, 7}), "other policies")
		}
	case 6: // revocation lists
		t := []byte{0x86, 0x82}[vf.Choice("name", 2)]
		oid, value = ce+"\x1f", vf.DER(0x30, vf.DER(0x30, vf.DER(0xa0, vf.DER(0xa0, vf.DER(t, b[:2])))), vf.DER(0x30, vf.DER(0x81, []byte{0, 1})))
		check = func(x *x509.Certificate) {
			if t == 0x86 {
				vf.Assert(zzList(x.CRLDistributionPoints, string(b[:2])), "another distribution point")
			} else {
				vf.Assert(len(x.CRLDistributionPoints) == 0, "a distribution point that is none")
			}
		}
	case 7: // authority information
		m := vf.Choice("method", 3)
		t := []byte{0x86, 0x82}[vf.Choice("name", 2)]
		oid, value = "\x2b\x06\x01\x05\x05\x07\x01\x01", vf.DER(0x30, vf.DER(0x30, vf.OID("\x2b\x06\x01\x05\x05\x07\x30"+string([]byte{byte(1 + m)})), vf.DER(t, b[:2])))
		check = func(x *x509.Certificate) {
			var want []string
			if t == 0x86 {
				want = []string{string(b[:2])}
			}
			o, i := []string(nil), []string(nil)
			if m == 0 {
				o = want
			} else if m == 1 {
				i = want
			}
			vf.Assert(zzList(x.OCSPServer, o...) && zzList(x.IssuingCertificateURL, i...), "other authority information")
		}
	case 8: // extended key usage
		oid, value = ce+"\x25", vf.DER(0x30, vf.OID("\x2b\x06\x01\x05\x05\x07\x03\x03"), vf.OID("\x2a\x03\x04"))
		check = func(x *x509.Certificate) {
			vf.Assert(len(x.UnknownExtKeyUsage) == 1 && x.UnknownExtKeyUsage[0].Equal(asn1.ObjectIdentifier{1, 2, 3, 4}), "other unknown key usages")
		}
	case 9: // name constraints
		which := vf.Choice("which", 3)
		for _, x := range b[:2] {
			vf.Assume(x < 0x80)
		}
		sub := func(t byte, v []byte) []byte { return vf.DER(t, vf.DER(0x30, vf.DER(0x82, v))) }
		var p, e []byte
		var wp, we []string
		if which != 1 {
			p, wp = sub(0xa0, b[:1]), []string{string(b[:1])}
		}
		if which != 0 {
			e, we = sub(0xa1, b[1:2]), []string{string(b[1:2])}
		}
		oid, value = ce+"\x1e", vf.DER(0x30, p, e)
		check = func(x *x509.Certificate) {
			vf.Assert(zzList(x.PermittedDNSDomains, wp...) && zzList(x.ExcludedDNSDomains, we...) && x.PermittedDNSDomainsCritical == critical, "other name constraints")
		}
	case 10: // of X.509 but unknown
		vf.Assume(b[0] < 0x80)
		for _, k := range []byte{14, 15, 17, 19, 30, 31, 32, 35, 37} {
			vf.Assume(b[0] != k)
		}
		oid, value, unhandled = ce+string(b[:1]), vf.Cat(b[1:]), true
	case 11: // unknown
		vf.Assume(b[0] < 0x80)
		oid, value, unhandled = "\x2a\x03\x04"+string(b[:1]), vf.Cat(b[1:]), true
	case 12: // similar to one of X.509
		oid, value, unhandled = []string{ce + "\x0f\x01", "\x55\x1e\x0f", "\x55\x1d", "\x2b\x06\x01\x05\x05\x07\x01"}[vf.Choice("similar", 4)], vf.Cat(b), true
	}
	if check != nil && vf.Choice("trailing", 2) == 1 {
		value, ok = vf.Cat(value, []byte{5, 0}), false
	}
	var cr []byte
	if critical {
		cr = []byte{1, 1, 0xff}
	} else if vf.Choice("explicit", 2) == 1 {
		cr = []byte{1, 1, 0}
	}
	ext := vf.DER(0x30, vf.OID(oid), cr, vf.DER(4, value))
	around := vf.Choice("around", 4)
	second := around == 1
	list := [][]byte{ext}
	if second { // an unknown one before it
		list = [][]byte{vf.DER(0x30, vf.OID("\x2a\x09"), vf.DER(4, []byte{1})), ext}
	}
	c.rest = vf.DER(0xa3, vf.DER(0x30, list...))
	if around == 2 { // unique identifiers
		c.rest = vf.Cat(vf.DER(0x81, []byte{0, 1}), vf.DER(0x82, []byte{0, 2}), c.rest)
	}
	crt, err := c.parseAs(around == 3)
	if err != nil {
		vf.Assert(!ok, "a certificate with a valid extension is rejected")
		return
	}
	vf.Assert(ok, "a certificate with a malformed extension is accepted")
	if check != nil {
		check(crt)
	}
	es := crt.Extensions
	vf.Assert(len(es) == len(list), "another number of extensions")
	if len(es) == len(list) {
		e := es[len(es)-1]
		vf.Assert(string(e.Value) == string(value) && e.Critical == critical && zzOID(e, oid), "another extension")
	}
	u := crt.UnhandledCriticalExtensions
	if critical && unhandled {
		vf.Assert(len(u) == 1 && zzOID(pkix.Extension{Id: u[0]}, oid), "a critical extension nobody understands is not reported")
		vf.Cover("unhandled")
	} else {
		vf.Assert(len(u) == 0, "an extension is reported as unhandled that is not")
	}
}

// zzOID compares with an identifier whose components are below 128, but for the first two.
func zzOID(e pkix.Extension, oid string) bool {
	first := int(oid[0])
	a, b := first/40, first%40
	if first >= 80 {
		a, b = 2, first-80
	}
	id := e.Id
	if len(id) != len(oid)+1 || id[0] != a || id[1] != b {
		return false
	}
	for i := 1; i < len(oid); i++ {
		if id[i+1] != int(oid[i]) {
			return false
		}
	}
	return true
}

// A part that is missing, or something behind a part.
func VF_P34_shape() {
	c := zzBase(vf.KeyE0)
	junk := []byte{vf.U8("tag"), 1, vf.U8("value")}
	vf.Assume(junk[0]&0x1f != 0x1f)
	var b []byte
	switch vf.Choice("at", 10) {
	case 0:
		b = vf.Cat(c.der(), junk)
	case 1:
		b = c.der()
		b = b[:len(b)-1-vf.Choice("cut", 40)]
	case 2:
		c.serial = nil
		b = c.der()
	case 3:
		c.issuer = nil
		b = c.der()
	case 4:
		c.to = nil
		b = c.der()
	case 5:
		c.key = nil
		b = c.der()
	case 6:
		c.sig = nil
		b = c.der()
	case 7:
		c.inner = nil
		b = c.der()
	case 8:
		c.outer = nil
		b = c.der()
	case 9:
		b = []byte{}
	}
	_, err := ParseCertificateForGo(b)
	vf.ObsErr("err", err)
	vf.Assert(err != nil, "a certificate with a missing or additional part is accepted")
	vf.Cover("done")
}
