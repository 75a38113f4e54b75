package vf

import "encoding/base64"

// Builders of v1 (JAR) signatures.

// DER encodes one definite-length object.
func DER(tag byte, parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	h := []byte{tag}
	switch {
	case n < 128:
		h = append(h, byte(n))
	case n < 256:
		h = append(h, 0x81, byte(n))
	default:
		h = append(h, 0x82, byte(n>>8), byte(n))
	}
	return Cat(append([][]byte{h}, parts...)...)
}

// DERNext splits the first object off b: its header length, its content and what follows.
func DERNext(b []byte) (hdr int, content, rest []byte) {
	hdr = 2
	n := int(b[1])
	if n >= 0x80 {
		k := n & 0x7f
		n = 0
		for i := 0; i < k; i++ {
			n = n<<8 | int(b[2+i])
		}
		hdr += k
	}
	return hdr, b[hdr : hdr+n], b[hdr+n:]
}

// Object identifiers (contents).
const (
	OIDData       = "\x2a\x86\x48\x86\xf7\x0d\x01\x07\x01"
	OIDSignedData = "\x2a\x86\x48\x86\xf7\x0d\x01\x07\x02"
	OIDCType      = "\x2a\x86\x48\x86\xf7\x0d\x01\x09\x03"
	OIDMsgDigest  = "\x2a\x86\x48\x86\xf7\x0d\x01\x09\x04"
	OIDSigTime    = "\x2a\x86\x48\x86\xf7\x0d\x01\x09\x05"
	OIDSHA1       = "\x2b\x0e\x03\x02\x1a"
	OIDSHA256     = "\x60\x86\x48\x01\x65\x03\x04\x02\x01"
	OIDSHA384     = "\x60\x86\x48\x01\x65\x03\x04\x02\x02"
	OIDSHA512     = "\x60\x86\x48\x01\x65\x03\x04\x02\x03"
	OIDMD5        = "\x2a\x86\x48\x86\xf7\x0d\x02\x05"
	OIDRSA        = "\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01"
	OIDRSASHA1    = "\x2a\x86\x48\x86\xf7\x0d\x01\x01\x05"
	OIDRSASHA256  = "\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b"
	OIDRSAPSS     = "\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0a"
	OIDDSA        = "\x2a\x86\x48\xce\x38\x04\x01"
	OIDDSASHA1    = "\x2a\x86\x48\xce\x38\x04\x03"
	OIDDSASHA256  = "\x60\x86\x48\x01\x65\x03\x04\x03\x02"
	OIDEC         = "\x2a\x86\x48\xce\x3d\x02\x01"
	OIDECSHA256   = "\x2a\x86\x48\xce\x3d\x04\x03\x02"
)

func OID(o string) []byte { return DER(6, []byte(o)) }

// AlgID is an AlgorithmIdentifier with NULL parameters.
func AlgID(o string) []byte { return DER(0x30, OID(o), []byte{5, 0}) }

// CertParts are the DER issuer name, DER serial number and DER subject of a certificate.
func CertParts(cert []byte) (issuer, serial, subject []byte) {
	_, c, _ := DERNext(cert)
	_, t, _ := DERNext(c)
	next := func() []byte {
		_, _, rest := DERNext(t)
		r := t[:len(t)-len(rest)]
		t = rest
		return r
	}
	if t[0] == 0xa0 {
		next()
	}
	serial = next()
	next()
	issuer = next()
	next()
	subject = next()
	return
}

// Reissue is cert with other names of the same lengths; its signature is not valid any more.
func Reissue(cert, issuer, subject []byte) []byte {
	r := append([]byte(nil), cert...)
	oi, _, os := CertParts(cert)
	i := index(r, oi)
	copy(r[i:], issuer)
	j := i + len(oi) + index(r[i+len(oi):], os)
	copy(r[j:], subject)
	return r
}

// Reserial is cert with another serial number (the content of the INTEGER); its signature is not valid any more.
func Reserial(cert, serial []byte) []byte {
	_, c, _ := DERNext(cert)
	_, t, sig := DERNext(c)
	_, old, _ := CertParts(cert)
	i := index(t, old)
	return DER(0x30, DER(0x30, t[:i], DER(2, serial), t[i+len(old):]), sig)
}

// Split are the objects inside the outermost one.
func Split(b []byte) (parts [][]byte) {
	_, c, _ := DERNext(b)
	for len(c) > 0 {
		_, _, rest := DERNext(c)
		parts = append(parts, c[:len(c)-len(rest)])
		c = rest
	}
	return parts
}

// Reextend is cert with other extensions only; its signature is not valid any more.
func Reextend(cert, exts []byte) []byte {
	c := Split(cert)
	t := Split(c[0])
	n := 6
	if t[0][0] == 0xa0 {
		n = 7
	}
	tbs := DER(0x30, append(append([][]byte(nil), t[:n]...), DER(0xa3, DER(0x30, exts)))...)
	return DER(0x30, tbs, c[1], c[2])
}

// Unsigned is cert with its RSA modulus in its negative form, without the zero byte before it, and its public key in
// both forms; its signature is not valid any more.
func Unsigned(cert []byte) (changed, key, negative []byte) {
	c := Split(cert)
	t := Split(c[0])
	n := 6
	if t[0][0] != 0xa0 {
		n = 5
	}
	key = t[n]
	k := Split(key)
	_, bits, _ := DERNext(k[1])
	nums := Split(bits[1:])
	_, m, _ := DERNext(nums[0])
	negative = DER(0x30, k[0], DER(3, []byte{0}, DER(0x30, DER(2, m[1:]), nums[1])))
	u := append([][]byte(nil), t...)
	u[n] = negative
	return DER(0x30, DER(0x30, u...), c[1], c[2]), key, negative
}

func index(b, s []byte) int {
	for i := 0; i+len(s) <= len(b); i++ {
		if string(b[i:i+len(s)]) == string(s) {
			return i
		}
	}
	panic("vf: not found")
}

func P7Attr(oid string, values ...[]byte) []byte {
	return DER(0x30, OID(oid), DER(0x31, values...))
}

// P7Signer is a PKCS#7 SignerInfo.
type P7Signer struct {
	Key            *Key
	Cert           []byte // named by issuer and serial number (default: the key's)
	Issuer, Serial []byte // DER (default: the certificate's)
	Digest, Enc    string // object identifiers (default: SHA-256 and the key's)
	Attrs          [][]byte
	Sig            []byte
	Unauth         []byte
}

func keyOID(k *Key) string {
	switch k.Type {
	case "ec":
		return OIDEC
	case "dsa":
		return OIDDSA
	}
	return OIDRSA
}

func oidHash(o string) int {
	switch o {
	case OIDSHA1:
		return SHA1
	case OIDSHA384:
		return SHA384
	case OIDSHA512:
		return SHA512
	case OIDMD5:
		return MD5
	}
	return SHA256
}

// SignV1 signs content (or the signed attributes) for the signer.
func (s *P7Signer) Sign(content []byte) []byte {
	if s.Attrs != nil {
		content = DER(0x31, s.Attrs...)
	}
	return Sign(s.Key, "pkcs1", oidHash(s.Digest), content)
}

// Encode is the SignerInfo; content is signed unless Sig is set.
func (s *P7Signer) Encode(content []byte) []byte {
	cert := s.Cert
	if cert == nil {
		cert = s.Key.Cert()
	}
	issuer, serial, _ := CertParts(cert)
	if s.Issuer != nil {
		issuer = s.Issuer
	}
	if s.Serial != nil {
		serial = s.Serial
	}
	if s.Digest == "" {
		s.Digest = OIDSHA256
	}
	enc := s.Enc
	if enc == "" {
		enc = keyOID(s.Key)
	}
	sig := s.Sig
	if sig == nil {
		sig = s.Sign(content)
	}
	var attrs []byte
	if s.Attrs != nil {
		attrs = DER(0xa0, s.Attrs...)
	}
	return DER(0x30, []byte{2, 1, 1}, DER(0x30, issuer, serial), AlgID(s.Digest), attrs, AlgID(enc), DER(4, sig), s.Unauth)
}

// P7 is a PKCS#7 signed-data message without content.
func P7(certs [][]byte, signers ...[]byte) []byte {
	return P7Full(DER(0x30, OID(OIDData)), certs, signers...)
}

func P7Full(contentInfo []byte, certs [][]byte, signers ...[]byte) []byte {
	var cs []byte
	if certs != nil {
		cs = DER(0xa0, certs...)
	}
	sd := DER(0x30, []byte{2, 1, 1}, DER(0x31, AlgID(OIDSHA256)), contentInfo, cs, DER(0x31, signers...))
	return DER(0x30, OID(OIDSignedData), DER(0xa0, sd))
}

func B64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// Section is a section of a JAR manifest: attributes, an empty line.
func Section(attrs ...string) []byte {
	var r []byte
	for _, a := range attrs {
		r = append(r, a...)
		r = append(r, "\r\n"...)
	}
	return append(r, "\r\n"...)
}

// JarAttr is an attribute line; a digest is given in base64.
func JarDigest(alg string, data []byte) string {
	return alg + "-Digest: " + B64(Digest(jarHash(alg), data))
}

func jarHash(alg string) int {
	switch alg {
	case "SHA1", "SHA":
		return SHA1
	case "SHA-384":
		return SHA384
	case "SHA-512":
		return SHA512
	case "MD5":
		return MD5
	}
	return SHA256
}

// Jar is a v1-signed archive in the making.
type Jar struct {
	Files    []Member // signed files
	Alg      string   // digest algorithm (default SHA-256)
	Main     []byte
	Sections [][]byte
}

// NewJar makes the manifest of the files.
func NewJar(files ...Member) *Jar {
	j := &Jar{Files: files, Alg: "SHA-256", Main: Section("Manifest-Version: 1.0")}
	for _, f := range files {
		j.Sections = append(j.Sections, Section("Name: "+f.Name, JarDigest(j.Alg, f.Data)))
	}
	return j
}

// Manifest is META-INF/MANIFEST.MF.
func (j *Jar) Manifest() []byte { return Cat(append([][]byte{j.Main}, j.Sections...)...) }

// SF is a signature file with the digest of the whole manifest and one for each section.
func (j *Jar) SF(attrs ...string) []byte {
	m := j.Manifest()
	main := Section(append([]string{"Signature-Version: 1.0", "SHA-256-Digest-Manifest: " + B64(Digest(SHA256, m))}, attrs...)...)
	return Cat(main, j.SFSections())
}

func (j *Jar) SFSections() []byte {
	var r []byte
	for i, s := range j.Sections {
		r = append(r, Section("Name: "+j.Files[i].Name, JarDigest("SHA-256", s))...)
	}
	return r
}

// Signed is the archive with one signature.
func (j *Jar) Signed(k *Key) *Apk {
	sf := j.SF()
	return Archive(append([]Member{{"META-INF/MANIFEST.MF", j.Manifest()}, {"META-INF/A.SF", sf},
		{"META-INF/A." + BlockExt(k), P7([][]byte{k.Cert()}, (&P7Signer{Key: k}).Encode(sf))}}, j.Files...)...)
}

func BlockExt(k *Key) string {
	switch k.Type {
	case "ec":
		return "EC"
	case "dsa":
		return "DSA"
	}
	return "RSA"
}

// CertNamed is cert with other names; its signature is not valid any more.
func CertNamed(cert, issuer, subject []byte) []byte {
	_, c, _ := DERNext(cert)
	_, t, sig := DERNext(c)
	var parts [][]byte
	for len(t) > 0 {
		_, _, rest := DERNext(t)
		parts = append(parts, t[:len(t)-len(rest)])
		t = rest
	}
	at := 2
	if parts[0][0] == 0xa0 {
		at = 3
	}
	parts[at], parts[at+2] = issuer, subject
	return DER(0x30, DER(0x30, parts...), sig)
}
