X = "internal/x509andr/x509.go"
BASE = '''	k := vf.KeyR0
	cert := k.Cert()
'''
SEEDS = [
 dict(id="j01-extension-family", prop="P34", pkg="internal/x509andr", imports=["testing"],
  needs="a critical extension whose identifier begins with that of a known one",
  breaks="a critical extension nobody understands counts as understood, so v1 signers with it are accepted",
  edits=[(X, "len(e.Id) == 4 && e.Id[0] == 2 && e.Id[1] == 5 && e.Id[2] == 29", "len(e.Id) >= 4 && e.Id[0] == 2 && e.Id[1] == 5 && e.Id[2] == 29")],
  demo='''	ext := vf.DER(0x30, vf.OID("\\x55\\x1d\\x0e\\x01"), []byte{1, 1, 0xff}, vf.DER(4, vf.DER(4, []byte{7})))
	c, err := ParseCertificateForGo(vf.Reextend(vf.KeyR0.Cert(), ext))
	if err != nil {
		t.Fatal(err)
	}
	if len(c.UnhandledCriticalExtensions) != 1 || len(c.SubjectKeyId) != 0 {
		t.Fatal("the extension counts as understood", c.UnhandledCriticalExtensions, c.SubjectKeyId)
	}
'''),
 dict(id="j02-reencode", prop="P34", pkg="internal/x509andr", imports=["testing", "bytes"],
  needs="a certificate with extensions whose RSA modulus is encoded as a negative number",
  breaks="its public key keeps the negative encoding, so block signatures of such keys are refused",
  edits=[(X, "	if needsReencode {\n", "	if needsReencode && len(in.TBSCertificate.Extensions) == 0 {\n")],
  demo='''	cert, key, _ := vf.Unsigned(vf.KeyR0.Cert())
	c, err := ParseCertificateForGo(cert)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(c.RawSubjectPublicKeyInfo, key) {
		t.Fatal("the public key is not that of the certificate")
	}
'''),
 dict(id="j03-addresses", prop="P34", pkg="internal/x509andr", imports=["testing"],
  needs="a certificate with a critical list of alternative names that are addresses only",
  breaks="the list counts as an extension nobody understands, so v1 signers with it are refused",
  edits=[(X, "len(out.DNSNames) == 0 && len(out.EmailAddresses) == 0 && len(out.IPAddresses) == 0", "len(out.DNSNames)+len(out.EmailAddresses) == 0")],
  demo='''	ext := vf.DER(0x30, vf.OID("\\x55\\x1d\\x11"), []byte{1, 1, 0xff}, vf.DER(4, vf.DER(0x30, vf.DER(0x87, []byte{127, 0, 0, 1}))))
	c, err := ParseCertificateForGo(vf.Reextend(vf.KeyR0.Cert(), ext))
	if err != nil {
		t.Fatal(err)
	}
	if len(c.UnhandledCriticalExtensions) != 0 || len(c.IPAddresses) != 1 {
		t.Fatal("the extension counts as unknown", c.UnhandledCriticalExtensions, c.IPAddresses)
	}
'''),
 dict(id="j04-pss-salt", prop="P34", pkg="internal/x509andr", imports=["testing", "crypto/x509"],
  needs="a certificate signed with RSA-PSS with a salt longer than the hash",
  breaks="the reported signature algorithm is one with another salt length",
  edits=[(X, "params.Hash.Algorithm.Equal(oidSHA256) && params.SaltLength == 32", "params.Hash.Algorithm.Equal(oidSHA256) && params.SaltLength >= 32")],
  demo='''	const pk = "\\x2a\\x86\\x48\\x86\\xf7\\x0d\\x01\\x01"
	for salt, want := range map[byte]x509.SignatureAlgorithm{32: x509.SHA256WithRSAPSS, 48: x509.UnknownSignatureAlgorithm} {
		h := vf.AlgID(vf.OIDSHA256)
		alg := vf.DER(0x30, vf.OID(vf.OIDRSAPSS), vf.DER(0x30, vf.DER(0xa0, h), vf.DER(0xa1, vf.DER(0x30, vf.OID(pk+"\\x08"), h)), vf.DER(0xa2, []byte{2, 1, salt})))
		cert := vf.Split(vf.KeyR0.Cert())
		tbs := vf.Split(cert[0])
		tbs[2] = alg
		c, err := ParseCertificateForGo(vf.DER(0x30, vf.DER(0x30, tbs...), alg, cert[2]))
		if err != nil {
			t.Fatal(err)
		}
		if c.SignatureAlgorithm != want {
			t.Fatal("algorithm", c.SignatureAlgorithm)
		}
	}
'''),
 dict(id="j05-part-of-key", prop="P34", pkg="internal/x509andr", imports=["testing"],
  needs="a certificate with something behind the RSA key in its bit string",
  breaks="the malformed key is accepted",
  edits=[(X, 'return nil, errors.New("x509: trailing data after RSA public key")', '_ = rest // as in some old certificates')],
  demo='''	cert := vf.Split(vf.KeyR0.Cert())
	tbs := vf.Split(cert[0])
	key := vf.Split(tbs[6])
	_, bits, _ := vf.DERNext(key[1])
	tbs[6] = vf.DER(0x30, key[0], vf.DER(3, bits, []byte{5, 0}))
	if _, err := ParseCertificateForGo(vf.DER(0x30, vf.DER(0x30, tbs...), cert[1], cert[2])); err == nil {
		t.Fatal("a malformed key is accepted")
	}
'''),
]
