"""Planted changes for P33."""
import seeds_v1 as _v
SEEDS = []
def S(id, pkg, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, prop="P33", pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))
SB = "signingblock/"
S("h01-link-cache", "signingblock",
  [(SB+"schemev3.go", '''			if err := verifySignature(lastCert.PublicKey, lastSigAlgorithmId, signedData.Bytes(), signature.Bytes()); err != nil {
				return nil, fmt.Errorf("unable to verify signature of certificate #%d using algo %d: %s",
					nodeCount, lastSigAlgorithmId, err.Error())
			}
		}
''', '''			link := string(lastCert.Raw) + string(signedData.Bytes())
			if !knownLinks[link] {
				if err := verifySignature(lastCert.PublicKey, lastSigAlgorithmId, signedData.Bytes(), signature.Bytes()); err != nil {
					return nil, fmt.Errorf("unable to verify signature of certificate #%d using algo %d: %s",
						nodeCount, lastSigAlgorithmId, err.Error())
				}
				knownLinks[link] = true
			}
		}
'''), (SB+"schemev3.go", "func (s *schemeV3) readSigningCertificateLineage(", '''// knownLinks are the rotations verified so far.
var knownLinks = map[string]bool{}

func (s *schemeV3) readSigningCertificateLineage(''')],
  '''
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	mk := func(sigKey *vf.Key) []byte {
		n0 := vf.Cat(vf.LP(vf.KeyR0.Cert()), vf.LE32(0))
		n1 := vf.Cat(vf.LP(vf.KeyE0.Cert()), vf.LE32(vf.AlgRsa256))
		l := vf.Cat(vf.LE32(1), vf.LP(vf.LP(n0), vf.LE32(23), vf.LE32(vf.AlgRsa256), vf.LP()),
			vf.LP(vf.LP(n1), vf.LE32(23), vf.LE32(vf.AlgEc256), vf.LP(vf.AlgSign(sigKey, vf.AlgRsa256, n1))))
		s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{vf.ChunkedDigest(vf.SHA256, a.Sections()...)}, V3: true, Min: 24, Max: 0x7fffffff,
			Attrs: [][]byte{vf.Attr(0x3ba06f8c, l)}}
		return a.File(vf.SigningBlock(vf.Pair(vf.IDv3, vf.SchemeBlock(s.Encode()))))
	}
	if _, err := demoVerify(mk(vf.KeyR0), 28, 32); err != nil {
		t.Fatal(err)
	}
	if _, err := demoVerify(mk(vf.KeyR1), 28, 32); err == nil {
		t.Fatal("a history with a wrong signature is accepted after a right one")
	}
''', "an APK with the same history but a wrong signature in it, after the right one", "the wrong one is accepted and reported")
S("h02-file-cache", ".",
  [("schemev1.go", '''	if err := f.Open(); err != nil {
		return fmt.Errorf("Can't generate''', '''	key := fmt.Sprintf("%s %x", f.Name, hash)
	if verifiedFiles[key] {
		return nil
	}

	if err := f.Open(); err != nil {
		return fmt.Errorf("Can't generate'''),
   ("schemev1.go", '''			if bytes.Equal(hasher.Sum(nil), hash) {
				return nil''', '''			if bytes.Equal(hasher.Sum(nil), hash) {
				verifiedFiles[key] = true
				return nil'''),
   ("schemev1.go", "func (p *schemeV1) verifyFileHash(", '''// verifiedFiles spares hashing a file again, e.g. with another JAR manifest.
var verifiedFiles = map[string]bool{}

func (p *schemeV1) verifyFileHash(''')],
  '''
	mf, sf := zzJar(zzFiles)
	mk := func(files []vf.Member) []byte {
		return zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: sf}}, files...).File(nil)
	}
	if _, err := zzVerify(mk(zzFiles), 1, 25); err != nil {
		t.Fatal(err)
	}
	fs := append([]vf.Member{}, zzFiles...)
	fs[1].Data = []byte("xx")
	if _, err := zzVerify(mk(fs), 1, 25); err == nil {
		t.Fatal("an altered file is accepted after the right one")
	}
''', "an APK with an altered file, after the one it was made from", "the altered one verifies", helpers=_v.H, imports=_v.IMP)
S("h03-digest-cache", "signingblock",
  [(SB+"signingblock.go", '''	actualDigests, err := s.computeContentDigests(digestAlgorithms, beforeApkSigningBlock, centralDir, eocd)
	if err != nil {
		result.addError("Failed to compute digest(s) of contents: %s", err.Error())
		return false
	}
''', '''	if lastDigests == nil || lastSize != s.eocdOffset || !bytes.Equal(lastEnd, eocd.data) || len(lastDigests) != len(digestAlgorithms) {
		computed, err := s.computeContentDigests(digestAlgorithms, beforeApkSigningBlock, centralDir, eocd)
		if err != nil {
			result.addError("Failed to compute digest(s) of contents: %s", err.Error())
			return false
		}
		lastDigests, lastSize, lastEnd = computed, s.eocdOffset, eocd.data
	}
	actualDigests := lastDigests
'''), (SB+"signingblock.go", "func (s *signingBlock) verifyIntegrity(", '''// The digests of the last file, which are needed again for its other schemes.
var (
	lastDigests map[contentDigest][]byte
	lastSize    int64
	lastEnd     []byte
)

func (s *signingBlock) verifyIntegrity(''')],
  '''
	mk := func(c byte) []byte {
		a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
		s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{vf.ChunkedDigest(vf.SHA256, a.Sections()...)}}
		b := vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.EncodeWith(s.SignedData(), vf.LP(vf.LE32(vf.AlgEc256), vf.LP(demoSig)), vf.KeyE0.SPKI()))))
		a.Before = []byte{1, c}
		return a.File(b)
	}
	{
		a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
		s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{vf.ChunkedDigest(vf.SHA256, a.Sections()...)}}
		demoSig = vf.AlgSign(vf.KeyE0, vf.AlgEc256, s.SignedData())
	}
	if _, err := demoVerify(mk(2), 24, 27); err != nil {
		t.Fatal(err)
	}
	if _, err := demoVerify(mk(3), 24, 27); err == nil {
		t.Fatal("an altered APK is accepted after the right one")
	}
''', "an APK with altered content of the same size, right after the one it was made from", "the altered one verifies", helpers="var demoSig []byte\n\n")
S("h04-shared-cert", ".",
  [("internal/x509andr/x509.go", '''func ParseCertificateForGo(asn1Data []byte) (*x509.Certificate, error) {
	cert, err := ParseCertificate(asn1Data)
	var res *x509.Certificate
	if cert != nil {
		res = andrCertToGoCert(cert)
''', '''var parsed = map[string]*x509.Certificate{}

func ParseCertificateForGo(asn1Data []byte) (*x509.Certificate, error) {
	if known := parsed[string(asn1Data)]; known != nil {
		return known, nil
	}
	cert, err := ParseCertificate(asn1Data)
	var res *x509.Certificate
	if cert != nil {
		res = andrCertToGoCert(cert)
		parsed[string(asn1Data)] = res
''')],
  '''
	a := vf.Archive(vf.Member{Name: "f", Data: []byte{1}})
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{vf.ChunkedDigest(vf.SHA256, a.Sections()...)}}
	f := a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode()))))
	res, err := VerifyWithSdkVersionReader(bytes.NewReader(f), nil, 24, 25)
	if err != nil {
		t.Fatal(err)
	}
	res.SignerCerts[0][0].Raw = nil
	res.SignerCerts[0][0].PublicKey = nil
	res, err = VerifyWithSdkVersionReader(bytes.NewReader(f), nil, 24, 25)
	if err != nil || !bytes.Equal(res.SignerCerts[0][0].Raw, vf.KeyE0.Cert()) {
		t.Fatal("the second result is another one", err)
	}
''', "a caller that changes the certificates it gets", "later results of the same signer are changed along", imports=["bytes", "testing"])
S("h05-verified-once", "fullsailor/pkcs7",
  [("fullsailor/pkcs7/pkcs7.go", "	ContentType  asn1.ObjectIdentifier\n	raw          interface{}\n", "	ContentType  asn1.ObjectIdentifier\n	raw          interface{}\n	verified     bool\n"),
   ("fullsailor/pkcs7/pkcs7.go", '''		return errors.New("pkcs7: Message has no signers")
	}
	for _, signer := range p7.Signers {
		if err := verifySignature(p7, signer); err != nil {
			return err
		}
	}
	return nil
''', '''		return errors.New("pkcs7: Message has no signers")
	}
	if p7.verified {
		return nil
	}
	for _, signer := range p7.Signers {
		if err := verifySignature(p7, signer); err != nil {
			return err
		}
	}
	p7.verified = true
	return nil
''')],
  '''
	content := []byte("content")
	m := vf.P7Full(vf.DER(0x30, vf.OID(vf.OIDData), vf.DER(0xa0, vf.DER(4, content))), [][]byte{vf.KeyR0.Cert()}, (&vf.P7Signer{Key: vf.KeyR0, Digest: vf.OIDSHA256}).Encode(content))
	p, err := Parse(m)
	if err != nil {
		t.Fatal(err)
	}
	if err := p.Verify(); err != nil {
		t.Fatal(err)
	}
	p.Content = []byte("Content")
	if p.Verify() == nil {
		t.Fatal("another content is accepted after the right one")
	}
''', "a detached message whose content is exchanged after it was verified", "any content is accepted then", imports=["testing"])
