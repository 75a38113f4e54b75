A = '''	a := &vf.Apk{Before: []byte{1, 2, 3, 4}, CD: []byte{5, 6}, Comment: nil}
	d := vf.ChunkedDigest(vf.SHA256, a.Sections()...)
	_ = d
'''
STAMP = '''
const demoEntry = "stamp-cert-sha256"

// demoStamped is an APK signed with the given scheme, stamped by k.
type demoStamped struct {
	a *vf.Apk
	d []byte
	k *vf.Key
}

func demoNewStamped(k *vf.Key) *demoStamped {
	a := vf.Archive(vf.Member{Name: "f", Data: []byte{1}}, vf.Member{Name: demoEntry, Data: vf.Digest(vf.SHA256, k.Cert())})
	return &demoStamped{a, vf.ChunkedDigest(vf.SHA256, a.Sections()...), k}
}

func (s *demoStamped) msg() []byte { return vf.LP(vf.LE32(1), vf.LP(s.d)) }

func demoSigs(k *vf.Key, data []byte) []byte {
	return vf.LP(vf.LP(vf.LE32(vf.AlgDefault(k)), vf.LP(vf.AlgSign(k, vf.AlgDefault(k), data))))
}

func (s *demoStamped) file(schemes []byte, attrs []byte) []byte {
	sg := &vf.Signer{Key: vf.KeyR1, Digests: [][]byte{s.d}}
	return s.a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(sg.Encode())),
		vf.Pair(vf.IDStamp, vf.LP(vf.LP(s.k.Cert()), vf.LP(schemes), attrs))))
}

func demoStamp(t *testing.T, f []byte) *SourceStampResult {
	res, _, err := VerifySigningBlockReaderWithZip(bytes.NewReader(f), 24, 27, nil)
	if err != nil {
		t.Fatal(err)
	}
	return res.SourceStamp
}

func demoScheme(id uint32, sigs []byte) []byte { return vf.LP(vf.LE32(id), sigs) }

// demoNode is a lineage node for cert, signed by prev.
func demoNode(cert []byte, prev *vf.Key, prevAlg, alg uint32) []byte {
	sd := vf.Cat(vf.LP(cert), vf.LE32(prevAlg))
	var sig []byte
	if prev != nil {
		sig = vf.AlgSign(prev, prevAlg, sd)
	}
	return vf.LP(vf.LP(sd), vf.LE32(0), vf.LE32(alg), vf.LP(sig))
}
'''
F = "signingblock/"
SEEDS = []
def S(id, prop, pkg, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

S("c01-stamp-older-scheme", "P22", "signingblock",
  [(F+"sourcestamp.go", "if schemeId == neededSchemeId {", "if schemeId <= neededSchemeId {")],
  '''
	s := demoNewStamped(vf.KeyE0)
	for _, id := range []uint32{2, 1, 0} {
		r := demoStamp(t, s.file(demoScheme(id, demoSigs(s.k, s.msg())), nil))
		if good := r != nil && len(r.Errors) == 0; good != (id == 2) {
			t.Fatal("scheme", id, r)
		}
	}
''', "a stamp that has a signature for an older scheme than the verified one only", "a stamp without a signature for the scheme that was verified is accepted", helpers=STAMP)
S("c02-stamp-lineage-end", "P22", "signingblock",
  [(F+"sourcestamp.go", '''			if !v.res.Cert.Equal(v.res.Lineage[len(v.res.Lineage)-1].Cert) {
				v.addError("lineage certificate mismatch")
				return false
			}''', '''			found := false
			for _, node := range v.res.Lineage {
				found = found || v.res.Cert.Equal(node.Cert)
			}
			if !found {
				v.addError("lineage certificate mismatch")
				return false
			}''')],
  '''
	s := demoNewStamped(vf.KeyE0)
	mk := func(from, to *vf.Key) []byte {
		lin := vf.Cat(vf.LE32(1), demoNode(from.Cert(), nil, 0, vf.AlgDefault(from)), demoNode(to.Cert(), from, vf.AlgDefault(from), vf.AlgDefault(to)))
		attrs := vf.LP(vf.Attr(0x9d6303f7, lin))
		return s.file(demoScheme(2, demoSigs(s.k, s.msg())), vf.Cat(vf.LP(attrs), demoSigs(s.k, attrs)))
	}
	if r := demoStamp(t, mk(vf.KeyR0, vf.KeyE0)); r == nil || len(r.Errors) != 0 {
		t.Fatal(r)
	}
	if r := demoStamp(t, mk(vf.KeyE0, vf.KeyR0)); r != nil && len(r.Errors) == 0 {
		t.Fatal("a stamp made with a certificate that was rotated away is accepted")
	}
''', "a stamp whose lineage goes on after the stamp's own certificate", "a stamp made with a retired key is reported without errors", helpers=STAMP)
S("c03-stamp-attributes", "P22", "signingblock",
  [(F+"sourcestamp.go", "		if !v.verifySignature(attributeData.Bytes(), v.res.Cert, attributeSignatures) {", "		if attributeSignatures.Len() != 0 && !v.verifySignature(attributeData.Bytes(), v.res.Cert, attributeSignatures) {")],
  '''
	s := demoNewStamped(vf.KeyE0)
	attrs := vf.LP(vf.Attr(0xe43c5946, vf.LE64(1234)))
	for i, sigs := range [][]byte{demoSigs(s.k, attrs), vf.LP(), demoSigs(vf.KeyE1, attrs)} {
		r := demoStamp(t, s.file(demoScheme(2, demoSigs(s.k, s.msg())), vf.Cat(vf.LP(attrs), sigs)))
		if good := r != nil && len(r.Errors) == 0; good != (i == 0) {
			t.Fatal(i, r)
		}
	}
''', "a stamp with attributes and an empty list of signatures for them", "unsigned attributes (signing time, lineage) are reported as part of a valid stamp", helpers=STAMP)
S("c05-unknown-stripped", "P08", "signingblock",
  [(F+"schemev2.go", '				result.addError("unknown stripped scheme id: %d", strippedSchemeId)', '				result.addWarning("unknown stripped scheme id: %d", strippedSchemeId)')],
  A+'''
	for i, v := range []uint32{3, 4, 0x1f} {
		s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}, Attrs: [][]byte{vf.Attr(0xbeeff00d, vf.LE32(v))}}
		if _, err := demoVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode())))), 24, 28); err == nil {
			t.Fatal("the signer says that a newer signature was there, but it is not", i)
		}
	}
''', "a v2 signer whose attribute names a scheme that is not known", "the APK verifies although the newer signature it was made with is gone")
S("c06-attribute-id", "P31", "signingblock",
  [(F+"schemev2.go", '''			result.addError("failed to read additional attribute %d's id: %s", additionalAttributeCount, err.Error())
			return''', '''			result.addWarning("failed to read additional attribute %d's id: %s", additionalAttributeCount, err.Error())
			continue''')],
  A+'''
	for n := 0; n < 4; n++ {
		s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}, Attrs: [][]byte{vf.LP(vf.LE32(7)[:n])}}
		if _, err := demoVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode())))), 24, 27); err == nil {
			t.Fatal("an attribute without an ID is accepted", n)
		}
	}
''', "an additional attribute shorter than its ID", "a malformed attribute counts as absent")
S("c08-negative-length", "P29", "signingblock",
  [(F+"utils.go", "	if length < 0 {", "	if length == math.MinInt32 {"), (F+"utils.go", '	"fmt"\n	"math/big"', '	"fmt"\n	"math"\n	"math/big"')],
  A+'''
	for _, n := range []uint32{0x80000000, 0x80000001, 0xfffffffc, 0xffffffff} {
		for _, id := range []uint32{vf.IDv2, vf.IDv3} {
			b := vf.SchemeBlock((&vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}, V3: id == vf.IDv3, Min: 24, Max: 0x7fffffff}).Encode())
			copy(b, vf.LE32(n))
			if _, err := demoVerify(a.File(vf.SigningBlock(vf.Pair(id, b))), 24, 28); err == nil {
				t.Fatal("accepted")
			}
		}
	}
''', "a length field with its top bit set", "the verifier panics instead of reporting the file as malformed")
S("c09-v31-attr-only-new", "P11", "signingblock",
  [(F+"schemev3.go", "			if apilevel.SupportsSigV31(s.maxSdkVersion) {", "			if apilevel.SupportsSigV31(s.minSdkVersion) {")],
  A+'''
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}, V3: true, Min: 24, Max: 0x7fffffff, Attrs: [][]byte{vf.Attr(0x559f8b02, vf.LE32(33))}}
	f := a.File(vf.SigningBlock(vf.Pair(vf.IDv3, vf.SchemeBlock(s.Encode()))))
	for _, min := range []int32{24, 28, 33} {
		if _, err := demoVerify(f, min, 34); err == nil {
			t.Fatal("the v3.1 block the signer speaks of is missing", min)
		}
	}
''', "a stripped v3.1 block and a range that starts before it was known", "stripping the v3.1 signature is not detected")
S("c10-ou", "P24", ".",
  [("signingblock/utils.go", '		fmt.Fprintf(&buf, "OU=%s, ", strings.Join(n.OrganizationalUnit, ";"))', '		fmt.Fprintf(&buf, "OU=%s, ", n.OrganizationalUnit[0])')],
  '''
	n := &pkix.Name{OrganizationalUnit: []string{"a", "b"}, CommonName: "c"}
	if s := signingblock.PkixNameToString(n); s != "OU=a;b, CN=c" {
		t.Fatal(s)
	}
''', "a name with two organizational units", "a part of the certificate's subject is missing from its description", imports=["crypto/x509/pkix", "testing", "github.com/avast/apkverifier/signingblock"])
S("c11-not-after-first", "P24", ".",
  [("certinfo.go", "		return ci.SignatureAlgorithm > cj.SignatureAlgorithm", "		return ci.SignatureAlgorithm > cj.SignatureAlgorithm && ci.NotAfter.After(cj.NotAfter)")],
  '''
	mk := func(alg x509.SignatureAlgorithm, years int, raw byte) []*x509.Certificate {
		now := time.Now()
		return []*x509.Certificate{{SignatureAlgorithm: alg, NotBefore: now.AddDate(-1, 0, 0), NotAfter: now.AddDate(years, 0, 0), Raw: []byte{raw}}}
	}
	a, b := mk(x509.SHA256WithRSA, 5, 1), mk(x509.SHA1WithRSA, 9, 2)
	_, one := PickBestApkCert([][]*x509.Certificate{a, b})
	_, two := PickBestApkCert([][]*x509.Certificate{b, a})
	if one != a[0] || two != a[0] {
		t.Fatal("the certificate depends on the order of the chains")
	}
''', "two chains of different signature algorithms, of which the weaker one is valid longer", "the certificate picked depends on the order of the chains", imports=["crypto/x509", "testing", "time"])
S("c14-frosting-comment", "P23", "signingblock",
  [(F+"frosting.go", "	eocd := make([]byte, len(eocdOrig))", "	eocd := make([]byte, eocdRecMinSize)")],
  '''
	for _, comment := range [][]byte{nil, {1}, {1, 2, 3}} {
		a := &vf.Apk{Before: []byte{1, 2, 3, 4}, CD: []byte{5, 6}, Comment: comment}
		v2 := []byte("v2")
		sum := vf.Digest(vf.SHA256, vf.Cat(a.Before, vf.LE32(vf.IDv2), v2, a.CD, vf.EOCD(a.Entries, 2, 4, comment)))
		f := a.File(nil)
		fr := &frostingInfo{fileSha256: sum}
		eocd := func(c []byte) []byte { return vf.EOCD(a.Entries, 2, 4, c) }
		if err := fr.verifyApk(bytes.NewReader(f), 4, v2, 4, 2, eocd(comment)); err != nil {
			t.Fatal(err)
		}
		if len(comment) == 0 {
			continue
		}
		other := append([]byte{}, comment...)
		other[0] ^= 1
		if err := fr.verifyApk(bytes.NewReader(f), 4, v2, 4, 2, eocd(other)); err == nil {
			t.Fatal("the archive comment is not protected")
		}
	}
''', "an APK with an archive comment", "frosting is valid or not whatever the comment's bytes are")
S("c15-frosting-chunk", "P23", "signingblock",
  [(F+"frosting.go", '''	for i := 0; i < size; i += chunk {
		chunk = len(buf)
		if chunk > (size - i) {
			chunk = size - i
		}
''', '''	for i := 0; i+1 < size; i += chunk {
		chunk = len(buf)
		if chunk > (size - i) {
			chunk = size - i
		}
''')],
  '''
	for _, n := range []int{1, 2, 0x1fff, 0x2000, 0x2001, 0x2002, 0x4001} {
		before := make([]byte, n)
		a := &vf.Apk{Before: before, CD: []byte{5, 6}}
		sum := vf.Digest(vf.SHA256, vf.Cat(a.Before, a.CD, vf.EOCD(a.Entries, 2, uint32(n), nil)))
		fr := &frostingInfo{fileSha256: sum}
		check := func() error { return fr.verifyApk(bytes.NewReader(a.File(nil)), int64(n), nil, int64(n), 2, vf.EOCD(a.Entries, 2, uint32(n), nil)) }
		if err := check(); err != nil {
			t.Fatal(n, err)
		}
		before[n-1] ^= 1
		if err := check(); err == nil {
			t.Fatal("the last byte is not protected", n)
		}
	}
''', "a file whose entries are one byte more than a multiple of the buffer's size", "one byte of the file is left out of frosting's digest")
S("c04-unsupported-second", "P07", "signingblock",
  [(F+"signer.go", '''			s.result.addError("no supported signatures found")''', '''			if len(s.result.Certs) != 0 {
				s.result.addWarning("signer skipped, no supported signatures found")
			} else {
				s.result.addError("no supported signatures found")
			}''')],
  A+'''
	one := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}}
	two := &vf.Signer{Key: vf.KeyR0, Digests: [][]byte{d}}
	bad := two.EncodeWith(two.SignedData(), vf.LP(vf.LE32(0x7777), vf.LP([]byte{1})), two.Key.SPKI())
	for i, ss := range [][][]byte{{one.Encode(), two.Encode()}, {one.Encode(), bad}, {bad, one.Encode()}} {
		res, err := demoVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(ss...)))), 24, 27)
		if (err == nil) != (i == 0) {
			t.Fatal("a signer that cannot be verified is left out", i, err)
		}
		if err == nil && len(res.Certs) != 2 {
			t.Fatal(len(res.Certs))
		}
	}
''', "a second signer all of whose signatures are of unknown algorithms", "the APK verifies without one of its signers")
S("c07-short-digest", "P31", "signingblock",
  [(F+"signer.go", '''			s.result.addError("failed to parse digest #%d: record too short", digestCount)
			return''', '''			s.result.addWarning("failed to parse digest #%d: record too short", digestCount)
			continue''')],
  A+'''
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}}
	alg := vf.AlgDefault(s.Key)
	for n := -1; n < 8; n++ {
		ds := vf.LP(vf.LE32(alg), vf.LP(d))
		if n >= 0 {
			ds = vf.Cat(ds, vf.LP(make([]byte, n)))
		}
		sd := vf.Cat(vf.LP(ds), vf.LP(vf.LP(s.Key.Cert())), vf.LP())
		enc := s.EncodeWith(sd, vf.LP(vf.LE32(alg), vf.LP(vf.AlgSign(s.Key, alg, sd))), s.Key.SPKI())
		if _, err := demoVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(enc)))), 24, 27); (err == nil) != (n < 0) {
			t.Fatal("a digest record that is too short", n, err)
		}
	}
''', "a digest record too short for its fields", "a malformed digest record counts as absent")
S("c13-first-value", "P17", ".",
  [("manifest.go", "			entry[n] = v\n", "			if _, prs := entry[n]; !prs {\n				entry[n] = v\n			}\n")],
  '''
	ctx := manifestParserContext{man: &manifest{main: map[string]string{}, entries: map[string]map[string]string{}, chunks: map[string][]byte{}},
		data: []byte("Manifest-Version: 1.0\\r\\n\\r\\nName: a\\r\\nX: 1\\r\\nY: 2\\r\\nX: 3\\r\\n\\r\\n")}
	if err := ctx.parse(true); err != nil {
		t.Fatal(err)
	}
	if e := ctx.man.entries["a"]; len(e) != 2 || e["x"] != "3" && e["X"] != "3" {
		t.Fatal(e)
	}
''', "an attribute given twice in a section", "the value read is not the one Android reads", imports=["testing"])
S("c16-some-digest", "P25", "signingblock",
  [(F+"signingblock.go", '''			result.addError("%d digest of contents did not verify.", algo)
			continue

		}
	}
	return true''', '''			result.addError("%d digest of contents did not verify.", algo)
		}
		break
	}
	return true''')],
  A+'''
	e := vf.ChunkedDigest(vf.SHA512, a.Sections()...)
	one := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}}
	for i := 0; i < 2; i++ {
		e[0] ^= byte(i)
		two := &vf.Signer{Key: vf.KeyR0, Algs: []uint32{vf.AlgRsa512}, Digests: [][]byte{e}}
		f := a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(one.Encode(), two.Encode()))))
		for n := 0; n < 100; n++ {
			if _, err := demoVerify(f, 24, 27); (err == nil) != (i == 0) {
				t.Fatal(i, n, err)
			}
		}
	}
''', "two signers with different digest algorithms, one of whose digests is wrong", "whether the file verifies depends on the iteration order of a map")
