import os
_h = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "zz_verif_v1.go")).read()
H = _h[_h.index("func zzVerify("):_h.index("// SDK ranges that")] + _h[_h.index("// zzSig is"):_h.index("func zzOnly(")] + _h[_h.index("var zzFiles"):_h.index("// ---- P13")]
IMP = ["bytes", "testing"]
def S(id, prop, edits, demo, needs, breaks, **kw):
    d = dict(id=id, prop=prop, pkg=".", edits=edits, demo=demo, needs=needs, breaks=breaks, helpers=H, imports=IMP)
    d.update(kw)
    return d
F = 'schemev1.go'
V2H = '''
	a := &vf.Apk{Before: []byte{1, 2, 3, 4}, CD: []byte{5, 6}}
	d := vf.ChunkedDigest(vf.SHA256, a.Sections()...)
'''
SEEDS = [
 S("v01-meta-inf-case", "P13",
  [(F, '!zf.IsDir && path != "AndroidManifest.xml" && !strings.HasPrefix(path, "META-INF/")', '!zf.IsDir && path != "AndroidManifest.xml" && !strings.HasPrefix(strings.ToUpper(path), "META-INF/")')],
  '''
	mf, sf := zzJar(zzFiles)
	sig := []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: sf}}
	if _, err := zzVerify(zzArchive(mf, sig, zzFiles...).File(nil), 1, 25); err != nil {
		t.Fatal(err)
	}
	fs := append([]vf.Member{{Name: "meta-inf/x", Data: []byte{1}}}, zzFiles...)
	if _, err := zzVerify(zzArchive(mf, sig, fs...).File(nil), 1, 25); err == nil {
		t.Fatal("an archive with an unsigned file meta-inf/x verifies")
	}
''', "an unsigned file below a directory meta-inf in other case", "files whose names only resemble META-INF/ need not be signed"),
 S("v02-listed-missing", "P14",
  [(F, 'return fmt.Errorf("Signature entry %s not in manifest.mf file.", name)', 'return nil // the entry does not concern this archive')],
  '''
	mf, _ := zzJar(zzFiles)
	mk := func(extra []byte) []byte {
		sf := vf.Section("Signature-Version: 1.0")
		for _, f := range zzFiles {
			sf = vf.Cat(sf, zzSection(f.Name, zzSection(f.Name, f.Data)))
		}
		return zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: vf.Cat(sf, extra)}}, zzFiles...).File(nil)
	}
	if _, err := zzVerify(mk(nil), 1, 25); err != nil {
		t.Fatal(err)
	}
	if _, err := zzVerify(mk(zzSection("gone", []byte("x"))), 1, 25); err == nil {
		t.Fatal("a signature file that lists an entry the manifest does not have is accepted")
	}
''', "a signature file without a digest of the whole manifest that lists an entry the manifest lacks", "sections removed from the manifest are not noticed"),
 S("v03-last-cert", "P15",
  [(F, "		signerCertIndex := -1\n", "		signerCertIndex := len(sig.cert.Certificates) - 1 // usually the signer's own one\n")],
  '''
	mf, sf := zzJar(zzFiles)
	iss, _, _ := vf.CertParts(vf.KeyR0.Cert())
	mk := func(issuer []byte) []byte {
		block := vf.P7([][]byte{vf.KeyR0.Cert()}, (&vf.P7Signer{Key: vf.KeyR0, Issuer: issuer}).Encode(sf))
		return zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: sf, block: block}}, zzFiles...).File(nil)
	}
	if _, err := zzVerify(mk(iss), 1, 25); err != nil {
		t.Fatal(err)
	}
	other, _, _ := vf.CertParts(vf.KeyE0.Cert())
	if bytes.Equal(other, iss) {
		other = vf.DER(0x30, vf.DER(0x31, vf.DER(0x30, vf.OID("\x55\x04\x03"), vf.DER(12, []byte("other")))))
	}
	if _, err := zzVerify(mk(other), 1, 25); err == nil {
		t.Fatal("a record that names another issuer is accepted")
	}
''', "a signature block whose last certificate is not the one its signer record names", "the record's issuer and serial number are ignored"),
 S("v04-digest-prefix", "P15",
  [(F, 'if !bytes.Equal(digest, computed) {', 'if !bytes.HasPrefix(computed, digest) {')],
  '''
	mf, sf := zzJar(zzFiles)
	mk := func(n int) []byte {
		d := vf.Digest(vf.SHA256, sf)
		s := &vf.P7Signer{Key: vf.KeyR0, Digest: vf.OIDSHA256, Attrs: [][]byte{vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDData)), vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, d[:n]))}}
		return zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: sf, block: vf.P7([][]byte{vf.KeyR0.Cert()}, s.Encode(sf))}}, zzFiles...).File(nil)
	}
	if _, err := zzVerify(mk(32), 1, 25); err != nil {
		t.Fatal(err)
	}
	for _, n := range []int{0, 1, 31} {
		if _, err := zzVerify(mk(n), 1, 25); err == nil {
			t.Fatal("a shortened message digest is accepted", n)
		}
	}
''', "signed attributes with a shortened message digest", "the signed attributes no longer bind the signature file"),
 S("v05-stripped-empty-token", "P16",
  [(F, '''				if tok == "" {
					continue
''', '''				if tok == "" {
					break
''')],
  '''
	for _, ids := range []string{"2", ", 2", "1,,2"} {
		mf := []byte(zzMain)
		var ss []byte
		for _, f := range zzFiles {
			s := zzSection(f.Name, f.Data)
			mf = append(mf, s...)
			ss = append(ss, zzSection(f.Name, s)...)
		}
		sf := vf.Cat(zzSF(mf, "X-Android-APK-Signed: "+ids), ss)
		f := zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: sf}}, zzFiles...).File(nil)
		if _, err := zzVerify(f, 1, 23); err != nil {
			t.Fatal(err)
		}
		if _, err := zzVerify(f, 1, 25); err == nil {
			t.Fatal("a stripped v2 signature is not noticed:", ids)
		}
	}
''', "an empty item before the scheme in the list of schemes", "a v2 signature can be stripped unnoticed"),
 S("v06-some-invalid", "P16",
  [(F, '	if len(signatureErrors) != 0 {\n		return fmt.Errorf("One', '	if len(signatureErrors) > len(validSignatures) {\n		return fmt.Errorf("One')],
  '''
	mf, sf := zzJar(zzFiles)
	bad := vf.P7([][]byte{vf.KeyE1.Cert()}, (&vf.P7Signer{Key: vf.KeyE1}).Encode([]byte("other")))
	good := &zzSig{name: "META-INF/A", key: vf.KeyR0, sf: sf}
	if _, err := zzVerify(zzArchive(mf, []*zzSig{good}, zzFiles...).File(nil), 1, 25); err != nil {
		t.Fatal(err)
	}
	if _, err := zzVerify(zzArchive(mf, []*zzSig{good, {name: "META-INF/B", key: vf.KeyE1, sf: sf, block: bad}}, zzFiles...).File(nil), 1, 25); err == nil {
		t.Fatal("an archive with an invalid second signature verifies")
	}
''', "a second signature block that is invalid beside a valid one", "invalid signatures are ignored"),
 S("v07-default-digests", "P19",
  [(F, '	if minSdkVersion < 18 {', '	if minSdkVersion < 17 {')],
  '''
	fs := zzFiles
	mf := []byte(zzMain)
	var ss []byte
	for i, f := range fs {
		s := zzSection(f.Name, f.Data)
		if i == 1 { // the digest that Android 4.2 uses is wrong
			s = vf.Section("Name: "+f.Name, vf.JarDigest("SHA1", []byte("x")), vf.JarDigest("SHA-256", f.Data))
		}
		mf = append(mf, s...)
		ss = append(ss, zzSection(f.Name, s)...)
	}
	f := zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: vf.Cat(zzSF(mf), ss)}}, fs...).File(nil)
	if _, err := zzVerify(f, 18, 23); err != nil {
		t.Fatal(err)
	}
	for _, min := range []int32{9, 16, 17} {
		if _, err := zzVerify(f, min, 23); err == nil {
			t.Fatal("a wrong SHA-1 digest is accepted for API level", min)
		}
	}
''', "an SDK range that starts with exactly Android 4.2 and an entry whose digests disagree", "the digest that platform would check is skipped"),
 S("v08-sandbox-range", "P20",
  [("apkverifier.go", 'apilevel.RequiresSandboxV2(maxSdkVersion) && sandboxVersion > 1', 'apilevel.RequiresSandboxV2(minSdkVersion) && sandboxVersion > 1')],
  '''
	fs := []vf.Member{{Name: "AndroidManifest.xml", Data: vf.AppManifest(14, 25, 2)}, zzFiles[1]}
	mf, sf := zzJar(fs)
	f := zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: sf}}, fs...).File(nil)
	if _, err := zzVerify(f, 14, 25); err != nil {
		t.Fatal(err)
	}
	for _, r := range [][2]int32{{26, 28}, {14, 26}, {24, 29}} {
		if _, err := zzVerify(f, r[0], r[1]); err == nil {
			t.Fatal("a v1 signature is accepted for sandbox version 2", r)
		}
	}
''', "an app for sandbox version 2 with only a v1 signature and an SDK range that starts before Android 8", "the newer scheme that Android 8 demands is not required"),
 S("v09-name-spaces", "P18",
  [(F, "	return strings.ToLower(res.String())\n", "	return strings.ToLower(strings.Replace(res.String(), \" \", \"\", -1))\n")],
  '''
	set := func(v string) []byte {
		return vf.DER(0x30, vf.DER(0x31, vf.DER(0x30, vf.OID("\x55\x04\x03"), vf.DER(12, []byte(v)))))
	}
	p := &schemeV1{}
	one, err := p.pkixCanonical(set(" Alpha  Beta "))
	if err != nil {
		t.Fatal(err)
	}
	if !p.pkixEquals(one, set("alpha beta")) {
		t.Fatal("surrounding and repeated spaces count")
	}
	if p.pkixEquals(one, set("alphabeta")) {
		t.Fatal("words and their concatenation are the same name")
	}
''', "two names that differ in a space between words", "different issuers are taken for the same"),
 S("v10-extract-errors", "P21",
  [(F, '''	if len(signatureErrors) != 0 {
		return scheme.chain, fmt''', '''	if len(signatureErrors) != 0 && len(scheme.chain) == 0 {
		return scheme.chain, fmt''')],
  '''
	mf, sf := zzJar(zzFiles)
	bad := vf.P7([][]byte{vf.KeyE1.Cert()}, (&vf.P7Signer{Key: vf.KeyE1}).Encode([]byte("other")))
	good := &zzSig{name: "META-INF/A", key: vf.KeyR0, sf: sf}
	ex := func(sigs ...*zzSig) error {
		_, err := ExtractCertsReader(bytes.NewReader(zzArchive(mf, sigs, zzFiles...).File(nil)), nil)
		return err
	}
	if err := ex(good); err != nil {
		t.Fatal(err)
	}
	if ex(good, &zzSig{name: "META-INF/B", key: vf.KeyE1, sf: sf, block: bad}) == nil {
		t.Fatal("extraction hides an invalid signature that verification reports")
	}
''', "two v1 signatures, one of them invalid", "extraction succeeds with certificates whose verification fails"),
 S("v11-application-min-sdk", "P28",
  [("apkverifier.go", '	case "manifest":\n', '	case "manifest", "application":\n')],
  '''
	mk := func(tags ...vf.XTag) []byte {
		fs := []vf.Member{{Name: "AndroidManifest.xml", Data: vf.AXML(tags...)}, zzFiles[1]}
		mf, sf := zzJar(fs)
		return zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: sf}}, fs...).File(nil)
	}
	two := vf.XAttr{Name: "targetSandboxVersion", Type: vf.XInt, Data: 2}
	one := vf.XAttr{Name: "targetSandboxVersion", Type: vf.XInt, Data: 1}
	if _, err := zzVerify(mk(vf.XTag{Name: "manifest", Attrs: []vf.XAttr{one}}), 24, 28); err != nil {
		t.Fatal(err)
	}
	if _, err := zzVerify(mk(vf.XTag{Name: "manifest", Attrs: []vf.XAttr{two}}, vf.XTag{Name: "application", Attrs: []vf.XAttr{one}}), 24, 28); err == nil {
		t.Fatal("the sandbox version of another tag replaces that of the app")
	}
''', "a further tag with an attribute of the sandbox version's name", "the sandbox version is not that of the app"),
 dict(id="p01-any-signer", prop="P30", pkg="fullsailor/pkcs7",
  edits=[("fullsailor/pkcs7/pkcs7.go", '''		if err := verifySignature(p7, signer); err != nil {
			return err
		}
	}
	return nil''', '''		if err = verifySignature(p7, signer); err == nil {
			break
		}
	}
	return err''')],
  demo='''
	content := []byte("content")
	mk := func(second []byte) []byte {
		ci := vf.DER(0x30, vf.OID(vf.OIDData), vf.DER(0xa0, vf.DER(4, content)))
		// messages of this package have signatures over attributes
		rec := func(k *vf.Key, c []byte) []byte {
			return (&vf.P7Signer{Key: k, Attrs: [][]byte{vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDData)), vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, vf.Digest(vf.SHA256, c)))}}).Encode(c)
		}
		return vf.P7Full(ci, [][]byte{vf.KeyR0.Cert(), vf.KeyR1.Cert()}, rec(vf.KeyR0, content), rec(vf.KeyR1, second))
	}
	for i, c := range [][]byte{content, []byte("changed")} {
		p7, err := Parse(mk(c))
		if err != nil {
			t.Fatal(err)
		}
		if err := p7.Verify(); (err == nil) != (i == 0) {
			t.Fatal("second signer of", string(c), err)
		}
	}
''', imports=["testing"], needs="a message with two signers of which the second did not sign this content", breaks="a message verifies if one signer is right"),
 dict(id="p02-long-tag", prop="P27", pkg="fullsailor/pkcs7",
  edits=[("fullsailor/pkcs7/ber.go", "		obj = asn1Structured{\n			tagBytes: ber[tagStart:tagEnd],", "		obj = asn1Structured{\n			tagBytes: ber[tagStart : tagStart+1],")],
  demo='''
	for _, tag := range [][]byte{{0x1f, 0x20}, {0x1f, 0x81, 0x20}, {0x3f, 0x20}, {0x3f, 0x81, 0x20}} {
		in := vf.Cat(tag, []byte{2, 4, 0})
		der, err := ber2der(in)
		if err != nil {
			t.Fatal(err)
		}
		if string(der) != string(in) {
			t.Fatalf("%x is converted to %x", in, der)
		}
	}
''', imports=["testing"], needs="a constructed object with a tag number above 30", breaks="the object is read with its tag cut"),
 dict(id="a01-first-arc", prop="P26", pkg="internal/asn1andr",
  edits=[("internal/asn1andr/asn1.go", "	if v < 80 {", "	if v < 128 {")],
  demo='''
	for b, s := range map[byte]string{0: "0.0", 39: "0.39", 40: "1.0", 79: "1.39", 80: "2.0", 119: "2.39", 120: "2.40", 127: "2.47"} {
		var v asn1.ObjectIdentifier
		_, err := Unmarshal([]byte{6, 1, b}, &v)
		if err != nil || v.String() != s {
			t.Fatal(b, v, err)
		}
	}
''', imports=["testing", "encoding/asn1"], needs="an object identifier that starts with 2.40 or more, in one byte", breaks="it is read as one that does not exist"),
]
