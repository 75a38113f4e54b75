SEEDS = []
def S(id, prop, pkg, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))
READER = '''
// demoReader yields at most max bytes at once, and fails from call fail on.
type demoReader struct {
	*bytes.Reader
	max, fail, calls int
}

func (r *demoReader) Read(p []byte) (int, error) {
	r.calls++
	if r.fail == r.calls {
		return 0, io.ErrClosedPipe
	}
	if r.max != 0 && len(p) > r.max {
		p = p[:r.max]
	}
	return r.Reader.Read(p)
}
'''
A = '''	a := vf.Archive(vf.Member{Name: "AndroidManifest.xml", Data: vf.AppManifest(24, 28, 1)}, vf.Member{Name: "f", Data: []byte{1, 2, 3}})
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{vf.ChunkedDigest(vf.SHA256, a.Sections()...)}}
	f := a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode()))))
'''
IMP = ["bytes", "io", "testing"]
G = "signingblock/signingblock.go"
S("i01-footer-read", "P32", ".",
  [(G, '''	if _, err = io.ReadFull(s.file, footer); err != nil {''', '''	if _, err = s.file.Read(footer); err != nil {''')],
  A + '''	for _, max := range []int{0, 1, 7, 23} {
		if _, err := VerifyReader(&demoReader{Reader: bytes.NewReader(f), max: max}, nil); err != nil {
			t.Fatal(max, err)
		}
	}
''', "a reader that yields fewer bytes than asked for", "the signing block is taken for absent", imports=IMP, helpers=READER)
S("i02-zip-closed", "P32", ".",
  [("apkverifier.go", '''		if err != nil {
			return Result{}, err
		}
		defer optionalZip.Close()
	}
''', '''		if err != nil {
			return Result{}, err
		}
	}
	defer optionalZip.Close()
''')],
  A + '''	path := vf.File(f)
	defer vf.Remove(path)
	zip, err := apkparser.OpenZip(path)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := VerifyReader(&demoReader{Reader: bytes.NewReader(f)}, zip); err != nil {
		t.Fatal(err)
	}
	if b, err := zip.File["f"].ReadAll(100); err != nil || len(b) != 3 {
		t.Fatal(b, err)
	}
''', "a ZIP reader that is handed over and used on afterwards", "it is closed along the way", imports=IMP + ["github.com/avast/apkparser"], helpers=READER)
S("i03-open-failure", "P32", ".",
  [("apkverifier.go", '''	if !signingblock.IsSigningBlockNotFoundError(signingBlockError) {
		return certs,''', '''	if signingBlockError == nil || len(certs) != 0 {
		return certs,''')],
  '''	mf := vf.Section("Manifest-Version: 1.0")
	j := vf.NewJar(vf.Member{Name: "f", Data: []byte{1}})
	_ = mf
	a := j.Signed(vf.KeyE0)
	s := &vf.Signer{Key: vf.KeyE1, Digests: [][]byte{vf.ChunkedDigest(vf.SHA256, a.Sections()...)}}
	f := a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode()))))
	zip, err := apkparser.OpenZipReader(bytes.NewReader(f))
	if err != nil {
		t.Fatal(err)
	}
	for fail := 0; fail < 10; fail++ {
		certs, err := ExtractCertsReader(&demoReader{Reader: bytes.NewReader(f), fail: fail}, zip)
		if err == nil && !bytes.Equal(certs[0][0].Raw, vf.KeyE1.Cert()) {
			t.Fatal("other certificates after a failure of read", fail)
		}
	}
''', "a file whose first bytes cannot be read at first", "the certificates of the v1 signature are extracted from a file signed with a newer scheme", imports=IMP + ["github.com/avast/apkparser"], helpers=READER)
S("i04-extract-leak", "P32", ".",
  [(G, '''	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	return ExtractCertsReader(f, minSdkVersion, maxSdkVersion)
''', '''	f, err := os.Open(path)
	if err != nil {
		return
	}
	if certs, err = ExtractCertsReader(f, minSdkVersion, maxSdkVersion); err != nil {
		return
	}
	return certs, f.Close()
''')],
  '''	path := vf.File([]byte("no archive, but long enough for an end record of a ZIP file"))
	defer vf.Remove(path)
	if _, err := signingblock.ExtractCerts(path, 1, 34); err == nil {
		t.Fatal("accepted")
	}
	if vf.OpenCount(path) != 0 {
		t.Fatal("left open")
	}
''', "a file without signing block", "the file stays open", imports=["testing", "github.com/avast/apkverifier/signingblock"])
S("i05-reader-range", "P32", ".",
  [("apkverifier.go", '''	return VerifyWithSdkVersionReader(r, optionalZip, apilevel.V_AnyMin, apilevel.V_AnyMax)
}

// VerifyWithSdkVersion see''', '''	return VerifyWithSdkVersionReader(r, optionalZip, apilevel.V7_0_Nougat, apilevel.V_AnyMax)
}

// VerifyWithSdkVersion see''')],
  '''	am := vf.Member{Name: "AndroidManifest.xml", Data: vf.AppManifest(1, 20, 1)}
	a := vf.Archive(am)
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{vf.ChunkedDigest(vf.SHA256, a.Sections()...)}}
	f := a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode()))))
	if _, err := VerifyReader(bytes.NewReader(f), nil); err == nil {
		t.Fatal("accepted although older platforms find no signature")
	}
''', "an app for platforms without v2 that has no v1 signature", "it is accepted by this entry point", imports=["bytes", "testing"])
S("i06-chunk-read", "P32", ".",
  [("signingblock/datasource.go", '''	_, err := io.CopyN(w, se.file, size)
	return err
''', '''	buf := make([]byte, size)
	n, err := se.file.Read(buf)
	if err == io.EOF {
		err = nil
	}
	if err == nil {
		_, err = w.Write(buf[:n])
	}
	return err
''')],
  A + '''	for _, max := range []int{0, 1, 7, 100} {
		if _, err := VerifyReader(&demoReader{Reader: bytes.NewReader(f), max: max}, nil); err != nil {
			t.Fatal(max, err)
		}
	}
''', "a reader that yields fewer bytes than asked for", "right APKs are rejected", imports=IMP, helpers=READER)
