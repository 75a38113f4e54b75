A = '''	a := &vf.Apk{Before: []byte{1, 2, 3, 4}, CD: []byte{5, 6}, Comment: nil}
	d := vf.ChunkedDigest(vf.SHA256, a.Sections()...)
	_ = d
'''
SEEDS = [
 dict(id="b01-trailing-data", prop="P01", pkg="signingblock",
  edits=[("signingblock/signingblock.go", "if int(recordCommentSize) == commentSize {", "if int(recordCommentSize) <= commentSize {")],
  demo='''
	// the record says its comment has 0 bytes, but 2 bytes follow it
	a := &vf.Apk{Before: []byte{1, 2, 3, 4}, CD: []byte{5, 6}, Comment: []byte{0, 0}}
	mk := func(n byte) []byte {
		secs := a.Sections()
		secs[2][20] = n
		s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{vf.ChunkedDigest(vf.SHA256, secs...)}}
		f := a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode()))))
		f[len(f)-4] = n
		return f
	}
	if _, err := demoVerify(mk(2), 24, 27); err != nil {
		t.Fatal(err)
	}
	if _, err := demoVerify(mk(0), 24, 27); err == nil {
		t.Fatal("a file with data after its end record verifies")
	}
''', needs="an end record whose comment length is smaller than what follows it, with a signature made for that", breaks="the end record that is used no longer ends the file"),
 dict(id="b02-zip64-comment", prop="P01", pkg="signingblock",
  edits=[("signingblock/signingblock.go", "locatorPos := s.eocdOffset - zip64LocatorSize", "locatorPos := s.fileSize - eocdRecMinSize - zip64LocatorSize")],
  demo='''
	for n := 0; n < 3; n++ {
		a := &vf.Apk{Before: []byte{1, 2, 3, 4}, CD: vf.Cat([]byte{5}, vf.LE32(0x07064b50), make([]byte, 16)), Comment: make([]byte, n)}
		s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{vf.ChunkedDigest(vf.SHA256, a.Sections()...)}}
		if _, err := demoVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode())))), 24, 27); err == nil {
			t.Fatal("a ZIP64 archive verifies", n)
		}
	}
''', needs="a ZIP64 archive with an archive comment", breaks="ZIP64 archives with a comment are not refused"),
 dict(id="b03-empty-values", prop="P02", pkg="signingblock",
  edits=[("signingblock/signingblock.go", '''			res.ExtraBlocks[bid] = block
		}

		if _, err = pairs.Seek(nextEntryPos, io.SeekStart); err != nil {''', '''			if len(block) != 0 {
				res.ExtraBlocks[bid] = block
			}
		}

		if _, err = pairs.Seek(nextEntryPos, io.SeekStart); err != nil {''')],
  demo=A+'''
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}}
	res, err := demoVerify(a.File(vf.SigningBlock(vf.Pair(0x1234, nil), vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode())))), 24, 27)
	if err != nil {
		t.Fatal(err)
	}
	if v, ok := res.ExtraBlocks[0x1234]; !ok || len(v) != 0 {
		t.Fatal("an empty unknown pair is not returned")
	}
''', needs="an unknown pair with a value of length zero", breaks="the pair is not returned to the caller"),
 dict(id="b04-chunk-count", prop="P03", pkg="signingblock",
  edits=[("signingblock/datasource.go", "	return (se.end - se.start + maxChunkSize - 1) / maxChunkSize", "	return (se.end-se.start)/maxChunkSize + 1")],
  demo='''
	for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1} {
		a := &vf.Apk{Before: make([]byte, n), CD: []byte{5, 6}}
		s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{vf.ChunkedDigest(vf.SHA256, a.Sections()...)}}
		if _, err := demoVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode())))), 24, 27); err != nil {
			t.Fatal(n, err)
		}
	}
''', needs="a section whose size is a multiple of 1 MB", breaks="correct APKs with such sections are refused (and wrong digests accepted)"),
 dict(id="b05-digest-prefix", prop="P03", pkg="signingblock",
  edits=[("signingblock/signingblock.go", "if !bytes.Equal(expectedDigests[algo], actualDigests[algo]) {", "if !bytes.HasPrefix(actualDigests[algo], expectedDigests[algo]) {")],
  demo=A+'''
	for n := 0; n <= 32; n++ {
		s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d[:n]}}
		_, err := demoVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode())))), 24, 27)
		if (err == nil) != (n == 32) {
			t.Fatal(n, err)
		}
	}
''', needs="signed data whose content digest is a proper prefix of the right one", breaks="APKs with a truncated (even empty) content digest are accepted"),
 dict(id="b06-verity-level", prop="P04", pkg="signingblock",
  edits=[("signingblock/verity.go", "if chunkCount*digestSize <= verityChunkSize {", "if chunkCount*digestSize < verityChunkSize {")],
  demo='''
	// 128 pages: their hashes fill exactly one page
	cd := make([]byte, 128*4096-22)
	a := &vf.Apk{CD: cd}
	var hashes []byte
	stream := vf.Cat(a.Sections()...)
	for i := 0; i < len(stream); i += 4096 {
		hashes = append(hashes, vf.Digest(vf.SHA256, vf.Cat(make([]byte, 8), stream[i:i+4096]))...)
	}
	root := vf.Digest(vf.SHA256, vf.Cat(make([]byte, 8), hashes))
	s := &vf.Signer{Key: vf.KeyE0, Algs: []uint32{vf.AlgVEc256}, Digests: [][]byte{vf.Cat(root, vf.LE64(uint64(len(stream))))}}
	if _, err := demoVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode())))), 28, 28); err != nil {
		t.Fatal(err)
	}
''', needs="a verity-signed APK of exactly 128 (or 128^2) pages", breaks="the digest of such APKs is not the Merkle root"),
 dict(id="b07-signature-of-other-alg", prop="P06", pkg="signingblock",
  edits=[("signingblock/signer.go", '''		if s.bestAlgo == -1 || compareAlgos(algo, s.bestAlgo) > 0 {
			s.bestAlgo = algo
''', '''		if s.bestAlgo == -1 || compareAlgos(algo, s.bestAlgo) >= 0 {
			if s.bestAlgo == -1 || algo > s.bestAlgo {
				s.bestAlgo = algo
			}
''')],
  demo=A+'''
	d5 := vf.ChunkedDigest(vf.SHA512, a.Sections()...)
	s := &vf.Signer{Key: vf.KeyR0, Algs: []uint32{vf.AlgRsa512, vf.AlgPss512}, Digests: [][]byte{d5, d5}}
	if _, err := demoVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode())))), 24, 27); err != nil {
		t.Fatal(err)
	}
''', needs="a signer with two algorithms of equal strength, the one with the larger identifier first", breaks="the signature of one algorithm is checked as the other's"),
 dict(id="b08-digest-of-preceding", prop="P07", pkg="signingblock",
  edits=[("signingblock/signer.go", "if previousSignerDigest != nil && !bytes.Equal(previousSignerDigest, contentDigest) {", "if len(previousSignerDigest) == len(contentDigest) && !bytes.Equal(previousSignerDigest, contentDigest) {")],
  demo=A+'''
	s0 := &vf.Signer{Key: vf.KeyR0, Digests: [][]byte{{1, 2, 3}}}
	s1 := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}}
	if _, err := demoVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s0.Encode(), s1.Encode())))), 24, 27); err == nil {
		t.Fatal("a signer with another content digest is accepted")
	}
''', needs="two signers of which an earlier one has a content digest of another length", breaks="the earlier signer's digest is ignored although it did not sign this content"),
 dict(id="b09-stripping-min-sdk", prop="P08", pkg="signingblock",
  edits=[("signingblock/schemev2.go", "if !apilevel.SupportsSigV3(s.maxSdkVersion) {", "if !apilevel.SupportsSigV3(s.minSdkVersion) {")],
  demo=A+'''
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}, Attrs: [][]byte{vf.Attr(0xbeeff00d, vf.LE32(3))}}
	f := a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode()))))
	if _, err := demoVerify(f, 24, 27); err != nil {
		t.Fatal(err)
	}
	if _, err := demoVerify(f, 24, 30); err == nil {
		t.Fatal("a stripped v3 signature is not noticed")
	}
''', needs="a stripped APK verified for a range from below to above Android 9", breaks="stripping of the v3 signature goes unnoticed"),
 dict(id="b10-overlap", prop="P09", pkg="signingblock",
  edits=[("signingblock/schemev3.go", "} else if currentMin != lastMax+1 {", "} else if currentMin > lastMax+1 {")],
  demo=A+'''
	mk := func(k *vf.Key, lo, hi uint32) []byte {
		return (&vf.Signer{Key: k, Digests: [][]byte{d}, V3: true, Min: lo, Max: hi}).Encode()
	}
	f := func(l1 uint32) []byte {
		return a.File(vf.SigningBlock(vf.Pair(vf.IDv3, vf.SchemeBlock(mk(vf.KeyE0, 28, 30), mk(vf.KeyR0, l1, 99)))))
	}
	if _, err := demoVerify(f(31), 28, 35); err != nil {
		t.Fatal(err)
	}
	if _, err := demoVerify(f(30), 28, 35); err == nil {
		t.Fatal("overlapping ranges are accepted")
	}
''', needs="two v3 signers with overlapping SDK ranges", breaks="ranges that overlap are accepted"),
 dict(id="b11-cycle", prop="P10", pkg="signingblock",
  edits=[("signingblock/schemev3.go", '''		certHistory = append(certHistory, lastCert)
''', '''		certHistory = append(certHistory[:0], lastCert)
''')],
  helpers='''func demoNode(k *vf.Key, parentAlg, alg uint32, by *vf.Key) []byte {
	sd := vf.Cat(vf.LP(k.Cert()), vf.LE32(parentAlg))
	var sig []byte
	if by != nil {
		sig = vf.AlgSign(by, parentAlg, sd)
	}
	return vf.LP(vf.LP(sd), vf.LE32(23), vf.LE32(alg), vf.LP(sig))
}

''',
  demo=A+'''
	const r, e = vf.AlgRsa256, vf.AlgEc256
	try := func(k *vf.Key, nodes ...[]byte) error {
		l := vf.Attr(0x3ba06f8c, vf.Cat(vf.LE32(1), vf.Cat(nodes...)))
		s := &vf.Signer{Key: k, Digests: [][]byte{d}, V3: true, Min: 28, Max: 99, Attrs: [][]byte{l}}
		_, err := demoVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv3, vf.SchemeBlock(s.Encode())))), 28, 30)
		return err
	}
	if err := try(vf.KeyR1, demoNode(vf.KeyR0, 0, r, nil), demoNode(vf.KeyE0, r, e, vf.KeyR0), demoNode(vf.KeyR1, e, r, vf.KeyE0)); err != nil {
		t.Fatal(err)
	}
	// E0, R0, E0, R1: a certificate repeats, but not next to itself
	if try(vf.KeyR1, demoNode(vf.KeyE0, 0, e, nil), demoNode(vf.KeyR0, e, r, vf.KeyE0), demoNode(vf.KeyE0, r, e, vf.KeyR0), demoNode(vf.KeyR1, e, r, vf.KeyE0)) == nil {
		t.Fatal("a lineage with a repeated certificate is accepted")
	}
''', needs="a lineage in which a certificate returns after another one", breaks="a certificate repeats in the reported lineage"),
 dict(id="b12-rotation-min", prop="P11", pkg="signingblock",
  edits=[("signingblock/schemev31.go", '''		if signer.minSdkVersion < s.backendV3.rotationMinSdkVersion {
			s.backendV3.rotationMinSdkVersion = signer.minSdkVersion
		}
''', '''		s.backendV3.rotationMinSdkVersion = signer.minSdkVersion
		break
''')],
  demo=A+'''
	mk := func(k *vf.Key, lo, hi uint32, attrs ...[]byte) []byte {
		return (&vf.Signer{Key: k, Digests: [][]byte{d}, V3: true, Min: lo, Max: hi, Attrs: attrs}).Encode()
	}
	v3 := vf.SchemeBlock(mk(vf.KeyR1, 24, 32, vf.Attr(attrV3MinSdkVersion, vf.LE32(33))))
	f := a.File(vf.SigningBlock(vf.Pair(vf.IDv31, vf.SchemeBlock(mk(vf.KeyR0, 34, 99), mk(vf.KeyE0, 33, 33))), vf.Pair(vf.IDv3, v3)))
	if _, err := demoVerify(f, 28, 35); err != nil {
		t.Fatal(err)
	}
''', needs="a v3.1 block whose first signer is not the one for the lowest release", breaks="the wrong rotation release is compared with the declared one"),
 dict(id="b13-fallback-on-pie", prop="P12", pkg="signingblock",
  edits=[("signingblock/signingblock.go", "minSdkVersion < apilevel.V9_0_Pie && blocks", "!apilevel.RequiresSandboxV2(minSdkVersion) && minSdkVersion <= apilevel.V9_0_Pie && blocks")],
  demo=A+'''
	v2 := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}}
	v3 := &vf.Signer{Key: vf.KeyR0, Digests: [][]byte{{1}}, V3: true, Min: 28, Max: 99}
	f := a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(v2.Encode())), vf.Pair(vf.IDv3, vf.SchemeBlock(v3.Encode()))))
	if _, err := demoVerify(f, 27, 30); err != nil {
		t.Fatal(err)
	}
	if _, err := demoVerify(f, 28, 30); err == nil {
		t.Fatal("fell back to v2 although every requested platform knows v3")
	}
''', needs="an invalid v3 and a valid v2 signature, verified from Android 9 on", breaks="the valid older signature hides the invalid newer one on platforms that know it"),
]
SEEDS[-1]["edits"] = [("signingblock/signingblock.go", "minSdkVersion < apilevel.V9_0_Pie && blocks", "minSdkVersion <= apilevel.V9_0_Pie && blocks")]
