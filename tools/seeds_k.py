L = "signingblock/schemev3lineage.go"
NODE = '''	cert, err := x509.ParseCertificate(vf.KeyE0.Cert())
	if err != nil {
		t.Fatal(err)
	}
	node := func() *V3LineageSigningCertificateNode {
		return &V3LineageSigningCertificateNode{SigningCert: cert, SigAlgorithm: SigEcdsaWithSha256, Signature: []byte{1, 2, 3}, Flags: 23}
	}
'''
I = ["bytes", "crypto/x509", "testing"]
SEEDS = [
 dict(id="k01-known-caps", prop="P35", pkg="signingblock", imports=I,
  needs="two lineage entries that differ in a capability that is not known",
  breaks="the entries count as equal",
  edits=[(L, "	if n.Flags != o.Flags {\n", "	if (n.Flags^o.Flags)&(CapInstalledData|CapSharedUserId|CapPermission|CapRollback|CapAuth) != 0 {\n")],
  demo=NODE + '''	a, b := node(), node()
	if !a.Equal(b) {
		t.Fatal("equal entries differ")
	}
	b.Flags |= 1 << 20
	if a.Equal(b) || b.Equal(a) {
		t.Fatal("different flags are equal")
	}
'''),
 dict(id="k02-signature-prefix", prop="P35", pkg="signingblock", imports=I,
  needs="two lineage entries of which the signature of one begins with that of the other",
  breaks="the entries count as equal, one way round",
  edits=[(L, "	if !bytes.Equal(n.Signature, o.Signature) {\n", "	if !bytes.HasPrefix(n.Signature, o.Signature) {\n")],
  demo=NODE + '''	a, b := node(), node()
	b.Signature = []byte{1, 2}
	if a.Equal(b) || b.Equal(a) {
		t.Fatal("different signatures are equal")
	}
'''),
 dict(id="k03-short-algorithm", prop="P35", pkg="signingblock", imports=I,
  needs="a lineage that names an algorithm of more than 16 bits",
  breaks="another algorithm is printed than the one in the file",
  edits=[("signingblock/signer.go", '	return fmt.Sprintf("0x%04x", uint32(algo))\n', '	return fmt.Sprintf("0x%04x", uint16(algo))\n')],
  demo=NODE + '''	n := node()
	n.SigAlgorithm = 0x70201
	var w bytes.Buffer
	if n.Dump(&w) != nil || !bytes.Contains(w.Bytes(), []byte("\\nSigAlgorithm: 0x70201\\n")) {
		t.Fatal(w.String())
	}
'''),
 dict(id="k04-old-history", prop="P35", pkg="signingblock", imports=I,
  needs="a lineage of which another one is the beginning",
  breaks="the lineages count as equal, one way round",
  edits=[(L, "	if len(l) != len(o) {\n", "	if len(l) > len(o) {\n")],
  demo=NODE + '''	a := V3LineageSigningCertificateNodeList{node()}
	b := V3LineageSigningCertificateNodeList{node(), node()}
	if a.Equal(b) || b.Equal(a) {
		t.Fatal("different lineages are equal")
	}
'''),
]
