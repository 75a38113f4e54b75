package apkverifier

import (
	"bytes"

	"github.com/avast/apkverifier/internal/vf"
)

// ---- P29

// zzNoPanic verifies or extracts, and describes the certificates of an APK without an error.
func zzNoPanic(f []byte, min, max int32) {
	if vf.Choice("extract", 2) == 1 {
		certs, err := ExtractCertsReader(bytes.NewReader(f), nil)
		vf.ObsErr("extract", err)
		if err == nil {
			zzDescribe(PickBestApkCert(certs))
		}
		vf.Cover("extracted")
		return
	}
	res, err := zzVerify(f, min, max)
	vf.ObsErr("err", err)
	if err == nil {
		zzDescribe(PickBestApkCert(res.SignerCerts))
	}
	vf.Cover("done")
}

func zzDescribe(ci *CertInfo, _ any) {
	if ci != nil {
		_ = ci.String()
		_ = ci.SerialNumber.String()
	}
}

// One object of a PKCS#7 block malformed, certificates included; or of its signed attributes, which are signed as they are.
func VF_P29_block() {
	keys := []*vf.Key{vf.KeyE0, vf.KeyR0, vf.KeyD1}
	k := keys[vf.Choice("key", 1+2*vf.Tier())]
	mf, sf := zzJar(zzFiles[:1])
	s := &vf.P7Signer{Key: k, Digest: vf.OIDSHA256}
	attrs := [][]byte{vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDData)), vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, vf.Digest(vf.SHA256, sf)))}
	var block []byte
	issuer, _, _ := vf.CertParts(k.Cert())
	switch vf.Choice("attributes", 3) {
	case 0:
		block = vf.Reshape(vf.P7([][]byte{k.Cert()}, s.Encode(sf)), k.Cert(), issuer)
	case 1: // of the signer only
		s.Attrs = attrs
		block = vf.P7([][]byte{k.Cert()}, vf.Reshape(s.Encode(sf), issuer))
	case 2:
		s.Attrs = [][]byte{attrs[0], vf.Reshape(attrs[1])}
		if vf.Choice("which", 2) == 1 {
			s.Attrs = [][]byte{vf.Reshape(attrs[0]), attrs[1]}
		}
		block = vf.P7([][]byte{k.Cert()}, s.Encode(sf))
	}
	r := [][2]int32{{24, 25}, {1, 17}}[vf.Choice("range", 1+vf.Tier())]
	zzNoPanic(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: k, sf: sf, block: block}}, zzFiles[0]).File(nil), r[0], r[1])
}

// Any few bytes as manifest, signature file or block; also put in front of, or after, right ones, or with cut ones.
func VF_P29_files() {
	mf, sf := zzJar(zzFiles[:1])
	block := vf.P7([][]byte{vf.KeyE0.Cert()}, (&vf.P7Signer{Key: vf.KeyE0}).Encode(sf))
	w := vf.Choice("which", 3)
	b := [][]byte{mf, sf, block}
	some := func() []byte { return vf.Bytes("bytes", vf.Choice("size", 3+vf.Tier())) }
	switch vf.Choice("how", 4) {
	case 0:
		b[w] = some()
	case 1:
		b[w] = vf.Cat(some(), b[w])
	case 2:
		b[w] = vf.Cat(b[w], some())
	case 3:
		cuts := []int{1, 2, 3, 4, 5, 10, 20, 40, 60, 72, 80, 100}
		n := cuts[vf.Choice("cut", len(cuts))]
		if n > len(b[w]) {
			n = len(b[w])
		}
		b[w] = b[w][:len(b[w])-n]
		if vf.Choice("byte", 2) == 1 {
			b[w] = vf.Cat(b[w], vf.Bytes("bytes", 1))
		}
	}
	zzNoPanic(zzArchive(b[0], []*zzSig{{name: "META-INF/A", key: vf.KeyE0, sf: b[1], block: b[2]}}, zzFiles[0]).File(nil), 1, 25)
}

// Archives whose signature files have odd names, are missing, empty or come twice.
func VF_P29_members() {
	mf, sf := zzJar(zzFiles[:1])
	block := vf.P7([][]byte{vf.KeyE0.Cert()}, (&vf.P7Signer{Key: vf.KeyE0}).Encode(sf))
	names := []string{"META-INF/A.SF", "META-INF/A.EC", "META-INF/MANIFEST.MF", "META-INF/.SF", "META-INF/.EC", "META-INF/", "META-INF/A", "META-INF", ".SF", ".EC",
		"META-INF/A.sf", "META-INF/a.ec", "META-INF/B/A.SF", "META-INF/B/A.EC", "META-INF/.", "META-INF/A.RSA", "", "/", "META-INF/MANIFEST.SF", "META-INF/MANIFEST.MF.EC", "AndroidManifest.xml", "stamp-cert-sha256"}
	data := [][]byte{sf, block, nil, mf}
	if vf.Tier() == 0 {
		data = data[:3]
	}
	ms := []vf.Member{{Name: "META-INF/MANIFEST.MF", Data: mf}, {Name: "META-INF/A.SF", Data: sf}, {Name: "META-INF/A.EC", Data: block}, zzFiles[0]}
	for i := 0; i < 1+vf.Tier(); i++ {
		w := vf.Choice("which", 5)
		m := vf.Member{Name: names[vf.Choice("name", len(names))], Data: data[vf.Choice("data", len(data))]}
		if w < 4 && w < len(ms) {
			ms[w] = m
		} else {
			ms = append(ms, m)
		}
	}
	if drop := vf.Choice("drop", 5); drop < len(ms) && (len(ms) > 4 || vf.Tier() > 0) {
		ms = append(ms[:drop:drop], ms[drop+1:]...)
	}
	zzNoPanic(vf.Archive(ms...).File(nil), 1, 25)
}

// Any range of versions for an APK with or without each kind of signature.
func VF_P29_range() {
	c := &zzCase{v1: vf.Choice("v1", 3), v2: vf.Choice("v2", 3), v3: vf.Choice("v3", 3), min: 24, target: 20, sandbox: 1 + vf.Choice("sandbox", 2)}
	f := c.file()
	min, max := vf.I32("min"), vf.I32("max")
	res, err := zzVerify(f, min, max)
	vf.ObsErr("err", err)
	vf.Assert(min < 0 || min <= max || err != nil, "an empty range is accepted")
	_ = res
	vf.Cover("done")
}

// App manifests cut or with one byte replaced.
func VF_P29_axml() {
	am := vf.AppManifest(24, 28, 1)
	if vf.Choice("cut", 2) == 1 {
		am = am[:vf.Choice("to", len(am))]
	} else {
		i := vf.Choice("at", len(am))
		am[i] = []byte{0, 1, am[i] + 1}[vf.Choice("byte", 3)]
	}
	f := vf.Archive(vf.Member{Name: "AndroidManifest.xml", Data: am}, zzFiles[1]).File(nil)
	_, err := zzVerify(f, -1, zzMaxInt)
	vf.ObsErr("err", err)
	vf.Assert(err != nil, "an unsigned APK is accepted")
	vf.Cover("done")
}

// No certificates, or too few of other things, in the signers of signing blocks.
func VF_P29_empty() {
	am := vf.Member{Name: "AndroidManifest.xml", Data: vf.AppManifest(24, 28, 1)}
	a := vf.Archive(am, zzFiles[1])
	d := vf.ChunkedDigest(vf.SHA256, a.Sections()...)
	k := vf.KeyE0
	var encs [][]byte
	v3 := vf.Choice("v3", 2) == 1
	for i, n := 0, vf.Choice("signers", 3); i < n; i++ {
		s := &vf.Signer{Key: k, Digests: [][]byte{d}, V3: v3, Min: 24, Max: zzMaxInt}
		pub := k.SPKI()
		w := vf.Choice("what", 6)
		al := vf.AlgDefault(k)
		switch w {
		case 1:
			s.Certs = [][]byte{}
		case 2:
			s.Algs, s.Digests = []uint32{}, nil
		case 3:
			pub = nil
		case 5:
			s.Certs = [][]byte{{}}
		}
		sd := s.SignedData()
		sigs := vf.LP(vf.LE32(al), vf.LP(vf.AlgSign(k, al, sd)))
		if w == 4 {
			sigs = nil
		}
		encs = append(encs, s.EncodeWith(sd, sigs, pub))
	}
	id := uint32(vf.IDv2)
	if v3 {
		id = vf.IDv3
	}
	zzNoPanic(a.File(vf.SigningBlock(vf.Pair(id, vf.SchemeBlock(encs...)))), 24, 34)
}
