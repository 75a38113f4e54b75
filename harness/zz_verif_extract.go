package apkverifier

import (
	"bytes"
	"crypto/x509"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P21

func zzExtract(f []byte) ([][]*x509.Certificate, error) {
	r := bytes.NewReader(f)
	if vf.Choice("zip given", 2) == 1 {
		zip, err := apkparser.OpenZipReader(r)
		vf.Assume(err == nil)
		return ExtractCertsReader(r, zip)
	}
	return ExtractCertsReader(r, nil)
}

// Blocks and v1 signatures right, wrong or absent.
func VF_P21_table() {
	blocks := [][2]int{{0, 0}, {1, 0}, {2, 0}, {0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 1}, {2, 2}}
	b := blocks[vf.Choice("blocks", 9)]
	c := &zzCase{v2: b[0], v3: b[1], v1: vf.Choice("v1", 4), target: 20, min: []int{1, 24}[vf.Choice("from", 2)], sandbox: 1}
	f := c.file()
	res, err := zzVerify(f, -1, zzMaxInt)
	certs, xerr := zzExtract(f)
	vf.ObsErr("err", err)
	vf.ObsErr("xerr", xerr)
	if err == nil && !(c.v3 == 2 && c.v2 != 0) {
		vf.Assert(xerr == nil, "certificates of a valid APK cannot be extracted")
		vf.Assert(zzSameChains(res.SignerCerts, certs), "other certificates are extracted than verified")
		vf.Cover("valid")
	}
	if c.v2 == 0 && c.v3 == 0 {
		vf.Assert(c.v1 != 0 || xerr != nil, "an APK without signature yields no error")
		vf.Assert(c.v1 != 3 || xerr != nil, "the certificate of an invalid v1 signature is extracted without an error")
	}
	vf.Cover("done")
}

// Block signatures by several signers.
func VF_P21_block() {
	am := vf.Member{Name: "AndroidManifest.xml", Data: vf.AppManifest(24, 28, 1)}
	a := vf.Archive(am, zzFiles[1])
	d := vf.ChunkedDigest(vf.SHA256, a.Sections()...)
	keys := []*vf.Key{vf.KeyE0, vf.KeyR0, vf.KeyE1, vf.KeyD1}
	which := vf.Choice("scheme", 3)
	n := 1 + vf.Choice("signers", 2)
	if which == 2 {
		n++ // the last of them is the one of the base block
	}
	odd := vf.Choice("odd one", n)
	kind := vf.Choice("kind", 6)
	second := -1
	if vf.Tier() > 0 {
		second = vf.Choice("other odd one", n)
	}
	var enc [][]byte
	all, own := true, make([]bool, n)
	for i := 0; i < n; i++ {
		own[i] = true
		s := &vf.Signer{Key: keys[i], Digests: [][]byte{d}}
		if which > 0 {
			s.V3 = true
			s.Min, s.Max = 28, zzMaxInt
			if which == 2 {
				s.Min = 33
			}
			if i == 0 && (n == 2 && which == 1 || n == 3 && which == 2) {
				s.Max = 33
			} else if i == 1 && (n == 2 && which == 1 || n == 3 && which == 2) {
				s.Min = 34
			}
			if which == 2 && i == n-1 {
				s.Min, s.Max = 28, 32
			}
		}
		k := 0
		if i == odd {
			k = kind
		} else if i == second {
			k = 1 + vf.Choice("other kind", 5)
		}
		all = all && (k == 0 || k == 5)
		switch k {
		case 3: // of other content
			s.Digests = [][]byte{vf.Digest(vf.SHA256, []byte("other"))}
		case 4: // the certificate of another
			s.Certs = [][]byte{vf.KeyR3.Cert()}
		case 5: // with its issuer
			s.Certs = [][]byte{s.Key.Cert(), vf.KeyR3.Cert()}
		}
		sd := s.SignedData()
		alg := vf.AlgDefault(s.Key)
		sig := vf.AlgSign(s.Key, alg, sd)
		if k == 1 {
			sig = zzXor("sig", sig, len(sig)-1)
		} else if k == 2 {
			sig = vf.AlgSign(s.Key, alg, []byte("other"))
		}
		own[i] = k != 1 && k != 2
		enc = append(enc, s.EncodeWith(sd, vf.LP(vf.LE32(alg), vf.LP(sig)), s.Key.SPKI()))
	}
	var block []byte
	switch which {
	case 0:
		block = vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(enc...)))
	case 1:
		block = vf.SigningBlock(vf.Pair(vf.IDv3, vf.SchemeBlock(enc...)))
	case 2:
		block = vf.SigningBlock(vf.Pair(vf.IDv3, vf.SchemeBlock(enc[n-1])), vf.Pair(vf.IDv31, vf.SchemeBlock(enc[:n-1]...)))
	}
	f := a.File(block)
	res, err := zzVerify(f, -1, zzMaxInt)
	certs, xerr := zzExtract(f)
	vf.ObsErr("err", err)
	vf.ObsErr("xerr", xerr)
	vf.ObsInt("certs", len(certs))
	vf.Assert((err == nil) == all, "the APK is not verified as expected")
	if err == nil {
		vf.Assert(xerr == nil, "certificates of a valid APK cannot be extracted")
		vf.Assert(zzSameChains(res.SignerCerts, certs), "other certificates are extracted than verified")
		vf.Cover("valid")
	}
	for _, ch := range certs {
		for i := range own {
			vf.Assert(xerr != nil || own[i] || len(ch) == 0 || !zzCertIs(ch[0], keys[i]), "the certificate of an invalid signature is extracted without an error")
		}
	}
	if xerr != nil {
		vf.Cover("error")
	}
}

// v1 signatures by several signers, with chains.
func VF_P21_v1() {
	files := []vf.Member{{Name: "AndroidManifest.xml", Data: vf.AppManifest(1, 20, 1)}, zzFiles[1]}
	names := []string{files[0].Name, files[1].Name}
	mf := []byte(zzMain)
	var sections [][]byte
	for _, f := range files {
		s := zzSection(f.Name, f.Data)
		sections = append(sections, s)
		mf = append(mf, s...)
	}
	_, _, caName := vf.CertParts(vf.KeyR1.Cert())
	n := 1 + vf.Choice("signers", 2+vf.Tier())
	keys := []*vf.Key{vf.KeyE0, vf.KeyE1, vf.KeyR0}
	places := []string{"META-INF/B", "META-INF/A", "META-INF/x/A"}
	odd, kind := vf.Choice("which", n), vf.Choice("kind", 9)
	broken, ignored := false, false
	var sigs []*zzSig
	for i := 0; i < n; i++ {
		s := &zzSig{name: places[i], key: keys[i], sf: zzMultiSF(mf, sections, names, 3)}
		if i == odd {
			switch kind {
			case 1:
				sig := vf.Sign(s.key, "pkcs1", vf.SHA256, s.sf)
				s.block = vf.P7([][]byte{s.key.Cert()}, (&vf.P7Signer{Key: s.key, Sig: zzXor("sig", sig, len(sig)-1)}).Encode(s.sf))
				broken = true
			case 2:
				s.block = vf.P7([][]byte{s.key.Cert()}, (&vf.P7Signer{Key: s.key}).Encode([]byte("other")))
				broken = true
			case 3: // for another manifest
				s.sf = vf.Cat(zzSF([]byte("other")), zzSection(names[0], []byte("other")))
				ignored = true
			case 4: // no version that is known
				s.sf = s.sf[len("Signature-Version: 1.0\r\n"):]
				ignored = true
			case 5:
				s.block = []byte{0x30, 0}
				broken = true
			case 6: // a chain
				_, _, subject := vf.CertParts(s.key.Cert())
				c := vf.CertNamed(s.key.Cert(), caName, subject)
				cs := [][]byte{c, vf.KeyR1.Cert()}
				if vf.Choice("issuer first", 2) == 1 {
					cs = [][]byte{vf.KeyR1.Cert(), c}
				}
				s.block = vf.P7(cs, (&vf.P7Signer{Key: s.key, Cert: c}).Encode(s.sf))
			case 7: // a second record that is wrong
				s.block = vf.P7([][]byte{s.key.Cert(), vf.KeyR2.Cert()}, (&vf.P7Signer{Key: s.key}).Encode(s.sf), (&vf.P7Signer{Key: vf.KeyR2}).Encode([]byte("other")))
			case 8: // only one file
				s.sf = zzMultiSF(mf, sections, names, 1)
			}
		}
		sigs = append(sigs, s)
	}
	f := zzArchive(mf, sigs, files...).File(nil)
	res, err := zzVerify(f, -1, zzMaxInt)
	certs, xerr := zzExtract(f)
	vf.ObsErr("err", err)
	vf.ObsErr("xerr", xerr)
	vf.Assert(!broken || xerr != nil, "the certificate of an invalid signature is extracted without an error")
	if err == nil {
		vf.Assert(xerr == nil, "certificates of a valid APK cannot be extracted")
		if ignored { // extraction does not look at files
			vf.Assert(len(certs) == n && len(res.SignerCerts) == n-1, "an ignored signature file changes which certificates are extracted")
			certs = append(append([][]*x509.Certificate{}, certs[:odd]...), certs[odd+1:]...)
		}
		vf.Assert(zzSameChains(res.SignerCerts, certs), "other certificates are extracted than verified")
		vf.Cover("valid")
	}
	if xerr != nil {
		vf.Cover("error")
	}
}

// Any byte of a signer record replaced.
func VF_P21_byte() {
	am := vf.Member{Name: "AndroidManifest.xml", Data: vf.AppManifest(24, 28, 1)}
	a := vf.Archive(am, zzFiles[1])
	k := []*vf.Key{vf.KeyE0, vf.KeyR0}[vf.Choice("key", 1+vf.Tier())]
	s := &vf.Signer{Key: k, Digests: [][]byte{vf.ChunkedDigest(vf.SHA256, a.Sections()...)}}
	id := uint32(vf.IDv2)
	if vf.Choice("scheme", 2) == 1 {
		s.V3, s.Min, s.Max = true, 28, zzMaxInt
		id = vf.IDv3
	}
	enc := s.Encode()
	pos := vf.Choice("position", len(enc))
	sd := s.SignedData()
	f := a.File(vf.SigningBlock(vf.Pair(id, vf.SchemeBlock(zzXor("change", enc, pos)))))
	certs, xerr := zzExtract(f)
	vf.ObsErr("xerr", xerr)
	if xerr == nil {
		vf.Assert(pos < 4 || pos >= 4+len(sd), "certificates of altered signed data are extracted without an error")
		vf.Assert(len(certs) == 1 && len(certs[0]) == 1 && zzCertIs(certs[0][0], k), "another certificate than the signer's is extracted")
		vf.Cover("no error")
	} else {
		vf.Cover("error")
	}
}
