package apkverifier

import (
	"bytes"
	"crypto/x509"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P25

func zzSameChains(a, b [][]*x509.Certificate) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if string(a[i][j].Raw) != string(b[i][j].Raw) {
				return false
			}
		}
	}
	return true
}

// zzAgain verifies and extracts once in any one order of maps, then in every order, on a new and a given ZIP reader.
func zzAgain(f []byte, min, max int32, extract bool) {
	var certs1 [][]*x509.Certificate
	var err1 error
	res1 := Result{}
	if extract {
		certs1, err1 = ExtractCertsReader(bytes.NewReader(f), nil)
	} else {
		res1, err1 = zzVerify(f, min, max)
		certs1 = res1.SignerCerts
	}
	var zip *apkparser.ZipReader
	r := bytes.NewReader(f)
	if vf.Choice("zip given", 2) == 1 {
		zip, _ = apkparser.OpenZipReader(r)
	}
	vf.MapNondet(true)
	var certs2 [][]*x509.Certificate
	var err2 error
	res2 := Result{}
	if extract {
		certs2, err2 = ExtractCertsReader(r, zip)
	} else {
		res2, err2 = VerifyWithSdkVersionReader(r, zip, min, max)
		certs2 = res2.SignerCerts
	}
	vf.MapNondet(false)
	vf.ObsErr("err", err1)
	vf.Assert((err1 == nil) == (err2 == nil), "the verdict differs between two runs")
	vf.Assert(res1.SigningSchemeId == res2.SigningSchemeId, "the scheme differs between two runs")
	vf.Assert(zzSameChains(certs1, certs2), "the certificates or their order differ between two runs")
	b1, b2 := res1.SigningBlockResult, res2.SigningBlockResult
	vf.Assert((b1 == nil) == (b2 == nil), "the signing block is reported in one of two runs")
	if b1 != nil && b2 != nil {
		vf.Assert(len(b1.Errors) == len(b2.Errors) && len(b1.Warnings) == len(b2.Warnings) && len(b1.ExtraBlocks) == len(b2.ExtraBlocks), "the details of the signing block differ between two runs")
		vf.Assert((b1.SourceStamp == nil) == (b2.SourceStamp == nil), "a source stamp is reported in one of two runs")
		if b1.SourceStamp != nil && b2.SourceStamp != nil {
			vf.Assert((len(b1.SourceStamp.Errors) == 0) == (len(b2.SourceStamp.Errors) == 0), "the source stamp's verdict differs between two runs")
			vf.Assert(len(b1.SourceStamp.Warnings) == len(b2.SourceStamp.Warnings), "the source stamp's warnings differ between two runs")
		}
	}
	if err1 == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

// v1 signatures: several signers of whom one may be odd, several files.
func VF_P25_v1() {
	files := zzFiles
	names := []string{files[0].Name, files[1].Name, files[2].Name}
	mf := []byte(zzMain)
	var sections [][]byte
	for _, f := range files {
		s := zzSection(f.Name, f.Data)
		sections = append(sections, s)
		mf = append(mf, s...)
	}
	keys := []*vf.Key{vf.KeyE0, vf.KeyE1, vf.KeyR0}
	places := []string{"META-INF/A", "META-INF/B", "META-INF/C"}
	if vf.Choice("folder", 2) == 1 {
		places[1] = "META-INF/x/A"
	}
	n := 2 + vf.Choice("signers", 1+vf.Tier())
	odd := vf.Choice("odd one", n)
	kind := vf.Choice("kind", 8)
	var sigs []*zzSig
	for i := 0; i < n; i++ {
		s := &zzSig{name: places[i], key: keys[i], sf: zzMultiSF(mf, sections, names, 7)}
		if i == odd {
			switch kind {
			case 1:
				s.block = vf.P7([][]byte{s.key.Cert()}, (&vf.P7Signer{Key: s.key}).Encode([]byte("other")))
			case 2: // only some files
				s.sf = zzMultiSF(mf, sections, names, 3)
			case 3: // of another manifest, some sections of which are the same
				s.sf = vf.Cat(zzSF([]byte("other")), zzSection(names[0], sections[0]), zzSection(names[1], []byte("other")), zzSection(names[2], sections[2]))
			case 4: // declares what is not there
				s.sf = zzMultiSF(mf, sections, names, 7, "X-Android-APK-Signed: 2")
			case 5:
				s.key = keys[(i+1)%n]
			case 6: // no version
				s.sf = s.sf[len("Signature-Version: 1.0\r\n"):]
			case 7: // without whole-file digest, of other sections
				s.sf = vf.Cat(vf.Section("Signature-Version: 1.0"), zzSection(names[0], sections[0]), zzSection("c", []byte("other")), zzSection(names[1], sections[1]))
			}
		}
		sigs = append(sigs, s)
	}
	extract := vf.Choice("extract", 2) == 1
	zzAgain(zzArchive(mf, sigs, files...).File(nil), 1, 25, extract)
}

// Block signatures: several algorithms with several digests, right or wrong, under both block schemes.
func VF_P25_block() {
	am := vf.Member{Name: "AndroidManifest.xml", Data: vf.AppManifest(24, 28, 1)}
	pad := make([]byte, 4096-2*(30+1)-19-len(am.Data)-1) // the verity algorithm needs whole pages
	a := vf.Archive(am, vf.Member{Name: "a", Data: []byte("x")}, vf.Member{Name: "b", Data: pad})
	if r := len(a.Before) % 4096; r != 0 {
		pad = make([]byte, len(pad)+4096-r)
		a = vf.Archive(am, vf.Member{Name: "a", Data: []byte("x")}, vf.Member{Name: "b", Data: pad})
	}
	d1 := vf.ChunkedDigest(vf.SHA256, a.Sections()...)
	d2 := vf.ChunkedDigest(vf.SHA512, a.Sections()...)
	wrong := vf.Choice("wrong", 4)
	if wrong == 1 {
		d1 = vf.Digest(vf.SHA256, nil)
	} else if wrong == 2 {
		d2 = vf.Digest(vf.SHA512, nil)
	}
	r := vf.KeyR0
	s := &vf.Signer{Key: r, Algs: []uint32{vf.AlgRsa512, vf.AlgPss256, vf.AlgRsa256}, Digests: [][]byte{d2, d1, d1}}
	e := &vf.Signer{Key: vf.KeyE0, Algs: []uint32{vf.AlgEc256}, Digests: [][]byte{d1}}
	if wrong == 3 {
		e.Digests = [][]byte{vf.Digest(vf.SHA256, []byte("x"))}
	}
	e.V3, e.Min, e.Max = true, 28, zzMaxInt
	var pairs [][]byte
	which := vf.Choice("blocks", 3)
	if which != 1 {
		t := *e
		t.V3 = false
		pairs = append(pairs, vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode(), t.Encode())))
	}
	if which != 0 {
		pairs = append(pairs, vf.Pair(vf.IDv3, vf.SchemeBlock(e.Encode())))
	}
	pairs = append(pairs, vf.Pair(0x12345678, []byte("x")), vf.Pair(0x12345679, []byte("y")))
	zzAgain(a.File(vf.SigningBlock(pairs...)), 24, []int32{27, 33}[vf.Choice("max", 2)], vf.Choice("extract", 2) == 1)
}
