package apkverifier

import (
	"bytes"

	"github.com/avast/apkverifier/internal/vf"
)

// ---- P14

func zzDigestAttrs(suffix string, data []byte) []string {
	return []string{"SHA1" + suffix + ": " + vf.B64(vf.Digest(vf.SHA1, data)), "SHA-256" + suffix + ": " + vf.B64(vf.Digest(vf.SHA256, data))}
}

// All combinations of right, wrong and absent digests of the manifest, its main part and its sections in the signature file.
func VF_P14_cascade() {
	min, max := int32(1), int32(25)
	if vf.Tier() > 0 {
		min, max = zzRange()
	}
	files := zzFiles[:2]
	lf := vf.Choice("lf", 2) == 1
	full := vf.Tier() > 0
	nl := func(b []byte) []byte {
		if lf {
			return bytes.ReplaceAll(b, []byte("\r\n"), []byte("\n"))
		}
		return b
	}
	main := nl([]byte(zzMain))
	mf := main
	var secs [][]byte
	for _, f := range files {
		s := nl(zzSection(f.Name, f.Data))
		secs = append(secs, s)
		mf = vf.Cat(mf, s)
	}
	other := []byte("other")
	var attrs []string
	version := vf.Choice("version", 2) == 0
	if version {
		attrs = append(attrs, "Signature-Version: 1.0")
	}
	if !version && !full { // nothing else matters
		attrs = append(attrs, zzDigestAttrs("-Digest-Manifest", mf)...)
		res, err := zzVerify(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: vf.Cat(vf.Section(attrs...), zzSection("AndroidManifest.xml", secs[0]), zzSection("classes.dex", secs[1]))}}, files...).File(nil), min, max)
		vf.Assert(err != nil && res.SigningSchemeId == 1, "a signature file without a version is accepted")
		return
	}
	signtool := false
	switch vf.Choice("creator", 3) {
	case 1:
		attrs = append(attrs, "Created-By: 1.0 (signtool)")
		signtool = true
	case 2:
		attrs = append(attrs, "Created-By: 1.0 (Android SignTool)")
	}
	mainWrong := false
	switch vf.Choice("main", 5) {
	case 1:
		attrs = append(attrs, zzDigestAttrs("-Digest-Manifest-Main-Attributes", main)...)
	case 2:
		attrs = append(attrs, zzDigestAttrs("-Digest-Manifest-Main-Attributes", other)...)
		mainWrong = true
	case 3: // hidden behind an algorithm nobody knows
		attrs = append(attrs, "Digest-Algorithms: foo", "foo-Digest-Manifest-Main-Attributes: AA==")
		attrs = append(attrs, zzDigestAttrs("-Digest-Manifest-Main-Attributes", other)...)
		mainWrong = true
	case 4: // of the main part and one byte more
		attrs = append(attrs, zzDigestAttrs("-Digest-Manifest-Main-Attributes", mf[:len(main)+1])...)
		mainWrong = true
	}
	wholeName := vf.Choice("whole name", 2)
	whole := vf.Choice("whole", 3)
	wsuf := []string{"-Digest-Manifest", "-Digest"}[wholeName]
	switch whole {
	case 1:
		attrs = append(attrs, zzDigestAttrs(wsuf, mf)...)
	case 2:
		attrs = append(attrs, zzDigestAttrs(wsuf, mf[:len(mf)-1])...)
	}
	if whole == 0 {
		vf.Assume(wholeName == 0)
	}
	wholeOK := whole == 1 && (wholeName == 1) == signtool
	sf := nl(vf.Section(attrs...))
	listed, right, n := true, true, 0
	for i, f := range files {
		var s []byte
		switch vf.Choice("section", 5) {
		case 0:
			s = zzSection(f.Name, secs[i])
			if signtool && lf {
				right = false
			}
		case 1:
			s = zzSection(f.Name, other)
			right = false
		case 2:
			s = vf.Section("Name: " + f.Name)
			right = false
		case 3:
			listed = false
			continue
		case 4: // without the final line end, as signtool writes them
			s = zzSection(f.Name, secs[i][:len(secs[i])-1])
			if !(signtool && lf) {
				right = false
			}
		}
		n++
		sf = vf.Cat(sf, nl(s))
	}
	if listed && right && vf.Choice("foreign", 2) == 1 { // an entry the manifest does not have
		sf = vf.Cat(sf, nl(zzSection("nosuchfile", other)))
		right = false
		n++
	}
	want := version && listed && (signtool || !mainWrong) && (wholeOK || right && n > 0)
	res, err := zzVerify(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: sf}}, files...).File(nil), min, max)
	vf.ObsErr("err", err)
	vf.Assert(want || err != nil, "a signature file that does not vouch for the manifest is accepted")
	vf.Assert(!want || err == nil, "a signature file that vouches for the manifest is rejected")
	vf.Assert(err != nil || zzOnly(res, vf.KeyR0), "the signer is not reported")
	if want {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

// Every byte of the manifest replaced by every other value, under a signature file for the original one.
func VF_P14_byte() {
	mf, sf := zzJar(zzFiles)
	withMain := vf.Choice("main digest", 2) == 1
	if withMain {
		i := bytes.Index(sf, []byte("\r\n\r\n")) + 2
		var a []byte
		for _, l := range zzDigestAttrs("-Digest-Manifest-Main-Attributes", []byte(zzMain)) {
			a = append(a, l+"\r\n"...)
		}
		sf = vf.Cat(sf[:i], a, sf[i:])
	}
	pos := vf.Choice("position", len(mf))
	if vf.Tier() == 0 { // sections differ only in their names
		vf.Assume(pos < len(mf)/2)
	}
	m := append([]byte(nil), mf...)
	d := vf.U8("change")
	vf.Assume(d != 0)
	m[pos] ^= d
	_, err := zzVerify(zzArchive(m, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: sf}}, zzFiles...).File(nil), 1, 25)
	vf.ObsErr("err", err)
	if pos >= len(zzMain) {
		vf.Assert(err != nil, "a changed manifest section is accepted")
		vf.Cover("section")
	} else if withMain {
		vf.Assert(err != nil, "a changed main part is accepted in spite of its digest")
		vf.Cover("main")
	}
}

// Bytes added anywhere in the manifest.
func VF_P14_insert() {
	mf, sf := zzJar(zzFiles[:2])
	pos := len(zzMain) + vf.Choice("position", len(mf)-len(zzMain)+1)
	ins := vf.Bytes("inserted", 1+vf.Tier())
	m := vf.Cat(mf[:pos], ins, mf[pos:])
	_, err := zzVerify(zzArchive(m, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: sf}}, zzFiles[:2]...).File(nil), 1, 25)
	vf.ObsErr("err", err)
	// Bytes after the last section belong to no section, and line ends after the main part belong to it.
	vf.Assert(err != nil || pos == len(mf) || pos == len(zzMain) && (ins[0] == '\r' || ins[0] == '\n'), "a manifest with added bytes is accepted")
	vf.Cover("done")
}
