package apkverifier

import (
	"bytes"
	"crypto/x509"

	"github.com/avast/apkverifier/internal/vf"
)

func zzVerify(f []byte, min, max int32) (Result, error) {
	return VerifyWithSdkVersionReader(bytes.NewReader(f), nil, min, max)
}

// SDK ranges that exercise the rules for old and new platforms without reading the app manifest.
func zzRange() (int32, int32) {
	r := [][2]int32{{1, 25}, {24, 25}, {1, 17}, {18, 23}, {9, 24}}[vf.Choice("range", 5)]
	return r[0], r[1]
}

// zzSig is one v1 signature: a signature file and its PKCS#7 block.
type zzSig struct {
	name  string // without extension
	key   *vf.Key
	sf    []byte
	block []byte // default: the key's direct signature
}

func (s *zzSig) members() []vf.Member {
	b := s.block
	if b == nil {
		b = vf.P7([][]byte{s.key.Cert()}, (&vf.P7Signer{Key: s.key}).Encode(s.sf))
	}
	return []vf.Member{{Name: s.name + ".SF", Data: s.sf}, {Name: s.name + "." + vf.BlockExt(s.key), Data: b}}
}

func zzArchive(mf []byte, sigs []*zzSig, files ...vf.Member) *vf.Apk {
	ms := []vf.Member{{Name: "META-INF/MANIFEST.MF", Data: mf}}
	for _, s := range sigs {
		ms = append(ms, s.members()...)
	}
	return vf.Archive(append(ms, files...)...)
}

// zzBoth are digest lines every platform can use.
func zzBoth(data []byte) []string {
	return []string{vf.JarDigest("SHA1", data), vf.JarDigest("SHA-256", data)}
}

func zzSection(name string, data []byte) []byte {
	return vf.Section(append([]string{"Name: " + name}, zzBoth(data)...)...)
}

func zzWhole(mf []byte) []string {
	return []string{"SHA1-Digest-Manifest: " + vf.B64(vf.Digest(vf.SHA1, mf)), "SHA-256-Digest-Manifest: " + vf.B64(vf.Digest(vf.SHA256, mf))}
}

// zzSF is a signature file for the manifest; sections are added by the caller.
func zzSF(mf []byte, extra ...string) []byte {
	return vf.Section(append(append([]string{"Signature-Version: 1.0"}, zzWhole(mf)...), extra...)...)
}

const zzMain = "Manifest-Version: 1.0\r\n\r\n"

// zzJar is a manifest and signature file for files, in parts.
func zzJar(files []vf.Member) (mf, sf []byte) {
	mf = []byte(zzMain)
	var ss []byte
	for _, f := range files {
		s := zzSection(f.Name, f.Data)
		mf = append(mf, s...)
		ss = append(ss, zzSection(f.Name, s)...)
	}
	return mf, vf.Cat(zzSF(mf), ss)
}

func zzOnly(res Result, k *vf.Key) bool {
	return len(res.SignerCerts) == 1 && len(res.SignerCerts[0]) == 1 && string(res.SignerCerts[0][0].Raw) == string(k.Cert())
}

func zzCertIs(c *x509.Certificate, k *vf.Key) bool { return string(c.Raw) == string(k.Cert()) }

var zzFiles = []vf.Member{{Name: "AndroidManifest.xml", Data: []byte("am")}, {Name: "classes.dex", Data: []byte("cd")}, {Name: "a/b", Data: []byte("ef")}}

// ---- P13

// Any one file with any content of any small length: accepted exactly if the content is the signed one.
func VF_P13_content() {
	min, max := zzRange()
	k := []*vf.Key{vf.KeyR0, vf.KeyE0, vf.KeyD1}[vf.Choice("key", 1+2*vf.Tier())]
	mf, sf := zzJar(zzFiles)
	i := vf.Choice("file", len(zzFiles))
	c := vf.Bytes("content", vf.Choice("length", 4+2*vf.Tier()))
	same := vf.Equal(c, zzFiles[i].Data)
	nf := append([]vf.Member(nil), zzFiles...)
	nf[i].Data = c
	f := zzArchive(mf, []*zzSig{{name: "META-INF/A", key: k, sf: sf}}, nf...).File(nil)
	res, err := zzVerify(f, min, max)
	vf.ObsErr("err", err)
	vf.Assert(!same || err == nil, "an intact archive is rejected")
	vf.Assert(same || err != nil, "a file with other content than signed is accepted")
	vf.Assert(err != nil || zzOnly(res, k) && res.SigningSchemeId == 1, "an intact archive is not reported with its signer")
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

// zzListing is the state of one file: in the archive, in the manifest and in the signature file.
type zzListing struct {
	name               string
	present            bool
	digest             int // 0: not listed, 1: right, else wrong in some way
	insf               bool
	content, wrongness []byte
}

const zzDigestKinds = 8

func zzPick(tag, name string, kinds int) zzListing {
	l := zzListing{name: name, content: []byte("ab" + name)}
	l.present = vf.Choice(tag+" present", 2) == 0
	l.digest = vf.Choice(tag+" digest", kinds)
	l.insf = vf.Choice(tag+" in SF", 2) == 0
	return l
}

func (l *zzListing) section() []byte {
	d1, d2 := vf.Digest(vf.SHA1, l.content), vf.Digest(vf.SHA256, l.content)
	both := func(a, b []byte) []byte {
		return vf.Section("Name: "+l.name, "SHA1-Digest: "+vf.B64(a), "SHA-256-Digest: "+vf.B64(b))
	}
	o := []byte("other")
	switch l.digest {
	case 1:
		return both(d1, d2)
	case 2:
		return both(vf.Digest(vf.SHA1, o), vf.Digest(vf.SHA256, o))
	case 3:
		return both(d1[:19], d2[:31])
	case 4:
		return both(vf.Cat(d1, []byte{0}), vf.Cat(d2, []byte{0}))
	case 5:
		return vf.Section("Name: " + l.name)
	case 6:
		return both(nil, nil)
	case 7:
		return vf.Section("Name: "+l.name, "SHA1-Digest: ?", "SHA-256-Digest: ?")
	}
	return nil
}

// zzListed builds and verifies an archive whose files are listed as given.
func zzListed(ls []zzListing, min, max int32, wholeRight bool) (Result, error) {
	mf := []byte(zzMain)
	var ss []byte
	var files []vf.Member
	for i := range ls {
		l := &ls[i]
		s := l.section()
		mf = append(mf, s...)
		if l.insf {
			if s == nil {
				s = []byte("x")
			}
			ss = append(ss, zzSection(l.name, s)...)
		}
		if l.present {
			files = append(files, vf.Member{Name: l.name, Data: l.content})
		}
	}
	over := mf
	if !wholeRight {
		over = []byte("other")
	}
	return zzVerify(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: vf.Cat(zzSF(over), ss)}}, files...).File(nil), min, max)
}

func zzExpect(ls []zzListing, wholeRight bool) bool {
	am, bundle := false, false
	for _, l := range ls {
		if l.present {
			am = am || l.name == "AndroidManifest.xml"
			bundle = bundle || l.name == "BundleConfig.pb"
			if len(l.name) > 9 && l.name[:9] == "META-INF/" {
				continue
			}
			if l.digest != 1 || !l.insf {
				return false
			}
		}
	}
	if !am && !bundle {
		return false
	}
	for _, l := range ls {
		if !l.present && l.digest != 0 { // listed but missing
			return false
		}
		if !wholeRight && l.insf && l.digest == 0 { // vouched section missing
			return false
		}
	}
	return true
}

// Two files of any of the special and ordinary names, each present or not, listed rightly, wrongly or not, vouched for or not.
func VF_P13_listed() {
	min, max := int32(1), int32(25)
	if vf.Tier() > 0 {
		min, max = zzRange()
	}
	names := []string{"AndroidManifest.xml", "x", "META-INF/y", "BundleConfig.pb"}
	kinds := 3
	if vf.Tier() > 0 {
		kinds = zzDigestKinds
	}
	i := vf.Choice("first", len(names))
	n := len(names) - i
	j := i + vf.Choice("second", n)
	var ls []zzListing
	for m, nm := range names {
		switch {
		case m == i:
			ls = append(ls, zzPick("a", nm, zzDigestKinds))
		case m == j:
			ls = append(ls, zzPick("b", nm, kinds))
		case m < 3:
			ls = append(ls, zzListing{name: nm, present: true, digest: 1, insf: true, content: []byte{byte(m)}})
		}
	}
	whole := i == j || vf.Tier() == 0 || vf.Choice("whole", 2) == 0
	if i == j {
		whole = vf.Choice("whole", 2) == 0
	}
	want := zzExpect(ls, whole)
	_, err := zzListed(ls, min, max, whole)
	vf.ObsErr("err", err)
	vf.Assert(want || err != nil, "an archive with an unsigned, missing or altered file is accepted")
	vf.Assert(!want || err == nil, "a completely signed archive is rejected")
	if want {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

// One name anywhere in the archive that is not listed: only META-INF members may be.
func VF_P13_names() {
	min, max := zzRange()
	mf, sf := zzJar(zzFiles)
	n := vf.Choice("length", 3+vf.Tier())
	b := vf.Bytes("name", n)
	for _, c := range b {
		vf.Assume(c > ' ' && c < 0x7f)
	}
	pre := []string{"", "META-INF/", "META-INF", "META-IN/", "meta-inf/", "lib/META-INF/", "META-INF/A", "AndroidManifest.xm", "classes.dex"}
	p := vf.Choice("prefix", len(pre))
	name := pre[p] + string(b)
	// clean names only
	for i := 0; i < len(b); i++ {
		vf.Assume(b[i] != '/' && b[i] != '.')
	}
	vf.Assume(name != "" && name != "META-INF/" && name[len(name)-1] != '/')
	for _, f := range zzFiles {
		vf.Assume(name != f.Name)
	}
	inMeta := p == 1 || p == 6
	f := zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: sf}}, append(append([]vf.Member(nil), zzFiles...), vf.Member{Name: name, Data: []byte("x")})...).File(nil)
	_, err := zzVerify(f, min, max)
	vf.ObsErr("err", err)
	vf.Assert(inMeta || err != nil, "an unlisted file is accepted")
	vf.Assert(!inMeta || err == nil, "an unsigned META-INF member leads to rejection")
	vf.Cover("done")
}

// A name listed twice is never accepted, whatever the two sections say.
func VF_P13_twice() {
	min, max := zzRange()
	mf := []byte(zzMain)
	var ss []byte
	i := vf.Choice("file", len(zzFiles))
	for m, f := range zzFiles {
		s := zzSection(f.Name, f.Data)
		mf = append(mf, s...)
		ss = append(ss, zzSection(f.Name, s)...)
		if m == i {
			t := s
			if vf.Choice("other", 2) == 1 {
				t = zzSection(f.Name, []byte("other"))
			}
			if vf.Choice("order", 2) == 1 {
				mf = append(mf[:len(mf)-len(s):len(mf)-len(s)], vf.Cat(t, s)...)
			} else {
				mf = append(mf, t...)
			}
			if vf.Choice("vouched", 2) == 1 {
				ss = append(ss, zzSection(f.Name, t)...)
			}
		}
	}
	_, err := zzVerify(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyR0, sf: vf.Cat(zzSF(mf), ss)}}, zzFiles...).File(nil), min, max)
	vf.ObsErr("err", err)
	vf.Assert(err != nil, "a manifest with two sections for one file is accepted")
	vf.Cover("done")
}

// zzDeflated is data as one stored block of a deflate stream.
func zzDeflated(data []byte) []byte {
	n := uint16(len(data))
	return vf.Cat([]byte{1}, vf.LE16(n), vf.LE16(^n), data)
}

// Archives without a central directory, whose files may be there twice: one copy has to be the signed one, as a whole.
func VF_P13_copies() {
	mf, sf := zzJar(zzFiles[:2])
	s := &zzSig{name: "META-INF/A", key: vf.KeyR0, sf: sf}
	var out []byte
	add := func(name string, raw []byte) {
		n := uint32(len(raw))
		out = vf.Cat(out, vf.LE32(0x04034b50), vf.LE16(10), vf.LE16(0), vf.LE16(8), vf.LE32(0), vf.LE32(0), vf.LE32(n), vf.LE32(n), vf.LE16(uint16(len(name))), vf.LE16(0), []byte(name), raw)
	}
	add("META-INF/MANIFEST.MF", zzDeflated(mf))
	for _, m := range s.members() {
		add(m.Name, zzDeflated(m.Data))
	}
	which := vf.Choice("file", 2)
	data := zzFiles[which].Data
	add(zzFiles[1-which].Name, zzDeflated(zzFiles[1-which].Data))
	right, all := false, true
	n := 1 + vf.Choice("copies", 2+vf.Tier())
	for i := 0; i < n; i++ {
		raw := zzDeflated(data)
		ok := false
		switch vf.Choice("copy", 6) {
		case 0:
			ok = true
		case 1:
			raw = zzDeflated(data[:1])
		case 2:
			raw = zzDeflated(data[1:])
		case 3: // broken off: runs into the next file or the end
			raw = vf.Cat([]byte{1}, vf.LE16(3), vf.LE16(^uint16(3)), data)
		case 4:
			raw = zzDeflated(nil)
		case 5: // not a deflate stream
			raw = []byte{7, 7, 7}
		}
		right, all = right || ok, all && ok
		add(zzFiles[which].Name, raw)
	}
	_, err := zzVerify(out, 1, 25)
	vf.ObsErr("err", err)
	vf.Assert(right || err != nil, "a file is accepted of which no copy has the signed content")
	vf.Assert(!all || err == nil, "an intact archive without a central directory is rejected")
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}
