package apkverifier

import (
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P16

// zzMultiSF is a signature file for the given manifest that lists the given sections.
func zzMultiSF(mf []byte, sections [][]byte, names []string, mask int, main ...string) []byte {
	sf := zzSF(mf, main...)
	for i, n := range names {
		if mask&(1<<i) != 0 {
			sf = vf.Cat(sf, zzSection(n, sections[i]))
		}
	}
	return sf
}

// Every assignment of files to signers, of whom one may be broken, ignored or repeated.
func VF_P16_assign() {
	ranges := [][2]int32{{1, 23}, {24, 25}}
	r := ranges[vf.Choice("range", 2)]
	files := zzTwoFiles
	names := []string{files[0].Name, files[1].Name}
	mf := []byte(zzMain)
	var sections [][]byte
	for _, f := range files {
		s := zzSection(f.Name, f.Data)
		sections = append(sections, s)
		mf = append(mf, s...)
	}
	n := 1 + vf.Choice("signers", 3)
	keys := []*vf.Key{vf.KeyE0, vf.KeyE1, vf.KeyR0}
	places := []string{"META-INF/A", "META-INF/B", "META-INF/x/A"}
	odd, kind := -1, 0
	if vf.Choice("odd one", 2) == 1 {
		odd, kind = vf.Choice("which", n), 1+vf.Choice("kind", 6)
	}
	var sigs []*zzSig
	per := make([][]*vf.Key, len(names))
	broken := false
	for i := 0; i < n; i++ {
		mask := 3
		if vf.Tier() > 0 || n < 3 || i > 0 {
			mask = vf.Choice("files", 4)
		}
		s := &zzSig{name: places[i], key: keys[i]}
		s.sf = zzMultiSF(mf, sections, names, mask)
		counts := true
		if i == odd {
			switch kind {
			case 1: // altered signature
				sig := vf.Sign(s.key, "pkcs1", vf.SHA256, s.sf)
				s.block = vf.P7([][]byte{s.key.Cert()}, (&vf.P7Signer{Key: s.key, Sig: zzXor("sig", sig, len(sig)-1)}).Encode(s.sf))
				broken = true
			case 2: // signature of another signature file
				s.block = vf.P7([][]byte{s.key.Cert()}, (&vf.P7Signer{Key: s.key}).Encode(zzMultiSF(mf, sections, names, mask^1)))
				broken = true
			case 3: // made for another manifest
				s.sf = vf.Cat(zzSF([]byte("other")), zzSection(names[0], []byte("other")))
				counts = false
			case 4: // not a version that is known
				s.sf = s.sf[len("Signature-Version: 1.0\r\n"):]
				counts = false
			case 5: // not a signature
				s.block = []byte{0x30, 0}
				broken = true
			case 6: // by the same key as another
				s.key = keys[(i+1)%n]
			}
		}
		for j := range names {
			if counts && mask&(1<<j) != 0 {
				per[j] = append(per[j], s.key)
			}
		}
		sigs = append(sigs, s)
	}
	// archive order need not be the order of names
	if n > 1 && vf.Choice("order", 2) == 1 {
		sigs[0], sigs[n-1] = sigs[n-1], sigs[0]
	}
	res, err := zzVerify(zzArchive(mf, sigs, files...).File(nil), r[0], r[1])
	vf.ObsErr("err", err)
	has := func(l []*vf.Key, k *vf.Key) bool {
		for _, x := range l {
			if x == k {
				return true
			}
		}
		return false
	}
	same := len(per[0]) > 0
	for j := range per {
		for _, k := range per[j] {
			same = same && has(per[1-j], k)
		}
		same = same && len(per[j]) > 0
	}
	if err != nil {
		vf.Assert(!same || broken || len(per[0]) != len(per[1]), "an archive whose files all have the same signers is rejected")
		vf.Cover("rejected")
		return
	}
	vf.Assert(!broken, "an invalid signature is overlooked")
	vf.Assert(same, "files signed by different signers are accepted")
	ok := len(res.SignerCerts) == len(per[0])
	for _, ch := range res.SignerCerts {
		found := false
		for _, k := range per[0] {
			found = found || len(ch) == 1 && zzCertIs(ch[0], k)
		}
		ok = ok && found
	}
	for _, k := range per[0] {
		found := false
		for _, ch := range res.SignerCerts {
			found = found || len(ch) == 1 && zzCertIs(ch[0], k)
		}
		ok = ok && found
	}
	vf.Assert(ok, "the reported signers are not those of the files")
	vf.Cover("accepted")
}

// Any number of signers.
func VF_P16_count() {
	k := []*vf.Key{vf.KeyE0, vf.KeyR0}[vf.Choice("key", 1+vf.Tier())]
	mf, sf := zzJar(zzTwoFiles)
	n := vf.Choice("n", 13)
	other := []*vf.Key{k, vf.KeyE1}[vf.Choice("other", 2)]
	var sigs []*zzSig
	for i := 0; i < n; i++ {
		s := &zzSig{name: "META-INF/" + string([]byte{byte('A' + i)}), key: k, sf: sf}
		if i%2 == 1 {
			s.key = other
		}
		sigs = append(sigs, s)
	}
	_, err := zzVerify(zzArchive(mf, sigs, zzTwoFiles...).File(nil), 1, 25)
	vf.ObsErr("err", err)
	vf.Assert((err == nil) == (n >= 1 && n <= 10), "zero or more than ten signers are accepted, or a number in between is rejected")
	vf.Cover("done")
}

// zzDeclares reports whether a comma separated list has the number d.
func zzDeclares(list []byte, d byte) bool {
	start := 0
	for i := 0; i <= len(list); i++ {
		if i < len(list) && list[i] != ',' {
			continue
		}
		t := list[start:i]
		start = i + 1
		for len(t) > 0 && t[0] == ' ' {
			t = t[1:]
		}
		for len(t) > 0 && t[len(t)-1] == ' ' {
			t = t[:len(t)-1]
		}
		if len(t) > 1 && t[0] == '+' {
			t = t[1:]
		}
		for len(t) > 1 && t[0] == '0' {
			t = t[1:]
		}
		if len(t) == 1 && t[0] == d {
			return true
		}
	}
	return false
}

// Declared block signatures, present or stripped.
func VF_P16_declared() {
	ranges := [][2]int32{{1, 25}, {1, 23}, {24, 25}, {24, 27}, {24, 28}, {9, 33}}
	ri := vf.Choice("range", 4+2*vf.Tier())
	min, max := ranges[ri][0], ranges[ri][1]
	if ri >= 2 && vf.Tier() == 0 {
		min, max = ranges[2*ri-2][0], ranges[2*ri-2][1] // {24,25} {24,28}
	}
	files := append([]vf.Member{{Name: "AndroidManifest.xml", Data: vf.AppManifest(1, 20, 1)}}, zzFiles[1])
	mf := []byte(zzMain)
	var list []byte
	switch vf.Choice("list", 3) {
	case 0:
		list = vf.Bytes("list", 1+vf.Choice("length", 2+vf.Tier()))
		for _, b := range list {
			vf.Assume(vf.And(b >= ' ', b < 0x7f))
		}
	case 1:
		ts := []string{"2", "3", "1", " 2 ", "02", "+2", "22", "x", "2x", "-2", "4294967298", "", "2.", "003", "31"}
		list = []byte(ts[vf.Choice("token", len(ts))])
		if vf.Choice("two", 2) == 1 {
			list = vf.Cat(list, []byte{','}, []byte(ts[vf.Choice("second", 5+10*vf.Tier())]))
		}
	}
	where := vf.Choice("in", 3)
	var ss []byte
	for _, f := range files {
		s := zzSection(f.Name, f.Data)
		mf = append(mf, s...)
		ss = append(ss, zzSection(f.Name, s)...)
	}
	head := []byte("Signature-Version: 1.0\r\n")
	decl := vf.Cat([]byte("X-Android-APK-Signed: "), list, []byte("\r\n"))
	whole := []byte(zzWhole(mf)[0] + "\r\n" + zzWhole(mf)[1] + "\r\n")
	sfPlain := vf.Cat(head, whole, []byte("\r\n"), ss)
	sfDecl := sfPlain
	if list != nil {
		sfDecl = vf.Cat(head, decl, whole, []byte("\r\n"), ss)
	}
	var sigs []*zzSig
	switch where {
	case 0:
		sigs = []*zzSig{{name: "META-INF/A", key: vf.KeyE0, sf: sfDecl}}
	case 1:
		sigs = []*zzSig{{name: "META-INF/A", key: vf.KeyE0, sf: sfDecl}, {name: "META-INF/B", key: vf.KeyE1, sf: sfPlain}}
	case 2:
		sigs = []*zzSig{{name: "META-INF/A", key: vf.KeyE0, sf: sfPlain}, {name: "META-INF/B", key: vf.KeyE1, sf: sfDecl}}
	}
	a := zzArchive(mf, sigs, files...)
	v2 := min < 24 && where == 0 && vf.Choice("v2 block", 2) == 1
	var block []byte
	if v2 {
		s := &vf.Signer{Key: vf.KeyE0, Algs: []uint32{vf.AlgEc256}, Digests: [][]byte{vf.ChunkedDigest(vf.SHA256, a.Sections()...)}}
		block = vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode())))
	}
	_, err := zzVerify(a.File(block), min, max)
	vf.ObsErr("err", err)
	stripped := zzDeclares(list, '2') && max >= 24 || zzDeclares(list, '3') && max >= 28
	if v2 && max >= 24 {
		stripped = false
	}
	vf.Assert(!stripped || err != nil, "a stripped block signature is not detected")
	vf.Assert(stripped || err == nil, "an archive is rejected that declares nothing it lacks")
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}
