package apkverifier

import (
	"strings"

	"github.com/avast/apkverifier/internal/vf"
)

// ---- P19

var zzDigestNames = []string{"SHA1", "SHA-256", "SHA-512", "SHA", "SHA-384", "MD5"}
var zzDigestHashes = []int{vf.SHA1, vf.SHA256, vf.SHA512, vf.SHA1, vf.SHA384, vf.MD5}

// zzDigests is a set of digest attributes of one entry: index into zzDigestNames to right or wrong.
type zzDigests struct {
	have, right [6]bool
	list        string // Digest-Algorithms; "-" if absent
}

func zzPickDigests(lists int) *zzDigests {
	d := &zzDigests{}
	n := vf.Choice("digests", 3+vf.Tier())
	at := 0
	for i := 0; i < n; i++ {
		at += vf.Choice("skip", 6-at)
		d.have[at] = true
		d.right[at] = vf.Choice("right", 2) == 0
		if at++; at == 6 {
			break
		}
	}
	d.list = []string{"-", "FOO sha1 SHA-512", "SHA-256 SHA", "SHA-512", "sha1", "SHA1 SHA-384", "MD5", "SHA-384 BAR", "SHA  SHA-256"}[vf.Choice("list", lists)]
	return d
}

func (d *zzDigests) lines(suffix string, data []byte) []string {
	var ls []string
	if d.list != "-" {
		ls = append(ls, "Digest-Algorithms: "+d.list)
	}
	for i, n := range zzDigestNames {
		if d.have[i] {
			x := data
			if !d.right[i] {
				x = []byte("wrong")
			}
			ls = append(ls, n+suffix+": "+vf.B64(vf.Digest(zzDigestHashes[i], x)))
		}
	}
	return ls
}

// needed reports whether platforms from min to max verify the entry: the digest each of them uses is right.
// must is whether all digests that could be used are right.
func (d *zzDigests) verdict(min, max int32) (any, may, must bool) {
	may, must = true, true
	if min < 18 {
		list := d.list
		if list == "-" {
			list = "SHA SHA1"
		}
		first := true
		for _, t := range strings.Split(strings.ToUpper(list), " ") {
			for i, n := range zzDigestNames {
				if n != t || n == "MD5" || !d.have[i] || min < 9 && (n == "SHA-384" || n == "SHA-512") {
					continue
				}
				any = true
				must = must && d.right[i]
				if first {
					may = may && d.right[i]
				}
				first = false
			}
		}
	}
	if max >= 18 {
		for _, i := range []int{2, 4, 1, 0} { // SHA-512, SHA-384, SHA-256, SHA1
			if d.have[i] {
				any = true
				may = may && d.right[i]
				must = must && d.right[i]
				break
			}
		}
	}
	return any, may && any, must && any
}

func zzAnyRange() (int32, int32) {
	min, max := vf.I32("min"), vf.I32("max")
	vf.Assume(vf.And(min >= 1, vf.And(min <= max, max <= 25)))
	return min, max
}

// The digests of a file, a manifest section, the manifest or its main part.
func VF_P19_choice() {
	data := []byte("cd")
	level := vf.Choice("level", 4)
	lists := 9
	if vf.Tier() == 0 {
		lists = []int{4, 2, 2, 2}[level]
	}
	d := zzPickDigests(lists)
	fsec := func(name string, data []byte, ds *zzDigests, lv int) []byte {
		if lv == level {
			return vf.Section(append([]string{"Name: " + name}, ds.lines("-Digest", data)...)...)
		}
		return vf.Section("Name: "+name, vf.JarDigest("SHA1", data))
	}
	am := fsec("AndroidManifest.xml", []byte("am"), nil, -1)
	cd := fsec("classes.dex", data, d, 0)
	mf := vf.Cat([]byte(zzMain), am, cd)
	main := []string{"Signature-Version: 1.0"}
	sec := fsec("classes.dex", cd, d, 1)
	switch level {
	case 0:
		main = append(main, "SHA1-Digest-Manifest: "+vf.B64(vf.Digest(vf.SHA1, mf)))
	case 2:
		main = append(main, d.lines("-Digest-Manifest", mf)...)
		sec = vf.Section("Name: classes.dex", vf.JarDigest("SHA1", []byte("wrong"))) // so that the whole digest decides
	case 3:
		main = append(main, d.lines("-Digest-Manifest-Main-Attributes", []byte(zzMain))...)
	}
	sf := vf.Cat(vf.Section(main...), fsec("AndroidManifest.xml", am, nil, -1), sec)
	min, max := zzAnyRange()
	files := []vf.Member{{Name: "AndroidManifest.xml", Data: []byte("am")}, {Name: "classes.dex", Data: data}}
	_, err := zzVerify(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: vf.KeyE0, sf: sf}}, files...).File(nil), min, max)
	vf.ObsErr("err", err)
	any, may, must := d.verdict(min, max)
	if level == 3 && !any { // the digest of the main part is optional
		may, must = true, true
	}
	// older platforms find no SHA1 digest if the list does not name it
	vf.Assert(may || err != nil, "an entry is accepted although a platform's digest is wrong or missing")
	vf.Assert(!must || err == nil, "an entry is rejected although all digests in use are right")
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}
