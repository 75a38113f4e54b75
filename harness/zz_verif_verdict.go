package apkverifier

import (
	"bytes"
	"strconv"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier/apilevel"
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P20

// zzCase is one cell of the decision table.
type zzCase struct {
	v2, v3      int // 0: absent, 1: right, 2: wrong
	v1          int // 0: absent, 1: right, 2: a file altered, 3: a signature altered
	target, min int // in the app manifest; -1: absent
	sandbox     int
	prefix      []byte
}

const zzMaxInt = 0x7fffffff

func (c *zzCase) file() []byte {
	am := vf.Member{Name: "AndroidManifest.xml", Data: vf.AppManifest(c.min, c.target, c.sandbox)}
	files := []vf.Member{am, zzFiles[1]}
	mf, sf := zzJar(files)
	ms := []vf.Member{}
	if c.v1 == 2 {
		files[1].Data = []byte("xx")
	}
	if c.v1 != 0 {
		s := &zzSig{name: "META-INF/A", key: vf.KeyE0, sf: sf}
		if c.v1 == 3 {
			s.block = vf.P7([][]byte{s.key.Cert()}, (&vf.P7Signer{Key: s.key, Sig: (&vf.P7Signer{Key: vf.KeyE1}).Sign(sf)}).Encode(sf))
		}
		ms = append(append(ms, vf.Member{Name: "META-INF/MANIFEST.MF", Data: mf}), s.members()...)
	}
	a := vf.ArchiveAfter(c.prefix, append(ms, files...)...)
	if c.v2 == 0 && c.v3 == 0 {
		return a.File(nil)
	}
	d := vf.ChunkedDigest(vf.SHA256, a.Sections()...)
	digest := func(kind int) [][]byte {
		if kind == 2 {
			return [][]byte{vf.Digest(vf.SHA256, []byte("other"))}
		}
		return [][]byte{d}
	}
	var pairs [][]byte
	if c.v2 != 0 {
		s := &vf.Signer{Key: vf.KeyE0, Digests: digest(c.v2)}
		pairs = append(pairs, vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode())))
	}
	if c.v3 != 0 {
		s := &vf.Signer{Key: vf.KeyE1, Digests: digest(c.v3), V3: true, Min: 28, Max: zzMaxInt}
		pairs = append(pairs, vf.Pair(vf.IDv3, vf.SchemeBlock(s.Encode())))
	}
	return a.File(vf.SigningBlock(pairs...))
}

// expected is the verdict for platforms from min to max, the deciding scheme, and whether only the DEX header stands against it.
func (c *zzCase) expected(min, max int32) (ok bool, scheme int, dex bool) {
	if min == -1 {
		min = int32(c.min)
		if c.min < 0 {
			min = 1
		}
	}
	if min > max {
		return false, 0, false
	}
	block := 0 // state of the deciding block
	scheme = 1
	if c.v3 != 0 && max >= 28 {
		block, scheme = c.v3, 3
		if block == 2 && min < 28 && c.v2 != 0 {
			block, scheme = c.v2, 2
		}
	} else if c.v2 != 0 && max >= 24 {
		block, scheme = c.v2, 2
	}
	if block == 2 {
		return false, scheme, false
	}
	if block == 1 && min >= 24 {
		return true, scheme, false
	}
	if block == 0 {
		target := int32(c.target)
		if c.target < 0 {
			target = int32(c.min)
		}
		if max >= 26 && c.sandbox > 1 || target >= 30 && max >= target {
			return false, scheme, false
		}
	}
	if c.v1 != 1 {
		return false, scheme, false
	}
	if len(c.prefix) >= 4 && vf.Equal(c.prefix[:4], []byte("dex\n")) {
		return false, scheme, true
	}
	return true, scheme, false
}

func (c *zzCase) check(min, max int32) {
	res, err := zzVerify(c.file(), min, max)
	vf.ObsErr("err", err)
	ok, scheme, dex := c.expected(min, max)
	vf.Assert(!ok || err == nil, "an APK is rejected that all requested platforms accept")
	vf.Assert(ok || err != nil, "an APK is accepted that a requested platform rejects")
	vf.Assert((err == ErrMixedDexApkFile) == dex, "an APK that is a DEX file, too, is not reported as such")
	if err == nil {
		vf.Assert(res.SigningSchemeId == scheme, "another scheme is reported than the one that decided")
		k := vf.KeyE0
		if scheme == 3 {
			k = vf.KeyE1
		}
		vf.Assert(zzOnly(res, k), "other certificates are reported than those of the deciding scheme")
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

func zzSdkRange() (int32, int32) {
	min, max := vf.I32("min"), vf.I32("max")
	vf.Assume(min >= -1)
	return min, max
}

// Any SDK range, blocks right, wrong or absent, v1 signature right, wrong or absent.
func VF_P20_table() {
	blocks := [][2]int{{0, 0}, {1, 0}, {2, 0}, {0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 1}, {2, 2}}
	b := blocks[vf.Choice("blocks", 7+2*vf.Tier())]
	ms := [][3]int{{20, 1, 1}, {30, -1, 2}, {33, 28, -1}, {29, 24, 1}, {-1, 30, -1}}
	m := ms[vf.Choice("manifest", 2+3*vf.Tier())]
	c := &zzCase{v2: b[0], v3: b[1], v1: vf.Choice("v1", 3+vf.Tier()), target: m[0], min: m[1], sandbox: m[2]}
	min, max := zzSdkRange()
	c.check(min, max)
}

// Any values in the app manifest of a v1-signed APK.
func VF_P20_manifest() {
	tv := []int{-1, 29, 30, 31, 34}
	mv := []int{-1, 1, 24, 29, 30}
	sv := []int{-1, 0, 1, 2, 3}
	n := 3 + 2*vf.Tier()
	c := &zzCase{v1: 1, v2: vf.Choice("v2", 2), target: tv[vf.Choice("target", n)], min: mv[vf.Choice("min", n)], sandbox: sv[vf.Choice("sandbox", 2)*3]}
	if vf.Tier() > 0 {
		c.sandbox = sv[vf.Choice("which", 5)]
	} else if c.min == 24 {
		c.min = 30
	}
	min, max := zzSdkRange()
	c.check(min, max)
}

// Anything in front of the archive.
func VF_P20_dex() {
	b := [][2]int{{0, 0}, {1, 0}, {0, 1}}[vf.Choice("blocks", 3)]
	c := &zzCase{v2: b[0], v3: b[1], v1: 1 + vf.Choice("v1", 2), target: 20, min: 1, sandbox: 1}
	c.prefix = vf.Bytes("prefix", []int{4, 3, 5, 0}[vf.Choice("length", 2+2*vf.Tier())])
	vf.Assume(len(c.prefix) == 0 || c.prefix[0] != 'P')
	if vf.Choice("old", 2) == 1 {
		c.check(1, 34)
	} else {
		c.check(int32(24+vf.Choice("from", 2)*4), 34)
	}
}

// ---- P28

// zzInt32 reads a decimal number as Android does.
func zzInt32(s []byte) (int64, bool) {
	v, err := strconv.ParseInt(string(s), 10, 32)
	return v, err == nil
}

// Requirements of any type, under the names or the resource identifiers.
func VF_P28_values() {
	byID := vf.Choice("by ID", 2) == 1
	ids := []uint32{vf.IDSandbox, vf.IDMinSdk, vf.IDTargetSdk}
	names := []string{"targetSandboxVersion", "minSdkVersion", "targetSdkVersion"}
	attr := func(i int, a vf.XAttr) vf.XAttr {
		a.Name = names[i]
		if byID {
			a.Name, a.ID = "x", ids[i]
		}
		return a
	}
	vals := []int64{1, 1, 0}
	present := []bool{false, false, false}
	which := vf.Choice("attribute", 3)
	var as [3][]vf.XAttr
	bad := false
	for i := range as {
		if i != which {
			if vf.Choice("other", 2) == 1 {
				vals[i] = int64(20 + i)
				present[i] = true
				as[i] = []vf.XAttr{attr(i, vf.XAttr{Type: vf.XInt, Data: uint32(20 + i)})}
			}
			continue
		}
		present[i] = true
		switch vf.Choice("type", 4) {
		case 0:
			v := []uint32{0, 1, 2, 23, 24, 10000, 0x7fffffff, 0x80000000, 0xffffffff}[vf.Choice("value", 9)]
			vals[i] = int64(int32(v))
			as[i] = []vf.XAttr{attr(i, vf.XAttr{Type: vf.XInt, Data: v})}
		case 1:
			v := []uint32{0, 1, 2, 23, 0x1a, 0x7fffffff, 0x80000000, 0xffffffff}[vf.Choice("value", 8)]
			vals[i] = int64(int32(v))
			as[i] = []vf.XAttr{attr(i, vf.XAttr{Type: vf.XHex, Data: v})}
		case 2:
			s := vf.Bytes("text", vf.Choice("length", 3+vf.Tier()))
			for _, b := range s {
				vf.Assume(vf.And(b > ' ', b < 0x7f))
			}
			v, ok := zzInt32(s)
			vals[i], bad = v, !ok
			as[i] = []vf.XAttr{attr(i, vf.XAttr{Type: vf.XString, Str: s})}
		case 3:
			s := []byte([]string{"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967297", "+30", "1.0", " 1", "99999999999999999999", "030"}[vf.Choice("text", 10)])
			v, ok := zzInt32(s)
			vals[i], bad = v, !ok
			as[i] = []vf.XAttr{attr(i, vf.XAttr{Type: vf.XString, Str: s})}
		}
		if vf.Tier() > 0 && vf.Choice("twice", 2) == 1 { // the first one counts
			as[i] = append(as[i], attr(i, vf.XAttr{Type: vf.XInt, Data: 77}))
		}
	}
	if !present[2] {
		vals[2] = vals[1]
		if !present[1] {
			vals[2] = -1 // both 0 and 1 mean no requirement
		}
	}
	other := vf.XAttr{Name: "other", Type: vf.XInt, Data: 99}
	tags := []vf.XTag{
		{Name: "manifest", Attrs: append([]vf.XAttr{other}, as[0]...)},
		{Name: "permission", Attrs: []vf.XAttr{other}},
		{Name: "uses-sdk", Attrs: append(append([]vf.XAttr{}, as[1]...), as[2]...)},
	}
	zip, err := apkparser.OpenZipReader(bytes.NewReader(vf.Archive(vf.Member{Name: "AndroidManifest.xml", Data: vf.AXML(tags...)}).File(nil)))
	vf.Assume(err == nil)
	min, target, sandbox, err := getManifestInfo(zip)
	vf.ObsErr("err", err)
	vf.Assert((err != nil) == bad, "a value that is no number is accepted, or a number rejected")
	if err != nil {
		vf.Cover("rejected")
		return
	}
	vf.ObsInt("min", int(min))
	vf.Assert(int64(sandbox) == vals[0], "the sandbox version is not the one in the manifest")
	vf.Assert(int64(min) == vals[1], "the minimum SDK version is not the one in the manifest")
	vf.Assert(int64(target) == vals[2] || vals[2] == -1 && target <= 1, "the target SDK version is not the one in the manifest")
	vf.Cover("read")
}

// No app manifest, no such tag, or the tag elsewhere.
func VF_P28_absent() {
	a := vf.XAttr{Name: "minSdkVersion", Type: vf.XInt, Data: 30}
	b := vf.XAttr{Name: "targetSandboxVersion", Type: vf.XInt, Data: 2}
	var tags []vf.XTag
	kind := vf.Choice("kind", 6)
	wantMin, wantBox := int32(1), int32(1)
	switch kind {
	case 1:
		tags = []vf.XTag{{Name: "manifest"}}
	case 2: // not on this tag
		tags = []vf.XTag{{Name: "manifest", Attrs: []vf.XAttr{a}}, {Name: "application", Attrs: []vf.XAttr{a, b}}}
	case 3:
		tags = []vf.XTag{{Name: "manifest"}, {Name: "uses-sdk", Attrs: []vf.XAttr{b}}}
	case 4:
		tags = []vf.XTag{{Name: "manifest", Attrs: []vf.XAttr{b}}, {Name: "uses-sdk"}}
		wantBox = 2
	case 5:
		tags = []vf.XTag{{Name: "manifest"}, {Name: "uses-sdk", Attrs: []vf.XAttr{a}}, {Name: "uses-sdk", Attrs: []vf.XAttr{{Name: "minSdkVersion", Type: vf.XInt, Data: 8}}}}
		wantMin = 30
	}
	ms := []vf.Member{{Name: "a", Data: []byte("b")}}
	if kind > 0 {
		ms = append(ms, vf.Member{Name: "AndroidManifest.xml", Data: vf.AXML(tags...)})
	}
	zip, err := apkparser.OpenZipReader(bytes.NewReader(vf.Archive(ms...).File(nil)))
	vf.Assume(err == nil)
	min, target, sandbox, err := getManifestInfo(zip)
	vf.Assert(err == nil, "a manifest without requirements is rejected")
	vf.Assert(min == wantMin && sandbox == wantBox, "a requirement is wrong that the manifest does not make")
	vf.Assert(target == min || target == 0 && min == 1, "a missing target SDK version is not the minimum one")
	vf.Cover("done")
}

// The platform predicates, for every level.
func VF_P28_levels() {
	l := vf.I32("level")
	vf.Assert(apilevel.SupportsSigV2(l) == (l >= 24), "v2 signatures are known from API level 24 on")
	vf.Assert(apilevel.SupportsSigV3(l) == (l >= 28), "v3 signatures are known from API level 28 on")
	vf.Assert(apilevel.SupportsSigV31(l) == (l >= 33), "v3.1 signatures are known from API level 33 on")
	vf.Assert(apilevel.RequiresSandboxV2(l) == (l >= 26), "sandbox version 2 needs a newer scheme from API level 26 on")
	vf.Assert(apilevel.SupportsStampVerification(l) == (l >= 30), "source stamps are known from API level 30 on")
	vf.Cover("done")
}

// The names of the platforms start with their release, anything else is printed as a number.
func VF_P28_names() {
	want := map[int32]string{
		3: "V1_5_", 4: "V1_6_", 5: "V2_0_E", 6: "V2_0_1_", 7: "V2_1_", 8: "V2_2_", 9: "V2_3_G", 10: "V2_3_3_", 11: "V3_0_", 12: "V3_1_", 13: "V3_2_",
		14: "V4_0_1_", 15: "V4_0_3_", 16: "V4_1_", 17: "V4_2_", 18: "V4_3_", 19: "V4_4_", 21: "V5_0_", 22: "V5_1_", 23: "V6_0_", 24: "V7_0_", 25: "V7_1_",
		26: "V8_0_", 27: "V8_1_", 28: "V9_0_", 29: "V10_0_", 30: "V11_0_", 31: "V12_0_", 32: "V12_1_", 33: "V13_0_", 34: "V14_0_", -1: "-Inf", zzMaxInt: "+Inf",
	}
	l := []int32{-2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, zzMaxInt, zzMaxInt - 1}[vf.Choice("level", 40)]
	s := apilevel.String(l)
	if w, ok := want[l]; ok {
		vf.Assert(len(s) > len(w) && s[:len(w)] == w, "a platform has another release's name")
	} else if l != 1 && l < 35 {
		vf.Assert(s == strconv.Itoa(int(l)), "an unknown platform is not printed as a number")
	}
	vf.Cover("done")
}
