package signingblock

import (
	"bytes"

	"github.com/avast/apkverifier/internal/vf"
)

// ---- P22

const (
	zzStampEntry    = "stamp-cert-sha256"
	zzStampRotation = 0x9d6303f7
	zzStampTime     = 0xe43c5946
)

type zzStamp struct {
	key     *vf.Key
	schemes []byte // signed digests per scheme
	attrs   []byte // attribute data, signatures; nil: none
}

func zzSigList(sigs ...[]byte) []byte     { return vf.LP(sigs...) }
func zzSig(alg uint32, sig []byte) []byte { return vf.LP(vf.LE32(alg), vf.LP(sig)) }

func (s *zzStamp) encode() []byte {
	return vf.Pair(vf.IDStamp, vf.LP(vf.LP(s.key.Cert()), vf.LP(s.schemes), s.attrs))
}

// zzStampDigests is the message a stamp signs for a scheme: the scheme's content digests by kind.
func zzStampDigests(pairs ...[]byte) []byte {
	var b []byte
	for i := 0; i+1 < len(pairs); i += 2 {
		b = vf.Cat(b, vf.LP(pairs[i], vf.LP(pairs[i+1])))
	}
	return b
}

func zzStampScheme(id uint32, sigs []byte) []byte { return vf.LP(vf.LE32(id), sigs) }

// zzStamped is a v2-, v3- or v1-only APK with the given stamp block; zipped decides whether the stamp's
// certificate hash is in the archive.
func zzVerifyZip(f []byte, min, max int32) (*VerificationResult, error) {
	res, _, err := VerifySigningBlockReaderWithZip(bytes.NewReader(f), min, max, nil)
	return res, err
}

func zzClean(r *SourceStampResult) bool {
	return r != nil && len(r.Errors) == 0 && len(r.Warnings) == 0
}

func zzSignOne(k *vf.Key, data []byte) []byte {
	return zzSigList(zzSig(vf.AlgDefault(k), vf.AlgSign(k, vf.AlgDefault(k), data)))
}

// zzStampedApk is an APK with one signer of the given scheme and its stamp.
type zzStampedApk struct {
	a      *vf.Apk
	scheme int // 2, 3, 31
	k      *vf.Key
	d      []byte // content digest
}

func zzNewStamped(scheme int, k *vf.Key, entry []byte) *zzStampedApk {
	ms := []vf.Member{{Name: "f", Data: []byte{1}}}
	if entry != nil {
		ms = append(ms, vf.Member{Name: zzStampEntry, Data: entry})
	}
	s := &zzStampedApk{a: vf.Archive(ms...), scheme: scheme, k: k}
	s.d = zzDigest(s.a, vf.SHA256)
	return s
}

func zzCertHash(k *vf.Key) []byte { return vf.Digest(vf.SHA256, k.Cert()) }

// msg is what the stamp signs.
func (s *zzStampedApk) msg() []byte { return zzStampDigests(vf.LE32(1), s.d) }

func (s *zzStampedApk) schemeID() uint32 {
	if s.scheme == 31 {
		return 3
	}
	return uint32(s.scheme)
}

func (s *zzStampedApk) file(stamp ...[]byte) []byte {
	sg := &vf.Signer{Key: vf.KeyR1, Digests: [][]byte{s.d}, V3: s.scheme != 2, Min: 24, Max: 0x7fffffff}
	var ps [][]byte
	switch s.scheme {
	case 2:
		ps = append(ps, vf.Pair(vf.IDv2, vf.SchemeBlock(sg.Encode())))
	case 3:
		ps = append(ps, vf.Pair(vf.IDv3, vf.SchemeBlock(sg.Encode())))
	case 31:
		lo := &vf.Signer{Key: vf.KeyR1, Digests: sg.Digests, V3: true, Min: 24, Max: 32, Attrs: [][]byte{vf.Attr(zzAttrMinSdk, vf.LE32(33))}}
		hi := &vf.Signer{Key: vf.KeyE1, Digests: sg.Digests, V3: true, Min: 33, Max: 0x7fffffff, Attrs: nil}
		ps = append(ps, vf.Pair(vf.IDv3, vf.SchemeBlock(lo.Encode())), vf.Pair(vf.IDv31, vf.SchemeBlock(hi.Encode())))
	}
	return s.a.File(vf.SigningBlock(append(ps, stamp...)...))
}

// Every part of a stamp right or wrong, with up to two parts wrong at a time.
func VF_P22_parts() {
	const faults = 15
	f1 := vf.Choice("fault", faults+1)
	ki := f1 % 3
	if vf.Tier() > 0 || f1 == 0 {
		ki = vf.Choice("key", 3)
	}
	k := []*vf.Key{vf.KeyE0, vf.KeyR0, vf.KeyD1}[ki]
	scheme := []int{2, 3, 31}[vf.Choice("scheme", 3)]
	f2 := f1
	if f1 != 0 {
		f2 = f1 + vf.Choice("second fault", faults+1-f1)
	}
	has := func(n int) bool { return f1 == n || f2 == n }
	good := f1 == 0
	hash := zzCertHash(k)
	entry := hash
	switch {
	case has(1):
		entry = zzBad("entry", hash)
	case has(2):
		entry = []([]byte){hash[:31], vf.Cat(hash, []byte{0}), {}}[vf.Choice("entrylen", 3)]
	case has(3):
		entry = zzCertHash(vf.KeyE1)
	case has(4):
		entry = nil
	}
	s := zzNewStamped(scheme, k, entry)
	msg := s.msg()
	id := s.schemeID()
	switch {
	case has(5): // of another content
		msg = zzStampDigests(vf.LE32(1), zzBad("digest", s.d))
	case has(6):
		x := vf.U32("kind")
		vf.Assume(x != 1)
		msg = zzStampDigests(vf.LE32(x), s.d)
	case has(7):
		msg = nil
	}
	if has(8) { // for another scheme
		id = vf.U32("scheme id")
		vf.Assume(id != s.schemeID())
	}
	signer := k
	if has(9) {
		signer = vf.KeyE1
	}
	st := &zzStamp{key: k}
	if !has(10) {
		st.schemes = zzStampScheme(id, zzSignOne(signer, msg))
	}
	ts := uint64(0)
	if vf.Bool("attributes") || f2 > 10 {
		ts = vf.U64("time")
		if has(11) {
			vf.Assume(int64(ts) <= 0)
		} else {
			vf.Assume(int64(ts) > 0)
		}
		data := vf.LP(vf.LP(vf.LE32(zzStampTime), vf.LE64(ts)))
		signed := data
		sk := k
		if has(12) {
			sk = vf.KeyE1
		}
		if has(13) {
			signed = msg
		}
		sigs := zzSignOne(sk, signed)
		if has(14) {
			sigs = nil
		}
		if has(15) { // signed with another time
			data = vf.LP(vf.LP(vf.LE32(zzStampTime), vf.LE64(ts^(1+uint64(vf.U8("time difference"))))))
		}
		st.attrs = vf.Cat(vf.LP(data), zzSigList(sigs))
		if !has(14) {
			st.attrs = vf.Cat(vf.LP(data), sigs)
		}
	}
	res, err := zzVerifyZip(s.file(st.encode()), 28, 34)
	vf.Assert(err == nil, "the stamp changes the APK's verdict")
	vf.Assert(res.SourceStamp != nil, "the stamp is not reported")
	if zzClean(res.SourceStamp) {
		vf.Cover("clean")
		vf.Assert(good, "a wrong stamp is reported without errors")
		vf.Assert(vf.Equal(res.SourceStamp.Cert.Raw, k.Cert()), "the stamp's certificate")
		if ts != 0 {
			vf.Assert(res.SourceStamp.SigningTime.Unix() == int64(ts), "the stamp's time")
		} else {
			vf.Assert(res.SourceStamp.SigningTime.IsZero(), "a time out of nowhere")
		}
		vf.Assert(res.SourceStamp.Lineage == nil, "a history out of nowhere")
	} else {
		vf.Cover("reported")
		vf.Assert(!good, "a right stamp is reported with errors")
	}
}

// Neither block nor file: no stamp. A file without a block is an error, a block without a file a warning.
func VF_P22_missing() {
	k := vf.KeyE0
	var entry []byte
	file, block := vf.Bool("file"), vf.Bool("block")
	if file {
		entry = vf.Bytes("entry", vf.Choice("entry length", 3)*16)
		if len(entry) == 32 && vf.Bool("right hash") {
			entry = zzCertHash(k)
		}
		if entry == nil {
			entry = []byte{}
		}
	}
	s := zzNewStamped([]int{2, 3, 31}[vf.Choice("scheme", 3)], k, entry)
	var ps [][]byte
	if block {
		ps = append(ps, (&zzStamp{key: k, schemes: zzStampScheme(s.schemeID(), zzSignOne(k, s.msg()))}).encode())
	}
	res, err := zzVerifyZip(s.file(ps...), 28, 34)
	vf.Assert(err == nil, "the stamp changes the APK's verdict")
	st := res.SourceStamp
	switch {
	case !file && !block:
		vf.Cover("none")
		vf.Assert(st == nil, "a stamp out of nowhere")
	case !block:
		vf.Cover("file only")
		vf.Assert(st != nil && len(st.Errors) != 0, "a stamp file without a block is not an error")
		vf.Assert(st == nil || st.Cert == nil, "a certificate out of nowhere")
	case !file:
		vf.Cover("block only")
		vf.Assert(st != nil && len(st.Errors)+len(st.Warnings) != 0, "a stamp block without a file is not reported")
	}
}

// On platforms without block schemes the stamp signs the digest of the JAR manifest.
func VF_P22_v1() {
	k := []*vf.Key{vf.KeyE0, vf.KeyR0}[vf.Choice("key", 2)]
	man := vf.Bytes("manifest", vf.Choice("manifest length", 3))
	ms := []vf.Member{{Name: zzStampEntry, Data: zzCertHash(k)}}
	d := []byte{}
	if vf.Bool("has manifest") {
		ms = append(ms, vf.Member{Name: "META-INF/MANIFEST.MF", Data: man})
		d = vf.Digest(vf.SHA256, man)
	}
	a := vf.Archive(ms...)
	good := true
	sd, kind, id := d, uint32(4), uint32(1)
	switch vf.Choice("fault", 5) {
	case 0:
	case 1:
		if len(d) != 0 {
			sd = zzBad("digest", d)
		} else {
			sd = vf.Bytes("digest", 32)
		}
		good = false
	case 2:
		kind = vf.U32("kind")
		good = kind == 4
	case 3:
		id = vf.U32("scheme id")
		good = id == 1
	case 4:
		sd = zzDigest(a, vf.SHA256)
		good = false
	}
	st := &zzStamp{key: k, schemes: zzStampScheme(id, zzSignOne(k, zzStampDigests(vf.LE32(kind), sd)))}
	ps := [][]byte{st.encode()}
	if vf.Bool("v2 block") { // not considered on these platforms
		ps = append(ps, vf.Pair(vf.IDv2, vf.Bytes("v2", 2)))
	}
	max := []int32{11, 18, 23}[vf.Choice("max", 3)]
	res, err := zzVerifyZip(a.File(vf.SigningBlock(ps...)), max, max)
	vf.Assert(err == nil, "the stamp changes the APK's verdict")
	if zzClean(res.SourceStamp) {
		vf.Cover("clean")
		vf.Assert(good, "a stamp of other content is reported without errors")
	} else {
		vf.Cover("reported")
		vf.Assert(!good, "a right stamp is reported with errors")
	}
}

// Stamps with several schemes and several signatures of any kind, right or wrong. Platforms check the
// strongest signature they know for each release since which a kind is known.
func VF_P22_algorithms() {
	k := []*vf.Key{vf.KeyE0, vf.KeyR0}[vf.Choice("key", 2)]
	scheme := 2 + vf.Choice("scheme", 2)
	s := zzNewStamped(scheme, k, zzCertHash(k))
	min := int32(28)
	n := 1 + vf.Choice("n", 2)
	var sigs [][]byte
	allRight, anyRight, unknown := true, false, false
	seen := map[uint32]bool{}
	type strongest struct {
		rank  int
		right bool
	}
	groups := map[uint32]strongest{}
	attrs := vf.Bool("attributes")
	msg := s.msg()
	if attrs {
		msg = vf.LP(vf.LP(vf.LE32(zzStampTime), vf.LE64(5)))
	}
	for i := 0; i < n; i++ {
		alg := []uint32{vf.AlgEc256, vf.AlgRsa256, vf.AlgEc512, vf.AlgRsa512, 0x999, vf.AlgPss256, vf.AlgDsa256, vf.AlgVRsa256}[vf.Choice("alg", 5+3*vf.Tier())]
		if seen[alg] {
			vf.Assume(false)
		}
		seen[alg] = true
		if alg == 0x999 {
			unknown = true
			sigs = append(sigs, zzSig(alg, vf.Bytes("unknown", 1)))
			continue
		}
		right := zzFits(k, alg) && vf.Bool("right")
		rank := map[uint32]int{vf.AlgVRsa256: 1, vf.AlgRsa512: 2, vf.AlgEc512: 2}[alg]
		since := map[uint32]uint32{vf.AlgEc256: 11, vf.AlgEc512: 11, vf.AlgPss256: 23}[alg]
		if g, ok := groups[since]; !ok || rank > g.rank {
			groups[since] = strongest{rank, right} // of equal ones the first
		}
		if right {
			anyRight = true
			sigs = append(sigs, zzSig(alg, vf.AlgSign(k, alg, msg)))
		} else {
			allRight = false
			o := vf.KeyE1
			if k.Type == "rsa" {
				o = vf.KeyR1
			}
			if !zzFits(o, alg) {
				sigs = append(sigs, zzSig(alg, []byte{0x30, 6, 2, 1, 1, 2, 1, vf.U8("sig")}))
			} else {
				sigs = append(sigs, zzSig(alg, vf.AlgSign(o, alg, msg)))
			}
		}
	}
	st := &zzStamp{key: k}
	other := []byte{}
	switch vf.Choice("other scheme", 3) {
	case 1: // before
		other = zzStampScheme(5, vf.LP(vf.Bytes("other", 1)))
	case 2:
		other = zzStampScheme(uint32(5-scheme), zzSignOne(vf.KeyE1, msg))
	}
	if attrs {
		st.schemes = vf.Cat(other, zzStampScheme(s.schemeID(), zzSignOne(k, s.msg())))
		st.attrs = vf.Cat(vf.LP(msg), zzSigList(sigs...))
	} else {
		st.schemes = vf.Cat(other, zzStampScheme(s.schemeID(), zzSigList(sigs...)))
	}
	res, err := zzVerifyZip(s.file(st.encode()), min, 34)
	vf.Assert(err == nil, "the stamp changes the APK's verdict")
	if zzClean(res.SourceStamp) {
		vf.Cover("clean")
		vf.Assert(anyRight, "a stamp without a right signature is reported without errors")
		for _, g := range groups {
			vf.Assert(g.right, "a stamp whose strongest signature is wrong is reported without errors")
		}
		vf.Assert(!unknown, "an unknown algorithm is not mentioned")
	} else {
		vf.Cover("reported")
		vf.Assert(!(allRight && anyRight) || unknown, "a right stamp is reported with errors")
		if allRight && anyRight {
			vf.Assert(len(res.SourceStamp.Errors) == 0, "an unknown algorithm vetoes a right one")
		}
	}
}

// Certificate histories of up to three records with any link right or wrong, under a valid or wrong signature.
func VF_P22_lineage() {
	keys := []*vf.Key{vf.KeyR0, vf.KeyE0, vf.KeyR1}
	n := vf.Choice("n", 4)
	k := vf.KeyE1
	good := n != 0
	var nodes []*zzNode
	if n > 0 {
		nodes = zzChain(keys[:n]...)
		k = keys[n-1]
	}
	version := uint32(1)
	tail := []byte(nil)
	switch vf.Choice("fault", 9) {
	case 0:
	case 8: // the stamp's is an older one
		if n < 2 {
			vf.Assume(false)
		}
		k = keys[vf.Choice("older", n-1)]
		good = false
	case 1: // one record's link is not signed by its predecessor
		if n < 2 {
			vf.Assume(false)
		}
		i := 1 + vf.Choice("link", n-1)
		nodes[i].signature = vf.AlgSign(vf.KeyE1, vf.AlgEc256, nodes[i].data)
		good = false
	case 2:
		if n < 2 {
			vf.Assume(false)
		}
		i := 1 + vf.Choice("link", n-1)
		nodes[i].signature = zzBad("signature", nodes[i].signature)
		good = false
	case 3: // the two copies of the algorithm differ
		if n < 2 {
			vf.Assume(false)
		}
		i := 1 + vf.Choice("link", n-1)
		p := nodes[i].parentAlgo
		nodes[i].parentAlgo = vf.U32("parent algorithm")
		nodes[i].data = vf.Cat(vf.LP(nodes[i].key.Cert()), vf.LE32(nodes[i].parentAlgo))
		nodes[i].signature = vf.AlgSign(keys[i-1], p, nodes[i].data)
		good = nodes[i].parentAlgo == p
	case 4: // the last one is not the stamp's
		if n == 0 {
			vf.Assume(false)
		}
		k = vf.KeyE1
		good = false
	case 5:
		version = vf.U32("version")
		good = good && version == 1
	case 6: // the first certificate again
		if n < 2 {
			vf.Assume(false)
		}
		l := nodes[n-1]
		r := &zzNode{key: keys[0], algo: vf.AlgDefault(keys[0]), parentAlgo: l.algo}
		r.data = vf.Cat(vf.LP(keys[0].Cert()), vf.LE32(l.algo))
		r.signature = vf.AlgSign(keys[n-1], l.algo, r.data)
		nodes = append(nodes, r)
		k = keys[0]
		good = false
	case 7:
		tail = vf.Bytes("tail", 1+vf.Choice("tail length", 5))
		good = false
	}
	for _, nd := range nodes {
		nd.flags = vf.U32("flags")
	}
	lin := vf.Cat(zzLineage(nodes), tail)
	copy(lin, vf.LE32(version))
	s := zzNewStamped(3, k, zzCertHash(k))
	at := vf.LP(vf.LE32(zzStampRotation), lin)
	hasTime := vf.Bool("time")
	if hasTime {
		at = vf.Cat(at, vf.LP(vf.LE32(zzStampTime), vf.LE64(7)))
	}
	data := vf.LP(at)
	signer := k
	if vf.Bool("other signer") {
		signer = vf.KeyD1
		good = false
	}
	st := &zzStamp{key: k, schemes: zzStampScheme(s.schemeID(), zzSignOne(k, s.msg()))}
	st.attrs = vf.Cat(vf.LP(data), zzSignOne(signer, data))
	res, err := zzVerifyZip(s.file(st.encode()), 28, 34)
	vf.Assert(err == nil, "the stamp changes the APK's verdict")
	ss := res.SourceStamp
	if zzClean(ss) {
		vf.Cover("clean")
		vf.Assert(good, "a stamp with a wrong history is reported without errors")
		ok := len(ss.Lineage) == len(nodes)
		for i := 0; ok && i < len(nodes); i++ {
			g, w := ss.Lineage[i], nodes[i]
			if !vf.Equal(g.Cert.Raw, w.key.Cert()) || len(g.Signature) != len(w.signature) {
				ok = false
				break
			}
			ok = vf.And(vf.And(uint32(g.Flags) == w.flags, uint32(g.ParentAlgo) == w.parentAlgo), vf.And(uint32(g.Algo) == w.algo, vf.Equal(g.Signature, w.signature)))
		}
		vf.Assert(ok, "the reported history is not that of the file")
		if hasTime {
			vf.Assert(ss.SigningTime.Unix() == 7, "the stamp's time")
		}
	} else {
		vf.Cover("reported")
		vf.Assert(!good, "a right history is reported with errors")
	}
}

// One byte of the stamp block is replaced: whatever is still reported without errors is what was signed.
func VF_P22_byte() {
	k := vf.KeyE0
	s := zzNewStamped(2+vf.Choice("scheme", 1+vf.Tier()), k, zzCertHash(k))
	nodes := zzChain(vf.KeyE1, vf.KeyE0)
	st := &zzStamp{key: k, schemes: zzStampScheme(s.schemeID(), zzSignOne(k, s.msg()))}
	data := vf.LP(vf.LP(vf.LE32(zzStampTime), vf.LE64(1700000000)), vf.LP(vf.LE32(zzStampRotation), zzLineage(nodes)))
	st.attrs = vf.Cat(vf.LP(data), zzSignOne(k, data))
	b := st.encode()
	i := 12 + vf.Choice("position", len(b)-12)
	if zzInDates(b, i) { // calendar arithmetic on these is beyond the solver; P24 covers dates
		vf.Assume(false)
	}
	x := vf.U8("difference")
	vf.Assume(x != 0)
	b[i] ^= x
	res, err := zzVerifyZip(s.file(b), 28, 34)
	vf.Assert(err == nil, "the stamp changes the APK's verdict")
	vf.Assert(res.SourceStamp != nil, "the stamp is not reported")
	if zzClean(res.SourceStamp) {
		vf.Cover("clean")
		ss := res.SourceStamp
		vf.Assert(vf.Equal(ss.Cert.Raw, k.Cert()), "another certificate passes")
		vf.Assert(ss.SigningTime.IsZero() || ss.SigningTime.Unix() == 1700000000, "another time passes")
		if ss.Lineage != nil {
			vf.Assert(len(ss.Lineage) == 2 && vf.Equal(ss.Lineage[0].Cert.Raw, nodes[0].key.Cert()) && vf.Equal(ss.Lineage[1].Cert.Raw, nodes[1].key.Cert()), "another history passes")
		}
	} else {
		vf.Cover("reported")
	}
}

// zzInDates reports whether position i is inside an ASN.1 time.
func zzInDates(b []byte, i int) bool {
	for j := i - 16; j <= i; j++ {
		for _, n := range []int{13, 15} {
			if j >= 0 && j+2+n <= len(b) && int(b[j]) == 0x17+(n-13)/2 && int(b[j+1]) == n && b[j+1+n] == 'Z' && i < j+2+n {
				return true
			}
		}
	}
	return false
}

// The same stamp is judged alike whatever the order of maps, with signatures of equal or different strength right or wrong.
func VF_P25_stamp() {
	k := vf.KeyR0
	s := zzNewStamped(2+vf.Choice("scheme", 2), k, zzCertHash(k))
	algs := []uint32{vf.AlgRsa256, vf.AlgDsa256, vf.AlgRsa512, vf.AlgVRsa256, vf.AlgPss256, vf.AlgPss512}
	n := 2 + vf.Choice("n", 2)
	wrong := vf.Choice("wrong", n+1)
	msg := s.msg()
	var sigs [][]byte
	for i := 0; i < n; i++ {
		alg := algs[vf.Choice("alg", 4+2*vf.Tier())]
		m := msg
		if i == wrong {
			m = []byte("other")
		}
		if alg == vf.AlgDsa256 { // cannot be right with this key
			sigs = append(sigs, zzSig(alg, []byte{1}))
			continue
		}
		sigs = append(sigs, zzSig(alg, vf.AlgSign(k, alg, m)))
	}
	st := &zzStamp{key: k, schemes: zzStampScheme(s.schemeID(), zzSigList(sigs...))}
	f := s.file(st.encode())
	min := int32(28) // any applicable platform
	res1, err1 := zzVerifyZip(f, min, 34)
	vf.MapNondet(true)
	res2, err2 := zzVerifyZip(f, min, 34)
	vf.MapNondet(false)
	vf.Assert((err1 == nil) == (err2 == nil), "the verdict differs between two runs")
	a, b := res1.SourceStamp, res2.SourceStamp
	vf.Assert((a == nil) == (b == nil), "a source stamp is reported in one of two runs")
	if a != nil && b != nil {
		vf.ObsInt("errors", len(a.Errors))
		vf.Assert(len(a.Errors) == len(b.Errors) && len(a.Warnings) == len(b.Warnings), "the source stamp's verdict differs between two runs")
		if zzClean(a) {
			vf.Cover("clean")
		} else {
			vf.Cover("reported")
		}
	}
}
