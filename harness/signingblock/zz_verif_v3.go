package signingblock

import (
	"github.com/avast/apkverifier/internal/vf"
)

const (
	zzAttrStrip    = 0xbeeff00d
	zzAttrRotation = 0x3ba06f8c
	zzAttrMinSdk   = 0x559f8b02
	zzMaxSdk       = 0x7fffffff
)

func zzPairV2(enc ...[]byte) []byte  { return vf.Pair(vf.IDv2, vf.SchemeBlock(enc...)) }
func zzPairV3(enc ...[]byte) []byte  { return vf.Pair(vf.IDv3, vf.SchemeBlock(enc...)) }
func zzPairV31(enc ...[]byte) []byte { return vf.Pair(vf.IDv31, vf.SchemeBlock(enc...)) }

func zzCertsAre(res *VerificationResult, keys ...*vf.Key) bool {
	if res == nil || len(res.Certs) != len(keys) {
		return false
	}
	for i, k := range keys {
		if len(res.Certs[i]) != 1 || !vf.Equal(res.Certs[i][0].Raw, k.Cert()) {
			return false
		}
	}
	return true
}

// zzRange is a pair of symbolic SDK versions min <= max.
func zzRange(lowest int32) (int32, int32) {
	min, max := vf.I32("min"), vf.I32("max")
	vf.Assume(vf.And(min >= 1, min <= max))
	vf.Assume(max >= lowest)
	return min, max
}

// ---- P08

// A v2 signer declares another scheme, present or not, for any requested platforms.
func VF_P08_stripped() {
	min, max := zzRange(24)
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	d := zzDigest(a, vf.SHA256)
	declared := []uint32{3, 31}[vf.Choice("declared", 2)]
	attrs := [][]byte{vf.Attr(zzAttrStrip, vf.LE32(declared))}
	if vf.Bool("other attribute") {
		o := vf.Attr(0x11223344, vf.Bytes("o", 2))
		attrs = [][]byte{o, attrs[0]}
	}
	s2 := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}, Attrs: attrs}
	pairs := [][]byte{zzPairV2(s2.Encode())}
	v3 := vf.Choice("v3", 3) // absent, damaged, fine
	switch v3 {
	case 1:
		pairs = append(pairs, vf.Pair(vf.IDv3, vf.Bytes("damaged", 5)))
	case 2:
		s3 := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}, V3: true, Min: 1, Max: zzMaxSdk}
		pairs = append(pairs, zzPairV3(s3.Encode()))
	}
	v31 := vf.Bool("v31")
	if v31 {
		pairs = append(pairs, vf.Pair(vf.IDv31, []byte{0, 0, 0, 0}))
	}
	vf.Assume(!vf.And(v31, max >= 33)) // then v3.1 decides; P11
	if vf.Bool("order") {
		pairs[0], pairs[len(pairs)-1] = pairs[len(pairs)-1], pairs[0]
	}
	res, err := zzVerify(a.File(vf.SigningBlock(pairs...)), min, max)
	there := declared == 3 && v3 != 0 || declared == 31 && v31
	switch {
	case max < 28:
		vf.Cover("v3 not known")
		vf.Assert(err == nil && res.SchemeId == 2, "refused although no requested platform knows v3")
	case v3 == 2:
		vf.Cover("v3 decides")
		vf.Assert(err == nil && res.SchemeId == 3, "a present v3 signature is not used")
	case v3 == 1 && min >= 28:
		vf.Cover("v3 decides")
		vf.Assert(err != nil, "a damaged v3 signature is accepted")
	case there:
		vf.Cover("fallback with the scheme present")
		vf.Assert(err == nil && res.SchemeId == 2, "refused as stripped although the scheme is present")
	default:
		vf.Cover("stripped")
		vf.Assert(err != nil, "the stripped signature is not noticed")
	}
}

// Any declaration, of any length, in any of several signers, without v3: never accepted where v3 is known.
func VF_P08_declared() {
	min, max := zzRange(24)
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	d := zzDigest(a, vf.SHA256)
	v := vf.Bytes("declared", vf.Choice("len", 6))
	attr := vf.Attr(zzAttrStrip, v)
	mk := func(k *vf.Key, attrs ...[]byte) []byte {
		return (&vf.Signer{Key: k, Digests: [][]byte{d}, Attrs: attrs}).Encode()
	}
	encs := [][]byte{mk(vf.KeyE0, attr)}
	if vf.Bool("two") {
		encs = [][]byte{mk(vf.KeyE0, attr), mk(vf.KeyR0)}
		if vf.Bool("second") {
			encs[0], encs[1] = encs[1], encs[0]
		}
	}
	_, err := zzVerify(a.File(vf.SigningBlock(zzPairV2(encs...))), min, max)
	if max < 28 {
		vf.Cover("v3 not known")
		vf.Assert(err == nil, "refused although no requested platform knows v3")
	} else {
		vf.Cover("stripped")
		vf.Assert(err != nil, "the stripped signature is not noticed")
	}
}

// Without a declaration, v2 alone is fine.
func VF_P08_none() {
	min, max := zzRange(24)
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	var attrs [][]byte
	for i, n := 0, vf.Choice("n", 3); i < n; i++ {
		id := vf.U32("id")
		vf.Assume(id != zzAttrStrip)
		attrs = append(attrs, vf.Attr(id, vf.Bytes("v", vf.Choice("len", 3))))
	}
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{zzDigest(a, vf.SHA256)}, Attrs: attrs}
	res, err := zzVerify(a.File(vf.SigningBlock(zzPairV2(s.Encode()))), min, max)
	vf.Cover("accepted")
	vf.Assert(err == nil && res.SchemeId == 2, "a v2 signature without declaration is refused")
}

// zzAmong puts up to three unknown attributes before and two behind the given ones.
func zzAmong(known ...[]byte) (attrs [][]byte) {
	some := func(n int) {
		for ; n > 0; n-- {
			id := vf.U32("unknown")
			for _, k := range []uint32{zzAttrStrip, zzAttrRotation, zzAttrMinSdk, 0xc2a6b3ba} {
				vf.Assume(id != k)
			}
			attrs = append(attrs, vf.Attr(id, vf.Bytes("v", n+n%2)))
		}
	}
	some(vf.Choice("before", 4))
	attrs = append(attrs, known...)
	some(vf.Choice("behind", 3))
	return
}

// The declaration among attributes nobody knows, and two declarations.
func VF_P08_among() {
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	d := zzDigest(a, vf.SHA256)
	strip := vf.Attr(zzAttrStrip, vf.LE32(3))
	none := false
	var attrs [][]byte
	switch vf.Choice("declared", 4) {
	case 0:
		attrs, none = zzAmong(), true
	case 1:
		attrs = zzAmong(strip)
	case 2:
		attrs = zzAmong(strip, vf.Attr(zzAttrStrip, vf.LE32(31)))
	case 3:
		attrs = zzAmong(vf.Attr(zzAttrStrip, vf.LE32(31)), strip)
	}
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}, Attrs: attrs}
	res, err := zzVerify(a.File(vf.SigningBlock(zzPairV2(s.Encode()))), 28, 30)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(none && res.SchemeId == 2, "the stripped signature is not noticed")
	} else {
		vf.Cover("rejected")
		vf.Assert(!none, "a v2 signature without declaration is refused")
	}
}

// ---- P09

// One to three v3 signers with arbitrary declared ranges.
func VF_P09_ranges() {
	min, max := vf.I32("min"), vf.I32("max")
	vf.Assume(vf.And(min >= 1, vf.And(min <= max, max >= 28)))
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	d := zzDigest(a, vf.SHA256)
	keys := []*vf.Key{vf.KeyE0, vf.KeyR0, vf.KeyE1}
	n := 1 + vf.Choice("n", 3)
	var lo, hi [3]int32
	var encs [][]byte
	sane := true
	for i := 0; i < n; i++ {
		lo[i], hi[i] = vf.I32("lo"), vf.I32("hi")
		s := &vf.Signer{Key: keys[i], Digests: [][]byte{d}, V3: true, Min: uint32(lo[i]), Max: uint32(hi[i])}
		sane = vf.And(sane, vf.And(lo[i] >= 1, lo[i] <= hi[i]))
		encs = append(encs, vf.LP(s.Encode()))
	}
	res, err := zzVerify(a.File(vf.SigningBlock(vf.Pair(vf.IDv3, vf.LP(encs...)))), min, max)
	want := sane
	from := min
	if min < 28 {
		from = 28
	}
	// some signer covers the first release, every signer that ends early is continued by another
	first, last := false, false
	overlap := false
	gap := false
	for i := 0; i < n; i++ {
		first = vf.Or(first, lo[i] <= from)
		last = vf.Or(last, hi[i] >= max)
		isLast, next := true, false
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			overlap = vf.Or(overlap, vf.And(lo[i] <= hi[j], lo[j] <= hi[i]))
			isLast = vf.And(isLast, lo[j] <= lo[i])
			next = vf.Or(next, vf.And(lo[j] > lo[i], int64(lo[j]) == int64(hi[i])+1))
		}
		gap = vf.Or(gap, !vf.Or(isLast, next))
	}
	want = vf.And(want, vf.And(vf.And(first, last), !vf.Or(overlap, gap)))
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(want, "accepted although the signers' ranges do not cover the platforms exactly")
		vf.Assert(len(res.Certs) == n, "number of chains")
	} else {
		vf.Cover("rejected")
		vf.Assert(!want, "refused although the signers' ranges are fine")
	}
}

// The signed copies of a range must equal the unsigned ones.
func VF_P09_copies() {
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{zzDigest(a, vf.SHA256)}, V3: true, SDiff: true,
		Min: vf.U32("lo"), Max: vf.U32("hi"), SMin: vf.U32("ulo"), SMax: vf.U32("uhi")}
	min, max := zzRange(28)
	_, err := zzVerify(a.File(vf.SigningBlock(zzPairV3(s.Encode()))), min, max)
	same := vf.And(s.Min == s.SMin, s.Max == s.SMax)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(same, "accepted although the signed range differs")
		vf.Assert(int32(s.Max) >= max, "range")
	} else {
		vf.Cover("rejected")
	}
}

// ---- P10

type zzNode struct {
	key             *vf.Key
	flags, algo     uint32
	parentAlgo      uint32
	signature, data []byte
}

func zzLineage(nodes []*zzNode) []byte {
	b := vf.LE32(1)
	for _, n := range nodes {
		b = vf.Cat(b, vf.LP(vf.LP(n.data), vf.LE32(n.flags), vf.LE32(n.algo), vf.LP(n.signature)))
	}
	return b
}

// zzChain is a valid lineage.
func zzChain(keys ...*vf.Key) (nodes []*zzNode) {
	for i, k := range keys {
		n := &zzNode{key: k, algo: vf.AlgDefault(k), flags: 23}
		if i > 0 {
			n.parentAlgo = nodes[i-1].algo
		}
		n.data = vf.Cat(vf.LP(k.Cert()), vf.LE32(n.parentAlgo))
		if i > 0 {
			n.signature = vf.AlgSign(keys[i-1], n.parentAlgo, n.data)
		}
		nodes = append(nodes, n)
	}
	return
}

func zzLineageIs(l *V3SigningLineage, nodes []*zzNode) bool {
	if l == nil || len(l.Nodes) != len(nodes) {
		return false
	}
	ok := l.MinSdkVersion == 28 // none of the algorithms needs a later platform than lineages do
	for i, n := range nodes {
		g := l.Nodes[i]
		if !vf.Equal(g.SigningCert.Raw, n.key.Cert()) || len(g.Signature) != len(n.signature) {
			return false
		}
		ok = vf.And(ok, vf.And(uint32(g.Flags) == n.flags, vf.And(uint32(g.SigAlgorithm) == n.algo, uint32(g.ParentSigAlgorithm) == n.parentAlgo)))
		ok = vf.And(ok, vf.Equal(g.Signature, n.signature))
	}
	return ok
}

// A lineage of up to three records, each made by the right or a wrong key, over the right or other
// data, with matching or other algorithm identifiers.
func VF_P10_chain() {
	keys := []*vf.Key{vf.KeyR0, vf.KeyE0, vf.KeyR1}
	n := 1 + vf.Choice("n", 3)
	var nodes []*zzNode
	valid := true
	for i := 0; i < n; i++ {
		k := keys[i]
		if i > 0 && vf.Bool("same key") {
			k = nodes[0].key
		}
		for _, o := range nodes {
			valid = valid && o.key != k
		}
		nd := &zzNode{key: k, flags: vf.U32("flags")}
		if i == n-1 {
			nd.algo = vf.U32("algo") // of no consequence
		} else {
			nd.algo = vf.AlgDefault(k)
			switch vf.Choice("algo", 3) {
			case 0:
			case 1:
				nd.algo = map[string]uint32{"rsa": vf.AlgRsa512, "ec": vf.AlgEc512}[k.Type]
			case 2:
				nd.algo = map[string]uint32{"rsa": vf.AlgEc256, "ec": vf.AlgRsa256}[k.Type]
			}
		}
		nd.parentAlgo = vf.U32("parent")
		nd.data = vf.Cat(vf.LP(k.Cert()), vf.LE32(nd.parentAlgo))
		if i > 0 {
			p := nodes[i-1]
			valid = vf.And(valid, nd.parentAlgo == p.algo)
			switch vf.Choice("signed", 3) {
			case 0:
				if zzFits(p.key, p.algo) {
					nd.signature = vf.AlgSign(p.key, p.algo, nd.data)
				} else {
					nd.signature = vf.AlgSign(p.key, vf.AlgDefault(p.key), nd.data)
					valid = false
				}
			case 1: // by another key
				nd.signature = vf.AlgSign(vf.KeyE1, vf.AlgEc256, nd.data)
				valid = false
			case 2: // over other data
				nd.signature = vf.AlgSign(p.key, vf.AlgDefault(p.key), vf.Cat(nd.data, []byte{0}))
				valid = false
			}
		} else {
			nd.signature = vf.Bytes("signature", 1)
		}
		nodes = append(nodes, nd)
	}
	signer := nodes[n-1].key
	if vf.Bool("other signer") {
		signer = vf.KeyE1
		valid = false
	}
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	s := &vf.Signer{Key: signer, Digests: [][]byte{zzDigest(a, vf.SHA256)}, V3: true, Min: 24, Max: zzMaxSdk,
		Attrs: [][]byte{vf.Attr(zzAttrRotation, zzLineage(nodes))}}
	res, err := zzVerify(a.File(vf.SigningBlock(zzPairV3(s.Encode()))), 28, 32)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(valid, "accepted an invalid lineage")
		vf.Assert(zzLineageIs(res.SigningLineage, nodes), "the reported lineage is not the one in the file")
	} else {
		vf.Cover("rejected")
		vf.Assert(!valid, "refused a valid lineage")
	}
}

// The signer's certificate is in the lineage, but not last; the version is another; data is cut short.
func VF_P10_shape() {
	nodes := zzChain(vf.KeyR0, vf.KeyE0, vf.KeyR1)
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	s := &vf.Signer{Key: vf.KeyR1, Digests: [][]byte{zzDigest(a, vf.SHA256)}, V3: true, Min: 24, Max: zzMaxSdk}
	l := zzLineage(nodes)
	switch vf.Choice("kind", 4) {
	case 0:
		s.Key = []*vf.Key{vf.KeyR0, vf.KeyE0}[vf.Choice("which", 2)]
	case 1:
		v := vf.U32("version")
		vf.Assume(v != 1)
		l = vf.Cat(vf.LE32(v), l[4:])
	case 2:
		l = l[:len(l)-1-vf.Choice("cut", 40)]
	case 3:
		l = vf.Cat(l, vf.Bytes("tail", 1+vf.Choice("tail", 5)))
	}
	s.Attrs = [][]byte{vf.Attr(zzAttrRotation, l)}
	_, err := zzVerify(a.File(vf.SigningBlock(zzPairV3(s.Encode()))), 28, 32)
	vf.Cover("refused")
	vf.Assert(err != nil, "a malformed or foreign lineage is accepted")
}

// A lineage among attributes nobody knows.
func VF_P10_among() {
	nodes := zzChain(vf.KeyR0, vf.KeyE0)
	right := true
	switch vf.Choice("kind", 3) {
	case 1:
		nodes[1].signature, right = zzBad("bad", nodes[1].signature), false
	case 2:
		nodes, right = zzChain(vf.KeyE0, vf.KeyR0), false
	}
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{zzDigest(a, vf.SHA256)}, V3: true, Min: 24, Max: zzMaxSdk}
	if vf.Choice("there", 2) == 0 {
		s.Attrs = zzAmong()
		res, err := zzVerify(a.File(vf.SigningBlock(zzPairV3(s.Encode()))), 28, 32)
		vf.Assert(err == nil && res.SigningLineage == nil, "unknown attributes matter")
		return
	}
	s.Attrs = zzAmong(vf.Attr(zzAttrRotation, zzLineage(nodes)))
	res, err := zzVerify(a.File(vf.SigningBlock(zzPairV3(s.Encode()))), 28, 32)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(right, "a wrong lineage is accepted")
		vf.Assert(zzLineageIs(res.SigningLineage, nodes), "the reported lineage is not the one in the file")
	} else {
		vf.Cover("rejected")
		vf.Assert(!right, "a valid lineage is refused")
	}
}

// Longer lineages in which every link is signed rightly: no certificate may return, at any distance.
func VF_P10_long() {
	pool := []*vf.Key{vf.KeyR0, vf.KeyE0, vf.KeyR1, vf.KeyE1}
	n := 2 + vf.Choice("n", 3+vf.Tier())
	m := 3 + vf.Tier()
	var ks []*vf.Key
	distinct := true
	for i := 0; i < n; i++ {
		k := pool[vf.Choice("key", m)]
		if i == n-1 {
			k = pool[vf.Choice("last", len(pool))]
		}
		for _, o := range ks {
			distinct = distinct && o != k
		}
		ks = append(ks, k)
	}
	nodes := zzChain(ks...)
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	s := &vf.Signer{Key: ks[n-1], Digests: [][]byte{zzDigest(a, vf.SHA256)}, V3: true, Min: 24, Max: zzMaxSdk,
		Attrs: [][]byte{vf.Attr(zzAttrRotation, zzLineage(nodes))}}
	res, err := zzVerify(a.File(vf.SigningBlock(zzPairV3(s.Encode()))), 28, 32)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(distinct, "accepted a lineage with a repeated certificate")
		vf.Assert(zzLineageIs(res.SigningLineage, nodes), "the reported lineage is not the one in the file")
	} else {
		vf.Cover("rejected")
		vf.Assert(!distinct, "refused a valid lineage")
	}
}

// Two signers holding parts of one chain, with one field of one record changed in the first signer's
// copy (flags, or the signature of the first record, which nobody checks).
func VF_P10_prefix() {
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	d := zzDigest(a, vf.SHA256)
	ks := []*vf.Key{vf.KeyR0, vf.KeyE0, vf.KeyR1}
	full := zzChain(ks...)
	var encs [][]byte
	var ln [2]int
	changed, same := vf.Choice("changed", 3), true
	for i := 0; i < 2; i++ {
		n := vf.Choice("n", 4)
		ln[i] = n
		s := &vf.Signer{Key: vf.KeyE1, Digests: [][]byte{d}, V3: true, Min: uint32(20 + 10*i), Max: uint32(29 + 10*i)}
		if n > 0 {
			s.Key = ks[n-1]
			nodes := append([]*zzNode(nil), full[:n]...)
			if i == 0 && changed < n {
				c := *nodes[changed]
				x := vf.U32("flags")
				c.flags ^= x
				same = x == 0
				if changed == 0 {
					y := vf.Bytes("sig", vf.Choice("siglen", 2))
					c.signature = y
					same = vf.And(same, len(y) == 0)
				}
				nodes[changed] = &c
			}
			s.Attrs = [][]byte{vf.Attr(zzAttrRotation, zzLineage(nodes))}
		}
		encs = append(encs, s.Encode())
	}
	if vf.Bool("reverse") {
		encs[0], encs[1] = encs[1], encs[0]
	}
	res, err := zzVerify(a.File(vf.SigningBlock(zzPairV3(encs...))), 28, 39)
	common := ln[0] > changed && ln[1] > changed
	ok := vf.And(ln[1] == 0 || ln[0] <= ln[1], vf.Or(same, !common))
	if err != nil {
		vf.Cover("rejected")
		vf.Assert(!ok, "refused although one lineage extends the other")
		return
	}
	vf.Cover("accepted")
	vf.Assert(ok, "accepted although neither lineage extends the other")
	switch {
	case ln[1] > 0:
		vf.Assert(zzLineageIs(res.SigningLineage, full[:ln[1]]), "the reported lineage is not the longest one")
	case ln[0] > 0:
		vf.Assert(res.SigningLineage != nil && len(res.SigningLineage.Nodes) == ln[0], "the only lineage is not reported")
	default:
		vf.Assert(res.SigningLineage == nil, "a lineage out of nowhere")
	}
}

// Two signers for consecutive ranges, each with a lineage or none: prefixes only.
func VF_P10_signers() {
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	d := zzDigest(a, vf.SHA256)
	lin := [][]*vf.Key{nil, {vf.KeyR0}, {vf.KeyR0, vf.KeyE0}, {vf.KeyR0, vf.KeyE0, vf.KeyR1}, {vf.KeyE0, vf.KeyR1}, {vf.KeyR1, vf.KeyE0}, {vf.KeyR0, vf.KeyR1}}
	n := 2 + vf.Tier()
	var encs [][]byte
	var chains [][]*zzNode
	for i := 0; i < n; i++ {
		ks := lin[vf.Choice("lineage", len(lin))]
		k := vf.KeyE1
		s := &vf.Signer{Digests: [][]byte{d}, V3: true, Min: uint32(20 + 10*i), Max: uint32(29 + 10*i)}
		var c []*zzNode
		if ks != nil {
			k = ks[len(ks)-1]
			c = zzChain(ks...)
			for j := range c {
				if j > 0 { // signatures are deterministic here: same parent, same data, same signature
					c[j].flags = 23
				}
			}
			s.Attrs = [][]byte{vf.Attr(zzAttrRotation, zzLineage(c))}
		}
		s.Key = k
		encs, chains = append(encs, s.Encode()), append(chains, c)
	}
	order := vf.Bool("reverse")
	if order {
		encs[0], encs[n-1] = encs[n-1], encs[0]
	}
	res, err := zzVerify(a.File(vf.SigningBlock(zzPairV3(encs...))), 28, int32(19+10*n))
	if err != nil {
		vf.Cover("rejected")
		all := true
		for _, c := range chains {
			all = all && c == nil
		}
		vf.Assert(!all, "refused without any lineage")
		return
	}
	vf.Cover("accepted")
	var longest []*zzNode
	for _, c := range chains {
		if len(c) > len(longest) {
			longest = c
		}
	}
	if longest == nil {
		vf.Assert(res.SigningLineage == nil, "a lineage out of nowhere")
		return
	}
	vf.Assert(res.SigningLineage != nil && len(res.SigningLineage.Nodes) == len(longest), "the longest lineage is not reported")
	for _, c := range chains {
		for i, nd := range c {
			vf.Assert(vf.Equal(res.SigningLineage.Nodes[i].SigningCert.Raw, nd.key.Cert()), "a signer's lineage is no prefix of the reported one")
		}
	}
}

// ---- P11

// The declared rotation release among attributes nobody knows.
func VF_P11_among() {
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	d := zzDigest(a, vf.SHA256)
	s31 := &vf.Signer{Key: vf.KeyR0, Digests: [][]byte{d}, V3: true, Min: 33, Max: zzMaxSdk - 1}
	s3 := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}, V3: true, Min: 24, Max: 32}
	declared := vf.I32("declared")
	vf.Assume(declared >= 32)
	vf.Assume(declared <= 34)
	if there := vf.Choice("there", 3); there > 0 {
		s3.Attrs = zzAmong(vf.Attr(zzAttrMinSdk, vf.LE32(uint32(declared))))
		if there == 2 { // stripped
			_, err := zzVerify(a.File(vf.SigningBlock(zzPairV3(s3.Encode()))), 28, 34)
			vf.Assert(err != nil, "a stripped v3.1 signature is not noticed")
			vf.Cover("stripped")
			return
		}
	} else {
		s3.Attrs = zzAmong()
		declared = 33
	}
	if vf.Choice("also v3.1", 2) == 1 {
		s31.Attrs = zzAmong()
	}
	res, err := zzVerify(a.File(vf.SigningBlock(zzPairV31(s31.Encode()), zzPairV3(s3.Encode()))), 28, 34)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(declared == 33 && res.SchemeId == 31, "another rotation release than the declared one is accepted")
	} else {
		vf.Cover("rejected")
		vf.Assert(declared != 33, "right v3 and v3.1 signatures are refused")
	}
}

// A v3.1 block with one or two signers over a v3 block: ranges, declaration and damage of either.
func VF_P11_both() {
	min, max := zzRange(33)
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	d := zzDigest(a, vf.SHA256)
	bad31, bad3 := vf.Choice("damage31", 3), vf.Choice("damage3", 3)
	enc := func(s *vf.Signer, bad int) []byte {
		s.Digests = [][]byte{d}
		if bad == 1 {
			s.Digests = [][]byte{zzBad("bad", d)}
		}
		sd := s.SignedData()
		data := sd
		if bad == 2 {
			data = vf.Cat(sd, []byte{1})
		}
		al := vf.AlgDefault(s.Key)
		return s.EncodeWith(sd, vf.LP(vf.LE32(al), vf.LP(vf.AlgSign(s.Key, al, data))), s.Key.SPKI())
	}
	lo31, hi31 := vf.I32("lo31"), vf.I32("hi31")
	lo3, hi3 := vf.I32("lo3"), vf.I32("hi3")
	vf.Assume(vf.And(lo31 != zzMaxSdk, vf.And(max != zzMaxSdk, hi31 != zzMaxSdk)))
	s31 := &vf.Signer{Key: vf.KeyR0, V3: true, Min: uint32(lo31), Max: uint32(hi31)}
	s3 := &vf.Signer{Key: vf.KeyE0, V3: true, Min: uint32(lo3), Max: uint32(hi3)}
	declared := vf.I32("declared")
	declares := vf.Bool("declares")
	if declares {
		s3.Attrs = [][]byte{vf.Attr(zzAttrMinSdk, vf.LE32(uint32(declared)))}
	}
	from := min
	if min < 28 {
		from = 28
	}
	e31, e3 := enc(s31, bad31), enc(s3, bad3)
	pairs := [][]byte{zzPairV31(e31), zzPairV3(e3)}
	if vf.Bool("order") {
		pairs[0], pairs[1] = pairs[1], pairs[0]
	}
	res, err := zzVerify(a.File(vf.SigningBlock(pairs...)), min, max)
	sane := vf.And(vf.And(lo31 >= 1, lo31 <= hi31), vf.And(lo3 >= 1, lo3 <= hi3))
	cover31 := vf.And(lo31 <= max, hi31 >= max)
	cover3 := vf.And(lo3 <= from, int64(hi3) >= int64(lo31)-1)
	want := vf.And(bad31 == 0 && bad3 == 0, vf.And(sane, vf.And(cover31, cover3)))
	if declares {
		want = vf.And(want, declared == lo31)
	}
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(bad31 == 0, "a damaged v3.1 signer is accepted")
		vf.Assert(bad3 == 0, "a damaged v3 signer is accepted")
		vf.Assert(want, "accepted although ranges or the declared rotation do not fit")
		vf.Assert(res.SchemeId == 31 && zzCertsAre(res, vf.KeyR0), "the v3.1 signer is not what is reported")
		x := res.ExtraResults[3]
		vf.Assert(zzCertsAre(x, vf.KeyE0), "the v3 signer is not reported with it")
	} else {
		vf.Cover("rejected")
		vf.Assert(!want, "refused although everything fits")
	}
}

// Only one of the two blocks.
func VF_P11_single() {
	min, max := zzRange(28)
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	d := zzDigest(a, vf.SHA256)
	declares := vf.Bool("declares")
	s := &vf.Signer{Key: vf.KeyR0, V3: true, Min: 24, Max: zzMaxSdk, Digests: [][]byte{d}}
	if declares {
		s.Attrs = [][]byte{vf.Attr(zzAttrMinSdk, vf.LE32(vf.U32("declared")))}
	}
	only31 := vf.Bool("only v3.1")
	p := zzPairV3(s.Encode())
	if only31 {
		p = zzPairV31(s.Encode())
	}
	res, err := zzVerify(a.File(vf.SigningBlock(p)), min, max)
	switch {
	case only31:
		vf.Cover("v3.1 alone")
		vf.Assert(err != nil, "a v3.1 block without a v3 block is accepted")
		if max < 33 {
			vf.Assert(IsSigningBlockNotFoundError(err), "v3.1 used for platforms that do not know it")
		}
	case declares && max >= 33:
		vf.Cover("stripped")
		vf.Assert(err != nil, "a stripped v3.1 block is not noticed")
	default:
		vf.Cover("v3 alone")
		vf.Assert(err == nil && res.SchemeId == 3, "a v3 signature is refused")
	}
}

// Two v3.1 signers, in either order: the declared rotation is the lower of them and both verify.
func VF_P11_two() {
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	d := zzDigest(a, vf.SHA256)
	cut := vf.U32("cut")
	vf.Assume(vf.And(cut >= 34, cut < 50))
	declared := vf.U32("declared")
	x := &vf.Signer{Key: vf.KeyR0, V3: true, Min: 33, Max: cut - 1, Digests: [][]byte{d}}
	y := &vf.Signer{Key: vf.KeyE1, V3: true, Min: cut, Max: 60, Digests: [][]byte{d}}
	badX, badY := vf.Bool("bad first"), vf.Bool("bad second")
	if badX {
		x.Digests = [][]byte{zzBad("bx", d)}
	}
	if badY {
		y.Digests = [][]byte{zzBad("by", d)}
	}
	s3 := &vf.Signer{Key: vf.KeyE0, V3: true, Min: 24, Max: 32, Digests: [][]byte{d}, Attrs: [][]byte{vf.Attr(zzAttrMinSdk, vf.LE32(declared))}}
	ex, ey := x.Encode(), y.Encode()
	if vf.Bool("swap") {
		ex, ey = ey, ex
	}
	_, err := zzVerify(a.File(vf.SigningBlock(zzPairV3(s3.Encode()), zzPairV31(ex, ey))), 24, 55)
	want := vf.And(!badX && !badY, declared == 33)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(want, "accepted although a signer or the declared rotation is wrong")
	} else {
		vf.Cover("rejected")
		vf.Assert(!want, "refused although everything fits")
	}
}

// ---- P12

// Any of the blocks present, each right or damaged, for any requested platforms.
func VF_P12_pick() {
	min, max := zzRange(1)
	a := &vf.Apk{Before: []byte{1, 2}, CD: []byte{3}}
	d := zzDigest(a, vf.SHA256)
	k2, k3, k31 := vf.KeyE0, vf.KeyR0, vf.KeyR1
	var pairs [][]byte
	enc := func(s *vf.Signer, how int) []byte {
		s.Digests = [][]byte{d}
		switch how {
		case 2:
			s.Digests = [][]byte{zzBad("bad", d)}
		case 3: // the signature is wrong
			sd := s.SignedData()
			al := vf.AlgDefault(s.Key)
			return s.EncodeWith(sd, vf.LP(vf.LE32(al), vf.LP(vf.AlgSign(s.Key, al, vf.Cat(sd, sd)))), s.Key.SPKI())
		}
		return s.Encode()
	}
	// absent, right, wrong content digest, wrong signature
	h2, h3, h31 := vf.Choice("v2", 4), vf.Choice("v3", 4), vf.Choice("v31", 3)
	lin3, lin31 := zzChain(vf.KeyE1, k3), zzChain(vf.KeyE1, k3, k31)
	if h2 > 0 {
		pairs = append(pairs, zzPairV2(enc(&vf.Signer{Key: k2}, h2)))
	}
	if h3 > 0 {
		hi := uint32(zzMaxSdk)
		var attrs [][]byte
		attrs = append(attrs, vf.Attr(zzAttrRotation, zzLineage(lin3)))
		pairs = append(pairs, zzPairV3(enc(&vf.Signer{Key: k3, V3: true, Min: 24, Max: hi, Attrs: attrs}, h3)))
	}
	if h31 > 0 {
		pairs = append(pairs, zzPairV31(enc(&vf.Signer{Key: k31, V3: true, Min: 33, Max: zzMaxSdk, Attrs: [][]byte{vf.Attr(zzAttrRotation, zzLineage(lin31))}}, h31)))
	}
	res, err := zzVerify(a.File(vf.SigningBlock(pairs...)), min, max)
	scheme := 1
	switch {
	case h31 > 0 && max >= 33:
		scheme = 31
	case h3 > 0 && max >= 28:
		scheme = 3
	case h2 > 0 && max >= 24:
		scheme = 2
	}
	ok := false
	switch scheme {
	case 31:
		ok = h31 == 1 && h3 == 1
	case 3:
		ok = h3 == 1
		if !ok && min < 28 && h2 > 0 {
			vf.Cover("fallback")
			scheme, ok = 2, h2 == 1
		}
	case 2:
		ok = h2 == 1
	}
	if scheme == 1 {
		vf.Cover("none")
		vf.Assert(res != nil && len(res.Certs) == 0 && res.SchemeId == 1, "a signer out of nowhere")
		vf.Assert((err == nil) == (max < 24), "no applicable scheme")
		if max >= 24 {
			vf.Assert(IsSigningBlockNotFoundError(err), "no applicable scheme, but not reported as missing")
		}
		return
	}
	if !ok {
		vf.Cover("rejected")
		if scheme == 31 {
			vf.Assert(err != nil, "a damaged or incomplete v3.1 signature is accepted")
		} else {
			vf.Assert(err != nil, "a damaged signature is accepted")
		}
		return
	}
	vf.Cover("accepted")
	vf.Assert(err == nil, "the deciding signature is right but refused")
	vf.Assert(res.SchemeId == scheme, "reported scheme")
	switch scheme {
	case 2:
		vf.Assert(zzCertsAre(res, k2), "not just the v2 signer is reported")
		vf.Assert(res.SigningLineage == nil && len(res.ExtraResults) == 0, "results of another scheme are reported with v2")
	case 3:
		vf.Assert(zzCertsAre(res, k3), "not just the v3 signer is reported")
		vf.Assert(zzLineageIs(res.SigningLineage, lin3) && len(res.ExtraResults) == 0, "lineage of v3")
	case 31:
		vf.Assert(zzCertsAre(res, k31), "not just the v3.1 signer is reported")
		vf.Assert(zzLineageIs(res.SigningLineage, lin31), "lineage of v3.1")
	}
}
