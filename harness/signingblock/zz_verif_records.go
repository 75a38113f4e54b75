package signingblock

import (
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P31

// zzRd reads the nested records of a block as the platform does.
type zzRd struct {
	b  []byte
	ok bool
}

func (r *zzRd) u32() uint32 {
	if len(r.b) < 4 {
		r.ok, r.b = false, nil
		return 0
	}
	v := vf.Get32(r.b)
	r.b = r.b[4:]
	return v
}

func (r *zzRd) lp() *zzRd {
	n := r.u32()
	if !r.ok || uint64(n) > uint64(len(r.b)) {
		r.ok, r.b = false, nil
		return &zzRd{ok: false}
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return &zzRd{b: x, ok: true}
}

func (r *zzRd) more() bool { return r.ok && len(r.b) > 0 }

// zzMade is what the signer of a malformed block did.
type zzMade struct {
	k             *vf.Key
	v3            bool
	sd, sig, dig  []byte
	lineage       bool
	lo, hi, top   int32
	nodeSD, nodeS [][]byte
}

// signer reads one signer and says if a platform would accept it.
func (z *zzMade) signer(r *zzRd) (ok bool) {
	sd := r.lp()
	raw := sd.b
	var lo, hi uint32
	if z.v3 {
		lo, hi = r.u32(), r.u32()
	}
	sigs, pub := r.lp(), r.lp()
	if !sd.ok || !sigs.ok || !pub.ok || !r.ok {
		return false
	}
	right := string(raw) == string(z.sd) && string(pub.b) == string(z.k.SPKI())
	var algs []uint32
	best := false
	for sigs.more() {
		s := sigs.lp()
		if !s.ok || len(s.b) < 8 {
			return false
		}
		al := s.u32()
		algs = append(algs, al)
		if !zzStrengthKnown(al) {
			continue
		}
		if al != vf.AlgDefault(z.k) { // the strongest or of another digest; the lists then differ
			return false
		}
		if !best {
			best = true
			b := s.lp()
			if !b.ok || string(b.b) != string(z.sig) {
				return false
			}
		}
	}
	if !sigs.ok || !best || !right {
		return false
	}
	ds, cs := sd.lp(), sd.lp()
	if z.v3 && (sd.u32() != lo || sd.u32() != hi) {
		return false
	}
	at := sd.lp()
	if !sd.ok || !ds.ok || !cs.ok || !at.ok {
		return false
	}
	n := 0
	for ; cs.more(); n++ {
		c := cs.lp()
		if !c.ok || string(c.b) != string(z.k.Cert()) { // the only certificate there is
			return false
		}
	}
	if n == 0 || !cs.ok {
		return false
	}
	i, found := 0, false
	for ; ds.more(); i++ {
		d := ds.lp()
		if !d.ok || len(d.b) < 8 {
			return false
		}
		al := d.u32()
		if i >= len(algs) || algs[i] != al {
			return false
		}
		if al == vf.AlgDefault(z.k) {
			b := d.lp()
			if !b.ok || string(b.b) != string(z.dig) {
				return false
			}
			found = true
		}
	}
	if !ds.ok || i != len(algs) || !found {
		return false
	}
	for at.more() {
		a := at.lp()
		id := a.u32()
		if !a.ok {
			return false
		}
		switch {
		case !z.v3 && id == zzAttrStrip:
			return false // stripped or malformed
		case z.v3 && id == zzAttrMinSdk:
			if z.top >= 33 {
				return false // stripped or malformed
			}
		case z.v3 && id == 0x3ba06f8c:
			if !z.history(a) {
				return false
			}
		}
	}
	if !at.ok {
		return false
	}
	if z.v3 {
		return int32(lo) >= 1 && int32(lo) <= int32(hi) && int32(lo) <= 28 && int32(hi) >= z.top
	}
	return true
}

// history reads a signing history that must have the nodes which were made.
func (z *zzMade) history(r *zzRd) bool {
	if len(r.b) == 0 {
		return true
	}
	if r.u32() != 1 || !r.ok {
		return false
	}
	n, from := 0, 0
	for ; r.more(); n++ {
		x := r.lp()
		sd := x.lp()
		x.u32()
		al := x.u32()
		sig := x.lp()
		if !x.ok || !sd.ok || !sig.ok {
			return false
		}
		raw := sd.b
		c := sd.lp()
		pa := sd.u32()
		if !c.ok || !sd.ok {
			return false
		}
		if n == 0 && string(c.b) == string(zzHistory[1].Cert()) { // a history of the signer alone
			from = 1
		}
		i := n + from
		if i >= len(zzHistory) {
			return false
		}
		if n > 0 && (string(raw) != string(z.nodeSD[i]) || string(sig.b) != string(z.nodeS[i]) || pa != vf.AlgDefault(zzHistory[i-1])) {
			return false
		}
		k := zzHistory[i]
		if string(c.b) != string(k.Cert()) || i < len(zzHistory)-1 && al != vf.AlgDefault(k) {
			return false
		}
	}
	return r.ok && (n == 0 || n+from == len(zzHistory))
}

var zzHistory = []*vf.Key{vf.KeyR1, vf.KeyE0}

// block says if the value of a v2 or v3 pair is to be accepted.
func (z *zzMade) block(v []byte) bool {
	r := &zzRd{b: v, ok: true}
	ss := r.lp()
	n := 0
	for ; ss.more(); n++ {
		s := ss.lp()
		if !s.ok || !z.signer(s) {
			return false
		}
	}
	return ss.ok && (n == 1 || n == 2 && !z.v3) // v3 signers of one range overlap
}

// zzMadeOf builds a signer with one malformed part, or with none at all.
func zzMadeOf(z *zzMade, whole bool, attr func(m *zzMut) []byte) []byte {
	build := func(m *zzMut) []byte {
		ds := m.lp(m.lp(m.fix(vf.LE32(vf.AlgDefault(z.k))), m.lp(z.dig)))
		cs := m.lp(m.lp(z.k.Cert()))
		var sdk []byte
		if z.v3 {
			sdk = vf.Cat(m.fix(vf.LE32(24)), m.fix(vf.LE32(0x7fffffff)))
		}
		z.sd = vf.Cat(ds, cs, sdk, m.lp(attr(m)))
		al := vf.AlgDefault(z.k)
		z.sig = vf.AlgSign(z.k, al, z.sd)
		sigs := m.lp(m.lp(m.fix(vf.LE32(al)), m.lp(z.sig)))
		return m.lp(m.lp(m.lp(z.sd), sdk, sigs, m.lp(z.k.SPKI())))
	}
	if whole {
		return build(&zzMut{at: -1})
	}
	return zzMutated(build)
}

func (z *zzMade) verify(a *vf.Apk, v []byte) {
	id := uint32(vf.IDv2)
	if z.v3 {
		id = vf.IDv3
	}
	want := z.block(v)
	_, err := zzVerify(a.File(vf.SigningBlock(vf.Pair(id, v))), 28, z.top)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(want, "accepted although a part is malformed")
	} else {
		vf.Cover("rejected")
		vf.Assert(!want, "refused although every part that is read is right")
	}
}

// One malformed part of a v2 or v3 signer that is otherwise right, its signature included: accepted
// only if nothing the platform reads is affected.
func VF_P31_signer() {
	a, d := zzPlain()
	z := &zzMade{k: vf.KeyE0, dig: d, v3: vf.Choice("v3", 2) == 1, top: 32}
	known := vf.Choice("attribute", 2) == 1
	v := zzMadeOf(z, false, func(m *zzMut) []byte {
		id := uint32(0x01020304)
		if z.v3 && known {
			id = zzAttrMinSdk
		}
		return m.attr(id, m.fix(vf.LE32(35)))
	})
	z.verify(a, v)
}

// One malformed part of a signing history.
func VF_P31_history() {
	a, d := zzPlain()
	z := &zzMade{k: vf.KeyE0, dig: d, v3: true, top: 32}
	l := zzMutated(func(m *zzMut) []byte {
		z.nodeSD, z.nodeS = nil, nil
		b := m.fix(vf.LE32(1))
		for i, k := range zzHistory {
			var pa uint32
			var sig []byte
			if i > 0 {
				pa = vf.AlgDefault(zzHistory[i-1])
			}
			data := vf.Cat(m.lp(k.Cert()), m.fix(vf.LE32(pa)))
			if i > 0 {
				sig = vf.AlgSign(zzHistory[i-1], pa, data)
			}
			z.nodeSD, z.nodeS = append(z.nodeSD, data), append(z.nodeS, sig)
			b = vf.Cat(b, m.lp(m.lp(data), m.fix(vf.LE32(23)), m.fix(vf.LE32(vf.AlgDefault(k))), m.lp(sig)))
		}
		return m.attr(0x3ba06f8c, b)
	})
	z.verify(a, zzMadeOf(z, true, func(*zzMut) []byte { return l }))
}

// A second signature and a second digest, of an algorithm nobody knows or of a weaker one, either of
// them of any length.
func VF_P31_second() {
	a := &vf.Apk{Before: []byte{1, 2, 3, 4}, CD: []byte{5, 6}}
	k := vf.KeyE0
	strong, extra := uint32(vf.AlgEc512), uint32(0x0999)
	weaker := vf.Choice("weaker", 2) == 1
	if weaker {
		extra = vf.AlgEc256
	}
	v3, first := vf.Choice("v3", 2) == 1, vf.Choice("first", 2) == 1
	// a record of the extra algorithm, cut off or with any length of what it holds
	short, long := false, false
	rec := func(what string) []byte {
		b := vf.Cat(vf.LE32(extra), vf.LE32(4), []byte{1, 2, 3, 4})
		switch vf.Choice(what, 3) {
		case 1:
			n := vf.Choice(what+" cut to", 12)
			b = b[:n]
			short, long = n < 8, n < 12
		case 2:
			n := vf.U32(what + " length")
			b[4], b[5], b[6], b[7] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
			long = n > 4
		}
		return b
	}
	right := true
	order := func(one, two []byte) []byte {
		if first {
			return vf.LP(two, one)
		}
		return vf.LP(one, two)
	}
	dig := rec("digest")
	right = right && !short
	short, long = false, false
	sig := rec("signature")
	right = right && !short && !(long && weaker && first)
	ds := order(vf.LP(vf.Cat(vf.LE32(strong), vf.LP(vf.ChunkedDigest(vf.SHA512, a.Sections()...)))), vf.LP(dig))
	id := uint32(vf.IDv2)
	var sdk []byte
	if v3 {
		id, sdk = vf.IDv3, vf.Cat(vf.LE32(24), vf.LE32(0x7fffffff))
	}
	sd := vf.Cat(ds, vf.LP(vf.LP(k.Cert())), sdk, vf.LP())
	main := vf.AlgSign(k, strong, sd)
	strongRec := vf.Cat(vf.LE32(strong), vf.LP(main))
	if vf.Choice("moved", 2) == 1 {
		// The signature is in the other record and its own is empty or malformed.
		vf.Assume(len(sig) == 12)
		sig = vf.Cat(vf.LE32(extra), vf.LP(main))
		strongRec = vf.Cat(vf.LE32(strong), vf.LE32(uint32(vf.Choice("left", 2))))
		right = false
	}
	sigs := order(vf.LP(strongRec), vf.LP(sig))
	v := vf.LP(vf.LP(vf.LP(sd), sdk, sigs, vf.LP(k.SPKI())))
	_, err := zzVerify(a.File(vf.SigningBlock(vf.Pair(id, v))), 28, 32)
	vf.ObsErr("err", err)
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(right, "accepted although a part of the second signature or digest is malformed")
	} else {
		vf.Cover("rejected")
		vf.Assert(!right, "refused because of the second signature or digest, which does not count")
	}
}
