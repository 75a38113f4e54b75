package apkverifier

import (
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P18

const (
	zzOidCN    = "\x55\x04\x03"
	zzOidO     = "\x55\x04\x0a"
	zzOidEmail = "\x2a\x86\x48\x86\xf7\x0d\x01\x09\x01"
	zzOidDC    = "\x09\x92\x26\x89\x93\xf2\x2c\x64\x01\x19"
	zzOidTitle = "\x55\x04\x0c"
)

// zzAva is one attribute of a name.
type zzAva struct {
	oid string
	tag byte
	val []byte
}

type zzName [][]zzAva

func (n zzName) der() []byte {
	var sets []byte
	for _, rdn := range n {
		var as [][]byte
		for _, a := range rdn {
			as = append(as, vf.DER(0x30, vf.OID(a.oid), vf.DER(a.tag, a.val)))
		}
		sets = vf.Cat(sets, vf.DER(0x31, as...))
	}
	return vf.DER(0x30, sets)
}

func zzIsText(tag byte) bool {
	return tag == 12 || tag == 18 || tag == 19 || tag == 20 || tag == 22 || tag == 30
}

func (a zzAva) text() []byte {
	if a.tag != 30 {
		return a.val
	}
	var r []byte
	for i := 1; i < len(a.val); i += 2 {
		r = append(r, a.val[i])
	}
	return r
}

// zzFold is a text without case, surrounding and repeated spaces.
func zzFold(s []byte) []byte {
	var r []byte
	space := false
	for _, b := range s {
		if b == ' ' {
			space = len(r) > 0
			continue
		}
		if space {
			r = append(r, ' ')
			space = false
		}
		r = append(r, byte(vf.Ite(vf.And(b >= 'A', b <= 'Z'), uint64(b+32), uint64(b))))
	}
	return r
}

func (a zzAva) same(b zzAva) bool {
	if a.oid != b.oid || zzIsText(a.tag) != zzIsText(b.tag) {
		return false
	}
	if !zzIsText(a.tag) {
		return a.tag == b.tag && vf.Equal(a.val, b.val)
	}
	return vf.Equal(zzFold(a.text()), zzFold(b.text()))
}

// same reports whether the names are equivalent: the same sets of attributes in the same order.
func (n zzName) same(m zzName) bool {
	if len(n) != len(m) {
		return false
	}
	for i := range n {
		if len(n[i]) != len(m[i]) {
			return false
		}
		used := make([]bool, len(m[i]))
		for _, a := range n[i] {
			found := false
			for j, b := range m[i] {
				if !found && !used[j] && a.same(b) {
					found, used[j] = true, true
				}
			}
			if !found {
				return false
			}
		}
	}
	return true
}

// check verifies with a signer record that names its certificate's issuer n, while the certificate says m.
func (n zzName) check(m zzName) {
	k := vf.KeyE0
	mf, sf := zzJar(zzTwoFiles)
	_, _, subject := vf.CertParts(k.Cert())
	s := &vf.P7Signer{Key: k, Issuer: n.der()}
	block := vf.P7([][]byte{vf.CertNamed(k.Cert(), m.der(), subject)}, s.Encode(sf))
	res, err := zzVerify(zzArchive(mf, []*zzSig{{name: "META-INF/A", key: k, sf: sf, block: block}}, zzTwoFiles...).File(nil), 1, 25)
	vf.ObsErr("err", err)
	same := n.same(m)
	vf.Assert(same || err != nil, "a certificate of another issuer than named is taken")
	vf.Assert(!same || err == nil, "a certificate is not found whose issuer is equivalent to the one named")
	if err == nil {
		vf.Assert(len(res.SignerCerts) == 1 && len(res.SignerCerts[0]) == 1, "another certificate is in the chain")
		vf.Cover("same")
	} else {
		vf.Cover("different")
	}
}

func zzText(name string, n int) []byte {
	b := vf.Bytes(name, n)
	for _, c := range b {
		vf.Assume(c < 0x80)
	}
	return b
}

// One attribute with any short texts.
func VF_P18_values() {
	n := vf.Choice("length", 3)
	m := vf.Choice("other length", 3+vf.Tier())
	t := []byte{22, 12}[vf.Choice("tag", 1+vf.Tier())]
	a := zzName{{{zzOidCN, t, zzText("a", n)}}}
	b := zzName{{{zzOidCN, t, zzText("b", m)}}}
	a.check(b)
}

// Names of up to three attributes, known and unknown ones, in one component or several, and others made of them.
func VF_P18_structure() {
	oids := []string{zzOidCN, zzOidEmail, zzOidO, zzOidDC, zzOidTitle}
	group := func(name string, as []zzAva) zzName {
		var n zzName
		for i, a := range as {
			if i > 0 && vf.Choice(name, 2) == 1 {
				n[len(n)-1] = append(n[len(n)-1], a)
			} else {
				n = append(n, []zzAva{a})
			}
		}
		return n
	}
	k := 1 + vf.Choice("attributes", 2+vf.Tier())
	change := vf.Choice("change", 6)
	var as []zzAva
	for i := 0; i < k; i++ {
		o := oids[vf.Choice("type", 3+2*vf.Tier())]
		val := []byte([]string{"a", "b", "c"}[i])
		if i == 0 && change == 0 {
			val = zzText("a", 1)
		} else if i == 0 && vf.Choice("empty", 2) == 1 {
			val = nil
		}
		as = append(as, zzAva{o, 22, val})
	}
	n := group("joined", as)
	bs := append([]zzAva(nil), as...)
	at := vf.Choice("which", k)
	switch change {
	case 0: // any value
		bs[at].val = zzText("b", len(as[at].val))
	case 1: // another type
		bs[at].oid = oids[vf.Choice("type", 3+2*vf.Tier())]
	case 2: // omitted
		bs = append(append([]zzAva(nil), as[:at]...), as[at+1:]...)
	case 3: // another order
		j := vf.Choice("other", k)
		bs[at], bs[j] = bs[j], bs[at]
	case 4: // repeated
		bs = append(bs, as[at])
	case 5: // the values exchanged
		j := vf.Choice("other", k)
		bs[at].val, bs[j].val = bs[j].val, bs[at].val
	}
	n.check(group("joined there", bs))
}

// Values of any type.
func VF_P18_types() {
	tags := []byte{22, 30, 2, 4, 3, 20, 12, 19, 28, 5, 1, 10}
	nt := 4 + 8*vf.Tier()
	pick := func(name string) zzAva {
		a := zzAva{oid: zzOidCN, tag: tags[vf.Choice(name+" tag", nt)]}
		switch a.tag {
		case 30:
			a.val = vf.Cat([]byte{0}, zzText(name, 1))
			vf.Assume(a.val[1] != 0) // a terminator
		case 12, 22, 19:
			a.val = zzText(name, 1)
		case 20: // any byte
			a.val = vf.Bytes(name, 1)
		case 28:
			a.val = vf.Cat([]byte{0, 0, 0}, vf.Bytes(name, 1))
		case 3:
			a.val = vf.Cat([]byte{0}, vf.Bytes(name, 1))
		case 5:
		case 1:
			a.val = []byte{byte(255 * vf.Choice(name+" value", 2))}
		default:
			a.val = vf.Bytes(name, 1)
		}
		if a.tag == 19 { // what such strings may hold
			c := a.val[0]
			vf.Assume(vf.Or(vf.And(c >= '0', c <= '9'), vf.Or(vf.And(c >= 'a', c <= 'z'), vf.And(c >= 'A', c <= 'Z'))))
		}
		return a
	}
	a, b := pick("a"), pick("b")
	zzName{{a}}.check(zzName{{b}})
}

// Names that other representations confuse.
func VF_P18_chosen() {
	v := func(s string) []zzAva { return []zzAva{{zzOidCN, 12, []byte(s)}} }
	names := []zzName{
		nil, {v("")}, {v(""), v("")}, {v("a")}, {v("a"), v("")}, {v(""), v("a")}, {v("a,2.5.4.3=b")}, {v("a"), v("b")}, {v("b"), v("a")},
		{append(v("a"), v("b")...)}, {append(v("b"), v("a")...)}, {v("a+2.5.4.3=b")}, {v("\xc3\xa4")}, {v("\xc3\x84")}, {v("\xc3\xb6")}, {v("#0c0161")}, {v("\\#0c0161")},
		{v("\\,")}, {v(",")}, {v("\\")}, {v("+")}, {v("A  b")}, {v(" a B ")}, {v("ab")},
		{{{zzOidCN, 20, []byte("\xe4")}}}, {{{zzOidCN, 20, []byte("\xf6")}}}, {{{zzOidCN, 20, []byte("\xef\xbf\xbd")}}},
		{{{zzOidCN, 30, []byte("\x00a")}}}, {{{zzOidCN, 2, []byte{'a'}}}}, {{{zzOidO, 12, []byte("a")}}}, {{{zzOidEmail, 22, []byte("a")}}}, {{{zzOidEmail, 22, []byte("b")}}},
	}
	i, j := vf.Choice("name", len(names)), vf.Choice("other", len(names))
	if i == 12 && j == 13 || i == 13 && j == 12 { // the reference knows no other letters than those of ASCII
		vf.Assume(false)
	}
	names[i].check(names[j])
}
