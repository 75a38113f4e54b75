package signingblock

import (
	"bytes"
	"crypto/sha1"
	"crypto/x509"
	"encoding/hex"
	"errors"
	"strings"

	"github.com/avast/apkverifier/internal/vf"
	"github.com/avast/apkverifier/internal/x509andr"
)

// ---- P35

const zzHexDigits = "0123456789abcdef"

// zzHexOf is v in hexadecimal with at least width digits.
func zzHexOf(v uint32, width int) string {
	s := ""
	for v != 0 || len(s) < width {
		s = string(zzHexDigits[v&15]) + s
		v >>= 4
	}
	return s
}

func zzCapsText(c uint32) string {
	names := []string{"InstalledData", "SharedUserId", "Permission", "Rollback", "Auth"}
	s := ""
	for i := 0; i < 32; i++ {
		if c&(1<<uint(i)) == 0 {
			continue
		}
		if s != "" {
			s += "|"
		}
		if i < len(names) {
			s += names[i]
		} else {
			s += "0x" + zzHexOf(1<<uint(i), 1)
		}
	}
	if s == "" {
		return "None"
	}
	return s
}

// Capabilities of a lineage entry, whichever a file claims.
func VF_P35_caps() {
	c := vf.U32("caps")
	high := c &^ 31
	more := high & (high - 1)
	if vf.Tier() != 0 {
		more &= more - 1
	}
	vf.Assume(more == 0)
	got := LineageCertCaps(c).String()
	vf.Assert(got == zzCapsText(c), "capabilities are not printed as they are")
	if high != 0 {
		vf.Cover("unknown")
	} else {
		vf.Cover("known")
	}
}

// Signature algorithms by their names, others by their numbers.
func VF_P35_algo() {
	names := map[uint32]string{
		0x0101: "SigRsaPssWithSha256", 0x0102: "SigRsaPssWithSha512", 0x0103: "SigRsaPkcs1V15WithSha256", 0x0104: "SigRsaPkcs1V15WithSha512",
		0x0201: "SigEcdsaWithSha256", 0x0202: "SigEcdsaWithSha512", 0x0301: "SigDsaWithSha256",
		0x0421: "SigVerityRsaPkcs1V15WithSha256", 0x0423: "SigVerityEcdsaWithSha256", 0x0425: "SigVerityDsaWithSha256",
	}
	v := zzNumber([]uint32{0x0101, 0x0102, 0x0103, 0x0104, 0x0201, 0x0202, 0x0301, 0x0421, 0x0423, 0x0425})
	want := names[v]
	if want == "" {
		want = "0x" + zzHexOf(v, 4)
	}
	vf.Assert(SignatureAlgorithm(v).String() == want, "a signature algorithm is not printed as it is")
	vf.Cover("done")
}

// zzNumber is one of the given numbers or one that differs from it in one bit.
func zzNumber(of []uint32) uint32 {
	v := of[vf.Choice("number", len(of))]
	if b := vf.Choice("bit", 33); b < 32 {
		v ^= 1 << uint(b)
	}
	return v
}

// Identifiers of signing block pairs by their names, others by their numbers.
func VF_P35_block() {
	names := map[uint32]string{
		0x504b4453: "DependencyMetadata", 0x71777777: "MeituanMetadata", 0x2b09189e: "SourceStampV1 (deprecated)", 0x6dff800d: "SourceStampV2",
		0x42726577: "VerityPadding", 0x7109871a: "SchemeV2Signature", 0xf05368c0: "SchemeV3Signature", 0x1b93ad61: "SchemeV3.1Signature", 0x2146444e: "PlayFrosting",
	}
	v := zzNumber([]uint32{0x504b4453, 0x71777777, 0x2b09189e, 0x6dff800d, 0x42726577, 0x7109871a, 0xf05368c0, 0x1b93ad61, 0x2146444e, 0})
	want := names[v]
	if want == "" {
		want = "Unknown (0x" + zzHexOf(v, 8) + ")"
	}
	vf.Assert(BlockId(v).String() == want, "a block identifier is not printed as it is")
	vf.Cover("done")
}

func zzTextCert(k *vf.Key) *x509.Certificate {
	c, err := x509andr.ParseCertificateForGo(k.Cert())
	if err != nil {
		panic("harness: certificate")
	}
	return c
}

// zzTextNode is a lineage entry of any algorithms, flags and signature of up to two bytes.
func zzTextNode(name string) *V3LineageSigningCertificateNode {
	return &V3LineageSigningCertificateNode{
		SigningCert:        zzTextCert([]*vf.Key{vf.KeyR0, vf.KeyE0}[vf.Choice(name+" key", 2)]),
		ParentSigAlgorithm: SignatureAlgorithm(vf.U32(name + " parent")),
		SigAlgorithm:       SignatureAlgorithm(vf.U32(name + " algorithm")),
		Signature:          vf.Bytes(name+" signature", vf.Choice(name+" length", 3)),
		Flags:              LineageCertCaps(vf.I32(name + " flags")),
	}
}

func zzTextSame(a, b *V3LineageSigningCertificateNode) bool {
	if len(a.Signature) != len(b.Signature) || !bytes.Equal(a.SigningCert.Raw, b.SigningCert.Raw) {
		return false
	}
	same := vf.And(a.ParentSigAlgorithm == b.ParentSigAlgorithm, vf.And(a.SigAlgorithm == b.SigAlgorithm, a.Flags == b.Flags))
	for i := range a.Signature {
		same = vf.And(same, a.Signature[i] == b.Signature[i])
	}
	return same
}

// Two lineage entries, by themselves.
func VF_P35_nodes() {
	a, b := zzTextNode("a"), zzTextNode("b")
	same := zzTextSame(a, b)
	vf.Assert(a.Equal(b) == same, "lineage entries are equal that differ, or the other way around")
	vf.Assert(a.Equal(a), "a lineage entry differs from itself")
	if same {
		vf.Cover("same")
	} else {
		vf.Cover("different")
	}
}

// Two lineages of up to three (four in thorough) entries of three kinds.
func VF_P35_lists() {
	mk := func(k int) *V3LineageSigningCertificateNode {
		n := &V3LineageSigningCertificateNode{SigningCert: zzTextCert(vf.KeyE0), SigAlgorithm: SigEcdsaWithSha256, Signature: []byte{1, 2}, Flags: 23}
		switch k {
		case 1:
			n.Flags = 7
		case 2:
			n.Signature = []byte{1, 2, 3}
		}
		return n
	}
	list := func(name string) (l V3LineageSigningCertificateNodeList, kinds []int) {
		n := vf.Choice(name+" entries", 4+vf.Tier())
		for i := 0; i < n; i++ {
			k := vf.Choice(name, 3)
			l, kinds = append(l, mk(k)), append(kinds, k)
		}
		return
	}
	a, ka := list("a")
	b, kb := list("b")
	same := len(ka) == len(kb)
	for i := 0; same && i < len(ka); i++ {
		same = ka[i] == kb[i]
	}
	vf.Assert(a.Equal(b) == same, "lineages are equal that differ, or the other way around")
	if same {
		vf.Cover("same")
	} else {
		vf.Cover("different")
	}
}

// zzFailing is a writer that fails at one call.
type zzFailing struct {
	bytes.Buffer
	left int
}

var zzErrWrite = errors.New("zz write")

func (w *zzFailing) Write(p []byte) (int, error) {
	if w.left == 0 {
		return 0, zzErrWrite
	}
	w.left--
	return w.Buffer.Write(p)
}

// A lineage entry of a file, printed.
func VF_P35_dump() {
	k := []*vf.Key{vf.KeyR0, vf.KeyE0, vf.KeyD0}[vf.Choice("key", 3)]
	caps := []uint32{0, 1, 23, 31, 32, 0x40000000, 0x80000000, 0xffffffff, 6}[vf.Choice("caps", 9)]
	algos := []uint32{0, 0x0101, 0x0202, 0x0301, 0x0425, 0x12345}
	parent, algo := algos[vf.Choice("parent", 6)], algos[vf.Choice("algo", 6)]
	sig := vf.Bytes("signature", 0)
	if vf.Bool("signed") {
		sig = []byte{1, 2, 3}
	}
	n := &V3LineageSigningCertificateNode{SigningCert: zzTextCert(k), ParentSigAlgorithm: SignatureAlgorithm(parent), SigAlgorithm: SignatureAlgorithm(algo), Signature: sig, Flags: LineageCertCaps(caps)}
	w := &zzFailing{left: -1}
	vf.Assert(n.Dump(w) == nil, "an entry cannot be printed")
	got := w.String()
	sum, ssum := sha1.Sum(k.Cert()), sha1.Sum(sig)
	has := func(line string) {
		vf.Assert(strings.Contains("\n"+got, "\n"+line+"\n"), "a part of a lineage entry is not printed as it is")
	}
	has("Cert " + hex.EncodeToString(sum[:]) + ":")
	has("ParentSigAlgorithm: " + SignatureAlgorithm(parent).String())
	has("SigAlgorithm: " + SignatureAlgorithm(algo).String())
	has("Signature: " + hex.EncodeToString(ssum[:]))
	has("Flags: 0x" + zzHexOf(caps, 4) + " (" + zzCapsText(caps) + ")")
	has("  Issuer: " + PkixNameToString(&n.SigningCert.Issuer) + "\n  Subject: " + PkixNameToString(&n.SigningCert.Subject))
	has("  ValidFrom: " + n.SigningCert.NotBefore.String() + "\n  ValidTo: " + n.SigningCert.NotAfter.String())
	vf.Cover("done")
}

// A writer that fails at any of its calls.
func VF_P35_unwritten() {
	n := &V3LineageSigningCertificateNode{SigningCert: zzTextCert(vf.KeyE0), SigAlgorithm: SigEcdsaWithSha256, Flags: 23}
	at := vf.Choice("at", 10)
	w := &zzFailing{left: at}
	err := n.Dump(w)
	if w.left == 0 && err != nil {
		vf.Assert(err == zzErrWrite, "an entry that cannot be written is printed")
		vf.Cover("failed")
	} else {
		vf.Assert(err == nil && strings.HasSuffix(w.String(), "Flags: 0x0017 (InstalledData|SharedUserId|Permission|Auth)\n"), "an entry that is not written completely counts as printed")
		vf.Cover("written")
	}
}
