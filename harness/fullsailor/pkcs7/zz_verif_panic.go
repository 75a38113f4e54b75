package pkcs7

import (
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P29

func zzUse(d []byte) {
	p, err := Parse(d)
	vf.ObsErr("err", err)
	if err != nil {
		return
	}
	vf.Cover("parsed")
	vf.ObsErr("verify", p.Verify())
	p.Content = []byte("other")
	vf.ObsErr("verify other", p.Verify())
	_ = p.GetOnlySigner()
	var b []byte
	vf.ObsErr("attribute", p.UnmarshalSignedAttribute(oidAttributeMessageDigest, &b))
	_, err = p.Decrypt(zzCert(vf.KeyR0), zzPrivate(vf.KeyR0))
	vf.ObsErr("decrypt", err)
}

// Any few bytes, as a message and as certificates.
func VF_P29_any() {
	d := vf.Bytes("input", vf.Choice("length", 5+vf.Tier()))
	if vf.Choice("certificates", 2) == 1 {
		d, err := DegenerateCertificate(d)
		vf.ObsErr("err", err)
		if err != nil {
			return
		}
		zzUse(d)
		return
	}
	zzUse(d)
}

// One object of a signed message malformed.
func VF_P29_signed() {
	content := []byte("content")
	s := &zzPart{key: vf.KeyE0, digest: vf.OIDSHA256, attrs: vf.Choice("attributes", 2)}
	info, _ := s.encode(content)
	issuer, _, _ := vf.CertParts(s.key.Cert())
	if vf.Tier() == 0 {
		switch vf.Choice("where", 3) {
		case 0: // without certificates
			zzUse(vf.Reshape(vf.P7Full(zzContent(content), nil, info), info))
			return
		case 1: // in the signer
			zzUse(vf.P7Full(zzContent(content), [][]byte{s.key.Cert()}, vf.Reshape(info, issuer)))
			return
		}
		vf.Assume(s.attrs == 0)
		zzUse(vf.P7Full(zzContent(content), [][]byte{vf.Reshape(s.key.Cert())}, info))
		return
	}
	zzUse(vf.Reshape(vf.P7Full(zzContent(content), [][]byte{s.key.Cert()}, info)))
}

// One object of an encrypted message malformed.
func VF_P29_enveloped() {
	alg := []int{0, 2, 4}[vf.Choice("alg", 3)]
	params := vf.DER(4, make([]byte, zzBlock(alg).BlockSize()))
	if alg == 4 {
		params = vf.DER(0x30, vf.DER(0x30, vf.DER(0x84, []byte("nonce of 12!")), []byte{2, 1, 16}))
	}
	ct := make([]byte, 32)
	body := vf.DER(0x80, ct)
	if vf.Choice("parts", 2) == 1 {
		body = vf.DER(0xa0, vf.DER(4, ct[:16]), vf.DER(4, ct[16:]))
	}
	issuer, _, _ := vf.CertParts(vf.KeyR0.Cert())
	zzUse(vf.Reshape(zzEnvelope(alg, params, body, vf.KeyR0), issuer))
}
