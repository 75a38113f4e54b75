package pkcs7

import (
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/des"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"

	"github.com/avast/apkverifier/internal/vf"
	"github.com/avast/apkverifier/internal/x509andr"
)

// ---- P30

func zzCert(k *vf.Key) *x509.Certificate {
	cs, err := x509andr.ParseCertificatesForGo(k.Cert())
	vf.Assume(err == nil && len(cs) == 1)
	return cs[0]
}

func zzPrivate(k *vf.Key) *rsa.PrivateKey {
	return vf.RSAKey(k, zzCert(k).PublicKey.(*rsa.PublicKey))
}

var zzAlgs = []asn1.ObjectIdentifier{oidEncryptionAlgorithmDESCBC, oidEncryptionAlgorithmDESEDE3CBC, oidEncryptionAlgorithmAES128CBC, oidEncryptionAlgorithmAES256CBC, oidEncryptionAlgorithmAES128GCM}

func zzKeyOf(alg int) []byte {
	k := make([]byte, []int{8, 24, 16, 32, 16}[alg])
	for i := range k {
		k[i] = byte(i*37 + 11)
	}
	return k
}

func zzBlock(alg int) cipher.Block {
	var b cipher.Block
	switch alg {
	case 0:
		b, _ = des.NewCipher(zzKeyOf(0))
	case 1:
		b, _ = des.NewTripleDESCipher(zzKeyOf(1))
	default:
		b, _ = aes.NewCipher(zzKeyOf(alg))
	}
	return b
}

// zzEnvelope is a message encrypted for the keys.
func zzEnvelope(alg int, params []byte, content []byte, to ...*vf.Key) []byte {
	var infos [][]byte
	for _, k := range to {
		issuer, serial, _ := vf.CertParts(k.Cert())
		pub := zzCert(k).PublicKey.(*rsa.PublicKey)
		ek, err := rsa.EncryptPKCS1v15(zzRand{}, pub, zzKeyOf(alg))
		vf.Assume(err == nil)
		infos = append(infos, vf.DER(0x30, []byte{2, 1, 0}, vf.DER(0x30, issuer, serial), vf.AlgID(vf.OIDRSA), vf.DER(4, ek)))
	}
	oid, _ := asn1.Marshal(zzAlgs[alg])
	eci := vf.DER(0x30, vf.OID(vf.OIDData), vf.DER(0x30, oid, params), content)
	env := vf.DER(0x30, []byte{2, 1, 0}, vf.DER(0x31, infos...), eci)
	oid, _ = asn1.Marshal(oidEnvelopedData)
	return vf.DER(0x30, oid, vf.DER(0xa0, env))
}

type zzRand struct{}

func (zzRand) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(i + 1)
	}
	return len(b), nil
}

func zzDecrypt(msg []byte, k *vf.Key) ([]byte, error) {
	p, err := Parse(msg)
	if err != nil {
		return nil, err
	}
	return p.Decrypt(zzCert(k), zzPrivate(k))
}

// One block of arbitrary plaintext, padding included, under any CBC cipher: an arbitrary initialisation vector
// makes every plaintext.
func VF_P30_padding() {
	alg := vf.Choice("alg", 4)
	b := zzBlock(alg)
	n := b.BlockSize()
	ct := make([]byte, n)
	for i := range ct {
		ct[i] = byte(i * 3)
	}
	iv := make([]byte, n)
	b.Decrypt(iv, ct)
	plain := vf.Bytes("plain", n)
	for i := range iv {
		iv[i] ^= plain[i]
	}
	body := vf.DER(0x80, ct)
	if vf.Choice("parts", 2) == 1 {
		body = vf.DER(0xa0, vf.DER(4, ct[:3]), vf.DER(4, ct[3:]))
	}
	got, err := zzDecrypt(zzEnvelope(alg, vf.DER(4, iv), body, vf.KeyR0), vf.KeyR0)
	vf.ObsErr("err", err)
	pad := plain[n-1]
	ok := vf.And(pad >= 1, pad <= byte(n))
	for i := 0; i < n; i++ {
		ok = vf.And(ok, vf.Or(pad < byte(n-i), plain[i] == pad))
	}
	vf.Assert(ok == (err == nil), "padding is accepted or rejected wrongly")
	if err == nil && ok {
		want := plain[:n-vf.Concrete(int(pad))]
		vf.Assert(vf.Equal(got, want), "another content is decrypted")
		vf.Cover("decrypted")
	}
}

// Encrypted content, vectors and keys of other lengths, parts which are no octet strings.
func VF_P30_lengths() {
	alg := vf.Choice("alg", 5)
	size := zzBlock(alg).BlockSize()
	sizes := []int{0, 1, size - 1, size, size + 1, 2 * size}
	n := 0
	if vf.Tier() > 0 {
		n = vf.Choice("size", 2*size+1)
	} else {
		n = sizes[vf.Choice("plain", len(sizes))]
	}
	plain := make([]byte, n)
	for i := range plain {
		plain[i] = byte(200 + i)
	}
	var params, ct []byte
	if alg == 4 {
		g, _ := cipher.NewGCM(zzBlock(alg))
		nonce := []byte("nonce of 12!")
		ct = g.Seal(nil, nonce, plain, nil)
		params = vf.DER(0x30, vf.DER(0x30, vf.DER(0x84, nonce), []byte{2, 1, 16}))
	} else {
		iv := make([]byte, size)
		pad := size - len(plain)%size
		padded := append([]byte{}, plain...)
		for i := 0; i < pad; i++ {
			padded = append(padded, byte(pad))
		}
		ct = make([]byte, len(padded))
		cipher.NewCBCEncrypter(zzBlock(alg), iv).CryptBlocks(ct, padded)
		params = vf.DER(4, iv)
	}
	right := true
	k := vf.KeyR0
	to := []*vf.Key{vf.KeyR0}
	wrong := vf.Choice("wrong", 8)
	switch wrong {
	case 0:
		// encoded as the package does
	case 1:
		cut := 1 + vf.Choice("cut", len(ct))
		ct = ct[:len(ct)-cut]
		// fewer whole blocks may have right padding by chance
		right = false
		if alg != 4 && cut%size == 0 && len(ct) > 0 {
			last := append([]byte{}, ct...)
			iv := make([]byte, size)
			cipher.NewCBCDecrypter(zzBlock(alg), iv).CryptBlocks(last, last)
			p := int(last[len(last)-1])
			good := p >= 1 && p <= size
			for i := 0; good && i < p; i++ {
				good = int(last[len(last)-1-i]) == p
			}
			if good {
				right, plain = true, last[:len(last)-p]
			}
		}
	case 2:
		ct = append(ct, make([]byte, 1+vf.Choice("more", size-1))...)
		right = false
	case 3:
		params = vf.DER(4, make([]byte, vf.Choice("vector", 20)))
		right = alg < 4 && len(params) == 2+size
	case 4:
		k = vf.KeyR1
		right = false
	case 5:
		to = []*vf.Key{vf.KeyR1, vf.KeyR0}
	case 6:
		to = []*vf.Key{vf.KeyR0, vf.KeyR1}
		k = vf.KeyR1
	case 7:
		if alg != 4 {
			break
		}
		i, bit := 0, 0
		if vf.Tier() > 0 {
			i, bit = vf.Choice("any", len(ct)), vf.Choice("bit", 8)
		} else {
			i = []int{0, len(plain) / 2, len(plain), len(ct) - 1}[vf.Choice("at", 4)]
		}
		ct[i] ^= 1 << uint(bit)
		right = false
	}
	body := vf.DER(0x80, ct)
	parts := 4
	if wrong > 2 && vf.Tier() == 0 {
		parts = 1
	}
	switch vf.Choice("parts", parts) {
	case 1:
		body = vf.DER(0xa0, vf.DER(4, ct))
	case 2:
		n := len(ct) / 2
		body = vf.DER(0xa0, vf.DER(4, ct[:n]), vf.DER(4), vf.DER(4, ct[n:]))
	case 3:
		n := len(ct) / 2
		bad := []byte{5, 0}
		if vf.Choice("bad part", 2) == 1 {
			bad = []byte{4, 5, 1}
		}
		body = vf.DER(0xa0, vf.DER(4, ct), bad)
		if vf.Choice("before", 2) == 1 {
			body = vf.DER(0xa0, bad[:2], vf.DER(4, ct[n:]))
			if bad[0] == 4 {
				body = vf.DER(0xa0, []byte{5, 0}, vf.DER(4, ct))
			}
		}
		right = false
	}
	got, err := zzDecrypt(zzEnvelope(alg, params, body, to...), k)
	vf.ObsErr("err", err)
	vf.Assert(right == (err == nil), "an encrypted message is accepted or rejected wrongly")
	if err == nil && right {
		vf.Assert(vf.Equal(got, plain), "another content is decrypted")
		vf.Cover("decrypted")
	}
}

// Encrypting and decrypting again gives any content; other kinds of keys are errors.
func VF_P30_encrypt() {
	ContentEncryptionAlgorithm = vf.Choice("alg", 3)
	defer func() { ContentEncryptionAlgorithm = EncryptionAlgorithmDESCBC }()
	content := make([]byte, []int{0, 1, 7, 8, 9, 15, 16, 17, 33}[vf.Choice("length", 9)])
	for i := range content {
		content[i] = byte(i + 1)
	}
	keys := []*vf.Key{vf.KeyR0, vf.KeyR1, vf.KeyE0, vf.KeyD1}
	to := keys[vf.Choice("to", 4)]
	rcpt := []*x509.Certificate{zzCert(vf.KeyR1), zzCert(to)}
	d, err := Encrypt(content, rcpt)
	vf.Assert((err == nil) == (to.Type == "rsa" && ContentEncryptionAlgorithm < 2), "encryption fails or succeeds wrongly")
	if err != nil {
		return
	}
	p, err := Parse(d)
	vf.Assert(err == nil, "an encrypted message cannot be parsed")
	who := keys[vf.Choice("who", 4)]
	var priv crypto.PrivateKey = crypto.PrivateKey(nil)
	if who.Type == "rsa" {
		priv = zzPrivate(who)
	} else {
		switch vf.Choice("key", 3) {
		case 1:
			priv = "no key"
		case 2:
			priv = (*rsa.PrivateKey)(nil)
		}
	}
	cert := zzCert(who)
	got, err := p.Decrypt(cert, priv)
	vf.ObsErr("err", err)
	right := who == to || who == vf.KeyR1
	vf.Assert(right == (err == nil), "decryption fails or succeeds wrongly")
	if err == nil {
		vf.Assert(vf.Equal(got, content), "another content is decrypted")
		vf.Cover("decrypted")
		_, err = p.Decrypt(cert, "no key")
		vf.Assert(err != nil, "decryption without a key succeeds")
	}
}

func VF_P30_pad() {
	n := 1 + vf.Choice("block", 20)
	data := vf.Bytes("data", vf.Choice("length", 3*16))
	p, err := pad(append([]byte{}, data...), n)
	vf.Assert(err == nil && len(p)%n == 0 && len(p) > len(data), "content is padded wrongly")
	back, err := unpad(p, n)
	vf.Assert(err == nil && vf.Equal(back, data), "padding cannot be removed again")
	vf.Cover("padded")
}

// zzMessage is the shape of a signed message and whether it is intact.
type zzPart struct {
	key    *vf.Key
	digest string
	enc    string
	attrs  int // 0: none, 1: right, 2: other digest, 3: no digest, 4: digest is no octet string, 5: order not canonical
	sig    int // 0: right, 1: near, 2: other data, 3: of another key
	cert   int // 0: there, 1: missing, 2: another serial
}

func zzNear(name string, d []byte) []byte {
	r := append([]byte{}, d...)
	x := vf.U8(name)
	vf.Assume(x != 0)
	r[len(r)-1] ^= x
	return r
}

func zzOIDHash(o string) int {
	if o == vf.OIDSHA1 {
		return vf.SHA1
	}
	return vf.SHA256
}

func (s *zzPart) encode(content []byte) (info []byte, ok bool) {
	ok = true
	p := &vf.P7Signer{Key: s.key, Digest: s.digest, Enc: s.enc}
	md := vf.Digest(zzOIDHash(s.digest), content)
	switch s.attrs {
	case 1:
		p.Attrs = [][]byte{vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDData)), vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, md))}
	case 2:
		p.Attrs = [][]byte{vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDData)), vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, zzNear("digest", md)))}
		ok = false
	case 3:
		p.Attrs = [][]byte{vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDData))}
		ok = false
	case 4:
		p.Attrs = [][]byte{vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDData)), vf.P7Attr(vf.OIDMsgDigest, vf.DER(12, md))}
		ok = false
	case 5:
		p.Attrs = [][]byte{vf.P7Attr(vf.OIDCType, vf.OID(vf.OIDData)), vf.P7Attr(vf.OIDMsgDigest, vf.DER(4, md[:len(md)-1]))}
		ok = false
	}
	switch s.sig {
	case 0:
		p.Sig = p.Sign(content)
	case 1:
		p.Sig = zzNear("signature", p.Sign(content))
		ok = false
	case 2:
		p.Sig = vf.Sign(s.key, "pkcs1", zzOIDHash(s.digest), append([]byte{1}, content...))
		ok = false
	case 3:
		other := vf.KeyR1
		if s.key == other {
			other = vf.KeyR0
		}
		q := *p
		q.Key = other
		p.Sig = q.Sign(content)
		ok = false
	case 4:
		p.Sig = vf.Bytes("any signature", 3)
		ok = false
	}
	if s.cert == 2 {
		p.Serial = []byte{2, 1, 99}
		ok = false
	}
	return p.Encode(content), ok
}

func zzContent(c []byte) []byte {
	return vf.DER(0x30, vf.OID(vf.OIDData), vf.DER(0xa0, vf.DER(4, c)))
}

// One or two signers over a content, of which one has a fault (two in thorough).
func VF_P30_verify() {
	content := []byte("content of the message")
	n := 1 + vf.Choice("signers", 2)
	odd := vf.Choice("odd", n)
	fault := vf.Choice("fault", 12)
	odd2, fault2 := -1, 0
	if vf.Tier() > 0 {
		odd2, fault2 = vf.Choice("odd too", n), vf.Choice("fault too", 12)
	}
	attrs := vf.Choice("attributes", 2)
	ds := []string{vf.OIDSHA1, vf.OIDSHA256}
	d := vf.Choice("digest", 2)
	all := true
	var infos [][]byte
	var certs [][]byte
	shown := content
	for i := 0; i < n; i++ {
		s := &zzPart{key: []*vf.Key{vf.KeyR0, vf.KeyR1}[i], digest: ds[d], attrs: attrs}
		kinds := []int{}
		if i == odd {
			kinds = append(kinds, fault)
		}
		if i == odd2 {
			kinds = append(kinds, fault2)
		}
		for _, f := range kinds {
			switch f {
			case 1, 2, 3, 4:
				s.sig = f
			case 5:
				s.cert = 1
			case 6:
				s.cert = 2
			case 7, 8, 9, 10:
				s.attrs = f - 5
			case 11:
				shown = []byte("Content of the message")
				all = false
			}
		}
		info, ok := s.encode(content)
		if s.cert == 1 {
			ok = false
		} else {
			certs = append(certs, s.key.Cert())
		}
		all = all && ok
		infos = append(infos, info)
	}
	p, err := Parse(vf.P7Full(zzContent(shown), certs, infos...))
	vf.Assert(err == nil, "a message cannot be parsed")
	if err != nil {
		return
	}
	vf.Assert(vf.Equal(p.Content, shown) && len(p.Signers) == n, "the parsed message differs")
	err = p.Verify()
	vf.ObsErr("err", err)
	vf.Assert(all == (err == nil), "a message is accepted or rejected wrongly")
	vf.Cover("verified")
	if err == nil && attrs == 1 {
		vf.Cover("attributes")
		var md []byte
		uerr := p.UnmarshalSignedAttribute(oidAttributeMessageDigest, &md)
		vf.Assert(uerr == nil && vf.Equal(md, vf.Digest(zzOIDHash(ds[d]), content)), "a signed attribute differs")
	}
	if n == 1 && err == nil {
		c := p.GetOnlySigner()
		vf.Assert(c != nil && vf.Equal(c.Raw, vf.KeyR0.Cert()), "the only signer differs")
	}
	if n == 2 {
		vf.Assert(p.GetOnlySigner() == nil, "one of two signers is the only one")
	}
}

// Messages made by the package itself.
func VF_P30_sign() {
	content := vf.Bytes("content", vf.Choice("length", 3))
	sd, err := NewSignedData(content)
	vf.Assert(err == nil, "a message cannot be made")
	k := []*vf.Key{vf.KeyR0, vf.KeyE0}[vf.Choice("key", 2)]
	var priv crypto.PrivateKey = "no key"
	if k.Type == "rsa" {
		priv = zzPrivate(k)
	}
	var cfg SignerInfoConfig
	extra := asn1.ObjectIdentifier{1, 2, 3, 4}
	if vf.Choice("extra", 2) == 1 {
		cfg.ExtraSignedAttributes = []Attribute{{Type: extra, Value: 77}}
	}
	err = sd.AddSigner(zzCert(k), priv, cfg)
	vf.Assert((err == nil) == (k.Type == "rsa"), "signing fails or succeeds wrongly")
	if err != nil {
		return
	}
	if vf.Choice("more", 2) == 1 {
		sd.AddCertificate(zzCert(vf.KeyE0))
	}
	detach := vf.Choice("detach", 2) == 1
	if detach {
		sd.Detach()
	}
	d, err := sd.Finish()
	vf.Assert(err == nil, "a message cannot be finished")
	p, err := Parse(d)
	vf.Assert(err == nil, "a message made by the package cannot be parsed")
	if err != nil {
		return
	}
	if detach {
		vf.Assert(len(p.Content) == 0, "a detached message has content")
		p.Content = content
	}
	vf.Assert(vf.Equal(p.Content, content), "a message made by the package has another content")
	if vf.Choice("altered", 2) == 1 {
		p.Content = append([]byte{9}, content...)
		vf.Assert(p.Verify() != nil, "a message of another content verifies")
		return
	}
	vf.Assert(p.Verify() == nil, "a message made by the package does not verify")
	if cfg.ExtraSignedAttributes != nil {
		var x int
		vf.Assert(p.UnmarshalSignedAttribute(extra, &x) == nil && x == 77, "an added attribute differs")
	}
	vf.Cover("signed")
}

// Certificates alone.
func VF_P30_degenerate() {
	keys := []*vf.Key{vf.KeyR0, vf.KeyE0, vf.KeyD1}
	var all []byte
	var want []*vf.Key
	for i, n := 0, 1+vf.Choice("n", 2); i < n; i++ {
		k := keys[vf.Choice("key", 3)]
		want = append(want, k)
		all = append(all, k.Cert()...)
	}
	d, err := DegenerateCertificate(all)
	vf.Assert(err == nil, "certificates cannot be wrapped")
	p, err := Parse(d)
	vf.Assert(err == nil && len(p.Certificates) == len(want), "wrapped certificates cannot be parsed")
	for i, c := range p.Certificates {
		vf.Assert(vf.Equal(c.Raw, want[i].Cert()), "a wrapped certificate differs")
	}
	vf.Assert(p.Verify() != nil, "certificates alone verify")
	vf.Cover("wrapped")
	_ = pkix.Name{}
}

// ---- P33

// A message that is right, read and verified before, between and after one of which a part is altered.
func VF_P33_messages() {
	content := []byte("content of the message")
	k := vf.KeyR0
	attrs := vf.Choice("attributes", 2)
	d := []string{vf.OIDSHA1, vf.OIDSHA256}[vf.Choice("digest", 2)]
	info, _ := (&zzPart{key: k, digest: d, attrs: attrs}).encode(content)
	good := vf.P7Full(zzContent(content), [][]byte{k.Cert()}, info)
	shown, certs, part := content, [][]byte{k.Cert()}, &zzPart{key: k, digest: d, attrs: attrs}
	switch vf.Choice("part", 6) {
	case 0:
		shown = zzNear("content", content)
	case 1:
		part.sig = 1
	case 2:
		part.sig = 3
	case 3:
		part.attrs = 2
	case 4:
		certs = nil
	case 5:
		part.cert = 2
	}
	other, _ := part.encode(content)
	bad := vf.P7Full(zzContent(shown), certs, other)
	verify := func(in []byte, ok bool) *PKCS7 {
		b := append([]byte(nil), in...)
		p, err := Parse(b)
		vf.Assert(err == nil, "a message cannot be parsed")
		if err != nil {
			return nil
		}
		vf.Assert((p.Verify() == nil) == ok, "the verdict depends on earlier messages")
		vf.Assert(vf.Equal(b, in), "the input is changed")
		return p
	}
	if vf.Choice("wrong first", 2) == 1 {
		verify(bad, false)
	}
	p := verify(good, true)
	verify(bad, false)
	if p != nil {
		vf.Assert(p.Verify() == nil && vf.Equal(p.Content, content), "a message is changed by a later one")
		p.Content = []byte("other")
		vf.Assert(p.Verify() != nil, "another content is accepted after the right one")
		for i := range p.Signers {
			for j := range p.Signers[i].EncryptedDigest {
				p.Signers[i].EncryptedDigest[j] = 0
			}
		}
		for i := range p.Certificates[0].Raw {
			p.Certificates[0].Raw[i] = 0
		}
	}
	verify(good, true)
	vf.Cover("done")
}
