package vf

import (
	"crypto"
	"crypto/rsa"
	"crypto/x509"
	"errors"
	"io"
	"math/big"
)

// RSAKey is the private key of k whose public key is pub. Under the engine it has no secret parts: signing and
// decrypting are ideal there.
func RSAKey(k *Key, pub *rsa.PublicKey) *rsa.PrivateKey {
	if Symbolic() {
		return &rsa.PrivateKey{PublicKey: *pub}
	}
	p, err := x509.ParsePKCS8PrivateKey([]byte(k.PrivStr))
	must(err)
	return p.(*rsa.PrivateKey)
}

func redirRandRead(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(0x5a + 7*i)
	}
	return len(b), nil
}

func idealHead(n *big.Int) []byte { return n.Bytes()[:32] }

// An ideal ciphertext names the key and holds the message.
func redirEncryptPKCS1v15(_ io.Reader, pub *rsa.PublicKey, msg []byte) ([]byte, error) {
	ct := append(append(idealHead(pub.N), byte(len(msg))), msg...)
	return append(ct, make([]byte, 256-len(ct))...), nil
}

func redirDecryptPKCS1v15(_ io.Reader, priv *rsa.PrivateKey, ct []byte) ([]byte, error) {
	if len(ct) != 256 || string(ct[:32]) != string(idealHead(priv.N)) || ct[32] > 200 {
		return nil, errors.New("crypto/rsa: decryption error")
	}
	return append([]byte(nil), ct[33:33+int(ct[32])]...), nil
}

func redirSignPKCS1v15(_ io.Reader, priv *rsa.PrivateKey, hash crypto.Hash, d []byte) ([]byte, error) {
	for _, k := range []*Key{KeyR0, KeyR1, KeyR2, KeyR3} {
		if index2([]byte(k.SPKIStr), priv.N.Bytes()) {
			return signDigest(k, k.SPKI(), "pkcs1", int(hash), d), nil
		}
	}
	return nil, errors.New("vf: unknown RSA key")
}

func index2(b, s []byte) bool {
	for i := 0; i+len(s) <= len(b); i++ {
		if string(b[i:i+len(s)]) == string(s) {
			return true
		}
	}
	return false
}

func redirXORBytes(dst, x, y []byte) int {
	n := min(len(x), len(y))
	_ = dst[:n]
	for i := 0; i < n; i++ {
		dst[i] = x[i] ^ y[i]
	}
	return n
}

func redirBool(b bool) uint8 { return uint8(Ite(b, 1, 0)) }
