package vf

import (
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/asn1"
	"math/big"
)

// Key is a key pair with a self-signed certificate.
type Key struct {
	Name, Type                string
	CertStr, SPKIStr, PrivStr string
}

func (k *Key) Cert() []byte { return []byte(k.CertStr) }
func (k *Key) SPKI() []byte { return []byte(k.SPKIStr) }

// Hash identifiers.
const (
	MD5    = int(crypto.MD5)
	SHA1   = int(crypto.SHA1)
	SHA256 = int(crypto.SHA256)
	SHA384 = int(crypto.SHA384)
	SHA512 = int(crypto.SHA512)
)

// Sign signs data. scheme is "pkcs1" or "pss" for RSA keys and ignored for the others.
// Signatures have a fixed length: 256 bytes (RSA), 70 bytes (EC), 46 bytes (DSA 160), 70 (DSA 256).
func Sign(k *Key, scheme string, hash int, data []byte) []byte {
	return SignDigest(k, scheme, hash, Digest(hash, data))
}

func SignDigest(k *Key, scheme string, hash int, d []byte) []byte {
	switch k.Type {
	case "ec":
		scheme = "ecdsa"
	case "dsa":
		scheme = "dsa"
		n := 20
		if k.Name == "D1" {
			n = 32
		}
		if len(d) > n {
			d = d[:n]
		}
	}
	return signDigest(k, k.SPKI(), scheme, hash, d)
}

type rs struct{ R, S *big.Int }

func signDigest(k *Key, spki []byte, scheme string, hash int, d []byte) []byte {
	switch k.Type {
	case "rsa":
		pk, err := x509.ParsePKCS8PrivateKey([]byte(k.PrivStr))
		must(err)
		var sig []byte
		if scheme == "pss" {
			sig, err = rsa.SignPSS(rand.Reader, pk.(*rsa.PrivateKey), crypto.Hash(hash), d, &rsa.PSSOptions{SaltLength: crypto.Hash(hash).Size()})
		} else {
			sig, err = rsa.SignPKCS1v15(rand.Reader, pk.(*rsa.PrivateKey), crypto.Hash(hash), d)
		}
		must(err)
		return sig
	case "ec":
		pk, err := x509.ParsePKCS8PrivateKey([]byte(k.PrivStr))
		must(err)
		for {
			r, s, err := ecdsa.Sign(rand.Reader, pk.(*ecdsa.PrivateKey), d)
			must(err)
			if r.BitLen() <= 255 && r.BitLen() > 248 && s.BitLen() <= 255 && s.BitLen() > 248 {
				sig, err := asn1.Marshal(rs{r, s})
				must(err)
				return sig
			}
		}
	case "dsa":
		pub, err := x509.ParsePKIXPublicKey(spki)
		must(err)
		priv := &dsa.PrivateKey{PublicKey: *pub.(*dsa.PublicKey), X: new(big.Int).SetBytes([]byte(k.PrivStr))}
		n := priv.Q.BitLen()
		for {
			r, s, err := dsa.Sign(rand.Reader, priv, d)
			must(err)
			if r.BitLen() < n && r.BitLen() > n-8 && s.BitLen() < n && s.BitLen() > n-8 {
				sig, err := asn1.Marshal(rs{r, s})
				must(err)
				return sig
			}
		}
	}
	panic("vf: key type " + k.Type)
}

func must(err error) {
	if err != nil {
		panic("vf: " + err.Error())
	}
}
