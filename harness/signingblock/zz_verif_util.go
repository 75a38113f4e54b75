package signingblock

import (
	"bytes"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier/internal/vf"
)

// zzVerify runs the public entry point on a file image. The archive reader is
// only consulted for source stamps and is empty here.
func zzVerify(f []byte, min, max int32) (*VerificationResult, error) {
	res, _, err := VerifySigningBlockReaderWithZip(bytes.NewReader(f), min, max, &apkparser.ZipReader{})
	return res, err
}

// zzOK is the digest of the protected sections of a.
func zzDigest(a *vf.Apk, hash int) []byte { return vf.ChunkedDigest(hash, a.Sections()...) }

// zzBad returns a value of the same length that differs from d.
func zzBad(name string, d []byte) []byte {
	r := append([]byte(nil), d...)
	x := vf.U8(name)
	vf.Assume(x != 0)
	r[0] ^= x
	return r
}

var zzKeys = []*vf.Key{vf.KeyR0, vf.KeyE0, vf.KeyD1}

// zzNear is any value of the length of d, written as a difference to it so that counterexamples
// about equal and unequal values also hold natively, where digests and signatures are real.
func zzNear(name string, d []byte) []byte {
	x := vf.Bytes(name, len(d))
	r := make([]byte, len(d))
	for i := range d {
		r[i] = d[i] ^ x[i]
	}
	return r
}
