package vf

import (
	"crypto"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"hash"
)

// Digest is the hash of data. Under the engine it is an ideal hash: equal inputs give
// equal digests and different inputs give different digests; concrete inputs give the real value.
func Digest(kind int, data []byte) []byte {
	switch crypto.Hash(kind) {
	case crypto.MD5:
		s := md5.Sum(data)
		return s[:]
	case crypto.SHA1:
		s := sha1.Sum(data)
		return s[:]
	case crypto.SHA224:
		s := sha256.Sum224(data)
		return s[:]
	case crypto.SHA256:
		s := sha256.Sum256(data)
		return s[:]
	case crypto.SHA384:
		s := sha512.Sum384(data)
		return s[:]
	case crypto.SHA512:
		s := sha512.Sum512(data)
		return s[:]
	}
	panic("vf.Digest: unknown hash")
}

// HashState stands in for the standard hash implementations under the engine.
type HashState struct {
	kind, size, block int
	buf               []byte
}

func (h *HashState) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *HashState) WriteString(p string) (int, error) {
	h.buf = append(h.buf, p...)
	return len(p), nil
}
func (h *HashState) Sum(b []byte) []byte { return append(b, Digest(h.kind, h.buf)...) }
func (h *HashState) Reset()              { h.buf = nil }
func (h *HashState) Size() int           { return h.size }
func (h *HashState) BlockSize() int      { return h.block }

func redirNewMD5() hash.Hash    { return &HashState{kind: int(crypto.MD5), size: 16, block: 64} }
func redirNewSHA1() hash.Hash   { return &HashState{kind: int(crypto.SHA1), size: 20, block: 64} }
func redirNewSHA224() hash.Hash { return &HashState{kind: int(crypto.SHA224), size: 28, block: 64} }
func redirNewSHA256() hash.Hash { return &HashState{kind: int(crypto.SHA256), size: 32, block: 64} }
func redirNewSHA384() hash.Hash { return &HashState{kind: int(crypto.SHA384), size: 48, block: 128} }
func redirNewSHA512() hash.Hash { return &HashState{kind: int(crypto.SHA512), size: 64, block: 128} }

func redirSumMD5(d []byte) (r [16]byte)    { copy(r[:], Digest(int(crypto.MD5), d)); return }
func redirSumSHA1(d []byte) (r [20]byte)   { copy(r[:], Digest(int(crypto.SHA1), d)); return }
func redirSumSHA224(d []byte) (r [28]byte) { copy(r[:], Digest(int(crypto.SHA224), d)); return }
func redirSumSHA256(d []byte) (r [32]byte) { copy(r[:], Digest(int(crypto.SHA256), d)); return }
func redirSumSHA384(d []byte) (r [48]byte) { copy(r[:], Digest(int(crypto.SHA384), d)); return }
func redirSumSHA512(d []byte) (r [64]byte) { copy(r[:], Digest(int(crypto.SHA512), d)); return }

func redirHashNew(h crypto.Hash) hash.Hash {
	switch h {
	case crypto.MD5:
		return redirNewMD5()
	case crypto.SHA1:
		return redirNewSHA1()
	case crypto.SHA224:
		return redirNewSHA224()
	case crypto.SHA256:
		return redirNewSHA256()
	case crypto.SHA384:
		return redirNewSHA384()
	case crypto.SHA512:
		return redirNewSHA512()
	}
	panic("crypto: requested hash function is unavailable")
}

func redirHashAvailable(h crypto.Hash) bool {
	switch h {
	case crypto.MD5, crypto.SHA1, crypto.SHA224, crypto.SHA256, crypto.SHA384, crypto.SHA512:
		return true
	}
	return false
}
