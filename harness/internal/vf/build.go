package vf

// Builders of APK parts, used by the harnesses on symbolic and on concrete data alike.

func Cat(parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	r := make([]byte, 0, n)
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func LE16(v uint16) []byte { return []byte{byte(v), byte(v >> 8)} }
func LE32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
func LE64(v uint64) []byte { return Cat(LE32(uint32(v)), LE32(uint32(v>>32))) }

func Get16(b []byte) int { return int(b[0]) | int(b[1])<<8 }
func Get32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}
func Get64(b []byte) uint64 { return uint64(Get32(b)) | uint64(Get32(b[4:]))<<32 }

// LP is a length-prefixed field.
func LP(parts ...[]byte) []byte {
	b := Cat(parts...)
	return append(LE32(uint32(len(b))), b...)
}

func Equal(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	var d byte
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

const SigBlockMagic = "APK Sig Block 42"

// Pair is an ID-value pair of the APK Signing Block.
func Pair(id uint32, value []byte) []byte {
	return Cat(LE64(uint64(4+len(value))), LE32(id), value)
}

func SigningBlock(pairs ...[]byte) []byte {
	p := Cat(pairs...)
	n := uint64(len(p) + 24)
	return Cat(LE64(n), p, LE64(n), []byte(SigBlockMagic))
}

// EOCD with no entries counted unless given.
func EOCD(entries int, cdSize, cdOff uint32, comment []byte) []byte {
	return Cat(LE32(0x06054b50), LE16(0), LE16(0), LE16(uint16(entries)), LE16(uint16(entries)), LE32(cdSize), LE32(cdOff), LE16(uint16(len(comment))), comment)
}

const (
	IDv2    = 0x7109871a
	IDv3    = 0xf05368c0
	IDv31   = 0x1b93ad61
	IDStamp = 0x6dff800d
	IDFrost = 0x2146444e
	IDPad   = 0x42726577
)

// Apk is an archive split into the sections the signature schemes work on.
type Apk struct {
	Before  []byte // ZIP entries
	CD      []byte // central directory
	Entries int
	Comment []byte
}

// File assembles the archive with the signing block.
func (a *Apk) File(block []byte) []byte {
	off := uint32(len(a.Before) + len(block))
	return Cat(a.Before, block, a.CD, EOCD(a.Entries, uint32(len(a.CD)), off, a.Comment))
}

// Sections are the parts protected by v2 and later: the end record's directory offset is that of the signing block.
func (a *Apk) Sections() [][]byte {
	return [][]byte{a.Before, a.CD, EOCD(a.Entries, uint32(len(a.CD)), uint32(len(a.Before)), a.Comment)}
}

// ChunkedDigest is the v2 content digest, written from the format's specification.
func ChunkedDigest(hash int, sections ...[]byte) []byte {
	var sums []byte
	n := uint32(0)
	for _, s := range sections {
		for len(s) > 0 {
			c := s
			if len(c) > 1<<20 {
				c = c[:1<<20]
			}
			s = s[len(c):]
			sums = append(sums, Digest(hash, Cat([]byte{0xa5}, LE32(uint32(len(c))), c))...)
			n++
		}
	}
	return Digest(hash, Cat([]byte{0x5a}, LE32(n), sums))
}

// Signature algorithm identifiers.
const (
	AlgPss256  = 0x0101
	AlgPss512  = 0x0102
	AlgRsa256  = 0x0103
	AlgRsa512  = 0x0104
	AlgEc256   = 0x0201
	AlgEc512   = 0x0202
	AlgDsa256  = 0x0301
	AlgVRsa256 = 0x0421
	AlgVEc256  = 0x0423
	AlgVDsa256 = 0x0425
)

// AlgHash is the hash a signature algorithm applies to the signed data.
func AlgHash(alg uint32) int {
	switch alg {
	case AlgPss512, AlgRsa512, AlgEc512:
		return SHA512
	}
	return SHA256
}

func AlgSign(k *Key, alg uint32, data []byte) []byte {
	scheme := "pkcs1"
	if alg == AlgPss256 || alg == AlgPss512 {
		scheme = "pss"
	}
	return Sign(k, scheme, AlgHash(alg), data)
}

// AlgDefault is the plain SHA-256 algorithm of a key.
func AlgDefault(k *Key) uint32 {
	switch k.Type {
	case "ec":
		return AlgEc256
	case "dsa":
		return AlgDsa256
	}
	return AlgRsa256
}

// Signer describes one v2/v3 signer.
type Signer struct {
	Key        *Key
	Algs       []uint32 // algorithms listed (default: AlgDefault)
	Digests    [][]byte // content digest per algorithm
	Certs      [][]byte // default: the key's certificate
	Attrs      [][]byte // already encoded additional attributes
	V3         bool
	Min, Max   uint32 // v3
	SMin, SMax uint32 // v3: unsigned copies (default Min, Max) when SDiff is set
	SDiff      bool
}

func Attr(id uint32, value []byte) []byte { return LP(LE32(id), value) }

// SignedData encodes the signed part.
func (s *Signer) SignedData() []byte {
	algs := s.algs()
	var ds []byte
	for i, a := range algs {
		ds = append(ds, LP(LE32(a), LP(s.Digests[i]))...)
	}
	certs := s.Certs
	if certs == nil {
		certs = [][]byte{s.Key.Cert()}
	}
	var cs []byte
	for _, c := range certs {
		cs = append(cs, LP(c)...)
	}
	var sdk []byte
	if s.V3 {
		sdk = Cat(LE32(s.Min), LE32(s.Max))
	}
	return Cat(LP(ds), LP(cs), sdk, LP(s.Attrs...))
}

func (s *Signer) algs() []uint32 {
	if s.Algs == nil {
		return []uint32{AlgDefault(s.Key)}
	}
	return s.Algs
}

// Encode signs and encodes the signer (without its own length prefix).
func (s *Signer) Encode() []byte {
	sd := s.SignedData()
	var sigs []byte
	for _, a := range s.algs() {
		sigs = append(sigs, LP(LE32(a), LP(AlgSign(s.Key, a, sd)))...)
	}
	return s.EncodeWith(sd, sigs, s.Key.SPKI())
}

func (s *Signer) EncodeWith(sd, sigs, pub []byte) []byte {
	var sdk []byte
	if s.V3 {
		lo, hi := s.Min, s.Max
		if s.SDiff {
			lo, hi = s.SMin, s.SMax
		}
		sdk = Cat(LE32(lo), LE32(hi))
	}
	return Cat(LP(sd), sdk, LP(sigs), LP(pub))
}

// SchemeBlock is the value of a v2/v3 pair.
func SchemeBlock(signers ...[]byte) []byte {
	var b []byte
	for _, s := range signers {
		b = append(b, LP(s)...)
	}
	return LP(b)
}

// Member is a stored archive member.
type Member struct {
	Name string
	Data []byte
}

// Archive lays out members without compression. Their CRC is 0, which readers do not compare.
func Archive(ms ...Member) *Apk { return ArchiveAfter(nil, ms...) }

// ArchiveAfter is an archive with something else in front.
func ArchiveAfter(prefix []byte, ms ...Member) *Apk {
	a := &Apk{Entries: len(ms), Before: prefix}
	for _, m := range ms {
		n := uint32(len(m.Data))
		off := uint32(len(a.Before))
		a.Before = Cat(a.Before, LE32(0x04034b50), LE16(10), LE16(0), LE16(0), LE32(0), LE32(0), LE32(n), LE32(n), LE16(uint16(len(m.Name))), LE16(0), []byte(m.Name), m.Data)
		a.CD = Cat(a.CD, LE32(0x02014b50), LE16(10), LE16(10), LE16(0), LE16(0), LE32(0), LE32(0), LE32(n), LE32(n), LE16(uint16(len(m.Name))), LE16(0), LE16(0), LE16(0), LE16(0), LE32(0), LE32(off), []byte(m.Name))
	}
	return a
}
