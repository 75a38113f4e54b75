package pkcs7

import (
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P27

// zzLen is the DER encoding of a length.
func zzLen(n int) []byte {
	if n < 0x80 {
		return []byte{byte(n)}
	}
	var b []byte
	for ; n > 0; n >>= 8 {
		b = append([]byte{byte(n)}, b...)
	}
	return append([]byte{0x80 | byte(len(b))}, b...)
}

// zzDer reads the BER object at p of d[:lim] as X.690 defines it and gives its DER encoding and where it ends.
// Strings in parts stay in parts; the number of bytes of a length is at most four.
func zzDer(d []byte, p, lim int) (out []byte, next int, ok bool) {
	at := p
	if p >= lim {
		return nil, 0, false
	}
	first := d[p]
	p++
	if first&0x1f == 0x1f {
		for p < lim && d[p] >= 0x80 {
			p++
		}
		p++ // the last byte of the tag
	}
	if p >= lim {
		return nil, 0, false
	}
	tag := d[at:p]
	l := vf.Concrete(int(d[p]))
	p++
	n := l
	if l > 0x80 {
		if l-0x80 > 4 || p+l-0x80 > lim {
			return nil, 0, false
		}
		n = 0
		for i := 0; i < l-0x80; i++ {
			n = n<<8 | int(d[p])
			p++
		}
	}
	var content []byte
	if l == 0x80 {
		if first&0x20 == 0 {
			return nil, 0, false
		}
		for {
			if p+2 > lim {
				return nil, 0, false
			}
			if d[p] == 0 && d[p+1] == 0 {
				p += 2
				break
			}
			var c []byte
			c, p, ok = zzDer(d, p, lim)
			if !ok {
				return nil, 0, false
			}
			content = append(content, c...)
		}
		next = p
	} else {
		if n > lim-p {
			return nil, 0, false
		}
		next = p + vf.Concrete(n)
		if first&0x20 == 0 {
			content = d[p:next]
		}
		for first&0x20 != 0 && p < next {
			var c []byte
			c, p, ok = zzDer(d, p, next)
			if !ok {
				return nil, 0, false
			}
			content = append(content, c...)
		}
	}
	out = append([]byte{}, tag...)
	out = append(out, zzLen(len(content))...)
	return append(out, content...), next, true
}

func zzConvert(d []byte) {
	want, _, ok := zzDer(d, 0, len(d))
	got, err := ber2der(d)
	vf.ObsErr("err", err)
	vf.Assert(ok == (err == nil), "an encoding is accepted or rejected against the format")
	if ok && err == nil {
		vf.Assert(len(got) == len(want), "the conversion has another length")
		if len(got) == len(want) {
			same := true
			for i := range got {
				same = vf.And(same, got[i] == want[i])
			}
			vf.Assert(same, "the conversion has another content")
		}
		vf.Cover("converted")
	}
}

// Any bytes.
func VF_P27_any() {
	zzConvert(vf.Bytes("input", vf.Choice("length", 6+vf.Tier())))
}

func zzBER(tag []byte, form int, content []byte) []byte {
	n := len(content)
	b := append([]byte{}, tag...)
	switch form {
	case 0:
		b = append(b, zzLen(n)...)
	case 1: // not minimal
		b = append(b, 0x83, 0, byte(n>>8), byte(n))
	case 2:
		b = append(b, 0x84, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	case 3:
		b = append(append(b, 0x80), content...)
		return append(b, 0, 0)
	}
	return append(b, content...)
}

// Nested objects of any form with up to two arbitrary bytes; lengths around the changes of the encoding.
func VF_P27_nested() {
	depth := 1 + vf.Choice("depth", 2+vf.Tier())
	tags := [][]byte{{0x30}, {0xa0}, {0x3f, 0x81, 0x05}, {0x24}}
	sizes := []int{0, 1, 2, 125, 126, 127, 128, 253, 254, 255, 256, 65535}
	if vf.Tier() == 0 && depth > 1 {
		sizes = []int{1, 123, 124, 128, 251, 252}
	}
	n := sizes[vf.Choice("size", len(sizes))]
	c := make([]byte, n)
	if n > 0 {
		c[0], c[n-1] = vf.U8("first"), vf.U8("last")
	}
	b := zzBER([]byte{4}, vf.Choice("leaf form", 3), c)
	for i := 0; i < depth; i++ {
		if i == 0 {
			switch vf.Choice("sibling", 4) {
			case 1:
				b = append(b, 5, 0)
			case 2:
				b = append([]byte{5, 0}, b...)
			case 3:
				b = append(b, 0, 0)
			}
		}
		b = zzBER(tags[(i+vf.Choice("tag", 2))%len(tags)], vf.Choice("form", 4), b)
	}
	if vf.Choice("trailing", 2) == 1 {
		b = append(b, vf.Bytes("trailing", 2)...)
	}
	zzConvert(b)
}

// A small object with one byte replaced, removed or inserted, or cut.
func VF_P27_change() {
	forms := [][3]int{{0, 0, 0}, {0, 3, 0}, {3, 0, 0}, {3, 3, 0}, {3, 3, 1}, {0, 0, 1}, {1, 2, 2}}
	f := forms[vf.Choice("forms", len(forms))]
	c := []byte{vf.U8("c"), 0}
	if vf.Tier() > 0 {
		c = vf.Bytes("cc", 2)
	}
	leaf := append(zzBER([]byte{4}, f[2], c), 2, 1, 7)
	b := zzBER([]byte{0x30}, f[0], append(zzBER([]byte{0xbf, 0x85, 0x01}, f[1], leaf), 5, 0))
	i := vf.Choice("at", len(b))
	to := byte(0)
	change := vf.Choice("change", 4)
	if change < 2 {
		if vf.Tier() > 0 {
			to = byte(vf.Concrete(int(vf.U8("to"))))
		} else {
			tos := []byte{0, 1, 2, 3, 0x1f, 0x20, 0x3f, 0x7f, 0x80, 0x81, 0x84, 0x85, 0xff, b[i] - 1, b[i] + 1, b[i] + 2, b[i] ^ 0x20}
			to = tos[vf.Choice("to", len(tos))]
		}
	}
	switch change {
	case 0:
		b[i] = to
	case 1:
		b = append(b[:i:i], append([]byte{to}, b[i:]...)...)
	case 2:
		b = append(b[:i:i], b[i+1:]...)
	case 3:
		b = b[:i]
	}
	zzConvert(b)
}
