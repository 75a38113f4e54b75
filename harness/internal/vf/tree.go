package vf

// Tree is a DER encoding taken apart.
type Tree struct {
	head     []byte // tag
	content  []byte // of a primitive object
	children []*Tree
}

// ParseDER takes an encoding apart; the opaque objects stay whole.
func ParseDER(b []byte, opaque ...[]byte) (ts []*Tree) {
	for len(b) > 0 {
		_, c, rest := DERNext(b)
		t := &Tree{head: b[:1], content: c}
		whole := false
		for _, o := range opaque {
			whole = whole || Equal(b[:len(b)-len(rest)], o)
		}
		if whole {
		} else if b[0]&0x20 != 0 {
			t.children = ParseDER(c, opaque...)
		} else if b[0] == 4 && len(c) > 1 && (c[0] == 0x30 || c[0] == 3) && int(c[1]) == len(c)-2 {
			t.children = ParseDER(c, opaque...)
		} else if b[0] == 3 && len(c) > 3 && c[0] == 0 && c[1] == 0x30 { // a public key in a bit string
			if int(c[2]) == len(c)-3 || c[2] == 0x82 && int(c[3])<<8|int(c[4]) == len(c)-5 || c[2] == 0x81 && int(c[3]) == len(c)-4 {
				t.children = ParseDER(c[1:], opaque...)
			}
		}
		ts = append(ts, t)
		b = rest
	}
	return
}

func countTrees(ts []*Tree) (n int) {
	for _, t := range ts {
		n += 1 + countTrees(t.children)
	}
	return
}

func someBytes(tag byte, name string) []byte {
	if tag == 6 && Tier() == 0 { // printed in messages
		return []byte{0x2a}
	}
	return Bytes(name, 1+Choice("size", 1+Tier()))
}

// buildTrees encodes the trees with object number at changed.
func buildTrees(ts []*Tree, n *int, at int) []byte {
	var out []byte
	for _, t := range ts {
		i := *n
		*n++
		c := t.content
		if t.children != nil {
			c = buildTrees(t.children, n, at)
			if t.head[0] == 3 {
				c = Cat([]byte{0}, c)
			}
		}
		tag := t.head[0]
		if i != at {
			out = Cat(out, DER(tag, c))
			continue
		}
		how := Choice("change", 9)
		if Tier() == 0 && how == 6 { // of the leaves only
			Assume(t.children == nil)
		}
		switch how {
		case 0: // removed
		case 1:
			out = Cat(out, DER(tag))
		case 2:
			out = Cat(out, DER(tag, someBytes(tag, "content")))
		case 3:
			tags := []byte{2, 0x30, 0x80, 4, 0x13, 0x1f, 1, 3, 5, 6, 0x0c, 0x17, 0x18, 0x31, 0xa0, 0xa1, 0x24}
			if Tier() == 0 {
				tags = tags[:3]
			}
			out = Cat(out, DER(tags[Choice("tag", len(tags))], c))
		case 4:
			out = Cat(out, DER(tag, c), DER(tag, c))
		case 5:
			if len(c) > 0 {
				c = c[:len(c)-1-Choice("cut", min(len(c), 1+2*Tier()))]
			}
			out = Cat(out, DER(tag, c))
		case 6:
			out = Cat(out, DER(tag, Cat(c, someBytes(tag, "tail"))))
		case 7: // indefinite length, with its end or without
			out = Cat(out, []byte{tag, 0x80}, c)
			if Choice("end", 2) == 1 {
				out = Cat(out, []byte{0, 0})
			}
		case 8: // zero and negative numbers, null
			bs := [][]byte{{2, 1, 0}, {2, 1, 0xff}, {5, 0}, {2, 1, 2}, {2, 9, 1, 0, 0, 0, 0, 0, 0, 0, 0}, {0x30, 0}}
			if Tier() == 0 {
				bs = bs[:3]
			}
			out = Cat(out, bs[Choice("value", len(bs))])
		}
	}
	return out
}

// Reshape is an encoding with one object of it changed: removed, emptied, of another type, length or content.
// In the quick tier opaque objects are only changed as a whole.
func Reshape(der []byte, opaque ...[]byte) []byte {
	if Tier() > 0 {
		opaque = nil
	}
	ts := ParseDER(der, opaque...)
	n := 0
	return buildTrees(ts, &n, Choice("object", countTrees(ts)))
}

// WithKey is the certificate with another public key.
func WithKey(cert, old, pub []byte) []byte {
	ts := ParseDER(cert)
	for _, t := range ts[0].children[0].children {
		if len(t.children) == 2 && Equal(DER(0x30, t.content), old) {
			t.children, t.content, t.head = nil, nil, nil
			var parts [][]byte
			for _, u := range ts[0].children[0].children {
				if u == t {
					parts = append(parts, pub)
				} else {
					parts = append(parts, DER(u.head[0], u.content))
				}
			}
			rest := ts[0].children[1:]
			return DER(0x30, DER(0x30, parts...), DER(rest[0].head[0], rest[0].content), DER(rest[1].head[0], rest[1].content))
		}
	}
	panic("vf: no key")
}
