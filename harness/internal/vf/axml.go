package vf

// XAttr is an attribute of a binary XML tag. Type 3 is a string, 0x10 a decimal number, 0x11 a hexadecimal one, 0x12 a boolean.
type XAttr struct {
	Name string
	Type byte
	Data uint32
	Str  []byte
	ID   uint32 // resource identifier; the name is then irrelevant
}

type XTag struct {
	Name  string
	Attrs []XAttr
}

const (
	XString = 3
	XInt    = 0x10
	XHex    = 0x11
	XBool   = 0x12

	IDMinSdk    = 0x0101020c
	IDTargetSdk = 0x01010270
	IDSandbox   = 0x0101054c
)

// AXML is a binary XML document of the given start tags.
func AXML(tags ...XTag) []byte {
	var offs, data []byte
	n := uint32(0)
	add := func(s []byte) uint32 {
		offs = append(offs, LE32(uint32(len(data)))...)
		data = Cat(data, []byte{byte(len(s)), byte(len(s))}, s, []byte{0})
		n++
		return n - 1
	}
	// attribute names with resource identifiers come first
	var ids []byte
	idIdx := map[uint32]uint32{}
	for _, t := range tags {
		for _, a := range t.Attrs {
			if a.ID != 0 {
				if _, ok := idIdx[a.ID]; !ok {
					idIdx[a.ID] = add([]byte(a.Name))
					ids = append(ids, LE32(a.ID)...)
				}
			}
		}
	}
	none := LE32(0xffffffff)
	var body []byte
	for _, t := range tags {
		nm := add([]byte(t.Name))
		var as []byte
		for _, a := range t.Attrs {
			idx, ok := idIdx[a.ID]
			if !ok {
				idx = add([]byte(a.Name))
			}
			raw := uint32(0xffffffff)
			d := a.Data
			if a.Type == XString {
				raw = add(a.Str)
				d = raw
			}
			as = Cat(as, none, LE32(idx), LE32(raw), LE16(8), []byte{0, a.Type}, LE32(d))
		}
		body = Cat(body, LE16(0x0102), LE16(16), LE32(uint32(36+len(as))), LE32(1), none,
			none, LE32(nm), LE16(20), LE16(20), LE16(uint16(len(t.Attrs))), LE16(0), LE16(0), LE16(0), as)
	}
	if len(ids) > 0 {
		body = Cat(LE16(0x0180), LE16(8), LE32(uint32(8+len(ids))), ids, body)
	}
	st := Cat(LE16(1), LE16(28), LE32(28+uint32(len(offs)+len(data))), LE32(n), LE32(0), LE32(0x100), LE32(28+uint32(len(offs))), LE32(0), offs, data)
	return Cat(LE16(3), LE16(8), LE32(uint32(8+len(st)+len(body))), st, body)
}

// AppManifest is a manifest with the given requirements; negative ones are left out.
func AppManifest(min, target, sandbox int) []byte {
	m := XTag{Name: "manifest"}
	if sandbox >= 0 {
		m.Attrs = append(m.Attrs, XAttr{Name: "targetSandboxVersion", Type: XInt, Data: uint32(sandbox)})
	}
	u := XTag{Name: "uses-sdk"}
	if min >= 0 {
		u.Attrs = append(u.Attrs, XAttr{Name: "minSdkVersion", Type: XInt, Data: uint32(min)})
	}
	if target >= 0 {
		u.Attrs = append(u.Attrs, XAttr{Name: "targetSdkVersion", Type: XInt, Data: uint32(target)})
	}
	return AXML(m, u)
}
