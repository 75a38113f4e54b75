package apkverifier

import (
	"bytes"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier/internal/vf"
)

// ---- P17

type zzHeader struct{ name, value []byte }

// zzPart is a section as the JAR format defines it.
type zzPart struct {
	attrs      []zzHeader
	start, end int
}

// zzLine is the end of the line at p and where the next one starts; done tells that it has a line break.
func zzLine(d []byte, p int) (end, next int, done bool) {
	for e := p; e < len(d); e++ {
		if d[e] == '\n' {
			return e, e + 1, true
		}
		if d[e] == '\r' {
			if e+1 < len(d) && d[e+1] == '\n' {
				return e, e + 2, true
			}
			return e, e + 1, true
		}
	}
	return len(d), len(d), false
}

func zzHasNul(b []byte) bool {
	nul := false
	for _, c := range b {
		nul = vf.Or(nul, c == 0)
	}
	return nul
}

// zzManifestRef reads a manifest: the main part and the named ones. A last line without line break does not count,
// neither does what follows the last colon.
func zzManifestRef(d []byte) (parts []zzPart, ok bool) {
	cur := zzPart{}
	p := 0
	flush := func() {
		if len(parts) == 0 || len(cur.attrs) > 0 {
			cur.end = p
			parts = append(parts, cur)
		}
		cur = zzPart{start: p}
	}
	for {
		colon := p
		for colon < len(d) && d[colon] != ':' {
			colon++
		}
		if colon == len(d) { // nothing more to read
			p = len(d)
			break
		}
		e, q, done := zzLine(d, p)
		if colon >= e {
			return nil, false
		}
		name := d[p:colon]
		if len(name) == 0 || len(name) > 70 || colon+1 >= e || d[colon+1] != ' ' {
			return nil, false
		}
		var low []byte
		for _, c := range name {
			up := vf.And(c >= 'A', c <= 'Z')
			if !vf.Or(up, vf.Or(vf.And(c >= 'a', c <= 'z'), vf.Or(vf.And(c >= '0', c <= '9'), vf.Or(c == '-', c == '_')))) {
				return nil, false
			}
			low = append(low, byte(vf.Ite(up, uint64(c+32), uint64(c))))
		}
		value := append([]byte(nil), d[colon+2:e]...)
		for done && q < len(d) && d[q] == ' ' {
			cr := d[q-1] == '\r'
			var from int
			from, q = q+1, 0
			e, q, done = zzLine(d, from)
			vf.Assume(!(cr && done && d[e] == '\n')) // Android takes this line break for the second half of the one before
			value = append(value, d[from:e]...)
		}
		if zzHasNul(value) {
			return nil, false
		}
		p = q
		if !done {
			break
		}
		cur.attrs = append(cur.attrs, zzHeader{low, value})
		if p < len(d) && (d[p] == '\n' || d[p] == '\r') {
			for p < len(d) && (d[p] == '\n' || d[p] == '\r') {
				p++
			}
			flush()
		}
		if p < len(d) && d[p] == 0 {
			return nil, false
		}
	}
	flush()
	return parts, true
}

// zzMerge are the attributes of which the last one of each name counts.
func zzMerge(as []zzHeader) []zzHeader {
	var r []zzHeader
	for _, a := range as {
		found := false
		for i := range r {
			if vf.Equal(r[i].name, a.name) {
				r[i].value, found = a.value, true
				break
			}
		}
		if !found {
			r = append(r, a)
		}
	}
	return r
}

func zzSameAttrs(want []zzHeader, got map[string]string) bool {
	want = zzMerge(want)
	ok := len(want) == len(got)
	for _, a := range want {
		v, has := got[string(a.name)]
		ok = ok && has && vf.Equal([]byte(v), a.value)
	}
	return ok
}

func zzCheckManifest(d []byte, signatureFile bool) {
	zip, err := apkparser.OpenZipReader(bytes.NewReader(vf.Archive(vf.Member{Name: "META-INF/MANIFEST.MF", Data: d}).File(nil)))
	vf.Assume(err == nil)
	want, ok := zzManifestRef(d)
	for i, p := range want {
		if i > 0 && !vf.Equal(p.attrs[0].name, []byte("name")) {
			ok = false
			break
		}
	}
	// Sections by name; in a signature file those of one name are taken together.
	var secs []zzPart
	if ok {
		for _, p := range want[1:] {
			twice := false
			for i := range secs {
				if vf.Equal(secs[i].attrs[0].value, p.attrs[0].value) {
					twice = true
					secs[i].attrs = append(secs[i].attrs, p.attrs[1:]...)
					break
				}
			}
			if twice && !signatureFile {
				ok = false
				break
			}
			if !twice {
				secs = append(secs, p)
			}
		}
	}
	m, err := parseManifest(zip.File["META-INF/MANIFEST.MF"], !signatureFile)
	vf.ObsErr("err", err)
	vf.Assert(ok || err != nil, "a malformed manifest is accepted")
	vf.Assert(!ok || err == nil, "a well-formed manifest is rejected")
	if !ok || err != nil {
		vf.Cover("malformed")
		return
	}
	vf.Assert(zzSameAttrs(want[0].attrs, m.main), "the main attributes are not those of the file")
	vf.Assert(m.mainAttributtesEnd == want[0].end, "the main part ends elsewhere")
	vf.Assert(vf.Equal(m.rawData, d), "the file's content is not kept")
	vf.Assert(len(m.entries) == len(secs), "there are other sections than in the file")
	for _, s := range secs {
		e, has := m.entries[string(s.attrs[0].value)]
		vf.Assert(has, "a section is missing")
		vf.Assert(zzSameAttrs(s.attrs[1:], e), "the attributes of a section are not those of the file")
		if !signatureFile {
			c := m.chunks[string(s.attrs[0].value)]
			vf.Assert(vf.Equal(c, d[s.start:s.end]), "a section is recorded with other bytes than its own")
		}
	}
	if len(secs) > 0 {
		vf.Cover("sections")
	} else {
		vf.Cover("main part only")
	}
}

// Any short file.
func VF_P17_any() {
	zzCheckManifest(vf.Bytes("file", vf.Choice("length", 7+3*vf.Tier())), vf.Choice("signature file", 2) == 1)
}

const zzSample = "M: 1\r\nX: y\n z\n\nName: a\rD: b\r\n\nName: c\nE: f\n g\n"

// Any two bytes replaced, inserted or with the rest of the file left out.
func VF_P17_window() {
	at := vf.Choice("position", len(zzSample)+1)
	w := vf.Bytes("window", 2+vf.Tier())
	rest := at
	switch vf.Choice("how", 3) {
	case 0:
		rest = at + len(w)
		vf.Assume(rest <= len(zzSample))
	case 2:
		rest = len(zzSample)
	}
	zzCheckManifest(vf.Cat([]byte(zzSample[:at]), w, []byte(zzSample[rest:])), vf.Tier() > 0 && vf.Choice("signature file", 2) == 1)
}

// Lines of any kind with any line breaks.
func VF_P17_lines() {
	lines := []string{"A: b", "", "Name: x", " c", "Name: y", "a: d", "zz", "Name: X", "NAME: x", ":", "A:b", "A: ", " "}
	ends := []string{"\r\n", "\n", "\r", ""}
	var d []byte
	end := vf.Choice("all ends", 4)
	for i := 0; i < 4+vf.Tier(); i++ {
		k := vf.Choice("line", 5+8*vf.Tier())
		if i == 3 && vf.Tier() == 0 && k == 0 { // repeats an attribute or section in other letters
			k = 5 + vf.Choice("case", 2)*2
		}
		d = append(d, lines[k]...)
		if end == 3 && vf.Tier() == 0 {
			d = append(d, ends[i%3]...)
		} else if end == 3 {
			d = append(d, ends[vf.Choice("end", 4)]...)
		} else {
			d = append(d, ends[end]...)
		}
	}
	zzCheckManifest(d, vf.Choice("signature file", 2) == 1)
}

// Names of any length.
func VF_P17_length() {
	n := []int{0, 1, 69, 70, 71, 72, 100}[vf.Choice("length", 7)]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'n'
	}
	if n > 0 {
		b[vf.Choice("position", 2)*(n-1)] = vf.U8("letter")
	}
	d := vf.Cat([]byte("A: b\n"), b, []byte(": d\n"))
	if vf.Choice("in section", 2) == 1 {
		d = vf.Cat([]byte("A: b\n\nName: q\n"), b, []byte(": d\n"))
	}
	zzCheckManifest(d, false)
}
