package apkverifier

import (
	"bytes"
	"crypto/x509"
	"io"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier/internal/vf"
	"github.com/avast/apkverifier/signingblock"
)

// ---- P32

func zzErrText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func zzSameBlock(a, b *signingblock.VerificationResult) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.SchemeId != b.SchemeId || !zzSameChains(a.Certs, b.Certs) || len(a.ExtraBlocks) != len(b.ExtraBlocks) ||
		len(a.ExtraResults) != len(b.ExtraResults) || len(a.Errors) != len(b.Errors) || len(a.Warnings) != len(b.Warnings) ||
		(a.SourceStamp == nil) != (b.SourceStamp == nil) || (a.SigningLineage == nil) != (b.SigningLineage == nil) {
		return false
	}
	for i := range a.Errors {
		if a.Errors[i].Error() != b.Errors[i].Error() {
			return false
		}
	}
	for i := range a.Warnings {
		if a.Warnings[i] != b.Warnings[i] {
			return false
		}
	}
	return true
}

func zzSameResult(a, b Result) bool {
	return a.SigningSchemeId == b.SigningSchemeId && zzSameChains(a.SignerCerts, b.SignerCerts) && zzSameBlock(a.SigningBlockResult, b.SigningBlockResult)
}

// zzIOCase is any of a few files of all kinds.
func zzIOCase() *zzCase {
	cs := []*zzCase{
		{v1: 1, target: 20, min: 1, sandbox: 1},
		{v1: 1, target: 30, min: 1, sandbox: 1},
		{v1: 1, target: 25, min: 1, sandbox: 2},
		{v1: 2, target: 20, min: 1, sandbox: 1},
		{v1: 3, target: 20, min: 1, sandbox: 1},
		{v1: 0, target: 20, min: 1, sandbox: 1},
		{v1: 1, target: 20, min: 1, sandbox: 1, prefix: []byte("dex\n")},
		{v2: 1, target: 20, min: 24, sandbox: 1},
		{v2: 1, v1: 1, target: 20, min: 1, sandbox: 1},
		{v2: 2, v1: 1, target: 20, min: 1, sandbox: 1},
		{v2: 1, v1: 2, target: 20, min: 1, sandbox: 1},
		{v3: 1, target: 20, min: 28, sandbox: 1},
		{v2: 1, v3: 1, v1: 1, target: 20, min: 1, sandbox: 1},
		{v2: 1, v3: 2, v1: 1, target: 20, min: 1, sandbox: 1},
		{v2: 2, v3: 1, v1: 1, target: 20, min: 1, sandbox: 1},
	}
	return cs[vf.Choice("case", len(cs))]
}

func zzIORange() (int32, int32) {
	r := [][2]int32{{-1, zzMaxInt}, {1, 25}, {1, zzMaxInt}, {24, zzMaxInt}, {28, zzMaxInt}, {-1, 20}}[vf.Choice("range", 6)]
	return r[0], r[1]
}

// zzAt is a reader of the file somewhere in it, with or without ReadAt.
func zzAt(f []byte) io.ReadSeeker {
	at := []int64{0, 4, int64(len(f)), int64(len(f)) + 5}[vf.Choice("position", 4)]
	if vf.Choice("with ReadAt", 2) == 1 {
		return &vf.ReaderAt{Reader: vf.Reader{Data: f, Pos: at, Fault: -1, Short: -1}}
	}
	return &vf.Reader{Data: f, Pos: at, Fault: -1, Short: -1}
}

// zzZip is nil or a ZIP reader of its own of the file, opened by path if path is not empty.
func zzZip(f []byte) (zip *apkparser.ZipReader, path string) {
	var err error
	switch vf.Choice("zip given", 3) {
	case 0:
		return nil, ""
	case 1:
		zip, err = apkparser.OpenZipReader(bytes.NewReader(f))
	case 2:
		path = vf.File(f)
		zip, err = apkparser.OpenZip(path)
	}
	vf.Assume(err == nil)
	return zip, path
}

// zzZipUsable says that the ZIP reader can still be read, and closes it.
func zzZipUsable(zip *apkparser.ZipReader, path string) bool {
	if zip == nil {
		return true
	}
	ok := len(zip.FilesOrdered) != 0 && (path == "" || vf.OpenCount(path) == 1)
	for _, m := range zip.FilesOrdered {
		if _, err := m.ReadAll(1 << 20); err != nil {
			ok = false
		}
	}
	zip.Close()
	if path != "" {
		vf.Remove(path)
	}
	return ok
}

// Every way to have a file verified.
func VF_P32_verify() {
	f := zzIOCase().file()
	min, max := int32(-1), int32(zzMaxInt)
	way := vf.Choice("way", 4)
	if way >= 2 {
		min, max = zzIORange()
	}
	want, werr := zzVerify(f, min, max)
	zip, zipPath := zzZip(f)
	var got Result
	var err error
	path := ""
	switch way {
	case 0:
		got, err = VerifyReader(zzAt(f), zip)
	case 1:
		path = vf.File(f)
		got, err = Verify(path, zip)
	case 2:
		path = vf.File(f)
		got, err = VerifyWithSdkVersion(path, zip, min, max)
	case 3:
		got, err = VerifyWithSdkVersionReader(zzAt(f), zip, min, max)
	}
	if path != "" {
		vf.Assert(vf.OpenCount(path) == 0, "a file is left open")
		vf.Remove(path)
	}
	vf.ObsErr("err", err)
	vf.Assert(zzErrText(err) == zzErrText(werr), "the verdict depends on how the file is handed over")
	vf.Assert(zzSameResult(got, want), "the result depends on how the file is handed over")
	vf.Assert(zzZipUsable(zip, zipPath), "a ZIP reader is closed that was handed over")
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

// Every way to have the certificates of a file extracted.
func VF_P32_extract() {
	f := zzIOCase().file()
	want, werr := ExtractCertsReader(bytes.NewReader(f), nil)
	zip, zipPath := zzZip(f)
	var got [][]*x509.Certificate
	var err error
	if vf.Choice("way", 2) == 0 {
		got, err = ExtractCertsReader(zzAt(f), zip)
	} else {
		path := vf.File(f)
		got, err = ExtractCerts(path, zip)
		vf.Assert(vf.OpenCount(path) == 0, "a file is left open")
		vf.Remove(path)
	}
	vf.ObsErr("err", err)
	vf.Assert(zzErrText(err) == zzErrText(werr), "the verdict depends on how the file is handed over")
	vf.Assert(zzSameChains(got, want), "the certificates depend on how the file is handed over")
	vf.Assert(zzZipUsable(zip, zipPath), "a ZIP reader is closed that was handed over")
	if err == nil {
		vf.Cover("extracted")
	} else {
		vf.Cover("failed")
	}
}

// Every way to have a signing block verified or its certificates extracted.
func VF_P32_block() {
	f := zzIOCase().file()
	r := [][2]int32{{24, zzMaxInt}, {1, 27}, {28, 32}, {1, 20}}[vf.Choice("range", 4)]
	min, max := r[0], r[1]
	path := ""
	way := vf.Choice("way", 5)
	if way < 3 {
		want, wmagic, werr := signingblock.VerifySigningBlockReaderWithZip(bytes.NewReader(f), min, max, nil)
		var got *signingblock.VerificationResult
		var magic uint32
		var err error
		switch way {
		case 0:
			path = vf.File(f)
			got, magic, err = signingblock.VerifySigningBlock(path, min, max)
		case 1:
			got, magic, err = signingblock.VerifySigningBlockReader(zzAt(f), min, max)
		case 2:
			zip, zipPath := zzZip(f)
			got, magic, err = signingblock.VerifySigningBlockReaderWithZip(zzAt(f), min, max, zip)
			vf.Assert(zzZipUsable(zip, zipPath), "a ZIP reader is closed that was handed over")
		}
		vf.ObsErr("err", err)
		vf.Assert(zzErrText(err) == zzErrText(werr) && magic == wmagic, "the verdict depends on how the file is handed over")
		vf.Assert(signingblock.IsSigningBlockNotFoundError(err) == signingblock.IsSigningBlockNotFoundError(werr), "the kind of error depends on how the file is handed over")
		vf.Assert(zzSameBlock(got, want), "the result depends on how the file is handed over")
	} else {
		want, werr := signingblock.ExtractCertsReader(bytes.NewReader(f), min, max)
		var got [][]*x509.Certificate
		var err error
		if way == 3 {
			path = vf.File(f)
			got, err = signingblock.ExtractCerts(path, min, max)
		} else {
			got, err = signingblock.ExtractCertsReader(zzAt(f), min, max)
		}
		vf.ObsErr("err", err)
		vf.Assert(zzErrText(err) == zzErrText(werr), "the verdict depends on how the file is handed over")
		vf.Assert(signingblock.IsSigningBlockNotFoundError(err) == signingblock.IsSigningBlockNotFoundError(werr), "the kind of error depends on how the file is handed over")
		vf.Assert(zzSameChains(got, want), "the certificates depend on how the file is handed over")
	}
	if path != "" {
		vf.Assert(vf.OpenCount(path) == 0, "a file is left open")
		vf.Remove(path)
	}
	vf.Cover("done")
}

// No file under the path.
func VF_P32_missing() {
	path := vf.File(nil) + "-missing"
	_, err := Verify(path, nil)
	vf.Assert(err != nil, "a missing file is verified")
	_, err = VerifyWithSdkVersion(path, nil, 1, 25)
	vf.Assert(err != nil, "a missing file is verified")
	certs, err := ExtractCerts(path, nil)
	vf.Assert(err != nil && len(certs) == 0, "certificates are extracted from a missing file")
	_, _, err = signingblock.VerifySigningBlock(path, 1, 34)
	vf.Assert(err != nil && !signingblock.IsSigningBlockNotFoundError(err), "a missing file counts as one without signatures")
	certs, err = signingblock.ExtractCerts(path, 1, 34)
	vf.Assert(err != nil && !signingblock.IsSigningBlockNotFoundError(err) && len(certs) == 0, "a missing file counts as one without signatures")
	vf.Remove(path[:len(path)-8])
	vf.Cover("done")
}

// zzCalls bounds the calls a run makes.
const zzCalls = 160

// Reads that yield less than asked for and the end of the file along with the last bytes.
func VF_P32_short() {
	f := zzIOCase().file()
	min, max := zzIORange()
	r := &vf.ReaderAt{Reader: vf.Reader{Data: f, Fault: -1, Short: vf.Int("short call", -1, zzCalls), Part: vf.Choice("part", 3), AtEnd: vf.Choice("end with data", 2) == 1}}
	want, werr := zzVerify(f, min, max)
	got, err := VerifyWithSdkVersionReader(r, nil, min, max)
	vf.ObsErr("err", err)
	vf.Assert(zzErrText(err) == zzErrText(werr), "the verdict depends on how reads are split")
	vf.Assert(zzSameResult(got, want), "the result depends on how reads are split")
	if r.Shorts != 0 {
		vf.Cover("split")
	}
}

// A call that fails while the signing block or what it covers is read.
func VF_P32_fault() {
	f := zzIOCase().file()
	min, max := zzIORange()
	zip, err := apkparser.OpenZipReader(bytes.NewReader(f))
	vf.Assume(err == nil)
	r := &vf.Reader{Data: f, Fault: vf.Int("failing call", 0, zzCalls), EOF: vf.Choice("as end of file", 2) == 1, Short: -1}
	want, werr := zzVerify(f, min, max)
	got, err := VerifyWithSdkVersionReader(r, zip, min, max)
	vf.ObsErr("err", err)
	vf.Assert(err != nil || werr == nil, "an invalid APK is accepted when reading it fails")
	vf.Assert(err != nil || zzSameResult(got, want), "the result differs when reading the file fails")
	if r.Failed {
		vf.Cover("failed")
	}
	if err == nil {
		vf.Cover("accepted")
	}
}

// The same when certificates are extracted.
func VF_P32_faultextract() {
	f := zzIOCase().file()
	zip, err := apkparser.OpenZipReader(bytes.NewReader(f))
	vf.Assume(err == nil)
	r := &vf.Reader{Data: f, Fault: vf.Int("failing call", 0, zzCalls), EOF: vf.Choice("as end of file", 2) == 1, Short: -1}
	want, werr := ExtractCertsReader(bytes.NewReader(f), nil)
	got, err := ExtractCertsReader(r, zip)
	vf.ObsErr("err", err)
	vf.Assert(err != nil || werr == nil && zzSameChains(got, want), "other certificates are extracted when reading the file fails")
	if r.Failed {
		vf.Cover("failed")
	}
	if err == nil {
		vf.Cover("extracted")
	}
}

// A call that fails while a v1 signature and the files it covers are read.
func VF_P32_faultv1() {
	files := zzFiles
	mf, sf := zzJar(files)
	s0 := &zzSig{name: "META-INF/A", key: vf.KeyE0, sf: sf}
	s1 := &zzSig{name: "META-INF/B", key: vf.KeyR0, sf: sf}
	mfd, sfd := mf, sf
	kind := vf.Choice("kind", 6)
	switch kind {
	case 1: // a file altered
		files = append([]vf.Member{{Name: files[0].Name, Data: []byte("xx")}}, files[1:]...)
	case 2: // the second signature altered
		s1.block = vf.P7([][]byte{s1.key.Cert()}, (&vf.P7Signer{Key: s1.key, Sig: (&vf.P7Signer{Key: vf.KeyE1}).Sign(sf)}).Encode(sf))
	case 3: // the second signature made for another manifest
		_, s1.sf = zzJar(files[:1])
	case 4: // a file that is not signed
		mfd, sfd = zzJar(files[:1])
		s0.sf, s1.sf = sfd, sfd
	}
	sigs := []*zzSig{s0, s1}
	if kind == 5 { // one signature
		sigs = sigs[:1]
	}
	f := zzArchive(mfd, sigs, files...).File(nil)
	r := &vf.ReaderAt{Reader: vf.Reader{Data: f, Fault: -1, Short: -1}}
	zip, err := apkparser.OpenZipReader(r)
	vf.Assume(err == nil)
	r.Calls = 0
	r.Fault = vf.Int("failing call", 0, zzCalls)
	r.EOF = vf.Choice("as end of file", 2) == 1
	want, werr := zzVerify(f, 1, 23)
	got, err := VerifyWithSdkVersionReader(bytes.NewReader(f), zip, 1, 23)
	vf.ObsErr("err", err)
	vf.Assert(err != nil || werr == nil, "an invalid APK is accepted when reading it fails")
	vf.Assert(err != nil || zzSameResult(got, want), "the result differs when reading the file fails")
	if r.Failed {
		vf.Cover("failed")
	}
	if err == nil {
		vf.Cover("accepted")
	}
}

// A block whose digest is that of the content with a part of it left out, as if it could not be read.
func VF_P32_unread() {
	a := vf.Archive(vf.Member{Name: "AndroidManifest.xml", Data: vf.AppManifest(24, 28, 1)}, zzFiles[1])
	secs := a.Sections()
	part := vf.Choice("part", 3)
	var chunks [][]byte
	for i, s := range secs {
		d := s
		if i == part {
			d = nil
		}
		chunks = append(chunks, vf.Digest(vf.SHA256, vf.Cat([]byte{0xa5}, vf.LE32(uint32(len(s))), d)))
	}
	if part == 2 && vf.Choice("right", 2) == 1 {
		chunks[2] = vf.Digest(vf.SHA256, vf.Cat([]byte{0xa5}, vf.LE32(uint32(len(secs[2]))), secs[2]))
		part = -1
	}
	d := vf.Digest(vf.SHA256, vf.Cat([]byte{0x5a}, vf.LE32(uint32(len(chunks))), vf.Cat(chunks...)))
	s := &vf.Signer{Key: vf.KeyE0, Digests: [][]byte{d}}
	f := a.File(vf.SigningBlock(vf.Pair(vf.IDv2, vf.SchemeBlock(s.Encode()))))
	zip, err := apkparser.OpenZipReader(bytes.NewReader(f))
	vf.Assume(err == nil)
	r := &vf.Reader{Data: f, Fault: vf.Int("failing call", 0, zzCalls), EOF: vf.Choice("as end of file", 2) == 1, Short: -1}
	_, err = VerifyWithSdkVersionReader(r, zip, 24, 27)
	vf.ObsErr("err", err)
	vf.Assert(part < 0 || err != nil, "content that could not be read is taken for empty")
	if part < 0 && err == nil {
		vf.Cover("accepted")
	}
	if r.Failed {
		vf.Cover("failed")
	}
}
