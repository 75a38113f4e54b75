package vf

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strconv"
)

// Files by path. Under the engine os.Open and the methods of *os.File work on these copies in memory.
type memFile struct {
	path string
	data []byte
	pos  int64
	open bool
}

var memFiles [][]byte
var memOpened = map[*os.File]*memFile{}

// File writes a file and yields its path; call Remove with it at the end.
func File(data []byte) string {
	if Symbolic() {
		memFiles = append(memFiles, data)
		return "/vf/" + strconv.Itoa(len(memFiles)-1)
	}
	f, err := os.CreateTemp("", "vf")
	must(err)
	_, err = f.Write(data)
	must(err)
	must(f.Close())
	return f.Name()
}

// Overwrite puts other data under the path.
func Overwrite(path string, data []byte) {
	if Symbolic() {
		n, _ := strconv.Atoi(path[len("/vf/"):])
		memFiles[n] = data
		return
	}
	must(os.WriteFile(path, data, 0o600))
}

func Remove(path string) {
	if !Symbolic() {
		os.Remove(path)
	}
}

// OpenCount is how many descriptors of the file are open.
func OpenCount(path string) (n int) {
	if Symbolic() {
		for _, m := range memOpened {
			if m.open && m.path == path {
				n++
			}
		}
		return n
	}
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && t == path {
			n++
		}
	}
	return n
}

func redirOpen(path string) (*os.File, error) {
	for i, d := range memFiles {
		if path == "/vf/"+strconv.Itoa(i) {
			f := &os.File{}
			memOpened[f] = &memFile{path: path, data: d, open: true}
			return f, nil
		}
	}
	return nil, &fs.PathError{Op: "open", Path: path, Err: errors.New("no such file or directory")}
}

func redirFile(f *os.File) (*memFile, error) {
	m := memOpened[f]
	if m == nil || !m.open {
		return nil, fs.ErrClosed
	}
	return m, nil
}

func redirFileRead(f *os.File, p []byte) (int, error) {
	m, err := redirFile(f)
	if err != nil {
		return 0, err
	}
	n, err := redirFileReadAt(f, p, m.pos)
	m.pos += int64(n)
	if n > 0 {
		err = nil
	}
	return n, err
}

func redirFileReadAt(f *os.File, p []byte, off int64) (int, error) {
	m, err := redirFile(f)
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off > int64(len(m.data)) {
		off = int64(len(m.data))
	}
	n := copy(p, m.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func redirFileSeek(f *os.File, off int64, whence int) (int64, error) {
	m, err := redirFile(f)
	if err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += m.pos
	case io.SeekEnd:
		off += int64(len(m.data))
	}
	if off < 0 {
		return 0, errors.New("invalid argument")
	}
	m.pos = off
	return off, nil
}

func redirFileClose(f *os.File) error {
	m, err := redirFile(f)
	if err != nil {
		return err
	}
	m.open = false
	return nil
}

// ErrRead is the failure of a Reader.
var ErrRead = errors.New("the disk is on fire")

// Reader delivers a file in its own way: the Fault'th call (from 0) fails, the Short'th call yields but a part.
// ReadAt is there if At is set, see WithAt.
type Reader struct {
	Data   []byte
	Pos    int64
	Calls  int
	Fault  int // -1: none
	EOF    bool
	Short  int // -1: none
	Part   int // 0: one byte, 1: half, 2: all but one
	AtEnd  bool
	Failed bool
	Shorts int
}

func (r *Reader) Read(p []byte) (int, error) {
	call := r.Calls
	r.Calls++
	if call == r.Fault {
		r.Failed = true
		if r.EOF {
			return 0, io.EOF
		}
		return 0, ErrRead
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.Pos >= int64(len(r.Data)) {
		return 0, io.EOF
	}
	n := len(r.Data) - int(r.Pos)
	if n > len(p) {
		n = len(p)
	}
	if n > 1 && call == r.Short {
		r.Shorts++
		switch r.Part {
		case 0:
			n = 1
		case 1:
			n /= 2
		default:
			n--
		}
	}
	copy(p, r.Data[r.Pos:int(r.Pos)+n])
	r.Pos += int64(n)
	if r.AtEnd && r.Pos == int64(len(r.Data)) {
		return n, io.EOF
	}
	return n, nil
}

func (r *Reader) Seek(off int64, whence int) (int64, error) {
	call := r.Calls
	r.Calls++
	if call == r.Fault {
		r.Failed = true
		return 0, ErrRead
	}
	switch whence {
	case io.SeekCurrent:
		off += r.Pos
	case io.SeekEnd:
		off += int64(len(r.Data))
	}
	if off < 0 {
		return 0, fmt.Errorf("seek to %d", off)
	}
	r.Pos = off
	return off, nil
}

// ReaderAt is a Reader with ReadAt, which fails like the other calls but always reads in full.
type ReaderAt struct{ Reader }

func (r *ReaderAt) ReadAt(p []byte, off int64) (int, error) {
	call := r.Calls
	r.Calls++
	if call == r.Fault {
		r.Failed = true
		if r.EOF {
			return 0, io.EOF
		}
		return 0, ErrRead
	}
	if off >= int64(len(r.Data)) {
		return 0, io.EOF
	}
	n := copy(p, r.Data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
