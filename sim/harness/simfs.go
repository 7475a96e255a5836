package main

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"time"

	"github.com/vorlif/spreak/zz_verif/simrt"
)

// The simulated file system. Its content never changes after the set-up; what a
// task sees (short reads, failures, vanished files) is decided per task.

const (
	fsStat     = 1 // implements fs.StatFS
	fsReadFile = 2 // implements fs.ReadFileFS
	fsSeek     = 4 // files are seekable
	fsChunked  = 8 // reads are short, empty or combined with EOF
)

type simFS struct {
	files  map[string][]byte
	flags  int
	panics bool
}

type simFSStat struct{ *simFS }
type simFSRead struct{ *simFS }
type simFSBoth struct{ *simFS }

func newFS(files map[string][]byte, flags int) fs.FS {
	s := &simFS{files: files, flags: flags}
	switch flags & 3 {
	case 1:
		return simFSStat{s}
	case 2:
		return simFSRead{s}
	case 3:
		return simFSBoth{s}
	}
	return s
}

type simFile struct {
	t      *tstate
	path   string
	data   []byte
	off    int64
	nread  int
	closed int
	bad    string // use after close
	reads  int
	empty  int
	flags  int
	op     int

	sticky  error
	stickyF fired
}

type simFileSeek struct{ *simFile }

type simInfo struct {
	name string
	size int64
}

func (i simInfo) Name() string       { return i.name }
func (i simInfo) Size() int64        { return i.size }
func (i simInfo) Mode() fs.FileMode  { return 0o444 }
func (i simInfo) ModTime() time.Time { return time.Time{} }
func (i simInfo) IsDir() bool        { return false }
func (i simInfo) Sys() any           { return nil }

func (s *simFS) lookup(t *tstate, op, name string) ([]byte, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: op, Path: name, Err: fs.ErrInvalid}
	}
	d, ok := s.files[name]
	if ok && t.vanished[name] {
		t.vanHit = true
		ok = false
	}
	if !ok {
		return nil, &fs.PathError{Op: op, Path: name, Err: fs.ErrNotExist}
	}
	return d, nil
}

func (s *simFS) Open(name string) (fs.File, error) {
	t := T()
	defer t.in()()
	if t.hook != nil {
		t.hook("open")
	}
	if f := t.event("open", name); f != nil {
		return nil, t.strike(f, "open", name)
	}
	d, err := s.lookup(t, "open", name)
	if err != nil {
		return nil, err
	}
	f := &simFile{t: t, path: name, data: d, flags: s.flags, op: t.op}
	t.files = append(t.files, f)
	if s.flags&fsSeek != 0 {
		return simFileSeek{f}, nil
	}
	return f, nil
}

func (s *simFS) stat(name string) (fs.FileInfo, error) {
	t := T()
	defer t.in()()
	if t.hook != nil {
		t.hook("stat")
	}
	if f := t.event("stat", name); f != nil {
		return nil, t.strike(f, "stat", name)
	}
	d, err := s.lookup(t, "stat", name)
	if err != nil {
		return nil, err
	}
	return simInfo{name, int64(len(d))}, nil
}

func (s *simFS) readFile(name string) ([]byte, error) {
	t := T()
	defer t.in()()
	if t.hook != nil {
		t.hook("readfile")
	}
	if f := t.event("readfile", name); f != nil {
		d := s.files[name]
		n := min(f.N, len(d))
		return bytes.Clone(d[:n]), t.strike(f, "readfile", name)
	}
	d, err := s.lookup(t, "open", name)
	if err != nil {
		return nil, err
	}
	return bytes.Clone(d), nil
}

func (s simFSStat) Stat(name string) (fs.FileInfo, error) { return s.stat(name) }
func (s simFSRead) ReadFile(name string) ([]byte, error)  { return s.readFile(name) }
func (s simFSBoth) Stat(name string) (fs.FileInfo, error) { return s.stat(name) }
func (s simFSBoth) ReadFile(name string) ([]byte, error)  { return s.readFile(name) }

func (f *simFile) Stat() (fs.FileInfo, error) {
	defer f.t.in()()
	f.used("stat")
	if x := f.t.event("fstat", f.path); x != nil {
		return nil, f.t.strike(x, "fstat", f.path)
	}
	return simInfo{f.path, int64(len(f.data))}, nil
}

func (f *simFile) used(what string) {
	if f.closed > 0 && f.bad == "" {
		f.bad = what + " after close"
	}
}

func (f *simFile) Read(b []byte) (int, error) {
	defer f.t.in()()
	f.used("read")
	f.reads++
	if f.t.hook != nil {
		f.t.hook("read")
	}
	if f.sticky != nil { // the failure lasts
		fi := f.stickyF
		fi.soft = false
		f.t.fired = append(f.t.fired, fi)
		return 0, f.sticky
	}
	if x := f.t.event("read", f.path); x != nil {
		n := 0
		if x.N > 0 && f.off < int64(len(f.data)) {
			n = copy(b[:min(len(b), x.N)], f.data[f.off:])
			f.off += int64(n)
			f.nread += n
		}
		k := len(f.t.fired)
		err := f.t.strike(x, "read", f.path)
		// data that satisfies the reader may come with an error that it need not look at
		f.t.fired[k].soft = n > 0 && (n == len(b) || f.off == int64(len(f.data)))
		f.sticky, f.stickyF = err, f.t.fired[k]
		return n, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.data)) {
		return 0, io.EOF
	}
	rest := f.data[f.off:]
	n := len(rest)
	withEOF := false
	if f.flags&fsChunked != 0 {
		n, withEOF = chunk(&f.t.rd, &f.empty, len(rest), len(b))
	}
	n = copy(b, rest[:n])
	f.off += int64(n)
	f.nread += n
	if withEOF && f.off == int64(len(f.data)) {
		return n, io.EOF
	}
	return n, nil
}

// chunk decides how much of rest a read delivers.
func chunk(state *uint64, empty *int, rest, room int) (int, bool) {
	r := simrt.Rand{S: *state}
	x := r.Next()
	*state = r.S
	n := min(rest, room)
	withEOF := x&(1<<20) != 0
	switch (x >> 8) % 8 {
	case 0:
		if *empty < 3 {
			*empty++
			return 0, false
		}
		n = 1
	case 1, 2:
		n = 1
	case 3, 4:
		n = 1 + int((x>>32)%16)
	case 5:
		n = 1 + int((x>>32)%4096)
	case 6:
		if n > 1 {
			n--
		}
	}
	*empty = 0
	return min(n, rest, room), withEOF
}

func (f *simFile) Close() error {
	defer f.t.in()()
	f.closed++
	if f.t.hook != nil {
		f.t.hook("close")
	}
	if x := f.t.event("close", f.path); x != nil {
		n := len(f.t.fired)
		defer func() {
			if len(f.t.fired) > n {
				f.t.fired[n].soft = f.nread == 0 && x.Err != "panic"
			}
		}()
		return f.t.strike(x, "close", f.path)
	}
	if f.closed > 1 {
		return &fs.PathError{Op: "close", Path: f.path, Err: fs.ErrClosed}
	}
	return nil
}

func (f simFileSeek) Seek(off int64, whence int) (int64, error) {
	defer f.t.in()()
	f.used("seek")
	if x := f.t.event("seek", f.path); x != nil {
		return 0, f.t.strike(x, "seek", f.path)
	}
	var abs int64
	switch whence {
	case io.SeekStart:
		abs = off
	case io.SeekCurrent:
		abs = f.off + off
	case io.SeekEnd:
		abs = int64(len(f.data)) + off
	default:
		return 0, errors.New("seek: invalid whence")
	}
	if abs < 0 {
		return 0, errors.New("seek: negative position")
	}
	f.off = abs
	return abs, nil
}

// simReader delivers bytes like a file, but is a plain io.Reader (or ReadSeeker).
type simReader struct {
	data  []byte
	off   int64
	rd    uint64
	empty int
	mode  int   // 0 whole, 1 one byte at a time, 2 seeded chunks, 3 data with EOF
	fail  int64 // offset at which reads fail, -1 never
	err   error
	seeks int
}

func (s *simReader) Read(b []byte) (int, error) {
	simrt.Y(22)
	if len(b) == 0 {
		return 0, nil
	}
	end := int64(len(s.data))
	if s.fail >= 0 && s.fail < end {
		end = s.fail
	}
	if s.off >= end {
		if s.fail >= 0 {
			return 0, s.err
		}
		return 0, io.EOF
	}
	rest := s.data[s.off:end]
	n, withEOF := min(len(rest), len(b)), false
	switch s.mode {
	case 1:
		n = 1
	case 2:
		n, withEOF = chunk(&s.rd, &s.empty, len(rest), len(b))
	case 3:
		withEOF = true
	}
	n = copy(b, rest[:n])
	s.off += int64(n)
	if withEOF && s.fail < 0 && s.off == int64(len(s.data)) {
		return n, io.EOF
	}
	return n, nil
}

type simReadSeeker struct{ *simReader }

func (s simReadSeeker) Seek(off int64, whence int) (int64, error) {
	simrt.Y(23)
	s.seeks++
	switch whence {
	case io.SeekCurrent:
		off += s.off
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		return 0, errors.New("seek: negative position")
	}
	s.off = off
	return off, nil
}
