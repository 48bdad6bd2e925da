// Package os stands in for the real one.
package os

import (
	"errors"
	"io"
	"io/fs"

	"github.com/zeldovich/go-rpcgen/zz_verif/f/ffs"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	DevNull       = "/dev/null"
	PathSeparator = '/'

	ModePerm = FileMode(0777)
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	PathError = fs.PathError
	Signal    interface{ String() string }
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrClosed     = errors.New("file already closed")
	ErrInvalid    = errors.New("invalid argument")
)

var (
	Stdin  = &File{std: true, name: "/dev/stdin"}
	Stdout = &File{std: true, name: "/dev/stdout"}
	Stderr = &File{std: true, name: "/dev/stderr"}
	Args   = ffs.Args
)

type File struct {
	std    bool
	name   string
	n      *ffs.Node
	flag   int
	off    int
	closed bool
}

func perr(op, name string, err error) error { return &perror{op, name, err} }

type perror struct {
	op, name string
	err      error
}

func (p *perror) Error() string { return p.op + " " + p.name + ": " + p.err.Error() }
func (p *perror) Unwrap() error { return p.err }

func Exit(code int) {
	ffs.Frozen = true
	panic(ffs.ExitPanic{code})
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	n := ffs.Lookup(name)
	if flag&O_CREATE != 0 {
		ffs.Stranger(n)
	}
	if ffs.Fail("open") {
		return nil, perr("open", name, ErrPermission)
	}
	f := &File{name: name, n: n, flag: flag}
	if ffs.Frozen {
		return f, nil
	}
	switch {
	case n.Exists && flag&O_CREATE != 0 && flag&O_EXCL != 0:
		return nil, perr("open", name, ErrExist)
	case !n.Exists && flag&O_CREATE == 0:
		return nil, perr("open", name, ErrNotExist)
	case !n.Exists || flag&O_TRUNC != 0:
		ffs.Create(n)
	}
	return f, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(ffs.Temp(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func (f *File) Name() string { return f.name }

func (f *File) Write(p []byte) (int, error) {
	if f.std || ffs.Frozen {
		return len(p), nil
	}
	if f.closed {
		return 0, perr("write", f.name, ErrClosed)
	}
	if f.flag&3 == O_RDONLY {
		return 0, perr("write", f.name, ErrInvalid)
	}
	p = sym.Flat(p)
	if ffs.Fail("write") {
		k := 0
		if len(p) > 0 {
			k = sym.Int("written", 0, len(p)-1)
		}
		if k > 0 {
			f.put(p[:k])
		}
		return k, perr("write", f.name, ffs.ErrIO)
	}
	f.put(p)
	return len(p), nil
}

func (f *File) put(p []byte) {
	ffs.Change(f.n)
	if f.flag&O_APPEND != 0 {
		f.off = len(f.n.Data)
	}
	if f.off == len(f.n.Data) {
		f.n.Data = append(f.n.Data, p...)
	} else {
		d := append([]byte(nil), f.n.Data[:f.off]...)
		d = append(d, p...)
		if len(d) < len(f.n.Data) {
			d = append(d, f.n.Data[len(d):]...)
		}
		f.n.Data = d
	}
	f.off += len(p)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(p []byte) (int, error) {
	if f.std {
		return 0, io.EOF
	}
	if f.closed {
		return 0, perr("read", f.name, ErrClosed)
	}
	if ffs.Fail("read") {
		return 0, perr("read", f.name, ffs.ErrIO)
	}
	if f.off >= len(f.n.Data) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	k := copy(p, f.n.Data[f.off:])
	f.off += k
	return k, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.closed {
		return 0, perr("seek", f.name, ErrClosed)
	}
	if ffs.Fail("seek") {
		return 0, perr("seek", f.name, ffs.ErrIO)
	}
	switch whence {
	case 0:
		f.off = int(off)
	case 1:
		f.off += int(off)
	case 2:
		f.off = len(f.n.Data) + int(off)
	}
	return int64(f.off), nil
}

func (f *File) Truncate(size int64) error {
	if f.closed {
		return perr("truncate", f.name, ErrClosed)
	}
	if ffs.Fail("truncate") {
		return perr("truncate", f.name, ffs.ErrIO)
	}
	if !ffs.Frozen {
		ffs.Change(f.n)
		f.n.Data = f.n.Data[:size:size]
	}
	return nil
}

func (f *File) Sync() error {
	if f.closed {
		return perr("sync", f.name, ErrClosed)
	}
	if ffs.Fail("sync") {
		return perr("sync", f.name, ffs.ErrIO)
	}
	return nil
}

func (f *File) Chmod(m FileMode) error { return nil }

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr("close", f.name, ErrClosed)
	}
	f.closed = true
	if !f.std && f.flag&3 != O_RDONLY && ffs.Fail("close") {
		return perr("close", f.name, ffs.ErrIO)
	}
	return nil
}

func ReadFile(name string) ([]byte, error) {
	n := ffs.Lookup(name)
	if ffs.Fail("open") {
		return nil, perr("open", name, ErrPermission)
	}
	if !n.Exists {
		return nil, perr("open", name, ErrNotExist)
	}
	n.Data = sym.Flat(n.Data)
	if ffs.Fail("read") {
		k := sym.Int("got", 0, len(n.Data))
		return append([]byte(nil), n.Data[:k]...), perr("read", name, ffs.ErrIO)
	}
	return append([]byte(nil), n.Data...), nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Remove(name string) error {
	n := ffs.Lookup(name)
	if ffs.Frozen {
		return nil
	}
	if ffs.Fail("remove") {
		ffs.RemoveFailed = true
		return perr("remove", name, ffs.ErrIO)
	}
	if !n.Exists {
		return perr("remove", name, ErrNotExist)
	}
	ffs.Remove(n)
	return nil
}

func RemoveAll(name string) error {
	if err := Remove(name); err != nil && !IsNotExist(err) {
		return err
	}
	return nil
}

func Rename(from, to string) error {
	a, b := ffs.Lookup(from), ffs.Lookup(to)
	if ffs.Frozen {
		return nil
	}
	if ffs.Fail("rename") {
		return perr("rename", from, ffs.ErrIO)
	}
	if !a.Exists {
		return perr("rename", from, ErrNotExist)
	}
	if a == b {
		return nil
	}
	d := a.Data
	ffs.Remove(a)
	ffs.Create(b)
	b.Data = d
	return nil
}

func Chmod(name string, m FileMode) error { return nil }

func Stat(name string) (FileInfo, error) {
	n := ffs.Lookup(name)
	if ffs.Fail("stat") {
		return nil, perr("stat", name, ErrPermission)
	}
	if !n.Exists {
		return nil, perr("stat", name, ErrNotExist)
	}
	return info{n}, nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }
func (f *File) Stat() (FileInfo, error)   { return info{f.n}, nil }

func MkdirAll(name string, m FileMode) error { return nil }
func Mkdir(name string, m FileMode) error    { return nil }
func TempDir() string                        { return "/tmp" }
func Getpid() int                            { return 4711 + 1000*ffs.Any(2) }
func Getppid() int                           { return 4710 + 1000*ffs.Any(2) }
func Getuid() int                            { return 1000 + ffs.Any(2) }
func Getwd() (string, error)                 { return []string{"/work", "/elsewhere"}[ffs.Any(2)], nil }
func Executable() (string, error)            { return []string{"/work/gen", "/bin/gen"}[ffs.Any(2)], nil }
func Hostname() (string, error)              { return []string{"one", "two"}[ffs.Any(2)], nil }
func UserHomeDir() (string, error)           { return []string{"/root", "/home/u"}[ffs.Any(2)], nil }
func Getenv(string) string                   { return []string{"", "1"}[ffs.Any(2)] }
func LookupEnv(k string) (string, bool)      { v := Getenv(k); return v, v != "" }
func Environ() []string                      { return nil }
func Setenv(k, v string) error               { return nil }
func IsTimeout(err error) bool               { return false }

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if _, err := f.Seek(off, 0); err != nil {
		return 0, err
	}
	return io.ReadFull(f, p)
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if _, err := f.Seek(off, 0); err != nil {
		return 0, err
	}
	return f.Write(p)
}

func IsNotExist(err error) bool   { return errors.Is(err, ErrNotExist) }
func IsExist(err error) bool      { return errors.Is(err, ErrExist) }
func IsPermission(err error) bool { return errors.Is(err, ErrPermission) }
