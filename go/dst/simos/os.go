// Package simos is package os over a simulated disk and a simulated standard
// output.  All state is in memory and reset by Reset; a hook decides the fate
// of every operation.
package simos

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
	Signal    = interface {
		Signal()
		String() string
	}
)

const (
	O_RDONLY = syscall.O_RDONLY
	O_WRONLY = syscall.O_WRONLY
	O_RDWR   = syscall.O_RDWR
	O_APPEND = syscall.O_APPEND
	O_CREATE = syscall.O_CREAT
	O_EXCL   = syscall.O_EXCL
	O_SYNC   = syscall.O_SYNC
	O_TRUNC  = syscall.O_TRUNC

	ModePerm = fs.ModePerm
	ModeDir  = fs.ModeDir

	PathSeparator = '/'
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrInvalid    = fs.ErrInvalid
	ErrPermission = fs.ErrPermission
	ErrClosed     = fs.ErrClosed
	Args          = []string{"simulated"}
	Stdout        = &File{name: "/dev/stdout", std: true}
	Stderr        = &File{name: "/dev/stderr", std: true}
	Stdin         = &File{name: "/dev/stdin", std: true}
)

// Crash is the value of the panic that ends a simulated process.
type Crash struct{}

// Exited is the value of the panic Exit raises.
type Exited struct{ Code int }

// Hook decides an operation: how many of n bytes reach the disk and the error
// returned.  It may panic with Crash{} after the bytes have been applied: see
// CrashAfter.  Operations: create, write, read, stat, mkdir, readdir, close,
// remove, rename, stdout, stderr.
var Hook func(op, name string, n int) (int, error)

// CrashAfter makes the operation in progress end the process once it is applied.
var CrashAfter bool

type node struct {
	dir  bool
	data []byte
}

var (
	nodes  map[string]*node
	tmpSeq int
	env    map[string]string
	outBuf []byte
	errBuf []byte
)

func init() { Reset() }

// Reset empties the disk.
func Reset() {
	nodes = map[string]*node{"/": {dir: true}, "/tmp": {dir: true}, "/work": {dir: true}}
	tmpSeq = 0
	env = map[string]string{}
	outBuf, errBuf = nil, nil
	Hook = nil
	CrashAfter = false
	Args = []string{"simulated"}
}

// Output returns what reached standard output.
//
//go:norace
func Output() []byte { return outBuf }

// ClearOutput empties standard output.
//
//go:norace
func ClearOutput() { outBuf = nil }

// Files lists the regular files on disk.
//
//go:norace
func Files() []string {
	var res []string
	for k, n := range nodes {
		if !n.dir {
			res = append(res, k)
		}
	}
	sort.Strings(res)
	return res
}

// Content is the content of a file on disk.
//
//go:norace
func Content(name string) []byte {
	if n := nodes[clean(name)]; n != nil {
		return n.data
	}
	return nil
}

// Put places a file on disk without faults.
//
//go:norace
func Put(name string, data []byte) {
	p := clean(name)
	for d := path.Dir(p); ; d = path.Dir(d) {
		if nodes[d] == nil {
			nodes[d] = &node{dir: true}
		}
		if d == "/" {
			break
		}
	}
	nodes[p] = &node{data: append([]byte{}, data...)}
}

//go:norace
func clean(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = "/work/" + name
	}
	return path.Clean(name)
}

//go:norace
func hook(op, name string, n int) (int, error) {
	if Hook == nil {
		return n, nil
	}
	return Hook(op, name, n)
}

//go:norace
func crash() {
	if CrashAfter {
		CrashAfter = false
		panic(Crash{})
	}
}

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

// File is an open simulated file.
type File struct {
	name   string
	p      string
	n      *node
	pos    int
	app    bool
	std    bool
	closed bool
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

//go:norace
func (f *File) Write(b []byte) (int, error) {
	if f.std {
		op := "stdout"
		if f == Stderr {
			op = "stderr"
		}
		k, err := hook(op, f.name, len(b))
		if f == Stderr {
			errBuf = append(errBuf, b[:k]...)
		} else {
			outBuf = append(outBuf, b[:k]...)
		}
		crash()
		return k, err
	}
	if f.closed {
		return 0, perr("write", f.name, ErrClosed)
	}
	k, err := hook("write", f.p, len(b))
	if f.app {
		f.pos = len(f.n.data)
	}
	for len(f.n.data) < f.pos {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = append(f.n.data[:f.pos], append(append([]byte{}, b[:k]...), tail(f.n.data, f.pos+k)...)...)
	f.pos += k
	crash()
	if err == nil && k < len(b) {
		err = perr("write", f.name, io.ErrShortWrite)
	}
	return k, err
}

func tail(b []byte, at int) []byte {
	if at >= len(b) {
		return nil
	}
	return append([]byte{}, b[at:]...)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

//go:norace
func (f *File) Read(b []byte) (int, error) {
	if f.std {
		return 0, io.EOF
	}
	if f.closed {
		return 0, perr("read", f.name, ErrClosed)
	}
	if f.pos >= len(f.n.data) {
		return 0, io.EOF
	}
	m := min(len(b), len(f.n.data)-f.pos)
	k, err := hook("read", f.p, m)
	copy(b, f.n.data[f.pos:f.pos+k])
	f.pos += k
	crash()
	if err != nil {
		return k, perr("read", f.name, err)
	}
	return k, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += int64(f.pos)
	case 2:
		off += int64(len(f.n.data))
	}
	f.pos = int(off)
	return off, nil
}

//go:norace
func (f *File) Sync() error {
	_, err := hook("sync", f.p, 0)
	crash()
	return err
}

//go:norace
func (f *File) Close() error {
	if f.std {
		return nil
	}
	if f.closed {
		return perr("close", f.name, ErrClosed)
	}
	f.closed = true
	_, err := hook("close", f.p, 0)
	crash()
	if err != nil {
		return perr("close", f.name, err)
	}
	return nil
}

func (f *File) Stat() (FileInfo, error) { return Stat(f.name) }

// OpenFile opens a simulated file.
//
//go:norace
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	p := clean(name)
	op := "open"
	if flag&O_CREATE != 0 {
		op = "create"
	}
	if _, err := hook(op, p, 0); err != nil {
		return nil, perr("open", name, err)
	}
	n := nodes[p]
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if d := nodes[path.Dir(p)]; d == nil {
			return nil, perr("open", name, syscall.ENOENT)
		} else if !d.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		n = &node{}
		nodes[p] = n
	} else if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if n.dir && flag&(O_WRONLY|O_RDWR) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&O_TRUNC != 0 {
		n.data = nil
	}
	crash()
	return &File{name: name, p: p, n: n, app: flag&O_APPEND != 0}, nil
}

func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }

// ReadFile reads a simulated file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.n.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return io.ReadAll(f)
}

// WriteFile writes a simulated file.
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

type info struct {
	name string
	n    *node
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.data)) }
func (i info) Mode() FileMode {
	if i.n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i info) ModTime() time.Time      { return time.Unix(0, 0) }
func (i info) IsDir() bool             { return i.n.dir }
func (i info) Sys() any                { return nil }
func (i info) Type() FileMode          { return i.Mode().Type() }
func (i info) Info() (FileInfo, error) { return i, nil }
func (i info) String() string          { return i.name }

//go:norace
func Stat(name string) (FileInfo, error) {
	p := clean(name)
	if _, err := hook("stat", p, 0); err != nil {
		return nil, perr("stat", name, err)
	}
	n := nodes[p]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{path.Base(p), n}, nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

//go:norace
func ReadDir(name string) ([]DirEntry, error) {
	p := clean(name)
	if _, err := hook("readdir", p, 0); err != nil {
		return nil, perr("open", name, err)
	}
	d := nodes[p]
	if d == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !d.dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var res []DirEntry
	for k, n := range nodes {
		if k != "/" && path.Dir(k) == p {
			res = append(res, info{path.Base(k), n})
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Name() < res[j].Name() })
	return res, nil
}

//go:norace
func Mkdir(name string, perm FileMode) error {
	p := clean(name)
	if _, err := hook("mkdir", p, 0); err != nil {
		return perr("mkdir", name, err)
	}
	if nodes[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if d := nodes[path.Dir(p)]; d == nil || !d.dir {
		return perr("mkdir", name, syscall.ENOENT)
	}
	nodes[p] = &node{dir: true}
	crash()
	return nil
}

//go:norace
func MkdirAll(name string, perm FileMode) error {
	p := clean(name)
	if n := nodes[p]; n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if err := MkdirAll(path.Dir(p), perm); err != nil {
		return err
	}
	return Mkdir(p, perm)
}

//go:norace
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, post, _ := strings.Cut(pattern, "*")
	tmpSeq++
	name := path.Join(dir, pre+"sim"+string(rune('a'+tmpSeq%26))+post)
	for nodes[clean(name)] != nil {
		name += "x"
	}
	if err := Mkdir(name, 0o700); err != nil {
		return "", err
	}
	return name, nil
}

//go:norace
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, post, _ := strings.Cut(pattern, "*")
	tmpSeq++
	name := path.Join(dir, pre+"sim"+string(rune('a'+tmpSeq%26))+post)
	for nodes[clean(name)] != nil {
		name += "x"
	}
	return OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0o600)
}

func TempDir() string { return "/tmp" }

//go:norace
func Remove(name string) error {
	p := clean(name)
	if _, err := hook("remove", p, 0); err != nil {
		return perr("remove", name, err)
	}
	if nodes[p] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	for k := range nodes {
		if path.Dir(k) == p && k != "/" {
			return perr("remove", name, syscall.ENOTEMPTY)
		}
	}
	delete(nodes, p)
	crash()
	return nil
}

//go:norace
func RemoveAll(name string) error {
	p := clean(name)
	if _, err := hook("remove", p, 0); err != nil {
		return perr("unlinkat", name, err)
	}
	for k := range nodes {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(nodes, k)
		}
	}
	crash()
	return nil
}

//go:norace
func Rename(a, b string) error {
	pa, pb := clean(a), clean(b)
	if _, err := hook("rename", pa, 0); err != nil {
		return perr("rename", a, err)
	}
	n := nodes[pa]
	if n == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	delete(nodes, pa)
	nodes[pb] = n
	crash()
	return nil
}

func IsNotExist(err error) bool   { return errors.Is(err, fs.ErrNotExist) }
func IsExist(err error) bool      { return errors.Is(err, fs.ErrExist) }
func IsPermission(err error) bool { return errors.Is(err, fs.ErrPermission) }

func Exit(code int) { panic(Exited{code}) }

func Getenv(k string) string { return env[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := env[k]
	return v, ok
}
func Setenv(k, v string) error     { env[k] = v; return nil }
func Getpid() int                  { return 1 }
func Getwd() (string, error)       { return "/work", nil }
func Hostname() (string, error)    { return "sim", nil }
func Executable() (string, error)  { return "/work/simulated", nil }
func UserHomeDir() (string, error) { return "/work", nil }
