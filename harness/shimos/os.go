// Package os stands in for the standard library's: files live in memory, and nothing
// outside the process is touched.
package os

import (
	"errors"
	"io"
	"io/fs"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type (
	FileInfo  = fs.FileInfo
	FileMode  = fs.FileMode
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
)

const (
	ModeDir        = fs.ModeDir
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeCharDevice = fs.ModeCharDevice
	ModePerm       = fs.ModePerm
	ModeType       = fs.ModeType

	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_TRUNC  = 0x200

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrInvalid    = fs.ErrInvalid
	ErrClosed     = fs.ErrClosed

	Args = []string{"thema"}

	Stdin, Stdout, Stderr *File
)

// The state of the stand-in.
var (
	files map[string][]byte
	env   map[string]string
	// Written has the paths written to, in order.
	Written []string
	Cwd     = "/vfs"
)

// ExitCode is what Exit panics with.
type ExitCode int

// Reset makes an empty file system, with the given standard input (a pipe) or none.
func Reset(stdin []byte, piped bool) {
	files = map[string][]byte{}
	env = map[string]string{}
	Written = nil
	mode := ModeCharDevice
	if piped {
		mode = ModeNamedPipe
	}
	Stdin = &File{name: "/dev/stdin", data: stdin, mode: mode}
	Stdout = &File{name: "/dev/stdout", w: true, mode: ModeCharDevice}
	Stderr = &File{name: "/dev/stderr", w: true, mode: ModeCharDevice}
}

// Put makes a file.
func Put(path string, b []byte) { files[path] = b }

// Paths lists all files.
func Paths() (out []string) {
	for p := range files {
		out = append(out, p)
	}
	sort.Strings(out)
	return
}

// Content gives the content of a file, or tells it is a directory.
func Content(path string) (b []byte, dir bool) {
	b, is := files[path]
	if !is {
		return nil, isDir(path)
	}
	return b, false
}

func abs(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(Cwd, p)
	}
	return filepath.Clean(p)
}

func isDir(p string) bool {
	if p == "/" || p == Cwd {
		return true
	}
	for f := range files {
		if strings.HasPrefix(f, p+"/") {
			return true
		}
	}
	return false
}

type info struct {
	name string
	size int
	mode FileMode
}

func (i info) Name() string               { return i.name }
func (i info) Size() int64                { return int64(i.size) }
func (i info) Mode() FileMode             { return i.mode }
func (i info) ModTime() time.Time         { return time.Time{} }
func (i info) IsDir() bool                { return i.mode&ModeDir != 0 }
func (i info) Sys() any                   { return nil }
func (i info) Type() FileMode             { return i.mode & ModeType }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func perr(op, p string, err error) error { return &PathError{Op: op, Path: p, Err: err} }

func Stat(name string) (FileInfo, error) {
	p := abs(name)
	if b, is := files[p]; is {
		return info{filepath.Base(p), len(b), 0o644}, nil
	}
	if isDir(p) {
		return info{filepath.Base(p), 0, ModeDir | 0o755}, nil
	}
	return nil, perr("stat", name, ErrNotExist)
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

var errIsDir = errors.New("is a directory")

func ReadFile(name string) ([]byte, error) {
	p := abs(name)
	if b, is := files[p]; is {
		return append([]byte{}, b...), nil
	}
	if isDir(p) {
		return nil, perr("read", name, errIsDir)
	}
	return nil, perr("open", name, ErrNotExist)
}

func WriteFile(name string, b []byte, _ FileMode) error {
	p := abs(name)
	if isDir(p) {
		return perr("open", name, errIsDir)
	}
	if !isDir(filepath.Dir(p)) {
		return perr("open", name, ErrNotExist)
	}
	files[p] = append([]byte{}, b...)
	Written = append(Written, p)
	return nil
}

func ReadDir(name string) ([]DirEntry, error) {
	p := abs(name)
	if !isDir(p) {
		return nil, perr("open", name, ErrNotExist)
	}
	var out []DirEntry
	last := ""
	for _, f := range Paths() {
		if rest := strings.TrimPrefix(f, strings.TrimSuffix(p, "/")+"/"); rest != f {
			n, sub := rest, false
			if i := strings.IndexByte(rest, '/'); i >= 0 {
				n, sub = rest[:i], true
			}
			if n == last {
				continue
			}
			last = n
			if sub {
				out = append(out, info{n, 0, ModeDir | 0o755})
			} else {
				out = append(out, info{n, len(files[f]), 0o644})
			}
		}
	}
	return out, nil
}

func Remove(name string) error {
	p := abs(name)
	if _, is := files[p]; !is {
		return perr("remove", name, ErrNotExist)
	}
	delete(files, p)
	return nil
}

func Rename(from, to string) error {
	f, t := abs(from), abs(to)
	b, is := files[f]
	if !is {
		return perr("rename", from, ErrNotExist)
	}
	delete(files, f)
	files[t] = b
	Written = append(Written, t)
	return nil
}

func Mkdir(string, FileMode) error    { return nil }
func MkdirAll(string, FileMode) error { return nil }

// File is an open file.
type File struct {
	name string
	path string
	data []byte
	off  int
	w    bool
	mode FileMode
}

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, _ FileMode) (*File, error) {
	p := abs(name)
	b, is := files[p]
	switch {
	case !is && isDir(p):
		return &File{name: name, path: p, mode: ModeDir}, nil
	case !is && flag&O_CREATE == 0:
		return nil, perr("open", name, ErrNotExist)
	case is && flag&O_EXCL != 0:
		return nil, perr("open", name, ErrExist)
	}
	f := &File{name: name, path: p, data: append([]byte{}, b...), w: flag&(O_WRONLY|O_RDWR) != 0}
	if flag&O_TRUNC != 0 {
		f.data = nil
	}
	if flag&O_APPEND != 0 {
		f.off = len(f.data)
	}
	if f.w {
		files[p] = f.data
		Written = append(Written, p)
	}
	return f, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Close() error { return nil }
func (f *File) Sync() error  { return nil }
func (f *File) Stat() (FileInfo, error) {
	return info{filepath.Base(f.name), len(f.data), f.mode}, nil
}

func (f *File) Read(b []byte) (int, error) {
	if f.mode&ModeDir != 0 {
		return 0, perr("read", f.name, errIsDir)
	}
	if f.off >= len(f.data) {
		return 0, io.EOF
	}
	n := copy(b, f.data[f.off:])
	f.off += n
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if !f.w {
		return 0, perr("write", f.name, ErrPermission)
	}
	f.data = append(f.data[:f.off:f.off], b...)
	f.off = len(f.data)
	if f.path != "" {
		files[f.path] = f.data
	}
	return len(b), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Bytes is what was written.
func (f *File) Bytes() []byte { return f.data }

func Exit(code int) { panic(ExitCode(code)) }

func Getenv(k string) string            { return env[k] }
func LookupEnv(k string) (string, bool) { v, ok := env[k]; return v, ok }
func Setenv(k, v string) error          { env[k] = v; return nil }
func Unsetenv(k string) error           { delete(env, k); return nil }
func Environ() []string                 { return nil }

func Getwd() (string, error)       { return Cwd, nil }
func Hostname() (string, error)    { return "host", nil }
func TempDir() string              { return "/tmp" }
func UserHomeDir() (string, error) { return "/root", nil }

func IsNotExist(err error) bool   { return errors.Is(err, ErrNotExist) }
func IsExist(err error) bool      { return errors.Is(err, ErrExist) }
func IsPermission(err error) bool { return errors.Is(err, ErrPermission) }
