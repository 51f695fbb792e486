// Package simos stands in for package os: an in-memory file system whose every
// operation can be made to fail, fall short or be torn by a crash.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/rmera/boo/zsim/simrt"
)

type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	PathError    = os.PathError
	DirEntry     = os.DirEntry
	Signal       = os.Signal
	SyscallError = os.SyscallError
)

const (
	O_RDONLY      = os.O_RDONLY
	O_WRONLY      = os.O_WRONLY
	O_RDWR        = os.O_RDWR
	O_APPEND      = os.O_APPEND
	O_CREATE      = os.O_CREATE
	O_EXCL        = os.O_EXCL
	O_SYNC        = os.O_SYNC
	O_TRUNC       = os.O_TRUNC
	ModePerm      = os.ModePerm
	ModeDir       = os.ModeDir
	DevNull       = os.DevNull
	PathSeparator = os.PathSeparator
)

var (
	ErrNotExist   = os.ErrNotExist
	ErrExist      = os.ErrExist
	ErrPermission = os.ErrPermission
	ErrClosed     = os.ErrClosed
	ErrInvalid    = os.ErrInvalid
	Args          = []string{"sim"}
	Stdin         = &File{name: "stdin", std: true}
	Stdout        = &File{name: "stdout", std: true}
	Stderr        = &File{name: "stderr", std: true}
	Interrupt     = os.Interrupt
)

// Node is a stored file.
type Node struct {
	Data   []byte
	Synced int // bytes known durable
}

// FS is the simulated disk.
type FS struct {
	Files   map[string]*Node
	Handles map[*File]bool
	Opened  int
	Closed  int
	Frozen  bool
	Fired   map[string]int
	// Fault decides, before each operation, whether it fails. It returns the
	// number of bytes to process first (for reads and writes; -1: all) and the
	// error to return (nil: none).
	Fault func(op, name string, n int) (int, error)
	// OnOp is told about every operation (crash points).
	OnOp func(op, name string)
	// Log of successful mutations.
	Created []string
}

// Disk is the file system of the run in progress.
var Disk = NewFS()

// NewFS makes an empty disk.
func NewFS() *FS {
	return &FS{Files: map[string]*Node{}, Handles: map[*File]bool{}, Fired: map[string]int{}}
}

// OpenHandles lists the files that are still open.
func (d *FS) OpenHandles() []string {
	var out []string
	for f := range d.Handles {
		out = append(out, f.name)
	}
	sort.Strings(out)
	return out
}

// File is an open simulated file.
type File struct {
	name   string
	n      *Node
	off    int
	rd, wr bool
	app    bool
	closed bool
	std    bool
}

func clean(n string) string { return strings.TrimPrefix(path.Clean(n), "./") }

func perr(op, name string, err error) error { return &PathError{Op: op, Path: name, Err: err} }

func begin(op, name string, n int) (int, error) {
	if simrt.Active() && !simrt.Dead() {
		simrt.SyncPoint(40, simrt.HashString(op)&0xff)
		simrt.Logf("os.%s %s %d", op, name, n)
	}
	if Disk.Frozen {
		return 0, syscall.EIO
	}
	if Disk.OnOp != nil {
		Disk.OnOp(op, name)
	}
	if Disk.Fault != nil {
		k, err := Disk.Fault(op, name, n)
		if err != nil || k >= 0 && k < n {
			Disk.Fired[op]++
		}
		return k, err
	}
	return -1, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	op := "open"
	if flag&O_CREATE != 0 {
		op = "create"
	}
	if _, err := begin(op, name, 0); err != nil {
		return nil, perr("open", name, err)
	}
	key := clean(name)
	n := Disk.Files[key]
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &Node{}
		Disk.Files[key] = n
		Disk.Created = append(Disk.Created, key)
	} else if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if flag&O_TRUNC != 0 {
		n.Data, n.Synced = nil, 0
		Disk.Created = append(Disk.Created, key)
	}
	f := &File{name: name, n: n, app: flag&O_APPEND != 0}
	switch flag & 3 {
	case O_RDONLY:
		f.rd = true
	case O_WRONLY:
		f.wr = true
	default:
		f.rd, f.wr = true, true
	}
	Disk.Handles[f] = true
	Disk.Opened++
	return f, nil
}

func (f *File) Name() string { return f.name }

func (f *File) ok(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, io.EOF
	}
	if !f.rd {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(p) == 0 {
		return 0, nil
	}
	avail := len(f.n.Data) - f.off
	if avail < 0 {
		avail = 0
	}
	if avail > len(p) {
		avail = len(p)
	}
	k, err := begin("read", f.name, avail)
	if k >= 0 && k < avail {
		avail = k
	}
	if err != nil && avail == 0 {
		return 0, perr("read", f.name, err)
	}
	copy(p, f.n.Data[f.off:f.off+avail])
	f.off += avail
	if err != nil {
		return avail, perr("read", f.name, err)
	}
	if avail == 0 {
		if f.off >= len(f.n.Data) {
			return 0, io.EOF
		}
		return 0, nil
	}
	return avail, nil
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	g := *f
	g.off = int(off)
	n := 0
	for n < len(p) {
		k, err := g.Read(p[n:])
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	if f.std {
		return len(p), nil
	}
	if !f.wr {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	k, err := begin("write", f.name, len(p))
	n := len(p)
	if k >= 0 && k < n {
		n = k
		if err == nil {
			err = syscall.ENOSPC
		}
	} else if err != nil {
		n = 0
	}
	if f.app {
		f.off = len(f.n.Data)
	}
	for len(f.n.Data) < f.off {
		f.n.Data = append(f.n.Data, 0)
	}
	f.n.Data = append(f.n.Data[:f.off:f.off], append(append([]byte(nil), p[:n]...), f.n.Data[min(f.off+n, len(f.n.Data)):]...)...)
	f.off += n
	if err != nil {
		return n, perr("write", f.name, err)
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	o := f.off
	f.off = int(off)
	n, err := f.Write(p)
	f.off = o
	return n, err
}

func (f *File) Seek(off int64, wh int) (int64, error) {
	if err := f.ok("seek"); err != nil {
		return 0, err
	}
	switch wh {
	case io.SeekStart:
		f.off = int(off)
	case io.SeekCurrent:
		f.off += int(off)
	default:
		f.off = len(f.n.Data) + int(off)
	}
	return int64(f.off), nil
}

func (f *File) Truncate(n int64) error {
	if err := f.ok("truncate"); err != nil {
		return err
	}
	for int64(len(f.n.Data)) < n {
		f.n.Data = append(f.n.Data, 0)
	}
	f.n.Data = f.n.Data[:n]
	return nil
}

func (f *File) Sync() error {
	if err := f.ok("sync"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	if _, err := begin("sync", f.name, 0); err != nil {
		return perr("sync", f.name, err)
	}
	f.n.Synced = len(f.n.Data)
	return nil
}

func (f *File) Close() error {
	if err := f.ok("close"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	_, err := begin("close", f.name, 0)
	if !Disk.Frozen {
		f.closed = true
		delete(Disk.Handles, f)
		Disk.Closed++
	}
	if err != nil {
		return perr("close", f.name, err)
	}
	return nil
}

type info struct {
	name string
	size int
}

func (i info) Name() string       { return path.Base(i.name) }
func (i info) Size() int64        { return int64(i.size) }
func (i info) Mode() fs.FileMode  { return 0o644 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

func (f *File) Stat() (FileInfo, error) {
	if err := f.ok("stat"); err != nil {
		return nil, err
	}
	return info{f.name, len(f.n.Data)}, nil
}

func (f *File) Chmod(FileMode) error { return nil }
func (f *File) Fd() uintptr          { return ^uintptr(0) }

func Stat(name string) (FileInfo, error) {
	if _, err := begin("stat", name, 0); err != nil {
		return nil, perr("stat", name, err)
	}
	n := Disk.Files[clean(name)]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{name, len(n.Data)}, nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, b []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Remove(name string) error {
	if _, err := begin("remove", name, 0); err != nil {
		return perr("remove", name, err)
	}
	if Disk.Files[clean(name)] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(Disk.Files, clean(name))
	return nil
}

func RemoveAll(name string) error {
	c := clean(name)
	for k := range Disk.Files {
		if k == c || strings.HasPrefix(k, c+"/") {
			delete(Disk.Files, k)
		}
	}
	return nil
}

func Rename(a, b string) error {
	if _, err := begin("rename", a, 0); err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	n := Disk.Files[clean(a)]
	if n == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(Disk.Files, clean(a))
	Disk.Files[clean(b)] = n
	Disk.Created = append(Disk.Created, clean(b))
	return nil
}

var tmpn int

func CreateTemp(dir, pat string) (*File, error) {
	tmpn = len(Disk.Files)
	for {
		tmpn++
		name := path.Join(dir, strings.Replace(pat, "*", fmt.Sprint(tmpn), 1))
		if !strings.Contains(pat, "*") {
			name = path.Join(dir, pat+fmt.Sprint(tmpn))
		}
		if Disk.Files[clean(name)] == nil {
			return OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0o600)
		}
	}
}

func MkdirTemp(dir, pat string) (string, error) { return path.Join(dir, pat+"1"), nil }
func Mkdir(string, FileMode) error              { return nil }
func MkdirAll(string, FileMode) error           { return nil }
func Chmod(string, FileMode) error              { return nil }
func Chdir(string) error                        { return nil }
func Getwd() (string, error)                    { return "/", nil }
func TempDir() string                           { return "/tmp" }
func Getenv(string) string                      { return "" }
func LookupEnv(string) (string, bool)           { return "", false }
func Setenv(string, string) error               { return nil }
func Getpid() int                               { return 1 }
func Hostname() (string, error)                 { return "sim", nil }
func IsNotExist(err error) bool                 { return errors.Is(err, ErrNotExist) }
func IsExist(err error) bool                    { return errors.Is(err, ErrExist) }
func IsPermission(err error) bool               { return errors.Is(err, ErrPermission) }
func Exit(code int)                             { panic(fmt.Sprintf("os.Exit(%d)", code)) }
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}
