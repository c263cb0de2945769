// Package vos stands in for package os in instrumented code. It does what os
// does and, for files under the directory of the installed hook, tells the
// hook about every operation, which may delay it or make it fail. Modification
// times are those of the clock of the calling goroutine (virtual in a bubble).
package vos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Op is a file system operation.
type Op struct {
	Kind  string // create write truncate sync dirsync close rename remove stat open readdir read other
	Name  string
	To    string
	Ino   int
	Off   int64
	Data  []byte
	Short int // bytes to write before failing
}

// Hook observes the operations on files under Dir.
type Hook struct {
	Dir    string
	Before func(*Op) error
	After  func(*Op, error)
}

var hook atomic.Pointer[Hook]

// Set installs h (nil removes it).
func Set(h *Hook) { hook.Store(h) }

// Used counts hooked operations: zero means the code does not go through vos.
var Used atomic.Int64

func (h *Hook) under(name string) bool {
	return name == h.Dir || strings.HasPrefix(name, h.Dir+"/")
}

func do(op *Op, f func() error) error {
	h := hook.Load()
	if h == nil || !(h.under(op.Name) || op.To != "" && h.under(op.To)) {
		return f()
	}
	Used.Add(1)
	if err := h.Before(op); err != nil {
		err = &fs.PathError{Op: op.Kind, Path: op.Name, Err: err}
		opMu.Lock()
		defer opMu.Unlock()
		if op.Short > 0 {
			f()
		}
		h.After(op, err)
		return err
	}
	opMu.Lock()
	defer opMu.Unlock()
	err := f()
	h.After(op, err)
	return err
}

// opMu makes an operation and telling the hook about it one step.
var opMu sync.Mutex

// File is os.File, observed.
type File struct {
	*os.File
	ino int
	dir bool
	off int64
	app bool
}

var (
	inoMu sync.Mutex
	inos  = map[[2]uint64]int{}
	nino  int
)

// ino numbers the file open at f, 0 if it is not a regular file.
func ino(f *os.File) int {
	fi, err := f.Stat()
	if err != nil || !fi.Mode().IsRegular() {
		return 0
	}
	st, ok := fi.Sys().(*syscall.Stat_t)
	if !ok {
		return 0
	}
	inoMu.Lock()
	defer inoMu.Unlock()
	k := [2]uint64{uint64(st.Dev), st.Ino}
	if inos[k] == 0 {
		nino++
		inos[k] = nino
	}
	return inos[k]
}

// fresh gives the newly created file at f a new number (the file system may
// have used its inode before).
func fresh(f *os.File) int {
	fi, err := f.Stat()
	if err != nil {
		return 0
	}
	st, ok := fi.Sys().(*syscall.Stat_t)
	if !ok {
		return 0
	}
	inoMu.Lock()
	defer inoMu.Unlock()
	nino++
	inos[[2]uint64{uint64(st.Dev), st.Ino}] = nino
	return nino
}

func wrap(f *os.File) *File {
	if f == nil {
		return nil
	}
	fi, err := f.Stat()
	return &File{File: f, ino: ino(f), dir: err == nil && fi.IsDir()}
}

func touch(f *os.File) {
	now := time.Now().UnixNano()
	tv := []syscall.Timeval{syscall.NsecToTimeval(now), syscall.NsecToTimeval(now)}
	syscall.Futimes(int(f.Fd()), tv)
}

// Open opens a file for reading.
func Open(name string) (f *File, err error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create creates or truncates a file.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	var f *os.File
	_, serr := os.Lstat(name)
	is := serr == nil
	op := &Op{Kind: "open", Name: name}
	if flag&os.O_CREATE != 0 && !is {
		op.Kind = "create"
	}
	err := do(op, func() (err error) {
		if f, err = os.OpenFile(name, flag, perm); err != nil {
			return err
		}
		if op.Kind == "create" {
			op.Ino = fresh(f)
			touch(f)
		} else {
			op.Ino = ino(f)
		}
		return nil
	})
	if err != nil {
		if f != nil {
			f.Close()
		}
		return nil, err
	}
	w := wrap(f)
	w.app = flag&os.O_APPEND != 0
	if flag&os.O_TRUNC != 0 && is && w.ino != 0 {
		do(&Op{Kind: "truncate", Name: name, Ino: w.ino}, func() error { touch(f); return nil })
	}
	return w, nil
}

// CreateTemp is os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	var f *os.File
	op := &Op{Kind: "create", Name: dir}
	err := do(op, func() (err error) {
		if f, err = os.CreateTemp(dir, pattern); err == nil {
			op.Name, op.Ino = f.Name(), fresh(f)
			touch(f)
		}
		return err
	})
	if err != nil {
		return nil, err
	}
	return wrap(f), nil
}

// Write implementation.
func (f *File) Write(p []byte) (int, error) {
	if f.app {
		if fi, err := f.File.Stat(); err == nil {
			f.off = fi.Size()
		}
	}
	n, err := f.write(p, func(p []byte) (int, error) { return f.File.Write(p) }, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) write(p []byte, w func([]byte) (int, error), off int64) (n int, err error) {
	op := &Op{Kind: "write", Name: f.Name(), Ino: f.ino, Off: off, Data: p}
	err = do(op, func() (err error) {
		q := p
		if op.Short > 0 && op.Short < len(p) {
			q = p[:op.Short]
		}
		n, err = w(q)
		op.Data = p[:n]
		touch(f.File)
		return err
	})
	return n, err
}

// WriteAt implementation.
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	return f.write(p, func(p []byte) (int, error) { return f.File.WriteAt(p, off) }, off)
}

// WriteString implementation.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Seek implementation.
func (f *File) Seek(off int64, whence int) (int64, error) {
	n, err := f.File.Seek(off, whence)
	if err == nil {
		f.off = n
	}
	return n, err
}

type onlyWriter struct{ io.Writer }

// ReadFrom implementation.
func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }

// Truncate implementation.
func (f *File) Truncate(n int64) error {
	return do(&Op{Kind: "truncate", Name: f.Name(), Ino: f.ino, Off: n}, func() error {
		err := f.File.Truncate(n)
		touch(f.File)
		return err
	})
}

// Sync implementation.
func (f *File) Sync() error {
	kind := "sync"
	if f.dir {
		kind = "dirsync"
	}
	return do(&Op{Kind: kind, Name: f.Name(), Ino: f.ino}, func() error {
		if hook.Load() != nil { // what is on disk is the hook's business
			_, err := f.File.Stat()
			return err
		}
		return f.File.Sync()
	})
}

// Close implementation.
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	err := do(&Op{Kind: "close", Name: f.Name(), Ino: f.ino}, f.File.Close)
	if err != nil {
		f.File.Close()
	}
	return err
}

// Stat implementation.
func (f *File) Stat() (fi os.FileInfo, err error) {
	err = do(&Op{Kind: "stat", Name: f.Name(), Ino: f.ino}, func() error { fi, err = f.File.Stat(); return err })
	return fi, err
}

// Readdirnames implementation.
func (f *File) Readdirnames(n int) (names []string, err error) {
	err = do(&Op{Kind: "readdir", Name: f.Name()}, func() error { names, err = f.File.Readdirnames(n); return err })
	return names, err
}

// Readdir implementation.
func (f *File) Readdir(n int) (fi []os.FileInfo, err error) {
	err = do(&Op{Kind: "readdir", Name: f.Name()}, func() error { fi, err = f.File.Readdir(n); return err })
	return fi, err
}

// ReadDir implementation.
func (f *File) ReadDir(n int) (de []os.DirEntry, err error) {
	err = do(&Op{Kind: "readdir", Name: f.Name()}, func() error { de, err = f.File.ReadDir(n); return err })
	return de, err
}

// ReadFile opens and reads a file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.File.Close()
	var b []byte
	err = do(&Op{Kind: "read", Name: name, Ino: f.ino}, func() error {
		b, err = io.ReadAll(f.File)
		if b == nil {
			b = []byte{}
		}
		return err
	})
	return b, err
}

// WriteFile writes a file, in the steps the system takes.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if cerr := f.Close(); cerr != nil && err == nil {
		err = cerr
	}
	return err
}

// Rename is os.Rename.
func Rename(a, b string) error {
	return do(&Op{Kind: "rename", Name: a, To: b}, func() error { return os.Rename(a, b) })
}

// Remove is os.Remove.
func Remove(name string) error {
	return do(&Op{Kind: "remove", Name: name}, func() error { return os.Remove(name) })
}

// RemoveAll removes what is at name.
func RemoveAll(name string) error {
	fi, err := os.Lstat(name)
	if err != nil {
		if errors.Is(err, fs.ErrNotExist) {
			return nil
		}
		return err
	}
	if fi.IsDir() {
		es, _ := os.ReadDir(name)
		for _, e := range es {
			if err := RemoveAll(filepath.Join(name, e.Name())); err != nil {
				return err
			}
		}
	}
	return Remove(name)
}

// Truncate is os.Truncate.
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.File.Close()
	return f.Truncate(n)
}

// Link is os.Link.
func Link(a, b string) error {
	return do(&Op{Kind: "link", Name: a, To: b}, func() error { return os.Link(a, b) })
}

// Stat is os.Stat.
func Stat(name string) (fi os.FileInfo, err error) {
	err = do(&Op{Kind: "stat", Name: name}, func() error { fi, err = os.Stat(name); return err })
	return fi, err
}

// Lstat is os.Lstat.
func Lstat(name string) (fi os.FileInfo, err error) {
	err = do(&Op{Kind: "stat", Name: name}, func() error { fi, err = os.Lstat(name); return err })
	return fi, err
}

// ReadDir is os.ReadDir.
func ReadDir(name string) (de []os.DirEntry, err error) {
	err = do(&Op{Kind: "readdir", Name: name}, func() error { de, err = os.ReadDir(name); return err })
	return de, err
}

// NewFile is os.NewFile.
func NewFile(fd uintptr, name string) *File { return wrap(os.NewFile(fd, name)) }

// Ino is the number of the file at name.
func Ino(name string) int {
	f, err := os.Open(name)
	if err != nil {
		return 0
	}
	defer f.Close()
	return ino(f)
}
