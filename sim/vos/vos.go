// Package os is a simulated operating system for commands: an in-memory disk
// whose operations fail, fall short or lose data when the fault plan says so.
package os

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/oov/psd/verifsim/vsim"
)

type (
	FileInfo  = os.FileInfo
	FileMode  = os.FileMode
	PathError = os.PathError
	DirEntry  = os.DirEntry
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC
)

// Args is the simulated command line.
var Args = []string{"psdexporter"}

// Stdin, Stdout and Stderr are simulated.
var (
	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}
)

// Inode is one simulated file.
type Inode struct {
	Name    string
	Data    []byte
	Dir     bool
	Gone    bool
	Created bool // created or truncated in this run
	Open    int
}

// Plan decides faults: it is asked before every operation.
type Plan interface {
	// Fault returns the error to inject into operation op on name and, for
	// reads and writes, how many of n bytes are still transferred.
	Fault(op, name string, n int) (err error, transfer int, lose int)
}

// Disk is the simulated disk.
type Disk struct {
	Nodes []*Inode
	Plan  Plan
	Ops   int
	Log   []string
	Cwd   string
	temp  int
}

// ExitCode is the panic value of a simulated os.Exit.
type ExitCode struct{ Code int }

var disk *Disk

// SetDisk installs the disk of the run.
//
//go:norace
func SetDisk(d *Disk) { disk = d }

//go:norace
func (d *Disk) clean(name string) string {
	name = strings.TrimPrefix(name, d.Cwd+"/")
	for strings.HasPrefix(name, "./") {
		name = name[2:]
	}
	return strings.ReplaceAll(name, "/./", "/")
}

// Find returns the inode of that name.
//
//go:norace
func (d *Disk) Find(name string) *Inode {
	name = d.clean(name)
	for _, n := range d.Nodes {
		if !n.Gone && n.Name == name {
			return n
		}
	}
	return nil
}

// Put stores a file without faults.
//
//go:norace
func (d *Disk) Put(name string, data []byte) *Inode {
	n := &Inode{Name: name, Data: data}
	d.Nodes = append(d.Nodes, n)
	return n
}

//go:norace
func (d *Disk) fault(op, name string, n int) (error, int, int) {
	vsim.SyncPoint()
	d.Ops++
	var err error
	tr, lose := n, 0
	if d.Plan != nil {
		err, tr, lose = d.Plan.Fault(op, name, n)
	}
	if len(d.Log) < 2000 {
		l := op + " " + name
		if op == "read" || op == "write" {
			l += " " + strconv.Itoa(n)
		}
		if err != nil {
			l += " -> " + err.Error()
			if op == "read" || op == "write" {
				l += " after " + strconv.Itoa(tr)
			}
		}
		if lose > 0 {
			l += " (loses " + strconv.Itoa(lose) + " bytes)"
		}
		d.Log = append(d.Log, l)
	}
	return err, tr, lose
}

// File is a simulated *os.File.
type File struct {
	name   string
	node   *Inode
	pos    int64
	flag   int
	closed bool
	std    bool
	wrote  bool
	Out    []byte
}

func perr(op, name string, err error) error { return &os.PathError{Op: op, Path: name, Err: err} }

//go:norace
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	op := "open"
	if flag&O_CREATE != 0 {
		op = "create"
	}
	if err, _, _ := disk.fault(op, name, 0); err != nil {
		return nil, perr("open", name, err)
	}
	n := disk.Find(name)
	if n != nil && n.Dir && flag&(O_WRONLY|O_RDWR) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if i := strings.LastIndexByte(disk.clean(name), '/'); i > 0 {
			if d := disk.Find(disk.clean(name)[:i]); d == nil || !d.Dir {
				return nil, perr("open", name, syscall.ENOENT)
			}
		}
		n = &Inode{Name: disk.clean(name), Created: true}
		disk.Nodes = append(disk.Nodes, n)
	} else if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if flag&O_TRUNC != 0 {
		n.Data = nil
		n.Created = true
	}
	n.Open++
	return &File{name: name, node: n, flag: flag}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

//go:norace
func (f *File) bad(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

//go:norace
func (f *File) Read(p []byte) (int, error) {
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := 0
	avail := int64(len(f.node.Data)) - f.pos
	if avail > 0 {
		n = len(p)
		if int64(n) > avail {
			n = int(avail)
		}
	}
	err, tr, _ := disk.fault("read", f.name, n)
	if tr < n {
		n = tr
	}
	if n > 0 {
		copy(p[:n], f.node.Data[f.pos:])
		f.pos += int64(n)
	}
	if err != nil {
		return n, perr("read", f.name, err)
	}
	if n == 0 && avail <= 0 {
		return 0, io.EOF
	}
	return n, nil
}

//go:norace
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	o := f.pos
	f.pos = off
	n, err := io.ReadFull(f, p)
	f.pos = o
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}

//go:norace
func (f *File) Write(p []byte) (int, error) {
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	if f.std {
		f.Out = append(f.Out, p...)
		return len(p), nil
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	n := len(p)
	err, tr, _ := disk.fault("write", f.name, n)
	if tr < n {
		n = tr
	}
	if f.flag&O_APPEND != 0 {
		f.pos = int64(len(f.node.Data))
	}
	end := f.pos + int64(n)
	if end > int64(len(f.node.Data)) {
		d := make([]byte, end)
		copy(d, f.node.Data)
		f.node.Data = d
	}
	copy(f.node.Data[f.pos:], p[:n])
	f.pos = end
	f.wrote = true
	if err != nil {
		return n, perr("write", f.name, err)
	}
	if n < len(p) {
		return n, io.ErrShortWrite
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

//go:norace
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	o := f.pos
	f.pos = off
	n, err := f.Write(p)
	f.pos = o
	return n, err
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

//go:norace
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.bad("seek"); err != nil {
		return 0, err
	}
	if err, _, _ := disk.fault("seek", f.name, 0); err != nil {
		return 0, perr("seek", f.name, err)
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.node.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}

//go:norace
func (f *File) Sync() error {
	if err := f.bad("sync"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	err, _, lose := disk.fault("sync", f.name, 0)
	f.node.lose(lose)
	if err != nil {
		return perr("sync", f.name, err)
	}
	return nil
}

//go:norace
func (n *Inode) lose(k int) {
	if k > 0 {
		if k > len(n.Data) {
			k = len(n.Data)
		}
		n.Data = n.Data[:len(n.Data)-k]
	}
}

//go:norace
func (f *File) Close() error {
	if err := f.bad("close"); err != nil {
		return err
	}
	f.closed = true
	if f.std {
		return nil
	}
	f.node.Open--
	op := "close"
	if f.wrote {
		op = "close-written"
	}
	err, _, lose := disk.fault(op, f.name, 0)
	f.node.lose(lose)
	if err != nil {
		return perr("close", f.name, err)
	}
	return nil
}

//go:norace
func (f *File) Truncate(size int64) error {
	if err := f.bad("truncate"); err != nil {
		return err
	}
	if err, _, _ := disk.fault("truncate", f.name, 0); err != nil {
		return perr("truncate", f.name, err)
	}
	d := make([]byte, size)
	copy(d, f.node.Data)
	f.node.Data = d
	return nil
}
func (f *File) Chmod(FileMode) error { return nil }

type info struct {
	name string
	size int64
	dir  bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i info) ModTime() time.Time { return time.Unix(0, 0) }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }

//go:norace
func (n *Inode) info() FileInfo {
	return info{n.Name[strings.LastIndexByte(n.Name, '/')+1:], int64(len(n.Data)), n.Dir}
}

//go:norace
func (f *File) Stat() (FileInfo, error) {
	if err := f.bad("stat"); err != nil {
		return nil, err
	}
	if f.std {
		return info{name: f.name}, nil
	}
	if err, _, _ := disk.fault("stat", f.name, 0); err != nil {
		return nil, perr("stat", f.name, err)
	}
	return f.node.info(), nil
}

//go:norace
func Stat(name string) (FileInfo, error) {
	if err, _, _ := disk.fault("stat", name, 0); err != nil {
		return nil, perr("stat", name, err)
	}
	if n := disk.Find(name); n != nil {
		return n.info(), nil
	}
	return nil, perr("stat", name, syscall.ENOENT)
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }

//go:norace
func Remove(name string) error {
	if err, _, _ := disk.fault("remove", name, 0); err != nil {
		return perr("remove", name, err)
	}
	n := disk.Find(name)
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	n.Gone = true
	return nil
}

//go:norace
func RemoveAll(name string) error {
	p := disk.clean(name)
	for _, n := range disk.Nodes {
		if n.Name == p || strings.HasPrefix(n.Name, p+"/") {
			n.Gone = true
		}
	}
	return nil
}

//go:norace
func Rename(a, b string) error {
	if err, _, _ := disk.fault("rename", a, 0); err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	n := disk.Find(a)
	if n == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if o := disk.Find(b); o != nil && o != n {
		if o.Dir {
			return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
		}
		o.Gone = true
	}
	n.Name = disk.clean(b)
	return nil
}

//go:norace
func Mkdir(name string, perm FileMode) error {
	if err, _, _ := disk.fault("mkdir", name, 0); err != nil {
		return perr("mkdir", name, err)
	}
	if disk.Find(name) != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	disk.Nodes = append(disk.Nodes, &Inode{Name: disk.clean(name), Dir: true})
	return nil
}

//go:norace
func MkdirAll(name string, perm FileMode) error {
	p := disk.clean(name)
	for i := 1; i <= len(p); i++ {
		if i == len(p) || p[i] == '/' {
			if disk.Find(p[:i]) == nil {
				if err := Mkdir(p[:i], perm); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

//go:norace
func CreateTemp(dir, pattern string) (*File, error) {
	disk.temp++
	s := "tmp" + strconv.Itoa(disk.temp)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pattern = pattern[:i] + s + pattern[i+1:]
	} else {
		pattern += s
	}
	if dir != "" && dir != "." {
		pattern = dir + "/" + pattern
	}
	return OpenFile(pattern, O_RDWR|O_CREATE|O_EXCL, 0600)
}

// Names lists the files on the disk.
//
//go:norace
func (d *Disk) Names() []string {
	var out []string
	for _, n := range d.Nodes {
		if !n.Gone && !n.Dir {
			out = append(out, n.Name)
		}
	}
	sort.Strings(out)
	return out
}

func Exit(code int)                { panic(ExitCode{code}) }
func Getwd() (string, error)       { return disk.Cwd, nil }
func TempDir() string              { return "." }
func Getpid() int                  { return 1 }
func IsNotExist(err error) bool    { return errors.Is(err, fs.ErrNotExist) }
func IsExist(err error) bool       { return errors.Is(err, fs.ErrExist) }
func IsPermission(err error) bool  { return errors.Is(err, fs.ErrPermission) }
func Chmod(string, FileMode) error { return nil }
