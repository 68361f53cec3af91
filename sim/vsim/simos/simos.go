// Package simos has the file API of package os on a simulated disk with fault
// injection.  It never touches the real file system.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/go-latex/latex/vsim"
)

// Fault makes the Nth operation (from 1) of kind Op fail.
type Fault struct {
	Op    string `json:"op"` // open, write, close, sync, rename, ...
	Nth   int    `json:"nth"`
	Short int    `json:"short,omitempty"` // bytes a failing write still stores; bytes a failing close loses
	Err   string `json:"err"`
	// Stick keeps failing from the Nth operation on.
	Stick bool `json:"stick,omitempty"`
}

// Disk is a simulated disk.
type Disk struct {
	nodes  []*inode
	Plan   []Fault
	Cap    int64  // total bytes; 0: unlimited
	Crash  int    // the process is killed at this operation (from 1); 0: never
	Sig    string // by this signal, which it may handle
	counts []count
	Fired  []string // faults that took effect, by kind
	Errs   []error  // the errors they reported
	Ops    int
	Dead   bool // the simulated process is gone
	Log    []string
	Open   int // files that are open
	tmp    int
	Wd     string // working directory of the process, if it was changed
}

type count struct {
	op string
	n  int
}

type inode struct {
	name string
	data []byte
	dir  bool
	mode fs.FileMode
	link string
	dev  bool
}

var disk = NewDisk()

// NewDisk returns an empty disk with a working directory.
func NewDisk() *Disk {
	d := &Disk{}
	for _, n := range []string{"/", "/w", "/tmp"} {
		d.nodes = append(d.nodes, &inode{name: n, dir: true, mode: fs.ModeDir | 0o755})
	}
	return d
}

// Arm sets what goes wrong from now on; operations are counted anew.
func (d *Disk) Arm(plan []Fault, cap int64, crash int) {
	d.Plan, d.Cap, d.Crash = plan, cap, crash
	d.counts, d.Ops, d.Sig = nil, 0, ""
}

// Mount makes d the disk of the simulated process.
func Mount(d *Disk) { disk = d }

// Errno maps a name to an error.
func Errno(name string) error {
	switch name {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EIO":
		return syscall.EIO
	case "EDQUOT":
		return syscall.EDQUOT
	case "EACCES":
		return syscall.EACCES
	case "EROFS":
		return syscall.EROFS
	case "EMFILE":
		return syscall.EMFILE
	case "EINTR":
		return syscall.EINTR
	case "ENOENT":
		return syscall.ENOENT
	}
	return errors.New(name)
}

// Exited is the panic value of a simulated os.Exit.
type Exited struct{ Code int }

// Killed is the panic value of a simulated crash.
type Killed struct{}

// Exit is os.Exit: the process stops having effects, deferred calls included.
func Exit(code int) {
	disk.Dead = true
	vsim.Exit(Exited{code})
}

func Fatal(v ...any)                 { log.Output(2, fmt.Sprint(v...)); Exit(1) }
func Fatalf(format string, v ...any) { log.Output(2, fmt.Sprintf(format, v...)); Exit(1) }
func Fatalln(v ...any)               { log.Output(2, fmt.Sprintln(v...)); Exit(1) }

func abs(name string) string {
	if !strings.HasPrefix(name, "/") {
		wd := "/w"
		if disk.Wd != "" {
			wd = disk.Wd
		}
		name = wd + "/" + name
	}
	return filepath.Clean(name)
}

// home is a name as the caller means it, wherever the code under test is.
func home(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = "/w/" + name
	}
	return name
}

func (d *Disk) find(name string) *inode {
	name = abs(name)
	for i := 0; i < 8; i++ {
		var f *inode
		for _, n := range d.nodes {
			if n.name == name {
				f = n
				break
			}
		}
		if f == nil || f.link == "" {
			return f
		}
		name = f.link
	}
	return nil
}

// Put stores a file (harness).
func (d *Disk) Put(name string, data []byte) {
	defer order()()
	name = home(name)
	if p := d.find(filepath.Dir(abs(name))); p == nil || !p.dir {
		return
	}
	n := &inode{name: abs(name), data: append([]byte(nil), data...), mode: 0o644}
	d.nodes = append(d.nodes, n)
}

// Get returns the content of a file (harness).
func (d *Disk) Get(name string) ([]byte, bool) {
	defer order()()
	n := d.find(home(name))
	if n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// Names lists the regular files (harness).
func (d *Disk) Names() []string {
	defer order()()
	var out []string
	for _, n := range d.nodes {
		if !n.dir {
			out = append(out, n.name)
		}
	}
	return out
}

func (d *Disk) used() int64 {
	var n int64
	for _, f := range d.nodes {
		n += int64(len(f.data))
	}
	return n
}

// step counts an operation and returns the fault that hits it, if any.
func (d *Disk) step(op string) (*Fault, error) {
	if d.Dead {
		return nil, syscall.EIO
	}
	order()
	vsim.Point()
	order()
	d.Ops++
	if d.Crash > 0 && d.Ops == d.Crash {
		if d.Sig != "" && deliver(d.Sig) {
			d.Fired = append(d.Fired, "signal")
			return nil, nil
		}
		d.Dead = true
		d.Fired = append(d.Fired, "crash")
		vsim.Exit(Killed{})
	}
	n := 0
	for i := range d.counts {
		if d.counts[i].op == op {
			d.counts[i].n++
			n = d.counts[i].n
		}
	}
	if n == 0 {
		d.counts = append(d.counts, count{op, 1})
		n = 1
	}
	for i := range d.Plan {
		f := &d.Plan[i]
		if f.Op == op && (f.Nth == n || f.Stick && n > f.Nth) || f.Op == "any" && f.Nth == d.Ops {
			d.Fired = append(d.Fired, op+"-"+f.Err)
			err := Errno(f.Err)
			d.Errs = append(d.Errs, err)
			return f, err
		}
	}
	return nil, nil
}

// File is *os.File on the simulated disk.
type File struct {
	d      *Disk
	n      *inode
	name   string
	pos    int64
	flag   int
	closed bool
	std    *os.File
	since  int // content length at open, for lost writes
}

var (
	Stdin  = &File{name: "/dev/stdin", std: os.Stdin}
	Stdout = &File{name: "/dev/stdout", std: os.Stdout}
	Stderr = &File{name: "/dev/stderr", std: os.Stderr}
)

var ord atomic.Int32

// order makes what the disk itself keeps ordered for the happens-before
// checker, as the kernel does.
func order() func() {
	ord.Add(1)
	return func() { ord.Add(1) }
}

func perr(op, name string, err error) error {
	return &fs.PathError{Op: op, Path: name, Err: err}
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	defer order()()
	d := disk
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if _, err := d.step("open"); err != nil {
		return nil, perr("open", name, err)
	}
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	n := d.find(name)
	switch {
	case n != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, perr("open", name, syscall.EEXIST)
	case n != nil && n.dir && wr:
		return nil, perr("open", name, syscall.EISDIR)
	case n != nil && wr && n.mode&0o200 == 0:
		return nil, perr("open", name, syscall.EACCES)
	case n == nil && flag&os.O_CREATE == 0:
		return nil, perr("open", name, syscall.ENOENT)
	case n == nil:
		if p := d.find(filepath.Dir(abs(name))); p == nil {
			return nil, perr("open", name, syscall.ENOENT)
		} else if !p.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		n = &inode{name: abs(name), mode: perm}
		d.nodes = append(d.nodes, n)
	}
	if flag&os.O_TRUNC != 0 && wr {
		n.data = nil
	}
	d.Log = append(d.Log, "open "+name)
	d.Open++
	return &File{d: d, n: n, name: name, flag: flag}, nil
}

func Create(name string) (*File, error) {
	defer order()()
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func (d *Disk) tempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	d.tmp++
	id := fmt.Sprintf("%06d", d.tmp)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return filepath.Join(dir, pattern[:i]+id+pattern[i+1:])
	}
	return filepath.Join(dir, pattern+id)
}

func CreateTemp(dir, pattern string) (*File, error) {
	defer order()()
	return OpenFile(disk.tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	defer order()()
	n := disk.tempName(dir, pattern)
	return n, Mkdir(n, 0o700)
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 99 }

// StdWrites counts what was written to the standard streams.
var StdWrites int

// StdText is what was written last.
var StdText string

func (f *File) Write(p []byte) (int, error) {
	defer order()()
	if f != nil && f.std != nil {
		StdWrites++
		StdText = string(p[:min(len(p), 200)])
		return len(p), nil
	}
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	ft, err := f.d.step("write")
	n := len(p)
	if err != nil {
		n = 0
		if ft != nil && ft.Short < len(p) {
			n = ft.Short
		}
		err = perr("write", f.name, err)
	}
	if f.d.Cap > 0 {
		if room := f.d.Cap - f.d.used(); int64(n) > room {
			if room < 0 {
				room = 0
			}
			n = int(room)
			f.d.Fired = append(f.d.Fired, "full")
			f.d.Errs = append(f.d.Errs, syscall.ENOSPC)
			err = perr("write", f.name, syscall.ENOSPC)
		}
	}
	if f.flag&os.O_APPEND != 0 {
		f.pos = int64(len(f.n.data))
	}
	f.put(p[:n], f.pos)
	f.pos += int64(n)
	f.since += n
	return n, err
}

func (f *File) put(p []byte, off int64) {
	for int64(len(f.n.data)) < off {
		f.n.data = append(f.n.data, 0)
	}
	k := copy(f.n.data[off:], p)
	f.n.data = append(f.n.data, p[k:]...)
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	defer order()()
	old := f.pos
	f.pos = off
	n, err := f.Write(p)
	f.pos = old
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(p []byte) (int, error) {
	defer order()()
	if f != nil && f.std != nil {
		return 0, io.EOF
	}
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if _, err := f.d.step("read"); err != nil {
		return 0, perr("read", f.name, err)
	}
	if f.pos >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.n.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	defer order()()
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.n.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	defer order()()
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.n.data))
	}
	f.pos = off
	return off, nil
}

func (f *File) Sync() error {
	defer order()()
	if f != nil && f.std != nil {
		return nil
	}
	if err := f.check("sync"); err != nil {
		return err
	}
	if ft, err := f.d.step("sync"); err != nil {
		f.lose(ft)
		return perr("sync", f.name, err)
	}
	return nil
}

// lose drops the last bytes written: a write-back that failed.
func (f *File) lose(ft *Fault) {
	if ft == nil {
		return
	}
	n := ft.Short
	if n > len(f.n.data) {
		n = len(f.n.data)
	}
	f.n.data = f.n.data[:len(f.n.data)-n]
}

func (f *File) Close() error {
	defer order()()
	if f == nil {
		return os.ErrInvalid
	}
	if f.std != nil {
		return nil
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	f.closed = true
	f.d.Open--
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return nil
	}
	ft, err := f.d.step("close")
	if err != nil {
		f.lose(ft)
		return perr("close", f.name, err)
	}
	f.d.Log = append(f.d.Log, "close "+f.name)
	return nil
}

func (f *File) Truncate(n int64) error {
	defer order()()
	if err := f.check("truncate"); err != nil {
		return err
	}
	if _, err := f.d.step("truncate"); err != nil {
		return perr("truncate", f.name, err)
	}
	for int64(len(f.n.data)) < n {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = f.n.data[:n]
	return nil
}

func (f *File) Chmod(mode fs.FileMode) error {
	defer order()()
	if err := f.check("chmod"); err != nil {
		return err
	}
	if _, err := f.d.step("chmod"); err != nil {
		return perr("chmod", f.name, err)
	}
	f.n.mode = mode
	return nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	defer order()()
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if _, err := f.d.step("stat"); err != nil {
		return nil, perr("stat", f.name, err)
	}
	return info{f.n}, nil
}

type info struct{ n *inode }

func (i info) Name() string       { return filepath.Base(i.n.name) }
func (i info) Size() int64        { return int64(len(i.n.data)) }
func (i info) Mode() fs.FileMode  { return i.n.mode }
func (i info) ModTime() time.Time { return time.Unix(0, 0).UTC() }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() any           { return nil }

func Stat(name string) (fs.FileInfo, error) {
	defer order()()
	if _, err := disk.step("stat"); err != nil {
		return nil, perr("stat", name, err)
	}
	n := disk.find(name)
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{n}, nil
}

func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func Remove(name string) error {
	defer order()()
	if _, err := disk.step("remove"); err != nil {
		return perr("remove", name, err)
	}
	for i, n := range disk.nodes {
		if n.name == abs(name) {
			disk.nodes = append(disk.nodes[:i:i], disk.nodes[i+1:]...)
			return nil
		}
	}
	return perr("remove", name, syscall.ENOENT)
}

func RemoveAll(name string) error {
	defer order()()
	if _, err := disk.step("remove"); err != nil {
		return perr("unlinkat", name, err)
	}
	a := abs(name)
	var keep []*inode
	for _, n := range disk.nodes {
		if n.name != a && !strings.HasPrefix(n.name, a+"/") {
			keep = append(keep, n)
		}
	}
	disk.nodes = keep
	return nil
}

func Rename(from, to string) error {
	defer order()()
	if _, err := disk.step("rename"); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	n := disk.find(from)
	if n == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	var keep []*inode
	for _, o := range disk.nodes {
		if o.name != abs(to) || o == n {
			keep = append(keep, o)
		}
	}
	disk.nodes = keep
	n.name = abs(to)
	return nil
}

func Mkdir(name string, perm fs.FileMode) error {
	defer order()()
	if _, err := disk.step("mkdir"); err != nil {
		return perr("mkdir", name, err)
	}
	if disk.find(name) != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	disk.nodes = append(disk.nodes, &inode{name: abs(name), dir: true, mode: fs.ModeDir | perm})
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	defer order()()
	a := abs(name)
	for i := 1; i <= len(a); i++ {
		if i == len(a) || a[i] == '/' {
			if disk.find(a[:i]) == nil {
				if err := Mkdir(a[:i], perm); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func Chmod(name string, mode fs.FileMode) error {
	defer order()()
	n := disk.find(name)
	if n == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	n.mode = mode
	return nil
}

func Truncate(name string, size int64) error {
	defer order()()
	n := disk.find(name)
	if n == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	for int64(len(n.data)) < size {
		n.data = append(n.data, 0)
	}
	n.data = n.data[:size]
	return nil
}

func ReadFile(name string) ([]byte, error) {
	defer order()()
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	defer order()()
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

// Step counts an operation of another kind and returns the fault that hits it.
func Step(op string) (*Fault, error) {
	defer order()()
	return disk.step(op)
}

// Leave stores a file another process made.
func Leave(name string, data []byte) {
	defer order()()
	d := disk
	for p := filepath.Dir(abs(name)); d.find(p) == nil; p = filepath.Dir(p) {
		d.nodes = append(d.nodes, &inode{name: p, dir: true, mode: fs.ModeDir | 0o755})
	}
	if n := d.find(name); n != nil {
		n.data = append([]byte(nil), data...)
		return
	}
	d.Put(name, data)
}

// Chdir is os.Chdir.
func Chdir(name string) error {
	defer order()()
	d := disk
	if _, err := d.step("chdir"); err != nil {
		return perr("chdir", name, err)
	}
	n := d.find(name)
	if n == nil {
		return perr("chdir", name, syscall.ENOENT)
	}
	if !n.dir {
		return perr("chdir", name, syscall.ENOTDIR)
	}
	d.Wd = n.name
	return nil
}

// Getwd is os.Getwd.
func Getwd() (string, error) {
	defer order()()
	return abs("."), nil
}
