//go:build go1.21

// Package simos is package os on top of a simulated file system.
package simos

import (
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/bytesparadise/libasciidoc/verifsim/sim"
)

// Event is something that happens right before (or instead of) the Nth
// simulated system call matching Op and Path.
type Event struct {
	Op      string `json:"op"`                // "open", "read", "write", "close", "stat", "getwd", "chdir", "" (any)
	Path    string `json:"path,omitempty"`    // absolute path, "" matches everything
	Nth     int    `json:"nth"`               // 1 is the first match
	Times   int    `json:"times,omitempty"`   // how many consecutive matches are hit (0: one, -1: all that follow)
	Err     string `json:"err,omitempty"`     // errno name; the call fails
	Partial int    `json:"partial,omitempty"` // read/write: that many bytes are transferred before the error; close: that many bytes of the file are kept
	Act     string `json:"act,omitempty"`     // "chdir", "replace", "remove", "touch", "kill", "jump"
	Arg     string `json:"arg,omitempty"`
	Data    string `json:"data,omitempty"`
	Mtime   int64  `json:"mtime,omitempty"`
	Keep    bool   `json:"keep,omitempty"` // replace: same inode, contents changed in place
}

type eventState struct {
	Event
	seen  int
	Fired int
}

// Op is one simulated system call
type Op struct {
	Seq  int
	Step int64
	Task string
	Who  string // API operation during which it happened
	Op   string
	Path string
	N    int
	Err  string
}

type node struct {
	ino    int
	dir    bool
	link   string
	data   []byte
	mode   fs.FileMode
	mtime  int64
	kids   map[string]*node
	stream bool
}

// FS is a simulated file system with the process state attached to it (working directory, environment)
type FS struct {
	root     *node
	Cwd      string
	Env      map[string]string
	EnvAny   string // the value of every variable which is not in Env, unless it is empty
	Machine  int    // another machine, user and process
	events   []*eventState
	Log      []Op
	Ops      int
	MaxOps   int
	ShortP   int // per mille of short reads
	rnd      uint64
	inoSeq   int
	handles  []*File
	Chdirs   int // calls that changed the working directory
	Setenvs  int
	CloseErr int // double closes
	HashOff  bool
	sync     uint64
	Args     []string
	fault    map[string]int
	tempSeq  int
	unset    map[string]bool
	MutOps   []string // paths opened for writing, created, removed, renamed... by the system under test
	hostActs bool
}

var cur *FS

// Install makes f the file system of the process
func Install(f *FS) { cur = f; Args = f.Args }

// Installed returns the file system of the process
func Installed() *FS { return cur }

// NewFS returns a file system which contains / and /tmp
func NewFS() *FS {
	f := &FS{Cwd: "/", Env: map[string]string{}, MaxOps: 20000, fault: map[string]int{}}
	f.root = f.newNode(true)
	f.MkdirAll("/tmp")
	return f
}

func (f *FS) newNode(dir bool) *node {
	f.inoSeq++
	n := &node{ino: f.inoSeq, dir: dir, mode: 0o644}
	if dir {
		n.mode = fs.ModeDir | 0o755
		n.kids = map[string]*node{}
	}
	return n
}

// Seed sets the seed of short reads
func (f *FS) Seed(s uint64) { f.rnd = s }

func (f *FS) rand() uint64 {
	f.rnd += 0x9e3779b97f4a7c15
	z := f.rnd
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// AddEvent registers an event
func (f *FS) AddEvent(e Event) { f.events = append(f.events, &eventState{Event: e}) }

// ClearEvents forgets all the events (faults stop)
func (f *FS) ClearEvents() { f.events = nil }

// FaultCounts returns how often each kind of event fired
func (f *FS) FaultCounts() map[string]int { return f.fault }

// FiredEvents returns the number of events that fired
func (f *FS) FiredEvents() int {
	n := 0
	for _, c := range f.fault {
		n += c
	}
	return n
}

func (f *FS) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.Cwd + "/" + p
	}
	return path.Clean(p)
}

func (f *FS) walk(p string, follow bool, depth int) (*node, string, syscall.Errno) {
	if depth > 40 {
		return nil, p, syscall.ELOOP
	}
	n := f.root
	parts := strings.Split(strings.Trim(path.Clean(p), "/"), "/")
	if parts[0] == "" {
		return n, "/", 0
	}
	at := ""
	for i, c := range parts {
		if !n.dir {
			return nil, p, syscall.ENOTDIR
		}
		k, ok := n.kids[c]
		if !ok {
			return nil, p, syscall.ENOENT
		}
		if k.link != "" && (follow || i < len(parts)-1) {
			t := k.link
			if !strings.HasPrefix(t, "/") {
				t = at + "/" + t
			}
			rest := strings.Join(parts[i+1:], "/")
			return f.walk(path.Clean(t+"/"+rest), follow, depth+1)
		}
		n = k
		at = at + "/" + c
	}
	return n, at, 0
}

func (f *FS) parent(p string) (*node, string, syscall.Errno) {
	p = path.Clean(p)
	n, _, e := f.walk(path.Dir(p), true, 0)
	if e != 0 {
		return nil, "", e
	}
	if !n.dir {
		return nil, "", syscall.ENOTDIR
	}
	return n, path.Base(p), 0
}

// ---- host side (not seen as system calls of the system under test) ----

// MkdirAll creates a directory and its parents
func (f *FS) MkdirAll(p string) {
	n := f.root
	for _, c := range strings.Split(strings.Trim(path.Clean(p), "/"), "/") {
		if c == "" {
			continue
		}
		k, ok := n.kids[c]
		if !ok {
			k = f.newNode(true)
			n.kids[c] = k
		}
		n = k
	}
}

// Put creates or replaces a file: a new inode, like an editor which saves with rename
func (f *FS) Put(p string, data []byte, mtime int64) {
	p = f.abs(p)
	f.MkdirAll(path.Dir(p))
	d, name, _ := f.parent(p)
	n := f.newNode(false)
	n.data = append([]byte(nil), data...)
	n.mtime = mtime
	d.kids[name] = n
}

// Overwrite changes a file in place
func (f *FS) Overwrite(p string, data []byte, mtime int64) {
	n, _, e := f.walk(f.abs(p), true, 0)
	if e != 0 || n.dir {
		f.Put(p, data, mtime)
		return
	}
	n.data = append([]byte(nil), data...)
	n.mtime = mtime
}

// PutLink creates a symbolic link
func (f *FS) PutLink(p, target string) {
	p = f.abs(p)
	f.MkdirAll(path.Dir(p))
	d, name, _ := f.parent(p)
	n := f.newNode(false)
	n.link = target
	n.mode = fs.ModeSymlink | 0o777
	d.kids[name] = n
}

// Delete removes a file
func (f *FS) Delete(p string) {
	if d, name, e := f.parent(f.abs(p)); e == 0 {
		delete(d.kids, name)
	}
}

// Get returns the content of a file
func (f *FS) Get(p string) ([]byte, bool) {
	n, _, e := f.walk(f.abs(p), true, 0)
	if e != 0 || n.dir {
		return nil, false
	}
	return n.data, true
}

// Mtime returns the modification time of a file
func (f *FS) Mtime(p string) int64 {
	n, _, e := f.walk(f.abs(p), true, 0)
	if e != 0 {
		return 0
	}
	return n.mtime
}

// SetMode changes the mode of a file
func (f *FS) SetMode(p string, m fs.FileMode) {
	if n, _, e := f.walk(f.abs(p), true, 0); e == 0 {
		n.mode = n.mode&^fs.ModePerm | m
	}
}

// Snapshot returns every file and its content
func (f *FS) Snapshot() map[string]string {
	res := map[string]string{}
	f.snap(f.root, "", res)
	return res
}

func (f *FS) snap(n *node, p string, res map[string]string) {
	switch {
	case n.link != "":
		res[p] = "-> " + n.link
	case n.dir:
		if p != "" && len(n.kids) == 0 {
			res[p+"/"] = ""
		}
		for k, v := range n.kids {
			f.snap(v, p+"/"+k, res)
		}
	default:
		res[p] = string(n.data)
	}
}

// OpenHandles lists the files opened by the system under test and not closed
func (f *FS) OpenHandles() []string {
	var res []string
	for _, h := range f.handles {
		if !h.closed {
			res = append(res, h.path)
		}
	}
	sort.Strings(res)
	return res
}

// CloseAll closes every handle: what the kernel does when the process ends
func (f *FS) CloseAll() {
	for _, h := range f.handles {
		h.closed = true
	}
	f.handles = nil
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOENT": syscall.ENOENT, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE,
	"ENOSPC": syscall.ENOSPC, "EINTR": syscall.EINTR, "EPIPE": syscall.EPIPE, "EDQUOT": syscall.EDQUOT,
	"EROFS": syscall.EROFS, "ENOTDIR": syscall.ENOTDIR, "EISDIR": syscall.EISDIR, "ESTALE": syscall.ESTALE,
	"EPERM": syscall.EPERM, "ELOOP": syscall.ELOOP, "ENAMETOOLONG": syscall.ENAMETOOLONG, "ENFILE": syscall.ENFILE,
}

// call is the start of a simulated system call; it returns the error to inject
func (f *FS) call(op, p string) (syscall.Errno, int) {
	sim.Hot()
	if sim.HasExited() {
		return syscall.EBADF, 0
	}
	sim.RaceAcquire(unsafe.Pointer(&f.sync))
	f.Ops++
	if f.Ops > f.MaxOps {
		sim.AbortRun(fmt.Sprintf("more than %d file operations (last: %s %s)", f.MaxOps, op, p))
	}
	var res syscall.Errno
	partial := -1
	for _, e := range f.events {
		if e.Op != "" && e.Op != op {
			continue
		}
		if e.Path != "" && e.Path != p {
			continue
		}
		e.seen++
		if e.seen < e.Nth {
			continue
		}
		times := e.Times
		if times == 0 {
			times = 1
		}
		if times > 0 && e.seen >= e.Nth+times {
			continue
		}
		e.Fired++
		switch e.Act {
		case "":
			if res == 0 {
				res = errnos[e.Err]
				if res == 0 {
					res = syscall.EIO
				}
				partial = e.Partial
				f.fault[op+":"+e.Err]++
			}
		case "chdir":
			f.fault["host:chdir"]++
			f.Cwd = e.Arg
		case "replace":
			f.fault["host:replace"]++
			if e.Keep {
				f.Overwrite(e.Arg, []byte(e.Data), e.Mtime)
			} else {
				f.Put(e.Arg, []byte(e.Data), e.Mtime)
			}
		case "remove":
			f.fault["host:remove"]++
			f.Delete(e.Arg)
		case "touch":
			f.fault["host:touch"]++
			if n, _, er := f.walk(f.abs(e.Arg), true, 0); er == 0 {
				n.mtime = e.Mtime
			}
		case "jump":
			f.fault["clock:jump"]++
			Jump(e.Mtime)
		case "kill":
			f.fault["process:kill"]++
			f.done(op, p, 0, syscall.EINTR)
			sim.Kill()
		}
	}
	return res, partial
}

// Jump is set by simtime
var Jump = func(d int64) {}

// NowFn is set by simtime: wall clock in nanoseconds since the epoch
var NowFn = func() int64 { return 0 }

func (f *FS) done(op, p string, n int, e syscall.Errno) {
	es := ""
	if e != 0 {
		es = e.Error()
	}
	o := Op{Seq: f.Ops, Step: sim.Step(), Op: op, Path: p, N: n, Err: es}
	if t := sim.Current(); t != nil {
		o.Task = t.Name
		if op := sim.OpOf(); op != nil {
			o.Who = op.Name
		}
	}
	f.Log = append(f.Log, o)
	sim.Note(op + " " + p + " " + es + fmt.Sprint(n))
	sim.RaceReleaseMerge(unsafe.Pointer(&f.sync))
}

func (f *FS) mut(p string) { f.MutOps = append(f.MutOps, p) }

func pe(op, p string, e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: e}
}

// ---- system call side ----

// File is a simulated open file
type File struct {
	f      *FS
	n      *node
	name   string
	path   string
	off    int64
	flag   int
	closed bool
	std    *strings.Builder
	stdin  bool
	wrote  bool // something was written since the last sync
	dirPos int
}

type info struct {
	name string
	n    *node
	size int64
	mt   int64
	md   fs.FileMode
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() fs.FileMode  { return i.md }
func (i *info) ModTime() time.Time { return time.Unix(0, i.mt) }
func (i *info) IsDir() bool        { return i.md.IsDir() }
func (i *info) Sys() interface{}   { return nil }

func newInfo(name string, n *node) *info {
	return &info{name: name, n: n, size: int64(len(n.data)), mt: n.mtime, md: n.mode}
}

func theFS() *FS {
	if cur == nil {
		panic("simos: no file system installed")
	}
	return cur
}

// OpenFile opens a file
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	f := theFS()
	p := f.abs(name)
	op := "open"
	if flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		op = "create"
	}
	e, _ := f.call(op, p)
	var n *node
	if e == 0 {
		n, e = f.openNode(p, flag, perm)
	}
	var file *File
	if e == 0 {
		file = &File{f: f, n: n, name: name, path: p, flag: flag}
		if flag&syscall.O_APPEND != 0 {
			file.off = int64(len(n.data))
		}
		f.handles = append(f.handles, file)
	}
	f.done(op, p, 0, e)
	if e != 0 {
		return nil, pe("open", name, e)
	}
	return file, nil
}

func (f *FS) openNode(p string, flag int, perm fs.FileMode) (*node, syscall.Errno) {
	wr := flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	n, real, e := f.walk(p, true, 0)
	if e == syscall.ENOENT && flag&syscall.O_CREAT != 0 {
		d, name, e2 := f.parent(p)
		if e2 != 0 {
			return nil, e2
		}
		if k := d.kids[name]; k != nil && k.link != "" {
			return nil, syscall.ENOENT
		}
		if d.mode&0o200 == 0 {
			return nil, syscall.EACCES
		}
		n = f.newNode(false)
		n.mode = perm.Perm()
		n.mtime = NowFn()
		d.kids[name] = n
		f.mut(p)
		return n, 0
	}
	if e != 0 {
		return nil, e
	}
	if flag&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
		return nil, syscall.EEXIST
	}
	if n.dir && wr {
		return nil, syscall.EISDIR
	}
	acc := flag & (syscall.O_WRONLY | syscall.O_RDWR)
	if acc != syscall.O_WRONLY && n.mode&0o400 == 0 {
		return nil, syscall.EACCES
	}
	if wr && n.mode&0o200 == 0 {
		return nil, syscall.EACCES
	}
	if wr {
		f.mut(real)
	}
	if flag&syscall.O_TRUNC != 0 && wr {
		n.data = nil
		n.mtime = NowFn()
	}
	return n, 0
}

// Open opens a file for reading
func Open(name string) (*File, error) { return OpenFile(name, syscall.O_RDONLY, 0) }

// Create creates or truncates a file
func Create(name string) (*File, error) {
	return OpenFile(name, syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC, 0o666)
}

func (f *File) check(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: op, Path: f.name, Err: fs.ErrClosed}
	}
	return nil
}

// Name is the name of the file as given to Open
func (f *File) Name() string { return f.name }

// Fd is not meaningful
func (f *File) Fd() uintptr {
	sim.Unsupported("(*os.File).Fd")
	return 0
}

// Read reads
func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.stdin {
		return 0, io.EOF
	}
	if f.std != nil {
		return 0, pe("read", f.name, syscall.EBADF)
	}
	n, e := f.readAt(b, f.off)
	f.off += int64(n)
	if e != 0 {
		return n, pe("read", f.name, e)
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) readAt(b []byte, off int64) (int, syscall.Errno) {
	e, partial := f.f.call("read", f.path)
	if e == 0 && f.n.dir {
		e = syscall.EISDIR
	}
	if e == 0 && f.flag&(syscall.O_WRONLY|syscall.O_RDWR) == syscall.O_WRONLY {
		e = syscall.EBADF
	}
	n := 0
	if e == 0 || partial > 0 {
		if off < int64(len(f.n.data)) {
			m := len(b)
			if f.f.ShortP > 0 && m > 1 && int(f.f.rand()%1000) < f.f.ShortP {
				m = 1 + int(f.f.rand()%uint64(m))
				if f.f.rand()%2 == 0 && m > 3 {
					m = 1 + int(f.f.rand()%3)
				}
				f.f.fault["read:short"]++
			}
			if partial > 0 && m > partial {
				m = partial
			}
			n = copy(b[:m], f.n.data[off:])
		}
		if e != 0 && n > 0 {
			// the bytes are delivered, the error comes with the next call
			f.f.AddEvent(Event{Op: "read", Path: f.path, Nth: 1, Times: -1, Err: errName(e)})
			f.f.done("read", f.path, n, 0)
			return n, 0
		}
	}
	f.f.done("read", f.path, n, e)
	return n, e
}

func errName(e syscall.Errno) string {
	for k, v := range errnos {
		if v == e {
			return k
		}
	}
	return "EIO"
}

// ReadAt reads at an offset
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	t := 0
	for t < len(b) {
		n, e := f.readAt(b[t:], off+int64(t))
		if e != 0 {
			return t, pe("read", f.name, e)
		}
		if n == 0 {
			return t, io.EOF
		}
		t += n
	}
	return t, nil
}

// Write writes
func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std != nil {
		e, partial := f.f.call("write", f.path)
		n := len(b)
		if e != 0 {
			n = max0(partial)
			if n > len(b) {
				n = len(b)
			}
		}
		f.std.Write(b[:n])
		f.f.done("write", f.path, n, e)
		return n, pe("write", f.name, e)
	}
	t := 0
	for {
		n, e := f.writeAt(b[t:], f.off)
		f.off += int64(n)
		t += n
		if e != 0 {
			return t, pe("write", f.name, e)
		}
		if t >= len(b) {
			return t, nil
		}
	}
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func (f *File) writeAt(b []byte, off int64) (int, syscall.Errno) {
	e, partial := f.f.call("write", f.path)
	if e == 0 && f.flag&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		e = syscall.EBADF
	}
	n := 0
	if e == 0 || partial > 0 {
		m := len(b)
		if e != 0 && m > partial {
			m = partial
		}
		if f.flag&syscall.O_APPEND != 0 {
			off = int64(len(f.n.data))
		}
		for int64(len(f.n.data)) < off {
			f.n.data = append(f.n.data, 0)
		}
		n = copy(f.n.data[off:], b[:m])
		f.n.data = append(f.n.data, b[n:m]...)
		n = m
		f.wrote = true
		f.n.mtime = NowFn()
	}
	f.f.done("write", f.path, n, e)
	return n, e
}

// WriteString writes a string
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt writes at an offset
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	n, e := f.writeAt(b, off)
	return n, pe("write", f.name, e)
}

// ReadFrom copies from a reader
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return io.Copy(struct{ io.Writer }{f}, r)
}

// WriteTo copies to a writer
func (f *File) WriteTo(wr io.Writer) (int64, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	return io.Copy(wr, struct{ io.Reader }{f})
}

// Seek moves the offset
func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.n == nil {
		return 0, pe("seek", f.name, syscall.ESPIPE)
	}
	switch whence {
	case io.SeekCurrent:
		offset += f.off
	case io.SeekEnd:
		offset += int64(len(f.n.data))
	}
	if offset < 0 {
		return 0, pe("seek", f.name, syscall.EINVAL)
	}
	f.off = offset
	return offset, nil
}

// Close closes the file
func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		if f.f != nil {
			f.f.CloseErr++
		}
		return &fs.PathError{Op: "close", Path: f.name, Err: fs.ErrClosed}
	}
	if f.std != nil || f.stdin {
		f.closed = true
		return nil
	}
	e, partial := f.f.call("close", f.path)
	f.closed = true
	if e != 0 && f.wrote && f.n != nil && partial >= 0 && len(f.n.data) > partial {
		// what was written did not reach the disk
		f.n.data = f.n.data[:partial]
	}
	f.f.done("close", f.path, 0, e)
	return pe("close", f.name, e)
}

// Sync flushes
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	e, _ := f.f.call("sync", f.path)
	if e == 0 {
		f.wrote = false
	}
	f.f.done("sync", f.path, 0, e)
	return pe("sync", f.name, e)
}

// Stat describes the open file
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.n == nil {
		return &info{name: f.name, md: fs.ModeCharDevice | 0o620}, nil
	}
	e, _ := f.f.call("fstat", f.path)
	var i fs.FileInfo
	if e == 0 {
		i = newInfo(path.Base(f.name), f.n)
	}
	f.f.done("fstat", f.path, 0, e)
	return i, pe("stat", f.name, e)
}

// Truncate changes the size
func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	e, _ := f.f.call("truncate", f.path)
	if e == 0 {
		truncNode(f.n, size)
	}
	f.f.done("truncate", f.path, int(size), e)
	return pe("truncate", f.name, e)
}

func truncNode(n *node, size int64) {
	for int64(len(n.data)) < size {
		n.data = append(n.data, 0)
	}
	n.data = n.data[:size]
	n.mtime = NowFn()
}

// Chmod changes the mode
func (f *File) Chmod(m fs.FileMode) error { return Chmod(f.name, m) }

// Chdir changes the working directory
func (f *File) Chdir() error { return Chdir(f.path) }

// SetDeadline is not supported on files
func (f *File) SetDeadline(t time.Time) error { return fs.ErrInvalid }

// ReadDir lists a directory
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	l, err := ReadDir(f.path)
	if err != nil {
		return nil, err
	}
	if f.dirPos > len(l) {
		f.dirPos = len(l)
	}
	l = l[f.dirPos:]
	if n > 0 {
		if len(l) == 0 {
			return nil, io.EOF
		}
		if len(l) > n {
			l = l[:n]
		}
	}
	f.dirPos += len(l)
	return l, nil
}

// Readdirnames lists a directory
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var res []string
	for _, e := range l {
		res = append(res, e.Name())
	}
	return res, err
}

// Readdir lists a directory
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	l, err := f.ReadDir(n)
	var res []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		res = append(res, i)
	}
	return res, err
}

// ReadFile reads a whole file
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var res []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		res = append(res, buf[:n]...)
		if err == io.EOF {
			return res, nil
		}
		if err != nil {
			return res, err
		}
		if len(buf) < 1<<16 {
			buf = make([]byte, 2*len(buf))
		}
	}
}

// WriteFile writes a whole file
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func statCommon(name string, follow bool, op string) (fs.FileInfo, error) {
	f := theFS()
	p := f.abs(name)
	e, _ := f.call("stat", p)
	var n *node
	if e == 0 {
		n, _, e = f.walk(p, follow, 0)
	}
	f.done("stat", p, 0, e)
	if e != 0 {
		return nil, pe(op, name, e)
	}
	return newInfo(path.Base(p), n), nil
}

// Stat describes a file
func Stat(name string) (fs.FileInfo, error) { return statCommon(name, true, "stat") }

// Lstat describes a file without following a link
func Lstat(name string) (fs.FileInfo, error) { return statCommon(name, false, "lstat") }

// SameFile compares
func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.n != nil && x.n == y.n
}

// Getwd returns the working directory
func Getwd() (string, error) {
	f := theFS()
	e, _ := f.call("getwd", "")
	if e == 0 {
		if _, _, e2 := f.walk(f.Cwd, true, 0); e2 != 0 {
			e = syscall.ENOENT
		}
	}
	wd := f.Cwd
	f.done("getwd", "", 0, e)
	if e != 0 {
		return "", &SyscallError{Syscall: "getwd", Err: e}
	}
	return wd, nil
}

// Chdir changes the working directory
func Chdir(dir string) error {
	f := theFS()
	p := f.abs(dir)
	e, _ := f.call("chdir", p)
	var n *node
	if e == 0 {
		n, _, e = f.walk(p, true, 0)
		if e == 0 && !n.dir {
			e = syscall.ENOTDIR
		}
	}
	if e == 0 {
		if f.Cwd != p {
			f.Chdirs++
		}
		f.Cwd = p
	}
	f.done("chdir", p, 0, e)
	return pe("chdir", dir, e)
}

// Mkdir creates a directory
func Mkdir(name string, perm fs.FileMode) error {
	f := theFS()
	p := f.abs(name)
	e, _ := f.call("mkdir", p)
	if e == 0 {
		if _, _, e2 := f.walk(p, true, 0); e2 == 0 {
			e = syscall.EEXIST
		} else if d, base, e3 := f.parent(p); e3 != 0 {
			e = e3
		} else {
			d.kids[base] = f.newNode(true)
			f.mut(p)
		}
	}
	f.done("mkdir", p, 0, e)
	return pe("mkdir", name, e)
}

// MkdirAll creates a directory and its parents
func MkdirAll(name string, perm fs.FileMode) error {
	f := theFS()
	p := f.abs(name)
	if n, _, e := f.walk(p, true, 0); e == 0 {
		if n.dir {
			return nil
		}
		return pe("mkdir", name, syscall.ENOTDIR)
	}
	if p != "/" {
		if err := MkdirAll(path.Dir(p), perm); err != nil {
			return err
		}
	}
	err := Mkdir(p, perm)
	if err != nil && IsExist(err) {
		return nil
	}
	return err
}

func temp(dir, pattern string) string {
	f := theFS()
	if dir == "" {
		dir = TempDir()
	}
	f.tempSeq++
	s := fmt.Sprintf("%09d", f.tempSeq)
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		return dir + "/" + pattern[:i] + s + pattern[i+1:]
	}
	return dir + "/" + pattern + s
}

// MkdirTemp creates a temporary directory
func MkdirTemp(dir, pattern string) (string, error) {
	p := temp(dir, pattern)
	return p, Mkdir(p, 0o700)
}

// CreateTemp creates a temporary file
func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(temp(dir, pattern), syscall.O_RDWR|syscall.O_CREAT|syscall.O_EXCL, 0o600)
}

// TempDir is /tmp
func TempDir() string { return "/tmp" }

// Remove removes a file or an empty directory
func Remove(name string) error {
	f := theFS()
	p := f.abs(name)
	e, _ := f.call("remove", p)
	if e == 0 {
		n, _, e2 := f.walk(p, false, 0)
		e = e2
		if e == 0 && n.dir && len(n.kids) > 0 {
			e = syscall.ENOTEMPTY
		}
		if e == 0 {
			d, base, _ := f.parent(p)
			delete(d.kids, base)
			f.mut(p)
		}
	}
	f.done("remove", p, 0, e)
	return pe("remove", name, e)
}

// RemoveAll removes a tree
func RemoveAll(name string) error {
	f := theFS()
	p := f.abs(name)
	e, _ := f.call("remove", p)
	if e == 0 {
		if d, base, e2 := f.parent(p); e2 == 0 {
			delete(d.kids, base)
			f.mut(p)
		}
	}
	f.done("remove", p, 0, e)
	return pe("unlinkat", name, e)
}

// Rename renames
func Rename(from, to string) error {
	f := theFS()
	p, q := f.abs(from), f.abs(to)
	e, _ := f.call("rename", q)
	if e == 0 {
		n, _, e2 := f.walk(p, false, 0)
		e = e2
		if e == 0 {
			d1, b1, _ := f.parent(p)
			d2, b2, e3 := f.parent(q)
			e = e3
			if e == 0 {
				if k := d2.kids[b2]; k != nil && k.dir && !n.dir {
					e = syscall.EEXIST
				} else {
					delete(d1.kids, b1)
					d2.kids[b2] = n
					f.mut(p)
					f.mut(q)
				}
			}
		}
	}
	f.done("rename", q, 0, e)
	if e != 0 {
		return &LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	return nil
}

// Symlink creates a symbolic link
func Symlink(target, name string) error {
	f := theFS()
	p := f.abs(name)
	e, _ := f.call("symlink", p)
	if e == 0 {
		d, base, e2 := f.parent(p)
		e = e2
		if e == 0 && d.kids[base] != nil {
			e = syscall.EEXIST
		}
		if e == 0 {
			n := f.newNode(false)
			n.link = target
			n.mode = fs.ModeSymlink | 0o777
			d.kids[base] = n
			f.mut(p)
		}
	}
	f.done("symlink", p, 0, e)
	if e != 0 {
		return &LinkError{Op: "symlink", Old: target, New: name, Err: e}
	}
	return nil
}

// Link creates a hard link
func Link(from, to string) error {
	f := theFS()
	p, q := f.abs(from), f.abs(to)
	e, _ := f.call("link", q)
	if e == 0 {
		n, _, e2 := f.walk(p, false, 0)
		e = e2
		if e == 0 {
			d, base, e3 := f.parent(q)
			e = e3
			if e == 0 && d.kids[base] != nil {
				e = syscall.EEXIST
			}
			if e == 0 {
				d.kids[base] = n
				f.mut(q)
			}
		}
	}
	f.done("link", q, 0, e)
	if e != 0 {
		return &LinkError{Op: "link", Old: from, New: to, Err: e}
	}
	return nil
}

// Readlink reads a link
func Readlink(name string) (string, error) {
	f := theFS()
	p := f.abs(name)
	e, _ := f.call("readlink", p)
	s := ""
	if e == 0 {
		n, _, e2 := f.walk(p, false, 0)
		e = e2
		if e == 0 {
			if n.link == "" {
				e = syscall.EINVAL
			}
			s = n.link
		}
	}
	f.done("readlink", p, 0, e)
	return s, pe("readlink", name, e)
}

type dirEntry struct{ *info }

func (d dirEntry) Type() fs.FileMode          { return d.md.Type() }
func (d dirEntry) Info() (fs.FileInfo, error) { return d.info, nil }

// ReadDir lists a directory, sorted
func ReadDir(name string) ([]fs.DirEntry, error) {
	f := theFS()
	p := f.abs(name)
	e, _ := f.call("readdir", p)
	var res []fs.DirEntry
	if e == 0 {
		n, _, e2 := f.walk(p, true, 0)
		e = e2
		if e == 0 && !n.dir {
			e = syscall.ENOTDIR
		}
		if e == 0 {
			var names []string
			for k := range n.kids {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				res = append(res, dirEntry{newInfo(k, n.kids[k])})
			}
		}
	}
	f.done("readdir", p, 0, e)
	return res, pe("open", name, e)
}

// Chmod changes the mode
func Chmod(name string, m fs.FileMode) error {
	f := theFS()
	p := f.abs(name)
	e, _ := f.call("chmod", p)
	if e == 0 {
		n, _, e2 := f.walk(p, true, 0)
		e = e2
		if e == 0 {
			n.mode = n.mode&^fs.ModePerm | m.Perm()
			f.mut(p)
		}
	}
	f.done("chmod", p, 0, e)
	return pe("chmod", name, e)
}

// Chtimes changes the modification time
func Chtimes(name string, atime, mtime time.Time) error {
	f := theFS()
	p := f.abs(name)
	e, _ := f.call("chtimes", p)
	if e == 0 {
		n, _, e2 := f.walk(p, true, 0)
		e = e2
		if e == 0 {
			n.mtime = mtime.UnixNano()
			f.mut(p)
		}
	}
	f.done("chtimes", p, 0, e)
	return pe("chtimes", name, e)
}

// Truncate changes the size
func Truncate(name string, size int64) error {
	f := theFS()
	p := f.abs(name)
	e, _ := f.call("truncate", p)
	if e == 0 {
		n, _, e2 := f.walk(p, true, 0)
		e = e2
		if e == 0 {
			truncNode(n, size)
			f.mut(p)
		}
	}
	f.done("truncate", p, int(size), e)
	return pe("truncate", name, e)
}

// Getenv reads the simulated environment
func Getenv(k string) string { v, _ := LookupEnv(k); return v }

// LookupEnv reads the simulated environment
func LookupEnv(k string) (string, bool) {
	f := theFS()
	v, ok := f.Env[k]
	if !ok && f.EnvAny != "" && !f.unset[k] {
		return f.EnvAny, true
	}
	return v, ok
}

// Setenv changes the simulated environment
func Setenv(k, v string) error {
	f := theFS()
	if old, ok := LookupEnv(k); !ok || old != v {
		f.Setenvs++
	}
	f.Env[k] = v
	return nil
}

// Unsetenv changes the simulated environment
func Unsetenv(k string) error {
	f := theFS()
	if _, ok := LookupEnv(k); ok {
		f.Setenvs++
	}
	if f.unset == nil {
		f.unset = map[string]bool{}
	}
	f.unset[k] = true
	delete(f.Env, k)
	return nil
}

// Clearenv empties the simulated environment
func Clearenv() {
	f := theFS()
	f.Setenvs += len(f.Env)
	f.Env = map[string]string{}
}

// Environ lists the simulated environment
func Environ() []string {
	var res []string
	for k, v := range theFS().Env {
		res = append(res, k+"="+v)
	}
	sort.Strings(res)
	return res
}

// ExpandEnv expands variables
func ExpandEnv(s string) string { return Expand(s, Getenv) }

// UserHomeDir is the home directory of the user of the machine
func UserHomeDir() (string, error) {
	if m := theFS().Machine; m != 0 {
		return "/home/u" + strconv.Itoa(m), nil
	}
	return "/root", nil
}

// UserCacheDir is .cache there
func UserCacheDir() (string, error) { h, _ := UserHomeDir(); return h + "/.cache", nil }

// UserConfigDir is .config there
func UserConfigDir() (string, error) { h, _ := UserHomeDir(); return h + "/.config", nil }

// Getuid and the others are those of the user of the machine
func Getuid() int  { return theFS().Machine }
func Geteuid() int { return theFS().Machine }
func Getgid() int  { return theFS().Machine }
func Getegid() int { return theFS().Machine }

// Getpagesize is that of the machine
func Getpagesize() int { return 4096 << (theFS().Machine % 3) }

// Executable is the simulated command
func Executable() (string, error) { return "/usr/bin/libasciidoc", nil }

// ExitPanic carries the simulated end of the process up the stack
type ExitPanic struct{ Code int }

// Exit ends the simulated process
func Exit(code int) {
	sim.SetExit(code)
	panic(ExitPanic{code})
}

// Args are the arguments of the simulated process
var Args []string

// NewStd returns a simulated standard stream
func NewStd(f *FS, name string, out *strings.Builder) *File {
	return &File{f: f, name: name, path: name, std: out, stdin: out == nil}
}

// standard streams of the simulated process
var (
	Stdin  *File
	Stdout *File
	Stderr *File
)

// StdoutOf is where a command writes
func StdoutOf(cmd interface{}) io.Writer {
	if Stdout == nil {
		return io.Discard
	}
	return Stdout
}

// StderrOf is where a command writes errors
func StderrOf(cmd interface{}) io.Writer {
	if Stderr == nil {
		return io.Discard
	}
	return Stderr
}

// Getpid is that of the simulated process
func Getpid() int { return 4242 + theFS().Machine }

// Getppid is that of the parent of the simulated process
func Getppid() int { return 1 + theFS().Machine }

// Hostname is that of the simulated machine
func Hostname() (string, error) { return "sim" + strconv.Itoa(theFS().Machine), nil }

// IsLink tells whether p itself is a symbolic link
func (f *FS) IsLink(p string) bool {
	n, _, e := f.walk(f.abs(p), false, 0)
	return e == 0 && n.link != ""
}

// ModeOf returns the permissions of a file
func (f *FS) ModeOf(p string) uint32 {
	n, _, e := f.walk(f.abs(p), true, 0)
	if e != 0 {
		return 0
	}
	return uint32(n.mode.Perm())
}
