package world

import (
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"alda.sim/rt"
)

// Epoch is the simulated wall clock at time 0.
const Epoch int64 = 1_700_000_000_000_000_000

func Wall() int64         { return Epoch + rt.S.Now() }
func WallTime() time.Time { return time.Unix(0, Wall()).UTC() }

type Inode struct {
	dir      bool
	link     string // symlink target
	mode     fs.FileMode
	data     []byte
	children map[string]*Inode
	mtime    int64
	id       int
	running  int
	Owner    string // last process to write it
	unsynced bool   // was written to since the last sync
	durable  []byte // content at the last sync
	nlink    int
}

type FS struct {
	w    *World
	root *Inode
	next int
	// Free is the number of bytes that can still be written; negative: unlimited.
	Free int64
	// Hook is consulted before every operation of every process.
	Hook func(op *FSOp) FSAction
	// After is told about every completed mutation.
	After func(op *FSOp)
	Ops   int64
	rnd   int
}

// FSOp describes one operation.
type FSOp struct {
	P    *rt.Proc
	Op   string // open, create, read, write, close, rename, remove, stat, mkdir, readdir, chmod, chtimes, truncate
	Path string
	To   string
	N    int
	Seq  int64 // index among the process's operations
	Data []byte
}

// FSAction is what the fault injector decides.
type FSAction struct {
	Err       error
	Short     int  // with Err on write: bytes written before the error
	KillFirst bool // the process dies before the operation
	KillMid   int  // n > 0: the process dies after n-1 bytes were written
	KillAfter bool
	Delay     int64
}

func newFS(w *World) *FS {
	f := &FS{w: w, Free: -1}
	f.root = f.inode(true, 0755)
	for _, d := range []string{"/tmp", "/home/user", "/usr/local/bin", "/work", "/home/user/.cache"} {
		f.PutDir(d)
	}
	return f
}

func (f *FS) inode(dir bool, mode fs.FileMode) *Inode {
	f.next++
	n := &Inode{dir: dir, mode: mode & 0777, id: f.next, nlink: 1}
	if dir {
		n.children = map[string]*Inode{}
	}
	if rt.S != nil {
		n.mtime = Wall()
	} else {
		n.mtime = Epoch
	}
	return n
}

func clean(cwd, p string) string {
	if !path.IsAbs(p) {
		p = path.Join(cwd, p)
	}
	return path.Clean(p)
}

// ---- direct access for the harness (no scheduling, no faults) ----

func (f *FS) PutDir(p string) *Inode {
	n := f.root
	for _, e := range split(p) {
		c := n.children[e]
		if c == nil {
			c = f.inode(true, 0755)
			n.children[e] = c
		}
		n = c
	}
	return n
}

func (f *FS) Put(p string, data []byte, mode fs.FileMode) *Inode {
	d := f.PutDir(path.Dir(p))
	n := d.children[path.Base(p)]
	if n == nil || n.dir {
		n = f.inode(false, mode)
		d.children[path.Base(p)] = n
	}
	n.data = append([]byte(nil), data...)
	n.mode = mode
	n.mtime = Wall()
	return n
}

func (f *FS) PutLink(p, target string) {
	d := f.PutDir(path.Dir(p))
	n := f.inode(false, 0777)
	n.link = target
	d.children[path.Base(p)] = n
}

func (f *FS) SetMtime(p string, wall int64) {
	if n := f.lookup("/", p, true); n != nil {
		n.mtime = wall
	}
}
func (f *FS) SetMode(p string, m fs.FileMode) {
	if n := f.lookup("/", p, true); n != nil {
		n.mode = m
	}
}
func (f *FS) Mtime(p string) int64 {
	if n := f.lookup("/", p, true); n != nil {
		return n.mtime
	}
	return -1
}

func (f *FS) Get(p string) ([]byte, bool) {
	n := f.lookup("/", p, true)
	if n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}
func (f *FS) Mode(p string) fs.FileMode {
	n := f.lookup("/", p, true)
	if n == nil {
		return 0
	}
	return n.mode
}
func (f *FS) Exists(p string) bool { return f.lookup("/", p, false) != nil }
func (f *FS) Owner(p string) string {
	if n := f.lookup("/", p, true); n != nil {
		return n.Owner
	}
	return ""
}
func (f *FS) Delete(p string) {
	d := f.lookup("/", path.Dir(p), true)
	if d != nil && d.dir {
		delete(d.children, path.Base(p))
	}
}
func (f *FS) List(p string) []string {
	n := f.lookup("/", p, true)
	if n == nil || !n.dir {
		return nil
	}
	out := []string{}
	for k := range n.children {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Tree returns every file below p with its contents (for comparisons).
func (f *FS) Tree(p string) map[string]string {
	out := map[string]string{}
	n := f.lookup("/", p, true)
	var walk func(n *Inode, at string)
	walk = func(n *Inode, at string) {
		if n.dir {
			out[at+"/"] = ""
			for k, c := range n.children {
				walk(c, path.Join(at, k))
			}
			return
		}
		if n.link != "" {
			out[at] = "-> " + n.link
			return
		}
		out[at] = string(n.data)
	}
	if n != nil {
		walk(n, p)
	}
	return out
}

func split(p string) []string {
	out := []string{}
	for _, e := range strings.Split(p, "/") {
		if e != "" && e != "." {
			out = append(out, e)
		}
	}
	return out
}

func (f *FS) lookup(cwd, p string, follow bool) *Inode {
	n, _, _, _ := f.resolve(cwd, p, follow)
	return n
}

// resolve returns the inode (nil if absent), its parent directory and name.
func (f *FS) resolve(cwd, p string, follow bool) (n, dir *Inode, name string, err error) {
	return f.resolveDepth(cwd, p, follow, 0)
}

func (f *FS) resolveDepth(cwd, p string, follow bool, depth int) (n, dir *Inode, name string, err error) {
	if p == "" {
		return nil, nil, "", syscall.ENOENT
	}
	if depth > 20 {
		return nil, nil, "", syscall.ELOOP
	}
	parts := split(clean(cwd, p))
	n = f.root
	at := "/"
	for i, e := range parts {
		if !n.dir {
			return nil, nil, "", syscall.ENOTDIR
		}
		if len(e) > 255 {
			return nil, nil, "", syscall.ENAMETOOLONG
		}
		if n.mode&0100 == 0 {
			return nil, nil, "", syscall.EACCES
		}
		c := n.children[e]
		last := i == len(parts)-1
		if c == nil {
			if last {
				return nil, n, e, syscall.ENOENT
			}
			return nil, nil, "", syscall.ENOENT
		}
		if c.link != "" && (!last || follow) {
			rest := path.Join(parts[i+1:]...)
			t := c.link
			if !path.IsAbs(t) {
				t = path.Join(at, t)
			}
			return f.resolveDepth("/", path.Join(t, rest), follow, depth+1)
		}
		dir, name = n, e
		n = c
		at = path.Join(at, e)
	}
	return n, dir, name, nil
}

// RealPath resolves symlinks.
func (f *FS) RealPath(cwd, p string) (string, error) {
	cur := "/"
	parts := split(clean(cwd, p))
	depth := 0
	for len(parts) > 0 {
		e := parts[0]
		parts = parts[1:]
		n := f.lookup("/", path.Join(cur, e), false)
		if n == nil {
			return "", &fs.PathError{Op: "lstat", Path: path.Join(cur, e), Err: syscall.ENOENT}
		}
		if n.link != "" {
			depth++
			if depth > 20 {
				return "", syscall.ELOOP
			}
			t := n.link
			if !path.IsAbs(t) {
				t = path.Join(cur, t)
			}
			parts = append(split(t), parts...)
			cur = "/"
			continue
		}
		cur = path.Join(cur, e)
	}
	return cur, nil
}

// begin is the common prologue of every operation of the simulated processes.
func (f *FS) begin(op, p, to string, nbytes int, data []byte) (*rt.Proc, *FSOp, FSAction) {
	rt.Yield()
	pr := cur()
	d := Data(pr)
	d.FSOps++
	f.Ops++
	o := &FSOp{P: pr, Op: op, Path: clean(pr.Cwd, p), To: to, N: nbytes, Seq: d.FSOps, Data: data}
	act := FSAction{}
	if f.Hook != nil {
		act = f.Hook(o)
		if act.Delay > 0 {
			rt.Sleep(act.Delay)
		}
		if act.KillFirst {
			f.w.S.Kill(pr)
		}
	}
	return pr, o, act
}

func (f *FS) end(o *FSOp, act FSAction) {
	if f.After != nil {
		f.After(o)
	}
	if act.KillAfter {
		f.w.S.Kill(o.P)
	}
}

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: err}
}

// ---- operations ----

// File is an open file of a simulated process.
type File struct {
	n      *Inode
	path   string // as opened
	abs    string
	pos    int64
	rd, wr bool
	app    bool
	closed bool
	std    int // 1 stdin, 2 stdout, 3 stderr
	p      *rt.Proc
	f      *FS
	dirPos int
}

const (
	O_RDONLY = syscall.O_RDONLY
	O_WRONLY = syscall.O_WRONLY
	O_RDWR   = syscall.O_RDWR
	O_APPEND = syscall.O_APPEND
	O_CREATE = syscall.O_CREAT
	O_EXCL   = syscall.O_EXCL
	O_TRUNC  = syscall.O_TRUNC
)

func (f *FS) Open(p string, flag int, mode fs.FileMode) (*File, error) {
	op := "open"
	if flag&O_CREATE != 0 || flag&O_TRUNC != 0 {
		op = "create"
	}
	pr, o, act := f.begin(op, p, "", 0, nil)
	if act.Err != nil {
		return nil, perr("open", p, act.Err)
	}
	acc := flag & 3
	file := &File{path: p, abs: clean(pr.Cwd, p), rd: acc == O_RDONLY || acc == O_RDWR, wr: acc == O_WRONLY || acc == O_RDWR, app: flag&O_APPEND != 0, p: pr, f: f}
	n, dir, name, err := f.resolve(pr.Cwd, p, true)
	if err != nil {
		if err != syscall.ENOENT || dir == nil || flag&O_CREATE == 0 {
			return nil, perr("open", p, err)
		}
		if dir.mode&0200 == 0 {
			return nil, perr("open", p, syscall.EACCES)
		}
		if strings.HasSuffix(p, "/") {
			return nil, perr("open", p, syscall.EISDIR)
		}
		n = f.inode(false, mode&^fs.FileMode(Data(pr).Umask|022))
		n.Owner = pr.String()
		dir.children[name] = n
		dir.mtime = Wall()
		file.n = n
		f.w.S.Tracef("%s creates %s", pr, file.abs)
		f.end(o, act)
		return file, nil
	}
	if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", p, syscall.EEXIST)
	}
	if n.dir && file.wr {
		return nil, perr("open", p, syscall.EISDIR)
	}
	if file.rd && n.mode&0400 == 0 || file.wr && n.mode&0200 == 0 {
		return nil, perr("open", p, syscall.EACCES)
	}
	if file.wr && n.running > 0 {
		return nil, perr("open", p, syscall.ETXTBSY)
	}
	file.n = n
	if flag&O_TRUNC != 0 && file.wr {
		if f.Free >= 0 {
			f.Free += int64(len(n.data))
		}
		n.data = nil
		n.mtime = Wall()
		n.Owner = pr.String()
		f.w.S.Tracef("%s truncates %s", pr, file.abs)
		f.end(o, act)
	}
	return file, nil
}

func (fl *File) Name() string { return fl.path }
func (fl *File) check() error {
	if fl == nil {
		return fs.ErrInvalid
	}
	if fl.closed {
		return perr("file", fl.path, fs.ErrClosed)
	}
	return nil
}

func (fl *File) Read(b []byte) (int, error) {
	if fl == nil {
		return 0, fs.ErrInvalid
	}
	if fl.std == 1 {
		rt.Yield()
		if d := Data(cur()); d.StdinTTY {
			n, ok := d.Term().read(b)
			if !ok {
				return 0, io.EOF
			}
			return n, nil
		}
		n, ok := Data(cur()).Stdin.Read(b)
		if !ok {
			return 0, io.EOF
		}
		return n, nil
	}
	_, _, act := fl.f.begin("read", fl.abs, "", len(b), nil)
	if err := fl.check(); err != nil {
		return 0, err
	}
	if act.Err != nil {
		return 0, perr("read", fl.path, act.Err)
	}
	if !fl.rd {
		return 0, perr("read", fl.path, syscall.EBADF)
	}
	if fl.n.dir {
		return 0, perr("read", fl.path, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if fl.pos >= int64(len(fl.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, fl.n.data[fl.pos:])
	fl.pos += int64(n)
	return n, nil
}

func (fl *File) ReadAt(b []byte, off int64) (int, error) {
	save := fl.pos
	fl.pos = off
	n, err := fl.Read(b)
	fl.pos = save
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

// pageSize is the unit in which a large write becomes visible.
const pageSize = 4096

func (fl *File) Write(b []byte) (int, error) {
	if fl == nil {
		return 0, fs.ErrInvalid
	}
	if fl.std >= 2 {
		rt.Yield()
		d := Data(cur())
		if fl.std == 2 {
			return d.Stdout.Write(b)
		}
		return d.Stderr.Write(b)
	}
	total := 0
	for {
		part := b[total:]
		if len(part) > pageSize {
			part = part[:pageSize]
		}
		pr, o, act := fl.f.begin("write", fl.abs, "", len(part), part)
		if err := fl.check(); err != nil {
			return total, err
		}
		if !fl.wr {
			return total, perr("write", fl.path, syscall.EBADF)
		}
		n := len(part)
		var werr error
		kill := false
		if act.Err != nil {
			werr = act.Err
			n = act.Short
			if n > len(part) {
				n = len(part)
			}
		}
		if act.KillMid > 0 && act.KillMid-1 < n {
			n = act.KillMid - 1
			kill = true
		}
		if fl.f.Free >= 0 && int64(n) > fl.f.Free {
			n = int(fl.f.Free)
			werr = syscall.ENOSPC
			fl.f.w.Fault("disk-full")
		}
		if fl.app {
			fl.pos = int64(len(fl.n.data))
		}
		end := fl.pos + int64(n)
		if end > int64(len(fl.n.data)) {
			if fl.f.Free >= 0 {
				fl.f.Free -= end - int64(len(fl.n.data))
			}
			nd := make([]byte, end)
			copy(nd, fl.n.data)
			fl.n.data = nd
		}
		copy(fl.n.data[fl.pos:], part[:n])
		fl.n.unsynced = true
		fl.pos = end
		fl.n.mtime = Wall()
		fl.n.Owner = pr.String()
		total += n
		fl.f.w.S.Tracef("%s writes %d bytes to %s", pr, n, fl.abs)
		if kill {
			fl.f.w.S.Kill(pr)
		}
		fl.f.end(o, act)
		if werr != nil {
			return total, perr("write", fl.path, werr)
		}
		if total == len(b) {
			return total, nil
		}
	}
}

func (fl *File) WriteString(s string) (int, error) { return fl.Write([]byte(s)) }
func (fl *File) WriteAt(b []byte, off int64) (int, error) {
	save := fl.pos
	fl.pos = off
	n, err := fl.Write(b)
	fl.pos = save
	return n, err
}
func (fl *File) Seek(off int64, whence int) (int64, error) {
	rt.Enter()
	if err := fl.check(); err != nil {
		return 0, err
	}
	if fl.std != 0 {
		return 0, perr("seek", fl.path, syscall.ESPIPE)
	}
	switch whence {
	case 0:
		fl.pos = off
	case 1:
		fl.pos += off
	case 2:
		fl.pos = int64(len(fl.n.data)) + off
	}
	return fl.pos, nil
}
func (fl *File) Close() error {
	if fl == nil {
		return fs.ErrInvalid
	}
	rt.Enter()
	if fl.std != 0 {
		return nil
	}
	if fl.closed {
		return perr("close", fl.path, fs.ErrClosed)
	}
	_, _, act := fl.f.begin("close", fl.abs, "", 0, nil)
	fl.closed = true
	if act.Err != nil {
		fl.lose(act)
		return perr("close", fl.path, act.Err)
	}
	return nil
}

// lose is a write-back that failed: what was written is not all there.
func (fl *File) lose(act FSAction) {
	if fl.wr && !fl.n.dir && fl.n.unsynced && len(fl.n.data) > act.Short {
		fl.n.data = append([]byte(nil), fl.n.data[:act.Short]...)
		fl.f.w.S.Tracef("data of %s is lost", fl.abs)
	}
}
func (fl *File) Sync() error {
	if fl.std != 0 {
		return nil
	}
	_, _, act := fl.f.begin("sync", fl.abs, "", 0, nil)
	if err := fl.check(); err != nil {
		return err
	}
	if act.Err == nil {
		fl.n.durable = append([]byte(nil), fl.n.data...)
		fl.n.unsynced = false
	} else {
		fl.lose(act)
	}
	return perr("sync", fl.path, act.Err)
}
func (fl *File) Truncate(n int64) error {
	pr, o, act := fl.f.begin("truncate", fl.abs, "", int(n), nil)
	if act.Err != nil {
		return perr("truncate", fl.path, act.Err)
	}
	if err := fl.check(); err != nil {
		return err
	}
	if !fl.wr {
		return perr("truncate", fl.path, syscall.EINVAL)
	}
	fl.f.trunc(pr, fl.n, n)
	fl.f.end(o, act)
	return nil
}
func (f *FS) trunc(pr *rt.Proc, n *Inode, size int64) {
	nd := make([]byte, size)
	copy(nd, n.data)
	n.data = nd
	n.mtime = Wall()
	n.Owner = pr.String()
	n.unsynced = true
}

// PowerLoss is what a power failure does to the disk: names survive, data that
// was not synced survives in part. (keep decides how much of n bytes.)
func (f *FS) PowerLoss(keep func(n int) int) (lost int) {
	var walk func(n *Inode)
	walk = func(n *Inode) {
		if n.dir {
			names := make([]string, 0, len(n.children))
			for k := range n.children {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				walk(n.children[k])
			}
			return
		}
		if !n.unsynced {
			return
		}
		n.unsynced = false
		if k := keep(len(n.data)); k < len(n.data) {
			// The new pages that were not written are not there; an old version
			// of the data may still be.
			n.data = append([]byte(nil), n.data[:k]...)
			lost++
		}
	}
	walk(f.root)
	return lost
}
func (f *FS) Truncate(p string, size int64) error {
	pr, o, act := f.begin("truncate", p, "", int(size), nil)
	if act.Err != nil {
		return perr("truncate", p, act.Err)
	}
	n, _, _, err := f.resolve(pr.Cwd, p, true)
	if err != nil {
		return perr("truncate", p, err)
	}
	if n.mode&0200 == 0 {
		return perr("truncate", p, syscall.EACCES)
	}
	f.trunc(pr, n, size)
	f.end(o, act)
	return nil
}
func (fl *File) Stat() (fs.FileInfo, error) {
	if fl == nil {
		return nil, fs.ErrInvalid
	}
	rt.Yield()
	if fl.std != 0 {
		d := Data(cur())
		mode := fs.ModeNamedPipe
		if (fl.std == 1 && d.StdinTTY) || (fl.std > 1 && d.TTY) {
			mode = fs.ModeDevice | fs.ModeCharDevice
		}
		return &Info{name: fl.path, mode: mode | 0620}, nil
	}
	if err := fl.check(); err != nil {
		return nil, err
	}
	return info(path.Base(fl.path), fl.n), nil
}
func (fl *File) Chmod(m fs.FileMode) error { return fl.f.Chmod(fl.abs, m) }
func (fl *File) Inode() *Inode             { return fl.n }
func (fl *File) Std() int                  { return fl.std }
func StdFile(i int, name string) *File     { return &File{std: i, path: name} }
func (fl *File) ReadDir(n int) ([]fs.DirEntry, error) {
	ents, err := fl.f.ReadDir(fl.abs)
	if err != nil {
		return nil, err
	}
	ents = ents[fl.dirPos:]
	if n > 0 {
		if len(ents) == 0 {
			return nil, io.EOF
		}
		if len(ents) > n {
			ents = ents[:n]
		}
	}
	fl.dirPos += len(ents)
	return ents, nil
}

// Info is a FileInfo and DirEntry.
type Info struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime int64
	n     *Inode
}

func info(name string, n *Inode) *Info {
	m := n.mode
	if n.dir {
		m |= fs.ModeDir
	}
	if n.link != "" {
		m |= fs.ModeSymlink
	}
	return &Info{name, int64(len(n.data)), m, n.mtime, n}
}
func (i *Info) Name() string       { return i.name }
func (i *Info) Size() int64        { return i.size }
func (i *Info) Mode() fs.FileMode  { return i.mode }
func (i *Info) ModTime() time.Time { return time.Unix(0, i.mtime).UTC() }
func (i *Info) IsDir() bool        { return i.mode.IsDir() }
func (i *Info) Sys() interface{}   { return nil }
func (i *Info) Node() *Inode       { return i.n }

// Dirent looks its file up again when asked for Info, like the real thing.
type Dirent struct {
	Info
	f    *FS
	path string
}

func (d *Dirent) Type() fs.FileMode { return d.mode.Type() }
func (d *Dirent) Info_() (fs.FileInfo, error) {
	return d.f.Stat(d.path, false)
}

type dirEntry struct{ d *Dirent }

func (e dirEntry) Name() string               { return e.d.name }
func (e dirEntry) IsDir() bool                { return e.d.IsDir() }
func (e dirEntry) Type() fs.FileMode          { return e.d.Type() }
func (e dirEntry) Info() (fs.FileInfo, error) { return e.d.Info_() }

func (f *FS) Stat(p string, follow bool) (fs.FileInfo, error) {
	pr, _, act := f.begin("stat", p, "", 0, nil)
	opn := "stat"
	if !follow {
		opn = "lstat"
	}
	if act.Err != nil {
		return nil, perr(opn, p, act.Err)
	}
	n, _, _, err := f.resolve(pr.Cwd, p, follow)
	if err != nil {
		return nil, perr(opn, p, err)
	}
	return info(path.Base(p), n), nil
}

func (f *FS) ReadDir(p string) ([]fs.DirEntry, error) {
	pr, _, act := f.begin("readdir", p, "", 0, nil)
	if act.Err != nil {
		return nil, perr("open", p, act.Err)
	}
	n, _, _, err := f.resolve(pr.Cwd, p, true)
	if err != nil {
		return nil, perr("open", p, err)
	}
	if !n.dir {
		return nil, perr("readdirent", p, syscall.ENOTDIR)
	}
	if n.mode&0400 == 0 {
		return nil, perr("open", p, syscall.EACCES)
	}
	names := []string{}
	for k := range n.children {
		names = append(names, k)
	}
	sort.Strings(names)
	out := []fs.DirEntry{}
	for _, k := range names {
		out = append(out, dirEntry{&Dirent{*info(k, n.children[k]), f, path.Join(clean(pr.Cwd, p), k)}})
	}
	return out, nil
}

func (f *FS) Mkdir(p string, mode fs.FileMode) error {
	pr, o, act := f.begin("mkdir", p, "", 0, nil)
	if act.Err != nil {
		return perr("mkdir", p, act.Err)
	}
	n, dir, name, err := f.resolve(pr.Cwd, p, true)
	if err == nil && n != nil {
		return perr("mkdir", p, syscall.EEXIST)
	}
	if dir == nil {
		return perr("mkdir", p, err)
	}
	if dir.mode&0200 == 0 {
		return perr("mkdir", p, syscall.EACCES)
	}
	dir.children[name] = f.inode(true, mode&^022)
	dir.mtime = Wall()
	f.end(o, act)
	return nil
}

func (f *FS) Remove(p string) error {
	pr, o, act := f.begin("remove", p, "", 0, nil)
	if act.Err != nil {
		return perr("remove", p, act.Err)
	}
	n, dir, name, err := f.resolve(pr.Cwd, p, false)
	if err != nil {
		return perr("remove", p, err)
	}
	if dir == nil {
		return perr("remove", p, syscall.EBUSY)
	}
	if n.dir && len(n.children) > 0 {
		return perr("remove", p, syscall.ENOTEMPTY)
	}
	if dir.mode&0200 == 0 {
		return perr("remove", p, syscall.EACCES)
	}
	delete(dir.children, name)
	if f.Free >= 0 {
		f.Free += int64(len(n.data))
	}
	dir.mtime = Wall()
	f.w.S.Tracef("%s removes %s", pr, o.Path)
	f.end(o, act)
	return nil
}

func (f *FS) RemoveAll(p string) error {
	pr := cur()
	n, _, _, err := f.resolve(pr.Cwd, p, false)
	if err == syscall.ENOENT || err == syscall.ENOTDIR {
		rt.Yield()
		return nil
	}
	if err != nil {
		return perr("unlinkat", p, err)
	}
	if n.dir {
		ents, err := f.ReadDir(p)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if err := f.RemoveAll(path.Join(p, e.Name())); err != nil {
				return err
			}
		}
	}
	err = f.Remove(p)
	if err != nil && errIs(err, syscall.ENOENT) {
		return nil
	}
	return err
}

func errIs(err error, e syscall.Errno) bool {
	pe, ok := err.(*fs.PathError)
	return ok && pe.Err == e
}

func (f *FS) Rename(a, b string) error {
	pr, o, act := f.begin("rename", a, clean(cur().Cwd, b), 0, nil)
	fail := func(err error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: err} }
	if act.Err != nil {
		return fail(act.Err)
	}
	n, ad, an, err := f.resolve(pr.Cwd, a, false)
	if err != nil {
		return fail(err)
	}
	m, bd, bn, err := f.resolve(pr.Cwd, b, false)
	if err != nil && bd == nil {
		return fail(err)
	}
	if ad == nil || bd == nil {
		return fail(syscall.EBUSY)
	}
	if ad.mode&0200 == 0 || bd.mode&0200 == 0 {
		return fail(syscall.EACCES)
	}
	if crossDev(clean(pr.Cwd, a)) != crossDev(clean(pr.Cwd, b)) {
		return fail(syscall.EXDEV)
	}
	if m != nil {
		if m == n {
			return nil
		}
		if m.dir && !n.dir {
			return fail(syscall.EISDIR)
		}
		if m.dir && len(m.children) > 0 {
			return fail(syscall.ENOTEMPTY)
		}
		if !m.dir && n.dir {
			return fail(syscall.ENOTDIR)
		}
		if f.Free >= 0 {
			f.Free += int64(len(m.data))
		}
	}
	delete(ad.children, an)
	bd.children[bn] = n
	ad.mtime, bd.mtime = Wall(), Wall()
	f.w.S.Tracef("%s renames %s to %s", pr, o.Path, o.To)
	f.end(o, act)
	return nil
}

// /tmp is a separate file system, as on most Linux machines.
func crossDev(p string) bool { return p == "/tmp" || strings.HasPrefix(p, "/tmp/") }

func (f *FS) Chmod(p string, m fs.FileMode) error {
	pr, o, act := f.begin("chmod", p, "", 0, nil)
	if act.Err != nil {
		return perr("chmod", p, act.Err)
	}
	n, _, _, err := f.resolve(pr.Cwd, p, true)
	if err != nil {
		return perr("chmod", p, err)
	}
	n.mode = m & 0777
	f.w.S.Tracef("%s chmods %s to %o", pr, o.Path, n.mode)
	f.end(o, act)
	return nil
}

func (f *FS) Chtimes(p string, mtime time.Time) error {
	pr, o, act := f.begin("chtimes", p, "", 0, nil)
	if act.Err != nil {
		return perr("chtimes", p, act.Err)
	}
	n, _, _, err := f.resolve(pr.Cwd, p, true)
	if err != nil {
		return perr("chtimes", p, err)
	}
	if !mtime.IsZero() {
		n.mtime = mtime.UnixNano()
	}
	f.end(o, act)
	return nil
}

func (f *FS) Symlink(target, p string) error {
	pr, o, act := f.begin("symlink", p, target, 0, nil)
	if act.Err != nil {
		return &os.LinkError{Op: "symlink", Old: target, New: p, Err: act.Err}
	}
	n, dir, name, err := f.resolve(pr.Cwd, p, false)
	if n != nil {
		return &os.LinkError{Op: "symlink", Old: target, New: p, Err: syscall.EEXIST}
	}
	if dir == nil {
		return &os.LinkError{Op: "symlink", Old: target, New: p, Err: err}
	}
	if dir.mode&0200 == 0 {
		return &os.LinkError{Op: "symlink", Old: target, New: p, Err: syscall.EACCES}
	}
	l := f.inode(false, 0777)
	l.link = target
	dir.children[name] = l
	f.end(o, act)
	return nil
}

func (f *FS) Link(a, b string) error {
	pr, o, act := f.begin("link", a, clean(cur().Cwd, b), 0, nil)
	fail := func(err error) error { return &os.LinkError{Op: "link", Old: a, New: b, Err: err} }
	if act.Err != nil {
		return fail(act.Err)
	}
	n, _, _, err := f.resolve(pr.Cwd, a, false)
	if err != nil {
		return fail(err)
	}
	m, bd, bn, err := f.resolve(pr.Cwd, b, false)
	if m != nil {
		return fail(syscall.EEXIST)
	}
	if bd == nil {
		return fail(err)
	}
	if bd.mode&0200 == 0 {
		return fail(syscall.EACCES)
	}
	if crossDev(clean(pr.Cwd, a)) != crossDev(clean(pr.Cwd, b)) {
		return fail(syscall.EXDEV)
	}
	bd.children[bn] = n
	f.end(o, act)
	return nil
}

func (f *FS) Readlink(p string) (string, error) {
	pr, _, act := f.begin("readlink", p, "", 0, nil)
	if act.Err != nil {
		return "", perr("readlink", p, act.Err)
	}
	n, _, _, err := f.resolve(pr.Cwd, p, false)
	if err != nil {
		return "", perr("readlink", p, err)
	}
	if n.link == "" {
		return "", perr("readlink", p, syscall.EINVAL)
	}
	return n.link, nil
}

func (f *FS) Chdir(p string) error {
	pr := cur()
	rt.Yield()
	n, _, _, err := f.resolve(pr.Cwd, p, true)
	if err != nil {
		return perr("chdir", p, err)
	}
	if !n.dir {
		return perr("chdir", p, syscall.ENOTDIR)
	}
	pr.Cwd = clean(pr.Cwd, p)
	return nil
}

// Executable reports whether p is an executable regular file.
func (f *FS) Executable(cwd, p string) bool {
	n := f.lookup(cwd, p, true)
	return n != nil && !n.dir && n.mode&0111 != 0
}
func (f *FS) ReadExe(cwd, p string) []byte {
	n := f.lookup(cwd, p, true)
	if n == nil {
		return nil
	}
	return n.data
}

// Fd returns the descriptor number (standard streams only are meaningful).
func (fl *File) Fd() uintptr {
	if fl.std > 0 {
		return uintptr(30000 + fl.std - 1) // never a descriptor of the real process
	}
	return uintptr(31000 + fl.n.id)
}

// Kind is "file", "dir", "link" or "" if there is nothing at p.
func (f *FS) Kind(p string) string {
	n := f.lookup("/", p, false)
	switch {
	case n == nil:
		return ""
	case n.dir:
		return "dir"
	case n.link != "":
		return "link"
	}
	return "file"
}
