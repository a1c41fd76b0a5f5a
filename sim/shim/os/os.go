// Package os is the simulated operating system as seen by the code under test.
package os

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"strconv"
	"strings"
	"syscall"
	"time"

	"alda.sim/rt"
	"alda.sim/world"
)

type File = world.File

type std struct {
	in, out, err *File
	args         []string
}

var boot = &std{world.StdFile(1, "/dev/stdin"), world.StdFile(2, "/dev/stdout"), world.StdFile(3, "/dev/stderr"), []string{"alda"}}

func get() *std {
	p := rt.CurProc()
	if p == nil {
		return boot
	}
	if s, ok := p.Data["os"].(*std); ok {
		return s
	}
	s := &std{world.StdFile(1, "/dev/stdin"), world.StdFile(2, "/dev/stdout"), world.StdFile(3, "/dev/stderr"), p.Args}
	p.Data["os"] = s
	return s
}

func SimArgs() *[]string { return &get().args }
func SimStdin() **File   { return &get().in }
func SimStdout() **File  { return &get().out }
func SimStderr() **File  { return &get().err }

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC
)

func fl(f *world.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return f, nil
}

func Open(name string) (*File, error) { return fl(world.W.FS.Open(name, O_RDONLY, 0)) }
func Create(name string) (*File, error) {
	return fl(world.W.FS.Open(name, O_RDWR|O_CREATE|O_TRUNC, 0666))
}
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return fl(world.W.FS.Open(name, flag, perm))
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	b := make([]byte, 1<<16)
	for {
		n, err := f.Read(b)
		out = append(out, b[:n]...)
		if err == io.EOF {
			if out == nil {
				out = []byte{}
			}
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Remove(name string) error               { return world.W.FS.Remove(name) }
func RemoveAll(name string) error            { return world.W.FS.RemoveAll(name) }
func Rename(a, b string) error               { return world.W.FS.Rename(a, b) }
func Mkdir(name string, perm FileMode) error { return world.W.FS.Mkdir(name, perm) }
func Stat(name string) (FileInfo, error)     { return world.W.FS.Stat(name, true) }
func Lstat(name string) (FileInfo, error)    { return world.W.FS.Stat(name, false) }
func Chmod(name string, m FileMode) error    { return world.W.FS.Chmod(name, m) }
func Truncate(name string, size int64) error { return world.W.FS.Truncate(name, size) }
func Chtimes(name string, a, m time.Time) error {
	return world.W.FS.Chtimes(name, m)
}
func ReadDir(name string) ([]DirEntry, error) { return world.W.FS.ReadDir(name) }
func Symlink(oldname, newname string) error   { return world.W.FS.Symlink(oldname, newname) }
func Link(oldname, newname string) error      { return world.W.FS.Link(oldname, newname) }
func Readlink(name string) (string, error)    { return world.W.FS.Readlink(name) }
func Chdir(dir string) error                  { return world.W.FS.Chdir(dir) }
func Chown(name string, uid, gid int) error   { rt.Yield(); return nil }
func Lchown(name string, uid, gid int) error  { rt.Yield(); return nil }
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*world.Info)
	y, ok2 := b.(*world.Info)
	return ok1 && ok2 && x.Node() == y.Node()
}

func MkdirAll(p string, perm FileMode) error {
	if fi, err := Stat(p); err == nil {
		if fi.IsDir() {
			return nil
		}
		return &PathError{Op: "mkdir", Path: p, Err: syscall.ENOTDIR}
	}
	d := path.Dir(strings.TrimRight(p, "/"))
	if d != p && d != "." && d != "/" {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := Mkdir(p, perm)
	if err != nil {
		fi, err1 := Lstat(p)
		if err1 == nil && fi.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func prefixAndSuffix(pattern string) (string, string, error) {
	if strings.Contains(pattern, "/") {
		return "", "", &PathError{Op: "createtemp", Path: pattern, Err: fmt.Errorf("pattern contains path separator")}
	}
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return pattern[:i], pattern[i+1:], nil
	}
	return pattern, "", nil
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf, err := prefixAndSuffix(pattern)
	if err != nil {
		return "", err
	}
	for try := 0; ; try++ {
		name := path.Join(dir, pre+strconv.Itoa(rt.S.Rng.Intn(1<<31))+suf)
		err := Mkdir(name, 0700)
		if err == nil {
			return name, nil
		}
		if IsExist(err) && try < 1000 {
			continue
		}
		return "", err
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf, err := prefixAndSuffix(pattern)
	if err != nil {
		return nil, err
	}
	for try := 0; ; try++ {
		name := path.Join(dir, pre+strconv.Itoa(rt.S.Rng.Intn(1<<31))+suf)
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) && try < 1000 {
			continue
		}
		return f, err
	}
}

func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

func env() map[string]string {
	p := rt.CurProc()
	if p == nil {
		return nil
	}
	return p.Env
}
func Getenv(k string) string            { return env()[k] }
func LookupEnv(k string) (string, bool) { v, ok := env()[k]; return v, ok }
func Setenv(k, v string) error          { env()[k] = v; return nil }
func Unsetenv(k string) error           { delete(env(), k); return nil }
func Clearenv() {
	for k := range env() {
		delete(env(), k)
	}
}
func Environ() []string {
	out := []string{}
	for k, v := range env() {
		out = append(out, k+"="+v)
	}
	// deterministic order
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}
func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

func Getwd() (string, error) {
	p := rt.CurProc()
	if p == nil {
		return "/", nil
	}
	rt.Yield()
	return p.Cwd, nil
}
func Getpid() int {
	if p := rt.CurProc(); p != nil {
		return p.PID
	}
	return 1
}
func Getppid() int              { return 1 }
func Getuid() int               { return 1000 }
func Geteuid() int              { return 1000 }
func Getgid() int               { return 1000 }
func Getegid() int              { return 1000 }
func Hostname() (string, error) { return "simhost", nil }
func Exit(code int)             { rt.Exit(code) }
func Getpagesize() int          { return 4096 }
func Executable() (string, error) {
	p := rt.CurProc()
	if p == nil {
		return "/usr/local/bin/alda", nil
	}
	return world.Data(p).Exe, nil
}
func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", fmt.Errorf("$HOME is not defined")
}
func UserCacheDir() (string, error) {
	if d := Getenv("XDG_CACHE_HOME"); d != "" {
		return d, nil
	}
	h, err := UserHomeDir()
	if err != nil {
		return "", fmt.Errorf("neither $XDG_CACHE_HOME nor $HOME are defined")
	}
	return h + "/.cache", nil
}
func UserConfigDir() (string, error) {
	if d := Getenv("XDG_CONFIG_HOME"); d != "" {
		return d, nil
	}
	h, err := UserHomeDir()
	if err != nil {
		return "", fmt.Errorf("neither $XDG_CONFIG_HOME nor $HOME are defined")
	}
	return h + "/.config", nil
}

// Process of another program.
type Process struct {
	Pid int
	p   *rt.Proc
}

func SimProcess(p *rt.Proc) *Process { return &Process{p.PID, p} }
func FindProcess(pid int) (*Process, error) {
	for _, p := range rt.S.Procs {
		if p.PID == pid && !p.Dead {
			return &Process{pid, p}, nil
		}
	}
	return &Process{pid, nil}, nil
}
func (p *Process) Kill() error {
	rt.Yield()
	if p.p == nil || p.p.Dead {
		return os.ErrProcessDone
	}
	rt.S.Kill(p.p)
	return nil
}
func (p *Process) Signal(s Signal) error {
	rt.Yield()
	if p.p == nil || p.p.Dead {
		return os.ErrProcessDone
	}
	if n, ok := s.(syscall.Signal); ok {
		if n == 0 {
			return nil
		}
		if n == syscall.SIGKILL {
			rt.S.Kill(p.p)
		} else {
			world.W.Signal(p.p, int(n))
		}
	}
	return nil
}
func (p *Process) Release() error { return nil }
func (p *Process) Wait() (*ProcessState, error) {
	if p.p == nil {
		return nil, syscall.ECHILD
	}
	world.WaitExit(p.p, 0)
	return &ProcessState{p.p}, nil
}

type ProcessState struct{ p *rt.Proc }

func SimState(p *rt.Proc) *ProcessState { return &ProcessState{p} }
func (s *ProcessState) ExitCode() int   { return s.p.Code }
func (s *ProcessState) Exited() bool    { return s.p.Exited }
func (s *ProcessState) Success() bool   { return s.p.Code == 0 }
func (s *ProcessState) Pid() int        { return s.p.PID }
func (s *ProcessState) String() string  { return fmt.Sprintf("exit status %d", s.p.Code) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}
func DirFS(dir string) fs.FS { return dirFS(dir) }
