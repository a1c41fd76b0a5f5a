package world

import (
	"io/fs"
	"os"
	"os/exec"
	"path"
	"strings"
	"syscall"

	"alda.sim/rt"
)

// Cmd mirrors what exec.Cmd needs from the world.
type Running struct {
	P    *rt.Proc
	Done func()
}

// LookPath searches PATH of the current process.
func LookPath(file string) (string, error) {
	rt.Yield()
	p := cur()
	if strings.Contains(file, "/") {
		if W.FS.Executable(p.Cwd, file) {
			return file, nil
		}
		return "", &exec.Error{Name: file, Err: fs.ErrNotExist}
	}
	for _, d := range strings.Split(p.Env["PATH"], ":") {
		if d == "" {
			d = "."
		}
		c := path.Join(d, file)
		if W.FS.Executable(p.Cwd, c) {
			return c, nil
		}
	}
	return "", &exec.Error{Name: file, Err: exec.ErrNotFound}
}

// StartExec starts the program stored at path, as exec.Cmd.Start would.
func StartExec(pth string, args []string, env []string, dir string) (*rt.Proc, error) {
	rt.Yield()
	p := cur()
	fail := func(err error) error { return &os.PathError{Op: "fork/exec", Path: pth, Err: err} }
	if W.SpawnHook != nil {
		if err := W.SpawnHook(p, pth, args); err != nil {
			return nil, fail(err)
		}
	}
	n := W.FS.lookup(p.Cwd, pth, true)
	if n == nil {
		return nil, fail(syscall.ENOENT)
	}
	if n.dir || n.mode&0111 == 0 {
		return nil, fail(syscall.EACCES)
	}
	prog, main := W.program(n.data)
	if main == nil {
		return nil, fail(syscall.ENOEXEC)
	}
	_ = prog
	sp := Spec{Name: path.Base(pth), Args: args, Cwd: p.Cwd, Exe: clean(p.Cwd, pth), Parent: p, Pipe: true}
	if dir != "" {
		sp.Cwd = clean(p.Cwd, dir)
	}
	if env == nil {
		sp.Env = p.Env
	} else {
		sp.Env = map[string]string{}
		for _, kv := range env {
			if i := strings.IndexByte(kv, '='); i > 0 {
				sp.Env[kv[:i]] = kv[i+1:]
			}
		}
	}
	c := W.StartProgram(sp, main)
	return c, nil
}

// A program file starts with "#!sim NAME ..." and ends with "#end\n".
func (w *World) program(data []byte) (string, func(p *rt.Proc)) {
	s := string(data)
	if !strings.HasPrefix(s, "#!sim ") || !strings.HasSuffix(s, "#end\n") {
		return "", nil
	}
	head := s[len("#!sim "):]
	if i := strings.IndexByte(head, '\n'); i >= 0 {
		head = head[:i]
	}
	f := strings.Fields(head)
	if len(f) == 0 {
		return "", nil
	}
	return head, w.Programs[f[0]]
}

// IsCompleteProgram tells whether data is a complete program file, and its header.
func IsCompleteProgram(data []byte) (string, bool) {
	s := string(data)
	if !strings.HasPrefix(s, "#!sim ") || !strings.HasSuffix(s, "#end\n") {
		return "", false
	}
	head := s[len("#!sim "):]
	head = head[:strings.IndexByte(head, '\n')]
	return head, true
}

// MakeProgram builds a program file of about the given size.
func MakeProgram(head string, size int) []byte {
	s := "#!sim " + head + "\n"
	body := strings.Repeat("0123456789abcdef"+head[:1]+"\n", 1+size/18)
	return []byte(s + body + "#end\n")
}

// HTTPRequest is what a simulated process sends.
type HTTPRequest struct {
	Method, URL string
	Header      map[string]string
	Body        []byte
	P           *rt.Proc
}

// HTTPResponse is what the simulated service answers.
type HTTPResponse struct {
	Err       error
	Hang      bool  // never answers
	Delay     int64 // before the headers
	Status    int
	Body      []byte
	CutAt     int // >=0: body ends with an error after this many bytes
	StallAt   int // >=0: body stalls forever after this many bytes
	ChunkGap  int64
	NoLength  bool
	ChunkSize int
}
