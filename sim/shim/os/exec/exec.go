// Package exec starts simulated programs.
package exec

import (
	"bytes"
	"errors"
	"io"
	realexec "os/exec"
	"strings"

	"alda.sim/rt"
	"alda.sim/shim/context"
	"alda.sim/shim/os"
	"alda.sim/world"
)

type Error = realexec.Error

var ErrNotFound = realexec.ErrNotFound
var ErrDot = realexec.ErrDot

type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	p            *rt.Proc
	ctx          context.Context
	SysProcAttr  interface{}
}

func LookPath(file string) (string, error) { return world.LookPath(file) }

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if !strings.Contains(name, "/") {
		p, err := world.LookPath(name)
		if err != nil {
			c.Err = err
		} else {
			c.Path = p
		}
	}
	return c
}
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}
func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

func (c *Cmd) Start() error {
	if c.Err != nil {
		return c.Err
	}
	if c.p != nil {
		return errors.New("exec: already started")
	}
	p, err := world.StartExec(c.Path, c.Args, c.Env, c.Dir)
	if err != nil {
		return err
	}
	d := world.Data(p)
	// output goes to the given writers when it is written, in order
	d.Stdout.Tee = tee(c.Stdout)
	d.Stderr.Tee = tee(c.Stderr)
	c.p = p
	c.Process = os.SimProcess(p)
	if c.ctx != nil {
		ctx := c.ctx
		rt.Go(func() {
			rt.Recv(ctx.Done())
			rt.S.Kill(p)
		})
	}
	return nil
}

func tee(w io.Writer) func([]byte) {
	if w == nil {
		return nil
	}
	if f, ok := w.(*os.File); ok {
		if f == nil {
			return nil
		}
		parent := rt.CurProc()
		std := f.Std()
		return func(b []byte) {
			if std == 2 {
				world.Data(parent).Stdout.Write(b)
			} else if std == 3 {
				world.Data(parent).Stderr.Write(b)
			}
		}
	}
	return func(b []byte) { w.Write(b) }
}

func (c *Cmd) Wait() error {
	if c.p == nil {
		return errors.New("exec: not started")
	}
	world.WaitExit(c.p, 0)
	c.ProcessState = os.SimState(c.p)
	if c.p.Code != 0 {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return nil
}
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}
func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		if f, ok := c.Stdout.(*os.File); !ok || f != nil {
			return nil, errors.New("exec: Stdout already set")
		}
	}
	var b, eb bytes.Buffer
	c.Stdout = &b
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &eb
	}
	err := c.Run()
	if ee, ok := err.(*ExitError); ok && capture {
		ee.Stderr = eb.Bytes()
	}
	return b.Bytes(), err
}
func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}
func (c *Cmd) Environ() []string {
	if c.Env != nil {
		return c.Env
	}
	return os.Environ()
}

type pipeReader struct {
	c *Cmd
	p *world.Pipe
}

func (r *pipeReader) Read(b []byte) (int, error) {
	rt.Yield()
	n, ok := r.p.Read(b)
	if !ok {
		return 0, io.EOF
	}
	return n, nil
}
func (r *pipeReader) Close() error { return nil }

type pipeWriter struct{ p *world.Pipe }

func (w *pipeWriter) Write(b []byte) (int, error) { w.p.Write(b); return len(b), nil }

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	p := world.NewPipe()
	c.Stdout = &pipeWriter{p}
	return &pipeReader{c, p}, nil
}
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	p := world.NewPipe()
	c.Stderr = &pipeWriter{p}
	return &pipeReader{c, p}, nil
}
