// Package readline is the simulated user's prompt.
package readline

import (
	"errors"
	"io"

	"alda.sim/rt"
	"alda.sim/shim/os"
	"alda.sim/world"
)

var ErrInterrupt = errors.New("Interrupt")

type InterruptError struct{ Line []rune }

func (*InterruptError) Error() string { return "Interrupted" }

type AutoCompleter interface {
	Do(line []rune, pos int) (newLine [][]rune, length int)
}

type Config struct {
	Prompt                 string
	HistoryFile            string
	HistoryLimit           int
	DisableAutoSaveHistory bool
	HistorySearchFold      bool
	AutoComplete           AutoCompleter
	VimMode                bool
	InterruptPrompt        string
	EOFPrompt              string
	Stdin                  io.ReadCloser
	Stdout                 io.Writer
	Stderr                 io.Writer
	MaskRune               rune
	EnableMask             bool
	UniqueEditLine         bool
}

type Instance struct {
	Config *Config
	t      *world.Terminal
}

func New(prompt string) (*Instance, error) { return NewEx(&Config{Prompt: prompt}) }

func NewEx(c *Config) (*Instance, error) {
	rt.Yield()
	d := world.Data(rt.CurProc())
	if d.User == nil {
		d.User = &world.Terminal{}
	}
	if c.HistoryFile != "" {
		// the history file is opened for appending, created if missing
		f, err := os.OpenFile(c.HistoryFile, os.O_APPEND|os.O_CREATE|os.O_RDWR, 0666)
		if err == nil {
			f.Close()
		}
	}
	return &Instance{c, d.User}, nil
}

func (i *Instance) Readline() (string, error) {
	l, ok := i.t.Next()
	if !ok {
		return "", io.EOF
	}
	if l.Interrupt {
		return l.Text, ErrInterrupt
	}
	return l.Text, nil
}
func (i *Instance) ReadSlice() ([]byte, error)  { s, err := i.Readline(); return []byte(s), err }
func (i *Instance) SetPrompt(s string)          { i.Config.Prompt = s }
func (i *Instance) Close() error                { rt.Yield(); return nil }
func (i *Instance) Refresh()                    {}
func (i *Instance) Clean()                      {}
func (i *Instance) SaveHistory(string) error    { return nil }
func (i *Instance) SetHistoryPath(string)       {}
func (i *Instance) Stdout() io.Writer           { return *os.SimStdout() }
func (i *Instance) Stderr() io.Writer           { return *os.SimStderr() }
func (i *Instance) Write(b []byte) (int, error) { return (*os.SimStdout()).Write(b) }
