// Package survey asks the simulated user at the terminal; the first option is
// chosen if the line is not one of the options.
package survey

import (
	"errors"
	"io"

	"alda.sim/rt"
	"alda.sim/world"
)

type Prompt interface{}
type AskOpt func()

type Select struct {
	Message  string
	Options  []string
	Default  interface{}
	Help     string
	PageSize int
}
type Confirm struct {
	Message string
	Default bool
	Help    string
}
type Input struct {
	Message string
	Default string
	Help    string
}

func AskOne(p Prompt, response interface{}, opts ...AskOpt) error {
	rt.Yield()
	d := world.Data(rt.CurProc())
	if !d.StdinTTY {
		return errors.New("inappropriate ioctl for device")
	}
	l, ok := d.Term().Next()
	if !ok {
		return io.EOF
	}
	if l.Interrupt {
		return errors.New("interrupt")
	}
	line := l.Text
	switch q := p.(type) {
	case *Select:
		ans := ""
		if len(q.Options) > 0 {
			ans = q.Options[0]
		}
		for _, o := range q.Options {
			if o == line {
				ans = o
			}
		}
		if s, ok := response.(*string); ok {
			*s = ans
		}
	case *Confirm:
		if b, ok := response.(*bool); ok {
			*b = line == "" && q.Default || line == "y"
		}
	case *Input:
		if s, ok := response.(*string); ok {
			*s = line
		}
	}
	return nil
}
