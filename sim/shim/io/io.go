// Package io is io without real pipes.
package io

import (
	"io"

	"alda.sim/rt"
)

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }
type pipe struct {
	buf  []byte
	n    int
	werr error
	rerr error
	q    rt.WaitQ
}

func Pipe() (*PipeReader, *PipeWriter) { p := &pipe{}; return &PipeReader{p}, &PipeWriter{p} }
func (r *PipeReader) Read(b []byte) (int, error) {
	rt.Yield()
	for len(r.p.buf) == 0 {
		if r.p.rerr != nil {
			return 0, io.ErrClosedPipe
		}
		if r.p.werr != nil {
			return 0, r.p.werr
		}
		r.p.q.Wait("pipe read")
	}
	n := copy(b, r.p.buf)
	r.p.buf = r.p.buf[n:]
	r.p.q.WakeAll()
	return n, nil
}
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.rerr = err
	r.p.q.WakeAll()
	return nil
}
func (w *PipeWriter) Write(b []byte) (int, error) {
	rt.Yield()
	if w.p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if w.p.rerr != nil {
		return 0, w.p.rerr
	}
	w.p.buf = append(w.p.buf, b...)
	w.p.q.WakeAll()
	for len(w.p.buf) > 0 && w.p.rerr == nil {
		w.p.q.Wait("pipe write")
	}
	return len(b), nil
}
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.werr = err
	w.p.q.WakeAll()
	return nil
}
