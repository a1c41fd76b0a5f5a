// Package http talks to the simulated web service.
package http

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"alda.sim/rt"
	"alda.sim/shim/context"
	"alda.sim/world"
)

type Client struct {
	Transport     http.RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

var DefaultClient = &Client{}

func Get(u string) (*http.Response, error)  { return DefaultClient.Get(u) }
func Head(u string) (*http.Response, error) { return DefaultClient.Head(u) }
func Post(u, ct string, body io.Reader) (*http.Response, error) {
	return DefaultClient.Post(u, ct, body)
}
func PostForm(u string, v url.Values) (*http.Response, error) {
	return DefaultClient.PostForm(u, v)
}
func (c *Client) Get(u string) (*http.Response, error) {
	r, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}
func (c *Client) Head(u string) (*http.Response, error) {
	r, err := http.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}
func (c *Client) Post(u, ct string, body io.Reader) (*http.Response, error) {
	r, err := http.NewRequest("POST", u, body)
	if err != nil {
		return nil, err
	}
	r.Header.Set("Content-Type", ct)
	return c.Do(r)
}
func (c *Client) PostForm(u string, v url.Values) (*http.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(v.Encode()))
}
func (c *Client) CloseIdleConnections() {}

func NewRequestWithContext(ctx context.Context, m, u string, b io.Reader) (*http.Request, error) {
	return http.NewRequestWithContext(ctx, m, u, b)
}

type timeoutErr struct{ s string }

func (e timeoutErr) Error() string   { return e.s }
func (e timeoutErr) Timeout() bool   { return true }
func (e timeoutErr) Temporary() bool { return true }

func (c *Client) Do(r *http.Request) (*http.Response, error) {
	rt.Yield()
	fail := func(err error) error {
		return &url.Error{Op: r.Method[:1] + strings.ToLower(r.Method[1:]), URL: r.URL.String(), Err: err}
	}
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	req := &world.HTTPRequest{Method: r.Method, URL: r.URL.String(), Body: body, Header: map[string]string{}, P: rt.CurProc()}
	for k, v := range r.Header {
		req.Header[k] = strings.Join(v, ",")
	}
	deadline := int64(0)
	if c.Timeout > 0 {
		deadline = rt.S.Now() + int64(c.Timeout)
	}
	if d, ok := r.Context().Deadline(); ok {
		x := d.UnixNano() - world.Epoch
		if deadline == 0 || x < deadline {
			deadline = x
		}
	}
	timeout := timeoutErr{"context deadline exceeded (Client.Timeout exceeded while awaiting headers)"}
	var resp *world.HTTPResponse
	if world.W.HTTP == nil {
		rt.Sleep(5_000_000)
		return nil, fail(errors.New("dial tcp: lookup " + r.URL.Host + ": no such host"))
	}
	rt.Sleep(1_000_000)
	resp = world.W.HTTP(rt.CurProc(), req)
	wait := resp.Delay
	if resp.Hang {
		wait = 1 << 60
	}
	if wait > 0 {
		if deadline != 0 && rt.S.Now()+wait > deadline {
			rt.Sleep(deadline - rt.S.Now())
			return nil, fail(timeout)
		}
		if resp.Hang {
			rt.Sleep(1 << 61)
		}
		rt.Sleep(wait)
	}
	if resp.Err != nil {
		return nil, fail(resp.Err)
	}
	hr := &http.Response{
		Status: fmt.Sprintf("%d %s", resp.Status, http.StatusText(resp.Status)), StatusCode: resp.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: r,
		ContentLength: int64(len(resp.Body)),
		Body:          &bodyReader{r: bytes.NewReader(resp.Body), resp: resp, deadline: deadline},
	}
	if resp.NoLength {
		hr.ContentLength = -1
	}
	return hr, nil
}

type bodyReader struct {
	r        *bytes.Reader
	resp     *world.HTTPResponse
	n        int
	deadline int64
	closed   bool
}

func (b *bodyReader) Read(p []byte) (int, error) {
	rt.Yield()
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.resp.ChunkGap > 0 {
		if b.deadline != 0 && rt.S.Now()+b.resp.ChunkGap > b.deadline {
			rt.Sleep(b.deadline - rt.S.Now())
			return 0, timeoutErr{"context deadline exceeded (Client.Timeout or context cancellation while reading body)"}
		}
		rt.Sleep(b.resp.ChunkGap)
	}
	if b.deadline != 0 && rt.S.Now() >= b.deadline {
		return 0, timeoutErr{"context deadline exceeded (Client.Timeout or context cancellation while reading body)"}
	}
	max := len(p)
	if b.resp.ChunkSize > 0 && max > b.resp.ChunkSize {
		max = b.resp.ChunkSize
	}
	if s := b.resp.StallAt; s > 0 {
		if b.n >= s {
			if b.deadline == 0 {
				rt.Sleep(1 << 61)
			}
			rt.Sleep(b.deadline - rt.S.Now())
			return 0, timeoutErr{"context deadline exceeded (Client.Timeout or context cancellation while reading body)"}
		}
		if b.n+max > s {
			max = s - b.n
		}
	}
	if c := b.resp.CutAt; c > 0 {
		if b.n >= c {
			return 0, io.ErrUnexpectedEOF
		}
		if b.n+max > c {
			max = c - b.n
		}
	}
	n, err := b.r.Read(p[:max])
	b.n += n
	return n, err
}
func (b *bodyReader) Close() error { b.closed = true; return nil }
