package check

import (
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"alda.sim/rt"
	"alda.sim/world"
)

// ---------------------------------------------------------------- bencode

func bencode(v interface{}) []byte {
	var sb strings.Builder
	benc(&sb, v)
	return []byte(sb.String())
}

func benc(sb *strings.Builder, v interface{}) {
	switch x := v.(type) {
	case string:
		fmt.Fprintf(sb, "%d:%s", len(x), x)
	case int:
		fmt.Fprintf(sb, "i%de", x)
	case int64:
		fmt.Fprintf(sb, "i%de", x)
	case []interface{}:
		sb.WriteByte('l')
		for _, y := range x {
			benc(sb, y)
		}
		sb.WriteByte('e')
	case map[string]interface{}:
		sb.WriteByte('d')
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			benc(sb, k)
			benc(sb, x[k])
		}
		sb.WriteByte('e')
	default:
		panic(fmt.Sprintf("bencode: %T", v))
	}
}

var errIncomplete = fmt.Errorf("incomplete")

// bdecode decodes one value at the start of b.
func bdecode(b []byte) (v interface{}, n int, err error) {
	if len(b) == 0 {
		return nil, 0, errIncomplete
	}
	switch {
	case b[0] == 'i':
		for i := 1; i < len(b); i++ {
			if b[i] == 'e' {
				x, err := strconv.ParseInt(string(b[1:i]), 10, 64)
				return x, i + 1, err
			}
		}
		return nil, 0, errIncomplete
	case b[0] >= '0' && b[0] <= '9':
		for i := 1; i < len(b); i++ {
			if b[i] == ':' {
				k, err := strconv.Atoi(string(b[:i]))
				if err != nil {
					return nil, 0, err
				}
				if len(b) < i+1+k {
					return nil, 0, errIncomplete
				}
				return string(b[i+1 : i+1+k]), i + 1 + k, nil
			}
			if b[i] < '0' || b[i] > '9' {
				return nil, 0, fmt.Errorf("bad length")
			}
		}
		return nil, 0, errIncomplete
	case b[0] == 'l' || b[0] == 'd':
		i := 1
		var list []interface{}
		for {
			if i >= len(b) {
				return nil, 0, errIncomplete
			}
			if b[i] == 'e' {
				i++
				break
			}
			x, k, err := bdecode(b[i:])
			if err != nil {
				return nil, 0, err
			}
			list = append(list, x)
			i += k
		}
		if b[0] == 'l' {
			return list, i, nil
		}
		m := map[string]interface{}{}
		if len(list)%2 != 0 {
			return nil, 0, fmt.Errorf("odd dictionary")
		}
		for k := 0; k < len(list); k += 2 {
			key, ok := list[k].(string)
			if !ok {
				return nil, 0, fmt.Errorf("key of type %T", list[k])
			}
			m[key] = list[k+1]
		}
		return m, i, nil
	}
	return nil, 0, fmt.Errorf("bad byte %q", b[0])
}

// ---------------------------------------------------------------- client

// NResp is one response as it arrived.
type NResp struct {
	M   map[string]interface{}
	At  int64
	Seq uint64
}

func (r *NResp) Status() []string {
	var out []string
	l, _ := r.M["status"].([]interface{})
	for _, x := range l {
		s, _ := x.(string)
		out = append(out, s)
	}
	return out
}
func (r *NResp) Has(s string) bool {
	for _, x := range r.Status() {
		if x == s {
			return true
		}
	}
	return false
}
func (r *NResp) OK() bool { return r != nil && r.Has("done") && !r.Has("error") }
func (r *NResp) Str(k string) string {
	s, _ := r.M[k].(string)
	return s
}
func (r *NResp) Problems() string {
	l, _ := r.M["problems"].([]interface{})
	var out []string
	for _, x := range l {
		s, _ := x.(string)
		out = append(out, s)
	}
	return strings.Join(out, "; ")
}
func (r *NResp) String() string {
	if r == nil {
		return "no response"
	}
	var ks []string
	for k := range r.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, k+"="+clip(fmt.Sprint(r.M[k]), 160))
	}
	return strings.Join(out, " ")
}

// NClient is a raw nREPL client of the harness.
type NClient struct {
	c      *Ctx
	Name   string
	Conn   *world.Conn
	Resp   []*NResp
	buf    []byte
	EOF    bool
	Err    error
	BadAt  string
	q      rt.WaitQ
	nid    int
	Paused bool // does not read
	pq     rt.WaitQ
}

// connect opens a connection to the server, retrying for d ns.
func (c *Ctx) connect(name string, port int, d int64) *NClient {
	var conn *world.Conn
	ok := c.Until(d, 50*ms, func() bool {
		x, err := c.W.Net.Dial(port)
		if err != nil {
			return false
		}
		conn = x
		return true
	})
	if !ok {
		return nil
	}
	n := &NClient{c: c, Name: name, Conn: conn}
	c.Task(name+"-reader", n.read)
	return n
}

func (n *NClient) read() {
	buf := make([]byte, 8192)
	for {
		for n.Paused {
			n.pq.Wait("paused")
		}
		k, err := n.Conn.Read(buf)
		n.buf = append(n.buf, buf[:k]...)
		for len(n.buf) > 0 {
			v, used, derr := bdecode(n.buf)
			if derr == errIncomplete {
				break
			}
			if derr != nil {
				n.BadAt = fmt.Sprintf("undecodable response data: %v in %q", derr, clip(string(n.buf), 200))
				n.buf = nil
				break
			}
			n.buf = n.buf[used:]
			m, ok := v.(map[string]interface{})
			if !ok {
				n.BadAt = fmt.Sprintf("response is a %T", v)
				continue
			}
			r := &NResp{M: m, At: n.c.Now(), Seq: n.c.S.NextEvent()}
			n.c.S.Tracef("%s gets %s", n.Name, r)
			n.Resp = append(n.Resp, r)
			n.q.WakeAll()
		}
		if err != nil {
			if err == io.EOF {
				n.EOF = true
			} else {
				n.Err = err
			}
			n.q.WakeAll()
			return
		}
	}
}

// Closed: the server ended the connection.
func (n *NClient) Closed() bool { return n.EOF || n.Err != nil }

// WaitN waits until k responses arrived, at most d.
func (n *NClient) WaitN(k int, d int64) bool {
	end := n.c.Now() + d
	for len(n.Resp) < k {
		if n.Closed() || !n.q.WaitUntil("response", end-n.c.Now()) {
			return len(n.Resp) >= k
		}
	}
	return true
}

// Raw sends bytes.
func (n *NClient) Raw(b []byte) error {
	_, err := n.Conn.Write(b)
	return err
}

// Send sends one request and returns its id.
func (n *NClient) Send(m map[string]interface{}) string {
	id, _ := m["id"].(string)
	if id == "" {
		n.nid++
		id = fmt.Sprintf("%s-%d", n.Name, n.nid)
		m["id"] = id
	}
	n.c.S.Tracef("%s sends %s", n.Name, clip(fmt.Sprint(m), 300))
	n.Raw(bencode(m))
	return id
}

// ByID finds the response with an id.
func (n *NClient) ByID(id string) *NResp {
	for _, r := range n.Resp {
		if r.Str("id") == id {
			return r
		}
	}
	return nil
}

// Do sends a request and waits for the response with its id.
func (n *NClient) Do(d int64, m map[string]interface{}) *NResp {
	id := n.Send(m)
	end := n.c.Now() + d
	for {
		if r := n.ByID(id); r != nil {
			return r
		}
		if n.Closed() || !n.q.WaitUntil("response", end-n.c.Now()) {
			return n.ByID(id)
		}
	}
}

func req(op string, kv ...string) map[string]interface{} {
	m := map[string]interface{}{"op": op}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i]] = kv[i+1]
	}
	return m
}

func (n *NClient) Close() { n.Conn.Close() }

// startServer starts `alda repl --server`.
func (c *Ctx) startServer(port int, dir string) *rt.Proc {
	c.W.FS.PutDir(dir)
	args := []string{"repl", "--server"}
	if port > 0 {
		args = append(args, "--port", strconv.Itoa(port))
	}
	return c.AldaIn(dir, nil, args...)
}
