package main

import (
	"bufio"
	"errors"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	validation "github.com/go-ozzo/ozzo-validation/v4"
	"github.com/gorilla/websocket"
	"github.com/vulpemventures/neutrino-elements/internal/interface/web-socket/handler"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
)

//verif:replace github.com/gorilla/websocket.maskBytes
func maskModel(key [4]byte, pos int, b []byte) int {
	for i := range b {
		b[i] ^= key[pos&3]
		pos++
	}
	return pos & 3
}

//verif:replace github.com/gorilla/websocket.computeAcceptKey
func acceptModel(key string) string { return "accept" }

// the text of a validation error without its parameters filled in
//
//verif:replace (github.com/go-ozzo/ozzo-validation/v4.ErrorObject).Error
func validationModel(e validation.ErrorObject) string { return e.Message() }

// keep the replaced method alive
var _ = websocket.TextMessage

// wsConn is the server's side of the network connection of a websocket client.
type wsConn struct {
	in       chan []byte
	rest     []byte
	mu       sync.Mutex
	out      []byte
	closed   chan struct{}
	isClosed bool
	stuck    bool // the client does not read
	deadline time.Time
	readErr  error
}

func newConn() *wsConn { return &wsConn{in: make(chan []byte, 16), closed: make(chan struct{})} }

func (c *wsConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.rest) == 0 {
		rt.Jitter()
		select {
		case b, ok := <-c.in:
			if !ok {
				return 0, io.EOF
			}
			c.rest = b
		case <-c.closed:
			return 0, errors.New("use of closed connection")
		}
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

func (c *wsConn) Write(p []byte) (int, error) {
	rt.Jitter()
	c.mu.Lock()
	stuck, dl := c.stuck, c.deadline
	c.mu.Unlock()
	if stuck {
		if dl.IsZero() {
			<-c.closed
			return 0, errors.New("use of closed connection")
		}
		t := time.NewTimer(time.Until(dl))
		defer t.Stop()
		select {
		case <-c.closed:
			return 0, errors.New("use of closed connection")
		case <-t.C:
			return 0, timeout{}
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.isClosed {
		return 0, errors.New("use of closed connection")
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *wsConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.isClosed {
		c.isClosed = true
		close(c.closed)
	}
	return nil
}

func (c *wsConn) gone() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.isClosed
}

type endpoint string

func (a endpoint) Network() string                  { return "tcp" }
func (a endpoint) String() string                   { return string(a) }
func (c *wsConn) LocalAddr() net.Addr               { return endpoint("server") }
func (c *wsConn) RemoteAddr() net.Addr              { return endpoint("client") }
func (c *wsConn) SetDeadline(t time.Time) error     { return c.SetWriteDeadline(t) }
func (c *wsConn) SetReadDeadline(t time.Time) error { return nil }
func (c *wsConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.deadline = t
	return nil
}

// response is a hijackable response.
type response struct {
	h    http.Header
	mu   sync.Mutex
	code int
	body []byte
	conn *wsConn
}

func newResponse() *response            { return &response{h: http.Header{}} }
func (r *response) Header() http.Header { return r.h }
func (r *response) WriteHeader(code int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.code == 0 {
		r.code = code
	}
}
func (r *response) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.body = append(r.body, b...)
	return len(b), nil
}
func (r *response) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return r.conn, bufio.NewReadWriter(bufio.NewReader(r.conn), bufio.NewWriter(r.conn)), nil
}

// connect opens a websocket.
func connect(h handler.DescriptorWalletNotifierHandler) *wsConn {
	c := newConn()
	r := newResponse()
	r.conn = c
	req := &http.Request{Method: "GET", Header: http.Header{
		"Connection": {"Upgrade"}, "Upgrade": {"websocket"}, "Sec-Websocket-Version": {"13"}, "Sec-Websocket-Key": {"dGhlIHNhbXBsZSBub25jZQ=="}}}
	h.HandleSubscriptionRequestWs(r, req)
	return c
}

// say sends a text message to the server.
func (c *wsConn) say(s string) {
	f := []byte{0x81, 0x80}
	if len(s) < 126 {
		f[1] |= byte(len(s))
	} else {
		f = append(f, byte(len(s)>>8), byte(len(s)))
		f[1] |= 126
	}
	f = append(f, 0, 0, 0, 0)
	c.in <- append(f, s...)
}

// bye closes the connection as a client does; hang drops it.
func (c *wsConn) bye()  { c.in <- []byte{0x88, 0x82, 0, 0, 0, 0, 3, 232} }
func (c *wsConn) hang() { close(c.in) }

// heard returns the text messages received from the server.
func (c *wsConn) heard() []string {
	c.mu.Lock()
	b := append([]byte(nil), c.out...)
	c.mu.Unlock()
	s := string(b)
	i := strings.Index(s, "\r\n\r\n")
	rt.Assert(i > 0 && strings.HasPrefix(s, "HTTP/1.1 101 "), "the connection is not upgraded")
	b = b[i+4:]
	var out []string
	for len(b) > 0 {
		rt.Assert(len(b) >= 2, "a truncated frame is written")
		op, n, at := b[0], int(b[1]), 2
		rt.Assert(n < 127, "an unexpected frame is written")
		if n == 126 {
			rt.Assert(len(b) >= 4, "a truncated frame is written")
			n, at = int(b[2])<<8|int(b[3]), 4
		}
		rt.Assert(len(b) >= at+n, "a truncated frame is written")
		if op == 0x81 {
			out = append(out, string(b[at:at+n]))
		} else {
			rt.Assert(op == 0x88, "an unexpected frame is written")
		}
		b = b[at+n:]
	}
	return out
}

// ---- webhooks ----

type post struct {
	url, contentType, body string
}

var hooks struct {
	mu    sync.Mutex
	posts []post
	fail  bool
	stuck chan struct{} // posts to "http://slow" wait for it
}

type body struct{ io.Reader }

func (body) Close() error { return nil }

func deliver(method, url, ct string, r io.Reader) (*http.Response, error) {
	rt.Jitter()
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if strings.HasPrefix(url, "http://slow") && hooks.stuck != nil {
		<-hooks.stuck
	}
	hooks.mu.Lock()
	defer hooks.mu.Unlock()
	if hooks.fail {
		return nil, errors.New("connection refused")
	}
	rt.Assert(method == "POST", "a webhook is not posted")
	hooks.posts = append(hooks.posts, post{url, ct, string(b)})
	return &http.Response{StatusCode: 200, Body: body{strings.NewReader("")}}, nil
}

//verif:replace net/http.Post
func postModel(url, ct string, r io.Reader) (*http.Response, error) {
	return deliver("POST", url, ct, r)
}

//verif:replace (*net/http.Client).Post
func clientPostModel(c *http.Client, url, ct string, r io.Reader) (*http.Response, error) {
	return deliver("POST", url, ct, r)
}

// transport is the native network of the webhooks.
type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	return deliver(r.Method, r.URL.String(), r.Header.Get("Content-Type"), r.Body)
}

func posted() []post {
	hooks.mu.Lock()
	defer hooks.mu.Unlock()
	return append([]post(nil), hooks.posts...)
}

// subscribeHttp asks for a webhook.
func subscribeHttp(h handler.DescriptorWalletNotifierHandler, text string) *response {
	r := newResponse()
	h.HandleSubscriptionRequestHttp(r, &http.Request{Method: "POST", Header: http.Header{}, Body: body{strings.NewReader(text)}})
	return r
}
