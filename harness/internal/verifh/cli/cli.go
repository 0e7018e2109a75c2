package main

import (
	"bufio"
	"crypto/sha1"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	"github.com/sirupsen/logrus"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
)

// ---- the program's surroundings ----

// exit is raised by the program's os.Exit.
type exit struct{ code int }

func programExit(code int) { panic(exit{code}) }

// programDataDir is the user's data directory for the program.
func programDataDir(string, bool) string {
	if rt.Symbolic() {
		return "/home/user/.neutrino"
	}
	d, err := os.MkdirTemp("", "verifcli")
	if err != nil {
		panic(err)
	}
	home = d
	return d + "/.neutrino"
}

var home string

// run runs the program with the given arguments, it returns its exit code.
func run(args ...string) (code int) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(exit)
			rt.Assert(ok, "the program crashes")
			code = e.code
		}
	}()
	os.Args = append([]string{"neutrino"}, args...)
	programMain()
	return 0
}

// said are the lines the program printed or logged.
var said []string

type recorder struct{}

func (recorder) Write(b []byte) (int, error) { said = append(said, string(b)); return len(b), nil }

func (recorder) Format(e *logrus.Entry) ([]byte, error) { return []byte(e.Message + "\n"), nil }

//verif:replace github.com/sirupsen/logrus.Infof
func infofModel(f string, a ...interface{}) { said = append(said, fmt.Sprintf(f, a...)) }

//verif:replace github.com/sirupsen/logrus.Infoln
func infolnModel(a ...interface{}) { said = append(said, fmt.Sprintln(a...)) }

//verif:replace github.com/sirupsen/logrus.Info
func infoModel(a ...interface{}) { said = append(said, fmt.Sprintln(a...)) }

//verif:replace github.com/sirupsen/logrus.Errorf
func errorfModel(f string, a ...interface{}) { said = append(said, fmt.Sprintf(f, a...)) }

//verif:replace github.com/sirupsen/logrus.Errorln
func errorlnModel(a ...interface{}) { said = append(said, fmt.Sprintln(a...)) }

//verif:replace github.com/sirupsen/logrus.Error
func errorModel(a ...interface{}) { said = append(said, fmt.Sprintln(a...)) }

//verif:replace github.com/sirupsen/logrus.Warnf
func warnfModel(f string, a ...interface{}) { said = append(said, fmt.Sprintf(f, a...)) }

//verif:replace fmt.Println
func printlnModel(a ...interface{}) (int, error) { said = append(said, fmt.Sprintln(a...)); return 0, nil }

//verif:replace fmt.Printf
func printfModel(f string, a ...interface{}) (int, error) {
	said = append(said, fmt.Sprintf(f, a...))
	return 0, nil
}

//verif:replace fmt.Fprintf
func fprintfModel(w io.Writer, f string, a ...interface{}) (int, error) {
	if _, ok := w.(*os.File); ok {
		said = append(said, fmt.Sprintf(f, a...))
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprintf(f, a...)))
}

// ---- files ----

type file struct{ content string }

var files map[string]*file // nil content: a directory

func notFound(path string) error { return &fs.PathError{Op: "open", Path: path, Err: fs.ErrNotExist} }

//verif:replace os.ReadFile
func readFileModel(path string) ([]byte, error) {
	f := files[path]
	if f == nil {
		return nil, notFound(path)
	}
	return []byte(f.content), nil
}

func parent(path string) string { return path[:strings.LastIndex(path, "/")] }

//verif:replace os.WriteFile
func writeFileModel(path string, b []byte, m os.FileMode) error {
	if files[parent(path)] == nil {
		return notFound(path)
	}
	if files[path] == nil {
		files[path] = &file{}
	}
	files[path].content = string(b)
	return nil
}

//verif:replace os.Stat
func statModel(path string) (os.FileInfo, error) {
	if files[path] == nil {
		return nil, notFound(path)
	}
	return nil, nil
}

//verif:replace os.Mkdir
func mkdirModel(path string, m os.FileMode) error {
	if files[path] != nil {
		return &fs.PathError{Op: "mkdir", Path: path, Err: fs.ErrExist}
	}
	if files[parent(path)] == nil {
		return notFound(path)
	}
	files[path] = &file{}
	return nil
}

//verif:replace os.MkdirAll
func mkdirAllModel(path string, m os.FileMode) error {
	if files[path] == nil {
		files[path] = &file{}
	}
	return nil
}

// handle is an open file.
type handle struct {
	path string
	f    *file
	pos  int
	flag int
	shut bool
}

var handles map[*os.File]*handle

//verif:replace os.OpenFile
func openFileModel(path string, flag int, m os.FileMode) (*os.File, error) {
	if files[path] != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, &fs.PathError{Op: "open", Path: path, Err: fs.ErrExist}
	}
	if files[path] == nil {
		if flag&os.O_CREATE == 0 || files[parent(path)] == nil {
			return nil, notFound(path)
		}
		files[path] = &file{}
	}
	if flag&os.O_TRUNC != 0 {
		files[path].content = ""
	}
	f := new(os.File)
	handles[f] = &handle{path: path, f: files[path], flag: flag}
	return f, nil
}

//verif:replace os.Open
func openModel(path string) (*os.File, error) { return openFileModel(path, os.O_RDONLY, 0) }

//verif:replace os.Create
func createModel(path string) (*os.File, error) {
	return openFileModel(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//verif:replace os.CreateTemp
func createTempModel(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
		files[dir] = &file{}
	}
	for i := 0; ; i++ {
		n := strings.Replace(pattern, "*", fmt.Sprint(i), 1)
		if n == pattern {
			n += fmt.Sprint(i)
		}
		if files[dir+"/"+n] == nil {
			return openFileModel(dir+"/"+n, os.O_RDWR|os.O_CREATE, 0600)
		}
	}
}

// opened is an open file that may be used in a direction, a mode flag the opposite of which forbids it.
func opened(f *os.File, not int) (*handle, error) {
	h := handles[f]
	if h == nil || h.shut {
		return nil, fs.ErrClosed
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == not {
		return nil, fs.ErrPermission
	}
	return h, nil
}

//verif:replace (*os.File).Write
func fileWriteModel(f *os.File, b []byte) (int, error) {
	if handles[f] == nil && (f == os.Stdout || f == os.Stderr) {
		said = append(said, string(b))
		return len(b), nil
	}
	h, err := opened(f, os.O_RDONLY)
	if err != nil {
		return 0, err
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = len(h.f.content)
	}
	for len(h.f.content) < h.pos {
		h.f.content += "\x00"
	}
	rest := ""
	if h.pos+len(b) < len(h.f.content) {
		rest = h.f.content[h.pos+len(b):]
	}
	h.f.content = h.f.content[:h.pos] + string(b) + rest
	h.pos += len(b)
	return len(b), nil
}

//verif:replace (*os.File).WriteString
func fileWriteStringModel(f *os.File, s string) (int, error) { return fileWriteModel(f, []byte(s)) }

//verif:replace (*os.File).Read
func fileReadModel(f *os.File, b []byte) (int, error) {
	h, err := opened(f, os.O_WRONLY)
	if err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.f.content) {
		return 0, io.EOF
	}
	n := copy(b, h.f.content[h.pos:])
	h.pos += n
	return n, nil
}

//verif:replace (*os.File).Seek
func fileSeekModel(f *os.File, off int64, whence int) (int64, error) {
	h, err := opened(f, -1)
	if err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(h.pos)
	case io.SeekEnd:
		off += int64(len(h.f.content))
	}
	if off < 0 {
		return 0, fs.ErrInvalid
	}
	h.pos = int(off)
	return off, nil
}

//verif:replace (*os.File).Truncate
func fileTruncateModel(f *os.File, n int64) error {
	h, err := opened(f, os.O_RDONLY)
	if err != nil {
		return err
	}
	for int64(len(h.f.content)) < n {
		h.f.content += "\x00"
	}
	h.f.content = h.f.content[:n]
	return nil
}

//verif:replace (*os.File).Sync
func fileSyncModel(f *os.File) error { return nil }

//verif:replace (*os.File).Chmod
func fileChmodModel(f *os.File, m os.FileMode) error { return nil }

//verif:replace (*os.File).Name
func fileNameModel(f *os.File) string { return handles[f].path }

//verif:replace (*os.File).Close
func closeModel(f *os.File) error {
	h, err := opened(f, -1)
	if err != nil {
		return err
	}
	h.shut = true
	return nil
}

//verif:replace os.Truncate
func truncateModel(path string, n int64) error {
	f, err := openFileModel(path, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	return fileTruncateModel(f, n)
}

//verif:replace os.Chmod
func chmodModel(path string, m os.FileMode) error { return nil }

//verif:replace os.Rename
func renameModel(from, to string) error {
	if files[from] == nil || files[parent(to)] == nil {
		return notFound(from)
	}
	files[to] = files[from]
	delete(files, from)
	return nil
}

//verif:replace os.Remove
func removeModel(path string) error {
	if files[path] == nil {
		return notFound(path)
	}
	delete(files, path)
	return nil
}

//verif:replace os.IsNotExist
func isNotExistModel(err error) bool { return errors.Is(err, fs.ErrNotExist) }

// ---- the daemon ----

// daemon is the network connection to the daemon.
type daemon struct {
	listens bool
	url     string // connected to
	dials   int
	answers [][]byte // what the daemon sends
	rest    []byte
	got     []byte
	greeted bool
	closed  int
}

var peer *daemon

func (c *daemon) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.rest) == 0 {
		// the daemon answers requests
		if c.greeted && len(messages(c.got)) == 0 && len(c.answers) > 0 {
			return 0, errors.New("i/o timeout")
		}
		if len(c.answers) == 0 {
			return 0, io.EOF
		}
		c.rest, c.answers = c.answers[0], c.answers[1:]
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *daemon) Write(p []byte) (int, error) {
	if c.closed > 0 {
		return 0, net.ErrClosed
	}
	c.got = append(c.got, p...)
	if i := strings.Index(string(c.got), "\r\n\r\n"); i >= 0 && !c.greeted && !rt.Symbolic() {
		r, err := http.ReadRequest(bufio.NewReader(strings.NewReader(string(c.got))))
		if err != nil {
			return 0, err
		}
		c.url = "ws://" + r.Host + r.URL.RequestURI()
		h := sha1.Sum([]byte(r.Header.Get("Sec-WebSocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
		c.rest = []byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " +
			base64.StdEncoding.EncodeToString(h[:]) + "\r\n\r\n")
		c.got, c.greeted = nil, true
	}
	return len(p), nil
}

func (c *daemon) Close() error { c.closed++; return nil }

type endpoint string

func (a endpoint) Network() string                  { return "tcp" }
func (a endpoint) String() string                   { return string(a) }
func (c *daemon) LocalAddr() net.Addr               { return endpoint("client") }
func (c *daemon) RemoteAddr() net.Addr              { return endpoint("daemon") }
func (c *daemon) SetDeadline(t time.Time) error     { return nil }
func (c *daemon) SetReadDeadline(t time.Time) error { return nil }
func (c *daemon) SetWriteDeadline(time.Time) error  { return nil }

func dial(network, addr string) (net.Conn, error) {
	peer.dials++
	if !peer.listens {
		return nil, errors.New("connection refused")
	}
	return peer, nil
}

//verif:replace github.com/gorilla/websocket.maskBytes
func maskModel(key [4]byte, pos int, b []byte) int {
	for i := range b {
		b[i] ^= key[pos&3]
		pos++
	}
	return pos & 3
}

//verif:replace github.com/gorilla/websocket.computeAcceptKey
func acceptModel(key string) string { return "accept" }

// upgrade makes a websocket of the connection; it is the other side's kind, which differs in the masking only.
type upgrade struct{ c *daemon }

func (u upgrade) Header() http.Header         { return http.Header{} }
func (u upgrade) WriteHeader(int)             {}
func (u upgrade) Write(b []byte) (int, error) { return len(b), nil }
func (u upgrade) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return u.c, bufio.NewReadWriter(bufio.NewReader(u.c), bufio.NewWriter(u.c)), nil
}

//verif:replace (*github.com/gorilla/websocket.Dialer).Dial
func dialModel(d *websocket.Dialer, u string, h http.Header) (*websocket.Conn, *http.Response, error) {
	c, err := dial("tcp", u)
	if err != nil {
		return nil, nil, err
	}
	up := websocket.Upgrader{}
	ws, err := up.Upgrade(upgrade{peer}, &http.Request{Method: "GET", Header: http.Header{
		"Connection": {"Upgrade"}, "Upgrade": {"websocket"}, "Sec-Websocket-Version": {"13"}, "Sec-Websocket-Key": {"dGhlIHNhbXBsZSBub25jZQ=="}}}, nil)
	rt.Assume(err == nil && c != nil)
	peer.url, peer.got, peer.greeted = u, nil, true
	return ws, nil, nil
}

// frame is a text message of the daemon.
func frame(s string) []byte {
	var mask byte
	if rt.Symbolic() {
		mask = 0x80
	}
	f := []byte{0x81, mask | byte(len(s))}
	if len(s) >= 126 {
		f = []byte{0x81, mask | 126, byte(len(s) >> 8), byte(len(s))}
	}
	if mask != 0 {
		f = append(f, 0, 0, 0, 0)
	}
	return append(f, s...)
}

// messages are the text messages in what the program sent.
func messages(b []byte) (out []string) {
	for len(b) >= 2 {
		op, n, m := b[0]&15, int(b[1]&127), b[1]&128 != 0
		b = b[2:]
		if n == 126 {
			if len(b) < 2 {
				return
			}
			n = int(b[0])<<8 | int(b[1])
			b = b[2:]
		}
		var key [4]byte
		if m {
			if len(b) < 4 {
				return
			}
			copy(key[:], b)
			b = b[4:]
		}
		if len(b) < n {
			return
		}
		t := append([]byte(nil), b[:n]...)
		for i := range t {
			t[i] ^= key[i&3]
		}
		if op == 1 {
			out = append(out, string(t))
		}
		b = b[n:]
	}
	return
}

func setup() {
	said = nil
	peer = &daemon{listens: true}
	if rt.Symbolic() {
		files, handles = map[string]*file{"/home/user": {}}, map[*os.File]*handle{}
		os.Stdin, os.Stdout, os.Stderr = new(os.File), new(os.File), new(os.File)
		return
	}
	websocket.DefaultDialer.NetDial = dial
	logrus.SetOutput(recorder{})
	logrus.SetFormatter(recorder{})
	if home == "" {
		panic("no home")
	}
	f, err := os.CreateTemp(home, "out")
	if err != nil {
		panic(err)
	}
	terminal, console = os.Stdout, f
	os.Stdout, os.Stderr = f, f
}

// terminal is the real output of a native run, console the program's.
var terminal, console *os.File

// flush adds what a native run printed to what the program said.
func flush() {
	if console == nil {
		return
	}
	b, _ := os.ReadFile(console.Name())
	said = append(said, string(b))
	console.Truncate(0)
	console.Seek(0, 0)
}

// ---- checks ----

// printed returns the configuration the program prints, and whether it does.
func printed() (map[string]string, bool) {
	flush()
	said = nil
	if run("config", "print") != 0 {
		return nil, false
	}
	flush()
	m := map[string]string{}
	for _, s := range said {
		for _, l := range strings.Split(s, "\n") {
			if i := strings.Index(l, ": "); i >= 0 {
				_, again := m[l[:i]]
				rt.Assert(!again, "a key is printed twice")
				m[l[:i]] = l[i+2:]
			}
		}
	}
	return m, true
}

func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

var values = []string{"x", "", "10.0.0.7:9000", "/other/ws", "a b\"c\\d", "\u00e9: <&>"}

// Setting a key changes that key only, whatever was stored before, and the configuration is printed as stored.
//
//verif:harness prop=K01
func Configure() {
	setup()
	defer os.RemoveAll(home)
	var want map[string]string
	m, ok := printed()
	rt.Assert(!ok && m == nil, "a configuration that does not exist is an error")
	set := func(k, v string) {
		if want == nil {
			want = map[string]string{}
		}
		want[k] = v
	}
	for i := rt.Choose("commands", rt.Param("commands", 2, 3)); i >= 0; i-- {
		code := 0
		switch rt.Choose("command", 6) {
		case 0:
			code = run("config")
			set("url", "localhost:8000")
			set("path", "/neutrino/subscribe/ws")
			rt.Cover("defaults")
		case 1:
			v := values[rt.Choose("value", len(values))]
			code = run("config", "--url", v)
			set("url", v)
			set("path", "/neutrino/subscribe/ws")
			rt.Cover("url")
		case 2:
			v := values[rt.Choose("value", len(values))]
			code = run("config", "--path", v, "--url", "h:1")
			set("url", "h:1")
			set("path", v)
			rt.Cover("url and path")
		case 3:
			k := []string{"url", "path", "note"}[rt.Choose("key", 3)]
			v := values[rt.Choose("value", len(values))]
			code = run("config", "set", k, v)
			set(k, v)
			rt.Cover("set")
		case 4:
			code = run("config", "set", "url")
			rt.Assert(code != 0, "a set command without a value is accepted")
			code = 0
			rt.Cover("incomplete")
		case 5:
			_, ok := printed()
			rt.Assert(ok == (want != nil), "the configuration can be printed exactly when there is one")
			rt.Cover("print")
		}
		rt.Assert(code == 0, "a configuration command fails")
	}
	got, ok := printed()
	rt.Assert(ok == (want != nil), "the configuration can be printed exactly when there is one")
	rt.Assert(same(got, want), "the configuration is not the one that was stored")
	rt.Done()
}

// Without a configuration, or without a daemon at the configured address, subscribing is an error.
//
//verif:harness prop=K01
func NoDaemon() {
	setup()
	defer os.RemoveAll(home)
	configured := rt.Choose("configured", 2) == 1
	if configured {
		rt.Assert(run("config") == 0, "a configuration command fails")
		peer.listens = false
	}
	code := run("subscribe", "--descriptor", "wpkh(A)", "--block_height", "5", "--events", "unspentUtxo")
	rt.Assert(code != 0, "a failing subscription is not reported")
	rt.Assert(len(messages(peer.got)) == 0, "something was sent")
	rt.Assert(configured || peer.dials == 0, "an unknown daemon was contacted")
	rt.Cover("failed")
	rt.Done()
}

// A subscription asks the configured daemon once for exactly what was given.
//
//verif:harness prop=K01
func Subscribe() {
	setup()
	defer os.RemoveAll(home)
	url := []string{"localhost:8000", "10.0.0.7:9000"}[rt.Choose("url", 2)]
	path := []string{"/neutrino/subscribe/ws", "/other"}[rt.Choose("path", 2)]
	rt.Assert(run("config", "--url", url, "--path", path) == 0, "a configuration command fails")
	desc := []string{"wpkh(03ab)", "wsh(multi(2,[d3\"/0'/\\]xp/*,0\u00e9))"}[rt.Choose("descriptor", 2)]
	height := []int{0, 7, 1234567, 1<<31 - 1}[rt.Choose("height", 4)]
	args := []string{"subscribe", "--descriptor", desc, "--block_height", fmt.Sprint(height)}
	var events []string
	switch rt.Choose("events", 3) {
	case 1:
		events = []string{"unspentUtxo"}
		args = append(args, "--events=unspentUtxo")
	case 2:
		events = []string{"spentUtxo", "unspentUtxo"}
		args = append(args, "--events", "spentUtxo", "--events", "unspentUtxo")
	}
	code := run(args...)
	rt.Assert(code != 0, "the lost connection is not reported")
	rt.Assert(peer.dials == 1, "the daemon is not contacted once")
	rt.Assert(peer.url == "ws://"+url+path, "the configured daemon is not the one contacted")
	ms := messages(peer.got)
	rt.Assert(len(ms) == 1, "not one request is sent")
	v, rest, err := parse(ms[0])
	rt.Assert(err == nil && strings.TrimSpace(rest) == "", "the request is not JSON")
	o, ok := v.(object)
	rt.Assert(ok, "the request is not an object")
	rt.Assert(o.get("actionType") == "register", "the request is not a registration")
	rt.Assert(o.get("descriptorWallet") == desc, "the descriptor is not the given one")
	rt.Assert(fmt.Sprint(o.get("startBlockHeight")) == fmt.Sprint(height), "the start height is not the given one")
	l, _ := o.get("eventTypes").([]interface{})
	rt.Assert(len(l) == len(events), "the events are not the given ones")
	for i, e := range l {
		rt.Assert(e == events[i], "the events are not the given ones")
	}
	rt.Assert(peer.closed > 0, "the connection is left open")
	rt.Cover("subscribed")
	rt.Done()
}

// Everything the daemon sends is reported, in order, until the connection ends.
//
//verif:harness prop=K01
func Report() {
	setup()
	defer os.RemoveAll(home)
	rt.Assert(run("config") == 0, "a configuration command fails")
	var want []string
	n := rt.Choose("messages", rt.Param("messages", 4, 5))
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("item%d-", i)
		switch rt.Choose("message", 5) {
		case 0:
			peer.answers = append(peer.answers, frame(`{"eventType":"unspentUtxo","txId":"`+id+`"}`))
			want = append(want, id)
			rt.Cover("event")
		case 1:
			peer.answers = append(peer.answers, frame(`{"message":"`+id+`"}`))
			want = append(want, id)
			rt.Cover("message")
		case 2:
			peer.answers = append(peer.answers, frame(`{"errorMessage":"`+id+`"}`))
			want = append(want, id)
			rt.Cover("error")
		case 3:
			peer.answers = append(peer.answers, frame(`{}`))
			rt.Cover("nothing")
		case 4:
			// nothing is read after a text that is not JSON, or a broken connection
			peer.answers = append(peer.answers, frame(`{"message`), frame(`{"message":"late"}`))
			rt.Cover("garbage")
			i = n
		}
	}
	code := run("subscribe", "--descriptor", "wpkh(A)", "--block_height", "5", "--events", "unspentUtxo")
	rt.Assert(code != 0, "the lost connection is not reported")
	flush()
	var got []string
	for _, s := range said {
		for s != "" {
			i := strings.Index(s, "item")
			if i < 0 {
				break
			}
			j := strings.Index(s[i:], "-")
			got = append(got, s[i:i+j+1])
			s = s[i+j:]
		}
	}
	rt.Assert(len(got) == len(want), "not everything the daemon sent is reported once")
	for i := range got {
		rt.Assert(got[i] == want[i], "what the daemon sent is reported in another order")
	}
	rt.Done()
}
