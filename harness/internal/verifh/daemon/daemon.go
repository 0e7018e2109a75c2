package main

import (
	"bytes"
	"context"
	"errors"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	neutrinodws "github.com/vulpemventures/neutrino-elements/internal/interface/web-socket"
	"github.com/vulpemventures/neutrino-elements/internal/interface/web-socket/middleware"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

// web is the model of the daemon's listening socket.
var web struct {
	mu     sync.Mutex
	h      http.Handler
	addr   string
	refuse bool
	down   chan struct{}
	isDown bool
}

//verif:replace (*net/http.Server).ListenAndServe
func listenModel(s *http.Server) error {
	rt.Jitter()
	web.mu.Lock()
	if web.isDown {
		web.mu.Unlock()
		return http.ErrServerClosed
	}
	if web.refuse {
		web.mu.Unlock()
		return errors.New("address already in use")
	}
	web.h, web.addr = s.Handler, s.Addr
	d := web.down
	web.mu.Unlock()
	<-d
	return http.ErrServerClosed
}

//verif:replace (*net/http.Server).Shutdown
func shutdownModel(s *http.Server, ctx context.Context) error { return closeModel(s) }

//verif:replace (*net/http.Server).Close
func closeModel(s *http.Server) error {
	web.mu.Lock()
	defer web.mu.Unlock()
	if !web.isDown {
		web.isDown = true
		web.h = nil
		close(web.down)
	}
	return nil
}

//verif:replace (*net/http.Server).SetKeepAlivesEnabled
func keepAlivesModel(s *http.Server, v bool) {}

// counted counts the accesses to the stores and the block service.
type counted struct {
	repository.BlockHeaderRepository
	repository.FilterRepository
	mu     sync.Mutex
	n      int
	blocks []*block.Block
	hashes []chainhash.Hash
}

func (c *counted) count() {
	c.mu.Lock()
	c.n++
	c.mu.Unlock()
}

func (c *counted) calls() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.n
}

func (c *counted) ChainTip(x context.Context) (*block.Header, error) {
	c.count()
	return c.BlockHeaderRepository.ChainTip(x)
}

func (c *counted) GetFilter(x context.Context, k repository.FilterKey) (*repository.FilterEntry, error) {
	c.count()
	return c.FilterRepository.GetFilter(x, k)
}

func (c *counted) GetBlock(h *chainhash.Hash) (*block.Block, error) {
	c.count()
	c.mu.Lock()
	defer c.mu.Unlock()
	for i := range c.hashes {
		if c.hashes[i] == *h {
			return c.blocks[i], nil
		}
	}
	return nil, blockservice.ErrorBlockNotFound
}

// world is a daemon with its peer.
type world struct {
	srv     *neutrinodws.NeutrinoServer
	st      *counted
	l       *link
	peerUrl string
	addr    string
	ctx     context.Context
	cancel  context.CancelFunc
	stopped bool // the stop function was called
	base    int  // goroutines before the daemon
	socks   []*wsConn

	mu   sync.Mutex
	errC <-chan error
	errs []error
	done bool // errC was closed
}

func newWorld(peer bool) *world { return newWorldOn("regtest", peer) }

func newWorldOn(network string, peer bool) *world {
	rt.FixedHashes()
	base := rt.Goroutines()
	hooks.mu.Lock()
	hooks.posts, hooks.fail, hooks.stuck = nil, false, nil
	hooks.mu.Unlock()
	web.h, web.addr, web.refuse, web.isDown, web.down = nil, "", false, false, make(chan struct{})
	w := &world{st: &counted{BlockHeaderRepository: inmemory.NewHeaderInmemory(), FilterRepository: inmemory.NewFilterInmemory()}}
	w.addr, w.base = "127.0.0.1:8000", base
	if !rt.Symbolic() {
		http.DefaultTransport = transport{}
		http.DefaultClient.Transport = transport{}
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		w.addr = ln.Addr().String()
		ln.Close()
	}
	w.peerUrl = "127.0.0.1:1"
	dialed = nil
	if peer {
		w.peerUrl, w.l = listen()
	}
	s, err := neutrinodws.NewElementsNeutrinoServer(node.NodeConfig{Network: network, UserAgent: "verif", FiltersDB: w.st, BlockHeadersDB: w.st}, w.st, w.peerUrl, w.addr)
	rt.Assert(err == nil, "the daemon cannot be created")
	w.srv = s
	w.ctx, w.cancel = context.WithCancel(bg)
	return w
}

// start runs the daemon in the background.
func (w *world) start() {
	go func() {
		ch := w.srv.Start(w.ctx, func() {
			w.mu.Lock()
			w.stopped = true
			w.mu.Unlock()
		})
		w.mu.Lock()
		w.errC = ch
		w.mu.Unlock()
		for err := range ch {
			w.mu.Lock()
			w.errs = append(w.errs, err)
			w.mu.Unlock()
		}
		w.mu.Lock()
		w.done = true
		w.mu.Unlock()
	}()
	wait()
}

// wait lets scans and sync checks happen.
func wait() {
	time.Sleep(6 * time.Second)
	rt.Quiesce()
}

func (w *world) state() (started bool, errs int, done, stopped bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.errC != nil, len(w.errs), w.done, w.stopped
}

// served is what the daemon serves, nil when it does not listen (engine only).
func served() http.Handler {
	web.mu.Lock()
	defer web.mu.Unlock()
	return web.h
}

// serving says whether the daemon accepts connections.
func (w *world) serving() bool {
	if rt.Symbolic() {
		return served() != nil
	}
	c, err := net.Dial("tcp", w.addr)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

const wsPath, httpPath = "/neutrino/subscribe/ws", "/neutrino/subscribe/http"

// socket opens a websocket to the daemon.
func (w *world) socket() *wsConn {
	c := newConn()
	w.socks = append(w.socks, c)
	if rt.Symbolic() {
		r := newResponse()
		r.conn = c
		served().ServeHTTP(r, newRequest("GET", wsPath, "", http.Header{
			"Connection": {"Upgrade"}, "Upgrade": {"websocket"}, "Sec-Websocket-Version": {"13"}, "Sec-Websocket-Key": {"dGhlIHNhbXBsZSBub25jZQ=="}}))
		return c
	}
	n, err := net.Dial("tcp", w.addr)
	if err != nil {
		panic(err)
	}
	n.Write([]byte("GET " + wsPath + " HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-Websocket-Version: 13\r\nSec-Websocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"))
	go func() {
		for b := range c.in {
			n.Write(b)
		}
		n.Close()
	}()
	go func() {
		buf := make([]byte, 1<<16)
		for {
			k, err := n.Read(buf)
			c.mu.Lock()
			c.out = append(c.out, buf[:k]...)
			c.mu.Unlock()
			if err != nil {
				c.Close()
				return
			}
		}
	}()
	wait()
	return c
}

// ask makes an HTTP request and returns the status and body.
func (w *world) ask(method, path, text string) (int, string) {
	if rt.Symbolic() {
		r := newResponse()
		served().ServeHTTP(r, newRequest(method, path, text, http.Header{}))
		if r.code == 0 {
			r.code = 200
		}
		return r.code, string(r.body)
	}
	q, err := http.NewRequest(method, "http://"+w.addr+path, strings.NewReader(text))
	if err != nil {
		panic(err)
	}
	resp, err := (&http.Transport{DisableKeepAlives: true}).RoundTrip(q)
	if err != nil {
		return 0, ""
	}
	defer resp.Body.Close()
	var b bytes.Buffer
	b.ReadFrom(resp.Body)
	return resp.StatusCode, b.String()
}

// mine makes the next block of a chain; it pays to a script.
func (w *world) mine(c *chain, lock uint32, script []byte) *block.Block {
	h := uint32(len(c.raw) + 1)
	c.add(headerBytes(c.at(len(c.raw)), h, 7))
	t := transaction.NewTx(2)
	t.Locktime = lock
	t.Inputs = []*transaction.TxInput{{Hash: make([]byte, 32), Witness: [][]byte{{7}}}} // the witness is no part of the ID
	t.Outputs = []*transaction.TxOutput{{Script: []byte{0x6a}}, {Script: script}}
	b := &block.Block{Header: c.hdr[h-1], TransactionsData: &block.Transactions{Transactions: []*transaction.Transaction{t}}}
	w.st.mu.Lock()
	w.st.blocks = append(w.st.blocks, b)
	w.st.hashes = append(w.st.hashes, c.hashes[h-1])
	w.st.mu.Unlock()
	return b
}

// filterOf is the cfilter message of a block.
func filterOf(c *chain, h int, script []byte) []byte {
	f, err := gcs.BuildGCSFilter(builder.DefaultP, builder.DefaultM, builder.DeriveKey(&c.hashes[h-1]), [][]byte{script, {0x51, 0xee}})
	if err != nil {
		panic(err)
	}
	b, err := f.NBytes()
	if err != nil {
		panic(err)
	}
	hash := c.at(h)
	return frame("cfilter", cat([]byte{0}, hash[:], []byte{byte(len(b))}, b))
}

// request asks to register a descriptor.
func request(desc string, start int, url string) string {
	s := `{"actionType":"register","eventTypes":["unspentUtxo"],"descriptorWallet":` + quote(desc) + `,"startBlockHeight":` + strconv.Itoa(start)
	if url != "" {
		s += `,"endpointUrl":` + quote(url)
	}
	return s + "}"
}

// about counts the messages that report the transaction of a block, and the others.
func about(ms []string, b *block.Block) (hits, others int) {
	id := b.TransactionsData.Transactions[0].TxHash().String()
	for _, m := range ms {
		if strings.Contains(m, id) {
			hits++
		} else {
			others++
		}
	}
	return
}

// sync completes the handshake of the peer and sends it the first blocks.
func (w *world) sync(c *chain, n int, filters func(h int)) {
	w.l.send(frame("version", versionPayload(cfService, uint32(n))))
	rt.Quiesce()
	w.l.send(frame("headers", headersPayload(c.raw[:n])))
	rt.Quiesce()
	for h := 1; h <= n; h++ {
		filters(h)
	}
	wait()
}

// The daemon serves once it is synced: what a peer announces and the explorer serves reaches the clients that watch it, until the end of its context.
//
//verif:harness prop=D01 faketime budget=120s
func EndToEnd() {
	w := newWorld(true)
	c := &chain{}
	current = 0
	d := descs[0]
	nscr := len(d.scripts)
	var scripts [][]byte
	var blocks []*block.Block
	for h := 1; h <= 3; h++ {
		s := []byte{0x51, byte(h)}
		if i := rt.Choose("pays", 2); i == 1 {
			s = unhex(d.scripts[h%nscr])
		}
		scripts = append(scripts, s)
		blocks = append(blocks, w.mine(c, uint32(h), s))
	}
	paid := func(h int) bool { return len(scripts[h-1]) > 2 }
	filter := func(h int) { w.l.send(filterOf(c, h, scripts[h-1])) }
	w.start()
	st, _, _, _ := w.state()
	rt.Assert(!st && !w.serving(), "the daemon serves before its node is synced")
	w.sync(c, 2, filter)
	st, errs, done, _ := w.state()
	rt.Assert(st && errs == 0 && !done, "the daemon does not start although its node is synced")
	rt.Assert(w.serving(), "the daemon does not serve although its node is synced")
	rt.Assert(!rt.Symbolic() || web.addr == w.addr, "the daemon listens on another address")
	code, _ := w.ask("GET", "/neutrino", "")
	rt.Assert(code == 404, "a request for another path is served")
	start := rt.Choose("start", 4)
	var s *wsConn
	hook := rt.Choose("client", 2) == 1
	late := rt.Choose("late", 2) == 1
	if late { // the third block comes before the client
		w.l.send(frame("headers", headersPayload(c.raw[2:3])))
		rt.Quiesce()
		filter(3)
		wait()
	}
	if hook {
		code, _ := w.ask("POST", httpPath, request(d.desc, start, "http://hook"))
		rt.Assert(code == 200, "a webhook cannot be registered")
	} else {
		s = w.socket()
		s.say(request(d.desc, start, ""))
	}
	wait()
	if !late {
		w.l.send(frame("headers", headersPayload(c.raw[2:3])))
		rt.Quiesce()
		filter(3)
		wait()
	}
	wait()
	var ms []string
	if hook {
		for _, p := range posted() {
			rt.Assert(p.url == "http://hook", "an event is sent to another endpoint")
			ms = append(ms, p.body)
		}
	} else {
		ms = s.heard()
		rt.Assert(len(ms) > 0, "a registration is not answered")
		ms = ms[1:]
	}
	total := 0
	for h := 1; h <= 3; h++ {
		n, _ := about(ms, blocks[h-1])
		want := 0
		if paid(h) && h >= start {
			want = 1
		}
		rt.Assert(n == want, "a payment is not reported exactly once")
		total += want
	}
	rt.Assert(len(ms) == total, "something else is reported")
	w.shutdown(c)
}

// shutdown ends the context and checks that everything ended.
func (w *world) shutdown(c *chain) {
	w.cancel()
	time.Sleep(time.Minute)
	rt.Quiesce()
	rt.StopExplore()
	_, errs, done, stopped := w.state()
	rt.Assert(errs == 0, "an orderly shutdown is reported as an error")
	rt.Assert(done, "the daemon's errors are not closed after its shutdown")
	rt.Assert(stopped, "the daemon does not release its signals")
	rt.Assert(!w.serving(), "the daemon still serves after its shutdown")
	if rt.Choose("after", 2) == 1 { // the clients leave
		for _, k := range w.socks {
			k.hang()
		}
		if !rt.Symbolic() {
			close(w.l.in)
		}
		time.Sleep(5 * time.Minute)
		rt.Quiesce()
		rt.Assert(rt.Ended(w.base), "a stopped daemon leaves goroutines")
		return
	}
	n := w.st.calls()
	tip, err := w.st.BlockHeaderRepository.ChainTip(bg)
	next := 1
	if err == nil {
		next = int(tip.Height) + 1
	}
	for len(c.raw) < next {
		w.mine(c, uint32(len(c.raw)+1), []byte{0x51})
	}
	w.l.send(frame("headers", headersPayload(c.raw[next-1:next])))
	time.Sleep(5 * time.Minute)
	rt.Quiesce()
	rt.Assert(w.st.calls()-n <= 2, "the daemon still scans after its shutdown")
	_, err = w.st.GetBlockHeader(bg, c.hashes[next-1])
	rt.Assert(err != nil, "the daemon still stores headers after its shutdown")
}

// Ending the context stops the daemon whatever it is doing.
//
//verif:harness prop=D01 faketime budget=120s
func Shutdown() {
	w := newWorld(true)
	c := &chain{}
	current = 0
	d := descs[0]
	pay := unhex(d.scripts[0])
	for h := 1; h <= 3; h++ {
		w.mine(c, uint32(h), pay)
	}
	w.start()
	w.sync(c, 2, func(h int) { w.l.send(filterOf(c, h, pay)) })
	at := rt.Choose("moment", 4)
	if at > 0 {
		s := w.socket()
		s.say(request(d.desc, 0, ""))
		if at == 2 {
			wait()
		}
		if at == 3 {
			w.ask("POST", httpPath, request(d.desc, 0, "http://hook"))
		}
		w.l.send(frame("headers", headersPayload(c.raw[2:3])))
	}
	rt.Explore(rt.Param("delays", 1, 2))
	w.shutdown(c)
}

// Ending the context stops the daemon also before its node is synced.
//
//verif:harness prop=D01 faketime
func ShutdownEarly() {
	w := newWorld(true)
	c := &chain{}
	for h := 1; h <= 3; h++ {
		w.mine(c, uint32(h), []byte{0x51})
	}
	at := rt.Choose("moment", 5)
	if at == 4 {
		w.cancel()
	}
	w.start()
	if at > 0 && at < 4 {
		w.l.send(frame("version", versionPayload(cfService, 3)))
	}
	if at > 1 && at < 4 {
		rt.Quiesce()
		w.l.send(frame("headers", headersPayload(c.raw[:at-1])))
	}
	if at < 4 {
		wait()
	}
	rt.Assert(!w.serving(), "the daemon serves before its node is synced")
	rt.Explore(rt.Param("delays", 1, 2))
	if at == 1 { // it becomes synced at the same time
		w.l.send(frame("headers", headersPayload(c.raw)))
	}
	w.shutdown(c)
}

// A daemon that cannot start or serve says so.
//
//verif:harness prop=D01 faketime
func FailingStart() {
	switch rt.Choose("failure", 3) {
	case 0: // no peer
		w := newWorld(false)
		w.start()
		_, errs, _, _ := w.state()
		rt.Assert(errs >= 1, "a node that cannot connect is not reported")
		rt.Assert(!w.serving(), "a daemon serves although its node cannot connect")
		w.cancel()
		time.Sleep(time.Minute)
		rt.Quiesce()
		_, _, done, _ := w.state()
		rt.Assert(done, "the daemon's errors are not closed after its end")
		rt.Assert(rt.Ended(w.base), "a daemon that could not connect leaves goroutines")
	case 1: // the address is taken
		w := newWorld(true)
		web.refuse = true
		if !rt.Symbolic() {
			ln, err := net.Listen("tcp", w.addr)
			if err != nil {
				panic(err)
			}
			defer ln.Close()
		}
		c := &chain{}
		w.mine(c, 1, []byte{0x51})
		w.start()
		w.sync(c, 1, func(int) {})
		_, errs, _, _ := w.state()
		rt.Assert(errs == 1, "a daemon that cannot listen does not report it")
	case 2: // an unknown network
		_, err := neutrinodws.NewElementsNeutrinoServer(node.NodeConfig{Network: "bitcoin", FiltersDB: inmemory.NewFilterInmemory(), BlockHeadersDB: inmemory.NewHeaderInmemory()}, nil, "", "")
		rt.Assert(err != nil, "a daemon for an unknown network is created")
	}
}

// The first block of the chain is the genesis block of the daemon's network.
//
//verif:harness prop=D01 faketime
func Genesis() {
	nets := []struct {
		name  string
		magic [4]byte
		hash  string
	}{
		{"regtest", [4]byte{0x12, 0x34, 0x56, 0x78}, "00902a6b70c2ca83b5d9c815d96a0e2f4202179316970d14ea1847dae5b1ca21"},
		{"liquid", [4]byte{0xfa, 0xbf, 0xb5, 0xda}, "1466275836220db2944ca059a3a10ef6fd2ea684b0688d2c379296888a206003"},
		{"testnet", [4]byte{0x41, 0x0e, 0xdd, 0x62}, "a771da8e52ee6ad581ed1e9a99825e5b3b7992225534eaa2ae23244fe26ab1c1"},
	}
	n := nets[rt.Choose("network", len(nets))]
	regtestMagic = n.magic // of the frames of this harness
	w := newWorldOn(n.name, true)
	genesis, err := chainhash.NewHashFromStr(n.hash)
	if err != nil {
		panic(err)
	}
	c := &chain{}
	current = 0
	d := descs[0]
	pay := unhex(d.scripts[0])
	w.mine(c, 1, []byte{0x51})
	b := w.mine(&chain{}, 9, pay)
	w.st.hashes[1] = *genesis
	w.start()
	w.sync(c, 1, func(int) {
		w.l.send(filterOf(&chain{hashes: []chainhash.Hash{*genesis}}, 1, pay))
	})
	rt.Assert(w.serving(), "the daemon does not serve although its node is synced")
	start := rt.Choose("start", 2)
	s := w.socket()
	s.say(request(d.desc, start, ""))
	wait()
	ms := s.heard()
	rt.Assert(len(ms) > 0, "a registration is not answered")
	hits, others := about(ms[1:], b)
	rt.Assert(hits == 1-start && others == 0, "a payment in the genesis block is not reported exactly once to those who ask for it")
}

// A request that is for no documented path is refused; a handler that panics is answered with a server error, and later requests are served.
//
//verif:harness prop=D01
func Requests() {
	m := middleware.NewMiddlewareService()
	order := ""
	var calls []string
	mk := func(n string) middleware.Middleware {
		return func(next http.HandlerFunc) http.HandlerFunc {
			return func(w http.ResponseWriter, r *http.Request) {
				calls = append(calls, "+"+n)
				next(w, r)
				calls = append(calls, "-"+n)
			}
		}
	}
	n := rt.Choose("middlewares", 4)
	var ms []middleware.Middleware
	fail := rt.Choose("panic", 4)
	if fail > 0 {
		ms = append(ms, m.PanicRecovery)
	}
	ms = append(ms, m.LoggingMiddleware)
	end := ""
	for i := 0; i < n; i++ {
		name := strconv.Itoa(i)
		ms = append(ms, mk(name))
		order += "+" + name
		end = "-" + name + end
	}
	calledN := 0
	q := newRequest("POST", "/x", "text", http.Header{})
	h := m.WrapHandlerWithMiddlewares(func(w http.ResponseWriter, r *http.Request) {
		calledN++
		rt.Assert(r == q, "the handler is given another request")
		switch fail {
		case 1:
			panic("failure")
		case 2:
			panic(errors.New("failure"))
		case 3:
			var p *int
			*p = 1
		}
		w.WriteHeader(202)
		w.Write([]byte("done"))
	}, ms...)
	r := newResponse()
	msg := rt.Protect(func() { h(r, q) })
	rt.Assert(msg == "", "a panic in a handler is not recovered")
	rt.Assert(calledN == 1, "the handler is not called once")
	if fail > 0 {
		rt.Assert(r.code == 500, "a failed request is not answered with a server error")
		rt.Assert(strings.Join(calls, "") == order, "the middlewares are called in another order")
		return
	}
	rt.Assert(r.code == 202 && string(r.body) == "done", "the handler's answer is changed")
	rt.Assert(strings.Join(calls, "") == order+end, "the middlewares are called in another order")
	plain := newResponse()
	m.WrapHandlerWithMiddlewares(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(203) })(plain, q)
	rt.Assert(plain.code == 203, "a handler without middlewares is not called")
}

func newRequest(method, path, text string, h http.Header) *http.Request {
	return &http.Request{Method: method, URL: &url.URL{Path: path}, Host: "x", RequestURI: path, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: body{strings.NewReader(text)}}
}
