package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

var regtestMagic = [4]byte{0x12, 0x34, 0x56, 0x78}

var bg = context.Background()

func dsha(b []byte) [32]byte {
	h := sha256.Sum256(b)
	return sha256.Sum256(h[:])
}

func u32le(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }
func u64le(v uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, v); return b }
func u16be(v uint16) []byte { return []byte{byte(v >> 8), byte(v)} }

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// frame is one message on the wire.
func frame(cmd string, payload []byte) []byte {
	var c [12]byte
	copy(c[:], cmd)
	sum := dsha(payload)
	return cat(regtestMagic[:], c[:], u32le(uint32(len(payload))), sum[:4], payload)
}

// link is the node's side of a connection: a scripted io.ReadWriteCloser and net.Conn.
type link struct {
	name      string
	in        chan []byte
	rest      []byte
	mu        sync.Mutex
	out       []byte
	closed    bool
	closedCh  chan struct{}
	failWrite bool
	deadline  time.Time // of writes
	stalled   bool      // the other side reads nothing more
	room      int       // what the stalled other side's buffer still takes
	writing   bool      // a write waits
	changed   chan struct{}
	reads     int
}

func newLink(name string) *link {
	return &link{name: name, in: make(chan []byte, 64), closedCh: make(chan struct{}), changed: make(chan struct{})}
}

func (l *link) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(l.rest) == 0 {
		rt.Jitter()
		select {
		case b, ok := <-l.in:
			if !ok {
				return 0, io.EOF
			}
			l.rest = b
		case <-l.closedCh:
			return 0, errors.New("use of closed connection")
		}
	}
	n := copy(p, l.rest)
	l.rest = l.rest[n:]
	return n, nil
}

func (l *link) Write(p []byte) (int, error) {
	rt.Jitter()
	l.mu.Lock()
	if l.stalled || l.writing {
		l.mu.Unlock()
		return l.writeSlowly(p)
	}
	defer l.mu.Unlock()
	if l.closed || l.failWrite {
		return 0, errors.New("write on a broken connection")
	}
	l.out = append(l.out, p...)
	return len(p), nil
}

// writeSlowly is a write to a peer that does not read: like those of package net, writes wait for
// each other, and a deadline set meanwhile counts for the write that waits.
func (l *link) writeSlowly(p []byte) (n int, err error) {
	for {
		l.mu.Lock()
		if l.closed {
			l.mu.Unlock()
			return 0, errors.New("write on a broken connection")
		}
		if !l.writing {
			l.writing = true
			l.mu.Unlock()
			break
		}
		ch := l.changed
		l.mu.Unlock()
		select {
		case <-ch:
		case <-l.closedCh:
		}
	}
	defer func() {
		l.mu.Lock()
		l.writing = false
		l.wake()
		l.mu.Unlock()
	}()
	for {
		l.mu.Lock()
		r := len(p)
		if l.closed || l.failWrite {
			l.mu.Unlock()
			return n, errors.New("write on a broken connection")
		}
		if l.stalled && r > l.room {
			r = l.room
		}
		l.out = append(l.out, p[:r]...)
		if l.stalled {
			l.room -= r
		}
		p, n = p[r:], n+r
		d, ch := l.deadline, l.changed
		l.mu.Unlock()
		if len(p) == 0 {
			return n, nil
		}
		var late <-chan time.Time
		if !d.IsZero() {
			t := time.NewTimer(time.Until(d))
			defer t.Stop()
			late = t.C
		}
		select {
		case <-ch:
		case <-l.closedCh:
		case <-late:
			return n, errors.New("i/o timeout")
		}
	}
}

// wake has the waiting writes look again, with l.mu held.
func (l *link) wake() {
	close(l.changed)
	l.changed = make(chan struct{})
}

func (l *link) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if !l.closed {
		l.closed = true
		close(l.closedCh)
	}
	return nil
}

func (l *link) isClosed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

// resume lets the other side read on.
func (l *link) resume() {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.stalled = false
	l.wake()
}

func (l *link) stall() {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.stalled = true
}

type addr string

func (a addr) Network() string                    { return "tcp" }
func (a addr) String() string                     { return string(a) }
func (l *link) LocalAddr() net.Addr               { return addr(l.name) }
func (l *link) RemoteAddr() net.Addr              { return addr("127.0.0.1:18886") }
func (l *link) SetDeadline(t time.Time) error     { return l.SetWriteDeadline(t) }
func (l *link) SetReadDeadline(t time.Time) error { return nil }
func (l *link) SetWriteDeadline(t time.Time) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.deadline = t
	if l.writing {
		l.wake()
	}
	return nil
}

// send delivers bytes to the node.
func (l *link) send(b []byte) { l.in <- b }

// raw is everything the node wrote.
func (l *link) raw() []byte {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]byte(nil), l.out...)
}

// msg is one message the node wrote.
type msg struct {
	cmd     string
	payload []byte
	raw     []byte
}

// sent parses everything the node wrote; a malformed stream is a violation.
func (l *link) sent() []msg {
	l.mu.Lock()
	b := append([]byte(nil), l.out...)
	l.mu.Unlock()
	var ms []msg
	for len(b) > 0 {
		rt.Assert(len(b) >= 24, "the node writes a truncated header")
		rt.Assert(bytes.Equal(b[:4], regtestMagic[:]), "the node writes a message with a wrong magic")
		n := rt.Conc(int(binary.LittleEndian.Uint32(b[16:20])))
		rt.Assert(n >= 0 && len(b) >= 24+n, "the node writes a truncated message")
		c := b[4:16]
		i := 0
		for i < 12 && c[i] != 0 {
			i++
		}
		ms = append(ms, msg{string(c[:i]), b[24 : 24+n], b[:24+n]})
		b = b[24+n:]
	}
	return ms
}

// of returns the payloads of one command.
func of(ms []msg, cmd string) [][]byte {
	var out [][]byte
	for _, m := range ms {
		if m.cmd == cmd {
			out = append(out, m.payload)
		}
	}
	return out
}

func cmds(ms []msg) string {
	s := ""
	for _, m := range ms {
		s += m.cmd + " "
	}
	return s
}

// fpeer is a peer given to the node through its API.
type fpeer struct {
	l   *link
	mu  sync.Mutex
	tip uint32
}

func newPeer(name string) *fpeer { return &fpeer{l: newLink(name)} }

func (p *fpeer) ID() peer.PeerID                { return peer.PeerID(p.l.name) }
func (p *fpeer) Connection() io.ReadWriteCloser { return p.l }
func (p *fpeer) Addr() *protocol.Addr           { a, _ := protocol.ParseNodeAddr("127.0.0.1:18886"); return a }
func (p *fpeer) PeersTip() uint32 {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.tip
}
func (p *fpeer) SetPeersTip(h uint32) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.tip = h
}

// dialed is the connection of the initial peer: net.Dial returns it under the engine,
// natively a loopback connection is bridged to it.
var dialed *link

// contacted counts the connections made to the listening peer.
var contacted int32

//verif:replace net.Dial
func dialModel(network, address string) (net.Conn, error) {
	if dialed == nil {
		return nil, errors.New("connection refused")
	}
	atomic.AddInt32(&contacted, 1)
	return dialed, nil
}

//verif:replace net.DialTimeout
func dialTimeoutModel(network, address string, d time.Duration) (net.Conn, error) {
	return dialModel(network, address)
}

//verif:replace (*net.Dialer).Dial
func dialerModel(d *net.Dialer, network, address string) (net.Conn, error) {
	return dialModel(network, address)
}

//verif:replace (*net.Dialer).DialContext
func dialerCtxModel(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	return dialModel(network, address)
}

// listen prepares the initial peer and returns its address and the link driving it.
func listen() (string, *link) {
	l := newLink("127.0.0.1:40001")
	if rt.Symbolic() {
		dialed = l
		return "127.0.0.1:18886", l
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		atomic.AddInt32(&contacted, 1)
		go func() {
			for b := range l.in {
				c.Write(b)
			}
			c.Close()
		}()
		buf := make([]byte, 1<<16)
		for {
			n, err := c.Read(buf)
			l.mu.Lock()
			l.out = append(l.out, buf[:n]...)
			l.mu.Unlock()
			if err != nil {
				l.Close()
				return
			}
		}
	}()
	return ln.Addr().String(), l
}

// versionPayload is the version message of a peer.
func versionPayload(services uint64, height uint32) []byte {
	return cat(u32le(70016), u64le(services), u64le(5), u64le(1), make([]byte, 10), []byte{0xff, 0xff, 127, 0, 0, 1}, u16be(1234),
		u64le(1), make([]byte, 10), []byte{0xff, 0xff, 127, 0, 0, 1}, u16be(1), u64le(99), []byte{3}, []byte("/x/"), u32le(height), []byte{1})
}

const cfService = 1 << 6

// ext is what follows the height of a header: a signed proof or the parameters of a dynamic federation.
func ext(form int) []byte {
	switch form {
	case 1: // nothing changes
		return []byte{0, 0, 1, 2, 9, 9}
	case 2: // compact parameters
		return cat([]byte{1, 1, 0x51}, u32le(100), make([]byte, 32), []byte{0, 2, 0, 1, 7})
	case 3: // a full proposal
		return cat([]byte{0, 2, 1, 0x51}, u32le(100), []byte{1, 0x52, 2, 0x53, 0x54, 2, 1, 7, 0, 1, 1, 5})
	case 4: // both, a long script
		s := make([]byte, 300)
		s[299] = 0x51
		return cat([]byte{2, 0xfd, 44, 1}, s, u32le(100), []byte{0, 0, 0, 1, 1, 0x51}, u32le(100), make([]byte, 31), []byte{8, 0})
	case 5: // a long proof
		s := make([]byte, 253)
		s[252] = 0x51
		return cat([]byte{0xfd, 253, 0}, s, []byte{0xfd, 253, 0}, s)
	}
	return []byte{1, 0x51, 1, 0x52}
}

// version of a header of a form.
func versionOf(form int) uint32 {
	if form >= 1 && form <= 4 {
		return 0x20000000 | 1<<31
	}
	return 0x20000000
}

// form tells the form of the header at a height.
var form = func(height uint32) int { return 0 }

// headerBytes is a header on the wire.
func headerBytes(prev [32]byte, height uint32, tag uint32) []byte {
	f := form(height)
	return cat(u32le(versionOf(f)), prev[:], make([]byte, 28), u32le(tag), u32le(1000+height), u32le(height), ext(f))
}

func parseHeader(b []byte) (*block.Header, chainhash.Hash) {
	h, err := block.DeserializeHeader(bytes.NewBuffer(b))
	if err != nil {
		panic(err)
	}
	hash, err := h.Hash()
	if err != nil {
		panic(err)
	}
	return h, hash
}

// chain is a hash-linked chain of headers of heights 1..n.
type chain struct {
	raw    [][]byte
	hdr    []*block.Header
	hashes []chainhash.Hash
}

func (c *chain) add(raw []byte) {
	h, hash := parseHeader(raw)
	c.raw = append(c.raw, raw)
	c.hdr = append(c.hdr, h)
	c.hashes = append(c.hashes, hash)
}

// at returns the hash at a height, the zero hash for height 0.
func (c *chain) at(h int) [32]byte {
	if h == 0 {
		return [32]byte{}
	}
	return c.hashes[h-1]
}

func newChain(n int, tag uint32) *chain {
	c := &chain{}
	for i := 1; i <= n; i++ {
		c.add(headerBytes(c.at(i-1), uint32(i), tag))
	}
	return c
}

func headersPayload(raws [][]byte) []byte {
	out := []byte{byte(len(raws))}
	if n := len(raws); n >= 0xfd {
		out = []byte{0xfd, byte(n), byte(n >> 8)}
	}
	for _, r := range raws {
		out = append(out, r...)
		out = append(out, 0)
	}
	return out
}

// env is one node with its stores and its initial peer.
type env struct {
	n       node.NodeService
	headers repository.BlockHeaderRepository
	filters repository.FilterRepository
	l       *link
	mu      sync.Mutex
	started bool
	serr    error
}

func (e *env) isStarted() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.started
}

func newEnv() *env { return newEnvOn("regtest") }

func newEnvOn(network string) *env { return newEnvWith(network, inmemory.NewHeaderInmemory()) }

func newEnvWith(network string, headers repository.BlockHeaderRepository) *env {
	rt.FixedHashes()
	rt.FixedRandoms(true)
	form = func(uint32) int { return 0 }
	e := &env{headers: headers, filters: inmemory.NewFilterInmemory()}
	n, err := node.New(node.NodeConfig{Network: network, UserAgent: "verif", FiltersDB: e.filters, BlockHeadersDB: e.headers})
	rt.Assert(err == nil, "a node cannot be created")
	e.n = n
	return e
}

// start runs Start in the background.
func (e *env) start() {
	a, l := listen()
	e.l = l
	go func() {
		err := e.n.Start(a)
		e.mu.Lock()
		e.started, e.serr = true, err
		e.mu.Unlock()
	}()
	settle()
}

// settle lets the node react to everything delivered.
func settle() {
	rt.Quiesce()
}

// store writes the first n headers of a chain.
func (e *env) store(c *chain, n int) {
	for i := 0; i < n; i++ {
		if err := e.headers.WriteHeaders(bg, *c.hdr[i]); err != nil {
			panic(err)
		}
	}
}

// handshake completes the version handshake of the initial peer.
func (e *env) handshake(height uint32) {
	e.l.send(frame("version", versionPayload(cfService|1, height)))
	settle()
}

func cfilterPayload(h [32]byte, nb []byte) []byte {
	return cat([]byte{0}, h[:], []byte{byte(len(nb))}, nb)
}

func blockBytes(header []byte, txs ...[]byte) []byte {
	out := cat(header, []byte{byte(len(txs))})
	for _, t := range txs {
		out = append(out, t...)
	}
	return out
}

// txBytes is an Elements transaction on the wire.
func txBytes(lock uint32) []byte {
	asset := append([]byte{1}, make([]byte, 32)...)
	return cat(u32le(2), []byte{0, 1}, []byte{7}, make([]byte, 31), u32le(3), []byte{2, 0x51, 0x52}, u32le(0xfffffffe),
		[]byte{1}, asset, []byte{1, 0, 0, 0, 0, 0, 0, 3, 232}, []byte{0}, []byte{1, 0x51}, u32le(lock))
}

func tipOf(e *env) int {
	h, err := e.headers.ChainTip(bg)
	if err == repository.ErrNoBlocksHeaders {
		return 0
	}
	rt.Assert(err == nil && h != nil, "the chain tip cannot be read")
	return int(h.Height)
}
