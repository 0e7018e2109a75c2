package main

import (
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"sync"
	"time"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

// plan makes the n-th call (from 0) of one operation fail, once.
type plan struct {
	mu   sync.Mutex
	op   string
	nth  int
	seen int
	hit  bool
}

var errMoment = errors.New("the store is not available at the moment")

func (p *plan) arm(op string, nth int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.op, p.nth, p.seen, p.hit = op, nth, 0, false
}

func (p *plan) over() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.op = ""
	return p.hit
}

func (p *plan) fails(op string) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.op != op {
		return false
	}
	p.seen++
	if p.seen == p.nth+1 {
		p.hit = true
		return true
	}
	return false
}

type faultyHeaders struct {
	repository.BlockHeaderRepository
	p *plan
}

func (f *faultyHeaders) ChainTip(c context.Context) (*block.Header, error) {
	if f.p.fails("tip") {
		return nil, errMoment
	}
	return f.BlockHeaderRepository.ChainTip(c)
}

func (f *faultyHeaders) WriteHeaders(c context.Context, h ...block.Header) error {
	if f.p.fails("write") {
		return errMoment
	}
	return f.BlockHeaderRepository.WriteHeaders(c, h...)
}

func (f *faultyHeaders) LatestBlockLocator(c context.Context) (blockchain.BlockLocator, error) {
	if f.p.fails("locator") {
		return nil, errMoment
	}
	return f.BlockHeaderRepository.LatestBlockLocator(c)
}

func (f *faultyHeaders) GetBlockHeader(c context.Context, h chainhash.Hash) (*block.Header, error) {
	if f.p.fails("header") {
		return nil, errMoment
	}
	return f.BlockHeaderRepository.GetBlockHeader(c, h)
}

func (f *faultyHeaders) GetBlockHashByHeight(c context.Context, h uint32) (*chainhash.Hash, error) {
	if f.p.fails("hash") {
		return nil, errMoment
	}
	return f.BlockHeaderRepository.GetBlockHashByHeight(c, h)
}

func (f *faultyHeaders) HasAllAncestors(c context.Context, h chainhash.Hash) (bool, error) {
	if f.p.fails("ancestors") {
		return false, errMoment
	}
	return f.BlockHeaderRepository.HasAllAncestors(c, h)
}

type faultyFilters struct {
	repository.FilterRepository
	p *plan
}

func (f *faultyFilters) PutFilter(c context.Context, e *repository.FilterEntry) error {
	if f.p.fails("put") {
		return errMoment
	}
	return f.FilterRepository.PutFilter(c, e)
}

func (f *faultyFilters) GetFilter(c context.Context, k repository.FilterKey) (*repository.FilterEntry, error) {
	if f.p.fails("get") {
		return nil, errMoment
	}
	return f.FilterRepository.GetFilter(c, k)
}

// newFaultyEnv is a node whose stores fail according to the plan.
func newFaultyEnv() (*env, *plan) {
	rt.FixedHashes()
	rt.FixedRandoms(true)
	p := &plan{}
	e := &env{headers: inmemory.NewHeaderInmemory(), filters: inmemory.NewFilterInmemory()}
	n, err := node.New(node.NodeConfig{Network: "regtest", UserAgent: "verif",
		FiltersDB: &faultyFilters{e.filters, p}, BlockHeadersDB: &faultyHeaders{e.headers, p}})
	rt.Assert(err == nil, "a node cannot be created")
	e.n = n
	return e, p
}

// A store operation that fails once loses at most what it was about: what arrives later is stored, served and asked for as ever.
//
//verif:harness prop=S09
func StoreFailure() {
	e, f := newFaultyEnv()
	k := rt.Choose("stored", 2)
	c := newChain(k+3, 7)
	e.store(c, k)
	e.start()
	e.handshake(uint32(k + 3))
	a := newPeer("10.0.0.1:1")
	e.join(a, uint32(k+3))
	ops := []string{"tip", "write", "locator", "put", "header", "hash", "get"}
	op := ops[rt.Choose("op", len(ops))]
	f.arm(op, rt.Choose("nth", rt.Param("nth", 3, 5)))
	how := rt.Choose("how", 2)
	deliver := func(from, to int) {
		if how == 0 {
			a.l.send(frame("headers", headersPayload(c.raw[from:to])))
		} else {
			for _, r := range c.raw[from:to] {
				a.l.send(frame("block", blockBytes(r)))
				settle()
			}
		}
		settle()
	}
	deliver(k, k+2)
	for i := 1; i <= k+2; i++ {
		a.l.send(frame("cfilter", cfilterPayload(c.at(i), []byte{1, byte(i), 0x20, 0x30})))
		settle()
	}
	if t := tipOf(e); t > 0 {
		h := c.at(t)
		a.l.send(frame("getcfilters", cat([]byte{0}, u32le(1), h[:])))
		settle()
	}
	if !f.over() {
		rt.Done() // that operation did not happen
	}
	rt.Cover("failed " + op)
	t := tipOf(e)
	rt.Assert(t >= k && t <= k+2, "the tip is wrong after a failure")
	for i := 1; i <= t; i++ {
		g, err := e.headers.GetBlockHashByHeight(bg, uint32(i))
		rt.Assert(err == nil && [32]byte(*g) == c.at(i), "another header is stored after a failure")
	}
	for _, g := range append(of(e.l.sent(), "getheaders"), of(a.l.sent(), "getheaders")...) {
		rt.Assert(g[4] >= 1, "headers are asked for without a locator after a failure")
	}
	before := len(e.l.sent()) + len(a.l.sent())
	count := func(cmd string) int { return len(of(e.l.sent(), cmd)) + len(of(a.l.sent(), cmd)) }
	requests := count("getcfilters")
	// the failure is over: everything is announced again
	deliver(t, k+3)
	rt.Assert(tipOf(e) == k+3, "headers are no longer stored after a failure")
	rt.Assert(len(e.l.sent())+len(a.l.sent()) > before, "the node asks for nothing after a failure")
	rt.Assert(count("getcfilters") == requests+k+3-t, "the filters of new headers are not asked for after a failure")
	last := 0
	for _, r := range append(of(e.l.sent(), "getcfilters"), of(a.l.sent(), "getcfilters")...) {
		if int(binary.LittleEndian.Uint32(r[1:5])) == k+3 {
			h := c.at(k + 3)
			rt.Assert(rt.BytesEq(r[5:], h[:]), "another filter is asked for")
			last++
		}
	}
	rt.Assert(last == 1, "the filter of the new tip is not asked for")
	for i := 1; i <= k+3; i++ {
		a.l.send(frame("cfilter", cfilterPayload(c.at(i), []byte{1, byte(i), 0x20, 0x30})))
	}
	settle()
	for i := 1; i <= k+3; i++ {
		h := c.at(i)
		g, err := e.filters.GetFilter(bg, repository.FilterKey{BlockHash: h[:], FilterType: repository.RegularFilter})
		rt.Assert(err == nil && rt.BytesEq(g.NBytes, []byte{1, byte(i), 0x20, 0x30}), "filters are no longer stored after a failure")
	}
	h := c.at(k + 3)
	n := len(of(a.l.sent(), "cfilter"))
	a.l.send(frame("getcfilters", cat([]byte{0}, u32le(1), h[:])))
	settle()
	rt.Assert(len(of(a.l.sent(), "cfilter")) == n+k+3, "filters are no longer served after a failure")
	rt.Assert(!a.l.isClosed() && !e.l.isClosed(), "a peer is disconnected because the store failed")
}

// A peer whose connection no longer accepts data does not keep the node from storing what the other peers send.
//
//verif:harness prop=S09
func DeadPeer() {
	e := newEnv()
	k := rt.Choose("stored", 2)
	c := newChain(k+3, 7)
	e.store(c, k)
	e.start()
	a, b := newPeer("10.0.0.1:1"), newPeer("10.0.0.2:1")
	if rt.Choose("order", 2) == 0 {
		e.join(b, uint32(k+3))
		e.join(a, uint32(k+3))
	} else {
		e.join(a, uint32(k+3))
		e.join(b, uint32(k+3))
	}
	b.l.mu.Lock()
	b.l.failWrite = true
	b.l.mu.Unlock()
	switch rt.Choose("then", 3) {
	case 1:
		b.l.send(frame("ping", make([]byte, 8)))
	case 2:
		b.l.send(frame("headers", headersPayload(c.raw[k:k+1])))
	}
	settle()
	for i := k; i < k+3; i++ {
		if rt.Choose("how", 2) == 0 {
			a.l.send(frame("headers", headersPayload(c.raw[i:i+1])))
		} else {
			a.l.send(frame("block", blockBytes(c.raw[i])))
		}
		settle()
	}
	rt.Assert(tipOf(e) == k+3, "a dead peer keeps headers from being stored")
	h := c.at(k + 3)
	a.l.send(frame("cfilter", cfilterPayload(h, []byte{1, 9, 0x20, 0x30})))
	settle()
	n := len(a.l.sent())
	a.l.send(frame("getcfilters", cat([]byte{0}, u32le(uint32(k+3)), h[:])))
	a.l.send(frame("ping", make([]byte, 8)))
	settle()
	rt.Assert(cmds(a.l.sent()[n:]) == "cfilter pong ", "a dead peer keeps the others from being served")
}

// A peer that reads nothing more, whatever is written to it, is disconnected and delays the others for a bounded time.
//
//verif:harness prop=P01 faketime
func StalledPeer() {
	rt.FixedRandoms(true)
	e := silent()
	clk := clock{time.Now()}
	c := newChain(2, 7)
	a, b := newPeer("10.0.0.1:1"), newPeer("10.0.0.2:2")
	if rt.Choose("first", 2) == 1 {
		e.join(b, 2)
		e.join(a, 2)
	} else {
		e.join(a, 2)
		e.join(b, 2)
	}
	clk.until(time.Duration(rt.Choose("moment", 3)) * 59 * time.Second)
	a.l.stall()
	sent := make(chan bool, 1)
	what := rt.Choose("what", 5)
	switch what {
	case 0: // only its ping
	case 1:
		a.l.send(frame("ping", make([]byte, 8)))
	case 2:
		a.l.send(frame("inv", cat([]byte{1}, u32le(2), make([]byte, 32))))
	case 3:
		b.l.send(frame("headers", headersPayload(c.raw)))
	case 4:
		go func() {
			e.n.SendTransaction(hex.EncodeToString(txBytes(5)))
			sent <- true
		}()
	}
	settle()
	for r := 1; r <= 2; r++ {
		clk.until(time.Duration(r)*120*time.Second + 500*time.Millisecond)
		ps := of(b.l.sent(), "ping")
		rt.Assert(len(ps) == r, "a connected peer is not pinged")
		b.l.send(frame("pong", ps[r-1]))
		settle()
	}
	clk.until(305 * time.Second)
	rt.Assert(a.l.isClosed(), "a peer that reads nothing is not disconnected")
	rt.Assert(!b.l.isClosed(), "a peer that answers its pings is disconnected")
	switch what {
	case 3:
		rt.Assert(tipOf(e) == 2, "a stalled peer keeps headers from being stored")
	case 4:
		rt.Assert(len(sent) == 1, "a stalled peer blocks a transaction")
		rt.Assert(len(of(b.l.sent(), "tx")) == 1, "a stalled peer keeps a transaction from the others")
	}
	// the node still works
	n := len(b.l.sent())
	b.l.send(frame("ping", make([]byte, 8)))
	settle()
	rt.Assert(cmds(b.l.sent()[n:]) == "pong ", "a connected peer is not served any more")
	x := newPeer("10.0.0.3:3")
	e.join(x, 2)
	rt.Assert(len(of(x.l.sent(), "verack")) == 1, "a new peer is not accepted any more")
}

// Nothing is sent after a message that could be sent in part only: a peer that pauses reads whole messages, and at most one cut short as the last.
//
//verif:harness prop=C02 faketime
func CutShort() {
	rt.FixedRandoms(true)
	e := silent()
	clk := clock{time.Now()}
	a := newPeer("10.0.0.1:1")
	e.join(a, 2)
	before := len(a.l.raw())
	a.l.room = rt.Choose("room", rt.Param("room", 34, 70))
	a.l.stall()
	ping := frame("ping", make([]byte, 8))
	a.l.send(ping)
	a.l.send(frame("inv", cat([]byte{1}, u32le(1), make([]byte, 32))))
	go e.n.SendTransaction(hex.EncodeToString(txBytes(5)))
	settle()
	clk.until(time.Duration(rt.Choose("pause", 3)) * 50 * time.Second)
	a.l.resume()
	settle()
	e.n.SendTransaction(hex.EncodeToString(txBytes(6)))
	func() {
		defer func() { recover() }()
		a.l.send(ping)
	}()
	settle()
	clk.until(200 * time.Second)
	b := a.l.raw()[before:]
	for len(b) >= 24 && len(b) >= 24+int(b[16]) {
		rt.Assert(rt.BytesEq(b[:4], regtestMagic[:]), "the node goes on after a message it sent in part")
		b = b[24+int(b[16]):]
	}
	if len(b) > 0 {
		rt.Assert(len(b) < 4 || rt.BytesEq(b[:4], regtestMagic[:]), "the node goes on after a message it sent in part")
		rt.Assert(a.l.isClosed(), "a message sent in part is followed by more")
		rt.Cover("cut short")
	}
}

// However often transactions are submitted, a peer that reads nothing delays each of them for a bounded time only.
//
//verif:harness prop=C10 faketime
func StalledAndBusy() {
	rt.FixedRandoms(true)
	e := silent()
	clk := clock{time.Now()}
	a, b := newPeer("10.0.0.1:1"), newPeer("10.0.0.2:2")
	if rt.Choose("first", 2) == 1 {
		e.join(b, 2)
		e.join(a, 2)
	} else {
		e.join(a, 2)
		e.join(b, 2)
	}
	before := len(b.l.sent())
	a.l.stall()
	every := []time.Duration{time.Second, 4 * time.Second, 9 * time.Second, 11 * time.Second}[rt.Choose("every", 4)]
	n := rt.Param("transactions", 5, 8)
	done := make(chan int, n)
	for i := 0; i < n; i++ {
		tx := hex.EncodeToString(txBytes(uint32(i)))
		i := i
		go func() {
			e.n.SendTransaction(tx)
			done <- i
		}()
		settle()
		clk.until(time.Duration(i+1) * every)
		settle()
		if late := time.Duration(i+1) * every; late > 20*time.Second {
			rt.Assert(len(done) > 0, "submitting transactions keeps a stalled peer from being given up")
		}
	}
	clk.until(time.Duration(n)*every + 15*time.Second)
	settle()
	rt.Assert(len(done) == n, "a stalled peer keeps transactions from being sent")
	rt.Assert(a.l.isClosed(), "a peer that reads nothing is not disconnected")
	seen := map[string]int{}
	for _, t := range of(b.l.sent()[before:], "tx") {
		seen[string(t)]++
	}
	for i := 0; i < n; i++ {
		rt.Assert(seen[string(txBytes(uint32(i)))] == 1, "a transaction does not reach a peer exactly once")
	}
}
