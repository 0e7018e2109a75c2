package main

import (
	"context"
	"encoding/hex"
	"sync"
	"time"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

// A transaction reaches all of many peers.
//
//verif:harness prop=C10
func ManyPeers() {
	e := silent()
	n := []int{9, 33, 70}[rt.Choose("peers", 3)]
	var ps []*fpeer
	var before []int
	broken := rt.Choose("broken", 3) // none, one early, one late
	for i := 0; i < n; i++ {
		p := newPeer("10.0.0." + itoa(i+1) + ":1")
		e.join(p, 5)
		ps = append(ps, p)
		before = append(before, len(p.l.sent()))
		p.l.failWrite = broken == 1 && i == 1 || broken == 2 && i == n-1
	}
	tx := txBytes(rt.U32("lock"))
	err := e.n.SendTransaction(hex.EncodeToString(tx))
	settle()
	rt.Assert(err == nil || broken > 0, "sending a transaction fails")
	for i, p := range ps {
		if p.l.failWrite {
			continue
		}
		ms := p.l.sent()[before[i]:]
		rt.Assert(cmds(ms) == "tx ", "a transaction is not sent exactly once to a connected peer")
		rt.Assert(rt.BytesEq(ms[0].payload, tx), "another transaction is sent")
	}
}

func itoa(i int) string {
	s := ""
	for ; i > 0; i /= 10 {
		s = string(rune('0'+i%10)) + s
	}
	return s
}

func compact(n int) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n < 1<<16:
		return []byte{0xfd, byte(n), byte(n >> 8)}
	}
	return cat([]byte{0xfe}, u32le(uint32(n)))
}

// Large inventories are requested unchanged, too.
//
//verif:harness prop=C08
func ManyInventories() {
	e := silent()
	p := newPeer("10.0.0.1:1")
	e.join(p, 5)
	before := len(p.l.sent())
	n := []int{16, 252, 253, 256, 500, 1001, 5000}[rt.Choose("count", 7)]
	payload := compact(n)
	for i := 0; i < n; i++ {
		if i == 0 || i == n-1 {
			payload = cat(payload, rt.Bytes("kind", 4), rt.Bytes("hash", 32))
		} else {
			payload = append(payload, byte(1+i%5), 0, 0, 0x40*byte(i%2))
			payload = append(payload, append([]byte{byte(i), byte(i >> 8)}, make([]byte, 30)...)...)
		}
	}
	p.l.send(frame("inv", payload))
	settle()
	ms := p.l.sent()[before:]
	rt.Assert(cmds(ms) == "getdata ", "an inventory is not answered by one getdata")
	rt.Assert(rt.BytesEq(ms[0].payload, payload), "another inventory is requested")
}

// A message of any size is read to its end before the next one.
//
//verif:harness prop=C06
func LargeMessages() {
	e := silent()
	p := newPeer("10.0.0.1:1")
	e.join(p, 5)
	before := len(p.l.sent())
	cmd := []string{"nosuchcmd", "block", "tx", "headers", "addr", "pong", "cfilter"}[rt.Choose("cmd", 7)]
	n := []int{255, 256, 4095, 4096, 32768, 65535, 65536, 200000}[rt.Choose("size", 8)]
	payload := make([]byte, n)
	if rt.Choose("content", 2) == 1 {
		copy(payload, wellFormed(cmd))
	}
	nonce := rt.Bytes("nonce", 8)
	p.l.send(frame(cmd, payload))
	if rt.Choose("pause", 2) == 1 {
		settle()
	}
	p.l.send(frame("ping", nonce))
	settle()
	pongs := of(p.l.sent()[before:], "pong")
	rt.Assert(len(pongs) == 1, "a ping is not answered by exactly one pong")
	rt.Assert(rt.BytesEq(pongs[0], nonce), "a ping is answered with another nonce")
	rt.Assert(!p.l.isClosed(), "the peer is disconnected")
}

// Filters of every size are stored and served unchanged.
//
//verif:harness prop=S05
func LargeFilter() {
	e := silent()
	p := newPeer("10.0.0.1:1")
	e.join(p, 5)
	c := newChain(3, 7)
	e.store(c, 3)
	h := c.at(2)
	n := []int{64, 251, 252, 253, 254, 255, 256, 511, 4096, 65535, 65536, 70000}[rt.Choose("size", 12)]
	nb := make([]byte, n)
	for i := range nb {
		nb[i] = byte(i * 7)
	}
	nb[0], nb[n-1] = 3, rt.U8("last")
	p.l.send(frame("cfilter", cat([]byte{0}, h[:], compact(n), nb)))
	settle()
	f, err := e.filters.GetFilter(bg, repository.FilterKey{BlockHash: h[:], FilterType: repository.RegularFilter})
	rt.Assert(err == nil, "a received filter is not stored")
	rt.Assert(rt.BytesEq(f.NBytes, nb), "another filter is stored")
}

// A peer that answers all its pings stays connected for good.
//
//verif:harness prop=P01 faketime
func ManyRounds() {
	rt.FixedRandoms(true)
	e := silent()
	c := clock{time.Now()}
	a, b := newPeer("10.0.0.1:1"), newPeer("10.0.0.2:2")
	e.join(a, 5)
	e.join(b, 5)
	n := []int{7, rt.Param("rounds", 17, 60)}[rt.Choose("rounds", 2)]
	for round := 1; round <= n; round++ {
		c.until(time.Duration(round)*120*time.Second + 500*time.Millisecond)
		for _, p := range []*fpeer{a, b} {
			if p == a && round == n {
				continue
			}
			ps := of(p.l.sent(), "ping")
			rt.Assert(len(ps) == round, "a connected peer is not pinged")
			p.l.send(frame("pong", ps[round-1]))
		}
		settle()
	}
	c.until(time.Duration(n)*120*time.Second + 62*time.Second)
	rt.Assert(!b.l.isClosed(), "a peer that answers its pings is disconnected")
	rt.Assert(a.l.isClosed(), "a peer is not disconnected exactly when it leaves a ping unanswered")
}

// A long chain is fetched completely.
//
//verif:harness prop=S10 faketime
func LongChain() {
	e := newEnv()
	l := []int{40, 300}[rt.Choose("length", 2)]
	c := newChain(l, 7)
	e.start()
	p := &honest{l: e.l, c: c, limit: []int{2, 17, 2000}[rt.Choose("portion", 3)]}
	if l > 100 && p.limit == 2 {
		rt.Done()
	}
	e.handshake(uint32(l))
	settle()
	for i := 0; p.turn() && i < 2*l+10; i++ {
		settle()
	}
	complete(e, c, 0)
}

// The locator of a long chain is sent as it is.
//
//verif:harness prop=S03
func LongLocator() {
	e := newEnv()
	l := []int{30, 300, 1100}[rt.Choose("length", 3)]
	c := newChain(l, 7)
	e.store(c, l)
	loc, err := e.headers.LatestBlockLocator(bg)
	rt.Assert(err == nil, "no block locator")
	e.start()
	e.handshake(uint32(l + 5))
	ms := of(e.l.sent(), "getheaders")
	rt.Assert(len(ms) >= 1, "the peer is not asked for headers")
	want := cat(u32le(70016), compact(len(loc)))
	for _, h := range loc {
		want = cat(want, h[:])
	}
	rt.Assert(rt.BytesEq(ms[0], cat(want, make([]byte, 32))), "another locator is sent")
}

// lightStore is a header store for long chains: a chain in an array.
type lightStore struct {
	mu     sync.Mutex
	chain  []block.Header // chain[i] has height i+1
	hashes []chainhash.Hash
	at     map[chainhash.Hash]int
	bad    bool
}

func newLight() *lightStore { return &lightStore{at: map[chainhash.Hash]int{}} }

func (s *lightStore) ChainTip(context.Context) (*block.Header, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.chain) == 0 {
		return nil, repository.ErrNoBlocksHeaders
	}
	h := s.chain[len(s.chain)-1]
	return &h, nil
}

func (s *lightStore) GetBlockHeader(_ context.Context, hash chainhash.Hash) (*block.Header, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if i := s.at[hash]; i > 0 {
		h := s.chain[i-1]
		return &h, nil
	}
	return nil, repository.ErrBlockNotFound
}

func (s *lightStore) GetBlockHashByHeight(_ context.Context, i uint32) (*chainhash.Hash, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if i >= 1 && int(i) <= len(s.chain) {
		h := s.hashes[i-1]
		return &h, nil
	}
	return nil, repository.ErrBlockNotFound
}

func (s *lightStore) WriteHeaders(_ context.Context, hs ...block.Header) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := range hs {
		h := hs[i]
		hash, err := h.Hash()
		if err != nil {
			return err
		}
		if int(h.Height) != len(s.chain)+1 {
			s.bad = true
			continue
		}
		s.chain = append(s.chain, h)
		s.hashes = append(s.hashes, hash)
		s.at[hash] = len(s.chain)
	}
	return nil
}

func (s *lightStore) LatestBlockLocator(context.Context) (blockchain.BlockLocator, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.chain) == 0 {
		return nil, repository.ErrNoBlocksHeaders
	}
	var l blockchain.BlockLocator
	step := 1
	for i := len(s.chain); i >= 1; i -= step {
		h := s.hashes[i-1]
		l = append(l, &h)
		if len(l) >= 10 {
			step *= 2
		}
	}
	return l, nil
}

func (s *lightStore) HasAllAncestors(_ context.Context, h chainhash.Hash) (bool, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.at[h] > 0, nil
}

// Batches of the protocol's maximal length are stored completely.
//
//verif:harness prop=S01 steps=100
func FullBatch() {
	st := newLight()
	e := newEnvWith("regtest", st)
	k := []int{0, 1100}[rt.Choose("stored", 2)]
	n := []int{2000, 1000, 1999}[rt.Choose("batch", rt.Param("lengths", 2, 3))]
	c := newChain(k+n, 7)
	e.store(c, k)
	e.start()
	e.handshake(uint32(k + n))
	e.l.send(frame("headers", headersPayload(c.raw[k:])))
	settle()
	for i := 0; i < 50 && len(of(e.l.sent(), "getcfilters")) < n; i++ {
		settle()
	}
	rt.Assert(len(st.chain) == k+n && !st.bad, "a batch that extends the stored chain is not stored")
	reqs := of(e.l.sent(), "getcfilters")
	rt.Assert(len(reqs) == n, "the filter of a stored header is not requested")
	for i := 1; i <= k+n; i++ {
		want := c.at(i)
		rt.Assert([32]byte(st.hashes[i-1]) == want, "another header is stored at a height")
		if i > k {
			rt.Assert(rt.BytesEq(reqs[i-k-1], cat([]byte{0}, u32le(uint32(i)), want[:])), "the filter of another block is requested")
		}
	}
}

// A long filter request is served completely and in order.
//
//verif:harness prop=C09
func ServeMany() {
	st := newLight()
	e := newEnvWith("regtest", st)
	p := newPeer("10.0.0.1:1")
	l := 1010
	c := newChain(l, 7)
	e.store(c, l)
	for i := 1; i <= l; i++ {
		h := c.at(i)
		nb := []byte{1, byte(i), byte(i >> 8), 0x30}
		rt.Assert(e.filters.PutFilter(bg, &repository.FilterEntry{Key: repository.FilterKey{BlockHash: h[:]}, NBytes: nb}) == nil, "put")
	}
	e.start()
	e.join(p, 5)
	before := len(p.l.sent())
	stop := l - rt.Choose("below the tip", 3)
	n := []int{100, 256, 500, 999, 1000}[rt.Choose("blocks", 5)]
	h := c.at(stop)
	p.l.send(frame("getcfilters", cat([]byte{0}, u32le(uint32(stop-n+1)), h[:])))
	settle()
	for i := 0; i < 50 && len(p.l.sent())-before < n; i++ {
		settle()
	}
	ms := p.l.sent()[before:]
	rt.Assert(len(ms) == n, "not every filter of the range is sent")
	for j, m := range ms {
		i := stop - n + 1 + j
		h := c.at(i)
		rt.Assert(m.cmd == "cfilter" && rt.BytesEq(m.payload, cat([]byte{0}, h[:], []byte{4, 1, byte(i), byte(i >> 8), 0x30})), "another filter is sent, or in another order")
	}
}

// Neither does a message of the size of a full block, or larger.
//
//verif:harness prop=C06 steps=400 alloc=64
func HugeMessages() {
	e := silent()
	p := newPeer("10.0.0.1:1")
	e.join(p, 5)
	before := len(p.l.sent())
	cmd := []string{"nosuchcmd", "block", "tx"}[rt.Choose("cmd", 3)]
	n := []int{1 << 20, 1<<20 + 1, 4000001, 5 << 20}[rt.Choose("size", rt.Param("sizes", 3, 4))]
	nonce := rt.Bytes("nonce", 8)
	p.l.send(cat(regtestMagic[:], append([]byte(cmd), make([]byte, 12-len(cmd))...), u32le(uint32(n)), make([]byte, 4)))
	part := make([]byte, 1<<16)
	for n > 0 {
		if n < len(part) {
			part = part[:n]
		}
		p.l.send(part)
		settle()
		n -= len(part)
	}
	p.l.send(frame("ping", nonce))
	settle()
	pongs := of(p.l.sent()[before:], "pong")
	rt.Assert(len(pongs) == 1, "a ping is not answered by exactly one pong")
	rt.Assert(rt.BytesEq(pongs[0], nonce), "a ping is answered with another nonce")
	rt.Assert(!p.l.isClosed(), "the peer is disconnected")
}
