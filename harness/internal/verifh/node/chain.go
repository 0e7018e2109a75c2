package main

import (
	"encoding/hex"
	"time"

	"github.com/vulpemventures/go-elements/transaction"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
)

// A block is stored iff it is the child of the tip; one beyond it raises the peer's tip and makes the node ask for headers.
//
//verif:harness prop=S02
func BlockAnnounced() {
	e := silent()
	p := newPeer("10.0.0.1:1")
	known := rt.U32("peer tip")
	e.join(p, known)
	k := rt.Choose("stored", rt.Param("stored", 3, 5))
	c := newChain(k, 7)
	e.store(c, k)
	before := len(p.l.sent())
	height := rt.U32("height")
	if height <= uint32(k)+2 {
		height = uint32(rt.Conc(int(height)))
	}
	var prev [32]byte
	links := false
	switch rt.Choose("prev", 3) {
	case 0:
		prev, links = c.at(k), true
	case 1:
		prev = [32]byte{0xaa}
	case 2:
		if k > 0 {
			prev = c.at(k - 1)
		}
	}
	raw := headerBytes(prev, height, 500)
	_, hash := parseHeader(raw)
	n := rt.Choose("txs", 3)
	txs := [][]byte{txBytes(1), txBytes(2)}[:n]
	p.l.send(frame("block", blockBytes(raw, txs...)))
	settle()
	ms := p.l.sent()[before:]
	stored := height == uint32(k)+1 && (k == 0 || links)
	h, err := e.headers.GetBlockHeader(bg, hash)
	rt.Assert((err == nil) == stored, "a block is not stored exactly when it is the child of the tip")
	t := tipOf(e)
	if stored {
		rt.Cover("stored")
		rt.Assert(t == k+1 && h.Height == height, "the tip is not the new block")
		rt.Assert(cmds(ms) == "getcfilters ", "the filter of a new block is not requested")
		rt.Assert(rt.BytesEq(ms[0].payload, cat([]byte{0}, u32le(height), hash[:])), "the filter of another block is requested")
	} else {
		rt.Assert(t == k, "the tip changes")
	}
	if height != uint32(k)+1 {
		if height > known {
			rt.Cover("ahead")
			rt.Assert(p.PeersTip() == height, "the peer's tip is not raised")
			rt.Assert(cmds(ms) == "getheaders ", "the missing headers are not requested")
		} else {
			rt.Assert(p.PeersTip() == known, "the peer's tip is lowered")
			rt.Assert(len(ms) == 0, "an old block is answered")
		}
	}
}

// Whatever several peers announce at the same time, the stored headers stay one linked chain.
//
//verif:harness prop=S01 budget=120s
func ForkRace() {
	e := silent()
	a, b := newPeer("10.0.0.1:1"), newPeer("10.0.0.2:1")
	e.join(a, 9)
	e.join(b, 9)
	k := rt.Choose("stored", 2)
	c := newChain(k, 7)
	e.store(c, k)
	deliver := func(p *fpeer, tag uint32) (hs [][32]byte) {
		n := 1 + rt.Choose("batch", 2)
		var raws [][]byte
		prev := c.at(k)
		for i := 0; i < n; i++ {
			raw := headerBytes(prev, uint32(k+1+i), tag)
			_, h := parseHeader(raw)
			prev = h
			hs = append(hs, h)
			raws = append(raws, raw)
		}
		if rt.Choose("block", 2) == 1 {
			for _, r := range raws {
				p.l.send(frame("block", blockBytes(r)))
			}
			return hs
		}
		p.l.send(frame("headers", headersPayload(raws)))
		return hs
	}
	rt.Explore(rt.Param("delays", 1, 2))
	ha := deliver(a, 100)
	hb := deliver(b, 200+uint32(100*rt.Choose("same", 2)))
	settle()
	rt.StopExplore()
	t := tipOf(e)
	rt.Assert(t > k, "no announced header is stored")
	prev := c.at(k)
	for i := k + 1; i <= t; i++ {
		g, err := e.headers.GetBlockHashByHeight(bg, uint32(i))
		rt.Assert(err == nil, "a height up to the tip has no header")
		h, err := e.headers.GetBlockHeader(bg, *g)
		rt.Assert(err == nil && int(h.Height) == i, "a stored header cannot be read")
		if i > 1 {
			rt.Assert(rt.BytesEq(h.PrevBlockHash, prev[:]), "the stored chain is not linked")
		}
		prev = *g
	}
	rt.Assert(count(e, append(ha, hb...), t) == t, "two headers are stored for one height")
}

// Start returns once the handshake is done and the stored chain reaches the tip announced by the peer without gaps, and not before.
//
//verif:harness prop=S04 faketime
func StartReturns() {
	e := newEnv()
	c := newChain(4, 7)
	have := make([]bool, 5)
	switch rt.Choose("stored", 4) {
	case 1:
		have[1] = true
	case 2:
		have[1], have[2] = true, true
	case 3: // a gap
		have[1], have[3] = true, true
	}
	for i := 1; i <= 4; i++ {
		if have[i] {
			rt.Assert(e.headers.WriteHeaders(bg, *c.hdr[i-1]) == nil, "a header cannot be stored")
		}
	}
	tip := func() int {
		t := 0
		for i := range have {
			if have[i] {
				t = i
			}
		}
		return t
	}
	e.start()
	hands := false
	peerTip := uint32(0)
	check := func() {
		time.Sleep(2500 * time.Millisecond)
		settle()
		t := tip()
		ready := hands && t > 0 && uint32(t) >= peerTip
		for i := 1; i <= t; i++ {
			ready = ready && have[i]
		}
		if t == 0 && hands && peerTip == 0 { // nothing to sync: either is fine
			return
		}
		rt.Assert(e.isStarted() || !ready, "Start does not return although the node is synced")
		rt.Assert(!e.isStarted() || ready, "Start returns before the node is synced")
		if e.isStarted() {
			rt.Cover("synced")
			rt.Assert(e.serr == nil, "Start fails")
			g, err := e.n.GetChainTip()
			rt.Assert(err == nil && int(g.Height) == t, "the chain tip is not the stored one")
			rt.Done()
		}
	}
	check()
	steps := rt.Param("steps", 3, 4)
	for i := 0; i < steps; i++ {
		switch rt.Choose("step", 4) {
		case 0: // the handshake
			if hands {
				rt.Assume(false)
			}
			peerTip = rt.U32("peer tip")
			if peerTip <= 5 {
				peerTip = uint32(rt.Conc(int(peerTip)))
			}
			e.l.send(frame("version", versionPayload(cfService, peerTip)))
			hands = true
		case 1: // one more header
			rt.Assume(tip() < 4)
			e.l.send(frame("headers", headersPayload(c.raw[tip():tip()+1])))
			have[tip()+1] = true
		case 2: // two more headers
			rt.Assume(tip() < 3)
			e.l.send(frame("headers", headersPayload(c.raw[tip():tip()+2])))
			have[tip()+1] = true
			have[tip()+1] = true
		case 3: // a block far ahead
			rt.Assume(hands && peerTip <= 5)
			e.l.send(frame("block", blockBytes(headerBytes([32]byte{3}, 7, 3))))
			peerTip = 7
		}
		settle()
		check()
	}
}

// Start does not return early when the handshake coincides with the check for the sync.
//
//verif:harness prop=S04 faketime
func StartRace() {
	e := newEnv()
	k := 1 + rt.Choose("stored", 2)
	c := newChain(3, 7)
	e.store(c, k)
	e.start()
	for i := rt.Choose("seconds", 3); i > 0; i-- {
		time.Sleep(time.Second)
	}
	rt.Explore(rt.Param("delays", 2, 3))
	e.l.send(frame("version", versionPayload(cfService, 3)))
	time.Sleep(2500 * time.Millisecond)
	settle()
	rt.StopExplore()
	rt.Assert(!e.isStarted(), "Start returns before the node is synced")
	e.l.send(frame("headers", headersPayload(c.raw[k:])))
	time.Sleep(2500 * time.Millisecond)
	settle()
	rt.Assert(e.isStarted() && e.serr == nil, "Start does not return although the node is synced")
}

// Start fails when the initial peer cannot be reached.
//
//verif:harness prop=S04 faketime
func StartUnreachable() {
	e := newEnv()
	err := make(chan error, 1)
	a := []string{"127.0.0.1:1", "127.0.0.1", "nonsense", ""}[rt.Choose("address", 4)]
	go func() { err <- e.n.Start(a) }()
	startFails(err)
}

// Start fails when the connection of the initial peer breaks at once.
//
//verif:harness prop=S04 faketime noval
func StartBroken() {
	e := newEnv()
	a, l := listen()
	l.failWrite = true
	err := make(chan error, 1)
	go func() { err <- e.n.Start(a) }()
	startFails(err)
}

func startFails(err chan error) {
	time.Sleep(5 * time.Second)
	settle()
	select {
	case x := <-err:
		rt.Assert(x != nil, "Start succeeds although its peer cannot be reached")
	default:
		rt.Assert(false, "Start does not return although its peer cannot be reached")
	}
}

// Stop ends the node at any moment: it neither blocks nor panics, nothing is stored and no peer is pinged any more.
//
//verif:harness prop=P03 faketime
func NodeStop() {
	e := newEnv()
	clk := clock{time.Now()}
	c := newChain(4, 7)
	e.store(c, 1)
	before := rt.Goroutines()
	e.start()
	b := newPeer("10.0.0.2:1")
	x := newPeer("10.0.0.3:1") // never introduces itself
	when := rt.Choose("when", 5)
	if when > 0 {
		e.handshake(1)
	}
	if when > 1 {
		e.join(b, 1)
		rt.Assert(e.n.AddOutboundPeer(x) == nil, "a new peer is refused")
	}
	if when > 2 {
		time.Sleep(2 * time.Second)
		settle()
		rt.Assert(e.isStarted(), "Start does not return although the node is synced")
	}
	if when > 3 {
		clk.until(121 * time.Second)
		rt.Assert(len(of(b.l.sent(), "ping")) == 1, "a connected peer is not pinged")
	}
	rt.Explore(rt.Param("delays", 1, 2))
	busy := rt.Choose("busy", 6)
	switch busy {
	case 1:
		e.l.send(frame("headers", headersPayload(c.raw[1:2])))
	case 2:
		b.l.send(frame("tx", txBytes(3)))
	case 3:
		e.l.send(frame("headers", headersPayload(c.raw[1:])))
	case 4:
		e.l.send(frame("cfilter", cfilterPayload(c.at(1), filterOf(1))))
		b.l.send(frame("cfilter", cfilterPayload(c.at(1), filterOf(1))))
	case 5:
		e.l.send(frame("block", blockBytes(c.raw[1], txBytes(2))))
		b.l.send(frame("pong", make([]byte, 8)))
	}
	stopped := make(chan error, 2)
	go func() { stopped <- e.n.Stop() }()
	if busy == 0 {
		go func() { stopped <- e.n.Stop() }()
		settle()
		rt.Assert(len(stopped) == 2, "Stop does not return")
		rt.Assert(<-stopped == nil, "Stop fails")
	}
	settle()
	rt.StopExplore()
	rt.Assert(len(stopped) == 1, "Stop does not return")
	rt.Assert(<-stopped == nil, "Stop fails")
	t := tipOf(e)
	top := map[int]int{1: 2, 3: 4, 5: 2}[busy]
	rt.Assert(t == 1 || t <= top, "the stored chain is wrong")
	rt.Assert(e.isStarted(), "Start does not return although the node is stopped")
	rt.Assert(e.serr == nil || when < 3, "Start fails although the node was synced")
	pings := len(of(b.l.sent(), "ping")) + len(of(e.l.sent(), "ping"))
	for _, l := range []*link{e.l, b.l, x.l} {
		rt.Assert(l.isClosed() || when < 2 && l != e.l, "a stopped node leaves a connection open")
	}
	close(e.l.in) // ends the bridge of a native run
	time.Sleep(250 * time.Second)
	settle()
	rt.Assert(rt.Ended(before), "a stopped node leaves goroutines")
	rt.Assert(tipOf(e) == t, "a header is stored after Stop")
	rt.Assert(len(of(b.l.sent(), "ping"))+len(of(e.l.sent(), "ping")) == pings, "a peer is pinged after Stop")
	rt.Assert(e.n.Stop() == nil, "Stop fails")
}

// The node's mempool takes in what peers send, and a block that extends the chain confirms exactly its transactions.
//
//verif:harness prop=M01
func NodeMempool() {
	e := silent()
	var pool *node.MemPool
	if !rt.Dig(e.n, &pool) {
		rt.Unsupported("the node has no mempool of its own")
	}
	a, b := newPeer("10.0.0.1:1"), newPeer("10.0.0.2:1")
	e.join(a, 9)
	e.join(b, uint32(9*rt.Choose("tip known", 2)))
	k := rt.Choose("stored", 2)
	c := newChain(k+1, 7)
	e.store(c, k)
	id := func(lock uint32) string {
		t, err := transaction.NewTxFromHex(hex.EncodeToString(txBytes(lock)))
		if err != nil {
			panic(err)
		}
		return t.TxHash().String()
	}
	sent := map[uint32]bool{}
	for lock := uint32(1); lock <= 3; lock++ {
		switch rt.Choose("sender", 4) {
		case 1:
			a.l.send(frame("tx", txBytes(lock)))
			sent[lock] = true
		case 2:
			b.l.send(frame("tx", txBytes(lock)))
			sent[lock] = true
		case 3:
			a.l.send(frame("tx", txBytes(lock)))
			b.l.send(frame("tx", txBytes(lock)))
			sent[lock] = true
		}
		settle()
	}
	check := func() {
		got := pool.GetMemPool()
		n := 0
		for lock := uint32(1); lock <= 3; lock++ {
			_, found := got[id(lock)]
			rt.Assert(found == sent[lock], "the node's mempool does not hold exactly the unconfirmed transactions")
			if found {
				n++
			}
		}
		rt.Assert(len(got) == n, "the node's mempool holds something else")
	}
	check()
	txs := [][]byte{}
	in := map[uint32]bool{}
	for lock := uint32(1); lock <= 2; lock++ {
		if rt.Choose("in block", 2) == 1 {
			txs = append(txs, txBytes(lock))
			in[lock] = true
		}
	}
	raw := c.raw[k]
	extends := true
	if rt.Choose("another block", 3) == 0 { // neither the tip nor its child
		raw, extends = headerBytes([32]byte{0xee}, uint32(k), 1000), false
	}
	b.l.send(frame("block", blockBytes(raw, txs...)))
	settle()
	if extends {
		for lock := range in {
			delete(sent, lock)
		}
	}
	check()
}

// An unconfirmed transaction received from a peer does not stop the node from serving its peers, whatever else arrives.
//
//verif:harness prop=C10
func ReceiveTransaction() {
	e := silent()
	a, b := newPeer("10.0.0.1:1"), newPeer("10.0.0.2:1")
	e.join(a, 9)
	e.join(b, 9)
	rt.Explore(rt.Param("delays", 1, 2))
	a.l.send(frame("tx", txBytes(uint32(rt.U8("lock")))))
	a.l.send(frame("ping", make([]byte, 8)))
	b.l.send(frame("tx", txBytes(uint32(rt.U8("lock")))))
	b.l.send(frame("ping", make([]byte, 8)))
	settle()
	rt.StopExplore()
	rt.Assert(len(of(a.l.sent(), "pong")) == 1 && len(of(b.l.sent(), "pong")) == 1, "a peer is not served after it sent a transaction")
	n := len(a.l.sent())
	rt.Assert(e.n.SendTransaction(hex.EncodeToString(txBytes(9))) == nil, "a transaction cannot be sent")
	settle()
	rt.Assert(cmds(a.l.sent()[n:]) == "tx ", "a transaction is not sent")
}
