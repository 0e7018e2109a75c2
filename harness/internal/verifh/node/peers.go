package main

import (
	"encoding/hex"
	"time"

	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"

	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
)

// join adds a peer through the node's API and completes its handshake.
func (e *env) join(p *fpeer, height uint32) {
	rt.Assert(e.n.AddOutboundPeer(p) == nil, "a new peer is refused")
	settle()
	p.l.send(frame("version", versionPayload(cfService|1, height)))
	settle()
}

// silent starts the node with an initial peer that never answers.
func silent() *env {
	e := newEnv()
	e.start()
	return e
}

func wellFormed(cmd string) []byte {
	switch cmd {
	case "version":
		return versionPayload(cfService, 3)
	case "ping", "pong":
		return rt.Bytes("nonce", 8)
	case "inv", "getdata":
		return cat([]byte{1}, u32le(rt.U32("kind")), rt.Bytes("hash", 2), make([]byte, 30))
	case "getcfilters":
		return cat([]byte{0}, u32le(1), make([]byte, 32))
	case "headers":
		return headersPayload([][]byte{headerBytes([32]byte{9}, 77, 1)})
	case "cfilter":
		return cat([]byte{0}, make([]byte, 32), []byte{3, 1, 0x20, 0x30})
	case "sendcmpct":
		return cat([]byte{1}, u64le(1))
	case "getheaders":
		return cat(u32le(70016), []byte{1}, make([]byte, 64))
	case "tx":
		return txBytes(5)
	}
	return nil
}

var peerCommands = []string{"version", "verack", "ping", "pong", "inv", "tx", "block", "sendcmpct", "getheaders", "headers", "cfilter", "getcfilters",
	"sendheaders", "addr", "getdata", "feefilter", "mempool", "nosuchcmd"}

// A ping is answered with exactly one pong of the same nonce, whatever message (complete, malformed, oversized or unknown) came before it and however the stream is split.
//
//verif:harness prop=C06
func PingAfterAnything() {
	e := silent()
	p := newPeer("10.0.0.1:1")
	e.join(p, 5)
	before := len(p.l.sent())
	cmd := peerCommands[rt.Choose("cmd", len(peerCommands))]
	var payload []byte
	switch rt.Choose("shape", 2) {
	case 0:
		n := rt.Choose("len", rt.Param("garbage", 4, 7))
		payload = rt.Bytes("garbage", n)
	case 1:
		payload = cat(wellFormed(cmd), rt.Bytes("extra", rt.Choose("extra", 3)))
	}
	nonce := []byte{1, 2, 3, 4, 5, 6, 7, 0xfe}
	stream := cat(frame(cmd, payload), frame("ping", nonce))
	last := len(stream) - 32 // the header of the second message
	cuts := []int{0, 1, 13, 20, 23, 24, 25, last - 8, last, last + 1, last + 19, last + 20, last + 22, last + 23, last + 24, len(stream) - 1}
	cut := cuts[rt.Choose("cut", len(cuts))]
	if cut > 0 && cut < len(stream) {
		p.l.send(stream[:cut])
		if rt.Choose("pause", 2) == 1 {
			settle()
		}
	} else {
		cut = 0
	}
	p.l.send(stream[cut:])
	settle()
	ms := p.l.sent()[before:]
	pongs := of(ms, "pong")
	want := 1
	if cmd == "ping" && len(payload) >= 8 {
		want = 2
		rt.Assert(len(pongs) > 0 && rt.BytesEq(pongs[0], payload[:8]), "a ping is answered with another nonce")
	}
	rt.Assert(len(pongs) == want, "a ping is not answered by exactly one pong")
	rt.Assert(rt.BytesEq(pongs[want-1], nonce), "a ping is answered with another nonce")
	rt.Assert(!p.l.isClosed(), "the peer is disconnected")
}

// A message of another network is not acted on, nor is anything after it.
//
//verif:harness prop=C06
func ForeignNetwork() {
	e := silent()
	p := newPeer("10.0.0.1:1")
	e.join(p, 5)
	before := len(p.l.sent())
	f := frame("ping", rt.Bytes("nonce", 8))
	if rt.Choose("headers", 2) == 1 {
		f = frame("headers", headersPayload([][]byte{headerBytes([32]byte{}, 1, 3)}))
	}
	m := rt.Bytes("magic", 4)
	rt.Assume(!rt.BytesEq(m, regtestMagic[:]))
	copy(f, m)
	p.l.send(f)
	settle()
	rt.Assert(len(p.l.sent()) == before, "a message of another network is answered")
	rt.Assert(tipOf(e) == 0, "a header of another network is stored")
}

// An announced inventory is requested unchanged.
//
//verif:harness prop=C08
func InvGetData() {
	e := silent()
	p := newPeer("10.0.0.1:1")
	e.join(p, 5)
	before := len(p.l.sent())
	n := rt.Choose("count", rt.Param("count", 4, 6))
	payload := []byte{byte(n)}
	for i := 0; i < n; i++ {
		payload = cat(payload, rt.Bytes("kind", 4), rt.Bytes("hash", 32))
	}
	p.l.send(frame("inv", payload))
	settle()
	ms := p.l.sent()[before:]
	rt.Assert(cmds(ms) == "getdata " || n == 0 && len(ms) == 0, "an inventory is not answered by one getdata")
	if len(ms) == 1 {
		rt.Assert(rt.BytesEq(ms[0].payload, payload), "another inventory is requested")
		rt.Assert(rt.BytesEq(ms[0].raw, frame("getdata", payload)), "the request is not a well-formed message")
	}
}

// A second version message does not register the peer twice, a known peer cannot be added again.
//
//verif:harness prop=C07 faketime
func Duplicates() {
	e := silent()
	c := clock{time.Now()}
	p := newPeer("10.0.0.1:1")
	tip := rt.U32("tip")
	e.join(p, tip)
	rt.Assert(p.PeersTip() == tip, "the tip announced by the peer is not recorded")
	if rt.Choose("second peer", 2) == 1 {
		q := newPeer("10.0.0.2:1")
		e.join(q, 3)
		rt.Assert(q.PeersTip() == 3 && p.PeersTip() == tip, "the tip announced by a peer is not its own")
		got := cmds(q.l.sent())
		rt.Assert(got == "version verack sendheaders " || got == "version verack sendheaders getheaders ", "wrong answer to the version of a second peer")
	}
	if how := rt.Choose("how", 3); how < 2 {
		again := p
		if how == 1 { // another connection to the same peer
			again = newPeer("10.0.0.1:1")
		}
		rt.Assert(e.n.AddOutboundPeer(again) != nil, "a connected peer is added twice")
		settle()
		rt.Assert(again == p || len(again.l.sent()) == 0, "a connected peer is contacted again")
		rt.Assert(!p.l.isClosed(), "a connected peer is disconnected")
		return
	}
	p.l.send(frame("version", versionPayload(cfService, 6)))
	settle()
	c.until(121 * time.Second)
	rt.Assert(len(of(p.l.sent(), "ping")) == 1, "a peer that repeats its version is not pinged once")
	before := len(p.l.sent())
	rt.Assert(e.n.SendTransaction(hex.EncodeToString(txBytes(5))) == nil, "a transaction cannot be sent")
	settle()
	rt.Assert(cmds(p.l.sent()[before:]) == "tx ", "a transaction is not sent exactly once")
}

// A submitted transaction reaches every connected peer exactly once and unchanged, even if writing to some peer fails.
//
//verif:harness prop=C10
func SendTransaction() {
	e := silent()
	n := rt.Choose("peers", rt.Param("peers", 4, 5))
	names := []string{"10.0.0.1:1", "10.0.0.2:1", "10.0.0.3:1", "10.0.0.4:1"}
	var ps []*fpeer
	var before []int
	fails := false
	rt.MapOrder(true)
	for i := 0; i < n; i++ {
		p := newPeer(names[i])
		e.join(p, 5)
		ps = append(ps, p)
		before = append(before, len(p.l.sent()))
		if rt.Choose("broken", 2) == 1 {
			p.l.failWrite = true
			fails = true
		}
	}
	tx := txBytes(uint32(rt.U8("lock")))
	err := e.n.SendTransaction(hex.EncodeToString(tx))
	settle()
	if !fails {
		rt.Assert(err == nil, "sending a transaction fails")
	}
	for i, p := range ps {
		if p.l.failWrite {
			continue
		}
		ms := p.l.sent()[before[i]:]
		rt.Assert(cmds(ms) == "tx ", "a transaction is not sent exactly once to a connected peer")
		rt.Assert(rt.BytesEq(ms[0].payload, tx), "another transaction is sent")
	}
}

// A text that is not a transaction is refused and nothing is sent.
//
//verif:harness prop=C10
func BadTransaction() {
	e := silent()
	p := newPeer("10.0.0.1:1")
	e.join(p, 5)
	before := len(p.l.sent())
	tx := txBytes(5)
	var s string
	switch rt.Choose("how", 3) {
	case 0:
		s = hex.EncodeToString(tx[:rt.Choose("cut", len(tx))])
	case 1:
		s = "xyz"
	case 2:
		b := rt.Bytes("text", 3)
		for _, c := range b {
			rt.Assume(rt.And(c >= 'g', c <= 'z'))
		}
		s = string(b)
	}
	rt.Assert(e.n.SendTransaction(s) != nil, "an invalid transaction is accepted")
	settle()
	rt.Assert(len(p.l.sent()) == before, "an invalid transaction is sent")
}

// A filter request is answered with the stored filters of the requested blocks, in block order.
//
//verif:harness prop=C09
func ServeFilters() {
	e := silent()
	p := newPeer("10.0.0.1:1")
	e.join(p, 5)
	k := rt.Param("chain", 4, 5)
	c := newChain(k, 7)
	e.store(c, k)
	stored := make([][]byte, k)
	for i := 0; i < k; i++ {
		has := 2
		if i == 1 || i == 2 {
			has = 3
		}
		switch rt.Choose("has filter", has) {
		case 0:
			continue
		case 2:
			if i == 2 { // a filter without elements
				stored[i] = []byte{0}
				break
			}
			// it cannot be read: the filters of the other blocks are served
			bad := &repository.FilterEntry{Key: repository.FilterKey{BlockHash: c.hashes[i].CloneBytes(), FilterType: repository.RegularFilter}, NBytes: []byte{0xfd}}
			rt.Assert(e.filters.PutFilter(bg, bad) == nil, "a filter cannot be stored")
			continue
		}
		if stored[i] == nil {
			stored[i] = cat([]byte{1}, rt.Bytes("filter", 1+i))
		}
		f, err := gcs.FromNBytes(19, 784931, stored[i])
		if err != nil {
			panic(err)
		}
		entry, err := repository.NewFilterEntry(repository.FilterKey{BlockHash: c.hashes[i].CloneBytes(), FilterType: repository.RegularFilter}, f)
		if err != nil {
			panic(err)
		}
		rt.Assert(e.filters.PutFilter(bg, entry) == nil, "a filter cannot be stored")
	}
	before := len(p.l.sent())
	ft := rt.U8("type")
	start := rt.U32("start")
	stop := rt.Choose("stop", k+1)
	var sh [32]byte
	if stop == 0 {
		sh = [32]byte{0xcc}
	} else {
		sh = c.at(stop)
	}
	p.l.send(frame("getcfilters", cat([]byte{ft}, u32le(start), sh[:])))
	settle()
	ms := p.l.sent()[before:]
	i := 0
	if ft == 0 && stop > 0 && start <= uint32(stop) {
		for h := rt.Conc(int(start)); h <= stop; h++ {
			if h == 0 || stored[h-1] == nil {
				continue
			}
			rt.Assert(i < len(ms), "a requested filter is not sent")
			hash := c.at(h)
			want := cat([]byte{0}, hash[:], []byte{byte(len(stored[h-1]))}, stored[h-1])
			rt.Assert(ms[i].cmd == "cfilter" && rt.BytesEq(ms[i].payload, want), "a wrong filter is sent")
			i++
		}
	}
	rt.Assert(i == len(ms), "a filter that was not requested is sent")
}

// Requests over more than 1000 blocks are refused, 1000 blocks are served.
//
//verif:harness prop=C09
func ServeLimit() {
	e := silent()
	p := newPeer("10.0.0.1:1")
	e.join(p, 5)
	const stop = 2000
	c := &chain{}
	c.add(headerBytes([32]byte{1}, stop, 9))
	e.store(c, 1)
	f, _ := gcs.FromNBytes(19, 784931, []byte{1, 2, 3})
	entry, _ := repository.NewFilterEntry(repository.FilterKey{BlockHash: c.hashes[0].CloneBytes()}, f)
	e.filters.PutFilter(bg, entry)
	before := len(p.l.sent())
	start := rt.Choose("start", 4) + 999
	p.l.send(frame("getcfilters", cat([]byte{0}, u32le(uint32(start)), c.hashes[0][:])))
	settle()
	n := len(p.l.sent()) - before
	if stop-start >= 1000 {
		rt.Assert(n == 0, "a request over too many blocks is served")
	} else {
		rt.Assert(n == 1, "a request within the limit is not served")
	}
}

// A received filter is stored for exactly the block it names, and served from then on.
//
//verif:harness prop=S05
func StoreFilter() {
	e := silent()
	p := newPeer("10.0.0.1:1")
	e.join(p, 5)
	c := newChain(3, 7)
	e.store(c, 3)
	i := 1 + rt.Choose("block", 3)
	h := c.at(i)
	n := rt.Choose("len", rt.Param("len", 6, 10))
	nb := cat([]byte{byte(rt.Choose("n", 4))}, rt.Bytes("filter", n)) // a block may have no elements
	if n == 2 {
		burst(e, p, c, nb)
		rt.Done()
	}
	p.l.send(frame("cfilter", cat([]byte{0}, h[:], []byte{byte(len(nb))}, nb)))
	settle()
	for j := 1; j <= 3; j++ {
		k := c.at(j)
		f, err := e.filters.GetFilter(bg, repository.FilterKey{BlockHash: k[:], FilterType: repository.RegularFilter})
		if j != i {
			rt.Assert(err == repository.ErrFilterNotFound, "a filter is stored for another block")
			continue
		}
		rt.Assert(err == nil, "a received filter is not stored")
		rt.Assert(rt.BytesEq(f.NBytes, nb), "another filter is stored")
	}
}

// burst delivers the filters of several blocks at once.
func burst(e *env, p *fpeer, c *chain, nb []byte) {
	rt.Explore(1)
	for j := 1; j <= 3; j++ {
		p.l.send(frame("cfilter", cfilterPayload(c.at(j), cat([]byte{byte(j)}, nb[1:]))))
	}
	settle()
	rt.StopExplore()
	for j := 1; j <= 3; j++ {
		k := c.at(j)
		f, err := e.filters.GetFilter(bg, repository.FilterKey{BlockHash: k[:], FilterType: repository.RegularFilter})
		rt.Assert(err == nil, "a received filter is not stored")
		rt.Assert(rt.BytesEq(f.NBytes, cat([]byte{byte(j)}, nb[1:])), "another filter is stored")
	}
}

// clock lets time pass up to given moments.
type clock struct{ t0 time.Time }

func (c clock) until(d time.Duration) {
	if r := d - time.Since(c.t0); r > 0 {
		time.Sleep(r)
	}
	settle()
}

// A peer that answers its pings stays connected, one that does not (or cannot be written to) is disconnected, and the others are not affected.
//
//verif:harness prop=P01 faketime
func Liveness() {
	e := silent()
	c := clock{time.Now()}
	a, b := newPeer("10.0.0.1:1"), newPeer("10.0.0.2:2")
	e.join(a, 5)
	e.join(b, 5)
	pings := func(p *fpeer) [][]byte { return of(p.l.sent(), "ping") }
	rt.Assert(len(pings(a))+len(pings(b)) == 0, "a peer is pinged at once")
	alive := true
	explored := rt.Choose("explored round", 3)
	rt.FixedRandoms(explored > 0) // all nonces without, some with all schedules
	for round := 1; round <= 2; round++ {
		act := 0
		if alive {
			act = rt.Choose("action", 8)
			if act == 6 {
				a.l.failWrite = true
			}
			if act == 7 {
				a.l.stall()
			}
		}
		if round == explored {
			rt.Explore(rt.Param("delays", 1, 2))
		}
		at := time.Duration(round)*120*time.Second + 500*time.Millisecond
		seenA := len(pings(a))
		c.until(at)
		rt.Assert(len(pings(b)) == round, "a connected peer is not pinged")
		nb := pings(b)[round-1]
		var na []byte
		if alive && act < 6 {
			rt.Assert(len(pings(a)) == seenA+1, "a connected peer is not pinged")
			na = pings(a)[seenA]
			rt.Assume(!rt.BytesEq(na, nb)) // 64 random bits
		} else {
			rt.Assert(len(pings(a)) == seenA, "a disconnected peer is pinged")
		}
		other := func(i int) []byte {
			w := append([]byte(nil), na...)
			w[i] ^= 0x41
			rt.Assume(!rt.BytesEq(w, nb))
			return frame("pong", w)
		}
		answered := false
		if alive {
			switch act {
			case 0:
				a.l.send(frame("pong", na))
				answered = true
			case 1: // nothing
			case 2: // another nonce
				a.l.send(other(0))
			case 3: // twice
				a.l.send(frame("pong", na))
				a.l.send(frame("pong", na))
				answered = true
			case 4: // wrong then right
				a.l.send(other(3))
				a.l.send(frame("pong", na))
				answered = true
			}
		}
		b.l.send(frame("pong", nb))
		c.until(at + 58*time.Second)
		if act == 5 { // just before time runs out
			a.l.send(frame("pong", na))
			answered = true
		}
		c.until(at + 61*time.Second)
		rt.StopExplore()
		if alive {
			rt.Assert(a.l.isClosed() == !answered, "a peer is not disconnected exactly when it leaves a ping unanswered")
			alive = answered
		}
		rt.Assert(!b.l.isClosed(), "a peer that answers its pings is disconnected")
		// the node still works
		n, m := len(b.l.sent()), len(a.l.sent())
		rt.Assert(e.n.SendTransaction(hex.EncodeToString(txBytes(5))) == nil, "sending fails after a peer was disconnected")
		settle()
		rt.Assert(cmds(b.l.sent()[n:]) == "tx ", "a connected peer is not served any more")
		rt.Assert((len(a.l.sent()) > m) == alive, "only connected peers are served")
	}
}

// A peer lost while others have a ping to answer takes nothing of theirs with it and leaves nothing running.
//
//verif:harness prop=P01 faketime
func LostInBetween() {
	e := silent()
	clk := clock{time.Now()}
	var others []*fpeer
	a := newPeer("10.0.0.1:1")
	n := 1 + rt.Choose("others", 2)
	first := rt.Choose("joins", n+1)
	running := 0
	join := func() {
		before := rt.Goroutines()
		e.join(a, 5)
		running = rt.Goroutines() - before
	}
	for i := 0; i < n; i++ {
		if i == first {
			join()
		}
		p := newPeer("10.0.1." + string(rune('1'+i)) + ":1")
		e.join(p, 5)
		others = append(others, p)
	}
	if first == n {
		join()
	}
	rt.Assert(running > 0, "nothing serves a connected peer")
	all := rt.Goroutines()
	at := 120*time.Second + 500*time.Millisecond
	clk.until(at)
	answer := func(round int) {
		for _, p := range others {
			pings := of(p.l.sent(), "ping")
			rt.Assert(len(pings) == round, "a connected peer is not pinged")
			p.l.send(frame("pong", pings[round-1]))
		}
	}
	how := rt.Choose("how", 3)
	if how == 0 {
		close(a.l.in)
	} else if how == 1 {
		foreign := frame("ping", make([]byte, 8))
		foreign[0]++
		a.l.send(foreign)
	}
	clk.until(at + 30*time.Second)
	rt.Assert(a.l.isClosed() || how == 2, "the connection of a lost peer is not closed")
	answer(1)
	clk.until(at + 61*time.Second)
	rt.Assert(a.l.isClosed(), "the connection of a lost peer is not closed")
	clk.until(at + 120*time.Second)
	answer(2)
	clk.until(at + 200*time.Second)
	for _, p := range others {
		rt.Assert(!p.l.isClosed(), "a peer that answers its pings is disconnected")
	}
	rt.Assert(rt.Goroutines() == all-running, "a lost peer leaves something running")
}

// A peer whose connection ends is forgotten, the others are not affected.
//
//verif:harness prop=P01
func Disconnect() {
	e := silent()
	a, b := newPeer("10.0.0.1:1"), newPeer("10.0.0.2:2")
	e.join(a, 5)
	e.join(b, 5)
	rt.Explore(rt.Param("delays", 2, 3))
	close(a.l.in)
	b.l.send(frame("ping", []byte{1, 2, 3, 4, 5, 6, 7, 8}))
	settle()
	rt.StopExplore()
	rt.Assert(a.l.isClosed(), "the connection of a lost peer is not closed")
	rt.Assert(len(of(b.l.sent(), "pong")) == 1, "another peer is not served any more")
	n := len(b.l.sent())
	rt.Assert(e.n.SendTransaction(hex.EncodeToString(txBytes(5))) == nil, "a lost peer makes sending fail")
	settle()
	rt.Assert(cmds(b.l.sent()[n:]) == "tx ", "another peer is not served any more")
}

// A peer that comes back under the same address is treated as a new one.
//
//verif:harness prop=P01 faketime
func ComeBack() {
	e := silent()
	clk := clock{time.Now()}
	a := newPeer("10.0.0.1:1")
	e.join(a, 5)
	clk.until(time.Duration(1+rt.Choose("leaves after", 3)*70) * time.Second)
	outstanding := len(of(a.l.sent(), "ping")) // left unanswered
	close(a.l.in)
	settle()
	rt.Assert(a.l.isClosed(), "the connection of a lost peer is not closed")
	clk.until(time.Duration(2+rt.Choose("returns after", 4)*70) * time.Second)
	c := newPeer("10.0.0.1:1")
	rt.Explore(rt.Param("delays", 1, 2))
	e.join(c, 5)
	rt.Assert(len(of(c.l.sent(), "verack")) == 1, "a lost peer cannot come back")
	back := time.Since(clk.t0)
	for round := 1; round <= 2; round++ {
		clk.until(back + time.Duration(round)*120*time.Second + 500*time.Millisecond)
		pings := of(c.l.sent(), "ping")
		rt.Assert(len(pings) == round, "a peer that came back is not pinged every two minutes")
		rt.Assert(!c.l.isClosed(), "a peer that answers its pings is disconnected")
		c.l.send(frame("pong", pings[round-1]))
	}
	clk.until(back + 310*time.Second)
	rt.StopExplore()
	rt.Assert(!c.l.isClosed(), "a peer that answers its pings is disconnected")
	rt.Assert(len(of(a.l.sent(), "ping")) == outstanding, "a disconnected peer is pinged")
	n := len(c.l.sent())
	rt.Assert(e.n.SendTransaction(hex.EncodeToString(txBytes(5))) == nil, "a transaction cannot be sent")
	settle()
	rt.Assert(cmds(c.l.sent()[n:]) == "tx ", "a peer that came back is not served")
}
