package main

import (
	"encoding/binary"

	"github.com/vulpemventures/neutrino-elements/pkg/protocol"

	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
)

// The initial handshake: version is answered by verack and sendheaders, then headers are requested from the stored tip on.
//
//verif:harness prop=C07
func Handshake() {
	e := newEnv()
	k := rt.Choose("stored", 3)
	c := newChain(k, 7)
	e.store(c, k)
	e.start()
	if ms := e.l.sent(); rt.Choose("greeting", 2) == 1 {
		rt.Assert(cmds(ms) == "version ", "a new peer is not greeted by a version message")
		checkGreeting(ms[0].payload, [4]byte{127, 0, 0, 1})
		b := &elsewhere{newPeer("10.0.0.7:1")}
		rt.Assert(e.n.AddOutboundPeer(b) == nil, "a new peer is refused")
		settle()
		ms = b.l.sent()
		rt.Assert(cmds(ms) == "version ", "a new peer is not greeted by a version message")
		checkGreeting(ms[0].payload, [4]byte{10, 20, 30, 40})
		rt.Assert(rt.BytesEq(ms[0].payload[44:46], u16be(5060)), "the greeting names another port of the peer")
		rt.Done()
	}
	svc := rt.U64("services")
	height := rt.U32("height")
	v := versionPayload(svc, height)
	if rt.Choose("addresses", 2) == 1 { // whatever the peer says about addresses
		copy(v[20:46], rt.Bytes("to", 26))
		copy(v[46:72], rt.Bytes("from", 26))
	}
	e.l.send(frame("version", v))
	settle()
	ms := e.l.sent()
	if svc&cfService == 0 {
		rt.Cover("no filters")
		rt.Assert(cmds(ms) == "version ", "a peer that does not serve compact filters is accepted")
		rt.Done()
	}
	rt.Assert(cmds(ms) == "version verack sendheaders getheaders ", "wrong answer to a version message")
	p := ms[3].payload
	rt.Assert(len(p) >= 5+32, "getheaders is too short")
	n := int(p[4])
	rt.Assert(len(p) == 5+32*n+32 && n >= 1, "getheaders has a wrong length")
	if k > 0 {
		tip := c.at(k)
		rt.Assert(rt.BytesEq(p[5:37], tip[:]), "the block locator does not start at the stored tip")
	}
	rt.Assert(rt.BytesEq(p[len(p)-32:], make([]byte, 32)), "getheaders has a stop hash")
}

// elsewhere is a peer at another address.
type elsewhere struct{ *fpeer }

func (p *elsewhere) Addr() *protocol.Addr {
	a, _ := protocol.ParseNodeAddr("10.20.30.40:5060")
	return a
}

// checkGreeting checks the node's own version message for a peer at an address.
func checkGreeting(v []byte, ip [4]byte) {
	rt.Assert(len(v) == 80+1+5+4+1, "the greeting has a wrong length")
	rt.Assert(v[4]&cfService != 0, "the greeting does not announce compact filters")
	rt.Assert(rt.BytesEq(v[20+8+12:20+8+16], ip[:]), "the greeting names another address of the peer")
	rt.Assert(string(v[80:86]) == "\x05verif", "the greeting has another user agent")
}

// A batch of headers with arbitrary heights and ancestors is stored only as far as it extends the stored chain, and entirely if it does.
//
//verif:harness prop=S01
func HeaderBatch() {
	e := newEnv()
	k := rt.Choose("stored", rt.Param("stored", 3, 4))
	c := newChain(k, 7)
	e.store(c, k)
	e.start()
	e.handshake(rt.U32("peer tip"))
	n := 1 + rt.Choose("batch", rt.Param("batch", 4, 5))
	// heights: consecutive from an arbitrary one, except where they jump
	near := func(h uint32) uint32 {
		if h <= uint32(k+n+1) {
			return uint32(rt.Conc(int(h)))
		}
		return h
	}
	first := near(rt.U32("first"))
	raws := make([][]byte, n)
	heights := make([]uint32, n)
	prevs := make([][32]byte, n)
	hashes := make([][32]byte, n)
	for i := 0; i < n; i++ {
		heights[i] = first + uint32(i)
		few := n > rt.Param("full", 2, 3) // longer batches: fewer kinds of defects
		if i > 0 && !few && rt.Choose("jump", 2) == 1 {
			heights[i] = near(rt.U32("height"))
		}
		kind := 0
		if few {
			kind = 2 * rt.Choose("link", 2)
		} else {
			kind = rt.Choose("link", 4)
		}
		switch kind {
		case 0: // the previous header of the batch
			if i > 0 {
				prevs[i] = hashes[i-1]
			}
		case 1:
			prevs[i] = c.at(k)
		case 2:
			prevs[i] = [32]byte{0xaa, byte(i)}
		case 3: // a header of the stored chain
			if k == 0 {
				rt.Assume(false)
			}
			j := rt.Choose("known", k)
			prevs[i] = c.at(j)
			if rt.Choose("same", 2) == 0 {
				raws[i], hashes[i] = c.raw[j], c.hashes[j]
				heights[i] = uint32(j + 1)
				continue
			}
		}
		raws[i] = headerBytes(prevs[i], heights[i], uint32(100+i))
		_, h := parseHeader(raws[i])
		hashes[i] = h
	}
	e.l.send(frame("headers", headersPayload(raws)))
	settle()
	t := tipOf(e)

	// how far the batch extends the stored chain
	max, tip := uint64(k), c.at(k)
	var added [][32]byte
	ordered := uint64(heights[0]) <= uint64(k)+1
	linked := true
	for i := 0; i < n; i++ {
		ordered = ordered && uint64(heights[i]) == uint64(heights[0])+uint64(i)
		if uint64(heights[i]) <= uint64(k) {
			continue
		}
		if uint64(heights[i]) == max+1 && (max == 0 || prevs[i] == tip) {
			max++
			tip = hashes[i]
			added = append(added, tip)
		} else {
			linked = false
		}
	}
	rt.Assert(uint64(t) <= max, "headers that do not extend the stored chain are stored")
	if ordered && linked {
		rt.Cover("extended")
		rt.Assert(uint64(t) == max, "a batch that extends the stored chain is not stored")
	}
	for i := 1; i <= t; i++ {
		var want [32]byte
		if i <= k {
			want = c.at(i)
		} else {
			want = added[i-k-1]
		}
		h, err := e.headers.GetBlockHashByHeight(bg, uint32(i))
		rt.Assert(err == nil, "a height up to the tip has no header")
		rt.Assert(rt.BytesEq(h[:], want[:]), "another header is stored at a height")
	}
	rt.Assert(count(e, hashes, t) == t, "more headers are stored than heights")

	// each new header is followed by the request of its filter
	reqs := of(e.l.sent(), "getcfilters")
	for i := k + 1; i <= t; i++ {
		found := false
		for _, r := range reqs {
			rt.Assert(len(r) == 37, "wrong filter request")
			if r[0] == 0 && binary.LittleEndian.Uint32(r[1:5]) == uint32(i) && rt.BytesEq(r[5:], added[i-k-1][:]) {
				found = true
			}
		}
		rt.Assert(found, "the filter of a stored header is not requested")
	}
	rt.Observe("tip", t)
	rt.Observe("cmds", cmds(e.l.sent()))
}

// Batches of every length are stored completely.
//
//verif:harness prop=S01
func LongBatch() {
	e := newEnv()
	k := rt.Choose("stored", 2)
	lens := []int{5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 64, 100, 252, 253, 300}
	n := lens[rt.Choose("batch", len(lens))]
	c := newChain(k+n, 7)
	e.store(c, k)
	e.start()
	e.handshake(uint32(k + n))
	e.l.send(frame("headers", headersPayload(c.raw[rt.Choose("from", k+1):])))
	settle()
	rt.Assert(tipOf(e) == k+n, "a batch that extends the stored chain is not stored")
	reqs := of(e.l.sent(), "getcfilters")
	rt.Assert(len(reqs) == n, "the filter of a stored header is not requested")
	for i := 1; i <= k+n; i++ {
		h, err := e.headers.GetBlockHashByHeight(bg, uint32(i))
		want := c.at(i)
		rt.Assert(err == nil && [32]byte(*h) == want, "another header is stored at a height")
		if i > k {
			rt.Assert(rt.BytesEq(reqs[i-k-1], cat([]byte{0}, u32le(uint32(i)), want[:])), "the filter of another block is requested")
		}
	}
}

// count counts the chain below t and the stored ones among hashes beyond it.
func count(e *env, hashes [][32]byte, t int) int {
	seen := map[int]bool{}
	n := t
	for i := range hashes {
		h, err := e.headers.GetBlockHeader(bg, hashes[i])
		if err != nil {
			continue
		}
		if int(h.Height) > t || seen[int(h.Height)] {
			n++
			continue
		}
		at, err := e.headers.GetBlockHashByHeight(bg, h.Height)
		if err != nil || [32]byte(*at) != hashes[i] {
			n++
		}
	}
	return n
}
