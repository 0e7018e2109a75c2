package main

import (
	"encoding/binary"

	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

// honest plays a peer that follows the protocol: it answers what the node asks for from its chain.
type honest struct {
	l      *link
	c      *chain
	limit  int // headers per message
	done   int // messages of the node looked at
	asked  int // getheaders
	silent bool
}

func filterOf(height int) []byte { return []byte{1, byte(height), 0x20, 0x30} }

// turn answers everything the node has sent since the last turn and tells whether there was anything.
func (p *honest) turn() bool {
	ms := p.l.sent()
	news := ms[p.done:]
	p.done = len(ms)
	for _, m := range news {
		p.answer(m)
	}
	return len(news) > 0
}

func (p *honest) heightOf(h []byte) int {
	for i := 1; i <= len(p.c.raw); i++ {
		x := p.c.at(i)
		if string(x[:]) == string(h) {
			return i
		}
	}
	return -1
}

func (p *honest) answer(m msg) {
	if p.silent {
		return
	}
	switch m.cmd {
	case "getheaders":
		p.asked++
		n := int(m.payload[4])
		rt.Assert(len(m.payload) == 5+32*n+32, "getheaders has a wrong length")
		rt.Assert(n >= 1, "headers are asked for without a locator")
		from := 0
		for i := 0; i < n; i++ {
			if h := p.heightOf(m.payload[5+32*i : 37+32*i]); h >= 0 {
				from = h
				break
			}
		}
		to := from + p.limit
		if to > len(p.c.raw) {
			to = len(p.c.raw)
		}
		p.l.send(frame("headers", headersPayload(p.c.raw[from:to])))
	case "getcfilters":
		stop := p.heightOf(m.payload[5:])
		start := int(binary.LittleEndian.Uint32(m.payload[1:5]))
		rt.Assert(stop >= start && start >= 1, "the filters of no block are asked for")
		for i := start; i <= stop; i++ {
			p.l.send(frame("cfilter", cfilterPayload(p.c.at(i), filterOf(i))))
		}
	case "getdata":
		n := int(m.payload[0])
		for i := 0; i < n; i++ {
			if h := p.heightOf(m.payload[5+36*i : 37+36*i]); h > 0 {
				p.l.send(frame("block", blockBytes(p.c.raw[h-1], txBytes(uint32(h)))))
			}
		}
	case "ping":
		p.l.send(frame("pong", m.payload))
	}
}

// talk lets the peers answer until the node asks for nothing any more.
func talk(ps ...*honest) {
	for i := 0; i < 30; i++ {
		settle()
		any := false
		for _, p := range ps {
			any = p.turn() || any
		}
		if !any {
			return
		}
	}
	rt.Assert(false, "the node never stops asking")
}

func (p *honest) extend(n int) {
	for i := 0; i < n; i++ {
		h := len(p.c.raw)
		p.c.add(headerBytes(p.c.at(h), uint32(h+1), 7))
	}
}

// announce tells the node about the newest blocks in one of the ways of the protocol.
func (p *honest) announce(how, n int) {
	l := len(p.c.raw)
	switch how {
	case 0: // the block itself
		p.l.send(frame("block", blockBytes(p.c.raw[l-1], txBytes(uint32(l)))))
	case 1: // an inventory
		h := p.c.at(l)
		p.l.send(frame("inv", cat([]byte{1}, u32le(2), h[:])))
	case 2: // the new headers
		p.l.send(frame("headers", headersPayload(p.c.raw[l-n:])))
	case 3: // the newest header
		p.l.send(frame("headers", headersPayload(p.c.raw[l-1:])))
	}
}

// complete checks that the node holds the whole chain and the filters above k.
func complete(e *env, c *chain, k int) {
	l := len(c.raw)
	rt.Assert(tipOf(e) == l, "the node does not reach the tip of its peer")
	for i := 1; i <= l; i++ {
		g, err := e.headers.GetBlockHashByHeight(bg, uint32(i))
		rt.Assert(err == nil && [32]byte(*g) == c.at(i), "a header of the peer's chain is missing")
		if i > k {
			h := c.at(i)
			f, err := e.filters.GetFilter(bg, repository.FilterKey{BlockHash: h[:], FilterType: repository.RegularFilter})
			rt.Assert(err == nil, "the filter of a synchronised block is missing")
			rt.Assert(rt.BytesEq(f.NBytes, filterOf(i)), "another filter is stored for a block")
		}
	}
}
