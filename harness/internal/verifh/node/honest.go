package main

import (
	"time"

	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
)

// From an honest peer the node fetches the whole chain, portion by portion, with all filters, including blocks that appear during the sync.
//
//verif:harness prop=S10 faketime budget=120s
func FollowPeer() {
	e := newEnv()
	l := 1 + rt.Choose("length", rt.Param("length", 5, 7))
	k := rt.Choose("stored", 3)
	rt.Assume(k <= l)
	c := newChain(l, 7)
	e.store(c, k)
	e.start()
	p := &honest{l: e.l, c: c, limit: 2 + rt.Choose("limit", 2)}
	e.l.send(frame("version", versionPayload(cfService|1, uint32(l))))
	steps := rt.Choose("turns before new blocks", rt.Param("turns", 3, 5))
	for i := 0; i < steps; i++ {
		settle()
		p.turn()
	}
	more := rt.Choose("new blocks", 3)
	if more > 0 {
		p.extend(more)
		p.announce(rt.Choose("announced by", 4), more)
	}
	talk(p)
	complete(e, c, k)
	time.Sleep(2500 * time.Millisecond)
	settle()
	rt.Assert(e.isStarted() && e.serr == nil, "Start does not return although the node has the peer's chain")
	// later blocks
	p.extend(1)
	p.announce(rt.Choose("later announced by", 4), 1)
	talk(p)
	complete(e, c, k)
}

// Whatever happens at the same time, the node keeps following its peer.
//
//verif:harness prop=S10 faketime budget=120s
func FollowRace() {
	e := newEnv()
	k := rt.Choose("stored", 2)
	c := newChain(k+3, 7)
	e.store(c, k)
	e.start()
	p := &honest{l: e.l, c: c, limit: 2}
	rt.Explore(rt.Param("delays", 1, 2))
	e.l.send(frame("version", versionPayload(cfService|1, uint32(k+3))))
	settle()
	p.turn()
	p.extend(1)
	p.announce(rt.Choose("announced by", 4), 1)
	talk(p)
	rt.StopExplore()
	complete(e, c, k)
}

// When the peer it synchronises with is lost, the node goes on with another one as soon as that announces a block.
//
//verif:harness prop=S10 faketime
func ChangePeer() {
	e := newEnv()
	l := 2 + rt.Choose("length", 4)
	c := newChain(l, 7)
	e.start()
	p := &honest{l: e.l, c: c, limit: 2}
	b := newPeer("10.0.0.1:1")
	q := &honest{l: b.l, c: c, limit: 2}
	e.l.send(frame("version", versionPayload(cfService|1, uint32(l))))
	settle()
	e.join(b, uint32(l))
	steps := rt.Choose("turns before the loss", 4)
	for i := 0; i < steps; i++ {
		settle()
		p.turn()
		q.turn()
	}
	settle()
	if rt.Choose("how", 2) == 0 {
		close(e.l.in)
		p.silent = true
		settle()
	} else { // it just stops answering
		p.silent = true
		time.Sleep(125 * time.Second)
		settle()
		q.turn() // its own ping
		time.Sleep(60 * time.Second)
		settle()
	}
	k := tipOf(e) // the filters asked of the lost peer may be missing
	q.extend(1)
	q.announce(rt.Choose("announced by", 4), 1)
	talk(q)
	complete(e, c, k)
}

// The headers of the chain may be of any form, signed or of a dynamic federation.
//
//verif:harness prop=S10 faketime
func FollowForms() {
	e := newEnv()
	f, from := 1+rt.Choose("form", 6), uint32(1+rt.Choose("from", 3))
	form = func(h uint32) int {
		if h < from {
			return 0
		}
		if f == 6 {
			return int(h) % 6
		}
		return f
	}
	l := 4
	k := rt.Choose("stored", 3)
	c := newChain(l, 7)
	e.store(c, k)
	e.start()
	p := &honest{l: e.l, c: c, limit: 2}
	e.l.send(frame("version", versionPayload(cfService|1, uint32(l))))
	talk(p)
	complete(e, c, k)
	for i := 0; i < 2; i++ {
		p.extend(1)
		p.announce(rt.Choose("announced by", 4), 1)
		talk(p)
		complete(e, c, k)
	}
}

// When all peers are lost, the node goes on with the next one that connects.
//
//verif:harness prop=S10 faketime
func Reconnect() {
	e := newEnv()
	l := 2 + rt.Choose("length", 3)
	c := newChain(l, 7)
	e.start()
	p := &honest{l: e.l, c: c, limit: 2}
	e.l.send(frame("version", versionPayload(cfService|1, uint32(l))))
	steps := rt.Choose("turns before the loss", 4)
	for i := 0; i < steps; i++ {
		settle()
		p.turn()
	}
	settle()
	k := tipOf(e)
	if rt.Choose("how", 2) == 0 {
		close(e.l.in)
		p.silent = true
		settle()
	} else {
		p.silent = true
		time.Sleep(185 * time.Second)
		settle()
	}
	losses := 1 + rt.Choose("losses", 2)
	for i := 0; i < losses; i++ {
		name := []string{"10.0.0.1:1", "10.0.0.1:2"}[rt.Choose("address", 2)]
		q := &honest{l: newLink(name), c: c, limit: 2}
		b := &fpeer{l: q.l}
		if i < losses-1 { // this one is lost too
			e.join(b, uint32(l))
			q.turn()
			settle()
			k = tipOf(e)
			close(q.l.in)
			settle()
			continue
		}
		q.extend(1)
		e.join(b, uint32(l+1))
		talk(q)
		complete(e, c, k)
	}
}
