package main

import (
	"bytes"
	"encoding/binary"
	"sync"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

func u32le(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

func tx(lock uint32) *transaction.Transaction {
	asset := append([]byte{1}, make([]byte, 32)...)
	raw := cat(u32le(2), []byte{0, 1}, []byte{7}, make([]byte, 31), u32le(3), []byte{2, 0x51, 0x52}, u32le(0xfffffffe),
		[]byte{1}, asset, []byte{1, 0, 0, 0, 0, 0, 0, 3, 232}, []byte{0}, []byte{1, 0x51}, u32le(lock))
	t, err := transaction.NewTxFromBuffer(bytes.NewBuffer(raw))
	if err != nil {
		panic(err)
	}
	t.Inputs[0].Witness = [][]byte{{7}} // the witness is no part of the ID
	return t
}

func blockOf(txs ...*transaction.Transaction) block.Block {
	return block.Block{Header: &block.Header{}, TransactionsData: &block.Transactions{Transactions: txs}}
}

// listener collects the events of a subscriber.
type listener struct {
	mu     sync.Mutex
	evs    []node.TxEvent
	closed bool
}

func listen(ch <-chan node.TxEvent) *listener {
	l := &listener{}
	go func() {
		for ev := range ch {
			l.mu.Lock()
			l.evs = append(l.evs, ev)
			l.mu.Unlock()
		}
		l.mu.Lock()
		l.closed = true
		l.mu.Unlock()
	}()
	return l
}

func (l *listener) count(id string, t node.TxEventType) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	n := 0
	for _, e := range l.evs {
		if e.TxID() == id && e.Type() == t {
			n++
		}
	}
	return n
}

func (l *listener) total() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.evs)
}

// Every history of received and confirmed transactions: the pool holds exactly the unconfirmed ones and every subscriber hears of each change once.
//
//verif:harness prop=M01
func History() {
	rt.FixedHashes()
	m := node.NewMemPool()
	m.Start()
	var ls []*listener
	for i := rt.Choose("subscribers", 3); i > 0; i-- {
		ls = append(ls, listen(m.AddSubscriber("s")))
	}
	txs := []*transaction.Transaction{tx(rt.U32("lock")), tx(rt.U32("lock"))}
	ids := []string{txs[0].TxHash().String(), txs[1].TxHash().String()}
	rt.Assume(ids[0] != ids[1])
	in := [2]bool{}
	var un, conf [2]int
	steps := rt.Param("steps", 4, 5)
	for s := 0; s < steps; s++ {
		switch k := rt.Choose("step", 5); k {
		case 0, 1:
			m.AddTx(protocol.MsgTx{Transaction: *txs[k]})
			if !in[k] {
				in[k] = true
				un[k]++
			}
		case 2, 3:
			m.CheckTxConfirmed(blockOf(txs[k-2]))
			if in[k-2] {
				in[k-2] = false
				conf[k-2]++
			}
		case 4: // both, and one twice
			m.CheckTxConfirmed(blockOf(txs[1], txs[0], txs[1]))
			for i := range in {
				if in[i] {
					in[i] = false
					conf[i]++
				}
			}
		}
		rt.Quiesce()
		pool := m.GetMemPool()
		n := 0
		for i := range in {
			t, ok := pool[ids[i]]
			rt.Assert(ok == in[i], "the mempool does not hold exactly the unconfirmed transactions")
			if ok {
				n++
				rt.Assert(t.TxHash().String() == ids[i], "the mempool holds another transaction")
			}
		}
		rt.Assert(len(pool) == n, "the mempool holds a transaction that was not received")
		delete(pool, ids[0]) // a copy
		for _, l := range ls {
			for i := range in {
				rt.Assert(l.count(ids[i], node.TxUnConfirmed) == un[i], "a subscriber does not hear of a new transaction exactly once")
				rt.Assert(l.count(ids[i], node.TxConfirmed) == conf[i], "a subscriber does not hear of a confirmed transaction exactly once")
			}
			rt.Assert(l.total() == un[0]+un[1]+conf[0]+conf[1], "a subscriber hears of something that did not happen")
		}
	}
}

// The same when transactions and blocks arrive at the same time.
//
//verif:harness prop=M01
func Concurrent() {
	rt.FixedHashes()
	rt.Race(true)
	m := node.NewMemPool()
	m.Start()
	l := listen(m.AddSubscriber("s"))
	a, b := tx(1), tx(2)
	ida, idb := a.TxHash().String(), b.TxHash().String()
	confirmed := rt.Choose("known", 2)
	if confirmed == 1 {
		m.AddTx(protocol.MsgTx{Transaction: *a})
		rt.Quiesce()
	}
	rt.Explore(rt.Param("delays", 2, 3))
	kinds := [2]int{rt.Choose("one", 3), rt.Choose("two", 3)}
	for _, k := range kinds {
		switch k {
		case 0:
			go m.AddTx(protocol.MsgTx{Transaction: *a})
		case 1:
			go m.AddTx(protocol.MsgTx{Transaction: *b})
		case 2:
			m.CheckTxConfirmed(blockOf(a, b))
		}
	}
	go m.GetMemPool()
	rt.Quiesce()
	rt.StopExplore()
	pool := m.GetMemPool()
	for i, id := range []string{ida, idb} {
		_, in := pool[id]
		un, co := l.count(id, node.TxUnConfirmed), l.count(id, node.TxConfirmed)
		d := 0
		if in {
			d = 1
		}
		rt.Assert(un-co == d, "the events of a transaction do not match the mempool")
		adds, checks := 0, 0
		for _, k := range kinds {
			if k == i {
				adds++
			}
			if k == 2 {
				checks++
			}
		}
		if i == 0 {
			adds += confirmed
		}
		rt.Assert(un <= adds && (un > 0) == (adds > 0), "a received transaction is not announced")
		rt.Assert(co <= checks, "a transaction is confirmed without a block")
		if checks == 0 {
			rt.Assert(un == 0 || un == 1, "a transaction is announced twice")
		}
		if checks == 2 && i == 0 && confirmed == 1 {
			rt.Assert(co == 1, "a transaction in a block is not confirmed exactly once")
		}
	}
}

// A subscriber that does not listen delays neither the mempool nor the other subscribers; Stop ends everything at any moment.
//
//verif:harness prop=M02
func SlowSubscriberAndStop() {
	rt.FixedHashes()
	rt.Race(true)
	m := node.NewMemPool()
	m.Start()
	slow := m.AddSubscriber("slow")
	l := listen(m.AddSubscriber("quick"))
	a, b := tx(1), tx(2)
	m.AddTx(protocol.MsgTx{Transaction: *a})
	m.AddTx(protocol.MsgTx{Transaction: *b})
	rt.Quiesce()
	rt.Assert(len(m.GetMemPool()) == 2, "a subscriber that does not listen blocks the mempool")
	rt.Assert(l.total() == 2, "a subscriber that does not listen blocks another one")
	base := rt.Goroutines()
	_ = base
	rt.Explore(rt.Param("delays", 2, 3))
	switch rt.Choose("busy", 4) {
	case 1:
		go m.AddTx(protocol.MsgTx{Transaction: *tx(3)})
	case 2:
		m.CheckTxConfirmed(blockOf(a))
	case 3:
		go func() { <-slow }()
	}
	done := make(chan bool, 1)
	go func() { m.Stop(); done <- true }()
	rt.Quiesce()
	rt.StopExplore()
	select {
	case <-done:
	default:
		rt.Assert(false, "Stop does not return")
	}
	rt.Quiesce()
	l.mu.Lock()
	rt.Assert(l.closed, "the subscribers are not told that the mempool stopped")
	l.mu.Unlock()
	// a transaction that arrives later does no harm
	fin := make(chan bool, 1)
	go func() { m.AddTx(protocol.MsgTx{Transaction: *tx(4)}); fin <- true }()
	rt.Quiesce()
	select {
	case <-fin:
	default:
		rt.Assert(false, "AddTx blocks after Stop")
	}
}

// A subscriber added at any moment hears of everything that happens afterwards.
//
//verif:harness prop=M01
func LateSubscriber() {
	rt.FixedHashes()
	rt.Race(true)
	m := node.NewMemPool()
	m.Start()
	a, b := tx(1), tx(2)
	rt.Explore(rt.Param("delays", 2, 3))
	m.AddTx(protocol.MsgTx{Transaction: *a})
	l := listen(m.AddSubscriber("late"))
	l2 := listen(m.AddSubscriber("later"))
	m.AddTx(protocol.MsgTx{Transaction: *b})
	rt.Quiesce()
	rt.StopExplore()
	for _, x := range []*listener{l, l2} {
		rt.Assert(x.count(b.TxHash().String(), node.TxUnConfirmed) == 1, "a subscriber misses a transaction received after it subscribed")
		rt.Assert(x.count(a.TxHash().String(), node.TxUnConfirmed) <= 1, "a transaction is announced twice")
	}
}
