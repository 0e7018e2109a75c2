package main

import (
	"github.com/vulpemventures/go-elements/transaction"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

// Many transactions, many subscribers, some of which read late: nothing is forgotten.
//
//verif:harness prop=M01
func Many() {
	rt.FixedHashes()
	m := node.NewMemPool()
	m.Start()
	n := []int{30, 150}[rt.Choose("transactions", 2)]
	k := []int{1, 9}[rt.Choose("subscribers", 2)]
	late := rt.Choose("late reader", 2) == 1
	var ls []*listener
	for i := 0; i < k; i++ {
		ls = append(ls, listen(m.AddSubscriber("s")))
	}
	var slow <-chan node.TxEvent
	if late {
		slow = m.AddSubscriber("late")
	}
	var txs, mined []*transaction.Transaction
	for i := 0; i < n; i++ {
		t := tx(uint32(i + 1))
		txs = append(txs, t)
		m.AddTx(protocol.MsgTx{Transaction: *t})
		if i%3 == 0 {
			other := tx(uint32(i + 1))
			other.Inputs[0].Witness = [][]byte{{8}}
			mined = append(mined, []*transaction.Transaction{t, other}[i%2])
		}
	}
	rt.Quiesce()
	rt.Assert(len(m.GetMemPool()) == n, "the mempool does not hold exactly the unconfirmed transactions")
	mined = append(mined, tx(uint32(n+1)))
	m.CheckTxConfirmed(blockOf(mined...))
	rt.Quiesce()
	if late {
		ls = append(ls, listen(slow))
		rt.Quiesce()
	}
	pool := m.GetMemPool()
	for i, t := range txs {
		id := t.TxHash().String()
		_, in := pool[id]
		rt.Assert(in == (i%3 != 0), "the mempool does not hold exactly the unconfirmed transactions")
		if k > 1 && i%7 > 1 {
			continue
		}
		for _, l := range ls {
			rt.Assert(l.count(id, node.TxUnConfirmed) == 1, "a subscriber does not hear of a new transaction exactly once")
			rt.Assert(l.count(id, node.TxConfirmed) == 1-min(i%3, 1), "a subscriber does not hear of a confirmed transaction exactly once")
		}
	}
	for _, l := range ls {
		rt.Assert(l.total() == n+len(mined)-1, "a subscriber hears of something that did not happen")
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
