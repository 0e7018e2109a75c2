package main

import (
	"errors"
	"sync"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/google/uuid"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
)

// reg is a descriptor registration that reached the scanner.
type reg struct {
	id     uuid.UUID
	desc   string
	events []scanner.EventType
	start  int
}

// fakeScanner is a scanner driven by the harness; descriptors starting with '!' are bad.
type fakeScanner struct {
	mu     sync.Mutex
	ch     chan scanner.Report
	regs   []reg
	starts int
	fail   error
	hold   chan struct{} // registrations wait for it
}

func newScanner() *fakeScanner { return &fakeScanner{ch: make(chan scanner.Report)} }

func (f *fakeScanner) Start() (<-chan scanner.Report, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.starts++
	return f.ch, f.fail
}
func (f *fakeScanner) Stop()                              {}
func (f *fakeScanner) Watch(...scanner.ScanRequestOption) {}
func (f *fakeScanner) WatchDescriptorWallet(id uuid.UUID, desc string, ev []scanner.EventType, start int) error {
	rt.Jitter()
	if f.hold != nil {
		<-f.hold
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.regs = append(f.regs, reg{id, desc, append([]scanner.EventType(nil), ev...), start})
	if desc[0] == '!' {
		return errors.New("bad descriptor " + desc[1:])
	}
	return nil
}

func (f *fakeScanner) registered() []reg {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]reg(nil), f.regs...)
}

// watched is a watch item of an event type.
type watched struct{ t scanner.EventType }

func (w watched) Bytes() []byte                       { return nil }
func (w watched) Match(*transaction.Transaction) bool { return true }
func (w watched) EventType() scanner.EventType        { return w.t }

// found makes the scanner report a transaction for a client.
func (f *fakeScanner) found(id uuid.UUID, t scanner.EventType, height, lock uint32) scanner.Report {
	tx := transaction.NewTx(2)
	tx.Locktime = lock
	tx.Inputs = []*transaction.TxInput{{Hash: make([]byte, 32), Witness: [][]byte{{7}}}} // the witness is no part of the ID
	r := scanner.Report{Transaction: tx, BlockHash: &chainhash.Hash{byte(lock)}, BlockHeight: height,
		Request: &scanner.ScanRequest{ClientID: id, Item: watched{t}, StartHeight: 1, IsPersistent: true}}
	f.ch <- r
	return r
}

func client(i int) uuid.UUID { return uuid.UUID{0: 9, 15: byte(i)} }

func sub(i int, desc string, events ...scanner.EventType) application.Subscriber {
	return application.Subscriber{ID: application.SubscriberID(client(i)), BlockHeight: 10 + i, Events: events, WalletDescriptor: desc}
}

// sink collects what the service reports.
type sink struct {
	mu   sync.Mutex
	evs  []application.SubscriberEventReport
	errs []application.SubscriberErrorReport
}

func (k *sink) read(n application.NotificationService) {
	for {
		select {
		case e := <-n.EventReport():
			k.mu.Lock()
			k.evs = append(k.evs, e)
			k.mu.Unlock()
		case e := <-n.ErrorReport():
			k.mu.Lock()
			k.errs = append(k.errs, e)
			k.mu.Unlock()
		}
	}
}

func (k *sink) counts() (int, int) {
	k.mu.Lock()
	defer k.mu.Unlock()
	return len(k.evs), len(k.errs)
}

// Every history of registrations, departures and reports: each report goes exactly to its subscriber while it is subscribed.
//
//verif:harness prop=A01
func History() {
	sc := newScanner()
	n := application.NewNotificationService(sc)
	rt.Assert(n.Start() == nil && sc.starts == 1, "the service does not start")
	k := &sink{}
	go k.read(n)
	subscribed := [3]bool{}
	var wantEv []scanner.Report
	var wantErr []int
	var wantReg []reg
	lock := uint32(0)
	steps := rt.Param("steps", 3, 4)
	for s := 0; s < steps; s++ {
		i := rt.Choose("client", 3)
		switch rt.Choose("step", 5) {
		case 0: // subscribe
			ev := []scanner.EventType{scanner.UnspentUtxo}
			if rt.Choose("events", 2) == 1 {
				ev = []scanner.EventType{scanner.SpentUtxo, scanner.UnspentUtxo}
			}
			x := sub(i, "wallet", ev...)
			x.BlockHeight = rt.Int("start", 1, 1<<20)
			rt.Assert(n.Subscribe(x) == nil, "a valid subscription is refused")
			subscribed[i] = true
			wantReg = append(wantReg, reg{client(i), "wallet", ev, x.BlockHeight})
		case 1: // subscribe with a descriptor the scanner refuses
			x := sub(i, "!wallet", scanner.UnspentUtxo)
			rt.Assert(n.Subscribe(x) == nil, "a subscription is refused at once")
			subscribed[i] = true
			wantErr = append(wantErr, i)
			wantReg = append(wantReg, reg{client(i), "!wallet", x.Events, x.BlockHeight})
		case 2: // unsubscribe
			err := n.UnSubscribe(application.Subscriber{ID: application.SubscriberID(client(i))})
			rt.Assert((err == nil) == subscribed[i], "leaving succeeds for an unknown client or fails for a known one")
			subscribed[i] = false
		case 3: // the scanner finds something
			lock++
			r := sc.found(client(i), scanner.EventType(rt.Choose("type", 2)), rt.U32("height")>>1, lock)
			if subscribed[i] {
				wantEv = append(wantEv, r)
			}
		case 4: // an invalid subscription
			x := sub(i, "wallet", scanner.UnspentUtxo)
			switch rt.Choose("invalid", 3) {
			case 0:
				x.Events = nil
			case 1:
				x.WalletDescriptor = ""
			case 2:
				x.BlockHeight = -rt.Int("start", 1, 1<<20)
			}
			rt.Assert(n.Subscribe(x) != nil, "an invalid subscription is accepted")
		}
		rt.Quiesce()
	}
	rt.Assert(len(k.evs) == len(wantEv), "an event is lost, repeated or sent to a client that is not subscribed")
	for j, r := range wantEv {
		e := k.evs[j]
		rt.Assert(uuid.UUID(e.SubscriberID) == r.Request.ClientID, "an event is sent to another client")
		rt.Assert(e.Transaction == r.Transaction && *e.BlockHash == *r.BlockHash && uint32(e.BlockHeight) == r.BlockHeight && e.EventType == r.Request.Item.EventType(), "an event differs from what the scanner found")
	}
	rt.Assert(len(k.errs) == len(wantErr), "a failed registration is not reported exactly once")
	for j, i := range wantErr {
		rt.Assert(uuid.UUID(k.errs[j].SubscriberID) == client(i) && k.errs[j].ErrorMsg.Error() == "bad descriptor wallet", "a failure is reported to another client")
	}
	regs := sc.registered()
	rt.Assert(len(regs) == len(wantReg), "a subscription is not registered with the scanner exactly once")
	for j, w := range wantReg {
		g := regs[j]
		same := g.id == w.id && g.desc == w.desc && g.start == w.start && len(g.events) == len(w.events)
		for m := range w.events {
			same = same && g.events[m] == w.events[m]
		}
		rt.Assert(same, "a subscription is registered with other parameters")
	}
}

// The same when everything happens at once.
//
//verif:harness prop=A02
func Concurrent() {
	rt.Race(true)
	sc := newScanner()
	n := application.NewNotificationService(sc)
	rt.Assert(n.Start() == nil, "the service does not start")
	k := &sink{}
	go k.read(n)
	n.Subscribe(sub(0, "wallet", scanner.UnspentUtxo))
	rt.Quiesce()
	rt.Explore(rt.Param("delays", 2, 3))
	wait := make(chan bool, 4)
	second := []string{"wallet", "!wallet"}[rt.Choose("descriptor", 2)]
	go func() { n.Subscribe(sub(1, second, scanner.UnspentUtxo)); wait <- true }()
	go func() { n.Subscribe(sub(2, "!wallet", scanner.SpentUtxo)); wait <- true }()
	leave := rt.Choose("leaves", 3)
	go func() {
		if leave < 2 {
			n.UnSubscribe(sub(leave, ""))
		}
		wait <- true
	}()
	go func() { sc.found(client(0), scanner.UnspentUtxo, 5, 1); sc.found(client(2), scanner.SpentUtxo, 6, 2); wait <- true }()
	rt.Quiesce()
	rt.StopExplore()
	rt.Assert(len(wait) == 4, "a call does not return")
	rt.Assert(len(sc.registered()) == 3, "a subscription is not registered with the scanner exactly once")
	n0, n1, n2 := 0, 0, 0
	for _, e := range k.evs {
		switch uuid.UUID(e.SubscriberID) {
		case client(0):
			n0++
		case client(2):
			n2++
		default:
			n1++
		}
	}
	rt.Assert(n0 <= 1 && n2 <= 1 && n1 == 0, "an event is repeated or sent to another client")
	if leave != 0 {
		rt.Assert(n0 == 1, "an event for a subscribed client is lost")
	}
	bad := map[uuid.UUID]int{}
	for _, e := range k.errs {
		bad[uuid.UUID(e.SubscriberID)]++
	}
	want1 := 0
	if second[0] == '!' {
		want1 = 1
	}
	rt.Assert(bad[client(2)] == 1 && bad[client(1)] == want1 && bad[client(0)] == 0, "a failed registration is not reported exactly once")
	// afterwards everything still works
	before := len(k.evs)
	sc.found(client(2), scanner.SpentUtxo, 7, 3)
	n.Subscribe(sub(0, "wallet", scanner.UnspentUtxo))
	rt.Quiesce()
	sc.found(client(0), scanner.UnspentUtxo, 7, 4)
	n.UnSubscribe(sub(2, ""))
	rt.Quiesce()
	sc.found(client(2), scanner.SpentUtxo, 7, 5)
	rt.Quiesce()
	rt.Assert(len(k.evs) == before+2, "the service stops working")
}

// Stop returns at any moment and ends everything, also when nobody reads the reports.
//
//verif:harness prop=A02
func StopAnytime() {
	rt.Race(true)
	sc := newScanner()
	if rt.Choose("scanner busy", 2) == 1 {
		sc.hold = make(chan struct{})
	}
	n := application.NewNotificationService(sc)
	before := rt.Goroutines()
	rt.Assert(n.Start() == nil, "the service does not start")
	n.Subscribe(sub(0, "wallet", scanner.UnspentUtxo))
	rt.Explore(rt.Param("delays", 2, 3))
	switch rt.Choose("busy", 4) {
	case 1: // an event nobody reads
		select {
		case sc.ch <- scanner.Report{Transaction: transaction.NewTx(2), BlockHash: &chainhash.Hash{}, Request: &scanner.ScanRequest{ClientID: client(0), Item: watched{0}}}:
		}
	case 2: // an error nobody reads
		n.Subscribe(sub(1, "!wallet", scanner.UnspentUtxo))
	case 3: // several
		n.Subscribe(sub(1, "!wallet", scanner.UnspentUtxo))
		n.Subscribe(sub(2, "!wallet", scanner.UnspentUtxo))
	}
	if rt.Choose("pause", 2) == 1 {
		rt.Quiesce()
	}
	done := make(chan bool, 2)
	go func() { n.Stop(); done <- true }()
	go func() { n.Subscribe(sub(3, "wallet", scanner.UnspentUtxo)); n.UnSubscribe(sub(3, "")); done <- true }()
	rt.Quiesce()
	rt.StopExplore()
	rt.Assert(len(done) == 2, "Stop, or a call at the same time, does not return")
	if sc.hold != nil {
		close(sc.hold)
		rt.Quiesce()
	}
	rt.Assert(rt.Ended(before), "a stopped service leaves goroutines")
}

// A service whose scanner does not start says so.
//
//verif:harness prop=A02
func ScannerDoesNotStart() {
	sc := newScanner()
	sc.fail = errors.New("already started")
	n := application.NewNotificationService(sc)
	rt.Assert(n.Start() == sc.fail, "the service starts without a scanner")
}
