package main

import (
	"errors"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/google/uuid"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	"github.com/vulpemventures/neutrino-elements/internal/interface/web-socket/handler"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	neutrinodtypes "github.com/vulpemventures/neutrino-elements/pkg/neutrinod-types"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
)

// ---- scanner ----

type reg struct {
	id     uuid.UUID
	desc   string
	events []scanner.EventType
	start  int
}

// fakeScanner is driven by the harness; descriptors starting with '!' are bad.
type fakeScanner struct {
	mu   sync.Mutex
	ch   chan scanner.Report
	regs []reg
}

func (f *fakeScanner) Start() (<-chan scanner.Report, error) { return f.ch, nil }
func (f *fakeScanner) Stop()                                 {}
func (f *fakeScanner) Watch(...scanner.ScanRequestOption)    {}
func (f *fakeScanner) WatchDescriptorWallet(id uuid.UUID, desc string, ev []scanner.EventType, start int) error {
	rt.Jitter()
	f.mu.Lock()
	defer f.mu.Unlock()
	f.regs = append(f.regs, reg{id, desc, append([]scanner.EventType(nil), ev...), start})
	if desc[0] == '!' {
		return errors.New("bad descriptor")
	}
	return nil
}

func (f *fakeScanner) registered() []reg {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]reg(nil), f.regs...)
}

type watched struct{ t scanner.EventType }

func (w watched) Bytes() []byte                       { return nil }
func (w watched) Match(*transaction.Transaction) bool { return true }
func (w watched) EventType() scanner.EventType        { return w.t }

func tx(lock uint32) *transaction.Transaction {
	t := transaction.NewTx(2)
	t.Locktime = lock
	t.Inputs = []*transaction.TxInput{{Hash: make([]byte, 32), Witness: [][]byte{{7}}}} // the witness is no part of the ID
	return t
}

func (f *fakeScanner) found(id uuid.UUID, t scanner.EventType, lock uint32) {
	f.ch <- scanner.Report{Transaction: tx(lock), BlockHash: &chainhash.Hash{byte(lock)}, BlockHeight: 7,
		Request: &scanner.ScanRequest{ClientID: id, Item: watched{t}, StartHeight: 1, IsPersistent: true}}
}

// ---- messages ----

var eventNames = map[scanner.EventType]string{scanner.UnspentUtxo: "unspentUtxo", scanner.SpentUtxo: "spentUtxo"}

func request(action, events, desc string, start int, url string) string {
	s := `{"actionType":` + quote(action) + `,"eventTypes":[` + events + `],"descriptorWallet":` + quote(desc) + `,"startBlockHeight":` + strconv.Itoa(start)
	if url != "" {
		s += `,"endpointUrl":` + quote(url)
	}
	return s + "}"
}

// kind tells what a message of the server is: m(essage), e(rror) or the event it reports.
func kind(s string) string {
	v, rest, err := parse(s)
	rt.Assert(err == nil && strings.TrimSpace(rest) == "", "a message is not valid JSON")
	o, ok := v.(object)
	rt.Assert(ok, "a message is not a JSON object")
	if m, _ := o.get("message").(string); m != "" && len(o) == 1 {
		return "m"
	}
	if m, _ := o.get("errorMessage").(string); m != "" && len(o) == 1 {
		return "e"
	}
	t, _ := o.get("eventType").(string)
	id, _ := o.get("txId").(string)
	rt.Assert(t != "" && id != "" && len(o) == 2, "a message has unknown fields")
	return t + " " + id
}

func event(t scanner.EventType, lock uint32) string {
	return eventNames[t] + " " + tx(lock).TxHash().String()
}

// same compares messages as sets; events must be in order.
func same(got []string, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	return strings.Join(order(got), ",") == strings.Join(order(want), ",")
}

func order(k []string) []string {
	var out []string
	for _, w := range []string{"m", "e"} {
		for _, x := range k {
			if x == w {
				out = append(out, x)
			}
		}
	}
	for _, x := range k {
		if len(x) > 1 {
			out = append(out, x)
		}
	}
	return out
}

func kinds(ss []string) []string {
	var out []string
	for _, s := range ss {
		out = append(out, kind(s))
	}
	return out
}

type world struct {
	sc *fakeScanner
	h  handler.DescriptorWalletNotifierHandler
}

func start() *world {
	hooks.mu.Lock()
	hooks.posts, hooks.fail, hooks.stuck = nil, false, nil
	hooks.mu.Unlock()
	if !rt.Symbolic() {
		http.DefaultTransport = transport{}
		http.DefaultClient.Transport = transport{}
	}
	sc := &fakeScanner{ch: make(chan scanner.Report)}
	n := application.NewNotificationService(sc)
	rt.Assert(n.Start() == nil, "the notification service does not start")
	h := handler.NewDescriptorWalletNotifierHandler(n)
	h.Start()
	return &world{sc, h}
}

// idOf finds the identifier under which a descriptor was registered last.
func (w *world) idOf(desc string) (uuid.UUID, bool) {
	rs := w.sc.registered()
	for i := len(rs) - 1; i >= 0; i-- {
		if rs[i].desc == desc {
			return rs[i].id, true
		}
	}
	return uuid.UUID{}, false
}

// Every history of two websocket clients: each request is answered once, each event reaches exactly its client.
//
//verif:harness prop=W01 budget=120s
func Sockets() {
	w := start()
	names := []string{"walletA", "walletB"}
	conns := []*wsConn{connect(w.h), connect(w.h)}
	rt.Quiesce()
	var want [2][]string
	var subscribed, everReg, left [2]bool
	var regs []reg
	lock := uint32(0)
	steps := rt.Param("steps", 3, 4)
	for s := 0; s < steps; s++ {
		i := rt.Choose("client", 2)
		c := conns[i]
		step := rt.Choose("step", 9)
		if left[i] && step != 8 {
			continue
		}
		switch step {
		case 0: // register
			ev, evs := `"unspentUtxo"`, []scanner.EventType{scanner.UnspentUtxo}
			switch rt.Choose("events", 3) {
			case 1:
				ev, evs = `"spentUtxo"`, []scanner.EventType{scanner.SpentUtxo}
			case 2:
				ev, evs = `"spentUtxo","unspentUtxo"`, []scanner.EventType{scanner.SpentUtxo, scanner.UnspentUtxo}
			}
			c.say(request("register", ev, names[i], 10+s, ""))
			want[i] = append(want[i], "m")
			regs = append(regs, reg{uuid.UUID{}, names[i], evs, 10 + s})
			subscribed[i], everReg[i] = true, true
		case 1: // a descriptor the scanner refuses
			c.say(request("register", `"unspentUtxo"`, "!"+names[i], 10+s, ""))
			want[i] = append(want[i], "m", "e")
			regs = append(regs, reg{uuid.UUID{}, "!" + names[i], []scanner.EventType{scanner.UnspentUtxo}, 10 + s})
			subscribed[i] = true
		case 2: // invalid requests
			switch rt.Choose("invalid", 4) {
			case 0:
				c.say(request("register", `"unspentUtxo"`, "", 10, ""))
			case 1:
				c.say(request("register", ``, names[i], 10, ""))
			case 2:
				c.say(request("register", `"unspentUtxo","other"`, names[i], 10, ""))
			case 3:
				c.say(request("register", `"unspentUtxo"`, names[i], -1, ""))
			}
			want[i] = append(want[i], "e")
		case 3: // unregister
			c.say(request("unregister", ``, "", 0, ""))
			if subscribed[i] {
				want[i] = append(want[i], "m")
			} else {
				want[i] = append(want[i], "e")
			}
			subscribed[i] = false
		case 4: // the client leaves
			c.bye()
			subscribed[i], left[i] = false, true
		case 5:
			c.hang()
			subscribed[i], left[i] = false, true
		case 6: // something that is not JSON
			c.say([]string{"{", "[1]", `{"startBlockHeight":"x"}`, "hello"}[rt.Choose("text", 4)])
			subscribed[i], left[i] = false, true
		case 7: // JSON with white space, other members and another order
			c.say("\n { \"startBlockHeight\" : " + strconv.Itoa(10+s) + ",\n\"more\":[{}], \"descriptorWallet\":" + quote(names[i]) + ", \"eventTypes\":[\"unspentUtxo\"],\"actionType\":\"register\"}\n")
			want[i] = append(want[i], "m")
			regs = append(regs, reg{uuid.UUID{}, names[i], []scanner.EventType{scanner.UnspentUtxo}, 10 + s})
			subscribed[i], everReg[i] = true, true
		case 8: // the scanner finds something
			if !everReg[i] {
				continue
			}
			id, ok := w.idOf(names[i])
			rt.Assert(ok, "a registration does not reach the scanner")
			lock++
			t := scanner.EventType(rt.Choose("type", 2))
			w.sc.found(id, t, lock)
			if subscribed[i] {
				want[i] = append(want[i], event(t, lock))
			}
		}
		rt.Quiesce()
		for j := range conns {
			rt.Assert(conns[j].gone() == left[j], "a connection is closed, or kept open after its client left")
			rt.Assert(same(kinds(conns[j].heard()), want[j]), "a request is not answered exactly once, or an event does not reach exactly its client")
		}
	}
	got := w.sc.registered()
	rt.Assert(len(got) == len(regs), "a subscription does not reach the scanner exactly once")
	for j, r := range regs {
		g := got[j]
		ok := g.desc == r.desc && g.start == r.start && len(g.events) == len(r.events)
		for m := range r.events {
			ok = ok && g.events[m] == r.events[m]
		}
		rt.Assert(ok, "a subscription reaches the scanner with other parameters")
	}
}

// Every history of two webhook clients: each registration is answered once, each event is posted exactly to its endpoint.
//
//verif:harness prop=W01
func Webhooks() {
	w := start()
	names := []string{"walletA", "walletB"}
	urls := []string{"http://a/x", "http://b/y?z=1"}
	var regd [2]bool
	var want []post
	var regs []reg
	lock := uint32(0)
	steps := rt.Param("steps", 3, 4)
	for s := 0; s < steps; s++ {
		i := rt.Choose("client", 2)
		switch rt.Choose("step", 4) {
		case 0: // register
			if regd[i] {
				continue
			}
			ev, evs := `"unspentUtxo"`, []scanner.EventType{scanner.UnspentUtxo}
			if rt.Choose("events", 2) == 1 {
				ev, evs = `"unspentUtxo","spentUtxo"`, []scanner.EventType{scanner.UnspentUtxo, scanner.SpentUtxo}
			}
			r := subscribeHttp(w.h, request("register", ev, names[i], 10+s, urls[i]))
			rt.Assert((r.code == 0 || r.code == 200) && kind(string(r.body)) == "m", "a valid registration is refused")
			regs = append(regs, reg{uuid.UUID{}, names[i], evs, 10 + s})
			regd[i] = true
		case 1: // a descriptor the scanner refuses
			r := subscribeHttp(w.h, request("register", `"unspentUtxo"`, "!"+names[i], 10+s, urls[i]))
			rt.Assert((r.code == 0 || r.code == 200) && kind(string(r.body)) == "m", "a registration is refused at once")
			regs = append(regs, reg{uuid.UUID{}, "!" + names[i], []scanner.EventType{scanner.UnspentUtxo}, 10 + s})
			want = append(want, post{urls[i], "application/json", "e"})
		case 2: // invalid requests
			var r *response
			switch rt.Choose("invalid", 7) {
			case 0:
				r = subscribeHttp(w.h, request("register", `"unspentUtxo"`, "", 10, urls[i]))
			case 1:
				r = subscribeHttp(w.h, request("register", ``, names[i], 10, urls[i]))
			case 2:
				r = subscribeHttp(w.h, request("register", `"other"`, names[i], 10, urls[i]))
				rt.Assert(r.code == 400, "an unknown event is not refused")
			case 3:
				r = subscribeHttp(w.h, request("register", `"unspentUtxo"`, names[i], -1, urls[i]))
			case 4:
				r = subscribeHttp(w.h, request("other", `"unspentUtxo"`, names[i], 1, urls[i]))
			case 5:
				r = subscribeHttp(w.h, "{")
				rt.Assert(r.code == 400, "a request that is not JSON is not refused")
			case 6:
				r = subscribeHttp(w.h, "")
				rt.Assert(r.code == 400, "an empty request is not refused")
			}
			rt.Assert(r.code >= 400 || kind(string(r.body)) == "e", "an invalid request is accepted")
		case 3: // the scanner finds something
			if !regd[i] {
				continue
			}
			id, ok := w.idOf(names[i])
			rt.Assert(ok, "a registration does not reach the scanner")
			lock++
			t := scanner.EventType(rt.Choose("type", 2))
			w.sc.found(id, t, lock)
			want = append(want, post{urls[i], "application/json", event(t, lock)})
		}
		rt.Quiesce()
		got := posted()
		rt.Assert(len(got) == len(want), "an event is not posted exactly once")
		for j, p := range got {
			rt.Assert(p.url == want[j].url && p.contentType == want[j].contentType && kind(p.body) == want[j].body, "something else is posted, or to another endpoint")
		}
	}
	got := w.sc.registered()
	rt.Assert(len(got) == len(regs), "a registration does not reach the scanner exactly once")
	for j, r := range regs {
		g := got[j]
		ok := g.desc == r.desc && g.start == r.start && len(g.events) == len(r.events)
		for m := range r.events {
			ok = ok && g.events[m] == r.events[m]
		}
		rt.Assert(ok, "a registration reaches the scanner with other parameters")
	}
}

// Event names: exactly the two documented ones are known, and they are translated both ways.
//
//verif:harness prop=W01
func EventNames() {
	n := rt.Choose("length", 13)
	name := neutrinodtypes.EventType(rt.Bytes("name", n))
	t, err := neutrinodtypes.FromNeutrinodTypeToScannerEventType(name)
	switch {
	case name == "unspentUtxo":
		rt.Assert(err == nil && t == scanner.UnspentUtxo, "unspentUtxo is not known")
	case name == "spentUtxo":
		rt.Assert(err == nil && t == scanner.SpentUtxo, "spentUtxo is not known")
	default:
		rt.Assert(err != nil, "an unknown event is accepted")
	}
	k := scanner.EventType(int(rt.U64("type")))
	back, err := neutrinodtypes.FromScannerEventTypeToNeutrinodType(k)
	switch k {
	case scanner.UnspentUtxo:
		rt.Assert(err == nil && back == "unspentUtxo", "an event has another name")
	case scanner.SpentUtxo:
		rt.Assert(err == nil && back == "spentUtxo", "an event has another name")
	default:
		rt.Assert(err != nil, "an unknown event has a name")
	}
}

// Requests, events, failures and departures of several clients at once.
//
//verif:harness prop=W02
func Concurrent() {
	rt.Race(true)
	w := start()
	a, b := connect(w.h), connect(w.h)
	a.say(request("register", `"unspentUtxo"`, "walletA", 10, ""))
	rt.Quiesce()
	subscribeHttp(w.h, request("register", `"spentUtxo"`, "walletC", 10, "http://c"))
	rt.Quiesce()
	ida, ok1 := w.idOf("walletA")
	idc, ok2 := w.idOf("walletC")
	rt.Assert(ok1 && ok2, "a registration does not reach the scanner")
	rt.Explore(rt.Param("delays", 1, 2))
	wait := make(chan bool, 4)
	b.say(request("register", `"unspentUtxo"`, "!walletB", 10, ""))
	leave := rt.Choose("leaves", 4)
	go func() {
		switch leave {
		case 0:
			a.say(request("unregister", ``, "", 0, ""))
		case 1:
			a.bye()
		case 2:
			a.hang()
		case 3:
			b.say(request("register", `"unspentUtxo"`, "walletB", 10, ""))
		}
		wait <- true
	}()
	go func() {
		w.sc.found(ida, scanner.UnspentUtxo, 1)
		w.sc.found(idc, scanner.SpentUtxo, 2)
		w.sc.found(ida, scanner.SpentUtxo, 3)
		wait <- true
	}()
	var r *response
	go func() {
		r = subscribeHttp(w.h, request("register", `"unspentUtxo"`, "walletD", 10, "http://d"))
		wait <- true
	}()
	rt.Quiesce()
	rt.StopExplore()
	rt.Assert(len(wait) == 3, "a request or an event is stuck")
	rt.Assert(kind(string(r.body)) == "m", "a registration is refused")
	ka := kinds(a.heard())
	ne := 0
	rt.Assert(len(ka) > 0 && ka[0] == "m", "a registration is not answered")
	last := 0
	for _, k := range ka[1:] {
		switch k {
		case event(scanner.UnspentUtxo, 1):
			rt.Assert(last == 0, "events are repeated or out of order")
			last = 1
			ne++
		case event(scanner.SpentUtxo, 3):
			rt.Assert(last < 3, "events are repeated or out of order")
			last = 3
			ne++
		default:
			rt.Assert(k == "m" && leave == 0, "something else is sent to a client")
		}
	}
	if leave == 3 {
		rt.Assert(ne == 2, "an event for a subscribed client is lost")
	}
	if leave == 0 {
		rt.Assert(len(ka) == 2+ne, "a request is not answered exactly once")
	}
	rt.Assert(a.gone() == (leave == 1 || leave == 2), "a connection is closed, or kept open after its client left")
	wantB := []string{"m", "e"}
	if leave == 3 {
		wantB = []string{"m", "m", "e"}
	}
	rt.Assert(same(kinds(b.heard()), wantB), "a request is not answered exactly once, or a failure is not reported")
	ps := posted()
	rt.Assert(len(ps) == 1 && ps[0].url == "http://c" && kind(ps[0].body) == event(scanner.SpentUtxo, 2), "an event is not posted exactly once to its endpoint")
	// afterwards everything still works
	idd, ok := w.idOf("walletD")
	rt.Assert(ok, "a registration does not reach the scanner")
	c := connect(w.h)
	c.say(request("register", `"unspentUtxo"`, "walletE", 10, ""))
	rt.Quiesce()
	ide, ok := w.idOf("walletE")
	rt.Assert(ok, "a later registration does not reach the scanner")
	w.sc.found(ide, scanner.UnspentUtxo, 8)
	w.sc.found(idd, scanner.UnspentUtxo, 9)
	rt.Quiesce()
	rt.Assert(same(kinds(c.heard()), []string{"m", event(scanner.UnspentUtxo, 8)}), "the daemon stops serving its clients")
	ps = posted()
	rt.Assert(len(ps) == 2 && ps[1].url == "http://d" && kind(ps[1].body) == event(scanner.UnspentUtxo, 9), "the daemon stops serving its clients")
}

// A client that does not read, or an endpoint that does not answer, costs the others a bounded delay at most.
//
//verif:harness prop=W02 faketime
func SlowClients() {
	w := start()
	bad := connect(w.h)
	good := connect(w.h)
	bad.say(request("register", `"unspentUtxo"`, "walletA", 10, ""))
	good.say(request("register", `"unspentUtxo"`, "walletB", 10, ""))
	rt.Quiesce()
	ida, _ := w.idOf("walletA")
	idb, ok := w.idOf("walletB")
	rt.Assert(ok, "a registration does not reach the scanner")
	what := rt.Choose("trouble", 4)
	switch what {
	case 0: // does not read
		bad.mu.Lock()
		bad.stuck = true
		bad.mu.Unlock()
	case 1: // connection broken, not yet noticed by its reader
		bad.mu.Lock()
		bad.isClosed = true
		bad.mu.Unlock()
	case 2: // an endpoint that does not answer
		hooks.stuck = make(chan struct{})
		subscribeHttp(w.h, request("register", `"unspentUtxo"`, "walletC", 10, "http://slow"))
	case 3: // an endpoint that cannot be reached
		hooks.mu.Lock()
		hooks.fail = true
		hooks.mu.Unlock()
		subscribeHttp(w.h, request("register", `"unspentUtxo"`, "walletC", 10, "http://down"))
	}
	rt.Quiesce()
	id := ida
	if what >= 2 {
		id, _ = w.idOf("walletC")
	}
	n := 1 + rt.Choose("events", 2)
	go func() {
		for i := 0; i < n; i++ {
			w.sc.found(id, scanner.UnspentUtxo, uint32(10+i))
		}
		w.sc.found(idb, scanner.UnspentUtxo, 1)
	}()
	time.Sleep(time.Minute)
	rt.Quiesce()
	rt.Assert(same(kinds(good.heard()), []string{"m", event(scanner.UnspentUtxo, 1)}), "a client is not served because of another one")
	late := connect(w.h)
	late.say(request("register", `"spentUtxo"`, "walletD", 10, ""))
	rt.Quiesce()
	rt.Assert(same(kinds(late.heard()), []string{"m"}), "a client is not served because of another one")
	if hooks.stuck != nil {
		close(hooks.stuck)
	}
}

// Stop returns at any moment and leaves nothing running but the connections of the clients, which end with them.
//
//verif:harness prop=W02 faketime
func StopAnytime() {
	w := start()
	before := rt.Goroutines()
	a := connect(w.h)
	a.say(request("register", `"unspentUtxo"`, "walletA", 10, ""))
	rt.Quiesce()
	ida, ok := w.idOf("walletA")
	rt.Assert(ok, "a registration does not reach the scanner")
	rt.Explore(rt.Param("delays", 2, 3))
	busy := rt.Choose("busy", 6)
	quit := make(chan struct{})
	find := func(id uuid.UUID) {
		select {
		case w.sc.ch <- scanner.Report{Transaction: tx(1), BlockHash: &chainhash.Hash{}, Request: &scanner.ScanRequest{ClientID: id, Item: watched{}}}:
		case <-quit:
		}
	}
	var b *wsConn
	switch busy {
	case 1:
		go find(ida)
	case 2:
		a.say(request("register", `"unspentUtxo"`, "!walletB", 10, ""))
	case 3:
		a.say(request("unregister", ``, "", 0, ""))
	case 4:
		a.hang()
	case 5:
		go func() { b = connect(w.h) }()
	}
	done := make(chan bool, 2)
	go func() { w.h.Stop(); done <- true }()
	go func() {
		subscribeHttp(w.h, request("register", `"unspentUtxo"`, "walletC", 10, "http://c"))
		done <- true
	}()
	time.Sleep(10 * time.Second)
	rt.Quiesce()
	rt.StopExplore()
	rt.Assert(len(done) == 2, "Stop, or a request at the same time, does not return")
	close(quit)
	if busy != 4 {
		a.hang()
	}
	if b != nil {
		b.hang()
	}
	time.Sleep(10 * time.Second)
	rt.Quiesce()
	rt.Assert(a.gone() && (b == nil || b.gone()), "a connection is kept open after its client left")
	rt.Assert(rt.Ended(before), "a stopped daemon leaves goroutines")
}
