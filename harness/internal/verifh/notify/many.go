package main

import (
	"github.com/google/uuid"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
)

// Many clients and many finds: each is reported once, to its client, in order.
//
//verif:harness prop=A01
func Many() {
	sc := newScanner()
	n := application.NewNotificationService(sc)
	rt.Assert(n.Start() == nil && sc.starts == 1, "the service does not start")
	k := &sink{}
	late := rt.Choose("late reader", 2) == 1
	if !late {
		go k.read(n)
	}
	clients := []int{3, 40}[rt.Choose("clients", 2)]
	for i := 0; i < clients; i++ {
		rt.Assert(n.Subscribe(sub(i, "wallet", scanner.UnspentUtxo)) == nil, "a valid subscription is refused")
	}
	rt.Quiesce()
	rt.Assert(len(sc.registered()) == clients, "a subscription is not registered with the scanner exactly once")
	finds := []int{10, 120}[rt.Choose("finds", 2)]
	var want []scanner.Report
	done := make(chan bool, 1)
	go func() {
		for i := 0; i < finds; i++ {
			want = append(want, sc.found(client((i*5)%(clients+1)), scanner.EventType(i%2), uint32(i), uint32(i+1)))
		}
		done <- true
	}()
	rt.Quiesce()
	if late {
		go k.read(n)
	}
	<-done
	rt.Quiesce()
	j := 0
	for _, r := range want {
		if r.Request.ClientID == client(clients) { // never subscribed
			continue
		}
		rt.Assert(j < len(k.evs), "an event is lost, repeated or sent to a client that is not subscribed")
		e := k.evs[j]
		j++
		rt.Assert(uuid.UUID(e.SubscriberID) == r.Request.ClientID, "an event is sent to another client")
		rt.Assert(e.Transaction == r.Transaction && *e.BlockHash == *r.BlockHash && uint32(e.BlockHeight) == r.BlockHeight && e.EventType == r.Request.Item.EventType(), "an event differs from what the scanner found")
	}
	rt.Assert(len(k.evs) == j, "an event is lost, repeated or sent to a client that is not subscribed")
}
