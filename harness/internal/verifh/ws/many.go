package main

import (
	"strings"

	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
)

// Many clients and many events: each is answered, and each event reaches exactly its client, in order.
//
//verif:harness prop=W01 steps=100
func Many() {
	w := start()
	n := []int{5, 20, 60}[rt.Choose("clients", 3)]
	conns := make([]*wsConn, n)
	want := make([][]string, n)
	name := func(i int) string { return "wallet" + strings.Repeat("x", i+1) }
	for i := range conns {
		conns[i] = connect(w.h)
		conns[i].say(request("register", `"unspentUtxo"`, name(i), i, ""))
		want[i] = []string{"m"}
		rt.Quiesce()
	}
	rt.Assert(len(w.sc.registered()) == n, "a subscription does not reach the scanner exactly once")
	gone := rt.Choose("leaves", 4)
	if gone < 3 { // a client in the middle leaves
		switch gone {
		case 0:
			conns[n/2].bye()
		case 1:
			conns[n/2].hang()
		case 2:
			conns[n/2].say(request("unregister", ``, "", 0, ""))
			want[n/2] = append(want[n/2], "m")
		}
		rt.Quiesce()
	}
	lock := uint32(0)
	for round := 0; round < 3; round++ {
		for i := range conns {
			id, ok := w.idOf(name((i * 7) % n))
			rt.Assert(ok, "a registration does not reach the scanner")
			lock++
			w.sc.found(id, scanner.UnspentUtxo, lock)
			if j := (i * 7) % n; gone == 3 || j != n/2 {
				want[j] = append(want[j], event(scanner.UnspentUtxo, lock))
			}
		}
	}
	rt.Quiesce()
	for i := range conns {
		rt.Assert(conns[i].gone() == (i == n/2 && gone < 2), "a connection is closed, or kept open after its client left")
		rt.Assert(same(kinds(conns[i].heard()), want[i]), "a request is not answered exactly once, or an event does not reach exactly its client")
	}
}

// One client makes many requests and receives many events; requests are up to 512 bytes long.
//
//verif:harness prop=W01 steps=100
func Busy() {
	w := start()
	c := connect(w.h)
	size := []int{120, 126, 200, 256, 400, 511, 512}[rt.Choose("size", 7)]
	n := []int{1, 40}[rt.Choose("requests", 2)]
	var want []string
	var descs []string
	for i := 0; i < n; i++ {
		pad := size - len(request("register", `"unspentUtxo"`, "", 100+i, ""))
		d := strings.Repeat("d", pad)
		descs = append(descs, d)
		c.say(request("register", `"unspentUtxo"`, d, 100+i, ""))
		want = append(want, "m")
		rt.Quiesce()
	}
	got := w.sc.registered()
	rt.Assert(len(got) == n, "a subscription does not reach the scanner exactly once")
	for i, g := range got {
		rt.Assert(g.desc == descs[i] && g.start == 100+i, "a subscription reaches the scanner with other parameters")
	}
	for i := 0; i < 2*n; i++ {
		w.sc.found(got[n-1].id, scanner.UnspentUtxo, uint32(i+1))
		want = append(want, event(scanner.UnspentUtxo, uint32(i+1)))
	}
	rt.Quiesce()
	rt.Assert(!c.gone(), "a connection is closed, or kept open after its client left")
	rt.Assert(same(kinds(c.heard()), want), "a request is not answered exactly once, or an event does not reach exactly its client")
}
