package main

import (
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
)

// Many requests over many blocks: everyone gets exactly their reports.
//
//verif:harness prop=N01 faketime steps=100
func Many() {
	const items = 12
	w := newWorld(items)
	n := []int{20, 45}[rt.Choose("blocks", 2)]
	for h := 0; h < n; h++ {
		switch {
		case h%5 == 4:
			w.prepare() // nothing of interest
		default:
			w.prepare(byte(h%items), byte((h*7+3)%items), 0xdd, byte(h%items))
		}
	}
	early := []int{1, n / 2, n}[rt.Choose("early", 3)]
	for h := 0; h < early; h++ {
		w.add(w.blocks[h])
	}
	s := w.scanner()
	r := &reader{}
	var qs []req
	for i := 0; i < items; i++ {
		q := req{client(byte(i + 1)), byte(i), uint32(i * n / items), i%2 == 0}
		if i%3 == 2 {
			q.item = byte(i - 1)
		}
		qs = append(qs, q)
	}
	before := rt.Choose("before start", 2) * items / 2
	for _, q := range qs[:before] {
		q.watch(s)
	}
	ch, err := s.Start()
	rt.Assert(err == nil, "the scanner does not start")
	go r.read(ch)
	for _, q := range qs[before:] {
		q.watch(s)
	}
	settle()
	settle()
	for h := early; h < n; h++ {
		w.add(w.blocks[h])
		if h%9 == 0 {
			settle()
		}
	}
	for i := 0; i < 12; i++ {
		settle()
	}
	for _, q := range qs {
		r.check(w, q, n)
	}
}

// A block with many matching transactions, read slowly or at once.
//
//verif:harness prop=N01 faketime steps=100
func BusyBlock() {
	w := newWorld(2)
	w.prepare()
	k := []int{5, 64, 300}[rt.Choose("transactions", 3)]
	pays := make([]byte, k)
	for i := range pays {
		pays[i] = byte(i % 3)
	}
	w.prepare(pays...)
	w.prepare(0, 1)
	for _, b := range w.blocks {
		w.add(b)
	}
	q1 := req{client(1), 0, 1, rt.Choose("persistent", 2) == 1}
	q2 := req{client(2), 1, 0, rt.Choose("persistent", 2) == 1}
	s := w.scanner()
	r := &reader{}
	ch, err := s.Start()
	rt.Assert(err == nil, "the scanner does not start")
	q1.watch(s)
	q2.watch(s)
	if rt.Choose("late reader", 2) == 1 {
		settle()
	}
	go r.read(ch)
	for i := 0; i < 4; i++ {
		settle()
	}
	r.check(w, q1, 3)
	r.check(w, q2, 3)
}
