package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/google/uuid"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
)

var bg = context.Background()

func u32le(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }

// script is what item i pays to.
func script(i byte) []byte { return []byte{0x51, i} }

// blk is a block: the items its transactions pay to, and what its filter claims.
type blk struct {
	hash  chainhash.Hash
	b     *block.Block
	pays  []byte
	items [][]byte
	noSvc bool // the block service does not have it (yet)
}

// world is a chain with its header and filter stores and a block service, all of which may fail.
type world struct {
	repository.BlockHeaderRepository
	repository.FilterRepository
	mu      sync.Mutex
	blocks  []*blk
	prev    [32]byte
	txs     uint32
	call    int
	faultAt map[int]bool
	n       byte // watched items
	base    uint32 // height of the first block
}

var errDown = errors.New("connection refused")

func (w *world) fault() bool {
	rt.Jitter()
	w.mu.Lock()
	defer w.mu.Unlock()
	w.call++
	return w.faultAt[w.call]
}

func (w *world) ChainTip(c context.Context) (*block.Header, error) {
	if w.fault() {
		return nil, errDown
	}
	return w.BlockHeaderRepository.ChainTip(c)
}

func (w *world) GetBlockHashByHeight(c context.Context, h uint32) (*chainhash.Hash, error) {
	if w.fault() {
		return nil, errDown
	}
	return w.BlockHeaderRepository.GetBlockHashByHeight(c, h)
}

func (w *world) GetFilter(c context.Context, k repository.FilterKey) (*repository.FilterEntry, error) {
	if w.fault() {
		return nil, errDown
	}
	return w.FilterRepository.GetFilter(c, k)
}

func (w *world) GetBlock(h *chainhash.Hash) (*block.Block, error) {
	if w.fault() {
		return nil, errDown
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, b := range w.blocks {
		if b.hash == *h && !b.noSvc {
			return b.b, nil
		}
	}
	return nil, blockservice.ErrorBlockNotFound
}

func newWorld(n byte) *world {
	return &world{n: n, BlockHeaderRepository: inmemory.NewHeaderInmemory(), FilterRepository: inmemory.NewFilterInmemory(), faultAt: map[int]bool{}}
}

// prepare makes the next block; its transactions pay to the given items (any other byte is no watched item).
func (w *world) prepare(pays ...byte) *blk {
	h := w.base + uint32(len(w.blocks))
	var raw []byte
	for _, b := range [][]byte{u32le(0x20000000), w.prev[:], make([]byte, 32), u32le(1000 + h), u32le(h), {1, 0x51, 1, 0x52}} {
		raw = append(raw, b...)
	}
	hd, err := block.DeserializeHeader(bytes.NewBuffer(raw))
	if err != nil {
		panic(err)
	}
	hash, err := hd.Hash()
	if err != nil {
		panic(err)
	}
	b := &blk{hash: hash, pays: pays}
	var txs []*transaction.Transaction
	for _, p := range pays {
		w.txs++
		t := transaction.NewTx(2)
		t.Locktime = w.txs
		t.Outputs = []*transaction.TxOutput{{Script: []byte{0x6a}}, {Script: script(p)}}
		txs = append(txs, t)
		for i := byte(0); i < w.n; i++ {
			if p == i {
				b.items = append(b.items, script(i))
			}
		}
	}
	b.items = append(b.items, script(0xee)) // another output
	b.b = &block.Block{Header: hd, TransactionsData: &block.Transactions{Transactions: txs}}
	w.mu.Lock()
	w.blocks = append(w.blocks, b)
	w.mu.Unlock()
	w.prev = hash
	return b
}

// filter stores the filter of a block.
func (w *world) filter(b *blk) {
	key := builder.DeriveKey(&b.hash)
	f, err := gcs.BuildGCSFilter(builder.DefaultP, builder.DefaultM, key, b.items)
	if err != nil {
		panic(err)
	}
	e, err := repository.NewFilterEntry(repository.FilterKey{BlockHash: b.hash.CloneBytes(), FilterType: repository.RegularFilter}, f)
	if err != nil {
		panic(err)
	}
	if w.FilterRepository.PutFilter(bg, e) != nil {
		panic("put filter")
	}
}

// header stores the header of a block.
func (w *world) header(b *blk) {
	if b.b.Header.Height == 0 { // the genesis header is never stored
		return
	}
	if w.WriteHeaders(bg, *b.b.Header) != nil {
		panic("write headers")
	}
}

func (w *world) add(b *blk) { w.filter(b); w.header(b) }

func (w *world) scanner() scanner.Service {
	return scanner.New(w, w, w, &w.blocks[0].hash)
}

// anyPays is an arbitrary watched item or none of them.
func (w *world) anyPays() byte {
	p := rt.U8("pays")
	for i := byte(0); i < w.n; i++ {
		if p == i {
			return i
		}
	}
	return p
}

// falsePositive may add an item to a filter whose block does not pay to it.
func (b *blk) falsePositive(i byte) {
	for _, p := range b.pays {
		if p == i {
			return
		}
	}
	if rt.Choose("false positive", 2) == 1 {
		b.items = append(b.items, script(i))
	}
}

func watchItem(i byte) scanner.WatchItem {
	return &item{script(i)}
}

// item is the harness' own watch item: the scanner must work with any.
type item struct{ s []byte }

func (i *item) Bytes() []byte                { return i.s }
func (i *item) EventType() scanner.EventType { return scanner.UnspentUtxo }
func (i *item) Match(tx *transaction.Transaction) bool {
	for _, o := range tx.Outputs {
		if bytes.Equal(o.Script, i.s) {
			return true
		}
	}
	return false
}

// req is a request and its client.
type req struct {
	id         uuid.UUID
	item       byte
	start      uint32
	persistent bool
}

func (r req) watch(s scanner.Service) {
	o := []scanner.ScanRequestOption{scanner.WithRequestID(r.id), scanner.WithStartBlock(r.start), scanner.WithWatchItem(watchItem(r.item))}
	if r.persistent {
		o = append(o, scanner.WithPersistentWatch())
	}
	s.Watch(o...)
}

func client(i byte) uuid.UUID { return uuid.UUID{15: i} }

// want lists the transactions to report for r, as pairs of height and transaction.
func (w *world) want(r req, upto int) [][2]uint32 {
	var out [][2]uint32
	for h, b := range w.blocks[:upto] {
		if uint32(h) < r.start {
			continue
		}
		n := len(out)
		for i, p := range b.pays {
			if p == r.item {
				out = append(out, [2]uint32{uint32(h), b.b.TransactionsData.Transactions[i].Locktime})
			}
		}
		if len(out) > n && !r.persistent {
			break
		}
	}
	return out
}

// reader collects reports.
type reader struct {
	mu  sync.Mutex
	got []scanner.Report
}

func (r *reader) read(ch <-chan scanner.Report) {
	for rep := range ch {
		r.mu.Lock()
		r.got = append(r.got, rep)
		r.mu.Unlock()
	}
}

func (r *reader) of(w *world, q req) [][2]uint32 {
	r.mu.Lock()
	defer r.mu.Unlock()
	var out [][2]uint32
	for _, rep := range r.got {
		if rep.Request == nil || rep.Transaction == nil || rep.BlockHash == nil {
			rt.Assert(false, "a report is incomplete")
			continue
		}
		if rep.Request.ClientID != q.id {
			continue
		}
		rt.Assert(bytes.Equal(rep.Request.Item.Bytes(), script(q.item)) && rep.Request.IsPersistent == q.persistent, "a report is for another request")
		rt.Assert(int(rep.BlockHeight) < len(w.blocks) && w.blocks[rep.BlockHeight].hash == *rep.BlockHash, "a report's block hash and height do not match")
		out = append(out, [2]uint32{rep.BlockHeight, rep.Transaction.Locktime})
	}
	return out
}

func (r *reader) check(w *world, q req, upto int) {
	got, want := r.of(w, q), w.want(q, upto)
	for i := range want {
		rt.Assert(i < len(got), "an occurrence of a watched item is not reported")
		rt.Assert(got[i] == want[i], "a report out of order, duplicated or for the wrong transaction")
	}
	rt.Assert(len(got) == len(want), "a report without an occurrence, or a second one")
}

// settle lets several scans happen.
func settle() {
	time.Sleep(4 * time.Second)
	rt.Quiesce()
}

// One request over every chain content: exactly the right transactions are reported.
//
//verif:harness prop=N01 faketime
func OneRequest() {
	w := newWorld(1)
	n := rt.Param("blocks", 3, 4)
	for h := 0; h < n; h++ {
		b := w.prepare(w.anyPays(), w.anyPays())
		b.falsePositive(0)
	}
	early := 1 + rt.Choose("early", n)
	for h := 0; h < early; h++ {
		w.add(w.blocks[h])
	}
	q := req{client(1), 0, uint32(rt.Choose("start", n+1)), rt.Choose("persistent", 2) == 1}
	s := w.scanner()
	r := &reader{}
	ch, err := s.Start()
	rt.Assert(err == nil, "the scanner does not start")
	go r.read(ch)
	q.watch(s)
	settle()
	seen := early
	if early == 1 { // without any header, the chain has no tip
		seen = 0
	}
	r.check(w, q, seen)
	for h := early; h < n; h++ {
		w.add(w.blocks[h])
	}
	settle()
	if n > 1 {
		r.check(w, q, n)
	}
}

// Two requests of different clients, the second at any moment: neither affects the other.
//
//verif:harness prop=N01 faketime
func TwoRequests() {
	w := newWorld(2)
	n := rt.Param("blocks", 2, 3)
	for h := 0; h < n; h++ {
		w.prepare(w.anyPays(), w.anyPays())
	}
	early := 1 + rt.Choose("early", n)
	for h := 0; h < early; h++ {
		w.add(w.blocks[h])
	}
	q1 := req{client(1), 0, uint32(rt.Choose("start", n+1)), rt.Choose("persistent", 2) == 1}
	q2 := req{client(2), byte(rt.Choose("item", 2)), uint32(rt.Choose("start", n+1)), rt.Choose("persistent", 2) == 1}
	s := w.scanner()
	r := &reader{}
	when := rt.Choose("when", 3)
	q1.watch(s)
	if when == 0 {
		q2.watch(s)
	}
	ch, err := s.Start()
	rt.Assert(err == nil, "the scanner does not start")
	go r.read(ch)
	if when == 1 {
		settle()
		q2.watch(s)
	}
	settle()
	for h := early; h < n; h++ {
		w.add(w.blocks[h])
	}
	settle()
	if when == 2 {
		q2.watch(s)
		settle()
	}
	if n > 1 {
		r.check(w, q1, n)
		r.check(w, q2, n)
	}
}

// A filter or a block that becomes available later is still scanned.
//
//verif:harness prop=N01 faketime
func LateFilterOrBlock() {
	w := newWorld(1)
	for h := 0; h < 3; h++ {
		w.prepare(w.anyPays())
	}
	late := 1 + rt.Choose("late", 2)
	kind := rt.Choose("kind", 2)
	for h, b := range w.blocks {
		if h != late || kind == 1 {
			w.filter(b)
		}
		b.noSvc = h == late && kind == 1
		w.header(b)
	}
	q := req{client(1), 0, 1, rt.Choose("persistent", 2) == 1}
	s := w.scanner()
	r := &reader{}
	ch, _ := s.Start()
	go r.read(ch)
	q.watch(s)
	settle()
	w.mu.Lock()
	w.blocks[late].noSvc = false
	w.mu.Unlock()
	if kind == 0 {
		w.filter(w.blocks[late])
	}
	settle()
	// a later block that matched first ends or moves the request
	passed := late == 1 && w.blocks[1].pays[0] == 0 && w.blocks[2].pays[0] == 0
	rt.Known("scan-passes-unavailable-filter", passed && kind == 0)
	rt.Known("scan-passes-unavailable-block", passed && kind == 1)
	r.check(w, q, 3)
}

// Failures of the stores or the block service delay reports but neither lose nor repeat any.
//
//verif:harness prop=N02 faketime
func Failures() {
	w := newWorld(1)
	n := rt.Param("blocks", 3, 3)
	for h := 0; h < n; h++ {
		b := w.prepare(w.anyPays(), w.anyPays())
		b.falsePositive(0)
	}
	for h := 0; h < n; h++ {
		w.add(w.blocks[h])
	}
	first := rt.Choose("failure", rt.Param("calls", 14, 20))
	w.faultAt[1+first] = true
	w.faultAt[2+first+rt.Choose("second", rt.Param("later", 4, 8))] = true
	q := req{client(1), 0, uint32(rt.Choose("start", n)), rt.Choose("persistent", 2) == 1}
	s := w.scanner()
	r := &reader{}
	ch, err := s.Start()
	rt.Assert(err == nil, "the scanner does not start")
	go r.read(ch)
	q.watch(s)
	settle()
	settle()
	r.check(w, q, n)
}

// The same for two requests.
//
//verif:harness prop=N02 faketime
func FailuresOfTwo() {
	w := newWorld(2)
	n := 3
	for h := 0; h < n; h++ {
		w.prepare(w.anyPays())
	}
	for h := 0; h < n; h++ {
		w.add(w.blocks[h])
	}
	w.faultAt[1+rt.Choose("failure", rt.Param("calls", 14, 20))] = true
	q1 := req{client(1), 0, uint32(rt.Choose("start", n)), rt.Choose("persistent", 2) == 1}
	q2 := req{client(2), byte(rt.Choose("item", 2)), uint32(rt.Choose("start", n)), rt.Choose("persistent", 2) == 1}
	s := w.scanner()
	r := &reader{}
	q1.watch(s)
	q2.watch(s)
	ch, err := s.Start()
	rt.Assert(err == nil, "the scanner does not start")
	go r.read(ch)
	settle()
	settle()
	r.check(w, q1, n)
	r.check(w, q2, n)
}

// Requests, new blocks and the reader at the same time, under every schedule.
//
//verif:harness prop=N03 faketime
func Concurrent() {
	rt.Race(true)
	w := newWorld(1)
	w.prepare(0)
	w.prepare(0, byte(9*rt.Choose("second pays", 2)))
	w.prepare(0, 0)
	w.add(w.blocks[0])
	w.add(w.blocks[1])
	q1 := req{client(1), 0, 1, rt.Choose("persistent", 2) == 1}
	q2 := req{client(2), 0, uint32(rt.Choose("start", 3)), rt.Choose("persistent", 2) == 1}
	s := w.scanner()
	r := &reader{}
	rt.Explore(rt.Param("delays", 1, 2))
	ch, err := s.Start()
	rt.Assert(err == nil, "the scanner does not start")
	_, err = s.Start()
	rt.Assert(err != nil, "the scanner starts twice")
	go r.read(ch)
	go q1.watch(s)
	q2.watch(s)
	go w.add(w.blocks[2])
	settle()
	rt.StopExplore()
	settle()
	r.check(w, q1, 3)
	r.check(w, q2, 3)
}

// Stop ends the scanner at any moment, and a scanner started again loses nothing.
//
//verif:harness prop=N03 faketime
func StopAndRestart() {
	rt.Race(true)
	w := newWorld(1)
	w.prepare(0)
	w.prepare(0, byte(9*rt.Choose("second pays", 2)))
	w.prepare(0, 0)
	w.add(w.blocks[0])
	w.add(w.blocks[1])
	q := req{client(1), 0, uint32(rt.Choose("start", 2)), rt.Choose("persistent", 2) == 1}
	s := w.scanner()
	s.Stop() // not started
	r := &reader{}
	before := rt.Goroutines()
	rt.Explore(rt.Param("delays", 1, 2))
	ch, err := s.Start()
	rt.Assert(err == nil, "the scanner does not start")
	reads := rt.Choose("reads", 4) // the reader leaves after so many reports
	done := make(chan bool, 1)
	go func() {
		for i := 0; i < reads; i++ {
			select {
			case rep := <-ch:
				r.mu.Lock()
				r.got = append(r.got, rep)
				r.mu.Unlock()
			case <-time.After(10 * time.Second):
			}
		}
		done <- true
	}()
	q.watch(s)
	switch rt.Choose("moment", 3) {
	case 1:
		rt.Quiesce()
	case 2:
		time.Sleep(2 * time.Second)
	}
	stopped := make(chan bool, 2)
	go func() { s.Stop(); stopped <- true }()
	go func() { s.Stop(); stopped <- true }()
	rt.Quiesce()
	rt.Assert(len(stopped) == 2, "Stop does not return")
	w.add(w.blocks[2])
	rt.StopExplore()
	time.Sleep(60 * time.Second)
	rt.Quiesce()
	rt.Assert(len(done) == 1, "the reader is not done")
	rt.Assert(rt.Ended(before), "a stopped scanner leaves goroutines")
	n := len(r.got)
	ch, err = s.Start()
	rt.Assert(err == nil, "a stopped scanner does not start again")
	go r.read(ch)
	settle()
	s.Stop()
	got, want := r.of(w, q), w.want(q, 3)
	// what was read before Stop may be reported again if its block was not reported completely
	for i, x := range want {
		seen := 0
		for _, g := range got {
			if g == x {
				seen++
			}
		}
		rt.Assert(seen > 0, "a report is lost when the scanner stops")
		rt.Assert(seen <= 1+n, "a report is repeated")
		if i == len(want)-1 || want[i+1][0] != x[0] {
			rt.Assert(seen == 1, "a report of a completely reported block is repeated")
		}
	}
	for _, g := range got {
		ok := false
		for _, x := range want {
			ok = ok || g == x
		}
		rt.Assert(ok, "a report without an occurrence")
	}
}

// hash32 is an arbitrary transaction hash (a few arbitrary bytes at either end).
func hash32(name string) []byte {
	b := rt.Bytes(name, 4)
	h := make([]byte, 32)
	copy(h, b[:2])
	copy(h[30:], b[2:])
	return h
}

// A spent-output watch matches exactly the transactions with the outpoint among their inputs.
//
//verif:harness prop=N04
func SpentItem() {
	hash, index := hash32("hash"), rt.U32("index")
	prevout := rt.Bytes("prevout", rt.Choose("len", 3))
	it, err := scanner.NewSpentWatchItemFromInput(&transaction.TxInput{Hash: hash, Index: index}, prevout)
	rt.Assert(err == nil, "an input cannot be watched")
	rt.Assert(rt.BytesEq(it.Bytes(), prevout), "the filters are not searched for the spent script")
	rt.Assert(it.EventType() == scanner.SpentUtxo, "another event type is reported")
	tx := transaction.NewTx(2)
	want := false
	for i := rt.Choose("inputs", rt.Param("inputs", 3, 4)); i > 0; i-- {
		in := &transaction.TxInput{Hash: hash32("in"), Index: rt.U32("in index"), Script: rt.Bytes("sig", 1), Sequence: rt.U32("seq"), IsPegin: rt.Bool("pegin")}
		switch rt.Choose("input", 3) {
		case 1: // it issues an asset
			in.Issuance = &transaction.TxIssuance{AssetBlindingNonce: make([]byte, 32), AssetEntropy: rt.Bytes("entropy", 32), AssetAmount: append([]byte{1}, make([]byte, 8)...), TokenAmount: []byte{0}}
		case 2: // it spends nothing known
			in.Hash = in.Hash[:31]
		}
		want = rt.Or(want, rt.And(len(in.Hash) == 32 && rt.BytesEq(in.Hash, hash), in.Index == index))
		tx.Inputs = append(tx.Inputs, in)
	}
	tx.Outputs = []*transaction.TxOutput{{Script: prevout}}
	tx.Locktime = index
	rt.Assert(it.Match(tx) == want, "a watched output is not recognised when spent, or another one is")
	rt.Assert(rt.BytesEq(it.Bytes(), prevout), "matching changes the item")
	_, err = scanner.NewSpentWatchItemFromInput(&transaction.TxInput{Hash: hash[:rt.Choose("short", 32)], Index: index}, prevout)
	rt.Assert(err != nil, "an input without a full hash is accepted")
}

// A script watch matches exactly the transactions with an output paying to it.
//
//verif:harness prop=N04
func UnspentItem() {
	a := addrs[rt.Choose("address", len(addrs))]
	it, err := scanner.NewUnspentWatchItemFromAddress(a.addr)
	rt.Assert(err == nil, "an address cannot be watched")
	rt.Assert(hex.EncodeToString(it.Bytes()) == a.script, "the filters are not searched for the address' script")
	rt.Assert(it.EventType() == scanner.UnspentUtxo, "another event type is reported")
	sc, _ := hex.DecodeString(a.script)
	tx := transaction.NewTx(2)
	want := false
	conf := rt.Choose("confidential", 2) == 1
	for i := rt.Choose("outputs", rt.Param("outputs", 3, 4)); i > 0; i-- {
		s := rt.Bytes("out", len(sc)-1+rt.Choose("len", 3))
		want = rt.Or(want, rt.BytesEq(s, sc))
		out := &transaction.TxOutput{Asset: rt.Bytes("asset", 2), Script: s}
		if conf {
			out.Value = append([]byte{8}, make([]byte, 32)...)
			out.Nonce = append([]byte{2}, make([]byte, 32)...)
			out.RangeProof, out.SurjectionProof = []byte{1}, []byte{2}
		}
		tx.Outputs = append(tx.Outputs, out)
	}
	tx.Inputs = []*transaction.TxInput{{Hash: hash32("in"), Script: sc}}
	rt.Assert(it.Match(tx) == want, "a payment to a watched address is not recognised, or another one is")
	if len(tx.Outputs) > 0 {
		return
	}
	bad := []byte(a.addr)
	i := rt.Choose("at", len(bad))
	bad[i] ^= 1
	_, err = scanner.NewUnspentWatchItemFromAddress(string(bad))
	rt.Assert(err != nil, "a mistyped address is watched")
}

// The same with many inputs and outputs.
//
//verif:harness prop=N04
func LargeTransaction() {
	a := addrs[0]
	sc, _ := hex.DecodeString(a.script)
	hash := make([]byte, 32)
	hash[0] = 9
	pays, err := scanner.NewUnspentWatchItemFromAddress(a.addr)
	rt.Assert(err == nil, "an address cannot be watched")
	spends, err := scanner.NewSpentWatchItemFromInput(&transaction.TxInput{Hash: hash, Index: 300}, sc)
	rt.Assert(err == nil, "an input cannot be watched")
	n := []int{2, 252, 253, 256, 257, 1000}[rt.Choose("size", 6)]
	at := []int{0, 1, n / 2, n - 1, n}[rt.Choose("at", 5)]
	tx := transaction.NewTx(2)
	x := rt.U8("x")
	for i := 0; i < n; i++ {
		in := &transaction.TxInput{Hash: hash, Index: uint32(i) + 301}
		out := &transaction.TxOutput{Script: append([]byte(nil), sc...)}
		out.Script[3] ^= 1
		if i == at {
			in.Index = 300 + uint32(x)<<24
			out.Script[3] ^= 1 ^ x
		}
		tx.Inputs = append(tx.Inputs, in)
		tx.Outputs = append(tx.Outputs, out)
	}
	want := rt.And(at < n, x == 0)
	rt.Assert(pays.Match(tx) == want, "a payment to a watched address is not recognised, or another one is")
	rt.Assert(spends.Match(tx) == want, "a watched output is not recognised when spent, or another one is")
}

// addrs are addresses of every kind and network with their scripts.
var addrs = []struct{ addr, script string }{
	{"2dnTicaj6kay4FAV1N9qNDNawYehaxpifkP", "76a9148ef8fc50fb033c373a2ec7f7a1e2d91f98f8c02488ac"},
	{"AzppxC5RDs8yB8mabhwS13y4WbsWoS41fLV8GKM4woLUJB5RxNBVfK6wdVX4QVoubRXFKKfbPhEKKTKc", "a9142b919bfc040faed8de5469dfa0241a3c1e5681be87"},
	{"CTEvndySQ8VCBNmc7LGcGVm43eTqwWdCzFTSD7bjd4bJs7ti181aQnwADXXCzJPbANkSEpeVq19yck8N", "76a9148ef8fc50fb033c373a2ec7f7a1e2d91f98f8c02488ac"},
	{"H5RCjtzndKyzFnVe41yg62T3WViWguyz4M", "a914f3e90366909f3a1953af8131c81a023031a9f20f87"},
	{"el1qq0mjw2fwsc20vr4q2ypq9w7dslg6436zaahl083qehyghv7td3wnaawhrpxphtjlh4xjwm6mu29tp9uczkl8cxfyatqc3vgms", "0014f5d7184c1bae5fbd4d276f5be28ab0979815be7c"},
	{"el1qqw3e3mk4ng3ks43mh54udznuekaadh9lgwef3mwgzrfzakmdwcvqqve2xzutyaf7vjcap67f28q90uxec2ve95g3rpu5crapcmfr2l9xl5jzazvcpysz", "0020332a30b8b2753e64b1d0ebc951c057f0d9c29992d11118794c0fa1c6d2357ca6"},
	{"ert1q2z45rh444qmeand48lq0wp3jatxs2nzh492ds9s5yscv2pplxwesajz7q3", "002050ab41deb5a8379ecdb53fc0f70632eacd054c57a954d816142430c5043f33b3"},
	{"ert1qlg343tpldc4wvjxn3jdq2qs35r8j5yd5kjfrrt", "0014fa2358ac3f6e2ae648d38c9a050211a0cf2a11b4"},
	{"ex1qlg343tpldc4wvjxn3jdq2qs35r8j5yd5vqrmu3", "0014fa2358ac3f6e2ae648d38c9a050211a0cf2a11b4"},
	{"lq1qqwrdmhm69vsq3qfym06tlyhfze9ltauay9tv4r34ueplfwtjx0q27dk2c4d3a9ms6wum04efclqph7dg4unwcmwmw4vnqreq3", "001436cac55b1e9770d3b9b7d729c7c01bf9a8af26ec"},
	{"ert1pe7jrwydymxklj8gq405t6ujjqjwvwreml5695nlhqzq7ekrs8f9sclaudg", "5120cfa43711a4d9adf91d00abe8bd7252049cc70f3bfd345a4ff70081ecd8703a4b"},
	{"el1pqganzlzf78m05czqv9he0pl9gyryvvqxnr6fdk8rj9u40arvcepvanayxug6fkddlywsp2lgh4e9ypyucu8nhlf5tf8lwqypanv8qwjtr8cgsld44ygt", "5120cfa43711a4d9adf91d00abe8bd7252049cc70f3bfd345a4ff70081ecd8703a4b"},
}

// A registered descriptor reports every payment to each of its scripts from the start block on.
//
//verif:harness prop=N05 faketime budget=120s
func Descriptor() {
	w := newWorld(0)
	n := 3
	for h := 0; h < n; h++ {
		w.prepare(byte(100 + h))
	}
	current = rt.Choose("descriptor", len(descs))
	d := descs[current]
	want := [][2]uint32{}
	start := rt.Choose("start", n)
	for h, b := range w.blocks {
		if h == 1 && rt.Choose("unrelated block", 2) == 1 {
			continue
		}
		sc := unhex(d.scripts[(h+rt.Choose("script", len(d.scripts)))%len(d.scripts)])
		b.b.TransactionsData.Transactions[0].Outputs[1].Script = sc
		b.items = append(b.items, sc)
		if h >= start {
			want = append(want, [2]uint32{uint32(h), b.b.TransactionsData.Transactions[0].Locktime})
		}
	}
	w.add(w.blocks[0])
	w.add(w.blocks[1])
	s := w.scanner()
	r := &reader{}
	ch, _ := s.Start()
	go r.read(ch)
	events := []scanner.EventType{scanner.UnspentUtxo}
	switch rt.Choose("events", 3) {
	case 1:
		events = []scanner.EventType{scanner.SpentUtxo, scanner.UnspentUtxo}
	case 2:
		events = []scanner.EventType{scanner.UnspentUtxo, scanner.SpentUtxo}
	}
	err := s.WatchDescriptorWallet(client(7), d.desc, events, start)
	rt.Assert(err == nil, "a descriptor cannot be watched")
	settle()
	w.add(w.blocks[2])
	settle()
	rt.Assert(len(r.got) == len(want), "a payment to a descriptor is not reported once")
	for i, rep := range r.got {
		rt.Assert(rep.Request.ClientID == client(7) && rep.Request.IsPersistent, "a descriptor's report is for another client")
		rt.Assert(rep.BlockHeight == want[i][0] && rep.Transaction.Locktime == want[i][1], "another transaction is reported")
		rt.Assert(rep.Request.Item.EventType() == scanner.UnspentUtxo, "another event type is reported")
	}
}

// A descriptor that cannot be watched is answered with an error and changes nothing.
//
//verif:harness prop=N05 faketime
func BadDescriptor() {
	var desc string
	switch k := rt.Choose("kind", 12); k {
	case 0, 1, 2, 3: // every short key expression over the separators
		parts := []string{"", "]", "[", "/", "*", "0", "xpub", " "}
		var e string
		for i := 0; i < rt.Param("parts", 3, 4); i++ {
			e += parts[rt.Choose("part", len(parts))]
		}
		desc = []string{"elwpkh(" + e + ")", e, "elwpkh(" + xpub + e + "x)", "elwpkh([00000000" + e + ")"}[k]
	default:
		desc = []string{"elsh(" + xpub + ")", "elwsh(a)", "elpk(a)", "elpkh(a)", "elcombo(a)", "elmulti(a)", "eltr(a)", "elraw(a)"}[k-4]
	}
	w := newWorld(2)
	w.prepare(1)
	w.prepare()
	w.add(w.blocks[0])
	w.add(w.blocks[1])
	s := w.scanner()
	r := &reader{}
	ch, _ := s.Start()
	go r.read(ch)
	var err error
	msg := rt.Protect(func() {
		err = s.WatchDescriptorWallet(client(7), desc, []scanner.EventType{scanner.UnspentUtxo}, 0)
	})
	rt.Assert(msg == "", "a malformed descriptor crashes")
	rt.Assert(err != nil, "a malformed descriptor is accepted")
	q := req{client(1), 1, 0, false}
	q.watch(s)
	settle()
	r.check(w, q, 1)
}

// Heights of any size: scans start, continue and report at the exact height.
//
//verif:harness prop=N01 faketime
func HighRequests() {
	w, start, s, r := high()
	w.n = 2
	s.Watch(scanner.WithRequestID(client(1)), scanner.WithStartBlock(start), scanner.WithWatchItem(watchItem(0)))
	s.Watch(scanner.WithRequestID(client(2)), scanner.WithStartBlock(start), scanner.WithWatchItem(watchItem(0)), scanner.WithPersistentWatch())
	s.Watch(scanner.WithRequestID(client(3)), scanner.WithStartBlock(start+1), scanner.WithWatchItem(watchItem(0)))
	settle()
	w.add(w.blocks[3])
	settle()
	w.checkHigh(r, client(1), start, 1)
	w.checkHigh(r, client(2), start, 4)
	w.checkHigh(r, client(3), start+1, 1)
}

// The same for the scripts of a descriptor.
//
//verif:harness prop=N05 faketime
func HighDescriptor() {
	w, start, s, r := high()
	current = rt.Choose("descriptor", len(descs))
	d := descs[current]
	for i, b := range w.blocks {
		sc := unhex(d.scripts[i%len(d.scripts)])
		b.b.TransactionsData.Transactions[0].Outputs[1].Script = sc
		b.items = append(b.items, sc)
	}
	for _, b := range w.blocks[:3] {
		w.filter(b)
	}
	rt.Assert(s.WatchDescriptorWallet(client(7), d.desc, []scanner.EventType{scanner.UnspentUtxo}, int(start)) == nil, "a descriptor cannot be watched")
	settle()
	w.add(w.blocks[3])
	settle()
	w.checkHigh(r, client(7), start, 4)
}

// high is a chain of four blocks at some height, each paying to item 0; the last is not known yet.
func high() (*world, uint32, scanner.Service, *reader) {
	w := newWorld(1)
	w.base = []uint32{253, 65534, 1<<24 - 1, 1<<31 - 2, 1<<32 - 5}[rt.Choose("base", 5)]
	for i := 0; i < 4; i++ {
		w.prepare(0)
	}
	for _, b := range w.blocks[:3] {
		w.add(b)
	}
	start := w.base + uint32(rt.Choose("start", 4))
	s := w.scanner()
	r := &reader{}
	ch, err := s.Start()
	rt.Assert(err == nil, "the scanner does not start")
	go r.read(ch)
	return w, start, s, r
}

// checkHigh checks that a client got the blocks from a height on, at most so many.
func (w *world) checkHigh(r *reader, id uuid.UUID, from uint32, most int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	var got []scanner.Report
	for _, rep := range r.got {
		if rep.Request.ClientID == id {
			got = append(got, rep)
		}
	}
	want := int(w.base) + len(w.blocks) - int(from)
	if want > most {
		want = most
	}
	rt.Assert(len(got) == want, "an occurrence at a large height is not reported once")
	for i, rep := range got {
		at := int(from-w.base) + i
		rt.Assert(rep.BlockHeight == from+uint32(i) && *rep.BlockHash == w.blocks[at].hash, "a report has another height or block")
		rt.Assert(rep.Transaction.Locktime == w.blocks[at].b.TransactionsData.Transactions[0].Locktime, "another transaction is reported")
	}
}
