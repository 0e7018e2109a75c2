#!/usr/bin/env python3
"""Definitions of the planted bugs under /verif/seeded; `python3 tools/seeds.py [NAME...]` (re)makes them."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import make
SEEDS = {}
def seed(name, **kw): SEEDS[name] = kw

NODE = 'package zzdemo\n\nimport (\n\t"testing"\n\t"time"\n)\n\n'

seed("S01-overlap-drops-first", prop="S01",
 needs="a headers message that starts at or below the stored tip and continues it",
 breaks="the first new header of an overlapping batch is dropped, so the rest does not link and nothing of the batch is stored",
 edits=[("pkg/node/cmd_headers.go", "\t\t\tif header.Height > tip.Height {\n", "\t\t\tif header.Height-tip.Height > 1 {\n")],
 test=NODE + '''func TestDemo(t *testing.T) {
	c := &chain{}
	c.extend(3, 1)
	n, hdrs, _ := newNode(t, c)
	start(t, n)
	p := join(t, n, "10.0.0.1:1", 5)
	c.extend(2, 1)
	p.in <- headersMsg(c.raw[2], c.raw[3], c.raw[4])
	if !wait(2*time.Second, func() bool { return tipHeight(hdrs) == 5 }) {
		t.Fatalf("tip %d, want 5", tipHeight(hdrs))
	}
	h, _ := hdrs.GetBlockHeader(bg, c.hashes[4])
	if h == nil {
		t.Fatal("header 5 is missing")
	}
	for i := uint32(1); i <= 5; i++ {
		if _, err := hdrs.GetBlockHashByHeight(bg, i); err != nil {
			t.Fatal(i, err)
		}
	}
}
''')

seed("S01-filter-of-known-heights-only", prop="S01",
 needs="a block that extends the tip beyond the height its peer announced at the handshake",
 breaks="the compact filter of a new block is not requested when the peer's announced height is below it",
 edits=[("pkg/node/node.go", "				hash, err := newHeader.Hash()\n				if err != nil {\n					logrus.Error(err)\n					continue\n				}\n\n				getcFilter", "				hash, err := newHeader.Hash()\n				if err != nil || bestPeer.PeersTip() < newHeader.Height {\n					logrus.Errorf(\"no filter for %s: %v\", hash, err)\n					continue\n				}\n\n				getcFilter")],
 test=NODE + '''func TestDemo(t *testing.T) {
	c := &chain{}
	c.extend(3, 1)
	n, hdrs, _ := newNode(t, c)
	start(t, n)
	p := join(t, n, "10.0.0.1:1", 3)
	c.extend(1, 1)
	p.in <- blockMsg(c.raw[3])
	if !wait(2*time.Second, func() bool { return tipHeight(hdrs) == 4 }) {
		t.Fatal("block not stored")
	}
	if !wait(2*time.Second, func() bool { return len(p.sent("getcfilters")) == 1 }) {
		t.Fatal("filter not requested")
	}
}
''')

seed("S02-equal-height-resync", prop="S02",
 needs="a block whose height equals the peer's known tip but is not the next one",
 breaks="a block that changes nothing makes the node ask for headers again",
 edits=[("pkg/node/cmd_block.go", "		if newBlockHeight > p.PeersTip() {\n", "		if newBlockHeight >= p.PeersTip() {\n")],
 test=NODE + '''func TestDemo(t *testing.T) {
	c := &chain{}
	c.extend(6, 1)
	old := &chain{c.hdr[:3], c.hashes[:3], c.raw[:3]}
	n, hdrs, _ := newNode(t, old)
	start(t, n)
	p := join(t, n, "10.0.0.1:1", 6)
	before := len(p.sent("getheaders"))
	p.in <- blockMsg(c.raw[5])
	time.Sleep(300 * time.Millisecond)
	if n := len(p.sent("getheaders")); n != before {
		t.Fatalf("asked for headers %d times, want %d", n, before)
	}
	_ = hdrs
}
''')

seed("S06-ancestors-stop-early", prop="S06",
 needs="a stored chain whose only missing header is the one of height 1",
 breaks="the ancestry check does not look at the last ancestor",
 edits=[("internal/infrastructure/storage/db/inmemory/header_inmemory.go", "	for blockHeader.Height > 1 {\n", "	for blockHeader.Height > 2 {\n")],
 test=NODE.replace('\t"time"\n','') + '''func TestDemo(t *testing.T) {
	c := &chain{}
	c.extend(4, 1)
	_, hdrs, _ := newNode(t, nil)
	for _, h := range c.hdr[1:] {
		if err := hdrs.WriteHeaders(bg, *h); err != nil {
			t.Fatal(err)
		}
	}
	all, err := hdrs.HasAllAncestors(bg, c.hashes[3])
	if err != nil || all {
		t.Fatal("the header at height 1 is missing", all, err)
	}
	hdrs.WriteHeaders(bg, *c.hdr[0])
	if all, err := hdrs.HasAllAncestors(bg, c.hashes[3]); err != nil || !all {
		t.Fatal(all, err)
	}
}
''')

seed("S03-locator-triples", prop="S03",
 needs="a chain of more than ten headers",
 breaks="the steps of the locator triple instead of doubling",
 edits=[("internal/infrastructure/storage/db/inmemory/header_inmemory.go", "		if len(locator) > 10 {\n			decrement *= 2\n", "		if len(locator) > 10 {\n			decrement += decrement * 2\n")],
 test=NODE.replace('\t"time"\n','') + '''func TestDemo(t *testing.T) {
	c := &chain{}
	c.extend(60, 1)
	_, hdrs, _ := newNode(t, c)
	loc, err := hdrs.LatestBlockLocator(bg)
	if err != nil {
		t.Fatal(err)
	}
	var hs []int
	for _, l := range loc {
		h, err := hdrs.GetBlockHeader(bg, *l)
		if err != nil {
			t.Fatal(err)
		}
		hs = append(hs, int(h.Height))
	}
	prev := 0
	for i := 1; i < len(hs); i++ {
		gap := hs[i-1] - hs[i]
		if gap < 0 || (prev > 0 && gap > 2*prev) {
			t.Fatal("gaps more than double", hs)
		}
		if gap > 0 {
			prev = gap
		}
	}
}
''')

seed("C09-limit-off-by-one", prop="C09",
 needs="a getcfilters request over exactly 1001 blocks",
 breaks="a request over more than 1000 blocks is served",
 edits=[("pkg/node/cmd_getcfilters.go", "	if endBlockHeader.Height-getCFilters.StartHeight >= 1000 {", "	if endBlockHeader.Height-getCFilters.StartHeight > 1000 {")],
 test=NODE.replace('"testing"','"testing"') .replace(')\n\n','\n\t"github.com/vulpemventures/neutrino-elements/pkg/repository"\n)\n\n',1) + '''func TestDemo(t *testing.T) {
	c := &chain{}
	c.extend(1001, 1)
	n, _, flts := newNode(t, c)
	for _, h := range c.hashes {
		e := &repository.FilterEntry{Key: repository.FilterKey{BlockHash: h.CloneBytes()}, NBytes: []byte{1, 0x12, 0x34}}
		if err := flts.PutFilter(bg, e); err != nil {
			t.Fatal(err)
		}
	}
	start(t, n)
	p := join(t, n, "10.0.0.1:1", 0)
	p.in <- frame("getcfilters", cat([]byte{0}, u32le(1), c.hashes[1000][:]))
	time.Sleep(time.Second)
	if n := len(p.sent("cfilter")); n != 0 {
		t.Fatal("served", n)
	}
	p.in <- frame("getcfilters", cat([]byte{0}, u32le(2), c.hashes[1000][:]))
	if !wait(10*time.Second, func() bool { return len(p.sent("cfilter")) == 1000 }) {
		t.Fatal("served", len(p.sent("cfilter")))
	}
}
''')

seed("C07-addr-from-peer-service", prop="C07",
 needs="a peer that serves compact filters and further services beside NODE_NETWORK",
 breaks="such a peer is refused although it serves compact filters",
 edits=[("pkg/protocol/msg_version.go", "	return msg.Services&uint64(service) == uint64(service)", "	return msg.Services&^uint64(SFNodeNetwork) == uint64(service)")],
 test=NODE + '''func TestDemo(t *testing.T) {
	n, _, _ := newNode(t, nil)
	start(t, n)
	p := newFake("10.0.0.1:1")
	if err := n.AddOutboundPeer(p); err != nil {
		t.Fatal(err)
	}
	p.in <- version(1|1<<3|1<<6, 0)
	if !wait(2*time.Second, func() bool { return len(p.sent("verack")) == 1 }) {
		t.Fatal("peer refused")
	}
}
''')

seed("C08-getdata-known-types", prop="C08",
 needs="an inv message mixing entries of types above 2 with others",
 breaks="announced entries are dropped from the request and its count is wrong",
 edits=[("pkg/protocol/msg_inv.go", "		inv.Inventory = append(inv.Inventory, v)\n", "		if v.Type <= DataObjectCmpctBlock {\n			inv.Inventory = append(inv.Inventory, v)\n		}\n")],
 test=NODE.replace('import (\n','import (\n\t"bytes"\n') + '''func TestDemo(t *testing.T) {
	n, _, _ := newNode(t, nil)
	start(t, n)
	p := join(t, n, "10.0.0.1:1", 0)
	inv := cat([]byte{2}, u32le(1), make([]byte, 32), u32le(0x40000001), bytes.Repeat([]byte{7}, 32))
	p.in <- frame("inv", inv)
	if !wait(2*time.Second, func() bool { return len(p.sent("getdata")) == 1 }) {
		t.Fatal("no getdata")
	}
	if got := p.sent("getdata")[0]; !bytes.Equal(got, inv) {
		t.Fatalf("requested %x, want %x", got, inv)
	}
}
''')

seed("M01-loop-variable", prop="M01",
 needs="two subscribers when a transaction arrives",
 breaks="the notifying goroutines read the loop variable: the last subscriber is told twice, the others not at all",
 edits=[("pkg/node/mempool.go", "		go func(subscriber txSubscriber) {\n", "		go func() {\n			subscriber := v\n"), ("pkg/node/mempool.go", "		}(v)\n", "		}()\n")],
 test='''package zzdemo

import (
	"bytes"
	"encoding/hex"
	"testing"
	"time"

	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 20; round++ {
		raw, _ := hex.DecodeString("02000000" + "00" + "00" + "00" + "05000000")
		tx, err := transaction.NewTxFromBuffer(bytes.NewBuffer(raw))
		if err != nil {
			t.Fatal(err)
		}
		m := node.NewMemPool()
		m.Start()
		var subs []<-chan node.TxEvent
		for _, id := range []string{"a", "b", "c", "d"} {
			subs = append(subs, m.AddSubscriber(id))
		}
		m.AddTx(protocol.MsgTx{Transaction: *tx})
		for i, s := range subs {
			select {
			case <-s:
			case <-time.After(2 * time.Second):
				t.Fatalf("subscriber %d is not told", i)
			}
		}
		for i, s := range subs {
			select {
			case <-s:
				t.Fatalf("subscriber %d is told twice", i)
			case <-time.After(20 * time.Millisecond):
			}
		}
		m.Stop()
	}
}
''')

seed("C03-locator-count-byte", prop="C03",
 needs="a getheaders message with more than 252 locator hashes",
 breaks="the count of locator hashes is written as one byte",
 edits=[("pkg/protocol/blocklocator.go", "	numberOfHashes := newFromInt(len(locators))\n	// write the len as varint\n	b, err := binary.Marshal(numberOfHashes)", "	// write the len as varint\n	b, err := binary.Marshal(uint8(len(locators)))")],
 node=False,
 test='''package zzdemo

import (
	"testing"

	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

func TestDemo(t *testing.T) {
	locs := make(protocol.BlockLocators, 300)
	b, err := locs.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	if len(b) != 3+300*32 || b[0] != 0xfd || b[1] != 300&0xff || b[2] != 300>>8 {
		t.Fatalf("%d bytes, count %x", len(b), b[:3])
	}
}
''')

seed("S08-put-keeps-first", prop="S08",
 needs="a filter stored twice under one key with different contents",
 breaks="the memory of the first filter is reused, so an entry read before changes under its reader",
 edits=[("internal/infrastructure/storage/db/inmemory/filter_inmemory.go", "	f.filtersByHash[entry.Key.String()] = entry.NBytes\n", "	key := entry.Key.String()\n	f.filtersByHash[key] = append(f.filtersByHash[key][:0], entry.NBytes...)\n")],
 node=True,
 test='''package zzdemo

import (
	"bytes"
	"testing"

	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

func TestDemo(t *testing.T) {
	_, _, flts := newNode(t, nil)
	k := repository.FilterKey{BlockHash: make([]byte, 32)}
	flts.PutFilter(bg, &repository.FilterEntry{Key: k, NBytes: []byte{1, 2, 3, 4}})
	first, err := flts.GetFilter(bg, k)
	if err != nil {
		t.Fatal(err)
	}
	flts.PutFilter(bg, &repository.FilterEntry{Key: k, NBytes: []byte{9, 9, 9}})
	if !bytes.Equal(first.NBytes, []byte{1, 2, 3, 4}) {
		t.Fatal("a filter that was read changed", first.NBytes)
	}
}
''')

seed("C01-two-byte-order", prop="C01",
 needs="a length of 253 to 65535 whose two bytes differ",
 breaks="lengths in the three-byte form are read with their bytes swapped",
 edits=[("pkg/binary/unmarshaler.go", "	if err := binary.Read(lr, binary.LittleEndian, &val); err != nil {\n		return 0, err\n	}\n\n	return val, nil\n", "	if err := binary.Read(lr, binary.BigEndian, &val); err != nil {\n		return 0, err\n	}\n\n	return val, nil\n")],
 node=False,
 test='''package zzdemo

import (
	"bytes"
	"testing"

	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

func TestDemo(t *testing.T) {
	for _, want := range []int{0xFC, 0xFD, 2000, 0xFFFF, 0x12345} {
		v, err := protocol.NewVarint(want)
		if err != nil {
			t.Fatal(err)
		}
		raw, err := binary.Marshal(v)
		if err != nil {
			t.Fatal(err)
		}
		var vi protocol.VarInt
		if err := vi.UnmarshalBinary(bytes.NewReader(raw)); err != nil {
			t.Fatal(err)
		}
		got, err := vi.Int()
		if err != nil || got != want {
			t.Fatal(got, want, err)
		}
	}
}
''')

seed("S09-filter-monitor-ends", prop="S09",
 needs="one failing write of a filter, then further filters",
 breaks="the first filter that cannot be stored ends the goroutine that stores filters",
 edits=[("pkg/node/node.go", "			err = n.filtersDb.PutFilter(context.Background(), entry)\n			if err != nil {\n				logrus.Error(err)\n				continue\n", "			err = n.filtersDb.PutFilter(context.Background(), entry)\n			if err != nil {\n				logrus.Error(err)\n				return\n")],
 test='''package zzdemo

import (
	"context"
	"errors"
	"sync/atomic"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

type flaky struct {
	repository.FilterRepository
	n int32
}

func (f *flaky) PutFilter(x context.Context, e *repository.FilterEntry) error {
	if atomic.AddInt32(&f.n, 1) == 1 {
		return errors.New("busy")
	}
	return f.FilterRepository.PutFilter(x, e)
}

func TestDemo(t *testing.T) {
	c := &chain{}
	c.extend(2, 1)
	flts := &flaky{FilterRepository: inmemory.NewFilterInmemory()}
	n, err := node.New(node.NodeConfig{Network: "regtest", UserAgent: "/t/", FiltersDB: flts, BlockHeadersDB: inmemory.NewHeaderInmemory()})
	if err != nil {
		t.Fatal(err)
	}
	start(t, n)
	p := join(t, n, "10.0.0.1:1", 0)
	for _, h := range c.hashes {
		p.in <- frame("cfilter", cat([]byte{0}, h[:], []byte{3, 1, 0x12, 0x34}))
	}
	if !wait(2*time.Second, func() bool {
		_, err := flts.GetFilter(bg, repository.FilterKey{BlockHash: c.hashes[1].CloneBytes()})
		return err == nil
	}) {
		t.Fatal("a filter received after a failed write is not stored")
	}
}
''')

SCAN = '''package zzdemo

import (
	"bytes"
	"errors"
	"testing"
	"time"

	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
)

type explorer struct {
	blocks map[chainhash.Hash]*block.Block
	fail   int
}

func (e *explorer) GetBlock(h *chainhash.Hash) (*block.Block, error) {
	if e.fail > 0 {
		e.fail--
		return nil, errors.New("momentary failure")
	}
	return e.blocks[*h], nil
}

func watched() (string, []byte) {
	p, err := payment.FromScript(append([]byte{0, 20}, bytes.Repeat([]byte{7}, 20)...), &network.Regtest, nil)
	if err != nil {
		panic(err)
	}
	a, err := p.WitnessPubKeyHash()
	if err != nil {
		panic(err)
	}
	s, err := address.ToOutputScript(a)
	if err != nil {
		panic(err)
	}
	return a, s
}

// scan runs a scan of one block that pays to scripts, one transaction per script.
func scan(t *testing.T, blocks, fail int, item scanner.WatchItem, in []byte, scripts ...[]byte) []scanner.Report {
	c := &chain{}
	c.extend(blocks, 1)
	_, hdrs, flts := newNode(t, c)
	e := &explorer{blocks: map[chainhash.Hash]*block.Block{}, fail: fail}
	for k, h := range c.hashes {
		b := &block.Block{Header: c.hdr[k], TransactionsData: &block.Transactions{}}
		for i, s := range scripts {
			x := transaction.NewTx(2)
			x.Locktime = uint32(k*100 + i)
			x.Outputs = []*transaction.TxOutput{{Script: s}}
			b.TransactionsData.Transactions = append(b.TransactionsData.Transactions, x)
		}
		e.blocks[h] = b
		f, err := gcs.BuildGCSFilter(builder.DefaultP, builder.DefaultM, builder.DeriveKey(&c.hashes[k]), [][]byte{in})
		if err != nil {
			t.Fatal(err)
		}
		entry, err := repository.NewFilterEntry(repository.FilterKey{BlockHash: h.CloneBytes()}, f)
		if err != nil {
			t.Fatal(err)
		}
		flts.PutFilter(bg, entry)
	}
	s := scanner.New(flts, hdrs, e, &chainhash.Hash{})
	ch, err := s.Start()
	if err != nil {
		t.Fatal(err)
	}
	opts := []scanner.ScanRequestOption{scanner.WithStartBlock(1), scanner.WithWatchItem(item)}
	if blocks > 1 {
		opts = append(opts, scanner.WithPersistentWatch())
	}
	s.Watch(opts...)
	var out []scanner.Report
	for {
		select {
		case r := <-ch:
			out = append(out, r)
		case <-time.After(4 * time.Second):
			s.Stop()
			return out
		}
	}
}

'''
seed("N01-one-match-per-block", prop="N01",
 needs="a block with two transactions that pay to a watched address",
 breaks="only the first matching transaction of a block is reported",
 edits=[("pkg/scanner/scanner.go", "			if req.Item.Match(tx) {\n", "			if !reqMatchedAtLeastOneTime && req.Item.Match(tx) {\n")],
 test=SCAN + '''func TestDemo(t *testing.T) {
	a, s := watched()
	item, err := scanner.NewUnspentWatchItemFromAddress(a)
	if err != nil {
		t.Fatal(err)
	}
	if got := scan(t, 1, 0, item, s, s, []byte{0x6a}, s); len(got) != 2 {
		t.Fatalf("%d reports, want 2", len(got))
	}
}
''')

seed("N02-failure-as-missing", prop="N02",
 needs="a momentary failure of the block service during a persistent scan, in a block below another one with a payment",
 breaks="any failure of the block service makes the scan skip the block: the payment is never reported",
 edits=[("pkg/scanner/scanner.go", "		if err == blockservice.ErrorBlockNotFound {\n			return nil, requests, nil // skip requests if block svc is not able to find the block\n		}\n\n		return nil, nil, err\n", "		if err != blockservice.ErrorBlockNotFound {\n			log.Errorf(\"scanner: block %s: %v\", blockHash, err)\n		}\n\n		return nil, requests, nil // skip requests if block svc is not able to find the block\n")],
 test=SCAN + '''func TestDemo(t *testing.T) {
	a, s := watched()
	item, err := scanner.NewUnspentWatchItemFromAddress(a)
	if err != nil {
		t.Fatal(err)
	}
	if got := scan(t, 2, 1, item, s, s); len(got) != 2 {
		t.Fatalf("%d reports, want 2", len(got))
	}
}
''')

seed("N04-script-prefix", prop="N04",
 needs="a block that matches the filter and has an output script that starts with the watched one",
 breaks="an output whose script only starts with the watched script is reported",
 edits=[("pkg/scanner/watchitem.go", "		if bytes.Equal(u.outputScript, txOutput.Script) {\n", "		if bytes.HasPrefix(txOutput.Script, u.outputScript) {\n")],
 test=SCAN + '''func TestDemo(t *testing.T) {
	a, s := watched()
	item, err := scanner.NewUnspentWatchItemFromAddress(a)
	if err != nil {
		t.Fatal(err)
	}
	longer := append(append([]byte(nil), s...), 0x51)
	got := scan(t, 1, 0, item, s, longer, s)
	if len(got) != 1 || got[0].Transaction.Locktime != 1 {
		t.Fatalf("%d reports, want one of the second transaction", len(got))
	}
}
''')

seed("G02-port-base", prop="G02",
 needs="an address whose port is written with a leading zero",
 breaks="a port with a leading zero is read as an octal number",
 edits=[("pkg/protocol/addr.go", "	port, err := strconv.Atoi(portPart)\n", "	port, err := strconv.ParseInt(portPart, 0, 32)\n")],
 node=False,
 test='''package zzdemo

import (
	"testing"

	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

func TestDemo(t *testing.T) {
	for text, want := range map[string]uint16{"127.0.0.1:18886": 18886, "10.1.2.3:07041": 7041, "10.1.2.3:0": 0} {
		a, err := protocol.ParseNodeAddr(text)
		if err != nil || a.Port != want {
			t.Fatal(text, a, err)
		}
	}
	if a, err := protocol.ParseNodeAddr("10.1.2.3:0x50"); err == nil {
		t.Fatal("accepted", a)
	}
}
''')

seed("B01-partial-content", prop="B01",
 needs="an explorer (or a cache before it) that answers 206 or 203",
 breaks="every status from 200 to 299 is taken for a complete block",
 edits=[("pkg/blockservice/service.go", "	if resp.StatusCode != 200 {\n", "	if resp.StatusCode/100 != 2 {\n")],
 node=True,
 test='''package zzdemo

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
)

func TestDemo(t *testing.T) {
	c := &chain{}
	c.extend(1, 1)
	for _, status := range []int{200, 206} {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(status)
			w.Write(append(append([]byte(nil), c.raw[0]...), 0))
		}))
		b, err := blockservice.NewEsploraBlockService(srv.URL).GetBlock(&c.hashes[0])
		srv.Close()
		if (err == nil) != (status == 200) {
			t.Fatal(status, b, err)
		}
	}
}
''')

seed("A01-height-of-request", prop="A01",
 needs="a find in a block above the start height of its request",
 breaks="events carry the start height of the request instead of the block's height",
 edits=[("internal/core/application/notification_service.go", "				BlockHeight:  int(report.BlockHeight),\n", "				BlockHeight:  int(report.Request.StartHeight),\n")],
 node=False,
 test='''package zzdemo

import (
	"testing"
	"time"

	"github.com/google/uuid"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
)

type fakeScanner struct{ ch chan scanner.Report }

func (f *fakeScanner) Start() (<-chan scanner.Report, error)                                 { return f.ch, nil }
func (f *fakeScanner) Stop()                                                                 {}
func (f *fakeScanner) Watch(...scanner.ScanRequestOption)                                    {}
func (f *fakeScanner) WatchDescriptorWallet(uuid.UUID, string, []scanner.EventType, int) error { return nil }

func TestDemo(t *testing.T) {
	f := &fakeScanner{make(chan scanner.Report)}
	n := application.NewNotificationService(f)
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	id := uuid.New()
	if err := n.Subscribe(application.Subscriber{ID: application.SubscriberID(id), BlockHeight: 3, Events: []scanner.EventType{scanner.UnspentUtxo, scanner.SpentUtxo}, WalletDescriptor: "x"}); err != nil {
		t.Fatal(err)
	}
	go func() {
		f.ch <- scanner.Report{Transaction: transaction.NewTx(2), BlockHeight: 8, Request: &scanner.ScanRequest{ClientID: id, StartHeight: 3, Item: &scanner.UnspentWatchItem{}}}
	}()
	select {
	case e := <-n.EventReport():
		if e.BlockHeight != 8 {
			t.Fatal("height", e.BlockHeight)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("no event")
	}
}
''')

seed("W01-events-accumulate", prop="W01",
 needs="a client that registers twice over one websocket",
 breaks="the second registration also asks for the events of the first",
 edits=[("internal/interface/web-socket/handler/ws_handler.go", "msgloop:\n", "	events := make([]scanner.EventType, 0)\nmsgloop:\n"), ("internal/interface/web-socket/handler/ws_handler.go", "		events := make([]scanner.EventType, 0, len(wsMsg.EventTypes))\n", "")],
 node=False,
 test='''package zzdemo

import (
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/gorilla/websocket"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	"github.com/vulpemventures/neutrino-elements/internal/interface/web-socket/handler"
)

type fakeService struct{ subs chan application.Subscriber }

func (f *fakeService) Start() error                                            { return nil }
func (f *fakeService) Stop()                                                   {}
func (f *fakeService) Subscribe(s application.Subscriber) error                { f.subs <- s; return nil }
func (f *fakeService) UnSubscribe(application.Subscriber) error                { return nil }
func (f *fakeService) EventReport() chan application.SubscriberEventReport     { return nil }
func (f *fakeService) ErrorReport() chan application.SubscriberErrorReport     { return nil }

func TestDemo(t *testing.T) {
	f := &fakeService{make(chan application.Subscriber, 9)}
	h := handler.NewDescriptorWalletNotifierHandler(f)
	h.Start()
	srv := httptest.NewServer(http.HandlerFunc(h.HandleSubscriptionRequestWs))
	defer srv.Close()
	c, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(srv.URL, "http"), nil)
	if err != nil {
		t.Fatal(err)
	}
	for _, e := range []string{"unspentUtxo", "spentUtxo"} {
		c.WriteMessage(websocket.TextMessage, []byte(`{"actionType":"register","eventTypes":["`+e+`"],"descriptorWallet":"d","startBlockHeight":1}`))
		if _, _, err := c.ReadMessage(); err != nil {
			t.Fatal(err)
		}
		if s := <-f.subs; len(s.Events) != 1 {
			t.Fatal("registered for", s.Events)
		}
	}
}
''')

seed("K01-state-not-truncated", prop="K01",
 needs="setting a key to a value shorter than the stored one",
 breaks="the state file is overwritten without being truncated, what remains of the old state makes it unreadable",
 edits=[("cmd/neutrino/main.go", "	file, err := os.OpenFile(statePath, os.O_RDONLY|os.O_CREATE, 0644)\n	if err != nil {\n		return err\n	}\n	err = file.Close()\n	if err != nil {\n		return err\n	}\n", "	file, err := os.OpenFile(statePath, os.O_WRONLY|os.O_CREATE, 0644)\n	if err != nil {\n		return err\n	}\n	defer file.Close()\n"),
  ("cmd/neutrino/main.go", "	err = ioutil.WriteFile(statePath, jsonString, 0755)\n	if err != nil {\n", "	if _, err = file.Write(jsonString); err != nil {\n")],
 node=False,
 test='''package zzdemo

import (
	"os"
	"os/exec"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	b := exec.Command("go", "build", "-o", dir+"/cli", "./cmd/neutrino")
	b.Dir = os.Getenv("OLDPWD")
	if out, err := b.CombinedOutput(); err != nil {
		t.Skip(string(out))
	}
	run := func(args ...string) string {
		c := exec.Command(dir+"/cli", args...)
		c.Env = append(os.Environ(), "HOME="+dir)
		out, _ := c.CombinedOutput()
		return string(out)
	}
	run("config", "set", "url", "a-long-host-name.example:8000")
	run("config", "set", "path", "/p")
	run("config", "set", "url", "h:1")
	out := run("config", "print")
	if !strings.Contains(out, "url: h:1") || !strings.Contains(out, "path: /p") {
		t.Fatalf("the configuration is %q", out)
	}
}
''')

seed("S11-unlocked-read", prop="S11",
 needs="a filter that is read while another one is stored",
 breaks="the map of the filters is read after its lock was released",
 edits=[("internal/infrastructure/storage/db/inmemory/filter_inmemory.go", "	f.locker.RLock()\n	defer f.locker.RUnlock()\n\n	filter, ok := f.filtersByHash[key.String()]\n", "	f.locker.RLock()\n	filters := f.filtersByHash\n	f.locker.RUnlock()\n\n	filter, ok := filters[key.String()]\n")],
 test=NODE.replace(')\n\n','\n\t"github.com/vulpemventures/neutrino-elements/pkg/repository"\n)\n\n',1) + '''func TestDemo(t *testing.T) {
	_, _, flts := newNode(t, nil)
	end := time.Now().Add(5 * time.Second)
	key := func(i int) repository.FilterKey {
		return repository.FilterKey{BlockHash: append(make([]byte, 28), byte(i), byte(i>>8), byte(i>>16), 0)}
	}
	for w := 0; w < 4; w++ {
		go func() {
			for i := 0; ; i++ {
				flts.GetFilter(bg, key(i%1000))
			}
		}()
	}
	for i := 0; time.Now().Before(end); i++ {
		flts.PutFilter(bg, &repository.FilterEntry{Key: key(i % 100000), NBytes: []byte{1}})
	}
}
''')

seed("C04-single-read", prop="C04",
 needs="a connection that delivers the four bytes of a number in two reads",
 breaks="a 32-bit number is read with one read, the bytes that did not arrive yet are taken for zero",
 edits=[("pkg/binary/unmarshaler.go", "func (d Decoder) decodeUint32(out *uint32) error {\n	lr := io.LimitReader(d.r, 4)\n\n	if err := binary.Read(lr, binary.LittleEndian, out); err != nil {\n		return err\n	}\n", "func (d Decoder) decodeUint32(out *uint32) error {\n	var b [4]byte\n\n	if _, err := d.r.Read(b[:]); err != nil {\n		return err\n	}\n	*out = binary.LittleEndian.Uint32(b[:])\n")],
 node=False,
 test='''package zzdemo

import (
	"bytes"
	"testing"
	"testing/iotest"

	"github.com/vulpemventures/neutrino-elements/pkg/binary"
)

func TestDemo(t *testing.T) {
	var v uint32
	if err := binary.NewDecoder(iotest.HalfReader(bytes.NewReader([]byte{1, 2, 3, 4}))).Decode(&v); err != nil || v != 0x04030201 {
		t.Fatalf("%x %v", v, err)
	}
	if err := binary.NewDecoder(bytes.NewReader([]byte{1, 2, 3})).Decode(&v); err == nil {
		t.Fatal("a truncated number is read")
	}
}
''')

seed("S04-one-block-early", prop="S04",
 needs="a node whose tip is one block below the height its peer announced",
 breaks="Start returns although the last block of the peer is missing",
 edits=[("pkg/node/chainsync.go", "	if chainTip.Height < p.PeersTip() {\n", "	if chainTip.Height+1 < p.PeersTip() {\n")],
 test='''package zzdemo

import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c := &chain{}
	c.extend(3, 1)
	n, _, _ := newNode(t, &chain{c.hdr[:2], c.hashes[:2], c.raw[:2]})
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	conns := make(chan net.Conn, 1)
	go func() {
		k, err := ln.Accept()
		if err == nil {
			k.Write(version(1|1<<6, 3))
			conns <- k
		}
	}()
	done := make(chan error, 1)
	go func() { done <- n.Start(ln.Addr().String()) }()
	k := <-conns
	select {
	case err := <-done:
		t.Fatal("synced without block 3", err)
	case <-time.After(4 * time.Second):
	}
	k.Write(headersMsg(c.raw[2]))
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(10 * time.Second):
		t.Fatal("not synced")
	}
}
''')

seed("D01-scanner-not-stopped", prop="D01",
 needs="the end of the daemon's context",
 breaks="the scanner keeps running after the daemon's shutdown",
 edits=[("internal/interface/web-socket/server.go", "			descriptorWalletNotifierSvc.Stop()\n			scannerSvc.Stop()\n", "			descriptorWalletNotifierSvc.Stop()\n")],
 test='''package zzdemo

import (
	"context"
	"io"
	"net"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	neutrinodws "github.com/vulpemventures/neutrino-elements/internal/interface/web-socket"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
)

func TestDemo(t *testing.T) {
	c := &chain{}
	c.extend(2, 1)
	hdrs := inmemory.NewHeaderInmemory()
	hdrs.WriteHeaders(bg, *c.hdr[0], *c.hdr[1])
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		k, err := ln.Accept()
		if err == nil {
			k.Write(version(1|1<<6, 2))
			io.Copy(io.Discard, k)
		}
	}()
	s, err := neutrinodws.NewElementsNeutrinoServer(node.NodeConfig{Network: "regtest", UserAgent: "t", FiltersDB: inmemory.NewFilterInmemory(), BlockHeadersDB: hdrs}, nil, ln.Addr().String(), "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(bg)
	errC := s.Start(ctx, cancel)
	cancel()
	for err := range errC {
		t.Fatal(err)
	}
	if !wait(5*time.Second, func() bool {
		b := make([]byte, 1<<20)
		return !strings.Contains(string(b[:runtime.Stack(b, true)]), "/pkg/scanner.")
	}) {
		t.Fatal("the scanner still runs")
	}
}
''')
WS = '''package zzdemo

import (
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	"github.com/vulpemventures/neutrino-elements/internal/interface/web-socket/handler"
)

type fakeService struct{ subs chan application.Subscriber }

func (f *fakeService) Start() error                                            { return nil }
func (f *fakeService) Stop()                                                   {}
func (f *fakeService) Subscribe(s application.Subscriber) error                { f.subs <- s; return nil }
func (f *fakeService) UnSubscribe(application.Subscriber) error                { return nil }
func (f *fakeService) EventReport() chan application.SubscriberEventReport     { return nil }
func (f *fakeService) ErrorReport() chan application.SubscriberErrorReport     { return nil }

'''

DESC = SCAN.replace('\t"testing"\n', '\t"encoding/hex"\n\t"testing"\n').replace('\n\t"github.com/btcsuite/btcd/btcutil/gcs"', '\n\t"github.com/google/uuid"\n\t"github.com/btcsuite/btcd/btcutil/gcs"', 1) + """const xpub = "xpub6BosfCnifzxcFwrSzQiqu2DBVTshkCXacvNsWGYJVVhhawA7d4R5WSWGFNbi8Aw6ZRc1brxMyWMzG3DSSSSoekkudhUd9yLb6qx39T9nMdj"

// find registers a descriptor and counts the reports of payments to script, one in each block.
func find(t *testing.T, blocks int, desc, script string) int {
	s, _ := hex.DecodeString(script)
	c := &chain{}
	c.extend(blocks, 1)
	_, hdrs, flts := newNode(t, c)
	e := &explorer{blocks: map[chainhash.Hash]*block.Block{}}
	for k, h := range c.hashes {
		x := transaction.NewTx(2)
		x.Locktime = uint32(k)
		x.Outputs = []*transaction.TxOutput{{Script: s}}
		e.blocks[h] = &block.Block{Header: c.hdr[k], TransactionsData: &block.Transactions{Transactions: []*transaction.Transaction{x}}}
		f, err := gcs.BuildGCSFilter(builder.DefaultP, builder.DefaultM, builder.DeriveKey(&c.hashes[k]), [][]byte{s})
		if err != nil {
			t.Fatal(err)
		}
		entry, err := repository.NewFilterEntry(repository.FilterKey{BlockHash: h.CloneBytes()}, f)
		if err != nil {
			t.Fatal(err)
		}
		flts.PutFilter(bg, entry)
	}
	sc := scanner.New(flts, hdrs, e, &chainhash.Hash{})
	ch, err := sc.Start()
	if err != nil {
		t.Fatal(err)
	}
	defer sc.Stop()
	if err := sc.WatchDescriptorWallet(uuid.New(), desc, []scanner.EventType{scanner.UnspentUtxo}, 1); err != nil {
		t.Fatal(err)
	}
	for n := 0; ; n++ {
		select {
		case <-ch:
		case <-time.After(5 * time.Second):
			return n
		}
	}
}

"""

seed("N05-gap-limit", prop="N05",
 needs="a payment to a script of a ranged descriptor with an index of 20 or more",
 breaks="only the first twenty scripts of a ranged descriptor are watched",
 edits=[("pkg/scanner/scanner.go", "	numOsScripts = 100\n", "	numOsScripts = 20\n")],
 test=DESC + """func TestDemo(t *testing.T) {
	if n := find(t, 1, "elwpkh("+xpub+"/0/*)", "0014fd1ede12c06329651ab277fcf475219940f4b0a6"); n != 1 {
		t.Fatalf("%d reports of a payment to script 57, want 1", n)
	}
}
""")

seed("N05-single-script-once", prop="N05",
 needs="a second payment to the script of a descriptor without a range",
 breaks="only the first payment to a descriptor without a range is reported",
 edits=[("pkg/scanner/scanner.go", "						outputScript: scripts[0].Script,\n					}),\n					WithPersistentWatch(),\n", "						outputScript: scripts[0].Script,\n					}),\n")],
 test=DESC + """func TestDemo(t *testing.T) {
	if n := find(t, 3, "elwpkh("+xpub+"/0/5)", "00145e03f9c910d0b48b9e720bfaeeb9fb32ca56fbad"); n != 3 {
		t.Fatalf("%d reports of three payments", n)
	}
}
""")

seed("M02-notified-in-turn", prop="M02",
 needs="a subscriber that does not read its events while another one does",
 breaks="subscribers are notified one after the other, one that does not read keeps the events from the others",
 edits=[("pkg/node/mempool.go", "		go func(subscriber txSubscriber) {\n", "		func(subscriber txSubscriber) {\n")],
 test="""package zzdemo

import (
	"bytes"
	"encoding/hex"
	"testing"
	"time"

	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

func TestDemo(t *testing.T) {
	raw, _ := hex.DecodeString("02000000" + "00" + "00" + "00" + "05000000")
	tx, err := transaction.NewTxFromBuffer(bytes.NewBuffer(raw))
	if err != nil {
		t.Fatal(err)
	}
	m := node.NewMemPool()
	m.Start()
	m.AddSubscriber("slow")
	s := m.AddSubscriber("fast")
	go m.AddTx(protocol.MsgTx{Transaction: *tx})
	select {
	case <-s:
	case <-time.After(3 * time.Second):
		t.Fatal("a subscriber is not told because another one does not read")
	}
}
""", node=False)

seed("S08-short-key", prop="S08",
 needs="some hundred stored filters",
 breaks="filters are stored under two bytes of the hash of their key, so that filters of different blocks replace each other",
 edits=[("pkg/repository/filter_repository.go", "hashedKey[:6]", "hashedKey[:2]")],
 test=NODE.replace('\t"time"\n', '\n\t"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"\n\t"github.com/vulpemventures/neutrino-elements/pkg/repository"\n') + """func TestDemo(t *testing.T) {
	f := inmemory.NewFilterInmemory()
	key := func(i uint32) repository.FilterKey {
		return repository.FilterKey{BlockHash: append(u32le(i), make([]byte, 28)...)}
	}
	for i := uint32(0); i < 4000; i++ {
		f.PutFilter(bg, &repository.FilterEntry{Key: key(i), NBytes: u32le(i)})
	}
	for i := uint32(0); i < 4000; i++ {
		e, err := f.GetFilter(bg, key(i))
		if err != nil || string(e.NBytes) != string(u32le(i)) {
			t.Fatalf("another filter is returned for block %d", i)
		}
	}
}
""")

seed("C02-command-cut", prop="C02",
 needs="a message header whose command continues behind its first NUL",
 breaks="a command followed by NUL and further characters is accepted as the command before the NUL",
 edits=[("pkg/protocol/msg.go", "	return strings.Trim(string(mh.Command[:]), \"\\x00\")", "	return strings.SplitN(string(mh.Command[:]), \"\\x00\", 2)[0]")],
 test="""package zzdemo

import (
	"testing"

	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

func TestDemo(t *testing.T) {
	h := protocol.MessageHeader{Magic: protocol.MagicRegtest}
	copy(h.Command[:], "ping")
	if err := h.Validate(); err != nil {
		t.Fatal(err)
	}
	copy(h.Command[:], "ping\\x00pong")
	if h.Validate() == nil {
		t.Fatal("an unknown command is accepted")
	}
}
""", node=False)

seed("C05-filter-length-trusted", prop="C05",
 needs="a cfilter message that announces a long filter and carries a short one",
 breaks="memory is reserved for as many bytes as the message announces",
 edits=[("pkg/protocol/msg_cfilter.go", "	bytesFilter, err := d.DecodeBytes(int64(l))\n	if err != nil {\n", "	bytesFilter := make([]byte, l)\n	if _, err := io.ReadFull(r, bytesFilter); err != nil {\n")],
 test="""package zzdemo

import (
	"bytes"
	"runtime"
	"testing"

	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

func TestDemo(t *testing.T) {
	b := append(make([]byte, 33), 0xfe, 0, 0, 0, 0x20, 1, 2, 3)
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	var m protocol.MsgCFilter
	if m.UnmarshalBinary(bytes.NewReader(b)) == nil {
		t.Fatal("a short filter is accepted")
	}
	runtime.ReadMemStats(&m2)
	if m2.TotalAlloc-m1.TotalAlloc > 64<<20 {
		t.Fatalf("%d bytes are allocated for a message of %d", m2.TotalAlloc-m1.TotalAlloc, len(b))
	}
}
""", node=False)

seed("K02-network-any-case", prop="K02",
 needs="a network name in capital letters",
 breaks="a network name in another case passes the check of the configuration, the database is contacted and migrated before the node refuses it",
 edits=[("internal/config/config.go", "	networkName := GetString(NetworkKey)\n", "	networkName := strings.ToLower(GetString(NetworkKey))\n"), ("internal/config/config.go", "	\"time\"\n", "	\"strings\"\n	\"time\"\n")],
 test="""package zzdemo

import (
	"os"
	"testing"

	"github.com/vulpemventures/neutrino-elements/internal/config"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
)

func TestDemo(t *testing.T) {
	for _, name := range []string{"liquid", "testnet", "regtest", "Liquid", "REGTEST", "bitcoin"} {
		os.Setenv("NEUTRINO_ELEMENTS_NETWORK", name)
		_, err := node.New(node.NodeConfig{Network: name, FiltersDB: inmemory.NewFilterInmemory(), BlockHeadersDB: inmemory.NewHeaderInmemory()})
		if cerr := config.LoadConfig(); (cerr == nil) != (err == nil) {
			t.Fatalf("network %s: configuration %v, node %v", name, cerr, err)
		}
	}
}
""", node=False)

seed("P03-filter-monitor-stays", prop="P03",
 needs="a node that is stopped while no filter arrives",
 breaks="the goroutine storing the filters is not ended with the node",
 edits=[("pkg/node/node.go", "		case <-n.quit:\n			return\n		case newCFilterMsg := <-n.compactFiltersCh:\n", "		case newCFilterMsg := <-n.compactFiltersCh:\n")],
 test=NODE.replace('\t"testing"\n', '\t"runtime"\n\t"strings"\n\t"testing"\n') + """func TestDemo(t *testing.T) {
	n, _, _ := newNode(t, nil)
	start(t, n)
	if err := n.Stop(); err != nil {
		t.Fatal(err)
	}
	if !wait(5*time.Second, func() bool {
		b := make([]byte, 1<<20)
		return !strings.Contains(string(b[:runtime.Stack(b, true)]), "/pkg/node.")
	}) {
		t.Fatal("something of the node still runs")
	}
}
""")

seed("S05-empty-filter", prop="S05",
 needs="a filter without elements",
 breaks="the filter of a block without indexed scripts is not stored",
 edits=[("pkg/node/node.go", "			}, newCFilterMsg.Filter)\n			if err != nil {\n", "			}, newCFilterMsg.Filter)\n			if err != nil || newCFilterMsg.Filter.N() == 0 {\n")],
 test=NODE.replace(')\n\n', '\n\t"github.com/vulpemventures/neutrino-elements/pkg/repository"\n)\n\n') + """func TestDemo(t *testing.T) {
	c := &chain{}
	c.extend(2, 1)
	n, _, flts := newNode(t, c)
	start(t, n)
	p := join(t, n, "10.0.0.1:1", 2)
	for i, f := range [][]byte{{0}, {1, 9, 8, 7}} {
		p.in <- frame("cfilter", cat([]byte{0}, c.hashes[i][:], []byte{byte(len(f))}, f))
	}
	for i := range c.hashes {
		if !wait(2*time.Second, func() bool {
			_, err := flts.GetFilter(bg, repository.FilterKey{BlockHash: c.hashes[i].CloneBytes()})
			return err == nil
		}) {
			t.Fatalf("the filter of block %d is not stored", i+1)
		}
	}
}
""")

seed("S10-last-header-alone", prop="S10",
 needs="a headers message with one header, the next one of the chain",
 breaks="a header that arrives alone is taken for a known one and not stored",
 edits=[("pkg/node/cmd_headers.go", "	if lastHeaderBlockHeight <= tip.Height {\n", "	if lastHeaderBlockHeight <= tip.Height+1 && len(headers.Headers) < 2 {\n")],
 test=NODE + """func TestDemo(t *testing.T) {
	c := &chain{}
	c.extend(3, 1)
	n, hdrs, _ := newNode(t, c)
	start(t, n)
	p := join(t, n, "10.0.0.1:1", 4)
	c.extend(1, 1)
	p.in <- headersMsg(c.raw[3])
	if !wait(2*time.Second, func() bool { return tipHeight(hdrs) == 4 }) {
		t.Fatal("the last header is not stored")
	}
}
""")

seed("W02-connection-stays", prop="W02",
 needs="a client that sends something that is no request",
 breaks="the connection of a client that is no longer served is not closed",
 edits=[("internal/interface/web-socket/handler/ws_handler.go", "	defer func() {\n		conn.Close()\n		if err := recover(); err != nil {\n			log.Errorf(\"handleRequest", "	defer func() {\n		if err := recover(); err != nil {\n			conn.Close()\n			log.Errorf(\"handleRequest")],
 node=False,
 test=WS + """func TestDemo(t *testing.T) {
	f := &fakeService{make(chan application.Subscriber, 9)}
	h := handler.NewDescriptorWalletNotifierHandler(f)
	h.Start()
	srv := httptest.NewServer(http.HandlerFunc(h.HandleSubscriptionRequestWs))
	c, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(srv.URL, "http"), nil)
	if err != nil {
		t.Fatal(err)
	}
	c.WriteMessage(websocket.TextMessage, []byte("hello"))
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	_, _, err = c.ReadMessage()
	if e, ok := err.(net.Error); err == nil || ok && e.Timeout() {
		t.Fatal("the connection is left open: ", err)
	}
}
""")

seed("G01-testnet-genesis", prop="G01",
 needs="a node for testnet with an empty store",
 breaks="a testnet node asks for the headers after the regtest genesis block",
 edits=[("pkg/protocol/checkpoints.go", "	case MagicLiquidTestnet:\n		return testnetCheckpoints\n	case MagicRegtest:\n		return regtestCheckpoints\n", "	case MagicLiquidTestnet, MagicRegtest:\n		return regtestCheckpoints\n"), ("pkg/protocol/checkpoints.go", "	testnetCheckpoints = Checkpoints{\n", "	_ = Checkpoints{\n")],
 node=False,
 test="""package zzdemo

import (
	"testing"

	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

func TestDemo(t *testing.T) {
	if h := protocol.GetCheckpoints(protocol.MagicLiquidTestnet)[0]; h != "a771da8e52ee6ad581ed1e9a99825e5b3b7992225534eaa2ae23244fe26ab1c1" {
		t.Fatal("testnet starts at", h)
	}
}
""")


if __name__ == '__main__':
    names = sys.argv[1:] or list(SEEDS)
    for n in names:
        make(n, **SEEDS[n])
