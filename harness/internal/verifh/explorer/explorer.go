package main

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/transaction"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
)

// ---- the explorer ----

// answer is what the explorer does with the next request.
type answer struct {
	status  int
	body    []byte
	readErr bool // the body breaks off with an error
	down    bool // no answer at all
	hang    bool // an answer that never comes
}

type reader struct {
	*bytes.Reader
	fail bool
	open *int
}

func (r *reader) Read(p []byte) (int, error) {
	n, err := r.Reader.Read(p)
	if err == io.EOF && r.fail {
		err = errors.New("connection reset")
	}
	return n, err
}

func (r *reader) Close() error { *r.open--; return nil }

var server struct {
	answer
	method, url string
	requests    int
	open        int // bodies not closed
}

func serve(method, url string, limit bool) (*http.Response, error) {
	server.requests++
	server.method, server.url = method, url
	rt.Assert(limit, "a request may wait for its answer forever")
	if server.down {
		return nil, errors.New("connection refused")
	}
	server.open++
	return &http.Response{StatusCode: server.status, Status: "status", Proto: "HTTP/1.1", Header: http.Header{}, ContentLength: -1,
		Body: &reader{bytes.NewReader(server.body), server.readErr, &server.open}}, nil
}

func limited(ctx context.Context) bool {
	_, ok := ctx.Deadline()
	return ok
}

//verif:replace (*net/http.Client).Do
func doModel(c *http.Client, r *http.Request) (*http.Response, error) {
	return serve(r.Method, r.URL.String(), c.Timeout > 0 || limited(r.Context()))
}

//verif:replace (*net/http.Client).Get
func clientGetModel(c *http.Client, u string) (*http.Response, error) {
	p, err := url.Parse(u)
	if err != nil {
		return nil, err
	}
	return serve("GET", p.String(), c.Timeout > 0)
}

//verif:replace net/http.Get
func getModel(u string) (*http.Response, error) { return clientGetModel(http.DefaultClient, u) }

// transport is the native network.
type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	return serve(r.Method, r.URL.String(), limited(r.Context()))
}

var _ = time.Second

func setup(a answer) blockservice.BlockService {
	server.answer, server.requests, server.open = a, 0, 0
	http.DefaultTransport = transport{}
	if !rt.Symbolic() {
		http.DefaultClient.Transport = transport{}
	}
	return blockservice.NewEsploraBlockService("http://explorer/api")
}

// ---- blocks ----

func u32le(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

func tx(lock uint32) *transaction.Transaction {
	t := transaction.NewTx(2)
	h := make([]byte, 32)
	h[0] = byte(lock)
	t.AddInput(transaction.NewTxInput(h, 1))
	t.AddOutput(transaction.NewTxOutput(append([]byte{1}, make([]byte, 32)...), []byte{1, 0, 0, 0, 0, 0, 0, 0, 5}, []byte{0x51}))
	t.Locktime = lock
	return t
}

// ext is what follows the height of a header: a signed proof or the parameters of a dynamic federation.
func ext(form int) []byte {
	switch form {
	case 1: // nothing changes
		return []byte{0, 0, 1, 2, 9, 9}
	case 2: // compact parameters
		return cat([]byte{1, 1, 0x51}, u32le(100), make([]byte, 32), []byte{0, 2, 0, 1, 7})
	case 3: // a full proposal
		return cat([]byte{0, 2, 1, 0x51}, u32le(100), []byte{1, 0x52, 2, 0x53, 0x54, 2, 1, 7, 0, 1, 1, 5})
	case 4: // both, a long script
		s := make([]byte, 300)
		s[299] = 0x51
		return cat([]byte{2, 0xfd, 44, 1}, s, u32le(100), []byte{0, 0, 0, 1, 1, 0x51}, u32le(100), make([]byte, 31), []byte{8, 0})
	case 5: // a long proof
		s := make([]byte, 253)
		s[252] = 0x51
		return cat([]byte{0xfd, 253, 0}, s, []byte{0xfd, 253, 0}, s)
	}
	return []byte{1, 0x51, 1, 0x52}
}

// version of a header of a form.
func versionOf(form int) uint32 {
	if form >= 1 && form <= 4 {
		return 0x20000000 | 1<<31
	}
	return 0x20000000
}

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

func rawHeader(height, ts uint32, root []byte, form int) []byte {
	b := u32le(versionOf(form))
	b = append(b, make([]byte, 32)...)
	b = append(b, root...)
	b = append(b, u32le(ts)...)
	b = append(b, u32le(height)...)
	return append(b, ext(form)...)
}

// The answer of the explorer is passed on as what it is: the block, its absence, or a failure.
//
//verif:harness prop=B01
func Answers() {
	height, ts := rt.U32("height"), rt.U32("time")
	rt.Assume(height < 1<<31)
	root := rt.Bytes("root", 32)
	what := rt.Choose("answer", 6)
	form := 0
	if what == 0 {
		form = rt.Choose("form", 6)
	}
	raw := rawHeader(height, ts, root, form)
	n := 1 + rt.Choose("transactions", 2)
	raw = append(raw, byte(n))
	var txs []*transaction.Transaction
	for i := 0; i < n; i++ {
		t := tx(uint32(i + 1))
		b, err := t.Serialize()
		if err != nil {
			panic(err)
		}
		raw = append(raw, b...)
		txs = append(txs, t)
	}
	a := answer{status: 200, body: raw}
	switch what {
	case 1:
		a.status, a.body = 404, []byte("Block not found")
	case 2: // any other status, with or without a block
		a.status = rt.Int("status", 100, 600)
		rt.Assume(a.status != 200 && a.status != 404)
		if rt.Choose("body", 2) == 1 {
			a.body = []byte("nothing")
		}
	case 3: // a body that breaks off
		a.readErr = true
		a.body = raw[:rt.Choose("length", len(raw)+1)]
	case 4: // a truncated body
		a.body = raw[:rt.Choose("length", len(raw))]
	case 5:
		a.down = true
	}
	svc := setup(a)
	hash := chainhash.Hash{}
	for i := range hash {
		hash[i] = byte(7*i + 1)
	}
	b, err := svc.GetBlock(&hash)
	rt.Assert(server.requests == 1 && server.method == "GET" && server.url == "http://explorer/api/block/"+hash.String()+"/raw", "another block is asked for")
	rt.Assert(server.open == 0, "the connection is not released")
	switch what {
	case 0:
		rt.Assert(err == nil && b != nil, "a served block is refused")
		h := b.Header
		rt.Assert(h.Height == height && h.Timestamp == ts && h.ExtData.IsDyna == (form >= 1 && form <= 4) && rt.BytesEq(h.MerkleRoot, root), "a block is returned with another header")
		rt.Assert(len(b.TransactionsData.Transactions) == n, "a block is returned with other transactions")
		for i, t := range b.TransactionsData.Transactions {
			rt.Assert(t.TxHash() == txs[i].TxHash(), "a block is returned with other transactions")
		}
	case 1:
		rt.Assert(errors.Is(err, blockservice.ErrorBlockNotFound) && b == nil, "a missing block is not reported as missing")
	default:
		rt.Assert(err != nil && b == nil, "a failure is taken for a block")
		rt.Assert(!errors.Is(err, blockservice.ErrorBlockNotFound), "a failure is taken for a missing block")
	}
}

// A malformed explorer address is answered with an error.
//
//verif:harness prop=B01
func BadAddress() {
	setup(answer{status: 200})
	svc := blockservice.NewEsploraBlockService([]string{"http://a b", ":", "http://[::1", "%zz"}[rt.Choose("address", 4)])
	b, err := svc.GetBlock(&chainhash.Hash{})
	rt.Assert(err != nil && b == nil, "a request to a malformed address succeeds")
}

var _ = strings.TrimSpace

// Blocks of any size are returned whole: one large transaction, or many.
//
//verif:harness prop=B01 steps=400 alloc=64
func LargeBlocks() {
	height, ts := rt.U32("height"), rt.U32("time")
	rt.Assume(height < 1<<31)
	root := rt.Bytes("root", 32)
	raw := rawHeader(height, ts, root, 0)
	n, size := 1, 0
	switch rt.Choose("size", 4) {
	case 0:
		size = 70000
	case 1:
		size = 3000000
	case 2:
		n = 253
	case 3:
		n, size = 300, 4000
	}
	raw = append(raw, compactSize(n)...)
	var txs []*transaction.Transaction
	for i := 0; i < n; i++ {
		t := tx(uint32(i + 1))
		if size > 0 {
			t.Outputs[0].Script = make([]byte, size)
			t.Outputs[0].Script[size-1] = byte(i)
		}
		b, err := t.Serialize()
		if err != nil {
			panic(err)
		}
		raw = append(raw, b...)
		txs = append(txs, t)
	}
	svc := setup(answer{status: 200, body: raw})
	b, err := svc.GetBlock(&chainhash.Hash{})
	rt.Assert(err == nil && b != nil, "a served block is refused")
	rt.Assert(len(b.TransactionsData.Transactions) == n, "a block is returned with other transactions")
	for i, t := range b.TransactionsData.Transactions {
		o := t.Outputs[0].Script
		rt.Assert(t.Locktime == uint32(i+1) && len(o) == len(txs[i].Outputs[0].Script) && o[len(o)-1] == txs[i].Outputs[0].Script[len(o)-1], "a block is returned with other transactions")
	}
	rt.Assert(b.Header.Height == height && b.Header.Timestamp == ts && rt.BytesEq(b.Header.MerkleRoot, root), "a block is returned with another header")
}

func compactSize(n int) []byte {
	if n < 253 {
		return []byte{byte(n)}
	}
	return []byte{0xfd, byte(n), byte(n >> 8)}
}
