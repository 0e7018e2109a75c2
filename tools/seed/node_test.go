package zzdemo

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

var bg = context.Background()

func u32le(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }
func u64le(v uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, v); return b }
func cat(bs ...[]byte) []byte {
	return bytes.Join(bs, nil)
}

func frame(cmd string, payload []byte) []byte {
	var c [12]byte
	copy(c[:], cmd)
	h := sha256.Sum256(payload)
	h = sha256.Sum256(h[:])
	return cat([]byte{0x12, 0x34, 0x56, 0x78}, c[:], u32le(uint32(len(payload))), h[:4], payload)
}

// fake is a peer driven by the test.
type fake struct {
	name string
	in   chan []byte
	rest []byte
	mu   sync.Mutex
	out  []byte
	gone chan struct{}
	once sync.Once
	tip  uint32
}

func newFake(name string) *fake {
	return &fake{name: name, in: make(chan []byte, 256), gone: make(chan struct{})}
}
func (f *fake) Read(p []byte) (int, error) {
	if len(f.rest) == 0 {
		select {
		case b, ok := <-f.in:
			if !ok {
				return 0, io.EOF
			}
			f.rest = b
		case <-f.gone:
			return 0, errors.New("closed")
		}
	}
	n := copy(p, f.rest)
	f.rest = f.rest[n:]
	return n, nil
}
func (f *fake) Write(p []byte) (int, error) {
	select {
	case <-f.gone:
		return 0, errors.New("closed")
	default:
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.out = append(f.out, p...)
	return len(p), nil
}
func (f *fake) Close() error                   { f.once.Do(func() { close(f.gone) }); return nil }
func (f *fake) ID() peer.PeerID                { return peer.PeerID(f.name) }
func (f *fake) Connection() io.ReadWriteCloser { return f }
func (f *fake) Addr() *protocol.Addr           { a, _ := protocol.ParseNodeAddr("127.0.0.1:18886"); return a }
func (f *fake) PeersTip() uint32               { f.mu.Lock(); defer f.mu.Unlock(); return f.tip }
func (f *fake) SetPeersTip(h uint32)           { f.mu.Lock(); defer f.mu.Unlock(); f.tip = h }

type msg struct {
	cmd     string
	payload []byte
}

// sent returns the messages of one command the node wrote to the peer.
func (f *fake) sent(cmd string) [][]byte {
	f.mu.Lock()
	b := append([]byte(nil), f.out...)
	f.mu.Unlock()
	var out [][]byte
	for len(b) >= 24 {
		n := int(binary.LittleEndian.Uint32(b[16:20]))
		if len(b) < 24+n {
			break
		}
		if c := string(bytes.TrimRight(b[4:16], "\x00")); c == cmd {
			out = append(out, b[24:24+n])
		}
		b = b[24+n:]
	}
	return out
}

func version(services uint64, height uint32) []byte {
	addr := cat(u64le(1), make([]byte, 10), []byte{0xff, 0xff, 127, 0, 0, 1, 4, 210})
	return frame("version", cat(u32le(70016), u64le(services), u64le(5), addr, addr, u64le(99), []byte{3}, []byte("/x/"), u32le(height), []byte{1}))
}

func header(prev chainhash.Hash, height, tag uint32) (*block.Header, chainhash.Hash, []byte) {
	raw := cat(u32le(0x20000000), prev[:], make([]byte, 28), u32le(tag), u32le(1000+height), u32le(height), []byte{1, 0x51, 1, 0x52})
	h, err := block.DeserializeHeader(bytes.NewBuffer(raw))
	if err != nil {
		panic(err)
	}
	hash, err := h.Hash()
	if err != nil {
		panic(err)
	}
	return h, hash, raw
}

type chain struct {
	hdr    []*block.Header
	hashes []chainhash.Hash
	raw    [][]byte
}

func (c *chain) extend(n int, tag uint32) {
	for i := 0; i < n; i++ {
		var prev chainhash.Hash
		if len(c.hashes) > 0 {
			prev = c.hashes[len(c.hashes)-1]
		}
		h, hash, raw := header(prev, uint32(len(c.hdr)+1), tag)
		c.hdr, c.hashes, c.raw = append(c.hdr, h), append(c.hashes, hash), append(c.raw, raw)
	}
}

func headersMsg(raws ...[]byte) []byte {
	p := []byte{byte(len(raws))}
	for _, r := range raws {
		p = append(append(p, r...), 0)
	}
	return frame("headers", p)
}

func blockMsg(raw []byte) []byte { return frame("block", append(append([]byte(nil), raw...), 0)) }

func newNode(t *testing.T, c *chain) (node.NodeService, repository.BlockHeaderRepository, repository.FilterRepository) {
	hdrs, flts := inmemory.NewHeaderInmemory(), inmemory.NewFilterInmemory()
	if c != nil {
		for _, h := range c.hdr {
			if err := hdrs.WriteHeaders(bg, *h); err != nil {
				t.Fatal(err)
			}
		}
	}
	n, err := node.New(node.NodeConfig{Network: "regtest", UserAgent: "/t/", FiltersDB: flts, BlockHeadersDB: hdrs})
	if err != nil {
		t.Fatal(err)
	}
	return n, hdrs, flts
}

// wait polls a condition for at most d.
func wait(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// start starts the node with a silent initial peer.
func start(t *testing.T, n node.NodeService) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	accepted := make(chan struct{})
	go func() {
		c, err := ln.Accept()
		close(accepted)
		if err == nil {
			io.Copy(io.Discard, c)
		}
	}()
	go n.Start(ln.Addr().String())
	<-accepted
	time.Sleep(100 * time.Millisecond)
}

// join connects a peer that completes the handshake.
func join(t *testing.T, n node.NodeService, name string, tip uint32) *fake {
	f := newFake(name)
	if err := n.AddOutboundPeer(f); err != nil {
		t.Fatal(err)
	}
	f.in <- version(1|1<<6, tip)
	if !wait(5*time.Second, func() bool { return len(f.sent("sendheaders")) == 1 }) {
		t.Fatal("no handshake")
	}
	time.Sleep(50 * time.Millisecond)
	return f
}

func tipHeight(h repository.BlockHeaderRepository) uint32 {
	tip, err := h.ChainTip(bg)
	if err != nil {
		return 0
	}
	return tip.Height
}
