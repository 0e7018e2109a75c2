package main

import (
	"bytes"
	"encoding/hex"
	"strings"
	"sync/atomic"
	"time"

	"github.com/vulpemventures/go-elements/block"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
)

// the public parameters of the Elements networks
var networks = []struct {
	name    string
	magic   [4]byte
	genesis string
	header  func() block.Header
	hash    func() string
}{
	{"liquid", [4]byte{0xfa, 0xbf, 0xb5, 0xda}, "1466275836220db2944ca059a3a10ef6fd2ea684b0688d2c379296888a206003",
		func() block.Header { return protocol.LiquidGenesisHeader }, func() string { return protocol.LiquidGenesisBlockHash }},
	{"testnet", [4]byte{0x41, 0x0e, 0xdd, 0x62}, "a771da8e52ee6ad581ed1e9a99825e5b3b7992225534eaa2ae23244fe26ab1c1",
		func() block.Header { return protocol.LiquidTestnetGenesisHeader }, func() string { return protocol.LiquidTestnetGenesisBlockHash }},
	{"regtest", [4]byte{0x12, 0x34, 0x56, 0x78}, "00902a6b70c2ca83b5d9c815d96a0e2f4202179316970d14ea1847dae5b1ca21",
		func() block.Header { return protocol.RegtestGenesisHeader }, func() string { return protocol.RegtestGenesisBlockHash }},
}

// A node speaks the magic of its network only, and starts syncing at the network's genesis block.
//
//verif:harness prop=G01
func OwnNetwork() {
	w := networks[rt.Choose("network", len(networks))]
	regtestMagic = w.magic // of the frames of this harness
	e := newEnvOn(w.name)
	e.start()
	ms := e.l.sent() // asserts the magic
	rt.Assert(cmds(ms) == "version ", "the node does not start with a version message")
	h := rt.U32("height")
	rt.Assume(h >= 1 && h < 1<<31)
	// a foreign magic is not understood
	x := rt.U32("magic")
	foreign := rt.Choose("foreign", 2) == 1
	f := frame("version", versionPayload(cfService|1, h))
	if foreign {
		var m [4]byte
		copy(m[:], u32le(x))
		rt.Assume(!rt.BytesEq(m[:], w.magic[:]))
		f = cat(m[:], f[4:])
	}
	e.l.send(f)
	settle()
	ms = e.l.sent()
	if foreign {
		rt.Assert(len(of(ms, "verack")) == 0 && len(of(ms, "getheaders")) == 0, "a message of another network is answered")
		return
	}
	gh := of(ms, "getheaders")
	rt.Assert(len(gh) == 1, "the sync does not start with one getheaders message")
	want, _ := hex.DecodeString(w.genesis)
	for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
		want[i], want[j] = want[j], want[i]
	}
	rt.Assert(len(gh[0]) == 4+1+32+32 && gh[0][4] == 1 && bytes.Equal(gh[0][5:37], want), "the sync does not start at the genesis block of the network")
	rt.Assert(bytes.Equal(gh[0][37:], make([]byte, 32)), "the sync is limited")
}

// The embedded genesis headers and checkpoints are those of the networks.
//
//verif:harness prop=G01
func GenesisHeaders() {
	w := networks[rt.Choose("network", len(networks))]
	h := w.header()
	hash, err := h.Hash()
	rt.Assert(err == nil && hash.String() == w.genesis, "the genesis header has another hash")
	rt.Assert(w.hash() == w.genesis, "the genesis hash is wrong")
	rt.Assert(h.Height == 0 && bytes.Equal(h.PrevBlockHash, make([]byte, 32)), "the genesis header is not the first")
	rt.Assert(protocol.GetCheckpoints(w.magic)[0] == w.genesis, "the first checkpoint is not the genesis block")
	rt.Assert(protocol.Networks[w.name] == w.magic, "the network has another magic")
}

// Any other network name is refused.
//
//verif:harness prop=G01
func UnknownNetwork() {
	name := string(rt.Bytes("name", rt.Choose("length", 9)))
	_, err := node.New(node.NodeConfig{Network: name})
	known := name == "liquid" || name == "testnet" || name == "regtest"
	rt.Assert((err == nil) == known, "an unknown network is accepted, or a known one refused")
}

// Peer addresses: every dotted address and port is read exactly, everything else is refused.
//
//verif:harness prop=G02
func PeerAddress() {
	var ip [4]byte
	s := ""
	for i := range ip {
		// one octet of every length is arbitrary, the others fixed
		ip[i] = byte(10 * i)
	}
	k := rt.Choose("octet", 4)
	v := rt.U8("value")
	digits := rt.Choose("digits", 3) + 1
	switch digits {
	case 1:
		rt.Assume(v < 10)
	case 2:
		rt.Assume(v >= 10 && v < 100)
	case 3:
		rt.Assume(v >= 100)
	}
	ip[k] = v
	for i, o := range ip {
		if i > 0 {
			s += "."
		}
		if i == k {
			d := []byte{'0' + o/100, '0' + o/10%10, '0' + o%10}
			s += string(d[3-digits:])
		} else {
			if o >= 10 {
				s += string([]byte{'0' + o/10})
			}
			s += string([]byte{'0' + o%10})
		}
	}
	n := rt.Choose("port digits", 7)
	port := rt.Bytes("port", n)
	val, num := 0, n > 0
	for _, c := range port {
		if rt.Symbolic() {
			rt.Assume(c != '+' && c != '-' && c != '_' && c != ':')
		}
		num = num && c >= '0' && c <= '9'
		val = val*10 + int(c-'0')
	}
	a, err := protocol.ParseNodeAddr(s + ":" + string(port))
	if num && val < 1<<16 {
		rt.Assert(err == nil && a.IP == protocol.IPv4(ip) && int(a.Port) == val, "an address is read wrongly or refused")
	} else {
		rt.Assert(err != nil && a == nil, "a malformed address is accepted")
	}
}

// Host names and malformed addresses do not crash, and have a host and a port.
//
//verif:harness prop=G02
func AnyAddress() {
	b := rt.Bytes("text", rt.Choose("length", rt.Param("length", 7, 9)))
	colons, at := 0, -1
	for i, c := range b {
		if c == ':' {
			colons++
			at = i
		}
	}
	a, err := protocol.ParseNodeAddr(string(b))
	rt.Assert((a != nil) == (err == nil), "neither an address nor an error is returned")
	if colons != 1 || at == 0 || at == len(b)-1 {
		rt.Assert(err != nil, "an address without a host or a port is accepted")
	}
}

// A refused address leaves no connection behind.
//
//verif:harness prop=G02
func RefusedAddress() {
	a, l := listen()
	port := strings.Split(a, ":")[1]
	a = []string{"[::ffff:127.0.0.1]:", "127.0.0.1:0000000000000000000000", "127.0.0.1:", "::ffff:127.0.0.1:"}[rt.Choose("address", 4)] + port
	p, err := peer.NewElementsPeer(a)
	if err == nil {
		rt.Assert(p.Addr() != nil, "a peer without an address")
		rt.Cover("accepted")
		return
	}
	settle()
	time.Sleep(100 * time.Millisecond)
	settle()
	rt.Assert(atomic.LoadInt32(&contacted) == 0 || l.isClosed(), "a refused address leaves a connection open")
	rt.Cover("refused")
}
