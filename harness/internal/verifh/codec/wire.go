package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	bin "github.com/vulpemventures/neutrino-elements/pkg/binary"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
)

// allCommands is the set of commands of the Elements peer-to-peer protocol the node knows.
var allCommands = []string{"block", "getdata", "inv", "ping", "pong", "tx", "verack", "version", "addr", "notfound",
	"getblocks", "getheaders", "headers", "getaddr", "mempool", "checkorder", "submitorder", "reply", "reject",
	"filterload", "filteradd", "filterclear", "merkleblock", "alert", "sendheaders", "feefilter", "sendcmpct",
	"cmpctblock", "getblocktxn", "blocktxn", "getcfilters", "cfilter", "wtxidrelay", "sendaddrv2"}

var nets = [][4]byte{{0xfa, 0xbf, 0xb5, 0xda}, {0x12, 0x34, 0x56, 0x78}, {0x41, 0x0e, 0xdd, 0x62}}

func magic(i int) protocol.Magic { return protocol.Magic(nets[i]) }

func dsha(b []byte) [32]byte {
	h := sha256.Sum256(b)
	return sha256.Sum256(h[:])
}

func u32le(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }
func u64le(v uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, v); return b }
func u16be(v uint16) []byte { return []byte{byte(v >> 8), byte(v)} }

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// refFrame is the reference encoding of a message.
func refFrame(m [4]byte, cmd string, payload []byte) []byte {
	c := make([]byte, 12)
	copy(c, cmd)
	s := dsha(payload)
	return cat(m[:], c, u32le(uint32(len(payload))), s[:4], payload)
}

func checkMsg(msg *protocol.Message, err error, net int, cmd string, payload []byte) {
	rt.Assert(err == nil, cmd+": message can be built")
	b, err := bin.Marshal(msg)
	rt.Assert(err == nil, cmd+": message can be encoded")
	want := refFrame(nets[net], cmd, payload)
	rt.Assert(len(b) == len(want), cmd+": encoded length")
	rt.Assert(rt.BytesEq(b, want), cmd+": encoded bytes follow the wire format")
	if cmd != "ping" && cmd != "version" { // these carry random numbers and the time
		rt.Observe("bytes", b)
	}
}

// For every command, network and payload the frame is magic, zero padded command, little endian length, checksum, payload; and the header decodes back and is accepted.
//
//verif:harness prop=C02
func Frame() {
	ci := rt.Choose("command", len(allCommands))
	net := rt.Choose("network", 3)
	p := rt.Bytes("payload", rt.Choose("len", rt.Param("maxPayload", 3, 6)))
	if len(p) == 2 {
		p = append(p, make([]byte, 300)...)
	}
	msg, err := protocol.NewMessage(allCommands[ci], magic(net), p)
	checkMsg(msg, err, net, allCommands[ci], p)
	b, _ := bin.Marshal(msg)
	var h protocol.MessageHeader
	rt.Assert(bin.NewDecoder(bytes.NewReader(b)).Decode(&h) == nil, "header decodes")
	rt.Assert(h.Validate() == nil, "own header is valid")
	rt.Assert(h.CommandString() == allCommands[ci], "command survives")
	rt.Assert(h.Length == uint32(len(p)), "length survives")
	rt.Assert(h.Magic == nets[net], "magic survives")
	sum := dsha(p)
	rt.Assert(rt.BytesEq(h.Checksum[:], sum[:4]), "checksum survives")
	rt.Cover("frame")
}

// A header is accepted exactly when its magic is one of the three networks and its command is one of the known commands.
//
//verif:harness prop=C02
func HeaderAcceptance() {
	b := make([]byte, 24)
	which := rt.Choose("part", 2)
	if which == 0 {
		copy(b, rt.Bytes("magic", 4))
		copy(b[4:], "ping")
	} else {
		copy(b, nets[0][:])
		ci := rt.Choose("command", len(allCommands))
		copy(b[4:], allCommands[ci])
		pos := rt.Choose("pos", 12)
		b[4+pos] = rt.U8("byte")
		rt.Assume(b[4] != 0) // leading zero bytes are not part of the claim
	}
	var h protocol.MessageHeader
	rt.Assert(bin.NewDecoder(bytes.NewReader(b)).Decode(&h) == nil, "24 bytes decode as a header")
	okMagic := false
	for _, n := range nets {
		okMagic = rt.Or(okMagic, rt.BytesEq(b[:4], n[:]))
	}
	okCmd := false
	for _, c := range allCommands {
		w := make([]byte, 12)
		copy(w, c)
		okCmd = rt.Or(okCmd, rt.BytesEq(b[4:16], w))
	}
	got := h.Validate() == nil
	rt.Assert(rt.Implies(rt.And(okMagic, okCmd), got), "known network and command accepted")
	rt.Assert(rt.Implies(got, rt.And(okMagic, okCmd)), "unknown network or command rejected")
	rt.Cover("accept")
}

// ping and pong carry the nonce as 8 little endian bytes.
//
//verif:harness prop=C03
func PingPong() {
	net := rt.Choose("network", 3)
	nonce := rt.U64("nonce")
	msg, err := protocol.NewPongMsg(magic(net), nonce)
	checkMsg(msg, err, net, "pong", u64le(nonce))
	ping, pn, err := protocol.NewPingMsg(magic(net))
	checkMsg(ping, err, net, "ping", u64le(pn))
	var d protocol.MsgPing
	rt.Assert(bin.NewDecoder(bytes.NewReader(msg.Payload)).Decode(&d) == nil, "pong payload decodes")
	rt.Assert(d.Nonce == nonce, "nonce round-trips")
	rt.Cover("pong")
}

// verack and sendheaders have empty payloads.
//
//verif:harness prop=C03
func Empty() {
	net := rt.Choose("network", 3)
	m, err := protocol.NewVerackMsg(magic(net))
	checkMsg(m, err, net, "verack", nil)
	m, err = protocol.NewSendHeadersMessage(magic(net))
	checkMsg(m, err, net, "sendheaders", nil)
	rt.Cover("empty")
}

var agentLens = []int{0, 1, 19, 252, 253, 255, 256, 300}

func text(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	if n > 0 {
		b[0] = rt.U8("agent0")
		b[n-1] = rt.U8("agentN")
	}
	return b
}

// The version message advertises the protocol version, the given services, addresses, user agent and decodes to the same values.
//
//verif:harness prop=C03
func Version() {
	net := rt.Choose("network", 3)
	ip := protocol.IPv4{rt.U8("ip"), rt.U8("ip"), rt.U8("ip"), rt.U8("ip")}
	port := rt.U16("port")
	svc := rt.U64("services")
	ua := text(agentLens[rt.Choose("agentLen", len(agentLens))])
	msg, err := protocol.NewVersionMsg(magic(net), string(ua), ip, port, protocol.ServiceFlag(svc))
	rt.Assert(err == nil, "version message can be built")
	p := msg.Payload
	rt.Assert(len(p) == 4+8+8+26+26+8+len(refVarint(uint64(len(ua))))+len(ua)+4+1, "version payload length")
	v4 := []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}
	head := cat(u32le(70016), u64le(svc))
	rt.Assert(rt.BytesEq(p[:12], head), "version number and services")
	rt.Assert(rt.BytesEq(p[20:46], cat(u64le(svc|1), v4, ip[:], u16be(port))), "receiver address")
	rt.Assert(rt.BytesEq(p[46:72], cat(u64le(svc), v4, []byte{127, 0, 0, 1}, u16be(9334))), "sender address")
	tail := cat(refVarint(uint64(len(ua))), ua, u32le(0xffffffff), []byte{1})
	rt.Assert(rt.BytesEq(p[80:], tail), "user agent, start height and relay")
	checkMsg(msg, err, net, "version", p)
	var d protocol.MsgVersion
	r := bytes.NewReader(p)
	rt.Assert(bin.NewDecoder(r).Decode(&d) == nil, "version payload decodes")
	rt.Assert(r.Len() == 0, "version payload is consumed")
	rt.Assert(d.Version == 70016 && d.Services == svc && d.StartHeight == -1 && d.Relay, "version fields round-trip")
	rt.Assert(d.AddrRecv.IP == ip && d.AddrRecv.Port == port && d.AddrRecv.Services == svc|1, "receiver address round-trips")
	rt.Assert(d.UserAgent.String == string(ua), "user agent round-trips")
	want := rt.U64("want")
	rt.Assert(d.HasService(protocol.ServiceFlag(want)) == (svc&want == want), "service test is exact")
	rt.Cover("version")
}

// An incoming version message with any field values decodes to them.
//
//verif:harness prop=C03
func VersionIn() {
	ver, ts, h := rt.U32("version"), rt.U64("timestamp"), rt.U32("height")
	svc, s1, s2, nonce := rt.U64("services"), rt.U64("services1"), rt.U64("services2"), rt.U64("nonce")
	ip1, ip2 := rt.Bytes("ip1", 4), rt.Bytes("ip2", 4)
	p1, p2 := rt.U16("port1"), rt.U16("port2")
	relay := rt.Bool("relay")
	rb := byte(0)
	if relay {
		rb = 1
	}
	ua := text(agentLens[rt.Choose("agentLen", len(agentLens))])
	v4 := []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}
	b := cat(u32le(ver), u64le(svc), u64le(ts), u64le(s1), v4, ip1, u16be(p1), u64le(s2), v4, ip2, u16be(p2), u64le(nonce),
		refVarint(uint64(len(ua))), ua, u32le(h), []byte{rb})
	var d protocol.MsgVersion
	rt.Assert(bin.NewDecoder(bytes.NewReader(b)).Decode(&d) == nil, "incoming version decodes")
	rt.Assert(uint32(d.Version) == ver && d.Services == svc && uint64(d.Timestamp) == ts, "incoming version, services, timestamp")
	rt.Assert(d.AddrRecv.Services == s1 && rt.BytesEq(d.AddrRecv.IP[:], ip1) && d.AddrRecv.Port == p1, "incoming receiver address")
	rt.Assert(d.AddrFrom.Services == s2 && rt.BytesEq(d.AddrFrom.IP[:], ip2) && d.AddrFrom.Port == p2, "incoming sender address")
	rt.Assert(d.Nonce == nonce && d.UserAgent.String == string(ua) && uint32(d.StartHeight) == h && d.Relay == relay, "incoming nonce, agent, height, relay")
	rt.Cover("version in")
}

var invCounts = []int{0, 1, 2, 3, 252, 253, 254, 256, 300}

// inv with any number of entries decodes to exactly its entries, and getdata encodes exactly the same bytes.
//
//verif:harness prop=C03
func Inventory() {
	n := invCounts[rt.Choose("count", len(invCounts))]
	b := refVarint(uint64(n))
	types := make([]uint32, n)
	hashes := make([][]byte, n)
	for i := 0; i < n; i++ {
		h := make([]byte, 32)
		h[0], h[1] = byte(i), byte(i>>8)
		types[i] = uint32(i % 5)
		if i < 2 || i == n-1 {
			h = rt.Bytes("hash", 32)
			types[i] = rt.U32("type")
		}
		hashes[i] = h
		b = cat(b, u32le(types[i]), h)
	}
	var inv protocol.MsgInv
	r := bytes.NewReader(b)
	rt.Assert(bin.NewDecoder(r).Decode(&inv) == nil, "inv decodes")
	rt.Assert(r.Len() == 0, "inv payload is consumed")
	rt.Assert(len(inv.Inventory) == n, "inv entry count")
	for i := range inv.Inventory {
		rt.Assert(inv.Inventory[i].Type == types[i] && rt.BytesEq(inv.Inventory[i].Hash[:], hashes[i]), "inv entries in order")
	}
	out, err := bin.Marshal(protocol.MsgGetData{Count: inv.Count, Inventory: inv.Inventory})
	rt.Assert(err == nil && rt.BytesEq(out, b), "getdata encodes the same inventory")
	rt.Cover("inv")
}

var locCounts = []int{0, 1, 2, 252, 253, 300, 500}

// getheaders lists the locator hashes in order behind a CompactSize count, then the stop hash; it decodes back; more than 500 hashes are refused.
//
//verif:harness prop=C03
func GetHeaders() {
	net := rt.Choose("network", 3)
	n := locCounts[rt.Choose("count", len(locCounts))]
	var stop [32]byte
	copy(stop[:], rt.Bytes("stop", 32))
	var loc blockchain.BlockLocator
	body := refVarint(uint64(n))
	for i := 0; i < n; i++ {
		var h chainhash.Hash
		h[0], h[1] = byte(i), byte(i>>8)
		if i < 2 || i == n-1 {
			copy(h[:], rt.Bytes("hash", 32))
		}
		loc = append(loc, &h)
		body = append(body, h[:]...)
	}
	msg, err := protocol.NewMsgGetHeaders(magic(net), stop, loc)
	checkMsg(msg, err, net, "getheaders", cat(u32le(70016), body, stop[:]))
	var d protocol.MsgGetHeaders
	r := bytes.NewReader(msg.Payload)
	rt.Assert(bin.NewDecoder(r).Decode(&d) == nil, "getheaders decodes")
	rt.Assert(r.Len() == 0, "getheaders is consumed")
	rt.Assert(d.Version == 70016 && d.HashStop == stop && len(d.BlockLocatorHashes) == n, "getheaders fields round-trip")
	for i := range d.BlockLocatorHashes {
		rt.Assert(rt.BytesEq(d.BlockLocatorHashes[i][:], loc[i][:]), "locator hashes round-trip")
	}
	rt.Cover("getheaders")
}

func proofHeader(version, ts, height uint32, prev, root []byte) *block.Header {
	return &block.Header{Version: version, PrevBlockHash: prev, MerkleRoot: root, Timestamp: ts, Height: height,
		ExtData: &block.ExtData{Proof: &block.Proof{Challenge: []byte{0x51}, Solution: []byte{}}}}
}

// getcfilters carries filter type 0, the start height and the stop hash, exactly when 0 <= stop-start < 1000.
//
//verif:harness prop=C03
func GetCFilters() {
	net := rt.Choose("network", 3)
	a := proofHeader(1, 2, rt.U32("start"), make([]byte, 32), make([]byte, 32))
	b := proofHeader(1, rt.U32("time"), rt.U32("stop"), rt.Bytes("prev", 32), rt.Bytes("root", 32))
	msg, err := protocol.NewGetCFilters(magic(net), a, b)
	ok := rt.And(a.Height <= b.Height, b.Height-a.Height < 1000)
	rt.Assert((err == nil) == ok, "range accepted exactly when 0 <= stop-start < 1000")
	if err != nil {
		rt.Cover("refused")
		return
	}
	h, err := b.Hash()
	rt.Assert(err == nil, "header hashes")
	checkMsg(msg, nil, net, "getcfilters", cat([]byte{0}, u32le(a.Height), h[:]))
	var d protocol.MsgGetCFilters
	rt.Assert(bin.NewDecoder(bytes.NewReader(msg.Payload)).Decode(&d) == nil, "getcfilters decodes")
	rt.Assert(d.FilterType == 0 && d.StartHeight == a.Height && d.StopHash == h, "getcfilters round-trips")
	rt.Cover("accepted")
}

// cfilter carries type 0, the block hash and the length-prefixed filter; it decodes back to the same hash and filter bytes.
//
//verif:harness prop=C03
func CFilter() {
	net := rt.Choose("network", 3)
	var h chainhash.Hash
	copy(h[:], rt.Bytes("hash", 32))
	ln := []int{0, 1, 5, 251, 252, 253, 300}[rt.Choose("len", 7)]
	data := make([]byte, ln)
	for i := range data {
		data[i] = byte(i)
	}
	if ln > 0 {
		data[0], data[ln-1] = rt.U8("d0"), rt.U8("dn")
	}
	n := []uint32{1, 0xfc, 0xfd, 0xffff, 0x10000}[rt.Choose("n", 5)]
	f, err := gcs.FromBytes(n, 19, 784931, data)
	rt.Assert(err == nil, "filter")
	nb, err := f.NBytes()
	rt.Assert(err == nil, "filter bytes")
	msg, err := protocol.NewMsgCFilter(magic(net), &h, f)
	checkMsg(msg, err, net, "cfilter", cat([]byte{0}, h[:], refVarint(uint64(len(nb))), nb))
	var d protocol.MsgCFilter
	r := bytes.NewReader(msg.Payload)
	rt.Assert(bin.NewDecoder(r).Decode(&d) == nil, "cfilter decodes")
	rt.Assert(r.Len() == 0, "cfilter is consumed")
	got, err := d.Filter.NBytes()
	rt.Assert(err == nil && rt.BytesEq(got, nb), "filter bytes round-trip")
	rt.Assert(*d.BlockHash == h && d.FilterType == 0, "filter hash round-trips")
	rt.Cover("cfilter")
}

// A filter that is decoded matches what the encoded filter matches, and nothing else.
//
//verif:harness prop=C03 steps=100
func CFilterUse() {
	n := []int{1, 2, 7, 60}[rt.Choose("items", 4)]
	var h chainhash.Hash
	h[0], h[31] = byte(n), 3
	key := builder.DeriveKey(&h)
	var items [][]byte
	for i := 0; i < n; i++ {
		items = append(items, []byte{0x51, byte(i), byte(i >> 8)})
	}
	f, err := gcs.BuildGCSFilter(builder.DefaultP, builder.DefaultM, key, items)
	rt.Assert(err == nil, "filter")
	msg, err := protocol.NewMsgCFilter(magic(1), &h, f)
	rt.Assert(err == nil, "cfilter is encoded")
	var d protocol.MsgCFilter
	rt.Assert(bin.NewDecoder(bytes.NewReader(msg.Payload)).Decode(&d) == nil, "cfilter decodes")
	rt.Assert(d.Filter.N() == uint32(n) && d.Filter.P() == builder.DefaultP, "the decoded filter has the parameters of the encoded one")
	for _, it := range items {
		ok, err := d.Filter.Match(key, it)
		rt.Assert(err == nil && ok, "a decoded filter matches its items")
	}
	for i := 0; i < 8; i++ {
		x := []byte{0x52, byte(i)}
		a, err1 := f.Match(key, x)
		b, err2 := d.Filter.Match(key, x)
		rt.Assert(err1 == nil && err2 == nil && a == b, "a decoded filter matches what the encoded one matches")
	}
}

// A filter that is not a basic one is never taken for one.
//
//verif:harness prop=C03
func CFilterType() {
	typ := rt.U8("type")
	p := cat([]byte{typ}, rt.Bytes("hash", 32), []byte{4, 1, 0x11, 0x22, 0x33})
	var d protocol.MsgCFilter
	err := bin.NewDecoder(bytes.NewReader(p)).Decode(&d)
	if err == nil {
		rt.Assert(d.FilterType == typ, "the type of a filter is kept")
	}
	rt.Assert(typ == 0 || err != nil, "a filter of an unknown type is refused")
	rt.Assert(typ != 0 || err == nil, "a basic filter is accepted")
}

// headers with proof or dynamic-federation block headers decode to the announced headers.
//
//verif:harness prop=C03
func Headers() {
	n := rt.Choose("count", rt.Param("maxHeaders", 3, 4))
	b := refVarint(uint64(n))
	var want []*block.Header
	for i := 0; i < n; i++ {
		h := proofHeader(rt.U32("version")&0x7fffffff, rt.U32("time"), rt.U32("height"), rt.Bytes("prev", 32), rt.Bytes("root", 32))
		h.ExtData.Proof.Challenge = rt.Bytes("challenge", rt.Choose("challengeLen", 2))
		h.ExtData.Proof.Solution = rt.Bytes("solution", rt.Choose("solutionLen", 2))
		want = append(want, h)
		b = cat(b, u32le(h.Version), h.PrevBlockHash, h.MerkleRoot, u32le(h.Timestamp), u32le(h.Height),
			[]byte{byte(len(h.ExtData.Proof.Challenge))}, h.ExtData.Proof.Challenge,
			[]byte{byte(len(h.ExtData.Proof.Solution))}, h.ExtData.Proof.Solution, []byte{0})
	}
	var d protocol.MsgHeaders
	rt.Assert(bin.NewDecoder(bytes.NewReader(b)).Decode(&d) == nil, "headers decodes")
	rt.Assert(len(d.Headers) == n, "headers count")
	for i, h := range d.Headers {
		w := want[i]
		rt.Assert(h.Version == w.Version && h.Timestamp == w.Timestamp && h.Height == w.Height, "header scalars")
		rt.Assert(rt.And(rt.BytesEq(h.PrevBlockHash, w.PrevBlockHash), rt.BytesEq(h.MerkleRoot, w.MerkleRoot)), "header hashes")
		rt.Assert(rt.And(rt.BytesEq(h.ExtData.Proof.Challenge, w.ExtData.Proof.Challenge), rt.BytesEq(h.ExtData.Proof.Solution, w.ExtData.Proof.Solution)), "header proof")
		rt.Observe("height", h.Height)
	}
	rt.Cover("headers")
}

// Headers of a dynamic federation decode to the announced headers.
//
//verif:harness prop=C03
func DynaHeaders() {
	version := rt.U32("version") | 1<<31
	limit := rt.U32("limit")
	params := func(name string) []byte {
		script := rt.Bytes(name, 2)
		switch rt.Choose(name, 3) {
		case 1:
			return cat([]byte{1, 2}, script, u32le(limit), rt.Bytes(name+" root", 32))
		case 2:
			return cat([]byte{2, 2}, script, u32le(limit), []byte{1, 0x51, 0, 2, 1}, rt.Bytes(name+" extension", 1), []byte{0})
		}
		return []byte{0}
	}
	b := cat(u32le(version), rt.Bytes("prev", 32), rt.Bytes("root", 32), u32le(rt.U32("time")), u32le(rt.U32("height")), params("current"), params("proposed"))
	n := rt.Choose("witness", 3)
	b = cat(b, []byte{byte(n)})
	for i := 0; i < n; i++ {
		b = cat(b, []byte{1}, rt.Bytes("item", 1))
	}
	last := cat(u32le(1), make([]byte, 72), []byte{1, 0x51, 0})
	var d protocol.MsgHeaders
	rt.Assert(bin.NewDecoder(bytes.NewReader(cat([]byte{2}, b, []byte{0}, last, []byte{0}))).Decode(&d) == nil, "headers decodes")
	rt.Assert(len(d.Headers) == 2, "headers count")
	for i, w := range [][]byte{b, last} {
		g, err := d.Headers[i].Serialize()
		rt.Assert(err == nil && rt.BytesEq(g, w), "header bytes")
	}
}

// A message of as many headers as the protocol allows decodes completely.
//
//verif:harness prop=C03 steps=200
func ManyHeaders() {
	n := []int{252, 253, 254, 2000}[rt.Choose("count", 4)]
	k := []int{1, 252, 253, 300}[rt.Choose("challenge", 4)]
	if n == 2000 && k != 1 {
		rt.Done()
	}
	script := make([]byte, k)
	script[k-1] = rt.U8("last byte")
	p := refVarint(uint64(n))
	for i := 0; i < n; i++ {
		p = append(p, u32le(0x20000000)...)
		p = append(p, make([]byte, 64)...)
		p = append(p, u32le(uint32(9*i))...)
		p = append(p, u32le(uint32(i))...)
		p = append(p, refVarint(uint64(k))...)
		p = append(p, script...)
		p = append(p, 1, byte(i), 0)
	}
	var d protocol.MsgHeaders
	rt.Assert(bin.NewDecoder(bytes.NewReader(p)).Decode(&d) == nil, "headers decodes")
	rt.Assert(len(d.Headers) == n, "headers count")
	for i, h := range d.Headers {
		rt.Assert(h.Version == 0x20000000 && h.Timestamp == uint32(9*i) && h.Height == uint32(i), "header scalars")
		rt.Assert(len(h.ExtData.Proof.Challenge) == k && h.ExtData.Proof.Challenge[k-1] == script[k-1] && h.ExtData.Proof.Solution[0] == byte(i), "header proof")
	}
}
