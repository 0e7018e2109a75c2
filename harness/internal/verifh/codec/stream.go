package main

import (
	"bytes"
	"io"

	"github.com/btcsuite/btcd/btcutil/gcs"
	bin "github.com/vulpemventures/neutrino-elements/pkg/binary"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
)

// segReader delivers data in segments that end at the given cut points.
type segReader struct {
	data []byte
	off  int
	cuts []int
	each bool
}

func (s *segReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.off == len(s.data) {
		return 0, io.EOF
	}
	end := len(s.data)
	for _, c := range s.cuts {
		if c > s.off && c < end {
			end = c
		}
	}
	if s.each {
		end = s.off + 1
	}
	n := copy(p, s.data[s.off:end])
	s.off += n
	return n, nil
}

func elementsTx() []byte {
	asset := append([]byte{1}, rt.Bytes("asset", 2)...)
	asset = append(asset, make([]byte, 30)...)
	return cat(u32le(rt.U32("txversion")), []byte{0, 1}, rt.Bytes("prevout", 2), make([]byte, 30), u32le(3), []byte{2, 0x51, 0x52}, u32le(rt.U32("sequence")),
		[]byte{1}, asset, []byte{1, 0, 0, 0, 0, 0, 0, 3, 232}, []byte{0}, []byte{1, 0x51}, u32le(rt.U32("locktime")))
}

func wireHeader(h uint32) []byte {
	return cat(u32le(rt.U32("hversion")&0x7fffffff), rt.Bytes("hprev", 2), make([]byte, 30), make([]byte, 30), rt.Bytes("hroot", 2), u32le(rt.U32("htime")), u32le(h),
		[]byte{1, 0x51, 2, rt.U8("sol"), 7})
}

// decoders: a well-formed payload and a decoder returning a digest of every decoded field.
type decoder struct {
	name string
	make func() []byte
	dec  func(r io.Reader) ([]byte, error)
}

func decoders() []decoder {
	return []decoder{
		{"header", func() []byte {
			return cat(rt.Bytes("magic", 4), rt.Bytes("cmd", 12), u32le(rt.U32("len")), rt.Bytes("sum", 4))
		}, func(r io.Reader) ([]byte, error) {
			var h protocol.MessageHeader
			err := bin.NewDecoder(r).Decode(&h)
			return cat(h.Magic[:], h.Command[:], u32le(h.Length), h.Checksum[:]), err
		}},
		{"version", func() []byte {
			return cat(u32le(70016), u64le(rt.U64("svc")), u64le(5), u64le(1), make([]byte, 10), []byte{0xff, 0xff}, rt.Bytes("ip", 4), u16be(rt.U16("port")),
				u64le(1), make([]byte, 10), []byte{0xff, 0xff, 127, 0, 0, 1}, u16be(1), u64le(rt.U64("nonce")), []byte{5}, rt.Bytes("ua", 5), u32le(rt.U32("height")), []byte{1})
		}, func(r io.Reader) ([]byte, error) {
			var d protocol.MsgVersion
			err := bin.NewDecoder(r).Decode(&d)
			rl := byte(0)
			if d.Relay {
				rl = 1
			}
			return cat(u32le(uint32(d.Version)), u64le(d.Services), u64le(uint64(d.Timestamp)), d.AddrRecv.IP[:], u16be(d.AddrRecv.Port), d.AddrFrom.IP[:], u16be(d.AddrFrom.Port),
				u64le(d.Nonce), []byte(d.UserAgent.String), u32le(uint32(d.StartHeight)), []byte{rl}), err
		}},
		{"ping", func() []byte { return u64le(rt.U64("nonce")) }, func(r io.Reader) ([]byte, error) {
			var d protocol.MsgPing
			err := bin.NewDecoder(r).Decode(&d)
			return u64le(d.Nonce), err
		}},
		{"inv", func() []byte {
			return cat([]byte{0xfd, 2, 0}, u32le(rt.U32("t")), rt.Bytes("h", 32), u32le(rt.U32("t")), rt.Bytes("h", 32))
		}, func(r io.Reader) ([]byte, error) {
			var d protocol.MsgInv
			err := bin.NewDecoder(r).Decode(&d)
			b := []byte{}
			for _, i := range d.Inventory {
				b = cat(b, u32le(i.Type), i.Hash[:])
			}
			return b, err
		}},
		{"headers", func() []byte {
			return cat([]byte{2}, wireHeader(rt.U32("height")), []byte{0}, wireHeader(rt.U32("height")), []byte{0})
		}, func(r io.Reader) ([]byte, error) {
			var d protocol.MsgHeaders
			err := bin.NewDecoder(r).Decode(&d)
			b := []byte{}
			for _, h := range d.Headers {
				b = cat(b, u32le(h.Version), h.PrevBlockHash, h.MerkleRoot, u32le(h.Timestamp), u32le(h.Height), h.ExtData.Proof.Solution)
			}
			return b, err
		}},
		{"getheaders", func() []byte {
			return cat(u32le(70016), []byte{2}, rt.Bytes("l1", 32), rt.Bytes("l2", 32), rt.Bytes("stop", 32))
		}, func(r io.Reader) ([]byte, error) {
			var d protocol.MsgGetHeaders
			err := bin.NewDecoder(r).Decode(&d)
			b := u32le(d.Version)
			for _, h := range d.BlockLocatorHashes {
				b = cat(b, h[:])
			}
			return cat(b, d.HashStop[:]), err
		}},
		{"getcfilters", func() []byte { return cat([]byte{0}, u32le(rt.U32("start")), rt.Bytes("stop", 32)) }, func(r io.Reader) ([]byte, error) {
			var d protocol.MsgGetCFilters
			err := bin.NewDecoder(r).Decode(&d)
			return cat([]byte{d.FilterType}, u32le(d.StartHeight), d.StopHash[:]), err
		}},
		{"cfilter", func() []byte {
			f, _ := gcs.FromBytes(3, 19, 784931, rt.Bytes("filter", 6))
			nb, _ := f.NBytes()
			return cat([]byte{0}, rt.Bytes("hash", 32), []byte{byte(len(nb))}, nb)
		}, func(r io.Reader) ([]byte, error) {
			var d protocol.MsgCFilter
			err := bin.NewDecoder(r).Decode(&d)
			if err != nil {
				return nil, err
			}
			nb, _ := d.Filter.NBytes()
			return cat(d.BlockHash[:], nb), err
		}},
		{"tx", elementsTx, func(r io.Reader) ([]byte, error) {
			var d protocol.MsgTx
			err := bin.NewDecoder(r).Decode(&d)
			if err != nil {
				return nil, err
			}
			return d.Serialize()
		}},
		{"block", func() []byte { return cat(wireHeader(rt.U32("height")), []byte{1}, elementsTx()) }, func(r io.Reader) ([]byte, error) {
			var d protocol.MsgBlock
			err := bin.NewDecoder(r).Decode(&d)
			if err != nil {
				return nil, err
			}
			h := d.Header
			b := cat(u32le(h.Version), h.PrevBlockHash, h.MerkleRoot, u32le(h.Timestamp), u32le(h.Height), h.ExtData.Proof.Solution)
			for _, t := range d.TransactionsData.Transactions {
				s, err := t.Serialize()
				if err != nil {
					return nil, err
				}
				b = cat(b, s)
			}
			return b, err
		}},
	}
}

// For every message type and every way of cutting the stream in two (thorough: three) segments or single bytes, decoding gives the same fields as decoding the whole payload.
//
//verif:harness prop=C04
func Segments() {
	ds := decoders()
	d := ds[rt.Choose("message", len(ds))]
	b := d.make()
	want, err := d.dec(bytes.NewReader(b))
	rt.Assert(err == nil, d.name+": a well-formed payload decodes")
	s := &segReader{data: b}
	switch rt.Choose("mode", rt.Param("modes", 2, 3)) {
	case 0:
		s.each = true
	case 1:
		s.cuts = []int{1 + rt.Choose("cut", len(b)-1)}
	case 2:
		c := 1 + rt.Choose("cut", len(b)-1)
		s.cuts = []int{c, c + 1 + rt.Choose("second", 8)}
	}
	got, err := d.dec(s)
	rt.Assert(err == nil, d.name+": a segmented payload decodes")
	rt.Assert(len(got) == len(want) && rt.BytesEq(got, want), d.name+": segmentation does not change the decoded message")
	rt.Assert(s.off == len(b), d.name+": the payload is consumed exactly")
	rt.Cover(d.name)
	rt.Observe("digest", got)
}

// Every strict prefix of a well-formed payload is refused.
//
//verif:harness prop=C04
func Truncated() {
	ds := decoders()
	d := ds[rt.Choose("message", len(ds))]
	b := d.make()
	n := rt.Choose("kept", len(b))
	_, err := d.dec(&segReader{data: b[:n]})
	rt.Assert(err != nil, d.name+": a truncated payload is refused")
	rt.Cover(d.name)
}

func hostile(name string, b []byte, dec func(r io.Reader) ([]byte, error)) {
	rt.Observe("len", len(b))
	_, err := dec(bytes.NewReader(b))
	rt.Observe("refused", err != nil)
	rt.Cover(name)
}

func dec(name string) func(r io.Reader) ([]byte, error) {
	for _, d := range decoders() {
		if d.name == name {
			return d.dec
		}
	}
	return nil
}

// Arbitrary bytes given to any decoder end in a value or an error: no panic, and no allocation beyond the received data.
//
//verif:harness prop=C05
func HostileSmall() {
	names := []string{"header", "version", "ping", "inv", "headers", "getheaders", "getcfilters", "cfilter", "tx", "block"}
	n := names[rt.Choose("message", len(names))]
	l := rt.Choose("len", rt.Param("maxLen", 13, 20))
	if n == "tx" && l > 7 {
		l = 7
	}
	hostile(n, rt.Bytes("b", l), dec(n))
}

// Counts and lengths of every size in a version, inv, getheaders or cfilter payload are handled.
//
//verif:harness prop=C05
func HostileLengths() {
	v := cat([]byte{0xff}, rt.Bytes("len", 8))
	switch rt.Choose("width", 4) {
	case 1:
		v = cat([]byte{0xfe}, v[1:5])
	case 2:
		v = cat([]byte{0xfd}, v[1:3])
	case 3:
		v = v[1:2]
	}
	tail := rt.Bytes("tail", rt.Choose("tailLen", rt.Param("maxTail", 3, 40)))
	n := uint64(0)
	if len(v) == 1 {
		n = uint64(v[0])
	} else {
		for i := len(v) - 1; i >= 1; i-- {
			n = n<<8 | uint64(v[i])
		}
	}
	rt.Assume(rt.Or(n <= 8, rt.Or(n >= 2048, rt.And(n >= 252, n <= 256)))) // lengths in between behave like 252
	switch rt.Choose("message", 5) {
	case 0:
		hostile("version", cat(make([]byte, 4+8+8+26+26+8), v, tail), dec("version"))
	case 1:
		hostile("inv", cat(v, tail), dec("inv"))
	case 2:
		hostile("getheaders", cat(u32le(70016), v, tail), dec("getheaders"))
	case 3:
		hostile("cfilter", cat([]byte{0}, make([]byte, 32), v, tail), dec("cfilter"))
	case 4:
		hostile("headers", cat(v, tail), dec("headers"))
	}
}

// A header whose proof or dynamic-federation length fields are arbitrary is handled.
//
//verif:harness prop=C05
func HostileHeader() {
	ext := rt.Bytes("ext", rt.Choose("extLen", rt.Param("maxExt", 7, 9)))
	for _, c := range ext {
		rt.Assume(rt.Or(c < 3, c >= 0xfd)) // type tags, small lengths and the varint prefixes
	}
	b := cat([]byte{1}, u32le(rt.U32("version")), make([]byte, 64+8), ext)
	hostile("headers", b, func(r io.Reader) ([]byte, error) {
		var d protocol.MsgHeaders
		return nil, bin.NewDecoder(r).Decode(&d)
	})
}
