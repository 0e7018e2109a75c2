package main

import (
	"bytes"

	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
)

// Every non-negative length is encoded as the shortest Bitcoin CompactSize, little endian, and decodes to itself.
//
//verif:harness prop=C01
func VarintShortest() {
	n := rt.U64("n")
	rt.Assume(n < 1<<63)
	v, err := protocol.NewVarint(int(n))
	rt.Assert(err == nil, "a length can be turned into a varint")
	b, err := binary.Marshal(&v)
	rt.Assert(err == nil, "a varint can be encoded")
	want := refVarint(n)
	rt.Assert(rt.BytesEq(b, want), "encoding is the shortest CompactSize form")
	var d protocol.VarInt
	err = d.UnmarshalBinary(bytes.NewReader(b))
	rt.Assert(err == nil, "encoded varint decodes")
	i, err := d.Int()
	rt.Assert(err == nil && uint64(i) == n, "varint round-trips")
	rt.Cover("round trip")
	rt.Observe("enc", b)
}

func refVarint(n uint64) []byte {
	le := func(p byte, k int) []byte {
		r := []byte{p}
		for i := 0; i < k; i++ {
			r = append(r, byte(n>>(8*uint(i))))
		}
		return r
	}
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return le(0xfd, 2)
	case n <= 0xffffffff:
		return le(0xfe, 4)
	}
	return le(0xff, 8)
}

// A value handed over in any integer type, by value or by pointer, and a value read in a longer form, are written in the shortest form.
//
//verif:harness prop=C01
func VarintTyped() {
	n := rt.U64("n")
	var x interface{}
	t := rt.Choose("type", 5)
	switch t {
	case 0:
		rt.Assume(n <= 0xff)
		x = uint8(n)
	case 1:
		rt.Assume(n <= 0xffff)
		x = uint16(n)
	case 2:
		rt.Assume(n <= 0xffffffff)
		x = uint32(n)
	case 3, 4:
		rt.Assume(n < 1<<63)
		x = n
	}
	var v protocol.VarInt
	switch {
	case t == 4: // read in the long form
		raw := []byte{0xff}
		for i := 0; i < 8; i++ {
			raw = append(raw, byte(n>>(8*uint(i))))
		}
		rt.Assert(v.UnmarshalBinary(bytes.NewReader(raw)) == nil, "a long form is not read")
	case rt.Choose("new", 2) == 1:
		var err error
		v, err = protocol.NewVarint(x)
		rt.Assert(err == nil, "an unsigned value can be turned into a varint")
	default:
		v = protocol.VarInt{Value: x}
	}
	i, err := v.Int()
	rt.Assert(err == nil && uint64(i) == n, "a varint changes its value")
	var b []byte
	if rt.Choose("pointer", 2) == 1 {
		b, err = binary.Marshal(&v)
	} else {
		b, err = binary.Marshal(v)
	}
	rt.Assert(err == nil, "a varint can be encoded")
	rt.Assert(rt.BytesEq(b, refVarint(n)), "encoding is the shortest CompactSize form")
	rt.Observe("enc", b)
}
