package main

import (
	"encoding/hex"
	"errors"
	"unsafe"

	"github.com/vulpemventures/go-elements/descriptor"
)

const xpub = "xpub6BosfCnifzxcFwrSzQiqu2DBVTshkCXacvNsWGYJVVhhawA7d4R5WSWGFNbi8Aw6ZRc1brxMyWMzG3DSSSSoekkudhUd9yLb6qx39T9nMdj"

// descs are wallet descriptors with some of their scripts.
var descs = []struct {
	desc    string
	scripts []string
}{
	{"elwpkh(" + xpub + "/0/*)", []string{"0014d986ed01b7a22225a70edbf2ba7cfb63a15cb3aa", "0014fd1ede12c06329651ab277fcf475219940f4b0a6", "00142103f5b50991f0d7a1c3ff9421e3ca002965231c"}}, // 0, 57, 99
	{"elwpkh(" + xpub + "/0/5)", []string{"00145e03f9c910d0b48b9e720bfaeeb9fb32ca56fbad"}},
	{"elwpkh(0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798)", []string{"0014751e76e8199196d454941c45d1b3a323f1433bd6"}},
}

// current is the descriptor registered, -1 if its keys are invalid.
var current = -1

// scriptModel replaces the key derivation under the engine; natively the real one runs.
//
//verif:replace (github.com/vulpemventures/go-elements/descriptor.WpkhWallet).Script
func scriptModel(w descriptor.WpkhWallet, opts *descriptor.ScriptOpts) ([]descriptor.ScriptResponse, error) {
	if current < 0 {
		return nil, errors.New("invalid extended key")
	}
	d := descs[current]
	if len(d.scripts) == 1 {
		return []descriptor.ScriptResponse{{Script: unhex(d.scripts[0])}}, nil
	}
	nth := func(i int) descriptor.ScriptResponse {
		switch i {
		case 0:
			return descriptor.ScriptResponse{Script: unhex(d.scripts[0])}
		case 57:
			return descriptor.ScriptResponse{Script: unhex(d.scripts[1])}
		case 99:
			return descriptor.ScriptResponse{Script: unhex(d.scripts[2])}
		}
		return descriptor.ScriptResponse{Script: []byte{0, 2, byte(i), 0xcc}}
	}
	o := (*struct {
		index *uint32
		num   *int
	})(unsafe.Pointer(opts))
	if o == nil {
		return []descriptor.ScriptResponse{nth(0)}, nil
	}
	if o.num == nil {
		return []descriptor.ScriptResponse{nth(int(*o.index))}, nil
	}
	var out []descriptor.ScriptResponse
	for i := 0; i < *o.num; i++ {
		out = append(out, nth(i))
	}
	return out, nil
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}
