package main

import (
	"bytes"
	"context"
	"encoding/binary"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/btcsuite/btcd/wire"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

var bg = context.Background()

func u32le(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }

// ext is what follows the height of a header: a signed proof or the parameters of a dynamic federation.
func ext(form int) []byte {
	switch form {
	case 1: // nothing changes
		return []byte{0, 0, 1, 2, 9, 9}
	case 2: // compact parameters
		return cat([]byte{1, 1, 0x51}, u32le(100), make([]byte, 32), []byte{0, 2, 0, 1, 7})
	case 3: // a full proposal
		return cat([]byte{0, 2, 1, 0x51}, u32le(100), []byte{1, 0x52, 2, 0x53, 0x54, 2, 1, 7, 0, 1, 1, 5})
	case 4: // both, a long script
		s := make([]byte, 300)
		s[299] = 0x51
		return cat([]byte{2, 0xfd, 44, 1}, s, u32le(100), []byte{0, 0, 0, 1, 1, 0x51}, u32le(100), make([]byte, 31), []byte{8, 0})
	case 5: // a long proof
		s := make([]byte, 253)
		s[252] = 0x51
		return cat([]byte{0xfd, 253, 0}, s, []byte{0xfd, 253, 0}, s)
	}
	return []byte{1, 0x51, 1, 0x52}
}

// version of a header of a form.
func versionOf(form int) uint32 {
	if form >= 1 && form <= 4 {
		return 0x20000000 | 1<<31
	}
	return 0x20000000
}

// form is the form of the headers made.
var form int

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// headerBytes is a header on the wire.
func headerBytes(prev [32]byte, height uint32, tag []byte) []byte {
	var out []byte
	for _, b := range [][]byte{u32le(versionOf(form)), prev[:], make([]byte, 28), tag, u32le(1000), u32le(height), ext(form)} {
		out = append(out, b...)
	}
	return out
}

type rec struct {
	raw  []byte
	h    *block.Header
	hash chainhash.Hash
	prev [32]byte
}

func mk(prev [32]byte, height uint32, tag []byte) rec {
	raw := headerBytes(prev, height, tag)
	h, err := block.DeserializeHeader(bytes.NewBuffer(append([]byte(nil), raw...)))
	if err != nil {
		panic(err)
	}
	hash, err := h.Hash()
	if err != nil {
		panic(err)
	}
	return rec{raw, h, hash, prev}
}

func same(h *block.Header, r rec) bool {
	b, err := h.Serialize()
	return err == nil && rt.BytesEq(b, r.raw)
}

// history writes arbitrary headers in arbitrary batches and compares every query with the set of headers written.
func history(repo repository.BlockHeaderRepository, batches, size int, siblings bool) {
	var all, stored []rec
	missing := mk([32]byte{0xdd}, 77, []byte{1, 1, 1, 1})
	for b := 0; b < batches; b++ {
		n := rt.Choose("size", size+1)
		var hs []block.Header
		var batch []rec
		for i := 0; i < n; i++ {
			// a known header again, or a new one whose parent is arbitrary
			if len(all) > 0 && rt.Choose("again", 2) == 1 {
				r := all[rt.Choose("which", len(all))]
				hs = append(hs, *r.h)
				batch = append(batch, r)
				continue
			}
			var prev [32]byte
			height := uint32(1)
			if k := rt.Choose("parent", len(all)+2); k < len(all) {
				prev = all[k].hash
				height = all[k].h.Height + 1
			} else if k == len(all)+1 {
				prev = missing.hash
				height = uint32(2 + rt.Choose("orphan", 2))
			}
			tag := rt.Bytes("tag", 4)
			if !siblings { // one header per height
				for _, r := range all {
					rt.Assume(r.h.Height != height)
				}
			}
			r := mk(prev, height, tag)
			for _, o := range all { // new
				rt.Assume(o.hash != r.hash)
			}
			rt.Assume(r.hash != missing.hash)
			all = append(all, r)
			hs = append(hs, *r.h)
			batch = append(batch, r)
		}
		rt.Assert(repo.WriteHeaders(bg, hs...) == nil, "headers cannot be written")
		for i := range hs { // the repository must not depend on the caller's copies
			hs[i] = block.Header{Height: 1000}
		}
	next:
		for _, r := range batch {
			for _, o := range stored {
				if o.hash == r.hash {
					continue next
				}
			}
			stored = append(stored, r)
		}
	}
	query(repo, stored, missing)
}

func query(repo repository.BlockHeaderRepository, stored []rec, missing rec) {
	max := uint32(0)
	for _, r := range stored {
		if r.h.Height > max {
			max = r.h.Height
		}
	}
	what := rt.Choose("query", 4)
	rt.MapOrder(true)
	switch what {
	case 0: // by hash
		for _, r := range stored {
			h, err := repo.GetBlockHeader(bg, r.hash)
			rt.Assert(err == nil, "a written header is not found")
			rt.Assert(same(h, r), "another header is found under a hash")
		}
		_, err := repo.GetBlockHeader(bg, missing.hash)
		rt.Assert(err == repository.ErrBlockNotFound, "a header that was not written is found")
	case 1: // by height
		ht := uint32(rt.Choose("height", int(max)+2))
		g, err := repo.GetBlockHashByHeight(bg, ht)
		any, ok := false, false
		for _, r := range stored {
			if r.h.Height == ht {
				any = true
				ok = ok || err == nil && *g == r.hash
			}
		}
		if any {
			rt.Assert(err == nil && ok, "another header is found at a height")
		} else {
			rt.Assert(err != nil, "a header is found at a height that has none")
		}
	case 2: // the tip
		tip, err := repo.ChainTip(bg)
		if len(stored) == 0 {
			rt.Assert(err == repository.ErrNoBlocksHeaders, "an empty chain has a tip")
			_, err = repo.LatestBlockLocator(bg)
			rt.Assert(err == repository.ErrNoBlocksHeaders, "an empty chain has a locator")
			return
		}
		rt.Assert(err == nil && tip.Height == max, "the tip is not a highest header")
		ok := false
		for _, r := range stored {
			ok = ok || same(tip, r)
		}
		rt.Assert(ok, "the tip was not written")
	case 3: // ancestors
		for _, r := range stored {
			want := true
			for cur := r; cur.h.Height > 1; {
				found := false
				for _, o := range stored {
					if o.hash == cur.prev {
						cur, found = o, true
						break
					}
				}
				if !found {
					want = false
					break
				}
			}
			has, err := repo.HasAllAncestors(bg, r.hash)
			rt.Assert(err == nil && has == want, "HasAllAncestors is wrong")
		}
		_, err := repo.HasAllAncestors(bg, missing.hash)
		rt.Assert(err != nil, "an unknown header has all ancestors")
	}
}

// The in-memory header repository answers every query from exactly the headers written.
//
//verif:harness prop=S06
func InMemoryHeaders() {
	rt.FixedHashes()
	history(inmemory.NewHeaderInmemory(), rt.Param("batches", 2, 3), rt.Param("size", 2, 2), true)
}

// locatorOK checks a block locator of a complete chain of height n.
func locatorOK(repo repository.BlockHeaderRepository, c []rec) {
	n := len(c)
	loc, err := repo.LatestBlockLocator(bg)
	rt.Assert(err == nil && len(loc) > 0, "no block locator")
	rt.Assert(len(loc) <= wire.MaxBlockLocatorsPerMsg, "the block locator is too long")
	heights := make([]int, 0, len(loc))
	for _, l := range loc {
		at := 0
		for i := n - 1; i >= 0; i-- {
			if c[i].hash == *l {
				at = i + 1
				break
			}
		}
		rt.Assert(at > 0, "the block locator has an unknown hash")
		heights = append(heights, at)
	}
	rt.Assert(heights[0] == n, "the block locator does not start at the tip")
	dense := 0
	for i := 1; i < len(heights); i++ {
		gap := heights[i-1] - heights[i]
		rt.Assert(gap >= 0, "the block locator is not ordered from the tip down")
		if gap <= 1 {
			dense = i
		}
	}
	rt.Assert(heights[dense] <= n-8 || heights[dense] == 1, "the block locator skips recent headers")
	for i := 1; i < len(heights); i++ {
		gap := heights[i-1] - heights[i]
		limit := 1
		if i > 1 && heights[i-2] > heights[i-1] {
			limit = 2 * (heights[i-2] - heights[i-1])
		}
		rt.Assert(gap <= limit, "the block locator's gaps more than double")
	}
	last := heights[len(heights)-1]
	rt.Assert(last-1 <= n-last+10, "the block locator ends too far from the start of the chain")
}

func linked(repo repository.BlockHeaderRepository, n int, tag []byte) []rec {
	var c []rec
	var prev [32]byte
	for i := 1; i <= n; i++ {
		r := mk(prev, uint32(i), tag)
		prev = r.hash
		c = append(c, r)
		if err := repo.WriteHeaders(bg, *r.h); err != nil {
			panic(err)
		}
	}
	return c
}

// The block locator describes the stored chain from its tip: dense at first, then with growing gaps, only stored headers.
//
//verif:harness prop=S03
func InMemoryLocator() {
	rt.FixedHashes()
	repo := inmemory.NewHeaderInmemory()
	n := 1 + rt.Choose("height", rt.Param("height", 40, 150))
	locatorOK(repo, linked(repo, n, rt.Bytes("tag", 4)))
}

// The same for long chains.
//
//verif:harness prop=S03 steps=200
func LongLocator() {
	n := []int{100, 257, 520, 1024, 1500}[rt.Choose("height", 5)]
	if rt.Choose("store", 2) == 0 {
		repo := inmemory.NewHeaderInmemory()
		locatorOK(repo, linked(repo, n, []byte("abcd")))
		return
	}
	repo := headerRepo(newModel())
	locatorOK(repo, linked(repo, n, []byte("abcd")))
}

// Headers of every form are kept as they are.
func forms(repo repository.BlockHeaderRepository) {
	rt.FixedHashes()
	n := 1 + rt.Choose("length", 2)
	var c []rec
	var prev [32]byte
	for i := 0; i < n; i++ {
		form = rt.Choose("form", 6)
		r := mk(prev, uint32(i+1), rt.Bytes("tag", 4))
		prev = r.hash
		c = append(c, r)
	}
	form = 0
	missing := mk([32]byte{0xdd}, 77, []byte{1, 1, 1, 1})
	for _, r := range c {
		rt.Assert(repo.WriteHeaders(bg, *r.h) == nil, "headers cannot be written")
	}
	query(repo, c, missing)
}

//verif:harness prop=S06
func InMemoryForms() { forms(inmemory.NewHeaderInmemory()) }

//verif:harness prop=S07
func PgForms() { forms(headerRepo(newModel())) }
