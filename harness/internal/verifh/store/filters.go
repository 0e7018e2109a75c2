package main

import (
	"encoding/hex"

	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

type frec struct {
	hash []byte
	ft   byte
	n    []byte
}

func filterEntry(f frec, spare int) *repository.FilterEntry {
	g, err := gcs.FromNBytes(19, 784931, append([]byte(nil), f.n...))
	if err != nil {
		panic(err)
	}
	h := make([]byte, 32, 32+spare) // spare capacity behind the hash
	copy(h, f.hash)
	e, err := repository.NewFilterEntry(repository.FilterKey{BlockHash: h, FilterType: repository.FilterType(f.ft)}, g)
	if err != nil {
		panic(err)
	}
	return e
}

// filterHistory stores filters under arbitrary keys and reads every key back.
func filterHistory(repo repository.FilterRepository, n int, overwrite bool) {
	var rs []frec
	var read []*repository.FilterEntry
	var want [][]byte
	get := func(h []byte, ft byte) (*repository.FilterEntry, error) {
		return repo.GetFilter(bg, repository.FilterKey{BlockHash: append([]byte(nil), h...), FilterType: repository.FilterType(ft)})
	}
	for i := 0; i < n; i++ {
		f := frec{append(rt.Bytes("hash", 2), make([]byte, 30)...), rt.U8("type"), append([]byte{byte(1 + i)}, rt.Bytes("filter", 2)...)}
		if rt.Choose("last byte", 2) == 1 {
			f.hash[31] = 1
		}
		_, err := get(f.hash, f.ft)
		idx := -1
		for j, r := range rs {
			if rt.BytesEq(r.hash, f.hash) && r.ft == f.ft {
				idx = j
			}
		}
		rt.Assert((err == nil) == (idx >= 0), "a filter is found iff one was stored under its key")
		if err != nil {
			rt.Assert(err == repository.ErrFilterNotFound, "a missing filter gives another error")
		}
		e := filterEntry(f, rt.Choose("spare", 2)*8)
		err = repo.PutFilter(bg, e)
		if idx >= 0 && !overwrite {
			rt.Assert((err == nil) == rt.BytesEq(rs[idx].n, f.n), "storing another filter under a used key is not refused")
			continue
		}
		rt.Assert(err == nil, "a filter cannot be stored")
		if idx >= 0 {
			rs[idx] = f
		} else {
			rs = append(rs, f)
		}
		for _, r := range rs {
			g, err := get(r.hash, r.ft)
			rt.Assert(err == nil, "a stored filter is not found")
			rt.Assert(rt.BytesEq(g.NBytes, r.n), "another filter is found")
			rt.Assert(rt.BytesEq(g.Key.BlockHash, r.hash) && byte(g.Key.FilterType) == r.ft, "a filter is found under another key")
			_, err = g.GcsFilter()
			rt.Assert(err == nil, "a stored filter cannot be decoded")
			read = append(read, g)
			want = append(want, r.n)
		}
	}
	for i, g := range read {
		rt.Assert(rt.BytesEq(g.NBytes, want[i]), "a filter changes after it was read")
	}
}

// The in-memory filter repository returns exactly the filter stored under a block hash and type.
//
//verif:harness prop=S08
func InMemoryFilters() {
	rt.FixedHashes()
	filterHistory(inmemory.NewFilterInmemory(), rt.Param("filters", 3, 4), true)
}

// Computing a key does not write behind the hash it is given.
//
//verif:harness prop=S08
func KeyPure() {
	rt.FixedHashes()
	buf := rt.Bytes("hash", 40)
	old := append([]byte(nil), buf...)
	k := repository.FilterKey{BlockHash: buf[:32], FilterType: repository.FilterType(rt.U8("type"))}
	a, b := k.String(), k.String()
	rt.Assert(a == b, "a key is not a function of its hash and type")
	rt.Assert(rt.BytesEq(buf, old), "computing a key changes the caller's memory")
}

// Blocks whose hashes agree on no more than 40 bits of the key have keys of their own.
//
//verif:harness prop=S08
func KeysDiffer() {
	x, _ := hex.DecodeString(collision40A)
	y, _ := hex.DecodeString(collision40B)
	repo := inmemory.NewFilterInmemory()
	repo.PutFilter(bg, filterEntry(frec{x, 0, []byte{1, 2}}, 0))
	_, err := repo.GetFilter(bg, repository.FilterKey{BlockHash: y})
	rt.Assert(err == repository.ErrFilterNotFound, "a filter is found under another block's key (40 bits)")
}

// Two blocks whose keys agree on 48 bits.
//
//verif:harness prop=S08
func KeyCollision() {
	x, _ := hex.DecodeString(collisionA)
	y, _ := hex.DecodeString(collisionB)
	repo := inmemory.NewFilterInmemory()
	rt.Known("filter-key-48-bits", true)
	repo.PutFilter(bg, filterEntry(frec{x, 0, []byte{1, 2}}, 0))
	_, err := repo.GetFilter(bg, repository.FilterKey{BlockHash: y})
	rt.Assert(err == repository.ErrFilterNotFound, "a filter is found under the key of another block")
}

const (
	collision40A = "e3243ede1782c235191423dd2ebaf5cd246fa63adb1d0eaff3806048b3cedecb"
	collision40B = "21ec08ed9350071ea36ff8713126bffd8d4ca8544ceb506653bf5f89fe0c4a0f"
	collisionA   = "b02b69e7f6e466009c68107c928539876dceac0d4e3ff0d49a5ea675e005a307"
	collisionB   = "c046b11f76edc29db9a3aaf88e7ef50c17ace6f87b72c1dd9f9f3c8bd93a1dc6"
)
