package main

import (
	"bytes"
	"sync"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

// Readers and writers of the in-memory header store at the same time: no data race, and every answer is that of a moment.
//
//verif:harness prop=S11
func ConcurrentHeaders() {
	rt.FixedHashes()
	rt.Race(true)
	repo := inmemory.NewHeaderInmemory()
	var c []rec
	var prev [32]byte
	for i := 1; i <= 4; i++ {
		r := mk(prev, uint32(i), []byte{1, 2, 3, 4})
		prev = r.hash
		c = append(c, r)
	}
	rt.Assert(repo.WriteHeaders(bg, *c[0].h) == nil, "headers cannot be written")
	pair := rt.Choose("batch", 2) == 1
	what := rt.Choose("reader", 5)
	rt.Explore(rt.Param("delays", 2, 3))
	var wg sync.WaitGroup
	readers := rt.Param("readers", 1, 2)
	wg.Add(1 + readers)
	go func() {
		defer wg.Done()
		if pair {
			rt.Assert(repo.WriteHeaders(bg, *c[1].h, *c[2].h) == nil, "headers cannot be written")
		} else {
			rt.Assert(repo.WriteHeaders(bg, *c[1].h) == nil, "headers cannot be written")
			rt.Assert(repo.WriteHeaders(bg, *c[2].h) == nil, "headers cannot be written")
		}
		h, err := repo.ChainTip(bg)
		rt.Assert(err == nil && h.Height >= 3, "a header that was written is not seen")
	}()
	reader := func() {
		defer wg.Done()
		low := uint32(1)
		for i := 0; i < 2; i++ {
			switch what {
			case 0:
				h, err := repo.ChainTip(bg)
				rt.Assert(err == nil && h != nil, "the tip cannot be read while headers are written")
				rt.Assert(h.Height >= low && h.Height <= 3 && same(h, c[h.Height-1]), "the tip is none of the headers written")
				rt.Assert(!pair || h.Height != 2, "a batch is seen in part")
				low = h.Height
			case 1:
				h, err := repo.GetBlockHashByHeight(bg, 2)
				rt.Assert(err != nil && low == 1 || err == nil && *h == c[1].hash, "another header is found at a height")
				if err == nil {
					low = 2
				}
			case 2:
				h, err := repo.GetBlockHeader(bg, c[2].hash)
				rt.Assert(err != nil && low == 1 || err == nil && same(h, c[2]), "another header is found under a hash")
				if err == nil {
					low = 3
				}
			case 3:
				l, err := repo.LatestBlockLocator(bg)
				rt.Assert(err == nil && len(l) > 0, "no block locator while headers are written")
				k := 0
				for j := 0; j < 3; j++ {
					if c[j].hash == *l[0] {
						k = j + 1
					}
				}
				rt.Assert(uint32(k) >= low, "the block locator does not start at the tip of a moment")
				low = uint32(k)
			case 4:
				ok, err := repo.HasAllAncestors(bg, c[2].hash)
				rt.Assert(err != nil && low == 1 || err == nil && ok, "the ancestors of a stored header are missed")
				if err == nil {
					low = 3
				}
			}
		}
	}
	for i := 0; i < readers; i++ {
		go reader()
	}
	wg.Wait()
	rt.StopExplore()
	h, err := repo.ChainTip(bg)
	rt.Assert(err == nil && same(h, c[2]), "the tip is not the last header written")
}

// The same for two writers.
//
//verif:harness prop=S11
func ConcurrentWriters() {
	rt.FixedHashes()
	rt.Race(true)
	headers := inmemory.NewHeaderInmemory()
	filters := inmemory.NewFilterInmemory()
	var rs [2]rec
	for i := range rs {
		rs[i] = mk([32]byte{}, uint32(1), []byte{byte(i), 2, 3, 4})
	}
	kind := rt.Choose("kind", 3)
	fs := [2]frec{{bytes.Repeat([]byte{1}, 32), 0, []byte{1, 11}}, {bytes.Repeat([]byte{2}, 32), 0, []byte{1, 22}}}
	if kind == 2 {
		fs[1].hash = fs[0].hash
	}
	rt.Explore(rt.Param("delays", 2, 3))
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			defer wg.Done()
			if kind == 0 {
				rt.Assert(headers.WriteHeaders(bg, []block.Header{*rs[i].h}...) == nil, "headers cannot be written")
				_, err := headers.GetBlockHeader(bg, rs[i].hash)
				rt.Assert(err == nil, "a header that was written is not seen")
				return
			}
			rt.Assert(filters.PutFilter(bg, filterEntry(fs[i], 0)) == nil, "a filter cannot be stored")
			f, err := filters.GetFilter(bg, repository.FilterKey{BlockHash: fs[i].hash})
			rt.Assert(err == nil && (rt.BytesEq(f.NBytes, fs[i].n) || kind == 2 && rt.BytesEq(f.NBytes, fs[1-i].n)), "a stored filter is not found")
		}()
	}
	wg.Wait()
	rt.StopExplore()
	for i := range rs {
		if kind == 0 {
			h, err := headers.GetBlockHeader(bg, rs[i].hash)
			rt.Assert(err == nil && same(h, rs[i]), "a header is lost")
		} else {
			f, err := filters.GetFilter(bg, repository.FilterKey{BlockHash: fs[i].hash})
			rt.Assert(err == nil && (rt.BytesEq(f.NBytes, fs[i].n) || kind == 2 && rt.BytesEq(f.NBytes, fs[1-i].n)), "a filter is lost")
		}
	}
}
