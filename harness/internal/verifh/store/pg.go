package main

import (
	"bytes"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	dbpg "github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/pg"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

func headerRepo(m *model) repository.BlockHeaderRepository {
	r, err := dbpg.NewHeaderRepositoryImpl(&dbpg.DbService{Db: open(m)})
	if err != nil {
		panic(err)
	}
	return r
}

func filterRepo(m *model) repository.FilterRepository {
	r, err := dbpg.NewFilterRepositoryImpl(&dbpg.DbService{Db: open(m)})
	if err != nil {
		panic(err)
	}
	return r
}

// The PostgreSQL header repository answers every query from exactly the headers written.
//
//verif:harness prop=S07
func PgHeaders() {
	rt.FixedHashes()
	history(headerRepo(newModel()), rt.Param("batches", 2, 3), 2, false)
}

// A header of any height and a filter of any size fit in the tables that the migrations make.
//
//verif:harness prop=S07
func PgHeights() {
	rt.FixedHashes()
	repo := headerRepo(newModel())
	ht := rt.U32("height")
	rt.Assume(ht < 1<<31)
	r := mk([32]byte{1}, ht, rt.Bytes("tag", 4))
	r2 := mk(r.hash, 7, []byte("abcd"))
	rt.Assume(ht > 7)
	rt.Assert(repo.WriteHeaders(bg, *r2.h, *r.h) == nil, "a header cannot be stored")
	tip, err := repo.ChainTip(bg)
	rt.Assert(err == nil && tip.Height == ht, "the highest header is not the tip")
	h, err := repo.GetBlockHashByHeight(bg, ht)
	rt.Assert(err == nil && rt.BytesEq(h[:], r.hash[:]), "a header is not found by its height")
	got, err := repo.GetBlockHeader(bg, *h)
	rt.Assert(err == nil && got.Height == ht, "a header is not found by its hash")
	filters := filterRepo(newModel())
	nb := make([]byte, []int{1, 300, 5000, 70000}[rt.Choose("filter", 4)])
	k := repository.FilterKey{BlockHash: r.hash[:]}
	rt.Assert(filters.PutFilter(bg, &repository.FilterEntry{Key: k, NBytes: nb}) == nil, "a filter cannot be stored")
	f, err := filters.GetFilter(bg, k)
	rt.Assert(err == nil && rt.BytesEq(f.NBytes, nb), "another filter is returned")
}

// The block locator read from the database.
//
//verif:harness prop=S03
func PgLocator() {
	rt.FixedHashes()
	repo := headerRepo(newModel())
	n := 1 + rt.Choose("height", rt.Param("height", 25, 60))
	locatorOK(repo, linked(repo, n, rt.Bytes("tag", 4)))
}

// The PostgreSQL filter repository returns exactly the filter stored under a block hash and type.
//
//verif:harness prop=S08
func PgFilters() {
	rt.FixedHashes()
	filterHistory(filterRepo(newModel()), rt.Param("filters", 3, 4), false)
}

// A failure of the database at any operation is reported, stores nothing, is never taken for an answer, and does not stay.
//
//verif:harness prop=S07
func PgFailures() {
	rt.FixedHashes()
	m := newModel()
	repo := headerRepo(m)
	k := rt.Choose("stored", 3)
	c := linked(repo, k+2, []byte{1, 2, 3, 4}[:4])
	_ = c
	m2 := newModel()
	repo = headerRepo(m2)
	for i := 0; i < k; i++ {
		rt.Assert(repo.WriteHeaders(bg, *c[i].h) == nil, "headers cannot be written")
	}
	m2.ops, m2.failAt = 0, rt.Choose("fail at", 5)
	var err error
	what := rt.Choose("operation", 8)
	last := chainhash.Hash(c[len(c)-1].hash)
	if k > 0 {
		last = c[k-1].hash
	}
	switch what {
	case 0:
		err = repo.WriteHeaders(bg, *c[k].h, *c[k+1].h)
	case 1:
		_, err = repo.ChainTip(bg)
	case 2:
		_, err = repo.GetBlockHeader(bg, last)
	case 3:
		_, err = repo.GetBlockHashByHeight(bg, uint32(k))
	case 4:
		_, err = repo.LatestBlockLocator(bg)
	case 5:
		_, err = repo.HasAllAncestors(bg, last)
	case 6:
		err = repo.WriteHeaders(bg, *c[k].h, *c[k].h)
	case 7: // a header that is stored comes again, with a new one
		if k == 0 {
			return
		}
		err = repo.WriteHeaders(bg, *c[k-1].h, *c[k].h)
	}
	rt.Assert(m2.open == 0, "a database transaction is left open")
	failed := m2.failed
	m2.failAt = -1
	if failed {
		rt.Cover("failure")
		rt.Assert(err != nil, "a failure of the database is not reported")
		rt.Assert(err != repository.ErrNoBlocksHeaders && err != repository.ErrBlockNotFound, "a failure of the database is taken for an empty chain")
	} else {
		rt.Assert((err == nil) == (k > 0 || what == 0 || what == 6), "an operation fails without a failure of the database")
	}
	n := k
	if err == nil && what == 0 {
		n = k + 2
	}
	if err == nil && what >= 6 {
		n = k + 1
	}
	for i := range c {
		h, err := repo.GetBlockHeader(bg, c[i].hash)
		rt.Assert((err == nil) == (i < n), "a failed write is stored in part, or a successful one is not stored")
		rt.Assert(err != nil || same(h, c[i]), "another header is found under a hash")
	}
}

// A damaged row is reported as an error, never taken for an answer.
//
//verif:harness prop=S07
func PgDamage() {
	rt.FixedHashes()
	m := newModel()
	repo := headerRepo(m)
	k := 1 + rt.Choose("stored", 2)
	c := linked(repo, k, []byte{1, 2, 3, 4})
	t := m.state["block_header"]
	r := append(row(nil), t.rows[k-1]...)
	for j, v := range r {
		if b, ok := v.([]byte); ok && len(b) > 40 {
			r[j] = b[:rt.Choose("length", len(b))]
		}
	}
	t.rows[k-1] = r
	last := chainhash.Hash(c[k-1].hash)
	switch rt.Choose("operation", 5) {
	case 0:
		h, err := repo.ChainTip(bg)
		rt.Assert(err != nil && h == nil, "a damaged header is taken for the tip")
	case 1:
		h, err := repo.GetBlockHeader(bg, last)
		rt.Assert(err != nil && h == nil, "a damaged header is returned")
	case 2:
		h, err := repo.GetBlockHashByHeight(bg, uint32(k))
		rt.Assert(err != nil || *h == last, "a damaged header is taken for another one")
	case 3:
		l, err := repo.LatestBlockLocator(bg)
		rt.Assert(err != nil || len(l) > 0 && *l[0] == last, "a damaged header is taken for another one")
	case 4:
		ok, err := repo.HasAllAncestors(bg, last)
		rt.Assert(err != nil || ok, "a damaged header is taken for a missing one")
	}
}

// The same for filters.
//
//verif:harness prop=S08
func PgFilterFailures() {
	rt.FixedHashes()
	m := newModel()
	repo := filterRepo(m)
	a := frec{bytes.Repeat([]byte{7}, 32), 0, append([]byte{1}, rt.Bytes("filter", 2)...)}
	known := rt.Choose("known", 2) == 1
	if known {
		rt.Assert(repo.PutFilter(bg, filterEntry(a, 0)) == nil, "a filter cannot be stored")
	}
	m.ops, m.failAt = 0, rt.Choose("fail at", 5)
	put := rt.Choose("put", 2) == 1
	var err error
	if put {
		err = repo.PutFilter(bg, filterEntry(a, 0))
	} else {
		_, err = repo.GetFilter(bg, repository.FilterKey{BlockHash: a.hash})
	}
	rt.Assert(m.open == 0, "a database transaction is left open")
	failed := m.failed
	m.failAt = -1
	if failed {
		rt.Assert(err != nil, "a failure of the database is not reported")
		rt.Assert(err != repository.ErrFilterNotFound, "a failure of the database is taken for a missing filter")
	} else {
		rt.Assert((err == nil) == (put || known), "an operation fails without a failure of the database")
	}
	g, gerr := repo.GetFilter(bg, repository.FilterKey{BlockHash: a.hash})
	have := known || put && err == nil
	rt.Assert((gerr == nil) == have, "a failed write is stored, or a successful one is not")
	rt.Assert(gerr != nil || rt.BytesEq(g.NBytes, a.n), "another filter is found")
}

var _ = block.Header{}
