package main

import (
	"time"

	"github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory"
	dbpg "github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/pg"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
)

// stores opens the repositories on a database.
func stores(m *model) (repository.BlockHeaderRepository, repository.FilterRepository) {
	h, err := dbpg.NewHeaderRepositoryImpl(&dbpg.DbService{Db: open(m)})
	rt.Assert(err == nil, "the header repository cannot be created")
	f, err := dbpg.NewFilterRepositoryImpl(&dbpg.DbService{Db: open(m)})
	rt.Assert(err == nil, "the filter repository cannot be created")
	return h, f
}

// orderedModel is a database whose rows come in the order of their insertion (any other order is explored for S07).
func orderedModel() *model {
	m := newModel()
	m.order = true
	return m
}

// newEnvOf is a node on given stores.
func newEnvOf(h repository.BlockHeaderRepository, f repository.FilterRepository) *env {
	e := &env{headers: h, filters: f}
	n, err := node.New(node.NodeConfig{Network: "regtest", UserAgent: "verif", FiltersDB: e.filters, BlockHeadersDB: e.headers})
	rt.Assert(err == nil, "a node cannot be created")
	e.n = n
	return e
}

func reset() {
	rt.FixedHashes()
	rt.FixedRandoms(true)
	form = func(uint32) int { return 0 }
}

func filterAt(e *env, c *chain, i int) []byte {
	h := c.at(i)
	f, err := e.filters.GetFilter(bg, repository.FilterKey{BlockHash: h[:], FilterType: repository.RegularFilter})
	if err != nil {
		rt.Assert(err == repository.ErrFilterNotFound, "the filters cannot be read after a kill")
		return nil
	}
	return f.NBytes
}

// have tells how much of a chain the stores hold: the height of its tip and which filters.
// What they hold is the beginning of the chain and right filters of its blocks.
func have(e *env, c *chain) (tip int, filters []bool) {
	t, err := e.headers.ChainTip(bg)
	if err != nil {
		rt.Assert(err == repository.ErrNoBlocksHeaders, "the tip cannot be read after a kill")
	} else {
		tip = int(t.Height)
	}
	rt.Assert(tip <= len(c.raw), "a header that is not of the peer's chain is stored")
	for i := 1; i <= tip; i++ {
		g, err := e.headers.GetBlockHashByHeight(bg, uint32(i))
		rt.Assert(err == nil && [32]byte(*g) == c.at(i), "the stored headers are not the beginning of the peer's chain")
		h, err := e.headers.GetBlockHeader(bg, c.hashes[i-1])
		rt.Assert(err == nil && h.Height == uint32(i), "the stored headers are not the beginning of the peer's chain")
	}
	filters = make([]bool, len(c.raw)+1)
	for i := 1; i <= len(c.raw); i++ {
		if f := filterAt(e, c, i); f != nil {
			rt.Assert(rt.BytesEq(f, filterOf(i)), "another filter is stored for a block")
			filters[i] = true
			rt.Assert(i <= tip, "a filter of a block whose header is not stored is stored")
		}
	}
	return
}

// continueOn lets a node synchronise with a peer.
func continueOn(e *env, c *chain, limit int) *honest {
	e.start()
	p := &honest{l: e.l, c: c, limit: limit}
	e.l.send(frame("version", versionPayload(cfService|1, uint32(len(c.raw)))))
	talk(p)
	time.Sleep(1500 * time.Millisecond)
	settle()
	return p
}

// life runs a node on a database from its start until it is killed before operation die, or until it is done.
func life(m *model, c *chain, limit, die, more, how int) *env {
	e := newEnvOf(stores(m))
	m.ops, m.dieAt = 0, die
	p := continueOn(e, c, limit)
	if more > 0 {
		p.extend(more)
		p.announce(how, more)
		talk(p)
	}
	return e
}

// afterKill checks that nothing was lost and returns the tip the next process starts with.
func afterKill(m *model, c *chain, tip int, filters []bool) (int, []bool) {
	e := &env{}
	e.headers, e.filters = stores(m)
	t, f := have(e, c)
	rt.Assert(t >= tip, "stored headers are lost")
	for i, had := range filters {
		rt.Assert(!had || f[i], "a stored filter is lost")
	}
	return t, f
}

// resumed checks that a process that starts with the headers up to tip stored has the whole chain,
// without asking for what it has.
func resumed(e *env, c *chain, tip int) {
	ms := e.l.sent()
	gh := of(ms, "getheaders")
	rt.Assert(len(gh) > 0, "a restarted node does not ask for headers")
	if tip > 0 {
		at := c.at(tip)
		rt.Assert(rt.BytesEq(gh[0][5:37], at[:]), "a restarted node does not ask for the headers after its tip")
	}
	complete(e, c, tip)
}

// killed runs a node that is killed before some operation on the database, or after the last one.
func killed(m *model, c *chain, limit, more, how int) {
	max := rt.Param("operations", 60, 110)
	die := rt.Choose("killed before operation", max)
	life(m, c, limit, die, more, how)
	rt.Assume(m.dead || die == max-1)
	m.kill()
}

// later adds blocks to the peer's chain of a running node.
func later(e *env, c *chain, limit, tip, how int) {
	time.Sleep(2500 * time.Millisecond)
	settle()
	rt.Assert(e.isStarted() && e.serr == nil, "Start does not return although the node has the peer's chain")
	p := &honest{l: e.l, c: c, limit: limit, done: len(e.l.sent())}
	p.extend(1)
	p.announce(how, 1)
	talk(p)
	resumed(e, c, tip)
}

// missing reports the filters of the blocks up to tip that are not there after all.
func missing(e *env, c *chain, tip int) {
	rt.Known("filters-not-asked-again", true)
	for i := 1; i <= tip; i++ {
		rt.Assert(filterAt(e, c, i) != nil, "the filter of a block stored before the restart is missing")
	}
}

// A node killed before any operation on its database, and then started again, continues.
//
//verif:harness prop=R01 faketime budget=120s
func Kill() {
	reset()
	l := 1 + rt.Choose("length", rt.Param("length", 3, 5))
	c, limit := newChain(l, 7), 2
	if l > 2 {
		limit += rt.Choose("limit", 2)
	}
	m := orderedModel()
	more, how := rt.Choose("new blocks", 2), 0
	if more > 0 {
		how = rt.Choose("announced by", 4)
	}
	killed(m, c, limit, more, how)
	m = m.next()
	tip, filters := afterKill(m, c, 0, nil)
	e := life(m, c, limit, -1, 0, 0)
	resumed(e, c, tip)
	later(e, c, limit, tip, how)
	afterKill(m, c, tip, filters)
	missing(e, c, tip)
}

// A node may be killed again while it continues.
//
//verif:harness prop=R01 faketime budget=120s
func KillTwice() {
	reset()
	c := newChain(rt.Param("length", 2, 4), 7)
	m := orderedModel()
	tip, filters := 0, []bool(nil)
	for i := 0; i < 2; i++ {
		killed(m, c, 2, 0, 0)
		m = m.next()
		tip, filters = afterKill(m, c, tip, filters)
	}
	e := life(m, c, 2, -1, 0, 0)
	resumed(e, c, tip)
	later(e, c, 2, tip, 0)
	afterKill(m, c, tip, filters)
	missing(e, c, tip)
}

// Whatever happens at the same time.
//
//verif:harness prop=R01 faketime budget=120s
func KillRace() {
	reset()
	c := newChain(2, 7)
	m := orderedModel()
	rt.Explore(rt.Param("delays", 1, 2))
	killed(m, c, 2, 0, 0)
	rt.StopExplore()
	m = m.next()
	tip, filters := afterKill(m, c, 0, nil)
	e := life(m, c, 2, -1, 0, 0)
	resumed(e, c, tip)
	afterKill(m, c, tip, filters)
	missing(e, c, tip)
}

// A node that was stopped, and one made on the same stores, which may be in memory, continues.
//
//verif:harness prop=R01 faketime
func Stopped() {
	reset()
	c := newChain(1+rt.Choose("length", rt.Param("length", 4, 6)), 7)
	limit := 2 + rt.Choose("limit", 2)
	var h repository.BlockHeaderRepository = inmemory.NewHeaderInmemory()
	var f repository.FilterRepository = inmemory.NewFilterInmemory()
	if rt.Choose("database", 2) == 1 {
		h, f = stores(orderedModel())
	}
	e := newEnvOf(h, f)
	e.start()
	p := &honest{l: e.l, c: c, limit: limit}
	e.l.send(frame("version", versionPayload(cfService|1, uint32(len(c.raw)))))
	turns := rt.Choose("turns before the stop", 4)
	for i := 0; i < turns; i++ {
		settle()
		p.turn()
	}
	if rt.Choose("settled", 2) == 1 {
		settle()
	}
	rt.Assert(e.n.Stop() == nil, "the node cannot be stopped")
	settle()
	tip, filters := have(e, c)
	time.Sleep(2500 * time.Millisecond)
	p.turn()
	p.extend(1)
	p.announce(rt.Choose("announced by", 4), 1)
	settle()
	t, fs := have(e, c)
	rt.Assert(t == tip, "a stopped node stores headers")
	for i := range filters {
		rt.Assert(filters[i] == fs[i], "a stopped node stores filters")
	}
	e = newEnvOf(h, f)
	continueOn(e, c, limit)
	resumed(e, c, tip)
	later(e, c, limit, tip, rt.Choose("later announced by", 4))
	_, fs = have(e, c)
	for i := range filters {
		rt.Assert(!filters[i] || fs[i], "a stored filter is lost")
	}
	missing(e, c, tip)
}
