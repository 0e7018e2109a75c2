package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"syscall"

	"github.com/jmoiron/sqlx"
	dbpg "github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/pg"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/node"
)

// ---- the program's surroundings ----

// exit is raised when the program ends itself.
type exit struct{ code int }

func programExit(code int)                     { panic(exit{code}) }
func programFatal(a ...interface{})            { panic(exit{1}) }
func programFatalf(f string, a ...interface{}) { panic(exit{1}) }

var env map[string]string

//verif:replace os.LookupEnv
func lookupEnvModel(k string) (string, bool) { v, ok := env[k]; return v, ok }

//verif:replace os.Getenv
func getenvModel(k string) string { return env[k] }

var world struct {
	db       *dbpg.DbConfig
	dbDown   bool
	dbs      int
	explorer string
	blocks   blockservice.BlockService
	cfg      node.NodeConfig
	peer     string
	listen   string
	badNode  bool
	servers  int
	signals  []os.Signal
	starts   int
	ctx      context.Context
	errC     chan error
	stopped  bool
}

func programDb(c dbpg.DbConfig) (*dbpg.DbService, error) {
	world.dbs++
	world.db = &c
	if world.dbDown {
		return nil, errors.New("connection refused")
	}
	return &dbpg.DbService{Db: new(sqlx.DB)}, nil
}

type blocks struct{ blockservice.BlockService }

func programBlocks(u string) blockservice.BlockService {
	world.explorer = u
	world.blocks = &blocks{}
	return world.blocks
}

type server struct{}

func programServer(c node.NodeConfig, b blockservice.BlockService, peer, listen string) (*server, error) {
	world.servers++
	world.cfg, world.peer, world.listen = c, peer, listen
	rt.Assert(b == world.blocks, "the daemon reads blocks from another explorer")
	if world.badNode {
		return nil, errors.New("bad node")
	}
	return &server{}, nil
}

func (*server) Start(ctx context.Context, stop context.CancelFunc) <-chan error {
	world.starts++
	world.ctx = ctx
	return world.errC
}

func programSignals(ctx context.Context, s ...os.Signal) (context.Context, context.CancelFunc) {
	world.signals = s
	return context.WithCancel(ctx)
}

// how the program ended
const (
	running = iota
	returned
	failed
)

// run starts the program, done tells how it ended.
func run() (done chan int) {
	world.errC = make(chan error, 1)
	done = make(chan int, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- failed
				return
			}
			done <- returned
		}()
		programMain()
	}()
	return done
}

func ended(done chan int) int {
	rt.Quiesce()
	select {
	case r := <-done:
		return r
	default:
		return running
	}
}

func setup(e map[string]string) {
	env = e
	os.Args = []string{"neutrinod"}
	os.Interrupt, os.Kill = syscall.SIGINT, syscall.SIGKILL
	if !rt.Symbolic() {
		for k, v := range e {
			os.Setenv(k, v)
		}
	}
}

// ---- checks ----

// Every setting reaches the component it configures: from its environment variable, or its default.
//
//verif:harness prop=K02
func Settings() {
	e := map[string]string{}
	conf := func(name, def string, vals ...string) string {
		v := def
		if c := rt.Choose(name, len(vals)+1); c > 0 {
			v = vals[c-1]
			e["NEUTRINO_ELEMENTS_"+name] = v
			rt.Cover("from the environment")
		} else {
			rt.Cover("default")
		}
		return v
	}
	var want struct{ listen, explorer, peer, network, user, pass, host, port, db, migration string }
	want.network = conf("NETWORK", "regtest", "liquid", "testnet", "regtest")
	// the others one by one, and all together
	only := rt.Choose("set", 11)
	rest := func(i int, name, def, val string) string {
		if only == i || only == 10 {
			e["NEUTRINO_ELEMENTS_"+name] = val
			return val
		}
		return def
	}
	want.listen = rest(0, "NEUTRINOD_URL", "localhost:8000", ":9000")
	want.explorer = rest(1, "EXPLORER_URL", "http://localhost:3001", "https://explorer/api?x=1")
	want.peer = rest(2, "PEER_URL", "localhost:18886", "10.0.0.7:7041")
	want.user = rest(3, "DB_USER", "root", "ann")
	want.pass = rest(4, "DB_PASS", "secret", "p@ss word:/")
	want.host = rest(5, "DB_HOST", "127.0.0.1", "db.local")
	want.port = rest(6, "DB_PORT", "5432", "6543")
	want.db = rest(7, "DB_NAME", "neutrino-elements", "chain")
	want.migration = rest(8, "DB_MIGRATION_PATH", "file://internal/infrastructure/storage/db/pg/migration", "file://m")
	setup(e)
	done := run()
	rt.Assert(ended(done) == running, "the daemon does not run until it is stopped")
	rt.Assert(world.dbs == 1 && world.servers == 1 && world.starts == 1, "the daemon is not started once")
	rt.Assert(world.cfg.Network == want.network, "the node runs on another network")
	rt.Assert(world.listen == want.listen, "the daemon listens elsewhere")
	rt.Assert(world.explorer == want.explorer, "another explorer is used")
	rt.Assert(world.peer == want.peer, "another peer is used")
	d := world.db
	rt.Assert(d.DbUser == want.user && d.DbPassword == want.pass, "the database user is another one")
	rt.Assert(d.DbHost == want.host && fmt.Sprint(d.DbPort) == want.port, "the database server is another one")
	rt.Assert(d.DbName == want.db && d.MigrationSourceURL == want.migration, "the database is another one")
	rt.Assert(world.cfg.FiltersDB != nil && world.cfg.BlockHeadersDB != nil, "the node has no store")
	close(world.errC)
	rt.Assert(ended(done) == returned, "the daemon does not end when it is stopped")
	rt.Done()
}

// An unknown network is refused before anything is contacted.
//
//verif:harness prop=K02
func UnknownNetwork() {
	n := []string{"mainnet", "bitcoin", "Liquid", "liquidtestnet", "regtest ", "x"}[rt.Choose("network", 6)]
	setup(map[string]string{"NEUTRINO_ELEMENTS_NETWORK": n})
	done := run()
	rt.Assert(ended(done) == failed, "an unknown network is not refused")
	rt.Assert(world.dbs == 0 && world.servers == 0, "something was contacted")
	rt.Cover("refused")
	rt.Done()
}

// The daemon ends with a failure when a part of it cannot be started or fails later, and without one when it is stopped.
//
//verif:harness prop=K02
func Ends() {
	setup(nil)
	switch rt.Choose("failure", 4) {
	case 0:
		world.dbDown = true
		done := run()
		rt.Assert(ended(done) == failed, "an unreachable database is not reported")
		rt.Assert(world.servers == 0, "the daemon runs without its database")
		rt.Cover("no database")
	case 1:
		world.badNode = true
		done := run()
		rt.Assert(ended(done) == failed, "a refused node is not reported")
		rt.Assert(world.starts == 0, "the daemon runs without its node")
		rt.Cover("no node")
	case 2:
		done := run()
		rt.Assert(ended(done) == running, "the daemon does not run until it is stopped")
		world.errC <- errors.New("listen: address in use")
		rt.Assert(ended(done) == failed, "a failure of the daemon is not reported")
		rt.Cover("failure")
	case 3:
		done := run()
		rt.Assert(ended(done) == running, "the daemon does not run until it is stopped")
		rt.Assert(world.ctx.Err() == nil, "the daemon is stopped from the start")
		for _, want := range []os.Signal{os.Interrupt, syscall.SIGTERM} {
			n := 0
			for _, s := range world.signals {
				if s == want {
					n++
				}
			}
			rt.Assert(n > 0, "the daemon is not stopped by a signal")
		}
		close(world.errC)
		rt.Assert(ended(done) == returned, "the daemon does not end when it is stopped")
		rt.Cover("stopped")
	}
	rt.Done()
}
