package main

// How the daemon opens its database: the sources of the pg package are laid into this package, and
// the connection and the migration library are stand-ins that record what they are given.

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"strconv"

	"github.com/golang-migrate/migrate/v4"
	"github.com/golang-migrate/migrate/v4/database"
	"github.com/golang-migrate/migrate/v4/database/postgres"
	"github.com/jmoiron/sqlx"
	"github.com/lib/pq"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
)

var (
	errRefused = errors.New("connection refused")
	errSource  = errors.New("no such directory")
	errSyntax  = errors.New("migration failed")
)

// what the database server and the migration files do
var world struct {
	down       bool  // no connection
	noInstance bool  // the schema_migrations table cannot be created
	noSource   bool  // the migration files cannot be read
	up         error // what the migration answers
	// what was asked
	driver  string
	dsn     string
	dbs     []*sqlx.DB
	sqldbs  []*sql.DB
	pings   int
	drv     *instance
	src     string
	current bool // the schema is the one of the migration files
}

type connector struct{}

func (connector) Connect(context.Context) (driver.Conn, error) {
	if world.down {
		return nil, errRefused
	}
	return conn{}, nil
}
func (connector) Driver() driver.Driver { return nil }

type conn struct{}

func (conn) Prepare(string) (driver.Stmt, error) { return nil, errRefused }
func (conn) Close() error                        { return nil }
func (conn) Begin() (driver.Tx, error)           { return nil, errRefused }

func programSqlOpen(d, dsn string) (*sql.DB, error) {
	rt.Assert(len(world.sqldbs) == 0, "the database is opened twice")
	world.driver, world.dsn = d, dsn
	db := new(sql.DB)
	if !rt.Symbolic() {
		db = sql.OpenDB(connector{})
	}
	world.sqldbs = append(world.sqldbs, db)
	return db, nil
}

func programNewDb(db *sql.DB, d string) *sqlx.DB {
	x := &sqlx.DB{DB: db}
	world.dbs = append(world.dbs, x)
	return x
}

func programOpen(d, dsn string) (*sqlx.DB, error) {
	db, err := programSqlOpen(d, dsn)
	if err != nil {
		return nil, err
	}
	return programNewDb(db, d), nil
}

func programConnect(d, dsn string) (*sqlx.DB, error) {
	x, err := programOpen(d, dsn)
	if err != nil {
		return nil, err
	}
	if world.down {
		return nil, errRefused
	}
	return x, nil
}

func programConnectContext(_ context.Context, d, dsn string) (*sqlx.DB, error) {
	return programConnect(d, dsn)
}

func programMustConnect(d, dsn string) *sqlx.DB {
	x, err := programConnect(d, dsn)
	if err != nil {
		panic(err)
	}
	return x
}

func ping() error {
	if world.down {
		return errRefused
	}
	return nil
}

//verif:replace (*database/sql.DB).Ping
func pingModel(*sql.DB) error { return ping() }

//verif:replace (*database/sql.DB).PingContext
func pingContextModel(*sql.DB, context.Context) error { return ping() }

//verif:replace (*database/sql.DB).Close
func closeModel(*sql.DB) error { return nil }

//verif:replace (*database/sql.DB).SetMaxOpenConns
func maxOpenModel(*sql.DB, int) {}

//verif:replace (*database/sql.DB).SetMaxIdleConns
func maxIdleModel(*sql.DB, int) {}

type instance struct {
	database.Driver
	db *sql.DB
}

func programInstance(db *sql.DB, c *postgres.Config) (database.Driver, error) {
	if world.down || world.noInstance {
		return nil, errRefused
	}
	world.drv = &instance{db: db}
	return world.drv, nil
}

func programConnection(_ context.Context, _ *sql.Conn, c *postgres.Config) (database.Driver, error) {
	rt.Unsupported("a migration over a single connection is not modelled")
	return nil, errRefused
}

// migrator stands for migrate.Migrate.
type migrator struct {
	Log                migrate.Logger
	LockTimeout        int64
	PrefetchMigrations uint
}

func programMigrate(src, name string, d database.Driver) (*migrator, error) {
	rt.Assert(d == database.Driver(world.drv), "another database is migrated")
	world.src = src
	if world.noSource {
		return nil, errSource
	}
	return &migrator{}, nil
}

func (m *migrator) Up() error {
	if world.up == nil || world.up == migrate.ErrNoChange {
		world.current = true
	}
	return world.up
}

func (m *migrator) Close() (error, error) { return nil, nil }

func (m *migrator) Version() (uint, bool, error) {
	if world.current {
		return 20220721142449, false, nil
	}
	return 0, false, migrate.ErrNilVersion
}

// options reads a connection string as the driver does.
func options(dsn string) map[string]string {
	if hasPrefix(dsn, "postgres://") || hasPrefix(dsn, "postgresql://") {
		s, err := pq.ParseURL(dsn)
		rt.Assert(err == nil, "the driver cannot read the connection string")
		dsn = s
	}
	o := map[string]string{}
	for i := 0; ; {
		for i < len(dsn) && dsn[i] == ' ' {
			i++
		}
		if i >= len(dsn) {
			return o
		}
		k := i
		for i < len(dsn) && dsn[i] != '=' && dsn[i] != ' ' {
			i++
		}
		key := dsn[k:i]
		for i < len(dsn) && dsn[i] == ' ' {
			i++
		}
		rt.Assert(i < len(dsn) && dsn[i] == '=', "the driver cannot read the connection string")
		i++
		for i < len(dsn) && dsn[i] == ' ' {
			i++
		}
		var v []byte
		if i < len(dsn) && dsn[i] == '\'' {
			i++
			for {
				rt.Assert(i < len(dsn), "the driver cannot read the connection string")
				if dsn[i] == '\'' {
					i++
					break
				}
				if dsn[i] == '\\' {
					i++
					rt.Assert(i < len(dsn), "the driver cannot read the connection string")
				}
				v = append(v, dsn[i])
				i++
			}
		} else {
			for i < len(dsn) && dsn[i] != ' ' {
				if dsn[i] == '\\' {
					i++
					rt.Assert(i < len(dsn), "the driver cannot read the connection string")
				}
				v = append(v, dsn[i])
				i++
			}
		}
		o[key] = string(v)
	}
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// text is a word with an arbitrary printable character at its start, inside or at its end.
func text(name string, n int) string {
	b := rt.Bytes(name, n)
	for _, c := range b {
		rt.Assume(rt.And(c >= 0x20, c < 0x7f))
	}
	switch rt.Choose("position", 3) {
	case 0:
		return string(b) + "az"
	case 1:
		return "a" + string(b) + "z"
	}
	return "az" + string(b)
}

// The database is opened with exactly the configured user, password, host, port and name, whatever characters they have.
//
//verif:harness prop=K03
func Connection() {
	c := DbConfig{DbUser: "root", DbPassword: "secret", DbHost: "127.0.0.1", DbPort: 5432, DbName: "neutrino-elements", MigrationSourceURL: "file://migration"}
	n := 1
	switch rt.Choose("setting", 5) {
	case 0:
		c.DbPassword = text("password", n)
	case 1:
		c.DbUser = text("user", n)
	case 2:
		c.DbName = text("name", n)
	case 3:
		c.DbPassword = []string{"p@ss:w0rd/#?", "100%sure", "it's", `back\slash`, "a b", "x=y", "%41", "+", "ünï"}[rt.Choose("password", 9)]
		c.DbUser = []string{"root", "me@corp", "a:b"}[rt.Choose("user", 3)]
		c.DbName = []string{"neutrino-elements", "x?sslmode=require"}[rt.Choose("name", 2)]
	case 4:
		c.DbHost = []string{"localhost", "db.example.com", "10.0.0.7", "::1", "fe80::1", "[::1]"}[rt.Choose("host", 6)]
		c.DbPort = []int{5432, 1, 65535, 15432}[rt.Choose("port", 4)]
	}
	s, err := NewDbService(c)
	rt.Assert(err == nil && s != nil, "a database with such settings is refused")
	rt.Assert(world.driver == "postgres" || world.driver == "pgx", "another driver is used")
	o := options(world.dsn)
	rt.Assert(rt.BytesEq([]byte(o["user"]), []byte(c.DbUser)), "the database is opened as another user")
	rt.Assert(rt.BytesEq([]byte(o["password"]), []byte(c.DbPassword)), "the database is opened with another password")
	host := c.DbHost
	if host[0] == '[' {
		host = host[1 : len(host)-1]
	}
	rt.Assert(o["host"] == host, "another host is contacted")
	rt.Assert(o["port"] == strconv.Itoa(c.DbPort), "another port is contacted")
	rt.Assert(rt.BytesEq([]byte(o["dbname"]), []byte(c.DbName)), "another database is opened")
	rt.Assert(o["sslmode"] == "disable", "the database is opened with encryption the server need not offer")
	rt.Cover("opened")
}

// The service is made only of a database that answers and whose schema is the current one.
//
//verif:harness prop=K03
func Schema() {
	c := DbConfig{DbUser: "root", DbPassword: "secret", DbHost: "127.0.0.1", DbPort: 5432, DbName: "neutrino-elements"}
	c.MigrationSourceURL = []string{"file://internal/infrastructure/storage/db/pg/migration", "file:///opt/x"}[rt.Choose("source", 2)]
	bad := rt.Choose("fails", 8)
	switch bad {
	case 1:
		world.up = migrate.ErrNoChange
	case 2:
		world.down = true
	case 3:
		world.noInstance = true
	case 4:
		world.noSource = true
	case 5:
		world.up = errSyntax
	case 6:
		world.up = migrate.ErrDirty{Version: 1}
	case 7:
		world.up = migrate.ErrLocked
	}
	var s *DbService
	var err error
	if rt.Protect(func() { s, err = NewDbService(c) }) != "" {
		rt.Assert(false, "the daemon crashes when its database fails")
	}
	if bad > 1 {
		rt.Assert(err != nil, "a database that is not ready is used")
		return
	}
	rt.Assert(err == nil && s != nil, "a good database is refused")
	rt.Assert(world.current && world.src == c.MigrationSourceURL, "the schema is not brought to the configured one")
	rt.Assert(s.Db != nil && len(world.sqldbs) == 1 && s.Db.DB == world.sqldbs[0] && world.drv.db == s.Db.DB, "another database is used than the one that is migrated")
	rt.Cover("current")
}
