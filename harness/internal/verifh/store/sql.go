package main

// A model of the database behind sqlx: a small SQL interpreter over in-memory tables, with the
// transactions, uniqueness errors and failures of PostgreSQL. Under the engine the methods of sqlx
// are replaced by it; natively sqlx and database/sql run on a driver made of it.

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"errors"
	"io"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/jmoiron/sqlx"
	"github.com/lib/pq"
	rt "github.com/vulpemventures/neutrino-elements/internal/verifrt"
)

type row []interface{} // int64, string or []byte

type table struct {
	name   string
	cols   []string
	types  []string
	size   []int // the longest text, 0 for any
	null   []bool
	unique [][]int
	rows   []row
}

type dbState map[string]*table

func (s dbState) copy() dbState {
	c := dbState{}
	for n, t := range s {
		d := *t
		d.rows = append([]row(nil), t.rows...)
		c[n] = &d
	}
	return c
}

var errDown = errors.New("the database is down")

// model is one database.
type model struct {
	mu     sync.Mutex
	state  dbState
	ops    int
	open   int // transactions not ended
	failAt int // the operation that fails, -1 for none
	failed bool
	dieAt  int  // the process is killed before this operation, -1 for never
	order  bool // rows come in the order of their insertion
	dead   bool
}

// kill ends the process that uses the database.
func (m *model) kill() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.dead = true
}

// next is the database as a process finds it that starts after the kill.
func (m *model) next() *model {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := newModel()
	n.state, n.order = m.state.copy(), m.order
	return n
}

func newModel() *model {
	return &model{failAt: -1, dieAt: -1, state: fresh.copy()}
}

var fresh = schema(migrations)

// schema is what the migration files make of an empty database.
func schema(files []string) dbState {
	s := dbState{}
	for _, f := range files {
		for _, q := range strings.Split(f, ";") {
			if p := (&parser{t: lex(uncomment(q)), s: s, q: q}); len(p.t) > 0 {
				p.ddl()
			}
		}
	}
	return s
}

func uncomment(q string) string {
	var out []string
	for _, l := range strings.Split(q, "\n") {
		if i := strings.Index(l, "--"); i >= 0 {
			l = l[:i]
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func (p *parser) ddl() {
	switch {
	case p.is("create", "table"):
		p.is("if", "not", "exists")
		t := &table{name: p.take()}
		if t.name == "public" && p.is(".") {
			t.name = p.take()
		}
		if p.s[t.name] != nil {
			p.fail()
		}
		p.want("(")
		for {
			if p.is("constraint") {
				p.take()
			}
			if !p.constraint(t) {
				p.column(t)
			}
			if p.is(")") {
				break
			}
			p.want(",")
		}
		p.s[t.name] = t
	case p.is("create", "unique", "index"):
		p.is("if", "not", "exists")
		p.take()
		p.want("on")
		t := p.table()
		t.unique = append(t.unique, p.columns(t))
	case p.is("create", "index"):
		p.i = len(p.t)
	case p.is("alter", "table"):
		t := p.table()
		p.want("add")
		if p.is("constraint") {
			p.take()
		}
		if !p.constraint(t) {
			p.fail()
		}
	case p.is("begin"), p.is("commit"):
	default:
		p.fail()
	}
	if p.i < len(p.t) {
		p.fail()
	}
}

// columns is a list of columns in parentheses.
func (p *parser) columns(t *table) (cs []int) {
	p.want("(")
	for {
		c := t.col(p.take())
		if c < 0 {
			p.fail()
		}
		cs = append(cs, c)
		if p.is(")") {
			return cs
		}
		p.want(",")
	}
}

// constraint reads a constraint of a table, if there is one.
func (p *parser) constraint(t *table) bool {
	switch {
	case p.is("primary", "key"):
		cs := p.columns(t)
		for _, c := range cs {
			t.null[c] = false
		}
		t.unique = append(t.unique, cs)
	case p.is("unique"):
		t.unique = append(t.unique, p.columns(t))
	default:
		return false
	}
	return true
}

func (p *parser) column(t *table) {
	c := len(t.cols)
	t.cols = append(t.cols, p.take())
	typ, size := p.take(), 0
	switch typ {
	case "character":
		p.is("varying")
		typ = "varchar"
	case "char", "varchar", "text", "bytea", "smallint", "int", "integer", "int2", "int4", "int8", "bigint":
	default:
		p.fail()
	}
	if typ == "char" || typ == "varchar" {
		if p.is("(") {
			n, err := strconv.Atoi(p.take())
			if err != nil || typ == "char" {
				p.fail()
			}
			size = n
			p.want(")")
		} else if typ == "char" {
			p.fail()
		}
	}
	t.types, t.size, t.null = append(t.types, typ), append(t.size, size), append(t.null, true)
	for {
		switch {
		case p.is("primary", "key"):
			t.null[c] = false
			t.unique = append(t.unique, []int{c})
		case p.is("unique"):
			t.unique = append(t.unique, []int{c})
		case p.is("not", "null"):
			t.null[c] = false
		case p.is("null"):
		default:
			return
		}
	}
}

// as is a value as a column keeps it, or the error of storing it there.
func (t *table) as(c int, v interface{}) (interface{}, error) {
	if v == nil {
		if t.null[c] {
			return nil, nil
		}
		return nil, &pq.Error{Code: "23502", Message: "null value violates not-null constraint"}
	}
	typ := t.types[c]
	switch v := v.(type) {
	case int64:
		switch typ {
		case "smallint", "int2":
			if v != int64(int16(v)) {
				return nil, &pq.Error{Code: "22003", Message: "smallint out of range"}
			}
			return v, nil
		case "int", "integer", "int4":
			if v != int64(int32(v)) {
				return nil, &pq.Error{Code: "22003", Message: "integer out of range"}
			}
			return v, nil
		case "int8", "bigint":
			return v, nil
		}
	case string:
		if typ == "varchar" || typ == "text" {
			if t.size[c] > 0 && len(v) > t.size[c] {
				return nil, &pq.Error{Code: "22001", Message: "value too long"}
			}
			return v, nil
		}
	case []byte:
		if typ == "bytea" {
			return v, nil
		}
		if typ == "varchar" || typ == "text" { // as the driver writes it
			return t.as(c, "\\x"+hex.EncodeToString(v))
		}
	}
	return nil, &pq.Error{Code: "22P02", Message: "invalid input syntax"}
}

// op counts one operation, which may fail.
func (m *model) op() error {
	if m.dead || m.ops == m.dieAt {
		m.dead = true
		m.mu.Unlock()
		select {}
	}
	m.ops++
	if m.ops-1 == m.failAt {
		m.failed = true
		return errDown
	}
	return nil
}

type mtx struct {
	m       *model
	state   dbState
	aborted bool
	done    bool
}

func (m *model) begin() (*mtx, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.op(); err != nil {
		return nil, err
	}
	m.open++
	return &mtx{m: m, state: m.state.copy()}, nil
}

func (t *mtx) commit() error {
	t.m.mu.Lock()
	defer t.m.mu.Unlock()
	if t.done {
		return sql.ErrTxDone
	}
	t.done = true
	t.m.open--
	if err := t.m.op(); err != nil {
		return err
	}
	if t.aborted {
		return errors.New("pq: Could not complete operation in a failed transaction")
	}
	t.m.state = t.state
	return nil
}

func (t *mtx) rollback() error {
	t.m.mu.Lock()
	defer t.m.mu.Unlock()
	if t.done {
		return sql.ErrTxDone
	}
	t.done = true
	t.m.open--
	return nil
}

// run executes a statement in a transaction, or on its own.
func (m *model) run(t *mtx, q string, args []interface{}) (cols []string, rows []row, err error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if t != nil && t.done {
		return nil, nil, sql.ErrTxDone
	}
	if err := m.op(); err != nil {
		if t != nil {
			t.aborted = true
		}
		return nil, nil, err
	}
	if t != nil && t.aborted {
		return nil, nil, &pq.Error{Code: "25P02", Message: "current transaction is aborted"}
	}
	s := m.state
	if t != nil {
		s = t.state
	} else {
		s = s.copy()
	}
	cols, rows, err = exec(s, q, args, m.order)
	if err != nil {
		if t != nil {
			t.aborted = true
		}
		return nil, nil, err
	}
	if t == nil {
		m.state = s
	}
	return cols, rows, nil
}

// ---- the interpreter ----

func lex(q string) []string {
	var out []string
	i := 0
	ident := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(q) {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '"':
			i++
		case ident(c) || c == '$' || c == ':':
			j := i + 1
			for j < len(q) && ident(q[j]) {
				j++
			}
			w := q[i:j]
			if c != ':' {
				w = strings.ToLower(w)
			}
			out = append(out, w)
			i = j
		case c == '<' || c == '>':
			if i+1 < len(q) && q[i+1] == '=' {
				out = append(out, q[i:i+2])
				i += 2
			} else {
				out = append(out, q[i:i+1])
				i++
			}
		default:
			out = append(out, q[i:i+1])
			i++
		}
	}
	return out
}

type parser struct {
	t     []string
	i     int
	s     dbState
	args  []interface{}
	q     string
	next  int
	order bool
}

func (p *parser) fail() { rt.Unsupported("SQL statement: " + p.q) }
func (p *parser) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return ""
}
func (p *parser) take() string { w := p.peek(); p.i++; return w }
func (p *parser) is(ws ...string) bool {
	for k, w := range ws {
		if p.i+k >= len(p.t) || p.t[p.i+k] != w {
			return false
		}
	}
	p.i += len(ws)
	return true
}
func (p *parser) want(w string) {
	if !p.is(w) {
		p.fail()
	}
}

func (p *parser) value() interface{} {
	w := p.take()
	if strings.HasPrefix(w, "$") {
		n, err := strconv.Atoi(w[1:])
		if err != nil || n < 1 || n > len(p.args) {
			p.fail()
		}
		return norm(p.args[n-1])
	}
	if w == "?" {
		p.next++
		return norm(p.args[p.next-1])
	}
	n, err := strconv.Atoi(w)
	if err != nil {
		p.fail()
	}
	return int64(n)
}

// norm brings a value to the form it has in a table.
func norm(v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case []byte:
		return append([]byte(nil), x...)
	case string:
		return x
	case int64:
		return x
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return int64(r.Uint())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return r.Int()
	case reflect.String:
		return r.String()
	}
	rt.Unsupported("SQL value")
	return nil
}

func equal(a, b interface{}) bool {
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case []byte:
		y, ok := b.([]byte)
		return ok && rt.BytesEq(x, y)
	}
	return false
}

func less(a, b interface{}) bool {
	x, ok := a.(int64)
	y, ok2 := b.(int64)
	if ok && ok2 {
		return x < y
	}
	s, ok := a.(string)
	u, ok2 := b.(string)
	return ok && ok2 && s < u
}

func (t *table) col(name string) int {
	for i, c := range t.cols {
		if c == name {
			return i
		}
	}
	return -1
}

func exec(s dbState, q string, args []interface{}, order bool) (cols []string, rows []row, err error) {
	p := &parser{t: lex(q), s: s, args: args, q: q, order: order}
	if len(p.t) > 0 && p.t[len(p.t)-1] == ";" {
		p.t = p.t[:len(p.t)-1]
	}
	switch {
	case p.is("insert", "into"):
		rows, err := p.insert()
		return nil, rows, err
	case p.is("delete", "from"):
		t := p.table()
		t.rows, rows = p.matching(t)
		return nil, rows, nil
	case p.is("update"):
		rows, err := p.update()
		return nil, rows, err
	case p.is("select"):
		cols, rows := p.sel()
		p.is("for", "update")
		if p.i < len(p.t) {
			p.fail()
		}
		return cols, rows, nil
	}
	p.fail()
	return nil, nil, nil
}

// matching splits the rows of a table by the rest of a statement: the others, and those it is about.
func (p *parser) matching(t *table) (others, rows []row) {
	rows = p.where(t, append([]row(nil), t.rows...))
	if p.i < len(p.t) {
		p.fail()
	}
	for _, r := range t.rows {
		in := false
		for _, x := range rows {
			in = in || &x[0] == &r[0]
		}
		if !in {
			others = append(others, r)
		}
	}
	return others, rows
}

func (p *parser) where(t *table, rows []row) []row {
	if p.is("where") {
		for {
			rows = p.cond(t, rows)
			if !p.is("and") {
				break
			}
		}
	}
	return rows
}

func (p *parser) update() ([]row, error) {
	t := p.table()
	p.want("set")
	set := map[int]interface{}{}
	var order []int
	for {
		c := t.col(p.take())
		if c < 0 {
			p.fail()
		}
		p.want("=")
		set[c] = p.value()
		order = append(order, c)
		if !p.is(",") {
			break
		}
	}
	others, rows := p.matching(t)
	for _, r := range rows {
		n := append(row(nil), r...)
		for _, c := range order {
			v, err := t.as(c, set[c])
			if err != nil {
				return nil, err
			}
			n[c] = v
		}
		for _, u := range t.unique {
			for _, o := range others {
				if clash(u, o, n) {
					return nil, duplicate
				}
			}
		}
		others = append(others, n)
	}
	t.rows = others
	return rows, nil
}

var duplicate = &pq.Error{Code: "23505", Message: "duplicate key value violates unique constraint"}

// clash tells whether two rows have the same key.
func clash(key []int, a, b row) bool {
	for _, c := range key {
		if a[c] == nil || b[c] == nil || !equal(a[c], b[c]) {
			return false
		}
	}
	return true
}

func (p *parser) table() *table {
	t := p.s[p.take()]
	if t == nil {
		p.fail()
	}
	return t
}

func (p *parser) insert() (done []row, err error) {
	t := p.table()
	var cols []int
	if p.is("(") {
		for {
			c := t.col(p.take())
			if c < 0 {
				p.fail()
			}
			cols = append(cols, c)
			if p.is(")") {
				break
			}
			p.want(",")
		}
	} else {
		for i := range t.cols {
			cols = append(cols, i)
		}
	}
	p.want("values")
	var rows []row
	for {
		p.want("(")
		r := make(row, len(t.cols))
		for k, c := range cols {
			if k > 0 {
				p.want(",")
			}
			r[c] = p.value()
		}
		p.want(")")
		rows = append(rows, r)
		if !p.is(",") {
			break
		}
	}
	onConflict, update := -1, -1 // none
	target := -1
	if p.is("on", "conflict") {
		onConflict = 0
		if p.is("(") {
			target = t.col(p.take())
			p.want(")")
		}
		p.want("do")
		if p.is("update", "set") {
			if target < 0 {
				p.fail()
			}
			update = t.col(p.take())
			p.want("=")
			p.want("excluded")
			p.want(".")
			if t.col(p.take()) != update || update < 0 {
				p.fail()
			}
		} else {
			p.want("nothing")
		}
	}
	if p.is("returning") || p.i < len(p.t) {
		p.fail()
	}
	if target >= 0 {
		found := false
		for _, u := range t.unique {
			found = found || len(u) == 1 && u[0] == target
		}
		if !found {
			return nil, &pq.Error{Code: "42P10", Message: "there is no unique or exclusion constraint matching the ON CONFLICT specification"}
		}
	}
	for _, r := range rows {
		for c, v := range r {
			v, err := t.as(c, v)
			if err != nil {
				return nil, err
			}
			r[c] = v
		}
		hit := -1
		for _, u := range t.unique {
			for i, o := range t.rows {
				if clash(u, o, r) {
					if onConflict < 0 || target >= 0 && !(len(u) == 1 && u[0] == target) {
						return nil, duplicate
					}
					hit = i
				}
			}
		}
		if hit < 0 {
			t.rows = append(t.rows, r)
			done = append(done, r)
		} else if update >= 0 {
			n := append(row(nil), t.rows[hit]...)
			n[update] = r[update]
			t.rows[hit] = n
			done = append(done, n)
		}
	}
	return done, nil
}

// sel parses and runs what follows "select".
func (p *parser) sel() ([]string, []row) {
	type item struct {
		col int
		agg string
	}
	var names []string
	star := false
	aggs := []string{}
	for {
		w := p.take()
		switch {
		case w == "*":
			star = true
		case (w == "max" || w == "min" || w == "count") && p.is("("):
			names = append(names, p.take())
			aggs = append(aggs, w)
			p.want(")")
		default:
			names = append(names, w)
			aggs = append(aggs, "")
		}
		if !p.is(",") {
			break
		}
	}
	p.want("from")
	t := p.table()
	rows := p.where(t, append([]row(nil), t.rows...))
	if p.is("order", "by") {
		c := t.col(p.take())
		if c < 0 {
			p.fail()
		}
		desc := p.is("desc")
		if !desc {
			p.is("asc")
		}
		for i := range rows {
			for j := i; j > 0; j-- {
				if less(rows[j][c], rows[j-1][c]) != desc && !equal(rows[j][c], rows[j-1][c]) {
					rows[j], rows[j-1] = rows[j-1], rows[j]
				}
			}
		}
	} else if len(rows) > 1 && len(names) == 0 || len(rows) > 1 && aggs[0] == "" {
		// the order is up to the database
		if !p.order && rt.Choose("row order", 2) == 1 {
			for i, j := 0, len(rows)-1; i < j; i, j = i+1, j-1 {
				rows[i], rows[j] = rows[j], rows[i]
			}
		}
	}
	if p.is("limit") {
		n, ok := p.value().(int64)
		if !ok {
			p.fail()
		}
		if int64(len(rows)) > n {
			rows = rows[:n]
		}
	}
	if star {
		return t.cols, rows
	}
	var out []row
	if aggs[0] != "" {
		r := row{}
		for k, a := range aggs {
			if a == "count" {
				r = append(r, int64(len(rows)))
				continue
			}
			c := t.col(names[k])
			if c < 0 || a == "" {
				p.fail()
			}
			var best interface{}
			for _, o := range rows {
				if best == nil || less(best, o[c]) == (a == "max") {
					best = o[c]
				}
			}
			r = append(r, best)
		}
		return aggs, []row{r}
	}
	for _, o := range rows {
		r := row{}
		for _, n := range names {
			c := t.col(n)
			if c < 0 {
				p.fail()
			}
			r = append(r, o[c])
		}
		out = append(out, r)
	}
	return names, out
}

func (p *parser) cond(t *table, rows []row) []row {
	c := t.col(p.take())
	if c < 0 {
		p.fail()
	}
	op := p.take()
	var vals []interface{}
	if op == "<" && p.is(">") || op == "!" && p.is("=") {
		op = "<>"
	}
	if op == "in" || op == "=" && p.peek() == "(" {
		p.want("(")
		if p.is("select") {
			_, sub := p.sel()
			for _, r := range sub {
				vals = append(vals, r[0])
			}
		} else {
			vals = append(vals, p.value())
			for p.is(",") {
				vals = append(vals, p.value())
			}
		}
		p.want(")")
		op = "="
	} else {
		vals = append(vals, p.value())
	}
	var out []row
	for _, r := range rows {
		ok := false
		for _, v := range vals {
			switch op {
			case "=":
				ok = ok || equal(r[c], v)
			case "<>":
				ok = ok || !equal(r[c], v)
			case "<":
				ok = ok || less(r[c], v)
			case ">":
				ok = ok || less(v, r[c])
			case "<=":
				ok = ok || less(r[c], v) || equal(r[c], v)
			case ">=":
				ok = ok || less(v, r[c]) || equal(r[c], v)
			default:
				p.fail()
			}
		}
		if ok {
			out = append(out, r)
		}
	}
	return out
}

// ---- sqlx under the engine ----

// handles finds the models behind sqlx's types.
var handles = struct {
	mu  sync.Mutex
	dbs map[*sql.DB]*model
	txs map[*sql.Tx]*mtx
}{dbs: map[*sql.DB]*model{}, txs: map[*sql.Tx]*mtx{}}

// on finds the model of a handle: of a database, or of a transaction of it.
func on(d *sql.DB) (*model, *mtx) {
	handles.mu.Lock()
	defer handles.mu.Unlock()
	return handles.dbs[d], nil
}

func in(x *sql.Tx) (*model, *mtx) {
	handles.mu.Lock()
	defer handles.mu.Unlock()
	t := handles.txs[x]
	return t.m, t
}

func dbTag(f reflect.StructField) string {
	tag := f.Tag.Get("db")
	if tag == "" {
		tag = strings.ToLower(f.Name)
	}
	return tag
}

// bind replaces :names by positions.
func bind(q string, arg interface{}) (string, []interface{}) {
	var args []interface{}
	out := ""
	v := reflect.ValueOf(arg)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	m, isMap := arg.(map[string]interface{})
	if !isMap && v.Kind() != reflect.Struct {
		rt.Unsupported("named arguments")
	}
	for _, w := range lex(q) {
		if len(w) < 2 || w[0] != ':' {
			out += w + " "
			continue
		}
		var val interface{}
		found := false
		if isMap {
			val, found = m[w[1:]]
		} else {
			for i := 0; i < v.NumField(); i++ {
				if dbTag(v.Type().Field(i)) == w[1:] {
					val, found = v.Field(i).Interface(), true
				}
			}
		}
		if !found {
			return "", nil
		}
		args = append(args, val)
		out += "$" + strconv.Itoa(len(args)) + " "
	}
	return out, args
}

func fill(dst reflect.Value, val interface{}) error {
	switch x := val.(type) {
	case nil:
		return errors.New("converting NULL is unsupported")
	case int64:
		switch dst.Kind() {
		case reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uint16, reflect.Uint8:
			dst.SetUint(uint64(x))
		case reflect.Int, reflect.Int64, reflect.Int32:
			dst.SetInt(x)
		default:
			rt.Unsupported("scan of a number")
		}
	case string:
		if dst.Kind() == reflect.Slice {
			dst.SetBytes([]byte(x))
			return nil
		}
		if dst.Kind() != reflect.String {
			rt.Unsupported("scan of a string")
		}
		dst.SetString(x)
	case []byte:
		if dst.Kind() != reflect.Slice {
			rt.Unsupported("scan of bytes")
		}
		dst.SetBytes(append([]byte(nil), x...))
	}
	return nil
}

func scan(dst reflect.Value, cols []string, r row) error {
	if dst.Kind() != reflect.Struct {
		if len(cols) != 1 {
			return errors.New("scannable dest type with several columns")
		}
		return fill(dst, r[0])
	}
	for k, c := range cols {
		found := false
		for i := 0; i < dst.NumField(); i++ {
			if dbTag(dst.Type().Field(i)) == c {
				if err := fill(dst.Field(i), r[k]); err != nil {
					return err
				}
				found = true
			}
		}
		if !found {
			return errors.New("missing destination name " + c)
		}
	}
	return nil
}

func get(m *model, t *mtx, dest interface{}, q string, args []interface{}) error {
	cols, rows, err := m.run(t, q, args)
	if err != nil {
		return err
	}
	if len(rows) == 0 {
		return sql.ErrNoRows
	}
	return scan(reflect.ValueOf(dest).Elem(), cols, rows[0])
}

func selectAll(m *model, t *mtx, dest interface{}, q string, args []interface{}) error {
	cols, rows, err := m.run(t, q, args)
	if err != nil {
		return err
	}
	d := reflect.ValueOf(dest).Elem()
	el := d.Type().Elem()
	for _, r := range rows {
		var v, in reflect.Value
		if el.Kind() == reflect.Ptr {
			v = reflect.New(el.Elem())
			in = v.Elem()
		} else {
			in = reflect.New(el).Elem()
			v = in
		}
		if err := scan(in, cols, r); err != nil {
			return err
		}
		d.Set(reflect.Append(d, v))
	}
	return nil
}

type result struct{ n int64 }

func (result) LastInsertId() (int64, error)   { return 0, errors.New("LastInsertId is not supported") }
func (r result) RowsAffected() (int64, error) { return r.n, nil }

func namedExec(m *model, t *mtx, q string, arg interface{}) (sql.Result, error) {
	b, args := bind(q, arg)
	if b == "" {
		return nil, errors.New("could not find name in arguments")
	}
	_, rows, err := m.run(t, b, args)
	return result{int64(len(rows))}, err
}

func plainExec(m *model, t *mtx, q string, args []interface{}) (sql.Result, error) {
	_, rows, err := m.run(t, q, args)
	return result{int64(len(rows))}, err
}

func beginTx(d *sql.DB) (*sqlx.Tx, error) {
	m, _ := on(d)
	t, err := m.begin()
	if err != nil {
		return nil, err
	}
	x := &sqlx.Tx{Tx: &sql.Tx{}}
	handles.mu.Lock()
	handles.txs[x.Tx] = t
	handles.mu.Unlock()
	return x, nil
}

//verif:replace (*github.com/jmoiron/sqlx.DB).Get
func dbGet(d *sqlx.DB, dest interface{}, q string, args ...interface{}) error {
	m, t := on(d.DB)
	return get(m, t, dest, q, args)
}

//verif:replace (*github.com/jmoiron/sqlx.DB).GetContext
func dbGetCtx(d *sqlx.DB, ctx context.Context, dest interface{}, q string, args ...interface{}) error {
	m, t := on(d.DB)
	return get(m, t, dest, q, args)
}

//verif:replace (*github.com/jmoiron/sqlx.DB).Select
func dbSelect(d *sqlx.DB, dest interface{}, q string, args ...interface{}) error {
	m, t := on(d.DB)
	return selectAll(m, t, dest, q, args)
}

//verif:replace (*github.com/jmoiron/sqlx.DB).SelectContext
func dbSelectCtx(d *sqlx.DB, ctx context.Context, dest interface{}, q string, args ...interface{}) error {
	m, t := on(d.DB)
	return selectAll(m, t, dest, q, args)
}

//verif:replace (*github.com/jmoiron/sqlx.DB).Beginx
func dbBeginx(d *sqlx.DB) (*sqlx.Tx, error) { return beginTx(d.DB) }

//verif:replace (*github.com/jmoiron/sqlx.DB).BeginTxx
func dbBeginTxx(d *sqlx.DB, ctx context.Context, o *sql.TxOptions) (*sqlx.Tx, error) {
	return beginTx(d.DB)
}

//verif:replace (*github.com/jmoiron/sqlx.DB).NamedExec
func dbNamedExec(d *sqlx.DB, q string, arg interface{}) (sql.Result, error) {
	m, t := on(d.DB)
	return namedExec(m, t, q, arg)
}

//verif:replace (*github.com/jmoiron/sqlx.DB).NamedExecContext
func dbNamedExecCtx(d *sqlx.DB, ctx context.Context, q string, arg interface{}) (sql.Result, error) {
	m, t := on(d.DB)
	return namedExec(m, t, q, arg)
}

//verif:replace (*database/sql.DB).Exec
func dbExec(d *sql.DB, q string, args ...interface{}) (sql.Result, error) {
	m, t := on(d)
	return plainExec(m, t, q, args)
}

//verif:replace (*database/sql.DB).ExecContext
func dbExecCtx(d *sql.DB, ctx context.Context, q string, args ...interface{}) (sql.Result, error) {
	m, t := on(d)
	return plainExec(m, t, q, args)
}

//verif:replace (*github.com/jmoiron/sqlx.Tx).Get
func txGet(t *sqlx.Tx, dest interface{}, q string, args ...interface{}) error {
	m, x := in(t.Tx)
	return get(m, x, dest, q, args)
}

//verif:replace (*github.com/jmoiron/sqlx.Tx).GetContext
func txGetCtx(t *sqlx.Tx, ctx context.Context, dest interface{}, q string, args ...interface{}) error {
	m, x := in(t.Tx)
	return get(m, x, dest, q, args)
}

//verif:replace (*github.com/jmoiron/sqlx.Tx).Select
func txSelect(t *sqlx.Tx, dest interface{}, q string, args ...interface{}) error {
	m, x := in(t.Tx)
	return selectAll(m, x, dest, q, args)
}

//verif:replace (*github.com/jmoiron/sqlx.Tx).NamedExec
func txNamedExec(t *sqlx.Tx, q string, arg interface{}) (sql.Result, error) {
	m, x := in(t.Tx)
	return namedExec(m, x, q, arg)
}

//verif:replace (*github.com/jmoiron/sqlx.Tx).NamedExecContext
func txNamedExecCtx(t *sqlx.Tx, ctx context.Context, q string, arg interface{}) (sql.Result, error) {
	m, x := in(t.Tx)
	return namedExec(m, x, q, arg)
}

//verif:replace (*database/sql.Tx).Exec
func txExec(t *sql.Tx, q string, args ...interface{}) (sql.Result, error) {
	m, x := in(t)
	return plainExec(m, x, q, args)
}

//verif:replace (*database/sql.Tx).ExecContext
func txExecCtx(t *sql.Tx, ctx context.Context, q string, args ...interface{}) (sql.Result, error) {
	m, x := in(t)
	return plainExec(m, x, q, args)
}

//verif:replace (*database/sql.Tx).Commit
func txCommit(t *sql.Tx) error { _, x := in(t); return x.commit() }

//verif:replace (*database/sql.Tx).Rollback
func txRollback(t *sql.Tx) error { _, x := in(t); return x.rollback() }

// ---- the native driver ----

type conn struct {
	m *model
	t *mtx
}

type connector struct{ m *model }

func (c connector) Connect(context.Context) (driver.Conn, error) { return &conn{m: c.m}, nil }
func (c connector) Driver() driver.Driver                        { return nil }

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	return nil, errors.New("prepared statements are not modelled")
}
func (c *conn) Close() error { return nil }
func (c *conn) Begin() (driver.Tx, error) {
	t, err := c.m.begin()
	if err != nil {
		return nil, err
	}
	c.t = t
	return connTx{c}, nil
}

type connTx struct{ c *conn }

func (t connTx) Commit() error   { m := t.c.t; t.c.t = nil; return m.commit() }
func (t connTx) Rollback() error { m := t.c.t; t.c.t = nil; return m.rollback() }

func vals(args []driver.NamedValue) []interface{} {
	var out []interface{}
	for _, a := range args {
		out = append(out, a.Value)
	}
	return out
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	_, rows, err := c.m.run(c.t, q, vals(args))
	return result{int64(len(rows))}, err
}

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	cols, rows, err := c.m.run(c.t, q, vals(args))
	if err != nil {
		return nil, err
	}
	return &cursor{cols: cols, rows: rows}, nil
}

type cursor struct {
	cols []string
	rows []row
}

func (c *cursor) Columns() []string { return c.cols }
func (c *cursor) Close() error      { return nil }
func (c *cursor) Next(dst []driver.Value) error {
	if len(c.rows) == 0 {
		return io.EOF
	}
	for i, v := range c.rows[0] {
		dst[i] = v
	}
	c.rows = c.rows[1:]
	return nil
}

// open returns a database over m.
func open(m *model) *sqlx.DB {
	if rt.Symbolic() {
		d := &sqlx.DB{DB: &sql.DB{}}
		handles.mu.Lock()
		handles.dbs[d.DB] = m
		handles.mu.Unlock()
		return d
	}
	return sqlx.NewDb(sql.OpenDB(connector{m}), "postgres")
}
