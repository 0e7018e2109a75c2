package main

import (
	"fmt"
	"go/constant"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path.
type Dec struct {
	k byte   // 'b' branch, 'n' choice
	v uint64 // chosen value (branch: 0/1; with c: constant compared)
	c uint64 // constant for concretisation
	// forced: the other side was infeasible
	forced bool
}

type Violation struct {
	Harness  string            `json:"harness"`
	Prop     string            `json:"property"`
	Label    string            `json:"label"`
	Kind     string            `json:"kind"`
	Where    string            `json:"where"`
	Inputs   map[string]uint64 `json:"inputs"`
	Params   map[string]int    `json:"params,omitempty"`
	Sched    []SchedStep       `json:"sched,omitempty"`
	Native   string            `json:"native,omitempty"`
	KnownAs  string            `json:"known,omitempty"`
	Observed []string          `json:"observed,omitempty"`
	Explored bool              `json:"explored,omitempty"`
}

// SchedStep names the goroutine that ran next at a scheduling point.
type SchedStep struct {
	G string `json:"g"`
}

type input struct {
	name string
	v    *Term
}

// Path is one symbolic execution path.
type Path struct {
	e       *Engine
	x       *Explorer
	h       *Harness
	tc      *TermCtx
	prefix  []Dec
	decs    []Dec
	pending []*Term // not yet sent to the solver
	pcN     int
	facts   map[*Term]bool
	model   *Model
	scope   bool

	inputs  []input
	nameCnt map[string]int

	ov        map[*Obj][]Value
	ovm       map[*MapVal]*MapVal
	nobj      int
	initObjs  []*Obj
	initMaps  []*MapVal
	initChans []*ChanVal
	ovc       map[*ChanVal]*ChanVal
	steps     int64
	maxSteps  int64
	maxAlloc  int64 // bytes
	runStart  int64 // steps when the current goroutine was scheduled

	// scheduling
	gs           []*G
	cur          *G
	ready        []*G
	quies        []*G
	timers       []*timer
	tseq         int
	now          int64
	delays       int
	explore      bool
	selAll       bool
	mapAll       bool
	nsched       int
	schedTrace   []SchedStep
	kill         chan struct{}
	done         chan struct{}
	wg           sync.WaitGroup
	dead         bool
	res          pathAbort
	race         bool
	raceReported map[string]bool
	ngid         int

	hashes      []hashRec
	fixedHashes bool
	fixedRand   bool // random numbers are some distinct values
	randCnt     uint64
	covers      map[string]bool
	viols       []*Violation
	obs         []obsRec
	trackFns    map[string]bool
	side        map[interface{}]interface{}
	conds       map[Ptr][]*G
	known       []string
	expectCrash string
	allocAsViol bool
	fmtOpaque   bool
	lastModel   *Model
}

type obsRec struct {
	name string
	t    []*Term
	s    string
}

func (p *Path) abort(kind, msg string) {
	if !p.dead {
		p.res = pathAbort{kind, msg}
		p.dead = true
	}
	panic(pathAbort{kind, msg})
}

func (p *Path) inPrefix() bool { return len(p.decs) < len(p.prefix) }

func (p *Path) flush() {
	s := p.e.solver
	if !p.scope {
		s.begin()
		p.scope = true
	}
	for _, t := range p.pending {
		s.assert(t)
	}
	p.pending = p.pending[:0]
}

// add records a path constraint known to be consistent.
func (p *Path) add(c *Term) {
	if c == True {
		return
	}
	if c.op == OAnd {
		p.add(c.a)
		p.add(c.b)
		return
	}
	if v, ok := p.facts[c]; ok && v {
		return
	}
	p.facts[c] = true
	if c.op == ONot {
		p.facts[c.a] = false
		if c.a.op == OOr {
			// also record both negations
			p.facts[p.tc.Not(c.a.a)] = true
			p.facts[p.tc.Not(c.a.b)] = true
		}
	} else {
		p.facts[p.tc.Not(c)] = false
	}
	p.pending = append(p.pending, c)
	p.pcN++
	if p.model != nil && p.model.eval(c) == 0 {
		p.model = nil
	}
}

// late ends a path that runs much longer than the exploration may.
func (p *Path) late() {
	if p.x != nil && !p.x.deadline.IsZero() && time.Since(p.x.deadline) > 15*time.Second {
		p.abort("bound", "time bound reached")
	}
}

// sat checks pc && c.
func (p *Path) sat(c *Term) (satRes, *Model) {
	if c == False {
		return unsat, nil
	}
	p.flush()
	p.late()
	r, m, err := p.e.solver.check(c, p.tc.vars)
	if err != nil {
		p.e.solver.restart()
		p.scope = false
		p.abort("solver", err.Error())
	}
	if r == unknown {
		p.x.noteUnknown()
	}
	return r, m
}

func (p *Path) fact(c *Term) (val, known bool) {
	v, ok := p.facts[c]
	return v, ok
}

// branch decides a condition, forking when both outcomes are feasible.
func (p *Path) branch(c *Term) bool {
	if c.op == OConst {
		return c.val == 1
	}
	if p.e.initing {
		p.abort("unsupported", "symbolic branch during init")
	}
	if v, ok := p.fact(c); ok {
		return v
	}
	return p.branchC(c, 0)
}

func (p *Path) branchC(c *Term, tag uint64) bool {
	if p.inPrefix() {
		d := p.prefix[len(p.decs)]
		if d.k != 'b' {
			p.abort("engine", fmt.Sprintf("replay divergence: want branch, have %c", d.k))
		}
		p.decs = append(p.decs, d)
		if d.v == 1 {
			p.add(c)
			return true
		}
		p.add(p.tc.Not(c))
		return false
	}
	nc := p.tc.Not(c)
	var tm, fm *Model
	var tr, fr satRes = unknown, unknown
	if p.model != nil {
		if p.model.eval(c) == 1 {
			tr, tm = sat, p.model
		} else {
			fr, fm = sat, p.model
		}
	}
	if tr != sat {
		tr, tm = p.sat(c)
		if tr == unsat {
			// pc is feasible, so !c is
			fr = sat
		}
	}
	if fr != sat {
		fr, fm = p.sat(nc)
	}
	switch {
	case tr != unsat && fr != unsat:
		// Fork: explore true first, queue false.
		p.x.push(p, Dec{k: 'b', v: 0, c: tag})
		p.decs = append(p.decs, Dec{k: 'b', v: 1, c: tag})
		p.add(c)
		p.model = tm
		return true
	case tr != unsat:
		p.decs = append(p.decs, Dec{k: 'b', v: 1, c: tag, forced: true})
		p.add(c)
		p.model = tm
		return true
	default:
		p.decs = append(p.decs, Dec{k: 'b', v: 0, c: tag, forced: true})
		p.add(nc)
		p.model = fm
		return false
	}
}

// concretize enumerates feasible values of t.
func (p *Path) concretize(t *Term, why string) uint64 {
	if t.isConst() {
		return t.val
	}
	for i := 0; ; i++ {
		if i > p.e.cfg.maxConc {
			p.abort("bound", fmt.Sprintf("more than %d values for %s at %s", p.e.cfg.maxConc, why, p.cur.where()))
		}
		var v uint64
		if p.inPrefix() {
			v = p.prefix[len(p.decs)].c
		} else {
			if p.model == nil {
				r, m := p.sat(True)
				if r != sat {
					p.abort("infeasible", "path infeasible in concretize")
				}
				p.model = m
			}
			v = p.model.eval(t)
		}
		c := p.tc.Eq(t, BV(t.w, v))
		if c.isConst() {
			if c.val == 1 {
				return v
			}
			continue
		}
		if b, ok := p.fact(c); ok {
			if b {
				return v
			}
			p.model = nil
			continue
		}
		if p.branchC(c, v) {
			return v
		}
	}
}

// choose makes an n-way nondeterministic choice, modelled as a fresh solver variable.
func (p *Path) choose(n int, name string) int {
	if n <= 1 {
		return 0
	}
	v := p.tc.Var(name, 8)
	pick := func(i int) int {
		p.add(p.tc.Eq(v, BV(8, uint64(i))))
		return i
	}
	if p.model != nil {
		for len(p.model.v) < len(p.tc.vars) {
			p.model.v = append(p.model.v, 0)
		}
	}
	if p.inPrefix() {
		d := p.prefix[len(p.decs)]
		if d.k != 'n' {
			p.abort("engine", fmt.Sprintf("replay divergence: want choice, have %c", d.k))
		}
		p.decs = append(p.decs, d)
		return pick(int(d.v))
	}
	for i := n - 1; i >= 1; i-- {
		p.x.push(p, Dec{k: 'n', v: uint64(i)})
	}
	p.decs = append(p.decs, Dec{k: 'n', v: 0})
	return pick(0)
}

// assume restricts the path.
func (p *Path) assume(c *Term) {
	if c == True {
		return
	}
	if c == False {
		p.abort("infeasible", "assume")
	}
	if v, ok := p.fact(c); ok {
		if v {
			return
		}
		p.abort("infeasible", "assume")
	}
	if !p.inPrefix() {
		if p.model == nil || p.model.eval(c) == 0 {
			r, m := p.sat(c)
			if r == unsat {
				p.abort("infeasible", "assume")
			}
			p.model = m
		}
	}
	m := p.model
	p.add(c)
	p.model = m
}

func (p *Path) fresh(name string, w uint8) *Term {
	n := p.nameCnt[name]
	p.nameCnt[name] = n + 1
	full := fmt.Sprintf("%s#%d", name, n)
	v := p.tc.Var(full, w)
	p.inputs = append(p.inputs, input{full, v})
	if p.model != nil {
		for len(p.model.v) < len(p.tc.vars) {
			p.model.v = append(p.model.v, 0)
		}
	}
	return v
}

func (p *Path) assign(m *Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, in := range p.inputs {
		r[in.name] = m.eval(in.v)
	}
	return r
}

func (p *Path) needModel() *Model {
	if p.model == nil {
		r, m := p.sat(True)
		if r == sat {
			p.model = m
		}
	}
	return p.model
}

// report records a violation under model m.
func (p *Path) report(kind, label, where string, m *Model) {
	v := &Violation{Harness: p.h.Name, Prop: p.h.Prop, Label: label, Kind: kind, Where: where}
	if m != nil {
		v.Inputs = p.assign(m)
	}
	v.Params = p.h.copyParams()
	v.Explored = p.nsched > 0 || p.race
	v.Sched = append([]SchedStep(nil), p.schedTrace...)
	if len(p.known) > 0 {
		v.KnownAs = strings.Join(p.known, ",")
	}
	p.x.addViolation(v)
}

// assertT checks that c holds on this path for every value.
func (p *Path) assertT(c *Term, label, where string) {
	p.x.noteAssert(label)
	if c == True {
		return
	}
	if v, ok := p.fact(c); ok && v {
		return
	}
	if !p.inPrefix() {
		nc := p.tc.Not(c)
		var r satRes
		var m *Model
		if p.model != nil && p.model.eval(nc) == 1 {
			r, m = sat, p.model
		} else {
			r, m = p.sat(nc)
		}
		switch r {
		case sat:
			p.report("assert", label, where, m)
			// continue only where it holds
			if c == False {
				p.abort("violated", label)
			}
			r2, m2 := p.sat(c)
			if r2 != sat {
				p.abort("violated", label)
			}
			p.model = m2
		case unknown:
			p.x.noteInconclusive("solver unknown on assertion " + label)
		}
	} else if c == False {
		p.abort("violated", label)
	}
	m := p.model
	if m != nil && m.eval(c) == 0 {
		m = nil
	}
	p.add(c)
	p.model = m
}

// hugeAlloc reports an allocation whose size an input controls beyond the limit.
func (p *Path) hugeAlloc(n *Term, bs int64, where string) {
	// prefer a really huge witness so that replay shows it
	m := p.needModel()
	if r, mm := p.sat(p.tc.Ult(BV(64, uint64(16<<30/bs)), n)); r == sat {
		m = mm
	}
	p.report("alloc", "allocation not bounded by the input", where, m)
	p.abort("violated", "allocation")
}

func runPath(e *Engine, x *Explorer, h *Harness, prefix []Dec) *Path {
	p := newPath(e, x, h)
	if h.Steps > 0 {
		p.maxSteps = h.Steps * 1_000_000
	}
	if h.Alloc > 0 {
		p.maxAlloc = h.Alloc << 20
	}
	p.prefix = prefix
	p.runMain(func(g *G) { g.call(h.fn, nil, nil) })
	return p
}

func newPath(e *Engine, x *Explorer, h *Harness) *Path {
	return &Path{e: e, x: x, h: h, tc: newTermCtx(), facts: map[*Term]bool{},
		nameCnt: map[string]int{}, maxSteps: e.cfg.maxSteps, maxAlloc: e.cfg.allocLimit, covers: map[string]bool{},
		side: map[interface{}]interface{}{}, conds: map[Ptr][]*G{}, nobj: e.glob.nobj,
		kill: make(chan struct{}), done: make(chan struct{}), trackFns: map[string]bool{},
		raceReported: map[string]bool{}}
}

// runMain runs f as the main goroutine of p to completion of the path.
func (p *Path) runMain(f func(g *G)) {
	g := p.newG("main")
	p.cur = g
	p.launch(g, func(g *G) {
		f(g)
		p.abort("done", "")
	})
	g.resume <- struct{}{}
	<-p.done
	close(p.kill)
	p.wg.Wait()
	if p.x != nil && p.res.kind == "done" && !p.h.NoVal {
		p.lastModel = p.sampleModel()
	}
	if p.scope {
		p.e.solver.end()
		p.scope = false
	}
}

func (p *Path) launch(g *G, f func(g *G)) {
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if a, ok := r.(pathAbort); ok {
				if a.kind == "killed" {
					return
				}
				if p.dead && a != p.res {
					// an abort raised while unwinding another
				}
				p.finish()
				return
			}
			if tp, ok := r.(*targetPanic); ok {
				p.crash(g, tp)
				return
			}
			if !p.dead {
				p.dead = true
				p.res = pathAbort{"engine", fmt.Sprintf("%v at %s in %s", r, where(string(debug.Stack())), g.where())}
			}
			p.finish()
		}()
		select {
		case <-g.resume:
		case <-p.kill:
			panic(pathAbort{"killed", ""})
		}
		f(g)
		g.exit()
	}()
}

// where names the engine functions of a stack, innermost first.
func where(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if i := strings.LastIndex(l, "/engine/"); i >= 0 && strings.HasPrefix(l, "\t") {
			out = append(out, strings.Fields(l[i+8:])[0])
		}
	}
	if len(out) > 1 {
		out = out[1:]
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, " ")
}

func (p *Path) finish() {
	defer func() { recover() }()
	close(p.done)
}

// crash handles an uncaught panic: the process would terminate.
func (p *Path) crash(g *G, tp *targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathAbort); !ok && !p.dead {
				p.res = pathAbort{"engine", fmt.Sprint(r)}
			}
		}
		p.dead = true
		p.finish()
	}()
	if p.e.initing {
		p.res = pathAbort{"unsupported", "panic: " + g.panicText(tp) + " at " + tp.where}
		p.dead = true
		return
	}
	msg := g.panicText(tp)
	if p.expectCrash == "" {
		m := p.needModel()
		p.report("crash", "crash: "+msg, tp.where, m)
	}
	p.res = pathAbort{"violated", "crash: " + msg}
}

func (g *G) panicText(tp *targetPanic) string {
	if tp.rt != "" {
		return "runtime error: " + tp.rt
	}
	if i, ok := tp.v.(Iface); ok {
		switch v := i.v.(type) {
		case Str:
			if v.b == nil {
				return v.c
			}
			return "(symbolic string)"
		case Ptr:
			if v.obj != nil {
				c := g.p.rd(v.obj)
				if v.off < len(c) {
					if s, ok := c[v.off].(Str); ok && s.b == nil {
						return s.c
					}
				}
			}
		}
		if i.t != nil {
			return "panic of type " + i.t.String()
		}
	}
	return fmt.Sprintf("panic %T", tp.v)
}

// ---- package init ----

func (e *Engine) initPackages(main *ssa.Package, skip func(path string) bool) (failed map[string]string) {
	failed = map[string]string{}
	e.initing = true
	defer func() { e.initing = false }()
	seen := map[*ssa.Package]bool{}
	var order []*ssa.Package
	var objs []*Obj
	var maps []*MapVal
	var chans []*ChanVal
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		imps := p.Pkg.Imports()
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, im := range imps {
			visit(e.l.pkgs[im.Path()])
		}
		order = append(order, p)
	}
	visit(main)
	for _, pk := range order {
		path := pk.Pkg.Path()
		if skip(path) {
			failed[path] = "skipped"
			p := newPath(e, nil, nil)
			p.nobj = e.glob.nobj
			p.runMain(func(g *G) { g.initErrors(pk) })
			e.glob.nobj = p.nobj
			objs = append(objs, p.initObjs...)
			e.markUninit(pk)
			continue
		}
		fn := pk.Func("init")
		if fn == nil {
			continue
		}
		p := newPath(e, nil, nil)
		p.nobj = e.glob.nobj
		c := &cfn{fn: fn, name: fn.String(), resT: fn.Signature.Results()}
		e.compileBody(c)
		p.runMain(func(g *G) { g.callC(c, nil, nil) })
		e.glob.nobj = p.nobj
		objs = append(objs, p.initObjs...)
		maps = append(maps, p.initMaps...)
		chans = append(chans, p.initChans...)
		if p.res.kind != "done" {
			failed[path] = p.res.kind + ": " + p.res.msg
			e.markUninit(pk)
		}
	}
	for _, o := range objs {
		o.shared = true
	}
	for _, m := range maps {
		m.shared = true
	}
	for _, c := range chans {
		c.shared = true
	}
	// freeze globals
	for _, o := range e.glob.objs {
		o.shared = true
	}
	return failed
}

// initErrors initialises the error variables of a package whose initialiser is not run.
func (g *G) initErrors(pk *ssa.Package) {
	f := pk.Func("init")
	if f == nil {
		return
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			gl, ok := s.Addr.(*ssa.Global)
			if !ok || gl.Pkg != pk || g.e.glob.objs[gl] == nil {
				continue
			}
			c, ok := s.Val.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "errors.New" {
				continue
			}
			if k, ok := c.Call.Args[0].(*ssa.Const); ok {
				g.p.wr(g.e.glob.objs[gl])[0] = g.mkError(Str{c: constant.StringVal(k.Value)})
			}
		}
	}
}

// markUninit flags globals that still hold their zero value although the package initialises them.
func (e *Engine) markUninit(pk *ssa.Package) {
	stored := map[*ssa.Global]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						stored[g] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						stored[g] = true
					}
				}
			}
		}
	}
	if f := pk.Func("init"); f != nil {
		scan(f)
	}
	for n, m := range pk.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "init#") {
			scan(f)
		}
	}
	for g := range stored {
		if g.Pkg != pk {
			continue
		}
		o := e.glob.objs[g]
		if o == nil {
			continue
		}
		z := e.zeroCells(derefT(g.Type()))
		fresh := true
		for i := range z {
			if !sameCell(z[i], o.cells[i]) {
				fresh = false
				break
			}
		}
		if fresh {
			e.glob.uninit[o] = g.String()
		}
	}
}

func sameCell(a, b Value) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	switch x := a.(type) {
	case Str:
		y, ok := b.(Str)
		return ok && x.b == nil && y.b == nil && x.c == y.c
	}
	return a == b
}

// sampleModel returns a model of a finished path.
func (p *Path) sampleModel() (m *Model) {
	defer func() {
		if recover() != nil {
			m = nil
		}
	}()
	defer func() {
		if m != nil {
			m = p.realHashes(m)
		}
	}()
	if p.model != nil {
		return p.model
	}
	p.x.mu.Lock()
	take := p.x.done%p.x.sampleEvery == 0
	p.x.mu.Unlock()
	if !take {
		return nil
	}
	p.flush()
	r, m, err := p.e.solver.check(True, p.tc.vars)
	if err != nil {
		p.e.solver.restart()
		p.scope = false
	}
	if err != nil || r != sat {
		return nil
	}
	return m
}

// realHashes replaces hash outputs by the real ones and keeps the model only if the path condition still holds.
func (p *Path) realHashes(m *Model) *Model {
	if len(p.hashes) == 0 {
		return m
	}
	v := append([]uint64(nil), m.v...)
	for len(v) < len(p.tc.vars) {
		v = append(v, 0)
	}
	r := &Model{v: v, memo: map[*Term]uint64{}}
	sym := false
	for _, h := range p.hashes {
		if h.out[0].op != OVar {
			continue
		}
		sym = true
		b := make([]byte, len(h.in))
		for i, t := range h.in {
			b[i] = byte(r.eval(t))
		}
		for i, c := range h.real(b) {
			r.v[h.out[i].val] = uint64(c)
		}
		r.memo = map[*Term]uint64{}
	}
	if !sym {
		return m
	}
	for t, want := range p.facts {
		if (r.eval(t) == 1) != want {
			return nil
		}
	}
	return r
}
