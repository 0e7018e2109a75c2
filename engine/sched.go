package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type gstate int

const (
	gReady gstate = iota
	gRunning
	gBlocked
	gDone
)

// G is a goroutine of the interpreted program.
type G struct {
	id     int
	name   string
	p      *Path
	e      *Engine
	fr     *frame
	depth  int
	resume chan struct{}
	state  gstate
	why    string
	vc     []int
	// channel wait results
	sel      *selWait
	onExit   []func()
	spawned  string
	noschedN int
}

type selWait struct {
	g           *G
	done        bool
	idx         int
	val         Value
	ok          bool
	panicClosed bool
}

type waiter struct {
	w   *selWait
	idx int
	val Value
	vc  []int
}

type ChanVal struct {
	id     int
	cap    int
	buf    []Value
	bufvc  [][]int
	closed bool
	et     types.Type
	recvq  []*waiter
	sendq  []*waiter
	vc     []int
	never  bool
	shared bool
}

type timer struct {
	when   int64
	seq    int
	f      func()
	dead   bool
	period int64
}

func (p *Path) newG(name string) *G {
	g := &G{id: p.ngid, name: name, p: p, e: p.e, resume: make(chan struct{}, 1)}
	p.ngid++
	p.gs = append(p.gs, g)
	if p.race {
		g.vc = vcSet(nil, g.id, 1)
	}
	return g
}

// spawn starts a goroutine.
func (g *G) spawn(f func(g *G), where string) *G {
	p := g.p
	if p.e.initing {
		// background goroutines of package initialisers never run
		return nil
	}
	if len(p.gs) > 3000 {
		p.abort("bound", "more than 3000 goroutines")
	}
	n := p.newG(fmt.Sprintf("g%d", p.ngid))
	n.spawned = where
	if p.race {
		n.vc = vcSet(append([]int(nil), g.vc...), n.id, 1)
		g.tick()
	}
	p.launch(n, f)
	n.state = gReady
	p.ready = append(p.ready, n)
	g.preempt("go")
	return n
}

func (g *G) exit() {
	p := g.p
	g.state = gDone
	for _, f := range g.onExit {
		f()
	}
	for i, x := range p.gs {
		if x == g {
			p.gs = append(p.gs[:i:i], p.gs[i+1:]...)
			break
		}
	}
	next := p.pickNext(g)
	p.cur = next
	next.state = gRunning
	next.resume <- struct{}{}
}

// pickNext chooses who runs next when the current goroutine cannot.
func (p *Path) pickNext(g *G) *G {
	for {
		if len(p.ready) > 0 {
			i := 0
			if p.explore && p.delays > 0 && len(p.ready) > 1 {
				n := len(p.ready)
				if n > p.delays+1 {
					n = p.delays + 1
				}
				p.nsched++
				i = p.choose(n, fmt.Sprintf("sched#%d", p.nsched))
				p.delays -= i
			}
			n := p.ready[i]
			// skipped goroutines go to the back
			rest := append([]*G(nil), p.ready[i+1:]...)
			rest = append(rest, p.ready[:i]...)
			p.ready = rest
			p.trace(n)
			return n
		}
		if len(p.quies) > 0 {
			n := p.quies[len(p.quies)-1]
			p.quies = p.quies[:len(p.quies)-1]
			p.trace(n)
			return n
		}
		if p.fireNextTimer() {
			continue
		}
		p.deadlock()
	}
}

func (p *Path) trace(n *G) {
	p.runStart = p.steps
	p.schedTrace = append(p.schedTrace, SchedStep{G: n.name})
}

func (p *Path) fireNextTimer() bool {
	var best *timer
	for _, t := range p.timers {
		if t.dead {
			continue
		}
		if best == nil || t.when < best.when || t.when == best.when && t.seq < best.seq {
			best = t
		}
	}
	if best == nil {
		return false
	}
	p.runTimer(best)
	return true
}

func (p *Path) runTimer(t *timer) {
	if t.when > p.now {
		p.now = t.when
	}
	if t.period > 0 {
		p.tseq++
		t.when += t.period
		t.seq = p.tseq
	} else {
		t.dead = true
		for i, x := range p.timers {
			if x == t {
				p.timers = append(p.timers[:i:i], p.timers[i+1:]...)
				break
			}
		}
	}
	p.steps += 1000
	if p.steps > p.maxSteps {
		p.abort("bound", "step bound exceeded (timers)")
	}
	t.f()
}

func (p *Path) addTimer(d int64, period int64, f func()) *timer {
	p.tseq++
	if d < 0 {
		d = 0
	}
	t := &timer{when: p.now + d, seq: p.tseq, f: f, period: period}
	p.timers = append(p.timers, t)
	return t
}

func (p *Path) stopTimer(t *timer) bool {
	was := !t.dead
	t.dead = true
	for i, x := range p.timers {
		if x == t {
			p.timers = append(p.timers[:i:i], p.timers[i+1:]...)
			break
		}
	}
	return was
}

// deadlock: nothing can run and main has not returned.
func (p *Path) deadlock() {
	var ss []string
	for _, g := range p.gs {
		if g.state == gBlocked {
			ss = append(ss, g.name+" "+g.why+" at "+g.where())
		}
	}
	sort.Strings(ss)
	m := p.needModel()
	p.report("deadlock", "deadlock: the driver can never continue", strings.Join(ss, " | "), m)
	p.abort("violated", "deadlock")
}

// block parks the current goroutine until another makes it ready.
func (g *G) block(why string) {
	p := g.p
	g.state = gBlocked
	g.why = why
	next := p.pickNext(g)
	g.switchTo(next)
}

func (g *G) switchTo(next *G) {
	p := g.p
	if next == g {
		g.state = gRunning
		return
	}
	p.cur = next
	next.state = gRunning
	next.resume <- struct{}{}
	select {
	case <-g.resume:
	case <-p.kill:
		panic(pathAbort{"killed", ""})
	}
	if p.dead {
		panic(pathAbort{"killed", ""})
	}
}

func (p *Path) wake(g *G) {
	if g.state != gBlocked {
		return
	}
	g.state = gReady
	p.ready = append(p.ready, g)
}

// preempt is a potential context switch at a synchronisation operation.
func (g *G) preempt(what string) {
	p := g.p
	if !p.explore || p.delays <= 0 || len(p.ready) == 0 || g.noschedN > 0 {
		return
	}
	p.nsched++
	n := len(p.ready)
	if n > p.delays {
		n = p.delays
	}
	i := p.choose(n+1, fmt.Sprintf("sched#%d", p.nsched))
	if i == 0 {
		return
	}
	p.delays -= i
	g.state = gReady
	next := p.ready[i-1]
	rest := append([]*G(nil), p.ready[i:]...)
	rest = append(rest, p.ready[:i-1]...)
	rest = append(rest, g)
	p.ready = rest
	p.trace(next)
	g.switchTo(next)
}

// yield moves the current goroutine to the back of the ready queue.
func (g *G) yield() {
	p := g.p
	if len(p.ready) == 0 {
		return
	}
	g.state = gReady
	p.ready = append(p.ready, g)
	next := p.pickNext(g)
	g.switchTo(next)
}

// quiesce waits until no other goroutine can run (without time passing).
func (g *G) quiesce() {
	p := g.p
	if len(p.ready) == 0 {
		return
	}
	g.state = gBlocked
	g.why = "quiesce"
	p.quies = append(p.quies, g)
	next := p.pickNext(g)
	g.switchTo(next)
}

// sleep suspends for d virtual nanoseconds.
func (g *G) sleep(d int64) {
	p := g.p
	if d <= 0 {
		g.yield()
		return
	}
	p.addTimer(d, 0, func() { p.wake(g) })
	g.block("sleep")
}

// ---- channels ----

func (g *G) newChan(n int, et types.Type) *ChanVal {
	if n < 0 {
		g.rtPanic("makechan: size out of range")
	}
	g.p.nobj++
	c := &ChanVal{id: g.p.nobj, cap: n, et: et}
	if g.e.initing {
		g.p.initChans = append(g.p.initChans, c)
	}
	return c
}

// ch is this path's copy of a channel created during package initialisation.
func (p *Path) ch(v Value) *ChanVal {
	c := v.(*ChanVal)
	if c == nil || !c.shared {
		return c
	}
	if r, ok := p.ovc[c]; ok {
		return r
	}
	r := &ChanVal{id: c.id, cap: c.cap, et: c.et, buf: append([]Value(nil), c.buf...), closed: c.closed, never: c.never}
	if p.ovc == nil {
		p.ovc = map[*ChanVal]*ChanVal{}
	}
	p.ovc[c] = r
	return r
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.w.done {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.w.done {
			return true
		}
	}
	return false
}

func (p *Path) complete(w *waiter, val Value, ok bool) {
	w.w.done = true
	w.w.idx = w.idx
	w.w.val = val
	w.w.ok = ok
	p.wake(w.w.g)
}

// trySend attempts a send without blocking.
func (g *G) trySend(c *ChanVal, v Value) bool {
	if c == nil {
		return false
	}
	if c.closed {
		panic(&targetPanic{v: Iface{t: g.e.runtimeErrType(), v: Str{c: "send on closed channel"}}, where: g.where(), rt: "send on closed channel"})
	}
	if w := popWaiter(&c.recvq); w != nil {
		if g.p.race {
			o := w.w.g
			o.vc = vcJoin(o.vc, g.vc)
			g.vc = vcJoin(g.vc, w.vc)
			g.tick()
			o.tick()
		}
		g.p.complete(w, v, true)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		if g.p.race {
			c.bufvc = append(c.bufvc, append([]int(nil), g.vc...))
			g.vc = vcJoin(g.vc, c.vc)
			g.tick()
		}
		return true
	}
	return false
}

func (g *G) tryRecv(c *ChanVal) (Value, bool, bool) {
	if c == nil {
		return nil, false, false
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if g.p.race {
			g.vc = vcJoin(g.vc, c.bufvc[0])
			c.bufvc = c.bufvc[1:]
			c.vc = vcJoin(c.vc, g.vc)
			g.tick()
		}
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			if g.p.race {
				c.bufvc = append(c.bufvc, w.vc)
			}
			g.p.complete(w, nil, true)
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		if g.p.race {
			o := w.w.g
			g.vc = vcJoin(g.vc, w.vc)
			o.vc = vcJoin(o.vc, g.vc)
			g.tick()
			o.tick()
		}
		v := w.val
		g.p.complete(w, nil, true)
		return v, true, true
	}
	if c.closed {
		if g.p.race {
			g.vc = vcJoin(g.vc, c.vc)
		}
		return g.e.zeroValue(c.et), false, true
	}
	return nil, false, false
}

func (g *G) send(c *ChanVal, v Value) {
	if g.e.initing {
		g.unsupported("channel send during init")
	}
	g.preempt("send")
	if g.trySend(c, v) {
		return
	}
	w := &selWait{g: g}
	if c != nil {
		wt := &waiter{w: w, val: v}
		if g.p.race {
			wt.vc = append([]int(nil), g.vc...)
		}
		c.sendq = append(c.sendq, wt)
	}
	g.sel = w
	g.block("chan send")
	if w.panicClosed {
		panic(&targetPanic{v: Iface{t: g.e.runtimeErrType(), v: Str{c: "send on closed channel"}}, where: g.where(), rt: "send on closed channel"})
	}
}

func (g *G) recv(c *ChanVal) (Value, bool) {
	g.preempt("recv")
	if v, ok, done := g.tryRecv(c); done {
		return v, ok
	}
	w := &selWait{g: g}
	if c != nil {
		wt := &waiter{w: w}
		if g.p.race {
			wt.vc = append([]int(nil), g.vc...)
		}
		c.recvq = append(c.recvq, wt)
	}
	g.block("chan receive")
	return w.val, w.ok
}

func (g *G) closeChan(c *ChanVal) {
	if c == nil {
		g.rtPanic("close of nil channel")
	}
	g.preempt("close")
	if c.closed {
		panic(&targetPanic{v: Iface{t: g.e.runtimeErrType(), v: Str{c: "close of closed channel"}}, where: g.where(), rt: "close of closed channel"})
	}
	c.closed = true
	if g.p.race {
		c.vc = vcJoin(c.vc, g.vc)
		g.tick()
	}
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		if g.p.race {
			w.w.g.vc = vcJoin(w.w.g.vc, c.vc)
		}
		g.p.complete(w, g.e.zeroValue(c.et), false)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.w.panicClosed = true
		g.p.complete(w, nil, false)
	}
}

type selCase struct {
	send bool
	c    *ChanVal
	v    Value
}

// selectG performs a select; returns chosen index (-1 default), value, ok.
func (g *G) selectG(cases []selCase, blocking bool) (int, Value, bool) {
	g.preempt("select")
	var rdy []int
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		if c.send {
			if c.c.closed || hasWaiter(c.c.recvq) || len(c.c.buf) < c.c.cap {
				rdy = append(rdy, i)
			}
		} else if len(c.c.buf) > 0 || c.c.closed || hasWaiter(c.c.sendq) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 && g.p.explore && g.p.selAll {
			g.p.nsched++
			k = g.p.choose(len(rdy), fmt.Sprintf("select#%d", g.p.nsched))
		}
		i := rdy[k]
		if cases[i].send {
			g.trySend(cases[i].c, cases[i].v)
			return i, nil, true
		}
		v, ok, _ := g.tryRecv(cases[i].c)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	w := &selWait{g: g}
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		wt := &waiter{w: w, idx: i, val: c.v}
		if g.p.race {
			wt.vc = append([]int(nil), g.vc...)
		}
		if c.send {
			c.c.sendq = append(c.c.sendq, wt)
		} else {
			c.c.recvq = append(c.c.recvq, wt)
		}
	}
	g.block("select")
	if w.panicClosed {
		panic(&targetPanic{v: Iface{t: g.e.runtimeErrType(), v: Str{c: "send on closed channel"}}, where: g.where(), rt: "send on closed channel"})
	}
	return w.idx, w.val, w.ok
}

func (k *compiler) selectInstr(in *ssa.Select, dst int) func(fr *frame) {
	type st struct {
		send bool
		c    opnd
		v    opnd
		rt   types.Type
	}
	var sts []st
	for _, s := range in.States {
		x := st{send: s.Dir == types.SendOnly, c: k.op(s.Chan)}
		if x.send {
			x.v = k.op(s.Send)
		} else {
			x.rt = s.Chan.Type().Underlying().(*types.Chan).Elem()
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	pos := in.Pos()
	return func(fr *frame) {
		fr.curPos = pos
		cs := make([]selCase, len(sts))
		for i := range sts {
			cs[i].send = sts[i].send
			cs[i].c = fr.g.p.ch(sts[i].c.get(fr))
			if sts[i].send {
				cs[i].v = sts[i].v.get(fr)
			}
		}
		i, v, ok := fr.g.selectG(cs, blocking)
		r := Tuple{BV(64, uint64(i)), BoolT(ok)}
		for j := range sts {
			if !sts[j].send {
				if j == i {
					r = append(r, v)
				} else {
					r = append(r, fr.g.e.zeroValue(sts[j].rt))
				}
			}
		}
		fr.regs[dst] = r
	}
}

// ---- mutexes (state lives in the cells of the Go value) ----

func (g *G) cell(pv Value, off int) (Ptr, *Term) {
	ptr, ok := pv.(Ptr)
	if !ok {
		ptr = g.fixPtr(pv.(SymPtr))
	}
	if ptr.obj == nil {
		g.nilDeref()
	}
	c := g.p.rd(ptr.obj)[ptr.off+off]
	t, ok := c.(*Term)
	if !ok {
		g.unsupported("sync cell %T", c)
	}
	return Ptr{ptr.obj, ptr.off + off}, t
}

func (g *G) setCell(p Ptr, v uint64) {
	w := g.p.wr(p.obj)
	w[p.off] = BV(w[p.off].(*Term).w, v)
}

// waitOn parks until woken through key; the caller re-checks its condition.
func (g *G) waitOn(key Ptr, why string) {
	g.p.conds[key] = append(g.p.conds[key], g)
	g.block(why)
}

func (g *G) wakeAll(key Ptr) {
	q := g.p.conds[key]
	delete(g.p.conds, key)
	for _, w := range q {
		g.p.wake(w)
	}
}

type lockVC struct{ p Ptr }

func (g *G) acq(key Ptr) {
	if g.p.race {
		if v, ok := g.p.side[lockVC{key}].([]int); ok {
			g.vc = vcJoin(g.vc, v)
		}
	}
}

func (g *G) rel(key Ptr) {
	if g.p.race {
		v, _ := g.p.side[lockVC{key}].([]int)
		g.p.side[lockVC{key}] = vcJoin(append([]int(nil), v...), g.vc)
		g.tick()
	}
}

func (g *G) fatal(msg string) {
	m := g.p.needModel()
	g.p.report("crash", "fatal error: "+msg, g.where(), m)
	g.p.abort("violated", msg)
}

func (g *G) mutexLock(pv Value) {
	g.preempt("lock")
	for {
		p, s := g.cell(pv, 0)
		if s.val == 0 {
			g.setCell(p, 1)
			g.acq(p)
			return
		}
		g.waitOn(p, "mutex lock")
	}
}

func (g *G) mutexTryLock(pv Value) bool {
	g.preempt("trylock")
	p, s := g.cell(pv, 0)
	if s.val == 0 {
		g.setCell(p, 1)
		g.acq(p)
		return true
	}
	return false
}

func (g *G) mutexUnlock(pv Value) {
	p, s := g.cell(pv, 0)
	if s.val == 0 {
		g.fatal("sync: unlock of unlocked mutex")
	}
	g.rel(p)
	g.setCell(p, 0)
	g.wakeAll(p)
	g.preempt("unlock")
}

// RWMutex: cell 0 = writer held, cell 1 = reader count.
func (g *G) rwLock(pv Value) {
	g.preempt("rwlock")
	for {
		p, w := g.cell(pv, 0)
		p1, r := g.cell(pv, 1)
		if w.val == 0 && r.val == 0 {
			g.setCell(p, 1)
			g.acq(p)
			g.acq(p1)
			k := rwPend{p}
			if n, _ := g.p.side[k].(int); n > 0 {
				_ = n
			}
			return
		}
		k := rwPend{p}
		n, _ := g.p.side[k].(int)
		g.p.side[k] = n + 1
		g.waitOn(p, "rwmutex lock")
		n, _ = g.p.side[k].(int)
		g.p.side[k] = n - 1
	}
}

type rwPend struct{ p Ptr }

func (g *G) rwUnlock(pv Value) {
	p, w := g.cell(pv, 0)
	if w.val == 0 {
		g.fatal("sync: Unlock of unlocked RWMutex")
	}
	g.rel(p)
	g.setCell(p, 0)
	g.wakeAll(p)
	g.preempt("rwunlock")
}

func (g *G) rwRLock(pv Value) {
	g.preempt("rlock")
	for {
		p, w := g.cell(pv, 0)
		p1, r := g.cell(pv, 1)
		pend, _ := g.p.side[rwPend{p}].(int)
		if w.val == 0 && pend == 0 {
			g.setCell(p1, r.val+1)
			g.acq(p)
			return
		}
		g.waitOn(p, "rwmutex rlock")
	}
}

func (g *G) rwRUnlock(pv Value) {
	p, _ := g.cell(pv, 0)
	p1, r := g.cell(pv, 1)
	if r.val == 0 {
		g.fatal("sync: RUnlock of unlocked RWMutex")
	}
	g.rel(p1)
	g.setCell(p1, r.val-1)
	g.wakeAll(p)
	g.preempt("runlock")
}

// ---- vector clocks ----

func vcSet(v []int, i, n int) []int {
	for len(v) <= i {
		v = append(v, 0)
	}
	v[i] = n
	return v
}

func vcGet(v []int, i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func vcJoin(a, b []int) []int {
	n := max(len(a), len(b))
	r := make([]int, n)
	for i := range r {
		r[i] = max(vcGet(a, i), vcGet(b, i))
	}
	return r
}

func (g *G) tick() { g.vc = vcSet(g.vc, g.id, vcGet(g.vc, g.id)+1) }

type epoch struct {
	g, clk int
	where  string
}

type raceCell struct {
	w     epoch
	hasW  bool
	reads []epoch
}

type mapRace struct {
	c raceCell
}

func (g *G) raceCheck(c *raceCell, write bool, what string) {
	hb := func(e epoch) bool { return e.g == g.id || vcGet(g.vc, e.g) >= e.clk }
	w := ""
	if c.hasW && !hb(c.w) {
		kind := "read"
		if write {
			kind = "write"
		}
		g.p.raceReport(g, what, "write", c.w.where, kind)
	}
	if write {
		for _, r := range c.reads {
			if !hb(r) {
				g.p.raceReport(g, what, "read", r.where, "write")
				break
			}
		}
		c.reads = nil
		w = g.where()
		c.w = epoch{g.id, vcGet(g.vc, g.id), w}
		c.hasW = true
		return
	}
	for i := range c.reads {
		if c.reads[i].g == g.id {
			c.reads[i].clk = vcGet(g.vc, g.id)
			return
		}
	}
	c.reads = append(c.reads, epoch{g.id, vcGet(g.vc, g.id), g.where()})
}

func (p *Path) raceReport(g *G, what, k1, w1, k2 string) {
	if !strings.HasPrefix(what, "map") && !p.raceAllCells() {
		return
	}
	f := func(s string) string {
		if i := strings.Index(s, " < "); i >= 0 {
			s = s[:i]
		}
		return s
	}
	if what == "map" {
		lbl := "concurrent map " + k1 + " and map " + k2
		if p.raceReported[lbl] {
			return
		}
		p.raceReported[lbl] = true
		p.report("race", lbl, f(w1)+" || "+f(g.where()), p.needModel())
		return
	}
	lbl := "data race on " + what
	if p.raceReported[lbl] {
		return
	}
	p.raceReported[lbl] = true
	p.report("race", lbl, f(w1)+" || "+f(g.where()), p.needModel())
}

func (p *Path) raceAllCells() bool { b, _ := p.side["racecells"].(bool); return b }

func (g *G) raceMap(m *MapVal, write bool) {
	if !g.p.race || m.foreign || m.shared {
		return
	}
	if write {
		g.preempt("map write")
	} else {
		g.preempt("map read")
	}
	g.raceCheck(&m.race.c, write, "map")
}

func (g *G) raceAccess(o *Obj, off, n int, write bool) {
	if o.shared || !g.p.raceAllCells() {
		return
	}
	if o.race == nil {
		o.race = make([]raceCell, len(o.cells))
	}
	for i := off; i < off+n && i < len(o.race); i++ {
		g.raceCheck(&o.race[i], write, "variable "+o.lbl)
	}
}
