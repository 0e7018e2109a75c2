package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine is one worker's interpreter: compiled code caches over a shared program.
type Engine struct {
	l       *Loaded
	lay     *layouts
	code    map[*ssa.Function]*cfn
	glob    *Globals
	solver  *Solver
	cfg     *Config
	initing bool
	mcache  map[mkey]*ssa.Function
	opcnt   int64
	impl    map[implKey]bool
	hasht   map[types.Type]string
}

type implKey struct {
	t types.Type
	i types.Type
}

type mkey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

// Globals is shared (read-only after init).
type Globals struct {
	objs   map[*ssa.Global]*Obj
	uninit map[*Obj]string
	unique map[string]Ptr
	failed map[string]string
	nobj   int
	// redirect maps a function's full name to a harness function.
	redirect map[string]*ssa.Function
}

type Config struct {
	maxSteps   int64
	maxDepth   int
	allocLimit int64
	maxConc    int // max values enumerated for one concretisation
	repoPrefix string
}

type cfn struct {
	fn     *ssa.Function
	name   string
	nregs  int
	blocks []cblock
	nfree  int
	rec    *ssa.BasicBlock
	hasDef bool
	intr   func(g *G, args []Value) Value
	redir  *ssa.Function
	bad    string
	resT   *types.Tuple
	repo   bool
}

type cblock struct {
	phis []cphi
	ins  []func(fr *frame)
	term func(fr *frame) int // next block index, -1 = return
	n    int64
	pred []int // predecessor block indices
}

type cphi struct {
	dst int
	ops []opnd
}

type opnd struct {
	idx int
	val Value
}

func (o *opnd) get(fr *frame) Value {
	if o.idx >= 0 {
		return fr.regs[o.idx]
	}
	return o.val
}

type deferRec struct {
	call func()
}

type frame struct {
	g         *G
	c         *cfn
	caller    *frame
	regs      []Value
	block     int
	prev      int
	done      bool
	result    Value
	defers    []deferRec
	panicking bool
	panic     interface{}
	curPos    token.Pos
}

// targetPanic is a Go panic in the interpreted program.
type targetPanic struct {
	v     Value // Iface
	where string
	rt    string // runtime error text
}

// pathAbort ends the current path.
type pathAbort struct {
	kind string // "unsupported", "bound", "infeasible", "done", "crash", "deadlock"
	msg  string
}

func (g *G) unsupported(f string, a ...interface{}) {
	g.p.abort("unsupported", fmt.Sprintf(f, a...)+" at "+g.where())
}

func (g *G) where() string {
	var parts []string
	for fr := g.fr; fr != nil && len(parts) < 6; fr = fr.caller {
		pos := g.e.l.fset.Position(fr.curPos)
		f := pos.Filename
		if i := strings.LastIndexByte(f, '/'); i >= 0 {
			f = f[i+1:]
		}
		parts = append(parts, fmt.Sprintf("%s(%s:%d)", fr.c.name, f, pos.Line))
	}
	return strings.Join(parts, " < ")
}

// rtPanic raises a Go runtime error in the interpreted program.
func (g *G) rtPanic(msg string) {
	t := g.e.runtimeErrType()
	panic(&targetPanic{v: Iface{t: t, v: Str{c: msg}}, where: g.where(), rt: msg})
}

func (e *Engine) runtimeErrType() types.Type {
	if p := e.l.pkgs["runtime"]; p != nil {
		if m := p.Type("errorString"); m != nil {
			return m.Type()
		}
	}
	return types.Typ[types.String]
}

// call invokes fn.
func (g *G) call(fn *ssa.Function, args []Value, env []Value) Value {
	c := g.e.compiled(fn)
	return g.callC(c, args, env)
}

func (g *G) callClosure(cl *Closure, args []Value) Value {
	if cl == nil {
		g.rtPanic("invalid memory address or nil pointer dereference")
	}
	if cl.native != nil {
		return cl.native(g, args)
	}
	return g.call(cl.fn, args, cl.env)
}

func (g *G) callC(c *cfn, args []Value, env []Value) Value {
	if c.redir != nil {
		return g.call(c.redir, args, nil)
	}
	if c.intr != nil {
		return c.intr(g, args)
	}
	if c.bad != "" {
		g.unsupported("%s", c.bad)
	}
	p := g.p
	g.depth++
	if g.depth > g.e.cfg.maxDepth {
		p.abort("bound", "call depth exceeded in "+c.name+" at "+g.where())
	}
	if p.trackFns != nil && c.repo {
		p.trackFns[c.name] = true
	}
	fr := &frame{g: g, c: c, caller: g.fr, regs: make([]Value, c.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[len(c.fn.Params):], env)
	g.fr = fr
	if c.hasDef {
		fr.prev = -1
		for !fr.done {
			fr.runProtected()
		}
	} else {
		fr.prev = -1
		fr.loop()
	}
	g.fr = fr.caller
	g.depth--
	return fr.result
}

func (fr *frame) runProtected() {
	g := fr.g
	depth := g.depth
	defer func() {
		if fr.done || g.p.dead {
			return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r) // engine error
		}
		g.fr = fr
		g.depth = depth
		fr.panicking = true
		fr.panic = tp
		fr.runDefers()
		// recovered
		if fr.c.rec != nil {
			fr.prev = fr.block
			fr.block = fr.c.rec.Index
		} else {
			fr.done = true
			fr.result = g.e.zeroResult(fr.c.resT)
		}
	}()
	fr.loop()
}

func (e *Engine) zeroResult(t *types.Tuple) Value {
	switch t.Len() {
	case 0:
		return nil
	case 1:
		return e.zeroValue(t.At(0).Type())
	}
	return e.zeroValue(t)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func (fr *frame) runDefer(d deferRec) {
	g := fr.g
	ok := false
	depth := g.depth
	defer func() {
		if ok || g.p.dead {
			return
		}
		r := recover()
		tp, is := r.(*targetPanic)
		if !is {
			panic(r)
		}
		g.fr = fr
		g.depth = depth
		fr.panicking = true
		fr.panic = tp
	}()
	d.call()
	ok = true
}

func (fr *frame) loop() {
	p := fr.g.p
	c := fr.c
	for {
		b := &c.blocks[fr.block]
		p.steps += b.n
		if p.steps>>22 != (p.steps-b.n)>>22 {
			p.late()
		}
		if p.steps > p.maxSteps {
			if p.x != nil && p.steps-p.runStart > p.maxSteps/2 {
				// one goroutine has been running all the time, without waiting for anything
				p.report("spin", "a goroutine runs forever", fr.g.where(), p.needModel())
				p.abort("violated", "a goroutine runs forever")
			}
			p.abort("bound", "step bound exceeded at "+fr.g.where())
		}
		if len(b.phis) > 0 {
			k := 0
			for k < len(b.pred) && b.pred[k] != fr.prev {
				k++
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = b.phis[0].ops[k].get(fr)
			} else {
				var tmp [8]Value
				t := tmp[:0]
				for i := range b.phis {
					t = append(t, b.phis[i].ops[k].get(fr))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = t[i]
				}
			}
		}
		for _, f := range b.ins {
			f(fr)
		}
		nx := b.term(fr)
		if nx < 0 {
			fr.done = true
			return
		}
		fr.prev = fr.block
		fr.block = nx
	}
}

// ---- memory ----

func (p *Path) rd(o *Obj) []Value {
	if o.shared {
		if p.ov != nil {
			if c, ok := p.ov[o]; ok {
				return c
			}
		}
		if p.e.glob.uninit != nil {
			if s, ok := p.e.glob.uninit[o]; ok && !p.e.initing {
				p.abort("unsupported", "read of uninitialised package variable "+s)
			}
		}
	}
	return o.cells
}

func (p *Path) wr(o *Obj) []Value {
	if o.shared {
		if c, ok := p.ov[o]; ok {
			return c
		}
		c := append([]Value(nil), o.cells...)
		if p.ov == nil {
			p.ov = map[*Obj][]Value{}
		}
		p.ov[o] = c
		return c
	}
	return o.cells
}

func (g *G) newObj(cells []Value, lbl string) *Obj {
	p := g.p
	p.nobj++
	o := &Obj{cells: cells, id: p.nobj, lbl: lbl}
	if p.e.initing {
		o.shared = false
		p.initObjs = append(p.initObjs, o)
	}
	return o
}

func (g *G) alloc(t types.Type, lbl string) Ptr {
	z := g.e.zeroCells(t)
	c := make([]Value, len(z))
	copy(c, z)
	return Ptr{obj: g.newObj(c, lbl)}
}

func (g *G) nilDeref() {
	g.rtPanic("invalid memory address or nil pointer dereference")
}

// load reads n cells (agg) or one cell at ptr.
func (g *G) load(pv Value, agg bool, n int) Value {
	switch ptr := pv.(type) {
	case Ptr:
		if ptr.obj == nil {
			g.nilDeref()
		}
		if g.p.race && !ptr.obj.foreign {
			g.raceAccess(ptr.obj, ptr.off, max(n, 1), false)
		}
		cells := g.p.rd(ptr.obj)
		if agg {
			if ptr.off+n > len(cells) {
				g.unsupported("load out of object bounds (unsafe cast?)")
			}
			r := make(Agg, n)
			copy(r, cells[ptr.off:ptr.off+n])
			return r
		}
		if ptr.off >= len(cells) {
			g.unsupported("load out of object bounds (unsafe cast?)")
		}
		return cells[ptr.off]
	case SymPtr:
		return g.loadSym(ptr, agg, n)
	}
	g.unsupported("load via %T", pv)
	return nil
}

func (g *G) loadSym(ptr SymPtr, agg bool, n int) Value {
	x := g.p.tc
	cells := g.p.rd(ptr.obj)
	if !agg {
		// ITE chain over terms
		ok := true
		for i := 0; i < ptr.n; i++ {
			if _, is := cells[ptr.base+i*ptr.stride].(*Term); !is {
				ok = false
				break
			}
		}
		if ok && ptr.n <= 512 {
			r := cells[ptr.base+(ptr.n-1)*ptr.stride].(*Term)
			for i := ptr.n - 2; i >= 0; i-- {
				r = x.Ite(x.Eq(ptr.idx, BV(64, uint64(i))), cells[ptr.base+i*ptr.stride].(*Term), r)
			}
			return r
		}
	}
	return g.load(g.fixPtr(ptr), agg, n)
}

// fixPtr concretises a symbolic pointer.
func (g *G) fixPtr(ptr SymPtr) Ptr {
	i := g.p.concretize(ptr.idx, "index")
	return Ptr{obj: ptr.obj, off: ptr.base + int(i)*ptr.stride}
}

func (g *G) store(pv Value, v Value) {
	var ptr Ptr
	switch q := pv.(type) {
	case Ptr:
		ptr = q
	case SymPtr:
		ptr = g.fixPtr(q)
	default:
		g.unsupported("store via %T", pv)
	}
	if ptr.obj == nil {
		g.nilDeref()
	}
	cells := g.p.wr(ptr.obj)
	if a, ok := v.(Agg); ok {
		if g.p.race && !ptr.obj.foreign && len(a) > 0 {
			g.raceAccess(ptr.obj, ptr.off, len(a), true)
		}
		copy(cells[ptr.off:ptr.off+len(a)], a)
		return
	}
	if g.p.race && !ptr.obj.foreign {
		g.raceAccess(ptr.obj, ptr.off, 1, true)
	}
	if ptr.off >= len(cells) {
		g.unsupported("store out of object bounds (unsafe cast?)")
	}
	cells[ptr.off] = v
}

// ---- compile ----

func (e *Engine) compiled(fn *ssa.Function) *cfn {
	if c, ok := e.code[fn]; ok {
		return c
	}
	c := &cfn{fn: fn, name: fn.String(), resT: fn.Signature.Results()}
	if fn.Pkg != nil {
		c.repo = strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) && !strings.Contains(fn.Pkg.Pkg.Path(), "verif")
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		c.repo = strings.HasPrefix(o.Pkg.Pkg.Path(), modPath) && !strings.Contains(o.Pkg.Pkg.Path(), "verif")
	}
	e.code[fn] = c
	if r := e.glob.redirect[c.name]; r != nil && r != fn {
		c.redir = r
		return c
	}
	if in := lookupIntrinsic(fn, c.name); in != nil {
		c.intr = in
		return c
	}
	if fn.Blocks == nil && fn.Pkg != nil && fn.Name() != "" {
		// assembly next to a generic version in Go
		g := fn.Pkg.Func("generic" + strings.ToUpper(fn.Name()[:1]) + fn.Name()[1:])
		if g != nil && g.Blocks != nil && types.Identical(g.Signature, fn.Signature) {
			c.redir = g
			return c
		}
	}
	if fn.Blocks == nil {
		c.bad = "call of external function " + c.name
		return c
	}
	e.compileBody(c)
	return c
}

type compiler struct {
	e   *Engine
	c   *cfn
	idx map[ssa.Value]int
}

func (e *Engine) compileBody(c *cfn) {
	fn := c.fn
	k := &compiler{e: e, c: c, idx: map[ssa.Value]int{}}
	n := 0
	for _, p := range fn.Params {
		k.idx[p] = n
		n++
	}
	for _, f := range fn.FreeVars {
		k.idx[f] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				k.idx[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDef = true
			}
		}
	}
	c.nregs = n
	c.rec = fn.Recover
	if fn.Recover != nil {
		c.hasDef = true
	}
	c.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &c.blocks[i]
		for _, p := range b.Preds {
			cb.pred = append(cb.pred, p.Index)
		}
		cb.n = int64(len(b.Instrs))
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				ph := cphi{dst: k.idx[in]}
				for _, ed := range in.Edges {
					ph.ops = append(ph.ops, k.op(ed))
				}
				cb.phis = append(cb.phis, ph)
			case *ssa.If:
				o := k.op(in.Cond)
				t, f := b.Succs[0].Index, b.Succs[1].Index
				cb.term = func(fr *frame) int {
					v := o.get(fr).(*Term)
					if v.op == OConst {
						if v.val == 1 {
							return t
						}
						return f
					}
					if fr.g.p.branch(v) {
						return t
					}
					return f
				}
			case *ssa.Jump:
				t := b.Succs[0].Index
				cb.term = func(fr *frame) int { return t }
			case *ssa.Return:
				var ops []opnd
				for _, r := range in.Results {
					ops = append(ops, k.op(r))
				}
				switch len(ops) {
				case 0:
					cb.term = func(fr *frame) int { return -1 }
				case 1:
					cb.term = func(fr *frame) int { fr.result = ops[0].get(fr); return -1 }
				default:
					cb.term = func(fr *frame) int {
						r := make(Tuple, len(ops))
						for i := range ops {
							r[i] = ops[i].get(fr)
						}
						fr.result = r
						return -1
					}
				}
			case *ssa.Panic:
				o := k.op(in.X)
				pos := in.Pos()
				cb.term = func(fr *frame) int {
					fr.curPos = pos
					panic(&targetPanic{v: o.get(fr), where: fr.g.where()})
				}
			case *ssa.DebugRef:
			default:
				f := k.instr(in)
				if f != nil {
					cb.ins = append(cb.ins, f)
				}
			}
		}
		if cb.term == nil {
			cb.term = func(fr *frame) int { panic("no terminator") }
		}
	}
}

func (k *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{-1, k.e.constVal(v)}
	case *ssa.Global:
		return opnd{-1, Ptr{obj: k.e.glob.objs[v]}}
	case *ssa.Function:
		return opnd{-1, &Closure{fn: v}}
	case *ssa.Builtin:
		return opnd{-1, nil}
	}
	i, ok := k.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %s", v, k.c.name))
	}
	return opnd{i, nil}
}

func (k *compiler) ops(vs []ssa.Value) []opnd {
	r := make([]opnd, len(vs))
	for i, v := range vs {
		r[i] = k.op(v)
	}
	return r
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if isAgg(t) {
			return Agg(e.zeroCells(t))
		}
		if _, ok := t.(*types.TypeParam); ok {
			return nil
		}
		return e.zeroValue(t)
	}
	if w, _ := intInfo(t); w > 0 {
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return BV(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return BV(w, u)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(fmt.Sprintf("const of type %v", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return BoolT(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return Str{c: constant.StringVal(c.Value)}
		}
		i, _ := constant.Int64Val(c.Value)
		return Str{c: string(rune(i))}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		r, _ := constant.Float64Val(constant.Real(c.Value))
		i, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(r, i)
	}
	panic(fmt.Sprintf("const of type %v", t))
}
