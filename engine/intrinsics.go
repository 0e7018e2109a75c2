package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"verifeng/ripemd"

	"golang.org/x/tools/go/ssa"
)

type natFn = func(g *G, args []Value) Value

const rtPath = modPath + "/internal/verifrt"

// RType models a reflect.Type.
type RType struct{ t types.Type }

// RVal models the contents of a reflect.Value.
type RVal struct {
	t    types.Type
	v    Value // the value (when ptr.obj==nil)
	ptr  Value // Ptr to the storage when addressable
	addr bool
}

type hashRec struct {
	kind string
	in   []*Term
	out  []*Term
	real func([]byte) []byte
}

var intr map[string]natFn

// pkgNoop: packages whose functions do nothing and return zero values.
var pkgNoop = map[string]bool{
	"github.com/sirupsen/logrus": true,
	"log":                        true,
}

func lookupIntrinsic(fn *ssa.Function, name string) natFn {
	if fn.Synthetic == "package initializer" {
		return func(g *G, args []Value) Value { return nil }
	}
	if o := fn.Origin(); o != nil {
		switch o.String() {
		case "unique.Make":
			return func(g *G, args []Value) Value {
				k := "$unique " + fn.TypeArgs()[0].String()
				var sb strings.Builder
				if !keyStr(args[0], &sb) {
					g.unsupported("unique.Make of a symbolic value")
				}
				k += sb.String()
				if p, ok := g.p.side[k]; ok {
					return Agg{p}
				}
				if p, ok := g.e.glob.unique[k]; ok {
					return Agg{p}
				}
				v := args[0]
				cells, ok := v.(Agg)
				if !ok {
					cells = Agg{v}
				}
				p := Ptr{obj: g.newObj(append([]Value(nil), cells...), "unique")}
				if g.e.initing {
					g.e.glob.unique[k] = p
				} else {
					g.p.side[k] = p
				}
				return Agg{p}
			}
		case "reflect.TypeFor", "internal/abi.TypeFor":
			t := fn.TypeArgs()[0]
			return func(g *G, args []Value) Value { return g.rtypeIface(t) }
		}
	}
	if f, ok := intr[name]; ok {
		return f
	}
	if o := fn.Origin(); o != nil {
		if f, ok := intr[o.String()]; ok {
			return f
		}
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	if pkgNoop[pk] && !strings.HasPrefix(fn.Name(), "init") {
		nm := fn.Name()
		if strings.HasPrefix(nm, "Fatal") || strings.HasPrefix(nm, "Panic") {
			return func(g *G, args []Value) Value {
				g.fatal("log." + nm)
				return nil
			}
		}
		res := fn.Signature.Results()
		if rv := fn.Signature.Recv(); rv != nil && res.Len() == 1 && types.Identical(res.At(0).Type(), rv.Type()) {
			return func(g *G, args []Value) Value { return args[0] }
		}
		return func(g *G, args []Value) Value { return g.e.zeroResult(res) }
	}
	return nil
}

func tb(b bool) *Term   { return BoolT(b) }
func i64(v int64) *Term { return BV(64, uint64(v)) }
func (g *G) ptrAt(v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		if p.obj == nil {
			g.nilDeref()
		}
		return p
	case SymPtr:
		return g.fixPtr(p)
	}
	g.unsupported("pointer %T", v)
	return Ptr{}
}

func (g *G) ld(v Value) Value {
	p := g.ptrAt(v)
	return g.p.rd(p.obj)[p.off]
}

func (g *G) st(v Value, x Value) {
	p := g.ptrAt(v)
	g.p.wr(p.obj)[p.off] = x
}

func (g *G) typeByName(pkg, name string) types.Type {
	p := g.e.l.pkgs[pkg]
	if p == nil {
		g.unsupported("package %s not loaded", pkg)
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

// mkError builds an *errors.errorString.
func (g *G) mkError(s Str) Iface {
	t := g.typeByName("errors", "errorString")
	p := g.alloc(t, "error")
	g.p.wr(p.obj)[0] = s
	return Iface{t: types.NewPointer(t), v: p}
}

func (g *G) wrapError(s Str, err Iface) Iface {
	t := g.typeByName("fmt", "wrapError")
	p := g.alloc(t, "error")
	w := g.p.wr(p.obj)
	w[0] = s
	w[1] = err
	return Iface{t: types.NewPointer(t), v: p}
}

// rtypeIface wraps a type as reflect.Type.
func (g *G) rtypeIface(t types.Type) Value {
	rt := g.typeByName("reflect", "rtype")
	return Iface{t: types.NewPointer(rt), v: RType{t}}
}

func rvAgg(r *RVal) Value { return Agg{r, Ptr{}, BV(64, 0)} }

func (g *G) rv(v Value) *RVal {
	a, ok := v.(Agg)
	if !ok {
		g.unsupported("reflect.Value as %T", v)
	}
	r, ok := a[0].(*RVal)
	if !ok || r == nil {
		g.rtPanic("reflect: call on zero Value")
	}
	return r
}

func (g *G) rvGet(r *RVal) Value {
	if r.ptr != nil {
		return g.load(r.ptr, isAgg(r.t), g.e.sizeof(r.t))
	}
	return r.v
}

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func typeStr(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Byte {
		return "uint8"
	}
	return strings.ReplaceAll(s, "[]byte", "[]uint8")
}

func (g *G) strOf(v Value) Str { return v.(Str) }

// cstr returns a concrete string argument.
func (g *G) cstr(v Value) string {
	s := v.(Str)
	if s.b != nil {
		return g.concStr(s)
	}
	return s.c
}

func (g *G) strSlice(ss []string) Slice {
	cells := make([]Value, len(ss))
	for i := range ss {
		cells[i] = Str{c: ss[i]}
	}
	return Slice{obj: g.newObj(cells, "[]string"), len: len(ss), cap: len(ss)}
}

func (g *G) variadic(v Value) []Iface {
	s := v.(Slice)
	var r []Iface
	for _, c := range g.cellsOf(s, 1) {
		r = append(r, c.(Iface))
	}
	return r
}

// ---- hashing ----

func (g *G) hash(kind string, in []*Term, n int, real func([]byte) []byte) []*Term {
	p := g.p
	conc := true
	for _, t := range in {
		if !t.isConst() {
			conc = false
			break
		}
	}
	for _, r := range p.hashes {
		if r.kind == kind && len(r.in) == len(in) {
			same := true
			for i := range in {
				if in[i] != r.in[i] && !(in[i].isConst() && r.in[i].isConst() && in[i].val == r.in[i].val) {
					same = false
					break
				}
			}
			if same {
				return r.out
			}
		}
	}
	var out []*Term
	if p.fixedHashes {
		for _, r := range p.hashes {
			if r.kind != kind || len(r.in) != len(in) {
				continue
			}
			eqIn := True
			for i := range in {
				eqIn = p.tc.And(eqIn, p.tc.Eq(in[i], r.in[i]))
				if eqIn == False {
					break
				}
			}
			if eqIn != False && p.branch(eqIn) {
				return r.out
			}
		}
		var b []byte
		if conc {
			for _, t := range in {
				b = append(b, byte(t.val))
			}
		} else {
			p.x.noteHash()
			b = []byte(fmt.Sprintf("random oracle %s %d", kind, len(p.hashes)))
		}
		for _, c := range real(b) {
			out = append(out, BV(8, uint64(c)))
		}
		p.hashes = append(p.hashes, hashRec{kind, in, out, real})
		return out
	}
	if conc {
		b := make([]byte, len(in))
		for i, t := range in {
			b[i] = byte(t.val)
		}
		for _, c := range real(b) {
			out = append(out, BV(8, uint64(c)))
		}
	} else {
		if p.e.initing {
			p.abort("unsupported", "symbolic hash during init")
		}
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("$%s", kind)
			c := p.nameCnt[k]
			p.nameCnt[k] = c + 1
			v := p.tc.Var(fmt.Sprintf("%s%d", k, c), 8)
			out = append(out, v)
		}
		if p.model != nil {
			for len(p.model.v) < len(p.tc.vars) {
				p.model.v = append(p.model.v, 0)
			}
		}
		p.x.noteHash()
	}
	// Function and (assumed) collision-freedom against earlier hashes of this kind.
	for _, r := range p.hashes {
		if r.kind != kind {
			continue
		}
		allC := conc
		if allC {
			for _, t := range r.in {
				if !t.isConst() {
					allC = false
					break
				}
			}
		}
		if allC {
			continue
		}
		eqOut := True
		for i := range out {
			eqOut = p.tc.And(eqOut, p.tc.Eq(out[i], r.out[i]))
		}
		if len(r.in) != len(in) {
			p.assumeHash(p.tc.Not(eqOut))
			continue
		}
		eqIn := True
		for i := range in {
			eqIn = p.tc.And(eqIn, p.tc.Eq(in[i], r.in[i]))
			if eqIn == False {
				break
			}
		}
		if eqIn == False {
			p.assumeHash(p.tc.Not(eqOut))
			continue
		}
		p.assumeHash(p.tc.Eq(eqIn, eqOut))
	}
	p.hashes = append(p.hashes, hashRec{kind, in, out, real})
	return out
}

// assumeHash adds a hash axiom; it is always satisfiable, so no feasibility query is made.
func (p *Path) assumeHash(c *Term) {
	if c == True {
		return
	}
	m := p.model
	p.add(c)
	if m != nil && m.eval(c) == 0 {
		p.model = nil
	} else {
		p.model = m
	}
}

func aggBytes(b []*Term) Agg {
	r := make(Agg, len(b))
	for i := range b {
		r[i] = b[i]
	}
	return r
}

func (g *G) inputName(v Value) string { return g.cstr(v) }

// extend keeps the cached model total after new variables were added.
func (p *Path) extend() {
	if p.model != nil {
		for len(p.model.v) < len(p.tc.vars) {
			p.model.v = append(p.model.v, 0)
		}
	}
}

func atomicName(op string, w int) []string {
	if w == 32 {
		return []string{"sync/atomic." + op + "Int32", "sync/atomic." + op + "Uint32"}
	}
	return []string{"sync/atomic." + op + "Int64", "sync/atomic." + op + "Uint64", "sync/atomic." + op + "Uintptr"}
}

type atomKey struct{ p Ptr }

// atomicSync models the happens-before edges of an atomic operation.
func (g *G) atomicSync(v Value) {
	if g.p.race {
		p := g.ptrAt(v)
		g.acq(p)
		g.rel(p)
	}
}

func init() {
	intr = map[string]natFn{}
	reg := func(f natFn, names ...string) {
		for _, n := range names {
			intr[n] = f
		}
	}
	nop := func(g *G, args []Value) Value { return nil }

	// ---- verifrt ----
	R := rtPath + "."
	mkU := func(w uint8) natFn {
		return func(g *G, a []Value) Value { return g.p.fresh(g.inputName(a[0]), w) }
	}
	reg(mkU(8), R+"U8")
	reg(mkU(16), R+"U16")
	reg(mkU(32), R+"U32")
	reg(mkU(64), R+"U64")
	reg(func(g *G, a []Value) Value {
		v := g.p.fresh(g.inputName(a[0]), 8)
		return g.p.tc.Eq(g.p.tc.Extract(v, 0, 0), BV(1, 1))
	}, R+"Bool")
	reg(func(g *G, a []Value) Value {
		lo, hi := int64(g.conc(a[1].(*Term))), int64(g.conc(a[2].(*Term)))
		v := g.p.fresh(g.inputName(a[0]), 64)
		g.p.assume(g.p.tc.Ule(g.p.tc.Bin(OSub, v, i64(lo)), i64(hi-lo)))
		return v
	}, R+"Int")
	reg(func(g *G, a []Value) Value {
		n := int(g.conc(a[1].(*Term)))
		nm := g.inputName(a[0])
		b := make([]*Term, n)
		for i := range b {
			b[i] = g.p.fresh(nm, 8)
		}
		s := g.mkBytes(b)
		s.obj.foreign = true
		return s
	}, R+"Bytes")
	reg(func(g *G, a []Value) Value {
		n := int(g.conc(a[1].(*Term)))
		nm := g.inputName(a[0])
		c := g.p.nameCnt[nm]
		g.p.nameCnt[nm] = c + 1
		full := fmt.Sprintf("%s#%d", nm, c)
		nv := len(g.p.tc.vars)
		i := g.p.choose(n, full)
		if len(g.p.tc.vars) > nv {
			g.p.inputs = append(g.p.inputs, input{full, g.p.tc.vars[nv]})
		}
		return i64(int64(i))
	}, R+"Choose")
	reg(func(g *G, a []Value) Value { g.p.assume(a[0].(*Term)); return nil }, R+"Assume")
	reg(func(g *G, a []Value) Value {
		g.p.assertT(a[0].(*Term), g.cstr(a[1]), g.where())
		return nil
	}, R+"Assert")
	reg(func(g *G, a []Value) Value {
		l := g.cstr(a[0])
		if !g.p.covers[l] {
			g.p.covers[l] = true
			g.p.x.noteCover(l)
		}
		return nil
	}, R+"Cover")
	reg(func(g *G, a []Value) Value {
		n := g.cstr(a[0])
		v := g.p.h.param(n, int(int64(g.conc(a[1].(*Term)))), int(int64(g.conc(a[2].(*Term)))))
		return i64(int64(v))
	}, R+"Param")
	reg(func(g *G, a []Value) Value { return True }, R+"Symbolic")
	reg(func(g *G, a []Value) Value { g.quiesce(); return nil }, R+"Quiesce")
	reg(func(g *G, a []Value) Value {
		g.p.explore = true
		g.p.delays = int(g.conc(a[0].(*Term)))
		g.p.selAll = true
		return nil
	}, R+"Explore")
	reg(func(g *G, a []Value) Value { g.p.explore = false; return nil }, R+"StopExplore")
	reg(func(g *G, a []Value) Value { g.unsupported("%s", g.cstr(a[0])); return nil }, R+"Unsupported")
	reg(func(g *G, a []Value) Value {
		from, to := a[0].(Iface), a[1].(Iface)
		want := to.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer).Elem() // **T
		pt, ok := from.t.Underlying().(*types.Pointer)
		if !ok {
			return False
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			return False
		}
		at := from.v.(Ptr)
		for i, o := range g.e.offsets(st) {
			f := st.Field(i).Type()
			if types.Identical(f, want) {
				g.store(to.v, Ptr{obj: at.obj, off: at.off + o})
				return True
			}
			if types.Identical(f, types.NewPointer(want)) {
				g.store(to.v, g.load(Ptr{obj: at.obj, off: at.off + o}, false, 1))
				return True
			}
		}
		return False
	}, R+"Dig")
	reg(func(g *G, a []Value) Value { g.p.fixedRand = a[0].(*Term) == True; return nil }, R+"FixedRandoms")
	reg(func(g *G, a []Value) Value { g.p.fixedHashes = true; return nil }, R+"FixedHashes")
	reg(func(g *G, a []Value) Value { g.p.mapAll = a[0].(*Term) == True; return nil }, R+"MapOrder")
	reg(func(g *G, a []Value) Value {
		g.p.race = true
		for _, x := range g.p.gs {
			if x.vc == nil {
				x.vc = vcSet(nil, x.id, 1)
			}
		}
		g.p.side["racecells"] = a[0].(*Term) == True
		return nil
	}, R+"Race")
	reg(func(g *G, a []Value) Value {
		id := g.cstr(a[0])
		if g.p.branch(a[1].(*Term)) {
			g.p.known = append(g.p.known, id)
		}
		return nil
	}, R+"Known")
	reg(func(g *G, a []Value) Value {
		n := g.cstr(a[0])
		i := a[1].(Iface)
		g.p.observe(g, n, i)
		return nil
	}, R+"Observe")
	reg(func(g *G, a []Value) Value {
		g.p.abort("done", "")
		return nil
	}, R+"Done")
	reg(func(g *G, a []Value) Value { return g.p.tc.And(a[0].(*Term), a[1].(*Term)) }, R+"And")
	reg(func(g *G, a []Value) Value { return g.p.tc.Or(a[0].(*Term), a[1].(*Term)) }, R+"Or")
	reg(func(g *G, a []Value) Value { return g.p.tc.Or(g.p.tc.Not(a[0].(*Term)), a[1].(*Term)) }, R+"Implies")
	reg(func(g *G, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.len != y.len {
			return False
		}
		bx, by := g.sliceBytes(x), g.sliceBytes(y)
		r := True
		for i := range bx {
			r = g.p.tc.And(r, g.p.tc.Eq(bx[i], by[i]))
		}
		return r
	}, R+"BytesEq")
	reg(func(g *G, a []Value) Value { // Ite64
		return g.p.tc.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	}, R+"Ite64", R+"Ite8", R+"Ite32")
	reg(func(g *G, a []Value) Value { return i64(g.p.now) }, R+"Now")
	reg(func(g *G, a []Value) Value { return i64(int64(len(g.p.gs))) }, R+"Goroutines")
	reg(func(g *G, a []Value) Value { return i64(int64(g.conc(a[0].(*Term)))) }, R+"Conc")
	reg(func(g *G, a []Value) Value { g.nosched(1); return nil }, R+"Lock")
	reg(func(g *G, a []Value) Value { g.nosched(-1); return nil }, R+"Unlock")
	reg(func(g *G, a []Value) Value { return Str{c: "tcp-fake"} }, R+"ServePeer")
	reg(func(g *G, a []Value) Value {
		// Protect(f): runs f and returns the panic text ("" when none)
		cl := a[0].(*Closure)
		return Str{c: g.protect(cl)}
	}, R+"Protect")

	// ---- sync ----
	reg(func(g *G, a []Value) Value { g.mutexLock(a[0]); return nil }, "(*sync.Mutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(func(g *G, a []Value) Value { g.mutexUnlock(a[0]); return nil }, "(*sync.Mutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(func(g *G, a []Value) Value { return tb(g.mutexTryLock(a[0])) }, "(*sync.Mutex).TryLock", "(*internal/sync.Mutex).TryLock")
	reg(func(g *G, a []Value) Value { g.rwLock(a[0]); return nil }, "(*sync.RWMutex).Lock")
	reg(func(g *G, a []Value) Value { g.rwUnlock(a[0]); return nil }, "(*sync.RWMutex).Unlock")
	reg(func(g *G, a []Value) Value { g.rwRLock(a[0]); return nil }, "(*sync.RWMutex).RLock")
	reg(func(g *G, a []Value) Value { g.rwRUnlock(a[0]); return nil }, "(*sync.RWMutex).RUnlock")
	reg(func(g *G, a []Value) Value {
		// Get: no pooled value is ever reused
		p := g.ptrAt(a[0])
		st := g.typeByName("sync", "Pool").Underlying().(*types.Struct)
		off := g.e.offsets(st)
		f, _ := g.p.rd(p.obj)[p.off+off[st.NumFields()-1]].(*Closure)
		if f == nil {
			return Iface{}
		}
		return g.callClosure(f, nil)
	}, "(*sync.Pool).Get")
	reg(nop, "(*sync.Pool).Put")
	// free lists of scratch buffers
	fl := "github.com/vulpemventures/go-elements/internal/bufferutil.binaryFreeList"
	reg(func(g *G, a []Value) Value {
		b := make([]*Term, 8)
		for i := range b {
			b[i] = BV(8, 0)
		}
		return g.mkBytes(b)
	}, "("+fl+").Borrow")
	reg(nop, "("+fl+").Return")
	// WaitGroup: counter in a side table keyed by address
	reg(func(g *G, a []Value) Value {
		p := g.ptrAt(a[0])
		g.wgAdd(p, int(int64(g.conc(a[1].(*Term)))))
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(g *G, a []Value) Value { g.wgAdd(g.ptrAt(a[0]), -1); return nil }, "(*sync.WaitGroup).Done")
	reg(func(g *G, a []Value) Value {
		p := g.ptrAt(a[0])
		g.preempt("wg wait")
		for {
			n, _ := g.p.side[wgKey{p}].(int)
			if n == 0 {
				g.acq(p)
				return nil
			}
			g.waitOn(p, "waitgroup")
		}
	}, "(*sync.WaitGroup).Wait")
	// Cond
	reg(func(g *G, a []Value) Value {
		p := g.ptrAt(a[0])
		L := g.condL(p)
		rec := &condRec{g: g}
		q, _ := g.p.side[condKey{p}].([]*condRec)
		g.p.side[condKey{p}] = append(q, rec)
		g.invoke(L, "Unlock")
		for !rec.sig {
			g.block("cond wait")
		}
		g.acq(p)
		g.invoke(L, "Lock")
		return nil
	}, "(*sync.Cond).Wait")
	reg(func(g *G, a []Value) Value {
		p := g.ptrAt(a[0])
		g.preempt("cond signal")
		q, _ := g.p.side[condKey{p}].([]*condRec)
		if len(q) > 0 {
			g.rel(p)
			r := q[0]
			g.p.side[condKey{p}] = append([]*condRec(nil), q[1:]...)
			r.sig = true
			g.p.wake(r.g)
		}
		return nil
	}, "(*sync.Cond).Signal")
	reg(func(g *G, a []Value) Value {
		p := g.ptrAt(a[0])
		g.preempt("cond broadcast")
		q, _ := g.p.side[condKey{p}].([]*condRec)
		g.p.side[condKey{p}] = []*condRec(nil)
		if len(q) > 0 {
			g.rel(p)
		}
		for _, r := range q {
			r.sig = true
			g.p.wake(r.g)
		}
		return nil
	}, "(*sync.Cond).Broadcast")
	// sync.Map as an ordinary map kept in the first cell
	smap := func(g *G, a []Value, create bool) *MapVal {
		p := g.ptrAt(a[0])
		if m, ok := g.p.rd(p.obj)[p.off].(*MapVal); ok {
			return m
		}
		if !create {
			return nil
		}
		m := g.newMap(types.NewInterfaceType(nil, nil))
		m.foreign = true
		g.p.wr(p.obj)[p.off] = m
		return m
	}
	reg(func(g *G, a []Value) Value {
		g.preempt("sync.Map")
		v, ok := g.mapLookup(smap(g, a, false), a[1])
		if !ok {
			v = Iface{}
		}
		return Tuple{v, tb(ok)}
	}, "(*sync.Map).Load")
	reg(func(g *G, a []Value) Value {
		g.preempt("sync.Map")
		g.mapUpdate(smap(g, a, true), a[1], a[2])
		return nil
	}, "(*sync.Map).Store")
	reg(func(g *G, a []Value) Value {
		g.preempt("sync.Map")
		v, ok := g.mapLookup(smap(g, a, false), a[1])
		if ok {
			return Tuple{v, True}
		}
		g.mapUpdate(smap(g, a, true), a[1], a[2])
		return Tuple{a[2], False}
	}, "(*sync.Map).LoadOrStore")
	reg(func(g *G, a []Value) Value {
		g.preempt("sync.Map")
		m := smap(g, a, true)
		v, ok := g.mapLookup(m, a[1])
		if !ok {
			v = Iface{}
		}
		g.mapDelete(m, a[1])
		return Tuple{v, tb(ok)}
	}, "(*sync.Map).LoadAndDelete")
	reg(func(g *G, a []Value) Value {
		g.preempt("sync.Map")
		g.mapDelete(smap(g, a, true), a[1])
		return nil
	}, "(*sync.Map).Delete")
	reg(func(g *G, a []Value) Value {
		m := smap(g, a, false)
		if m == nil {
			return nil
		}
		it := g.rangeIter(m)
		for {
			mm := g.p.mapR(m)
			done := true
			for it.pos < len(it.order) {
				i := it.order[it.pos]
				it.pos++
				if i < len(mm.live) && mm.live[i] {
					r := g.callClosure(a[1].(*Closure), []Value{mm.keys[i], mm.vals[i]})
					if !g.p.branch(r.(*Term)) {
						return nil
					}
					done = false
					break
				}
			}
			if done {
				return nil
			}
		}
	}, "(*sync.Map).Range")

	// ---- sync/atomic ----
	for _, w := range []int{32, 64} {
		reg(func(g *G, a []Value) Value {
			g.preempt("atomic")
			g.atomicSync(a[0])
			return g.ld(a[0])
		}, atomicName("Load", w)...)
		reg(func(g *G, a []Value) Value {
			g.preempt("atomic")
			g.atomicSync(a[0])
			g.st(a[0], a[1])
			return nil
		}, atomicName("Store", w)...)
		reg(func(g *G, a []Value) Value {
			g.preempt("atomic")
			g.atomicSync(a[0])
			v := g.p.tc.Bin(OAdd, g.ld(a[0]).(*Term), a[1].(*Term))
			g.st(a[0], v)
			return v
		}, atomicName("Add", w)...)
		reg(func(g *G, a []Value) Value {
			g.preempt("atomic")
			g.atomicSync(a[0])
			v := g.ld(a[0])
			g.st(a[0], a[1])
			return v
		}, atomicName("Swap", w)...)
		reg(func(g *G, a []Value) Value {
			g.preempt("atomic")
			g.atomicSync(a[0])
			if g.p.branch(g.p.tc.Eq(g.ld(a[0]).(*Term), a[1].(*Term))) {
				g.st(a[0], a[2])
				return True
			}
			return False
		}, atomicName("CompareAndSwap", w)...)
		for _, op := range []string{"And", "Or"} {
			o := OBAnd
			if op == "Or" {
				o = OBOr
			}
			reg(func(g *G, a []Value) Value {
				g.preempt("atomic")
				g.atomicSync(a[0])
				v := g.ld(a[0]).(*Term)
				g.st(a[0], g.p.tc.Bin(o, v, a[1].(*Term)))
				return v
			}, atomicName(op, w)...)
		}
	}
	reg(func(g *G, a []Value) Value { g.preempt("atomic"); g.atomicSync(a[0]); return g.ld(a[0]) }, "sync/atomic.LoadPointer")
	reg(func(g *G, a []Value) Value { g.preempt("atomic"); g.atomicSync(a[0]); g.st(a[0], a[1]); return nil }, "sync/atomic.StorePointer")
	reg(func(g *G, a []Value) Value {
		g.preempt("atomic")
		g.atomicSync(a[0])
		v := g.ld(a[0])
		g.st(a[0], a[1])
		return v
	}, "sync/atomic.SwapPointer")
	reg(func(g *G, a []Value) Value {
		g.preempt("atomic")
		g.atomicSync(a[0])
		if g.eq(g.ld(a[0]), a[1]) == True {
			g.st(a[0], a[2])
			return True
		}
		return False
	}, "sync/atomic.CompareAndSwapPointer")
	reg(func(g *G, a []Value) Value { g.preempt("atomic"); g.atomicSync(a[0]); return g.ld(a[0]) }, "(*sync/atomic.Value).Load")
	reg(func(g *G, a []Value) Value { g.preempt("atomic"); g.atomicSync(a[0]); g.st(a[0], a[1]); return nil }, "(*sync/atomic.Value).Store")

	// ---- runtime and friends ----
	reg(nop, "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "runtime/debug.SetGCPercent", "(*internal/godebug.Setting).IncNonDefault",
		"(*strings.Builder).copyCheck", "internal/race.Enable", "internal/race.Disable", "runtime/debug.PrintStack",
		"os/signal.Notify", "os/signal.init", "internal/godebug.init#1", "internal/godebug.registerMetric", "runtime.ReadMemStats")
	reg(func(g *G, a []Value) Value { g.yield(); return nil }, "runtime.Gosched")
	reg(func(g *G, a []Value) Value { return i64(8) }, "runtime.NumCPU", "runtime.GOMAXPROCS")
	reg(func(g *G, a []Value) Value { return i64(int64(len(g.p.gs))) }, "runtime.NumGoroutine")
	reg(func(g *G, a []Value) Value { return i64(0) }, "runtime.Callers")
	reg(func(g *G, a []Value) Value { return Tuple{BV(64, 0), Str{c: "file.go"}, i64(1), True} }, "runtime.Caller")
	reg(func(g *G, a []Value) Value { return g.mkBytes(nil) }, "runtime/debug.Stack")
	reg(func(g *G, a []Value) Value { return Str{} }, "(*internal/godebug.Setting).Value", "os.Getenv")
	reg(func(g *G, a []Value) Value { return Tuple{Str{}, False} }, "os.LookupEnv", "syscall.Getenv")
	reg(func(g *G, a []Value) Value {
		return Ptr{obj: g.newObj([]Value{Str{c: "setting"}, Value(False), False, False}, "godebug")}
	}, "internal/godebug.New")
	reg(func(g *G, a []Value) Value {
		n := a[1].(*Term)
		_ = n
		return nil
	}, "runtime.SetBlockProfileRate")

	// ---- errors ----
	reg(func(g *G, a []Value) Value { return tb(g.errorsIs(a[0].(Iface), a[1].(Iface), 0)) }, "errors.Is")
	reg(func(g *G, a []Value) Value { return tb(g.errorsAs(a[0].(Iface), a[1].(Iface), 0)) }, "errors.As")

	// ---- fmt ----
	reg(func(g *G, a []Value) Value {
		old := g.p.fmtOpaque
		g.p.fmtOpaque = true
		s, w := g.sprintf(a[0].(Str), g.variadic(a[1]))
		g.p.fmtOpaque = old
		if w != nil {
			return g.wrapError(s, *w)
		}
		return g.mkErrorFmt(s)
	}, "fmt.Errorf")
	reg(func(g *G, a []Value) Value { s, _ := g.sprintf(a[0].(Str), g.variadic(a[1])); return s }, "fmt.Sprintf")
	reg(func(g *G, a []Value) Value { return g.sprint(g.variadic(a[0]), false) }, "fmt.Sprint")
	reg(func(g *G, a []Value) Value { return concatStr(g.sprint(g.variadic(a[0]), true), Str{c: "\n"}) }, "fmt.Sprintln")
	reg(func(g *G, a []Value) Value { return Tuple{i64(0), Iface{}} }, "fmt.Printf", "fmt.Println", "fmt.Print")
	reg(func(g *G, a []Value) Value {
		s, _ := g.sprintf(a[1].(Str), g.variadic(a[2]))
		return g.writeTo(a[0].(Iface), s)
	}, "fmt.Fprintf")
	reg(func(g *G, a []Value) Value {
		return g.writeTo(a[0].(Iface), concatStr(g.sprint(g.variadic(a[1]), true), Str{c: "\n"}))
	}, "fmt.Fprintln")
	reg(func(g *G, a []Value) Value {
		return g.writeTo(a[0].(Iface), g.sprint(g.variadic(a[1]), false))
	}, "fmt.Fprint")

	// ---- hashing ----
	sha := func(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
	reg(func(g *G, a []Value) Value {
		return aggBytes(g.hash("sha256", g.sliceBytes(a[0].(Slice)), 32, sha))
	}, "crypto/sha256.Sum256")
	reg(func(g *G, a []Value) Value { return BV(8, 0) }, "crypto/internal/fips140.getIndicator")
	reg(nop, "crypto/internal/fips140.setIndicator", "crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved")
	rip := func(b []byte) []byte { d := ripemd.New(); d.Write(b); return d.Sum(nil) }
	stream := func(typ, kind string, n int, real func([]byte) []byte) {
		reg(func(g *G, a []Value) Value { g.p.side[digestKey{g.ptrAt(a[0])}] = []*Term(nil); return nil }, "("+typ+").Reset")
		reg(func(g *G, a []Value) Value {
			k := digestKey{g.ptrAt(a[0])}
			old, _ := g.p.side[k].([]*Term)
			b := g.sliceBytes(a[1].(Slice))
			g.p.side[k] = append(old[:len(old):len(old)], b...)
			return Tuple{i64(int64(len(b))), Iface{}}
		}, "("+typ+").Write")
		reg(func(g *G, a []Value) Value {
			in, _ := g.p.side[digestKey{g.ptrAt(a[0])}].([]*Term)
			return g.mkBytes(append(append([]*Term(nil), g.sliceBytes(a[1].(Slice))...), g.hash(kind, in, n, real)...))
		}, "("+typ+").Sum")
	}
	stream("*crypto/internal/fips140/sha256.Digest", "sha256", 32, sha)
	stream("*golang.org/x/crypto/ripemd160.digest", "ripemd160", 20, rip)

	// ---- math/rand, crypto/rand ----
	rnd := func(w uint8) natFn {
		return func(g *G, a []Value) Value {
			if g.p.fixedRand && w == 64 {
				g.p.randCnt++
				x := g.p.randCnt * 0x9e3779b97f4a7c15 // splitmix64
				x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
				x = (x ^ x>>27) * 0x94d049bb133111eb
				return BV(64, x^x>>31)
			}
			return g.p.fresh("rand", w)
		}
	}
	reg(rnd(64), "math/rand.Uint64", "(*math/rand.Rand).Uint64", "math/rand/v2.Uint64")
	reg(rnd(32), "math/rand.Uint32", "(*math/rand.Rand).Uint32")
	reg(func(g *G, a []Value) Value {
		v := g.p.fresh("rand", 64)
		return g.p.tc.BAnd(v, BV(64, 1<<63-1))
	}, "math/rand.Int63", "math/rand.Int", "(*math/rand.Rand).Int63", "(*math/rand.Rand).Int")
	rndn := func(i int) natFn {
		return func(g *G, a []Value) Value {
			n := a[i].(*Term)
			v := g.p.fresh("rand", n.w)
			g.p.assume(g.p.tc.Ult(v, n))
			return v
		}
	}
	reg(rndn(0), "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n")
	reg(rndn(1), "(*math/rand.Rand).Intn", "(*math/rand.Rand).Int63n", "(*math/rand.Rand).Int31n")
	reg(nop, "math/rand.Seed")
	rndRead := func(i int) natFn {
		return func(g *G, a []Value) Value {
			s := a[i].(Slice)
			if s.len == 0 {
				return Tuple{i64(0), Iface{}}
			}
			w := g.p.wr(s.obj)
			var k uint64
			for i := 0; i < s.len; i++ {
				if g.p.fixedRand && s.len >= 8 {
					if i%8 == 0 {
						k = g.conc(rnd(64)(g, nil).(*Term))
					}
					w[s.off+i] = BV(8, k>>(8*(i%8))&0xff)
				} else {
					w[s.off+i] = g.p.fresh("rand", 8)
				}
			}
			return Tuple{i64(int64(s.len)), Iface{}}
		}
	}
	reg(rndRead(0), "crypto/rand.Read", "math/rand.Read")
	reg(rndRead(1), "(crypto/internal/rand.reader).Read", "(*math/rand.Rand).Read")
	reg(func(g *G, a []Value) Value {
		// unique by construction
		c := g.p.nameCnt["$uuid"]
		g.p.nameCnt["$uuid"] = c + 1
		r := make(Agg, 16)
		for i := range r {
			r[i] = BV(8, 0)
		}
		r[6] = BV(8, 0x40)
		r[8] = BV(8, 0x80)
		r[15] = BV(8, uint64(c+1))
		r[14] = BV(8, uint64((c+1)>>8))
		return r
	}, "github.com/google/uuid.New")
	reg(func(g *G, a []Value) Value {
		r := intr["github.com/google/uuid.New"](g, nil)
		return Tuple{r, Iface{}}
	}, "github.com/google/uuid.NewRandom", "github.com/google/uuid.NewUUID")

	// ---- time ----
	reg(func(g *G, a []Value) Value {
		// virtual clock: 2023-11-14T22:13:20Z + now, no monotonic part
		sec := int64(1700000000) + g.p.now/1e9 + 62135596800
		return Agg{BV(64, uint64(g.p.now%1e9)), i64(sec), Ptr{}}
	}, "time.Now")
	reg(func(g *G, a []Value) Value { return i64(1 + g.p.now) }, "time.runtimeNano")
	reg(func(g *G, a []Value) Value { g.sleep(int64(g.conc(a[0].(*Term)))); return nil }, "time.Sleep")
	reg(func(g *G, a []Value) Value { return g.newTimer("Timer", int64(g.conc(a[0].(*Term))), 0, nil) }, "time.NewTimer")
	reg(func(g *G, a []Value) Value {
		return g.newTimer("Timer", int64(g.conc(a[0].(*Term))), 0, a[1].(*Closure))
	}, "time.AfterFunc")
	reg(func(g *G, a []Value) Value {
		d := int64(g.conc(a[0].(*Term)))
		if d <= 0 {
			g.rtPanic("non-positive interval for NewTicker")
		}
		return g.newTimer("Ticker", d, d, nil)
	}, "time.NewTicker")
	reg(func(g *G, a []Value) Value {
		p := g.newTimer("Timer", int64(g.conc(a[0].(*Term))), 0, nil)
		return g.p.rd(p.obj)[p.off]
	}, "time.After")
	reg(func(g *G, a []Value) Value {
		d := int64(g.conc(a[0].(*Term)))
		p := g.newTimer("Ticker", d, d, nil)
		return g.p.rd(p.obj)[p.off]
	}, "time.Tick")
	reg(func(g *G, a []Value) Value {
		p := g.ptrAt(a[0])
		t, _ := g.p.side[timerKey{p}].(*timer)
		if t == nil {
			g.rtPanic("time: Stop called on uninitialized Timer")
		}
		r := g.p.stopTimer(t)
		return tb(g.drainTimer(p) || r)
	}, "(*time.Timer).Stop")
	reg(func(g *G, a []Value) Value {
		p := g.ptrAt(a[0])
		if t, _ := g.p.side[timerKey{p}].(*timer); t != nil {
			g.p.stopTimer(t)
			g.drainTimer(p)
		}
		return nil
	}, "(*time.Ticker).Stop")
	reset := func(g *G, a []Value) Value {
		p := g.ptrAt(a[0])
		t, _ := g.p.side[timerKey{p}].(*timer)
		if t == nil {
			g.rtPanic("time: Reset called on uninitialized Timer")
		}
		was := g.p.stopTimer(t)
		was = g.drainTimer(p) || was
		d := int64(g.conc(a[1].(*Term)))
		per := t.period
		if per > 0 {
			per = d
		}
		g.p.side[timerKey{p}] = g.p.addTimer(d, per, t.f)
		return tb(was)
	}
	reg(reset, "(*time.Timer).Reset")
	reg(func(g *G, a []Value) Value { reset(g, a); return nil }, "(*time.Ticker).Reset")

	// ---- reflect ----
	regReflect(reg)
	regRegexp(reg)

	// ---- bytealg ----
	B := "internal/bytealg."
	reg(func(g *G, a []Value) Value { return g.indexByte(g.sliceBytes(a[0].(Slice)), a[1].(*Term)) }, B+"IndexByte", "bytes.IndexByte")
	reg(func(g *G, a []Value) Value { return g.indexByte(a[0].(Str).bytes(), a[1].(*Term)) }, B+"IndexByteString", "strings.IndexByte")
	reg(func(g *G, a []Value) Value { return g.lastIndexByte(g.sliceBytes(a[0].(Slice)), a[1].(*Term)) }, B+"LastIndexByte")
	reg(func(g *G, a []Value) Value { return g.lastIndexByte(a[0].(Str).bytes(), a[1].(*Term)) }, B+"LastIndexByteString")
	reg(func(g *G, a []Value) Value { return g.countByte(g.sliceBytes(a[0].(Slice)), a[1].(*Term)) }, B+"Count")
	reg(func(g *G, a []Value) Value { return g.countByte(a[0].(Str).bytes(), a[1].(*Term)) }, B+"CountString")
	reg(func(g *G, a []Value) Value {
		return g.bytesCompare(g.sliceBytes(a[0].(Slice)), g.sliceBytes(a[1].(Slice)))
	}, B+"Compare", "bytes.Compare")
	reg(func(g *G, a []Value) Value { return g.bytesCompare(a[0].(Str).bytes(), a[1].(Str).bytes()) }, B+"CompareString", "strings.Compare", "runtime.cmpstring")
	beq := func(g *G, a []Value) Value {
		x, y := g.sliceBytes(a[0].(Slice)), g.sliceBytes(a[1].(Slice))
		return g.bytesEq(x, y)
	}
	reg(beq, B+"Equal", "bytes.Equal")
	reg(func(g *G, a []Value) Value { return g.index(g.sliceBytes(a[0].(Slice)), g.sliceBytes(a[1].(Slice))) }, B+"Index", "bytes.Index")
	reg(func(g *G, a []Value) Value { return g.index(a[0].(Str).bytes(), a[1].(Str).bytes()) }, B+"IndexString", "strings.Index")
	reg(func(g *G, a []Value) Value {
		n := int(g.conc(a[0].(*Term)))
		cells := make([]Value, n)
		for i := range cells {
			cells[i] = BV(8, 0)
		}
		return Slice{obj: g.newObj(cells, "noz"), len: n, cap: n}
	}, B+"MakeNoZero")
	reg(func(g *G, a []Value) Value { return mkStr(g.sliceBytes(a[0].(Slice))) }, "strings.unsafeString")

	// ---- math ----
	reg(func(g *G, a []Value) Value { return BV(64, math.Float64bits(a[0].(float64))) }, "math.Float64bits")
	reg(func(g *G, a []Value) Value { return math.Float64frombits(g.conc(a[0].(*Term))) }, "math.Float64frombits")
	reg(func(g *G, a []Value) Value { return BV(32, uint64(math.Float32bits(float32(a[0].(float64))))) }, "math.Float32bits")
	reg(func(g *G, a []Value) Value { return float64(math.Float32frombits(uint32(g.conc(a[0].(*Term))))) }, "math.Float32frombits")
	f1 := func(f func(float64) float64, names ...string) {
		reg(func(g *G, a []Value) Value { return f(a[0].(float64)) }, names...)
	}
	f1(math.Floor, "math.Floor", "math.floor")
	f1(math.Ceil, "math.Ceil", "math.ceil")
	f1(math.Trunc, "math.Trunc", "math.trunc")
	f1(math.Sqrt, "math.Sqrt", "math.sqrt")
	f1(math.Log, "math.Log", "math.log")
	f1(math.Exp, "math.Exp", "math.exp")
	f1(math.Log2, "math.Log2")
	f1(math.Abs, "math.Abs")
	reg(func(g *G, a []Value) Value { return math.Pow(a[0].(float64), a[1].(float64)) }, "math.Pow", "math.pow")
	reg(func(g *G, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return i64(int64(bits.Len64(t.val)))
		}
		// nested ite on the highest set bit
		r := i64(0)
		for i := 0; i < 64; i++ {
			r = g.p.tc.Ite(g.p.tc.Eq(g.p.tc.Extract(t, uint8(i), uint8(i)), BV(1, 1)), i64(int64(i+1)), r)
		}
		return r
	}, "math/bits.Len64", "math/bits.Len")
	mul64 := func(g *G, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if x.isConst() && y.isConst() {
			h, l := bits.Mul64(x.val, y.val)
			return Tuple{BV(64, h), BV(64, l)}
		}
		hi, lo := uint64(g.conc(x)), uint64(g.conc(y))
		h, l := bits.Mul64(hi, lo)
		return Tuple{BV(64, h), BV(64, l)}
	}
	reg(mul64, "math/bits.Mul64")

	// ---- strconv on concrete values goes through the real code; fast paths here ----
	reg(func(g *G, a []Value) Value { return Str{c: strconv.Itoa(int(int64(g.conc(a[0].(*Term)))))} }, "strconv.Itoa")
	reg(func(g *G, a []Value) Value {
		return Str{c: strconv.FormatInt(int64(g.conc(a[0].(*Term))), int(g.conc(a[1].(*Term))))}
	}, "strconv.FormatInt")

	// ---- unsafe helpers in hashing of maps ----
	reg(func(g *G, a []Value) Value { return BV(64, 1) }, "hash/maphash.MakeSeed", "internal/rand.Uint64")
	reg(func(g *G, a []Value) Value { return False }, "internal/cpu.Name", "crypto/internal/boring.Enabled")
}

type wgKey struct{ p Ptr }
type condKey struct{ p Ptr }
type digestKey struct{ p Ptr }
type timerKey struct{ p Ptr }
type condRec struct {
	g   *G
	sig bool
}

func (g *G) nosched(d int) { g.noschedN += d }

func (g *G) wgAdd(p Ptr, d int) {
	n, _ := g.p.side[wgKey{p}].(int)
	n += d
	if n < 0 {
		g.panicStr("sync: negative WaitGroup counter")
	}
	g.p.side[wgKey{p}] = n
	g.rel(p)
	if n == 0 {
		g.wakeAll(p)
	}
	g.preempt("wg")
}

func (g *G) panicStr(s string) {
	panic(&targetPanic{v: Iface{t: types.Typ[types.String], v: Str{c: s}}, where: g.where(), rt: s})
}

func (g *G) condL(p Ptr) Iface {
	st := g.typeByName("sync", "Cond").Underlying().(*types.Struct)
	off := g.e.offsets(st)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "L" {
			l := g.p.rd(p.obj)[p.off+off[i]].(Iface)
			if l.t == nil {
				g.nilDeref()
			}
			return l
		}
	}
	return Iface{}
}

func (g *G) invoke(i Iface, name string, args ...Value) Value {
	if i.t == nil {
		g.nilDeref()
	}
	fn := g.e.methodByName(i.t, name)
	if fn == nil {
		g.unsupported("no method %s on %v", name, i.t)
	}
	return g.call(fn, append([]Value{i.v}, args...), nil)
}

func (g *G) newTimer(kind string, d, period int64, f *Closure) Ptr {
	t := g.typeByName("time", kind)
	p := g.alloc(t, "timer")
	p.obj.foreign = true
	c := g.newChan(1, g.typeByName("time", "Time"))
	var fire func()
	if f != nil {
		fire = func() {
			n := g.p.newG(fmt.Sprintf("g%d", g.p.ngid))
			if g.p.race {
				n.vc = vcSet(append([]int(nil), g.vc...), n.id, 1)
			}
			g.p.launch(n, func(ng *G) { ng.callClosure(f, nil) })
			n.state = gReady
			g.p.ready = append(g.p.ready, n)
		}
	} else {
		g.p.wr(p.obj)[0] = c
		e := g
		fire = func() {
			now := intr["time.Now"](e, nil)
			if w := popWaiter(&c.recvq); w != nil {
				g.p.complete(w, now, true)
			} else if len(c.buf) < 1 {
				c.buf = append(c.buf, now)
				if g.p.race {
					c.bufvc = append(c.bufvc, nil)
				}
			}
		}
	}
	g.p.side[timerKey{p}] = g.p.addTimer(d, period, fire)
	return p
}

// drainTimer discards a value fired but not received (timer channels are synchronous since Go 1.23).
func (g *G) drainTimer(p Ptr) bool {
	c, _ := g.p.rd(p.obj)[p.off].(*ChanVal)
	if c == nil || len(c.buf) == 0 {
		return false
	}
	c.buf, c.bufvc = nil, nil
	return true
}

// protect runs a closure and reports a panic as text.
func (g *G) protect(cl *Closure) (msg string) {
	fr, depth := g.fr, g.depth
	defer func() {
		if g.p.dead {
			return
		}
		if r := recover(); r != nil {
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			g.fr, g.depth = fr, depth
			msg = "panic: " + g.panicText(tp)
		}
	}()
	g.callClosure(cl, nil)
	return ""
}

// ---- errors ----

func (g *G) errorsIs(err, target Iface, d int) bool {
	if d > 50 {
		g.unsupported("error chain too long")
	}
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && types.Comparable(err.t) && identical(err.t, target.t) && g.p.branch(g.eq(err, target)) {
		return true
	}
	if fn := g.e.methodByName(err.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
		if g.p.branch(g.call(fn, []Value{err.v, target}, nil).(*Term)) {
			return true
		}
	}
	if fn := g.e.methodByName(err.t, "Unwrap"); fn != nil {
		switch r := g.call(fn, []Value{err.v}, nil).(type) {
		case Iface:
			if r.t == nil {
				return false
			}
			return g.errorsIs(r, target, d+1)
		case Slice:
			for _, c := range g.cellsOf(r, 1) {
				if g.errorsIs(c.(Iface), target, d+1) {
					return true
				}
			}
		}
	}
	return false
}

func (g *G) errorsAs(err, target Iface, d int) bool {
	if err.t == nil {
		return false
	}
	tt := derefT(target.t)
	ok := false
	var v Value
	if it, is := tt.Underlying().(*types.Interface); is {
		if g.e.implements(err.t, it) {
			ok, v = true, err
		}
	} else if identical(err.t, tt) {
		ok, v = true, err.v
	}
	if ok {
		g.store(target.v, v)
		return true
	}
	if fn := g.e.methodByName(err.t, "As"); fn != nil {
		if g.p.branch(g.call(fn, []Value{err.v, target}, nil).(*Term)) {
			return true
		}
	}
	if fn := g.e.methodByName(err.t, "Unwrap"); fn != nil && d < 50 {
		switch r := g.call(fn, []Value{err.v}, nil).(type) {
		case Iface:
			return g.errorsAs(r, target, d+1)
		case Slice:
			for _, c := range g.cellsOf(r, 1) {
				if g.errorsAs(c.(Iface), target, d+1) {
					return true
				}
			}
		}
	}
	return false
}

func (g *G) mkErrorFmt(s Str) Iface {
	t := g.typeByName("fmt", "wrapError")
	_ = t
	return g.mkError(s)
}

func (g *G) writeTo(w Iface, s Str) Value {
	b := g.mkBytes(s.bytes())
	r := g.invoke(w, "Write", b)
	return r
}

// ---- byte helpers ----

func (g *G) bytesEq(x, y []*Term) *Term {
	if len(x) != len(y) {
		return False
	}
	r := True
	for i := range x {
		r = g.p.tc.And(r, g.p.tc.Eq(x[i], y[i]))
		if r == False {
			return r
		}
	}
	return r
}

func (g *G) indexByte(b []*Term, c *Term) Value {
	for i := range b {
		if g.p.branch(g.p.tc.Eq(b[i], c)) {
			return i64(int64(i))
		}
	}
	return i64(-1)
}

func (g *G) lastIndexByte(b []*Term, c *Term) Value {
	for i := len(b) - 1; i >= 0; i-- {
		if g.p.branch(g.p.tc.Eq(b[i], c)) {
			return i64(int64(i))
		}
	}
	return i64(-1)
}

func (g *G) countByte(b []*Term, c *Term) Value {
	r := i64(0)
	for i := range b {
		r = g.p.tc.Bin(OAdd, r, g.p.tc.Ite(g.p.tc.Eq(b[i], c), i64(1), i64(0)))
	}
	return r
}

func (g *G) bytesCompare(x, y []*Term) Value {
	tc := g.p.tc
	n := min(len(x), len(y))
	var r *Term
	switch {
	case len(x) < len(y):
		r = i64(-1)
	case len(x) > len(y):
		r = i64(1)
	default:
		r = i64(0)
	}
	for i := n - 1; i >= 0; i-- {
		r = tc.Ite(tc.Eq(x[i], y[i]), r, tc.Ite(tc.Ult(x[i], y[i]), i64(-1), i64(1)))
	}
	return r
}

func (g *G) index(x, y []*Term) Value {
	for i := 0; i+len(y) <= len(x); i++ {
		if g.p.branch(g.bytesEq(x[i:i+len(y)], y)) {
			return i64(int64(i))
		}
	}
	return i64(-1)
}

// ---- fmt model ----

const opaque = "\x01?"

// fmtArg renders one argument for a verb.
func (g *G) fmtArg(verb byte, spec string, a Iface, depth int) Str {
	if a.t == nil {
		if verb != 'v' && verb != 'T' {
			return Str{c: "%!" + string(verb) + "(<nil>)"}
		}
		return Str{c: "<nil>"}
	}
	if verb == 'T' {
		return Str{c: typeStr(a.t)}
	}
	if verb == 'p' {
		return Str{c: "0xc000000000"}
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'w' {
		if !strings.Contains(spec, "#") {
			for _, m := range []string{"Error", "String"} {
				fn := g.e.methodByName(a.t, m)
				if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
					continue
				}
				if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
					continue
				}
				if p, ok := a.v.(Ptr); ok && p.obj == nil {
					return Str{c: "<nil>"}
				}
				if depth > 3 {
					return Str{c: opaque}
				}
				s := g.call(fn, []Value{a.v}, nil).(Str)
				if verb == 'x' {
					return hexStr(g, s.bytes())
				}
				if verb == 'q' {
					return Str{c: strconv.Quote(g.concStr(s))}
				}
				if len(spec) > 2 && spec != "%+v" {
					return Str{c: fmt.Sprintf(spec[:len(spec)-1]+"s", g.concStr(s))}
				}
				return s
			}
		}
	}
	switch v := a.v.(type) {
	case Str:
		switch {
		case verb == 'x' && spec == "%x":
			return hexStr(g, v.bytes())
		case spec == "%s" || spec == "%v" || spec == "%w" || spec == "%+v":
			return v
		}
		return Str{c: fmt.Sprintf(spec, g.concStr(v))}
	case *Term:
		if v.isBool() {
			if v == True || v == False {
				return Str{c: fmt.Sprintf(spec, v == True)}
			}
			return Str{c: fmt.Sprintf(spec, g.p.branch(v))}
		}
		w, s := intInfo(a.t)
		if !v.isConst() {
			if g.p.fmtOpaque {
				return Str{c: opaque}
			}
			if verb == 'x' && !s && (spec == "%02x" && w == 8) {
				return hexStr(g, []*Term{v})
			}
		}
		c := g.conc(v)
		if s {
			return Str{c: fmt.Sprintf(spec, sx(c, w))}
		}
		switch w {
		case 8:
			return Str{c: fmt.Sprintf(spec, uint8(c))}
		case 16:
			return Str{c: fmt.Sprintf(spec, uint16(c))}
		case 32:
			return Str{c: fmt.Sprintf(spec, uint32(c))}
		}
		return Str{c: fmt.Sprintf(spec, c)}
	case float64:
		return Str{c: fmt.Sprintf(spec, v)}
	case Slice:
		if el := a.t.Underlying().(*types.Slice).Elem(); kindOf(el) == 8 {
			b := g.sliceBytes(v)
			if spec == "%x" {
				return hexStr(g, b)
			}
			if spec == "%s" {
				return mkStr(b)
			}
			c := make([]byte, len(b))
			for i, t := range b {
				c[i] = byte(g.conc(t))
			}
			if v.obj == nil {
				c = nil
			}
			return Str{c: fmt.Sprintf(spec, c)}
		} else if verb == 'v' || verb == 's' {
			es := g.e.sizeof(el)
			r := Str{c: "["}
			sub := "%" + string(verb)
			if spec == "%+v" {
				sub = spec
			}
			for i := 0; i < v.len; i++ {
				if i > 0 {
					r = concatStr(r, Str{c: " "})
				}
				ev := g.load(Ptr{v.obj, v.off + i*es}, isAgg(el), es)
				r = concatStr(r, g.fmtArg(verb, sub, g.asIface(ev, el), depth+1))
			}
			return concatStr(r, Str{c: "]"})
		}
		return Str{c: opaque}
	case Agg:
		if ar, ok := a.t.Underlying().(*types.Array); ok && kindOf(ar.Elem()) == 8 {
			b := make([]*Term, len(v))
			for i := range v {
				b[i] = v[i].(*Term)
			}
			if spec == "%x" {
				return hexStr(g, b)
			}
			if spec == "%s" {
				return mkStr(b)
			}
			c := make([]byte, len(b))
			for i, t := range b {
				c[i] = byte(g.conc(t))
			}
			if t := fmt.Sprintf(spec, c); verb == 'v' || verb == 'd' {
				return Str{c: t}
			}
		}
		if ar, ok := a.t.Underlying().(*types.Array); ok && verb == 'v' {
			es, ag := g.e.sizeof(ar.Elem()), isAgg(ar.Elem())
			r := Str{c: "["}
			for i := 0; i < int(ar.Len()); i++ {
				if i > 0 {
					r = concatStr(r, Str{c: " "})
				}
				var ev Value = v[i*es]
				if ag {
					ev = v[i*es : i*es+es]
				}
				r = concatStr(r, g.fmtArg('v', spec, g.asIface(ev, ar.Elem()), depth+1))
			}
			return concatStr(r, Str{c: "]"})
		}
		if st, ok := a.t.Underlying().(*types.Struct); ok && verb == 'v' && depth < 3 {
			r := Str{c: "{"}
			off := g.e.offsets(st)
			for i := 0; i < st.NumFields(); i++ {
				if i > 0 {
					r = concatStr(r, Str{c: " "})
				}
				ft := st.Field(i).Type()
				var fv Value
				if isAgg(ft) {
					fv = v[off[i]:off[i+1]]
				} else {
					fv = v[off[i]]
				}
				sub := "%v"
				if spec == "%+v" {
					r, sub = concatStr(r, Str{c: st.Field(i).Name() + ":"}), spec
				}
				r = concatStr(r, g.fmtArg('v', sub, g.asIface(fv, ft), depth+1))
			}
			return concatStr(r, Str{c: "}"})
		}
		return Str{c: opaque}
	case *MapVal:
		if verb != 'v' || depth >= 3 || v != nil && v.symKey {
			return Str{c: opaque}
		}
		mt := a.t.Underlying().(*types.Map)
		var keys, vals []Str
		if v != nil {
			for i := range v.keys {
				if v.live[i] {
					keys = append(keys, g.fmtArg('v', spec, g.asIface(v.keys[i], mt.Key()), depth+1))
					vals = append(vals, g.fmtArg('v', spec, g.asIface(v.vals[i], mt.Elem()), depth+1))
				}
			}
		}
		idx := make([]int, len(keys))
		for i := range idx {
			idx[i] = i
		}
		num := intKind(mt.Key())
		sort.SliceStable(idx, func(i, j int) bool {
			a, b := g.concStr(keys[idx[i]]), g.concStr(keys[idx[j]])
			if num {
				x, _ := strconv.ParseInt(a, 10, 64)
				y, _ := strconv.ParseInt(b, 10, 64)
				return x < y
			}
			return a < b
		})
		r := Str{c: "map["}
		for n, i := range idx {
			if n > 0 {
				r = concatStr(r, Str{c: " "})
			}
			r = concatStr(concatStr(concatStr(r, keys[i]), Str{c: ":"}), vals[i])
		}
		return concatStr(r, Str{c: "]"})
	case Ptr:
		if v.obj == nil {
			return Str{c: "<nil>"}
		}
		if depth == 0 && verb == 'v' {
			if el := a.t.Underlying().(*types.Pointer).Elem(); kindOf(el) == 25 {
				ev := g.load(v, true, g.e.sizeof(el))
				return concatStr(Str{c: "&"}, g.fmtArg('v', spec, Iface{t: el, v: ev}, 1))
			}
		}
		return Str{c: "0xc000000000"}
	}
	return Str{c: opaque}
}

func intKind(t types.Type) bool {
	k := kindOf(t)
	return k >= 2 && k <= 12
}

func (g *G) asIface(v Value, t types.Type) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t: t, v: v}
}

func hexStr(g *G, b []*Term) Str {
	tc := g.p.tc
	var r []*Term
	dig := func(n *Term) *Term {
		z := tc.ZExt(n, 8)
		return tc.Ite(tc.Ult(z, BV(8, 10)), tc.Bin(OAdd, z, BV(8, '0')), tc.Bin(OAdd, z, BV(8, 'a'-10)))
	}
	for _, t := range b {
		r = append(r, dig(tc.Extract(t, 7, 4)), dig(tc.Extract(t, 3, 0)))
	}
	return mkStr(r)
}

func (g *G) sprintf(f Str, args []Iface) (Str, *Iface) {
	s := g.concStr(f)
	var out Str
	var wrapped *Iface
	ai := 0
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			out = concatStr(out, Str{c: s[i:]})
			break
		}
		out = concatStr(out, Str{c: s[i : i+j]})
		i += j
		k := i + 1
		star := ""
		for k < len(s) && strings.IndexByte("+-# 0123456789.*", s[k]) >= 0 {
			if s[k] == '*' && ai < len(args) {
				n := 0
				if t, ok := args[ai].v.(*Term); ok {
					n = int(int32(g.conc(t)))
				}
				ai++
				star += strconv.Itoa(n)
			} else {
				star += string(s[k])
			}
			k++
		}
		if k >= len(s) {
			out = concatStr(out, Str{c: "%!(NOVERB)"})
			break
		}
		verb := s[k]
		spec := "%" + star + string(verb)
		i = k + 1
		if verb == '%' {
			out = concatStr(out, Str{c: "%"})
			continue
		}
		if ai >= len(args) {
			out = concatStr(out, Str{c: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			if a.t != nil {
				x := a
				wrapped = &x
			}
			verb, spec = 'v', "%v"
		}
		out = concatStr(out, g.fmtArg(verb, spec, a, 0))
	}
	return out, wrapped
}

func (g *G) sprint(args []Iface, ln bool) Str {
	var out Str
	for i, a := range args {
		if i > 0 {
			isS := func(x Iface) bool { return x.t != nil && kindOf(x.t) == 24 }
			if ln || !isS(a) && !isS(args[i-1]) {
				out = concatStr(out, Str{c: " "})
			}
		}
		out = concatStr(out, g.fmtArg('v', "%v", a, 0))
	}
	return out
}

// ---- observation ----

func (p *Path) observe(g *G, name string, i Iface) {
	o := obsRec{name: name}
	switch v := i.v.(type) {
	case *Term:
		o.t = []*Term{v}
		o.s = "i"
		if v.isBool() {
			o.s = "b"
		}
	case Str:
		o.t = v.bytes()
		o.s = "s"
	case Slice:
		o.t = g.sliceBytes(v)
		o.s = "s"
	case Iface, nil:
		o.s = "nil"
	default:
		if i.t == nil {
			o.s = "nil"
		} else {
			g.unsupported("observe %T", v)
		}
	}
	p.obs = append(p.obs, o)
}
