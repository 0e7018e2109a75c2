package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (k *compiler) instr(in ssa.Instruction) func(fr *frame) {
	e := k.e
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = k.idx[v]
	}
	pos := in.Pos()
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		lbl := in.Comment
		z := e.zeroCells(t)
		repo := k.c.repo
		return func(fr *frame) {
			c := make([]Value, len(z))
			copy(c, z)
			o := fr.g.newObj(c, lbl)
			o.foreign = !repo
			fr.regs[dst] = Ptr{obj: o}
		}
	case *ssa.BinOp:
		return k.binop(in, dst)
	case *ssa.UnOp:
		return k.unop(in, dst)
	case *ssa.Call:
		call := k.call(&in.Call, pos)
		return func(fr *frame) {
			fr.curPos = pos
			fr.regs[dst] = call(fr)
		}
	case *ssa.ChangeInterface:
		o := k.op(in.X)
		return func(fr *frame) { fr.regs[dst] = o.get(fr) }
	case *ssa.ChangeType:
		o := k.op(in.X)
		return func(fr *frame) { fr.regs[dst] = o.get(fr) }
	case *ssa.Convert:
		o := k.op(in.X)
		from, to := in.X.Type(), in.Type()
		return func(fr *frame) {
			fr.curPos = pos
			fr.regs[dst] = fr.g.convert(o.get(fr), from, to)
		}
	case *ssa.MultiConvert:
		o := k.op(in.X)
		from, to := in.X.Type(), in.Type()
		return func(fr *frame) {
			fr.curPos = pos
			fr.regs[dst] = fr.g.convert(o.get(fr), from, to)
		}
	case *ssa.Defer:
		prep := k.prepCall(&in.Call)
		return func(fr *frame) {
			fr.curPos = pos
			f := prep(fr)
			fr.defers = append(fr.defers, deferRec{func() { f(fr.g) }})
		}
	case *ssa.Go:
		prep := k.prepCall(&in.Call)
		return func(fr *frame) {
			fr.curPos = pos
			f := prep(fr)
			fr.g.spawn(f, fr.g.where())
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Extract:
		o := k.op(in.Tuple)
		i := in.Index
		return func(fr *frame) { fr.regs[dst] = o.get(fr).(Tuple)[i] }
	case *ssa.Field:
		o := k.op(in.X)
		st := in.X.Type().Underlying().(*types.Struct)
		off := e.offsets(st)[in.Field]
		ft := st.Field(in.Field).Type()
		n := e.sizeof(ft)
		agg := isAgg(ft)
		return func(fr *frame) {
			a := o.get(fr).(Agg)
			if agg {
				fr.regs[dst] = a[off : off+n : off+n]
			} else {
				fr.regs[dst] = a[off]
			}
		}
	case *ssa.FieldAddr:
		o := k.op(in.X)
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := e.offsets(st)[in.Field]
		return func(fr *frame) {
			switch p := o.get(fr).(type) {
			case Ptr:
				if p.obj == nil {
					fr.curPos = pos
					fr.g.nilDeref()
				}
				fr.regs[dst] = Ptr{p.obj, p.off + off}
			case SymPtr:
				p.base += off
				fr.regs[dst] = p
			default:
				fr.curPos = pos
				fr.g.unsupported("FieldAddr of %T", p)
			}
		}
	case *ssa.Index:
		x, i := k.op(in.X), k.op(in.Index)
		it := in.Index.Type()
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			n := int(u.Len())
			es := e.sizeof(u.Elem())
			agg := isAgg(u.Elem())
			return func(fr *frame) {
				a := x.get(fr).(Agg)
				fr.curPos = pos
				idx := fr.g.boundsCheck(i.get(fr).(*Term), it, n)
				if !idx.isConst() && !agg {
					tc := fr.g.p.tc
					r, ok := a[(n-1)*es].(*Term)
					if ok {
						for j := n - 2; j >= 0; j-- {
							r = tc.Ite(tc.Eq(idx, BV(64, uint64(j))), a[j*es].(*Term), r)
						}
						fr.regs[dst] = r
						return
					}
				}
				j := int(fr.g.conc(idx))
				if agg {
					fr.regs[dst] = a[j*es : j*es+es : j*es+es]
				} else {
					fr.regs[dst] = a[j]
				}
			}
		default: // string
			return func(fr *frame) {
				fr.curPos = pos
				fr.regs[dst] = fr.g.strIndex(x.get(fr).(Str), i.get(fr).(*Term), it)
			}
		}
	case *ssa.IndexAddr:
		x, i := k.op(in.X), k.op(in.Index)
		it := in.Index.Type()
		var n, es int
		isArr := false
		switch u := in.X.Type().Underlying().(type) {
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			n = int(a.Len())
			es = e.sizeof(a.Elem())
			isArr = true
		case *types.Slice:
			es = e.sizeof(u.Elem())
		}
		return func(fr *frame) {
			var obj *Obj
			var base int
			ln := n
			if isArr {
				p, ok := x.get(fr).(Ptr)
				if !ok {
					fr.curPos = pos
					p = fr.g.fixPtr(x.get(fr).(SymPtr))
				}
				if p.obj == nil {
					fr.curPos = pos
					fr.g.nilDeref()
				}
				obj, base = p.obj, p.off
			} else {
				s := x.get(fr).(Slice)
				obj, base, ln = s.obj, s.off, s.len
			}
			it0 := i.get(fr).(*Term)
			if it0.op == OConst {
				v := it0.val
				if it0.w < 64 {
					fr.curPos = pos
					v = fr.g.boundsCheck(it0, it, ln).val
				} else if v >= uint64(ln) {
					fr.curPos = pos
					fr.g.boundsCheck(it0, it, ln)
				}
				fr.regs[dst] = Ptr{obj, base + int(v)*es}
				return
			}
			fr.curPos = pos
			idx := fr.g.boundsCheck(it0, it, ln)
			if idx.isConst() {
				fr.regs[dst] = Ptr{obj, base + int(idx.val)*es}
				return
			}
			fr.regs[dst] = SymPtr{obj: obj, base: base, stride: es, n: ln, idx: idx}
		}
	case *ssa.Lookup:
		x, i := k.op(in.X), k.op(in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			it := in.Index.Type()
			return func(fr *frame) {
				fr.curPos = pos
				fr.regs[dst] = fr.g.strIndex(x.get(fr).(Str), i.get(fr).(*Term), it)
			}
		}
		mt := in.X.Type().Underlying().(*types.Map)
		vt := mt.Elem()
		commaOk := in.CommaOk
		return func(fr *frame) {
			fr.curPos = pos
			m := x.get(fr).(*MapVal)
			v, ok := fr.g.mapLookup(m, i.get(fr))
			if !ok {
				v = fr.g.e.zeroValue(vt)
			}
			if commaOk {
				fr.regs[dst] = Tuple{v, BoolT(ok)}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MakeChan:
		o := k.op(in.Size)
		et := in.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			fr.curPos = pos
			n := fr.g.conc(o.get(fr).(*Term))
			fr.regs[dst] = fr.g.newChan(int(int64(n)), et)
		}
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		b := k.ops(in.Bindings)
		return func(fr *frame) {
			env := make([]Value, len(b))
			for i := range b {
				env[i] = b[i].get(fr)
			}
			fr.regs[dst] = &Closure{fn: fn, env: env}
		}
	case *ssa.MakeInterface:
		o := k.op(in.X)
		t := in.X.Type()
		return func(fr *frame) { fr.regs[dst] = Iface{t: t, v: o.get(fr)} }
	case *ssa.MakeMap:
		kt := in.Type().Underlying().(*types.Map).Key()
		repo := k.c.repo
		return func(fr *frame) {
			m := fr.g.newMap(kt)
			m.foreign = !repo
			if repo {
				fr.curPos = pos
				m.lbl = fr.g.where()
			}
			fr.regs[dst] = m
		}
	case *ssa.MakeSlice:
		l, c := k.op(in.Len), k.op(in.Cap)
		lt, ct := in.Len.Type(), in.Cap.Type()
		et := in.Type().Underlying().(*types.Slice).Elem()
		repo := k.c.repo
		return func(fr *frame) {
			fr.curPos = pos
			s := fr.g.makeSlice(et, l.get(fr).(*Term), lt, c.get(fr).(*Term), ct)
			s.obj.foreign = !repo
			fr.regs[dst] = s
		}
	case *ssa.MapUpdate:
		m, kk, v := k.op(in.Map), k.op(in.Key), k.op(in.Value)
		return func(fr *frame) {
			fr.curPos = pos
			fr.g.mapUpdate(m.get(fr).(*MapVal), kk.get(fr), v.get(fr))
		}
	case *ssa.Range:
		o := k.op(in.X)
		return func(fr *frame) {
			fr.curPos = pos
			fr.regs[dst] = fr.g.rangeIter(o.get(fr))
		}
	case *ssa.Next:
		o := k.op(in.Iter)
		isStr := in.IsString
		tt := in.Type().(*types.Tuple)
		return func(fr *frame) {
			fr.curPos = pos
			fr.regs[dst] = fr.g.next(o.get(fr).(*iter), isStr, tt)
		}
	case *ssa.Select:
		return k.selectInstr(in, dst)
	case *ssa.Send:
		c, v := k.op(in.Chan), k.op(in.X)
		return func(fr *frame) {
			fr.curPos = pos
			fr.g.send(fr.g.p.ch(c.get(fr)), v.get(fr))
		}
	case *ssa.Slice:
		return k.sliceInstr(in, dst)
	case *ssa.SliceToArrayPointer:
		o := k.op(in.X)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := o.get(fr).(Slice)
			if s.len < n {
				fr.curPos = pos
				fr.g.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s.len, n))
			}
			fr.regs[dst] = Ptr{s.obj, s.off}
		}
	case *ssa.Store:
		a, v := k.op(in.Addr), k.op(in.Val)
		return func(fr *frame) {
			pv := a.get(fr)
			if p, ok := pv.(Ptr); ok && p.obj != nil && !p.obj.shared && !fr.g.p.race {
				val := v.get(fr)
				if _, ag := val.(Agg); !ag && p.off < len(p.obj.cells) {
					p.obj.cells[p.off] = val
					return
				}
			}
			fr.curPos = pos
			fr.g.store(pv, v.get(fr))
		}
	case *ssa.TypeAssert:
		return k.typeAssert(in, dst)
	}
	s := fmt.Sprintf("%T", in)
	return func(fr *frame) { fr.curPos = pos; fr.g.unsupported("instruction %s", s) }
}

// conc concretises an integer term.
func (g *G) conc(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	return g.p.concretize(t, "value")
}

func (g *G) to64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	_, s := intInfo(ty)
	if s {
		return g.p.tc.SExt(t, 64)
	}
	return g.p.tc.ZExt(t, 64)
}

// boundsCheck panics when idx is out of [0,n); returns idx as 64 bits.
func (g *G) boundsCheck(idx *Term, ty types.Type, n int) *Term {
	i := g.to64(idx, ty)
	c := g.p.tc.Ult(i, BV(64, uint64(n)))
	if !g.p.branch(c) {
		if i.isConst() {
			g.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.val), n))
		}
		g.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return i
}

func (g *G) strIndex(s Str, idx *Term, ty types.Type) Value {
	i := g.boundsCheck(idx, ty, s.len())
	if i.isConst() {
		return s.at(int(i.val))
	}
	tc := g.p.tc
	n := s.len()
	r := s.at(n - 1)
	for j := n - 2; j >= 0; j-- {
		r = tc.Ite(tc.Eq(i, BV(64, uint64(j))), s.at(j), r)
	}
	return r
}

func (g *G) makeSlice(et types.Type, l *Term, lt types.Type, c *Term, ct types.Type) Slice {
	es := g.e.sizeof(et)
	bs := g.byteSize(et)
	lv := g.allocLen(g.to64(l, lt), bs, "len")
	cv := lv
	if c != l {
		cv = g.allocLen(g.to64(c, ct), bs, "cap")
	}
	if lv < 0 {
		g.rtPanic("makeslice: len out of range")
	}
	if cv < lv {
		g.rtPanic("makeslice: cap out of range")
	}
	return g.mkSlice(et, es, lv, cv)
}

func (g *G) mkSlice(et types.Type, es, l, c int) Slice {
	cells := make([]Value, es*c)
	if es == 1 {
		z := g.e.zeroCells(et)[0]
		for i := range cells {
			cells[i] = z
		}
	} else if es > 0 {
		z := g.e.zeroCells(et)
		for i := 0; i < c; i++ {
			copy(cells[i*es:], z)
		}
	}
	return Slice{obj: g.newObj(cells, "make"), len: l, cap: c}
}

// allocLen decides an allocation length, reporting allocations beyond the limit.
func (g *G) allocLen(n *Term, bs int64, what string) int {
	if bs == 0 {
		bs = 1
	}
	tc := g.p.tc
	lim := g.p.maxAlloc / bs
	if g.e.initing {
		lim = 1 << 40
	}
	// n < 0 or > limit (unsigned compare covers both)
	big := tc.Ult(BV(64, uint64(lim)), n)
	if g.p.branch(big) {
		// Split: values for which Go panics versus values for which it allocates.
		maxN := uint64(1<<47) / uint64(bs)
		if g.p.branch(tc.Ult(BV(64, maxN), n)) {
			g.rtPanic("makeslice: " + what + " out of range")
		}
		g.p.hugeAlloc(n, bs, g.where())
	}
	return int(int64(g.conc(n)))
}

func (g *G) byteSize(t types.Type) int64 {
	return g.e.sizes().Sizeof(t)
}

var stdSizes = types.SizesFor("gc", "amd64")

func (e *Engine) sizes() types.Sizes { return stdSizes }

// ---- unop / binop ----

func (k *compiler) unop(in *ssa.UnOp, dst int) func(fr *frame) {
	o := k.op(in.X)
	pos := in.Pos()
	switch in.Op {
	case token.MUL:
		t := in.X.Type().Underlying().(*types.Pointer).Elem()
		agg := isAgg(t)
		n := k.e.sizeof(t)
		return func(fr *frame) {
			pv := o.get(fr)
			if p, ok := pv.(Ptr); ok && !agg && p.obj != nil && !p.obj.shared && !fr.g.p.race && p.off < len(p.obj.cells) {
				fr.regs[dst] = p.obj.cells[p.off]
				return
			}
			fr.curPos = pos
			fr.regs[dst] = fr.g.load(pv, agg, n)
		}
	case token.NOT:
		return func(fr *frame) { fr.regs[dst] = fr.g.p.tc.Not(o.get(fr).(*Term)) }
	case token.SUB:
		return func(fr *frame) {
			switch v := o.get(fr).(type) {
			case *Term:
				fr.regs[dst] = fr.g.p.tc.Neg(v)
			case float64:
				fr.regs[dst] = -v
			default:
				fr.g.unsupported("neg %T", v)
			}
		}
	case token.XOR:
		return func(fr *frame) { fr.regs[dst] = fr.g.p.tc.BNot(o.get(fr).(*Term)) }
	case token.ARROW:
		commaOk := in.CommaOk
		return func(fr *frame) {
			fr.curPos = pos
			v, ok := fr.g.recv(fr.g.p.ch(o.get(fr)))
			if commaOk {
				fr.regs[dst] = Tuple{v, BoolT(ok)}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic("unop " + in.Op.String())
}

func (k *compiler) binop(in *ssa.BinOp, dst int) func(fr *frame) {
	xo, yo := k.op(in.X), k.op(in.Y)
	pos := in.Pos()
	xt := in.X.Type()
	w, signed := intInfo(xt)
	op := in.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		return func(fr *frame) {
			fr.curPos = pos
			a, b := xo.get(fr), yo.get(fr)
			var r *Term
			if ta, ok := a.(*Term); ok {
				r = fr.g.p.tc.Eq(ta, b.(*Term))
			} else {
				r = fr.g.eq(a, b)
			}
			if neg {
				r = fr.g.p.tc.Not(r)
			}
			fr.regs[dst] = r
		}
	}
	if w > 0 {
		var f func(fr *frame, a, b *Term) *Term
		switch op {
		case token.ADD:
			f = func(fr *frame, a, b *Term) *Term { return fr.g.p.tc.Bin(OAdd, a, b) }
		case token.SUB:
			f = func(fr *frame, a, b *Term) *Term { return fr.g.p.tc.Bin(OSub, a, b) }
		case token.MUL:
			f = func(fr *frame, a, b *Term) *Term { return fr.g.p.tc.Bin(OMul, a, b) }
		case token.QUO, token.REM:
			var o Op
			switch {
			case op == token.QUO && signed:
				o = OSDiv
			case op == token.QUO:
				o = OUDiv
			case signed:
				o = OSRem
			default:
				o = OURem
			}
			f = func(fr *frame, a, b *Term) *Term {
				if fr.g.p.branch(fr.g.p.tc.Eq(b, BV(w, 0))) {
					fr.curPos = pos
					fr.g.rtPanic("integer divide by zero")
				}
				return fr.g.p.tc.Bin(o, a, b)
			}
		case token.AND:
			f = func(fr *frame, a, b *Term) *Term { return fr.g.p.tc.BAnd(a, b) }
		case token.OR:
			f = func(fr *frame, a, b *Term) *Term { return fr.g.p.tc.BOr(a, b) }
		case token.XOR:
			f = func(fr *frame, a, b *Term) *Term { return fr.g.p.tc.BXor(a, b) }
		case token.AND_NOT:
			f = func(fr *frame, a, b *Term) *Term { return fr.g.p.tc.BAnd(a, fr.g.p.tc.BNot(b)) }
		case token.SHL, token.SHR:
			o := OShl
			if op == token.SHR {
				o = OLShr
				if signed {
					o = OAShr
				}
			}
			_, ysigned := intInfo(in.Y.Type())
			f = func(fr *frame, a, b *Term) *Term {
				tc := fr.g.p.tc
				if ysigned {
					if fr.g.p.branch(tc.Slt(b, BV(b.w, 0))) {
						fr.curPos = pos
						fr.g.rtPanic("negative shift amount")
					}
				}
				if b.isConst() {
					v := b.val
					if v > 255 {
						v = 255
					}
					if v >= uint64(w) {
						if o == OAShr {
							return tc.Bin(OAShr, a, BV(w, uint64(w)-1))
						}
						return BV(w, 0)
					}
					return tc.Bin(o, a, BV(w, v))
				}
				mw := w
				if b.w > mw {
					mw = b.w
				}
				var aa *Term
				if o == OAShr {
					aa = tc.SExt(a, mw)
				} else {
					aa = tc.ZExt(a, mw)
				}
				return tc.Extract(tc.Bin(o, aa, tc.ZExt(b, mw)), w-1, 0)
			}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			f = func(fr *frame, a, b *Term) *Term {
				tc := fr.g.p.tc
				if op == token.GTR || op == token.LEQ {
					a, b = b, a
				}
				var r *Term
				if signed {
					r = tc.Slt(a, b)
				} else {
					r = tc.Ult(a, b)
				}
				if op == token.LEQ || op == token.GEQ {
					r = tc.Not(r)
				}
				return r
			}
		}
		if f == nil {
			panic("binop " + op.String())
		}
		return func(fr *frame) { fr.regs[dst] = f(fr, xo.get(fr).(*Term), yo.get(fr).(*Term)) }
	}
	f32 := false
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		f32 = true
	}
	return func(fr *frame) {
		fr.curPos = pos
		switch a := xo.get(fr).(type) {
		case Str:
			b := yo.get(fr).(Str)
			switch op {
			case token.ADD:
				fr.regs[dst] = concatStr(a, b)
			default:
				fr.regs[dst] = fr.g.strCmp(op, a, b)
			}
		case float64:
			b := yo.get(fr).(float64)
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				fr.regs[dst] = BoolT(a < b)
				return
			case token.GTR:
				fr.regs[dst] = BoolT(a > b)
				return
			case token.LEQ:
				fr.regs[dst] = BoolT(a <= b)
				return
			case token.GEQ:
				fr.regs[dst] = BoolT(a >= b)
				return
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.regs[dst] = r
		case complex128:
			b := yo.get(fr).(complex128)
			switch op {
			case token.ADD:
				fr.regs[dst] = a + b
			case token.SUB:
				fr.regs[dst] = a - b
			case token.MUL:
				fr.regs[dst] = a * b
			case token.QUO:
				fr.regs[dst] = a / b
			}
		case *Term: // bools with & |?
			fr.g.unsupported("binop %s on bool", op)
		default:
			fr.g.unsupported("binop %s on %T", op, a)
		}
	}
}

func concatStr(a, b Str) Str {
	if a.b == nil && b.b == nil {
		return Str{c: a.c + b.c}
	}
	if a.len() == 0 {
		return b
	}
	if b.len() == 0 {
		return a
	}
	r := make([]*Term, 0, a.len()+b.len())
	r = append(r, a.bytes()...)
	r = append(r, b.bytes()...)
	return Str{b: r}
}

func (g *G) strCmp(op token.Token, a, b Str) *Term {
	if a.b == nil && b.b == nil {
		switch op {
		case token.LSS:
			return BoolT(a.c < b.c)
		case token.GTR:
			return BoolT(a.c > b.c)
		case token.LEQ:
			return BoolT(a.c <= b.c)
		default:
			return BoolT(a.c >= b.c)
		}
	}
	if op == token.GTR || op == token.LEQ {
		a, b = b, a
	}
	tc := g.p.tc
	// lt(a,b)
	n := min(a.len(), b.len())
	r := BoolT(a.len() < b.len())
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(i), b.at(i)
		r = tc.Or(tc.Ult(x, y), tc.And(tc.Eq(x, y), r))
	}
	if op == token.LEQ || op == token.GEQ {
		r = tc.Not(r)
	}
	return r
}

// eq compares two cells or aggregates.
func (g *G) eq(a, b Value) *Term {
	tc := g.p.tc
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			g.unsupported("eq %T %T", a, b)
		}
		return tc.Eq(x, y)
	case Str:
		y := b.(Str)
		if x.len() != y.len() {
			return False
		}
		if x.b == nil && y.b == nil {
			return BoolT(x.c == y.c)
		}
		r := True
		for i := 0; i < x.len(); i++ {
			r = tc.And(r, tc.Eq(x.at(i), y.at(i)))
			if r == False {
				return r
			}
		}
		return r
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return BoolT(x == y)
		case SymPtr:
			return g.eq(x, g.fixPtr(y))
		case nil:
			return BoolT(x.obj == nil)
		}
		return False
	case SymPtr:
		if y, ok := b.(Ptr); ok && y.obj == nil {
			return False
		}
		return g.eq(g.fixPtr(x), b)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			g.unsupported("eq iface %T", b)
		}
		if x.t == nil || y.t == nil {
			return BoolT(x.t == nil && y.t == nil)
		}
		if !identical(x.t, y.t) {
			return False
		}
		if !types.Comparable(x.t) {
			g.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return g.eq(x.v, y.v)
	case Agg:
		y := b.(Agg)
		r := True
		for i := range x {
			r = tc.And(r, g.eq(x[i], y[i]))
			if r == False {
				return r
			}
		}
		return r
	case Slice:
		// only against nil
		y, ok := b.(Slice)
		if ok {
			if y.obj == nil {
				return BoolT(x.obj == nil)
			}
			if x.obj == nil {
				return BoolT(y.obj == nil)
			}
		}
	case *MapVal:
		y, _ := b.(*MapVal)
		return BoolT(x == y)
	case *ChanVal:
		y, _ := b.(*ChanVal)
		return BoolT(x == y)
	case *Closure:
		y, _ := b.(*Closure)
		return BoolT(x == y)
	case float64:
		return BoolT(x == b.(float64))
	case complex128:
		return BoolT(x == b.(complex128))
	case RType:
		y, ok := b.(RType)
		return BoolT(ok && identical(x.t, y.t))
	case nil:
		return BoolT(b == nil)
	}
	g.unsupported("eq on %T and %T", a, b)
	return nil
}

func identical(a, b types.Type) bool { return a == b || types.Identical(a, b) }

// ---- convert ----

func (g *G) convert(v Value, from, to types.Type) Value {
	if _, ok := to.(*types.TypeParam); ok {
		g.unsupported("convert to type param")
	}
	tw, _ := intInfo(to)
	fw, fs := intInfo(from)
	switch x := v.(type) {
	case *Term:
		if tw > 0 && fw > 0 {
			if tw <= fw {
				return g.p.tc.Extract(x, tw-1, 0)
			}
			if fs {
				return g.p.tc.SExt(x, tw)
			}
			return g.p.tc.ZExt(x, tw)
		}
		if b, ok := to.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0:
				c := g.conc(x)
				n := sx(c, fw)
				if !fs {
					n = int64(c)
				}
				if n < 0 || n > utf8.MaxRune {
					n = utf8.RuneError
				}
				return Str{c: string(rune(n))}
			case b.Info()&types.IsFloat != 0:
				c := g.conc(x)
				var f float64
				if fs {
					f = float64(sx(c, fw))
				} else {
					f = float64(c)
				}
				if b.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			case b.Kind() == types.UnsafePointer:
				g.unsupported("uintptr to unsafe.Pointer")
			case b.Info()&types.IsBoolean != 0:
				return x
			}
		}
	case float64:
		if tw > 0 {
			_, ts := intInfo(to)
			if ts {
				return BV(tw, uint64(int64(x)))
			}
			if x >= 9.2e18 {
				return BV(tw, uint64(x))
			}
			return BV(tw, uint64(int64(x)))
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			return float64(float32(x))
		}
		return x
	case complex128:
		return x
	case Str:
		switch u := to.Underlying().(type) {
		case *types.Slice:
			if w, _ := intInfo(u.Elem()); w == 8 {
				b := x.bytes()
				cells := make([]Value, len(b), roundup(len(b)))
				for i := range b {
					cells[i] = b[i]
				}
				return Slice{obj: g.newObj(cells, "[]byte"), len: len(b), cap: len(b)}
			}
			// []rune
			s := g.concStr(x)
			rs := []rune(s)
			cells := make([]Value, len(rs))
			for i := range rs {
				cells[i] = BV(32, uint64(rs[i]))
			}
			return Slice{obj: g.newObj(cells, "[]rune"), len: len(rs), cap: len(rs)}
		}
		return x
	case Slice:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			el := from.Underlying().(*types.Slice).Elem()
			if w, _ := intInfo(el); w == 8 {
				return mkStr(g.sliceBytes(x))
			}
			var rs []rune
			for _, c := range g.cellsOf(x, 1) {
				rs = append(rs, rune(int32(g.conc(c.(*Term)))))
			}
			return Str{c: string(rs)}
		}
		if a, ok := to.Underlying().(*types.Array); ok {
			n := int(a.Len())
			if x.len < n {
				g.rtPanic("cannot convert slice to array: too short")
			}
			es := g.e.sizeof(a.Elem())
			r := make(Agg, n*es)
			if n > 0 {
				copy(r, g.p.rd(x.obj)[x.off:x.off+n*es])
			}
			return r
		}
		return x
	case Ptr:
		if tw > 0 {
			// unsafe.Pointer -> uintptr: stable opaque number
			if x.obj == nil {
				return BV(tw, 0)
			}
			return BV(tw, uint64(0xc000000000+x.obj.id*65536+x.off*8))
		}
		return x
	case SymPtr:
		return x
	}
	return v
}

func roundup(n int) int { return n }

// concStr concretises all bytes of a string.
func (g *G) concStr(s Str) string {
	if s.b == nil {
		return s.c
	}
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		b[i] = byte(g.conc(t))
	}
	return string(b)
}

// sliceBytes returns the byte terms of a byte slice.
func (g *G) sliceBytes(s Slice) []*Term {
	if s.len == 0 {
		return nil
	}
	if g.p.race && !s.obj.foreign {
		g.raceAccess(s.obj, s.off, s.len, false)
	}
	c := g.p.rd(s.obj)
	r := make([]*Term, s.len)
	for i := range r {
		t, ok := c[s.off+i].(*Term)
		if !ok {
			g.unsupported("byte slice cell %T", c[s.off+i])
		}
		r[i] = t
	}
	return r
}

func (g *G) cellsOf(s Slice, es int) []Value {
	if s.len == 0 {
		return nil
	}
	return g.p.rd(s.obj)[s.off : s.off+s.len*es]
}

func (g *G) mkBytes(b []*Term) Slice {
	cells := make([]Value, len(b))
	for i := range b {
		cells[i] = b[i]
	}
	return Slice{obj: g.newObj(cells, "bytes"), len: len(b), cap: len(b)}
}

// ---- slicing ----

func (k *compiler) sliceInstr(in *ssa.Slice, dst int) func(fr *frame) {
	x := k.op(in.X)
	pos := in.Pos()
	var lo, hi, mx *opnd
	var lot, hit, mxt types.Type
	if in.Low != nil {
		o := k.op(in.Low)
		lo, lot = &o, in.Low.Type()
	}
	if in.High != nil {
		o := k.op(in.High)
		hi, hit = &o, in.High.Type()
	}
	if in.Max != nil {
		o := k.op(in.Max)
		mx, mxt = &o, in.Max.Type()
	}
	var es int
	kind := 0
	var an int
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		es = k.e.sizeof(u.Elem())
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		es = k.e.sizeof(a.Elem())
		an = int(a.Len())
		kind = 1
	default:
		kind = 2
	}
	return func(fr *frame) {
		fr.curPos = pos
		g := fr.g
		var s Slice
		var str Str
		capn := 0
		ln := 0
		switch kind {
		case 0:
			s = x.get(fr).(Slice)
			capn, ln = s.cap, s.len
		case 1:
			p, ok := x.get(fr).(Ptr)
			if !ok {
				p = g.fixPtr(x.get(fr).(SymPtr))
			}
			if p.obj == nil {
				g.nilDeref()
			}
			s = Slice{p.obj, p.off, an, an}
			capn, ln = an, an
		case 2:
			str = x.get(fr).(Str)
			capn = str.len()
			ln = capn
		}
		get := func(o *opnd, t types.Type, def int, max int) int {
			if o == nil {
				return def
			}
			v := g.to64(o.get(fr).(*Term), t)
			if v.isConst() {
				if v.val > uint64(max) {
					g.rtPanic(fmt.Sprintf("slice bounds out of range [%d] with capacity %d", int64(v.val), max))
				}
				return int(v.val)
			}
			if !g.p.branch(g.p.tc.Ule(v, BV(64, uint64(max)))) {
				g.rtPanic("slice bounds out of range")
			}
			return int(g.conc(v))
		}
		m := get(mx, mxt, capn, capn)
		h := get(hi, hit, ln, m)
		l := get(lo, lot, 0, h)
		if l > h || h > m {
			g.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if kind == 2 {
			fr.regs[dst] = str.sub(l, h)
			return
		}
		fr.regs[dst] = Slice{s.obj, s.off + l*es, h - l, m - l}
	}
}

// ---- type assertions ----

func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := e.impl[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	e.impl[k] = r
	return r
}

func (k *compiler) typeAssert(in *ssa.TypeAssert, dst int) func(fr *frame) {
	x := k.op(in.X)
	pos := in.Pos()
	at := in.AssertedType
	it, isI := at.Underlying().(*types.Interface)
	commaOk := in.CommaOk
	xt := in.X.Type()
	return func(fr *frame) {
		v, isIface := x.get(fr).(Iface)
		if !isIface {
			fr.g.unsupported("type assertion on %T", x.get(fr))
		}
		ok := false
		var r Value
		if v.t != nil {
			if isI {
				if fr.g.e.implements(v.t, it) {
					ok, r = true, v
				}
			} else if identical(v.t, at) {
				ok, r = true, v.v
			}
		}
		if !ok {
			if !commaOk {
				fr.curPos = pos
				if v.t == nil {
					fr.g.rtPanic(fmt.Sprintf("interface conversion: interface is nil, not %s", at))
				}
				fr.g.rtPanic(fmt.Sprintf("interface conversion: %s is %s, not %s", xt, v.t, at))
			}
			r = fr.g.e.zeroValue(at)
		}
		if commaOk {
			fr.regs[dst] = Tuple{r, BoolT(ok)}
		} else {
			fr.regs[dst] = r
		}
	}
}

// ---- calls ----

// call compiles a call to a closure returning the result.
func (k *compiler) call(c *ssa.CallCommon, pos token.Pos) func(fr *frame) Value {
	args := k.ops(c.Args)
	if c.IsInvoke() {
		recv := k.op(c.Value)
		m := c.Method
		return func(fr *frame) Value {
			r, ok := recv.get(fr).(Iface)
			if !ok {
				fr.g.unsupported("invoke on %T", recv.get(fr))
			}
			if r.t == nil {
				fr.g.nilDeref()
			}
			fn := fr.g.e.method(r.t, m)
			if fn == nil {
				fr.g.unsupported("no method %s on %s", m.Name(), r.t)
			}
			as := make([]Value, len(args)+1)
			as[0] = r.v
			for i := range args {
				as[i+1] = args[i].get(fr)
			}
			return fr.g.call(fn, as, nil)
		}
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return k.builtin(f, c, args)
	case *ssa.Function:
		var cc *cfn
		return func(fr *frame) Value {
			as := make([]Value, len(args))
			for i := range args {
				as[i] = args[i].get(fr)
			}
			if cc == nil {
				cc = fr.g.e.compiled(f)
			}
			return fr.g.callC(cc, as, nil)
		}
	}
	fo := k.op(c.Value)
	return func(fr *frame) Value {
		as := make([]Value, len(args))
		for i := range args {
			as[i] = args[i].get(fr)
		}
		cl, ok := fo.get(fr).(*Closure)
		if !ok {
			fr.g.unsupported("call of %T", fo.get(fr))
		}
		return fr.g.callClosure(cl, as)
	}
}

// prepCall evaluates the callee and arguments now and returns the deferred invocation.
func (k *compiler) prepCall(c *ssa.CallCommon) func(fr *frame) func(g *G) {
	args := k.ops(c.Args)
	eval := func(fr *frame) []Value {
		as := make([]Value, len(args))
		for i := range args {
			as[i] = args[i].get(fr)
		}
		return as
	}
	if c.IsInvoke() {
		recv := k.op(c.Value)
		m := c.Method
		return func(fr *frame) func(g *G) {
			r := recv.get(fr).(Iface)
			if r.t == nil {
				fr.g.nilDeref()
			}
			fn := fr.g.e.method(r.t, m)
			as := append([]Value{r.v}, eval(fr)...)
			return func(g *G) { g.call(fn, as, nil) }
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		// Evaluate args now; run builtin later against a scratch frame.
		fb := k.builtinV(b, c)
		return func(fr *frame) func(g *G) {
			as := eval(fr)
			return func(g *G) { fb(fr, as) }
		}
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		return func(fr *frame) func(g *G) {
			as := eval(fr)
			return func(g *G) { g.call(f, as, nil) }
		}
	}
	fo := k.op(c.Value)
	return func(fr *frame) func(g *G) {
		as := eval(fr)
		cl := fo.get(fr).(*Closure)
		return func(g *G) { g.callClosure(cl, as) }
	}
}

// method resolves a dynamic method.
func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m.Name(), m.Pkg()}
	if f, ok := e.mcache[k]; ok {
		return f
	}
	f := e.l.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.mcache[k] = f
	return f
}

// methodByName finds an exported method by name.
func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	ms := e.l.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.l.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// ---- builtins ----

func (k *compiler) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []opnd) func(fr *frame) Value {
	f := k.builtinV(b, c)
	return func(fr *frame) Value {
		var buf [4]Value
		as := buf[:0]
		for i := range args {
			as = append(as, args[i].get(fr))
		}
		return f(fr, as)
	}
}

func (k *compiler) builtinV(b *ssa.Builtin, c *ssa.CallCommon) func(fr *frame, a []Value) Value {
	e := k.e
	switch b.Name() {
	case "append":
		st := c.Args[0].Type().Underlying()
		sl, ok := st.(*types.Slice)
		if !ok {
			return func(fr *frame, a []Value) Value { fr.g.unsupported("append to %v", st); return nil }
		}
		et := sl.Elem()
		es := e.sizeof(et)
		repo := k.c.repo
		return func(fr *frame, a []Value) Value {
			if len(a) == 1 {
				return a[0]
			}
			return fr.g.appendSlice(a[0].(Slice), a[1], et, es, repo)
		}
	case "copy":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		es := e.sizeof(et)
		return func(fr *frame, a []Value) Value {
			return BV(64, uint64(fr.g.copySlice(a[0].(Slice), a[1], es)))
		}
	case "len":
		return func(fr *frame, a []Value) Value {
			switch x := a[0].(type) {
			case Str:
				return BV(64, uint64(x.len()))
			case Slice:
				return BV(64, uint64(x.len))
			case *MapVal:
				return BV(64, uint64(fr.g.mapLen(x)))
			case *ChanVal:
				if x == nil {
					return BV(64, 0)
				}
				return BV(64, uint64(len(fr.g.p.ch(x).buf)))
			case Ptr, Agg:
				t := c.Args[0].Type().Underlying()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem().Underlying()
				}
				return BV(64, uint64(t.(*types.Array).Len()))
			}
			fr.g.unsupported("len %T", a[0])
			return nil
		}
	case "cap":
		return func(fr *frame, a []Value) Value {
			switch x := a[0].(type) {
			case Slice:
				return BV(64, uint64(x.cap))
			case *ChanVal:
				if x == nil {
					return BV(64, 0)
				}
				return BV(64, uint64(x.cap))
			case Ptr, Agg:
				t := c.Args[0].Type().Underlying()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem().Underlying()
				}
				return BV(64, uint64(t.(*types.Array).Len()))
			}
			fr.g.unsupported("cap %T", a[0])
			return nil
		}
	case "close":
		return func(fr *frame, a []Value) Value { fr.g.closeChan(fr.g.p.ch(a[0])); return nil }
	case "delete":
		return func(fr *frame, a []Value) Value { fr.g.mapDelete(a[0].(*MapVal), a[1]); return nil }
	case "clear":
		return func(fr *frame, a []Value) Value {
			switch x := a[0].(type) {
			case *MapVal:
				fr.g.mapClear(x)
			case Slice:
				et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
				z := e.zeroCells(et)
				if x.len > 0 {
					w := fr.g.p.wr(x.obj)
					for i := 0; i < x.len; i++ {
						copy(w[x.off+i*len(z):], z)
					}
				}
			}
			return nil
		}
	case "print", "println":
		return func(fr *frame, a []Value) Value { return nil }
	case "panic":
		return func(fr *frame, a []Value) Value {
			panic(&targetPanic{v: a[0], where: fr.g.where()})
		}
	case "recover":
		return func(fr *frame, a []Value) Value {
			cl := fr.caller
			if cl != nil && !fr.panicking && cl.panicking {
				cl.panicking = false
				tp := cl.panic.(*targetPanic)
				cl.panic = nil
				return tp.v
			}
			return Iface{}
		}
	case "min", "max":
		mx := b.Name() == "max"
		_, signed := intInfo(c.Args[0].Type())
		return func(fr *frame, a []Value) Value {
			r := a[0]
			for _, v := range a[1:] {
				switch x := v.(type) {
				case *Term:
					tc := fr.g.p.tc
					y := r.(*Term)
					var lt *Term
					if signed {
						lt = tc.Slt(x, y)
					} else {
						lt = tc.Ult(x, y)
					}
					if mx {
						r = tc.Ite(lt, y, x)
					} else {
						r = tc.Ite(lt, x, y)
					}
				case float64:
					if mx {
						r = math.Max(r.(float64), x)
					} else {
						r = math.Min(r.(float64), x)
					}
				default:
					fr.g.unsupported("min/max %T", v)
				}
			}
			return r
		}
	case "real":
		return func(fr *frame, a []Value) Value { return real(a[0].(complex128)) }
	case "imag":
		return func(fr *frame, a []Value) Value { return imag(a[0].(complex128)) }
	case "complex":
		return func(fr *frame, a []Value) Value { return complex(a[0].(float64), a[1].(float64)) }
	case "ssa:wrapnilchk":
		return func(fr *frame, a []Value) Value {
			if p, ok := a[0].(Ptr); ok && p.obj == nil {
				fr.g.rtPanic("value method called using nil pointer")
			}
			return a[0]
		}
	case "String": // unsafe.String
		return func(fr *frame, a []Value) Value {
			n := int(fr.g.conc(a[1].(*Term)))
			if n == 0 {
				return Str{}
			}
			p := a[0].(Ptr)
			return mkStr(fr.g.sliceBytes(Slice{p.obj, p.off, n, n}))
		}
	case "StringData":
		return func(fr *frame, a []Value) Value {
			s := fr.g.mkBytes(a[0].(Str).bytes())
			return Ptr{s.obj, 0}
		}
	case "Slice": // unsafe.Slice
		return func(fr *frame, a []Value) Value {
			n := int(fr.g.conc(a[1].(*Term)))
			p := a[0].(Ptr)
			if p.obj == nil {
				return Slice{}
			}
			return Slice{p.obj, p.off, n, n}
		}
	case "SliceData":
		return func(fr *frame, a []Value) Value {
			s := a[0].(Slice)
			return Ptr{s.obj, s.off}
		}
	}
	name := b.Name()
	return func(fr *frame, a []Value) Value { fr.g.unsupported("builtin %s", name); return nil }
}

func (g *G) copySlice(d Slice, src Value, es int) int {
	switch s := src.(type) {
	case Str:
		n := min(d.len, s.len())
		if n == 0 {
			return 0
		}
		w := g.p.wr(d.obj)
		if g.p.race && !d.obj.foreign {
			g.raceAccess(d.obj, d.off, n, true)
		}
		for i := 0; i < n; i++ {
			w[d.off+i] = s.at(i)
		}
		return n
	case Slice:
		n := min(d.len, s.len)
		if n == 0 {
			return 0
		}
		if g.p.race {
			if !s.obj.foreign {
				g.raceAccess(s.obj, s.off, n*es, false)
			}
			if !d.obj.foreign {
				g.raceAccess(d.obj, d.off, n*es, true)
			}
		}
		w := g.p.wr(d.obj)
		r := g.p.rd(s.obj)
		copy(w[d.off:d.off+n*es], r[s.off:s.off+n*es])
		return n
	}
	g.unsupported("copy from %T", src)
	return 0
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(old, need int, bs int64) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if bs == 0 {
		return nc
	}
	mem := int64(nc) * bs
	for _, c := range sizeClasses {
		if mem <= c {
			return int(c / bs)
		}
	}
	mem = (mem + 8191) / 8192 * 8192
	return int(mem / bs)
}

func (g *G) appendSlice(s Slice, more Value, et types.Type, es int, repo bool) Slice {
	var n int
	var str Str
	var src Slice
	isStr := false
	switch m := more.(type) {
	case Str:
		str, isStr, n = m, true, m.len()
	case Slice:
		src, n = m, m.len
	default:
		g.unsupported("append of %T", more)
	}
	if n == 0 {
		return s
	}
	if s.len+n > s.cap {
		nc := growCap(s.cap, s.len+n, g.byteSize(et))
		cells := make([]Value, nc*es)
		if s.len > 0 {
			if g.p.race && !s.obj.foreign {
				g.raceAccess(s.obj, s.off, s.len*es, false)
			}
			copy(cells, g.p.rd(s.obj)[s.off:s.off+s.len*es])
		}
		z := g.e.zeroCells(et)
		if es == 1 {
			for i := s.len; i < nc; i++ {
				cells[i] = z[0]
			}
		} else if es > 0 {
			for i := s.len; i < nc; i++ {
				copy(cells[i*es:], z)
			}
		}
		o := g.newObj(cells, "append")
		o.foreign = !repo
		s = Slice{o, 0, s.len, nc}
	}
	w := g.p.wr(s.obj)
	base := s.off + s.len*es
	if g.p.race && !s.obj.foreign {
		g.raceAccess(s.obj, base, n*es, true)
	}
	if isStr {
		for i := 0; i < n; i++ {
			w[base+i] = str.at(i)
		}
	} else if es > 0 {
		copy(w[base:base+n*es], g.p.rd(src.obj)[src.off:src.off+n*es])
	}
	s.len += n
	return s
}
