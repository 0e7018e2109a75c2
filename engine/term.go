package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // val = hi<<8|lo
	OSExt
)

// Term is a bit-vector (w>0) or boolean (w==0) term.
type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64
	id      int32
	name    string
}

var (
	True  = &Term{op: OConst, w: 0, val: 1, id: -1}
	False = &Term{op: OConst, w: 0, val: 0, id: -2}
)

const smallN = 1024

var smallConst [65][]*Term

func init() {
	for _, w := range []int{8, 16, 32, 64} {
		n := smallN
		if w == 8 {
			n = 256
		}
		smallConst[w] = make([]*Term, n)
		for i := range smallConst[w] {
			smallConst[w][i] = &Term{op: OConst, w: uint8(w), val: uint64(i), id: int32(-(w*10000 + i + 10))}
		}
	}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

// BV returns a constant.
func BV(w uint8, v uint64) *Term {
	v &= mask(w)
	if s := smallConst[w]; s != nil && v < uint64(len(s)) {
		return s[v]
	}
	return &Term{op: OConst, w: w, val: v}
}

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isBool() bool  { return t.w == 0 }

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
}

// TermCtx hash-conses the terms of one path.
type TermCtx struct {
	tab    map[tkey]*Term
	consts map[tkey]*Term
	vars   []*Term
	next   int32
}

func newTermCtx() *TermCtx {
	return &TermCtx{tab: map[tkey]*Term{}, consts: map[tkey]*Term{}, next: 1}
}

func (x *TermCtx) Var(name string, w uint8) *Term {
	t := &Term{op: OVar, w: w, name: name, id: x.next, val: uint64(len(x.vars))}
	x.next++
	x.vars = append(x.vars, t)
	return t
}

func (x *TermCtx) canon(t *Term) *Term {
	if t == nil {
		return nil
	}
	if t.op == OConst && t.id == 0 {
		k := tkey{op: OConst, w: t.w, val: t.val}
		if u, ok := x.consts[k]; ok {
			return u
		}
		u := &Term{op: OConst, w: t.w, val: t.val, id: x.next}
		x.next++
		x.consts[k] = u
		return u
	}
	return t
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (x *TermCtx) mk(op Op, w uint8, a, b, c *Term, val uint64) *Term {
	a, b, c = x.canon(a), x.canon(b), x.canon(c)
	k := tkey{op, w, tid(a), tid(b), tid(c), val}
	if t, ok := x.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, id: x.next}
	x.next++
	x.tab[k] = t
	return t
}

func same(a, b *Term) bool {
	return a == b || (a.op == OConst && b.op == OConst && a.w == b.w && a.val == b.val)
}

// ---- boolean ----

func (x *TermCtx) Not(a *Term) *Term {
	if a.isConst() {
		return BoolT(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return x.mk(ONot, 0, a, nil, nil, 0)
}

func (x *TermCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return False
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return False
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return False
	}
	return x.mk(OAnd, 0, a, b, nil, 0)
}

func (x *TermCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return True
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return True
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return True
	}
	return x.mk(OOr, 0, a, b, nil, 0)
}

func (x *TermCtx) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.isBool() {
		if a.isConst() && b.isConst() {
			if a.val == 1 {
				return c
			}
			return x.Not(c)
		}
		return x.Or(x.And(c, a), x.And(x.Not(c), b))
	}
	if c.op == ONot {
		return x.mk(OIte, a.w, c.a, b, a, 0)
	}
	return x.mk(OIte, a.w, c, a, b, 0)
}

// ---- segments ----

type seg struct {
	t *Term
	w uint8
}

// segs flattens a term into low-to-high segments.
func segs(t *Term, out []seg) []seg {
	if t.op == OConcat { // a = high, b = low
		out = segs(t.b, out)
		return segs(t.a, out)
	}
	return append(out, seg{t, t.w})
}

func (x *TermCtx) fromSegs(ss []seg) *Term {
	// merge adjacent
	var m []seg
	for _, s := range ss {
		if len(m) > 0 {
			l := &m[len(m)-1]
			if l.t.isConst() && s.t.isConst() && int(l.w)+int(s.w) <= 64 {
				v := l.t.val | s.t.val<<l.w
				l.w += s.w
				l.t = BV(l.w, v)
				continue
			}
			if l.t.op == OExtract && s.t.op == OExtract && l.t.a == s.t.a {
				h1 := l.t.val >> 8
				l1 := l.t.val & 255
				h2 := s.t.val >> 8
				l2 := s.t.val & 255
				if l2 == h1+1 {
					l.t = x.Extract(l.t.a, uint8(h2), uint8(l1))
					l.w += s.w
					continue
				}
			}
		}
		m = append(m, s)
	}
	t := m[0].t
	for _, s := range m[1:] {
		t = x.mk(OConcat, t.w+s.w, s.t, t, nil, 0)
	}
	return t
}

func (x *TermCtx) Concat(hi, lo *Term) *Term {
	return x.fromSegs(segs(hi, segs(lo, nil)))
}

func (x *TermCtx) Extract(t *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return BV(w, t.val>>lo)
	case OExtract:
		l := uint8(t.val & 255)
		return x.Extract(t.a, hi+l, lo+l)
	case OConcat:
		ss := segs(t, nil)
		var out []seg
		pos := uint8(0)
		for _, s := range ss {
			a, b := pos, pos+s.w-1 // inclusive
			pos += s.w
			if b < lo || a > hi {
				continue
			}
			l, h := uint8(0), s.w-1
			if lo > a {
				l = lo - a
			}
			if hi < b {
				h = hi - a
			}
			e := x.Extract(s.t, h, l)
			out = append(out, segs(e, nil)...)
		}
		return x.fromSegs(out)
	case OIte:
		if t.b.isConst() || t.c.isConst() {
			return x.Ite(t.a, x.Extract(t.b, hi, lo), x.Extract(t.c, hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		a, b := x.Extract(t.a, hi, lo), x.Extract(t.b, hi, lo)
		switch t.op {
		case OBAnd:
			return x.BAnd(a, b)
		case OBOr:
			return x.BOr(a, b)
		default:
			return x.BXor(a, b)
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			a, b := x.Extract(t.a, hi, 0), x.Extract(t.b, hi, 0)
			return x.Bin(t.op, a, b)
		}
	case OSExt:
		if hi < t.a.w {
			return x.Extract(t.a, hi, lo)
		}
	}
	return x.mk(OExtract, w, t, nil, nil, uint64(hi)<<8|uint64(lo))
}

func (x *TermCtx) ZExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return x.Extract(t, w-1, 0)
	}
	if t.isConst() {
		return BV(w, t.val)
	}
	return x.Concat(BV(w-t.w, 0), t)
}

func (x *TermCtx) SExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return x.Extract(t, w-1, 0)
	}
	if t.isConst() {
		return BV(w, uint64(sx(t.val, t.w)))
	}
	// known-zero sign bit
	if hiZero(t) > 0 {
		return x.ZExt(t, w)
	}
	return x.mk(OSExt, w, t, nil, nil, 0)
}

// hiZero returns the number of known-zero high bits.
func hiZero(t *Term) uint8 {
	switch t.op {
	case OConst:
		return uint8(bits.LeadingZeros64(t.val)) - (64 - t.w)
	case OConcat:
		ss := segs(t, nil)
		n := uint8(0)
		for i := len(ss) - 1; i >= 0; i-- {
			z := hiZero(ss[i].t)
			n += z
			if z < ss[i].w {
				break
			}
		}
		return n
	case OIte:
		b, c := hiZero(t.b), hiZero(t.c)
		if b < c {
			return b
		}
		return c
	case OBAnd:
		b, c := hiZero(t.a), hiZero(t.b)
		if b > c {
			return b
		}
		return c
	case OBOr, OBXor:
		b, c := hiZero(t.a), hiZero(t.b)
		if b < c {
			return b
		}
		return c
	case OURem:
		if t.b.isConst() && t.b.val > 0 {
			return uint8(bits.LeadingZeros64(t.b.val-1)) - (64 - t.w)
		}
	case OUDiv:
		return hiZero(t.a)
	}
	return 0
}

func isZero(t *Term) bool { return t.op == OConst && t.val == 0 }
func isOnes(t *Term) bool { return t.op == OConst && t.val == mask(t.w) }

// bitwise cut both at common boundaries; ok false if some segment has two nontrivial operands.
func (x *TermCtx) bitwise(op Op, a, b *Term) (*Term, bool) {
	if a.op != OConcat && b.op != OConcat && !a.isConst() && !b.isConst() {
		return nil, false
	}
	var cuts [66]bool
	p := uint8(0)
	for _, s := range segs(a, nil) {
		p += s.w
		cuts[p] = true
	}
	p = 0
	for _, s := range segs(b, nil) {
		p += s.w
		cuts[p] = true
	}
	// for constants, also cut at byte boundaries of runs
	for _, cst := range []*Term{a, b} {
		if cst.isConst() {
			for i := uint8(1); i < cst.w; i++ {
				if (cst.val>>i)&1 != (cst.val>>(i-1))&1 {
					cuts[i] = true
				}
			}
		}
	}
	var out []seg
	lo := uint8(0)
	for i := uint8(1); i <= a.w; i++ {
		if !cuts[i] {
			continue
		}
		sa, sb := x.Extract(a, i-1, lo), x.Extract(b, i-1, lo)
		lo = i
		var r *Term
		switch op {
		case OBOr:
			if isZero(sa) {
				r = sb
			} else if isZero(sb) {
				r = sa
			} else if isOnes(sa) || isOnes(sb) {
				r = BV(sa.w, mask(sa.w))
			}
		case OBAnd:
			if isZero(sa) || isZero(sb) {
				r = BV(sa.w, 0)
			} else if isOnes(sa) {
				r = sb
			} else if isOnes(sb) {
				r = sa
			}
		case OBXor:
			if isZero(sa) {
				r = sb
			} else if isZero(sb) {
				r = sa
			}
		}
		if r == nil {
			if same(sa, sb) {
				if op == OBXor {
					r = BV(sa.w, 0)
				} else {
					r = sa
				}
			} else {
				return nil, false
			}
		}
		out = append(out, segs(r, nil)...)
	}
	return x.fromSegs(out), true
}

func (x *TermCtx) BOr(a, b *Term) *Term  { return x.Bin(OBOr, a, b) }
func (x *TermCtx) BAnd(a, b *Term) *Term { return x.Bin(OBAnd, a, b) }
func (x *TermCtx) BXor(a, b *Term) *Term { return x.Bin(OBXor, a, b) }

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	switch op {
	case OAdd:
		return (a + b) & mask(w)
	case OSub:
		return (a - b) & mask(w)
	case OMul:
		return (a * b) & mask(w)
	case OUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		sa, sb := sx(a, w), sx(b, w)
		if sb == 0 {
			if sa >= 0 {
				return mask(w)
			}
			return 1
		}
		if sb == -1 {
			return uint64(-sa) & mask(w)
		}
		return uint64(sa/sb) & mask(w)
	case OSRem:
		sa, sb := sx(a, w), sx(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & mask(w)
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		s := sx(a, w)
		if b >= uint64(w) {
			b = 63
		}
		return uint64(s>>b) & mask(w)
	}
	panic("evalBin")
}

// Bin builds a binary bit-vector operation.
func (x *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return BV(w, evalBin(op, w, a.val, b.val))
	}
	switch op {
	case OAdd:
		if isZero(a) {
			return b
		}
		if isZero(b) {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && a.op == OAdd && a.b.isConst() {
			return x.Bin(OAdd, a.a, BV(w, a.b.val+b.val))
		}
	case OSub:
		if isZero(b) {
			return a
		}
		if same(a, b) {
			return BV(w, 0)
		}
		if b.isConst() {
			return x.Bin(OAdd, a, BV(w, -b.val))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if b.val&(b.val-1) == 0 {
				return x.Bin(OShl, a, BV(w, uint64(bits.TrailingZeros64(b.val))))
			}
		}
	case OUDiv:
		if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
			return x.Bin(OLShr, a, BV(w, uint64(bits.TrailingZeros64(b.val))))
		}
	case OURem:
		if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
			return x.Bin(OBAnd, a, BV(w, b.val-1))
		}
	case OSDiv, OSRem:
		if hiZero(a) > 0 && hiZero(b) > 0 {
			if op == OSDiv {
				return x.Bin(OUDiv, a, b)
			}
			return x.Bin(OURem, a, b)
		}
	case OBOr, OBAnd, OBXor:
		if same(a, b) {
			if op == OBXor {
				return BV(w, 0)
			}
			return a
		}
		if r, ok := x.bitwise(op, a, b); ok {
			return r
		}
		if a.isConst() {
			a, b = b, a
		}
	case OShl:
		if isZero(a) {
			return a
		}
		if b.isConst() {
			if b.val >= uint64(w) {
				return BV(w, 0)
			}
			if b.val == 0 {
				return a
			}
			n := uint8(b.val)
			return x.Concat(x.Extract(a, w-1-n, 0), BV(n, 0))
		}
	case OLShr:
		if isZero(a) {
			return a
		}
		if b.isConst() {
			if b.val >= uint64(w) {
				return BV(w, 0)
			}
			if b.val == 0 {
				return a
			}
			n := uint8(b.val)
			return x.ZExt(x.Extract(a, w-1, n), w)
		}
	case OAShr:
		if hiZero(a) > 0 {
			return x.Bin(OLShr, a, b)
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && b.val < uint64(w) {
			n := uint8(b.val)
			return x.SExt(x.Extract(a, w-1, n), w)
		}
	}
	return x.mk(op, w, a, b, nil, 0)
}

func (x *TermCtx) BNot(a *Term) *Term {
	if a.isConst() {
		return BV(a.w, ^a.val)
	}
	if a.op == OBNot {
		return a.a
	}
	return x.mk(OBNot, a.w, a, nil, nil, 0)
}

func (x *TermCtx) Neg(a *Term) *Term {
	if a.isConst() {
		return BV(a.w, -a.val)
	}
	return x.mk(ONeg, a.w, a, nil, nil, 0)
}

func (x *TermCtx) Eq(a, b *Term) *Term {
	if same(a, b) {
		return True
	}
	if a.isConst() && b.isConst() {
		return BoolT(a.val == b.val)
	}
	if a.isBool() {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return x.Not(a)
		}
		if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
			return False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return x.mk(OEq, 0, a, b, nil, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OConcat:
			ss := segs(a, nil)
			r := True
			p := uint8(0)
			for _, s := range ss {
				r = x.And(r, x.Eq(s.t, BV(s.w, b.val>>p)))
				if r == False {
					return False
				}
				p += s.w
			}
			return r
		case OAdd:
			if a.b.isConst() {
				return x.Eq(a.a, BV(a.w, b.val-a.b.val))
			}
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return x.Ite(a.a, x.Eq(a.b, b), x.Eq(a.c, b))
			}
		case OSExt:
			iw := a.a.w
			if uint64(sx(b.val&mask(iw), iw))&mask(a.w) != b.val {
				return False
			}
			return x.Eq(a.a, BV(iw, b.val))
		case OBXor:
			if a.b.isConst() {
				return x.Eq(a.a, BV(a.w, b.val^a.b.val))
			}
		}
	} else if a.op == OConcat || b.op == OConcat {
		sa, sb := segs(a, nil), segs(b, nil)
		// split at common boundaries
		var ca, cb [66]bool
		p := uint8(0)
		for _, s := range sa {
			p += s.w
			ca[p] = true
		}
		p = 0
		for _, s := range sb {
			p += s.w
			cb[p] = true
		}
		n := 0
		for i := range ca {
			if ca[i] && cb[i] {
				n++
			}
		}
		if n > 1 {
			r := True
			lo := uint8(0)
			for i := uint8(1); i <= a.w; i++ {
				if ca[i] && cb[i] {
					r = x.And(r, x.Eq(x.Extract(a, i-1, lo), x.Extract(b, i-1, lo)))
					if r == False {
						return False
					}
					lo = i
				}
			}
			return r
		}
	}
	if !a.isConst() && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return x.mk(OEq, 0, a, b, nil, 0)
}

func (x *TermCtx) Ult(a, b *Term) *Term {
	if same(a, b) {
		return False
	}
	if a.isConst() && b.isConst() {
		return BoolT(a.val < b.val)
	}
	if isZero(b) {
		return False
	}
	if isZero(a) {
		return x.Not(x.Eq(b, a))
	}
	if b.isConst() && b.val == 1 {
		return x.Eq(a, BV(a.w, 0))
	}
	if isOnes(a) {
		return False
	}
	za, zb := hiZero(a), hiZero(b)
	if b.isConst() {
		if za > 0 && za < a.w && b.val > mask(a.w-za) {
			return True
		}
	}
	if a.isConst() {
		if zb > 0 && zb < b.w && a.val >= mask(b.w-zb) {
			return False
		}
	}
	m := za
	if zb < m {
		m = zb
	}
	if m > 0 && m < a.w {
		return x.Ult(x.Extract(a, a.w-1-m, 0), x.Extract(b, a.w-1-m, 0))
	}
	return x.mk(OUlt, 0, a, b, nil, 0)
}

func (x *TermCtx) Ule(a, b *Term) *Term { return x.Not(x.Ult(b, a)) }

func (x *TermCtx) Slt(a, b *Term) *Term {
	if same(a, b) {
		return False
	}
	if a.isConst() && b.isConst() {
		return BoolT(sx(a.val, a.w) < sx(b.val, b.w))
	}
	za, zb := hiZero(a) > 0, hiZero(b) > 0
	if za && zb {
		return x.Ult(a, b)
	}
	if b.isConst() && sx(b.val, b.w) < 0 && za {
		return False
	}
	if a.isConst() && sx(a.val, a.w) < 0 && zb {
		return True
	}
	return x.mk(OSlt, 0, a, b, nil, 0)
}
func (x *TermCtx) Sle(a, b *Term) *Term { return x.Not(x.Slt(b, a)) }

// ---- evaluation under a model ----

type Model struct {
	v    []uint64 // by var index
	memo map[*Term]uint64
}

func (m *Model) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if int(t.val) < len(m.v) {
			return m.v[t.val]
		}
		return 0
	}
	if r, ok := m.memo[t]; ok {
		return r
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = 1 - m.eval(t.a)
	case OAnd:
		r = m.eval(t.a)
		if r != 0 {
			r = m.eval(t.b)
		}
	case OOr:
		r = m.eval(t.a)
		if r == 0 {
			r = m.eval(t.b)
		}
	case OEq:
		r = b2u(m.eval(t.a) == m.eval(t.b))
	case OUlt:
		r = b2u(m.eval(t.a) < m.eval(t.b))
	case OUle:
		r = b2u(m.eval(t.a) <= m.eval(t.b))
	case OSlt:
		r = b2u(sx(m.eval(t.a), t.a.w) < sx(m.eval(t.b), t.b.w))
	case OSle:
		r = b2u(sx(m.eval(t.a), t.a.w) <= sx(m.eval(t.b), t.b.w))
	case OIte:
		if m.eval(t.a) != 0 {
			r = m.eval(t.b)
		} else {
			r = m.eval(t.c)
		}
	case OBNot:
		r = ^m.eval(t.a) & mask(t.w)
	case ONeg:
		r = -m.eval(t.a) & mask(t.w)
	case OConcat:
		r = m.eval(t.a)<<t.b.w | m.eval(t.b)
	case OExtract:
		r = m.eval(t.a) >> (t.val & 255) & mask(t.w)
	case OSExt:
		r = uint64(sx(m.eval(t.a), t.a.w)) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, m.eval(t.a), m.eval(t.b))
	}
	m.memo[t] = r
	return r
}

// ---- printing ----

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv",
	OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl",
	OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
}

func (t *Term) smtConst() string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", t.w/4, t.val)
	}
	return fmt.Sprintf("#b%0*b", t.w, t.val)
}

func (t *Term) sort() string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

// String renders a term (debugging).
func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OConst:
		if t.w == 0 {
			sb.WriteString(t.smtConst())
		} else {
			fmt.Fprintf(sb, "%d:%d", t.val, t.w)
		}
		return
	case OVar:
		sb.WriteString(t.name)
		return
	}
	if d == 0 {
		sb.WriteString("...")
		return
	}
	sb.WriteByte('(')
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "ext[%d:%d]", t.val>>8, t.val&255)
	case OSExt:
		fmt.Fprintf(sb, "sext%d", t.w)
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, s := range []*Term{t.a, t.b, t.c} {
		if s != nil {
			sb.WriteByte(' ')
			s.str(sb, d-1)
		}
	}
	sb.WriteByte(')')
}
