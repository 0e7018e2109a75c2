package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode/utf8"
)

func derefT(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// keyStr canonicalises a fully concrete key.
func keyStr(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return false
		}
		fmt.Fprintf(sb, "i%x;", x.val)
	case Str:
		if x.b != nil {
			return false
		}
		fmt.Fprintf(sb, "s%d:%s;", len(x.c), x.c)
	case Ptr:
		if x.obj == nil {
			sb.WriteString("p0;")
		} else {
			fmt.Fprintf(sb, "p%d.%d;", x.obj.id, x.off)
		}
	case Agg:
		for _, c := range x {
			if !keyStr(c, sb) {
				return false
			}
		}
	case Iface:
		if x.t == nil {
			sb.WriteString("n;")
			return true
		}
		sb.WriteString("I" + x.t.String() + ";")
		return keyStr(x.v, sb)
	case float64:
		fmt.Fprintf(sb, "f%v;", x)
	case *ChanVal:
		if x == nil {
			sb.WriteString("c0;")
		} else {
			fmt.Fprintf(sb, "c%d;", x.id)
		}
	case RType:
		sb.WriteString("T" + x.t.String() + ";")
	case nil:
		sb.WriteString("nil;")
	default:
		return false
	}
	return true
}

func (g *G) newMap(kt types.Type) *MapVal {
	g.p.nobj++
	m := &MapVal{index: map[string]int{}, id: g.p.nobj, kt: kt}
	if g.e.initing {
		g.p.initMaps = append(g.p.initMaps, m)
	}
	return m
}

func (p *Path) mapR(m *MapVal) *MapVal {
	if m.shared {
		if c, ok := p.ovm[m]; ok {
			return c
		}
	}
	return m
}

func (p *Path) mapW(m *MapVal) *MapVal {
	if !m.shared {
		return m
	}
	if c, ok := p.ovm[m]; ok {
		return c
	}
	c := &MapVal{keys: append([]Value(nil), m.keys...), vals: append([]Value(nil), m.vals...), live: append([]bool(nil), m.live...),
		n: m.n, index: map[string]int{}, symKey: m.symKey, id: m.id, kt: m.kt}
	for k, v := range m.index {
		c.index[k] = v
	}
	if p.ovm == nil {
		p.ovm = map[*MapVal]*MapVal{}
	}
	p.ovm[m] = c
	return c
}

// find returns the slot of key or -1, forking on symbolic equality.
func (g *G) find(m *MapVal, key Value) int {
	if i, ok := key.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		g.rtPanic("hash of unhashable type " + i.t.String())
	}
	var sb strings.Builder
	conc := keyStr(key, &sb)
	if conc {
		if i, ok := m.index[sb.String()]; ok && m.live[i] {
			return i
		}
		if !m.symKey {
			return -1
		}
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		c := g.eq(m.keys[i], key)
		if c == False {
			continue
		}
		if g.p.branch(c) {
			return i
		}
	}
	return -1
}

func (g *G) mapLookup(m0 *MapVal, key Value) (Value, bool) {
	if m0 == nil {
		return nil, false
	}
	g.raceMap(m0, false)
	m := g.p.mapR(m0)
	i := g.find(m, key)
	if i < 0 {
		return nil, false
	}
	return m.vals[i], true
}

func (g *G) mapLen(m0 *MapVal) int {
	if m0 == nil {
		return 0
	}
	g.raceMap(m0, false)
	return g.p.mapR(m0).n
}

func (g *G) mapUpdate(m0 *MapVal, key, val Value) {
	if m0 == nil {
		g.rtPanic("assignment to entry in nil map")
	}
	g.raceMap(m0, true)
	i := g.find(g.p.mapR(m0), key)
	m := g.p.mapW(m0)
	if i >= 0 {
		m.vals[i] = val
		return
	}
	var sb strings.Builder
	if keyStr(key, &sb) {
		m.index[sb.String()] = len(m.keys)
	} else {
		m.symKey = true
	}
	m.keys = append(m.keys, key)
	m.vals = append(m.vals, val)
	m.live = append(m.live, true)
	m.n++
}

func (g *G) mapDelete(m0 *MapVal, key Value) {
	if m0 == nil {
		return
	}
	g.raceMap(m0, true)
	i := g.find(g.p.mapR(m0), key)
	if i < 0 {
		return
	}
	m := g.p.mapW(m0)
	m.live[i] = false
	m.n--
	var sb strings.Builder
	if keyStr(m.keys[i], &sb) {
		delete(m.index, sb.String())
	}
}

func (g *G) mapClear(m0 *MapVal) {
	if m0 == nil {
		return
	}
	g.raceMap(m0, true)
	m := g.p.mapW(m0)
	m.keys, m.vals, m.live, m.n, m.index, m.symKey = nil, nil, nil, 0, map[string]int{}, false
}

type iter struct {
	m     *MapVal
	order []int
	pos   int
	s     Str
}

func (g *G) rangeIter(v Value) *iter {
	switch x := v.(type) {
	case Str:
		return &iter{s: x}
	case *MapVal:
		it := &iter{m: x}
		if x != nil {
			g.raceMap(x, false)
			m := g.p.mapR(x)
			for i := range m.keys {
				if m.live[i] {
					it.order = append(it.order, i)
				}
			}
			// Go's iteration order is unspecified: optionally explore rotations and reversal.
			if n := len(it.order); n > 1 && g.p.mapAll && !x.foreign {
				r := g.p.choose(n, fmt.Sprintf("maporder#%d", g.p.nsched))
				g.p.nsched++
				it.order = append(append([]int(nil), it.order[r:]...), it.order[:r]...)
			}
		}
		return it
	}
	g.unsupported("range over %T", v)
	return nil
}

func (g *G) next(it *iter, isStr bool, tt *types.Tuple) Value {
	zero := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return g.e.zeroValue(t)
	}
	if isStr {
		if it.pos >= it.s.len() {
			return Tuple{False, BV(64, 0), BV(32, 0)}
		}
		i := it.pos
		t := it.s.at(i)
		if !t.isConst() {
			if !g.p.branch(g.p.tc.Ult(t, BV(8, 0x80))) {
				// concretise a multi-byte sequence
				n := min(4, it.s.len()-i)
				b := make([]byte, 0, 4)
				for j := 0; j < n; j++ {
					b = append(b, byte(g.conc(it.s.at(i+j))))
					if utf8.FullRune(b) {
						break
					}
				}
				r, sz := utf8.DecodeRune(b)
				it.pos += sz
				return Tuple{True, BV(64, uint64(i)), BV(32, uint64(r))}
			}
			it.pos++
			return Tuple{True, BV(64, uint64(i)), g.p.tc.ZExt(t, 32)}
		}
		if t.val < 0x80 {
			it.pos++
			return Tuple{True, BV(64, uint64(i)), BV(32, t.val)}
		}
		n := min(4, it.s.len()-i)
		b := make([]byte, 0, 4)
		for j := 0; j < n; j++ {
			b = append(b, byte(g.conc(it.s.at(i+j))))
		}
		r, sz := utf8.DecodeRune(b)
		it.pos += sz
		return Tuple{True, BV(64, uint64(i)), BV(32, uint64(r))}
	}
	if it.m != nil {
		g.raceMap(it.m, false)
		m := g.p.mapR(it.m)
		for it.pos < len(it.order) {
			i := it.order[it.pos]
			it.pos++
			if i < len(m.live) && m.live[i] {
				return Tuple{True, m.keys[i], m.vals[i]}
			}
		}
	}
	return Tuple{False, zero(1), zero(2)}
}
