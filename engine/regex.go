package main

import (
	"regexp"
	"sync"
)

// Regular expressions are run by the host on concrete texts.
var regexps sync.Map // *Obj -> *regexp.Regexp

func regRegexp(reg func(f natFn, names ...string)) {
	compile := func(g *G, a []Value) (Value, error) {
		re, err := regexp.Compile(g.cstr(a[0]))
		if err != nil {
			return Ptr{}, err
		}
		o := g.newObj(append([]Value(nil), g.e.zeroCells(g.typeByName("regexp", "Regexp"))...), "regexp")
		regexps.Store(o, re)
		return Ptr{o, 0}, nil
	}
	reg(func(g *G, a []Value) Value {
		v, err := compile(g, a)
		if err != nil {
			g.panicStr(err.Error())
		}
		return v
	}, "regexp.MustCompile")
	reg(func(g *G, a []Value) Value {
		v, err := compile(g, a)
		if err != nil {
			g.unsupported("regexp.Compile: %v", err)
		}
		return Tuple{v, Iface{}}
	}, "regexp.Compile")
	re := func(g *G, v Value) *regexp.Regexp {
		r, ok := regexps.Load(g.ptrAt(v).obj)
		if !ok {
			g.unsupported("regexp")
		}
		return r.(*regexp.Regexp)
	}
	m := "(*regexp.Regexp)."
	strs := func(g *G, ss []string) Value {
		if ss == nil {
			return Slice{}
		}
		cells := make([]Value, len(ss))
		for i, s := range ss {
			cells[i] = Str{c: s}
		}
		return Slice{obj: g.newObj(cells, "strings"), len: len(ss), cap: len(ss)}
	}
	reg(func(g *G, a []Value) Value { return tb(re(g, a[0]).MatchString(g.cstr(a[1]))) }, m+"MatchString")
	reg(func(g *G, a []Value) Value { return Str{c: re(g, a[0]).FindString(g.cstr(a[1]))} }, m+"FindString")
	reg(func(g *G, a []Value) Value { return strs(g, re(g, a[0]).FindStringSubmatch(g.cstr(a[1]))) }, m+"FindStringSubmatch")
	reg(func(g *G, a []Value) Value {
		return strs(g, re(g, a[0]).FindAllString(g.cstr(a[1]), int(int64(g.conc(a[2].(*Term))))))
	}, m+"FindAllString")
	reg(func(g *G, a []Value) Value {
		return strs(g, re(g, a[0]).Split(g.cstr(a[1]), int(int64(g.conc(a[2].(*Term))))))
	}, m+"Split")
	reg(func(g *G, a []Value) Value {
		return Str{c: re(g, a[0]).ReplaceAllString(g.cstr(a[1]), g.cstr(a[2]))}
	}, m+"ReplaceAllString")
	ints := func(g *G, xs []int) Value {
		if xs == nil {
			return Slice{}
		}
		cells := make([]Value, len(xs))
		for i, x := range xs {
			cells[i] = BV(64, uint64(int64(x)))
		}
		return Slice{obj: g.newObj(cells, "ints"), len: len(xs), cap: len(xs)}
	}
	reg(func(g *G, a []Value) Value { return ints(g, re(g, a[0]).FindStringSubmatchIndex(g.cstr(a[1]))) }, m+"FindStringSubmatchIndex")
	reg(func(g *G, a []Value) Value { return ints(g, re(g, a[0]).FindStringIndex(g.cstr(a[1]))) }, m+"FindStringIndex")
	reg(func(g *G, a []Value) Value { return BV(64, uint64(re(g, a[0]).NumSubexp())) }, m+"NumSubexp")
	reg(func(g *G, a []Value) Value { return Str{c: re(g, a[0]).String()} }, m+"String")
}
