package main

import (
	"go/types"
	"reflect"
)

func regReflect(reg func(f natFn, names ...string)) {
	rt := "(*reflect.rtype)."
	rv := "(reflect.Value)."
	ty := func(v Value) types.Type { return v.(RType).t }
	reg(func(g *G, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return g.rtypeIface(i.t)
	}, "reflect.TypeOf", "internal/reflectlite.TypeOf")
	reg(func(g *G, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Agg{nil, Ptr{}, BV(64, 0)}
		}
		return rvAgg(&RVal{t: i.t, v: i.v})
	}, "reflect.ValueOf", "internal/reflectlite.ValueOf")
	reg(func(g *G, a []Value) Value { return i64(int64(kindOf(ty(a[0])))) }, rt+"Kind")
	reg(func(g *G, a []Value) Value { return Str{c: reflect.Kind(g.conc(a[0].(*Term))).String()} }, "(reflect.Kind).String")
	reg(func(g *G, a []Value) Value { return Str{c: typeStr(ty(a[0]))} }, rt+"String")
	reg(func(g *G, a []Value) Value {
		switch n := ty(a[0]).(type) {
		case *types.Named:
			return Str{c: n.Obj().Name()}
		case *types.Basic:
			return Str{c: n.Name()}
		}
		return Str{}
	}, rt+"Name")
	reg(func(g *G, a []Value) Value {
		if n, ok := ty(a[0]).(*types.Named); ok && n.Obj().Pkg() != nil {
			return Str{c: n.Obj().Pkg().Path()}
		}
		return Str{}
	}, rt+"PkgPath")
	reg(func(g *G, a []Value) Value { return i64(int64(ty(a[0]).Underlying().(*types.Struct).NumFields())) }, rt+"NumField")
	reg(func(g *G, a []Value) Value {
		switch u := ty(a[0]).Underlying().(type) {
		case *types.Pointer:
			return g.rtypeIface(u.Elem())
		case *types.Slice:
			return g.rtypeIface(u.Elem())
		case *types.Array:
			return g.rtypeIface(u.Elem())
		case *types.Map:
			return g.rtypeIface(u.Elem())
		}
		g.unsupported("reflect Elem of %v", ty(a[0]))
		return nil
	}, rt+"Elem")
	reg(func(g *G, a []Value) Value { return BV(64, uint64(g.byteSize(ty(a[0])))) }, rt+"Size")
	reg(func(g *G, a []Value) Value { return i64(ty(a[0]).Underlying().(*types.Array).Len()) }, rt+"Len")
	reg(func(g *G, a []Value) Value {
		fi := int(g.conc(a[1].(*Term)))
		f := ty(a[0]).Underlying().(*types.Struct).Field(fi)
		sf := g.typeByName("reflect", "StructField")
		z := append(Agg(nil), g.e.zeroCells(sf)...)
		st := sf.Underlying().(*types.Struct)
		off := g.e.offsets(st)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Name":
				z[off[i]] = Str{c: f.Name()}
			case "Type":
				z[off[i]] = g.rtypeIface(f.Type())
			case "Tag":
				z[off[i]] = Str{c: ty(a[0]).Underlying().(*types.Struct).Tag(fi)}
			case "Anonymous":
				z[off[i]] = tb(f.Embedded())
			case "PkgPath":
				if !f.Exported() && f.Pkg() != nil {
					z[off[i]] = Str{c: f.Pkg().Path()}
				}
			}
		}
		return z
	}, rt+"Field")
	reg(func(g *G, a []Value) Value { return tb(types.Comparable(ty(a[0]))) }, rt+"Comparable")
	reg(func(g *G, a []Value) Value {
		it, ok := ty(a[1].(Iface).v).Underlying().(*types.Interface)
		if !ok {
			g.rtPanic("reflect: non-interface type passed to Type.Implements")
		}
		return tb(types.Implements(ty(a[0]), it))
	}, rt+"Implements")
	// addresses: stable opaque numbers, as for unsafe.Pointer
	addrOf := func(p Ptr) Value {
		if p.obj == nil {
			return BV(64, 0)
		}
		return BV(64, uint64(0xc000000000+p.obj.id*65536+p.off*8))
	}
	reg(func(g *G, a []Value) Value {
		switch v := g.rvGet(g.rv(a[0])).(type) {
		case Ptr:
			return addrOf(v)
		case Slice:
			return addrOf(Ptr{v.obj, v.off})
		}
		g.unsupported("reflect Pointer of %v", g.rv(a[0]).t)
		return nil
	}, rv+"Pointer")
	reg(func(g *G, a []Value) Value {
		r := g.rv(a[0])
		if r.ptr == nil {
			g.rtPanic("reflect.Value.UnsafeAddr of unaddressable value")
		}
		return addrOf(g.ptrAt(r.ptr))
	}, rv+"UnsafeAddr")

	reg(func(g *G, a []Value) Value {
		ag := a[0].(Agg)
		r, _ := ag[0].(*RVal)
		if r == nil {
			return i64(0)
		}
		return i64(int64(kindOf(r.t)))
	}, rv+"Kind")
	reg(func(g *G, a []Value) Value {
		r, _ := a[0].(Agg)[0].(*RVal)
		return tb(r != nil)
	}, rv+"IsValid")
	reg(func(g *G, a []Value) Value { return g.rtypeIface(g.rv(a[0]).t) }, rv+"Type")
	reg(func(g *G, a []Value) Value {
		r := g.rv(a[0])
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			p := g.rvGet(r)
			if q, ok := p.(Ptr); ok && q.obj == nil {
				return Agg{nil, Ptr{}, BV(64, 0)}
			}
			return rvAgg(&RVal{t: u.Elem(), ptr: p, addr: true})
		case *types.Interface:
			i := g.rvGet(r).(Iface)
			if i.t == nil {
				return Agg{nil, Ptr{}, BV(64, 0)}
			}
			return rvAgg(&RVal{t: i.t, v: i.v})
		}
		g.rtPanic("reflect: call of Elem on non-pointer")
		return nil
	}, rv+"Elem")
	reg(func(g *G, a []Value) Value {
		r, _ := a[0].(Agg)[0].(*RVal)
		if r == nil {
			return a[0]
		}
		if _, ok := r.t.Underlying().(*types.Pointer); ok {
			return intr["(reflect.Value).Elem"](g, a)
		}
		return a[0]
	}, "reflect.Indirect")
	reg(func(g *G, a []Value) Value {
		r, _ := a[0].(Agg)[0].(*RVal)
		if r == nil {
			g.rtPanic("reflect: call of reflect.Value.Interface on zero Value")
		}
		v := g.rvGet(r)
		if i, ok := v.(Iface); ok {
			return i
		}
		return Iface{t: r.t, v: v}
	}, rv+"Interface")
	reg(func(g *G, a []Value) Value {
		st, ok := g.rv(a[0]).t.Underlying().(*types.Struct)
		if !ok {
			g.rtPanic("reflect: call of reflect.Value.NumField on non-struct Value")
		}
		return i64(int64(st.NumFields()))
	}, rv+"NumField")
	reg(func(g *G, a []Value) Value {
		r := g.rv(a[0])
		st := r.t.Underlying().(*types.Struct)
		i := int(g.conc(a[1].(*Term)))
		off := g.e.offsets(st)
		ft := st.Field(i).Type()
		if r.ptr != nil {
			p := g.ptrAt(r.ptr)
			return rvAgg(&RVal{t: ft, ptr: Ptr{p.obj, p.off + off[i]}, addr: true})
		}
		ag := r.v.(Agg)
		if isAgg(ft) {
			return rvAgg(&RVal{t: ft, v: ag[off[i]:off[i+1]]})
		}
		return rvAgg(&RVal{t: ft, v: ag[off[i]]})
	}, rv+"Field")
	reg(func(g *G, a []Value) Value {
		r := g.rv(a[0])
		if r.ptr == nil {
			g.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return rvAgg(&RVal{t: types.NewPointer(r.t), v: r.ptr})
	}, rv+"Addr")
	reg(func(g *G, a []Value) Value { return tb(g.rv(a[0]).addr) }, rv+"CanAddr", rv+"CanSet")
	reg(func(g *G, a []Value) Value { return True }, rv+"CanInterface")
	reg(func(g *G, a []Value) Value {
		r := g.rv(a[0])
		switch v := g.rvGet(r).(type) {
		case Ptr:
			return tb(v.obj == nil)
		case Slice:
			return tb(v.obj == nil)
		case *MapVal:
			return tb(v == nil)
		case *ChanVal:
			return tb(v == nil)
		case *Closure:
			return tb(v == nil)
		case Iface:
			return tb(v.t == nil)
		}
		return False
	}, rv+"IsNil")
	reg(func(g *G, a []Value) Value {
		switch v := g.rvGet(g.rv(a[0])).(type) {
		case Slice:
			return i64(int64(v.len))
		case Str:
			return i64(int64(v.len()))
		case *MapVal:
			return i64(int64(g.mapLen(v)))
		case Agg:
			return i64(g.rv(a[0]).t.Underlying().(*types.Array).Len())
		}
		g.unsupported("reflect Len")
		return nil
	}, rv+"Len", "(internal/reflectlite.Value).Len")
	reg(func(g *G, a []Value) Value {
		r := g.rv(a[0])
		i := int(g.conc(a[1].(*Term)))
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := g.rvGet(r).(Slice)
			if i < 0 || i >= s.len {
				g.rtPanic("reflect: slice index out of range")
			}
			return rvAgg(&RVal{t: u.Elem(), ptr: Ptr{s.obj, s.off + i*g.e.sizeof(u.Elem())}, addr: true})
		case *types.Array:
			es := g.e.sizeof(u.Elem())
			if r.ptr != nil {
				p := g.ptrAt(r.ptr)
				return rvAgg(&RVal{t: u.Elem(), ptr: Ptr{p.obj, p.off + i*es}, addr: true})
			}
			ag := r.v.(Agg)
			if isAgg(u.Elem()) {
				return rvAgg(&RVal{t: u.Elem(), v: ag[i*es : i*es+es]})
			}
			return rvAgg(&RVal{t: u.Elem(), v: ag[i]})
		}
		g.unsupported("reflect Index of %v", r.t)
		return nil
	}, rv+"Index")
	reg(func(g *G, a []Value) Value {
		return g.p.tc.ZExt(g.rvGet(g.rv(a[0])).(*Term), 64)
	}, rv+"Uint")
	reg(func(g *G, a []Value) Value {
		return g.p.tc.SExt(g.rvGet(g.rv(a[0])).(*Term), 64)
	}, rv+"Int")
	reg(func(g *G, a []Value) Value {
		if s, ok := g.rvGet(g.rv(a[0])).(Str); ok {
			return s
		}
		return Str{c: "<" + typeStr(g.rv(a[0]).t) + " Value>"}
	}, rv+"String")
	reg(func(g *G, a []Value) Value { return g.rvGet(g.rv(a[0])) }, rv+"Bytes", rv+"Bool")
	alloc := func(g *G, t types.Type, n int) *Obj {
		var cells []Value
		for i := 0; i < n; i++ {
			cells = append(cells, g.e.zeroCells(t)...)
		}
		return g.newObj(cells, "reflect")
	}
	reg(func(g *G, a []Value) Value {
		t := ty(a[0].(Iface).v)
		return rvAgg(&RVal{t: types.NewPointer(t), v: Ptr{alloc(g, t, 1), 0}})
	}, "reflect.New")
	reg(func(g *G, a []Value) Value {
		t := ty(a[0].(Iface).v)
		return rvAgg(&RVal{t: t, v: g.load(Ptr{alloc(g, t, 1), 0}, isAgg(t), g.e.sizeof(t))})
	}, "reflect.Zero")
	reg(func(g *G, a []Value) Value {
		t := ty(a[0].(Iface).v)
		n, c := int(g.conc(a[1].(*Term))), int(g.conc(a[2].(*Term)))
		el := t.Underlying().(*types.Slice).Elem()
		return rvAgg(&RVal{t: t, v: Slice{obj: alloc(g, el, c), len: n, cap: c}})
	}, "reflect.MakeSlice")
	reg(func(g *G, a []Value) Value {
		r := g.rv(a[0])
		old := g.rvGet(r).(Slice)
		el := r.t.Underlying().(*types.Slice).Elem()
		es := g.e.sizeof(el)
		xs := a[1].(Slice)
		o := alloc(g, el, old.len+xs.len)
		for i := 0; i < old.len; i++ {
			g.store(Ptr{o, i * es}, g.load(Ptr{old.obj, old.off + i*es}, isAgg(el), es))
		}
		vs := g.e.sizeof(g.typeByName("reflect", "Value"))
		for i := 0; i < xs.len; i++ {
			v := g.rvGet(g.rv(g.load(Ptr{xs.obj, xs.off + i*vs}, true, vs)))
			if _, isI := el.Underlying().(*types.Interface); isI {
				if _, already := v.(Iface); !already {
					v = Iface{t: g.rv(g.load(Ptr{xs.obj, xs.off + i*vs}, true, vs)).t, v: v}
				}
			}
			g.store(Ptr{o, (old.len + i) * es}, v)
		}
		return rvAgg(&RVal{t: r.t, v: Slice{obj: o, len: old.len + xs.len, cap: old.len + xs.len}})
	}, "reflect.Append")
	set := func(g *G, a []Value) Value {
		r := g.rv(a[0])
		if r.ptr == nil {
			g.rtPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		v := a[1]
		if ag, ok := v.(Agg); ok && len(ag) == 3 {
			if x, ok := ag[0].(*RVal); ok {
				v = g.rvGet(x)
				if _, isI := r.t.Underlying().(*types.Interface); isI {
					if _, already := v.(Iface); !already {
						v = Iface{t: x.t, v: v}
					}
				}
			}
		}
		if w, _ := intInfo(r.t); w > 0 {
			v = g.p.tc.Extract(v.(*Term), w-1, 0)
		}
		g.store(r.ptr, v)
		return nil
	}
	reg(set, rv+"Set", rv+"SetInt", rv+"SetUint", rv+"SetString", rv+"SetBool", rv+"SetBytes")
	reg(func(g *G, a []Value) Value {
		// Swapper(slice) func(i, j int)
		i := a[0].(Iface)
		s := i.v.(Slice)
		es := g.e.sizeof(i.t.Underlying().(*types.Slice).Elem())
		return &Closure{name: "swapper", native: func(g *G, b []Value) Value {
			x, y := int(g.conc(b[0].(*Term))), int(g.conc(b[1].(*Term)))
			if x < 0 || y < 0 || x >= s.len || y >= s.len {
				g.rtPanic("reflect: slice index out of range")
			}
			w := g.p.wr(s.obj)
			for k := 0; k < es; k++ {
				w[s.off+x*es+k], w[s.off+y*es+k] = w[s.off+y*es+k], w[s.off+x*es+k]
			}
			return nil
		}}
	}, "reflect.Swapper", "internal/reflectlite.Swapper")
	reg(func(g *G, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return tb(x.t == nil && y.t == nil)
		}
		if !identical(x.t, y.t) {
			return False
		}
		return g.deepEq(x.t, x.v, y.v, 0)
	}, "reflect.DeepEqual")
}

func (g *G) deepEq(t types.Type, a, b Value, d int) *Term {
	tc := g.p.tc
	if d > 30 {
		g.unsupported("DeepEqual too deep")
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, q := a.(Ptr), b.(Ptr)
		if p == q {
			return True
		}
		if p.obj == nil || q.obj == nil {
			return False
		}
		n := g.e.sizeof(u.Elem())
		ag := isAgg(u.Elem())
		return g.deepEq(u.Elem(), g.load(p, ag, n), g.load(q, ag, n), d+1)
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if x.len != y.len || (x.obj == nil) != (y.obj == nil) {
			return False
		}
		es := g.e.sizeof(u.Elem())
		ag := isAgg(u.Elem())
		r := True
		for i := 0; i < x.len; i++ {
			r = tc.And(r, g.deepEq(u.Elem(), g.load(Ptr{x.obj, x.off + i*es}, ag, es), g.load(Ptr{y.obj, y.off + i*es}, ag, es), d+1))
			if r == False {
				return r
			}
		}
		return r
	case *types.Struct:
		x, y := a.(Agg), b.(Agg)
		off := g.e.offsets(u)
		r := True
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			var p, q Value
			if isAgg(ft) {
				p, q = x[off[i]:off[i+1]], y[off[i]:off[i+1]]
			} else {
				p, q = x[off[i]], y[off[i]]
			}
			r = tc.And(r, g.deepEq(ft, p, q, d+1))
			if r == False {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.(Agg), b.(Agg)
		es := g.e.sizeof(u.Elem())
		ag := isAgg(u.Elem())
		r := True
		for i := 0; i < int(u.Len()); i++ {
			var p, q Value = x[i*es], y[i*es]
			if ag {
				p, q = x[i*es:i*es+es], y[i*es:i*es+es]
			}
			r = tc.And(r, g.deepEq(u.Elem(), p, q, d+1))
			if r == False {
				return r
			}
		}
		return r
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return tb(x.t == nil && y.t == nil)
		}
		if !identical(x.t, y.t) {
			return False
		}
		return g.deepEq(x.t, x.v, y.v, d+1)
	case *types.Map:
		x, _ := a.(*MapVal)
		y, _ := b.(*MapVal)
		if x == nil || y == nil {
			return tb(x == nil && y == nil)
		}
		if g.mapLen(x) != g.mapLen(y) {
			return False
		}
		r := True
		for i, k := range x.keys {
			if !x.live[i] {
				continue
			}
			v, ok := g.mapLookup(y, k)
			if !ok {
				return False
			}
			w, _ := g.mapLookup(x, k)
			if r = tc.And(r, g.deepEq(u.Elem(), w, v, d+1)); r == False {
				return r
			}
		}
		return r
	case *types.Signature:
		return tb(a.(*Closure) == nil && b.(*Closure) == nil)
	}
	return g.eq(a, b)
}
