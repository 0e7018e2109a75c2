package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a runtime value held in a register or a memory cell.
//
//	*Term            booleans and integers
//	float64          floats (concrete only)
//	complex128       complex (concrete only)
//	Str              strings
//	Ptr              pointers (also unsafe.Pointer)
//	SymPtr           pointer to an element at a symbolic index
//	Slice            slices
//	*MapVal          maps
//	*ChanVal         channels
//	Iface            interfaces
//	*Closure         functions
//	Agg              structs and arrays in registers (flattened cells)
//	Tuple            multi-value results
//	RType, *RVal ... reflection models
type Value interface{}

// Str is a string; b==nil means concrete c.
type Str struct {
	c string
	b []*Term
}

func (s Str) len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.c)
}

func (s Str) at(i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return BV(8, uint64(s.c[i]))
}

func (s Str) sub(i, j int) Str {
	if s.b != nil {
		return mkStr(s.b[i:j])
	}
	return Str{c: s.c[i:j]}
}

func (s Str) bytes() []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.c))
	for i := range r {
		r[i] = BV(8, uint64(s.c[i]))
	}
	return r
}

func mkStr(b []*Term) Str {
	for _, t := range b {
		if !t.isConst() {
			return Str{b: b}
		}
	}
	var sb strings.Builder
	for _, t := range b {
		sb.WriteByte(byte(t.val))
	}
	return Str{c: sb.String()}
}

// Obj is a heap object: a flat array of cells.
type Obj struct {
	cells   []Value
	shared  bool
	id      int
	lbl     string
	race    []raceCell
	foreign bool // allocated by the harness or runtime: no race checks
}

type Ptr struct {
	obj *Obj
	off int
}

// SymPtr points to obj[base + idx*stride] with idx < n.
type SymPtr struct {
	obj    *Obj
	base   int
	stride int
	n      int
	idx    *Term
}

type Slice struct {
	obj           *Obj
	off, len, cap int
}

type Iface struct {
	t types.Type
	v Value
}

type Agg []Value
type Tuple []Value

type Closure struct {
	fn  *ssa.Function
	env []Value
	// native is set for engine-provided functions.
	native func(g *G, args []Value) Value
	name   string
}

type MapVal struct {
	keys    []Value
	vals    []Value
	live    []bool
	n       int
	index   map[string]int
	symKey  bool // some key is symbolic
	shared  bool
	id      int
	kt      types.Type
	ver     int
	race    mapRace
	foreign bool
	lbl     string
}

// layout

type layouts struct {
	size map[types.Type]int
	zero map[types.Type][]Value
	offs map[*types.Struct][]int
}

func newLayouts() *layouts {
	return &layouts{map[types.Type]int{}, map[types.Type][]Value{}, map[*types.Struct][]int{}}
}

func (e *Engine) sizeof(t types.Type) int {
	if n, ok := e.lay.size[t]; ok {
		return n
	}
	var n int
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n += e.sizeof(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * e.sizeof(u.Elem())
	default:
		n = 1
	}
	e.lay.size[t] = n
	return n
}

func (e *Engine) offsets(s *types.Struct) []int {
	if o, ok := e.lay.offs[s]; ok {
		return o
	}
	o := make([]int, s.NumFields()+1)
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		o[i] = n
		n += e.sizeof(s.Field(i).Type())
	}
	o[s.NumFields()] = n
	e.lay.offs[s] = o
	return o
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// width returns the bit width of an integer type (0 if not integer), and signedness.
func intInfo(t types.Type) (w uint8, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func zeroScalar(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _ := intInfo(t); w > 0 {
			return BV(w, 0)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return False
		case types.String, types.UntypedString:
			return Str{}
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return complex128(0)
		case types.UnsafePointer:
			return Ptr{}
		case types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapVal)(nil)
	case *types.Chan:
		return (*ChanVal)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		return r
	}
	panic(fmt.Sprintf("zeroScalar %v", t))
}

// zeroCells returns the (shared, immutable) zero cells of t.
func (e *Engine) zeroCells(t types.Type) []Value {
	if z, ok := e.lay.zero[t]; ok {
		return z
	}
	var z []Value
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			z = append(z, e.zeroCells(u.Field(i).Type())...)
		}
	case *types.Array:
		el := e.zeroCells(u.Elem())
		z = make([]Value, 0, len(el)*int(u.Len()))
		for i := 0; i < int(u.Len()); i++ {
			z = append(z, el...)
		}
	default:
		z = []Value{zeroScalar(t)}
	}
	e.lay.zero[t] = z
	return z
}

func (e *Engine) zeroValue(t types.Type) Value {
	if isAgg(t) {
		return Agg(e.zeroCells(t))
	}
	if tup, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tup.Len())
		for i := range r {
			r[i] = e.zeroValue(tup.At(i).Type())
		}
		return r
	}
	return zeroScalar(t)
}
