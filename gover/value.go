package main

// Executor-level values, heap objects and states.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// scalar and opaque-interface values are *Term.

type Obj struct {
	id     int
	typ    types.Type // type of the content
	name   string
	init   Value // content in states that have no entry for it (symbolic inputs)
	global bool
	user   bool // existed before the code under contract ran
	// family objects: created inside a summarised loop iteration
}

type PathElem struct {
	field int
	idx   *Term // non-nil: element index of an array
}

// Ptr points into a heap object (obj) or is a symbolic reference (sym).
type Ptr struct {
	nilT *Term // condition under which the pointer is nil
	obj  *Obj
	path []PathElem
	sym  *Term      // SRef term, obj == nil
	root types.Type // pointee type of sym
}

type Struct struct {
	typ types.Type
	f   []Value
}

// Iface is an interface value of known dynamic type; typ==nil is the nil
// interface.
type Iface struct {
	typ types.Type
	val Value
}

type Slice struct {
	nilT          *Term
	arr           *Obj
	off, len, cap *Term
	elem          types.Type
	short         bool  // a part of a slice: what follows may be in use
	ghost         Value // provenance (json.Marshal results and the like)
}

type MapRef struct {
	nilT *Term
	obj  *Obj
	typ  *types.Map
}

type FuncV struct {
	fn   *ssa.Function
	bind []Value
	name string // intrinsic / builtin
	prim func(e *Engine, st *State, args []Value) []Outcome
}

type Tuple []Value

// RVal is a reflect.Value.
type RVal struct {
	v      Value
	static types.Type
} // v: Iface or *Term (opaque any) or nil (invalid)

// IterV is a map or string iterator.
type IterV struct{ obj *Obj }

// --- array contents -------------------------------------------------------

type Arr struct {
	elem   types.Type
	kind   byte // 'S' symbolic base, 'Z' zero base, 'W' write, 'C' copy range, 'G' generated run, '?' unknown
	parent *Arr
	idx    *Term
	val    Value
	// copy: parent with [idx, idx+n) replaced by src[soff..]
	n    *Term
	src  *Arr
	soff *Term
	gen  *Gen
	base string
	args []*Term
	id   int
}

// Gen is a run of elements produced by loop iterations 0..count-1, stride
// elements each, appended to the parent from position idx on.
type Gen struct {
	id           int
	stride       int64
	count        *Term
	tvar         *Term
	elems        []Value // template over tvar; nil while the loop is being analysed
	heap         map[*Obj]Value
	fresh        map[*Obj]bool
	guard        *Term // map runs: iterations with a false guard contribute nothing
	opaque       bool
	skipH, skipW *Term // slice runs: iteration skipW appended nothing (if skipH)
	insts        map[*Term]*instance
}
type instance struct {
	objs map[*Obj]*Obj
}

// --- Go map contents -------------------------------------------------------

type GMap struct {
	typ    *types.Map
	kind   byte // 'S' symbolic base, 'E' empty, 'P' put, 'D' delete, 'G' generated, '?' unknown
	parent *GMap
	k, v   Value
	gen    *Gen // elems[0]=key, elems[1]=value
	base   string
	args   []*Term
	id     int
	n      *Term // symbolic length of a base
}

// --- state ------------------------------------------------------------------

type State struct {
	heap  map[*Obj]Value
	pc    *PC
	ghost map[string]Value
	fold  *FoldReq
	alloc int // objects with id > alloc of a snapshot are newer
	trace []string
}

func (s *State) clone() *State {
	h := make(map[*Obj]Value, len(s.heap)+8)
	for k, v := range s.heap {
		h[k] = v
	}
	g := s.ghost
	return &State{heap: h, pc: s.pc, ghost: g, fold: s.fold, alloc: s.alloc, trace: s.trace}
}
func (s *State) setGhost(k string, v Value) {
	g := make(map[string]Value, len(s.ghost)+1)
	for a, b := range s.ghost {
		g[a] = b
	}
	g[k] = v
	s.ghost = g
}
func (s *State) get(o *Obj) Value {
	if v, ok := s.heap[o]; ok {
		return v
	}
	return o.init
}

type Outcome struct {
	st    *State
	panic bool
	msg   string
	vals  []Value
	pval  Value
}

func isNilIface(v Value) bool {
	i, ok := v.(Iface)
	return ok && i.typ == nil
}

func showVal(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return x.String()
	case Ptr:
		n := ""
		if x.nilT.op != OFalse {
			n = "?nil:" + x.nilT.String()
		}
		if x.obj != nil {
			return fmt.Sprintf("&%s#%d%v%s", x.obj.name, x.obj.id, x.path, n)
		}
		if x.sym != nil {
			return "&" + x.sym.String() + n
		}
		return "nilptr"
	case Struct:
		var s []string
		for _, f := range x.f {
			s = append(s, showVal(f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case Iface:
		if x.typ == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", shortType(x.typ), showVal(x.val))
	case Slice:
		return fmt.Sprintf("slice[len=%s]", x.len)
	case Tuple:
		var s []string
		for _, f := range x {
			s = append(s, showVal(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case FuncV:
		if x.fn != nil {
			return x.fn.String()
		}
		return "func " + x.name
	}
	return fmt.Sprintf("%T", v)
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
