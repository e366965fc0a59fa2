package main

// Elements of the model (types, examples, documents): arbitrary states of the
// library's own implementation, frozen copies, and comparison by content.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// elementCtor finds the library's constructor of an element interface.
func (e *Engine) elementCtor(t types.Type) *ssa.Function {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkgRaml {
		return nil
	}
	if _, ok := n.Underlying().(*types.Interface); !ok {
		return nil
	}
	name := n.Obj().Name()
	if name == "APISpec" {
		name = "ApiSpec"
	}
	p := e.P.pkgs[pkgInt]
	if p == nil {
		return nil
	}
	f := p.Func("New" + name)
	if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
		return nil
	}
	return f
}

// newElem is an arbitrary element: what the constructor allocates, with every
// property arbitrary.
func (e *Engine) newElem(st *State, f *ssa.Function, name string, args ...*Term) (Value, *State) {
	e.genN++
	mark := e.objN
	outs := e.call(f, nil, nil, st)
	if len(outs) != 1 || outs[0].panic {
		panic(unsupported("constructor %s", f))
	}
	s, v := outs[0].st, outs[0].vals[0]
	e.havocElem(s, v, name, args, mark, map[*Obj]bool{})
	rt := f.Signature.Results().At(0).Type()
	if _, ok := v.(Iface); !ok {
		v = Iface{rt, v}
	}
	return v, s
}

func (e *Engine) havocElem(st *State, v Value, name string, args []*Term, mark int, seen map[*Obj]bool) {
	if i, ok := v.(Iface); ok {
		v = i.val
	}
	p, ok := v.(Ptr)
	if !ok || p.obj == nil || len(p.path) > 0 || p.obj.id <= mark || seen[p.obj] {
		return
	}
	seen[p.obj] = true
	c, ok := st.get(p.obj).(Struct)
	if !ok {
		return
	}
	p.obj.user = true
	st.heap[p.obj] = e.havocStruct(st, c, name, args, mark, seen)
}

func (e *Engine) havocStruct(st *State, c Struct, name string, args []*Term, mark int, seen map[*Obj]bool) Struct {
	s := under(c.typ).(*types.Struct)
	n := Struct{typ: c.typ, f: append([]Value(nil), c.f...)}
	for i := range n.f {
		ft := s.Field(i).Type()
		fn := name + "." + s.Field(i).Name()
		n.f[i] = e.havocVal(st, c.f[i], ft, fn, args, mark, seen)
	}
	return n
}

func (e *Engine) havocVal(st *State, v Value, ft types.Type, fn string, args []*Term, mark int, seen map[*Obj]bool) Value {
	if am := e.amTypeOf(ft); am != nil {
		a := e.newAMap(st, am, fn, args...)
		return a
	}
	if strings.HasSuffix(types.TypeString(ft, nil), "rmeta.DataTypeKind") {
		return v
	}
	switch x := v.(type) {
	case Struct:
		return e.havocStruct(st, x, fn, args, mark, seen)
	case Ptr:
		if x.obj != nil && x.obj.id > mark {
			e.havocElem(st, x, fn, args, mark, seen)
			return v
		}
	case Iface:
		if q, ok := x.val.(Ptr); ok && q.obj != nil {
			e.havocElem(st, v, fn, args, mark, seen)
			return v
		}
	}
	return e.symVal(ft, fn, args...)
}

// freeze copies a value and everything the code can modify through it.
func (e *Engine) freeze(st *State, v Value, memo map[*Obj]*Obj) Value {
	obj := func(o *Obj) *Obj {
		if o == nil || o.global {
			return o
		}
		if n, ok := memo[o]; ok {
			return n
		}
		n := e.newObj(o.typ, "old "+o.name)
		memo[o] = n
		c := st.get(o)
		if c == nil {
			panic(unsupported("copy of %s, which has no known content", o.name))
		}
		st.heap[n] = e.freeze(st, c, memo)
		return n
	}
	switch x := v.(type) {
	case Iface:
		if x.typ == nil {
			return x
		}
		return Iface{x.typ, e.freeze(st, x.val, memo)}
	case Ptr:
		x.obj = obj(x.obj)
		return x
	case Struct:
		n := Struct{typ: x.typ, f: make([]Value, len(x.f))}
		for i := range x.f {
			n.f[i] = e.freeze(st, x.f[i], memo)
		}
		return n
	case Slice:
		x.arr = obj(x.arr)
		return x
	case MapRef:
		x.obj = obj(x.obj)
		return x
	case Tuple:
		n := make(Tuple, len(x))
		for i := range x {
			n[i] = e.freeze(st, x[i], memo)
		}
		return n
	}
	return v
}

// amSame: the same sequence of entries and the same flag.
func (e *Engine) amSame(st *State, a, b AMState, d int) *Term {
	return e.And(e.Iff(a.ord, b.ord), e.logSame(st, a.m, b.m, d))
}

func (e *Engine) logSame(st *State, a, b *AMap, d int) *Term {
	if a == b {
		return e.True
	}
	// operations that may not have happened
	ga, gb := e.guardOf(a), e.guardOf(b)
	if ga != e.True && e.decide(st, ga) == -1 {
		return e.logSame(st, a.parent, b, d)
	}
	if gb != e.True && e.decide(st, gb) == -1 {
		return e.logSame(st, a, b.parent, d)
	}
	if ga != gb {
		bare := func(m *AMap) *AMap { n := *m; n.g = nil; return &n }
		if ga != e.True {
			if e.decide(st, ga) == 1 {
				return e.logSame(st, bare(a), b, d)
			}
			return e.And(e.Implies(ga, e.logSame(st, bare(a), b, d)), e.Implies(e.Not(ga), e.logSame(st, a.parent, b, d)))
		}
		if e.decide(st, gb) == 1 {
			return e.logSame(st, a, bare(b), d)
		}
		return e.And(e.Implies(gb, e.logSame(st, a, bare(b), d)), e.Implies(e.Not(gb), e.logSame(st, a, b.parent, d)))
	}
	if a.kind != b.kind {
		return e.False
	}
	switch a.kind {
	case 'E':
		return e.True
	case 'S':
		if a.base != b.base || len(a.args) != len(b.args) {
			return e.False
		}
		cs := []*Term{}
		for i := range a.args {
			cs = append(cs, e.Eq(a.args[i], b.args[i]))
		}
		return e.And(cs...)
	case 'P', 'D', 'R':
		cs := []*Term{e.logSame(st, a.parent, b.parent, d), e.Iff(e.guardOf(a), e.guardOf(b)), e.deepSame(st, a.k, b.k, d+1)}
		if a.kind != 'D' {
			cs = append(cs, e.deepSame(st, a.v, b.v, d+1))
		}
		return e.And(cs...)
	case 'U':
		if a.base != b.base || len(a.args) != len(b.args) {
			return e.False
		}
		cs := []*Term{e.logSame(st, a.parent, b.parent, d), e.Iff(e.guardOf(a), e.guardOf(b))}
		for i := range a.args {
			cs = append(cs, e.Eq(a.args[i], b.args[i]))
		}
		return e.And(cs...)
	case 'G':
		return e.And(e.Bool(a.gen == b.gen), e.Iff(e.guardOf(a), e.guardOf(b)), e.logSame(st, a.parent, b.parent, d))
	}
	return e.False
}

func init() {
	intrinsics2["Freeze"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		return ok1(st, e.freeze(st, args[0], map[*Obj]*Obj{}))
	}
	// Check(got, want, label)
	intrinsics2["Check"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		label := litStr(args[2])
		e.skolem = true
		defer func() { e.skolem = false }()
		a, ok1s := args[0].(Iface)
		b, ok2s := args[1].(Iface)
		if ok1s && ok2s && a.typ != nil && b.typ != nil && types.Identical(a.typ, b.typ) {
			x, okx := a.val.(Struct)
			y, oky := b.val.(Struct)
			if okx && oky {
				s := under(x.typ).(*types.Struct)
				for i := range x.f {
					e.prove(st, label+": "+s.Field(i).Name(), "", e.deepSame(st, x.f[i], y.f[i], 0))
				}
				return ok1(st)
			}
		}
		e.prove(st, label, "", e.deepSame(st, args[0], args[1], 0))
		return ok1(st)
	}
	// Is(a, b): the same object (or equal scalars)
	intrinsics2["Is"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		return ok1(st, e.eqVal(args[0], args[1]))
	}
}

var _ = fmt.Sprint
