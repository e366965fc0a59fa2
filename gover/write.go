package main

// Writing: the content of the mapping node a collection was written as.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// marshalsByValue: every implementation of the interface type in the library
// writes itself (ToYAML) when it is held by value, so looking through the
// pointer changes nothing in what is written.
func (e *Engine) marshalsByValue(t types.Type) bool {
	it, ok := under(t).(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return false
	}
	if r, ok := e.byValue[t]; ok {
		return r
	}
	n, good := 0, true
	for _, p := range e.P.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range p.Members {
			tn, ok := m.(*ssa.Type)
			if !ok || strings.HasPrefix(m.Name(), "vc") {
				continue
			}
			nt := tn.Type()
			if types.IsInterface(nt) || !types.Implements(types.NewPointer(nt), it) {
				continue
			}
			n++
			if types.NewMethodSet(nt).Lookup(nil, "ToYAML") == nil {
				good = false
			}
		}
	}
	e.byValue[t] = good && n > 0
	return good && n > 0
}

// pointerOnly: the implementations of the interface type in the library are
// pointers, or structs which the library hands out and keeps by pointer only.
func (e *Engine) pointerOnly(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	if r, ok := e.ptrOnly[t]; ok {
		return r
	}
	it := under(t).(*types.Interface)
	c, good := 0, true
	for _, p := range e.P.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range p.Members {
			tn, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(tn.Type()) || strings.HasPrefix(m.Name(), "vc") {
				continue
			}
			if types.Implements(types.NewPointer(tn.Type()), it) {
				if _, isS := under(tn.Type()).(*types.Struct); !isS && types.Implements(tn.Type(), it) {
					good = false
				}
				c++
			}
		}
	}
	e.ptrOnly[t] = good && c > 0
	return e.ptrOnly[t]
}

// written: the value, without what does not matter for how it is written.
func (e *Engine) written(st *State, v Value) Value {
	switch x := v.(type) {
	case Iface:
		// xyml.ToYamlNode looks through pointers that are not nil
		if pt, ok := x.typ.(*types.Pointer); ok {
			p, isP := x.val.(Ptr)
			if _, named := pt.Elem().(*types.Named); isP && !named && e.decide(st, p.nilT) == -1 {
				if svs := e.load(st, p); len(svs) == 1 {
					if types.IsInterface(pt.Elem()) {
						return e.written(st, svs[0].v)
					}
					return e.written(st, Iface{pt.Elem(), svs[0].v})
				}
			}
		}
		if d, ok := x.typ.(derefAM); ok && e.marshalsByValue(d.am.named) {
			e.relyMap(d.am, "ToYAML")
			return Iface{d.am, x.val}
		}
	case *Term:
		if x.op == OApp && x.name == "deref" {
			if t, ok := e.staticIface[x.args[0]]; ok && e.marshalsByValue(t) {
				e.relyElem(t, "write")
				e.assume["elements are written by the ToYAML of their own kind (C12, C13) whether held by pointer or by value"] = true
				return x.args[0]
			}
		}
	}
	return v
}

// mapOf: the collection a node was written from.
func (e *Engine) mapOf(st *State, n Value) (AMSnap, bool) {
	if i, ok := n.(Iface); ok {
		n = i.val
	}
	p, ok := n.(Ptr)
	if !ok || p.obj == nil || len(p.path) > 0 || e.decide(st, p.nilT) != -1 {
		return AMSnap{}, false
	}
	g, ok := st.ghost[fmt.Sprintf("mapof:%d", p.obj.id)]
	if !ok {
		return AMSnap{}, false
	}
	s, ok := g.(AMSnap)
	return s, ok
}

func init() {
	// WMap(n): n is a plain mapping that a collection was written as
	intrinsics2["WMap"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		s, ok := e.mapOf(st, args[0])
		if !ok {
			return ok1(st, e.False)
		}
		return ok1(st, e.Not(s.c.ord))
	}
	// WEntry(n, k, v, label): the mapping has an entry k, which is v
	intrinsics2["WEntry"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		label := litStr(args[3])
		s, ok := e.mapOf(st, args[0])
		if !ok {
			e.prove(st, label, "not a mapping", e.False)
			return ok1(st)
		}
		e.skolem = true
		defer func() { e.skolem = false }()
		var cs []*Term
		for _, h := range e.amLookup(st, s.c.m, args[1]) {
			if h.v == nil || h.has == e.False {
				cs = append(cs, e.Not(h.c))
				continue
			}
			cs = append(cs, e.Implies(h.c, e.And(h.has, e.deepSame(st, e.written(st, h.v), e.written(st, args[2]), 0))))
		}
		e.prove(st, label, "", e.And(cs...))
		return ok1(st)
	}
	// WBefore(n, a, b, label): the entry a comes before the entry b
	intrinsics2["WBefore"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		label := litStr(args[3])
		s, ok := e.mapOf(st, args[0])
		if !ok {
			e.prove(st, label, "not a mapping", e.False)
			return ok1(st)
		}
		e.prove(st, label, "", e.amBefore(st, s.c.m, args[1], args[2]))
		return ok1(st)
	}
	// WNone(n, k, label): the mapping has no entry k
	intrinsics2["WNone"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		label := litStr(args[2])
		s, ok := e.mapOf(st, args[0])
		if !ok {
			e.prove(st, label, "not a mapping", e.False)
			return ok1(st)
		}
		e.prove(st, label, "", e.Not(e.amHasTerm(s.c.m, args[1])))
		return ok1(st)
	}
	// Split(c): the two cases are followed separately
	intrinsics2["Split"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		y, n := e.branch(st, args[0].(*Term))
		var outs []Outcome
		for i, s := range []*State{y, n} {
			if s != nil {
				// states with different ghosts are not joined
				s.setGhost(fmt.Sprintf("split:%d", len(s.ghost)), e.Bool(i == 0))
				outs = append(outs, ok1(s)...)
			}
		}
		return outs
	}
	// Written(n, v, label): n is the written form of the collection v
	intrinsics2["Written"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		label := litStr(args[2])
		s, ok := e.mapOf(st, args[0])
		i, isI := args[1].(Iface)
		if ok && isI && i.typ != nil {
			if c, isC := st.get(i.val.(Ptr).obj).(AMState); isC {
				e.prove(st, label, "", e.amSame(st, s.c, c, 0))
				return ok1(st)
			}
		}
		e.prove(st, label, "not written from a collection", e.False)
		return ok1(st)
	}
	intrinsics2["Concretely"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome { return ok1(st) }
	// WFailed(): a conversion to YAML failed
	intrinsics2["WFailed"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		_, bad := st.ghost["yamlfailed"]
		return ok1(st, e.Bool(bad))
	}
}
