package main

// The contract of the ordered collections, as callers see it: an abstract
// ordered map given by a log of operations over an empty or arbitrary base.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// amType is the dynamic type of an abstract collection; it implements exactly
// the interface it stands for.
type amType struct {
	iface     *types.Interface
	named     *types.Named
	key, val  types.Type
	entry     types.Type
	ptrPutNil bool // PutIfNotNil takes a pointer
}

func (a *amType) Underlying() types.Type { return a.named.Underlying() }
func (a *amType) String() string         { return "collection " + a.named.String() }

type AMap struct {
	kind   byte // 'E','S','P','D','R','G'
	parent *AMap
	k, v   Value
	g      *Term
	gen    *Gen
	base   string
	args   []*Term
	id     int
	am     *amType
}

// AMState is the content of a collection object.
type AMState struct {
	m   *AMap
	ord *Term
}

type errGhost struct{}

// amTypeOf recognises the collection interfaces of the library.
func (e *Engine) amTypeOf(t types.Type) *amType {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkgRaml {
		return nil
	}
	if a, ok := e.amTypes[n.String()]; ok {
		return a
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var put, get, pin *types.Func
	for i := 0; i < it.NumMethods(); i++ {
		switch m := it.Method(i); m.Name() {
		case "Put":
			put = m
		case "Get":
			get = m
		case "PutIfNotNil":
			pin = m
		}
	}
	if put == nil || get == nil || pin == nil {
		return nil
	}
	sg := put.Type().(*types.Signature)
	a := &amType{iface: it, named: n, key: sg.Params().At(0).Type(), val: sg.Params().At(1).Type()}
	_, a.ptrPutNil = under(pin.Type().(*types.Signature).Params().At(1).Type()).(*types.Pointer)
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); m.Name() == "At" {
			a.entry = m.Type().(*types.Signature).Results().At(0).Type()
		}
	}
	e.amTypes[n.String()] = a
	return a
}

// newAMap allocates an abstract collection.
func (e *Engine) newAMap(st *State, am *amType, base string, args ...*Term) Iface {
	o := e.newObj(am, am.named.Obj().Name())
	c := AMState{m: &AMap{kind: 'E', id: e.nextArr(), am: am}, ord: e.True}
	if base != "" {
		c.m = &AMap{kind: 'S', id: e.nextArr(), am: am, base: base, args: args}
		c.ord = e.App(base+".ord", SBool, args...)
		o.init = c
		o.user = true
	} else {
		st.heap[o] = c
	}
	return Iface{am, e.ptrTo(o)}
}

// --- the arbitrary base -----------------------------------------------------------

func (e *Engine) baseLen(base string, args ...*Term) *Term {
	e.regAx(base+".len", func(x *Term) []*Term {
		return []*Term{e.Le(e.Int(0), x), e.Le(x, e.Int(1<<40))}
	})
	return e.App(base+".len", SInt, args...)
}

// baseSpec describes an arbitrary ordered map with distinct keys: K(j), V(j)
// for 0<=j<len, and the inverse pos(k).
func (e *Engine) baseHas(base string, am *amType, args []*Term, k Value) *Term {
	e.baseAx(base, am, args)
	return e.App(base+".has", SBool, append(append([]*Term{}, args...), e.keyTerms(k)...)...)
}
func (e *Engine) baseKey(base string, am *amType, args []*Term, j *Term) Value {
	e.baseAx(base, am, args)
	return e.symVal(am.key, base+".K", append(append([]*Term{}, args...), j)...)
}
func (e *Engine) baseVal(base string, am *amType, args []*Term, j *Term) Value {
	e.baseAx(base, am, args)
	return e.symVal(am.val, base+".V", append(append([]*Term{}, args...), j)...)
}
func (e *Engine) basePos(base string, am *amType, args []*Term, k Value) *Term {
	e.baseAx(base, am, args)
	return e.App(base+".pos", SInt, append(append([]*Term{}, args...), e.keyTerms(k)...)...)
}

func (e *Engine) baseAx(base string, am *amType, args []*Term) {
	if _, ok := e.axFns[base+".has"]; ok {
		return
	}
	n := len(args)
	ks, _ := e.sortOf(am.key)
	e.axFns[base+".has"] = func(h *Term) []*Term {
		if h.bound {
			return nil
		}
		k := h.args[n]
		if k.op == OApp && k.name == base+".K" || witness(k) {
			return nil // the axiom of the entry says it all
		}
		as := h.args[:n]
		p := e.App(base+".pos", SInt, h.args...)
		ln := e.baseLen(base, as...)
		kp := e.App(base+".K", ks, append(append([]*Term{}, as...), p)...)
		return []*Term{e.Iff(h, e.And(e.Le(e.Int(0), p), e.Lt(p, ln), e.Eq(kp, k)))}
	}
	e.axFns[base+".pos"] = func(p *Term) []*Term {
		if p.bound {
			return nil
		}
		return []*Term{e.Implies(e.Not(e.App(base+".has", SBool, p.args...)), e.Eq(p, e.Int(-1)))}
	}
	e.axFns[base+".K"] = func(k *Term) []*Term {
		if k.bound {
			return nil
		}
		as, j := k.args[:n], k.args[n]
		in := e.And(e.Le(e.Int(0), j), e.Lt(j, e.baseLen(base, as...)))
		ka := append(append([]*Term{}, as...), k)
		out := []*Term{e.Implies(in, e.Eq(e.App(base+".pos", SInt, ka...), j)), e.Implies(in, e.App(base+".has", SBool, ka...))}
		return out
	}
}

// --- queries ------------------------------------------------------------------------

func (e *Engine) amLookup(st *State, m *AMap, k Value) []mapHit {
	switch m.kind {
	case 'E':
		return []mapHit{{e.True, e.False, nil}}
	case 'S':
		h := e.baseHas(m.base, m.am, m.args, k)
		return []mapHit{{e.True, h, e.baseVal(m.base, m.am, m.args, e.basePos(m.base, m.am, m.args, k))}}
	case 'P', 'D', 'R':
		c := e.eqVal(m.k, k)
		if m.g != nil {
			c = e.And(m.g, c)
		}
		d := e.decide(st, c)
		if d == -1 {
			return e.amLookup(st, m.parent, k)
		}
		rest := e.amLookup(st, m.parent, k)
		switch m.kind {
		case 'P', 'D':
			top := mapHit{e.True, e.Bool(m.kind == 'P'), m.v}
			if d == 1 {
				return []mapHit{top}
			}
			if len(rest) == 1 {
				r := rest[0]
				if m.kind == 'D' {
					return []mapHit{{e.True, e.And(e.Not(c), r.has), r.v}}
				}
				if r.v == nil || r.has == e.False {
					return []mapHit{{e.True, e.Or(c, r.has), m.v}}
				}
				if v, ok := e.tryMerge(c, m.v, r.v); ok {
					return []mapHit{{e.True, e.Or(c, r.has), v}}
				}
			}
			out := []mapHit{{c, top.has, top.v}}
			for _, r := range rest {
				out = append(out, mapHit{e.And(e.Not(c), r.c), r.has, r.v})
			}
			return out
		default: // replace: value changes when present
			var out []mapHit
			for _, r := range rest {
				if r.v == nil || r.has == e.False {
					out = append(out, r)
					continue
				}
				if v, ok := e.tryMerge(c, m.v, r.v); ok {
					out = append(out, mapHit{r.c, r.has, v})
					continue
				}
				out = append(out, mapHit{e.And(r.c, c), r.has, m.v}, mapHit{e.And(r.c, e.Not(c)), r.has, r.v})
			}
			return out
		}
	case 'G':
		h, u := e.genHas(m.gen, k, m.id)
		if m.g != nil {
			h = e.And(m.g, h)
		}
		rest := e.amLookup(st, m.parent, k)
		var out []mapHit
		switch e.decide(st, h) {
		case 1:
			return []mapHit{{e.True, e.True, e.genElem(st, m.gen, 1, u)}}
		case -1:
			return rest
		}
		out = append(out, mapHit{h, e.True, e.genElem(st, m.gen, 1, u)})
		for _, r := range rest {
			out = append(out, mapHit{e.And(e.Not(h), r.c), r.has, r.v})
		}
		return out
	}
	panic(unsupported("lookup in collection of kind %c", m.kind))
}

func (e *Engine) amHas(st *State, m *AMap, k Value) []mapHit { return e.amLookup(st, m, k) }

// hasTerm is the membership of k as one formula.
func (e *Engine) amHasTerm(m *AMap, k Value) *Term {
	switch m.kind {
	case 'E':
		return e.False
	case 'S':
		return e.baseHas(m.base, m.am, m.args, k)
	case 'P':
		return e.Or(e.And(e.guardOf(m), e.eqVal(m.k, k)), e.amHasTerm(m.parent, k))
	case 'D':
		return e.And(e.Not(e.eqVal(m.k, k)), e.amHasTerm(m.parent, k))
	case 'R':
		return e.amHasTerm(m.parent, k)
	case 'G':
		h, _ := e.genHas(m.gen, k, m.id)
		return e.Or(e.And(e.guardOf(m), h), e.amHasTerm(m.parent, k))
	}
	panic("amHasTerm")
}

func (e *Engine) amLen(m *AMap) *Term {
	switch m.kind {
	case 'E':
		return e.Int(0)
	case 'S':
		return e.baseLen(m.base, m.args...)
	case 'P':
		return e.Add(e.amLen(m.parent), e.Ite(e.And(e.guardOf(m), e.Not(e.amHasTerm(m.parent, m.k))), e.Int(1), e.Int(0)))
	case 'D':
		return e.Sub(e.amLen(m.parent), e.Ite(e.amHasTerm(m.parent, m.k), e.Int(1), e.Int(0)))
	case 'R':
		return e.amLen(m.parent)
	case 'G':
		if m.gen.elems == nil {
			panic(unsupported("length of a collection under construction"))
		}
		n := e.App(fmt.Sprintf("amlen%d", m.id), SInt)
		if n.ax == nil {
			p := e.amLen(m.parent)
			n.ax = []*Term{e.Le(p, n), e.Le(n, e.Add(p, m.gen.count)), e.Le(e.Int(0), n),
				e.Implies(e.Lt(e.Int(0), m.gen.count), e.Lt(e.Int(0), n))}
			if m.gen.guard != nil {
				n.ax = n.ax[:3]
			} else if m.parent.kind != 'E' {
				// the first key counts unless it is there already
				k0 := e.genElem(nil, m.gen, 0, e.Int(0))
				n.ax = append(n.ax, e.Implies(e.And(e.Lt(e.Int(0), m.gen.count), e.Not(e.amHasTerm(m.parent, k0))), e.Le(e.AddK(p, 1), n)))
			}
			// enumeration of the keys of an arbitrary base is injective: over an
			// empty parent the length is exactly the number of iterations
			if m.parent.kind == 'E' && m.gen.guard == nil && e.distinctKeys(m.gen) {
				n.ax = append(n.ax, e.Eq(n, m.gen.count))
			}
		}
		if m.g != nil {
			return e.Ite(m.g, n, e.amLen(m.parent))
		}
		return n
	}
	panic("amLen")
}

// amBefore: both keys are there and a comes before b.
func (e *Engine) amBefore(st *State, m *AMap, a, b Value) *Term {
	known := func(c *Term) *Term {
		switch e.decide(st, c) {
		case 1:
			return e.True
		case -1:
			return e.False
		}
		return c
	}
	switch m.kind {
	case 'E':
		return e.False
	case 'S':
		return e.And(e.amHasTerm(m, a), e.amHasTerm(m, b), e.Lt(e.basePos(m.base, m.am, m.args, a), e.basePos(m.base, m.am, m.args, b)))
	case 'R':
		return e.amBefore(st, m.parent, a, b)
	case 'P', 'D':
		isA, isB := known(e.eqVal(m.k, a)), known(e.eqVal(m.k, b))
		rest := e.amBefore(st, m.parent, a, b)
		if isA == e.False && isB == e.False {
			return rest
		}
		here := e.And(e.Not(isA), e.Not(isB), rest)
		if m.kind == 'P' { // the last one
			here = e.Or(here, e.And(e.Not(isA), isB, e.amHasTerm(m.parent, a)))
		}
		g := e.guardOf(m)
		return e.Or(e.And(g, here), e.And(e.Not(g), rest))
	case 'G':
		if !e.distinctKeys(m.gen) {
			panic(unsupported("order of entries with keys that may repeat"))
		}
		ha, ua := e.genHas(m.gen, a, m.id)
		hb, ub := e.genHas(m.gen, b, m.id)
		g := e.guardOf(m)
		ha, hb = known(e.And(g, ha)), known(e.And(g, hb))
		if ha == e.True && hb == e.True {
			return e.Lt(ua, ub)
		}
		rest := e.amBefore(st, m.parent, a, b)
		return e.Or(e.And(ha, hb, e.Lt(ua, ub)), e.And(e.Not(ha), hb, e.amHasTerm(m.parent, a)), e.And(e.Not(ha), e.Not(hb), rest))
	}
	panic("amBefore")
}

// distinctKeys: the keys are those of different entries of one collection.
func (e *Engine) distinctKeys(g *Gen) bool {
	if g.elems == nil {
		return false
	}
	k := g.elems[0]
	if i, ok := k.(Iface); ok {
		k = i.val
	}
	t, ok := k.(*Term)
	if !ok || t.op != OApp || !strings.HasSuffix(t.name, ".K") || len(t.args) == 0 {
		return false
	}
	n := len(t.args) - 1
	for _, a := range t.args[:n] {
		if mentions(a, g.tvar) {
			return false
		}
	}
	c, _, ok := e.splitLin(t.args[n], g.tvar)
	return ok && c != 0
}

// --- methods -----------------------------------------------------------------------

func (e *Engine) amapCall(st *State, am *amType, p Ptr, name string, args []Value) []Outcome {
	_, ok := st.get(p.obj).(AMState)
	if !ok {
		panic(unsupported("collection without state"))
	}
	if e.readSet != nil {
		e.readSet[p.obj] = true
	}
	e.relyMap(am, name)
	if e.parsing && len(args) > 0 {
		if _, any := under(am.key).(*types.Interface); any {
			y, n := e.branch(st, e.hashable(args[0]))
			if n != nil {
				var outs []Outcome
				if y != nil {
					outs = e.amapCall2(y, am, p, name, args)
				}
				return append(outs, Outcome{st: n, panic: true, msg: "hash of unhashable key"})
			}
		}
	}
	return e.amapCall2(st, am, p, name, args)
}

func (e *Engine) amapCall2(st *State, am *amType, p Ptr, name string, args []Value) []Outcome {
	self := Iface{am, p}
	c := st.get(p.obj).(AMState)
	m := c.m
	ret := func(s *State, vs ...Value) []Outcome { return []Outcome{{st: s, vals: vs}} }
	set := func(s *State, n *AMap) {
		n.id, n.am = e.nextArr(), am
		s.heap[p.obj] = AMState{m: n, ord: c.ord}
	}
	switch name {
	case "Put":
		set(st, &AMap{kind: 'P', parent: m, k: args[0], v: args[1]})
		return ret(st, self)
	case "PutIfNotNil":
		base := st.pc
		if am.ptrPutNil {
			q := args[1].(Ptr)
			y, n := e.branch(st, q.nilT)
			var outs []Outcome
			if y != nil {
				outs = append(outs, ret(y, self)...)
			}
			if n != nil {
				for _, sv := range e.load(n, q) {
					set(sv.st, &AMap{kind: 'P', parent: m, k: args[0], v: sv.v})
					outs = append(outs, ret(sv.st, self)...)
				}
			}
			return e.joinOuts(base, outs)
		}
		var outs []Outcome
		for _, o := range e.joinOuts(base, e.callNamed(pkgGomp, "IsNil", []Value{args[1]}, st)) {
			if o.panic {
				outs = append(outs, o)
				continue
			}
			y, n := e.branch(o.st, o.vals[0].(*Term))
			if y != nil {
				outs = append(outs, ret(y, self)...)
			}
			if n != nil {
				for _, d := range e.callNamed(pkgGomp, "Deref", []Value{args[1]}, n) {
					if d.panic {
						outs = append(outs, d)
						continue
					}
					set(d.st, &AMap{kind: 'P', parent: m, k: args[0], v: d.vals[0]})
					outs = append(outs, ret(d.st, self)...)
				}
			}
		}
		return e.joinOuts(base, outs)
	case "ReplaceOrPut":
		h := e.amHasTerm(m, args[0])
		y, n := e.branch(st, h)
		var outs []Outcome
		if y != nil {
			set(y, &AMap{kind: 'R', parent: m, k: args[0], v: args[1]})
			outs = append(outs, ret(y, self)...)
		}
		if n != nil {
			set(n, &AMap{kind: 'P', parent: m, k: args[0], v: args[1]})
			outs = append(outs, ret(n, self)...)
		}
		return outs
	case "ReplaceIfExists":
		set(st, &AMap{kind: 'R', parent: m, k: args[0], v: args[1]})
		return ret(st, self)
	case "Delete":
		set(st, &AMap{kind: 'D', parent: m, k: args[0]})
		return ret(st, self)
	case "Has":
		return ret(st, e.amHasTerm(m, args[0]))
	case "Len":
		return ret(st, e.amLen(m))
	case "SerializeOrdered":
		st.heap[p.obj] = AMState{m: m, ord: args[0].(*Term)}
		return ret(st, self)
	case "Get", "GetOpt":
		var outs []Outcome
		hits := e.amLookup(st, m, args[0])
		for _, h := range hits {
			s := st
			if len(hits) > 1 {
				if !e.feasible(st, h.c) {
					continue
				}
				s = st.clone()
				e.add(s, h.c)
			}
			add := func(s *State, v Value, has *Term) {
				if name == "Get" {
					outs = append(outs, ret(s, v, has)...)
					return
				}
				if has == e.True {
					outs = append(outs, e.callNamed(pkgOpt, "NewUntyped", []Value{v}, s)...)
				} else {
					outs = append(outs, e.callNamed(pkgOpt, "NewEmptyUntyped", nil, s)...)
				}
			}
			z := e.zero(am.val)
			if h.v == nil && h.has == e.False || h.has == e.False {
				add(s, z, e.False)
				continue
			}
			if h.has == e.True {
				add(s, h.v, e.True)
				continue
			}
			if name == "Get" {
				if v, ok := e.tryMerge(h.has, h.v, z); ok {
					add(s, v, h.has)
					continue
				}
			}
			y, n := e.branch(s, h.has)
			if y != nil {
				add(y, h.v, e.True)
			}
			if n != nil {
				add(n, z, e.False)
			}
		}
		return outs
	case "At":
		if m.kind == 'S' {
			j := args[0].(*Term)
			n := e.amLen(m)
			bad := e.Or(e.Lt(j, e.Int(0)), e.Le(n, j))
			y, no := e.branch(st, bad)
			var outs []Outcome
			if y != nil {
				outs = append(outs, Outcome{st: y, panic: true, msg: "index out of range in At"})
			}
			if no != nil {
				s := Struct{typ: am.entry, f: []Value{e.baseKey(m.base, am, m.args, j), e.baseVal(m.base, am, m.args, j)}}
				outs = append(outs, ret(no, s)...)
			}
			return outs
		}
		if ops, ok := e.flatOps(st, m); ok {
			var outs []Outcome
			cur := st
			for i, o := range ops {
				y, no := e.branch(cur, e.Eq(args[0].(*Term), e.Int(int64(i))))
				if y != nil {
					outs = append(outs, ret(y, Struct{typ: am.entry, f: []Value{o.k, o.v}})...)
				}
				if cur = no; cur == nil {
					break
				}
			}
			if cur != nil {
				outs = append(outs, Outcome{st: cur, panic: true, msg: "index out of range in At"})
			}
			return outs
		}
	case "IndexOf":
		if m.kind == 'S' {
			return ret(st, e.basePos(m.base, am, m.args, args[0]))
		}
		if ops, ok := e.flatOps(st, m); ok {
			at := e.Int(-1)
			for i, o := range ops {
				at = e.Ite(e.eqVal(o.k, args[0]), e.Int(int64(i)), at)
			}
			return ret(st, at)
		}
	case "ForEach":
		return e.amForEach(st, am, p, m, self, args[0])
	case "ToYAML", "MarshalYAML":
		return e.amToYAML(st, am, p, c, name)
	}
	panic(unsupported("collection method %s on a %c log", name, m.kind))
}

func (e *Engine) amForEach(st *State, am *amType, p Ptr, m *AMap, self Value, f Value) []Outcome {
	// concrete logs of distinct keys are replayed in order
	if ops, ok := e.flatOps(st, m); ok {
		cur := []*State{st}
		var outs []Outcome
		for _, o := range ops {
			var next []*State
			for _, s := range cur {
				for _, r := range e.callValue(f, []Value{o.k, o.v}, s, token.NoPos) {
					if r.panic {
						outs = append(outs, r)
					} else {
						next = append(next, r.st)
					}
				}
			}
			cur = next
		}
		for _, s := range cur {
			outs = append(outs, Outcome{st: s, vals: []Value{self}})
		}
		return outs
	}
	if m.kind != 'S' {
		panic(unsupported("ForEach over a collection log of kind %c", m.kind))
	}
	n := e.amLen(m)
	if e.entryNodes && e.decide(st, e.Eq(n, e.Int(0))) == 1 {
		return []Outcome{{st: st, vals: []Value{self}}}
	}
	L := &loopSpec{name: "ForEach of " + m.base}
	L.run = func(s *State, phis []Value, t *Term) (outs []Outcome, stops, exits []iterEnd) {
		y, no := e.branch(s, e.Lt(t, n))
		if no != nil {
			e.add(no, e.Eq(t, n))
			exits = append(exits, iterEnd{st: no})
		}
		if y != nil {
			for _, r := range e.callValue(f, []Value{e.baseKey(m.base, am, m.args, t), e.baseVal(m.base, am, m.args, t)}, y, token.NoPos) {
				if r.panic {
					outs = append(outs, r)
				} else {
					stops = append(stops, iterEnd{st: r.st})
				}
			}
		}
		return
	}
	outs, exits := e.summariseLoop(st, L)
	for _, x := range exits {
		if x.st.get(p.obj) != nil {
			if c, ok := x.st.get(p.obj).(AMState); ok && c.m != m {
				panic(unsupported("collection modified while it is iterated"))
			}
		}
		outs = append(outs, Outcome{st: x.st, vals: []Value{self}})
	}
	return outs
}

// flatOps lists the entries of a log without arbitrary parts, in order.
func (e *Engine) flatOps(st *State, m *AMap) ([]*AMap, bool) {
	var rev []*AMap
	for q := m; q.kind != 'E'; q = q.parent {
		if e.entryNodes && q.kind == 'S' && e.decide(st, e.Eq(e.amLen(q), e.Int(0))) == 1 {
			break
		}
		g := 1
		if q.g != nil {
			g = e.decide(st, q.g)
		}
		if g == 0 || g == 1 && q.kind != 'P' {
			return nil, false
		}
		if g == 1 {
			rev = append(rev, q)
		}
	}
	var out []*AMap
	for i := len(rev) - 1; i >= 0; i-- {
		for _, o := range out {
			if e.decide(st, e.eqVal(o.k, rev[i].k)) != -1 {
				return nil, false
			}
		}
		out = append(out, rev[i])
	}
	return out, true
}

// amToYAML: the node is described by the collection it was made from.
func (e *Engine) amToYAML(st *State, am *amType, p Ptr, c AMState, name string) []Outcome {
	if e.entryNodes {
		if outs, ok := e.amToNodes(st, am, c, name); ok {
			return outs
		}
	}
	nt := e.nodeType()
	o := e.newObj(nt, "node of "+am.named.Obj().Name())
	node := e.symVal(nt, fmt.Sprintf("mapnode%d", o.id)).(Struct)
	kind := e.Ite(c.ord, e.Int(2), e.Int(4))
	for i := 0; i < under(nt).(*types.Struct).NumFields(); i++ {
		switch under(nt).(*types.Struct).Field(i).Name() {
		case "Kind":
			node.f[i] = kind
		case "Tag":
			node.f[i] = e.Ite(c.ord, e.Str("tag:yaml.org,2002:omap"), e.Str("tag:yaml.org,2002:map"))
		}
	}
	st.heap[o] = node
	st.setGhost(fmt.Sprintf("mapof:%d", o.id), AMSnap{am, c})
	bad := e.Var("yamlerr", SBool)
	ns := st.clone()
	e.add(ns, bad)
	ns.setGhost("yamlfailed", e.True)
	e.add(st, e.Not(bad))
	var v Value = e.ptrTo(o)
	var z Value = Ptr{nilT: e.True}
	if name == "MarshalYAML" {
		v = Iface{types.NewPointer(nt), v}
		z = Iface{}
	}
	return []Outcome{
		{st: st, vals: []Value{v, Iface{}}},
		{st: ns, vals: []Value{z, e.freshErr(ns, "yaml")}},
	}
}

// amToNodes: the node of a collection whose entries are known, entry by entry,
// as C03 says it is.
func (e *Engine) amToNodes(st *State, am *amType, c AMState, name string) ([]Outcome, bool) {
	if e.decide(st, c.ord) != -1 {
		return nil, false
	}
	flat, ok := e.flatOps(st, c.m)
	if !ok {
		return nil, false
	}
	type part struct {
		st *State
		n  Value
	}
	var outs []Outcome
	var z Value = Ptr{nilT: e.True}
	if name == "MarshalYAML" {
		z = Iface{}
	}
	var cur []part
	for _, o := range e.callNamed(pkgXyml, "NewMapNode", []Value{e.Int(0)}, st) {
		cur = append(cur, part{o.st, o.vals[0]})
	}
	conv := func(s *State, v Value) (good []Outcome) {
		for _, o := range e.callNamed(pkgXyml, "ToYamlNode", []Value{v}, s) {
			if o.panic {
				outs = append(outs, o)
			} else if isNilIface(o.vals[1]) {
				good = append(good, o)
			} else {
				outs = append(outs, Outcome{st: o.st, vals: []Value{z, o.vals[1]}})
			}
		}
		return
	}
	for i := range flat {
		var next []part
		for _, q := range cur {
			for _, k := range conv(q.st, e.toIface(flat[i].k, am.key)) {
				for _, v := range conv(k.st, e.toIface(flat[i].v, am.val)) {
					for _, o := range e.callNamed(pkgXyml, "MapAppendNode", []Value{q.n, k.vals[0], v.vals[0]}, v.st) {
						next = append(next, part{o.st, q.n})
					}
				}
			}
		}
		cur = next
	}
	for _, q := range cur {
		v := q.n
		if name == "MarshalYAML" {
			v = Iface{types.NewPointer(e.nodeType()), v}
		}
		outs = append(outs, Outcome{st: q.st, vals: []Value{v, Iface{}}})
	}
	return outs, true
}

type AMSnap struct {
	am *amType
	c  AMState
}
