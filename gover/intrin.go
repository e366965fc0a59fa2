package main

// The vc package: the vocabulary of the contracts.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func litStr(v Value) string {
	if t, ok := v.(*Term); ok && t.op == OStr {
		return t.name
	}
	return showVal(v)
}

func (e *Engine) callPos() string {
	if len(e.callStack) > 0 {
		return e.callStack[len(e.callStack)-1]
	}
	return ""
}

func (e *Engine) intrinsic(fn *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
	switch fn.Name() {
	case "Assume":
		c := args[0].(*Term)
		if !e.feasible(st, c) {
			return nil, true
		}
		e.add(st, c)
		return ok1(st), true
	case "Assert":
		e.prove(st, litStr(args[1]), "", args[0].(*Term))
		if args[0].(*Term) == e.False {
			return nil, true
		}
		e.add(st, args[0].(*Term))
		return ok1(st), true
	case "Cover":
		e.covers[e.cur+": "+litStr(args[0])] = true
		return ok1(st), true
	case "Unreachable":
		e.fail(st, litStr(args[0]), "reachable")
		return nil, true
	case "Same":
		return ok1(st, e.deepSame(st, args[0], args[1], 0)), true
	case "Quiet":
		return ok1(st), true
	case "NoPanic":
		// NoPanic(f): f returns normally
		var outs []Outcome
		for _, o := range e.callValue(args[0], nil, st, 0) {
			if o.panic {
				e.fail(o.st, "no panic", o.msg)
				continue
			}
			outs = append(outs, o)
		}
		return outs, true
	case "Try":
		// Try(f) reports whether f panicked
		var outs []Outcome
		for _, o := range e.callValue(args[0], nil, st, 0) {
			outs = append(outs, Outcome{st: o.st, vals: []Value{e.Bool(o.panic)}})
		}
		return outs, true
	// --- representation of the collections (layer 1)
	case "MLen":
		m := e.repOf(args[0], st)
		return ok1(st, m.slice.len), true
	case "MKey", "MVal":
		m := e.repOf(args[0], st)
		j := args[1].(*Term)
		var outs []Outcome
		for _, sv := range e.load(st, Ptr{nilT: e.False, obj: m.slice.arr, path: []PathElem{{field: -1, idx: e.Add(m.slice.off, j)}}}) {
			s := sv.v.(Struct)
			i, t := m.keyF, m.keyT
			if fn.Name() == "MVal" {
				i, t = m.valF, m.valT
			}
			outs = append(outs, Outcome{st: sv.st, vals: []Value{e.toIface(s.f[i], t)}})
		}
		return outs, true
	case "MOrdered":
		m := e.repOf(args[0], st)
		return ok1(st, m.ord), true
	case "MSnap":
		return ok1(st, e.snapRep(args[0], st)), true
	case "MPos":
		// position of a key in an arbitrary initial state (ghost)
		m := e.repOf(args[0], st)
		a := e.baseArr(m.arr)
		if a == nil {
			return ok1(st, e.Int(-1)), true
		}
		k := e.fromIface(args[1], m.keyT)
		return ok1(st, e.App(a.base+"[].pos", SInt, append(append([]*Term{}, a.args...), e.keyTerms(k)...)...)), true
	case "MHas":
		m := e.repOf(args[0], st)
		k := e.fromIface(args[1], m.keyT)
		var outs []Outcome
		for _, sv := range e.mapLookup(st, m.mp, k, true) {
			outs = append(outs, Outcome{st: sv.st, vals: []Value{sv.v.(Tuple)[1]}})
		}
		return outs, true
	case "MValid":
		return e.checkRep(args[0], args[1], args[2], st), true
	case "JSONArg":
		s, ok := args[0].(Slice)
		if !ok || s.ghost == nil {
			return ok1(st, Iface{}), true
		}
		return ok1(st, s.ghost), true
	}
	if h, ok := intrinsics2[fn.Name()]; ok {
		return h(e, fn, args, st), true
	}
	panic(unsupported("unknown contract primitive %s", fn.Name()))
}

var intrinsics2 = map[string]func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome{}

func (e *Engine) toIface(v Value, t types.Type) Value {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	return Iface{t, v}
}
func (e *Engine) fromIface(v Value, t types.Type) Value {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	if i, ok := v.(Iface); ok && i.typ != nil && types.Identical(i.typ, t) {
		return i.val
	}
	panic(unsupported("key of type %s expected", t))
}

// deepSame: the values are the same, looking through pointers to objects
// allocated by the code.
func (e *Engine) deepSame(st *State, a, b Value, d int) *Term {
	if e.same(a, b) {
		return e.True
	}
	if d > 12 {
		return e.False
	}
	switch x := a.(type) {
	case Iface:
		if y, ok := b.(Iface); ok {
			if x.typ == nil || y.typ == nil {
				return e.Bool(x.typ == nil && y.typ == nil)
			}
			xa, okx := x.typ.(*amType)
			ya, oky := y.typ.(*amType)
			if okx || oky {
				if !(okx && oky && xa == ya) {
					return e.False
				}
				ca, oka := st.get(x.val.(Ptr).obj).(AMState)
				cb, okb := st.get(y.val.(Ptr).obj).(AMState)
				if !oka || !okb {
					return e.Bool(x.val.(Ptr).obj == y.val.(Ptr).obj)
				}
				return e.amSame(st, ca, cb, d)
			}
			if _, ok := x.typ.(derefAM); ok {
				return e.Bool(e.same(x.val, y.val))
			}
			if !types.Identical(x.typ, y.typ) {
				return e.False
			}
			return e.deepSame(st, x.val, y.val, d+1)
		}
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return e.False
		}
		eq := e.eqVal(x, y)
		if eq == e.True || x.obj == nil || y.obj == nil {
			return eq
		}
		if x.nilT != e.False || y.nilT != e.False {
			if x.nilT == e.True || y.nilT == e.True {
				return eq
			}
		}
		if len(x.path) > 0 || len(y.path) > 0 {
			return eq
		}
		cx, cy := st.get(x.obj), st.get(y.obj)
		if cx == nil || cy == nil {
			return eq
		}
		in := e.deepSame(st, cx, cy, d+1)
		return e.Or(e.And(x.nilT, y.nilT), e.And(e.Not(x.nilT), e.Not(y.nilT), in))
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.f) != len(y.f) {
			return e.False
		}
		var cs []*Term
		for i := range x.f {
			cs = append(cs, e.deepSame(st, x.f[i], y.f[i], d+1))
		}
		return e.And(cs...)
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return e.False
		}
		cs := []*Term{e.Eq(x.len, y.len)}
		if x.arr == y.arr && x.off == y.off {
			return cs[0]
		}
		if x.len == e.Int(0) && y.len == e.Int(0) {
			return e.True
		}
		if x.arr == nil || y.arr == nil {
			return e.And(e.Eq(x.len, e.Int(0)), e.Eq(y.len, e.Int(0)))
		}
		ax, ay := st.get(x.arr), st.get(y.arr)
		if ax == ay && x.off == y.off {
			return cs[0]
		}
		if x.len.op == OInt && y.len.op == OInt && x.len.k == y.len.k && x.len.k < 20 {
			for i := int64(0); i < x.len.k; i++ {
				g1 := e.readArr(st, ax.(*Arr), e.AddK(x.off, i))
				g2 := e.readArr(st, ay.(*Arr), e.AddK(y.off, i))
				if len(g1) != 1 || len(g2) != 1 {
					return e.False
				}
				cs = append(cs, e.deepSame(st, g1[0].v, g2[0].v, d+1))
			}
			return e.And(cs...)
		}
		if e.skolem {
			// equal at an arbitrary index (the result is only to be proved)
			i := e.Var("at", SInt)
			in := e.And(e.Le(e.Int(0), i), e.Lt(i, x.len))
			s := st.clone()
			e.add(s, in)
			e.add(s, cs[0])
			for _, g1 := range e.readArr(s, ax.(*Arr), e.Add(x.off, i)) {
				for _, g2 := range e.readArr(s, ay.(*Arr), e.Add(y.off, i)) {
					cs = append(cs, e.Implies(e.And(in, g1.c, g2.c), e.deepSame(s, g1.v, g2.v, d+1)))
				}
			}
			return e.And(cs...)
		}
		return e.False
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); ok {
				return
			}
			panic(r)
		}
	}()
	return e.eqVal(a, b)
}

// --- representation of ordered collections --------------------------------------

type mapRep struct {
	p          Ptr
	slice      Slice
	arr        *Arr
	mp         MapRef
	ord        *Term
	keyF, valF int
	keyT, valT types.Type
	sliceF     int
	mapF       int
	ordF       int
	st         Struct
}

// repShape recognises the representation: one slice of key/value entries, one
// Go map, one flag.
func (e *Engine) repShape(t types.Type) (r mapRep, ok bool) {
	s, isS := under(t).(*types.Struct)
	if !isS {
		return
	}
	r.sliceF, r.mapF, r.ordF = -1, -1, -1
	for i := 0; i < s.NumFields(); i++ {
		switch u := under(s.Field(i).Type()).(type) {
		case *types.Slice:
			es, isE := under(u.Elem()).(*types.Struct)
			if !isE || r.sliceF >= 0 {
				return r, false
			}
			r.sliceF = i
			r.keyF, r.valF = -1, -1
			for j := 0; j < es.NumFields(); j++ {
				switch es.Field(j).Name() {
				case "Key":
					r.keyF, r.keyT = j, es.Field(j).Type()
				case "Val":
					r.valF, r.valT = j, es.Field(j).Type()
				}
			}
			if r.keyF < 0 || r.valF < 0 || es.NumFields() != 2 {
				return r, false
			}
		case *types.Map:
			if r.mapF >= 0 {
				return r, false
			}
			r.mapF = i
		case *types.Basic:
			if u.Kind() != types.Bool || r.ordF >= 0 {
				return r, false
			}
			r.ordF = i
		default:
			return r, false
		}
	}
	ok = r.sliceF >= 0 && r.mapF >= 0 && r.ordF >= 0
	return
}

func (e *Engine) repOf(v Value, st *State) mapRep {
	i, ok := v.(Iface)
	if !ok {
		panic(unsupported("collection handle %T", v))
	}
	p, ok := i.val.(Ptr)
	if !ok || p.obj == nil {
		panic(unsupported("collection of unknown representation"))
	}
	c, ok := st.get(p.obj).(Struct)
	if !ok {
		panic(unsupported("collection content"))
	}
	r, ok := e.repShape(c.typ)
	if !ok {
		panic(unsupported("the representation of %s is not entries + index + flag", c.typ))
	}
	r.p, r.st = p, c
	r.slice = c.f[r.sliceF].(Slice)
	r.mp = c.f[r.mapF].(MapRef)
	r.ord = c.f[r.ordF].(*Term)
	if r.slice.arr != nil {
		r.arr = st.get(r.slice.arr).(*Arr)
	}
	return r
}

func (e *Engine) baseArr(a *Arr) *Arr {
	for a != nil && a.kind != 'S' {
		if a.kind == 'C' && a.src != nil && e.baseArr(a.src) != nil {
			return e.baseArr(a.src)
		}
		if a.kind == 'G' && a.gen.elems != nil {
			// entries copied one by one
			for _, v := range a.gen.elems {
				if b := elemOf(v); b != nil {
					return b
				}
			}
		}
		a = a.parent
	}
	return a
}

// elemOf: the array the fields of an entry were read from.
func elemOf(v Value) *Arr {
	s, ok := v.(Struct)
	if !ok {
		return nil
	}
	for _, f := range s.f {
		if t, ok := f.(*Term); ok && t.op == OApp && len(t.args) > 0 {
			if i := strings.LastIndex(t.name, "[]."); i > 0 {
				return &Arr{kind: 'S', base: t.name[:i], args: t.args[:len(t.args)-1]}
			}
		}
	}
	return nil
}

// snapRep freezes the state of a collection.
func (e *Engine) snapRep(v Value, st *State) Value {
	r := e.repOf(v, st)
	i := v.(Iface)
	o := e.newObj(r.st.typ, "old "+r.p.obj.name)
	ao := e.newObj(types.NewArray(r.slice.elem, 0), "old entries")
	mo := e.newObj(r.mp.typ, "old index")
	if r.arr != nil {
		st.heap[ao] = r.arr
	} else {
		st.heap[ao] = &Arr{elem: r.slice.elem, kind: 'Z', id: e.nextArr()}
	}
	if r.mp.obj != nil {
		st.heap[mo] = st.get(r.mp.obj)
	}
	n := Struct{typ: r.st.typ, f: append([]Value(nil), r.st.f...)}
	s := r.slice
	s.arr = ao
	n.f[r.sliceF] = s
	m := r.mp
	if m.obj != nil {
		m.obj = mo
	}
	n.f[r.mapF] = m
	st.heap[o] = n
	return Iface{i.typ, e.ptrTo(o)}
}

// symbolicRep makes an arbitrary collection satisfying the representation
// invariant out of a constructed one.
func (e *Engine) symbolicRep(v Value, st *State, name string) Value {
	r := e.repOf(v, st)
	base := name + ".e"
	elem := r.slice.elem
	sl := e.symVal(types.NewSlice(elem), base).(Slice)
	sl.nilT = e.False
	mt := r.mp.typ
	mo := e.newObj(mt, name+".index")
	n := sl.len
	mo.init = &GMap{typ: mt, kind: 'S', base: name + ".index", id: e.nextArr(), n: n}
	o := e.newObj(r.st.typ, name)
	c := Struct{typ: r.st.typ, f: append([]Value(nil), r.st.f...)}
	c.f[r.sliceF] = sl
	c.f[r.mapF] = MapRef{nilT: e.False, obj: mo, typ: mt}
	c.f[r.ordF] = e.App(name+".flag", SBool)
	st.heap[o] = c
	// invariant, attached to the symbols
	ks, okS := e.sortOf(r.keyT)
	if !okS {
		panic(unsupported("key type %s", r.keyT))
	}
	es := under(elem).(*types.Struct)
	kn := base + "[]." + es.Field(r.keyF).Name()
	hn, pn := name+".index.has", base+"[].pos"
	K := func(j *Term) *Term { return e.App(kn, ks, j) }
	kax := func(x *Term) []*Term {
		j := x.args[0]
		in := e.And(e.Le(e.Int(0), j), e.Lt(j, n))
		g := mo.init.(*GMap)
		vv := e.symVal(r.valT, base+"[]."+es.Field(r.valF).Name(), j)
		return []*Term{e.Implies(in, e.And(e.Eq(e.App(pn, SInt, x), j), e.App(hn, SBool, x), e.eqVal(e.gmGet(g, x), vv)))}
	}
	e.axFns[kn] = kax
	hax := func(h *Term) []*Term {
		k := h.args[0]
		if k.op == OApp && k.name == kn || witness(k) {
			return nil // the axiom of the entry says it all
		}
		p := e.App(pn, SInt, k)
		return []*Term{e.Implies(h, e.And(e.Le(e.Int(0), p), e.Lt(p, n), e.Eq(K(p), k)))}
	}
	e.axFns[hn] = func(h *Term) []*Term {
		if h.bound {
			return nil
		}
		return hax(h)
	}
	e.axFns[pn] = func(p *Term) []*Term { return nil }
	e.assumeKeyEq(r.keyT)
	return Iface{v.(Iface).typ, e.ptrTo(o)}
}

func (e *Engine) assumeKeyEq(t types.Type) {
	if _, ok := under(t).(*types.Interface); ok {
		e.assume["interface{} keys are hashable and equal to themselves"] = true
	}
}

// checkRep proves the representation invariant for arbitrary positions a, b
// and the index for an arbitrary key k.
func (e *Engine) checkRep(v, jv, kv Value, st *State) []Outcome {
	r := e.repOf(v, st)
	j := jv.(*Term)
	n := r.slice.len
	e.prove(st, "the entries form a sequence", "", e.Le(e.Int(0), n))
	rd := func(s *State, i *Term) []SV {
		return e.load(s, Ptr{nilT: e.False, obj: r.slice.arr, path: []PathElem{{field: -1, idx: e.Add(r.slice.off, i)}}})
	}
	// every entry is indexed, with its value
	s1 := st.clone()
	e.add(s1, e.And(e.Le(e.Int(0), j), e.Lt(j, n)))
	if e.alive(s1) {
		for _, sv := range rd(s1, j) {
			en := sv.v.(Struct)
			for _, lk := range e.mapLookup(sv.st, r.mp, en.f[r.keyF], true) {
				t := lk.v.(Tuple)
				e.prove(lk.st, "every entry is indexed", "", t[1].(*Term))
				e.prove(lk.st, "the index holds the value of the entry", "", e.eqVal(t[0], en.f[r.valF]))
			}
		}
		// distinct keys
		j2 := e.Var("j2", SInt)
		s2 := s1.clone()
		e.add(s2, e.And(e.Le(e.Int(0), j2), e.Lt(j2, j)))
		if e.alive(s2) {
			for _, a := range rd(s2, j) {
				for _, b := range rd(a.st, j2) {
					e.prove(b.st, "keys are distinct", "", e.Not(e.eqVal(a.v.(Struct).f[r.keyF], b.v.(Struct).f[r.keyF])))
				}
			}
		}
	}
	// every indexed key has an entry
	k := e.fromIface(kv, r.keyT)
	for _, lk := range e.mapLookup(st.clone(), r.mp, k, true) {
		s := lk.st
		has := lk.v.(Tuple)[1].(*Term)
		if !e.feasible(s, has) {
			continue
		}
		s = s.clone()
		e.add(s, has)
		ba := e.baseArr(r.arr)
		var cands []*Term
		if ba != nil {
			p := e.App(ba.base+"[].pos", SInt, append(append([]*Term{}, ba.args...), e.keyTerms(k)...)...)
			cands = append(cands, p, e.AddK(p, -1), e.AddK(p, 1))
		}
		cands = append(cands, e.AddK(n, -1), e.Int(0))
		proved := false
		// one witness, or a disjunction of witnesses
		var disj []*Term
		okd := true
		for _, c := range cands {
			in := e.And(e.Le(e.Int(0), c), e.Lt(c, n))
			s3 := s.clone()
			e.add(s3, in)
			if !e.alive(s3) {
				continue
			}
			svs := rd(s3, c)
			var alt []*Term
			for _, sv := range svs {
				alt = append(alt, e.And(append(pcDelta(s3.pc, sv.st.pc), e.eqVal(sv.v.(Struct).f[r.keyF], k))...))
			}
			disj = append(disj, e.And(in, e.Or(alt...)))
		}
		if okd {
			proved = e.prove(s, "every indexed key has an entry", "", e.Or(disj...))
		}
		_ = proved
	}
	return ok1(st)
}

var _ = fmt.Sprint

func init() {
	intrinsics2["Convertible"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		st.setGhost("convertible", e.True)
		return ok1(st)
	}
	// JSONIs(old, b, err, ordered, j, q)
	intrinsics2["JSONIs"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		b, _ := args[1].(Slice)
		isNil := e.isNilAny(args[2])
		if b.ghost == nil {
			_, failed := st.ghost["json.fail"]
			e.prove(st, "a conversion error is returned", "", e.And(e.Bool(failed), e.Not(isNil)))
			return ok1(st)
		}
		e.prove(st, "no error when the encoder has none", "", isNil)
		old := e.repOf(args[0], st)
		n := old.slice.len
		ord := args[3].(*Term)
		y, no := e.branch(st, ord)
		j := args[4].(*Term)
		in := e.And(e.Le(e.Int(0), j), e.Lt(j, n))
		oldAt := func(s *State, i *Term) []SV {
			return e.load(s, Ptr{nilT: e.False, obj: old.slice.arr, path: []PathElem{{field: -1, idx: e.Add(old.slice.off, i)}}})
		}
		g, okg := b.ghost.(Iface)
		if !okg || g.typ == nil {
			e.fail(st, "the JSON text holds exactly the entries", "something else is encoded")
			return ok1(st)
		}
		if y != nil {
			sl, ok := g.val.(Slice)
			if !ok {
				e.fail(y, "ordered output is the array of entries", "a "+g.typ.String()+" is encoded")
			} else {
				kf, vf := -1, -1
				if es, ok := under(sl.elem).(*types.Struct); ok {
					for i := 0; i < es.NumFields(); i++ {
						switch reflectTag(es.Tag(i)) {
						case "key":
							kf = i
						case "value":
							vf = i
						}
					}
					if es.NumFields() != 2 {
						kf = -1
					}
				}
				e.prove(y, "an item has the members key and value", "", e.Bool(kf >= 0 && vf >= 0))
				e.prove(y, "ordered output is the array of entries", "", e.And(e.Not(sl.nilT), e.Eq(sl.len, n)))
				s := y.clone()
				e.add(s, in)
				if kf >= 0 && vf >= 0 && e.alive(s) {
					for _, a := range oldAt(s, j) {
						for _, c := range e.load(a.st, Ptr{nilT: e.False, obj: sl.arr, path: []PathElem{{field: -1, idx: e.Add(sl.off, j)}}}) {
							o, w := a.v.(Struct), c.v.(Struct)
							ut := under(sl.elem).(*types.Struct)
							e.prove(c.st, "the items are the entries in order", "", e.And(
								e.deepSame(c.st, e.toIface(w.f[kf], ut.Field(kf).Type()), e.toIface(o.f[old.keyF], old.keyT), 0),
								e.deepSame(c.st, e.toIface(w.f[vf], ut.Field(vf).Type()), e.toIface(o.f[old.valF], old.valT), 0)))
						}
					}
				}
			}
		}
		if no != nil {
			mr, ok := g.val.(MapRef)
			if !ok {
				e.fail(no, "unordered output is an object", "a "+g.typ.String()+" is encoded")
				return ok1(st)
			}
			if ks, ok := e.sortOf(mr.typ.Key()); !ok || ks != SStr {
				e.fail(no, "unordered output is an object", "key type")
				return ok1(st)
			}
			e.assume["entries of an unordered JSON object have keys with distinct texts"] = true
			e.regAx("text", func(x *Term) []*Term {
				return []*Term{e.Eq(e.App("textinv", SAny, x), x.args[0])}
			})
			e.prove(no, "unordered output is an object", "", e.Not(mr.nilT))
			s := no.clone()
			e.add(s, in)
			if e.alive(s) {
				for _, a := range oldAt(s, j) {
					o := a.v.(Struct)
					t := e.textOf(e.toIface(o.f[old.keyF], old.keyT))
					for _, lk := range e.mapLookup(a.st, mr, t, true) {
						tp := lk.v.(Tuple)
						e.prove(lk.st, "every entry is a member of the object", "", tp[1].(*Term))
						e.prove(lk.st, "a member has the value of its entry", "", e.deepSame(lk.st,
							e.toIface(tp[0], mr.typ.Elem()), e.toIface(o.f[old.valF], old.valT), 0))
					}
				}
			}
			q := args[5]
			if i, ok := q.(Iface); ok {
				q = i.val
			}
			for _, lk := range e.mapLookup(no.clone(), mr, q, true) {
				has := lk.v.(Tuple)[1].(*Term)
				s := lk.st.clone()
				e.add(s, has)
				if !e.alive(s) {
					continue
				}
				var k Value = q
				var teq = e.True
				if ks, _ := e.sortOf(old.keyT); ks != SStr {
					k = e.App("textinv", SAny, q.(*Term))
					teq = e.Eq(e.App("text", SStr, k.(*Term)), q.(*Term))
				}
				for _, h := range e.mapLookup(s, old.mp, k, true) {
					e.prove(h.st, "every member of the object is an entry", "", e.And(teq, h.v.(Tuple)[1].(*Term)))
				}
			}
		}
		return ok1(st)
	}
}

func reflectTag(tag string) string {
	t := reflect.StructTag(tag).Get("json")
	if strings.Contains(t, ",") {
		return ""
	}
	return t
}
