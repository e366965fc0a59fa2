package main

// Go maps, iterators, builtins and strings.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// keyTerm flattens a map key into terms.
func (e *Engine) keyTerms(k Value) []*Term {
	var out []*Term
	e.flatten(k, &out)
	return out
}

// gmHas/gmGet: symbolic base maps are functions has(k), get(k).
func (e *Engine) gmHas(g *GMap, k Value) *Term {
	args := append(append([]*Term(nil), g.args...), e.keyTerms(k)...)
	h := e.App(g.base+".has", SBool, args...)
	if h.ax == nil && !h.bound {
		h.ax = []*Term{e.Implies(h, e.Lt(e.Int(0), g.n)), e.Le(e.Int(0), g.n)}
	}
	return h
}
func (e *Engine) gmGet(g *GMap, k Value) Value {
	args := append(append([]*Term(nil), g.args...), e.keyTerms(k)...)
	return e.symVal(g.typ.Elem(), g.base+".get", args...)
}

type mapHit struct {
	c   *Term // path condition
	has *Term
	v   Value // value when present
}

func (e *Engine) gmLookup(st *State, g *GMap, k Value) []mapHit {
	switch g.kind {
	case 'E':
		return []mapHit{{e.True, e.False, nil}}
	case 'S':
		return []mapHit{{e.True, e.gmHas(g, k), e.gmGet(g, k)}}
	case 'P', 'D':
		c := e.eqVal(g.k, k)
		top := mapHit{e.True, e.True, g.v}
		if g.kind == 'D' {
			top = mapHit{e.True, e.False, nil}
		}
		switch e.decide(st, c) {
		case 1:
			return []mapHit{top}
		case -1:
			return e.gmLookup(st, g.parent, k)
		}
		rest := e.gmLookup(st, g.parent, k)
		if len(rest) == 1 {
			r := rest[0]
			if g.kind == 'D' {
				return []mapHit{{e.True, e.And(e.Not(c), r.has), r.v}}
			}
			if r.v == nil {
				return []mapHit{{e.True, e.Or(c, r.has), g.v}}
			}
			if v, ok := e.tryMerge(c, g.v, r.v); ok {
				return []mapHit{{e.True, e.Or(c, r.has), v}}
			}
		}
		out := []mapHit{{c, top.has, top.v}}
		for _, r := range rest {
			out = append(out, mapHit{e.And(e.Not(c), r.c), r.has, r.v})
		}
		return out
	case 'G':
		h, u := e.genHas(g.gen, k, g.id)
		rest := e.gmLookup(st, g.parent, k)
		var out []mapHit
		if e.feasible(st, h) {
			out = append(out, mapHit{h, e.True, e.genElem(st, g.gen, 1, u)})
		}
		for _, r := range rest {
			out = append(out, mapHit{e.And(e.Not(h), r.c), r.has, r.v})
		}
		return out
	}
	panic(unsupported("lookup in an unknown map"))
}

// genHas: does a generated run of puts contain key k?  h is the answer, u the
// last iteration that put it (with defining axioms).
func (e *Engine) genHas(g *Gen, k Value, id int) (h, u *Term) {
	if g.elems == nil {
		panic(unsupported("lookup in a map under construction"))
	}
	ks := e.keyTerms(k)
	args := append([]*Term{}, ks...)
	h = e.App(fmt.Sprintf("genhas%d", id), SBool, args...)
	u = e.App(fmt.Sprintf("genlast%d", id), SInt, args...)
	if h.ax == nil && !h.bound {
		keyAt := func(x *Term) *Term {
			s := &substEnv{e: e, m: map[*Term]*Term{g.tvar: x}}
			c := e.eqVal(s.value(g.elems[0]), k)
			if g.guard != nil {
				c = e.And(c, s.t(g.guard))
			}
			return c
		}
		bv := e.BV("u", SInt)
		h.ax = []*Term{
			e.Implies(h, e.And(e.Le(e.Int(0), u), e.Lt(u, g.count), keyAt(u))),
		}
		ku := keyAt(bv)
		h.ax = append(h.ax,
			e.forallIter(bv, e.Implies(e.And(e.Not(h), e.Le(e.Int(0), bv), e.Lt(bv, g.count)), e.Not(ku)), ku),
			e.forallIter(bv, e.Implies(e.And(h, e.Lt(u, bv), e.Lt(bv, g.count)), e.Not(ku)), ku))
		u.ax = h.ax
	}
	return
}

// triggers picks E-matching patterns: minimal uninterpreted applications
// that mention the bound variable.
//
// forallIter quantifies over the iterations of a loop.  When the body talks
// about c±u only, the quantified variable is c±u instead: solvers find the
// instances by matching.
func (e *Engine) forallIter(bv, body, src *Term) *Term {
	var plain bool
	var lin *Term
	var rec func(y *Term)
	seen := map[*Term]bool{}
	rec = func(y *Term) {
		if !y.bound || seen[y] {
			return
		}
		seen[y] = true
		for _, a := range y.args {
			if y.op == OApp && a == bv {
				plain = true
			}
			if y.op == OApp && a.op == OLin && lin == nil {
				for i, x := range a.args {
					if x == bv && (a.coef[i] == 1 || a.coef[i] == -1) {
						lin = a
					}
				}
			}
			rec(a)
		}
	}
	rec(src)
	if plain || lin == nil {
		return e.Forall(bv, body, triggers(src, bv)...)
	}
	// lin = rest ± bv
	var c int64
	for i, x := range lin.args {
		if x == bv {
			c = lin.coef[i]
		}
	}
	rest := e.Sub(lin, e.MulK(bv, c))
	if mentions(rest, bv) {
		return e.Forall(bv, body, triggers(src, bv)...)
	}
	w := e.BV("w", SInt)
	m := map[*Term]*Term{bv: e.MulK(e.Sub(w, rest), c)}
	return e.Forall(w, e.Subst(body, m), triggers(e.Subst(src, m), w)...)
}

func triggers(x, bv *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(y *Term) bool // returns whether y mentions bv
	rec = func(y *Term) bool {
		if y == bv {
			return true
		}
		if !y.bound {
			return false
		}
		sub := false
		inner := false
		n0 := len(out)
		for _, a := range y.args {
			if rec(a) {
				sub = true
			}
		}
		inner = len(out) > n0
		if sub && y.op == OApp && !inner && !seen[y] && !hasArith(y, bv) {
			seen[y] = true
			out = append(out, y)
		}
		return sub || y.op == OApp && inner
	}
	rec(x)
	if len(out) == 0 {
		// fall back: applications with arithmetic on the bound variable
		var rec2 func(y *Term)
		rec2 = func(y *Term) {
			if !y.bound {
				return
			}
			if y.op == OApp && mentions(y, bv) && !seen[y] {
				seen[y] = true
				out = append(out, y)
				return
			}
			for _, a := range y.args {
				rec2(a)
			}
		}
		rec2(x)
	}
	return out
}

func hasArith(y, bv *Term) bool {
	if y.op == OLin || y.op == OIte {
		return mentions(y, bv)
	}
	for _, a := range y.args {
		if hasArith(a, bv) {
			return true
		}
	}
	return false
}

func (e *Engine) mapLookup(st *State, m MapRef, k Value, commaOk bool) []SV {
	z := e.zero(m.typ.Elem())
	mk := func(v Value, has *Term) Value {
		if commaOk {
			return Tuple{v, has}
		}
		return v
	}
	if m.obj == nil {
		return one(st, mk(z, e.False))
	}
	if e.readSet != nil {
		e.readSet[m.obj] = true
	}
	var out []SV
	hits := e.gmLookup(st, st.get(m.obj).(*GMap), k)
	for _, h := range hits {
		s := st
		if len(hits) > 1 {
			if !e.feasible(st, h.c) {
				continue
			}
			s = st.clone()
			e.add(s, h.c)
		}
		has := e.And(e.Not(m.nilT), h.has)
		switch {
		case has == e.False || h.v == nil:
			out = append(out, SV{s, mk(z, e.False)})
		case has == e.True:
			out = append(out, SV{s, mk(h.v, e.True)})
		default:
			if v, ok := e.tryMerge(has, h.v, z); ok {
				out = append(out, SV{s, mk(v, has)})
				continue
			}
			y, n := e.branch(s, has)
			if y != nil {
				out = append(out, SV{y, mk(h.v, e.True)})
			}
			if n != nil {
				out = append(out, SV{n, mk(z, e.False)})
			}
		}
	}
	return out
}

func (e *Engine) gmLen(g *GMap) *Term {
	switch g.kind {
	case 'E':
		return e.Int(0)
	case 'S':
		if g.n.ax == nil {
			g.n.ax = []*Term{e.Le(e.Int(0), g.n)}
		}
		return g.n
	}
	n := e.App(fmt.Sprintf("gmlen%d", g.id), SInt)
	if n.ax == nil {
		n.ax = []*Term{e.Le(e.Int(0), n)}
	}
	return n
}

// --- iterators ---------------------------------------------------------------------

// iterState: the iteration order of a map is an arbitrary enumeration, fixed
// per range statement: enum(t) lists every key exactly once.
type iterState struct {
	pos     *Term
	id      int
	src     Value
	content Value
}

func (e *Engine) iterContent(st *State, v Value) Value {
	if m, ok := v.(MapRef); ok {
		if m.obj == nil {
			return nil
		}
		return st.get(m.obj)
	}
	return nil
}

func (e *Engine) next(c *cfg, x *ssa.Next) []SV {
	it := e.val(c, x.Iter).(IterV)
	s := c.st.get(it.obj).(iterState)
	if x.IsString {
		panic(unsupported("range over string"))
	}
	m := s.src.(MapRef)
	tt := x.Type().(*types.Tuple)
	zk, zv := e.zeroOr(tt.At(1).Type()), e.zeroOr(tt.At(2).Type())
	if m.obj == nil {
		return one(c.st, Tuple{e.False, zk, zv})
	}
	g, ok := s.content.(*GMap)
	if !ok || c.st.get(m.obj) != s.content {
		panic(unsupported("map modified while it is ranged over"))
	}
	if g.kind == 'E' {
		return one(c.st, Tuple{e.False, zk, zv})
	}
	if g.kind != 'S' {
		panic(unsupported("range over a map built in place"))
	}
	n := e.gmLen(g)
	more := e.And(e.Not(m.nilT), e.Lt(s.pos, n))
	nm := fmt.Sprintf("enum%d", s.id)
	e.enumAxioms(g, nm, n)
	k := e.symVal(g.typ.Key(), nm, s.pos)
	ns := s
	ns.pos = e.AddK(s.pos, 1)
	st2 := c.st.clone()
	st2.heap[it.obj] = ns
	return one(st2, Tuple{more, k, e.gmGet(g, k)})
}

func (e *Engine) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return e.zero(t)
}

// witness keys K(pos(k)), enum(pos(k)) equal the key they are the witness of:
// they need no witnesses of their own.
func witness(k *Term) bool {
	if k.op != OApp || len(k.args) == 0 {
		return false
	}
	a := k.args[len(k.args)-1]
	return a.op == OApp && strings.HasSuffix(a.name, ".pos")
}

// enumAxioms: enum(t) for 0<=t<n are exactly the keys of the base map.
func (e *Engine) enumAxioms(g *GMap, nm string, n *Term) {
	s, ok := e.sortOf(g.typ.Key())
	if !ok {
		panic(unsupported("range over a map with key type %s", g.typ.Key()))
	}
	inv := nm + ".pos"
	e.regAx(nm, func(x *Term) []*Term {
		t := x.args[0]
		return []*Term{e.Implies(e.And(e.Le(e.Int(0), t), e.Lt(t, n)), e.And(e.gmHas(g, x), e.Eq(e.App(inv, SInt, x), t)))}
	})
	e.regAx(g.base+".has", func(h *Term) []*Term { return nil })
	prev := e.axFns[g.base+".has"]
	e.axFns[g.base+".has"] = func(h *Term) []*Term {
		if h.bound {
			return nil
		}
		k := h.args[len(h.args)-1]
		p := e.App(inv, SInt, k)
		out := append([]*Term(nil), prev(h)...)
		if witness(k) {
			return append(out, e.Le(e.Int(0), n), e.Implies(h, e.Lt(e.Int(0), n)))
		}
		return append(out, e.Le(e.Int(0), n), e.Implies(h, e.Lt(e.Int(0), n)),
			e.Implies(h, e.And(e.Le(e.Int(0), p), e.Lt(p, n), e.Eq(e.App(nm, s, p), k))))
	}
	// already existing applications get the axioms too
	for _, x := range e.tab {
		if x.op == OApp && x.name == g.base+".has" && !x.bound {
			x.ax = e.axFns[g.base+".has"](x)
		}
	}
}

// --- builtins -------------------------------------------------------------------------

func (e *Engine) builtin(name string, args []Value, st *State, pos token.Pos) []Outcome {
	ret := func(v Value) []Outcome { return []Outcome{{st: st, vals: []Value{v}}} }
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case Slice:
			if name == "cap" {
				return ret(x.cap)
			}
			return ret(x.len)
		case *Term:
			return ret(e.strLen(x))
		case MapRef:
			if x.obj == nil {
				return ret(e.Int(0))
			}
			return ret(e.Ite(x.nilT, e.Int(0), e.gmLen(st.get(x.obj).(*GMap))))
		}
	case "append":
		a := args[0].(Slice)
		var b Slice
		switch y := args[1].(type) {
		case Slice:
			b = y
		case *Term:
			b = e.bytesOf(st, y, a.elem)
		}
		s, v := e.appendSlice(st, a, b)
		return []Outcome{{st: s, vals: []Value{v}}}
	case "copy":
		a := args[0].(Slice)
		b, ok := args[1].(Slice)
		if !ok {
			panic(unsupported("copy from string"))
		}
		n := e.Ite(e.Le(a.len, b.len), a.len, b.len)
		if d := e.decide(st, e.Le(a.len, b.len)); d == 1 {
			n = a.len
		} else if d == -1 {
			n = b.len
		}
		if n != e.Int(0) && a.arr != nil && b.arr != nil {
			da, sa := st.get(a.arr).(*Arr), st.get(b.arr).(*Arr)
			st.heap[a.arr] = e.copyArr(da, a.off, sa, b.off, n)
		}
		return ret(n)
	case "delete":
		m := args[0].(MapRef)
		if m.obj == nil {
			return []Outcome{{st: st}}
		}
		g := st.get(m.obj).(*GMap)
		st.heap[m.obj] = &GMap{typ: g.typ, kind: 'D', parent: g, k: args[1], id: e.nextArr()}
		return []Outcome{{st: st}}
	case "clear":
		if m, ok := args[0].(MapRef); ok && m.obj != nil {
			st.heap[m.obj] = &GMap{typ: m.typ, kind: 'E', id: e.nextArr()}
			return []Outcome{{st: st}}
		}
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			c := e.Le(r, a.(*Term))
			if name == "min" {
				r = e.Ite(c, r, a.(*Term))
			} else {
				r = e.Ite(c, a.(*Term), r)
			}
		}
		return ret(r)
	case "print", "println":
		return []Outcome{{st: st}}
	case "recover":
		return ret(Iface{})
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		switch e.decide(st, p.nilT) {
		case -1:
			return ret(p)
		case 1:
			return []Outcome{{st: st, panic: true, msg: "nil receiver for value method at " + e.posOf(pos)}}
		}
		y, n := e.branch(st, p.nilT)
		return []Outcome{{st: y, panic: true, msg: "nil receiver for value method at " + e.posOf(pos)}, {st: n, vals: []Value{p}}}
	}
	panic(unsupported("builtin %s", name))
}

func (e *Engine) copyArr(dst *Arr, doff *Term, src *Arr, soff, n *Term) *Arr {
	if n.op == OInt && n.k <= 8 { // small copies element-wise when the source is concrete
		if n.k == 0 {
			return dst
		}
	}
	return &Arr{elem: dst.elem, kind: 'C', parent: dst, idx: doff, n: n, src: src, soff: soff, id: e.nextArr()}
}

// appendSlice models append(a, b...).  When the result provably fits the
// capacity the elements are written in place; otherwise a new array is
// allocated.  (A result that only may fit is treated as reallocated: the
// in-place case differs only for observers holding a longer slice of the same
// array.)
func (e *Engine) appendSlice(st *State, a, b Slice) (*State, Slice) {
	nl := e.Add(a.len, b.len)
	if b.len == e.Int(0) {
		return st, a
	}
	var bv *Arr
	if b.arr != nil {
		bv = st.get(b.arr).(*Arr)
	} else {
		return st, a
	}
	put := func(base *Arr, at *Term) *Arr {
		if b.len.op == OInt && b.len.k <= 16 {
			r := base
			for i := int64(0); i < b.len.k; i++ {
				gv := e.readArr(st, bv, e.AddK(b.off, i))
				if len(gv) != 1 {
					return e.copyArr(base, at, bv, b.off, b.len)
				}
				r = e.writeArr(r, e.AddK(at, i), gv[0].v)
			}
			return r
		}
		return e.copyArr(base, at, bv, b.off, b.len)
	}
	if a.arr != nil && e.decide(st, e.Le(nl, a.cap)) == 1 {
		av := st.get(a.arr).(*Arr)
		st.heap[a.arr] = put(av, e.Add(a.off, a.len))
		return st, Slice{nilT: e.False, arr: a.arr, off: a.off, len: nl, cap: a.cap, elem: a.elem}
	}
	if a.short && e.feasible(st, e.And(e.Lt(e.Int(0), b.len), e.Lt(a.len, a.cap))) {
		panic(unsupported("append to a part of a slice: it may or may not change the rest"))
	}
	o := e.newObj(types.NewArray(a.elem, 0), "array")
	var base *Arr
	if a.arr == nil {
		base = &Arr{elem: a.elem, kind: 'Z', id: e.nextArr()}
	} else if a.off == e.Int(0) {
		base = st.get(a.arr).(*Arr)
	} else {
		base = e.copyArr(&Arr{elem: a.elem, kind: 'Z', id: e.nextArr()}, e.Int(0), st.get(a.arr).(*Arr), a.off, a.len)
	}
	st.heap[o] = put(base, a.len)
	cp := e.Var("cap", SInt)
	cp.ax = []*Term{e.Le(nl, cp)}
	// append of zero elements to a nil slice stays nil
	nn := e.And(a.nilT, e.Eq(b.len, e.Int(0)))
	return st, Slice{nilT: nn, arr: o, off: e.Int(0), len: nl, cap: cp, elem: a.elem}
}

// --- strings -----------------------------------------------------------------------------

func init() {
	foldFns["strlen"] = func(t *TT, a []*Term) *Term {
		if a[0].op == OStr {
			return t.Int(int64(len(a[0].name)))
		}
		return nil
	}
	foldFns["strat"] = func(t *TT, a []*Term) *Term {
		if a[0].op == OStr && a[1].op == OInt && a[1].k >= 0 && a[1].k < int64(len(a[0].name)) {
			return t.Int(int64(a[0].name[a[1].k]))
		}
		return nil
	}
	foldFns["substr"] = func(t *TT, a []*Term) *Term {
		if a[0].op == OStr && a[1].op == OInt && a[2].op == OInt && 0 <= a[1].k && a[1].k <= a[2].k && a[2].k <= int64(len(a[0].name)) {
			return t.Str(a[0].name[a[1].k:a[2].k])
		}
		return nil
	}
	foldFns["strcat"] = func(t *TT, a []*Term) *Term {
		if a[0].op == OStr && a[1].op == OStr {
			return t.Str(a[0].name + a[1].name)
		}
		return nil
	}
	foldFns["strlt"] = func(t *TT, a []*Term) *Term {
		if a[0].op == OStr && a[1].op == OStr {
			return t.Bool(a[0].name < a[1].name)
		}
		return nil
	}
	foldFns["strindex"] = func(t *TT, a []*Term) *Term {
		if a[0].op == OStr && a[1].op == OStr {
			return t.Int(int64(strings.Index(a[0].name, a[1].name)))
		}
		return nil
	}
	foldFns["strcount"] = func(t *TT, a []*Term) *Term {
		if a[0].op == OStr && a[1].op == OStr {
			return t.Int(int64(strings.Count(a[0].name, a[1].name)))
		}
		return nil
	}
	foldFns["strlast"] = func(t *TT, a []*Term) *Term {
		if a[0].op == OStr && a[1].op == OStr {
			return t.Int(int64(strings.LastIndex(a[0].name, a[1].name)))
		}
		return nil
	}
	foldFns["strhassuffix"] = func(t *TT, a []*Term) *Term {
		if a[0].op == OStr && a[1].op == OStr {
			return t.Bool(strings.HasSuffix(a[0].name, a[1].name))
		}
		return nil
	}
	for n, f := range map[string]func(string) string{"tolower": strings.ToLower, "toupper": strings.ToUpper, "trimspace": strings.TrimSpace} {
		f := f
		foldFns["str"+n] = func(t *TT, a []*Term) *Term {
			if a[0].op == OStr {
				return t.Str(f(a[0].name))
			}
			return nil
		}
	}
}

func (e *Engine) strLen(s *Term) *Term {
	e.regAx("strlen", func(x *Term) []*Term {
		return []*Term{e.Le(e.Int(0), x), e.Le(x, e.Int(1<<40)), e.Iff(e.Eq(x, e.Int(0)), e.Eq(x.args[0], e.Str("")))}
	})
	return e.AppF("strlen", SInt, s)
}
func (e *Engine) strAt(s, i *Term) *Term {
	e.regAx("strat", func(x *Term) []*Term {
		out := []*Term{e.Le(e.Int(0), x), e.Le(x, e.Int(255))}
		if s, i := x.args[0], x.args[1]; !x.bound && s.op != OStr && i.op != OInt {
			// a character met by a search
			for _, c := range strChars {
				n := e.strIndex(s, e.Str(c))
				out = append(out, e.Implies(e.And(e.Le(e.Int(0), i), e.Lt(i, e.strLen(s)), e.Eq(x, e.Int(int64(c[0])))),
					e.And(e.Le(e.Int(0), n), e.Le(n, i))))
			}
		}
		return out
	})
	return e.AppF("strat", SInt, s, i)
}
func (e *Engine) substr(s, lo, hi *Term) *Term {
	if lo == e.Int(0) && hi == e.strLen(s) {
		return s
	}
	e.regAx("substr", func(x *Term) []*Term {
		return []*Term{e.Implies(e.And(e.Le(e.Int(0), x.args[1]), e.Le(x.args[1], x.args[2])), e.Eq(e.strLen(x), e.Sub(x.args[2], x.args[1])))}
	})
	return e.AppF("substr", SStr, s, lo, hi)
}
func (e *Engine) concat(a, b *Term) *Term {
	if a == e.Str("") {
		return b
	}
	if b == e.Str("") {
		return a
	}
	e.regAx("strcat", func(x *Term) []*Term {
		return []*Term{e.Eq(e.strLen(x), e.Add(e.strLen(x.args[0]), e.strLen(x.args[1])))}
	})
	return e.AppF("strcat", SStr, a, b)
}

// hasPrefix(s, p) for a literal p is spelled out over the characters.
func (e *Engine) hasPrefix(s, p *Term) *Term {
	if p.op != OStr {
		return e.App("strhasprefix", SBool, s, p)
	}
	if s.op == OStr {
		return e.Bool(strings.HasPrefix(s.name, p.name))
	}
	cs := []*Term{e.Le(e.Int(int64(len(p.name))), e.strLen(s))}
	for i := 0; i < len(p.name); i++ {
		cs = append(cs, e.Eq(e.strAt(s, e.Int(int64(i))), e.Int(int64(p.name[i]))))
	}
	return e.And(cs...)
}

// strCount is the number of occurrences of a literal, strLast the position of
// the last one.
func (e *Engine) strCount(s, sub *Term) *Term {
	e.regAx("strcount", func(x *Term) []*Term {
		return []*Term{e.Le(e.Int(0), x), e.Iff(e.Lt(e.Int(0), x), e.Le(e.Int(0), e.strIndex(x.args[0], x.args[1])))}
	})
	return e.AppF("strcount", SInt, s, sub)
}

func (e *Engine) strLast(s, sub *Term) *Term {
	e.regAx("strlast", func(x *Term) []*Term {
		return []*Term{e.Le(e.strIndex(x.args[0], x.args[1]), x), e.Iff(e.Le(e.Int(0), x), e.Le(e.Int(0), e.strIndex(x.args[0], x.args[1])))}
	})
	return e.AppF("strlast", SInt, s, sub)
}

func (e *Engine) strIndex(s, sub *Term) *Term {
	e.regAx("strindex", func(x *Term) []*Term {
		out := []*Term{e.Le(e.Int(-1), x), e.Implies(e.Le(e.Int(0), x), e.Le(e.Add(x, e.strLen(x.args[1])), e.strLen(x.args[0])))}
		if x.args[1].op == OStr {
			out = append(out, e.Iff(e.Eq(x, e.Int(0)), e.hasPrefix(x.args[0], x.args[1])))
			if len(x.args[1].name) == 1 && x.args[0].op != OStr && !x.bound {
				out = append(out, e.Implies(e.Le(e.Int(0), x), e.Eq(e.strAt(x.args[0], x), e.Int(int64(x.args[1].name[0])))))
			}
		}
		return out
	})
	return e.AppF("strindex", SInt, s, sub)
}
