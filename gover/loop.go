package main

// Loops with an arbitrary number of iterations.  The loop invariant is
// inferred from the body (closed forms of counters, accumulators, flags and
// the history of earlier iterations) and then checked to be inductive.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type iterEnd struct {
	st   *State
	phis []Value
	c    *cfg
}

type loopSpec struct {
	name     string
	phis0    []Value
	phiTypes []types.Type
	ssaLoop  bool
	run      func(st *State, phis []Value, t *Term) (outs []Outcome, stops, exits []iterEnd)
}

// wantsSummary: loops whose tests are constants are unrolled; so are loops
// that run once on the current path.
func (e *Engine) wantsSummary(fr *frame, lp *loop, c *cfg) bool {
	if c.noSum {
		return false
	}
	q := e.quiet
	e.quiet = true
	defer func() { e.quiet = q }()
	n, exits, sym := e.peekHeader(fr, lp, c)
	if n > 1 {
		return true
	}
	if !sym || exits {
		return false
	}
	if c.visits[lp] > 0 {
		return false
	}
	// taken for sure, but not by evaluation: more than one iteration?
	p := c.fork(c.st.clone())
	p.noSum = true
	p.phis = map[*ssa.Phi]Value{}
	phis := phisOf(lp.header)
	for i, v := range e.phiVals(c, phis) {
		p.phis[phis[i]] = v
	}
	sd, sl := e.depth, len(e.callStack)
	_, stops, _, _ := e.region(fr, p, lp, nil)
	e.depth, e.callStack = sd, e.callStack[:sl]
	for _, s := range stops {
		n, exits, _ := e.peekHeader(fr, lp, s)
		if n > 1 || !exits {
			return true
		}
	}
	return false
}

// peekHeader runs the header alone: how many ways does it go, does it leave
// the loop for sure, and was a solver needed to tell.
func (e *Engine) peekHeader(fr *frame, lp *loop, c *cfg) (n int, exits, sym bool) {
	p := c.fork(c.st.clone())
	var dummy []Outcome
	d0 := e.symDecides
	e.enterBlock(p)
	work := []*cfg{p}
	succ := map[*ssa.BasicBlock]bool{}
	exits = true
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, r := range e.runBlock(fr, x, &dummy) {
			if r.ip == 0 {
				succ[r.blk] = true
				if lp.blocks[r.blk] {
					exits = false
				}
			} else {
				work = append(work, r)
			}
		}
	}
	return len(succ), exits, e.symDecides > d0
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		}
	}
	return out
}

func (e *Engine) phiVals(c *cfg, phis []*ssa.Phi) []Value {
	out := make([]Value, len(phis))
	for i, p := range phis {
		for j, pr := range c.blk.Preds {
			if pr == c.prev {
				out[i] = e.val(c, p.Edges[j])
			}
		}
	}
	return out
}

func (e *Engine) summarise(fr *frame, lp *loop, c *cfg) ([]Outcome, []*cfg) {
	phis := phisOf(lp.header)
	L := &loopSpec{name: "loop in " + fr.fn.String(), phis0: e.phiVals(c, phis), ssaLoop: true}
	for _, p := range phis {
		L.phiTypes = append(L.phiTypes, p.Type())
	}
	L.run = func(st *State, pv []Value, t *Term) (outs []Outcome, stops, exits []iterEnd) {
		c2 := c.fork(st)
		c2.phis = map[*ssa.Phi]Value{}
		for i, p := range phis {
			c2.phis[p] = pv[i]
		}
		o, s, x, _ := e.region(fr, c2, lp, nil)
		for _, k := range s {
			stops = append(stops, iterEnd{st: k.st, phis: e.phiVals(k, phis), c: k})
		}
		for _, k := range x {
			exits = append(exits, iterEnd{st: k.st, c: k})
		}
		return o, stops, exits
	}
	outs, exits := e.summariseLoop(c.st, L)
	var conts []*cfg
	for _, x := range exits {
		x.c.st = x.st
		conts = append(conts, x.c)
	}
	return outs, conts
}

// --- locations ----------------------------------------------------------------

type locKey struct {
	phi  int // -1: heap
	obj  *Obj
	path string
}
type loc struct {
	key  locKey
	path []int
	typ  types.Type
	form byte // '?', '=', 'L' linear, 'A' slice, 'M' amap, 'G' gomap, 'W' last writer, 'F' first writer, 'I' iterator, 'H' havoc
	c    int64
	cur  Value // value at the head of iteration t
	init Value
	gen  *Gen
	wr   []writeCase
	hit  *Term // 'F': the write has happened ('A' with wr: the one iteration that appends nothing)
	at   *Term // the iteration in which it has
}
type writeCase struct {
	cond *Term
	val  Value
}

func (e *Engine) leafTypes(c Value, t types.Type, path []int, visit func(path []int, v Value, t types.Type)) {
	if s, ok := c.(Struct); ok {
		st, ok := under(t).(*types.Struct)
		if !ok {
			st, ok = under(s.typ).(*types.Struct)
		}
		for i, f := range s.f {
			e.leafTypes(f, st.Field(i).Type(), append(append([]int(nil), path...), i), visit)
		}
		return
	}
	visit(path, c, t)
}
func getPath(c Value, path []int) Value {
	for _, i := range path {
		c = c.(Struct).f[i]
	}
	return c
}
func setPath(c Value, path []int, v Value) Value {
	if len(path) == 0 {
		return v
	}
	s := c.(Struct)
	n := Struct{typ: s.typ, f: append([]Value(nil), s.f...)}
	n.f[path[0]] = setPath(s.f[path[0]], path[1:], v)
	return n
}

// same: certainly the same value (structural identity).
func (e *Engine) same(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		return a == b
	case *Arr, *GMap:
		return a == b
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.obj == y.obj && x.sym == y.sym && x.nilT == y.nilT && samePath(x.path, y.path)
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !e.same(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		if am, ok := x.typ.(*amType); ok {
			return y.typ == types.Type(am) && e.same(x.val, y.val)
		}
		if _, ok := y.typ.(*amType); ok {
			return false
		}
		return types.Identical(x.typ, y.typ) && e.same(x.val, y.val)
	case Slice:
		y, ok := b.(Slice)
		return ok && x.arr == y.arr && x.off == y.off && x.len == y.len && x.nilT == y.nilT
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x.obj == y.obj && x.nilT == y.nilT
	case AMState:
		y, ok := b.(AMState)
		return ok && x.m == y.m && x.ord == y.ord
	case iterState:
		y, ok := b.(iterState)
		return ok && x.pos == y.pos && x.id == y.id
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !e.same(x[i], y[i]) {
				return false
			}
		}
		return true
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.fn != y.fn || x.name != y.name || len(x.bind) != len(y.bind) || x.prim != nil || y.prim != nil {
			return false
		}
		for i := range x.bind {
			if !e.same(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case IterV:
		y, ok := b.(IterV)
		return ok && x.obj == y.obj
	case RVal:
		y, ok := b.(RVal)
		return ok && e.same(x.v, y.v)
	}
	return false
}

func pcDelta(from, to *PC) []*Term {
	var out []*Term
	for q := to; q != from; q = q.parent {
		if q == nil {
			panic("pcDelta: not an extension")
		}
		out = append(out, q.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// summariseLoop explores an arbitrary iteration and returns what leaves the
// loop.
func (e *Engine) summariseLoop(st0 *State, L *loopSpec) (outs []Outcome, exits []iterEnd) {
	fold := st0.fold
	var later *FoldReq // the fold is still to come
	defer func() {
		if later != nil {
			for i := range outs {
				outs[i].st.fold = later
			}
			for i := range exits {
				exits[i].st.fold = later
			}
		}
	}()
	if fold != nil {
		st0 = st0.clone()
		st0.fold = nil
		for _, o := range e.changedSince(fold.entry, st0) {
			panic(unsupported("%s is modified before the entries are processed", o.name))
		}
	}
	e.loopSummaries++
	q0 := e.quiet
	t := e.Var("t", SInt)
	t.ax = []*Term{e.Le(e.Int(0), t)}
	epoch0 := e.epoch

	locs := map[locKey]*loc{}
	var order []*loc
	addLoc := func(l *loc) {
		locs[l.key] = l
		order = append(order, l)
	}
	for i := range L.phis0 {
		addLoc(&loc{key: locKey{phi: i}, typ: L.phiTypes[i], init: L.phis0[i], form: '?'})
	}
	// state at the head of iteration t under the current forms
	build := func() (*State, []Value) {
		s := st0.clone()
		e.add(s, e.Le(e.Int(0), t))
		phis := append([]Value(nil), L.phis0...)
		for _, l := range order {
			v := e.headValue(s, l, t)
			l.cur = v
			if l.key.phi >= 0 && l.key.obj == nil {
				phis[l.key.phi] = v
			} else {
				s.heap[l.key.obj] = setPath(s.get(l.key.obj), l.path, v)
			}
		}
		return s, phis
	}
	nextOf := func(l *loc, end iterEnd) Value {
		if l.key.obj == nil {
			return end.phis[l.key.phi]
		}
		return getPath(end.st.get(l.key.obj), l.path)
	}

	var head *State
	var stops []iterEnd
	for round := 0; ; round++ {
		if round > 14 {
			panic(unsupported("loop analysis does not converge (%s)", L.name))
		}
		// dry run
		e.quiet = true
		var phis []Value
		head, phis = build()
		_, stops, _ = L.run(head.clone(), phis, t)
		e.quiet = q0
		changed := false
		if fold != nil && round == 0 {
			touches := false
			for _, sp := range stops {
				for o, v := range sp.st.heap {
					hv, ok := head.heap[o]
					if !ok {
						hv = o.init
					}
					if fold.owned(o) && hv != nil && !e.same(hv, v) {
						touches = true
					}
				}
			}
			if !touches {
				// a loop that only looks: an ordinary loop
				fold, later = nil, fold
			}
		}
		// newly modified heap locations
		for _, sp := range stops {
			for o, v := range sp.st.heap {
				hv, ok := head.heap[o]
				if !ok {
					if o.init == nil {
						continue // allocated by the iteration
					}
					hv = o.init
				}
				if fold != nil && fold.owned(o) {
					continue // arbitrary at every head
				}
				e.diff(hv, v, o.typ, nil, func(path []int, was Value, typ types.Type) {
					k := locKey{phi: -1, obj: o, path: fmt.Sprint(path)}
					if locs[k] == nil {
						iv := st0.get(o)
						addLoc(&loc{key: k, path: path, typ: typ, init: getPath(iv, path), form: '?'})
						changed = true
					}
				})
			}
		}
		if changed {
			continue
		}
		// classify what is still open: counters and constants first
		stage2 := true
		for _, l := range order {
			if l.form != '?' {
				continue
			}
			f, c := e.classify1(l, stops, nextOf)
			if f != 0 {
				l.form, l.c = f, c
				changed, stage2 = true, false
			}
		}
		if stage2 {
			var open []*loc
			found := false
			for _, l := range order {
				if l.form == '?' {
					e.classify2(head, l, stops, nextOf, epoch0, t, L)
					changed = true
					if l.form == 'H' {
						open = append(open, l)
					} else {
						found = true
					}
				}
			}
			if found {
				// what is known now may be what these depend on
				for _, l := range open {
					l.form = '?'
				}
			}
		}
		if changed {
			continue
		}
		// final run
		nob := len(e.obls)
		head, phis = build()
		outs, stops, exits = L.run(head.clone(), phis, t)
		bad := false
		for _, sp := range stops {
			for _, l := range order {
				if !e.inductive(head, l, nextOf(l, sp), sp, t, epoch0) {
					if l.form == 'H' {
						panic(unsupported("havocked location is not inductive"))
					}
					l.form = 'H'
					bad = true
				}
			}
			for o, v := range sp.st.heap {
				hv, ok := head.heap[o]
				if !ok {
					if o.init == nil {
						continue
					}
					hv = o.init
				}
				if fold != nil && fold.owned(o) {
					continue
				}
				e.diff(hv, v, o.typ, nil, func(path []int, was Value, typ types.Type) {
					if locs[locKey{phi: -1, obj: o, path: fmt.Sprint(path)}] == nil {
						panic(unsupported("loop modifies an unforeseen location (%s)", L.name))
					}
				})
			}
		}
		if bad {
			e.obls = e.obls[:nob]
			continue
		}
		break
	}
	// accumulators: fill in the templates
	for _, l := range order {
		switch l.form {
		case 'A', 'B', 'M', 'G':
			if !e.fillGen(head, l, stops, nextOf, t, L) {
				panic(unsupported("accumulator in %s", L.name))
			}
		}
	}
	e.loopEnds(st0, head, stops, t, epoch0, L)
	if fold != nil {
		e.foldFinish(fold, head, stops, exits, outs, t)
		return outs, exits
	}
	// history of the completed iterations
	e.history(head, st0, stops, exits, outs, t, epoch0)
	return outs, exits
}

// diff visits the leaves where b differs from a.
func (e *Engine) diff(a, b Value, t types.Type, path []int, visit func(path []int, was Value, t types.Type)) {
	x, ok1 := a.(Struct)
	y, ok2 := b.(Struct)
	if ok1 && ok2 && len(x.f) == len(y.f) {
		ut, ok := under(x.typ).(*types.Struct)
		for i := range x.f {
			var ft types.Type
			if ok {
				ft = ut.Field(i).Type()
			}
			e.diff(x.f[i], y.f[i], ft, append(append([]int(nil), path...), i), visit)
		}
		return
	}
	if !e.same(a, b) {
		visit(path, a, t)
	}
}

// headValue is the value of a location at the head of iteration t.
func (e *Engine) headValue(s *State, l *loc, t *Term) Value {
	switch l.form {
	case '=':
		return l.init
	case 'L':
		return e.Add(l.init.(*Term), e.MulK(t, l.c))
	case 'I':
		it := l.init.(iterState)
		it.pos = e.Add(it.pos, t)
		return it
	case 'W', 'F':
		return e.writerValue(s, l, t)
	case 'A':
		return e.genSlice(s, l, t)
	case 'B':
		a := l.init.(*Arr)
		return &Arr{elem: a.elem, kind: 'G', parent: a, gen: l.gen, idx: l.at, id: e.nextArr()}
	case 'M':
		c := l.init.(AMState)
		return AMState{m: &AMap{kind: 'G', parent: c.m, gen: l.gen, id: e.nextArr(), am: c.m.am}, ord: c.ord}
	case 'G':
		g := l.init.(*GMap)
		return &GMap{typ: g.typ, kind: 'G', parent: g, gen: l.gen, id: e.nextArr()}
	}
	// unknown
	switch v := l.init.(type) {
	case Slice:
		if l.form == '?' {
			g := &Gen{count: t, tvar: t, insts: map[*Term]*instance{}}
			o := e.newObj(types.NewArray(v.elem, 0), "acc")
			var base *Arr
			if v.arr != nil {
				base = s.get(v.arr).(*Arr)
			} else {
				base = &Arr{elem: v.elem, kind: 'Z', id: e.nextArr()}
			}
			s.heap[o] = &Arr{elem: v.elem, kind: 'G', parent: base, gen: g, idx: e.Add(v.off, v.len), id: e.nextArr()}
			ln := e.Var("len", SInt)
			ln.ax = []*Term{e.Le(v.len, ln)}
			cp := e.Var("cap", SInt)
			cp.ax = []*Term{e.Le(ln, cp)}
			return Slice{nilT: e.And(v.nilT, e.Var("isnil", SBool)), arr: o, off: e.Int(0), len: ln, cap: cp, elem: v.elem}
		}
		return e.freshVal(types.NewSlice(v.elem), "h")
	case AMState:
		return AMState{m: &AMap{kind: 'G', parent: v.m, gen: &Gen{count: t, tvar: t, insts: map[*Term]*instance{}}, id: e.nextArr(), am: v.m.am}, ord: v.ord}
	case *GMap:
		return &GMap{typ: v.typ, kind: 'G', parent: v, gen: &Gen{count: t, tvar: t, insts: map[*Term]*instance{}}, id: e.nextArr()}
	case iterState:
		v.pos = e.Var("pos", SInt)
		v.pos.ax = []*Term{e.Le(e.Int(0), v.pos)}
		return v
	case *Arr:
		return &Arr{elem: v.elem, kind: '?', id: e.nextArr()}
	case *Term:
		if l.typ == nil {
			return e.Var("h", v.sort)
		}
		return e.freshVal(l.typ, "h")
	case Iface:
		return e.Var("h", SAny)
	}
	if l.typ == nil {
		panic(unsupported("loop modifies a location of unknown type"))
	}
	return e.freshVal(l.typ, "h")
}

func (e *Engine) genSlice(s *State, l *loc, t *Term) Slice {
	v, g, stride := l.init.(Slice), l.gen, l.c
	if len(l.wr) > 0 {
		e.firstWriter(s, l, t)
		g.skipH, g.skipW = l.hit, l.at
		g.insts = map[*Term]*instance{}
	}
	o := e.newObj(types.NewArray(v.elem, 0), "acc")
	var base *Arr
	if v.arr != nil {
		base = s.get(v.arr).(*Arr)
	} else {
		base = &Arr{elem: v.elem, kind: 'Z', id: e.nextArr()}
	}
	s.heap[o] = &Arr{elem: v.elem, kind: 'G', parent: base, gen: g, idx: e.Add(v.off, v.len), id: e.nextArr()}
	cp := e.Var("cap", SInt)
	_ = stride
	ln := e.Add(v.len, e.genLen(g))
	cp.ax = []*Term{e.Le(ln, cp)}
	return Slice{nilT: e.And(v.nilT, e.Eq(ln, v.len)), arr: o, off: v.off, len: ln, cap: cp, elem: v.elem}
}

func (e *Engine) classify1(l *loc, stops []iterEnd, nextOf func(*loc, iterEnd) Value) (byte, int64) {
	if len(stops) == 0 {
		return '=', 0
	}
	allSame := true
	for _, sp := range stops {
		if !e.same(nextOf(l, sp), l.cur) {
			allSame = false
		}
	}
	if allSame {
		return '=', 0
	}
	switch cur := l.cur.(type) {
	case *Term:
		if cur.sort != SInt {
			return 0, 0
		}
		var c int64
		for i, sp := range stops {
			n, ok := nextOf(l, sp).(*Term)
			if !ok {
				return 0, 0
			}
			d := e.Sub(n, cur)
			if d.op != OInt || i > 0 && d.k != c {
				return 0, 0
			}
			c = d.k
		}
		return 'L', c
	case iterState:
		for _, sp := range stops {
			n := nextOf(l, sp).(iterState)
			if n.pos != e.AddK(cur.pos, 1) {
				return 0, 0
			}
		}
		return 'I', 1
	}
	return 0, 0
}

// classify2: accumulators and last-writer variables.
func (e *Engine) classify2(head *State, l *loc, stops []iterEnd, nextOf func(*loc, iterEnd) Value, epoch0 int, t *Term, L *loopSpec) {
	l.form = 'H'
	switch cur := l.cur.(type) {
	case Slice:
		n := int64(-1)
		var skips []*Term
		for _, sp := range stops {
			nx, ok := nextOf(l, sp).(Slice)
			if !ok {
				return
			}
			els, ok := e.appended(head, sp.st, cur, nx)
			if !ok {
				return
			}
			if len(els) == 0 {
				skips = append(skips, e.And(pcDelta(head.pc, sp.st.pc)...))
				continue
			}
			if n >= 0 && int64(len(els)) != n {
				return
			}
			n = int64(len(els))
		}
		if v := l.init.(Slice); v.short && n > 0 {
			panic(unsupported("append to a part of a slice in a loop: it may change the rest"))
		}
		if n < 0 {
			n = 0
		} else if len(skips) > 0 {
			// all iterations but one append an element
			c := e.Or(skips...)
			if n != 1 || c.syms > epoch0 {
				return
			}
			l.wr = []writeCase{{c, nil}}
		}
		l.form, l.c = 'A', n
		l.gen = &Gen{stride: n, count: t, tvar: e.Var("tv", SInt), insts: map[*Term]*instance{}}
	case *Arr:
		// iteration t sets element at+t
		for _, sp := range stops {
			at := arrStep(e, cur, nextOf(l, sp), t)
			if at == nil || at.syms > epoch0 || mentions(at, t) || l.at != nil && l.at != at {
				return
			}
			l.at = at
		}
		l.form, l.c = 'B', 1
		l.gen = &Gen{stride: 1, count: t, tvar: e.Var("tv", SInt), insts: map[*Term]*instance{}}
	case AMState:
		for _, sp := range stops {
			nx, ok := nextOf(l, sp).(AMState)
			if !ok || nx.ord != cur.ord {
				return
			}
			if _, ok := amapPuts(cur.m, nx.m); !ok {
				return
			}
		}
		l.form = 'M'
		l.gen = &Gen{stride: 1, count: t, tvar: e.Var("tv", SInt), insts: map[*Term]*instance{}}
	case *GMap:
		for _, sp := range stops {
			nx, ok := nextOf(l, sp).(*GMap)
			if !ok {
				return
			}
			if _, ok := gmapPuts(cur, nx); !ok {
				return
			}
		}
		l.form = 'G'
		l.gen = &Gen{stride: 1, count: t, tvar: e.Var("tv", SInt), insts: map[*Term]*instance{}}
	case *Term:
		for _, mode := range []byte{'W', 'F', 'w'} {
			if w, ok := e.writes(head, l, stops, nextOf, epoch0, mode); ok {
				l.form, l.wr = 'W', w
				if mode == 'F' {
					l.form = 'F'
				}
				break
			}
		}
	}
}

// arrStep: the array after iteration t is the array before it with element
// (result)+t set.
func arrStep(e *Engine, cur *Arr, next Value, t *Term) *Term {
	nx, ok := next.(*Arr)
	if !ok || nx.kind != 'W' || nx.parent != cur {
		return nil
	}
	return e.Sub(nx.idx, t)
}

// writes: each iteration leaves the variable alone or sets it to something
// that does not depend on earlier iterations.
//
// Mode 'F' guesses that only the first write counts: a write is considered
// from the initial value.  Mode 'w' leaves out what depends on the state of
// the loop.  Whether a guess is right is for the inductive step to tell.
func (e *Engine) writes(head *State, l *loc, stops []iterEnd, nextOf func(*loc, iterEnd) Value, epoch0 int, mode byte) ([]writeCase, bool) {
	var out []writeCase
	sub := func(x *Term) *Term { return x }
	if c, ok := l.cur.(*Term); ok && mode == 'F' && c.op == OVar {
		i, ok := l.init.(*Term)
		if !ok {
			return nil, false
		}
		sub = func(x *Term) *Term { return e.Subst(x, map[*Term]*Term{c: i}) }
	}
	for _, sp := range stops {
		nx, ok := nextOf(l, sp).(*Term)
		if !ok {
			if i, isI := nextOf(l, sp).(Iface); isI && scalarVal(i.val) {
				nx = e.box(i)
			} else {
				return nil, false
			}
		}
		if nx == l.cur {
			continue
		}
		delta := pcDelta(head.pc, sp.st.pc)
		if mode == 'w' {
			var ds []*Term
			for _, d := range delta {
				if d.syms <= epoch0 {
					ds = append(ds, d)
				}
			}
			delta = ds
		}
		pc := e.And(delta...)
		parts, ok := e.splitWrites(l.cur, nx)
		if !ok {
			return nil, false
		}
		for _, w := range parts {
			cond, val := sub(e.And(pc, w.cond)), sub(w.val.(*Term))
			if cond == e.False {
				continue
			}
			if cond.syms > epoch0 || val.syms > epoch0 {
				return nil, false
			}
			out = append(out, writeCase{cond, val})
		}
	}
	return out, true
}

// splitWrites takes a new value apart: what is written when; otherwise it is
// the old value.
func (e *Engine) splitWrites(old Value, nx *Term) ([]writeCase, bool) {
	cur, ok := old.(*Term)
	if !ok || cur.op != OVar && cur.op != OApp {
		return []writeCase{{e.True, nx}}, true
	}
	if nx == cur {
		return nil, true
	}
	if cur.sort == SBool {
		a := e.Subst(nx, map[*Term]*Term{cur: e.True})
		b := e.Subst(nx, map[*Term]*Term{cur: e.False})
		if a == b {
			return []writeCase{{e.True, nx}}, true
		}
		var out []writeCase
		if b != e.False {
			out = append(out, writeCase{b, e.True})
		}
		if a != e.True {
			out = append(out, writeCase{e.Not(a), e.False})
		}
		return out, true
	}
	if nx.op == OIte {
		a, ok1 := e.splitWrites(cur, nx.args[1])
		b, ok2 := e.splitWrites(cur, nx.args[2])
		if !ok1 || !ok2 {
			return nil, false
		}
		var out []writeCase
		for _, w := range a {
			out = append(out, writeCase{e.And(nx.args[0], w.cond), w.val})
		}
		for _, w := range b {
			out = append(out, writeCase{e.And(e.Not(nx.args[0]), w.cond), w.val})
		}
		return out, true
	}
	return []writeCase{{e.True, nx}}, true
}

// writerValue: the value the last (first) writing iteration left.
func (e *Engine) writerValue(s *State, l *loc, t *Term) Value {
	h, w := e.Var("written", SBool), e.Var("last", SInt)
	at := func(x, u *Term) *Term { return e.Subst(x, map[*Term]*Term{t: u}) }
	var any []*Term
	v := e.Term0(l)
	bv := e.BV("u", SInt)
	var conds []*Term
	for _, c := range l.wr {
		any = append(any, at(c.cond, w))
		conds = append(conds, at(c.cond, bv))
		v = e.Ite(e.And(h, at(c.cond, w)), at(c.val.(*Term), w), v)
	}
	e.add(s, e.Implies(h, e.And(append([]*Term{e.Le(e.Int(0), w), e.Lt(w, t)}, e.Or(any...))...)))
	cb := e.Or(conds...)
	e.add(s, e.forallIter(bv, e.Implies(e.And(e.Not(h), e.Le(e.Int(0), bv), e.Lt(bv, t)), e.Not(cb)), cb))
	if l.form == 'F' {
		e.add(s, e.forallIter(bv, e.Implies(e.And(h, e.Le(e.Int(0), bv), e.Lt(bv, w)), e.Not(cb)), cb))
		l.hit = h
	} else {
		e.add(s, e.forallIter(bv, e.Implies(e.And(h, e.Lt(w, bv), e.Lt(bv, t)), e.Not(cb)), cb))
	}
	if v.op == OIte || v.op == OAnd || v.op == OOr {
		x := e.Var("flag", v.sort)
		e.add(s, e.Eq(x, v))
		return x
	}
	return v
}

// Term0 is the initial value of a scalar location as a term.
func (e *Engine) Term0(l *loc) *Term {
	switch x := l.init.(type) {
	case *Term:
		return x
	case Iface:
		return e.box(x)
	}
	panic(unsupported("scalar location with %T", l.init))
}

// firstWriter: l.hit tells whether one of the iterations before t meets the
// condition, l.at is the first one.
func (e *Engine) firstWriter(s *State, l *loc, t *Term) {
	h, w := e.Var("skipped", SBool), e.Var("skip", SInt)
	at := func(x, u *Term) *Term { return e.Subst(x, map[*Term]*Term{t: u}) }
	c := l.wr[0].cond
	bv := e.BV("u", SInt)
	cb := at(c, bv)
	e.add(s, e.Implies(h, e.And(e.Le(e.Int(0), w), e.Lt(w, t), at(c, w))))
	e.add(s, e.forallIter(bv, e.Implies(e.And(e.Not(h), e.Le(e.Int(0), bv), e.Lt(bv, t)), e.Not(cb)), cb))
	e.add(s, e.forallIter(bv, e.Implies(e.And(h, e.Le(e.Int(0), bv), e.Lt(bv, w)), e.Not(cb)), cb))
	l.hit, l.at = h, w
}

// appended lists the elements nx has after cur.
func (e *Engine) appended(head, st *State, cur, nx Slice) ([]Value, bool) {
	if e.same(cur, nx) {
		if cur.arr != nil && st.get(cur.arr) != head.get(cur.arr) {
			return nil, false
		}
		return nil, true
	}
	d := e.Sub(nx.len, cur.len)
	if d.op != OInt || d.k < 0 || d.k > 16 || nx.arr == nil || nx.off != cur.off {
		return nil, false
	}
	hole := head.get(cur.arr).(*Arr)
	els := make([]Value, d.k)
	a, ok := st.get(nx.arr).(*Arr)
	if !ok {
		return nil, false
	}
	for a != hole {
		if a == nil || a.kind != 'W' {
			return nil, false
		}
		r := e.Sub(a.idx, e.Add(cur.off, cur.len))
		if r.op != OInt || r.k < 0 || r.k >= d.k {
			return nil, false
		}
		if els[r.k] == nil {
			els[r.k] = a.val
		}
		a = a.parent
	}
	for _, x := range els {
		if x == nil {
			return nil, false
		}
	}
	return els, true
}

type kv struct {
	k, v Value
	g    *Term
}

func amapPuts(hole, m *AMap) ([]kv, bool) {
	var out []kv
	for m != hole {
		if m == nil || m.kind != 'P' {
			return nil, false
		}
		out = append([]kv{{m.k, m.v, m.g}}, out...)
		m = m.parent
	}
	return out, len(out) <= 1
}
func gmapPuts(hole, m *GMap) ([]kv, bool) {
	var out []kv
	for m != hole {
		if m == nil || m.kind != 'P' {
			return nil, false
		}
		out = append([]kv{{m.k, m.v, nil}}, out...)
		m = m.parent
	}
	return out, len(out) <= 1
}

// inductive checks that the assumed form holds after one more iteration.
func (e *Engine) inductive(head *State, l *loc, next Value, sp iterEnd, t *Term, epoch0 int) bool {
	t1 := e.AddK(t, 1)
	prove := func(c *Term) bool {
		if c == e.True {
			return true
		}
		q := e.quiet
		e.quiet = true
		defer func() { e.quiet = q }()
		return e.decide(sp.st, c) == 1
	}
	switch l.form {
	case 'H':
		return true
	case '=':
		if e.same(next, l.init) {
			return true
		}
		a, ok1 := next.(*Term)
		b, ok2 := l.init.(*Term)
		return ok1 && ok2 && prove(e.Eq(a, b))
	case 'L':
		n, ok := next.(*Term)
		return ok && prove(e.Eq(n, e.Add(l.init.(*Term), e.MulK(t1, l.c))))
	case 'I':
		n, ok := next.(iterState)
		return ok && n.pos == e.Add(l.init.(iterState).pos, t1)
	case 'W', 'F':
		open := e.True
		if l.form == 'F' {
			open = e.Not(l.hit)
		}
		var nx *Term
		switch y := next.(type) {
		case *Term:
			nx = y
		case Iface:
			nx = e.box(y)
		default:
			return false
		}
		if e.same(nx, l.cur) {
			// an unchanged value: no write condition may hold
			for _, w := range l.wr {
				if !prove(e.Implies(open, e.Not(w.cond))) {
					return false
				}
			}
			return true
		}
		// every write must be one of the cases
		parts, ok := e.splitWrites(l.cur, nx)
		if !ok {
			return false
		}
		same := e.True
		for _, p := range parts {
			same = e.And(same, e.Not(p.cond))
			var cs []*Term
			for _, w := range l.wr {
				if w.val == p.val {
					cs = append(cs, w.cond)
				}
			}
			if !prove(e.Implies(p.cond, e.And(open, e.Or(cs...)))) {
				return false
			}
			for _, w := range l.wr {
				if w.val != p.val && !prove(e.Implies(e.And(p.cond, w.cond), e.Eq(w.val.(*Term), p.val.(*Term)))) {
					return false
				}
			}
		}
		for _, w := range l.wr {
			if !prove(e.Implies(e.And(open, same), e.Not(w.cond))) {
				return false
			}
		}
		return true
	case 'A':
		nx, ok := next.(Slice)
		if !ok {
			return false
		}
		els, ok := e.appended(head, sp.st, l.cur.(Slice), nx)
		if ok && len(l.wr) > 0 {
			if len(els) == 0 {
				return prove(e.And(e.Not(l.hit), l.wr[0].cond))
			}
			return len(els) == 1 && prove(e.Not(l.wr[0].cond))
		}
		return ok && int64(len(els)) == l.c
	case 'B':
		return arrStep(e, l.cur.(*Arr), next, t) == l.at
	case 'M':
		nx, ok := next.(AMState)
		if !ok || nx.ord != l.cur.(AMState).ord {
			return false
		}
		_, ok = amapPuts(l.cur.(AMState).m, nx.m)
		return ok
	case 'G':
		nx, ok := next.(*GMap)
		if !ok {
			return false
		}
		_, ok = gmapPuts(l.cur.(*GMap), nx)
		return ok
	}
	return false
}

// fillGen sets the element template of an accumulator.
func (e *Engine) fillGen(head *State, l *loc, stops []iterEnd, nextOf func(*loc, iterEnd) Value, t *Term, L *loopSpec) bool {
	g := l.gen
	type alt struct {
		cond *Term
		els  []Value
		st   *State
	}
	var alts []alt
	full := true
	for _, sp := range stops {
		cond := e.And(pcDelta(head.pc, sp.st.pc)...)
		var els []Value
		switch l.form {
		case 'A':
			els, _ = e.appended(head, sp.st, l.cur.(Slice), nextOf(l, sp).(Slice))
		case 'B':
			els = []Value{nextOf(l, sp).(*Arr).val}
		case 'M':
			ps, _ := amapPuts(l.cur.(AMState).m, nextOf(l, sp).(AMState).m)
			for _, p := range ps {
				els = append(els, p.k, p.v)
				if p.g != nil {
					cond = e.And(cond, p.g)
					full = false
				}
			}
		case 'G':
			ps, _ := gmapPuts(l.cur.(*GMap), nextOf(l, sp).(*GMap))
			for _, p := range ps {
				els = append(els, p.k, p.v)
			}
		}
		if l.form != 'A' && len(els) == 0 {
			full = false
			continue
		}
		if l.form == 'A' && len(l.wr) > 0 && len(els) == 0 {
			continue
		}
		alts = append(alts, alt{cond, els, sp.st})
	}
	if len(alts) == 0 {
		g.elems = []Value{}
		if l.form != 'A' {
			return false
		}
		g.stride = 0
		return l.c == 0
	}
	els := alts[0].els
	for _, a := range alts[1:] {
		if len(a.els) != len(els) {
			return false
		}
		m := make([]Value, len(els))
		for i := range els {
			v, ok := e.tryMerge(a.cond, a.els[i], els[i])
			if !ok {
				return false
			}
			m[i] = v
		}
		els = m
	}
	fresh := map[*Obj]bool{}
	heap := map[*Obj]Value{}
	for _, a := range alts {
		used := map[*Obj]bool{}
		for _, v := range a.els {
			reach(a.st, v, used)
		}
		for o, v := range a.st.heap {
			if _, ok := head.heap[o]; !ok && o.init == nil && used[o] {
				if w, ok := heap[o]; ok && !e.same(w, v) {
					return false
				}
				fresh[o] = true
				heap[o] = v
			}
		}
	}
	sub := &substEnv{e: e, m: map[*Term]*Term{t: g.tvar}}
	g.elems = make([]Value, len(els))
	for i := range els {
		g.elems[i] = sub.value(els[i])
	}
	g.fresh = fresh
	g.heap = map[*Obj]Value{}
	for o, v := range heap {
		g.heap[o] = sub.value(v)
	}
	if !full && l.form != 'A' {
		var cs []*Term
		for _, a := range alts {
			cs = append(cs, a.cond)
		}
		g.guard = sub.t(e.Or(cs...))
	}
	return true
}

// history adds, to everything that leaves the loop, what is known about the
// completed iterations: each of them took one of the back edges.
func (e *Engine) history(head, st0 *State, stops, exits []iterEnd, outs []Outcome, t *Term, epoch0 int) {
	if e.noLoopFacts {
		return
	}
	var fact *Term
	if len(stops) == 0 {
		fact = e.Eq(t, e.Int(0))
	} else {
		var ds []*Term
		for _, sp := range stops {
			var cs []*Term
			for _, x := range pcDelta(head.pc, sp.st.pc) {
				if x.syms <= epoch0 {
					cs = append(cs, x)
				}
			}
			ds = append(ds, e.And(cs...))
		}
		d := e.Or(ds...)
		if d == e.True {
			return
		}
		bv := e.BV("u", SInt)
		db := e.Subst(d, map[*Term]*Term{t: bv})
		fact = e.forallIter(bv, e.Implies(e.And(e.Le(e.Int(0), bv), e.Lt(bv, t)), db), db)
	}
	for i := range exits {
		e.add(exits[i].st, fact)
	}
	for i := range outs {
		e.add(outs[i].st, fact)
	}
}

// FoldReq asks that the next loop be treated as a fold over the entries of a
// node: the element under contract is in an arbitrary valid state at the head
// of every iteration, and the step contract is checked for one iteration.
type FoldReq struct {
	entry *State
	node  Ptr
	cont  Slice // the node's Content
	unit  int64 // 2: mapping entries, 1: sequence elements
	step  Value // func(k, v *yaml.Node, err error) or func(v *yaml.Node, err error)
}

func (f *FoldReq) owned(o *Obj) bool {
	if _, ok := f.entry.heap[o]; ok {
		return true
	}
	return o.init != nil && !o.global
}

// changedSince lists pre-existing objects whose content differs.
func (e *Engine) changedSince(a, b *State) []*Obj {
	var out []*Obj
	for o, v := range b.heap {
		w, ok := a.heap[o]
		if !ok {
			if o.init == nil {
				continue
			}
			w = o.init
		}
		if !e.same(w, v) {
			out = append(out, o)
		}
	}
	return out
}

func (e *Engine) foldArgs(st *State, f *FoldReq, t *Term) []Value {
	var out []Value
	for r := int64(0); r < f.unit; r++ {
		p := Ptr{nilT: e.False, obj: f.cont.arr, path: []PathElem{{field: -1, idx: e.Add(f.cont.off, e.AddK(e.MulK(t, f.unit), r))}}}
		svs := e.load(st, p)
		if len(svs) != 1 {
			panic(unsupported("fold over a node with known content"))
		}
		out = append(out, svs[0].v)
	}
	return out
}

func (e *Engine) foldFinish(f *FoldReq, head *State, stops, exits []iterEnd, outs []Outcome, t *Term) {
	for _, sp := range stops {
		s := sp.st.clone()
		for o, v := range s.heap {
			if strings.HasPrefix(o.name, "fld:") && o.init != nil {
				if hv, ok := head.heap[o]; !ok && !e.same(o.init, v) || ok && !e.same(hv, v) {
					e.fail(s, "the YAML nodes are not modified", "")
				}
			}
		}
		args := append(e.foldArgs(s, f, t), Iface{})
		e.prove(s, "every entry of the node is processed in order", "", e.Le(e.AddK(e.MulK(t, f.unit), f.unit), f.cont.len))
		for _, o := range e.callValue(f.step, args, s, 0) {
			if o.panic {
				e.fail(o.st, "step contract", o.msg)
			}
		}
	}
	for i := range outs {
		outs[i].st.setGhost("fold", e.Int(1))
		outs[i].st.setGhost("foldt", t)
	}
	for i := range exits {
		s := exits[i].st
		// leaving the loop before the last entry needs an error, see FoldMap
		if done := e.Le(f.cont.len, e.MulK(t, f.unit)); done != e.True && !s.pc.has(done) {
			if r, _ := e.S.prove(s.pc, done); r != "unsat" {
				s.setGhost("fold", e.Int(1))
				s.setGhost("foldt", t)
				continue
			}
		}
		e.record("the loop ends after the last entry", "", "discharged", "", "z3")
		if len(e.changedSince(head, s)) > 0 {
			e.fail(s, "the loop test has no side effects", "")
		}
		s.setGhost("fold", e.Int(2))
	}
}
