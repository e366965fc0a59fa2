package main

// Joining paths: two outcomes of a call, or two sides of a branch that meet
// again, become one state whose differences are conditional values.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// joinBlock is the block where the two sides of the branch at the end of b
// meet, if there is one inside the same loop.
func (e *Engine) joinBlock(fr *frame, b *ssa.BasicBlock, stop *loop) *ssa.BasicBlock {
	var j *ssa.BasicBlock
	for _, d := range b.Dominees() {
		if len(d.Preds) < 2 || fr.li.header[d] != nil {
			continue
		}
		if stop != nil && (!stop.blocks[d] || d == stop.header) {
			continue
		}
		if j != nil {
			return nil
		}
		j = d
	}
	return j
}

// joinCfgs merges configurations that are all at the start of block j.
func (e *Engine) joinCfgs(base *PC, cs []*cfg) []*cfg {
	var out []*cfg
next:
	for _, c := range cs {
		var ps []*ssa.Phi
		for _, in := range c.blk.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			ps = append(ps, p)
		}
		if c.phis == nil {
			vs := e.phiVals(c, ps)
			c.phis = map[*ssa.Phi]Value{}
			for i, p := range ps {
				c.phis[p] = vs[i]
			}
		}
		for i, o := range out {
			if len(o.defers) != len(c.defers) {
				continue
			}
			cond := e.And(pcDelta(base, o.st.pc)...)
			phis := map[*ssa.Phi]Value{}
			ok := true
			for _, p := range ps {
				v, good := e.joinVal(cond, o.phis[p], c.phis[p])
				if !good || isErr(p.Type()) && !sameNil(o.phis[p], c.phis[p]) {
					ok = false
					break
				}
				phis[p] = v
			}
			if !ok {
				continue
			}
			if st := e.joinStates(base, o.st, c.st); st != nil {
				n := *o
				n.st, n.phis = st, phis
				out[i] = &n
				continue next
			}
		}
		out = append(out, c)
	}
	return out
}

func isErr(t types.Type) bool { return types.TypeString(t, nil) == "error" }

func sameNil(a, b Value) bool { return isNilIface(a) == isNilIface(b) }

// joinOuts merges the normal outcomes of a call.
func (e *Engine) joinOuts(base *PC, outs []Outcome) []Outcome {
	if !e.merge || len(outs) < 2 {
		return outs
	}
	var out []Outcome
next:
	for _, o := range outs {
		if !o.panic {
			for i, p := range out {
				if p.panic || len(p.vals) != len(o.vals) {
					continue
				}
				cond := e.And(pcDelta(base, p.st.pc)...)
				ok := true
				vals := make([]Value, len(o.vals))
				for k := range o.vals {
					a, b := p.vals[k], o.vals[k]
					if isNilIface(a) != isNilIface(b) {
						ok = false
						break
					}
					vals[k], ok = e.joinVal(cond, a, b)
					if !ok {
						break
					}
				}
				if !ok {
					continue
				}
				if st := e.joinStates(base, p.st, o.st); st != nil {
					out[i] = Outcome{st: st, vals: vals}
					continue next
				}
			}
		}
		out = append(out, o)
	}
	return out
}

func (e *Engine) joinVal(c *Term, a, b Value) (Value, bool) {
	if e.same(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Tuple, len(x))
		for i := range x {
			out[i], ok = e.joinVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
		}
		return out, true
	case AMState:
		y, ok := b.(AMState)
		if !ok || x.m.am != y.m.am {
			return nil, false
		}
		m, ok := e.joinAM(c, x.m, y.m)
		if !ok {
			return nil, false
		}
		return AMState{m: m, ord: e.Ite(c, x.ord, y.ord)}, true
	}
	return e.tryMerge(c, a, b)
}

// joinStates returns a state covering a and b, nil if they cannot be joined.
func (e *Engine) joinStates(base *PC, a, b *State) *State {
	if a.fold != b.fold {
		return nil
	}
	// facts known on both sides stay facts
	da, db := pcDelta(base, a.pc), pcDelta(base, b.pc)
	inB := map[*Term]bool{}
	for _, f := range db {
		inB[f] = true
	}
	var common, ra, rb []*Term
	inC := map[*Term]bool{}
	for _, f := range da {
		if inB[f] {
			common = append(common, f)
			inC[f] = true
		} else {
			ra = append(ra, f)
		}
	}
	for _, f := range db {
		if !inC[f] {
			rb = append(rb, f)
		}
	}
	ca, cb := e.And(ra...), e.And(rb...)
	n := a.clone()
	for o, vb := range b.heap {
		va, ok := a.heap[o]
		if !ok {
			va = o.init
		}
		if va == nil {
			n.heap[o] = vb // allocated on one side only
			continue
		}
		v, ok := e.joinVal(ca, va, vb)
		if !ok {
			return nil
		}
		n.heap[o] = v
	}
	for o, va := range a.heap {
		if _, ok := b.heap[o]; ok || o.init == nil {
			continue
		}
		v, ok := e.joinVal(ca, va, o.init)
		if !ok {
			return nil
		}
		n.heap[o] = v
	}
	g := map[string]Value{}
	for k, v := range a.ghost {
		g[k] = v
	}
	for k, v := range b.ghost {
		w, ok := g[k]
		if !ok {
			if !keyedGhost(k) {
				return nil
			}
			g[k] = v
			continue
		}
		if !e.sameGhost(w, v) {
			return nil
		}
	}
	for k := range a.ghost {
		if _, ok := b.ghost[k]; !ok && !keyedGhost(k) {
			return nil
		}
	}
	n.ghost = g
	n.pc = base
	for _, f := range common {
		e.add(n, f)
	}
	e.add(n, e.Or(ca, cb))
	return n
}

// keyedGhost: facts about one object, meaningless where it does not exist.
func keyedGhost(k string) bool { return len(k) > 6 && k[:6] == "mapof:" }

func (e *Engine) sameGhost(a, b Value) bool {
	x, ok1 := a.(AMSnap)
	y, ok2 := b.(AMSnap)
	if ok1 && ok2 {
		return x.c.m == y.c.m && x.c.ord == y.c.ord
	}
	return e.same(a, b)
}

// joinAM merges two logs over a common prefix.
func (e *Engine) joinAM(c *Term, x, y *AMap) (*AMap, bool) {
	seen := map[*AMap]bool{}
	for q := x; q != nil; q = q.parent {
		seen[q] = true
	}
	var ys []*AMap
	q := y
	for q != nil && !seen[q] {
		ys = append([]*AMap{q}, ys...)
		q = q.parent
	}
	if q == nil {
		return nil, false
	}
	var xs []*AMap
	for p := x; p != q; p = p.parent {
		xs = append([]*AMap{p}, xs...)
	}
	m := q
	ok := true
	put := func(o *AMap, g *Term) {
		if o.kind != 'P' && o.kind != 'G' && o.kind != 'U' {
			ok = false
			return
		}
		if o.kind == 'G' && o.gen.elems == nil {
			ok = false
			return
		}
		n := *o
		n.parent = m
		if n.g == nil {
			n.g = g
		} else {
			n.g = e.And(n.g, g)
		}
		n.id = e.nextArr()
		m = &n
	}
	// operations both sides share stay shared
	for len(xs) > 0 && len(ys) > 0 {
		if j := e.findOp(xs[0], ys); j >= 0 {
			for _, o := range ys[:j] {
				put(o, e.Not(c))
			}
			n := *ys[j]
			n.parent = m
			if xs[0].g != nil || ys[j].g != nil {
				n.g = e.Or(e.And(c, e.guardOf(xs[0])), e.And(e.Not(c), e.guardOf(ys[j])))
			}
			v, vok := e.joinVal(c, xs[0].v, ys[j].v)
			if !vok {
				return nil, false
			}
			n.v = v
			n.id = e.nextArr()
			m = &n
			xs, ys = xs[1:], ys[j+1:]
			continue
		}
		put(xs[0], c)
		xs = xs[1:]
	}
	for _, o := range xs {
		put(o, c)
	}
	for _, o := range ys {
		put(o, e.Not(c))
	}
	return m, ok
}

func (e *Engine) guardOf(m *AMap) *Term {
	if m.g == nil {
		return e.True
	}
	return m.g
}

func (e *Engine) findOp(o *AMap, ys []*AMap) int {
	if o.kind != 'P' {
		return -1
	}
	for j, y := range ys {
		if y.kind != 'P' {
			return -1
		}
		if e.same(o.k, y.k) {
			if _, ok := e.joinVal(e.True, o.v, y.v); ok || e.same(o.v, y.v) {
				return j
			}
		}
	}
	return -1
}
