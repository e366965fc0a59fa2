package main

// Loops end: every way back to the head of a loop is taken by boundedly many
// iterations only.

// bounds tells whether x, which holds when the back edge is taken, bounds t
// from above by something the loop does not change; ne collects the values t
// must differ from.
func bounds(x, t *Term, epoch0 int, neg bool, ne *[]*Term, ub *[]*Term, e *Engine) bool {
	switch x.op {
	case ONot:
		return bounds(x.args[0], t, epoch0, !neg, ne, ub, e)
	case OAnd, OOr:
		all := (x.op == OOr) != neg
		for _, a := range x.args {
			if bounds(a, t, epoch0, neg, ne, ub, e) != all {
				return !all
			}
		}
		return all
	case OLe0:
		c, rest, ok := e.splitLin(x.args[0], t)
		if !ok || rest.syms > epoch0 {
			return false
		}
		if neg {
			c = -c
		}
		if c <= 0 {
			return false
		}
		// c*t + rest <= 0 or c*t < rest
		if neg {
			*ub = append(*ub, rest)
		} else {
			*ub = append(*ub, e.Sub(e.Int(1), rest))
		}
		return true
	case OEq:
		if x.args[0].sort != SInt {
			return false
		}
		c, rest, ok := e.splitLin(e.Sub(x.args[0], x.args[1]), t)
		if !ok || c == 0 || rest.syms > epoch0 {
			return false
		}
		if !neg {
			return true // t has one value
		}
		if c == 1 {
			*ne = append(*ne, e.Sub(e.Int(0), rest))
		} else if c == -1 {
			*ne = append(*ne, rest)
		}
	}
	return false
}

// splitLin: x = c*t + rest, where rest does not depend on t.
func (e *Engine) splitLin(x, t *Term) (c int64, rest *Term, ok bool) {
	if x == t {
		return 1, e.Int(0), true
	}
	if x.op == OLin {
		for i, a := range x.args {
			if a == t {
				c = x.coef[i]
			}
		}
	}
	rest = e.Sub(x, e.MulK(t, c))
	return c, rest, !mentions(rest, t)
}

func (e *Engine) loopEnds(st0, head *State, stops []iterEnd, t *Term, epoch0 int, L *loopSpec) {
	if e.quiet {
		return
	}
	label := "the loop ends: " + L.name
	var ub, ne []*Term
	var open []iterEnd
	for _, sp := range stops {
		ok := false
		for _, x := range pcDelta(head.pc, sp.st.pc) {
			if bounds(x, t, epoch0, false, &ne, &ub, e) {
				ok = true
			}
		}
		if !ok {
			open = append(open, sp)
		}
	}
next:
	for _, sp := range open {
		for _, b := range ub {
			if r, _ := e.S.prove(sp.st.pc, e.Lt(t, b)); r == "unsat" {
				continue next
			}
		}
		// t passes every value from 0 on
		for _, b := range ne {
			if r, _ := e.S.prove(sp.st.pc, e.Not(e.Eq(t, b))); r != "unsat" {
				continue
			}
			if r, _ := e.S.prove(st0.pc, e.Le(e.Int(0), b)); r == "unsat" {
				continue next
			}
		}
		if r, _ := e.S.prove(sp.st.pc, e.False); r == "unsat" {
			continue
		}
		e.record(label, "", "failed", "nothing the loop leaves alone bounds its iterations\npath: "+e.pathText(sp.st), "bound")
		return
	}
	e.record(label, "", "discharged", "", "bound on the iterations")
}
