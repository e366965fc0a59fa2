package main

// Termination of the parsing functions (C11): a call of a parsing function
// from inside another is on a part of the node the caller was given, or on that
// node itself. The calls on the same node must not form a cycle.

import (
	"fmt"
	"sort"
	"strings"
)

type descent struct {
	fn   string
	node *Term
}

// part: -1 not a part of y, 0 y itself, 1 a proper part of y.
func part(n, y *Term) int {
	if n == y {
		return 0
	}
	switch {
	case n.op == OIte:
		a, b := n.args[1], n.args[2]
		ra, rb := part(a, y), part(b, y)
		switch {
		case a.op == OInt: // null
			return rb
		case b.op == OInt:
			return ra
		case ra < rb:
			return ra
		}
		return rb
	case n.op == OApp && strings.HasPrefix(n.name, nodeContent) && len(n.args) > 0:
		if part(n.args[0], y) >= 0 {
			return 1
		}
	}
	return -1
}

// enter: the function under contract starts, with this node.
func (e *Engine) enter(id string, args []Value) {
	if !e.measured {
		return
	}
	for _, a := range args {
		if p, ok := a.(Ptr); ok && p.sym != nil && len(p.path) == 0 {
			e.measure = &descent{id, e.ptrTerm(p)}
		}
	}
}

// descend: a parsing function is called on node n.
func (e *Engine) descend(id string, n Ptr) {
	if !e.measured || e.measure == nil || e.quiet {
		return
	}
	switch part(e.ptrTerm(n), e.measure.node) {
	case 1:
		e.record("parsing goes on in a part of the node", "", "discharged", "", "structural descent")
	case 0:
		e.sameNode[e.measure.fn+" > "+id] = true
		e.record("parsing the same node goes on in another function (no cycle: checked over all contracts)", "", "discharged", "", "structural descent")
	default:
		e.record("parsing goes on in a part of the node", "", "failed", fmt.Sprintf("%s calls %s on a node that is not a part of its own: recursion need not end", e.measure.fn, id), "structural descent")
	}
}

// cycles finds the calls on the same node that can go on for ever.
func cycles(reps []*Report) map[*Report]string {
	next := map[string]map[string]*Report{}
	for _, r := range reps {
		for s := range r.SameNode {
			x := strings.SplitN(s, " > ", 2)
			if next[x[0]] == nil {
				next[x[0]] = map[string]*Report{}
			}
			next[x[0]][x[1]] = r
		}
	}
	out := map[*Report]string{}
	for from := range next {
		// can from reach itself?
		seen := map[string]bool{}
		var visit func(f string) bool
		visit = func(f string) bool {
			ks := make([]string, 0, len(next[f]))
			for g := range next[f] {
				ks = append(ks, g)
			}
			sort.Strings(ks)
			for _, g := range ks {
				if g == from {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if visit(g) {
						return true
					}
				}
			}
			return false
		}
		if visit(from) {
			for _, r := range next[from] {
				out[r] = from + " calls itself on the same node"
			}
		}
	}
	return out
}
