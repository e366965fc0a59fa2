package main

// Running one contract: arbitrary inputs in, obligations out.

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Harness struct {
	Prop string
	Name string // VcC01_...
	Fn   *ssa.Function
	Pkg  string
}

type Report struct {
	H        *Harness
	Obls     []*Oblig
	Funcs    map[string]bool
	Assume   map[string]bool
	Relied   map[string]bool // contracts used at call sites
	SameNode map[string]bool // parsing calls on the node of the caller
	Support  bool            // a contract of another property, relied on
	Skips    map[string]int
	Covers   map[string]bool
	Err      string
	Paths    int
	Wall     time.Duration
	Solver   time.Duration
	Queries  int
	Loops    int
	NoEnd    bool // no path reached the end of the contract
}

func harnesses(p *Program, prop string) []*Harness {
	var out []*Harness
	for path, pk := range p.pkgs {
		if !strings.HasPrefix(path, modPath) {
			continue
		}
		for name, m := range pk.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(name, "VcC") || len(name) < 6 {
				continue
			}
			id := name[2:5]
			if prop != "" && id != prop {
				continue
			}
			out = append(out, &Harness{Prop: id, Name: name, Fn: fn, Pkg: path})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// collectionCtor finds New<T> for a collection interface T of package raml.
func (e *Engine) collectionCtor(t types.Type) *ssa.Function {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkgRaml || !strings.HasSuffix(n.Obj().Name(), "Map") {
		return nil
	}
	return e.P.pkgs[pkgRaml].Func("New" + n.Obj().Name())
}

func (e *Engine) param(st *State, t types.Type, name string) Value {
	if h, ok := paramKinds[types.TypeString(t, nil)]; ok {
		return h(e, st, t, name)
	}
	if _, ok := under(t).(*types.Interface); ok {
		if f := e.collectionCtor(t); f != nil {
			if e.abs {
				am := e.amTypeOf(t)
				return e.newAMap(st, am, name)
			}
			outs := e.call(f, []Value{e.Int(0)}, nil, st)
			if len(outs) != 1 || outs[0].panic {
				panic(unsupported("constructor of %s", t))
			}
			*st = *outs[0].st
			return e.symbolicRep(outs[0].vals[0], st, name)
		}
		if f := e.elementCtor(t); f != nil && e.abs {
			v, s := e.newElem(st, f, name)
			*st = *s
			return v
		}
	}
	v := e.symVal(t, name)
	return v
}

var paramKinds = map[string]func(e *Engine, st *State, t types.Type, name string) Value{}

func runHarness(p *Program, h *Harness, limit time.Duration) (rep *Report) {
	t0 := time.Now()
	rep = &Report{H: h}
	e := newEngine(p)
	e.cur = h.Name
	e.deadline = t0.Add(limit)
	e.abs = h.Pkg != pkgRaml
	e.merge = e.abs
	e.entryNodes = h.Prop == "C15"
	e.measured = h.Prop == "C11"
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				rep.Err = u.msg + " [" + strings.Join(e.callStack, " > ") + "]"
			} else {
				rep.Err = fmt.Sprint("internal: ", r, "\n", string(debug.Stack()))
			}
		}
		rep.Obls = e.obls
		rep.Funcs, rep.Assume, rep.Covers, rep.Skips = e.funcs, e.assume, e.covers, e.skips
		rep.Relied, rep.SameNode = e.relied, e.sameNode
		rep.Wall = time.Since(t0)
		rep.Solver, rep.Queries = e.S.time, e.S.queries
		rep.Loops = e.loopSummaries
		e.S.close()
	}()
	st := &State{heap: map[*Obj]Value{}, pc: nil}
	var args []Value
	for _, q := range h.Fn.Params {
		args = append(args, e.param(st, q.Type(), "in:"+q.Name()))
	}
	for _, o := range e.call(h.Fn, args, nil, st) {
		if o.panic {
			e.fail(o.st, "no panic", o.msg)
			continue
		}
		rep.Paths++
	}
	if rep.Paths == 0 {
		rep.NoEnd = true
	}
	return
}
