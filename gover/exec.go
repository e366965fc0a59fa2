package main

// Symbolic execution of SSA: the obligation generator.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	fn     *ssa.Function
}
type loopInfo struct {
	header map[*ssa.BasicBlock]*loop
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loops[fn]; ok {
		return li
	}
	li := &loopInfo{header: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				lp := li.header[h]
				if lp == nil {
					lp = &loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}, fn: fn}
					li.header[h] = lp
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.blocks[x] {
						continue
					}
					lp.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	e.loops[fn] = li
	return li
}

type cfg struct {
	blk, prev *ssa.BasicBlock
	ip        int
	env       map[ssa.Value]Value
	st        *State
	visits    map[*loop]int
	phis      map[*ssa.Phi]Value
	noSum     bool
	defers    []deferred
}
type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

func (c *cfg) fork(st *State) *cfg {
	n := *c
	n.st = st
	n.env = make(map[ssa.Value]Value, len(c.env)+4)
	for k, v := range c.env {
		n.env[k] = v
	}
	if c.visits != nil {
		n.visits = map[*loop]int{}
		for k, v := range c.visits {
			n.visits[k] = v
		}
	}
	return &n
}

type frame struct {
	fn *ssa.Function
	li *loopInfo
}

func (e *Engine) pushCall(s string) { e.callStack = append(e.callStack, s) }
func (e *Engine) popCall()          { e.callStack = e.callStack[:len(e.callStack)-1] }

// call executes fn on args in st.
func (e *Engine) call(fn *ssa.Function, args []Value, bind []Value, st *State) []Outcome {
	if outs, ok := e.intercept(fn, args, st); ok {
		return outs
	}
	if strings.HasPrefix(fn.Name(), "init#") && strings.Contains(e.posOf(fn.Pos()), "zz_verif_") {
		return []Outcome{{st: st}} // set-up of the replay harness
	}
	if len(fn.Blocks) == 0 {
		if fn.Pkg == nil && fn.Synthetic != "" {
			panic(unsupported("synthetic function %s without body", fn))
		}
		panic(unsupported("function without body or model: %s", fn))
	}
	e.depth++
	if e.depth > 150 {
		panic(unsupported("recursion too deep in %s", fn))
	}
	e.pushCall(fn.String())
	defer func() { e.depth--; e.popCall() }()
	if fn.Pkg != nil || fn.Object() != nil {
		e.funcs[fn.String()] = true
	}
	env := make(map[ssa.Value]Value, 16)
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		env[f] = bind[i]
	}
	fr := &frame{fn: fn, li: e.loopsOf(fn)}
	c := &cfg{blk: fn.Blocks[0], env: env, st: st}
	outs, _, _, _ := e.region(fr, c, nil, nil)
	return outs
}

// region runs from c until function end; with stop set, also until a back
// edge to stop.header (stops) or until leaving the loop (exits).
func (e *Engine) region(fr *frame, c0 *cfg, stop *loop, join *ssa.BasicBlock) (outs []Outcome, stops, exits, joined []*cfg) {
	stack := []*cfg{c0}
	for len(stack) > 0 {
		c := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		e.steps++
		if e.steps%64 == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
			panic(unsupported("time budget exceeded in %s", fr.fn))
		}
		if c.ip == 0 {
			if join != nil && c.blk == join {
				joined = append(joined, c)
				continue
			}
			if stop != nil && c.phis == nil {
				if c.blk == stop.header {
					stops = append(stops, c)
					continue
				}
				if !stop.blocks[c.blk] {
					exits = append(exits, c)
					continue
				}
			}
			lp := fr.li.header[c.blk]
			if lp != nil && c.phis == nil {
				if e.wantsSummary(fr, lp, c) {
					o2, conts := e.summarise(fr, lp, c)
					outs = append(outs, o2...)
					stack = append(stack, conts...)
					continue
				}
				if c.visits == nil {
					c.visits = map[*loop]int{}
				}
				c.visits[lp]++
				if c.visits[lp] > 400 {
					panic(unsupported("loop in %s does not terminate concretely", fr.fn))
				}
			}
			e.enterBlock(c)
		}
		blk, pc := c.blk, c.st.pc
		next := e.runBlock(fr, c, &outs)
		if e.merge && len(next) == 2 && next[0].ip == 0 && next[0].prev == blk && next[1].prev == blk {
			if j := e.joinBlock(fr, blk, stop); j != nil && j != join {
				var at []*cfg
				for _, n := range next {
					o, s, x, m := e.region(fr, n, stop, j)
					outs, stops, exits = append(outs, o...), append(stops, s...), append(exits, x...)
					at = append(at, m...)
				}
				next = e.joinCfgs(pc, at)
			}
		}
		stack = append(stack, next...)
	}
	return
}

// enterBlock evaluates the phis of c.blk.
func (e *Engine) enterBlock(c *cfg) {
	n := 0
	var vals []Value
	for _, in := range c.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		if c.phis != nil {
			vals = append(vals, c.phis[p])
			continue
		}
		k := -1
		for i, pr := range c.blk.Preds {
			if pr == c.prev {
				k = i
			}
		}
		vals = append(vals, e.val(c, p.Edges[k]))
	}
	for i := 0; i < n; i++ {
		c.env[c.blk.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	c.phis = nil
	c.ip = n
}

// runBlock executes c from c.ip to the end of its block; returns successor
// configurations.
func (e *Engine) runBlock(fr *frame, c *cfg, outs *[]Outcome) []*cfg {
	for c.ip < len(c.blk.Instrs) {
		in := c.blk.Instrs[c.ip]
		switch x := in.(type) {
		case *ssa.Jump:
			c.prev, c.blk, c.ip = c.blk, c.blk.Succs[0], 0
			return []*cfg{c}
		case *ssa.If:
			cond := e.val(c, x.Cond).(*Term)
			t, f := c.blk.Succs[0], c.blk.Succs[1]
			yes, no := e.branch(c.st, cond)
			var res []*cfg
			if yes != nil && no != nil {
				n := c.fork(no)
				n.prev, n.blk, n.ip = c.blk, f, 0
				res = append(res, n)
				c.st = yes
				c.prev, c.blk, c.ip = c.blk, t, 0
				res = append(res, c)
			} else if yes != nil {
				c.st = yes
				c.prev, c.blk, c.ip = c.blk, t, 0
				res = append(res, c)
			} else {
				c.st = no
				c.prev, c.blk, c.ip = c.blk, f, 0
				res = append(res, c)
			}
			return res
		case *ssa.Return:
			vals := make([]Value, len(x.Results))
			for i, r := range x.Results {
				vals[i] = e.val(c, r)
			}
			*outs = append(*outs, Outcome{st: c.st, vals: vals})
			return nil
		case *ssa.Panic:
			*outs = append(*outs, Outcome{st: c.st, panic: true, pval: e.val(c, x.X), msg: "panic at " + e.posOf(x.Pos())})
			return nil
		case *ssa.RunDefers:
			ds := c.defers
			c.defers = nil
			cur := []*State{c.st}
			for i := len(ds) - 1; i >= 0; i-- {
				var next []*State
				for _, s := range cur {
					for _, o := range e.callValue(ds[i].fn, ds[i].args, s, x.Pos()) {
						if o.panic {
							*outs = append(*outs, o)
						} else {
							next = append(next, o.st)
						}
					}
				}
				cur = next
			}
			if len(cur) != 1 {
				panic(unsupported("forking deferred calls"))
			}
			c.st = cur[0]
			c.ip++
			continue
		case *ssa.Defer:
			fv, args := e.callee(c, &x.Call)
			c.defers = append(append([]deferred(nil), c.defers...), deferred{fn: fv, args: args})
			c.ip++
			continue
		case *ssa.DebugRef:
			c.ip++
			continue
		}
		svs := e.instr(fr, c, in, outs)
		v, isVal := in.(ssa.Value)
		if len(svs) == 0 {
			return nil
		}
		if len(svs) == 1 {
			c.st = svs[0].st
			if isVal {
				c.env[v] = svs[0].v
			}
			c.ip++
			continue
		}
		var res []*cfg
		for _, sv := range svs {
			n := c.fork(sv.st)
			if isVal {
				n.env[v] = sv.v
			}
			n.ip = c.ip + 1
			res = append(res, n)
		}
		return res
	}
	panic("block without terminator")
}

func (e *Engine) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if k, ok := constant.Int64Val(v); ok {
				return e.Int(k)
			}
			return e.Big(v.ExactString())
		case u.Info()&types.IsString != 0:
			return e.Str(constant.StringVal(c.Value))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return e.flt(f)
		}
	}
	panic(unsupported("constant %s", c))
}

func (e *Engine) val(c *cfg, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return e.ptrTo(e.global(x, c.st))
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{name: "builtin:" + x.Name()}
	}
	r, ok := c.env[v]
	if !ok {
		panic(unsupported("undefined value %s in %s", v, v.Parent()))
	}
	return r
}

// global gives the object of a package variable, with its initial content.
func (e *Engine) global(g *ssa.Global, st *State) *Obj {
	if o, ok := e.globals[g]; ok {
		return o
	}
	et := under(g.Type()).(*types.Pointer).Elem()
	o := e.newObj(et, g.String())
	o.user, o.global = true, true
	e.globals[g] = o
	path := g.Pkg.Pkg.Path()
	if !strings.HasPrefix(path, modPath) && path != pkgXyml && path != pkgOpt && path != pkgGomp {
		o.init = e.symVal(et, "global:"+g.String())
		return o
	}
	o.init = e.zero(et)
	e.runInit(g.Pkg)
	return o
}

func (e *Engine) runInit(p *ssa.Package) {
	if e.inited[p] {
		return
	}
	e.inited[p] = true
	// allocate all globals first
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := e.globals[g]; !ok {
				et := under(g.Type()).(*types.Pointer).Elem()
				o := e.newObj(et, g.String())
				o.user, o.global = true, true
				o.init = e.zero(et)
				e.globals[g] = o
			}
		}
	}
	fn := p.Func("init")
	q := e.quiet
	e.quiet = true
	defer func() { e.quiet = q }()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					e.assume["package initialiser of "+p.Pkg.Path()+" not executed ("+u.msg+"): its variables are arbitrary"] = true
					for _, m := range p.Members {
						if g, ok := m.(*ssa.Global); ok {
							o := e.globals[g]
							func() {
								defer func() { recover() }()
								o.init = e.symVal(o.typ, "global:"+g.String())
							}()
						}
					}
					return
				}
				panic(r)
			}
		}()
		sd, sl := e.depth, len(e.callStack)
		outs := e.call(fn, nil, nil, &State{heap: map[*Obj]Value{}})
		e.depth, e.callStack = sd, e.callStack[:sl]
		if len(outs) != 1 || outs[0].panic {
			msg := ""
			if len(outs) > 0 {
				msg = outs[0].msg
			}
			panic(unsupported("initialiser has %d outcomes %s", len(outs), msg))
		}
		for o, v := range outs[0].st.heap {
			o.init = v
			o.user = true
		}
		for _, n := range sortedKeys(p.Members) {
			if g, ok := p.Members[n].(*ssa.Global); ok && !e.constGlobal(g) {
				// earlier calls may have left anything in it
				o := e.globals[g]
				o.init = e.symVal(o.typ, "global:"+g.String())
			}
		}
	}()
}

// globalUse: where package variables occur in the program.
var (
	globalOnce sync.Once
	globalUse  map[*ssa.Global][]ssa.Instruction
)

// constGlobal: nothing but the initialiser changes the package variable, or
// what it refers to.
func (e *Engine) constGlobal(g *ssa.Global) bool {
	globalOnce.Do(func() {
		globalUse = map[*ssa.Global][]ssa.Instruction{}
		var visit func(fn *ssa.Function)
		seen := map[*ssa.Function]bool{}
		visit = func(fn *ssa.Function) {
			if fn == nil || seen[fn] {
				return
			}
			seen[fn] = true
			for _, a := range fn.AnonFuncs {
				visit(a)
			}
			if fn.Name() == "init" && fn.Synthetic != "" || strings.Contains(e.posOf(fn.Pos()), "zz_verif_") {
				return
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if x, ok := (*op).(*ssa.Global); ok {
							globalUse[x] = append(globalUse[x], in)
						}
					}
				}
			}
		}
		for fn := range ssautil.AllFunctions(e.P.prog) {
			visit(fn)
		}
	})
	for _, in := range globalUse[g] {
		switch x := in.(type) {
		case *ssa.UnOp:
			if !readOnly(x, 0) {
				return false
			}
		case *ssa.IndexAddr, *ssa.FieldAddr:
			if !addrReadOnly(x.(ssa.Value), 0) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// readOnly: nothing reachable from the value is changed through it.
func readOnly(v ssa.Value, depth int) bool {
	switch t := under(v.Type()).(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Interface:
		return types.Identical(v.Type(), types.Universe.Lookup("error").Type())
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if _, ok := under(t.Field(i).Type()).(*types.Basic); !ok {
				return false
			}
		}
		return true
	}
	if depth > 4 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.Lookup:
			if y.X != v || !readOnly(y, depth+1) {
				return false
			}
		case *ssa.Extract:
			if !readOnly(y, depth+1) {
				return false
			}
		case *ssa.Range, *ssa.DebugRef:
			// the elements: the iterator hands out copies
			if m, ok := under(v.Type()).(*types.Map); ok {
				if _, ok := under(m.Elem()).(*types.Basic); !ok {
					if _, ok := under(m.Elem()).(*types.Signature); !ok {
						return false
					}
				}
			}
		case *ssa.IndexAddr:
			if y.X != v || !addrReadOnly(y, depth+1) {
				return false
			}
		case *ssa.FieldAddr:
			if !addrReadOnly(y, depth+1) {
				return false
			}
		case *ssa.Slice:
			if !readOnly(y, depth+1) {
				return false
			}
		case *ssa.BinOp:
		case *ssa.Call:
			b, ok := y.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// addrReadOnly: the address is only loaded from.
func addrReadOnly(a ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, r := range *a.Referrers() {
		switch y := r.(type) {
		case *ssa.UnOp:
			if !readOnly(y, depth+1) {
				return false
			}
		case *ssa.IndexAddr, *ssa.FieldAddr:
			if !addrReadOnly(y.(ssa.Value), depth+1) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// nilCheck splits off the panic path of dereferencing p.
func (e *Engine) nilCheck(c *cfg, nilT *Term, what string, pos token.Pos, outs *[]Outcome) bool {
	return e.mayPanic(c, nilT, "nil dereference ("+what+")", pos, outs)
}

func (e *Engine) mayPanic(c *cfg, bad *Term, msg string, pos token.Pos, outs *[]Outcome) bool {
	if bad == e.False {
		return true
	}
	e.safety++
	switch e.decide(c.st, bad) {
	case -1:
		return true
	case 1:
		*outs = append(*outs, Outcome{st: c.st, panic: true, msg: msg + " at " + e.posOf(pos)})
		return false
	}
	s := c.st.clone()
	e.add(s, bad)
	*outs = append(*outs, Outcome{st: s, panic: true, msg: msg + " at " + e.posOf(pos)})
	s2 := c.st.clone()
	e.add(s2, e.Not(bad))
	c.st = s2
	return true
}

func one(st *State, v Value) []SV { return []SV{{st, v}} }

func (e *Engine) instr(fr *frame, c *cfg, in ssa.Instruction, outs *[]Outcome) []SV {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := under(x.Type()).(*types.Pointer).Elem()
		o := e.newObj(t, x.Comment)
		c.st.heap[o] = e.zero(t)
		return one(c.st, e.ptrTo(o))
	case *ssa.Store:
		p := e.val(c, x.Addr).(Ptr)
		if !e.nilCheck(c, p.nilT, "store", x.Pos(), outs) {
			return nil
		}
		var r []SV
		for _, s := range e.store(c.st, p, e.val(c, x.Val)) {
			r = append(r, SV{s, nil})
		}
		return r
	case *ssa.FieldAddr:
		p := e.val(c, x.X).(Ptr)
		if !e.nilCheck(c, p.nilT, "field access", x.Pos(), outs) {
			return nil
		}
		p.path = append(append([]PathElem(nil), p.path...), PathElem{field: x.Field})
		p.nilT = e.False
		return one(c.st, p)
	case *ssa.Field:
		s, ok := e.val(c, x.X).(Struct)
		if !ok {
			panic(unsupported("field of %T", e.val(c, x.X)))
		}
		return one(c.st, s.f[x.Field])
	case *ssa.IndexAddr:
		i := e.val(c, x.Index).(*Term)
		switch b := e.val(c, x.X).(type) {
		case Slice:
			if !e.mayPanic(c, e.Or(e.Lt(i, e.Int(0)), e.Ge(i, b.len)), "index out of range", x.Pos(), outs) {
				return nil
			}
			return one(c.st, Ptr{nilT: e.False, obj: b.arr, path: []PathElem{{field: -1, idx: e.Add(b.off, i)}}})
		case Ptr:
			n := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len()
			if !e.nilCheck(c, b.nilT, "array", x.Pos(), outs) {
				return nil
			}
			if !e.mayPanic(c, e.Or(e.Lt(i, e.Int(0)), e.Ge(i, e.Int(n))), "index out of range", x.Pos(), outs) {
				return nil
			}
			b.path = append(append([]PathElem(nil), b.path...), PathElem{field: -1, idx: i})
			return one(c.st, b)
		}
	case *ssa.Index:
		i := e.val(c, x.Index).(*Term)
		switch b := e.val(c, x.X).(type) {
		case *Arr:
			return e.split(c.st, e.readArr(c.st, b, i))
		case *Term: // string
			if !e.mayPanic(c, e.Or(e.Lt(i, e.Int(0)), e.Ge(i, e.strLen(b))), "string index out of range", x.Pos(), outs) {
				return nil
			}
			return one(c.st, e.strAt(b, i))
		}
	case *ssa.Lookup:
		m := e.val(c, x.X)
		k := e.val(c, x.Index)
		if s, ok := m.(*Term); ok {
			i := k.(*Term)
			if !e.mayPanic(c, e.Or(e.Lt(i, e.Int(0)), e.Ge(i, e.strLen(s))), "string index out of range", x.Pos(), outs) {
				return nil
			}
			return one(c.st, e.strAt(s, i))
		}
		return e.mapLookup(c.st, m.(MapRef), k, x.CommaOk)
	case *ssa.MapUpdate:
		m := e.val(c, x.Map).(MapRef)
		if !e.mayPanic(c, m.nilT, "write to nil map", x.Pos(), outs) {
			return nil
		}
		g := c.st.get(m.obj).(*GMap)
		c.st.heap[m.obj] = &GMap{typ: g.typ, kind: 'P', parent: g, k: e.val(c, x.Key), v: e.val(c, x.Value), id: e.nextArr()}
		return one(c.st, nil)
	case *ssa.UnOp:
		v := e.val(c, x.X)
		switch x.Op {
		case token.MUL:
			p := v.(Ptr)
			if !e.nilCheck(c, p.nilT, "load", x.Pos(), outs) {
				return nil
			}
			return e.load(c.st, p)
		case token.NOT:
			return one(c.st, e.Not(v.(*Term)))
		case token.SUB:
			t := v.(*Term)
			if t.sort == SInt {
				return one(c.st, e.MulK(t, -1))
			}
			return one(c.st, e.AppF("fneg", SFlt, t))
		}
	case *ssa.BinOp:
		return e.binop(c, x, outs)
	case *ssa.ChangeType:
		v := e.val(c, x.X)
		if s, ok := v.(Struct); ok {
			s.typ = x.Type()
			return one(c.st, s)
		}
		return one(c.st, v)
	case *ssa.ChangeInterface:
		return one(c.st, e.val(c, x.X))
	case *ssa.MakeInterface:
		return one(c.st, Iface{x.X.Type(), e.val(c, x.X)})
	case *ssa.Convert:
		return e.convert(c, x)
	case *ssa.MakeClosure:
		f := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, e.val(c, b))
		}
		return one(c.st, f)
	case *ssa.MakeMap:
		mt := under(x.Type()).(*types.Map)
		o := e.newObj(x.Type(), "map")
		c.st.heap[o] = &GMap{typ: mt, kind: 'E', id: e.nextArr()}
		return one(c.st, MapRef{nilT: e.False, obj: o, typ: mt})
	case *ssa.MakeSlice:
		et := under(x.Type()).(*types.Slice).Elem()
		ln, cp := e.val(c, x.Len).(*Term), e.val(c, x.Cap).(*Term)
		if !e.mayPanic(c, e.Or(e.Lt(ln, e.Int(0)), e.Gt(ln, cp)), "makeslice: len out of range", x.Pos(), outs) {
			return nil
		}
		o := e.newObj(types.NewArray(et, 0), "array")
		c.st.heap[o] = &Arr{elem: et, kind: 'Z', id: e.nextArr()}
		return one(c.st, Slice{nilT: e.False, arr: o, off: e.Int(0), len: ln, cap: cp, elem: et})
	case *ssa.Slice:
		return e.sliceOp(c, x, outs)
	case *ssa.Extract:
		t, ok := e.val(c, x.Tuple).(Tuple)
		if !ok {
			panic(unsupported("extract from %T", e.val(c, x.Tuple)))
		}
		return one(c.st, t[x.Index])
	case *ssa.TypeAssert:
		return e.typeAssert(c, x, outs)
	case *ssa.Range:
		v := e.val(c, x.X)
		o := e.newObj(nil, "iter")
		e.epoch++
		c.st.heap[o] = iterState{pos: e.Int(0), id: e.epoch, src: v, content: e.iterContent(c.st, v)}
		return one(c.st, IterV{o})
	case *ssa.Next:
		return e.next(c, x)
	case *ssa.Call:
		var r []SV
		fv, args := e.callee(c, &x.Call)
		n := x.Call.Signature().Results().Len()
		base := c.st.pc
		for _, o := range e.joinOuts(base, e.callValue(fv, args, c.st, x.Pos())) {
			if o.panic {
				*outs = append(*outs, o)
				continue
			}
			switch n {
			case 0:
				r = append(r, SV{o.st, nil})
			case 1:
				r = append(r, SV{o.st, o.vals[0]})
			default:
				r = append(r, SV{o.st, Tuple(o.vals)})
			}
		}
		return r
	}
	panic(unsupported("instruction %s (%T) in %s", in, in, fr.fn))
}

// callee resolves the called value and its arguments.
func (e *Engine) callee(c *cfg, cc *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if cc.IsInvoke() {
		recv := e.val(c, cc.Value)
		for _, a := range cc.Args {
			args = append(args, e.val(c, a))
		}
		return invokeV{recv, cc.Method, cc.Value.Type()}, args
	}
	for _, a := range cc.Args {
		args = append(args, e.val(c, a))
	}
	return e.val(c, cc.Value), args
}

type invokeV struct {
	recv   Value
	m      *types.Func
	static types.Type
}

func (e *Engine) callValue(fv Value, args []Value, st *State, pos token.Pos) []Outcome {
	switch f := fv.(type) {
	case FuncV:
		if f.prim != nil {
			return f.prim(e, st, args)
		}
		if strings.HasPrefix(f.name, "builtin:") {
			return e.builtin(f.name[8:], args, st, pos)
		}
		if f.fn == nil {
			return []Outcome{{st: st, panic: true, msg: "call of nil function at " + e.posOf(pos)}}
		}
		return e.call(f.fn, args, f.bind, st)
	case invokeV:
		return e.invoke(f, args, st, pos)
	}
	panic(unsupported("call of %T", fv))
}

func (e *Engine) invoke(f invokeV, args []Value, st *State, pos token.Pos) []Outcome {
	switch r := f.recv.(type) {
	case Iface:
		if r.typ == nil {
			return []Outcome{{st: st, panic: true, msg: "method call on nil interface (" + f.m.Name() + ") at " + e.posOf(pos)}}
		}
		return e.invokeOn(r, f.m, args, st)
	case *Term:
		return e.invokeOpaque(r, f, args, st, pos)
	}
	panic(unsupported("invoke on %T", f.recv))
}

func (e *Engine) invokeOn(r Iface, m *types.Func, args []Value, st *State) []Outcome {
	if am, ok := r.typ.(*amType); ok {
		return e.amapCall(st, am, r.val.(Ptr), m.Name(), args)
	}
	fn := e.P.prog.LookupMethod(r.typ, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported("no method %s on %s", m.Name(), r.typ))
	}
	return e.call(fn, append([]Value{r.val}, args...), nil, st)
}

func (e *Engine) binop(c *cfg, x *ssa.BinOp, outs *[]Outcome) []SV {
	a, b := e.val(c, x.X), e.val(c, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		// comparison of interface with a concrete operand does not occur in SSA
		r := e.eqVal(a, b)
		if x.Op == token.NEQ {
			r = e.Not(r)
		}
		return one(c.st, r)
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported("operator %s on %T", x.Op, a))
	}
	var r *Term
	switch {
	case p.sort == SInt:
		switch x.Op {
		case token.ADD:
			r = e.Add(p, q)
		case token.SUB:
			r = e.Sub(p, q)
		case token.MUL:
			if q.op == OInt {
				r = e.MulK(p, q.k)
			} else if p.op == OInt {
				r = e.MulK(q, p.k)
			} else {
				r = e.App("imul", SInt, p, q)
			}
		case token.QUO:
			if q.op == OInt && q.k != 0 {
				if p.op == OInt {
					r = e.Int(p.k / q.k)
				} else if d := e.divide(p, q.k); d != nil {
					r = d
				} else {
					r = e.divT(p, q.k)
				}
			} else {
				if !e.mayPanic(c, e.Eq(q, e.Int(0)), "division by zero", x.Pos(), outs) {
					return nil
				}
				r = e.App("idiv", SInt, p, q)
			}
		case token.REM:
			if q.op == OInt && q.k > 0 {
				if p.op == OInt {
					r = e.Int(p.k % q.k)
				} else {
					r = e.Sub(p, e.MulK(e.divT(p, q.k), q.k))
				}
			} else {
				r = e.App("irem", SInt, p, q)
			}
		case token.LSS:
			r = e.Lt(p, q)
		case token.LEQ:
			r = e.Le(p, q)
		case token.GTR:
			r = e.Gt(p, q)
		case token.GEQ:
			r = e.Ge(p, q)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			if p.op == OInt && q.op == OInt {
				v := map[token.Token]int64{token.AND: p.k & q.k, token.OR: p.k | q.k, token.XOR: p.k ^ q.k, token.AND_NOT: p.k &^ q.k}
				if x.Op == token.SHL {
					r = e.Int(p.k << uint(q.k))
				} else if x.Op == token.SHR {
					r = e.Int(p.k >> uint(q.k))
				} else {
					r = e.Int(v[x.Op])
				}
			} else if x.Op == token.SHR && q.op == OInt && q.k < 62 && q.k >= 0 {
				r = e.divFloor(p, 1<<uint(q.k))
			} else if x.Op == token.SHL && q.op == OInt && q.k < 62 && q.k >= 0 {
				r = e.MulK(p, 1<<uint(q.k))
			} else if x.Op == token.AND && q.op == OInt && q.k == 1 {
				r = e.Sub(p, e.MulK(e.divFloor(p, 2), 2))
			} else {
				r = e.App("bit"+x.Op.String(), SInt, p, q)
			}
		}
	case p.sort == SStr:
		switch x.Op {
		case token.ADD:
			r = e.concat(p, q)
		case token.LSS:
			r = e.AppF("strlt", SBool, p, q)
		case token.GTR:
			r = e.AppF("strlt", SBool, q, p)
		case token.LEQ:
			r = e.Not(e.AppF("strlt", SBool, q, p))
		case token.GEQ:
			r = e.Not(e.AppF("strlt", SBool, p, q))
		}
	case p.sort == SFlt:
		switch x.Op {
		case token.LSS:
			r = e.App("flt<", SBool, p, q)
		case token.GTR:
			r = e.App("flt<", SBool, q, p)
		case token.LEQ:
			r = e.App("flt<=", SBool, p, q)
		case token.GEQ:
			r = e.App("flt<=", SBool, q, p)
		default:
			r = e.App("flt"+x.Op.String(), SFlt, p, q)
		}
	case p.sort == SBool:
		switch x.Op {
		case token.AND:
			r = e.And(p, q)
		case token.OR:
			r = e.Or(p, q)
		case token.XOR:
			r = e.Not(e.Eq(p, q))
		}
	}
	if r == nil {
		panic(unsupported("operator %s on %s", x.Op, p.sort))
	}
	return one(c.st, r)
}

// divT is Go's truncated division by a positive constant.
func (e *Engine) divT(p *Term, k int64) *Term {
	if k < 0 {
		return e.MulK(e.divT(p, -k), -1)
	}
	neg := e.Lt(p, e.Int(0))
	return e.Ite(neg, e.MulK(e.divFloor(e.MulK(p, -1), k), -1), e.divFloor(p, k))
}
func (e *Engine) divFloor(p *Term, k int64) *Term {
	if p.op == OInt {
		return e.Int(floorDiv(p.k, k))
	}
	if d := e.divide(p, k); d != nil {
		return d
	}
	q := e.App(fmt.Sprintf("div%d", k), SInt, p)
	if q.ax == nil && !q.bound {
		q.ax = []*Term{e.Le(e.MulK(q, k), p), e.Lt(p, e.AddK(e.MulK(q, k), k))}
	}
	return q
}

func (e *Engine) convert(c *cfg, x *ssa.Convert) []SV {
	v := e.val(c, x.X)
	from, to := under(x.X.Type()), under(x.Type())
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if t, ok := v.(*Term); ok && ok1 && ok2 {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return one(c.st, t)
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return one(c.st, e.wrapInt(t, x.X.Type(), x.Type()))
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return one(c.st, e.AppF("int2flt", SFlt, t))
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return one(c.st, e.AppF("flt2int", SInt, t))
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if tb.Kind() == types.Float32 {
				return one(c.st, e.AppF("flt32", SFlt, t))
			}
			return one(c.st, t)
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return one(c.st, e.AppF("rune2str", SStr, t))
		}
	}
	if t, ok := v.(*Term); ok && ok1 && fb.Info()&types.IsString != 0 {
		if sl, ok := to.(*types.Slice); ok {
			return one(c.st, e.bytesOf(c.st, t, sl.Elem()))
		}
	}
	if sl, ok := v.(Slice); ok && ok2 && tb.Info()&types.IsString != 0 {
		if t, ok := sl.ghost.(*Term); ok && t.sort == SStr {
			return one(c.st, t)
		}
		return one(c.st, e.Var("str", SStr))
	}
	panic(unsupported("conversion %s to %s", x.X.Type(), x.Type()))
}

// bytesOf is []byte(s); the ghost remembers the text (the bytes are not
// written through afterwards in the subset we accept).
func (e *Engine) bytesOf(st *State, t *Term, elem types.Type) Slice {
	o := e.newObj(types.NewArray(elem, 0), "bytes")
	st.heap[o] = &Arr{elem: elem, kind: '?', id: e.nextArr()}
	n := e.strLen(t)
	return Slice{nilT: e.False, arr: o, off: e.Int(0), len: n, cap: n, elem: elem, ghost: t}
}

func (e *Engine) wrapInt(t *Term, from, to types.Type) *Term {
	flo, fhi, _ := intRange(from)
	tlo, thi, ok := intRange(to)
	if !ok || flo == tlo && fhi == thi {
		return t
	}
	cmp := func(a, b string) int { // compare decimal numbers
		na, nb := strings.HasPrefix(a, "-"), strings.HasPrefix(b, "-")
		if na != nb {
			if na {
				return -1
			}
			return 1
		}
		s := 1
		if na {
			s = -1
			a, b = a[1:], b[1:]
		}
		if len(a) != len(b) {
			if len(a) < len(b) {
				return -s
			}
			return s
		}
		return s * strings.Compare(a, b)
	}
	if cmp(tlo, flo) <= 0 && cmp(fhi, thi) <= 0 {
		return t
	}
	if t.op == OInt {
		s := fmt.Sprint(t.k)
		if cmp(tlo, s) <= 0 && cmp(s, thi) <= 0 {
			return t
		}
	}
	// in range: unchanged; otherwise the wrapped value (exact for 64 bits)
	in := e.True
	for _, a := range e.rangeAx(t, to) {
		in = e.And(in, a)
	}
	w := e.App("wrap:"+shortType(to), SInt, t)
	if thi == "18446744073709551615" && flo[0] == '-' {
		w = e.lin([]*Term{t, e.Big("18446744073709551616")}, []int64{1, 1}, 0)
	} else if tlo == "-9223372036854775808" && fhi == "18446744073709551615" {
		w = e.lin([]*Term{t, e.Big("18446744073709551616")}, []int64{1, -1}, 0)
	} else if w.ax == nil && !w.bound {
		w.ax = e.rangeAx(w, to)
	}
	return e.Ite(in, t, w)
}

func (e *Engine) sliceOp(c *cfg, x *ssa.Slice, outs *[]Outcome) []SV {
	v := e.val(c, x.X)
	get := func(w ssa.Value, d *Term) *Term {
		if w == nil {
			return d
		}
		return e.val(c, w).(*Term)
	}
	switch s := v.(type) {
	case Slice:
		lo, hi, mx := get(x.Low, e.Int(0)), get(x.High, s.len), get(x.Max, s.cap)
		bad := e.Or(e.Lt(lo, e.Int(0)), e.Lt(hi, lo), e.Lt(mx, hi), e.Lt(s.cap, mx))
		if !e.mayPanic(c, bad, "slice bounds out of range", x.Pos(), outs) {
			return nil
		}
		g := s.ghost
		if lo != e.Int(0) || hi != s.len {
			g = nil
		}
		return one(c.st, Slice{nilT: s.nilT, arr: s.arr, off: e.Add(s.off, lo), len: e.Sub(hi, lo), cap: e.Sub(mx, lo), elem: s.elem, ghost: g, short: s.short && hi == s.len || hi != s.len && hi != mx})
	case Ptr: // pointer to array
		at := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		if s.obj == nil || len(s.path) > 0 {
			panic(unsupported("slicing an embedded array"))
		}
		n := e.Int(at.Len())
		lo, hi, mx := get(x.Low, e.Int(0)), get(x.High, n), get(x.Max, n)
		return one(c.st, Slice{nilT: e.False, arr: s.obj, off: lo, len: e.Sub(hi, lo), cap: e.Sub(mx, lo), elem: at.Elem()})
	case *Term:
		lo, hi := get(x.Low, e.Int(0)), get(x.High, e.strLen(s))
		if !e.mayPanic(c, e.Or(e.Lt(lo, e.Int(0)), e.Lt(hi, lo), e.Lt(e.strLen(s), hi)), "slice bounds out of range", x.Pos(), outs) {
			return nil
		}
		return one(c.st, e.substr(s, lo, hi))
	}
	panic(unsupported("slice of %T", v))
}

// --- type assertions -----------------------------------------------------------

func (e *Engine) typeAssert(c *cfg, x *ssa.TypeAssert, outs *[]Outcome) []SV {
	v := e.val(c, x.X)
	okT, res := e.assertTo(c.st, v, x.X.Type(), x.AssertedType)
	if x.CommaOk {
		if okT == e.True {
			return one(c.st, Tuple{res, e.True})
		}
		z := e.zero(x.AssertedType)
		if okT == e.False {
			return one(c.st, Tuple{z, e.False})
		}
		if m, ok := e.tryMerge(okT, res, z); ok {
			return one(c.st, Tuple{m, okT})
		}
		y, n := e.branch(c.st, okT)
		var r []SV
		if y != nil {
			r = append(r, SV{y, Tuple{res, e.True}})
		}
		if n != nil {
			r = append(r, SV{n, Tuple{z, e.False}})
		}
		return r
	}
	if !e.mayPanic(c, e.Not(okT), "failed type assertion to "+shortType(x.AssertedType), x.Pos(), outs) {
		return nil
	}
	return one(c.st, res)
}

func (e *Engine) assertTo(st *State, v Value, static, want types.Type) (*Term, Value) {
	wi, isI := under(want).(*types.Interface)
	switch i := v.(type) {
	case Iface:
		if i.typ == nil {
			return e.False, e.zero(want)
		}
		if am, ok := i.typ.(*amType); ok {
			if isI && types.Implements(am.iface, wi) {
				return e.True, i
			}
			return e.False, e.zero(want)
		}
		if isI {
			return e.Bool(types.Implements(i.typ, wi)), i
		}
		if types.Identical(i.typ, want) {
			return e.True, i.val
		}
		return e.False, e.zero(want)
	case *Term:
		nn := e.Not(e.Eq(i, e.nilAny()))
		if isI {
			if si, ok := under(static).(*types.Interface); ok && types.Implements(static, wi) && si.NumMethods() > 0 {
				return nn, i
			}
			// known implementers of the static type decide
			if impls := e.implementers(static); len(impls) > 0 {
				all, none := true, true
				for _, t := range impls {
					if types.Implements(t, wi) {
						none = false
					} else {
						all = false
					}
				}
				if all {
					return nn, i
				}
				if none {
					return e.False, e.zero(want)
				}
			}
			return e.And(nn, e.App("impl:"+types.TypeString(want, nil), SBool, e.App("typeof", SInt, i))), i
		}
		if _, ok := under(static).(*types.Interface); ok && !types.AssertableTo(under(static).(*types.Interface), want) {
			return e.False, e.zero(want)
		}
		return e.And(nn, e.Eq(e.App("typeof", SInt, i), e.typeID(want))), e.unbox(i, want)
	}
	panic(unsupported("type assertion on %T", v))
}

// implementers lists the repository types (pointer or value) implementing a
// non-empty interface declared by the repository.
func (e *Engine) implementers(t types.Type) []types.Type {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	key := n.String()
	if r, ok := e.implCache[key]; ok {
		return r
	}
	var out []types.Type
	for _, path := range sortedKeys(e.P.pkgs) {
		if !strings.HasPrefix(path, modPath) {
			continue
		}
		sc := e.P.pkgs[path].Pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(tn.Type(), it) {
				out = append(out, tn.Type())
			}
			if types.Implements(types.NewPointer(tn.Type()), it) {
				out = append(out, types.NewPointer(tn.Type()))
			}
		}
	}
	e.implCache[key] = out
	return out
}
