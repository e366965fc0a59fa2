package main

// Parsing: folds over the entries of a YAML node, and the contracts of the
// parsing functions at their call sites.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const nodeContent = "fld:" + pkgYaml + ".Node.Content"

// nodeAxioms: a well-formed YAML tree. Children are nodes, a mapping has as
// many values as keys.
func (e *Engine) nodeAxioms() {
	e.axFns[nodeContent+"[]"] = func(x *Term) []*Term {
		if x.bound {
			return nil
		}
		return []*Term{e.App("symref", SBool, x), e.Not(e.Eq(x, e.null()))}
	}
	e.axFns[nodeContent+".len"] = func(x *Term) []*Term {
		out := []*Term{e.Le(e.Int(0), x), e.Le(x, e.Int(1<<40))}
		if len(x.args) == 1 {
			kind := e.App("fld:"+pkgYaml+".Node.Kind", SInt, x.args...)
			h := e.App("half", SInt, x.args...)
			out = append(out, e.Implies(e.Eq(kind, e.Int(4)), e.Eq(x, e.MulK(h, 2))))
		}
		return out
	}
}

// elemType maps an implementation type to its constructor.
func (e *Engine) elemCtorOf(t types.Type) *ssa.Function {
	p, ok := t.(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkgInt {
		return nil
	}
	name := n.Obj().Name()
	if name == "APISpec" {
		name = "ApiSpec"
	}
	f := e.P.pkgs[pkgInt].Func("New" + name)
	if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 ||
		!types.Identical(f.Signature.Results().At(0).Type(), t) {
		return nil
	}
	return f
}

// sameShape: two disjoint structures have the same content. Values of scalar
// type in a that differ from b's are collected in diff, when it is given.
func (e *Engine) sameShape(st *State, a, b Value, memo map[*Obj]*Obj, diff *[]*Term, where string) bool {
	obj := func(x, y *Obj) bool {
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		if m, ok := memo[x]; ok {
			return m == y
		}
		memo[x] = y
		cx, cy := st.get(x), st.get(y)
		if cx == nil || cy == nil {
			return false
		}
		return e.sameShape(st, cx, cy, memo, diff, where+"*")
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.typ == nil) != (y.typ == nil) {
			return false
		}
		if x.typ == nil {
			return true
		}
		return types.Identical(x.typ, y.typ) && e.sameShape(st, x.val, y.val, memo, diff, where)
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.nilT == y.nilT && x.sym == y.sym && len(x.path) == 0 && len(y.path) == 0 && obj(x.obj, y.obj)
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !e.sameShape(st, x.f[i], y.f[i], memo, diff, fmt.Sprintf("%s.%d", where, i)) {
				return false
			}
		}
		return true
	case AMState:
		y, ok := b.(AMState)
		return ok && x.ord == y.ord && x.m.kind == 'E' && y.m.kind == 'E'
	case *Term:
		if y, ok := b.(*Term); ok && x != y && x.sort == y.sort && diff != nil {
			*diff = append(*diff, x)
			e.diffAt += where + ";"
			return true
		}
	}
	return e.same(a, b)
}

// parsedElem: contract of X.UnmarshalRAML(node) on a new element, at its call
// sites: the element's properties and the error are functions of the node.
func (e *Engine) parsedElem(fn *ssa.Function, ctor *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
	p, ok := args[0].(Ptr)
	if !ok || p.obj == nil || len(p.path) > 0 {
		return nil, false
	}
	n, ok := args[1].(Ptr)
	if !ok {
		return nil, false
	}
	e.relyElem(ctor.Signature.Results().At(0).Type(), "parse")
	e.descend(fn.String(), n)
	y, no := e.branch(st, n.nilT)
	var outs []Outcome
	if y != nil {
		outs = append(outs, Outcome{st: y, panic: true, msg: fn.Name() + " of a nil node"})
	}
	if no == nil {
		return outs, true
	}
	st = no
	name := "parsed:" + ctor.Name()
	key := e.ptrTerm(n)
	mark := e.objN
	souts := e.call(ctor, nil, nil, st.clone())
	if len(souts) != 1 || souts[0].panic {
		panic(unsupported("constructor %s", ctor))
	}
	sst := souts[0].st
	for o, v := range st.heap {
		sst.heap[o] = v
	}
	var diff []*Term
	e.diffAt = ""
	fresh := e.sameShape(sst, p, souts[0].vals[0], map[*Obj]*Obj{}, &diff, "")
	st.heap = sst.heap
	args2 := []*Term{key}
	if len(diff) > 0 {
		// the result is a function of the initial properties too
		name += "@" + e.diffAt
		args2 = append(args2, diff...)
	}
	if !fresh {
		e.assume["an element that is not new is arbitrary after parsing into it again"] = true
		args2 = append(args2, e.Var("epoch", SInt))
		name = "re" + name
	}
	_ = mark
	e.havocElem(st, p, name, args2, p.obj.id-1-e.elemSpan(st, p), map[*Obj]bool{})
	err := e.symVal(fn.Signature.Results().At(0).Type(), name+".err", args2...)
	return append(outs, e.errOutcomes(st, err)...), true
}

// elemSpan: how far below the object's id its parts may lie (a constructor
// allocates parts before or after the element itself).
func (e *Engine) elemSpan(st *State, p Ptr) int {
	lo := p.obj.id
	seen := map[*Obj]bool{}
	var walk func(v Value)
	walk = func(v Value) {
		switch x := v.(type) {
		case Iface:
			if x.typ != nil {
				walk(x.val)
			}
		case Ptr:
			if x.obj == nil || seen[x.obj] || x.obj.global {
				return
			}
			seen[x.obj] = true
			if x.obj.id < lo {
				lo = x.obj.id
			}
			if c := st.get(x.obj); c != nil {
				walk(c)
			}
		case Struct:
			for _, f := range x.f {
				walk(f)
			}
		}
	}
	walk(p)
	return p.obj.id - lo
}

// errOutcomes: a call returning just an error, split on its nilness.
func (e *Engine) errOutcomes(st *State, err Value) []Outcome {
	t := err.(*Term)
	y, n := e.branch(st, e.Eq(t, e.nilAny()))
	var outs []Outcome
	if y != nil {
		outs = append(outs, Outcome{st: y, vals: []Value{Iface{}}})
	}
	if n != nil {
		outs = append(outs, Outcome{st: n, vals: []Value{err}})
	}
	return outs
}

// fillContract: contract of a function that adds the entries of a mapping to a
// collection: what is added and the error are functions of the node.
func (e *Engine) fillContract(fn *ssa.Function, m, n Value, errT types.Type, st *State) ([]Outcome, bool) {
	i, ok := m.(Iface)
	if !ok {
		return nil, false
	}
	am, ok := i.typ.(*amType)
	if !ok {
		return nil, false
	}
	q, ok := n.(Ptr)
	if !ok {
		return nil, false
	}
	e.relyFill(fn, am)
	e.descend(fn.String(), q)
	y, no := e.branch(st, q.nilT)
	var outs []Outcome
	if y != nil {
		outs = append(outs, Outcome{st: y, panic: true, msg: "parsing of a nil node"})
	}
	if no == nil {
		return outs, true
	}
	p := i.val.(Ptr)
	c, ok := no.get(p.obj).(AMState)
	if !ok {
		return nil, false
	}
	name := "fill:" + am.named.Obj().Name()
	key := e.ptrTerm(q)
	no.heap[p.obj] = AMState{m: &AMap{kind: 'U', parent: c.m, base: name, args: []*Term{key}, am: am, id: e.nextArr()}, ord: c.ord}
	return append(outs, e.errOutcomes(no, e.symVal(errT, name+".err", key))...), true
}

var fillFuncs = map[string]bool{
	pkgInt + ".UnmarshalAnnotationMapRAML":         true,
	pkgInt + ".UnmarshalDataTypeMapRAML":           true,
	pkgInt + ".UnmarshalPropertyMapRAML":           true,
	pkgInt + ".UnmarshalFacetMapRAML":              true,
	pkgInt + ".UnmarshalStringMapRAML":             true,
	pkgInt + ".UnmarshalUntypedMapRAML":            true,
	modPath + "/internal/util/assign.ToStringMap":  true,
	modPath + "/internal/util/assign.ToUntypedMap": true,
}

func init() {
	for _, k := range strings.Fields("Any Array Bool Custom DateOnly DatetimeOnly Datetime File Integer Number Object String TimeOnly Union") {
		fillFuncs[pkgInt+".Unmarshal"+k+"ExampleMapRAML"] = true
	}
}

// parseContract: modular calls of the parsing functions.
func (e *Engine) parseContract(fn *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
	if !e.abs {
		return nil, false
	}
	sig := fn.Signature
	isNode := func(t types.Type) bool { return types.TypeString(t, nil) == "*"+pkgYaml+".Node" }
	id := fn.String()
	if sig.Recv() != nil {
		if fn.Name() == "UnmarshalYAML" {
			e.takeReal(id, args)
			return nil, false
		}
		if fn.Name() != "UnmarshalRAML" || sig.Params().Len() != 1 || !isNode(sig.Params().At(0).Type()) || sig.Results().Len() != 1 {
			return nil, false
		}
		ctor := e.elemCtorOf(sig.Recv().Type())
		if ctor == nil || e.takeReal(id, args) {
			return nil, false
		}
		return e.parsedElem(fn, ctor, args, st)
	}
	if fillFuncs[id] && sig.Params().Len() == 2 && sig.Results().Len() == 1 && len(args) == 2 {
		if e.takeReal(id, args) {
			return nil, false
		}
		if isNode(sig.Params().At(0).Type()) {
			return e.fillContract(fn, args[1], args[0], sig.Results().At(0).Type(), st)
		}
		if isNode(sig.Params().At(1).Type()) {
			return e.fillContract(fn, args[0], args[1], sig.Results().At(0).Type(), st)
		}
	}
	if id == pkgXyml+".ToScalarValue" && len(args) == 1 {
		if e.takeReal(id, args) {
			return nil, false
		}
		return e.scalarContract(fn, args, st)
	}
	if id == pkgInt+".TypeSortingHat" && sig.Params().Len() == 1 && sig.Results().Len() == 2 {
		if e.takeReal(id, args) {
			return nil, false
		}
		return e.sortedType(fn, args, st)
	}
	// the specification side
	if sig.Recv() == nil && strings.HasPrefix(fn.Name(), "VcFill") && sig.Params().Len() == 2 && sig.Results().Len() == 1 {
		return e.fillContract(fn, args[0], args[1], sig.Results().At(0).Type(), st)
	}
	if sig.Recv() == nil && strings.HasPrefix(fn.Name(), "VcParsed") && sig.Params().Len() == 2 {
		if ctor, m := e.elemCtorOf(sig.Params().At(0).Type()), e.P.prog.LookupMethod(sig.Params().At(0).Type(), nil, "UnmarshalYAML"); ctor != nil && m != nil {
			return e.parsedElem(m, ctor, args, st)
		}
	}
	return nil, false
}

// sortedType: contract of TypeSortingHat (C07): a declaration or an error,
// functions of the node.
func (e *Engine) sortedType(fn *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
	n, ok := args[0].(Ptr)
	if !ok {
		return nil, false
	}
	e.rely("VcC07_TypeSortingHat")
	e.descend(fn.String(), n)
	y, no := e.branch(st, n.nilT)
	var outs []Outcome
	if y != nil {
		outs = append(outs, Outcome{st: y, panic: true, msg: "TypeSortingHat of a nil node"})
	}
	if no == nil {
		return outs, true
	}
	key := e.ptrTerm(n)
	e.regAx("declared", func(x *Term) []*Term {
		if x.bound {
			return nil
		}
		// C07: a declaration, which is a property too
		return []*Term{e.Not(e.Eq(x, e.nilAny())),
			e.App("impl:"+pkgRaml+".Property", SBool, e.App("typeof", SInt, x)),
			e.App("impl:"+pkgRaml+".DataType", SBool, e.App("typeof", SInt, x))}
	})
	val := e.App("declared", SAny, key)
	for _, o := range e.errOutcomes(no, e.symVal(fn.Signature.Results().At(1).Type(), "declared.err", key)) {
		if isNilIface(o.vals[0]) {
			o.vals = []Value{val, Iface{}}
		} else {
			o.vals = []Value{Iface{}, o.vals[0]}
		}
		outs = append(outs, o)
	}
	return outs, true
}

// takeReal: the function under contract itself runs, its callees do not.
func (e *Engine) takeReal(id string, args []Value) bool {
	if e.real > 0 {
		e.enter(id, args)
		e.real--
		return true
	}
	return false
}

func init() {
	// FoldMap(snap, y, f, step) (error, int)
	intrinsics2["FoldMap"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		snap, node, f, step := args[0], args[1], args[2], args[3]
		y, ok := node.(Ptr)
		if !ok {
			panic(unsupported("fold over %T", node))
		}
		e.parsing = true
		var outs []Outcome
		for _, o := range e.callValue(snap, nil, st, 0) {
			if o.panic {
				outs = append(outs, o)
				continue
			}
			s := o.st
			s.setGhost("fold", e.Int(0))
			// only the entries of a mapping are folded over
			kinds := e.nodeField(s, y, "Kind")
			if len(kinds) != 1 {
				panic(unsupported("fold over a node of known kind"))
			}
			isMap, other := e.branch(s, e.Eq(kinds[0].v.(*Term), e.Int(4)))
			var rs []Outcome
			var req *FoldReq
			if isMap != nil {
				svs := e.nodeField(isMap, y, "Content")
				if len(svs) != 1 {
					panic(unsupported("fold over a node with known content"))
				}
				req = &FoldReq{entry: isMap.clone(), node: y, cont: svs[0].v.(Slice), unit: 2, step: step}
				isMap.fold = req
				e.real = 1
				rs = e.callValue(f, []Value{node}, isMap, 0)
			}
			if other != nil {
				e.real = 1
				rs = append(rs, e.callValue(f, []Value{node}, other, 0)...)
			}
			e.real = 0
			for _, r := range rs {
				r.st.fold = nil
				if r.panic {
					outs = append(outs, r)
					continue
				}
				err := r.vals[0]
				how := r.st.ghost["fold"].(*Term)
				if how == e.Int(1) {
					t := r.st.ghost["foldt"].(*Term)
					e.prove(r.st, "entries are left out only with an error", "", e.Not(e.eqVal(err, Iface{})))
					sa := append(e.foldArgs(r.st, req, t), err)
					for _, so := range e.callValue(step, sa, r.st, 0) {
						if so.panic {
							outs = append(outs, so)
							continue
						}
						outs = append(outs, Outcome{st: so.st, vals: []Value{err, how}})
					}
					continue
				}
				outs = append(outs, Outcome{st: r.st, vals: []Value{err, how}})
			}
		}
		return outs
	}
}

var scalarTags = []string{"binary", "bool", "float", "int", "timestamp", "null"}

// scalarContract: contract of xyml.ToScalarValue, proved by VcC11_ToScalarValue.
func (e *Engine) scalarContract(fn *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
	n, ok := args[0].(Ptr)
	if !ok || n.sym == nil {
		return nil, false
	}
	var outs []Outcome
	y, no := e.branch(st, n.nilT)
	if y != nil {
		outs = append(outs, Outcome{st: y, panic: true, msg: "ToScalarValue of a nil node"})
	}
	if no == nil {
		return outs, true
	}
	rd := func(f string) *Term {
		svs := e.nodeField(no, n, f)
		if len(svs) != 1 {
			panic(unsupported("node field"))
		}
		return svs[0].v.(*Term)
	}
	e.rely("VcC11_ToScalarValue")
	key := e.ptrTerm(n)
	tag := rd("Tag")
	var special []*Term
	for _, t := range scalarTags {
		special = append(special, e.Eq(tag, e.Str(longPrefix+t)))
	}
	sp := e.Or(special...)
	bin := special[0]
	val := e.App("scalar", SAny, key)
	bytes := e.Eq(e.App("typeof", SInt, val), e.typeID(types.NewSlice(types.Typ[types.Byte])))
	bad, good := e.branch(no, e.Or(e.Not(e.Eq(rd("Kind"), e.Int(8))), e.And(sp, e.App("scalar.bad", SBool, key))))
	if bad != nil {
		outs = append(outs, Outcome{st: bad, vals: []Value{Iface{}, e.freshErr(bad, "scalar")}})
	}
	if good != nil {
		e.add(good, e.Implies(e.Not(bin), e.And(e.Not(bytes), e.hashable(val))))
		e.add(good, e.Implies(bin, e.And(bytes, e.Not(e.Eq(val, e.nilAny())))))
		r := e.Ite(sp, val, e.box(Iface{types.Typ[types.String], rd("Value")}))
		outs = append(outs, Outcome{st: good, vals: []Value{r, Iface{}}})
	}
	return outs, true
}

// hashable: the value can be a key of a map.
func (e *Engine) hashable(v Value) *Term {
	switch x := v.(type) {
	case Iface:
		return e.Bool(x.typ == nil || types.Comparable(x.typ))
	case *Term:
		if x.sort != SAny {
			return e.True
		}
		if x.op == OIte {
			return e.Ite(x.args[0], e.hashable(x.args[1]), e.hashable(x.args[2]))
		}
		if x == e.nilAny() || x.op == OApp && strings.HasPrefix(x.name, "box:") && x.name != "box:[]uint8" {
			return e.True
		}
		return e.App("hashable", SBool, x)
	}
	return e.True
}

func init() {
	// Real: the next function with a contract runs its body.
	intrinsics2["Real"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		e.real = 1
		return ok1(st)
	}
	// Hashable(v): v can be a key of a map.
	intrinsics2["Hashable"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		return ok1(st, e.hashable(args[0]))
	}
}
