package main

// Engine: symbolic values, memory and obligations.

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Func   string // function under contract
	Label  string
	Pos    string
	Status string // discharged, failed
	Detail string
	By     string
}

type Engine struct {
	*TT
	P             *Program
	S             *Solver
	objN          int
	axFns         map[string]func(*Term) []*Term
	loops         map[*ssa.Function]*loopInfo
	obls          []*Oblig
	cur           string // current harness
	entryNodes    bool   // collections with known entries are written entry by entry
	merge         bool   // join paths that meet again
	abs           bool   // abstract collections (callers are checked against the map contract)
	tids          map[string]int64
	funcs         map[string]bool // functions whose bodies were executed
	assume        map[string]bool // assumptions used
	relied        map[string]bool // contracts used at call sites
	measured      bool            // termination is an obligation
	measure       *descent
	sameNode      map[string]bool
	covers        map[string]bool
	genN          int
	depth         int
	steps         int
	globals       map[*ssa.Global]*Obj
	symObjs       map[string]*Obj
	deadline      time.Time
	callStack     []string
	noLoopFacts   bool
	implCache     map[string][]types.Type
	failFast      int
	panicOnly     bool
	safety        int
	readSet       map[*Obj]bool
	fieldsWritten map[string]bool
	amTypes       map[string]*amType
	contracts     map[string]contractFn
	skips         map[string]int
	opaqueElems   map[string]bool
	boxKind       map[string]int64
	boxTypes      map[string]types.Type
	inited        map[*ssa.Package]bool
	quiet         bool
	symDecides    int
	real          int  // calls of modular functions that still run their body
	parsing       bool // keys of collections must be hashable
	diffAt        string
	byValue       map[types.Type]bool
	ptrOnly       map[types.Type]bool
	staticIface   map[*Term]types.Type
	skolem        bool
	loopSummaries int
}

func newEngine(p *Program) *Engine {
	e := &Engine{TT: newTT(), P: p, axFns: map[string]func(*Term) []*Term{}, loops: map[*ssa.Function]*loopInfo{},
		tids: map[string]int64{}, funcs: map[string]bool{}, assume: map[string]bool{}, relied: map[string]bool{}, sameNode: map[string]bool{}, covers: map[string]bool{},
		globals: map[*ssa.Global]*Obj{}, symObjs: map[string]*Obj{}, implCache: map[string][]types.Type{},
		amTypes: map[string]*amType{}, contracts: map[string]contractFn{}, inited: map[*ssa.Package]bool{},
		byValue: map[types.Type]bool{}, ptrOnly: map[types.Type]bool{}, staticIface: map[*Term]types.Type{}}
	e.S = newSolver(e.TT)
	e.nodeAxioms()
	e.axFns["typeof"] = func(x *Term) []*Term {
		if x.bound {
			return nil
		}
		return []*Term{e.Iff(e.Eq(x.args[0], e.nilAny()), e.Eq(x, e.Int(0)))}
	}
	e.TT.axHook = func(x *Term) {
		if f, ok := e.axFns[x.name]; ok {
			x.ax = f(x)
		}
	}
	return e
}

func (e *Engine) newObj(t types.Type, name string) *Obj {
	e.objN++
	return &Obj{id: e.objN, typ: t, name: name}
}

// --- types --------------------------------------------------------------------

func under(t types.Type) types.Type { return t.Underlying() }

func (e *Engine) sortOf(t types.Type) (Sort, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsString != 0:
			return SStr, true
		case u.Info()&types.IsFloat != 0:
			return SFlt, true
		case u.Kind() == types.UnsafePointer:
			return SRef, true
		}
	case *types.Interface:
		return SAny, true
	case *types.Pointer:
		return SRef, true
	}
	return 0, false
}

func intRange(t types.Type) (lo, hi string, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return "-9223372036854775808", "9223372036854775807", true
	case types.Int8:
		return "-128", "127", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", true
	case types.Uint8:
		return "0", "255", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint32:
		return "0", "4294967295", true
	}
	return
}

func (e *Engine) big(s string) *Term {
	if len(s) < 18 {
		var k int64
		fmt.Sscan(s, &k)
		return e.Int(k)
	}
	if s == "9223372036854775807" {
		return e.Int(9223372036854775807)
	}
	return e.Big(s)
}

func (e *Engine) rangeAx(x *Term, t types.Type) []*Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return nil
	}
	mk := func(a, b *Term) *Term { // a <= b without linear folding overflow
		return e.TT.mk(&Term{op: OLe0, sort: SBool, args: []*Term{e.lin([]*Term{a, b}, []int64{1, -1}, 0)}}, fmt.Sprintf("<%d", e.lin([]*Term{a, b}, []int64{1, -1}, 0).id))
	}
	var out []*Term
	if lo == "0" {
		out = append(out, e.Le(e.Int(0), x))
	} else {
		out = append(out, mk(e.Big(lo), x))
	}
	out = append(out, mk(x, e.Big(hi)))
	return out
}

// typeStr names a type; identical types have one name.
func typeStr(t types.Type) string {
	s := types.TypeString(t, nil)
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") {
		s = reByte.ReplaceAllString(s, "${1}uint8${2}")
		s = reRune.ReplaceAllString(s, "${1}int32${2}")
	}
	return s
}

var reByte = regexp.MustCompile(`(^|[^\w.])byte($|\W)`)
var reRune = regexp.MustCompile(`(^|[^\w.])rune($|\W)`)

func (e *Engine) typeID(t types.Type) *Term {
	s := typeStr(t)
	k, ok := e.tids[s]
	if !ok {
		k = int64(len(e.tids) + 1)
		e.tids[s] = k
	}
	return e.Int(k)
}

func (e *Engine) null() *Term   { return e.NumOf(SRef, 0) }
func (e *Engine) nilAny() *Term { return e.NumOf(SAny, 0) }

// zero value of a type.
func (e *Engine) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.False
		case u.Info()&types.IsInteger != 0:
			return e.Int(0)
		case u.Info()&types.IsString != 0:
			return e.Str("")
		case u.Info()&types.IsFloat != 0:
			return e.flt(0)
		}
	case *types.Interface:
		return Iface{}
	case *types.Pointer:
		return Ptr{nilT: e.True}
	case *types.Slice:
		return Slice{nilT: e.True, off: e.Int(0), len: e.Int(0), cap: e.Int(0), elem: u.Elem()}
	case *types.Map:
		return MapRef{nilT: e.True, typ: u}
	case *types.Struct:
		s := Struct{typ: t, f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return &Arr{elem: u.Elem(), kind: 'Z', id: e.nextArr()}
	case *types.Signature:
		return FuncV{}
	case *types.Tuple:
		t := make(Tuple, u.Len())
		for i := range t {
			t[i] = e.zero(u.At(i).Type())
		}
		return t
	}
	panic(unsupported("zero value of %s", t))
}

func (e *Engine) nextArr() int { e.genN++; return e.genN }

func (e *Engine) flt(f float64) *Term { return e.NamedVar(fmt.Sprintf("flt:%v", f), SFlt) }

// strChars are the characters the specifications search a text for.
var strChars = []string{"|"}

func (e *Engine) regAx(name string, f func(*Term) []*Term) {
	if _, ok := e.axFns[name]; !ok {
		e.axFns[name] = f
	}
}

// symVal is an arbitrary value of type t identified by name and args.
func (e *Engine) symVal(t types.Type, name string, args ...*Term) Value {
	mk := func(s Sort, suffix string) *Term { return e.App(name+suffix, s, args...) }
	switch u := under(t).(type) {
	case *types.Basic:
		s, ok := e.sortOf(t)
		if !ok {
			break
		}
		if s == SInt {
			tt := t
			e.regAx(name, func(x *Term) []*Term { return e.rangeAx(x, tt) })
		}
		return mk(s, "")
	case *types.Interface:
		x := mk(SAny, "")
		if u.NumMethods() > 0 {
			e.staticIface[x] = t
			if x.ax == nil && !x.bound && e.pointerOnly(t) {
				e.assume["interface-typed properties hold the library's own elements (non-nil pointers)"] = true
				x.ax = []*Term{e.Or(e.Eq(x, e.nilAny()), e.And(e.Eq(e.rkind(x), e.Int(22)), e.Not(e.App("rnil", SBool, x))))}
			}
		}
		return x
	case *types.Pointer:
		r := mk(SRef, "")
		if r.ax == nil && !r.bound {
			r.ax = []*Term{e.App("symref", SBool, r)}
		}
		return e.symPtr(r, u.Elem())
	case *types.Struct:
		st := Struct{typ: t, f: make([]Value, u.NumFields())}
		for i := range st.f {
			st.f[i] = e.symVal(u.Field(i).Type(), name+"."+u.Field(i).Name(), args...)
		}
		return st
	case *types.Slice:
		e.regAx(name+".len", func(x *Term) []*Term {
			return []*Term{e.Le(e.Int(0), x), e.Le(x, e.Int(1<<40))}
		})
		ln := mk(SInt, ".len")
		key := symKey(name, args)
		o := e.symObjs[key]
		if o == nil {
			o = e.newObj(types.NewArray(u.Elem(), 0), name)
			o.init = &Arr{elem: u.Elem(), kind: 'S', base: name, args: append([]*Term(nil), args...), id: e.nextArr()}
			e.symObjs[key] = o
		}
		cp := mk(SInt, ".cap")
		e.regAx(name+".cap", func(x *Term) []*Term {
			return []*Term{e.Le(e.App(name+".len", SInt, x.args...), x)}
		})
		if cp.ax == nil {
			cp.ax = e.axFns[name+".cap"](cp)
		}
		return Slice{nilT: e.And(e.Eq(ln, e.Int(0)), mk(SBool, ".isnil")), arr: o, off: e.Int(0), len: ln, cap: cp, elem: u.Elem()}
	case *types.Map:
		key := symKey(name, args)
		o := e.symObjs[key]
		if o == nil {
			o = e.newObj(t, name)
			for _, a := range args {
				if a.bound {
					panic(unsupported("symbolic map indexed by %v", args))
				}
			}
			o.init = &GMap{typ: u, kind: 'S', base: name, id: e.nextArr(), n: e.App(name+".maplen", SInt, args...), args: args}
			e.symObjs[key] = o
		}
		return MapRef{nilT: e.False, obj: o, typ: u}
	}
	panic(unsupported("symbolic value of type %s (%s)", t, name))
}

func symKey(name string, args []*Term) string { return fmt.Sprintf("%s/%v", name, ids(args)) }

func ids(ts []*Term) []int {
	o := make([]int, len(ts))
	for i, t := range ts {
		o[i] = t.id
	}
	return o
}

// symPtr is a pointer given by a reference term.
func (e *Engine) symPtr(r *Term, elem types.Type) Ptr {
	return Ptr{nilT: e.Eq(r, e.null()), sym: r, root: elem}
}

func (e *Engine) ptrTo(o *Obj) Ptr { return Ptr{nilT: e.False, obj: o} }

// ptrTerm gives the reference term of a pointer.
func (e *Engine) ptrTerm(p Ptr) *Term {
	if p.obj == nil && p.sym == nil {
		return e.null()
	}
	var r *Term
	if p.sym != nil {
		r = p.sym
	} else {
		r = e.NumOf(SRef, int64(-p.obj.id))
	}
	for _, pe := range p.path {
		if pe.idx != nil {
			r = e.App("addr:idx", SRef, r, pe.idx)
		} else {
			r = e.App(fmt.Sprintf("addr:f%d", pe.field), SRef, r)
		}
		r.ax = append(r.ax[:0:0], e.Not(e.Eq(r, e.null())))
	}
	if p.sym != nil && len(p.path) == 0 {
		return r
	}
	return e.Ite(p.nilT, e.null(), r)
}

// flatten turns a value into scalar terms.
func (e *Engine) flatten(v Value, out *[]*Term) {
	switch x := v.(type) {
	case *Term:
		*out = append(*out, x)
	case Ptr:
		*out = append(*out, e.ptrTerm(x))
	case Struct:
		for _, f := range x.f {
			e.flatten(f, out)
		}
	case Iface:
		*out = append(*out, e.box(x))
	case Slice:
		id := int64(0)
		if x.arr != nil {
			id = int64(x.arr.id)
		}
		*out = append(*out, e.Int(id), x.off, x.len, e.Ite(x.nilT, e.Int(1), e.Int(0)))
	case MapRef:
		id := int64(0)
		if x.obj != nil {
			id = int64(x.obj.id)
		}
		*out = append(*out, e.Ite(x.nilT, e.Int(0), e.Int(id)))
	case FuncV:
		*out = append(*out, e.Int(0))
	default:
		panic(unsupported("flatten %T", v))
	}
}

// box turns an interface value into an SAny term.
func (e *Engine) box(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		if x.sort != SAny {
			panic(unsupported("box of %s term", x.sort))
		}
		return x
	case Iface:
		if x.typ == nil {
			return e.nilAny()
		}
		var ps []*Term
		e.flatten(x.val, &ps)
		ts := typeStr(x.typ)
		// canonical form: boxing what was unboxed from an opaque value
		// (also of instances of templates, which are not made here)
		id := e.typeID(x.typ)
		e.regAx("box:"+ts, func(b *Term) []*Term {
			ax := []*Term{e.Not(e.Eq(b, e.nilAny())), e.Eq(e.App("typeof", SInt, b), id)}
			for i, p := range b.args {
				ax = append(ax, e.Eq(e.App(fmt.Sprintf("unbox:%s:%d", ts, i), p.sort, b), p))
			}
			return ax
		})
		return e.App("box:"+ts, SAny, ps...)
	}
	panic(unsupported("box %T", v))
}

func (e *Engine) unboxName(t types.Type) string { return "unbox:" + typeStr(t) }

// unbox gives the payload of an opaque value known to have dynamic type t.
func (e *Engine) unbox(x *Term, t types.Type) Value {
	n := 0
	var rec func(t types.Type) Value
	rec = func(t2 types.Type) Value {
		switch u := under(t2).(type) {
		case *types.Struct:
			s := Struct{typ: t2, f: make([]Value, u.NumFields())}
			for i := range s.f {
				s.f[i] = rec(u.Field(i).Type())
			}
			return s
		case *types.Pointer:
			r := e.App(fmt.Sprintf("%s:%d", e.unboxName(t), n), SRef, x)
			n++
			return e.symPtr(r, u.Elem())
		case *types.Slice, *types.Map, *types.Signature:
			return e.symVal(t2, fmt.Sprintf("%s:%d", e.unboxName(t), n), x)
		default:
			s, ok := e.sortOf(t2)
			if !ok {
				panic(unsupported("unbox %s", t2))
			}
			nm := fmt.Sprintf("%s:%d", e.unboxName(t), n)
			_, plain := t.(*types.Basic)
			id := e.typeID(t)
			e.regAx(nm, func(x *Term) []*Term {
				var ax []*Term
				if s == SInt {
					ax = e.rangeAx(x, t2)
				}
				if plain {
					// a value of a basic type is determined by its payload
					a := x.args[0]
					ax = append(ax, e.Implies(e.Eq(e.App("typeof", SInt, a), id), e.Eq(a, e.box(Iface{t, x}))))
				}
				return ax
			})
			r := e.App(nm, s, x)
			n++
			return r
		}
	}
	return rec(t)
}

func (e *Engine) isNilAny(v Value) *Term {
	switch x := v.(type) {
	case Iface:
		return e.Bool(x.typ == nil)
	case *Term:
		return e.Eq(x, e.nilAny())
	}
	panic(unsupported("isNilAny %T", v))
}

// eqVal is Go's == on two values of the same static type (or, for structural
// comparison by contracts, of identical shape).
func (e *Engine) eqVal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		switch y := b.(type) {
		case *Term:
			return e.Eq(x, y)
		case Iface:
			return e.eqBox(x, y)
		}
	case Iface:
		switch y := b.(type) {
		case Iface:
			if x.typ == nil || y.typ == nil {
				return e.Bool(x.typ == nil && y.typ == nil)
			}
			if !types.Identical(x.typ, y.typ) {
				return e.False
			}
			return e.eqVal(x.val, y.val)
		case *Term:
			return e.eqBox(y, x)
		}
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			break
		}
		if x.obj != nil && y.obj != nil && x.obj == y.obj && samePath(x.path, y.path) {
			return e.Eq(x.nilT, y.nilT)
		}
		if x.obj == nil && x.sym == nil {
			return y.nilT
		}
		if y.obj == nil && y.sym == nil {
			return x.nilT
		}
		if x.obj != nil && y.obj != nil && len(x.path) == 0 && len(y.path) == 0 {
			return e.And(x.nilT, y.nilT)
		}
		return e.Eq(e.ptrTerm(x), e.ptrTerm(y))
	case Struct:
		y := b.(Struct)
		var c []*Term
		for i := range x.f {
			c = append(c, e.eqVal(x.f[i], y.f[i]))
		}
		return e.And(c...)
	case Slice:
		y := b.(Slice)
		if y.arr == nil && y.nilT == e.True {
			return x.nilT
		}
		if x.arr == nil && x.nilT == e.True {
			return y.nilT
		}
		if x.arr == y.arr {
			return e.And(e.Eq(x.off, y.off), e.Eq(x.len, y.len), e.Eq(x.nilT, y.nilT))
		}
		return e.And(e.Eq(x.len, e.Int(0)), e.Eq(y.len, e.Int(0)), e.Eq(x.nilT, y.nilT))
	case MapRef:
		y := b.(MapRef)
		if x.obj == y.obj {
			return e.Eq(x.nilT, y.nilT)
		}
		return e.And(x.nilT, y.nilT)
	case FuncV:
		y := b.(FuncV)
		xn := x.fn == nil && x.name == "" && x.prim == nil
		yn := y.fn == nil && y.name == "" && y.prim == nil
		if xn || yn {
			return e.Bool(xn && yn)
		}
		return e.Bool(x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0)
	case Tuple:
		y := b.(Tuple)
		var c []*Term
		for i := range x {
			c = append(c, e.eqVal(x[i], y[i]))
		}
		return e.And(c...)
	case nil:
		if b == nil {
			return e.True
		}
	}
	panic(unsupported("compare %s (%T) with %s (%T)", showVal(a), a, showVal(b), b))
}

func (e *Engine) eqBox(t *Term, i Iface) *Term {
	if i.typ == nil {
		return e.Eq(t, e.nilAny())
	}
	b := e.box(i)
	if t == b {
		return e.True
	}
	// x == box(p) iff x has that type and the same payload
	return e.Eq(t, b)
}

func samePath(a, b []PathElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// --- path conditions ------------------------------------------------------------

func (e *Engine) feasible(st *State, c *Term) bool {
	if c == e.True {
		return true
	}
	if c == e.False || st.pc.has(e.Not(c)) {
		return false
	}
	if st.pc.has(c) {
		return true
	}
	return e.S.check(st.pc, c, "path") != "unsat"
}

// alive: some input takes this path.
func (e *Engine) alive(st *State) bool { return e.S.check(st.pc, nil, "path") != "unsat" }

// decide: 1 implied true, -1 implied false, 0 open
func (e *Engine) decide(st *State, c *Term) int {
	if c == e.True {
		return 1
	}
	if c == e.False {
		return -1
	}
	e.symDecides++
	n := e.Not(c)
	for q := st.pc; q != nil; q = q.parent {
		if q.t == c {
			return 1
		}
		if q.t == n {
			return -1
		}
	}
	if e.S.check(st.pc, c, "path") == "unsat" {
		return -1
	}
	if e.S.check(st.pc, n, "path") == "unsat" {
		return 1
	}
	return 0
}

func (e *Engine) add(st *State, c *Term) { st.pc = st.pc.add(c) }

type SV struct {
	st *State
	v  Value
}

// branch splits st on c and keeps the feasible sides.
func (e *Engine) branch(st *State, c *Term) (yes, no *State) {
	switch e.decide(st, c) {
	case 1:
		return st, nil
	case -1:
		return nil, st
	}
	yes = st.clone()
	e.add(yes, c)
	no = st.clone()
	e.add(no, e.Not(c))
	return
}

// --- arrays ------------------------------------------------------------------------

type GV struct {
	c *Term // path from the read
	v Value
}

// readArr reads element i: a list of alternatives with exclusive, covering
// conditions.
func (e *Engine) readArr(st *State, a *Arr, i *Term) []GV {
	switch a.kind {
	case 'S':
		args := append(append([]*Term(nil), a.args...), i)
		return []GV{{e.True, e.symVal(a.elem, a.base+"[]", args...)}}
	case 'Z':
		return []GV{{e.True, e.zero(a.elem)}}
	case '?':
		return []GV{{e.True, e.freshVal(a.elem, "unk")}}
	case 'W':
		c := e.Eq(a.idx, i)
		switch e.decide(st, c) {
		case 1:
			return []GV{{e.True, a.val}}
		case -1:
			return e.readArr(st, a.parent, i)
		}
		return e.mergeGV(c, []GV{{e.True, a.val}}, e.readArr(st, a.parent, i))
	case 'C':
		in := e.And(e.Le(a.idx, i), e.Lt(i, e.Add(a.idx, a.n)))
		switch e.decide(st, in) {
		case 1:
			return e.readArr(st, a.src, e.Add(a.soff, e.Sub(i, a.idx)))
		case -1:
			return e.readArr(st, a.parent, i)
		}
		return e.mergeGV(in, e.readArr(st, a.src, e.Add(a.soff, e.Sub(i, a.idx))), e.readArr(st, a.parent, i))
	case 'G':
		g := a.gen
		total := e.genLen(g)
		in := e.And(e.Le(a.idx, i), e.Lt(i, e.Add(a.idx, total)))
		d := e.decide(st, in)
		if d == -1 {
			return e.readArr(st, a.parent, i)
		}
		inner := e.readGen(st, g, e.Sub(i, a.idx))
		if d == 1 {
			return inner
		}
		return e.mergeGV(in, inner, e.readArr(st, a.parent, i))
	}
	panic("readArr")
}

// genLen is the number of elements of a generated run.
func (e *Engine) genLen(g *Gen) *Term {
	n := e.MulK(g.count, g.stride)
	if g.skipH != nil {
		n = e.Sub(n, e.Ite(g.skipH, e.Int(1), e.Int(0)))
	}
	return n
}

// readGen reads element d (0-based) of a generated run.
func (e *Engine) readGen(st *State, g *Gen, d *Term) []GV {
	if g.elems == nil {
		panic(unsupported("read of a collection under construction"))
	}
	if g.skipH != nil {
		later := e.And(g.skipH, e.Le(g.skipW, d))
		switch e.decide(st, later) {
		case 1:
			d = e.AddK(d, 1)
		case 0:
			d = e.Ite(later, e.AddK(d, 1), d)
		}
	}
	for r := int64(0); r < g.stride; r++ {
		// d = stride*q + r ?
		q := e.divide(e.AddK(d, -r), g.stride)
		if q != nil {
			return []GV{{e.True, e.genElem(st, g, int(r), q)}}
		}
	}
	panic(unsupported("index %s into a generated run of stride %d", d, g.stride))
}

// divide returns t/k when that is syntactically exact.
func (e *Engine) divide(t *Term, k int64) *Term {
	if k == 1 {
		return t
	}
	switch t.op {
	case OInt:
		if t.k%k == 0 {
			return e.Int(t.k / k)
		}
		return nil
	case OLin:
		if t.k%k != 0 {
			return nil
		}
		cs := make([]int64, len(t.coef))
		for i, c := range t.coef {
			if c%k != 0 {
				return nil
			}
			cs[i] = c / k
		}
		return e.lin(t.args, cs, t.k/k)
	}
	return nil
}

// genElem instantiates template element r at iteration q.
func (e *Engine) genElem(st *State, g *Gen, r int, q *Term) Value {
	inst := g.insts[q]
	if inst == nil {
		inst = &instance{objs: map[*Obj]*Obj{}}
		g.insts[q] = inst
		for o := range g.fresh {
			n := e.newObj(o.typ, o.name)
			inst.objs[o] = n
		}
		sub := &substEnv{e: e, m: map[*Term]*Term{g.tvar: q}, objs: inst.objs}
		for o, n := range inst.objs {
			if c, ok := g.heap[o]; ok {
				n.init = sub.value(c)
			}
		}
	}
	sub := &substEnv{e: e, m: map[*Term]*Term{g.tvar: q}, objs: inst.objs}
	return sub.value(g.elems[r])
}

func (e *Engine) mergeGV(c *Term, a, b []GV) []GV {
	var out []GV
	if len(a) == 1 && len(b) == 1 {
		if v, ok := e.tryMerge(c, a[0].v, b[0].v); ok {
			return []GV{{e.True, v}}
		}
	}
	for _, x := range a {
		out = append(out, GV{e.And(c, x.c), x.v})
	}
	for _, x := range b {
		out = append(out, GV{e.And(e.Not(c), x.c), x.v})
	}
	return out
}

// tryMerge builds ite(c,a,b) when both have the same scalar shape.
func (e *Engine) tryMerge(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			return e.Ite(c, x, y), true
		}
		if y, ok := b.(Iface); ok && x.sort == SAny && y.typ == nil {
			return e.Ite(c, x, e.nilAny()), true
		}
		if y, ok := b.(Iface); ok && x.sort == SAny && scalarVal(y.val) {
			return e.Ite(c, x, e.box(y)), true
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			if x.typ == nil && y.typ == nil {
				return x, true
			}
			if x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
				if v, ok := e.tryMerge(c, x.val, y.val); ok {
					return Iface{x.typ, v}, true
				}
			}
			if scalarVal(x.val) && scalarVal(y.val) {
				return e.Ite(c, e.box(x), e.box(y)), true
			}
		}
		if y, ok := b.(*Term); ok && y.sort == SAny && scalarVal(x.val) {
			return e.Ite(c, e.box(x), y), true
		}
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(y.f) != len(x.f) {
			return nil, false
		}
		o := Struct{typ: x.typ, f: make([]Value, len(x.f))}
		for i := range x.f {
			v, ok := e.tryMerge(c, x.f[i], y.f[i])
			if !ok {
				return nil, false
			}
			o.f[i] = v
		}
		return o, true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return nil, false
		}
		if x.obj == y.obj && x.sym == y.sym && samePath(x.path, y.path) {
			x.nilT = e.Ite(c, x.nilT, y.nilT)
			return x, true
		}
		if (x.sym != nil || x.obj == nil) && (y.sym != nil || y.obj == nil) && len(x.path) == 0 && len(y.path) == 0 {
			return e.symPtr(e.Ite(c, e.ptrTerm(x), e.ptrTerm(y)), pick(x.root, y.root)), true
		}
		if x.obj == nil && x.sym == nil && y.obj != nil {
			y.nilT = e.Ite(c, e.True, y.nilT)
			return y, true
		}
		if y.obj == nil && y.sym == nil && x.obj != nil {
			x.nilT = e.Ite(c, x.nilT, e.True)
			return x, true
		}
	case Slice:
		y, ok := b.(Slice)
		if ok && x.arr == y.arr && x.off == y.off {
			x.len = e.Ite(c, x.len, y.len)
			x.cap = e.Ite(c, x.cap, y.cap)
			x.nilT = e.Ite(c, x.nilT, y.nilT)
			return x, true
		}
	case MapRef:
		y, ok := b.(MapRef)
		if ok && x.obj == y.obj {
			x.nilT = e.Ite(c, x.nilT, y.nilT)
			return x, true
		}
	case nil:
		if b == nil {
			return nil, true
		}
	}
	return nil, false
}

func scalarVal(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *Term:
		return true
	case Iface:
		return scalarVal(x.val)
	}
	return false
}

// freshVal is an unconstrained value of a type.
func (e *Engine) freshVal(t types.Type, name string) Value {
	if s, ok := e.sortOf(t); ok && s != SRef {
		v := e.Var(name, s)
		if s == SInt {
			v.ax = e.rangeAx(v, t)
		}
		return v
	}
	e.epoch++
	return e.symVal(t, fmt.Sprintf("%s!%d", name, e.epoch), e.Var(name, SInt))
}

// --- loads and stores --------------------------------------------------------------------

func (e *Engine) load(st *State, p Ptr) []SV {
	if p.obj == nil && p.sym == nil {
		panic(unsupported("load through nil"))
	}
	var gvs []GV
	if p.sym != nil {
		gvs = []GV{{e.True, e.symContent(p)}}
		return e.follow(st, gvs, p.path[symPrefix(p):])
	}
	if e.readSet != nil {
		e.readSet[p.obj] = true
	}
	c := st.get(p.obj)
	if c == nil {
		panic(unsupported("load of undefined object %s", p.obj.name))
	}
	return e.follow(st, []GV{{e.True, c}}, p.path)
}

// symContent: the value reached by the longest field-only prefix of the path.
func symPrefix(p Ptr) int {
	n := 0
	for n < len(p.path) && p.path[n].idx == nil {
		n++
	}
	return n
}

func (e *Engine) symContent(p Ptr) Value {
	root := p.root
	name := "fld:" + types.TypeString(root, nil)
	cur := root
	for i := 0; i < symPrefix(p); i++ {
		s := under(cur).(*types.Struct)
		f := s.Field(p.path[i].field)
		name += "." + f.Name()
		cur = f.Type()
	}
	return e.symVal(cur, name, p.sym)
}

func (e *Engine) follow(st *State, gvs []GV, path []PathElem) []SV {
	for _, pe := range path {
		var next []GV
		for _, g := range gvs {
			if pe.idx != nil {
				a, ok := g.v.(*Arr)
				if !ok {
					panic(unsupported("index into %T", g.v))
				}
				s2 := st
				if g.c != e.True {
					s2 = st.clone()
					e.add(s2, g.c)
				}
				for _, r := range e.readArr(s2, a, pe.idx) {
					next = append(next, GV{e.And(g.c, r.c), r.v})
				}
				continue
			}
			s, ok := g.v.(Struct)
			if !ok {
				panic(unsupported("field of %T", g.v))
			}
			next = append(next, GV{g.c, s.f[pe.field]})
		}
		gvs = next
	}
	return e.split(st, gvs)
}

// split turns guarded alternatives into forked states.
func (e *Engine) split(st *State, gvs []GV) []SV {
	if len(gvs) == 1 {
		return []SV{{st, gvs[0].v}}
	}
	var out []SV
	for _, g := range gvs {
		if !e.feasible(st, g.c) {
			continue
		}
		s := st.clone()
		e.add(s, g.c)
		out = append(out, SV{s, g.v})
	}
	return out
}

func (e *Engine) store(st *State, p Ptr, v Value) []*State {
	if p.obj == nil {
		panic(unsupported("store through a symbolic reference %s", showVal(p)))
	}
	c := st.get(p.obj)
	if len(p.path) == 0 {
		st.heap[p.obj] = v
		return []*State{st}
	}
	var outs []*State
	for _, sv := range e.update(st, c, p.path, v) {
		sv.st.heap[p.obj] = sv.v
		outs = append(outs, sv.st)
	}
	return outs
}

func (e *Engine) update(st *State, c Value, path []PathElem, v Value) []SV {
	if len(path) == 0 {
		return []SV{{st, v}}
	}
	pe := path[0]
	if pe.idx != nil {
		a := c.(*Arr)
		if len(path) == 1 {
			return []SV{{st, e.writeArr(a, pe.idx, v)}}
		}
		var out []SV
		for _, sv := range e.split(st, e.readArr(st, a, pe.idx)) {
			for _, u := range e.update(sv.st, sv.v, path[1:], v) {
				out = append(out, SV{u.st, e.writeArr(a, pe.idx, u.v)})
			}
		}
		return out
	}
	s := c.(Struct)
	var out []SV
	for _, u := range e.update(st, s.f[pe.field], path[1:], v) {
		n := Struct{typ: s.typ, f: append([]Value(nil), s.f...)}
		n.f[pe.field] = u.v
		out = append(out, SV{u.st, n})
	}
	return out
}

func (e *Engine) writeArr(a *Arr, i *Term, v Value) *Arr {
	return &Arr{elem: a.elem, kind: 'W', parent: a, idx: i, val: v, id: e.nextArr()}
}

// --- obligations ------------------------------------------------------------------------

func (e *Engine) record(label, pos, status, detail, by string) {
	if e.quiet {
		return
	}
	e.obls = append(e.obls, &Oblig{Func: e.cur, Label: label, Pos: pos, Status: status, Detail: detail, By: by})
}

// prove discharges an obligation: pc implies c.
func (e *Engine) prove(st *State, label, pos string, c *Term) bool {
	if c == e.True || st.pc.has(c) {
		e.record(label, pos, "discharged", "", "simplifier")
		return true
	}
	r, by := e.S.prove(st.pc, c)
	if r == "unsat" {
		e.record(label, pos, "discharged", "", by)
		return true
	}
	goal := c.String()
	if len(goal) > 2000 {
		goal = goal[:2000] + "…"
	}
	e.record(label, pos, "failed", fmt.Sprintf("solver: %s\ngoal: %s\npath: %s", r, goal, e.pathText(st)), by)
	return false
}

func (e *Engine) pathText(st *State) string {
	var b strings.Builder
	for _, p := range st.pc.list() {
		s := p.t.String()
		if len(s) > pathTextMax {
			s = s[:pathTextMax] + "…"
		}
		b.WriteString("\n    " + s)
	}
	return b.String()
}

func (e *Engine) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.P.prog.Fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func pick(a, b types.Type) types.Type {
	if a != nil {
		return a
	}
	return b
}

func (e *Engine) fail(st *State, label, detail string) {
	if st != nil && !e.alive(st) {
		return
	}
	d := detail
	if st != nil {
		d += "\npath: " + e.pathText(st)
	}
	e.record(label, "", "failed", d, "")
}
