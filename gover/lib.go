package main

// Models of functions outside the repository, and the contract intrinsics.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type contractFn func(e *Engine, fn *ssa.Function, args []Value, st *State) ([]Outcome, bool)

func (e *Engine) callNamed(pkg, name string, args []Value, st *State) []Outcome {
	p := e.P.pkgs[pkg]
	if p == nil || p.Func(name) == nil {
		panic(unsupported("no function %s.%s", pkg, name))
	}
	return e.call(p.Func(name), args, nil, st)
}

func (e *Engine) typeNamed(pkg, name string) types.Type {
	p := e.P.tps[pkg]
	if p == nil {
		panic(unsupported("package %s is not loaded", pkg))
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("no type %s.%s", pkg, name))
	}
	return o.Type()
}

func (e *Engine) nodeType() types.Type { return e.typeNamed(pkgYaml, "Node") }

func (e *Engine) fieldIdx(t types.Type, name string) int {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	panic(unsupported("no field %s in %s", name, t))
}

// nodeField reads a field of the node p points to.
func (e *Engine) nodeField(st *State, p Ptr, name string) []SV {
	p.path = append(append([]PathElem(nil), p.path...), PathElem{field: e.fieldIdx(e.nodeType(), name)})
	p.nilT = e.False
	return e.load(st, p)
}

func (e *Engine) freshErr(st *State, what string) Value {
	v := e.Var("err:"+what, SAny)
	v.ax = []*Term{e.Not(e.Eq(v, e.nilAny()))}
	return v
}

func ok1(st *State, vs ...Value) []Outcome { return []Outcome{{st: st, vals: vs}} }

func funcID(fn *ssa.Function) string {
	if fn.Pkg == nil && fn.Object() == nil {
		return fn.String()
	}
	return fn.String()
}

const longPrefix = "tag:yaml.org,2002:"

func init() {
	foldFns["longtagof"] = func(t *TT, a []*Term) *Term {
		if a[0].op != OStr {
			return nil
		}
		s := a[0].name
		if strings.HasPrefix(s, "!!") {
			s = longPrefix + s[2:]
		}
		return t.Str(s)
	}
	foldFns["shorttagof"] = func(t *TT, a []*Term) *Term {
		if a[0].op != OStr {
			return nil
		}
		s := a[0].name
		if strings.HasPrefix(s, longPrefix) {
			s = "!!" + s[len(longPrefix):]
		}
		return t.Str(s)
	}
	foldFns["fmtint"] = func(t *TT, a []*Term) *Term {
		if a[0].op == OInt {
			return t.Str(strconv.FormatInt(a[0].k, 10))
		}
		return nil
	}
	foldFns["parseint"] = func(t *TT, a []*Term) *Term {
		if a[0].op == OStr {
			if v, err := strconv.ParseInt(a[0].name, 10, 64); err == nil {
				return t.Int(v)
			}
			return t.Int(0)
		}
		return nil
	}
	foldFns["parseint.err"] = func(t *TT, a []*Term) *Term {
		if a[0].op == OStr {
			_, err := strconv.ParseInt(a[0].name, 10, 64)
			return t.Bool(err != nil)
		}
		return nil
	}
}

func (e *Engine) longTag(st *State, p Ptr, short bool) []Outcome {
	var outs []Outcome
	type fv struct {
		st *State
		vs []Value
	}
	cur := []fv{{st, nil}}
	for _, f := range []string{"Kind", "Style", "Tag", "Value", "Alias"} {
		var next []fv
		for _, c := range cur {
			for _, sv := range e.nodeField(c.st, p, f) {
				next = append(next, fv{sv.st, append(append([]Value(nil), c.vs...), sv.v)})
			}
		}
		cur = next
	}
	for _, c := range cur {
		kind, style, tag, val := c.vs[0].(*Term), c.vs[1].(*Term), c.vs[2].(*Term), c.vs[3].(*Term)
		alias := e.ptrTerm(c.vs[4].(Ptr))
		plain := e.Or(e.Eq(tag, e.Str("")), e.Eq(tag, e.Str("!")))
		r := e.Ite(plain,
			e.Ite(e.Eq(kind, e.Int(4)), e.Str(longPrefix+"map"),
				e.Ite(e.Eq(kind, e.Int(2)), e.Str(longPrefix+"seq"), e.App("resolvedtag", SStr, kind, style, val, alias))),
			e.AppF("longtagof", SStr, tag))
		if short {
			r = e.AppF("shorttagof", SStr, r)
		}
		outs = append(outs, Outcome{st: c.st, vals: []Value{r}})
	}
	return outs
}

func (e *Engine) intercept(fn *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
	if fn.Pkg == nil && fn.Object() == nil && fn.Parent() == nil {
		return nil, false
	}
	id := fn.String()
	if fn.Name() == "init" && fn.Synthetic != "" && len(e.callStack) > 0 && strings.HasSuffix(e.callStack[len(e.callStack)-1], ".init") {
		return ok1(st), true // initialisers of imported packages run when their variables are used
	}
	if c, ok := e.contracts[id]; ok {
		if outs, done := c(e, fn, args, st); done {
			return outs, true
		}
	}
	if outs, done := e.parseContract(fn, args, st); done {
		return outs, true
	}
	if outs, done := e.inputCall(fn, args, st); done {
		return outs, true
	}
	if outs, done := e.outputCall(fn, args, st); done {
		return outs, true
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	if e.abs && path == pkgRaml && strings.HasPrefix(fn.Name(), "New") && strings.HasSuffix(fn.Name(), "Map") && fn.Signature.Recv() == nil &&
		fn.Signature.Results().Len() == 1 && len(args) == 1 {
		// contract of the constructors (C02): a new, empty, ordered collection;
		// a negative size is outside of the contract
		if am := e.amTypeOf(fn.Signature.Results().At(0).Type()); am != nil {
			if n, ok := args[0].(*Term); ok {
				y, no := e.branch(st, e.Lt(n, e.Int(0)))
				var outs []Outcome
				if y != nil {
					outs = append(outs, Outcome{st: y, panic: true, msg: fn.Name() + " of a negative size"})
				}
				if no != nil {
					e.relyMap(am, "New")
					outs = append(outs, Outcome{st: no, vals: []Value{e.newAMap(no, am, "")}})
				}
				return outs, true
			}
		}
	}
	switch path {
	case pkgVC:
		return e.intrinsic(fn, args, st)
	case "github.com/sirupsen/logrus":
		var vs []Value
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			vs = append(vs, e.symVal(rs.At(i).Type(), "logrus:"+fn.Name()))
		}
		return ok1(st, vs...), true
	case "reflect":
		return e.reflectCall(fn, args, st)
	case "encoding/json":
		if fn.Name() == "Marshal" {
			e.assume["encoding/json.Marshal encodes its argument or fails"] = true
			ns := st.clone()
			o := e.newObj(types.NewArray(types.Typ[types.Byte], 0), "json")
			st.heap[o] = &Arr{elem: types.Typ[types.Byte], kind: '?', id: e.nextArr()}
			n := e.Var("jsonlen", SInt)
			n.ax = []*Term{e.Le(e.Int(0), n)}
			s := Slice{nilT: e.False, arr: o, off: e.Int(0), len: n, cap: n, elem: types.Typ[types.Byte], ghost: args[0]}
			ns.setGhost("json.fail", e.True)
			return []Outcome{{st: st, vals: []Value{s, Iface{}}}, {st: ns, vals: []Value{e.zero(types.NewSlice(types.Typ[types.Byte])), e.freshErr(ns, "json")}}}, true
		}
	case pkgYaml:
		switch id {
		case "(*" + pkgYaml + ".Node).LongTag":
			e.assume["yaml.v3 Node.LongTag/ShortTag modelled from the documented tag rules"] = true
			return e.longTag(st, args[0].(Ptr), false), true
		case "(*" + pkgYaml + ".Node).ShortTag":
			return e.longTag(st, args[0].(Ptr), true), true
		}
	case "fmt":
		switch fn.Name() {
		case "Errorf":
			return ok1(st, e.freshErr(st, "fmt")), true
		case "Sprintf":
			if len(args) > 0 {
				return ok1(st, e.Var("sprintf", SStr)), true
			}
		case "Sprint":
			s := args[0].(Slice)
			if s.len == e.Int(1) {
				var outs []Outcome
				for _, sv := range e.load(st, Ptr{nilT: e.False, obj: s.arr, path: []PathElem{{field: -1, idx: s.off}}}) {
					outs = append(outs, Outcome{st: sv.st, vals: []Value{e.textOf(sv.v)}})
				}
				return outs, true
			}
			return ok1(st, e.Var("sprint", SStr)), true
		}
	case "errors":
		if fn.Name() == "New" {
			return ok1(st, e.freshErr(st, "errors.New")), true
		}
	case "strings":
		a := func(i int) *Term { return args[i].(*Term) }
		switch fn.Name() {
		case "HasPrefix":
			return ok1(st, e.hasPrefix(a(0), a(1))), true
		case "HasSuffix":
			return ok1(st, e.AppF("strhassuffix", SBool, a(0), a(1))), true
		case "Index":
			return ok1(st, e.strIndex(a(0), a(1))), true
		case "IndexByte", "IndexRune":
			if a(1).op == OInt {
				return ok1(st, e.strIndex(a(0), e.Str(string(rune(a(1).k))))), true
			}
		case "Contains":
			return ok1(st, e.Le(e.Int(0), e.strIndex(a(0), a(1)))), true
		case "ContainsRune":
			if a(1).op == OInt {
				return ok1(st, e.Le(e.Int(0), e.strIndex(a(0), e.Str(string(rune(a(1).k)))))), true
			}
		case "ContainsAny":
			if a(1).op == OStr {
				any := e.False
				for _, c := range a(1).name {
					any = e.Or(any, e.Le(e.Int(0), e.strIndex(a(0), e.Str(string(c)))))
				}
				return ok1(st, any), true
			}
		case "Count":
			if a(1).op == OStr && a(1).name != "" {
				return ok1(st, e.strCount(a(0), a(1))), true
			}
		case "LastIndex":
			if a(1).op == OStr && a(1).name != "" {
				return ok1(st, e.strLast(a(0), a(1))), true
			}
		case "LastIndexByte":
			if a(1).op == OInt {
				return ok1(st, e.strLast(a(0), e.Str(string(rune(a(1).k))))), true
			}
		case "ToLower":
			return ok1(st, e.AppF("strtolower", SStr, a(0))), true
		case "ToUpper":
			return ok1(st, e.AppF("strtoupper", SStr, a(0))), true
		case "TrimSpace":
			return ok1(st, e.AppF("strtrimspace", SStr, a(0))), true
		case "EqualFold":
			return ok1(st, e.Eq(e.AppF("strtolower", SStr, a(0)), e.AppF("strtolower", SStr, a(1)))), true
		case "TrimPrefix":
			p := e.hasPrefix(a(0), a(1))
			return ok1(st, e.Ite(p, e.substr(a(0), e.strLen(a(1)), e.strLen(a(0))), a(0))), true
		}
		return nil, false
	case "strconv":
		return e.strconvCall(fn, args, st)
	case "encoding/base64":
		if fn.Name() == "DecodeString" {
			bad := e.App("base64.err", SBool, args[1].(*Term))
			y, n := e.branch(st, bad)
			var outs []Outcome
			if y != nil {
				outs = append(outs, Outcome{st: y, vals: []Value{e.zero(types.NewSlice(types.Typ[types.Byte])), e.freshErr(y, "base64")}})
			}
			if n != nil {
				outs = append(outs, Outcome{st: n, vals: []Value{e.bytesOf(n, e.App("base64", SStr, args[1].(*Term)), types.Typ[types.Byte]), Iface{}}})
			}
			return outs, true
		}
		if fn.Name() == "EncodeToString" {
			return ok1(st, e.Var("base64", SStr)), true
		}
	case "time":
		switch fn.Name() {
		case "Parse":
			bad := e.App("time.err", SBool, args[0].(*Term), args[1].(*Term))
			y, n := e.branch(st, bad)
			var outs []Outcome
			tt := fn.Signature.Results().At(0).Type()
			if y != nil {
				outs = append(outs, Outcome{st: y, vals: []Value{e.zero(tt), e.freshErr(y, "time")}})
			}
			if n != nil {
				outs = append(outs, Outcome{st: n, vals: []Value{e.symVal(tt, "time", args[0].(*Term), args[1].(*Term)), Iface{}}})
			}
			return outs, true
		case "Unix":
			return ok1(st, e.zero(fn.Signature.Results().At(0).Type())), true
		}
	case pkgXyml:
		if fn.Name() == "ToYamlNode" && fn.Signature.Recv() == nil {
			if e.entryNodes {
				args = []Value{e.written(st, args[0])}
				if i, ok := args[0].(Iface); ok {
					if am, ok := i.typ.(*amType); ok && e.decide(st, i.val.(Ptr).nilT) == -1 {
						return e.amapCall(st, am, i.val.(Ptr), "ToYAML", nil), true
					}
				}
			}
			if x, ok := args[0].(*Term); ok {
				return e.opaqueNode(x, st), true
			}
			if i, ok := args[0].(Iface); ok && i.typ != nil {
				if _, isAM := i.typ.(*amType); !isAM && e.opaqueElems[types.TypeString(i.typ, nil)] {
					return e.opaqueNode(e.box(i), st), true
				}
			}
		}
	}
	if len(fn.Blocks) == 0 && path != "" && !strings.HasPrefix(path, modPath) {
		panic(unsupported("no model of %s", id))
	}
	return nil, false
}

// opaqueNode: conversion of an arbitrary value to a node is a function of the
// value that may fail.
func (e *Engine) opaqueNode(x *Term, st *State) []Outcome {
	e.assume["xyml.ToYamlNode on arbitrary values is a function of the value (or fails)"] = true
	nt := e.nodeType()
	var outs []Outcome
	st2 := st
	bad := e.App("toyaml.err", SBool, x)
	if bad.ax == nil && !bad.bound {
		bad.ax = []*Term{e.Implies(bad, e.Not(e.Eq(x, e.nilAny())))}
	}
	if _, conv := st2.ghost["convertible"]; conv {
		e.assume["(contract 'convertible' only) every value converts"] = true
		e.add(st2, e.Not(bad))
	}
	y, n := e.branch(st2, bad)
	if y != nil {
		outs = append(outs, Outcome{st: y, vals: []Value{Ptr{nilT: e.True}, e.App("toyaml.error", SAny, x)}})
		e.add(y, e.Not(e.Eq(e.App("toyaml.error", SAny, x), e.nilAny())))
		y.setGhost("yamlfailed", e.True)
	}
	if n != nil {
		r := e.App("toyaml", SRef, x)
		e.add(n, e.Not(e.Eq(r, e.null())))
		p := e.symPtr(r, nt)
		p.nilT = e.False
		outs = append(outs, Outcome{st: n, vals: []Value{p, Iface{}}})
	}
	return outs
}

// textOf is fmt.Sprint of one value.
func (e *Engine) textOf(v Value) *Term {
	if i, ok := v.(Iface); ok && i.typ != nil {
		if t, ok := i.val.(*Term); ok && t.sort == SStr {
			if _, isB := i.typ.(*types.Basic); isB {
				return t
			}
		}
	}
	return e.App("text", SStr, e.box(v))
}

func (e *Engine) strconvCall(fn *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
	e.assume["strconv parsing and formatting are inverse to each other (integers, booleans)"] = true
	pair := func(errT *Term, v Value, z Value, what string) []Outcome {
		y, n := e.branch(st, errT)
		var outs []Outcome
		if y != nil {
			outs = append(outs, Outcome{st: y, vals: []Value{z, e.freshErr(y, what)}})
		}
		if n != nil {
			outs = append(outs, Outcome{st: n, vals: []Value{v, Iface{}}})
		}
		return outs
	}
	inverse := func(fmtName, parse string, s Sort) {
		e.regAx(fmtName, func(x *Term) []*Term {
			return []*Term{e.Eq(e.App(parse, s, x), x.args[0]), e.Not(e.App(parse+".err", SBool, x))}
		})
	}
	switch fn.Name() {
	case "ParseInt", "ParseUint", "Atoi":
		s := args[0].(*Term)
		nm := "parseint"
		if fn.Name() == "ParseUint" {
			nm = "parseuint"
		}
		if fn.Name() != "Atoi" {
			b, ok1 := args[1].(*Term)
			w, ok2 := args[2].(*Term)
			if !ok1 || !ok2 || b.op != OInt || w.op != OInt {
				panic(unsupported("strconv with symbolic base"))
			}
			if b.k != 10 || w.k != 64 {
				nm = fmt.Sprintf("%s_%d_%d", nm, b.k, w.k)
			}
		}
		rt := fn.Signature.Results().At(0).Type()
		e.regAx(nm, func(x *Term) []*Term { return e.rangeAx(x, rt) })
		return pair(e.AppF(nm+".err", SBool, s), e.AppF(nm, SInt, s), e.Int(0), nm), true
	case "ParseFloat":
		s := args[0].(*Term)
		return pair(e.App("parseflt.err", SBool, s), e.App("parseflt", SFlt, s), e.flt(0), "parseflt"), true
	case "ParseBool":
		s := args[0].(*Term)
		return pair(e.App("parsebool.err", SBool, s), e.App("parsebool", SBool, s), e.False, "parsebool"), true
	case "FormatInt", "Itoa":
		if fn.Name() == "FormatInt" && args[1] != Value(e.Int(10)) {
			return ok1(st, e.Var("fmtint", SStr)), true
		}
		inverse("fmtint", "parseint", SInt)
		return ok1(st, e.AppF("fmtint", SStr, args[0].(*Term))), true
	case "FormatUint":
		// parsed back by ParseInt when it fits
		x := args[0].(*Term)
		r := e.App("fmtuint", SStr, x)
		if r.ax == nil {
			r.ax = []*Term{e.Implies(e.Le(x, e.big("9223372036854775807")), e.And(e.Eq(e.App("parseint", SInt, r), x), e.Not(e.App("parseint.err", SBool, r))))}
		}
		return ok1(st, r), true
	case "FormatFloat":
		x := args[0].(*Term)
		r := e.App("fmtflt", SStr, x)
		return ok1(st, r), true
	case "FormatBool":
		return ok1(st, e.Ite(args[0].(*Term), e.Str("true"), e.Str("false"))), true
	}
	return nil, false
}

// --- reflect -----------------------------------------------------------------------

func reflectKind(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Basic:
		return map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
			types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13,
			types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (e *Engine) reflectCall(fn *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
	e.assume["reflect modelled (ValueOf, Kind, IsNil, Elem, Interface, Len, Index, Type)"] = true
	if fn.Signature.Recv() == nil {
		switch fn.Name() {
		case "ValueOf":
			return ok1(st, RVal{v: args[0]}), true
		case "TypeOf":
			return ok1(st, e.App("rtype", SAny, e.box(args[0]))), true
		case "DeepEqual":
			return ok1(st, e.Var("deepequal", SBool)), true
		}
		return nil, false
	}
	r, ok := args[0].(RVal)
	if !ok {
		panic(unsupported("reflect method %s", fn.Name()))
	}
	isNilV := func(i Iface) *Term {
		switch p := i.val.(type) {
		case Ptr:
			return p.nilT
		case Slice:
			return p.nilT
		case MapRef:
			return p.nilT
		case FuncV:
			return e.Bool(p.fn == nil && p.name == "" && p.prim == nil)
		}
		return nil
	}
	switch fn.Name() {
	case "Kind":
		switch x := r.v.(type) {
		case Iface:
			if x.typ == nil {
				return ok1(st, e.Int(0)), true
			}
			if _, ok := x.typ.(*amType); ok {
				return ok1(st, e.Int(22)), true
			}
			return ok1(st, e.Int(reflectKind(x.typ))), true
		case *Term:
			return ok1(st, e.rkind(x)), true
		}
	case "IsNil":
		switch x := r.v.(type) {
		case Iface:
			if x.typ == nil {
				return []Outcome{{st: st, panic: true, msg: "reflect IsNil on zero Value"}}, true
			}
			if _, ok := x.typ.(*amType); ok {
				return ok1(st, e.False), true
			}
			if n := isNilV(x); n != nil {
				return ok1(st, n), true
			}
			return []Outcome{{st: st, panic: true, msg: "reflect IsNil on " + x.typ.String()}}, true
		case *Term:
			k := e.rkind(x)
			n := e.App("rnil", SBool, x)
			okK := e.Or(e.Eq(k, e.Int(22)), e.Eq(k, e.Int(21)), e.Eq(k, e.Int(23)), e.Eq(k, e.Int(18)), e.Eq(k, e.Int(19)), e.Eq(k, e.Int(26)), e.Eq(k, e.Int(20)))
			y, no := e.branch(st, okK)
			var outs []Outcome
			if y != nil {
				outs = append(outs, Outcome{st: y, vals: []Value{n}})
			}
			if no != nil {
				outs = append(outs, Outcome{st: no, panic: true, msg: "reflect IsNil on a kind that has no nil"})
			}
			return outs, true
		}
	case "Elem":
		switch x := r.v.(type) {
		case Iface:
			if am, ok := x.typ.(*amType); ok {
				return ok1(st, RVal{v: Iface{derefAM{am}, x.val}}), true
			}
			p, isP := x.val.(Ptr)
			if !isP {
				return []Outcome{{st: st, panic: true, msg: "reflect Elem of non-pointer"}}, true
			}
			et := under(x.typ).(*types.Pointer).Elem()
			var outs []Outcome
			y, n := e.branch(st, p.nilT)
			if y != nil {
				outs = append(outs, Outcome{st: y, vals: []Value{RVal{v: Iface{}}}})
			}
			if n != nil {
				p.nilT = e.False
				for _, sv := range e.load(n, p) {
					v := sv.v
					if _, isI := under(et).(*types.Interface); !isI {
						v = Iface{et, v}
					}
					outs = append(outs, Outcome{st: sv.st, vals: []Value{RVal{v: v}}})
				}
			}
			return outs, true
		case *Term:
			return ok1(st, RVal{v: e.App("deref", SAny, x)}), true
		}
	case "Interface":
		return ok1(st, r.v), true
	case "Len":
		if i, ok := r.v.(Iface); ok {
			if s, ok := i.val.(Slice); ok {
				return ok1(st, s.len), true
			}
		}
	case "Index":
		if i, ok := r.v.(Iface); ok {
			if s, ok := i.val.(Slice); ok {
				j := args[1].(*Term)
				y, n := e.branch(st, e.Or(e.Lt(j, e.Int(0)), e.Ge(j, s.len)))
				var outs []Outcome
				if y != nil {
					outs = append(outs, Outcome{st: y, panic: true, msg: "reflect: slice index out of range"})
				}
				if n != nil {
					for _, sv := range e.load(n, Ptr{nilT: e.False, obj: s.arr, path: []PathElem{{field: -1, idx: e.Add(s.off, j)}}}) {
						v := sv.v
						if _, isI := under(s.elem).(*types.Interface); !isI {
							v = Iface{s.elem, v}
						}
						outs = append(outs, Outcome{st: sv.st, vals: []Value{RVal{v: v}}})
					}
				}
				return outs, true
			}
		}
	case "Type":
		return ok1(st, e.Var("rtype", SAny)), true
	case "String":
		return ok1(st, e.Var("rstring", SStr)), true
	case "IsValid":
		return ok1(st, e.Not(e.isNilAny(r.v))), true
	}
	panic(unsupported("reflect method %s on %T", fn.Name(), r.v))
}

// derefAM is the (unexported) struct type behind an abstract collection.
type derefAM struct{ am *amType }

func (d derefAM) Underlying() types.Type { return d }
func (d derefAM) String() string         { return "deref " + d.am.String() }

func (e *Engine) rkind(x *Term) *Term {
	if x.op == OApp && strings.HasPrefix(x.name, "box:") {
		if k, ok := e.boxKind[x.name]; ok {
			return e.Int(k)
		}
	}
	k := e.App("rkind", SInt, x)
	if k.ax == nil && !k.bound {
		k.ax = []*Term{e.Le(e.Int(0), k), e.Le(k, e.Int(26)), e.Iff(e.Eq(k, e.Int(0)), e.Eq(x, e.nilAny()))}
	}
	return k
}

// opaqueTyped adds what is known of an arbitrary value of a repository
// interface: its dynamic type is one of the implementations, all held by
// non-nil pointers.
func (e *Engine) opaqueAx(x *Term, t types.Type) {
	impls := e.implementers(t)
	if len(impls) == 0 || len(impls) > 24 || x.bound {
		return
	}
	var alts []*Term
	alts = append(alts, e.Eq(x, e.nilAny()))
	for _, it := range impls {
		k := reflectKind(it)
		c := []*Term{e.Eq(e.App("typeof", SInt, x), e.typeID(it)), e.Eq(e.rkind(x), e.Int(k))}
		if k == 22 {
			c = append(c, e.Not(e.App("rnil", SBool, x)))
		}
		alts = append(alts, e.And(c...))
	}
	x.ax = append(x.ax[:len(x.ax):len(x.ax)], e.Or(alts...))
}

// invokeOpaque: a method of an arbitrary implementation.
func (e *Engine) invokeOpaque(r *Term, f invokeV, args []Value, st *State, pos token.Pos) []Outcome {
	isNil := e.Eq(r, e.nilAny())
	y, n := e.branch(st, isNil)
	var outs []Outcome
	if y != nil {
		outs = append(outs, Outcome{st: y, panic: true, msg: "method call on nil interface (" + f.m.Name() + ") at " + e.posOf(pos)})
	}
	if n == nil {
		return outs
	}
	if c, ok := e.contracts["iface."+f.m.Name()]; ok {
		if o, done := c(e, nil, append([]Value{r}, args...), n); done {
			return append(outs, o...)
		}
	}
	// type known from the path?
	if r.op == OApp && strings.HasPrefix(r.name, "box:") {
		if bt := e.boxTypes[r.name]; bt != nil {
			return append(outs, e.invokeOn(Iface{bt, e.unbox(r, bt)}, f.m, args, n)...)
		}
	}
	sig := f.m.Type().(*types.Signature)
	switch f.m.Name() {
	case "Error", "String":
		return append(outs, Outcome{st: n, vals: []Value{e.App("call:"+f.m.Name(), SStr, r)}})
	}
	// observers without arguments are functions of the value
	if len(args) == 0 && sig.Results().Len() > 0 {
		var vs []Value
		for i := 0; i < sig.Results().Len(); i++ {
			v := e.symVal(sig.Results().At(i).Type(), fmt.Sprintf("call:%s.%d", f.m.Name(), i), r)
			vs = append(vs, v)
		}
		return append(outs, Outcome{st: n, vals: vs})
	}
	panic(unsupported("call of %s on an arbitrary %s", f.m.Name(), f.static))
}
