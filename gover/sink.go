package main

// Output: an arbitrary destination (vc.Sink) and the YAML encoder. The log of
// a destination is the sequence of texts and documents it has taken.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sinkOf(v Value) (Ptr, bool) {
	if i, ok := v.(Iface); ok {
		v = i.val
	}
	p, ok := v.(Ptr)
	return p, ok && p.obj != nil && p.obj.name == "sink"
}

func sinkKey(p Ptr) string { return fmt.Sprintf("sink:%d", p.obj.id) }
func failKey(p Ptr) string { return fmt.Sprintf("sinkfailed:%d", p.obj.id) }

// sinkTake: the destination takes the item, or fails.
func (e *Engine) sinkTake(st *State, p Ptr, item Value) (ok, bad *State) {
	bad = st.clone()
	bad.setGhost(failKey(p), e.True)
	log, _ := st.ghost[sinkKey(p)].(Tuple)
	st.setGhost(sinkKey(p), append(append(Tuple(nil), log...), item))
	return st, bad
}

func (e *Engine) sinkWrite(st *State, w Value, item Value, n Value) []Outcome {
	p, ok := sinkOf(w)
	if !ok {
		panic(unsupported("output to %T", w))
	}
	good, bad := e.sinkTake(st, p, item)
	short := e.Var("written", SInt)
	short.ax = []*Term{e.Le(e.Int(0), short)}
	return []Outcome{{st: good, vals: []Value{n, Iface{}}}, {st: bad, vals: []Value{short, e.freshErr(bad, "write")}}}
}

// itemOf: what a byte slice is as output.
func itemOf(s Slice) Value {
	switch g := s.ghost.(type) {
	case *Term:
		if g.sort == SStr {
			return g
		}
	case Tuple:
		return g
	}
	panic(unsupported("output of bytes of unknown origin"))
}

// docOf: the document (head comment and root node) that the encoder makes of v.
func (e *Engine) docOf(st *State, v Value, depth int) []Outcome {
	if depth > 3 {
		panic(unsupported("encoding of a value that marshals to itself"))
	}
	i, ok := v.(Iface)
	if !ok || i.typ == nil {
		panic(unsupported("encoding of %T", v))
	}
	_, coll := i.typ.(*amType)
	if p, ok := i.val.(Ptr); ok && !coll && types.Identical(i.typ, types.NewPointer(e.nodeType())) {
		if e.decide(st, p.nilT) != -1 {
			panic(unsupported("encoding of a node that may be nil"))
		}
		if p.obj == nil || st.ghost[fmt.Sprintf("mapof:%d", p.obj.id)] != nil {
			return ok1(st, Tuple{e.Str(""), v})
		}
		var outs []Outcome
		for _, k := range e.nodeField(st, p, "Kind") {
			if k.v.(*Term) != e.Int(1) { // yaml.DocumentNode
				if e.decide(k.st, e.Eq(k.v.(*Term), e.Int(1))) != -1 {
					panic(unsupported("encoding of a node of unknown kind"))
				}
				outs = append(outs, Outcome{st: k.st, vals: []Value{Tuple{e.Str(""), v}}})
				continue
			}
			for _, h := range e.nodeField(k.st, p, "HeadComment") {
				for _, c := range e.nodeField(h.st, p, "Content") {
					s := c.v.(Slice)
					if s.len != e.Int(1) {
						outs = append(outs, Outcome{st: c.st, vals: []Value{Tuple{h.v, Iface{}}}})
						continue
					}
					for _, r := range e.load(c.st, Ptr{nilT: e.False, obj: s.arr, path: []PathElem{{field: -1, idx: s.off}}}) {
						outs = append(outs, Outcome{st: r.st, vals: []Value{Tuple{h.v, Iface{i.typ, r.v}}}})
					}
				}
			}
		}
		return outs
	}
	var res []Outcome
	var outs []Outcome
	if am, ok := i.typ.(*amType); ok {
		outs = e.amapCall(st, am, i.val.(Ptr), "MarshalYAML", nil)
	} else {
		fn := e.P.prog.LookupMethod(i.typ, nil, "MarshalYAML")
		if fn == nil {
			panic(unsupported("encoding of a %s", i.typ))
		}
		outs = e.call(fn, []Value{i.val}, nil, st)
	}
	for _, o := range outs {
		if o.panic {
			res = append(res, o)
			continue
		}
		isNil := e.eqVal(o.vals[1], Iface{})
		y, n := e.branch(o.st, isNil)
		if n != nil {
			res = append(res, Outcome{st: n, vals: []Value{nil, o.vals[1]}})
		}
		if y != nil {
			res = append(res, e.docOf(y, o.vals[0], depth+1)...)
		}
	}
	return res
}

// encodeTo: v is encoded and taken by the destination, or there is an error.
func (e *Engine) encodeTo(st *State, w Value, v Value) []Outcome {
	e.assume["yaml.v3: the encoder writes the text of the node a value marshals to, and returns the error of the conversion or of the destination"] = true
	var res []Outcome
	for _, o := range e.docOf(st, v, 0) {
		if o.panic {
			res = append(res, o)
			continue
		}
		if len(o.vals) == 2 {
			res = append(res, Outcome{st: o.st, vals: []Value{o.vals[1]}})
			continue
		}
		for _, u := range e.sinkWrite(o.st, w, o.vals[0], e.Int(0)) {
			res = append(res, Outcome{st: u.st, vals: []Value{u.vals[1]}})
		}
	}
	return res
}

// --- input: an arbitrary source of a document (vc.Source) ---------------------------

func sourceOf(v Value) (Ptr, bool) {
	if i, ok := v.(Iface); ok {
		v = i.val
	}
	p, ok := v.(Ptr)
	return p, ok && p.obj != nil && p.obj.name == "source"
}

// decodeFrom: the document of the source is decoded into out.
func (e *Engine) decodeFrom(st *State, src Ptr, v Value, eof Value) []Outcome {
	e.assume["yaml.v3: decoding fails for unreadable text, changes nothing for a null document, and otherwise hands the root node to UnmarshalYAML and returns its error"] = true
	g := st.ghost[fmt.Sprintf("source:%d", src.obj.id)].(Tuple)
	y, mode := g[0].(Ptr), g[1].(*Term)
	i, ok := v.(Iface)
	if !ok || i.typ == nil {
		panic(unsupported("decoding into %T", v))
	}
	fn := e.P.prog.LookupMethod(i.typ, nil, "UnmarshalYAML")
	ctor := e.elemCtorOf(i.typ)
	if fn == nil || ctor == nil {
		panic(unsupported("decoding into a %s", i.typ))
	}
	var outs []Outcome
	empty, st := e.branch(st, e.Eq(mode, e.Int(1)))
	if empty != nil {
		outs = append(outs, Outcome{st: empty, vals: []Value{eof}})
	}
	if st == nil {
		return outs
	}
	bad, st := e.branch(st, e.Or(e.Eq(mode, e.Int(2)), e.Eq(mode, e.Int(3))))
	if bad != nil {
		er := e.freshErr(bad, "yaml")
		e.add(bad, e.Not(e.eqVal(er, eof)))
		outs = append(outs, Outcome{st: bad, vals: []Value{er}})
	}
	if st == nil {
		return outs
	}
	for _, o := range e.longTag(st, y, true) {
		null, rest := e.branch(o.st, e.Eq(o.vals[0].(*Term), e.Str("!!null")))
		if null != nil {
			outs = append(outs, Outcome{st: null, vals: []Value{Iface{}}})
		}
		if rest != nil {
			os, ok := e.parsedElem(fn, ctor, []Value{i.val, y}, rest)
			if !ok {
				panic(unsupported("decoding into %T", i.val))
			}
			for _, u := range os {
				if !u.panic && !isNilIface(u.vals[0]) {
					e.add(u.st, e.Not(e.eqVal(u.vals[0], eof)))
				}
			}
			outs = append(outs, os...)
		}
	}
	return outs
}

// eofOf loads io.EOF.
func (e *Engine) eofOf(st *State) Value {
	for _, p := range e.P.prog.AllPackages() {
		if p.Pkg.Path() == "io" {
			for _, sv := range e.load(st, e.ptrTo(e.global(p.Var("EOF"), st))) {
				if t, ok := sv.v.(*Term); ok {
					e.add(st, e.Not(e.Eq(t, e.nilAny())))
				}
				return sv.v
			}
		}
	}
	panic(unsupported("io.EOF"))
}

func (e *Engine) inputCall(fn *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
	switch fn.String() {
	case pkgYaml + ".NewDecoder":
		p, ok := sourceOf(args[0])
		if !ok {
			return nil, false
		}
		o := e.newObj(e.typeNamed(pkgYaml, "Decoder"), "decoder")
		st.heap[o] = e.zero(e.typeNamed(pkgYaml, "Decoder"))
		st.setGhost(fmt.Sprintf("dec:%d", o.id), p)
		return ok1(st, Ptr{nilT: e.False, obj: o}), true
	case "(*" + pkgYaml + ".Decoder).KnownFields":
		return ok1(st), true
	case "(*" + pkgYaml + ".Decoder).Decode":
		p, ok := st.ghost[fmt.Sprintf("dec:%d", args[0].(Ptr).obj.id)].(Ptr)
		if !ok {
			return nil, false
		}
		return e.decodeFrom(st, p, args[1], e.eofOf(st)), true
	case "io.ReadAll", "io/ioutil.ReadAll":
		p, ok := sourceOf(args[0])
		if !ok {
			return nil, false
		}
		mode := st.ghost[fmt.Sprintf("source:%d", p.obj.id)].(Tuple)[1].(*Term)
		bad, good := e.branch(st, e.Eq(mode, e.Int(2)))
		var outs []Outcome
		if bad != nil {
			outs = append(outs, Outcome{st: bad, vals: []Value{e.zero(types.NewSlice(types.Typ[types.Byte])), e.freshErr(bad, "read")}})
		}
		if good != nil {
			b := e.bytesOf(good, e.Var("text", SStr), types.Typ[types.Byte])
			b.ghost = p
			outs = append(outs, Outcome{st: good, vals: []Value{b, Iface{}}})
		}
		return outs, true
	case pkgYaml + ".Unmarshal":
		p, ok := args[0].(Slice).ghost.(Ptr)
		if !ok {
			return nil, false
		}
		return e.decodeFrom(st, p, args[1], Iface{}), true
	}
	return nil, false
}

func init() {
	intrinsics2["NewSource"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		o := e.newObj(t, "source")
		st.heap[o] = e.zero(t)
		st.setGhost(fmt.Sprintf("source:%d", o.id), Tuple{args[0], args[1]})
		return ok1(st, Ptr{nilT: e.False, obj: o})
	}
	intrinsics2["Root"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		p, _ := sourceOf(args[0])
		return ok1(st, st.ghost[fmt.Sprintf("source:%d", p.obj.id)].(Tuple)[0])
	}
}

func (e *Engine) outputCall(fn *ssa.Function, args []Value, st *State) ([]Outcome, bool) {
	switch fn.String() {
	case pkgYaml + ".NewEncoder":
		p, ok := sinkOf(args[0])
		if !ok {
			return nil, false
		}
		o := e.newObj(e.typeNamed(pkgYaml, "Encoder"), "encoder")
		st.heap[o] = e.zero(e.typeNamed(pkgYaml, "Encoder"))
		st.setGhost(fmt.Sprintf("enc:%d", o.id), p)
		return ok1(st, Ptr{nilT: e.False, obj: o}), true
	case "(*" + pkgYaml + ".Encoder).SetIndent":
		y, n := e.branch(st, e.Lt(args[1].(*Term), e.Int(0)))
		var outs []Outcome
		if y != nil {
			outs = append(outs, Outcome{st: y, panic: true, msg: "yaml: cannot indent to a negative number of spaces"})
		}
		if n != nil {
			outs = append(outs, Outcome{st: n})
		}
		return outs, true
	case "(*" + pkgYaml + ".Encoder).Close":
		return ok1(st, Iface{}), true
	case "(*" + pkgYaml + ".Encoder).Encode":
		w, ok := st.ghost[fmt.Sprintf("enc:%d", args[0].(Ptr).obj.id)]
		if !ok {
			return nil, false
		}
		return e.encodeTo(st, w, args[1]), true
	case pkgYaml + ".Marshal":
		e.assume["yaml.v3: Marshal gives the text of the node a value marshals to"] = true
		var res []Outcome
		for _, o := range e.docOf(st, args[0], 0) {
			if o.panic {
				res = append(res, o)
				continue
			}
			if len(o.vals) == 2 {
				res = append(res, Outcome{st: o.st, vals: []Value{e.zero(types.NewSlice(types.Typ[types.Byte])), o.vals[1]}})
				continue
			}
			b := e.bytesOf(o.st, e.Var("yamltext", SStr), types.Typ[types.Byte])
			b.ghost = o.vals[0]
			res = append(res, Outcome{st: o.st, vals: []Value{b, Iface{}}})
		}
		return res, true
	case "io.WriteString":
		t := args[1].(*Term)
		return e.sinkWrite(st, args[0], t, e.strLen(t)), true
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf":
		s := args[len(args)-1].(Slice)
		var t string
		if fn.Name() == "Fprintf" {
			f, ok := args[1].(*Term)
			if !ok || f.op != OStr || strings.Contains(f.name, "%") || s.len != e.Int(0) {
				return nil, false
			}
			t = f.name
		} else {
			if s.len.op != OInt {
				return nil, false
			}
			for j := int64(0); j < s.len.k; j++ {
				svs := e.load(st, Ptr{nilT: e.False, obj: s.arr, path: []PathElem{{field: -1, idx: e.Add(s.off, e.Int(j))}}})
				if len(svs) != 1 {
					return nil, false
				}
				x := e.textOf(svs[0].v)
				if x.op != OStr {
					return nil, false
				}
				st = svs[0].st
				if j > 0 && fn.Name() == "Fprintln" {
					t += " "
				}
				t += x.name
			}
			if fn.Name() == "Fprintln" {
				t += "\n"
			}
		}
		return e.sinkWrite(st, args[0], e.Str(t), e.Int(int64(len(t)))), true
	}
	return nil, false
}

// output: first line and root node of what a destination has taken.
func (e *Engine) output(st *State, p Ptr) (string, Value) {
	log, _ := st.ghost[sinkKey(p)].(Tuple)
	head, node := "", Value(nil)
	for _, it := range log {
		switch x := it.(type) {
		case *Term:
			if x.op != OStr {
				return "", nil
			}
			if node != nil {
				if strings.TrimSpace(x.name) != "" {
					return "", nil
				}
				continue
			}
			head += x.name
		case Tuple:
			h, ok := x[0].(*Term)
			if !ok || h.op != OStr || node != nil || h.name != "" && head != "" || head != "" && !strings.HasSuffix(head, "\n") {
				return "", nil
			}
			if h.name != "" {
				head = h.name + "\n"
				if h.name[0] != '#' {
					head = "# " + head
				}
			}
			node = x[1]
		}
	}
	for i, l := range strings.Split(head, "\n") {
		if l != "" && l[0] != '#' && !(i > 0 && l == "---" && strings.HasSuffix(head, "\n---\n")) {
			return "", nil
		}
	}
	return strings.SplitN(head, "\n", 2)[0], node
}

func init() {
	intrinsics2["NewSink"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		o := e.newObj(t, "sink")
		st.heap[o] = e.zero(t)
		p := Ptr{nilT: e.False, obj: o}
		st.setGhost(sinkKey(p), Tuple{})
		st.setGhost(failKey(p), e.False)
		return ok1(st, p)
	}
	intrinsics2["Write"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		s := args[1].(Slice)
		return e.sinkWrite(st, args[0], itemOf(s), s.len)
	}
	intrinsics2["Failed"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		p, _ := sinkOf(args[0])
		return ok1(st, st.ghost[failKey(p)])
	}
	intrinsics2["Document"] = func(e *Engine, fn *ssa.Function, args []Value, st *State) []Outcome {
		p, _ := sinkOf(args[0])
		h, n := e.output(st, p)
		nt := types.NewPointer(e.nodeType())
		if i, ok := n.(Iface); ok && i.typ != nil {
			return ok1(st, e.Str(h), i.val)
		}
		return ok1(st, e.Str(h), e.zero(nt))
	}
}
