package main

// Substitution of terms (a loop counter, usually) inside executor values.

type substEnv struct {
	e    *Engine
	m    map[*Term]*Term
	objs map[*Obj]*Obj
	arrs map[*Arr]*Arr
	gms  map[*GMap]*GMap
	ams  map[*AMap]*AMap
}

func (s *substEnv) t(x *Term) *Term {
	if x == nil {
		return nil
	}
	return s.e.Subst(x, s.m)
}

func (s *substEnv) obj(o *Obj) *Obj {
	if o == nil {
		return nil
	}
	if n, ok := s.objs[o]; ok {
		return n
	}
	if a, ok := o.init.(*Arr); ok && a.kind == 'S' && len(a.args) > 0 {
		ch := false
		args := make([]*Term, len(a.args))
		for i, x := range a.args {
			args[i] = s.t(x)
			ch = ch || args[i] != x
		}
		if ch {
			return s.e.symArrObj(a.base, args, a)
		}
	}
	return o
}

func (s *substEnv) value(v Value) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case *Term:
		return s.t(x)
	case Ptr:
		x.nilT = s.t(x.nilT)
		x.obj = s.obj(x.obj)
		x.sym = s.t(x.sym)
		if len(x.path) > 0 {
			p := append([]PathElem(nil), x.path...)
			for i := range p {
				p[i].idx = s.t(p[i].idx)
			}
			x.path = p
		}
		return x
	case Struct:
		n := Struct{typ: x.typ, f: make([]Value, len(x.f))}
		for i := range x.f {
			n.f[i] = s.value(x.f[i])
		}
		return n
	case Iface:
		return Iface{x.typ, s.value(x.val)}
	case Slice:
		x.nilT, x.off, x.len, x.cap = s.t(x.nilT), s.t(x.off), s.t(x.len), s.t(x.cap)
		x.arr = s.obj(x.arr)
		x.ghost = s.value(x.ghost)
		return x
	case MapRef:
		x.nilT = s.t(x.nilT)
		x.obj = s.obj(x.obj)
		return x
	case FuncV:
		b := make([]Value, len(x.bind))
		for i := range b {
			b[i] = s.value(x.bind[i])
		}
		x.bind = b
		return x
	case Tuple:
		n := make(Tuple, len(x))
		for i := range x {
			n[i] = s.value(x[i])
		}
		return n
	case *Arr:
		return s.arr(x)
	case *GMap:
		return s.gmap(x)
	case AMState:
		x.ord = s.t(x.ord)
		x.m = s.amap(x.m)
		return x
	case RVal:
		x.v = s.value(x.v)
		return x
	case IterV:
		x.obj = s.obj(x.obj)
		return x
	case iterState:
		x.pos = s.t(x.pos)
		return x
	case errGhost:
		return x
	}
	panic(unsupported("substitution in %T", v))
}

func (s *substEnv) arr(a *Arr) *Arr {
	if a == nil {
		return nil
	}
	if s.arrs == nil {
		s.arrs = map[*Arr]*Arr{}
	}
	if n, ok := s.arrs[a]; ok {
		return n
	}
	n := *a
	n.id = s.e.nextArr()
	n.parent = s.arr(a.parent)
	n.src = s.arr(a.src)
	n.idx, n.n, n.soff = s.t(a.idx), s.t(a.n), s.t(a.soff)
	n.val = s.value(a.val)
	n.gen = s.gen(a.gen)
	if len(a.args) > 0 {
		n.args = make([]*Term, len(a.args))
		for i := range a.args {
			n.args[i] = s.t(a.args[i])
		}
	}
	s.arrs[a] = &n
	return &n
}

func (s *substEnv) gen(g *Gen) *Gen {
	if g == nil {
		return nil
	}
	n := *g
	n.count = s.t(g.count)
	if g.skipH != nil {
		n.skipH, n.skipW = s.t(g.skipH), s.t(g.skipW)
	}
	n.insts = map[*Term]*instance{}
	n.elems = make([]Value, len(g.elems))
	for i := range g.elems {
		n.elems[i] = s.value(g.elems[i])
	}
	if len(g.heap) > 0 {
		n.heap = map[*Obj]Value{}
		for o, v := range g.heap {
			n.heap[o] = s.value(v)
		}
	}
	if g.guard != nil {
		n.guard = s.t(g.guard)
	}
	return &n
}

func (s *substEnv) gmap(a *GMap) *GMap {
	if a == nil {
		return nil
	}
	if s.gms == nil {
		s.gms = map[*GMap]*GMap{}
	}
	if n, ok := s.gms[a]; ok {
		return n
	}
	n := *a
	n.id = s.e.nextArr()
	n.parent = s.gmap(a.parent)
	n.k, n.v = s.value(a.k), s.value(a.v)
	n.gen = s.gen(a.gen)
	s.gms[a] = &n
	return &n
}

func (s *substEnv) amap(a *AMap) *AMap {
	if a == nil {
		return nil
	}
	if s.ams == nil {
		s.ams = map[*AMap]*AMap{}
	}
	if n, ok := s.ams[a]; ok {
		return n
	}
	n := *a
	n.id = s.e.nextArr()
	n.parent = s.amap(a.parent)
	n.g = s.t(a.g)
	n.k, n.v = s.value(a.k), s.value(a.v)
	n.gen = s.gen(a.gen)
	s.ams[a] = &n
	return &n
}

func (e *Engine) symArrObj(base string, args []*Term, like *Arr) *Obj {
	key := symKey(base, args)
	o := e.symObjs[key]
	if o == nil {
		o = e.newObj(like.elem, base)
		o.init = &Arr{elem: like.elem, kind: 'S', base: base, args: args, id: e.nextArr()}
		e.symObjs[key] = o
	}
	return o
}

// reach visits the objects reachable from v in st.
func reach(st *State, v Value, seen map[*Obj]bool) {
	obj := func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		reach(st, st.get(o), seen)
	}
	switch x := v.(type) {
	case Ptr:
		obj(x.obj)
	case Struct:
		for _, f := range x.f {
			reach(st, f, seen)
		}
	case Iface:
		reach(st, x.val, seen)
	case Slice:
		obj(x.arr)
		reach(st, x.ghost, seen)
	case MapRef:
		obj(x.obj)
	case FuncV:
		for _, b := range x.bind {
			reach(st, b, seen)
		}
	case Tuple:
		for _, f := range x {
			reach(st, f, seen)
		}
	case *Arr:
		for a := x; a != nil; a = a.parent {
			reach(st, a.val, seen)
			if a.src != nil {
				reach(st, a.src, seen)
			}
			if a.gen != nil {
				for _, el := range a.gen.elems {
					reach(st, el, seen)
				}
			}
		}
	case *GMap:
		for a := x; a != nil; a = a.parent {
			reach(st, a.k, seen)
			reach(st, a.v, seen)
			if a.gen != nil {
				for _, el := range a.gen.elems {
					reach(st, el, seen)
				}
			}
		}
	case AMState:
		for a := x.m; a != nil; a = a.parent {
			reach(st, a.k, seen)
			reach(st, a.v, seen)
			if a.gen != nil {
				for _, el := range a.gen.elems {
					reach(st, el, seen)
				}
			}
		}
	case RVal:
		reach(st, x.v, seen)
	case IterV:
		obj(x.obj)
	case iterState:
		reach(st, x.src, seen)
	}
}
