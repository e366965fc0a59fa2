package main

// Hash-consed terms of the verification logic.
//
// Go strings, floats, interface values and references are encoded in SMT as
// integers (an uncountable-free encoding: equality and uninterpreted functions
// only, literals are pairwise distinct numerals).  Sorts keep the encodings
// apart on our side.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort byte

const (
	SBool Sort = iota
	SInt
	SStr
	SFlt
	SAny
	SRef
)

func (s Sort) String() string { return [...]string{"Bool", "Int", "Str", "Flt", "Any", "Ref"}[s] }

type Op byte

const (
	OTrue Op = iota
	OFalse
	OInt
	OBig
	OStr
	OVar
	OApp
	ONot
	OAnd
	OOr
	OEq
	OLe0 // lin <= 0
	OLin
	OIte
	OForall
)

type Term struct {
	id     int
	op     Op
	sort   Sort
	args   []*Term
	coef   []int64
	k      int64
	name   string
	bound  bool // contains a bound variable
	birth  int  // engine epoch of creation of a variable
	pats   []*Term
	ax     []*Term // axioms that come with the term
	axLate bool
	isBV   bool
	neg    *Term
	syms   int // highest variable birth in the term (0 when ground in literals)
}

type TT struct {
	tab     map[string]*Term
	next    int
	epoch   int
	lits    map[string]int64
	litArr  []string
	True    *Term
	False   *Term
	axHook  func(*Term)
	axDepth int
}

func newTT() *TT {
	t := &TT{tab: map[string]*Term{}, lits: map[string]int64{}}
	t.True = t.mk(&Term{op: OTrue, sort: SBool}, "T")
	t.False = t.mk(&Term{op: OFalse, sort: SBool}, "F")
	t.Str("")
	return t
}

func (t *TT) mk(x *Term, key string) *Term {
	if y, ok := t.tab[key]; ok {
		return y
	}
	t.next++
	x.id = t.next
	for _, a := range x.args {
		if a.bound {
			x.bound = true
		}
		if a.syms > x.syms {
			x.syms = a.syms
		}
	}
	t.tab[key] = x
	return x
}

func (t *TT) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}
func (t *TT) Int(k int64) *Term {
	if k <= -1<<61 || k >= 1<<61 {
		return t.Big(strconv.FormatInt(k, 10))
	}
	return t.mk(&Term{op: OInt, sort: SInt, k: k}, "i"+strconv.FormatInt(k, 10))
}
func (t *TT) Big(s string) *Term { return t.mk(&Term{op: OBig, sort: SInt, name: s}, "I"+s) }
func (t *TT) NumOf(s Sort, k int64) *Term {
	return t.mk(&Term{op: OInt, sort: s, k: k}, "n"+s.String()+strconv.FormatInt(k, 10))
}
func (t *TT) Str(s string) *Term {
	c, ok := t.lits[s]
	if !ok {
		c = int64(len(t.litArr) + 1)
		t.lits[s] = c
		t.litArr = append(t.litArr, s)
	}
	return t.mk(&Term{op: OStr, sort: SStr, name: s, k: c}, "s"+s)
}

func (t *TT) Var(name string, s Sort) *Term {
	t.epoch++
	n := fmt.Sprintf("%s!%d", name, t.epoch)
	v := t.mk(&Term{op: OVar, sort: s, name: n, birth: t.epoch}, "v"+n)
	v.syms = t.epoch
	return v
}
func (t *TT) BV(name string, s Sort) *Term {
	t.epoch++
	n := fmt.Sprintf("%s?%d", name, t.epoch)
	return t.mk(&Term{op: OVar, sort: s, name: n, isBV: true, bound: true}, "b"+n)
}

// NamedVar is a stable variable: same name, same term.
func (t *TT) NamedVar(name string, s Sort) *Term {
	return t.mk(&Term{op: OVar, sort: s, name: name}, "v"+name)
}

func (t *TT) App(name string, s Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString("a")
	b.WriteString(name)
	b.WriteByte('/')
	b.WriteString(s.String())
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	key := b.String()
	x, ok := t.tab[key]
	if !ok {
		x = t.mk(&Term{op: OApp, sort: s, name: name, args: append([]*Term(nil), args...)}, key)
	} else if !x.axLate {
		return x
	}
	// definitional axioms mention further terms: their axioms come along up to
	// some depth (the rest when the term is mentioned on its own)
	if t.axHook != nil {
		if t.axDepth >= 5 {
			x.axLate = true
			return x
		}
		x.axLate = false
		t.axDepth++
		t.axHook(x)
		t.axDepth--
	}
	return x
}

func (t *TT) Not(a *Term) *Term {
	if a.neg == nil {
		a.neg = t.not(a)
	}
	return a.neg
}

func (t *TT) not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return t.False
	case OFalse:
		return t.True
	case ONot:
		return a.args[0]
	case OLe0: // not(l<=0) = l>=1 = -l+1<=0
		return t.Le0(t.lin([]*Term{a.args[0]}, []int64{-1}, 1))
	case OAnd:
		o := make([]*Term, len(a.args))
		for i, x := range a.args {
			o[i] = t.Not(x)
		}
		return t.Or(o...)
	case OOr:
		o := make([]*Term, len(a.args))
		for i, x := range a.args {
			o[i] = t.Not(x)
		}
		return t.And(o...)
	}
	return t.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}}, "!"+strconv.Itoa(a.id))
}

func (t *TT) nary(op Op, in []*Term) *Term {
	unit, zero := t.True, t.False
	if op == OOr {
		unit, zero = t.False, t.True
	}
	set := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if !set[x] {
			set[x] = true
			out = append(out, x)
		}
		return true
	}
	for _, x := range in {
		if !add(x) {
			return zero
		}
	}
	for _, x := range out {
		if set[t.Not(x)] && t.Not(x).op != op {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	var b strings.Builder
	b.WriteByte("&|"[op-OAnd])
	for _, a := range out {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	return t.mk(&Term{op: op, sort: SBool, args: out}, b.String())
}
func (t *TT) And(a ...*Term) *Term     { return t.nary(OAnd, a) }
func (t *TT) Or(a ...*Term) *Term      { return t.nary(OOr, a) }
func (t *TT) Implies(a, b *Term) *Term { return t.Or(t.Not(a), b) }
func (t *TT) Iff(a, b *Term) *Term     { return t.Eq(a, b) }
func (t *TT) Ite(c, a, b *Term) *Term {
	if c == t.True || a == b {
		return a
	}
	if c == t.False {
		return b
	}
	if a.sort == SBool {
		if a == t.True {
			return t.Or(c, b)
		}
		if a == t.False {
			return t.And(t.Not(c), b)
		}
		if b == t.True {
			return t.Or(t.Not(c), a)
		}
		if b == t.False {
			return t.And(c, a)
		}
	}
	if c.op == ONot {
		return t.Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return t.mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}}, fmt.Sprintf("?%d,%d,%d", c.id, a.id, b.id))
}

// lin builds the linear combination sum coef*term + k.
// lin: constants that do not fit comfortably are kept as one exact literal.
func (t *TT) lin(ts []*Term, cs []int64, k0 int64) *Term {
	m := map[*Term]int64{}
	k := k0
	var kb *big.Int
	small := func(x int64) bool { return -1<<61 < x && x < 1<<61 }
	if !small(k) {
		kb, k = big.NewInt(k), 0
	}
	mul := func(a, b int64) int64 {
		if a == 1 || b == 0 {
			return b
		}
		r := a * b
		if r/b != a || !small(r) && !small(a) {
			panic(unsupported("integer coefficient out of range"))
		}
		return r
	}
	addK := func(c int64, x *big.Int) {
		if kb == nil {
			kb = new(big.Int)
		}
		kb.Add(kb, new(big.Int).Mul(big.NewInt(c), x))
	}
	kadd := func(c, x int64) {
		if x == 0 {
			return
		}
		if (c == 1 || c == -1) && small(x) && small(k) {
			k += c * x
		} else {
			addK(c, big.NewInt(x))
		}
		if !small(k) {
			addK(1, big.NewInt(k))
			k = 0
		}
	}
	var rec func(x *Term, c int64)
	rec = func(x *Term, c int64) {
		switch x.op {
		case OInt:
			kadd(c, x.k)
		case OBig:
			addK(c, bigVal(x))
		case OLin:
			kadd(c, x.k)
			for i, a := range x.args {
				rec(a, mul(c, x.coef[i]))
			}
		default:
			m[x] += c
			if !small(m[x]) {
				panic(unsupported("integer coefficient out of range"))
			}
		}
	}
	for i, x := range ts {
		rec(x, cs[i])
	}
	var kt *Term // the constant, when it is large
	if kb != nil {
		kb.Add(kb, big.NewInt(k))
		k = 0
		if kb.IsInt64() && small(kb.Int64()) {
			k = kb.Int64()
		} else {
			kt = t.Big(kb.String())
		}
	}
	var as []*Term
	for x, c := range m {
		if c != 0 {
			as = append(as, x)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 0 {
		if kt != nil {
			return kt
		}
		return t.Int(k)
	}
	if len(as) == 1 && k == 0 && kt == nil && m[as[0]] == 1 {
		return as[0]
	}
	if kt != nil {
		as = append(as, kt)
		m[kt] = 1
	}
	cf := make([]int64, len(as))
	var b strings.Builder
	b.WriteString("L" + strconv.FormatInt(k, 10))
	for i, a := range as {
		cf[i] = m[a]
		fmt.Fprintf(&b, ",%d*%d", cf[i], a.id)
	}
	return t.mk(&Term{op: OLin, sort: SInt, args: as, coef: cf, k: k}, b.String())
}

func bigVal(x *Term) *big.Int {
	v, ok := new(big.Int).SetString(x.name, 10)
	if !ok {
		panic("bad integer literal " + x.name)
	}
	return v
}
func (t *TT) Add(a, b *Term) *Term { return t.lin([]*Term{a, b}, []int64{1, 1}, 0) }
func (t *TT) Sub(a, b *Term) *Term { return t.lin([]*Term{a, b}, []int64{1, -1}, 0) }
func (t *TT) AddK(a *Term, k int64) *Term {
	return t.lin([]*Term{a}, []int64{1}, k)
}
func (t *TT) MulK(a *Term, k int64) *Term { return t.lin([]*Term{a}, []int64{k}, 0) }

func (t *TT) Le0(l *Term) *Term {
	if l.op == OInt {
		return t.Bool(l.k <= 0)
	}
	if l.op == OBig {
		return t.Bool(bigVal(l).Sign() <= 0)
	}
	if l.op == OLin { // divide by gcd, rounding the constant (integers)
		g := int64(0)
		for _, c := range l.coef {
			g = gcd(g, c)
		}
		if g > 1 {
			cs := make([]int64, len(l.coef))
			for i, c := range l.coef {
				cs[i] = c / g
			}
			// sum*g + k <= 0  <=>  sum <= floor(-k/g)  <=> sum - floor(-k/g) <= 0
			l = t.lin(l.args, cs, -floorDiv(-l.k, g))
		}
	}
	return t.mk(&Term{op: OLe0, sort: SBool, args: []*Term{l}}, "<"+strconv.Itoa(l.id))
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func gcd(a, b int64) int64 {
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func (t *TT) Le(a, b *Term) *Term { return t.Le0(t.Sub(a, b)) }
func (t *TT) Lt(a, b *Term) *Term { return t.Le0(t.AddK(t.Sub(a, b), 1)) }
func (t *TT) Ge(a, b *Term) *Term { return t.Le(b, a) }
func (t *TT) Gt(a, b *Term) *Term { return t.Lt(b, a) }

func isLit(a *Term) bool {
	return a.op == OInt || a.op == OBig || a.op == OStr || a.op == OTrue || a.op == OFalse
}

func (t *TT) Eq(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.sort != b.sort {
		panic(unsupported("equality of sorts %s and %s (%s, %s)", a.sort, b.sort, a, b))
	}
	if isLit(a) && isLit(b) {
		return t.False
	}
	if a.sort == SBool {
		if a == t.True {
			return b
		}
		if b == t.True {
			return a
		}
		if a == t.False {
			return t.Not(b)
		}
		if b == t.False {
			return t.Not(a)
		}
		if t.Not(a) == b {
			return t.False
		}
	}
	if a.sort == SInt {
		d := t.Sub(a, b)
		if d.op == OInt {
			return t.Bool(d.k == 0)
		}
		if d.op == OBig {
			return t.False
		}
		if d.op == OLin {
			g := int64(0)
			for _, c := range d.coef {
				g = gcd(g, c)
			}
			if g > 1 && d.k%g != 0 {
				return t.False
			}
		}
	}
	// a part of a text against a literal, character by character
	if b.op == OApp && b.name == "substr" {
		a, b = b, a
	}
	if a.op == OApp && a.name == "substr" && b.op == OStr && len(b.name) <= 64 {
		cs := []*Term{t.Eq(t.Sub(a.args[2], a.args[1]), t.Int(int64(len(b.name))))}
		for i := 0; i < len(b.name); i++ {
			cs = append(cs, t.Eq(t.AppF("strat", SInt, a.args[0], t.AddK(a.args[1], int64(i))), t.Int(int64(b.name[i]))))
		}
		return t.And(cs...)
	}
	// push equality with a literal through ite with literal branches
	if isLit(b) && a.op == OIte {
		return t.Ite(a.args[0], t.Eq(a.args[1], b), t.Eq(a.args[2], b))
	}
	if isLit(a) && b.op == OIte {
		return t.Ite(b.args[0], t.Eq(b.args[1], a), t.Eq(b.args[2], a))
	}
	if a.op == OApp && b.op == OApp && strings.HasPrefix(a.name, "box:") && strings.HasPrefix(b.name, "box:") {
		if a.name != b.name {
			return t.False
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, t.Eq(a.args[i], b.args[i]))
		}
		return t.And(cs...)
	}
	if a.sort == SAny {
		if a.op == OInt && b.op == OApp && strings.HasPrefix(b.name, "box:") || b.op == OInt && a.op == OApp && strings.HasPrefix(a.name, "box:") {
			return t.False
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}}, fmt.Sprintf("=%d,%d", a.id, b.id))
}

// Forall builds a quantified fact; pats are trigger terms (each an alternative).
func (t *TT) Forall(bv *Term, body *Term, pats ...*Term) *Term {
	if body == t.True {
		return t.True
	}
	if !mentions(body, bv) {
		return body
	}
	key := fmt.Sprintf("A%d.%d", bv.id, body.id)
	x := t.mk(&Term{op: OForall, sort: SBool, args: []*Term{bv, body}}, key)
	x.bound = false
	x.syms = body.syms
	// still bound if other bound variables occur
	fv := map[*Term]bool{}
	freeBVs(body, fv)
	delete(fv, bv)
	x.bound = len(fv) > 0
	if x.pats == nil {
		x.pats = pats
	}
	return x
}

func freeBVs(x *Term, out map[*Term]bool) {
	if !x.bound {
		return
	}
	if x.op == OVar {
		if x.isBV {
			out[x] = true
		}
		return
	}
	if x.op == OForall {
		m := map[*Term]bool{}
		freeBVs(x.args[1], m)
		delete(m, x.args[0])
		for k := range m {
			out[k] = true
		}
		return
	}
	for _, a := range x.args {
		freeBVs(a, out)
	}
}

func mentions(x, v *Term) bool {
	if x == v {
		return true
	}
	for _, a := range x.args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}

// Subst replaces terms (usually variables) by terms.
func (t *TT) Subst(x *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return x
	}
	cache := map[*Term]*Term{}
	return t.subst(x, m, cache)
}
func (t *TT) subst(x *Term, m map[*Term]*Term, c map[*Term]*Term) *Term {
	if y, ok := m[x]; ok {
		return y
	}
	if len(x.args) == 0 {
		return x
	}
	if y, ok := c[x]; ok {
		return y
	}
	as := make([]*Term, len(x.args))
	ch := false
	for i, a := range x.args {
		as[i] = t.subst(a, m, c)
		if as[i] != a {
			ch = true
		}
	}
	y := x
	if ch {
		switch x.op {
		case OApp:
			y = t.AppF(x.name, x.sort, as...)
		case ONot:
			y = t.Not(as[0])
		case OAnd:
			y = t.And(as...)
		case OOr:
			y = t.Or(as...)
		case OEq:
			y = t.Eq(as[0], as[1])
		case OLe0:
			y = t.Le0(as[0])
		case OLin:
			y = t.lin(as, x.coef, x.k)
		case OIte:
			y = t.Ite(as[0], as[1], as[2])
		case OForall:
			var ps []*Term
			for _, p := range x.pats {
				ps = append(ps, t.subst(p, m, c))
			}
			y = t.Forall(x.args[0], as[1], ps...)
		default:
			panic("subst: op")
		}
	}
	c[x] = y
	return y
}

// AppF is App with folding of computed functions on literals.
func (t *TT) AppF(name string, s Sort, args ...*Term) *Term {
	if f, ok := foldFns[name]; ok {
		if y := f(t, args); y != nil {
			return y
		}
	}
	return t.App(name, s, args...)
}

// foldFns are functions over literals that are computed; the same table
// instantiates them on literals inside queries.
var foldFns = map[string]func(*TT, []*Term) *Term{}

func (x *Term) String() string {
	var b strings.Builder
	x.str(&b, 0)
	return b.String()
}
func (x *Term) str(b *strings.Builder, d int) {
	if d > 12 {
		b.WriteString("…")
		return
	}
	list := func(h string) {
		b.WriteString("(" + h)
		for _, a := range x.args {
			b.WriteByte(' ')
			a.str(b, d+1)
		}
		b.WriteByte(')')
	}
	switch x.op {
	case OTrue:
		b.WriteString("true")
	case OFalse:
		b.WriteString("false")
	case OInt:
		if x.sort == SInt {
			fmt.Fprintf(b, "%d", x.k)
		} else {
			fmt.Fprintf(b, "%s#%d", x.sort, x.k)
		}
	case OBig:
		b.WriteString(x.name)
	case OStr:
		fmt.Fprintf(b, "%q", x.name)
	case OVar:
		b.WriteString(x.name)
	case OApp:
		list(x.name)
	case ONot:
		list("not")
	case OAnd:
		list("and")
	case OOr:
		list("or")
	case OEq:
		list("=")
	case OLe0:
		b.WriteString("(")
		x.args[0].str(b, d+1)
		b.WriteString(" <= 0)")
	case OLin:
		b.WriteString("(+")
		for i, a := range x.args {
			if x.coef[i] == 1 {
				b.WriteString(" ")
			} else {
				fmt.Fprintf(b, " %d*", x.coef[i])
			}
			a.str(b, d+1)
		}
		if x.k != 0 {
			fmt.Fprintf(b, " %d", x.k)
		}
		b.WriteString(")")
	case OIte:
		list("ite")
	case OForall:
		list("forall")
	}
}

type Unsupported struct{ msg string }

func (u Unsupported) Error() string { return u.msg }
func unsupported(f string, a ...interface{}) Unsupported {
	return Unsupported{fmt.Sprintf(f, a...)}
}
