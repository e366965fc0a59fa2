package main

// SMT-LIB back end: one incremental z3 process per engine, with the path
// condition kept as a push/pop stack.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// PC is a path condition: a linked list of asserted terms.
type PC struct {
	parent *PC
	t      *Term
	depth  int
	note   string
}

func (p *PC) add(t *Term) *PC {
	if t.op == OTrue {
		return p
	}
	d := 1
	if p != nil {
		d = p.depth + 1
	}
	return &PC{parent: p, t: t, depth: d}
}
func (p *PC) list() []*PC {
	n := 0
	if p != nil {
		n = p.depth
	}
	out := make([]*PC, n)
	for q := p; q != nil; q = q.parent {
		out[q.depth-1] = q
	}
	return out
}
func (p *PC) has(t *Term) bool {
	for q := p; q != nil; q = q.parent {
		if q.t == t {
			return true
		}
	}
	return false
}

type Solver struct {
	tt       *TT
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.Closer
	out      *bufio.Reader
	stack    []level
	declared map[string]bool
	defined  map[*Term]string
	queries  int
	bytype   map[string]int
	time     time.Duration
	unknowns int
	fallback map[string]int
	log      io.Writer
	timeout  int
	decls    []string // declarations and definitions, for standalone scripts
}
type level struct {
	pc  *PC
	ax  map[*Term]bool
	lit map[litKey]bool
	// apps of computed functions and literals present so far (cumulative)
}
type litKey struct {
	a *Term
	l *Term
}

func newSolver(tt *TT) *Solver {
	s := &Solver{tt: tt, bytype: map[string]int{}, fallback: map[string]int{}, timeout: 6000}
	if f := os.Getenv("GOVER_SMTLOG"); f != "" {
		w, _ := os.Create(f)
		s.log = w
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.declared = map[string]bool{}
	s.defined = map[*Term]string{}
	s.stack = nil
	s.decls = nil
	s.cmd = exec.Command("z3", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.inc, s.out = bufio.NewWriterSize(in, 1<<16), in, bufio.NewReader(out)
	for _, o := range preamble {
		s.send(o)
	}
	s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
}

var preamble = []string{
	"(set-option :global-declarations true)",
	"(set-option :auto_config false)",
	"(set-option :smt.mbqi false)",
	"(set-option :smt.random_seed 1)",
}

func (s *Solver) close() {
	s.in.Flush()
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
	if s.log != nil {
		fmt.Fprintln(s.log, l)
	}
}

func smtSort(s Sort) string {
	if s == SBool {
		return "Bool"
	}
	return "Int"
}

func num(k int64) string {
	if k < 0 {
		return "(- " + strings.TrimPrefix(fmt.Sprint(k), "-") + ")"
	}
	return fmt.Sprint(k)
}

func (s *Solver) declare(name string, args []*Term, ret Sort) string {
	q := "|" + name + "|"
	key := name + "/" + ret.String()
	for _, a := range args {
		key += a.sort.String()
	}
	q = "|" + key + "|"
	if !s.declared[key] {
		s.declared[key] = true
		var as []string
		for _, a := range args {
			as = append(as, smtSort(a.sort))
		}
		d := fmt.Sprintf("(declare-fun %s (%s) %s)", q, strings.Join(as, " "), smtSort(ret))
		s.decls = append(s.decls, d)
		s.send(d)
	}
	return q
}

// emit returns SMT text for a term, defining shared ground terms by name.
func (s *Solver) emit(x *Term) string {
	if d, ok := s.defined[x]; ok {
		return d
	}
	r := s.body(x)
	if !x.bound && len(x.args) > 0 && x.op != ONot && len(r) > 24 {
		n := fmt.Sprintf("d!%d", x.id)
		d := fmt.Sprintf("(define-fun %s () %s %s)", n, smtSort(x.sort), r)
		s.decls = append(s.decls, d)
		s.send(d)
		s.defined[x] = n
		return n
	}
	if !x.bound {
		s.defined[x] = r
	}
	return r
}

func (s *Solver) body(x *Term) string {
	list := func(h string) string {
		var b strings.Builder
		b.WriteString("(" + h)
		for _, a := range x.args {
			b.WriteByte(' ')
			b.WriteString(s.emit(a))
		}
		b.WriteByte(')')
		return b.String()
	}
	switch x.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OInt, OStr:
		return num(x.k)
	case OBig:
		if strings.HasPrefix(x.name, "-") {
			return "(- " + x.name[1:] + ")"
		}
		return x.name
	case OVar:
		if x.isBV {
			return "|" + x.name + "|"
		}
		return s.declare(x.name, nil, x.sort)
	case OApp:
		f := s.declare(x.name, x.args, x.sort)
		if len(x.args) == 0 {
			return f
		}
		return list(f)
	case ONot:
		return list("not")
	case OAnd:
		return list("and")
	case OOr:
		return list("or")
	case OEq:
		return list("=")
	case OIte:
		return list("ite")
	case OLe0:
		return "(<= " + s.emit(x.args[0]) + " 0)"
	case OLin:
		var b strings.Builder
		b.WriteString("(+")
		for i, a := range x.args {
			b.WriteByte(' ')
			if x.coef[i] == 1 {
				b.WriteString(s.emit(a))
			} else {
				fmt.Fprintf(&b, "(* %s %s)", num(x.coef[i]), s.emit(a))
			}
		}
		b.WriteString(" " + num(x.k) + ")")
		return b.String()
	case OForall:
		v := x.args[0]
		body := s.emit(x.args[1])
		var pats strings.Builder
		for _, p := range x.pats {
			fmt.Fprintf(&pats, " :pattern (%s)", s.emit(p))
		}
		if pats.Len() > 0 {
			body = "(! " + body + pats.String() + ")"
		}
		return fmt.Sprintf("(forall ((|%s| %s)) %s)", v.name, smtSort(v.sort), body)
	}
	panic("emit")
}

// support collects the axioms of all subterms of x.
func support(x *Term, seen map[*Term]bool, visit func(*Term)) {
	if seen[x] {
		return
	}
	seen[x] = true
	visit(x)
	for _, a := range x.args {
		support(a, seen, visit)
	}
	for _, p := range x.pats {
		support(p, seen, visit)
	}
}

type ctxInfo struct {
	ax   map[*Term]bool
	apps map[*Term]bool
	lits map[*Term]bool
	done map[litKey]bool
	seen map[*Term]bool
}

func newCtx() *ctxInfo {
	return &ctxInfo{map[*Term]bool{}, map[*Term]bool{}, map[*Term]bool{}, map[litKey]bool{}, map[*Term]bool{}}
}

// closure of definitional axioms for the given assertions.  Returns the
// additional facts to assert.
func (s *Solver) closure(ctx *ctxInfo, ts []*Term) []*Term {
	var out []*Term
	work := append([]*Term(nil), ts...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		support(x, ctx.seen, func(y *Term) {
			if !y.bound {
				for _, a := range y.ax {
					if !ctx.ax[a] {
						ctx.ax[a] = true
						out = append(out, a)
						work = append(work, a)
					}
				}
				if y.op == OApp {
					if _, ok := foldFns[y.name]; ok && len(y.args) > 0 && y.args[0].sort == SStr {
						ctx.apps[y] = true
					}
				}
			}
			if y.op == OStr {
				ctx.lits[y] = true
			}
		})
		if len(work) == 0 {
			for a := range ctx.apps {
				for l := range ctx.lits {
					k := litKey{a, l}
					if ctx.done[k] {
						continue
					}
					ctx.done[k] = true
					args := append([]*Term{l}, a.args[1:]...)
					v := foldFns[a.name](s.tt, args)
					if v == nil {
						continue
					}
					f := s.tt.Implies(s.tt.Eq(a.args[0], l), s.tt.Eq(a, v))
					if f != s.tt.True {
						out = append(out, f)
						work = append(work, f)
					}
				}
			}
		}
	}
	return out
}

// check asks whether pc ∧ extra is satisfiable: "unsat", "sat" or "unknown".
func (s *Solver) check(pc *PC, extra *Term, kind string) string {
	if extra != nil && extra.op == OFalse {
		return "unsat"
	}
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	s.bytype[kind]++
	if len(s.decls) > 60000 {
		s.close()
		s.start()
	}
	want := pc.list()
	// sync
	n := 0
	for n < len(s.stack) && n < len(want) && s.stack[n].pc == want[n] {
		n++
	}
	if n < len(s.stack) {
		s.send(fmt.Sprintf("(pop %d)", len(s.stack)-n))
		s.stack = s.stack[:n]
	}
	for ; n < len(want); n++ {
		tx := s.emit(want[n].t)
		s.send("(push 1)")
		s.send("(assert " + tx + ")")
		s.stack = append(s.stack, level{pc: want[n]})
	}
	// axioms are recomputed per query (cheap, memoised per pc node)
	var all []*Term
	for _, w := range want {
		all = append(all, w.t)
	}
	if extra != nil {
		all = append(all, extra)
	}
	facts := s.closure(newCtx(), all)
	var lines []string
	for _, f := range facts {
		lines = append(lines, s.emit(f))
	}
	ex := ""
	if extra != nil {
		ex = s.emit(extra)
	}
	s.send("(push 1)")
	for _, l := range lines {
		s.send("(assert " + l + ")")
	}
	if ex != "" {
		s.send("(assert " + ex + ")")
	}
	s.send("(check-sat)")
	s.in.Flush()
	r, err := s.out.ReadString('\n')
	if err != nil {
		s.close()
		s.start()
		return "unknown"
	}
	r = strings.TrimSpace(r)
	if strings.HasPrefix(r, "(error") {
		panic(unsupported("solver: %s", r))
	}
	s.send("(pop 1)")
	if r == "unknown" {
		s.unknowns++
	}
	return r
}

// script renders the query standalone for another back end.
func (s *Solver) script(pc *PC, extra *Term) string {
	var all []*Term
	for _, w := range pc.list() {
		all = append(all, w.t)
	}
	all = append(all, extra)
	facts := s.closure(newCtx(), all)
	var tail []string
	for _, f := range append(all, facts...) {
		tail = append(tail, "(assert "+s.emit(f)+")")
	}
	return "(set-logic UFLIA)\n" + strings.Join(s.decls, "\n") + "\n" + strings.Join(tail, "\n") + "\n(check-sat)\n"
}

// prove decides validity of goal under pc; other back ends get a second try.
func (s *Solver) prove(pc *PC, goal *Term) (string, string) {
	neg := s.tt.Not(goal)
	r := s.check(pc, neg, "prove")
	if r != "unknown" {
		return r, "z3-4.8.12"
	}
	sc := s.script(pc, neg)
	f, err := os.CreateTemp("", "gover*.smt2")
	if err != nil {
		return r, "z3-4.8.12"
	}
	defer os.Remove(f.Name())
	f.WriteString(sc)
	f.Close()
	for _, b := range [][]string{{"cvc5", "--tlimit=4000"}, {"z3-new", "-T:4"}} {
		t0 := time.Now()
		o, _ := exec.Command(b[0], append(b[1:], f.Name())...).Output()
		s.time += time.Since(t0)
		l := strings.TrimSpace(strings.SplitN(string(o), "\n", 2)[0])
		if l == "unsat" || l == "sat" {
			s.fallback[b[0]]++
			return l, b[0]
		}
	}
	return r, "z3-4.8.12"
}
