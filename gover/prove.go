package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// --- SMT back ends ----------------------------------------------------------------------------

type solver struct {
	name  string
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	args  []string
	lines chan string
}

func newSolver(name string, args ...string) *solver { return &solver{name: name, args: args} }

func (s *solver) start() error {
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.lines = make(chan string, 64)
	go func(c chan string) {
		r := bufio.NewReader(out)
		for {
			l, err := r.ReadString('\n')
			if err != nil {
				close(c)
				return
			}
			c <- strings.TrimSpace(l)
		}
	}(s.lines)
	return nil
}

func (s *solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// check sends a self-contained script body and returns sat, unsat or unknown.
func (s *solver) check(script string, timeout time.Duration) string {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return "unknown"
		}
		if s.name == "cvc5" {
			fmt.Fprintf(s.in, "(set-logic ALL)\n")
		}
	}
	if _, err := io.WriteString(s.in, "(push 1)\n"+script+"(check-sat)\n(pop 1)\n"); err != nil {
		s.stop()
		return "unknown"
	}
	for {
		select {
		case l, ok := <-s.lines:
			if !ok {
				s.stop()
				return "unknown"
			}
			switch l {
			case "sat", "unsat", "unknown", "timeout":
				return l
			case "":
			default:
				if strings.Contains(l, "error") {
					lastSMTError = l + "\n" + script
					s.stop()
					return "unknown"
				}
			}
		case <-time.After(timeout):
			s.stop()
			return "unknown"
		}
	}
}

var lastSMTError string

type encoder struct {
	native bool
	b      strings.Builder
	decl   map[string]bool
	names  map[*Term]string
	strs   []string
	strIdx map[string]string
	is     map[*Term][]*Term
	extra  []string
}

func newEncoder(native bool) *encoder {
	return &encoder{native: native, decl: map[string]bool{}, names: map[*Term]string{}, strIdx: map[string]string{}, is: map[*Term][]*Term{}}
}

func clean(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			b.WriteRune(c)
		} else {
			fmt.Fprintf(&b, "_%x_", c)
		}
	}
	return b.String()
}

func (e *encoder) sort(s *Sort) string {
	switch s.kind {
	case KInt:
		return "Int"
	case KBool:
		return "Bool"
	case KStr:
		if e.native {
			return "String"
		}
	}
	n := "S_" + clean(s.name)
	if !e.decl[n] {
		e.decl[n] = true
		fmt.Fprintf(&e.b, "(declare-sort %s 0)\n", n)
	}
	return n
}

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 32 || c > 126 || c == '"' || c == '\\' {
			fmt.Fprintf(&b, "\\u{%x}", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (e *encoder) fun(name string, args []*Term, s *Sort) string {
	key := name
	for _, a := range args {
		key += "." + a.sort.name
	}
	key += ":" + s.name
	n := "f_" + clean(key)
	if !e.decl[n] {
		e.decl[n] = true
		var as []string
		for _, a := range args {
			as = append(as, e.sort(a.sort))
		}
		r := e.sort(s)
		fmt.Fprintf(&e.b, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), r)
	}
	return n
}

func (e *encoder) app(name string, t *Term) string {
	var as []string
	for _, a := range t.args {
		as = append(as, e.term(a))
	}
	f := e.fun(name, t.args, t.sort)
	if len(as) == 0 {
		return f
	}
	return "(" + f + " " + strings.Join(as, " ") + ")"
}

func (e *encoder) list(op string, ts []*Term) string {
	var as []string
	for _, a := range ts {
		as = append(as, e.term(a))
	}
	return "(" + op + " " + strings.Join(as, " ") + ")"
}

func (e *encoder) term(t *Term) string {
	if n, ok := e.names[t]; ok {
		return n
	}
	var r string
	switch t.op {
	case OBool:
		if t.ival != 0 {
			return "true"
		}
		return "false"
	case OStr:
		if e.native {
			return smtString(t.name)
		}
		if n, ok := e.strIdx[t.name]; ok {
			return n
		}
		n := fmt.Sprintf("str_%d", len(e.strs))
		e.strIdx[t.name] = n
		fmt.Fprintf(&e.b, "(declare-const %s %s)\n", n, e.sort(SStr))
		e.strs = append(e.strs, n)
		return n
	case OLin:
		parts := []string{num(t.ival)}
		for i, a := range t.args {
			parts = append(parts, "(* "+num(t.coefs[i])+" "+e.term(a)+")")
		}
		if len(parts) == 1 {
			return parts[0]
		}
		r = "(+ " + strings.Join(parts, " ") + ")"
	case ONot:
		r = e.list("not", t.args)
	case OAnd:
		r = e.list("and", t.args)
	case OOr:
		r = e.list("or", t.args)
	case OEq, OIff:
		r = e.list("=", t.args)
	case OEqZ:
		r = "(= 0 " + e.term(t.args[0]) + ")"
	case OLe:
		r = "(<= " + e.term(t.args[0]) + " 0)"
	case OIte:
		r = e.list("ite", t.args)
	case OSym:
		n := "s_" + clean(t.name) + "_" + fmt.Sprint(t.id)
		fmt.Fprintf(&e.b, "(declare-const %s %s)\n", n, e.sort(t.sort))
		e.names[t] = n
		e.side(t, n)
		return n
	case OBig, OFirst, OBefore:
		n := fmt.Sprintf("big_%d", t.id)
		fmt.Fprintf(&e.b, "(declare-const %s %s)\n", n, e.sort(t.sort))
		e.names[t] = n
		if t.sort == SInt && isNN(t) {
			fmt.Fprintf(&e.b, "(assert (<= 0 %s))\n", n)
		}
		if t.op == OBig && t.name == "int" && !t.fv && isConstIte(t.args[0]) && maxConst(t.args[0]) >= 0 { // a count
			e.extra = append(e.extra, fmt.Sprintf("(<= %s %s)", n, e.term(linScale(mkSLen(t.args[1]), maxConst(t.args[0])))))
		}
		return n
	case OCat:
		if e.native {
			r = e.list("str.++", t.args)
		} else {
			r = e.app("cat", t)
		}
	case OStrLen:
		if e.native {
			r = e.list("str.len", t.args)
		} else {
			r = e.app("strlen", t)
		}
	default:
		name := fmt.Sprintf("op%d_%s_%d", t.op, t.name, t.ival)
		if t.op == OMk || t.op == OSCat || t.op == ONil || t.op == OZeros {
			name = fmt.Sprintf("op%d_%s", t.op, t.sort.name)
		}
		if t.typ != nil {
			name += "_" + tkey(t.typ)
		}
		if t.fv || t.op == OBV {
			name = fmt.Sprint("loose_", t.id)
			n := e.fun(name, nil, t.sort)
			e.names[t] = n
			return n
		}
		r = e.app(name, t)
	}
	n := fmt.Sprintf("t_%d", t.id)
	fmt.Fprintf(&e.b, "(define-fun %s () %s %s)\n", n, e.sort(t.sort), r)
	e.names[t] = n
	e.side(t, n)
	return n
}

func num(v int64) string {
	if v < 0 {
		return fmt.Sprintf("(- %d)", -v)
	}
	return fmt.Sprint(v)
}

// maxConst is the greatest of the constants in an isConstIte.
func maxConst(t *Term) int64 {
	if t.op == OIte {
		return max(maxConst(t.args[1]), maxConst(t.args[2]))
	}
	v, _ := isIntC(t)
	return v
}

// side emits the facts every term of its kind satisfies.
func (e *encoder) side(t *Term, n string) {
	if t.sort == SInt && t.op != OLin && t.op != OIte && isNN(t) {
		e.extra = append(e.extra, fmt.Sprintf("(<= 0 %s)", n))
	}
	switch t.op {
	case OMk:
		for i := range t.args {
			s := raw(Term{op: OSel, sort: t.args[i].sort, name: t.sort.st.Field(i).Name(), ival: int64(i), args: []*Term{t}})
			_ = s
			f := e.fun(fmt.Sprintf("op%d_%s_%d", OSel, t.sort.st.Field(i).Name(), i), []*Term{t}, t.args[i].sort)
			e.extra = append(e.extra, fmt.Sprintf("(= (%s %s) %s)", f, n, e.term(t.args[i])))
		}
	case OIs:
		x := t.args[0]
		for _, o := range e.is[x] {
			e.extra = append(e.extra, fmt.Sprintf("(not (and %s %s))", e.term(o), n))
		}
		e.is[x] = append(e.is[x], t)
		e.extra = append(e.extra, fmt.Sprintf("(=> %s (not (= %s %s)))", n, e.term(x), e.term(mkNil(x.sort))))
	case OBox:
		f := e.fun(fmt.Sprintf("op%d__0_%s", OIs, tkey(t.typ)), []*Term{t}, SBool)
		e.extra = append(e.extra, fmt.Sprintf("(%s %s)", f, n))
		g := e.fun(fmt.Sprintf("op%d__0_%s", OUnbox, tkey(t.typ)), []*Term{t}, t.args[0].sort)
		e.extra = append(e.extra, fmt.Sprintf("(= (%s %s) %s)", g, n, e.term(t.args[0])))
		e.extra = append(e.extra, fmt.Sprintf("(not (= %s %s))", n, e.term(mkNil(t.sort))))
	case OUF:
		if strings.HasPrefix(t.name, "impl:") {
			e.extra = append(e.extra, fmt.Sprintf("(=> %s (not (= %s %s)))", n, e.term(t.args[0]), e.term(mkNil(SAny))))
		}
		if ne(mkNil(SAny), t) {
			e.extra = append(e.extra, fmt.Sprintf("(not (= %s %s))", n, e.term(mkNil(SAny))))
		}
	}
}

func (e *encoder) script(facts []*Term, goal *Term) string {
	var as []string
	for _, f := range facts {
		as = append(as, e.term(f))
	}
	if goal != nil {
		as = append(as, "(not "+e.term(goal)+")")
	}
	if len(e.strs) > 1 {
		fmt.Fprintf(&e.b, "(assert (distinct %s))\n", strings.Join(e.strs, " "))
	}
	for _, x := range e.extra {
		fmt.Fprintf(&e.b, "(assert %s)\n", x)
	}
	for _, a := range as {
		fmt.Fprintf(&e.b, "(assert %s)\n", a)
	}
	return e.b.String()
}

// --- the prover -----------------------------------------------------------------------------

type Prover struct {
	z3, z3s, cvc *solver
	cache        map[string]*Term
	queries      int
	solverTime   time.Duration
	deadline     time.Time
	native       bool
	trace        []string
	backends     map[string]int
	used         string
	x            *Exec
	recEq        map[string]bool
	implied      map[[2]*Term]bool
	normed       map[string]*Term
}

func newProver() *Prover {
	return &Prover{z3: newSolver("z3", "z3", "-in", "-t:2000"), z3s: newSolver("z3", "z3-new", "-in", "-t:4000"), cvc: newSolver("cvc5", "cvc5", "--incremental", "--strings-exp", "--tlimit-per=6000", "--lang=smt2"),
		cache: map[string]*Term{}, backends: map[string]int{}}
}

func (p *Prover) close() { p.z3.stop(); p.z3s.stop(); p.cvc.stop() }

func (p *Prover) smt(s *solver, native bool, facts []*Term, goal *Term, d time.Duration) string {
	e := newEncoder(native)
	sc := e.script(facts, goal)
	t := time.Now()
	r := s.check(sc, d)
	p.solverTime += time.Since(t)
	p.queries++
	if d := os.Getenv("GOVER_SMT"); d != "" {
		os.WriteFile(d, []byte("; "+s.name+" "+r+" "+time.Since(t).String()+"\n"+sc+"(check-sat)\n"), 0o644)
	}
	return r
}

// atomsOf collects the terms facts can talk about.
func atomsOf(t *Term, m map[*Term]bool) {
	walk(t, func(u *Term) bool {
		switch u.op {
		case OAnd, OOr, ONot, OLin, OBool, OStr, ONil, OEqZ, OLe, OEq, OIff, OIte:
			return true
		case OIs:
			m[u.args[0]] = true
			return true
		}
		if !u.fv {
			m[u] = true
		}
		return true
	})
}

func (p *Prover) relevant(pc []*Term, c *Term) []*Term {
	at := map[*Term]bool{}
	atomsOf(c, at)
	used := make([]bool, len(pc))
	fa := make([]map[*Term]bool, len(pc))
	for round := 0; round < 3; round++ {
		changed := false
		for i, f := range pc {
			if used[i] {
				continue
			}
			if fa[i] == nil {
				fa[i] = map[*Term]bool{}
				atomsOf(f, fa[i])
			}
			hit := false
			for a := range fa[i] {
				if at[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
			}
		}
		if !changed {
			break
		}
		for i := range pc {
			if used[i] {
				for a := range fa[i] {
					at[a] = true
				}
			}
		}
	}
	var r []*Term
	for i, f := range pc {
		if used[i] {
			r = append(r, f)
		}
	}
	return r
}

func cacheKey(pc []*Term, c *Term) string {
	ids := make([]int, len(pc))
	for i, f := range pc {
		ids[i] = f.id
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&b, "%d,", i)
	}
	fmt.Fprintf(&b, "|%d", c.id)
	return b.String()
}

// decide returns TTrue or TFalse when the path condition settles c, and nil-like c otherwise.
func (p *Prover) decide(pc []*Term, c *Term) *Term {
	if c.op == OBool {
		return c
	}
	if p.x != nil && len(p.x.axioms) > 0 {
		pc = append(pc[:len(pc):len(pc)], p.x.axioms...)
	}
	rel := p.relevant(pc, c)
	if len(rel) == 0 {
		return c
	}
	k := cacheKey(rel, c)
	if r, ok := p.cache[k]; ok {
		return r
	}
	r := c
	m := factMap(rel)
	if s := subst(c, m); s.op == OBool {
		r = s
	} else {
		if p.smt(p.z3, false, rel, c, 4*time.Second) == "unsat" {
			r = TTrue
		} else if p.smt(p.z3, false, rel, mkNot(c), 4*time.Second) == "unsat" {
			r = TFalse
		}
	}
	p.cache[k] = r
	return r
}

func factMap(pc []*Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, f := range pc {
		if f.op == ONot {
			m[f.args[0]] = TFalse
		} else if f.op != OBool {
			m[f] = TTrue
		}
		if f.op == OLe { // a <= 0 excludes the negation's normal form
			m[mkNotAtom(f)] = TFalse
		}
		if f.op == OEqZ {
			// equal to zero: both bounds hold
			m[mkLe0(f.args[0])] = TTrue
		}
	}
	delete(m, TTrue)
	delete(m, TFalse)
	return m
}

// orient reads a fact as a rewriting  from -> to.
func orient(f *Term) (from, to *Term) {
	switch f.op {
	case OEqZ:
		c, m := toLin(f.args[0])
		var best *Term
		for a, k := range m {
			if k != 1 && k != -1 {
				continue
			}
			rest := map[*Term]int64{}
			for b, kb := range m {
				if b != a {
					rest[b] = kb
				}
			}
			r := fromLin(c, rest)
			if occurs(r, a) {
				continue
			}
			if best == nil || rank(a) > rank(best) || rank(a) == rank(best) && a.id > best.id {
				best = a
			}
		}
		if best == nil {
			return nil, nil
		}
		rest := map[*Term]int64{}
		for b, kb := range m {
			if b != best {
				rest[b] = -kb * m[best]
			}
		}
		val := fromLin(-c*m[best], rest)
		if best.op == OSLen {
			s := best.args[0]
			if v, ok := isIntC(val); ok && v >= 0 && v <= 4 && !s.fv {
				var us []*Term
				for i := int64(0); i < v; i++ {
					us = append(us, mkUnit(mkSAt(s, mkInt(i))))
				}
				if v == 0 {
					return s, mkEmpty(s.sort)
				}
				if s.op == OSym || s.op == OSel || s.op == OUF || s.op == OUnbox {
					// name the elements, so that the substitution does not mention the list itself
					var ns []*Term
					for i := range us {
						ns = append(ns, mkUnit(elemSym(s, i)))
					}
					return s, mkSCat(s.sort, ns...)
				}
			}
			return nil, nil
		}
		if best.op == OStrLen {
			if v, ok := isIntC(val); ok && v == 0 {
				return best.args[0], mkStr("")
			}
			return nil, nil
		}
		if best.op == OSym || best.op == OSel || best.op == OUF || best.op == OUnbox {
			return best, val
		}
	case OEq:
		a, b := f.args[0], f.args[1]
		ra, rb := rank(a), rank(b)
		if ra < rb || ra == rb && a.id < b.id {
			a, b = b, a
		}
		for i := 0; i < 2; i++ {
			if (a.op == OSym || a.op == OSel || a.op == OUF || a.op == OUnbox || a.op == OSAt) && !occurs(b, a) {
				return a, b
			}
			a, b = b, a
		}
	case OIff:
		a, b := f.args[0], f.args[1]
		for i := 0; i < 2; i++ {
			if (a.op == OSym || a.op == OSel || a.op == OUF || a.op == OUnbox) && !occurs(b, a) {
				return a, b
			}
			a, b = b, a
		}
	}
	return nil, nil
}

func elemSym(s *Term, i int) *Term {
	return raw(Term{op: OSym, sort: s.sort.elem, name: fmt.Sprintf("elem%d(#%d)", i, s.id)})
}

func rank(t *Term) int {
	switch t.op {
	case OSym:
		return 3
	case OSel, OUnbox:
		return 4
	case OSLen, OStrLen:
		return 5
	case OUF:
		return 6
	}
	return 1
}

// simplify rewrites the facts and the goal with the facts until nothing changes. ok is false when the
// facts contradict each other.
func (p *Prover) simplify(pc []*Term, goal *Term) ([]*Term, *Term, bool) {
	facts := append([]*Term{}, pc...)
	done := map[*Term]bool{}
	meanings := mentions(facts, goal, "evpos") || mentions(facts, goal, "meaning")
	for round := 0; round < 400; round++ {
		// flatten
		var fs []*Term
		seen := map[*Term]bool{}
		for _, f := range facts {
			for _, g := range flatAnd(f) {
				if g == TFalse {
					return nil, nil, false
				}
				if g != TTrue && !seen[g] {
					seen[g] = true
					fs = append(fs, g)
				}
			}
		}
		facts = fs
		changed := false
		// A condition is opened only once every equality has been used: two names for one condition would
		// be opened into two groups.
		for k := 0; k < 2*len(facts) && !changed; k++ {
			i := k % len(facts)
			f := facts[i]
			if done[f] {
				continue
			}
			var from, to *Term
			if k < len(facts) {
				from, to = orient(f)
			} else if meanings {
				from, to = opened(f)
			}
			if from == nil {
				continue
			}
			done[f] = true
			m := map[*Term]*Term{from: to}
			for j := range facts {
				if j != i {
					facts[j] = subst(facts[j], m)
				}
			}
			goal = subst(goal, m)
			facts[i] = f
			if from.sort.kind == KSeq || f.op == OIs && from.op != OSym {
				facts[i] = raw(Term{op: OEq, sort: SBool, args: []*Term{from, to}})
				done[facts[i]] = true
			}
			changed = true
		}
		if changed {
			continue
		}
		// literals
		m := factMap(facts)
		for i, f := range facts {
			own := f
			neg := f.op == ONot
			if neg {
				own = f.args[0]
			}
			sv, had := m[own]
			delete(m, own)
			g := subst(f, m)
			if had {
				m[own] = sv
			}
			if g != f {
				facts[i] = g
				changed = true
				break
			}
		}
		if !changed {
			goal = subst(goal, m)
			break
		}
	}
	return facts, goal, true
}

type proofState struct {
	depth int
	used  string
}

// prove tries to show that the facts imply the goal.
func (p *Prover) prove(pc []*Term, goal *Term, depth int) bool {
	if goal == TTrue {
		return true
	}
	if time.Now().After(p.deadline) {
		return false
	}
	facts, goal, ok := p.simplify(pc, goal)
	if !ok || goal == TTrue {
		return true
	}
	if goal.op == OAnd {
		for _, g := range goal.args {
			if !p.prove(facts, g, depth) {
				return false
			}
		}
		return true
	}
	if goal.op == OOr && depth > 0 { // move negated alternatives into the facts
		for i, g := range goal.args {
			if g.op == ONot || g.op == OEqZ || g.op == OLe || g.op == OIs || g.op == OUF || g.op == OSym {
				rest := append(append([]*Term{}, goal.args[:i]...), goal.args[i+1:]...)
				return p.prove(append(append([]*Term{}, facts...), mkNot(g)), mkOr(rest...), depth)
			}
		}
	}
	if p.smt(p.z3, false, facts, goal, 4*time.Second) == "unsat" {
		p.note("z3")
		return true
	}
	if depth <= 0 {
		p.fail(facts, goal)
		return false
	}
	if fs, g, changed := p.normFolds(facts, goal); changed {
		return p.prove(fs, g, depth-1)
	}
	// witnesses and instances
	if inst := p.instances(facts, goal); len(inst) > 0 {
		facts = append(facts, inst...)
		if p.smt(p.z3, false, facts, goal, 4*time.Second) == "unsat" {
			p.note("z3")
			return true
		}
	}
	if lem := append(append(p.meaningLemmas(facts, goal), p.foldLemmas(facts, goal)...), p.fresh(textFacts(append([]*Term{goal}, facts...)), facts)...); len(lem) > 0 {
		facts = append(facts[:len(facts):len(facts)], lem...)
		if p.smt(p.z3, false, facts, goal, 4*time.Second) == "unsat" {
			p.note("z3")
			return true
		}
	}
	// no element satisfies: take any element
	if goal.op == ONot && goal.args[0].op == OBig && goal.args[0].name == "or" && !goal.args[0].fv {
		b := goal.args[0]
		seq := b.args[1]
		d, y := freshSym("d", seq.sort), freshSym("x", seq.sort.elem)
		body := open(b.args[0], d, y)
		fs := append(append([]*Term{}, facts...), p.elementFacts(facts, seq, d, y)...)
		fs = append(fs, p.axiomsAt(y, mkAnd(append([]*Term{body}, fs...)...))...)
		return p.prove(fs, mkNot(body), depth-1)
	}
	// case split on a condition of the goal
	if c := pickCond(goal); c != nil {
		switch p.decide(facts, c) {
		case TTrue:
			return p.prove(append(append([]*Term{}, facts...), c), subst(goal, map[*Term]*Term{c: TTrue}), depth-1)
		case TFalse:
			return p.prove(append(append([]*Term{}, facts...), mkNot(c)), subst(goal, map[*Term]*Term{c: TFalse}), depth-1)
		}
		return p.prove(append(append([]*Term{}, facts...), c), goal, depth-1) &&
			p.prove(append(append([]*Term{}, facts...), mkNot(c)), goal, depth-1)
	}
	// congruence of folds
	if m := p.bigCong(facts, goal, depth); len(m) > 0 {
		return p.prove(facts, subst(goal, m), depth-1)
	}
	if goal.op == OEq && goal.args[0].sort == SStr {
		if p.catParts(facts, goal.args[0], goal.args[1], depth) {
			return true
		}
	}
	if goal.op == OEq {
		a, b := goal.args[0], goal.args[1]
		if a.op == b.op && len(a.args) == len(b.args) && len(a.args) > 0 && a.name == b.name && a.ival == b.ival && !isBinder(a.op) && a.op != OCat && a.op != OLin {
			okk := true
			for i := range a.args {
				if a.args[i].sort != b.args[i].sort || a.args[i] != b.args[i] && !p.prove(facts, mkEq(a.args[i], b.args[i]), depth-1) {
					okk = false
					break
				}
			}
			if okk {
				return true
			}
		}
		if a.op == OSCat && b.op == OSCat && len(a.args) == len(b.args) {
			okk := true
			for i := range a.args {
				if a.args[i] != b.args[i] && !p.prove(facts, mkEq(a.args[i], b.args[i]), depth-1) {
					okk = false
					break
				}
			}
			if okk {
				return true
			}
		}
	}
	// case split on a condition or disjunction among the facts
	if c := pickFactCond(facts); c != nil {
		return p.prove(append(append([]*Term{}, facts...), c), goal, depth-2) &&
			p.prove(append(append([]*Term{}, facts...), mkNot(c)), goal, depth-2)
	}
	if p.native {
		if p.smt(p.z3s, true, facts, goal, 6*time.Second) == "unsat" {
			p.note("z3-new(strings)")
			return true
		}
		if p.smt(p.cvc, true, facts, goal, 8*time.Second) == "unsat" {
			p.note("cvc5(strings)")
			return true
		}
	}
	p.fail(facts, goal)
	return false
}

func (p *Prover) note(b string) {
	if !strings.Contains(p.used, b) {
		if p.used != "" {
			p.used += "+"
		}
		p.used += b
	}
}

func (p *Prover) fail(facts []*Term, goal *Term) {
	if len(p.trace) > 3 {
		return
	}
	var b strings.Builder
	fmt.Fprintf(&b, "  goal: %s\n", goal)
	for i, f := range facts {
		if i > 40 {
			break
		}
		fmt.Fprintf(&b, "   under %s\n", f)
	}
	p.trace = append(p.trace, b.String())
}

// pickCond finds the condition of a conditional in the goal, outermost first.
func pickCond(goal *Term) *Term {
	var found *Term
	var queue []*Term
	queue = append(queue, goal)
	seen := map[*Term]bool{}
	for len(queue) > 0 && found == nil {
		t := queue[0]
		queue = queue[1:]
		if seen[t] {
			continue
		}
		seen[t] = true
		if t.op == OIte && !t.args[0].fv {
			c := t.args[0]
			for c.op == OAnd || c.op == OOr || c.op == ONot {
				c = c.args[0]
			}
			return c
		}
		if t.op == OIff {
			for _, a := range t.args {
				if !a.fv && (a.op == OAnd || a.op == OOr) {
					c := a
					for c.op == OAnd || c.op == OOr || c.op == ONot {
						c = c.args[0]
					}
					return c
				}
			}
		}
		queue = append(queue, t.args...)
	}
	return nil
}

func pickFactCond(facts []*Term) *Term {
	for _, f := range facts {
		if f.op == OOr {
			c := f.args[0]
			for c.op == OAnd || c.op == OOr || c.op == ONot {
				c = c.args[0]
			}
			if c.op != OBool {
				return c
			}
		}
	}
	for _, f := range facts {
		if c := pickCond(f); c != nil {
			return c
		}
	}
	return nil
}

func bigsIn(t *Term, out *[]*Term) {
	walk(t, func(u *Term) bool {
		if u.op == OBig && !u.fv {
			*out = append(*out, u)
		}
		return true
	})
}

// bigCong looks for two folds over the same sequence whose bodies are provably equal.
func (p *Prover) bigCong(facts []*Term, goal *Term, depth int) map[*Term]*Term {
	var bs []*Term
	bigsIn(goal, &bs)
	seen := map[*Term]bool{}
	var us []*Term
	for _, b := range bs {
		if !seen[b] {
			seen[b] = true
			us = append(us, b)
		}
	}
	for _, b := range us {
		if r := p.plainFold(facts, b, depth); r != nil {
			return map[*Term]*Term{b: r}
		}
	}
	for i := range us {
		for j := i + 1; j < len(us); j++ {
			a, b := us[i], us[j]
			if a.name != b.name || a.sort != b.sort || a.args[1] != b.args[1] {
				continue
			}
			if p.bodiesEqual(facts, a, b, depth) {
				return map[*Term]*Term{b: a}
			}
		}
	}
	return nil
}

// plainFold evaluates a fold whose body is, for the elements at hand, a constant or the element.
func (p *Prover) plainFold(facts []*Term, b *Term, depth int) *Term {
	seq := b.args[1]
	d, y := freshSym("d", seq.sort), freshSym("x", seq.sort.elem)
	el := p.elementFacts(facts, seq, d, y)
	if len(el) <= 1 {
		return nil
	}
	fs := append(append([]*Term{}, facts...), el...)
	body := open(b.args[0], d, y)
	try := func(goal *Term) bool {
		save := p.trace
		r := p.prove(fs, goal, min(depth-1, 8))
		p.trace = save
		return r
	}
	switch b.name {
	case "int":
		for _, c := range []int64{1, 0} {
			if try(mkIntEq(body, mkInt(c))) {
				return linScale(mkSLen(seq), c)
			}
		}
	case "seq":
		if b.sort == seq.sort && try(mkEq(body, mkUnit(y))) {
			return seq
		}
		if try(mkEq(body, mkEmpty(b.sort))) {
			return mkEmpty(b.sort)
		}
	case "or":
		if try(mkNot(body)) {
			return TFalse
		}
	}
	return nil
}

func (p *Prover) bodiesEqual(facts []*Term, a, b *Term, depth int) bool {
	seq := a.args[1]
	d, y := freshSym("d", seq.sort), freshSym("x", seq.sort.elem)
	ba, bb := open(a.args[0], d, y), open(b.args[0], d, y)
	fs := append([]*Term{}, facts...)
	fs = append(fs, p.elementFacts(facts, seq, d, y)...)
	fs = append(fs, p.axiomsAt(y, mkAnd(append([]*Term{mkEq(ba, bb)}, fs...)...))...)
	save := p.trace
	r := p.prove(fs, mkEq(ba, bb), depth-1)
	if r {
		p.trace = save
	}
	return r
}

// foldLemmas: "some element satisfies A" implies "some element satisfies B" when A implies B for
// every element.
func (p *Prover) foldLemmas(facts []*Term, goal *Term) []*Term {
	var ors []*Term
	collect := func(u *Term) bool {
		if u.op == OBig && u.name == "or" && !u.fv {
			ors = append(ors, u)
		}
		return u.op != OBig
	}
	seen := map[*Term]bool{}
	walkM(goal, collect, seen)
	for _, f := range facts {
		walkM(f, collect, seen)
	}
	var r []*Term
	for _, a := range ors {
		// an element that is not the first satisfies it only in a list of two or more
		seq := a.args[1]
		d := freshSym("d", seq.sort)
		first := subst(open(a.args[0], d, freshSym("x", seq.sort.elem)), map[*Term]*Term{d: mkEmpty(seq.sort)})
		if _, short := isIntC(mkSLen(seq)); !short && first == TFalse {
			r = append(r, mkOr(mkNot(a), mkLeq(mkInt(2), mkSLen(seq))))
		}
	}
	if len(ors) < 2 || len(ors) > 20 {
		return r
	}
	for _, a := range ors {
		for _, b := range ors {
			if a == b || a.args[1] != b.args[1] {
				continue
			}
			k := [2]*Term{a, b}
			ok, done := p.implied[k]
			if !done {
				seq := a.args[1]
				d, y := freshSym("d", seq.sort), freshSym("x", seq.sort.elem)
				ba, bb := open(a.args[0], d, y), open(b.args[0], d, y)
				fs := append(p.axiomsAt(y, mkAnd(ba, bb)), mkLt(mkSLen(d), mkSLen(seq)), ba)
				ok = p.smt(p.z3, false, fs, bb, 3*time.Second) == "unsat"
				if p.implied == nil {
					p.implied = map[[2]*Term]bool{}
				}
				p.implied[k] = ok
			}
			if ok {
				r = append(r, mkOr(mkNot(a), b))
			}
		}
	}
	return r
}

// axiomsAt instantiates the facts about library functions recorded for the element of some loop at
// another element: they hold of all values.
func (p *Prover) axiomsAt(y, about *Term) []*Term {
	if p.x == nil || len(p.x.axioms) == 0 {
		return nil
	}
	var all []*Term
	done := map[*Term]bool{}
	for _, a := range p.x.axioms {
		syms := map[*Term]bool{}
		walk(a, func(u *Term) bool {
			if u.op == OSym && u.sort == y.sort && u != y {
				syms[u] = true
			}
			return true
		})
		if len(syms) != 1 {
			continue
		}
		for s := range syms {
			if f := subst(a, map[*Term]*Term{s: y}); f != TTrue && !done[f] {
				done[f] = true
				all = append(all, f)
			}
		}
	}
	if len(all) == 0 {
		return nil
	}
	return p.relevant(all, about)
}

// elementFacts: what holds for an arbitrary element y of seq with prefix d.
func (p *Prover) elementFacts(facts []*Term, seq, d, y *Term) []*Term {
	fs := []*Term{mkLt(mkSLen(d), mkSLen(seq))}
	for _, f := range facts {
		if f.op == ONot && f.args[0].op == OBig && f.args[0].name == "or" && f.args[0].args[1] == seq {
			fs = append(fs, mkNot(open(f.args[0].args[0], d, y)), mkNot(mkBigRaw("or", SBool, f.args[0].args[0], d)))
		}
	}
	return fs
}

// instances derives facts about known elements from universally quantified facts, and from
// existential goals.
func (p *Prover) instances(facts []*Term, goal *Term) []*Term {
	var univ []*Term
	for _, f := range facts {
		if f.op == ONot && f.args[0].op == OBig && f.args[0].name == "or" && !f.args[0].fv {
			univ = append(univ, f.args[0])
		}
	}
	alts := []*Term{goal}
	if goal.op == OOr {
		alts = goal.args
	}
	for _, g := range alts {
		if g.op == OBig && g.name == "or" && !g.fv {
			univ = append(univ, g)
		}
	}
	var res []*Term
	done := map[*Term]bool{}
	first := map[*Term]bool{}
	exists := func(y *Term) {
		if y.fv || first[y] || len(first) > 40 {
			return
		}
		first[y] = true
		s := y.args[1]
		d := raw(Term{op: OBefore, sort: s.sort, args: y.args})
		if f := mkIff(mkLt(mkSLen(d), mkSLen(s)), mkBigRaw("or", SBool, y.args[0], s)); f != TTrue {
			res = append(res, f)
		}
	}
	at := func(y *Term) {
		if y.fv || done[y] || len(res) > 60 {
			return
		}
		done[y] = true
		for _, u := range univ {
			s := u.args[1]
			var inside, d *Term
			switch {
			case y.op == OFirst && y.args[1] == s:
				d = raw(Term{op: OBefore, sort: s.sort, args: y.args})
				inside = mkOr(mkBigRaw("or", SBool, y.args[0], s), mkLt(mkSLen(d), mkSLen(s)))
			case y.op == OSAt && y.args[0] == s:
				d = mkSTake(s, y.args[1])
				inside = mkAnd(mkLeq(mkInt(0), y.args[1]), mkLt(y.args[1], mkSLen(s)))
			default:
				continue
			}
			if f := mkOr(mkNot(inside), mkNot(open(u.args[0], d, y))); f != TTrue {
				res = append(res, f)
			}
		}
	}
	visit := func(t *Term) bool {
		if t.op == OFirst {
			exists(t)
		}
		if t.op == OFirst || t.op == OSAt {
			at(t)
		}
		return true
	}
	seen := map[*Term]bool{}
	for _, f := range facts {
		walkM(f, visit, seen)
	}
	walkM(goal, visit, seen)
	return res
}

// fresh are the facts that are not among those known.
func (p *Prover) fresh(fs, known []*Term) (r []*Term) {
	have := map[*Term]bool{TTrue: true}
	for _, f := range known {
		have[f] = true
	}
	for _, f := range fs {
		if !have[f] {
			have[f] = true
			r = append(r, f)
		}
	}
	return r
}

// catParts compares two concatenations part by part.
func (p *Prover) catParts(facts []*Term, a, b *Term, depth int) bool {
	x, y := catArgs(a), catArgs(b)
	if len(x) != len(y) || len(x) < 2 {
		return false
	}
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		if x[i].op == OStr || y[i].op == OStr {
			return false
		}
		if !p.prove(facts, mkEq(x[i], y[i]), depth-1) {
			return false
		}
	}
	return true
}

// relevantAx adds the library facts that speak about terms of the facts or the goal.
func (p *Prover) relevantAx(pc []*Term, goal *Term) []*Term {
	if p.x == nil || len(p.x.axioms) == 0 {
		return pc
	}
	return append(pc[:len(pc):len(pc)], p.relevant(p.x.axioms, mkAnd(append([]*Term{mkNot(goal)}, pc...)...))...)
}
