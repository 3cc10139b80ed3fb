package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"time"
)

// Symbolic executor: strongest postconditions over the typed syntax tree of the real code.
// Branches are joined again where they meet, so one function has one symbolic outcome per way
// of leaving it; panics are outcomes too.

type Region struct {
	val     *Term
	exact   bool // capacity equals length: append always reallocates
	spare   bool // an append may have used the spare capacity already
	globals bool
}

type State struct {
	cells  map[int]*Term
	regs   map[int]Region
	frozen map[int]bool // cells whose address was put into an interface
	pc     []*Term
	dead   bool
	defers []deferred
}

// deferred is a call to make when the function of the frame returns.
type deferred struct {
	fr *Frame
	fn func(*State)
}

func (s *State) clone() *State {
	n := &State{cells: make(map[int]*Term, len(s.cells)), regs: make(map[int]Region, len(s.regs)), frozen: make(map[int]bool, len(s.frozen)), dead: s.dead}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	for k, v := range s.frozen {
		n.frozen[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.defers = s.defers[:len(s.defers):len(s.defers)]
	return n
}

func (s *State) assume(t *Term) {
	if t == TTrue {
		return
	}
	if t == TFalse {
		s.dead = true
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.pc = append(s.pc, a)
		}
		return
	}
	s.pc = append(s.pc, t)
}

type Panic struct {
	st       *State
	explicit bool // panic statement; otherwise a run-time error
	what     string
	pos      token.Pos
	stack    []string
}

type OutKind int

const (
	ONormal OutKind = iota
	OReturn
	OBreak
	OContinue
)

type Out struct {
	st    *State
	kind  OutKind
	label string
	vals  []*Term
}

type Frame struct {
	fn     *types.Func
	env    map[types.Object]int
	ts     map[*types.TypeParam]types.Type
	res    []types.Object // result variables
	sig    *types.Signature
	parent *Frame
	cut    int // len(pc) at entry
}

func (f *Frame) lookup(o types.Object) (int, bool) {
	for g := f; g != nil; g = g.parent {
		if c, ok := g.env[o]; ok {
			return c, true
		}
	}
	return 0, false
}

type Obligation struct {
	name   string
	kind   string
	pos    string
	fn     string // contract function
	pc     []*Term
	goal   *Term
	ok     bool
	how    string
	detail string
	ms     int64
}

type closure struct {
	lit *ast.FuncLit
	fr  *Frame
	fn  *types.Func // function or method value
	rcv *Term
}

type Exec struct {
	invDepth     int
	modular      map[string]bool // functions known by their contract only
	safe         int             // run-time checks shown to succeed while executing
	p            *Program
	pr           *Prover
	nextCell     int
	nextReg      int
	panics       *[]*Panic
	obls         []*Obligation
	cur          string // current contract
	stack        []string
	fstack       []*types.Func
	closures     []closure
	used         map[string]bool // functions of /repo whose bodies were verified
	assumed      map[string]bool // assumptions used
	frame        []string        // frame violations: writes to memory owned by somebody else
	recf         map[*types.Func]bool
	methDepth    int
	recFn        map[string]*types.Func
	force        *types.Func // the next call of this function is executed even if it is recursive
	deadline     time.Time
	quiet        int // >0: obligations are not collected (dry runs)
	ghostW       int
	loops        int
	covers       int
	mode         string
	unsupp       map[string]bool
	tried        []*Panic
	axioms       []*Term
	provedInline int
	axiomSet     map[*Term]bool
	entryOf      map[*Term]*Term // entries walked by a loop over a map: the map
}

type unsupported struct{ msg string }

func (x *Exec) bad(pos token.Pos, f string, a ...any) {
	panic(unsupported{x.p.pos(pos) + ": " + fmt.Sprintf(f, a...)})
}

func (x *Exec) newCell(st *State, v *Term) int {
	x.nextCell++
	st.cells[x.nextCell] = v
	return x.nextCell
}

func (x *Exec) newRegion(st *State, v *Term, exact bool) *Term {
	x.nextReg++
	if v.sort.kind != KSeq {
		panic("region sort " + v.sort.name)
	}
	st.regs[x.nextReg] = Region{val: v, exact: exact}
	return raw(Term{op: ORef, sort: v.sort, ival: int64(x.nextReg)})
}

func mkPtr(s *Sort, cell int) *Term { return raw(Term{op: OPtr, sort: s, ival: int64(cell)}) }

// deref replaces heap references by their current contents.
func (x *Exec) deref(st *State, t *Term) *Term {
	t = x.derefM(st, t, map[*Term]*Term{})
	return t
}

func (x *Exec) derefM(st *State, t *Term, memo map[*Term]*Term) *Term {
	if isWrap(t) {
		return x.derefM(st, t.args[0], memo)
	}
	if !t.ref && !hasClip(t) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case ORef:
		r = x.derefM(st, st.regs[int(t.ival)].val, memo)
	case OPtr:
		r = raw(Term{op: OPtrTo, sort: t.sort, args: []*Term{x.derefM(st, st.cells[int(t.ival)], memo)}})
	default:
		if isBinder(t.op) {
			d, y := freshSym("d", t.args[1].sort), freshSym("x", t.args[1].sort.elem)
			body := x.derefM(st, open(t.args[0], d, y), memo)
			seq := x.derefM(st, t.args[1], memo)
			if t.op == OBig {
				r = mkBig(t.name, t.sort, d, y, body, seq)
			} else {
				r = mkFirst(t.op, d, y, body, seq)
			}
		} else {
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = x.derefM(st, a, memo)
			}
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

var clipMemo = map[*Term]bool{}

func hasClip(t *Term) bool {
	if v, ok := clipMemo[t]; ok {
		return v
	}
	r := isWrap(t)
	for _, a := range t.args {
		if r {
			break
		}
		r = hasClip(a)
	}
	clipMemo[t] = r
	return r
}

// --- merging -----------------------------------------------------------------------

func (x *Exec) mergeVal(out *State, g *Term, a, b *Term, sa, sb *State) *Term {
	if a == b {
		if a.op == ORef {
			return a
		}
		return a
	}
	if !a.ref && !b.ref {
		return mkIte(g, a, b)
	}
	if a.sort.kind == KSeq {
		va, vb := x.deref1(sa, a), x.deref1(sb, b)
		exact := true
		spare := false
		for _, p := range []struct {
			t *Term
			s *State
		}{{a, sa}, {b, sb}} {
			if p.t.op == ORef {
				r := p.s.regs[int(p.t.ival)]
				exact = exact && r.exact
				spare = spare || r.spare
			} else if !isEmptySeq(p.t) {
				// one side is memory of somebody else: treat the joined value as shared
				return mkIte(g, va, vb)
			}
		}
		r := x.newRegion(out, mkIte(g, va, vb), exact)
		reg := out.regs[int(r.ival)]
		reg.spare = spare
		out.regs[int(r.ival)] = reg
		return r
	}
	if a.sort.kind == KStruct && a.op == OMk && b.op == OMk {
		fs := make([]*Term, len(a.args))
		for i := range fs {
			fs[i] = x.mergeVal(out, g, a.args[i], b.args[i], sa, sb)
		}
		return mkMk(a.sort, fs...)
	}
	if a.sort.kind == KStruct && (a.op == OMk || b.op == OMk) && a.op != OIte && b.op != OIte {
		n := a.sort.st.NumFields()
		fs := make([]*Term, n)
		for i := range fs {
			fs[i] = x.mergeVal(out, g, mkSel(a, i), mkSel(b, i), sa, sb)
		}
		return mkMk(a.sort, fs...)
	}
	if a.op == OBox && b.op == OBox && types.Identical(a.typ, b.typ) {
		return mkBox(a.typ, x.mergeVal(out, g, a.args[0], b.args[0], sa, sb))
	}
	if a.op == OPtr || b.op == OPtr {
		if a.op == ONil || b.op == ONil || a.op == OPtr && b.op == OPtr {
			return mkIte(g, a, b)
		}
	}
	return mkIte(g, a, b)
}

func (x *Exec) deref1(st *State, t *Term) *Term {
	for t.op == ORef {
		t = st.regs[int(t.ival)].val
	}
	if isWrap(t) {
		return t.args[0]
	}
	return t
}

func delta(st *State, n int) *Term {
	if n > len(st.pc) {
		n = len(st.pc)
	}
	return mkAnd(st.pc[n:]...)
}

// merge joins states forked from a common state with n facts.
func (x *Exec) merge(n int, sts []*State, valss [][]*Term) (*State, []*Term) {
	var live []int
	for i, s := range sts {
		if !s.dead {
			live = append(live, i)
		}
	}
	if len(live) == 0 {
		if len(sts) == 0 {
			return nil, nil
		}
		return sts[0], valss[0]
	}
	if len(live) == 1 {
		return sts[live[0]], valss[live[0]]
	}
	i0 := live[0]
	acc := sts[i0].clone()
	vals := append([]*Term{}, valss[i0]...)
	gacc := delta(sts[i0], n)
	for _, i := range live[1:] {
		s := sts[i]
		if len(s.defers) != len(acc.defers) {
			panic(unsupported{"deferred call on some paths only"})
		}
		gi := delta(s, n)
		// the new state is chosen when its own condition holds
		guard := x.mergeGuard(gi, gacc)
		out := acc.clone()
		for k, v := range s.regs {
			if o, ok := out.regs[k]; !ok {
				out.regs[k] = v
			} else if o != v {
				out.regs[k] = Region{val: mkIte(guard, v.val, o.val), exact: o.exact && v.exact, spare: o.spare || v.spare}
			}
		}
		ids := make([]int, 0, len(s.cells))
		for k := range s.cells {
			ids = append(ids, k)
		}
		sort.Ints(ids)
		for _, k := range ids {
			v := s.cells[k]
			if o, ok := out.cells[k]; !ok {
				out.cells[k] = v
			} else if o != v {
				out.cells[k] = x.mergeVal(out, guard, v, o, s, acc)
			}
		}
		for k := range s.frozen {
			out.frozen[k] = true
		}
		for j := range vals {
			vals[j] = x.mergeVal(out, guard, s2(valss[i], j), vals[j], s, acc)
		}
		gacc = orFactored(gacc, gi)
		acc = out
	}
	acc.pc = append(sts[i0].pc[:n:n], flatAnd(gacc)...)
	return acc, vals
}

// orFactored is a disjunction of two conjunctions with the common part taken out.
func orFactored(a, b *Term) *Term {
	in := map[*Term]bool{}
	for _, t := range flatAnd(a) {
		in[t] = true
	}
	var common, rb []*Term
	isC := map[*Term]bool{}
	for _, t := range flatAnd(b) {
		if in[t] {
			common = append(common, t)
			isC[t] = true
		} else {
			rb = append(rb, t)
		}
	}
	var ra []*Term
	for _, t := range flatAnd(a) {
		if !isC[t] {
			ra = append(ra, t)
		}
	}
	if len(ra) == 0 || len(rb) == 0 {
		return mkAnd(common...)
	}
	// (c and p) or (not c and q)  =  (c or q) and (not c or p)
	for i, t := range ra {
		n := mkNotAtom(t)
		for j, u := range rb {
			if u == n {
				pa := mkAnd(append(append([]*Term{}, ra[:i]...), ra[i+1:]...)...)
				pb := mkAnd(append(append([]*Term{}, rb[:j]...), rb[j+1:]...)...)
				return mkAnd(append(common, mkImp(t, pa), mkImp(u, pb))...)
			}
		}
	}
	return mkAnd(append(common, mkOr(mkAnd(ra...), mkAnd(rb...)))...)
}

func s2(v []*Term, j int) *Term { return v[j] }

func flatAnd(t *Term) []*Term {
	if t == TTrue {
		return nil
	}
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

// mergeGuard simplifies a guard when both alternatives are complementary up to common facts.
func (x *Exec) mergeGuard(gi, gacc *Term) *Term {
	in := map[*Term]bool{}
	for _, t := range flatAnd(gacc) {
		in[t] = true
	}
	var diff []*Term
	for _, t := range flatAnd(gi) {
		if !in[t] {
			diff = append(diff, t)
		}
	}
	for _, t := range diff {
		if in[mkNotAtom(t)] {
			return t
		}
	}
	return mkAnd(diff...)
}

// --- panics --------------------------------------------------------------------------

func (x *Exec) panicIf(st *State, cond *Term, explicit bool, what string, pos token.Pos) {
	if st.dead || cond == TFalse {
		return
	}
	if x.decide(st, cond) == TFalse {
		x.safe++
		st.assume(mkNot(cond))
		return
	}
	ps := st.clone()
	ps.assume(cond)
	*x.panics = append(*x.panics, &Panic{st: ps, explicit: explicit, what: what, pos: pos, stack: append([]string{}, x.stack...)})
	st.assume(mkNot(cond))
}

func (x *Exec) decide(st *State, c *Term) *Term {
	c = x.deref(st, c)
	if c.op == OBool {
		return c
	}
	n := mkNotAtom(c)
	for _, p := range st.pc {
		if p == c {
			return TTrue
		}
		if p == n {
			return TFalse
		}
	}
	return x.pr.decide(st.pc, c)
}

// --- functions -----------------------------------------------------------------------

func (x *Exec) typ(fr *Frame, t types.Type) types.Type { return substType(fr, t) }

func substType(fr *Frame, t types.Type) types.Type {
	var m map[*types.TypeParam]types.Type
	for g := fr; g != nil; g = g.parent {
		if g.ts != nil {
			m = g.ts
			break
		}
	}
	return substT(m, t)
}

func substT(m map[*types.TypeParam]types.Type, t types.Type) types.Type {
	if len(m) == 0 || t == nil {
		return t
	}
	switch u := t.(type) {
	case *types.TypeParam:
		if r, ok := m[u]; ok {
			return r
		}
	case *types.Slice:
		if e := substT(m, u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Pointer:
		if e := substT(m, u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Named:
		if ta := u.TypeArgs(); ta != nil && ta.Len() > 0 {
			var as []types.Type
			ch := false
			for i := 0; i < ta.Len(); i++ {
				a := substT(m, ta.At(i))
				ch = ch || a != ta.At(i)
				as = append(as, a)
			}
			if ch {
				if r, err := types.Instantiate(nil, u.Origin(), as, false); err == nil {
					return r
				}
			}
		}
	case *types.Signature:
		ch := false
		tup := func(tp *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < tp.Len(); i++ {
				v := tp.At(i)
				nt := substT(m, v.Type())
				if nt != v.Type() {
					ch = true
				}
				vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), nt))
			}
			return types.NewTuple(vs...)
		}
		ps, rs := tup(u.Params()), tup(u.Results())
		if ch {
			return types.NewSignatureType(nil, nil, nil, ps, rs, u.Variadic())
		}
	}
	return t
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// convert adapts a value of type from to type to (boxing, untyped nil).
func (x *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	if to == nil || from == nil {
		return v
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zeroOf(to)
	}
	if isIface(to) && !isIface(from) {
		if v.sort == SAny && v.op != ONil && sortOf(from).kind != KAny {
			return v
		}
		if v.op == OPtr {
			st.frozen[int(v.ival)] = true
		}
		from = types.Default(from)
		return mkBox(from, v)
	}
	return v
}

func zeroOf(t types.Type) *Term {
	s := sortOf(t)
	switch s.kind {
	case KInt:
		return mkInt(0)
	case KBool:
		return TFalse
	case KStr:
		return mkStr("")
	case KTmpl:
		return mkTCat()
	case KSeq:
		if a, ok := t.Underlying().(*types.Array); ok {
			return mkZeros(mkInt(a.Len()), zeroOf(a.Elem()))
		}
		return mkEmpty(s)
	case KStruct:
		fs := make([]*Term, s.st.NumFields())
		for i := range fs {
			fs[i] = zeroOf(s.st.Field(i).Type())
		}
		return raw(Term{op: OMk, sort: s, args: fs})
	}
	return mkNil(s)
}

// symOf makes a symbolic value of a type, with the type invariants stated in DESIGN.md.
func (x *Exec) symOf(name string, t types.Type) *Term {
	s := sortOf(t)
	if s.kind == KPtr {
		// a non-nil pointer to an arbitrary value
		return raw(Term{op: OPtrTo, sort: s, args: []*Term{x.symOf(name+".*", t.Underlying().(*types.Pointer).Elem())}})
	}
	return leaf(freshSym(name, s), t)
}

func (x *Exec) constTerm(tv types.TypeAndValue, t types.Type) *Term {
	switch tv.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(tv.Value))
	case constant.String:
		return mkStr(constant.StringVal(tv.Value))
	case constant.Int:
		if v, ok := constant.Int64Val(tv.Value); ok {
			return mkInt(v)
		}
		return mkUF("bigconst:"+tv.Value.ExactString(), SInt)
	case constant.Float:
		if sortOf(t).kind == KInt {
			if v, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok {
				return mkInt(v)
			}
		}
		return mkUF("const:"+tv.Value.ExactString(), sortOf(t))
	}
	return mkUF("const:"+tv.Value.ExactString(), sortOf(t))
}

func funcName(fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return tname(t) + "." + fn.Name()
	}
	if fn.Pkg() != nil && fn.Pkg().Name() != "query" {
		return fn.Pkg().Path() + "." + fn.Name()
	}
	return fn.Name()
}

// callFunc runs the body of a function of the package on given arguments (already converted).
func (x *Exec) callFunc(st *State, fn *types.Func, ts map[*types.TypeParam]types.Type, recv *Term, args []*Term, pos token.Pos) []*Term {
	fn = fn.Origin()
	d := x.p.decls[fn]
	if d == nil || d.Body == nil {
		x.bad(pos, "no body for %s", funcName(fn))
	}
	sig := fn.Type().(*types.Signature)
	depth := 0
	for _, f := range x.fstack {
		if f == fn {
			depth++
		}
	}
	if x.force == fn {
		x.force = nil
	} else if x.recf[fn] && (depth > 1 || ifaceFirst(fn)) && !x.constructed(recv, args) {
		return x.recCall(st, fn, sig, recv, args, pos)
	}
	if x.modular[funcName(fn)] && depth == 0 && len(x.fstack) > 0 && sig.Results().Len() == 1 {
		t := sig.Results().At(0).Type()
		v := x.symOf("kept", t)
		x.invariant(st, t, v)
		return []*Term{v}
	}
	if depth > 8 || len(x.fstack) > 120 {
		x.bad(pos, "recursion too deep in %s", funcName(fn))
	}
	fr := &Frame{fn: fn, env: map[types.Object]int{}, ts: ts, sig: sig, cut: len(st.pc)}
	if !x.p.isContractPos(d.Pos()) {
		x.used[funcName(fn)] = true
	}
	x.stack = append(x.stack, funcName(fn))
	x.fstack = append(x.fstack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1]; x.fstack = x.fstack[:len(x.fstack)-1] }()
	if r := sig.Recv(); r != nil && recv != nil {
		fr.env[r] = x.newCell(st, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		fr.env[sig.Params().At(i)] = x.newCell(st, args[i])
	}
	return x.runBody(st, fr, d.Body, sig)
}

func (x *Exec) runBody(st *State, fr *Frame, body *ast.BlockStmt, sig *types.Signature) []*Term {
	for i := 0; i < sig.Results().Len(); i++ {
		rv := sig.Results().At(i)
		fr.env[rv] = x.newCell(st, zeroOf(x.typ(fr, rv.Type())))
		fr.res = append(fr.res, rv)
	}
	n := len(st.pc)
	base := map[int]bool{}
	for k := range st.cells {
		base[k] = true
	}
	outs := x.block(st.clone(), fr, body.List)
	var sts []*State
	var vals [][]*Term
	for i, o := range outs {
		if o.st.dead || len(o.st.defers) == 0 {
			continue
		}
		if o.kind == OReturn {
			for j, r := range fr.res {
				o.st.cells[fr.env[r]] = o.vals[j]
			}
		}
		ran := false
		for k := len(o.st.defers) - 1; k >= 0 && o.st.defers[k].fr == fr && !o.st.dead; k-- {
			o.st.defers[k].fn(o.st)
			o.st.defers = o.st.defers[:k:k]
			ran = true
		}
		if ran && o.kind == OReturn {
			outs[i].vals = nil
			for _, r := range fr.res {
				outs[i].vals = append(outs[i].vals, o.st.cells[fr.env[r]])
			}
		}
	}
	for _, o := range outs {
		switch o.kind {
		case OReturn:
			sts = append(sts, o.st)
			vals = append(vals, o.vals)
		case ONormal:
			var vs []*Term
			for _, r := range fr.res {
				vs = append(vs, o.st.cells[fr.env[r]])
			}
			sts = append(sts, o.st)
			vals = append(vals, vs)
		default:
			x.bad(body.Pos(), "stray branch statement")
		}
	}
	if len(sts) == 0 { // always panics
		st.dead = true
		var vs []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			vs = append(vs, zeroOf(x.typ(fr, sig.Results().At(i).Type())))
		}
		return vs
	}
	ms, mv := x.merge(n, sts, vals)
	*st = *ms
	return mv
}

func (x *Exec) constructed(recv *Term, args []*Term) bool {
	first := recv
	if first == nil {
		if len(args) == 0 {
			return false
		}
		first = args[0]
	}
	return first.op == OBox || first.op == OMk || first.op == ONil
}

// recCall stands for a call of a recursive function on a symbolic argument: the function is
// deterministic and reads nothing but its arguments, so it is a function symbol.
func (x *Exec) recCall(st *State, fn *types.Func, sig *types.Signature, recv *Term, args []*Term, pos token.Pos) []*Term {
	var as []*Term
	if recv != nil {
		as = append(as, x.deref(st, recv))
	}
	for _, a := range args {
		as = append(as, x.deref(st, a))
	}
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		nm := "rec:" + funcName(fn)
		if i > 0 {
			nm += fmt.Sprint("#", i)
		}
		rs = append(rs, mkUF(nm, sortOf(sig.Results().At(i).Type()), as...))
	}
	return rs
}

// --- statements ------------------------------------------------------------------------

func (x *Exec) block(st *State, fr *Frame, list []ast.Stmt) []Out {
	var exits []Out
	cur := st
	for _, s := range list {
		if cur.dead {
			break
		}
		outs := x.stmt(cur, fr, s, "")
		var normals []*State
		for _, o := range outs {
			if o.kind == ONormal {
				if !o.st.dead {
					normals = append(normals, o.st)
				}
			} else if !o.st.dead {
				exits = append(exits, o)
			}
		}
		if len(normals) == 0 {
			return exits
		}
		if len(normals) == 1 {
			cur = normals[0]
		} else {
			n := commonPrefix(normals)
			cur, _ = x.merge(n, normals, make([][]*Term, len(normals)))
		}
	}
	if cur.dead {
		return exits
	}
	return append(exits, Out{st: cur, kind: ONormal})
}

func commonPrefix(sts []*State) int {
	n := len(sts[0].pc)
	for _, s := range sts[1:] {
		i := 0
		for i < n && i < len(s.pc) && s.pc[i] == sts[0].pc[i] {
			i++
		}
		n = i
	}
	return n
}

func (x *Exec) declare(st *State, fr *Frame, o types.Object, v *Term) {
	if o == nil || o.Name() == "_" {
		return
	}
	fr.env[o] = x.newCell(st, v)
}

func (x *Exec) stmt(st *State, fr *Frame, s ast.Stmt, label string) []Out {
	one := func() []Out { return []Out{{st: st, kind: ONormal}} }
	if !x.deadline.IsZero() && time.Now().After(x.deadline) {
		x.bad(token.NoPos, "time")
	}
	switch s := s.(type) {
	case nil, *ast.EmptyStmt:
		return one()
	case *ast.ExprStmt:
		x.evMulti(st, fr, s.X)
		return one()
	case *ast.BlockStmt:
		return x.block(st, fr, s.List)
	case *ast.LabeledStmt:
		return x.stmt(st, fr, s.Stmt, s.Label.Name)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return one()
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				vals := x.evMulti(st, fr, vs.Values[0])
				tup := x.p.info.TypeOf(vs.Values[0]).(*types.Tuple)
				for i, n := range vs.Names {
					o := x.p.info.Defs[n]
					x.declare(st, fr, o, x.convert(st, vals[i], x.typ(fr, tup.At(i).Type()), x.typ(fr, o.Type())))
				}
				continue
			}
			for i, n := range vs.Names {
				o := x.p.info.Defs[n]
				if i < len(vs.Values) {
					v := x.evTo(st, fr, vs.Values[i], x.typ(fr, o.Type()))
					x.declare(st, fr, o, v)
				} else {
					x.declare(st, fr, o, zeroOf(x.typ(fr, o.Type())))
				}
			}
		}
		return one()
	case *ast.AssignStmt:
		x.assignStmt(st, fr, s)
		return one()
	case *ast.IncDecStmt:
		v := x.ev(st, fr, s.X)
		k := int64(1)
		if s.Tok == token.DEC {
			k = -1
		}
		x.assign(st, fr, s.X, linAdd(v, mkInt(1), k))
		return one()
	case *ast.IfStmt:
		if s.Init != nil {
			for _, o := range x.stmt(st, fr, s.Init, "") {
				st = o.st
			}
		}
		c := x.ev(st, fr, s.Cond)
		return x.branch(st, c, func(t *State) []Out { return x.block(t, fr, s.Body.List) }, func(e *State) []Out {
			if s.Else == nil {
				return []Out{{st: e, kind: ONormal}}
			}
			return x.stmt(e, fr, s.Else, "")
		})
	case *ast.ReturnStmt:
		var vals []*Term
		res := fr.sig.Results()
		switch {
		case len(s.Results) == 0:
			for _, r := range fr.res {
				vals = append(vals, st.cells[fr.env[r]])
			}
		case len(s.Results) == 1 && res.Len() > 1:
			vs := x.evMulti(st, fr, s.Results[0])
			tup := x.p.info.TypeOf(s.Results[0]).(*types.Tuple)
			for i := range vs {
				vals = append(vals, x.convert(st, vs[i], x.typ(fr, tup.At(i).Type()), x.typ(fr, res.At(i).Type())))
			}
		default:
			for i, e := range s.Results {
				vals = append(vals, x.evTo(st, fr, e, x.typ(fr, res.At(i).Type())))
			}
		}
		return []Out{{st: st, kind: OReturn, vals: vals}}
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			return []Out{{st: st, kind: OBreak, label: l}}
		case token.CONTINUE:
			return []Out{{st: st, kind: OContinue, label: l}}
		}
		x.bad(s.Pos(), "%v statement", s.Tok)
	case *ast.SwitchStmt:
		return x.switchStmt(st, fr, s, label)
	case *ast.TypeSwitchStmt:
		return x.typeSwitch(st, fr, s, label)
	case *ast.ForStmt:
		return x.forStmt(st, fr, s, label)
	case *ast.RangeStmt:
		return x.rangeStmt(st, fr, s, label)
	case *ast.GoStmt:
		x.frameViolation(s.Pos(), "goroutine started")
		x.bad(s.Pos(), "go statement")
	case *ast.DeferStmt:
		return x.deferStmt(st, fr, s)
	}
	x.bad(s.Pos(), "statement %T", s)
	return nil
}

// deferStmt records a call for the end of the function. Calls that recover from panics are out of reach.
func (x *Exec) deferStmt(st *State, fr *Frame, s *ast.DeferStmt) []Out {
	if lit, ok := s.Call.Fun.(*ast.FuncLit); !ok || len(s.Call.Args) != 0 || x.p.inLoop(s) {
		x.bad(s.Pos(), "defer statement")
	} else {
		ast.Inspect(lit, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && id.Name == "recover" {
				x.bad(s.Pos(), "recover from a panic")
			}
			return true
		})
	}
	call := s.Call
	st.defers = append(st.defers[:len(st.defers):len(st.defers)], deferred{fr, func(t *State) { x.evMulti(t, fr, call) }})
	return []Out{{st: st, kind: ONormal}}
}

// inLoop tells whether a statement is inside a loop.
func (p *Program) inLoop(s ast.Stmt) (r bool) {
	for _, f := range p.files {
		if s.Pos() < f.Pos() || s.Pos() > f.End() {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil || s.Pos() < n.Pos() || s.Pos() >= n.End() {
				return false
			}
			switch n.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				r = true
			case *ast.FuncLit, *ast.FuncDecl:
				r = false
			case *ast.LabeledStmt:
			}
			return true
		})
	}
	return r
}

func (x *Exec) branch(st *State, c *Term, then, els func(*State) []Out) []Out {
	if st.dead {
		return []Out{{st: st}}
	}
	switch x.decide(st, c) {
	case TTrue:
		st.assume(x.deref(st, c))
		return then(st)
	case TFalse:
		st.assume(mkNot(x.deref(st, c)))
		return els(st)
	}
	c = x.deref(st, c)
	n := len(st.pc)
	a, b := st.clone(), st.clone()
	a.assume(c)
	b.assume(mkNot(c))
	return x.joinOuts(n, append(then(a), els(b)...))
}

// joinOuts merges outcomes of the same kind.
func (x *Exec) joinOuts(n int, outs []Out) []Out {
	type key struct {
		k OutKind
		l string
	}
	groups := map[key][]Out{}
	var order []key
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		k := key{o.kind, o.label}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var res []Out
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 {
			res = append(res, g[0])
			continue
		}
		var sts []*State
		var vals [][]*Term
		for _, o := range g {
			sts = append(sts, o.st)
			vals = append(vals, o.vals)
		}
		m, v := x.merge(n, sts, vals)
		res = append(res, Out{st: m, kind: k.k, label: k.l, vals: v})
	}
	return res
}

func (x *Exec) switchStmt(st *State, fr *Frame, s *ast.SwitchStmt, label string) []Out {
	if s.Init != nil {
		for _, o := range x.stmt(st, fr, s.Init, "") {
			st = o.st
		}
	}
	var tag *Term
	var tagT types.Type
	if s.Tag != nil {
		tag = x.ev(st, fr, s.Tag)
		tagT = x.typ(fr, x.p.info.TypeOf(s.Tag))
	}
	var clauses []*ast.CaseClause
	var def *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
		} else {
			clauses = append(clauses, cc)
		}
	}
	ordered := s.Body.List
	var body func(st *State, cc *ast.CaseClause) []Out
	body = func(st *State, cc *ast.CaseClause) []Out {
		list := cc.Body
		if len(list) > 0 {
			if b, ok := list[len(list)-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				next := -1
				for i, c := range ordered {
					if c == ast.Stmt(cc) {
						next = i + 1
					}
				}
				outs := x.block(st, fr, list[:len(list)-1])
				var res []Out
				for _, o := range outs {
					if o.kind == ONormal && next < len(ordered) {
						res = append(res, body(o.st, ordered[next].(*ast.CaseClause))...)
					} else {
						res = append(res, o)
					}
				}
				return res
			}
		}
		return x.block(st, fr, list)
	}
	var rec func(st *State, i, j int) []Out
	rec = func(st *State, i, j int) []Out {
		if st.dead {
			return nil
		}
		if i == len(clauses) {
			if def != nil {
				return body(st, def)
			}
			return []Out{{st: st}}
		}
		cc := clauses[i]
		if j == len(cc.List) {
			return rec(st, i+1, 0)
		}
		var c *Term
		if tag != nil {
			ct := x.typ(fr, x.p.info.TypeOf(cc.List[j]))
			v := x.ev(st, fr, cc.List[j])
			a, b := tag, v
			if isIface(tagT) && !isIface(ct) {
				b = x.convert(st, v, ct, tagT)
			} else if isIface(ct) && !isIface(tagT) {
				a = x.convert(st, tag, tagT, ct)
			}
			a, b = x.deref(st, a), x.deref(st, b)
			if !x.p.isContractPos(cc.Pos()) && (isIface(tagT) || isIface(ct)) {
				it := tagT
				if !isIface(it) {
					it = ct
				}
				x.panicIf(st, comparePanics(it, a, b, 0), false, "comparison of uncomparable values", cc.Pos())
			}
			c = mkEq(a, b)
		} else {
			c = x.ev(st, fr, cc.List[j])
		}
		return x.branch(st, c, func(t *State) []Out { return body(t, cc) }, func(e *State) []Out { return rec(e, i, j+1) })
	}
	n := len(st.pc)
	return x.breakToNormal(n, rec(st, 0, 0), label)
}

func (x *Exec) breakToNormal(n int, outs []Out, label string) []Out {
	for i := range outs {
		if outs[i].kind == OBreak && (outs[i].label == "" || outs[i].label == label) {
			outs[i].kind = ONormal
			outs[i].label = ""
		}
	}
	return x.joinOuts(n, outs)
}

func (x *Exec) typeSwitch(st *State, fr *Frame, s *ast.TypeSwitchStmt, label string) []Out {
	if s.Init != nil {
		for _, o := range x.stmt(st, fr, s.Init, "") {
			st = o.st
		}
	}
	var e ast.Expr
	switch a := s.Assign.(type) {
	case *ast.AssignStmt:
		e = a.Rhs[0].(*ast.TypeAssertExpr).X
	case *ast.ExprStmt:
		e = a.X.(*ast.TypeAssertExpr).X
	}
	v := x.ev(st, fr, e)
	vt := x.typ(fr, x.p.info.TypeOf(e))
	var clauses []*ast.CaseClause
	var def *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
		} else {
			clauses = append(clauses, cc)
		}
	}
	run := func(st *State, cc *ast.CaseClause, val *Term) []Out {
		if o := x.p.info.Implicits[cc]; o != nil {
			x.declare(st, fr, o, val)
		}
		return x.block(st, fr, cc.Body)
	}
	var rec func(st *State, i int) []Out
	rec = func(st *State, i int) []Out {
		if st.dead {
			return nil
		}
		if i == len(clauses) {
			if def != nil {
				return run(st, def, v)
			}
			return []Out{{st: st}}
		}
		cc := clauses[i]
		var conds []*Term
		val := v
		for _, te := range cc.List {
			t := x.typ(fr, x.p.info.TypeOf(te))
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
				conds = append(conds, mkEq(x.deref(st, v), mkNil(SAny)))
				continue
			}
			conds = append(conds, x.isType(st, v, t))
			if len(cc.List) == 1 && !isIface(t) {
				val = mkUnbox(t, v)
			}
		}
		_ = vt
		return x.branch(st, mkOr(conds...), func(t *State) []Out {
			if val != v {
				x.unboxed(t, cc.Pos(), TTrue, x.typ(fr, x.p.info.TypeOf(cc.List[0])), val)
			}
			return run(t, cc, val)
		}, func(e *State) []Out { return rec(e, i+1) })
	}
	n := len(st.pc)
	return x.breakToNormal(n, rec(st, 0), label)
}

// isType is the dynamic type test v.(t).
func (x *Exec) isType(st *State, v *Term, t types.Type) *Term {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return mkIs(t, v)
	}
	return implTerm(it, t, v)
}

func implTerm(it *types.Interface, t types.Type, v *Term) *Term {
	switch v.op {
	case OBox:
		return mkBool(types.Implements(v.typ, it))
	case ONil:
		return TFalse
	case OIte:
		return mkIte(v.args[0], implTerm(it, t, v.args[1]), implTerm(it, t, v.args[2]))
	}
	if it.Empty() {
		return mkNot(mkEq(v, mkNil(SAny)))
	}
	return mkUF("impl:"+tkey(t), SBool, v)
}

// --- assignment --------------------------------------------------------------------------

func (x *Exec) assignStmt(st *State, fr *Frame, s *ast.AssignStmt) {
	info := x.p.info
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		var op token.Token
		switch s.Tok {
		case token.ADD_ASSIGN:
			op = token.ADD
		case token.SUB_ASSIGN:
			op = token.SUB
		case token.MUL_ASSIGN:
			op = token.MUL
		case token.OR_ASSIGN:
			op = token.OR
		case token.AND_ASSIGN:
			op = token.AND
		default:
			x.bad(s.Pos(), "assignment %v", s.Tok)
		}
		l := x.ev(st, fr, s.Lhs[0])
		r := x.ev(st, fr, s.Rhs[0])
		x.assign(st, fr, s.Lhs[0], x.arith(st, op, l, r, x.typ(fr, info.TypeOf(s.Lhs[0])), s.Pos()))
		return
	}
	var vals []*Term
	var vts []types.Type
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		vals = x.evMulti(st, fr, s.Rhs[0])
		if tup, ok := info.TypeOf(s.Rhs[0]).(*types.Tuple); ok {
			for i := 0; i < tup.Len(); i++ {
				vts = append(vts, x.typ(fr, tup.At(i).Type()))
			}
		} else { // comma-ok forms
			vts = []types.Type{x.typ(fr, info.TypeOf(s.Rhs[0])), types.Typ[types.Bool]}
		}
	} else {
		for i, r := range s.Rhs {
			var to types.Type
			if id, ok := s.Lhs[i].(*ast.Ident); ok && id.Name == "_" {
				to = nil
			} else {
				to = x.typ(fr, info.TypeOf(s.Lhs[i]))
			}
			var v *Term
			if to == nil {
				v = x.ev(st, fr, r)
			} else {
				v = x.evTo(st, fr, r, to)
				v = x.shortened(st, fr, s.Lhs[i], r, v)
			}
			vals = append(vals, v)
			vts = append(vts, to)
		}
	}
	if st.dead {
		for _, l := range s.Lhs { // keep the environment complete
			if id, ok := l.(*ast.Ident); ok {
				if o := info.Defs[id]; o != nil {
					x.declare(st, fr, o, zeroOf(x.typ(fr, o.Type())))
				}
			}
		}
		return
	}
	for i, l := range s.Lhs {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			if o := info.Defs[id]; o != nil {
				x.declare(st, fr, o, x.convert(st, vals[i], vts[i], x.typ(fr, o.Type())))
				continue
			}
		}
		x.assign(st, fr, l, x.convert(st, vals[i], vts[i], x.typ(fr, info.TypeOf(l))))
	}
}

// shortened: after list = list[a:b] nothing else knows the memory behind the list, if nothing did before.
func (x *Exec) shortened(st *State, fr *Frame, l, r ast.Expr, v *Term) *Term {
	id, ok1 := l.(*ast.Ident)
	se, ok2 := ast.Unparen(r).(*ast.SliceExpr)
	if !ok1 || !ok2 || v.op != OUF || v.name != "view" || len(v.args) != 2 {
		return v
	}
	of, ok := ast.Unparen(se.X).(*ast.Ident)
	if !ok || x.p.info.Uses[of] == nil || x.p.info.Uses[of] != x.p.info.Uses[id] {
		return v
	}
	own, ok := fr.lookup(x.p.info.Uses[id])
	if !ok || st.cells[own].op != ORef {
		return v
	}
	ref := st.cells[own]
	for c, t := range st.cells {
		if c != own && t != nil && occurs(t, ref) {
			return v
		}
	}
	for _, g := range st.regs {
		if occurs(g.val, ref) {
			return v
		}
	}
	return x.newRegion(st, v.args[0], false)
}

func (x *Exec) frameViolation(pos token.Pos, msg string) {
	if x.ghostW == 0 {
		x.frame = append(x.frame, x.p.pos(pos)+": "+msg)
	}
}

func (x *Exec) assign(st *State, fr *Frame, l ast.Expr, v *Term) {
	if st.dead {
		return
	}
	switch l := l.(type) {
	case *ast.ParenExpr:
		x.assign(st, fr, l.X, v)
	case *ast.Ident:
		if l.Name == "_" {
			return
		}
		o := x.p.info.ObjectOf(l)
		c, ok := fr.lookup(o)
		if !ok {
			x.frameViolation(l.Pos(), "assignment to package variable "+l.Name)
			x.bad(l.Pos(), "assignment to package variable %s", l.Name)
		}
		if st.frozen[c] {
			x.frameViolation(l.Pos(), "assignment to variable "+l.Name+" after its address was published")
			x.bad(l.Pos(), "assignment to published variable")
		}
		st.cells[c] = v
	case *ast.StarExpr:
		p := x.ev(st, fr, l.X)
		x.storePtr(st, p, func(*Term) *Term { return v }, l.Pos())
	case *ast.SelectorExpr:
		sel := x.p.info.Selections[l]
		if sel == nil {
			x.frameViolation(l.Pos(), "assignment to package variable")
			x.bad(l.Pos(), "assignment to %s", l.Sel.Name)
		}
		x.assignPath(st, fr, l.X, x.typ(fr, x.p.info.TypeOf(l.X)), sel.Index(), v)
	case *ast.IndexExpr:
		bt := x.typ(fr, x.p.info.TypeOf(l.X))
		switch bt.Underlying().(type) {
		case *types.Slice:
			base := x.ev(st, fr, l.X)
			idx := x.ev(st, fr, l.Index)
			x.bounds(st, idx, mkSLen(x.deref(st, base)), l.Pos())
			if st.dead {
				return
			}
			if base.op == ORef {
				r := st.regs[int(base.ival)]
				if r.spare {
					x.bad(l.Pos(), "element of a list overwritten after parts of it were taken or it was appended to")
				}
				r.val = mkSUpd(r.val, x.deref(st, idx), v)
				st.regs[int(base.ival)] = r
				return
			}
			x.frameViolation(l.Pos(), "element of a list that may be shared is overwritten")
			x.assign(st, fr, l.X, x.newRegion(st, mkSUpd(x.deref1(st, base), x.deref(st, idx), v), true))
		case *types.Array:
			base := x.ev(st, fr, l.X)
			idx := x.ev(st, fr, l.Index)
			x.bounds(st, idx, mkSLen(base), l.Pos())
			x.assign(st, fr, l.X, mkSUpd(base, idx, v))
		default:
			if m, ok := bt.Underlying().(*types.Map); ok {
				if base := x.ev(st, fr, l.X); base.op == ORef {
					k := x.deref(st, x.convert(st, x.ev(st, fr, l.Index), x.typ(fr, x.p.info.TypeOf(l.Index)), x.typ(fr, m.Key())))
					if v = x.deref(st, v); v.sort == SBool && v != TTrue {
						x.bad(l.Pos(), "key of a local set set to false")
					}
					r := st.regs[int(base.ival)]
					r.val = mkSCat(r.val.sort, r.val, mkUnit(k))
					st.regs[int(base.ival)] = r
					return
				}
			}
			if x.pkgRoot(fr, l.X) {
				x.frameViolation(l.Pos(), "a package variable is changed")
			}
			x.bad(l.Pos(), "assignment to element of %v", bt)
		}
	default:
		x.bad(l.Pos(), "assignment to %T", l)
	}
}

// pkgRoot tells whether an expression reads a package variable.
func (x *Exec) pkgRoot(fr *Frame, e ast.Expr) bool {
	for {
		switch v := ast.Unparen(e).(type) {
		case *ast.Ident:
			_, ok := x.p.globals[x.p.info.ObjectOf(v)]
			return ok
		case *ast.IndexExpr:
			e = v.X
		case *ast.SelectorExpr:
			e = v.X
		case *ast.StarExpr:
			e = v.X
		default:
			return false
		}
	}
}

func (x *Exec) storePtr(st *State, p *Term, f func(*Term) *Term, pos token.Pos) {
	switch p.op {
	case OPtr:
		if st.frozen[int(p.ival)] {
			x.frameViolation(pos, "write through a published pointer")
			x.bad(pos, "write through a published pointer")
		}
		st.cells[int(p.ival)] = f(st.cells[int(p.ival)])
	case ONil:
		x.panicIf(st, TTrue, false, "nil pointer dereference", pos)
	default:
		x.frameViolation(pos, "write through a pointer that may be shared")
		x.bad(pos, "write through a shared pointer")
	}
}

// assignPath assigns v to the field reached from e by the index path.
func (x *Exec) assignPath(st *State, fr *Frame, e ast.Expr, t types.Type, path []int, v *Term) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		p := x.ev(st, fr, e)
		x.storePtr(st, p, func(old *Term) *Term { return updPath(old, pt.Elem(), path, v, x, st) }, e.Pos())
		return
	}
	x.assign(st, fr, e, updPath(x.ev(st, fr, e), t, path, v, x, st))
}

func updPath(old *Term, t types.Type, path []int, v *Term, x *Exec, st *State) *Term {
	if len(path) == 0 {
		return v
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		panic(unsupported{"assignment through embedded pointer"})
	}
	s := sortOf(t)
	fs := make([]*Term, s.st.NumFields())
	for i := range fs {
		fs[i] = mkSel(old, i)
	}
	fs[path[0]] = updPath(fs[path[0]], s.st.Field(path[0]).Type(), path[1:], v, x, st)
	return mkMk(s, fs...)
}

func (x *Exec) bounds(st *State, i, n *Term, pos token.Pos) {
	i = x.deref(st, i)
	c := mkOr(mkLt(i, mkInt(0)), mkLeq(n, i))
	x.panicIf(st, c, false, "index out of range", pos)
}
