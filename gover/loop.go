package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"time"
)

// ---------------------------------------------------------------------------
// Loops. A loop is verified by induction over the sequence it walks: the value of every
// variable changed by the body is written as a closed form over the elements already seen
// (init + fold), the body is executed once from a state given by the closed forms for an
// arbitrary prefix D and next element X, and the state after it must be the closed forms
// for D ++ [X]. There is no bound on the number of iterations.
// ---------------------------------------------------------------------------

type loopVar struct {
	cell   int   // cell, or 0
	path   []int // field path inside the cell
	region int   // region changed in place, or 0
	init   *Term // value before the loop (lists: content)
	list   bool
	spare  bool
	exact  bool // region: flag before the loop
	h      *Term
	closed *Term // closed form, over the symbol D
	next   *Term
	kind   string
}

func (v *loopVar) key() string { return fmt.Sprint(v.cell, v.path, v.region) }

type loopCtx struct {
	x        *Exec
	fr       *Frame
	S        *Term // sequence walked
	D, X     *Term
	label    string
	body     func(st *State) []Out
	pos      token.Pos
	ranged   *Term // reference of the list being ranged over, when elements are read
	checking bool
	anyOrder bool // the closed forms must not depend on the order of the iterations
}

func getPath(v *Term, path []int) *Term {
	for _, i := range path {
		v = mkSel(v, i)
	}
	return v
}

func setPath(v *Term, path []int, w *Term) *Term {
	if len(path) == 0 {
		return w
	}
	n := v.sort.st.NumFields()
	fs := make([]*Term, n)
	for i := range fs {
		fs[i] = mkSel(v, i)
	}
	fs[path[0]] = setPath(fs[path[0]], path[1:], w)
	return mkMk(v.sort, fs...)
}

func isListVal(t *Term) bool { return t.sort.kind == KSeq }

// diff lists the places where two values differ.
func diffVal(a, b *Term, path []int, out *[][]int) {
	if a == b {
		return
	}
	if a.sort.kind == KStruct && (a.op == OMk || b.op == OMk) && a.op != OIte && b.op != OIte {
		for i := 0; i < a.sort.st.NumFields(); i++ {
			diffVal(mkSel(a, i), mkSel(b, i), append(append([]int{}, path...), i), out)
		}
		return
	}
	*out = append(*out, append([]int{}, path...))
}

func (x *Exec) isRefRegion(t *Term) (int, bool) {
	if t.op == ORef {
		return int(t.ival), true
	}
	return 0, false
}

// head builds the state at the start of an arbitrary iteration.
func (lc *loopCtx) head(st *State, vars []*loopVar, val func(v *loopVar) *Term) *State {
	h := st.clone()
	for _, v := range vars {
		t := val(v)
		switch {
		case v.region != 0:
			r := h.regs[v.region]
			r.val = t
			h.regs[v.region] = r
		case v.list:
			ref := lc.x.newRegion(h, t, false)
			if v.spare {
				r := h.regs[int(ref.ival)]
				r.spare = true
				h.regs[int(ref.ival)] = r
			}
			h.cells[v.cell] = setPath(h.cells[v.cell], v.path, ref)
		default:
			h.cells[v.cell] = setPath(h.cells[v.cell], v.path, t)
		}
	}
	h.assume(mkLt(mkSLen(lc.D), mkSLen(lc.S)))
	if lc.S.op != OUF || lc.S.name != "iota" {
		at := mkSAt(lc.S, mkSLen(lc.D))
		if at.op == OSAt && at != lc.X {
			h.assume(mkEq(at, lc.X))
		}
	}
	for _, f := range lc.x.pr.elementFacts(append(append([]*Term{}, h.pc...), lc.x.axioms...), lc.S, lc.D, lc.X) {
		h.assume(f)
	}
	return h
}

// value reads a loop variable in a state.
func (lc *loopCtx) value(st *State, v *loopVar) *Term {
	if v.region != 0 {
		return st.regs[v.region].val
	}
	t := getPath(st.cells[v.cell], v.path)
	if v.list {
		return lc.x.shallow(st, t)
	}
	return t
}

func (lc *loopCtx) norm(st *State, t *Term) *Term {
	t = lc.x.deref(st, t)
	if lc.S.op == OUF && lc.S.name == "iota" {
		return t
	}
	at := mkSAt(lc.S, mkSLen(lc.D))
	if at.op == OSAt {
		t = subst(t, map[*Term]*Term{at: lc.X})
	}
	if pre := mkSTake(lc.S, mkSLen(lc.D)); pre.op == OSTake {
		t = subst(t, map[*Term]*Term{pre: lc.D})
	}
	return t
}

// run executes the body once and sorts the outcomes.
func (lc *loopCtx) run(h *State) (next *State, exits []Out, panics []*Panic) {
	x := lc.x
	saved := x.panics
	var ps []*Panic
	x.panics = &ps
	n := len(h.pc)
	outs := lc.body(h.clone())
	x.panics = saved
	var conts []*State
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		switch {
		case o.kind == ONormal, o.kind == OContinue && (o.label == "" || o.label == lc.label):
			conts = append(conts, o.st)
		default:
			exits = append(exits, o)
		}
	}
	if len(conts) > 0 {
		next, _ = x.merge(n, conts, make([][]*Term, len(conts)))
	}
	return next, exits, ps
}

// orderFree checks that what leaves the loop early, or fails, does not look at what other
// iterations did.
func (lc *loopCtx) orderFree(vars []*loopVar, exits []Out, ps []*Panic) {
	lens := map[*Term]*Term{}
	for _, v := range vars {
		if v.h.sort.kind == KSeq {
			lens[mkSLen(v.h)] = mkSLen(v.init)
		}
	}
	look := func(st *State) {
		for _, t := range st.pc {
			for _, v := range vars {
				if occurs(subst(t, lens), v.h) {
					lc.x.bad(lc.pos, "loop: the order of iterations matters")
				}
			}
		}
	}
	for _, o := range exits {
		look(o.st)
	}
	for _, p := range ps {
		look(p.st)
	}
}

// loop runs the whole loop.
func (lc *loopCtx) loop(st *State) []Out {
	x := lc.x
	x.loops++
	lc.D, lc.X = freshSym("D", lc.S.sort), freshSym("X", lc.S.sort.elem)
	if lc.S.op == OUF && lc.S.name == "iota" {
		lc.X = mkSLen(lc.D)
	}
	// explicit lists are unrolled
	if us := segs(lc.S); !lc.anyOrder && (lc.S.op == OSCat || lc.S.op == OUnit) {
		all := len(us) <= 8
		for _, u := range us {
			all = all && u.op == OUnit
		}
		if all {
			return lc.unroll(st, us)
		}
	}
	var vars []*loopVar
	have := map[string]*loopVar{}
	x.quiet++
	var dry *State
	func() {
		defer func() { x.quiet-- }()
		for round := 0; ; round++ {
			if round > 6 {
				x.bad(lc.pos, "loop: changed variables not found")
			}
			h := lc.head(st, vars, func(v *loopVar) *Term { return v.h })
			hh := h.clone()
			next, exs, ps := lc.run(h)
			dry = next
			if lc.anyOrder {
				lc.orderFree(vars, exs, ps)
			}
			if next == nil {
				break
			}
			changed := false
			add := func(v *loopVar) {
				if o, ok := have[v.key()]; ok {
					if v.spare && !o.spare {
						o.spare = true
						changed = true
					}
					return
				}
				if v.init.ref && !v.list && v.region == 0 {
					x.bad(lc.pos, "loop: variable holding references changes")
				}
				v.h = freshSym("h", v.init.sort)
				have[v.key()] = v
				vars = append(vars, v)
				changed = true
			}
			var ids []int
			for c := range st.cells {
				ids = append(ids, c)
			}
			sort.Ints(ids)
			for _, c := range ids {
				var ps [][]int
				diffVal(hh.cells[c], next.cells[c], nil, &ps)
				for _, p := range ps {
					v := &loopVar{cell: c, path: p, init: getPath(st.cells[c], p)}
					if _, ok := have[v.key()]; ok && !isListVal(v.init) {
						continue
					}
					if isListVal(v.init) {
						v.list = true
						v.init = x.shallow(st, v.init)
					}
					add(v)
				}
			}
			ids = ids[:0]
			for r := range st.regs {
				ids = append(ids, r)
			}
			sort.Ints(ids)
			for _, r := range ids {
				if hh.regs[r].val != next.regs[r].val {
					add(&loopVar{region: r, init: st.regs[r].val, exact: st.regs[r].exact})
				}
				if next.regs[r].spare && !hh.regs[r].spare && !st.regs[r].exact {
					// a second append to the list kept by an outer variable is found on the next iteration
					if still(next, r, st) {
						x.frameViolation(lc.pos, "a loop appends to the same list more than once")
					}
				}
			}
			for _, v := range vars {
				if v.list {
					if r, ok := x.isRefRegion(getPath(next.cells[v.cell], v.path)); ok && next.regs[r].spare && !v.spare {
						v.spare = true
						changed = true
					}
				}
			}
			if !changed {
				break
			}
		}
	}()
	if dry != nil {
		lc.guess(dry, vars)
	}
	// final run
	D := lc.D
	lc.checking = true
	if lc.ranged != nil && lc.ranged.op == ORef {
		for _, v := range vars { // elements may only be rewritten at the index already read
			if v.region == int(lc.ranged.ival) && v.kind != "upd" {
				x.bad(lc.pos, "loop changes the list it walks")
			}
		}
	}
	h := lc.head(st, vars, func(v *loopVar) *Term { return v.closed })
	n := len(h.pc)
	next, exits, ps := lc.run(h)
	DX := mkSCat(D.sort, D, mkUnit(lc.X))
	if next != nil {
		// whatever else changed is a missed variable
		for c := range st.cells {
			base := h.cells[c]
			cur := next.cells[c]
			if base == cur {
				continue
			}
			var ps [][]int
			diffVal(base, cur, nil, &ps)
			for _, p := range ps {
				if _, ok := have[(&loopVar{cell: c, path: p}).key()]; !ok {
					x.bad(lc.pos, "loop: variable missed")
				}
			}
		}
		for r := range st.regs {
			if h.regs[r].val != next.regs[r].val {
				if _, ok := have[(&loopVar{region: r}).key()]; !ok {
					x.bad(lc.pos, "loop: list missed")
				}
			}
		}
		for _, v := range vars {
			got := lc.norm(next, lc.value(next, v))
			if os.Getenv("GOVER_LOOP") != "" {
				fmt.Println("LOOP", x.p.pos(lc.pos), v.kind, "closed", v.closed, "\n   init", v.init, "\n  next", v.next, "\n  got", got)
			}
			want := lc.norm(next, subst(v.closed, map[*Term]*Term{D: DX}))
			if got != want {
				save := x.pr.deadline
				x.pr.deadline = time.Now().Add(20 * time.Second)
				tr := x.pr.trace
				ok := x.pr.prove(next.pc, mkEq(got, want), 12)
				x.pr.deadline = save
				x.pr.trace = tr
				if !ok {
					x.bad(lc.pos, "loop invariant not inductive\n   got  %v\n   want %v", got, want)
				}
			}
		}
	}
	// exits
	type exit struct {
		st   *State
		g    *Term
		out  Out
		p    *Panic
		kind int
	}
	var es []exit
	E := TFalse
	for _, o := range exits {
		g := lc.norm(o.st, mkAnd(o.st.pc[n:]...))
		es = append(es, exit{st: o.st, g: g, out: o})
		E = mkOr(E, g)
	}
	for _, p := range ps {
		if !p.explicit {
			if x.quiet == 0 {
				save, tr := x.pr.deadline, x.pr.trace
				x.pr.deadline = time.Now().Add(20 * time.Second)
				ok := x.pr.prove(append(append([]*Term{}, x.axioms...), p.st.pc...), TFalse, 16)
				x.pr.deadline, x.pr.trace = save, tr
				if ok {
					x.provedInline++
					continue
				}
			}
			*x.panics = append(*x.panics, p)
			continue
		}
		g := lc.norm(p.st, mkAnd(p.st.pc[n:]...))
		es = append(es, exit{st: p.st, g: g, p: p})
		E = mkOr(E, g)
	}
	if lc.anyOrder && len(es) > 1 {
		x.bad(lc.pos, "loop: the order of iterations matters")
	}
	var res []Out
	some := TFalse
	if len(es) > 0 {
		some = mkBig("or", SBool, D, lc.X2(), E, lc.S)
	}
	{
		end := st.clone()
		if next == nil { // no iteration ever completes
			end.assume(mkEqZ(mkSLen(lc.S)))
		}
		for _, v := range vars {
			t := subst(v.closed, map[*Term]*Term{D: lc.S})
			switch {
			case v.region != 0:
				r := end.regs[v.region]
				r.val = t
				end.regs[v.region] = r
			case v.list:
				ref := x.newRegion(end, t, false)
				r := end.regs[int(ref.ival)]
				r.spare = v.spare
				end.regs[int(ref.ival)] = r
				end.cells[v.cell] = setPath(end.cells[v.cell], v.path, ref)
			default:
				end.cells[v.cell] = setPath(end.cells[v.cell], v.path, t)
			}
		}
		if !end.dead {
			end.assume(mkNot(some))
		}
		if !end.dead {
			res = append(res, Out{st: end, kind: ONormal})
		}
	}
	if some != TFalse {
		B, F := mkFirst(OBefore, D, lc.X2(), E, lc.S), mkFirst(OFirst, D, lc.X2(), E, lc.S)
		m := map[*Term]*Term{D: B}
		if lc.X.op == OSym {
			m[lc.X] = F
		}
		for _, e := range es {
			s := e.st
			usesDX := false
			chk := func(t *Term) {
				if !usesDX && (occurs(t, D) || occurs(t, lc.X)) {
					usesDX = true
				}
			}
			ns := s.clone()
			ns.pc = st.pc[:len(st.pc):len(st.pc)]
			ns.assume(some)
			sub := func(t *Term) *Term {
				if t == nil {
					return nil
				}
				chk(t)
				return subst(t, m)
			}
			if e.g != E {
				ns.assume(sub(e.g))
			}
			for c, t := range ns.cells {
				if occurs(t, D) || lc.X.op == OSym && occurs(t, lc.X) {
					ns.cells[c] = sub(t)
				}
			}
			for r, t := range ns.regs {
				if occurs(t.val, D) || lc.X.op == OSym && occurs(t.val, lc.X) {
					t.val = sub(t.val)
					ns.regs[r] = t
				}
			}
			var vals []*Term
			for _, v := range e.out.vals {
				vals = append(vals, sub(v))
			}
			if usesDX && lc.anyOrder {
				x.bad(lc.pos, "loop: the order of iterations matters")
			}
			if usesDX {
				ns.assume(mkLt(mkSLen(B), mkSLen(lc.S)))
				ns.assume(subst(E, m))
				for _, f := range x.pr.elementFacts(append(append([]*Term{}, st.pc...), x.axioms...), lc.S, B, F) {
					ns.assume(f)
				}
			}
			if e.p != nil {
				q := *e.p
				q.st = ns
				*x.panics = append(*x.panics, &q)
				continue
			}
			o := e.out
			o.st = ns
			o.vals = vals
			if o.kind == OBreak && (o.label == "" || o.label == lc.label) {
				o.kind, o.label = ONormal, ""
			}
			res = append(res, o)
		}
	}
	return x.joinOuts(len(st.pc), res)
}

// X2 is the symbol standing for the element in folds.
func (lc *loopCtx) X2() *Term {
	if lc.X.op == OSym {
		return lc.X
	}
	return freshSym("x", lc.S.sort.elem)
}

// still reports whether an outer variable refers to the list.
func still(st *State, r int, outer *State) bool {
	for c := range outer.cells {
		found := false
		walk(st.cells[c], func(t *Term) bool {
			if t.op == ORef && int(t.ival) == r {
				found = true
			}
			return !found
		})
		if found {
			return true
		}
	}
	return false
}

func (lc *loopCtx) unroll(st *State, us []*Term) []Out {
	var done []Out
	cur := st
	n := len(st.pc)
	D := mkEmpty(lc.S.sort)
	for _, u := range us {
		save := *lc
		lc.D, lc.X = D, u.args[0]
		outs := lc.body(cur)
		*lc = save
		var conts []*State
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			switch {
			case o.kind == ONormal, o.kind == OContinue && (o.label == "" || o.label == lc.label):
				conts = append(conts, o.st)
			case o.kind == OBreak && (o.label == "" || o.label == lc.label):
				done = append(done, Out{st: o.st, kind: ONormal})
			default:
				done = append(done, o)
			}
		}
		if len(conts) == 0 {
			return lc.x.joinOuts(n, done)
		}
		cur, _ = lc.x.merge(n, conts, make([][]*Term, len(conts)))
		D = mkSCat(D.sort, D, u)
	}
	return lc.x.joinOuts(n, append(done, Out{st: cur, kind: ONormal}))
}

// guess finds the closed forms.
func (lc *loopCtx) guess(next *State, vars []*loopVar) {
	x := lc.x
	kl := mkSLen(lc.D)
	type form struct {
		e    *Term
		kind string
		off  *Term
	}
	forms := map[*loopVar]form{}
	puts, tidy := map[*loopVar]*loopVar{}, map[*loopVar]*Term{}
	for _, v := range vars { // list[n] = e; n++
		t := lc.norm(next, lc.value(next, v))
		for _, w := range vars {
			if v.h.sort.kind != KSeq || w.h.sort != SInt || !certainlyNonNeg(w.init) || !occurs(t, w.h) {
				continue
			}
			tv, tw := x.within(next, t, v.h, w.h), x.within(next, lc.norm(next, lc.value(next, w)), v.h, w.h)
			if e := splitPut(tv, v.h, w.h); e != nil && splitAcc(tw, w.h, "int") == mkSLen(e) {
				puts[v], tidy[v], tidy[w] = w, tv, tw
				break
			}
		}
	}
	for _, v := range vars {
		t := lc.norm(next, lc.value(next, v))
		if tidy[v] != nil && puts[v] == nil {
			t = tidy[v]
		}
		v.next = t
		f := form{}
		switch {
		case t == v.h:
			f.kind = "same"
			f.e = t
		case v.h.sort == SBool:
			if e := splitBool(t, v.h, true); e != nil {
				f = form{e, "or", nil}
			} else if e := splitBool(t, v.h, false); e != nil {
				f = form{e, "and", nil}
			}
		case v.h.sort == SInt:
			if e := splitAcc(t, v.h, "int"); e != nil {
				f = form{e, "int", nil}
			}
		case v.h.sort == SStr:
			if e := splitAcc(t, v.h, "str"); e != nil {
				f = form{e, "str", nil}
			}
		case v.h.sort == STmpl:
			if e := splitAcc(t, v.h, "tmpl"); e != nil {
				f = form{e, "tmpl", nil}
			}
		case v.h.sort.kind == KSeq:
			if m := lc.counters(next, vars); len(m) > 0 && updOffset(t, v.h, kl) != nil {
				t = lc.norm(next, subst(t, m))
			}
			if off := updOffset(t, v.h, kl); off != nil && certainlyNonNeg(off) && certainlyNonNeg(mkSub(mkSLen(v.init), off)) && !occurs(off, lc.D) && !occurs(off, lc.X) && !occurs(off, v.h) {
				f = form{splitUpd(t, v.h, mkAdd(kl, off)), "upd", off}
				if f.e == nil {
					f = form{}
				}
			}
			if w := puts[v]; f.kind == "" && w != nil {
				f = form{splitPut(tidy[v], v.h, w.h), "put", w.init}
			}
			if f.kind == "" {
				if e := splitAcc(t, v.h, "seq"); e != nil {
					f = form{e, "seq", nil}
				}
			}
		}
		if f.kind == "" && !occurs(t, v.h) && !occurs(t, lc.D) && !occurs(t, lc.X) {
			f = form{t, "const", nil}
		}
		if f.kind == "" && !occurs(t, v.h) {
			f = form{t, "last", nil}
		}
		if f.kind == "" {
			x.bad(lc.pos, "loop: no closed form for %v -> %v", v.h, t)
		}
		forms[v] = f
		v.kind = f.kind
	}
	if lc.anyOrder {
		for _, v := range vars {
			switch v.kind {
			case "same", "or", "and", "int", "upd", "const":
			default:
				x.bad(lc.pos, "loop: the order of iterations matters")
			}
			for _, w := range vars {
				if w != v && occurs(forms[v].e, w.h) {
					x.bad(lc.pos, "loop: the order of iterations matters")
				}
			}
		}
	}
	for _, v := range vars { // a separator after what is there already, if anything is
		f := forms[v]
		if f.kind != "str" && f.kind != "seq" || !occurs(f.e, v.h) {
			continue
		}
		none := func(t *Term) *Term {
			if f.kind == "str" {
				return mkEq(t, mkStr(""))
			}
			return mkEqZ(mkSLen(t))
		}
		was := none(v.h)
		first := lc.norm(next, subst(f.e, map[*Term]*Term{was: TTrue, mkNot(was): TFalse}))
		if occurs(first, v.h) {
			continue
		}
		if occurs(subst(f.e, map[*Term]*Term{was: TFalse, mkNot(was): TTrue}), v.h) {
			continue
		}
		d, y := freshSym("d", lc.D.sort), lc.X
		if lc.X.op != OSym {
			y = freshSym("x", lc.D.sort.elem)
		}
		empty := mkAnd(none(v.init), mkNot(mkBig("or", SBool, d, y, subst(mkNot(none(first)), map[*Term]*Term{lc.D: d}), lc.D)))
		f.e = lc.norm(next, subst(f.e, map[*Term]*Term{was: empty, mkNot(was): mkNot(empty)}))
		forms[v] = f
	}
	// the closed forms of other variables go into the bodies
	pending := len(vars)
	isH := map[*Term]*loopVar{}
	for _, v := range vars {
		isH[v.h] = v
	}
	for pending > 0 {
		progress := false
		for _, v := range vars {
			if v.closed != nil {
				continue
			}
			f := forms[v]
			m := map[*Term]*Term{}
			blocked := false
			for _, w := range vars {
				if occurs(f.e, w.h) {
					if w == v {
						if f.kind == "upd" {
							m[mkSLen(w.h)] = mkSLen(w.init)
							m[mkSAt(w.h, mkAdd(kl, f.off))] = mkSAt(w.init, mkAdd(kl, f.off))
							continue
						}
						if f.kind == "seq" || f.kind == "same" { // the part added may look at what is there: uniqueness
							continue
						}
					}
					if w.closed == nil {
						blocked = true
						break
					}
					m[w.h] = w.closed
				}
			}
			if blocked {
				continue
			}
			e := f.e
			if len(m) > 0 {
				e = lc.norm(next, subst(e, m))
			}
			if occurs(e, v.h) && f.kind != "same" {
				if f.kind == "seq" && isEmptySeq(v.init) {
					e = subst(e, map[*Term]*Term{v.h: lc.D})
				} else {
					x.bad(lc.pos, "loop: body looks at the accumulated value %v", v.h)
				}
			}
			d, y := freshSym("d", lc.D.sort), lc.X
			body := subst(e, map[*Term]*Term{lc.D: d})
			if lc.X.op != OSym {
				y = freshSym("x", lc.D.sort.elem)
			}
			switch f.kind {
			case "same":
				v.closed = v.init
			case "or":
				v.closed = mkOr(v.init, mkBig("or", SBool, d, y, body, lc.D))
			case "and":
				v.closed = mkAnd(v.init, mkNot(mkBig("or", SBool, d, y, mkNot(body), lc.D)))
			case "const":
				v.closed = mkIte(mkEqZ(kl), v.init, e)
			case "last":
				last := map[*Term]*Term{lc.D: mkSTake(lc.D, mkSub(kl, mkInt(1)))}
				if lc.X.op == OSym {
					last[lc.X] = mkSAt(lc.D, mkSub(kl, mkInt(1)))
				}
				v.closed = mkIte(mkEqZ(kl), v.init, subst(e, last))
			case "upd":
				s := v.h.sort
				v.closed = mkSCat(s, mkSTake(v.init, f.off), mkBig("seq", s, d, y, mkUnit(body), lc.D), mkSDrop(v.init, mkAdd(kl, f.off)))
			case "put":
				s := v.h.sort
				part := mkBig("seq", s, d, y, body, lc.D)
				v.closed = mkSCat(s, mkSTake(v.init, f.off), part, mkSDrop(v.init, mkAdd(f.off, mkSLen(part))))
			default:
				v.closed = catOf(f.kind, v.h.sort, v.init, mkBig(f.kind, v.h.sort, d, y, body, lc.D))
			}
			pending--
			progress = true
		}
		if !progress {
			x.bad(lc.pos, "loop: mutually dependent variables")
		}
	}
}

// counters gives the closed forms of integers changed by the same amount in every iteration.
func (lc *loopCtx) counters(next *State, vars []*loopVar) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, v := range vars {
		if v.h.sort != SInt || v.region != 0 || v.h.op != OSym {
			continue
		}
		t := lc.norm(next, lc.value(next, v))
		if e := splitAcc(t, v.h, "int"); e != nil {
			if c, ok := isIntC(e); ok {
				m[v.h] = linAdd(v.init, mkSLen(lc.D), c)
			}
		}
	}
	return m
}

// updOffset finds the offset o of an update h[k+o] = e.
func updOffset(t, h, k *Term) *Term {
	if t.op == OSUpd && t.args[0] == h {
		return mkSub(t.args[1], k)
	}
	if t.op == OIte {
		if o := updOffset(t.args[1], h, k); o != nil {
			return o
		}
		return updOffset(t.args[2], h, k)
	}
	return nil
}

// splitUpd recognises h[k] = e.
func splitUpd(t, h, k *Term) *Term {
	if t == h {
		return mkSAt(h, k)
	}
	if t.op == OSUpd && t.args[0] == h && mkIntEq(t.args[1], k) == TTrue {
		return t.args[2]
	}
	if t.op == OIte {
		a, b := splitUpd(t.args[1], h, k), splitUpd(t.args[2], h, k)
		if a != nil && b != nil {
			return mkIte(t.args[0], a, b)
		}
	}
	return nil
}

// splitPut reads h[n] = e as the part e added after the first n elements.
func splitPut(t, h, n *Term) *Term {
	if t == h {
		return mkEmpty(h.sort)
	}
	if t.op == OSUpd && t.args[0] == h && t.args[1] == n && !occurs(t.args[2], h) && !occurs(t.args[2], n) {
		return mkUnit(t.args[2])
	}
	if t.op == OIte && !occurs(t.args[0], h) && !occurs(t.args[0], n) {
		a, b := splitPut(t.args[1], h, n), splitPut(t.args[2], h, n)
		if a != nil && b != nil {
			return mkIte(t.args[0], a, b)
		}
	}
	return nil
}

// within drops from the conditions in t what they say about n and h, if the step that ends normally decides it.
func (x *Exec) within(st *State, t, h, n *Term) *Term {
	if t.op != OIte {
		return t
	}
	c := t.args[0]
	if c.op == OOr && (occurs(c, h) || occurs(c, n)) {
		without := TFalse
		for _, p := range c.args {
			if !occurs(p, h) && !occurs(p, n) {
				without = mkOr(without, p)
			}
		}
		if x.decide(st, mkIff(c, without)) == TTrue {
			c = without
		}
	}
	return mkIte(c, x.within(st, t.args[1], h, n), x.within(st, t.args[2], h, n))
}

// splitAcc returns e with t = h + e.
func splitAcc(t, h *Term, kind string) *Term {
	if t == h {
		return unitOf(kind, h.sort)
	}
	switch {
	case kind == "int":
		if t.op == OIte {
			a, b := splitAcc(t.args[1], h, kind), splitAcc(t.args[2], h, kind)
			if a != nil && b != nil {
				return mkIte(t.args[0], a, b)
			}
			return nil
		}
		if t.op == OLin {
			e := mkSub(t, h)
			if !occurs(e, h) {
				return e
			}
			// the accumulator may sit inside a conditional part
			for i, a := range t.args {
				if t.coefs[i] == 1 && occurs(a, h) {
					if s := splitAcc(a, h, kind); s != nil {
						return mkAdd(s, linAdd(t, a, -1))
					}
				}
			}
		}
		return nil
	case t.op == OIte:
		a, b := splitAcc(t.args[1], h, kind), splitAcc(t.args[2], h, kind)
		if a != nil && b != nil {
			return mkIte(t.args[0], a, b)
		}
	case t.op == OCat || t.op == OSCat || t.op == OTCat:
		if len(t.args) > 0 {
			if a := splitAcc(t.args[0], h, kind); a != nil {
				r := a
				for _, b := range t.args[1:] {
					r = catOf(kind, h.sort, r, b)
				}
				return r
			}
		}
	}
	return nil
}

// splitBool returns e with t = h || e (or t = h && e).
func splitBool(t, h *Term, or bool) *Term {
	a, b := subst(t, map[*Term]*Term{h: TTrue}), subst(t, map[*Term]*Term{h: TFalse})
	if or && a == TTrue {
		return b
	}
	if !or && b == TFalse {
		return a
	}
	return nil
}

// --- statements -----------------------------------------------------------------------

// forStmt runs a loop over a counter (for i := a; i < b; i++, counting down, or a loop on a condition
// whose body ends in i++) or over what is left of a list (for r := s; len(r) > 0; r = r[1:]).
func (x *Exec) forStmt(st *State, fr *Frame, s *ast.ForStmt, label string) []Out {
	if s.Init != nil {
		for _, o := range x.stmt(st, fr, s.Init, "") {
			st = o.st
		}
	}
	cond, ok := ast.Unparen(orNil(s.Cond)).(*ast.BinaryExpr)
	if !ok {
		x.bad(s.Pos(), "for loop without a bound")
	}
	post, body := s.Post, s.Body.List
	if post == nil && len(body) > 0 && !hasContinue(s.Body) { // the step is the last statement
		post, body = body[len(body)-1], body[:len(body)-1]
	}
	o, step := x.loopStep(fr, post)
	if o == nil {
		x.bad(s.Pos(), "for loop that does not count")
	}
	cell, ok := fr.lookup(o)
	if !ok || st.frozen[cell] {
		x.bad(s.Pos(), "loop counter")
	}
	if step == 0 {
		return x.restLoop(st, fr, s, cond, o, cell, body, label)
	}
	side, op := cond.Y, cond.Op
	if !x.isVar(cond.X, o) { // b > i
		if !x.isVar(cond.Y, o) {
			x.bad(s.Pos(), "for loop that does not compare its counter")
		}
		side = cond.X
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	start := x.deref(st, st.cells[cell])
	limit := func(st *State) *Term { // the first value the loop stops at
		b := x.deref(st, x.ev(st, fr, side))
		switch {
		case op == token.LEQ && step > 0:
			b = mkAdd(b, mkInt(1))
		case op == token.GEQ && step < 0:
			b = mkSub(b, mkInt(1))
		}
		return b
	}
	switch {
	case step > 0 && (op == token.LSS || op == token.LEQ), step < 0 && (op == token.GTR || op == token.GEQ), op == token.NEQ:
	default:
		x.bad(s.Pos(), "for loop that does not count up to a bound")
	}
	bound := limit(st)
	n := linScale(mkSub(bound, start), step)
	if op == token.NEQ && x.decide(st, mkLe0(linScale(n, -1))) != TTrue {
		x.bad(s.Pos(), "loop may miss its bound")
	}
	switch x.decide(st, mkLe0(linScale(n, -1))) {
	case TTrue:
	case TFalse:
		return []Out{{st: st, kind: ONormal}}
	default:
		n = mkIte(mkLe0(linScale(n, -1)), n, mkInt(0))
	}
	S := mkUF("iota", seqSort(SInt), n)
	if step < 0 { // the other way round, if the order does not matter
		s2, ps := st.clone(), len(*x.panics)
		S := S
		if n.op == OSLen {
			S = n.args[0]
		}
		lc := &loopCtx{x: x, fr: fr, S: S, label: label, pos: s.Pos(), anyOrder: true}
		first := mkAdd(bound, mkInt(1))
		_, own := s.Init.(*ast.AssignStmt)
		var outs []Out
		if x.attempt(func() {
			outs = x.counted(s2, lc, s, cell, body, own, func() *Term { return mkAdd(first, mkSLen(lc.D)) }, mkAdd(start, linScale(n, step)), func(st *State) {
				if b2 := limit(st); b2 != bound && lc.checking && x.decide(st, mkIntEq(b2, bound)) != TTrue {
					x.bad(s.Pos(), "loop bound changed by the body")
				}
			})
		}) {
			return outs
		}
		*x.panics = (*x.panics)[:ps]
	}
	if step > 0 {
		if n.op == OSLen {
			S = n.args[0]
		} else if l := x.lengthOf(st, fr, side); l != nil && mkSLen(l) == n {
			S = l
		}
	}
	lc := &loopCtx{x: x, fr: fr, S: S, label: label, pos: s.Pos()}
	return x.counted(st, lc, s, cell, body, false, func() *Term { return mkAdd(start, linScale(mkSLen(lc.D), step)) }, mkAdd(start, linScale(n, step)), func(st *State) {
		if b2 := limit(st); b2 != bound && lc.checking && x.decide(st, mkIntEq(b2, bound)) != TTrue {
			x.bad(s.Pos(), "loop bound changed by the body")
		}
	})
}

// restLoop runs for r := s; len(r) > 0; r = r[1:].
func (x *Exec) restLoop(st *State, fr *Frame, s *ast.ForStmt, cond *ast.BinaryExpr, o types.Object, cell int, body []ast.Stmt, label string) []Out {
	c, ok := ast.Unparen(cond.X).(*ast.CallExpr)
	zero, isZero := isIntC(x.deref(st, x.ev(st, fr, cond.Y)))
	if !ok || len(c.Args) != 1 || !x.isVar(c.Args[0], o) || !isZero || zero != 0 || cond.Op != token.GTR && cond.Op != token.NEQ {
		x.bad(s.Pos(), "loop over what is left of a list")
	}
	if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "len" || sortOf(x.typ(fr, o.Type())).kind != KSeq {
		x.bad(s.Pos(), "loop over what is left of a list")
	}
	S := x.deref(st, st.cells[cell])
	lc := &loopCtx{x: x, fr: fr, S: S, label: label, pos: s.Pos()}
	view := func(t *Term) *Term { return raw(Term{op: OUF, sort: S.sort, name: "view", args: []*Term{t, mkInt(1)}}) }
	return x.counted(st, lc, s, cell, body, false, func() *Term { return view(mkSDrop(S, mkSLen(lc.D))) }, view(mkEmpty(S.sort)), func(*State) {})
}

// attempt runs f and tells whether it stayed within reach.
func (x *Exec) attempt(f func()) (ok bool) {
	quiet, saved := x.quiet, x.panics
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); !is {
				panic(r)
			}
			if os.Getenv("GOVER_LOOP") != "" {
				fmt.Println("LOOP attempt:", cut(fmt.Sprint(r), 600))
			}
			x.quiet, x.panics = quiet, saved
			ok = false
		}
	}()
	f()
	return true
}

// counted runs a loop whose counter has the value at() in the iteration after the elements D; own
// tells that the counter is not seen after the loop.
func (x *Exec) counted(st *State, lc *loopCtx, s *ast.ForStmt, cell int, body []ast.Stmt, own bool, at func() *Term, end *Term, check func(*State)) []Out {
	idle := freshSym("counter", end.sort)
	st.cells[cell] = idle
	lc.body = func(t *State) []Out {
		i := at()
		t.cells[cell] = i
		outs := x.block(t, lc.fr, body)
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			if o.kind == OReturn || o.kind == OBreak || o.label != "" && o.label != lc.label {
				if own {
					o.st.cells[cell] = idle
				}
				continue
			}
			if v := o.st.cells[cell]; v != i && !(isWrap(v) && isWrap(i) && v.args[0] == i.args[0]) {
				x.bad(s.Pos(), "loop counter changed by the body")
			}
			check(o.st)
			o.st.cells[cell] = idle
		}
		return outs
	}
	outs := x.split(st, lc)
	for _, o := range outs {
		if o.st.cells[cell] == idle {
			o.st.cells[cell] = end
		}
	}
	return outs
}

// loopStep recognises the step of a loop: 1 or -1 for i++ and i--, 0 for r = r[1:].
func (x *Exec) loopStep(fr *Frame, post ast.Stmt) (types.Object, int64) {
	switch p := post.(type) {
	case *ast.IncDecStmt:
		if id, ok := p.X.(*ast.Ident); ok {
			if p.Tok == token.INC {
				return x.p.info.ObjectOf(id), 1
			}
			return x.p.info.ObjectOf(id), -1
		}
	case *ast.AssignStmt:
		id, ok := p.Lhs[0].(*ast.Ident)
		if !ok || len(p.Lhs) != 1 || len(p.Rhs) != 1 {
			return nil, 0
		}
		o := x.p.info.ObjectOf(id)
		one := func(e ast.Expr) bool {
			tv := x.p.info.Types[e]
			return tv.Value != nil && tv.Value.ExactString() == "1"
		}
		switch r := ast.Unparen(p.Rhs[0]).(type) {
		case *ast.SliceExpr:
			if p.Tok == token.ASSIGN && x.isVar(r.X, o) && r.Low != nil && one(r.Low) && r.High == nil && !r.Slice3 {
				return o, 0
			}
		case *ast.BinaryExpr:
			if p.Tok == token.ASSIGN && x.isVar(r.X, o) && one(r.Y) {
				if r.Op == token.ADD {
					return o, 1
				}
				if r.Op == token.SUB {
					return o, -1
				}
			}
		}
		if p.Tok == token.ADD_ASSIGN && one(p.Rhs[0]) {
			return o, 1
		}
		if p.Tok == token.SUB_ASSIGN && one(p.Rhs[0]) {
			return o, -1
		}
	}
	return nil, 0
}

func (x *Exec) isVar(e ast.Expr, o types.Object) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	return ok && x.p.info.ObjectOf(id) == o
}

func orNil(e ast.Expr) ast.Expr {
	if e == nil {
		return &ast.BadExpr{}
	}
	return e
}

// hasContinue finds a continue statement (of this loop or, to be safe, of a loop inside it).
func hasContinue(b *ast.BlockStmt) (r bool) {
	ast.Inspect(b, func(n ast.Node) bool {
		if c, ok := n.(*ast.BranchStmt); ok && (c.Tok == token.CONTINUE || c.Tok == token.GOTO) {
			r = true
		}
		return !r
	})
	return r
}

// split runs a loop that reads its list by index, separately for each case the list depends on.
func (x *Exec) split(st *State, lc *loopCtx) []Out {
	S := lc.S
	if S.op != OIte {
		return lc.loop(st)
	}
	clean := *lc
	var outs []Out
	for i, c := range []*Term{S.args[0], mkNot(S.args[0])} {
		s2 := st.clone()
		if x.decide(s2, c) == TFalse {
			continue
		}
		s2.assume(c)
		*lc = clean // the body refers to lc
		lc.S = S.args[1+i]
		outs = append(outs, x.split(s2, lc)...)
	}
	return outs
}

// lengthOf is the list whose length the expression len(list) takes.
func (x *Exec) lengthOf(st *State, fr *Frame, e ast.Expr) *Term {
	c, ok := ast.Unparen(e).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil
	}
	if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "len" {
		return nil
	}
	pure := true
	ast.Inspect(c.Args[0], func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			pure = false
		}
		return pure
	})
	if !pure {
		return nil
	}
	if l := x.deref(st, x.ev(st, fr, c.Args[0])); l.sort.kind == KSeq && l.op != OZeros {
		return l
	}
	return nil
}

func (x *Exec) rangeStmt(st *State, fr *Frame, s *ast.RangeStmt, label string) []Out {
	xt := x.typ(fr, x.p.info.TypeOf(s.X))
	base := x.ev(st, fr, s.X)
	lc := &loopCtx{x: x, fr: fr, label: label, pos: s.Pos()}
	useVal := s.Value != nil
	if id, ok := s.Value.(*ast.Ident); ok && id.Name == "_" {
		useVal = false
	}
	var kt, vt types.Type
	switch u := xt.Underlying().(type) {
	case *types.Slice, *types.Array:
		lc.S = x.deref(st, base)
		kt = types.Typ[types.Int]
		if sl, ok := u.(*types.Slice); ok {
			vt = sl.Elem()
		} else {
			vt = u.(*types.Array).Elem()
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if id, ok := s.Key.(*ast.Ident); s.Key != nil && !(ok && id.Name == "_") {
				x.bad(s.Pos(), "range over the offsets in a text")
			}
			lc.S, kt, vt = runes(x.deref(st, base)), types.Typ[types.Int], types.Typ[types.Rune]
			break
		}
		if u.Info()&types.IsInteger == 0 {
			x.bad(s.Pos(), "range over %v", xt)
		}
		n := x.deref(st, base)
		switch x.decide(st, mkLe0(linScale(n, -1))) {
		case TTrue:
		default:
			n = mkIte(mkLe0(linScale(n, -1)), n, mkInt(0))
		}
		lc.S = mkUF("iota", seqSort(SInt), n)
		if n.op == OSLen {
			lc.S = n.args[0]
		} else if l := x.lengthOf(st, fr, s.X); l != nil && mkSLen(l) == n {
			lc.S = l
		}
		kt = xt
	case *types.Map:
		lc.S = entries(x.deref(st, base))
		kt, vt = u.Key(), u.Elem()
	default:
		x.bad(s.Pos(), "range over %v", xt)
	}
	if useVal && lc.S.sort == base.sort {
		lc.ranged = base
	}
	_, isMap := xt.Underlying().(*types.Map)
	lc.body = func(t *State) []Out {
		var key, val *Term
		if isMap {
			key, val = mkUF("entry.key", sortOf(kt), lc.X), mkUF("entry.val", sortOf(vt), lc.X)
			if x.entryOf == nil {
				x.entryOf = map[*Term]*Term{}
			}
			if m := x.deref(st, base); lc.S == entries(m) {
				x.entryOf[lc.X] = m
			}
		} else {
			key, val = mkSLen(lc.D), lc.X
		}
		set := func(e ast.Expr, v *Term, vt types.Type) {
			if e == nil {
				return
			}
			if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
				return
			}
			if s.Tok == token.DEFINE {
				o := x.p.info.Defs[e.(*ast.Ident)]
				x.declare(t, fr, o, v)
				return
			}
			x.assign(t, fr, e, x.convert(t, v, vt, x.typ(fr, x.p.info.TypeOf(e))))
		}
		set(s.Key, key, kt)
		if useVal {
			set(s.Value, val, vt)
		}
		return x.block(t, fr, s.Body.List)
	}
	if !useVal && !isMap {
		return x.split(st, lc)
	}
	return lc.loop(st)
}
