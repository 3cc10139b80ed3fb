package main

import (
	"go/types"
	"sort"
	"strings"
	"time"
)

// Equality of recursive functions. Two function symbols rec:F and rec:G with the same arguments and
// result are equal if the bodies of F and G, with every inner call of G read as a call of F, are
// equal for all arguments: both are then the least fixed point of the same functional.

func recSame(a, b *Term) bool {
	if a.sort != b.sort || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if a.args[i].sort != b.args[i].sort {
			return false
		}
	}
	return true
}

func recNames(ts []*Term) map[string]*Term {
	m := map[string]*Term{}
	seen := map[*Term]bool{}
	for _, t := range ts {
		walkM(t, func(u *Term) bool {
			if u.op == OUF && strings.HasPrefix(u.name, "rec:") {
				m[u.name] = u
			}
			return true
		}, seen)
	}
	return m
}

// recRewrite puts equal recursive functions under one name in the facts and the goal.
func (p *Prover) recRewrite(facts []*Term, goal *Term) ([]*Term, *Term) {
	if p.x == nil {
		return facts, goal
	}
	names := recNames(append(append([]*Term{}, facts...), goal))
	if len(names) < 2 {
		return facts, goal
	}
	var ks []string
	for k := range names {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, a := range ks {
		for _, b := range ks[:i] {
			if names[b] == nil || !recSame(names[a], names[b]) || !p.recEqual(a, b) {
				continue
			}
			goal = renameUF(goal, a, b)
			fs := make([]*Term, len(facts))
			for j, f := range facts {
				fs[j] = renameUF(f, a, b)
			}
			facts = fs
			names[a] = nil
			break
		}
	}
	return facts, goal
}

func (p *Prover) recEqual(a, b string) bool {
	key := a + " = " + b
	if r, ok := p.recEq[key]; ok {
		return r
	}
	if p.recEq == nil {
		p.recEq = map[string]bool{}
	}
	p.recEq[key] = false // while being attempted
	r := false
	func() {
		defer func() { recover() }()
		r = p.proveRecEqual(a, b)
	}()
	p.recEq[key] = r
	return r
}

func (p *Prover) proveRecEqual(a, b string) bool {
	old, dl := p.x, p.deadline
	tr := p.trace
	defer func() { p.x, p.deadline, p.trace = old, dl, tr }()
	if d := time.Now().Add(20 * time.Second); d.Before(p.deadline) {
		p.deadline = d
	}
	x := newExec(old.p, p)
	x.deadline = p.deadline
	fa, fb := x.recFn[a], x.recFn[b]
	if fa == nil || fb == nil {
		return false
	}
	var args []*Term
	st := &State{cells: map[int]*Term{}, regs: map[int]Region{}, frozen: map[int]bool{}}
	ra, ok1 := x.unfold(st, fa, &args)
	rb, ok2 := x.unfold(st, fb, &args)
	if !ok1 || !ok2 || len(*x.panics) > 0 {
		return false
	}
	return p.prove(p.relevantAx(st.pc, TTrue), mkEq(ra, renameUF(rb, b, a)), 16) ||
		p.prove(p.relevantAx(st.pc, TTrue), mkEq(renameUF(ra, a, b), rb), 16)
}

// unfold is the body of a recursive function on symbolic arguments (made for the first function).
func (x *Exec) unfold(st *State, fn *types.Func, args *[]*Term) (*Term, bool) {
	sig := fn.Type().(*types.Signature)
	if sig.Results().Len() != 1 || sig.TypeParams() != nil || sig.RecvTypeParams() != nil {
		return nil, false
	}
	var vs []*types.Var
	if sig.Recv() != nil {
		vs = append(vs, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		vs = append(vs, sig.Params().At(i))
	}
	if *args == nil {
		for _, v := range vs {
			*args = append(*args, x.symOf("a", v.Type()))
		}
	}
	if len(*args) != len(vs) {
		return nil, false
	}
	for i, v := range vs {
		if sortOf(v.Type()) != (*args)[i].sort {
			return nil, false
		}
	}
	x.force = fn
	var recv *Term
	as := *args
	if sig.Recv() != nil {
		recv, as = as[0], as[1:]
	}
	r := x.callFunc(st, fn, nil, recv, as, fn.Pos())
	return x.deref(st, r[0]), true
}

func renameUF(t *Term, from, to string) *Term { return renameUFM(t, from, to, map[*Term]*Term{}) }

func renameUFM(t *Term, from, to string, memo map[*Term]*Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	hit := false
	walk(t, func(u *Term) bool {
		if u.op == OUF && u.name == from {
			hit = true
		}
		return !hit
	})
	r := t
	switch {
	case !hit:
	case isBinder(t.op):
		seq := renameUFM(t.args[1], from, to, memo)
		d, x := freshSym("d", t.args[1].sort), freshSym("x", t.args[1].sort.elem)
		body := renameUFM(open(t.args[0], d, x), from, to, memo)
		if t.op == OBig {
			r = mkBig(t.name, t.sort, d, x, body, seq)
		} else {
			r = mkFirst(t.op, d, x, body, seq)
		}
	default:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = renameUFM(a, from, to, memo)
		}
		if t.op == OUF && t.name == from {
			r = mkUF(to, t.sort, args...)
		} else {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}
