package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

// The sweeps: contracts that are the same for every exported function and method of the package,
// so that they are generated rather than written out.
//
// C24: for all inputs no run-time panic happens, and a panic statement is reached only under one of
// the constructors documented to refuse malformed text.
//
// C05: nothing reachable from the receiver, the arguments or package variables is written to, lists
// given by the caller are not kept, and lists returned are fresh.

// refusing are the functions documented to panic on malformed text or arguments.
var refusing = map[string]bool{"Field": true, "Table": true, "NewFields": true, "ASC": true, "DESC": true, "OrderBy": true}

type sweepCase struct {
	fn    *types.Func
	ts    map[*types.TypeParam]types.Type
	label string
}

func (p *Program) sweepCases() []sweepCase {
	var r []sweepCase
	for fn, d := range p.decls {
		if !fn.Exported() || p.isContractPos(d.Pos()) || d.Body == nil {
			continue
		}
		sig := fn.Type().(*types.Signature)
		name := funcName(fn)
		tps := sig.TypeParams()
		if tps.Len() == 0 {
			r = append(r, sweepCase{fn, nil, name})
			continue
		}
		ts := typeSet(fn)
		for _, t := range ts {
			r = append(r, sweepCase{fn, map[*types.TypeParam]types.Type{tps.At(0): t}, name + "[" + shortType(t) + "]"})
		}
		if len(ts) == 0 {
			r = append(r, sweepCase{fn, nil, name + "[?]"})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].label < r[j].label })
	return r
}

// typeSet lists the types a function with one type parameter can be used at, if they are few.
func typeSet(fn *types.Func) (r []types.Type) {
	tps := fn.Type().(*types.Signature).TypeParams()
	if tps.Len() != 1 {
		return nil
	}
	it, _ := tps.At(0).Constraint().Underlying().(*types.Interface)
	for i := 0; it != nil && i < it.NumEmbeddeds(); i++ {
		u, ok := it.EmbeddedType(i).(*types.Union)
		if !ok {
			continue
		}
		for j := 0; j < u.Len(); j++ {
			r = append(r, u.Term(j).Type())
		}
	}
	return r
}

type sweepResult struct {
	unsupp string
	panics []*Panic
	frame  []string
	safe   int
	vacant bool // a contradictory path condition: nothing was shown
}

func (x *Exec) runSweep(c sweepCase) (res sweepResult) {
	x.cur = "sweep " + c.label
	x.obls, x.frame, x.closures, x.stack, x.fstack, x.tried = nil, nil, nil, nil, nil, nil
	x.quiet, x.ghostW, x.safe = 0, 0, 0
	x.axioms, x.axiomSet = nil, map[*Term]bool{}
	var ps []*Panic
	x.panics = &ps
	defer func() {
		res.panics, res.frame, res.safe = ps, x.frame, x.safe
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				if os.Getenv("GOVER_DEBUG") != "" {
					panic(r)
				}
				u = unsupported{fmt.Sprint("internal: ", r)}
			}
			res.unsupp = u.msg
		}
	}()
	sig := c.fn.Type().(*types.Signature)
	if sig.TypeParams().Len() > 0 && c.ts == nil {
		x.bad(c.fn.Pos(), "type parameters without a finite type set")
	}
	st := &State{cells: map[int]*Term{}, regs: map[int]Region{}, frozen: map[int]bool{}}
	sym := func(v *types.Var) *Term {
		t := substT(c.ts, v.Type())
		s := x.symOf(v.Name(), t)
		x.invariant(st, t, s)
		return s
	}
	var recv *Term
	if r := sig.Recv(); r != nil {
		recv = sym(r)
	}
	var args []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, sym(sig.Params().At(i)))
	}
	x.force = c.fn
	out := x.callFunc(st, c.fn, c.ts, recv, args, c.fn.Pos())
	if !st.dead {
		x.retained(st, c, recv, args, out)
		canary := &Obligation{name: "false", fn: x.cur, pc: append([]*Term{}, st.pc...), goal: TFalse}
		x.discharge(canary, time.Second)
		res.vacant = canary.ok
	}
	return
}

// retained checks the lists in the results of a call: a list that belongs to the caller is not
// kept, and a list handed out is memory of its own.
func (x *Exec) retained(st *State, c sweepCase, recv *Term, args, out []*Term) {
	sig := c.fn.Type().(*types.Signature)
	lists := map[*Term]string{}
	for i, a := range args {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Slice); ok && a.sort.kind == KSeq {
			lists[a] = sig.Params().At(i).Name()
		}
	}
	seen := map[*Term]bool{}
	var visit func(t *Term, top bool, what string)
	var elems func(t *Term, what string) // the elements of memory made here
	elems = func(t *Term, what string) {
		switch t.op {
		case OIte:
			elems(t.args[1], what)
			elems(t.args[2], what)
		case OSCat:
			for _, a := range t.args {
				elems(a, what)
			}
		case OUnit:
			visit(t.args[0], false, what)
		}
	}
	visit = func(t *Term, top bool, what string) {
		if !top && seen[t] {
			return
		}
		seen[t] = true
		if n := lists[t]; n != "" {
			x.frameViolation(c.fn.Pos(), "the list "+n+" given by the caller is kept in "+what)
			return
		}
		switch {
		case t.op == OIte:
			visit(t.args[1], top, what)
			visit(t.args[2], top, what)
		case t.op == ORef:
			elems(st.regs[int(t.ival)].val, what)
		case isWrap(t):
			visit(t.args[0], top, what)
		case t.op == OPtr:
			visit(st.cells[int(t.ival)], top, what)
		case t.op == OBox, t.op == OMk, t.op == OPtrTo:
			for _, a := range t.args {
				visit(a, false, what)
			}
		case top && t.sort.kind == KSeq && !isEmptySeq(t):
			x.frameViolation(c.fn.Pos(), "the list returned may be shared with the receiver or an argument")
		}
	}
	for i, o := range out {
		top := false
		if i < sig.Results().Len() {
			_, top = sig.Results().At(i).Type().(*types.Slice)
		}
		visit(o, top, fmt.Sprintf("result %d", i+1))
	}
}

func (p *Program) sweep(pr *Prover, prop string, deadline time.Time, budget time.Duration, assumed map[string]bool) (recs []oblRec, undecided []string, used map[string]bool) {
	used = map[string]bool{}
	for _, c := range p.sweepCases() {
		if time.Now().After(deadline) {
			undecided = append(undecided, c.label+": time")
			continue
		}
		x := newExec(p, pr)
		x.deadline = deadline
		if d := time.Now().Add(120 * time.Second); d.Before(deadline) {
			x.deadline = d
		}
		t := time.Now()
		r := x.runSweep(c)
		for f := range x.used {
			used[f] = true
		}
		for a := range x.assumed {
			assumed[a] = true
		}
		name := "sweep " + c.label
		add := func(kind, what string, pos token.Pos, ok bool, how, detail string) {
			ps := ""
			if pos.IsValid() {
				ps = p.pos(pos)
			}
			recs = append(recs, oblRec{Contract: name, Name: what, Kind: kind, Pos: ps, OK: ok, How: how, Ms: time.Since(t).Milliseconds(), detail: detail})
		}
		if prop == "C05" {
			for _, f := range r.frame {
				add("frame", f, token.NoPos, false, "", "")
			}
			if r.unsupp == "" && len(r.frame) == 0 {
				add("frame", "nothing shared is written, kept or handed out", token.NoPos, true, "rewriting", "")
			}
		} else {
			for _, q := range r.panics {
				if q.explicit && documented(q.stack) {
					continue
				}
				o := &Obligation{name: "no panic (" + q.what + ") in " + strings.Join(q.stack, ">"), kind: "panic-freedom", fn: name, pc: q.st.pc, goal: TFalse}
				x.discharge(o, budget)
				if !o.ok && r.unsupp != "" {
					// found before the verifier gave up: the path may be infeasible
					undecided = append(undecided, name+": "+o.name)
					continue
				}
				add(o.kind, o.name, q.pos, o.ok, o.how, o.detail)
			}
			if r.safe > 0 {
				for i := 0; i < r.safe; i++ {
					add("panic-freedom", "run-time check", token.NoPos, true, "path condition", "")
				}
			}
			if r.vacant {
				add("vacuity", "contract is not vacuous", token.NoPos, false, "", "")
			}
			if r.unsupp == "" {
				add("panic-freedom", "all paths", token.NoPos, true, "rewriting", "")
			}
		}
		if r.unsupp != "" {
			undecided = append(undecided, name+": outside the verifier's reach: "+strings.SplitN(r.unsupp, "\n", 2)[0])
		}
	}
	return
}

func documented(stack []string) bool {
	for _, s := range stack {
		if refusing[s] {
			return true
		}
	}
	return false
}
