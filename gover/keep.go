package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Preservation of the type invariants. Contracts assume of their inputs the invariants stated by
// the inv_ functions; here every exported function and method is shown to hand out only values
// which have them, given inputs which have them. Values which come back unchanged from outside (an
// element of a list, the result of a method of a condition) have them by the same argument.

// reaches tells whether a value of type t holds a value of one of the types, looking through
// fields, lists, pointers and (for Condition) interfaces.
func (p *Program) reaches(t types.Type, want map[string]bool, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != p.pkg {
			return false
		}
		if want[n.Obj().Name()] {
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if p.reaches(u.Field(i).Type(), want, seen) {
				return true
			}
		}
	case *types.Slice:
		return p.reaches(u.Elem(), want, seen)
	case *types.Pointer:
		return p.reaches(u.Elem(), want, seen)
	case *types.Interface:
		for n := range want {
			o := p.pkg.Scope().Lookup(n)
			if o == nil || u.NumMethods() == 0 {
				continue
			}
			if types.Implements(o.Type(), u) || types.Implements(types.NewPointer(o.Type()), u) {
				return true
			}
		}
	}
	return false
}

// givesAny: comparisons made with a list of values by the user do not have the one-value invariant
// (see known-findings.txt); functions which take values are not shown to give them.
func givesAny(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if s, ok := t.(*types.Slice); ok {
			t = s.Elem()
		}
		if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			return true
		}
	}
	return false
}

// joining are the functions shown to keep the invariant of groups by the contracts C03_drop,
// C03_no_empty and C03_no_empty_single; their callers are checked against that.
var joining = map[string]bool{"Group.GroupAND": true, "Group.GroupOR": true}

func (x *Exec) keeps(st *State, t types.Type, v, guard *Term, want map[string]bool, depth int, add func(string, *Term)) {
	if depth > 12 || guard == TFalse {
		return
	}
	switch v.op {
	case OIte:
		x.keeps(st, t, v.args[1], mkAnd(guard, v.args[0]), want, depth+1, add)
		x.keeps(st, t, v.args[2], mkAnd(guard, mkNot(v.args[0])), want, depth+1, add)
		return
	case OSym, OSel, OUnbox, OUF, ONil, OSAt, OFirst, OBV:
		return // came in from outside
	}
	if isWrap(v) {
		x.keeps(st, t, v.args[0], guard, want, depth+1, add)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		switch v.op {
		case OPtrTo:
			x.keeps(st, u.Elem(), v.args[0], guard, want, depth+1, add)
		case OPtr:
			x.keeps(st, u.Elem(), st.cells[int(v.ival)], guard, want, depth+1, add)
		}
		return
	case *types.Interface:
		if v.op == OBox {
			x.keeps(st, v.typ, v.args[0], guard, want, depth+1, add)
		}
		return
	case *types.Slice:
		if v.op == ORef {
			v = st.regs[int(v.ival)].val
		}
		switch v.op {
		case OSCat:
			for _, a := range v.args {
				x.keeps(st, t, a, guard, want, depth+1, add)
			}
		case OUnit:
			x.keeps(st, u.Elem(), v.args[0], guard, want, depth+1, add)
		case OIte:
			x.keeps(st, t, v, guard, want, depth+1, add)
		}
		return
	case *types.Struct:
		if v.sort.kind != KStruct {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			x.keeps(st, u.Field(i).Type(), mkSel(v, i), guard, want, depth+1, add)
		}
	}
	n, ok := t.(*types.Named)
	if !ok || !want[n.Obj().Name()] {
		return
	}
	o, ok := x.p.pkg.Scope().Lookup("inv_" + n.Obj().Name()).(*types.Func)
	if !ok {
		return
	}
	x.invDepth++
	saved := x.panics
	x.panics = &[]*Panic{}
	r := x.callFunc(st, o, nil, nil, []*Term{applied(x.deref(st, v))}, o.Pos())
	x.invDepth--
	x.panics = saved
	if os.Getenv("GOVER_DEBUG") != "" {
		fmt.Println("KEEPS", n, cut(v.String(), 600))
	}
	add(n.Obj().Name(), mkOr(mkNot(guard), x.deref(st, r[0])))
}

// applied puts, for a list of conditions mapped with ApplyFieldSpec or ApplyFieldTable, the list
// itself: by the contracts C21_spec and C21_table a group stays a group with as many conditions and
// nothing else becomes one. Only for asking whether a group is empty.
func applied(v *Term) *Term {
	if v.op != OMk {
		return v
	}
	fs := append([]*Term{}, v.args...)
	for i, f := range fs {
		if f.op != OBig || f.name != "seq" || f.args[0].op != OUnit {
			continue
		}
		m := f.args[0].args[0]
		if m.op == OUF && (m.name == "meth:ApplyFieldSpec" || m.name == "meth:ApplyFieldTable") && m.args[0].op == OBV && m.args[0].name == "x" && m.args[0].ival == 0 {
			fs[i] = f.args[1]
		}
	}
	return mkMk(v.sort, fs...)
}

func (x *Exec) runKeeps(c sweepCase, want map[string]bool) (goals []*Obligation, unsupp string) {
	x.cur = "invariants " + c.label
	x.obls, x.frame, x.closures, x.stack, x.fstack, x.tried = nil, nil, nil, nil, nil, nil
	x.quiet, x.ghostW, x.safe = 0, 0, 0
	x.axioms, x.axiomSet = nil, map[*Term]bool{}
	var ps []*Panic
	x.panics = &ps
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				if os.Getenv("GOVER_DEBUG") != "" {
					panic(r)
				}
				u = unsupported{fmt.Sprint("internal: ", r)}
			}
			unsupp = u.msg
		}
	}()
	sig := c.fn.Type().(*types.Signature)
	if sig.TypeParams().Len() > 0 && c.ts == nil {
		x.bad(c.fn.Pos(), "type parameters without a finite type set")
	}
	st := &State{cells: map[int]*Term{}, regs: map[int]Region{}, frozen: map[int]bool{}}
	sym := func(v *types.Var) *Term {
		t := substT(c.ts, v.Type())
		s := x.symOf(v.Name(), t)
		x.invariant(st, t, s)
		return s
	}
	var recv *Term
	if r := sig.Recv(); r != nil {
		recv = sym(r)
	}
	var args []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, sym(sig.Params().At(i)))
	}
	x.force = c.fn
	out := x.callFunc(st, c.fn, c.ts, recv, args, c.fn.Pos())
	if st.dead {
		return
	}
	for i, o := range out {
		if i >= sig.Results().Len() {
			break
		}
		x.keeps(st, substT(c.ts, sig.Results().At(i).Type()), o, TTrue, want, 0, func(n string, g *Term) {
			goals = append(goals, &Obligation{name: n, kind: "invariant", fn: x.cur, pc: append([]*Term{}, st.pc...), goal: g})
		})
	}
	return
}

// leafInvariant tells whether the invariant of a type speaks of the parameters of a value given by
// the user.
func (p *Program) leafInvariant(name string) bool {
	o := p.pkg.Scope().Lookup(name)
	if o == nil {
		return false
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if n, isn := s.Field(i).Type().(*types.Named); isn && n.Obj().Name() == "FieldValue" {
			return true
		}
	}
	return false
}

// keptRec is the outcome for one result of one function.
type keptRec struct {
	Type      string
	Rec       oblRec
	Undecided string
	Assumed   []string
}

// startKept runs the proofs in a process of their own, beside the proofs of the contracts.
func startKept(repo, verif string, limit time.Duration) func(wait bool) []keptRec {
	self, err := os.Executable()
	if err != nil {
		return func(bool) []keptRec { return nil }
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	cmd := exec.CommandContext(ctx, self, "-inv", "-json", "-repo", repo, "-verif", verif, "-contracts", filepath.Join(verif, "contracts"))
	var out bytes.Buffer
	cmd.Stdout = &out
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		cancel()
		return func(bool) []keptRec { return nil }
	}
	go func() { done <- cmd.Wait() }()
	return func(wait bool) []keptRec {
		defer cancel()
		if !wait {
			cancel()
		}
		<-done
		var rs []keptRec
		if json.Unmarshal(out.Bytes(), &rs) != nil {
			return nil
		}
		return rs
	}
}

// invariants shows that the type invariants assumed by the proofs are kept.
func (p *Program) invariants(pr *Prover, deadline time.Time, budget time.Duration, only string) (res []keptRec) {
	var names []string
	for _, n := range p.pkg.Scope().Names() {
		if t, ok := strings.CutPrefix(n, "inv_"); ok {
			names = append(names, t)
		}
	}
	sort.Strings(names)
	give := func(want map[string]bool, what string) {
		for n := range want {
			res = append(res, keptRec{Type: n, Undecided: what})
		}
	}
	for _, c := range p.sweepCases() {
		sig := c.fn.Type().(*types.Signature)
		if only != "" && !strings.Contains(c.label, only) {
			continue
		}
		w := map[string]bool{}
		for _, n := range names {
			if p.leafInvariant(n) && givesAny(sig) {
				continue // the known finding
			}
			for i := 0; i < sig.Results().Len(); i++ {
				if p.reaches(substT(c.ts, sig.Results().At(i).Type()), map[string]bool{n: true}, map[types.Type]bool{}) {
					w[n] = true
				}
			}
		}
		if len(w) == 0 {
			continue
		}
		if time.Now().After(deadline) {
			give(w, "invariants "+c.label+": time")
			continue
		}
		if joining[c.label] {
			continue
		}
		group := w["Group"]
		delete(w, "Group")
		for _, part := range []struct{ want, modular map[string]bool }{{w, nil}, {map[string]bool{"Group": group}, joining}} {
			if len(part.want) == 0 || part.modular != nil && !group {
				continue
			}
			x := newExec(p, pr)
			x.modular = part.modular
			x.deadline = time.Now().Add(100 * time.Second)
			if deadline.Before(x.deadline) {
				x.deadline = deadline
			}
			t := time.Now()
			gs, un := x.runKeeps(c, part.want)
			if un != "" {
				give(part.want, "invariants "+c.label+": outside the verifier's reach: "+strings.SplitN(un, "\n", 2)[0])
				continue
			}
			for _, o := range gs {
				x.discharge(o, budget)
				if !o.ok {
					if os.Getenv("GOVER_DEBUG") != "" {
						fmt.Println(cut(o.detail, 3000))
					}
				}
				r := keptRec{Type: o.name, Rec: oblRec{Contract: o.fn, Name: "result keeps the type invariant of " + o.name, Kind: o.kind, OK: o.ok, How: o.how, Ms: time.Since(t).Milliseconds()}}
				if !o.ok {
					r.Undecided = r.Rec.Contract + ": " + r.Rec.Name
				}
				for a := range x.assumed {
					r.Assumed = append(r.Assumed, a)
				}
				res = append(res, r)
			}
		}
	}
	return
}
