package main

import (
	"fmt"
	"go/types"
)

// Conditions: the boolean meaning of conditions and groups, and what is known of a condition held
// in an interface.
//
// truth(x) is the truth value of a condition under an arbitrary assignment: evpos(x) without its
// negation. evpos of a group is meaning(conditions). The laws of meaning used here are lemmas about
// its executable definition in the contracts (specMeaning); they are proved in lemmas/Meaning.lean.

func (p *Program) groupType() types.Type {
	o := p.pkg.Scope().Lookup("Group")
	if o == nil {
		return nil
	}
	return o.Type()
}

var groupT types.Type // the type Group of the package, if there is one

func fieldIdx(s *Sort, name string) int {
	if s.kind != KStruct {
		return -1
	}
	for i := 0; i < s.st.NumFields(); i++ {
		if s.st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func selName(v *Term, name string) *Term {
	i := fieldIdx(v.sort, name)
	if i < 0 {
		return nil
	}
	return mkSel(v, i)
}

func setName(v *Term, name string, w *Term) *Term {
	i := fieldIdx(v.sort, name)
	return setPath(v, []int{i}, w)
}

// isGroupKind: the type is Group (by value) or a pointer to it.
func isGroupKind(t types.Type) (val, ptr bool) {
	if groupT == nil {
		return false, false
	}
	if types.Identical(t, groupT) {
		return true, false
	}
	if q, ok := t.(*types.Pointer); ok && types.Identical(q.Elem(), groupT) {
		return false, true
	}
	return false, false
}

// groupOf is the group inside a condition that is a Group or a pointer to one.
func groupOf(x *Term) *Term {
	v := mkUnbox(groupT, x)
	pt := types.NewPointer(groupT)
	w := mkUF("pointee", sortOf(groupT), mkUnbox(pt, x))
	return mkIte(mkIs(groupT, x), v, w)
}

func withBase(g *Term, field string, v *Term) *Term {
	b := selName(g, "BaseCondition")
	if b == nil || fieldIdx(b.sort, field) < 0 {
		return nil
	}
	return setName(g, "BaseCondition", setName(b, field, v))
}

// isOfWith: type test of a condition whose operator or negation was set. Joining or negating a
// group (or a pointer to one) gives a Group with the same conditions; nothing else becomes a group.
// (Shown of the conditions of the package by contract C03_marks.)
func isOfWith(t types.Type, x *Term) *Term {
	val, ptr := isGroupKind(t)
	if val {
		in := x.args[0]
		return mkOr(mkIs(groupT, in), mkIs(types.NewPointer(groupT), in))
	}
	if ptr {
		return TFalse
	}
	return nil
}

func unboxWith(t types.Type, x *Term) *Term {
	val, _ := isGroupKind(t)
	if !val {
		return nil
	}
	in := x.args[0]
	if in.op == OUF && (in.name == "withJoin" || in.name == "withNeg") {
		in2 := unboxWith(t, in)
		if in2 == nil {
			return nil
		}
		if x.name == "withJoin" {
			return withBase(in2, "joinType", mkIte(x.args[1], mkStr("OR"), mkStr("AND")))
		}
		return withBase(in2, "negate", x.args[1])
	}
	if x.name == "withJoin" {
		return withBase(groupOf(in), "joinType", mkIte(x.args[1], mkStr("OR"), mkStr("AND")))
	}
	return withBase(groupOf(in), "negate", x.args[1])
}

// boxedCond evaluates an interface method on a condition of known dynamic type.
func boxedCond(name string, t *Term, extra []*Term) *Term {
	v := t.args[0]
	if _, ok := t.typ.Underlying().(*types.Pointer); ok {
		v = mkUF("pointee", sortOf(t.typ.Underlying().(*types.Pointer).Elem()), v)
	}
	if v.sort.kind != KStruct {
		return nil
	}
	b := selName(v, "BaseCondition")
	if b == nil {
		return nil
	}
	switch name {
	case "isneg":
		return selName(b, "negate")
	case "jOr":
		if j := selName(b, "joinType"); j != nil {
			return mkUF("jor!", SBool, j)
		}
	case "evpos":
		val, ptr := isGroupKind(t.typ)
		if val || ptr {
			if cs := selName(v, "conditions"); cs != nil {
				return mkMeaning(cs)
			}
			return nil
		}
		z := zeroOf(b.sort.typ)
		if b == z && v == t.args[0] {
			return nil
		}
		vt := t.typ
		if q, ok := vt.(*types.Pointer); ok {
			vt = q.Elem()
		}
		return mkUF("evpos", SBool, mkBox(vt, setName(v, "BaseCondition", z)))
	}
	return nil
}

func mkTruth(x *Term) *Term {
	return mkNot(mkIff(mkUF("evpos", SBool, x), mkUF("isneg", SBool, x)))
}

func mkMeaning(cs *Term) *Term {
	if cs.op == OIte {
		return mkIte(cs.args[0], mkMeaning(cs.args[1]), mkMeaning(cs.args[2]))
	}
	if isEmptySeq(cs) {
		return TTrue
	}
	if cs.op == OUnit {
		return mkTruth(cs.args[0])
	}
	return mkUF("meaning", SBool, cs)
}

// meaningLemmas are the laws of meaning for the lists at hand.
func (p *Prover) meaningLemmas(facts []*Term, goal *Term) []*Term {
	var r []*Term
	done := map[*Term]bool{}
	var add func(s *Term)
	add = func(s *Term) {
		if done[s] || s.fv {
			return
		}
		done[s] = true
		m := mkMeaning(s)
		if m.op != OUF || m.name != "meaning" {
			return
		}
		d, y := freshSym("d", s.sort), freshSym("x", s.sort.elem)
		later := mkNot(mkEqZ(mkSLen(d)))
		or := mkUF("jOr", SBool, y)
		someOr := mkBig("or", SBool, d, y, mkAnd(later, or), s)
		someAnd := mkBig("or", SBool, d, y, mkAnd(later, mkNot(or)), s)
		someTrue := mkBig("or", SBool, d, y, mkTruth(y), s)
		someFalse := mkBig("or", SBool, d, y, mkNot(mkTruth(y)), s)
		r = append(r, mkOr(someOr, mkIff(m, mkNot(someFalse))))
		r = append(r, mkOr(mkEqZ(mkSLen(s)), someAnd, mkIff(m, someTrue)))
		if s.op == OSCat {
			n := len(s.args)
			if u := s.args[n-1]; u.op == OUnit {
				pre := mkSCat(s.sort, s.args[:n-1]...)
				r = append(r, mkOr(mkEqZ(mkSLen(pre)), mkNot(mkUF("jOr", SBool, u.args[0])), mkIff(m, mkOr(mkMeaning(pre), mkTruth(u.args[0])))))
				add(pre)
			}
		}
	}
	visit := func(u *Term) bool {
		if u.op == OUF && u.name == "meaning" {
			add(u.args[0])
		}
		return true
	}
	seen := map[*Term]bool{}
	walkM(goal, visit, seen)
	for _, f := range facts {
		walkM(f, visit, seen)
	}
	return r
}

// opened gives the boxed form of a condition known to be a Group or a pointer to one.
func opened(f *Term) (from, to *Term) {
	if f.op != OIs {
		return nil, nil
	}
	val, ptr := isGroupKind(f.typ)
	x := f.args[0]
	if !val && !ptr || x.op == OBox || x.fv {
		return nil, nil
	}
	g := leaf(raw(Term{op: OSym, sort: sortOf(groupT), name: fmt.Sprintf("group(#%d)", x.id)}), groupT)
	if ptr {
		return x, mkBox(f.typ, raw(Term{op: OPtrTo, sort: sortOf(f.typ), args: []*Term{g}}))
	}
	return x, mkBox(f.typ, g)
}

func mentions(facts []*Term, goal *Term, name string) bool {
	hit := false
	f := func(u *Term) bool {
		if u.op == OUF && u.name == name {
			hit = true
		}
		return !hit
	}
	seen := map[*Term]bool{}
	walkM(goal, f, seen)
	for _, t := range facts {
		walkM(t, f, seen)
	}
	return hit
}
