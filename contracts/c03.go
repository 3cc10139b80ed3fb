package query

import (
	"fmt"
	"hash/fnv"
)

// C03: the boolean meaning of conditions.

// ghTruth is the truth value of a condition under an assignment of truth values to the leaves
// (chosen by seed): a group means what its conditions mean, and its negation the opposite.
// The verifier reads it as an arbitrary function of a leaf which ignores operator and negation.
func ghTruth(c Condition, seed int) bool {
	var core bool
	if g, ok := vGroupOf(c); ok {
		core = ghMeaning(vConds(g), seed)
	} else {
		leaf := c.Join(LogicalAND).Negate(false)
		h := fnv.New64a()
		fmt.Fprint(h, seed, leaf.RenderSQL(), leaf.Values())
		core = h.Sum64()>>20&1 == 1
	}
	return core != c.IsNegate()
}

// ghMeaning is the meaning of a list of conditions: each is joined by its own AND/OR mark (the first
// mark ignored), AND binds tighter than OR. The verifier uses these laws of it, which are proved in
// lemmas/Meaning.lean: of conditions all marked AND the conjunction, of conditions all marked OR the
// disjunction, and a condition marked OR at the end is an alternative to all before it.
func ghMeaning(cs []Condition, seed int) bool {
	some, all := false, true
	for i, c := range cs {
		if i > 0 && c.JoinType() == LogicalOR {
			some = some || all
			all = true
		}
		all = all && ghTruth(c, seed)
	}
	return some || all
}

// specAll: all of the conditions hold.
func specAll(cs []Condition, seed int) bool {
	all := true
	for _, c := range cs {
		all = all && ghTruth(c, seed)
	}
	return all
}

func specAny(cs []Condition, seed int) bool {
	some := false
	for _, c := range cs {
		some = some || ghTruth(c, seed)
	}
	return some
}

// specDrop leaves out groups without conditions.
func specDrop(cs []Condition) []Condition {
	var r []Condition
	for _, c := range cs {
		if !specEmptyGroup(c) {
			r = append(r, c)
		}
	}
	return r
}

//verif:contract C03 Group.GroupAND Group.And Group.addConditions Group.addSingleCondition Group.addGroup Group.hasAll Group.hasOne
func C03_group_and(g Group, adds []Condition, seed int) {
	ghRequires(specNoEmpty(adds))
	u := g.GroupAND(adds...)
	have := len(vConds(g)) > 0
	ghEnsures("existing AND all of the added", ghImplies(have, ghTruth(u, seed) == (ghTruth(g, seed) && specAll(adds, seed))))
	ghEnsures("into an empty group", ghImplies(!have && len(adds) > 0, ghEq(vConds(u), adds) && !u.IsNegate()))
	ghEnsures("nothing to add", ghImplies(len(adds) == 0, ghEq(u, g)))
}

//verif:contract C03 Group.GroupOR Group.Or Group.addConditions Group.addSingleCondition Group.addGroup Group.hasAll Group.hasOne
func C03_group_or(g Group, adds []Condition, seed int) {
	ghRequires(specNoEmpty(adds))
	u := g.GroupOR(adds...)
	have := len(vConds(g)) > 0
	ghEnsures("existing OR all of the added", ghImplies(have && len(adds) > 0, ghTruth(u, seed) == (ghTruth(g, seed) || specAll(adds, seed))))
	ghEnsures("into an empty group", ghImplies(!have && len(adds) > 0, ghEq(vConds(u), adds) && !u.IsNegate()))
	ghEnsures("nothing to add", ghImplies(len(adds) == 0, ghEq(u, g)))
}

// groups without conditions contribute nothing, whether added or given to a new group.
//
//verif:contract C03 Group.GroupAND Group.GroupOR Group.And Group.Or NewGroup withoutEmptyGroups isEmptyGroup
func C03_drop(g Group, adds []Condition, op JoinType) {
	kept := specDrop(adds)
	ghEnsures("and", ghEq(g.GroupAND(adds...), g.GroupAND(kept...)))
	ghEnsures("or", ghEq(g.GroupOR(adds...), g.GroupOR(kept...)))
	ghEnsures("new group", ghEq(vConds(NewGroup(op, adds...)), vConds(NewGroup(op, kept...))))
	ghEnsures("and of condition", ghEq(g.And(adds...), Condition(g.GroupAND(adds...))))
	ghEnsures("or of condition", ghEq(g.Or(adds...), Condition(g.GroupOR(adds...))))
}

// lists of conditions made by the package never hold a group without conditions.
//
//verif:contract C03 NewGroup withoutEmptyGroups isEmptyGroup
func C03_new_no_empty(cs []Condition, op JoinType) {
	ghEnsures("new group", specNoEmpty(vConds(NewGroup(op, cs...))))
}

//verif:contract C03 Group.GroupAND Group.GroupOR
func C03_no_empty(g Group, adds []Condition) {
	ghRequires(specNoEmpty(adds) && len(adds) != 1) // by C03_drop the others make no difference
	ghEnsures("and", specNoEmpty(vConds(g.GroupAND(adds...))))
	ghEnsures("or", specNoEmpty(vConds(g.GroupOR(adds...))))
}

//verif:contract C03 Group.GroupAND Group.GroupOR
//verif:each c
func C03_no_empty_single(g Group, c Condition) {
	ghRequires(!specEmptyGroup(c))
	ghEnsures("and", specNoEmpty(vConds(g.GroupAND(c))))
	ghEnsures("or", specNoEmpty(vConds(g.GroupOR(c))))
}

// a newly made group joins all its conditions with the given operator.
//
//verif:contract C03,C22 NewGroup JoinType.SetToAll JoinType.Join
func C03_new(cs []Condition, seed int) {
	ghRequires(specNoEmpty(cs))
	a, o := NewGroup(LogicalAND, cs...), NewGroup(LogicalOR, cs...)
	ghEnsures("AND", ghImplies(len(cs) > 0, ghTruth(a, seed) == specAll(cs, seed)))
	ghEnsures("OR", ghImplies(len(cs) > 0, ghTruth(o, seed) == specAny(cs, seed)))
	ghEnsures("as many", len(vConds(a)) == len(cs) && len(vConds(o)) == len(cs))
}

//verif:contract C03,C22 JoinType.Join JoinType.SetToAll
func C03_join(cs []Condition, op JoinType, seed int) {
	ghRequires(specNoEmpty(cs) && len(cs) > 0)
	c := op.Join(cs...)
	ghEnsures("marks one, joins several", ghTruth(c, seed) == (op == LogicalAND && specAll(cs, seed) || op == LogicalOR && specAny(cs, seed)))
	ghEnsures("each keeps its meaning", ghMeaning(op.SetToAll(cs...), seed) == (op == LogicalAND && specAll(cs, seed) || op == LogicalOR && specAny(cs, seed)))
}

// the methods of every condition.
//
//verif:contract C03 equalTo.And equalTo.Or greater.And greater.Or greaterOrEqual.And greaterOrEqual.Or less.And less.Or lessOrEqual.And lessOrEqual.Or in.And in.Or contains.And contains.Or iContains.And iContains.Or nullValue.And nullValue.Or Group.And Group.Or
//verif:each c
func C03_condition(c Condition, adds []Condition, seed int) {
	ghRequires(specNoEmpty(adds) && !specEmptyGroup(c))
	ghEnsures("AND", ghTruth(c.And(adds...), seed) == (ghTruth(c, seed) && specAll(adds, seed)))
	ghEnsures("OR", ghTruth(c.Or(adds...), seed) == (ghTruth(c, seed) || len(adds) > 0 && specAll(adds, seed)))
}

//verif:contract C03 And Or Not
func C03_functions(c Condition, adds []Condition, seed int) {
	ghRequires(specNoEmpty(adds) && !specEmptyGroup(c))
	ghEnsures("And", ghTruth(And(c, adds...), seed) == (ghTruth(c, seed) && specAll(adds, seed)))
	ghEnsures("Or", ghTruth(Or(c, adds...), seed) == (ghTruth(c, seed) || len(adds) > 0 && specAll(adds, seed)))
	ghEnsures("Not", ghTruth(Not(c), seed) == !ghTruth(c.Negate(false), seed))
}

//verif:contract C03 And Or
func C03_functions_empty(g Group, adds []Condition) {
	ghRequires(specNoEmpty(adds) && len(vConds(g)) == 0 && len(adds) > 0)
	a, ok := vGroupOf(And(g, adds...))
	ghEnsures("And to an empty group", ok && ghEq(vConds(a), adds) && !a.IsNegate())
	o, ok2 := vGroupOf(Or(g, adds...))
	ghEnsures("Or to an empty group", ok2 && ghEq(vConds(o), adds) && !o.IsNegate())
}

// joining and negating change the mark asked for only: negation is set, not toggled, and a group
// stays a group of the same conditions.
//
//verif:contract C03 equalTo.Negate equalTo.Join greater.Negate greater.Join greaterOrEqual.Negate greaterOrEqual.Join less.Negate less.Join lessOrEqual.Negate lessOrEqual.Join in.Negate in.Join contains.Negate contains.Join iContains.Negate iContains.Join nullValue.Negate nullValue.Join Group.Negate Group.Join
//verif:each c
func C03_marks(c Condition, b bool, op JoinType, seed int) {
	plain := ghTruth(c, seed) != c.IsNegate()
	ghEnsures("negation is set", ghTruth(c.Negate(b), seed) == (plain != b) && c.Negate(b).IsNegate() == b)
	ghEnsures("negation leaves the operator", c.Negate(b).JoinType() == c.JoinType())
	ghEnsures("joining keeps the meaning", ghTruth(c.Join(op), seed) == ghTruth(c, seed) && c.Join(op).JoinType() == op)
	ghEnsures("joining keeps the negation", c.Join(op).IsNegate() == c.IsNegate())
	g, was := vGroupOf(c)
	j, is := vGroupOf(c.Join(op))
	n, is2 := vGroupOf(c.Negate(b))
	ghEnsures("a group stays a group", was == is && was == is2 && ghEq(vConds(g), vConds(j)) && ghEq(vConds(g), vConds(n)) && vBrackets(g) == vBrackets(j) && vBrackets(g) == vBrackets(n))
}

//verif:contract C03 WhereClause.GroupAND WhereClause.GroupOR NewWhere
func C03_where(w WhereClause, adds []Condition) {
	ghEnsures("and", ghEq(vGroup(w.GroupAND(adds...)), vGroup(w).GroupAND(adds...)))
	ghEnsures("or", ghEq(vGroup(w.GroupOR(adds...)), vGroup(w).GroupOR(adds...)))
	ghEnsures("new is empty", len(vConds(vGroup(NewWhere()))) == 0 && !vGroup(NewWhere()).IsNegate())
}

//verif:contract C03 DeleteBuilder.Where UpdateBuilder.Where BaseSelectBuilder.Where SelectManyBuilder.Where SelectSingleBuilder.Where
func C03_builders(d DeleteBuilder, u UpdateBuilder, q BaseSelectBuilder, m SelectManyBuilder, s SelectSingleBuilder, adds []Condition) {
	ghEnsures("delete", ghEq(vDeleteWhere(d.Where(adds...)), vDeleteWhere(d).GroupAND(adds...)))
	ghEnsures("update", ghEq(vUpdateWhere(u.Where(adds...)), vUpdateWhere(u).GroupAND(adds...)))
	ghEnsures("base query", ghEq(vWhere(q.Where(adds...)), vWhere(q).GroupAND(adds...)))
	ghEnsures("list query", ghEq(vWhere(m.Where(adds...).BaseSelectBuilder), vWhere(m.BaseSelectBuilder).GroupAND(adds...)))
	ghEnsures("single query", ghEq(vWhere(s.Where(adds...).BaseSelectBuilder), vWhere(s.BaseSelectBuilder).GroupAND(adds...)))
}
