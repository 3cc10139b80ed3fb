package query

// Type invariants: what holds of every value made through the exported API. They are assumed for
// symbolic inputs of these types and respected by the generator of the replay harness.

// pattern conditions hold a text.
func inv_contains(c contains) bool {
	_, ok := c.value.(string)
	return ok
}

func inv_iContains(c iContains) bool {
	_, ok := c.value.(string)
	return ok
}

// comparisons are made with a value that expands to exactly one parameter (see known-findings.txt
// for comparisons with lists).
func inv_equalTo(c equalTo) bool               { return len(c.FieldValue.Values()) == 1 }
func inv_greater(c greater) bool               { return len(c.FieldValue.Values()) == 1 }
func inv_greaterOrEqual(c greaterOrEqual) bool { return len(c.FieldValue.Values()) == 1 }
func inv_less(c less) bool                     { return len(c.FieldValue.Values()) == 1 }
func inv_lessOrEqual(c lessOrEqual) bool       { return len(c.FieldValue.Values()) == 1 }

// a where clause is never negated as a whole.
func inv_WhereClause(w WhereClause) bool { return !w.group.IsNegate() }

func inv_UpdateBuilder(u UpdateBuilder) bool { return !u.where.IsNegate() }
func inv_DeleteBuilder(d DeleteBuilder) bool { return !d.where.IsNegate() }

// groups hold no empty groups: they are dropped when added.
func inv_Group(g Group) bool { return specNoEmpty(g.conditions) }

func specNoEmpty(cs []Condition) bool {
	for _, c := range cs {
		if specEmptyGroup(c) {
			return false
		}
	}
	return true
}

func specEmptyGroup(c Condition) bool {
	switch g := c.(type) {
	case Group:
		return len(vConds(g)) == 0
	case *Group:
		return len(vConds(*g)) == 0
	}
	return false
}
