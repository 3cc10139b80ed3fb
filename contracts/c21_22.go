package query

// C21: applying field and table definitions.

func specSpec(f, spec FieldDefinition) FieldDefinition {
	if f.FieldName() == spec.FieldName() {
		return spec
	}
	return f
}

func specTableSet(f FieldDefinition, t TableName) FieldDefinition {
	return vField(string(f.FieldName()), string(t), string(f.Alias()))
}

//verif:contract C21 equalTo.ApplyFieldSpec greater.ApplyFieldSpec greaterOrEqual.ApplyFieldSpec less.ApplyFieldSpec lessOrEqual.ApplyFieldSpec in.ApplyFieldSpec contains.ApplyFieldSpec iContains.ApplyFieldSpec nullValue.ApplyFieldSpec Group.ApplyFieldSpec
//verif:each c
func C21_spec(c Condition, spec FieldDefinition) {
	r := c.ApplyFieldSpec(spec)
	if g, ok := vGroupOf(c); ok {
		h, still := vGroupOf(r)
		var want []Condition
		for _, e := range vConds(g) {
			want = append(want, e.ApplyFieldSpec(spec))
		}
		ghEnsures("every condition of the group", still && ghEq(vConds(h), want))
		ghEnsures("the group itself stays", ghEq(g.BaseCondition, h.BaseCondition) && vBrackets(g) == vBrackets(h))
		return
	}
	kind, base, field, value := vLeaf(c)
	ghRequires(kind != "") // a condition of the library
	kind2, base2, field2, value2 := vLeaf(r)
	ghEnsures("field", field2 == specSpec(field, spec))
	ghEnsures("the rest stays", kind == kind2 && kind != "" && ghEq(base, base2) && ghEq(value, value2))
}

//verif:contract C21 equalTo.ApplyFieldTable greater.ApplyFieldTable greaterOrEqual.ApplyFieldTable less.ApplyFieldTable lessOrEqual.ApplyFieldTable in.ApplyFieldTable contains.ApplyFieldTable iContains.ApplyFieldTable nullValue.ApplyFieldTable Group.ApplyFieldTable
//verif:each c
func C21_table(c Condition, t TableName) {
	r := c.ApplyFieldTable(t)
	if g, ok := vGroupOf(c); ok {
		h, still := vGroupOf(r)
		var want []Condition
		for _, e := range vConds(g) {
			want = append(want, e.ApplyFieldTable(t))
		}
		ghEnsures("every condition of the group", still && ghEq(vConds(h), want))
		ghEnsures("the group itself stays", ghEq(g.BaseCondition, h.BaseCondition) && vBrackets(g) == vBrackets(h))
		return
	}
	kind, base, field, value := vLeaf(c)
	ghRequires(kind != "") // a condition of the library
	kind2, base2, field2, value2 := vLeaf(r)
	ghEnsures("field", field2 == specTableSet(field, t))
	ghEnsures("the rest stays", kind == kind2 && kind != "" && ghEq(base, base2) && ghEq(value, value2))
}

//verif:contract C21 FieldValue.ApplyFieldSpec FieldValue.ApplyFieldTable FieldSorting.ApplyFieldSpec WhereClause.ApplyFieldSpec
func C21_values(v FieldValue, o FieldSorting, w WhereClause, spec FieldDefinition, t TableName) {
	a := v.ApplyFieldSpec(spec)
	ghEnsures("value of a field", a.FieldDefinition == specSpec(v.FieldDefinition, spec) && ghEq(vValue(a), vValue(v)))
	b := v.ApplyFieldTable(t)
	ghEnsures("value of a field of a table", b.FieldDefinition == specTableSet(v.FieldDefinition, t) && ghEq(vValue(b), vValue(v)))
	c := o.ApplyFieldSpec(spec)
	ghEnsures("ordering", c.FieldDefinition == specSpec(o.FieldDefinition, spec) && c.Direction() == o.Direction())
	x, y := vGroup(w), vGroup(w.ApplyFieldSpec(spec))
	var want []Condition
	for _, e := range vConds(x) {
		want = append(want, e.ApplyFieldSpec(spec))
	}
	ghEnsures("where clause", ghEq(vConds(y), want) && ghEq(x.BaseCondition, y.BaseCondition) && vBrackets(x) == vBrackets(y))
}

// C22: marks.

//verif:contract C22 equalTo.Join greater.Join greaterOrEqual.Join less.Join lessOrEqual.Join in.Join contains.Join iContains.Join nullValue.Join Group.Join BaseCondition.Join BaseCondition.JoinType
//verif:each c
func C22_join(c Condition, j JoinType, n int) {
	a := c.Join(j)
	ghEnsures("mark", a.JoinType() == j)
	ghEnsures("negation stays", a.IsNegate() == c.IsNegate())
	ghEnsures("text stays", a.Render(n) == c.Render(n) && a.RenderSQL() == c.RenderSQL())
	ghEnsures("values stay", ghEq(a.Values(), c.Values()))
	ghEnsures("field stays", a.FieldName() == c.FieldName())
	ghEnsures("mark rendered except first", a.RenderJoin(true) == "" && a.RenderJoin(false) == string(j))
	ghEnsures("kind stays", specSameKind(a, c))
}

//verif:contract C22 equalTo.Negate greater.Negate greaterOrEqual.Negate less.Negate lessOrEqual.Negate in.Negate contains.Negate iContains.Negate nullValue.Negate Group.Negate BaseCondition.Negate BaseCondition.IsNegate BaseCondition.RenderNegate Not
//verif:each c
func C22_negate(c Condition, neg bool, n int) {
	a := c.Negate(neg)
	ghEnsures("negation", a.IsNegate() == neg)
	ghEnsures("mark stays", a.JoinType() == c.JoinType())
	back := a.Negate(c.IsNegate())
	ghEnsures("text stays otherwise", back.Render(n) == c.Render(n) && back.RenderSQL() == c.RenderSQL())
	ghEnsures("values stay", ghEq(a.Values(), c.Values()))
	ghEnsures("field stays", a.FieldName() == c.FieldName())
	ghEnsures("Not", Not(c).IsNegate() && Not(c).Render(n) == c.Negate(true).Render(n) && Not(c).JoinType() == c.JoinType())
	ghEnsures("negation rendered when set", (c.RenderNegate() == "NOT") == c.IsNegate() && (c.RenderNegate() == "") == !c.IsNegate())
	ghEnsures("kind stays", specSameKind(a, c))
}

// specSameKind: the same condition apart from the marks.
func specSameKind(a, b Condition) bool {
	if g, ok := vGroupOf(a); ok {
		h, ok2 := vGroupOf(b)
		return ok2 && ghEq(vConds(g), vConds(h)) && vBrackets(g) == vBrackets(h)
	}
	k, _, f, v := vLeaf(a)
	k2, _, f2, v2 := vLeaf(b)
	return k == k2 && f == f2 && ghEq(v, v2)
}

//verif:contract C22 JoinType.Join JoinType.SetToAll JoinType.String
func C22_lists(j JoinType, c, d Condition, more []Condition) {
	ghRequires(c != nil && d != nil)
	ghEnsures("one condition", ghEq(j.Join(c), c.Join(j)))
	all := append([]Condition{c, d}, more...)
	g, ok := vGroupOf(j.Join(all...))
	ghEnsures("several conditions make a group", ok && ghEq(g, NewGroup(j, all...)))
	var want []Condition
	for _, e := range more {
		want = append(want, e.Join(j))
	}
	ghEnsures("every element is marked", ghEq(j.SetToAll(more...), want))
	ghEnsures("name", j.String() == string(j))
}

//verif:contract C22 Group.WithBrackets
func C22_brackets(g Group) {
	h := g.WithBrackets()
	ghEnsures("brackets only", vBrackets(h) && ghEq(vConds(g), vConds(h)) && ghEq(g.BaseCondition, h.BaseCondition))
}

//verif:contract C22 And Or
//verif:each c
func C22_single(c Condition, n int) {
	a, o := And(c), Or(c)
	ghEnsures("marks", a.JoinType() == LogicalAND && o.JoinType() == LogicalOR)
	ghEnsures("nothing else", specSameKind(a, c) && specSameKind(o, c) && a.IsNegate() == c.IsNegate() && o.IsNegate() == c.IsNegate())
}
