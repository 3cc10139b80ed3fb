package query

import (
	"errors"
	"strconv"
	"strings"
	"unicode"
)

// C16: joins.

func specJoinWord(t TableJoinType) string {
	switch t {
	case InnerJoin:
		return "INNER JOIN"
	case LeftJoin:
		return "LEFT JOIN"
	case RightJoin:
		return "RIGHT JOIN"
	}
	return "FULL JOIN"
}

func specJoin(t TableJoinType, right TableIdent, l, r FieldDefinition) string {
	return specJoinWord(t) + " " + right.RenderFrom() + " ON " +
		string(l.TableName()) + "." + string(l.FieldName()) + "=" + string(r.TableName()) + "." + string(r.FieldName())
}

func specKnownJoin(t TableJoinType) bool {
	return t == InnerJoin || t == LeftJoin || t == RightJoin || t == FullJoin
}

//verif:contract C16,C15 TableJoiner.RenderFrom NewTableJoiner JoinFields JoinCondition.Render TableJoiner.By TableJoinType.String
func C16_joiner(t TableJoinType, right TableIdent, l, r, l2, r2 FieldDefinition) {
	ghRequires(specKnownJoin(t))
	j := NewTableJoiner(right, t, JoinFields(l, r))
	ghEnsures("text", j.RenderFrom() == specJoin(t, right, l, r))
	ghEnsures("type", j.JoinType() == t && t.String() == specJoinWord(t))
	ghEnsures("condition", ghEq(j.JoinCondition(), JoinFields(l, r)))
	ghEnsures("condition text", JoinFields(l, r).Render() == string(l.TableName())+"."+string(l.FieldName())+"="+string(r.TableName())+"."+string(r.FieldName()))
	ghEnsures("By changes the condition only", j.By(l2, r2).RenderFrom() == specJoin(t, right, l2, r2))
}

//verif:contract C16 JoinCondition.Using JoinCondition.InnerJoin JoinCondition.LeftJoin JoinCondition.RightJoin JoinCondition.FullJoin TableJoinType.By
func C16_using(t TableJoinType, l, r FieldDefinition) {
	ghRequires(specKnownJoin(t))
	name, alias, ok := specTable(string(r.TableName()))
	right := TableName(name).identOr(alias)
	c := JoinFields(l, r)
	j, p := ghTry(func() TableJoiner { return c.Using(t) })
	ghEnsures("refused exactly for malformed table names", p == !ok)
	ghEnsures("Using", ghImplies(ok, j.RenderFrom() == specJoin(t, right, l, r)))
	b, p2 := ghTry(func() TableJoiner { return t.By(l, r) })
	ghEnsures("By", p2 == !ok && ghImplies(ok, ghEq(b, j)))
	i, p3 := ghTry(func() TableJoiner { return c.InnerJoin() })
	ghEnsures("InnerJoin", p3 == !ok && ghImplies(ok, i.RenderFrom() == specJoin(InnerJoin, right, l, r)))
	le, p4 := ghTry(func() TableJoiner { return c.LeftJoin() })
	ghEnsures("LeftJoin", p4 == !ok && ghImplies(ok, le.RenderFrom() == specJoin(LeftJoin, right, l, r)))
	ri, p5 := ghTry(func() TableJoiner { return c.RightJoin() })
	ghEnsures("RightJoin", p5 == !ok && ghImplies(ok, ri.RenderFrom() == specJoin(RightJoin, right, l, r)))
	fu, p6 := ghTry(func() TableJoiner { return c.FullJoin() })
	ghEnsures("FullJoin", p6 == !ok && ghImplies(ok, fu.RenderFrom() == specJoin(FullJoin, right, l, r)))
}

// identOr is a table with an alias, without parsing anything.
func (t TableName) identOr(alias string) TableIdent {
	return vIdent(string(t), alias)
}

// specAddJoin: the list of joins with one more at the end.
func specAddJoin(js []TableJoiner, j TableJoiner) []TableJoiner {
	var r []TableJoiner
	for _, x := range js {
		r = append(r, x)
	}
	return append(r, j)
}

//verif:contract C16,C11 BaseSelectBuilder.Join BaseSelectBuilder.InnerJoin BaseSelectBuilder.LeftJoin BaseSelectBuilder.RightJoin BaseSelectBuilder.FullJoin incompleteBaseJoiner.On
func C16_base(q BaseSelectBuilder, right TableIdent, t TableJoinType, l, r FieldDefinition) {
	ghRequires(specKnownJoin(t))
	u := q.Join(right, t).On(l, r)
	want := specAddJoin(vJoins(q), NewTableJoiner(right, t, JoinFields(l, r)))
	ghEnsures("Join adds the join at the end", ghEq(vJoins(u), want))
	ghEnsures("the rest stays", ghEq(vTable(u), vTable(q)) && ghEq(vFields(u), vFields(q)) && ghEq(vWhere(u), vWhere(q)))
	ghEnsures("InnerJoin", ghEq(q.InnerJoin(right).On(l, r), q.Join(right, InnerJoin).On(l, r)))
	ghEnsures("LeftJoin", ghEq(q.LeftJoin(right).On(l, r), q.Join(right, LeftJoin).On(l, r)))
	ghEnsures("RightJoin", ghEq(q.RightJoin(right).On(l, r), q.Join(right, RightJoin).On(l, r)))
	ghEnsures("FullJoin", ghEq(q.FullJoin(right).On(l, r), q.Join(right, FullJoin).On(l, r)))
}

//verif:contract C16,C11 BaseSelectBuilder.Join incompleteBaseJoiner.On
func C16_base_twice(q BaseSelectBuilder, right, right2 TableIdent, t, t2 TableJoinType, l, r, l2, r2 FieldDefinition) {
	ghRequires(specKnownJoin(t) && specKnownJoin(t2))
	pending := q.Join(right, t)
	a := pending.On(l, r)
	b := pending.On(l2, r2)
	ghEnsures("finished once", ghEq(vJoins(a), specAddJoin(vJoins(q), NewTableJoiner(right, t, JoinFields(l, r)))))
	ghEnsures("finished again", ghEq(vJoins(b), specAddJoin(vJoins(q), NewTableJoiner(right, t, JoinFields(l2, r2)))))
	c := a.Join(right2, t2).On(l2, r2)
	ghEnsures("next join", ghEq(vJoins(c), specAddJoin(vJoins(a), NewTableJoiner(right2, t2, JoinFields(l2, r2)))))
}

//verif:contract C16,C11 SelectManyBuilder.Join SelectManyBuilder.InnerJoin SelectManyBuilder.LeftJoin SelectManyBuilder.RightJoin SelectManyBuilder.FullJoin incompleteManyJoiner.On
func C16_many(q SelectManyBuilder, right TableName, t TableJoinType, l, r FieldDefinition) {
	ghRequires(specKnownJoin(t))
	name, alias, ok := specTable(string(right))
	j := NewTableJoiner(vIdent(name, alias), t, JoinFields(l, r))
	u, p := ghTry(func() SelectManyBuilder { return q.Join(right, t).On(l, r) })
	ghEnsures("refused exactly for malformed table names", p == !ok)
	ghEnsures("Join adds the join at the end", ghImplies(ok, ghEq(vJoins(u.BaseSelectBuilder), specAddJoin(vJoins(q.BaseSelectBuilder), j))))
	ghEnsures("the rest stays", ghImplies(ok, ghEq(vTable(u.BaseSelectBuilder), vTable(q.BaseSelectBuilder)) && ghEq(vFields(u.BaseSelectBuilder), vFields(q.BaseSelectBuilder)) &&
		ghEq(vWhere(u.BaseSelectBuilder), vWhere(q.BaseSelectBuilder)) && vOffset(u) == vOffset(q) && vLimit(u) == vLimit(q) && ghEq(vOrder(u), vOrder(q))))
	i, p2 := ghTry(func() SelectManyBuilder { return q.InnerJoin(right).On(l, r) })
	i2, _ := ghTry(func() SelectManyBuilder { return q.Join(right, InnerJoin).On(l, r) })
	ghEnsures("InnerJoin", p2 == !ok && ghImplies(ok, ghEq(i, i2)))
	le, p3 := ghTry(func() SelectManyBuilder { return q.LeftJoin(right).On(l, r) })
	le2, _ := ghTry(func() SelectManyBuilder { return q.Join(right, LeftJoin).On(l, r) })
	ghEnsures("LeftJoin", p3 == !ok && ghImplies(ok, ghEq(le, le2)))
	ri, p4 := ghTry(func() SelectManyBuilder { return q.RightJoin(right).On(l, r) })
	ri2, _ := ghTry(func() SelectManyBuilder { return q.Join(right, RightJoin).On(l, r) })
	ghEnsures("RightJoin", p4 == !ok && ghImplies(ok, ghEq(ri, ri2)))
	fu, p5 := ghTry(func() SelectManyBuilder { return q.FullJoin(right).On(l, r) })
	fu2, _ := ghTry(func() SelectManyBuilder { return q.Join(right, FullJoin).On(l, r) })
	ghEnsures("FullJoin", p5 == !ok && ghImplies(ok, ghEq(fu, fu2)))
}

//verif:contract C16,C11 SelectSingleBuilder.Join SelectSingleBuilder.InnerJoin SelectSingleBuilder.LeftJoin SelectSingleBuilder.FullJoin incompleteSingleJoiner.On
func C16_single(q SelectSingleBuilder, right TableName, t TableJoinType, l, r FieldDefinition) {
	ghRequires(specKnownJoin(t))
	name, alias, ok := specTable(string(right))
	j := NewTableJoiner(vIdent(name, alias), t, JoinFields(l, r))
	u, p := ghTry(func() SelectSingleBuilder { return q.Join(right, t).On(l, r) })
	ghEnsures("refused exactly for malformed table names", p == !ok)
	ghEnsures("Join adds the join at the end", ghImplies(ok, ghEq(vJoins(u.BaseSelectBuilder), specAddJoin(vJoins(q.BaseSelectBuilder), j))))
	ghEnsures("the rest stays", ghImplies(ok, ghEq(vTable(u.BaseSelectBuilder), vTable(q.BaseSelectBuilder)) && ghEq(vFields(u.BaseSelectBuilder), vFields(q.BaseSelectBuilder)) &&
		ghEq(vWhere(u.BaseSelectBuilder), vWhere(q.BaseSelectBuilder))))
	i, p2 := ghTry(func() SelectSingleBuilder { return q.InnerJoin(right).On(l, r) })
	i2, _ := ghTry(func() SelectSingleBuilder { return q.Join(right, InnerJoin).On(l, r) })
	ghEnsures("InnerJoin", p2 == !ok && ghImplies(ok, ghEq(i, i2)))
	le, p3 := ghTry(func() SelectSingleBuilder { return q.LeftJoin(right).On(l, r) })
	le2, _ := ghTry(func() SelectSingleBuilder { return q.Join(right, LeftJoin).On(l, r) })
	ghEnsures("LeftJoin", p3 == !ok && ghImplies(ok, ghEq(le, le2)))
	ri, p4 := ghTry(func() SelectSingleBuilder { return q.RightJoin(right).On(l, r) })
	ri2, _ := ghTry(func() SelectSingleBuilder { return q.Join(right, RightJoin).On(l, r) })
	ghEnsures("RightJoin", p4 == !ok && ghImplies(ok, ghEq(ri, ri2)))
	fu, p5 := ghTry(func() SelectSingleBuilder { return q.FullJoin(right).On(l, r) })
	fu2, _ := ghTry(func() SelectSingleBuilder { return q.Join(right, FullJoin).On(l, r) })
	ghEnsures("FullJoin", p5 == !ok && ghImplies(ok, ghEq(fu, fu2)))
}

//verif:contract C16 TableIdent.Join TableIdent.InnerJoin TableIdent.LeftJoin TableIdent.RightJoin TableIdent.FullJoin TableJoinType.Tables
func C16_ident(t TableIdent, right TableIdent, jt TableJoinType, l, r FieldDefinition) {
	ghRequires(specKnownJoin(jt))
	q := SelectFrom(t)
	ghEnsures("Join", ghEq(t.Join(right, jt).On(l, r), q.Join(right, jt).On(l, r)))
	ghEnsures("InnerJoin", ghEq(t.InnerJoin(right).On(l, r), q.Join(right, InnerJoin).On(l, r)))
	ghEnsures("LeftJoin", ghEq(t.LeftJoin(right).On(l, r), q.Join(right, LeftJoin).On(l, r)))
	ghEnsures("RightJoin", ghEq(t.RightJoin(right).On(l, r), q.Join(right, RightJoin).On(l, r)))
	ghEnsures("FullJoin", ghEq(t.FullJoin(right).On(l, r), q.Join(right, FullJoin).On(l, r)))
	ghEnsures("Tables", ghEq(jt.Tables(t, right).On(l, r), q.Join(right, jt).On(l, r)))
}

//verif:contract C16 TableName.Join TableName.InnerJoin TableName.LeftJoin TableName.RightJoin TableName.FullJoin
func C16_name(t TableName, right TableIdent, jt TableJoinType, l, r FieldDefinition) {
	ghRequires(specKnownJoin(jt))
	_, _, ok := specTable(string(t))
	q, p := ghTry(func() BaseSelectBuilder { return SelectFrom(t) })
	ghEnsures("SelectFrom refuses malformed names", p == !ok)
	a, p1 := ghTry(func() BaseSelectBuilder { return t.Join(right, jt).On(l, r) })
	ghEnsures("Join", p1 == !ok && ghImplies(ok, ghEq(a, q.Join(right, jt).On(l, r))))
	b, p2 := ghTry(func() BaseSelectBuilder { return t.InnerJoin(right).On(l, r) })
	ghEnsures("InnerJoin", p2 == !ok && ghImplies(ok, ghEq(b, q.Join(right, InnerJoin).On(l, r))))
	c, p3 := ghTry(func() BaseSelectBuilder { return t.LeftJoin(right).On(l, r) })
	ghEnsures("LeftJoin", p3 == !ok && ghImplies(ok, ghEq(c, q.Join(right, LeftJoin).On(l, r))))
	d, p4 := ghTry(func() BaseSelectBuilder { return t.RightJoin(right).On(l, r) })
	ghEnsures("RightJoin", p4 == !ok && ghImplies(ok, ghEq(d, q.Join(right, RightJoin).On(l, r))))
	e, p5 := ghTry(func() BaseSelectBuilder { return t.FullJoin(right).On(l, r) })
	ghEnsures("FullJoin", p5 == !ok && ghImplies(ok, ghEq(e, q.Join(right, FullJoin).On(l, r))))
}

func specFrom(q BaseSelectBuilder) string {
	text := vTable(q).RenderFrom()
	for _, j := range vJoins(q) {
		text += " " + j.RenderFrom()
	}
	return text
}

//verif:contract C16,C09 BaseSelectBuilder.RenderFrom SelectManyBuilder.RenderFrom SelectSingleBuilder.RenderFrom
func C16_from(q BaseSelectBuilder, m SelectManyBuilder, s SelectSingleBuilder) {
	ghEnsures("base", q.RenderFrom() == specFrom(q))
	ghEnsures("many", m.RenderFrom() == specFrom(m.BaseSelectBuilder))
	ghEnsures("single", s.RenderFrom() == specFrom(s.BaseSelectBuilder))
}

// C17: ordering.

func specValid(s string) bool {
	return s != "" && !strings.Contains(s, "'") && !strings.Contains(s, "\"") && strings.IndexFunc(s, unicode.IsSpace) < 0 &&
		strings.Count(s, ".") <= 1 && !strings.HasPrefix(s, ".") && !strings.HasSuffix(s, ".")
}

//verif:contract C17,C09,C15 FieldSorting.Render FieldSorting.Direction
func C17_render(f FieldDefinition, d SortDirection) {
	ghEnsures("text", vSorting(f, d).Render() == f.RenderField()+" "+string(d))
	ghEnsures("direction", vSorting(f, d).Direction() == d)
	ghEnsures("names", Ascending.String() == "ASC" && Descending.String() == "DESC")
}

//verif:contract C17 ASC DESC OrderBy
func C17_constructors(f FieldName, d SortDirection) {
	ok := specValid(string(f))
	a, p1 := ghTry(func() FieldSorting { return ASC(f) })
	ghEnsures("ASC refuses exactly invalid names", p1 == !ok)
	ghEnsures("ASC", ghImplies(ok, ghEq(a, vSorting(Field(f), "ASC"))))
	b, p2 := ghTry(func() FieldSorting { return DESC(f) })
	ghEnsures("DESC refuses exactly invalid names", p2 == !ok)
	ghEnsures("DESC", ghImplies(ok, ghEq(b, vSorting(Field(f), "DESC"))))
	c, p3 := ghTry(func() FieldSorting { return OrderBy(f) })
	ghEnsures("OrderBy refuses exactly invalid names", p3 == !ok)
	ghEnsures("ascending by default", ghImplies(ok, ghEq(c, vSorting(Field(f), "ASC"))))
	e, p4 := ghTry(func() FieldSorting { return OrderBy(f, d) })
	known := d == "ASC" || d == "DESC"
	ghEnsures("OrderBy refuses unknown directions", p4 == !(ok && known))
	ghEnsures("OrderBy with direction", ghImplies(ok && known, ghEq(e, vSorting(Field(f), d))))
}

func specOrder(order []FieldSorting) string {
	text := ""
	for i, o := range order {
		if i == 0 {
			text += " ORDER BY "
		} else {
			text += ", "
		}
		text += o.FieldDefinition.RenderField() + " " + string(o.Direction())
	}
	return text
}

func specAppendOrder(a, b []FieldSorting) []FieldSorting {
	var r []FieldSorting
	for _, x := range a {
		r = append(r, x)
	}
	for _, x := range b {
		r = append(r, x)
	}
	return r
}

//verif:contract C17,C11 SelectManyBuilder.OrderBy BaseSelectBuilder.OrderBy
func C17_calls(q SelectManyBuilder, b BaseSelectBuilder, a1, a2 []FieldSorting) {
	u := q.OrderBy(a1...).OrderBy(a2...)
	ghEnsures("calls accumulate in order", ghEq(vOrder(u), specAppendOrder(specAppendOrder(vOrder(q), a1), a2)))
	w := b.OrderBy(a1...)
	ghEnsures("from a base query", ghEq(vOrder(w), a1))
}

//verif:contract C17 SelectManyBuilder.BuildQueryAndParams SelectManyBuilder.Render SelectManyBuilder.RenderSQL
func C17_clause(q SelectManyBuilder) {
	base, params, _ := q.BaseSelectBuilder.BuildQueryAndParams()
	sql, _, _ := q.BuildQueryAndParams()
	ghEnsures("built", sql == base+specOrder(vOrder(q))+specPaging(vOffset(q), vLimit(q), len(params)))
}

// specPaging is the paging part of a list query after n parameters.
func specPaging(offset uint, limit int, n int) string {
	text := ""
	if offset > 0 {
		n++
		text += " OFFSET $" + strconv.Itoa(n)
	}
	if limit > 0 {
		n++
		text += " LIMIT $" + strconv.Itoa(n)
	}
	return text
}

// C18: validation.

//verif:contract C18 FieldName.Validate
func C18_validate(f FieldName) {
	err := f.Validate()
	ghEnsures("accepts exactly valid names", (err == nil) == specValid(string(f)))
	ghEnsures("refusal matches the package error", ghImplies(err != nil, errors.Is(err, Error)))
}

// C19: duplicate-free lists.

func specUniq(a []FieldName) []FieldName {
	var r []FieldName
	for i, x := range a {
		seen := false
		for _, y := range a[:i] {
			if y == x {
				seen = true
			}
		}
		if !seen {
			r = append(r, x)
		}
	}
	return r
}

//verif:contract C19 UniqFieldNames
func C19_uniq(a []FieldName) {
	before := append([]FieldName{}, a...)
	got := UniqFieldNames(a)
	ghEnsures("the list stays", ghEq(a, before))
	ghEnsures("first occurrences in order", ghEq(got, specUniq(a)))
}

// C20: paging.

//verif:contract C20,C01 Limiter.Render Limiter.RenderSQL Limiter.Values Limiter.Offset Limiter.Limit
func C20_limiter(offset, limit uint, n int) {
	l := Limiter{}.Offset(offset).Limit(limit)
	text, plain := "", ""
	var params []any
	k := n
	if offset > 0 {
		k++
		text, plain = "OFFSET $"+strconv.Itoa(k), "OFFSET ?"
		params = append(params, offset)
	}
	if limit > 0 {
		if text != "" {
			text, plain = text+" ", plain+" "
		}
		k++
		text, plain = text+"LIMIT $"+strconv.Itoa(k), plain+"LIMIT ?"
		params = append(params, limit)
	}
	ghEnsures("numbered text", l.Render(n) == text)
	ghEnsures("plain text", l.RenderSQL() == plain)
	ghEnsures("values", ghEq(l.Values(), params))
	ghEnsures("order of calls does not matter", ghEq(Limiter{}.Limit(limit).Offset(offset), l))
}

//verif:contract C20 Limiter.Offset Limiter.Limit
func C20_limiter_replace(l Limiter, offset, limit uint) {
	o, m := vLimiter(l)
	o1, m1 := vLimiter(l.Offset(offset))
	o2, m2 := vLimiter(l.Limit(limit))
	ghEnsures("Offset replaces the offset only", o1 == offset && m1 == m)
	ghEnsures("Limit replaces the limit only", o2 == o && m2 == limit)
}

//verif:contract C20,C11 SelectManyBuilder.Offset SelectManyBuilder.Limit BaseSelectBuilder.Offset BaseSelectBuilder.Limit
func C20_many_set(q SelectManyBuilder, b BaseSelectBuilder, offset uint, limit int) {
	u := q.Offset(offset)
	ghEnsures("Offset replaces the offset", vOffset(u) == offset && vLimit(u) == vLimit(q) && ghEq(vOrder(u), vOrder(q)) && ghEq(u.BaseSelectBuilder, q.BaseSelectBuilder))
	w := q.Limit(limit)
	ghEnsures("Limit replaces the limit", vOffset(w) == vOffset(q) && vLimit(w) == limit && ghEq(vOrder(w), vOrder(q)) && ghEq(w.BaseSelectBuilder, q.BaseSelectBuilder))
	ghEnsures("base Offset", ghEq(b.Offset(offset), b.Many().Offset(offset)) && vLimit(b.Offset(offset)) <= 0)
	ghEnsures("base Limit", ghEq(b.Limit(limit), b.Many().Limit(limit)) && vOffset(b.Limit(limit)) == 0)
}

//verif:contract C20 SelectManyBuilder.BuildQueryAndParams
func C20_many(q SelectManyBuilder) {
	base, params, _ := q.BaseSelectBuilder.BuildQueryAndParams()
	sql, got, err := q.BuildQueryAndParams()
	n := len(params)
	ghEnsures("paging text", sql == base+specOrder(vOrder(q))+specPaging(vOffset(q), vLimit(q), n))
	if vOffset(q) > 0 {
		params = append(params, vOffset(q))
	}
	if vLimit(q) > 0 {
		params = append(params, uint(vLimit(q)))
	}
	ghEnsures("paging parameters", ghEq(got, params) && err == nil)
}

// C18: maps of values.

//verif:contract C18 ValuesMap.FieldValues NewFieldValue Field FieldName.Validate
func C18_map(m ValuesMap) {
	res, err := m.FieldValues()
	valid := true
	for k := range m {
		if !specValid(k) {
			valid = false
		}
	}
	ghEnsures("accepts exactly maps of valid names", (err == nil) == valid)
	ghEnsures("refusal matches the package error", ghImplies(err != nil, errors.Is(err, Error)))
	ghEnsures("no values on refusal", ghImplies(err != nil, len(res) == 0))
	ghEnsures("as many values as entries", ghImplies(err == nil, len(res) == len(m)))
	for k, v := range m {
		name, table, _, _ := specField(k)
		found := false
		for _, r := range res {
			if ghEq(r, vFieldValueOf(vField(name, table, ""), v)) {
				found = true
			}
		}
		ghEnsures("one value per entry", ghImplies(err == nil, found))
	}
}
