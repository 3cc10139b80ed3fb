package query

// C11: derived builders.

// specSameBase: two base queries agree in everything.
func specSameBase(a, b BaseSelectBuilder) bool {
	return ghEq(vTable(a), vTable(b)) && ghEq(vJoins(a), vJoins(b)) && ghEq(vFields(a), vFields(b)) && ghEq(vWhere(a), vWhere(b))
}

func specSamePaging(a, b SelectManyBuilder) bool { return vOffset(a) == vOffset(b) && vLimit(a) == vLimit(b) }

//verif:contract C11 BaseSelectBuilder.Fields BaseSelectBuilder.Where BaseSelectBuilder.FieldDefinitions BaseSelectBuilder.TableName Fields.Fields Fields.FieldDefinitions WhereClause.GroupAND WhereClause.GroupOR WhereClause.Conditions
func C11_base(q BaseSelectBuilder, fs []FieldDefinition, cs []Condition) {
	a := q.Fields(fs...)
	ghEnsures("Fields replaces the fields", ghEq(vFields(a), fs) && ghEq(a.FieldDefinitions(), fs))
	ghEnsures("Fields keeps the rest", ghEq(vTable(a), vTable(q)) && ghEq(vJoins(a), vJoins(q)) && ghEq(vWhere(a), vWhere(q)))
	b := q.Where(cs...)
	ghEnsures("Where adds conditions", ghEq(vGroup(vWhere(b)), vGroup(vWhere(q)).GroupAND(cs...)))
	ghEnsures("Where keeps the rest", ghEq(vTable(b), vTable(q)) && ghEq(vJoins(b), vJoins(q)) && ghEq(vFields(b), vFields(q)))
	w := vWhere(q)
	ghEnsures("where clause", ghEq(vGroup(w.GroupAND(cs...)), vGroup(w).GroupAND(cs...)) && ghEq(vGroup(w.GroupOR(cs...)), vGroup(w).GroupOR(cs...)) && ghEq(w.Conditions(), vConds(vGroup(w))))
	ghEnsures("table name", q.TableName() == vTable(q).TableName())
}

//verif:contract C11 SelectManyBuilder.Fields SelectManyBuilder.Where SelectManyBuilder.OrderBy SelectManyBuilder.Offset SelectManyBuilder.Limit SelectManyBuilder.FieldDefinitions
func C11_many(q SelectManyBuilder, fs []FieldDefinition, cs []Condition, order []FieldSorting, offset uint, limit int) {
	a := q.Fields(fs...)
	ghEnsures("Fields", ghEq(a.BaseSelectBuilder, q.BaseSelectBuilder.Fields(fs...)) && specSamePaging(a, q) && ghEq(vOrder(a), vOrder(q)) && ghEq(a.FieldDefinitions(), fs))
	b := q.Where(cs...)
	ghEnsures("Where", ghEq(b.BaseSelectBuilder, q.BaseSelectBuilder.Where(cs...)) && specSamePaging(b, q) && ghEq(vOrder(b), vOrder(q)))
	c := q.OrderBy(order...)
	ghEnsures("OrderBy", specSameBase(c.BaseSelectBuilder, q.BaseSelectBuilder) && specSamePaging(c, q) && ghEq(vOrder(c), append(append([]FieldSorting{}, vOrder(q)...), order...)))
	d := q.Offset(offset)
	ghEnsures("Offset", specSameBase(d.BaseSelectBuilder, q.BaseSelectBuilder) && vOffset(d) == offset && vLimit(d) == vLimit(q) && ghEq(vOrder(d), vOrder(q)))
	e := q.Limit(limit)
	ghEnsures("Limit", specSameBase(e.BaseSelectBuilder, q.BaseSelectBuilder) && vOffset(e) == vOffset(q) && vLimit(e) == limit && ghEq(vOrder(e), vOrder(q)))
}

//verif:contract C11 SelectSingleBuilder.Fields SelectSingleBuilder.Where SelectSingleBuilder.FieldDefinitions
func C11_single(q SelectSingleBuilder, fs []FieldDefinition, cs []Condition) {
	a := q.Fields(fs...)
	ghEnsures("Fields", ghEq(a.BaseSelectBuilder, q.BaseSelectBuilder.Fields(fs...)) && ghEq(a.FieldDefinitions(), fs))
	b := q.Where(cs...)
	ghEnsures("Where", ghEq(b.BaseSelectBuilder, q.BaseSelectBuilder.Where(cs...)))
}

//verif:contract C11 BaseSelectBuilder.Single BaseSelectBuilder.Many BaseSelectBuilder.Offset BaseSelectBuilder.Limit BaseSelectBuilder.OrderBy SelectManyFromBase SelectSingleFromBase
func C11_turned(q BaseSelectBuilder, order []FieldSorting, offset uint, limit int) {
	s := q.Single()
	ghEnsures("single", specSameBase(s.BaseSelectBuilder, q) && ghEq(s, SelectSingleFromBase(q)))
	m := q.Many()
	ghEnsures("list", specSameBase(m.BaseSelectBuilder, q) && vOffset(m) == 0 && vLimit(m) <= 0 && len(vOrder(m)) == 0 && ghEq(m, SelectManyFromBase(q)))
	ghEnsures("offset", ghEq(q.Offset(offset), q.Many().Offset(offset)))
	ghEnsures("limit", ghEq(q.Limit(limit), q.Many().Limit(limit)))
	ghEnsures("ordering", ghEq(q.OrderBy(order...), q.Many().OrderBy(order...)))
}

//verif:contract C11,C10 SelectManyBuilder.Single SelectManyBuilder.Many SelectSingleBuilder.Single SelectSingleBuilder.Many SelectSingleBuilder.Count
func C11_turned_again(m SelectManyBuilder, s SelectSingleBuilder) {
	ghEnsures("list to single", specSameBase(m.Single().BaseSelectBuilder, m.BaseSelectBuilder))
	ghEnsures("list to list", specSameBase(m.Many().BaseSelectBuilder, m.BaseSelectBuilder))
	ghEnsures("single to list", specSameBase(s.Many().BaseSelectBuilder, s.BaseSelectBuilder))
	ghEnsures("single to single", specSameBase(s.Single().BaseSelectBuilder, s.BaseSelectBuilder))
	ghEnsures("counts", ghEq(m.Count(), Count(m.BaseSelectBuilder)) && ghEq(s.Count(), Count(s.BaseSelectBuilder)))
}

//verif:contract C11,C07,C08,C25,C06 BaseSelectBuilder.Update BaseSelectBuilder.Delete BaseSelectBuilder.InsertInto
func C11_changes(q BaseSelectBuilder, vs []FieldValue) {
	t := vTable(q).TableName()
	u := q.Update(vs...)
	ghEnsures("update", vUpdateTable(u) == t && ghEq(vUpdateValues(u), vs) && ghEq(vConds(vUpdateWhere(u)), vConds(vGroup(vWhere(q)))))
	d := q.Delete()
	ghEnsures("delete", vDeleteTable(d) == t && ghEq(vConds(vDeleteWhere(d)), vConds(vGroup(vWhere(q)))))
	i := q.InsertInto(vs...)
	ghEnsures("insert", vInsertTable(i) == t && ghEq(vInsertValues(i), vs))
}

//verif:contract C11,C07,C08,C06 SelectManyBuilder.Update SelectManyBuilder.Delete SelectManyBuilder.InsertInto SelectSingleBuilder.Update SelectSingleBuilder.Delete SelectSingleBuilder.InsertInto
func C11_changes_again(m SelectManyBuilder, s SelectSingleBuilder, vs []FieldValue) {
	ghEnsures("update of a list query", ghEq(m.Update(vs...), m.BaseSelectBuilder.Update(vs...)))
	ghEnsures("delete of a list query", ghEq(m.Delete(), m.BaseSelectBuilder.Delete()))
	ghEnsures("insert of a list query", ghEq(m.InsertInto(vs...), m.BaseSelectBuilder.InsertInto(vs...)))
	ghEnsures("update of a single query", ghEq(s.Update(vs...), s.BaseSelectBuilder.Update(vs...)))
	ghEnsures("delete of a single query", ghEq(s.Delete(), s.BaseSelectBuilder.Delete()))
	ghEnsures("insert of a single query", ghEq(s.InsertInto(vs...), s.BaseSelectBuilder.InsertInto(vs...)))
}

//verif:contract C11 SelectFrom SelectManyFrom SelectSingleFrom
func C11_from(s string, t TableName, i TableIdent) {
	q := SelectFrom(i)
	ghEnsures("empty query", ghEq(vTable(q), i) && len(vJoins(q)) == 0 && len(vFields(q)) == 0 && len(vConds(vGroup(vWhere(q)))) == 0)
	d, err := TableOrError(t)
	a, p := ghTry(func() BaseSelectBuilder { return SelectFrom(t) })
	ghEnsures("table name", p == (err != nil) && ghImplies(err == nil, d != nil && ghEq(a, SelectFrom(*d))))
	b, p2 := ghTry(func() BaseSelectBuilder { return SelectFrom(s) })
	b2, p3 := ghTry(func() BaseSelectBuilder { return SelectFrom(TableName(s)) })
	ghEnsures("text", p2 == p3 && ghImplies(!p2, ghEq(b, b2)))
	ghEnsures("list", ghEq(SelectManyFrom(i), SelectFrom(i).Many()))
	ghEnsures("single", ghEq(SelectSingleFrom(i), SelectFrom(i).Single()))
	m, p4 := ghTry(func() SelectManyBuilder { return SelectManyFrom(t) })
	ghEnsures("list from a table name", p4 == p && ghImplies(!p, ghEq(m, a.Many())))
	m2, p5 := ghTry(func() SelectManyBuilder { return SelectManyFrom(s) })
	ghEnsures("list from a text", p5 == p2 && ghImplies(!p2, ghEq(m2, b.Many())))
	o, p6 := ghTry(func() SelectSingleBuilder { return SelectSingleFrom(t) })
	ghEnsures("single from a table name", p6 == p && ghImplies(!p, ghEq(o, a.Single())))
	o2, p7 := ghTry(func() SelectSingleBuilder { return SelectSingleFrom(s) })
	ghEnsures("single from a text", p7 == p2 && ghImplies(!p2, ghEq(o2, b.Single())))
}

//verif:contract C11,C07,C08,C25,C10 TableIdent.Select TableIdent.SelectOne TableIdent.SelectMany TableIdent.Count TableIdent.Update TableIdent.Delete TableIdent.InsertInto
func C11_ident(i TableIdent, cs []Condition, vs []FieldValue) {
	ghEnsures("Select", ghEq(i.Select(cs...), SelectFrom(i).Where(cs...)))
	ghEnsures("SelectOne", ghEq(i.SelectOne(cs...), SelectFrom(i).Where(cs...).Single()))
	ghEnsures("SelectMany", ghEq(i.SelectMany(cs...), SelectFrom(i).Where(cs...).Many()))
	ghEnsures("Count", ghEq(i.Count(cs...), Count(SelectFrom(i).Where(cs...))))
	ghEnsures("Update", ghEq(i.Update(vs...), Update(i).Set(vs...)))
	ghEnsures("Delete", ghEq(i.Delete(cs...), Delete(i).Where(cs...)))
	ghEnsures("InsertInto", ghEq(i.InsertInto(vs...), InsertInto(i).Values(vs...)))
}

//verif:contract C11 TableIdent.Join TableIdent.InnerJoin TableIdent.LeftJoin TableIdent.RightJoin TableIdent.FullJoin
func C11_ident_joins(i, right TableIdent, t TableJoinType, l, r FieldDefinition) {
	ghEnsures("Join", ghEq(i.Join(right, t).On(l, r), SelectFrom(i).Join(right, t).On(l, r)))
	ghEnsures("InnerJoin", ghEq(i.InnerJoin(right).On(l, r), SelectFrom(i).InnerJoin(right).On(l, r)))
	ghEnsures("LeftJoin", ghEq(i.LeftJoin(right).On(l, r), SelectFrom(i).LeftJoin(right).On(l, r)))
	ghEnsures("RightJoin", ghEq(i.RightJoin(right).On(l, r), SelectFrom(i).RightJoin(right).On(l, r)))
	ghEnsures("FullJoin", ghEq(i.FullJoin(right).On(l, r), SelectFrom(i).FullJoin(right).On(l, r)))
}

//verif:contract C11,C07,C08,C25 TableName.Select TableName.SelectOne TableName.SelectMany TableName.Update TableName.Delete TableName.InsertInto TableName.Ident
func C11_name(t TableName, cs []Condition, vs []FieldValue) {
	i, err := TableOrError(t)
	ok := err == nil
	a, p := ghTry(func() BaseSelectBuilder { return t.Select(cs...) })
	ghEnsures("Select", p == !ok && ghImplies(ok, i != nil && ghEq(a, SelectFrom(*i).Where(cs...))))
	b, p2 := ghTry(func() SelectSingleBuilder { return t.SelectOne(cs...) })
	ghEnsures("SelectOne", p2 == !ok && ghImplies(ok, i != nil && ghEq(b, SelectFrom(*i).Where(cs...).Single())))
	c, p3 := ghTry(func() SelectManyBuilder { return t.SelectMany(cs...) })
	ghEnsures("SelectMany", p3 == !ok && ghImplies(ok, i != nil && ghEq(c, SelectFrom(*i).Where(cs...).Many())))
	d, p4 := ghTry(func() TableIdent { return t.Ident() })
	ghEnsures("Ident", p4 == !ok && ghImplies(ok, i != nil && ghEq(d, *i)))
	ghEnsures("Update", ghEq(t.Update(vs...), Update(t).Set(vs...)))
	ghEnsures("Delete", ghEq(t.Delete(cs...), Delete(t).Where(cs...)))
	ghEnsures("InsertInto", ghEq(t.InsertInto(vs...), InsertInto(t).Values(vs...)))
}

//verif:contract C11 TableName.Join TableName.InnerJoin TableName.LeftJoin TableName.RightJoin TableName.FullJoin
func C11_name_joins(t TableName, right TableIdent, k TableJoinType, l, r FieldDefinition) {
	i, err := TableOrError(t)
	ok := err == nil
	a, p := ghTry(func() BaseSelectBuilder { return t.Join(right, k).On(l, r) })
	ghEnsures("Join", p == !ok && ghImplies(ok, i != nil && ghEq(a, SelectFrom(*i).Join(right, k).On(l, r))))
	b, p2 := ghTry(func() BaseSelectBuilder { return t.InnerJoin(right).On(l, r) })
	ghEnsures("InnerJoin", p2 == !ok && ghImplies(ok, i != nil && ghEq(b, SelectFrom(*i).InnerJoin(right).On(l, r))))
	c, p3 := ghTry(func() BaseSelectBuilder { return t.LeftJoin(right).On(l, r) })
	ghEnsures("LeftJoin", p3 == !ok && ghImplies(ok, i != nil && ghEq(c, SelectFrom(*i).LeftJoin(right).On(l, r))))
	d, p4 := ghTry(func() BaseSelectBuilder { return t.RightJoin(right).On(l, r) })
	ghEnsures("RightJoin", p4 == !ok && ghImplies(ok, i != nil && ghEq(d, SelectFrom(*i).RightJoin(right).On(l, r))))
	e, p5 := ghTry(func() BaseSelectBuilder { return t.FullJoin(right).On(l, r) })
	ghEnsures("FullJoin", p5 == !ok && ghImplies(ok, i != nil && ghEq(e, SelectFrom(*i).FullJoin(right).On(l, r))))
}
