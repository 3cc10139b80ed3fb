package query

// C24: no operation panics. The run-time checks of every exported function and method are swept by
// the verifier (gover/sweep.go) and by the harness; here: which texts the constructors refuse, and
// the joiners as they are used.

// an incomplete join was started by a builder: it holds the join to complete.
func inv_incompleteBaseJoiner(j incompleteBaseJoiner) bool     { return len(j.joins) > 0 }
func inv_incompleteManyJoiner(j incompleteManyJoiner) bool     { return len(j.joins) > 0 }
func inv_incompleteSingleJoiner(j incompleteSingleJoiner) bool { return len(j.joins) > 0 }

//verif:contract C24 BaseSelectBuilder.Join BaseSelectBuilder.InnerJoin BaseSelectBuilder.LeftJoin BaseSelectBuilder.RightJoin BaseSelectBuilder.FullJoin incompleteBaseJoiner.On
func C24_base_joins(q BaseSelectBuilder, right TableIdent, t TableJoinType, l, r FieldDefinition) {
	q.Join(right, t).On(l, r)
	q.InnerJoin(right).On(l, r)
	q.LeftJoin(right).On(l, r)
	q.RightJoin(right).On(l, r)
	q.FullJoin(right).On(l, r)
	t.Tables(right, right).On(l, r)
}

//verif:contract C24 TableIdent.Join TableIdent.InnerJoin TableIdent.LeftJoin TableIdent.RightJoin TableIdent.FullJoin incompleteBaseJoiner.On
func C24_table_joins(q, right TableIdent, t TableJoinType, l, r FieldDefinition) {
	q.Join(right, t).On(l, r)
	q.InnerJoin(right).On(l, r)
	q.LeftJoin(right).On(l, r)
	q.RightJoin(right).On(l, r)
	q.FullJoin(right).On(l, r)
}

func specTableOK(t TableName) bool {
	_, err := TableOrError(t)
	return err == nil
}

//verif:contract C24 SelectManyBuilder.Join SelectManyBuilder.InnerJoin SelectManyBuilder.LeftJoin SelectManyBuilder.RightJoin SelectManyBuilder.FullJoin incompleteManyJoiner.On
func C24_many_joins(q SelectManyBuilder, right TableName, t TableJoinType, l, r FieldDefinition) {
	ghRequires(specTableOK(right))
	q.Join(right, t).On(l, r)
	q.InnerJoin(right).On(l, r)
	q.LeftJoin(right).On(l, r)
	q.RightJoin(right).On(l, r)
	q.FullJoin(right).On(l, r)
}

//verif:contract C24 SelectSingleBuilder.Join SelectSingleBuilder.InnerJoin SelectSingleBuilder.LeftJoin SelectSingleBuilder.RightJoin SelectSingleBuilder.FullJoin incompleteSingleJoiner.On
func C24_single_joins(q SelectSingleBuilder, right TableName, t TableJoinType, l, r FieldDefinition) {
	ghRequires(specTableOK(right))
	q.Join(right, t).On(l, r)
	q.InnerJoin(right).On(l, r)
	q.LeftJoin(right).On(l, r)
	q.RightJoin(right).On(l, r)
	q.FullJoin(right).On(l, r)
}

//verif:contract C24 Field FieldName.Field FieldName.Value NewFieldValue EqualTo GreaterThan GreaterOrEqual Less LessOrEqual In IsNull Contains IContains
func C24_field(f FieldName, v any, s string) {
	_, err := FieldOrError(f)
	ok := err == nil
	_, p := ghTry(func() FieldDefinition { return Field(f) })
	ghEnsures("Field refuses what FieldOrError refuses", p == !ok)
	_, p = ghTry(func() FieldDefinition { return Field(string(f)) })
	ghEnsures("Field of a text", p == !ok)
	_, p = ghTry(func() FieldDefinition { return f.Field() })
	ghEnsures("FieldName.Field", p == !ok)
	_, p = ghTry(func() FieldValue { return f.Value(v) })
	ghEnsures("FieldName.Value", p == !ok)
	_, p = ghTry(func() *FieldValue { return NewFieldValue(f, v) })
	ghEnsures("NewFieldValue", p == !ok)
	_, p = ghTry(func() Condition { return EqualTo(f, v) })
	ghEnsures("EqualTo", p == !ok)
	_, p = ghTry(func() Condition { return GreaterThan(f, v) })
	ghEnsures("GreaterThan", p == !ok)
	_, p = ghTry(func() Condition { return GreaterOrEqual(f, v) })
	ghEnsures("GreaterOrEqual", p == !ok)
	_, p = ghTry(func() Condition { return Less(f, v) })
	ghEnsures("Less", p == !ok)
	_, p = ghTry(func() Condition { return LessOrEqual(f, v) })
	ghEnsures("LessOrEqual", p == !ok)
	_, p = ghTry(func() Condition { return In(f, v) })
	ghEnsures("In", p == !ok)
	_, p = ghTry(func() Condition { return IsNull(f) })
	ghEnsures("IsNull", p == !ok)
	_, p = ghTry(func() Condition { return Contains(f, s) })
	ghEnsures("Contains", p == !ok)
	_, p = ghTry(func() Condition { return IContains(f, s) })
	ghEnsures("IContains", p == !ok)
}

//verif:contract C24 FieldName.EqualTo FieldName.In FieldName.IsNull FieldName.Contains FieldName.IContains TableName.Field TableIdent.Field
func C24_field_methods(f FieldName, v any, s string, t TableName, i TableIdent) {
	_, err := FieldOrError(f)
	ok := err == nil
	_, p := ghTry(func() Condition { return f.EqualTo(v) })
	ghEnsures("EqualTo", p == !ok)
	_, p = ghTry(func() Condition { return f.In(v) })
	ghEnsures("In", p == !ok)
	_, p = ghTry(func() Condition { return f.IsNull() })
	ghEnsures("IsNull", p == !ok)
	_, p = ghTry(func() Condition { return f.Contains(s) })
	ghEnsures("Contains", p == !ok)
	_, p = ghTry(func() Condition { return f.IContains(s) })
	ghEnsures("IContains", p == !ok)
	_, p = ghTry(func() FieldDefinition { return t.Field(f) })
	ghEnsures("TableName.Field", ghImplies(ok, !p))
	_, p = ghTry(func() FieldDefinition { return i.Field(f) })
	ghEnsures("TableIdent.Field", ghImplies(ok, !p))
}

//verif:contract C24 Table SelectFrom SelectManyFrom SelectSingleFrom TableName.Select TableName.SelectMany TableName.SelectOne TableName.Ident InsertInto Update Delete
func C24_table(t TableName, cs []Condition, vs []FieldValue) {
	ok := specTableOK(t)
	_, p := ghTry(func() TableIdent { return Table(t) })
	ghEnsures("Table refuses what TableOrError refuses", p == !ok)
	_, p = ghTry(func() TableIdent { return Table(string(t)) })
	ghEnsures("Table of a text", p == !ok)
	_, p = ghTry(func() TableIdent { return t.Ident() })
	ghEnsures("Ident", p == !ok)
	_, p = ghTry(func() BaseSelectBuilder { return SelectFrom(t) })
	ghEnsures("SelectFrom", p == !ok)
	_, p = ghTry(func() SelectManyBuilder { return SelectManyFrom(t) })
	ghEnsures("SelectManyFrom", p == !ok)
	_, p = ghTry(func() SelectSingleBuilder { return SelectSingleFrom(t) })
	ghEnsures("SelectSingleFrom", p == !ok)
	_, p = ghTry(func() BaseSelectBuilder { return t.Select(cs...) })
	ghEnsures("Select", p == !ok)
	_, p = ghTry(func() SelectManyBuilder { return t.SelectMany(cs...) })
	ghEnsures("SelectMany", p == !ok)
	_, p = ghTry(func() SelectSingleBuilder { return t.SelectOne(cs...) })
	ghEnsures("SelectOne", p == !ok)
	_, p = ghTry(func() InsertBuilder { return InsertInto(t) })
	ghEnsures("InsertInto", ghImplies(ok, !p))
	_, p = ghTry(func() UpdateBuilder { return Update(t) })
	ghEnsures("Update", ghImplies(ok, !p))
	_, p = ghTry(func() DeleteBuilder { return Delete(t) })
	ghEnsures("Delete", ghImplies(ok, !p))
	_, p = ghTry(func() InsertBuilder { return t.InsertInto(vs...) })
	ghEnsures("TableName.InsertInto", ghImplies(ok, !p))
	_, p = ghTry(func() UpdateBuilder { return t.Update(vs...) })
	ghEnsures("TableName.Update", ghImplies(ok, !p))
	_, p = ghTry(func() DeleteBuilder { return t.Delete(cs...) })
	ghEnsures("TableName.Delete", ghImplies(ok, !p))
}

// specFieldArg: the argument is a field, or a text accepted as one.
func specFieldArg(a any) bool {
	switch v := a.(type) {
	case FieldDefinition:
		return true
	case FieldName:
		_, err := FieldOrError(v)
		return err == nil
	case string:
		_, err := FieldOrError(v)
		return err == nil
	}
	return false
}

//verif:contract C24,C13 NewFields
func C24_NewFields(args []any) {
	ok := true
	for _, a := range args {
		ok = ok && specFieldArg(a)
	}
	fs, p := ghTry(func() Fields { return NewFields(args...) })
	ghEnsures("refuses exactly malformed arguments", p == !ok)
	ghEnsures("as many fields", ghImplies(ok, fs.Len() == len(args)))
}

//verif:contract C24 ASC DESC OrderBy
func C24_ordering(f FieldName, d SortDirection) {
	_, err := FieldOrError(f)
	_, p := ghTry(func() FieldSorting { return ASC(f) })
	ghEnsures("ASC", ghImplies(specValid(string(f)), !p))
	_, p = ghTry(func() FieldSorting { return DESC(f) })
	ghEnsures("DESC", ghImplies(specValid(string(f)), !p))
	_, p = ghTry(func() FieldSorting { return OrderBy(f, d) })
	ghEnsures("OrderBy", ghImplies(specValid(string(f)) && (d == Ascending || d == Descending), !p))
	ghEnsures("names refused by ASC are refused as fields", ghImplies(specValid(string(f)), err == nil))
}
