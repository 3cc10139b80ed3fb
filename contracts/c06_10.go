package query

import (
	"errors"
	"strconv"
)

// C06 - C10 and C25: the statements.

// specSingles: every value expands to exactly one parameter.
func specSingles(vs []FieldValue) bool {
	for _, v := range vs {
		if len(v.Values()) != 1 {
			return false
		}
	}
	return true
}

// specParams: the parameters of single values.
func specParams(vs []FieldValue) []any {
	var r []any
	for _, v := range vs {
		r = append(r, v.Values()...)
	}
	return r
}

func specRefused(sql string, params []any, err error) bool {
	return sql == "" && len(params) == 0 && errors.Is(err, Error)
}

//verif:contract C06 UpdateBuilder.BuildQueryAndParams UpdateBuilder.fieldsAndValues
func C06_update(u UpdateBuilder) {
	ok := len(vConds(vUpdateWhere(u))) > 0 && len(vUpdateValues(u)) > 0 && len(vUpdateTable(u)) > 0 && specSingles(vUpdateValues(u))
	sql, params, err := u.BuildQueryAndParams()
	ghEnsures("refused exactly when incomplete", (err != nil) == !ok)
	ghEnsures("a refusal gives nothing but the error", ghImplies(!ok, specRefused(sql, params, err)))
}

//verif:contract C06 InsertBuilder.BuildQueryAndParams
func C06_insert(u InsertBuilder) {
	ok := len(vInsertValues(u)) > 0 && len(vInsertTable(u)) > 0 && specSingles(vInsertValues(u))
	sql, params, err := u.BuildQueryAndParams()
	ghEnsures("refused exactly when incomplete", (err != nil) == !ok)
	ghEnsures("a refusal gives nothing but the error", ghImplies(!ok, specRefused(sql, params, err)))
}

//verif:contract C06 DeleteBuilder.BuildQueryAndParams
func C06_delete(u DeleteBuilder) {
	ok := len(vConds(vDeleteWhere(u))) > 0 && len(vDeleteTable(u)) > 0
	sql, params, err := u.BuildQueryAndParams()
	ghEnsures("refused exactly when incomplete", (err != nil) == !ok)
	ghEnsures("a refusal gives nothing but the error", ghImplies(!ok, specRefused(sql, params, err)))
}

// specSome: there is something among the conditions.
func specSome(cs []Condition) bool {
	for _, c := range cs {
		if !specEmptyGroup(c) {
			return true
		}
	}
	return false
}

//verif:contract C06 Update Delete InsertInto UpdateBuilder.Set UpdateBuilder.Where DeleteBuilder.Where InsertBuilder.Values
func C06_made(t TableName, vs []FieldValue, cs []Condition) {
	some := specSome(cs)
	_, _, e1 := Update(t).Set(vs...).Where(cs...).BuildQueryAndParams()
	ghEnsures("update", (e1 == nil) == (t != "" && len(vs) > 0 && some && specSingles(vs)))
	_, _, e2 := Delete(t).Where(cs...).BuildQueryAndParams()
	ghEnsures("delete", (e2 == nil) == (t != "" && some))
	_, _, e3 := InsertInto(t).Values(vs...).BuildQueryAndParams()
	ghEnsures("insert", (e3 == nil) == (t != "" && len(vs) > 0 && specSingles(vs)))
}

// specAssignments: '<f1>=$1, <f2>=$2, ...'.
func specAssignments(vs []FieldValue) string {
	r := ""
	for i, v := range vs {
		if i > 0 {
			r += ", "
		}
		r += string(v.FieldName()) + "=$" + strconv.Itoa(i+1)
	}
	return r
}

//verif:contract C07,C01,C04 UpdateBuilder.BuildQueryAndParams UpdateBuilder.fieldsAndValues
func C07_text(u UpdateBuilder) {
	ghRequires(len(vConds(vUpdateWhere(u))) > 0 && len(vUpdateValues(u)) > 0 && len(vUpdateTable(u)) > 0 && specSingles(vUpdateValues(u)))
	vs := vUpdateValues(u)
	sql, params, err := u.BuildQueryAndParams()
	ghEnsures("built", err == nil)
	ghEnsures("text", sql == "UPDATE "+string(vUpdateTable(u))+" SET "+specAssignments(vs)+" WHERE "+vUpdateWhere(u).Render(len(vs)))
	var want []any
	for _, v := range vs {
		want = append(want, v.Values()[0])
	}
	want = append(want, vUpdateWhere(u).Values()...)
	ghEnsures("parameters", ghEq(params, want))
}

//verif:contract C07,C11,C06 UpdateBuilder.Set UpdateBuilder.Where UpdateBuilder.SetValues UpdateBuilder.TableName UpdateBuilder.RenderFrom
func C07_accumulate(u UpdateBuilder, a, b []FieldValue, cs []Condition) {
	x := u.Set(a...).Set(b...)
	want := append([]FieldValue{}, vUpdateValues(u)...)
	want = append(want, a...)
	want = append(want, b...)
	ghEnsures("values in call order", ghEq(vUpdateValues(x), want) && ghEq(x.SetValues(), want))
	ghEnsures("Set keeps the rest", vUpdateTable(x) == vUpdateTable(u) && ghEq(vUpdateWhere(x), vUpdateWhere(u)) && x.TableName() == vUpdateTable(u))
	y := u.Where(cs...)
	ghEnsures("Where adds to the conditions", ghEq(vUpdateWhere(y), vUpdateWhere(u).GroupAND(cs...)))
	ghEnsures("Where keeps the rest", vUpdateTable(y) == vUpdateTable(u) && ghEq(vUpdateValues(y), vUpdateValues(u)))
	ghEnsures("table", u.RenderFrom() == vUpdateTable(u).RenderFrom())
}

//verif:contract C07,C11 Update
func C07_made(s string, t TableName, i TableIdent) {
	ghEnsures("text", ghEq(Update(s), Update(TableName(s))))
	ghEnsures("identifier", ghEq(Update(i), Update(i.TableName())))
	ghEnsures("table", vUpdateTable(Update(t)) == t)
	ghEnsures("nothing set", len(vUpdateValues(Update(t))) == 0 && len(vConds(vUpdateWhere(Update(t)))) == 0)
}

func specNames(vs []FieldValue) string {
	r := ""
	for i, v := range vs {
		if i > 0 {
			r += ", "
		}
		r += string(v.FieldName())
	}
	return r
}

func specHoles(n int) string {
	r := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			r += ", "
		}
		r += "$" + strconv.Itoa(i+1)
	}
	return r
}

//verif:contract C08,C01 InsertBuilder.BuildQueryAndParams
func C08_text(u InsertBuilder) {
	vs := vInsertValues(u)
	ghRequires(len(vs) > 0 && len(vInsertTable(u)) > 0 && specSingles(vs))
	sql, params, err := u.BuildQueryAndParams()
	ghEnsures("built", err == nil)
	ghEnsures("text", sql == "INSERT INTO "+string(vInsertTable(u))+"("+specNames(vs)+") VALUES ("+specHoles(len(vs))+")")
	var want []any
	for _, v := range vs {
		want = append(want, v.Values()[0])
	}
	ghEnsures("parameters", ghEq(params, want))
}

//verif:contract C08,C11,C06 InsertBuilder.Values InsertBuilder.SetValues InsertBuilder.TableName
func C08_accumulate(u InsertBuilder, a, b []FieldValue) {
	x := u.Values(a...).Values(b...)
	want := append([]FieldValue{}, vInsertValues(u)...)
	want = append(want, a...)
	want = append(want, b...)
	ghEnsures("values in call order", ghEq(vInsertValues(x), want) && ghEq(x.SetValues(), want))
	ghEnsures("Values keeps the rest", vInsertTable(x) == vInsertTable(u) && x.TableName() == vInsertTable(u))
	ghEnsures("table", u.RenderFrom() == vInsertTable(u).RenderFrom())
}

//verif:contract C08,C11 InsertInto
func C08_made(s string, t TableName, i TableIdent) {
	ghEnsures("text", ghEq(InsertInto(s), InsertInto(TableName(s))))
	ghEnsures("identifier", ghEq(InsertInto(i), InsertInto(i.TableName())))
	ghEnsures("table", vInsertTable(InsertInto(t)) == t && len(vInsertValues(InsertInto(t))) == 0)
}

//verif:contract C25,C01,C04 DeleteBuilder.BuildQueryAndParams
func C25_text(u DeleteBuilder) {
	ghRequires(len(vConds(vDeleteWhere(u))) > 0 && len(vDeleteTable(u)) > 0)
	sql, params, err := u.BuildQueryAndParams()
	ghEnsures("built", err == nil)
	ghEnsures("text", sql == "DELETE FROM "+string(vDeleteTable(u))+" WHERE "+vDeleteWhere(u).Render(0))
	ghEnsures("parameters", ghEq(params, vDeleteWhere(u).Values()))
}

//verif:contract C25,C11,C06 DeleteBuilder.Where DeleteBuilder.TableName
func C25_accumulate(u DeleteBuilder, cs []Condition) {
	y := u.Where(cs...)
	ghEnsures("Where adds to the conditions", ghEq(vDeleteWhere(y), vDeleteWhere(u).GroupAND(cs...)))
	ghEnsures("Where keeps the rest", vDeleteTable(y) == vDeleteTable(u) && y.TableName() == vDeleteTable(u) && u.RenderFrom() == vDeleteTable(u).RenderFrom())
}

//verif:contract C25,C11 Delete
func C25_made(s string, t TableName, i TableIdent) {
	ghEnsures("text", ghEq(Delete(s), Delete(TableName(s))))
	ghEnsures("identifier", ghEq(Delete(i), Delete(i.TableName())))
	ghEnsures("table", vDeleteTable(Delete(t)) == t && len(vConds(vDeleteWhere(Delete(t)))) == 0)
}

//verif:contract C25 BaseSelectBuilder.Delete SelectManyBuilder.Delete SelectSingleBuilder.Delete
func C25_from_select(q BaseSelectBuilder, m SelectManyBuilder, s SelectSingleBuilder) {
	a, b, c := q.Delete(), m.Delete(), s.Delete()
	ghEnsures("table", vDeleteTable(a) == vTable(q).TableName() && vDeleteTable(b) == vTable(m.BaseSelectBuilder).TableName() && vDeleteTable(c) == vTable(s.BaseSelectBuilder).TableName())
	ghEnsures("conditions", ghEq(vConds(vDeleteWhere(a)), vConds(vGroup(vWhere(q)))))
	ghEnsures("conditions of a list query", ghEq(vConds(vDeleteWhere(b)), vConds(vGroup(vWhere(m.BaseSelectBuilder)))))
	ghEnsures("conditions of a single query", ghEq(vConds(vDeleteWhere(c)), vConds(vGroup(vWhere(s.BaseSelectBuilder)))))
}

func specFieldList(fs []FieldDefinition) string {
	if len(fs) == 0 {
		return "*"
	}
	r := ""
	for i, f := range fs {
		if i > 0 {
			r += ", "
		}
		r += f.RenderSpec()
	}
	return r
}

func specSelect(q BaseSelectBuilder, n int) string {
	r := "SELECT " + specFieldList(vFields(q)) + " FROM " + specFrom(q)
	if len(vConds(vGroup(vWhere(q)))) > 0 {
		r += " WHERE " + vWhere(q).Render(n)
	}
	return r
}

//verif:contract C09,C01,C04,C15,C16 BaseSelectBuilder.BuildQueryAndParams BaseSelectBuilder.Render BaseSelectBuilder.RenderFrom BaseSelectBuilder.Values Fields.FieldList
func C09_base(q BaseSelectBuilder, n int) {
	sql, params, err := q.BuildQueryAndParams()
	ghEnsures("never fails", err == nil)
	ghEnsures("text", sql == specSelect(q, 0))
	ghEnsures("parameters", ghEq(params, vWhere(q).Values()))
	ghEnsures("rendered after n parameters", q.Render(n) == specSelect(q, n))
	ghEnsures("from clause", q.RenderFrom() == specFrom(q))
	ghEnsures("values", ghEq(q.Values(), vWhere(q).Values()))
}

func specOrderBy(fs []FieldSorting) string {
	r := ""
	for i, f := range fs {
		if i == 0 {
			r += " ORDER BY "
		} else {
			r += ", "
		}
		r += f.Render()
	}
	return r
}

func specPagingText(q SelectManyBuilder, n int) string {
	r := ""
	if vOffset(q) > 0 {
		n++
		r += " OFFSET $" + strconv.Itoa(n)
	}
	if vLimit(q) > 0 {
		n++
		r += " LIMIT $" + strconv.Itoa(n)
	}
	return r
}

func specPagingParams(q SelectManyBuilder) []any {
	var r []any
	if vOffset(q) > 0 {
		r = append(r, vOffset(q))
	}
	if vLimit(q) > 0 {
		r = append(r, uint(vLimit(q)))
	}
	return r
}

//verif:contract C09,C01,C17,C20 SelectManyBuilder.BuildQueryAndParams SelectManyBuilder.Render SelectManyBuilder.Values SelectManyBuilder.renderOrderBy SelectManyBuilder.limiter SelectManyBuilder.FieldList SelectManyBuilder.RenderFrom
func C09_many(q SelectManyBuilder, n int) {
	sql, params, err := q.BuildQueryAndParams()
	values := vWhere(q.BaseSelectBuilder).Values()
	ghEnsures("never fails", err == nil)
	ghEnsures("text", sql == specSelect(q.BaseSelectBuilder, 0)+specOrderBy(vOrder(q))+specPagingText(q, len(values)))
	ghEnsures("parameters", ghEq(params, append(append([]any{}, values...), specPagingParams(q)...)))
	ghEnsures("rendered after n parameters", q.Render(n) == specSelect(q.BaseSelectBuilder, n)+specOrderBy(vOrder(q))+specPagingText(q, n+len(values)))
	ghEnsures("values", ghEq(q.Values(), append(append([]any{}, values...), specPagingParams(q)...)))
	ghEnsures("from clause and fields", q.RenderFrom() == specFrom(q.BaseSelectBuilder) && q.FieldList() == specFieldList(vFields(q.BaseSelectBuilder)))
}

//verif:contract C09,C01 SelectSingleBuilder.BuildQueryAndParams SelectSingleBuilder.Render SelectSingleBuilder.FieldList SelectSingleBuilder.RenderFrom
func C09_single(q SelectSingleBuilder, n int) {
	sql, params, err := q.BuildQueryAndParams()
	ghEnsures("never fails", err == nil)
	ghEnsures("text", sql == specSelect(q.BaseSelectBuilder, 0)+" LIMIT 1")
	ghEnsures("parameters", ghEq(params, vWhere(q.BaseSelectBuilder).Values()))
	ghEnsures("rendered after n parameters", q.Render(n) == specSelect(q.BaseSelectBuilder, n)+" LIMIT 1")
	ghEnsures("values", ghEq(q.Values(), vWhere(q.BaseSelectBuilder).Values()))
	ghEnsures("from clause and fields", q.RenderFrom() == specFrom(q.BaseSelectBuilder) && q.FieldList() == specFieldList(vFields(q.BaseSelectBuilder)))
}

//verif:contract C10,C01,C04,C15,C16 CountBuilder.BuildQueryAndParams CountBuilder.RenderFrom
func C10_text(c CountBuilder) {
	q := vCountBase(c)
	sql, params, err := c.BuildQueryAndParams()
	ghEnsures("never fails", err == nil)
	want := "SELECT COUNT(" + vCountField(c).RenderField() + ") FROM " + specFrom(q)
	if len(vConds(vGroup(vWhere(q)))) > 0 {
		want += " WHERE " + vWhere(q).Render(0)
	}
	ghEnsures("text", sql == want)
	ghEnsures("parameters", ghEq(params, vWhere(q).Values()))
	ghEnsures("from clause", c.RenderFrom() == specFrom(q))
}

//verif:contract C10,C11 Count BaseSelectBuilder.Count SelectManyBuilder.Count
func C10_made(q BaseSelectBuilder, m SelectManyBuilder, f FieldName, more []FieldName) {
	ghEnsures("all rows", ghEq(vCountBase(Count(q)), q) && vCountField(Count(q)).RenderField() == "*")
	d, ok := FieldOrError(f)
	c, p := ghTry(func() CountBuilder { return Count(q, append([]FieldName{f}, more...)...) })
	ghEnsures("refused exactly for malformed fields", p == (ok != nil))
	ghEnsures("named field", ghImplies(ok == nil, ghEq(vCountBase(c), q) && d != nil && ghEq(vCountField(c), *d)))
	ghEnsures("from a select query", ghEq(q.Count(), Count(q)))
	ghEnsures("from a list query", ghEq(m.Count(), Count(m.BaseSelectBuilder)))
}
