package query

import (
	"strconv"
)

// C01 and C02: placeholders. ghNumbered(text, n, k): the placeholders of text are $n+1 ... $n+k,
// each once and in this order. ghSameText(a, b): b is a with '?' in place of every placeholder.
// The contract of the interface Condition, assumed of the conditions inside a group, is what these
// contracts show of every condition of the library.

//verif:contract C01,C02 equalTo.Render greater.Render greaterOrEqual.Render less.Render lessOrEqual.Render in.Render contains.Render iContains.Render nullValue.Render Group.Render equalTo.Values greater.Values greaterOrEqual.Values less.Values lessOrEqual.Values in.Values contains.Values iContains.Values nullValue.Values Group.Values
//verif:each c
func C01_condition(c Condition, n int) {
	ghRequires(n >= 0)
	ghEnsures("numbered", ghNumbered(c.Render(n), n, len(c.Values())))
}

// each condition of a group is rendered after the parameters of those before it, and its values
// stand at the same place.
//
//verif:contract C01 Group.Render Group.Values
func C01_group(g Group, n int) {
	ghRequires(n >= 0)
	var values []any
	for i, c := range vConds(g) {
		part := specPart(g, c, i, n+len(values))
		ghEnsures("the condition is numbered after those before it", ghNumbered(part, n+len(values), len(c.Values())))
		values = append(values, c.Values()...)
	}
	ghEnsures("values in the order of the conditions", ghEq(g.Values(), values))
	ghEnsures("the text is made of the texts of the conditions in order", g.Render(n) == specGroupText(g, n))
}

//verif:contract C01,C02 WhereClause.Render WhereClause.Values Limiter.Render Limiter.Values
func C01_clauses(w WhereClause, l Limiter, n int) {
	ghRequires(n >= 0)
	ghEnsures("where", ghNumbered(w.Render(n), n, len(w.Values())))
	ghEnsures("limiter", ghNumbered(l.Render(n), n, len(l.Values())))
}

//verif:contract C01,C02 BaseSelectBuilder.Render BaseSelectBuilder.BuildQueryAndParams BaseSelectBuilder.Values SelectManyBuilder.Render SelectManyBuilder.BuildQueryAndParams SelectManyBuilder.Values SelectSingleBuilder.Render SelectSingleBuilder.BuildQueryAndParams
func C01_select(q BaseSelectBuilder, m SelectManyBuilder, s SelectSingleBuilder, n int) {
	ghRequires(n >= 0)
	ghEnsures("rendered base query", ghNumbered(q.Render(n), n, len(q.Values())))
	ghEnsures("rendered list query", ghNumbered(m.Render(n), n, len(m.Values())))
	ghEnsures("rendered single query", ghNumbered(s.Render(n), n, len(s.Values())))
	a, pa, _ := q.BuildQueryAndParams()
	ghEnsures("base query", ghNumbered(a, 0, len(pa)))
	b, pb, _ := m.BuildQueryAndParams()
	ghEnsures("list query", ghNumbered(b, 0, len(pb)))
	c, pc, _ := s.BuildQueryAndParams()
	ghEnsures("single query", ghNumbered(c, 0, len(pc)))
}

//verif:contract C01 CountBuilder.BuildQueryAndParams
func C01_count(c CountBuilder) {
	a, pa, _ := c.BuildQueryAndParams()
	ghEnsures("count query", ghNumbered(a, 0, len(pa)))
}

//verif:contract C01 InsertBuilder.BuildQueryAndParams UpdateBuilder.BuildQueryAndParams DeleteBuilder.BuildQueryAndParams
func C01_changes(i InsertBuilder, u UpdateBuilder, d DeleteBuilder) {
	a, pa, _ := i.BuildQueryAndParams()
	ghEnsures("insert", ghNumbered(a, 0, len(pa)))
	b, pb, _ := u.BuildQueryAndParams()
	ghEnsures("update", ghNumbered(b, 0, len(pb)))
	c, pc, _ := d.BuildQueryAndParams()
	ghEnsures("delete", ghNumbered(c, 0, len(pc)))
}

// a comparison is made for a single value; with a list it reports as many values as the list has
// but renders one placeholder (see known-findings.txt).
//
//verif:contract C01 EqualTo GreaterThan GreaterOrEqual Less LessOrEqual
//verif:bounded
func C01_comparison_of_list(vs []string, n int) {
	ghRequires(n >= 0)
	ghEnsures("equal to a list", specCounted(EqualTo("f", vs), n))
	ghEnsures("greater than a list", specCounted(GreaterThan("f", vs), n))
	ghEnsures("greater than or equal to a list", specCounted(GreaterOrEqual("f", vs), n))
	ghEnsures("less than a list", specCounted(Less("f", vs), n))
	ghEnsures("less than or equal to a list", specCounted(LessOrEqual("f", vs), n))
}

func specCounted(c Condition, n int) bool { return ghNumbered(c.Render(n), n, len(c.Values())) }

//verif:contract C02 equalTo.RenderSQL greater.RenderSQL greaterOrEqual.RenderSQL less.RenderSQL lessOrEqual.RenderSQL in.RenderSQL contains.RenderSQL iContains.RenderSQL nullValue.RenderSQL Group.RenderSQL
//verif:each c
func C02_condition(c Condition, n int) {
	ghRequires(n >= 0)
	ghEnsures("same text", ghSameText(c.Render(n), c.RenderSQL()))
}

//verif:contract C02,C09,C17,C20 WhereClause.RenderSQL Limiter.RenderSQL BaseSelectBuilder.RenderSQL SelectManyBuilder.RenderSQL SelectSingleBuilder.RenderSQL
func C02_clauses(w WhereClause, l Limiter, q BaseSelectBuilder, m SelectManyBuilder, s SelectSingleBuilder, n int) {
	ghRequires(n >= 0)
	ghEnsures("where", ghSameText(w.Render(n), w.RenderSQL()))
	ghEnsures("limiter", ghSameText(l.Render(n), l.RenderSQL()))
	ghEnsures("base query", ghSameText(q.Render(n), q.RenderSQL()))
	ghEnsures("list query", ghSameText(m.Render(n), m.RenderSQL()))
	ghEnsures("single query", ghSameText(s.Render(n), s.RenderSQL()))
}

var _ = strconv.Itoa
