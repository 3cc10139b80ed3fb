package query

import "strconv"

// C23: leaf conditions.

func specNot(negate bool) string {
	if negate {
		return "NOT "
	}
	return ""
}

func specRef(f FieldDefinition) string { return f.RenderField() }

//verif:contract C23,C15 equalTo.Render equalTo.RenderSQL
func C23_equal(c equalTo, n int) {
	ghEnsures("numbered", c.Render(n) == specNot(c.IsNegate())+c.RenderField()+"=$"+strconv.Itoa(n+1))
	ghEnsures("question", c.RenderSQL() == specNot(c.IsNegate())+c.RenderField()+"=?")
}

//verif:contract C23,C15 greater.Render greater.RenderSQL
func C23_greater(c greater, n int) {
	ghEnsures("numbered", c.Render(n) == specNot(c.IsNegate())+c.RenderField()+">$"+strconv.Itoa(n+1))
	ghEnsures("question", c.RenderSQL() == specNot(c.IsNegate())+c.RenderField()+">?")
}

//verif:contract C23,C15 greaterOrEqual.Render greaterOrEqual.RenderSQL
func C23_greater_equal(c greaterOrEqual, n int) {
	ghEnsures("numbered", c.Render(n) == specNot(c.IsNegate())+c.RenderField()+">=$"+strconv.Itoa(n+1))
	ghEnsures("question", c.RenderSQL() == specNot(c.IsNegate())+c.RenderField()+">=?")
}

//verif:contract C23,C15 less.Render less.RenderSQL
func C23_less(c less, n int) {
	ghEnsures("numbered", c.Render(n) == specNot(c.IsNegate())+c.RenderField()+"<$"+strconv.Itoa(n+1))
	ghEnsures("question", c.RenderSQL() == specNot(c.IsNegate())+c.RenderField()+"<?")
}

//verif:contract C23,C15 lessOrEqual.Render lessOrEqual.RenderSQL
func C23_less_equal(c lessOrEqual, n int) {
	ghEnsures("numbered", c.Render(n) == specNot(c.IsNegate())+c.RenderField()+"<=$"+strconv.Itoa(n+1))
	ghEnsures("question", c.RenderSQL() == specNot(c.IsNegate())+c.RenderField()+"<=?")
}

// specIn is the part of a list membership condition after the field.
func specIn(negate bool, n, k int, numbered bool) string {
	text := " IN ("
	if negate {
		text = " NOT IN ("
	}
	for i := 0; i < k; i++ {
		if i > 0 {
			text += ","
		}
		if numbered {
			text += "$" + strconv.Itoa(n+i+1)
		} else {
			text += "?"
		}
	}
	return text + ")"
}

//verif:contract C23,C15 in.Render in.RenderSQL
func C23_in(c in, n int) {
	k := len(c.Values())
	ghEnsures("numbered", c.Render(n) == c.RenderField()+specIn(c.IsNegate(), n, k, true))
	ghEnsures("question", c.RenderSQL() == c.RenderField()+specIn(c.IsNegate(), n, k, false))
}

//verif:contract C23,C15 nullValue.Render nullValue.RenderSQL
func C23_null(c nullValue, n int) {
	want := c.RenderField() + " IS NULL"
	if c.IsNegate() {
		want = c.RenderField() + " IS NOT NULL"
	}
	ghEnsures("text", c.Render(n) == want && c.RenderSQL() == want)
}

func specLike(negate bool, op string) string {
	if negate {
		return " NOT " + op + " "
	}
	return " " + op + " "
}

//verif:contract C23,C15 contains.Render contains.RenderSQL
func C23_like(c contains, n int) {
	ghEnsures("numbered", c.Render(n) == c.RenderField()+specLike(c.IsNegate(), "LIKE")+"$"+strconv.Itoa(n+1))
	ghEnsures("question", c.RenderSQL() == c.RenderField()+specLike(c.IsNegate(), "LIKE")+"?")
}

//verif:contract C23,C15 iContains.Render iContains.RenderSQL
func C23_ilike(c iContains, n int) {
	ghEnsures("numbered", c.Render(n) == c.RenderField()+specLike(c.IsNegate(), "ILIKE")+"$"+strconv.Itoa(n+1))
	ghEnsures("question", c.RenderSQL() == c.RenderField()+specLike(c.IsNegate(), "ILIKE")+"?")
}

// specMade tells whether a condition is the expected one: given text, mark AND, not negated, on the field.
func specMade(c Condition, f FieldName, n int, numbered, question string, values []any) bool {
	return c.Render(n) == numbered && c.RenderSQL() == question && c.JoinType() == LogicalAND && !c.IsNegate() &&
		c.FieldName() == f && ghEq(c.Values(), values)
}

// specTextOf is the reference to the field a text stands for.
func specTextOf(f FieldName) (ref string, name FieldName, ok bool) {
	nm, table, alias, good := specField(string(f))
	if !good {
		return "", "", false
	}
	d := vField(nm, table, alias)
	return d.RenderField(), d.FieldName(), true
}

//verif:contract C23 EqualTo GreaterThan GreaterOrEqual Less LessOrEqual FieldName.EqualTo
func C23_make_compare(f FieldName, v any, n int) {
	ref, name, ok := specTextOf(f)
	fv := vFieldValue(v)
	ghRequires(len(fv.Values()) == 1)
	p := "$" + strconv.Itoa(n+1)
	a, pa := ghTry(func() Condition { return EqualTo(f, v) })
	ghEnsures("EqualTo", pa == !ok && ghImplies(ok, specMade(a, name, n, ref+"="+p, ref+"=?", fv.Values())))
	b, pb := ghTry(func() Condition { return f.EqualTo(v) })
	ghEnsures("FieldName.EqualTo", pb == !ok && ghImplies(ok, specMade(b, name, n, ref+"="+p, ref+"=?", fv.Values())))
	c, pc := ghTry(func() Condition { return GreaterThan(f, v) })
	ghEnsures("GreaterThan", pc == !ok && ghImplies(ok, specMade(c, name, n, ref+">"+p, ref+">?", fv.Values())))
	d, pd := ghTry(func() Condition { return GreaterOrEqual(f, v) })
	ghEnsures("GreaterOrEqual", pd == !ok && ghImplies(ok, specMade(d, name, n, ref+">="+p, ref+">=?", fv.Values())))
	e, pe := ghTry(func() Condition { return Less(f, v) })
	ghEnsures("Less", pe == !ok && ghImplies(ok, specMade(e, name, n, ref+"<"+p, ref+"<?", fv.Values())))
	g, pg := ghTry(func() Condition { return LessOrEqual(f, v) })
	ghEnsures("LessOrEqual", pg == !ok && ghImplies(ok, specMade(g, name, n, ref+"<="+p, ref+"<=?", fv.Values())))
}

//verif:contract C23 In FieldName.In IsNull FieldName.IsNull Contains IContains FieldName.Contains FieldName.IContains
func C23_make_other(f FieldName, v any, s string, n int) {
	ref, name, ok := specTextOf(f)
	vs := vFieldValue(v).Values()
	p := "$" + strconv.Itoa(n+1)
	a, pa := ghTry(func() Condition { return In(f, v) })
	ghEnsures("In", pa == !ok && ghImplies(ok, specMade(a, name, n, ref+specIn(false, n, len(vs), true), ref+specIn(false, n, len(vs), false), vs)))
	b, pb := ghTry(func() Condition { return f.In(v) })
	ghEnsures("FieldName.In", pb == !ok && ghImplies(ok, specMade(b, name, n, ref+specIn(false, n, len(vs), true), ref+specIn(false, n, len(vs), false), vs)))
	c, pc := ghTry(func() Condition { return IsNull(f) })
	ghEnsures("IsNull", pc == !ok && ghImplies(ok, specMade(c, name, n, ref+" IS NULL", ref+" IS NULL", nil)))
	d, pd := ghTry(func() Condition { return f.IsNull() })
	ghEnsures("FieldName.IsNull", pd == !ok && ghImplies(ok, specMade(d, name, n, ref+" IS NULL", ref+" IS NULL", nil)))
	e, pe := ghTry(func() Condition { return Contains(f, s) })
	ghEnsures("Contains", pe == !ok && ghImplies(ok, specMade(e, name, n, ref+" LIKE "+p, ref+" LIKE ?", []any{"%" + s + "%"})))
	g, pg := ghTry(func() Condition { return f.Contains(s) })
	ghEnsures("FieldName.Contains", pg == !ok && ghImplies(ok, specMade(g, name, n, ref+" LIKE "+p, ref+" LIKE ?", []any{"%" + s + "%"})))
	h, ph := ghTry(func() Condition { return IContains(f, s) })
	ghEnsures("IContains", ph == !ok && ghImplies(ok, specMade(h, name, n, ref+" ILIKE "+p, ref+" ILIKE ?", []any{"%" + s + "%"})))
	i, pi := ghTry(func() Condition { return f.IContains(s) })
	ghEnsures("FieldName.IContains", pi == !ok && ghImplies(ok, specMade(i, name, n, ref+" ILIKE "+p, ref+" ILIKE ?", []any{"%" + s + "%"})))
}
