package query

import (
	"database/sql/driver"
	"reflect"
)

// C12: expansion of values.

func specConv(v driver.Valuer) any {
	r, _ := v.Value()
	return r
}

//verif:contract C12,C07,C08 FieldValue.Values
func C12_scalar(f FieldDefinition, v any) {
	fv := vFieldValueOf(f, v)
	_, valuer := v.(driver.Valuer)
	_, provider := v.(ValueProvider)
	_, a := v.([]driver.Valuer)
	_, b := v.([]ValueProvider)
	_, c := v.([]string)
	ghRequires(!a && !b && !c)
	ghRequires(valuer || provider || reflect.ValueOf(v).Kind() != reflect.Slice)
	got := fv.Values()
	ghEnsures("one parameter", len(got) == 1)
	if c, ok := v.(driver.Valuer); ok {
		ghEnsures("converted by the driver conversion", ghEq(got, []any{specConv(c)}))
	} else if p, ok := v.(ValueProvider); ok {
		ghEnsures("converted by the value provider", ghEq(got, []any{p.DatabaseValue()}))
	} else {
		ghEnsures("unchanged", ghEq(got, []any{v}))
	}
}

//verif:contract C12,C01,C07,C08 FieldValue.Values
func C12_valuers(f FieldDefinition, vs []driver.Valuer) {
	var want []any
	for _, v := range vs {
		want = append(want, specConv(v))
	}
	ghEnsures("one parameter per element", ghEq(vFieldValueOf(f, vs).Values(), want))
}

//verif:contract C12,C01,C07,C08 FieldValue.Values
func C12_providers(f FieldDefinition, vs []ValueProvider) {
	var want []any
	for _, v := range vs {
		want = append(want, v.DatabaseValue())
	}
	ghEnsures("one parameter per element", ghEq(vFieldValueOf(f, vs).Values(), want))
}

//verif:contract C12,C01,C07,C08 FieldValue.Values
func C12_strings(f FieldDefinition, vs []string) {
	var want []any
	for _, v := range vs {
		want = append(want, v)
	}
	ghEnsures("one parameter per element", ghEq(vFieldValueOf(f, vs).Values(), want))
}

// any other slice type, seen through reflection.
//
//verif:contract C12 FieldValue.Values
func C12_other_lists(f FieldDefinition, v any) {
	_, valuer := v.(driver.Valuer)
	_, provider := v.(ValueProvider)
	_, a := v.([]driver.Valuer)
	_, b := v.([]ValueProvider)
	_, c := v.([]string)
	r := reflect.ValueOf(v)
	ghRequires(!valuer && !provider && !a && !b && !c && r.Kind() == reflect.Slice)
	got := vFieldValueOf(f, v).Values()
	if r.Type().Elem().Implements(reflect.TypeOf((*driver.Valuer)(nil)).Elem()) {
		var want []any
		for i := 0; i < r.Len(); i++ {
			e := r.Index(i).Interface().(driver.Valuer)
			if e == nil {
				want = append(want, nil)
			} else {
				want = append(want, specConv(e))
			}
		}
		ghEnsures("one parameter per element", ghEq(got, want))
	} else {
		ghEnsures("unchanged", ghEq(got, []any{v}))
	}
}

//verif:contract C12,C01 contains.Values iContains.Values
func C12_patterns(a contains, b iContains, s string) {
	ghEnsures("like", ghEq(a.Values(), []any{"%" + vValue(a.FieldValue).(string) + "%"}))
	ghEnsures("ilike", ghEq(b.Values(), []any{"%" + vValue(b.FieldValue).(string) + "%"}))
	ghEnsures("like made", ghEq(Contains("f", s).Values(), []any{"%" + s + "%"}))
	ghEnsures("ilike made", ghEq(IContains("f", s).Values(), []any{"%" + s + "%"}))
}

//verif:contract C12,C01 nullValue.Values
func C12_null(c nullValue) {
	ghEnsures("no parameter", len(c.Values()) == 0)
}

//verif:contract C12,C01 equalTo.Values greater.Values greaterOrEqual.Values less.Values lessOrEqual.Values in.Values
func C12_conditions(a equalTo, b greater, c greaterOrEqual, d less, e lessOrEqual, g in) {
	ghEnsures("values of the field value", ghEq(a.Values(), a.FieldValue.Values()) && ghEq(b.Values(), b.FieldValue.Values()) &&
		ghEq(c.Values(), c.FieldValue.Values()) && ghEq(d.Values(), d.FieldValue.Values()) &&
		ghEq(e.Values(), e.FieldValue.Values()) && ghEq(g.Values(), g.FieldValue.Values()))
}

//verif:contract C12 FieldName.Value NewFieldValue
func C12_made(f FieldName, v any) {
	_, _, ok := specTextOf(f)
	a, pa := ghTry(func() *FieldValue { return NewFieldValue(f, v) })
	ghEnsures("NewFieldValue", pa == !ok && ghImplies(ok, a != nil && ghEq(a.Values(), vFieldValue(v).Values())))
	b, pb := ghTry(func() FieldValue { return f.Value(v) })
	_, valuer := v.(driver.Valuer)
	p, provider := v.(ValueProvider)
	ghEnsures("FieldName.Value refused as the field", pb == !ok)
	ghEnsures("FieldName.Value", ghImplies(ok && !(provider && !valuer), ghImplies(!provider, ghEq(b.Values(), vFieldValue(v).Values()))))
	if provider && ok && !valuer {
		ghEnsures("FieldName.Value of a provider", ghEq(b.Values(), vFieldValue(p.DatabaseValue()).Values()))
	}
}

//verif:contract C12 FieldDefinition.Value
func C12_of_definition(d FieldDefinition, v any) {
	_, _, ok := specTextOf(d.FieldName())
	a, p := ghTry(func() FieldValue { return d.Value(v) })
	ghEnsures("refused as the field", p == !ok)
	ghEnsures("values", ghImplies(ok, ghEq(a.Values(), vFieldValue(v).Values())))
}
