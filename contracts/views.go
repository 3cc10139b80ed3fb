package query

// Views: the only places where contracts look at unexported fields.

func vTable(q BaseSelectBuilder) TableIdent         { return q.baseTable }
func vJoins(q BaseSelectBuilder) []TableJoiner      { return q.joins }
func vFields(q BaseSelectBuilder) []FieldDefinition { return q.fields.fieldSpecs }
func vWhere(q BaseSelectBuilder) WhereClause        { return q.where }
func vGroup(w WhereClause) Group                    { return w.group }
func vConds(g Group) []Condition                    { return g.conditions }
func vBrackets(g Group) bool                        { return g.withBrackets }
func vOffset(q SelectManyBuilder) uint              { return q.offset }
func vLimit(q SelectManyBuilder) int                { return q.limit }
func vOrder(q SelectManyBuilder) []FieldSorting     { return q.order }
func vUpdateValues(u UpdateBuilder) []FieldValue    { return u.setValues }
func vUpdateWhere(u UpdateBuilder) Group            { return u.where }
func vUpdateTable(u UpdateBuilder) TableName        { return u.tableName }
func vInsertValues(u InsertBuilder) []FieldValue    { return u.setValues }
func vInsertTable(u InsertBuilder) TableName        { return u.tableName }
func vDeleteWhere(u DeleteBuilder) Group            { return u.where }
func vDeleteTable(u DeleteBuilder) TableName        { return u.tableName }
func vCountBase(c CountBuilder) BaseSelectBuilder   { return c.baseBuilder }
func vCountField(c CountBuilder) FieldDefinition    { return c.countField }
func vLimiter(l Limiter) (offset, limit uint)       { return l.offset, l.limit }
func vRight(j TableJoiner) TableIdent               { return j.rightTable }
func vValue(v FieldValue) any                       { return v.value }
func vSorting(f FieldDefinition, d SortDirection) FieldSorting {
	return FieldSorting{FieldDefinition: f, direction: d}
}

func vIdent(name, alias string) TableIdent { return TableIdent{name: name, alias: alias} }

func vField(name, table, alias string) FieldDefinition {
	return FieldDefinition{fieldName: name, tableName: table, alias: alias}
}
func vFieldValue(v any) FieldValue { return FieldValue{value: v} }
func vFieldValueOf(f FieldDefinition, v any) FieldValue {
	return FieldValue{FieldDefinition: f, value: v}
}

// vLeaf looks at a leaf condition, whether held by value or by pointer.
func vLeaf(c Condition) (kind string, base BaseCondition, field FieldDefinition, value any) {
	switch t := c.(type) {
	case equalTo:
		return "=", t.BaseCondition, t.FieldDefinition, t.value
	case *equalTo:
		return "=", t.BaseCondition, t.FieldDefinition, t.value
	case greater:
		return ">", t.BaseCondition, t.FieldDefinition, t.value
	case *greater:
		return ">", t.BaseCondition, t.FieldDefinition, t.value
	case greaterOrEqual:
		return ">=", t.BaseCondition, t.FieldDefinition, t.value
	case *greaterOrEqual:
		return ">=", t.BaseCondition, t.FieldDefinition, t.value
	case less:
		return "<", t.BaseCondition, t.FieldDefinition, t.value
	case *less:
		return "<", t.BaseCondition, t.FieldDefinition, t.value
	case lessOrEqual:
		return "<=", t.BaseCondition, t.FieldDefinition, t.value
	case *lessOrEqual:
		return "<=", t.BaseCondition, t.FieldDefinition, t.value
	case in:
		return "IN", t.BaseCondition, t.FieldDefinition, t.value
	case *in:
		return "IN", t.BaseCondition, t.FieldDefinition, t.value
	case contains:
		return "LIKE", t.BaseCondition, t.FieldDefinition, t.value
	case *contains:
		return "LIKE", t.BaseCondition, t.FieldDefinition, t.value
	case iContains:
		return "ILIKE", t.BaseCondition, t.FieldDefinition, t.value
	case *iContains:
		return "ILIKE", t.BaseCondition, t.FieldDefinition, t.value
	case nullValue:
		return "NULL", t.BaseCondition, t.FieldDefinition, nil
	case *nullValue:
		return "NULL", t.BaseCondition, t.FieldDefinition, nil
	}
	return "", BaseCondition{}, FieldDefinition{}, nil
}

// vGroupOf looks at a group, whether held by value or by pointer.
func vGroupOf(c Condition) (Group, bool) {
	switch t := c.(type) {
	case Group:
		return t, true
	case *Group:
		return *t, true
	}
	return Group{}, false
}
