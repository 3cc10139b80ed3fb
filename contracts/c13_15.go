package query

import (
	"errors"
	"strings"
)

// C13, C14, C15: field and table specifications.

// wordAsOpen is true for the two words about which the documentation does not say whether they are
// a letter case of "as": those written with the long s, U+017F, whose upper case is "S" but which is
// not the lower case of any letter.
func wordAsOpen(word string) bool {
	return strings.ToUpper(word) == "AS" && strings.ToLower(word) != "as"
}

// fieldSpec is the specification of the accepted field texts.
func specField(text string) (name, table, alias string, ok bool) {
	words := strings.Fields(text)
	if len(words) != 1 && len(words) != 3 {
		return "", "", "", false
	}
	if len(words) == 3 {
		ghRequires(!wordAsOpen(words[1]))
		if strings.ToUpper(words[1]) != "AS" {
			return "", "", "", false
		}
	}
	name = words[0]
	if strings.Count(name, ".") > 0 {
		parts := strings.Split(name, ".")
		if len(parts) != 2 || parts[0] == "" || parts[1] == "" {
			return "", "", "", false
		}
		table, name = parts[0], parts[1]
	}
	if len(words) == 3 {
		alias = words[2]
	}
	return name, table, alias, true
}

//verif:contract C13 FieldOrError
func C13_FieldOrError_string(s string) {
	name, table, alias, ok := specField(s)
	f, err := FieldOrError(s)
	ghEnsures("error exactly when refused", (err == nil) == ok)
	ghEnsures("error matches the package error", ghImplies(!ok, errors.Is(err, Error)))
	ghEnsures("no field on error", ghImplies(!ok, f == nil))
	ghEnsures("parts", ghImplies(ok, f != nil && f.FieldName() == FieldName(name) && f.TableName() == TableName(table) && f.Alias() == FieldName(alias)))
}

//verif:contract C13 FieldOrError
func C13_FieldOrError_name(s FieldName) {
	name, table, alias, ok := specField(string(s))
	f, err := FieldOrError(s)
	ghEnsures("error exactly when refused", (err == nil) == ok)
	ghEnsures("error matches the package error", ghImplies(!ok, errors.Is(err, Error)))
	ghEnsures("parts", ghImplies(ok, f != nil && f.FieldName() == FieldName(name) && f.TableName() == TableName(table) && f.Alias() == FieldName(alias)))
}

//verif:contract C13 FieldOrError
func C13_FieldOrError_definition(d FieldDefinition) {
	f, err := FieldOrError(d)
	ghEnsures("accepted", err == nil && f != nil)
	ghEnsures("unchanged", ghImplies(f != nil, ghEq(*f, d)))
	ghEnsures("Field unchanged", ghEq(Field(d), d))
}

//verif:contract C13 Field
func C13_Field(s string) {
	name, table, alias, ok := specField(s)
	f, panicked := ghTry(func() FieldDefinition { return Field(s) })
	g, panicked2 := ghTry(func() FieldDefinition { return Field(FieldName(s)) })
	h, panicked3 := ghTry(func() FieldDefinition { return FieldName(s).Field() })
	ghEnsures("panics exactly when refused", panicked == !ok && panicked2 == !ok && panicked3 == !ok)
	ghEnsures("parts", ghImplies(ok, f.FieldName() == FieldName(name) && f.TableName() == TableName(table) && f.Alias() == FieldName(alias)))
	ghEnsures("same from a name", ghImplies(ok, ghEq(f, g) && ghEq(f, h)))
}

func specTable(text string) (name, alias string, ok bool) {
	words := strings.Fields(text)
	switch len(words) {
	case 1:
		return words[0], "", true
	case 2:
		name, alias = words[0], words[1]
	case 3:
		ghRequires(!wordAsOpen(words[1]))
		if strings.ToUpper(words[1]) != "AS" {
			return "", "", false
		}
		name, alias = words[0], words[2]
	default:
		return "", "", false
	}
	if alias == name {
		alias = ""
	}
	return name, alias, true
}

//verif:contract C14 TableOrError
func C14_TableOrError_string(s string) {
	name, alias, ok := specTable(s)
	t, err := TableOrError(s)
	ghEnsures("error exactly when refused", (err == nil) == ok)
	ghEnsures("error matches the package error", ghImplies(!ok, errors.Is(err, Error)))
	ghEnsures("parts", ghImplies(ok, t != nil && t.TableName() == TableName(name) && t.Alias() == TableName(alias)))
}

//verif:contract C14 TableOrError
func C14_TableOrError_name(s TableName) {
	name, alias, ok := specTable(string(s))
	t, err := TableOrError(s)
	ghEnsures("error exactly when refused", (err == nil) == ok)
	ghEnsures("error matches the package error", ghImplies(!ok, errors.Is(err, Error)))
	ghEnsures("parts", ghImplies(ok, t != nil && t.TableName() == TableName(name) && t.Alias() == TableName(alias)))
}

//verif:contract C14 Table
func C14_Table(s string) {
	name, alias, ok := specTable(s)
	t, panicked := ghTry(func() TableIdent { return Table(s) })
	u, panicked2 := ghTry(func() TableIdent { return Table(TableName(s)) })
	v, panicked3 := ghTry(func() TableIdent { return TableName(s).Ident() })
	ghEnsures("panics exactly when refused", panicked == !ok && panicked2 == !ok && panicked3 == !ok)
	ghEnsures("parts", ghImplies(ok, t.TableName() == TableName(name) && t.Alias() == TableName(alias)))
	ghEnsures("same from a name", ghImplies(ok, ghEq(t, u) && ghEq(t, v)))
}

//verif:contract C14 Table
func C14_Table_ident(t TableIdent) {
	u, err := TableOrError(t)
	ghEnsures("accepted", err == nil && u != nil)
	ghEnsures("unchanged", ghImplies(u != nil, ghEq(*u, t)))
	ghEnsures("Table unchanged", ghEq(Table(t), t))
}

//verif:contract C14 TableIdent.RenderFrom TableIdent.As TableIdent.Field
func C14_render(t TableIdent, alias TableName, s string) {
	name, as := string(t.TableName()), string(t.Alias())
	want := name
	if as != "" && as != name {
		want = name + " AS " + as
	}
	ghEnsures("render", t.RenderFrom() == want)
	u := t.As(alias)
	ghEnsures("As keeps the name", u.TableName() == t.TableName())
	ghEnsures("As of the name removes the alias", ghImplies(alias == t.TableName(), u.Alias() == ""))
	ghEnsures("As sets the alias", ghImplies(alias != t.TableName(), u.Alias() == alias))
	fname, _, falias, ok := specField(s)
	f, panicked := ghTry(func() FieldDefinition { return t.Field(FieldName(s)) })
	ref := t.TableName()
	if t.Alias() != "" {
		ref = t.Alias()
	}
	ghEnsures("Field panics exactly when refused", panicked == !ok)
	ghEnsures("Field of the table", ghImplies(ok, f.FieldName() == FieldName(fname) && f.Alias() == FieldName(falias) && f.TableName() == ref))
}

//verif:contract C14 TableName.Field TableName.RenderFrom
func C14_tableName(t TableName, s string) {
	ghEnsures("render", t.RenderFrom() == string(t))
	fname, _, falias, fok := specField(s)
	f, panicked := ghTry(func() FieldDefinition { return t.Field(FieldName(s)) })
	ghEnsures("Field panics exactly when refused", panicked == !fok)
	ghEnsures("Field of the table", ghImplies(fok, f.FieldName() == FieldName(fname) && f.Alias() == FieldName(falias) && f.TableName() == t))
}

//verif:contract C15 FieldDefinition.RenderSpec FieldDefinition.RenderField FieldDefinition.RenderTableSpec
func C15_render(f FieldDefinition) {
	name, table, alias := string(f.FieldName()), string(f.TableName()), string(f.Alias())
	spec := name
	if table != "" {
		spec = table + "." + name
	}
	if alias != "" && (alias != name || table != "") {
		spec = spec + " AS " + alias
	}
	ghEnsures("select list", f.RenderSpec() == spec)
	ref := name
	if alias != "" && alias != name {
		ref = alias
	} else if table != "" {
		ref = table + "." + name
	}
	ghEnsures("reference", f.RenderField() == ref)
	ghEnsures("join reference", f.RenderTableSpec() == table+"."+name)
	ghEnsures("TableFieldName", string(f.TableFieldName()) == table+"."+name)
}

//verif:contract C15 FieldDefinition.As FieldDefinition.Of
func C15_change(f FieldDefinition, alias FieldName, table TableName) {
	a := f.As(alias)
	ghEnsures("As", a.Alias() == alias && a.FieldName() == f.FieldName() && a.TableName() == f.TableName())
	o := f.Of(table)
	ghEnsures("Of", o.TableName() == table && o.FieldName() == f.FieldName() && o.Alias() == f.Alias())
	ghEnsures("As of Of", ghEq(f.As(alias).Of(table), f.Of(table).As(alias)))
}
