package query

import "strings"

// C04: the text of a group.

// specOpen: a nested group which shows several conditions side by side at its outer level.
func specOpen(c Condition) bool {
	g, ok := vGroupOf(c)
	if !ok || vBrackets(g) || g.IsNegate() {
		return false
	}
	cs := vConds(g)
	return len(cs) > 1 || len(cs) == 1 && specOpen(cs[0])
}

// specPart is the text of one condition of a group.
func specPart(g Group, c Condition, i, n int) string {
	text := c.Render(n)
	if specOpen(c) && (len(vConds(g)) > 1 || g.IsNegate()) {
		text = "(" + text + ")"
	}
	if i > 0 {
		text = " " + string(c.JoinType()) + " " + text
	}
	return text
}

func specGroupText(g Group, n int) string {
	if len(vConds(g)) == 0 {
		return ""
	}
	text := ""
	for i, c := range vConds(g) {
		text += specPart(g, c, i, n)
		n += len(c.Values())
	}
	if vBrackets(g) || g.IsNegate() && len(vConds(g)) > 1 {
		text = "(" + text + ")"
	}
	if g.IsNegate() {
		text = "NOT " + text
	}
	return text
}

// specPartSQL and specGroupSQL: the same with '?' placeholders.
func specPartSQL(g Group, c Condition, i int) string {
	text := c.RenderSQL()
	if specOpen(c) && (len(vConds(g)) > 1 || g.IsNegate()) {
		text = "(" + text + ")"
	}
	if i > 0 {
		text = " " + string(c.JoinType()) + " " + text
	}
	return text
}

func specGroupSQL(g Group) string {
	if len(vConds(g)) == 0 {
		return ""
	}
	text := ""
	for i, c := range vConds(g) {
		text += specPartSQL(g, c, i)
	}
	if vBrackets(g) || g.IsNegate() && len(vConds(g)) > 1 {
		text = "(" + text + ")"
	}
	if g.IsNegate() {
		text = "NOT " + text
	}
	return text
}

//verif:contract C04,C22 Group.RenderSQL Group.enclose Group.isOpen isOpenGroup Group.WithBrackets
func C04_group_sql(g Group) {
	ghEnsures("text", g.RenderSQL() == specGroupSQL(g))
	ghEnsures("no conditions, no text", ghImplies(len(vConds(g)) == 0, g.RenderSQL() == ""))
}

//verif:contract C04 Group.WithBrackets
func C04_brackets(g Group, n int) {
	b := g.WithBrackets()
	ghEnsures("asked for", vBrackets(b))
	ghEnsures("nothing else changes", ghEq(vConds(b), vConds(g)) && b.IsNegate() == g.IsNegate() && b.JoinType() == g.JoinType())
	ghEnsures("text", b.Render(n) == specGroupText(b, n) && b.RenderSQL() == specGroupSQL(b))
	ghEnsures("enclosed", ghImplies(len(vConds(g)) > 0 && !g.IsNegate(), strings.HasPrefix(b.Render(n), "(") && strings.HasSuffix(b.Render(n), ")")))
}

//verif:contract C04 WhereClause.Render WhereClause.RenderSQL WhereClause.String
func C04_where(w WhereClause, n int) {
	ghEnsures("numbered", w.Render(n) == specGroupText(vGroup(w), n))
	ghEnsures("question marks", w.RenderSQL() == specGroupSQL(vGroup(w)))
	ghEnsures("printed", w.String() == "Where("+specGroupSQL(vGroup(w))+")")
}

//verif:contract C04,C22 Group.Render Group.enclose Group.isOpen isOpenGroup Group.WithBrackets
func C04_group(g Group, n int) {
	ghEnsures("text", g.Render(n) == specGroupText(g, n))
	ghEnsures("no conditions, no text", ghImplies(len(vConds(g)) == 0, g.Render(n) == ""))
}
