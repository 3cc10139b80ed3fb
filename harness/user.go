package query

import (
	"reflect"
	"strconv"
)

// ghUserCond is a condition written by a user of the package: it follows the rules every condition
// of the package follows.
type ghUserCond struct {
	name   string
	vals   []any
	join   JoinType
	negate bool
}

func (c ghUserCond) Values() []any { return append([]any{}, c.vals...) }

func (c ghUserCond) text(ph func(i int) string) string {
	s := c.name + "("
	for i := range c.vals {
		if i > 0 {
			s += ","
		}
		s += ph(i)
	}
	s += ")"
	if c.negate {
		return "NOT " + s
	}
	return s
}

func (c ghUserCond) Render(n int) string {
	return c.text(func(i int) string { return "$" + strconv.Itoa(n+i+1) })
}
func (c ghUserCond) RenderSQL() string  { return c.text(func(int) string { return "?" }) }
func (c ghUserCond) JoinType() JoinType { return c.join }
func (c ghUserCond) RenderJoin(isFirst bool) string {
	if isFirst {
		return ""
	}
	return string(c.join)
}
func (c ghUserCond) IsNegate() bool { return c.negate }
func (c ghUserCond) Join(j JoinType) Condition {
	c.join = j
	return c
}
func (c ghUserCond) Negate(v bool) Condition {
	c.negate = v
	return c
}
func (c ghUserCond) RenderNegate() string {
	if c.negate {
		return "NOT"
	}
	return ""
}
func (c ghUserCond) And(cs ...Condition) Condition {
	return NewGroup(LogicalAND, append([]Condition{c}, cs...)...)
}
func (c ghUserCond) Or(cs ...Condition) Condition { return NewGroup(LogicalOR, c).Or(cs...) }
func (c ghUserCond) FieldName() FieldName         { return FieldName(c.name) }
func (c ghUserCond) ApplyFieldSpec(f FieldDefinition) Condition {
	if f.FieldName() == FieldName(c.name) {
		c.name = string(f.FieldName())
	}
	return c
}
func (c ghUserCond) ApplyFieldTable(TableName) Condition { return c }

var _ Condition = ghUserCond{}

func init() {
	ghUserImpls = append(ghUserImpls, func(g *ghGen, depth int) reflect.Value {
		c := ghUserCond{name: g.ident(), join: LogicalAND, negate: g.pick(3) == 0}
		if g.pick(2) == 0 {
			c.join = LogicalOR
		}
		for i := g.pick(3); i > 0; i-- {
			c.vals = append(c.vals, g.any())
		}
		return reflect.ValueOf(c)
	})
}
