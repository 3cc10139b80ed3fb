#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script only to keep the JSON lines readable here).
import json,os
P=[]
def prop(id,title,statement,qtext,why,files,mech,observe,over=("inputs",),state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        observe_at=observe,hook_needed=None)))
LEAVES=["lib_equal.go","lib_gt.go","lib_gte.go","lib_lt.go","lib_lte.go","lib_in.go","lib_isnull.go","lib_like.go","lib_ilike.go"]
prop("C01","Numbered placeholders match the parameters one to one",
 "Every condition, limiter and SELECT, COUNT, INSERT, UPDATE or DELETE builder rendered with numbered placeholders after n already used parameters contains exactly the placeholders $n+1, $n+2, ... $n+k, each once and in increasing order of position, where k is the number of values it reports (n is 0 for a complete statement). The i-th reported value is the one that belongs to the i-th placeholder: values come in the same order as the clauses and conditions they are bound to, also inside nested groups. This holds for any nesting of the library's conditions and of user-written conditions that themselves number their placeholders this way.",
 "all trees of conditions of any depth and width (library and well-behaved user conditions), all field values including slices and empty slices, all offsets n >= 0, all builders of every kind",
 "tests pin a few dozen rendered strings with at most three parameters; shifted or duplicated numbers appear only for some mix of multi-value or zero-value conditions, nesting depth and starting offset, which is an unbounded space",
 ["group.go","where.go","limiter.go","select_base.go","select_many.go","select_single.go","count.go","insert.go","update.go","delete.go","value.go"]+LEAVES,
 [("parameter counter threaded through group rendering","group.go: Group.Render"),("placeholder numbering of a list condition","lib_in.go: in.Render"),("offset and limit numbered after where parameters","select_many.go: SelectManyBuilder.BuildQueryAndParams"),("where numbered after SET","update.go: UpdateBuilder.BuildQueryAndParams")],
 ["Render(n) against Values() of any condition or builder","sql and params of BuildQueryAndParams"])
prop("C02","Question-mark and numbered renderings are the same text",
 "For every condition, where clause, limiter and select builder, the rendering with '?' placeholders is obtained from the numbered rendering by replacing every numbered placeholder with '?' and changing nothing else, for any starting number. In particular both contain the same number of placeholders, equal to the number of reported values.",
 "all condition trees, all select builders and limiters, all starting numbers n >= 0",
 "the two renderings are separate pieces of code for each clause; tests compare each with a literal for a handful of values and never with each other over all inputs",
 ["group.go","where.go","limiter.go","select_base.go","select_many.go","select_single.go"]+LEAVES,
 [("paired renderers","Render and RenderSQL of each type")],
 ["Render(n) and RenderSQL()"])
prop("C03","Combining conditions keeps the promised boolean meaning",
 "Adding conditions to a condition or group that already holds some gives, for every truth assignment, 'existing AND all of the added' or 'existing OR (all of the added)' according to the operator asked for; adding to an empty group or an empty where clause gives the added conditions in order, each joined by its own AND/OR mark (the first mark ignored, AND binding tighter than OR); a newly made group joins all its conditions with the given operator. Negating sets (does not toggle) negation of that condition or whole group only, and a group's negation never extends to conditions added to it later. Groups without any condition contribute nothing.",
 "all trees of conditions, all AND/OR/NOT combinations in any order and depth, all truth assignments to the leaves",
 "group flattening has about a dozen cases chosen by the mix of operators already present and being added; tests exercise a few shapes of two or three leaves with literal strings and never evaluate meaning",
 ["group.go","operations.go","logical.go","where.go"]+LEAVES,
 [("flattening and bracketing rules","group.go: addGroup, addSingleCondition, addConditions"),("And/Or/Not","operations.go"),("marking","logical.go: JoinType.Join, JoinType.SetToAll")],
 ["And, Or, Not, GroupAND, GroupOR, NewGroup, Where"],("inputs","histories"))
prop("C04","Rendered conditions read back with the intended grouping",
 "The SQL text of a group of conditions, read with SQL precedence (NOT over AND over OR), has exactly the structure of the group: the conditions in order separated by the AND/OR mark of each, the whole preceded by NOT when negated, and every nested group that holds several conditions enclosed in its own brackets whenever it stands beside other conditions or under NOT. Brackets are always balanced and a group asked to have brackets has them; a group without conditions renders as empty text.",
 "all trees of groups and conditions whose own text is a closed expression",
 "tests compare literal strings for shallow groups; missing brackets change meaning silently and only appear for particular nestings",
 ["group.go","where.go","base.go"],
 [("group renderers","group.go: Group.Render, Group.RenderSQL"),("join words","base.go: BaseCondition.RenderJoin, RenderNegate")],
 ["Render and RenderSQL of groups, where clauses and statements"])
prop("C05","Builders and conditions are immutable values",
 "No call on a builder, condition, group, field, table or where clause changes what any previously obtained value renders or returns: every operation leaves its receiver and arguments, and everything derived from them before, exactly as they were, including when several values are derived from one origin. Lists handed out by getters are copies, and lists passed in are copied, so later changes made by the caller to such a list do not reach the builder.",
 "all builders and conditions, all histories of derivations from shared origins, all list lengths and capacities, hence also all interleavings of concurrent readers and derivers",
 "sharing faults need two values derived from one origin whose list happens to have spare capacity; tests derive linearly",
 ["insert.go","update.go","delete.go","select_base.go","select_many.go","select_single.go","group.go","where.go","fields.go","join_unfinished.go","table_ident.go","field_definition.go"],
 [("value receivers","all builder types"),("capacity-clipped appends and copies","insert.go, update.go, select_*.go, group.go"),("copying getters","FieldDefinitions, Conditions, SetValues")],
 ["render an origin before and after deriving from it","mutate a returned or passed list"],("inputs","histories","schedules"),
 [("list fields of builders","slices shared between derived values","setValues, order, joins, fieldSpecs, conditions")])
prop("C06","Unsafe or incomplete statements are refused",
 "Building a DELETE without conditions or table name, an UPDATE without conditions, without values to set or without table name, or an INSERT without values or table name fails, as does an INSERT or UPDATE with a value that expands to anything but exactly one parameter. Every refusal returns empty SQL text, no parameters and an error that matches the package's error value, and a statement that lacks none of these is never refused.",
 "all update, delete and insert builders reachable through the public API, including where clauses made only of empty groups",
 "a guard that can be bypassed by one history (e.g. conditions given as empty groups) makes a statement that touches every record; tests check one spelling of each guard",
 ["delete.go","update.go","insert.go","group.go"],
 [("guard switch","BuildQueryAndParams of DeleteBuilder, UpdateBuilder, InsertBuilder")],
 ["err, sql and params of BuildQueryAndParams"])
prop("C07","UPDATE statement text and parameters",
 "A built UPDATE is 'UPDATE <table> SET <f1>=$1, <f2>=$2, ... WHERE <conditions>' with the fields in the order they were given by name only, the conditions rendered after those parameters, and parameters equal to the set values in order followed by the values of the conditions. Set and Where called several times accumulate in call order.",
 "all tables, any number of fields and values, all condition trees, all splits of the calls",
 "tests pin one or two literals",
 ["update.go"],[("statement assembly","update.go: BuildQueryAndParams, fieldsAndValues"),("accumulation","update.go: Set, Where")],
 ["BuildQueryAndParams of update builders, however obtained"])
prop("C08","INSERT statement text and parameters",
 "A built INSERT is 'INSERT INTO <table>(<f1>, <f2>, ...) VALUES ($1, $2, ...)' with the fields in the order they were given by name only and as many placeholders as fields; the i-th parameter is the database value of the i-th field value. Values called several times accumulate in call order.",
 "all tables, any number of fields and values, all splits of the calls",
 "tests pin one or two literals with scalar values",
 ["insert.go"],[("statement assembly","insert.go: BuildQueryAndParams"),("accumulation","insert.go: Values")],
 ["BuildQueryAndParams of insert builders, however obtained"])
prop("C09","SELECT statement clauses, their order and parameters",
 "A built SELECT is 'SELECT <field list> FROM <table> <joins in order added>' followed, only when there are conditions, by ' WHERE ' and the conditions, then for list queries by the ordering and paging clauses and for single-record queries by ' LIMIT 1'; the field list is '*' when no fields were chosen and otherwise the chosen fields in order separated by ', '. Parameters are the condition values followed by the offset and limit values in use, and the build never fails.",
 "all select builders: any table, number of joins, field lists, condition trees, ordering lists, offsets and limits",
 "tests fix one or two literals per clause; clause combinations multiply",
 ["select_base.go","select_many.go","select_single.go","fields.go"],
 [("assembly","BuildQueryAndParams, Render, RenderSQL of the three select builders"),("field list","fields.go: FieldList")],
 ["BuildQueryAndParams, Render, RenderSQL, FieldList, RenderFrom"])
prop("C10","COUNT query counts the rows of the query it was made from",
 "A count query made from a select query is 'SELECT COUNT(<field>) FROM <the same table and joins>' with the same ' WHERE ' conditions and parameters as that query, '*' being counted unless a field is named. Chosen fields, ordering, offset and limit of the original query do not appear in it, and the build never fails.",
 "all base and list select builders, all optional count fields",
 "tests check literals for one or two builders, none with joins and conditions from an arbitrary query",
 ["count.go","select_base.go","select_many.go"],[("count builder","count.go: Count, BuildQueryAndParams")],
 ["Count() of any builder, BuildQueryAndParams"])
prop("C11","Derived builders keep everything except what was asked to change",
 "Choosing fields, adding conditions, joins or ordering, setting offset or limit changes only that part of a query and keeps table, joins, fields, conditions, ordering and paging otherwise; turning a select query into a list, single, count, update, insert or delete query carries over its table and, where the target has them, its joins, fields and conditions. The shortcuts on table names and table identifiers, and the constructors from a string, a table name or a table identifier, give the same builder as the equivalent chain of calls.",
 "all builders and all methods that derive one builder from another",
 "each builder type repeats the same setters; a setter that drops another part is seen only by a test that sets that part first",
 ["select_base.go","select_many.go","select_single.go","table_name.go","table_ident.go","insert.go","update.go","delete.go","where.go","limiter.go","field_name.go"],
 [("setters and converters","methods returning builders")],["rendered statement of the derived builder"],("inputs","histories"))
prop("C12","Field values expand to the right database parameters",
 "A scalar value gives exactly one parameter: the result of its own database conversion (the standard driver conversion, or else the package's value provider) if it has one, otherwise the value itself. A list of convertible values or of strings gives one parameter per element in order, converted the same way, and any other list is passed as one parameter unchanged. Pattern conditions give the single text '%<value>%', and null checks give no parameter.",
 "all Go values whose conversions succeed, all list lengths including zero",
 "dispatch on dynamic type with reflection; tests cover a few types",
 ["value.go","field_name.go","lib_like.go","lib_ilike.go","lib_isnull.go"],
 [("value dispatch","value.go: FieldValue.Values"),("pattern value","lib_like.go, lib_ilike.go: Values")],["Values() of field values and conditions"])
prop("C13","Field specifications are parsed exactly as documented",
 "A field specification of one of the forms '<name>', '<table>.<name>', '<name> as <alias>' and '<table>.<name> as <alias>' (any letter case of 'as', any surrounding or separating white space) is split into exactly those parts, and nothing is lost or invented. Any other text (no words, two words, more than three, a middle word other than 'as', several dots or an empty part around the dot) is refused: with an error matching the package's error value, or a panic in the constructors documented to panic; a definition passed instead of text is returned unchanged.",
 "all strings",
 "tests list about a dozen strings",
 ["field_definition.go","fields.go"],[("parser","field_definition.go: FieldOrError, mustField, Field"),("list constructor","fields.go: NewFields")],["FieldOrError, Field, FieldName.Field, NewFields"])
prop("C14","Table specifications are parsed and rendered exactly as documented",
 "A table specification '<name>', '<name> as <alias>' (any letter case of 'as') or '<name> <alias>' is split into exactly those parts, an alias equal to the name being dropped, and any other text is refused with an error matching the package's error value, or a panic in the constructor documented to panic. A table renders in FROM as its name, followed by ' AS <alias>' only when it has an alias that differs from the name; setting an alias equal to the name removes it, and fields made from a table refer to the alias if there is one and to the name otherwise.",
 "all strings, all table identifiers",
 "tests list fewer than ten strings",
 ["table_ident.go","table_name.go"],[("parser","table_ident.go: TableOrError, Table"),("alias rules","table_ident.go: As, RenderFrom, aliasOrName, Field")],["TableOrError, Table, As, RenderFrom, Field"])
prop("C15","Field references and declarations render consistently",
 "A field in a select list renders as its name, preceded by '<table>.' when it has a table and followed by ' AS <alias>' when it has an alias that differs from its name or has a table. In conditions, ordering and counting it is referred to by its alias if that differs from its name, else by '<table>.<name>' if it has a table, else by its name; in join conditions always by '<table>.<name>'. Changing alias or table of a field changes only that part.",
 "all field definitions",
 "tests cover a handful of combinations of empty, equal and different parts",
 ["field_definition.go"],[("renderers","field_definition.go: RenderSpec, RenderField, RenderTableSpec, TableFieldName"),("modifiers","field_definition.go: As, Of")],["RenderSpec, RenderField, RenderTableSpec, As, Of"])
prop("C16","Joins render the requested type, table and condition in order",
 "Each join of a select query renders as '<INNER|LEFT|RIGHT|FULL> JOIN <table with alias> ON <left table>.<left field>=<right table>.<right field>' with the type, table and fields it was requested with, after the base table and all joins added before it and separated by single blanks. Finishing a join completes the join just requested and leaves the others as they were; every way to request the same join gives the same result.",
 "all tables, fields, join types, numbers of joins and ways of requesting them",
 "join code is repeated for three builders and several shortcuts; tests use one join of each kind",
 ["join_type.go","join_tables.go","join_condition.go","join_unfinished.go","select_base.go","select_many.go","select_single.go","table_name.go","table_ident.go"],
 [("completion","join_unfinished.go: On"),("rendering","join_tables.go: RenderFrom; join_condition.go: Render; join_type.go: String")],["RenderFrom and SQL of joined queries"],("inputs","histories"))
prop("C17","Ordering clause keeps fields, directions and order of calls",
 "A list query with ordering renders ' ORDER BY ' followed by '<field reference> ASC' or '<field reference> DESC' for each requested ordering, in the order of the calls and arguments, separated by ', ', and renders no ordering clause when none was requested. The ordering constructors give the direction they name (ascending by default) for exactly the given field and refuse, by panic, invalid field names and unknown directions.",
 "all field names, directions, numbers of orderings and splits of the calls",
 "tests use one or two orderings",
 ["ordering.go","select_many.go"],[("rendering","select_many.go: BuildQueryAndParams; ordering.go: Render"),("constructors","ordering.go: ASC, DESC, OrderBy")],["SQL of ordered list queries"])
prop("C18","Field names are validated and value maps converted completely",
 "Validation accepts a field name exactly when it is non-empty, contains no quote, double quote or white space, has at most one dot and the dot is neither first nor last; a refusal is an error matching the package's error value. Converting a map of values gives, when all its keys are valid field names, exactly one field value per entry with that field and value, and otherwise an error matching the package's error value and no field values; it never panics.",
 "all strings, all maps in every iteration order",
 "tests list a few names; maps are tried with a few keys",
 ["field_name.go","values_map.go"],[("validator","field_name.go: Validate"),("conversion","values_map.go: FieldValues")],["FieldName.Validate, ValuesMap.FieldValues"])
prop("C19","Removing duplicate field names keeps first occurrences in order",
 "The duplicate-free list made from a list of field names contains exactly the names of the list, each once, in the order of their first occurrence, and the list passed in is left unchanged.",
 "all lists of names of any length",
 "tests use short lists",
 ["utils.go"],[("nested scan","utils.go: UniqFieldNames")],["UniqFieldNames"])
prop("C20","Offset and limit render and bind only when in use",
 "Paging renders an OFFSET clause exactly when the offset is above zero and a LIMIT clause exactly when the limit is above zero, offset before limit, separated by a single blank, and binds exactly those numbers in that order; a zero or negative limit means no limit. The same holds for the paging part of list queries, where setting offset or limit replaces the previous one and keeps the other.",
 "all offsets and limits",
 "tests use a few numbers",
 ["limiter.go","select_many.go"],[("limiter","limiter.go: Render, RenderSQL, Values"),("list query paging","select_many.go: BuildQueryAndParams, Render, Offset, Limit")],["Limiter methods, SQL of paged queries"])
prop("C21","Applying a field or table definition touches only matching fields",
 "Applying a field definition replaces it in every condition, value or ordering on a field with the same name, at any depth of groups, and leaves everything else (other fields, values, operators, marks, negation, brackets, order) as it was. Applying a table sets the table of every field in the condition or group and changes nothing else, and the original is not changed.",
 "all condition trees, field values and orderings, all definitions and tables",
 "each condition type repeats this code; tests check one literal each",
 ["group.go","where.go","value.go","ordering.go"]+LEAVES,[("propagation","ApplyFieldSpec and ApplyFieldTable of each type")],["ApplyFieldSpec, ApplyFieldTable, then Render and Values"])
prop("C22","Join marks and negation marks are set on copies, nothing else changes",
 "Setting the AND/OR mark or the negation mark of a condition or group gives a copy with exactly that mark and otherwise the same text, values, field, and other mark; the mark is rendered before every condition except the first of its group, where it is left out. AND/OR joining of one condition only sets its mark, joining of several makes a group, and marking a list marks every element and keeps their order and number.",
 "all conditions of every kind, all lists",
 "each condition type repeats this code; tests check a few",
 ["base.go","logical.go","operations.go","group.go"]+LEAVES,[("marks","base.go: Join, Negate, RenderJoin, RenderNegate"),("lists","logical.go: Join, SetToAll")],["Join, Negate, JoinType, IsNegate, RenderJoin, RenderNegate, SetToAll"])
prop("C23","Each comparison condition renders its own operator and field",
 "Equality, greater, greater-or-equal, less, less-or-equal, list membership, null, case-sensitive and case-insensitive pattern conditions render the field reference with exactly '=', '>', '>=', '<', '<=', 'IN (...)', 'IS NULL', 'LIKE' and 'ILIKE' and their own placeholders, list membership having one placeholder per value separated by ','. Negation renders as a leading 'NOT ' for the five comparisons, 'NOT IN', 'IS NOT NULL', 'NOT LIKE' and 'NOT ILIKE' for the others, and only when negated; constructors, also those on field names, build the condition they name on the given field and value, not negated and marked AND.",
 "all fields (with and without table and alias), all values, numbers of values, starting numbers, both negation states",
 "tests pin several literals per type but not all combinations of table, alias, negation, placeholder style and value count",
 LEAVES+["field_name.go"],[("renderers","Render and RenderSQL in lib_*.go"),("constructors","EqualTo, GreaterThan, ... and FieldName methods")],["Render, RenderSQL of library conditions"])
prop("C24","No operation panics on well-formed input",
 "No exported function or method panics, for any input, except by a documented refusal of malformed text: the field, field list, table and ordering constructors, and everything that builds a field or table from text, panic only on text that the corresponding error-returning parser or validator refuses (the field list constructor also on arguments of other types, the ordering constructor on unknown directions). Well-formed input means conditions and convertible values that are not nil pointers or nil interfaces and conversions that succeed.",
 "all well-formed inputs of every exported function and method, including empty and nil lists",
 "panics hide at list boundaries (empty or single element lists, nil lists, unusual dynamic types) that examples rarely hit",
 ["group.go","update.go","insert.go","join_unfinished.go","value.go","lib_like.go","lib_ilike.go","field_definition.go","fields.go","logical.go"],
 [("index expressions and type assertions","all of the package")],["calls of every exported function"])
prop("C25","DELETE statement text and parameters",
 "A built DELETE is 'DELETE FROM <table> WHERE <conditions>' with the conditions rendered from the first parameter on and parameters equal to the values of the conditions. Conditions given in several calls, or taken over from a select query, all restrict the rows deleted.",
 "all tables, all condition trees, all splits of the calls",
 "tests pin one or two literals",
 ["delete.go","select_base.go","select_many.go"],[("statement assembly","delete.go: BuildQueryAndParams"),("accumulation","delete.go: Where")],["BuildQueryAndParams of delete builders, however obtained"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if sch:
    for p in P: jsonschema.validate(p,sch)
print(len(P))
