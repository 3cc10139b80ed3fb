From 5b6304ec6ac017fa8384bbae339b26f77e06a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 01/20] fix: do not append in place to lists shared between
 derived builders and groups

---
 group.go         | 2 ++
 insert.go        | 2 +-
 select_base.go   | 2 +-
 select_many.go   | 4 ++--
 select_single.go | 2 +-
 update.go        | 2 +-
 6 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/group.go b/group.go
index 1b476db..6d0475f 100644
--- a/group.go
+++ b/group.go
@@ -136,6 +136,8 @@ func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition)
 	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
 	haveConditions := len(conditionsGroup.conditions) > 0
+	// never append in place: the list could be shared with other groups derived from the same origin
+	conditionsGroup.conditions = conditionsGroup.conditions[:len(conditionsGroup.conditions):len(conditionsGroup.conditions)]
 
 	switch {
 	case len(conditions) == 0: // simply return pointer to copy if no new conditions.
diff --git a/insert.go b/insert.go
index 90cef5a..3536d79 100644
--- a/insert.go
+++ b/insert.go
@@ -26,7 +26,7 @@ func (inserter InsertBuilder) SetValues() []FieldValue {
 // Values generates new InsertBuilder having additional field values to build insert query parameters.
 // Can be called multiple times to set as many field values as required.
 func (inserter InsertBuilder) Values(values ...FieldValue) InsertBuilder {
-	inserter.setValues = append(inserter.setValues, values...)
+	inserter.setValues = append(inserter.setValues[:len(inserter.setValues):len(inserter.setValues)], values...)
 	return inserter
 }
 
diff --git a/select_base.go b/select_base.go
index edecf61..47ccf73 100644
--- a/select_base.go
+++ b/select_base.go
@@ -187,7 +187,7 @@ func (query BaseSelectBuilder) OrderBy(orderByFields ...FieldSorting) SelectMany
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query BaseSelectBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectJoin {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(updated.joins[:len(updated.joins):len(updated.joins)], TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteBaseJoiner{BaseSelectBuilder: updated}
 }
 
diff --git a/select_many.go b/select_many.go
index 30cc574..27aee38 100644
--- a/select_many.go
+++ b/select_many.go
@@ -104,7 +104,7 @@ func (query SelectManyBuilder) Limit(limit int) SelectManyBuilder {
 
 // OrderBy adds ordering by fields GroupAND returns modified SelectManyBuilder.
 func (query SelectManyBuilder) OrderBy(orderByFields ...FieldSorting) SelectManyBuilder {
-	query.order = append(query.order, orderByFields...)
+	query.order = append(query.order[:len(query.order):len(query.order)], orderByFields...)
 	return query
 }
 
@@ -134,7 +134,7 @@ func (query SelectManyBuilder) Delete() DeleteBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectManyBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectManyJoiner {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(updated.joins[:len(updated.joins):len(updated.joins)], TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteManyJoiner{SelectManyBuilder: updated}
 }
 
diff --git a/select_single.go b/select_single.go
index dd12af7..8801300 100644
--- a/select_single.go
+++ b/select_single.go
@@ -54,7 +54,7 @@ func (query SelectSingleBuilder) Update(values ...FieldValue) UpdateBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectSingleBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectSingleJoiner {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(updated.joins[:len(updated.joins):len(updated.joins)], TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteSingleJoiner{SelectSingleBuilder: updated}
 }
 
diff --git a/update.go b/update.go
index da0c242..38d954a 100644
--- a/update.go
+++ b/update.go
@@ -27,7 +27,7 @@ func (updater UpdateBuilder) SetValues() []FieldValue {
 // Set generates new UpdateBuilder having extended fields to update array.
 // Can be called multiple times to set as many field values as required.
 func (updater UpdateBuilder) Set(values ...FieldValue) UpdateBuilder {
-	updater.setValues = append(updater.setValues, values...)
+	updater.setValues = append(updater.setValues[:len(updater.setValues):len(updater.setValues)], values...)
 	return updater
 }
 
-- 
2.43.0


From e40f3d12b82b2b36734a9b4b5e79964110c730f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 02/20] fix: finish joins on a copy of joins list

---
 join_unfinished.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/join_unfinished.go b/join_unfinished.go
index 3568494..a25986f 100644
--- a/join_unfinished.go
+++ b/join_unfinished.go
@@ -11,6 +11,7 @@ type incompleteBaseJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteBaseJoiner) On(left FieldDefinition, right FieldDefinition) (updated BaseSelectBuilder) {
 	updated = joiner.BaseSelectBuilder
+	updated.joins = append([]TableJoiner{}, updated.joins...) // keep joins of unfinished builder intact
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
@@ -28,6 +29,7 @@ type incompleteManyJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteManyJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectManyBuilder) {
 	updated = joiner.SelectManyBuilder
+	updated.joins = append([]TableJoiner{}, updated.joins...) // keep joins of unfinished builder intact
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
@@ -45,6 +47,7 @@ type incompleteSingleJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteSingleJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectSingleBuilder) {
 	updated = joiner.SelectSingleBuilder
+	updated.joins = append([]TableJoiner{}, updated.joins...) // keep joins of unfinished builder intact
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
-- 
2.43.0


From cbb74b099b994d44eb14836709f5044fdb7cd867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 03/20] fix: apply field spec and table to a copy of group
 conditions

---
 group.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/group.go b/group.go
index 6d0475f..6aa35d3 100644
--- a/group.go
+++ b/group.go
@@ -309,6 +309,8 @@ func (conditionsGroup Group) Values() (values []interface{}) {
 // ApplyFieldSpec makes a copy of Group with updated FieldDefinition on each child when field name matched.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
+	conditionsGroup.conditions = append([]Condition{}, conditionsGroup.conditions...) // keep original list intact
+
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldSpec(spec)
 	}
@@ -319,6 +321,8 @@ func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
 // ApplyFieldTable makes a copy of Condition with updated FieldDefinition table name.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldTable(table TableName) Condition {
+	conditionsGroup.conditions = append([]Condition{}, conditionsGroup.conditions...) // keep original list intact
+
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldTable(table)
 	}
-- 
2.43.0


From b7197a0ae82eb598950d5c526cb2e3c2c1c4d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 04/20] fix: SetValues returns a copy of attached values as
 documented

---
 insert.go | 2 +-
 update.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/insert.go b/insert.go
index 3536d79..f7e723f 100644
--- a/insert.go
+++ b/insert.go
@@ -20,7 +20,7 @@ func (inserter InsertBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields values attached to use in create query.
 func (inserter InsertBuilder) SetValues() []FieldValue {
-	return inserter.setValues
+	return append([]FieldValue{}, inserter.setValues...)
 }
 
 // Values generates new InsertBuilder having additional field values to build insert query parameters.
diff --git a/update.go b/update.go
index 38d954a..fdf5936 100644
--- a/update.go
+++ b/update.go
@@ -21,7 +21,7 @@ func (updater UpdateBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields to update.
 func (updater UpdateBuilder) SetValues() []FieldValue {
-	return updater.setValues
+	return append([]FieldValue{}, updater.setValues...)
 }
 
 // Set generates new UpdateBuilder having extended fields to update array.
-- 
2.43.0


From 0b8c59a02ba630921954b87ffb4ec354b038e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 05/20] fix: SelectSingleBuilder.Fields keeps table, joins and
 conditions

---
 select_single.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/select_single.go b/select_single.go
index 8801300..4e5f765 100644
--- a/select_single.go
+++ b/select_single.go
@@ -25,6 +25,7 @@ func (query SelectSingleBuilder) FieldList() string {
 // Fields returns a copy of SelectManyBuilder having mustField list to retrieve updated with a list of specified FieldDefinition`s.
 // Note all fields should be set one step as Fields call resets mustField added before.
 func (query SelectSingleBuilder) Fields(fieldSpecs ...FieldDefinition) (updated SelectSingleBuilder) {
+	updated = query
 	updated.BaseSelectBuilder = updated.BaseSelectBuilder.Fields(fieldSpecs...)
 	return updated
 }
-- 
2.43.0


From f4af96c98495efeacc4c564fc582419169afbdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 06/20] fix: Or on IsNull condition does not panic

---
 lib_isnull.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib_isnull.go b/lib_isnull.go
index 3b7552e..955cc70 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -68,7 +68,7 @@ func (impl nullValue) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl nullValue) Or(conditions ...Condition) Condition {
-	return NewGroup(LogicalAND, nil).And(impl).Or(conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // IsNull generates Condition to select rows where specified field name value IS NULL'.
-- 
2.43.0


From dcb59f0c19f5ddbcf11e9652661f5b0935dd0f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 07/20] fix: Or of a condition does not mark resulting group to
 be joined with OR

---
 lib_equal.go | 2 +-
 lib_gt.go    | 2 +-
 lib_gte.go   | 2 +-
 lib_in.go    | 2 +-
 lib_lt.go    | 2 +-
 lib_lte.go   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib_equal.go b/lib_equal.go
index 7615bcf..97272b0 100644
--- a/lib_equal.go
+++ b/lib_equal.go
@@ -70,7 +70,7 @@ func (impl equalTo) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl equalTo) Or(conditions ...Condition) Condition {
-	return Or(impl, conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // EqualTo generates Condition for any field type equalTo to value.
diff --git a/lib_gt.go b/lib_gt.go
index 5e7eb4c..16c3ae9 100644
--- a/lib_gt.go
+++ b/lib_gt.go
@@ -70,7 +70,7 @@ func (impl greater) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl greater) Or(conditions ...Condition) Condition {
-	return Or(impl, conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // GreaterThan generates Condition for any field type to match records having field values greater than specified.
diff --git a/lib_gte.go b/lib_gte.go
index 74c4b74..0c09c15 100644
--- a/lib_gte.go
+++ b/lib_gte.go
@@ -71,7 +71,7 @@ func (impl greaterOrEqual) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl greaterOrEqual) Or(conditions ...Condition) Condition {
-	return Or(impl, conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // GreaterOrEqual generates Condition for any field type matching rows
diff --git a/lib_in.go b/lib_in.go
index ebd5c56..2641f4d 100644
--- a/lib_in.go
+++ b/lib_in.go
@@ -94,7 +94,7 @@ func (impl in) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl in) Or(conditions ...Condition) Condition {
-	return Or(impl, conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // In generates Condition for any field type to match records having field values in than specified.
diff --git a/lib_lt.go b/lib_lt.go
index 540996d..cd97bba 100644
--- a/lib_lt.go
+++ b/lib_lt.go
@@ -74,7 +74,7 @@ func (impl less) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl less) Or(conditions ...Condition) Condition {
-	return Or(impl, conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // Less generates Condition for any field type to match records having field values less than specified.
diff --git a/lib_lte.go b/lib_lte.go
index 84db60c..568f2b8 100644
--- a/lib_lte.go
+++ b/lib_lte.go
@@ -75,7 +75,7 @@ func (impl lessOrEqual) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl lessOrEqual) Or(conditions ...Condition) Condition {
-	return Or(impl, conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // LessOrEqual generates Condition for any field type matching rows having field values less or equal to specified.
-- 
2.43.0


From 7f4438cbb654d5174662d640cb099077e096b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 08/20] fix: join several conditions added to a group with
 logical AND and the requested operator

---
 group.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index 6aa35d3..663e1b7 100644
--- a/group.go
+++ b/group.go
@@ -148,13 +148,13 @@ func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition)
 	case len(conditions) == 1: // process single element adding in separated Group.addSingleCondition
 		return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
 	case havingAnyOR && op == LogicalAND: // enclose existed OR-OR into brackets and join flat AND-AND
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, conditions...)
+		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, op.SetToAll(conditions...)...)
 	case havingAnyAND && op == LogicalOR: // join to existed flat AND-AND new OR(AND_AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(op, conditions...)))
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(LogicalAND, conditions...).WithBrackets()))
 	default: // have many, adding many, enclose both sets into brackets and return new group with required join.
 		conditionsGroup.conditions = append([]Condition{
 			conditionsGroup.WithBrackets()},
-			NewGroup(LogicalAND, conditions...).WithBrackets(),
+			op.Join(NewGroup(LogicalAND, conditions...).WithBrackets()),
 		)
 	}
 
-- 
2.43.0


From 7859df65354ad4322f11633c034ee3952d1ec758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 09/20] fix: keep operator and negation of a group when
 unpacking it into another group

---
 group.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/group.go b/group.go
index 663e1b7..94abb5a 100644
--- a/group.go
+++ b/group.go
@@ -54,9 +54,10 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
 
-	addingOnlyAnd := anotherGroup.hasAll(LogicalAND)
+	// negated group should be kept enclosed, its elements could not be unpacked
+	addingOnlyAnd := anotherGroup.hasAll(LogicalAND) && !anotherGroup.IsNegate()
 	addingAnyAnd := anotherGroup.hasOne(LogicalAND)
-	addingOnlyOR := anotherGroup.hasAll(LogicalOR)
+	addingOnlyOR := anotherGroup.hasAll(LogicalOR) && !anotherGroup.IsNegate()
 	addingAnyOR := anotherGroup.hasOne(LogicalOR)
 
 	op := anotherGroup.joinType
@@ -68,30 +69,30 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 
 	// check conditions on have single condition and adding group
 	case haveSingle && op == LogicalAND && addingOnlyAnd: // AND AND (AND),- unpack another group into flat (AND...AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.SetToAll(anotherGroup.conditions...)...)
 	case haveSingle && op == LogicalOR && addingOnlyOR: // OR OR (OR),- unpack another group into flat (OR-OR).
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.SetToAll(anotherGroup.conditions...)...)
 	case haveSingle: // any other single (or group) + group: enclose new group into brackets
 		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(anotherGroup.WithBrackets()))
 
 	// check conditions on having many conditions and adding group with conjunction
 	case havingOnlyOR && op == LogicalOR && addingOnlyOR: // (OR) OR (OR) => flat OR
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.SetToAll(anotherGroup.conditions...)...)
 	case havingOnlyOR && op == LogicalOR && addingAnyAnd: // (OR) OR (AND) => OR OR (AND)
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.WithBrackets())
-	case havingAnyOR && op == LogicalAND && addingAnyAnd: // (OR) AND (AND) => (OR) AND AND
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, anotherGroup.conditions...)
+	case havingAnyOR && op == LogicalAND && addingAnyAnd && addingOnlyAnd: // (OR) AND (AND) => (OR) AND AND
+		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, op.SetToAll(anotherGroup.conditions...)...)
 		// check conditions on having many conditions and adding group with conjunction
 
 	case havingOnlyAND && op == LogicalAND && addingOnlyAnd: // (AND) AND (AND) => flat AND
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.SetToAll(anotherGroup.conditions...)...)
 		// check conditions on having many conditions and adding group
 	case havingOnlyAND && op == LogicalAND && addingAnyOR: // (AND) AND (OR),- AND AND (OR)
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.WithBrackets())
 		// check conditions on having many conditions and adding group
 	// check conditions on having many conditions and adding group
 	case havingAnyAND && op == LogicalOR && addingOnlyOR: // (AND) OR (OR) => (AND) OR OR
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, anotherGroup.conditions...)
+		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, op.SetToAll(anotherGroup.conditions...)...)
 
 	default: // have many, adding many, join is not matched, join both with brackets
 		conditionsGroup.conditions = []Condition{conditionsGroup.WithBrackets(), op.Join(anotherGroup.WithBrackets())}
-- 
2.43.0


From 798fbc72da542ed4951d94f2243b2ca1fec00be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 10/20] fix: conditions added to a negated group are not
 negated with it

---
 group.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/group.go b/group.go
index 94abb5a..5255821 100644
--- a/group.go
+++ b/group.go
@@ -134,6 +134,14 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
+	if len(conditions) > 0 && conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 0 {
+		// negation belongs to existing conditions only, keep them together in a single nested group
+		conditionsGroup = Group{
+			BaseCondition: *newBaseCondition(conditionsGroup.joinType, false),
+			conditions:    []Condition{conditionsGroup},
+		}
+	}
+
 	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
 	haveConditions := len(conditionsGroup.conditions) > 0
-- 
2.43.0


From 5d29a5f8a68dd5d015e569e32317645feba828e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 11/20] fix: enclose nested groups into brackets when rendered
 next to other conditions or negated

---
 group.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index 5255821..67d0b30 100644
--- a/group.go
+++ b/group.go
@@ -235,6 +235,37 @@ func (conditionsGroup Group) Or(conditions ...Condition) Condition {
 	return conditionsGroup.GroupOR(conditions...)
 }
 
+// isOpen returns true if group renders several joined conditions without enclosing them into brackets.
+func (conditionsGroup Group) isOpen() bool {
+	if conditionsGroup.withBrackets || conditionsGroup.IsNegate() {
+		return false
+	}
+
+	return len(conditionsGroup.conditions) > 1 ||
+		len(conditionsGroup.conditions) == 1 && isOpenGroup(conditionsGroup.conditions[0])
+}
+
+// isOpenGroup returns true if condition is a group rendered without brackets.
+func isOpenGroup(condition Condition) bool {
+	switch group := condition.(type) {
+	case Group:
+		return group.isOpen()
+	case *Group:
+		return group.isOpen()
+	default:
+		return false
+	}
+}
+
+// enclose puts rendered child condition into brackets if it could be mixed up with other conditions of group.
+func (conditionsGroup Group) enclose(condition Condition, sql string) string {
+	if isOpenGroup(condition) && (len(conditionsGroup.conditions) > 1 || conditionsGroup.IsNegate()) {
+		return "(" + sql + ")"
+	}
+
+	return sql
+}
+
 // Render renders SQL SELECT clause part for current group.
 // Takes existed parameters number (0 means no parameters are defined yet)
 // Note Render renders group without brackets itself if called directly.
@@ -252,7 +283,7 @@ func (conditionsGroup Group) Render(parametersCount int) (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.Render(parametersCount)
+		sql += conditionsGroup.enclose(condition, condition.Render(parametersCount))
 		parametersCount += len(condition.Values())
 	}
 
@@ -286,7 +317,7 @@ func (conditionsGroup Group) RenderSQL() (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.RenderSQL()
+		sql += conditionsGroup.enclose(condition, condition.RenderSQL())
 	}
 
 	if conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 1 { // force set brackets when negate
-- 
2.43.0


From 7e27522e824e700e140dafda064304033f19c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 12/20] fix: ignore groups having no conditions instead of
 rendering empty clause

---
 group.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 67d0b30..d6a4a34 100644
--- a/group.go
+++ b/group.go
@@ -38,11 +38,35 @@ func NewGroup(joinType JoinType, conditions ...Condition) Group {
 	}
 	return Group{
 		BaseCondition: *newBaseCondition(LogicalAND, false),
-		conditions:    joinType.SetToAll(conditions...),
+		conditions:    joinType.SetToAll(withoutEmptyGroups(conditions)...),
 		withBrackets:  false,
 	}
 }
 
+// withoutEmptyGroups returns conditions list without groups having no conditions, as such groups render nothing.
+func withoutEmptyGroups(conditions []Condition) []Condition {
+	result := make([]Condition, 0, len(conditions))
+	for _, condition := range conditions {
+		if !isEmptyGroup(condition) {
+			result = append(result, condition)
+		}
+	}
+
+	return result
+}
+
+// isEmptyGroup returns true if condition is a group having no conditions.
+func isEmptyGroup(condition Condition) bool {
+	switch group := condition.(type) {
+	case Group:
+		return len(group.conditions) == 0
+	case *Group:
+		return len(group.conditions) == 0
+	default:
+		return false
+	}
+}
+
 // addGroup does extra routines while adding single group element.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
@@ -134,6 +158,8 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
+	conditions = withoutEmptyGroups(conditions)
+
 	if len(conditions) > 0 && conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 0 {
 		// negation belongs to existing conditions only, keep them together in a single nested group
 		conditionsGroup = Group{
-- 
2.43.0


From aa4e43d9a4f31bb36245ed2c86d98ed55e14bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 13/20] fix: refuse INSERT and UPDATE when field value is not a
 single value

---
 insert.go |  6 +++++-
 update.go | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/insert.go b/insert.go
index f7e723f..c24de48 100644
--- a/insert.go
+++ b/insert.go
@@ -48,8 +48,12 @@ func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interf
 	valuePlaceholders := make([]string, 0)
 
 	for _, fieldValue := range inserter.setValues {
-		params = append(params, fieldValue.Values()...)
+		values := fieldValue.Values()
+		if len(values) != 1 {
+			return "", nil, fmt.Errorf("%w: %v: single value required, got %d", Error, fieldValue.fieldName, len(values))
+		}
 
+		params = append(params, values...)
 		columns = append(columns, fieldValue.fieldName)
 		valuePlaceholders = append(valuePlaceholders, "$"+strconv.Itoa(len(params)))
 	}
diff --git a/update.go b/update.go
index fdf5936..8f98bfe 100644
--- a/update.go
+++ b/update.go
@@ -37,16 +37,21 @@ func (updater UpdateBuilder) Where(fieldConditions ...Condition) UpdateBuilder {
 	return updater
 }
 
-func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any) {
+func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any, err error) {
 	kwPairs := make([]string, len(updater.setValues))
 	params = make([]any, len(updater.setValues))
 
 	for idx, fieldValue := range updater.setValues {
-		params[idx] = fieldValue.Values()[0]
+		values := fieldValue.Values()
+		if len(values) != 1 {
+			return "", nil, fmt.Errorf("%w: %v: single value required, got %d", Error, fieldValue.fieldName, len(values))
+		}
+
+		params[idx] = values[0]
 		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)
 	}
 
-	return strings.Join(kwPairs, ", "), params
+	return strings.Join(kwPairs, ", "), params, nil
 }
 
 // BuildQueryAndParams returns query string and params to fill in SQL UPDATE query string.
@@ -64,7 +69,10 @@ func (updater UpdateBuilder) BuildQueryAndParams() (sql string, params []interfa
 		return "", params, fmt.Errorf("%w: no table name set", Error)
 	}
 
-	fieldsEnum, params = updater.fieldsAndValues()
+	if fieldsEnum, params, err = updater.fieldsAndValues(); err != nil {
+		return "", nil, err
+	}
+
 	sql = strings.Join([]string{
 		kwUpdate.String(),
 		updater.tableName.String(),
-- 
2.43.0


From 1376ce242758069136b23c5421bf06de251f6886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 14/20] fix: FieldOrError refuses field names which are not
 <name> or <table>.<name>

---
 field_definition.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/field_definition.go b/field_definition.go
index ff33351..9735d82 100644
--- a/field_definition.go
+++ b/field_definition.go
@@ -44,6 +44,9 @@ func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, er
 
 	tokens := strings.Fields(strName)
 	switch {
+	case len(tokens) > 0 && (strings.Count(tokens[0], ".") > 1 || strings.HasPrefix(tokens[0], ".") || strings.HasSuffix(tokens[0], ".")):
+		// neither <name> nor <table>.<name>
+		return nil, fmt.Errorf("%w: unexpected field specification: %v", Error, strName)
 	case len(tokens) == 1 && !strings.Contains(tokens[0], "."):
 		return &FieldDefinition{fieldName: tokens[0], alias: "", tableName: ""}, nil
 	case len(tokens) == 1 && strings.Contains(tokens[0], "."):
-- 
2.43.0


From 60398eef16ff0cc526462122a6ca3740a184a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 15/20] fix: TableOrError accepts alias equal to table name
 without AS as documented

---
 table_ident.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/table_ident.go b/table_ident.go
index 64a9be3..40f8d5e 100644
--- a/table_ident.go
+++ b/table_ident.go
@@ -52,6 +52,8 @@ func TableOrError[T TableNameParameter](name T) (*TableIdent, error) {
 		return &TableIdent{name: tokens[0], alias: tokens[2]}, nil
 	case len(tokens) == 3 && strings.ToUpper(tokens[1]) == "AS" && len(tokens[2]) > 0 && tokens[2] == tokens[0]:
 		return &TableIdent{name: tokens[0], alias: ""}, nil
+	case len(tokens) == 2 && len(tokens[1]) > 0 && tokens[1] == tokens[0]:
+		return &TableIdent{name: tokens[0], alias: ""}, nil
 	case len(tokens) == 2 && len(tokens[1]) > 0 && tokens[1] != tokens[0]:
 		return &TableIdent{name: tokens[0], alias: tokens[1]}, nil
 	default:
-- 
2.43.0


From d619114d9fcf12b949717c530851313e7e6f9449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 16/20] fix: conditions render field reference instead of field
 declaration with alias

---
 lib_equal.go  | 8 ++++----
 lib_gt.go     | 8 ++++----
 lib_gte.go    | 8 ++++----
 lib_ilike.go  | 8 ++++----
 lib_in.go     | 8 ++++----
 lib_isnull.go | 4 ++--
 lib_like.go   | 8 ++++----
 lib_lt.go     | 8 ++++----
 lib_lte.go    | 8 ++++----
 9 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/lib_equal.go b/lib_equal.go
index 97272b0..490c00f 100644
--- a/lib_equal.go
+++ b/lib_equal.go
@@ -42,9 +42,9 @@ func (impl equalTo) Negate(newNegateIndicator bool) Condition {
 func (impl equalTo) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), "=$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), "=$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), "=$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), "=$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -54,9 +54,9 @@ func (impl equalTo) Render(paramNum int) string {
 func (impl equalTo) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), "=?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), "=?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), "=?"}
+		tokens = []string{impl.RenderField(), "=?"}
 	}
 	return strings.Join(tokens, "")
 }
diff --git a/lib_gt.go b/lib_gt.go
index 16c3ae9..e7dda69 100644
--- a/lib_gt.go
+++ b/lib_gt.go
@@ -42,9 +42,9 @@ func (impl greater) Negate(newNegateIndicator bool) Condition {
 func (impl greater) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), ">$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), ">$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), ">$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), ">$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -54,9 +54,9 @@ func (impl greater) Render(paramNum int) string {
 func (impl greater) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), ">?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), ">?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), ">?"}
+		tokens = []string{impl.RenderField(), ">?"}
 	}
 	return strings.Join(tokens, "")
 }
diff --git a/lib_gte.go b/lib_gte.go
index 0c09c15..17cb98f 100644
--- a/lib_gte.go
+++ b/lib_gte.go
@@ -43,9 +43,9 @@ func (impl greaterOrEqual) Negate(newNegateIndicator bool) Condition {
 func (impl greaterOrEqual) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), ">=$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), ">=$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), ">=$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), ">=$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -55,9 +55,9 @@ func (impl greaterOrEqual) Render(paramNum int) string {
 func (impl greaterOrEqual) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), ">=?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), ">=?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), ">=?"}
+		tokens = []string{impl.RenderField(), ">=?"}
 	}
 	return strings.Join(tokens, "")
 }
diff --git a/lib_ilike.go b/lib_ilike.go
index 582d76f..605a435 100644
--- a/lib_ilike.go
+++ b/lib_ilike.go
@@ -58,9 +58,9 @@ func (impl iContains) Or(conditions ...Condition) Condition {
 func (impl iContains) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), opIlike, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), impl.RenderNegate(), opIlike, "$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), opIlike, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), opIlike, "$" + strconv.Itoa(paramNum+1)}
 	}
 
 	return strings.Join(tokens, " ")
@@ -71,9 +71,9 @@ func (impl iContains) Render(paramNum int) string {
 func (impl iContains) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), opIlike, "?"}
+		tokens = []string{impl.RenderField(), impl.RenderNegate(), opIlike, "?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), opIlike, "?"}
+		tokens = []string{impl.RenderField(), opIlike, "?"}
 	}
 
 	return strings.Join(tokens, " ")
diff --git a/lib_in.go b/lib_in.go
index 2641f4d..0a4bc0a 100644
--- a/lib_in.go
+++ b/lib_in.go
@@ -55,9 +55,9 @@ func (impl in) Render(paramNum int) string {
 	placeholdersString := "(" + strings.Join(placeholders, ",") + ")"
 
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), inSymbol, placeholdersString}
+		tokens = []string{impl.RenderField(), impl.RenderNegate(), inSymbol, placeholdersString}
 	} else {
-		tokens = []string{impl.RenderSpec(), inSymbol, placeholdersString}
+		tokens = []string{impl.RenderField(), inSymbol, placeholdersString}
 	}
 
 	return strings.Join(tokens, " ")
@@ -77,9 +77,9 @@ func (impl in) RenderSQL() (sql string) {
 	placeholdersString := "(" + strings.Join(placeholders, ",") + ")"
 
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), inSymbol, placeholdersString}
+		tokens = []string{impl.RenderField(), impl.RenderNegate(), inSymbol, placeholdersString}
 	} else {
-		tokens = []string{impl.RenderSpec(), inSymbol, placeholdersString}
+		tokens = []string{impl.RenderField(), inSymbol, placeholdersString}
 	}
 
 	return strings.Join(tokens, " ")
diff --git a/lib_isnull.go b/lib_isnull.go
index 955cc70..f35776b 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -47,9 +47,9 @@ func (impl nullValue) Render(_ int) string {
 func (impl nullValue) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), "IS", "NOT", "NULL"}
+		tokens = []string{impl.RenderField(), "IS", "NOT", "NULL"}
 	} else {
-		tokens = []string{impl.RenderSpec(), "IS", "NULL"}
+		tokens = []string{impl.RenderField(), "IS", "NULL"}
 	}
 	return strings.Join(tokens, " ")
 }
diff --git a/lib_like.go b/lib_like.go
index ca170d9..a0e58f3 100644
--- a/lib_like.go
+++ b/lib_like.go
@@ -56,9 +56,9 @@ func (impl contains) Or(conditions ...Condition) Condition {
 func (impl contains) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), impl.RenderNegate(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
 	}
 
 	return strings.Join(tokens, " ")
@@ -69,9 +69,9 @@ func (impl contains) Render(paramNum int) string {
 func (impl contains) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), "LIKE", "?"}
+		tokens = []string{impl.RenderField(), impl.RenderNegate(), "LIKE", "?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), "LIKE", "?"}
+		tokens = []string{impl.RenderField(), "LIKE", "?"}
 	}
 
 	return strings.Join(tokens, " ")
diff --git a/lib_lt.go b/lib_lt.go
index cd97bba..fd680c7 100644
--- a/lib_lt.go
+++ b/lib_lt.go
@@ -46,9 +46,9 @@ func (impl less) Negate(newNegateIndicator bool) Condition {
 func (impl less) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), lessSymbol, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), lessSymbol, "$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), lessSymbol, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), lessSymbol, "$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -58,9 +58,9 @@ func (impl less) Render(paramNum int) string {
 func (impl less) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), lessSymbol, "?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), lessSymbol, "?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), lessSymbol, "?"}
+		tokens = []string{impl.RenderField(), lessSymbol, "?"}
 	}
 	return strings.Join(tokens, "")
 }
diff --git a/lib_lte.go b/lib_lte.go
index 568f2b8..127e6ff 100644
--- a/lib_lte.go
+++ b/lib_lte.go
@@ -47,9 +47,9 @@ func (impl lessOrEqual) Negate(newNegateIndicator bool) Condition {
 func (impl lessOrEqual) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), lteOp, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), lteOp, "$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), lteOp, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderField(), lteOp, "$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -59,9 +59,9 @@ func (impl lessOrEqual) Render(paramNum int) string {
 func (impl lessOrEqual) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), lteOp, "?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), lteOp, "?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), lteOp, "?"}
+		tokens = []string{impl.RenderField(), lteOp, "?"}
 	}
 	return strings.Join(tokens, "")
 }
-- 
2.43.0


From 32af360b377804c35fa6a10e28c9563d155f04a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 17/20] fix: FieldName.Validate refuses any whitespace, not
 only spaces

---
 field_name.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/field_name.go b/field_name.go
index ce8eab9..fe95f75 100644
--- a/field_name.go
+++ b/field_name.go
@@ -3,6 +3,7 @@ package query
 import (
 	"fmt"
 	"strings"
+	"unicode"
 )
 
 // ValueProvider implementations provides it's own values to database.
@@ -23,7 +24,7 @@ func (fn FieldName) Validate() error {
 		return fmt.Errorf("%w: field name contains quote character", Error)
 	case strings.Contains(fnStr, "\""):
 		return fmt.Errorf("%w: field name contains double quote character", Error)
-	case strings.Contains(fnStr, " "):
+	case strings.Contains(fnStr, " "), strings.IndexFunc(fnStr, unicode.IsSpace) >= 0:
 		return fmt.Errorf("%w: field name contains space character", Error)
 	case strings.Count(fnStr, ".") > 1:
 		return fmt.Errorf("%w: too many dots inside field name", Error)
-- 
2.43.0


From a617146ccf9ee3b6452fe598ea01760badc13702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 18/20] fix: render ordering, offset and limit of single and
 many select queries with both placeholder styles

---
 select_many.go   | 49 ++++++++++++++++++++++++++++++++++++++++++++++++
 select_single.go | 10 ++++++++++
 2 files changed, 59 insertions(+)

diff --git a/select_many.go b/select_many.go
index 27aee38..2af5b29 100644
--- a/select_many.go
+++ b/select_many.go
@@ -51,6 +51,55 @@ func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []inter
 	return sql, params, nil
 }
 
+// renderOrderBy returns ORDER BY clause started with space or empty string if no ordering is set.
+func (query SelectManyBuilder) renderOrderBy() (sql string) {
+	for idx, order := range query.order {
+		if idx == 0 {
+			sql += " ORDER BY "
+		} else {
+			sql += ", "
+		}
+		sql += order.Render()
+	}
+
+	return sql
+}
+
+// limiter returns Limiter filled with offset and limit of query.
+func (query SelectManyBuilder) limiter() (limiter Limiter) {
+	limiter = limiter.Offset(query.offset)
+	if query.limit > 0 {
+		limiter = limiter.Limit(uint(query.limit))
+	}
+
+	return limiter
+}
+
+// Render renders whole query using numbered parameters with respect of parameters count added previously.
+func (query SelectManyBuilder) Render(parametersCount int) (sql string) {
+	sql = query.BaseSelectBuilder.Render(parametersCount) + query.renderOrderBy()
+	if paging := query.limiter().Render(parametersCount + len(query.BaseSelectBuilder.Values())); len(paging) > 0 {
+		sql += " " + paging
+	}
+
+	return sql
+}
+
+// RenderSQL renders whole query using standard sql "?"(question) character for parameters.
+func (query SelectManyBuilder) RenderSQL() (sql string) {
+	sql = query.BaseSelectBuilder.RenderSQL() + query.renderOrderBy()
+	if paging := query.limiter().RenderSQL(); len(paging) > 0 {
+		sql += " " + paging
+	}
+
+	return sql
+}
+
+// Values returns a set of parameters to substitute into query rendered with Render or RenderSQL.
+func (query SelectManyBuilder) Values() (params []any) {
+	return append(query.BaseSelectBuilder.Values(), query.limiter().Values()...)
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectManyBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
diff --git a/select_single.go b/select_single.go
index 4e5f765..290be84 100644
--- a/select_single.go
+++ b/select_single.go
@@ -17,6 +17,16 @@ func (query SelectSingleBuilder) BuildQueryAndParams() (sql string, params []int
 	return sql + " LIMIT 1", params, nil
 }
 
+// Render renders whole query using numbered parameters with respect of parameters count added previously.
+func (query SelectSingleBuilder) Render(parametersCount int) (sql string) {
+	return query.BaseSelectBuilder.Render(parametersCount) + " LIMIT 1"
+}
+
+// RenderSQL renders whole query using standard sql "?"(question) character for parameters.
+func (query SelectSingleBuilder) RenderSQL() (sql string) {
+	return query.BaseSelectBuilder.RenderSQL() + " LIMIT 1"
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectSingleBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
-- 
2.43.0


From 7dc7324784a07b2fc542e9e53502f797ce774226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 19/20] fix: joining no conditions makes an empty group instead
 of panic

---
 logical.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logical.go b/logical.go
index 863deca..0bddfad 100644
--- a/logical.go
+++ b/logical.go
@@ -19,7 +19,7 @@ const (
 // Join wraps specified condition to combine with previous conditions with logical operation specified by JoinType.
 // Does the same as And() but in method of JoinType.
 func (joinType JoinType) Join(conditions ...Condition) (result Condition) {
-	if len(conditions) > 1 {
+	if len(conditions) != 1 { // no conditions make an empty group
 		return NewGroup(joinType, conditions...)
 	}
 
-- 
2.43.0


From c74f380ac7b6cd86f1dfb0bea0aeb24333f383c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 20/20] fix: negation of an empty group does not extend to
 conditions added later

---
 group.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/group.go b/group.go
index d6a4a34..2a24a1c 100644
--- a/group.go
+++ b/group.go
@@ -180,6 +180,7 @@ func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition)
 	case !haveConditions: // join to existed flat AND-AND new OR(AND_AND)
 		conditionsGroup.conditions = append(conditionsGroup.conditions, conditions...)
 		conditionsGroup.joinType = op
+		conditionsGroup.negate = false // nothing was negated yet, negation is not extended to added conditions
 	case len(conditions) == 1: // process single element adding in separated Group.addSingleCondition
 		return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
 	case havingAnyOR && op == LogicalAND: // enclose existed OR-OR into brackets and join flat AND-AND
-- 
2.43.0

