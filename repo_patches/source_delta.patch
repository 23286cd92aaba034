From fc983df2fea10c943db1040483223313387b008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:02 +0000
Subject: [PATCH 01/52] fix: identify elements by a unique key instead of a
 reusable memory address

---
 support.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/support.go b/support.go
index 1e177de..ec06ab4 100644
--- a/support.go
+++ b/support.go
@@ -1,7 +1,9 @@
 package cypher
 
 import (
-	"fmt"
+	"strconv"
+	"sync/atomic"
+
 	"github.com/rs/xid"
 )
 
@@ -23,7 +25,11 @@ func PatternElementsToVisitables(patterns []PatternElement) []Visitable {
 	return visitables
 }
 
-func getAddress(a interface{}) string {
-	return fmt.Sprintf("%p", a)
-}
+var lastKey uint64
 
+// getAddress returns the key that identifies an element while a statement is rendered.
+// The memory address of the element is not usable for that: it is given to another
+// element as soon as this one has been garbage collected.
+func getAddress(_ interface{}) string {
+	return strconv.FormatUint(atomic.AddUint64(&lastKey, 1), 36)
+}
-- 
2.43.0


From 0efa77f0d55a48d12157788294226a84fd7a5287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:52 +0000
Subject: [PATCH 02/52] fix: give nodes without labels and nodes with several
 labels a key of their own

---
 node.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index c6b77af..56cbdb8 100644
--- a/node.go
+++ b/node.go
@@ -17,6 +17,7 @@ func NodeCreate() Node {
 	node := Node{
 		notNil: true,
 	}
+	node.injectKey()
 	return node
 }
 
@@ -30,7 +31,7 @@ func NodeCreate1(primaryLabel string, properties Properties, additionalLabels ..
 		}
 	}
 	labels := make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
+	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabels {
 		labels = append(labels, NodeLabelCreate(label))
 	}
@@ -67,12 +68,13 @@ func NodeCreate3(primaryLabel string, additionalLabel ...string) Node {
 		}
 	}
 	var labels = make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
+	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabel {
 		labels = append(labels, NodeLabelCreate(label))
 	}
 	node := Node{
 		labels: labels,
+		notNil: true,
 	}
 	node.injectKey()
 	return node
-- 
2.43.0


From e37ddb8a2ccaad222af01694231df11c0f655c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 03/52] fix: naming a node yields a new node, and a node
 without a name is reported

---
 node.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 56cbdb8..7e64c07 100644
--- a/node.go
+++ b/node.go
@@ -190,11 +190,13 @@ func (node Node) Property(name string) Property {
 }
 
 func (node Node) NamedByString(name string) Node {
-	node.symbolicName = SymbolicNameCreate(name)
-	return node
+	return node.Named(SymbolicNameCreate(name))
 }
 
 func (node Node) Named(name SymbolicName) Node {
+	if node.GetError() != nil {
+		return node
+	}
 	if name.GetError() != nil {
 		return NodeError(name.GetError())
 	}
@@ -202,6 +204,7 @@ func (node Node) Named(name SymbolicName) Node {
 		return NodeError(errors.New("node named: symbolic name is required"))
 	}
 	node.symbolicName = name
+	node.injectKey()
 	return node
 }
 
-- 
2.43.0


From eb7803c88566f283097302d4aa9b548919b083da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:58 +0000
Subject: [PATCH 04/52] fix: do not lose the errors of a node and of its
 properties

---
 node.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/node.go b/node.go
index 7e64c07..bd15d28 100644
--- a/node.go
+++ b/node.go
@@ -30,6 +30,9 @@ func NodeCreate1(primaryLabel string, properties Properties, additionalLabels ..
 			return NodeError(errors.New("empty label is not allowed"))
 		}
 	}
+	if properties.GetError() != nil {
+		return NodeError(properties.GetError())
+	}
 	labels := make([]NodeLabel, 0)
 	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabels {
@@ -81,6 +84,12 @@ func NodeCreate3(primaryLabel string, additionalLabel ...string) Node {
 }
 
 func NodeCreate4(newProperties MapExpression, node Node) Node {
+	if node.GetError() != nil {
+		return node
+	}
+	if newProperties.GetError() != nil {
+		return NodeError(newProperties.GetError())
+	}
 	newNode := Node{symbolicName: node.symbolicName, labels: node.labels, notNil: true, properties: PropertiesCreate(newProperties)}
 	newNode.injectKey()
 	return newNode
@@ -101,6 +110,9 @@ func NodeError(err error) Node {
 }
 
 func (node Node) GetRequiredSymbolicName() SymbolicName {
+	if node.GetError() != nil {
+		return SymbolicNameError(node.GetError())
+	}
 	if node.symbolicName.isNotNil() {
 		return node.symbolicName
 	}
-- 
2.43.0


From 5ae77bc68f04fcac9b895fc4adafd3b8964662a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:24 +0000
Subject: [PATCH 05/52] fix: escape names wherever they are rendered: repeated
 nodes, UNWIND variables, blank names

---
 alias_expression.go    |  4 ++--
 cypher_renderer.go     | 10 +++++++++-
 entry_expression.go    |  2 +-
 key_value_map_entry.go |  2 +-
 node.go                |  2 +-
 property_lookup.go     |  2 +-
 unwind.go              |  2 +-
 7 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index 3030c05..5c7359d 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -70,14 +70,14 @@ func (aliased AliasedExpression) getKey() string {
 
 func (aliased AliasedExpression) enter(renderer *CypherRenderer) {
 	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; visited {
-		renderer.append(EscapeIfNecessary(aliased.alias))
+		renderer.append(escapeIdentifier(aliased.alias))
 	}
 }
 
 func (aliased AliasedExpression) leave(renderer *CypherRenderer) {
 	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; !visited {
 		renderer.append(" AS ")
-		renderer.append(EscapeIfNecessary(aliased.alias))
+		renderer.append(escapeIdentifier(aliased.alias))
 	}
 }
 
diff --git a/cypher_renderer.go b/cypher_renderer.go
index d3be5ac..d200bca 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -71,7 +71,7 @@ func (renderer *CypherRenderer) resolve(name SymbolicName) string {
 	if _, isExist := renderer.resolvedSymbolicNames[name]; !isExist {
 		value := name.value
 		if len(value) > 0 {
-			return EscapeIfNecessary(value)
+			return escapeIdentifier(value)
 		}
 		return renderer.guid.String()
 	}
@@ -200,6 +200,14 @@ func EscapeIfNecessary(name string) string {
 	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
 }
 
+// escapeIdentifier escapes every non empty name that is not a plain identifier, blank names included.
+func escapeIdentifier(name string) string {
+	if name == "" || isIdentifier(name) {
+		return name
+	}
+	return escapeName(name)
+}
+
 func isIdentifier(name string) bool {
 	for i, c := range name {
 		if !unicode.IsLetter(c) && c != '_' && (i == 0 || !unicode.IsDigit(c)) {
diff --git a/entry_expression.go b/entry_expression.go
index ee0db5b..148b6f4 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -48,7 +48,7 @@ func (e EntryExpression) accept(visitor *CypherRenderer) {
 }
 
 func (e EntryExpression) enter(renderer *CypherRenderer) {
-	renderer.append(EscapeIfNecessary(e.Key))
+	renderer.append(escapeIdentifier(e.Key))
 	renderer.append(": ")
 }
 
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index b4c659a..d59ce3e 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -39,7 +39,7 @@ func (k KeyValueMapEntry) accept(visitor *CypherRenderer) {
 }
 
 func (k KeyValueMapEntry) enter(renderer *CypherRenderer) {
-	renderer.append(EscapeIfNecessary(k.entryKey)).append(": ")
+	renderer.append(escapeIdentifier(k.entryKey)).append(": ")
 }
 
 func (k KeyValueMapEntry) leave(renderer *CypherRenderer) {
diff --git a/node.go b/node.go
index bd15d28..5dff2ce 100644
--- a/node.go
+++ b/node.go
@@ -161,7 +161,7 @@ func (node Node) enter(renderer *CypherRenderer) {
 	_, renderer.skipNodeContent = renderer.visitedNamed[node.key]
 	renderer.visitedNamed[node.key] = 1
 	if renderer.skipNodeContent {
-		renderer.append(node.symbolicName.value)
+		renderer.append(renderer.resolve(node.symbolicName))
 	}
 }
 
diff --git a/property_lookup.go b/property_lookup.go
index b154772..84d146b 100644
--- a/property_lookup.go
+++ b/property_lookup.go
@@ -36,7 +36,7 @@ func (p PropertyLookup) enter(renderer *CypherRenderer) {
 		renderer.append(p.GetPropertyKeyName())
 		return
 	}
-	renderer.append(EscapeIfNecessary(p.GetPropertyKeyName()))
+	renderer.append(escapeIdentifier(p.GetPropertyKeyName()))
 }
 
 func (p PropertyLookup) leave(renderer *CypherRenderer) {
diff --git a/unwind.go b/unwind.go
index bf93a89..e692313 100644
--- a/unwind.go
+++ b/unwind.go
@@ -47,7 +47,7 @@ func (u UnwindPhrase) enter(renderer *CypherRenderer) {
 
 func (u UnwindPhrase) leave(renderer *CypherRenderer) {
 	renderer.append(" AS ")
-	renderer.append(u.variable)
+	renderer.append(escapeIdentifier(u.variable))
 	renderer.append(" ")
 }
 
-- 
2.43.0


From f20979b42f15fc9cf07132c8003d7a716b1a744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:27 +0000
Subject: [PATCH 06/52] fix: escape parameter names that are not plain
 identifiers

---
 cypher_renderer.go | 21 +++++++++++++++++++++
 parameter.go       |  7 ++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index d200bca..1ce7e0b 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -208,6 +208,27 @@ func escapeIdentifier(name string) string {
 	return escapeName(name)
 }
 
+// escapeDottedName escapes the parts of a dotted name that are not plain identifiers.
+func escapeDottedName(name string) string {
+	parts := strings.Split(name, ".")
+	for i, part := range parts {
+		if part == "" {
+			return escapeName(name)
+		}
+		parts[i] = escapeIdentifier(part)
+	}
+	return strings.Join(parts, ".")
+}
+
+func isDecimal(name string) bool {
+	for _, c := range name {
+		if c < '0' || c > '9' {
+			return false
+		}
+	}
+	return name != ""
+}
+
 func isIdentifier(name string) bool {
 	for i, c := range name {
 		if !unicode.IsLetter(c) && c != '_' && (i == 0 || !unicode.IsDigit(c)) {
diff --git a/parameter.go b/parameter.go
index 1ab0a93..5f0b27b 100644
--- a/parameter.go
+++ b/parameter.go
@@ -45,7 +45,12 @@ func (p Parameter) accept(visitor *CypherRenderer) {
 }
 
 func (p Parameter) enter(renderer *CypherRenderer) {
-	renderer.append("$").append(p.name)
+	renderer.append("$")
+	if isDecimal(p.name) {
+		renderer.append(p.name)
+		return
+	}
+	renderer.append(escapeDottedName(p.name))
 }
 
 func (p Parameter) leave(renderer *CypherRenderer) {
-- 
2.43.0


From 42369e46b8a88fd3986aecb402dd83bc235e459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:51 +0000
Subject: [PATCH 07/52] fix: keep the namespace of a procedure, separate it
 with dots and escape its parts

---
 cypher.go         |  2 +-
 name_space.go     |  6 +++++-
 procedure_name.go | 24 ++++++++++++++++--------
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/cypher.go b/cypher.go
index 9d89e1e..c0db9e3 100644
--- a/cypher.go
+++ b/cypher.go
@@ -431,7 +431,7 @@ func ACallSimple(procedureName string) OngoingStandaloneCallWithoutArguments {
 	if procedureName == "" {
 		return StandaloneCallBuilderError(errors.New("the procedure name must not be nil or empty"))
 	}
-	return ACall(strings.Split(procedureName, "\\.")...)
+	return ACall(strings.Split(procedureName, ".")...)
 }
 
 /**
diff --git a/name_space.go b/name_space.go
index cca9d3b..e6e797b 100644
--- a/name_space.go
+++ b/name_space.go
@@ -55,5 +55,9 @@ func (n Namespace) GetContent() interface{} {
 }
 
 func (n Namespace) AsString() string {
-	return strings.Join(n.content[:], ".")
+	parts := make([]string, len(n.content))
+	for i, part := range n.content {
+		parts[i] = escapeDottedName(part)
+	}
+	return strings.Join(parts, ".")
 }
diff --git a/procedure_name.go b/procedure_name.go
index 9cd37e3..d39e8ae 100644
--- a/procedure_name.go
+++ b/procedure_name.go
@@ -1,7 +1,7 @@
 package cypher
 
 import (
-	"strings"
+	"errors"
 )
 
 type ProcedureName struct {
@@ -13,12 +13,18 @@ type ProcedureName struct {
 }
 
 func ProcedureNameCreate(namespaceAndProcedure ...string) ProcedureName {
-	if len(namespaceAndProcedure) == 1 {
+	for _, part := range namespaceAndProcedure {
+		if part == "" {
+			return ProcedureName{err: errors.New("the parts of a procedure name may not be empty")}
+		}
+	}
+	if len(namespaceAndProcedure) == 0 {
+		return ProcedureName{err: errors.New("the name of the procedure is required")}
+	} else if len(namespaceAndProcedure) == 1 {
 		return ProcedureNameCreate1(namespaceAndProcedure[0])
 	} else {
-		values := make([]string, 0)
 		inputLength := len(namespaceAndProcedure)
-		copy(values, namespaceAndProcedure[1:inputLength-1])
+		values := append([]string{}, namespaceAndProcedure[:inputLength-1]...)
 		namespace := NameSpaceCreate(values)
 		return ProcedureNameCreate2(namespace, namespaceAndProcedure[inputLength-1])
 	}
@@ -47,11 +53,10 @@ func ProcedureNameCreate2(namespace Namespace, value string) ProcedureName {
 }
 
 func (p ProcedureName) getQualifiedName() string {
-	namespace := ""
 	if p.optionalNamespace.isNotNil() {
-		namespace = strings.Join(p.optionalNamespace.content[:], ".")
+		return p.optionalNamespace.AsString() + "." + escapeDottedName(p.value)
 	}
-	return namespace + "." + p.value
+	return escapeDottedName(p.value)
 }
 
 func (p ProcedureName) GetError() error {
@@ -68,7 +73,10 @@ func (p ProcedureName) enter(renderer *CypherRenderer) {
 }
 
 func (p ProcedureName) leave(renderer *CypherRenderer) {
-	renderer.append(p.value)
+	if p.optionalNamespace.isNotNil() {
+		renderer.append(".")
+	}
+	renderer.append(escapeDottedName(p.value))
 }
 
 func (p ProcedureName) getKey() string {
-- 
2.43.0


From a67fac76488528e2dc3d78d69cc4b2464dbb8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 08/52] fix: report the errors of YIELD items

---
 yield_items.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yield_items.go b/yield_items.go
index 026a586..98af167 100644
--- a/yield_items.go
+++ b/yield_items.go
@@ -14,6 +14,9 @@ func YieldItemsCreate(expressions []Expression) YieldItems {
 		return YieldItemsError(errors.New("can not yield an empty list of items"))
 	}
 	for _, expression := range expressions {
+		if expression == nil {
+			return YieldItemsError(errors.New("can not yield a nil item"))
+		}
 		if expression.GetError() != nil {
 			return YieldItemsError(expression.GetError())
 		}
@@ -28,7 +31,7 @@ func YieldItemsCreate(expressions []Expression) YieldItems {
 
 func YieldItemsError(err error) YieldItems {
 	return YieldItems{
-		err: nil,
+		err: err,
 	}
 }
 
-- 
2.43.0


From cf245196cf3576a8857981b82715a4e153f6b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 09/52] fix: a procedure without arguments can be used as
 function, its errors are reported

---
 procedure_call.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/procedure_call.go b/procedure_call.go
index fe8fa7e..6970c02 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -193,6 +193,9 @@ func (s StandaloneCallBuilder) ReturningDistinct(expression ...Expression) Ongoi
 }
 
 func (s StandaloneCallBuilder) Build() (Statement, error) {
+	if s.err != nil {
+		return nil, s.err
+	}
 	if s.procedureName.GetError() != nil {
 		return nil, s.procedureName.GetError()
 	}
@@ -222,7 +225,13 @@ func (s StandaloneCallBuilder) isNotNil() bool {
 }
 
 func (s StandaloneCallBuilder) AsFunction() Expression {
-	return FunctionInvocationCreate(FunctionDefinitionDefault{s.procedureName.getQualifiedName()}, s.arguments...)
+	if s.err != nil {
+		return FunctionInvocationError(s.err)
+	}
+	if s.procedureName.GetError() != nil {
+		return FunctionInvocationError(s.procedureName.GetError())
+	}
+	return FunctionInvocationCreateWithFunctionName(s.procedureName.getQualifiedName(), s.arguments...)
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
-- 
2.43.0


From 2241b19f0dd1c3681a0abc80fd03f3c62c84bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:19 +0000
Subject: [PATCH 10/52] fix: return the errors of RETURN, WITH and list
 expressions instead of dropping them

---
 list_expression.go  |  2 +-
 multi_part_query.go |  5 ++++-
 return_body.go      |  8 ++++----
 with.go             | 10 +++++-----
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/list_expression.go b/list_expression.go
index 9cd5d54..3d271ef 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -35,7 +35,7 @@ func ListExpressionError(err error) ListExpression {
 
 func ListOrSingleExpression(expressions ...Expression) Expression {
 	if expressions == nil || len(expressions) == 0 {
-		ListExpressionError(errors.New("expressions are required"))
+		return ListExpressionError(errors.New("expressions are required"))
 	}
 	if len(expressions) == 1 {
 		return expressions[0]
diff --git a/multi_part_query.go b/multi_part_query.go
index c04645d..ce6b4b6 100644
--- a/multi_part_query.go
+++ b/multi_part_query.go
@@ -20,13 +20,16 @@ func MultiPartQueryCreate(parts []MultiPartElement, remainder SinglePartQuery) M
 	m := MultiPartQuery{
 		parts:     parts,
 		remainder: remainder,
+		notNil:    true,
 	}
 	m.key = getAddress(&m)
 	return m
 }
 
 func MultiPartQueryError(err error) MultiPartQuery {
-	return MultiPartQueryError(err)
+	return MultiPartQuery{
+		err: err,
+	}
 }
 
 func (m MultiPartQuery) GetError() error {
diff --git a/return_body.go b/return_body.go
index 0cd30ff..e8d89fa 100644
--- a/return_body.go
+++ b/return_body.go
@@ -12,16 +12,16 @@ type ReturnBody struct {
 
 func ReturnBodyCreate(returnItems ExpressionList, order Order, skip Skip, limit Limit) ReturnBody {
 	if returnItems.GetError() != nil {
-		ReturnBodyError(returnItems.GetError())
+		return ReturnBodyError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		ReturnBodyError(order.GetError())
+		return ReturnBodyError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		ReturnBodyError(skip.GetError())
+		return ReturnBodyError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		ReturnBodyError(limit.GetError())
+		return ReturnBodyError(limit.GetError())
 	}
 	r := ReturnBody{
 		returnItems: returnItems,
diff --git a/with.go b/with.go
index e321cf8..d9680b2 100644
--- a/with.go
+++ b/with.go
@@ -11,19 +11,19 @@ type with struct {
 
 func withCreate(distinct bool, returnItems ExpressionList, order Order, skip Skip, limit Limit, where Where) with {
 	if returnItems.GetError() != nil {
-		withError(returnItems.GetError())
+		return withError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		withError(order.GetError())
+		return withError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		withError(skip.GetError())
+		return withError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		withError(limit.GetError())
+		return withError(limit.GetError())
 	}
 	if where.GetError() != nil {
-		withError(where.GetError())
+		return withError(where.GetError())
 	}
 	distinctInstance := Distinct{}
 	if distinct {
-- 
2.43.0


From 2c4e786264cb6c04d1097130b1f1f86714b27d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:22 +0000
Subject: [PATCH 11/52] fix: endless recursion when a string literal carries an
 error

---
 raw_string_literal.go | 6 +++++-
 string_literal.go     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/raw_string_literal.go b/raw_string_literal.go
index 682fad6..bfc20a1 100644
--- a/raw_string_literal.go
+++ b/raw_string_literal.go
@@ -19,7 +19,11 @@ func RawStringLiteralCreate(content string) RawStringLiteral {
 }
 
 func RawStringLiteralError(err error) RawStringLiteral {
-	return RawStringLiteralError(err)
+	rawStringLiteral := RawStringLiteral{
+		err: err,
+	}
+	rawStringLiteral.ExpressionContainer = ExpressionWrap(rawStringLiteral)
+	return rawStringLiteral
 }
 
 func (s RawStringLiteral) GetError() error {
diff --git a/string_literal.go b/string_literal.go
index 1322ef6..4914166 100644
--- a/string_literal.go
+++ b/string_literal.go
@@ -32,7 +32,11 @@ func StringLiteralCreate(content string) StringLiteral {
 }
 
 func StringLiteralError(err error) StringLiteral {
-	return StringLiteralError(err)
+	stringLiteral := StringLiteral{
+		err: err,
+	}
+	stringLiteral.ExpressionContainer = ExpressionWrap(stringLiteral)
+	return stringLiteral
 }
 
 func (s StringLiteral) GetError() error {
-- 
2.43.0


From f241ded467010364d76e6fabd412df4f852ac74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:46 +0000
Subject: [PATCH 12/52] fix: render number literals with all their digits and
 keep floats apart from integers

---
 number_literal.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/number_literal.go b/number_literal.go
index 1cb365d..6673f53 100644
--- a/number_literal.go
+++ b/number_literal.go
@@ -1,12 +1,17 @@
 package cypher
 
 import (
+	"errors"
+	"math"
 	"math/big"
+	"strconv"
+	"strings"
 )
 
 type NumberLiteral struct {
 	ExpressionContainer
 	content *big.Float
+	isFloat bool
 	key     string
 	notNil  bool
 	err     error
@@ -23,8 +28,12 @@ func NumberLiteralCreate(content int64) NumberLiteral {
 }
 
 func NumberLiteralCreate2(content float64) NumberLiteral {
+	if math.IsNaN(content) || math.IsInf(content, 0) {
+		return NumberLiteralError(errors.New("number literal: the number must be finite"))
+	}
 	n := NumberLiteral{
 		content: big.NewFloat(content),
+		isFloat: true,
 		notNil:  true,
 	}
 	n.key = getAddress(&n)
@@ -42,6 +51,14 @@ func NumberLiteralCreate1(content int) NumberLiteral {
 	return n
 }
 
+func NumberLiteralError(err error) NumberLiteral {
+	n := NumberLiteral{
+		err: err,
+	}
+	n.ExpressionContainer = ExpressionWrap(n)
+	return n
+}
+
 func (n NumberLiteral) GetError() error {
 	return n.err
 }
@@ -63,7 +80,15 @@ func (n NumberLiteral) GetContent() interface{} {
 }
 
 func (n NumberLiteral) AsString() string {
-	return n.content.String()
+	if !n.isFloat {
+		return n.content.Text('f', 0)
+	}
+	value, _ := n.content.Float64()
+	text := strings.Replace(strconv.FormatFloat(value, 'g', -1, 64), "+", "", 1)
+	if !strings.ContainsAny(text, ".e") {
+		text += ".0"
+	}
+	return text
 }
 
 func (n NumberLiteral) accept(visitor *CypherRenderer) {
-- 
2.43.0


From d2f532db784a0cafdca5a988dda42c1d44fab230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 13/52] fix: sort items without a direction do not panic

---
 cypher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cypher.go b/cypher.go
index c0db9e3..1fa39ec 100644
--- a/cypher.go
+++ b/cypher.go
@@ -314,9 +314,9 @@ func SortItemsOfRaw(elements ...string) []SortItem {
 		sortElements := strings.Split(element, " ")
 		literal := LiteralOf(sortElements[0])
 		direction := UNDEFINED
-		if sortElements[1] == "ASC" {
+		if len(sortElements) > 1 && sortElements[1] == "ASC" {
 			direction = ASC
-		}else if sortElements[1] == "DESC" {
+		} else if len(sortElements) > 1 && sortElements[1] == "DESC" {
 			direction = DESC
 		}
 		sortItems[index] = SortItemCreate(literal, direction)
-- 
2.43.0


From 7e6513a213594ff2c665776d9099b6541bd80d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 14/52] fix: list literals can be chained and report their
 errors

---
 list_literal.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/list_literal.go b/list_literal.go
index 7ada298..6303a08 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -1,6 +1,9 @@
 package cypher
 
-import "strings"
+import (
+	"errors"
+	"strings"
+)
 
 type ListLiteral struct {
 	ExpressionContainer
@@ -12,23 +15,28 @@ type ListLiteral struct {
 
 func ListLiteralCreate(contents []Literal) ListLiteral {
 	for _, content := range contents {
-		if content != nil && content.GetError() != nil {
+		if content == nil {
+			return ListLiteralError(errors.New("list literal: the elements must be not nil"))
+		}
+		if content.GetError() != nil {
 			return ListLiteralError(content.GetError())
 		}
 	}
 	list := ListLiteral{
 		content: contents,
+		notNil:  true,
 	}
 	list.key = getAddress(&list)
 	list.ExpressionContainer = ExpressionWrap(list)
-	list.notNil = true
 	return list
 }
 
 func ListLiteralError(err error) ListLiteral {
-	return ListLiteral{
+	list := ListLiteral{
 		err: err,
 	}
+	list.ExpressionContainer = ExpressionWrap(list)
+	return list
 }
 
 func (l ListLiteral) GetError() error {
-- 
2.43.0


From af3f73c8c4f26a6aa95856ba1896d26e7058fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:28 +0000
Subject: [PATCH 15/52] fix: a relationship with only empty types has no types

---
 relationship.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/relationship.go b/relationship.go
index 327a29c..b0392d1 100644
--- a/relationship.go
+++ b/relationship.go
@@ -21,8 +21,14 @@ func RelationshipCreate(left Node, direction Direction, right Node, types ...str
 	relationshipTypes := RelationshipTypes{}
 	if len(types) > 0 {
 		typeSlice := make([]string, 0)
-		typeSlice = append(typeSlice, types...)
-		relationshipTypes = RelationshipTypesCreate(typeSlice)
+		for _, relationshipType := range types {
+			if relationshipType != "" {
+				typeSlice = append(typeSlice, relationshipType)
+			}
+		}
+		if len(typeSlice) > 0 {
+			relationshipTypes = RelationshipTypesCreate(typeSlice)
+		}
 	}
 	details := RelationshipDetailsCreate1(direction, relationshipTypes)
 	return RelationshipCreate3(left, details, right)
-- 
2.43.0


From 1a00e06674e71a89ac08ac458d6166b081a99ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:46 +0000
Subject: [PATCH 16/52] fix: relationship chains do not share their
 relationships and keep the errors of the relationships

---
 relationship.go         | 12 +++++-
 relationship_chain.go   | 85 ++++++++++++++++++++++++-----------------
 relationship_details.go | 19 ++++++++-
 3 files changed, 79 insertions(+), 37 deletions(-)

diff --git a/relationship.go b/relationship.go
index b0392d1..802c55f 100644
--- a/relationship.go
+++ b/relationship.go
@@ -56,7 +56,8 @@ func RelationshipCreate3(left Node, details RelationshipDetails, right Node) Rel
 
 func RelationshipError(err error) Relationship {
 	return Relationship{
-		err: err,
+		details: RelationshipDetailsError(err),
+		err:     err,
 	}
 }
 
@@ -69,6 +70,9 @@ func (r Relationship) isNotNil() bool {
 }
 
 func (r Relationship) GetRequiredSymbolicName() SymbolicName {
+	if r.GetError() != nil {
+		return SymbolicNameError(r.GetError())
+	}
 	if r.details.symbolicName.isNotNil() {
 		return r.details.symbolicName
 	}
@@ -157,6 +161,12 @@ func (r Relationship) WithRawProperties(keysAndValues ...interface{}) Relationsh
 }
 
 func (r Relationship) WithProperties(newProperties MapExpression) Relationship {
+	if r.GetError() != nil {
+		return r
+	}
+	if newProperties.GetError() != nil {
+		return RelationshipError(newProperties.GetError())
+	}
 	if !newProperties.isNotNil() && !r.details.properties.isNotNil() {
 		return r
 	}
diff --git a/relationship_chain.go b/relationship_chain.go
index 6cb37c9..6aa4c6b 100644
--- a/relationship_chain.go
+++ b/relationship_chain.go
@@ -10,15 +10,47 @@ type RelationshipChain struct {
 }
 
 func RelationshipChainCreate(relationship Relationship) RelationshipChain {
-	relations := make([]Relationship, 1)
-	relations[0] = relationship
-	return RelationshipChain{relationships: relations, notNil: true}
+	return relationshipChainOf([]Relationship{relationship})
 }
 
 func RelationshipChainError(msg string) RelationshipChain {
 	return RelationshipChain{err: errors.New(msg)}
 }
 
+func relationshipChainOf(relationships []Relationship) RelationshipChain {
+	for _, relationship := range relationships {
+		if relationship.GetError() != nil {
+			return RelationshipChain{err: relationship.GetError()}
+		}
+	}
+	r := RelationshipChain{relationships: relationships, notNil: true}
+	r.key = getAddress(&r)
+	return r
+}
+
+func (r RelationshipChain) last() Relationship {
+	if r.err != nil {
+		return RelationshipError(r.err)
+	}
+	if len(r.relationships) == 0 {
+		return RelationshipError(errors.New("the relationship chain is empty"))
+	}
+	return r.relationships[len(r.relationships)-1]
+}
+
+// replaceLast returns a new chain, the relationships of a chain may be shared by several chains.
+func (r RelationshipChain) replaceLast(relationship Relationship) RelationshipChain {
+	if r.err != nil {
+		return r
+	}
+	if relationship.GetError() != nil {
+		return RelationshipChain{err: relationship.GetError()}
+	}
+	relationships := append([]Relationship{}, r.relationships...)
+	relationships[len(relationships)-1] = relationship
+	return relationshipChainOf(relationships)
+}
+
 func (r RelationshipChain) GetError() error {
 	return r.err
 }
@@ -32,21 +64,15 @@ func (r RelationshipChain) getKey() string {
 }
 
 func (r RelationshipChain) RelationshipTo(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipTo(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.Add(r.last().right.RelationshipTo(node, types...))
 }
 
 func (r RelationshipChain) RelationshipFrom(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipFrom(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.Add(r.last().right.RelationshipFrom(node, types...))
 }
 
 func (r RelationshipChain) RelationshipBetween(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipBetween(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.Add(r.last().right.RelationshipBetween(node, types...))
 }
 
 func (r RelationshipChain) Named(name string) Relationship {
@@ -54,45 +80,31 @@ func (r RelationshipChain) Named(name string) Relationship {
 }
 
 func (r RelationshipChain) NamedC(name string) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Named(name)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Named(name))
 }
 
 func (r RelationshipChain) Unbounded() RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Unbounded()
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Unbounded())
 }
 
 func (r RelationshipChain) Min(minimum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Min(minimum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Min(minimum))
 }
 
 func (r RelationshipChain) Length(minimum int, maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Length(minimum, maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Length(minimum, maximum))
 }
 
 func (r RelationshipChain) Max(maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Max(maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().Max(maximum))
 }
 
 func (r RelationshipChain) Properties(newProperties MapExpression) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithProperties(newProperties)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().WithProperties(newProperties))
 }
 
 func (r RelationshipChain) PropertiesRaw(keysAndValues ...interface{}) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithRawProperties(keysAndValues...)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(r.last().WithRawProperties(keysAndValues...))
 }
 
 func (r RelationshipChain) accept(visitor *CypherRenderer) {
@@ -114,8 +126,11 @@ func (r RelationshipChain) leave(renderer *CypherRenderer) {
 }
 
 func (r RelationshipChain) Add(relationship Relationship) RelationshipChain {
-	r.relationships = append(r.relationships, relationship)
-	return r
+	if r.err != nil {
+		return r
+	}
+	relationships := append([]Relationship{}, r.relationships...)
+	return relationshipChainOf(append(relationships, relationship))
 }
 
 func (r RelationshipChain) IsPatternElement() bool {
diff --git a/relationship_details.go b/relationship_details.go
index 622e5f7..f0f99f4 100644
--- a/relationship_details.go
+++ b/relationship_details.go
@@ -57,7 +57,7 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 	if properties.GetError() != nil {
 		return RelationshipDetailsError(properties.GetError())
 	}
-	return RelationshipDetails{
+	r := RelationshipDetails{
 		direction:    direction,
 		symbolicName: symbolicName,
 		types:        types,
@@ -65,6 +65,8 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 		properties:   properties,
 		notNil:       true,
 	}
+	r.key = getAddress(&r)
+	return r
 }
 
 func RelationshipDetailsError(err error) RelationshipDetails {
@@ -88,6 +90,9 @@ func (r RelationshipDetails) getKey() string {
 }
 
 func (r RelationshipDetails) namedByString(newNamed string) RelationshipDetails {
+	if r.GetError() != nil {
+		return r
+	}
 	if newNamed == "" {
 		return RelationshipDetailsError(errors.New("symbolic name is required"))
 	}
@@ -102,14 +107,23 @@ func (r RelationshipDetails) named(newSymbolicName SymbolicName) RelationshipDet
 }
 
 func (r RelationshipDetails) with(newProperties Properties) RelationshipDetails {
+	if r.GetError() != nil {
+		return r
+	}
 	return RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, r.length, newProperties)
 }
 
 func (r RelationshipDetails) unbounded() RelationshipDetails {
+	if r.GetError() != nil {
+		return r
+	}
 	return RelationshipDetailsCreate(r.direction, r.symbolicName, r.types, RelationshipLengthCreate(true), r.properties)
 }
 
 func (r RelationshipDetails) min(minimum int) RelationshipDetails {
+	if r.GetError() != nil {
+		return r
+	}
 	newLength := RelationshipLengthCreate1(&minimum, nil)
 	if r.length.isNotNil() {
 		newLength = RelationshipLengthCreate1(&minimum, r.length.maximum)
@@ -118,6 +132,9 @@ func (r RelationshipDetails) min(minimum int) RelationshipDetails {
 }
 
 func (r RelationshipDetails) max(maximum int) RelationshipDetails {
+	if r.GetError() != nil {
+		return r
+	}
 	newLength := RelationshipLengthCreate1(nil, &maximum)
 	if r.length.isNotNil() {
 		newLength = RelationshipLengthCreate1(r.length.minimum, &maximum)
-- 
2.43.0


From a13eb7e6b48debbf306f004f401d502f0c54a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:49 +0000
Subject: [PATCH 17/52] fix: report the errors of named paths

---
 name_path.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/name_path.go b/name_path.go
index ed0148d..925fbf6 100644
--- a/name_path.go
+++ b/name_path.go
@@ -14,7 +14,10 @@ func NamedPathCreate(name SymbolicName, pattern RelationshipPattern) NamedPath {
 	if name.GetError() != nil {
 		return NamedPathError(name.GetError())
 	}
-	if pattern != nil && pattern.GetError() != nil {
+	if pattern == nil {
+		return NamedPathError(errors.New("the pattern of a path is required"))
+	}
+	if pattern.GetError() != nil {
 		return NamedPathError(pattern.GetError())
 	}
 	n := NamedPath{name: name, pattern: pattern, notNil: true}
@@ -82,6 +85,9 @@ func (n NamedPath) GetError() error {
 }
 
 func (n NamedPath) GetRequiredSymbolicName() SymbolicName {
+	if n.GetError() != nil {
+		return SymbolicNameError(n.GetError())
+	}
 	if n.name.isNotNil() {
 		return n.name
 	}
@@ -139,6 +145,9 @@ func NamedPathBuilderCreate(name SymbolicName) NamedPathBuilder {
 }
 
 func (n NamedPathBuilder) DefinedBy(pattern RelationshipPattern) NamedPath {
+	if n.err != nil {
+		return NamedPathError(n.err)
+	}
 	return NamedPathCreate(n.name, pattern)
 }
 
-- 
2.43.0


From b9483ba9e1a9c3258c0045f51e20a56168f0488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 18/52] fix: a renderer can be used more than once and
 concurrently

---
 cypher_renderer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index 1ce7e0b..9c8c7ca 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -46,8 +46,11 @@ func (renderer CypherRenderer) Render(statement Statement) (string, error) {
 	if statement.GetError() != nil {
 		return "", statement.GetError()
 	}
-	statement.accept(&renderer)
-	return strings.TrimSpace(renderer.builder.String()), nil
+	// Every rendering starts with a state of its own, so that the renderer can be used again and by several goroutines.
+	fresh := NewRenderer()
+	fresh.guid = renderer.guid
+	statement.accept(fresh)
+	return strings.TrimSpace(fresh.builder.String()), nil
 }
 
 func (renderer *CypherRenderer) enableSeparator(level int, on bool) {
-- 
2.43.0


From 2d26c049272b45e11c23218b6d66e98b1aab9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 19/52] fix: report the errors of WHERE conditions and chain
 onto a missing condition

---
 condition_builder.go                   | 27 ++++++++++++++++++++++++--
 default_statement_with_with_builder.go |  3 +++
 match_builder.go                       |  5 ++++-
 procedure_call.go                      |  3 +++
 4 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/condition_builder.go b/condition_builder.go
index 764c75d..e10962a 100644
--- a/condition_builder.go
+++ b/condition_builder.go
@@ -1,7 +1,10 @@
 package cypher
 
+import "errors"
+
 type ConditionBuilder struct {
 	condition Condition
+	err       error
 }
 
 func ConditionBuilderCreate() ConditionBuilder {
@@ -9,15 +12,35 @@ func ConditionBuilderCreate() ConditionBuilder {
 }
 
 func (c *ConditionBuilder) Where(newCondition Condition) {
+	if newCondition != nil && newCondition.GetError() != nil {
+		c.err = newCondition.GetError()
+		return
+	}
 	c.condition = newCondition
 }
 
 func (c *ConditionBuilder) And(additionalCondition Condition) {
-	c.condition = c.condition.And(additionalCondition).Get()
+	c.chain(additionalCondition, func() ConditionContainer { return c.condition.And(additionalCondition) })
 }
 
 func (c *ConditionBuilder) Or(additionalCondition Condition) {
-	c.condition = c.condition.Or(additionalCondition).Get()
+	c.chain(additionalCondition, func() ConditionContainer { return c.condition.Or(additionalCondition) })
+}
+
+// chain combines the current condition with an additional one, which is the only one when there is none so far.
+func (c *ConditionBuilder) chain(additionalCondition Condition, combine func() ConditionContainer) {
+	if c.err != nil {
+		return
+	}
+	if additionalCondition == nil {
+		c.err = errors.New("condition to chain is required")
+		return
+	}
+	if !c.hasCondition() {
+		c.Where(additionalCondition)
+		return
+	}
+	c.Where(combine().Get())
 }
 
 func (c *ConditionBuilder) hasCondition() bool {
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index af51013..135a743 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -28,6 +28,9 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 		return with{}
 	}
 	returnItems := ExpressionListCreate(d.returnList)
+	if d.conditionBuilder.err != nil {
+		return withError(d.conditionBuilder.err)
+	}
 	condition := d.conditionBuilder.buildCondition()
 	var where Where
 	if condition == nil || !condition.isNotNil() {
diff --git a/match_builder.go b/match_builder.go
index 889d50e..721fbbe 100644
--- a/match_builder.go
+++ b/match_builder.go
@@ -16,8 +16,11 @@ func MatchBuilderCreate(optional bool) MatchBuilder {
 }
 
 func (builder MatchBuilder) buildMatch() MatchPhrase {
-	pattern := Pattern{patternElements: builder.patternList}
+	pattern := PatternCreate(builder.patternList)
 	conditionBuilder := builder.conditionBuilder
+	if conditionBuilder.err != nil {
+		return matchError(conditionBuilder.err)
+	}
 	builtCondition := conditionBuilder.buildCondition()
 	if builtCondition == nil || !builtCondition.isNotNil() {
 		return MatchPhraseCreate(builder.optional, pattern, Where{})
diff --git a/procedure_call.go b/procedure_call.go
index 6970c02..aeec37e 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -209,6 +209,9 @@ func (s StandaloneCallBuilder) Build() (Statement, error) {
 	if argumentsList.GetError() != nil {
 		return nil, argumentsList.GetError()
 	}
+	if s.conditionBuilder.err != nil {
+		return nil, s.conditionBuilder.err
+	}
 	condition := s.conditionBuilder.buildCondition()
 	if condition != nil && condition.isNotNil() {
 		if condition.GetError() != nil {
-- 
2.43.0


From e4d8a42a7029ae60447364bd5bfeac421649def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:48 +0000
Subject: [PATCH 20/52] fix: conditions of a CALL go to the CALL, conditions
 without MATCH or CALL are reported

---
 default_statement_builder.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 44fda57..7d1d81e 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -42,8 +42,30 @@ func (d DefaultStatementBuilder) Where(condition Condition) OngoingReadingWithWh
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
-	d.currentOngoingMatch.conditionBuilder.Where(condition)
-	return d
+	return d.withCondition(func(conditions *ConditionBuilder) { conditions.Where(condition) })
+}
+
+// withCondition changes the conditions of the ongoing MATCH or CALL.
+func (d DefaultStatementBuilder) withCondition(change func(conditions *ConditionBuilder)) DefaultStatementBuilder {
+	if d.currentOngoingMatch.notNil {
+		change(&d.currentOngoingMatch.conditionBuilder)
+		return d
+	}
+	switch call := d.currentOngoingCall.(type) {
+	case InQueryCallBuilder:
+		if call.isNotNil() {
+			change(&call.conditionBuilder)
+			d.currentOngoingCall = call
+			return d
+		}
+	case StandaloneCallBuilder:
+		if call.isNotNil() {
+			change(&call.conditionBuilder)
+			d.currentOngoingCall = call
+			return d
+		}
+	}
+	return DefaultStatementBuilderError(errors.New("there is no MATCH or CALL the condition can be applied to"))
 }
 
 func (d DefaultStatementBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -394,8 +416,7 @@ func (d DefaultStatementBuilder) And(condition Condition) OngoingReadingWithWher
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	d.currentOngoingMatch.conditionBuilder.And(condition)
-	return d
+	return d.withCondition(func(conditions *ConditionBuilder) { conditions.And(condition) })
 }
 
 func (d DefaultStatementBuilder) AndPattern(pattern RelationshipPattern) OngoingReadingWithWhere {
@@ -415,8 +436,7 @@ func (d DefaultStatementBuilder) Or(condition Condition) OngoingReadingWithWhere
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
-	d.currentOngoingMatch.conditionBuilder.Or(condition)
-	return d
+	return d.withCondition(func(conditions *ConditionBuilder) { conditions.Or(condition) })
 }
 
 func (d DefaultStatementBuilder) OrPattern(pattern RelationshipPattern) OngoingReadingWithWhere {
-- 
2.43.0


From e391351b567f8f55704364e5cf9f3feaf9f100bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 21/52] fix: UNWIND reports its errors and does not change the
 builder it started from

---
 default_ongoing_unwind.go    | 13 +++++++--
 default_statement_builder.go | 52 +++++++++++++++++++++++-------------
 unwind.go                    |  5 ++++
 3 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/default_ongoing_unwind.go b/default_ongoing_unwind.go
index 23f30e1..56298cb 100644
--- a/default_ongoing_unwind.go
+++ b/default_ongoing_unwind.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type DefaultOngoingUnwind struct {
 	defaultBuilder     *DefaultStatementBuilder
 	expressionToUnwind Expression
@@ -22,6 +24,13 @@ func (d DefaultOngoingUnwind) GetError() error {
 }
 
 func (d DefaultOngoingUnwind) As(variable string) OngoingReading {
-	d.defaultBuilder.currentSinglePartElements = append(d.defaultBuilder.currentSinglePartElements, unwindCreate(d.expressionToUnwind, variable))
-	return d.defaultBuilder
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	if variable == "" {
+		return DefaultStatementBuilderError(errors.New("the variable of unwind is required"))
+	}
+	builder := *d.defaultBuilder
+	builder.addSinglePartElement(unwindCreate(d.expressionToUnwind, variable))
+	return builder
 }
diff --git a/default_statement_builder.go b/default_statement_builder.go
index 7d1d81e..91ca23a 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -80,7 +80,8 @@ func (d DefaultStatementBuilder) AddWith(with with) DefaultStatementBuilder {
 		return DefaultStatementBuilderError(with.GetError())
 	}
 	if with.isNotNil() {
-		d.multipartElements = append(d.multipartElements, MultiPartElementCreate(d.BuildListOfVisitable(true), with))
+		length := len(d.multipartElements)
+		d.multipartElements = append(d.multipartElements[:length:length], MultiPartElementCreate(d.BuildListOfVisitable(true), with))
 	}
 	return d
 }
@@ -289,7 +290,7 @@ func (d DefaultStatementBuilder) Set(expressions ...Expression) BuildableStateme
 			return DefaultStatementBuilderError(expression.GetError())
 		}
 	}
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentOngoing()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_SET, expressions...)
 }
 
@@ -313,6 +314,7 @@ func (d DefaultStatementBuilder) SetByNode(node Node, labels ...string) Buildabl
 	if node.GetError() != nil {
 		return DefaultStatementBuilderError(node.GetError())
 	}
+	d.closeCurrentOngoing()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
 }
 
@@ -323,6 +325,7 @@ func (d DefaultStatementBuilder) RemoveByNode(node Node, labels ...string) Build
 	if node.GetError() != nil {
 		return DefaultStatementBuilderError(node.GetError())
 	}
+	d.closeCurrentOngoing()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_REMOVE, OperationRemove(node, labels...))
 }
 
@@ -339,6 +342,7 @@ func (d DefaultStatementBuilder) Remove(properties ...Property) BuildableStateme
 	for i := range properties {
 		expressions[i] = properties[i]
 	}
+	d.closeCurrentOngoing()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_REMOVE, expressions...)
 }
 
@@ -368,7 +372,7 @@ func (d DefaultStatementBuilder) Unwind(expression Expression) OngoingUnwind {
 	if expression != nil && expression.GetError() != nil {
 		return DefaultOngoingUnwindError(expression.GetError())
 	}
-	d.CloseCurrentOngoingMatch()
+	d.closeCurrentOngoing()
 	return DefaultOngoingUnwindCreate(&d, expression)
 }
 
@@ -382,15 +386,16 @@ func (d DefaultStatementBuilder) Call(statement Statement) OngoingReadingWithout
 	if d.err != nil {
 		return d
 	}
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentOngoing()
+	if d.err != nil {
+		return d
+	}
 	singlePart := SubqueryCall(statement)
 	if singlePart.GetError() != nil {
 		d.err = singlePart.GetError()
 		return d
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, singlePart)
+	d.addSinglePartElement(singlePart)
 	return d
 }
 
@@ -398,8 +403,7 @@ func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingI
 	if d.err != nil {
 		return InQueryCallBuilder{err: d.err}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeCurrentOngoing()
 	inQueryCallBuilder := InQueryCallBuilderCreate(&d, ProcedureNameCreate(namespaceAndProcedure...))
 	d.currentOngoingCall = inQueryCallBuilder
 	return inQueryCallBuilder
@@ -513,18 +517,30 @@ func (d DefaultStatementBuilder) MatchDefault(optional bool, patterns ...Pattern
 			return DefaultStatementBuilderError(pattern.GetError())
 		}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeCurrentOngoing()
 	d.currentOngoingMatch = MatchBuilderCreate(optional)
 	d.currentOngoingMatch.patternList = append(d.currentOngoingMatch.patternList, patterns...)
 	return d
 }
 
+// closeCurrentOngoing closes whatever clause is ongoing, so that the next one comes after it.
+func (d *DefaultStatementBuilder) closeCurrentOngoing() {
+	d.CloseCurrentOngoingMatch()
+	d.CloseCurrentOngoingCall()
+	d.CloseCurrentOngoingUpdate()
+}
+
+// addSinglePartElement adds the element to a copy of the list, which may be shared with other builders.
+func (d *DefaultStatementBuilder) addSinglePartElement(element Visitable) {
+	length := len(d.currentSinglePartElements)
+	d.currentSinglePartElements = append(d.currentSinglePartElements[:length:length], element)
+}
+
 func (d *DefaultStatementBuilder) CloseCurrentOngoingMatch() {
 	if !d.currentOngoingMatch.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingMatch.buildMatch())
+	d.addSinglePartElement(d.currentOngoingMatch.buildMatch())
 	d.currentOngoingMatch = MatchBuilder{}
 }
 
@@ -537,7 +553,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingCall() {
 		d.err = err
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, builtCall)
+	d.addSinglePartElement(builtCall)
 	d.currentOngoingCall = InQueryCallBuilder{}
 }
 
@@ -545,7 +561,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingUpdate() {
 	if !d.currentOngoingUpdate.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingUpdate.builder.build())
+	d.addSinglePartElement(d.currentOngoingUpdate.builder.build())
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilder{}
 }
 
@@ -616,15 +632,13 @@ func (d *DefaultStatementBuilder) BuildListOfVisitable(clearAfter bool) []Visita
 }
 
 func (d *DefaultStatementBuilder) addUpdatingClause(clause UpdatingClause) DefaultStatementBuilder {
-	d.CloseCurrentOngoingMatch()
-	d.currentSinglePartElements = append(d.currentSinglePartElements, clause)
+	d.closeCurrentOngoing()
+	d.addSinglePartElement(clause)
 	return *d
 }
 
 func (d *DefaultStatementBuilder) Update(updateType UpdateType, pattern []Visitable) DefaultStatementBuilder {
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentOngoing()
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilderCreate1(d, updateType, pattern)
 	return *d
 }
diff --git a/unwind.go b/unwind.go
index e692313..0270eeb 100644
--- a/unwind.go
+++ b/unwind.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type UnwindPhrase struct {
 	expressionToUnwind Expression
 	variable           string
@@ -12,6 +14,9 @@ func unwindCreate(expressionToUnwind Expression, variable string) UnwindPhrase {
 	if expressionToUnwind != nil && expressionToUnwind.GetError() != nil {
 		return unwindError(expressionToUnwind.GetError())
 	}
+	if expressionToUnwind == nil || !expressionToUnwind.isNotNil() {
+		return unwindError(errors.New("the expression to unwind is required"))
+	}
 	var expression Expression
 	if aliased, isAliased := expressionToUnwind.(Aliased); isAliased {
 		expression = aliased.AsName()
-- 
2.43.0


From e8318f7c66e62f6f2477869983480f808a939ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:54 +0000
Subject: [PATCH 22/52] fix: CREATE keeps all its patterns, updating clauses
 report missing patterns and expressions

---
 default_statement_builder.go | 59 ++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 91ca23a..af1eb81 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -304,7 +304,10 @@ func (d DefaultStatementBuilder) SetWithNamed(variable Named, expression Express
 	if expression != nil && expression.GetError() != nil {
 		return DefaultStatementBuilderError(expression.GetError())
 	}
-	return d.Set(variable.GetSymbolicName(), expression)
+	if variable == nil {
+		return DefaultStatementBuilderError(errors.New("the variable to set is required"))
+	}
+	return d.Set(variable.GetRequiredSymbolicName(), expression)
 }
 
 func (d DefaultStatementBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
@@ -598,7 +601,11 @@ func (d DefaultStatementBuilder) Build() (Statement, error) {
 }
 
 func (d DefaultStatementBuilder) BuildImpl(clearCurrentBuildSteps bool, returning Return) Statement {
-	singlePartQuery := SinglePartQueryCreate(d.BuildListOfVisitable(clearCurrentBuildSteps), returning)
+	visitables := d.BuildListOfVisitable(clearCurrentBuildSteps)
+	if d.err != nil {
+		return SinglePartQueryError(d.err)
+	}
+	singlePartQuery := SinglePartQueryCreate(visitables, returning)
 	if len(d.multipartElements) == 0 {
 		return singlePartQuery
 	}
@@ -640,6 +647,9 @@ func (d *DefaultStatementBuilder) addUpdatingClause(clause UpdatingClause) Defau
 func (d *DefaultStatementBuilder) Update(updateType UpdateType, pattern []Visitable) DefaultStatementBuilder {
 	d.closeCurrentOngoing()
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilderCreate1(d, updateType, pattern)
+	if d.currentOngoingUpdate.err != nil && d.err == nil {
+		d.err = d.currentOngoingUpdate.err
+	}
 	return *d
 }
 
@@ -648,17 +658,33 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 	if mergeOrCreate {
 		patternElements := make([]PatternElement, 0)
 		for _, visitable := range patternOrExpression {
-			patternElements := append(patternElements, visitable.(PatternElement))
-			if updateType == UPDATE_TYPE_CREATE {
-				return CreateBuilderCreate(patternElements), nil
-			} else {
-				return MergeBuilderCreate(patternElements), nil
+			patternElement, isPatternElement := visitable.(PatternElement)
+			if !isPatternElement {
+				return nil, xerrors.Errorf("%s requires pattern elements", updateType)
 			}
+			patternElements = append(patternElements, patternElement)
+		}
+		if len(patternElements) == 0 {
+			return nil, xerrors.Errorf("%s requires a pattern", updateType)
 		}
+		if updateType == UPDATE_TYPE_CREATE {
+			return CreateBuilderCreate(patternElements), nil
+		}
+		if len(patternElements) > 1 {
+			return nil, xerrors.New("merge takes exactly one pattern")
+		}
+		return MergeBuilderCreate(patternElements), nil
 	} else {
 		expressions := make([]Expression, 0)
 		for _, visitable := range patternOrExpression {
-			expressions = append(expressions, visitable.(Expression))
+			expression, isExpression := visitable.(Expression)
+			if !isExpression {
+				return nil, xerrors.Errorf("%s requires expressions", updateType)
+			}
+			expressions = append(expressions, expression)
+		}
+		if len(expressions) == 0 {
+			return nil, xerrors.Errorf("%s requires an expression", updateType)
 		}
 		var expressionList ExpressionList
 		if updateType == UPDATE_TYPE_SET {
@@ -683,8 +709,6 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 			return RemoveBuilder{}, xerrors.Errorf("unsupported update type %s", updateType)
 		}
 	}
-	//Just return to make compiler happy
-	return RemoveBuilder{}, xerrors.Errorf("unexpected behavior")
 }
 
 func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, error) {
@@ -742,15 +766,15 @@ func (o OngoingMergeActionInBuilder) Set(expressions ...Expression) OngoingMatch
 			return DefaultStatementBuilderError(expression.GetError())
 		}
 	}
-	support := o.defaultBuilder.currentOngoingUpdate.builder.(SupportsActionsOnTheUpdatingClause)
+	builder := *o.defaultBuilder
+	support := builder.currentOngoingUpdate.builder.(SupportsActionsOnTheUpdatingClause)
 	newSupport, err := support.on(o.mergeType, expressions...)
 	newMergeBuilder, _ := newSupport.(MergeBuilder)
 	if err != nil {
-		o.defaultBuilder.err = err
-		return o.defaultBuilder
+		return DefaultStatementBuilderError(err)
 	}
-	o.defaultBuilder.currentOngoingUpdate.builder = newMergeBuilder
-	return o.defaultBuilder
+	builder.currentOngoingUpdate.builder = newMergeBuilder
+	return builder
 }
 
 func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Expression) OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction {
@@ -763,5 +787,8 @@ func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Exp
 	if expression != nil && expression.GetError() != nil {
 		return DefaultStatementBuilderError(expression.GetError())
 	}
-	return o.Set(variable.GetSymbolicName(), expression)
+	if variable == nil {
+		return DefaultStatementBuilderError(errors.New("the variable to set is required"))
+	}
+	return o.Set(variable.GetRequiredSymbolicName(), expression)
 }
-- 
2.43.0


From dd874d90e846ad6382de3e27ef4a7c77a9e8cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:24 +0000
Subject: [PATCH 23/52] fix: an update does not change the builder it started
 from, keeps RETURN DISTINCT items and REMOVE labels

---
 default_statement_with_update.go | 57 +++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 5c2f70e..24d93c0 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type DefaultStatementWithUpdateBuilder struct {
 	defaultBuilder *DefaultStatementBuilder
 	returnList     []Expression
@@ -65,6 +67,15 @@ func DefaultStatementWithUpdateBuilderError(err error) DefaultStatementWithUpdat
 	return DefaultStatementWithUpdateBuilder{err: err}
 }
 
+// closed returns the statement so far followed by this update, which stays as it is.
+func (d DefaultStatementWithUpdateBuilder) closed() DefaultStatementBuilder {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	closed := *d.defaultBuilder
+	return closed.addUpdatingClause(d.builder.build())
+}
+
 func (d DefaultStatementWithUpdateBuilder) isNotNil() bool {
 	return d.notNil
 }
@@ -108,14 +119,14 @@ func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
+	closed := d.closed()
 	var returning Return
 	if len(d.returnList) > 0 {
 		returnItems := ExpressionList{expressions: d.returnList}
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
-	return d.defaultBuilder.BuildImpl(false, returning), nil
+	return closed.BuildImpl(false, returning), nil
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningByString(variables ...string) OngoingReadingAndReturn {
@@ -140,7 +151,7 @@ func (d DefaultStatementWithUpdateBuilder) ReturningDistinctByNamed(variables ..
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	d.Returning(expression...)
+	d.returnList = append(d.returnList, expression...)
 	d.distinct = true
 	return d
 }
@@ -158,8 +169,8 @@ func (d DefaultStatementWithUpdateBuilder) With(expressions ...Expression) Order
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDefault(distinct bool, returnedExpressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.WithDefault(distinct, returnedExpressions...)
+	closed := d.closed()
+	return closed.WithDefault(distinct, returnedExpressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -187,7 +198,7 @@ func (d DefaultStatementWithUpdateBuilder) Delete(expressions ...Expression) Ong
 }
 
 func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, deletedExpressions ...Expression) OngoingUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
+	closed := d.closed()
 	var deleteType UpdateType
 	if nextDetach {
 		deleteType = UPDATE_TYPE_DETACH_DELETE
@@ -198,7 +209,7 @@ func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, delete
 	for i := range deletedExpressions {
 		visitables[i] = deletedExpressions[i]
 	}
-	return d.defaultBuilder.Update(deleteType, visitables)
+	return closed.Update(deleteType, visitables)
 }
 
 func (d DefaultStatementWithUpdateBuilder) DetachDeleteByString(variables ...string) OngoingUpdate {
@@ -214,30 +225,30 @@ func (d DefaultStatementWithUpdateBuilder) DetachDelete(expressions ...Expressio
 }
 
 func (d DefaultStatementWithUpdateBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Merge(pattern...)
+	closed := d.closed()
+	return closed.Merge(pattern...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, expressions...)
+	closed := d.closed()
+	return DefaultStatementWithUpdateBuilderCreate2(&closed, UPDATE_TYPE_SET, expressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.Set(variable.GetSymbolicName(), expression)
+	if variable == nil {
+		return DefaultStatementWithUpdateBuilderError(errors.New("the variable to set is required"))
+	}
+	return d.Set(variable.GetRequiredSymbolicName(), expression)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
+	closed := d.closed()
+	return DefaultStatementWithUpdateBuilderCreate2(&closed, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
 }
 
 func (d DefaultStatementWithUpdateBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	if d.err != nil {
-		return d
-	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, OperationSetLabel(node, labels...))
+	closed := d.closed()
+	return DefaultStatementWithUpdateBuilderCreate2(&closed, UPDATE_TYPE_REMOVE, OperationRemove(node, labels...))
 }
 
 func (d DefaultStatementWithUpdateBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
@@ -245,11 +256,11 @@ func (d DefaultStatementWithUpdateBuilder) Remove(properties ...Property) Builda
 	for i := range properties {
 		expressions[i] = properties[i]
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, expressions...)
+	closed := d.closed()
+	return DefaultStatementWithUpdateBuilderCreate2(&closed, UPDATE_TYPE_REMOVE, expressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Create(element...)
+	closed := d.closed()
+	return closed.Create(element...)
 }
-- 
2.43.0


From 17a8cde1769cc92c13171a07b48a504d82395050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:49 +0000
Subject: [PATCH 24/52] fix: WITH reports its errors, lists of expressions
 report missing expressions

---
 arguments.go                             |  7 +++-
 default_statement_with_return_builder.go |  2 +-
 default_statement_with_update.go         |  2 +-
 default_statement_with_with_builder.go   | 45 +++++++++++++++---------
 expression_list.go                       |  7 +++-
 5 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/arguments.go b/arguments.go
index 637b22d..16249d3 100644
--- a/arguments.go
+++ b/arguments.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Arguments struct {
 	expressions []Expression
 	key         string
@@ -9,7 +11,10 @@ type Arguments struct {
 
 func ArgumentsCreate(expression []Expression) Arguments {
 	for _, expr := range expression {
-		if expr != nil && expr.GetError() != nil {
+		if expr == nil {
+			return Arguments{err: errors.New("arguments: the expressions must be not nil")}
+		}
+		if expr.GetError() != nil {
 			return Arguments{err: expr.GetError()}
 		}
 	}
diff --git a/default_statement_with_return_builder.go b/default_statement_with_return_builder.go
index 47b428b..fbdf2a9 100644
--- a/default_statement_with_return_builder.go
+++ b/default_statement_with_return_builder.go
@@ -22,7 +22,7 @@ func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
 	}
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 24d93c0..90d509c 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -122,7 +122,7 @@ func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 	closed := d.closed()
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index 135a743..e729c90 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type DefaultStatementWithWithBuilder struct {
 	defaultBuilder   *DefaultStatementBuilder
 	conditionBuilder ConditionBuilder
@@ -46,6 +48,14 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 	return returnedWith
 }
 
+// closed returns the statement so far followed by this WITH, which stays as it is.
+func (d DefaultStatementWithWithBuilder) closed() DefaultStatementBuilder {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	return d.defaultBuilder.AddWith(d.buildWith())
+}
+
 func (d *DefaultStatementWithWithBuilder) addExpression(expressions ...Expression) {
 	d.returnList = append(d.returnList, expressions...)
 }
@@ -89,7 +99,7 @@ func (d DefaultStatementWithWithBuilder) ReturningByNamed(variables ...Named) On
 }
 
 func (d DefaultStatementWithWithBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Returning(expression...)
 }
 
@@ -102,7 +112,7 @@ func (d DefaultStatementWithWithBuilder) ReturningDistinctByNamed(variables ...N
 }
 
 func (d DefaultStatementWithWithBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		ReturningDistinct(expression...)
 }
 
@@ -115,7 +125,7 @@ func (d DefaultStatementWithWithBuilder) WithByNamed(variables ...Named) Orderab
 }
 
 func (d DefaultStatementWithWithBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		With(expressions...)
 }
 
@@ -128,7 +138,7 @@ func (d DefaultStatementWithWithBuilder) WithDistinctByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		WithDistinct(expressions...)
 }
 
@@ -141,7 +151,7 @@ func (d DefaultStatementWithWithBuilder) DeleteByNamed(variables ...Named) Ongoi
 }
 
 func (d DefaultStatementWithWithBuilder) Delete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Delete(expressions...)
 }
 
@@ -154,36 +164,39 @@ func (d DefaultStatementWithWithBuilder) DetachDeleteByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) DetachDelete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		DetachDelete(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Merge(pattern...)
 }
 
 func (d DefaultStatementWithWithBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Set(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
+	if variable == nil {
+		return DefaultStatementWithUpdateBuilderError(errors.New("the variable to set is required"))
+	}
 	return d.Set(variable.GetRequiredSymbolicName(), expression)
 }
 
 func (d DefaultStatementWithWithBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		SetByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		RemoveByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Remove(properties...)
 }
 
@@ -196,22 +209,22 @@ func (d DefaultStatementWithWithBuilder) UnwindByString(variable string) Ongoing
 }
 
 func (d DefaultStatementWithWithBuilder) Unwind(expression Expression) OngoingUnwind {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Unwind(expression)
 }
 
 func (d DefaultStatementWithWithBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Create(element...)
 }
 
 func (d DefaultStatementWithWithBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Call(statement)
 }
 
 func (d DefaultStatementWithWithBuilder) Call1(namespaceAndProcedure ...string) OngoingInQueryCallWithoutArguments {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		Call1(namespaceAndProcedure...)
 }
 
@@ -224,7 +237,7 @@ func (d DefaultStatementWithWithBuilder) OptionalMatch(pattern ...PatternElement
 }
 
 func (d DefaultStatementWithWithBuilder) MatchDefault(optional bool, pattern ...PatternElement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
+	return d.closed().
 		MatchDefault(optional, pattern...)
 }
 
diff --git a/expression_list.go b/expression_list.go
index c9a7596..abda41b 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ExpressionList struct {
 	ExpressionContainer
 	expressions []Expression
@@ -10,6 +12,9 @@ type ExpressionList struct {
 
 func ExpressionListCreate(expressions []Expression) ExpressionList {
 	for _, expression := range expressions {
+		if expression == nil {
+			return ExpressionListError(errors.New("expression list: the expressions must be not nil"))
+		}
 		if expression.GetError() != nil {
 			return ExpressionListError(expression.GetError())
 		}
@@ -72,5 +77,5 @@ func NewExpressionList(expression ...Expression) ExpressionList {
 	for i := range expression {
 		expressions[i] = expression[i]
 	}
-	return ExpressionList{expressions: expressions}
+	return ExpressionListCreate(expressions)
 }
-- 
2.43.0


From 12c904287ecdf1295354285e9e89b5da1f447c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 25/52] fix: sort items are neither lost nor shared between
 statements, their errors are reported

---
 order_builder.go | 25 ++++++++++++++++++-------
 sort_item.go     | 14 +++++++++++---
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/order_builder.go b/order_builder.go
index bbc40d4..2fa5693 100644
--- a/order_builder.go
+++ b/order_builder.go
@@ -15,10 +15,19 @@ func OrderBuilderCreate() OrderBuilder {
 }
 
 func (o *OrderBuilder) OrderBySortItem(item ...SortItem) {
-	o.sortItemList = append(o.sortItemList, item...)
+	o.add(item...)
+}
+
+// add adds the items to a copy of the list, which may be shared with other builders.
+func (o *OrderBuilder) add(item ...SortItem) {
+	length := len(o.sortItemList)
+	o.sortItemList = append(o.sortItemList[:length:length], item...)
 }
 
 func (o *OrderBuilder) OrderByExpression(expression Expression) {
+	if o.lastSortItem.isNotNil() || o.lastSortItem.GetError() != nil {
+		o.add(o.lastSortItem)
+	}
 	o.lastSortItem = Sort(expression)
 }
 
@@ -27,12 +36,12 @@ func (o *OrderBuilder) And(expression Expression) {
 }
 
 func (o *OrderBuilder) Descending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Descending())
+	o.add(o.lastSortItem.Descending())
 	o.lastSortItem = SortItem{}
 }
 
 func (o *OrderBuilder) Ascending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Ascending())
+	o.add(o.lastSortItem.Ascending())
 	o.lastSortItem = SortItem{}
 }
 
@@ -45,11 +54,13 @@ func (o *OrderBuilder) Limit(number int) {
 }
 
 func (o *OrderBuilder) BuildOrder() Order {
-	if o.lastSortItem.isNotNil() {
-		o.sortItemList = append(o.sortItemList, o.lastSortItem)
+	sortItemList := o.sortItemList
+	if o.lastSortItem.isNotNil() || o.lastSortItem.GetError() != nil {
+		length := len(sortItemList)
+		sortItemList = append(sortItemList[:length:length], o.lastSortItem)
 	}
-	if o.sortItemList != nil && len(o.sortItemList) > 0 {
-		return OrderCreate(o.sortItemList)
+	if sortItemList != nil && len(sortItemList) > 0 {
+		return OrderCreate(sortItemList)
 	}
 	return Order{}
 }
diff --git a/sort_item.go b/sort_item.go
index 5ef4f7f..9a56899 100644
--- a/sort_item.go
+++ b/sort_item.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type SortItem struct {
 	expression Expression
 	direction  SortDirection
@@ -12,6 +14,9 @@ func SortItemCreate(expression Expression, direction SortDirectionRaw) SortItem
 	if expression != nil && expression.GetError() != nil {
 		return SortItemError(expression.GetError())
 	}
+	if expression == nil || !expression.isNotNil() {
+		return SortItemError(errors.New("sort item: the expression is required"))
+	}
 	sortItem := SortItem{
 		expression: expression,
 		direction:  SortDirection{value: direction},
@@ -38,14 +43,17 @@ func (item SortItem) getKey() string {
 }
 
 func (item SortItem) Ascending() SortItem {
+	if item.err != nil {
+		return item
+	}
 	return SortItemCreate(item.expression, ASC)
 }
 
 func (item SortItem) Descending() SortItem {
-	return SortItem{
-		expression: item.expression,
-		direction:  SortDirection{value: DESC},
+	if item.err != nil {
+		return item
 	}
+	return SortItemCreate(item.expression, DESC)
 }
 
 func (item SortItem) accept(visitor *CypherRenderer) {
-- 
2.43.0


From 1e927ee90654d972e30f5b5b4bfb70d5afb37d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:21 +0000
Subject: [PATCH 26/52] fix: a CALL within a query does not change the builder
 it started from and reports its errors

---
 in_query_call_builder.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 3fa7feb..34be230 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -21,8 +21,17 @@ func InQueryCallBuilderCreate(defaultBuilder *DefaultStatementBuilder, procedure
 
 func (i InQueryCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
 	i.conditionBuilder.Where(condition)
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder
+	return i.ongoing()
+}
+
+// ongoing returns the statement so far with this call, which stays as it is.
+func (i InQueryCallBuilder) ongoing() DefaultStatementBuilder {
+	if i.err != nil {
+		return DefaultStatementBuilderError(i.err)
+	}
+	builder := *i.defaultBuilder
+	builder.currentOngoingCall = i
+	return builder
 }
 
 func (i InQueryCallBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -42,8 +51,7 @@ func (i InQueryCallBuilder) ReturningByNamed(variables ...Named) OngoingReadingA
 }
 
 func (i InQueryCallBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Returning(expression...)
+	return i.ongoing().Returning(expression...)
 }
 
 func (i InQueryCallBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -55,15 +63,23 @@ func (i InQueryCallBuilder) ReturningDistinctByNamed(variables ...Named) Ongoing
 }
 
 func (i InQueryCallBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.ReturningDistinct(expression...)
+	return i.ongoing().ReturningDistinct(expression...)
 }
 
 func (i InQueryCallBuilder) Build() (Statement, error) {
+	if i.err != nil {
+		return nil, i.err
+	}
+	if i.conditionBuilder.err != nil {
+		return nil, i.conditionBuilder.err
+	}
 	argumentsList := Arguments{}
 	if i.arguments == nil || len(i.arguments) > 0 {
 		argumentsList = ArgumentsCreate(i.arguments)
 	}
+	if argumentsList.GetError() != nil {
+		return nil, argumentsList.GetError()
+	}
 	condition := i.conditionBuilder.buildCondition()
 	if condition != nil && condition.isNotNil() {
 		return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems,
@@ -112,8 +128,7 @@ func (i InQueryCallBuilder) WithByNamed(variables ...Named) OrderableOngoingRead
 }
 
 func (i InQueryCallBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.With(expressions...)
+	return i.ongoing().With(expressions...)
 }
 
 func (i InQueryCallBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -125,13 +140,11 @@ func (i InQueryCallBuilder) WithDistinctByNamed(variables ...Named) OrderableOng
 }
 
 func (i InQueryCallBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.WithDistinct(expressions...)
+	return i.ongoing().WithDistinct(expressions...)
 }
 
 func (i InQueryCallBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Call(statement)
+	return i.ongoing().Call(statement)
 }
 
 func (i InQueryCallBuilder) isNotNil() bool {
-- 
2.43.0


From 82c6971624f5ab9e2667ebfc290d1fe1aaec59cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:41 +0000
Subject: [PATCH 27/52] fix: report the errors of conditions and patterns
 instead of dropping them or panicking

---
 boolean_function_condition.go     |  3 +++
 comparison.go                     |  2 +-
 condition_container.go            | 27 ++++++++++++++++++++-------
 conditions.go                     |  3 +++
 default_statement_builder.go      |  7 +++++--
 excluded_pattern.go               |  9 +++++++--
 existential_subquery.go           |  2 +-
 list_predicate.go                 |  4 ++--
 nested_expression.go              |  5 +++++
 predicates.go                     | 17 ++++++++++++++++-
 relationship_pattern_condition.go |  5 +++++
 subquery.go                       |  5 ++++-
 12 files changed, 72 insertions(+), 17 deletions(-)

diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index c6fe40f..986fea8 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -9,6 +9,9 @@ type BooleanFunctionCondition struct {
 }
 
 func BooleanFunctionConditionCreate(delegate FunctionInvocation) BooleanFunctionCondition {
+	if delegate.GetError() != nil {
+		return BooleanFunctionConditionError(delegate.GetError())
+	}
 	function := BooleanFunctionCondition{
 		delegate: delegate,
 		notNil:   true,
diff --git a/comparison.go b/comparison.go
index de49515..f091015 100644
--- a/comparison.go
+++ b/comparison.go
@@ -30,7 +30,7 @@ func ComparisonCreate(left Expression, operator Operator, right Expression) Comp
 	if left == nil || !left.isNotNil() {
 		return ComparisonError(errors.New("left expression must be not nil"))
 	}
-	if right == nil || !left.isNotNil() {
+	if right == nil || !right.isNotNil() {
 		return ComparisonError(errors.New("right expression must be not nil"))
 	}
 	comparison := Comparison{
diff --git a/condition_container.go b/condition_container.go
index c1e6007..f9c4574 100644
--- a/condition_container.go
+++ b/condition_container.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ConditionContainer struct {
 	ExpressionContainer
 }
@@ -10,11 +12,22 @@ func ConditionWrap(condition Condition) ConditionContainer {
 	}
 }
 
+// condition returns the wrapped condition, an erroneous one if there is none.
+func (b ConditionContainer) condition() Condition {
+	if condition, isCondition := b.expression.(Condition); isCondition {
+		return condition
+	}
+	if b.expression != nil && b.expression.GetError() != nil {
+		return CompoundConditionError(b.expression.GetError())
+	}
+	return CompoundConditionError(errors.New("condition is required"))
+}
+
 func (b ConditionContainer) And(condition Condition) ConditionContainer {
 	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
 		return compoundCondition.And(condition)
 	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), AND, condition)
+	b.expression = CompoundConditionCreate(b.condition(), AND, condition)
 	return b
 }
 
@@ -22,7 +35,7 @@ func (b ConditionContainer) Or(condition Condition) ConditionContainer {
 	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
 		return compoundCondition.Or(condition)
 	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), OR, condition)
+	b.expression = CompoundConditionCreate(b.condition(), OR, condition)
 	return b
 }
 
@@ -30,22 +43,22 @@ func (b ConditionContainer) Xor(condition Condition) ConditionContainer {
 	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
 		return compoundCondition.Xor(condition)
 	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), XOR, condition)
+	b.expression = CompoundConditionCreate(b.condition(), XOR, condition)
 	return b
 }
 
 func (b ConditionContainer) AndPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), AND, RelationshipPatternConditionCreate(pathPattern))
+	b.expression = CompoundConditionCreate(b.condition(), AND, RelationshipPatternConditionCreate(pathPattern))
 	return b
 }
 
 func (b ConditionContainer) OrPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), OR, RelationshipPatternConditionCreate(pathPattern))
+	b.expression = CompoundConditionCreate(b.condition(), OR, RelationshipPatternConditionCreate(pathPattern))
 	return b
 }
 
 func (b ConditionContainer) XorPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), XOR, RelationshipPatternConditionCreate(pathPattern))
+	b.expression = CompoundConditionCreate(b.condition(), XOR, RelationshipPatternConditionCreate(pathPattern))
 	return b
 }
 
@@ -55,5 +68,5 @@ func (b ConditionContainer) Not() ConditionContainer {
 }
 
 func (b ConditionContainer) Get() Condition {
-	return b.expression.(Condition)
+	return b.condition()
 }
diff --git a/conditions.go b/conditions.go
index 5e43241..d3d9a5a 100644
--- a/conditions.go
+++ b/conditions.go
@@ -7,6 +7,9 @@ func ConditionsNotByPattern(element PatternElement) Condition {
 }
 
 func ConditionsNot(condition Condition) Condition {
+	if condition != nil && condition.GetError() != nil {
+		return CompoundConditionError(condition.GetError())
+	}
 	if condition == nil || !condition.isNotNil() {
 		return CompoundConditionError(xerrors.New("condition not: condition to negate must not be nil"))
 	}
diff --git a/default_statement_builder.go b/default_statement_builder.go
index af1eb81..bf84a43 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -413,8 +413,11 @@ func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingI
 }
 
 func (d DefaultStatementBuilder) AsCondition() Condition {
-	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 {
-		panic("only simple MATCH statements can be used as existential subqueries")
+	if d.err != nil {
+		return ExistentialSubqueryError(d.err)
+	}
+	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 || len(d.multipartElements) > 0 {
+		return ExistentialSubqueryError(errors.New("only simple MATCH statements can be used as existential subqueries"))
 	}
 	return ExistentialSubqueryExists(d.currentOngoingMatch.buildMatch())
 }
diff --git a/excluded_pattern.go b/excluded_pattern.go
index 6798cf1..de63d70 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ExcludedPattern struct {
 	ConditionContainer
 	patternElement PatternElement
@@ -9,6 +11,9 @@ type ExcludedPattern struct {
 }
 
 func ExcludedPatternCreate(patternElement PatternElement) ExcludedPattern {
+	if patternElement == nil {
+		return ExcludedPatternError(errors.New("the pattern to exclude is required"))
+	}
 	if patternElement.GetError() != nil {
 		return ExcludedPatternError(patternElement.GetError())
 	}
@@ -53,9 +58,9 @@ func (e ExcludedPattern) isNotNil() bool {
 }
 
 func (e ExcludedPattern) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return "ExcludedPattern"
 }
 
 func (e ExcludedPattern) getConditionType() string {
-	panic("implement me")
+	return "ExcludedPattern"
 }
diff --git a/existential_subquery.go b/existential_subquery.go
index 8f741af..bf2eb20 100644
--- a/existential_subquery.go
+++ b/existential_subquery.go
@@ -58,7 +58,7 @@ func (e ExistentialSubquery) isNotNil() bool {
 }
 
 func (e ExistentialSubquery) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return "ExistentialSubquery"
 }
 
 func (e ExistentialSubquery) getConditionType() string {
diff --git a/list_predicate.go b/list_predicate.go
index a006a80..2eb960c 100644
--- a/list_predicate.go
+++ b/list_predicate.go
@@ -15,10 +15,10 @@ func ListPredicateCreate(variable SymbolicName, listExpression Expression, where
 		return ListPredicateError(variable.GetError())
 	}
 	if listExpression != nil && listExpression.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+		return ListPredicateError(listExpression.GetError())
 	}
 	if where.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+		return ListPredicateError(where.GetError())
 	}
 	listPredicate := ListPredicate{
 		variable:       variable,
diff --git a/nested_expression.go b/nested_expression.go
index bb39916..766d5bd 100644
--- a/nested_expression.go
+++ b/nested_expression.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type NestedExpression struct {
 	ExpressionContainer
 	delegate Expression
@@ -12,6 +14,9 @@ func NestedExpressionCreate(delegate Expression) NestedExpression {
 	if delegate != nil && delegate.GetError() != nil {
 		return NestedExpressionError(delegate.GetError())
 	}
+	if delegate == nil || !delegate.isNotNil() {
+		return NestedExpressionError(errors.New("nested expression: the expression is required"))
+	}
 	nested := NestedExpression{
 		delegate: delegate,
 		notNil:   true,
diff --git a/predicates.go b/predicates.go
index f930db8..cc725cc 100644
--- a/predicates.go
+++ b/predicates.go
@@ -60,6 +60,9 @@ type PredicateBuilder struct {
 }
 
 func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBuilder {
+	if name.GetError() != nil {
+		return PredicateBuilder{err: name.GetError()}
+	}
 	if !name.isNotNil() {
 		return PredicateBuilder{err: xerrors.New("name for predicate is require")}
 	}
@@ -70,6 +73,12 @@ func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBui
 }
 
 func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionWithList {
+	if p.err != nil {
+		return p
+	}
+	if list != nil && list.GetError() != nil {
+		return PredicateBuilder{err: list.GetError()}
+	}
 	if list == nil || !list.isNotNil() {
 		return PredicateBuilder{err: xerrors.New("predicate builder: the list expression is required")}
 	}
@@ -78,6 +87,12 @@ func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionW
 }
 
 func (p PredicateBuilder) Where(condition Condition) Condition {
+	if p.err != nil {
+		return BooleanFunctionConditionError(p.err)
+	}
+	if condition != nil && condition.GetError() != nil {
+		return BooleanFunctionConditionError(condition.GetError())
+	}
 	if condition == nil || !condition.isNotNil() {
 		return BooleanFunctionConditionError(xerrors.New("predicate builder where: the condition is required"))
 	}
@@ -85,5 +100,5 @@ func (p PredicateBuilder) Where(condition Condition) Condition {
 }
 
 func (p PredicateBuilder) GetError() error {
-	panic("implement me")
+	return p.err
 }
diff --git a/relationship_pattern_condition.go b/relationship_pattern_condition.go
index 478ec00..835df40 100644
--- a/relationship_pattern_condition.go
+++ b/relationship_pattern_condition.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type RelationshipPatternCondition struct {
 	ConditionContainer
 	pathPattern RelationshipPattern
@@ -9,6 +11,9 @@ type RelationshipPatternCondition struct {
 }
 
 func RelationshipPatternConditionCreate(pathPattern RelationshipPattern) RelationshipPatternCondition {
+	if pathPattern == nil {
+		return RelationshipPatternConditionError(errors.New("the relationship pattern is required"))
+	}
 	if pathPattern.GetError() != nil {
 		return RelationshipPatternConditionError(pathPattern.GetError())
 	}
diff --git a/subquery.go b/subquery.go
index 4586c97..a5670ed 100644
--- a/subquery.go
+++ b/subquery.go
@@ -24,7 +24,10 @@ func SubqueryCreate(statement Statement) Subquery {
 }
 
 func SubqueryCall(statement Statement) Subquery {
-	if statement != nil && statement.GetError() != nil {
+	if statement == nil {
+		return SubqueryError(errors.New("the statement of a subquery is required"))
+	}
+	if statement.GetError() != nil {
 		return SubqueryError(statement.GetError())
 	}
 	validReturn := false
-- 
2.43.0


From 8287132af5cacdcdb3b04da19abcf0af903364be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:57 +0000
Subject: [PATCH 28/52] fix: group conditions and powers that are operands,
 report unnamed nodes whose labels are changed

---
 list_operator.go |  5 ++++-
 operation.go     | 27 +++++++++++++++++++++------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/list_operator.go b/list_operator.go
index a11ffc1..0339afc 100644
--- a/list_operator.go
+++ b/list_operator.go
@@ -12,8 +12,11 @@ type ListOperator struct {
 }
 
 func listOperatorCreate(targetExpression Expression, optionalStart Expression, dots Dot, optionalEnd Expression) ListOperator {
+	if operation, isOperation := targetExpression.(Operation); isOperation && !operation.needsGrouping() {
+		targetExpression = NestedExpressionCreate(targetExpression)
+	}
 	operator := ListOperator{
-		targetExpression: targetExpression,
+		targetExpression: nestedOperand(targetExpression),
 		details:          ListOperatorDetailsCreate(optionalStart, dots, optionalEnd),
 		notNil:           true,
 	}
diff --git a/operation.go b/operation.go
index 9e3f3db..b7f280c 100644
--- a/operation.go
+++ b/operation.go
@@ -35,16 +35,27 @@ func OperationCreate(left Expression, operator Operator, right Expression) Opera
 		return OperationError(errors.New("operation: right can not be nil"))
 	}
 	o := Operation{
-		left:     left,
+		left:     nestedOperand(left),
 		operator: operator,
-		right:    right,
+		right:    nestedOperand(right),
 		notNil:   true,
 	}
+	if power, isOperation := right.(Operation); isOperation && power.operator == EXPONENTIATION && operator == EXPONENTIATION {
+		o.right = NestedExpressionCreate(right)
+	}
 	o.key = getAddress(&o)
 	o.ExpressionContainer = ExpressionWrap(o)
 	return o
 }
 
+// nestedOperand nests the conditions that are not grouped by themselves.
+func nestedOperand(operand Expression) Expression {
+	if compound, isCompound := operand.(CompoundCondition); isCompound && len(compound.conditions) > 1 {
+		return operand
+	}
+	return nestedIfCondition(operand)
+}
+
 func OperationCreate1(left Expression, operator Operator, right NodeLabel) Operation {
 	if left != nil && left.GetError() != nil {
 		return OperationError(left.GetError())
@@ -55,13 +66,13 @@ func OperationCreate1(left Expression, operator Operator, right NodeLabel) Opera
 	if right.GetError() != nil {
 		return OperationError(right.GetError())
 	}
-	if left == nil || left.isNotNil() {
+	if left == nil || !left.isNotNil() {
 		return OperationError(errors.New("left can not be nil"))
 	}
-	if operator.isNotNil() {
+	if !operator.isNotNil() {
 		return OperationError(errors.New("operator can not be nil"))
 	}
-	if right.isNotNil() {
+	if !right.isNotNil() {
 		return OperationError(errors.New("right can not be nil"))
 	}
 	o := Operation{
@@ -94,12 +105,16 @@ func OperationCreate2(op1 Node, operator Operator, nodeLabels ...string) Operati
 	if nodeLabels == nil || len(nodeLabels) == 0 {
 		return OperationError(errors.New("labels can not be nil or empty"))
 	}
+	name := op1.GetRequiredSymbolicName()
+	if name.GetError() != nil {
+		return OperationError(name.GetError())
+	}
 	labels := make([]NodeLabel, 0)
 	for _, nodeLabel := range nodeLabels {
 		labels = append(labels, NodeLabelCreate(nodeLabel))
 	}
 	o := Operation{
-		left:     op1.GetRequiredSymbolicName(),
+		left:     name,
 		operator: operator,
 		right:    NodeLabelsCreate(labels),
 		notNil:   true,
-- 
2.43.0


From 20794cf9aa437d01e68c8c3ca0a456801e8559ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:47 +0000
Subject: [PATCH 29/52] fix: CASE and aliased expressions report their errors,
 a CASE does not change the one it extends

---
 alias_expression.go           |  9 ++++++---
 boolean_function_condition.go |  2 ++
 case.go                       | 38 +++++++++++++++++++++++++++++++----
 3 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index 5c7359d..4758432 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -14,12 +14,12 @@ type AliasedExpression struct {
 }
 
 func AliasedExpressionCreate(delegate Expression, alias string) AliasedExpression {
+	if delegate != nil && delegate.GetError() != nil {
+		return AliasedExpressionError(delegate.GetError())
+	}
 	if delegate == nil || !delegate.isNotNil() {
 		return AliasedExpressionError(errors.New("expression to alias can't be nil"))
 	}
-	if delegate.GetError() != nil {
-		return AliasedExpressionError(delegate.GetError())
-	}
 	if alias == "" {
 		return AliasedExpressionError(errors.New("the alias may not be empty"))
 	}
@@ -52,6 +52,9 @@ func (aliased AliasedExpression) GetExpressionType() ExpressionType {
 }
 
 func (aliased AliasedExpression) Aliased(newAlias string) AliasedExpression {
+	if aliased.err != nil {
+		return aliased
+	}
 	if newAlias == "" {
 		return AliasedExpressionError(errors.New("the alias may not be empty"))
 	}
diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index 986fea8..4d3a0ff 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -33,7 +33,9 @@ func (b BooleanFunctionCondition) GetError() error {
 }
 
 func (b BooleanFunctionCondition) accept(visitor *CypherRenderer) {
+	visitor.enter(b)
 	b.delegate.accept(visitor)
+	visitor.leave(b)
 }
 
 func (b BooleanFunctionCondition) enter(renderer *CypherRenderer) {
diff --git a/case.go b/case.go
index 0d82f1a..d066ac0 100644
--- a/case.go
+++ b/case.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Case struct {
 	ConditionContainer
 	caseElse       CaseElse
@@ -40,6 +42,9 @@ func SimpleCaseCreate1(caseExpression Expression) Case {
 	if caseExpression != nil && caseExpression.GetError() != nil {
 		return Case{err: caseExpression.GetError()}
 	}
+	if caseExpression == nil || !caseExpression.isNotNil() {
+		return Case{err: errors.New("case: the expression is required")}
+	}
 	simpleCase := Case{
 		caseExpression: caseExpression,
 		caseWhenThens:  make([]CaseWhenThen, 0),
@@ -165,12 +170,16 @@ func (c Case) getConditionType() string {
 }
 
 func (c Case) ElseDefault(defaultExpression Expression) CaseEnding {
+	if c.err != nil {
+		return c
+	}
 	caseElse := CaseElseCreate(defaultExpression)
 	if caseElse.GetError() != nil {
 		return Case{err: caseElse.GetError()}
 	}
 	c.caseElse = caseElse
-	c.ExpressionContainer = ExpressionWrap(c)
+	c.key = getAddress(&c)
+	c.ConditionContainer = ConditionWrap(c)
 	return c
 }
 
@@ -200,6 +209,9 @@ type OngoingWhenThen struct {
 }
 
 func OngoingWhenThenCreate(caseInstance *Case, whenExpression Expression) OngoingWhenThen {
+	if caseInstance.GetError() != nil {
+		return OngoingWhenThen{err: caseInstance.GetError()}
+	}
 	if whenExpression != nil && whenExpression.GetError() != nil {
 		return OngoingWhenThen{err: whenExpression.GetError()}
 	}
@@ -207,13 +219,22 @@ func OngoingWhenThenCreate(caseInstance *Case, whenExpression Expression) Ongoin
 }
 
 func (o OngoingWhenThen) Then(expression Expression) CaseEnding {
+	if o.err != nil {
+		return Case{err: o.err}
+	}
 	caseWhenThen := CaseWhenThenCreate(o.whenExpression, expression)
-	o.caseInstance.caseWhenThens = append(o.caseInstance.caseWhenThens, caseWhenThen)
+	length := len(o.caseInstance.caseWhenThens)
+	caseWhenThens := append(o.caseInstance.caseWhenThens[:length:length], caseWhenThen)
+	var ending Case
 	if o.caseInstance.caseExpression != nil && o.caseInstance.caseExpression.isNotNil() {
-		return EndingSimpleCaseCreate(o.caseInstance.caseExpression, o.caseInstance.caseWhenThens)
+		ending = EndingSimpleCaseCreate(o.caseInstance.caseExpression, caseWhenThens)
 	} else {
-		return EndingGenericCaseCreate(o.caseInstance.caseWhenThens)
+		ending = EndingGenericCaseCreate(caseWhenThens)
 	}
+	if o.caseInstance.caseElse.isNotNil() {
+		return ending.ElseDefault(o.caseInstance.caseElse.elseExpression)
+	}
+	return ending
 }
 
 //CaseWhenThen
@@ -233,6 +254,12 @@ func CaseWhenThenCreate(whenExpression Expression, thenExpression Expression) Ca
 	if whenExpression != nil && whenExpression.GetError() != nil {
 		return CaseWhenThen{err: whenExpression.GetError()}
 	}
+	if thenExpression == nil || !thenExpression.isNotNil() {
+		return CaseWhenThen{err: errors.New("case: the expression to return is required")}
+	}
+	if whenExpression == nil || !whenExpression.isNotNil() {
+		return CaseWhenThen{err: errors.New("case: the expression to compare with is required")}
+	}
 	caseWhenThen := CaseWhenThen{
 		thenExpression: thenExpression,
 		whenExpression: whenExpression,
@@ -285,6 +312,9 @@ func CaseElseCreate(elseExpression Expression) CaseElse {
 	if elseExpression != nil && elseExpression.GetError() != nil {
 		return CaseElse{err: elseExpression.GetError()}
 	}
+	if elseExpression == nil || !elseExpression.isNotNil() {
+		return CaseElse{err: errors.New("case: the default expression is required")}
+	}
 	caseElse := CaseElse{elseExpression: elseExpression, notNil: true}
 	caseElse.key = getAddress(&caseElse)
 	return caseElse
-- 
2.43.0


From ec98d4b34fcccef4e03f093265205cdabc6b3436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:38 +0000
Subject: [PATCH 30/52] fix: temporal functions without arguments,
 collect(DISTINCT ...), missing arguments and erroneous unions

---
 cypher.go              |  5 +++++
 function_invocation.go | 15 +++++++++++----
 functions.go           | 28 +++++++++++++++++++++++-----
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/cypher.go b/cypher.go
index 1fa39ec..d8ee6eb 100644
--- a/cypher.go
+++ b/cypher.go
@@ -569,6 +569,11 @@ func unionImpl(unionAll bool, statements ...Statement) Statement {
 	if statements == nil || len(statements) < 2 {
 		return UnionQueryError(errors.New("at least 2 statements are required"))
 	}
+	for _, statement := range statements {
+		if statement != nil && statement.GetError() != nil {
+			return UnionQueryError(statement.GetError())
+		}
+	}
 	i := 0
 	existingUnionQuery := UnionQuery{}
 	if unionQuery, isUnion := statements[0].(UnionQuery); isUnion {
diff --git a/function_invocation.go b/function_invocation.go
index 4467e61..c570df4 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -14,12 +14,15 @@ type FunctionInvocation struct {
 }
 
 func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation {
-	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName(), nil)
+	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName())
 }
 
 func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...Expression) FunctionInvocation {
 	if arguments != nil {
 		for _, expression := range arguments {
+			if expression == nil || (expression.GetError() == nil && !expression.isNotNil()) {
+				return FunctionInvocationError(errors.New("the arguments of a function must be not nil"))
+			}
 			if expression.GetError() != nil {
 				return FunctionInvocationError(expression.GetError())
 			}
@@ -42,6 +45,9 @@ func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...
 func FunctionInvocationCreate(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
 	if expressions != nil {
 		for _, expression := range expressions {
+			if expression == nil || (expression.GetError() == nil && !expression.isNotNil()) {
+				return FunctionInvocationError(errors.New("the arguments of a function must be not nil"))
+			}
 			if expression.GetError() != nil {
 				return FunctionInvocationError(expression.GetError())
 			}
@@ -107,6 +113,9 @@ func FunctionInvocationCreateWithPattern(definition FunctionDefinition, pattern
 func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
 	if expressions != nil {
 		for _, expression := range expressions {
+			if expression == nil || (expression.GetError() == nil && !expression.isNotNil()) {
+				return FunctionInvocationError(errors.New("the arguments of a function must be not nil"))
+			}
 			if expression.GetError() != nil {
 				return FunctionInvocationError(expression.GetError())
 			}
@@ -119,9 +128,7 @@ func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions
 		return FunctionInvocationError(errors.Errorf("expression for %s is required", definition.getImplementationName()))
 	}
 	arguments := make([]Visitable, 0)
-	arguments = append(arguments, DistinctExpression{
-		delegate: expressions[0],
-	})
+	arguments = append(arguments, DistinctExpressionCreate(expressions[0]))
 	for _, expression := range expressions[1:] {
 		arguments = append(arguments, expression)
 	}
diff --git a/functions.go b/functions.go
index 1f4217e..4764b2c 100644
--- a/functions.go
+++ b/functions.go
@@ -194,7 +194,7 @@ func CollectDistinct(expression Expression) FunctionInvocation {
 	if expression != nil && expression.GetError() != nil {
 		return FunctionInvocationError(expression.GetError())
 	}
-	return FunctionInvocationCreateDistinct(AVG, expression)
+	return FunctionInvocationCreateDistinct(COLLECT, expression)
 }
 
 /**
@@ -715,6 +715,9 @@ func DateWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DateWithExpression(temporalValue Expression) FunctionInvocation {
+	if temporalValue == nil {
+		return FunctionInvocationError(errors.New("functions: the temporal value is required"))
+	}
 	if temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
@@ -732,7 +735,7 @@ func DateWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Datetime() FunctionInvocation {
-	return FunctionInvocationCreate(DATETIME)
+	return FunctionInvocationCreate1(DATETIME)
 }
 
 /**
@@ -780,6 +783,9 @@ func DateTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DateTimeWithExpression(temporalValue Expression) FunctionInvocation {
+	if temporalValue == nil {
+		return FunctionInvocationError(errors.New("functions: the temporal value is required"))
+	}
 	if temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
@@ -797,7 +803,7 @@ func DateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalDatetime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALDATETIME)
+	return FunctionInvocationCreate1(LOCALDATETIME)
 }
 
 /**
@@ -860,6 +866,9 @@ func LocalDateTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalDateTimeWithExpression(temporalValue Expression) FunctionInvocation {
+	if temporalValue == nil {
+		return FunctionInvocationError(errors.New("functions: the temporal value is required"))
+	}
 	if temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
@@ -877,7 +886,7 @@ func LocalDateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Localtime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALTIME)
+	return FunctionInvocationCreate1(LOCALTIME)
 }
 
 /**
@@ -939,6 +948,9 @@ func LocalTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalTimeWithExpression(temporalValue Expression) FunctionInvocation {
+	if temporalValue == nil {
+		return FunctionInvocationError(errors.New("functions: the temporal value is required"))
+	}
 	if temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
@@ -956,7 +968,7 @@ func LocalTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Time() FunctionInvocation {
-	return FunctionInvocationCreate(TIME)
+	return FunctionInvocationCreate1(TIME)
 }
 
 /**
@@ -1019,6 +1031,9 @@ func TimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func TimeWithExpression(temporalValue Expression) FunctionInvocation {
+	if temporalValue == nil {
+		return FunctionInvocationError(errors.New("functions: the temporal value is required"))
+	}
 	if temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
@@ -1073,6 +1088,9 @@ func DurationWithTemporal(temporalAmount string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DurationWithExpression(temporalAmount Expression) FunctionInvocation {
+	if temporalAmount == nil {
+		return FunctionInvocationError(errors.New("functions: the temporal amount is required"))
+	}
 	if temporalAmount.GetError() != nil {
 		return FunctionInvocationError(temporalAmount.GetError())
 	}
-- 
2.43.0


From 76e3bac58e583af8889f557963ecace1c3234d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 31/52] fix: NewNodeWithLabels yields a complete node

---
 cypher.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/cypher.go b/cypher.go
index d8ee6eb..fdeecae 100644
--- a/cypher.go
+++ b/cypher.go
@@ -14,14 +14,7 @@ import (
  * @return A new node representation
  */
 func NewNodeWithLabels(primaryLabel string, additionalLabel ...string) Node {
-	var labels = make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
-	for _, label := range additionalLabel {
-		labels = append(labels, NodeLabel{value: label})
-	}
-	return Node{
-		labels: labels,
-	}
+	return NodeCreate3(primaryLabel, additionalLabel...)
 }
 
 /**
-- 
2.43.0


From 75f87edaaa52bab5f81272a5802e28331a41420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 32/52] fix: comprehensions report missing parts and the errors
 of their parts

---
 expressions.go           | 22 ++++++++++++++++------
 list_comprehension.go    | 31 +++++++++++++++++++++++++++----
 list_expression.go       |  3 +++
 pattern_comprehension.go | 30 +++++++++++++++++++++++++-----
 4 files changed, 71 insertions(+), 15 deletions(-)

diff --git a/expressions.go b/expressions.go
index d5fd352..3c5b623 100644
--- a/expressions.go
+++ b/expressions.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 func NameOrExpression(expression Expression) Expression {
 	named, isNamed := (expression).(Named)
 	if isNamed && named.GetSymbolicName().isNotNil() {
@@ -11,18 +13,26 @@ func NameOrExpression(expression Expression) Expression {
 func CreateSymbolicNameByNamed(nameds ...Named) []Expression {
 	expressions := make([]Expression, 0)
 	for _, named := range nameds {
-		if named != nil {
-			expressions = append(expressions, named.GetSymbolicName())
-		}
+		expressions = append(expressions, requiredSymbolicName(named))
 	}
 	return expressions
 }
+
+// requiredSymbolicName returns the name of a named element, an erroneous one if there is none.
+func requiredSymbolicName(named Named) SymbolicName {
+	if named == nil {
+		return SymbolicNameError(errors.New("a named element is required"))
+	}
+	if named.GetError() != nil {
+		return SymbolicNameError(named.GetError())
+	}
+	return named.GetRequiredSymbolicName()
+}
+
 func CreateSymbolicNameByString(args ...string) []Expression {
 	expressions := make([]Expression, 0)
 	for _, arg := range args {
-		if arg != "" {
-			expressions = append(expressions, SymbolicNameCreate(arg))
-		}
+		expressions = append(expressions, SymbolicNameCreate(arg))
 	}
 	return expressions
 }
diff --git a/list_comprehension.go b/list_comprehension.go
index 4feb036..de1941f 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -17,6 +17,14 @@ func ListComprehensionCreate(variable SymbolicName, listExpression Expression, w
 	if variable.GetError() != nil {
 		return ListComprehensionError(variable.GetError())
 	}
+	if listExpression == nil {
+		return ListComprehensionError(errors.New("list comprehension: a list is required"))
+	}
+	for _, part := range []CanHasError{listExpression, where, listDefinition} {
+		if part != nil && part.GetError() != nil {
+			return ListComprehensionError(part.GetError())
+		}
+	}
 	list := ListComprehension{
 		variable:       variable,
 		listExpression: listExpression,
@@ -117,15 +125,30 @@ func (l ListComprehensionBuilder) ReturningByNamed(variables ...Named) ListCompr
 }
 
 func (l ListComprehensionBuilder) Returning(expressions ...Expression) ListComprehension {
-	return ListComprehensionCreate(l.variable, l.listExpression, l.where,
-		ListOrSingleExpression(expressions...))
+	return l.create(ListOrSingleExpression(expressions...))
 }
 
 func (l ListComprehensionBuilder) ReturningDefault() ListComprehension {
-	return ListComprehensionCreate(l.variable, l.listExpression, l.where, nil)
+	return l.create(nil)
+}
+
+func (l ListComprehensionBuilder) create(listDefinition Expression) ListComprehension {
+	if l.err != nil {
+		return ListComprehensionError(l.err)
+	}
+	return ListComprehensionCreate(l.variable, l.listExpression, l.where, listDefinition)
 }
 
 func (l ListComprehensionBuilder) Where(condition Condition) OngoingDefinitionWithoutReturn {
-	l.where = WhereCreate(condition)
+	conditionBuilder := ConditionBuilderCreate()
+	conditionBuilder.Where(condition)
+	if conditionBuilder.err != nil {
+		l.err = conditionBuilder.err
+		return l
+	}
+	l.where = Where{}
+	if conditionBuilder.hasCondition() {
+		l.where = WhereCreate(conditionBuilder.buildCondition())
+	}
 	return l
 }
diff --git a/list_expression.go b/list_expression.go
index 3d271ef..5402e9f 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -38,6 +38,9 @@ func ListOrSingleExpression(expressions ...Expression) Expression {
 		return ListExpressionError(errors.New("expressions are required"))
 	}
 	if len(expressions) == 1 {
+		if expressions[0] == nil {
+			return ListExpressionError(errors.New("expression is required"))
+		}
 		return expressions[0]
 	} else {
 		return ListExpressionCreate1(expressions...)
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index ce0f866..d282eac 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -13,6 +13,17 @@ type PatternComprehension struct {
 }
 
 func PatternComprehensionCreate(pattern PatternElement, where Where, listDefinition Expression) PatternComprehension {
+	if pattern == nil {
+		return PatternComprehensionError(errors.New("pattern comprehension: a pattern is required"))
+	}
+	if listDefinition == nil {
+		return PatternComprehensionError(errors.New("pattern comprehension: a list definition is required"))
+	}
+	for _, part := range []CanHasError{pattern, where, listDefinition} {
+		if part.GetError() != nil {
+			return PatternComprehensionError(part.GetError())
+		}
+	}
 	patternComprehension := PatternComprehension{
 		pattern:        pattern,
 		where:          where,
@@ -29,13 +40,19 @@ func PatternComprehensionError(err error) PatternComprehension {
 }
 
 func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPattern {
-	if !pattern.isNotNil() {
+	if pattern != nil && pattern.GetError() != nil {
+		return PatternComprehensionBuilder{err: pattern.GetError()}
+	}
+	if pattern == nil || !pattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
 	return PatternComprehensionBuilderCreate(pattern)
 }
 
 func PatternComprehensionBasedOnNamePath(pattern NamedPath) PatternComprehensionOngoingDefinitionWithPattern {
+	if pattern.GetError() != nil {
+		return PatternComprehensionBuilder{err: pattern.GetError()}
+	}
 	if !pattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
@@ -122,6 +139,9 @@ func (p PatternComprehensionBuilder) ReturningByNamed(variables ...Named) Patter
 }
 
 func (p PatternComprehensionBuilder) Returning(listDefinitions ...Expression) PatternComprehension {
+	if p.GetError() != nil {
+		return PatternComprehensionError(p.GetError())
+	}
 	where := Where{}
 	condition := p.conditionBuilder.buildCondition()
 	if condition != nil && condition.isNotNil() {
@@ -136,9 +156,6 @@ func (p PatternComprehensionBuilder) Where(condition Condition) PatternComprehen
 }
 
 func (p PatternComprehensionBuilder) WherePattern(pathPattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPatternAndWhere {
-	if !pathPattern.isNotNil() {
-		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: path pattern must not be nil")}
-	}
 	return p.Where(RelationshipPatternConditionCreate(pathPattern))
 }
 
@@ -161,5 +178,8 @@ func (p PatternComprehensionBuilder) OrPattern(pattern RelationshipPattern) Patt
 }
 
 func (p PatternComprehensionBuilder) GetError() error {
-	return p.err
+	if p.err != nil {
+		return p.err
+	}
+	return p.conditionBuilder.err
 }
-- 
2.43.0


From 0dfff5fd3e391221f40a970c5abef34c14e281d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 33/52] fix: an erroneous CALL is reported instead of dropped
 by the clauses after it

---
 procedure_call.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/procedure_call.go b/procedure_call.go
index aeec37e..4ff011b 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -151,7 +151,8 @@ func StandaloneCallBuilderCreate(procedureName ProcedureName) StandaloneCallBuil
 
 func StandaloneCallBuilderError(err error) StandaloneCallBuilder {
 	return StandaloneCallBuilder{
-		err: err,
+		notNil: true,
+		err:    err,
 	}
 }
 
-- 
2.43.0


From fcef7a52d39e83dadc3b63895d90d7d7ef20e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 34/52] fix: merge actions, unions and distinct expressions
 report missing or erroneous parts

---
 distinct_expression.go     | 7 ++++++-
 merge.go                   | 2 +-
 merge_action.go            | 3 +++
 remove.go                  | 2 +-
 union_part.go              | 7 ++++++-
 union_query.go             | 5 ++++-
 updating_clause_builder.go | 8 ++++++--
 7 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/distinct_expression.go b/distinct_expression.go
index a61612d..84022f8 100644
--- a/distinct_expression.go
+++ b/distinct_expression.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type DistinctExpression struct {
 	ExpressionContainer
 	delegate Expression
@@ -9,7 +11,10 @@ type DistinctExpression struct {
 }
 
 func DistinctExpressionCreate(delegate Expression) DistinctExpression {
-	if delegate != nil && delegate.GetError() != nil {
+	if delegate == nil {
+		return DistinctExpressionError(errors.New("the expression to make distinct is required"))
+	}
+	if delegate.GetError() != nil {
 		return DistinctExpressionError(delegate.GetError())
 	}
 	d := DistinctExpression{
diff --git a/merge.go b/merge.go
index 81fdf41..0b1636b 100644
--- a/merge.go
+++ b/merge.go
@@ -86,5 +86,5 @@ func (m merge) isNotNil() bool {
 }
 
 func (m merge) isUpdatingClause() bool {
-	panic("implement me")
+	return true
 }
diff --git a/merge_action.go b/merge_action.go
index 0ad34d9..a24a0ab 100644
--- a/merge_action.go
+++ b/merge_action.go
@@ -9,6 +9,9 @@ type MergeAction struct {
 }
 
 func MergeActionCreate(mergeType MERGE_TYPE, set Set) MergeAction {
+	if set.GetError() != nil {
+		return MergeAction{err: set.GetError()}
+	}
 	m := MergeAction{
 		mergeType: mergeType,
 		set:       set,
diff --git a/remove.go b/remove.go
index 29a8131..573a971 100644
--- a/remove.go
+++ b/remove.go
@@ -52,5 +52,5 @@ func (r Remove) isNotNil() bool {
 }
 
 func (r Remove) isUpdatingClause() bool {
-	panic("implement me")
+	return true
 }
diff --git a/union_part.go b/union_part.go
index 2825a5b..84e52cc 100644
--- a/union_part.go
+++ b/union_part.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type UnionPart struct {
 	all    bool
 	query  SingleQuery
@@ -9,7 +11,10 @@ type UnionPart struct {
 }
 
 func UnionPartCreate(all bool, query SingleQuery) UnionPart {
-	if query != nil && query.GetError() != nil {
+	if query == nil {
+		return UnionPartError(errors.New("the query of a union is required"))
+	}
+	if query.GetError() != nil {
 		return UnionPartError(query.GetError())
 	}
 	unionPart := UnionPart{
diff --git a/union_query.go b/union_query.go
index 0012ac6..862802e 100644
--- a/union_query.go
+++ b/union_query.go
@@ -18,7 +18,10 @@ func UnionQueryCreate(all bool, queries []SingleQuery) UnionQuery {
 		return UnionQueryError(errors.New("at least two queries are needed"))
 	}
 	for _, query := range queries {
-		if query != nil && query.GetError() != nil {
+		if query == nil {
+			return UnionQueryError(errors.New("the query of a union is required"))
+		}
+		if query.GetError() != nil {
 			return UnionQueryError(query.GetError())
 		}
 	}
diff --git a/updating_clause_builder.go b/updating_clause_builder.go
index 814f336..5f50d11 100644
--- a/updating_clause_builder.go
+++ b/updating_clause_builder.go
@@ -24,8 +24,12 @@ func (c MergeBuilder) on(mergeType MERGE_TYPE, expressions ...Expression) (Suppo
 	if err != nil {
 		return MergeBuilder{}, err
 	}
-	expressionList := ExpressionListCreate(expression)
-	c.mergeActions = append(c.mergeActions, MergeActionCreate(mergeType, SetCreate(expressionList)))
+	action := MergeActionCreate(mergeType, SetCreate(ExpressionListCreate(expression)))
+	if action.GetError() != nil {
+		return MergeBuilder{}, action.GetError()
+	}
+	mergeActions := make([]MergeAction, 0, len(c.mergeActions)+1)
+	c.mergeActions = append(append(mergeActions, c.mergeActions...), action)
 	return c, nil
 }
 
-- 
2.43.0


From 7e7580f0f27639c7ad6c4b5bd32b4ca9ed855c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 35/52] fix: maps and map projections report missing and
 erroneous entries, no properties at all leave no empty braces

---
 entry_expression.go    |  7 ++++++-
 key_value_map_entry.go |  8 +++++++-
 map_expression.go      | 10 ++++++++--
 map_projection.go      | 23 ++++++++++++-----------
 node.go                |  6 +++++-
 property_lookup.go     |  6 ++++++
 6 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/entry_expression.go b/entry_expression.go
index 148b6f4..77046f1 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type EntryExpression struct {
 	ExpressionContainer
 	Key    string
@@ -10,7 +12,10 @@ type EntryExpression struct {
 }
 
 func EntryExpressionCreate(key string, value Expression) EntryExpression {
-	if value != nil && value.GetError() != nil {
+	if value == nil {
+		return EntryExpression{err: errors.New("the value of a map entry is required")}
+	}
+	if value.GetError() != nil {
 		return EntryExpression{
 			err: value.GetError(),
 		}
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index d59ce3e..890e3f2 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type KeyValueMapEntry struct {
 	ExpressionContainer
 	entryKey string
@@ -10,12 +12,16 @@ type KeyValueMapEntry struct {
 }
 
 func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
-	if value != nil && value.GetError() != nil {
+	if value == nil {
+		return KeyValueMapEntryError(errors.New("the value of a map entry is required"))
+	}
+	if value.GetError() != nil {
 		return KeyValueMapEntryError(value.GetError())
 	}
 	entry := KeyValueMapEntry{
 		entryKey: key,
 		value:    value,
+		notNil:   true,
 	}
 	entry.key = getAddress(&entry)
 	entry.ExpressionContainer = ExpressionWrap(entry)
diff --git a/map_expression.go b/map_expression.go
index 2ea7be0..af42bf0 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -14,7 +14,10 @@ type MapExpression struct {
 
 func MapExpressionCreate(newContents []Expression) MapExpression {
 	for _, content := range newContents {
-		if content != nil && content.GetError() != nil {
+		if content == nil {
+			return MapExpressionError(errors.New("a map entry is required"))
+		}
+		if content.GetError() != nil {
 			return MapExpressionError(content.GetError())
 		}
 	}
@@ -51,7 +54,7 @@ func (m MapExpression) getKey() string {
 
 func NewMapExpression(objects ...interface{}) MapExpression {
 	if len(objects)%2 != 0 {
-		return MapExpressionError(errors.Errorf("new map expression number of object input should be product of 2 but it is %", len(objects)))
+		return MapExpressionError(errors.Errorf("new map expression number of object input should be product of 2 but it is %d", len(objects)))
 	}
 	var newContents = make([]Expression, len(objects)/2)
 	var knownKeys = make(map[string]int)
@@ -90,6 +93,9 @@ func (m MapExpression) leave(renderer *CypherRenderer) {
 }
 
 func (m MapExpression) AddEntries(entries []Expression) MapExpression {
+	if m.GetError() != nil {
+		return m
+	}
 	newContent := make([]Expression, len(m.expressions)+len(entries))
 	for i := range m.expressions {
 		newContent[i] = m.expressions[i]
diff --git a/map_projection.go b/map_projection.go
index 090d0f2..30cab7f 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -18,18 +18,11 @@ func MapProjectionCreate(name SymbolicName, content ...interface{}) MapProjectio
 	if name.GetError() != nil {
 		return MapProjectionError(name.GetError())
 	}
-	newContent, err := createNewContent(content...)
+	newContent, err := createNewContent(nil, content...)
 	if err != nil {
 		return MapProjectionError(err)
 	}
-	mapProjection := MapProjection{
-		name:          name,
-		mapExpression: MapExpressionCreate(newContent),
-		notNil:        true,
-	}
-	mapProjection.key = getAddress(&mapProjection)
-	mapProjection.ExpressionContainer = ExpressionWrap(mapProjection)
-	return mapProjection
+	return MapProjectionCreateWithMapExpression(name, MapExpressionCreate(newContent))
 }
 
 func MapProjectionCreateWithMapExpression(name SymbolicName, mapExpression MapExpression) MapProjection {
@@ -86,7 +79,7 @@ func (m MapProjection) And(content ...interface{}) MapProjection {
 	if m.GetError() != nil {
 		return m
 	}
-	newContent, err := createNewContent(content...)
+	newContent, err := createNewContent(m.mapExpression.expressions, content...)
 	if err != nil {
 		return MapProjectionError(err)
 	}
@@ -106,9 +99,14 @@ func contentAt(content []interface{}, i int) interface{} {
 	return currentObject
 }
 
-func createNewContent(content ...interface{}) ([]Expression, error) {
+func createNewContent(existingContent []Expression, content ...interface{}) ([]Expression, error) {
 	newContent := make([]Expression, 0)
 	knownKeys := make(map[string]int)
+	for _, existingEntry := range existingContent {
+		if keyValueEntry, isKeyValueEntry := existingEntry.(KeyValueMapEntry); isKeyValueEntry {
+			knownKeys[keyValueEntry.entryKey] = 1
+		}
+	}
 	lastKey := ""
 	var lastExpression Expression
 	i := 0
@@ -136,6 +134,9 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 			i += 1
 		}
 
+		if lastExpression != nil && lastExpression.GetError() != nil {
+			return nil, lastExpression.GetError()
+		}
 		if _, isAsterisk := lastExpression.(Asterisk); isAsterisk {
 			lastExpression = PropertyLookupCreate("*")
 		}
diff --git a/node.go b/node.go
index 5dff2ce..e890b19 100644
--- a/node.go
+++ b/node.go
@@ -90,7 +90,11 @@ func NodeCreate4(newProperties MapExpression, node Node) Node {
 	if newProperties.GetError() != nil {
 		return NodeError(newProperties.GetError())
 	}
-	newNode := Node{symbolicName: node.symbolicName, labels: node.labels, notNil: true, properties: PropertiesCreate(newProperties)}
+	properties := Properties{}
+	if newProperties.isNotNil() {
+		properties = PropertiesCreate(newProperties)
+	}
+	newNode := Node{symbolicName: node.symbolicName, labels: node.labels, notNil: true, properties: properties}
 	newNode.injectKey()
 	return newNode
 }
diff --git a/property_lookup.go b/property_lookup.go
index 84d146b..73353b3 100644
--- a/property_lookup.go
+++ b/property_lookup.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type PropertyLookup struct {
 	ExpressionContainer
 	propertyKeyName string
@@ -9,8 +11,12 @@ type PropertyLookup struct {
 }
 
 func PropertyLookupCreate(name string) PropertyLookup {
+	if name == "" {
+		return PropertyLookup{err: errors.New("property name is required")}
+	}
 	property := PropertyLookup{
 		propertyKeyName: name,
+		notNil:          true,
 	}
 	property.key = getAddress(&property)
 	property.ExpressionContainer = ExpressionWrap(property)
-- 
2.43.0


From 812e0378c904964cd0964633ea9865d1aa3ca245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:36 +0000
Subject: [PATCH 36/52] fix: chained conditions keep their grouping, do not
 share their parts and report missing ones

---
 compound_condition.go | 106 +++++++++++++++++++++++++-----------------
 1 file changed, 64 insertions(+), 42 deletions(-)

diff --git a/compound_condition.go b/compound_condition.go
index 6d24572..bc2d94b 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -43,23 +43,11 @@ func CompoundConditionCreate(left Condition, operator Operator, right Condition)
 	if right == nil || !right.isNotNil() {
 		return CompoundConditionError(errors.New("right hand side condition is required"))
 	}
-	condition := CompoundCondition{operator: operator, notNil: true}
-	condition.add(operator, left)
-	condition.add(operator, right)
-	condition.injectKey()
-	condition.ConditionContainer = ConditionWrap(condition)
-	return condition
+	return CompoundConditionCreate1(operator).add(operator, left).add(operator, right)
 }
 
 func CompoundConditionCreate1(operator Operator) CompoundCondition {
-	condition := CompoundCondition{
-		operator:   operator,
-		conditions: make([]Condition, 0),
-		notNil:     true,
-	}
-	condition.injectKey()
-	condition.ConditionContainer = ConditionWrap(condition)
-	return condition
+	return compoundConditionOf(operator)
 }
 
 func CompoundConditionError(err error) CompoundCondition {
@@ -137,42 +125,76 @@ func (c *CompoundCondition) injectKey() {
 	c.key = getAddress(c)
 }
 
-var EMPTY_CONDITION = CompoundCondition{
-	conditions:    make([]Condition, 0),
-	conditionType: EMPTY_CONDITION_EXPRESSION,
-	notNil:        true,
+var EMPTY_CONDITION = emptyConditionCreate()
+
+func emptyConditionCreate() CompoundCondition {
+	condition := CompoundCondition{
+		conditions:    make([]Condition, 0),
+		conditionType: EMPTY_CONDITION_EXPRESSION,
+		notNil:        true,
+	}
+	condition.ConditionContainer = ConditionWrap(condition)
+	return condition
 }
 
 var VALID_OPERATORS = []Operator{AND, OR, XOR}
 
-func (c *CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
-	if c.GetExpressionType() == EMPTY_CONDITION_EXPRESSION {
-		newCompound := CompoundConditionCreate1(chainingOperator)
-		return newCompound.add(chainingOperator, condition)
+func (c CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
+	if c.GetError() != nil {
+		return c
 	}
-	if compoundCondition, isCompound := condition.(CompoundCondition); isCompound {
-		if !compoundCondition.hasCondition() {
-			return *c
-		}
-		if c.operator == chainingOperator && chainingOperator == compoundCondition.operator {
-			if compoundCondition.canBeFlattenedWith(chainingOperator) {
-				c.conditions = append(c.conditions, compoundCondition.conditions...)
-			} else {
-				c.conditions = append(c.conditions, compoundCondition)
-			}
-		} else {
-			inner := CompoundConditionCreate1(chainingOperator)
-			inner.conditions = append(inner.conditions, compoundCondition)
-			c.conditions = append(c.conditions, inner)
-		}
-		return *c
+	if condition == nil || (condition.GetError() == nil && !condition.isNotNil()) {
+		return CompoundConditionError(errors.New("condition to chain is required"))
+	}
+	if condition.GetError() != nil {
+		return CompoundConditionError(condition.GetError())
+	}
+	if !c.hasCondition() {
+		return compoundConditionOf(chainingOperator, operandsOf(chainingOperator, condition))
+	}
+	operands := operandsOf(chainingOperator, condition)
+	if len(operands) == 0 || c.operator == chainingOperator {
+		return compoundConditionOf(c.operator, c.conditions, operands)
+	}
+	compound, isCompound := condition.(CompoundCondition)
+	if isCompound && c.operator == AND && chainingOperator == OR && len(c.conditions) > 1 {
+		// AND binds stronger, there's no need to group the conditions so far
+		return compoundConditionOf(c.operator, c.conditions, []Condition{compoundConditionOf(chainingOperator, []Condition{compound})})
+	}
+	return compoundConditionOf(chainingOperator, operandsOf(chainingOperator, c), operands)
+}
+
+// compoundConditionOf creates a compound condition with conditions of its own, not shared with the given ones.
+func compoundConditionOf(operator Operator, conditions ...[]Condition) CompoundCondition {
+	compound := CompoundCondition{
+		operator:   operator,
+		conditions: make([]Condition, 0),
+		notNil:     true,
+	}
+	for _, part := range conditions {
+		compound.conditions = append(compound.conditions, part...)
 	}
+	compound.injectKey()
+	compound.ConditionContainer = ConditionWrap(compound)
+	return compound
+}
 
-	if c.operator == chainingOperator {
-		c.conditions = append(c.conditions, condition)
-		return *c
+// operandsOf returns the conditions to be chained with the operator to represent the condition.
+func operandsOf(operator Operator, condition Condition) []Condition {
+	compound, isCompound := condition.(CompoundCondition)
+	if !isCompound {
+		return []Condition{condition}
+	}
+	if !compound.hasCondition() {
+		return nil
+	}
+	if compound.operator != operator {
+		return []Condition{compoundConditionOf(operator, []Condition{compound})}
+	}
+	if compound.canBeFlattenedWith(operator) {
+		return compound.conditions
 	}
-	return CompoundConditionCreate(*c, chainingOperator, condition)
+	return []Condition{compound}
 }
 
 func (c CompoundCondition) hasCondition() bool {
-- 
2.43.0


From 5817f371a7a607652507283cffab7a7e18bda472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 37/52] fix: a list literal with an alias is rendered as its
 alias only

---
 list_literal.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/list_literal.go b/list_literal.go
index 6303a08..fbfa159 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -45,21 +45,14 @@ func (l ListLiteral) GetError() error {
 
 func (l ListLiteral) accept(visitor *CypherRenderer) {
 	visitor.enter(l)
-	for i, literal := range l.content {
-		if(i > 0) {
-			visitor.append(", ")
-		}
-		literal.accept(visitor)
-	}
 	visitor.leave(l)
 }
 
 func (l ListLiteral) enter(renderer *CypherRenderer) {
-	renderer.append("[")
+	renderer.append(l.AsString())
 }
 
 func (l ListLiteral) leave(renderer *CypherRenderer) {
-	renderer.append("]")
 }
 
 func (l ListLiteral) getKey() string {
-- 
2.43.0


From a3baca717418f0102d560bbcc6da47dd6ae2c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 38/52] fix: unions do not mix up the aliases of their parts,
 unresolved names are kept apart

---
 cypher_renderer.go | 11 ++++++++++-
 union_query.go     |  4 ++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index 9c8c7ca..0e55d50 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -3,6 +3,7 @@ package cypher
 import (
 	"github.com/rs/xid"
 	"golang.org/x/xerrors"
+	"strconv"
 	"strings"
 	"unicode"
 )
@@ -76,7 +77,7 @@ func (renderer *CypherRenderer) resolve(name SymbolicName) string {
 		if len(value) > 0 {
 			return escapeIdentifier(value)
 		}
-		return renderer.guid.String()
+		renderer.resolvedSymbolicNames[name] = renderer.guid.String() + "_" + strconv.Itoa(len(renderer.resolvedSymbolicNames))
 	}
 	return renderer.resolvedSymbolicNames[name]
 }
@@ -103,6 +104,14 @@ func (renderer *CypherRenderer) leave(visitable Visitable) {
 	}
 }
 
+func (renderer *CypherRenderer) copyAliases() map[string]AliasedExpression {
+	aliases := make(map[string]AliasedExpression, len(renderer.visitableToAliased))
+	for key, aliased := range renderer.visitableToAliased {
+		aliases[key] = aliased
+	}
+	return aliases
+}
+
 func (renderer *CypherRenderer) PreEnter(visitable *Visitable) bool {
 	lastAliased := peekAliased(renderer.currentAliasedElements)
 	visited := false
diff --git a/union_query.go b/union_query.go
index 862802e..d0a4bbe 100644
--- a/union_query.go
+++ b/union_query.go
@@ -66,8 +66,12 @@ func (q UnionQuery) GetError() error {
 
 func (q UnionQuery) accept(visitor *CypherRenderer) {
 	visitor.enter(q)
+	outerAliases := visitor.copyAliases()
 	q.firstQuery.accept(visitor)
 	for _, additionalQuery := range q.additionalQueries {
+		// the aliases of a part are not known to the other parts
+		visitor.visitableToAliased = outerAliases
+		outerAliases = visitor.copyAliases()
 		additionalQuery.accept(visitor)
 	}
 	visitor.leave(q)
-- 
2.43.0


From 4bc5cc808a84f61a9eb4ed1eabb52d8fd6fa71a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 39/52] fix: group powers and conditions that are operands of
 stronger binding operators

---
 comparison.go    | 17 ++++++++++++++---
 list_operator.go |  5 +----
 operation.go     |  8 ++++++++
 property.go      |  5 ++++-
 4 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/comparison.go b/comparison.go
index f091015..0cdbea9 100644
--- a/comparison.go
+++ b/comparison.go
@@ -34,9 +34,9 @@ func ComparisonCreate(left Expression, operator Operator, right Expression) Comp
 		return ComparisonError(errors.New("right expression must be not nil"))
 	}
 	comparison := Comparison{
-		left:     nestedIfCondition(left),
+		left:     nestedComparisonOperand(operator, left),
 		operator: operator,
-		right:    nestedIfCondition(right),
+		right:    nestedComparisonOperand(operator, right),
 		notNil:   true,
 	}
 	comparison.key = getAddress(&comparison)
@@ -67,7 +67,7 @@ func ComparisonCreate1(operator Operator, expression Expression) Comparison {
 		}
 	case POSTFIX:
 		comparison = Comparison{
-			left:     nestedIfCondition(expression),
+			left:     nestedComparisonOperand(operator, expression),
 			operator: operator,
 			right:    nil,
 		}
@@ -124,6 +124,17 @@ func (c Comparison) getConditionType() string {
 	return "Comparison"
 }
 
+// nestedComparisonOperand nests powers too where the operator binds stronger than the power does.
+func nestedComparisonOperand(operator Operator, operand Expression) Expression {
+	switch operator {
+	case MATCHES, IN, STARTS_WITH, ENDS_WITH, CONTAINS, IS_NULL, IS_NOT_NULL:
+		if _, isCondition := operand.(Condition); !isCondition {
+			return nestedTarget(operand)
+		}
+	}
+	return nestedIfCondition(operand)
+}
+
 func nestedIfCondition(expression Expression) Expression {
 	_, isCondition := expression.(Condition)
 	if isCondition {
diff --git a/list_operator.go b/list_operator.go
index 0339afc..3dad103 100644
--- a/list_operator.go
+++ b/list_operator.go
@@ -12,11 +12,8 @@ type ListOperator struct {
 }
 
 func listOperatorCreate(targetExpression Expression, optionalStart Expression, dots Dot, optionalEnd Expression) ListOperator {
-	if operation, isOperation := targetExpression.(Operation); isOperation && !operation.needsGrouping() {
-		targetExpression = NestedExpressionCreate(targetExpression)
-	}
 	operator := ListOperator{
-		targetExpression: nestedOperand(targetExpression),
+		targetExpression: nestedTarget(targetExpression),
 		details:          ListOperatorDetailsCreate(optionalStart, dots, optionalEnd),
 		notNil:           true,
 	}
diff --git a/operation.go b/operation.go
index b7f280c..d20fdde 100644
--- a/operation.go
+++ b/operation.go
@@ -56,6 +56,14 @@ func nestedOperand(operand Expression) Expression {
 	return nestedIfCondition(operand)
 }
 
+// nestedTarget nests whatever binds weaker than an operator applied to the target.
+func nestedTarget(target Expression) Expression {
+	if operation, isOperation := target.(Operation); isOperation && !operation.needsGrouping() {
+		return NestedExpressionCreate(target)
+	}
+	return nestedOperand(target)
+}
+
 func OperationCreate1(left Expression, operator Operator, right NodeLabel) Operation {
 	if left != nil && left.GetError() != nil {
 		return OperationError(left.GetError())
diff --git a/property.go b/property.go
index 735bdae..08e95fa 100644
--- a/property.go
+++ b/property.go
@@ -48,8 +48,11 @@ func PropertyCreate1(container Expression, name PropertyLookup) Property {
 	if name.GetError() != nil {
 		return PropertyError(name.GetError())
 	}
+	if container == nil {
+		return PropertyError(errors.New("container is nil"))
+	}
 	property := Property{
-		container: container,
+		container: nestedTarget(container),
 		name:      name,
 		notNil:    true,
 	}
-- 
2.43.0


From fa68ca117453332a5597c4a2d99b70e1fe27b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 40/52] fix: SET takes operations as values and keeps the order
 of its items

---
 default_statement_builder.go | 8 ++++----
 operation.go                 | 5 +++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index bf84a43..5170405 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -718,18 +718,18 @@ func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, err
 	propertyOperations := make([]Expression, 0)
 	listOfExpressions := make([]Expression, 0)
 	for _, possibleSetOperation := range possibleSetOperations {
-		if operation, isOperation := possibleSetOperation.(Operation); isOperation {
+		if operation, isOperation := possibleSetOperation.(Operation); isOperation && operation.isUpdate() {
 			propertyOperations = append(propertyOperations, operation)
 		} else {
 			listOfExpressions = append(listOfExpressions, possibleSetOperation)
+			if length := len(listOfExpressions); length%2 == 0 {
+				propertyOperations = append(propertyOperations, OperationSet(listOfExpressions[length-2], listOfExpressions[length-1]))
+			}
 		}
 	}
 	if len(listOfExpressions)%2 != 0 {
 		return nil, xerrors.New("the list of expression to OperationSet must be even")
 	}
-	for i := 0; i < len(listOfExpressions); i += 2 {
-		propertyOperations = append(propertyOperations, OperationSet(listOfExpressions[i], listOfExpressions[i+1]))
-	}
 	return propertyOperations, nil
 }
 
diff --git a/operation.go b/operation.go
index d20fdde..7a43297 100644
--- a/operation.go
+++ b/operation.go
@@ -132,6 +132,11 @@ func OperationCreate2(op1 Node, operator Operator, nodeLabels ...string) Operati
 	return o
 }
 
+// isUpdate tells whether this operation is a complete item of a SET or REMOVE clause.
+func (o Operation) isUpdate() bool {
+	return o.operator.operatorType == PROPERTY || o.operator.operatorType == LABEL
+}
+
 func OperationError(err error) Operation {
 	return Operation{err: err}
 }
-- 
2.43.0


From fa2e93776cb06cb6c19fd5c132aec7c8738872e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:37 +0000
Subject: [PATCH 41/52] fix: AsString of an erroneous number literal does not
 panic

---
 number_literal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/number_literal.go b/number_literal.go
index 6673f53..f95204e 100644
--- a/number_literal.go
+++ b/number_literal.go
@@ -80,6 +80,9 @@ func (n NumberLiteral) GetContent() interface{} {
 }
 
 func (n NumberLiteral) AsString() string {
+	if n.content == nil {
+		return ""
+	}
 	if !n.isFloat {
 		return n.content.Text('f', 0)
 	}
-- 
2.43.0


From 23e1ec98264d09e55b78523a5eaec45c1753fac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:37 +0000
Subject: [PATCH 42/52] fix: shortest paths and named paths report a missing
 algorithm or pattern

---
 name_path.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/name_path.go b/name_path.go
index 925fbf6..ab0805a 100644
--- a/name_path.go
+++ b/name_path.go
@@ -14,12 +14,12 @@ func NamedPathCreate(name SymbolicName, pattern RelationshipPattern) NamedPath {
 	if name.GetError() != nil {
 		return NamedPathError(name.GetError())
 	}
-	if pattern == nil {
-		return NamedPathError(errors.New("the pattern of a path is required"))
-	}
-	if pattern.GetError() != nil {
+	if pattern != nil && pattern.GetError() != nil {
 		return NamedPathError(pattern.GetError())
 	}
+	if pattern == nil || !pattern.isNotNil() {
+		return NamedPathError(errors.New("the pattern of a path is required"))
+	}
 	n := NamedPath{name: name, pattern: pattern, notNil: true}
 	n.key = getAddress(&n)
 	return n
@@ -32,6 +32,9 @@ func NamedPathCreate1(name SymbolicName, algorithm FunctionInvocation) NamedPath
 	if algorithm.GetError() != nil {
 		return NamedPathError(algorithm.GetError())
 	}
+	if !algorithm.isNotNil() {
+		return NamedPathError(errors.New("the algorithm of a path is required"))
+	}
 	n := NamedPath{name: name, pattern: algorithm, notNil: true}
 	n.key = getAddress(&n)
 	return n
@@ -175,6 +178,9 @@ func (s ShortestPathBuilder) DefinedBy(relationship Relationship) NamedPath {
 	if relationship.err != nil {
 		return NamedPathError(relationship.err)
 	}
+	if s.algorithm == nil {
+		return NamedPathError(errors.New("the algorithm of a shortest path is required"))
+	}
 	return NamedPathCreate1(s.name, FunctionInvocationCreateWithPatternElement(s.algorithm, relationship))
 }
 
-- 
2.43.0


From 8d7f5db48c056e43de11e893fbc6cd4eafc809ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:37 +0000
Subject: [PATCH 43/52] fix: MATCH, CREATE and MERGE report missing pattern
 elements instead of panicking when rendered

---
 pattern.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pattern.go b/pattern.go
index dcc9396..bbf93c2 100644
--- a/pattern.go
+++ b/pattern.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Pattern struct {
 	patternElements []PatternElement
 	key             string
@@ -12,6 +14,9 @@ func PatternCreate(patternElements []PatternElement) Pattern {
 		if element != nil && element.GetError() != nil {
 			return Pattern{err: element.GetError()}
 		}
+		if element == nil || !element.isNotNil() {
+			return Pattern{err: errors.New("pattern: the elements of a pattern are required")}
+		}
 	}
 	p := Pattern{
 		patternElements: patternElements,
-- 
2.43.0


From 83fb170ee8e6167391d273eb91e37d4c4591177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:37 +0000
Subject: [PATCH 44/52] fix: report nil and empty parts of lists, maps,
 arguments, comprehensions, conditions, properties and sort items instead of
 panicking when rendered

---
 arguments.go                      | 8 ++++----
 distinct_expression.go            | 8 ++++----
 entry_expression.go               | 8 ++++----
 excluded_pattern.go               | 8 ++++----
 expression_list.go                | 8 ++++----
 key_value_map_entry.go            | 8 ++++----
 list_comprehension.go             | 9 ++++++---
 list_expression.go                | 2 +-
 list_literal.go                   | 8 ++++----
 map_expression.go                 | 8 ++++----
 order.go                          | 5 +++++
 pattern_comprehension.go          | 3 +++
 property.go                       | 4 ++--
 relationship_pattern_condition.go | 8 ++++----
 yield_items.go                    | 8 ++++----
 15 files changed, 57 insertions(+), 46 deletions(-)

diff --git a/arguments.go b/arguments.go
index 16249d3..dad7156 100644
--- a/arguments.go
+++ b/arguments.go
@@ -11,12 +11,12 @@ type Arguments struct {
 
 func ArgumentsCreate(expression []Expression) Arguments {
 	for _, expr := range expression {
-		if expr == nil {
-			return Arguments{err: errors.New("arguments: the expressions must be not nil")}
-		}
-		if expr.GetError() != nil {
+		if expr != nil && expr.GetError() != nil {
 			return Arguments{err: expr.GetError()}
 		}
+		if expr == nil || !expr.isNotNil() {
+			return Arguments{err: errors.New("arguments: the expressions must be not nil")}
+		}
 	}
 	a := Arguments{
 		expressions: expression,
diff --git a/distinct_expression.go b/distinct_expression.go
index 84022f8..ad7e488 100644
--- a/distinct_expression.go
+++ b/distinct_expression.go
@@ -11,12 +11,12 @@ type DistinctExpression struct {
 }
 
 func DistinctExpressionCreate(delegate Expression) DistinctExpression {
-	if delegate == nil {
-		return DistinctExpressionError(errors.New("the expression to make distinct is required"))
-	}
-	if delegate.GetError() != nil {
+	if delegate != nil && delegate.GetError() != nil {
 		return DistinctExpressionError(delegate.GetError())
 	}
+	if delegate == nil || !delegate.isNotNil() {
+		return DistinctExpressionError(errors.New("the expression to make distinct is required"))
+	}
 	d := DistinctExpression{
 		delegate: delegate,
 		notNil:   true,
diff --git a/entry_expression.go b/entry_expression.go
index 77046f1..c8327ca 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -12,14 +12,14 @@ type EntryExpression struct {
 }
 
 func EntryExpressionCreate(key string, value Expression) EntryExpression {
-	if value == nil {
-		return EntryExpression{err: errors.New("the value of a map entry is required")}
-	}
-	if value.GetError() != nil {
+	if value != nil && value.GetError() != nil {
 		return EntryExpression{
 			err: value.GetError(),
 		}
 	}
+	if value == nil || !value.isNotNil() {
+		return EntryExpression{err: errors.New("the value of a map entry is required")}
+	}
 	e := EntryExpression{
 		Value:  value,
 		Key:    key,
diff --git a/excluded_pattern.go b/excluded_pattern.go
index de63d70..aef3646 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -11,12 +11,12 @@ type ExcludedPattern struct {
 }
 
 func ExcludedPatternCreate(patternElement PatternElement) ExcludedPattern {
-	if patternElement == nil {
-		return ExcludedPatternError(errors.New("the pattern to exclude is required"))
-	}
-	if patternElement.GetError() != nil {
+	if patternElement != nil && patternElement.GetError() != nil {
 		return ExcludedPatternError(patternElement.GetError())
 	}
+	if patternElement == nil || !patternElement.isNotNil() {
+		return ExcludedPatternError(errors.New("the pattern to exclude is required"))
+	}
 	e := ExcludedPattern{
 		patternElement: patternElement,
 		notNil:         true,
diff --git a/expression_list.go b/expression_list.go
index abda41b..15b7db8 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -12,12 +12,12 @@ type ExpressionList struct {
 
 func ExpressionListCreate(expressions []Expression) ExpressionList {
 	for _, expression := range expressions {
-		if expression == nil {
-			return ExpressionListError(errors.New("expression list: the expressions must be not nil"))
-		}
-		if expression.GetError() != nil {
+		if expression != nil && expression.GetError() != nil {
 			return ExpressionListError(expression.GetError())
 		}
+		if expression == nil || !expression.isNotNil() {
+			return ExpressionListError(errors.New("expression list: the expressions must be not nil"))
+		}
 	}
 	e := ExpressionList{
 		expressions: expressions,
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index 890e3f2..140703d 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -12,12 +12,12 @@ type KeyValueMapEntry struct {
 }
 
 func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
-	if value == nil {
-		return KeyValueMapEntryError(errors.New("the value of a map entry is required"))
-	}
-	if value.GetError() != nil {
+	if value != nil && value.GetError() != nil {
 		return KeyValueMapEntryError(value.GetError())
 	}
+	if value == nil || !value.isNotNil() {
+		return KeyValueMapEntryError(errors.New("the value of a map entry is required"))
+	}
 	entry := KeyValueMapEntry{
 		entryKey: key,
 		value:    value,
diff --git a/list_comprehension.go b/list_comprehension.go
index de1941f..ae649ce 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -17,14 +17,17 @@ func ListComprehensionCreate(variable SymbolicName, listExpression Expression, w
 	if variable.GetError() != nil {
 		return ListComprehensionError(variable.GetError())
 	}
-	if listExpression == nil {
-		return ListComprehensionError(errors.New("list comprehension: a list is required"))
-	}
 	for _, part := range []CanHasError{listExpression, where, listDefinition} {
 		if part != nil && part.GetError() != nil {
 			return ListComprehensionError(part.GetError())
 		}
 	}
+	if listExpression == nil || !listExpression.isNotNil() {
+		return ListComprehensionError(errors.New("list comprehension: a list is required"))
+	}
+	if listDefinition != nil && !listDefinition.isNotNil() {
+		return ListComprehensionError(errors.New("list comprehension: the definition of the list must be not nil"))
+	}
 	list := ListComprehension{
 		variable:       variable,
 		listExpression: listExpression,
diff --git a/list_expression.go b/list_expression.go
index 5402e9f..eb57642 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -38,7 +38,7 @@ func ListOrSingleExpression(expressions ...Expression) Expression {
 		return ListExpressionError(errors.New("expressions are required"))
 	}
 	if len(expressions) == 1 {
-		if expressions[0] == nil {
+		if expressions[0] == nil || (expressions[0].GetError() == nil && !expressions[0].isNotNil()) {
 			return ListExpressionError(errors.New("expression is required"))
 		}
 		return expressions[0]
diff --git a/list_literal.go b/list_literal.go
index fbfa159..7a88178 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -15,12 +15,12 @@ type ListLiteral struct {
 
 func ListLiteralCreate(contents []Literal) ListLiteral {
 	for _, content := range contents {
-		if content == nil {
-			return ListLiteralError(errors.New("list literal: the elements must be not nil"))
-		}
-		if content.GetError() != nil {
+		if content != nil && content.GetError() != nil {
 			return ListLiteralError(content.GetError())
 		}
+		if content == nil || !content.isNotNil() {
+			return ListLiteralError(errors.New("list literal: the elements must be not nil"))
+		}
 	}
 	list := ListLiteral{
 		content: contents,
diff --git a/map_expression.go b/map_expression.go
index af42bf0..757e523 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -14,12 +14,12 @@ type MapExpression struct {
 
 func MapExpressionCreate(newContents []Expression) MapExpression {
 	for _, content := range newContents {
-		if content == nil {
-			return MapExpressionError(errors.New("a map entry is required"))
-		}
-		if content.GetError() != nil {
+		if content != nil && content.GetError() != nil {
 			return MapExpressionError(content.GetError())
 		}
+		if content == nil || !content.isNotNil() {
+			return MapExpressionError(errors.New("a map entry is required"))
+		}
 	}
 	m := MapExpression{
 		expressions: newContents,
diff --git a/order.go b/order.go
index 19cc6ea..c3fe709 100644
--- a/order.go
+++ b/order.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Order struct {
 	sortItems []SortItem
 	key       string
@@ -12,6 +14,9 @@ func OrderCreate(sortItems []SortItem) Order {
 		if item.GetError() != nil {
 			return Order{err: item.GetError()}
 		}
+		if !item.isNotNil() {
+			return Order{err: errors.New("order: the sort items must be not nil")}
+		}
 	}
 	o := Order{sortItems: sortItems, notNil: true}
 	o.key = getAddress(&o)
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index d282eac..a68e4d0 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -24,6 +24,9 @@ func PatternComprehensionCreate(pattern PatternElement, where Where, listDefinit
 			return PatternComprehensionError(part.GetError())
 		}
 	}
+	if !pattern.isNotNil() || !listDefinition.isNotNil() {
+		return PatternComprehensionError(errors.New("pattern comprehension: a pattern and a list definition are required"))
+	}
 	patternComprehension := PatternComprehension{
 		pattern:        pattern,
 		where:          where,
diff --git a/property.go b/property.go
index 08e95fa..e7a4a8e 100644
--- a/property.go
+++ b/property.go
@@ -32,7 +32,7 @@ func PropertyCreate2(container Expression, name string) Property {
 	if container != nil && container.GetError() != nil {
 		return PropertyError(container.GetError())
 	}
-	if container == nil {
+	if container == nil || !container.isNotNil() {
 		return PropertyError(errors.New("container is nil"))
 	}
 	if name == "" {
@@ -48,7 +48,7 @@ func PropertyCreate1(container Expression, name PropertyLookup) Property {
 	if name.GetError() != nil {
 		return PropertyError(name.GetError())
 	}
-	if container == nil {
+	if container == nil || !container.isNotNil() {
 		return PropertyError(errors.New("container is nil"))
 	}
 	property := Property{
diff --git a/relationship_pattern_condition.go b/relationship_pattern_condition.go
index 835df40..7a3771e 100644
--- a/relationship_pattern_condition.go
+++ b/relationship_pattern_condition.go
@@ -11,12 +11,12 @@ type RelationshipPatternCondition struct {
 }
 
 func RelationshipPatternConditionCreate(pathPattern RelationshipPattern) RelationshipPatternCondition {
-	if pathPattern == nil {
-		return RelationshipPatternConditionError(errors.New("the relationship pattern is required"))
-	}
-	if pathPattern.GetError() != nil {
+	if pathPattern != nil && pathPattern.GetError() != nil {
 		return RelationshipPatternConditionError(pathPattern.GetError())
 	}
+	if pathPattern == nil || !pathPattern.isNotNil() {
+		return RelationshipPatternConditionError(errors.New("the relationship pattern is required"))
+	}
 	r := RelationshipPatternCondition{
 		pathPattern: pathPattern,
 		notNil:      true,
diff --git a/yield_items.go b/yield_items.go
index 98af167..db89198 100644
--- a/yield_items.go
+++ b/yield_items.go
@@ -14,12 +14,12 @@ func YieldItemsCreate(expressions []Expression) YieldItems {
 		return YieldItemsError(errors.New("can not yield an empty list of items"))
 	}
 	for _, expression := range expressions {
-		if expression == nil {
-			return YieldItemsError(errors.New("can not yield a nil item"))
-		}
-		if expression.GetError() != nil {
+		if expression != nil && expression.GetError() != nil {
 			return YieldItemsError(expression.GetError())
 		}
+		if expression == nil || !expression.isNotNil() {
+			return YieldItemsError(errors.New("can not yield a nil item"))
+		}
 	}
 	yieldItem := YieldItems{
 		expressions: expressions,
-- 
2.43.0


From 2834e66a5b88929e64d5894932a3e1058fc90304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:18 +0000
Subject: [PATCH 45/52] fix: WHEN without a CASE to extend is reported instead
 of panicking

---
 case.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/case.go b/case.go
index d066ac0..182c7b3 100644
--- a/case.go
+++ b/case.go
@@ -209,6 +209,9 @@ type OngoingWhenThen struct {
 }
 
 func OngoingWhenThenCreate(caseInstance *Case, whenExpression Expression) OngoingWhenThen {
+	if caseInstance == nil {
+		return OngoingWhenThen{err: errors.New("case: the case to extend is required")}
+	}
 	if caseInstance.GetError() != nil {
 		return OngoingWhenThen{err: caseInstance.GetError()}
 	}
-- 
2.43.0


From 346a82c8f1491ddb071af56e960e6fe3a8b706e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:18 +0000
Subject: [PATCH 46/52] fix: list predicates report a missing list

---
 list_predicate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/list_predicate.go b/list_predicate.go
index 2eb960c..f730427 100644
--- a/list_predicate.go
+++ b/list_predicate.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ListPredicate struct {
 	ExpressionContainer
 	variable       SymbolicName
@@ -20,6 +22,9 @@ func ListPredicateCreate(variable SymbolicName, listExpression Expression, where
 	if where.GetError() != nil {
 		return ListPredicateError(where.GetError())
 	}
+	if listExpression == nil || !listExpression.isNotNil() {
+		return ListPredicateError(errors.New("list predicate: a list is required"))
+	}
 	listPredicate := ListPredicate{
 		variable:       variable,
 		listExpression: listExpression,
-- 
2.43.0


From b5e23f3f590c8e7024e8b4a75faea8bd586ab23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 47/52] fix: a list comprehension requires a variable

---
 cypher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cypher.go b/cypher.go
index fdeecae..2fdec8e 100644
--- a/cypher.go
+++ b/cypher.go
@@ -392,7 +392,7 @@ func ListBasedOnNamed(namedPath NamedPath) PatternComprehensionOngoingDefinition
  * @since 1.0.1
  */
 func CypherListWith(variable SymbolicName) OngoingDefinitionWithVariable {
-	return ListComprehensionBuilderCreate(variable)
+	return ListComprehensionWith(variable)
 }
 
 /**
-- 
2.43.0


From c5b02728435dcad18320d3cff670ad33328a9e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:43 +0000
Subject: [PATCH 48/52] fix: lists of arguments are copied

---
 in_query_call_builder.go | 2 +-
 list_expression.go       | 2 +-
 list_literal.go          | 2 +-
 procedure_call.go        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 34be230..4a02c73 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -89,7 +89,7 @@ func (i InQueryCallBuilder) Build() (Statement, error) {
 }
 
 func (i InQueryCallBuilder) WithArgs(arguments ...Expression) OngoingInQueryCallWithArguments {
-	i.arguments = arguments
+	i.arguments = append(arguments[:0:0], arguments...)
 	return i
 }
 
diff --git a/list_expression.go b/list_expression.go
index eb57642..cad326f 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -24,7 +24,7 @@ func ListExpressionCreate(content ExpressionList) ListExpression {
 }
 
 func ListExpressionCreate1(expressions ...Expression) ListExpression {
-	return ListExpressionCreate(ExpressionListCreate(expressions))
+	return ListExpressionCreate(NewExpressionList(expressions...))
 }
 
 func ListExpressionError(err error) ListExpression {
diff --git a/list_literal.go b/list_literal.go
index 7a88178..71ef288 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -23,7 +23,7 @@ func ListLiteralCreate(contents []Literal) ListLiteral {
 		}
 	}
 	list := ListLiteral{
-		content: contents,
+		content: append(contents[:0:0], contents...),
 		notNil:  true,
 	}
 	list.key = getAddress(&list)
diff --git a/procedure_call.go b/procedure_call.go
index 4ff011b..6a26594 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -239,7 +239,7 @@ func (s StandaloneCallBuilder) AsFunction() Expression {
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
-	s.arguments = arguments
+	s.arguments = append(arguments[:0:0], arguments...)
 	return s
 }
 
-- 
2.43.0


From 1ece022877cfd53d760657569e2f42f470edf3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 49/52] fix: items added to a projection are not shared with
 others

---
 default_statement_with_return_builder.go | 3 ++-
 default_statement_with_update.go         | 6 ++++--
 default_statement_with_with_builder.go   | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/default_statement_with_return_builder.go b/default_statement_with_return_builder.go
index fbdf2a9..f60b993 100644
--- a/default_statement_with_return_builder.go
+++ b/default_statement_with_return_builder.go
@@ -13,7 +13,8 @@ func DefaultStatementWithReturnBuilderError(err error) DefaultStatementWithRetur
 }
 
 func (d *DefaultStatementWithReturnBuilder) AddExpression(expression ...Expression) {
-	d.returnList = append(d.returnList, expression...)
+	length := len(d.returnList)
+	d.returnList = append(d.returnList[:length:length], expression...)
 }
 
 func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 90d509c..848acbd 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -138,7 +138,8 @@ func (d DefaultStatementWithUpdateBuilder) ReturningByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	d.returnList = append(d.returnList, expression...)
+	length := len(d.returnList)
+	d.returnList = append(d.returnList[:length:length], expression...)
 	return d
 }
 
@@ -151,7 +152,8 @@ func (d DefaultStatementWithUpdateBuilder) ReturningDistinctByNamed(variables ..
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	d.returnList = append(d.returnList, expression...)
+	length := len(d.returnList)
+	d.returnList = append(d.returnList[:length:length], expression...)
 	d.distinct = true
 	return d
 }
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index e729c90..d83785e 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -57,7 +57,8 @@ func (d DefaultStatementWithWithBuilder) closed() DefaultStatementBuilder {
 }
 
 func (d *DefaultStatementWithWithBuilder) addExpression(expressions ...Expression) {
-	d.returnList = append(d.returnList, expressions...)
+	length := len(d.returnList)
+	d.returnList = append(d.returnList[:length:length], expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Skip(number int) ExposesLimitAndOngoingReadingAndWith {
-- 
2.43.0


From 3811c8252b0e0e156517b0446ad5cf7283d4459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:47 +0000
Subject: [PATCH 50/52] fix: an expression with an alias can get another one

The second alias was written alone, without the expression, as if it had been introduced before.
---
 alias_expression.go | 11 +++++++++--
 cypher_renderer.go  | 16 +++++++++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index 4758432..879bb51 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -72,18 +72,25 @@ func (aliased AliasedExpression) getKey() string {
 }
 
 func (aliased AliasedExpression) enter(renderer *CypherRenderer) {
-	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; visited {
+	if renderer.isIntroduced(aliased) {
+		// it is this alias that is in scope, whatever other aliases the expression has
+		renderer.visitableToAliased[aliased.delegate.getKey()] = aliased
 		renderer.append(escapeIdentifier(aliased.alias))
 	}
 }
 
 func (aliased AliasedExpression) leave(renderer *CypherRenderer) {
-	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; !visited {
+	if !renderer.isIntroduced(aliased) {
 		renderer.append(" AS ")
 		renderer.append(escapeIdentifier(aliased.alias))
 	}
 }
 
+// introduction is the key under which the renderer remembers that the expression was written out with this alias.
+func (aliased AliasedExpression) introduction() string {
+	return aliased.delegate.getKey() + " AS " + aliased.alias
+}
+
 func (aliased AliasedExpression) GetAlias() string {
 	return aliased.alias
 }
diff --git a/cypher_renderer.go b/cypher_renderer.go
index 0e55d50..2926b68 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -97,11 +97,17 @@ func (renderer *CypherRenderer) leave(visitable Visitable) {
 		used.leave(renderer)
 		renderer.postLeave(used)
 		renderer.currentVisitedElements = pop(renderer.currentVisitedElements)
+		if aliasedExpression, isAliased := (visitable).(AliasedExpression); isAliased {
+			renderer.visitableToAliased[aliasedExpression.delegate.getKey()] = aliasedExpression
+			renderer.visitableToAliased[aliasedExpression.introduction()] = aliasedExpression
+		}
 	}
-	aliasedExpression, isAliased := (visitable).(AliasedExpression)
-	if isAliased {
-		renderer.visitableToAliased[aliasedExpression.delegate.getKey()] = aliasedExpression
-	}
+}
+
+// isIntroduced tells whether the expression has been written out with this very alias before.
+func (renderer *CypherRenderer) isIntroduced(aliased AliasedExpression) bool {
+	_, introduced := renderer.visitableToAliased[aliased.introduction()]
+	return introduced
 }
 
 func (renderer *CypherRenderer) copyAliases() map[string]AliasedExpression {
@@ -116,7 +122,7 @@ func (renderer *CypherRenderer) PreEnter(visitable *Visitable) bool {
 	lastAliased := peekAliased(renderer.currentAliasedElements)
 	visited := false
 	if lastAliased != nil {
-		_, visited = renderer.visitableToAliased[lastAliased.delegate.getKey()]
+		visited = renderer.isIntroduced(*lastAliased)
 	}
 	if renderer.skipNodeContent || visited {
 		return false
-- 
2.43.0


From 4e994b344a4d7d13fe9d9285ac66f3f00f8a16dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:48 +0000
Subject: [PATCH 51/52] fix: aliasing an aliased expression replaces the alias

Two aliases were written after each other, which is no Cypher.
---
 alias_expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/alias_expression.go b/alias_expression.go
index 879bb51..ff4959f 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -23,6 +23,10 @@ func AliasedExpressionCreate(delegate Expression, alias string) AliasedExpressio
 	if alias == "" {
 		return AliasedExpressionError(errors.New("the alias may not be empty"))
 	}
+	if aliased, isAliased := delegate.(AliasedExpression); isAliased {
+		// the new alias replaces the one the expression had
+		delegate = aliased.delegate
+	}
 	a := AliasedExpression{
 		delegate: delegate,
 		alias:    alias,
-- 
2.43.0


From 4f9e69b3602a76af98569ba5c8687272d031afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:33 +0000
Subject: [PATCH 52/52] fix: a condition of a single part is found by its alias

A compound condition with one condition only was not visited itself, so that
later mentions of an aliased one were written in full instead of by its alias.
---
 compound_condition.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/compound_condition.go b/compound_condition.go
index bc2d94b..9ee4a7e 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -72,33 +72,36 @@ func (c CompoundCondition) accept(visitor *CypherRenderer) {
 	if len(c.conditions) == 0 {
 		return
 	}
-	hasManyConditions := len(c.conditions) > 1
-	if hasManyConditions {
-		visitor.enter(c)
-	}
+	visitor.enter(c)
 	acceptVisitorWithOperatorForChildCondition(visitor, Operator{}, c.conditions[0])
 
-	if hasManyConditions {
-		for _, condition := range c.conditions[1:] {
-			var actualOperator Operator
-			compound, isCompound := condition.(CompoundCondition)
-			if isCompound {
-				actualOperator = compound.operator
-			} else {
-				actualOperator = c.operator
-			}
-			acceptVisitorWithOperatorForChildCondition(visitor, actualOperator, condition)
+	for _, condition := range c.conditions[1:] {
+		var actualOperator Operator
+		compound, isCompound := condition.(CompoundCondition)
+		if isCompound {
+			actualOperator = compound.operator
+		} else {
+			actualOperator = c.operator
 		}
-		visitor.leave(c)
+		acceptVisitorWithOperatorForChildCondition(visitor, actualOperator, condition)
 	}
+	visitor.leave(c)
 }
 
 func (c CompoundCondition) enter(renderer *CypherRenderer) {
-	renderer.append("(")
+	if c.hasManyConditions() {
+		renderer.append("(")
+	}
 }
 
 func (c CompoundCondition) leave(renderer *CypherRenderer) {
-	renderer.append(")")
+	if c.hasManyConditions() {
+		renderer.append(")")
+	}
+}
+
+func (c CompoundCondition) hasManyConditions() bool {
+	return len(c.conditions) > 1
 }
 
 func (c CompoundCondition) getKey() string {
-- 
2.43.0

