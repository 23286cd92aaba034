#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": None}
    if observe: a["observe_at"] = [observe]
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "A rendered statement has exactly the clauses that were built, in that order",
  "For every sequence of clause calls the fluent builders accept (MATCH, OPTIONAL MATCH, WHERE, CREATE, MERGE, SET, REMOVE, DELETE, UNWIND, CALL, subqueries, WITH, RETURN, UNION), Build and Render succeed and the text consists of exactly those clauses, each with exactly the patterns, expressions, conditions and modifiers it was given, in the order of the calls. No clause is lost, repeated, moved, merged with another one or attributed to another clause.",
  ["programs", "histories"], "all sequences of builder calls that the API admits, with any operands",
  "The tests render a few dozen fixed statements; what is lost or moved depends on the combination of clauses and on the path through the builder states, of which there are unboundedly many.",
  ["default_statement_builder.go", "default_statement_with_update.go", "default_statement_with_with_builder.go", "default_statement_with_return_builder.go", "single_part_query.go", "multi_part_query.go", "multipart_element.go", "match_builder.go"],
  [("collecting the clauses of a query part", "default_statement_builder.go: addSinglePartElement, closeCurrentOngoing"), ("splitting at WITH", "multi_part_query.go, multipart_element.go"), ("traversal order", "cypher_renderer.go: enter/leave")],
  "the text returned by Renderer.Render")

p("C02", "Every statement that renders without error is well-formed Cypher",
  "Whenever Build and Render report no error, the text is accepted by the grammar of Cypher: balanced parentheses, brackets, braces and quotes, separators between items, operators with all operands, and clauses in an order the grammar knows. This holds for all nestings of expressions, conditions, patterns and subqueries and for unusual names and texts.",
  ["programs", "inputs"], "all statements over all constructs of the API, nested to any depth, with any names, texts and numbers",
  "The tests compare some fixed strings; separators, parentheses and braces depend on the nesting and on the state the renderer is in.",
  ["cypher_renderer.go", "arguments.go", "expression_list.go", "list_expression.go", "map_expression.go", "relationship_details.go", "return_body.go", "pattern.go"],
  [("separators per nesting level", "cypher_renderer.go: PreEnter, postLeave, separatorOnLevel"), ("opening and closing text", "enter and leave of every element")],
  "the text returned by Renderer.Render")

p("C03", "Names are quoted so that they read back as exactly the given name",
  "Every label, relationship type, variable, property key, map key, alias, parameter name and part of a procedure name appears in the text as an identifier, quoted with backticks (backticks in it doubled) whenever it is not a plain identifier, so that a Cypher lexer reads back exactly the name that was given. No name, whatever characters it has (spaces, backticks, quotes, comments, clauses, any Unicode), can change the structure of the statement.",
  ["inputs"], "all non-empty names over Unicode without NUL, at every place of the API that takes a name",
  "The tests use plain names; injection needs a specific combination of a place and a character.",
  ["cypher_renderer.go", "symbolic_name.go", "node_labels.go", "relationship_type.go", "property_lookup.go", "key_value_map_entry.go", "parameter.go", "alias_expression.go", "procedure_name.go"],
  [("EscapeIfNecessary, escapeIdentifier, escapeDottedName", "cypher_renderer.go"), ("labels and types always quoted", "node_labels.go, relationship_type.go"), ("parameter names", "parameter.go")],
  "tokens of the rendered text")

p("C04", "String literals denote exactly the given text",
  "A Go string passed as a literal, wherever it is accepted (literals, maps, lists, properties, patterns of =~, temporal values), appears in the text as one string token that denotes exactly the same sequence of characters. Quotes, backslashes and control characters in it never end the token and are never doubled or dropped.",
  ["inputs"], "all Go strings (valid UTF-8), through every entry point that takes text",
  "The tests have a handful of strings; escaping depends on adjacent backslashes and quotes at every position.",
  ["string_literal.go", "literal.go", "map_expression.go", "list_literal.go", "functions.go", "cypher.go"],
  [("escaping", "string_literal.go: AsString / escapeString")], "string tokens of the rendered text")

p("C05", "Numeric literals denote exactly the given number",
  "An integer passed as a literal or as an index, bound, count or SKIP and LIMIT is rendered as an integer token of exactly that value over the full 64-bit range. A float is rendered as a float token that reads back as the identical value (never as an integer, never rounded), and NaN and infinities are reported as errors.",
  ["inputs"], "all 64-bit integers and all 64-bit floats, through every entry point that takes numbers",
  "The tests use small integers and a few short decimals.",
  ["number_literal.go", "literal.go", "list_operator.go", "relationship_length.go", "skip.go", "limit.go", "functions.go"],
  [("formatting", "number_literal.go: AsString")], "number tokens of the rendered text")

p("C06", "A composed condition is logically equivalent to how it was composed",
  "The text of a condition built with And, Or, Xor, Not, their pattern variants, the empty condition, or chained clause by clause at WHERE, evaluates under Cypher's precedence and three-valued logic to the same value as the composition of its parts in the order of the calls. The empty condition changes nothing, and grouping is never lost.",
  ["programs"], "all compositions of conditions, as values and step by step, at every WHERE",
  "The tests hold about forty fixed conditions; whether parentheses are right depends on the whole tree and the order of the calls.",
  ["compound_condition.go", "condition_builder.go", "condition_container.go", "conditions.go", "comparison.go", "operator.go"],
  [("flattening and grouping", "compound_condition.go: add, operandsOf, accept"), ("step by step conditions", "condition_builder.go")],
  "WHERE clauses of the rendered text, evaluated on truth assignments")

p("C07", "Operators are applied to exactly the operands they were given",
  "The text of an expression built from arithmetic, string and comparison operators, IS NULL, property access, indexing and slicing parses, under Cypher's precedence and associativity, back to exactly the tree that was built. Compound operands are parenthesised wherever dropping the parentheses would change the reading, negative numbers and powers included.",
  ["programs"], "all operator trees of any depth and shape",
  "The tests contain a few flat operations; misgrouping needs particular pairs of operators on particular sides.",
  ["operation.go", "operations.go", "comparison.go", "nested_expression.go", "expressions.go", "property.go", "list_operator.go", "support.go"],
  [("grouping of operands", "operation.go: accept, expressions.go: nameOrExpression and the like"), ("operators", "operator.go")],
  "expressions of the rendered text")

p("C08", "Patterns render with their exact nodes, directions, types, lengths, properties",
  "A node, relationship, chain of relationships, named path or shortest path appears with exactly the labels, types, direction, length bounds, name and properties set on each of its elements, and in the order of the chain, wherever the pattern is used (MATCH, CREATE, MERGE, conditions, EXISTS, comprehensions). Attributes set on the last relationship of a chain affect that relationship only.",
  ["programs", "inputs"], "all patterns, built in any order of calls, of any length",
  "The tests cover short chains with a few attributes; the interplay of direction, type, length and properties along chains is combinatorial.",
  ["node.go", "relationship.go", "relationship_chain.go", "relationship_details.go", "relationship_length.go", "relationship_type.go", "name_path.go", "pattern.go", "properties.go"],
  [("details of a relationship", "relationship_details.go"), ("chains", "relationship_chain.go"), ("length", "relationship_length.go")],
  "patterns of the rendered text")

p("C09", "A node is described in full once and later by name; different nodes stay apart",
  "Within one text the first appearance of a named node object carries its labels and properties and every later appearance in a pattern is the bare (name), while an unnamed node is rendered in full each time. Two different node objects are never taken for each other, even if they are alike or have the same name; relationships are always rendered in full.",
  ["programs", "histories"], "all statements that use the same node objects at any places and any number of times",
  "Needs particular repetitions across clauses and subqueries; depends on identity of objects, which fixed examples do not vary.",
  ["node.go", "cypher_renderer.go", "symbolic_name.go", "support.go"],
  [("visited nodes", "cypher_renderer.go: visitedNamed; node.go: accept, enter"), ("identity", "support.go: getAddress / keys")],
  "node patterns of the rendered text", [("visitedNamed", "keys of the named nodes rendered so far", "cypher_renderer.go")])

p("C10", "An aliased expression is written out once, then referred to by its alias",
  "An aliased expression is introduced as an item of WITH, RETURN or YIELD. Within one text its first appearance is the expression followed by AS and its alias, and every later use of the aliased expression, or of the very expression it stands for, is the alias alone. Other expressions, even equal ones, are never replaced by that alias, and the parts of a UNION do not see each other's aliases.",
  ["programs", "histories"], "all statements with aliased items in WITH, RETURN and YIELD and later references to them",
  "Depends on identity and on the order of visits across clauses; the tests have two or three such statements.",
  ["alias_expression.go", "aliased.go", "cypher_renderer.go", "union_query.go", "yield_items.go"],
  [("resolution of aliases", "cypher_renderer.go: getAliasedIfSeen, leave, visitableToAliased"), ("scope of unions", "union_query.go: accept")],
  "names and aliases of the rendered text", [("visitableToAliased", "aliases of the expressions rendered so far", "cypher_renderer.go")])

p("C11", "Rendering and building are deterministic and leave no trace",
  "Rendering the same statement again, with the same or another renderer, before or after rendering any other (also erroneous) statements, always gives the same text, and building the same builder again gives an equivalent statement. Building the same statement anew from the same calls gives the same text, whatever else the process has done before.",
  ["histories"], "all histories of building and rendering in one process",
  "The tests render every statement once, with a fresh renderer.",
  ["cypher_renderer.go", "default_statement_builder.go", "statement_builder.go", "support.go"],
  [("fresh state per rendering", "cypher_renderer.go: Render"), ("closing what is ongoing", "default_statement_builder.go: Build")],
  "texts of repeated renderings")

p("C12", "What a statement says does not depend on the garbage collector",
  "However often the garbage collector runs, and wherever the parts of a statement come to lie in memory, the rendered text says exactly what was built. Distinct nodes, names and aliased expressions are never confused because memory was reused.",
  ["schedules"], "all points at which collections happen while statements are built and rendered",
  "The test suite fails at random exactly then, so it is run with collections switched off.",
  ["support.go", "node.go", "symbolic_name.go", "alias_expression.go", "cypher_renderer.go"],
  [("identity of elements", "support.go: getAddress and the keys of all elements")], "texts rendered under forced collections")

p("C13", "Using a value or builder never changes what it or things built from it say",
  "Nodes, relationships, patterns, expressions, conditions and statement builders are values: calling any method on one, or passing it to any other call, leaves its own rendering and that of everything derived from it before unchanged. Several statements can be continued from the same builder step, or built at any time and any number of times, without influencing each other. A slice spread into a variadic call stays the caller's: it is neither written to nor kept, so using it for something else afterwards changes nothing.",
  ["histories"], "all histories of calls on shared objects, with branches at any step",
  "Aliased state shows only when two branches continue from one value in a particular order; the tests use each value in a straight line.",
  ["default_statement_builder.go", "default_statement_with_update.go", "default_statement_with_with_builder.go", "default_statement_with_return_builder.go", "order_builder.go", "condition_builder.go", "relationship_chain.go", "case.go", "map_projection.go", "compound_condition.go", "node.go"],
  [("builders and elements are copied on write", "value receivers and copies of slices in the listed files")], "texts of all branches and of untouched objects")

p("C14", "Shared objects can be built from and rendered by several goroutines at once",
  "Using shared nodes, expressions, conditions, builder steps, statements and renderers from several goroutines at the same time causes no data race and no crash. Every goroutine obtains exactly the text that it would obtain alone.",
  ["schedules"], "all interleavings of goroutines that build from and render shared objects",
  "There is no concurrent test.",
  ["cypher_renderer.go", "support.go", "conditions.go", "default_statement_builder.go", "relationship_chain.go", "case.go"],
  [("no shared mutable state", "state of a rendering in cypher_renderer.go: Render; package variables"), ("unique keys", "support.go")], "race detector and texts")

p("C15", "An error in any part of a statement surfaces at Build or Render",
  "If any part given to a statement is erroneous or missing (an element carrying an error, nil where something is required, a refused argument), Build or Render reports an error instead of a text that lacks the part. The error is not lost however deep the part is nested and whatever is built on top of it.",
  ["fault_sequences", "programs"], "all places of a statement at which a part can be erroneous, and all kinds of erroneous parts",
  "The tests have a few erroneous inputs at shallow places; losing an error needs a particular place and a particular kind.",
  ["default_statement_builder.go", "default_statement_with_update.go", "default_statement_with_with_builder.go", "default_statement_with_return_builder.go", "function_invocation.go", "operation.go", "comparison.go", "compound_condition.go", "map_expression.go", "list_expression.go", "pattern.go", "pattern_comprehension.go", "list_comprehension.go", "case.go", "merge.go"],
  [("error value carried by every element", "GetError of every element and the checks of the constructors")], "the error returned by Build and Render")

p("C16", "No input makes the library panic, hang or overflow",
  "No call of a function of the building API, or of a method of a value obtained from it, panics, recurses without end or fails to return, whatever its arguments are (nil, empty, erroneous, zero or extreme ones); the same holds for building and rendering whatever results. The constructors of single syntax elements (...Create) may rely on valid arguments.",
  ["inputs", "programs"], "all exported functions and methods of values obtained from them, with any arguments, in any sequence (typed nil pointers and the hooks of the renderer excepted)",
  "The tests pass well-formed arguments.",
  ["cypher.go", "functions.go", "conditions.go", "predicates.go", "expressions.go", "map_projection.go", "relationship.go", "node.go", "default_statement_builder.go"],
  [("nil checks and error values", "constructors of all elements")], "panics, stack depth and termination")

p("C17", "Every function of the catalogue renders with its name and its arguments in order",
  "Every function the library offers (aggregations, list, string, scalar, predicate, spatial and temporal functions, DISTINCT variants) is rendered with the Cypher name it stands for and with exactly the given arguments in the given order, in any context and with any expressions as arguments.",
  ["inputs", "programs"], "all functions of the catalogue with all kinds of arguments",
  "Each function has at most one test with one kind of argument.",
  ["functions.go", "function_invocation.go", "built_in_function.go", "predicates.go", "list_predicate.go", "cypher.go", "distinct_expression.go"],
  [("names", "built_in_function.go and the like"), ("arguments", "function_invocation.go")], "function calls of the rendered text")

p("C18", "RETURN and WITH keep their items, DISTINCT, ORDER BY, SKIP and LIMIT",
  "A projection is rendered with exactly its items in order and with DISTINCT if and only if it was asked for; ORDER BY holds all sort items in the order they were added, each with exactly the direction chosen for it; SKIP and LIMIT hold the last given numbers. None of these moves to another projection of the statement.",
  ["programs", "histories"], "all projections built in one or several steps, in RETURN and in every WITH",
  "The tests have few combinations of these modifiers, mostly with one item.",
  ["return_body.go", "return.go", "with.go", "order.go", "order_builder.go", "sort_item.go", "skip.go", "limit.go", "distinct.go", "default_statement_with_return_builder.go", "default_statement_with_with_builder.go"],
  [("collecting sort items", "order_builder.go"), ("projection", "return_body.go")], "projections of the rendered text")

p("C19", "Subqueries, unions and procedure calls keep their parts and their kind",
  "CALL {} contains exactly the given statement; UNION and UNION ALL join exactly the given statements in order with exactly the kind asked for, extending a union keeps its parts; a procedure call has its full dotted name, its arguments in order, its YIELD items with their aliases, and its WHERE. A procedure used as a function is rendered as a call expression.",
  ["programs"], "all statements with nested, united and called parts",
  "A few fixed statements are tested, with at most one level of nesting.",
  ["subquery.go", "union_query.go", "union_part.go", "procedure_call.go", "procedure_name.go", "name_space.go", "in_query_call_builder.go", "yield_items.go", "arguments.go"],
  [("unions", "union_query.go"), ("calls", "procedure_call.go, in_query_call_builder.go")], "the rendered text")

p("C20", "Lists, maps, projections, comprehensions, CASE, list operators keep their parts",
  "Lists, maps, map projections (keys alone, keys with values, properties, variables, all-properties), list and pattern comprehensions, CASE expressions, list operators and list predicates are rendered with exactly the given parts in the given order, however they are nested.",
  ["programs", "inputs"], "all nestings of these constructs",
  "One or two examples of each construct are tested.",
  ["list_expression.go", "map_expression.go", "map_projection.go", "entry_expression.go", "list_comprehension.go", "pattern_comprehension.go", "case.go", "list_operator.go", "list_predicate.go"],
  [("entries of a projection", "map_projection.go: createNewContent"), ("parts", "accept of each element")], "the rendered text")

p("C21", "Alternative ways of saying the same thing render the same text",
  "Entry points of the API that are alternatives for the same construct (by name, by string, by symbolic name or by expression; static function or method; raw or wrapped values; builder entry points and their shortcuts) give the same text for the same arguments.",
  ["programs", "inputs"], "all groups of alternative entry points with all arguments they share",
  "Most alternatives have no test at all, and none compares them.",
  ["cypher.go", "functions.go", "conditions.go", "predicates.go", "expressions.go", "operations.go", "default_statement_builder.go", "default_statement_with_update.go", "node.go", "relationship.go"],
  [("delegation between variants", "cypher.go and the builders")], "texts of the variants")

p("C22", "Updating clauses keep their targets, values, labels and actions",
  "CREATE, MERGE, SET, REMOVE, DELETE and DETACH DELETE are rendered with exactly their patterns, targets, values and labels in the given order, DETACH if and only if asked for; ON CREATE and ON MATCH actions belong to the MERGE they were given to, with their kind and order. SET takes pairs of target and value as well as operations, and names as well as properties.",
  ["programs", "histories"], "all sequences of updating clauses with all forms of their arguments",
  "The tests cover single updates; sequences, repeated actions and mixed forms are not covered.",
  ["default_statement_with_update.go", "updating_clause.go", "updating_clause_builder.go", "set.go", "remove.go", "delete.go", "create.go", "merge.go", "merge_action.go", "operations.go", "update_type.go"],
  [("building updating clauses", "updating_clause_builder.go, default_statement_with_update.go"), ("merge actions", "merge.go, merge_action.go")], "the rendered text")

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
