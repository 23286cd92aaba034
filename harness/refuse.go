package main

import (
	"math"
	"reflect"
	"strings"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// Arguments that have to be refused, each one where the others are all right.

type refusal struct {
	name string
	f    func(g *G) interface{}
}

func (g *G) some() cypher.Expression { return g.expr(1 + g.r.n(2)).X }

func (g *G) someCond() cypher.Condition { return g.cond(g.r.n(2)).X }

func (g *G) outOfRange() float64 {
	switch g.r.n(8) {
	case 0:
		return math.Nextafter(1, 2)
	case 1:
		return -math.SmallestNonzeroFloat64
	case 2:
		return math.Inf(1 - 2*g.r.n(2))
	case 3:
		return math.NaN()
	case 4:
		return 1 + math.Abs(g.float()) + 1e-9
	case 5:
		return -math.Abs(g.float()) - 1e-9
	case 6:
		return 1.01
	}
	return float64(g.r.in(2, 100))
}

func (g *G) inRange() float64 {
	switch g.r.n(4) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return float64(g.r.n(101)) / 100
	}
	return float64(g.r.u64()>>11) / (1 << 53)
}

// matched is a statement that has just matched the pattern.
func (g *G) matched(p cypher.PatternElement) cypher.OngoingReadingWithoutWhere {
	one := func() cypher.PatternElement { return g.newNode(true, 1).Node }
	switch g.r.n(12) {
	case 0:
		return cypher.AnOptionalMatch(p)
	case 1:
		return cypher.Match(one()).Match(p)
	case 2:
		return cypher.Match(one()).Where(g.someCond()).OptionalMatch(p)
	case 3:
		return cypher.Match(one()).With(g.alias("w").(cypher.Expression)).Match(p)
	case 4:
		return cypher.Create(one()).WithByString("n").Match(p)
	case 5:
		return cypher.Unwind(g.some()).As("x").WithByString("x").Match(p)
	case 6:
		return cypher.Match(one(), p)
	case 7:
		return cypher.Match(one()).WithByString("n").OrderBySortItem(cypher.Sort(g.some())).Match(p)
	case 8:
		return cypher.Match(one()).Set(g.prop(1).X, g.some()).WithByString("n").Where(g.someCond()).Match(p)
	}
	return cypher.Match(p)
}

// returned is a statement that has just returned something.
func (g *G) returned(p cypher.PatternElement) cypher.OngoingReadingAndReturn {
	switch g.r.n(5) {
	case 0:
		return cypher.CypherReturning(g.some())
	case 1:
		return g.matched(p).Returning(g.some(), g.some())
	case 2:
		return g.matched(p).Where(g.someCond()).ReturningDistinct(g.some())
	case 3:
		return g.matched(p).Set(g.prop(1).X, g.some()).Returning(g.some())
	}
	return g.matched(p).WithByString("n").Returning(g.some())
}

func refusals() []refusal {
	var l []refusal
	add := func(name string, f func(g *G) interface{}) { l = append(l, refusal{name, f}) }
	un := cypher.AnyNode()
	named := cypher.AnyNodeNamed("n")
	unRel := un.RelationshipTo(un)
	path := func(g *G) cypher.RelationshipPattern { return g.newRel(1, true).Rel }
	var noExpr cypher.Expression
	var noMap cypher.MapExpression
	var noNode cypher.Node
	var noRel cypher.Relationship
	var noPath cypher.NamedPath
	var noName cypher.SymbolicName

	// functions of one expression
	for name, f := range map[string]func(cypher.Expression) cypher.FunctionInvocation{
		"count": cypher.CountByExpression, "count distinct": cypher.CountDistinctByExpression, "toLower": cypher.ToLower, "size": cypher.Size,
		"exists": cypher.Exists, "avg": cypher.Avg, "avg distinct": cypher.AvgDistinct, "collect": cypher.Collect,
		"collect distinct": cypher.CollectDistinct, "max": cypher.Max, "max distinct": cypher.MaxDistinct, "min": cypher.Min,
		"min distinct": cypher.MinDistinct, "stDev": cypher.StDev, "stDev distinct": cypher.StDevDistinct, "stDevP": cypher.StDevP,
		"stDevP distinct": cypher.StDevPDistinct, "sum": cypher.Sum, "sum distinct": cypher.SumDistinct, "head": cypher.Head, "last": cypher.Last,
		"date": cypher.DateWithExpression, "datetime": cypher.DateTimeWithExpression, "localdatetime": cypher.LocalDateTimeWithExpression,
		"localtime": cypher.LocalTimeWithExpression, "time": cypher.TimeWithExpression, "duration": cypher.DurationWithExpression,
	} {
		f := f
		add(name+" of nil", func(g *G) interface{} { return f(noExpr) })
		add(name+" of nothing", func(g *G) interface{} { return f(cypher.Property{}) })
	}
	for name, f := range map[string]func(cypher.Expression, float64) cypher.FunctionInvocation{
		"percentileCont": cypher.PercentileCont, "percentileCont distinct": cypher.PercentileContDistinct,
		"percentileDisc": cypher.PercentileDisc, "percentileDisc distinct": cypher.PercentileDiscDistinct,
	} {
		f := f
		add(name+" out of range", func(g *G) interface{} { return f(g.some(), g.outOfRange()) })
		add(name+" of nil", func(g *G) interface{} { return f(noExpr, g.inRange()) })
	}
	for name, f := range map[string]func(cypher.MapExpression) cypher.FunctionInvocation{
		"point": cypher.Point, "properties": cypher.PropertiesByMapExpression, "date": cypher.DateWithComponents,
		"datetime": cypher.DateTimeWithComponents, "localdatetime": cypher.LocalDateTimeWithComponents,
		"localtime": cypher.LocalTimeWithComponents, "time": cypher.TimeWithComponents, "duration": cypher.DurationWithComponents,
	} {
		f := f
		add(name+" of no map", func(g *G) interface{} { return f(noMap) })
		add(name+" of an erroneous map", func(g *G) interface{} { return f(cypher.MapOf("a", 1, "a", 2)) })
	}
	for name, f := range map[string]func(string) cypher.FunctionInvocation{
		"date": cypher.DateWithTemporal, "datetime": cypher.DateTimeWithTemporal, "localdatetime": cypher.LocalDateTimeWithTemporal,
		"localtime": cypher.LocalTimeWithTemporal, "time": cypher.TimeWithTemporal, "duration": cypher.DurationWithTemporal,
	} {
		f := f
		add(name+" of an empty text", func(g *G) interface{} { return f("") })
	}
	add("localdatetime without timezone", func(g *G) interface{} { return cypher.LocalDateTimeWithTimezone(nil) })
	add("localtime without timezone", func(g *G) interface{} { return cypher.LocalTimeWithTimezone(nil) })
	add("time without timezone", func(g *G) interface{} { return cypher.TimeWithTimeZone(nil) })
	for name, f := range map[string]func(cypher.Node) cypher.FunctionInvocation{
		"id": cypher.IdByNode, "labels": cypher.Labels, "properties": cypher.FunctionProperties, "count": cypher.Count, "count distinct": cypher.CountDistinct,
	} {
		f := f
		add(name+" of no node", func(g *G) interface{} { return f(noNode) })
		add(name+" of an erroneous node", func(g *G) interface{} { return f(cypher.ANode("")) })
		if name == "labels" || name == "id" || name == "properties" {
			add(name+" of an unnamed node", func(g *G) interface{} { return f(g.newNode(false, 1).Node) })
		}
	}
	for name, f := range map[string]func(cypher.Relationship) cypher.FunctionInvocation{
		"id": cypher.IdByRelationship, "type": cypher.FunctionType, "properties": cypher.FunctionPropertiesByRelationship,
		"startNode": cypher.StartNode, "endNode": cypher.EndNode,
	} {
		f := f
		add(name+" of no relationship", func(g *G) interface{} { return f(noRel) })
		add(name+" of an unnamed relationship", func(g *G) interface{} { return f(un.RelationshipTo(named, g.name())) })
	}
	add("shortestPath of no relationship", func(g *G) interface{} { return cypher.ShortestPath(noRel) })
	add("nodes of no path", func(g *G) interface{} { return cypher.Nodes(noPath) })
	add("relationships of no path", func(g *G) interface{} { return cypher.Relationships(noPath) })
	add("relationships of a path without a name", func(g *G) interface{} { return cypher.Relationships(cypher.APath("").DefinedBy(path(g))) })
	add("collect of no variable", func(g *G) interface{} { return cypher.CollectByNamed(nil) })
	add("collect of an unnamed node", func(g *G) interface{} { return cypher.CollectByNamed(un) })
	add("collect distinct of no variable", func(g *G) interface{} { return cypher.CollectDistinctByNamed(nil) })
	add("collect distinct of an unnamed node", func(g *G) interface{} { return cypher.CollectDistinctByNamed(un) })
	add("coalesce with nil first", func(g *G) interface{} { return cypher.Coalesce(nil, g.some()) })
	add("coalesce with nil last", func(g *G) interface{} { return cypher.Coalesce(g.some(), nil) })
	add("coalesce with nil amid", func(g *G) interface{} { return cypher.Coalesce(g.some(), nil, g.some()) })
	add("size of no pattern", func(g *G) interface{} { return cypher.SizeByPattern(nil) })
	add("distance from nil", func(g *G) interface{} { return cypher.Distance(nil, g.some()) })
	add("distance to nil", func(g *G) interface{} { return cypher.Distance(g.some(), nil) })
	add("point of no parameter", func(g *G) interface{} { return cypher.PointByParameter(cypher.Parameter{}) })
	add("range from nil", func(g *G) interface{} { return cypher.Range(nil, g.some()) })
	add("range to nil", func(g *G) interface{} { return cypher.Range(g.some(), nil) })
	add("stepped range from nil", func(g *G) interface{} { return cypher.RangeWithStep(nil, g.some(), g.some()) })
	add("stepped range to nil", func(g *G) interface{} { return cypher.RangeWithStep(g.some(), nil, g.some()) })

	// names
	add("property without a name", func(g *G) interface{} { return cypher.AProperty(g.name(), "") })
	add("property of no name", func(g *G) interface{} { return cypher.AProperty("", g.name()) })
	add("nested property with one part empty", func(g *G) interface{} {
		return cypher.APropertyByExpression(g.some(), "")
	})
	add("property of a node without a name", func(g *G) interface{} { return named.Property("") })
	add("property of an unnamed relationship", func(g *G) interface{} { return un.RelationshipFrom(named, g.name()).Property(g.name()) })
	add("an empty name", func(g *G) interface{} { return cypher.ASymbolic("") })
	add("an empty parameter", func(g *G) interface{} { return cypher.AParam("") })
	add("an empty alias", func(g *G) interface{} { return g.alias("") })
	add("an empty second alias", func(g *G) interface{} {
		return cypher.LiteralOf(1).As(g.name()).Get().(cypher.AliasedExpression).Aliased("")
	})
	add("an empty node name", func(g *G) interface{} { return cypher.AnyNodeNamed("") })
	add("a node named with nothing", func(g *G) interface{} { return cypher.ANode(g.name()).Named(noName) })
	add("a node named with an empty text", func(g *G) interface{} { return cypher.ANode(g.name()).NamedByString("") })
	add("a node with an empty label", func(g *G) interface{} { return cypher.NewNodeWithLabels(g.name(), g.name(), "") })
	add("a node with an empty label amid", func(g *G) interface{} { return cypher.NewNodeWithLabels(g.name(), "", g.name()) })
	add("a relationship named with an empty text", func(g *G) interface{} { return unRel.Named("") })
	add("a relationship named with no text", func(g *G) interface{} { return unRel.NamedByString("") })
	add("a path with no name", func(g *G) interface{} { return cypher.APathBySymbolic(noName).DefinedBy(path(g)) })
	add("a path of nothing", func(g *G) interface{} { return cypher.APath(g.name()).DefinedBy(nil) })
	add("a path of no relationship", func(g *G) interface{} { return cypher.APath(g.name()).DefinedBy(noRel) })
	add("has labels without labels", func(g *G) interface{} { return named.HasLabels() })
	add("has labels of an unnamed node", func(g *G) interface{} { return g.newNode(false, 1).Node.HasLabels(g.name()) })

	// expressions
	add("list with nil", func(g *G) interface{} { return cypher.ListOf(g.some(), nil, g.some()) })
	add("raw list with an unsupported value", func(g *G) interface{} { return cypher.ListOfRaw(1, make(chan int)) })
	add("literal of an unsupported value", func(g *G) interface{} {
		return cypher.LiteralOf([]interface{}{struct{}{}, make(chan int), complex(1, 1), map[string]int{"a": 1}, func() {}}[g.r.n(5)])
	})
	add("list of literals with an unsupported value", func(g *G) interface{} {
		return cypher.LiteralOf([]interface{}{1, "a", make(chan int)})
	})
	add("not of nil", func(g *G) interface{} { return cypher.ConditionsNot(nil) })
	add("case of nil", func(g *G) interface{} { return cypher.CaseExpression(nil).When(g.some()).Then(g.some()) })
	add("when nil", func(g *G) interface{} { return cypher.CaseExpression(g.some()).When(nil).Then(g.some()) })
	add("then nil", func(g *G) interface{} { return cypher.CaseExpression(g.some()).When(g.some()).Then(nil) })
	add("second when nil", func(g *G) interface{} {
		return cypher.CaseExpression(g.some()).When(g.some()).Then(g.some()).When(nil).Then(g.some())
	})
	add("else nil", func(g *G) interface{} {
		return cypher.CaseExpression(g.some()).When(g.some()).Then(g.some()).ElseDefault(nil)
	})
	add("generic when nil", func(g *G) interface{} { return cypher.GenericCaseExpression().When(nil).Then(g.some()) })
	add("generic then nil", func(g *G) interface{} { return cypher.GenericCaseExpression().When(g.some()).Then(nil) })
	add("value at nil", func(g *G) interface{} { return cypher.CypherValueAtByExpression(g.some(), nil) })
	add("value of nil", func(g *G) interface{} { return cypher.CypherValueAt(nil, g.r.n(9)) })
	add("sublist of nil", func(g *G) interface{} { return cypher.ASubList(nil, 1, 2) })
	add("comprehension without variable", func(g *G) interface{} { return cypher.CypherListWith(noName).In(g.some()).ReturningDefault() })
	add("comprehension over nil", func(g *G) interface{} {
		return cypher.CypherListWith(cypher.ASymbolic("x")).In(nil).Returning(g.some())
	})
	add("comprehension of nil", func(g *G) interface{} {
		return cypher.CypherListWith(cypher.ASymbolic("x")).In(g.some()).Returning(nil)
	})
	add("pattern comprehension of no pattern", func(g *G) interface{} { return cypher.ListBasedOn(noRel).Returning(g.some()) })
	add("pattern comprehension of no path", func(g *G) interface{} { return cypher.ListBasedOnNamed(noPath).Returning(g.some()) })
	add("pattern comprehension of nil", func(g *G) interface{} { return cypher.ListBasedOn(path(g)).Returning(nil) })
	for name, f := range map[string]func(string) cypher.OngoingListBasedPredicateFunction{
		"all": cypher.PredicateAll, "any": cypher.PredicateAny, "none": cypher.PredicateNone, "single": cypher.PredicateSingle,
	} {
		f := f
		add(name+" without variable", func(g *G) interface{} { return f("").In(g.some()).Where(g.someCond()) })
		add(name+" in nil", func(g *G) interface{} { return f(g.name()).In(nil).Where(g.someCond()) })
		add(name+" where nil", func(g *G) interface{} { return f(g.name()).In(g.some()).Where(nil) })
	}
	for name, f := range map[string]func(cypher.SymbolicName) cypher.OngoingListBasedPredicateFunction{
		"all": cypher.PredicateAllBySymbolicName, "any": cypher.PredicateAnyBySymbolicName,
		"none": cypher.PredicateNoneBySymbolicName, "single": cypher.PredicateSingleBySymbolicName,
	} {
		f := f
		add(name+" without a name", func(g *G) interface{} { return f(noName).In(g.some()).Where(g.someCond()) })
	}
	add("exists of nil", func(g *G) interface{} { return cypher.PredicateExistsByPattern(nil) })

	// clauses
	add("create without a pattern", func(g *G) interface{} { return cypher.Create().ReturningByString("z") })
	add("merge without a pattern", func(g *G) interface{} { return cypher.Merge().ReturningByString("z") })
	add("create without a pattern after match", func(g *G) interface{} { return g.matched(named).Create() })
	add("merge without a pattern after match", func(g *G) interface{} { return g.matched(named).Merge() })
	add("merge of two patterns", func(g *G) interface{} {
		return g.matched(named).Merge(g.newNode(true, 1).Node, g.newNode(true, 1).Node)
	})
	add("set without an expression", func(g *G) interface{} { return g.matched(named).Set() })
	add("set of an odd list", func(g *G) interface{} { return g.matched(named).Set(g.prop(1).X, g.some(), g.prop(1).X) })
	add("delete without an expression", func(g *G) interface{} { return g.matched(named).Delete() })
	add("remove without an expression", func(g *G) interface{} { return g.matched(named).Remove() })
	add("set nil", func(g *G) interface{} { return g.matched(named).Set(named.Property("a").To(nil)) })
	add("set without labels", func(g *G) interface{} { return g.matched(named).SetByNode(named) })
	add("remove without labels", func(g *G) interface{} { return g.matched(named).RemoveByNode(named) })
	add("match only", func(g *G) interface{} { return cypher.Match(g.newNode(true, 1).Node) })
	add("call without a name", func(g *G) interface{} { return cypher.ACallSimple("") })
	add("union of one", func(g *G) interface{} {
		st, _ := cypher.CypherReturning(g.some()).Build()
		return cypher.Union(st)
	})
	add("union of none", func(g *G) interface{} { return cypher.Union() })
	add("union all of one", func(g *G) interface{} {
		st, _ := cypher.CypherReturning(g.some()).Build()
		return cypher.UnionAll(st)
	})
	add("union all of none", func(g *G) interface{} { return cypher.UnionAll() })
	add("union with nil", func(g *G) interface{} {
		st, _ := cypher.CypherReturning(g.some()).Build()
		return cypher.Union(st, nil)
	})
	add("union all with nil", func(g *G) interface{} {
		st, _ := cypher.CypherReturning(g.some()).Build()
		return cypher.UnionAll(nil, st)
	})
	// operators
	for name, f := range map[string]func(e cypher.Expression, rhs cypher.Expression) interface{}{
		"=":           func(e, r cypher.Expression) interface{} { return e.IsEqualTo(r).Get() },
		"<>":          func(e, r cypher.Expression) interface{} { return e.IsNotEqualTo(r).Get() },
		"<":           func(e, r cypher.Expression) interface{} { return e.Lt(r).Get() },
		"<=":          func(e, r cypher.Expression) interface{} { return e.Lte(r).Get() },
		">":           func(e, r cypher.Expression) interface{} { return e.Gt(r).Get() },
		">=":          func(e, r cypher.Expression) interface{} { return e.Gte(r).Get() },
		"=~":          func(e, r cypher.Expression) interface{} { return e.Matches(r).Get() },
		"starts with": func(e, r cypher.Expression) interface{} { return e.StartWiths(r).Get() },
		"contains":    func(e, r cypher.Expression) interface{} { return e.Contains(r).Get() },
		"ends with":   func(e, r cypher.Expression) interface{} { return e.EndsWith(r).Get() },
		"concat":      func(e, r cypher.Expression) interface{} { return e.Concat(r).Get() },
		"+":           func(e, r cypher.Expression) interface{} { return e.Add(r).Get() },
		"-":           func(e, r cypher.Expression) interface{} { return e.Subtract(r).Get() },
		"*":           func(e, r cypher.Expression) interface{} { return e.Multiply(r).Get() },
		"/":           func(e, r cypher.Expression) interface{} { return e.Divide(r).Get() },
		"%":           func(e, r cypher.Expression) interface{} { return e.Remainder(r).Get() },
		"^":           func(e, r cypher.Expression) interface{} { return e.Pow(r).Get() },
		"in":          func(e, r cypher.Expression) interface{} { return e.In(r).Get() },
	} {
		f := f
		add(name+" with nil", func(g *G) interface{} { return f(g.some(), noExpr) })
		add(name+" with nothing", func(g *G) interface{} { return f(g.some(), noName) })
		add(name+" with an erroneous operand", func(g *G) interface{} {
			l := badExpressions()
			return f(g.some(), l[g.r.n(len(l))].x)
		})
	}
	for name, f := range map[string]func(c, d cypher.Condition) interface{}{
		"and": func(c, d cypher.Condition) interface{} { return c.And(d).Get() },
		"or":  func(c, d cypher.Condition) interface{} { return c.Or(d).Get() },
		"xor": func(c, d cypher.Condition) interface{} { return c.Xor(d).Get() },
	} {
		f := f
		add(name+" with nil", func(g *G) interface{} { return f(g.someCond(), nil) })
		add(name+" with nothing", func(g *G) interface{} { return f(g.someCond(), cypher.Comparison{}) })
		add(name+" with an erroneous condition", func(g *G) interface{} {
			l := badConditions()
			return f(g.someCond(), l[g.r.n(len(l))].x)
		})
	}
	for name, f := range map[string]func(c cypher.Condition, p cypher.RelationshipPattern) interface{}{
		"and": func(c cypher.Condition, p cypher.RelationshipPattern) interface{} { return c.AndPattern(p).Get() },
		"or":  func(c cypher.Condition, p cypher.RelationshipPattern) interface{} { return c.OrPattern(p).Get() },
		"xor": func(c cypher.Condition, p cypher.RelationshipPattern) interface{} { return c.XorPattern(p).Get() },
	} {
		f := f
		add(name+" with no pattern", func(g *G) interface{} { return f(g.someCond(), nil) })
		add(name+" with an empty pattern", func(g *G) interface{} { return f(g.someCond(), noRel) })
	}
	add("negation of an erroneous condition", func(g *G) interface{} {
		l := badConditions()
		return l[g.r.n(len(l))].x.Not().Get()
	})

	// RETURN, WITH and what belongs to them
	add("return nil", func(g *G) interface{} { return cypher.CypherReturning(g.some(), nil) })
	add("return nothing", func(g *G) interface{} { return g.matched(named).Returning() })
	add("return an empty name", func(g *G) interface{} { return g.matched(named).ReturningByString("n", "") })
	add("return an unnamed node", func(g *G) interface{} { return g.matched(un).ReturningByNamed(un) })
	add("return nil by name", func(g *G) interface{} { return g.matched(un).ReturningByNamed(named, nil) })
	add("with nil", func(g *G) interface{} { return g.matched(named).With(nil).ReturningByString("n") })
	add("with an empty name", func(g *G) interface{} { return g.matched(named).WithByString("n", "").ReturningByString("n") })
	add("with an unnamed node", func(g *G) interface{} { return g.matched(un).WithByNamed(un).ReturningByString("n") })
	add("order by nil", func(g *G) interface{} { return g.returned(named).OrderBy(nil) })
	add("order by a second nil", func(g *G) interface{} {
		return g.returned(named).OrderBySortItem(cypher.Sort(g.some()), cypher.SortItem{})
	})
	add("sort by nil", func(g *G) interface{} { return g.returned(named).OrderBySortItem(cypher.Sort(nil)) })
	add("sort by nil, too", func(g *G) interface{} {
		return g.returned(named).OrderBySortItem(cypher.Sort(g.some()), cypher.Sort(nil).Descending())
	})
	add("sort by no item", func(g *G) interface{} { return g.returned(named).OrderBySortItem(cypher.SortItem{}) })
	add("order by an erroneous expression", func(g *G) interface{} {
		l := badExpressions()
		return g.returned(named).OrderBy(l[g.r.n(len(l))].x)
	})
	add("limit of nothing", func(g *G) interface{} {
		x := g.returned(named)
		switch g.r.n(5) {
		case 0:
			return x.Skip(g.r.in(0, 9)).Limit(0)
		case 1:
			return x.OrderBy(g.some()).Limit(0)
		case 2:
			return x.OrderBy(g.some()).Descending().Skip(g.r.in(0, 9)).Limit(0)
		case 3:
			return x.OrderBySortItem(cypher.Sort(g.some()), cypher.Sort(g.some()).Descending()).Limit(0)
		}
		return x.Limit(0)
	})
	add("limit of nothing in between", func(g *G) interface{} {
		x := g.matched(named).WithByString("n")
		if g.r.p(50) {
			return x.Skip(g.r.in(0, 9)).(cypher.ExposesLimit).Limit(0).ReturningByString("n")
		}
		return x.Limit(0).ReturningByString("n")
	})

	// the other clauses
	add("unwind nil", func(g *G) interface{} { return cypher.Unwind(nil).As("x").ReturningByString("x") })
	add("unwind without a variable", func(g *G) interface{} { return cypher.Unwind(g.some()).As("").ReturningByString("x") })
	add("unwind a list with nil", func(g *G) interface{} { return cypher.UnwindMulti(g.some(), nil).As("x").ReturningByString("x") })
	add("match nil", func(g *G) interface{} { return cypher.Match(named, nil).ReturningByString("n") })
	add("optional match nil", func(g *G) interface{} { return cypher.AnOptionalMatch(nil).ReturningByString("n") })
	add("match nothing", func(g *G) interface{} { return cypher.Match(noNode).ReturningByString("n") })
	add("match no relationship", func(g *G) interface{} { return cypher.Match(noRel).ReturningByString("n") })
	add("match no path", func(g *G) interface{} { return cypher.Match(noPath).ReturningByString("n") })
	add("create nil", func(g *G) interface{} { return cypher.Create(named, nil) })
	add("merge nil", func(g *G) interface{} { return cypher.Merge(nil) })
	add("delete nil", func(g *G) interface{} { return g.matched(named).Delete(g.some(), nil) })
	add("detach delete nil", func(g *G) interface{} { return g.matched(named).DetachDelete(nil) })
	add("delete an empty name", func(g *G) interface{} { return g.matched(named).DeleteByString("") })
	add("delete an unnamed node", func(g *G) interface{} { return g.matched(un).DeleteByNamed(un) })
	add("set with nil", func(g *G) interface{} { return g.matched(named).Set(nil) })
	add("set nil as the value", func(g *G) interface{} { return g.matched(named).Set(g.prop(1).X, nil) })
	add("set of nothing", func(g *G) interface{} { return g.matched(named).SetWithNamed(nil, g.some()) })
	add("set to nil", func(g *G) interface{} { return g.matched(named).SetWithNamed(named, nil) })
	add("set of an unnamed node", func(g *G) interface{} { return g.matched(un).SetWithNamed(un, g.some()) })
	add("set labels of an unnamed node", func(g *G) interface{} { return g.matched(un).SetByNode(un, g.name()) })
	add("remove labels of an unnamed node", func(g *G) interface{} { return g.matched(un).RemoveByNode(un, g.name()) })
	add("remove no property", func(g *G) interface{} { return g.matched(named).Remove(named.Property("a"), cypher.Property{}) })
	add("remove a property of an unnamed node", func(g *G) interface{} { return g.matched(un).Remove(un.Property(g.name())) })
	add("on create without merge", func(g *G) interface{} {
		return cypher.Create(named).OnCreate().Set(g.prop(1).X, g.some())
	})
	add("on match without merge", func(g *G) interface{} {
		return cypher.Create(named).OnMatch().Set(g.prop(1).X, g.some())
	})
	add("on create set nil", func(g *G) interface{} { return cypher.Merge(named).OnCreate().Set(nil) })
	add("on match set an odd list", func(g *G) interface{} {
		return cypher.Merge(named).OnMatch().Set(g.prop(1).X, g.some(), g.prop(1).X)
	})
	add("where an erroneous condition", func(g *G) interface{} {
		l := badConditions()
		return g.matched(named).Where(l[g.r.n(len(l))].x).ReturningByString("n")
	})
	add("and an erroneous condition", func(g *G) interface{} {
		l := badConditions()
		return g.matched(named).Where(g.someCond()).And(l[g.r.n(len(l))].x).ReturningByString("n")
	})
	add("or an erroneous condition", func(g *G) interface{} {
		l := badConditions()
		return g.matched(named).Where(g.someCond()).Or(l[g.r.n(len(l))].x).ReturningByString("n")
	})
	add("where no pattern", func(g *G) interface{} { return g.matched(named).WherePattern(nil).ReturningByString("n") })
	add("and no pattern", func(g *G) interface{} {
		return g.matched(named).Where(g.someCond()).AndPattern(nil).ReturningByString("n")
	})
	add("or no pattern", func(g *G) interface{} {
		return g.matched(named).Where(g.someCond()).OrPattern(noRel).ReturningByString("n")
	})

	// calls
	add("call with an empty part", func(g *G) interface{} { return cypher.ACall(g.name(), "", g.name()) })
	add("call with an empty name", func(g *G) interface{} { return cypher.ACall(g.name(), "") })
	add("call without any name", func(g *G) interface{} { return cypher.ACall() })
	add("call with nil", func(g *G) interface{} { return cypher.ACall(g.name()).WithArgs(g.some(), nil) })
	add("yield an empty name", func(g *G) interface{} { return cypher.ACall(g.name()).YieldString(g.name(), "") })
	add("yield nothing", func(g *G) interface{} { return cypher.ACall(g.name()).YieldSymbolic(noName) })
	add("call in a query without a name", func(g *G) interface{} {
		return g.matched(named).Call1().YieldString("x").ReturningByString("n")
	})
	add("call in a query with an empty name", func(g *G) interface{} {
		return g.matched(named).Call1("a", "").YieldString("x").ReturningByString("n")
	})
	add("call in a query with nil", func(g *G) interface{} {
		return g.matched(named).Call1("a").WithArgs(nil).YieldString("x").ReturningByString("n")
	})
	add("call of nothing", func(g *G) interface{} { return g.matched(named).Call(nil).ReturningByString("n") })
	add("call of nothing at the start", func(g *G) interface{} { return cypher.ACallByStatement(nil).ReturningByString("n") })
	add("call of a statement that returns nothing", func(g *G) interface{} {
		st, _ := cypher.Create(g.newNode(true, 1).Node).Build()
		return g.matched(named).Call(st).ReturningByString("n")
	})
	add("call of a statement that returns nothing at the start", func(g *G) interface{} {
		st, _ := g.matched(named).Set(g.prop(1).X, g.some()).Build()
		return cypher.ACallByStatement(st).ReturningByString("n")
	})

	// unions
	one := func(g *G) cypher.Statement {
		st, _ := cypher.CypherReturning(g.some()).Build()
		return st
	}
	add("union added to a union all", func(g *G) interface{} {
		return cypher.Union(cypher.UnionAll(one(g), one(g)), one(g))
	})
	add("union all added to a union", func(g *G) interface{} {
		return cypher.UnionAll(cypher.Union(one(g), one(g)), one(g))
	})
	add("union with an erroneous statement", func(g *G) interface{} { return cypher.Union(one(g), cypher.Union()) })
	many := func(g *G) []cypher.Statement {
		l := make([]cypher.Statement, g.r.in(2, 24))
		for i := range l {
			l[i] = one(g)
		}
		bad := badExpressions()
		var st cypher.Statement = cypher.Union()
		if x, err := cypher.CypherReturning(g.some(), bad[g.r.n(len(bad))].x).Build(); err == nil && x != nil && g.r.p(60) {
			st = x
		}
		l[g.r.n(len(l))] = st
		return l
	}
	add("union of many with an erroneous statement", func(g *G) interface{} {
		l := many(g)
		return [...]func(...cypher.Statement) cypher.Statement{cypher.Union, cypher.UnionAll}[g.r.n(2)](l...)
	})
	add("union extended by an erroneous statement", func(g *G) interface{} {
		l := []cypher.Statement{one(g), one(g)}
		for k := g.r.in(0, 12); k > 0; k-- {
			l = append(l, one(g))
		}
		return cypher.Union(append([]cypher.Statement{cypher.Union(l...)}, many(g)...)...)
	})
	// a long construct with something erroneous anywhere in it
	anywhere := func(g *G, f func(bad bool)) {
		n := g.r.in(1, 20)
		at := g.r.n(n)
		for k := 0; k < n; k++ {
			f(k == at)
		}
	}
	badX := func(g *G) cypher.Expression {
		l := badExpressions()
		return l[g.r.n(len(l))].x
	}
	badC := func(g *G) cypher.Condition {
		l := badConditions()
		return l[g.r.n(len(l))].x
	}
	add("long CASE with something erroneous", func(g *G) interface{} {
		x := cypher.GenericCaseExpression().When(g.someCond()).Then(g.some())
		anywhere(g, func(bad bool) {
			w, t := g.some(), g.some()
			if bad {
				if g.r.p(50) {
					w = badX(g)
				} else {
					t = badX(g)
				}
			}
			x = x.When(w).Then(t)
		})
		return x
	})
	add("long condition with something erroneous", func(g *G) interface{} {
		x := g.someCond()
		anywhere(g, func(bad bool) {
			c := g.someCond()
			if bad {
				c = badC(g)
			}
			switch g.r.n(4) {
			case 0:
				x = x.And(c).Get()
			case 1:
				x = x.Or(c).Get()
			case 2:
				x = x.Xor(c).Get()
			default:
				x = c.And(x).Get()
			}
		})
		return x
	})
	add("long WHERE with something erroneous", func(g *G) interface{} {
		w := g.matched(named).Where(g.someCond())
		anywhere(g, func(bad bool) {
			c := g.someCond()
			if bad {
				c = badC(g)
			}
			if g.r.p(50) {
				w = w.And(c)
			} else {
				w = w.Or(c)
			}
		})
		return w.ReturningByString("n")
	})
	add("long chain with something erroneous", func(g *G) interface{} {
		x := un.RelationshipTo(un).RelationshipTo(un)
		anywhere(g, func(bad bool) {
			to := un
			if bad {
				to = cypher.ANode("")
			}
			x = x.RelationshipFrom(to)
		})
		return cypher.Match(x).ReturningByString("n")
	})
	add("long ORDER BY with something erroneous", func(g *G) interface{} {
		var o cypher.OngoingMatchAndReturnWithOrder = g.returned(named).OrderBy(g.some()).Descending()
		anywhere(g, func(bad bool) {
			e := g.some()
			if bad {
				e = badX(g)
			}
			if g.r.p(50) {
				o = o.And(e).Ascending()
			} else {
				o = o.And(e).Descending()
			}
		})
		return o
	})
	add("long statement with something erroneous", func(g *G) interface{} {
		w := g.matched(named).WithByString("n")
		anywhere(g, func(bad bool) {
			e := g.some()
			if bad {
				e = badX(g)
			}
			switch g.r.n(4) {
			case 0:
				w = w.With(cypher.ASymbolic("n"), e)
			case 1:
				w = w.Unwind(e).As("x").WithByString("n")
			case 2:
				w = w.Set(g.prop(1).X, e).WithByString("n")
			default:
				w = w.Delete(e).WithByString("n")
			}
		})
		return w.ReturningByString("n")
	})

	// maps and projections
	add("projection with a nil value", func(g *G) interface{} { return named.Project("a", nil) })
	add("projection with a key twice", func(g *G) interface{} {
		k := g.name()
		return named.Project(k, g.some(), g.name()+"x", k, g.some())
	})
	add("projection with a lone expression", func(g *G) interface{} { return named.Project(cypher.LiteralOf(g.r.n(9))) })
	add("projection with an unsupported value", func(g *G) interface{} { return named.Project(g.r.n(9)) })
	add("projection of an unnamed node", func(g *G) interface{} { return un.Project("a") })
	add("map with a key twice", func(g *G) interface{} {
		k := g.name()
		return cypher.MapOf(k, g.some(), k+"x", g.some(), k, g.some())
	})
	add("map with a key only", func(g *G) interface{} { k := g.name(); return cypher.MapOf(k, g.some(), k+"x") })
	add("map with a key that is no text", func(g *G) interface{} { return cypher.MapOf(g.name(), g.some(), g.r.n(9), g.some()) })
	add("map with an unsupported value", func(g *G) interface{} { return cypher.MapOf(g.name(), make(chan int)) })
	add("properties with an unsupported value", func(g *G) interface{} { return named.WithRawProperties(g.name(), func() {}) })
	add("properties of a relationship with a key only", func(g *G) interface{} { return unRel.WithRawProperties(g.name()) })
	return l
}

func (g *G) alias(name string) interface{} { return g.operand(0).X.As(name).Get() }

// refusalOf is the case of an argument that has to be refused.
func (c *C) refusalOf(i uint64) *fault {
	r := c.rng(i, "refusal")
	p := profile{depth: 2, nasty: 3}
	g := newG(r, &p)
	l := theRefusals
	x := l[r.n(len(l))]
	var s string
	if ft := guard(x.name, func() {
		y := x.f(g)
		v := reflect.ValueOf(y)
		s = say(obj{v: v, t: v.Type()})
	}); ft != nil {
		return ft
	}
	if !strings.HasPrefix(s, "error: ") {
		return &fault{kind: "accepted", msg: "no error is reported for " + x.name, query: s}
	}
	c.hit("arguments refused")
	c.distinct("refused "+x.name, true)
	return nil
}

var theRefusals = refusals()
