package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// ---- C21: alternatives

type alt struct {
	name string
	f    func() string
}

// same is a group of alternatives; each has to give the same text.
type sameSay struct {
	name string
	f    func(g *G, d int) []alt
}

func names(g *G) []string {
	var l []string
	for k := g.r.some(1, 3); k > 0; k-- {
		l = append(l, g.name())
	}
	return l
}

func symbolics(l []string) []cypher.Expression {
	var x []cypher.Expression
	for _, s := range l {
		x = append(x, cypher.ASymbolic(s))
	}
	return x
}

// nameds are nodes, relationships and paths of the given names.
func nameds(g *G, l []string) []cypher.Named {
	var x []cypher.Named
	for _, s := range l {
		switch g.r.n(4) {
		case 0:
			x = append(x, cypher.AnyNode().RelationshipTo(cypher.AnyNode(), "T").Named(s))
		case 1:
			x = append(x, cypher.APath(s).DefinedBy(cypher.AnyNode().RelationshipTo(cypher.AnyNode())))
		case 2:
			x = append(x, cypher.ANode("L").WithRawProperties("a", cypher.LiteralOf(1)).NamedByString(s))
		default:
			x = append(x, cypher.AnyNodeNamed(s))
		}
	}
	return x
}

func exprAlts(f ...func() cypher.Expression) []alt {
	var l []alt
	for i, x := range f {
		x := x
		l = append(l, alt{fmt.Sprint(i), func() string { return exprText(x()) }})
	}
	return l
}

func patAlts(f ...func() cypher.PatternElement) []alt {
	var l []alt
	for i, x := range f {
		x := x
		l = append(l, alt{fmt.Sprint(i), func() string { return sayB(cypher.Match(x()).ReturningByString("z")) }})
	}
	return l
}

func stAlts(f ...func() cypher.BuildableStatement) []alt {
	var l []alt
	for i, x := range f {
		x := x
		l = append(l, alt{fmt.Sprint(i), func() string { return sayB(x()) }})
	}
	return l
}

func condAlts(f ...func() cypher.Condition) []alt {
	var l []alt
	for i, x := range f {
		x := x
		l = append(l, alt{fmt.Sprint(i), func() string {
			return say(obj{v: reflect.ValueOf(x()), t: reflect.TypeOf((*cypher.Condition)(nil)).Elem()})
		}})
	}
	return l
}

// x2 are groups of two alternatives over two expressions.
func x2(name string, f ...func(a, b cypher.Expression) cypher.Expression) sameSay {
	return sameSay{name, func(g *G, d int) []alt {
		a, b := g.expr(d).X, g.expr(d).X
		var l []func() cypher.Expression
		for _, x := range f {
			x := x
			l = append(l, func() cypher.Expression { return x(a, b) })
		}
		return exprAlts(l...)
	}}
}

func x1(name string, f ...func(g *G, a cypher.Expression) cypher.Expression) sameSay {
	return sameSay{name, func(g *G, d int) []alt {
		a := g.expr(d).X
		s := g.r.u64()
		var l []func() cypher.Expression
		for _, x := range f {
			x := x
			l = append(l, func() cypher.Expression {
				g2 := newG(&rng{s}, g.p)
				return x(g2, a)
			})
		}
		return exprAlts(l...)
	}}
}

type E_ = cypher.Expression

func chooseRel(g *G, d int) cypher.RelationshipPattern { return g.relOrChain(d).relPattern() }

// the steps statements can be continued from, with their static types
type receiver struct {
	name string
	f    func(g *G, d int) (func() interface{}, reflect.Type)
}

func step1[T any](name string, f func(g *G, d int) func() T) receiver {
	return receiver{name, func(g *G, d int) (func() interface{}, reflect.Type) {
		m := f(g, d)
		return func() interface{} { return m() }, reflect.TypeOf((*T)(nil)).Elem()
	}}
}

var receivers = []receiver{
	step1("Match", func(g *G, d int) func() cypher.OngoingReadingWithoutWhere {
		p, _ := g.pats(d, 2)
		return func() cypher.OngoingReadingWithoutWhere { return cypher.Match(p...) }
	}),
	step1("Match Match", func(g *G, d int) func() cypher.OngoingReadingWithoutWhere {
		p, _ := g.pats(d, 2)
		q, _ := g.pats(d, 2)
		return func() cypher.OngoingReadingWithoutWhere { return cypher.Match(p...).Match(q...) }
	}),
	step1("OptionalMatch", func(g *G, d int) func() cypher.OngoingReadingWithoutWhere {
		p, _ := g.pats(d, 2)
		return func() cypher.OngoingReadingWithoutWhere { return cypher.AnOptionalMatch(p...) }
	}),
	step1("Match Where", func(g *G, d int) func() cypher.OngoingReadingWithWhere {
		p, _ := g.pats(d, 2)
		c := g.cond(d)
		return func() cypher.OngoingReadingWithWhere { return cypher.Match(p...).Where(c.X) }
	}),
	step1("Unwind As", func(g *G, d int) func() cypher.OngoingReading {
		e := g.expr(d)
		v := g.name()
		return func() cypher.OngoingReading { return cypher.Unwind(e.X).As(v) }
	}),
	step1("Create", func(g *G, d int) func() cypher.OngoingUpdateAndExposesSet {
		p, _ := g.pats(d, 2)
		return func() cypher.OngoingUpdateAndExposesSet { return cypher.Create(p...) }
	}),
	step1("Merge", func(g *G, d int) func() cypher.OngoingUpdateAndExposesSet {
		p, _ := g.pats(d, 1)
		return func() cypher.OngoingUpdateAndExposesSet { return cypher.Merge(p...) }
	}),
	step1("Match Set", func(g *G, d int) func() cypher.BuildableStatementAndOngoingMatchAndUpdate {
		p, _ := g.pats(d, 1)
		n, x := cypher.ASymbolic(g.name()), g.expr(d).X
		return func() cypher.BuildableStatementAndOngoingMatchAndUpdate { return cypher.Match(p...).Set(n, x) }
	}),
	step1("Merge OnCreate Set", func(g *G, d int) func() cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction {
		p, _ := g.pats(d, 1)
		n, x := cypher.ASymbolic(g.name()), g.expr(d).X
		return func() cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction {
			return cypher.Merge(p...).OnCreate().Set(n, x)
		}
	}),
	step1("Match Delete", func(g *G, d int) func() cypher.OngoingUpdate {
		p, _ := g.pats(d, 1)
		n := g.name()
		return func() cypher.OngoingUpdate { return cypher.Match(p...).DeleteByString(n) }
	}),
	step1("With", func(g *G, d int) func() cypher.OrderableOngoingReadingAndWithWithoutWhere {
		x := g.expr(d).X
		return func() cypher.OrderableOngoingReadingAndWithWithoutWhere { return cypher.With(x) }
	}),
	step1("Match With", func(g *G, d int) func() cypher.OrderableOngoingReadingAndWithWithoutWhere {
		p, _ := g.pats(d, 1)
		n := g.name()
		return func() cypher.OrderableOngoingReadingAndWithWithoutWhere {
			return cypher.Match(p...).WithDistinct(cypher.ASymbolic(n))
		}
	}),
	step1("With Where", func(g *G, d int) func() cypher.OrderableOngoingReadingAndWithWithWhere {
		x, c := g.expr(d).X, g.cond(d).X
		return func() cypher.OrderableOngoingReadingAndWithWithWhere { return cypher.With(x).Where(c) }
	}),
	step1("With OrderBy", func(g *G, d int) func() cypher.OngoingReadingAndWithWithWhereAndOrder {
		x, y := g.expr(d).X, g.expr(d).X
		return func() cypher.OngoingReadingAndWithWithWhereAndOrder {
			return cypher.With(x).OrderByExpression(y).Descending()
		}
	}),
	step1("With OrderBy undecided", func(g *G, d int) func() cypher.OngoingOrderDefinition {
		x, y := g.expr(d).X, g.expr(d).X
		return func() cypher.OngoingOrderDefinition { return cypher.With(x).OrderByExpression(y) }
	}),
	step1("With Limit", func(g *G, d int) func() cypher.OngoingReadingAndWith {
		x := g.expr(d).X
		return func() cypher.OngoingReadingAndWith { return cypher.With(x).Limit(3) }
	}),
	step1("Call {}", func(g *G, d int) func() cypher.OngoingReadingWithoutWhere {
		x := g.expr(d).X
		return func() cypher.OngoingReadingWithoutWhere {
			st, _ := cypher.CypherReturning(x).Build()
			return cypher.ACallByStatement(st)
		}
	}),
	step1("Call Yield", func(g *G, d int) func() cypher.OngoingStandaloneCallWithReturnFields {
		x, n, p := g.expr(d).X, g.name(), g.name()
		return func() cypher.OngoingStandaloneCallWithReturnFields {
			return cypher.ACall(p).WithArgs(x).YieldString(n)
		}
	}),
	step1("Match Call Yield", func(g *G, d int) func() cypher.OngoingInQueryCallWithReturnFields {
		p, _ := g.pats(d, 1)
		n, q := g.name(), g.name()
		return func() cypher.OngoingInQueryCallWithReturnFields {
			return cypher.Match(p...).Call1(q).YieldString(n)
		}
	}),
	step1("Return", func(g *G, d int) func() cypher.OngoingReadingAndReturn {
		x := g.expr(d).X
		return func() cypher.OngoingReadingAndReturn { return cypher.CypherReturning(x) }
	}),
	step1("Match Return", func(g *G, d int) func() cypher.OngoingReadingAndReturn {
		p, _ := g.pats(d, 1)
		x := g.expr(d).X
		return func() cypher.OngoingReadingAndReturn { return cypher.Match(p...).ReturningDistinct(x) }
	}),
	step1("builder", func(g *G, d int) func() cypher.DefaultStatementBuilder {
		return func() cypher.DefaultStatementBuilder { return cypher.DefaultStatementBuilderCreate() }
	}),
}

// onStep are the groups that apply to every step of a static type.
type stepSame struct {
	name string
	t    reflect.Type
	f    func(g *G, d int) []func(v interface{}) string
}

func on[T any](name string, f func(g *G, d int) []func(v T) string) stepSame {
	return stepSame{name, reflect.TypeOf((*T)(nil)).Elem(), func(g *G, d int) []func(v interface{}) string {
		var l []func(v interface{}) string
		for _, x := range f(g, d) {
			x := x
			l = append(l, func(v interface{}) string { return x(v.(T)) })
		}
		return l
	}}
}

func endR(x interface{}) string {
	switch y := x.(type) {
	case cypher.ExposesReturning:
		return sayB(y.ReturningByString("z"))
	case cypher.BuildableStatement:
		return sayB(y)
	}
	panic(fmt.Sprintf("no end for %T", x))
}

func byName[T any, R any](a func(v T, l []string) R, b func(v T, l []cypher.Named) R, c func(v T, l []cypher.Expression) R, end func(R) string) func(g *G, d int) []func(v T) string {
	return func(g *G, d int) []func(v T) string {
		l := names(g)
		n := nameds(g, l)
		return []func(v T) string{
			func(v T) string { return end(a(v, l)) },
			func(v T) string { return end(b(v, n)) },
			func(v T) string { return end(c(v, symbolics(l))) },
		}
	}
}

func anyEnd[R any](r R) string { return endR(r) }

type (
	xRet   = cypher.ExposesReturning
	xWith  = cypher.ExposesWith
	xDel   = cypher.ExposesDelete
	xMatch = cypher.ExposesMatch
)

var stepSames = []stepSame{
	on("Returning", byName(
		func(v xRet, l []string) cypher.OngoingReadingAndReturn { return v.ReturningByString(l...) },
		func(v xRet, l []cypher.Named) cypher.OngoingReadingAndReturn { return v.ReturningByNamed(l...) },
		func(v xRet, l []E_) cypher.OngoingReadingAndReturn { return v.Returning(l...) }, anyEnd[cypher.OngoingReadingAndReturn])),
	on("ReturningDistinct", byName(
		func(v xRet, l []string) cypher.OngoingReadingAndReturn { return v.ReturningDistinctByString(l...) },
		func(v xRet, l []cypher.Named) cypher.OngoingReadingAndReturn { return v.ReturningDistinctByNamed(l...) },
		func(v xRet, l []E_) cypher.OngoingReadingAndReturn { return v.ReturningDistinct(l...) }, anyEnd[cypher.OngoingReadingAndReturn])),
	on("With", byName(
		func(v xWith, l []string) cypher.OrderableOngoingReadingAndWithWithoutWhere {
			return v.WithByString(l...)
		},
		func(v xWith, l []cypher.Named) cypher.OrderableOngoingReadingAndWithWithoutWhere {
			return v.WithByNamed(l...)
		},
		func(v xWith, l []E_) cypher.OrderableOngoingReadingAndWithWithoutWhere { return v.With(l...) }, anyEnd[cypher.OrderableOngoingReadingAndWithWithoutWhere])),
	on("WithDistinct", byName(
		func(v xWith, l []string) cypher.OrderableOngoingReadingAndWithWithoutWhere {
			return v.WithDistinctByString(l...)
		},
		func(v xWith, l []cypher.Named) cypher.OrderableOngoingReadingAndWithWithoutWhere {
			return v.WithDistinctByNamed(l...)
		},
		func(v xWith, l []E_) cypher.OrderableOngoingReadingAndWithWithoutWhere { return v.WithDistinct(l...) }, anyEnd[cypher.OrderableOngoingReadingAndWithWithoutWhere])),
	on("Delete", byName(
		func(v xDel, l []string) cypher.OngoingUpdate { return v.DeleteByString(l...) },
		func(v xDel, l []cypher.Named) cypher.OngoingUpdate { return v.DeleteByNamed(l...) },
		func(v xDel, l []E_) cypher.OngoingUpdate { return v.Delete(l...) }, func(u cypher.OngoingUpdate) string { return sayB(u) })),
	on("DetachDelete", byName(
		func(v xDel, l []string) cypher.OngoingUpdate { return v.DetachDeleteByString(l...) },
		func(v xDel, l []cypher.Named) cypher.OngoingUpdate { return v.DetachDeleteByNamed(l...) },
		func(v xDel, l []E_) cypher.OngoingUpdate { return v.DetachDelete(l...) }, anyEnd[cypher.OngoingUpdate])),
	on("Match", func(g *G, d int) []func(v xMatch) string {
		p, _ := g.pats(d, 2)
		return []func(v xMatch) string{
			func(v xMatch) string { return endR(v.Match(p...)) },
			func(v xMatch) string { return endR(v.MatchDefault(false, p...)) },
		}
	}),
	on("OptionalMatch", func(g *G, d int) []func(v xMatch) string {
		p, _ := g.pats(d, 2)
		return []func(v xMatch) string{
			func(v xMatch) string { return endR(v.OptionalMatch(p...)) },
			func(v xMatch) string { return endR(v.MatchDefault(true, p...)) },
		}
	}),
	on("Unwind a name", func(g *G, d int) []func(v cypher.ExposesUnwind) string {
		n, u := g.name(), g.name()
		return []func(v cypher.ExposesUnwind) string{
			func(v cypher.ExposesUnwind) string { return endR(v.UnwindByString(n).As(u)) },
			func(v cypher.ExposesUnwind) string { return endR(v.Unwind(cypher.ASymbolic(n)).As(u)) },
		}
	}),
	on("Unwinds", func(g *G, d int) []func(v cypher.ExposesUnwind) string {
		x, u := []E_{g.expr(d).X, g.expr(d).X}, g.name()
		return []func(v cypher.ExposesUnwind) string{
			func(v cypher.ExposesUnwind) string { return endR(v.Unwinds(x...).As(u)) },
			func(v cypher.ExposesUnwind) string { return endR(v.Unwind(cypher.ListOf(x...)).As(u)) },
			func(v cypher.ExposesUnwind) string { return endR(v.Unwind(cypher.ListOrSingleExpression(x...)).As(u)) },
		}
	}),
	on("Unwinds of one", func(g *G, d int) []func(v cypher.ExposesUnwind) string {
		x, u := g.expr(d).X, g.name()
		return []func(v cypher.ExposesUnwind) string{
			func(v cypher.ExposesUnwind) string { return endR(v.Unwinds(x).As(u)) },
			func(v cypher.ExposesUnwind) string { return endR(v.Unwind(cypher.ListOf(x)).As(u)) },
		}
	}),
	on("SetWithNamed", func(g *G, d int) []func(v cypher.ExposesSet) string {
		l := []string{g.name()}
		n, s, x := nameds(g, l)[0], cypher.ASymbolic(l[0]), g.expr(d).X
		return []func(v cypher.ExposesSet) string{
			func(v cypher.ExposesSet) string { return endR(v.SetWithNamed(n, x)) },
			func(v cypher.ExposesSet) string { return endR(v.Set(s, x)) },
			func(v cypher.ExposesSet) string { return endR(v.Set(cypher.OperationSet(s, x))) },
		}
	}),
	on("Set a property", func(g *G, d int) []func(v cypher.ExposesSet) string {
		p, x := cypher.AProperty(g.name(), g.name()), g.expr(d).X
		return []func(v cypher.ExposesSet) string{
			func(v cypher.ExposesSet) string { return sayB(v.Set(p, x)) },
			func(v cypher.ExposesSet) string { return sayB(v.Set(p.To(x))) },
			func(v cypher.ExposesSet) string { return sayB(v.Set(cypher.OperationSet(p, x))) },
		}
	}),
	on("Set a label", func(g *G, d int) []func(v cypher.ExposesSetAndRemove) string {
		n := cypher.AnyNodeNamed(g.name())
		l := names(g)
		return []func(v cypher.ExposesSetAndRemove) string{
			func(v cypher.ExposesSetAndRemove) string { return endR(v.SetByNode(n, l...)) },
			func(v cypher.ExposesSetAndRemove) string { return endR(v.Set(cypher.OperationSetLabel(n, l...))) },
		}
	}),
	on("On Set", func(g *G, d int) []func(v cypher.ExposesMergeAction) string {
		l := []string{g.name()}
		n, s, x := nameds(g, l)[0], cypher.ASymbolic(l[0]), g.expr(d).X
		on := func(v cypher.ExposesMergeAction) cypher.OngoingMergeAction { return v.OnCreate() }
		if g.r.p(50) {
			on = func(v cypher.ExposesMergeAction) cypher.OngoingMergeAction { return v.OnMatch() }
		}
		return []func(v cypher.ExposesMergeAction) string{
			func(v cypher.ExposesMergeAction) string { return endR(on(v).SetWithNamed(n, x)) },
			func(v cypher.ExposesMergeAction) string { return endR(on(v).Set(s, x)) },
			func(v cypher.ExposesMergeAction) string { return endR(on(v).Set(cypher.OperationSet(s, x))) },
		}
	}),
	on("Where a pattern", func(g *G, d int) []func(v cypher.ExposesWhere) string {
		p := chooseRel(g, d)
		return []func(v cypher.ExposesWhere) string{
			func(v cypher.ExposesWhere) string { return endR(v.WherePattern(p)) },
			func(v cypher.ExposesWhere) string { return endR(v.Where(cypher.RelationshipPatternConditionCreate(p))) },
		}
	}),
	on("Where a container", func(g *G, d int) []func(v cypher.ExposesWhere) string {
		c, e := g.cond(d).X, g.cond(d).X
		return []func(v cypher.ExposesWhere) string{
			func(v cypher.ExposesWhere) string { return endR(v.WhereConditionContainer(c.Or(e))) },
			func(v cypher.ExposesWhere) string { return endR(v.Where(c.Or(e).Get())) },
		}
	}),
	on("Where a pattern, WITH", func(g *G, d int) []func(v cypher.OrderableOngoingReadingAndWithWithoutWhere) string {
		p := chooseRel(g, d)
		return []func(v cypher.OrderableOngoingReadingAndWithWithoutWhere) string{
			func(v cypher.OrderableOngoingReadingAndWithWithoutWhere) string { return endR(v.WherePattern(p)) },
			func(v cypher.OrderableOngoingReadingAndWithWithoutWhere) string {
				return endR(v.Where(cypher.RelationshipPatternConditionCreate(p)))
			},
		}
	}),
	on("And a pattern", func(g *G, d int) []func(v cypher.OngoingReadingWithWhere) string {
		p := chooseRel(g, d)
		return []func(v cypher.OngoingReadingWithWhere) string{
			func(v cypher.OngoingReadingWithWhere) string { return endR(v.AndPattern(p)) },
			func(v cypher.OngoingReadingWithWhere) string {
				return endR(v.And(cypher.RelationshipPatternConditionCreate(p)))
			},
		}
	}),
	on("Or a pattern", func(g *G, d int) []func(v cypher.OngoingReadingWithWhere) string {
		p := chooseRel(g, d)
		return []func(v cypher.OngoingReadingWithWhere) string{
			func(v cypher.OngoingReadingWithWhere) string { return endR(v.OrPattern(p)) },
			func(v cypher.OngoingReadingWithWhere) string {
				return endR(v.Or(cypher.RelationshipPatternConditionCreate(p)))
			},
		}
	}),
	on("And a pattern, WITH", func(g *G, d int) []func(v cypher.OrderableOngoingReadingAndWithWithWhere) string {
		p := chooseRel(g, d)
		return []func(v cypher.OrderableOngoingReadingAndWithWithWhere) string{
			func(v cypher.OrderableOngoingReadingAndWithWithWhere) string { return endR(v.AndPattern(p)) },
			func(v cypher.OrderableOngoingReadingAndWithWithWhere) string {
				return endR(v.And(cypher.RelationshipPatternConditionCreate(p)))
			},
		}
	}),
	on("Or a pattern, WITH", func(g *G, d int) []func(v cypher.OrderableOngoingReadingAndWithWithWhere) string {
		p := chooseRel(g, d)
		return []func(v cypher.OrderableOngoingReadingAndWithWithWhere) string{
			func(v cypher.OrderableOngoingReadingAndWithWithWhere) string { return endR(v.OrPattern(p)) },
			func(v cypher.OrderableOngoingReadingAndWithWithWhere) string {
				return endR(v.Or(cypher.RelationshipPatternConditionCreate(p)))
			},
		}
	}),
	on("OrderBy ascending, WITH", func(g *G, d int) []func(v cypher.ExposesOrderBy) string {
		x := g.expr(d).X
		return []func(v cypher.ExposesOrderBy) string{
			func(v cypher.ExposesOrderBy) string { return endR(v.OrderByExpression(x).Ascending()) },
			func(v cypher.ExposesOrderBy) string { return endR(v.OrderBySortItem(x.Ascending())) },
			func(v cypher.ExposesOrderBy) string {
				return endR(v.OrderBySortItem(cypher.CreateAscendingSortItem(x)))
			},
			func(v cypher.ExposesOrderBy) string { return endR(v.OrderBySortItem(cypher.Sort(x).Ascending())) },
		}
	}),
	on("OrderBy descending and another, WITH", func(g *G, d int) []func(v cypher.ExposesOrderBy) string {
		x, y := g.expr(d).X, g.expr(d).X
		return []func(v cypher.ExposesOrderBy) string{
			func(v cypher.ExposesOrderBy) string {
				return endR(v.OrderByExpression(x).Descending().And1(y).Ascending())
			},
			func(v cypher.ExposesOrderBy) string { return endR(v.OrderBySortItem(x.Descending(), y.Ascending())) },
			func(v cypher.ExposesOrderBy) string {
				return endR(v.OrderBySortItem(cypher.CreateDescendingSortItem(x), cypher.CreateAscendingSortItem(y)))
			},
			func(v cypher.ExposesOrderBy) string {
				return endR(v.OrderBySortItem(cypher.Sort(x).Descending(), cypher.Sort(y).Ascending()))
			},
		}
	}),
	on("OrderBy undecided, RETURN", func(g *G, d int) []func(v cypher.TerminalExposesOrderBy) string {
		x := g.expr(d).X
		return []func(v cypher.TerminalExposesOrderBy) string{
			func(v cypher.TerminalExposesOrderBy) string { return sayB(v.OrderBy(x)) },
			func(v cypher.TerminalExposesOrderBy) string { return sayB(v.OrderBySortItem(cypher.Sort(x))) },
		}
	}),
	on("OrderBy descending and another, RETURN", func(g *G, d int) []func(v cypher.TerminalExposesOrderBy) string {
		x, y := g.expr(d).X, g.expr(d).X
		return []func(v cypher.TerminalExposesOrderBy) string{
			func(v cypher.TerminalExposesOrderBy) string { return sayB(v.OrderBy(x).Descending().And(y)) },
			func(v cypher.TerminalExposesOrderBy) string {
				return sayB(v.OrderBySortItem(x.Descending(), cypher.Sort(y)))
			},
			func(v cypher.TerminalExposesOrderBy) string {
				return sayB(v.OrderBySortItem(cypher.CreateDescendingSortItem(x)).And(y))
			},
		}
	}),
	on("Yield", func(g *G, d int) []func(v cypher.OngoingStandaloneCallWithoutArguments) string {
		l := names(g)
		var s []cypher.SymbolicName
		for _, n := range l {
			s = append(s, cypher.ASymbolic(n))
		}
		return []func(v cypher.OngoingStandaloneCallWithoutArguments) string{
			func(v cypher.OngoingStandaloneCallWithoutArguments) string { return endR(v.YieldString(l...)) },
			func(v cypher.OngoingStandaloneCallWithoutArguments) string { return endR(v.YieldSymbolic(s...)) },
		}
	}),
	on("Call1 Yield", func(g *G, d int) []func(v cypher.OngoingReading) string {
		q, l, x := names(g), names(g), g.expr(d).X
		var s []cypher.SymbolicName
		for _, n := range l {
			s = append(s, cypher.ASymbolic(n))
		}
		return []func(v cypher.OngoingReading) string{
			func(v cypher.OngoingReading) string { return endR(v.Call1(q...).WithArgs(x).YieldString(l...)) },
			func(v cypher.OngoingReading) string { return endR(v.Call1(q...).WithArgs(x).YieldSymbolic(s...)) },
		}
	}),
}

func rawValue(g *G) (interface{}, cypher.Expression) {
	switch g.r.n(6) {
	case 0:
		x := g.r.in(-1000, 1000)
		return x, cypher.LiteralOf(x)
	case 1:
		x := g.str()
		return x, cypher.LiteralOf(x)
	case 2:
		x := g.r.p(50)
		return x, cypher.LiteralOf(x)
	case 3:
		return nil, cypher.NullLiteralCreate()
	case 4:
		x := float64(g.r.in(-5000, 5000)) / 16
		return x, cypher.LiteralOf(x)
	}
	e := g.expr(1).X
	return e, e
}

func rawInt(g *G) int {
	if g.r.p(10) {
		return []int{math.MaxInt64, math.MinInt64, math.MaxInt32 + 1, 0, -1}[g.r.n(5)]
	}
	return g.r.in(-20, 3000)
}

func rawPairs(g *G) (raw, wrapped []interface{}) {
	seen := map[string]bool{}
	for k := g.r.some(1, 3); k > 0; k-- {
		n := g.name()
		if seen[n] {
			continue
		}
		seen[n] = true
		r, x := rawValue(g)
		raw, wrapped = append(raw, n, r), append(wrapped, n, x)
	}
	return
}

var sames []sameSay

func init() {
	add := func(s ...sameSay) { sames = append(sames, s...) }
	bin := func(name string, a func(x, y E_) cypher.Operation, b func(x, y E_) cypher.ExpressionContainer) {
		add(x2("operation "+name, func(x, y E_) E_ { return a(x, y) }, func(x, y E_) E_ { return b(x, y).Get() },
			func(x, y E_) E_ {
				c := cypher.ExpressionWrap(x)
				_ = c
				return b(cypher.ExpressionWrap(x).Get(), y).Get()
			}))
	}
	bin("+", cypher.OperationAdd, E_.Add)
	bin("-", cypher.OperationSubtract, E_.Subtract)
	bin("*", cypher.OperationMultiply, E_.Multiply)
	bin("/", cypher.OperationDivide, E_.Divide)
	bin("%", cypher.OperationRemainder, E_.Remainder)
	bin("^", cypher.OperationPow, E_.Pow)
	bin("concat", cypher.OperationConcat, E_.Concat)
	cmp := func(name string, op cypher.Operator, f func(x, y E_) cypher.ConditionContainer) {
		add(x2("comparison "+name, func(x, y E_) E_ { return f(x, y).Get() }, func(x, y E_) E_ { return cypher.ComparisonCreate(x, op, y) }))
	}
	cmp("=", cypher.EQUALITY, E_.IsEqualTo)
	cmp("<>", cypher.INEQUALITY, E_.IsNotEqualTo)
	cmp("<", cypher.LESS_THAN, E_.Lt)
	cmp("<=", cypher.LESS_THAN_OR_EQUAL_TO, E_.Lte)
	cmp(">", cypher.GREATER_THAN, E_.Gt)
	cmp(">=", cypher.GREATER_THAN_OR_EQUAL_TO, E_.Gte)
	cmp("STARTS WITH", cypher.STARTS_WITH, E_.StartWiths)
	cmp("ENDS WITH", cypher.ENDS_WITH, E_.EndsWith)
	cmp("CONTAINS", cypher.CONTAINS, E_.Contains)
	cmp("IN", cypher.IN, E_.In)
	cmp("=~", cypher.MATCHES, E_.Matches)
	add(x1("IsTrue", func(g *G, a E_) E_ { return a.IsTrue().Get() }, func(g *G, a E_) E_ { return a.IsEqualTo(cypher.LiteralTrue()).Get() }),
		x1("IsFalse", func(g *G, a E_) E_ { return a.IsFalse().Get() }, func(g *G, a E_) E_ { return a.IsEqualTo(cypher.LiteralFalse()).Get() }),
		x1("IsEmpty", func(g *G, a E_) E_ { return a.IsEmpty().Get() }, func(g *G, a E_) E_ { return cypher.Size(a).IsEqualTo(cypher.LiteralOf(0)).Get() }),
		x1("MatchesPattern", func(g *G, a E_) E_ { return a.MatchesPattern(g.str()).Get() }, func(g *G, a E_) E_ { return a.Matches(cypher.LiteralOf(g.str())).Get() },
			func(g *G, a E_) E_ { return a.Matches(cypher.StringLiteralCreate(g.str())).Get() }),
		x1("IsNull", func(g *G, a E_) E_ { return a.IsNull().Get() }, func(g *G, a E_) E_ { return cypher.ComparisonCreate1(cypher.IS_NULL, a) }),
		x1("IsNotNull", func(g *G, a E_) E_ { return a.IsNotNull().Get() }, func(g *G, a E_) E_ { return cypher.ComparisonCreate1(cypher.IS_NOT_NULL, a) }),
		x1("As", func(g *G, a E_) E_ { return a.As(g.name()).Get() }, func(g *G, a E_) E_ { return cypher.AliasedExpressionCreate(a, g.name()) }),
		x1("a list element", func(g *G, a E_) E_ { return cypher.CypherValueAt(a, rawInt(g)) },
			func(g *G, a E_) E_ { return cypher.CypherValueAtByExpression(a, cypher.LiteralOf(rawInt(g))) },
			func(g *G, a E_) E_ { return cypher.ValueAt(a, cypher.LiteralOf(rawInt(g))) }),
		x1("a sublist", func(g *G, a E_) E_ { return cypher.ASubList(a, rawInt(g), rawInt(g)) },
			func(g *G, a E_) E_ {
				return cypher.SubList(a, cypher.LiteralOf(rawInt(g)), cypher.LiteralOf(rawInt(g)))
			}),
		x1("a sublist from", func(g *G, a E_) E_ { return cypher.CypherSubListFrom(a, rawInt(g)) },
			func(g *G, a E_) E_ { return cypher.ASubListFromByExpression(a, cypher.LiteralOf(rawInt(g))) },
			func(g *G, a E_) E_ { return cypher.SubListFrom(a, cypher.LiteralOf(rawInt(g))) }),
		x1("a sublist until", func(g *G, a E_) E_ { return cypher.ASubListUntil(a, rawInt(g)) },
			func(g *G, a E_) E_ { return cypher.CypherSubListUntilByExpression(a, cypher.LiteralOf(rawInt(g))) },
			func(g *G, a E_) E_ { return cypher.SubListUntil(a, cypher.LiteralOf(rawInt(g))) }),
		x2("a list element by expression", func(a, b E_) E_ { return cypher.CypherValueAtByExpression(a, b) }, func(a, b E_) E_ { return cypher.ValueAt(a, b) }),
		x2("a sublist from by expression", func(a, b E_) E_ { return cypher.ASubListFromByExpression(a, b) }, func(a, b E_) E_ { return cypher.SubListFrom(a, b) }),
		x2("a sublist until by expression", func(a, b E_) E_ { return cypher.CypherSubListUntilByExpression(a, b) }, func(a, b E_) E_ { return cypher.SubListUntil(a, b) }),
		x1("a function by name", func(g *G, a E_) E_ { return cypher.FunctionInvocationCreateWithFunctionName("size", a) }, func(g *G, a E_) E_ { return cypher.Size(a) }),
		x2("CASE", func(a, b E_) E_ { return cypher.CaseExpression(a).When(b).Then(a) }, func(a, b E_) E_ { return cypher.CaseExpression(cypher.NameOrExpression(a)).When(b).Then(a) }),
		x2("a list", func(a, b E_) E_ { return cypher.ListOf(a, b) },
			func(a, b E_) E_ { return cypher.ListOrSingleExpression(a, b) }),
		x1("a list or a single expression", func(g *G, a E_) E_ { return cypher.ListOrSingleExpression(a) }, func(g *G, a E_) E_ { return a }),
		x1("a property of an expression", func(g *G, a E_) E_ { return cypher.APropertyByExpression(a, g.name()) }, func(g *G, a E_) E_ { return cypher.PropertyCreate2(a, g.name()) }),
	)
	// names
	add(sameSay{"a property", func(g *G, d int) []alt {
		l, n := []string{g.name()}, g.name()
		return exprAlts(
			func() E_ { return cypher.AProperty(l[0], n) },
			func() E_ { return cypher.APropertyByExpression(cypher.ASymbolic(l[0]), n) },
			func() E_ { return cypher.AnyNodeNamed(l[0]).Property(n) },
			func() E_ { return cypher.AnyNode().RelationshipTo(cypher.AnyNode()).Named(l[0]).Property(n) })
	}})
	byText := func(name string, a func(string) cypher.FunctionInvocation, b func(E_) cypher.FunctionInvocation) {
		add(sameSay{name + " of a text", func(g *G, d int) []alt {
			s := "x" + g.str()
			return exprAlts(func() E_ { return a(s) }, func() E_ { return b(cypher.LiteralOf(s)) }, func() E_ { return b(cypher.StringLiteralCreate(s)) })
		}})
	}
	byText("date", cypher.DateWithTemporal, cypher.DateWithExpression)
	byText("datetime", cypher.DateTimeWithTemporal, cypher.DateTimeWithExpression)
	byText("localdatetime", cypher.LocalDateTimeWithTemporal, cypher.LocalDateTimeWithExpression)
	byText("localtime", cypher.LocalTimeWithTemporal, cypher.LocalTimeWithExpression)
	byText("time", cypher.TimeWithTemporal, cypher.TimeWithExpression)
	byText("duration", cypher.DurationWithTemporal, cypher.DurationWithExpression)
	byParts := func(name string, a func(x, y, z int) cypher.FunctionInvocation, k ...string) {
		add(sameSay{name, func(g *G, d int) []alt {
			x, y, z := g.r.in(1, 3000), g.r.in(1, 12), g.r.in(1, 28)
			v := []int{x, y, z}
			var m, w []interface{}
			for i, n := range k {
				m, w = append(m, n, v[i]), append(w, n, cypher.LiteralOf(v[i]))
			}
			return exprAlts(func() E_ { return a(x, y, z) }, func() E_ { return cypher.DateWithComponents(cypher.MapOf(m...)) }, func() E_ { return cypher.DateWithComponents(cypher.NewMapExpression(w...)) })
		}})
	}
	byParts("calendar date", cypher.CalendarDate, "year", "month", "day")
	byParts("week date", cypher.WeekDate, "year", "week", "dayOfWeek")
	byParts("quarter date", cypher.QuarterDate, "year", "quarter", "dayOfQuarter")
	byParts("ordinal date", func(x, y, z int) cypher.FunctionInvocation { return cypher.OrdinalDate(x, y) }, "year", "ordinalDay")
	byZone := func(name string, a func(*time.Location) cypher.FunctionInvocation, b func(cypher.MapExpression) cypher.FunctionInvocation) {
		add(sameSay{name + " of a time zone", func(g *G, d int) []alt {
			z := []string{"Europe/Berlin", "UTC", "+01:00", "it's", "x y"}[g.r.n(5)]
			l := time.FixedZone(z, 3600)
			return exprAlts(func() E_ { return a(l) }, func() E_ { return b(cypher.MapOf("timezone", cypher.LiteralOf(z))) })
		}})
	}
	byZone("localdatetime", cypher.LocalDateTimeWithTimezone, cypher.LocalDateTimeWithComponents)
	byZone("localtime", cypher.LocalTimeWithTimezone, cypher.LocalTimeWithComponents)
	byZone("time", cypher.TimeWithTimeZone, cypher.TimeWithComponents)
	byNamed := func(name string, a func(cypher.Named) cypher.FunctionInvocation, b func(E_) cypher.FunctionInvocation) {
		add(sameSay{name + " of something named", func(g *G, d int) []alt {
			l := []string{g.name()}
			n := nameds(g, l)[0]
			return exprAlts(func() E_ { return a(n) }, func() E_ { return b(cypher.ASymbolic(l[0])) })
		}})
	}
	byNamed("collect", cypher.CollectByNamed, cypher.Collect)
	byNamed("collect distinct", cypher.CollectDistinctByNamed, cypher.CollectDistinct)
	byNode := func(name string, a func(cypher.Node) E_, b func(cypher.Node) E_) {
		add(sameSay{name, func(g *G, d int) []alt {
			n := cypher.ANode("L").NamedByString(g.name())
			return exprAlts(func() E_ { return a(n) }, func() E_ { return b(n) })
		}})
	}
	sym := func(n cypher.Node) E_ { return n.GetRequiredSymbolicName() }
	fn := cypher.FunctionInvocationCreateWithFunctionName
	byNode("count of a node", func(n cypher.Node) E_ { return cypher.Count(n) }, func(n cypher.Node) E_ { return cypher.CountByExpression(sym(n)) })
	byNode("count distinct of a node", func(n cypher.Node) E_ { return cypher.CountDistinct(n) }, func(n cypher.Node) E_ { return cypher.CountDistinctByExpression(sym(n)) })
	byNode("id of a node", func(n cypher.Node) E_ { return n.InternalId() }, func(n cypher.Node) E_ { return cypher.IdByNode(n) })
	byNode("id of a node by name", func(n cypher.Node) E_ { return fn("id", sym(n)) }, func(n cypher.Node) E_ { return cypher.IdByNode(n) })
	byNode("labels of a node", func(n cypher.Node) E_ { return n.Labels() }, func(n cypher.Node) E_ { return cypher.Labels(n) })
	byNode("labels of a node by name", func(n cypher.Node) E_ { return fn("labels", sym(n)) }, func(n cypher.Node) E_ { return cypher.Labels(n) })
	byNode("properties of a node", func(n cypher.Node) E_ { return cypher.FunctionProperties(n) }, func(n cypher.Node) E_ { return fn("properties", sym(n)) })
	byNode("an empty projection", func(n cypher.Node) E_ { return n.Project() }, func(n cypher.Node) E_ {
		return cypher.MapProjectionCreateWithMapExpression(n.GetSymbolicName(), cypher.MapOf())
	})
	byRel := func(name string, a func(cypher.Relationship) E_) {
		add(sameSay{name + " of a relationship", func(g *G, d int) []alt {
			n := g.name()
			r := cypher.AnyNode().RelationshipFrom(cypher.AnyNode(), "T").Named(n)
			return exprAlts(func() E_ { return a(r) }, func() E_ { return fn(name, cypher.ASymbolic(n)) })
		}})
	}
	byRel("id", func(r cypher.Relationship) E_ { return cypher.IdByRelationship(r) })
	byRel("type", func(r cypher.Relationship) E_ { return cypher.FunctionType(r) })
	byRel("startNode", func(r cypher.Relationship) E_ { return cypher.StartNode(r) })
	byRel("endNode", func(r cypher.Relationship) E_ { return cypher.EndNode(r) })
	byRel("properties", func(r cypher.Relationship) E_ { return cypher.FunctionPropertiesByRelationship(r) })
	add(sameSay{"projection of a node, a relationship and a name", func(g *G, d int) []alt {
		n := g.name()
		raw, _ := rawPairs(g)
		for i := 1; i < len(raw); i += 2 {
			raw[i] = g.expr(1).X
		}
		return exprAlts(func() E_ { return cypher.AnyNodeNamed(n).Project(raw...) },
			func() E_ { return cypher.AnyNode().RelationshipTo(cypher.AnyNode()).Named(n).Project(raw...) },
			func() E_ { return cypher.MapProjectionCreate(cypher.ASymbolic(n), raw...) })
	}})
	add(sameSay{"a map", func(g *G, d int) []alt {
		raw, wrapped := rawPairs(g)
		return exprAlts(func() E_ { return cypher.MapOf(raw...) }, func() E_ { return cypher.NewMapExpression(raw...) },
			func() E_ { return cypher.MapOf(wrapped...) }, func() E_ { return cypher.NewMapExpression(wrapped...) })
	}})
	add(sameSay{"a list of raw values", func(g *G, d int) []alt {
		var raw []interface{}
		var x []E_
		for k := g.r.some(1, 4); k > 0; k-- {
			r, w := rawValue(g)
			if _, is := r.(E_); is {
				r, w = k, cypher.LiteralOf(k)
			}
			raw, x = append(raw, r), append(x, w)
		}
		return exprAlts(func() E_ { return cypher.ListOfRaw(raw...) }, func() E_ { return cypher.ListOf(x...) })
	}})
	add(sameSay{"a list of literals", func(g *G, d int) []alt {
		var l []cypher.Literal
		for k := g.r.some(1, 4); k > 0; k-- {
			l = append(l, cypher.LiteralOf(rawInt(g)))
		}
		return exprAlts(func() E_ { return cypher.LiteralOf(l) }, func() E_ { return cypher.ListLiteralCreate(l) })
	}})
	add(sameSay{"an integer", func(g *G, d int) []alt {
		x := rawInt(g)
		return exprAlts(func() E_ { return cypher.LiteralOf(x) }, func() E_ { return cypher.NumberLiteralCreate(int64(x)) }, func() E_ { return cypher.NumberLiteralCreate1(x) })
	}})
	add(sameSay{"a float", func(g *G, d int) []alt {
		x := float64(g.r.in(-5000, 5000)) / 64
		return exprAlts(func() E_ { return cypher.LiteralOf(x) }, func() E_ { return cypher.NumberLiteralCreate2(x) })
	}})
	add(sameSay{"a text", func(g *G, d int) []alt {
		x := g.str()
		return exprAlts(func() E_ { return cypher.LiteralOf(x) }, func() E_ { return cypher.StringLiteralCreate(x) })
	}})
	add(sameSay{"a boolean", func(g *G, d int) []alt {
		x := g.r.p(50)
		f := cypher.LiteralFalse
		if x {
			f = cypher.LiteralTrue
		}
		return exprAlts(func() E_ { return cypher.LiteralOf(x) }, func() E_ { return f() }, func() E_ { return cypher.BooleanLiteralCreate(x) })
	}})
	add(sameSay{"NULL", func(g *G, d int) []alt {
		return exprAlts(func() E_ { return cypher.LiteralOf(nil) }, func() E_ { return cypher.NullLiteralCreate() })
	}})
	add(sameSay{"range", func(g *G, d int) []alt {
		a, b := rawInt(g), rawInt(g)
		return exprAlts(func() E_ { return cypher.RangeRaw(a, b) }, func() E_ { return cypher.Range(cypher.LiteralOf(a), cypher.LiteralOf(b)) })
	}})
	add(sameSay{"range with a step", func(g *G, d int) []alt {
		a, b, c := rawInt(g), rawInt(g), g.r.in(1, 9)
		return exprAlts(func() E_ { return cypher.RangeWithStepRaw(a, b, c) }, func() E_ {
			return cypher.RangeWithStep(cypher.LiteralOf(a), cypher.LiteralOf(b), cypher.LiteralOf(c))
		})
	}})
	add(x2("range without a step", func(a, b E_) E_ { return cypher.Range(a, b) }, func(a, b E_) E_ { return cypher.RangeWithStep(a, b, nil) }))
	// patterns
	add(sameSay{"a node with labels", func(g *G, d int) []alt {
		l := names(g)
		return patAlts(func() cypher.PatternElement { return cypher.NewNodeWithLabels(l[0], l[1:]...) },
			func() cypher.PatternElement { return cypher.NodeCreate3(l[0], l[1:]...) })
	}})
	add(sameSay{"a node with one label", func(g *G, d int) []alt {
		l := g.name()
		return patAlts(func() cypher.PatternElement { return cypher.NewNodeWithLabels(l) }, func() cypher.PatternElement { return cypher.ANode(l) })
	}})
	add(sameSay{"a node with a name", func(g *G, d int) []alt {
		n := g.name()
		return patAlts(func() cypher.PatternElement { return cypher.AnyNodeNamed(n) }, func() cypher.PatternElement { return cypher.AnyNode().NamedByString(n) },
			func() cypher.PatternElement { return cypher.AnyNode().Named(cypher.ASymbolic(n)) })
	}})
	add(sameSay{"a node with properties", func(g *G, d int) []alt {
		l := names(g)
		raw, wrapped := rawPairs(g)
		return patAlts(func() cypher.PatternElement {
			return cypher.NewNodeWithProperties(l[0], cypher.MapOf(raw...), l[1:]...)
		},
			func() cypher.PatternElement {
				return cypher.NewNodeWithLabels(l[0], l[1:]...).WithRawProperties(raw...)
			},
			func() cypher.PatternElement {
				return cypher.NewNodeWithLabels(l[0], l[1:]...).WithRawProperties(wrapped...)
			},
			func() cypher.PatternElement {
				return cypher.NewNodeWithLabels(l[0], l[1:]...).WithProperties(cypher.MapOf(raw...))
			})
	}})
	add(sameSay{"a relationship with properties", func(g *G, d int) []alt {
		raw, wrapped := rawPairs(g)
		n, t := g.name(), names(g)
		r := func() cypher.Relationship {
			return cypher.AnyNode().RelationshipTo(cypher.ANode("B"), t...)
		}
		return patAlts(func() cypher.PatternElement { return r().Named(n).WithRawProperties(raw...) },
			func() cypher.PatternElement { return r().Named(n).WithRawProperties(wrapped...) },
			func() cypher.PatternElement { return r().Named(n).WithProperties(cypher.MapOf(raw...)) },
			func() cypher.PatternElement { return r().WithProperties(cypher.MapOf(raw...)).NamedByString(n) })
	}})
	add(sameSay{"a length", func(g *G, d int) []alt {
		a, b := g.r.in(1, 9), g.r.in(1, 9)
		if a > b {
			a, b = b, a
		}
		r := func() cypher.Relationship { return cypher.AnyNode().RelationshipBetween(cypher.ANode("B")) }
		return patAlts(func() cypher.PatternElement { return r().Length(a, b) }, func() cypher.PatternElement { return r().Min(a).Max(b) },
			func() cypher.PatternElement { return r().Max(b).Min(a) })
	}})
	add(sameSay{"a length in a chain", func(g *G, d int) []alt {
		a, b, n, t := g.r.in(1, 9), g.r.in(10, 19), g.name(), names(g)
		c := func() cypher.RelationshipChain {
			return cypher.AnyNode().RelationshipBetween(cypher.ANode("B")).RelationshipTo(cypher.ANode("C"), t...)
		}
		return patAlts(func() cypher.PatternElement { return c().Length(a, b).NamedC(n) }, func() cypher.PatternElement { return c().NamedC(n).Min(a).Max(b) },
			func() cypher.PatternElement { return c().Max(b).NamedC(n).Min(a) })
	}})
	add(sameSay{"a path", func(g *G, d int) []alt {
		n, r := g.name(), chooseRel(g, d)
		return patAlts(func() cypher.PatternElement { return cypher.APath(n).DefinedBy(r) },
			func() cypher.PatternElement { return cypher.APathBySymbolic(cypher.ASymbolic(n)).DefinedBy(r) },
			func() cypher.PatternElement { return cypher.NamedPathBuilderWithName(cypher.ASymbolic(n)).DefinedBy(r) },
			func() cypher.PatternElement { return cypher.NamedPathBuilderWithNameByString(n).DefinedBy(r) })
	}})
	add(sameSay{"a shortest path", func(g *G, d int) []alt {
		n, r := g.name(), g.newRel(d, g.r.p(50)).Rel
		return patAlts(func() cypher.PatternElement { return cypher.AShortestPath(n).DefinedBy(r) },
			func() cypher.PatternElement { return cypher.AShortestPathBySymbolic(cypher.ASymbolic(n)).DefinedBy(r) },
			func() cypher.PatternElement {
				return cypher.NamedPathShortestPathWithName(cypher.ASymbolic(n), cypher.SHORTEST_PATH).DefinedBy(r)
			},
			func() cypher.PatternElement {
				return cypher.NamedPathShortestPathWithNameByString(n, cypher.SHORTEST_PATH).DefinedBy(r)
			})
	}})
	// conditions
	add(sameSay{"NOT", func(g *G, d int) []alt {
		c := g.cond(d).X
		return condAlts(func() cypher.Condition { return cypher.ConditionsNot(c) }, func() cypher.Condition { return c.Not().Get() })
	}})
	add(sameSay{"NOT a pattern", func(g *G, d int) []alt {
		p := chooseRel(g, d)
		return condAlts(func() cypher.Condition { return cypher.ConditionsNotByPattern(p) }, func() cypher.Condition { return cypher.ExcludedPatternCreate(p) })
	}})
	pat := func(name string, a func(cypher.Condition, cypher.RelationshipPattern) cypher.ConditionContainer, b func(cypher.Condition, cypher.Condition) cypher.ConditionContainer) {
		add(sameSay{name + " a pattern", func(g *G, d int) []alt {
			c, p := g.cond(d).X, chooseRel(g, d)
			return condAlts(func() cypher.Condition { return a(c, p).Get() }, func() cypher.Condition { return b(c, cypher.RelationshipPatternConditionCreate(p)).Get() })
		}})
	}
	pat("AND", cypher.Condition.AndPattern, cypher.Condition.And)
	pat("OR", cypher.Condition.OrPattern, cypher.Condition.Or)
	pat("XOR", cypher.Condition.XorPattern, cypher.Condition.Xor)
	add(sameSay{"has labels", func(g *G, d int) []alt {
		n, l := g.name(), names(g)
		return condAlts(func() cypher.Condition { return cypher.AnyNodeNamed(n).HasLabels(l...) }, func() cypher.Condition { return cypher.HasLabelConditionCreate(cypher.ASymbolic(n), l...) })
	}})
	add(sameSay{"exists(property)", func(g *G, d int) []alt {
		p := cypher.AProperty(g.name(), g.name())
		return exprAlts(func() E_ { return cypher.PredicateExists(p) }, func() E_ { return cypher.Exists(p) })
	}})
	quant := func(name string, a func(string) cypher.OngoingListBasedPredicateFunction, b func(cypher.SymbolicName) cypher.OngoingListBasedPredicateFunction) {
		add(sameSay{name + "()", func(g *G, d int) []alt {
			n, x, c := g.name(), g.expr(d).X, g.cond(d).X
			return condAlts(func() cypher.Condition { return a(n).In(x).Where(c) }, func() cypher.Condition { return b(cypher.ASymbolic(n)).In(x).Where(c) })
		}})
	}
	quant("all", cypher.PredicateAll, cypher.PredicateAllBySymbolicName)
	quant("any", cypher.PredicateAny, cypher.PredicateAnyBySymbolicName)
	quant("none", cypher.PredicateNone, cypher.PredicateNoneBySymbolicName)
	quant("single", cypher.PredicateSingle, cypher.PredicateSingleBySymbolicName)
	// comprehensions
	add(sameSay{"a list comprehension", func(g *G, d int) []alt {
		v, x, c, l := cypher.ASymbolic(g.name()), g.expr(d).X, g.cond(d).X, names(g)
		n := nameds(g, l)
		return exprAlts(func() E_ { return cypher.CypherListWith(v).In(x).Where(c).Returning(symbolics(l)...) },
			func() E_ { return cypher.ListComprehensionWith(v).In(x).Where(c).Returning(symbolics(l)...) },
			func() E_ { return cypher.CypherListWith(v).In(x).Where(c).ReturningByNamed(n...) })
	}})
	add(sameSay{"a pattern comprehension", func(g *G, d int) []alt {
		p, c, l := chooseRel(g, d), g.cond(d).X, names(g)
		n := nameds(g, l)
		return exprAlts(func() E_ { return cypher.ListBasedOn(p).Where(c).Returning(symbolics(l)...) },
			func() E_ { return cypher.PatternComprehensionBasedOn(p).Where(c).Returning(symbolics(l)...) },
			func() E_ { return cypher.ListBasedOn(p).Where(c).ReturningByNamed(n...) })
	}})
	add(sameSay{"a comprehension over a path", func(g *G, d int) []alt {
		p, q, l := cypher.APath(g.name()).DefinedBy(chooseRel(g, d)), chooseRel(g, d), names(g)
		return exprAlts(func() E_ { return cypher.ListBasedOnNamed(p).WherePattern(q).Returning(symbolics(l)...) },
			func() E_ {
				return cypher.PatternComprehensionBasedOnNamePath(p).WherePattern(q).Returning(symbolics(l)...)
			},
			func() E_ {
				return cypher.ListBasedOnNamed(p).Where(cypher.RelationshipPatternConditionCreate(q)).Returning(symbolics(l)...)
			})
	}})
	add(sameSay{"AND a pattern in a comprehension", func(g *G, d int) []alt {
		p, q, c, l := chooseRel(g, d), chooseRel(g, d), g.cond(d).X, names(g)
		return exprAlts(func() E_ { return cypher.ListBasedOn(p).Where(c).AndPattern(q).Returning(symbolics(l)...) },
			func() E_ {
				return cypher.ListBasedOn(p).Where(c).And(cypher.RelationshipPatternConditionCreate(q)).Returning(symbolics(l)...)
			})
	}})
	add(sameSay{"OR a pattern in a comprehension", func(g *G, d int) []alt {
		p, q, c, l := chooseRel(g, d), chooseRel(g, d), g.cond(d).X, names(g)
		return exprAlts(func() E_ { return cypher.ListBasedOn(p).Where(c).OrPattern(q).Returning(symbolics(l)...) },
			func() E_ {
				return cypher.ListBasedOn(p).Where(c).Or(cypher.RelationshipPatternConditionCreate(q)).Returning(symbolics(l)...)
			})
	}})
	// statements
	top := cypher.DefaultStatementBuilderCreate
	add(sameSay{"start with MATCH", func(g *G, d int) []alt {
		p, _ := g.pats(d, 3)
		return stAlts(func() cypher.BuildableStatement { return cypher.Match(p...).ReturningByString("z") },
			func() cypher.BuildableStatement { return cypher.MatchWithOption(false, p...).ReturningByString("z") },
			func() cypher.BuildableStatement { return top().Match(p...).ReturningByString("z") })
	}})
	add(sameSay{"start with OPTIONAL MATCH", func(g *G, d int) []alt {
		p, _ := g.pats(d, 3)
		return stAlts(func() cypher.BuildableStatement { return cypher.AnOptionalMatch(p...).ReturningByString("z") },
			func() cypher.BuildableStatement { return cypher.MatchWithOption(true, p...).ReturningByString("z") },
			func() cypher.BuildableStatement { return top().OptionalMatch(p...).ReturningByString("z") })
	}})
	add(sameSay{"start with CREATE", func(g *G, d int) []alt {
		p, _ := g.pats(d, 3)
		return stAlts(func() cypher.BuildableStatement { return cypher.Create(p...) }, func() cypher.BuildableStatement { return top().Create(p...) })
	}})
	add(sameSay{"start with MERGE", func(g *G, d int) []alt {
		p, _ := g.pats(d, 1)
		return stAlts(func() cypher.BuildableStatement { return cypher.Merge(p...) }, func() cypher.BuildableStatement { return top().Merge(p...) })
	}})
	add(sameSay{"start with WITH", func(g *G, d int) []alt {
		l := names(g)
		n := nameds(g, l)
		return stAlts(func() cypher.BuildableStatement { return cypher.WithByString(l...).ReturningByString("z") },
			func() cypher.BuildableStatement { return cypher.WithByNamed(n...).ReturningByString("z") },
			func() cypher.BuildableStatement { return cypher.With(symbolics(l)...).ReturningByString("z") },
			func() cypher.BuildableStatement { return top().With(symbolics(l)...).ReturningByString("z") },
			func() cypher.BuildableStatement {
				return cypher.With(cypher.CreateSymbolicNameByString(l...)...).ReturningByString("z")
			},
			func() cypher.BuildableStatement {
				return cypher.With(cypher.CreateSymbolicNameByNamed(n...)...).ReturningByString("z")
			})
	}})
	add(sameSay{"start with UNWIND", func(g *G, d int) []alt {
		x, y, u := g.expr(d).X, g.expr(d).X, g.name()
		if g.r.p(50) {
			return stAlts(func() cypher.BuildableStatement { return cypher.Unwind(cypher.ListOf(x)).As(u).ReturningByString("z") },
				func() cypher.BuildableStatement { return cypher.UnwindMulti(x).As(u).ReturningByString("z") },
				func() cypher.BuildableStatement { return top().Unwind(cypher.ListOf(x)).As(u).ReturningByString("z") })
		}
		return stAlts(func() cypher.BuildableStatement { return cypher.UnwindMulti(x, y).As(u).ReturningByString("z") },
			func() cypher.BuildableStatement {
				return cypher.Unwind(cypher.ListOf(x, y)).As(u).ReturningByString("z")
			})
	}})
	add(sameSay{"start with RETURN", func(g *G, d int) []alt {
		x, y := g.expr(d).X, g.expr(d).X
		return stAlts(func() cypher.BuildableStatement { return cypher.CypherReturning(x, y) },
			func() cypher.BuildableStatement { return top().Returning(x, y) })
	}})
	add(sameSay{"start with CALL {}", func(g *G, d int) []alt {
		x := g.expr(d).X
		st := func() cypher.Statement { s, _ := cypher.CypherReturning(x).Build(); return s }
		return stAlts(func() cypher.BuildableStatement { return cypher.ACallByStatement(st()).ReturningByString("z") },
			func() cypher.BuildableStatement { return top().Call(st()).ReturningByString("z") })
	}})
	add(sameSay{"a procedure", func(g *G, d int) []alt {
		l, x := names(g), g.expr(d).X
		v := []func() cypher.BuildableStatement{
			func() cypher.BuildableStatement { return cypher.ACall(l...).WithArgs(x) },
			func() cypher.BuildableStatement { return cypher.StatementCall(l...).WithArgs(x) }}
		if len(l) == 1 && !strings.Contains(l[0], ".") { // split at dots
			v = append(v, func() cypher.BuildableStatement { return cypher.ACallSimple(l[0]).WithArgs(x) })
		}
		return stAlts(v...)
	}})
	add(sameSay{"a procedure without arguments", func(g *G, d int) []alt {
		l := []string{strings.ReplaceAll(g.name(), ".", "·")} // ACallSimple splits its argument at the dots
		return stAlts(func() cypher.BuildableStatement { return cypher.ACall(l...) }, func() cypher.BuildableStatement { return cypher.StatementCall(l...) },
			func() cypher.BuildableStatement { return cypher.ACallSimple(l[0]) })
	}})
	add(sameSay{"a procedure as a function", func(g *G, d int) []alt {
		x, y := g.expr(d).X, g.expr(d).X
		return exprAlts(func() E_ { return cypher.ACall("apoc", "text", "f").WithArgs(x, y).AsFunction() }, func() E_ { return fn("apoc.text.f", x, y) },
			func() E_ { return cypher.StatementCall("apoc", "text", "f").WithArgs(x, y).AsFunction() })
	}})
	union := func(name string, f func(...cypher.Statement) cypher.Statement) {
		add(sameSay{name, func(g *G, d int) []alt {
			a, b, c := g.expr(d).X, g.expr(d).X, g.expr(d).X
			st := func(x E_) cypher.Statement { s, _ := cypher.CypherReturning(x).Build(); return s }
			return []alt{{"three", func() string { return sayStatement(f(st(a), st(b), st(c))) }},
				{"two and one", func() string { return sayStatement(f(f(st(a), st(b)), st(c))) }}}
		}})
	}
	union("UNION", cypher.Union)
	union("UNION ALL", cypher.UnionAll)
}

func checkC21() *check {
	return &check{
		id: "C21", quick: 500000, thorough: 3000000,
		rule: "groups of two to six alternatives: 100 for expressions, patterns, conditions and whole statements, and 27 for the calls of builder steps, applied to each of 22 kinds of steps whose type offers them; the same random arguments (names of every kind, raw values, expressions up to depth 2, patterns, conditions) are given to each alternative, and the rendered texts are compared byte by byte. Non-trivial: no error; distinct by group, step and text",
		one: func(c *C, i uint64) *fault {
			r := c.rng(i, "")
			p := profile{nasty: 12, depth: 1 + int(i%2)}
			g := newG(r, &p)
			var ft *fault
			f := guard("alternatives", func() { ft = c.alternatives(g, i) })
			if f != nil {
				return f
			}
			return ft
		},
	}
}

func (c *C) alternatives(g *G, i uint64) *fault {
	d := 1 + int(i%2)
	compare := func(name string, l []alt) *fault {
		first := l[0].f()
		if strings.HasPrefix(first, "error: ") {
			c.hit("error")
		} else {
			c.distinct(name+"|"+first, true)
			c.sample(first)
		}
		c.hit("group." + name)
		for _, x := range l[1:] {
			s := x.f()
			c.hit("alternatives compared")
			if s != first && !(strings.HasPrefix(s, "error: ") && strings.HasPrefix(first, "error: ")) {
				return &fault{kind: "differs", msg: name + ": alternative " + x.name + " gives another text", query: first, detail: "  other:    " + s}
			}
		}
		return nil
	}
	k := int(i / 2)
	if i%2 == 0 {
		s := sames[k%len(sames)]
		return compare(s.name, s.f(g, d))
	}
	rc := receivers[k%len(receivers)]
	mk, t := rc.f(g, d)
	var fit []stepSame
	for _, s := range stepSames {
		if t.Implements(s.t) {
			fit = append(fit, s)
		}
	}
	if len(fit) == 0 {
		c.hit("no group for " + rc.name)
		return nil
	}
	s := fit[(k/len(receivers))%len(fit)]
	var l []alt
	for j, f := range s.f(g, d) {
		f := f
		l = append(l, alt{fmt.Sprint(j), func() string { return f(mk()) }})
	}
	return compare(rc.name+" / "+s.name, l)
}
