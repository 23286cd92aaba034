package main

import (
	"github.com/manhcuongbk56/cypher-go-dsl"
)

// The constructors of the single elements say the same as the functions and methods people use.

func init() {
	add := func(s ...sameSay) { sames = append(sames, s...) }
	group := func(name string, f func(g *G, d int) []alt) { add(sameSay{name, f}) }
	aliased := func(x E_, a string) cypher.AliasedExpression { return cypher.AliasedExpressionCreate(x, a) }

	group("a name by constructors", func(g *G, d int) []alt {
		n, x := g.name(), g.expr(1).X
		return exprAlts(func() E_ { return cypher.ASymbolic(n) }, func() E_ { return cypher.SymbolicNameCreate(n) },
			func() E_ { return aliased(x, n).AsName() }, func() E_ { return cypher.SymbolicNameCreate(aliased(x, n).GetAlias()) },
			func() E_ { return cypher.AnyNodeNamed(n).GetSymbolicName() },
			func() E_ { return cypher.NameOrExpression(cypher.ASymbolic(n)) })
	})
	group("a parameter by constructors", func(g *G, d int) []alt {
		n := g.name()
		return exprAlts(func() E_ { return cypher.AParam(n) }, func() E_ { return cypher.ParameterCreate(n) })
	})
	group("a replaced alias", func(g *G, d int) []alt {
		x, n, m := g.expr(d).X, g.name(), g.name()
		return exprAlts(func() E_ { return x.As(n).Get() }, func() E_ { return aliased(x, m).Aliased(n) }, func() E_ { return aliased(x, m).Aliased(m).Aliased(n) })
	})
	group("a list by constructors", func(g *G, d int) []alt {
		var x []E_
		for k := g.r.some(1, 4); k > 0; k-- {
			x = append(x, g.expr(d).X)
		}
		return exprAlts(func() E_ { return cypher.ListOf(x...) }, func() E_ { return cypher.ListExpressionCreate1(x...) },
			func() E_ { return cypher.ListExpressionCreate(cypher.ExpressionListCreate(x)) },
			func() E_ { return cypher.ListExpressionCreate(cypher.NewExpressionList(x...)) })
	})
	group("a map by constructors", func(g *G, d int) []alt {
		var raw []interface{}
		var l []E_
		for k := g.r.some(1, 4); k > 0; k-- {
			n, x := g.key(), g.expr(d).X
			raw = append(raw, n, x)
			l = append(l, cypher.KeyValueMapEntryCreate(n, x))
		}
		at := g.r.n(len(l) + 1)
		return exprAlts(func() E_ { return cypher.MapOf(raw...) }, func() E_ { return cypher.MapExpressionCreate(l) },
			func() E_ { return cypher.MapExpressionCreate(l[:at]).AddEntries(l[at:]) },
			func() E_ { return cypher.MapOf(raw[:2*at]...).AddEntries(l[at:]) })
	})
	group("CASE by constructors", func(g *G, d int) []alt {
		x, e := g.expr(d).X, g.expr(d).X
		var w, t []E_
		for k := g.r.some(1, 3); k > 0; k-- {
			w, t = append(w, g.expr(1).X), append(t, g.expr(1).X)
		}
		ws := func() []cypher.CaseWhenThen {
			var l []cypher.CaseWhenThen
			for i := range w {
				l = append(l, cypher.CaseWhenThenCreate(w[i], t[i]))
			}
			return l
		}
		simple, other, otherwise := g.r.p(50), g.r.p(50), g.r.p(50)
		end := func(c cypher.CaseEnding) E_ {
			if otherwise {
				return c.ElseDefault(e)
			}
			return c
		}
		return exprAlts(func() E_ {
			c := cypher.GenericCaseExpression()
			if simple {
				c = cypher.CaseExpression(x)
			}
			b := c.When(w[0]).Then(t[0])
			for i := 1; i < len(w); i++ {
				b = b.When(w[i]).Then(t[i])
			}
			return end(b)
		}, func() E_ {
			switch {
			case simple && other:
				return end(cypher.SimpleCaseCreate(x, ws()))
			case simple:
				return end(cypher.EndingSimpleCaseCreate(x, ws()))
			case other:
				return end(cypher.GenericCaseCreate(ws()))
			}
			return end(cypher.EndingGenericCaseCreate(ws()))
		})
	})
	group("a list comprehension by constructors", func(g *G, d int) []alt {
		v, x, c, r := cypher.ASymbolic(g.name()), g.expr(d).X, g.cond(d).X, g.expr(d).X
		where, returns := g.r.p(50), g.r.p(50)
		return exprAlts(func() E_ {
			b := cypher.CypherListWith(v).In(x)
			switch {
			case where && returns:
				return b.Where(c).Returning(r)
			case where:
				return b.Where(c).ReturningDefault()
			case returns:
				return b.Returning(r)
			}
			return b.ReturningDefault()
		}, func() E_ {
			w, def := cypher.Where{}, E_(nil)
			if where {
				w = cypher.WhereCreate(c)
			}
			if returns {
				def = r
			}
			return cypher.ListComprehensionCreate(v, x, w, def)
		})
	})
	group("a pattern comprehension by constructors", func(g *G, d int) []alt {
		p, c, r, n := chooseRel(g, d), g.cond(d).X, g.expr(d).X, g.name()
		where, path := g.r.p(50), g.r.p(50)
		return exprAlts(func() E_ {
			b := cypher.ListBasedOn(p)
			if path {
				b = cypher.ListBasedOnNamed(cypher.APath(n).DefinedBy(p))
			}
			if where {
				return b.Where(c).Returning(r)
			}
			return b.Returning(r)
		}, func() E_ {
			w := cypher.Where{}
			if where {
				w = cypher.WhereCreate(c)
			}
			if path {
				return cypher.PatternComprehensionCreate(cypher.NamedPathCreate(cypher.ASymbolic(n), p), w, r)
			}
			return cypher.PatternComprehensionCreate(p, w, r)
		})
	})
	group("a path by constructors", func(g *G, d int) []alt {
		n, p := g.name(), chooseRel(g, d)
		return patAlts(func() cypher.PatternElement { return cypher.APath(n).DefinedBy(p) },
			func() cypher.PatternElement { return cypher.NamedPathCreate(cypher.ASymbolic(n), p) })
	})
	group("a shortest path by constructors", func(g *G, d int) []alt {
		n, p := g.name(), g.newRel(d, false).Rel
		return patAlts(func() cypher.PatternElement { return cypher.AShortestPath(n).DefinedBy(p) },
			func() cypher.PatternElement {
				return cypher.NamedPathCreate1(cypher.ASymbolic(n), cypher.ShortestPath(p))
			})
	})
	group("a node by constructors", func(g *G, d int) []alt {
		n, l := g.name(), names(g)
		m := g.mapExpr(d, 1).X.(cypher.MapExpression)
		return patAlts(func() cypher.PatternElement {
			return cypher.NewNodeWithLabels(l[0], l[1:]...).WithProperties(m).NamedByString(n)
		}, func() cypher.PatternElement {
			return cypher.NewNodeWithProperties(l[0], m, l[1:]...).Named(cypher.ASymbolic(n))
		}, func() cypher.PatternElement {
			return cypher.NodeCreate1(l[0], cypher.PropertiesCreate(m), l[1:]...).NamedByString(n)
		}, func() cypher.PatternElement { return cypher.NodeCreate5(l[0], m, l[1:]...).NamedByString(n) },
			func() cypher.PatternElement {
				return cypher.NodeCreate4(m, cypher.NodeCreate3(l[0], l[1:]...)).NamedByString(n)
			}, func() cypher.PatternElement {
				return cypher.NewNodeWithLabels(l[0], l[1:]...).NamedByString(n).WithProperties(m)
			})
	})
	group("a relationship by constructors", func(g *G, d int) []alt {
		l, r := g.newNode(true, d).Node, g.newNode(true, d).Node
		t := names(g)
		switch g.r.n(3) {
		case 0:
			return patAlts(func() cypher.PatternElement { return l.RelationshipTo(r, t...) },
				func() cypher.PatternElement { return cypher.RelationshipCreate(l, cypher.LTR(), r, t...) })
		case 1:
			return patAlts(func() cypher.PatternElement { return l.RelationshipFrom(r, t...) },
				func() cypher.PatternElement { return cypher.RelationshipCreate(l, cypher.RTL(), r, t...) })
		}
		return patAlts(func() cypher.PatternElement { return l.RelationshipBetween(r, t...) },
			func() cypher.PatternElement { return cypher.RelationshipCreate(l, cypher.UNI(), r, t...) })
	})
	group("a property by constructors", func(g *G, d int) []alt {
		x, n, k := g.expr(d).X, g.name(), g.name()
		if g.r.p(50) {
			return exprAlts(func() E_ { return cypher.AnyNodeNamed(n).Property(k) }, func() E_ { return cypher.PropertyCreate(cypher.AnyNodeNamed(n), k) },
				func() E_ { return cypher.PropertyCreate1(cypher.ASymbolic(n), cypher.PropertyLookupCreate(k)) })
		}
		return exprAlts(func() E_ { return cypher.APropertyByExpression(x, k) }, func() E_ { return cypher.PropertyCreate2(x, k) },
			func() E_ { return cypher.PropertyCreate1(x, cypher.PropertyLookupCreate(k)) })
	})
	group("labels by constructors", func(g *G, d int) []alt {
		n, l := g.name(), names(g)
		return condAlts(func() cypher.Condition { return cypher.AnyNodeNamed(n).HasLabels(l...) },
			func() cypher.Condition {
				var x []cypher.NodeLabel
				for _, s := range l {
					x = append(x, cypher.NodeLabelCreate(s))
				}
				return cypher.HasLabelConditionCreate1(cypher.ASymbolic(n), x)
			})
	})
	group("a statement by constructors", func(g *G, d int) []alt {
		p, c, x, y := g.pat(d).x, g.cond(d).X, g.expr(d).X, g.expr(d).X
		optional, where, distinct, order, skip, limit := g.r.p(30), g.r.p(50), g.r.p(30), g.r.p(40), g.r.p(30), g.r.p(30)
		a, b := g.r.in(1, 1000), g.r.in(1, 1000)
		one := func() string {
			m := cypher.MatchWithOption(optional, p)
			var r cypher.ExposesReturning = m
			if where {
				r = m.Where(c)
			}
			var v interface {
				cypher.TerminalExposesOrderBy
				cypher.TerminalExposesSkip
				cypher.TerminalExposesLimit
				cypher.BuildableStatement
			}
			if distinct {
				v = r.ReturningDistinct(x, y)
			} else {
				v = r.Returning(x, y)
			}
			var e interface {
				cypher.TerminalExposesSkip
				cypher.TerminalExposesLimit
				cypher.BuildableStatement
			} = v
			if order {
				e = v.OrderBySortItem(cypher.Sort(x), cypher.Sort(y).Descending())
			}
			var f interface {
				cypher.TerminalExposesLimit
				cypher.BuildableStatement
			} = e
			if skip {
				f = e.Skip(a)
			}
			var z cypher.BuildableStatement = f
			if limit {
				z = f.Limit(b)
			}
			return sayB(z)
		}
		two := func() string {
			w, o, s, l := cypher.Where{}, cypher.Order{}, cypher.Skip{}, cypher.Limit{}
			if where {
				w = cypher.WhereCreate(c)
			}
			if order {
				o = cypher.OrderCreate([]cypher.SortItem{cypher.SortItemCreate(x, cypher.UNDEFINED), cypher.SortItemCreate(y, cypher.DESC)})
			}
			if skip {
				s = cypher.SkipCreate(a)
			}
			if limit {
				l = cypher.LimitCreate(b)
			}
			m := cypher.MatchPhraseCreate(optional, cypher.PatternCreate([]cypher.PatternElement{p}), w)
			r := cypher.ReturnCreate1(distinct, cypher.NewExpressionList(x, y), o, s, l)
			return sayStatement(cypher.SinglePartQueryCreate([]cypher.Visitable{m}, r))
		}
		return []alt{{"built", one}, {"constructed", two}}
	})
	group("functions by constructors", func(g *G, d int) []alt {
		x, y := g.expr(d).X, g.expr(d).X
		switch g.r.n(6) {
		case 0:
			return exprAlts(func() E_ { return cypher.Size(x) }, func() E_ { return cypher.FunctionInvocationCreate(cypher.SIZE, x) })
		case 1:
			return exprAlts(func() E_ { return cypher.Distance(x, y) }, func() E_ { return cypher.FunctionInvocationCreate(cypher.DISTANCE, x, y) })
		case 2:
			return exprAlts(func() E_ { return cypher.SumDistinct(x) }, func() E_ { return cypher.FunctionInvocationCreateDistinct(cypher.SUM, x) })
		case 3:
			return exprAlts(func() E_ { return cypher.CollectDistinct(x) }, func() E_ { return cypher.FunctionInvocationCreateDistinct(cypher.COLLECT, x) })
		case 4:
			return exprAlts(func() E_ { return cypher.Localtime() }, func() E_ { return cypher.FunctionInvocationCreate1(cypher.LOCALTIME) })
		}
		p := chooseRel(g, d)
		return exprAlts(func() E_ { return cypher.SizeByPattern(p) }, func() E_ { return cypher.FunctionInvocationCreateWithPatternElement(cypher.SIZE, p) },
			func() E_ {
				return cypher.FunctionInvocationCreateWithPattern(cypher.SIZE, cypher.PatternCreate([]cypher.PatternElement{p}))
			})
	})
}
