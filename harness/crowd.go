package main

import (
	"fmt"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// Values in company: many of them in one list, map, call or statement, and deep inside of each other.
// What becomes of a value must not depend on how many stand next to it and what they are.

type val struct {
	raw interface{}
	lit func() cypher.Literal
	n   func() *N
}

func valOf(raw interface{}, n func() *N) val {
	return val{raw, func() cypher.Literal { return cypher.LiteralOf(raw) }, n}
}

func strVal(s string) val    { return valOf(s, func() *N { return mk("str", s) }) }
func intVal(v int) val       { return valOf(v, func() *N { return intN(v) }) }
func floatVal(v float64) val { return valOf(v, func() *N { return floatN(v) }) }

// crowd gives the values among others of all kinds.
func (g *G) crowd(own ...val) []val {
	k := g.r.in(2, 6)
	switch g.r.n(10) {
	case 0:
		k = g.r.in(7, 24)
	case 1:
		k = g.r.in(25, 70)
	}
	vs := make([]val, k)
	one := g.r.p(20)
	for j := range vs {
		if g.r.p(40) || one {
			vs[j] = own[g.r.n(len(own))]
			continue
		}
		raw, n := g.rawValue()
		if raw == nil {
			vs[j] = val{nil, func() cypher.Literal { return cypher.NullLiteralCreate() }, func() *N { return n }}
			continue
		}
		vs[j] = valOf(raw, func() *N { return n })
	}
	vs[g.r.n(k)] = own[0]
	return vs
}

func litsOf(vs []val) ([]cypher.Literal, []cypher.Expression, []interface{}, []*N) {
	var l []cypher.Literal
	var x []cypher.Expression
	var r []interface{}
	var n []*N
	for _, v := range vs {
		l, x, r, n = append(l, v.lit()), append(x, v.lit()), append(r, v.raw), append(n, v.n())
	}
	return l, x, r, n
}

// nestedLists puts the values into lists in lists.
func (g *G) nestedLists(vs []val, depth int) (cypher.Literal, *N) {
	n := mk("list", "")
	var l []cypher.Literal
	at := g.r.n(len(vs))
	for j, v := range vs {
		if j == at && depth > 0 {
			x, xn := g.nestedLists(vs, depth-1)
			l, n.C = append(l, x), append(n.C, xn)
		}
		if len(vs) > 4 && j != at && depth > 0 {
			continue
		}
		l, n.C = append(l, v.lit()), append(n.C, v.n())
	}
	return cypher.LiteralOf(l), n
}

func crowdRoutes(vs []val) []route {
	l, x, raw, n := litsOf(vs)
	keyed := func() ([]interface{}, *N) {
		m := mk("map", "")
		var a []interface{}
		for j, v := range vs {
			k := fmt.Sprint("k", j)
			a = append(a, k, v.raw)
			if j%3 == 2 {
				a[len(a)-1] = v.lit()
			}
			m.C = append(m.C, entN(k, v.n()))
		}
		return a, m
	}
	create := func(c ...*N) *N { return mk("query", "", mk("create", "", mk("path", "", c...))) }
	return []route{
		{"long ListLiteral", func(g *G) (cypher.BuildableStatement, *N) { return ret(cypher.LiteralOf(l), mk("list", "", n...)) }},
		{"long ListLiteral", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.ListLiteralCreate(l), mk("list", "", n...))
		}},
		{"long ListOfRaw", func(g *G) (cypher.BuildableStatement, *N) { return ret(cypher.ListOfRaw(raw...), mk("list", "", n...)) }},
		{"long ListOf", func(g *G) (cypher.BuildableStatement, *N) { return ret(cypher.ListOf(x...), mk("list", "", n...)) }},
		{"nested lists", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(g.nestedLists(vs, g.r.in(1, 12)))
		}},
		{"long map", func(g *G) (cypher.BuildableStatement, *N) {
			a, m := keyed()
			return ret(cypher.MapOf(a...), m)
		}},
		{"maps in maps", func(g *G) (cypher.BuildableStatement, *N) {
			a, m := keyed()
			var e cypher.Expression = cypher.MapOf(a...)
			for k := g.r.in(1, 8); k > 0; k-- {
				b, o := keyed()
				at := 2*g.r.n(len(vs)) + 1
				b[at], o.C[at/2] = e, entN(fmt.Sprint("k", at/2), m)
				e, m = cypher.MapOf(b...), o
			}
			return ret(e, m)
		}},
		{"many properties of a node", func(g *G) (cypher.BuildableStatement, *N) {
			a, m := keyed()
			return cypher.Create(cypher.ANode("A").WithRawProperties(a...)), create(mk("node", "", mk("label", "A"), m))
		}},
		{"many properties of a relationship", func(g *G) (cypher.BuildableStatement, *N) {
			a, m := keyed()
			rn := relN("->", mk("types", "", mk("type", "T")))
			rn.C[3] = m
			return cypher.Create(cypher.AnyNode().RelationshipTo(cypher.AnyNode(), "T").WithRawProperties(a...)), create(mk("node", ""), rn, mk("node", ""))
		}},
		{"many arguments", func(g *G) (cypher.BuildableStatement, *N) {
			return cypher.ACall("a", "b").WithArgs(x...), mk("query", "", mk("call", "a\x00b", mk("args", "", n...), mk("yield", ""), none))
		}},
		{"many items", func(g *G) (cypher.BuildableStatement, *N) {
			return cypher.CypherReturning(x...), retN(n...)
		}},
		{"coalesce of many", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.Coalesce(x...), fnN("coalesce", n...))
		}},
		{"many assignments", func(g *G) (cypher.BuildableStatement, *N) {
			v := cypher.AnyNodeNamed("n")
			s := mk("set", "")
			var e []cypher.Expression
			for j, y := range x {
				e = append(e, v.Property(fmt.Sprint("k", j)), y)
				s.C = append(s.C, mk("assign", "=", mk("prop", fmt.Sprint("k", j), mk("name", "n")), n[j]))
			}
			return cypher.Match(v).Set(e...), mk("query", "", mk("match", "", mk("path", "", mk("node", "n"))), s)
		}},
		{"CASE of many", func(g *G) (cypher.BuildableStatement, *N) {
			c := mk("case", "", none)
			e := cypher.GenericCaseExpression()
			var last cypher.CaseEnding
			for j, y := range x {
				k := len(x) - 1 - j
				w := cypher.ASymbolic("x").IsEqualTo(y).Get()
				if j == 0 {
					last = e.When(w).Then(x[k])
				} else {
					last = last.When(w).Then(x[k])
				}
				c.C = append(c.C, mk("when", "", mk("cmp", "=", mk("name", "x"), n[j]), n[k]))
			}
			return ret(last, c)
		}},
		{"concatenation of many", func(g *G) (cypher.BuildableStatement, *N) {
			e, m := cypher.Expression(cypher.LiteralOf("")), mk("str", "")
			for j, y := range x {
				e, m = cypher.OperationCreate(e, cypher.CONCAT, y), mk("bin", "+", m, n[j])
			}
			return ret(e, m)
		}},
	}
}

// crowded puts the values into one of the routes for many.
func (c *C) crowded(g *G, own ...val) *fault {
	vs := g.crowd(own...)
	rts := crowdRoutes(vs)
	if ft := c.routed(g, rts[g.r.n(len(rts))]); ft != nil {
		ft.detail += fmt.Sprintf("\n  values: %d, among them %#v", len(vs), own[0].raw)
		return ft
	}
	c.hit("in company")
	l, _, _, n := litsOf(vs)
	return c.spelled(mk("list", "", n...), func() string { return cypher.LiteralOf(l).AsString() })
}
