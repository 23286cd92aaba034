package main

import (
	"fmt"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// Constructs nested or repeated many more times than the random cases do, compared with what was built. The random
// cases reach all shapes, these reach sizes.

type deepCase struct {
	name string
	f    func(n int) (cypher.BuildableStatement, *N)
}

func deepCases(id string) []deepCase {
	x := cypher.ASymbolic("x")
	xn := mk("name", "x")
	p := func(k int) (cypher.Expression, *N) {
		v := fmt.Sprint("p", k)
		return cypher.AParam(v), mk("param", v)
	}
	nest := func(f func(e cypher.Expression, k int) cypher.Expression, fn func(n *N, k int) *N) func(n int) (cypher.BuildableStatement, *N) {
		return func(n int) (cypher.BuildableStatement, *N) {
			var e cypher.Expression = x
			t := xn
			for k := 0; k < n; k++ {
				e, t = f(e, k), fn(t, k)
			}
			return ret(e, t)
		}
	}
	flat := func(f func(e []cypher.Expression) cypher.Expression, fn func(n []*N) *N) func(n int) (cypher.BuildableStatement, *N) {
		return func(n int) (cypher.BuildableStatement, *N) {
			var e []cypher.Expression
			var t []*N
			for k := 0; k < n; k++ {
				v, vn := p(k)
				e, t = append(e, v), append(t, vn)
			}
			return ret(f(e), fn(t))
		}
	}
	returned := func(c ...*N) *N {
		return mk("query", "", append(c, mk("return", "", mk("items", "", xn), none, none, none))...)
	}
	conds := func(join func(l, r Cd, k int) Cd) func(n int) (cypher.BuildableStatement, *N) {
		return func(n int) (cypher.BuildableStatement, *N) {
			at := func(k int) Cd {
				e, en := p(k)
				return Cd{X: e.IsEqualTo(x).Get(), N: mk("cmp", "=", en, xn)}
			}
			c := at(0)
			for k := 1; k < n; k++ {
				c = join(c, at(k), k)
			}
			return cypher.Match(cypher.AnyNodeNamed("x")).Where(c.X).Returning(x),
				returned(mk("match", "", mk("path", "", mk("node", "x")), mk("where", "", c.N)))
		}
	}
	nodeAt := func(k int) (cypher.Node, *N) {
		v, l := fmt.Sprint("n", k), fmt.Sprint("L", k)
		n := mk("node", v, mk("label", l))
		n.ID = k + 1
		return cypher.ANode(l).NamedByString(v), n
	}
	with := func(c ...*N) *N { return mk("with", "", mk("items", "", c...), none, none, none, none) }
	switch id {
	case "C01":
		return []deepCase{
			{"MATCH after MATCH", func(n int) (cypher.BuildableStatement, *N) {
				v, vn := nodeAt(0)
				m := cypher.Match(v)
				c := []*N{mk("match", "", mk("path", "", vn))}
				for k := 1; k < n; k++ {
					v, vn = nodeAt(k)
					if k%3 == 2 {
						m = m.OptionalMatch(v)
						c = append(c, mk("optmatch", "", mk("path", "", vn)))
						continue
					}
					m = m.Match(v)
					c = append(c, mk("match", "", mk("path", "", vn)))
				}
				return m.Returning(x), returned(c...)
			}},
			{"WITH after WITH", func(n int) (cypher.BuildableStatement, *N) {
				e, en := p(0)
				w := cypher.With(x).With(x, e)
				c := []*N{with(xn), with(xn, en)}
				for k := 1; k < n; k++ {
					e, en = p(k)
					w = w.With(e)
					c = append(c, with(en))
				}
				return w.Returning(x), returned(c...)
			}},
		}
	case "C06":
		and := func(op string) func(l, r Cd, k int) Cd {
			return func(l, r Cd, k int) Cd {
				o := combine(op, l, r)
				switch op {
				case "and":
					o.X = l.X.And(r.X).Get()
				case "or":
					o.X = l.X.Or(r.X).Get()
				default:
					o.X = l.X.Xor(r.X).Get()
				}
				return o
			}
		}
		return []deepCase{
			{"AND of many", conds(and("and"))},
			{"OR of many", conds(and("or"))},
			{"AND and OR in turns", conds(func(l, r Cd, k int) Cd { return and([]string{"and", "or"}[k/2%2])(l, r, k) })},
			{"NOT of NOT", conds(func(l, r Cd, k int) Cd { return Cd{X: l.X.Not().Get(), N: mk("not", "", l.N)} })},
		}
	case "C07":
		return []deepCase{
			{"sum in a sum, on the left", nest(func(e cypher.Expression, k int) cypher.Expression {
				v, _ := p(k)
				return e.Add(v).Get()
			}, func(n *N, k int) *N {
				_, vn := p(k)
				return mk("bin", "+", n, vn)
			})},
			{"difference in a product, on the right", nest(func(e cypher.Expression, k int) cypher.Expression {
				v, _ := p(k)
				if k%2 == 0 {
					return v.Subtract(e).Get()
				}
				return v.Multiply(e).Get()
			}, func(n *N, k int) *N {
				_, vn := p(k)
				return mk("bin", []string{"-", "*"}[k%2], vn, n)
			})},
		}
	case "C08":
		return []deepCase{
			{"chain", func(n int) (cypher.BuildableStatement, *N) {
				a, an := nodeAt(0)
				b, bn := nodeAt(1)
				d, dn := nodeAt(2)
				r := a.RelationshipTo(b, "T0").RelationshipFrom(d, "T1")
				rel := func(dir, t string) *N { return relN(dir, mk("types", "", mk("type", t))) }
				c := []*N{an, rel("->", "T0"), bn, rel("<-", "T1"), dn}
				for k := 3; k < n; k++ {
					v, vn := nodeAt(k)
					t := fmt.Sprint("T", k)
					r = r.RelationshipTo(v, t)
					c = append(c, rel("->", t), vn)
				}
				return cypher.Create(r), mk("query", "", mk("create", "", mk("path", "", c...)))
			}},
			{"labels and types", func(n int) (cypher.BuildableStatement, *N) {
				var l []string
				node := mk("node", "")
				types := mk("types", "")
				for k := 0; k < n; k++ {
					v := fmt.Sprint("a", k)
					l = append(l, v)
					node.C = append(node.C, mk("label", v))
					types.C = append(types.C, mk("type", v))
				}
				return cypher.Create(cypher.NewNodeWithLabels(l[0], l[1:]...).RelationshipTo(cypher.AnyNode(), l...)),
					mk("query", "", mk("create", "", mk("path", "", node, relN("->", types), mk("node", ""))))
			}},
		}
	case "C17":
		return []deepCase{
			{"function of a function", nest(func(e cypher.Expression, k int) cypher.Expression { return cypher.Coalesce(e, x) },
				func(n *N, k int) *N { return fnN("coalesce", n, xn) })},
			{"many arguments", flat(func(e []cypher.Expression) cypher.Expression { return cypher.Coalesce(e...) },
				func(n []*N) *N { return fnN("coalesce", n...) })},
		}
	case "C18":
		return []deepCase{
			{"many items", func(n int) (cypher.BuildableStatement, *N) {
				items, sorts := mk("items", ""), mk("order", "")
				var e []cypher.Expression
				var s []cypher.SortItem
				for k := 0; k < n; k++ {
					v, vn := p(k)
					e, items.C = append(e, v), append(items.C, vn)
					v, vn = p(k + n)
					if k%2 == 0 {
						s, sorts.C = append(s, v.Descending()), append(sorts.C, mk("sort", "DESC", vn))
					} else {
						s, sorts.C = append(s, cypher.Sort(v)), append(sorts.C, mk("sort", "", vn))
					}
				}
				return cypher.CypherReturning(e...).OrderBySortItem(s...),
					mk("query", "", mk("return", "", items, sorts, none, none))
			}},
		}
	case "C20":
		return []deepCase{
			{"list in a list", nest(func(e cypher.Expression, k int) cypher.Expression { return cypher.ListOf(e, x) },
				func(n *N, k int) *N { return mk("list", "", n, xn) })},
			{"map in a map", nest(func(e cypher.Expression, k int) cypher.Expression { return cypher.MapOf("a", e, "b", x) },
				func(n *N, k int) *N { return mk("map", "", entN("a", n), entN("b", xn)) })},
			{"CASE in a CASE", nest(func(e cypher.Expression, k int) cypher.Expression {
				return cypher.CaseExpression(x).When(x).Then(e)
			}, func(n *N, k int) *N { return mk("case", "", xn, mk("when", "", xn, n)) })},
			{"long list", flat(func(e []cypher.Expression) cypher.Expression { return cypher.ListOf(e...) },
				func(n []*N) *N { return mk("list", "", n...) })},
			{"long CASE", flat(func(e []cypher.Expression) cypher.Expression {
				c := cypher.CaseExpression(x).When(e[0]).Then(x)
				for k, v := range e[1:] {
					c = c.When(v).Then(e[k])
				}
				return c
			}, func(n []*N) *N {
				t := mk("case", "", xn, mk("when", "", n[0], xn))
				for k, v := range n[1:] {
					t.C = append(t.C, mk("when", "", v, n[k]))
				}
				return t
			})},
		}
	case "C09":
		return []deepCase{
			{"nodes met again in reverse", func(n int) (cypher.BuildableStatement, *N) {
				var v []cypher.Node
				var t []*N
				first, again := mk("match", ""), mk("create", "")
				var ps, back []cypher.PatternElement
				for k := 0; k < n; k++ {
					e, en := nodeAt(k)
					v, t = append(v, e), append(t, en)
					ps, first.C = append(ps, e), append(first.C, mk("path", "", en))
				}
				for k := n - 1; k >= 0; k-- {
					back, again.C = append(back, v[k]), append(again.C, mk("path", "", t[k]))
				}
				return cypher.Match(ps...).Create(back...), mk("query", "", first, again)
			}},
		}
	case "C10":
		return []deepCase{
			{"many aliases, used in reverse", func(n int) (cypher.BuildableStatement, *N) {
				items, again := mk("items", ""), mk("items", "")
				var e, back []cypher.Expression
				var l []*N
				for k := 0; k < n; k++ {
					v, vn := p(k)
					a := fmt.Sprint("a", k)
					vn.Alias = a
					e, items.C = append(e, v.As(a).Get()), append(items.C, mk("alias", a, vn))
					l = append(l, mk("alias", a, vn))
				}
				for k := n - 1; k >= 0; k-- {
					back, again.C = append(back, e[k]), append(again.C, l[k])
				}
				return cypher.With(e...).Returning(back...),
					mk("query", "", mk("with", "", items, none, none, none, none), mk("return", "", again, none, none, none))
			}},
		}
	case "C19":
		single := func(k int) (cypher.Statement, *N) {
			e, en := p(k)
			st, err := cypher.CypherReturning(e).Build()
			if err != nil {
				panic(err)
			}
			return st, mk("query", "", mk("return", "", mk("items", "", en), none, none, none))
		}
		return []deepCase{
			{"union of many", func(n int) (cypher.BuildableStatement, *N) {
				var l []cypher.Statement
				t := mk("union", "")
				for k := 0; k < n; k++ {
					s, sn := single(k)
					l, t.C = append(l, s), append(t.C, sn)
				}
				return builtStatement{cypher.Union(l...)}, t
			}},
			{"union all, extended one by one", func(n int) (cypher.BuildableStatement, *N) {
				n = n/8 + 3
				t := mk("unionall", "")
				s, sn := single(0)
				r, rn := single(1)
				t.C = append(t.C, sn, rn)
				u := cypher.UnionAll(s, r)
				for k := 2; k < n; k++ {
					s, sn = single(k)
					u, t.C = cypher.UnionAll(u, s), append(t.C, sn)
				}
				return builtStatement{u}, t
			}},
			{"CALL in a CALL", func(n int) (cypher.BuildableStatement, *N) {
				s, t := single(0)
				for k := 1; k < n; k++ {
					e, en := p(k)
					st, err := cypher.ACallByStatement(s).Returning(e).Build()
					if err != nil {
						panic(err)
					}
					s, t = st, mk("query", "", mk("subcall", "", t), mk("return", "", mk("items", "", en), none, none, none))
				}
				return builtStatement{s}, t
			}},
			{"CALL after CALL", func(n int) (cypher.BuildableStatement, *N) {
				s, t := single(0)
				c := []*N{mk("subcall", "", t)}
				b := cypher.ACallByStatement(s)
				for k := 1; k < n; k++ {
					s, t = single(k)
					b = b.Call(s)
					c = append(c, mk("subcall", "", t))
				}
				return b.Returning(x), returned(c...)
			}},
		}
	case "C22":
		m := cypher.AnyNodeNamed("m")
		mn := mk("name", "m")
		match := mk("match", "", mk("path", "", mk("node", "m")))
		set := func(k int) (cypher.Expression, cypher.Expression, *N) {
			e, en := p(k)
			key := fmt.Sprint("k", k)
			return m.Property(key), e, mk("assign", "=", mk("prop", key, mn), en)
		}
		return []deepCase{
			{"SET of many", func(n int) (cypher.BuildableStatement, *N) {
				var e []cypher.Expression
				t := mk("set", "")
				for k := 0; k < n; k++ {
					a, b, tn := set(k)
					e, t.C = append(e, a, b), append(t.C, tn)
				}
				return cypher.Match(m).Set(e...), mk("query", "", match, t)
			}},
			{"SET after SET, REMOVE and DELETE in between", func(n int) (cypher.BuildableStatement, *N) {
				a, b, tn := set(0)
				u := cypher.Match(m).Set(a, b)
				c := []*N{match, mk("set", "", tn)}
				for k := 1; k < n; k++ {
					a, b, tn = set(k)
					u = u.Set(a, b)
					c = append(c, mk("set", "", tn))
					if k%5 == 0 {
						u = u.Remove(m.Property(fmt.Sprint("r", k)))
						c = append(c, mk("remove", "", mk("prop", fmt.Sprint("r", k), mn)))
					}
				}
				return u, mk("query", "", c...)
			}},
		}
	}
	return nil
}

func (c *C) deepTrees() *fault {
	for _, d := range deepCases(c.check.id) {
		for _, n := range []int{12, 130, 600, 1100, 2300} {
			b, t := d.f(n)
			text, ft := built(Result{B: b, N: t})
			if ft != nil {
				ft.msg = fmt.Sprintf("%s, %d times: %s", d.name, n, head(ft.msg, 2000))
				ft.query, ft.detail = head(ft.query, 2000), head(ft.detail, 2000)
				return ft
			}
			c.hit("deep." + d.name)
			c.distinct(fmt.Sprint("deep ", d.name, n), true)
			_ = text
		}
	}
	return nil
}
