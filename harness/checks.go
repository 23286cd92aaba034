package main

import (
	"strings"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

func checks() []*check {
	return []*check{
		checkC01(), checkC02(), checkC03(), checkC04(), checkC05(), checkC06(), checkC07(), checkC08(), checkC09(), checkC10(),
		checkC11(), checkC12(), checkC13(), checkC14(), checkC15(), checkC16(), checkC17(), checkC18(), checkC19(), checkC20(),
		checkC21(), checkC22(),
	}
}

// shape is the tree without its names and values.
func shape(n *N) string {
	var b strings.Builder
	var w func(n *N)
	w = func(n *N) {
		b.WriteString(n.K)
		switch n.K {
		case "bin", "cmp", "dir", "quant", "fn", "fndistinct", "sort", "len":
			b.WriteString(n.V)
		}
		if len(n.C) > 0 {
			b.WriteByte('(')
			for i, c := range n.C {
				if i > 0 {
					b.WriteByte(' ')
				}
				w(c)
			}
			b.WriteByte(')')
		}
	}
	w(n)
	return b.String()
}

func count(n *N, kinds ...string) int {
	k := 0
	for _, x := range kinds {
		if n.K == x {
			k++
			break
		}
	}
	for _, c := range n.C {
		k += count(c, kinds...)
	}
	return k
}

func contains(n *N, kind string) bool {
	if n == nil {
		return false
	}
	if n.K == kind {
		return true
	}
	for _, c := range n.C {
		if contains(c, kind) {
			return true
		}
	}
	return false
}

// generate walks the statement builders once.
func (c *C) generate(g *G, left int, union bool) *fault {
	if g.r.permille(20) {
		g.theme = g.r.pick(themes)
		left += g.r.in(3, 20)
		g.hit("theme." + g.theme)
	}
	return guard("a builder", func() { g.start(S{left: left}, union) })
}

// observe runs the monitors on all results of a walk: Build and Render succeed, the text is Cypher and says what
// was built.
func (c *C) observe(g *G, nontrivial func(n *N) bool) *fault {
	c.merge(g)
	if len(g.out) == 0 {
		c.hit("starved")
	}
	for _, r := range g.out {
		text, ft := built(r)
		if ft != nil {
			return ft
		}
		want, res := resolve(r.N)
		c.add("nodes.compared", res.events)
		c.add("nodes.later", res.later)
		c.add("aliases.later", res.aliased)
		c.hit("statements")
		c.distinct(shape(want), nontrivial == nil || nontrivial(want))
		c.sample(text)
	}
	return nil
}

// walk is the case of most statement checks.
func (c *C) walk(i uint64, p profile, lo, hi int, union bool, nontrivial func(n *N) bool) *fault {
	r := c.rng(i, "")
	g := newG(r, &p)
	if ft := c.generate(g, r.clauses(lo, hi), union); ft != nil {
		return ft
	}
	return c.observe(g, nontrivial)
}

var plainExpr = map[string]int{"lit": 3, "param": 3, "name": 3, "prop": 4}
var plainCond = map[string]int{"cmp": 4, "null": 1, "str": 1}

func checkC01() *check {
	return &check{
		id: "C01", quick: 400000, thorough: 4000000,
		directed: (*C).deepTrees,
		rule:     "a random walk over the states of the statement builders (1 to 9 clauses: MATCH, OPTIONAL MATCH, WHERE, CREATE, MERGE with actions, SET, REMOVE, DELETE, UNWIND, CALL, CALL {}, WITH, RETURN, UNION) with plain operands; non-trivial: at least two clauses; distinct by the tree of the statement without names and values",
		one: func(c *C, i uint64) *fault {
			p := profile{depth: 1, expr: plainExpr, cond: plainCond, sub: 1}
			lo, hi := 1, 5
			if i%4 == 0 {
				lo, hi = 4, 9
			}
			return c.walk(i, p, lo, hi, true, func(n *N) bool { return len(n.C) > 1 })
		},
	}
}

func checkC02() *check {
	return &check{
		id: "C02", quick: 200000, thorough: 1500000,
		rule: "statements of all constructs with expressions up to depth 4 and unusual names and texts; the rendered text has to be accepted by an independent parser of the Cypher grammar; non-trivial: at least 12 nodes in the syntax tree; distinct by the tree without names and values",
		one: func(c *C, i uint64) *fault {
			r := c.rng(i, "")
			p := profile{nasty: 30, depth: 2 + int(i%3), alias: 15, sub: 2, fork: 5}
			if i%8 == 0 {
				p.nasty = 100
			}
			g := newG(r, &p)
			if ft := c.generate(g, r.clauses(1, 4), true); ft != nil {
				return ft
			}
			c.merge(g)
			for _, x := range g.out {
				var st cypher.Statement
				var err error
				if ft := guard("Build", func() { st, err = x.B.Build() }); ft != nil {
					return ft
				}
				if err != nil || st == nil {
					// whether a statement is accepted is not the matter of this check
					c.hit("rejected")
					continue
				}
				text, err, ft := render(st)
				if ft != nil {
					return ft
				}
				if err != nil {
					c.hit("rejected")
					continue
				}
				tree, err := parseStatement(text)
				if err != nil {
					return &fault{kind: "parse", msg: err.Error(), query: text}
				}
				c.hit("statements")
				c.add("bytes", len(text))
				c.distinct(shape(tree), size(tree) >= 12)
				c.sample(text)
			}
			return nil
		},
	}
}

func size(n *N) int {
	k := 1
	for _, c := range n.C {
		k += size(c)
	}
	return k
}

func checkC07() *check {
	return &check{
		id: "C07", quick: 1600000, thorough: 4000000,
		directed: (*C).deepTrees,
		rule:     "RETURN of expression trees of depth 1 to 5 out of arithmetic, string and comparison operators, negative numbers, powers, conditions as operands, properties and list operators over compound targets; non-trivial: at least two operators; distinct by the tree with its operators",
		one: func(c *C, i uint64) *fault {
			r := c.rng(i, "")
			p := profile{depth: 1 + int(i%5), expr: map[string]int{"op": 10, "cond": 6, "lit": 4, "param": 3, "name": 3, "prop": 3, "listop": 2, "fn": 1, "list": 1},
				cond: map[string]int{"cmp": 6, "str": 3, "in": 2, "null": 2, "bool": 2, "not": 2, "and": 1, "or": 1, "empty": 1}}
			g := newG(r, &p)
			var res Result
			ft := guard("expression", func() {
				e := g.expr(p.depth)
				if r.p(70) {
					res = Result{B: cypher.CypherReturning(e.X), N: mk("query", "", mk("return", "", mk("items", "", e.N), none, none, none))}
				} else {
					cd := g.cond(p.depth)
					n := cypher.AnyNodeNamed("n")
					res = Result{B: cypher.Match(n).Where(cd.X).Returning(e.X), N: mk("query", "",
						mk("match", "", mk("path", "", mk("node", "n")), mk("where", "", cd.N)), mk("return", "", mk("items", "", e.N), none, none, none))}
				}
			})
			if ft != nil {
				return ft
			}
			g.out = append(g.out, res)
			return c.observe(g, func(n *N) bool { return count(n, "bin", "cmp", "not", "isnull", "isnotnull", "and", "or") > 1 })
		},
	}
}

func checkC08() *check {
	return &check{
		id: "C08", quick: 400000, thorough: 4000000,
		directed: (*C).deepTrees,
		rule:     "patterns of nodes, relationships, chains, named and shortest paths with labels, types, directions, lengths and properties, set in any order, in MATCH, CREATE, MERGE, WHERE and EXISTS; non-trivial: at least one relationship; distinct by the tree with directions and lengths",
		one: func(c *C, i uint64) *fault {
			p := profile{depth: 1 + int(i%2), nasty: 5, expr: map[string]int{"lit": 3, "param": 2, "name": 2, "prop": 2, "map": 1},
				cond: map[string]int{"pattern": 3, "notpattern": 2, "existspattern": 2, "existsq": 2, "chainpattern": 2, "label": 1, "cmp": 1},
				only: true, clause: map[string]int{"match": 3, "create": 3, "merge": 2, "where": 4, "return": 2, "with": 1, "build": 2, "cond": 1,
					"pat.node": 1, "pat.rel": 4, "pat.chain": 4, "pat.path": 3, "start.match": 4, "start.optmatch": 2, "start.create": 3, "start.merge": 2}}
			return c.walk(i, p, 1, 4, false, func(n *N) bool { return count(n, "rel") > 0 })
		},
	}
}

func checkC09() *check {
	return &check{
		id: "C09", quick: 300000, thorough: 3000000,
		directed: (*C).deepTrees,
		rule:     "statements that use the same few nodes and relationships again and again, in patterns, properties, functions, projections and subqueries, among other nodes that bear the same name; non-trivial: a named node appears at least twice; distinct by the tree of the expected text without names and values",
		one: func(c *C, i uint64) *fault {
			r := c.rng(i, "")
			p := profile{depth: 1 + int(i%2), clash: 35, reuse: 80, sub: 1,
				expr: map[string]int{"lit": 1, "prop": 5, "fn": 1, "mapproj": 3, "patcomp": 2, "name": 1},
				cond: map[string]int{"cmp": 3, "pattern": 3, "label": 2, "existsq": 1, "exists": 1},
				clause: map[string]int{"match": 5, "create": 3, "merge": 3, "unwind": 0, "call": 0, "limit": 0, "skip": 0, "setlabel": 2,
					"removelabel": 2, "pat.rel": 5, "pat.chain": 3, "start.call": 0, "start.unwind": 0}}
			g := newG(r, &p)
			if ft := c.generate(g, r.clauses(1, 5), true); ft != nil {
				return ft
			}
			for _, x := range g.out {
				if _, s := resolve(x.N); s.later > 0 {
					c.hit("with.later")
				}
			}
			return c.observe2(g, func(n *N, s *resolver) bool { return s.later > 0 })
		},
	}
}

func (c *C) observe2(g *G, nontrivial func(n *N, s *resolver) bool) *fault {
	c.merge(g)
	for _, r := range g.out {
		text, ft := built(r)
		if ft != nil {
			return ft
		}
		want, res := resolve(r.N)
		c.add("nodes.compared", res.events)
		c.add("nodes.later", res.later)
		c.add("aliases.later", res.aliased)
		c.hit("statements")
		c.distinct(shape(want), nontrivial(want, res))
		c.sample(text)
	}
	return nil
}

func checkC10() *check {
	return &check{
		id: "C10", quick: 400000, thorough: 3000000,
		directed: (*C).deepTrees,
		rule:     "statements whose WITH, RETURN and YIELD items are aliased and whose later clauses refer to the aliased expressions and to the expressions they stand for; non-trivial: at least one later reference; distinct by the tree of the expected text without names and values",
		one: func(c *C, i uint64) *fault {
			r := c.rng(i, "")
			p := profile{depth: 1 + int(i%2), alias: 60, sub: 1, aliasItems: 75,
				expr: map[string]int{"lit": 1, "prop": 3, "fn": 2, "op": 2, "name": 2, "list": 1, "map": 1, "cond": 1},
				cond: map[string]int{"cmp": 4, "str": 1, "null": 1, "and": 1},
				clause: map[string]int{"with": 8, "return": 5, "call": 2, "order": 5, "match": 2, "start.with": 4, "start.call": 3,
					"start.union": 1, "skip": 1, "limit": 1}}
			g := newG(r, &p)
			if ft := c.generate(g, r.clauses(2, 5), true); ft != nil {
				return ft
			}
			return c.observe2(g, func(n *N, s *resolver) bool { return s.aliased > 0 })
		},
	}
}

func checkC17() *check {
	return &check{
		id: "C17", quick: 1600000, thorough: 2500000,
		directed: (*C).deepTrees,
		rule:     "every function of the catalogue in turn with random arguments, in RETURN, WHERE or as an operand; non-trivial: all; distinct by the tree with the names of the functions",
		one: func(c *C, i uint64) *fault {
			r := c.rng(i, "")
			p := profile{depth: 1 + int(i>>8)%2, nasty: 10, expr: map[string]int{"lit": 3, "param": 2, "name": 2, "prop": 3, "fn": 2, "op": 1, "map": 1, "list": 1}}
			g := newG(r, &p)
			var res Result
			f := functions[int(i)%len(functions)]
			ft := guard("function "+f.name, func() {
				e := f.f(g, p.depth)
				switch r.n(4) {
				case 0:
					o := g.operand(1)
					e = E{e.X.Add(o.X).Get(), mk("bin", "+", e.N, o.N)}
				case 1:
					o := g.operand(1)
					e = E{o.X.IsEqualTo(e.X).Get(), mk("cmp", "=", o.N, e.N)}
				}
				res = Result{B: cypher.CypherReturning(e.X), N: mk("query", "", mk("return", "", mk("items", "", e.N), none, none, none))}
			})
			if ft != nil {
				return ft
			}
			c.hit("function." + f.name)
			g.out = append(g.out, res)
			return c.observe(g, nil)
		},
	}
}

func checkC18() *check {
	return &check{
		id: "C18", quick: 800000, thorough: 4000000,
		directed: (*C).deepTrees,
		rule:     "statements whose RETURN and WITH clauses take items in every form, DISTINCT, ORDER BY built in one or several steps, SKIP and LIMIT; non-trivial: a projection with ORDER BY, SKIP, LIMIT or DISTINCT; distinct by the tree with the directions",
		one: func(c *C, i uint64) *fault {
			p := profile{depth: 1, nasty: 5, alias: 25, expr: map[string]int{"lit": 2, "prop": 4, "name": 3, "fn": 1, "op": 1},
				cond: plainCond, only: true,
				clause: map[string]int{"match": 1, "with": 6, "return": 6, "where": 2, "order": 8, "skip": 5, "limit": 5, "ascdesc": 8, "build": 2, "cond": 1, "unwind": 1,
					"pat.node": 1, "start.match": 3, "start.with": 3, "start.return": 4, "start.unwind": 1}}
			return c.walk(i, p, 2, 7, false, func(n *N) bool {
				return count(n, "order", "skip", "limit", "withdistinct", "returndistinct") > 0
			})
		},
	}
}

func checkC19() *check {
	return &check{
		id: "C19", quick: 400000, thorough: 3000000,
		directed: (*C).deepTrees,
		rule:     "CALL {} with nested statements, UNION and UNION ALL of two to four parts, extended unions, standalone and in-query procedure calls with arguments, YIELD and WHERE; non-trivial: at least one of them; distinct by the tree without names and values",
		one: func(c *C, i uint64) *fault {
			p := profile{depth: 1, nasty: 15, alias: 15, sub: 1 + int(i%3), expr: plainExpr, cond: plainCond,
				clause: map[string]int{"call": 5, "subcall": 4, "start.call": 8, "start.subcall": 6, "start.union": 6, "start.match": 4, "delete": 0, "setnamed": 0, "removelabel": 0}}
			return c.walk(i, p, 1, 4, true, func(n *N) bool { return count(n, "call", "subcall", "union", "unionall") > 0 })
		},
	}
}

func checkC20() *check {
	return &check{
		id: "C20", quick: 400000, thorough: 3000000,
		directed: (*C).deepTrees,
		rule:     "lists, maps, map projections, list and pattern comprehensions, CASE, list operators, quantifiers, nested up to depth 4, as items and as values of maps; non-trivial: at least two of them; distinct by the tree without names and values",
		one: func(c *C, i uint64) *fault {
			r := c.rng(i, "")
			p := profile{depth: 1 + int(i%4), nasty: 8, expr: map[string]int{"lit": 2, "param": 1, "name": 2, "prop": 2, "list": 4, "map": 4, "mapproj": 5, "listcomp": 4,
				"patcomp": 4, "case": 5, "listop": 5, "cond": 1, "op": 1},
				cond: map[string]int{"cmp": 2, "quant": 4, "and": 1, "or": 1, "pattern": 1, "case": 1}}
			g := newG(r, &p)
			var res Result
			ft := guard("expression", func() {
				var x []cypher.Expression
				var n []*N
				for k := r.in(1, 2); k > 0; k-- {
					e := g.expr(p.depth)
					x, n = append(x, e.X), append(n, e.N)
				}
				res = Result{B: cypher.CypherReturning(x...), N: mk("query", "", mk("return", "", mk("items", "", n...), none, none, none))}
			})
			if ft != nil {
				return ft
			}
			g.out = append(g.out, res)
			return c.observe(g, func(n *N) bool {
				return count(n, "list", "map", "mapproj", "listcomp", "patcomp", "case", "index", "slice", "quant") > 1
			})
		},
	}
}

func checkC22() *check {
	return &check{
		id: "C22", quick: 400000, thorough: 4000000,
		directed: (*C).deepTrees,
		rule:     "CREATE, MERGE with ON CREATE and ON MATCH, SET with pairs, operations and labels, REMOVE of properties and labels, DELETE and DETACH DELETE, followed by each other, WITH and RETURN; non-trivial: at least one update; distinct by the tree without names and values",
		one: func(c *C, i uint64) *fault {
			p := profile{depth: 1 + int(i%2), nasty: 5, expr: map[string]int{"lit": 3, "param": 2, "name": 2, "prop": 4, "op": 2, "fn": 1, "map": 1},
				cond: plainCond, only: true,
				clause: map[string]int{"match": 1, "with": 2, "return": 2, "delete": 3, "merge": 4, "set": 5, "setnamed": 3, "setlabel": 3, "removelabel": 3, "remove": 3,
					"create": 3, "on": 8, "build": 3, "pat.node": 3, "pat.rel": 2, "pat.chain": 1,
					"start.match": 4, "start.create": 3, "start.merge": 4}}
			return c.walk(i, p, 1, 6, false, func(n *N) bool {
				return count(n, "create", "merge", "set", "remove", "delete", "detachdelete") > 0
			})
		},
	}
}
