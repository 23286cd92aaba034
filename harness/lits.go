package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// route puts one value into a statement in one of the ways the API offers.
type route struct {
	name string
	make func(g *G) (cypher.BuildableStatement, *N)
}

func retN(n ...*N) *N {
	return mk("query", "", mk("return", "", mk("items", "", n...), none, none, none))
}

func ret(x cypher.Expression, n *N) (cypher.BuildableStatement, *N) {
	return cypher.CypherReturning(x), retN(n)
}

func (c *C) routed(g *G, rt route) *fault {
	var res Result
	if ft := guard(rt.name, func() { res.B, res.N = rt.make(g) }); ft != nil {
		return ft
	}
	text, ft := built(res)
	if ft != nil {
		ft.msg = rt.name + ": " + ft.msg
		return ft
	}
	c.hit("route." + rt.name)
	c.sample(text)
	return nil
}

// spelled: the texts that literals give of themselves mean what the statement they stand in means.
func (c *C) spelled(n *N, f ...func() string) *fault {
	for k, x := range f {
		var s string
		if ft := guard("AsString", func() { s = x() }); ft != nil {
			return ft
		}
		if ft := meaning("RETURN "+s, retN(n)); ft != nil {
			ft.msg = fmt.Sprintf("AsString %d: %s", k, ft.msg)
			return ft
		}
	}
	c.hit("AsString")
	return nil
}

// ---- C04: strings

func stringRoutes(s string) []route {
	sn := func() *N { return mk("str", s) }
	key := "k"
	return []route{
		{"LiteralOf", func(g *G) (cypher.BuildableStatement, *N) { return ret(cypher.LiteralOf(s), sn()) }},
		{"StringLiteralCreate", func(g *G) (cypher.BuildableStatement, *N) { return ret(cypher.StringLiteralCreate(s), sn()) }},
		{"MapOf", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.MapOf(key, s, "l", cypher.LiteralOf(s)), mk("map", "", entN(key, sn()), entN("l", sn())))
		}},
		{"ListOfRaw", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.ListOfRaw(s, 1, s), mk("list", "", sn(), intN(1), sn()))
		}},
		{"ListLiteral", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.LiteralOf([]cypher.Literal{cypher.LiteralOf(s), cypher.LiteralOf(s)}), mk("list", "", sn(), sn()))
		}},
		{"comparison", func(g *G) (cypher.BuildableStatement, *N) {
			n := cypher.AnyNodeNamed("n")
			return cypher.Match(n).Where(n.Property("p").IsEqualTo(cypher.LiteralOf(s)).Get()).Returning(n.Property("q").Contains(cypher.LiteralOf(s)).Get()),
				mk("query", "", mk("match", "", mk("path", "", mk("node", "n")), mk("where", "", mk("cmp", "=", mk("prop", "p", mk("name", "n")), sn()))),
					retN(mk("cmp", "CONTAINS", mk("prop", "q", mk("name", "n")), sn())).C[0])
		}},
		{"MatchesPattern", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.ASymbolic("x").MatchesPattern(s).Get(), mk("cmp", "=~", mk("name", "x"), sn()))
		}},
		{"node properties", func(g *G) (cypher.BuildableStatement, *N) {
			return cypher.Create(cypher.ANode("A").WithRawProperties(key, s)),
				mk("query", "", mk("create", "", mk("path", "", mk("node", "", mk("label", "A"), mk("map", "", entN(key, sn()))))))
		}},
		{"relationship properties", func(g *G) (cypher.BuildableStatement, *N) {
			r := cypher.AnyNode().RelationshipTo(cypher.AnyNode(), "T").WithRawProperties(key, s)
			rn := relN("->", mk("types", "", mk("type", "T")))
			rn.C[3] = mk("map", "", entN(key, sn()))
			return cypher.Create(r), mk("query", "", mk("create", "", mk("path", "", mk("node", ""), rn, mk("node", ""))))
		}},
		{"set", func(g *G) (cypher.BuildableStatement, *N) {
			n := cypher.AnyNodeNamed("n")
			return cypher.Match(n).Set(n.Property("a"), cypher.LiteralOf(s), n.Property("b").To(cypher.LiteralOf(s))),
				mk("query", "", mk("match", "", mk("path", "", mk("node", "n"))), mk("set", "", mk("assign", "=", mk("prop", "a", mk("name", "n")), sn()), mk("assign", "=", mk("prop", "b", mk("name", "n")), sn())))
		}},
		{"call arguments", func(g *G) (cypher.BuildableStatement, *N) {
			return cypher.ACall("a", "b").WithArgs(cypher.LiteralOf(s), cypher.LiteralOf(s)),
				mk("query", "", mk("call", "a\x00b", mk("args", "", sn(), sn()), mk("yield", ""), none))
		}},
		{"function and CASE", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.GenericCaseExpression().When(cypher.ToLower(cypher.LiteralOf(s)).IsEqualTo(cypher.LiteralOf(s)).Get()).Then(cypher.LiteralOf(s)),
				mk("case", "", none, mk("when", "", mk("cmp", "=", fnN("toLower", sn()), sn()), sn())))
		}},
		{"concatenation", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.LiteralOf(s).Concat(cypher.LiteralOf(s)).Get(), mk("bin", "+", sn(), sn()))
		}},
	}
}

var stringAlphabet = []string{"\\", "'", "\"", "`", "n", "u0027", "\n", "é", "$"}

// nthString enumerates the texts over the alphabet by length.
func nthString(i int, alphabet []string) (string, bool) {
	k := len(alphabet)
	n := 1
	for l := 0; l <= 5; l++ {
		if i < n {
			var b strings.Builder
			for ; l > 0; l-- {
				b.WriteString(alphabet[i%k])
				i /= k
			}
			return b.String(), true
		}
		i -= n
		n *= k
	}
	return "", false
}

func (g *G) anyText() string {
	r := g.r
	switch r.n(4) {
	case 0:
		return g.str() + g.str()
	case 1:
		var b strings.Builder
		for k := r.in(1, 30); k > 0; k-- {
			b.WriteRune(anyRune(r))
		}
		return b.String()
	case 2:
		var b strings.Builder
		for k := r.in(1, 12); k > 0; k-- {
			b.WriteString(stringAlphabet[r.n(len(stringAlphabet))])
		}
		return b.String()
	}
	k := 300
	if r.n(500) == 0 {
		k = 30000
	}
	return strings.Repeat(stringAlphabet[r.n(len(stringAlphabet))], r.in(1, k)) + g.str()
}

func anyRune(r *rng) rune {
	for {
		var x rune
		switch r.n(5) {
		case 0:
			x = rune(r.n(0x80))
		case 1:
			x = rune(r.n(0x800))
		case 2:
			x = rune(r.n(0x10000))
		default:
			x = rune(r.n(0x110000))
		}
		if x == 0 || (x >= 0xd800 && x < 0xe000) || x == 0xfffd {
			continue
		}
		return x
	}
}

func checkC04() *check {
	return &check{
		id: "C04", quick: 1600000, thorough: 3000000,
		rule: "texts put into statements by 13 routes of the API: all texts of up to five pieces out of backslash, quotes, backtick, n, u0027, newline, é and $ (66430 texts), every code point up to U+2FFF alone and before and after a quote and a backslash, and random ones; every sixth text also among up to 70 other values (lists, lists in lists, maps in maps, arguments, properties, items, assignments, CASE, concatenation); the string token of the rendered text is decoded by an independent lexer; non-trivial: the text needs escaping or is not ASCII; distinct by text and route",
		one: func(c *C, i uint64) *fault {
			r := c.rng(i, "")
			g := newG(r, &profile{depth: 1})
			var s string
			if v, ok := nthString(int(i), stringAlphabet); ok && i < 66430 {
				s = v
				c.hit("enumerated")
			} else if k := int(i) - 66430; k >= 0 && k < 0x3000*3 {
				x := rune(k/3 + 1)
				switch k % 3 {
				case 0:
					s = string(x)
				case 1:
					s = "\\" + string(x) + "'"
				default:
					s = "'" + string(x) + "\\"
				}
				c.hit("code points")
			} else {
				s = g.anyText()
				c.hit("random")
			}
			rts := stringRoutes(s)
			k := int(i) % len(rts)
			for j := 0; j < 2; j++ {
				rt := rts[(k+j*5)%len(rts)]
				c.distinct(rt.name+"\x00"+s, strings.ContainsAny(s, "\\'\"`\n\r\t\b\f") || !ascii(s))
				if ft := c.routed(g, rt); ft != nil {
					ft.detail += fmt.Sprintf("\n  text: %q", s)
					return ft
				}
			}
			if i%6 == 1 && len(s) < 100 {
				if ft := c.crowded(g, strVal(s), strVal(g.str())); ft != nil {
					return ft
				}
			}
			if i%8 == 0 {
				sn := mk("str", s)
				if ft := c.spelled(sn, func() string { return cypher.AQuote(s) }, func() string { return cypher.LiteralOf(s).AsString() },
					func() string { return cypher.StringLiteralCreate(s).AsString() }); ft != nil {
					return ft
				}
				if ft := c.spelled(mk("list", "", sn, intN(7), sn), func() string {
					return cypher.LiteralOf([]cypher.Literal{cypher.LiteralOf(s), cypher.LiteralOf(7), cypher.LiteralOf(s)}).AsString()
				}); ft != nil {
					return ft
				}
				if got := cypher.StringLiteralCreate(s).GetContent(); got != s {
					return &fault{kind: "content", msg: fmt.Sprintf("GetContent of %q is %q", s, got)}
				}
			}
			return nil
		},
	}
}

func ascii(s string) bool {
	for _, x := range s {
		if x > 126 || x < 32 {
			return false
		}
	}
	return true
}

// ---- C05: numbers

func intRoutes(v, w int) []route {
	vn, wn := func() *N { return intN(v) }, func() *N { return intN(w) }
	name := mk("name", "x")
	x := cypher.ASymbolic("x")
	rs := []route{
		{"LiteralOf(int)", func(g *G) (cypher.BuildableStatement, *N) { return ret(cypher.LiteralOf(v), vn()) }},
		{"NumberLiteralCreate", func(g *G) (cypher.BuildableStatement, *N) { return ret(cypher.NumberLiteralCreate(int64(v)), vn()) }},
		{"NumberLiteralCreate1", func(g *G) (cypher.BuildableStatement, *N) { return ret(cypher.NumberLiteralCreate1(v), vn()) }},
		{"MapOf(int)", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.MapOf("a", v, "b", cypher.LiteralOf(w)), mk("map", "", entN("a", vn()), entN("b", wn())))
		}},
		{"ListOfRaw(int)", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.ListOfRaw(v, w), mk("list", "", vn(), wn()))
		}},
		{"ListLiteral(int)", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.LiteralOf([]cypher.Literal{cypher.LiteralOf(v), cypher.LiteralOf(w)}), mk("list", "", vn(), wn()))
		}},
		{"operands", func(g *G) (cypher.BuildableStatement, *N) {
			o := []string{"+", "-", "*", "/", "%", "^"}[g.r.n(6)]
			l, r := cypher.LiteralOf(v), cypher.LiteralOf(w)
			fs := map[string]cypher.Expression{"+": l.Add(r).Get(), "-": l.Subtract(r).Get(), "*": l.Multiply(r).Get(), "/": l.Divide(r).Get(), "%": l.Remainder(r).Get(), "^": l.Pow(r).Get()}
			return ret(fs[o], mk("bin", o, vn(), wn()))
		}},
		{"element", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.CypherValueAt(x, v), mk("index", "", name, vn()))
		}},
		{"sublist", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.ASubList(x, v, w), mk("slice", "", name, vn(), wn()))
		}},
		{"sublist from", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.CypherSubListFrom(x, v), mk("slice", "", name, vn(), none))
		}},
		{"sublist until", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.ASubListUntil(x, v), mk("slice", "", name, none, vn()))
		}},
		{"RangeRaw", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.RangeRaw(v, w), fnN("range", vn(), wn()))
		}},
		{"RangeWithStepRaw", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.RangeWithStepRaw(v, w, v), fnN("range", vn(), wn(), vn()))
		}},
		{"CalendarDate", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.CalendarDate(v, w, v), fnN("date", mapN(intEnt("year", v), intEnt("month", w), intEnt("day", v))))
		}},
		{"WeekDate", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.WeekDate(v, w, v), fnN("date", mapN(intEnt("year", v), intEnt("week", w), intEnt("dayOfWeek", v))))
		}},
		{"node properties", func(g *G) (cypher.BuildableStatement, *N) {
			return cypher.Create(cypher.ANode("A").WithRawProperties("a", v, "b", w)),
				mk("query", "", mk("create", "", mk("path", "", mk("node", "", mk("label", "A"), mk("map", "", entN("a", vn()), entN("b", wn()))))))
		}},
	}
	if v >= 0 && w > 0 {
		rs = append(rs, route{"SKIP and LIMIT", func(g *G) (cypher.BuildableStatement, *N) {
			n := retN(name)
			n.C[0].C[2], n.C[0].C[3] = mk("skip", "", vn()), mk("limit", "", wn())
			return cypher.CypherReturning(x).Skip(v).Limit(w), n
		}}, route{"WITH SKIP", func(g *G) (cypher.BuildableStatement, *N) {
			n := retN(name)
			n.C = []*N{mk("with", "", mk("items", "", name), none, mk("skip", "", vn()), none, none), n.C[0]}
			return cypher.With(x).Skip(v).(cypher.ExposesReturning).Returning(x), n
		}}, route{"length", func(g *G) (cypher.BuildableStatement, *N) {
			r := cypher.AnyNode().RelationshipTo(cypher.AnyNode()).Length(v, w)
			rn := relN("->", mk("types", ""))
			rn.C[2] = mk("len", fmt.Sprintf("%d..%d", v, w))
			return cypher.Create(r), mk("query", "", mk("create", "", mk("path", "", mk("node", ""), rn, mk("node", ""))))
		}})
	}
	return rs
}

func floatRoutes(v, w float64) []route {
	vn, wn := func() *N { return floatN(v) }, func() *N { return floatN(w) }
	rs := []route{
		{"LiteralOf(float)", func(g *G) (cypher.BuildableStatement, *N) { return ret(cypher.LiteralOf(v), vn()) }},
		{"NumberLiteralCreate2", func(g *G) (cypher.BuildableStatement, *N) { return ret(cypher.NumberLiteralCreate2(v), vn()) }},
		{"MapOf(float)", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.MapOf("a", v, "b", w), mk("map", "", entN("a", vn()), entN("b", wn())))
		}},
		{"ListOfRaw(float)", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.ListOfRaw(v, w), mk("list", "", vn(), wn()))
		}},
		{"operands(float)", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.LiteralOf(v).Subtract(cypher.LiteralOf(w)).Get(), mk("bin", "-", vn(), wn()))
		}},
		{"comparison(float)", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.LiteralOf(v).Lt(cypher.LiteralOf(w)).Get(), mk("cmp", "<", vn(), wn()))
		}},
	}
	if v >= 0 && v <= 1 {
		rs = append(rs, route{"percentile", func(g *G) (cypher.BuildableStatement, *N) {
			return ret(cypher.PercentileCont(cypher.ASymbolic("x"), v), fnN("percentileCont", mk("name", "x"), vn()))
		}})
	}
	return rs
}

func checkC05() *check {
	return &check{
		id: "C05", quick: 2000000, thorough: 5000000,
		rule: "integers (all within 2000 of 0, of the powers of two and of the limits, and random ones) and floats (specials, powers of ten, neighbours of integers, random bit patterns) put into statements by 25 routes of the API, every twelfth also among up to 70 other values and deep in lists and maps; the number token is read by an independent lexer and has to be the same integer, or the same float and still a float; NaN and infinities must be refused; non-trivial: more than one digit; distinct by value and route",
		one: func(c *C, i uint64) *fault {
			r := c.rng(i, "")
			g := newG(r, &profile{depth: 1})
			if i%2 == 0 {
				v, w := g.integer(), g.integer()
				k := int(i / 2)
				switch {
				case k < 4001:
					v = k - 2000
				case k < 4001+64*9:
					b := (k - 4001) / 9
					v = int(uint64(1)<<uint(b)) + (k-4001)%9 - 4
				case k < 8000:
					v = math.MinInt64 + k%1000
				}
				rs := intRoutes(v, w)
				rt := rs[r.n(len(rs))]
				c.distinct(fmt.Sprint(rt.name, v, w), v > 9 || v < -9)
				if ft := c.routed(g, rt); ft != nil {
					ft.detail += fmt.Sprintf("\n  values: %d, %d", v, w)
					return ft
				}
				if i%12 == 0 {
					if ft := c.crowded(g, intVal(v), intVal(w)); ft != nil {
						return ft
					}
				}
				return c.spelled(intN(v), func() string { return cypher.LiteralOf(v).AsString() }, func() string { return cypher.NumberLiteralCreate(int64(v)).AsString() },
					func() string { return cypher.NumberLiteralCreate1(v).AsString() })
			}
			if i%64 == 1 {
				for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
					if ft := refused("a float that Cypher cannot write", func() cypher.BuildableStatement { return cypher.CypherReturning(cypher.LiteralOf(v)) }); ft != nil {
						return ft
					}
					if ft := refused("a float that Cypher cannot write", func() cypher.BuildableStatement { return cypher.CypherReturning(cypher.ListOfRaw(1, v)) }); ft != nil {
						return ft
					}
					c.hit("refused")
				}
			}
			v, w := g.float(), g.float()
			switch k := int(i / 2); {
			case k < 700:
				v = math.Pow(10, float64(k-350))
			case k < 3000:
				v = math.Nextafter(float64(k-1800), float64(-(k%2))*1e9)
			case r.p(20):
				v = float64(g.integer())
			case r.p(20):
				v = float64(r.n(1000)) / 999
			}
			if math.IsInf(v, 0) || math.IsNaN(v) {
				v = 0.25
			}
			rs := floatRoutes(v, w)
			rt := rs[r.n(len(rs))]
			c.distinct(fmt.Sprint(rt.name, v, w), v != math.Trunc(v) || math.Abs(v) > 9)
			if ft := c.routed(g, rt); ft != nil {
				ft.detail += fmt.Sprintf("\n  values: %v, %v", v, w)
				return ft
			}
			if i%12 == 1 {
				if ft := c.crowded(g, floatVal(v), floatVal(w)); ft != nil {
					return ft
				}
			}
			return c.spelled(floatN(v), func() string { return cypher.LiteralOf(v).AsString() }, func() string { return cypher.NumberLiteralCreate2(v).AsString() })
		},
	}
}

// refused: the statement must be reported as erroneous by Build or Render.
func refused(what string, f func() cypher.BuildableStatement) *fault {
	var b cypher.BuildableStatement
	if ft := guard(what, func() { b = f() }); ft != nil {
		return ft
	}
	text, err, ft := finishB(b)
	if ft != nil {
		return ft
	}
	if err == nil {
		return &fault{kind: "accepted", msg: what + " was not reported", query: text}
	}
	return nil
}

func finishB(b cypher.BuildableStatement) (text string, err error, ft *fault) {
	var st cypher.Statement
	if ft = guard("Build", func() { st, err = b.Build() }); ft != nil || err != nil {
		return
	}
	if st == nil {
		return "", nil, &fault{kind: "build", msg: "no statement and no error"}
	}
	return render(st)
}

// ---- C03: names

// hostile gives names over all of Unicode.
func (g *G) hostile() string {
	var b strings.Builder
	for k := g.r.in(1, 8); k > 0; k-- {
		if g.r.p(30) {
			b.WriteString(g.r.pick(weird))
			continue
		}
		b.WriteRune(anyRune(g.r))
	}
	return b.String()
}

func checkC03() *check {
	names := []string{"label", "type", "node", "rel", "prop", "ent", "name", "alias", "param", "lookup", "listcomp", "unwind", "call", "path", "shortest"}
	at := map[string]bool{}
	for _, k := range names {
		at[k] = true
	}
	return &check{
		id: "C03", quick: 300000, thorough: 3000000,
		rule: "statements in which every label, type, variable, property key, map key, alias, parameter and procedure name is unusual: quotes, backticks, backslashes, comments, clauses, white space, digits, operators and any code point; the names read back by an independent lexer have to be the ones that were given; non-trivial: a name that has to be quoted; distinct by kind and name",
		one: func(c *C, i uint64) *fault {
			r := c.rng(i, "")
			p := profile{depth: 1 + int(i%2), nasty: 100, hostile: 45, alias: 20, sub: 1, expr: map[string]int{"lit": 1, "param": 4, "name": 4, "prop": 4, "map": 2, "mapproj": 2, "listcomp": 1, "patcomp": 1, "fn": 1},
				cond: map[string]int{"cmp": 3, "label": 3, "pattern": 2, "quant": 2, "exists": 1}}
			g := newG(r, &p)
			if ft := c.generate(g, r.clauses(1, 4), true); ft != nil {
				return ft
			}
			c.merge(g)
			for _, x := range g.out {
				text, ft := built(x)
				if ft != nil {
					return ft
				}
				want, _ := resolve(x.N)
				c.hit("statements")
				c.sample(text)
				c.names(want, at)
			}
			if i%2 == 0 {
				// the function that quotes names on its own
				s := g.hostile()
				for strings.TrimSpace(s) == "" {
					// blank names stay as they are, by design of this function; the renderer does not use it for them
					s = g.hostile()
				}
				c.hit("EscapeIfNecessary")
				t, err := lex(cypher.EscapeIfNecessary(s))
				if err != nil || len(t) != 2 || t[0].v != s || (t[0].t != "id" && t[0].t != "bid") {
					return &fault{kind: "escape", msg: fmt.Sprintf("EscapeIfNecessary(%q) gives %q, which does not read as the name", s, cypher.EscapeIfNecessary(s))}
				}
			}
			return nil
		},
	}
}

func (c *C) names(n *N, at map[string]bool) {
	if n.V != "" && at[n.K] {
		plain := true
		for j, x := range n.V {
			if !(x == '_' || x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' || j > 0 && x >= '0' && x <= '9') {
				plain = false
			}
		}
		c.hit("names." + n.K)
		c.distinct(n.K+"\x00"+n.V, !plain)
	}
	for _, x := range n.C {
		c.names(x, at)
	}
}

var _ = time.UTC
