package main

import (
	"fmt"
	"os"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// ---- C16: every call returns

func checkC16() *check {
	return &check{
		id: "C16", quick: 16000, thorough: 600000,
		rule:     "programs of 20 to 60 calls of exported functions and of methods of the values obtained, chosen and combined by reflection over the whole API, where up to 60 of a hundred arguments are nil, zero, empty, erroneous or extreme, and everything obtained is built and rendered; panics, fatal errors, stack growth, allocations and processor time are watched; non-trivial: all; distinct by function or method and by the outcome of building and rendering",
		directed: (*C).deep,
		one: func(c *C, i uint64) *fault {
			e := newEngine(c.rng(i, ""), []int{0, 10, 25, 60}[i%4])
			e.allow = userLevel
			if e.hostile == 0 {
				// with arguments that are all right, the constructors of the elements are called as well
				e.allow = func(name string) bool {
					return name != "PrepareVisit" && name != "PreEnter" && !strings.HasSuffix(name, "Error")
				}
			}
			n := e.r.in(20, 60)
			for k := 0; k < n; k++ {
				had := len(e.pool)
				if ft := guard("a call", e.step); ft != nil {
					ft.detail = "  " + e.slice() + "\n" + ft.detail
					return ft
				}
				for ; had < len(e.pool); had++ {
					o := e.pool[had]
					var s string
					if ft := guard("using "+o.name, func() { s = say(o) }); ft != nil {
						ft.detail = "  " + e.slice(o.name) + "\n" + ft.detail
						return ft
					}
					out := "text"
					switch {
					case s == "":
						out = "part"
					case strings.HasPrefix(s, "error: "):
						out = "error"
					}
					c.hit("outcome." + out)
					c.sample(s)
				}
			}
			for k, v := range e.seen {
				c.stats["calls"] += v
				c.hit("called." + k)
				c.distinct(fmt.Sprint(k, i%4, v), true)
			}
			return nil
		},
	}
}

var partConstructor = regexp.MustCompile(`(Create|Create\d|CreateBy\w+|CreateDistinct|CreateWithPattern|CreateWithPatternElement|ToVisitables)$`)

// userLevel leaves out what the parts of the library use among themselves: the constructors of single elements of
// the syntax tree, and the hooks of the renderer.
func userLevel(name string) bool {
	switch name {
	case "PrepareVisit", "PreEnter", "BuildImpl", "UnionPartError":
		return false
	}
	return !partConstructor.MatchString(name)
}

func newEngine(r *rng, hostile int) *engine {
	e := &engine{r: r, hostile: hostile, seen: map[string]int{}, maxW: 400, nilAt: -1}
	for k := 0; k < 4; k++ {
		x := exportedValues[r.n(len(exportedValues))]
		e.put(reflect.ValueOf(x.f), 1, x.name)
	}
	return e
}

// deep builds constructs that are nested or chained thousands of times.
func (c *C) deep() *fault {
	const n = 4000
	x := cypher.ASymbolic("x")
	rep := func(e cypher.Expression, f func(e cypher.Expression) cypher.Expression) cypher.Expression {
		for k := 0; k < n; k++ {
			e = f(e)
		}
		return e
	}
	cond := func(f func(d cypher.Condition) cypher.ConditionContainer) cypher.Condition {
		d := x.IsNull().Get()
		for k := 0; k < n; k++ {
			d = f(d).Get()
		}
		return d
	}
	y := x.IsNotNull().Get()
	var b cypher.BuildableStatement
	all := []struct {
		name string
		f    func()
		n    int // how often the mark has to appear
		mark string
	}{
		{"sum", func() {
			b = cypher.CypherReturning(rep(x, func(e cypher.Expression) cypher.Expression { return e.Add(x).Get() }))
		}, n, "+"},
		{"right sum", func() {
			b = cypher.CypherReturning(rep(x, func(e cypher.Expression) cypher.Expression { return x.Add(e).Get() }))
		}, n, "+"},
		{"list", func() {
			b = cypher.CypherReturning(rep(x, func(e cypher.Expression) cypher.Expression { return cypher.ListOf(e) }))
		}, n, "["},
		{"map", func() {
			b = cypher.CypherReturning(rep(x, func(e cypher.Expression) cypher.Expression { return cypher.MapOf("a", e) }))
		}, n, "{"},
		{"function", func() {
			b = cypher.CypherReturning(rep(x, func(e cypher.Expression) cypher.Expression { return cypher.Size(e) }))
		}, n, "size("},
		{"property", func() {
			b = cypher.CypherReturning(rep(x, func(e cypher.Expression) cypher.Expression { return cypher.APropertyByExpression(e, "p") }))
		}, n, ".p"},
		{"CASE", func() {
			b = cypher.CypherReturning(rep(x, func(e cypher.Expression) cypher.Expression {
				return cypher.GenericCaseExpression().When(y).Then(e)
			}))
		}, n, "CASE"},
		{"WHEN", func() {
			w := cypher.GenericCaseExpression().When(y).Then(x)
			for k := 0; k < n; k++ {
				w = w.When(y).Then(x)
			}
			b = cypher.CypherReturning(w)
		}, n + 1, "WHEN"},
		{"comparison", func() {
			b = cypher.CypherReturning(rep(x, func(e cypher.Expression) cypher.Expression { return e.IsEqualTo(x).Get() }))
		}, n, "="},
		{"AND", func() {
			b = cypher.CypherReturning(cond(func(d cypher.Condition) cypher.ConditionContainer { return d.And(y) }))
		}, n, " AND "},
		{"OR within AND", func() {
			k := 0
			b = cypher.CypherReturning(cond(func(d cypher.Condition) cypher.ConditionContainer {
				if k++; k%2 == 0 {
					return d.And(y)
				}
				return d.Or(y)
			}))
		}, n / 2, " AND "},
		{"NOT", func() {
			b = cypher.CypherReturning(cond(func(d cypher.Condition) cypher.ConditionContainer { return d.Not() }))
		}, n, "NOT"},
		{"chain", func() {
			var r cypher.RelationshipChain = cypher.AnyNode().RelationshipTo(cypher.AnyNode()).RelationshipTo(cypher.AnyNode())
			for k := 0; k < n; k++ {
				r = r.RelationshipTo(cypher.AnyNode())
			}
			b = cypher.Create(r)
		}, n + 2, "-->"},
		{"WITH", func() {
			w := cypher.With(x).With(x)
			for k := 0; k < n; k++ {
				w = w.With(x)
			}
			b = w.Returning(x)
		}, n + 2, "WITH"},
		{"MATCH", func() {
			m := cypher.Match(cypher.AnyNode()).Match(cypher.AnyNode())
			for k := 0; k < n; k++ {
				m = m.Match(cypher.AnyNode())
			}
			b = m.Returning(x)
		}, n + 2, "MATCH"},
		{"subquery", func() {
			s, err := cypher.CypherReturning(x).Build()
			for k := 0; k < n/4 && err == nil; k++ {
				s, err = cypher.ACallByStatement(s).Returning(x).Build()
			}
			if err != nil {
				panic(err)
			}
			b = cypher.ACallByStatement(s).Returning(x)
		}, n/4 + 1, "CALL"},
		{"union", func() {
			s, err := cypher.CypherReturning(x).Build()
			if err != nil {
				panic(err)
			}
			l := make([]cypher.Statement, n)
			for k := range l {
				l[k] = s
			}
			u := cypher.UnionAll(l...)
			if u.GetError() != nil {
				panic(u.GetError())
			}
			b = builtStatement{u}
		}, n - 1, "UNION ALL"},
		{"labels", func() {
			b = cypher.Create(cypher.NewNodeWithLabels("a", strings.Split(strings.Repeat("b,", n), ",")[:n]...))
		}, n, ":`b`"},
	}
	for _, t := range all {
		var text string
		var err error
		began := cpuNow()
		if ft := guard("deep "+t.name, t.f); ft != nil {
			return ft
		}
		text, err, ft := finishB(b)
		if ft != nil {
			return ft
		}
		if err != nil {
			return &fault{kind: "build", msg: "deep " + t.name + ": " + err.Error()}
		}
		got := len(regexp.MustCompile(strings.NewReplacer("+", `\+`, "[", `\[`, "{", `\{`, "(", `\(`, ".", `\.`).Replace(t.mark)).FindAllString(text, -1))
		if got != t.n {
			return &fault{kind: "lost", msg: fmt.Sprintf("deep %s: %d instead of %d times %q", t.name, got, t.n, t.mark), query: head(text, 400)}
		}
		for _, pair := range []string{"()", "[]", "{}"} {
			if open, shut := strings.Count(text, pair[:1]), strings.Count(text, pair[1:]); open != shut {
				return &fault{kind: "lost", msg: fmt.Sprintf("deep %s: %d of %q and %d of %q", t.name, open, pair[:1], shut, pair[1:]), query: head(text, 400)}
			}
		}
		spent := cpuNow() - began
		c.hit("deep." + t.name)
		c.distinct("deep "+t.name, true)
		c.evals++
		if spent > 150*time.Second {
			return &fault{kind: "slow", msg: fmt.Sprintf("deep %s takes %v of processor time for %d levels", t.name, spent, n)}
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("deep", t.name, spent, len(text))
		}
	}
	return nil
}
