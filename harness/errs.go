package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// ---- C15: errors surface

func checkC15() *check {
	return &check{
		id: "C15", quick: 150000, thorough: 2500000,
		rule: "two thirds of the cases are random statements in which one part, at a position chosen at random among all of the statement, is replaced by one of 85 erroneous expressions, conditions and patterns (elements that carry an error, refused arguments, missing operands); Build or Render has to report an error for every statement that contains the part, and the others have to say what was built. The last third are programs of calls made by reflection over the whole API with one erroneous value: whatever was made with it, or with something made with it, has to report an error. Every erroneous part itself has to report one. One case in twenty calls a function, operator, clause or builder with one argument that has to be refused (one of 353: missing, empty, out of range, of the wrong kind, without the name it needs, in the wrong state) among random valid ones. Non-trivial: an erroneous part was used; distinct by the part and the construct around it, or by the function or method it was given to",
		one: func(c *C, i uint64) *fault {
			if i%20 == 7 {
				return c.refusalOf(i)
			}
			if i%3 == 2 {
				return c.tainted(i)
			}
			return c.poisonedWalk(i)
		},
		directed: (*C).badParts,
	}
}

func (c *C) badParts() *fault {
	for _, b := range badExpressions() {
		s := exprText(b.x)
		if !strings.HasPrefix(s, "error: ") {
			return &fault{kind: "lost", msg: "no error is reported for " + b.name, query: s}
		}
		c.hit("parts on their own")
		c.distinct("alone "+b.name, true)
	}
	for _, b := range badConditions() {
		s := say(obj{v: reflect.ValueOf(b.x), t: reflect.TypeOf((*cypher.Condition)(nil)).Elem()})
		if !strings.HasPrefix(s, "error: ") {
			return &fault{kind: "lost", msg: "no error is reported for " + b.name, query: s}
		}
		c.hit("parts on their own")
		c.distinct("alone "+b.name, true)
	}
	for _, b := range badPatterns() {
		s := sayB(cypher.Match(b.x).ReturningByString("z"))
		if !strings.HasPrefix(s, "error: ") {
			return &fault{kind: "lost", msg: "no error is reported for " + b.name, query: s}
		}
		c.hit("parts on their own")
		c.distinct("alone "+b.name, true)
	}
	return nil
}

// around names the constructs that surround the erroneous part.
func around(n *N, path string) []string {
	var out []string
	for k, x := range n.C {
		if x == nil {
			continue
		}
		p := fmt.Sprint(n.K, ".", min(k, 3))
		if x.K == "bad" {
			out = append(out, path+">"+p+">"+x.V)
			continue
		}
		out = append(out, around(x, n.K)...)
	}
	return out
}

func (c *C) poisonedWalk(i uint64) *fault {
	mk := func() (*G, *rng) {
		r := c.rng(i, "walk")
		p := profile{depth: 1 + int(i%4), nasty: 3, alias: 10, sub: 1, reuse: 30, aliasItems: 20}
		return newG(r, &p), r
	}
	g, r := mk()
	if ft := c.generate(g, r.clauses(1, 5), true); ft != nil {
		return nil // a matter of other checks
	}
	if g.slot == 0 {
		c.hit("no slot")
		return nil
	}
	at := c.rng(i, "at").n(g.slot)
	g, r = mk()
	g.poisonAt = at
	ft := c.generate(g, r.clauses(1, 5), true)
	if ft != nil {
		if ft.kind == "build" && g.early != nil {
			c.hit("reported by an inner statement")
			c.distinct("inner "+g.poison, true)
			return nil
		}
		return ft
	}
	if g.poison == "" {
		c.hit("not reached")
	}
	for _, x := range g.out {
		if !contains(x.N, "bad") {
			c.hit("other statements")
			if _, ft := built(x); ft != nil {
				if ft.kind == "build" || ft.kind == "render" {
					// of an erroneous node, relationship or path only the name was used
					c.hit("reported by the name of it")
					c.distinct("name "+g.poison, true)
					continue
				}
				ft.detail += "\n  poison: " + g.poison + "\n  built: " + head(x.N.String(), 1500)
				return ft
			}
			continue
		}
		check := func(st cypher.Statement, err error, what string) *fault {
			if err != nil {
				c.hit("reported by Build")
				return nil
			}
			if st == nil {
				return &fault{kind: "lost", msg: "neither a statement nor an error"}
			}
			t, err, ft := render(st)
			if ft != nil {
				return ft
			}
			if err == nil {
				return &fault{kind: "lost", msg: what + " reports no error for " + g.poison, query: t, detail: "  built: " + head(x.N.String(), 1500)}
			}
			c.hit("reported by Render")
			return nil
		}
		var st cypher.Statement
		var err error
		if ft := guard("Build", func() { st, err = x.B.Build() }); ft != nil {
			return ft
		}
		if ft := check(st, err, "the statement"); ft != nil {
			return ft
		}
		if x.HasEarly {
			if ft := check(x.Early, x.EarlyErr, "the statement built earlier"); ft != nil {
				return ft
			}
		}
		for _, a := range around(x.N, "") {
			c.distinct(a, true)
		}
		c.sample(g.poison + " in " + shape(x.N))
	}
	return nil
}

func (c *C) tainted(i uint64) *fault {
	e := newEngine(c.rng(i, ""), 0)
	parts := i%2 == 0 // the constructors of the single elements as well
	e.allow = func(name string) bool {
		return (stable(name) || parts && anyStable(name)) && !strings.HasSuffix(name, "Error") && name != "GetSymbolicName"
	}
	e.least = 1 // WITH and RETURN without items are left out together with what follows
	for k := e.r.in(0, 12); k > 0; k-- {
		if ft := guard("a call", e.step); ft != nil {
			return nil
		}
	}
	var what string
	e.taint = true
	switch e.r.n(4) {
	case 3:
		if !parts {
			e.nils = 40
			break
		}
		what = "a parameter without a name"
		e.put(reflect.ValueOf(cypher.AParam("")), 1, `AParam("")`)
	case 0:
		l := badExpressions()
		b := l[e.r.n(len(l))]
		what = b.name
		e.put(reflect.ValueOf(b.x), 1, b.name)
	case 1:
		l := badConditions()
		b := l[e.r.n(len(l))]
		what = b.name
		e.put(reflect.ValueOf(b.x), 1, b.name)
	default:
		l := badPatterns()
		b := l[e.r.n(len(l)-1)] // the last one is nil
		what = b.name
		e.put(reflect.ValueOf(b.x), 1, b.name)
	}
	e.taint = false
	for k := e.r.in(10, 40); k > 0; k-- {
		had := len(e.pool)
		if ft := guard("a call", e.step); ft != nil {
			ft.detail = "  " + e.slice() + "\n" + ft.detail
			return ft
		}
		for _, o := range e.pool[had:] {
			if !o.bad {
				continue
			}
			var s string
			if ft := guard("using "+o.name, func() { s = say(o) }); ft != nil {
				ft.detail = "  " + e.slice(o.name) + "\n" + ft.detail
				return ft
			}
			how := e.made(o.name)
			c.hit("made of it")
			c.distinct(how, true)
			if e.nilHow != "" {
				c.hit("nil.refused")
				c.distinct("nil "+e.nilHow, true)
			}
			if s == "" {
				c.hit("part")
				continue
			}
			if !strings.Contains(s, "error: ") { // it may be a slice
				return &fault{kind: "lost", msg: how + " loses the error of " + what + e.nilHow, query: s, detail: "  " + e.slice(o.name)}
			}
			c.hit("reported")
		}
	}
	return nil
}
