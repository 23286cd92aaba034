package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// An alias stands for the very expression that was given it. Here many expressions of one kind are given aliases,
// what they were made of is left to the garbage collector, and many more expressions of that kind are made in its
// place: none of them may be taken for one of the first.

type former struct {
	name string
	make func(g *G) E
}

func kindFormer(kind string) former {
	return former{"expr " + kind, func(g *G) E {
		return g.exprOf(kind, 1)
	}}
}

func condFormer(kind string) former {
	return former{"cond " + kind, func(g *G) E {
		x := g.condOf(kind, 1)
		return E{x.X, x.N}
	}}
}

var allFormers []former

func formers() []former {
	if allFormers != nil {
		return allFormers
	}
	var m []former
	for _, k := range exprKinds {
		if k != "reuse" && k != "cond" && k != "fn" {
			m = append(m, kindFormer(k))
		}
	}
	for _, k := range condKinds {
		if k != "const" {
			m = append(m, condFormer(k))
		}
	}
	for k := range functions {
		f := functions[k]
		m = append(m, former{"fn " + f.name, func(g *G) E { return f.f(g, 1) }})
	}
	lit := func(name string, f func(g *G) E) { m = append(m, former{"literal " + name, f}) }
	lit("bool", func(g *G) E {
		v := g.r.p(50)
		return E{cypher.BooleanLiteralCreate(v), mk(fmt.Sprint(v), "")}
	})
	lit("null", func(g *G) E { return E{cypher.NullLiteralCreate(), mk("null", "")} })
	lit("list", func(g *G) E {
		v := g.integer()
		return E{cypher.ListLiteralCreate([]cypher.Literal{cypher.LiteralOf(v)}), mk("list", "", intN(v))}
	})
	lit("int", func(g *G) E {
		v := g.integer()
		return E{cypher.NumberLiteralCreate1(v), intN(v)}
	})
	lit("int64", func(g *G) E {
		v := g.integer()
		return E{cypher.NumberLiteralCreate(int64(v)), intN(v)}
	})
	lit("float", func(g *G) E {
		v := g.float()
		return E{cypher.NumberLiteralCreate2(v), floatN(v)}
	})
	allFormers = m
	return m
}

func (c *C) confused(i uint64) *fault {
	debug.SetGCPercent(100)
	r := c.rng(i, "confused")
	mkr := formers()[int(i)%len(formers())]
	g := newG(r, &profile{depth: 1})
	var ft *fault
	var items, later []cypher.Expression
	var itemN, laterN []*N
	build := func(mkr former) (e E) {
		if ft == nil {
			ft = guard(mkr.name, func() { e = mkr.make(g) })
		}
		return
	}
	n := r.in(5, 25)
	for k := 0; k < n; k++ {
		e := build(mkr)
		if ft != nil {
			return ft
		}
		if e.X == nil || e.X.GetError() != nil || e.N.Alias != "" {
			continue
		}
		switch e.N.K {
		case "true", "false", "null":
			// there is only one of each in the DSL, unless it was made on purpose
			if !strings.HasPrefix(mkr.name, "literal ") {
				continue
			}
		}
		a := fmt.Sprint("a", k)
		e.N.Alias = a
		items, itemN = append(items, e.X.As(a).Get()), append(itemN, mk("alias", a, e.N))
	}
	if len(items) == 0 {
		c.hit("confused.none")
		return nil
	}
	runtime.GC()
	for k := r.in(30, 90); k > 0; k-- {
		other := mkr
		if r.p(50) {
			other = formers()[r.n(len(formers()))]
		}
		e := build(other)
		if ft != nil {
			return ft
		}
		if e.X == nil || e.X.GetError() != nil {
			continue
		}
		later, laterN = append(later, e.X), append(laterN, e.N)
	}
	if len(later) == 0 {
		return nil
	}
	runtime.GC()
	var res Result
	if ft := guard("With", func() {
		res.B = cypher.Unwind(cypher.AParam("p")).As("row").With(items...).Returning(later...)
	}); ft != nil {
		return ft
	}
	res.N = mk("query", "", mk("unwind", "row", mk("param", "p")), mk("with", "", mk("items", "", itemN...), none, none, none, none),
		mk("return", "", mk("items", "", laterN...), none, none, none))
	text, ft := built(res)
	if ft != nil {
		ft.msg = mkr.name + ": " + ft.msg
		return ft
	}
	c.hit("confused." + mkr.name)
	c.distinct("confused "+mkr.name+fmt.Sprint(len(items)), true)
	c.sample(text)
	return nil
}

// aged keeps thousands of nodes and expressions while the process makes millions of others, and uses them next to
// those made lately: what tells them apart must not come round again.
func (c *C) aged(rounds int) *fault {
	debug.SetGCPercent(200)
	const many, lately = 12000, 600
	var old, olds []cypher.PatternElement
	var items, later []cypher.Expression
	match, create, itemN := mk("match", ""), mk("create", ""), mk("items", "")
	id := 0
	node := func(name string, n *N) cypher.PatternElement {
		id++
		l := "L" + name
		nd := mk("node", "", mk("label", l))
		nd.V, nd.ID = name, id
		n.C = append(n.C, mk("path", "", nd))
		return cypher.ANode(l).NamedByString(name)
	}
	for k := 0; k < many; k++ {
		old = append(old, node(fmt.Sprint("o", k), match))
		p, a := fmt.Sprint("p", k), fmt.Sprint("a", k)
		pn := mk("param", p)
		pn.Alias = a
		items, itemN.C = append(items, cypher.AParam(p).As(a).Get()), append(itemN.C, mk("alias", a, pn))
	}
	for j := 0; j < rounds; j++ {
		olds, later, create.C = nil, nil, nil
		retItems := mk("items", "")
		for k := 0; k < lately; k++ {
			olds = append(olds, node(fmt.Sprint("f", j, "_", k), create))
			p := fmt.Sprint("q", k)
			later, retItems.C = append(later, cypher.AParam(p)), append(retItems.C, mk("param", p))
		}
		b := cypher.Match(old...).Create(olds...).With(items...).Returning(later...)
		n := mk("query", "", match, create, mk("with", "", itemN, none, none, none, none), mk("return", "", retItems, none, none, none))
		text, ft := built(Result{B: b, N: n})
		if ft != nil {
			ft.msg = fmt.Sprint("next to things made long ago, ", j, ": ") + ft.msg
			return ft
		}
		c.hit("aged.statements")
		if j == 0 {
			c.sample(text[:300])
		}
		for k := 0; k < 6*many; k++ {
			cypher.AParam("burnt")
		}
	}
	return nil
}
