package main

import (
	"sort"
	"strings"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// The statement generator walks the state machine of the statement builders at random: every interface a step
// returns is a state, every method a transition. It may go on twice from the same value (fork), which must not
// influence each other.

type S struct {
	cl    []*N // the clauses so far
	reuse []reusable
	left  int
	cond  Cd
	has   bool
	merge bool
	br    string
	subs  []subst // the statements called so far
}

type subst struct {
	st cypher.Statement
	n  *N
}

// called gives the statement of a subquery, rarely one that was called before.
func (g *G) called(s *S) (cypher.Statement, *N) {
	if len(s.subs) > 0 && g.r.p(12) {
		g.hit("subcall.repeated")
		x := s.subs[len(s.subs)-1]
		if g.r.p(30) {
			x = s.subs[g.r.n(len(s.subs))]
		}
		return x.st, x.n
	}
	st, n := g.nested(true, true)
	if l := len(s.subs); !hasAlias(n) {
		s.subs = append(s.subs[:l:l], subst{st, n})
	}
	return st, n
}

func (s S) add(n *N) S {
	l := len(s.cl)
	s.cl = append(s.cl[:l:l], n)
	s.cond, s.has, s.merge = Cd{}, false, false
	s.left--
	return s
}

func (s S) edit(f func(n *N)) S {
	c := *s.cl[len(s.cl)-1]
	c.C = append([]*N{}, c.C...)
	f(&c)
	l := len(s.cl) - 1
	s.cl = append(s.cl[:l:l], &c)
	return s
}

func (s S) where(c Cd) S {
	first := !s.has
	s.cond, s.has = c, true
	w := mk("where", "", c.N)
	return s.edit(func(n *N) {
		switch n.K {
		case "with", "withdistinct":
			n.C[4] = w
		case "call":
			n.C[2] = w
		default:
			if first {
				n.C = append(n.C, w)
			} else {
				n.C[len(n.C)-1] = w
			}
		}
	})
}

func (s S) introduce(r ...reusable) S {
	l := len(s.reuse)
	s.reuse = append(s.reuse[:l:l], r...)
	return s
}

func (s S) query() *N { return mk("query", "", s.cl...) }

// at makes the aliased expressions of the branch the ones the generator may use.
func (g *G) at(s S) { g.reuse = s.reuse }

func (g *G) emit(s S, b cypher.BuildableStatement) {
	r := Result{B: b, N: s.query(), Path: s.br}
	if g.r.p(40) {
		st, err := b.Build()
		r.Early, r.EarlyErr = st, err
		r.HasEarly = true
	}
	g.out = append(g.out, r)
}

// branch goes on from a state, sometimes twice.
func (g *G) branch(s S, f func(S)) {
	if g.nest == 0 && g.forks < 4 && g.r.p(g.p.fork) {
		g.forks++
		g.hit("fork")
		a, b := s, s
		a.br += "L"
		b.br += "R"
		nodes, rels, paths, names := g.nodes, g.rels, g.paths, g.names
		f(a)
		// what the first branch made may refer to the aliases it has introduced
		g.nodes, g.rels, g.paths, g.names = nodes[:len(nodes):len(nodes)], rels[:len(rels):len(rels)], paths[:len(paths):len(paths)], names[:len(names):len(names)]
		f(b)
		return
	}
	f(s)
}

var defaultClause = map[string]int{
	"return": 5, "with": 3, "match": 3, "where": 6, "delete": 1, "merge": 2, "set": 2, "setnamed": 1, "setlabel": 1, "removelabel": 1,
	"remove": 1, "unwind": 2, "create": 2, "call": 1, "subcall": 1, "cond": 5, "order": 4, "skip": 3, "limit": 3, "build": 2,
	"on": 4, "ascdesc": 6, "yield": 1,
	"pat.node": 3, "pat.rel": 3, "pat.chain": 2, "pat.path": 1,
	"start.match": 6, "start.optmatch": 2, "start.create": 2, "start.with": 2, "start.merge": 2, "start.unwind": 2, "start.return": 1,
	"start.call": 1, "start.subcall": 1, "start.union": 1, "start.proc": 1,
}

// A walk with a theme prefers one kind of step, so that it is taken many times over.
var themes = []string{"with", "match", "where", "delete", "merge", "set", "setnamed", "setlabel", "removelabel", "remove", "unwind",
	"create", "call", "subcall", "cond", "order", "on"}

func (g *G) cw(k string) int {
	w := g.cw0(k)
	switch {
	case g.theme == "" || g.nest > 0:
		return w
	case g.theme == k:
		return w * 100
	case k == "build" || k == "return":
		return w
	}
	return w * 5
}

func (g *G) cw0(k string) int {
	if g.p.clause != nil {
		if w, ok := g.p.clause[k]; ok {
			return w
		}
		if g.p.only {
			return 0
		}
	}
	if w, ok := defaultClause[k]; ok {
		return w
	}
	return 1
}

type action struct {
	name string
	f    func()
}

// choose runs one of the actions. Once the budget is used up the statement is ended.
func (g *G) choose(s S, acts ...action) {
	if g.mustReturn && s.cl[len(s.cl)-1].K != "return" && s.cl[len(s.cl)-1].K != "returndistinct" {
		var keep []action
		for _, a := range acts {
			if a.name != "build" {
				keep = append(keep, a)
			}
		}
		acts = keep
	}
	sort.SliceStable(acts, func(i, j int) bool { return acts[i].name < acts[j].name })
	if s.left <= 0 {
		for _, want := range []string{"build", "return"} {
			var fit []action
			for _, a := range acts {
				if a.name == want {
					fit = append(fit, a)
				}
			}
			if len(fit) > 0 && (want == "return" || g.r.p(50) || !has(acts, "return")) {
				fit[g.r.n(len(fit))].f()
				return
			}
		}
	}
	t := 0
	for _, a := range acts {
		t += g.cw(a.name)
	}
	if t == 0 {
		for _, a := range acts {
			if a.name == "return" || a.name == "build" {
				a.f()
				return
			}
		}
		acts[g.r.n(len(acts))].f()
		return
	}
	x := g.r.n(t)
	for _, a := range acts {
		x -= g.cw(a.name)
		if x < 0 {
			g.hit("step." + a.name)
			a.f()
			return
		}
	}
}

func has(acts []action, n string) bool {
	for _, a := range acts {
		if a.name == n {
			return true
		}
	}
	return false
}

// ---- items of RETURN and WITH

type items struct {
	how   string // string, named, expr
	str   []string
	named []cypher.Named
	x     []cypher.Expression
	n     []*N
	intro []reusable
}

func (g *G) projItems(s S, lo int) items {
	g.at(s)
	it := items{}
	k := g.r.some(lo, 3)
	if g.r.p(15) {
		it.how = "string"
		for ; k > 0; k-- {
			v := g.name()
			if len(g.names) > 0 && g.r.p(50) {
				v = g.names[g.r.n(len(g.names))].N.V
			}
			it.str = append(it.str, v)
			it.n = append(it.n, g.nameN(v))
		}
		return it
	}
	if g.r.p(20) {
		it.how = "named"
		for ; k > 0; k-- {
			e := g.anyNamed(1)
			it.named = append(it.named, e.named())
			it.n = append(it.n, e.Name)
		}
		return it
	}
	it.how = "expr"
	for ; k > 0; k-- {
		if g.r.p(4) {
			it.x = append(it.x, cypher.AnAsterisk())
			it.n = append(it.n, mk("*", ""))
			continue
		}
		if g.r.p(g.p.alias) && len(g.nodes) > 0 && g.r.p(10) && !g.p.noNodeAlias {
			// the name of a node
			i := g.r.n(len(g.nodes))
			nd := g.nodes[i]
			if nd.Name.Alias == "" && g.nest == 0 && g.forks == 0 {
				a := g.name()
				nd.Name.Alias = a
				it.x = append(it.x, nd.Node.As(a))
				it.n = append(it.n, mk("alias", a, nd.Name))
				g.nodes = append(append([]*El{}, g.nodes[:i]...), g.nodes[i+1:]...)
				g.forgetNode(nd.N.ID)
				g.hit("alias.node")
				continue
			}
		}
		if len(g.reuse) > 0 && g.r.p(g.p.alias/4) {
			// another alias for an expression that has one
			k := g.reuse[g.r.n(len(g.reuse))]
			if k.delegate.N.Twice {
				e := g.reused()
				it.x = append(it.x, e.X)
				it.n = append(it.n, e.N)
				continue
			}
			k.delegate.N.Twice = true
			a := g.name()
			x := k.delegate.X
			if g.r.p(50) {
				x = k.aliased.X
			}
			ax := x.As(a).Get()
			if first, ok := k.aliased.X.(cypher.AliasedExpression); ok && g.r.p(30) {
				ax = first.Aliased(a)
			}
			an := mk("alias", a, k.delegate.N)
			it.x = append(it.x, ax)
			it.n = append(it.n, an)
			it.intro = append(it.intro, reusable{aliased: E{ax, an}, delegate: k.delegate})
			g.hit("alias.another")
			continue
		}
		e := g.expr(g.p.depth)
		if e.X != nil && fresh(e.N) && g.r.p(g.p.or(g.p.aliasItems, 35)) {
			a := g.name()
			ax := e.X.As(a).Get()
			switch g.r.n(20) {
			case 0:
				ax = e.X.As(g.name()).As(a).Get()
				g.hit("alias.replaced")
			case 1:
				// the alias is replaced before it is used
				if first, ok := e.X.As(g.name()).Get().(cypher.AliasedExpression); ok {
					ax = first.Aliased(a)
					g.hit("alias.replaced")
				}
			}
			an := mk("alias", a, e.N)
			e.N.Alias = a
			it.x = append(it.x, ax)
			it.n = append(it.n, an)
			it.intro = append(it.intro, reusable{aliased: E{ax, an}, delegate: e})
			g.hit("alias.introduced")
			continue
		}
		it.x = append(it.x, e.X)
		it.n = append(it.n, e.N)
	}
	return it
}

func (g *G) doReturn(s S, v cypher.ExposesReturning) {
	it := g.projItems(s, 1)
	distinct := g.r.p(30)
	var r cypher.OngoingReadingAndReturn
	kind := "return"
	switch {
	case it.how == "string" && distinct:
		r = v.ReturningDistinctByString(it.str...)
	case it.how == "string":
		r = v.ReturningByString(it.str...)
	case it.how == "named" && distinct:
		r = v.ReturningDistinctByNamed(it.named...)
	case it.how == "named":
		r = v.ReturningByNamed(it.named...)
	case distinct:
		r = v.ReturningDistinct(it.x...)
	default:
		r = v.Returning(it.x...)
	}
	if distinct {
		kind = "returndistinct"
	}
	g.hit("return." + it.how)
	s = s.add(mk(kind, "", mk("items", "", it.n...), none, none, none)).introduce(it.intro...)
	g.branch(s, func(s S) { g.stRET(s, r) })
}

func (g *G) doWith(s S, v cypher.ExposesWith) {
	it := g.projItems(s, 1)
	distinct := g.r.p(30)
	var r cypher.OrderableOngoingReadingAndWithWithoutWhere
	kind := "with"
	switch {
	case it.how == "string" && distinct:
		r = v.WithDistinctByString(it.str...)
	case it.how == "string":
		r = v.WithByString(it.str...)
	case it.how == "named" && distinct:
		r = v.WithDistinctByNamed(it.named...)
	case it.how == "named":
		r = v.WithByNamed(it.named...)
	case distinct:
		r = v.WithDistinct(it.x...)
	default:
		r = v.With(it.x...)
	}
	if distinct {
		kind = "withdistinct"
	}
	g.hit("with." + it.how)
	s = s.add(mk(kind, "", mk("items", "", it.n...), none, none, none, none)).introduce(it.intro...)
	g.branch(s, func(s S) { g.stWWW(s, r) })
}

// ---- sorting

func (g *G) sortExpr(s S) E {
	g.at(s)
	return g.expr(g.p.depth)
}

func (g *G) sortItem(s S) (cypher.SortItem, *N) {
	k := g.r.n(20)
	if k == 2 {
		// texts with a direction
		v := strings.ReplaceAll(g.str(), " ", "")
		n := mk("sort", "", mk("str", v))
		switch g.r.n(3) {
		case 0:
			v += " DESC"
			n.V = "DESC"
		case 1:
			v += " ASC"
		}
		g.hit("sort.raw")
		return cypher.SortItemsOfRaw(v)[0], n
	}
	i, n := g.simpleSortItem(s)
	switch k {
	case 0:
		return i.Descending(), mk("sort", "DESC", n.C...)
	case 1:
		return i.Ascending(), mk("sort", "", n.C...)
	}
	return i, n
}

func (g *G) simpleSortItem(s S) (cypher.SortItem, *N) {
	e := g.sortExpr(s)
	if e.X != nil && g.r.p(30) {
		if g.r.p(50) {
			return e.X.Descending(), mk("sort", "DESC", e.N)
		}
		return e.X.Ascending(), mk("sort", "", e.N)
	}
	i := cypher.Sort(e.X)
	switch g.r.n(4) {
	case 0:
		return i.Descending(), mk("sort", "DESC", e.N)
	case 1:
		return i.Ascending(), mk("sort", "", e.N)
	case 2:
		if g.r.p(50) {
			return cypher.CreateDescendingSortItem(e.X), mk("sort", "DESC", e.N)
		}
		return cypher.CreateAscendingSortItem(e.X), mk("sort", "", e.N)
	}
	return i, mk("sort", "", e.N)
}

func (g *G) sortItems(s S) ([]cypher.SortItem, []*N) {
	var x []cypher.SortItem
	var n []*N
	for k := g.r.some(1, 3); k > 0; k-- {
		i, in := g.sortItem(s)
		x = append(x, i)
		n = append(n, in)
		if g.r.p(2) {
			// the same once more
			x = append(x, i)
			n = append(n, in)
		}
	}
	return x, n
}

func (s S) addSort(n ...*N) S {
	return s.edit(func(c *N) {
		if c.C[1].K == "order" {
			c.C[1] = mk("order", "", append(append([]*N{}, c.C[1].C...), n...)...)
		} else {
			c.C[1] = mk("order", "", n...)
		}
	})
}

func (s S) desc() S {
	return s.edit(func(c *N) {
		o := append([]*N{}, c.C[1].C...)
		l := *o[len(o)-1]
		l.V = "DESC"
		o[len(o)-1] = &l
		c.C[1] = mk("order", "", o...)
	})
}

func (s S) skip(k int) S  { return s.edit(func(c *N) { c.C[2] = mk("skip", "", intN(k)) }) }
func (s S) limit(k int) S { return s.edit(func(c *N) { c.C[3] = mk("limit", "", intN(k)) }) }

func (g *G) count() int {
	switch g.r.n(6) {
	case 0:
		return 0
	case 1:
		return 1<<31 + g.r.n(1000)
	case 2:
		return 1<<63 - 1
	}
	return g.r.n(1000)
}

// positive: the limit of nothing is refused.
func (g *G) positive() int {
	if k := g.count(); k > 0 {
		return k
	}
	return 1
}

// ---- states after RETURN

func (g *G) stRET(s S, v cypher.OngoingReadingAndReturn) {
	g.choose(s,
		action{"build", func() { g.emit(s, v) }},
		action{"order", func() {
			x, n := g.sortItems(s)
			r := v.OrderBySortItem(x...)
			g.branch(s.addSort(n...), func(s S) { g.stRETO(s, r) })
		}},
		action{"order", func() {
			e := g.sortExpr(s)
			r := v.OrderBy(e.X)
			g.branch(s.addSort(mk("sort", "", e.N)), func(s S) { g.stRETD(s, r) })
		}},
		action{"skip", func() { g.skipRet(s, v) }},
		action{"limit", func() { g.limitRet(s, v) }},
	)
}

func (g *G) skipRet(s S, v cypher.TerminalExposesSkip) {
	k := g.count()
	r := v.Skip(k)
	if again, ok := r.(cypher.TerminalExposesSkip); ok && g.r.p(10) {
		g.skipRet(s, again)
		return
	}
	g.branch(s.skip(k), func(s S) {
		g.choose(s,
			action{"build", func() { g.emit(s, r) }},
			action{"limit", func() { g.limitRet(s, r) }},
		)
	})
}

func (g *G) limitRet(s S, v cypher.TerminalExposesLimit) {
	k := g.positive()
	r := v.Limit(k)
	if l, ok := r.(cypher.TerminalExposesLimit); ok && g.r.p(10) { // the interfaces hide it, the type allows it: the last one counts
		g.limitRet(s, l)
		return
	}
	g.emit(s.limit(k), r)
}

func (g *G) stRETO(s S, v cypher.OngoingMatchAndReturnWithOrder) {
	g.choose(s,
		action{"build", func() { g.emit(s, v) }},
		action{"order", func() {
			e := g.sortExpr(s)
			r := v.And(e.X)
			g.branch(s.addSort(mk("sort", "", e.N)), func(s S) { s.left--; g.stRETD(s, r) })
		}},
		action{"skip", func() { g.skipRet(s, v) }},
		action{"limit", func() { g.limitRet(s, v) }},
	)
}

func (g *G) stRETD(s S, v cypher.TerminalOngoingOrderDefinition) {
	g.choose(s,
		action{"build", func() { g.emit(s, v) }},
		action{"ascdesc", func() {
			r := v.Descending()
			g.branch(s.desc(), func(s S) { g.stRETO(s, r) })
		}},
		action{"ascdesc", func() {
			r := v.Ascending()
			g.branch(s, func(s S) { g.stRETO(s, r) })
		}},
		action{"skip", func() { g.skipRet(s, v) }},
		action{"limit", func() { g.limitRet(s, v) }},
	)
}

// ---- reading

func (g *G) readingActs(s S, v cypher.OngoingReading) []action {
	return []action{
		{"return", func() { g.doReturn(s, v) }},
		{"with", func() { g.doWith(s, v) }},
		{"delete", func() { g.doDelete(s, v) }},
		{"merge", func() { g.doMerge(s, v) }},
		{"set", func() { g.doSet(s, v) }},
		{"setnamed", func() { g.doSetNamed(s, v) }},
		{"setlabel", func() { g.doSetLabel(s, v) }},
		{"removelabel", func() { g.doRemoveLabel(s, v) }},
		{"remove", func() { g.doRemove(s, v) }},
		{"unwind", func() { g.doUnwind(s, v) }},
		{"create", func() { g.doCreate(s, v) }},
		{"subcall", func() { g.doSubcall(s, v) }},
		{"call", func() { g.doCall(s, v) }},
	}
}

func (g *G) matchAct(s S, v cypher.ExposesMatch) action {
	return action{"match", func() { g.doMatch(s, v) }}
}

func (g *G) stR(s S, v cypher.OngoingReading) { g.choose(s, g.readingActs(s, v)...) }

func (g *G) stRAW(s S, v cypher.OngoingReadingAndWith) {
	g.choose(s, append(g.readingActs(s, v), g.matchAct(s, v))...)
}

func (g *G) stRWW(s S, v cypher.OngoingReadingWithoutWhere) {
	acts := append(g.readingActs(s, v), g.matchAct(s, v))
	if k := s.cl[len(s.cl)-1].K; k == "match" || k == "optmatch" {
		acts = append(acts, action{"where", func() {
			r, c := g.doWhere(s, v)
			g.branch(s.where(c), func(s S) { g.stRW(s, r) })
		}})
	}
	g.choose(s, acts...)
}

func (g *G) doWhere(s S, v cypher.ExposesWhere) (cypher.OngoingReadingWithWhere, Cd) {
	g.at(s)
	switch g.r.n(5) {
	case 0:
		r := g.relOrChain(g.p.depth)
		return v.WherePattern(r.relPattern()), Cd{N: mk("patexpr", "", r.N)}
	case 1:
		c := g.cond(g.p.depth)
		return v.WhereConditionContainer(cypher.ConditionWrap(c.X)), c
	}
	c := g.cond(g.p.depth)
	if c.X != nil && g.r.p(4) {
		// nothing at first, and then the condition
		g.hit("where.from empty")
		e := v.Where(cypher.ConditionsNoCondition())
		if g.r.p(50) {
			return e.And(c.X), c
		}
		return e.Or(c.X), c
	}
	return v.Where(c.X), c
}

func (g *G) stRW(s S, v cypher.OngoingReadingWithWhere) {
	acts := append(g.readingActs(s, v), g.matchAct(s, v))
	if s.left > 0 {
		acts = append(acts, action{"cond", func() {
			g.at(s)
			var r cypher.OngoingReadingWithWhere
			var c Cd
			k := g.r.n(4)
			if g.noAnd(s.cond) {
				k = 1 + 2*g.r.n(2)
			}
			switch k {
			case 0:
				c = g.cond(g.p.depth)
				r = v.And(c.X)
				c = combine("and", s.cond, c)
			case 1:
				c = g.cond(g.p.depth)
				r = v.Or(c.X)
				c = combine("or", s.cond, c)
			case 2:
				p := g.relOrChain(g.p.depth)
				r = v.AndPattern(p.relPattern())
				c = combine("and", s.cond, Cd{N: mk("patexpr", "", p.N)})
			default:
				p := g.relOrChain(g.p.depth)
				r = v.OrPattern(p.relPattern())
				c = combine("or", s.cond, Cd{N: mk("patexpr", "", p.N)})
			}
			s := s.where(c)
			s.left--
			g.branch(s, func(s S) { g.stRW(s, r) })
		}})
	}
	g.choose(s, acts...)
}

func (g *G) doMatch(s S, v cypher.ExposesMatch) {
	g.at(s)
	x, n := g.pats(g.p.depth, 2)
	k := "match"
	var r cypher.OngoingReadingWithoutWhere
	switch g.r.n(4) {
	case 0:
		r = v.OptionalMatch(x...)
		k = "optmatch"
	case 1:
		opt := g.r.p(50)
		if opt {
			k = "optmatch"
		}
		r = v.MatchDefault(opt, x...)
	default:
		r = v.Match(x...)
	}
	g.branch(s.add(mk(k, "", n...)), func(s S) { g.stRWW(s, r) })
}

func (g *G) doUnwind(s S, v cypher.ExposesUnwind) {
	g.at(s)
	var u cypher.OngoingUnwind
	var n *N
	switch g.r.n(4) {
	case 0:
		a := g.name()
		u = v.UnwindByString(a)
		n = g.nameN(a)
	case 1:
		x, ns := g.unwindList()
		u = v.Unwinds(x...)
		n = mk("list", "", ns...)
	default:
		e := g.expr(g.p.depth)
		u = v.Unwind(e.X)
		n = e.N
	}
	a := g.name()
	r := u.As(a)
	g.branch(s.add(mk("unwind", a, n)), func(s S) { g.stR(s, r) })
}

func (g *G) unwindList() ([]cypher.Expression, []*N) {
	x, ns := g.exprList(g.p.depth-1, 1, 3)
	if isIn(ns[0]) {
		x, ns = append([]cypher.Expression{cypher.LiteralOf(1)}, x...), append([]*N{intN(1)}, ns...)
	}
	return x, ns
}

// ---- WITH

func (g *G) withActs(s S, v cypher.OrderableOngoingReadingAndWith) []action {
	acts := append(g.readingActs(s, v), g.matchAct(s, v))
	return append(acts,
		action{"order", func() {
			x, n := g.sortItems(s)
			r := v.OrderBySortItem(x...)
			s := s.addSort(n...)
			s.left--
			g.branch(s, func(s S) { g.stWW(s, r) })
		}},
		action{"order", func() {
			e := g.sortExpr(s)
			r := v.OrderByExpression(e.X)
			s := s.addSort(mk("sort", "", e.N))
			s.left--
			g.branch(s, func(s S) { g.stOD(s, r) })
		}},
		action{"skip", func() { g.skipWith(s, v) }},
		action{"limit", func() { g.limitWith(s, v) }},
	)
}

func (g *G) skipWith(s S, v cypher.ExposesSkip) {
	k := g.count()
	r := v.Skip(k)
	if again, ok := r.(cypher.ExposesSkip); ok && g.r.p(10) {
		g.skipWith(s, again)
		return
	}
	g.branch(s.skip(k), func(s S) {
		if l, ok := r.(cypher.ExposesLimit); ok && g.r.p(50) {
			g.limitWith(s, l)
			return
		}
		g.stRAW(s, r.(cypher.OngoingReadingAndWith))
	})
}

func (g *G) limitWith(s S, v cypher.ExposesLimit) {
	k := g.positive()
	r := v.Limit(k)
	if l, ok := r.(cypher.ExposesLimit); ok && g.r.p(10) {
		g.limitWith(s, l)
		return
	}
	g.branch(s.limit(k), func(s S) { g.stRAW(s, r) })
}

func (g *G) stWWW(s S, v cypher.OrderableOngoingReadingAndWithWithoutWhere) {
	g.choose(s, append(g.withActs(s, v), action{"where", func() {
		g.at(s)
		var r cypher.OrderableOngoingReadingAndWithWithWhere
		var c Cd
		if g.r.p(20) {
			p := g.relOrChain(g.p.depth)
			r = v.WherePattern(p.relPattern())
			c = Cd{N: mk("patexpr", "", p.N)}
		} else {
			c = g.cond(g.p.depth)
			r = v.Where(c.X)
		}
		g.branch(s.where(c), func(s S) { g.stWW(s, r) })
	}})...)
}

func (g *G) stWW(s S, v cypher.OrderableOngoingReadingAndWithWithWhere) {
	acts := g.withActs(s, v)
	if s.left > 0 {
		acts = append(acts, action{"cond", func() {
			g.at(s)
			var r cypher.OrderableOngoingReadingAndWithWithWhere
			var c Cd
			k := g.r.n(4)
			if g.noAnd(s.cond) {
				k = 1 + 2*g.r.n(2)
			}
			pat := func() (cypher.RelationshipPattern, Cd) {
				p := g.relOrChain(g.p.depth)
				return p.relPattern(), Cd{N: mk("patexpr", "", p.N)}
			}
			op := "and"
			switch k {
			case 0:
				c = g.cond(g.p.depth)
				r = v.And(c.X)
			case 1:
				c = g.cond(g.p.depth)
				r = v.Or(c.X)
				op = "or"
			case 2:
				p, pc := pat()
				r, c = v.AndPattern(p), pc
			default:
				p, pc := pat()
				r, c = v.OrPattern(p), pc
				op = "or"
			}
			if s.has {
				c = combine(op, s.cond, c)
			}
			s := s.where(c)
			s.left--
			g.branch(s, func(s S) { g.stWW(s, r) })
		}})
	}
	g.choose(s, acts...)
}

func (g *G) stOD(s S, v cypher.OngoingOrderDefinition) {
	switch g.r.n(4) {
	case 0:
		g.skipWith(s, v)
	case 1:
		g.limitWith(s, v)
	case 2:
		r := v.Descending()
		g.branch(s.desc(), func(s S) { g.stWO(s, r) })
	default:
		r := v.Ascending()
		g.branch(s, func(s S) { g.stWO(s, r) })
	}
}

func (g *G) stWO(s S, v cypher.OngoingReadingAndWithWithWhereAndOrder) {
	acts := append(g.readingActs(s, v), g.matchAct(s, v))
	acts = append(acts,
		action{"skip", func() { g.skipWith(s, v) }},
		action{"limit", func() { g.limitWith(s, v) }},
	)
	if s.left > 0 {
		acts = append(acts, action{"order", func() {
			e := g.sortExpr(s)
			r := v.And1(e.X)
			s := s.addSort(mk("sort", "", e.N))
			s.left--
			g.branch(s, func(s S) { g.stOD(s, r) })
		}})
	}
	g.choose(s, acts...)
}

// ---- updating

func (g *G) doDelete(s S, v cypher.ExposesDelete) {
	g.at(s)
	var r cypher.OngoingUpdate
	detach := g.r.p(50)
	var n []*N
	switch g.r.n(3) {
	case 0:
		var str []string
		for k := g.r.some(1, 3); k > 0; k-- {
			a := g.name()
			str = append(str, a)
			n = append(n, g.nameN(a))
		}
		if detach {
			r = v.DetachDeleteByString(str...)
		} else {
			r = v.DeleteByString(str...)
		}
	case 1:
		var nm []cypher.Named
		for k := g.r.some(1, 3); k > 0; k-- {
			e := g.anyNamed(1)
			nm = append(nm, e.named())
			n = append(n, e.Name)
		}
		if detach {
			r = v.DetachDeleteByNamed(nm...)
		} else {
			r = v.DeleteByNamed(nm...)
		}
	default:
		x, xn := g.exprList(g.p.depth, 1, 3)
		n = xn
		if detach {
			r = v.DetachDelete(x...)
		} else {
			r = v.Delete(x...)
		}
	}
	k := "delete"
	if detach {
		k = "detachdelete"
	}
	g.branch(s.add(mk(k, "", n...)), func(s S) { g.stU(s, r) })
}

func (g *G) doMerge(s S, v cypher.ExposesMerge) {
	g.at(s)
	p := g.pat(g.p.depth)
	r := v.Merge(p.x)
	s = s.add(mk("merge", "", p.n))
	s.merge = true
	g.branch(s, func(s S) { g.stUES(s, r) })
}

func (g *G) doCreate(s S, v cypher.ExposesCreate) {
	g.at(s)
	x, n := g.pats(g.p.depth, 3)
	r := v.Create(x...)
	g.branch(s.add(mk("create", "", n...)), func(s S) { g.stUES(s, r) })
}

// setItems gives the arguments of SET: pairs of target and value, or operations.
func (g *G) setItems() ([]cypher.Expression, []*N) {
	var x []cypher.Expression
	var n []*N
	target := func() E {
		if g.r.p(15) {
			v := g.variable()
			return E{v.X, v.N}
		}
		return g.prop(0)
	}
	pairs := g.r.p(50)
	for k := g.r.some(1, 3); k > 0; k-- {
		if pairs {
			t, v := target(), g.operand(g.p.depth)
			x = append(x, t.X, v.X)
			n = append(n, mk("assign", "=", t.N, v.N))
			continue
		}
		switch g.r.n(3) {
		case 0:
			nd := g.namedNode()
			l, ln := g.labels(1, 3)
			x = append(x, cypher.OperationSetLabel(nd.Node, l...))
			n = append(n, mk("haslabel", "", append([]*N{nd.Name}, ln...)...))
		case 1:
			t, v := target(), g.operand(g.p.depth)
			x = append(x, cypher.OperationSet(t.X, v.X))
			n = append(n, mk("assign", "=", t.N, v.N))
		default:
			t, v := g.prop(0), g.operand(g.p.depth)
			x = append(x, t.X.(cypher.Property).To(v.X))
			n = append(n, mk("assign", "=", t.N, v.N))
		}
	}
	return x, n
}

func (g *G) doSet(s S, v cypher.ExposesSet) {
	g.at(s)
	x, n := g.setItems()
	r := v.Set(x...)
	g.branch(s.add(mk("set", "", n...)), func(s S) { g.stBMU(s, r) })
}

func (g *G) doSetNamed(s S, v cypher.ExposesSet) {
	g.at(s)
	e := g.anyNamed(1)
	val := g.setNamedValue()
	r := v.SetWithNamed(e.named(), val.X)
	g.branch(s.add(mk("set", "", mk("assign", "=", e.Name, val.N))), func(s S) { g.stBMU(s, r) })
}

func (g *G) setNamedValue() E {
	if g.r.p(60) {
		return g.mapExpr(g.p.depth, 1)
	}
	return g.expr(g.p.depth)
}

func (g *G) doSetLabel(s S, v cypher.ExposesSetAndRemove) {
	g.at(s)
	nd := g.namedNode()
	l, ln := g.labels(1, 3)
	r := v.SetByNode(nd.Node, l...)
	g.branch(s.add(mk("set", "", mk("haslabel", "", append([]*N{nd.Name}, ln...)...))), func(s S) { g.stBMU(s, r) })
}

func (g *G) doRemoveLabel(s S, v cypher.ExposesSetAndRemove) {
	g.at(s)
	nd := g.namedNode()
	l, ln := g.labels(1, 3)
	r := v.RemoveByNode(nd.Node, l...)
	g.branch(s.add(mk("remove", "", mk("haslabel", "", append([]*N{nd.Name}, ln...)...))), func(s S) { g.stBMU(s, r) })
}

func (g *G) doRemove(s S, v cypher.ExposesSetAndRemove) {
	g.at(s)
	var x []cypher.Property
	var n []*N
	for k := g.r.some(1, 3); k > 0; k-- {
		p := g.prop(0)
		x = append(x, p.X.(cypher.Property))
		n = append(n, p.N)
	}
	r := v.Remove(x...)
	g.branch(s.add(mk("remove", "", n...)), func(s S) { g.stBMU(s, r) })
}

// both ends the statement at a state that can be built and sometimes goes on from there as well.
func (g *G) both(s S, b cypher.BuildableStatement, on func(S)) {
	g.emit(s, b)
	if g.nest == 0 && g.forks < 4 && g.r.p(g.p.fork) {
		g.forks++
		g.hit("fork.built")
		s.br += "B"
		on(s)
	}
}

func (g *G) onActs(s S, v cypher.ExposesMergeAction) []action {
	if !s.merge || s.left <= 0 {
		return nil
	}
	return []action{{"on", func() {
		g.at(s)
		var o cypher.OngoingMergeAction
		k := "oncreate"
		if g.r.p(50) {
			o = v.OnCreate()
		} else {
			o = v.OnMatch()
			k = "onmatch"
		}
		var r cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction
		var n []*N
		if g.r.p(25) {
			e := g.anyNamed(1)
			val := g.setNamedValue()
			r = o.SetWithNamed(e.named(), val.X)
			n = []*N{mk("assign", "=", e.Name, val.N)}
		} else {
			var x []cypher.Expression
			x, n = g.setItems()
			r = o.Set(x...)
		}
		s := s.edit(func(c *N) { c.C = append(c.C, mk(k, "", n...)) })
		s.left--
		g.branch(s, func(s S) { g.stMUB(s, r) })
	}}}
}

func (g *G) stU(s S, v cypher.OngoingUpdate) {
	g.choose(s, append(g.onActs(s, v),
		action{"build", func() { g.both(s, v, func(s S) { g.stU(s, v) }) }},
		action{"create", func() { g.doCreate(s, v) }},
		action{"merge", func() { g.doMerge(s, v) }},
		action{"delete", func() { g.doDelete(s, v) }},
		action{"return", func() { g.doReturn(s, v) }},
		action{"with", func() { g.doWith(s, v) }},
	)...)
}

func (g *G) stUES(s S, v cypher.OngoingUpdateAndExposesSet) {
	g.choose(s, append(g.onActs(s, v),
		action{"build", func() { g.both(s, v, func(s S) { g.stUES(s, v) }) }},
		action{"create", func() { g.doCreate(s, v) }},
		action{"merge", func() { g.doMerge(s, v) }},
		action{"delete", func() { g.doDelete(s, v) }},
		action{"return", func() { g.doReturn(s, v) }},
		action{"with", func() { g.doWith(s, v) }},
		action{"set", func() { g.doSet(s, v) }},
		action{"setnamed", func() { g.doSetNamed(s, v) }},
	)...)
}

func (g *G) muActs(s S, v cypher.OngoingMatchAndUpdate) []action {
	return []action{
		{"return", func() { g.doReturn(s, v) }},
		{"with", func() { g.doWith(s, v) }},
		{"delete", func() { g.doDelete(s, v) }},
		{"merge", func() { g.doMerge(s, v) }},
		{"set", func() { g.doSet(s, v) }},
		{"setnamed", func() { g.doSetNamed(s, v) }},
		{"setlabel", func() { g.doSetLabel(s, v) }},
		{"removelabel", func() { g.doRemoveLabel(s, v) }},
		{"remove", func() { g.doRemove(s, v) }},
		{"create", func() { g.doCreate(s, v) }},
	}
}

func (g *G) stBMU(s S, v cypher.BuildableStatementAndOngoingMatchAndUpdate) {
	g.choose(s, append(g.muActs(s, v),
		action{"build", func() { g.both(s, v, func(s S) { g.stBMU(s, v) }) }})...)
}

func (g *G) stMUB(s S, v cypher.OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction) {
	g.choose(s, append(append(g.muActs(s, v), g.onActs(s, v)...),
		action{"build", func() { g.both(s, v, func(s S) { g.stMUB(s, v) }) }})...)
}

// ---- calls

type yielder interface {
	YieldSymbolic(name ...cypher.SymbolicName) cypher.OngoingInQueryCallWithReturnFields
	YieldString(yieldedItems ...string) cypher.OngoingInQueryCallWithReturnFields
	Yield(aliasedResultFields ...cypher.AliasedExpression) cypher.OngoingInQueryCallWithReturnFields
}

type yields struct {
	how   int
	sym   []cypher.SymbolicName
	str   []string
	al    []cypher.AliasedExpression
	n     []*N
	intro []reusable
}

func (g *G) yields() yields {
	y := yields{how: g.r.n(3)}
	for k := g.r.some(1, 3); k > 0; k-- {
		v := g.name()
		nm := g.nameN(v)
		x := cypher.ASymbolic(v)
		switch y.how {
		case 0:
			y.sym = append(y.sym, x)
			y.n = append(y.n, nm)
		case 1:
			y.str = append(y.str, v)
			y.n = append(y.n, nm)
		default:
			a := g.name()
			ax := x.As(a).Get()
			an := mk("alias", a, nm)
			nm.Alias = a
			y.al = append(y.al, ax.(cypher.AliasedExpression))
			y.n = append(y.n, an)
			y.intro = append(y.intro, reusable{aliased: E{ax, an}, delegate: E{x, nm}})
		}
	}
	return y
}

func (g *G) doCall(s S, v cypher.OngoingReading) {
	g.at(s)
	parts, nm := g.procName()
	c := v.Call1(parts...)
	var yv yielder = c
	args := mk("args", "")
	if g.r.p(60) {
		x, n := g.exprList(g.p.depth, 1, 3)
		yv = c.WithArgs(x...)
		args = mk("args", "", n...)
	}
	y := g.yields()
	var r cypher.OngoingInQueryCallWithReturnFields
	switch y.how {
	case 0:
		r = yv.YieldSymbolic(y.sym...)
	case 1:
		r = yv.YieldString(y.str...)
	default:
		r = yv.Yield(y.al...)
	}
	s = s.add(mk("call", nm, args, mk("yield", "", y.n...), none)).introduce(y.intro...)
	g.branch(s, func(s S) { g.stRF(s, r) })
}

type returnFields interface {
	cypher.ExposesWhere
	cypher.ExposesReturning
	cypher.ExposesWith
	cypher.ExposesSubqueryCall
}

func (g *G) stRF(s S, v returnFields) {
	acts := []action{
		{"where", func() {
			r, c := g.doWhere(s, v)
			g.branch(s.where(c), func(s S) { g.stRW(s, r) })
		}},
		{"return", func() { g.doReturn(s, v) }},
		{"with", func() { g.doWith(s, v) }},
		{"subcall", func() { g.doSubcall(s, v) }},
	}
	if b, ok := v.(cypher.OngoingStandaloneCallWithReturnFields); ok && g.nest == 0 && len(s.cl) == 1 {
		acts = append(acts, action{"build", func() { g.both(s, b, func(s S) { g.stRF(s, v) }) }})
	}
	g.choose(s, acts...)
}

func (g *G) startCall(s S) {
	parts, nm := g.procName()
	var c cypher.OngoingStandaloneCallWithoutArguments
	if g.r.p(50) {
		c = cypher.ACallSimple(strings.Join(parts, "."))
	} else {
		c = cypher.ACall(parts...)
	}
	args := mk("args", "")
	g.at(s)
	if g.r.p(60) {
		x, n := g.exprList(g.p.depth, 1, 3)
		c = c.WithArgs(x...)
		args = mk("args", "", n...)
	}
	if g.nest == 0 && g.r.p(25) {
		g.both(s.add(mk("call", nm, args, mk("yield", ""), none)), c, func(s2 S) { g.yieldCall(s, c, nm, args) })
		return
	}
	g.yieldCall(s, c, nm, args)
}

func (g *G) yieldCall(s S, c cypher.OngoingStandaloneCallWithoutArguments, nm string, args *N) {
	g.at(s)
	y := g.yields()
	var r cypher.OngoingStandaloneCallWithReturnFields
	switch y.how {
	case 0:
		r = c.YieldSymbolic(y.sym...)
	case 1:
		r = c.YieldString(y.str...)
	default:
		r = c.Yield(y.al...)
	}
	s = s.add(mk("call", nm, args, mk("yield", "", y.n...), none)).introduce(y.intro...)
	g.branch(s, func(s S) { g.stRF(s, r) })
}

// ---- statements within statements

// nested builds one complete statement of its own.
// A statement that is called has to return something.
func (g *G) nested(union, ret bool) (cypher.Statement, *N) {
	out, reuse, must := g.out, g.reuse, g.mustReturn
	g.out = nil
	g.mustReturn = ret
	g.nest++
	defer func() {
		g.nest--
		g.out, g.reuse, g.mustReturn = out, reuse, must
	}()
	if union && g.r.p(25) {
		return g.union()
	}
	left := g.r.in(1, 2)
	if g.r.permille(20) {
		left = g.r.in(3, 8)
	}
	g.start(S{left: left}, false)
	r := g.out[len(g.out)-1]
	st, err := r.B.Build()
	if err != nil {
		g.early = err
		panic(abort{err})
	}
	return st, r.N
}

func hasAlias(n *N) bool {
	if n == nil {
		return false
	}
	if n.K == "alias" || n.Alias != "" {
		return true
	}
	for _, c := range n.C {
		if hasAlias(c) {
			return true
		}
	}
	return false
}

// forgetAliased drops the elements that mention aliases: the next part of a union does not know these.
func (g *G) forgetAliased() {
	keep := func(l []*El) []*El {
		var out []*El
		for _, e := range l {
			if !hasAlias(e.N) {
				out = append(out, e)
			}
		}
		return out
	}
	g.nodes, g.rels, g.paths = keep(g.nodes), keep(g.rels), keep(g.paths)
}

// forgetNode drops the relationships and paths that contain a node.
func (g *G) forgetNode(id int) {
	g.pool, g.condPool = nil, nil
	var in func(n *N) bool
	in = func(n *N) bool {
		if n == nil {
			return false
		}
		if n.K == "node" && n.ID == id {
			return true
		}
		for _, c := range n.C {
			if in(c) {
				return true
			}
		}
		return false
	}
	keep := func(l []*El) []*El {
		var out []*El
		for _, e := range l {
			if !in(e.N) {
				out = append(out, e)
			}
		}
		return out
	}
	g.nodes, g.rels, g.paths = keep(g.nodes), keep(g.rels), keep(g.paths)
}

func (g *G) union() (cypher.Statement, *N) {
	all := g.r.p(50)
	k := "union"
	f := cypher.Union
	if all {
		k = "unionall"
		f = cypher.UnionAll
	}
	var st []cypher.Statement
	n := mk(k, "")
	// A part may be one that is in the union already.
	part := func() (cypher.Statement, *N) {
		if len(st) > 0 && g.r.p(15) {
			g.hit("union.repeated")
			i := g.r.n(len(st))
			return st[i], n.C[i]
		}
		x, xn := g.nested(false, g.mustReturn)
		g.forgetAliased()
		return x, xn
	}
	for i := g.r.some(2, 3); i > 0; i-- {
		x, xn := part()
		st = append(st, x)
		n.C = append(n.C, xn)
	}
	u := f(st...)
	for g.r.p(30) {
		more := []cypher.Statement{u}
		for i := g.r.some(1, 2); i > 0; i-- {
			x, xn := part()
			more = append(more, x)
			st = append(st, x)
			n = mk(k, "", append(append([]*N{}, n.C...), xn)...)
		}
		u = f(more...)
		g.hit("union.extended")
	}
	g.hit(k)
	return u, n
}

func (g *G) doSubcall(s S, v cypher.ExposesSubqueryCall) {
	g.at(s)
	st, n := g.called(&s)
	r := v.Call(st)
	g.branch(s.add(mk("subcall", "", n)), func(s S) { g.stRWW(s, r) })
}

type builtStatement struct{ s cypher.Statement }

func (b builtStatement) Build() (cypher.Statement, error) { return b.s, b.s.GetError() }

// start begins a statement. Unions are no statements one can go on from.
func (g *G) start(s S, union bool) {
	kinds := []string{"start.match", "start.optmatch", "start.create", "start.with", "start.merge", "start.unwind", "start.return"}
	if g.nest < g.p.sub {
		kinds = append(kinds, "start.subcall")
		if union {
			kinds = append(kinds, "start.union")
		}
	}
	if g.nest == 0 {
		kinds = append(kinds, "start.call")
	}
	w := map[string]int{}
	for _, k := range kinds {
		w[k] = g.cw(k)
	}
	k := g.weighted(w, kinds)
	if k == "" {
		k = "start.match"
	}
	g.hit(k)
	b := cypher.DefaultStatementBuilderCreate()
	g.at(s)
	switch k {
	case "start.match":
		x, n := g.pats(g.p.depth, 2)
		r := cypher.Match(x...)
		if g.r.p(20) {
			r = cypher.MatchWithOption(false, x...)
		}
		g.branch(s.add(mk("match", "", n...)), func(s S) { g.stRWW(s, r) })
	case "start.optmatch":
		x, n := g.pats(g.p.depth, 2)
		r := cypher.AnOptionalMatch(x...)
		if g.r.p(30) {
			r = cypher.MatchWithOption(true, x...)
		}
		g.branch(s.add(mk("optmatch", "", n...)), func(s S) { g.stRWW(s, r) })
	case "start.create":
		x, n := g.pats(g.p.depth, 3)
		r := cypher.Create(x...)
		g.branch(s.add(mk("create", "", n...)), func(s S) { g.stUES(s, r) })
	case "start.merge":
		p := g.pat(g.p.depth)
		r := cypher.Merge(p.x)
		s = s.add(mk("merge", "", p.n))
		s.merge = true
		g.branch(s, func(s S) { g.stUES(s, r) })
	case "start.unwind":
		if g.r.p(40) {
			x, ns := g.unwindList()
			a := g.name()
			r := cypher.UnwindMulti(x...).As(a)
			g.branch(s.add(mk("unwind", a, mk("list", "", ns...))), func(s S) { g.stR(s, r) })
			return
		}
		g.doUnwind(s, b)
	case "start.with":
		g.doWith(s, topWith{b})
	case "start.return":
		if g.r.p(70) {
			g.doReturn(s, topReturn{b})
		} else {
			g.doReturn(s, b)
		}
	case "start.call":
		g.startCall(s)
	case "start.subcall":
		st, n := g.called(&s)
		r := cypher.ACallByStatement(st)
		g.branch(s.add(mk("subcall", "", n)), func(s S) { g.stRWW(s, r) })
	case "start.union":
		st, n := g.union()
		r := Result{B: builtStatement{st}, N: n, Path: s.br}
		g.out = append(g.out, r)
	}
}

// topWith and topReturn use the functions of the package where there are any.
type topWith struct{ cypher.ExposesWith }

func (t topWith) WithByString(v ...string) cypher.OrderableOngoingReadingAndWithWithoutWhere {
	return cypher.WithByString(v...)
}
func (t topWith) WithByNamed(v ...cypher.Named) cypher.OrderableOngoingReadingAndWithWithoutWhere {
	return cypher.WithByNamed(v...)
}
func (t topWith) With(v ...cypher.Expression) cypher.OrderableOngoingReadingAndWithWithoutWhere {
	return cypher.With(v...)
}

type topReturn struct{ cypher.ExposesReturning }

func (t topReturn) Returning(v ...cypher.Expression) cypher.OngoingReadingAndReturn {
	return cypher.CypherReturning(v...)
}
