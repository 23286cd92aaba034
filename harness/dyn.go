package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// ---- C11: building and rendering again

type kept struct {
	st   cypher.Statement
	text string
	r    *cypher.CypherRenderer
}

func mixed(r *rng) profile {
	return profile{depth: 1 + r.n(2), nasty: 10, alias: 25, reuse: 50, clash: 10, sub: 1, fork: 8, aliasItems: 40}
}

func texts(g *G) (out []string, sts []cypher.Statement, ft *fault) {
	for _, x := range g.out {
		var st cypher.Statement
		var err error
		if ft = guard("Build", func() { st, err = x.B.Build() }); ft != nil {
			return
		}
		if err != nil {
			out, sts = append(out, "error: "+err.Error()), append(sts, nil)
			continue
		}
		t, err, f := render(st)
		if f != nil {
			return nil, nil, f
		}
		if err != nil {
			t = "error: " + err.Error()
		}
		out, sts = append(out, t), append(sts, st)
	}
	return
}

func again(what, first, second string) *fault {
	if first == second {
		return nil
	}
	return &fault{kind: "unstable", msg: what, query: first, detail: "  now:      " + second}
}

// c11texts gives the texts of a case from nothing but seed and index.
func c11texts(seed, i uint64) (*G, []string, []cypher.Statement, *fault) {
	r := newRng(seed, i, "C11")
	p := mixed(r)
	g := newG(r, &p)
	if ft := guard("a builder", func() { g.start(S{left: r.in(1, 5)}, true) }); ft != nil {
		return g, nil, nil, ft
	}
	t, s, ft := texts(g)
	return g, t, s, ft
}

func digest(l []string) string {
	h := fnv.New64a()
	h.Write([]byte(strings.Join(l, "\x00")))
	return fmt.Sprintf("%016x", h.Sum64())
}

const coldCases = 400

func checkC11() *check {
	shared := cypher.NewRenderer()
	var pool []kept
	var bad []cypher.Statement
	for _, b := range badExpressions() {
		if st, err := cypher.CypherReturning(b.x).Build(); err == nil {
			bad = append(bad, st)
		}
	}
	return &check{
		id: "C11", quick: 60000, thorough: 1500000,
		rule: "random statements, some of them branching; each is rendered twice by renderers of its own, by one renderer shared by everything the process does, and by the renderers of earlier statements; it is built again, and made anew from the same calls; statements up to 200 cases old and erroneous ones are rendered in between; the texts are compared byte by byte. 400 cases are made by two more processes too, in reverse and in shuffled order, and compared by digest. Non-trivial: two clauses; distinct by the tree without names and values",
		one: func(c *C, i uint64) *fault {
			g, t1, sts, ft := c11texts(c.seed, i)
			if ft != nil {
				return ft
			}
			c.merge(g)
			r := c.rng(i, "again")
			for k, st := range sts {
				c.distinct(shape(g.out[k].N), len(g.out[k].N.C) > 1)
				c.hit("statements")
				c.sample(t1[k])
				if st == nil {
					return &fault{kind: "build", msg: t1[k]}
				}
				again1 := func(what string, rd *cypher.CypherRenderer, st cypher.Statement, want string) (ft *fault) {
					var s string
					var err error
					if ft = guard(what, func() { s, err = rd.Render(st) }); ft != nil {
						return
					}
					if err != nil {
						s = "error: " + err.Error()
					}
					c.hit("renderings compared")
					return again(what, want, s)
				}
				own := cypher.NewRenderer()
				acts := []func() *fault{
					func() *fault { return again1("rendered by another renderer", own, st, t1[k]) },
					func() *fault { return again1("rendered again by that renderer", own, st, t1[k]) },
					func() *fault { return again1("rendered by a renderer used for everything", shared, st, t1[k]) },
					func() *fault {
						if len(pool) == 0 {
							return nil
						}
						o := pool[r.n(len(pool))]
						if ft := again1("an earlier statement", cypher.NewRenderer(), o.st, o.text); ft != nil {
							return ft
						}
						if ft := again1("rendered by the renderer of an earlier statement", o.r, st, t1[k]); ft != nil {
							return ft
						}
						return again1("an earlier statement by its own renderer", o.r, o.st, o.text)
					},
					func() *fault {
						// an erroneous statement must not leave anything in the renderer
						if len(bad) > 0 {
							b := bad[r.n(len(bad))]
							c.hit("erroneous in between")
							if ft := guard("an erroneous statement", func() { own.Render(b); shared.Render(nil); shared.Render(b) }); ft != nil {
								return ft
							}
						}
						if ft := again1("rendered after an erroneous statement", own, st, t1[k]); ft != nil {
							return ft
						}
						return again1("rendered by the common renderer after an erroneous statement", shared, st, t1[k])
					},
					func() *fault {
						var s2 cypher.Statement
						var err error
						if ft := guard("Build", func() { s2, err = g.out[k].B.Build() }); ft != nil {
							return ft
						}
						if err != nil {
							return &fault{kind: "unstable", msg: "building again fails: " + err.Error(), query: t1[k]}
						}
						if ft := again1("built again", shared, s2, t1[k]); ft != nil {
							return ft
						}
						return again1("the first statement after building again", own, st, t1[k])
					},
				}
				for n := len(acts) + 2; n > 0; n-- {
					if ft := acts[r.n(len(acts))](); ft != nil {
						return ft
					}
				}
				k2 := kept{st, t1[k], own}
				if len(pool) < 200 {
					pool = append(pool, k2)
				} else {
					pool[r.n(200)] = k2
				}
			}
			_, t2, _, ft := c11texts(c.seed, i)
			if ft != nil {
				return ft
			}
			c.hit("made anew")
			return again("made anew from the same calls", strings.Join(t1, "\n"), strings.Join(t2, "\n"))
		},
		directed: func(c *C) *fault {
			var mine []string
			for i := uint64(0); i < coldCases; i++ {
				_, t, _, ft := c11texts(c.seed, i)
				if ft != nil {
					return ft
				}
				mine = append(mine, digest(t))
			}
			self, err := os.Executable()
			if err != nil {
				return nil
			}
			for _, order := range []string{"reverse", "shuffle"} {
				out, err := exec.Command(self, "texts", fmt.Sprint(c.seed), order).Output()
				if err != nil {
					return &fault{kind: "crash", msg: "another process with the same cases: " + err.Error()}
				}
				l := strings.Fields(string(out))
				if len(l) != coldCases {
					return &fault{kind: "crash", msg: fmt.Sprint("another process made only ", len(l), " cases")}
				}
				for i := range l {
					c.hit("compared with another process")
					if l[i] != mine[i] {
						_, t, _, _ := c11texts(c.seed, uint64(i))
						return &fault{kind: "unstable", msg: fmt.Sprint("another process that made the cases in another order gives another text, case ", i), query: strings.Join(t, "\n")}
					}
				}
			}
			return nil
		},
	}
}

// coldTexts prints the digests of the cases, made in another order.
func coldTexts(seed uint64, order string) {
	out := make([]string, coldCases)
	r := newRng(seed, 0, order)
	idx := make([]int, coldCases)
	for i := range idx {
		idx[i] = coldCases - 1 - i
	}
	if order == "shuffle" {
		for i := range idx {
			j := i + r.n(len(idx)-i)
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
	for _, i := range idx {
		_, t, _, ft := c11texts(seed, uint64(i))
		if ft != nil {
			t = []string{ft.msg}
		}
		out[i] = digest(t)
	}
	fmt.Println(strings.Join(out, "\n"))
}

// ---- C12: the garbage collector

var sink []interface{}

func checkC12() *check {
	return &check{
		id: "C12", quick: 7500, thorough: 180000,
		directed: func(c *C) *fault {
			if c.tier == "thorough" {
				return c.aged(4000)
			}
			return c.aged(300)
		},
		rule: "random statements with many nodes of the same name and aliased expressions, whose building and rendering is interrupted by full garbage collections (at 30 of a hundred names, between Build and Render, and all the time in every fourth case) while short-lived nodes, names and expressions are allocated in between to take over freed memory; the heap is collected at every 1% of growth. Every third case goes through the kinds of expressions, conditions, literals and functions one by one: up to 25 of the kind get aliases in a WITH, their parts are left to the collector, and up to 90 others are made in their place, half of them of the same kind. Besides, 24000 nodes and aliased expressions are kept and used next to new ones while more than 22 million keys are given out. The text is compared with what was built. Non-trivial: a later reference to a node or an alias; distinct by the tree of the expected text without names and values",
		one: func(c *C, i uint64) *fault {
			if i%3 == 2 {
				return c.confused(i / 3)
			}
			debug.SetGCPercent(1)
			r := c.rng(i, "")
			p := profile{depth: 1 + int(i%2), clash: 25, reuse: 60, sub: 1, alias: 40, aliasItems: 50, fork: 3,
				clause: map[string]int{"with": 4, "match": 4, "create": 2, "merge": 2}}
			gr := c.rng(i, "gc")
			ms0 := c.gcs()
			churn := func() {
				sink = sink[:0]
				for k := gr.n(8); k > 0; k-- {
					a := cypher.AnyNodeNamed("decoy")
					sink = append(sink, a, cypher.ANode("Decoy"), a.Property("p"), cypher.LiteralOf(k).As("decoy"), cypher.ASymbolic("decoy"))
				}
				sink = nil
			}
			ticks := 0
			p.tick = func() {
				ticks++
				if ticks < 100 && gr.p(30) || gr.p(1) {
					churn()
					runtime.GC()
				}
			}
			stop := make(chan struct{})
			var wg sync.WaitGroup
			if i%4 == 3 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						select {
						case <-stop:
							return
						default:
							runtime.GC()
						}
					}
				}()
			}
			defer func() { close(stop); wg.Wait() }()
			g := newG(r, &p)
			if ft := c.generate(g, r.clauses(1, 5), true); ft != nil {
				return ft
			}
			c.merge(g)
			for _, x := range g.out {
				var st cypher.Statement
				var err error
				if ft := guard("Build", func() { st, err = x.B.Build() }); ft != nil {
					return ft
				}
				if err != nil || st == nil {
					return &fault{kind: "build", msg: fmt.Sprint(err)}
				}
				x.B = nil
				churn()
				runtime.GC()
				churn()
				text, err, ft := render(st)
				if ft != nil {
					return ft
				}
				if err != nil {
					return &fault{kind: "render", msg: err.Error()}
				}
				if ft := meaning(text, x.N); ft != nil {
					return ft
				}
				runtime.GC()
				t2, err, ft := render(st)
				if ft != nil {
					return ft
				}
				if ft := again("rendered again after a collection", text, fmt.Sprint(t2, errText(err))); ft != nil {
					return ft
				}
				want, res := resolve(x.N)
				c.add("nodes.later", res.later)
				c.add("aliases.later", res.aliased)
				c.hit("statements")
				c.distinct(shape(want), res.later+res.aliased > 0)
				c.sample(text)
			}
			c.add("collections", int(c.gcs()-ms0))
			return nil
		},
	}
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return " error: " + err.Error()
}

func (c *C) gcs() uint32 {
	var m debug.GCStats
	debug.ReadGCStats(&m)
	return uint32(m.NumGC)
}

// ---- C13: values stay as they are

func checkC13() *check {
	return &check{
		id: "C13", quick: 60000, thorough: 1500000,
		rule: "every other case is a statement walk that goes on twice from more than half of its builder steps and builds in between; all statements, those built early too, have to say what was built for them. A quarter of the cases sweeps over every method of every static type the API leads to: a value grows by calling the method (or a pair of methods that leads back, like When and Then) up to six times and is then gone on from twice; all values of the chain have to say the same afterwards. The other cases are programs of 30 to 70 calls made by reflection over the whole API, whose values are used again and again; what each value says (its text in a statement, or its error) is noted when it is obtained and compared at random moments and at the end; a third of their calls gets its last arguments as a slice with room behind it, which is overwritten right after the call: the result has to say the same, and nothing may be written into the slice. Non-trivial: a fork, or a value compared after ten further calls; distinct by the tree of the statement, or by the function or method that made the value and what it says",
		one: func(c *C, i uint64) *fault {
			if i%2 == 0 {
				return c.forked(i)
			}
			if i%4 == 1 {
				for k := 0; k < 4; k++ {
					if ft := c.sweep(i, int(i/4)*4+k); ft != nil {
						return ft
					}
				}
				return nil
			}
			if ft := c.lists(i); ft != nil {
				return ft
			}
			return c.snapshots(i, []int{0, 0, 8}[i/4%3])
		},
	}
}

// lists gives the slices that are no variadic arguments, and uses them for something else afterwards.
func (c *C) lists(i uint64) *fault {
	g := newG(c.rng(i, "lists"), &profile{depth: 1})
	r := g.r
	n, room := r.in(1, 6), r.n(4)
	literals := make([]cypher.Literal, n, n+room)
	entries := make([]cypher.Expression, n, n+room)
	for k := range literals {
		literals[k] = cypher.LiteralOf([]interface{}{k, g.str(), k%2 == 0, g.float()}[r.n(4)])
		entries[k] = cypher.KeyValueMapEntryCreate(g.key(), literals[k])
	}
	m := cypher.MapOf("first", 1)
	what := []string{"LiteralOf", "AddEntries", "AddEntries of what AddEntries gave"}
	made := []cypher.Expression{cypher.LiteralOf(literals), m.AddEntries(entries), m.AddEntries(entries).AddEntries(nil)}
	var says []string
	for _, x := range made {
		says = append(says, exprText(x))
	}
	// more of the same beginning
	cypher.LiteralOf(append(literals[:n-1:n-1], cypher.LiteralOf("other")))
	m.AddEntries(append(entries[:n-1], cypher.KeyValueMapEntryCreate("other", literals[0])))
	for k := range literals {
		literals[k], entries[k] = cypher.LiteralOf(overwritten), cypher.KeyValueMapEntryCreate(overwritten, cypher.LiteralOf(overwritten))
	}
	for k, x := range made {
		if s := exprText(x); s != says[k] {
			return &fault{kind: "slice", msg: what[k] + " keeps the slice it was given", query: says[k], detail: "  now:      " + s}
		}
	}
	c.stats["slices given and used again"] += 2
	return nil
}

func (c *C) forked(i uint64) *fault {
	r := c.rng(i, "")
	p := profile{depth: 1, nasty: 3, alias: 15, sub: 1, fork: 55, reuse: 50, aliasItems: 20, expr: map[string]int{"lit": 2, "prop": 4, "name": 2, "op": 1, "fn": 1, "case": 1, "mapproj": 1, "map": 1}}
	if i%4 == 0 {
		p.cond = map[string]int{"cmp": 4, "and": 3, "or": 3, "not": 2, "pattern": 1, "label": 1}
	}
	g := newG(r, &p)
	if ft := c.generate(g, r.clauses(2, 6), true); ft != nil {
		return ft
	}
	c.merge(g)
	n := len(g.out)
	for k := range g.out {
		// the other way round, so that building the last one first shows as well
		x := g.out[n-1-k]
		text, ft := built(x)
		if ft != nil {
			ft.msg = "branch " + x.Path + ": " + ft.msg
			return ft
		}
		if x.HasEarly {
			c.hit("built early as well")
			if x.EarlyErr != nil {
				return &fault{kind: "unstable", msg: "the builder reported an error before it was used again: " + x.EarlyErr.Error(), query: text}
			}
			t, err, ft := render(x.Early)
			if ft != nil {
				return ft
			}
			if ft := again("a statement that was built before the builder was used again, and after", t+errText(err), text); ft != nil {
				return ft
			}
		}
		want, _ := resolve(x.N)
		c.hit("statements")
		c.distinct(shape(want)+x.Path, n > 1)
		c.sample(text)
	}
	for _, x := range g.out {
		// and once more in the order they were made
		if _, ft := built(x); ft != nil {
			ft.msg = "again, branch " + x.Path + ": " + ft.msg
			return ft
		}
	}
	return nil
}

// stable leaves out what is not a value of its own: names that each renderer makes up.
func stable(name string) bool { return name != "SymbolicNameUnResolve" && userLevel(name) }

// anyStable takes the constructors of the single elements as well.
func anyStable(name string) bool {
	return name != "SymbolicNameUnResolve" && name != "PrepareVisit" && name != "PreEnter" && name != "BuildImpl"
}

func levels(i uint64) func(string) bool {
	if i%3 == 0 {
		return anyStable
	}
	return stable
}

func (c *C) snapshots(i uint64, hostile int) *fault {
	e := newEngine(c.rng(i, ""), hostile)
	e.allow = levels(i)
	e.twice = 35
	e.spread = 30
	type snap struct {
		o    obj
		says string
		at   int
	}
	var all []snap
	seen := 0
	calls := 0
	look := func() *fault {
		for ; seen < len(e.pool); seen++ {
			o := e.pool[seen]
			var s string
			if ft := guard("using "+o.name, func() { s = say(o) }); ft != nil {
				c.hit("skipped") // a matter of another check
				continue
			}
			if s != "" {
				all = append(all, snap{o, s, calls})
				c.sample(s)
			}
		}
		return nil
	}
	verify := func(x snap) *fault {
		var s string
		if ft := guard("using "+x.o.name, func() { s = say(x.o) }); ft != nil {
			return ft
		}
		c.hit("values compared")
		if s != x.says {
			return &fault{kind: "changed", msg: "what " + x.o.name + " says has changed without a call that makes a new value", query: x.says, detail: "  now:      " + s + "\n  " + e.program()}
		}
		return nil
	}
	for k := e.r.in(30, 70); k > 0; k-- {
		if ft := guard("a call", e.step); ft != nil {
			c.hit("skipped")
			return nil
		}
		calls++
		if e.kept != nil {
			e.kept.detail += "\n  " + e.program()
			return e.kept
		}
		look()
		if len(all) > 0 && e.r.p(25) {
			if ft := verify(all[e.r.n(len(all))]); ft != nil {
				return ft
			}
		}
	}
	for _, x := range all {
		if ft := verify(x); ft != nil {
			return ft
		}
		how := e.made(x.o.name)
		c.distinct(how+"|"+x.says, calls-x.at >= 10)
	}
	c.stats["slices given and used again"] += e.shared
	for k, v := range e.seen {
		c.stats["calls"] += v
		c.hit("called." + k)
	}
	return nil
}

// made is the function or method a value came from.
func (e *engine) made(name string) string {
	for _, l := range e.trace {
		if strings.HasPrefix(l, name+" := ") {
			l = l[len(name)+4:]
			if k := strings.IndexByte(l, '('); k > 0 {
				l = l[:k]
			}
			if k := strings.IndexByte(l, '.'); k > 0 {
				l = l[k+1:]
			}
			return l
		}
	}
	return "?"
}

// ---- C14: goroutines

func checkC14() *check {
	return &check{
		id: "C14", quick: 3000, thorough: 60000, race: true,
		rule: "a pool of nodes, patterns, expressions, conditions, builder steps, statements and one renderer is made; 4 to 8 goroutines then use it at the same time: they render the shared statements with the shared and with other renderers, build the shared builders, go on from shared steps, call methods of shared values chosen by reflection, and make statements of their own. Everything each of them obtains is compared with what the same calls gave alone; the race detector watches all memory accesses. Non-trivial: all; distinct by the shape of the shared statements and by the calls",
		one:  func(c *C, i uint64) *fault { return c.together(i) },
	}
}

func (c *C) together(i uint64) *fault {
	r := c.rng(i, "")
	p := mixed(r)
	p.fork = 30
	g := newG(r, &p)
	if ft := c.generate(g, r.clauses(1, 4), true); ft != nil {
		return ft
	}
	c.merge(g)
	// in half of the cases nothing of this has been rendered before the goroutines do it
	cold := r.p(50)
	var sts []cypher.Statement
	if cold {
		for _, o := range g.out {
			st, err := o.B.Build()
			if err != nil {
				st = nil
			}
			sts = append(sts, st)
			c.distinct(shape(o.N), true)
		}
		c.hit("cold")
	} else {
		base, all, ft := texts(g)
		if ft != nil {
			return ft
		}
		sts = all
		for k := range sts {
			c.distinct(shape(g.out[k].N), true)
			c.sample(base[k])
		}
	}
	// values obtained by reflection, shared as well
	e := newEngine(c.rng(i, "pool"), 0)
	e.twice = 20
	e.allow = levels(i)
	for k := 0; k < 25; k++ {
		if ft := guard("a call", e.step); ft != nil {
			return nil
		}
	}
	says := make([]string, len(e.pool))
	sayAll := func() {
		for k, o := range e.pool {
			says[k] = say(o)
		}
	}
	if !cold {
		sayAll()
	}
	workers := 4 + r.n(5)
	rd := cypher.NewRenderer()
	// what one goroutine does; all that it obtains is written down
	job := func(w int) (out []string) {
		jr := newRng(c.seed, i, fmt.Sprint("job", w))
		note := func(what string, s string) { out = append(out, what+": "+s) }
		for n := 0; n < 12; n++ {
			switch jr.n(6) {
			case 0:
				k := jr.n(len(sts))
				if sts[k] == nil {
					continue
				}
				t, err := rd.Render(sts[k])
				note("common renderer", t+errText(err))
			case 1:
				k := jr.n(len(sts))
				if sts[k] == nil {
					continue
				}
				t, err := cypher.NewRenderer().Render(sts[k])
				note("own renderer", t+errText(err))
			case 2:
				k := jr.n(len(sts))
				note("built", sayB(g.out[k].B))
			case 3:
				if len(e.pool) > 0 {
					k := jr.n(len(e.pool))
					note("value "+e.pool[k].name, say(e.pool[k]))
				}
			case 4:
				_, t, _, ft := c11texts(c.seed, uint64(jr.n(1000)))
				if ft != nil {
					note("fresh", ft.msg)
				}
				note("fresh", strings.Join(t, "\n"))
			case 5:
				// go on with calls of shared values
				e2 := &engine{r: jr, seen: map[string]int{}, maxW: 200, allow: stable, pool: append([]obj(nil), e.pool...), trace: append([]string(nil), e.trace...)}
				had := len(e2.pool)
				for k := 0; k < 6; k++ {
					if ft := guard("a call", e2.step); ft != nil {
						note("call", ft.msg)
					}
				}
				for _, o := range e2.pool[had:] {
					note(o.name, say(o))
				}
			}
		}
		return out
	}
	alone := make([][]string, workers)
	aloneAll := func() {
		for w := range alone {
			alone[w] = job(w)
		}
	}
	if !cold {
		aloneAll()
	}
	got := make([][]string, workers)
	faults := make([]*fault, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			faults[w] = guard("a goroutine", func() { got[w] = job(w) })
		}(w)
	}
	close(start)
	wg.Wait()
	if cold {
		sayAll()
		aloneAll()
	}
	for w := range got {
		if faults[w] != nil {
			return faults[w]
		}
		c.add("results compared", len(got[w]))
		for k := range got[w] {
			if k >= len(alone[w]) || got[w][k] != alone[w][k] {
				return &fault{kind: "concurrent", msg: fmt.Sprintf("goroutine %d of %d obtains another result than alone", w, workers), query: alone[w][k], detail: "  together: " + got[w][k]}
			}
		}
		if len(got[w]) != len(alone[w]) {
			return &fault{kind: "concurrent", msg: "another number of results"}
		}
	}
	for k, o := range e.pool {
		if s := say(o); s != says[k] {
			return &fault{kind: "changed", msg: "what " + o.name + " says has changed", query: says[k], detail: "  now:      " + s}
		}
	}
	c.add("goroutines", workers)
	return nil
}

var _ = reflect.TypeOf
