package main

import (
	"crypto/sha256"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// Conditions are compared by what they mean: under Cypher's three-valued logic, on all assignments of true, false
// and null to their atoms (or, with many atoms, on a few thousand of them).

type tv int8 // 0 false, 1 null, 2 true

func isLogic(n *N) bool {
	switch n.K {
	case "and", "or", "xor", "not", "true", "false":
		return true
	case "cmp":
		// condition = true
		return (n.V == "=" || n.V == "<>") && isLogic(n.C[0]) && isLogic(n.C[1])
	case "isnull", "isnotnull":
		return isLogic(n.C[0])
	}
	return false
}

func (cn *canonizer) atomsOf(n *N, into map[string]int) {
	if !isLogic(n) {
		k := cn.canon(n)
		if _, ok := into[k]; !ok {
			into[k] = len(into)
		}
		return
	}
	for _, c := range n.C {
		cn.atomsOf(c, into)
	}
}

// canonizer remembers the texts of the trees.
type canonizer struct{ memo map[*N]string }

type formula struct {
	op   string
	atom int
	c    []*formula
}

func (cn *canonizer) compile(n *N, atoms map[string]int) *formula {
	if !isLogic(n) {
		return &formula{op: "atom", atom: atoms[cn.canon(n)]}
	}
	f := &formula{op: n.K}
	if n.K == "cmp" {
		f.op = n.V
	}
	for _, c := range n.C {
		f.c = append(f.c, cn.compile(c, atoms))
	}
	return f
}

func (f *formula) eval(a []tv) tv {
	switch f.op {
	case "atom":
		return a[f.atom]
	case "true":
		return 2
	case "false":
		return 0
	case "not":
		return 2 - f.c[0].eval(a)
	case "and":
		m := tv(2)
		for _, c := range f.c {
			if v := c.eval(a); v < m {
				m = v
			}
		}
		return m
	case "or":
		m := tv(0)
		for _, c := range f.c {
			if v := c.eval(a); v > m {
				m = v
			}
		}
		return m
	case "xor":
		r := f.c[0].eval(a)
		for _, c := range f.c[1:] {
			v := c.eval(a)
			if v == 1 || r == 1 {
				r = 1
				continue
			}
			if v == r {
				r = 0
			} else {
				r = 2
			}
		}
		return r
	case "=", "<>":
		l, r := f.c[0].eval(a), f.c[1].eval(a)
		if l == 1 || r == 1 {
			return 1
		}
		if (l == r) == (f.op == "=") {
			return 2
		}
		return 0
	case "isnull", "isnotnull":
		if (f.c[0].eval(a) == 1) == (f.op == "isnull") {
			return 2
		}
		return 0
	}
	panic("unknown connective " + f.op)
}

// assignments runs f on the assignments of k atoms, at most a few thousand.
func assignments(k int, f func(a []tv) bool) int {
	a := make([]tv, k)
	if k <= 7 {
		total := 1
		for i := 0; i < k; i++ {
			total *= 3
		}
		for x := 0; x < total; x++ {
			v := x
			for i := range a {
				a[i] = tv(v % 3)
				v /= 3
			}
			if !f(a) {
				return x + 1
			}
		}
		return total
	}
	r := newRng(7, uint64(k), "assignments")
	for x := 0; x < 2500; x++ {
		bias := r.n(3)
		for i := range a {
			a[i] = tv(r.n(3))
			if bias == 1 && a[i] == 1 {
				a[i] = tv(2 * r.n(2))
			}
		}
		if !f(a) {
			return x + 1
		}
	}
	return 2500
}

// canon is a text of the tree in which logical formulas are replaced by their meaning.
func (cn *canonizer) canon(n *N) string {
	if s, ok := cn.memo[n]; ok {
		return s
	}
	s := cn.text(n)
	if len(s) > 64 {
		h := sha256.Sum256([]byte(s))
		s = fmt.Sprintf("%s#%x", n.K, h[:12])
	}
	cn.memo[n] = s
	return s
}

func (cn *canonizer) text(n *N) string {
	if isLogic(n) && len(n.C) > 0 {
		atoms := map[string]int{}
		cn.atomsOf(n, atoms)
		names := make([]string, 0, len(atoms))
		for k := range atoms {
			names = append(names, k)
		}
		sort.Strings(names)
		for i, k := range names {
			atoms[k] = i
		}
		f := cn.compile(n, atoms)
		h := fnv.New64a()
		assignments(len(names), func(a []tv) bool {
			h.Write([]byte{byte(f.eval(a))})
			return true
		})
		return fmt.Sprintf("logic<%x>(%s)", h.Sum64(), strings.Join(names, " "))
	}
	var b strings.Builder
	b.WriteString(n.K)
	if n.V != "" {
		fmt.Fprintf(&b, "%q", n.V)
	}
	if len(n.C) > 0 {
		b.WriteByte('(')
		for i, c := range n.C {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(cn.canon(c))
		}
		b.WriteByte(')')
	}
	return b.String()
}

// same tells whether both trees say the same; n counts the assignments tried.
func same(w, g *N, n *int) bool {
	return (&canonizer{map[*N]string{}}).same(w, g, n)
}

func (cn *canonizer) same(w, g *N, n *int) bool {
	if isLogic(w) || isLogic(g) {
		atoms := map[string]int{}
		cn.atomsOf(w, atoms)
		cn.atomsOf(g, atoms)
		f, h := cn.compile(w, atoms), cn.compile(g, atoms)
		ok := true
		*n += assignments(len(atoms), func(a []tv) bool {
			ok = f.eval(a) == h.eval(a)
			return ok
		})
		return ok
	}
	if w.K != g.K || w.V != g.V || len(w.C) != len(g.C) {
		return false
	}
	for i := range w.C {
		if !cn.same(w.C[i], g.C[i], n) {
			return false
		}
	}
	return true
}

const quirkID = "and-after-or-compound"

// condMeaning compares the conditions of the text with those that were built.
func (c *C) condMeaning(text string, n *N) *fault {
	tree, err := parseStatement(text)
	if err != nil {
		return &fault{kind: "parse", msg: err.Error(), query: text}
	}
	want, res := resolve(n)
	tried := 0
	ok := same(want, tree, &tried)
	c.add("assignments", tried)
	if ok {
		return nil
	}
	if res.quirks > 0 {
		q := &resolver{seenNode: map[int]bool{}, aliases: map[*N]string{}, introduced: map[introduction]bool{}, quirk: true}
		qn := q.walk(n)
		if same(qn, tree, &tried) {
			c.hit("known." + quirkID)
			if o, seen := c.known[quirkID]; !seen || len(text) < len(o) {
				c.known[quirkID] = text
			}
			return nil
		}
		return &fault{kind: "logic", msg: "the condition is not equivalent to what was built (a known finding set aside)", query: text, detail: diff(qn.String(), tree.String())}
	}
	return &fault{kind: "logic", msg: "the condition is not equivalent to what was built", query: text, detail: diff(want.String(), tree.String())}
}

func (c *C) condCase(g *G) *fault {
	c.merge(g)
	for _, r := range g.out {
		st, err := r.B.Build()
		if err != nil {
			return &fault{kind: "build", msg: err.Error()}
		}
		text, err, ft := render(st)
		if ft != nil {
			return ft
		}
		if err != nil {
			return &fault{kind: "render", msg: err.Error()}
		}
		if ft := c.condMeaning(text, r.N); ft != nil {
			return ft
		}
		want, _ := resolve(r.N)
		c.hit("statements")
		c.distinct(shape(want), count(want, "and", "or", "xor", "not") > 1)
		c.sample(text)
	}
	return nil
}

func checkC06() *check {
	logic := map[string]int{"cmp": 6, "null": 2, "const": 2, "not": 4, "and": 8, "or": 8, "xor": 4, "label": 1, "pattern": 1, "chainpattern": 2, "bool": 1, "quant": 1, "notpattern": 1, "existsq": 1}
	return &check{
		id: "C06", quick: 240000, thorough: 3000000,
		rule:     "conditions composed with And, Or, Xor, Not, their pattern variants and the empty condition, up to depth 5, as objects and step by step at WHERE of MATCH, WITH, comprehensions, quantifiers and EXISTS; each is compared with the rendered text under three-valued logic on all assignments (up to seven atoms) or 2500 random ones; non-trivial: at least two connectives; distinct by the tree of connectives",
		findings: []string{quirkID},
		one: func(c *C, i uint64) *fault {
			r := c.rng(i, "")
			p := profile{depth: 1 + int(i%5), pendAnd: i%3 == 0, only: true, expr: map[string]int{"name": 4, "lit": 1, "prop": 1}, cond: logic,
				clause: map[string]int{"match": 1, "with": 1, "return": 2, "where": 20, "cond": 14, "pat.node": 1, "start.match": 4, "start.with": 2}}
			if i%4 == 1 {
				p.expr = map[string]int{"name": 3, "patcomp": 2, "listcomp": 2, "cond": 2}
				p.depth = 2
			}
			g := newG(r, &p)
			if ft := c.generate(g, r.clauses(2, 6), false); ft != nil {
				return ft
			}
			return c.condCase(g)
		},
		directed: func(c *C) *fault {
			if ft := c.deepTrees(); ft != nil {
				return ft
			}
			// the known finding, as small as it gets
			a, b, d, e, f := "a", "b", "d", "e", "f"
			one := cypher.LiteralOf(1)
			eq := func(x string) Cd {
				return Cd{X: cypher.ASymbolic(x).IsEqualTo(one).Get(), N: mk("cmp", "=", mk("name", x), intN(1))}
			}
			join := func(op string, l, r Cd) Cd {
				o := combine(op, l, r)
				if op == "and" {
					o.X = l.X.And(r.X).Get()
				} else {
					o.X = l.X.Or(r.X).Get()
				}
				return o
			}
			k := join("and", join("or", join("and", eq(a), eq(b)), join("and", eq(d), eq(e))), eq(f))
			st, err := cypher.Match(cypher.AnyNodeNamed("n")).Where(k.X).Returning(cypher.ASymbolic(a)).Build()
			if err != nil {
				return &fault{kind: "build", msg: err.Error()}
			}
			text, err, ft := render(st)
			if ft != nil {
				return ft
			}
			if err != nil {
				return &fault{kind: "render", msg: err.Error()}
			}
			return c.condMeaning(text, mk("query", "", mk("match", "", mk("path", "", mk("node", "n")), mk("where", "", k.N)),
				mk("return", "", mk("items", "", mk("name", "a")), none, none, none)))
		},
	}
}
