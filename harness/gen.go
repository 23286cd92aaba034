package main

import (
	"errors"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// The generator drives the real DSL and, next to every call, writes down what the rendered text has to say (N).

// E is an expression of the DSL with what it has to be rendered as.
type E struct {
	X cypher.Expression
	N *N
}

// Cd is a condition. compound, andc and pend follow how it was chained (see combine).
type Cd struct {
	X        cypher.Condition
	N        *N
	compound bool
	andc     bool
	pend     bool
	disj     []*N
}

// El is a node, relationship, chain or path. Name is shared by all uses of the element: it can be aliased.
type El struct {
	Kind  string // node, rel, chain, path
	Node  cypher.Node
	Rel   cypher.Relationship
	Chain cypher.RelationshipChain
	Path  cypher.NamedPath
	N     *N
	Name  *N
	props int
}

func (e *El) pattern() cypher.PatternElement {
	switch e.Kind {
	case "node":
		return e.Node
	case "rel":
		return e.Rel
	case "chain":
		return e.Chain
	}
	return e.Path
}

func (e *El) relPattern() cypher.RelationshipPattern {
	if e.Kind == "rel" {
		return e.Rel
	}
	return e.Chain
}

func (e *El) named() cypher.Named {
	switch e.Kind {
	case "node":
		return e.Node
	case "rel":
		return e.Rel
	}
	return e.Path
}

// pathN is the pattern as a path, as it stands in MATCH, CREATE and the like.
func (e *El) pathN() *N {
	if e.Kind == "node" {
		return mk("path", "", e.N)
	}
	return e.N
}

type profile struct {
	name        string
	hostile     int            // names over all of Unicode, per hundred
	nasty       int            // unusual names, per hundred
	depth       int            // depth of expressions
	steps       int            // clauses of a statement
	fork        int            // branches, per hundred steps
	expr        map[string]int // weights, nil for all alike
	cond        map[string]int
	clause      map[string]int
	simple      bool // single line expressions only
	alias       int  // reuse of aliased expressions, per hundred
	sub         int  // nesting of statements
	only        bool // clauses without a weight are not used
	noNodeAlias bool
	clash       int    // names of other nodes, per hundred named nodes
	reuse       int    // use of nodes that are there already, per hundred
	aliasItems  int    // aliased items, per hundred
	pendAnd     bool   // AND on what was chained with OR onto an AND
	tick        func() // run at every name
}

func (p *profile) or(k, def int) int {
	if k > 0 {
		return k
	}
	return def
}

type Result struct {
	B        cypher.BuildableStatement
	N        *N
	Path     string
	HasEarly bool // built right away, in addition to later on
	Early    cypher.Statement
	EarlyErr error
}

type G struct {
	r          *rng
	p          *profile
	uid        int
	used       []string // names so far
	keys       map[string]bool
	pending    *E  // the operand the next request for one gets
	pool       []E // expressions made before, to be used again
	condPool   []Cd
	towers     int // expressions that were made deeper than the walk asked for
	ids        int
	nodes      []*El
	rels       []*El
	paths      []*El
	names      []*nameE
	out        []Result
	stats      map[string]int
	slot       int
	poisonAt   int
	poison     string
	early      error
	trace      []string
	nest       int
	reuse      []reusable // aliased expressions that stand earlier in the text
	noAlias    int
	forks      int
	weak       []Result
	mustReturn bool // the statement has to end in RETURN
	theme      string
	props      []string // the last keys of properties
}

type reusable struct {
	aliased  E // the aliased expression
	delegate E
	cond     bool
}

type nameE struct {
	X cypher.SymbolicName
	N *N
}

func newG(r *rng, p *profile) *G {
	return &G{r: r, p: p, stats: map[string]int{}, poisonAt: -1}
}

func (g *G) hit(k string) { g.stats[k]++ }

// abort ends the generation of a case whose erroneous part was already reported by an inner Build.
type abort struct{ err error }

func (g *G) weighted(w map[string]int, all []string) string {
	if w == nil {
		return all[g.r.n(len(all))]
	}
	t := 0
	for _, k := range all {
		t += w[k]
	}
	if t == 0 {
		return ""
	}
	x := g.r.n(t)
	for _, k := range all {
		x -= w[k]
		if x < 0 {
			return k
		}
	}
	return ""
}

// ---- poison: erroneous objects in place of the k-th operand

// poisoning tells whether what is made now may contain the erroneous part.
func (g *G) poisoning() bool { return g.poison != "" }

func (g *G) poisoned(kind string) bool {
	g.slot++
	if g.slot-1 == g.poisonAt {
		g.poison = kind
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println(trimHarness(string(debug.Stack())))
		}
		return true
	}
	return false
}

var errPlanted = errors.New("planted error")

type badE struct {
	name string
	x    cypher.Expression
}

func badExpressions() []badE {
	un := cypher.AnyNode()
	return []badE{
		{"PropertyError", cypher.PropertyError(errPlanted)},
		{"FunctionInvocationError", cypher.FunctionInvocationError(errPlanted)},
		{"OperationError", cypher.OperationError(errPlanted)},
		{"ComparisonError", cypher.ComparisonError(errPlanted)},
		{"ListExpressionError", cypher.ListExpressionError(errPlanted)},
		{"MapExpressionError", cypher.MapExpressionError(errPlanted)},
		{"MapProjectionError", cypher.MapProjectionError(errPlanted)},
		{"ListLiteralError", cypher.ListLiteralError(errPlanted)},
		{"NumberLiteralError", cypher.NumberLiteralError(errPlanted)},
		{"StringLiteralError", cypher.StringLiteralError(errPlanted)},
		{"SymbolicNameError", cypher.SymbolicNameError(errPlanted)},
		{"ParameterError", cypher.ParameterError(errPlanted)},
		{"AliasedExpressionError", cypher.AliasedExpressionError(errPlanted)},
		{"ListOperatorError", cypher.ListOperatorError(errPlanted)},
		{"ListComprehensionError", cypher.ListComprehensionError(errPlanted)},
		{"PatternComprehensionError", cypher.PatternComprehensionError(errPlanted)},
		{"NestedExpressionError", cypher.NestedExpressionError(errPlanted)},
		{"DistinctExpressionError", cypher.DistinctExpressionError(errPlanted)},
		{"ExpressionListError", cypher.ExpressionListError(errPlanted)},
		{"property of an unnamed node", un.Property("x")},
		{"property without a name", cypher.AProperty("n", "")},
		{"property of nothing", cypher.APropertyByExpression(nil, "x")},
		{"parameter without a name", cypher.AParam("")},
		{"map with a key only", cypher.MapOf("a")},
		{"map with a number as key", cypher.MapOf(1, cypher.LiteralOf(1))},
		{"map with a key twice", cypher.MapOf("a", 1, "a", 2)},
		{"literal of an unsupported type", cypher.LiteralOf(struct{}{})},
		{"list with nil", cypher.ListOf(cypher.LiteralOf(1), nil)},
		{"addition with nil", cypher.LiteralOf(1).Add(nil).Get()},
		{"comparison with nil", cypher.LiteralOf(1).IsEqualTo(nil).Get()},
		{"sum of nil", cypher.Sum(nil)},
		{"size of nil", cypher.Size(nil)},
		{"percentile out of range", cypher.PercentileCont(cypher.LiteralOf(1), 1.5)},
		{"range without start", cypher.Range(nil, cypher.LiteralOf(1))},
		{"case of nil", cypher.CaseExpression(nil)},
		{"when of nil", cypher.GenericCaseExpression().When(nil).Then(cypher.LiteralOf(1))},
		{"then of nil", cypher.GenericCaseExpression().When(cypher.LiteralTrue()).Then(nil)},
		{"element of nil", cypher.CypherValueAt(nil, 0)},
		{"projection with an unknown type", cypher.AnyNodeNamed("n").Project(cypher.LiteralOf(1))},
		{"projection with a key twice", cypher.AnyNodeNamed("n").Project("a", cypher.LiteralOf(1), "a", cypher.LiteralOf(1))},
		{"projection of an unnamed node", un.Project("a")},
		{"date of an empty text", cypher.DateWithTemporal("")},
		{"nodes of a path without a name", cypher.Nodes(cypher.APath("").DefinedBy(cypher.AnyNode().RelationshipTo(cypher.AnyNode())))},
		{"start node of an unnamed relationship", cypher.StartNode(un.RelationshipTo(un))},
		{"comprehension over nil", cypher.CypherListWith(cypher.ASymbolic("x")).In(nil).ReturningDefault()},
		{"distance with nil", cypher.Distance(cypher.LiteralOf(1), nil)},
		{"alias of an erroneous expression", cypher.LiteralOf(1).Add(nil).As("x").Get()},
	}
}

type badC struct {
	name string
	x    cypher.Condition
}

func badConditions() []badC {
	one := cypher.LiteralOf(1)
	ok := one.IsEqualTo(one).Get()
	return []badC{
		{"ComparisonError", cypher.ComparisonError(errPlanted)},
		{"CompoundConditionError", cypher.CompoundConditionError(errPlanted)},
		{"BooleanFunctionConditionError", cypher.BooleanFunctionConditionError(errPlanted)},
		{"HasLabelConditionError", cypher.HasLabelConditionError(errPlanted)},
		{"ExcludedPatternError", cypher.ExcludedPatternError(errPlanted)},
		{"ExistentialSubqueryError", cypher.ExistentialSubqueryError(errPlanted)},
		{"RelationshipPatternConditionError", cypher.RelationshipPatternConditionError(errPlanted)},
		{"ConstantConditionError", cypher.ConstantConditionError(errPlanted)},
		{"labels of an unnamed node", cypher.AnyNode().HasLabels("A")},
		{"no labels", cypher.AnyNodeNamed("n").HasLabels()},
		{"and with nil", ok.And(nil).Get()},
		{"or with nil", ok.Or(nil).Get()},
		{"xor with nil", ok.Xor(nil).Get()},
		{"not of an erroneous condition", cypher.ConditionsNot(cypher.ComparisonError(errPlanted))},
		{"not of nil", cypher.ConditionsNot(nil)},
		{"and with an erroneous condition", ok.And(cypher.ComparisonError(errPlanted)).Get()},
		{"erroneous condition and another", cypher.ComparisonCreate(nil, cypher.EQUALITY, one)},
		{"quantifier over nil", cypher.PredicateAll("x").In(nil).Where(ok)},
		{"quantifier without condition", cypher.PredicateAll("x").In(cypher.ListOf(one)).Where(nil)},
		{"exists of an erroneous property", cypher.PredicateExists(cypher.AnyNode().Property("x"))},
		{"in nil", one.In(nil).Get()},
		{"starts with nil", one.StartWiths(nil).Get()},
	}
}

type badP struct {
	name string
	x    cypher.PatternElement
}

func badPatterns() []badP {
	un := cypher.AnyNode()
	return []badP{
		{"NodeError", cypher.NodeError(errPlanted)},
		{"RelationshipError", cypher.RelationshipError(errPlanted)},
		{"RelationshipChainError", cypher.RelationshipChainError("planted error")},
		{"NamedPathError", cypher.NamedPathError(errPlanted)},
		{"node without a label", cypher.ANode("")},
		{"node with properties twice", cypher.ANode("A").WithRawProperties("a", 1, "a", 2)},
		{"node with a key only", cypher.ANode("A").WithRawProperties("a")},
		{"node named with an erroneous name", cypher.ANode("A").Named(cypher.SymbolicNameError(errPlanted))},
		{"relationship to an erroneous node", un.RelationshipTo(cypher.NodeError(errPlanted))},
		{"relationship from an erroneous node", cypher.NodeError(errPlanted).RelationshipFrom(un)},
		{"chain with an erroneous node", un.RelationshipTo(un).RelationshipTo(cypher.NodeError(errPlanted))},
		{"chain on an erroneous relationship", cypher.RelationshipError(errPlanted).RelationshipTo(un)},
		{"relationship with erroneous properties", un.RelationshipTo(un).WithProperties(cypher.MapOf("a"))},
		{"path without a name", cypher.APath("").DefinedBy(un.RelationshipTo(un))},
		{"shortest path without a name", cypher.AShortestPath("").DefinedBy(un.RelationshipTo(un))},
		{"path of an erroneous relationship", cypher.APath("p").DefinedBy(cypher.RelationshipError(errPlanted))},
		{"nil", nil},
	}
}

func (g *G) badExpr() E {
	b := badExpressions()
	k := b[g.r.n(len(b))]
	g.poison = "expression: " + k.name
	return E{k.x, mk("bad", k.name)}
}

func (g *G) badCond() Cd {
	b := badConditions()
	k := b[g.r.n(len(b))]
	g.poison = "condition: " + k.name
	return Cd{X: k.x, N: mk("bad", k.name)}
}

// ---- names

func (g *G) nameN(v string) *N { return mk("name", v) }

func (g *G) variable() *nameE {
	if len(g.names) > 0 && g.r.p(60) {
		return g.names[g.r.n(len(g.names))]
	}
	v := g.name()
	n := &nameE{cypher.ASymbolic(v), g.nameN(v)}
	g.names = append(g.names, n)
	return n
}

// ---- patterns

func (g *G) labels(lo, hi int) ([]string, []*N) {
	var l []string
	var n []*N
	for k := g.r.some(lo, hi); k > 0; k-- {
		v := g.name()
		l = append(l, v)
		n = append(n, mk("label", v))
	}
	return l, n
}

func (g *G) freshID() int {
	g.ids++
	return g.ids
}

func (g *G) newNode(named bool, d int) *El {
	e := &El{Kind: "node", N: mk("node", "")}
	labels, ln := g.labels(0, 3)
	if len(labels) == 0 {
		e.Node = cypher.AnyNode()
	} else {
		switch {
		case len(labels) == 1 && g.r.p(50):
			e.Node = cypher.ANode(labels[0])
		case g.r.p(30) && d > 0:
			m := g.mapExpr(d-1, 1)
			e.Node = cypher.NewNodeWithProperties(labels[0], m.X.(cypher.MapExpression), labels[1:]...)
			e.props = 1
			ln = append(append([]*N{}, ln...), m.N)
			g.hit("node.NewNodeWithProperties")
		default:
			e.Node = cypher.NewNodeWithLabels(labels[0], labels[1:]...)
		}
	}
	e.N.C = ln
	if g.r.p(35) && d > 0 && (e.props == 0 || g.r.p(30)) {
		if g.r.p(50) && named {
			g.nameNode(e)
		}
		g.propsNode(e, d)
		if g.r.p(8) {
			g.propsNode(e, d)
		}
	}
	if named && e.Name == nil {
		g.nameNode(e)
	}
	return e
}

func (g *G) nameNode(e *El) {
	v := g.name()
	if len(g.nodes) > 0 && g.r.p(g.p.clash) {
		// a different node with the same name
		v = g.nodes[g.r.n(len(g.nodes))].N.V
		g.hit("node.clash")
	}
	if len(e.N.C) == 0 && e.N.V == "" && g.r.p(30) {
		e.Node = cypher.AnyNodeNamed(v)
	} else if g.r.p(70) {
		e.Node = e.Node.NamedByString(v)
	} else {
		e.Node = e.Node.Named(cypher.ASymbolic(v))
	}
	c := *e.N
	c.V = v
	c.ID = g.freshID()
	e.N = &c
	e.Name = g.nameN(v)
}

func (g *G) propsNode(e *El, d int) {
	var mn *N
	if g.r.p(4) {
		// no properties: those the node had are gone
		if g.r.p(50) {
			e.Node = e.Node.WithProperties(cypher.MapExpression{})
		} else {
			e.Node = e.Node.WithRawProperties()
		}
		g.hit("properties.removed")
	} else if g.r.p(50) {
		m := g.mapExpr(d-1, 1)
		e.Node = e.Node.WithProperties(m.X.(cypher.MapExpression))
		mn = m.N
	} else {
		var raw []interface{}
		raw, mn = g.rawEntries(d - 1)
		e.Node = e.Node.WithRawProperties(raw...)
	}
	c := *e.N
	c.C = append([]*N{}, c.C[:len(c.C)-e.props]...)
	e.props = 0
	if mn != nil {
		c.C = append(c.C, mn)
		e.props = 1
	}
	c.ID = 0
	if c.V != "" {
		c.ID = g.freshID()
	}
	e.N = &c
}

// rawEntries gives keys and values of a map, the values raw or expressions.
func (g *G) rawEntries(d int) ([]interface{}, *N) {
	var raw []interface{}
	m := mk("map", "")
	for k := g.r.some(1, 3); k > 0; k-- {
		key := g.key()
		raw = append(raw, key)
		if g.r.p(50) {
			v, n := g.rawValue()
			raw = append(raw, v)
			m.C = append(m.C, mk("ent", key, n))
		} else {
			e := g.operand(d)
			raw = append(raw, e.X)
			m.C = append(m.C, mk("ent", key, e.N))
		}
	}
	return raw, m
}

func (g *G) rawValue() (interface{}, *N) {
	switch g.r.n(5) {
	case 0:
		v := g.str()
		return v, mk("str", v)
	case 1:
		v := g.integer()
		return v, intN(v)
	case 2:
		v := g.float()
		return v, floatN(v)
	case 3:
		v := g.r.p(50)
		return v, mk(fmt.Sprint(v), "")
	}
	return nil, mk("null", "")
}

func intN(v int) *N       { return mk("int", fmt.Sprint(v)) }
func floatN(v float64) *N { return mk("float", canonFloat(fmt.Sprintf("%v", v))) }

func (g *G) aNode(d int) *El {
	if len(g.nodes) > 0 && g.r.p(g.p.or(g.p.reuse, 50)) {
		g.hit("node.reused")
		return g.nodes[g.r.n(len(g.nodes))]
	}
	if g.r.p(35) {
		return g.newNode(false, d)
	}
	if len(g.nodes) > 0 && d > 0 && g.r.p(g.p.clash/3) {
		// a node made from another one: both are used from now on
		e := *g.nodes[g.r.n(len(g.nodes))]
		g.propsNode(&e, d)
		g.nodes = append(g.nodes, &e)
		g.hit("node.derived")
		return &e
	}
	e := g.newNode(true, d)
	g.nodes = append(g.nodes, e)
	return e
}

// namedNode is a node with a name: properties and functions refer to it.
func (g *G) namedNode() *El {
	if len(g.nodes) > 0 && g.r.p(75) {
		return g.nodes[g.r.n(len(g.nodes))]
	}
	e := g.newNode(true, 1)
	g.nodes = append(g.nodes, e)
	return e
}

func (g *G) namedRel(d int) *El {
	if len(g.rels) > 0 && g.r.p(75) {
		return g.rels[g.r.n(len(g.rels))]
	}
	return g.newRel(d, true)
}

func (g *G) namedPath(d int) *El {
	if len(g.paths) > 0 && g.r.p(75) {
		return g.paths[g.r.n(len(g.paths))]
	}
	return g.newPath(d)
}

func (g *G) types() ([]string, *N) {
	var t []string
	n := mk("types", "")
	for k := g.r.some(0, 3); k > 0; k-- {
		if g.r.p(8) {
			t = append(t, "") // ignored by the DSL
			continue
		}
		v := g.name()
		t = append(t, v)
		n.C = append(n.C, mk("type", v))
	}
	return t, n
}

func relN(dir string, types *N) *N { return mk("rel", "", mk("dir", dir), types, none, none) }

func withRel(r *N, f func(*N)) *N {
	c := *r
	c.C = append([]*N{}, r.C...)
	f(&c)
	return &c
}

func (g *G) newRel(d int, named bool) *El {
	l, r := g.aNode(d), g.aNode(d)
	e := &El{Kind: "rel"}
	t, tn := g.types()
	var rn *N
	switch g.r.n(3) {
	case 0:
		e.Rel = l.Node.RelationshipTo(r.Node, t...)
		rn = relN("->", tn)
	case 1:
		e.Rel = l.Node.RelationshipFrom(r.Node, t...)
		rn = relN("<-", tn)
	default:
		e.Rel = l.Node.RelationshipBetween(r.Node, t...)
		rn = relN("--", tn)
	}
	steps := g.r.n(4)
	for ; steps > 0; steps-- {
		switch g.r.n(6) {
		case 0:
			if named || g.r.p(50) {
				v := g.name()
				if g.r.p(50) {
					e.Rel = e.Rel.Named(v)
				} else {
					e.Rel = e.Rel.NamedByString(v)
				}
				rn = withRel(rn, func(n *N) { n.V = v })
				e.Name = g.nameN(v)
			}
		case 1:
			if d > 0 && g.r.p(60) {
				if g.r.p(8) {
					if g.r.p(50) {
						e.Rel = e.Rel.WithProperties(cypher.MapExpression{})
					} else {
						e.Rel = e.Rel.WithRawProperties()
					}
					rn = withRel(rn, func(n *N) { n.C[3] = none })
					g.hit("properties.removed")
				} else if g.r.p(50) {
					m := g.mapExpr(d-1, 1)
					e.Rel = e.Rel.WithProperties(m.X.(cypher.MapExpression))
					rn = withRel(rn, func(n *N) { n.C[3] = m.N })
				} else {
					raw, mn := g.rawEntries(d - 1)
					e.Rel = e.Rel.WithRawProperties(raw...)
					rn = withRel(rn, func(n *N) { n.C[3] = mn })
				}
			}
		default:
			e.Rel, rn = g.length(e.Rel, rn)
		}
	}
	if named && e.Name == nil {
		v := g.name()
		e.Rel = e.Rel.Named(v)
		rn = withRel(rn, func(n *N) { n.V = v })
		e.Name = g.nameN(v)
	}
	e.N = mk("path", "", l.N, rn, r.N)
	if e.Name != nil {
		g.rels = append(g.rels, e)
	}
	return e
}

// lengthN combines the bounds of a relationship: min and max set one of them, unbounded removes both.
func lengthN(n *N, op string, lo, hi int) *N {
	a, b := "", ""
	if n.C[2].K == "len" {
		p := strings.SplitN(n.C[2].V, "..", 2)
		a, b = p[0], p[1]
	}
	switch op {
	case "min":
		a = fmt.Sprint(lo)
	case "max":
		b = fmt.Sprint(hi)
	case "length":
		a, b = fmt.Sprint(lo), fmt.Sprint(hi)
	default:
		a, b = "", ""
	}
	return withRel(n, func(n *N) { n.C[2] = mk("len", a+".."+b) })
}

func (g *G) length(r cypher.Relationship, n *N) (cypher.Relationship, *N) {
	lo := g.r.n(5)
	if g.r.p(8) {
		lo = g.r.n(3000)
	}
	hi := lo + g.r.n(100)
	if g.r.p(4) {
		hi = lo + g.r.n(1<<40)
	}
	switch g.r.n(4) {
	case 0:
		return r.Min(lo), lengthN(n, "min", lo, hi)
	case 1:
		return r.Max(hi), lengthN(n, "max", lo, hi)
	case 2:
		return r.Length(lo, hi), lengthN(n, "length", lo, hi)
	}
	return r.Unbounded(), lengthN(n, "unbounded", 0, 0)
}

func (g *G) newChain(d int) *El {
	f := g.newRel(d, g.r.p(30))
	e := &El{Kind: "chain"}
	c := append([]*N{}, f.N.C...)
	first := true
	for k := g.r.some(1, 3); k > 0; k-- {
		nx := g.aNode(d)
		t, tn := g.types()
		var rn *N
		dir := g.r.n(3)
		rn = relN([]string{"->", "<-", "--"}[dir], tn)
		switch {
		case first && dir == 0:
			e.Chain = f.Rel.RelationshipTo(nx.Node, t...)
		case first && dir == 1:
			e.Chain = f.Rel.RelationshipFrom(nx.Node, t...)
		case first:
			e.Chain = f.Rel.RelationshipBetween(nx.Node, t...)
		case dir == 0:
			e.Chain = e.Chain.RelationshipTo(nx.Node, t...)
		case dir == 1:
			e.Chain = e.Chain.RelationshipFrom(nx.Node, t...)
		default:
			e.Chain = e.Chain.RelationshipBetween(nx.Node, t...)
		}
		first = false
		for s := g.r.some(0, 2); s > 0; s-- {
			switch g.r.n(6) {
			case 0:
				v := g.name()
				e.Chain = e.Chain.NamedC(v)
				rn = withRel(rn, func(n *N) { n.V = v })
			case 1:
				if d > 0 {
					if g.r.p(8) {
						if g.r.p(50) {
							e.Chain = e.Chain.Properties(cypher.MapExpression{})
						} else {
							e.Chain = e.Chain.PropertiesRaw()
						}
						rn = withRel(rn, func(n *N) { n.C[3] = none })
						g.hit("properties.removed")
					} else if g.r.p(50) {
						m := g.mapExpr(d-1, 1)
						e.Chain = e.Chain.Properties(m.X.(cypher.MapExpression))
						rn = withRel(rn, func(n *N) { n.C[3] = m.N })
					} else {
						raw, mn := g.rawEntries(d - 1)
						e.Chain = e.Chain.PropertiesRaw(raw...)
						rn = withRel(rn, func(n *N) { n.C[3] = mn })
					}
				}
			case 2:
				lo := g.r.n(5)
				if g.r.p(5) {
					lo = g.r.n(1 << 20)
				}
				e.Chain = e.Chain.Min(lo)
				rn = lengthN(rn, "min", lo, 0)
			case 3:
				hi := g.r.n(9)
				if g.r.p(5) {
					hi = g.r.n(1 << 20)
				}
				e.Chain = e.Chain.Max(hi)
				rn = lengthN(rn, "max", 0, hi)
			case 4:
				lo, hi := g.r.n(5), 5+g.r.n(5)
				if g.r.p(5) {
					lo = g.r.n(1 << 20)
					hi = lo + g.r.n(1<<20)
				}
				e.Chain = e.Chain.Length(lo, hi)
				rn = lengthN(rn, "length", lo, hi)
			default:
				e.Chain = e.Chain.Unbounded()
				rn = lengthN(rn, "unbounded", 0, 0)
			}
		}
		c = append(c, rn, nx.N)
	}
	e.N = mk("path", "", c...)
	return e
}

func (g *G) relOrChain(d int) *El {
	if g.poisoned("pattern") {
		var rs []badP
		for _, b := range badPatterns() {
			if _, ok := b.x.(cypher.RelationshipPattern); ok {
				rs = append(rs, b)
			}
		}
		k := rs[g.r.n(len(rs))]
		g.poison = "pattern: " + k.name
		switch x := k.x.(type) {
		case cypher.Relationship:
			return &El{Kind: "rel", Rel: x, N: mk("bad", k.name)}
		case cypher.RelationshipChain:
			return &El{Kind: "chain", Chain: x, N: mk("bad", k.name)}
		}
	}
	if g.r.p(65) {
		if len(g.rels) > 0 && g.r.p(20) {
			return g.rels[g.r.n(len(g.rels))]
		}
		return g.newRel(d, g.r.p(50))
	}
	return g.newChain(d)
}

func (g *G) newPath(d int) *El {
	v := g.name()
	e := &El{Kind: "path", Name: g.nameN(v)}
	if g.r.p(30) {
		r := g.newRel(d, g.r.p(30))
		if g.r.p(50) {
			e.Path = cypher.AShortestPath(v).DefinedBy(r.Rel)
		} else {
			e.Path = cypher.AShortestPathBySymbolic(cypher.ASymbolic(v)).DefinedBy(r.Rel)
		}
		e.N = mk("shortest", v, r.N.C...)
	} else {
		r := g.relOrChain(d)
		if g.r.p(50) {
			e.Path = cypher.APath(v).DefinedBy(r.relPattern())
		} else {
			e.Path = cypher.APathBySymbolic(cypher.ASymbolic(v)).DefinedBy(r.relPattern())
		}
		e.N = mk("path", v, r.N.C...)
	}
	g.paths = append(g.paths, e)
	return e
}

type patArg struct {
	x cypher.PatternElement
	n *N
}

// pat is a pattern as MATCH, CREATE and MERGE take it.
func (g *G) pat(d int) patArg {
	if g.poisoned("pattern") {
		b := badPatterns()
		k := b[g.r.n(len(b))]
		g.poison = "pattern: " + k.name
		return patArg{k.x, mk("bad", k.name)}
	}
	var e *El
	kinds := []string{"pat.node", "pat.rel", "pat.chain", "pat.path"}
	w := map[string]int{}
	for _, k := range kinds {
		w[k] = g.cw(k)
	}
	switch k := g.weighted(w, kinds); k {
	case "pat.rel":
		e = g.newRel(d, g.r.p(60))
	case "pat.chain":
		e = g.newChain(d)
	case "pat.path":
		e = g.newPath(d)
	default:
		e = g.aNode(d)
	}
	g.hit("pattern." + e.Kind)
	return patArg{e.pattern(), e.pathN()}
}

func (g *G) patCount(hi int) int {
	if hi == 1 {
		return 1 // one is all that is taken
	}
	return g.r.some(1, hi)
}

func (g *G) pats(d, hi int) ([]cypher.PatternElement, []*N) {
	var x []cypher.PatternElement
	var n []*N
	for k := g.patCount(hi); k > 0; k-- {
		p := g.pat(d)
		x = append(x, p.x)
		n = append(n, p.n)
	}
	return x, n
}

// ---- expressions

var exprKinds = []string{"lit", "param", "name", "prop", "fn", "op", "list", "map", "mapproj", "listcomp", "patcomp", "case", "listop", "cond", "reuse"}

func (g *G) operand(d int) E { return g.expr(d) }

func (g *G) expr(d int) E {
	if g.poisoned("expression") {
		return g.badExpr()
	}
	if g.pending != nil {
		e := *g.pending
		g.pending = nil
		return e
	}
	if len(g.reuse) > 0 && g.r.p(g.p.alias) {
		return g.reused()
	}
	if len(g.pool) > 0 && g.r.p(5) {
		if e := g.pool[g.r.n(len(g.pool))]; !hasAlias(e.N) {
			// the very same expression once more
			g.hit("expr.shared")
			return e
		}
	}
	e := g.exprAt(d)
	if e.X != nil && !g.poisoning() && g.r.p(25) && size(e.N) < 40 {
		if len(g.pool) < 20 {
			g.pool = append(g.pool, e)
		} else {
			g.pool[g.r.n(20)] = e
		}
	}
	return e
}

func (g *G) exprAt(d int) E {
	if d <= 0 {
		if g.p.depth < 2 || g.towers > 1 || !g.r.permille(4) {
			return g.leaf()
		}
		g.towers++
		if g.r.p(50) {
			return g.tower()
		}
		g.hit("expr.deeper")
		d = g.r.in(1, 3)
	}
	return g.compound(d)
}

// tower nests expressions in one another, far deeper than a walk does.
func (g *G) tower() E {
	e := g.leaf()
	for k := g.r.in(5, 40); k > 0; k-- {
		next := e
		g.pending = &next
		outer := g.compound(1)
		if g.pending == nil {
			e = outer
			g.hit("expr.tower")
		}
		g.pending = nil
	}
	return e
}

func (g *G) compound(d int) E {
	return g.exprOf(g.weighted(g.p.expr, exprKinds), d)
}

func (g *G) exprOf(k string, d int) E {
	g.hit("expr." + k)
	switch k {
	case "param":
		return g.param()
	case "name":
		v := g.variable()
		return E{v.X, v.N}
	case "prop":
		return g.prop(d)
	case "fn":
		return g.fn(d)
	case "op":
		return g.op(d)
	case "list":
		return g.list(d)
	case "map":
		return g.mapExpr(d, 0)
	case "mapproj":
		return g.mapProj(d)
	case "listcomp":
		return g.listComp(d)
	case "patcomp":
		return g.patComp(d)
	case "case":
		return g.caseE(d)
	case "listop":
		return g.listOp(d)
	case "cond":
		c := g.cond(d)
		return E{c.X, c.N}
	case "reuse":
		if len(g.reuse) > 0 {
			return g.reused()
		}
	}
	return g.literal(d)
}

func (g *G) leaf() E {
	k := g.weighted(g.p.expr, []string{"lit", "param", "name", "prop"})
	switch k {
	case "param":
		return g.param()
	case "name":
		v := g.variable()
		return E{v.X, v.N}
	case "prop":
		return g.prop(0)
	}
	return g.literal(0)
}

func (g *G) reused() E {
	k := g.reuse[g.r.n(len(g.reuse))]
	g.hit("alias.reused")
	if g.r.p(15) {
		// the same alias, given anew
		a := k.aliased.N.V
		return E{k.delegate.X.As(a).Get(), mk("alias", a, k.delegate.N)}
	}
	if g.r.p(50) || k.delegate.N.Twice {
		return k.aliased
	}
	return k.delegate
}

func (g *G) param() E {
	p := g.plainParam()
	if g.r.p(8) && !strings.Contains(p.N.V, ".") {
		// a dotted name refers to a part of the parameter
		k := strings.ReplaceAll(g.name(), ".", "_")
		return E{cypher.AParam(p.N.V + "." + k), mk("prop", k, p.N)}
	}
	return p
}

func (g *G) literal(d int) E {
	switch g.r.n(7) {
	case 0, 1:
		v := g.str()
		if g.r.p(50) {
			return E{cypher.LiteralOf(v), mk("str", v)}
		}
		return E{cypher.StringLiteralCreate(v), mk("str", v)}
	case 2:
		v := g.integer()
		switch g.r.n(3) {
		case 0:
			return E{cypher.LiteralOf(v), intN(v)}
		case 1:
			return E{cypher.NumberLiteralCreate(int64(v)), intN(v)}
		}
		return E{cypher.NumberLiteralCreate1(v), intN(v)}
	case 3:
		v := g.float()
		if g.r.p(50) {
			return E{cypher.LiteralOf(v), floatN(v)}
		}
		return E{cypher.NumberLiteralCreate2(v), floatN(v)}
	case 4:
		v := g.r.p(50)
		n := mk(fmt.Sprint(v), "")
		switch g.r.n(3) {
		case 0:
			return E{cypher.LiteralOf(v), n}
		case 1:
			return E{cypher.BooleanLiteralCreate(v), n}
		}
		if v {
			return E{cypher.LiteralTrue(), n}
		}
		return E{cypher.LiteralFalse(), n}
	case 5:
		return E{cypher.LiteralOf(nil), mk("null", "")}
	}
	if d <= 0 {
		v := g.r.n(100)
		return E{cypher.LiteralOf(v), intN(v)}
	}
	var ls []cypher.Literal
	n := mk("list", "")
	for k := g.r.some(0, 3); k > 0; k-- {
		e := g.literal(d - 1)
		ls = append(ls, e.X.(cypher.Literal))
		n.C = append(n.C, e.N)
	}
	if len(ls) == 0 {
		return E{cypher.ListLiteralCreate(nil), n}
	}
	if g.r.p(50) {
		return E{cypher.LiteralOf(ls), n}
	}
	return E{cypher.ListLiteralCreate(ls), n}
}

// container gives an expression that properties and elements can be taken of.
func (g *G) container(d int) E {
	if g.poisoned("expression") {
		return g.badExpr()
	}
	for {
		switch k := g.weighted(g.p.expr, []string{"param", "name", "prop", "fn", "op", "list", "map", "mapproj", "listcomp", "case", "listop", "reuse", "cond"}); k {
		case "param":
			return g.param()
		case "prop":
			return g.prop(d - 1)
		case "fn":
			if d > 0 {
				return g.fn(d - 1)
			}
		case "op":
			if d > 0 {
				return g.op(d - 1)
			}
		case "list":
			if d > 0 {
				return g.list(d - 1)
			}
		case "map":
			if d > 0 {
				return g.mapExpr(d-1, 0)
			}
		case "mapproj":
			if d > 0 {
				return g.mapProj(d - 1)
			}
		case "listcomp":
			if d > 0 {
				return g.listComp(d - 1)
			}
		case "case":
			if d > 0 {
				return g.caseE(d - 1)
			}
		case "listop":
			if d > 0 {
				return g.listOp(d - 1)
			}
		case "cond":
			if d > 0 {
				c := g.cond(d - 1)
				return E{c.X, c.N}
			}
		case "reuse":
			if len(g.reuse) > 0 {
				return g.reused()
			}
		default:
			v := g.variable()
			return E{v.X, v.N}
		}
	}
}

func (g *G) prop(d int) E {
	key := ""
	if len(g.props) > 0 && g.r.p(15) {
		key = g.props[g.r.n(len(g.props))]
		g.hit("prop.key repeated")
	} else {
		key = g.key()
		if g.props = append(g.props, key); len(g.props) > 4 {
			g.props = g.props[1:]
		}
	}
	switch {
	case d > 0 && g.r.p(25):
		c := g.container(d - 1)
		return E{cypher.APropertyByExpression(c.X, key), mk("prop", key, c.N)}
	case g.r.p(20):
		v := g.name()
		return E{cypher.AProperty(v, key), mk("prop", key, g.nameN(v))}
	case len(g.rels) > 0 && g.r.p(30):
		r := g.rels[g.r.n(len(g.rels))]
		return E{r.Rel.Property(key), mk("prop", key, r.Name)}
	}
	n := g.namedNode()
	return E{n.Node.Property(key), mk("prop", key, n.Name)}
}

var opNames = []string{"+", "-", "*", "/", "%", "^"}

func (g *G) op(d int) E {
	l := g.operand(d - 1)
	r := g.operand(d - 1)
	k := g.r.n(8)
	var x cypher.Expression
	if l.X == nil {
		// only the static functions can be called without a left operand
		fs := []func(a, b cypher.Expression) cypher.Operation{cypher.OperationAdd, cypher.OperationSubtract, cypher.OperationMultiply, cypher.OperationDivide, cypher.OperationRemainder, cypher.OperationPow}
		return E{fs[k%6](l.X, r.X), mk("bad", "")}
	}
	static := g.r.p(30)
	n := ""
	switch k {
	case 0:
		n = "+"
		if x = l.X.Add(r.X).Get(); static {
			x = cypher.OperationAdd(l.X, r.X)
		}
	case 1:
		n = "-"
		if x = l.X.Subtract(r.X).Get(); static {
			x = cypher.OperationSubtract(l.X, r.X)
		}
	case 2:
		n = "*"
		if x = l.X.Multiply(r.X).Get(); static {
			x = cypher.OperationMultiply(l.X, r.X)
		}
	case 3:
		n = "/"
		if x = l.X.Divide(r.X).Get(); static {
			x = cypher.OperationDivide(l.X, r.X)
		}
	case 4:
		n = "%"
		if x = l.X.Remainder(r.X).Get(); static {
			x = cypher.OperationRemainder(l.X, r.X)
		}
	case 5, 6:
		n = "^"
		if x = l.X.Pow(r.X).Get(); static {
			x = cypher.OperationPow(l.X, r.X)
		}
	default:
		n = "+"
		if x = l.X.Concat(r.X).Get(); static {
			x = cypher.OperationConcat(l.X, r.X)
		}
	}
	return E{x, mk("bin", n, l.N, r.N)}
}

func (g *G) exprList(d, lo, hi int) ([]cypher.Expression, []*N) {
	var x []cypher.Expression
	var n []*N
	for k := g.r.some(lo, hi); k > 0; k-- {
		e := g.operand(d)
		x = append(x, e.X)
		n = append(n, e.N)
	}
	return x, n
}

// isIn tells whether the text of the expression starts with "name IN", which opens a list comprehension in a list.
func isIn(n *N) bool { return n.K == "cmp" && n.V == "IN" }

func (g *G) list(d int) E {
	if g.r.p(20) {
		var raw []interface{}
		n := mk("list", "")
		for k := g.r.some(0, 3); k > 0; k-- {
			v, vn := g.rawValue()
			raw = append(raw, v)
			n.C = append(n.C, vn)
		}
		return E{cypher.ListOfRaw(raw...), n}
	}
	x, n := g.exprList(d-1, 0, 4)
	if len(n) > 0 && isIn(n[0]) {
		x, n = append([]cypher.Expression{cypher.LiteralOf(1)}, x...), append([]*N{intN(1)}, n...)
	}
	return E{cypher.ListOf(x...), mk("list", "", n...)}
}

func (g *G) mapExpr(d, lo int) E {
	if d < 0 {
		d = 0
	}
	m := mk("map", "")
	var args []interface{}
	for k := g.r.some(lo, 3); k > 0; k-- {
		key := g.key()
		args = append(args, key)
		if g.r.p(25) {
			v, n := g.rawValue()
			args = append(args, v)
			m.C = append(m.C, mk("ent", key, n))
			continue
		}
		e := g.operand(d - 1)
		args = append(args, e.X)
		m.C = append(m.C, mk("ent", key, e.N))
	}
	if g.r.p(50) {
		return E{cypher.MapOf(args...), m}
	}
	return E{cypher.NewMapExpression(args...), m}
}

// projEntries gives the entries of a map projection.
func (g *G) projEntries(d int) ([]interface{}, []*N) {
	var x []interface{}
	var n []*N
	last := false // a name that stands alone has to be followed by another name
	for k := g.r.some(1, 4); k > 0; k-- {
		kind := g.r.n(7)
		if last && kind > 1 {
			kind = g.r.n(2)
		}
		last = false
		key := g.key()
		switch kind {
		case 0, 1:
			x = append(x, key)
			n = append(n, mk("lookup", key))
			last = true
			if kind == 1 {
				continue
			}
			// a key with its value
			x[len(x)-1] = key
			e := g.operand(d - 1)
			x = append(x, e.X)
			n[len(n)-1] = mk("ent", key, e.N)
			last = false
		case 2:
			x = append(x, cypher.AnAsterisk())
			n = append(n, mk("all", ""))
		case 3:
			v := g.variable()
			x = append(x, v.X)
			n = append(n, v.N)
		case 4:
			p := g.prop(0)
			x = append(x, p.X)
			n = append(n, mk("lookup", p.N.V))
		case 5:
			e := g.operand(d - 1)
			if e.X == nil {
				x = append(x, nil)
				n = append(n, mk("bad", ""))
				break
			}
			if !fresh(e.N) {
				x = append(x, key, e.X)
				n = append(n, mk("ent", key, e.N))
				break
			}
			x = append(x, e.X.As(key).Get())
			n = append(n, mk("ent", key, e.N))
		default:
			nd := g.namedNode()
			x = append(x, nd.Node)
			n = append(n, nd.Name)
		}
	}
	return x, n
}

// fresh tells whether an expression was created just now and is no shared one, so that it can be aliased.
func fresh(n *N) bool {
	switch n.K {
	case "prop", "fn", "fndistinct", "bin", "list", "map", "mapproj", "listcomp", "patcomp", "case", "index", "slice", "str", "int", "float", "param", "bad":
		return n.Alias == ""
	case "cmp", "isnull", "isnotnull":
		return n.Alias == ""
	}
	return false
}

func (g *G) mapProj(d int) E {
	x, n := g.projEntries(d)
	var m cypher.MapProjection
	var name *N
	switch {
	case len(g.rels) > 0 && g.r.p(25):
		r := g.rels[g.r.n(len(g.rels))]
		m = r.Rel.Project(x...)
		name = r.Name
	case g.r.p(25):
		v := g.variable()
		m = cypher.MapProjectionCreate(v.X, x...)
		name = v.N
	default:
		nd := g.namedNode()
		m = nd.Node.Project(x...)
		name = nd.Name
	}
	if g.r.p(25) {
		x2, n2 := g.projEntries(d)
		m = m.And(x2...)
		n = append(append([]*N{}, n...), n2...)
	}
	return E{m, mk("mapproj", "", append([]*N{name}, n...)...)}
}

func (g *G) scoped(f func()) {
	g.noAlias++
	f()
	g.noAlias--
}

func (g *G) listComp(d int) E {
	v := g.name()
	var x cypher.ListComprehension
	l := g.operand(d - 1)
	sym := cypher.ASymbolic(v)
	b := cypher.CypherListWith(sym)
	if g.r.p(30) {
		b = cypher.ListComprehensionWith(sym)
	}
	in := b.In(l.X)
	var fin cypher.OngoingDefinitionWithoutReturn = in
	w, def := none, none
	if g.r.p(50) {
		c := g.cond(d - 1)
		fin = in.Where(c.X)
		w = mk("where", "", c.N)
	}
	switch g.r.n(4) {
	case 0:
		x = fin.ReturningDefault()
	case 1:
		nd := g.namedNode()
		x = fin.ReturningByNamed(nd.Node)
		def = nd.Name
	case 2:
		if g.r.p(30) {
			// the variable itself
			x = fin.Returning(sym)
			def = g.nameN(v)
			break
		}
		fallthrough
	default:
		e, n := g.definition(d)
		x = fin.Returning(e...)
		def = n
	}
	return E{x, mk("listcomp", v, l.N, w, def)}
}

func (g *G) patComp(d int) E {
	var b cypher.PatternComprehensionOngoingDefinitionWithPattern
	var pn *N
	if g.r.p(70) {
		r := g.relOrChain(d - 1)
		if g.r.p(50) {
			b = cypher.ListBasedOn(r.relPattern())
		} else {
			b = cypher.PatternComprehensionBasedOn(r.relPattern())
		}
		pn = r.N
	} else {
		var p *El
		for p == nil || p.N.K != "path" {
			p = g.newPath(d - 1)
		}
		if g.r.p(50) {
			b = cypher.ListBasedOnNamed(p.Path)
		} else {
			b = cypher.PatternComprehensionBasedOnNamePath(p.Path)
		}
		pn = p.N
	}
	var fin cypher.PatternComprehensionOngoingDefinitionWithoutReturn = b
	w := none
	if g.r.p(50) {
		var ws cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere
		var c Cd
		if g.r.p(25) {
			r := g.relOrChain(d - 1)
			ws = b.WherePattern(r.relPattern())
			c = Cd{N: mk("patexpr", "", r.N)}
		} else {
			c = g.cond(d - 1)
			ws = b.Where(c.X)
		}
		for k := g.r.some(0, 2); k > 0; k-- {
			switch g.r.n(4) {
			case 0:
				if !g.noAnd(c) {
					c2 := g.cond(d - 1)
					ws = ws.And(c2.X)
					c = combine("and", c, c2)
				}
			case 1:
				c2 := g.cond(d - 1)
				ws = ws.Or(c2.X)
				c = combine("or", c, c2)
			case 2:
				if !g.noAnd(c) {
					r := g.relOrChain(d - 1)
					ws = ws.AndPattern(r.relPattern())
					c = combine("and", c, Cd{N: mk("patexpr", "", r.N)})
				}
			default:
				r := g.relOrChain(d - 1)
				ws = ws.OrPattern(r.relPattern())
				c = combine("or", c, Cd{N: mk("patexpr", "", r.N)})
			}
		}
		fin = ws
		w = mk("where", "", c.N)
	}
	if g.r.p(25) {
		nd := g.namedNode()
		return E{fin.ReturningByNamed(nd.Node), mk("patcomp", "", pn, w, nd.Name)}
	}
	e, n := g.definition(d)
	return E{fin.Returning(e...), mk("patcomp", "", pn, w, n)}
}

// definition is what a comprehension returns: an expression or, if there are more, a list of them.
func (g *G) definition(d int) ([]cypher.Expression, *N) {
	e, n := g.exprList(d-1, 1, 3)
	if len(n) == 1 {
		return e, n[0]
	}
	if isIn(n[0]) {
		e, n = append([]cypher.Expression{cypher.LiteralOf(1)}, e...), append([]*N{intN(1)}, n...)
	}
	return e, mk("list", "", n...)
}

func (g *G) caseE(d int) E {
	var c cypher.Case
	n := mk("case", "", none)
	if g.r.p(50) {
		e := g.operand(d - 1)
		c = cypher.CaseExpression(e.X)
		n.C[0] = e.N
	} else {
		c = cypher.GenericCaseExpression()
	}
	w, t := g.operand(d-1), g.operand(d-1)
	var end cypher.CaseEnding = c.When(w.X).Then(t.X)
	n.C = append(n.C, mk("when", "", w.N, t.N))
	els := none
	if g.r.p(15) {
		e := g.operand(d - 1)
		end = end.ElseDefault(e.X)
		els = mk("else", "", e.N)
	}
	for k := g.r.some(0, 2); k > 0; k-- {
		w, t := g.operand(d-1), g.operand(d-1)
		end = end.When(w.X).Then(t.X)
		n.C = append(n.C, mk("when", "", w.N, t.N))
	}
	if g.r.p(50) {
		e := g.operand(d - 1)
		end = end.ElseDefault(e.X)
		els = mk("else", "", e.N)
	}
	if els != none {
		n.C = append(n.C, els)
	}
	return E{end, n}
}

func (g *G) listOp(d int) E {
	t := g.container(d - 1)
	ex := func() E { return g.operand(d - 1) }
	a, b := g.r.n(10), g.r.n(10)
	switch g.r.n(8) {
	case 0:
		return E{cypher.ASubList(t.X, a, b), mk("slice", "", t.N, intN(a), intN(b))}
	case 1:
		return E{cypher.CypherSubListFrom(t.X, a), mk("slice", "", t.N, intN(a), none)}
	case 2:
		return E{cypher.ASubListUntil(t.X, a), mk("slice", "", t.N, none, intN(a))}
	case 3:
		return E{cypher.CypherValueAt(t.X, a), mk("index", "", t.N, intN(a))}
	case 4:
		e := ex()
		return E{cypher.ASubListFromByExpression(t.X, e.X), mk("slice", "", t.N, e.N, none)}
	case 5:
		e := ex()
		return E{cypher.CypherSubListUntilByExpression(t.X, e.X), mk("slice", "", t.N, none, e.N)}
	case 6:
		e := ex()
		return E{cypher.CypherValueAtByExpression(t.X, e.X), mk("index", "", t.N, e.N)}
	}
	e, f := ex(), ex()
	return E{cypher.SubList(t.X, e.X, f.X), mk("slice", "", t.N, e.N, f.N)}
}

// ---- conditions

var condKinds = []string{"cmp", "str", "in", "null", "bool", "empty", "not", "and", "or", "xor", "pattern", "notpattern", "label", "quant", "exists", "existspattern", "existsq", "const", "case", "chainpattern"}

// combine joins conditions as And, Or and Xor do. It follows which conditions the DSL holds as one AND.
func combine(op string, l, r Cd) Cd {
	out := Cd{N: mk(op, "", l.N, r.N), compound: true, andc: op == "and"}
	switch {
	case op == "or" && l.andc && r.compound:
		d := l.disj
		if d == nil {
			d = []*N{l.N}
		}
		out.andc, out.pend, out.disj = true, true, append(d[:len(d):len(d)], r.N)
	case op == "and" && l.pend:
		// known finding and-after-or-compound: the DSL joins the condition with the last part only
		d := append([]*N{}, l.disj...)
		d[len(d)-1] = mk("and", "", d[len(d)-1], r.N)
		q := d[0]
		for _, x := range d[1:] {
			q = mk("or", "", q, x)
		}
		out.N = mk("quirk", "", out.N, q)
		out.pend, out.disj = true, d
	}
	return out
}

// fromEmpty starts with the empty condition.
func (g *G) fromEmpty(c Cd) Cd {
	g.hit("cond.from empty")
	e := cypher.ConditionsNoCondition()
	out := Cd{N: c.N, compound: true}
	switch g.r.n(3) {
	case 0:
		out.X = e.And(c.X).Get()
		out.andc = c.andc && !c.pend
	case 1:
		out.X = e.Or(c.X).Get()
	default:
		out.X = e.Xor(c.X).Get()
	}
	return out
}

// noAnd tells whether the condition must not be chained with AND, see the known findings.
func (g *G) noAnd(c Cd) bool { return c.pend && !g.p.pendAnd }

func (g *G) cond(d int) Cd {
	if g.poisoned("condition") {
		return g.badCond()
	}
	if len(g.condPool) > 0 && g.r.p(5) {
		if c := g.condPool[g.r.n(len(g.condPool))]; !hasAlias(c.N) {
			g.hit("cond.shared")
			return c
		}
	}
	c := g.condAt(d)
	if c.X != nil && !g.poisoning() && g.r.p(4) {
		c = g.fromEmpty(c)
	}
	if c.X != nil && !g.poisoning() && g.r.p(25) && size(c.N) < 40 {
		if len(g.condPool) < 20 {
			g.condPool = append(g.condPool, c)
		} else {
			g.condPool[g.r.n(20)] = c
		}
	}
	return c
}

func (g *G) condAt(d int) Cd {
	if d <= 0 {
		if g.p.depth < 2 || g.towers > 1 || !g.r.permille(4) {
			return g.atomCond(0)
		}
		g.towers++
		g.hit("cond.deeper")
		d = g.r.in(1, 4)
	}
	return g.condOf(g.weighted(g.p.cond, condKinds), d)
}

func (g *G) condOf(k string, d int) Cd {
	switch k {
	case "not":
		c := g.cond(d - 1)
		g.hit("cond.not")
		if g.r.p(50) {
			return Cd{X: cypher.ConditionsNot(c.X), N: mk("not", "", c.N)}
		}
		return Cd{X: c.X.Not().Get(), N: mk("not", "", c.N)}
	case "and", "or", "xor":
		l := g.cond(d - 1)
		if k == "and" && g.noAnd(l) {
			k = "or"
		}
		r := g.cond(d - 1)
		g.hit("cond." + k)
		var x cypher.Condition
		switch k {
		case "and":
			x = l.X.And(r.X).Get()
		case "or":
			x = l.X.Or(r.X).Get()
		default:
			x = l.X.Xor(r.X).Get()
		}
		out := combine(k, l, r)
		out.X = x
		if g.r.p(8) {
			return g.withEmpty(out)
		}
		return out
	case "chainpattern":
		if g.r.p(10) {
			r := g.relOrChain(d - 1)
			e := cypher.ConditionsNoCondition()
			g.hit("cond.pattern from empty")
			out := Cd{N: mk("patexpr", "", r.N), compound: true}
			switch g.r.n(3) {
			case 0:
				out.X = e.AndPattern(r.relPattern()).Get()
			case 1:
				out.X = e.OrPattern(r.relPattern()).Get()
			default:
				out.X = e.XorPattern(r.relPattern()).Get()
			}
			return out
		}
		l := g.cond(d - 1)
		r := g.relOrChain(d - 1)
		rc := Cd{N: mk("patexpr", "", r.N)}
		g.hit("cond.chainpattern")
		switch g.r.n(3) {
		case 0:
			if !g.noAnd(l) {
				x := l.X
				l.pend, l.disj = false, nil // this one groups what there is so far
				out := combine("and", l, rc)
				out.X = x.AndPattern(r.relPattern()).Get()
				return out
			}
			fallthrough
		case 1:
			out := combine("or", l, rc)
			out.X = l.X.OrPattern(r.relPattern()).Get()
			return out
		}
		out := combine("xor", l, rc)
		out.X = l.X.XorPattern(r.relPattern()).Get()
		return out
	default:
		return g.atomKind(k, d)
	}
}

// withEmpty chains the empty condition, which changes nothing.
func (g *G) withEmpty(c Cd) Cd {
	g.hit("cond.empty")
	if g.r.p(50) {
		return g.fromEmpty(c)
	}
	switch g.r.n(3) {
	case 0:
		c.X = c.X.And(cypher.ConditionsNoCondition()).Get()
	case 1:
		c.X = c.X.Or(cypher.ConditionsNoCondition()).Get()
	default:
		c.X = c.X.Xor(cypher.ConditionsNoCondition()).Get()
	}
	return c
}

func (g *G) atomCond(d int) Cd {
	return g.atomKind(g.weighted(g.p.cond, []string{"cmp", "str", "in", "null", "bool", "empty", "label", "const"}), d)
}

func (g *G) atomKind(k string, d int) Cd {
	g.hit("cond." + k)
	switch k {
	case "str":
		l, r := g.operand(d-1), g.operand(d-1)
		if l.X == nil {
			return Cd{X: cypher.ComparisonCreate(nil, cypher.CONTAINS, r.X), N: mk("bad", "")}
		}
		switch g.r.n(5) {
		case 0:
			return Cd{X: l.X.Matches(r.X).Get(), N: mk("cmp", "=~", l.N, r.N)}
		case 1:
			s := g.str()
			return Cd{X: l.X.MatchesPattern(s).Get(), N: mk("cmp", "=~", l.N, mk("str", s))}
		case 2:
			return Cd{X: l.X.StartWiths(r.X).Get(), N: mk("cmp", "STARTS WITH", l.N, r.N)}
		case 3:
			return Cd{X: l.X.EndsWith(r.X).Get(), N: mk("cmp", "ENDS WITH", l.N, r.N)}
		}
		return Cd{X: l.X.Contains(r.X).Get(), N: mk("cmp", "CONTAINS", l.N, r.N)}
	case "in":
		l, r := g.operand(d-1), g.operand(d-1)
		if l.X == nil {
			return Cd{X: cypher.ComparisonCreate(nil, cypher.IN, r.X), N: mk("bad", "")}
		}
		return Cd{X: l.X.In(r.X).Get(), N: mk("cmp", "IN", l.N, r.N)}
	case "null":
		l := g.operand(d - 1)
		if l.X == nil {
			return Cd{X: cypher.ComparisonCreate1(cypher.IS_NULL, nil), N: mk("bad", "")}
		}
		if g.r.p(50) {
			return Cd{X: l.X.IsNull().Get(), N: mk("isnull", "", l.N)}
		}
		return Cd{X: l.X.IsNotNull().Get(), N: mk("isnotnull", "", l.N)}
	case "bool":
		l := g.operand(d - 1)
		if l.X == nil {
			return Cd{X: cypher.ComparisonCreate1(cypher.NOT, nil), N: mk("bad", "")}
		}
		if g.r.p(50) {
			return Cd{X: l.X.IsTrue().Get(), N: mk("cmp", "=", l.N, mk("true", ""))}
		}
		return Cd{X: l.X.IsFalse().Get(), N: mk("cmp", "=", l.N, mk("false", ""))}
	case "empty":
		l := g.operand(d - 1)
		if l.X == nil {
			return Cd{X: cypher.ComparisonCreate1(cypher.NOT, nil), N: mk("bad", "")}
		}
		return Cd{X: l.X.IsEmpty().Get(), N: mk("cmp", "=", mk("fn", "size", l.N), intN(0))}
	case "pattern":
		r := g.relOrChain(d - 1)
		return Cd{X: cypher.RelationshipPatternConditionCreate(r.relPattern()), N: mk("patexpr", "", r.N)}
	case "notpattern":
		r := g.relOrChain(d - 1)
		return Cd{X: cypher.ConditionsNotByPattern(r.pattern()), N: mk("not", "", mk("patexpr", "", r.N))}
	case "label":
		n := g.namedNode()
		l, ln := g.labels(1, 3)
		return Cd{X: n.Node.HasLabels(l...), N: mk("haslabel", "", append([]*N{n.Name}, ln...)...)}
	case "quant":
		return g.quant(d)
	case "exists":
		p := g.prop(d - 1)
		return Cd{X: cypher.PredicateExists(p.X.(cypher.Property)), N: mk("fn", "exists", p.N)}
	case "existspattern":
		r := g.relOrChain(d - 1)
		return Cd{X: cypher.PredicateExistsByPattern(r.relPattern()), N: mk("fn", "exists", mk("patexpr", "", r.N))}
	case "existsq":
		return g.existsQ(d)
	case "const":
		if g.r.p(50) {
			return Cd{X: cypher.ConditionsIsTrue(), N: mk("true", "")}
		}
		return Cd{X: cypher.ConditionsIsFalse(), N: mk("false", "")}
	case "case":
		if d > 0 {
			e := g.caseE(d)
			return Cd{X: e.X.(cypher.Condition), N: e.N}
		}
	}
	l, r := g.operand(d-1), g.operand(d-1)
	if l.X == nil {
		return Cd{X: cypher.ComparisonCreate(nil, cypher.EQUALITY, r.X), N: mk("bad", "")}
	}
	switch g.r.n(6) {
	case 0:
		return Cd{X: l.X.IsNotEqualTo(r.X).Get(), N: mk("cmp", "<>", l.N, r.N)}
	case 1:
		return Cd{X: l.X.Lt(r.X).Get(), N: mk("cmp", "<", l.N, r.N)}
	case 2:
		return Cd{X: l.X.Lte(r.X).Get(), N: mk("cmp", "<=", l.N, r.N)}
	case 3:
		return Cd{X: l.X.Gt(r.X).Get(), N: mk("cmp", ">", l.N, r.N)}
	case 4:
		return Cd{X: l.X.Gte(r.X).Get(), N: mk("cmp", ">=", l.N, r.N)}
	}
	return Cd{X: l.X.IsEqualTo(r.X).Get(), N: mk("cmp", "=", l.N, r.N)}
}

func (g *G) quant(d int) Cd {
	v := g.name()
	var b cypher.OngoingListBasedPredicateFunction
	k := g.r.n(8)
	q := []string{"all", "any", "none", "single"}[k%4]
	switch k {
	case 0:
		b = cypher.PredicateAll(v)
	case 1:
		b = cypher.PredicateAny(v)
	case 2:
		b = cypher.PredicateNone(v)
	case 3:
		b = cypher.PredicateSingle(v)
	case 4:
		b = cypher.PredicateAllBySymbolicName(cypher.ASymbolic(v))
	case 5:
		b = cypher.PredicateAnyBySymbolicName(cypher.ASymbolic(v))
	case 6:
		b = cypher.PredicateNoneBySymbolicName(cypher.ASymbolic(v))
	default:
		b = cypher.PredicateSingleBySymbolicName(cypher.ASymbolic(v))
	}
	l := g.operand(d - 1)
	c := g.cond(d - 1)
	return Cd{X: b.In(l.X).Where(c.X), N: mk("quant", q, g.nameN(v), l.N, c.N)}
}

func (g *G) existsQ(d int) Cd {
	x, n := g.pats(d-1, 2)
	m := cypher.Match(x...)
	q := mk("match", "", n...)
	if g.r.p(50) {
		c := g.cond(d - 1)
		w := m.Where(c.X)
		if !g.noAnd(c) && g.r.p(40) {
			c2 := g.cond(d - 1)
			w = w.And(c2.X)
			c = combine("and", c, c2)
		}
		q = mk("match", "", append(append([]*N{}, n...), mk("where", "", c.N))...)
		return Cd{X: w.AsCondition(), N: mk("existsq", "", mk("query", "", q))}
	}
	return Cd{X: m.AsCondition(), N: mk("existsq", "", mk("query", "", q))}
}
