package main

import (
	"strconv"
	"strings"
)

// N is a node of the harness' own abstract syntax of Cypher. It is what the generator expects
// (built next to the calls of the DSL) and what the independent parser gets out of the rendered text.
type N struct {
	K     string
	V     string
	C     []*N
	ID    int    // identity of a node pattern (K=="node"), 0 for none
	Alias string // set once the expression has been given an alias
	Twice bool   // it has got two aliases: it may go by either when it is used itself
	Paren bool   // parser only: was in parentheses
}

func mk(k, v string, c ...*N) *N { return &N{K: k, V: v, C: c} }

var none = mk("none", "")

func orNone(n *N) *N {
	if n == nil {
		return none
	}
	return n
}

// flat flattens nested and/or/xor of the same kind: they are associative.
func flat(n *N) []*N {
	var out []*N
	for _, c := range n.C {
		if c.K == n.K {
			out = append(out, flat(c)...)
		} else {
			out = append(out, c)
		}
	}
	return out
}

func (n *N) dump(b *strings.Builder) {
	if n == nil {
		b.WriteString("<nil>")
		return
	}
	b.WriteString(n.K)
	if n.V != "" {
		b.WriteString(strconv.Quote(n.V))
	}
	kids := n.C
	if n.K == "and" || n.K == "or" || n.K == "xor" {
		kids = flat(n)
	}
	if len(kids) > 0 {
		b.WriteByte('(')
		for i, c := range kids {
			if i > 0 {
				b.WriteByte(' ')
			}
			c.dump(b)
		}
		b.WriteByte(')')
	}
}

func (n *N) String() string {
	var b strings.Builder
	n.dump(&b)
	return b.String()
}

// resolver rewrites an expected tree into the text's contract: the first appearance of a named node
// carries labels and properties, later ones only its name; the first appearance of an aliased expression
// is "expression AS alias", later ones are the alias.
type resolver struct {
	seenNode map[int]bool
	aliases  map[*N]string
	events   int
	quirk    bool // read conditions as the known finding and-after-or-compound says
	quirks   int
	later    int
	aliased  int
	// the aliases an expression was written out with
	introduced map[introduction]bool
}

type introduction struct {
	of    *N
	alias string
}

func resolve(n *N) (*N, *resolver) {
	r := &resolver{seenNode: map[int]bool{}, aliases: map[*N]string{}, introduced: map[introduction]bool{}}
	return r.walk(n), r
}

func (r *resolver) walk(n *N) *N {
	if n == nil {
		return nil
	}
	r.events++
	if n.K == "union" || n.K == "unionall" {
		// the parts of a union do not know each other's aliases
		outer, outerIntroduced := r.aliases, r.introduced
		out := &N{K: n.K}
		for _, c := range n.C {
			r.aliases, r.introduced = map[*N]string{}, map[introduction]bool{}
			for k, v := range outer {
				r.aliases[k] = v
			}
			for k, v := range outerIntroduced {
				r.introduced[k] = v
			}
			out.C = append(out.C, r.walk(c))
		}
		r.aliases, r.introduced = outer, outerIntroduced
		return out
	}
	if n.K == "quirk" {
		r.quirks++
		if r.quirk {
			return r.walk(n.C[1])
		}
		return r.walk(n.C[0])
	}
	if n.K == "alias" {
		// the expression goes by the alias that was used last
		d := n.C[0]
		if r.introduced[introduction{d, n.V}] {
			r.aliased++
			r.aliases[d] = n.V
			return mk("name", n.V)
		}
		out := mk("alias", n.V, r.walk(d))
		r.aliases[d] = n.V
		r.introduced[introduction{d, n.V}] = true
		return out
	}
	if a, seen := r.aliases[n]; seen {
		r.aliased++
		return mk("name", a)
	}
	if n.K == "node" && n.ID != 0 && n.V != "" {
		if r.seenNode[n.ID] {
			r.later++
			return mk("node", n.V)
		}
		r.seenNode[n.ID] = true
	}
	out := &N{K: n.K, V: n.V}
	for _, c := range n.C {
		out.C = append(out.C, r.walk(c))
	}
	return out
}
