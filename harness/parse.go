package main

import (
	"fmt"
	"strings"
)

// An independent recursive descent parser for the part of Cypher the DSL renders. It rejects whatever is not
// Cypher and whatever reads differently in the grammar of different Neo4j versions.

type parser struct {
	t []tok
	i int
}

func (p *parser) fail(f string, a ...interface{}) {
	panic(synErr{fmt.Sprintf("at %d (%q): ", p.t[p.i].pos, p.t[p.i].v) + fmt.Sprintf(f, a...)})
}

func parseStatement(s string) (n *N, err error) {
	toks, e := lex(s)
	if e != nil {
		return nil, e
	}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(synErr); ok {
				err = se
				return
			}
			panic(r)
		}
	}()
	p := &parser{t: toks}
	n = p.query(false)
	if p.peek().t != "eof" {
		p.fail("trailing text")
	}
	return n, nil
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) at(k int) tok {
	if p.i+k < len(p.t) {
		return p.t[p.i+k]
	}
	return p.t[len(p.t)-1]
}
func (p *parser) isP(v string) bool { return p.peek().t == "p" && p.peek().v == v }
func (p *parser) isPAt(k int, v string) bool {
	return p.at(k).t == "p" && p.at(k).v == v
}
func (p *parser) isKw(v string) bool { return p.peek().t == "id" && strings.EqualFold(p.peek().v, v) }
func (p *parser) isKwAt(k int, v string) bool {
	return p.at(k).t == "id" && strings.EqualFold(p.at(k).v, v)
}
func (p *parser) accP(v string) bool {
	if p.isP(v) {
		p.i++
		return true
	}
	return false
}
func (p *parser) accKw(vs ...string) bool {
	for k, v := range vs {
		if !p.isKwAt(k, v) {
			return false
		}
	}
	p.i += len(vs)
	return true
}
func (p *parser) expP(v string) {
	if !p.accP(v) {
		p.fail("expected %q", v)
	}
}
func (p *parser) expKw(vs ...string) {
	if !p.accKw(vs...) {
		p.fail("expected %v", vs)
	}
}
func (p *parser) name() string {
	t := p.peek()
	if t.t != "id" && t.t != "bid" {
		p.fail("expected a name")
	}
	p.i++
	return t.v
}

// query: single queries combined with UNION. inBraces: ends at the closing brace.
func (p *parser) query(inBraces bool) *N {
	first := p.single()
	var rest []*N
	kind := ""
	for p.isKw("UNION") {
		p.i++
		k := "union"
		if p.accKw("ALL") {
			k = "unionall"
		}
		if kind != "" && kind != k {
			p.fail("mixed union and union all")
		}
		kind = k
		rest = append(rest, p.single())
	}
	if kind == "" {
		return first
	}
	return mk(kind, "", append([]*N{first}, rest...)...)
}

func (p *parser) single() *N {
	q := mk("query", "")
	returned := false
	for {
		t := p.peek()
		if t.t == "eof" || p.isP("}") || p.isKw("UNION") {
			break
		}
		if returned {
			p.fail("clause after RETURN")
		}
		if t.t != "id" {
			p.fail("expected a clause")
		}
		c := p.clause()
		q.C = append(q.C, c)
		returned = strings.HasPrefix(c.K, "return")
	}
	if len(q.C) == 0 {
		p.fail("empty query")
	}
	return q
}

func (p *parser) clause() *N {
	switch {
	case p.accKw("OPTIONAL", "MATCH"):
		return p.match("optmatch")
	case p.accKw("MATCH"):
		return p.match("match")
	case p.accKw("CREATE"):
		return mk("create", "", p.patterns()...)
	case p.accKw("MERGE"):
		m := mk("merge", "", p.path())
		for p.isKw("ON") {
			switch {
			case p.accKw("ON", "CREATE", "SET"):
				m.C = append(m.C, mk("oncreate", "", p.setItems()...))
			case p.accKw("ON", "MATCH", "SET"):
				m.C = append(m.C, mk("onmatch", "", p.setItems()...))
			default:
				p.fail("bad merge action")
			}
		}
		return m
	case p.accKw("SET"):
		return mk("set", "", p.setItems()...)
	case p.accKw("REMOVE"):
		var items []*N
		for {
			items = append(items, p.postfix())
			if !p.accP(",") {
				return mk("remove", "", items...)
			}
		}
	case p.accKw("DETACH", "DELETE"):
		return mk("detachdelete", "", p.exprs()...)
	case p.accKw("DELETE"):
		return mk("delete", "", p.exprs()...)
	case p.accKw("UNWIND"):
		e := p.expr()
		p.expKw("AS")
		return mk("unwind", p.name(), e)
	case p.accKw("WITH"):
		return p.body("with")
	case p.accKw("RETURN"):
		return p.body("return")
	case p.accKw("CALL"):
		if p.accP("{") {
			q := p.query(true)
			p.expP("}")
			return mk("subcall", "", q)
		}
		return p.call()
	}
	p.fail("unknown clause")
	return nil
}

func (p *parser) call() *N {
	nm := p.dotted()
	c := mk("call", nm)
	args := mk("noargs", "")
	if p.accP("(") {
		args = mk("args", "")
		if !p.isP(")") {
			args.C = p.exprs()
		}
		p.expP(")")
	}
	y := mk("yield", "")
	if p.accKw("YIELD") {
		for {
			n := mk("name", p.name())
			if p.accKw("AS") {
				n = mk("alias", p.name(), n)
			}
			y.C = append(y.C, n)
			if !p.accP(",") {
				break
			}
		}
	}
	w := none
	if p.accKw("WHERE") {
		w = mk("where", "", p.expr())
	}
	c.C = []*N{args, y, w}
	return c
}

func (p *parser) dotted() string {
	parts := []string{p.name()}
	for p.isP(".") {
		p.i++
		parts = append(parts, p.name())
	}
	return strings.Join(parts, "\x00")
}

func (p *parser) match(k string) *N {
	m := mk(k, "", p.patterns()...)
	if p.accKw("WHERE") {
		m.C = append(m.C, mk("where", "", p.expr()))
	}
	return m
}

func (p *parser) body(k string) *N {
	if p.accKw("DISTINCT") {
		k += "distinct"
	}
	items := mk("items", "")
	for {
		if p.accP("*") {
			items.C = append(items.C, mk("*", ""))
		} else {
			e := p.expr()
			if p.accKw("AS") {
				e = mk("alias", p.name(), e)
			}
			items.C = append(items.C, e)
		}
		if !p.accP(",") {
			break
		}
	}
	ord, skip, limit, where := none, none, none, none
	if p.accKw("ORDER", "BY") {
		ord = mk("order", "")
		for {
			s := mk("sort", "", p.expr())
			if p.accKw("DESC") || p.accKw("DESCENDING") {
				s.V = "DESC"
			} else if p.accKw("ASC") || p.accKw("ASCENDING") {
				s.V = ""
			}
			ord.C = append(ord.C, s)
			if !p.accP(",") {
				break
			}
		}
	}
	if p.accKw("SKIP") {
		skip = mk("skip", "", p.expr())
	}
	if p.accKw("LIMIT") {
		limit = mk("limit", "", p.expr())
	}
	if strings.HasPrefix(k, "with") {
		if p.accKw("WHERE") {
			where = mk("where", "", p.expr())
		}
		return mk(k, "", items, ord, skip, limit, where)
	}
	return mk(k, "", items, ord, skip, limit)
}

func (p *parser) setItems() []*N {
	var out []*N
	for {
		t := p.postfix()
		switch {
		case p.accP("="):
			out = append(out, mk("assign", "=", t, p.expr()))
		case p.accP("+="):
			out = append(out, mk("assign", "+=", t, p.expr()))
		default:
			if t.K != "haslabel" {
				p.fail("set item without a value")
			}
			out = append(out, t)
		}
		if !p.accP(",") {
			return out
		}
	}
}

func (p *parser) exprs() []*N {
	var out []*N
	for {
		out = append(out, p.expr())
		if !p.accP(",") {
			return out
		}
	}
}

// ---- patterns

func (p *parser) patterns() []*N {
	var out []*N
	for {
		out = append(out, p.path())
		if !p.accP(",") {
			return out
		}
	}
}

func (p *parser) path() *N {
	name := ""
	if (p.peek().t == "id" || p.peek().t == "bid") && p.isPAt(1, "=") {
		name = p.name()
		p.i++
	}
	if p.isKw("shortestPath") && p.isPAt(1, "(") {
		p.i += 2
		e := p.element()
		p.expP(")")
		e.K = "shortest"
		e.V = name
		return e
	}
	e := p.element()
	e.V = name
	return e
}

func (p *parser) element() *N {
	e := mk("path", "", p.nodePat())
	for p.isP("-") || (p.isP("<") && p.isPAt(1, "-")) {
		r := p.relPat()
		e.C = append(e.C, r, p.nodePat())
	}
	return e
}

func (p *parser) nodePat() *N {
	p.expP("(")
	n := mk("node", "")
	if p.peek().t == "id" || p.peek().t == "bid" {
		n.V = p.name()
	}
	for p.accP(":") {
		n.C = append(n.C, mk("label", p.name()))
	}
	if p.isP("{") {
		n.C = append(n.C, p.mapLit())
	}
	p.expP(")")
	return n
}

func (p *parser) relPat() *N {
	left := p.accP("<")
	p.expP("-")
	r := mk("rel", "")
	length := none
	var types []*N
	props := none
	if p.accP("[") {
		if p.peek().t == "id" || p.peek().t == "bid" {
			r.V = p.name()
		}
		if p.accP(":") {
			types = append(types, mk("type", p.name()))
			for p.accP("|") {
				p.accP(":")
				types = append(types, mk("type", p.name()))
			}
		}
		if p.accP("*") {
			lo, hi := "", ""
			exact := true
			if p.peek().t == "int" {
				lo = p.peek().v
				p.i++
			}
			if p.accP("..") {
				exact = false
				if p.peek().t == "int" {
					hi = p.peek().v
					p.i++
				}
			}
			if exact && lo != "" {
				hi = lo
			}
			length = mk("len", lo+".."+hi)
		}
		if p.isP("{") {
			props = p.mapLit()
		}
		p.expP("]")
	}
	p.expP("-")
	right := p.accP(">")
	dir := "--"
	switch {
	case left && right:
		p.fail("relationship with two directions")
	case left:
		dir = "<-"
	case right:
		dir = "->"
	}
	r.C = []*N{mk("dir", dir), mk("types", "", types...), length, props}
	return r
}

// ---- expressions

func (p *parser) expr() *N {
	l := p.xor()
	for p.accKw("OR") {
		l = mk("or", "", l, p.xor())
	}
	return l
}
func (p *parser) xor() *N {
	l := p.and()
	for p.accKw("XOR") {
		l = mk("xor", "", l, p.and())
	}
	return l
}
func (p *parser) and() *N {
	l := p.not()
	for p.accKw("AND") {
		l = mk("and", "", l, p.not())
	}
	return l
}
func (p *parser) not() *N {
	if p.isKw("NOT") {
		p.i++
		return mk("not", "", p.not())
	}
	return p.cmp()
}

func (p *parser) cmp() *N {
	l := p.strOp()
	n := 0
	for {
		t := p.peek()
		if t.t != "p" {
			return l
		}
		switch t.v {
		case "=", "<>", "<", ">", "<=", ">=":
			if n > 0 {
				p.fail("chained comparison")
			}
			n++
			p.i++
			l = mk("cmp", t.v, l, p.strOp())
		default:
			return l
		}
	}
}

// strOp: =~, IN, STARTS WITH, ENDS WITH, CONTAINS, IS [NOT] NULL. Where they stand between + and ^ differs
// between grammars, so that operators without parentheses next to them are rejected.
func (p *parser) strOp() *N {
	l := p.add()
	n := 0
	clear := func(x *N) {
		if x.K == "bin" && !x.Paren {
			p.fail("operator without parentheses next to a string, list or null operator")
		}
	}
	for {
		op := ""
		switch {
		case p.isP("=~"):
			p.i++
			op = "=~"
		case p.accKw("IN"):
			op = "IN"
		case p.accKw("STARTS", "WITH"):
			op = "STARTS WITH"
		case p.accKw("ENDS", "WITH"):
			op = "ENDS WITH"
		case p.accKw("CONTAINS"):
			op = "CONTAINS"
		case p.accKw("IS", "NOT", "NULL"):
			clear(l)
			l = mk("isnotnull", "", l)
			n++
			continue
		case p.accKw("IS", "NULL"):
			clear(l)
			l = mk("isnull", "", l)
			n++
			continue
		default:
			return l
		}
		if n > 0 {
			p.fail("chained string, list or null operators")
		}
		n++
		clear(l)
		r := p.add()
		clear(r)
		l = mk("cmp", op, l, r)
	}
}

func (p *parser) add() *N {
	l := p.mul()
	for p.isP("+") || p.isP("-") {
		op := p.peek().v
		p.i++
		l = mk("bin", op, l, p.mul())
	}
	return l
}
func (p *parser) mul() *N {
	l := p.pow()
	for p.isP("*") || p.isP("/") || p.isP("%") {
		op := p.peek().v
		p.i++
		l = mk("bin", op, l, p.pow())
	}
	return l
}
func (p *parser) pow() *N {
	l := p.unary()
	for p.accP("^") {
		l = mk("bin", "^", l, p.unary())
	}
	return l
}
func (p *parser) unary() *N {
	if p.isP("-") {
		p.i++
		if (p.peek().t == "int" || p.peek().t == "float") && p.peek().pos == p.t[p.i-1].end {
			n := p.postfix()
			x := n
			for x.K != "int" && x.K != "float" {
				x = x.C[0]
			}
			if x.K == "float" {
				x.V = canonFloat("-" + x.V)
			} else {
				x.V = "-" + x.V
			}
			return n
		}
		return mk("neg", "", p.unary())
	}
	return p.postfix()
}

func (p *parser) postfix() *N {
	l := p.atom()
	for {
		switch {
		case p.isP(".") && (p.at(1).t == "id" || p.at(1).t == "bid"):
			p.i++
			l = mk("prop", p.name(), l)
		case p.isP("["):
			p.i++
			if p.accP("..") {
				hi := p.expr()
				p.expP("]")
				l = mk("slice", "", l, none, hi)
				continue
			}
			e := p.expr()
			if p.accP("..") {
				hi := none
				if !p.isP("]") {
					hi = p.expr()
				}
				p.expP("]")
				l = mk("slice", "", l, e, hi)
				continue
			}
			p.expP("]")
			l = mk("index", "", l, e)
		case p.isP(":") && l.K == "name" && !l.Paren && (p.at(1).t == "id" || p.at(1).t == "bid"):
			h := mk("haslabel", "", mk("name", l.V))
			for p.accP(":") {
				h.C = append(h.C, mk("label", p.name()))
			}
			l = h
		default:
			return l
		}
	}
}

// pattern tries to read a relationship pattern, nil if there is none.
func (p *parser) pattern() (n *N) {
	i := p.i
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(synErr); !ok {
				panic(r)
			}
			p.i = i
			n = nil
		}
	}()
	e := p.element()
	if len(e.C) < 3 {
		p.i = i
		return nil
	}
	return e
}

func (p *parser) atom() *N {
	t := p.peek()
	switch t.t {
	case "int":
		p.i++
		return mk("int", t.v)
	case "float":
		p.i++
		return mk("float", canonFloat(t.v))
	case "str":
		p.i++
		return mk("str", t.v)
	case "param":
		p.i++
		return mk("param", t.v)
	case "p":
		switch t.v {
		case "(":
			if n := p.pattern(); n != nil {
				return mk("patexpr", "", n)
			}
			p.i++
			e := p.expr()
			p.expP(")")
			c := *e
			c.Paren = true
			return &c
		case "[":
			return p.bracket()
		case "{":
			return p.mapLit()
		}
		p.fail("expected an expression")
	case "id", "bid":
		if t.t == "id" {
			switch {
			case p.isKw("true"):
				p.i++
				return mk("true", "")
			case p.isKw("false"):
				p.i++
				return mk("false", "")
			case p.isKw("null"):
				p.i++
				return mk("null", "")
			case p.isKw("CASE"):
				return p.caseExpr()
			case p.isKw("EXISTS") && p.isPAt(1, "{"):
				p.i += 2
				q := p.query(true)
				p.expP("}")
				return mk("existsq", "", q)
			}
		}
		// function call?
		k := 1
		for p.isPAt(k, ".") && (p.at(k+1).t == "id" || p.at(k+1).t == "bid") {
			k += 2
		}
		if p.isPAt(k, "(") {
			return p.fn()
		}
		nm := p.name()
		if p.isP("{") {
			return p.projection(nm)
		}
		return mk("name", nm)
	}
	p.fail("expected an expression")
	return nil
}

func (p *parser) fn() *N {
	q := strings.ToLower(p.peek().v)
	if p.peek().t == "id" && (q == "all" || q == "any" || q == "none" || q == "single") && p.isKwAt(3, "IN") {
		p.i++
		p.expP("(")
		v := p.name()
		p.expKw("IN")
		l := p.expr()
		p.expKw("WHERE")
		w := p.expr()
		p.expP(")")
		return mk("quant", q, mk("name", v), l, w)
	}
	nm := p.dotted()
	p.expP("(")
	k := "fn"
	if p.accKw("DISTINCT") {
		k = "fndistinct"
	}
	f := mk(k, canonFn(nm))
	if p.accP("*") {
		f.C = append(f.C, mk("*", ""))
	} else if !p.isP(")") {
		f.C = p.exprs()
	}
	p.expP(")")
	return f
}

func (p *parser) caseExpr() *N {
	p.expKw("CASE")
	c := mk("case", "")
	op := none
	if !p.isKw("WHEN") {
		op = p.expr()
	}
	c.C = append(c.C, op)
	n := 0
	for p.accKw("WHEN") {
		w := p.expr()
		p.expKw("THEN")
		c.C = append(c.C, mk("when", "", w, p.expr()))
		n++
	}
	if n == 0 {
		p.fail("CASE without WHEN")
	}
	if p.accKw("ELSE") {
		c.C = append(c.C, mk("else", "", p.expr()))
	}
	p.expKw("END")
	return c
}

func (p *parser) bracket() *N {
	p.expP("[")
	if p.accP("]") {
		return mk("list", "")
	}
	// list comprehension
	if (p.peek().t == "id" || p.peek().t == "bid") && p.isKwAt(1, "IN") {
		v := p.name()
		p.expKw("IN")
		l := p.expr()
		w, d := none, none
		if p.accKw("WHERE") {
			w = mk("where", "", p.expr())
		}
		if p.accP("|") {
			d = p.expr()
		}
		p.expP("]")
		return mk("listcomp", v, l, w, d)
	}
	// pattern comprehension
	i := p.i
	name := ""
	if (p.peek().t == "id" || p.peek().t == "bid") && p.isPAt(1, "=") {
		name = p.name()
		p.i++
	}
	if p.isP("(") {
		if pat := p.pattern(); pat != nil {
			pat.V = name
			if p.isP("|") || p.isKw("WHERE") {
				w := none
				if p.accKw("WHERE") {
					w = mk("where", "", p.expr())
				}
				p.expP("|")
				d := p.expr()
				p.expP("]")
				return mk("patcomp", "", pat, w, d)
			}
		}
	}
	p.i = i
	l := mk("list", "", p.exprs()...)
	p.expP("]")
	return l
}

func (p *parser) mapLit() *N {
	p.expP("{")
	m := mk("map", "")
	if p.accP("}") {
		return m
	}
	for {
		k := p.name()
		p.expP(":")
		m.C = append(m.C, mk("ent", k, p.expr()))
		if !p.accP(",") {
			break
		}
	}
	p.expP("}")
	return m
}

func (p *parser) projection(nm string) *N {
	p.expP("{")
	m := mk("mapproj", "", mk("name", nm))
	if p.accP("}") {
		return m
	}
	for {
		switch {
		case p.accP("."):
			if p.accP("*") {
				m.C = append(m.C, mk("all", ""))
			} else {
				m.C = append(m.C, mk("lookup", p.name()))
			}
		default:
			k := p.name()
			if p.accP(":") {
				m.C = append(m.C, mk("ent", k, p.expr()))
			} else {
				m.C = append(m.C, mk("name", k))
			}
		}
		if !p.accP(",") {
			break
		}
	}
	p.expP("}")
	return m
}
