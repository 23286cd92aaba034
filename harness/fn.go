package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// The catalogue of functions. The names on the right are those of the Cypher manual, written down here and not
// taken from the DSL. Cypher's own functions are not case sensitive, so that they are compared in lower case.

var cypherFunctions = []string{
	"all", "any", "exists", "none", "single", "coalesce", "endNode", "head", "id", "last", "properties", "shortestPath", "size",
	"startNode", "type", "toLower", "point", "distance", "avg", "collect", "count", "max", "min", "percentileCont",
	"percentileDisc", "stDev", "stDevP", "sum", "labels", "nodes", "range", "relationships", "date", "datetime",
	"localdatetime", "localtime", "time", "duration",
}

var builtin = func() map[string]bool {
	m := map[string]bool{}
	for _, f := range cypherFunctions {
		m[strings.ToLower(f)] = true
	}
	return m
}()

// canonFn is the name under which functions are compared.
func canonFn(nm string) string {
	if l := strings.ToLower(nm); builtin[l] {
		return l
	}
	return nm
}

func fnN(nm string, c ...*N) *N      { return mk("fn", canonFn(nm), c...) }
func fnDN(nm string, c ...*N) *N     { return mk("fndistinct", canonFn(nm), c...) }
func entN(k string, v *N) *N         { return mk("ent", k, v) }
func intEnt(k string, v int) *N      { return entN(k, intN(v)) }
func mapN(c ...*N) *N                { return mk("map", "", c...) }
func fE(x cypher.Expression, n *N) E { return E{x, n} }

type fnEntry struct {
	name string
	f    func(g *G, d int) E
}

func unary(nm string, f func(cypher.Expression) cypher.FunctionInvocation) func(*G, int) E {
	return func(g *G, d int) E {
		e := g.operand(d - 1)
		return E{f(e.X), fnN(nm, e.N)}
	}
}

func unaryDistinct(nm string, f func(cypher.Expression) cypher.FunctionInvocation) func(*G, int) E {
	return func(g *G, d int) E {
		e := g.operand(d - 1)
		return E{f(e.X), fnDN(nm, e.N)}
	}
}

func percentile(kind, nm string, f func(cypher.Expression, float64) cypher.FunctionInvocation) func(*G, int) E {
	return func(g *G, d int) E {
		e := g.operand(d - 1)
		p := float64(g.r.n(1001)) / 1000
		switch g.r.n(6) {
		case 0:
			p = 0
		case 1:
			p = 1
		}
		return E{f(e.X, p), mk(kind, canonFn(nm), e.N, floatN(p))}
	}
}

func byNode(nm string, f func(cypher.Node) cypher.FunctionInvocation) func(*G, int) E {
	return func(g *G, d int) E {
		n := g.namedNode()
		return E{f(n.Node), fnN(nm, n.Name)}
	}
}

func byRel(nm string, f func(cypher.Relationship) cypher.FunctionInvocation) func(*G, int) E {
	return func(g *G, d int) E {
		n := g.namedRel(d - 1)
		return E{f(n.Rel), fnN(nm, n.Name)}
	}
}

func byPath(nm string, f func(cypher.NamedPath) cypher.FunctionInvocation) func(*G, int) E {
	return func(g *G, d int) E {
		n := g.namedPath(d - 1)
		return E{f(n.Path), fnN(nm, n.Name)}
	}
}

func byMap(nm string, f func(cypher.MapExpression) cypher.FunctionInvocation) func(*G, int) E {
	return func(g *G, d int) E {
		m := g.mapExpr(d-1, 0)
		return E{f(m.X.(cypher.MapExpression)), fnN(nm, m.N)}
	}
}

func byText(nm string, f func(string) cypher.FunctionInvocation) func(*G, int) E {
	return func(g *G, d int) E {
		s := g.str()
		if s == "" {
			s = "2020-01-01"
		}
		return E{f(s), fnN(nm, mk("str", s))}
	}
}

func byZone(nm string, f func(*time.Location) cypher.FunctionInvocation) func(*G, int) E {
	return func(g *G, d int) E {
		z := []string{"Europe/Berlin", "UTC", "+01:00", "it's", "a\\b", "x y"}[g.r.n(6)]
		l := time.FixedZone(z, 3600)
		if z == "UTC" {
			l = time.UTC
		}
		return E{f(l), fnN(nm, mapN(entN("timezone", mk("str", z))))}
	}
}

func noArgs(nm string, f func() cypher.FunctionInvocation) func(*G, int) E {
	return func(g *G, d int) E { return E{f(), fnN(nm)} }
}

// named is a node, a relationship or a path with a name.
func (g *G) anyNamed(d int) *El {
	switch g.r.n(4) {
	case 0:
		return g.namedRel(d)
	case 1:
		return g.namedPath(d)
	}
	return g.namedNode()
}

var functions []fnEntry

func init() {
	functions = []fnEntry{
		{"IdByNode", byNode("id", cypher.IdByNode)},
		{"Node.InternalId", byNode("id", func(n cypher.Node) cypher.FunctionInvocation { return n.InternalId() })},
		{"IdByRelationship", byRel("id", cypher.IdByRelationship)},
		{"Labels", byNode("labels", cypher.Labels)},
		{"Node.Labels", byNode("labels", func(n cypher.Node) cypher.FunctionInvocation { return n.Labels() })},
		{"FunctionType", byRel("type", cypher.FunctionType)},
		{"Count", byNode("count", cypher.Count)},
		{"CountByExpression", unary("count", cypher.CountByExpression)},
		{"CountByExpression(*)", func(g *G, d int) E {
			return E{cypher.CountByExpression(cypher.AnAsterisk()), fnN("count", mk("*", ""))}
		}},
		{"CountDistinct", func(g *G, d int) E {
			n := g.namedNode()
			return E{cypher.CountDistinct(n.Node), fnDN("count", n.Name)}
		}},
		{"CountDistinctByExpression", unaryDistinct("count", cypher.CountDistinctByExpression)},
		{"FunctionProperties", byNode("properties", cypher.FunctionProperties)},
		{"FunctionPropertiesByRelationship", byRel("properties", cypher.FunctionPropertiesByRelationship)},
		{"PropertiesByMapExpression", byMap("properties", cypher.PropertiesByMapExpression)},
		{"Coalesce", func(g *G, d int) E {
			x, n := g.exprList(d-1, 1, 4)
			return E{cypher.Coalesce(x...), fnN("coalesce", n...)}
		}},
		{"ToLower", unary("toLower", cypher.ToLower)},
		{"Size", unary("size", cypher.Size)},
		{"SizeByPattern", func(g *G, d int) E {
			r := g.relOrChain(d - 1)
			return E{cypher.SizeByPattern(r.relPattern()), fnN("size", mk("patexpr", "", r.N))}
		}},
		{"Exists", unary("exists", cypher.Exists)},
		{"Distance", func(g *G, d int) E {
			a, b := g.operand(d-1), g.operand(d-1)
			return E{cypher.Distance(a.X, b.X), fnN("distance", a.N, b.N)}
		}},
		{"Point", byMap("point", cypher.Point)},
		{"PointByParameter", func(g *G, d int) E {
			p := g.plainParam()
			return E{cypher.PointByParameter(p.X.(cypher.Parameter)), fnN("point", p.N)}
		}},
		{"Avg", unary("avg", cypher.Avg)},
		{"AvgDistinct", unaryDistinct("avg", cypher.AvgDistinct)},
		{"CollectByNamed", func(g *G, d int) E {
			n := g.anyNamed(d - 1)
			return E{cypher.CollectByNamed(n.named()), fnN("collect", n.Name)}
		}},
		{"CollectDistinctByNamed", func(g *G, d int) E {
			n := g.anyNamed(d - 1)
			return E{cypher.CollectDistinctByNamed(n.named()), fnDN("collect", n.Name)}
		}},
		{"Collect", unary("collect", cypher.Collect)},
		{"CollectDistinct", unaryDistinct("collect", cypher.CollectDistinct)},
		{"Max", unary("max", cypher.Max)},
		{"MaxDistinct", unaryDistinct("max", cypher.MaxDistinct)},
		{"Min", unary("min", cypher.Min)},
		{"MinDistinct", unaryDistinct("min", cypher.MinDistinct)},
		{"PercentileCont", percentile("fn", "percentileCont", cypher.PercentileCont)},
		{"PercentileContDistinct", percentile("fndistinct", "percentileCont", cypher.PercentileContDistinct)},
		{"PercentileDisc", percentile("fn", "percentileDisc", cypher.PercentileDisc)},
		{"PercentileDiscDistinct", percentile("fndistinct", "percentileDisc", cypher.PercentileDiscDistinct)},
		{"StDev", unary("stDev", cypher.StDev)},
		{"StDevDistinct", unaryDistinct("stDev", cypher.StDevDistinct)},
		{"StDevP", unary("stDevP", cypher.StDevP)},
		{"StDevPDistinct", unaryDistinct("stDevP", cypher.StDevPDistinct)},
		{"Sum", unary("sum", cypher.Sum)},
		{"SumDistinct", unaryDistinct("sum", cypher.SumDistinct)},
		{"RangeRaw", func(g *G, d int) E {
			a, b := g.integer(), g.integer()
			return E{cypher.RangeRaw(a, b), fnN("range", intN(a), intN(b))}
		}},
		{"Range", func(g *G, d int) E {
			a, b := g.operand(d-1), g.operand(d-1)
			return E{cypher.Range(a.X, b.X), fnN("range", a.N, b.N)}
		}},
		{"RangeWithStepRaw", func(g *G, d int) E {
			a, b, c := g.integer(), g.integer(), g.integer()
			return E{cypher.RangeWithStepRaw(a, b, c), fnN("range", intN(a), intN(b), intN(c))}
		}},
		{"RangeWithStep", func(g *G, d int) E {
			a, b, c := g.operand(d-1), g.operand(d-1), g.operand(d-1)
			return E{cypher.RangeWithStep(a.X, b.X, c.X), fnN("range", a.N, b.N, c.N)}
		}},
		{"Head", unary("head", cypher.Head)},
		{"Last", unary("last", cypher.Last)},
		{"Nodes", byPath("nodes", cypher.Nodes)},
		{"Relationships", byPath("relationships", cypher.Relationships)},
		{"StartNode", byRel("startNode", cypher.StartNode)},
		{"EndNode", byRel("endNode", cypher.EndNode)},
		{"Date", noArgs("date", cypher.Date)},
		{"CalendarDate", func(g *G, d int) E {
			a, b, c := g.integer(), g.integer(), g.integer()
			return E{cypher.CalendarDate(a, b, c), fnN("date", mapN(intEnt("year", a), intEnt("month", b), intEnt("day", c)))}
		}},
		{"WeekDate", func(g *G, d int) E {
			a, b, c := g.integer(), g.integer(), g.integer()
			return E{cypher.WeekDate(a, b, c), fnN("date", mapN(intEnt("year", a), intEnt("week", b), intEnt("dayOfWeek", c)))}
		}},
		{"QuarterDate", func(g *G, d int) E {
			a, b, c := g.integer(), g.integer(), g.integer()
			return E{cypher.QuarterDate(a, b, c), fnN("date", mapN(intEnt("year", a), intEnt("quarter", b), intEnt("dayOfQuarter", c)))}
		}},
		{"OrdinalDate", func(g *G, d int) E {
			a, b := g.integer(), g.integer()
			return E{cypher.OrdinalDate(a, b), fnN("date", mapN(intEnt("year", a), intEnt("ordinalDay", b)))}
		}},
		{"DateWithComponents", byMap("date", cypher.DateWithComponents)},
		{"DateWithTemporal", byText("date", cypher.DateWithTemporal)},
		{"DateWithExpression", unary("date", cypher.DateWithExpression)},
		{"Datetime", noArgs("datetime", cypher.Datetime)},
		{"DateTimeWithComponents", byMap("datetime", cypher.DateTimeWithComponents)},
		{"DateTimeWithTemporal", byText("datetime", cypher.DateTimeWithTemporal)},
		{"DateTimeWithExpression", unary("datetime", cypher.DateTimeWithExpression)},
		{"LocalDatetime", noArgs("localdatetime", cypher.LocalDatetime)},
		{"LocalDateTimeWithTimezone", byZone("localdatetime", cypher.LocalDateTimeWithTimezone)},
		{"LocalDateTimeWithComponents", byMap("localdatetime", cypher.LocalDateTimeWithComponents)},
		{"LocalDateTimeWithTemporal", byText("localdatetime", cypher.LocalDateTimeWithTemporal)},
		{"LocalDateTimeWithExpression", unary("localdatetime", cypher.LocalDateTimeWithExpression)},
		{"Localtime", noArgs("localtime", cypher.Localtime)},
		{"LocalTimeWithTimezone", byZone("localtime", cypher.LocalTimeWithTimezone)},
		{"LocalTimeWithComponents", byMap("localtime", cypher.LocalTimeWithComponents)},
		{"LocalTimeWithTemporal", byText("localtime", cypher.LocalTimeWithTemporal)},
		{"LocalTimeWithExpression", unary("localtime", cypher.LocalTimeWithExpression)},
		{"Time", noArgs("time", cypher.Time)},
		{"TimeWithTimeZone", byZone("time", cypher.TimeWithTimeZone)},
		{"TimeWithComponents", byMap("time", cypher.TimeWithComponents)},
		{"TimeWithTemporal", byText("time", cypher.TimeWithTemporal)},
		{"TimeWithExpression", unary("time", cypher.TimeWithExpression)},
		{"DurationWithComponents", byMap("duration", cypher.DurationWithComponents)},
		{"DurationWithTemporal", byText("duration", cypher.DurationWithTemporal)},
		{"DurationWithExpression", unary("duration", cypher.DurationWithExpression)},
		{"ShortestPath", func(g *G, d int) E {
			r := g.newRel(d-1, g.r.p(50))
			return E{cypher.ShortestPath(r.Rel), fnN("shortestPath", mk("patexpr", "", r.N))}
		}},
		{"ACall.AsFunction", func(g *G, d int) E {
			parts, nm := g.procName()
			x, n := g.exprList(d-1, 0, 3)
			if len(x) == 0 && g.r.p(50) {
				return E{cypher.ACall(parts...).AsFunction(), mk("fn", nm)}
			}
			return E{cypher.ACall(parts...).WithArgs(x...).AsFunction(), mk("fn", nm, n...)}
		}},
		{"ACallSimple.AsFunction", func(g *G, d int) E {
			parts, nm := g.procName()
			x, n := g.exprList(d-1, 0, 3)
			return E{cypher.ACallSimple(strings.Join(parts, ".")).WithArgs(x...).AsFunction(), mk("fn", nm, n...)}
		}},
	}
	seen := map[string]bool{}
	for _, f := range functions {
		if seen[f.name] {
			panic("catalogue: " + f.name + " twice")
		}
		seen[f.name] = true
	}
	sort.SliceStable(functions, func(i, j int) bool { return functions[i].name < functions[j].name })
}

func (g *G) fn(d int) E {
	f := functions[g.r.n(len(functions))]
	g.hit("fn." + f.name)
	return f.f(g, d)
}

// procName gives the parts of a qualified name and the name as the parser reads it. A dot within a part separates
// as well.
func (g *G) procName() ([]string, string) {
	var parts []string
	for k := g.r.some(1, 4); k > 0; k-- {
		parts = append(parts, strings.ReplaceAll(g.name(), ".", "_"))
	}
	return parts, strings.Join(parts, "\x00")
}

// plainParam is a parameter whose name has no dots.
func (g *G) plainParam() E {
	v := strings.ReplaceAll(g.name(), ".", "_")
	in := v
	for strings.HasPrefix(v, "$") {
		v = v[1:]
	}
	if g.r.p(20) {
		in = "$" + v
	}
	return E{cypher.AParam(in), mk("param", v)}
}

var _ = fmt.Sprint
