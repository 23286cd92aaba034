package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// The reflective engine calls the exported functions of the package and the methods of the values it gets, knowing
// nothing but their types. It keeps all values it has obtained and can use each of them again and again.

type apiFunc struct {
	name string
	f    interface{}
}

// obj is a value the engine holds. Only what its static type offers may be done with it, as in a Go program.
type obj struct {
	v    reflect.Value // not an interface
	t    reflect.Type  // the static type
	name string
	w    int  // number of calls it stands for
	bad  bool // an erroneous value is a part of it
}

type engine struct {
	r       *rng
	pool    []obj
	hostile int // percent of the arguments that are nil, zero, erroneous or extreme
	trace   []string
	allow   func(name string) bool
	before  func()          // run before every call
	pure    map[string]bool // receivers or arguments that must stay as they are
	seen    map[string]int  // calls per function or method
	lack    bool            // an argument could not be made
	taint   bool            // an argument is erroneous
	maxW    int
	least   int // variadic arguments
	nils    int // percent of the calls that get a nil argument
	nilAt   int
	nilHow  string
	twice   int // percent of the method calls that are made once more, with other arguments
	spread  int // percent of the calls that get their arguments as a slice of the caller's, which is used again afterwards
	loans   []loan
	kept    *fault
	shared  int
}

const pkgPath = "github.com/manhcuongbk56/cypher-go-dsl"

var (
	errorType     = reflect.TypeOf((*error)(nil)).Elem()
	anyType       = reflect.TypeOf((*interface{})(nil)).Elem()
	statementType = reflect.TypeOf((*cypher.Statement)(nil)).Elem()
	visitableType = reflect.TypeOf((*cypher.Visitable)(nil)).Elem()
	renderType    = reflect.TypeOf((*cypher.CypherRenderer)(nil))
	skipStep      = reflect.TypeOf((*cypher.ExposesLimitAndOngoingReadingAndWith)(nil)).Elem()
	poisonedErr   = errors.New("injected error")
)

type apiMethod struct {
	recv reflect.Type
	name string
	sig  reflect.Type // without the receiver
	ptr  bool
}

func usableSig(t reflect.Type, from int) bool {
	for i := from; i < t.NumIn(); i++ {
		p := t.In(i)
		for p.Kind() == reflect.Slice || p.Kind() == reflect.Ptr {
			p = p.Elem()
		}
		if p == renderType.Elem() || p == visitableType {
			return false
		}
		if p.PkgPath() == pkgPath && p.Name() != "" && p.Name()[0] >= 'a' && p.Name()[0] <= 'z' {
			return false
		}
	}
	return true
}

var cacheLock sync.Mutex
var methodCache = map[reflect.Type][]apiMethod{}

// methodsOf lists the exported methods of a static type.
func methodsOf(t reflect.Type) []apiMethod {
	cacheLock.Lock()
	defer cacheLock.Unlock()
	if m, ok := methodCache[t]; ok {
		return m
	}
	var out []apiMethod
	add := func(m reflect.Method, skip int, ptr bool) {
		if m.PkgPath != "" || !exportedMethods[m.Name] || !usableSig(m.Type, skip) {
			return
		}
		out = append(out, apiMethod{t, m.Name, m.Type, ptr})
	}
	switch {
	case t.Kind() == reflect.Interface:
		for i := 0; i < t.NumMethod(); i++ {
			add(t.Method(i), 0, false)
		}
	default:
		for i := 0; i < t.NumMethod(); i++ {
			add(t.Method(i), 1, false)
		}
	}
	methodCache[t] = out
	return out
}

// producers gives the functions whose result can be used as a t.
var producerCache = map[reflect.Type][]apiFunc{}

func producers(t reflect.Type) []apiFunc {
	cacheLock.Lock()
	defer cacheLock.Unlock()
	if p, ok := producerCache[t]; ok {
		return p
	}
	var out []apiFunc
	for _, f := range exported {
		ft := reflect.TypeOf(f.f)
		if usableSig(ft, 0) && ft.NumOut() > 0 && ft.Out(0).AssignableTo(t) {
			out = append(out, f)
		}
	}
	producerCache[t] = out
	return out
}

func (e *engine) put(v reflect.Value, w int, how string) string {
	t := v.Type()
	name := fmt.Sprintf("v%d", len(e.trace))
	e.trace = append(e.trace, name+" := "+how)
	if t.Kind() == reflect.Interface {
		if v.IsNil() {
			return name
		}
		v = v.Elem()
	}
	base := t
	for base.Kind() == reflect.Slice || base.Kind() == reflect.Ptr {
		base = base.Elem()
	}
	if t == skipStep {
		// an interface without exported methods, to be converted
		t = reflect.TypeOf((*cypher.OngoingReadingAndWith)(nil)).Elem()
		if e.r.p(40) {
			t = reflect.TypeOf((*cypher.ExposesLimit)(nil)).Elem()
		}
		if !v.Type().Implements(t) {
			return name
		}
	}
	if base.PkgPath() == pkgPath && base.Name() != "ExpressionType" {
		e.pool = append(e.pool, obj{v, t, name, w, e.taint})
	}
	return name
}

// find picks a value that can be used as a t.
func (e *engine) find(t reflect.Type) (obj, bool) {
	n := 0
	var got obj
	for _, o := range e.pool {
		if o.t.AssignableTo(t) && o.w < e.maxW {
			n++
			if e.r.n(n) == 0 {
				got = o
			}
		}
	}
	return got, n > 0
}

var hostileTexts = []string{"", " ", "`", "'", "\\", "\x00", "\xff\xfe", "a b", "*", "n.m", "$", "\n"}
var hostileInts = []int{0, -1, 1, math.MaxInt64, math.MinInt64, math.MaxInt32, -2}
var hostileFloats = []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64}

// arg makes an argument of type t.
func (e *engine) arg(t reflect.Type, depth int) (v reflect.Value, text string, w int) {
	r := e.r
	bad := r.p(e.hostile)
	switch t.Kind() {
	case reflect.String:
		s := r.pick([]string{"a", "b", "name", "x", "Person", "KNOWS"})
		if bad {
			s = r.pick(hostileTexts)
		}
		return reflect.ValueOf(s).Convert(t), fmt.Sprintf("%q", s), 0
	case reflect.Int, reflect.Int64:
		x := r.in(1, 9)
		if bad {
			x = hostileInts[r.n(len(hostileInts))]
		}
		return reflect.ValueOf(x).Convert(t), fmt.Sprint(x), 0
	case reflect.Float64:
		x := float64(r.n(100)) / 8
		if bad {
			x = hostileFloats[r.n(len(hostileFloats))]
		}
		return reflect.ValueOf(x), fmt.Sprint(x), 0
	case reflect.Bool:
		x := r.p(50)
		return reflect.ValueOf(x).Convert(t), fmt.Sprint(x), 0
	case reflect.Slice:
		n := r.in(1, 3)
		if bad {
			n = r.n(2) - 1
		}
		if n < 0 {
			return reflect.Zero(t), "nil", 0
		}
		s := reflect.MakeSlice(t, 0, n)
		var l []string
		for i := 0; i < n; i++ {
			x, tx, wx := e.arg(t.Elem(), depth)
			s = reflect.Append(s, x)
			l = append(l, tx)
			w += wx
		}
		return s, t.String() + "{" + strings.Join(l, ", ") + "}", w
	case reflect.Ptr:
		if t.Elem() == reflect.TypeOf(time.Location{}) {
			if bad && r.p(50) {
				return reflect.Zero(t), "nil", 0
			}
			return reflect.ValueOf(time.UTC), "time.UTC", 0
		}
		if bad {
			return reflect.Zero(t), "nil", 0
		}
		x, tx, wx := e.arg(t.Elem(), depth)
		p := reflect.New(t.Elem())
		p.Elem().Set(x)
		return p, "&" + tx, wx
	}
	if t == statementType {
		// every element of the syntax tree would do for the compiler: only what was built is used
		var got []obj
		for _, o := range e.pool {
			if o.t == t && o.w < e.maxW {
				got = append(got, o)
			}
		}
		if bad || len(got) == 0 {
			e.lack = e.lack || !bad
			return reflect.Zero(t), "nil", 0
		}
		o := got[r.n(len(got))]
		return e.use(o)
	}
	if t == errorType {
		return reflect.ValueOf(&poisonedErr).Elem(), "errors.New(\"injected error\")", 0
	}
	if t == anyType {
		return e.anything(bad, depth)
	}
	if t.PkgPath() != pkgPath {
		return reflect.Zero(t), "zero " + t.String(), 0
	}
	if bad {
		switch r.n(3) {
		case 0:
			if t.Kind() == reflect.Interface {
				return reflect.Zero(t), "nil", 0
			}
			return reflect.Zero(t), t.String() + "{}", 0
		case 1:
			// the zero value of a type that can be used as a t
			var z []reflect.Type
			for _, o := range e.pool {
				if d := o.v.Type(); d.AssignableTo(t) && d.Kind() == reflect.Struct && d.Name() != "" && !(d.Name()[0] >= 'a' && d.Name()[0] <= 'z') {
					z = append(z, d)
				}
			}
			if len(z) > 0 {
				d := z[r.n(len(z))]
				return reflect.Zero(d), d.String() + "{}", 0
			}
		}
	}
	if o, ok := e.find(t); ok && (depth > 3 || r.p(75)) {
		return e.use(o)
	}
	if depth <= 4 {
		if ps := producers(t); len(ps) > 0 {
			for k := 0; k < 3; k++ {
				p := ps[r.n(len(ps))]
				if !e.ok(p.name) {
					continue
				}
				e.call(p.name, reflect.ValueOf(p.f), reflect.TypeOf(p.f), 0, "", 0, depth+1)
				if o, ok := e.last(t); ok {
					return e.use(o)
				}
			}
		}
	}
	if o, ok := e.find(t); ok {
		return e.use(o)
	}
	e.lack = true
	return reflect.Zero(t), "zero " + t.String(), 0
}

func (e *engine) use(o obj) (reflect.Value, string, int) {
	e.taint = e.taint || o.bad
	return o.v, o.name, o.w
}

func (e *engine) last(t reflect.Type) (obj, bool) {
	if len(e.pool) == 0 {
		return obj{}, false
	}
	o := e.pool[len(e.pool)-1]
	ok := o.t.AssignableTo(t) && o.w < e.maxW
	return o, ok
}

func (e *engine) anything(bad bool, depth int) (reflect.Value, string, int) {
	r := e.r
	wrap := func(x interface{}) (reflect.Value, string, int) {
		p := reflect.New(anyType).Elem()
		if x != nil {
			p.Set(reflect.ValueOf(x))
		}
		return p, fmt.Sprintf("%#v", x), 0
	}
	if bad {
		s := "x"
		return wrap([]interface{}{nil, math.NaN(), struct{}{}, []byte("ab"), &s, make(chan int), func() {}, map[string]interface{}{"a": 1}, complex(1, 2),
			[]interface{}{}, "", int8(3), uint64(math.MaxUint64), time.Time{}, cypher.Node{}, cypher.SymbolicName{}, cypher.ListLiteral{}, errors.New("e")}[r.n(18)])
	}
	switch r.n(8) {
	case 0:
		return wrap(r.in(1, 9))
	case 1:
		return wrap(1.5)
	case 2:
		return wrap(true)
	case 3, 4:
		return wrap("text")
	case 5:
		return wrap("key")
	}
	v, t, w := e.arg(reflect.TypeOf((*cypher.Expression)(nil)).Elem(), depth+1)
	if v.Kind() == reflect.Interface && v.IsNil() {
		return wrap(nil)
	}
	p := reflect.New(anyType).Elem()
	p.Set(v)
	return p, t, w
}

func (e *engine) ok(name string) bool { return e.allow == nil || e.allow(name) }

// call calls f with made-up arguments and keeps what it returns.
func (e *engine) call(name string, f reflect.Value, ft reflect.Type, skip int, recv string, w int, depth int) {
	var in []reflect.Value
	var l []string
	outer, was := e.lack, e.taint
	e.lack = false
	if depth > 0 {
		e.taint = false
	}
	for i := skip; i < ft.NumIn(); i++ {
		t := ft.In(i)
		if ft.IsVariadic() && i == ft.NumIn()-1 {
			n := e.r.in(0, 3)
			if e.r.p(70) {
				n = e.r.in(1, 2)
			}
			if e.r.p(12) {
				n = e.r.in(3, 9) // slices of other capacities
			}
			n = max(n, e.least)
			entries := t.Elem() == anyType && (strings.Contains(name, "Project") || name == "And") && !e.r.p(25)
			if (strings.HasSuffix(name, "Raw") || t.Elem() == anyType) && !entries {
				n &^= 1
			}
			key := e.r.n(1000)
			for ; n > 0; n-- {
				key++
				if entries && !e.r.p(e.hostile) {
					// names of properties only
					s := fmt.Sprint("p", key)
					in, l = append(in, reflect.ValueOf(s)), append(l, fmt.Sprintf("%q", s))
					continue
				}
				tainted := e.taint
				v, tx, wx := e.arg(t.Elem(), depth)
				if depth == 0 && e.nilAt == len(in) && t.Elem().Kind() == reflect.Interface && t.Elem() != anyType {
					v, tx = reflect.Zero(t.Elem()), "nil"
					e.nilHow, e.taint = fmt.Sprint(name, "#", len(in)), true
				}
				if t.Elem() == anyType && n%2 == 0 && !e.r.p(e.hostile) {
					s := fmt.Sprint("k", key)
					v, tx, wx = reflect.ValueOf(s), fmt.Sprintf("%q", s), 0
					e.taint = tainted
				}
				in, l, w = append(in, v), append(l, tx), w+wx
			}
			continue
		}
		v, tx, wx := e.arg(t, depth)
		if how := fmt.Sprint(name, "#", i-skip); depth == 0 && e.nilAt == i-skip && t.Kind() == reflect.Interface && t.PkgPath() == pkgPath && !nilOK[how] {
			v, tx = reflect.Zero(t), "nil"
			e.nilHow, e.taint = how, true
		}
		in, l, w = append(in, v), append(l, tx), w+wx
	}
	how := name + "(" + strings.Join(l, ", ") + ")"
	if recv != "" {
		how = recv + "." + how
	}
	for i := range in {
		// reflect wants interface arguments to be typed
		t := ft.In(min(i+skip, ft.NumIn()-1))
		if ft.IsVariadic() && i+skip >= ft.NumIn()-1 {
			t = ft.In(ft.NumIn() - 1).Elem()
		}
		if t.Kind() == reflect.Interface && in[i].Type() != t {
			p := reflect.New(t).Elem()
			p.Set(in[i])
			in[i] = p
		}
	}
	lack := e.lack
	e.lack = outer
	defer func() { e.taint = was }()
	if lack && e.hostile == 0 {
		return
	}
	if e.before != nil {
		e.before()
	}
	e.trace = append(e.trace, how)
	e.seen[name]++
	var out []reflect.Value
	if n := ft.NumIn() - 1 - skip; ft.IsVariadic() && len(in) > n && e.r.p(e.spread) {
		l := spreadOf(ft.In(ft.NumIn()-1), in[n:])
		given := in[n:]
		out = f.CallSlice(append(in[:n:n], l.slice))
		for k := range given {
			x := given[k].Interface()
			if e.kept == nil && reflect.DeepEqual(x, x) && !reflect.DeepEqual(x, l.slice.Index(k).Interface()) {
				e.kept = &fault{kind: "slice", msg: name + " changed the slice it was given", detail: fmt.Sprintf("  %s\n  element %d", how, k)}
			}
		}
		e.lent(l, name, how, out, ft)
	} else {
		out = f.Call(in)
	}
	e.trace = e.trace[:len(e.trace)-1]
	for _, v := range out {
		e.put(v, w+1, how)
	}
}

// A loan is a slice, with room behind its elements, that a call was given.
type loan struct {
	slice reflect.Value
	how   string
}

const overwritten = "overwritten"

func spreadOf(t reflect.Type, in []reflect.Value) loan {
	l := reflect.MakeSlice(t, len(in), len(in)+3)
	for k := range in {
		l.Index(k).Set(in[k])
	}
	return loan{slice: l}
}

// lent looks at the slice after the call and uses it for something else: what came of the call must not say anything new.
func (e *engine) lent(l loan, name, how string, out []reflect.Value, ft reflect.Type) {
	l.how = how
	e.shared++
	says := func() (all []string) {
		for k, v := range out {
			t := ft.Out(k)
			if v.Kind() == reflect.Interface {
				v = v.Elem()
			}
			if !v.IsValid() {
				continue
			}
			s := ""
			if f := guard("using the result", func() { s = say(obj{v: v, t: t}) }); f != nil {
				s = f.msg
			}
			all = append(all, s)
		}
		return
	}
	fail := func(what, detail string) {
		if e.kept == nil {
			e.kept = &fault{kind: "slice", msg: name + " " + what, detail: "  " + how + "\n" + detail}
		}
	}
	before := says()
	s := l.slice
	for k := 0; k < s.Len(); k++ {
		v := reflect.Zero(s.Type().Elem())
		switch v.Kind() {
		case reflect.String:
			v = reflect.ValueOf(overwritten)
		case reflect.Interface:
			if v.Type() == anyType {
				v = reflect.ValueOf(overwritten)
			}
		}
		s.Index(k).Set(v)
	}
	if after := says(); !reflect.DeepEqual(before, after) {
		fail("keeps the slice it was given", fmt.Sprintf("  before it was used for something else: %q\n  now: %q", before, after))
	}
	e.loans = append(e.loans, l)
	e.untouched(fail)
}

// untouched: nobody writes into the slices of the caller.
func (e *engine) untouched(fail func(what, detail string)) {
	for _, l := range e.loans {
		s := l.slice
		all := s.Slice3(0, s.Cap(), s.Cap())
		for k := 0; k < s.Cap(); k++ {
			v, ok := all.Index(k), true
			if v.Kind() == reflect.Interface && !v.IsNil() && v.Type() == anyType {
				v = v.Elem()
			}
			if k < s.Len() && v.Kind() == reflect.String {
				ok = v.String() == overwritten
			} else {
				ok = v.IsZero()
			}
			if !ok {
				fail("wrote into a slice of its caller", fmt.Sprintf("  element %d of the slice of %d given to %s", k, s.Len(), l.how))
				return
			}
		}
	}
}

// nilOK are the parameters that are optional.
var nilOK = map[string]bool{"Where#0": true, "RangeWithStep#2": true, "ExpressionWrap#0": true, "NameOrExpression#0": true}

// step makes one call: a function, or a method of a value.
func (e *engine) step() {
	r := e.r
	e.nilAt, e.nilHow = -1, ""
	if r.p(e.nils) {
		e.nilAt = r.n(3)
	}
	if len(e.pool) > 0 && r.p(65) {
		o := e.pool[r.n(len(e.pool))]
		if r.p(50) && len(e.pool) > 6 {
			o = e.pool[len(e.pool)-1-r.n(6)]
		}
		if o.w < e.maxW {
			if ms := methodsOf(o.t); len(ms) > 0 {
				m := ms[r.n(len(ms))]
				if e.ok(m.name) {
					if mv := o.v.MethodByName(m.name); mv.IsValid() {
						e.taint = o.bad && m.name != "WithArgs" // the arguments are replaced
						e.call(m.name, mv, mv.Type(), 0, o.name, o.w, 0)
						if e.twice > 0 && r.p(e.twice) {
							// a second continuation of the same value
							e.taint = o.bad && m.name != "WithArgs"
							e.call(m.name, mv, mv.Type(), 0, o.name, o.w, 0)
						}
						e.taint = false
						return
					}
				}
			}
		}
	}
	f := exported[r.n(len(exported))]
	if e.ok(f.name) && usableSig(reflect.TypeOf(f.f), 0) {
		e.call(f.name, reflect.ValueOf(f.f), reflect.TypeOf(f.f), 0, "", 0, 0)
	}
}

// program is what was called so far.
func (e *engine) program() string {
	t := e.trace
	if len(t) > 80 {
		t = append([]string{"..."}, t[len(t)-80:]...)
	}
	return strings.Join(t, "\n  ")
}

// slice gives the calls that lead to one value.
func (e *engine) slice(names ...string) string {
	need := map[string]bool{}
	for _, n := range names {
		need[n] = true
	}
	var keep []string
	for i := len(e.trace) - 1; i >= 0; i-- {
		l := e.trace[i]
		k := strings.Index(l, " := ")
		name := ""
		if k > 0 {
			name = l[:k]
		}
		if !need[name] && !(name == "" && i == len(e.trace)-1) {
			continue
		}
		keep = append([]string{l}, keep...)
		rest := l[k+1:]
		for j := 0; j < len(rest); j++ {
			if rest[j] == 'v' && (j == 0 || !isWord(rest[j-1])) {
				m := j + 1
				for m < len(rest) && rest[m] >= '0' && rest[m] <= '9' {
					m++
				}
				if m > j+1 {
					need[rest[j:m]] = true
				}
			}
		}
	}
	return strings.Join(keep, "\n  ")
}

func isWord(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '"'
}

// say gives what a value says: the text of a statement made with it, or the error that is reported. The empty
// string means that the value cannot be used in a statement of its own.
func say(o obj) string {
	fin := func(b cypher.BuildableStatement) string {
		st, err := b.Build()
		if err != nil {
			return "error: " + err.Error()
		}
		return sayStatement(st)
	}
	stat := func(t interface{}) bool { return o.t.Implements(reflect.TypeOf(t).Elem()) }
	x := o.v.Interface()
	switch {
	case o.t.Kind() == reflect.Slice:
		var l []string
		for i := 0; i < o.v.Len(); i++ {
			v := o.v.Index(i)
			t := v.Type()
			if v.Kind() == reflect.Interface {
				if v.IsNil() {
					l = append(l, "nil")
					continue
				}
				v = v.Elem()
			}
			l = append(l, say(obj{v: v, t: t}))
		}
		return strings.Join(l, "; ")
	case stat((*cypher.BuildableStatement)(nil)):
		return fin(x.(cypher.BuildableStatement))
	case stat((*cypher.PatternElement)(nil)):
		return fin(cypher.Match(x.(cypher.PatternElement)).ReturningByString("z"))
	case stat((*cypher.Condition)(nil)):
		return fin(cypher.Match(cypher.AnyNodeNamed("zz")).Where(x.(cypher.Condition)).ReturningByString("z"))
	case stat((*cypher.Expression)(nil)):
		return fin(cypher.CypherReturning(x.(cypher.Expression)))
	case stat((*cypher.ExposesReturning)(nil)):
		return fin(x.(cypher.ExposesReturning).ReturningByString("z"))
	case o.t == reflect.TypeOf(cypher.SortItem{}):
		return fin(cypher.CypherReturning(cypher.ASymbolic("z")).OrderBySortItem(x.(cypher.SortItem)))
	case o.t == reflect.TypeOf(cypher.ConditionContainer{}):
		c := x.(cypher.ConditionContainer)
		if g := c.Get(); g != nil {
			return say(obj{v: reflect.ValueOf(g), t: reflect.TypeOf((*cypher.Condition)(nil)).Elem()})
		}
		return "nil"
	case o.t == reflect.TypeOf(cypher.ExpressionContainer{}):
		c := x.(cypher.ExpressionContainer)
		if g := c.Get(); g != nil {
			return say(obj{v: reflect.ValueOf(g), t: reflect.TypeOf((*cypher.Expression)(nil)).Elem()})
		}
		return "nil"
	}
	switch y := x.(type) {
	case cypher.UnionPart, cypher.MatchPhrase, cypher.Where, cypher.Return, cypher.ReturnBody, cypher.Set, cypher.Delete, cypher.Remove,
		cypher.Subquery, cypher.SinglePartQuery, cypher.MultiPartQuery, cypher.UnionQuery, cypher.ProcedureCall, cypher.YieldItems:
		if o.t.Kind() == reflect.Struct {
			return sayStatement(y.(cypher.Statement))
		}
	}
	if stat((*cypher.Statement)(nil)) {
		return sayStatement(x.(cypher.Statement))
	}
	r := reflect.ValueOf(x)
	// steps of a construct that are not a part of a statement yet
	for _, s := range steps {
		if o.t.Implements(s.t) {
			return s.f(r.Interface())
		}
	}
	return ""
}

type step struct {
	t reflect.Type
	f func(x interface{}) string
}

func exprText(x cypher.Expression) string {
	if x == nil {
		return "nil"
	}
	return say(obj{v: reflect.ValueOf(x), t: reflect.TypeOf((*cypher.Expression)(nil)).Elem()})
}

var steps []step

func init() {
	add := func(t interface{}, f func(x interface{}) string) {
		steps = append(steps, step{reflect.TypeOf(t).Elem(), f})
	}
	z := cypher.ASymbolic("z")
	yes := cypher.ASymbolic("y").IsNotNull().Get()
	add((*cypher.OngoingDefinitionWithVariable)(nil), func(x interface{}) string {
		return exprText(x.(cypher.OngoingDefinitionWithVariable).In(z).ReturningDefault())
	})
	add((*cypher.OngoingDefinitionWithList)(nil), func(x interface{}) string {
		return exprText(x.(cypher.OngoingDefinitionWithList).Returning(z))
	})
	add((*cypher.OngoingDefinitionWithoutReturn)(nil), func(x interface{}) string {
		return exprText(x.(cypher.OngoingDefinitionWithoutReturn).Returning(z))
	})
	add((*cypher.PatternComprehensionOngoingDefinitionWithPattern)(nil), func(x interface{}) string {
		return exprText(x.(cypher.PatternComprehensionOngoingDefinitionWithPattern).Returning(z))
	})
	add((*cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere)(nil), func(x interface{}) string {
		return exprText(x.(cypher.PatternComprehensionOngoingDefinitionWithPatternAndWhere).Returning(z))
	})
	add((*cypher.OngoingListBasedPredicateFunction)(nil), func(x interface{}) string {
		return exprText(x.(cypher.OngoingListBasedPredicateFunction).In(z).Where(yes))
	})
	add((*cypher.OngoingListBasedPredicateFunctionWithList)(nil), func(x interface{}) string {
		return exprText(x.(cypher.OngoingListBasedPredicateFunctionWithList).Where(yes))
	})
	add((*cypher.OngoingDefinitionWithName)(nil), func(x interface{}) string {
		return sayB(cypher.Match(x.(cypher.OngoingDefinitionWithName).DefinedBy(cypher.AnyNodeNamed("q").RelationshipTo(cypher.AnyNode()))).ReturningByString("z"))
	})
	add((*cypher.OngoingShortestPathDefinitionWithName)(nil), func(x interface{}) string {
		return sayB(cypher.Match(x.(cypher.OngoingShortestPathDefinitionWithName).DefinedBy(cypher.AnyNodeNamed("q").RelationshipTo(cypher.AnyNode()))).ReturningByString("z"))
	})
	add((*cypher.OngoingUnwind)(nil), func(x interface{}) string {
		return sayB(x.(cypher.OngoingUnwind).As("u").ReturningByString("z"))
	})
	add((*cypher.OngoingMergeAction)(nil), func(x interface{}) string {
		return sayB(x.(cypher.OngoingMergeAction).Set(cypher.AnyNodeNamed("q").Property("p").To(z)))
	})
	add((*cypher.OngoingInQueryCallWithoutArguments)(nil), func(x interface{}) string {
		return sayB(x.(cypher.OngoingInQueryCallWithoutArguments).YieldString("y").ReturningByString("z"))
	})
	add((*cypher.OngoingOrderDefinition)(nil), func(x interface{}) string {
		return sayB(x.(cypher.OngoingOrderDefinition).Descending().ReturningByString("z"))
	})
	add((*whenThen)(nil), func(x interface{}) string {
		c := x.(whenThen).Then(z)
		return exprText(c)
	})
}

type whenThen interface {
	Then(cypher.Expression) cypher.CaseEnding
}

func sayB(b cypher.BuildableStatement) string {
	st, err := b.Build()
	if err != nil {
		return "error: " + err.Error()
	}
	return sayStatement(st)
}

func sayStatement(st cypher.Statement) string {
	if st == nil {
		return "no statement"
	}
	t, err := cypher.NewRenderer().Render(st)
	if err != nil {
		return "error: " + err.Error()
	}
	if strings.Contains(t, "_") {
		// names that each renderer makes up for itself
		t = madeUp.ReplaceAllString(t, "madeUp_$1")
	}
	return t
}

var madeUp = regexp.MustCompile(`[0-9a-v]{20}_([0-9]+)`)
