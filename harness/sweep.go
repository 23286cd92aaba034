package main

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
)

// A maker gives a value of a static type: a function, or a method of a value of another type.
type maker struct {
	fn   *apiFunc
	recv reflect.Type
	name string
}

type fork struct {
	recv reflect.Type
	m    apiMethod
	then string // the method that leads back to where the first can be called, if that takes two
}

var (
	reachOnce sync.Once
	makers    map[reflect.Type][]maker
	distTo    map[reflect.Type]int
	forks     []fork
	plain     []fork // of structs
	grow      []fork // that give a value of the same type
	round     []fork // that take two calls to be where the same can be called
)

// reach finds the static types that calls of the API lead to, and all their methods.
func reach() {
	makers, distTo = map[reflect.Type][]maker{}, map[reflect.Type]int{}
	var queue []reflect.Type
	found := func(t reflect.Type, d int, m maker) {
		if _, ok := distTo[t]; !ok {
			distTo[t] = d
			queue = append(queue, t)
		}
		if d <= distTo[t]+1 {
			makers[t] = append(makers[t], m)
		}
	}
	for i := range exported {
		f := &exported[i]
		ft := reflect.TypeOf(f.f)
		if stable(f.name) && usableSig(ft, 0) && ft.NumOut() > 0 {
			found(ft.Out(0), 0, maker{fn: f})
		}
	}
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		if b := t; b.PkgPath() != pkgPath {
			continue
		}
		for _, m := range methodsOf(t) {
			if !stable(m.name) {
				continue
			}
			forks = append(forks, fork{recv: t, m: m})
			if m.sig.NumOut() > 0 {
				found(m.sig.Out(0), distTo[t]+1, maker{recv: t, name: m.name})
			}
		}
	}
	sort.Slice(forks, func(a, b int) bool {
		if forks[a].m.name != forks[b].m.name {
			return forks[a].m.name < forks[b].m.name
		}
		return forks[a].recv.String() < forks[b].recv.String()
	})
	for _, f := range forks {
		if f.recv.Kind() == reflect.Struct {
			plain = append(plain, f)
			if f.m.sig.NumOut() > 0 && f.m.sig.Out(0) == f.recv {
				grow = append(grow, f)
			}
		}
	}
	rounds()
}

// rounds finds pairs of methods that lead back, like WHEN and THEN; those of types with few methods come often.
func rounds() {
	type way struct{ a, b string }
	ways := map[way][]fork{}
	for _, f := range forks {
		if f.m.sig.NumOut() == 0 {
			continue
		}
		u := f.m.sig.Out(0)
		if u.PkgPath() != pkgPath {
			continue
		}
		for _, m := range methodsOf(u) {
			if m.name == f.m.name || !stable(m.name) || m.sig.NumOut() == 0 || m.sig.Out(0).PkgPath() != pkgPath {
				continue
			}
			if _, direct := u.MethodByName(f.m.name); direct {
				continue
			}
			for _, back := range methodsOf(m.sig.Out(0)) {
				if back.name == f.m.name {
					w := way{f.m.name, m.name}
					ways[w] = append(ways[w], fork{f.recv, f.m, m.name})
				}
			}
		}
	}
	var names []way
	for w := range ways {
		names = append(names, w)
	}
	sort.Slice(names, func(a, b int) bool {
		return names[a].a < names[b].a || names[a].a == names[b].a && names[a].b < names[b].b
	})
	for k := 0; k < 6; k++ {
		for _, w := range names {
			round = append(round, ways[w][k%len(ways[w])])
		}
	}
}

// make obtains a value of exactly this static type.
func (e *engine) make(t reflect.Type, depth int) (obj, bool) {
	ms := makers[t]
	for try := 0; try < 4 && len(ms) > 0; try++ {
		m := ms[e.r.n(len(ms))]
		if m.fn != nil {
			e.call(m.fn.name, reflect.ValueOf(m.fn.f), reflect.TypeOf(m.fn.f), 0, "", 0, 1)
		} else if depth > 0 {
			if distTo[m.recv] > distTo[t] && e.r.p(70) {
				continue
			}
			o, ok := e.make(m.recv, depth-1)
			if !ok || !e.method(o, m.name) {
				continue
			}
		}
		if n := len(e.pool); n > 0 && e.pool[n-1].t == t {
			return e.pool[n-1], true
		}
	}
	return obj{}, false
}

// method calls a method; the result, if it is a value of the package, is the last of the pool.
func (e *engine) method(o obj, name string) bool {
	mv := o.v.MethodByName(name)
	if !mv.IsValid() || o.v.Kind() == reflect.Ptr && o.v.IsNil() {
		return false
	}
	n := len(e.pool)
	e.call(name, mv, mv.Type(), 0, o.name, o.w, 1)
	return len(e.pool) > n
}

// sweep takes one method of one type, lets a value grow by calling it some times, and then calls it twice on the
// same value: whatever was obtained before has to say the same afterwards.
func (c *C) sweep(i uint64, k int) *fault {
	reachOnce.Do(reach)
	f := forks[k/4%len(forks)]
	if k%2 == 0 {
		f = plain[k/4%len(plain)]
		if k%4 == 0 {
			f = grow[k/4%len(grow)]
		}
	} else if k%4 == 1 {
		f = round[k/4%len(round)]
	}
	e := newEngine(c.rng(i, fmt.Sprint("sweep", k)), 0)
	e.allow = stable
	var ft *fault
	label := f.recv.String() + "." + f.m.name
	if f.then != "" {
		label += "." + f.then
	}
	step := func(o obj) bool {
		if !e.method(o, f.m.name) {
			return false
		}
		if f.then == "" {
			return true
		}
		return e.method(e.pool[len(e.pool)-1], f.then)
	}
	skip := func() *fault {
		c.hit("sweep.skipped")
		return nil
	}
	var o obj
	ok := false
	for try := 0; try < 5 && !ok; try++ {
		if g := guard("a call", func() { o, ok = e.make(f.recv, 7) }); g != nil {
			return skip()
		}
	}
	if !ok {
		c.hit("sweep.no receiver")
		return nil
	}
	chain := []obj{o}
	for n := e.r.n(7); n > 0; n-- {
		done := true
		if g := guard("a call", func() { done = !step(o) }); g != nil {
			return skip()
		}
		if done {
			break
		}
		next := e.pool[len(e.pool)-1]
		if !next.v.MethodByName(f.m.name).IsValid() {
			break
		}
		o = next
		chain = append(chain, o)
	}
	says := func() (l []string) {
		for _, x := range chain {
			if ft != nil {
				return nil
			}
			x := x
			ft = guard("using "+x.name, func() { l = append(l, say(x)) })
		}
		return
	}
	forksMade := 0
	var was []string
	for n := 0; n < 3; n++ {
		now := says()
		if ft != nil {
			return skip()
		}
		for j := range was {
			c.hit("values compared")
			if was[j] != now[j] {
				return &fault{kind: "changed", msg: fmt.Sprintf("what %s says has changed when %s was called", chain[j].name, label), query: was[j], detail: "  now:      " + now[j] + "\n  " + e.program()}
			}
		}
		was = now
		if n == 2 {
			break
		}
		if g := guard("a call", func() { ok = step(o) }); g != nil {
			return skip()
		}
		if ok {
			forksMade++
			chain = append(chain, e.pool[len(e.pool)-1])
		}
	}
	c.hit("forked." + f.m.name)
	c.hit("sweeps")
	for k, v := range e.seen {
		c.stats["calls"] += v
		c.hit("called." + k)
	}
	c.distinct(label+fmt.Sprint(len(chain)), forksMade == 2)
	if len(was) > 0 {
		c.sample(was[0])
	}
	return nil
}
