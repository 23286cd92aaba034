package main

import (
	"fmt"
	"runtime/debug"
	"strings"

	"github.com/manhcuongbk56/cypher-go-dsl"
)

// fault is a violation the monitors saw.
type fault struct {
	kind   string // panic, build, render, parse, meaning, unstable, ...
	msg    string
	query  string
	detail string
}

func (f *fault) String() string {
	s := f.kind + ": " + f.msg
	if f.query != "" {
		s += "\n  rendered: " + f.query
	}
	if f.detail != "" {
		s += "\n" + f.detail
	}
	return s
}

// guard runs f and turns a panic into a fault.
func guard(what string, f func()) (ft *fault) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				ft = &fault{kind: "build", msg: "inner statement: " + a.err.Error()}
				return
			}
			st := string(debug.Stack())
			ft = &fault{kind: "panic", msg: fmt.Sprintf("%s: %v", what, r), detail: trimStack(st)}
		}
	}()
	f()
	return nil
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	var out []string
	for _, x := range l {
		if strings.Contains(x, "cypher-go-dsl") || strings.Contains(x, "/repo/") {
			out = append(out, x)
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func render(st cypher.Statement) (s string, err error, ft *fault) {
	ft = guard("Render", func() { s, err = cypher.NewRenderer().Render(st) })
	return
}

// diff shows where two dumps part.
func diff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(s string) string {
		a, b := i-80, i+160
		if a < 0 {
			a = 0
		}
		if b > len(s) {
			b = len(s)
		}
		return s[a:b]
	}
	return "  expected: ..." + cut(want) + "\n  read:     ..." + cut(got)
}

// meaning parses the text and compares it with what was built.
func meaning(text string, n *N) *fault {
	tree, err := parseStatement(text)
	if err != nil {
		return &fault{kind: "parse", msg: err.Error(), query: text}
	}
	want, _ := resolve(n)
	w, g := want.String(), tree.String()
	if w != g {
		return &fault{kind: "meaning", msg: "the text says something else than what was built", query: text, detail: diff(w, g)}
	}
	return nil
}

// built checks one result: Build, Render, the grammar and the meaning.
func built(r Result) (text string, ft *fault) {
	var st cypher.Statement
	var err error
	if ft = guard("Build", func() { st, err = r.B.Build() }); ft != nil {
		return
	}
	if err != nil {
		return "", &fault{kind: "build", msg: err.Error()}
	}
	if st == nil {
		return "", &fault{kind: "build", msg: "no statement and no error"}
	}
	text, err, ft = render(st)
	if ft != nil {
		return
	}
	if err != nil {
		return "", &fault{kind: "render", msg: err.Error(), detail: "  built: " + r.N.String()}
	}
	return text, meaning(text, r.N)
}

// trimHarness keeps the lines of a stack that tell where in the generator it was.
func trimHarness(s string) string {
	var out []string
	for _, x := range strings.Split(s, "\n") {
		if k := strings.LastIndexByte(x, '/'); strings.HasPrefix(x, "\t") && k > 0 {
			out = append(out, strings.SplitN(x[k+1:], " ", 2)[0])
		}
	}
	return strings.Join(out, " < ")
}
