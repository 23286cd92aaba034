// mutate lists small changes of the Go files of a directory as JSON lines: {"file","line","old","new","kind","from","to"}.
// It is a development tool: it is used to see which changes no check notices.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type mutant struct {
	File     string `json:"file"`
	Line     int    `json:"line"`
	From, To int
	Old, New string
	Kind     string
	Func     string
}

var out []mutant

func main() {
	dir := os.Args[1]
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, _ := os.ReadFile(f)
		do(f, src)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].File < out[j].File || out[i].File == out[j].File && out[i].From < out[j].From })
	seen := map[string]bool{}
	e := json.NewEncoder(os.Stdout)
	for _, m := range out {
		k := fmt.Sprint(m.File, m.From, m.To, m.New)
		if m.Old == m.New || seen[k] {
			continue
		}
		seen[k] = true
		e.Encode(m)
	}
}

func do(file string, src []byte) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	fn := ""
	add := func(kind string, from, to token.Pos, new string) {
		a, b := off(from), off(to)
		out = append(out, mutant{filepath.Base(file), fset.Position(from).Line, a, b, string(src[a:b]), new, kind, fn})
	}
	rep := func(kind string, n ast.Node, new string) { add(kind, n.Pos(), n.End(), new) }
	var params []*ast.Ident
	sibling := map[string][]string{
		"And": {"Or", "Xor"}, "Or": {"And", "Xor"}, "Xor": {"Or"}, "Match": {"OptionalMatch"}, "OptionalMatch": {"Match"}, "minimum": {"maximum"}, "maximum": {"minimum"},
		"skip": {"limit"}, "limit": {"skip"}, "left": {"right"}, "right": {"left"}, "RelationshipTo": {"RelationshipFrom", "RelationshipBetween"}, "RelationshipFrom": {"RelationshipTo"},
		"RelationshipBetween": {"RelationshipTo"}, "With": {"WithDistinct"}, "WithDistinct": {"With"}, "Returning": {"ReturningDistinct"}, "ReturningDistinct": {"Returning"},
		"Delete": {"DetachDelete"}, "DetachDelete": {"Delete"}, "Ascending": {"Descending"}, "Descending": {"Ascending"}, "symbolLeft": {"symbolRight"}, "symbolRight": {"symbolLeft"},
		"Set": {"Remove"}, "escapeName": {"escapeIdentifier", ""}, "escapeIdentifier": {"escapeName", ""}, "LTR": {"RTL", "UNI"}, "RTL": {"LTR"}, "UNI": {"LTR"},
	}
	// constants declared together are each other's siblings
	consts := map[string]string{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && (g.Tok == token.CONST || g.Tok == token.VAR) {
			prev := ""
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if prev != "" {
						consts[n.Name] = prev
					}
					prev = n.Name
				}
			}
		}
	}
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
			params = nil
			if x.Recv != nil {
				for _, p := range x.Recv.List {
					params = append(params, p.Names...)
				}
			}
			for _, p := range x.Type.Params.List {
				params = append(params, p.Names...)
			}
			if x.Recv != nil && len(x.Recv.List) == 1 {
				t := text(x.Recv.List[0].Type)
				if !strings.HasPrefix(t, "*") && strings.Contains(text(x), "return") {
					add("pointer receiver", x.Recv.List[0].Type.Pos(), x.Recv.List[0].Type.End(), "*"+t)
				} else if strings.HasPrefix(t, "*") {
					add("value receiver", x.Recv.List[0].Type.Pos(), x.Recv.List[0].Type.End(), t[1:])
				}
			}
		case *ast.ExprStmt:
			rep("delete statement", x, "")
		case *ast.IncDecStmt:
			rep("delete statement", x, "")
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN {
				rep("delete statement", x, "")
			}
			if len(x.Rhs) == 1 {
				if c, ok := x.Rhs[0].(*ast.CallExpr); ok && len(c.Args) > 0 {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && len(c.Args) == 2 && c.Ellipsis == token.NoPos {
						rep("prepend", c, "append("+text(c.Args[0])+"[:0:0], append([]"+"T{"+text(c.Args[1])+"}, "+text(c.Args[0])+"...)...)")
						rep("overwrite", c, "append("+text(c.Args[0])+"[:0:0], "+text(c.Args[1])+")")
					}
				}
			}
		case *ast.DeferStmt:
			rep("delete statement", x, "")
		case *ast.IfStmt:
			if x.Else == nil && x.Init == nil {
				rep("delete if", x, "")
			}
			if x.Else != nil {
				add("delete else", x.Body.End(), x.Else.End(), "")
			}
			if x.Init == nil {
				rep("condition true", x.Cond, "true || "+paren(text(x.Cond)))
				rep("condition negated", x.Cond, "!("+text(x.Cond)+")")
			}
		case *ast.BinaryExpr:
			swap := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+", token.REM: "/"}
			if s, ok := swap[x.Op]; ok && x.Op != token.ADD || ok && !strings.Contains(text(x), "\"") {
				add("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
			}
			if x.Op == token.LAND || x.Op == token.LOR || x.Op == token.ADD {
				rep("left operand only", x, text(x.X))
				rep("right operand only", x, text(x.Y))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				rep("not dropped", x, text(x.X))
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				rep("integer", x, x.Value+"+1")
				if x.Value != "0" {
					rep("integer", x, x.Value+"-1")
				}
			case token.STRING:
				if len(x.Value) > 2 && !strings.Contains(fn, "Error") {
					rep("string", x, `""`)
					if strings.HasPrefix(x.Value, "\" ") || strings.HasSuffix(x.Value, " \"") {
						rep("string", x, `"`+strings.Trim(x.Value, "\" ")+`"`)
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				rep("boolean", x, "false")
			} else if x.Name == "false" {
				rep("boolean", x, "true")
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				if a, b := text(x.Args[i]), text(x.Args[i+1]); a != b {
					add("arguments swapped", x.Args[i].Pos(), x.Args[i+1].End(), b+", "+a)
				}
			}
			for i, a := range x.Args {
				id, ok := a.(*ast.Ident)
				if ok {
					for _, p := range params {
						if p.Name != id.Name && p.Name != "_" {
							rep("other parameter", id, p.Name)
						}
					}
				}
				if i == len(x.Args)-1 && x.Ellipsis != token.NoPos {
					add("first dropped", a.Pos(), a.End(), text(a)+"[min(1,len("+text(a)+")):]")
					add("last dropped", a.Pos(), a.End(), text(a)+"[:max(0,len("+text(a)+")-1)]")
				}
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if _, isID := s.X.(*ast.Ident); isID && len(x.Args) > 0 {
					rep("call replaced by receiver", x, text(s.X))
				} else if _, isCall := s.X.(*ast.CallExpr); isCall {
					rep("call dropped from chain", x, text(s.X))
				}
				if c, ok := consts[s.Sel.Name]; ok {
					rep("sibling", s.Sel, c)
				}
			}
			if len(x.Args) == 1 && x.Ellipsis == token.NoPos {
				rep("call replaced by argument", x, text(x.Args[0]))
			}
		case *ast.CompositeLit:
			for i, el := range x.Elts {
				kv, ok := el.(*ast.KeyValueExpr)
				if !ok {
					continue
				}
				end := kv.End()
				if off(end) < len(src) && src[off(end)] == ',' {
					end++
				}
				if fset.Position(x.Lbrace).Line != fset.Position(x.Rbrace).Line || i < len(x.Elts)-1 {
					add("field dropped", kv.Pos(), end, "")
				}
			}
		case *ast.RangeStmt:
			rep("range without first", x.X, text(x.X)+"[min(1,len("+text(x.X)+")):]")
			rep("range without last", x.X, text(x.X)+"[:max(0,len("+text(x.X)+")-1)]")
		case *ast.SliceExpr:
			if x.Slice3 {
				rep("slice keeps capacity", x, text(x.X))
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 && len(params) > 0 {
				if _, isCall := x.Results[0].(*ast.CallExpr); isCall {
					rep("return receiver", x.Results[0], params[0].Name)
				}
			}
		case *ast.BranchStmt:
			rep("delete statement", x, "")
		case *ast.CaseClause:
			if len(x.Body) > 0 {
				add("case emptied", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
			}
		}
		return true
	}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			ast.Inspect(x, walk)
			ast.Inspect(x.Body, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					for _, s := range sibling[id.Name] {
						if s == "" {
							continue
						}
						rep("sibling", id, s)
					}
					if c, ok := consts[id.Name]; ok {
						rep("sibling", id, c)
					}
				}
				return true
			})
		case *ast.GenDecl:
			if x.Tok == token.VAR || x.Tok == token.CONST {
				fn = "declaration"
				params = nil
				ast.Inspect(x, walk)
			}
		}
	}
}

func paren(s string) string { return "(" + s + ")" }
