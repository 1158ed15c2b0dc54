// mutgen lists mutations of Go files: one JSON object per line with file, offset, old and new text.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"regexp"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	Old  string `json:"old"`
	New  string `json:"new"`
	Kind string `json:"kind"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		seen := map[string]bool{}
		emit := func(kind string, from, to token.Pos, new string) {
			m := mut{name, fset.Position(from).Line, off(from), string(src[off(from):off(to)]), new, kind}
			key := fmt.Sprint(m.Off, m.Old, m.New)
			if m.Old != m.New && !seen[key] {
				seen[key] = true
				enc.Encode(m)
			}
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ops := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				for _, o := range ops[n.Op] {
					emit("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit("drop", n.Pos(), n.End(), text(n.X))
					emit("drop", n.Pos(), n.End(), text(n.Y))
				}
			case *ast.IfStmt:
				emit("if", n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")")
				emit("if", n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
				emit("if", n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")")
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit("not", n.Pos(), n.End(), text(n.X))
				}
				if n.Op == token.SUB {
					emit("neg", n.Pos(), n.End(), text(n.X))
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					stmt(s, emit, text)
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					stmt(s, emit, text)
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
					emit("append", n.Pos(), n.End(), text(n.Args[0]))
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 1 {
					if x, ok := s.X.(*ast.Ident); ok && x.Name == "strings" {
						emit("call", n.Pos(), n.End(), text(n.Args[0]))
					}
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 0 {
					emit("call", n.Pos(), n.End(), text(s.X))
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					swap := map[string]string{"Before": "After", "After": "Before", "HasPrefix": "HasSuffix", "Add": "Sub", "Mul": "Add", "Quo": "Div", "Div": "Quo", "TrimSpace": "Clone", "Index": "LastIndex", "LastIndex": "Index", "Stable": "Sort", "ToUpper": "Clone", "ToLower": "Clone"}
					if w := swap[s.Sel.Name]; w != "" {
						emit("name", s.Sel.Pos(), s.Sel.End(), w)
					}
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					switch t := text(r); t {
					case "true":
						emit("ret", r.Pos(), r.End(), "false")
					case "false":
						emit("ret", r.Pos(), r.End(), "true")
					}
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit("int", n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int", n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				}
				if n.Kind == token.STRING && n.Value[0] == '`' && regexp.MustCompile(`\\[a-zA-Z]|\[[^]]+\]|[)][?*]`).MatchString(n.Value) {
					regex(n, emit)
				}
			}
			return true
		})
	}
}

func regex(n *ast.BasicLit, emit func(kind string, from, to token.Pos, new string)) {
	v := n.Value
	for i := 1; i < len(v)-1; i++ {
		at := n.Pos() + token.Pos(i)
		if v[i-1] == '\\' {
			continue
		}
		switch v[i] {
		case '*':
			emit("re", at, at+1, "+")
		case '+':
			emit("re", at, at+1, "*")
			emit("re", at, at+1, "")
		case '?':
			if v[i-1] != '(' {
				emit("re", at, at+1, "")
			}
		case '^', '$':
			if v[i-1] != '[' {
				emit("re", at, at+1, "")
			}
		case '|':
			emit("re", at, at+1, "")
		case '\\':
			if c := v[i+1]; strings.ContainsRune("sSwWdD", rune(c)) {
				emit("re", at, at+2, map[byte]string{'s': `\t`, 'S': `\w`, 'w': `\d`, 'd': `\w`}[c])
			}
		}
	}
}

func stmt(s ast.Stmt, emit func(kind string, from, to token.Pos, new string), text func(ast.Node) string) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		emit("del", s.Pos(), s.End(), "")
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit("del", s.Pos(), s.End(), "")
		} else if len(x.Lhs) > 0 {
			// compiles only where the name exists already
		}
	case *ast.BranchStmt:
		emit("del", s.Pos(), s.End(), "")
		if x.Tok == token.CONTINUE {
			emit("branch", s.Pos(), s.End(), "break")
		} else if x.Tok == token.BREAK {
			emit("branch", s.Pos(), s.End(), "continue")
		}
	case *ast.ReturnStmt:
		emit("del", s.Pos(), s.End(), "")
	case *ast.RangeStmt:
	case *ast.IfStmt:
		if x.Else != nil {
			emit("else", x.Body.End(), x.End(), "")
		}
	}
}
