// Command mutate lists single-point mutations of Go files as JSON: {file, off, end, repl, line, op}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File     string `json:"file"`
	Off, End int
	Repl     string
	Line     int
	Op       string
}

func main() {
	var out []mut
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(a, b token.Pos, repl, op string) {
			out = append(out, mut{f, off(a), off(b), repl, fset.Position(a).Line, op})
		}
		inErr := func(c *ast.CallExpr) bool {
			s, ok := c.Fun.(*ast.SelectorExpr)
			return ok && (strings.Contains(strings.ToLower(s.Sel.Name), "errorf") || s.Sel.Name == "New" && text(s.X) == "errors" || s.Sel.Name == "NewError")
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec, *ast.Field:
				return false
			case *ast.CallExpr:
				if inErr(x) {
					return false
				}
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
					add(x.Pos(), x.End(), text(x.Args[0]), "append dropped")
				}
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "panic" {
					return false
				}
			case *ast.BinaryExpr:
				ops := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.AND: {"|"}, token.OR: {"&"}, token.REM: {"*"}, token.SHL: {">>"}}
				for _, r := range ops[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, x.Op.String()+" to "+r)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x.Pos(), x.End(), text(x.X), "only left of "+x.Op.String())
					add(x.Pos(), x.End(), text(x.Y), "only right of "+x.Op.String())
				}
				if x.Op == token.ADD {
					add(x.Pos(), x.End(), text(x.X), "only left of +")
					add(x.Pos(), x.End(), text(x.Y), "only right of +")
				}
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "true || "+"("+text(x.Cond)+")", "if true")
				add(x.Cond.Pos(), x.Cond.End(), "false && "+"("+text(x.Cond)+")", "if false")
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x.Pos(), x.X.Pos(), "", "drop !")
				}
			case *ast.IncDecStmt:
				r := "--"
				if x.Tok == token.DEC {
					r = "++"
				}
				add(x.TokPos, x.TokPos+2, r, "incdec")
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					add(x.Pos(), x.Pos()+8, "break", "continue to break")
				}
				if x.Tok == token.BREAK && x.Label == nil {
					add(x.Pos(), x.Pos()+5, "continue", "break to continue")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
						if v > 0 {
							add(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1")
						}
					}
				case token.STRING:
					if len(x.Value) > 2 {
						add(x.Pos(), x.End(), `""`, "empty string")
						if x.Value[0] == '"' && len(x.Value) > 3 && x.Value[len(x.Value)-2] != '\\' && x.Value[len(x.Value)-3] != '\\' {
							add(x.Pos(), x.End(), x.Value[:len(x.Value)-2]+`"`, "string shorter")
						}
					}
				case token.CHAR:
					add(x.Pos(), x.End(), "'\\x00'", "char")
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false", "true to false")
				} else if x.Name == "false" {
					add(x.Pos(), x.End(), "true", "false to true")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					add(x.Low.Pos(), x.Low.End(), "", "slice low")
				}
				if x.High != nil && x.Max == nil {
					add(x.High.Pos(), x.High.End(), "", "slice high")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					stmtMut(s, add, text)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					stmtMut(s, add, text)
				}
				if len(x.List) > 1 {
					for i, e := range x.List {
						if i > 0 {
							add(x.List[i-1].End(), e.End(), "", "case value dropped")
						} else {
							add(e.Pos(), x.List[1].Pos(), "", "case value dropped")
						}
					}
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if _, ok := e.(*ast.KeyValueExpr); ok {
						end := e.End()
						if src[off(end)] == ',' {
							end++
						}
						add(e.Pos(), end, "", "element dropped")
					}
				}
			}
			return true
		})
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func stmtMut(s ast.Stmt, add func(a, b token.Pos, repl, op string), text func(ast.Node) string) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		add(s.Pos(), s.End(), "", "statement dropped")
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			r := ""
			for i, v := range x.Rhs {
				if i > 0 {
					r += "; "
				}
				r += "_ = " + text(v)
			}
			if len(x.Lhs) == len(x.Rhs) {
				add(s.Pos(), s.End(), r, "assignment dropped")
			}
		}
	case *ast.ReturnStmt:
		for _, v := range x.Results {
			if id, ok := v.(*ast.Ident); ok && id.Name == "err" {
				add(v.Pos(), v.End(), "error(nil)", "error swallowed")
			}
		}
	}
}
