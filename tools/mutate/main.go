// Command mutate lists small changes of a Go file: one JSON line {pos, end, text, what} each.
// It is used to measure the checks (see tools/mutants.py), not by them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	Pos, End   int
	Line       int
	Text, What string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	out := json.NewEncoder(os.Stdout)
	emit := func(pos, end token.Pos, text, what string) {
		p, e := fset.Position(pos), fset.Position(end)
		out.Encode(change{p.Offset, e.Offset, p.Line, text, fmt.Sprintf("%s -> %s (%s)", src[p.Offset:e.Offset], text, what)})
	}
	str := func(n ast.Node) string { return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset]) }
	swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec, *ast.StructType:
			return false
		case *ast.BinaryExpr:
			for _, s := range swap[n.Op] {
				emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "operator")
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				emit(n.Pos(), n.End(), str(n.X), "operand dropped")
				emit(n.Pos(), n.End(), str(n.Y), "operand dropped")
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT || n.Op == token.SUB {
				emit(n.Pos(), n.End(), str(n.X), "operator dropped")
			}
		case *ast.IfStmt:
			emit(n.Cond.Pos(), n.Cond.End(), "!("+str(n.Cond)+")", "negated")
			emit(n.Cond.Pos(), n.Cond.End(), "("+str(n.Cond)+") && false", "never")
			if n.Else != nil {
				emit(n.Else.Pos(), n.Else.End(), "{}", "else dropped")
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				emit(n.Pos(), n.End(), "("+n.Value+"+1)", "literal")
				emit(n.Pos(), n.End(), "("+n.Value+"-1)", "literal")
			case token.STRING:
				s, _ := strconv.Unquote(n.Value)
				if s == "" {
					emit(n.Pos(), n.End(), `"x"`, "literal")
				} else {
					emit(n.Pos(), n.End(), `""`, "literal")
					emit(n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]), "literal")
				}
			}
		case *ast.ExprStmt:
			emit(n.Pos(), n.End(), "", "statement dropped")
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				emit(n.Pos(), n.End(), "", "statement dropped")
			}
			if n.Tok == token.ADD_ASSIGN {
				emit(n.TokPos, n.TokPos+2, "=", "operator")
			}
		case *ast.IncDecStmt, *ast.DeferStmt:
			emit(n.Pos(), n.End(), "", "statement dropped")
		case *ast.BranchStmt:
			switch n.Tok {
			case token.CONTINUE:
				emit(n.Pos(), n.End(), "break", "branch")
				emit(n.Pos(), n.End(), "", "branch dropped")
			case token.BREAK:
				emit(n.Pos(), n.End(), "continue", "branch")
				emit(n.Pos(), n.End(), "", "branch dropped")
			}
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				switch s := str(r); {
				case s == "err":
					emit(r.Pos(), r.End(), "nil", "error lost")
				case s == "true":
					emit(r.Pos(), r.End(), "false", "result")
				case s == "false":
					emit(r.Pos(), r.End(), "true", "result")
				}
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				emit(n.Low.Pos(), n.Low.End(), str(n.Low)+"+1", "bound")
			}
			if n.High != nil {
				emit(n.High.Pos(), n.High.End(), str(n.High)+"-1", "bound")
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(n.Args); i++ {
				a, b := n.Args[i], n.Args[i+1]
				if str(a) != str(b) {
					emit(a.Pos(), b.End(), str(b)+", "+str(a), "arguments swapped")
				}
			}
		case *ast.CaseClause:
			if len(n.Body) > 0 {
				emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "case emptied")
			}
		}
		return true
	})
}
