// Command instr writes instrumented copies of packages and the overlay entries for them:
// a call before every statement, package sync replaced, and functions that bring package
// variables back to their initial values.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	pos, end int
	text     string
}

func main() {
	out, overlay, repo := os.Args[1], os.Args[2], os.Args[3]
	repl := struct{ Replace map[string]string }{map[string]string{}}
	if b, err := os.ReadFile(overlay); err == nil {
		check(json.Unmarshal(b, &repl))
	}
	n := 0
	check(filepath.WalkDir(repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if path != repo && (d.Name() == "cmd" || d.Name() == "testdata" || strings.HasPrefix(d.Name(), ".") || strings.HasPrefix(d.Name(), "_")) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		check(err)
		res, err := instrument(path, src)
		check(err)
		n++
		dst := filepath.Join(out, fmt.Sprintf("%d_%s", n, d.Name()))
		check(os.WriteFile(dst, res, 0o600))
		repl.Replace[path] = dst
		return nil
	}))
	b, _ := json.Marshal(repl)
	check(os.WriteFile(overlay, b, 0o600))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func instrument(path string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	generated := ast.IsGenerated(f)
	var edits []edit
	add := func(pos, end int, text string) { edits = append(edits, edit{pos, end, text}) }
	add(off(f.Name.End()), off(f.Name.End()), `; import vsched "verif/vsched"`)
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			text := `"verif/vsync"`
			if im.Name == nil {
				text = "sync " + text
			}
			add(off(im.Path.Pos()), off(im.Path.End()), text)
		}
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(off(s.Pos()), off(s.Pos()), point())
		}
	}
	skip := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			skip[n.Body] = true
		case *ast.TypeSwitchStmt:
			skip[n.Body] = true
		case *ast.SelectStmt:
			skip[n.Body] = true
		case *ast.FuncDecl:
			if generated && n.Body != nil { // one point per function of generated code
				add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, point())
				return false
			}
		case *ast.BlockStmt:
			if !skip[n] {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.GoStmt:
			add(off(n.Go), off(n.Call.Pos()), "vsched.Go(func() { ")
			add(off(n.End()), off(n.End()), " })")
		}
		return true
	})
	var tail strings.Builder
	var inits []string
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || fd.Name.Name != "init" || fd.Body == nil {
			continue
		}
		name := fmt.Sprintf("verifInit_%d_%s", len(inits), ident(filepath.Base(path)))
		inits = append(inits, name)
		add(off(fd.Name.Pos()), off(fd.Name.End()), name)
		fmt.Fprintf(&tail, "\nfunc init() { %s() }", name)
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].pos < edits[j].pos })
	render := func(from, to int) string {
		var b strings.Builder
		at := from
		for _, e := range edits {
			if e.pos < from || e.end > to || e.pos < at {
				continue
			}
			b.Write(src[at:e.pos])
			b.WriteString(e.text)
			at = e.end
		}
		b.Write(src[at:to])
		return b.String()
	}
	var reset strings.Builder
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			var names []string
			blank := true
			for _, n := range vs.Names {
				names = append(names, n.Name)
				blank = blank && n.Name == "_"
			}
			if blank || embedded(gd.Doc) || embedded(vs.Doc) {
				continue
			}
			if len(vs.Values) > 0 {
				fmt.Fprintf(&reset, "%s = %s\n", strings.Join(names, ", "), render(off(vs.Values[0].Pos()), off(vs.Values[len(vs.Values)-1].End())))
				continue
			}
			for _, n := range names {
				if n != "_" {
					fmt.Fprintf(&reset, "{ var verifZero %s; %s = verifZero }\n", render(off(vs.Type.Pos()), off(vs.Type.End())), n)
				}
			}
		}
	}
	reset.WriteString("}, func() {\n")
	for _, n := range inits {
		fmt.Fprintf(&reset, "%s()\n", n)
	}
	body := render(0, len(src))
	return []byte(body + "\nvar _ = vsched.Y\n" + tail.String() + "\nfunc init() { vsched.OnReset(func() {\n" + reset.String() + "}) }\n"), nil
}

var points int

func point() string {
	points++
	return fmt.Sprintf("vsched.Y(%d); ", points)
}

func embedded(g *ast.CommentGroup) bool {
	if g != nil {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:linkname") {
				return true
			}
		}
	}
	return false
}

func ident(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}
