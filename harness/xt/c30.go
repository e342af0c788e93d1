package xt

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc"
	"verif/ref"
)

// use is one use of a message in a template.
type use struct {
	ctxt, id, id2 string
	plural        bool
	line          int
}

func (u use) String() string {
	return fmt.Sprintf("%d:%q/%q/%q/%v", u.line, u.ctxt, u.id, u.id2, u.plural)
}

// tb builds a template and remembers the uses of messages it holds.
type tb struct {
	wide     bool // line breaks inside of actions
	c        *mc.C
	l, r     string
	kws      []Keyword
	sb       strings.Builder
	n        int // distinct names given so far
	uses     []use
	vars     int
	allNames bool // every name of a call counts as no deviation
	few      bool // few forms of pipelines, calls and arguments
	named    bool // the template named like a keyword is defined
}

func (b *tb) w(s string)         { b.sb.WriteString(s) }
func (b *tb) act(s string)       { b.w(b.l + s + b.r) }
func (b *tb) line() int          { return 1 + strings.Count(b.sb.String(), "\n") }
func (b *tb) id(p string) string { b.n++; return fmt.Sprintf("%s%d", p, b.n) }

// sp is the blank between the parts of an action.
func (b *tb) sp() {
	if b.wide && b.c.Dev(2) == 1 {
		b.w("\n  ")
		return
	}
	b.w(" ")
}

// arg is an argument of a call: a constant, or something else.
type arg struct {
	konst bool
	val   string
}

// called records what a call of name with these arguments means for the keywords.
func (b *tb) called(name string, line int, args []arg) {
	for _, k := range b.kws {
		if k.Name != name {
			continue
		}
		get := func(p int) (string, bool) {
			if p > len(args) || !args[p-1].konst {
				return "", false
			}
			return args[p-1].val, true
		}
		u := use{line: line}
		ok1, ok3 := true, true
		if k.Ctxt > 0 {
			u.ctxt, ok1 = get(k.Ctxt)
		}
		id, ok2 := get(k.ID)
		u.id = id
		if k.ID2 > 0 {
			u.plural = true
			u.id2, ok3 = get(k.ID2)
		}
		if ok1 && ok2 && ok3 && (u.id != "" || u.ctxt != "") {
			b.uses = append(b.uses, u)
		}
	}
}

// argument writes an argument of a call.
func (b *tb) argument(depth int) arg {
	kinds := []string{"s", "raw", "(s)", "((s))", "field", "number", "var", "call", "keyword", "keyword-pipe", "dot", "nil", "char", "bool", "chain", "( s )"}
	if b.few {
		kinds = []string{"s", "(s)", "keyword"}
	}
	switch k := mc.PickDev(b.c, kinds); k {
	case "s":
		v := b.id("m")
		b.w(`"` + v + `"`)
		return arg{true, v}
	case "raw":
		v := b.id("m") + " r"
		b.w("`" + v + "`")
		return arg{true, v}
	case "(s)", "((s))":
		v := b.id("m")
		p := strings.Count(k, "(")
		b.w(strings.Repeat("(", p) + `"` + v + `"` + strings.Repeat(")", p))
		return arg{true, v}
	case "( s )":
		v := b.id("m")
		b.w("( `" + v + "` )")
		return arg{true, v}
	case "field":
		b.w(".Field")
	case "number":
		b.w("-12")
	case "var":
		b.w("$")
	case "call":
		b.w(`(print "` + b.id("no") + `")`)
	case "keyword":
		if depth <= 0 {
			b.c.Abandon()
		}
		b.w("(")
		b.call(depth - 1)
		b.w(")")
	case "keyword-pipe":
		if depth <= 0 {
			b.c.Abandon()
		}
		b.w("(")
		a := b.pipeline(depth - 1)
		b.w(")")
		return a
	case "dot":
		b.w(".")
	case "nil":
		b.w("nil")
	case "char":
		b.w("'c'")
	case "bool":
		b.w("true")
	case "chain":
		b.w("(.F 1).G")
	}
	return arg{}
}

// call writes a call; piped is what is piped into it.
func (b *tb) call(depth int, piped ...arg) {
	names := []string{b.kws[0].Name}
	seen := map[string]bool{names[0]: true}
	for _, k := range b.kws[1:] {
		if !seen[k.Name] {
			seen[k.Name] = true
			names = append(names, k.Name)
		}
	}
	names = append(names, "other")
	name := names[0]
	if b.allNames {
		name = mc.Pick(b.c, names)
	} else {
		name = mc.PickDev(b.c, names)
	}
	forms := []string{"id", ".id", ".A.id", ".A.B.id", "$.id", "$.A.id", "(.M).id", "(.M 1).A.id", "(kw).id", "F.id", "call .id", "call id", "call $.id", "$v.id", "call (.M).id"}
	if b.few {
		forms = []string{"id", ".id", "(kw).id"}
	}
	form := mc.PickDev(b.c, forms)
	line := b.line()
	head := ""
	switch form {
	case "(kw).id":
		if depth <= 0 {
			b.c.Abandon()
		}
		b.w("(")
		b.call(depth - 1)
		b.w(")." + name)
		line = b.line()
	case "$v.id":
		b.w("$v." + name)
	default:
		head = strings.Replace(form, "id", name, 1)
		b.w(head)
	}
	var args []arg
	for k := b.argCount(name); k > 0; k-- {
		b.sp()
		args = append(args, b.argument(depth))
	}
	b.called(name, line, append(args, piped...))
}

// argCount chooses the number of arguments: the number the keyword wants, fewer or more.
func (b *tb) argCount(name string) int {
	want := 1
	for _, k := range b.kws {
		if k.Name == name {
			want = max(want, k.Ctxt, k.ID, k.ID2)
		}
	}
	if b.few {
		return want
	}
	switch b.c.Dev(5) {
	case 1:
		return want + 1
	case 2:
		return want - 1
	case 3:
		return 0
	case 4:
		return want + 2
	}
	return want
}

// pipeline writes a pipeline and tells whether it is a constant.
func (b *tb) pipeline(depth int) (a arg) {
	kinds := []string{"call", "const|", "(const)|", "raw|", "field|", "call|", "const|call|", "func", "func2", "const", "print|", "number|", "two|", "|(call)", "|(call)x"}
	pipe := func() {
		b.sp()
		b.w("|")
		b.sp()
	}
	if b.few {
		kinds = []string{"call", "const|", "func"}
	}
	switch k := mc.PickDev(b.c, kinds); k {
	case "call":
		b.call(depth)
	case "const|", "(const)|", "raw|", "const|call|":
		v := b.id("p")
		switch k {
		case "raw|":
			b.w("`" + v + "`")
		case "(const)|":
			b.w(`("` + v + `")`)
		default:
			b.w(`"` + v + `"`)
		}
		pipe()
		b.call(depth, arg{true, v})
		if k == "const|call|" {
			pipe()
			b.call(depth, arg{})
		}
	case "field|":
		b.w(".A")
		pipe()
		b.call(depth, arg{})
	case "number|":
		b.w("7")
		pipe()
		b.call(depth, arg{})
	case "print|":
		b.w(`print "` + b.id("no") + `"`)
		pipe()
		b.call(depth, arg{})
	case "two|":
		b.w(`print "` + b.id("no") + `" "x"`)
		pipe()
		b.call(depth, arg{})
	case "call|":
		b.call(depth)
		pipe()
		b.call(depth, arg{})
	case "func", "func2":
		if depth <= 0 {
			b.c.Abandon()
		}
		b.w("and")
		for i := 0; i < 2; i++ {
			b.sp()
			b.w("(")
			if k == "func" {
				b.call(depth - 1)
			} else {
				b.pipeline(depth - 1)
			}
			b.w(")")
		}
	case "|(call)", "|(call)x":
		// a command whose first item is a call in parentheses: what calls what is not judged, the inner call is
		if depth <= 0 {
			b.c.Abandon()
		}
		b.w("1")
		pipe()
		b.w("(")
		b.call(depth - 1)
		b.w(")")
		if k == "|(call)x" {
			b.sp()
			b.w("(")
			b.call(depth - 1)
			b.w(")")
		}
	case "const":
		a = arg{true, b.id("no")}
		b.w(`"` + a.val + `"`)
	}
	return a
}

// stmts writes a list of statements.
func (b *tb) stmts(depth int, top, loop bool) {
	more := b.c.Dev(4)
	if more == 1 || more == 3 {
		b.plainAction()
		b.w("text\n\n")
	}
	b.stmt(depth, top, loop)
	if more == 2 || more == 3 {
		b.w("\ntext")
		b.plainAction()
	}
}

func (b *tb) plainAction() {
	b.w(b.l)
	b.plainCall()
	b.w(b.r)
}

func (b *tb) plainCall() {
	line := b.line()
	b.called(b.kws[0].Name, line, b.plain())
}

func (b *tb) stmt(depth int, top, loop bool) {
	l, r := b.l, b.r
	kinds := []string{"action", "trim", "decl", "assign", "text", "comment", "string", "template0"}
	if depth > 0 {
		kinds = append(kinds, "if", "if-else", "else-if", "else-if2", "range", "range-else", "range-ie", "range-e", "with", "with-else", "else-with", "with-decl", "if-decl", "template", "block", "break", "continue", "block-named-like-keyword", "nested")
		if top {
			kinds = append(kinds, "define", "two-defines")
		}
	}
	if loop {
		kinds = append(kinds, "leave", "next")
	}
	pipe := func(open string) { // an action around a pipeline
		b.w(l + open)
		b.pipeline(1)
		b.w(r)
	}
	end := func() { b.act("end") }
	// bodies writes the branches of a statement, each with what opens it: one of them, in turn,
	// holds every statement, the others hold one call
	bodies := func(inner bool, opens ...func()) {
		free := b.c.Choose(len(opens))
		for i, open := range opens {
			if open(); i == free {
				b.stmts(depth-1, false, inner && (i == 0 || loop))
			} else {
				b.plainAction()
			}
		}
		end()
	}
	open := func(s string) func() { return func() { pipe(s) } }
	els := func() { b.act("else") }
	b.vars++
	k := mc.Pick(b.c, kinds)
	switch k {
	case "action":
		pipe(mc.PickDev(b.c, []string{" ", "", "\n", "\t"}))
	case "trim":
		b.w(l + "- ")
		b.pipeline(1)
		b.w(" -" + r + "\n")
	case "decl":
		pipe(fmt.Sprintf("$x%d := ", b.vars))
	case "assign":
		v := fmt.Sprintf("$y%d", b.vars)
		b.act(v + " := 1")
		pipe(v + " = ")
	case "leave", "next": // what follows is never reached and still there
		b.act(map[string]string{"leave": "break", "next": "continue"}[k])
		b.w("\n")
		pipe(" ")
		b.plainAction()
	case "text":
		b.w(b.kws[0].Name + ` "text" .` + b.kws[0].Name + ` "text"` + "\n")
	case "comment":
		b.w(l + "/* " + b.kws[0].Name + ` "comment"` + "\n */" + r)
	case "string":
		b.w(l + "`" + b.kws[0].Name + " \"no\"`" + r)
	case "template0":
		b.act(` template "t0" `)
	case "template":
		pipe(`template "t1" `)
	case "nested":
		pipe("with ")
		bodies(loop, open("if "))
		end()
	case "if":
		bodies(loop, open("if "))
	case "if-decl":
		bodies(loop, open(fmt.Sprintf("if $z%d := ", b.vars)))
	case "if-else":
		bodies(loop, open("if "), els)
	case "else-if":
		bodies(loop, open("if "), open("else if "), els)
	case "else-if2":
		bodies(loop, open("if "), open("else if "), open("else if "))
	case "range":
		bodies(true, open("range "))
	case "range-e":
		bodies(true, open(fmt.Sprintf("range $e%d := ", b.vars)))
	case "range-ie":
		bodies(true, open(fmt.Sprintf("range $i%d, $e%d := ", b.vars, b.vars)))
	case "range-else":
		bodies(true, open("range "), els)
	case "break", "continue":
		bodies(true, open("range "), func() { b.act("if .x"); b.act(k); end() })
	case "with":
		bodies(loop, open("with "))
	case "with-decl":
		bodies(loop, open(fmt.Sprintf("with $w%d := ", b.vars)))
	case "with-else":
		bodies(loop, open("with "), els)
	case "else-with":
		bodies(loop, open("with "), open("else with "), els)
	case "block":
		bodies(false, func() { pipe(fmt.Sprintf(`block "b%d" `, b.vars)); b.act("$v := .") })
	case "block-named-like-keyword":
		if b.named {
			b.c.Abandon()
		}
		b.named = true
		bodies(false, func() { pipe(fmt.Sprintf("block `%s` ", b.kws[0].Name)); b.act("$v := .") })
	case "define", "two-defines":
		v := b.vars
		bodies(false, func() { b.act(fmt.Sprintf(`define "d%d"`, v)); b.act("$v := .") })
		if k == "two-defines" {
			bodies(false, func() { b.act(fmt.Sprintf(`define "e%d"`, v)); b.act("$v := .") })
		}
	}
}

// plain writes a call of the first keyword with constants.
func (b *tb) plain() (args []arg) {
	k := b.kws[0]
	b.w(k.Name)
	for i := max(k.Ctxt, k.ID, k.ID2); i > 0; i-- {
		v := b.id("q")
		b.w(` "` + v + `"`)
		args = append(args, arg{true, v})
	}
	return
}

// keywordLists are the keyword lists of the checks.
var keywordLists = []string{
	"T;N:1,2;X:1c,2;XN:1c,2,3",
	"T:2",
	"N:2,3;T",
	"X:2c,1",
	"XN:3c,1,2",
	"T;T:2c,1;T:3",
	"T:1;X:3c,2",
	"译;_:2",
	"gettext;T:3;N:2,1",
}

// same sorts and compares.
func diff(want, got []string) string {
	sort.Strings(want)
	sort.Strings(got)
	if w, g := strings.Join(want, "\n"), strings.Join(got, "\n"); w != g {
		return fmt.Sprintf("want\n%s\ngot\n%s", w, g)
	}
	return ""
}

// outUses reads the uses an output lists.
func outUses(text string, files map[string]string) (r []string, err error) {
	ms, err := ref.ReadPo(text)
	if err != nil {
		return nil, err
	}
	if len(ms) == 0 || !ms[0].IsHeader() {
		return nil, fmt.Errorf("the first entry is no header")
	}
	for _, m := range ms[1:] {
		n := 0
		for _, line := range m.Cmts {
			if !strings.HasPrefix(line, "#:") {
				continue
			}
			for _, f := range strings.Fields(line[2:]) {
				k := strings.LastIndexByte(f, ':')
				if k < 0 {
					return nil, fmt.Errorf("reference %q", line)
				}
				name, ok := files[f[:k]]
				if !ok {
					return nil, fmt.Errorf("reference %q names no input", line)
				}
				n++
				r = append(r, fmt.Sprintf("%s%s:%q/%q/%q/%v", name, f[k+1:], m.Ctxt, m.ID, m.ID2, m.Plural))
			}
		}
		if n == 0 {
			return nil, fmt.Errorf("message %v has no reference", m)
		}
	}
	return r, nil
}

func extractOne(c *mc.C, b *tb, p Param, text string) {
	dir := workDir(c)
	file := write(dir, "a.tmpl", text)
	p.Input, p.Output = file, filepath.Join(dir, "out.pot")
	c.State(p.Keyword, p.Left, text)
	c.Logf("keywords %s delimiters %q %q functions %q\n%s", p.Keyword, p.Left, p.Right, p.Function, text)
	c.Step()
	if err := Run(p); err != nil {
		c.Fail("keywords %s: the run fails: %v\n%s", p.Keyword, err, text)
	}
	out, err := os.ReadFile(p.Output)
	if err != nil {
		c.Fail("no output: %v", err)
	}
	got, err := outUses(string(out), map[string]string{file: ""})
	if err != nil {
		c.Fail("keywords %s: %v\n%s\n=>\n%s", p.Keyword, err, text, out)
	}
	var want []string
	for _, u := range b.uses {
		want = append(want, u.String())
	}
	if d := diff(want, got); d != "" {
		c.Fail("keywords %s delimiters %q %q\n%s\n=> %s", p.Keyword, p.Left, p.Right, text, d)
	}
	c.Outcome(fmt.Sprintf("%d uses", len(want)))
}

func builder(c *mc.C, kws string, l, r string) *tb {
	k, kind := parseSpec(kws)
	if kind == specBad {
		panic(kws)
	}
	return &tb{c: c, kws: k, l: l, r: r}
}

func quiet() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
}

func init() {
	register("C30", func(t *mc.T) {
		defer func(f *os.File) { os.Stderr = f }(os.Stderr)
		quiet() // what the runs say on failures and clashes is not judged here
		tail := func(b *tb) {
			b.w("\n" + b.l + `define "t0"` + b.r + "x" + b.l + "end" + b.r + b.l + `define "t1"` + b.r + "x" + b.l + "end" + b.r)
		}
		n := mc.Sel(t, 2, 3)
		t.Explore("calls", func(c *mc.C) {
			kws := mc.Pick(c, keywordLists)
			b := builder(c, kws, "{{", "}}")
			b.allNames = true
			b.w("first line\n{{$v := .}}\n{{")
			b.pipeline(2)
			b.w("}}\n")
			extractOne(c, b, Param{Keyword: kws, Left: "{{", Right: "}}"}, b.sb.String())
		}, mc.Budget(n), mc.Bound("one pipeline over %d keyword lists: every call name, 15 pipeline shapes, 15 forms of the callee, 16 forms of each argument, up to 2 arguments too few or too many, calls nested up to 2, up to %d deviations", len(keywordLists), n))
		statements := func(name string, depth, budget int, few bool, lists []string) {
			forms := "15 pipeline shapes, 15 forms of the callee, 16 forms of each argument"
			if few {
				forms = "3 pipeline shapes, 3 forms of the callee, 3 forms of each argument"
			}
			t.Explore(name, func(c *mc.C) {
				kws := mc.Pick(c, lists)
				b := builder(c, kws, "{{", "}}")
				b.few = few
				b.w("{{$v := .}}")
				b.stmts(depth, true, false)
				tail(b)
				extractOne(c, b, Param{Keyword: kws, Left: "{{", Right: "}}"}, b.sb.String())
			}, mc.Budget(budget), mc.Bound("every statement of the language nested up to %d in every branch of every other, %d keyword lists, up to %d deviations: neighbouring calls, %s", depth+1, len(lists), budget, forms))
		}
		statements("statements-deep", mc.Sel(t, 2, 3), 0, true, keywordLists[:mc.Sel(t, 3, 1)])
		statements("statements-few-forms", mc.Sel(t, 1, 2), 1, true, keywordLists[:3])
		statements("statements", 1, 1, false, keywordLists[:mc.Sel(t, 1, 9)])
		t.Explore("line-breaks", func(c *mc.C) {
			kws := mc.Pick(c, keywordLists[:2])
			b := builder(c, kws, "{{", "}}")
			b.wide, b.few = true, t.Quick()
			b.w("x\n{{$v := .}}")
			b.stmt(1, true, false)
			tail(b)
			extractOne(c, b, Param{Keyword: kws, Left: "{{", Right: "}}"}, b.sb.String())
		}, mc.Budget(mc.Sel(t, 1, 2)), mc.Bound("statements nested up to 2 with deviations: line breaks inside of actions, forms of calls"))
		t.Explore("delimiters-and-functions", func(c *mc.C) {
			d := mc.Pick(c, [][2]string{{"{{", "}}"}, {"[[", "]]"}, {"<%", "%>"}, {"{%", "%}"}, {"<<", ">>"}, {"$(", ")$"}, {"", ""}, {"[[", ""}, {"", "]]"}})
			l, r := d[0], d[1]
			if l == "" {
				l = "{{"
			}
			if r == "" {
				r = "}}"
			}
			kws := mc.Pick(c, keywordLists)
			b := builder(c, kws, l, r)
			fn := mc.Pick(c, []string{"", "foo", "foo,bar", " foo , ,bar", "译文", "T", "foo_9,"})
			b.w("text {{ T \"other delimiters\" }} [[ T \"other\" ]]")
			if strings.HasPrefix(l, "{{") || strings.HasPrefix(l, "[[") || r == "}}" || r == "]]" {
				b.sb.Reset()
			}
			b.act("$v := .")
			for _, name := range []string{"unknown", "Unknown2", "_x", "break1", "iff", "名", "é", "ünder_9", "x名", "ª", "if名", "x٣", "_名", "ʰ"} {
				b.act(name + ` "no"`)
			}
			for _, name := range strings.Split(fn, ",") {
				if name = strings.TrimSpace(name); name != "" && name != "T" {
					b.act(name + ` 1 | print`)
				}
			}
			b.w("\n" + l)
			b.pipeline(1)
			b.w(r)
			b.stmt(1, true, false)
			tail(b)
			extractOne(c, b, Param{Keyword: kws, Left: d[0], Right: d[1], Function: fn}, b.sb.String())
		}, mc.Bound("9 pairs of delimiters, 9 keyword lists, 7 lists of functions, undeclared functions, every statement"))
		t.Explore("strings", func(c *mc.C) {
			// constants with every escape of the language
			b := builder(c, "T;XN:1c,2,3", "{{", "}}")
			texts := []struct{ src, val string }{{`"a\"b"`, `a"b`}, {`"a\\b"`, `a\b`}, {`"a\nb"`, "a\nb"}, {`"\t\r\a\b\f\v"`, "\t\r\a\b\f\v"}, {`"\x41\101\u4e2d\U0001F600"`, "AA中😀"},
				{"`raw \\n \"q\"`", `raw \n "q"`}, {"`two\nlines`", "two\nlines"}, {`"中文"`, "中文"}, {`"100%"`, "100%"}, {`" }} "`, " }} "}, {`"{{T 1}}"`, "{{T 1}}"}, {`"(\"x\")"`, `("x")`}, {`"/* no */"`, "/* no */"},
				{`""`, ""}, {`" "`, " "}, {`"#~ x"`, "#~ x"}, {"`\\\"`", `\"`}, {`"a\u00a0b"`, "a\u00a0b"}, {`"\x7f"`, "\x7f"}, {`"\ufeff"`, "\ufeff"}}
			lit := func() arg {
				x := mc.Pick(c, texts)
				b.w(x.src)
				return arg{true, x.val}
			}
			switch c.Choose(3) {
			case 0:
				b.w("{{T ")
				line := b.line()
				b.called("T", line, []arg{lit()})
			case 1:
				b.w("{{")
				a := lit()
				b.w("|T")
				b.called("T", b.line(), []arg{a})
			case 2:
				b.w("{{XN ")
				line := b.line()
				a := []arg{lit()}
				b.w(" ")
				a = append(a, lit())
				b.w(" ")
				b.called("XN", line, append(a, lit()))
			}
			b.w("}}")
			extractOne(c, b, Param{Keyword: "T;XN:1c,2,3", Left: "{{", Right: "}}"}, b.sb.String())
		}, mc.Bound("20 spellings of constants in every argument of a plural call with context, piped and direct"))
		t.Explore("sizes", func(c *mc.C) {
			b := builder(c, "T;N:1,2", "{{", "}}")
			what := mc.Pick(c, []string{"calls", "calls on one line", "calls in one pipeline", "nested arguments", "nested statements", "else-ifs", "templates", "arguments", "parentheses", "long constant", "constants of one call", "blocks in blocks", "keywords"})
			size := mc.Pick(c, []int{3, 8, 9, 10, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300, mc.Sel(t, 500, 1000), mc.Sel(t, 1025, 5000)})
			if size > 500 && what == "parentheses" {
				c.Abandon() // the parser's own limit
			}
			kw := "T;N:1,2"
			b.w("\n{{")
			line := b.line()
			switch what {
			case "calls", "calls on one line":
				b.w("1}}")
				for i := 0; i < size; i++ {
					b.plainAction()
					if what == "calls" {
						b.w("\n")
					}
				}
				b.w("{{1")
			case "calls in one pipeline":
				b.plainCall()
				for i := 1; i < size; i++ {
					b.w(" | other (")
					b.plainCall()
					b.w(")")
				}
			case "nested arguments":
				for i := 0; i < size; i++ {
					v := b.id("m")
					b.w("T \"" + v + "\" (")
					b.called("T", line, []arg{{true, v}})
				}
				b.plainCall()
				b.w(strings.Repeat(")", size))
			case "nested statements", "blocks in blocks":
				b.w("1}}")
				for i := 0; i < size; i++ {
					b.w("{{" + []string{"if ", "with ", "range "}[i%3])
					if what[0] == 'b' {
						b.sb.WriteString("1}}{{end}}" + fmt.Sprintf("{{block \"b%d\" ", i))
					}
					b.plainCall()
					b.w("}}")
					b.plainAction()
				}
				for i := 0; i < size; i++ {
					b.w("{{end}}")
					b.plainAction()
				}
				b.w("{{1")
			case "else-ifs":
				b.w("if 1}}")
				for i := 0; i < size; i++ {
					b.w("{{else if ")
					b.plainCall()
					b.w("}}")
					b.plainAction()
				}
				b.w("{{end}}{{1")
			case "templates":
				b.w("1}}")
				for i := 0; i < size; i++ {
					b.w(fmt.Sprintf("{{define \"d%d\"}}", i))
					b.plainAction()
					b.w("{{end}}\n")
				}
				b.w("{{1")
			case "arguments":
				b.w("other")
				for i := 0; i < size; i++ {
					b.w(" (")
					b.plainCall()
					b.w(")")
				}
			case "parentheses":
				v := b.id("m")
				b.w("T " + strings.Repeat("(", size) + "\"" + v + "\"" + strings.Repeat(")", size))
				b.called("T", line, []arg{{true, v}})
			case "long constant":
				v := strings.Repeat("é", size) + "\n" + strings.Repeat("word ", size)
				b.w("T `" + v + "`")
				b.called("T", line, []arg{{true, v}})
			case "constants of one call":
				kw = fmt.Sprintf("T;N:%d,%d", size-1, size)
				b.kws, _ = parseSpec(kw)
				b.w("N")
				var args []arg
				for i := 0; i < size; i++ {
					args = append(args, arg{true, b.id("a")})
					b.w(" \"" + args[i].val + "\"")
				}
				b.called("N", line, args)
			case "keywords":
				for i := 0; i < size; i++ {
					kw += fmt.Sprintf(";K%d:2", i)
				}
				b.kws, _ = parseSpec(kw)
				b.w("1}}")
				for i := 0; i < size; i++ {
					b.w(fmt.Sprintf("{{K%d 1 \"k%d\"}}", i, i))
					b.called(fmt.Sprintf("K%d", i), line, []arg{{}, {true, fmt.Sprintf("k%d", i)}})
				}
				b.w("{{1")
			}
			b.w("}}\n")
			extractOne(c, b, Param{Keyword: kw, Function: "other", Left: "{{", Right: "}}"}, b.sb.String())
		}, mc.Bound("13 kinds of templates with 3 to %d calls, levels, branches, templates, arguments, parentheses, characters, keywords", mc.Sel(t, 1025, 5000)))
		around := []string{"", "x", " ", "\n", "\r\n", "\r", "\ufeff", "\x00", "\xff\xfe", "é", "\u2028", "{ {x", "}}", "\"", "`", "'", "\\", "\\{x", "//", "/*", "<!-- ", "<script>", "#", "%", "{{/* a comment */}}", "{{- /* T \"no\" */ -}}", "{{/*\n\n*/}}", "{{\"\"}}", "{{print 1}}", "{{1 -}} \n ", " \n {{- 1}}", "T \"no\"", "{{`\n`}}", strings.Repeat("\n", 1000), strings.Repeat("long ", 20000)}
		t.Explore("surroundings", func(c *mc.C) {
			// what stands before, between and after the calls, or alone
			b := builder(c, "T;N:1,2", "{{", "}}")
			for k := c.Choose(3); k >= 0; k-- {
				b.w(mc.PickDev(c, around))
				if k > 0 {
					b.w([]string{"{{", "{{- "}[c.Choose(2)])
					line := b.line()
					b.w(fmt.Sprintf("T \"m%d\"", k))
					b.called("T", line, []arg{{true, fmt.Sprint("m", k)}})
					b.w([]string{"}}", " -}}"}[c.Choose(2)])
				}
			}
			extractOne(c, b, Param{Keyword: "T;N:1,2", Left: "{{", Right: "}}"}, b.sb.String())
		}, mc.Budget(mc.Sel(t, 2, 3)), mc.Bound("up to 2 calls with any of %d texts in up to %d of the places before, between and after them, and these texts alone", len(around), mc.Sel(t, 2, 3)))
		pieces := mc.Sel(t, 2, 3)
		t.Explore("several-files", func(c *mc.C) {
			// what one file holds has no bearing on another
			dir := workDir(c)
			files := map[string]string{}
			var want []string
			all := ""
			for i := 0; i < 3; i++ {
				prefix := []string{"a ", "b ", "c "}[i]
				file := filepath.Join(dir, []string{"f1.tmpl", "f2.tmpl", "f3.tmpl"}[i])
				if i == 2 && c.Choose(2) == 0 {
					os.Remove(file)
					break
				}
				b := builder(c, "T;N:1,2", "{{", "}}")
				for k := 0; k < pieces; k++ {
					switch c.Choose(mc.Sel(t, 5, 6)) {
					case 1:
						b.w("\n\n")
					case 2:
						line := b.line()
						m := fmt.Sprintf("m%d%d", i, k)
						b.w(fmt.Sprintf("{{T %q}}", m))
						b.called("T", line, []arg{{true, m}})
					case 3:
						b.w("\n{{/* note\nnote */}}\n")
					case 4:
						line := b.line()
						b.w("{{T `same`}}")
						b.called("T", line, []arg{{true, "same"}})
					case 5:
						b.w(fmt.Sprintf("{{define \"t%d%d\"}}\n", i, k))
						line := b.line()
						b.w("{{N `one` `all` 3}}\n{{end}}")
						b.called("N", line, []arg{{true, "one"}, {true, "all"}})
					}
				}
				write(dir, filepath.Base(file), b.sb.String())
				files[file] = prefix
				for _, u := range b.uses {
					want = append(want, prefix+u.String())
				}
				all += fmt.Sprintf("--- %s\n%s\n", filepath.Base(file), b.sb.String())
			}
			c.State(all)
			c.Logf("%s", all)
			c.Step()
			p := Param{Input: filepath.Join(dir, "f?.tmpl"), Keyword: "T;N:1,2", Left: "{{", Right: "}}", Output: filepath.Join(dir, "out.pot")}
			if err := Run(p); err != nil {
				c.Fail("the run fails: %v\n%s", err, all)
			}
			out, err := os.ReadFile(p.Output)
			if err != nil {
				c.Fail("no output: %v", err)
			}
			got, err := outUses(string(out), files)
			if err != nil {
				c.Fail("%v\n%s\n=>\n%s", err, all, out)
			}
			if d := diff(want, got); d != "" {
				c.Fail("%s=> %s", all, d)
			}
		}, mc.Bound("two or three files of %d pieces each: nothing, lines, calls, comments, calls that all files have%s", pieces, mc.Sel(t, "", ", templates")))
	}, "not documented and left out: identifiers that are no keyword call but stand among the arguments, parenthesised function names, a template defined with the empty name")
}
