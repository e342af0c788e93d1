package xt

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"verif/mc"
	"verif/ref"
)

// captured runs f and gives what it wrote to the standard error, or fd. Not for concurrent use.
func captured(dir string, fd int, f func()) string {
	name := filepath.Join(dir, fmt.Sprintf("captured%d", fd))
	w, err := os.Create(name)
	if err != nil {
		panic(err)
	}
	old, err := syscall.Dup(fd)
	if err != nil {
		panic(err)
	}
	if err := syscall.Dup3(int(w.Fd()), fd, 0); err != nil {
		panic(err)
	}
	w.Close()
	func() {
		defer func() {
			syscall.Dup3(old, fd, 0)
			syscall.Close(old)
		}()
		f()
	}()
	b, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// tcall is a call a template makes.
type tcall struct{ src, ctxt, id, id2 string }

// model merges uses as documented.
type merged struct {
	ref.Msg
	refs  map[string]bool
	fmt   bool // has a percent sign
	fmt2  bool // some use had one
	uses  int
	clash bool
}

type merger struct {
	m       map[string]*merged
	order   []string
	clashes []string
	plural  bool
}

func (g *merger) add(x tcall, where string) {
	if x.id == "" && x.ctxt == "" {
		return
	}
	if g.m == nil {
		g.m = map[string]*merged{}
	}
	key := x.ctxt + "\x04" + x.id
	pl := x.id2 != "-"
	e, ok := g.m[key]
	if !ok {
		e = &merged{refs: map[string]bool{}}
		e.Ctxt, e.ID, e.Plural = x.ctxt, x.id, pl
		if pl {
			e.ID2 = x.id2
			g.plural = true
		}
		e.fmt = strings.Contains(x.id, "%") || pl && strings.Contains(x.id2, "%")
		g.m[key] = e
	} else if e.Plural != pl {
		e.clash = true
		g.clashes = append(g.clashes, x.id)
		e.fmt2 = e.fmt2 || strings.Contains(x.id2, "%")
		return
	}
	e.fmt2 = e.fmt2 || e.fmt || pl && strings.Contains(x.id2, "%")
	e.refs[where] = true
	e.uses++
}

// judge compares an output with the model.
func (g *merger) judge(out string, files map[string]string, refs bool) error {
	ms, err := ref.ReadPo(out)
	if err != nil {
		return err
	}
	if len(ms) == 0 || !ms[0].IsHeader() || ms[0].Plural {
		return fmt.Errorf("the first entry is no header")
	}
	cat := ref.NewCat(ms[0])
	if _, ok := cat.Header("Plural-Forms"); ok != g.plural {
		return fmt.Errorf("plural header %v, plural messages %v", ok, g.plural)
	}
	for _, k := range []string{"MIME-Version", "Content-Type", "Content-Transfer-Encoding", "POT-Creation-Date"} {
		if _, ok := cat.Header(k); !ok {
			return fmt.Errorf("the header has no %s", k)
		}
	}
	if len(ms)-1 != len(g.m) {
		return fmt.Errorf("%d messages, want %d", len(ms)-1, len(g.m))
	}
	seen := map[string]bool{}
	for _, m := range ms[1:] {
		e := g.m[m.Key()]
		switch {
		case e == nil || seen[m.Key()]:
			return fmt.Errorf("message %v is not expected", m)
		case m.Plural != e.Plural || m.ID2 != e.ID2:
			return fmt.Errorf("message %v, want %v", m, e.Msg)
		case strings.Join(append(m.Forms, m.Str), "") != "":
			return fmt.Errorf("message %v is translated", m)
		}
		seen[m.Key()] = true
		flag := false
		got := map[string]bool{}
		for _, l := range m.Cmts {
			switch {
			case strings.HasPrefix(l, "#,"):
				for _, f := range strings.Split(l[2:], ",") {
					switch strings.TrimSpace(f) {
					case "go-format":
						flag = true
					case "fuzzy":
						return fmt.Errorf("message %v is fuzzy", m)
					}
				}
			case strings.HasPrefix(l, "#:") && refs:
				for _, f := range strings.Fields(l[2:]) {
					k := strings.LastIndexByte(f, ':')
					if k < 0 || files[f[:k]] == "" {
						return fmt.Errorf("message %v has reference %q", m, f)
					}
					got[files[f[:k]]+f[k:]] = true
				}
			}
		}
		if flag != e.fmt && !(flag && e.fmt2) {
			return fmt.Errorf("message %v flagged as a format: %v", m, flag)
		}
		if refs && fmt.Sprint(got) != fmt.Sprint(e.refs) {
			return fmt.Errorf("message %v has references %v, want %v", m, got, e.refs)
		}
	}
	return nil
}

func init() {
	calls := []tcall{
		{`T "apfel"`, "", "apfel", "-"}, {`T "birne"`, "", "birne", "-"}, {`X "c" "apfel"`, "c", "apfel", "-"}, {`N "apfel" "as"`, "", "apfel", "as"}, {`N "apfel" "at"`, "", "apfel", "at"},
		{`XN "c" "apfel" "as"`, "c", "apfel", "as"}, {`X "" "apfel"`, "", "apfel", "-"}, {`T ""`, "", "", "-"}, {`N "" "as"`, "", "", "as"}, {`X "c" ""`, "c", "", "-"},
		{`T "100%"`, "", "100%", "-"}, {`N "apfel" "%d as"`, "", "apfel", "%d as"}, {`T "q\"\\\n\tx"`, "", "q\"\\\n\tx", "-"}, {`X "apfel" "c"`, "apfel", "c", "-"}, {`N "birne" ""`, "", "birne", ""},
		{`XN "%" "birne" "birne"`, "%", "birne", "birne"}, {"T `#~ msgid \"a\"`", "", "#~ msgid \"a\"", "-"}, {`X "c\n" "b\u4e2d\n"`, "c\n", "b中\n", "-"}, {`"apfel" | T`, "", "apfel", "-"},
	}
	const kws = "T;N:1,2;X:1c,2;XN:1c,2,3"
	register("C31", func(t *mc.T) {
		run := func(c *mc.C, dir string, p Param, files map[string]string, g *merger, refs bool, text string) {
			p.Left, p.Right = "{{", "}}"
			if p.Keyword == "" {
				p.Keyword = kws
			}
			p.Output = filepath.Join(filepath.Dir(dir), "out.pot")
			c.State(text)
			c.Logf("%s", text)
			c.Step()
			var err error
			said := captured(filepath.Dir(dir), 2, func() { err = Run(p) })
			if err != nil {
				c.Fail("the run fails: %v\n%s", err, text)
			}
			out, err := os.ReadFile(p.Output)
			if err != nil {
				c.Fail("no output: %v", err)
			}
			if err := g.judge(string(out), files, refs); err != nil {
				c.Fail("%v\n%s\n=>\n%s", err, text, out)
			}
			if len(g.clashes) > 0 != (said != "") {
				c.Fail("%d uses clash; said %q\n%s", len(g.clashes), said, text)
			}
			for _, id := range g.clashes {
				if !strings.Contains(said, id) {
					c.Fail("the clash of %q is not named in %q\n%s", id, said, text)
				}
			}
			c.Outcome(fmt.Sprintf("%d messages, %d clashes", len(g.m), len(g.clashes)))
		}
		fresh := func(c *mc.C) string {
			dir := filepath.Join(workDir(c), "in")
			if err := os.RemoveAll(dir); err != nil {
				panic(err)
			}
			if err := os.MkdirAll(dir, 0o755); err != nil {
				panic(err)
			}
			return dir
		}
		n := mc.Sel(t, 3, 4)
		t.Explore("sequences", func(c *mc.C) {
			dir := fresh(c)
			var g merger
			files := map[string]string{}
			texts := []string{"", ""}
			cur := 0
			for k := 0; k < n; k++ {
				x := c.Choose(len(calls) + 1)
				if x == 0 {
					break
				}
				// where the call stands: on a line of its own, on the line of the one before, or in the second file
				if k > 0 {
					switch c.Dev(3) {
					case 0:
						texts[cur] += "\n"
					case 2:
						if cur == 1 {
							c.Abandon()
						}
						cur = 1
					}
				}
				g.add(calls[x-1], fmt.Sprintf("%d:%d", cur, 1+strings.Count(texts[cur], "\n")))
				texts[cur] += "{{" + calls[x-1].src + "}}"
			}
			for i, s := range texts[:cur+1] {
				files[write(dir, fmt.Sprintf("%d.tmpl", i), s)] = fmt.Sprint(i)
			}
			run(c, dir, Param{Input: filepath.Join(dir, "*.tmpl")}, files, &g, true, strings.Join(texts[:cur+1], "\n-- second file:\n"))
		}, mc.Serial(), mc.Budget(mc.Sel(t, 1, 1)), mc.Bound("every sequence of up to %d of %d colliding calls, each on its own line; at most one stands on the line of the one before or starts a second file", n, len(calls)))
		var clashing []tcall
		for _, x := range calls[:6] {
			clashing = append(clashing, x)
		}
		clashing = append(clashing, tcall{`N "birne" "bs"`, "", "birne", "bs"})
		t.Explore("clashes", func(c *mc.C) {
			// several messages clash, some more than once
			dir := fresh(c)
			var g merger
			text := ""
			for k := 0; k < mc.Sel(t, 4, 5); k++ {
				x := mc.Pick(c, clashing)
				g.add(x, fmt.Sprintf("0:%d", k+1))
				text += "{{" + x.src + "}}\n"
			}
			files := map[string]string{write(dir, "0.tmpl", text): "0"}
			run(c, dir, Param{Input: filepath.Join(dir, "*.tmpl")}, files, &g, true, text)
		}, mc.Serial(), mc.Bound("every sequence of %d of %d calls that clash in pairs", mc.Sel(t, 4, 5), len(clashing)))
		t.Explore("many-uses", func(c *mc.C) {
			dir := fresh(c)
			var g merger
			files := map[string]string{}
			k := mc.Pick(c, []int{5, 9, 10, 11, 16, 17, 32, 33, 50, 64, 65, 99, 100, 101, 102, 128, 129, 200, 256, 257, mc.Sel(t, 500, 1000), mc.Sel(t, 1001, 5000)})
			per := mc.Pick(c, []int{1, 7, 100000}) // uses in one file
			what := c.Choose(4)
			text := ""
			for i, file, line := 0, 0, 1; i <= k; i++ {
				if i == k || line > per {
					files[write(dir, fmt.Sprintf("%05d.tmpl", file), text)] = fmt.Sprint(file)
					file, line, text = file+1, 1, ""
				}
				if i == k {
					break
				}
				x := calls[0]
				switch what {
				case 1: // a plural message
					x = calls[3]
				case 2: // in turn
					x = calls[[]int{0, 1, 2, 5, 11}[i%5]]
					if i%5 == 4 {
						x = tcall{`N "pflaume" "ps"`, "", "pflaume", "ps"}
					}
				case 3: // each its own, and one that all share
					if i%2 == 0 {
						x = tcall{fmt.Sprintf("T \"m%d\"", i), "", fmt.Sprintf("m%d", i), "-"}
					}
				}
				g.add(x, fmt.Sprintf("%d:%d", file, line))
				text += "{{" + x.src + "}}\n"
				line++
			}
			run(c, dir, Param{Input: filepath.Join(dir, "*.tmpl")}, files, &g, true, fmt.Sprintf("%d uses, %d in a file, of kind %d", k, per, what))
		}, mc.Serial(), mc.Bound("5 to %d uses of one or several messages in one or many files", mc.Sel(t, 1001, 5000)))
		t.Explore("line-numbers", func(c *mc.C) {
			dir := fresh(c)
			var g merger
			files := map[string]string{}
			lines := []int{1, 2, 11, 12, 21, 110, 111, 1000, 1111}
			perms := [][]string{{"a", "b", "c"}, {"a", "c", "b"}, {"b", "a", "c"}, {"b", "c", "a"}, {"c", "a", "b"}, {"c", "b", "a"}}
			names := mc.Pick(c, perms)
			second := c.Choose(4) // this use is the only one of another file
			x := calls[0]
			texts := []string{"", ""}
			at := -1
			for k := 0; k < 3; k++ {
				i := c.Choose(len(lines))
				f := 0
				if second == k {
					f = 1
				} else if i <= at {
					c.Abandon()
				} else {
					at = i
				}
				texts[f] += strings.Repeat("\n", lines[i]-1-strings.Count(texts[f], "\n")) + "{{define \"" + names[k] + "\"}}{{" + x.src + "}}{{end}}"
				g.add(x, fmt.Sprintf("%d:%d", f, lines[i]))
			}
			for i, name := range mc.Pick(c, [][2]string{{"1.tmpl", "11.tmpl"}, {"b.tmpl", "a.tmpl"}, {"a.tmpl:1", "a.tmpl"}}) {
				files[write(dir, name, texts[i])] = fmt.Sprint(i)
			}
			run(c, dir, Param{Input: filepath.Join(dir, "*")}, files, &g, true, fmt.Sprintf("%q", texts))
		}, mc.Serial(), mc.Bound("3 uses of one message in templates and files in any order, on lines of %v", []int{1, 2, 11, 12, 21, 110, 111, 1000, 1111}))
		t.Explore("templates", func(c *mc.C) {
			// clashes and shared messages between the templates of a file: which use comes first is not documented
			dir := fresh(c)
			a, b := mc.Pick(c, calls), mc.Pick(c, calls)
			x := mc.Pick(c, [][3]string{{"{{", "}}", "{{define \"z\"}}\n{{%s}}{{end}}"}, {"{{", "}}", "{{define \"a\"}}\n{{%s}}{{end}}"}, {"{{", "}}", "{{block \"b\" .}}\n{{%s}}{{end}}"}})
			text := "{{" + a.src + "}}" + strings.ReplaceAll(x[2], "%s", b.src)
			f := write(dir, "a.tmpl", text)
			g1, g2 := merger{}, merger{}
			g1.add(a, "0:1")
			g1.add(b, "0:2")
			g2.add(b, "0:2")
			g2.add(a, "0:1")
			var err error
			p := Param{Input: f, Left: "{{", Right: "}}", Keyword: kws, Output: filepath.Join(dir, "out.pot")}
			c.State(text)
			c.Step()
			said := captured(filepath.Dir(dir), 2, func() { err = Run(p) })
			if err != nil {
				c.Fail("the run fails: %v\n%s", err, text)
			}
			out, err := os.ReadFile(p.Output)
			if err != nil {
				c.Fail("no output: %v", err)
			}
			files := map[string]string{f: "0"}
			e1, e2 := g1.judge(string(out), files, true), g2.judge(string(out), files, true)
			if e1 != nil && e2 != nil {
				c.Fail("%v\n%s\n=>\n%s", e1, text, out)
			}
			if len(g1.clashes) > 0 != (said != "") {
				c.Fail("%d uses clash; said %q\n%s", len(g1.clashes), said, text)
			}
			c.Outcome(fmt.Sprintf("%d messages, %d clashes", len(g1.m), len(g1.clashes)))
		}, mc.Serial(), mc.Bound("every pair of %d calls, one in the file's own template, one in a template it defines before or after it by name, or in a block", len(calls)))
		t.Explore("file-names", func(c *mc.C) {
			dir := fresh(c)
			var g merger
			files := map[string]string{}
			refs, text := true, ""
			for k := 0; k < 2; k++ {
				name := mc.Pick(c, []string{"b.tmpl", "a\"b.tmpl", `a\b.tmpl`, "a%d.tmpl", "a b.tmpl", "a\nb.tmpl", "a\nmsgid \"z\".tmpl", "#~.tmpl", "中文.tmpl", "a:1.tmpl", "msgid.tmpl", "a\tb.tmpl", ".tmpl", "a\r.tmpl"})
				if strings.ContainsAny(name, " \n\t\r") {
					refs = false // how such a name is written is not documented
				}
				p := write(dir, name, "")
				if _, ok := files[p]; ok {
					c.Abandon()
				}
				files[p] = name
				x := calls[k*3]
				g.add(x, name+":2")
				write(dir, name, "\n{{"+x.src+"}}")
				text += fmt.Sprintf("%q: %s\n", name, x.src)
			}
			// the order of the two is the glob's: which of the clashing uses is first depends on the names
			g2 := merger{}
			for i, x := range []tcall{calls[3], calls[0]} {
				_ = i
				g2.add(x, "")
			}
			var err error
			p := Param{Input: filepath.Join(dir, "*.tmpl"), Left: "{{", Right: "}}", Keyword: kws, Output: filepath.Join(dir, "out.pot")}
			c.State(text)
			c.Step()
			captured(filepath.Dir(dir), 2, func() { err = Run(p) })
			if err != nil {
				c.Fail("the run fails: %v\n%s", err, text)
			}
			out, err := os.ReadFile(p.Output)
			if err != nil {
				c.Fail("no output: %v", err)
			}
			e1, e2 := g.judge(string(out), files, refs), g2.judge(string(out), files, false)
			if e1 != nil && e2 != nil {
				c.Fail("%v\n%s\n=>\n%s", e1, text, out)
			}
			c.Outcome("written")
		}, mc.Serial(), mc.Bound("every pair of 14 unusual file names"))
		t.Explore("options", func(c *mc.C) {
			dir := fresh(c)
			l := mc.Pick(c, []string{"{{", `"{`, "%d", "\\n", "{\n", "中"})
			r := mc.Pick(c, []string{"}}", `}"`, "d%", "n\\", "}\n}", "文"})
			kw := mc.Pick(c, []string{"T;N:1,2", " T ; N : 1 , 2 ", "T;\nN:1,2", "T;N:1,2;译"})
			fn := mc.Pick(c, []string{"", "f", "f,\ng", "f\t"})
			var g merger
			g.add(calls[0], "0:1")
			g.add(tcall{"", "", "p", "ps"}, "0:1")
			f := write(dir, "a.tmpl", l+" T \"apfel\" "+r+l+" N \"p\" \"ps\" "+r)
			var err error
			p := Param{Input: f, Left: l, Right: r, Keyword: kw, Function: fn, Output: filepath.Join(dir, "out.pot")}
			text := fmt.Sprintf("%+q", []string{l, r, kw, fn})
			c.State(text)
			c.Step()
			captured(filepath.Dir(dir), 2, func() { err = Run(p) })
			if err != nil {
				c.Fail("the run fails: %v\n%s", err, text)
			}
			out, err := os.ReadFile(p.Output)
			if err != nil {
				c.Fail("no output: %v", err)
			}
			if err := g.judge(string(out), nil, false); err != nil {
				c.Fail("%v\n%s\n=>\n%s", err, text, out)
			}
			c.Outcome("written")
		}, mc.Serial(), mc.Bound("6 left and 6 right delimiters, 4 spellings of the keywords, 4 lists of functions, with characters PO strings must escape"))
	}, "whether two uses on one line are listed once or twice, the order of references, and how a file name with blanks is written are not documented",
		"of the uses in several templates of one file either may be the first")
}
