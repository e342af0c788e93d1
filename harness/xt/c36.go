package xt

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing/fstest"
	"text/template"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

// runtime is what a template meets when it is executed: every keyword call is a lookup.
type renderer struct {
	kws    map[string]Keyword
	lookup func(ctxt, id, id2 string, plural bool, n int64) string
	log    []string
	seen   [][2]string // context and id of lookups of constants
	mode   int         // what a lookup gives back to the template
	n      int64
}

func (r *renderer) call(name string, args []any) any {
	k, ok := r.kws[name]
	if !ok {
		return "other"
	}
	get := func(p int) (string, bool) {
		if p == 0 {
			return "", true
		}
		if p > len(args) {
			return "", false
		}
		s, ok := args[p-1].(string)
		return s, ok
	}
	ctxt, ok1 := get(k.Ctxt)
	id, ok2 := get(k.ID)
	id2, ok3 := get(k.ID2)
	res := "nothing"
	if ok1 && ok2 && ok3 && ctxt+id != "" { // looking up the header is not the point
		res = r.lookup(ctxt, id, id2, k.ID2 > 0, r.n)
		r.log = append(r.log, fmt.Sprintf("%s(%q,%q,%q) = %q", name, ctxt, id, id2, res))
		made := true
		for i, p := range []int{k.Ctxt, k.ID, k.ID2} {
			made = made && (p == 0 || reMade.MatchString([]string{ctxt, id, id2}[i]))
		}
		if made {
			r.seen = append(r.seen, [2]string{ctxt, id})
		}
	}
	switch r.mode {
	case 1:
		return ""
	case 2:
		return []string{res, "second"}
	case 3:
		return data{r: r, Field: "dyn"}
	}
	return "<" + res + ">" // never a constant of the template
}

// data is what templates are executed with.
type data struct {
	r     *renderer
	Field string
}

func (d data) T(a ...any) any  { return d.r.call("T", a) }
func (d data) N(a ...any) any  { return d.r.call("N", a) }
func (d data) X(a ...any) any  { return d.r.call("X", a) }
func (d data) XN(a ...any) any { return d.r.call("XN", a) }
func (d data) A() data         { return d }
func (d data) B() data         { return d }
func (d data) M(...any) data   { return d }
func (d data) F(...any) data   { return d }
func (d data) G() string       { return "dyn" }
func (d data) X2() bool        { return false }

var reMade = regexp.MustCompile(`^[mpq][0-9]+( r)?$`)

func init() {
	register("C36", func(tt *mc.T) {
		defer t.SetGlobal(t.NewTranslations())
		defer func(f *os.File) { os.Stderr = f }(os.Stderr)
		quiet()
		translate := func(ctxt, id string, form int) string { return fmt.Sprintf("«%s|%s|%d»", ctxt, id, form) }
		check := func(c *mc.C, b *tb, kws, text string) {
			dir := workDir(c)
			in := write(dir, "a.tmpl", text)
			out := filepath.Join(dir, "out.pot")
			c.State(kws, text)
			c.Logf("keywords %s\n%s", kws, text)
			if err := Run(Param{Input: in, Left: "{{", Right: "}}", Keyword: kws, Output: out}); err != nil {
				c.Fail("the run fails: %v\n%s", err, text)
			}
			pot, err := os.ReadFile(out)
			if err != nil {
				c.Fail("no output: %v", err)
			}
			// the translator's work, done with an independent reader
			ms, err := ref.ReadPo(string(pot))
			if err != nil {
				c.Fail("%v\n%s\n=>\n%s", err, text, pot)
			}
			known := map[[2]string]ref.Msg{}
			for i, m := range ms {
				switch {
				case m.IsHeader():
					lines := strings.Split(m.Str, "\n")
					for j, l := range lines {
						switch {
						case strings.HasPrefix(l, "Language:"):
							lines[j] = "Language: de_DE"
						case strings.HasPrefix(l, "Content-Type:"):
							lines[j] = "Content-Type: text/plain; charset=UTF-8"
						case strings.HasPrefix(l, "Plural-Forms:"):
							lines[j] = "Plural-Forms: nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;"
						}
					}
					ms[i].Str = strings.Join(lines, "\n")
				case m.Plural:
					ms[i].Forms = []string{translate(m.Ctxt, m.ID, 0), translate(m.Ctxt, m.ID, 1), translate(m.Ctxt, m.ID, 2)}
				default:
					ms[i].Str = translate(m.Ctxt, m.ID, 9)
				}
				known[[2]string{m.Ctxt, m.ID}] = m
			}
			lang := fstest.MapFS{}
			put := func(name, text string) { lang[name] = &fstest.MapFile{Data: []byte(text), Mode: 0o644} }
			switch how := c.Dev(3); how {
			case 1:
				put("de.mo", string(ref.BuildMo(ref.Pairs(ms...), ref.MoLayout{})))
			default:
				po := ref.WritePo(ms...)
				if how == 2 { // compiled by the library
					f, err := translator.ReadPo([]byte(po))
					if err != nil {
						c.Fail("the translated POT cannot be read: %v\n%s", err, po)
					}
					var w strings.Builder
					if err := f.SaveAsMo(&w); err != nil {
						c.Fail("%v", err)
					}
					put("de.mo", w.String())
				} else {
					put("de.po", po)
				}
			}
			ts := t.NewTranslations()
			ts.BindFS("site", lang)
			ts.SetDomain("site")
			ts.SetLocale("de")
			list, kind := parseSpec(kws)
			if kind == specBad {
				panic(kws)
			}
			r := &renderer{kws: map[string]Keyword{}}
			fm := template.FuncMap{"other": func(...any) string { return "other" }}
			for _, k := range list {
				r.kws[k.Name] = k
				fm[k.Name] = func(a ...any) any { return r.call(k.Name, a) }
			}
			tmpl, err := template.New("").Funcs(fm).Parse(text)
			if err != nil {
				c.Abandon() // another way to write a call, which only the tool understands
			}
			execute := func(lookup func(ctxt, id, id2 string, plural bool, n int64) string) (string, []string) {
				r.lookup, r.log, r.seen = lookup, nil, nil
				var sb strings.Builder
				err := tmpl.Execute(&sb, data{r: r, Field: "dyn"})
				c.Step()
				if err != nil {
					return sb.String() + " and fails", r.log // what a template may not do is not the point
				}
				return sb.String(), r.log
			}
			most := 0
			for k := 0; k < 12; k++ {
				r.mode, r.n = k%4, []int64{1, 2, 5}[k/4]
				got, gotLog := execute(func(ctxt, id, id2 string, plural bool, n int64) string {
					if plural {
						return ts.XN64(ctxt, id, id2, n)
					}
					return ts.X(ctxt, id)
				})
				seen := r.seen
				want, wantLog := execute(func(ctxt, id, id2 string, plural bool, n int64) string {
					used := false
					for _, u := range b.uses {
						used = used || u.ctxt == ctxt && u.id == id && u.plural == plural
					}
					switch {
					case !used && plural:
						return ref.Source(id, id2, n)
					case !used:
						return id
					case plural && n == 1:
						return translate(ctxt, id, 0)
					case plural && n == 2:
						return translate(ctxt, id, 1)
					case plural:
						return translate(ctxt, id, 2)
					}
					return translate(ctxt, id, 9)
				})
				if a, b := strings.Join(gotLog, "\n"), strings.Join(wantLog, "\n"); a != b {
					c.Fail("keywords %s, template\n%s\n=> with the translated POT\n%s\n=> lookups\n%s\n=> want\n%s", kws, text, pot, a, b)
				}
				if got != want {
					c.Fail("keywords %s, template\n%s\n=> renders %q, want %q", kws, text, got, want)
				}
				// what the template asked for and can only have from constants is in the POT
				for _, k := range seen {
					if _, ok := known[k]; !ok {
						c.Fail("keywords %s, template\n%s\nlooks up (%q,%q), which the POT lacks:\n%s", kws, text, k[0], k[1], pot)
					}
				}
				most = max(most, len(gotLog))
			}
			c.Outcome(fmt.Sprintf("%d lookups", min(most, 9)))
		}
		lists := []string{"T;N:1,2;X:1c,2;XN:1c,2,3", "XN:3c,1,2;T:2;X:2c,1;N:2,1"}
		tail := "\n{{define \"t0\"}}x{{end}}{{define \"t1\"}}{{.}}{{end}}"
		n := mc.Sel(tt, 1, 2)
		tt.Explore("calls", func(c *mc.C) {
			kws := mc.Pick(c, lists)
			b := builder(c, kws, "{{", "}}")
			b.allNames = true
			b.w("{{$v := .}}\n{{")
			b.pipeline(2)
			b.w("}}\n")
			check(c, b, kws, b.sb.String())
		}, mc.Budget(n+1), mc.Bound("one pipeline with up to %d deviations, 2 keyword lists; each executed with 3 counts and 4 kinds of values that lookups give to the template", n+1))
		tt.Explore("statements", func(c *mc.C) {
			kws := mc.Pick(c, lists)
			b := builder(c, kws, "{{", "}}")
			b.few = true
			b.w("{{$v := .}}")
			b.stmts(mc.Sel(tt, 1, 2), true, false)
			b.w(tail)
			check(c, b, kws, b.sb.String())
		}, mc.Budget(n), mc.Bound("every statement nested up to %d, up to %d deviations", mc.Sel(tt, 2, 3), n))
		tt.Explore("texts", func(c *mc.C) {
			// texts that are hard to carry through all of the steps
			hard := []string{"a", "100%", "%d items", `say "x"`, `back\slash`, "two\nlines", "\ttab", "中文", "{{x}}", " ", "#~ x", "msgid", "a\u00a0b", "\\n", "'", "<b>&amp;</b>", strings.Repeat("long text ", 30), strings.Repeat("very long text ", 400), "50%%", "%%", "%s%!d", "trailing\n", "\nleading", "\x7f", "msgstr[0]", "A", "aa", "ä", "a ", "a\r\nb", "a\rb", "\r", "\u200b", "\ufeffa", "a\u0301", "😀", "\x1b[1m", "\u2028", "\xff\xfe"}
			call := c.Choose(4)
			id, other := mc.Pick(c, hard), mc.Pick(c, hard)
			b := builder(c, lists[0], "{{", "}}")
			q := func(s string) string { return fmt.Sprintf("%q", s) }
			if c.Bool() && !strings.ContainsAny(id+other, "`\r") {
				q = func(s string) string { return "`" + s + "`" }
			}
			u := use{line: 1, id: id}
			text := ""
			switch call {
			case 0:
				text = "{{T " + q(id) + "}}"
				if id != other {
					text += "{{T " + q(other) + "}}"
					b.uses = append(b.uses, use{line: 1, id: other})
				}
			case 1:
				u.plural, u.id2 = true, other
				text = "{{N " + q(id) + " " + q(other) + "}}"
			case 2:
				u.ctxt = other
				text = "{{X " + q(other) + " " + q(id) + "}}"
			case 3:
				u.ctxt, u.plural, u.id2 = other, true, other
				text = "{{XN " + q(other) + " " + q(id) + " " + q(other) + "}}"
			}
			b.uses = append(b.uses, u)
			check(c, b, lists[0], text)
		}, mc.Budget(mc.Sel(tt, 1, 2)), mc.Bound("every pair of 39 texts as id, context and plural in 4 calls"))
		tt.Explore("relations", func(c *mc.C) {
			// messages that share an id, a context or a plural
			b := builder(c, lists[0], "{{", "}}")
			vals := []string{"a", "b"}
			text := ""
			plural := map[[2]string]bool{}
			for k := 1 + c.Choose(3); k > 0; k-- {
				u := use{line: 1, id: mc.Pick(c, vals)}
				switch c.Choose(4) {
				case 0:
					text += "{{T `" + u.id + "`}}"
				case 1:
					u.plural, u.id2 = true, mc.Pick(c, vals)
					text += "{{N `" + u.id + "` `" + u.id2 + "`}}"
				case 2:
					u.ctxt = mc.Pick(c, vals)
					text += "{{X `" + u.ctxt + "` `" + u.id + "`}}"
				case 3:
					u.ctxt, u.plural, u.id2 = mc.Pick(c, vals), true, mc.Pick(c, vals)
					text += "{{XN `" + u.ctxt + "` `" + u.id + "` `" + u.id2 + "`}}"
				}
				key := [2]string{u.ctxt, u.id}
				if p, ok := plural[key]; ok && p != u.plural {
					c.Abandon() // of clashes only one is kept
				}
				plural[key] = u.plural
				b.uses = append(b.uses, u)
			}
			check(c, b, lists[0], text)
		}, mc.Budget(mc.Sel(tt, 1, 2)), mc.Bound("up to 3 calls of 4 kinds with the ids, contexts and plurals a and b"))
	}, "a template that the text/template package does not accept or stops executing is only followed that far")
}
