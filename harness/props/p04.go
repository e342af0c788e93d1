package props

import (
	"fmt"
	"math"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t/translator"
)

func init() {
	register("C04", func(t *mc.T) {
		type rule struct {
			n    int
			expr string
		}
		rules := []rule{{1, "0"}, {2, "n != 1"}, {2, "n>1"}, {3, "n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2"},
			{3, "n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"}, {4, "n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3"},
			{6, "n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5"}, {3, "n==1?0:n==2?1:2"}, {3, "n%3"}, {2, "n%5"}, {3, "n-1"}, {2, "0-1"}, {2, "n==1?0:7"}, {1, "n!=1"}, {2, "2"}, {12, "n%12"}, {10, "n>9?9:n"}, {15, "n%20"}}
		ns := []int64{0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 25, 100, 101, 102, 103, 110, 111, 112, 1001, -1, -2, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 1, 1<<32 + 2, 1 << 40, math.MaxInt64, math.MinInt64}
		extra := mc.Sel(t, 130, 1200)
		t.Explore("rules-and-forms", func(c *mc.C) {
			r := mc.Pick(c, rules)
			np := r.n
			switch c.Choose(4) {
			case 1:
				np = r.n - 1
			case 2:
				np = r.n + 1
			case 3:
				np = 0
			}
			head := fmt.Sprintf([]string{"nplurals=%d; plural=%s;", "nplurals=%d; plural=%s", "nplurals=%d;plural=%s;", " nplurals = %d ; plural = %s ; "}[c.Choose(4)], np, r.expr)
			count := c.Choose(min(r.n, 6) + 3)
			if r.n > 6 {
				count = r.n - 1 + c.Choose(3)
			}
			empty := c.Choose(count+1) - 1
			id2 := mc.Pick(c, []string{"srcs", ""})
			how := c.Choose(nLoad)
			m := ref.Msg{ID: "src", Plural: true, ID2: id2}
			for i := 0; i < count; i++ {
				s := fmt.Sprintf("form%d", i)
				if i == empty {
					s = ""
				}
				m.Forms = append(m.Forms, s)
			}
			if count == 0 {
				if how != 0 {
					c.Abandon()
				}
				m.Str = ""
			}
			hd := header("Language: xx", "Plural-Forms: "+head)
			f := load(c, how, hd, m)
			cat := ref.NewCat(hd, m)
			if count == 1 && empty == 0 && how == 2 {
				// an MO plural message without translations: same lookups
			}
			c.State(head, fmt.Sprint(count, empty, id2, how))
			c.Logf("%s: Plural-Forms %q, %d forms, empty %d, plural source %q", loadNames[how], head, count, empty, id2)
			for _, n := range ns {
				c04Lookup(c, f, cat, "src", "srcs", n)
				c04Lookup(c, f, cat, "src", "", n)
			}
			if empty < 0 && how == 0 {
				for n := int64(0); n < int64(extra); n++ {
					c04Lookup(c, f, cat, "src", id2, n)
				}
			}
		}, mc.Bound("%d rules x nplurals right/one less/one more/0 x 4 spellings x 0..nplurals+2 forms, each possibly empty, x 3 ways of loading, n over %d edge values and 0..%d", len(rules), len(ns), extra-1))
		t.Explore("odd-catalogues", func(c *mc.C) {
			heads := [][]string{nil, {"Language: xx"}, {"Plural-Forms: nplurals=2; plural=n != 1;", "Plural-Forms: nplurals=1; plural=0;"},
				{"plural-forms: nplurals=2; plural=n != 1;"}, {"Plural-Forms: "}, {"Plural-Forms:nplurals=2; plural=n != 1;"},
				{"Plural-Forms: nplurals=2; plural=1"}, {"X: y: z", "Plural-Forms: nplurals=3; plural=n%3;"}, {"Plural-Forms: nplurals=2; plural=n/0;"}, {"Plural-Forms: nplurals=2; plural=;"},
				{"Plural-Forms: nplurals=2; plural=n==1"}, {"Plural-Forms: nplurals=INTEGER; plural=EXPRESSION;"}}
			hd := mc.Pick(c, heads)
			ctxt := mc.Pick(c, []string{"", "ctx"})
			m := ref.Msg{Ctxt: ctxt, ID: "one", Plural: true, ID2: "many"}
			switch c.Choose(7) {
			case 0:
				m.Forms = []string{"F0", "F1", "F2"}
			case 1:
				m.Forms = []string{"F0"}
			case 2: // translated without plural forms
				m.Plural, m.ID2, m.Str = false, "", "S"
			case 3: // untranslated
				m.Forms = nil
			case 4:
				m.Plural, m.ID2, m.Str = false, "", ""
			case 5:
				m.Forms = []string{"", "", ""}
			case 6: // no msgid_plural, but forms
				m.Plural, m.ID2 = false, ""
				m.Forms = []string{"F0", "F1"}
			}
			ms := []ref.Msg{m}
			if hd != nil {
				ms = append(ms, header(hd...))
			}
			if c.Bool() {
				ms[0], ms[len(ms)-1] = ms[len(ms)-1], ms[0]
			}
			f := addAll(ms...)
			cat := ref.NewCat(ms...)
			c.State(fmt.Sprint(ms))
			c.Logf("%v", ms)
			for _, n := range ns {
				for _, id2 := range []string{"many", ""} {
					for _, id := range []string{"one", "other"} {
						c.Step()
						got, want := f.XN64(ctxt, id, id2, n), cat.N(ctxt, id, id2, n)
						if got != want {
							c.Fail("%v: lookup of (%q,%q,%q) for n=%d gives %q, want %q", ms, ctxt, id, id2, n, got, want)
						}
						if ctxt != "" {
							if got, want := f.XN64("", id, id2, n), cat.N("", id, id2, n); got != want {
								c.Fail("%v: lookup of (%q,%q) without context for n=%d gives %q, want %q", ms, id, id2, n, got, want)
							}
						}
					}
				}
			}
		}, mc.Bound("12 headers x 7 kinds of message x order x n"))
		t.Explore("formatted", func(c *mc.C) {
			hd := header("Language: xx", "Plural-Forms: nplurals=2; plural=n != 1;")
			m := ref.Msg{ID: "%d src %s", Plural: true, ID2: "%d srcs %s", Forms: []string{"%d Form %s", "%d Forms %s"}}
			un := ref.Msg{ID: "%d un", Plural: true, ID2: "%d uns", Forms: []string{"", ""}}
			ts := bound("d", "xx", hd, m, un)
			if got, want := ts.UsedLocale(), ts.Locale(); got != want {
				c.Fail("used locale %q, set %q", got, want)
			}
			n := mc.Pick(c, []int{0, 1, 2, 5, 21, -1})
			args := []any{n, "x", 3.5}[:c.Choose(4)]
			format := func(s string) string {
				if len(args) == 0 {
					return s
				}
				k := min(len(args), strings.Count(s, "%"))
				if k < strings.Count(s, "%") {
					return "?"
				}
				return fmt.Sprintf(s, args[:k]...)
			}
			pick := func(a, b string) string {
				if n == 1 {
					return format(a)
				}
				return format(b)
			}
			c.State(fmt.Sprint(n, args))
			for _, x := range []struct{ what, got, want string }{
				{"N", ts.N("%d src %s", "%d srcs %s", n, args...), pick(m.Forms[0], m.Forms[1])},
				{"XN64 untranslated", ts.XN64("", "%d un", "%d uns", int64(n), args...), pick("%d un", "%d uns")},
				{"N64 unknown", ts.N64("%d q", "%d qs", int64(n), args...), pick("%d q", "%d qs")},
				{"N1 unknown", ts.N1("%d q", n, args...), format("%d q")},
				{"XN other context", ts.XN("c", "%d src %s", "%d srcs %s", n, args...), pick("%d src %s", "%d srcs %s")},
			} {
				c.Step()
				c.Logf("%s n=%d args=%v: %q", x.what, n, args, x.got)
				if x.want != "?" && x.got != x.want {
					c.Fail("%s for n=%d, args %v: %q, want %q", x.what, n, args, x.got, x.want)
				}
			}
		})
	}, "plural rules are taken from real languages plus rules that select too high or negative forms")

	register("C05", func(t *mc.T) {
		ids := []string{"a", "b", "ab", "abc", "A", "a ", " a", "a\n", "a|b", "ctx", "ctx|a", "é", "a:b", "a\x01"}
		ctxts := []string{"", "a", "ab", "ctx", "b", "Ctx", "a|", "é"}
		tr := func(ctxt, id string) string { return "T<" + ctxt + ">" + id }
		hd := header("Language: xx", "Plural-Forms: nplurals=2; plural=n != 1;")
		type key struct{ ctxt, id string }
		var keys []key
		for _, x := range ctxts {
			for _, i := range ids {
				keys = append(keys, key{x, i})
			}
		}
		query := func(c *mc.C, x func(ctxt, id string, args ...any) string, xn func(ctxt, id, id2 string, n int64, args ...any) string, cat *ref.Cat, what string) {
			for _, k := range keys {
				c.Step()
				want, ok := cat.X(k.ctxt, k.id)
				got := x(k.ctxt, k.id)
				if ok && got != want {
					c.Fail("%s: lookup of context %q id %q gives %q, want %q", what, k.ctxt, k.id, got, want)
				}
				for _, n := range []int64{1, 2} {
					if got, want := xn(k.ctxt, k.id, "pl", n), cat.N(k.ctxt, k.id, "pl", n); got != want {
						c.Fail("%s: plural lookup of context %q id %q n=%d gives %q, want %q", what, k.ctxt, k.id, n, got, want)
					}
				}
			}
		}
		n := mc.Sel(t, 2, 3)
		t.Explore("subsets", func(c *mc.C) {
			how := c.Choose(nLoad + 1)
			ms := []ref.Msg{hd}
			start := 0
			pool := keys
			if n == 3 || how > 0 {
				pool = nil
				for i, k := range keys {
					if i%3 == 0 {
						pool = append(pool, k)
					}
				}
			}
			for i := 0; i < n; i++ {
				k := start + c.Choose(len(pool)-start+1)
				if k >= len(pool) {
					break
				}
				start = k + 1
				m := ref.Msg{Ctxt: pool[k].ctxt, ID: pool[k].id, Str: tr(pool[k].ctxt, pool[k].id)}
				switch c.Choose(3) {
				case 1:
					m.Str = ""
					if how == 1 || how == 3 {
						c.Abandon() // a PO reader drops untranslated messages
					}
				case 2:
					m.Plural, m.ID2, m.Str = true, "pl", ""
					m.Forms = []string{tr(m.Ctxt, m.ID) + "0", tr(m.Ctxt, m.ID) + "1"}
				}
				ms = append(ms, m)
				if start >= len(pool) {
					break
				}
			}
			cat := ref.NewCat(ms...)
			c.State(fmt.Sprint(ms[1:], how))
			c.Logf("how %d: %v, every (context,id) pair asked", how, ms[1:])
			if how == nLoad {
				ts := bound("d", "xx", ms...)
				query(c, ts.X, ts.XN64, cat, fmt.Sprint("bound ", ms[1:]))
				return
			}
			f := load(c, how, ms...)
			query(c, f.X, f.XN64, cat, fmt.Sprint(loadNames[how], ms[1:]))
		}, mc.Bound("every set of up to %d messages of a pool of %d confusable (context,id) pairs, translated, untranslated or plural, loaded in 4 ways, all %d pairs asked singular and plural", n, len(keys), len(keys)))
		t.Explore("run-together", func(c *mc.C) {
			// texts made of the characters a key might be glued together with
			a, b := mc.Pick(c, []string{"0", "1", "9", ":", "|", "/", " ", "\"", "a", "\x00", "\t"}), mc.Pick(c, []string{"", "0", "1", "2", ":", "|", "x", "\x00"})
			how := c.Choose(nLoad + 1)
			if strings.Contains(a+b, "\x00") && how != 0 { // MO strings end with it
				c.Abandon()
			}
			var ms []ref.Msg
			const top = 12
			tr := func(i, j int) string { return fmt.Sprintf("T %d %d", i, j) }
			// every second pair is stored, so each of the others must miss
			stored := c.Choose(2)
			for i := 0; i <= top; i++ {
				for j := 1; j <= top; j++ {
					if (i+j)%2 == stored {
						ms = append(ms, ref.Msg{Ctxt: strings.Repeat(a, i), ID: strings.Repeat(a, j) + b, Str: tr(i, j)})
					}
				}
			}
			c.State(a, b, fmt.Sprint(how, stored))
			var x func(string, string, ...any) string
			if how == nLoad {
				x = bound("d", "xx", append([]ref.Msg{hd}, ms...)...).X
			} else {
				x = load(c, how, append([]ref.Msg{hd}, ms...)...).X
			}
			for i := 0; i <= top; i++ {
				for j := 1; j <= top; j++ {
					c.Step()
					ctxt, id := strings.Repeat(a, i), strings.Repeat(a, j)+b
					want := id
					if (i+j)%2 == stored {
						want = tr(i, j)
					}
					if a == b {
						continue
					}
					if got := x(ctxt, id); got != want {
						c.Fail("context %q id %q gives %q, want %q (stored: every other pair of repetitions of %q)", ctxt, id, got, want, a)
					}
				}
			}
			c.Logf("%q repeated, id ends with %q: %d messages, all pairs asked", a, b, len(ms))
		}, mc.Bound("11 characters repeated 0..12 times as context and 1..12 times as id, 8 ends of the id, every other pair stored, loaded in 4 ways"))
		t.Explore("other-bytes", func(c *mc.C) {
			// bytes of other encodings, and texts that look the same
			texts := []string{"\xe4", "\xf6", "\xe4\xf6", "\xff", "\xc3", "\xc3\xa4", "\ufffd", "a\u0308", "\u00e4", "\u2028", "\ufeff", "\u00a0", " ", "A", "a", "\u0410", "\u1e9e", "ss", "\u0130", "i", "a\nb", "a\r\nb", "a\rb", "a b", "a  b", "a\tb", "a\u200bb", "ab", "&amp;", "&", "%20", "+", "\\n", "\n", "a.", "a", "A:"}
			how := c.Choose(nLoad + 1)
			i := c.Choose(len(texts))
			j := c.Choose(len(texts))
			asCtxt := c.Choose(2) == 1
			ms := []ref.Msg{hd}
			add := func(x, str string) {
				m := ref.Msg{ID: x, Str: str}
				if asCtxt {
					m = ref.Msg{Ctxt: x, ID: "id", Str: str}
				}
				ms = append(ms, m)
			}
			add(texts[i], "I")
			if texts[i] != texts[j] {
				add(texts[j], "J")
			}
			cat := ref.NewCat(ms...)
			c.State(fmt.Sprintf("%q", ms[1:]), fmt.Sprint(how))
			c.Logf("how %d: %q, every text asked", how, ms[1:])
			var x func(string, string, ...any) string
			if how == nLoad {
				x = bound("d", "xx", ms...).X
			} else {
				x = load(c, how, ms...).X
			}
			for _, text := range texts {
				c.Step()
				ctxt, id := "", text
				if asCtxt {
					ctxt, id = text, "id"
				}
				want, _ := cat.X(ctxt, id)
				if got := x(ctxt, id); got != want {
					c.Fail("context %q id %q gives %q, want %q (stored: %q)", ctxt, id, got, want, ms[1:])
				}
			}
		}, mc.Bound("every pair of 37 texts (bytes that are not UTF-8, texts that look or fold alike, line ends, blanks and escapes of different kinds) as ids or contexts, loaded in 4 ways, all asked"))
		t.Explore("long-and-many", func(c *mc.C) {
			k := mc.Pick(c, []int{1, 7, 8, 9, 64, 200})
			l := mc.Pick(c, []int{1, 76, 77, 78, 255, 256, 1000, 5000, 70000})
			if l > 1000 && k > 9 {
				c.Abandon()
			}
			how := c.Choose(nLoad)
			var ms []ref.Msg
			for i := 0; i < k; i++ {
				base := strings.Repeat("x y", l)[:l]
				m := ref.Msg{Ctxt: "", ID: fmt.Sprintf("%s%d", base, i), Str: fmt.Sprintf("T%s%d", base, i)}
				if i%2 == 1 {
					m.Ctxt = ms[i-1].ID
				}
				ms = append(ms, m)
			}
			f := load(c, how, ms...)
			c.State(fmt.Sprint(k, l, how))
			for _, m := range ms {
				c.Step()
				if got := f.X(m.Ctxt, m.ID); got != m.Str {
					c.Fail("%s, %d messages: lookup of (%q,%q) gives %q, want %q", loadNames[how], k, m.Ctxt, m.ID, got, m.Str)
				}
				if got := f.X(m.Ctxt+"x", m.ID); got != m.ID {
					c.Fail("%s: lookup of (%q,%q) gives %q, want the id", loadNames[how], m.Ctxt+"x", m.ID, got)
				}
				if m.Ctxt != "" {
					if got := f.X("", m.ID); got != m.ID {
						c.Fail("%s: lookup of (%q) without its context gives %q, want the id", loadNames[how], m.ID, got)
					}
				}
			}
		}, mc.Bound("up to 200 messages with ids of up to 1000 bytes, up to 9 with ids of up to 70000"))
		t.Explore("id-equals-translation-and-empties", func(c *mc.C) {
			ms := []ref.Msg{}
			pool := []ref.Msg{{ID: "a", Str: "a"}, {ID: "a", Ctxt: "c", Str: "x"}, {ID: "x", Str: "a"}, {ID: "", Ctxt: "c", Str: "empty id"}, header("Language: xx"), {ID: "%d", Str: "%s"}, {ID: "a\x04b", Str: "z"}}
			ms = mc.Subset(c, pool)
			f := addAll(ms...)
			cat := ref.NewCat(ms...)
			c.State(fmt.Sprint(ms))
			for _, x := range []string{"", "c", "a"} {
				for _, id := range []string{"a", "x", "", "%d", "b", "a\x04b", "y"} {
					if x != "" && strings.Contains(id, "\x04") {
						continue
					}
					c.Step()
					want, _ := cat.X(x, id)
					if got := f.X(x, id); got != want {
						c.Fail("%v: lookup (%q,%q) gives %q, want %q", ms, x, id, got, want)
					}
				}
			}
			c.Logf("%v", ms)
		})
	}, "contexts and ids containing the separator byte EOT (0x04) are excluded: the format cannot represent them")

	register("C06", func(t *mc.T) {
		heads := []ref.Msg{
			header("Language: aa", "Plural-Forms: nplurals=2; plural=n != 1;", "X-A: 1"),
			header("Language: bb", "Plural-Forms: nplurals=3; plural=n%3;", "X-B: 2", "X-A: 7"),
			header("X-A: first", "X-A: second", "Language: cc", "Language: dd", "bad line", "Plural-Forms: nplurals=1; plural=0;", "Plural-Forms: nplurals=3; plural=2;"),
			header("Plural-Forms: nplurals=2; plural=n>1"),
			{Str: "Language: ee"},
			{Str: ""},
			header(" Language : ff ", "X-A: a: b: c", ": empty", "X-B:"),
			header("language: low", "Language: gg", "PLURAL-FORMS: nplurals=1; plural=0;", "Plural-Forms: nplurals=3; plural=n%3;", "x-b: low", "X-B: up", "X-A: up", "x-a: low"),
			header("X-A: a\\nLanguage: zz", "Language: h\\th", "X-B: a\tb\\", "Plural-Forms: nplurals=2; plural=n>1;\\nX: y"),
			header("X-A: \"q\" ; # é\x04", "X-B: a\r", "Language: %d"),
		}
		others := []ref.Msg{
			{Ctxt: "c", ID: "", Str: "Language: zz\nPlural-Forms: nplurals=1; plural=0;\n"},
			{ID: "s", Plural: true, ID2: "ss", Forms: []string{"F0", "F1", "F2"}},
			{Ctxt: "menu", ID: "m", Str: "M"},
			{ID: "Language", Str: "X-A: no"},
		}
		keys := []string{"Language", "Plural-Forms", "X-A", "X-B", "language", "x-a", "x-b", "plural-forms", "PLURAL-FORMS", "", "bad line"}
		nOps := len(heads) + len(others)
		query := func(c *mc.C, f *translator.File, cat *ref.Cat, hist []string) {
			c.Step()
			lang, _ := cat.Header("Language")
			if got := f.Lang(); got != lang {
				c.Fail("after %v: Lang() = %q, want %q", hist, got, lang)
			}
			for _, k := range keys {
				if k == "" {
					continue
				}
				want, wok := cat.Header(k)
				if got, ok := f.GetHeader(k); got != want || ok != wok {
					c.Fail("after %v: GetHeader(%q) = %q,%v; want %q,%v", hist, k, got, ok, want, wok)
				}
			}
			for _, n := range []int64{0, 1, 2, 3, 5} {
				if got, want := f.XN64("", "s", "ss", n), cat.N("", "s", "ss", n); got != want {
					c.Fail("after %v: plural lookup for n=%d gives %q, want %q", hist, n, got, want)
				}
			}
			if got := f.X("c", ""); got != cat.M["c\x04"].Str {
				c.Fail("after %v: lookup of the empty id in context c gives %q, want %q", hist, got, cat.M["c\x04"].Str)
			}
		}
		depth := mc.Sel(t, 4, 5)
		t.Explore("histories", func(c *mc.C) {
			f := new(translator.File)
			cat := ref.NewCat()
			var hist []string
			k := 1 + c.Choose(depth)
			for i := 0; i < k; i++ {
				op := c.Choose(nOps + 1)
				if op == nOps {
					hist = append(hist, "query")
					query(c, f, cat, hist)
				} else {
					m := append(append([]ref.Msg{}, heads...), others...)[op]
					hist = append(hist, "add "+m.String())
					f.AddEntry(toEntry(m))
					cat.M[m.Key()] = m
				}
			}
			c.Logf("%v, then every query", hist)
			c.State(fmt.Sprint(cat.Sorted()), fmt.Sprint(len(hist) > 0 && hist[len(hist)-1] == "query"))
			query(c, f, cat, hist)
			query(c, f, cat, hist)
		}, mc.Bound("every sequence of up to %d operations of %d (10 headers, 4 messages, query)", depth, nOps+1))
		t.Explore("lines", func(c *mc.C) {
			// lines that are fields, empty, blank or something else, in every order
			lines := []string{"", "Language: aa", "Language: bb", "X-A: 1", "X-A: 2", "bad line", " ", "Plural-Forms: nplurals=2; plural=n>1;", "Plural-Forms: nplurals=3; plural=n%3;", "X-A:", "X-B:  b ", "# c", "\tX-A: 3", "X-B: Language: q", "Language:", "Language: "}
			str := ""
			for i := c.Choose(mc.Sel(t, 4, 5)) + 1; i > 0; i-- {
				str += mc.Pick(c, lines)
				if i > 1 || c.Bool() {
					str += "\n"
				}
			}
			ms := []ref.Msg{{Str: str}, others[1]}
			how := c.Choose(nLoad)
			c.State(str, fmt.Sprint(how))
			c.Logf("header %q, loaded in way %d", str, how)
			query(c, load(c, how, ms...), ref.NewCat(ms...), []string{fmt.Sprintf("loading a header %q", str)})
		}, mc.Bound("every header of up to %d of 16 lines (fields, repeated fields, empty, blank and other lines), with and without a last line end, loaded in %d ways", mc.Sel(t, 4, 5), nLoad))
		t.Explore("impostors", func(c *mc.C) {
			// messages that look like a header, but are none
			first := mc.Pick(c, []string{"Project-Id-Version: p 1", "Report-Msgid-Bugs-To: x", "POT-Creation-Date: 2020-01-01 00:00+0000", "PO-Revision-Date: YEAR-MO-DA HO:MI+ZONE", "Last-Translator: T", "Language-Team: none", "Language: zz", "MIME-Version: 1.0", "Content-Type: text/plain; charset=UTF-8", "Content-Transfer-Encoding: 8bit", "Plural-Forms: nplurals=1; plural=0;", "X-A: no"})
			text := first + "\nLanguage: zz\nPlural-Forms: nplurals=1; plural=0;\nX-A: no\n"
			imp := mc.Pick(c, []ref.Msg{{Ctxt: "c", Str: text}, {Ctxt: "header", Str: text}, {Ctxt: " ", Str: text}, {ID: " ", Str: text}, {ID: "\n", Str: text}, {ID: "header", Str: text}, {Ctxt: "c", Plural: true, ID2: "x", Forms: []string{text, text}}, {ID: "x", Plural: true, ID2: "", Forms: []string{text}}, {ID: text, Str: text}, {Ctxt: text, Str: text}})
			ms := []ref.Msg{imp, others[1]}
			if h := c.Choose(5); h > 0 {
				ms = append(ms, []ref.Msg{heads[0], heads[1], heads[4], header("Project-Id-Version: q", "X-B: 1")}[h-1])
			}
			f := new(translator.File)
			cat := ref.NewCat()
			var hist []string
			for _, i := range c.Perm(len(ms)) {
				hist = append(hist, "add "+ms[i].String())
				f.AddEntry(toEntry(ms[i]))
				cat.M[ms[i].Key()] = ms[i]
				if c.Bool() {
					hist = append(hist, "query")
					query(c, f, cat, hist)
				}
			}
			c.State(fmt.Sprint(hist))
			c.Logf("%v", hist)
			query(c, f, cat, hist)
			in := make([]ref.Msg, 0, 3)
			for _, m := range ms {
				if m.ID2 == "" && m.Plural || strings.ContainsAny(m.ID, "\x04") {
					continue
				}
				in = append(in, m)
			}
			if len(in) < len(ms) {
				return
			}
			g, err := translator.ReadPo([]byte(ref.WritePo(in...)))
			if err != nil {
				c.Fail("%v: %v", in, err)
			}
			query(c, g, cat, append(hist, "written and read as PO"))
			if g, err = translator.ReadMo(ref.BuildMo(ref.Pairs(in...), ref.MoLayout{})); err != nil {
				c.Fail("%v: %v", in, err)
			}
			query(c, g, cat, append(hist, "written and read as MO"))
		}, mc.Bound("messages of 10 kinds with the text of a header that begins with each of 12 usual lines, beside 4 headers or none, added in every order, with queries in between, and read from PO and MO"))
		t.Explore("replaced-headers", func(c *mc.C) {
			f := new(translator.File)
			cat := ref.NewCat()
			var hist []string
			add := func(m ref.Msg) {
				hist = append(hist, "add "+m.String())
				f.AddEntry(toEntry(m))
				cat.M[m.Key()] = m
			}
			if first := c.Bool(); first {
				add(others[1])
			}
			k := 2 + c.Choose(2)
			for i := 0; i < k; i++ {
				var l []string
				if v := c.Choose(3); v > 0 {
					l = append(l, "Language: "+[]string{"aa", "bb"}[v-1])
				}
				if v := c.Choose(4); v > 0 {
					l = append(l, "Plural-Forms: "+[]string{"nplurals=2; plural=n != 1;", "nplurals=3; plural=n%3;", "nplurals=3; plural=2;"}[v-1])
				}
				m := header(l...)
				add(m)
				switch c.Choose(3) {
				case 1:
					hist = append(hist, "plural query")
					c.Step()
					if got, want := f.XN64("", "s", "ss", 2), cat.N("", "s", "ss", 2); got != want {
						c.Fail("after %v: plural lookup for n=2 gives %q, want %q", hist, got, want)
					}
				case 2:
					hist = append(hist, "query of the language")
					c.Step()
					if want, _ := cat.Header("Language"); f.Lang() != want {
						c.Fail("after %v: Lang() = %q, want %q", hist, f.Lang(), want)
					}
				}
			}
			if len(cat.M) == 1 {
				add(others[1])
			}
			c.State(fmt.Sprint(hist))
			c.Logf("%v", hist)
			query(c, f, cat, hist)
		}, mc.Bound("up to 3 header entries after one another, each of 3 languages x 4 rules, queried in 3 ways in between"))
		t.Explore("sizes", func(c *mc.C) {
			// a header of many or long lines, or a header among many messages
			size := mc.Pick(c, []int{1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 4096, 5000, 32769, mc.Sel(t, 65537, 140000)})
			what := c.Choose(4)
			var before, after []string
			ms := []ref.Msg{others[1]}
			switch what {
			case 0: // many lines
				for i := 0; i < size; i++ {
					before = append(before, fmt.Sprintf("X-Field-%d: value %d", i, i))
				}
			case 1: // a long line
				before = append(before, "X-Long: "+strings.Repeat("x", size))
			case 2: // many messages
				for i := 0; i < size; i++ {
					ms = append(ms, ref.Msg{ID: fmt.Sprint("message ", i), Str: fmt.Sprint(i)})
				}
			case 3: // a rule and a language with much white space before them
				before = append(before, "X-Blank: "+strings.Repeat(" ", size)+"y")
			}
			if c.Bool() {
				before, after = nil, before
			}
			ms = append([]ref.Msg{header(append(append(before, "Language: aa", "Plural-Forms: nplurals=3; plural=n%3;"), after...)...)}, ms...)
			if c.Bool() { // the header comes last
				ms = append(ms[1:], ms[0])
			}
			how := c.Choose(2)
			c.State(fmt.Sprint(size, what, len(after), ms[0].ID, how))
			cat := ref.NewCat(ms...)
			f := load(c, how, ms...)
			c.Step()
			hist := []string{fmt.Sprintf("%s, size %d of kind %d", loadNames[how], size, what)}
			for _, n := range []int64{0, 1, 2, 3, 5} {
				if got, want := f.XN64("", "s", "ss", n), cat.N("", "s", "ss", n); got != want {
					c.Fail("%v: plural lookup for n=%d gives %q, want %q", hist, n, got, want)
				}
			}
			if f.Lang() != "aa" {
				c.Fail("%v: Lang() = %q", hist, f.Lang())
			}
			for _, h := range append(before, after...) {
				name, value, _ := strings.Cut(h, ": ")
				want, ok := cat.Header(name)
				if got, has := f.GetHeader(name); has != ok || got != want {
					c.Fail("%v: GetHeader(%q) = %q, want %q (%q)", hist, name, tail(got), tail(want), tail(value))
				}
				if len(before)+len(after) > 2000 { // looking all of them up takes long
					break
				}
			}
		}, mc.Workers(4), mc.Bound("headers of up to %d lines or bytes in a line, and headers before or after as many messages", mc.Sel(t, 65537, 140000)))
		t.Explore("orders", func(c *mc.C) {
			// a catalogue's answers do not depend on where the header stands in the file
			hd := mc.Pick(c, heads)
			ms := append([]ref.Msg{hd}, others...)
			p := c.Perm(len(ms))
			var in []ref.Msg
			for _, i := range p {
				in = append(in, ms[i])
			}
			cat := ref.NewCat(ms...)
			how := c.Choose(2)
			if hd.Str == "" && how == 1 {
				delete(cat.M, hd.Key())
			}
			c.State(fmt.Sprint(p, how), hd.Str)
			query(c, load(c, how, in...), cat, []string{loadNames[how], fmt.Sprint(in)})
		}, mc.Bound("10 headers x every order of 5 messages x AddEntry or PO text"))
	}, "")
}

func c04Lookup(c *mc.C, f *translator.File, cat *ref.Cat, id, id2 string, n int64) {
	c.Step()
	got, want := f.XN64("", id, id2, n), cat.N("", id, id2, n)
	if got != want {
		c.Fail("catalogue %v: lookup for n=%d, plural source %q gives %q, want %q", cat.Sorted(), n, id2, got, want)
	}
}
