package props

import (
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/fstest"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

// spy is a translator of one's own: it remembers what it is asked. It cannot be compared.
type spy []any

func newSpy(lang, tag string) spy { return spy{lang, tag, new([]string)} }

func (s spy) Lang() string { return s[0].(string) }
func (s spy) X(ctxt, id string, args ...any) string {
	r := fmt.Sprintf("%s X %q %q %d %v", s[1], ctxt, id, len(args), args)
	*s[2].(*[]string) = append(*s[2].(*[]string), r)
	return r
}
func (s spy) XN64(ctxt, id, id2 string, n int64, args ...any) string {
	r := fmt.Sprintf("%s XN %q %q %q %d %d %v", s[1], ctxt, id, id2, n, len(args), args)
	*s[2].(*[]string) = append(*s[2].(*[]string), r)
	return r
}

func init() {
	register("C34", func(tt *mc.T) {
		who := func(lang, tag string) []ref.Msg {
			return []ref.Msg{header("Language: " + lang), {ID: "who", Str: tag}}
		}
		file := func(lang, tag string) *translator.File { return addAll(who(lang, tag)...) }
		po := func(lang, tag string) []byte { return []byte(ref.WritePo(who(lang, tag)...)) }
		mo := func(lang, tag string) []byte { return ref.BuildMo(ref.Pairs(who(lang, tag)...), ref.MoLayout{}) }
		// ask says who answers for a translator
		ask := func(tr translator.Translator) string {
			if s, ok := tr.(spy); ok {
				return s[1].(string)
			}
			return tr.X("", "who")
		}
		langs := []string{"de_DE", "fr_FR", "zh_CN", "ja_JP"}
		type step struct {
			name string
			do   func(c *mc.C, tr *t.Translation, m map[string]string)
		}
		var ops []step
		put := func(lang, norm string, what string) {
			ops = append(ops, step{fmt.Sprintf("AddOrReplace(%s for %q)", what, lang), func(c *mc.C, tr *t.Translation, m map[string]string) {
				m["#"] += "+"
				tag := fmt.Sprintf("%s-%s-%d", what, lang, len(m["#"]))
				var x t.Translator
				switch what {
				case "spy":
					x = newSpy(lang, tag)
				case "file":
					x = file(lang, tag)
				}
				old := tr.AddOrReplace(x)
				want, had := m[norm]
				if (old != nil) != (had && lang != "") {
					c.Fail("%s returns %v, the translator it replaces is %q", "AddOrReplace", old, want)
				}
				if old != nil && ask(old) != want {
					c.Fail("AddOrReplace of %q returns the translator of %q, it replaces %q", lang, ask(old), want)
				}
				if lang != "" {
					m[norm] = tag
				}
			}})
		}
		put("de", "de_DE", "spy")
		put("de_DE", "de_DE", "file")
		put("DE-de", "de_DE", "file")
		put("de-Latn-DE", "de_DE", "spy")
		put("fr", "fr_FR", "file")
		put("fr_FR.UTF-8", "fr_FR", "spy")
		put("", "", "spy")
		put("", "", "file")
		add := func(name string, ok bool, norm, tag string, f func(tr *t.Translation) error) {
			ops = append(ops, step{name, func(c *mc.C, tr *t.Translation, m map[string]string) {
				if err := f(tr); (err == nil) != ok {
					c.Fail("%s gives the error %v", name, err)
				}
				if ok && norm != "" {
					m[norm] = tag
				}
			}})
		}
		add("LoadPo(zh-hans)", true, "zh_CN", "po zh", func(tr *t.Translation) error { return tr.LoadPo(po("zh-hans", "po zh")) })
		add("LoadMo(zh)", true, "zh_CN", "mo zh", func(tr *t.Translation) error { return tr.LoadMo(mo("zh", "mo zh")) })
		add("LoadPo(no language)", true, "", "", func(tr *t.Translation) error { return tr.LoadPo([]byte("msgid \"who\"\nmsgstr \"nobody\"\n")) })
		add("LoadPo(broken)", false, "", "", func(tr *t.Translation) error {
			return tr.LoadPo(append(po("de_DE", "broken"), "garbage"...))
		})
		add("LoadMo(broken)", false, "", "", func(tr *t.Translation) error { b := mo("de_DE", "broken"); return tr.LoadMo(b[:len(b)-3]) })
		add("LoadPo(MO)", false, "", "", func(tr *t.Translation) error { return tr.LoadPo(mo("de_DE", "swapped")) })
		add("LoadMo(PO)", false, "", "", func(tr *t.Translation) error { return tr.LoadMo(po("de_DE", "swapped")) })
		fileOf := func(name string, data []byte) func(tr *t.Translation) error {
			return func(tr *t.Translation) error {
				f, err := memFS(map[string]string{name: string(data)}).Open(name)
				if err != nil {
					panic(err)
				}
				defer f.Close()
				return tr.LoadFile(f)
			}
		}
		add("LoadFile(de.po)", true, "de_DE", "file po", fileOf("de.po", po("de_DE", "file po")))
		add("LoadFile(x.mo)", true, "de_DE", "file mo", fileOf("x.mo", mo("de", "file mo")))
		add("LoadFile(broken.mo)", false, "", "", fileOf("broken.mo", po("de", "swapped")))
		fsOp := func(name string, loads bool, files map[string]string, norm map[string]string) {
			ops = append(ops, step{name, func(c *mc.C, tr *t.Translation, m map[string]string) {
				if got := tr.LoadFS(memFS(files)); got != loads {
					c.Fail("%s = %v", name, got)
				}
				for k, v := range norm {
					m[k] = v
				}
			}})
		}
		fsOp("LoadFS(de.po, fr.mo)", true, map[string]string{"de.po": string(po("de", "fs de")), "x/fr.mo": string(mo("fr-FR", "fs fr"))}, map[string]string{"de_DE": "fs de", "fr_FR": "fs fr"})
		fsOp("LoadFS(broken)", false, map[string]string{"de.po": "garbage", "fr.mo": "garbage"}, nil)

		observe := func(c *mc.C, tr *t.Translation, m map[string]string, hist []string) {
			for _, l := range append([]string{"xx", ""}, langs...) {
				c.Step()
				want, has := m[l]
				got, ok := tr.Get(l)
				if ok != has || ok && ask(got) != want {
					c.Fail("after %v: Get(%q) finds %v, want %q (%v)", hist, l, ok, want, has)
				}
				g := tr.GetOrNoop(l)
				if g == nil {
					c.Fail("after %v: GetOrNoop(%q) is nil", hist, l)
				}
				if has {
					if ask(g) != want {
						c.Fail("after %v: GetOrNoop(%q) is the translator %q, want %q", hist, l, ask(g), want)
					}
				} else if a, b, d, e := g.X("c", "who %d", 7), g.XN64("c", "one", "%d many", 2, 2), g.XN64("c", "one", "%d many", 1, 1), g.Lang(); a != "who 7" || b != "2 many" || d != "one" || e != "" {
					c.Fail("after %v: the translator of the unknown language %q answers %q, %q, %q, %q", hist, l, a, b, d, e)
				}
			}
		}
		depth := mc.Sel(tt, 4, 5)
		tt.Explore("histories", func(c *mc.C) {
			m := map[string]string{}
			var tr *t.Translation
			var hist []string
			switch c.Choose(3) {
			case 0:
				tr = t.NewTranslation("d")
			case 1:
				tr = t.NewTranslation("d", newSpy("fr", "first"), file("zh", "second"), newSpy("", "nobody"))
				m["fr_FR"], m["zh_CN"] = "first", "second"
			case 2:
				tr = t.NewTranslation("", file("de", "first"), newSpy("de-DE", "second"))
				m["de_DE"] = "second"
			}
			k := c.Choose(depth + 1)
			for i := 0; i < k; i++ {
				o := mc.Pick(c, ops)
				hist = append(hist, o.name)
				o.do(c, tr, m)
			}
			c.State(fmt.Sprint(m))
			c.Logf("%v -> %v", hist, m)
			observe(c, tr, m, hist)
		}, mc.Bound("every history of up to %d of %d operations from 3 starts", depth, len(ops)))
		tt.Explore("constructor", func(c *mc.C) {
			m := map[string]string{}
			var list []t.Translator
			var hist []string
			for k := c.Choose(5); k > 0; k-- {
				lang := mc.Pick(c, []string{"de_DE", "de", "fr_FR", "FR", "", "zh-hans"})
				tag := fmt.Sprintf("%s-%d", lang, k)
				if c.Bool() {
					list = append(list, newSpy(lang, tag))
				} else {
					list = append(list, file(lang, tag))
				}
				hist = append(hist, tag)
				if lang != "" {
					m[map[string]string{"de_DE": "de_DE", "de": "de_DE", "fr_FR": "fr_FR", "FR": "fr_FR", "zh-hans": "zh_CN"}[lang]] = tag
				}
			}
			c.State(fmt.Sprint(m))
			tr := t.NewTranslation(mc.Pick(c, []string{"", "d"}), list...)
			for i := range list {
				list[i] = nil // the list is the caller's
			}
			observe(c, tr, m, hist)
		}, mc.Bound("every list of up to 4 translators of 6 languages and 2 kinds"))
		tt.Explore("passing-on", func(c *mc.C) {
			// what a set is asked arrives unchanged at the translator of its domain and locale
			ts := t.NewTranslations()
			ts.BindFS("main", memFS(contents[0].files))
			ts.BindFS("other", memFS(contents[0].files))
			lang := mc.Pick(c, []string{"ja", "de-DE", "fr_FR"})
			norm := map[string]string{"ja": "ja_JP", "de-DE": "de_DE", "fr_FR": "fr_FR"}[lang]
			s := newSpy(lang, "spy")
			tr, ok := ts.Get("main")
			if !ok {
				c.Fail("the domain main is not there")
			}
			if c.Bool() {
				tr = ts.GetOrNoop("main")
			}
			if old := tr.AddOrReplace(s); (old != nil) != (norm != "ja_JP") {
				c.Fail("AddOrReplace for %s returns %v", lang, old)
			}
			ts.SetDomain("main")
			ts.SetLocale(lang)
			if !strings.Contains(" "+strings.Join(ts.Locales(), " ")+" ", " "+norm+" ") || ts.UsedLocale() != norm {
				c.Fail("with a translator for %s: Locales() = %v, UsedLocale() = %q", lang, ts.Locales(), ts.UsedLocale())
			}
			// another domain does not know it
			if got := ts.D("other").L(lang).X("nope", "who"); got != "who" {
				c.Fail("the other domain answers %q", got)
			}
			a := setAPI(ts)
			switch c.Choose(4) {
			case 1:
				a = setAPI(ts.D("other").D("main"))
			case 2:
				a = setAPI(ts.L("en").L(norm))
			case 3:
				t.SetGlobal(ts)
				a = globalAPI()
			}
			ctxt := mc.Pick(c, []string{"", "c", "\x04", "%d"})
			id := mc.Pick(c, []string{"", "m", "%d x", "\x00", "m\x04n"})
			id2 := mc.Pick(c, []string{"", "ps", "m"})
			n := mc.Pick(c, []int64{0, 1, 2, -1, math.MaxInt64, math.MinInt64, 1 << 32, 1<<31 + 1})
			args := mc.Pick(c, [][]any{nil, {}, {1}, {nil}, {"a", 2.5, []int{1}}, {errors.New("x"), nil}})
			x := func(ctxt, id string) string { return fmt.Sprintf("spy X %q %q %d %v", ctxt, id, len(args), args) }
			xn := func(ctxt, id, id2 string) string {
				return fmt.Sprintf("spy XN %q %q %q %d %d %v", ctxt, id, id2, n, len(args), args)
			}
			c.State(lang, ctxt, id, id2, fmt.Sprint(n, args))
			log := s[2].(*[]string)
			for i, q := range []struct {
				name string
				got  func() string
				want string
			}{
				{"T", func() string { return a.tr(id, args...) }, x("", id)},
				{"X", func() string { return a.x(ctxt, id, args...) }, x(ctxt, id)},
				{"N", func() string { return a.n(id, id2, int(n), args...) }, xn("", id, id2)},
				{"N64", func() string { return a.n64(id, id2, n, args...) }, xn("", id, id2)},
				{"N1", func() string { return a.n1(id, int(n), args...) }, xn("", id, "")},
				{"N1_64", func() string { return a.n1i(id, n, args...) }, xn("", id, "")},
				{"XN", func() string { return a.xn(ctxt, id, id2, int(n), args...) }, xn(ctxt, id, id2)},
				{"XN64", func() string { return a.xn64(ctxt, id, id2, n, args...) }, xn(ctxt, id, id2)},
				{"XN1", func() string { return a.xn1(ctxt, id, int(n), args...) }, xn(ctxt, id, "")},
				{"XN1_64", func() string { return a.xn1i(ctxt, id, n, args...) }, xn(ctxt, id, "")},
			} {
				c.Step()
				if got := q.got(); got != q.want {
					c.Fail("%s of %q, %q, %q, %d, %v gives %q, want %q from the translator", q.name, ctxt, id, id2, n, args, got, q.want)
				}
				if len(*log) != i+1 {
					c.Fail("%s asks the translator %d times", q.name, len(*log)-i)
				}
			}
		}, mc.Serial(), mc.Bound("10 calls on the set, derived sets and the package, 3 languages, 4 contexts, 5 ids, 3 plurals, 8 counts, 6 argument lists"))
		t.SetGlobal(t.NewTranslations())
	}, "which names besides the canonical one Get understands is not documented: only canonical and unknown names are asked")

	register("C37", func(tt *mc.T) {
		// a small world of catalogues and the bytes they come from
		msgs := [][]ref.Msg{
			{header("Language: de_DE", "Plural-Forms: nplurals=2; plural=n != 1;", "X: 1"), {ID: "m", Str: "m one"}, {Ctxt: "c", ID: "m", Str: "cm one", Cmts: []string{"# one"}}, {ID: "p", Plural: true, ID2: "ps", Forms: []string{"p0 one", "p1 one"}}},
			{header("Language: fr_FR", "Plural-Forms: nplurals=2; plural=n>1;", "X: 2"), {ID: "m", Str: "m two"}, {ID: "p", Plural: true, ID2: "ps", Forms: []string{"p0 two", "p1 two"}}, {ID: "q", Str: "q two"}},
		}
		extra := []ref.Msg{{ID: "m", Str: "m added"}, {ID: "p", Plural: true, ID2: "ps", Forms: []string{"p0 added", "p1 added"}}, header("Language: ja_JP", "Plural-Forms: nplurals=1; plural=0;", "X: 3")}
		shared := []ref.Msg{{ID: "m", Str: "m shared"}, {ID: "p", Plural: true, ID2: "ps", Forms: []string{"p0 shared", "p1 shared"}}, header("Language: xx", "X: 4")}
		srcs := [][]byte{[]byte(ref.WritePo(msgs[0]...)), []byte(ref.WritePo(msgs[1]...)), ref.BuildMo(ref.Pairs(msgs[0]...), ref.MoLayout{}), ref.BuildMo(ref.Pairs(msgs[1]...), ref.MoLayout{}), []byte("msgid \"m\"\nmsgstr \"broken\"\nmsgid \"m")}
		type world struct {
			buf  []byte // everything is read from here
			file [2]*translator.File
			cat  [2]*ref.Cat
			rel  [2]bool // comments are kept
		}
		type step struct {
			name string
			do   func(c *mc.C, w *world)
		}
		var ops []step
		for i := 0; i < 2; i++ {
			for k := range srcs {
				ops = append(ops, step{fmt.Sprintf("read source %d into file %d", k, i), func(c *mc.C, w *world) {
					b := append(w.buf[:0], srcs[k]...)
					var f *translator.File
					var err error
					if k == 2 || k == 3 {
						f, err = translator.ReadMo(b)
					} else {
						f, err = translator.ReadPo(b)
					}
					if (err == nil) != (k < 4) {
						c.Fail("reading source %d: %v", k, err)
					}
					if string(b) != string(srcs[k]) {
						c.Fail("reading source %d changes the bytes read", k)
					}
					if k < 4 {
						w.file[i], w.cat[i], w.rel[i] = f, ref.NewCat(msgs[k%2]...), k < 2
					}
				}})
			}
			for k := range extra {
				ops = append(ops, step{fmt.Sprintf("add message %d to file %d", k, i), func(c *mc.C, w *world) {
					w.file[i].AddEntry(toEntry(extra[k]))
					w.cat[i].M[extra[k].Key()] = extra[k]
				}})
			}
			for k := 0; k < 3; k++ {
				for _, limit := range []int{-1, 30} {
					name := []string{"PO", "POT", "MO"}[k]
					ops = append(ops, step{fmt.Sprintf("save file %d as %s, limit %d", i, name, limit), func(c *mc.C, w *world) {
						sink := &faultyWriter{limit: 1 << 30}
						if limit >= 0 {
							sink.limit = limit
						}
						err := []func(*translator.File) error{func(f *translator.File) error { return f.SaveAsPo(sink) }, func(f *translator.File) error { return f.SaveAsPot(sink) }, func(f *translator.File) error { return f.SaveAsMo(sink) }}[k](w.file[i])
						if limit < 0 && err != nil {
							c.Fail("saving as %s: %v", name, err)
						}
					}})
				}
			}
			ops = append(ops, step{fmt.Sprintf("save file %d as PO and read that into file %d", i, 1-i), func(c *mc.C, w *world) {
				if len(w.cat[i].M) == 0 {
					c.Abandon()
				}
				f, err := translator.ReadPo([]byte(savePo(c, w.file[i])))
				if err != nil {
					c.Fail("%v", err)
				}
				w.file[1-i] = f
				w.cat[1-i] = ref.NewCat(w.cat[i].Sorted()...)
				w.rel[1-i] = false
			}}, step{fmt.Sprintf("scramble the list of file %d", i), func(c *mc.C, w *world) {
				l := w.file[i].SortedEntry()
				for k := range l {
					l[k] = nil
				}
				_ = append(l, nil)
			}}, step{fmt.Sprintf("add every message of file %d to file %d", i, 1-i), func(c *mc.C, w *world) {
				for _, e := range w.file[i].SortedEntry() {
					w.file[1-i].AddEntry(e)
				}
				for k, m := range w.cat[i].M {
					w.cat[1-i].M[k] = m
				}
				w.rel[1-i] = w.rel[1-i] && w.rel[i]
			}})
		}
		ops = append(ops, step{"overwrite the bytes", func(c *mc.C, w *world) {
			b := w.buf[:cap(w.buf)]
			for i := range b {
				b[i] = "#msgid \"Z\"\n"[i%11]
			}
		}}, step{"new messages to both files", func(c *mc.C, w *world) {
			for _, m := range shared {
				e := toEntry(m)
				for i := range w.file {
					w.file[i].AddEntry(e)
					w.cat[i].M[m.Key()] = m
				}
			}
		}})
		look := func(c *mc.C, w *world, hist []string) {
			for i, f := range w.file {
				cat := w.cat[i]
				if d := sameCat(f, cat, w.rel[i]); d != "" {
					c.Fail("after %v: file %d: %s", hist, i, d)
				}
				for _, x := range [][2]string{{"", "m"}, {"c", "m"}, {"", "q"}, {"", "absent"}} {
					c.Step()
					want, _ := cat.X(x[0], x[1])
					if got := f.X(x[0], x[1]); got != want {
						c.Fail("after %v: file %d answers (%q,%q) with %q, want %q", hist, i, x[0], x[1], got, want)
					}
				}
				lang, _ := cat.Header("Language")
				if got := f.Lang(); got != lang {
					c.Fail("after %v: file %d has the language %q, want %q", hist, i, got, lang)
				}
				val, _ := cat.Header("X")
				if got, _ := f.GetHeader("X"); got != val {
					c.Fail("after %v: file %d has the header X: %q, want %q", hist, i, got, val)
				}
				for _, n := range []int64{0, 1, 2} {
					want := cat.N("", "p", "ps", n)
					if got := f.XN64("", "p", "ps", n); got != want {
						c.Fail("after %v: file %d answers the plural for %d with %q, want %q", hist, i, n, got, want)
					}
				}
			}
		}
		depth := mc.Sel(tt, 3, 4)
		tt.Explore("files", func(c *mc.C) {
			w := &world{buf: make([]byte, 0, 4096)}
			for i := range w.file {
				w.file[i], w.cat[i], w.rel[i] = new(translator.File), ref.NewCat(), true
			}
			var hist []string
			// one file starts full
			ops[0].do(c, w)
			hist = append(hist, ops[0].name)
			for k := c.Choose(depth + 1); k > 0; k-- {
				o := mc.Pick(c, ops)
				hist = append(hist, o.name)
				o.do(c, w)
			}
			c.State(fmt.Sprint(w.cat[0].Sorted(), w.cat[1].Sorted()))
			c.Logf("%v", hist)
			look(c, w, hist)
		}, mc.Bound("every history of up to %d of %d operations on two catalogues read from one buffer that is reused", depth, len(ops)))

		// catalogues whose headers agree in part
		heads := []string{"nplurals=2; plural=n != 1;", "nplurals=1; plural=n != 1;", "nplurals=3; plural=n != 1;", "nplurals=2; plural=n > 1;", "nplurals=2; plural=n!=1;", "nplurals=2; plural=(n != 1);", "nplurals=1; plural=0;", "nplurals=2; plural=0;", "nplurals=3; plural=n%3;", "nplurals=2; plural=n%3;", "nplurals=2; plural=1;", "", "nplurals=2; plural=n ?;", "nplurals=x; plural=n != 1;"}
		tt.Explore("headers", func(c *mc.C) {
			var files []*translator.File
			var cats []*ref.Cat
			var hist []string
			for k := 0; k < mc.Sel(tt, 2, 3); k++ {
				h := mc.Pick(c, heads)
				same := c.Bool() // the same language and texts
				tag, lang := fmt.Sprint(" of ", k), fmt.Sprintf("l%d", k)
				if same {
					tag, lang = "", "xx"
				}
				fields := []string{"Language: " + lang, "Plural-Forms: " + h}
				ms := []ref.Msg{header(fields...), {ID: "m", Str: "m" + tag}, {ID: "p", Plural: true, ID2: "ps", Forms: []string{"p0" + tag, "p1" + tag, "p2" + tag}}}
				if h == "" {
					ms[0] = header(fields[0])
				}
				f, err := translator.ReadPo([]byte(ref.WritePo(ms...)))
				if k == 0 && c.Bool() {
					f, err = translator.ReadMo(ref.BuildMo(ref.Pairs(ms...), ref.MoLayout{}))
				}
				if err != nil {
					c.Fail("%v", err)
				}
				files, cats, hist = append(files, f), append(cats, ref.NewCat(ms...)), append(hist, fmt.Sprintf("%q %v", h, same))
				if c.Bool() {
					f.XN64("", "p", "ps", 5) // used at once
				}
			}
			c.State(fmt.Sprint(hist))
			for range 2 {
				for i, f := range files {
					for _, n := range []int64{0, 1, 2, 5} {
						c.Step()
						if got, want := f.XN64("", "p", "ps", n), cats[i].N("", "p", "ps", n); got != want {
							c.Fail("catalogues with the rules %q: catalogue %d answers the plural for %d with %q, want %q", hist, i, n, got, want)
						}
					}
					if got, want := f.X("", "m"), cats[i].M["\x04m"].Str; want != "" && got != want {
						c.Fail("catalogues with the rules %q: catalogue %d answers %q, want %q", hist, i, got, want)
					}
				}
			}
		}, mc.Bound("%d catalogues with %d rules that agree in formula, count or text, read one after the other, used at once or later", mc.Sel(tt, 2, 3), len(heads)))

		// sets keep what they have loaded, whatever becomes of the files
		tt.Explore("sets", func(c *mc.C) {
			real := c.Bool()
			dir := ""
			mem := map[string][]byte{}
			if real {
				var err error
				dir, err = os.MkdirTemp(os.Getenv("VMC_SCRATCH"), "iso")
				if err != nil {
					panic(err)
				}
				c.Defer(func() { os.RemoveAll(dir) })
			}
			write := func(v int) {
				b := []byte(ref.WritePo(tagged("de_DE", fmt.Sprint("v", v))...))
				if v == 3 {
					b = []byte("garbage")
				}
				if real {
					if err := os.WriteFile(filepath.Join(dir, "a.po"), b, 0o644); err != nil {
						panic(err)
					}
				} else if old := mem["a.po"]; len(old) == len(b) {
					copy(old, b) // in place
				} else {
					mem["a.po"] = b
				}
			}
			cur := 1
			write(cur)
			sets := []*t.Translations{t.NewTranslations(), t.NewTranslations()}
			for _, s := range sets {
				s.SetLocale("de")
			}
			have := [2]map[string]int{{}, {}}
			bind := func(s int, d string) {
				if real {
					sets[s].BindFS(d, os.DirFS(dir))
				} else {
					m := fstest.MapFS{}
					for k, v := range mem {
						m[k] = &fstest.MapFile{Data: v, Mode: 0o644}
					}
					sets[s].BindFS(d, m)
				}
				if cur < 3 {
					have[s][d] = cur
				}
			}
			var hist []string
			for k := c.Choose(mc.Sel(tt, 4, 5) + 1); k > 0; k-- {
				switch o := c.Choose(11); o {
				case 10:
					for _, s := range sets {
						for _, l := range [][]string{s.Domains(), s.D("x").Locales(), s.D("y").Locales()} {
							for i := range l {
								l[i] = "scribbled"
							}
							l = append(l[:0], "z", "w")
						}
					}
					hist = append(hist, "overwrite the lists the sets gave")
				case 0, 1, 2:
					cur = o + 1
					write(cur)
					hist = append(hist, fmt.Sprintf("write version %d", cur))
				case 3, 4, 5:
					s, d := o/5, []string{"x", "y", "x"}[o-3]
					bind(s, d)
					hist = append(hist, fmt.Sprintf("bind %s in set %d", d, s))
				case 6, 7:
					sets[0].RemoveDomain([]string{"x", "y"}[o-6])
					delete(have[0], []string{"x", "y"}[o-6])
					hist = append(hist, fmt.Sprintf("remove %s from set 0", []string{"x", "y"}[o-6]))
				case 8:
					sets[1].ClearDomains()
					have[1] = map[string]int{}
					hist = append(hist, "clear set 1")
				case 9:
					if real {
						os.Remove(filepath.Join(dir, "a.po"))
						cur = 3
					} else {
						delete(mem, "a.po")
						cur = 3
					}
					hist = append(hist, "delete the file")
				}
			}
			c.State(fmt.Sprint(real, have, cur))
			for s, ts := range sets {
				for _, d := range []string{"x", "y"} {
					c.Step()
					want := "m"
					if v, ok := have[s][d]; ok {
						want = fmt.Sprintf("m v%d", v)
					}
					locs := "en_US"
					if want != "m" {
						locs = "de_DE en_US"
					}
					if got := strings.Join(ts.D(d).Locales(), " "); got != locs {
						c.Fail("after %v: set %d, domain %s: locales %q, want %q", hist, s, d, got, locs)
					}
					if got := ts.D(d).T("m"); got != want {
						c.Fail("after %v: set %d, domain %s: m is %q, want %q (real files: %v)", hist, s, d, got, want, real)
					}
				}
				var names []string
				for d := range have[s] {
					names = append(names, d)
				}
				sort.Strings(names)
				got := ts.Domains()
				sort.Strings(got)
				if strings.Join(got, " ") != strings.Join(names, " ") {
					c.Fail("after %v: set %d has the domains %v, want %v", hist, s, got, names)
				}
			}
			c.Logf("%v", hist)
		}, mc.Bound("every history of up to %d of 11 operations on two sets and the files they load, in memory and on disk", mc.Sel(tt, 4, 5)))
	}, "whether a message changed after it was added changes the catalogue is not documented")
}
