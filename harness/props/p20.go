package props

import (
	"context"
	"fmt"
	"os"
	"sort"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

// defaultLocale makes the system's language a known one that no catalogue has.
func defaultLocale() string {
	for _, k := range []string{"LANGUAGE", "LC_ALL", "LC_MESSAGES", "LANG"} {
		os.Unsetenv(k)
	}
	os.Setenv("LC_ALL", "pt_BR.UTF-8")
	os.Setenv("LANG", "pt_BR.UTF-8")
	return "pt_BR"
}

func init() {
	register("C20", func(tt *mc.T) {
		def := defaultLocale()
		ops := worldOps(def)
		depth := mc.Sel(tt, 3, 4)
		history := func(mk func() api) func(c *mc.C) {
			return func(c *mc.C) {
				a := mk()
				m := newModel(def)
				k := c.Choose(depth + 1)
				var hist []string
				for i := 0; i < k; i++ {
					o := ops[c.Choose(len(ops))]
					hist = append(hist, o.name)
					o.impl(c, a)
					o.mod(m)
				}
				c.Logf("%v: %v", hist, m)
				c.State(m.String())
				observe(c, a, m, fmt.Sprint("after ", hist))
				observe(c, a, m, fmt.Sprint("after ", hist, " and every query"))
			}
		}
		tt.Explore("histories", history(func() api { return setAPI(t.NewTranslations()) }), mc.Bound("every history of up to %d of %d operations on a set", depth, len(ops)))
		tt.Explore("package-histories", history(func() api { t.SetGlobal(t.NewTranslations()); return globalAPI() }), mc.Serial(), mc.Bound("the same through the package's functions"))

		// the whole state graph of the model: every operation from every reachable state
		type node struct {
			m    *model
			path []int
		}
		seen := map[string]bool{newModel(def).String(): true}
		nodes := []node{{newModel(def), nil}}
		for i := 0; i < len(nodes); i++ {
			for k, o := range ops {
				m := nodes[i].m.clone()
				o.mod(m)
				if s := m.String(); !seen[s] {
					seen[s] = true
					nodes = append(nodes, node{m, append(append([]int{}, nodes[i].path...), k)})
				}
			}
		}
		longest := len(nodes[len(nodes)-1].path)
		graph := func(mk func() api, nodes []node) func(c *mc.C) {
			return func(c *mc.C) {
				nd := nodes[c.Choose(len(nodes))]
				k := c.Choose(len(ops))
				a := mk()
				var hist []string
				for _, p := range nd.path {
					ops[p].impl(c, a)
					hist = append(hist, ops[p].name)
				}
				observe(c, a, nd.m, fmt.Sprint("after ", hist))
				m := nd.m.clone()
				ops[k].impl(c, a)
				ops[k].mod(m)
				c.State(m.String())
				c.Logf("%v then %s: %v", hist, ops[k].name, m)
				observe(c, a, m, fmt.Sprint("after ", hist, " then ", ops[k].name))
			}
		}
		use := nodes
		if tt.Quick() {
			use = nil
			for i, n := range nodes {
				if i%4 == int(tt.Seed)%4 || len(n.path) < 4 {
					use = append(use, n)
				}
			}
		}
		tt.Explore("state-graph", graph(func() api { return setAPI(t.NewTranslations()) }, use), mc.Bound("%d of the %d reachable model states (longest shortest history %d) x every operation", len(use), len(nodes), longest))

		tt.Explore("domain-names", func(c *mc.C) {
			// names that begin with one another or differ in case or blanks
			names := []string{"d", "d2", "D", "default", "defaul", "default2", "Default", " ", "d ", "é", "a/b", "%d"}
			a := setAPI(t.NewTranslations())
			m := newModel(def)
			a.setLoc("fr")
			m.locale = "fr_FR"
			var hist []string
			for k := 0; k < mc.Sel(tt, 3, 4); k++ {
				d := mc.Pick(c, names)
				switch c.Choose(4) {
				case 0:
					a.bind(d, memFS(contents[0].files))
					m.doms[d] = 0
					hist = append(hist, "bind "+d)
				case 1:
					a.bind(d, memFS(contents[1].files))
					m.doms[d] = 1
					hist = append(hist, "bind another to "+d)
				case 2:
					_, had := m.doms[d]
					if got := a.remove(d); got != had {
						c.Fail("%q: RemoveDomain(%q) = %v", hist, d, got)
					}
					delete(m.doms, d)
					if had && m.domain == d {
						m.domain = "default"
					}
					hist = append(hist, "remove "+d)
				default:
					a.setDomain(d)
					m.domain = d
					hist = append(hist, "set "+d)
				}
			}
			c.State(fmt.Sprint(hist))
			c.Logf("%q", hist)
			for _, d := range names {
				if _, w := m.doms[d]; a.has(d) != w {
					c.Fail("%q: HasDomain(%q) = %v", hist, d, !w)
				}
				dm := m.clone()
				dm.domain = d
				answers(c, setAPI(a.d(d)), dm, fmt.Sprintf("%q, D(%q)", hist, d))
			}
			observe(c, a, m, fmt.Sprintf("after %q", hist))
		}, mc.Bound("every history of %d operations (bind 2 contents, remove, set) on 12 names", mc.Sel(tt, 3, 4)))
		tt.Explore("many-domains", func(c *mc.C) {
			n := mc.Pick(c, []int{1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, mc.Sel(tt, 4097, 65537)})
			name := func(i int) string { return []string{"", "domain ", "text/"}[i%3] + fmt.Sprint(i) }
			ts, m := t.NewTranslations(), newModel(def)
			a := setAPI(ts)
			if c.Bool() {
				t.SetGlobal(ts)
				a = globalAPI()
			}
			for i := 0; i < n; i++ {
				a.bind(name(i), memFS(contents[i%3].files))
				m.doms[name(i)] = i % 3
			}
			switch at := mc.Pick(c, []int{0, 1, n / 2, n - 1, n}); c.Choose(3) {
			case 1: // one is removed
				a.remove(name(at))
				delete(m.doms, name(at))
			case 2: // one is bound again to others
				a.bind(name(at), memFS(contents[(at+1)%3].files))
				m.doms[name(at)] = (at + 1) % 3
			}
			c.State(m.String())
			for _, i := range []int{0, 1, 2, n / 2, n - 2, n - 1, n} {
				if i < 0 || i > n {
					continue
				}
				for _, l := range []string{"de", "fr", "zh"} {
					a.setDomain(name(i))
					a.setLoc(l)
					m.domain, m.locale = name(i), norm[l]
					observe(c, a, m, fmt.Sprintf("%d domains", n))
					observe(c, setAPI(a.d(name(n-i)).L("fr")), func() *model {
						o := m.clone()
						o.domain, o.locale = name(n-i), "fr_FR"
						return o
					}(), fmt.Sprintf("handle of a set of %d domains", n))
				}
			}
		}, mc.Serial(), mc.Bound("up to %d domains, one of five of them removed or bound again, 7 asked in 3 locales", mc.Sel(tt, 4097, 65537)))
		tt.Explore("load-into-current-domain", func(c *mc.C) {
			// LoadFS of the package binds to the current domain
			t.SetGlobal(t.NewTranslations())
			a := globalAPI()
			m := newModel(def)
			var hist []string
			for i := c.Choose(4); i > 0; i-- {
				if c.Bool() {
					k := c.Choose(len(contents))
					t.LoadFS(memFS(contents[k].files))
					if contents[k].loads {
						m.doms[m.domain] = k
					}
					hist = append(hist, "load "+contents[k].name)
				} else {
					d := mc.Pick(c, []string{"main", "default", "other"})
					a.setDomain(d)
					m.domain = d
					hist = append(hist, "set domain "+d)
				}
			}
			a.setLoc("fr")
			m.locale = "fr_FR"
			c.State(m.String())
			c.Logf("%v", hist)
			observe(c, a, m, fmt.Sprint("after ", hist))
		}, mc.Serial())
	}, "RemoveDomain(\"\") is false whatever is bound, as the existing test pins", "SetLocale(\"\") sets the system's language, here pt_BR through the environment")

	register("C21", func(tt *mc.T) {
		def := defaultLocale()
		type handle struct {
			ts *t.Translations
			m  *model
		}
		few := []op{}
		for _, o := range worldOps(def) {
			for _, s := range []string{"bind de+fr to main", "bind fr+zh to main", "bind fr+zh to other", "bind fr+zh to default", "remove \"main\"", "clear", "set domain \"main\"", "set domain \"unknown\"", "set locale \"de\"", "set locale \"fr_FR\"", "set source locale \"DE-de\""} {
				if o.name == s {
					few = append(few, o)
				}
			}
		}
		derive := []struct {
			name string
			impl func(ts *t.Translations) *t.Translations
			mod  func(m *model)
		}{
			{"D(main)", func(ts *t.Translations) *t.Translations { return ts.D("main") }, func(m *model) { m.domain = "main" }},
			{"D(unknown)", func(ts *t.Translations) *t.Translations { return ts.D("unknown") }, func(m *model) { m.domain = "unknown" }},
			{"L(fr)", func(ts *t.Translations) *t.Translations { return ts.L("fr") }, func(m *model) { m.locale = "fr_FR" }},
			{"L(de_DE)", func(ts *t.Translations) *t.Translations { return ts.L("de_DE") }, func(m *model) { m.locale = "de_DE" }},
			{"L(ja)", func(ts *t.Translations) *t.Translations { return ts.L("ja") }, func(m *model) { m.locale = "ja_JP" }},
		}
		gderive := []struct {
			name string
			impl func() *t.Translations
			mod  func(m *model)
		}{
			{"Global()", t.Global, func(m *model) {}},
			{"t.D(main)", func() *t.Translations { return t.D("main") }, func(m *model) { m.domain = "main" }},
			{"t.L(de)", func() *t.Translations { return t.L("de") }, func(m *model) { m.locale = "de_DE" }},
			{"t.L(de_DE)", func() *t.Translations { return t.L("de_DE") }, func(m *model) { m.locale = "de_DE" }},
			{"WithContext()", func() *t.Translations { return t.WithContext(context.Background()) }, func(m *model) {}},
			{"WithContext(locale, domain)", func() *t.Translations {
				return t.WithContext(t.SetCtxDomain(t.SetCtxLocale(context.Background(), "fr"), "main"))
			}, func(m *model) { m.locale, m.domain = "fr_FR", "main" }},
			{"WithContext(domain)", func() *t.Translations { return t.WithContext(t.SetCtxDomain(context.Background(), "main")) }, func(m *model) { m.domain = "main" }},
		}
		evil := ref.NewCat(tagged("de_DE", "evil")...)
		taint := func(tr *t.Translation) {
			f := new(translator.File)
			for _, m := range evil.Sorted() {
				f.AddEntry(toEntry(m))
			}
			tr.AddOrReplace(f)
		}
		depth := mc.Sel(tt, 4, 5)
		run := func(global bool, depth int) func(c *mc.C) {
			return func(c *mc.C) {
				hs := []handle{{t.NewTranslations(), newModel(def)}}
				if global {
					t.SetGlobal(hs[0].ts)
				}
				var hist []string
				step := func(name string, i int) { hist = append(hist, fmt.Sprintf("h%d.%s", i, name)) }
				// start from a set with something in it
				few[0].impl(c, setAPI(hs[0].ts))
				few[0].mod(hs[0].m)
				step(few[0].name, 0)
				if c.Bool() {
					hs[0].ts.SetDomain("main")
					hs[0].ts.SetLocale("de")
					hs[0].m.domain, hs[0].m.locale = "main", "de_DE"
					step("set domain main, locale de", 0)
				}
				k := 1 + c.Choose(depth)
				for i := 0; i < k; i++ {
					h := c.Choose(len(hs))
					nd := len(derive)
					if global && h == 0 {
						nd = len(gderive)
					}
					o := c.Choose(len(few) + nd + 2)
					switch {
					case o < len(few):
						if global && h == 0 {
							few[o].impl(c, globalAPI())
						} else {
							few[o].impl(c, setAPI(hs[h].ts))
						}
						few[o].mod(hs[h].m)
						step(few[o].name, h)
					case o < len(few)+nd:
						if len(hs) == 4 {
							c.Abandon()
						}
						m := hs[h].m.clone()
						var ts *t.Translations
						if global && h == 0 {
							d := gderive[o-len(few)]
							ts = d.impl()
							d.mod(m)
							step(d.name, h)
						} else {
							d := derive[o-len(few)]
							ts = d.impl(hs[h].ts)
							d.mod(m)
							step(d.name, h)
						}
						hs = append(hs, handle{ts, m})
					case o == len(few)+nd:
						taint(hs[h].ts.GetOrNoop("unknown"))
						taint(hs[h].ts.GetOrNoop(hs[h].m.domain + "?"))
						step("GetOrNoop(unknown).AddOrReplace", h)
					default:
						// a loaded set is asked for a translator of an unknown language
						if tr, ok := hs[h].ts.Get("main"); ok {
							tr.GetOrNoop("xx_XX").X("", "m")
						}
						hs[h].ts.GetOrNoop("nowhere").GetOrNoop("de_DE").XN64("", "p", "ps", 2)
						step("noop lookups", h)
					}
				}
				c.Logf("%v", hist)
				var st []string
				for i, h := range hs {
					st = append(st, h.m.String())
					observe(c, setAPI(h.ts), h.m, fmt.Sprintf("after %v, handle %d", hist, i))
				}
				if global {
					observe(c, globalAPI(), hs[0].m, fmt.Sprintf("after %v, the package", hist))
				}
				c.State(strings.Join(st, ";"))
			}
		}
		tt.Explore("handles", run(false, depth), mc.Bound("every history of up to %d operations (11 changes, 5 derivations, 2 probes) on up to 4 handles", depth))
		tt.Explore("global-handles", run(true, depth-1), mc.Serial(), mc.Bound("every history of up to %d operations, also with the package's functions, the global snapshot and contexts", depth-1))
		spell := map[string]string{"": def, "de": "de_DE", "DE": "de_DE", "de_DE": "de_DE", "DE_de": "de_DE", "DE_DE": "de_DE", "de-DE": "de_DE", "de-de": "de_DE", "de_DE.UTF-8": "de_DE", "de_DE@euro": "de_DE", "fr": "fr_FR", "FR": "fr_FR", "fr_FR": "fr_FR", "FR_fr": "fr_FR", "Fr-fR": "fr_FR", "zh_CN": "zh_CN", "ZH_cn": "zh_CN", "zh-Hans": "zh_CN", "ja": "ja_JP", "JA_jp": "ja_JP", "en": "en_US", "EN_us": "en_US"}
		var spellings []string
		for s := range spell {
			spellings = append(spellings, s)
		}
		sort.Strings(spellings)
		domains := []string{"main", "other", "default", "unknown", "Main", "MAIN", "main ", "", "."}
		tt.Explore("spellings", func(c *mc.C) {
			// the same locale and domain again, and in other spellings
			ts := t.NewTranslations()
			m := newModel(def)
			few[0].impl(c, setAPI(ts))
			few[0].mod(m)
			first, second := mc.Pick(c, spellings), mc.Pick(c, spellings)
			d1, d2 := mc.Pick(c, []string{"main", "unknown"}), mc.Pick(c, domains)
			ts.SetLocale(first)
			ts.SetDomain(d1)
			m.locale, m.domain = spell[first], d1
			how := c.Choose(5)
			var h *t.Translations
			hm := m.clone()
			hm.locale, hm.domain = spell[second], d2
			switch how {
			case 0:
				h = ts.L(second).D(d2)
			case 1:
				h = ts.D(d2).L(second)
			case 2:
				t.SetGlobal(ts)
				h = t.L(second).D(d2)
			case 3:
				t.SetGlobal(ts)
				h = t.D(d2).L(second)
			default:
				if second == "" || d2 == "" {
					c.Abandon() // what an empty name in a context means is not said
				}
				t.SetGlobal(ts)
				ctx := t.SetCtxDomain(t.SetCtxLocale(context.Background(), second), d2)
				h = t.WithContext(ctx)
			}
			hist := fmt.Sprintf("%q and %q, then %q and %q in way %d", first, d1, second, d2, how)
			c.Step()
			c.Logf("%s: locale %q", hist, h.Locale())
			c.State(hist)
			observe(c, setAPI(h), hm, "handle of a set with "+hist)
			observe(c, setAPI(ts), m, "set with "+hist)
		}, mc.Serial(), mc.Bound("%d spellings of 6 locales twice, %d domains after 2, in 5 ways", len(spellings), len(domains)))
		tt.Explore("slices-and-lists", func(c *mc.C) {
			// what a query returned belongs to the caller
			ts := t.NewTranslations()
			m := newModel(def)
			o := few[0]
			o.impl(c, setAPI(ts))
			o.mod(m)
			ts.SetDomain("main")
			m.domain = "main"
			h := ts.D("main")
			hm := m.clone()
			for _, l := range [][]string{ts.Locales(), ts.Domains(), h.Locales(), h.Domains()} {
				for i := range l {
					l[i] = "changed"
				}
				_ = append(l, "more")
			}
			if c.Bool() {
				sort.Sort(sort.Reverse(sort.StringSlice(ts.Locales())))
			}
			observe(c, setAPI(ts), m, "after changing returned lists")
			observe(c, setAPI(h), hm, "handle after changing returned lists")
		})
	}, "changes made to a bound domain's catalogues through the Translation that Get returns are shared: they are not operations of the handles", "the set passed to SetGlobal is the global set itself")

	register("C22", func(tt *mc.T) {
		def := defaultLocale()
		defer t.SetGlobal(t.NewTranslations())
		ids := []string{"m", "p", "q", "%d x", "100%", ""}
		pls := []string{"ps", "", "%d xs"}
		ns := []int64{0, 1, 2, 5, -1, 1 << 31, 1<<32 + 1, -1 << 63, 1<<63 - 1}
		argss := [][]any{nil, {5}, {5, "extra"}}
		t0 := func(c *mc.C) (*t.Translations, *model) {
			ts := t.NewTranslations()
			m := newModel(def)
			for _, d := range []string{"default", "main"} {
				k := c.Choose(3)
				if k < 2 {
					ts.BindFS(d, memFS(contents[k].files))
					m.doms[d] = k
				}
			}
			d := mc.Pick(c, []string{"default", "main", "unknown"})
			l := mc.Pick(c, []string{"de", "fr", "zh", "ja"})
			ts.SetDomain(d)
			ts.SetLocale(l)
			m.domain, m.locale = d, norm[l]
			return ts, m
		}
		shorthands := func(c *mc.C, ts *t.Translations, m *model, ids, pls []string, ns []int64, argss [][]any) {
			t.SetGlobal(ts)
			other := mc.Pick(c, []string{"default", "main", "unknown", ""})
			lang := mc.Pick(c, []string{"de", "fr", "ja"})
			c.State(m.String(), other, lang)
			om := m.clone()
			om.domain, om.locale = other, norm[lang]
			type hnd struct {
				name string
				a    api
				m    *model
			}
			dm, lm := m.clone(), m.clone()
			dm.domain = other
			lm.locale = norm[lang]
			hs := []hnd{{"set", setAPI(ts), m}, {"package", globalAPI(), m}, {"t.D().L()", setAPI(t.D(other).L(lang)), om}, {"t.L().D()", setAPI(t.L(lang).D(other)), om}, {"set.D().L()", setAPI(ts.D(other).L(lang)), om}, {"set.L().D()", setAPI(ts.L(lang).D(other)), om},
				{"t.D()", setAPI(t.D(other)), dm}, {"t.L()", setAPI(t.L(lang)), lm}, {"Global()", setAPI(t.Global()), m}}
			for _, h := range hs {
				cat := h.m.cat()
				for _, args := range argss {
					for _, ctxt := range []string{"", "c", "zz"} {
						for _, id := range ids {
							single, _ := cat.X(ctxt, id)
							if mm, ok := cat.M[ctxt+"\x04"+id]; ok && mm.Plural {
								continue
							}
							want := fmtModel(single, args)
							if id == "" && single != "" { // the header, which is no message
								want = h.a.x(ctxt, id, args...)
							}
							chk := func(name, got string) {
								c.Step()
								if got != want {
									c.Fail("%s: %s of (%q,%q) with %v gives %q, want %q (%v)", h.name, name, ctxt, id, args, got, want, h.m)
								}
							}
							chk("X", h.a.x(ctxt, id, args...))
							if ctxt == "" {
								chk("T", h.a.tr(id, args...))
							}
						}
						for _, id := range ids {
							for _, pl := range pls {
								for _, n := range ns {
									want := fmtModel(cat.N(ctxt, id, pl, n), args)
									if hd, _ := cat.X(ctxt, id); id == "" && hd != "" {
										want = h.a.xn64(ctxt, id, pl, n, args...)
									}
									chk := func(name, got string) {
										c.Step()
										if got != want {
											c.Fail("%s: %s of (%q,%q,%q) for %d with %v gives %q, want %q (%v)", h.name, name, ctxt, id, pl, n, args, got, want, h.m)
										}
									}
									chk("XN64", h.a.xn64(ctxt, id, pl, n, args...))
									chk("XN", h.a.xn(ctxt, id, pl, int(n), args...))
									if ctxt == "" {
										chk("N64", h.a.n64(id, pl, n, args...))
										chk("N", h.a.n(id, pl, int(n), args...))
									}
									if pl == "" {
										chk("XN1", h.a.xn1(ctxt, id, int(n), args...))
										chk("XN1_64", h.a.xn1i(ctxt, id, n, args...))
										if ctxt == "" {
											chk("N1", h.a.n1(id, int(n), args...))
											chk("N1_64", h.a.n1i(id, n, args...))
										}
									}
								}
							}
						}
					}
				}
			}
			c.Logf("%v, D(%s), L(%s): %d handles", m, other, lang, len(hs))
		}
		tt.Explore("argument-values", func(c *mc.C) {
			// arguments of every kind reach the formatting as they are
			ts := t.NewTranslations()
			m := newModel(def)
			ts.BindFS("default", memFS(contents[0].files))
			m.doms["default"], m.domain, m.locale = 0, "default", "de_DE"
			ts.SetDomain("default")
			ts.SetLocale("de")
			v := mc.Pick(c, oddArgs)
			shorthands(c, ts, m, []string{"m", "p", "%v", "%+v b", "%[1]s|%[1]d", "%#v"}, []string{"", "%v s", "%T %[1]+v"}, []int64{0, 1, 2}, [][]any{{v}, {v, v}, {1, v}, {v, 1, v}})
		}, mc.Serial(), mc.Bound("%d kinds of arguments (lists, maps, nil pointers, functions, errors, types with own formatting) in 4 lists", len(oddArgs)))
		tt.Explore("shorthands", func(c *mc.C) {
			ts, m := t0(c)
			shorthands(c, ts, m, ids, pls, ns, argss)
		}, mc.Serial(), mc.Bound("9 bindings x 3 domains (another one of 4 by a handle) x 4 locales x 9 handles x every call x 3 contexts x 6 ids x 3 plurals x 9 counts x 3 argument lists"))
		tt.Explore("mark", func(c *mc.C) {
			al := []string{"", "a", "%d", "é\x00", "m", "\n"}
			a, b, d := mc.Pick(c, al), mc.Pick(c, al), mc.Pick(c, al)
			c.Step()
			c.State(a, b, d)
			if g := t.Mark.T(a); g != a {
				c.Fail("Mark.T(%q) = %q", a, g)
			}
			if g, h := t.Mark.N(a, b); g != a || h != b {
				c.Fail("Mark.N(%q,%q) = %q,%q", a, b, g, h)
			}
			if g, h := t.Mark.X(a, b); g != a || h != b {
				c.Fail("Mark.X(%q,%q) = %q,%q", a, b, g, h)
			}
			if g, h, i := t.Mark.XN(a, b, d); g != a || h != b || i != d {
				c.Fail("Mark.XN(%q,%q,%q) = %q,%q,%q", a, b, d, g, h, i)
			}
			n := t.NoopTranslator()
			if n.Lang() != "" || n.X(a, b) != b || n.XN64(a, b, d, 1) != b || n.XN64(a, b, d, 2) != ref.Source(b, d, 2) {
				c.Fail("NoopTranslator does not return the source for (%q,%q,%q)", a, b, d)
			}
		})
	}, "")
}

// fmtModel formats the simple formats of these scenarios.
// oddNeeds tells how many arguments the formats of the scenario argument-values use.
var oddNeeds = map[string]int{"%v": 1, "%+v b": 1, "%v s": 1, "%T %[1]+v": 1, "%[1]s|%[1]d": 1, "%#v": 1}

func fmtModel(s string, args []any) string {
	if len(args) == 0 {
		return s
	}
	if strings.HasSuffix(s, "%") { // an incomplete directive: see C07
		return fmt.Sprintf(s+fmt.Sprintf("%%[%d]s", len(args)+1), append(append([]any{}, args...), "")...)
	}
	if need, ok := oddNeeds[s]; ok && len(args) >= need { // made for the kinds of arguments
		return fmt.Sprintf(s, args[:need]...)
	}
	if !strings.Contains(s, "%d") {
		return s
	}
	return strings.Replace(s, "%d", fmt.Sprint(args[0]), 1)
}
