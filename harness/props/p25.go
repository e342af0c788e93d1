package props

import (
	"context"
	"fmt"
	"strings"

	"verif/mc"

	"github.com/youthlin/t"
)

// foreign is somebody else's implementation of a context around ours.
type foreign struct{ context.Context }

func init() {
	register("C25", func(tt *mc.T) {
		def := defaultLocale()
		defer t.SetGlobal(t.NewTranslations())
		type ckey string
		type layer struct {
			name   string
			wrap   func(context.Context) context.Context
			locale *string
			domain *string
		}
		p := func(s string) *string { return &s }
		var layers []layer
		for _, l := range []string{"de", "DE-de", "fr_FR", "ja", "", "zh"} {
			layers = append(layers, layer{"locale " + l, func(c context.Context) context.Context { return t.SetCtxLocale(c, l) }, p(l), nil})
		}
		for _, d := range []string{"main", "default", "unknown", ""} {
			layers = append(layers, layer{"domain " + d, func(c context.Context) context.Context { return t.SetCtxDomain(c, d) }, nil, p(d)})
		}
		layers = append(layers,
			layer{"another value", func(c context.Context) context.Context { return context.WithValue(c, ckey("lang"), "it") }, nil, nil},
			layer{"cancelled", func(c context.Context) context.Context { d, f := context.WithCancel(c); f(); return d }, nil, nil},
			layer{"foreign", func(c context.Context) context.Context { return foreign{c} }, nil, nil},
		)
		type cx struct {
			ctx            context.Context
			locale, domain *string
		}
		depth := mc.Sel(tt, 5, 6)
		check := func(c *mc.C, x cx, g *model, what string) {
			rl, ok := t.GetCtxLocale(x.ctx)
			if ok != (x.locale != nil) || ok && rl != *x.locale {
				c.Fail("%s: GetCtxLocale = %q, %v", what, rl, ok)
			}
			rd, ok := t.GetCtxDomain(x.ctx)
			if ok != (x.domain != nil) || ok && rd != *x.domain {
				c.Fail("%s: GetCtxDomain = %q, %v", what, rd, ok)
			}
			m := g.clone()
			if x.locale != nil {
				m.locale = norm[*x.locale]
				if *x.locale == "" {
					m.locale = def
				}
			}
			if x.domain != nil {
				m.domain = *x.domain
			}
			observe(c, setAPI(t.WithContext(x.ctx)), m, what)
		}
		globals := []struct {
			name           string
			locale, domain string
			doms           map[string]int
		}{
			{"locale fr, domain default", "fr", "default", map[string]int{"default": 0, "main": 1}},
			{"locale de, domain main", "de", "main", map[string]int{"main": 0}},
			{"nothing bound", "zh", "default", nil},
		}
		for i, gl := range globals {
			g := t.NewTranslations()
			gm := newModel(def)
			for d, k := range gl.doms {
				g.BindFS(d, memFS(contents[k].files))
				gm.doms[d] = k
			}
			g.SetDomain(gl.domain)
			g.SetLocale(gl.locale)
			gm.domain, gm.locale = gl.domain, norm[gl.locale]
			t.SetGlobal(g)
			tt.Explore(fmt.Sprint("nesting-", i), func(c *mc.C) {
				roots := []context.Context{context.Background(), context.TODO()}
				chain := []cx{{ctx: mc.Pick(c, roots)}}
				var names []string
				for k := c.Choose(depth + 1); k > 0; k-- {
					l := mc.Pick(c, layers)
					x := chain[len(chain)-1]
					x.ctx = l.wrap(x.ctx)
					if l.locale != nil {
						x.locale = l.locale
					}
					if l.domain != nil {
						x.domain = l.domain
					}
					chain = append(chain, x)
					names = append(names, l.name)
				}
				what := fmt.Sprintf("global with %s, context %s", gl.name, strings.Join(names, " > "))
				c.State(what)
				last := chain[len(chain)-1]
				check(c, last, gm, what)
				// changing the derived set changes nothing else
				d := t.WithContext(last.ctx)
				d.SetLocale("it")
				d.SetDomain("elsewhere")
				d.BindFS("main", memFS(contents[2].files))
				d.ClearDomains()
				if len(chain) > 1 {
					check(c, chain[len(chain)-2], gm, what+" (the context around it)")
				}
				check(c, last, gm, what+" (again)")
				c.Logf("%s: %s", what, t.WithContext(last.ctx).Locale())
			}, mc.Bound("every nesting of up to %d of %d layers", depth, len(layers)))
			tt.Explore(fmt.Sprint("spellings-", i), func(c *mc.C) {
				// names of the same language, and nearly the same domain, in every order
				x := cx{ctx: context.Background()}
				var names []string
				for k := 1 + c.Choose(3); k > 0; k-- {
					if c.Bool() {
						l := mc.Pick(c, []string{"de", "DE-de", "de-DE", "de_DE.UTF-8", "de_DE@euro", "zh", "zh_CN", "zh-Hans", "no such language", " de", "_"})
						x.ctx, x.locale = t.SetCtxLocale(x.ctx, l), p(l)
						names = append(names, l)
					} else {
						d := mc.Pick(c, []string{"main", "Main", "main ", "default", "Default", "mai", "mäin", " "})
						x.ctx, x.domain = t.SetCtxDomain(x.ctx, d), p(d)
						names = append(names, d)
					}
				}
				check(c, x, gm, fmt.Sprintf("global with %s, context %q", gl.name, names))
				c.State(fmt.Sprint(names))
			}, mc.Bound("every nesting of up to 3 of 19 names"))
			tt.Explore(fmt.Sprint("branches-", i), func(c *mc.C) {
				// two contexts from one
				mk := func(x cx) cx {
					l := mc.Pick(c, layers)
					x.ctx = l.wrap(x.ctx)
					if l.locale != nil {
						x.locale = l.locale
					}
					if l.domain != nil {
						x.domain = l.domain
					}
					return x
				}
				root := mk(cx{ctx: context.Background()})
				a, b := mk(root), mk(root)
				for _, x := range []cx{root, a, b} {
					check(c, x, gm, "global with "+gl.name+", branches")
				}
				c.State(fmt.Sprint(a.locale, a.domain, b.locale, b.domain))
			})
			// nothing of this changed the global set
			tt.Explore(fmt.Sprint("global-unchanged-", i), func(c *mc.C) {
				observe(c, globalAPI(), gm, "the global set after all this")
				c.State(gl.name)
			}, mc.Serial())
		}
		tt.Explore("other-packages-values", func(c *mc.C) {
			// values of other packages under keys that look like ours
			type typeLang struct{}
			type typeDomain struct{}
			type lang string
			type any3 struct{ a, b, c string }
			keys := []any{"lang", "language", "Lang", "locale", "domain", "Domain", "textdomain", "", 0, 1, int64(0), struct{}{}, typeLang{}, typeDomain{},
				&typeLang{}, &typeDomain{}, lang("lang"), lang("domain"), ckey("lang"), ckey("domain"), any3{}, [0]int{}, true, "t", "t.lang", "t.domain", "github.com/youthlin/t", "keyLang", "keyDomain", "typeLang", "typeDomain"}
			g := t.NewTranslations()
			g.BindFS("main", memFS(contents[0].files))
			g.SetDomain("main")
			g.SetLocale("fr")
			t.SetGlobal(g)
			gm := newModel(def)
			gm.doms["main"], gm.domain, gm.locale = 0, "main", norm["fr"]
			key := c.Choose(len(keys))
			val := mc.Pick(c, []any{"de", "default", "", nil, 7})
			x := cx{ctx: context.Background()}
			where := c.Choose(3)
			put := func(at int) {
				if at == where {
					x.ctx = context.WithValue(x.ctx, keys[key], val)
				}
			}
			put(0)
			if c.Bool() {
				x.ctx, x.locale = t.SetCtxLocale(x.ctx, "de"), p("de")
			}
			put(1)
			if c.Bool() {
				x.ctx, x.domain = t.SetCtxDomain(x.ctx, "unknown"), p("unknown")
			}
			put(2)
			check(c, x, gm, fmt.Sprintf("context with another package's value %#v under the key %#v (%d)", val, keys[key], where))
			c.State(fmt.Sprint(key, val, where, x.locale != nil, x.domain != nil))
		}, mc.Serial(), mc.Bound("5 foreign values under 31 foreign keys, before, between and after ours"))
		tt.Explore("at-the-time-of-the-call", func(c *mc.C) {
			g := t.NewTranslations()
			t.SetGlobal(g)
			gm := newModel(def)
			l, d := c.Bool(), c.Bool()
			x := cx{ctx: context.Background()}
			if l {
				x.ctx, x.locale = t.SetCtxLocale(x.ctx, "de"), p("de")
			}
			if d {
				x.ctx, x.domain = t.SetCtxDomain(x.ctx, "main"), p("main")
			}
			var names []string
			ops := worldOps(def)
			for k := 0; k < 2; k++ {
				o := mc.Pick(c, ops)
				o.impl(c, globalAPI())
				o.mod(gm)
				names = append(names, o.name)
				check(c, x, gm, fmt.Sprintf("after %v", names))
			}
			c.State(gm.String(), fmt.Sprint(l, d))
		}, mc.Serial(), mc.Bound("every pair of changes of the global set between uses of the same context"))
	}, "a nil context is a programming error")
}
