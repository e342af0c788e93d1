package props

import (
	"bufio"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"

	"verif/mc"

	"github.com/youthlin/t"
	"golang.org/x/text/language"
)

func init() {
	register("C38", func(tt *mc.T) {
		def := defaultLocale()
		defer t.SetGlobal(t.NewTranslations())
		type wish struct {
			line  string // lines of the request
			value string // of the cookie that counts
			has   bool
		}
		cookies := []wish{{}, {"Cookie: lang=de\r\n", "de", true}, {"Cookie: lang=fr_FR\r\n", "fr_FR", true}, {"Cookie: lang=zh-Hans\r\n", "zh-Hans", true}, {"Cookie: lang=de_DE.UTF-8\r\n", "de_DE.UTF-8", true},
			{"Cookie: lang=DE-de; lang=fr\r\n", "DE-de", true}, {"cookie: a=b; lang=zh; c\r\n", "zh", true}, {"Cookie: a=fr\r\nCookie: lang=\"de\"\r\n", "de", true}, {"Cookie: lang=_\r\n", "_", true},
			{"Cookie: Lang=de; langs=fr; xlang=zh\r\n", "", false}, {"Cookie: lang=é\r\n", "", false}, {"Cookie: lang=\r\n", "", true}, {"Cookie: =;;;=lang\r\n", "", false}, {"Cookie: lang=ja\r\n", "ja", true},
			{"Cookie: lang=" + strings.Repeat("x", 3000) + "\r\n", strings.Repeat("x", 3000), true}, {"Cookie: lang=de_DE@euro\r\n", "de_DE@euro", true}}
		accepts := []string{"-", "", "de", "fr", "fr-CH, de;q=0.3", "zh-CN", "zh-Hant;q=0.1,de;q=0.9", "ja,ko", "*", "de;q=0,fr", "ja, de-AT;q=0.2", ";;;,q=", "en", strings.Repeat("ja,", 300) + "fr", "it-IT,it;q=0.8,fr;q=0.5,de;q=0.3", "de-DE-x-private", "ja\nde", "ko\nfr;q=0.2\nzh;q=0.4", "\xff\xfe"}
		domains := []string{"-", "main", "default", "other", "unknown", ""}
		norm := func(l string) string {
			switch {
			case l == "":
				return def
			case len(l) > 2000:
				return "en_US"
			}
			n, ok := norm[l]
			if !ok {
				panic("what does " + l + " normalise to?")
			}
			return n
		}
		read := func(c *mc.C, ck wish, accept string) *http.Request {
			raw := "GET / HTTP/1.1\r\nHost: x\r\n" + ck.line
			if accept != "-" {
				for _, l := range strings.Split(accept, "\n") {
					raw += "Accept-Language: " + l + "\r\n"
				}
			}
			r, err := http.ReadRequest(bufio.NewReader(strings.NewReader(raw + "\r\n")))
			if err != nil {
				c.Abandon()
			}
			return r
		}
		// negotiated is the language a request asks for, of the global set's.
		negotiated := func(ck wish, accept string, g *model) string {
			if ck.has {
				return norm(ck.value)
			}
			sup := g.locales()
			var tags []language.Tag
			for _, s := range sup {
				tags = append(tags, language.Make(s))
			}
			want, _, _ := language.ParseAcceptLanguage(strings.ReplaceAll(strings.TrimPrefix(accept, "-"), "\n", ","))
			_, i, _ := language.NewMatcher(tags).Match(want...)
			return sup[i]
		}
		negotiate := func(next http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				next.ServeHTTP(w, r.WithContext(t.SetCtxLocale(r.Context(), t.GetUserLang(r))))
			})
		}
		domain := func(d string, next http.Handler) http.Handler {
			if d == "-" {
				return next
			}
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				next.ServeHTTP(w, r.WithContext(t.SetCtxDomain(r.Context(), d)))
			})
		}
		worlds := []struct {
			name         string
			doms         map[string]int
			domain, locl string
			source       string
		}{
			{"default de+fr, main fr+zh", map[string]int{"default": 0, "main": 1}, "default", "fr", "en"},
			{"main de+fr, other fr+zh, domain main, source de", map[string]int{"main": 0, "other": 1}, "main", "zh", "DE-de"},
			{"nothing", nil, "default", "ja", "en"},
			{"default without language, main de+fr, domain unbound", map[string]int{"default": 2, "main": 0}, "unbound", "de", "en"},
		}
		world := func(i int) *model {
			w := worlds[i]
			g, m := t.NewTranslations(), newModel(def)
			for d, k := range w.doms {
				g.BindFS(d, memFS(contents[k].files))
				m.doms[d] = k
			}
			g.SetDomain(w.domain)
			g.SetLocale(w.locl)
			g.SetSourceCodeLocale(w.source)
			m.domain, m.locale, m.source = w.domain, norm(w.locl), norm(w.source)
			t.SetGlobal(g)
			return m
		}
		for i, w := range worlds {
			gm := world(i)
			tt.Explore(fmt.Sprint("pages-", i), func(c *mc.C) {
				ck, accept, d, inner := mc.Pick(c, cookies), mc.Pick(c, accepts), mc.Pick(c, domains), mc.Pick(c, domains)
				what := fmt.Sprintf("%s; request with %.40q, Accept-Language %.40q, domain %s, in it %s", w.name, ck.line, accept, d, inner)
				c.State(what)
				r := read(c, ck, accept)
				m := gm.clone()
				m.locale = negotiated(ck, accept, gm)
				if d != "-" {
					m.domain = d
				}
				part := http.HandlerFunc(func(_ http.ResponseWriter, r *http.Request) {
					m := m.clone()
					if inner != "-" {
						m.domain = inner
					}
					observe(c, setAPI(t.WithContext(r.Context())), m, what+" (a part of the page)")
				})
				page := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					ts := t.WithContext(r.Context())
					observe(c, setAPI(ts), m, what)
					domain(inner, part).ServeHTTP(w, r)
					answers(c, setAPI(ts), m, what+" (after a part)")
					answers(c, setAPI(t.WithContext(r.Context())), m, what+" (again)")
					fmt.Fprint(w, ts.X("c", "m"))
				})
				h := negotiate(domain(d, page))
				if c.Bool() {
					h = domain(d, negotiate(page))
				}
				rec := httptest.NewRecorder()
				h.ServeHTTP(rec, r)
				if want, _ := m.cat().X("c", "m"); rec.Body.String() != want {
					c.Fail("%s: the page is %q, want %q", what, rec.Body.String(), want)
				}
				observe(c, globalAPI(), gm, what+" (the global set afterwards)")
				c.Logf("%s: %s", what, m.locale)
			}, mc.Bound("%d cookies x %d Accept-Language headers x %d domains x %d domains of a part, in both orders of negotiation and domain", len(cookies), len(accepts), len(domains), len(domains)))
		}
		// requests in progress while others come and the global set changes
		depth := mc.Sel(tt, 4, 5)
		ckMenu := []wish{cookies[0], cookies[1], cookies[3]}
		acMenu := []string{"-", "fr, de;q=0.5", "zh-CN"}
		tt.Explore("in-progress", func(c *mc.C) {
			gm := world(0)
			type request struct {
				r     *http.Request
				model *model
				ts    *t.Translations
				lang  string
				what  string
			}
			var reqs []*request
			var names []string
			all := worldOps(def)
			var ops []op
			for _, o := range all {
				switch o.name {
				case "bind fr+zh to default", "bind de+fr to main", "remove \"default\"", "clear", "set domain \"main\"", "set locale \"de\"", "set source locale \"DE-de\"":
					ops = append(ops, o)
				}
			}
			if len(ops) != 7 {
				panic("the menu of operations changed")
			}
			for k := 0; k < depth; k++ {
				open := len(reqs)
				n := c.Choose(1 + len(ops) + len(ckMenu)*len(acMenu) + open)
				switch {
				case n == 0:
					k = depth
				case n <= len(ops):
					o := ops[n-1]
					o.impl(c, globalAPI())
					o.mod(gm)
					names = append(names, o.name)
				case n <= len(ops)+len(ckMenu)*len(acMenu):
					// a request arrives: its language is found now
					j := n - 1 - len(ops)
					ck, ac := ckMenu[j%len(ckMenu)], acMenu[j/len(ckMenu)]
					r := read(c, ck, ac)
					q := &request{what: fmt.Sprintf("request %d (%.20q, %q)", len(reqs), ck.line, ac), lang: negotiated(ck, ac, gm)}
					q.r = r.WithContext(t.SetCtxDomain(t.SetCtxLocale(r.Context(), t.GetUserLang(r)), "default"))
					reqs = append(reqs, q)
					names = append(names, q.what+" arrives")
				default:
					// it begins to write its page
					q := reqs[n-1-len(ops)-len(ckMenu)*len(acMenu)]
					q.ts = t.WithContext(q.r.Context())
					q.model = gm.clone()
					q.model.locale, q.model.domain = q.lang, "default"
					names = append(names, q.what+" begins")
				}
				for _, q := range reqs {
					if q.ts != nil {
						answers(c, setAPI(q.ts), q.model, fmt.Sprintf("%s after %v", q.what, names))
					}
				}
			}
			for _, q := range reqs {
				m := gm.clone()
				m.locale, m.domain = q.lang, "default"
				observe(c, setAPI(t.WithContext(q.r.Context())), m, fmt.Sprintf("%s after %v, at the end", q.what, names))
				if q.ts != nil {
					answers(c, setAPI(q.ts), q.model, fmt.Sprintf("%s after %v", q.what, names))
				}
			}
			observe(c, globalAPI(), gm, fmt.Sprintf("the global set after %v", names))
			c.State(fmt.Sprint(names))
			c.Logf("%v", names)
		}, mc.Serial(), mc.Bound("every history of up to %d of: a request arriving (9 kinds), one beginning its page, 7 changes of the global set", depth))
	}, "which supported locale matches best is what golang.org/x/text/language says", "requests that really run at the same time are what C28 explores")
}
