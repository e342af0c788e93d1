package props

import (
	"fmt"
	"io/fs"
	"sort"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t"
)

// api is what a translation set and the package both offer.
type api struct {
	bind                      func(string, fs.FS)
	remove                    func(string) bool
	clear                     func()
	setDomain, setLoc, setSrc func(string)
	domain, locale, source    func() string
	used, most                func() string
	locales, domains          func() []string
	has                       func(string) bool
	tr                        func(string, ...any) string
	n                         func(string, string, int, ...any) string
	n1                        func(string, int, ...any) string
	n1i                       func(string, int64, ...any) string
	n64                       func(string, string, int64, ...any) string
	x                         func(string, string, ...any) string
	xn                        func(string, string, string, int, ...any) string
	xn1                       func(string, string, int, ...any) string
	xn1i                      func(string, string, int64, ...any) string
	xn64                      func(string, string, string, int64, ...any) string
	d, l                      func(string) *t.Translations
	get                       func(string) (*t.Translation, bool)
}

func setAPI(ts *t.Translations) api {
	return api{bind: ts.BindFS, remove: ts.RemoveDomain, clear: ts.ClearDomains, setDomain: ts.SetDomain, setLoc: ts.SetLocale, setSrc: ts.SetSourceCodeLocale,
		domain: ts.Domain, locale: ts.Locale, source: ts.SourceCodeLocale, used: ts.UsedLocale, most: ts.MostMatchLocale, locales: ts.Locales, domains: ts.Domains, has: ts.HasDomain,
		tr: ts.T, n: ts.N, n1: ts.N1, n1i: ts.N1_64, n64: ts.N64, x: ts.X, xn: ts.XN, xn1: ts.XN1, xn1i: ts.XN1_64, xn64: ts.XN64, d: ts.D, l: ts.L, get: ts.Get}
}

// globalAPI is the package's functions; the global set is whatever was set last.
func globalAPI() api {
	return api{bind: t.BindFS, remove: t.RemoveDomain, clear: t.ClearDomains, setDomain: t.SetDomain, setLoc: t.SetLocale, setSrc: t.SetSourceCodeLocale,
		domain: t.Domain, locale: t.Locale, source: t.SourceCodeLocale, used: t.UsedLocale, most: t.MostMatchLocale, locales: t.Locales, domains: t.Domains, has: t.HasDomain,
		tr: t.T, n: t.N, n1: t.N1, n1i: t.N1_64, n64: t.N64, x: t.X, xn: t.XN, xn1: t.XN1, xn1i: t.XN1_64, xn64: t.XN64, d: t.D, l: t.L}
}

// content is what can be bound to a domain.
type content struct {
	name  string
	files map[string]string
	loads bool
	langs map[string]*ref.Cat // by normalised locale
}

func tagged(lang, tag string) []ref.Msg {
	return []ref.Msg{header("Language: "+lang, "Plural-Forms: nplurals=2; plural=n != 1;"), {ID: "m", Str: "m " + tag}, {Ctxt: "c", ID: "m", Str: "cm " + tag},
		{ID: "p", Plural: true, ID2: "ps", Forms: []string{"p0 " + tag, "p1 " + tag}}, {ID: "%d x", Str: "%d " + tag}}
}

func cats(m map[string]string) map[string]*ref.Cat {
	r := map[string]*ref.Cat{}
	for lang, tag := range m {
		r[lang] = ref.NewCat(tagged(lang, tag)...)
	}
	return r
}

var contents = []content{
	{"de+fr", map[string]string{"a/de.po": ref.WritePo(tagged("de_DE", "de1")...), "fr.po": ref.WritePo(tagged("fr", "fr1")...)}, true, cats(map[string]string{"de_DE": "de1", "fr_FR": "fr1"})},
	{"fr+zh", map[string]string{"x.mo": string(ref.BuildMo(ref.Pairs(tagged("FR-fr", "fr2")...), ref.MoLayout{})), "y.po": ref.WritePo(tagged("zh-hans", "zh2")...), "bad.po": "garbage"}, true, cats(map[string]string{"fr_FR": "fr2", "zh_CN": "zh2"})},
	{"no language", map[string]string{"n.po": "msgid \"m\"\nmsgstr \"nobody\"\n"}, true, nil},
	{"broken", map[string]string{"b.po": "garbage", "c.mo": "garbage", "d.txt": ref.WritePo(tagged("de_DE", "txt")...)}, false, nil},
	{"empty", map[string]string{}, false, nil},
}

// model is the documented state of a translation set.
type model struct {
	locale, domain, source string
	doms                   map[string]int // content bound
}

func newModel(def string) *model {
	return &model{locale: def, domain: "default", source: "en_US", doms: map[string]int{}}
}

func (m *model) clone() *model {
	r := *m
	r.doms = map[string]int{}
	for k, v := range m.doms {
		r.doms[k] = v
	}
	return &r
}

func (m *model) String() string {
	var s []string
	for k, v := range m.doms {
		s = append(s, fmt.Sprintf("%s=%s", k, contents[v].name))
	}
	sort.Strings(s)
	return fmt.Sprintf("locale %s, domain %q, source %s, %v", m.locale, m.domain, m.source, s)
}

func (m *model) cat() *ref.Cat {
	if v, ok := m.doms[m.domain]; ok {
		if c, ok := contents[v].langs[m.locale]; ok {
			return c
		}
	}
	return ref.NewCat()
}

func (m *model) locales() []string {
	set := map[string]bool{m.source: true}
	if v, ok := m.doms[m.domain]; ok {
		for l := range contents[v].langs {
			set[l] = true
		}
	}
	var r []string
	for l := range set {
		r = append(r, l)
	}
	sort.Strings(r)
	return r
}

func (m *model) used() string {
	if v, ok := m.doms[m.domain]; ok && contents[v].langs[m.locale] != nil {
		return m.locale
	}
	return m.source
}

// norm is what the locales used in these scenarios normalise to.
var norm = map[string]string{"de": "de_DE", "DE-de": "de_DE", "fr_FR": "fr_FR", "fr": "fr_FR", "zh": "zh_CN", "en": "en_US", "ja": "ja_JP", "it": "it_IT", "de-DE": "de_DE", "de_DE.UTF-8": "de_DE", "de_DE@euro": "de_DE", "zh_CN": "zh_CN", "zh-Hans": "zh_CN", "no such language": "en_US", " de": "en_US", "_": "en_US", "": "en_US"}

// op is an operation on a set with its effect on the model.
type op struct {
	name string
	impl func(c *mc.C, a api)
	mod  func(m *model)
}

func worldOps(def string) (ops []op) {
	for _, d := range []string{"default", "main", "other"} {
		for i, ct := range contents {
			ops = append(ops, op{fmt.Sprintf("bind %s to %s", ct.name, d), func(c *mc.C, a api) { a.bind(d, memFS(ct.files)) }, func(m *model) {
				if ct.loads {
					m.doms[d] = i
				}
			}})
		}
	}
	for _, d := range []string{"default", "main", "other", "", "unknown"} {
		ops = append(ops, op{fmt.Sprintf("remove %q", d), func(c *mc.C, a api) {
			had := a.has(d)
			if got := a.remove(d); got != had {
				c.Fail("RemoveDomain(%q) = %v, HasDomain was %v", d, got, had)
			}
		}, func(m *model) {
			if _, ok := m.doms[d]; ok {
				delete(m.doms, d)
				if m.domain == d {
					m.domain = "default"
				}
			}
		}})
	}
	ops = append(ops, op{"clear", func(c *mc.C, a api) { a.clear() }, func(m *model) { m.doms = map[string]int{}; m.domain = "default" }})
	for _, d := range []string{"default", "main", "unknown", ""} {
		ops = append(ops, op{fmt.Sprintf("set domain %q", d), func(c *mc.C, a api) { a.setDomain(d) }, func(m *model) { m.domain = d }})
	}
	for _, l := range []string{"de", "fr_FR", "zh", "ja", ""} {
		ops = append(ops, op{fmt.Sprintf("set locale %q", l), func(c *mc.C, a api) { a.setLoc(l) }, func(m *model) {
			if l == "" {
				m.locale = def
			} else {
				m.locale = norm[l]
			}
		}})
	}
	for _, l := range []string{"DE-de", "en", ""} {
		ops = append(ops, op{fmt.Sprintf("set source locale %q", l), func(c *mc.C, a api) { a.setSrc(l) }, func(m *model) { m.source = norm[l] }})
	}
	return
}

// observe compares every query and translation with the model.
func observe(c *mc.C, a api, m *model, what string) {
	c.Step()
	bad := func(q string, got, want any) {
		c.Fail("%s: %s = %v, want %v (%v)", what, q, got, want, m)
	}
	if got := a.domain(); got != m.domain {
		bad("Domain()", got, m.domain)
	}
	if got := a.locale(); got != m.locale {
		bad("Locale()", got, m.locale)
	}
	if got := a.source(); got != m.source {
		bad("SourceCodeLocale()", got, m.source)
	}
	if got := a.used(); got != m.used() {
		bad("UsedLocale()", got, m.used())
	}
	if got, want := strings.Join(a.locales(), " "), strings.Join(m.locales(), " "); got != want {
		bad("Locales()", got, want)
	}
	var want []string
	for k := range m.doms {
		want = append(want, k)
	}
	sort.Strings(want)
	got := append([]string{}, a.domains()...)
	sort.Strings(got)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		bad("Domains()", got, want)
	}
	for _, d := range []string{"default", "main", "other", "unknown", ""} {
		_, w := m.doms[d]
		if g := a.has(d); g != w {
			bad(fmt.Sprintf("HasDomain(%q)", d), g, w)
		}
		if a.get != nil {
			if _, g := a.get(d); g != w {
				bad(fmt.Sprintf("Get(%q)", d), g, w)
			}
		}
	}
	answers(c, a, m, what)
}

// answers compares translations only.
func answers(c *mc.C, a api, m *model, what string) {
	cat := m.cat()
	bad := func(q string, got, want any) {
		c.Fail("%s: %s = %q, want %q (%v)", what, q, got, want, m)
	}
	for _, id := range []string{"m", "p?", "q", ""} {
		w, _ := cat.X("", id)
		if id == "" {
			continue
		}
		if g := a.tr(id); g != w {
			bad("T("+id+")", g, w)
		}
	}
	w, _ := cat.X("c", "m")
	if g := a.x("c", "m"); g != w {
		bad("X(c,m)", g, w)
	}
	for _, n := range []int{1, 2} {
		if g, w := a.n("p", "ps", n), cat.N("", "p", "ps", int64(n)); g != w {
			bad(fmt.Sprint("N(p,ps,", n, ")"), g, w)
		}
	}
	w, _ = cat.X("", "%d x")
	if g, w := a.tr("%d x", 5), strings.Replace(w, "%d", "5", 1); g != w {
		bad("T(%d x, 5)", g, w)
	}
}
