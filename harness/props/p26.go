package props

import (
	"fmt"
	"net/http"
	"os"
	"regexp"
	"sort"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t"
	"github.com/youthlin/t/locale"
	"github.com/youthlin/t/translator"
	"golang.org/x/text/language"
)

// likely is the most likely region of a language, in another script where that matters.
var likely = map[string]string{}

var likelyLangs []string

var afterRegions = strings.Fields("AD BE CH DK EC FO GR HU IS JM KE LU MT NP OM PE QA RW SN TO UG VU WS YT ZM")

func init() {
	for _, s := range strings.Fields(`en:US de:DE fr:FR es:ES it:IT pt:BR nl:NL ru:RU uk:UA pl:PL cs:CZ sk:SK sl:SI hr:HR sr:RS bg:BG ro:RO hu:HU el:GR tr:TR ar:EG he:IL fa:IR hi:IN bn:BD ta:IN te:IN th:TH vi:VN id:ID ms:MY ja:JP ko:KR zh:CN sv:SE da:DK nb:NO nn:NO fi:FI et:EE lv:LV lt:LT is:IS ga:IE cy:GB eu:ES ca:ES gl:ES sq:AL mk:MK bs:BA hy:AM ka:GE az:AZ kk:KZ uz:UZ mn:MN ne:NP si:LK km:KH lo:LA my:MM sw:TZ zu:ZA af:ZA am:ET fil:PH yue:HK gsw:CH`) {
		l, r, _ := strings.Cut(s, ":")
		likely[l] = r
		likelyLangs = append(likelyLangs, l)
	}
	for _, s := range strings.Fields(`zh-Hant:TW zh-Hans:CN sr-Latn:RS sr-Cyrl:RS uz-Arab:AF uz-Cyrl:UZ pa-Arab:PK az-Cyrl:AZ mn-Mong:CN en-Latn:US de-Latn:DE ja-Jpan:JP ru-Cyrl:RU yue-Hans:CN`) {
		l, r, _ := strings.Cut(s, ":")
		likely[l] = r
	}
}

func init() {
	register("C26", func(tt *mc.T) {
		defer t.SetGlobal(t.NewTranslations())
		form := regexp.MustCompile(`^[a-z]{2,3}_([A-Z]{2}|[0-9]{3})$`)
		regions := []string{"", "US", "GB", "DE", "AT", "CN", "TW", "HK", "BR", "MX", "RS", "IN", "ZA", "419", "001", "AQ"}
		scripts := []string{"", "Latn", "Cyrl", "Hans", "Hant", "Arab", "Jpan", "Mong"}
		caseOf := []func(string) string{func(s string) string { return s }, strings.ToLower, strings.ToUpper, func(s string) string {
			b := []byte(strings.ToLower(s))
			for i := range b {
				if i%2 == 1 && b[i] >= 'a' && b[i] <= 'z' {
					b[i] -= 32
				}
			}
			return string(b)
		}}
		spell := func(c *mc.C, lang, region, script string) (text, want string) {
			want = lang + "_" + region
			if region == "" {
				r, ok := likely[lang+"-"+script]
				if script == "" {
					r, ok = likely[lang]
				}
				if !ok {
					return "", ""
				}
				want += r
			}
			parts := []string{lang}
			if script != "" {
				parts = append(parts, script)
			}
			if region != "" {
				parts = append(parts, region)
			}
			switch c.Dev(4) {
			case 1:
				parts = append(parts, "1996")
			case 2:
				parts = append(parts, "rozaj")
			case 3:
				parts = append(parts, "valencia")
			}
			switch c.Dev(5) {
			case 1:
				parts = append(parts, "u", "co", "phonebk")
			case 2:
				parts = append(parts, "x", "private")
			case 3:
				parts = append(parts, "t", "en", "us")
			case 4:
				parts = append(parts, "u", "nu", "latn", "x", "a", "b")
			}
			sep := mc.PickDev(c, []string{"_", "-"})
			text = strings.Join(parts, sep)
			if len(parts) > 2 && c.Dev(2) == 1 { // both at once
				text = strings.Replace(text, sep, map[string]string{"_": "-", "-": "_"}[sep], 1)
			}
			text = mc.PickDev(c, caseOf)(text)
			text += mc.PickDev(c, []string{"", ".UTF-8", ".utf8", ".Big5", ".ISO-8859-15", ".koi8-r", ".eucJP", ".GB18030"})
			text += mc.PickDev(c, []string{"", "@euro", "@latin", "@cyrillic", "@calendar=x"})
			return
		}
		dev := mc.Sel(tt, 2, 3)
		tt.Explore("spellings", func(c *mc.C) {
			lang := mc.Pick(c, likelyLangs)
			text, want := spell(c, lang, mc.Pick(c, regions), mc.Pick(c, scripts))
			if want == "" {
				c.Abandon()
			}
			c.State(text)
			c.Step()
			got := locale.Normalize(text)
			if got != want {
				c.Fail("%q normalises to %q, want %q", text, got, want)
			}
			if again := locale.Normalize(got); again != got {
				c.Fail("%q normalises to %q and that to %q", text, got, again)
			}
			if tag, err := language.Parse(text); err == nil {
				if g := locale.NormalizeTag(tag); g != want {
					c.Fail("the tag %v normalises to %q, want %q", tag, g, want)
				}
			}
			c.Logf("%q -> %q", text, got)
		}, mc.Budget(dev), mc.Bound("%d languages x %d regions x %d scripts, with up to %d of: variant, extension, separator, mixed separators, case, encoding, modifier", len(likelyLangs), len(regions), len(scripts), dev))
		// extensions that say something about the user, but not what language and region the tag names
		exts := []string{"u-rg-dezzzz", "u-rg-gbeng", "u-sd-gbsct", "u-cu-eur", "u-va-posix", "u-tz-deber", "u-em-text", "u-ca-japanese", "u-ca-islamic-civil", "u-co-trad", "u-hc-h12", "u-lb-strict", "u-ms-uksystem", "u-nu-arab", "u-kf-upper", "u-fw-mon", "u-attr-co-phonebk", "t-de", "t-fr-fr", "t-zh-hant-tw-m0-xxx", "a-de", "r-us", "x-de", "x-de-DE", "x-u-rg-dezzzz", "x-DE", "0-de", "u-ca-gregory-t-de-at", "1994", "fonipa", "1901", "u-rg-dezzzz-x-fr"}
		tt.Explore("extensions", func(c *mc.C) {
			base := mc.Pick(c, []string{"en-GB", "en", "de-AT", "de", "zh-Hant-TW", "zh-Hant", "zh", "sr-Latn-RS", "pt-BR", "es-419", "fr-CH"})
			text := base + "-" + mc.Pick(c, exts)
			if c.Bool() {
				text = strings.ReplaceAll(text, "-", "_")
			}
			text = mc.Pick(c, caseOf)(text) + mc.Pick(c, []string{"", ".UTF-8", "@euro"})
			c.State(text)
			c.Step()
			if _, err := language.Parse(base + "-" + exts[0]); err != nil {
				c.Abandon()
			}
			want := locale.Normalize(base)
			if got := locale.Normalize(text); got != want {
				c.Fail("%q normalises to %q, %q to %q", text, got, base, want)
			}
			c.Logf("%q -> %q", text, want)
		}, mc.Bound("11 tags x %d extensions, private parts and variants x separators x cases x 3 ends", len(exts)))
		tt.Explore("all-codes", func(c *mc.C) {
			// every code of two or three letters, known or not
			s := string([]byte{'a' + byte(c.Choose(26)), 'a' + byte(c.Choose(26))})
			if k := c.Choose(27); k > 0 {
				s += string([]byte{'a' + byte(k-1)})
			}
			s = caseOf[c.Choose(3)](s)
			c.State(s)
			c.Step()
			got := locale.Normalize(s)
			if !form.MatchString(got) {
				c.Fail("%q normalises to %q", s, got)
			}
			if again := locale.Normalize(got); again != got {
				c.Fail("%q normalises to %q and that to %q", s, got, again)
			}
			if lo := locale.Normalize(strings.ToLower(s)); lo != got {
				c.Fail("%q normalises to %q, in lower case to %q", s, got, lo)
			}
		}, mc.Bound("every code of two or three letters in three cases"))
		tt.Explore("all-regions", func(c *mc.C) {
			lang := mc.Pick(c, []string{"en", "zh", "sr", "pt", "fil"})
			r := ""
			if k := c.Choose(676 + 1000); k < 676 {
				r = string([]byte{'A' + byte(k/26), 'A' + byte(k%26)})
			} else {
				r = fmt.Sprintf("%03d", k-676)
			}
			reg, err := language.ParseRegion(r)
			if err != nil {
				c.Abandon()
			}
			if reg.Canonicalize() != reg || reg.String() != r {
				c.Abandon() // a code that was replaced by another
			}
			text := mc.Pick(c, []string{lang + "_" + r, lang + "-" + r, strings.ToUpper(lang) + "_" + strings.ToLower(r) + ".UTF-8"})
			c.State(text)
			c.Step()
			if got, want := locale.Normalize(text), lang+"_"+r; got != want || locale.Normalize(got) != got {
				c.Fail("%q normalises to %q, want %q", text, got, want)
			}
		}, mc.Bound("every known region code of 5 languages in 3 spellings"))
		meet := func(c *mc.C, a, b, want string) {
			ts := t.NewTranslations()
			head := "msgid \"\"\nmsgstr \"\"\n\"Language: " + a + "\\n\"\n\nmsgid \"m\"\nmsgstr \"yes\"\n"
			if c.Bool() {
				ts.BindFS("d", memFS(map[string]string{"x.po": head}))
			} else {
				ts.BindFS("d", memFS(map[string]string{"x.mo": string(ref.BuildMo(ref.Pairs(ref.Msg{Str: "Language: " + a + "\n"}, ref.Msg{ID: "m", Str: "yes"}), ref.MoLayout{}))}))
			}
			ts.SetDomain("d")
			ts.SetSourceCodeLocale("qaa_AQ")
			ts.SetLocale(b)
			c.Step()
			if ts.Locale() != want || ts.UsedLocale() != want || ts.T("m") != "yes" {
				c.Fail("catalogue for %q, locale set to %q: Locale %q, UsedLocale %q, T(m) = %q; want %q", a, b, ts.Locale(), ts.UsedLocale(), ts.T("m"), want)
			}
			if g := ts.D("d").L(b); g.Locale() != want || g.T("m") != "yes" {
				c.Fail("catalogue for %q, L(%q): Locale %q, T(m) = %q", a, b, g.Locale(), g.T("m"))
			}
			found := false
			for _, l := range ts.Locales() {
				found = found || l == want
			}
			if !found || len(ts.Locales()) != 2 {
				c.Fail("catalogue for %q: Locales() = %v", a, ts.Locales())
			}
			ts.SetSourceCodeLocale(b)
			if ts.SourceCodeLocale() != want || strings.Join(ts.Locales(), " ") != want {
				c.Fail("source locale set to %q is %q; Locales() = %v", b, ts.SourceCodeLocale(), ts.Locales())
			}
			tr := t.NewTranslation("d")
			f := new(translator.File)
			f.AddEntry(&translator.Entry{MsgStr: "Language: " + a + "\n"})
			tr.AddOrReplace(f)
			if _, ok := tr.Get(want); !ok {
				c.Fail("translator for %q is not found as %q", a, want)
			}
			g := new(translator.File)
			g.AddEntry(&translator.Entry{MsgStr: "Language: " + b + "\n"})
			if pre := tr.AddOrReplace(g); pre != f {
				c.Fail("translator for %q does not replace the one for %q", b, a)
			}
		}
		tt.Explore("meeting", func(c *mc.C) {
			lang, region := mc.Pick(c, []string{"de", "zh", "sr", "fil", "en"}), mc.Pick(c, []string{"", "TW", "AT", "419"})
			a, want := spell(c, lang, region, "")
			b, _ := spell(c, lang, region, "")
			c.State(a, b)
			meet(c, a, b, want)
			c.Logf("%q and %q meet as %q", a, b, want)
		}, mc.Budget(mc.Sel(tt, 2, 3)), mc.Bound("two spellings with up to %d deviations from ll_CC together, of 5 languages and 4 regions", mc.Sel(tt, 2, 3)))
		tt.Explore("one-after-another", func(c *mc.C) {
			// what a name normalises to does not depend on the names that were normalised before
			// every pair of variations has a name of its own, which nothing before has used
			i, j, k := c.Choose(15), c.Choose(15), c.Choose(4)
			nr := (i*15+j)*4 + k
			l, r := likelyLangs[nr%len(likelyLangs)], afterRegions[nr/len(likelyLangs)]
			a := l + "_" + r
			twist := func(i int, s string) string {
				return []func(string) string{
					func(s string) string { return s }, strings.ToLower, strings.ToUpper,
					func(s string) string { return strings.ReplaceAll(s, "_", "-") },
					func(s string) string { return strings.ReplaceAll(strings.ToLower(s), "_", "-") },
					func(s string) string { return strings.ReplaceAll(s, "_", "") },
					func(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) },
					func(s string) string { return strings.ReplaceAll(s, "_", " ") },
					func(s string) string { return s[:2] },
					func(s string) string { return s[:len(s)-1] },
					func(s string) string { return s + "X" },
					func(s string) string { return s + ".UTF-8" },
					func(s string) string { return s + "@latin" },
					func(s string) string { return l + "_Latn_" + r },
					func(s string) string { return r + "_" + l },
				}[i](s)
			}
			x, y := twist(i, a), twist(j, a)
			want := func(s string) string { // by the library of languages alone
				if i := strings.IndexAny(s, ".@"); i >= 0 {
					s = s[:i]
				}
				tag := language.Make(s)
				b, _ := tag.Base()
				r, _ := tag.Region()
				return fmt.Sprintf("%v_%v", b, r)
			}
			c.State(x, y)
			c.Step()
			first := locale.Normalize(y)
			before, after := locale.Normalize(x), locale.Normalize(y)
			if first != after {
				c.Fail("%q normalises to %q, after %q to %q", y, first, x, after)
			}
			ts := t.NewTranslations()
			ts.SetLocale(y)
			for s, got := range map[string]string{x: before, y: after} {
				if got == want(s) || !form.MatchString(want(s)) {
					continue
				}
				if _, err := language.Parse(strings.NewReplacer(".UTF-8", "", "@latin", "").Replace(s)); err == nil {
					c.Fail("%q, then %q: %q normalises to %q, want %q", x, y, s, got, want(s))
				}
			}
			// a name that is none at all is at least taken alike
			if got := ts.Locale(); y != "" && got != after {
				c.Fail("%q normalises to %q, as a locale of a set it is %q", y, after, got)
			}
		}, mc.Serial(), mc.Bound("every pair of 15 variations of 4 names, one after the other"))
		tt.Explore("other-codes", func(c *mc.C) {
			// replaced codes and codes of three letters or digits name the same language and region
			langs := []string{"iw:he", "in:id", "ji:yi", "jw:jv", "tl:fil", "eng:en", "deu:de", "zho:zh", "fra:fr", "jpn:ja", "rus:ru", "spa:es", "heb:he", "ind:id", "srp:sr", "por:pt"}
			regions := []string{"BU:MM", "840:US", "276:DE", "156:CN", "826:GB", "GB:GB", "IL:IL", "ID:ID", "TW:TW", ":"}
			l, r := mc.Pick(c, langs), mc.Pick(c, regions)
			lo, ln, _ := strings.Cut(l, ":")
			ro, rn, _ := strings.Cut(r, ":")
			want := ln + "_" + rn
			a := lo + "_" + ro
			if rn == "" {
				a = lo
				want = locale.Normalize(ln)
			}
			a = mc.Pick(c, []func(string) string{caseOf[0], caseOf[1], caseOf[2], func(s string) string { return strings.ReplaceAll(s, "_", "-") }, func(s string) string { return s + ".UTF-8" }})(a)
			b := mc.Pick(c, []string{want, strings.ReplaceAll(want, "_", "-"), a})
			c.State(a, b)
			if got := locale.Normalize(a); got != want {
				c.Fail("%q normalises to %q, want %q", a, got, want)
			}
			meet(c, a, b, want)
			meet(c, b, a, want)
		}, mc.Bound("16 other codes of languages x 10 of regions x 5 spellings, meeting the usual code"))
		tt.Explore("likely-meets-explicit", func(c *mc.C) {
			lang := mc.Pick(c, likelyLangs)
			want := lang + "_" + likely[lang]
			sp := []string{lang, want, strings.ReplaceAll(want, "_", "-"), strings.ToLower(want), want + ".UTF-8"}
			a, b := mc.Pick(c, sp), mc.Pick(c, sp)
			c.State(a, b)
			meet(c, a, b, want)
		}, mc.Bound("every pair of 5 spellings of %d languages", len(likelyLangs)))
		tt.Explore("system-default", func(c *mc.C) {
			lang := mc.Pick(c, []string{"de", "zh", "sr", "ja"})
			text, want := spell(c, lang, mc.Pick(c, []string{"", "TW", "AT"}), "")
			vars := []string{"LANGUAGE", "LC_ALL", "LC_MESSAGES", "LANG"}
			old := map[string]string{}
			for _, k := range vars {
				old[k] = os.Getenv(k)
				os.Unsetenv(k)
			}
			defer func() {
				for k, v := range old {
					os.Setenv(k, v)
				}
			}()
			if lang, _, mod := strings.Cut(text, "@"); mod && !strings.Contains(lang, ".") {
				c.Abandon() // a modifier without an encoding: what the environment means is the business of the detection package
			}
			if strings.ContainsAny(text, "-=") || strings.Contains(text, "_x_") || strings.Contains(text, "_X_") {
				c.Abandon() // not names of POSIX locales
			}
			k := mc.Pick(c, vars[1:])
			os.Setenv(k, text)
			c.State(k, text)
			c.Step()
			if got := locale.GetDefault(); got != want {
				c.Fail("with %s=%q the default locale is %q, want %q", k, text, got, want)
			}
			ts := t.NewTranslations()
			if ts.Locale() != want {
				c.Fail("with %s=%q a new set has locale %q, want %q", k, text, ts.Locale(), want)
			}
			ts.SetLocale("fr")
			ts.SetLocale("")
			if ts.Locale() != want || ts.L("").Locale() != want {
				c.Fail("with %s=%q the locale is set to %q, want %q", k, text, ts.Locale(), want)
			}
		}, mc.Serial(), mc.Budget(1))
	}, "what names no language (und, unknown codes, private tags, codes of regions that do not exist) has no canonical form", "POSIX names are language[_territory][.codeset][@modifier]", "in the environment: only names the detection package (github.com/Xuanwo/go-locale) understands, that is no modifier without an encoding")

	register("C27", func(tt *mc.T) {
		defer t.SetGlobal(t.NewTranslations())
		build := func(langs []string, source string) (*t.Translations, []string) {
			files := map[string]string{}
			set := map[string]bool{source: true}
			for i, l := range langs {
				files[fmt.Sprintf("%d.po", i)] = ref.WritePo(oneMsg(l, l)...)
				set[l] = true
			}
			ts := t.NewTranslations()
			ts.BindFS("d", memFS(files))
			ts.SetDomain("d")
			ts.SetSourceCodeLocale(source)
			var want []string
			for l := range set {
				want = append(want, l)
			}
			sort.Strings(want)
			return ts, want
		}
		best := func(supported []string, accept []language.Tag) string {
			var tags []language.Tag
			for _, s := range supported {
				tags = append(tags, language.Make(s))
			}
			_, i, _ := language.NewMatcher(tags).Match(accept...)
			return supported[i]
		}
		in := func(s string, l []string) bool {
			for _, x := range l {
				if x == s {
					return true
				}
			}
			return false
		}
		pool := []string{"de_DE", "fr_FR", "zh_CN", "zh_TW", "pt_BR", "pt_PT", "en_GB", "sr_RS"}
		wishes := []string{"de", "de-AT", "fr-FR", "fr", "zh", "zh-TW", "zh-Hans", "zh-HK", "pt", "pt-PT", "en", "en-GB", "en-AU", "sr-Latn", "ja", "nn", "*", "und", "hr", "mul"}
		tt.Explore("most-match", func(c *mc.C) {
			langs := mc.Subset(c, pool)
			ts, sup := build(langs, mc.Pick(c, []string{"en_US", "de_DE"}))
			other, otherSup := build(nil, "ja_JP")
			for _, w := range append(wishes, pool...) {
				if w == "*" {
					continue
				}
				c.Step()
				ts.SetLocale(w)
				other.SetLocale(w)
				if got := strings.Join(ts.Locales(), " "); got != strings.Join(sup, " ") {
					c.Fail("Locales() = %v, want %v", got, sup)
				}
				got := ts.MostMatchLocale()
				if !in(got, sup) {
					c.Fail("MostMatchLocale() = %q is not one of %v", got, sup)
				}
				if want := best(sup, []language.Tag{language.Make(ts.Locale())}); got != want {
					c.Fail("locale %q: MostMatchLocale() = %q of %v, want %q", ts.Locale(), got, sup, want)
				}
				if in(ts.Locale(), sup) && got != ts.Locale() {
					c.Fail("locale %q is one of %v, MostMatchLocale() = %q", ts.Locale(), sup, got)
				}
				if g := other.MostMatchLocale(); g != otherSup[0] {
					c.Fail("a set that supports %v gives %q", otherSup, g)
				}
				if g := ts.D("unknown").MostMatchLocale(); g != ts.SourceCodeLocale() {
					c.Fail("in an unknown domain MostMatchLocale() = %q, want the source locale", g)
				}
				if g := ts.L("fr").D("d").MostMatchLocale(); g != best(sup, []language.Tag{language.MustParse("fr-FR")}) {
					c.Fail("MostMatchLocale() of a handle for fr = %q of %v", g, sup)
				}
			}
			c.State(fmt.Sprint(sup))
			c.Logf("%v", sup)
		}, mc.Bound("every subset of 8 locales x 2 source locales x %d wishes", len(wishes)+len(pool)))
		tt.Explore("many-supported", func(c *mc.C) {
			ls := strings.Fields("de fr es pt it nl pl ru sv da fi cs el hu tr uk ro bg hr sk")
			rs := strings.Fields("DE FR ES PT IT NL PL RU SE DK FI CZ GR HU TR UA RO BG AT CH")
			n := mc.Pick(c, []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400})
			var langs []string
			for k := 0; k < n; k++ {
				langs = append(langs, ls[k%20]+"_"+rs[(k/20+k)%20])
			}
			ts, sup := build(langs, mc.Pick(c, []string{"en_US", "de_DE", "ja_JP"}))
			t.SetGlobal(ts)
			c.State(fmt.Sprint(n, ts.SourceCodeLocale()))
			if got := strings.Join(ts.Locales(), " "); got != strings.Join(sup, " ") {
				c.Fail("%d languages: Locales() = %v, want %v", n, ts.Locales(), sup)
			}
			for _, w := range append([]string{"de", "pt-BR", "sk", "en", "zh_TW", "uk_UA"}, langs[0], langs[n/2], langs[n-1]) {
				c.Step()
				ts.SetLocale(w)
				l := ts.Locale()
				got := ts.MostMatchLocale()
				if want := best(sup, []language.Tag{language.Make(l)}); got != want || in(l, sup) && got != l {
					c.Fail("%d languages, locale %q: MostMatchLocale() = %q of %v, want %q", n, l, got, sup, want)
				}
				r := &http.Request{Header: http.Header{"Accept-Language": {strings.ReplaceAll(w, "_", "-") + ", xx;q=0.5"}}}
				acc, _, _ := language.ParseAcceptLanguage(r.Header.Get("Accept-Language"))
				if got, want := t.GetUserLang(r), best(sup, acc); got != want {
					c.Fail("%d languages, a request for %q gets %q of %v, want %q", n, w, got, sup, want)
				}
				text := ts.T("m")
				if want := l; in(l, langs) && text != want || !in(l, langs) && text != "m" {
					c.Fail("%d languages, locale %q: T gives %q", n, l, text)
				}
			}
		}, mc.Serial(), mc.Bound("up to 400 languages with a region, 3 source languages, 9 locales and requests each"))
		tt.Explore("match", func(c *mc.C) {
			sup := mc.Subset(c, pool)
			if len(sup) == 0 {
				c.Abandon()
			}
			if c.Bool() {
				for i, j := 0, len(sup)-1; i < j; i, j = i+1, j-1 {
					sup[i], sup[j] = sup[j], sup[i]
				}
			}
			acc := []string{mc.Pick(c, wishes), mc.Pick(c, wishes)}[:1+c.Choose(2)]
			if in("*", acc) {
				c.Abandon()
			}
			c.State(fmt.Sprint(sup, acc))
			c.Step()
			var tags, atags []language.Tag
			for _, s := range sup {
				tags = append(tags, language.Make(s))
			}
			for _, s := range acc {
				atags = append(atags, language.Make(s))
			}
			wt, wi, wc := language.NewMatcher(tags).Match(atags...)
			gt, gi, gc := t.Match(sup, acc)
			if gt != wt || gi != wi || gc != wc {
				c.Fail("Match(%v, %v) = %v, %d, %v; want %v, %d, %v", sup, acc, gt, gi, gc, wt, wi, wc)
			}
			if gt, gi, gc = t.MatchTag(tags, atags); gt != wt || gi != wi || gc != wc {
				c.Fail("MatchTag(%v, %v) = %v, %d, %v", sup, acc, gt, gi, gc)
			}
			for i := 0; i < 2; i++ {
				for j, g := range t.Tags(sup) {
					if g != tags[j] || t.Tag(sup[j]) != tags[j] {
						c.Fail("Tags(%v)[%d] = %v", sup, j, g)
					}
				}
			}
		})
		cookies := []string{"", "lang=fr_FR", "lang=", "lang=xx", "other=de", "lang=de; lang=fr", "lang=\"zh_CN\"", "a=b; lang=pt-BR.UTF-8", "Lang=de", "lang", "lang=é", "hl=fr; lang=de"}
		cookieVal := map[string]string{"lang=fr_FR": "fr_FR", "lang=": "", "lang=xx": "xx", "lang": "", "lang=de; lang=fr": "de", "lang=\"zh_CN\"": "zh_CN", "a=b; lang=pt-BR.UTF-8": "pt-BR.UTF-8", "hl=fr; lang=de": "de"}
		sets := []struct {
			langs  []string
			source string
		}{{nil, "en_US"}, {[]string{"de_DE"}, "en_US"}, {[]string{"de_DE", "fr_FR"}, "en_US"}, {[]string{"zh_CN", "zh_TW"}, "en_US"}, {[]string{"pt_BR", "pt_PT", "en_GB"}, "en_US"}, {pool, "en_US"}, {pool[:3], "zh_TW"}, {[]string{"fr_FR"}, "de_DE"}}
		for i, s := range sets {
			ts, sup := build(s.langs, s.source)
			ts.SetLocale("fr")
			t.SetGlobal(ts)
			ask := func(c *mc.C, cookie, accept string, opts ...int) string {
				r := &http.Request{Header: http.Header{}}
				if cookie != "" {
					r.Header.Set("Cookie", cookie)
				}
				if accept != "-" {
					r.Header["Accept-Language"] = strings.Split(accept, "\n")
				}
				c.Step()
				if len(opts) > 0 {
					return t.GetUserLang(r, t.WithCookieName("hl"))
				}
				return t.GetUserLang(r)
			}
			want := func(accept string) string {
				tags, _, _ := language.ParseAcceptLanguage(strings.ReplaceAll(accept, "\n", ","))
				return best(sup, tags)
			}
			tt.Explore(fmt.Sprint("requests-", i), func(c *mc.C) {
				n := 1 + c.Choose(mc.Sel(tt, 2, 3))
				var parts []string
				q := 1.0
				top, topQ := "", -1.0
				for k := 0; k < n; k++ {
					w := mc.Pick(c, wishes)
					switch c.Choose(5) {
					case 1:
						parts = append(parts, w+";q=0.5")
						q = .5
					case 2:
						parts = append(parts, w+";q=0.9")
						q = .9
					case 3:
						parts = append(parts, w+";q=0")
						q = 0
					case 4:
						parts = append(parts, w+" ; q = 1.0")
						q = 1
					default:
						parts = append(parts, w)
						q = 1
					}
					if q > topQ {
						top, topQ = w, q
					}
				}
				accept := strings.Join(parts, mc.Pick(c, []string{",", ", ", "\n"}))
				c.State(accept)
				got := ask(c, "", accept)
				if !in(got, sup) {
					c.Fail("Accept-Language %q gives %q, supported are %v", accept, got, sup)
				}
				if w := want(accept); got != w {
					c.Fail("Accept-Language %q gives %q of %v, want %q", accept, got, sup, w)
				}
				// whatever matching means, the first wish is met exactly when that is possible
				if topQ > 0 && strings.Contains(top, "-") && in(strings.ReplaceAll(top, "-", "_"), sup) && got != strings.ReplaceAll(top, "-", "_") {
					c.Fail("Accept-Language %q gives %q though %v has the first wish", accept, got, sup)
				}
				c.Logf("%q -> %q of %v", accept, got, sup)
			}, mc.Bound("every list of up to %d wishes of %d with 5 weights, in one header line or one line each; supported: %v", mc.Sel(tt, 2, 3), len(wishes), sup))
			tt.Explore(fmt.Sprint("long-lists-", i), func(c *mc.C) {
				useless := []string{"ja", "th", "ko", "vi", "ar", "he", "tlh", "ka", "am", "my", "km", "lo"}
				n := mc.Pick(c, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 33, 64, 100, 300})
				var parts []string
				for k := 0; k < n; k++ {
					parts = append(parts, useless[k%len(useless)])
				}
				w := mc.Pick(c, append(append([]string{}, wishes...), pool...))
				switch c.Choose(4) {
				case 0: // last
					parts = append(parts, w)
				case 1: // last, with the only full weight
					for k := range parts {
						parts[k] += ";q=0.5"
					}
					parts = append(parts, w)
				case 2: // last, with the least weight
					parts = append(parts, w+";q=0.1")
				case 3: // in the middle
					parts = append(append(append([]string{}, parts[:n/2]...), strings.ReplaceAll(w, "_", "-")), parts[n/2:]...)
				}
				accept := strings.ReplaceAll(strings.Join(parts, ","), "_", "-")
				c.State(accept)
				got := ask(c, "", accept)
				if w := want(accept); got != w {
					c.Fail("Accept-Language %q gives %q of %v, want %q", accept, got, sup, w)
				}
			}, mc.Bound("lists of up to 301 wishes of which all but one are hopeless"))
			tt.Explore(fmt.Sprint("any-header-", i), func(c *mc.C) {
				toks := []string{"de", "fr-FR", "*", ",", ";q=", ";", "0.5", "1", " ", "zh-Hant", "-", "_", "\x00", "é", "q=", "x", ";q=-1", "999", "=", "--", "i-klingon", "de-DE-1996-x-y"}
				s := ""
				for k := c.Choose(mc.Sel(tt, 4, 5)); k > 0; k-- {
					s += mc.Pick(c, toks)
				}
				c.State(s)
				got := ask(c, "", s)
				if !in(got, sup) {
					c.Fail("Accept-Language %q gives %q, supported are %v", s, got, sup)
				}
				if w := want(s); got != w {
					c.Fail("Accept-Language %q gives %q of %v, want %q", s, got, sup, w)
				}
			}, mc.Bound("every string of up to %d of 22 tokens", mc.Sel(tt, 3, 4)))
			if i == 0 {
				parts := []string{"de", "fr", "zh", "_", "-", "CN", "%", "%2D", "%5F", "%20", "%%", "+", ".", "@", "=", "/", "*", "#", "a", "0", "DE", "&", "'", "(", ":", "?", "!", "~", "^", "|", "$", "<", "[", "{", "`", "x-y"}
				tt.Explore("cookie-values", func(c *mc.C) {
					v := ""
					for i := c.Choose(mc.Sel(tt, 2, 3)) + 1; i > 0; i-- {
						v += mc.Pick(c, parts)
					}
					ck := mc.Pick(c, []string{"lang=%s", "a=b; lang=%s", "lang=%s; lang=fr", "lang=\"%s\"", " lang=%s "})
					c.State(v, ck)
					c.Logf("%s as %s", v, ck)
					if got := ask(c, fmt.Sprintf(ck, v), "fr"); got != v {
						c.Fail("cookie %q gives %q, want %q", fmt.Sprintf(ck, v), got, v)
					}
				}, mc.Bound("cookie values of up to %d of %d pieces (every kind of character a cookie may have), in 5 headers", mc.Sel(tt, 2, 3), len(parts)))
			}
			tt.Explore(fmt.Sprint("cookies-", i), func(c *mc.C) {
				ck := mc.Pick(c, cookies)
				accept := mc.Pick(c, []string{"-", "", "de", "fr;q=0.1", "zh-TW, de;q=0.4", "ja\nde", "fr;q=0.1\nde;q=0.2, zh;q=0.3\nen;q=0.1", strings.Repeat("de,", 2000), strings.Repeat("-", 5000)})
				c.State(ck, accept[:min(20, len(accept))])
				w, ok := cookieVal[ck]
				if !ok {
					w = want(strings.TrimPrefix(accept, "-"))
					if accept == strings.Repeat("-", 5000) {
						w = want(accept)
					}
				}
				if got := ask(c, ck, accept); got != w {
					c.Fail("cookie %q, Accept-Language %.40q give %q, want %q", ck, accept, got, w)
				}
				w = want(strings.TrimPrefix(accept, "-"))
				if accept == strings.Repeat("-", 5000) {
					w = want(accept)
				}
				if strings.HasPrefix(ck, "hl=fr") {
					w = "fr"
				}
				if got := ask(c, ck, accept, 1); got != w {
					c.Fail("cookie %q, Accept-Language %.40q and cookie name hl give %q, want %q", ck, accept, got, w)
				}
				if ts.Locale() != "fr_FR" || strings.Join(ts.Locales(), " ") != strings.Join(sup, " ") {
					c.Fail("negotiation changed the global set: %v %v", ts.Locale(), ts.Locales())
				}
			})
		}
	}, "which supported locale matches best is what golang.org/x/text/language says, and additionally an exact match of the first wish")
}
