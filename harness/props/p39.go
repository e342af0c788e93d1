package props

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t"
	"github.com/youthlin/t/locale"
)

// sysVars name the system's language, the first that is set and not empty decides.
var sysVars = []string{"LANGUAGE", "LC_ALL", "LC_MESSAGES", "LANG"}

// sysValue is a value of one of these variables and what it normalises to.
type sysValue struct{ text, want string }

// sysLossy is what the system's locale is taken for when its modifier hides the region, a known finding.
var sysLossy = map[string]string{"de_AT": "de_DE"}

const unset = "\x00unset"

var sysValues = []sysValue{{unset, ""}, {"", ""}, {"de_DE.UTF-8", "de_DE"}, {"fr", "fr_FR"}, {"zh_TW.Big5", "zh_TW"}, {"pt-BR", "pt_BR"}, {"C", "en_US"}, {"POSIX", "en_US"}, {"C.UTF-8", "en_US"}, {"de_AT@euro", "de_AT"}}

// sysLists are values of LANGUAGE, a list of locales without encodings and modifiers.
var sysLists = []sysValue{{unset, ""}, {"", ""}, {"de", "de_DE"}, {"pt-BR", "pt_BR"}, {"C", "en_US"}, {"zh_CN", "zh_CN"}, {"fr_FR:de", "fr_FR"}, {"fr_CA:de:en", "fr_CA"}, {"ja:zh_CN", "ja_JP"}, {"zh_Hant", "zh_TW"}}

// wantSys is the set of locales the environment may mean.
func wantSys(env [4]sysValue) map[string]bool {
	r := map[string]bool{}
	lc := ""
	for _, v := range env[1:] {
		if v.want != "" {
			lc = v.want
			break
		}
	}
	if l := env[0].want; l != "" {
		r[l] = true
		// GNU ignores LANGUAGE in the C locale, and a C in LANGUAGE names no language
		if lc == "en_US" || l == "en_US" {
			r["en_US"] = true
			if lc != "" {
				r[lc] = true
			}
		}
		return r
	}
	if lc == "" {
		lc = "en_US"
	}
	r[lc] = true
	return r
}

// knownModifier gives the locale wanted when the one found lacks the region because of a modifier.
func knownModifier(env [4]sysValue, got string) string {
	for w := range wantSys(env) {
		for _, v := range env {
			if v.want == w && strings.Contains(v.text, "@") && got == sysLossy[w] {
				return w
			}
		}
	}
	return ""
}

func setSys(env [4]sysValue) {
	for i, v := range env {
		if v.text == unset {
			os.Unsetenv(sysVars[i])
		} else {
			os.Setenv(sysVars[i], v.text)
		}
	}
}

// EnvLocale tells which locales a process starts with.
func EnvLocale() {
	fmt.Println(t.Locale(), t.NewTranslations().Locale(), t.Global().Locale(), locale.GetDefault())
}

func init() {
	register("C39", func(tt *mc.T) {
		home := filepath.Join(os.Getenv("VMC_SCRATCH"), "home")
		if err := os.MkdirAll(home, 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(home, "locale.conf"), nil, 0o644); err != nil { // rather than the system's
			panic(err)
		}
		for _, k := range []string{"HOME", "XDG_CONFIG_HOME"} {
			old, had := os.LookupEnv(k)
			os.Setenv(k, home)
			defer func() {
				if had {
					os.Setenv(k, old)
				} else {
					os.Unsetenv(k)
				}
			}()
		}
		pickEnv := func(c *mc.C) (env [4]sysValue) {
			env[0] = mc.Pick(c, sysLists)
			for i := 1; i < 4; i++ {
				env[i] = mc.Pick(c, sysValues)
			}
			return
		}
		show := func(env [4]sysValue) string {
			var s []string
			for i, v := range env {
				if v.text != unset {
					s = append(s, sysVars[i]+"="+v.text)
				}
			}
			return strings.Join(s, " ")
		}
		files := map[string]string{}
		for i, l := range []string{"de_DE", "fr_FR", "zh_TW", "pt_BR", "en_US", "fr_CA", "de_AT"} {
			files[fmt.Sprintf("%d.po", i)] = ref.WritePo(tagged(l, l)...)
		}
		translated := func(l string) string {
			for _, f := range files {
				if strings.Contains(f, "m "+l+"\"") {
					return "m " + l
				}
			}
			return "m"
		}
		tt.Explore("environments", func(c *mc.C) {
			env := pickEnv(c)
			want := wantSys(env)
			setSys([4]sysValue{{"ko_KR", ""}, {"ko_KR", ""}, {"ko_KR", ""}, {"ko_KR", ""}})
			old := t.NewTranslations()
			setSys(env)
			c.State(show(env))
			c.Step()
			ts := t.NewTranslations()
			l := ts.Locale()
			c.Logf("%s: %s", show(env), l)
			if lossy := knownModifier(env, l); lossy != "" {
				c.Known("modifier-hides-the-region", "with %s in the environment the locale is %s, want %s", show(env), l, lossy)
			} else if !want[l] {
				c.Fail("a new set with %s in the environment has locale %q, want one of %v", show(env), l, want)
			}
			if l2 := locale.GetDefault(); l2 != l {
				c.Fail("the default locale with %s in the environment is %q, a new set has %q", show(env), l2, l)
			}
			if s := ts.SourceCodeLocale(); s != "en_US" {
				c.Fail("a new set with %s in the environment has source locale %q", show(env), s)
			}
			// what is there already does not follow the environment until it is asked to
			if got := old.Locale(); got != "ko_KR" {
				c.Fail("a set made for ko_KR has locale %q after the environment changed to %s", got, show(env))
			}
			h := old.L("")
			if got := h.Locale(); got != l {
				c.Fail("L(\"\") with %s in the environment has locale %q, want %q", show(env), got, l)
			}
			if got := old.Locale(); got != "ko_KR" {
				c.Fail("L(\"\") changed the locale of its set to %q", got)
			}
			old.SetLocale("it")
			old.SetLocale("")
			if got := old.Locale(); got != l {
				c.Fail("SetLocale(\"\") with %s in the environment gives %q, want %q", show(env), got, l)
			}
			old.BindFS("d", memFS(files))
			old.SetDomain("d")
			if got, w := old.T("m"), translated(l); got != w {
				c.Fail("with %s in the environment T gives %q, want %q", show(env), got, w)
			}
			setSys([4]sysValue{{unset, ""}, {"it_IT", ""}, {"it_IT", ""}, {"it_IT", ""}})
			if got := ts.Locale() + old.Locale() + h.Locale(); got != l+l+l {
				c.Fail("a later change of the environment changed locales from %s to %s", l, got)
			}
		}, mc.Serial(), mc.Bound("every assignment of %d values to LANGUAGE and %d to LC_ALL, LC_MESSAGES and LANG: new sets, derived handles, and sets asked for the system's locale", len(sysLists), len(sysValues)))
		tt.Explore("configuration", func(c *mc.C) {
			// without any of the variables the user's locale.conf decides
			lines := []string{"", "LANG=de_DE.UTF-8\n", "LANG=\"fr_FR\"\n", "LC_MESSAGES=zh_TW\n", "LC_ALL=pt_BR\n", "LANG=\n", "LC_ALL=\n", "# LANG=ja_JP\n", "garbage\n", "LC_TIME=it_IT\n"}
			rank := map[string]int{"LC_ALL": 3, "LC_MESSAGES": 2, "LANG": 1}
			want, best, set := "en_US", 0, map[string]bool{}
			text := ""
			for i := c.Choose(4); i > 0; i-- {
				l := mc.Pick(c, lines)
				k, v, ok := strings.Cut(strings.TrimSpace(l), "=")
				if v = strings.Trim(v, "\""); ok && v != "" && rank[k] > 0 {
					if set[k] {
						c.Abandon() // which of two counts is not defined
					}
					set[k] = true
					if rank[k] > best {
						best, want = rank[k], map[string]string{"de_DE.UTF-8": "de_DE", "fr_FR": "fr_FR", "zh_TW": "zh_TW", "pt_BR": "pt_BR"}[v]
					}
				}
				text += l
			}
			name := filepath.Join(home, "locale.conf")
			if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
				panic(err)
			}
			defer os.WriteFile(name, nil, 0o644)
			env := [4]sysValue{sysLists[c.Choose(2)], sysValues[c.Choose(2)], sysValues[c.Choose(2)], mc.Pick(c, sysValues[:3])}
			if env[3].want != "" {
				want = env[3].want
			}
			setSys(env)
			c.State(text, show(env))
			c.Step()
			if got := t.NewTranslations().Locale(); got != want {
				c.Fail("with %q in locale.conf and %q in the environment a new set has locale %q, want %q", text, show(env), got, want)
			}
		}, mc.Serial(), mc.Bound("every locale.conf of up to 3 of 10 lines x the variables unset or empty, or LANG set"))
		tt.Explore("package", func(c *mc.C) {
			env := pickEnv(c)
			setSys(env)
			want := t.NewTranslations().Locale()
			c.State(show(env))
			c.Step()
			t.SetGlobal(t.NewTranslations())
			defer t.SetGlobal(t.NewTranslations())
			if got := t.Locale(); got != want {
				c.Fail("a new global set with %s has locale %q, want %q", show(env), got, want)
			}
			t.SetLocale("it")
			t.SetLocale("")
			if got := t.Locale(); got != want {
				c.Fail("SetLocale(\"\") of the package with %s gives %q, want %q", show(env), got, want)
			}
			if got := t.L("").Locale(); got != want {
				c.Fail("L(\"\") of the package with %s gives %q, want %q", show(env), got, want)
			}
		}, mc.Serial(), mc.Bound("the same through the package's functions"))
		tt.Explore("histories", func(c *mc.C) {
			// the environment may change between any two operations
			envs := [][4]sysValue{{{unset, ""}, {unset, ""}, {unset, ""}, {"de_DE.UTF-8", "de_DE"}}, {{"fr_FR:de", "fr_FR"}, {unset, ""}, {unset, ""}, {"de_DE.UTF-8", "de_DE"}}, {{"", ""}, {"zh_TW", "zh_TW"}, {"fr", "fr_FR"}, {"de", "de_DE"}}, {{unset, ""}, {"", ""}, {"pt_BR", "pt_BR"}, {"", ""}}, {}}
			cur := 0
			setSys(envs[0])
			wanted := func() string {
				for w := range wantSys(envs[cur]) {
					return w
				}
				return ""
			}
			ts := t.NewTranslations()
			m := wanted()
			var hist []string
			for i := c.Choose(mc.Sel(tt, 5, 7)); i > 0; i-- {
				k := c.Choose(len(envs) + 3)
				switch {
				case k < len(envs):
					cur = k
					setSys(envs[cur])
					hist = append(hist, "environment "+show(envs[cur]))
				case k == len(envs):
					ts.SetLocale("")
					m = wanted()
					hist = append(hist, "set system locale")
				case k == len(envs)+1:
					ts.SetLocale("it")
					m = "it_IT"
					hist = append(hist, "set locale it")
				default:
					ts = t.NewTranslations()
					m = wanted()
					hist = append(hist, "new set")
				}
				c.Step()
				if got := ts.Locale(); got != m {
					c.Fail("after %q the locale is %q, want %q", hist, got, m)
				}
				if got := ts.L("").Locale(); got != wanted() {
					c.Fail("after %q L(\"\") has locale %q, want %q", hist, got, wanted())
				}
			}
			c.State(fmt.Sprint(hist))
		}, mc.Serial(), mc.Bound("every history of up to %d steps: 5 environments, the system's locale, another one, a new set", mc.Sel(tt, 4, 6)))
		tt.Explore("processes", func(c *mc.C) {
			var env [4]sysValue
			env[0] = mc.Pick(c, mc.Sel(tt, []sysValue{sysLists[0], sysLists[1], sysLists[6], sysLists[8]}, sysLists))
			for i := 1; i < 4; i++ {
				env[i] = mc.Pick(c, mc.Sel(tt, []sysValue{sysValues[0], sysValues[1], sysValues[2], sysValues[4], sysValues[6]}, sysValues))
			}
			e := []string{"HOME=" + home, "XDG_CONFIG_HOME=" + home}
			for i, v := range env {
				if v.text != unset {
					e = append(e, sysVars[i]+"="+v.text)
				}
			}
			cmd := exec.Command(os.Args[0], "-envlocale")
			cmd.Env = e
			out, err := cmd.Output()
			if err != nil {
				c.Fail("the process with %q failed: %v", e, err)
			}
			c.Step()
			c.State(show(env))
			f := strings.Fields(string(out))
			if len(f) == 4 && f[0] == f[1] && f[1] == f[2] && f[2] == f[3] && knownModifier(env, f[0]) != "" {
				c.Known("modifier-hides-the-region", "a process started with %s has locale %s", show(env), f[0])
				return
			}
			if len(f) != 4 || f[0] != f[1] || f[1] != f[2] || f[2] != f[3] || !wantSys(env)[f[0]] {
				c.Fail("a process started with %s has locales %q, want one of %v", show(env), f, wantSys(env))
			}
		}, mc.Bound("processes started with every assignment of %d values to the four variables", mc.Sel(tt, 5, len(sysValues))))
	}, "LANGUAGE in the C locale may count or not; encodings and modifiers in LANGUAGE are not judged", "a locale.conf of the user stands in for the system's, which is not touched")
}
