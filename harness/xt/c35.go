package xt

import (
	"bytes"
	"context"
	"crypto/md5"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/mc"
	"verif/ref"
)

// ran is what one run of the command did.
type ran struct {
	status         int
	stdout, stderr string
}

func command(c *mc.C, cwd string, env []string, args ...string) ran {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_XTEMPLATE"), args...)
	cmd.Dir = cwd
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + cwd}, env...)
	var out, err bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &err
	e := cmd.Run()
	c.Step()
	var ee *exec.ExitError
	if e != nil && !errors.As(e, &ee) || ctx.Err() != nil {
		panic(fmt.Sprint("cannot run xtemplate: ", e, ctx.Err()))
	}
	return ran{cmd.ProcessState.ExitCode(), out.String(), err.String()}
}

func lastLine(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return strings.TrimSpace(l[len(l)-1])
}

// listing gives the names and contents of all files but the output.
func listing(dir string) string {
	var sb strings.Builder
	filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, path)
		if rel == "out.pot" {
			return nil
		}
		if err != nil || fi.IsDir() {
			fmt.Fprintf(&sb, "%s %v\n", rel, err)
			return nil
		}
		b, err := os.ReadFile(path)
		fmt.Fprintf(&sb, "%s %v %x\n", rel, err, md5.Sum(b))
		return nil
	})
	return sb.String()
}

func init() {
	register("C35", func(t *mc.T) {
		inC := []string{"LC_ALL=C", "LANG=C"}
		own, err := ref.ReadPo(func() string {
			b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_XTLANG"), "zh_CN.po"))
			if err != nil {
				return ""
			}
			return string(b)
		}())
		if err != nil {
			own = nil
		}
		ownCat := ref.NewCat(own...)
		// place makes a folder with templates and catalogues; what the catalogues translate is what the tool says in C
		place := func(c *mc.C) string {
			dir := filepath.Join(workDir(c), "cli")
			if c.Scratch["cli"] == nil {
				if err := os.MkdirAll(filepath.Join(dir, "in"), 0o755); err != nil {
					panic(err)
				}
				write(filepath.Join(dir, "in"), "b.tmpl", good1)
				write(filepath.Join(dir, "in"), "d.tmpl", good2)
				complaint := lastLine(command(c, dir, inC).stderr)
				help := command(c, dir, inC, "-h")
				said := []string{complaint}
				for _, l := range strings.Split(help.stdout+help.stderr, "\n") {
					if strings.HasPrefix(l, "    \t") && !strings.Contains(l, "(default") {
						said = append(said, strings.TrimSpace(l))
					}
				}
				c.Scratch["said"] = said
				for name, f := range map[string]func(id string) string{
					"good":    func(id string) string { return "«" + id + "»" },
					"hostile": func(id string) string { return "%d%s%!v%[9]d%*" + "\x01\n" },
				} {
					ms := []ref.Msg{{Str: "Language: de_DE\n"}}
					for _, id := range append([]string{"one", "two", "apple", "apples", "b.tmpl", "SOME DESCRIPTIVE TITLE.", "run error: %v", "invalid input pattern", "failed to process file %v. error message: %v", "go-format", "T", "N", "{{", "}}"}, said...) {
						ms = append(ms, ref.Msg{ID: id, Str: f(id)})
					}
					if err := os.MkdirAll(filepath.Join(dir, name), 0o755); err != nil {
						panic(err)
					}
					write(filepath.Join(dir, name), "de.po", ref.WritePo(ms...))
				}
				// nobody asked for the catalogues in these folders
				for _, d := range []string{"lang", "locale", "locales", "po", "."} {
					os.MkdirAll(filepath.Join(dir, d), 0o755)
					for _, l := range []string{"de", "en_US", "zh_CN"} {
						b, _ := os.ReadFile(filepath.Join(dir, "hostile", "de.po"))
						write(filepath.Join(dir, d), l+".po", strings.Replace(string(b), "Language: de_DE", "Language: "+l, 1))
					}
				}
				write(dir, "-", "old content\n")
				c.Scratch["cli"] = true
				c.Scratch["listing"] = listing(dir)
			}
			return dir
		}
		kinds := []string{"file", "-", "stdout", "debug", "no -i", "no -k", "empty -i", "empty -k", "blank -i", "blank -k", "nothing", "-h", "-v", "-h and a run", "-v and a run", "unknown", "no value", "bad keywords", "help"}
		locales := []string{"C", "en_US.UTF-8", "zh_CN.UTF-8", "de_DE.UTF-8", "", "no such locale", "POSIX", "sr_RS@latin"}
		paths := []string{"unset", "", "  ", "good", "hostile", "missing", "in/b.tmpl", "in", "relative good", "/dev/null"}
		forms := []string{"-x v", "--x v", "-x=v", "--x=v", "reversed", "explicit delimiters"}
		zones := []string{"", "Asia/Shanghai", "UTC"}
		// the variables that name the language, the stronger ones first; another language is in the weaker ones
		shapes := []string{"LC_ALL and LANG", "LC_ALL", "LC_MESSAGES", "LANG alone", "LANGUAGE", "LANGUAGE list", "empty LC_ALL"}
		t.Explore("environments", func(c *mc.C) {
			dir := place(c)
			kind := mc.Pick(c, kinds)
			loc, path := mc.PickDev(c, locales), mc.PickDev(c, paths)
			form, zone := mc.PickDev(c, forms), mc.PickDev(c, zones)
			shape := mc.PickDev(c, shapes)
			rel := c.Dev(2) == 1
			out := filepath.Join(dir, "out.pot")
			in := filepath.Join(dir, "in", "*.tmpl")
			if rel {
				in, out = "in/*.tmpl", "out.pot"
			}
			type opt struct{ name, val string }
			opts := []opt{{"i", in}, {"k", "T;N:1,2"}, {"f", "foo,bar"}, {"o", out}}
			drop := func(name string) {
				for i, o := range opts {
					if o.name == name {
						opts = append(append([]opt{}, opts[:i]...), opts[i+1:]...)
						return
					}
				}
			}
			set := func(name, val string) {
				for i, o := range opts {
					if o.name == name {
						opts[i].val = val
					}
				}
			}
			var before, after []string
			ok, complains := false, false
			switch kind {
			case "file":
				ok = true
			case "-":
				ok = true
				set("o", "-")
			case "stdout":
				ok = true
				drop("o")
			case "debug":
				ok = true
				before = []string{"-d"}
			case "no -i", "no -k":
				drop(kind[4:])
				complains = true
			case "empty -i", "empty -k", "blank -i", "blank -k":
				set(kind[7:], map[bool]string{true: "", false: " \t"}[kind[0] == 'e'])
				complains = true
			case "nothing":
				opts = nil
				complains = true
			case "-h", "-v":
				opts = nil
				before = []string{kind}
			case "help":
				opts = nil
				before = []string{"--h"}
			case "-h and a run", "-v and a run":
				before = []string{kind[:2]}
				if c.Bool() {
					before, after = nil, before
				}
			case "unknown":
				before = []string{"-unknown"}
				if c.Bool() {
					before, after = nil, before
				}
			case "no value":
				after = []string{"-o"}
			case "bad keywords":
				set("k", "T:x")
			}
			if form == "reversed" {
				for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
					opts[i], opts[j] = opts[j], opts[i]
				}
			}
			if form == "explicit delimiters" {
				opts = append(opts, opt{"left", "{{"}, opt{"right", "}}"})
			}
			args := before
			for _, o := range opts {
				switch form {
				case "--x v":
					args = append(args, "--"+o.name, o.val)
				case "-x=v":
					args = append(args, "-"+o.name+"="+o.val)
				case "--x=v":
					args = append(args, "--"+o.name+"="+o.val)
				default:
					args = append(args, "-"+o.name, o.val)
				}
			}
			args = append(args, after...)
			other := "de_DE.UTF-8"
			if strings.HasPrefix(loc, "de") {
				other = "zh_CN.UTF-8"
			}
			var env []string
			switch shape {
			case "LC_ALL and LANG":
				env = []string{"LC_ALL=" + loc, "LANG=" + loc}
			case "LC_ALL":
				env = []string{"LC_ALL=" + loc, "LC_MESSAGES=" + other, "LANG=" + other}
			case "LC_MESSAGES":
				env = []string{"LC_MESSAGES=" + loc, "LANG=" + other}
			case "LANG alone":
				env = []string{"LANG=" + loc}
			case "LANGUAGE", "LANGUAGE list":
				if loc == "C" || loc == "POSIX" || loc == "" {
					c.Abandon() // the list of languages does not count then
				}
				list, _, _ := strings.Cut(loc, ".")
				if shape == "LANGUAGE list" {
					list += ":fr"
				}
				env = []string{"LANGUAGE=" + list, "LC_ALL=" + other, "LANG=" + other}
			case "empty LC_ALL":
				env = []string{"LC_ALL=", "LC_MESSAGES=" + loc, "LANG=" + other}
			}
			if zone != "" {
				env = append(env, "TZ="+zone)
			}
			switch path {
			case "unset":
			case "good", "hostile", "missing", "in":
				env = append(env, "LANG_PATH="+filepath.Join(dir, path))
			case "relative good":
				env = append(env, "LANG_PATH=good")
			default:
				env = append(env, "LANG_PATH="+path)
			}
			text := fmt.Sprintf("%q with %q", args, env)
			c.State(kind, loc, path, form, zone, fmt.Sprint(rel), shape)
			const old = "old content\n"
			outFile := filepath.Join(dir, "out.pot")
			write(dir, "out.pot", old)
			r := command(c, dir, env, args...)
			c.Logf("%s -> %d", text, r.status)
			b, err := os.ReadFile(outFile)
			if err != nil {
				c.Fail("%s: the output file is gone", text)
			}
			if l := listing(dir); l != c.Scratch["listing"].(string) {
				old := c.Scratch["listing"]
				c.Scratch["listing"] = l
				c.Fail("%s changes the files from\n%s\nto\n%s", text, old, l)
			}
			pot := string(b)
			if kind == "-" || kind == "stdout" {
				if pot != old {
					c.Fail("%s changes a file it was not told of", text)
				}
				pot = r.stdout
			}
			if ok {
				if r.status != 0 {
					c.Fail("%s ends with status %d: %s", text, r.status, r.stderr)
				}
				var g merger
				files := map[string]string{}
				for _, n := range []string{"b.tmpl", "d.tmpl"} {
					files[strings.Replace(in, "*.tmpl", n, 1)] = n
				}
				g.add(tcall{"", "", "one", "-"}, "b.tmpl:1")
				g.add(tcall{"", "", "apple", "apples"}, "b.tmpl:2")
				g.add(tcall{"", "", "two", "-"}, "d.tmpl:1")
				g.add(tcall{"", "", "one", "-"}, "d.tmpl:1")
				if err := g.judge(pot, files, true); err != nil {
					c.Fail("%s: %v\n%s", text, err, pot)
				}
				// the same whatever the environment
				key := fmt.Sprint("pot ", kind, form, rel)
				pot = reDate.ReplaceAllString(pot, "")
				if c.Scratch[key] == nil {
					write(dir, "out.pot", old)
					r := command(c, dir, inC, args...)
					if kind != "-" && kind != "stdout" {
						b, _ := os.ReadFile(outFile)
						r.stdout = string(b)
					}
					c.Scratch[key] = reDate.ReplaceAllString(r.stdout, "")
				}
				if want := c.Scratch[key].(string); pot != want {
					delete(c.Scratch, key)
					c.Fail("%s: the output depends on the environment:\n%s\n=> in C\n%s", text, pot, want)
				}
				c.Outcome("extracted")
				return
			}
			if pot != old {
				c.Fail("%s changes the output file to %q", text, pot)
			}
			if strings.Contains(kind, "-h") || strings.Contains(kind, "-v") || kind == "help" {
				if r.status != 0 {
					c.Fail("%s ends with status %d: %s", text, r.status, r.stderr)
				}
				if strings.TrimSpace(r.stdout+r.stderr) == "" {
					c.Fail("%s says nothing", text)
				}
				if !strings.Contains(kind, "-v") {
					for _, name := range []string{"i", "k", "f", "o", "left", "right", "d", "v", "h"} {
						if !strings.Contains(r.stdout+r.stderr, "  -"+name) {
							c.Fail("%s does not tell of -%s:\n%s%s", text, name, r.stdout, r.stderr)
						}
					}
				}
				c.Outcome("help or version")
			} else {
				if r.status == 0 {
					c.Fail("%s succeeds: %s", text, r.stderr)
				}
				if strings.TrimSpace(r.stderr) == "" {
					c.Fail("%s fails with status %d and says nothing", text, r.status)
				}
				c.Outcome("refused")
			}
			// in the language of the environment
			said := c.Scratch["said"].([]string)
			german := strings.HasPrefix(loc, "de") && (path == "good" || path == "relative good")
			plain := path == "good" && (loc == "C" || strings.HasPrefix(loc, "en")) || path == "unset" && strings.HasPrefix(loc, "de")
			if complains {
				last := lastLine(r.stderr)
				switch {
				case german && last != "«"+said[0]+"»", plain && last != said[0]:
					c.Fail("%s: the last line is %q", text, last)
				case strings.HasPrefix(loc, "zh") && (path == "unset" || strings.TrimSpace(path) == ""):
					if want, _ := ownCat.X("", said[0]); want != said[0] && last != want {
						c.Fail("%s: the last line is %q, want %q", text, last, want)
					}
				}
			}
			if kind == "-h" && german {
				for _, s := range said[1:] {
					if !strings.Contains(r.stdout+r.stderr, "«"+s+"»") {
						c.Fail("%s: %q is not translated:\n%s%s", text, s, r.stdout, r.stderr)
					}
				}
			}
		}, mc.Budget(mc.Sel(t, 3, 5)), mc.Bound("%d kinds of command lines with every combination of up to %d of: %d other locales, %d other values of LANG_PATH, %d other spellings, %d time zones, relative paths, %d other ways to name the language", len(kinds), mc.Sel(t, 3, 5), len(locales)-1, len(paths)-1, len(forms)-1, len(zones)-1, len(shapes)-1))
		names := []string{"x", " x", "x ", "\tx", "x\n", "$HOME", "${HOME}x", "~", "~root", "%d", "%HOME%", "x y", "-x", "--", "-o", "x.PO", "x.po", "é", "\xff", "'x'", "\"x\"", "x#y", "x;y", "x,y", "x=y", "=x", "x=", ".x", "..x", "x.", "x:1", "|x", ">x", "&x", "x\u00a0", "\ufeffx", "-x-", "stdout", "null", "x?", "x*", "[x]", "x\\y", "@x", "X", strings.Repeat("n", 200)}
		t.Explore("names", func(c *mc.C) {
			// every name of a file is taken as it is
			out, in := mc.Pick(c, names), mc.PickDev(c, names)
			sub := mc.PickDev(c, []string{"", "./", "sub/", " sub /", "sub/../", "/", "~/", "$HOME/", "${HOME}/", "%HOME%/", "~root/", "file:/"})
			inDir := mc.PickDev(c, []string{"in", "~", "$HOME", "${HOME}", "~root", "file:"})
			there := c.Dev(2) == 1
			dir := filepath.Join(workDir(c), "names")
			if err := os.RemoveAll(dir); err != nil {
				panic(err)
			}
			folders := []string{"in", "sub", " sub "}
			for _, d := range []string{"~", "$HOME", "${HOME}", "%HOME%", "~root", "file:"} {
				if d == inDir || d+"/" == sub {
					folders = append(folders, d)
					if d == out {
						c.Abandon()
					}
				}
			}
			for _, d := range folders {
				if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
					panic(err)
				}
			}
			var b strings.Builder // what stands for the name in a pattern
			for i := 0; i < len(in); i++ {
				if strings.IndexByte("*?[\\", in[i]) >= 0 {
					b.WriteByte('\\')
				}
				b.WriteByte(in[i])
			}
			write(filepath.Join(dir, inDir), in, good1)
			write(filepath.Join(dir, inDir), "other", good2)
			outArg := sub + out
			if sub == "/" {
				outArg = filepath.Join(dir, "sub") + "/" + out
			}
			target := outArg
			if sub != "/" {
				target = dir + "/" + outArg
			}
			if there {
				if err := os.WriteFile(target, []byte("old content, longer than the new one\n"+strings.Repeat("#", 5000)), 0o644); err != nil {
					panic(err)
				}
			}
			args := []string{"-i", inDir + "/" + b.String(), "-k", "T;N:1,2", "-f", "foo,bar", "-o", outArg}
			text := fmt.Sprintf("%q", args)
			c.State(text, fmt.Sprint(there))
			r := command(c, dir, []string{"LC_ALL=C", "HOME=" + dir}, args...)
			c.Logf("%s -> %d", text, r.status)
			if r.status != 0 {
				c.Fail("%s ends with status %d: %s", text, r.status, r.stderr)
			}
			pot, err := os.ReadFile(target)
			if err != nil {
				c.Fail("%s: %v", text, err)
			}
			var g merger
			g.add(tcall{"", "", "one", "-"}, "")
			g.add(tcall{"", "", "apple", "apples"}, "")
			if err := g.judge(string(pot), nil, false); err != nil {
				c.Fail("%s: %v\n%s", text, err, pot)
			}
			if r.stdout != "" {
				c.Fail("%s prints %q", text, r.stdout)
			}
			if err := os.Remove(target); err != nil {
				panic(err)
			}
			n := 0
			filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
				if err != nil {
					panic(err)
				}
				if n++; !fi.IsDir() {
					b, err := os.ReadFile(path)
					if err != nil || filepath.Dir(path) != filepath.Join(dir, inDir) || string(b) != good1 && string(b) != good2 {
						c.Fail("%s makes or changes %s", text, strings.TrimPrefix(path, dir))
					}
				}
				return nil
			})
			if n != len(folders)+3 {
				c.Fail("%s: %d files and folders, want %d", text, n, len(folders)+3)
			}
		}, mc.Budget(mc.Sel(t, 1, 2)), mc.Bound("%d names of output files with up to %d of: every one of these names for the input, 11 folders before it, 5 other folders of the input, an older file there", len(names), mc.Sel(t, 1, 2)))
	}, "what -d prints, on which of the two streams help goes, and the wording of messages are not judged")
}
