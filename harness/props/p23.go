package props

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t"
)

// catFile is a file with its meaning as a catalogue.
type catFile struct {
	path string
	kind string // what the content is
	lang string // normalised language of a valid catalogue
	data string
}

// walkLess is the lexical order of a directory walk.
func walkLess(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

// outranks tells whether the catalogue in file a is preferred to the one in b.
func outranks(a, b string) bool {
	pa, pb := strings.HasSuffix(a, ".po"), strings.HasSuffix(b, ".po")
	if pa != pb {
		return pa
	}
	return walkLess(b, a)
}

func isCat(path string) bool { return strings.HasSuffix(path, ".po") || strings.HasSuffix(path, ".mo") }

// minimal catalogue of one message
func oneMsg(lang, tag string) []ref.Msg {
	h := ref.Msg{Str: "Language: " + lang + "\n"}
	if lang == "" {
		h.Str = "X: y\n"
	}
	return []ref.Msg{h, {ID: "m", Str: tag}}
}

var fileKinds = []struct{ kind, lang, norm string }{
	{"native", "de", "de_DE"}, {"native", "fr_FR", "fr_FR"}, {"native", "DE-de", "de_DE"}, {"native", "", ""}, {"other", "de", "de_DE"}, {"broken", "", ""}, {"empty", "", ""}, {"cut", "fr", "fr_FR"},
}

// makeFile makes the file of a kind; lang is "-" when nothing can be loaded from it.
func makeFile(path string, k int) catFile {
	fk := fileKinds[k]
	f := catFile{path: path, kind: fk.kind + " " + fk.lang, lang: fk.norm}
	po := ref.WritePo(oneMsg(fk.lang, path)...)
	mo := string(ref.BuildMo(ref.Pairs(oneMsg(fk.lang, path)...), ref.MoLayout{}))
	isMo := strings.HasSuffix(path, ".mo")
	switch fk.kind {
	case "native":
		f.data = po
		if isMo {
			f.data = mo
		}
	case "other":
		f.data, f.lang = mo, "-"
		if isMo {
			f.data = po
		}
	case "broken":
		f.data, f.lang = "msgid \"m\"\nmsgstr broken\n", "-"
	case "empty":
		f.data, f.lang = "", "-"
	case "cut":
		f.data, f.lang = po[:len(po)-2], "-"
		if isMo {
			f.data = mo[:len(mo)-3]
		}
	}
	if !isCat(path) {
		f.lang = "-"
	}
	return f
}

// expect is what loading the files must give: the winning file of every language.
func expect(files []catFile) (win map[string]string, loaded bool) {
	win = map[string]string{}
	for _, f := range files {
		if f.lang == "-" {
			continue
		}
		loaded = true
		if f.lang == "" {
			continue
		}
		if w, ok := win[f.lang]; !ok || outranks(f.path, w) {
			win[f.lang] = f.path
		}
	}
	return
}

// checkLoaded compares a domain with what the files hold.
func checkLoaded(c *mc.C, ts *t.Translations, domain string, files []catFile, before, what string) {
	win, loaded := expect(files)
	c.Step()
	if has := ts.HasDomain(domain); has != (loaded || before != "") {
		c.Fail("%s: domain bound: %v, want %v (%s)", what, has, loaded, show(files))
	}
	if !loaded {
		win = map[string]string{}
		if before != "" {
			win["it_IT"] = before
		}
	}
	want := []string{}
	d := ts.D(domain)
	for l, w := range win {
		want = append(want, l)
		if got := d.L(l).T("m"); got != w {
			c.Fail("%s: language %s answers %q, want the one of %q (%s)", what, l, got, w, show(files))
		}
	}
	d.SetSourceCodeLocale("en_US")
	got := []string{}
	for _, l := range d.Locales() {
		if l != "en_US" {
			got = append(got, l)
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		c.Fail("%s: languages %v, want %v (%s)", what, got, want, show(files))
	}
	for _, l := range []string{"de_DE", "fr_FR", "it_IT", "ja_JP"} {
		if _, ok := win[l]; !ok {
			if got := d.L(l).T("m"); got != "m" {
				c.Fail("%s: language %s answers %q, it has no catalogue (%s)", what, l, got, show(files))
			}
		}
	}
}

func show(files []catFile) string {
	var s []string
	for _, f := range files {
		s = append(s, fmt.Sprintf("%s=%s", f.path, f.kind))
	}
	return strings.Join(s, ", ")
}

func filesFS(files []catFile) fs.FS {
	m := map[string]string{}
	for _, f := range files {
		m[f.path] = f.data
	}
	return memFS(m)
}

var catPlaces = []string{"a.po", "b.po", "a.mo", "b.mo", "sub/a.po", "sub/deep/er/z.mo", "sub.po/x.po", "sub-x/y.po", ".po", ".mo", "x.PO", "x.pot", "a.po.bak", ".h/x.po", "sub/deep/a.po", "z.mo/q.po", "é ü.po", "po", "a.po~", "zz.mo.po", "A.po"}

func init() {
	register("C23", func(tt *mc.T) {
		defer t.SetGlobal(t.NewTranslations())
		gen := func(c *mc.C, n int, places []string, kinds []int) (files []catFile) {
			at := 0
			for i := 0; i < n; i++ {
				// ascending places
				k := at + c.Choose(len(places)-at-(n-1-i))
				at = k + 1
				files = append(files, makeFile(places[k], mc.Pick(c, kinds)))
			}
			return
		}
		all := []int{0, 1, 2, 3, 4, 5, 6, 7}
		n := mc.Sel(tt, 3, 3)
		tt.Explore("trees", func(c *mc.C) {
			files := gen(c, c.Choose(n+1), catPlaces, all)
			c.State(show(files))
			ts := t.NewTranslations()
			before := ""
			if c.Bool() {
				before = "old"
				ts.BindFS("d", memFS(map[string]string{"x.po": ref.WritePo(oneMsg("it", "old")...)}))
			}
			ts.BindFS("d", filesFS(files))
			checkLoaded(c, ts, "d", files, before, "BindFS")
			if ts.HasDomain("default") || ts.HasDomain("") {
				c.Fail("BindFS bound another domain: %v", ts.Domains())
			}
			tr := t.NewTranslation("d")
			_, loaded := expect(files)
			if got := tr.LoadFS(filesFS(files)); got != loaded {
				c.Fail("Translation.LoadFS returns %v, want %v (%s)", got, loaded, show(files))
			}
			c.Logf("%s", show(files))
		}, mc.Bound("every set of up to %d of %d places x %d kinds of content each x domain bound before or not", n, len(catPlaces), len(fileKinds)))
		sp := []string{"a.po", "a.mo", "b.mo", "sub/a.po", "sub/z.mo", "sub-x/y.po", "sub.po/x.po", "zz.po", ".po"}
		tt.Explore("languages", func(c *mc.C) {
			// every file is valid: who wins
			k := mc.Sel(tt, 5, 7)
			var files []catFile
			for _, p := range sp {
				if len(files) < k {
					if x := c.Choose(4); x > 0 {
						files = append(files, makeFile(p, x-1))
					}
				}
			}
			c.State(show(files))
			ts := t.NewTranslations()
			ts.BindFS("d", filesFS(files))
			checkLoaded(c, ts, "d", files, "", "BindFS")
		}, mc.Bound("up to %d valid files in 9 places, 2 languages, one of them in two spellings", mc.Sel(tt, 5, 7)))
		named := []string{"de", "fr", "de_DE", "fr-FR", "ja", "it", "C", "en", "und", "POSIX", "de.UTF-8", "default", "d", "messages", "index", "readme", "template", "d.de", "de.fr", "zh_Hans_CN"}
		tt.Explore("named-like-languages", func(c *mc.C) {
			// only the header tells the language
			k := c.Choose(4)
			file, dir, ext := mc.Pick(c, named), mc.Pick(c, []string{"", "de/", "fr/LC_MESSAGES/", "ja_JP/", "d/"}), []string{".po", ".mo"}[c.Choose(2)]
			files := []catFile{makeFile(dir+file+ext, k)}
			if second := c.Choose(4); second > 0 {
				files = append(files, makeFile(mc.Pick(c, named)+".po", second-1))
				if files[1].path == files[0].path {
					c.Abandon()
				}
			}
			c.State(show(files))
			ts := t.NewTranslations()
			ts.BindFS("d", filesFS(files))
			checkLoaded(c, ts, "d", files, "", "BindFS")
			c.Logf("%s", show(files))
		}, mc.Bound("files with %d names, many of them names of languages, in 5 folders, with 4 headers, alone and next to another", len(named)))
		special := []string{"vendor", "node_modules", "testdata", "test", ".git", ".svn", ".hg", "CVS", "_build", "_x", "__MACOSX", ".DS_Store", "tmp", "temp", "build", "dist", "target", "bin", "obj", "old", "backup", "obsolete", "example", "LC_MESSAGES", "locale", "locales", "i18n", "l10n", "po", "mo", "lang", "src", "cmd", "internal", "~", "a~", "#a#", "lost+found", "con", "-", "--", "..a", "a.", "a b", "%41", "*", "[a]", "\\", "é"}
		tt.Explore("special-folders", func(c *mc.C) {
			dir := mc.Pick(c, special)
			p := dir + "/" + mc.Pick(c, []string{"a.po", "a.mo", "sub/a.po", special[c.Choose(len(special))] + "/z.po"})
			switch c.Choose(3) {
			case 1:
				p = "top/" + p
			case 2: // as the name of the file
				p = dir + ".po"
			}
			files := []catFile{makeFile(p, c.Choose(2))}
			if c.Bool() {
				files = append(files, makeFile("zz.po", 1))
			}
			c.State(show(files))
			c.Logf("%s", show(files))
			ts := t.NewTranslations()
			ts.BindFS("d", filesFS(files))
			checkLoaded(c, ts, "d", files, "", "BindFS")
		}, mc.Bound("folders and files with %d names that other programs skip or treat specially, alone, in another and next to others", len(special)))
		tt.Explore("big", func(c *mc.C) {
			// depth, many files, files longer than any buffer
			depth := mc.Pick(c, []int{0, 1, 20})
			count := mc.Pick(c, []int{1, 300})
			pad := mc.Pick(c, []int{0, 511, 512, 513, 40000, 1<<16 + 1, 1<<20 + 1, 1<<22 + 1, mc.Sel(tt, 1<<24+1, 1<<26+1)})
			if count > 1 && pad > 40000 {
				c.Abandon()
			}
			dir := strings.Repeat("d/", depth)
			ext := mc.Pick(c, []string{".po", ".mo"})
			var files []catFile
			for i := 0; i < count; i++ {
				p := fmt.Sprintf("%sf%03d%s", dir, i, ext)
				f := makeFile(p, i%4)
				ms := oneMsg(fileKinds[i%4].lang, p)
				ms = append([]ref.Msg{ms[0], {ID: "aaa", Str: strings.Repeat("p", pad)}}, ms[1:]...)
				if ext == ".po" {
					f.data = ref.WritePo(ms...)
				} else {
					f.data = string(ref.BuildMo(ref.Pairs(ms...), ref.MoLayout{}))
				}
				files = append(files, f)
			}
			c.State(dir, ext, fmt.Sprint(count, pad))
			ts := t.NewTranslations()
			ts.BindFS("d", filesFS(files))
			checkLoaded(c, ts, "d", files, "", fmt.Sprintf("%d files in depth %d", count, depth))
			if got := ts.D("d").L("de").T("aaa"); pad > 0 && got != strings.Repeat("p", pad) {
				c.Fail("message of %d bytes has %d", pad, len(got))
			}
		})

		// real files, through paths
		root := mustTemp()
		defer os.RemoveAll(root)
		seq := 0
		rp := []string{"a.po", "b.mo", "sub/a.po", "sub/deep/z.mo", "sub.po/x.po", "x.PO", "x.pot", "é ü.po", ".po"}
		tt.Explore("paths", func(c *mc.C) {
			files := gen(c, c.Choose(mc.Sel(tt, 2, 3)+1), rp, mc.Sel(tt, []int{0, 1, 3, 5}, all[:6]))
			for i := range files {
				if k := c.Dev(3); k > 0 { // the file is a symbolic link
					files[i].kind += []string{"", " link", " broken link"}[k]
					if k == 2 {
						files[i].lang = "-"
					}
				}
			}
			how := c.Choose(5)
			api := c.Choose(3)
			c.State(show(files), fmt.Sprint(how, api))
			seq++
			dir := filepath.Join(root, fmt.Sprint("tree ", seq))
			defer os.RemoveAll(dir)
			must(os.MkdirAll(dir, 0o700))
			for _, f := range files {
				p := filepath.Join(dir, f.path)
				must(os.MkdirAll(filepath.Dir(p), 0o700))
				switch {
				case strings.HasSuffix(f.kind, " broken link"):
					must(os.Symlink("nowhere", p))
				case strings.HasSuffix(f.kind, " link"):
					must(os.WriteFile(p+".target", []byte(f.data), 0o600))
					must(os.Symlink(filepath.Base(p)+".target", p))
				default:
					must(os.WriteFile(p, []byte(f.data), 0o600))
				}
			}
			path := dir
			switch how {
			case 1:
				path = dir + "/"
			case 2:
				path = filepath.Join(dir, "..") + "/./" + filepath.Base(dir)
			case 3:
				path = dir + ".link"
				must(os.Symlink(dir, path))
				defer os.Remove(path)
			case 4: // the path of one file
				if len(files) == 0 {
					path = filepath.Join(dir, "missing.po")
					break
				}
				files = files[len(files)-1:]
				path = filepath.Join(dir, files[0].path)
			}
			t.SetGlobal(t.NewTranslations())
			d := "d"
			switch api {
			case 0:
				t.Bind("d", path)
			case 1:
				t.SetDomain("cur")
				d = "cur"
				t.Load(path)
			case 2:
				t.BindFS("d", os.DirFS(path))
				if how == 4 {
					c.Abandon()
				}
			}
			what := fmt.Sprintf("path %s of kind %d, api %d", strings.TrimPrefix(path, root), how, api)
			checkLoaded(c, t.Global(), d, files, "", what)
			if len(t.Domains()) > 1 {
				c.Fail("%s: domains %v", what, t.Domains())
			}
			c.Logf("%s: %s", what, show(files))
		}, mc.Serial(), mc.Budget(mc.Sel(tt, 1, 2)), mc.Bound("every set of up to %d of %d places x kinds on a real file system, also as symbolic links to files, by 4 spellings of the directory's path, by the path of one file and through os.DirFS; Bind, Load and BindFS", mc.Sel(tt, 2, 3), len(rp)))
		odd := []string{"$HOME", "${HOME}", "$x", "~", "~root", "%41", "%d", "a ", " a", "\ta", "a\n", "é", "e\u0301", "*", "[a]", "?", "a\\b", "x:y", "file:", "-x", "#x", "a;b", "a,b", "\xff", "...", ".a", "a.", "x.po", "x.mo", "&", "|", "'", "\"", "+", "=", "@", strings.Repeat("n", 200)}
		tt.Explore("odd-paths", func(c *mc.C) {
			// what a path is made of does not matter
			name, inner := mc.Pick(c, odd), mc.Pick(c, odd)
			if inner == "\xff" {
				c.Abandon() // no name for a file in a file system of package fs
			}
			how, api, ext := c.Choose(4), c.Choose(2), []string{".po", ".mo"}[c.Choose(2)]
			f := makeFile(inner+"/"+inner+ext, 0)
			c.State(name, inner, fmt.Sprint(how, api, ext))
			seq++
			base := filepath.Join(root, fmt.Sprint("odd", seq))
			defer os.RemoveAll(base)
			file := base + "/" + name + "/" + f.path
			must(os.MkdirAll(filepath.Dir(file), 0o700))
			must(os.WriteFile(file, []byte(f.data), 0o600))
			path := base + "/" + name
			switch how {
			case 1: // from inside
				must(os.Chdir(base))
				defer os.Chdir("/")
				path = name
			case 2:
				path = file
			case 3:
				must(os.Chdir(filepath.Dir(file)))
				defer os.Chdir("/")
				path = inner + ext
			}
			t.SetGlobal(t.NewTranslations())
			if api == 0 {
				t.Bind("d", path)
			} else {
				t.SetDomain("d")
				t.Load(path)
			}
			what := fmt.Sprintf("path %q, way %d", strings.TrimPrefix(path, base), api)
			checkLoaded(c, t.Global(), "d", []catFile{f}, "", what)
			c.Logf("%s", what)
		}, mc.Serial(), mc.Bound("%d names of folders, relative and absolute, and of files in them", len(odd)))
		tt.Explore("single-files", func(c *mc.C) {
			tr := t.NewTranslation("d")
			f := makeFile(mc.Pick(c, catPlaces), c.Choose(len(fileKinds)))
			if !isCat(f.path) {
				c.Abandon()
			}
			base := filepath.Base(f.path)
			file, err := memFS(map[string]string{base: f.data}).Open(base)
			must(err)
			defer file.Close()
			c.State(f.path, f.kind)
			c.Step()
			var lerr error
			switch how := c.Choose(2); how {
			case 0:
				lerr = tr.LoadFile(file)
			default:
				if strings.HasSuffix(f.path, ".po") {
					lerr = tr.LoadPo([]byte(f.data))
				} else {
					lerr = tr.LoadMo([]byte(f.data))
				}
			}
			if (lerr != nil) != (f.lang == "-") {
				c.Fail("loading %s (%s): error %v", f.path, f.kind, lerr)
			}
			for _, l := range []string{"de_DE", "fr_FR"} {
				if _, ok := tr.Get(l); ok != (l == f.lang) {
					c.Fail("loading %s (%s): language %s there: %v", f.path, f.kind, l, ok)
				}
			}
		})
	}, "links to directories, and .po or .mo content in files of other names, are outside the space")

	register("C24", func(tt *mc.T) {
		base := func(c *mc.C) []catFile {
			return []catFile{makeFile("a.mo", 0), makeFile("b.po", 1), makeFile("d/c.po", 0), makeFile("d/e.mo", 1), makeFile("d/s/f.po", 2), makeFile("g.po", 5), makeFile("z.po", 1), makeFile("z/y.po", 0)}
		}
		small := func(c *mc.C) []catFile {
			return []catFile{makeFile("a.mo", c.Choose(2)), makeFile("d/c.po", c.Choose(3)), makeFile("z.po", c.Choose(2))}
		}
		run := func(c *mc.C, files []catFile, ff *faultFS) {
			ts := t.NewTranslations()
			before := ""
			if c.Bool() {
				before = "old"
				ts.BindFS("d", memFS(map[string]string{"x.po": ref.WritePo(oneMsg("it", "old")...)}))
			}
			ff.c = c
			ff.files = map[string]string{}
			for _, f := range files {
				ff.files[f.path] = f.data
			}
			ff.hit = map[string]bool{}
			if c.Bool() {
				ts.BindFS("d", fullFS{ff})
			} else {
				ts.BindFS("d", ff)
			}
			ff.c = nil
			c.Step()
			what := fmt.Sprintf("with faults %v", ff.log)
			c.State(what, before)
			for h := range ff.open {
				c.Fail("%s: %s was not closed", what, h.path)
			}
			// what is certain and what is possible
			var sure, maybe []catFile
			for _, f := range files {
				if f.lang == "-" || ff.failed[f.path] {
					continue
				}
				affected := false
				for h := range ff.hit {
					affected = affected || h == "." || h == f.path || strings.HasPrefix(f.path, h+"/")
				}
				if affected {
					maybe = append(maybe, f)
				} else {
					sure = append(sure, f)
				}
			}
			win, loaded := expect(sure)
			_, possible := expect(maybe)
			has := ts.HasDomain("d")
			if !has && (loaded || before != "") || has && !loaded && !possible && before == "" {
				c.Fail("%s: domain bound: %v; files that were delivered: %s", what, has, show(sure))
			}
			d := ts.D("d")
			isOld := before != "" && d.L("it").T("m") == "old"
			if isOld && loaded {
				c.Fail("%s: the earlier catalogues are still there though %s were loaded", what, show(sure))
			}
			if before != "" && !isOld && !loaded && !possible {
				c.Fail("%s: nothing could be loaded, but the earlier catalogues are gone", what)
			}
			for _, l := range []string{"de_DE", "fr_FR"} {
				got := d.L(l).T("m")
				ok := false
				w, sureHas := win[l]
				if sureHas {
					ok = got == w
				} else {
					ok = got == "m"
				}
				for _, f := range maybe {
					if f.lang == l && got == f.path && (!sureHas || outranks(f.path, w)) {
						ok = true
					}
				}
				if isOld {
					ok = got == "m"
				}
				if !ok {
					c.Fail("%s: language %s answers %q; delivered: %s; perhaps: %s", what, l, got, show(sure), show(maybe))
				}
			}
			c.Logf("%s: loaded %v", what, d.Locales())
		}
		tt.Explore("any-operation", func(c *mc.C) {
			run(c, base(c), &faultFS{dev: true})
		}, mc.Budget(mc.Sel(tt, 2, 3)), mc.Bound("every placement of up to %d faults (error, partial list, error at a byte, short reads, data together with EOF, failing close) over all operations of the walk", mc.Sel(tt, 2, 3)))
		paths := []string{".", "a.mo", "b.po", "d", "d/c.po", "d/e.mo", "d/s", "d/s/f.po", "z.po", "z", "g.po"}
		tt.Explore("broken-paths", func(c *mc.C) {
			ff := &faultFS{bad: map[string]int{}}
			var n int
			for _, p := range paths {
				if n < mc.Sel(tt, 3, 4) {
					if k := c.Choose(5); k > 0 {
						ff.bad[p] = k
						n++
					}
				}
			}
			run(c, base(c), ff)
		}, mc.Bound("every set of up to %d of %d paths that always fail (open, stat, read or list, close)", mc.Sel(tt, 3, 4), len(paths)))
		tt.Explore("every-byte", func(c *mc.C) {
			files := small(c)
			i := c.Choose(len(files))
			k := c.Choose(len(files[i].data) + 1)
			ff := &faultFS{cutAt: k + 1, cutPath: files[i].path, cutErr: mc.Pick(c, []error{errFault, io.ErrUnexpectedEOF, fs.ErrClosed, os.ErrDeadlineExceeded}), withData: c.Bool(), chunk: mc.Pick(c, []int{0, 1, 7})}
			run(c, files, ff)
		}, mc.Bound("a read error after every number of bytes of every file, alone or with the last bytes, with reads of any size, of 7 and of 1 bytes"))
		tt.Explore("short-reads", func(c *mc.C) {
			ff := &faultFS{chunk: mc.Pick(c, []int{1, 2, 3, 7, 64, 511}), eofWithData: c.Bool(), zero: c.Bool()}
			run(c, base(c), ff)
		})
	}, "a file whose close fails after everything was delivered may or may not be used", "what a failed listing of a directory did not deliver may or may not be found", "a file that ends early without an error is a truncated file: see C10 and C14")
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("checker: %v", err))
	}
}

func mustTemp() string {
	d, err := os.MkdirTemp(os.Getenv("VMC_SCRATCH"), "c")
	must(err)
	return d
}

var errFault = errors.New("injected fault")

// faultFS is a file system in memory whose operations fail on demand.
type faultFS struct {
	c           *mc.C
	files       map[string]string
	dev         bool           // faults are chosen at every operation
	bad         map[string]int // paths that always fail: 1 open, 2 stat, 3 read or list, 4 close
	cutPath     string
	cutAt       int // 1 + number of bytes delivered
	cutErr      error
	withData    bool
	chunk       int
	eofWithData bool
	zero        bool

	log    []string
	hit    map[string]bool // paths where a fault happened
	failed map[string]bool // files that failed in every way they could be used
	open   map[*faultFile]bool
}

// fullFS is a faultFS with all the methods a file system may have.
type fullFS struct{ *faultFS }

type openFS struct{ fs.FS }

func (f fullFS) ReadFile(path string) ([]byte, error) { return fs.ReadFile(openFS{f.faultFS}, path) }
func (f fullFS) ReadDir(path string) ([]fs.DirEntry, error) {
	return fs.ReadDir(openFS{f.faultFS}, path)
}
func (f fullFS) Stat(path string) (fs.FileInfo, error) { return fs.Stat(openFS{f.faultFS}, path) }
func (f fullFS) Glob(pattern string) ([]string, error) { return fs.Glob(openFS{f.faultFS}, pattern) }

func (f *faultFS) note(path, what string) error {
	f.hit[path] = true
	f.log = append(f.log, what+" "+path)
	return &fs.PathError{Op: what, Path: path, Err: errFault}
}

// fail notes a fault that makes a file unusable.
func (f *faultFS) fail(path, what string) error {
	if _, ok := f.files[path]; ok {
		if f.failed == nil {
			f.failed = map[string]bool{}
		}
		f.failed[path] = true
	}
	return f.note(path, what)
}

func (f *faultFS) fault(n int) int {
	if !f.dev || f.c == nil {
		return 0
	}
	return f.c.Dev(n)
}

type faultFile struct {
	f      *faultFS
	path   string
	dir    bool
	data   string
	off    int
	names  []string
	closed bool
	slow   bool
	turn   bool
}

func (f *faultFS) isDir(path string) bool {
	if path == "." {
		return true
	}
	for p := range f.files {
		if strings.HasPrefix(p, path+"/") {
			return true
		}
	}
	return false
}

func (f *faultFS) Open(path string) (fs.File, error) {
	if !fs.ValidPath(path) {
		return nil, &fs.PathError{Op: "open", Path: path, Err: fs.ErrInvalid}
	}
	data, ok := f.files[path]
	dir := f.isDir(path)
	if !ok && !dir {
		return nil, &fs.PathError{Op: "open", Path: path, Err: fs.ErrNotExist}
	}
	if f.bad[path] == 1 || f.fault(2) == 1 {
		return nil, f.fail(path, "open")
	}
	h := &faultFile{f: f, path: path, dir: dir, data: data}
	if dir {
		seen := map[string]bool{}
		for p := range f.files {
			rest := p
			if path != "." {
				var in bool
				if rest, in = strings.CutPrefix(p, path+"/"); !in {
					continue
				}
			}
			name, _, _ := strings.Cut(rest, "/")
			if !seen[name] {
				seen[name] = true
				h.names = append(h.names, name)
			}
		}
		sort.Sort(sort.Reverse(sort.StringSlice(h.names))) // the order of a directory is not the lexical one
	}
	if f.open == nil {
		f.open = map[*faultFile]bool{}
	}
	f.open[h] = true
	return h, nil
}

type faultInfo struct {
	name string
	dir  bool
	size int64
}

func (i faultInfo) Name() string { return i.name }
func (i faultInfo) Size() int64  { return i.size }
func (i faultInfo) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i faultInfo) ModTime() time.Time         { return time.Time{} }
func (i faultInfo) IsDir() bool                { return i.dir }
func (i faultInfo) Sys() any                   { return nil }
func (i faultInfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i faultInfo) Info() (fs.FileInfo, error) { return i, nil }

func (h *faultFile) Stat() (fs.FileInfo, error) {
	if h.closed {
		return nil, fs.ErrClosed
	}
	if h.f.bad[h.path] == 2 || h.f.fault(2) == 1 {
		return nil, h.f.fail(h.path, "stat")
	}
	return faultInfo{filepath.Base(h.path), h.dir, int64(len(h.data))}, nil
}

func (h *faultFile) Read(p []byte) (int, error) {
	f := h.f
	if h.closed {
		return 0, fs.ErrClosed
	}
	if h.dir {
		return 0, &fs.PathError{Op: "read", Path: h.path, Err: errors.New("is a directory")}
	}
	if f.bad[h.path] == 3 {
		return 0, f.fail(h.path, "read")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.zero {
		if h.turn = !h.turn; h.turn {
			return 0, nil
		}
	}
	end := len(h.data)
	chunk := f.chunk
	if h.slow {
		chunk = 5
	}
	if chunk > 0 {
		end = min(end, h.off+chunk)
	}
	cut := f.cutPath == h.path && f.cutAt > 0
	if cut {
		end = min(end, f.cutAt-1)
	}
	n := copy(p, h.data[h.off:end])
	if cut && h.off+n == f.cutAt-1 && (n == 0 || f.withData) {
		h.off += n
		f.fail(h.path, fmt.Sprintf("read after %d bytes", h.off))
		return n, f.cutErr
	}
	if n == 0 && h.off == len(h.data) {
		if f.fault(2) == 1 { // an error instead of the end
			return 0, f.fail(h.path, "read at the end")
		}
		return 0, io.EOF
	}
	switch f.fault(5) {
	case 1: // nothing and an error
		return 0, f.fail(h.path, "read")
	case 2: // half and an error
		n = (n + 1) / 2
		h.off += n
		return n, f.fail(h.path, fmt.Sprintf("read %d bytes", n))
	case 3: // everything and an error
		h.off += n
		return n, f.fail(h.path, "read with all bytes")
	case 4: // short reads from here on
		h.slow = true
		n = (n + 1) / 2
		f.log = append(f.log, "short read "+h.path)
	}
	h.off += n
	if f.eofWithData && h.off == len(h.data) {
		return n, io.EOF
	}
	return n, nil
}

func (h *faultFile) ReadDir(n int) ([]fs.DirEntry, error) {
	f := h.f
	if h.closed {
		return nil, fs.ErrClosed
	}
	if !h.dir {
		return nil, &fs.PathError{Op: "readdir", Path: h.path, Err: errors.New("not a directory")}
	}
	if f.bad[h.path] == 3 {
		return nil, f.fail(h.path, "list")
	}
	names := h.names
	if n > 0 {
		names = names[:min(n, len(names))]
		if len(names) == 0 {
			return nil, io.EOF
		}
	}
	var err error
	switch f.fault(3) {
	case 1:
		return nil, f.fail(h.path, "list")
	case 2: // half of it and an error
		names = names[:len(names)/2]
		f.log = append(f.log, fmt.Sprintf("list %v only of %s", names, h.path))
		err = &fs.PathError{Op: "readdirent", Path: h.path, Err: errFault}
		for _, x := range h.names[len(names):] { // the rest was not delivered
			f.hit[strings.TrimPrefix(h.path+"/"+x, "./")] = true
		}
	}
	h.names = h.names[len(names):]
	var r []fs.DirEntry
	for _, x := range names {
		p := x
		if h.path != "." {
			p = h.path + "/" + x
		}
		r = append(r, faultInfo{x, f.isDir(p), int64(len(f.files[p]))})
	}
	return r, err
}

func (h *faultFile) Close() error {
	if h.closed {
		return fs.ErrClosed
	}
	h.closed = true
	delete(h.f.open, h)
	if h.f.bad[h.path] == 4 || h.f.fault(2) == 1 {
		return h.f.note(h.path, "close")
	}
	return nil
}
