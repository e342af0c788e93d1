package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"verif/mc"
	"verif/ref"
	"verif/vsched"

	"github.com/youthlin/t"
	"github.com/youthlin/t/f"
	"github.com/youthlin/t/locale"
	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
	"golang.org/x/text/language"
)

// shared is what all threads of an execution use.
type shared struct {
	ts    *t.Translations
	tr    *t.Translation
	po    *translator.File // loaded, never queried
	mo    *translator.File
	fresh *translator.File // built entry by entry
	args  []any
	tags  []string
}

const (
	coldRule  = "n%2 ? 1 : 0"
	otherRule = "(n & 1) + (n > 100 ? 1 : 0) * 2"
	badRule   = "n % 0"
)

func concMsgs(lang, rule string) []ref.Msg {
	return []ref.Msg{header("Language: "+lang, "Plural-Forms: nplurals=3; plural="+rule+";"), {ID: "m", Str: lang + " m"}, {Ctxt: "c", ID: "m", Str: lang + " cm"},
		{ID: "p", Plural: true, ID2: "ps", Forms: []string{lang + " p0 %d", lang + " p1 %d", lang + " p2 %d"}}, {ID: "%d %s", Str: "%[2]s " + lang + " %[1]d"}, {Ctxt: "c", ID: "p", Plural: true, ID2: "ps", Forms: []string{"c0", "c1", "c2"}}}
}

// what an operation needs
const (
	needSet  = 1
	needPo   = 2
	needMo   = 4
	needFile = 8
	needMore = 16 // with the catalogues few operations use
)

var (
	concD = sync.OnceValue(func() map[string]string {
		return map[string]string{"de.po": ref.WritePo(concMsgs("de_DE", "n != 1")...), "fr.po": ref.WritePo(concMsgs("fr_FR", coldRule)...),
			"zh.mo": string(ref.BuildMo(ref.Pairs(concMsgs("zh_CN", otherRule)...), ref.MoLayout{})), "it.po": ref.WritePo(concMsgs("it_IT", badRule)[:4]...)}
	})
	concE = sync.OnceValue(func() map[string]string {
		return map[string]string{"fr.po": ref.WritePo(concMsgs("fr_FR", "n>1")[:4]...)}
	})
	concPo   = sync.OnceValue(func() []byte { return []byte(ref.WritePo(concMsgs("de_DE", coldRule)...)) })
	concMo   = sync.OnceValue(func() []byte { return ref.BuildMo(ref.Pairs(concMsgs("zh_CN", otherRule)...), ref.MoLayout{}) })
	concOwn  = sync.OnceValue(func() string { return ref.WritePo(oneMsg("fr_FR", "own")...) })
	concSave = sync.OnceValue(func() []byte { return []byte("#: a:1\n" + ref.WritePo(concMsgs("ru_RU", "n>1")[:4]...)) })
	concBig  = sync.OnceValue(func() []byte {
		return ref.BuildMo(ref.Pairs(concMsgs("pl_PL", coldRule)[:4]...), ref.MoLayout{Order: binary.BigEndian})
	})
	concSet = sync.OnceValue(func() map[string]string {
		return map[string]string{"a.po": ref.WritePo(concMsgs("de_DE", coldRule)[:4]...), "b.mo": "garbage"}
	})
)

func newShared(need int) *shared {
	s := &shared{args: []any{7, "x", "extra"}, tags: []string{"de", "fr-FR", "zh_CN"}}
	if need&needSet != 0 {
		s.ts = t.NewTranslations()
		files := concD()
		if need&needMore == 0 {
			files = map[string]string{"de.po": files["de.po"], "fr.po": files["fr.po"]}
		}
		s.ts.BindFS("d", memFS(files))
		s.ts.BindFS("e", memFS(concE()))
		s.ts.SetDomain("d")
		s.ts.SetLocale("fr")
		t.SetGlobal(s.ts)
		s.tr, _ = s.ts.Get("d")
	}
	if need&needPo != 0 {
		s.po, _ = translator.ReadPo(concPo())
	}
	if need&needMo != 0 {
		s.mo, _ = translator.ReadMo(concMo())
	}
	if need&needFile != 0 {
		s.fresh = new(translator.File)
		for _, m := range concMsgs("fr_FR", otherRule)[1:] {
			s.fresh.AddEntry(&translator.Entry{MsgCtxt: m.Ctxt, MsgID: m.ID, MsgID2: m.ID2, MsgStr: m.Str, MsgStrN: m.Forms})
		}
	}
	return s
}

func request(cookie, accept string) *http.Request {
	r := &http.Request{Header: http.Header{}}
	if cookie != "" {
		r.Header.Set("Cookie", cookie)
	}
	r.Header.Set("Accept-Language", accept)
	return r
}

type concOp struct {
	need int
	name string
	do   func(s *shared) string
}

func ev(exp string, n int64) string {
	v, err := plurals.Eval(context.Background(), exp, n)
	return fmt.Sprint(v, err != nil)
}

func saveAll(fl *translator.File, err error) string {
	if err != nil {
		return "error"
	}
	var b bytes.Buffer
	for _, f := range []func() error{func() error { return fl.SaveAsPo(&b) }, func() error { return fl.SaveAsPot(&b) }, func() error { return fl.SaveAsMo(&b) }} {
		if err := f(); err != nil {
			return "error"
		}
	}
	return b.String()
}

func sorted(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return strings.Join(l, " ")
}

// concOps are the operations that may run at the same time. Each handle that an operation
// changes is its own.
var concOps = []concOp{
	{needSet, "T", func(s *shared) string {
		return s.ts.T("m") + s.ts.T("m") + s.ts.T("absent %s", "a") + s.ts.T("%d %s", s.args...)
	}},
	{needSet, "X", func(s *shared) string { return s.ts.X("c", "m") + s.ts.X("c", "m") + s.ts.X("none", "m") }},
	{needSet, "N in fr (parsed rule)", func(s *shared) string {
		return s.ts.N("p", "ps", 3, 3) + s.ts.N("p", "ps", 3, 3) + s.ts.XN("c", "p", "ps", 2)
	}},
	{needSet, "N of the package", func(s *shared) string { return t.N64("p", "ps", 4, s.args...) + t.N64("p", "ps", 4, 4) + t.N1("p", 1) }},
	{needSet, "L(de).N (common rule)", func(s *shared) string { return s.ts.L("de").N("p", "ps", 1, 1) + s.ts.L("de").N("p", "ps", 1, 1) }},
	{needSet | needMore, "L(zh).N (another rule)", func(s *shared) string { return s.ts.L("zh").N("p", "ps", 103, 103) + s.ts.L("zh").T("m") }},
	{needSet | needMore, "L(it).N (failing rule)", func(s *shared) string { return s.ts.L("it").N("p", "ps", 2) }},
	{needSet, "D(e).T", func(s *shared) string { h := s.ts.D("e"); return h.T("m") + h.N("p", "ps", 2, 2) + h.UsedLocale() }},
	{needSet, "unknown domain and locale", func(s *shared) string {
		return s.ts.D("x").T("m") + s.ts.L("ja").X("c", "m") + s.ts.D("x").UsedLocale() + sorted(s.ts.D("x").Locales())
	}},
	{needSet, "own handle", func(s *shared) string {
		h := s.ts.D("e")
		h.BindFS("own", memFS(map[string]string{"o.po": concOwn()}))
		h.SetDomain("own")
		h.SetLocale("fr")
		r := h.T("m")
		h.RemoveDomain("d")
		h.RemoveDomain("own")
		h.SetSourceCodeLocale("de")
		h.SetLocale("de")
		r += h.T("m") + h.Domain() + h.UsedLocale() + sorted(h.Domains())
		h.ClearDomains()
		return r + sorted(h.Domains())
	}},
	{needSet, "Global and its handle", func(s *shared) string {
		g := t.Global()
		g.SetLocale("de")
		g.RemoveDomain("e")
		return g.T("m") + t.T("m") + sorted(g.Domains()) + sorted(t.Domains())
	}},
	{needSet, "queries", func(s *shared) string {
		return fmt.Sprint(sorted(s.ts.Locales()), s.ts.UsedLocale(), s.ts.Locale(), s.ts.Domain(), s.ts.SourceCodeLocale(), s.ts.HasDomain("e"), s.ts.HasDomain("x"), sorted(s.ts.Domains()))
	}},
	{needSet, "package queries", func(s *shared) string {
		return fmt.Sprint(sorted(t.Locales()), t.UsedLocale(), t.Locale(), t.Domain(), t.SourceCodeLocale(), t.HasDomain("e"), sorted(t.Domains()))
	}},
	{needSet, "MostMatchLocale", func(s *shared) string {
		return s.ts.MostMatchLocale() + s.ts.MostMatchLocale() + s.ts.L("de-AT").MostMatchLocale()
	}},
	{needSet, "GetUserLang", func(s *shared) string {
		return t.GetUserLang(request("", "de-AT,fr;q=0.3")) + t.GetUserLang(request("", "de-AT,fr;q=0.3"))
	}},
	{needSet, "GetUserLang by cookie", func(s *shared) string {
		return t.GetUserLang(request("hl=zh", "de"), t.WithCookieName("hl")) + t.GetUserLang(request("hl=zh", "zh-Hans"))
	}},
	{0, "Match", func(s *shared) string {
		tag, i, c := t.Match(s.tags, []string{"fr", "de"})
		return fmt.Sprint(tag, i, c, t.Tag("pt_BR"), t.Tags(s.tags), t.Tag("pt_BR"))
	}},
	{0, "MatchTag", func(s *shared) string {
		tag, i, c := t.MatchTag(t.Tags(s.tags), []language.Tag{t.Tag("zh-TW")})
		return fmt.Sprint(tag, i, c)
	}},
	{needSet, "WithContext", func(s *shared) string {
		ctx := t.SetCtxDomain(t.SetCtxLocale(context.Background(), "de"), "d")
		l, _ := t.GetCtxLocale(ctx)
		return t.WithContext(ctx).N("p", "ps", 2, 2) + t.WithContext(context.Background()).T("m") + l
	}},
	{0, "Eval", func(s *shared) string {
		return ev(coldRule, 5) + ev(coldRule, 5) + ev("n != 1", 2) + ev(otherRule, 101)
	}},
	{0, "Eval of common rules", func(s *shared) string { return ev("n!=1", 0) + ev("n>1", 0) + ev("n != 1", 0) + ev("0", 5) }},
	{0, "Eval of invalid rules", func(s *shared) string { return ev("n %", 5) + ev(badRule, 2) + ev("n $ 1", 1) }},
	{needPo, "File lookups", func(s *shared) string {
		return s.po.XN64("", "p", "ps", 5, 5) + s.po.XN64("", "p", "ps", 5, 5) + s.po.X("c", "m") + s.po.Lang()
	}},
	{needMo, "File of MO", func(s *shared) string {
		v, ok := s.mo.GetHeader("Plural-Forms")
		return s.mo.Lang() + s.mo.XN64("", "p", "ps", 1, 1) + v + fmt.Sprint(ok)
	}},
	{needFile, "File without header", func(s *shared) string { return s.fresh.XN64("", "p", "ps", 1) + s.fresh.X("", "m") + s.fresh.Lang() }},
	{needSet, "Get and GetOrNoop", func(s *shared) string {
		a, ok := s.tr.Get("fr_FR")
		return a.X("", "m") + fmt.Sprint(ok) + s.tr.GetOrNoop("xx").XN64("", "p", "ps", 2) + s.ts.GetOrNoop("zz").GetOrNoop("fr_FR").X("", "m")
	}},
	{0, "own PO file", func(s *shared) string {
		return saveAll(translator.ReadPo(concSave()))
	}},
	{0, "own POT and MO files", func(s *shared) string {
		return saveAll(translator.ReadMo(concBig())) + saveAll(translator.ReadPot(concSave())) + saveAll(translator.ReadPo([]byte("garbage")))
	}},
	{0, "own set", func(s *shared) string {
		n := t.NewTranslations()
		n.BindFS("d", memFS(concSet()))
		n.SetDomain("d")
		n.SetLocale("de")
		return n.N("p", "ps", 3, 3) + sorted(n.Locales())
	}},
	{0, "Normalize", func(s *shared) string {
		return locale.Normalize("zh_Hant") + locale.Normalize("zh_Hant") + locale.Normalize("sr.UTF-8@latin") + locale.NormalizeTag(language.Make("pt"))
	}},
	{0, "Format", func(s *shared) string {
		return f.Format("%d %s", s.args...) + f.Format("%d %s", s.args...) + f.Format("%[2]*[1]d|", 3, 5, "x") + f.DefaultPlural("a %d", "b %d", 2, s.args[:2]...)
	}},
}

func init() {
	register("C28", func(tt *mc.T) {
		if tt.Replaying() || os.Getenv("VMC_SHARD") != "" {
			c28(tt)
			return
		}
		c28shards(tt)
	}, "statements are atomic; weak memory effects are covered by the race detector only", "goroutines never change a handle that another one uses, as documented")
}

func c28(tt *mc.T) {
	runtime.GOMAXPROCS(1)
	vsched.Repeat = uint8(mc.Sel(tt, 2, 4))
	defer t.SetGlobal(t.NewTranslations())
	shard, shards := 0, 1
	if s := os.Getenv("VMC_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &shard, &shards)
	}
	if tt.Replaying() {
		shard, shards = 0, 1
	}
	memo := map[[2]int]string{}
	alone := func(c *mc.C, i, need int) string {
		if r, ok := memo[[2]int{i, need}]; ok {
			return r
		}
		var r [3]string
		for k := range r {
			if k < 2 {
				vsched.Reset()
			}
			r[k] = concOps[i].do(newShared(need))
			if r[k] != r[0] {
				c.Fail("%s gives %q at first and %q later", concOps[i].name, r[0], r[k])
			}
		}
		memo[[2]int{i, need}] = r[0]
		return r[0]
	}
	type cfg struct {
		ops  []int
		warm bool
	}
	run := func(c *mc.C, g cfg) {
		need := 0
		for _, i := range g.ops {
			need |= concOps[i].need
		}
		want := make([]string, len(g.ops))
		for k, i := range g.ops {
			want[k] = alone(c, i, need)
		}
		vsched.Reset()
		s := newShared(need)
		if g.warm {
			for _, i := range g.ops {
				concOps[i].do(s)
			}
		}
		got := make([]string, len(g.ops))
		var threads []func()
		var names []string
		for k, i := range g.ops {
			threads = append(threads, func() { got[k] = concOps[i].do(s) })
			names = append(names, concOps[i].name)
		}
		c.Steps(len(g.ops))
		var r vsched.Result
		c.FixedMapOrder(0, func() {
			r = vsched.Run(threads, c.Choose, c.Dev, func() bool { return c.Budget > 0 })
		})
		what := strings.Join(names, " || ")
		switch {
		case r.Deadlock:
			c.Fail("%s: the goroutines wait for each other", what)
		case r.Panic != "":
			c.Fail("%s: %s", what, r.Panic)
		case r.Free:
			c.Outcome("control lost")
		}
		for k, i := range g.ops {
			if got[k] != want[k] {
				c.Fail("%s: %s gives %q, alone it gives %q", what, concOps[i].name, got[k], want[k])
			}
		}
		c.State(fmt.Sprint(g, r.Yields, r.Switches), fmt.Sprint(c.Choices()))
		c.Logf("%s: %d statements, %d switches, %d preemptions: %q", what, r.Yields, r.Switches, r.Preempts, got)
	}
	mine := func(c *mc.C, i int) {
		if i%shards != shard {
			c.Abandon()
		}
	}
	idx := map[string]int{}
	for i, o := range concOps {
		idx[o.name] = i
	}
	small := []string{"N in fr (parsed rule)", "queries", "GetUserLang", "Eval", "T", "Match", "File lookups", "D(e).T"}
	small = small[:mc.Sel(tt, 4, 8)]
	var pairs, heavy, triples []cfg
	for i := range concOps {
		for j := i; j < len(concOps); j++ {
			for _, w := range []bool{false, true} {
				if !w || i == j || !tt.Quick() {
					pairs = append(pairs, cfg{[]int{i, j}, w})
				}
			}
		}
	}
	for a, x := range small {
		for b, y := range small[a:] {
			heavy = append(heavy, cfg{[]int{idx[x], idx[y]}, false})
			for _, z := range small[a:][b:] {
				triples = append(triples, cfg{[]int{idx[x], idx[y], idx[z]}, false})
			}
		}
	}
	tt.Explore("pairs", func(c *mc.C) {
		i := c.Choose(len(pairs))
		mine(c, i)
		run(c, pairs[i])
	}, mc.Serial(), mc.Budget(1), mc.Bound("every pair of %d operations from cold state (thorough, and pairs of the same operation: and from warm state), %d scheduling points per statement and goroutine, every schedule with at most 1 preemption", len(concOps), vsched.Repeat))
	tt.Explore("triples", func(c *mc.C) {
		i := c.Choose(len(triples))
		mine(c, i)
		run(c, triples[i])
	}, mc.Serial(), mc.Budget(1), mc.Bound("every three of %d operations from cold state, every schedule with at most 1 preemption", len(small)))
	if !tt.Quick() {
		tt.Explore("pairs-2", func(c *mc.C) {
			i := c.Choose(len(heavy))
			mine(c, i)
			run(c, heavy[i])
		}, mc.Serial(), mc.Budget(2), mc.Bound("every pair of %d operations from cold state, every schedule with at most 2 preemptions", len(small)))
	}
}

// c28shards explores in several processes, because schedules need the process to themselves.
func c28shards(tt *mc.T) {
	n := runtime.NumCPU()
	dir, err := os.MkdirTemp(os.Getenv("VMC_SCRATCH"), "c28")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	outs := make([]struct {
		code int
		out  string
		ev   map[string]any
	}, n)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	for i := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sub := filepath.Join(dir, strconv.Itoa(i))
			os.MkdirAll(sub, 0o755)
			cmd := exec.CommandContext(ctx, os.Args[0], "-prop", tt.ID, "-tier", tt.Tier, "-evidence", sub+"/ev.json", "-replays", sub, "-known", flag.Lookup("known").Value.String())
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
			cmd.Env = append(os.Environ(), fmt.Sprintf("VMC_SHARD=%d/%d", i, n), "TMPDIR="+sub)
			b, err := cmd.CombinedOutput()
			var ee *exec.ExitError
			if err != nil && !errors.As(err, &ee) {
				outs[i].code = 3
			}
			if cmd.ProcessState != nil {
				outs[i].code = cmd.ProcessState.ExitCode()
			}
			outs[i].out = string(b)
			if b, err := os.ReadFile(sub + "/ev.json"); err == nil {
				json.Unmarshal(b, &outs[i].ev)
			}
			if m, _ := filepath.Glob(sub + "/C28-*.json"); len(m) > 0 && outs[i].code == 1 {
				b, _ := os.ReadFile(m[0])
				v := new(mc.Violation)
				if json.Unmarshal(b, v) == nil {
					tt.Take(v)
					cancel()
				}
			}
		}()
	}
	wg.Wait()
	for i, o := range outs {
		if tt.Violated() && o.code != 0 {
			continue // ended early
		}
		if o.code != 0 && o.code != 1 || o.code == 1 && !tt.Violated() {
			fmt.Fprintf(os.Stderr, "shard %d ended with %d\n%s\n", i, o.code, o.out)
			os.Exit(2)
		}
		tt.Merge(o.ev)
	}
	tt.Extra["processes"] = n
	tt.Extra["instrumented"] = vsched.Instrumented()
	tt.Extra["race_detector"] = mc.RaceEnabled
}
