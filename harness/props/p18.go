package props

import (
	"bytes"
	"crypto/md5"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t/translator"
)

type place struct {
	file string
	line []int
}

func places(m ref.Msg) (r []place) {
	for _, cm := range m.Cmts {
		rest, ok := strings.CutPrefix(cm, "#:")
		if !ok {
			continue
		}
		for _, item := range strings.Fields(rest) {
			p := strings.Split(item, ":")
			pl := place{file: p[0]}
			for _, x := range p[1:] {
				k, err := strconv.Atoi(x)
				if err != nil {
					return nil
				}
				pl.line = append(pl.line, k)
			}
			r = append(r, pl)
		}
		break // how further comment lines of references order is not specified
	}
	return
}

// before compares two messages of a saved file: -1, 1, or 0 where the order is not specified.
func before(a, b ref.Msg) int {
	if a.IsHeader() || b.IsHeader() {
		if a.IsHeader() {
			return -1
		}
		return 1
	}
	pa, pb := places(a), places(b)
	if len(pa) == 0 && len(pb) == 0 {
		return strings.Compare(a.Key(), b.Key())
	}
	for i := 0; i < len(pa) && i < len(pb); i++ {
		if len(pa[i].line) == 0 || len(pb[i].line) == 0 {
			return 0
		}
		if k := strings.Compare(pa[i].file, pb[i].file); k != 0 {
			return k
		}
		for j := 0; j < len(pa[i].line) && j < len(pb[i].line); j++ {
			if pa[i].line[j] != pb[i].line[j] {
				if pa[i].line[j] < pb[i].line[j] {
					return -1
				}
				return 1
			}
		}
		if len(pa[i].line) != len(pb[i].line) {
			return 0
		}
	}
	return 0
}

func refs18(s ...string) (x []string) {
	for _, k := range s {
		x = append(x, "#: "+k)
	}
	return
}

var pool18 = []ref.Msg{
	header("Language: xx"),
	{ID: "a", Str: "1"}, {Ctxt: "c", ID: "a", Str: "2"}, {ID: "b", Str: "3", Cmts: []string{"# note a.go:1"}},
	{ID: "z", Str: "4", Cmts: refs18("a.go:9")}, {ID: "y", Str: "5", Cmts: refs18("a.go:10")}, {ID: "x", Str: "6", Cmts: refs18("a.go:9")}, {Ctxt: "c", ID: "w", Str: "7", Cmts: refs18("b.go:2", "a.go:1")},
	{ID: "v", Plural: true, ID2: "vs", Forms: []string{"8", "8s"}, Cmts: refs18("a.go:9 b.go:2")}, {Ctxt: "d", ID: "", Str: "9"},
	{Ctxt: "ar", ID: "q", Str: "10", Cmts: refs18("foo")}, {ID: "q", Str: "11", Cmts: refs18("fooar")},
}

// saved18 are catalogues that every process saves.
func saved18() (r [][]ref.Msg) {
	for set := 0; set < 1<<len(pool18); set++ {
		var ms []ref.Msg
		for i, m := range pool18 {
			if set>>i&1 == 1 {
				ms = append(ms, m)
			}
		}
		if len(ms) <= 3 {
			r = append(r, ms)
		}
	}
	for _, n := range []int{9, 100} {
		var ms []ref.Msg
		for i := 0; i < n; i++ {
			ms = append(ms, ref.Msg{ID: fmt.Sprint("m", i), Str: "s", Cmts: refs18("a.go:7")[:i%2]})
		}
		r = append(r, ms)
	}
	return
}

func savedWhat(i int) string {
	return fmt.Sprint(saved18()[i/3], " saved as ", []string{"PO", "POT", "MO"}[i%3])
}

// sumsOfAll saves the catalogues and gives sums of the bytes.
func sumsOfAll() (r []string) {
	for _, ms := range saved18() {
		f := addAll(ms...)
		for i, save := range []func(io.Writer) error{f.SaveAsPo, f.SaveAsPot, f.SaveAsMo} {
			var b bytes.Buffer
			err := save(&b)
			r = append(r, fmt.Sprintf("%d-%v-%x", i, err != nil, md5.Sum(b.Bytes())))
		}
	}
	return
}

// SaveAll is sumsOfAll in a process of its own.
func SaveAll() { fmt.Println(strings.Join(sumsOfAll(), "\n")) }

func init() {
	register("C18", func(t *mc.T) {
		t.Extra["wall_clock_controlled"] = mc.ClockControlled
		otherZone := time.FixedZone("CST", 8*3600)
		t.Extra["map_iteration_order_controlled"] = mc.MapOrderControlled
		saves := []func(*mc.C, *translator.File) string{savePo, savePot, saveMo}
		names := []string{"PO", "POT", "MO"}
		orderOK := func(c *mc.C, text string, what string) {
			ms, err := ref.ReadPo(text)
			if err != nil {
				c.Fail("%s: %v\n%s", what, err, text)
			}
			for i := range ms {
				for j := i + 1; j < len(ms); j++ {
					if before(ms[i], ms[j]) > 0 {
						c.Fail("%s: %v stands before %v\n%s", what, ms[i], ms[j], text)
					}
				}
			}
		}
		same := func(c *mc.C, ms []ref.Msg, perm []int, format int) {
			var want, got string
			c.FixedMapOrder(0, func() { want = saves[format](c, addAll(ms...)) })
			var in []ref.Msg
			for _, i := range perm {
				in = append(in, ms[i])
			}
			f := addAll(in...)
			c.MapOrder(8, func() { got = saves[format](c, f) })
			c.Step()
			if got != want {
				c.Fail("saving as %s depends on the order of adding or of map iteration: %v\n%q\n%v\n%q", names[format], ms, want, in, got)
			}
			c.FixedMapOrder(3, func() {
				c.AtClock(86400*45+61, otherZone, func() { got = saves[format](c, f) })
			})
			if got != want {
				c.Fail("saving as %s a second time, later, gives other bytes: %v\n%q\n%q", names[format], in, want, got)
			}
			if format < 2 {
				orderOK(c, got, fmt.Sprintf("%v saved as %s", in, names[format]))
			}
			c.Logf("%v as %s\n%s", in, names[format], got)
		}
		r, pool := refs18, pool18
		k := mc.Sel(t, 4, 5)
		t.Explore("adding-orders", func(c *mc.C) {
			var ms []ref.Msg
			for _, m := range pool {
				if len(ms) < k && c.Bool() {
					ms = append(ms, m)
				}
			}
			p := c.Perm(len(ms))
			c.State(fmt.Sprint(ms, p))
			same(c, ms, p, c.Choose(3))
		}, mc.Serial(), mc.Bound("every subset of up to %d of %d messages x every order of adding x 8 starts of the map iteration x PO, POT, MO", k, len(pool)))
		t.Explore("replacing", func(c *mc.C) {
			// what was replaced leaves no trace
			old := mc.Pick(c, pool)
			ms := mc.Subset(c, pool[:6])
			f := addAll(old)
			if c.Bool() {
				savePo(c, f)
			}
			for _, m := range ms {
				f.AddEntry(toEntry(m))
			}
			m := old
			m.Cmts = r("zz.go:1")
			f.AddEntry(toEntry(m))
			var want, got string
			format := c.Choose(3)
			var fin []ref.Msg
			for _, x := range ms {
				if x.Key() != m.Key() {
					fin = append(fin, x)
				}
			}
			fin = append(fin, m)
			c.FixedMapOrder(0, func() { want = saves[format](c, addAll(fin...)) })
			c.MapOrder(8, func() { got = saves[format](c, f) })
			c.Step()
			c.State(fmt.Sprint(old, ms))
			if got != want {
				c.Fail("%v replaced after adding %v: saved as %s\n%q, want\n%q", old, ms, names[format], got, want)
			}
		}, mc.Serial())
		files := []string{"a.go", "ab.go", "b.go"}
		lines := []int{1, 2, 9, 10, 11, 99, 100, 101, 999, 1000, 9999, 10000, 99999, 100000, 999999, 1000000, 9999999, 10000000, 99999999, 100000000, 999999999, 1000000000, 1<<31 - 1}
		cols := []int{3, 20, 100, 1000, 99999}
		t.Explore("reference-order", func(c *mc.C) {
			cm := func() []string {
				pick := func() string {
					s := fmt.Sprintf("%s:%d", mc.Pick(c, files), mc.Pick(c, lines))
					if k := c.Choose(len(cols) + 1); k > 0 {
						s += fmt.Sprintf(":%d", cols[k-1])
					}
					return s
				}
				a := pick()
				return r(a)
			}
			a, b := ref.Msg{ID: "m", Str: "1", Cmts: cm()}, ref.Msg{ID: "k", Str: "2", Cmts: cm()}
			switch c.Choose(3) {
			case 1:
				b.Cmts = append([]string{"# note"}, b.Cmts...)
			case 2:
				a.Cmts[0] += " a.go:5"
				b.Cmts = append(b.Cmts, "#: a.go:40")
			}
			ms := []ref.Msg{header("Language: xx"), a, b, {ID: "plain", Str: "x"}}
			c.State(fmt.Sprint(a, b))
			c.Step()
			text := savePo(c, addAll(ms...))
			orderOK(c, text, fmt.Sprint(ms))
			c.Logf("%s", text)
		}, mc.Bound("every pair of references over 3 files, 23 lines around the powers of ten, with or without columns, with further comments and references"))
		ids := []string{"", "a", "aa", "b", "B", "é", " ", "~", "10", "9"}
		t.Explore("plain-order", func(c *mc.C) {
			var ms []ref.Msg
			for i := mc.Sel(t, 2, 3); i > 0; i-- {
				m := ref.Msg{Ctxt: mc.Pick(c, ids), ID: mc.Pick(c, ids), Str: "x"}
				if c.Bool() {
					m.Cmts = []string{"# c", "#. d", "#, f"}
				}
				ms = append(ms, m)
			}
			c.State(fmt.Sprint(ms))
			c.Step()
			for _, s := range saves[:2] {
				orderOK(c, s(c, addAll(ms...)), fmt.Sprint(ms))
			}
			f := addAll(ms...)
			var ks []string
			for _, e := range f.SortedEntry() {
				ks = append(ks, e.Key())
			}
			if !sort.StringsAreSorted(ks) {
				c.Fail("%v: entries are sorted as %q", ms, ks)
			}
		}, mc.Bound("every pair (thorough: triple) of messages over %d contexts and ids without references", len(ids)))
		t.Explore("large", func(c *mc.C) {
			n := mc.Pick(c, []int{8, 9, 17, 100, 1500})
			var ms []ref.Msg
			for i := 0; i < n; i++ {
				m := ref.Msg{ID: fmt.Sprint("m", (i*7919)%n), Str: "s"}
				if i%3 == 0 {
					m.Cmts = r(fmt.Sprintf("f%d.go:%d", i%5, i))
				}
				ms = append(ms, m)
			}
			rev := append([]ref.Msg{}, ms...)
			if c.Bool() {
				for i := range rev {
					rev[i] = ms[n-1-i]
				}
			}
			format := c.Choose(3)
			var want, got string
			c.FixedMapOrder(0, func() { want = saves[format](c, addAll(ms...)) })
			f := addAll(rev...)
			c.MapOrder(mc.Sel(t, 32, 1024), func() { got = saves[format](c, f) })
			c.Step()
			c.State(fmt.Sprint(n, format))
			if got != want {
				c.Fail("%d messages saved as %s: bytes depend on order", n, names[format])
			}
			if format < 2 && n <= 100 {
				orderOK(c, got, fmt.Sprint(n, " messages"))
			}
		}, mc.Serial())
		t.Explore("processes", func(c *mc.C) {
			// the bytes are the same in every process
			env := mc.Pick(c, [][]string{nil, {"TZ=Asia/Tokyo", "LANG=de_DE.UTF-8"}, {"LC_ALL=tr_TR.UTF-8", "HOME=/", "USER=x", "GODEBUG=randautoseed=0"}, {"LC_ALL=C"}})
			cmd := exec.Command(os.Args[0], "-saveall")
			cmd.Env, cmd.Dir = env, "/"
			out, err := cmd.Output()
			if err != nil {
				panic(err)
			}
			child, mine := strings.Fields(string(out)), sumsOfAll()
			if len(child) != len(mine) {
				panic(fmt.Sprint(len(child), " ", len(mine)))
			}
			c.State(strings.Join(env, " "))
			c.Steps(len(mine))
			for i := range mine {
				if child[i] != mine[i] {
					c.Fail("%s: another process, with %q in its environment, writes other bytes", savedWhat(i), env)
				}
			}
		}, mc.Bound("every subset of up to 3 of %d messages, and 100 messages, as PO, POT and MO in this process and 4 others of other environments", len(pool18)))
	}, "references without a line number, and one list of references that is the beginning of another, have no specified order, only a reproducible one", "map iterations and the seeds of the maps' hashes are controlled through an overlay of the Go runtime")
}
