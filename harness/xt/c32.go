package xt

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif/mc"
)

var reDate = regexp.MustCompile(`(?m)^"POT-Creation-Date:.*\n`)

func init() {
	register("C32", func(t *mc.T) {
		t.Extra["wall_clock_controlled"] = mc.ClockControlled
		t.Extra["environment_controlled"] = mc.EnvControlled
		t.Extra["map_iteration_order_controlled"] = mc.MapOrderControlled
		const kws = "T;N:1,2;X:1c,2"
		output := func(c *mc.C, p Param) string {
			var err error
			captured(workDir(c), 2, func() { err = Run(p) })
			if err != nil {
				c.Fail("the run fails: %v", err)
			}
			b, err := os.ReadFile(p.Output)
			if err != nil {
				c.Fail("no output: %v", err)
			}
			if n := len(reDate.FindAll(b, -1)); n != 1 {
				c.Fail("%d lines with the creation date:\n%s", n, b)
			}
			return reDate.ReplaceAllString(string(b), "")
		}
		compare := func(c *mc.C, files []string, order func(func())) {
			dir := filepath.Join(workDir(c), "in")
			os.RemoveAll(dir)
			os.MkdirAll(dir, 0o755)
			for i, s := range files {
				write(dir, fmt.Sprintf("%d.tmpl", i), s)
			}
			text := strings.Join(files, "\n-- next file:\n")
			p := Param{Input: filepath.Join(dir, "*.tmpl"), Left: "{{", Right: "}}", Keyword: kws, Function: "f,g,h", Output: filepath.Join(workDir(c), "out.pot")}
			if c.Scratch["text"] != text {
				c.FixedMapOrder(0, func() { c.Scratch["want"] = output(c, p) })
				c.Scratch["text"] = text
				c.Step()
			}
			c.State(text)
			want := c.Scratch["want"].(string)
			var got string
			order(func() { got = output(c, p) })
			c.Step()
			if got != want {
				delete(c.Scratch, "text")
				c.Fail("%s\n=> once\n%s\n=> and once\n%s", text, want, got)
			}
			c.Outcome("same bytes")
		}
		body := func(c *mc.C, srcs []string, names []string) string {
			var sb strings.Builder
			fmt.Fprintf(&sb, "{{%s}}\n", mc.Pick(c, srcs))
			for _, n := range names {
				src := mc.Pick(c, srcs)
				switch {
				case strings.HasPrefix(n, "block "):
					fmt.Fprintf(&sb, "{{block %q .}}{{%s}}{{end}}\n", n[6:], src)
				default:
					fmt.Fprintf(&sb, "{{define %q}}{{%s}}{{end}}\n", n, src)
				}
			}
			return sb.String()
		}
		srcs := []string{`T "a"`, `N "a" "as"`, `N "a" "at"`, `print 1`, `T "b"`, `X "c" "a"`}
		if t.Quick() {
			srcs = srcs[:5]
		}
		names := [][]string{{"d1"}, {"z", "a"}, {"a", "block m", "B"}}
		if !t.Quick() {
			names = append(names, []string{"3", "1", "2", "block 0"})
		}
		m := mc.Sel(t, 1, 2)
		t.Explore("each-iteration", func(c *mc.C) {
			text := body(c, srcs, mc.Pick(c, names))
			compare(c, []string{text}, func(f func()) { c.DevMapOrder(8, f) })
		}, mc.Serial(), mc.Budget(m), mc.Bound("files of up to %d named templates with %d calls in each; every map iteration of the run starts at 0, up to %d of them at each of 7 other places", len(names), len(srcs), m))
		t.Explore("all-iterations", func(c *mc.C) {
			text := body(c, srcs, mc.Pick(c, names[:mc.Sel(t, 2, 4)]))
			text2 := body(c, srcs, mc.Pick(c, names[:1]))
			v := uint64(1 + c.Choose(mc.Sel(t, 2, 63)))
			compare(c, []string{text, text2}, func(f func()) { c.FixedMapOrder(v*5+v/8, f) })
		}, mc.Serial(), mc.Bound("two such files, all iterations starting at one of %d places", mc.Sel(t, 2, 63)))
		// the time of the run shows in the creation date only
		zones := []*time.Location{time.UTC, time.FixedZone("CST", 8*3600), time.FixedZone("", -3*3600-1800)}
		t.Explore("clock", func(c *mc.C) {
			text := body(c, srcs, mc.Pick(c, names))
			shift := mc.Pick(c, []int64{0, 1, 61, 3600, 86400 * 45, 86400 * 366 * 3, -86400 * 365 * 30})
			zone := mc.Pick(c, zones)
			compare(c, []string{text, "{{T \"second\"}}"}, func(f func()) {
				c.FixedMapOrder(0, func() { c.AtClock(shift, zone, f) })
			})
		}, mc.Serial(), mc.Bound("files of up to %d named templates, run again 1 s to 3 years later and 30 years earlier in 3 time zones", len(names)))
		// what the environment holds shows nowhere: whatever variable the run asks for has this value
		asked := map[string]bool{}
		t.Explore("environment", func(c *mc.C) {
			text := body(c, srcs[:3], mc.Pick(c, names))
			unset := c.Choose(2) == 1
			val := ""
			if !unset {
				val = mc.Pick(c, []string{"", "1", "0", "12345", "x y <z@w>", "zh_CN.UTF-8", "en", "true", "/tmp", "a,b", "%d\"\\\n"})
			}
			compare(c, []string{text, "{{T \"second\"}}{{T \"100%\"}}"}, func(f func()) {
				c.FixedMapOrder(0, func() {
					c.WithEnv(func(key string) (string, bool, bool) {
						switch key {
						case "TMPDIR", "PATH", "PWD", "ZONEINFO", "TZ":
							return "", false, false
						}
						asked[key] = true
						return val, !unset, true
					}, f)
				})
			})
		}, mc.Serial(), mc.Bound("files of up to %d named templates, run again with every variable of the environment unset or one of 11 values", len(names)))
		t.Extra["variables_asked_for"] = len(asked)
		t.Explore("files", func(c *mc.C) {
			// what the file system says of the files besides names and contents
			text := body(c, srcs[:3], mc.Pick(c, names[:2]))
			files := []string{text, "{{T \"b\"}}{{N \"a\" \"as\"}}", "{{N \"b\" \"bs\"}}"}
			perm, when, mode := c.Choose(6), c.Choose(4), mc.Pick(c, []os.FileMode{0o644, 0o600, 0o444, 0o777})
			compare(c, files, func(f func()) {
				dir := filepath.Join(workDir(c), "in")
				os.RemoveAll(dir)
				os.MkdirAll(dir, 0o755)
				now := time.Now()
				for k, i := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[perm] {
					p := write(dir, fmt.Sprintf("%d.tmpl", i), files[i])
					switch when {
					case 1:
						os.Chtimes(p, now, now.Add(-time.Duration(k)*time.Hour))
					case 2:
						os.Chtimes(p, now, now.Add(time.Duration(k)*time.Hour))
					case 3:
						os.Chtimes(p, time.Unix(0, 0), time.Unix(0, 0))
					}
					os.Chmod(p, mode)
				}
				c.FixedMapOrder(0, f)
			})
		}, mc.Serial(), mc.Bound("three files made in every order, 4 kinds of times, 4 modes"))
		t.Explore("many", func(c *mc.C) {
			// more templates and messages than a small map holds: where its entries are depends on the seed of its hash
			k := mc.Pick(c, []int{9, 20, 40})
			var sb strings.Builder
			for i := 0; i < k; i++ {
				fmt.Fprintf(&sb, "{{define \"t%d\"}}{{T \"m%d\"}}\n{{N \"s%d\" \"p%d\"}}{{T \"shared\"}}{{T \"s%d\"}}{{end}}", i*7%k, i, i%3, i, i%5)
			}
			v := uint64(c.Choose(64))
			compare(c, []string{sb.String()}, func(f func()) { c.FixedMapOrder(v, f) })
		}, mc.Serial(), mc.Bound("files of 9, 20 and 40 named templates with as many messages, 64 starts of the iterations and seeds of the hashes"))
		t.Explore("many-files", func(c *mc.C) {
			k := mc.Pick(c, []int{4, 8, 15, 16, 17, 33, 64, 65, mc.Sel(t, 130, 1030)})
			kind := c.Choose(3)
			var files []string
			for i := 0; i < k; i++ {
				switch kind {
				case 0: // one message used in all of them
					files = append(files, "{{T \"shared\"}}")
				case 1:
					files = append(files, fmt.Sprintf("{{T \"m%d\"}}{{N \"s\" \"p%d\"}}\n{{define \"x\"}}{{T \"shared\"}}{{end}}", i%5, i))
				default:
					files = append(files, fmt.Sprintf("{{T \"m%d\"}}{{if .}}{{N \"m%d\" \"p\"}}{{end}}", i%7, i%7+i%2))
				}
			}
			c.State(fmt.Sprint(k, kind))
			v := uint64(c.Choose(4)) * 5
			compare(c, files, func(f func()) { c.FixedMapOrder(v, f) })
		}, mc.Serial(), mc.Bound("4 to %d files whose messages agree in 3 ways, 4 starts of the iterations", mc.Sel(t, 130, 1030)))
		t.Explore("processes", func(c *mc.C) {
			// the command, run in processes of its own
			dir := filepath.Join(workDir(c), "in")
			os.RemoveAll(dir)
			os.MkdirAll(dir, 0o755)
			texts := []string{body(c, srcs, mc.Pick(c, names[:2])), "{{T \"a\"}}{{N \"a\" \"as\"}}{{define \"q\"}}{{T \"b\"}}{{T \"a\"}}{{end}}"}
			if c.Bool() {
				var sb strings.Builder
				for i := 0; i < 30; i++ {
					fmt.Fprintf(&sb, "{{define \"t%d\"}}{{T \"m%d\"}}{{T \"shared\"}}{{N \"s%d\" \"p%d\"}}{{end}}", i, i, i%3, i)
				}
				texts = append(texts, sb.String())
			}
			for i, s := range texts {
				write(dir, fmt.Sprintf("%d.tmpl", i), s)
			}
			text := strings.Join(texts, "\n-- next file:\n")
			c.State(text)
			var want string
			for i := 0; i < 4; i++ {
				env := [][]string{
					nil,
					{"GOMAXPROCS=1", "NAME=A B", "EMAIL=a@b.c", "USER=ab", "LOGNAME=ab", "TERM=xterm", "COLUMNS=20"},
					{"GOMAXPROCS=2", "NAME=C", "EMAIL=c@d", "USER=root", "HOSTNAME=h", "DEBUG=1", "NO_COLOR=1", "SOURCE_DATE_EPOCH=1", "TMPDIR=/nonexistent"},
					{"GOMAXPROCS=16", "GIT_AUTHOR_NAME=x", "GIT_AUTHOR_EMAIL=x@y", "CI=true", "LINES=5", "PO_STYLE=x", "XGETTEXT=x"},
				}[i]
				r := command(c, dir, append(env, "LC_ALL=C"), "-i", "*.tmpl", "-k", kws, "-f", "f,g,h")
				if r.status != 0 {
					c.Fail("%s\n=> status %d: %s", text, r.status, r.stderr)
				}
				got := reDate.ReplaceAllString(r.stdout, "")
				if i == 0 {
					want = got
				} else if got != want {
					c.Fail("%s\n=> once\n%s\n=> and in another process\n%s", text, want, got)
				}
			}
			c.Outcome("same bytes")
		}, mc.Bound("two or three files of up to 2 named templates, and of 30, run in 4 processes"))
	}, "what only the process changes (random seeds other than that of the map hash) is enumerated by 4 processes")
}
