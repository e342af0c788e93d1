package xt

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/mc"
)

// Wrapper limits the size of files and becomes the command given, when asked to.
func Wrapper() {
	s := os.Getenv("XT_FSIZE")
	if s == "" {
		return
	}
	n, err := strconv.ParseUint(s, 10, 64)
	if err == nil {
		signal.Ignore(syscall.SIGXFSZ)
		err = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
	}
	if err == nil {
		os.Unsetenv("XT_FSIZE")
		err = syscall.Exec(os.Args[1], os.Args[1:], os.Environ())
	}
	fmt.Fprintln(os.Stderr, "wrapper:", err)
	os.Exit(99)
}

// badInput puts an input that cannot be used at the name.
var badInputs = []struct {
	name string
	make func(path string) error
}{
	{"unclosed action", func(p string) error { return os.WriteFile(p, []byte(`{{T "x"`), 0o644) }},
	{"unclosed if", func(p string) error { return os.WriteFile(p, []byte(`{{if T "x"}}y`), 0o644) }},
	{"undefined variable", func(p string) error { return os.WriteFile(p, []byte(`{{T "x"}}{{$nope}}`), 0o644) }},
	{"unterminated string", func(p string) error { return os.WriteFile(p, []byte(`{{T "x}}`), 0o644) }},
	{"defined twice", func(p string) error {
		return os.WriteFile(p, []byte(`{{define "x"}}1{{end}}{{define "x"}}2{{end}}`), 0o644)
	}},
	{"directory", func(p string) error { return os.Mkdir(p, 0o755) }},
	{"dangling link", func(p string) error { return os.Symlink("nowhere", p) }},
	{"link loop", func(p string) error { return os.Symlink(filepath.Base(p), p) }},
}

const (
	good1 = "{{T \"one\"}}\n{{N \"apple\" \"apples\"}}"
	good2 = "{{define \"x\"}}{{T \"two\"}}{{end}}{{T \"one\"}}"
)

// setup is one situation of the tool.
type setup struct {
	dir, out    string
	args        []string
	bad         string // why the run must fail before writing, or ""
	vague       bool   // whether it fails is not documented
	writeFails  bool   // the run must fail when writing
	target      string // the file that the output is a link to, or ""
	before      string // content of the existing output
	existing    bool
	stdout      string // "", "full", "pipe", "file"
	p           Param
	g           merger
	files       map[string]string
	description string
	limit       int
}

func prepare(c *mc.C, pick func(n int) int) *setup {
	s := &setup{dir: filepath.Join(workDir(c), "run"), files: map[string]string{}, limit: -1}
	if err := os.RemoveAll(s.dir); err != nil {
		panic(err)
	}
	in := filepath.Join(s.dir, "in")
	if err := os.MkdirAll(in, 0o755); err != nil {
		panic(err)
	}
	why := func(format string, a ...any) { s.bad += fmt.Sprintf(format, a...) + "; " }
	add := func(name, text string, calls ...tcall) {
		s.files[write(in, name, text)] = name
		for _, x := range calls {
			line := 1
			if x.id2 != "-" {
				line = 2
			}
			s.g.add(x, fmt.Sprintf("%s:%d", name, line))
		}
	}
	add("b.tmpl", good1, tcall{"", "", "one", "-"}, tcall{"", "", "apple", "apples"})
	add("d.tmpl", good2, tcall{"", "", "two", "-"}, tcall{"", "", "one", "-"})
	if k := pick(1 + 3*len(badInputs)); k > 0 {
		b := badInputs[(k-1)/3]
		name := []string{"a.tmpl", "c.tmpl", "e.tmpl"}[(k-1)%3]
		if err := b.make(filepath.Join(in, name)); err != nil {
			panic(err)
		}
		why("%s at %s", b.name, name)
	}
	kws := []string{"T;N:1,2", "T:x", ":1", "T;", "T;N:1,2,3", "T:", " "}
	k := pick(len(kws))
	s.p.Keyword = kws[k]
	if k > 0 {
		why("keywords %q", kws[k])
	}
	pats := []string{"*.tmpl", "[", "*.tmpl[", `b.tmpl\`, "*.none"}
	k = pick(len(pats))
	s.p.Input = filepath.Join(in, pats[k])
	if pats[k] == "*.none" {
		s.vague = true
		s.g = merger{}
		s.files = map[string]string{}
		s.description += "no file matches; "
	} else if k > 0 {
		why("pattern %q", pats[k])
	}
	funs := []string{"", "foo,bar", "1x", "foo,a-b", "a b"}
	k = pick(len(funs))
	s.p.Function = funs[k]
	if k >= 2 {
		why("functions %q", funs[k])
	}
	s.p.Left, s.p.Right = "{{", "}}"
	s.args = []string{"-i", s.p.Input, "-k", s.p.Keyword}
	if s.p.Function != "" {
		s.args = append(s.args, "-f", s.p.Function)
	}
	outs := []string{"existing", "longer", "new", "link", "missing directory", "directory", "/dev/full", "stdout", "-", "stdout full", "stdout pipe", "- full", "empty", "empty directory", "directory/"}
	k = pick(len(outs))
	s.out = filepath.Join(s.dir, "out.pot")
	s.before = "old content\n"
	switch outs[k] {
	case "existing", "longer", "link", "empty":
		s.existing = true
		target := "out.pot"
		switch outs[k] {
		case "longer":
			s.before = strings.Repeat("old content\n", 1000)
		case "empty":
			s.before = ""
		case "link":
			target = "target.pot"
			s.target = filepath.Join(s.dir, target)
			if err := os.Symlink(target, s.out); err != nil {
				panic(err)
			}
		}
		write(s.dir, target, s.before)
	case "new":
	case "missing directory":
		s.out = filepath.Join(s.dir, "no", "out.pot")
		why("output in a missing directory")
	case "directory":
		s.out = s.dir
		why("output is a directory")
	case "empty directory":
		if err := os.Mkdir(s.out, 0o755); err != nil {
			panic(err)
		}
		why("output is an empty directory")
	case "directory/":
		s.out += "/"
		why("output named like a directory")
	case "/dev/full":
		s.out = filepath.Join(s.dir, "full.pot") // through a link, so that nothing can replace the device
		if err := os.Symlink("/dev/full", s.out); err != nil {
			panic(err)
		}
		s.writeFails = true
	case "stdout":
		s.out, s.stdout = "", "file"
	case "-":
		s.out, s.stdout = "-", "file"
	case "stdout full":
		s.out, s.stdout, s.writeFails = "", "full", true
	case "- full":
		s.out, s.stdout, s.writeFails = "-", "full", true
	case "stdout pipe":
		s.out, s.stdout, s.writeFails = "", "pipe", true
	}
	s.p.Output = s.out
	if s.out != "" {
		s.args = append(s.args, "-o", s.out)
	}
	s.description += fmt.Sprintf("bad: %q, output %s, write fails %v, args %q", s.bad, outs[k], s.writeFails, s.args)
	return s
}

// judge checks what a run left behind.
func (s *setup) judge(c *mc.C, failed bool, status, stdout, stderr string) {
	d := s.description
	switch {
	case s.bad != "" && !s.vague || s.writeFails && !s.vague && s.bad == "":
		if !failed {
			c.Fail("the run succeeds (%s, stderr %q): %s", status, stderr, d)
		}
	case s.bad == "" && !s.writeFails && !s.vague:
		if failed {
			c.Fail("the run fails (%s, stderr %q): %s", status, stderr, d)
		}
	}
	if failed && strings.TrimSpace(stderr) == "" && s.stdout != "pipe" {
		c.Fail("the run fails (%s) without a message: %s", status, d)
	}
	read := func() string {
		b, err := os.ReadFile(s.out)
		if err != nil {
			c.Fail("no output: %v: %s", err, d)
		}
		return string(b)
	}
	if strings.Contains(s.bad, "empty directory") {
		if fi, err := os.Lstat(s.out); err != nil || !fi.IsDir() {
			c.Fail("the output is a directory that is none any more (%v): %s", err, d)
		}
	}
	switch {
	case failed && s.existing && (!s.writeFails || s.bad != ""):
		if got := read(); got != s.before {
			c.Fail("the failed run (%s) changed the existing output to %q: %s", status, got, d)
		}
		c.Outcome("failed, output kept")
	case failed:
		c.Outcome("failed")
	default:
		if s.writeFails {
			break
		}
		if s.stdout == "" {
			stdout = read()
			if s.target != "" {
				if fi, err := os.Lstat(s.out); err != nil || fi.Mode()&os.ModeSymlink == 0 {
					c.Fail("the output was a link and is none any more (%v): %s", err, d)
				}
				if b, err := os.ReadFile(s.target); err != nil || string(b) != stdout {
					c.Fail("the file that the output links to has %q, %v: %s", b, err, d)
				}
			}
		}
		if err := s.g.judge(stdout, s.files, true); err != nil && (s.stdout == "" || !s.p.Debug) {
			c.Fail("%v: %s\n%s", err, d, stdout)
		}
		c.Outcome("output complete")
	}
}

func runTool(c *mc.C, s *setup, env ...string) {
	bin := os.Getenv("VERIF_XTEMPLATE")
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	args := s.args
	if s.limit >= 0 {
		args = append([]string{bin}, args...)
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		bin = self
		env = append(env, "XT_FSIZE="+strconv.Itoa(s.limit))
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = s.dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + s.dir, "LC_ALL=C"}, env...)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	stdout := filepath.Join(s.dir, "stdout")
	var w *os.File
	var err error
	switch s.stdout {
	case "full":
		w, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	case "pipe":
		var r *os.File
		r, w, err = os.Pipe()
		if err == nil {
			r.Close()
		}
	default:
		w, err = os.Create(stdout)
	}
	if err != nil {
		panic(err)
	}
	cmd.Stdout = w
	c.State(s.description, strconv.Itoa(s.limit), strings.Join(env, " "))
	err = cmd.Run()
	w.Close()
	c.Step()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) || ctx.Err() != nil {
		panic(fmt.Sprint("cannot run xtemplate: ", err, ctx.Err()))
	}
	said := stderr.String()
	if s.limit >= 0 && strings.HasPrefix(said, "wrapper:") {
		panic(said)
	}
	c.Logf("%s\nstatus %v stderr %q", s.description, err, said)
	text, _ := os.ReadFile(stdout)
	s.judge(c, err != nil, fmt.Sprint("status ", cmd.ProcessState), string(text), said)
}

func init() {
	register("C33", func(t *mc.T) {
		envs := [][]string{nil, {"LC_ALL=zh_CN.UTF-8", "LANG=zh_CN.UTF-8", "LANGUAGE=zh_CN"}, {"LANG_PATH=/nonexistent"}, {"LC_ALL=de_DE"}, {"LC_ALL="}}
		n := mc.Sel(t, 3, 4)
		t.Explore("command", func(c *mc.C) {
			s := prepare(c, c.Dev)
			if c.Dev(2) == 1 {
				s.args = append(s.args, "-d")
				s.p.Debug = true
			}
			runTool(c, s, mc.PickDev(c, envs)...)
		}, mc.Budget(n), mc.Bound("the command with every combination of up to %d of: 8 kinds of unusable input at 3 places, 6 bad keyword lists, 4 patterns, 4 function lists, 14 other destinations, debug output, 4 other environments", n))
		t.Explore("usage", func(c *mc.C) {
			s := prepare(c, func(int) int { return 0 })
			drop := mc.Pick(c, []string{"-i", "-k", "both", "unknown flag", "no value", "extra"})
			switch drop {
			case "-i":
				s.args = append([]string{}, s.args[2:]...)
			case "-k":
				s.args = append(append([]string{}, s.args[:2]...), s.args[4:]...)
			case "both":
				s.args = s.args[4:]
			case "unknown flag":
				s.args = append([]string{"-nope"}, s.args...)
			case "no value":
				s.args = append(s.args, "-f")
			case "extra":
				s.args = append(s.args, "extra")
				s.vague = true
			}
			s.bad, s.description = drop, fmt.Sprintf("%s: args %q", drop, s.args)
			runTool(c, s)
		}, mc.Bound("missing and unknown options"))
		t.Explore("size-limit", func(c *mc.C) {
			k := c.Choose(mc.Sel(t, 150, 1500))
			s := prepare(c, func(n int) int {
				if n == 15 { // destinations
					return mc.Pick(c, []int{0, 1, 2, 3, 7, 12})
				}
				return 0
			})
			// the length of what is written depends on the paths: measure it first
			full := *s
			if len(full.files) == 0 {
				panic("no input")
			}
			runTool(c, &full)
			size := 0
			name := s.out
			if s.stdout != "" {
				name = filepath.Join(s.dir, "stdout")
			}
			b, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			size = len(b)
			if s.existing {
				write(s.dir, "out.pot", s.before)
			} else {
				os.Remove(name)
			}
			s.limit = k * mc.Sel(t, 10, 1)
			if k == mc.Sel(t, 150, 1500)-1 {
				s.limit = size - 1
			}
			s.writeFails = s.limit < size
			s.description += fmt.Sprintf(", %d bytes to write, at most %d possible", size, s.limit)
			runTool(c, s)
		}, mc.Bound("6 destinations that accept only a bounded number of bytes: every %d bytes up to past the output's length, and one byte less than that", mc.Sel(t, 10, 1)))
		t.Explore("library", func(c *mc.C) {
			s := prepare(c, func(n int) int {
				if n == 15 {
					k := c.Dev(9)
					if k >= 7 {
						k += 6
					}
					return k
				}
				return c.Dev(n)
			})
			if strings.TrimSpace(s.p.Keyword) == "" && s.bad == "" {
				c.Abandon()
			}
			c.State("library", s.description)
			var err error
			said := captured(workDir(c), 2, func() {
				defer func() { // main reports panics as failures
					if r := recover(); r != nil {
						err = fmt.Errorf("panic: %v", r)
					}
				}()
				err = Run(s.p)
			})
			c.Step()
			msg := said
			if err != nil {
				msg += err.Error()
			}
			s.judge(c, err != nil, fmt.Sprint("error ", err), "", msg)
		}, mc.Serial(), mc.Budget(n), mc.Bound("Run with every combination of up to %d of the same to files", n))
	}, "whether a pattern that matches nothing is an error is not documented; a reader that goes away may end the tool by a signal",
		"what a run that fails while it writes leaves in the output is not judged")
}
