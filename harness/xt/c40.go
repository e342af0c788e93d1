package xt

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

var errCause = errors.New("the cause")

// causeWriter fails after so many bytes, or writes short.
type causeWriter struct {
	left  int
	short bool
}

func (w *causeWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		return len(p), nil
	}
	n := w.left
	w.left = 0
	if w.short {
		return n, nil
	}
	return n, errCause
}

// causeFile fails where it is told to.
type causeFile struct {
	name, data string
	stat       error
	readAt     int
	readErr    error
	pos        int
}

func (f *causeFile) Stat() (fs.FileInfo, error) {
	if f.stat != nil {
		return nil, f.stat
	}
	return causeInfo{f}, nil
}
func (f *causeFile) Close() error { return nil }
func (f *causeFile) Read(p []byte) (int, error) {
	end := len(f.data)
	if f.readErr != nil && f.readAt < end {
		end = f.readAt
	}
	if f.pos >= end {
		if f.readErr != nil {
			return 0, f.readErr
		}
		return 0, io.EOF
	}
	n := copy(p, f.data[f.pos:end])
	f.pos += n
	return n, nil
}

type causeInfo struct{ f *causeFile }

func (i causeInfo) Name() string       { return i.f.name }
func (i causeInfo) Size() int64        { return int64(len(i.f.data)) }
func (i causeInfo) Mode() fs.FileMode  { return 0o644 }
func (i causeInfo) ModTime() time.Time { return time.Time{} }
func (i causeInfo) IsDir() bool        { return false }
func (i causeInfo) Sys() any           { return nil }

var reLine = regexp.MustCompile(`line (\d+)`)

func init() {
	register("C40", func(tt *mc.T) {
		atoms := []string{"T", ":", ";", ",", "1", "c", " ", "%s", "%d", "%", "%v", "%!", "%[2]q", "%%", "é", "x"}
		n := mc.Sel(tt, 4, 5)
		tt.Explore("keyword-lists", func(c *mc.C) {
			k := c.Choose(n + 1)
			s := ""
			for i := 0; i < k; i++ {
				s += mc.Pick(c, atoms)
			}
			c.State(s)
			c.Step()
			_, err := ParseKeywords(s)
			if err == nil {
				return
			}
			c.Logf("%q: %v", s, err)
			if !strings.Contains(err.Error(), s) {
				c.Fail("the error for the keywords %q does not show them: %v", s, err)
			}
			if garbled(err.Error(), s) {
				c.Fail("the error for the keywords %q is garbled: %v", s, err)
			}
		}, mc.Bound("every keyword list of up to %d of %d pieces, of which 7 are formatting directives", n, len(atoms)))

		names := []string{"a.tmpl", "100%d.tmpl", "%s.tmpl", "%!v.tmpl", "é %[1]q.tmpl", "100%.tmpl", "%%.tmpl", "it's.tmpl"}
		tt.Explore("command", func(c *mc.C) {
			dir := filepath.Join(workDir(c), "say")
			if err := os.RemoveAll(dir); err != nil {
				panic(err)
			}
			if err := os.MkdirAll(filepath.Join(dir, "in"), 0o755); err != nil {
				panic(err)
			}
			write(filepath.Join(dir, "in"), "good.tmpl", good1)
			env := mc.Pick(c, [][]string{{"LC_ALL=C"}, {"LC_ALL=zh_CN.UTF-8", "LANG=zh_CN.UTF-8"}, {"LC_ALL=C", "LANG_PATH=/nonexistent"}})
			name := mc.Pick(c, names)
			in, out, kw := filepath.Join(dir, "in", "*.tmpl"), "out.pot", "T"
			want := []string{}
			what := c.Choose(8)
			switch what {
			case 0, 1, 2, 3, 4: // unusable inputs
				b := badInputs[[]int{0, 2, 4, 5, 6}[what]]
				if err := b.make(filepath.Join(dir, "in", name)); err != nil {
					panic(err)
				}
				want = append(want, filepath.Join(dir, "in", name))
			case 5:
				out = filepath.Join(dir, "no", name)
				want = append(want, out)
			case 6:
				out = filepath.Join(dir, name)
				if err := os.Mkdir(out, 0o755); err != nil {
					panic(err)
				}
				want = append(want, out)
			case 7:
				kw = "T;" + name + ":x"
				want = append(want, kw)
			}
			args := []string{"-i", in, "-k", kw, "-o", out}
			if c.Bool() {
				args = append(args, "-d")
			}
			c.State(strings.Join(append(args, env...), "\x00"), strconv.Itoa(what))
			r := command(c, dir, env, args...)
			c.Logf("%q: status %d, %q", args, r.status, r.stderr)
			if r.status == 0 {
				c.Fail("the run succeeds: %q", args)
			}
			for _, w := range want {
				if !strings.Contains(r.stderr, w) {
					c.Fail("the message of %q (%v) does not name %q: %q", args, env, w, r.stderr)
				}
			}
			if garbled(r.stderr, strings.Join(args, " ")+name) {
				c.Fail("the message of %q (%v) is garbled: %q", args, env, r.stderr)
			}
		}, mc.Bound("5 unusable inputs, 2 unusable outputs and a bad keyword x %d names, most with formatting directives x 3 languages x debug output", len(names)))

		f := func() *translator.File {
			f, err := translator.ReadPo([]byte(ref.WritePo(ref.Msg{Str: "Language: de\n"}, ref.Msg{ID: "a", Str: "A"}, ref.Msg{Ctxt: "c", ID: "p", Plural: true, ID2: "ps", Forms: []string{"x", "y"}})))
			if err != nil {
				panic(err)
			}
			return f
		}
		saves := []struct {
			name string
			fn   func(*translator.File, io.Writer) error
		}{{"PO", (*translator.File).SaveAsPo}, {"POT", (*translator.File).SaveAsPot}, {"MO", (*translator.File).SaveAsMo}}
		tt.Explore("saving", func(c *mc.C) {
			s := mc.Pick(c, saves)
			var full bytes.Buffer
			if err := s.fn(f(), &full); err != nil {
				c.Fail("%v", err)
			}
			k := c.Choose(400)
			if k >= full.Len() {
				c.Abandon()
			}
			w := &causeWriter{left: k, short: c.Bool()}
			want := errCause
			if w.short {
				want = io.ErrShortWrite
			}
			c.State(s.name, strconv.Itoa(k), fmt.Sprint(w.short))
			c.Step()
			if err := s.fn(f(), w); !errors.Is(err, want) {
				c.Fail("saving as %s to a destination that fails after %d bytes gives the error %v, which does not lead to %v", s.name, k, err, want)
			}
		}, mc.Bound("PO, POT and MO, an error or a short write after every byte"))
		tt.Explore("loading", func(c *mc.C) {
			data := ref.WritePo(ref.Msg{Str: "Language: de\n"}, ref.Msg{ID: "a", Str: "A"})
			cause := mc.Pick(c, []error{errCause, fs.ErrPermission, &fs.PathError{Op: "read", Path: "x%d", Err: fs.ErrNotExist}, io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", errCause)})
			file := &causeFile{name: mc.Pick(c, []string{"a.po", "a.mo", "100%d.po", "a.txt"}), data: data}
			if at := c.Choose(len(data) + 2); at == 0 {
				file.stat = cause
			} else {
				file.readAt, file.readErr = at-1, cause
			}
			c.State(file.name, fmt.Sprint(cause, file.stat != nil, file.readAt))
			c.Step()
			tr := t.NewTranslation("d")
			err := tr.LoadFile(file)
			if !errors.Is(err, cause) {
				c.Fail("loading %q, which fails with %q (stat: %v, after %d bytes), gives the error %v, which does not lead to the cause", file.name, cause, file.stat != nil, file.readAt, err)
			}
			if _, ok := tr.Get("de_DE"); ok {
				c.Fail("loading %q failed, but a translator was added", file.name)
			}
		}, mc.Bound("5 errors x 4 names x inspecting or reading failing after every byte"))
		bads := []string{"nonsense", "msgid unquoted", `msgid "unterminated`, `msgid "bad \q escape"`, `msgctxt x`, `msgid_plural y`, `msgstr z`, `msgstr "bad \xzz"`, `msgid "100%d`, "%s%d", `msgctxt "a`, `msgid_plural "b`, `msgstr "c`, `"d`, "broken " + strings.Repeat("x", 300) + " end", "broken " + strings.Repeat("é", 5000) + " end", `msgid "` + strings.Repeat("long ", 2000),
			"broken \xe4\xf6 line", "broken \x00 line", "broken \x1b[31m line", "broken\ttab", "broken \u200b\ufeff line", "broken \\n \\t \\ line", `broken "quoted" 'line' <b>&amp;`, "broken \u2028 line", "e\u0301 broken", "\xff", `msgid "\x"`}
		tt.Explore("lines", func(c *mc.C) {
			lines := []string{"# comment", `msgid ""`, `msgstr ""`, `"Language: de\n"`, "", "#: a.go:1", `msgid "a"`, `msgstr "A"`, "", `msgctxt "c"`, `msgid "b"`, `msgid_plural "bs"`, `msgstr[0] "B"`, `msgstr[1] ""`, `"Bs"`, "", `msgid "z"`, `msgstr "Z"`}
			at := c.Choose(len(lines) + 1)
			bad := mc.Pick(c, bads)
			blank := c.Choose(3)
			all := make([]string, 0, 30)
			for i := 0; i < blank; i++ {
				all = append(all, "")
			}
			all = append(all, lines[:at]...)
			all = append(all, bad)
			lineNo := len(all)
			all = append(all, lines[at:]...)
			text := strings.Join(all, mc.Pick(c, []string{"\n", "\r\n"})) + "\n"
			c.State(text)
			c.Step()
			read := mc.Pick(c, []func([]byte) (*translator.File, error){translator.ReadPo, translator.ReadPot})
			_, err := read([]byte(text))
			if err == nil {
				c.Fail("accepted: %q", text)
			}
			m := reLine.FindStringSubmatch(err.Error())
			c.Logf("%q at line %d: %v", bad, lineNo, err)
			if m == nil || m[1] != strconv.Itoa(lineNo) {
				c.Fail("the error for %q at line %d is %q", bad, lineNo, err)
			}
			if !strings.Contains(err.Error(), bad) || garbled(err.Error(), bad) {
				c.Fail("the error for %q does not show the line: %q", bad, err)
			}
		}, mc.Bound("%d broken lines at every place of a file of 18 lines", len(bads)))
	}, "the wording of messages is not judged, only what they quote")
}

// garbled tells whether a message shows signs of wrong formatting that the text it quotes does not have.
func garbled(message, quoted string) bool {
	for _, s := range []string{"(MISSING)", "(BADINDEX)", "(NOVERB)", "(EXTRA ", "%!"} {
		if strings.Contains(message, s) && !strings.Contains(quoted, s) {
			return true
		}
	}
	return false
}
