package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t/translator"
)

// poWriter renders messages with layout decisions taken by the explorer.
type poWriter struct {
	c     *mc.C
	lines []string
	crlf  bool
	str   func(string) string
}

func (w *poWriter) line(s string) { w.lines = append(w.lines, s) }

func (w *poWriter) blank() {
	switch w.c.Dev(5) {
	case 1:
		w.line("")
	case 2:
		w.line("  ")
	case 3:
		w.line("\t")
	case 4:
		w.line("")
		w.line("")
	}
}

// field writes a keyword and its string, divided in every way.
func (w *poWriter) field(key, s string) {
	c := w.c
	sep := []string{" ", "  ", " \t"}[c.Dev(3)]
	end := []string{"", " ", "\t "}[c.Dev(3)]
	var parts []string
	// 0: one line; 1: empty string first; then every single division
	k := c.Dev(3 + len(s))
	switch {
	case k == 0:
		parts = []string{s}
	case k == 1:
		parts = []string{"", s}
	case k == 2:
		parts = []string{"", "", s, ""}
	default:
		parts = []string{s[:k-3], s[k-3:]}
		if len(parts[1]) > 1 {
			if j := c.Dev(len(parts[1])); j > 0 {
				parts = []string{parts[0], parts[1][:j], parts[1][j:]}
			}
		}
	}
	for i, p := range parts {
		if i > 0 {
			w.blank()
			w.line(w.str(p) + end)
			continue
		}
		w.line(key + sep + w.str(p) + end)
	}
}

func (w *poWriter) msg(m ref.Msg) {
	for _, cm := range m.Cmts {
		w.line(cm)
		w.blank()
	}
	if m.Ctxt != "" || m.NoCtxtKey {
		w.field("msgctxt", m.Ctxt)
		w.blank()
	}
	w.field("msgid", m.ID)
	w.blank()
	if m.Plural {
		w.field("msgid_plural", m.ID2)
		for i, f := range m.Forms {
			w.blank()
			w.field(fmt.Sprintf("msgstr[%d]", i), f)
		}
		return
	}
	w.field("msgstr", m.Str)
}

func (w *poWriter) text() string {
	c := w.c
	eol := "\n"
	if w.crlf {
		eol = "\r\n"
	}
	var sb strings.Builder
	for i, l := range w.lines {
		sb.WriteString(l)
		if i == len(w.lines)-1 {
			switch c.Dev(3) {
			case 1:
				break
			case 2:
				sb.WriteString(eol + eol)
			default:
				sb.WriteString(eol)
			}
			break
		}
		if c.Dev(2) == 1 { // the other line ending
			sb.WriteString(map[bool]string{true: "\n", false: "\r\n"}[w.crlf])
			continue
		}
		sb.WriteString(eol)
	}
	return sb.String()
}

// poPool are messages that look alike or have unusual parts.
var poPool = []ref.Msg{
	header("Language: xx", "Plural-Forms: nplurals=2; plural=n != 1;"),
	{ID: "a", Str: "A"},
	{ID: "a", Str: "later"},
	{ID: "a", Ctxt: "c", Str: "A in c", Cmts: []string{"# translator", "#. extracted", "#: f.go:12", "#, c-format", "#| msgid \"old\""}},
	{ID: "two words", Plural: true, ID2: "many words", Forms: []string{"f 0", "f 1"}, Cmts: []string{"#"}},
	{ID: "p3", Ctxt: "c", Plural: true, ID2: "p3s", Forms: []string{"x", "", "z"}},
	{ID: "untranslated"},
	{ID: "msgid \"q\" #\\", Str: "\tmsgstr \"x\"\n# no comment\n", Cmts: []string{"#msgid \"x\"", "#~ msgid \"gone\"", "#~ msgstr \"x\""}},
	{ID: "p1", Plural: true, ID2: "é", Forms: []string{"一"}},
	{ID: "a", Plural: true, ID2: "as", Forms: []string{"p0", "p1"}},
	{ID: "x", NoCtxtKey: true, Str: "empty context"},
	{Ctxt: "c", Str: "empty id in a context"},
}

// oddRunes are pieces of text that readers like to treat specially.
var oddRunes = []string{"\ufeff", "\u00a0", "\u0085", "\u2028", "\u2029", "\u200b", "\u3000", "\u00ad", "\u200e", "\u202e", "e\u0301", "\u0000", "\u007f", "\ufffd", "\ufffe", "\uffff", "\U0001f600", "\U0010ffff", "\v", "\f", "\xef\xbb", "\xed\xa0\x80", "\xc0\x80", "“", "”", "＂", "＼", "\u2066", "ß", "İ", "#,", "#:", "msgid", "[0]", "%s", "%%", "$1", "${x}"}

// translated says whether the PO reader keeps it.
func translated(m ref.Msg) bool { return m.Str != "" || m.Plural && len(m.Forms) > 0 }

func init() {
	expect := func(ms []ref.Msg) *ref.Cat {
		cat := ref.NewCat()
		for _, m := range ms {
			if translated(m) {
				m.NoCtxtKey = false
				cat.M[m.Key()] = m
			}
		}
		return cat
	}
	check := func(c *mc.C, text string, ms []ref.Msg) {
		c.Step()
		f, err := translator.ReadPo([]byte(text))
		if err != nil {
			c.Fail("ReadPo(%q): %v", text, err)
		}
		cat := expect(ms)
		if d := sameCat(f, cat, true); d != "" {
			c.Fail("ReadPo(%q): %s", text, d)
		}
		lang, _ := cat.Header("Language")
		if f.Lang() != lang {
			c.Fail("ReadPo(%q): language %q, want %q", text, f.Lang(), lang)
		}
	}
	register("C08", func(t *mc.T) {
		run := func(max int, pool []ref.Msg) func(c *mc.C) {
			return func(c *mc.C) {
				var ms []ref.Msg
				n := c.Choose(max) + 1
				w := &poWriter{c: c, str: ref.Quote}
				w.crlf = c.Bool()
				for i := 0; i < n; i++ {
					m := mc.Pick(c, pool)
					if i > 0 && c.Dev(2) == 0 {
						w.line("")
					}
					w.blank()
					w.msg(m)
					ms = append(ms, m)
				}
				text := w.text()
				c.State(text)
				c.Logf("%q", text)
				check(c, text, ms)
			}
		}
		t.Explore("one-message", run(1, poPool), mc.Budget(mc.Sel(t, 3, 4)), mc.Bound("each of %d messages, up to %d layout deviations at once (split positions, blanks, line endings, final newline, spacing)", len(poPool), mc.Sel(t, 3, 4)))
		t.Explore("two-messages", run(2, poPool), mc.Budget(mc.Sel(t, 2, 3)), mc.Bound("every pair, up to %d layout deviations", mc.Sel(t, 2, 3)))
		t.Explore("more-messages", run(mc.Sel(t, 4, 5), poPool), mc.Budget(mc.Sel(t, 0, 1)), mc.Bound("every sequence of up to %d of %d messages", mc.Sel(t, 4, 5), len(poPool)))
		before := mc.Sel(t, 2, 3)
		t.Explore("comments", func(c *mc.C) {
			kinds := append([]string{"#msgstr \"x\"", "#, fuzzy-not"}, commentKinds...)
			n := c.Choose(before + 1)
			m := ref.Msg{ID: "a", Str: "b"}
			var text strings.Builder
			for i := 0; i < n; i++ {
				k := mc.Pick(c, kinds)
				m.Cmts = append(m.Cmts, k)
				text.WriteString(k + "\n")
				if c.Dev(2) == 1 {
					text.WriteString("\n")
				}
			}
			rest := "msgid \"a\"\nmsgstr \"b\"\n"
			next := ref.Msg{ID: "n", Str: "N"}
			for i := c.Choose(before); i > 0; i-- {
				k := mc.Pick(c, kinds)
				next.Cmts = append(next.Cmts, k)
				rest += k + "\n"
			}
			ms := []ref.Msg{m}
			if c.Bool() {
				rest += "msgid \"n\"\nmsgstr \"N\"\n"
				ms = append(ms, next)
			}
			if c.Bool() {
				rest = strings.TrimSuffix(rest, "\n")
			}
			text.WriteString(rest)
			c.State(text.String())
			c.Logf("%q", text.String())
			check(c, text.String(), ms)
		}, mc.Budget(1), mc.Bound("up to %d comment lines before a message and %d after it, of %d kinds", before, before-1, 2+len(commentKinds)))
		t.Explore("header-zoo", func(c *mc.C) {
			ms := zoo(c)
			w := &poWriter{c: c, str: ref.Quote}
			for _, m := range ms {
				w.msg(m)
			}
			text := w.text()
			if raw := c.Choose(2); raw == 1 {
				text = ""
				for _, m := range ms { // bytes as they are
					text += rawPo(m) + "\n"
				}
			}
			c.State(text)
			c.Logf("%q", text)
			check(c, text, ms)
		}, mc.Budget(0), mc.Bound(zooBound+", bytes quoted or as they are"))
		t.Explore("kinds-of-comments", func(c *mc.C) {
			markers := []string{"#", "##", "#.", "#:", "#,", "#|", "#~", "#~|", "#=", "#!", "#@", "#\t", "#-", "#é"}
			bodies := []string{"", " ", " x", ` msgid "old"`, ` msgid_plural "old"`, ` msgctxt "old"`, ` msgstr "old"`, ` msgstr[0] "old"`, ` msgstr[1] ""`, ` "more"`, " fuzzy", " c-format, fuzzy", " no-wrap", " a.go:1 b.go:2", `msgid "old"`, " \xff", " é ", " x  ", "\tx", " #, fuzzy", ` Language: xx\n`, " range: 0..9"}
			ms := []ref.Msg{{ID: "a", Str: "b"}, {Ctxt: "c", ID: "p", Plural: true, ID2: "ps", Forms: []string{"x", "y"}}}
			var w strings.Builder
			for i := range ms {
				for k := c.Choose(3 - i - i*len(ms[0].Cmts)/2); k > 0; k-- {
					cm := mc.Pick(c, markers) + mc.Pick(c, bodies)
					ms[i].Cmts = append(ms[i].Cmts, cm)
					w.WriteString(cm + "\n")
				}
				m := ms[i]
				m.Cmts = nil
				w.WriteString(ref.WritePo(m) + "\n")
			}
			c.State(w.String())
			c.Logf("%q", w.String())
			check(c, w.String(), ms)
		}, mc.Budget(0), mc.Bound("up to 2 comments of 14 markers x 22 bodies before a message, or up to 1 before it and before the next"))
		t.Explore("many-forms-and-lines", func(c *mc.C) {
			forms := mc.Pick(c, []int{1, 2, 6, 9, 10, 11, 12, 100, 101})
			lines := mc.Pick(c, []int{0, 1, 2, 50, 500})
			width := mc.Pick(c, []int{0, 1, 76, 77, 78, 200, 70000})
			m := ref.Msg{ID: "p", Plural: true, ID2: "ps"}
			w := &poWriter{c: c, str: ref.Quote}
			w.line(`msgid "p"`)
			w.line(`msgid_plural "ps"`)
			for i := 0; i < forms; i++ {
				s := fmt.Sprintf("form %d", i)
				if i == forms-1 {
					w.line(fmt.Sprintf("msgstr[%d] %s", i, ref.Quote(s)))
					for j := 0; j < lines; j++ {
						p := strings.Repeat("w ", width)[:width]
						s += p
						w.line(ref.Quote(p))
					}
				} else {
					w.line(fmt.Sprintf("msgstr[%d] %s", i, ref.Quote(s)))
				}
				m.Forms = append(m.Forms, s)
			}
			if lines == 500 && width == 70000 {
				c.Abandon()
			}
			c.State(fmt.Sprint(forms, lines, width))
			check(c, w.text(), []ref.Msg{m})
		}, mc.Bound("up to 101 plural forms, up to 500 continuation lines, lines of up to 70000 bytes"))
		t.Explore("long-files", func(c *mc.C) {
			// files longer than any counter: in lines, in messages, in bytes
			size := mc.Pick(c, []int{1000, 32767, 32768, 65534, 65535, 65536, 65537, 70000, mc.Sel(t, 140000, 1<<20)})
			what := mc.Pick(c, []string{"comments", "empty lines", "messages", "bytes of a comment", "continuation lines", "bytes"})
			var w strings.Builder
			ms := []ref.Msg{{ID: "m", Str: "x"}}
			switch what {
			case "comments":
				w.WriteString(strings.Repeat("# c\n", size))
				for i := 0; i < size; i++ {
					ms[0].Cmts = append(ms[0].Cmts, "# c")
				}
			case "empty lines":
				w.WriteString(strings.Repeat("\n", size))
			case "messages":
				ms = nil
				for i := 0; i < size; i++ {
					ms = append(ms, ref.Msg{ID: fmt.Sprintf("k%d", i), Str: fmt.Sprintf("v%d", i)})
					fmt.Fprintf(&w, "msgid \"k%d\"\nmsgstr \"v%d\"\n\n", i, i)
				}
			case "bytes of a comment":
				ms[0].Cmts = []string{"# " + strings.Repeat("x", size*16)}
				w.WriteString(ms[0].Cmts[0] + "\n")
			case "continuation lines":
				ms[0].Str = strings.Repeat("y", size)
				w.WriteString("msgid \"m\"\nmsgstr \"\"\n" + strings.Repeat("\"y\"\n", size))
			case "bytes":
				ms[0].Str = strings.Repeat("z", size*16)
				w.WriteString("msgid \"m\"\nmsgstr \"" + ms[0].Str + "\"\n")
			}
			if what == "comments" || what == "empty lines" || what == "bytes of a comment" {
				w.WriteString("msgid \"m\"\nmsgstr \"x\"\n")
			}
			c.State(what, fmt.Sprint(size))
			check(c, w.String(), ms)
		}, mc.Workers(4), mc.Bound("files of up to %d lines, messages or continuation lines, lines of up to %d bytes", mc.Sel(t, 140000, 1<<20), 16*mc.Sel(t, 140000, 1<<20)))
	}, "layouts outside the usual one (indented keywords, several strings on one line, comments inside an entry) and fuzzy entries are not specified")

	register("C09", func(t *mc.T) {
		atoms := []string{"a", " ", "'", "`", "é", "\xff", "\t", "#", "%", `\\`, `\"`, `\a`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`, `\0`, `\7`, `\12`, `\101`, `\377`, `\000`, `\x41`, `\xFf`, `\x0a`, "1", "8", "\x01", "msgid ", "\u2028", "n", "\\200\\343"}
		wrong := []string{`"`, `\`, `\q`, `\x`, `\xg`, `\8`, `\9`, `\ `, `\'`, `\N`, `\é`}
		fields := []string{"msgctxt", "msgid", "msgid_plural", "msgstr", "msgstr[0]", "msgstr[1]", "continuation of msgid", "continuation of msgstr[1]", "second continuation of msgstr", "header"}
		// build puts the string into a field, alone or followed by another part
		build := func(field int, s string, more bool) (text string, m ref.Msg) {
			v, _, _ := ref.Decode(s)
			q := `"` + s + `"`
			if more {
				v, q = v+"z", q+"\n\"z\""
			}
			get := func(k int, d string) string {
				if k == field {
					return q
				}
				return `"` + d + `"`
			}
			m = ref.Msg{Ctxt: "c", ID: "i", Str: "s"}
			plural := field == 2 || field == 4 || field == 5 || field == 7
			switch field {
			case 0:
				m.Ctxt = v
			case 1:
				m.ID = v
			case 3:
				m.Str = v
			case 6:
				m.ID = "i" + v
			case 8:
				m.Str = "s" + "t" + v
			case 9:
				return "msgid \"\"\nmsgstr " + q + "\n", ref.Msg{Str: v}
			}
			text = "msgctxt " + get(0, "c") + "\nmsgid " + get(1, "i") + "\n"
			if field == 6 {
				text += q + "\n"
			}
			if !plural {
				text += "msgstr " + get(3, "s") + "\n"
				if field == 8 {
					text += "\"t\"\n" + q + "\n"
				}
				return
			}
			m.Str, m.Plural, m.ID2, m.Forms = "", true, "p", []string{"f", "g"}
			switch field {
			case 2:
				m.ID2 = v
			case 4:
				m.Forms[0] = v
			case 5:
				m.Forms[1] = v
			case 7:
				m.Forms[1] = "g" + v
			}
			text += "msgid_plural " + get(2, "p") + "\nmsgstr[0] " + get(4, "f") + "\nmsgstr[1] " + get(5, "g") + "\n"
			if field == 7 {
				text += q + "\n"
			}
			return
		}
		n := mc.Sel(t, 3, 4)
		read := func(pot bool, text string) (*translator.File, error) {
			if pot {
				return translator.ReadPot([]byte(text))
			}
			return translator.ReadPo([]byte(text))
		}
		t.Explore("escapes", func(c *mc.C) {
			k := c.Choose(n + 1)
			s := ""
			for i := 0; i < k; i++ {
				s += mc.Pick(c, atoms)
			}
			v, bad, vague := ref.Decode(s)
			if bad {
				c.Fail("harness: %q", s)
			}
			if vague || strings.Contains(v, "\x04") {
				c.Abandon()
			}
			c.State(s)
			c.Logf("%q denotes %q, in %d fields", s, v, len(fields))
			for i := 0; i < 2*len(fields); i++ {
				field := i / 2
				text, m := build(field, s, i%2 == 1)
				pot := field%2 == 1
				c.Step()
				f, err := read(pot, text)
				if err != nil {
					c.Fail("%s %q: %v", fields[field], s, err)
				}
				cat := ref.NewCat(m)
				if !translated(m) && !pot {
					cat = ref.NewCat()
				}
				if d := sameCat(f, cat, false); d != "" {
					c.Fail("%s is \"%s\" (%q): %s", fields[field], s, text, d)
				}
				if got := f.X(m.Ctxt, m.ID); m.Str != "" && got != m.Str {
					c.Fail("%s is \"%s\": lookup gives %q, want %q", fields[field], s, got, m.Str)
				}
			}
		}, mc.Bound("strings of up to %d of %d atoms in %d fields, alone and followed by another part, read as PO and POT", n, len(atoms), len(fields)))
		t.Explore("long-strings", func(c *mc.C) {
			// an escape behind so many others, or at the border of a buffer
			pat := mc.Pick(c, []string{`\n`, `\\`, `\"`, `\101`, `\x41`, "é", "a", `\0`, `a\t`})
			l := mc.Pick(c, []int{62, 63, 64, 65, 126, 127, 128, 254, 255, 256, 257, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768, 65533, 65534, 65535, 65536, 65537, mc.Sel(t, 1<<17+1, 1<<20+1)})
			field := c.Choose(len(fields))
			for _, end := range []string{"", `\n`, `\\`, `\"`, `\x7a`, `\172`, `\0`, "é", `\t1`} {
				s := strings.Repeat(pat, l/len(pat)) + strings.Repeat("y", l%len(pat)) + end
				v, bad, vague := ref.Decode(s)
				if bad || vague {
					continue
				}
				_ = v
				text, m := build(field, s, l%2 == 1)
				c.Step()
				f, err := read(field%2 == 1, text)
				if err != nil {
					c.Fail("%s with %q repeated up to length %d, then %q: %.300v", fields[field], pat, l, end, err)
				}
				if d := sameCat(f, ref.NewCat(m), false); d != "" {
					c.Fail("%s with %q repeated up to length %d, then %q: %.300s", fields[field], pat, l, end, d)
				}
			}
			c.State(pat, fmt.Sprint(l, field))
		}, mc.Bound("9 pieces repeated up to 36 lengths, up to %d bytes, then each of 9 endings, in %d fields", mc.Sel(t, 1<<17+1, 1<<20+1), len(fields)))
		t.Explore("every-octal-and-hex", func(c *mc.C) {
			b := c.Choose(256)
			form := c.Choose(6)
			s := fmt.Sprintf([]string{`\%03o`, `\%o`, `\x%02x`, `\x%02X`, `\%o8`, `\%03o7`}[form], b)
			v, bad, vague := ref.Decode(s)
			if bad || vague || b == 4 {
				c.Abandon()
			}
			c.State(s)
			c.Logf("%q denotes %q", s, v)
			for field := range fields {
				text, m := build(field, s, false)
				c.Step()
				f, err := read(true, text)
				if err != nil {
					c.Fail("%s %q: %v", fields[field], s, err)
				}
				if d := sameCat(f, ref.NewCat(m), false); d != "" {
					c.Fail("%s is \"%s\": %s", fields[field], s, d)
				}
			}
		}, mc.Bound("every byte value in 6 spellings in every field"))
		t.Explore("raw-bytes", func(c *mc.C) {
			b := byte(c.Choose(256))
			if b == '\n' || b == '\r' || b == '"' || b == '\\' || b == 4 {
				c.Abandon()
			}
			s := []string{string([]byte{b}), "x" + string([]byte{b, b}) + "y"}[c.Choose(2)]
			c.State(s)
			for field := range fields {
				text, m := build(field, s, false)
				c.Step()
				f, err := read(true, text)
				if err != nil {
					c.Fail("%s %q: %v", fields[field], s, err)
				}
				if d := sameCat(f, ref.NewCat(m), false); d != "" {
					c.Fail("%s is %q: %s", fields[field], s, d)
				}
			}
		}, mc.Bound("every raw byte but the line ends, quote, backslash and EOT"))
		t.Explore("raw-runes", func(c *mc.C) {
			// runs of 64 code points, and unusual ones alone
			k := c.Choose(0x110000/64 + len(oddRunes))
			s := ""
			if k < len(oddRunes) {
				s = strings.ReplaceAll([]string{"@", "x@", "@x", "x@@y", "@ @"}[c.Choose(5)], "@", oddRunes[k])
			} else {
				var sb strings.Builder
				for r := rune(k-len(oddRunes)) * 64; sb.Len() == 0 || r%64 != 0; r++ {
					if r >= 0xd800 && r < 0xe000 {
						c.Abandon()
					}
					if r < ' ' || r == '"' || r == '\\' {
						r = max(r, ' ')
						sb.WriteRune('_')
						continue
					}
					sb.WriteRune(r)
				}
				s = sb.String()
			}
			c.State(s)
			for field := range fields {
				text, m := build(field, s, false)
				c.Step()
				f, err := read(true, text)
				if err != nil {
					c.Fail("%s %q: %v", fields[field], s, err)
				}
				if d := sameCat(f, ref.NewCat(m), false); d != "" {
					c.Fail("%s is %q: %s", fields[field], s, d)
				}
			}
		}, mc.Bound("every code point from space on in runs of 64, %d unusual ones in 5 places, in every field", len(oddRunes)))
		t.Explore("broken", func(c *mc.C) {
			k := c.Choose(3) + 1
			s := ""
			mark := c.Choose(k)
			for i := 0; i < k; i++ {
				if i == mark {
					s += mc.Pick(c, wrong)
				} else {
					s += mc.Pick(c, atoms)
				}
			}
			_, bad, vague := ref.Decode(s)
			if !bad || vague {
				c.Abandon()
			}
			c.State(s)
			c.Logf("%q is broken, in every field", s)
			for field := range fields {
				text, _ := build(field, s, false)
				for _, pot := range []bool{false, true} {
					c.Step()
					if f, err := read(pot, text); err == nil {
						c.Fail("%s is \"%s\", which is broken, but %q is read without an error: %v", fields[field], s, text, f.SortedEntry())
					}
				}
			}
		}, mc.Bound("strings of up to 3 atoms with one of %d broken escapes or quotes", len(wrong)))
		t.Explore("quoting", func(c *mc.C) {
			forms := []string{`"a`, `a"`, `a`, `'a'`, "`a`", `"`, ``, `"a'`, `"a" b`, `"a""b"`, `"a" "b`, `""a""`, `“a”`, `"a\"`, `"a\\\"`, `a "b"`, `"a"#`, `"a";`, `\"a\"`}
			q := mc.Pick(c, forms)
			field := c.Choose(len(fields))
			text, _ := build(field, "@@", false)
			text = strings.Replace(text, `"@@"`, q, 1)
			if strings.HasPrefix(fields[field], "continuation") && strings.TrimSpace(q) == "" || strings.HasPrefix(fields[field], "second") && q == "" {
				c.Abandon() // a blank line
			}
			pot := c.Bool()
			if c.Bool() {
				text = strings.TrimSuffix(text, "\n")
			}
			c.State(text, fmt.Sprint(pot))
			c.Step()
			f, err := read(pot, text)
			if err == nil {
				c.Fail("%s is %s: %q is read without an error: %v", fields[field], q, text, f.SortedEntry())
			}
			c.Logf("%q: %v", text, err)
		}, mc.Bound("19 ways to quote wrongly in every field"))
	}, "\\x with one or more than two hex digits, octal above 377, \\u and \\U, and raw carriage returns are not specified: readers differ")
}

// rawPo is a message with all its strings on one line, only what has to be escaped is.
func rawPo(m ref.Msg) string {
	q := func(s string) string {
		return "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n", "\r", "\\r").Replace(s) + "\"\n"
	}
	s := ""
	if m.Ctxt != "" {
		s += "msgctxt " + q(m.Ctxt)
	}
	s += "msgid " + q(m.ID)
	if !m.Plural {
		return s + "msgstr " + q(m.Str)
	}
	s += "msgid_plural " + q(m.ID2)
	for i, x := range m.Forms {
		s += fmt.Sprintf("msgstr[%d] ", i) + q(x)
	}
	return s
}
