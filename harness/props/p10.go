package props

import (
	"bytes"
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

// mustFail gives a reason why a text has to be rejected, or "".
func mustFail(text string) string {
	if text == "" {
		return "empty input"
	}
	if strings.Contains(text, "\r") {
		text = strings.ReplaceAll(text, "\r", "")
	}
	last := ""
	for _, line := range strings.Split(text, "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		if line[0] == '#' {
			last = ""
			continue
		}
		rest := line
		if line[0] != '"' {
			kw := ""
			for _, k := range []string{"msgctxt", "msgid_plural", "msgid", "msgstr"} {
				if strings.HasPrefix(line, k) {
					kw = k
					break
				}
			}
			if kw == "" {
				return fmt.Sprintf("unknown line %q", line)
			}
			rest = line[len(kw):]
			if kw == "msgstr" && strings.HasPrefix(rest, "[") {
				i := strings.IndexByte(rest, ']')
				if i < 2 || strings.Trim(rest[1:i], "0123456789") != "" {
					return fmt.Sprintf("unknown line %q", line)
				}
				num := rest[1:i]
				rest = rest[i+1:]
				if want := nextForm(last); len(num) > 1 && num[0] == '0' {
					return "" // a leading zero: unspecified
				} else if num != "0" && num != want {
					return fmt.Sprintf("plural form %s after %q", num, last)
				} else if num == "0" && strings.HasPrefix(last, "msgstr[") {
					return "plural form 0 after a plural form"
				}
				kw = "msgstr[" + num
			}
			last = kw
			if rest == "" || rest[0] != ' ' && rest[0] != '\t' && rest[0] != '"' {
				return fmt.Sprintf("unknown line %q", line)
			}
		} else if last == "" {
			return "a string before any keyword"
		}
		rest = strings.TrimSpace(rest)
		if len(rest) < 2 || rest[0] != '"' || rest[len(rest)-1] != '"' {
			return fmt.Sprintf("line %q is not quoted", line)
		}
		if strings.Contains(rest[1:len(rest)-1], `" "`) {
			return ""
		}
		if _, bad, vague := ref.Decode(rest[1 : len(rest)-1]); bad && !vague {
			return fmt.Sprintf("line %q has a broken string", line)
		}
	}
	return ""
}

func nextForm(last string) string {
	k := 0
	if _, err := fmt.Sscanf(last, "msgstr[%d", &k); err != nil {
		return "0"
	}
	return fmt.Sprint(k + 1)
}

// surviveFile queries and saves whatever was read.
func surviveFile(c *mc.C, f *translator.File) {
	f.Lang()
	f.GetHeader("Plural-Forms")
	for _, e := range f.SortedEntry() {
		f.X(e.MsgCtxt, e.MsgID)
		f.X(e.MsgCtxt, e.MsgID, 1)
		for _, n := range []int64{0, 1, 2, -1} {
			f.XN64(e.MsgCtxt, e.MsgID, e.MsgID2, n)
			f.XN64(e.MsgCtxt, e.MsgID, e.MsgID2, n, n)
		}
	}
	for _, fn := range []func() error{
		func() error { return f.SaveAsPo(new(bytes.Buffer)) },
		func() error { return f.SaveAsPot(new(bytes.Buffer)) },
		func() error { return f.SaveAsMo(new(bytes.Buffer)) },
	} {
		if err := fn(); err != nil {
			c.Fail("saving what was read fails: %v", err)
		}
	}
}

func surviveText(c *mc.C, text string, save bool) {
	why := mustFail(text)
	for i := 0; i < 2; i++ {
		c.Step()
		var f *translator.File
		var err error
		name := "ReadPo"
		if i == 0 {
			f, err = translator.ReadPo([]byte(text))
		} else {
			name = "ReadPot"
			f, err = translator.ReadPot([]byte(text))
		}
		if (f == nil) != (err != nil) {
			c.Fail("%s(%q) returns catalogue %v and error %v", name, text, f != nil, err)
		}
		if err == nil && why != "" {
			c.Fail("%s(%q) accepts the text: %s", name, text, why)
		}
		if err == nil && save {
			surviveFile(c, f)
		}
		if err != nil && err.Error() == "" {
			c.Fail("%s(%q): the error has no text", name, text)
		}
	}
}

func init() {
	register("C10", func(tt *mc.T) {
		lines := []string{"", "  ", "# comment", "#", `msgctxt "c"`, `msgid ""`, `msgid "a"`, `msgid_plural "as"`, `msgstr ""`, `msgstr "Language: xx\nPlural-Forms: nplurals=2; plural=n;\n"`,
			`msgstr[0] "x"`, `msgstr[1] "y"`, `msgstr[2] ""`, `"more"`, `""`, `msgstr`, `msgid a`, `msgid "a`, `garbage`, `msgstr[-1] "x"`, `msgstr[] "x"`, `msgstr[00] "x"`, `msgctxt `, ` msgid "a"`}
		n := mc.Sel(tt, 5, 6)
		tt.Explore("line-sequences", func(c *mc.C) {
			k := c.Choose(n + 1)
			var s []string
			for i := 0; i < k; i++ {
				s = append(s, mc.Pick(c, lines))
			}
			text := strings.Join(s, "\n")
			if k > 0 && c.Bool() {
				text += "\n"
			}
			c.State(text)
			c.Logf("%q", text)
			surviveText(c, text, true)
		}, mc.Bound("every sequence of up to %d of %d lines, with and without a final newline, as PO and POT", n, len(lines)))
		tokens := []string{`"`, `\`, "m", "msgid ", "msgstr ", "msgstr[0] ", "\n", "#", " ", "[", "0", "\r", "\x00", "x"}
		n2 := mc.Sel(tt, 6, 7)
		tt.Explore("token-strings", func(c *mc.C) {
			k := c.Choose(n2) + 1
			text := ""
			for i := 0; i < k; i++ {
				text += mc.Pick(c, tokens)
			}
			c.State(text)
			c.Logf("%q", text)
			surviveText(c, text, true)
		}, mc.Bound("every string of up to %d of %d tokens", n2, len(tokens)))
		hd := header("Language: xx", "Plural-Forms: nplurals=2; plural=n != 1;")
		sample := ref.WritePo(hd, ref.Msg{Cmts: []string{"#: a.go:1"}, Ctxt: "c", ID: "a\n", Str: "é\t"}, ref.Msg{ID: "p", Plural: true, ID2: "ps", Forms: []string{"x", "y\""}})
		tt.Explore("mutations", func(c *mc.C) {
			bytes := []string{`"`, `\`, "\n", " ", "#", "m", "[", "0", "9", "\x00", "\x80", "\r", "%", "\x04"}
			i := c.Choose(len(sample) + 1)
			text := sample
			switch c.Choose(5) {
			case 0: // truncate
				text = text[:i]
			case 1: // delete one
				if i < len(text) {
					text = text[:i] + text[i+1:]
				}
			case 2: // insert
				text = text[:i] + mc.Pick(c, bytes) + text[i:]
			case 3: // replace
				if i < len(text) {
					text = text[:i] + mc.Pick(c, bytes) + text[i+1:]
				}
			case 4: // remove a run
				j := i + 1 + c.Choose(len(text))
				if j > len(text) {
					c.Abandon()
				}
				text = text[:i] + text[j:]
			}
			c.State(text)
			c.Logf("%q", text)
			surviveText(c, text, true)
		}, mc.Bound("every truncation, deletion of a run, insertion and replacement by %d bytes at every position of a sample file", 14))
		tt.Explore("double-mutations", func(c *mc.C) {
			small := "msgctxt \"c\"\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\\n\"\nmsgstr[1] \"y\"\n"
			text := small
			lo := 0
			for k := 0; k < 2; k++ {
				if lo >= len(text) {
					c.Abandon()
				}
				i := lo + c.Choose(len(text)-lo)
				lo = i
				switch c.Choose(7) {
				case 0:
					text = text[:i] + text[i+1:]
				case 1:
					text = text[:i] + "\"" + text[i:]
				case 2:
					text = text[:i] + "\\" + text[i:]
				case 3:
					text = text[:i] + "\n" + text[i:]
				case 4:
					text = text[:i] + "\n\"" + text[i+1:]
				case 5:
					text = text[:i] + "1" + text[i+1:]
				case 6:
					text = text[:i] + "#" + text[i+1:]
				}
			}
			c.State(text)
			surviveText(c, text, true)
		}, mc.Bound("every pair of 7 kinds of mutation in a small file"))
		tt.Explore("huge", func(c *mc.C) {
			k := mc.Pick(c, []int{1 << 10, 1 << 16, 1 << 20})
			text := ""
			switch c.Choose(8) {
			case 0:
				text = strings.Repeat("\n", k)
			case 1:
				text = strings.Repeat("#\n", k)
			case 2:
				text = "msgid \"" + strings.Repeat("a", k) + "\"\nmsgstr \"x\"\n"
			case 3:
				text = "msgid \"" + strings.Repeat("a ", k/2) + "\"\nmsgstr \"" + strings.Repeat("\\n", k/2) + "\"\n"
			case 4:
				text = strings.Repeat("\"", k)
			case 5:
				text = "msgid \"a\"\nmsgid_plural \"b\"\n"
				for i := 0; i < k/64; i++ {
					text += fmt.Sprintf("msgstr[%d] \"\"\n", i)
				}
			case 6:
				text = "msgid \"" + strings.Repeat("\\", k) + "\n"
			case 7:
				text = "msgid \"a\"\nmsgstr[" + strings.Repeat("9", k) + "] \"x\"\n"
			}
			if k == 1<<20 && (strings.HasPrefix(text, "msgid \"a\"\nmsgid_plural") || strings.Contains(text, "\\n\\n")) {
				c.Abandon()
			}
			c.State(fmt.Sprint(len(text)), text[:min(40, len(text))])
			surviveText(c, text, len(text) < 1<<17)
		}, mc.Serial(), mc.Bound("files of up to a megabyte"))
		tt.Explore("comments", func(c *mc.C) {
			// comments of two entries, which have to be put in order
			pieces := []string{"#", ":", " ", "a.go", "1", "-1", "99999999999999999999", "\t", "0x1", ",", "\u2068", "é", "\x00", "\xff"}
			text := ""
			for i := 0; i < 2; i++ {
				cm := mc.Pick(c, []string{"#:", "#", "#,", "#: b.go:2:3 "})
				k := c.Choose([]int{mc.Sel(tt, 4, 5), 2}[i])
				for ; k > 0; k-- {
					cm += mc.Pick(c, pieces)
				}
				text += cm + "\nmsgid \"" + "ab"[i:i+1] + "\"\nmsgstr \"x\"\n\n"
				if i == 0 && c.Bool() {
					text = "#: a.go:1\n" + text
				}
			}
			c.State(text)
			c.Logf("%q", text)
			surviveText(c, text, true)
		}, mc.Bound("two entries with every comment of up to %d and 1 of 14 pieces, 4 kinds of comments", mc.Sel(tt, 3, 4)))
		tt.Explore("behind-many", func(c *mc.C) {
			n := mc.Pick(c, []int{0, 1, 2, 3, 10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000})
			head := c.Bool()
			end := mc.Pick(c, append([]string{`msgstr "B"`, `msgid_plural "x`}, lines...))
			var sb strings.Builder
			if head {
				sb.WriteString("msgid \"\"\nmsgstr \"Language: xx\\n\"\n")
			}
			plural := c.Bool()
			for i := 0; i < n; i++ {
				if plural {
					fmt.Fprintf(&sb, "msgid \"%d\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n\n", i)
				} else {
					fmt.Fprintf(&sb, "msgid \"%d\"\nmsgstr \"x\"\n\n", i)
				}
			}
			text := sb.String() + end
			c.State(text)
			surviveText(c, text, n < 300)
		}, mc.Bound("every line behind 0 to 5000 messages"))
		tt.Explore("bound", func(c *mc.C) {
			// a translation set survives binding any of them
			k := c.Choose(3) + 1
			var s []string
			for i := 0; i < k; i++ {
				s = append(s, mc.Pick(c, lines))
			}
			text := strings.Join(s, "\n")
			ts := t.NewTranslations()
			ts.BindFS("d", memFS(map[string]string{"a.po": text, "b.mo": text}))
			ts.SetDomain("d")
			for _, l := range append(ts.Locales(), "", "xx") {
				ts.SetLocale(l)
				c.Step()
				ts.T("a")
				ts.N("a", "as", 2, 2)
				ts.X("c", "a")
			}
			c.State(text)
		})
	}, "texts outside the PO grammar that are none of the listed errors may be accepted or rejected")
}
