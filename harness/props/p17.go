package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t/translator"
)

// blanked is what a template holds of a message after it was saved.
func blanked(m ref.Msg) ref.Msg {
	if m.IsHeader() {
		return m
	}
	m.Str = ""
	m.Forms = nil
	if m.Plural {
		m.Forms = []string{"", ""}
	}
	return m
}

func init() {
	register("C17", func(t *mc.T) {
		trip := func(c *mc.C, f *translator.File, ms []ref.Msg, what string) {
			c.Step()
			text := savePot(c, f)
			want := ref.NewCat()
			for _, m := range ms {
				b := blanked(m)
				want.M[b.Key()] = b
			}
			got, err := ref.ReadPo(text)
			if err != nil {
				c.Fail("%s saved as template: %v\n%s", what, err, text)
			}
			if len(got) != len(want.M) {
				c.Fail("%s saved as template has %d messages, want %d\n%s", what, len(got), len(want.M), text)
			}
			for _, g := range got {
				w, ok := want.M[g.Key()]
				if w.Plural { // the number of empty forms is not fixed
					for _, s := range g.Forms {
						if s != "" {
							c.Fail("%s saved as template has translation %q", what, s)
						}
					}
					w.Forms = g.Forms
				}
				if !ok || !sameMsg(g, w) {
					c.Fail("%s saved as template: message %v, want %v\n%s", what, g, w, text)
				}
			}
			if len(ms) == 0 {
				return
			}
			for i := 0; i < 2; i++ {
				g, err := translator.ReadPot([]byte(text))
				if err != nil {
					c.Fail("%s: template cannot be read: %v\n%s", what, err, text)
				}
				entries := map[string]*translator.Entry{}
				n := 0
				for _, e := range g.SortedEntry() {
					entries[e.Key()] = e
					n++
				}
				for _, m := range ms {
					b := blanked(m)
					e := entries[b.Key()]
					if e == nil {
						c.Fail("%s: template read again lost %v\n%s", what, b, text)
					}
					w := b
					w.Forms = e.MsgStrN
					if strings.Join(e.MsgStrN, "") != "" || !sameMsg(fromEntry(e), w) {
						c.Fail("%s: template read again: %v, want %v\n%s", what, fromEntry(e), b, text)
					}
				}
				if n != len(want.M) {
					c.Fail("%s: template read again has %d messages, want %d", what, n, len(want.M))
				}
				again := savePot(c, g)
				if again != text {
					c.Fail("%s: template read and saved again differs\n%s\n---\n%s", what, text, again)
				}
			}
			c.Logf("%s\n%s", what, text)
		}
		pool := append(append([]ref.Msg{}, catPool...), untransPool...)
		k := mc.Sel(t, 5, 16)
		t.Explore("catalogues", func(c *mc.C) {
			var ms []ref.Msg
			for _, m := range pool {
				if len(ms) < k && c.Bool() {
					ms = append(ms, m)
				}
			}
			c.State(fmt.Sprint(ms))
			trip(c, addAll(ms2(c, ms)...), ms, fmt.Sprintf("catalogue %v", ms))
		}, mc.Bound("every subset of up to %d of %d messages, translated or not", k, len(pool)))
		t.Explore("relations", func(c *mc.C) {
			ms := related(c)
			trip(c, addAll(ms...), ms, fmt.Sprintf("catalogue %v", ms))
		}, mc.Bound(relatedBound))
		n := mc.Sel(t, 3, 4)
		t.Explore("strings", func(c *mc.C) {
			field := c.Choose(len(msgFields))
			s := ""
			for i := c.Choose(n + 1); i > 0; i-- {
				s += mc.Pick(c, textAtoms)
			}
			c.State(fmt.Sprint(field), s)
			ms := []ref.Msg{withField(field, s)}
			trip(c, addAll(ms...), ms, fmt.Sprintf("message with %s %q", msgFields[field], s))
		}, mc.Bound("strings of up to %d of %d atoms in %d fields", n, len(textAtoms), len(msgFields)))

		cn := mc.Sel(t, 2, 3)
		t.Explore("comments", func(c *mc.C) {
			h, m := header("Language: xx"), mc.Pick(c, []ref.Msg{{ID: "a", Str: "b"}, {ID: "u"}, {Ctxt: "c", ID: "p", Plural: true, ID2: "ps", Forms: []string{"x", "y"}}})
			for i := c.Choose(cn + 1); i > 0; i-- {
				m.Cmts = append(m.Cmts, mc.Pick(c, commentKinds))
			}
			for i := c.Choose(2); i > 0; i-- {
				h.Cmts = append(h.Cmts, mc.Pick(c, commentKinds))
			}
			ms := []ref.Msg{h, m, {ID: "z"}}
			c.State(fmt.Sprint(ms))
			trip(c, addAll(ms...), ms, fmt.Sprintf("catalogue %v", ms))
		}, mc.Bound("up to %d comment lines of %d kinds on a message and one on the header", cn, len(commentKinds)))

		t.Explore("sizes", func(c *mc.C) {
			ms, what, size := sized(c, mc.Sel(t, 4098, 10000))
			c.State(what, fmt.Sprint(size))
			trip(c, addAll(ms...), ms, fmt.Sprintf("catalogue with %d of %s", size, what))
		}, mc.Bound(sizedBound, mc.Sel(t, 4097, 10000)))

		t.Explore("header-zoo", func(c *mc.C) {
			ms := zoo(c)
			c.State(fmt.Sprint(ms))
			trip(c, addAll(ms...), ms, fmt.Sprintf("catalogue %v", ms))
		}, mc.Bound(zooBound))

		// reading in template mode
		tpool := []ref.Msg{
			header("Language: xx", "X: y"),
			{Str: ""},
			{ID: "a"}, {ID: "a", Str: "A"},
			{Ctxt: "c", ID: "a", Cmts: []string{"#: f.go:12", "#, c-format"}},
			{ID: "p", Plural: true, ID2: "ps", Forms: []string{"", ""}},
			{ID: "p", Plural: true, ID2: "ps", Forms: []string{"x", ""}, Cmts: []string{"# note"}},
			{Ctxt: "c", ID: ""},
		}
		tails := [][]string{nil, {"# end"}, {"#: gone.go:1", "#"}, {"", "# end", ""}, {"#~ msgid \"gone\"", "#~ msgstr \"x\""}, {"# a", "", "# b", "  "}, {"#"}, {"\t"}}
		read := func(max int) func(c *mc.C) {
			return func(c *mc.C) {
				var ms []ref.Msg
				w := &poWriter{c: c, str: ref.Quote, crlf: c.Bool()}
				for i := c.Choose(max + 1); i > 0; i-- {
					m := mc.Pick(c, tpool)
					if len(ms) > 0 && c.Dev(2) == 0 {
						w.line("")
					}
					w.msg(m)
					ms = append(ms, m)
				}
				for _, l := range mc.Pick(c, tails) {
					w.line(l)
				}
				text := w.text()
				if text == "" {
					c.Abandon()
				}
				c.State(text)
				c.Logf("%q", text)
				c.Step()
				f, err := translator.ReadPot([]byte(text))
				if err != nil {
					c.Fail("ReadPot(%q): %v", text, err)
				}
				cat := ref.NewCat(ms...)
				if d := sameCat(f, cat, true); d != "" {
					c.Fail("ReadPot(%q): %s", text, d)
				}
				if v, ok := cat.Header("X"); ok {
					if got, _ := f.GetHeader("X"); got != v {
						c.Fail("ReadPot(%q): header X is %q, want %q", text, got, v)
					}
				}
				trip(c, f, cat.Sorted(), fmt.Sprintf("template %q", text))
				// PO mode: translated messages only, header not displaced either
				p, err := translator.ReadPo([]byte(text))
				if err != nil {
					c.Fail("ReadPo(%q): %v", text, err)
				}
				pc := ref.NewCat()
				for _, m := range ms {
					if translated(m) {
						pc.M[m.Key()] = m
					}
				}
				if d := sameCat(p, pc, true); d != "" {
					c.Fail("ReadPo(%q): %s", text, d)
				}
			}
		}
		t.Explore("reading", read(mc.Sel(t, 4, 5)), mc.Bound("every sequence of up to %d of %d messages x 8 tails of comments and blanks x line ending", mc.Sel(t, 4, 5), len(tpool)))
		t.Explore("reading-layouts", read(2), mc.Budget(mc.Sel(t, 1, 2)), mc.Bound("up to 2 messages x tails with up to %d layout deviations", mc.Sel(t, 1, 2)))
	}, "the number of empty plural forms in a template is not specified")
}
