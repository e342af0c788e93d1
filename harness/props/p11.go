package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t/translator"
)

// textAtoms are parts of message strings.
var textAtoms = []string{"a", " ", "\n", "\t", "\"", "\\", "é", "\xff", "\r", "\x01", "\x7f", "%", "\\n", "\u00a0", "\u2028", "'", "7", "\x00", "#", "\U0001F600", "\ufffd", "\ufeff", "\x80\xbf", "\x04",
	strings.Repeat("x", 70), strings.Repeat("word ", 16), "msgid \"", "\v\f\a\b"}

// commentKinds are comment lines.
var commentKinds = []string{"#", "# x", "# ", "#\t", "#.", "#: a.go:1", "#: a.go:1 b.go:20", "#, c-format", "#, fuzzy", "#| msgid \"o\"", "#~ msgid \"o\"", "# é \"q\" \\n", "##",
	"#. extracted", "#,fuzzy", "#, fuzzy, go-format", "#x", "#=", "#: b.go", "#| msgctxt \"o\"", "# msgid \"x\""}

// msgFields are the places where a string can stand in a message.
var msgFields = []string{"ctxt", "id", "id2", "str", "str[0]", "str[1]", "header"}

// withField makes a message that has s in one field.
func withField(field int, s string) ref.Msg {
	m := ref.Msg{Ctxt: "c", ID: "id", Str: "str"}
	switch field {
	case 0:
		m.Ctxt = s
	case 1:
		m.ID = s
	case 3:
		m.Str = s
	case 6:
		return ref.Msg{Str: s}
	default:
		m = ref.Msg{Ctxt: "c", ID: "id", Plural: true, ID2: "ids", Forms: []string{"f0", "f1"}}
		switch field {
		case 2:
			m.ID2 = s
		case 4:
			m.Forms[0] = s
		case 5:
			m.Forms[1] = s
		}
	}
	return m
}

// catPool are messages for whole catalogues.
var catPool = []ref.Msg{
	header("Project-Id-Version: x", "Language: xx", "Plural-Forms: nplurals=2; plural=n != 1;", "Content-Type: text/plain; charset=UTF-8"),
	{ID: "a", Str: "A"},
	{Ctxt: "c", ID: "a", Str: "A in c", Cmts: []string{"# translator", "#. extracted", "#, c-format"}},
	{Ctxt: "", ID: "b", Str: "B\nb\n", Cmts: []string{"#: f.go:12"}},
	{ID: "p", Plural: true, ID2: "ps", Forms: []string{"f0", "f1"}, Cmts: []string{"#: f.go:2"}},
	{Ctxt: "c", ID: "p", Plural: true, ID2: "ps", Forms: []string{"", "f1", ""}, Cmts: []string{"#: a.go:100"}},
	{Ctxt: "ctx", ID: "", Str: "empty id"},
	{ID: "q \"uoted\" \\ é\t", Str: "x\r\ny \x1f" + strings.Repeat("long words ", 20)},
	{ID: strings.Repeat("z", 200), Str: "\n\n"},
	{ID: "one", Plural: true, ID2: "", Forms: []string{"only"}},
	{ID: "~", Str: " "},
	{ID: " a", Str: "#"},
}

var untransPool = []ref.Msg{{ID: "u"}, {Ctxt: "c", ID: "u", Cmts: []string{"#: z.go:1"}}, {ID: "up", Plural: true, ID2: "ups"}, {Ctxt: "c", ID: "up2", Plural: true, ID2: "ups", Forms: []string{"", ""}}}

func init() {
	register("C11", func(t *mc.T) {
		trip := func(c *mc.C, ms ...ref.Msg) {
			f := addAll(ms...)
			cat := ref.NewCat(ms...)
			text := savePo(c, f)
			c.Step()
			g, err := translator.ReadPo([]byte(text))
			if err != nil {
				c.Fail("catalogue %v: what SaveAsPo wrote cannot be read: %v\n%s", ms, err, text)
			}
			if d := sameCat(g, cat, true); d != "" {
				c.Fail("catalogue %v saved as PO and read again: %s\n%s", ms, d, text)
			}
			if again := savePo(c, g); again != text {
				c.Fail("catalogue %v: saving what was read gives other bytes\n%q\n%q", ms, text, again)
			}
			for _, k := range []string{"Language", "Plural-Forms", "Content-Type", "X"} {
				w, wok := cat.Header(k)
				if v, ok := g.GetHeader(k); v != w || ok != wok {
					c.Fail("catalogue %v saved as PO and read again: header %s is %q,%v", ms, k, v, ok)
				}
			}
			c.Logf("%v\n%s", ms, text)
		}
		n := mc.Sel(t, 4, 5)
		t.Explore("strings", func(c *mc.C) {
			field := c.Choose(len(msgFields))
			k := c.Choose(n + 1)
			s := ""
			for i := 0; i < k; i++ {
				s += mc.Pick(c, textAtoms)
			}
			m := withField(field, s)
			if !translated(m) {
				c.Abandon()
			}
			c.State(fmt.Sprint(field), s)
			trip(c, m)
		}, mc.Bound("strings of up to %d of %d atoms in %d fields", n, len(textAtoms), len(msgFields)))
		t.Explore("every-byte-and-length", func(c *mc.C) {
			field := c.Choose(len(msgFields))
			s := ""
			if c.Bool() {
				b := byte(c.Choose(256))
				if b == 4 {
					c.Abandon()
				}
				s = []string{string([]byte{b}), string([]byte{'x', b}), string([]byte{b, '1', b})}[c.Choose(3)]
			} else {
				l := 70 + c.Choose(90)
				pat := []string{"x", "x ", "xxxxxxxx ", "\\", "é", "é ", "a\nbcd ", "\" ", "\x01"}[c.Choose(9)]
				s = strings.Repeat(pat, l)[:l]
				if c.Bool() {
					s += "\n"
				}
			}
			c.State(fmt.Sprint(field), s)
			m := withField(field, s)
			trip(c, m)
		}, mc.Bound("every byte; every length from 70 to 159 of 9 patterns; in %d fields", len(msgFields)))
		t.Explore("long-texts", func(c *mc.C) {
			field := 1 + c.Choose(2)*2 // id, str
			s := longText(c)
			c.State(fmt.Sprint(field), s)
			trip(c, withField(field, s))
		}, mc.Bound(longBound))
		k := mc.Sel(t, 7, 12)
		t.Explore("catalogues", func(c *mc.C) {
			var ms []ref.Msg
			for _, m := range catPool {
				if len(ms) < k && c.Bool() {
					ms = append(ms, m)
				}
			}
			if len(ms) == 0 {
				c.Abandon() // an empty text is not a PO file
			}
			c.State(fmt.Sprint(ms))
			trip(c, ms2(c, ms)...)
		}, mc.Bound("every subset of up to %d of %d messages", k, len(catPool)))
		t.Explore("comments", func(c *mc.C) {
			kinds := commentKinds
			m := ref.Msg{ID: "a", Str: "b"}
			for i := c.Choose(4); i > 0; i-- {
				m.Cmts = append(m.Cmts, mc.Pick(c, kinds))
			}
			h := header("Language: xx")
			for i := c.Choose(2); i > 0; i-- {
				h.Cmts = append(h.Cmts, mc.Pick(c, kinds))
			}
			c.State(fmt.Sprint(m, h))
			trip(c, h, m, ref.Msg{ID: "z", Str: "z"})
		}, mc.Bound("up to 3 comment lines of %d kinds on a message and one on the header", len(commentKinds)))
		t.Explore("header-zoo", func(c *mc.C) {
			ms := zoo(c)
			c.State(fmt.Sprint(ms))
			trip(c, ms...)
		}, mc.Bound(zooBound))
		t.Explore("relations", func(c *mc.C) {
			ms := related(c)
			for _, m := range ms {
				if !translated(m) {
					c.Abandon()
				}
			}
			trip(c, ms...)
		}, mc.Bound(relatedBound))
		t.Explore("sizes", func(c *mc.C) {
			ms, what, size := sized(c, mc.Sel(t, 65537, 140000))
			c.State(what, fmt.Sprint(size))
			trip(c, ms...)
		}, mc.Workers(4), mc.Bound(sizedBound, mc.Sel(t, 65537, 140000)))
		t.Explore("read-change-save", func(c *mc.C) {
			// a catalogue that came from a file, is changed, and saved
			how := c.Choose(nLoad)
			base := mc.Subset(c, catPool[:6])
			if how == 1 && len(base) == 0 {
				c.Abandon() // an empty text is not a PO file
			}
			f := load(c, how, base...)
			cat := ref.NewCat()
			for _, m := range base {
				if how == 2 {
					m.Cmts = nil
				}
				cat.M[m.Key()] = m
			}
			for i := 0; i < 2; i++ {
				m := mc.Pick(c, []ref.Msg{{ID: "a", Str: "new"}, {Ctxt: "c", ID: "a", Plural: true, ID2: "x", Forms: []string{"1", "2"}}, header("Language: yy"), {ID: "new", Str: "n", Cmts: []string{"#: a:1"}}})
				f.AddEntry(toEntry(m))
				cat.M[m.Key()] = m
				savePo(c, f)
			}
			text := savePo(c, f)
			c.Step()
			g, err := translator.ReadPo([]byte(text))
			if err != nil {
				c.Fail("%q: %v", text, err)
			}
			if d := sameCat(g, cat, true); d != "" {
				c.Fail("%s: %v changed and saved: %s", loadNames[how], base, d)
			}
			c.State(fmt.Sprint(cat.Sorted()))
		}, mc.Bound("every subset of 6 messages loaded in 3 ways, then 2 of 4 changes"))
	}, "comments are lines that start with # and have no line end in them")

	register("C12", func(t *mc.T) {
		valid := func(c *mc.C, ms ...ref.Msg) {
			f := addAll(ms...)
			cat := ref.NewCat(ms...)
			for _, pot := range []bool{false, true} {
				c.Step()
				text := ""
				if pot {
					text = savePot(c, f)
				} else {
					text = savePo(c, f)
				}
				got, err := ref.ReadPo(text)
				if err != nil {
					c.Fail("catalogue %v saved (template %v): %v\n%s", ms, pot, err, text)
				}
				if len(got) != len(cat.M) {
					c.Fail("catalogue %v saved (template %v): %d messages, want %d\n%s", ms, pot, len(got), len(cat.M), text)
				}
				for i, g := range got {
					w, ok := cat.M[g.Key()]
					if !ok {
						c.Fail("catalogue %v saved (template %v): message %v\n%s", ms, pot, g, text)
					}
					if g.IsHeader() && i > 0 {
						c.Fail("catalogue %v saved (template %v): the header comes as number %d\n%s", ms, pot, i+1, text)
					}
					if pot && !w.IsHeader() {
						w.Str = ""
						for _, s := range g.Forms {
							if s != "" {
								c.Fail("catalogue %v: template has a translation %q", ms, s)
							}
						}
						w.Forms, g.Forms = nil, nil
					}
					if w.Plural && len(w.Forms) == 0 {
						g.Forms = nil
					}
					if !sameMsg(g, w) {
						c.Fail("catalogue %v saved (template %v): an independent reader gets %v, want %v\n%s", ms, pot, g, w, text)
					}
				}
				c.Logf("template %v\n%s", pot, text)
			}
		}
		n := mc.Sel(t, 4, 5)
		t.Explore("strings", func(c *mc.C) {
			field := c.Choose(len(msgFields))
			k := c.Choose(n + 1)
			s := ""
			for i := 0; i < k; i++ {
				s += mc.Pick(c, textAtoms)
			}
			c.State(fmt.Sprint(field), s)
			valid(c, withField(field, s))
		}, mc.Bound("strings of up to %d of %d atoms in %d fields", n, len(textAtoms), len(msgFields)))
		t.Explore("every-byte-and-length", func(c *mc.C) {
			field := c.Choose(len(msgFields))
			s := ""
			if c.Bool() {
				b := byte(c.Choose(256))
				if b == 4 {
					c.Abandon()
				}
				s = []string{string([]byte{b}), string([]byte{'x', b}), string([]byte{b, '1', b})}[c.Choose(3)]
			} else {
				l := 70 + c.Choose(90)
				pat := []string{"x", "x ", "xxxxxxxx ", "\\", "é", "é ", "a\nbcd ", "\" ", "\x01"}[c.Choose(9)]
				s = strings.Repeat(pat, l)[:l]
				if c.Bool() {
					s += "\n"
				}
			}
			c.State(fmt.Sprint(field), s)
			valid(c, withField(field, s))
		}, mc.Bound("every byte; every length from 70 to 159 of 9 patterns; in %d fields", len(msgFields)))
		t.Explore("long-texts", func(c *mc.C) {
			field := 1 + c.Choose(2)*2 // id, str
			s := longText(c)
			c.State(fmt.Sprint(field), s)
			valid(c, withField(field, s))
		}, mc.Bound(longBound))
		pool := append(append([]ref.Msg{}, catPool...), untransPool...)
		k := mc.Sel(t, 6, 16)
		t.Explore("catalogues", func(c *mc.C) {
			var ms []ref.Msg
			for _, m := range pool {
				if len(ms) < k && c.Bool() {
					ms = append(ms, m)
				}
			}
			c.State(fmt.Sprint(ms))
			valid(c, ms2(c, ms)...)
		}, mc.Bound("every subset of up to %d of %d messages, translated or not", k, len(pool)))
		t.Explore("comments", func(c *mc.C) {
			h, m := header("Language: xx"), mc.Pick(c, []ref.Msg{{ID: "a", Str: "b"}, {ID: "u"}, {Ctxt: "c", ID: "p", Plural: true, ID2: "ps", Forms: []string{"x", "y"}}})
			for i := c.Choose(3); i > 0; i-- {
				m.Cmts = append(m.Cmts, mc.Pick(c, commentKinds))
			}
			for i := c.Choose(2); i > 0; i-- {
				h.Cmts = append(h.Cmts, mc.Pick(c, commentKinds))
			}
			c.State(fmt.Sprint(m, h))
			valid(c, h, m)
		}, mc.Bound("up to 2 comment lines of %d kinds on a message and one on the header", len(commentKinds)))
		t.Explore("sizes", func(c *mc.C) {
			ms, what, size := sized(c, mc.Sel(t, 65537, 140000))
			c.State(what, fmt.Sprint(size))
			valid(c, ms...)
		}, mc.Workers(4), mc.Bound(sizedBound, mc.Sel(t, 65537, 140000)))
		t.Explore("header-zoo", func(c *mc.C) {
			ms := zoo(c)
			c.State(fmt.Sprint(ms))
			valid(c, ms...)
		}, mc.Bound(zooBound))
		t.Explore("relations", func(c *mc.C) { valid(c, related(c)...) }, mc.Bound(relatedBound))
		t.Explore("forms", func(c *mc.C) {
			m := ref.Msg{ID: "p", Plural: true, ID2: "ps"}
			for i := mc.Pick(c, []int{0, 1, 2, 3, 6, 10, 11, 12, 101}); i > 0; i-- {
				m.Forms = append(m.Forms, fmt.Sprint("f", len(m.Forms)))
			}
			if c.Bool() {
				m.Ctxt = "c"
			}
			if len(m.Forms) > 0 && len(m.Forms) < 7 {
				m.Forms[c.Choose(len(m.Forms))] = ""
			}
			c.State(fmt.Sprint(m))
			valid(c, header("Language: xx"), m)
		})
	}, "the strict reader in harness/ref/po.go stands for GNU gettext's; only the escapes \\\\ \\\" \\a \\b \\f \\n \\r \\t \\v, octal and hex are allowed to it")
}

// longText is a text without a good place to break it, with one character anywhere in it.
func longText(c *mc.C) (s string) {
	fill := []string{"x", "é"}[c.Choose(2)]
	k := c.Choose(map[bool]int{true: 1100, false: 4200}[c.Quick()])
	at := []string{"\"", "\\", "\t", "\x01", "\xff", "é", " ", "\n"}[c.Choose(8)]
	s = strings.Repeat(fill, k) + at
	if rest := []int{0, 1, 1500}[c.Choose(3)]; rest > 0 {
		s += strings.Repeat(fill, rest)
	}
	return
}

var longBound = "texts without a blank in which a quote, backslash, control character, byte, letter, blank or line end stands at every offset up to 1100 (thorough: 4200) with 0, 1 or 1500 characters behind it"

// ms2 chooses the order in which messages are added: as they are or reversed.
func ms2(c *mc.C, ms []ref.Msg) []ref.Msg {
	if len(ms) > 1 && c.Bool() {
		r := make([]ref.Msg, len(ms))
		for i, m := range ms {
			r[len(ms)-1-i] = m
		}
		return r
	}
	return ms
}
