package props

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"testing/fstest"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

func toEntry(m ref.Msg) *translator.Entry {
	return &translator.Entry{MsgCmts: append([]string(nil), m.Cmts...), MsgCtxt: m.Ctxt, MsgID: m.ID, IsPlural: m.Plural, MsgID2: m.ID2,
		MsgStr: m.Str, MsgStrN: append([]string(nil), m.Forms...)}
}

func fromEntry(e *translator.Entry) ref.Msg {
	return ref.Msg{Cmts: e.MsgCmts, Ctxt: e.MsgCtxt, ID: e.MsgID, Plural: e.IsPlural, ID2: e.MsgID2, Str: e.MsgStr, Forms: e.MsgStrN}
}

func addAll(ms ...ref.Msg) *translator.File {
	f := new(translator.File)
	for _, m := range ms {
		f.AddEntry(toEntry(m))
	}
	return f
}

// load makes a real catalogue of the messages in one of the ways there are.
const nLoad = 3

var loadNames = [nLoad]string{"AddEntry", "ReadPo", "ReadMo"}

func load(c *mc.C, how int, ms ...ref.Msg) *translator.File {
	switch how {
	case 0:
		return addAll(ms...)
	case 1:
		f, err := translator.ReadPo([]byte(ref.WritePo(ms...)))
		if err != nil {
			c.Fail("ReadPo(%q): %v", ref.WritePo(ms...), err)
		}
		return f
	default:
		b := ref.BuildMo(ref.Pairs(ms...), ref.MoLayout{})
		f, err := translator.ReadMo(b)
		if err != nil {
			c.Fail("ReadMo(%q): %v", b, err)
		}
		return f
	}
}

// memFS is a file system of regular files.
func memFS(files map[string]string) fs.FS {
	m := fstest.MapFS{}
	for k, v := range files {
		m[k] = &fstest.MapFile{Data: []byte(v), Mode: 0o644}
	}
	return m
}

// bound makes a translation set that has the messages bound to a domain and selected.
func bound(domain, locale string, ms ...ref.Msg) *t.Translations {
	ts := t.NewTranslations()
	ts.BindFS(domain, memFS(map[string]string{"x.po": ref.WritePo(ms...)}))
	ts.SetDomain(domain)
	ts.SetLocale(locale)
	return ts
}

func sameMsg(a, b ref.Msg) bool {
	if a.Ctxt != b.Ctxt || a.ID != b.ID || a.Plural != b.Plural || a.ID2 != b.ID2 || a.Str != b.Str || len(a.Forms) != len(b.Forms) || len(a.Cmts) != len(b.Cmts) {
		return false
	}
	for i := range a.Forms {
		if a.Forms[i] != b.Forms[i] {
			return false
		}
	}
	for i := range a.Cmts {
		if a.Cmts[i] != b.Cmts[i] {
			return false
		}
	}
	return true
}

// sameCat compares a real catalogue with the model; it returns what differs.
func sameCat(f *translator.File, want *ref.Cat, comments bool) string {
	got := f.SortedEntry()
	seen := map[string]bool{}
	for _, e := range got {
		m := fromEntry(e)
		if seen[m.Key()] {
			return fmt.Sprintf("%v is there twice", m)
		}
		seen[m.Key()] = true
		w, ok := want.M[m.Key()]
		if !ok {
			return fmt.Sprintf("%v should not be there", m)
		}
		if !comments {
			m.Cmts, w.Cmts = nil, nil
		}
		if !sameMsg(m, w) {
			return fmt.Sprintf("got %v, want %v", m, w)
		}
	}
	for _, w := range want.Sorted() {
		if !seen[w.Key()] {
			return fmt.Sprintf("%v is missing", w)
		}
	}
	return ""
}

func savePo(c *mc.C, f *translator.File) string  { return save(c, f.SaveAsPo, "SaveAsPo") }
func savePot(c *mc.C, f *translator.File) string { return save(c, f.SaveAsPot, "SaveAsPot") }
func saveMo(c *mc.C, f *translator.File) string  { return save(c, f.SaveAsMo, "SaveAsMo") }

func save(c *mc.C, fn func(io.Writer) error, name string) string {
	var b bytes.Buffer
	if err := fn(&b); err != nil {
		c.Fail("%s: %v", name, err)
	}
	return b.String()
}

func header(extra ...string) ref.Msg {
	return ref.Msg{Str: strings.Join(append(extra, ""), "\n")}
}

// relatedMsg makes a message whose fields are equal to each other, different or empty in every way there is.
func relatedMsg(c *mc.C) ref.Msg {
	vals := []string{"", "a", "b"}
	m := ref.Msg{Ctxt: mc.Pick(c, vals), ID: mc.Pick(c, vals)}
	if m.IsHeader() {
		m.Str = mc.Pick(c, []string{"a", "a: b\n"})
		return m
	}
	if c.Bool() {
		m.Plural, m.ID2 = true, mc.Pick(c, vals)
		for k := c.Choose(3); k > 0; k-- {
			m.Forms = append(m.Forms, mc.Pick(c, vals))
		}
		return m
	}
	m.Str = mc.Pick(c, vals)
	return m
}

// related makes one or two such messages.
func related(c *mc.C) []ref.Msg {
	ms := []ref.Msg{relatedMsg(c)}
	if c.Bool() {
		m := relatedMsg(c)
		if m.Key() == ms[0].Key() {
			c.Abandon()
		}
		ms = append(ms, m)
	}
	c.State(fmt.Sprint(ms))
	return ms
}

const relatedBound = "one and two messages whose context, id, plural id and translations are each empty, a or b"

// sized makes a catalogue that is big in one respect.
func sized(c *mc.C, top int) (ms []ref.Msg, what string, size int) {
	size = mc.Pick(c, []int{1, 9, 10, 11, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 4095, 4096, 4097, top})
	h, m := header("Language: xx"), ref.Msg{ID: "a", Str: "A"}
	what = mc.Pick(c, []string{"header fields", "long header field", "header comments", "references", "notes", "long note", "messages", "plural forms", "lines of the id", "long id", "context", "long word"})
	if size > 20000 && (what == "lines of the id" || what == "plural forms" || what == "header fields") {
		c.Abandon() // takes very long
	}
	for i := 0; i < size; i++ {
		n := fmt.Sprintf("%d", i)
		switch what {
		case "header fields":
			h.Str += "X-Field-" + n + ": value " + n + "\n"
		case "header comments":
			h.Cmts = append(h.Cmts, "# line "+n)
		case "references":
			m.Cmts = append(m.Cmts, "#: dir/file.go:"+n)
		case "notes":
			m.Cmts = append(m.Cmts, "# note "+n)
		case "messages":
			ms = append(ms, ref.Msg{ID: fmt.Sprintf("m%05d", i*7919%100003), Str: "t" + n, Cmts: []string{"#: a.go:" + n}})
		case "plural forms":
			m.Plural, m.ID2, m.Str = true, "as", ""
			m.Forms = append(m.Forms, "form "+n)
		case "lines of the id":
			m.ID += "line " + n + "\n"
		}
	}
	switch what {
	case "long header field":
		h.Str += "X-Long: " + strings.Repeat("value ", size) + "\n"
	case "long note":
		m.Cmts = []string{"# " + strings.Repeat("word ", size) + "end"}
	case "long id":
		m.ID = strings.Repeat("word ", size)
	case "context":
		m.Ctxt = strings.Repeat("word ", size)
	case "long word":
		m.ID = strings.Repeat("é", size)
	}
	ms = append(ms, h, m, ref.Msg{ID: "z", Str: "Z"})
	return
}

const sizedBound = "1 to %d header fields, comments, references, messages, forms, lines, words"

// zoo makes a catalogue whose header has fields that other programs act upon,
// and whose messages have bytes that would be changed by doing so.
func zoo(c *mc.C) []ref.Msg {
	field := mc.Pick(c, []string{
		"Content-Type: text/plain; charset=UTF-8", "Content-Type: text/plain; charset=ISO-8859-1", "Content-Type: text/plain; charset=latin1", "content-type: text/plain; charset=windows-1252",
		"Content-Type: text/plain; charset=GBK", "Content-Type: text/plain; charset=Shift_JIS", "Content-Type: text/plain; charset=UTF-16", "Content-Type: text/plain; charset=UTF-7", "Content-Type: text/plain; charset=CHARSET", "Content-Type: text/plain; charset=US-ASCII",
		"Content-Type: text/html; charset=utf-8", "Content-Type: application/json",
		"Content-Transfer-Encoding: 8bit", "Content-Transfer-Encoding: 7bit", "Content-Transfer-Encoding: base64", "Content-Transfer-Encoding: quoted-printable",
		"Content-Encoding: gzip", "X-Generator: Poedit 3.0", "X-Accelerator-Marker: &", "X-Newline: CRLF", "Line-Endings: dos", "X-Domain: d", "Domain: d", "X-Wrap: no", "X-Sort: no", "X-Quote: '", "MIME-Version: 2.0", "PO-Revision-Date: YEAR-MO-DA HO:MI+ZONE", "Language-Team: none", "X-Source-Language: de", "Plural-Forms: nplurals=INTEGER; plural=EXPRESSION;",
	})
	text := mc.Pick(c, []string{"\xe9", "é", "\xc3\x83\xc2\xa9", "=C3=A9", "w6k=", "dGV4dA==", "+AOk-", "\xfe\xff\x00\xe9"[:2] + "a", "\xef\xbb\xbfa", "\xa4\xa2", "\x81\x40", "&File", "&amp;", "&eacute;", "%C3%A9", "a\r\nb", "a\rb", "\u00ad", "e\u0301", "a\\nb", "caf\xe9 \u20ac"})
	first := c.Choose(2)
	head := header("Language: xx", field)
	if first == 1 {
		head = header(field, "Language: xx")
	}
	return []ref.Msg{head, {ID: "s", Str: text}, {ID: text, Str: "t"}, {Ctxt: text, ID: "s", Str: "u"}, {ID: "p", Plural: true, ID2: text, Forms: []string{text, "x" + text}}}
}

const zooBound = "31 header fields that other programs act upon x 21 texts such a program would change, as id, context, plural and translation"
