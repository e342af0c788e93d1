package props

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t/translator"
)

var moHeader = header("Language: xx", "Plural-Forms: nplurals=3; plural=n%3;", "X-Long: "+strings.Repeat("y", 90))

// moPool are messages for MO files.
var moPool = []ref.Msg{
	moHeader,
	{ID: "a", Str: "A"},
	{Ctxt: "c", ID: "a", Str: "A in c"},
	{ID: "p", Plural: true, ID2: "ps", Forms: []string{"f0", "f1", "f2"}},
	{Ctxt: "c", ID: "p", Plural: true, ID2: "ps", Forms: []string{"", "f1"}},
	{ID: "e", Plural: true, ID2: "e\x04s", Forms: []string{"\x04", "f1"}},
	{ID: "é\n", Str: "\xff\x01 "},
	{ID: "aa", Str: "a"},
	{ID: "u"},
	{Ctxt: "c", Str: "empty id"},
	{ID: "b", Str: "A"},
	{ID: "A", Str: "A"},
	{Ctxt: "d", ID: "p", Plural: true, ID2: "ps", Forms: []string{"f0", "f1", "f2"}},
}

// moExpect is the model of the catalogue in a list of MO strings.
func moExpect(pairs []ref.MoPair) *ref.Cat {
	cat := ref.NewCat()
	for _, p := range pairs {
		m := p.Msg()
		cat.M[m.Key()] = m
	}
	return cat
}

// sameLookups compares every lookup.
func sameLookups(c *mc.C, f *translator.File, cat *ref.Cat, what string) {
	lang, _ := cat.Header("Language")
	if f.Lang() != lang {
		c.Fail("%s: language %q, want %q", what, f.Lang(), lang)
	}
	for _, k := range []string{"Language", "Plural-Forms", "X-Long", "None"} {
		w, wok := cat.Header(k)
		if v, ok := f.GetHeader(k); v != w || ok != wok {
			c.Fail("%s: header %s is %q,%v want %q,%v", what, k, v, ok, w, wok)
		}
	}
	for _, m := range cat.Sorted() {
		c.Step()
		if w, ok := cat.X(m.Ctxt, m.ID); ok {
			if got := f.X(m.Ctxt, m.ID); got != w {
				c.Fail("%s: lookup (%q,%q) gives %q, want %q", what, m.Ctxt, m.ID, got, w)
			}
		}
		for _, n := range []int64{0, 1, 2} {
			if got, w := f.XN64(m.Ctxt, m.ID, "pl", n), cat.N(m.Ctxt, m.ID, "pl", n); got != w {
				c.Fail("%s: plural lookup (%q,%q) n=%d gives %q, want %q", what, m.Ctxt, m.ID, n, got, w)
			}
		}
	}
}

func permBlocks() (r [][]int) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == 5 {
			r = append(r, append([]int{}, p...))
			return
		}
		for i := 0; i < 5; i++ {
			if used>>i&1 == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return
}

func init() {
	register("C13", func(t *mc.T) {
		perms := permBlocks()
		orders := []binary.ByteOrder{binary.LittleEndian, binary.BigEndian}
		sets := [][]int{{}, {0}, {1}, {0, 1, 2, 3, 4, 5, 6, 7, 8}, {1, 6}, {0, 3, 4}, {7}, {2, 8}, {0, 1, 10, 11}, {3, 12}, {1, 3, 10, 12}}
		check := func(c *mc.C, ms []ref.Msg, l ref.MoLayout) {
			pairs := ref.Pairs(ms...)
			b := ref.BuildMo(pairs, l)
			c.State(string(b))
			c.Logf("%d messages, layout %+v: %d bytes", len(ms), l, len(b))
			c.Step()
			in := string(b)
			f, err := translator.ReadMo(b)
			if err != nil {
				c.Fail("layout %+v, messages %v: %v\n%q", l, ms, err, b)
			}
			if string(b) != in {
				c.Fail("layout %+v: the reader changed its input", l)
			}
			cat := moExpect(pairs)
			if d := sameCat(f, cat, false); d != "" {
				c.Fail("layout %+v: %s\n%q", l, d, b)
			}
			for i := range b { // what was read does not live in the caller's buffer
				b[i] = 'X'
			}
			sameLookups(c, f, cat, fmt.Sprintf("layout %+v", l))
		}
		t.Explore("layouts", func(c *mc.C) {
			set := mc.Pick(c, sets)
			var ms []ref.Msg
			for _, i := range set {
				ms = append(ms, moPool[i])
			}
			rev := c.Choose(4)
			l := ref.MoLayout{Order: mc.Pick(c, orders), Major: uint16(rev >> 1), Minor: uint16(rev & 1), Blocks: mc.Pick(c, perms)}
			l.Gap = mc.Pick(c, []int{0, 1, 13})
			l.Hash = mc.Pick(c, []int{0, 1, 5, 13})
			switch c.Choose(4) {
			case 1:
				l.Share = true
			case 2:
				l.Reverse = true
			case 3:
				l.Interleave = true
			}
			check(c, ms, l)
		}, mc.Bound("11 catalogues x 2 byte orders x 4 revisions x 120 orders of the blocks x 3 gaps x 4 hash table sizes x 4 string placements"))
		t.Explore("header-zoo", func(c *mc.C) {
			check(c, zoo(c), ref.MoLayout{Order: mc.Pick(c, orders)})
		}, mc.Bound(zooBound))
		t.Explore("no-hash-table", func(c *mc.C) {
			// a file without a hash table may have anything at the place of its offset
			set := mc.Pick(c, sets)
			var ms []ref.Msg
			for _, i := range set {
				ms = append(ms, moPool[i])
			}
			l := ref.MoLayout{Order: mc.Pick(c, orders), Major: uint16(c.Choose(2)), Blocks: mc.Pick(c, []([]int){nil, {4, 3, 2, 1, 0}})}
			n := uint32(len(ref.BuildMo(ref.Pairs(ms...), l)))
			l.HashOffset = mc.Pick(c, []uint32{1, 28, n - 1, n, n + 1, n + 4, 1 << 20, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff})
			check(c, ms, l)
		}, mc.Bound("11 catalogues x 2 byte orders x 2 revisions x 2 orders of the blocks x 11 offsets of the absent hash table"))
		t.Explore("contents", func(c *mc.C) {
			ms := mc.Subset(c, moPool)
			check(c, ms, ref.MoLayout{Order: mc.Pick(c, orders), Hash: c.Choose(2) * 7})
		}, mc.Bound("every subset of %d messages x byte order x hash table", len(moPool)))
		atoms := []string{"a", " ", "\n", "é", "\xff", "\x01", "\"", "\\", "\r", "%", strings.Repeat("x", 300)}
		n := mc.Sel(t, 3, 4)
		t.Explore("strings", func(c *mc.C) {
			field := c.Choose(len(msgFields))
			s := ""
			for i := c.Choose(n + 1); i > 0; i-- {
				s += mc.Pick(c, atoms)
			}
			m := withField(field, s)
			ms := []ref.Msg{m}
			if !m.IsHeader() {
				ms = append(ms, moHeader)
			}
			check(c, ms, ref.MoLayout{Order: mc.Pick(c, orders), Share: c.Bool()})
		}, mc.Bound("strings of up to %d of %d atoms in %d fields", n, len(atoms), len(msgFields)))
		t.Explore("sizes", func(c *mc.C) {
			k := mc.Pick(c, []int{1, 2, 100, 255, 256, 257, 1000, 5000, 65535, 65536, 65537, 140000})
			l := mc.Pick(c, []int{0, 1, 255, 256, 65535, 65536, 1<<20 + 1, 1<<24 + 1})
			if k*l > 34_000_000 || k > 5000 && l > 1 {
				c.Abandon()
			}
			var ms []ref.Msg
			for i := 0; i < k; i++ {
				ms = append(ms, ref.Msg{ID: fmt.Sprintf("m%d", i), Str: fmt.Sprint("t", i, strings.Repeat("z", l))})
			}
			check(c, ms, ref.MoLayout{Order: mc.Pick(c, orders), Gap: 3})
		}, mc.Workers(4), mc.Bound("up to 140000 messages, strings of up to 16 MB"))
	}, "MO files whose strings contain the separators EOT or NUL in other roles are not valid")

	register("C14", func(t *mc.T) {
		bases := [][]byte{}
		for _, l := range []ref.MoLayout{{}, {Order: binary.BigEndian, Hash: 5, Gap: 2, Blocks: []int{4, 3, 2, 1, 0}}, {Major: 1, Share: true, Blocks: []int{0, 3, 1, 4, 2}}, {Interleave: true, Hash: 3}} {
			bases = append(bases, ref.BuildMo(ref.Pairs(moPool[1:5]...), l))
			bases = append(bases, ref.BuildMo(ref.Pairs(header("Language: xx"), moPool[1]), l))
		}
		bases = append(bases, ref.BuildMo(nil, ref.MoLayout{}))
		check := func(c *mc.C, b []byte, what string) {
			c.Step()
			m, verr := ref.ReadMo(b)
			f, err := translator.ReadMo(b)
			if (f == nil) != (err != nil) {
				c.Fail("%s: catalogue %v and error %v", what, f != nil, err)
			}
			if verr != nil {
				if err == nil {
					c.Fail("%s: accepted, but %v\n%q", what, verr, b)
				}
				c.Outcome("rejected")
				return
			}
			if err != nil {
				if m.Terminated && len(m.Pairs) > 0 {
					c.Fail("%s: rejected though everything is inside the file: %v\n%q", what, err, b)
				}
				c.Outcome("rejected, not terminated")
				return
			}
			c.Outcome("accepted")
			cat := moExpect(m.Pairs)
			if d := sameCat(f, cat, false); d != "" {
				c.Fail("%s: accepted with other contents: %s\n%q", what, d, b)
			}
			surviveFile(c, f)
		}
		t.Explore("truncations", func(c *mc.C) {
			b := mc.Pick(c, bases)
			n := c.Choose(len(b) + 1)
			cut := append([]byte{}, b[:n]...)
			if c.Bool() { // cut out of the middle
				k := 1 + c.Choose(8)
				if n+k > len(b) {
					c.Abandon()
				}
				cut = append(cut, b[n+k:]...)
			}
			c.State(string(cut))
			c.Logf("%d of %d bytes", len(cut), len(b))
			check(c, cut, fmt.Sprintf("%d of %d bytes", len(cut), len(b)))
		}, mc.Bound("%d files cut at every byte, and every run of up to 8 bytes taken out", len(bases)))
		t.Explore("bytes", func(c *mc.C) {
			b := append([]byte{}, mc.Pick(c, bases)...)
			i := c.Choose(len(b))
			if old := b[i]; !c.Quick() || i < 28 {
				b[i] = byte(c.Choose(256))
			} else {
				b[i] = []byte{0, 1, 4, 0x7f, 0x80, 0xff, old + 1, old - 1}[c.Choose(8)]
			}
			c.State(string(b))
			check(c, b, fmt.Sprintf("byte %d changed to %#x", i, b[i]))
		}, mc.Bound("every byte of %d files set to every value (beyond the header: 8 values in the quick tier)", len(bases)))
		words := func(size, i int) []uint32 {
			return []uint32{0, 1, 2, 27, 28, uint32(size) - 17, uint32(size) - 9, uint32(size) - 8, uint32(size) - 7, uint32(size) - 1, uint32(size), uint32(size) + 1, 1 << 16, 1 << 28, 1<<29 + 2, 0x1fffffff, 0x7ffffff0, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0, 0xfffffff8, 0xffffffff, uint32(1) << 31 / 4}
		}
		wordAt := func(c *mc.C, b []byte) int {
			// header words and the words of both tables
			bo := binary.ByteOrder(binary.LittleEndian)
			if b[0] == 0x95 {
				bo = binary.BigEndian
			}
			n, o, s := int(bo.Uint32(b[8:])), int(bo.Uint32(b[12:])), int(bo.Uint32(b[16:]))
			var at []int
			for i := 0; i < 28; i += 4 {
				at = append(at, i)
			}
			for i := 0; i < 2*n; i++ {
				at = append(at, o+4*i, s+4*i)
			}
			return mc.Pick(c, at)
		}
		set := func(b []byte, i int, v uint32) {
			if b[0] == 0x95 || i == 0 && b[0] != 0xde {
				binary.BigEndian.PutUint32(b[i:], v)
			} else {
				binary.LittleEndian.PutUint32(b[i:], v)
			}
		}
		nb := mc.Sel(t, 5, len(bases))
		t.Explore("words", func(c *mc.C) {
			base := bases[c.Choose(nb)]
			b := append([]byte{}, base...)
			i, j := wordAt(c, base), wordAt(c, base)
			if j < i {
				c.Abandon()
			}
			w := words(len(b), i)
			set(b, i, mc.Pick(c, w))
			if j != i {
				set(b, j, mc.Pick(c, w))
			}
			c.State(string(b))
			c.Logf("words at %d and %d changed", i, j)
			check(c, b, fmt.Sprintf("words at %d and %d changed", i, j))
		}, mc.Bound("every pair of header and table words of %d files set to 24 boundary values each", nb))
		t.Explore("memory", func(c *mc.C) {
			base := bases[c.Choose(len(bases))]
			b := append([]byte{}, base...)
			i := wordAt(c, base)
			w := words(len(b), i)
			for k := 3; k < 32; k++ { // every order of magnitude
				w = append(w, 1<<k-1, 1<<k+1, 3<<(k-2))
			}
			set(b, i, mc.Pick(c, w))
			if c.Quick() == false {
				j := wordAt(c, base)
				if j <= i {
					c.Abandon()
				}
				set(b, j, mc.Pick(c, words(len(b), j)))
			}
			c.State(string(b))
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			f, err := translator.ReadMo(b)
			runtime.ReadMemStats(&m1)
			c.Step()
			_ = f
			// the strings a file describes may overlap, at most count x size in all
			inside := uint64(0)
			if m, e := ref.ReadMo(b); e == nil {
				for _, p := range m.Pairs {
					inside += uint64(len(p.ID) + len(p.Str))
				}
			}
			if used := m1.TotalAlloc - m0.TotalAlloc; used > 1<<20+256*(uint64(len(b))+inside) {
				c.Fail("reading %d bytes (word at %d changed, error %v) allocated %d bytes", len(b), i, err, used)
			}
		}, mc.Serial(), mc.Bound("every header and table word set to 24 boundary values and to 3 of each order of magnitude, allocations measured"))
		t.Explore("short-strings", func(c *mc.C) {
			// every short byte string over the interesting bytes
			al := []byte{0x00, 0x01, 0x95, 0x04, 0x12, 0xde, 0xff, 0x1c}
			k := c.Choose(mc.Sel(t, 7, 8))
			var b []byte
			for i := 0; i < k; i++ {
				b = append(b, mc.Pick(c, al))
			}
			c.State(string(b))
			if _, err := translator.ReadMo(b); err == nil {
				c.Fail("ReadMo(%q) returns no error", b)
			}
			full := append(append([]byte{0xde, 0x12, 0x04, 0x95}, b...), make([]byte, 24)...)
			check(c, full, "prefix "+string(b))
		}, mc.Bound("every string of up to %d of 8 bytes, alone and after the magic number", mc.Sel(t, 6, 7)))
		t.Explore("magic-and-revision", func(c *mc.C) {
			b := append([]byte{}, mc.Pick(c, bases)...)
			if c.Bool() {
				k := c.Choose(4)
				b[k] ^= byte(1 + c.Choose(255))
			} else {
				bo := binary.ByteOrder(binary.LittleEndian)
				if b[0] == 0x95 {
					bo = binary.BigEndian
				}
				major, minor := mc.Pick(c, []uint16{0, 1, 2, 3, 255, 256, 257, 0x7fff, 0x8000, 0xffff}), mc.Pick(c, []uint16{0, 1, 2, 3, 256, 257, 0xffff})
				bo.PutUint32(b[4:], uint32(major)<<16|uint32(minor))
			}
			c.State(string(b))
			check(c, b, fmt.Sprintf("start of file %q", b[:8]))
		})
	}, "a string whose terminating NUL is missing at the end of the file may be accepted or rejected", "memory is measured against the size of the file plus the total length of the strings it describes, which may overlap")

	register("C15", func(t *mc.T) {
		both := func(c *mc.C, ms ...ref.Msg) {
			cat := ref.NewCat(ms...)
			f := addAll(ms...)
			c.Step()
			mo := saveMo(c, f)
			g, err := translator.ReadMo([]byte(mo))
			if err != nil {
				c.Fail("catalogue %v: what SaveAsMo wrote cannot be read: %v\n%q", ms, err, mo)
			}
			sameLookups(c, f, cat, fmt.Sprintf("catalogue %v", ms))
			sameLookups(c, g, cat, fmt.Sprintf("catalogue %v saved as MO and read again", ms))
			if len(g.SortedEntry()) != len(cat.M) {
				c.Fail("catalogue %v saved as MO and read again has %d messages", ms, len(g.SortedEntry()))
			}
			po := ref.WritePo(ms...)
			if len(ms) > 0 {
				p, err := translator.ReadPo([]byte(po))
				if err != nil {
					c.Fail("ReadPo(%q): %v", po, err)
				}
				q, err := translator.ReadMo([]byte(saveMo(c, p)))
				if err != nil {
					c.Fail("MO made from %q: %v", po, err)
				}
				kept := ref.NewCat()
				for k, m := range cat.M {
					if translated(m) {
						kept.M[k] = m
					}
				}
				what := fmt.Sprintf("MO made from PO %q", po)
				sameLookups(c, q, kept, what)
				// and back to PO text
				r, err := translator.ReadPo([]byte(savePo(c, q) + "\n# end\n"))
				if err != nil {
					c.Fail("%s and back: %v", what, err)
				}
				sameLookups(c, r, kept, what+" and back")
			}
			c.Logf("%v: %d bytes", ms, len(mo))
		}
		atoms := []string{"a", " ", "\n", "\t", "\"", "\\", "é", "\xff", "\r", "\x01", "%", "\\n", "x|y", "\x04", strings.Repeat("x", 300), "\u2028"}
		n := mc.Sel(t, 3, 4)
		t.Explore("strings", func(c *mc.C) {
			field := c.Choose(len(msgFields))
			s := ""
			for i := c.Choose(n + 1); i > 0; i-- {
				s += mc.Pick(c, atoms)
			}
			if field < 2 && strings.Contains(s, "\x04") {
				c.Abandon()
			}
			m := withField(field, s)
			if field > 1 && m.Ctxt != "" && c.Bool() {
				m.Ctxt = ""
			}
			c.State(fmt.Sprint(field), s, m.Ctxt)
			ms := []ref.Msg{m}
			if !m.IsHeader() {
				ms = append(ms, moHeader)
			}
			both(c, ms...)
		}, mc.Bound("strings of up to %d of %d atoms in %d fields", n, len(atoms), len(msgFields)))
		pool := append(append([]ref.Msg{}, catPool...), untransPool...)
		k := mc.Sel(t, 4, 16)
		t.Explore("sizes", func(c *mc.C) {
			ms, what, size := sized(c, mc.Sel(t, 65537, 140000))
			c.State(what, fmt.Sprint(size))
			both(c, ms...)
		}, mc.Workers(4), mc.Bound(sizedBound, mc.Sel(t, 65537, 140000)))
		t.Explore("header-zoo", func(c *mc.C) {
			ms := zoo(c)
			c.State(fmt.Sprint(ms))
			both(c, ms...)
		}, mc.Bound(zooBound))
		t.Explore("catalogues", func(c *mc.C) {
			var ms []ref.Msg
			for _, m := range pool {
				if len(ms) < k && c.Bool() {
					ms = append(ms, m)
				}
			}
			c.State(fmt.Sprint(ms))
			both(c, ms2(c, ms)...)
		}, mc.Bound("every subset of up to %d of %d messages", k, len(pool)))
		t.Explore("relations", func(c *mc.C) {
			ms := related(c)
			for _, m := range ms {
				if m.Plural && len(m.Forms) == 0 && m.ID2 == "" {
					c.Abandon()
				}
			}
			both(c, ms...)
		}, mc.Bound(relatedBound))
		t.Explore("forms", func(c *mc.C) {
			np := 1 + c.Choose(6)
			m := ref.Msg{ID: "p", Plural: true, ID2: mc.Pick(c, []string{"ps", "p", ""}), Ctxt: mc.Pick(c, []string{"", "c"})}
			for i := c.Choose(8); i > 0; i-- {
				m.Forms = append(m.Forms, mc.Pick(c, []string{"", "f"})+[]string{"", fmt.Sprint(i)}[c.Choose(2)])
			}
			if len(m.Forms) == 0 && m.ID2 == "" {
				c.Abandon()
			}
			c.State(fmt.Sprint(np, m))
			both(c, header("Language: xx", fmt.Sprintf("Plural-Forms: nplurals=%d; plural=n%%%d;", np, np)), m)
		}, mc.Bound("up to 7 forms, each possibly empty, under 6 rules"))
	}, "strings with NUL, and contexts and ids with EOT, are excluded: the MO format cannot represent them", "entries that contradict themselves (forms without a plural msgid flag and the like) are excluded")

	register("C16", func(t *mc.T) {
		valid := func(c *mc.C, f *translator.File, cat *ref.Cat, ms any) {
			c.Step()
			b := saveMo(c, f)
			if !strings.HasPrefix(b, "\xde\x12\x04\x95") && !strings.HasPrefix(b, "\x95\x04\x12\xde") {
				c.Fail("catalogue %v: magic number %q", ms, b[:min(4, len(b))])
			}
			m, err := ref.ReadMo([]byte(b))
			if err != nil {
				c.Fail("catalogue %v: %v\n%q", ms, err, b)
			}
			if m.Major != 0 || m.Minor != 0 {
				c.Fail("catalogue %v: revision %d.%d", ms, m.Major, m.Minor)
			}
			if len(m.Pairs) != len(cat.M) {
				c.Fail("catalogue %v: %d strings, want %d", ms, len(m.Pairs), len(cat.M))
			}
			if !m.Terminated {
				c.Fail("catalogue %v: a string is not terminated by NUL\n%q", ms, b)
			}
			for _, p := range m.Pairs {
				w, ok := cat.M[p.Msg().Key()]
				if !ok {
					c.Fail("catalogue %v: message %v should not be there", ms, p.Msg())
				}
				if e := ref.Pairs(w)[0]; p != e {
					c.Fail("catalogue %v: strings %q -> %q, want %q -> %q", ms, p.ID, p.Str, e.ID, e.Str)
				}
			}
			c.Logf("%d bytes, %d strings, sorted %v", len(b), len(m.Pairs), m.Sorted)
			if m.Sorted {
				return
			}
			special := false
			for _, m := range cat.M {
				special = special || m.Ctxt != ""
				for _, cm := range m.Cmts {
					special = special || strings.HasPrefix(cm, "#:")
				}
			}
			var ids []string
			for i, e := range f.SortedEntry() {
				if k := m.Pairs[i].Msg().Key(); k != e.Key() {
					special = false
				}
				ids = append(ids, m.Pairs[i].ID)
			}
			if !special {
				c.Fail("catalogue %v: original strings are not sorted: %q", ms, ids)
			}
			c.Known("mo-not-sorted-with-contexts-or-references", "original strings in the order %q", ids)
		}
		atoms := []string{"a", " ", "\n", "é", "\xff", "\x01", "\"", "\x7f", "b", "\x04", strings.Repeat("x", 300)}
		n := mc.Sel(t, 3, 4)
		t.Explore("strings", func(c *mc.C) {
			field := c.Choose(len(msgFields))
			s := ""
			for i := c.Choose(n + 1); i > 0; i-- {
				s += mc.Pick(c, atoms)
			}
			if field < 2 && strings.Contains(s, "\x04") {
				c.Abandon()
			}
			ms := []ref.Msg{withField(field, s), {ID: "a", Str: "A"}}
			if field > 1 && c.Bool() {
				ms[0].Ctxt = ""
			}
			if c.Bool() {
				ms = ms[:1]
			}
			c.State(fmt.Sprint(field, len(ms)), s)
			valid(c, addAll(ms...), ref.NewCat(ms...), ms)
		}, mc.Bound("strings of up to %d of %d atoms in %d fields", n, len(atoms), len(msgFields)))
		lens := []int{254, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000, mc.Sel(t, 1<<17, 1<<24+1)}
		t.Explore("long", func(c *mc.C) {
			field := c.Choose(len(msgFields))
			s := strings.Repeat(mc.Pick(c, []string{"x", "é"}), mc.Pick(c, lens))
			if c.Bool() {
				s += "\n"
			}
			c.State(fmt.Sprint(field), fmt.Sprint(len(s)))
			ms := []ref.Msg{withField(field, s), {ID: "a", Str: "A"}, {ID: "z", Str: "Z"}}
			if field > 1 && c.Bool() {
				ms[0].Ctxt = ""
			}
			valid(c, addAll(ms...), ref.NewCat(ms...), []any{field, len(s)})
		}, mc.Bound("strings of 254 to %d repeated characters in %d fields", lens[len(lens)-1], len(msgFields)))
		t.Explore("many", func(c *mc.C) {
			k := mc.Pick(c, []int{63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1000, 1001, 1024, 4096, 8191, 8192, 9000, 16384, 32769, 65535, 65537, mc.Sel(t, 70000, 140000)})
			var ms []ref.Msg
			for i := 0; i < k; i++ {
				ms = append(ms, ref.Msg{ID: fmt.Sprintf("m%07d", i*7919%1000003), Str: fmt.Sprint("t", i)})
			}
			c.State(fmt.Sprint(k))
			valid(c, addAll(ms2(c, ms)...), ref.NewCat(ms...), fmt.Sprint(k, " messages"))
		}, mc.Bound("up to %d messages", mc.Sel(t, 70000, 140000)))
		t.Explore("relations", func(c *mc.C) {
			ms := related(c)
			valid(c, addAll(ms...), ref.NewCat(ms...), ms)
		}, mc.Bound(relatedBound))
		ids := []string{"", "a", "aa", "ab", "a b", "b", "A", "\x01", "é", "\xff", "a\n", "10", "9"}
		k := mc.Sel(t, 7, 13)
		t.Explore("sorting", func(c *mc.C) {
			var ms []ref.Msg
			plural := c.Choose(3)
			for i, id := range ids {
				if len(ms) < k && c.Bool() {
					m := ref.Msg{ID: id, Str: "t" + id}
					if plural == 1 && i%2 == 0 && id != "" {
						m = ref.Msg{ID: id, Plural: true, ID2: id + "s", Forms: []string{"x", "y"}}
					}
					if plural == 2 {
						m.Cmts = []string{"# note 1", "#. x"}
					}
					ms = append(ms, m)
				}
			}
			c.State(fmt.Sprint(ms))
			valid(c, addAll(ms2(c, ms)...), ref.NewCat(ms...), ms)
		}, mc.Bound("every subset of up to %d of %d ids without contexts, added in 2 orders", k, len(ids)))
		pool := append(append([]ref.Msg{}, catPool...), untransPool...)
		k2 := mc.Sel(t, 6, 16)
		t.Explore("catalogues", func(c *mc.C) {
			var ms []ref.Msg
			for _, m := range pool {
				if len(ms) < k2 && c.Bool() {
					ms = append(ms, m)
				}
			}
			c.State(fmt.Sprint(ms))
			how := c.Choose(2)
			if how == 0 || len(ms) == 0 {
				valid(c, addAll(ms2(c, ms)...), ref.NewCat(ms...), ms)
				return
			}
			cat := ref.NewCat()
			for _, m := range ms {
				if translated(m) {
					cat.M[m.Key()] = m
				}
			}
			valid(c, load(c, 1, ms...), cat, ms)
		}, mc.Bound("every subset of up to %d of %d messages, added or read from PO", k2, len(pool)))
	}, "catalogues with contexts or references are written in the order of SortedEntry, not of the msgid bytes: recorded as a known finding")
}
