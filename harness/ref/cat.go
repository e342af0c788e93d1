package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
	"strings"
)

// Msg is a message of a catalogue.
type Msg struct {
	Cmts      []string
	Ctxt, ID  string
	Plural    bool
	ID2       string
	Str       string
	Forms     []string
	NoCtxtKey bool
}

func (m Msg) Key() string { return m.Ctxt + "\x04" + m.ID }

func (m Msg) IsHeader() bool { return m.Ctxt == "" && m.ID == "" }

func (m Msg) String() string {
	s := fmt.Sprintf("%q", m.ID)
	if m.Ctxt != "" {
		s = fmt.Sprintf("%q|", m.Ctxt) + s
	}
	if m.Plural {
		s += fmt.Sprintf("/%q", m.ID2)
	}
	if len(m.Forms) > 0 {
		s += fmt.Sprintf("->%q", m.Forms)
	} else {
		s += fmt.Sprintf("->%q", m.Str)
	}
	if len(m.Cmts) > 0 {
		s += fmt.Sprintf(" %q", m.Cmts)
	}
	return s
}

// Cat is the model of a catalogue: the last of repeated messages wins.
type Cat struct {
	M map[string]Msg
}

func NewCat(ms ...Msg) *Cat {
	c := &Cat{M: map[string]Msg{}}
	for _, m := range ms {
		c.M[m.Key()] = m
	}
	return c
}

// Header returns the value of a header of the header entry; the first of repeated keys wins.
func (c *Cat) Header(key string) (string, bool) {
	h, ok := c.M["\x04"]
	if !ok {
		return "", false
	}
	for _, line := range strings.Split(h.Str, "\n") {
		k, v, ok := strings.Cut(line, ": ")
		if ok && strings.TrimSpace(k) == key {
			return strings.TrimSpace(v), true
		}
	}
	return "", false
}

// PluralRule is a parsed Plural-Forms header.
type PluralRule struct {
	N    int64
	Expr *Node
}

// ParseRule parses "nplurals=N; plural=EXPR;" (the final semicolon may be missing).
func ParseRule(h string) (r PluralRule, ok bool) {
	h = strings.TrimSpace(h)
	h = strings.TrimSpace(strings.TrimSuffix(h, ";"))
	a, b, ok := strings.Cut(h, ";")
	if !ok {
		return r, false
	}
	k, v, ok := strings.Cut(a, "=")
	if !ok || strings.TrimSpace(k) != "nplurals" {
		return r, false
	}
	v = strings.TrimSpace(v)
	if v == "" || len(v) > 9 {
		return r, false
	}
	for _, d := range []byte(v) {
		if d < '0' || d > '9' {
			return r, false
		}
		r.N = r.N*10 + int64(d-'0')
	}
	k, v, ok = strings.Cut(b, "=")
	if !ok || strings.TrimSpace(k) != "plural" {
		return r, false
	}
	x, err := Parse(v, Variant{})
	if err != nil || x.HasBad() {
		return r, false
	}
	r.Expr = x
	return r, true
}

// Source is what a plural lookup falls back to.
func Source(id, id2 string, n int64) string {
	if id2 == "" || n == 1 {
		return id
	}
	return id2
}

// X is the model of a singular lookup; ok is false where the result is unspecified.
func (c *Cat) X(ctxt, id string) (s string, ok bool) {
	m, found := c.M[ctxt+"\x04"+id]
	if !found {
		return id, true
	}
	if len(m.Forms) > 0 && m.Str == "" {
		return id, false // a plural message asked for without a count
	}
	if m.Str == "" {
		return id, true
	}
	return m.Str, true
}

// N is the model of a plural lookup.
func (c *Cat) N(ctxt, id, id2 string, n int64) string {
	m, found := c.M[ctxt+"\x04"+id]
	if !found {
		return Source(id, id2, n)
	}
	if m.ID2 == "" && len(m.Forms) == 0 { // stored without plural forms
		if m.Str != "" {
			return m.Str
		}
		return id
	}
	h, _ := c.Header("Plural-Forms")
	r, ok := ParseRule(h)
	if !ok {
		return Source(id, id2, n)
	}
	i, err := r.Expr.Eval(n, Variant{})
	if err != nil || i < 0 || i >= r.N || i >= int64(len(m.Forms)) || m.Forms[i] == "" {
		return Source(id, id2, n)
	}
	return m.Forms[i]
}

// Sorted returns the messages, header first.
func (c *Cat) Sorted() []Msg {
	var r []Msg
	for _, m := range c.M {
		r = append(r, m)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Key() < r[j].Key() })
	return r
}

// Quote writes a C string with only the escapes every gettext reader knows.
func Quote(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			sb.WriteByte('\\')
			sb.WriteByte(c)
		case c == '\n':
			sb.WriteString(`\n`)
		case c == '\t':
			sb.WriteString(`\t`)
		case c < ' ' || c == 0x7f:
			fmt.Fprintf(&sb, `\%03o`, c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// WritePo renders messages in the most ordinary way.
func WritePo(ms ...Msg) string {
	var sb strings.Builder
	for i, m := range ms {
		if i > 0 {
			sb.WriteByte('\n')
		}
		for _, c := range m.Cmts {
			sb.WriteString(c + "\n")
		}
		if m.Ctxt != "" {
			sb.WriteString("msgctxt " + Quote(m.Ctxt) + "\n")
		}
		sb.WriteString("msgid " + Quote(m.ID) + "\n")
		if m.Plural {
			sb.WriteString("msgid_plural " + Quote(m.ID2) + "\n")
			for k, f := range m.Forms {
				fmt.Fprintf(&sb, "msgstr[%d] %s\n", k, Quote(f))
			}
		} else {
			sb.WriteString("msgstr " + Quote(m.Str) + "\n")
		}
	}
	return sb.String()
}

// MoPair is a pair of strings of an MO file.
type MoPair struct{ ID, Str string }

// Pairs gives the MO strings of messages, sorted as the format demands.
func Pairs(ms ...Msg) (r []MoPair) {
	for _, m := range ms {
		id, str := m.ID, m.Str
		if m.Ctxt != "" {
			id = m.Ctxt + "\x04" + id
		}
		if m.Plural {
			id += "\x00" + m.ID2
			str = strings.Join(m.Forms, "\x00")
		}
		r = append(r, MoPair{id, str})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return
}

// MoLayout says how an MO file is laid out.
type MoLayout struct {
	Order        binary.ByteOrder
	Major, Minor uint16
	Blocks       []int // order of: 0 original table, 1 translation table, 2 hash table, 3 original strings, 4 translations
	Gap          int   // bytes between blocks
	Hash         int   // entries of the hash table
	Share        bool  // equal strings and suffixes are stored once
	Reverse      bool  // strings are stored in reverse order
	Interleave   bool  // each translation is stored next to its original
	Unterminated bool
	HashOffset   uint32 // what the header says about a hash table without entries, when not 0
}

// BuildMo makes an MO file.
func BuildMo(p []MoPair, l MoLayout) []byte {
	n := len(p)
	if l.Order == nil {
		l.Order = binary.LittleEndian
	}
	if l.Blocks == nil {
		l.Blocks = []int{0, 1, 2, 3, 4}
	}
	head := 28
	if l.Major == 1 {
		head = 48
	}
	out := make([]byte, head)
	off := [5]int{}
	place := func(b int, data []byte) {
		for i := 0; i < l.Gap; i++ {
			out = append(out, 0xEE)
		}
		off[b] = len(out)
		out = append(out, data...)
	}
	idOff, strOff := make([]int, n), make([]int, n)
	pool := func(b int, get func(int) string, dst []int) {
		place(b, nil)
		for k := 0; k < n; k++ {
			i := k
			if l.Reverse {
				i = n - 1 - k
			}
			s := get(i) + "\x00"
			if l.Share {
				if j := strings.Index(string(out[head:]), s); j >= 0 {
					dst[i] = head + j
					continue
				}
			}
			dst[i] = len(out)
			out = append(out, s...)
		}
	}
	for _, b := range l.Blocks {
		switch b {
		case 0, 1:
			place(b, make([]byte, 8*n))
		case 2:
			place(b, make([]byte, 4*l.Hash))
		case 3:
			if l.Interleave {
				place(3, nil)
				for i := range p {
					idOff[i] = len(out)
					out = append(out, p[i].ID+"\x00"...)
					strOff[i] = len(out)
					out = append(out, p[i].Str+"\x00"...)
				}
				continue
			}
			pool(3, func(i int) string { return p[i].ID }, idOff)
		case 4:
			if !l.Interleave {
				pool(4, func(i int) string { return p[i].Str }, strOff)
			}
		}
	}
	bo := l.Order
	bo.PutUint32(out[0:], 0x950412de)
	bo.PutUint32(out[4:], uint32(l.Major)<<16|uint32(l.Minor))
	bo.PutUint32(out[8:], uint32(n))
	bo.PutUint32(out[12:], uint32(off[0]))
	bo.PutUint32(out[16:], uint32(off[1]))
	bo.PutUint32(out[20:], uint32(l.Hash))
	bo.PutUint32(out[24:], uint32(off[2]))
	if l.Hash == 0 && l.HashOffset != 0 {
		bo.PutUint32(out[24:], l.HashOffset)
	}
	for i := range p {
		bo.PutUint32(out[off[0]+8*i:], uint32(len(p[i].ID)))
		bo.PutUint32(out[off[0]+8*i+4:], uint32(idOff[i]))
		bo.PutUint32(out[off[1]+8*i:], uint32(len(p[i].Str)))
		bo.PutUint32(out[off[1]+8*i+4:], uint32(strOff[i]))
	}
	for i := 0; i < l.Hash; i++ { // a hash table nobody needs to read: the hash of PJW
		bo.PutUint32(out[off[2]+4*i:], 0)
	}
	if l.Hash > 2 {
		for i := range p {
			h := hashPJW(p[i].ID)
			k := h % uint32(l.Hash)
			step := 1 + h%uint32(l.Hash-2)
			for try := 0; try < l.Hash && bo.Uint32(out[off[2]+4*int(k):]) != 0; try++ {
				k = (k + step) % uint32(l.Hash)
			}
			bo.PutUint32(out[off[2]+4*int(k):], uint32(i+1))
		}
	}
	if l.Unterminated {
		out = out[:len(out)-1]
	}
	return out
}

func hashPJW(s string) uint32 {
	var h uint32
	for i := 0; i < len(s) && s[i] != 0; i++ {
		h = h<<4 + uint32(s[i])
		if g := h & 0xf0000000; g != 0 {
			h ^= g >> 24
			h ^= g
		}
	}
	return h
}

// ErrMo says why bytes are not an MO file.
var ErrMo = errors.New("not a valid MO file")

// MoFile is what the strict reader found.
type MoFile struct {
	Major, Minor uint16
	Pairs        []MoPair
	Terminated   bool
	Sorted       bool
}

// ReadMo is a strict, independent reader.
func ReadMo(b []byte) (*MoFile, error) {
	if len(b) < 4 {
		return nil, fmt.Errorf("%w: no magic number", ErrMo)
	}
	var bo binary.ByteOrder = binary.LittleEndian
	switch bo.Uint32(b) {
	case 0x950412de:
	case 0xde120495:
		bo = binary.BigEndian
	default:
		return nil, fmt.Errorf("%w: magic number", ErrMo)
	}
	if len(b) < 28 {
		return nil, fmt.Errorf("%w: header cut off", ErrMo)
	}
	rev := bo.Uint32(b[4:])
	m := &MoFile{Major: uint16(rev >> 16), Minor: uint16(rev), Terminated: true, Sorted: true}
	if m.Major > 1 || m.Minor > 1 {
		return nil, fmt.Errorf("%w: revision", ErrMo)
	}
	n, o, t := uint64(bo.Uint32(b[8:])), uint64(bo.Uint32(b[12:])), uint64(bo.Uint32(b[16:]))
	size := uint64(len(b))
	if n > 0 && (o+8*n > size || t+8*n > size) {
		return nil, fmt.Errorf("%w: table outside the file", ErrMo)
	}
	str := func(at uint64) (string, error) {
		l, off := uint64(bo.Uint32(b[at:])), uint64(bo.Uint32(b[at+4:]))
		if off+l > size {
			return "", fmt.Errorf("%w: string outside the file", ErrMo)
		}
		if off+l >= size || b[off+l] != 0 {
			m.Terminated = false
		}
		return string(b[off : off+l]), nil
	}
	for i := uint64(0); i < n; i++ {
		id, err := str(o + 8*i)
		if err != nil {
			return nil, err
		}
		s, err := str(t + 8*i)
		if err != nil {
			return nil, err
		}
		if i > 0 && m.Pairs[i-1].ID >= id {
			m.Sorted = false
		}
		m.Pairs = append(m.Pairs, MoPair{id, s})
	}
	return m, nil
}

// Msg splits an MO pair.
func (p MoPair) Msg() (m Msg) {
	m.ID, m.Str = p.ID, p.Str
	if a, b, ok := strings.Cut(m.ID, "\x00"); ok {
		m.ID, m.ID2 = a, b
		m.Plural = true
		m.Forms = strings.Split(m.Str, "\x00")
		m.Str = ""
	}
	if a, b, ok := strings.Cut(m.ID, "\x04"); ok {
		m.Ctxt, m.ID = a, b
	}
	return
}
