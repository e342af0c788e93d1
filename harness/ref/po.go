package ref

import (
	"errors"
	"fmt"
	"strings"
)

// ErrPo says why a text is not a PO file.
var ErrPo = errors.New("not a valid PO file")

// Decode decodes the inside of a quoted PO string: the escapes of GNU gettext. bad is true
// when the string is not valid, vague when gettext and the property leave its value open.
func Decode(s string) (out string, bad, vague bool) {
	var b []byte
	isOct := func(i int) bool { return i < len(s) && s[i] >= '0' && s[i] <= '7' }
	hex := func(i int) int {
		if i >= len(s) {
			return -1
		}
		return strings.IndexByte("0123456789abcdef", s[i]|0x20)
	}
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '"':
			return "", true, vague
		case '\r':
			vague = true
			b = append(b, c)
		case '\\':
			i++
			if i >= len(s) {
				return "", true, vague
			}
			if k := strings.IndexByte(`abfnrtv\"`, s[i]); k >= 0 {
				b = append(b, "\a\b\f\n\r\t\v\\\""[k])
				continue
			}
			if isOct(i) {
				v := 0
				j := i
				for ; j < i+3 && isOct(j); j++ {
					v = v*8 + int(s[j]-'0')
				}
				i = j - 1
				if v > 255 {
					vague = true
				}
				b = append(b, byte(v))
				continue
			}
			if s[i] == 'x' {
				if hex(i+1) < 0 {
					return "", true, vague
				}
				if hex(i+2) < 0 || hex(i+3) >= 0 { // one digit, or more than two: readers differ
					vague = true
					v := 0
					for hex(i+1) >= 0 {
						v = v*16 + hex(i+1)
						i++
					}
					b = append(b, byte(v))
					continue
				}
				b = append(b, byte(hex(i+1)*16+hex(i+2)))
				i += 2
				continue
			}
			if s[i] == 'u' || s[i] == 'U' { // not gettext, but accepted here
				vague = true
			}
			return "", true, vague
		default:
			b = append(b, c)
		}
	}
	return string(b), false, vague
}

// ReadPo is a strict, independent reader of the PO grammar.
func ReadPo(text string) (ms []Msg, err error) {
	if strings.Contains(text, "\r") {
		return nil, fmt.Errorf("%w: carriage return", ErrPo)
	}
	if text != "" && !strings.HasSuffix(text, "\n") {
		return nil, fmt.Errorf("%w: no newline at the end", ErrPo)
	}
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	type token struct {
		key string
		val string
		cm  []string
		ln  int
	}
	var toks []token
	var cm []string
	for i, line := range lines {
		fail := func(why string) ([]Msg, error) {
			return nil, fmt.Errorf("%w: line %d %q: %s", ErrPo, i+1, line, why)
		}
		if strings.TrimSpace(line) == "" {
			continue
		}
		if line[0] == '#' {
			cm = append(cm, line)
			continue
		}
		key := ""
		rest := line
		if line[0] != '"' {
			var ok bool
			if key, rest, ok = strings.Cut(line, " "); !ok {
				return fail("no string")
			}
		}
		rest = strings.TrimSpace(rest)
		if len(rest) < 2 || rest[0] != '"' || rest[len(rest)-1] != '"' {
			return fail("not a quoted string")
		}
		s, bad, vague := Decode(rest[1 : len(rest)-1])
		if bad || vague {
			return fail("bad escape")
		}
		for j := 0; j < len(rest); j++ {
			if rest[j] < ' ' {
				return fail("control character")
			}
		}
		if key == "" {
			if len(toks) == 0 || len(cm) > 0 {
				return fail("string without a keyword")
			}
			toks[len(toks)-1].val += s
			continue
		}
		if key == "msgctxt" || key == "msgid" && (len(toks) == 0 || toks[len(toks)-1].key != "msgctxt") {
		} else if len(cm) > 0 {
			return fail("comment inside an entry")
		}
		toks = append(toks, token{key, s, cm, i + 1})
		cm = nil
	}
	if len(cm) > 0 {
		// comments at the end of the file belong to nothing
		cm = nil
	}
	seen := map[string]bool{}
	for i := 0; i < len(toks); {
		fail := func(why string) ([]Msg, error) {
			ln := len(lines)
			if i < len(toks) {
				ln = toks[i].ln
			}
			return nil, fmt.Errorf("%w: line %d: %s", ErrPo, ln, why)
		}
		m := Msg{Cmts: toks[i].cm}
		if toks[i].key == "msgctxt" {
			m.Ctxt = toks[i].val
			m.NoCtxtKey = false
			i++
		}
		if i >= len(toks) || toks[i].key != "msgid" {
			return fail("msgid expected")
		}
		m.ID = toks[i].val
		i++
		if i >= len(toks) {
			return fail("msgstr expected")
		}
		switch toks[i].key {
		case "msgstr":
			m.Str = toks[i].val
			i++
		case "msgid_plural":
			m.Plural, m.ID2 = true, toks[i].val
			i++
			for i < len(toks) && toks[i].key == fmt.Sprintf("msgstr[%d]", len(m.Forms)) {
				m.Forms = append(m.Forms, toks[i].val)
				i++
			}
			if len(m.Forms) == 0 {
				return fail("msgstr[0] expected")
			}
		default:
			return fail("msgstr expected")
		}
		if seen[m.Key()] {
			return fail("duplicate message")
		}
		seen[m.Key()] = true
		ms = append(ms, m)
	}
	return ms, nil
}
