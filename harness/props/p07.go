package props

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t"
	"github.com/youthlin/t/f"
)

type piece struct {
	s    string
	args []int // arguments it reads: 0 = the next one, k = argument k explicitly
	open bool  // an incomplete directive, only as the last piece
}

type stringer struct{ s string }

func (s stringer) String() string { return "<" + s.s + ">" }

// tail is the end of a long text.
func tail(s string) string { return s[max(0, len(s)-60):] }

type ownFormat struct{}

func (ownFormat) Format(s fmt.State, v rune) { fmt.Fprintf(s, "<own %c>", v) }

type goStringer struct{ A int }

func (goStringer) GoString() string { return "<go>" }

type panicker struct{}

func (panicker) String() string { panic("in String") }

type pair struct {
	A int
	B []any
}

// oddArgs are arguments of every kind.
var oddArgs = []any{[]any{1, 2}, []any{}, []any{[]any{1}}, []any(nil), []string{"%d", "b"}, []string(nil), []int{3}, []byte("b%d"), [2]int{1, 2}, map[string]any{"b": 1, "a": []any{2}}, map[int]int(nil), (*int)(nil), (error)(nil), errors.New("e"), fmt.Errorf("w: %w", errors.New("e")), stringer{"%d"}, &stringer{"p"}, (*stringer)(nil), ownFormat{}, goStringer{1}, panicker{}, pair{1, []any{2}}, &pair{3, nil}, struct{}{}, 'x', true, uint64(1 << 63), 1e300, complex(1, 2), "(EXTRA", "%!v(MISSING)", "\x00\xff", uintptr(7), time.Duration(1500), time.Unix(0, 0).UTC(), new(any)}

func init() {
	register("C07", func(tt *mc.T) {
		pieces := []piece{{s: "a"}, {s: "é "}, {s: "%%"}, {s: "%d", args: []int{0}}, {s: "%s", args: []int{0}}, {s: "%v", args: []int{0}}, {s: "%5d", args: []int{0}},
			{s: "%-4s|", args: []int{0}}, {s: "%+v", args: []int{0}}, {s: "%#v", args: []int{0}}, {s: "%q", args: []int{0}}, {s: "%T", args: []int{0}}, {s: "% x", args: []int{0}}, {s: "%08.2f", args: []int{0}},
			{s: "%z", args: []int{0}}, {s: "%*d", args: []int{0, 0}}, {s: "%.*f", args: []int{0, 0}}, {s: "%[1]d", args: []int{1}}, {s: "%[2]v", args: []int{2}}, {s: "%[3]s", args: []int{3}},
			{s: "%[2]*[1]d", args: []int{2, 1}}, {s: "%[1]*d", args: []int{1, 0}}, {s: "\n\t\"\\", args: nil}, {s: "[1]s"}, {s: "(EXTRA"}, {s: "%!(EXTRA int=1)", args: []int{0}},
			{s: "%", open: true}, {s: "%5", open: true}, {s: "%-", open: true}, {s: "%[1]", args: []int{}, open: true}, {s: "%.", open: true}}
		var verbs []piece
		for v := rune('!'); v < 0x7f; v++ { // every character that can follow the percent sign without being part of a longer directive
			if !strings.ContainsRune("%*+-#.[0123456789", v) {
				verbs = append(verbs, piece{s: "%" + string(v), args: []int{0}})
			}
		}
		verbs = append(verbs, piece{s: "%é", args: []int{0}}, piece{s: "%\n", args: []int{0}}, piece{s: "%d", args: []int{0}}, piece{s: "%[1]w", args: []int{1}}, piece{s: "%+5w", args: []int{0}}, piece{s: "é "}, piece{s: "%%"})
		vals := []any{5, "x y", 2.5, nil}
		more := [][]any{{errors.New("e")}, {errors.New("e"), errors.New("f"), 1}, {stringer{"s"}, 3}, {[]int{1, 2}, "k"}, {true, false, true}, {int64(-3), uint8(7), "s", 1.5}, {1, 2, 3, 4, 5}, {"%d", "%s"}, {"%!(EXTRA int=1)"}, {"", ""}, {"a", "b", "c"}}
		var lists [][]any
		lists = append(lists, nil)
		for _, a := range vals {
			lists = append(lists, []any{a})
			for _, b := range vals {
				lists = append(lists, []any{a, b})
				for _, d := range vals[:3] {
					lists = append(lists, []any{a, b, d})
				}
			}
		}
		lists = append(lists, more...)
		n := mc.Sel(tt, 4, 5)
		formats := func(pieces []piece, n int) func(c *mc.C) {
			return func(c *mc.C) {
				k := c.Choose(n + 1)
				var format strings.Builder
				argNum, need := 0, 0
				open := false
				for i := 0; i < k; i++ {
					p := mc.Pick(c, pieces)
					if p.open && i < k-1 {
						c.Abandon()
					}
					format.WriteString(p.s)
					open = p.open
					for _, a := range p.args {
						if a > 0 {
							argNum = a - 1
						}
						argNum++
						need = max(need, argNum)
					}
					if p.s == "%[1]" {
						need = max(need, 1)
					}
				}
				fm := format.String()
				c.State(fm)
				if len(fm) > 0 && c.Logging() {
					c.Logf("format %q needs %d arguments", fm, need)
				}
				use := lists
				if k >= 4 {
					use = append([][]any{nil, {5}, {5, "x"}, {5, "x", 2.5}}, more...)
				}
				for li, args := range use {
					spare := li % 3
					back := make([]any, len(args)+spare)
					copy(back, args)
					for i := len(args); i < len(back); i++ {
						back[i] = "sentinel"
					}
					in := back[:len(args)]
					c.Step()
					got := f.Format(fm, in...)
					for i, v := range back {
						w := any("sentinel")
						if i < len(args) {
							w = args[i]
						}
						if fmt.Sprintf("%T%#v", v, v) != fmt.Sprintf("%T%#v", w, w) {
							c.Fail("Format(%q, %v) with capacity %d changed element %d of the caller's memory from %v to %v", fm, args, len(back), i, w, v)
						}
					}
					if len(args) == 0 {
						if got != fm {
							c.Fail("Format(%q) without arguments gives %q", fm, got)
						}
						continue
					}
					if len(args) < need {
						continue
					}
					want := fmt.Sprintf(fm, args[:need]...)
					if got != want {
						if open {
							wrong := fmt.Sprintf(fm+fmt.Sprintf("%%[%d]s", len(args)+1), append(append([]any{}, args...), "")...)
							if got == wrong {
								c.Known("incomplete-directive-at-the-end", "Format(%q, %v) gives %q, want %q", fm, args, got, want)
								continue
							}
						}
						c.Fail("Format(%q, %#v) gives %q, want %q", fm, args, got, want)
					}
				}
			}
		}
		tt.Explore("verbs", formats(verbs, mc.Sel(tt, 2, 3)), mc.Bound("formats of up to %d of %d pieces, among them every verb in ASCII", mc.Sel(tt, 2, 3), len(verbs)))
		tt.Explore("formats", formats(pieces, n), mc.Bound("formats of up to %d of %d pieces x %d argument lists x spare capacity 0-2", n, len(pieces), len(lists)))

		tt.Explore("argument-kinds", func(c *mc.C) {
			fm := mc.Pick(c, []string{"%v", "%+v", "%#v", "%d", "%s", "%q", "%x", "%T", "%p", "%t", "%e", "%c", "%U", "%z", "%[1]v", "%*d", "a%%", "%v%v", "%v %[1]v", "%[2]v", "%v %v %v"})
			need := map[string]int{"a%%": 0, "%*d": 2, "%v%v": 2, "%[2]v": 2, "%v %v %v": 3}
			args := []any{mc.Pick(c, oddArgs)}
			switch c.Choose(4) {
			case 1:
				args = append(args, mc.Pick(c, oddArgs))
			case 2:
				args = append([]any{1}, args...)
			case 3:
				args = append(args, mc.Pick(c, oddArgs), "more", 3, 4, 5, 6, 7, 8)
			}
			k, ok := need[fm]
			if !ok {
				k = 1
			}
			if len(args) < k {
				c.Abandon()
			}
			what := fmt.Sprintf("%q of %#v", fm, args)
			c.State(what)
			want := fmt.Sprintf(fm, args[:k]...)
			for i, got := range []string{f.Format(fm, args...), t.T(fm, args...), t.X("c", fm, args...), t.N(fm, "", 2, args...), t.XN64("c", "x", fm, 2, args...)} {
				c.Step()
				if got != want {
					c.Fail("Format(%s) (call %d) gives %q, want %q", what, i, got, want)
				}
			}
		}, mc.Bound("21 formats x 1 to 9 arguments, the first two of %d kinds", len(oddArgs)))
		tt.Explore("sizes", func(c *mc.C) {
			// many arguments, many verbs, long formats
			k := mc.Pick(c, []int{1, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, mc.Sel(tt, 5000, 70000)})
			surplus := mc.Pick(c, []int{0, 1, 2, 10, 300})
			var fm strings.Builder
			var args []any
			pad := mc.Pick(c, []int{0, 1, 1000})
			for i := 0; i < k; i++ {
				fmt.Fprintf(&fm, "%s%%v", strings.Repeat("x", pad))
				args = append(args, i)
			}
			for i := 0; i < surplus; i++ {
				args = append(args, "surplus")
			}
			c.State(fmt.Sprint(k, surplus, pad))
			c.Step()
			if got, want := f.Format(fm.String(), args...), fmt.Sprintf(fm.String(), args[:k]...); got != want {
				c.Fail("a format with %d verbs and %d arguments gives %q, want %q", k, len(args), tail(got), tail(want))
			}
			last := fmt.Sprintf("%%[%d]v", len(args))
			if got, want := f.Format(last, args...), fmt.Sprint(args[len(args)-1]); got != want && len(args) <= 1_000_000 {
				c.Fail("%s of %d arguments gives %q, want %q", last, len(args), got, want)
			}
		}, mc.Bound("up to %d verbs and up to 300 surplus arguments", mc.Sel(tt, 5000, 70000)))
		tt.Explore("calls", func(c *mc.C) {
			formats := []string{"", "plain", "%d", "%s and %v", "100%% %d", "%[2]v %[1]v", "%v%v%v", "%", "50%", "%[1]d", "%!", "%d%%"}
			id := mc.Pick(c, formats[1:])
			tr := mc.Pick(c, formats)
			args := mc.Pick(c, [][]any{nil, {}, {7}, {7, "x"}, {7, "x", 2.5}, {7, "x", 2.5, nil}})
			num := mc.Pick(c, []int{0, 1, 2})
			hd := header("Language: xx", "Plural-Forms: nplurals=2; plural=n != 1;")
			ms := []ref.Msg{hd}
			if tr != "" {
				ms = append(ms, ref.Msg{ID: id, Str: tr}, ref.Msg{Ctxt: "p", ID: id, Plural: true, ID2: id + "s", Forms: []string{tr, tr + "s"}})
			}
			ts := bound("d", "xx", ms...)
			s, p := id, id+"s"
			if tr != "" {
				s, p = tr, tr+"s"
			}
			pick := func(a, b string) string {
				if num == 1 {
					return a
				}
				return b
			}
			back := make([]any, len(args), len(args)+2)
			copy(back, args)
			full := back[:cap(back)]
			for i := len(args); i < len(full); i++ {
				full[i] = "sentinel"
			}
			c.State(fmt.Sprint(id, tr, args, num))
			old := t.Global()
			_ = old
			for _, x := range []struct{ what, got, text string }{
				{"T", ts.T(id, back...), s}, {"X", ts.X("", id, back...), s}, {"X other", ts.X("q", id, back...), id},
				{"XN", ts.XN("p", id, id+"s", num, back...), pick(s, p)}, {"N other", ts.XN64("zz", id, id+"s", int64(num), back...), pick(id, id+"s")}, {"XN1", ts.N1(id+"?", num, back...), id + "?"},
			} {
				c.Step()
				c.Logf("%s: %q with %v gives %q", x.what, x.text, args, x.got)
				if want := f.Format(x.text, args...); x.got != want {
					c.Fail("%s of %q (translation %q) for %d with %v gives %q, want %q formatted, %q", x.what, id, tr, num, args, x.got, x.text, want)
				}
				if len(args) == 0 && x.got != x.text {
					c.Fail("%s of %q without arguments gives %q, want %q", x.what, id, x.got, x.text)
				}
				for i, v := range full {
					if i < len(args) && v != args[i] || i >= len(args) && v != "sentinel" {
						c.Fail("%s of %q with %v changed the caller's slice: %v", x.what, x.text, args, full)
					}
				}
			}
		})
	}, "formats with fewer arguments than their verbs consume are only required not to crash or modify the slice", "fmt.Sprintf of the standard library is the oracle")
}
