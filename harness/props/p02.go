package props

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
)

// c02Check evaluates any text: a complete expression must give C's value (or fail where C
// cannot evaluate it), anything else an error.
func c02Check(c *mc.C, text string, n int64) {
	c.Step()
	got, err := plurals.Eval(bg, text, n)
	c.Logf("Eval(%q, n=%d) = %d, err=%v", text, n, got, err)
	tree, perr := ref.Parse(text, ref.Variant{})
	if perr == nil {
		trees := newTrees(text)
		want, werr := trees.eval(0, n)
		ok := agree(got, err, want, werr)
		for i := 0; !ok && i < len(c01Variants); i++ {
			w, we := trees.eval(i+1, n)
			ok = agree(got, err, w, we)
		}
		if werr == ref.ErrDiv || werr == ref.ErrRange {
			if err == nil {
				c.Fail("Eval(%q, n=%d) = %d without an error; want an error: %v", text, n, got, werr)
			}
			return
		}
		if !ok && err != nil && !tree.Has("p++") && !tree.Has("p--") {
			c.Fail("Eval(%q, n=%d): error %v for a well-formed expression worth %d", text, n, err, want)
		}
		return
	}
	if err != nil {
		return
	}
	// malformed, yet a value
	if x, e := ref.Parse(text, ref.Variant{TrailingJnk: true}); e == nil && !x.HasBad() {
		for i := -1; i < len(c01Variants); i++ {
			v := ref.Variant{}
			if i >= 0 {
				v = c01Variants[i].v
			}
			v.TrailingJnk = true
			x, e = ref.Parse(text, v)
			if e != nil {
				continue
			}
			w, we := x.Eval(n, v)
			if agree(got, err, w, we) {
				c.Known("text-after-complete-expression-ignored", "Eval(%q, %d) = %d without an error", text, n, got)
				return
			}
		}
	}
	c.Fail("Eval(%q, n=%d) = %d without an error, but the text is malformed", text, n, got)
}

func init() {
	register("C02", func(t *mc.T) {
		t.Explore("token-sequences", func(c *mc.C) {
			toks := []string{"n", "1", "0", "(", ")", "?", ":", "-", "!", "&&", "==", "%", "=", "&", "<<", "++", "$", "x"}
			k := 1 + c.Choose(mc.Sel(t, 4, 5))
			parts := make([]string, k)
			for i := range parts {
				parts[i] = mc.Pick(c, toks)
			}
			text := strings.Join(parts, " ")
			c.State(text)
			c02Check(c, text, 2)
		}, mc.Bound("every sequence of up to %d of 18 tokens", mc.Sel(t, 4, 5)))
		alpha := mc.Sel(t, []string{"n", "1", " ", "\t", "\n", "(", ")", "?", ":", "!", "=", "&", "|", "<", "+", "-", "/", "%", "x", "\x00", "é", "\xff"},
			[]string{"n", "0", "1", " ", "\t", "\n", "\r", "(", ")", "?", ":", "!", "=", "&", "|", "<", ">", "+", "-", "*", "/", "%", "^", "~", ";", "x", ".", "\x00", "é", "\xff"})
		t.Explore("byte-strings", func(c *mc.C) {
			k := c.Choose(5)
			var sb strings.Builder
			for i := 0; i < k; i++ {
				sb.WriteString(mc.Pick(c, alpha))
			}
			c.State(sb.String())
			c02Check(c, sb.String(), 1)
		}, mc.Bound("every string of up to 4 of %d characters", len(alpha)))
		t.Explore("single-edits", func(c *mc.C) {
			text := mc.Pick(c, append(append([]string{}, GNUFormulas...), realFormulas...))
			pos := c.Choose(len(text) + 1)
			switch c.Choose(3) {
			case 0: // truncate
				text = text[:pos]
			case 1: // delete
				if pos == len(text) {
					c.Abandon()
				}
				text = text[:pos] + text[pos+1:]
			case 2:
				text = text[:pos] + mc.Pick(c, []string{" ", "n", "1", "(", ")", "?", ":", "=", "&", "!", ";", "x", "\n", "\t", "\r", "\v", "\u00a0", "@", "/0", "99999999999999999999"}) + text[pos:]
			}
			c.State(text)
			for _, n := range []int64{0, 1, 5} {
				c02Check(c, text, n)
			}
		}, mc.Bound("every truncation, deletion and insertion in %d real formulas", len(GNUFormulas)+len(realFormulas)))
		alike := map[string][]string{"n": {"N", "\uff4e", "\u0578", "i", "count", "n()", "nn", "$n", "%n", "n.", "\u207f"}, "0": {"\uff10", "\u0660", "0x0", "00x", "0.0", "O", "0L", "0u"}, "1": {"\uff11", "\u0661", "\u00b9", "0x1", "1.0", "1e0", "1L", "1_0", "'1'", "I", "l", "one", "true"}, "2": {"\uff12", "\u0662", "\u00b2", "2.", "1_2", "two"},
			"=": {"\uff1d", "is", "\u2261", "=="}, "!": {"\uff01", "not ", "\u00ac", "<"}, "&": {"\uff06", " and ", "&amp;", "and"}, "|": {"\uff5c", " or ", "\u00a6"}, "?": {"\uff1f", "then"}, ":": {"\uff1a", "else", "\u2236", ";"}, "%": {"\uff05", "mod", "\u066a", "%%"}, "<": {"\uff1c", "&lt;", "\u2039", "\u2264"}, ">": {"\uff1e", "&gt;", "\u2265"}, "(": {"\uff08", "[", "{"}, ")": {"\uff09", "]", "}"}, " ": {"\u3000", "\u00a0", "\u200b", "\ufeff", "\u2028", "\v", "\f", "\\n", "/**/", "//"}, "-": {"\u2212", "\u2013", "\uff0d"}, "+": {"\uff0b"}, "*": {"\u00d7", "\u22c5", "\uff0a", "**"}, "/": {"\u00f7", "\uff0f", "//"}}
		t.Explore("look-alikes", func(c *mc.C) {
			// characters that other notations have for the same thing
			text := mc.Pick(c, append(append([]string{"n", "n + 1", "n * 2", "n / 2", "-n", "n - 1", "( n )", "n ? 1 : 0", "n>=2"}, GNUFormulas...), realFormulas...))
			pos := c.Choose(len(text))
			with, ok := alike[text[pos:pos+1]]
			if !ok {
				c.Abandon()
			}
			w := mc.Pick(c, with)
			if c.Bool() {
				text = strings.ReplaceAll(text, text[pos:pos+1], w)
			} else {
				text = text[:pos] + w + text[pos+1:]
			}
			c.State(text)
			for _, n := range []int64{0, 1, 5} {
				c02Check(c, text, n)
			}
		}, mc.Bound("every character of %d real formulas, alone and everywhere, as in other notations (full-width, other digits, words, entities, other numbers, other blanks)", 9+len(GNUFormulas)+len(realFormulas)))
		t.Explore("zero-and-range", func(c *mc.C) {
			text := mc.Pick(c, []string{"n/0", "n%0", "1/(n-n)", "n%(n-2)", "0/0", "n?1/0:2", "n==1?0:n/0", "9223372036854775808", "n+99999999999999999999",
				"n==18446744073709551616", "1<<64", "1<<-1", "n>>70", "n<<(0-n)", "-9223372036854775808", "(0-9223372036854775807-1)/-1", "(0-9223372036854775807-1)%-1"})
			n := mc.Pick(c, []int64{0, 1, 2, -1})
			c.State(text, fmt.Sprint(n))
			c02Check(c, text, n)
		})
		t.Explore("negative-shift", func(c *mc.C) {
			// shifting by a negative number cannot be evaluated
			l := mc.Pick(c, []string{"n", "1", "0", "(n+1)", "n<<1", "-1", "9223372036854775807"})
			op := mc.Pick(c, []string{"<<", ">>"})
			r := mc.Pick(c, []string{"-1", "(n-4)", "(0-n-1)", "~n", "-64", "-63", "(0-9223372036854775807)"})
			text := mc.Pick(c, []string{"%s", "(%s)", "1+(%s)", "!(%s)", "(%s)?1:0"})
			text = strings.Replace(text, "%s", l+op+r, 1)
			c.State(text)
			for _, n := range []int64{0, 1, 3} {
				c.Step()
				if got, err := plurals.Eval(bg, text, n); err == nil {
					c.Fail("Eval(%q, n=%d) = %d without an error, but a negative shift cannot be evaluated", text, n, got)
				}
			}
			c.Logf("%q is an error for n in 0,1,3", text)
		}, mc.Bound("7 operands x 2 shifts x 7 negative counts x 5 surroundings"))
		t.Explore("deep", func(c *mc.C) {
			k := mc.Pick(c, mc.Sel(t, []int{10, 100, 300}, []int{10, 100, 300, 1000}))
			unit := mc.Pick(c, []string{"(", "!", "n?", "n?1:", "-", "n+", "((", "n&&", ")", "?", ":", "n ", "(n", "++", "%"})
			text := strings.Repeat(unit, k)
			if c.Bool() {
				text += "n"
			}
			c.State(text)
			c02Check(c, text, 1)
		}, mc.Bound("15 units repeated up to %d times", mc.Sel(t, 300, 1000)))
		t.Explore("catalogue", func(c *mc.C) {
			exp := mc.Pick(c, []string{"", "n)", ")", "n!", "x", "n/0", "n%0", "1/0", "99999999999999999999", "n==", "n?1", "-1", "0-n", "n-5", "n*100", "@", "n==1?0", "((((", "é", "n = 1", "9223372036854775807", "-9223372036854775807", "4294967296", "n<<32"})
			header := mc.Pick(c, []string{"nplurals=2; plural=" + exp + ";", "nplurals=2; plural=" + exp, "nplurals=1; plural=" + exp + ";",
				"plural=" + exp + ";", "nplurals=x; plural=" + exp + ";", "nplurals=2", "nplurals=0; plural=" + exp + ";", "nplurals=-1; plural=" + exp + ";",
				"nplurals=99999999999999999999; plural=" + exp + ";", exp, "nplurals=2; plural=" + exp + "; " + exp + ";", ";;"})
			f := new(translator.File)
			f.AddEntry(&translator.Entry{MsgStr: "Language: xx\nPlural-Forms: " + header + "\n"})
			f.AddEntry(&translator.Entry{MsgID: "a", MsgID2: "b", IsPlural: true, MsgStrN: []string{"A", "B"}})
			c.State(header)
			for _, n := range []int64{0, 1, 2, 5, -1} {
				c.Step()
				got := f.XN64("", "a", "b", n)
				src := "b"
				if n == 1 {
					src = "a"
				}
				c.Logf("Plural-Forms: %q n=%d -> %q", header, n, got)
				// only a complete expression that selects a form may give a translation
				trans := ""
				for _, s := range []string{";", ""} {
					head := "nplurals=2; plural="
					if np := strings.Index(header, "plural="); np >= 0 && strings.HasPrefix(header, "nplurals=1;") {
						head = "nplurals=1; plural="
					}
					if header == head+exp+s {
						if v, err := ref.EvalText(exp, n, ref.Variant{}); err == nil && v >= 0 && v < int64(head[len("nplurals=")]-'0') {
							trans = []string{"A", "B"}[v]
						}
					}
				}
				if got == src && trans == "" || got == trans && trans != "" {
					continue
				}
				if got == "A" || got == "B" {
					if x, err := ref.Parse(exp, ref.Variant{TrailingJnk: true}); err == nil {
						if _, err := ref.Parse(exp, ref.Variant{}); err != nil {
							if v, err := x.Eval(n, ref.Variant{}); err == nil && v >= 0 && v < 2 && got == []string{"A", "B"}[v] {
								c.Known("text-after-complete-expression-ignored", "Plural-Forms %q, n=%d: %q", header, n, got)
								continue
							}
						}
					}
					if exp == "" || strings.Count(header, "plural=") > 1 || header == exp || strings.HasSuffix(header, exp+"; "+exp+";") {
						continue // a header of two statements: what it means is not defined
					}
				}
				c.Fail("Plural-Forms %q: lookup for n=%d gives %q (source form %q, rule selects %q)", header, n, got, src, trans)
			}
		}, mc.Bound("24 bad or odd expressions in 12 header shapes, n in 0,1,2,5,-1"))
	}, "expressions longer than the bounds are covered only by repetition and by single edits of real formulas")

	register("C03", func(t *mc.T) {
		alpha := []string{"n!=1", "n>1", "n==1?0:n==2?1:2", "n%10==1&&n%100!=11?0:n!=0?1:2", "(n==1)?0:1", "n+1", "n==2?3:n", "n?", ")n", "1/n", "n  !=\t1",
			"n&&n>2||n==0", "!n", "x", "n n", "(((n)))", "n%10>=2&&(n%100<10||n%100>=20)", "", "1>n?2:1<n?3:4", "99999999999999999999"}
		depth := mc.Sel(t, 3, 4)
		if !t.Quick() {
			alpha = alpha[:14]
		}
		t.Explore("cold-histories", func(c *mc.C) {
			k := len(alpha)
			ids := []string{}
			for i := 0; i < depth-1; i++ {
				ids = append(ids, strconv.Itoa(c.Choose(k)))
			}
			// the last step enumerates all texts, each in a process of its own history prefix
			prefix := make([]string, 0, depth)
			for _, s := range ids {
				i, _ := strconv.Atoi(s)
				prefix = append(prefix, alpha[i])
			}
			last := c.Choose(k)
			prefix = append(prefix, alpha[last])
			c.State(strings.Join(prefix, "\x01"))
			out, err := exec.Command(os.Args[0], append([]string{"-evalseq"}, prefix...)...).Output()
			if err != nil {
				c.Fail("history %q: the process failed: %v", prefix, err)
			}
			lines := strings.Split(strings.TrimSpace(string(out)), "\n")
			c.Logf("fresh process, history %q -> %s", prefix, strings.Join(lines, " | "))
			if len(lines) != len(prefix)*len(evalSeqN) {
				c.Fail("history %q: %d answers: %s", prefix, len(lines), out)
			}
			for i, text := range prefix {
				for j, n := range evalSeqN {
					c.Step()
					got := lines[i*len(evalSeqN)+j]
					want := c03Want(text, n)
					if got != want {
						c.Fail("history %q: evaluation %d, %q at n=%d, gives %s; evaluated alone it gives %s", prefix, i+1, text, n, got, want)
					}
				}
			}
		}, mc.Bound("every sequence of %d of %d expressions, each in a fresh process, n in %v", depth, len(alpha), evalSeqN))
		warm := append(append(append([]string{}, alpha...), GNUFormulas...), "1 0", "10", "n = = 1", "n==1", "n ==1", "n==10", "n==1 0", "n==2", "n==12", "n==1?1:0",
			"n==1?0:1", "n&1", "n& 1", "n&&1", "n& &1", "-n", "- n", "(n)", "( n )", "((n", "n))", "N", "n\n", "\nn", "n==1?2:3:4", "01", "1", "0", "1n", "n1")
		warmN := []int64{0, 1, 2, 5, 11, 101}
		t.Explore("warm-pairs", func(c *mc.C) {
			a, b := mc.Pick(c, warm), mc.Pick(c, warm)
			c.State(a, b)
			for _, n1 := range warmN[:4] {
				for _, n2 := range warmN[:4] {
					for _, e := range []struct {
						text string
						n    int64
					}{{a, n1}, {b, n2}, {a, n2}, {a, n1}} {
						c.Step()
						got := evalString(e.text, e.n)
						if want := c03Want(e.text, e.n); got != want {
							c.Fail("after evaluating %q and %q before: Eval(%q,%d) gives %s; evaluated alone it gives %s", a, b, e.text, e.n, got, want)
						}
					}
				}
			}
			c.Logf("%q (n1) %q (n2) %q (n2) %q (n1) for n1,n2 in %v", a, b, a, a, warmN[:4])
		}, mc.Bound("every ordered pair of %d texts in one process, every pair of n", len(warm)))
		t.Explore("crowd", func(c *mc.C) {
			// many other expressions in between, more than any plausible cache holds
			k := mc.Pick(c, mc.Sel(t, []int{1, 20, 300, 1500}, []int{1, 20, 300, 1500, 6000}))
			bad := c.Bool()
			for i := 0; i < k; i++ {
				text := fmt.Sprintf("n==%d?%d:n%%%d", i+3, i, i+2)
				if bad {
					text = fmt.Sprintf("n==%d?%d:", i+3, i)
				}
				c.Step()
				got := evalString(text, 7)
				want := "error"
				if !bad {
					want = strconv.FormatInt(ref.MustEval(text, 7), 10)
				}
				if got != want {
					c.Fail("expression %d of a long sequence: Eval(%q,7) gives %s, want %s", i, text, got, want)
				}
			}
			for _, text := range warm {
				for _, n := range warmN {
					c.Step()
					if got, want := evalString(text, n), c03Want(text, n); got != want {
						c.Fail("after %d other expressions: Eval(%q,%d) gives %s; evaluated alone it gives %s", k, text, n, got, want)
					}
				}
			}
			c.State(fmt.Sprint(k, bad))
		}, mc.Serial(), mc.Bound("up to %d other expressions, good or bad, before each of %d texts", mc.Sel(t, 1500, 6000), len(warm)))
		t.Explore("spacing", func(c *mc.C) {
			text := mc.Pick(c, append(append([]string{}, GNUFormulas...), "n==2?3:n", "n&&n>2||n==0", "1/n", "n?", ")n", "!n", "n+1*2"))
			gaps := len(ref.Lex(text)) - 1
			fill := mc.Pick(c, []string{" ", "\t", "  ", " \t "})
			base := mc.Pick(c, []string{"", " "})
			at := c.Choose(gaps+2) - 1 // -1: before everything
			mod := respell(text, func(i int, _, _ string) string {
				if i-1 == at {
					return fill
				}
				return base
			})
			if at == -1 {
				mod = fill + mod
			}
			if at == gaps {
				mod += fill
			}
			plain := respell(text, func(int, string, string) string { return "" })
			c.State(mod)
			for n := int64(0); n < 25; n++ {
				c.Step()
				a, ea := plurals.Eval(bg, plain, n)
				b, eb := plurals.Eval(bg, mod, n)
				if (ea == nil) != (eb == nil) || ea == nil && a != b {
					c.Fail("Eval(%q,%d) = %d,%v but Eval(%q,%d) = %d,%v", plain, n, a, ea, mod, n, b, eb)
				}
			}
			c.Logf("%q like %q for n in 0..24", mod, plain)
		}, mc.Bound("19 expressions, every gap filled with blanks or tabs"))
		t.Explore("contexts", func(c *mc.C) {
			// the context an evaluation is given has no part in its result
			null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
			if err != nil {
				c.Fail("%v", err)
			}
			defer null.Close()
			defer func(o *os.File) { os.Stdout = o }(os.Stdout)
			os.Stdout = null // where the debugging context prints
			type key string
			live, cancel := context.WithCancel(context.Background())
			defer cancel()
			menu := []context.Context{plurals.DebugCtx(bg), context.TODO(), context.WithValue(bg, key("debug"), true), live, plurals.DebugCtx(plurals.DebugCtx(live))}
			a, b := mc.Pick(c, warm), mc.Pick(c, warm[:mc.Sel(t, 24, len(warm))])
			ctx := mc.Pick(c, menu)
			c.State(a, b)
			for _, n := range warmN[:4] {
				for _, e := range []string{a, b, a} {
					c.Step()
					got := "error"
					if v, err := plurals.Eval(ctx, e, n); err == nil {
						got = strconv.FormatInt(v, 10)
					}
					if want := c03Want(e, n); got != want {
						c.Fail("evaluating %q with another context gives %s at n=%d; evaluated alone it gives %s", e, got, n, want)
					}
					if got, want := evalString(e, n), c03Want(e, n); got != want {
						c.Fail("after evaluating %q with another context: Eval(%q,%d) gives %s; evaluated alone it gives %s", e, e, n, got, want)
					}
				}
			}
		}, mc.Serial(), mc.Bound("pairs of %d texts in 5 contexts, among them the debugging one", len(warm)))
	}, "histories longer than the bound are not covered")
}

var evalSeqN = []int64{0, 1, 2, 5}

var c03Alone sync.Map

// c03Want is what the text gives when it is the only thing a process ever evaluates.
func c03Want(text string, n int64) string {
	key := text + "\x00" + strconv.FormatInt(n, 10)
	if v, ok := c03Alone.Load(key); ok {
		return v.(string)
	}
	out, err := exec.Command(os.Args[0], "-evalone", strconv.FormatInt(n, 10), text).Output()
	v := strings.TrimSpace(string(out))
	if err != nil {
		v = "process failed"
	}
	c03Alone.Store(key, v)
	return v
}

// EvalOne evaluates one text for one n.
func EvalOne(n, text string) {
	i, _ := strconv.ParseInt(n, 10, 64)
	v, err := plurals.Eval(bg, text, i)
	if err != nil {
		fmt.Println("error")
	} else {
		fmt.Println(v)
	}
}

func evalString(text string, n int64) string {
	v, err := plurals.Eval(bg, text, n)
	if err != nil {
		return "error"
	}
	return strconv.FormatInt(v, 10)
}

// EvalSeq evaluates the texts in order in this process.
func EvalSeq(texts []string) {
	for _, s := range texts {
		for _, n := range evalSeqN {
			v, err := plurals.Eval(bg, s, n)
			if err != nil {
				fmt.Println("error")
			} else {
				fmt.Println(v)
			}
		}
	}
}
