package props

import (
	"context"
	"errors"
	"fmt"
	"math"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t/plurals"
)

var bg = context.Background()

var binOps = []string{"*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"}

// the known ways in which the evaluator differs from C; every combination is tried
var c01Variants = func() (r []struct {
	v   ref.Variant
	key []string
}) {
	for m := 1; m < 8; m++ {
		var v ref.Variant
		var key []string
		if m&1 != 0 {
			v.XorIsAnd = true
			key = append(key, "binary-xor-evaluates-as-and")
		}
		if m&2 != 0 {
			v.LTTighter = true
			key = append(key, "less-greater-bind-tighter-than-le-ge")
		}
		if m&4 != 0 {
			v.NoShort = true
			key = append(key, "no-short-circuit-division-by-zero")
		}
		r = append(r, struct {
			v   ref.Variant
			key []string
		}{v, key})
	}
	return
}()

// checkEval compares one evaluation of a well-formed expression with C.
func checkEval(c *mc.C, text string, n int64, trees *evalTrees) {
	c.Step()
	got, err := plurals.Eval(bg, text, n)
	want, werr := trees.eval(0, n)
	c.Logf("Eval(%q, n=%d) = %d, %v; C: %d, %v", text, n, got, err, want, werr)
	if agree(got, err, want, werr) {
		return
	}
	for i, kv := range c01Variants {
		w, we := trees.eval(i+1, n)
		if agree(got, err, w, we) {
			for _, k := range kv.key {
				c.Known(k, "Eval(%q, %d) = %d, %v; C gives %d", text, n, got, err, want)
			}
			return
		}
	}
	c.Fail("Eval(%q, n=%d) = %d, err %v; C gives %d (%v)", text, n, got, err, want, werr)
}

// evalTrees are the parses of one text, for C and for each variant.
type evalTrees struct {
	text string
	t    [8]*ref.Node
	err  [8]error
	done [8]bool
}

func newTrees(text string) *evalTrees { return &evalTrees{text: text} }

func (e *evalTrees) eval(i int, n int64) (int64, error) {
	var v ref.Variant
	if i > 0 {
		v = c01Variants[i-1].v
	}
	if !e.done[i] {
		e.t[i], e.err[i] = ref.Parse(e.text, v)
		e.done[i] = true
	}
	if e.err[i] != nil {
		return 0, e.err[i]
	}
	if e.t[i].HasBad() {
		return 0, ref.ErrRange
	}
	return e.t[i].Eval(n, v)
}

func agree(got int64, err error, want int64, werr error) bool {
	switch {
	case errors.Is(werr, ref.ErrUndef):
		return true // C leaves it undefined; not crashing is enough
	case werr != nil:
		return err != nil
	default:
		return err == nil && got == want
	}
}

var smallN = []int64{0, 1, 2, 3, 5, 10, 11, 21, 100, 111}
var edgeN = []int64{-1, -2, -11, 1 << 31, 1<<31 - 1, 1<<32 + 1, 1 << 53, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}

// GNUFormulas are the formulas of the gettext manual, as written there or spaced otherwise.
var GNUFormulas = []string{
	"0",
	"n != 1",
	"n>1",
	"n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2",
	"n==1 ? 0 : n==2 ? 1 : 2",
	"n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2",
	"n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2",
	"n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
	"(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2",
	"n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
	"n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3",
	"n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5",
}

// other formulas found in real catalogues
var realFormulas = []string{
	"n==1 || n%10==1 ? 0 : 1",
	"n!=0",
	"(n != 1)",
	"(n > 1)",
	"n != 1 ? 1 : 0",
	"(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : 2)",
	"n%10!=1 || n%100==11",
	"(n==0 || n==1) ? 0 : n%10==1 ? 1 : 2",
	"n==1 ? 0 : n==0 || ( n%100>1 && n%100<11) ? 1 : (n%100>10 && n%100<20 ) ? 2 : 3",
	"(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3",
	"n==1 ? 0 : n==2 ? 1 : (n>2 && n<7) ? 2 :(n>6 && n<11) ? 3 : 4",
	"(n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3",
	"(n % 10 == 1 && n % 100 != 11) ? 0 : ((n % 10 >= 2 && n % 10 <= 4 && (n % 100 < 12 || n % 100 > 14)) ? 1 : 2)",
	"n%10==1 ? 0 : n%10==2 ? 1 : 2",
	"n==1 ? 3 : n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
	"!(n==1)", "!n", "!!n", "-n<0", "~n==-1", "n&1", "(n&3)==2", "n|1", "n>>1", "1<<n%4", "n%3", "n-1?n+1:7",
}

// respell renders text with its tokens joined by sep (chosen per gap by choose).
func respell(text string, sep func(i int, a, b string) string) string {
	toks := ref.Lex(text)
	var sb strings.Builder
	for i, t := range toks {
		if i > 0 {
			s := sep(i, toks[i-1].Text, t.Text)
			if s == "" && mustSeparate(toks[i-1].Text, t.Text) {
				s = " "
			}
			sb.WriteString(s)
		}
		sb.WriteString(t.Text)
	}
	return sb.String()
}

func mustSeparate(a, b string) bool {
	l := ref.Lex(a + b)
	return !(len(l) == 2 && l[0].Text == a && l[1].Text == b)
}

func init() {
	register("C01", func(t *mc.T) {
		all := append(append([]string{}, GNUFormulas...), realFormulas...)
		top := mc.Sel(t, 1200, 12000)
		t.Explore("formulas", func(c *mc.C) {
			text := mc.Pick(c, all)
			switch c.Choose(6) {
			case 1:
				text = respell(text, func(int, string, string) string { return "" })
			case 2:
				text = respell(text, func(int, string, string) string { return " " })
			case 3:
				text = respell(text, func(int, string, string) string { return "\t" })
			case 4:
				text = "(" + text + ")"
			case 5:
				text = " " + respell(text, func(i int, _, _ string) string { return strings.Repeat(" \t"[i%2:i%2+1], i%3) }) + "  "
			}
			trees := newTrees(text)
			block := c.Choose(8)
			c.State(text, fmt.Sprint(block))
			for n := int64(block); n < int64(top); n += 8 {
				checkEval(c, text, n, trees)
			}
			if block == 0 {
				for _, n := range edgeN {
					checkEval(c, text, n, trees)
				}
			}
		}, mc.Bound("%d real formulas x 6 spellings x n in 0..%d and %d edge values", len(all), top-1, len(edgeN)))

		lits := mc.Sel(t, []string{"n", "0", "1", "2", "10"}, []string{"n", "0", "1", "2", "3", "10", "100"})
		pres := []string{"", "!", "-", "~", "+", "- -", "!!", "++", "--"}
		ns := mc.Sel(t, []int64{0, 1, 2, 3, 11}, smallN)
		evalAll := func(c *mc.C, text string, ns []int64) {
			trees := newTrees(text)
			c.State(text)
			for _, n := range ns {
				checkEval(c, text, n, trees)
			}
		}
		t.Explore("one-operator", func(c *mc.C) {
			a := mc.Pick(c, pres) + mc.Pick(c, lits)
			op := mc.Pick(c, binOps)
			b := mc.Pick(c, pres) + mc.Pick(c, lits)
			text := respell(a+" "+op+" "+b, func(int, string, string) string { return "" })
			if c.Bool() {
				text = mc.Pick(c, []string{"!", "-", "~"}) + "(" + text + ")"
			}
			evalAll(c, text, append(append([]int64{}, ns...), edgeN...))
		}, mc.Bound("prefix x operand x 18 operators x prefix x operand, optionally under a unary operator, n in %v and edges", ns))
		ops2 := []string{"n", "2", "1", "0"}
		t.Explore("two-operators", func(c *mc.C) {
			o1, o2 := mc.Pick(c, binOps), mc.Pick(c, binOps)
			a, b, d := mc.Pick(c, ops2), mc.Pick(c, ops2), mc.Pick(c, mc.Sel(t, ops2[:3], lits))
			var text string
			switch c.Choose(3) {
			case 0:
				text = a + o1 + b + o2 + d
			case 1:
				text = "(" + a + o1 + b + ")" + o2 + d
			case 2:
				text = a + o1 + "(" + b + o2 + d + ")"
			}
			evalAll(c, text, ns)
		}, mc.Bound("every pair of operators, three groupings, operands from %v", ops2))
		t.Explore("unary-binary", func(c *mc.C) {
			pre := mc.Pick(c, []string{"!", "-", "~", "+"})
			o1 := mc.Pick(c, binOps)
			pre2 := mc.Pick(c, []string{"", "!", "-", "~"})
			o2 := mc.Pick(c, binOps)
			text := respell(pre+" n "+o1+" "+pre2+" 2 "+o2+" n", func(int, string, string) string { return "" })
			evalAll(c, text, ns)
		}, mc.Bound("unary and two binary operators"))
		t.Explore("three-operators", func(c *mc.C) {
			o1, o2, o3 := mc.Pick(c, binOps), mc.Pick(c, binOps), mc.Pick(c, binOps)
			opnd := mc.Pick(c, [][4]string{{"n", "2", "1", "n"}, {"3", "n", "2", "1"}})
			evalAll(c, opnd[0]+o1+opnd[1]+o2+opnd[2]+o3+opnd[3], mc.Sel(t, []int64{1, 2}, []int64{0, 1, 2, 3, 5}))
		}, mc.Bound("every triple of operators without parentheses"))
		t.Explore("conditional", func(c *mc.C) {
			conds := []string{"n", "n-1", "!n", "n==1", "n>1&&n<5", "n%2", "n&2", "n||0", "(n)", "n?0:1", "n<<1"}
			vals := []string{"0", "1", "n", "n+1", "n%3", "(n)", "n?2:3", "n==2?1:n", "n||1", "-n"}
			text := mc.Pick(c, conds) + "?" + mc.Pick(c, vals) + ":" + mc.Pick(c, vals)
			switch c.Choose(5) {
			case 1:
				text = text + "?4:5"
			case 2:
				text = "(" + text + ")?4:5"
			case 3:
				text = "1+(" + text + ")*2"
			case 4:
				text = text + "+1"
			}
			evalAll(c, text, append([]int64{-1}, smallN[:6]...))
		}, mc.Bound("conditionals nested in every position, with conditions of any value"))
		t.Explore("literals", func(c *mc.C) {
			l := mc.Pick(c, []string{"0", "00", "7", "007", "9", "10", "2147483647", "2147483648", "4294967296",
				"9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999"})
			op := mc.Pick(c, []string{"", "==n", "+n", "-n", "%10", "/2", "*1", ">>1", "?1:0", "&n", "|n", "<n", ">=n"})
			text := l + op
			if strings.HasPrefix(l, "0") && len(l) > 1 {
				c.Abandon() // octal in C, decimal in gettext: unspecified
			}
			evalAll(c, text, append(append([]int64{}, smallN[:4]...), edgeN...))
		}, mc.Bound("literals up to and beyond 2^63"))
		t.Explore("nesting", func(c *mc.C) {
			k := mc.Pick(c, mc.Sel(t, []int{1, 2, 5, 20, 60, 130, 300}, []int{1, 2, 5, 20, 60, 130, 300, 700, 1100}))
			var text string
			switch c.Choose(5) {
			case 0:
				text = strings.Repeat("(", k) + "n" + strings.Repeat(")", k)
			case 1:
				text = strings.Repeat("!", k) + "n"
			case 2:
				text = "n" + strings.Repeat("+n", k)
			case 3:
				text = strings.Repeat("n==7?1:", k) + "n"
			case 4:
				text = strings.Repeat("- ", k) + "n"
			}
			evalAll(c, text, []int64{0, 1, 2, 7})
		}, mc.Bound("chains and nests of up to %d", mc.Sel(t, 300, 1100)))
		t.Explore("long-texts", func(c *mc.C) {
			// formulas longer than any buffer: by white space, by length of a literal, by repetition
			l := mc.Pick(c, []int{100, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 70000, mc.Sel(t, 1<<17, 1<<20)})
			ws := strings.Repeat(mc.Pick(c, []string{" ", "\t", " \t"}), l)[:l]
			var text string
			switch c.Choose(4) {
			case 0:
				text = ws + "n != 1"
			case 1:
				text = "n != 1" + ws
			case 2:
				text = "n !=" + ws + "1"
			case 3:
				text = "n == 1 ?" + ws + "0 : n >= 2 &&" + ws + "n <= 4 ? 1 : 2"
			}
			evalAll(c, text, []int64{0, 1, 2, 5})
		}, mc.Bound("formulas of up to %d characters by white space", mc.Sel(t, 1<<17, 1<<20)))
	}, "expressions outside the enumerated shapes are not covered; results C leaves undefined (signed overflow, shifts out of range) are only required not to crash; postfix ++ and -- are unspecified")
}
