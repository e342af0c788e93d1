// Package xt holds the checks of xtemplate's properties.
package xt

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"verif/mc"
)

// Keyword is what a keyword specification says.
type Keyword struct {
	Name          string
	Ctxt, ID, ID2 int
}

// Param is how a run is asked for.
type Param struct {
	Input, Left, Right, Keyword, Function, Output string
	Debug                                         bool
}

// The implementation, set by the main package.
var (
	ParseKeywords func(string) ([]Keyword, error)
	Run           func(Param) error
)

// All is every check.
var All []mc.Prop

func register(id string, run func(*mc.T), assume ...string) {
	All = append(All, mc.Prop{ID: id, Run: run, Assume: assume})
}

// workDir is a folder of the running worker.
func workDir(c *mc.C) string {
	if d, ok := c.Scratch["dir"].(string); ok {
		return d
	}
	base := os.Getenv("VMC_SCRATCH")
	d, err := os.MkdirTemp(base, "w")
	if err != nil {
		panic(err)
	}
	c.Scratch["dir"] = d
	return d
}

func write(dir, name, text string) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		panic(err)
	}
	return p
}

var (
	reName   = regexp.MustCompile(`^[\pL_][\pL\d_]*$`)
	reNumber = regexp.MustCompile(`^[1-9][0-9]*$`)
	reVague  = regexp.MustCompile(`^[-+]?[0-9]+$`)
)

type specKind int

const (
	specOK specKind = iota
	specBad
	specVague
)

// parseSpec is an independent reading of the documented form.
func parseSpec(s string) (r []Keyword, kind specKind) {
	trim := func(s string) string { return strings.Trim(s, " \t\n\r") }
	bad, vague := false, false
	num := func(s string) int {
		switch {
		case reNumber.MatchString(s):
			v, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				bad = true
			}
			return int(v)
		case reVague.MatchString(s): // signs, zero and leading zeros: not documented
			if _, err := strconv.ParseInt(s, 10, 64); err != nil {
				bad = true
			}
			vague = true
		default:
			bad = true
		}
		return 0
	}
	for _, part := range strings.Split(s, ";") {
		name, pos, has := strings.Cut(part, ":")
		k := Keyword{Name: trim(name), ID: 1}
		if k.Name == "" {
			bad = true
		} else if !reName.MatchString(k.Name) {
			vague = true // what is a name is not documented
		}
		if has {
			l := strings.Split(pos, ",")
			for i := range l {
				l[i] = trim(l[i])
			}
			ctx := ""
			if strings.HasSuffix(l[0], "c") && len(l) > 1 {
				ctx, l = strings.TrimSuffix(l[0], "c"), l[1:]
				k.Ctxt = num(ctx)
			}
			switch {
			case len(l) > 2 || len(l) < 1:
				bad = true
			case len(l) == 2:
				k.ID, k.ID2 = num(l[0]), num(l[1])
			default:
				k.ID = num(l[0])
			}
		}
		r = append(r, k)
	}
	switch {
	case bad:
		return nil, specBad
	case vague:
		return r, specVague
	}
	return r, specOK
}

func init() {
	register("C29", func(t *mc.T) {
		check := func(c *mc.C, s string) {
			want, kind := parseSpec(s)
			c.State(s)
			c.Step()
			got, err := ParseKeywords(s)
			if err != nil && len(got) > 0 {
				c.Fail("%q: error %v and %d keywords", s, err, len(got))
			}
			switch kind {
			case specOK:
				if err != nil {
					c.Fail("%q is refused: %v", s, err)
				}
				if len(got) != len(want) {
					c.Fail("%q gives %v, want %v", s, got, want)
				}
				for i := range want {
					if got[i] != want[i] {
						c.Fail("%q gives %+v, want %+v", s, got, want)
					}
				}
				c.Outcome("parsed")
			case specBad:
				if err == nil {
					c.Fail("%q is accepted as %+v", s, got)
				}
				c.Outcome("refused")
			default:
				if err == nil && len(got) != len(want) {
					c.Fail("%q gives %v, want %d keywords", s, got, len(want))
				}
				c.Outcome("not documented")
			}
			c.Logf("%q: %+v %v", s, got, err)
		}
		toks := []string{"T", "N_1", "名", "1", "2", "12", "0", "c", ",", ":", ";", " ", "\t", "-", "C", "1c", "."}
		n := mc.Sel(t, 5, 6)
		t.Explore("tokens", func(c *mc.C) {
			s := ""
			for k := c.Choose(n + 1); k > 0; k-- {
				s += mc.Pick(c, toks)
			}
			check(c, s)
		}, mc.Bound("every string of up to %d of %d tokens", n, len(toks)))
		t.Explore("numbers", func(c *mc.C) {
			// what other number readers accept
			s := ""
			for k := 1 + c.Choose(4); k > 0; k-- {
				s += mc.Pick(c, []string{"0", "1", "2", "_", "x", "X", "b", "o", "e", "f", "'", ".", "+", "١", "１", "²", "Ⅱ", "\u200b", "\x00", "(", ")"})
			}
			check(c, fmt.Sprintf([]string{"T:%s", "T:%s,2", "T:1,%s", "T:%sc,2", "T:1c,%s", "T:1c,2,%s", "T:%[1]sc,%[1]s,%[1]s"}[c.Choose(7)], s))
		}, mc.Bound("every text of up to 4 of 21 pieces of numbers in every place of a number"))
		m := mc.Sel(t, 8, 9)
		t.Explore("core-tokens", func(c *mc.C) {
			s := ""
			for k := 0; k < m; k++ {
				s += mc.Pick(c, []string{"", "X", "1", "c", ",", ":", ";"})
			}
			check(c, s)
		}, mc.Bound("every string of up to %d of 6 tokens", m))
		t.Explore("lists", func(c *mc.C) {
			var parts []string
			for k := 1 + c.Choose(mc.Sel(t, 3, 4)); k > 0; k-- {
				name := mc.PickDev(c, []string{"T", "gettext", "_", "XN_64", "译", "", "T T"})
				ws := func() string { return mc.PickDev(c, []string{"", " ", "\t", "  ", "\n"}) }
				num := func() string {
					return mc.PickDev(c, []string{"1", "2", "3", "10", "999", "9223372036854775807", "9223372036854775808", "99999999999999999999", "0", "x", "", "1 2", "1c", "c", "０"})
				}
				s := ws() + name + ws()
				switch c.Choose(7) {
				case 1:
					s += ":" + ws() + num() + ws()
				case 2:
					s += ":" + ws() + num() + ws() + "," + ws() + num() + ws()
				case 3:
					s += ":" + ws() + num() + mc.PickDev(c, []string{"c", " c", "C", "cc"}) + ws() + "," + ws() + num() + ws()
				case 4:
					s += ":" + ws() + num() + mc.PickDev(c, []string{"c", ""}) + "," + ws() + num() + "," + num() + mc.PickDev(c, []string{"", "c", ","}) + ws()
				case 5:
					s += ":" + num() + "c"
				case 6:
					s += ":" + num() + "c,1,2,3"
				}
				parts = append(parts, s)
			}
			check(c, strings.Join(parts, ";")+mc.PickDev(c, []string{"", ";", " ;", ";;"}))
		}, mc.Budget(mc.Sel(t, 2, 3)), mc.Bound("lists of up to %d specifications of 7 forms with up to %d deviations in names, blanks, numbers and marks", mc.Sel(t, 3, 4), mc.Sel(t, 2, 3)))
		t.Explore("sizes", func(c *mc.C) {
			// longer than any buffer or limit, and wrong or not at the very end
			size := mc.Pick(c, []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024, 5000, mc.Sel(t, 70000, 200000)})
			end := mc.Pick(c, []string{"", ";T", ";T:2", ";T:1c,2,3", ";T:x", ";T:1,", ";1T:1,2,3,4"})
			what := c.Choose(4)
			s := ""
			switch what {
			case 0: // many keywords
				var b strings.Builder
				for i := 0; i < size; i++ {
					fmt.Fprintf(&b, "%sK%d%s", []string{"", ";"}[min(i, 1)], i, []string{"", ":2", ":1c,2", ":1,2"}[i%4])
				}
				s = b.String()
			case 1: // a long name
				s = strings.Repeat("n", size) + ":1,2"
			case 2: // white space
				ws := strings.Repeat(" ", size)
				s = ws + "T" + ws + ":" + ws + "1" + ws + "," + ws + "2" + ws
			case 3: // a long name of letters of more than a byte
				s = strings.Repeat("名", size)
			}
			check(c, s+end)
		}, mc.Workers(4), mc.Bound("up to %d keywords, names of as many letters, as much white space, with 7 endings", mc.Sel(t, 70000, 200000)))
	}, "positions with a sign, zero or leading zeros, and names that are no identifiers, are not documented: either answer is allowed")

}
