// Package ref holds the reference models. It shares no code with the repository.
package ref

import (
	"errors"
	"math"
	"strconv"
)

// The reference evaluator of plural expressions: C's grammar (6.5 of the standard,
// restricted to n, decimal literals, parentheses and the operators) and 64-bit arithmetic.

type Node struct {
	Op      string // "n", "num", unary: "u+", "u-", "u~", "u!", "u++", "u--", "p++", "p--", binary, "?"
	Val     int64
	Bad     bool // literal out of range
	A, B, C *Node
}

// Variant switches on ways in which an evaluator may differ from C.
type Variant struct {
	XorIsAnd    bool // binary ^ computes &
	LTTighter   bool // < and > bind tighter than <= and >=
	NoShort     bool // all operands are evaluated
	TrailingJnk bool // text after a complete expression is ignored
}

var (
	ErrSyntax = errors.New("malformed")
	ErrDiv    = errors.New("division by zero")
	ErrUndef  = errors.New("undefined in C")
	ErrRange  = errors.New("literal out of range")
)

type Tok struct {
	Text string
	Pos  int
	Bad  bool
}

var ops = []string{"<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "++", "--",
	"+", "-", "*", "/", "%", "<", ">", "&", "|", "^", "~", "!", "?", ":", "(", ")"}

// Lex splits text in tokens by maximal munch; a character that starts no token gives a bad one.
func Lex(s string) (toks []Tok) {
next:
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == ' ' || c == '\t':
			i++
			continue
		case c == 'n':
			toks = append(toks, Tok{"n", i, false})
			i++
			continue
		case '0' <= c && c <= '9':
			j := i
			for j < len(s) && '0' <= s[j] && s[j] <= '9' {
				j++
			}
			toks = append(toks, Tok{s[i:j], i, false})
			i = j
			continue
		}
		for _, op := range ops {
			if len(s)-i >= len(op) && s[i:i+len(op)] == op {
				toks = append(toks, Tok{op, i, false})
				i += len(op)
				continue next
			}
		}
		toks = append(toks, Tok{s[i : i+1], i, true})
		i++
	}
	return
}

type parser struct {
	toks []Tok
	pos  int
	v    Variant
}

func (p *parser) peek() string {
	if p.pos < len(p.toks) && !p.toks[p.pos].Bad {
		return p.toks[p.pos].Text
	}
	return ""
}

type syntaxPanic struct{}

func levels(v Variant) [][]string {
	l := [][]string{{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}}
	if v.LTTighter {
		l = append(l, []string{"<=", ">="}, []string{"<", ">"})
	} else {
		l = append(l, []string{"<", ">", "<=", ">="})
	}
	return append(l, []string{"<<", ">>"}, []string{"+", "-"}, []string{"*", "/", "%"})
}

// Parse parses text; with TrailingJnk what follows a complete expression may be anything
// that cannot continue it.
func Parse(s string, v Variant) (root *Node, err error) {
	p := &parser{toks: Lex(s), v: v}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(syntaxPanic); ok {
				root, err = nil, ErrSyntax
				return
			}
			panic(e)
		}
	}()
	lv := levels(v)
	root = p.cond(lv)
	if p.pos < len(p.toks) {
		if !v.TrailingJnk || p.toks[p.pos].Bad {
			return nil, ErrSyntax
		}
	}
	return root, nil
}

func (p *parser) cond(lv [][]string) *Node {
	c := p.binary(lv, 0)
	if p.peek() == "?" {
		p.pos++
		a := p.cond(lv)
		if p.peek() != ":" {
			panic(syntaxPanic{})
		}
		p.pos++
		b := p.cond(lv)
		return &Node{Op: "?", A: c, B: a, C: b}
	}
	return c
}

func (p *parser) binary(lv [][]string, level int) *Node {
	if level == len(lv) {
		return p.unary(lv)
	}
	l := p.binary(lv, level+1)
loop:
	for {
		op := p.peek()
		for _, o := range lv[level] {
			if o == op {
				p.pos++
				r := p.binary(lv, level+1)
				l = &Node{Op: op, A: l, B: r}
				continue loop
			}
		}
		return l
	}
}

func (p *parser) unary(lv [][]string) *Node {
	switch op := p.peek(); op {
	case "+", "-", "~", "!", "++", "--":
		p.pos++
		return &Node{Op: "u" + op, A: p.unary(lv)}
	}
	x := p.primary(lv)
	for p.peek() == "++" || p.peek() == "--" {
		x = &Node{Op: "p" + p.peek(), A: x}
		p.pos++
	}
	return x
}

func (p *parser) primary(lv [][]string) *Node {
	t := p.peek()
	switch {
	case t == "n":
		p.pos++
		return &Node{Op: "n"}
	case t == "(":
		p.pos++
		x := p.cond(lv)
		if p.peek() != ")" {
			panic(syntaxPanic{})
		}
		p.pos++
		return x
	case t != "" && '0' <= t[0] && t[0] <= '9':
		p.pos++
		v, err := strconv.ParseInt(t, 10, 64)
		return &Node{Op: "num", Val: v, Bad: err != nil}
	}
	panic(syntaxPanic{})
}

// HasIncDec tells whether ++ or -- occurs: in C they need an object, which n is but n's
// change is not observable here, so only ++n and --n have a value one can compare.
func (x *Node) Has(op string) bool {
	if x == nil {
		return false
	}
	return x.Op == op || x.A.Has(op) || x.B.Has(op) || x.C.Has(op)
}

// HasBad tells whether some literal does not fit.
func (x *Node) HasBad() bool {
	if x == nil {
		return false
	}
	return x.Bad || x.A.HasBad() || x.B.HasBad() || x.C.HasBad()
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// Eval evaluates.
func (x *Node) Eval(n int64, v Variant) (int64, error) {
	switch x.Op {
	case "n":
		return n, nil
	case "num":
		if x.Bad {
			return 0, ErrRange
		}
		return x.Val, nil
	case "?":
		c, err := x.A.Eval(n, v)
		if err != nil {
			return 0, err
		}
		if v.NoShort {
			a, err := x.B.Eval(n, v)
			if err != nil {
				return 0, err
			}
			b, err := x.C.Eval(n, v)
			if err != nil {
				return 0, err
			}
			if c != 0 {
				return a, nil
			}
			return b, nil
		}
		if c != 0 {
			return x.B.Eval(n, v)
		}
		return x.C.Eval(n, v)
	}
	a, err := x.A.Eval(n, v)
	if err != nil {
		return 0, err
	}
	switch x.Op {
	case "u+":
		return a, nil
	case "u-":
		if a == math.MinInt64 {
			return a, ErrUndef
		}
		return -a, nil
	case "u~":
		return ^a, nil
	case "u!":
		return b2i(a == 0), nil
	case "u++", "p++":
		return a + 1, nil
	case "u--", "p--":
		return a - 1, nil
	case "&&":
		if a == 0 && !v.NoShort {
			return 0, nil
		}
	case "||":
		if a != 0 && !v.NoShort {
			return 1, nil
		}
	}
	b, err := x.B.Eval(n, v)
	if err != nil {
		return 0, err
	}
	switch x.Op {
	case "&&":
		return b2i(a != 0 && b != 0), nil
	case "||":
		return b2i(a != 0 || b != 0), nil
	case "*":
		r := a * b
		if a != 0 && (r/a != b || (a == -1 && b == math.MinInt64)) {
			return r, ErrUndef
		}
		return r, nil
	case "/", "%":
		if b == 0 {
			return 0, ErrDiv
		}
		if a == math.MinInt64 && b == -1 {
			return 0, ErrUndef
		}
		if x.Op == "/" {
			return a / b, nil
		}
		return a % b, nil
	case "+":
		r := a + b
		if (r > a) != (b > 0) && b != 0 {
			return r, ErrUndef
		}
		return r, nil
	case "-":
		r := a - b
		if (r < a) != (b > 0) && b != 0 {
			return r, ErrUndef
		}
		return r, nil
	case "<<":
		if b < 0 || b > 63 || a < 0 || a<<uint(b)>>uint(b) != a {
			return 0, ErrUndef
		}
		return a << uint(b), nil
	case ">>":
		if b < 0 || b > 63 {
			return 0, ErrUndef
		}
		return a >> uint(b), nil
	case "<":
		return b2i(a < b), nil
	case ">":
		return b2i(a > b), nil
	case "<=":
		return b2i(a <= b), nil
	case ">=":
		return b2i(a >= b), nil
	case "==":
		return b2i(a == b), nil
	case "!=":
		return b2i(a != b), nil
	case "&":
		return a & b, nil
	case "|":
		return a | b, nil
	case "^":
		if v.XorIsAnd {
			return a & b, nil
		}
		return a ^ b, nil
	}
	panic("ref: op " + x.Op)
}

// FinalToken returns the token after the longest expression prefix ("" at the end).
func Literal(v int64) string { return strconv.FormatInt(v, 10) }

// EvalText parses and evaluates.
func EvalText(s string, n int64, v Variant) (int64, error) {
	x, err := Parse(s, v)
	if err != nil {
		return 0, err
	}
	if x.HasBad() {
		return 0, ErrRange
	}
	return x.Eval(n, v)
}

// MustEval is EvalText for texts known to be good.
func MustEval(s string, n int64) int64 {
	v, err := EvalText(s, n, Variant{})
	if err != nil {
		panic(s + ": " + err.Error())
	}
	return v
}
