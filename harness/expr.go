package main

// Plural expressions: tree, generator, printer, an independent parser and C evaluation (int64, lazy).

import (
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// Expr is an expression tree. Op is "n", "num", a unary operator "u-" etc, a binary operator, or "?:".
type Expr struct {
	Op      string
	Num     int64
	A, B, C *Expr
}

var errUndefined = errors.New("undefined")

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// flags of an evaluation
const (
	fUndef    = 1 // division by zero, negative shift: must be an error
	fOverflow = 2 // overflow, shift beyond the width: the value is not specified
)

var errUnspecified = errors.New("unspecified")

// eval evaluates as C does, lazily.
func (e *Expr) eval(n int64) (int64, error) {
	v, f := e.ev(n, false)
	switch {
	case f&fOverflow != 0:
		return 0, errUnspecified
	case f&fUndef != 0:
		return 0, errUndefined
	}
	return v, nil
}

// lazyMatters tells that an operand C does not evaluate at n would be undefined (known finding C02/lazy).
func (e *Expr) lazyMatters(n int64) bool {
	_, lf := e.ev(n, false)
	_, ef := e.ev(n, true)
	return lf&fUndef == 0 && ef&fUndef != 0
}

func (e *Expr) ev(n int64, eager bool) (int64, int) {
	switch e.Op {
	case "n":
		return n, 0
	case "num":
		return e.Num, 0
	}
	a, f := e.A.ev(n, eager)
	switch e.Op {
	case "u+", "()":
		return a, f
	case "u-":
		if a == -1<<63 {
			f |= fOverflow
		}
		return -a, f
	case "u~":
		return ^a, f
	case "u!":
		return b2i(a == 0), f
	case "&&", "||", "?:":
		needB := eager || e.Op == "&&" && a != 0 || e.Op == "||" && a == 0 || e.Op == "?:" && a != 0
		var b, c int64
		if needB {
			var bf int
			b, bf = e.B.ev(n, eager)
			f |= bf
		}
		if e.C != nil && (eager || a == 0) {
			var cf int
			c, cf = e.C.ev(n, eager)
			f |= cf
		}
		switch e.Op {
		case "&&":
			return b2i(a != 0 && b != 0), f
		case "||":
			return b2i(a != 0 || b != 0), f
		}
		if a != 0 {
			return b, f
		}
		return c, f
	}
	b, bf := e.B.ev(n, eager)
	f |= bf
	switch e.Op {
	case "*":
		if a != 0 && b != 0 && ((a*b)/b != a || a == -1 && b == -1<<63 || b == -1 && a == -1<<63) {
			f |= fOverflow
		}
		return a * b, f
	case "/", "%":
		if b == 0 {
			return 0, f | fUndef
		}
		if b == -1 {
			if a == -1<<63 {
				f |= fOverflow
			}
			if e.Op == "%" {
				return 0, f
			}
			return -a, f
		}
		if e.Op == "%" {
			return a % b, f
		}
		return a / b, f
	case "+":
		if s := a + b; (s > a) != (b > 0) && b != 0 {
			f |= fOverflow
		}
		return a + b, f
	case "-":
		if s := a - b; (s < a) != (b > 0) && b != 0 {
			f |= fOverflow
		}
		return a - b, f
	case "<<":
		if b < 0 {
			return 0, f | fUndef
		}
		if b > 63 {
			return 0, f | fOverflow
		}
		if a < 0 || (a<<uint(b))>>uint(b) != a || a<<uint(b) < 0 {
			f |= fOverflow
		}
		return a << uint(b), f
	case ">>":
		if b < 0 {
			return 0, f | fUndef
		}
		if b > 63 {
			b = 63
			f |= fOverflow
		}
		return a >> uint(b), f
	case "<":
		return b2i(a < b), f
	case ">":
		return b2i(a > b), f
	case "<=":
		return b2i(a <= b), f
	case ">=":
		return b2i(a >= b), f
	case "==":
		return b2i(a == b), f
	case "!=":
		return b2i(a != b), f
	case "&":
		return a & b, f
	case "^":
		return a ^ b, f
	case "|":
		return a | b, f
	}
	panic("op " + e.Op)
}

var prec = map[string]int{"?:": 1, "||": 2, "&&": 3, "|": 4, "^": 5, "&": 6, "==": 7, "!=": 7,
	"<": 8, ">": 8, "<=": 8, ">=": 8, "<<": 9, ">>": 9, "+": 10, "-": 10, "*": 11, "/": 11, "%": 11,
	"u+": 12, "u-": 12, "u!": 12, "u~": 12, "n": 13, "num": 13, "()": 13}

// print writes the tree with only the parentheses C needs, plus random redundant ones and blanks.
type printer struct {
	r     *rand.Rand
	blank int // 0 none, 1 normal, 2 random
	extra int // chance in 100 of redundant parentheses
	sb    strings.Builder
	last  string
}

func (p *printer) tok(s string) {
	gap := false
	if p.last != "" {
		l, f := p.last[len(p.last)-1], s[0]
		// tokens that would merge into another token
		if l == '+' && f == '+' || l == '-' && f == '-' {
			gap = true
		}
		if (isWord(l) && isWord(f)) || strings.ContainsRune("<>=!&|", rune(l)) && strings.ContainsRune("<>=!&|", rune(f)) {
			gap = true
		}
	}
	switch p.blank {
	case 1:
		gap = gap || p.last != "" && p.last != "(" && s != ")" && p.last != "!" && p.last != "~"
		if gap {
			p.sb.WriteByte(' ')
		}
	case 2:
		if gap || p.r.Intn(3) == 0 {
			p.sb.WriteString([]string{" ", "  ", "\t", " \t "}[p.r.Intn(4)])
		}
	default:
		if gap {
			p.sb.WriteByte(' ')
		}
	}
	p.sb.WriteString(s)
	p.last = s
}

func isWord(b byte) bool { return b == 'n' || b >= '0' && b <= '9' }

func relClass(op string) int {
	switch op {
	case "<", ">":
		return 1
	case "<=", ">=":
		return 2
	}
	return 0
}

func (p *printer) expr(e *Expr, min int, parentOp string) {
	pr := prec[e.Op]
	paren := pr < min
	// known finding C02/relational-precedence: never rely on mixing < > with <= >= unparenthesised
	if rc := relClass(e.Op); rc != 0 && relClass(parentOp) != 0 && rc != relClass(parentOp) {
		paren = true
	}
	if p.extra > 0 && p.r.Intn(100) < p.extra {
		paren = true
	}
	if paren {
		p.tok("(")
		defer p.tok(")")
	}
	switch e.Op {
	case "n":
		p.tok("n")
	case "num":
		p.tok(strconv.FormatInt(e.Num, 10))
	case "()":
		p.tok("(")
		p.expr(e.A, 0, "")
		p.tok(")")
	case "u+", "u-", "u!", "u~":
		p.tok(e.Op[1:])
		p.expr(e.A, 12, e.Op)
	case "?:":
		p.expr(e.A, 2, e.Op)
		p.tok("?")
		p.expr(e.B, 1, e.Op)
		p.tok(":")
		p.expr(e.C, 1, e.Op)
	default:
		p.expr(e.A, pr, e.Op)
		p.tok(e.Op)
		p.expr(e.B, pr+1, e.Op)
	}
}

func (e *Expr) print(r *rand.Rand, blank, extra int) string {
	p := &printer{r: r, blank: blank, extra: extra}
	p.expr(e, 0, "")
	return p.sb.String()
}

// genExpr makes a random tree. No "^" (known finding C02/xor); literals stay in int64.
func genExpr(r *rand.Rand, depth int) *Expr {
	if depth <= 0 || r.Intn(6) == 0 {
		if r.Intn(2) == 0 {
			return &Expr{Op: "n"}
		}
		nums := []int64{0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 19, 20, 63, 99, 100, 1000, 1 << 31, 1<<63 - 1}
		if r.Intn(3) > 0 {
			nums = nums[:14]
		}
		return &Expr{Op: "num", Num: nums[r.Intn(len(nums))]}
	}
	switch r.Intn(10) {
	case 0, 1:
		ops := []string{"u!", "u!", "u-", "u~", "u+"}
		return &Expr{Op: ops[r.Intn(len(ops))], A: genExpr(r, depth-1)}
	case 2:
		return &Expr{Op: "?:", A: genExpr(r, depth-1), B: genExpr(r, depth-1), C: genExpr(r, depth-1)}
	default:
		ops := []string{"*", "/", "%", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "==", "!=", "&", "|", "&&", "||", "&&", "||"}
		return &Expr{Op: ops[r.Intn(len(ops))], A: genExpr(r, depth-1), B: genExpr(r, depth-1)}
	}
}

// has tells whether the tree uses op.
func (e *Expr) has(op string) bool {
	if e == nil {
		return false
	}
	return e.Op == op || e.A.has(op) || e.B.has(op) || e.C.has(op)
}

func (e *Expr) size() int {
	if e == nil {
		return 0
	}
	return 1 + e.A.size() + e.B.size() + e.C.size()
}

// --- an independent recursive descent parser of C expressions over n ---

type eparser struct {
	toks []string
	i    int
}

func lexExpr(s string) ([]string, error) {
	var out []string
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\t':
			i++
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			if i+1 < len(s) {
				switch two := s[i : i+2]; two {
				case "<<", ">>", "<=", ">=", "==", "!=", "&&", "||":
					out = append(out, two)
					i += 2
					continue
				}
			}
			if !strings.ContainsRune("n()?:*/%+-<>!&^|~", rune(ch)) {
				return nil, fmt.Errorf("lex %q", ch)
			}
			out = append(out, s[i:i+1])
			i++
		}
	}
	return out, nil
}

func parseExpr(s string) (e *Expr, err error) {
	toks, err := lexExpr(s)
	if err != nil {
		return nil, err
	}
	p := &eparser{toks: toks}
	defer func() {
		if x := recover(); x != nil {
			e, err = nil, fmt.Errorf("parse: %v", x)
		}
	}()
	e = p.ternary()
	if p.i != len(toks) {
		return nil, fmt.Errorf("trailing %q", toks[p.i:])
	}
	return e, nil
}

func mustParseExpr(s string) *Expr {
	e, err := parseExpr(s)
	if err != nil {
		panic("harness: " + s + ": " + err.Error())
	}
	return e
}

func (p *eparser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}

func (p *eparser) ternary() *Expr {
	a := p.binary(2)
	if p.peek() != "?" {
		return a
	}
	p.i++
	b := p.ternary()
	if p.peek() != ":" {
		panic("want :")
	}
	p.i++
	return &Expr{Op: "?:", A: a, B: b, C: p.ternary()}
}

func (p *eparser) binary(min int) *Expr {
	if min > 11 {
		return p.unary()
	}
	a := p.binary(min + 1)
	for prec[p.peek()] == min && p.peek() != "n" && p.peek() != "" {
		op := p.peek()
		p.i++
		a = &Expr{Op: op, A: a, B: p.binary(min + 1)}
	}
	return a
}

func (p *eparser) unary() *Expr {
	t := p.peek()
	p.i++
	switch t {
	case "+", "-", "!", "~":
		return &Expr{Op: "u" + t, A: p.unary()}
	case "n":
		return &Expr{Op: "n"}
	case "(":
		e := p.ternary()
		if p.peek() != ")" {
			panic("want )")
		}
		p.i++
		return &Expr{Op: "()", A: e}
	case "":
		panic("end")
	}
	v, err := strconv.ParseInt(t, 10, 64)
	if err != nil {
		panic(err)
	}
	return &Expr{Op: "num", Num: v}
}
