package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/youthlin/t/plurals"
)

func init() {
	register(&Property{ID: "C02",
		Rule: "Expression trees over every operator of the grammar are generated, printed with minimal, random redundant or no blanks and parentheses, and evaluated at edge and random counts; mutations of real languages' rules and all their respellings likewise; truncated, unlexable and undefined expressions must give an error. The oracle is an independent lazy int64 evaluator of the generated tree. Non-trivial: distinct (expression text, count) whose value C defines.",
		Assumptions: []string{
			"values are int64 (n may be negative; the repository's tests pin -n and ~n as signed)",
			"overflowing evaluations and shifts beyond 63 are only required not to crash",
			"generators avoid the four recorded known findings (xor, trailing text, < > mixed with <= >= without parentheses, undefined operands C would not evaluate), which have probes of their own",
		},
		Sections: []Section{
			{Name: "random", Quick: 36000, Thorough: 600000, Fn: c02random, Need: []string{"values compared", "undefined evaluations"}},
			{Name: "wellknown", Quick: 26 * 8, Thorough: 26 * 60, Fn: c02wellknown, Need: []string{"rule values compared"}},
			{Name: "mutants", Quick: 16000, Thorough: 200000, Fn: c02mutants},
			{Name: "pairs", Quick: 21 * 21, Thorough: 21 * 21, Fn: c02pairs},
			{Name: "deep", Quick: 60, Thorough: 600, Fn: c02deep, Need: []string{"deep expressions"}},
			{Name: "regrouped", Quick: 9000, Thorough: 120000, Fn: c02regrouped, Need: []string{"regrouped rules"}},
			{Name: "malformed", Quick: 16000, Thorough: 160000, Fn: c02malformed, Need: []string{"malformed expressions"}},
			{Name: "garbage", Quick: 6000, Thorough: 80000, Fn: c02garbage},
			{Name: "known", Quick: len(c02probes), Thorough: len(c02probes), Probe: true, Fn: c02known},
		}})
}

// evalCheck evaluates text at n and compares with the tree.
func evalCheck(c *C, e *Expr, text string, n int64) {
	if e.lazyMatters(n) {
		c.Count("skipped: laziness matters", 1)
		plurals.Eval(context.Background(), text, n)
		return
	}
	want, werr := e.eval(n)
	got, gerr := plurals.Eval(context.Background(), text, n)
	switch {
	case errors.Is(werr, errUnspecified):
		c.Count("unspecified evaluations", 1)
	case werr != nil:
		c.Count("undefined evaluations", 1)
		c.Distinct(text, fmt.Sprint(n))
		if gerr == nil {
			c.Fail("undefined", "Eval(%q,%d)=%d without error, but the evaluation is undefined", text, n, got)
		}
	case gerr != nil:
		c.Fail("error", "Eval(%q,%d) failed: %v; want %d", text, n, gerr, want)
	case got != want:
		c.Fail("value", "Eval(%q,%d)=%d want %d", text, n, got, want)
	default:
		c.Count("values compared", 1)
		c.Distinct(text, fmt.Sprint(n))
	}
}

func c02random(c *C) {
	e := genExpr(c.Rand, 1+c.Intn(5))
	for style := 0; style < 3; style++ {
		extra := 0
		if c.Intn(2) == 0 {
			extra = 1 + c.Intn(40)
		}
		text := e.print(c.Rand, style, extra)
		if c.Intn(10) == 0 {
			text = " " + text + "  "
		}
		if style == 1 {
			c.Sample("%s", text)
		}
		for i := 0; i < 7; i++ {
			evalCheck(c, e, text, count(c.Rand))
		}
	}
}

func c02wellknown(c *C) {
	wk := wellKnown[c.Index%len(wellKnown)]
	e := mustParseExpr(wk.rule)
	text := wk.rule
	if c.Index >= len(wellKnown) {
		text = e.print(c.Rand, c.Intn(3), c.Intn(3)*15)
	}
	ns := append([]int64(nil), interestingN...)
	for i := int64(0); i < 130; i++ {
		ns = append(ns, i)
	}
	for i := 0; i < 20; i++ {
		ns = append(ns, count(c.Rand))
	}
	for _, n := range ns {
		evalCheck(c, e, text, n)
		c.Count("rule values compared", 1)
	}
}

// c02mutants changes a token of a real rule.
func c02mutants(c *C) {
	wk := wellKnown[c.Intn(len(wellKnown))]
	toks, _ := lexExpr(wk.rule)
	for k := 0; k < 1+c.Intn(2); k++ {
		i := c.Intn(len(toks))
		switch {
		case toks[i][0] >= '0' && toks[i][0] <= '9':
			toks[i] = fmt.Sprint(c.Intn(25))
		case strings.Contains("&& ||", toks[i]) && len(toks[i]) == 2:
			toks[i] = []string{"&&", "||"}[c.Intn(2)]
		case prec[toks[i]] == 8 || prec[toks[i]] == 7:
			toks[i] = []string{"<", ">", "<=", ">=", "==", "!="}[c.Intn(6)]
		case toks[i] == "%":
			toks[i] = []string{"/", "%", "*", "+"}[c.Intn(4)]
		case toks[i] == "n" && c.Intn(2) == 0:
			toks[i] = []string{"-n", "!n", "(n+1)", "7"}[c.Intn(4)]
		}
	}
	text := strings.Join(toks, " ")
	if c.Intn(2) == 0 {
		text = strings.Join(toks, "")
	}
	e, err := parseExpr(text)
	if err != nil || mixedRel(e) {
		return
	}
	c.Sample("%s", text)
	for i := 0; i < 25; i++ {
		n := int64(c.Intn(30))
		if i > 12 {
			n = count(c.Rand)
		}
		evalCheck(c, e, text, n)
	}
}

// c02regrouped puts parentheses anywhere into a real rule, or drops some: the well-known text with another meaning.
func c02regrouped(c *C) {
	wk := wellKnown[c.Intn(len(wellKnown))]
	toks, _ := lexExpr(wk.rule)
	for k := 0; k < 1+c.Intn(2); k++ {
		i := c.Intn(len(toks))
		j := i + 1 + c.Intn(len(toks)-i)
		if c.Intn(5) == 0 && toks[i] == "(" { // drop a pair
			for d, j := 0, i; j < len(toks); j++ {
				if toks[j] == "(" {
					d++
				} else if toks[j] == ")" {
					if d--; d == 0 {
						toks = append(append(append([]string{}, toks[:i]...), toks[i+1:j]...), toks[j+1:]...)
						break
					}
				}
			}
			continue
		}
		toks = append(append(append(append(append([]string{}, toks[:i]...), "("), toks[i:j]...), ")"), toks[j:]...)
	}
	text := strings.Join(toks, "")
	e, err := parseExpr(text)
	if err != nil || mixedRel(e) {
		return
	}
	c.Count("regrouped rules", 1)
	c.Sample("%s", text)
	for i := 0; i < 25; i++ {
		n := int64(c.Intn(30))
		if i > 12 {
			n = count(c.Rand)
		}
		evalCheck(c, e, text, n)
	}
}

// c02deep evaluates long and deeply nested expressions within the documented bounds.
func c02deep(c *C) {
	e := &Expr{Op: "n"}
	text := "n"
	k := 1 + c.Intn(150)
	switch c.Index % 6 {
	case 0: // parentheses only
		text = strings.Repeat("(", k) + "n" + strings.Repeat(")", k)
	case 1: // a sum
		k = 1 + c.Intn(1500)
		ops := []string{"+", "-"}
		for i := 0; i < k; i++ {
			v := int64(c.Intn(90))
			op := ops[c.Intn(2)]
			e = &Expr{Op: op, A: e, B: &Expr{Op: "num", Num: v}}
			text += op + fmt.Sprint(v)
		}
	case 2: // a list of cases
		for i := k; i > 0; i-- {
			cond := &Expr{Op: "==", A: &Expr{Op: "n"}, B: &Expr{Op: "num", Num: int64(i)}}
			e = &Expr{Op: "?:", A: cond, B: &Expr{Op: "num", Num: int64(i * 3)}, C: e}
			text = fmt.Sprintf("n==%d?%d:%s", i, i*3, text)
		}
	case 3: // prefixes
		for i := 0; i < k; i++ {
			op := []string{"!", "~", "-"}[c.Intn(3)]
			if op == "-" && text[0] == '-' {
				text = " " + text
			}
			e = &Expr{Op: "u" + op, A: e}
			text = op + text
		}
	case 4: // logic
		for i := 0; i < k; i++ {
			op := []string{"&&", "||", "&", "|", "!=", "=="}[c.Intn(6)]
			e = &Expr{Op: op, A: e, B: &Expr{Op: "n"}}
			text = "(" + text + ")" + op + "n"
		}
	default: // nested on the right
		for i := 0; i < k; i++ {
			op := []string{"+", "-", "&", "|", "<", ">=", "=="}[c.Intn(7)]
			e = &Expr{Op: op, A: &Expr{Op: "num", Num: int64(i % 7)}, B: e}
			text = fmt.Sprintf("%d%s(%s)", i%7, op, text)
		}
	}
	c.Count("deep expressions", 1)
	for i := 0; i < 4; i++ {
		evalCheck(c, e, text, int64(c.Intn(200)))
	}
}

// mixedRel tells that < or > has a bare <= or >= as an operand or the reverse (known finding).
func mixedRel(e *Expr) bool {
	if e == nil {
		return false
	}
	if rc := relClass(e.Op); rc != 0 {
		for _, x := range []*Expr{e.A, e.B} {
			if x != nil && relClass(x.Op) != 0 && relClass(x.Op) != rc {
				return true
			}
		}
	}
	return mixedRel(e.A) || mixedRel(e.B) || mixedRel(e.C)
}

var binOps = []string{"*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "&&", "||", "?:", "u!", "u-", "u~"}

// c02pairs walks every ordered pair of operators, in both groupings, without parentheses.
func c02pairs(c *C) {
	o1, o2 := binOps[c.Index/21], binOps[c.Index%21]
	leaf := func(i int) *Expr {
		if (c.Index+i)%2 == 0 || i == 0 {
			return &Expr{Op: "n"}
		}
		return &Expr{Op: "num", Num: int64(i + 1)}
	}
	mk := func(op string, a, b, d *Expr) *Expr {
		switch {
		case op[0] == 'u':
			return &Expr{Op: op, A: a}
		case op == "?:":
			return &Expr{Op: op, A: a, B: b, C: d}
		}
		return &Expr{Op: op, A: a, B: b}
	}
	for g := 0; g < 3; g++ {
		var e *Expr
		switch g {
		case 0:
			e = mk(o1, mk(o2, leaf(0), leaf(1), leaf(2)), leaf(3), leaf(4))
		case 1:
			e = mk(o1, leaf(0), mk(o2, leaf(1), leaf(2), leaf(3)), leaf(4))
		default:
			e = mk(o1, leaf(0), leaf(1), mk(o2, leaf(2), leaf(3), leaf(4)))
		}
		for style := 0; style < 3; style++ {
			text := e.print(c.Rand, style, 0)
			for n := int64(-2); n < 14; n++ {
				evalCheck(c, e, text, n)
			}
		}
		c.Count("operator pairs", 1)
	}
}

func c02malformed(c *C) {
	e := genExpr(c.Rand, 1+c.Intn(3))
	text := e.print(c.Rand, c.Intn(3), c.Intn(2)*20)
	toks, err := lexExpr(text)
	if err != nil {
		c.Fail("harness", "%v", err)
	}
	var bad string
	switch c.Intn(5) {
	case 0: // cut after a token that needs more
		i := c.Intn(len(toks))
		cut := toks[:i]
		if _, err := parseExpr(strings.Join(cut, " ")); err == nil || !strings.Contains(err.Error(), "end") && !strings.Contains(err.Error(), "want") {
			return
		}
		// "want )" also covers tokens in place of ")"; both are incomplete expressions
		bad = strings.Join(cut, " ")
	case 1: // a character that is no token
		i := c.Intn(len(toks) + 1)
		ill := []string{"$", "@", "#", "x", "N", ".", ",", ";", "'", "\"", "\\", "[", "{", "é", "中", "m", "_"}[c.Intn(17)]
		all := append(append(append([]string{}, toks[:i]...), ill), toks[i:]...)
		bad = strings.Join(all, " ")
	case 2: // literal out of range in place of n or appended
		big := []string{"9223372036854775808", "99999999999999999999", "18446744073709551615", "10000000000000000000000"}[c.Intn(4)]
		bad = text + " + " + big
		if c.Intn(2) == 0 {
			bad = big
		}
	case 3: // a well-known rule with one character changed to something that is no token
		wk := []byte(wellKnown[c.Intn(len(wellKnown))].rule)
		var at []int
		for i, b := range wk {
			if b == 'n' || b >= '0' && b <= '9' {
				at = append(at, i)
			}
		}
		wk[at[c.Intn(len(at))]] = "NxMi$lO\xffmu"[c.Intn(10)]
		bad = string(wk)
		if c.Intn(2) == 0 {
			bad = strings.ReplaceAll(bad, " ", "")
		}
		if c.Intn(6) == 0 {
			bad = strings.ToUpper(wellKnown[1+c.Intn(len(wellKnown)-1)].rule)
		}
	default: // an operator without its left or right operand
		op := []string{"*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "&&", "||", "?"}[c.Intn(16)]
		bad = []string{op + " n", "n " + op, "(" + text + ") " + op, "(" + text + ") " + op + " )", "()", "( )", "", " ", "n ? 1", "n ? 1 :", "n ? : 2", "n ? ? 1 : 2", ": 2", "!", "~", "-", "(n", "((n)"}[c.Intn(18)]
	}
	c.Count("malformed expressions", 1)
	c.Distinct("malformed", bad)
	c.Sample("malformed %q", bad)
	for _, n := range []int64{0, 1, 5} {
		if got, err := plurals.Eval(context.Background(), bad, n); err == nil {
			c.Fail("malformed", "Eval(%q,%d)=%d without error", bad, n, got)
		}
	}
}

func c02garbage(c *C) {
	alphabet := "n0123456789()?:*/%+-<>!&^|~= \t\n\x00$\xff中;"
	var sb strings.Builder
	for i, n := 0, c.Intn(60); i < n; i++ {
		sb.WriteByte(alphabet[c.Intn(len(alphabet))])
	}
	s := sb.String()
	if c.Intn(10) == 0 {
		s = strings.Repeat(s[:min(len(s), 2)], 100)
	}
	plurals.Eval(context.Background(), s, count(c.Rand)) // any panic ends the case as a violation
	c.Count("garbage expressions", 1)
	c.Distinct("garbage", s)
}

var c02probes = []struct {
	key, text string
	n, want   int64
	wantErr   bool
}{
	{"xor n^3 at 1", "n^3", 1, 2, false},
	{"xor n^n at 5", "n^n", 5, 0, false},
	{"trailing n n", "n n", 1, 0, true},
	{"trailing n)", "n)", 1, 0, true},
	{"trailing n 5", "n 5", 1, 0, true},
	{"relational n>=2>1 at 3", "n>=2>1", 3, 0, false},
	{"relational n<2<=0 at 3", "1<=n<2", 3, 1, false},
	{"lazy n==0?0:100/n at 0", "n==0?0:100/n", 0, 0, false},
	{"lazy n&&100/n at 0", "n&&100/n", 0, 0, false},
}

func c02known(c *C) {
	p := c02probes[c.Index]
	got, err := plurals.Eval(context.Background(), p.text, p.n)
	c.Count("known finding probes", 1)
	if (err != nil) != p.wantErr || err == nil && got != p.want {
		c.Report(p.key, "Eval(%q,%d)=%d,%v want %d (error wanted: %v)", p.text, p.n, got, err, p.want, p.wantErr)
	}
}
