package main

import (
	"errors"
	"fmt"
	"strings"
)

func init() {
	register(&Property{ID: "C03",
		Rule: "Catalogs with plural messages holding 0 to 11 forms (some empty) and a Plural-Forms header that is right, random over the expression grammar, mismatched with the number of forms, negative or huge in value, undefined at some counts, malformed or missing are loaded through seven doors and looked up at edge and random counts; the answer must be the form at the index an independent evaluator gives, or the caller's own singular (n=1 or no plural text) or plural. Non-trivial: distinct (rule, forms, count, message shape) decided.",
		Assumptions: []string{
			"counts at which the rule's value overflows int64, or at which only lazy evaluation is defined (known finding of C02), are only required not to crash",
		},
		Sections: []Section{
			{Name: "rules", Quick: 30000, Thorough: 400000, Fn: c03rules, Need: []string{"forms shown", "fallback: index out of range", "fallback: empty form", "fallback: undefined", "ten forms or more", "no final semicolon"}},
			{Name: "bad", Quick: 6000, Thorough: 60000, Fn: c03bad, Need: []string{"fallback: no usable rule"}},
			{Name: "real", Quick: 26 * 7, Thorough: 26 * 7 * 4, Fn: c03real, Need: []string{"real rule lookups"}},
		}})
}

// c03msgs makes plural messages with odd numbers of forms.
func c03msgs(c *C, nforms int) []Msg {
	var out []Msg
	for i := 0; i < 6; i++ {
		m := Msg{ID: fmt.Sprintf("one %d", i), Plural: true, ID2: fmt.Sprintf("many %d", i)}
		if c.Intn(2) == 0 {
			m.Ctx = "c"
		}
		n := nforms
		switch i {
		case 1:
			n = c.Intn(nforms + 4)
		case 2:
			n = max(0, nforms-1-c.Intn(2))
		case 3:
			n = nforms + 1 + c.Intn(3)
		}
		for j := 0; j < n; j++ {
			s := fmt.Sprintf("form %d of %d", j, i)
			if i >= 4 && c.Intn(3) == 0 {
				s = ""
			}
			m.StrN = append(m.StrN, s)
		}
		if strings.Join(m.StrN, "") == "" {
			m.StrN = append(m.StrN[:0:0], "only form")
		}
		out = append(out, m)
	}
	return out
}

func c03ask(c *C, l Looker, k *Cat, ref *Ref, what string, n int64) {
	m := k.Msgs[c.Intn(len(k.Msgs))]
	id2 := m.ID2
	switch c.Intn(6) {
	case 0:
		id2 = ""
	case 1:
		id2 = "%d of the caller's"
	case 2:
		id2 = []string{m.ID + "s", m.ID, m.ID + " ", "s"}[c.Intn(4)]
	}
	var args []any
	if strings.Contains(id2, "%") || c.Intn(4) == 0 {
		args = []any{n}
	}
	var got string
	if ref.expr != nil {
		if ref.expr.lazyMatters(n) {
			l.XN64(m.Ctx, m.ID, id2, n, args...)
			c.Count("skipped: laziness matters", 1)
			return
		}
		if _, err := ref.expr.eval(n); errors.Is(err, errUnspecified) {
			l.XN64(m.Ctx, m.ID, id2, n, args...)
			c.Count("skipped: overflow", 1)
			return
		}
	}
	got = l.XN64(m.Ctx, m.ID, id2, n, args...)
	want := refPlural(m.ID, id2, n, args...)
	kind := "fallback: no usable rule"
	if i, ok := ref.form(m, n); ok {
		want = refFormat(m.StrN[i], args...)
		kind = "forms shown"
	} else if ref.expr != nil {
		v, err := ref.expr.eval(n)
		switch {
		case err != nil:
			kind = "fallback: undefined"
		case v >= 0 && v < int64(len(m.StrN)) && v < int64(k.NForms):
			kind = "fallback: empty form"
		default:
			kind = "fallback: index out of range"
		}
	}
	c.Count(kind, 1)
	c.Distinct(what, k.Forms, fmt.Sprint(n), strings.Join(m.StrN, "|"), id2)
	if got != want {
		c.Fail(kind, "%s: Plural-Forms %q, message %v: XN64(%q,%q,%q,%d,%v)=%q want %q", what, k.Forms, m, m.Ctx, m.ID, id2, n, args, got, want)
	}
}

// c03bare leaves some added messages without any form.
func c03bare(c *C, k *Cat, door string) {
	if door == "file" {
		for i := range k.Msgs {
			if c.Intn(4) == 0 {
				k.Msgs[i].StrN = nil
				c.Count("messages without forms", 1)
			}
		}
	}
}

func blanks(c *C) string { return []string{"", "", " ", "  "}[c.Intn(4)] }

func c03rules(c *C) {
	k := &Cat{Lang: "xx", NForms: 1 + c.Intn(9)}
	if c.Intn(8) == 0 {
		k.NForms = []int{10, 11, 12, 16, 20, 99, 100, 101}[c.Intn(8)]
		c.Count("ten forms or more", 1)
	}
	switch c.Intn(7) {
	case 4: // every form in turn
		k.Expr = mustParseExpr(fmt.Sprintf("n%%%d", k.NForms+c.Intn(2)))
	case 0, 1:
		k.Expr = genExpr(c.Rand, 1+c.Intn(4))
	case 2: // values around the limits
		k.Expr = mustParseExpr([]string{"n", "n-1", "n-2", "n%12", "-n", "n*1000000007", "-1", "4294967296", "4294967297", "n+4294967296", "9223372036854775807", "~n", "~0",
			"n<<32", "n>>1", "2147483648", "18446744073", "n%9-1"}[c.Intn(18)])
	case 3: // undefined somewhere
		k.Expr = mustParseExpr([]string{"1/n", "n%(n-2)", "n/0", "5%n", "1<<(n-3)", "n>>(1-n)"}[c.Intn(6)])
	default:
		wk := wellKnown[c.Intn(len(wellKnown))]
		k.Expr = mustParseExpr(wk.rule)
		if c.Intn(2) == 0 {
			k.NForms = wk.n
		}
	}
	k.Rule = k.Expr.print(c.Rand, c.Intn(3), c.Intn(2)*10)
	k.setHeader(c.Rand)
	forms := "nplurals=" + blanks(c) + fmt.Sprint(k.NForms) + ";" + blanks(c) + "plural=" + k.Rule + ";"
	if c.Intn(3) == 0 {
		forms = "nplurals" + blanks(c) + "=" + blanks(c) + fmt.Sprint(k.NForms) + blanks(c) + ";" + blanks(c) + "plural" + blanks(c) + "=" + blanks(c) + k.Rule + blanks(c) + ";"
	}
	if c.Intn(8) == 0 {
		forms = strings.TrimRight(strings.TrimSuffix(forms, ";"), " ")
		c.Count("no final semicolon", 1)
	}
	for i := range k.Header {
		if k.Header[i][0] == "Plural-Forms" {
			k.Header[i][1] = forms
		}
	}
	k.Forms = forms
	k.Msgs = c03msgs(c, k.NForms)
	door := doors[c.Intn(len(doors))]
	c03bare(c, k, door)
	l := open(c, k, door)
	ref := newRef(k)
	c.Sample("%s: %s", door, forms)
	for i := 0; i < 30; i++ {
		n := int64(i - 3)
		if i > 16 {
			n = count(c.Rand)
		}
		c03ask(c, l, k, ref, door, n)
	}
}

var badForms = []string{"", "nplurals=2", "nplurals=2;", "plural=n!=1;", "nplurals=x; plural=0;", "nplurals=; plural=0;", "nplurals=2; plural=;", "nplurals=2; plural= ;",
	"nplurals=2 plural=0;", "nplurals=0; plural=0;", "nplurals=-1; plural=0;", "garbage", ";", "=", "nplurals=2; plural=(n!=1;", "nplurals=2; plural=x;",
	"nplurals=2; plural=n=1;", "nplurals=2; plural=n ? 0;", "nplurals=2; plural=$;", "nplurals=2; plural=99999999999999999999;", "nplurals=2; plural=n > 99999999999999999999;", "nplurals=2; plural=1 +;", "nplurals=2; plurals=0;",
	"nplural=2; plural=0;", "nplurals=2; plural==;", "nplurals=2; plural=n && ;", "nplurals=two; plural=0;", "nplurals=99999999999999999999; plural=0;", "nplurals=00; plural=0;", "nplurals=2; plural", "nplurals=2; plural=", "nplurals=2, plural=0;", "nplurals=2x; plural=0;", "x nplurals=2; plural=0;", "nplurals=2; x plural=0;", "nplurals=1.5; plural=0;", "nplurals=0x2; plural=0;"}

func c03bad(c *C) {
	k := &Cat{Lang: "xx", NForms: 2}
	k.setHeader(c.Rand)
	var keep [][2]string
	kind := c.Intn(3)
	for _, h := range k.Header {
		if h[0] == "Plural-Forms" {
			switch kind {
			case 0: // no field
				continue
			default:
				h[1] = badForms[c.Intn(len(badForms))]
			}
			k.Forms = h[1]
		}
		keep = append(keep, h)
	}
	if kind == 0 {
		k.Forms = "(none)"
	}
	k.Header = keep
	k.Msgs = c03msgs(c, 2)
	door := doors[c.Intn(len(doors))]
	if c.Intn(8) == 0 {
		door = "file"
		k.Forms = "(no header at all)"
	}
	var l Looker
	if k.Forms == "(no header at all)" {
		l = fileOf(c.Rand, k.Msgs)
	} else {
		c03bare(c, k, door)
		l = open(c, k, door)
	}
	ref := newRef(k)
	ref.expr = nil
	c.Sample("bad: %s: %s", door, k.Forms)
	for i := 0; i < 14; i++ {
		n := int64(i - 2)
		if i > 8 {
			n = count(c.Rand)
		}
		c03ask(c, l, k, ref, door, n)
	}
}

// c03real asks 0..1100 of every well-known rule, through every door.
func c03real(c *C) {
	wk := wellKnown[c.Index%len(wellKnown)]
	k := &Cat{Lang: langPool[c.Intn(len(langPool))], NForms: wk.n, Rule: wk.rule, Expr: mustParseExpr(wk.rule)}
	k.setHeader(c.Rand)
	m := Msg{ID: "id", ID2: "ids", Plural: true}
	for j := 0; j < wk.n; j++ {
		m.StrN = append(m.StrN, fmt.Sprintf("form %d", j))
	}
	k.Msgs = []Msg{m, {ID: "single", Str: "nur eins"}}
	door := doors[c.Index/len(wellKnown)%len(doors)]
	l := open(c, k, door)
	ref := newRef(k)
	for n := int64(0); n < 1100; n++ {
		got := l.XN64("", "id", "ids", n)
		if want := ref.XN("", "id", "ids", n); got != want {
			c.Fail("real", "%s: %s: n=%d gives %q want %q", door, k.Forms, n, got, want)
		}
		if n%100 == 7 {
			if got := l.XN64("", "single", "", n); got != "nur eins" {
				c.Fail("real", "%s: %s: message without plural at n=%d gives %q", door, k.Forms, n, got)
			}
		}
	}
	c.Count("real rule lookups", 1100)
	c.Distinct("real", door, wk.rule)
}
