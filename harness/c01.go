package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Property{ID: "C01",
		Rule:        "Catalogs of 0 to 6000 messages whose contexts and ids come from pools of look-alike texts (prefixes, case and blank variants, concatenations, normalisation variants, control characters) are loaded through seven doors (PO text, MO bytes, entries, bound domains, saved and re-read); every (context, id) pair of the pools, present or absent, is looked up with no, fitting and surplus arguments and compared with a map keyed by the pair. Non-trivial: a lookup whose pair is stored, or is absent while a look-alike pair is stored; counted by door, pair and presence.",
		Assumptions: []string{"ids and contexts without NUL and EOT bytes (the MO format reserves them)"},
		Sections: []Section{
			{Name: "pools", Quick: 4800, Thorough: 48000, Fn: c01pools, Need: []string{"stored pairs looked up", "absent pairs looked up", "formatted lookups"}},
			{Name: "large", Quick: 21, Thorough: 140, Fn: c01large},
			{Name: "args", Quick: 2400, Thorough: 24000, Fn: c01args},
		}})
}

func c01pools(c *C) {
	k := &Cat{Lang: langPool[c.Intn(len(langPool))], NForms: 2, Rule: "n != 1", Expr: mustParseExpr("n != 1")}
	k.setHeader(c.Rand)
	if c.Intn(6) == 0 {
		k.Header = k.Header[:0]
		k.Header = append(k.Header, [2]string{"Language", k.Lang}, [2]string{"Plural-Forms", k.Forms})
	}
	ctxs := append([]string{""}, keyPool(c.Rand, 2+c.Intn(6))...)
	ids := keyPool(c.Rand, 3+c.Intn(9))
	seen := map[[2]string]bool{}
	fill := 1 + c.Intn(9)
	for _, x := range ctxs {
		for _, id := range ids {
			kk := [2]string{x, id}
			if seen[kk] || c.Intn(10) >= fill || strings.HasPrefix(x, "#:") {
				continue
			}
			seen[kk] = true
			m := Msg{Ctx: x, ID: id}
			switch c.Intn(8) {
			case 0, 1, 2:
				m.Plural, m.ID2 = true, id+"s"
				m.StrN = []string{fmt.Sprintf("one of %q/%q", x, id), fmt.Sprintf("many of %q/%q", x, id)}
				if c.Intn(3) == 0 {
					m.ID2 = text(c.Rand)
					if m.ID2 == "" {
						m.ID2 = "z"
					}
				}
			case 3:
				m.Str = nonEmpty(c.Rand)
			default:
				m.Str = fmt.Sprintf("T of %q/%q", x, id)
			}
			k.Msgs = append(k.Msgs, m)
		}
	}
	door := doors[c.Intn(len(doors))]
	l := open(c, k, door)
	ref := newRef(k)
	c.Sample("%s: %d messages, contexts %q, ids %q", door, len(k.Msgs), ctxs, ids)
	var pairs [][2]string
	for _, x := range append(ctxs, "never") {
		for _, id := range append(ids, "never", "") {
			pairs = append(pairs, [2]string{x, id})
		}
	}
	for i := 0; i < 60 && len(k.Msgs) > 0; i++ { // look-alikes of stored pairs
		m := k.Msgs[c.Intn(len(k.Msgs))]
		switch c.Intn(6) {
		case 0:
			pairs = append(pairs, [2]string{near(c.Rand, m.Ctx), m.ID})
		case 1:
			pairs = append(pairs, [2]string{"", m.Ctx + []string{"", "|", ":", " ", "\x03", "\n", "/"}[c.Intn(7)] + m.ID})
		case 2:
			pairs = append(pairs, [2]string{m.ID, m.Ctx}, [2]string{"", m.ID2}, [2]string{m.Ctx, m.ID2}, [2]string{m.Ctx, m.Str}, [2]string{m.Ctx + m.ID, ""})
		default:
			pairs = append(pairs, [2]string{m.Ctx, near(c.Rand, m.ID)})
		}
	}
	for _, pair := range pairs {
		{
			x, id := pair[0], pair[1]
			if x == "" && id == "" {
				continue
			}
			m, present := ref.m[[2]string{x, id}]
			if present {
				c.Count("stored pairs looked up", 1)
			} else {
				c.Count("absent pairs looked up", 1)
			}
			c.Distinct(door, x, id, fmt.Sprint(present))
			if !m.Plural {
				if got, want := l.X(x, id), ref.X(x, id); got != want {
					c.Fail("lookup", "%s: X(%q,%q)=%q want %q (stored: %v %v)", door, x, id, got, want, present, m)
				}
				if present {
					n, id2 := count(c.Rand), []string{"", "caller's own plural", id + "s", id}[c.Intn(4)]
					if got := l.XN64(x, id, id2, n); got != m.Str {
						c.Fail("lookup", "%s: XN64(%q,%q,%q,%d)=%q want the only translation %q", door, x, id, id2, n, got, m.Str)
					}
				}
			}
			if m.Plural || !present {
				for _, n := range []int64{0, 1, 2, 5} {
					id2 := m.ID2
					if c.Intn(3) == 0 {
						id2 = "caller's own plural" // the caller's text, not the catalog's, is the fallback
					}
					if got, want := l.XN64(x, id, id2, n), ref.XN(x, id, id2, n); got != want {
						c.Fail("lookup", "%s: XN64(%q,%q,%q,%d)=%q want %q (stored: %v)", door, x, id, id2, n, got, want, present)
					}
				}
			}
			// the answer does not depend on what was asked before
			if !m.Plural && c.Intn(4) == 0 {
				if got, want := l.X(x, id), ref.X(x, id); got != want {
					c.Fail("lookup", "%s: second X(%q,%q)=%q want %q", door, x, id, got, want)
				}
			}
		}
	}
	// arguments: texts without verbs take any surplus silently
	for _, m := range k.Msgs {
		if !m.Plural && fmtSafe(m.Str) && c.Intn(4) == 0 {
			if got := l.X(m.Ctx, m.ID, 1, "x", nil, 2.5); got != m.Str {
				c.Fail("format", "%s: X(%q,%q,surplus...)=%q want %q", door, m.Ctx, m.ID, got, m.Str)
			}
			c.Count("formatted lookups", 1)
		}
	}
}

func c01large(c *C) {
	n := []int{255 + c.Intn(3), 1000, 6000}[c.Index%3]
	if c.Index%3 == 2 && c.Index/3%3 == 0 {
		n = 65530 + c.Intn(20)
	}
	k := &Cat{Lang: "de", NForms: 2, Rule: "n != 1", Expr: mustParseExpr("n != 1")}
	k.setHeader(c.Rand)
	for i := 0; i < n; i++ {
		m := Msg{ID: fmt.Sprintf("message %d", i), Str: fmt.Sprintf("Nachricht %d", i)}
		switch i % 7 {
		case 0:
			m.Ctx = fmt.Sprintf("c%d", i%5)
		case 1:
			m.Plural, m.ID2, m.Str = true, m.ID+"s", ""
			m.StrN = []string{fmt.Sprintf("eine %d", i), fmt.Sprintf("viele %d", i)}
		case 2:
			m.Str = strings.Repeat(m.Str+" ", 1+i%300)
		}
		k.Msgs = append(k.Msgs, m)
	}
	if c.Intn(2) == 0 { // a text beyond 64 KiB
		k.Msgs = append(k.Msgs, Msg{ID: "huge" + strings.Repeat("y", 70000), Str: "huge translation" + strings.Repeat("z", 200000)})
	}
	door := doors[c.Index/3%len(doors)]
	l := open(c, k, door)
	c.Count("large catalogs", 1)
	c.Distinct("large", door, fmt.Sprint(n))
	c.Sample("large %s %d", door, n)
	if d := lookAll(c, l, k, len(k.Msgs)); d != "" {
		c.Fail("lookup", "%s, %d messages: %s", door, n, d)
	}
}

// c01args looks up messages with verbs.
func c01args(c *C) {
	k := &Cat{Lang: "de", NForms: 2, Rule: "n != 1", Expr: mustParseExpr("n != 1")}
	k.setHeader(c.Rand)
	verbs := [][]string{{"%d", "%s"}, {"%[1]d", "%[2]s"}, {"%03d", "%-6s|"}, {"%v", "%q"}, {"%+d", "%x"}, {"%d%%", "%.2s"}}
	type want struct{ fmts []string }
	for i := 0; i < 6; i++ {
		v := verbs[c.Intn(len(verbs))]
		tr := verbs[c.Intn(len(verbs))]
		a, b := plain(c.Rand), plain(c.Rand)
		id := fmt.Sprintf("%d-%s", i, a) + v[0] + b + v[1]
		t1 := "T1 " + b + tr[0] + a + tr[1]
		t2 := "T2 " + a + "%[2]s " + b + "%[1]d"
		m := Msg{Ctx: []string{"", "c"}[c.Intn(2)], ID: id}
		if c.Intn(2) == 0 {
			m.Str = t2
			if c.Intn(2) == 0 {
				m.Str = t1
			}
		} else {
			m.Plural, m.ID2, m.StrN = true, "P"+id, []string{t1, t2}
		}
		k.Msgs = append(k.Msgs, m)
	}
	door := doors[c.Intn(len(doors))]
	l := open(c, k, door)
	ref := newRef(k)
	for _, m := range k.Msgs {
		n := count(c.Rand)
		args := []any{n, words[c.Intn(len(words))]}
		if c.Intn(3) == 0 {
			args = append(args, 3.5, nil)
		}
		ctx := m.Ctx
		if c.Intn(4) == 0 {
			ctx = "absent"
		}
		c.Distinct("args", door, m.ID, fmt.Sprint(args...))
		c.Count("formatted lookups", 1)
		if m.Plural {
			if got, w := l.XN64(ctx, m.ID, m.ID2, n, args...), ref.XN(ctx, m.ID, m.ID2, n, args...); got != w {
				c.Fail("format", "%s: XN64(%q,%q,%q,%d,%v)=%q want %q", door, ctx, m.ID, m.ID2, n, args, got, w)
			}
		} else if got, w := l.X(ctx, m.ID, args...), ref.X(ctx, m.ID, args...); got != w {
			c.Fail("format", "%s: X(%q,%q,%v)=%q want %q", door, ctx, m.ID, args, got, w)
		}
	}
}
