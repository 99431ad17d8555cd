package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C07",
		Rule:        "Catalogs of 0 to 3000 messages (contexts that sort around the separator byte, prefixes, case variants, plural, partly translated) are saved as MO. A strict reader checks bounds, NUL termination and strictly ascending originals, a binary search as gettext does it must find every message, the messages must be the catalog's, reading back must give the same messages, header and lookups, and GNU msgunfmt, where installed, must agree. Non-trivial: distinct saved files.",
		Assumptions: []string{"texts without NUL and EOT bytes", "GNU msgunfmt is a second opinion on a sample when it is installed"},
		Sections: []Section{
			{Name: "roundtrip", Quick: 12000, Thorough: 160000, Fn: c07roundtrip, Need: []string{"files strictly read", "binary searches"}},
			{Name: "order", Quick: 6000, Thorough: 80000, Fn: c07order},
			{Name: "big", Quick: 7, Thorough: 40, Fn: c07big},
			{Name: "gettext", Quick: 200, Thorough: 2000, Fn: c07gettext},
		}})
}

func c07check(c *C, k *Cat, f *translator.File) []byte {
	out := saveMo(c, f)
	img, err := moRead(out)
	if err != nil {
		c.Fail("invalid mo", "%v\n%x", err, out)
	}
	norm := func(ms []Msg) []Msg {
		o := append([]Msg(nil), ms...)
		for i := range o {
			if o[i].Plural && len(o[i].StrN) == 0 {
				o[i].StrN = []string{""}
			}
		}
		return o
	}
	if d := sameMsgs(norm(k.all()), img.msgs(), false); d != "" {
		c.Fail("messages", "the file holds other messages: %s", d)
	}
	for _, m := range k.all() {
		got, ok := img.find(m.Ctx, m.ID)
		if !ok || got != moVal(m) {
			c.Fail("binary search", "%v: found %v %q", m, ok, got)
		}
		c.Count("binary searches", 1)
	}
	g, err := translator.ReadMo(out)
	if err != nil {
		c.Fail("read back", "%v", err)
	}
	if d := sameMsgs(norm(k.all()), fileMsgs(g), false); d != "" {
		c.Fail("read back", "%s", d)
	}
	checkHeader(c, g, k, "read back")
	if d := lookAll(c, g, k, 5); d != "" {
		c.Fail("read back", "%s", d)
	}
	if again := saveMo(c, g); !bytes.Equal(out, again) {
		c.Fail("second save", "saving the re-read file gives other bytes")
	}
	c.Count("files strictly read", 1)
	c.Distinct(string(out))
	return out
}

func c07roundtrip(c *C) {
	k := catalog(c.Rand, c.Intn(18))
	if c.Intn(4) == 0 {
		for i := range k.Msgs {
			switch c.Intn(4) {
			case 0:
				k.Msgs[i].Str, k.Msgs[i].StrN = "", nil
			case 1:
				for j := range k.Msgs[i].StrN {
					if c.Intn(2) == 0 {
						k.Msgs[i].StrN[j] = ""
					}
				}
			}
		}
	}
	f, _ := anyFileTranslated(c, k)
	c07check(c, k, f)
	c.Sample("%d messages", len(k.Msgs))
}

// anyFileTranslated avoids PO text for partly translated catalogs, as reading PO drops untranslated messages.
func anyFileTranslated(c *C, k *Cat) (*translator.File, bool) {
	for _, m := range k.Msgs {
		if !m.translated() {
			return fileOf(c.Rand, k.all()), true
		}
	}
	return anyFile(c, k)
}

func c07order(c *C) {
	k := &Cat{Lang: "de", NForms: 2, Rule: "n != 1", Expr: mustParseExpr("n != 1")}
	k.setHeader(c.Rand)
	parts := []string{"a", "b", "ab", "a\x01", "a\x03", "a\x05", "a\x1f", "a ", "a!", "A", "Z", "é", "中", "\x01", "\x05", "\x7f", "aa", "aaa", "\xc2\x80", "😀", "0", "~", "b\x01", "a\n"}
	seen := map[[2]string]bool{}
	for i, n := 0, 2+c.Intn(40); i < n; i++ {
		p := func() string {
			s := parts[c.Intn(len(parts))]
			if c.Intn(2) == 0 {
				s += parts[c.Intn(len(parts))]
			}
			return s
		}
		m := Msg{ID: p()}
		if c.Intn(2) == 0 {
			m.Ctx = p()
		}
		if seen[m.key()] {
			continue
		}
		seen[m.key()] = true
		if c.Intn(3) == 0 {
			m.Plural, m.ID2, m.StrN = true, p(), []string{p(), p()}
		} else {
			m.Str = p()
		}
		m.Cmts = comments(c.Rand)
		k.Msgs = append(k.Msgs, m)
	}
	c07check(c, k, fileOf(c.Rand, k.all()))
}

func c07big(c *C) {
	k := &Cat{Lang: "de", NForms: 2, Rule: "n != 1", Expr: mustParseExpr("n != 1")}
	k.setHeader(c.Rand)
	n := 100 + c.Intn(3000)
	if c.Index%7 == 0 {
		n = 65530 + c.Intn(20)
	}
	for i := 0; i < n; i++ {
		k.Msgs = append(k.Msgs, Msg{Ctx: fmt.Sprint(i % 7), ID: fmt.Sprint("m", i), Str: strings.Repeat(fmt.Sprint(i), 1+c.Intn(20))})
	}
	for i, at := range []string{"huge", "A", "zzz", "3\x01", "m"} { // long texts at several places of the tables
		size := []int{100000, 1<<16 - 1, 1 << 16, 1 << 17, 4096, 32768, 65535 * 3}[c.Intn(7)] + c.Intn(3)
		m := Msg{ID: at, Str: strings.Repeat("x", size)}
		switch c.Intn(4) {
		case 0:
			m.ID = at + strings.Repeat("y", size)
			m.Str = "t"
		case 1:
			m.Plural, m.ID2, m.Str, m.StrN = true, "p", "", []string{"a", strings.Repeat("z", size), "b"}
		case 2:
			m.Ctx = strings.Repeat("c", size/2) + fmt.Sprint(i)
		}
		k.Msgs = append(k.Msgs, m)
	}
	c07check(c, k, fileOf(c.Rand, k.all()))
}

func c07gettext(c *C) {
	k := catalog(c.Rand, 2+c.Intn(12))
	if k.Raw { // another charset than the header states
		return
	}
	for i := range k.Msgs { // msgunfmt writes control characters it would not accept itself
		k.Msgs[i].Cmts = nil
	}
	f := fileOf(c.Rand, k.all())
	msgs, diag, ok := msgunfmt(c, saveMo(c, f))
	if !ok {
		c.Count("msgunfmt not usable", 1)
		return
	}
	if diag != "" {
		c.Fail("msgunfmt", "GNU msgunfmt rejects the saved file: %s", diag)
	}
	if d := sameMsgs(k.all(), msgs, false); d != "" {
		c.Fail("msgunfmt", "GNU msgunfmt reads other messages: %s", d)
	}
	c.Count("files read by msgunfmt", 1)
	c.Distinct("gettext", fmt.Sprint(c.Index))
}
