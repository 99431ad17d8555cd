package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C05",
		Rule:        "Catalogs built from entries or read from PO or MO are saved as PO. A strict PO parser written from the format's description must accept the text and find the same messages, every one with translation lines; reading it back must give the same translated messages, comments, header fields and lookups; saving again must give the same bytes; GNU msgfmt, where installed, must compile it to the same messages. Non-trivial: distinct saved texts.",
		Assumptions: []string{"texts are valid UTF-8 without NUL; comments are single lines starting with #", "GNU msgfmt is used as a second opinion on a sample when it is installed"},
		Sections: []Section{
			{Name: "roundtrip", Quick: 15000, Thorough: 180000, Fn: c05roundtrip, Need: []string{"saved texts parsed strictly", "byte identical second saves"}},
			{Name: "partial", Quick: 4800, Thorough: 60000, Fn: c05partial, Need: []string{"untranslated messages saved"}},
			{Name: "wrap", Quick: 18000, Thorough: 240000, Fn: c05wrap},
			{Name: "gettext", Quick: 250, Thorough: 2500, Fn: c05gettext},
		}})
}

func save(c *C, f func(w *bytes.Buffer) error) []byte {
	var b bytes.Buffer
	if err := f(&b); err != nil {
		c.Fail("save", "saving to memory failed: %v", err)
	}
	return b.Bytes()
}

func savePo(c *C, f *translator.File) []byte {
	return save(c, func(w *bytes.Buffer) error { return f.SaveAsPo(w) })
}
func saveMo(c *C, f *translator.File) []byte {
	return save(c, func(w *bytes.Buffer) error { return f.SaveAsMo(w) })
}
func savePot(c *C, f *translator.File) []byte {
	return save(c, func(w *bytes.Buffer) error { return f.SaveAsPot(w) })
}

// anyFile makes a file holding exactly k's messages, and tells whether comments were kept.
func anyFile(c *C, k *Cat) (*translator.File, bool) {
	switch c.Intn(4) {
	case 0:
		f, err := translator.ReadPo([]byte(poPrint(c.Rand, k.all(), Layout{EOL: "\n", Wrap: c.Intn(3), Escape: c.Intn(3), Blank: 1})))
		if err != nil {
			c.Fail("read", "ReadPo: %v", err)
		}
		return f, true
	case 1:
		f, err := translator.ReadMo(moWrite(c.Rand, k.all(), randomMOLayout(c.Rand)).data)
		if err != nil {
			c.Fail("read", "ReadMo: %v", err)
		}
		return f, false
	}
	return fileOf(c.Rand, k.all()), true
}

// strictPo parses saved text strictly and compares.
func strictPo(c *C, k *Cat, out []byte, cmts bool) {
	es, err := poParse(string(out))
	if err != nil {
		c.Fail("invalid po", "the saved text is not a PO file: %v\n%s", err, out)
	}
	for _, e := range es {
		if !e.hasStr {
			c.Fail("invalid po", "message %v was saved without translation lines\n%s", e.Msg, out)
		}
	}
	if d := sameMsgs(saved(k.all()), saved(poMsgs(es)), cmts); d != "" {
		c.Fail("saved text", "the saved text differs from the catalog: %s\n%s", d, out)
	}
	if len(es) > 0 && (es[0].ID != "" || es[0].Ctx != "") {
		c.Fail("saved text", "the header is not the first message: %v", es[0].Msg)
	}
	c.Count("saved texts parsed strictly", 1)
	c.Distinct(string(out))
}

// saved makes untranslated plural messages comparable: their number of empty forms is the writer's choice.
func saved(ms []Msg) []Msg {
	out := append([]Msg(nil), ms...)
	for i := range out {
		if out[i].Plural && strings.Join(out[i].StrN, "") == "" {
			out[i].StrN = nil
		}
	}
	return out
}

func c05roundtrip(c *C) {
	k := catalog(c.Rand, c.Intn(16))
	f, cmts := anyFile(c, k)
	out := savePo(c, f)
	strictPo(c, k, out, cmts)
	g, err := translator.ReadPo(out)
	if err != nil {
		c.Fail("read back", "ReadPo of the saved text failed: %v\n%s", err, out)
	}
	if d := sameMsgs(k.all(), fileMsgs(g), cmts); d != "" {
		c.Fail("read back", "%s\n%s", d, out)
	}
	checkHeader(c, g, k, "read back")
	if d := lookAll(c, g, k, 5); d != "" {
		c.Fail("read back", "%s\n%s", d, out)
	}
	if again := savePo(c, g); !bytes.Equal(out, again) {
		c.Fail("second save", "saving the re-read catalog gives other bytes\nfirst:\n%s\nsecond:\n%s", out, again)
	}
	c.Count("byte identical second saves", 1)
	c.Sample("%d messages, %d bytes", len(k.Msgs), len(out))
}

func c05partial(c *C) {
	k := catalog(c.Rand, 2+c.Intn(10))
	if k.Raw { // another charset than the header states
		return
	}
	for i := range k.Msgs {
		m := &k.Msgs[i]
		switch c.Intn(4) {
		case 0:
			m.Str = ""
			m.StrN = nil
			c.Count("untranslated messages saved", 1)
		case 1:
			for j := range m.StrN {
				if c.Intn(2) == 0 {
					m.StrN[j] = ""
				}
			}
		}
	}
	f := fileOf(c.Rand, k.all())
	out := savePo(c, f)
	strictPo(c, k, out, true)
	g, err := translator.ReadPo(out)
	if err != nil {
		c.Fail("read back", "ReadPo of the saved text failed: %v\n%s", err, out)
	}
	checkHeader(c, g, k, "read back")
	if d := lookAll(c, g, k, 50); d != "" {
		c.Fail("read back", "%s\n%s", d, out)
	}
	var translated []Msg
	for _, m := range k.all() {
		if m.Str != "" || strings.Join(m.StrN, "") != "" {
			translated = append(translated, m)
		}
	}
	var got []Msg
	for _, m := range fileMsgs(g) {
		if m.Str != "" || strings.Join(m.StrN, "") != "" {
			got = append(got, m)
		}
	}
	if d := sameMsgs(translated, got, true); d != "" {
		c.Fail("read back", "%s\n%s", d, out)
	}
}

// c05wrap: one message whose texts sit at the wrapping limits.
func c05wrap(c *C) {
	mk := func() string {
		if c.Intn(4) == 0 {
			return nonEmpty(c.Rand)
		}
		alphabet := []string{" ", " ", "\n", "a", "bb", "ccc", "中", "\"", "\\", "\t", "  ", "😀", "é", "x", "%", "#"}
		if c.Intn(3) == 0 {
			alphabet = []string{" ", "\n", "xxxxxxxxxxxxxxxx", "中文中文中文", "y"}
		}
		var sb strings.Builder
		for n := 1 + c.Intn(140); sb.Len() < n; {
			sb.WriteString(alphabet[c.Intn(len(alphabet))])
		}
		return sb.String()
	}
	k := &Cat{Lang: "de", NForms: 2, Rule: "n != 1", Expr: mustParseExpr("n != 1")}
	k.Header = [][2]string{{"Language", "de"}}
	k.Forms = "nplurals=2; plural=n != 1;"
	if c.Intn(2) == 0 {
		k.Msgs = []Msg{{Ctx: mk(), ID: mk(), Str: mk()}}
	} else {
		k.Msgs = []Msg{{Ctx: mk(), ID: mk(), Plural: true, ID2: mk(), StrN: []string{mk(), mk(), mk()}}}
	}
	if strings.HasPrefix(k.Msgs[0].Ctx, "#:") {
		return
	}
	f := fileOf(c.Rand, k.all())
	out := savePo(c, f)
	strictPo(c, k, out, true)
	g, err := translator.ReadPo(out)
	if err != nil {
		c.Fail("read back", "%v\n%s", err, out)
	}
	if d := sameMsgs(k.all(), fileMsgs(g), true); d != "" {
		c.Fail("read back", "%s\n%s", d, out)
	}
	// the template of the same messages keeps every source text
	pot := savePot(c, f)
	es, err := poParse(string(pot))
	if err != nil {
		c.Fail("template", "%v\n%s", err, pot)
	}
	for _, e := range es {
		m := k.Msgs[0]
		if e.ID != "" && (e.Ctx != m.Ctx || e.ID != m.ID || e.ID2 != m.ID2) {
			c.Fail("template", "%v became %v", m, e.Msg)
		}
	}
}

func c05gettext(c *C) {
	k := catalog(c.Rand, c.Intn(12))
	// msgfmt insists on the same line ends at both ends of source and translation, checks formats and the place of #| lines
	trim := func(s string) string {
		if s = strings.Trim(s, "\n"); s == "" {
			s = "x"
		}
		return s
	}
	seen := map[[2]string]bool{}
	var keep []Msg
	for _, m := range k.Msgs {
		m.ID, m.Str, m.ID2 = trim(m.ID), trim(m.Str), trim(m.ID2)
		if m.Plural {
			m.Str = ""
		} else {
			m.ID2 = ""
		}
		for j := range m.StrN {
			m.StrN[j] = trim(m.StrN[j])
		}
		var cm []string
		for _, s := range m.Cmts {
			if !strings.HasPrefix(s, "#,") && !strings.HasPrefix(s, "#=") && !strings.HasPrefix(s, "#|") {
				cm = append(cm, s)
			}
		}
		m.Cmts = cm
		if !seen[m.key()] {
			seen[m.key()] = true
			keep = append(keep, m)
		}
	}
	k.Msgs = keep
	f := fileOf(c.Rand, k.all())
	out := savePo(c, f)
	img, diag, ok := msgfmt(c, out)
	if !ok {
		c.Count("msgfmt not usable", 1)
		return
	}
	if img == nil {
		c.Fail("msgfmt", "GNU msgfmt rejects the saved text: %s\n%s", diag, out)
	}
	if d := sameMsgs(k.all(), img.msgs(), false); d != "" {
		c.Fail("msgfmt", "GNU msgfmt reads other messages: %s\n%s", d, out)
	}
	c.Count("texts compiled by msgfmt", 1)
	c.Distinct("gettext", fmt.Sprint(c.Index))
}
