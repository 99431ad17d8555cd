package main

import (
	"bytes"
	"fmt"

	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C08",
		Rule:        "Catalogs (translated or not, any comments, odd headers) are saved as POT; a strict parser must find the header intact and each message once with its context, id, plural id and comments and only empty translations. Reading the template back must give the header and every message, and saving again the same bytes. Templates printed in other layouts by the independent writer, with obsolete entries and trailing comments, must read completely; malformed ones must be errors. Non-trivial: distinct templates and malformed texts.",
		Assumptions: []string{"valid UTF-8 texts without NUL; comments are single lines starting with #"},
		Sections: []Section{
			{Name: "save", Quick: 15000, Thorough: 180000, Fn: c08save, Need: []string{"templates parsed strictly"}},
			{Name: "layouts", Quick: 15000, Thorough: 180000, Fn: c08layouts, Need: []string{"templates read"}},
			{Name: "malformed", Quick: 15000, Thorough: 150000, Fn: c08malformed, Need: []string{"malformed templates"}},
		}})
}

// template is the messages a template of k must hold.
func template(k *Cat) []Msg {
	out := k.all()
	for i := range out {
		if out[i].ID == "" && out[i].Ctx == "" {
			continue
		}
		out[i].Str = ""
		out[i].StrN = nil
		if out[i].Plural {
			out[i].StrN = []string{"", ""}
		}
	}
	return out
}

func c08save(c *C) {
	k := catalog(c.Rand, c.Intn(16))
	if c.Intn(3) == 0 {
		for i := range k.Msgs {
			if c.Intn(2) == 0 {
				k.Msgs[i].Str, k.Msgs[i].StrN = "", nil
			}
		}
	}
	if c.Intn(3) == 0 {
		k.HCmts = append(k.HCmts, "#, fuzzy")
	}
	f, cmts := anyFileTranslated(c, k)
	out := savePot(c, f)
	es, err := poParse(string(out))
	if err != nil {
		c.Fail("invalid", "the template is not a PO file: %v\n%s", err, out)
	}
	for i, e := range es {
		if e.ID == "" && e.Ctx == "" {
			if i != 0 {
				c.Fail("header", "the header is message %d\n%s", i, out)
			}
			continue
		}
		for _, s := range append(e.StrN, e.Str) {
			if s != "" {
				c.Fail("translation", "the template holds a translation: %v", e.Msg)
			}
		}
	}
	if d := sameMsgs(template(k), poMsgs(es), cmts); d != "" {
		c.Fail("template", "%s\n%s", d, out)
	}
	c.Count("templates parsed strictly", 1)
	c.Distinct(string(out))
	c.Sample("%d messages, %d bytes", len(k.Msgs), len(out))
	g, err := translator.ReadPot(out)
	if err != nil {
		c.Fail("read back", "%v\n%s", err, out)
	}
	if d := sameMsgs(template(k), fileMsgs(g), cmts); d != "" {
		c.Fail("read back", "%s\n%s", d, out)
	}
	checkHeader(c, g, k, "read back")
	if again := savePot(c, g); !bytes.Equal(out, again) {
		c.Fail("second save", "saving the re-read template gives other bytes\n%s\n---\n%s", out, again)
	}
	for _, m := range k.Msgs { // nothing is translated
		if got := g.X(m.Ctx, m.ID); got != m.ID {
			c.Fail("lookup", "X(%q,%q) in a template is %q", m.Ctx, m.ID, got)
		}
		if got := g.XN64(m.Ctx, m.ID, m.ID2, 3); got != refPlural(m.ID, m.ID2, 3) {
			c.Fail("lookup", "XN64(%q,%q,%q,3) in a template is %q", m.Ctx, m.ID, m.ID2, got)
		}
	}
}

func c08layouts(c *C) {
	k := catalog(c.Rand, c.Intn(12))
	want := template(k)
	if len(want) > 1 && c.Intn(8) == 0 { // a template whose header says nothing yet
		want[0].Str, k.Header, k.Lang = "", nil, ""
		c.Count("templates with an empty header", 1)
	}
	l := randomLayout(c.Rand)
	src := poPrint(c.Rand, want, l)
	f, err := translator.ReadPot([]byte(src))
	if err != nil {
		c.Fail("read", "ReadPot failed: %v\n%s", err, src)
	}
	if d := sameMsgs(want, fileMsgs(f), true); d != "" {
		c.Fail("read", "%s\n%+v\n%s", d, l, src)
	}
	checkHeader(c, f, k, "template")
	out := savePot(c, f)
	g, err := translator.ReadPot(out)
	if err != nil {
		c.Fail("read back", "%v\n%s", err, out)
	}
	if d := sameMsgs(want, fileMsgs(g), true); d != "" {
		c.Fail("read back", "%s\n%s", d, out)
	}
	if again := savePot(c, g); !bytes.Equal(out, again) {
		c.Fail("second save", "other bytes\n%s\n---\n%s", out, again)
	}
	c.Count("templates read", 1)
	c.Distinct(src)
}

func c08malformed(c *C) {
	bad, what := malformed(c, template(catalog(c.Rand, 1+c.Intn(6))))
	if what == "" {
		return
	}
	f, err := translator.ReadPot([]byte(bad))
	c.Count("malformed templates", 1)
	c.Distinct(bad)
	if err == nil {
		c.Fail("malformed", "ReadPot accepted %s; read %d messages\n%s", what, len(f.SortedEntry()), bad)
	}
	if c.Index%50 == 0 {
		if _, err := translator.ReadPot([]byte(fmt.Sprintf("msgid \"a\nmsgstr %d\n", c.Index))); err == nil {
			c.Fail("malformed", "accepted")
		}
	}
}
