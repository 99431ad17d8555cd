package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/locale"
	"github.com/youthlin/t/translator"
)

// c11ctxs are contexts of messages with empty id, none of which makes a header.
var c11ctxs = []string{"ctx", " ", "Language", "header", "Header", "HEADER", "meta", "metadata", "info", "default", "fuzzy", "0", "-", "_", "\n", "\t", "Plural-Forms", "nil", "null", "zz", "de", "po", "msgctxt", "\u00a0"}

func init() {
	register(&Property{ID: "C11",
		Rule: "Histories of AddEntry (headers with repeated, misspelt, padded and missing fields; messages; messages with empty id under a context), lookups, GetHeader, listing and saving on one catalog; after every step Lang, GetHeader of every field name in play and plural lookups are compared with an independent parse of the header last added. Texts read through ReadPo/ReadPot/ReadMo carry the header at any position, or none, or as contextual look-alikes. Non-trivial: distinct (header text, step) states checked.",
		Sections: []Section{
			{Name: "history", Quick: 60000, Thorough: 1500000, Fn: c11history, Need: []string{"states checked", "header replaced", "rule followed", "contextual empty id"}},
			{Name: "read", Quick: 100000, Thorough: 300000, Fn: c11read, Need: []string{"header not first", "no header", "states checked"}},
			{Name: "bound", Quick: 10000, Thorough: 30000, Fn: c11bound, Need: []string{"bound under its language"}},
		}})
}

// refHeader parses header text by the rules of the property.
func refHeader(s string) map[string]string {
	m := map[string]string{}
	for _, line := range strings.Split(s, "\n") {
		i := strings.Index(line, ": ")
		if i < 0 {
			continue
		}
		k := strings.TrimSpace(line[:i])
		if _, ok := m[k]; !ok {
			m[k] = strings.TrimSpace(line[i+2:])
		}
	}
	return m
}

// headerSpec is a generated header: its text, and the rule it declares.
type headerSpec struct {
	text   string
	nforms int // 0: no usable rule
	index  int // form the rule selects for every n but 7; see rule
	sevens int
}

var headerKeys = []string{"Language", "Plural-Forms", "language", "LANGUAGE", "Language-Team", "X-A", "X-A: b", "", "Plural-forms", "X", "Content-Type", "Plural-Forms:", "plural-forms", "PLURAL-FORMS", "#X", "# Language", "X-A:b", "lang", "Language ", " Language", "Language:", "\"Language\""}

func randomHeader(c *C) headerSpec {
	h := headerSpec{}
	var lines []string
	n := c.Intn(6)
	if c.Intn(20) == 0 { // many fields
		for i, n := 0, 1+c.Intn(60); i < n; i++ {
			lines = append(lines, fmt.Sprintf("X-Field-%d: %d", i, i*i))
		}
	}
	for i := 0; i < n; i++ {
		switch c.Intn(12) {
		case 8:
			lines = append(lines, []string{"#X: y", "# Language: qq", "#Plural-Forms: nplurals=1; plural=0;", "plural-forms: nplurals=1; plural=0;", "PLURAL-FORMS: nplurals=1; plural=0;", "LANGUAGE: qq", "language: qq", ";Language: q", "// Language: q", "- Language: q", "\"Language: qq\"", "X_A: b", "\\nLanguage: q", "lang: q", "Lang: q", "X-Language: q", "Language-Code: q"}[c.Intn(17)])
		case 9:
			lines = append(lines, "Language: "+[]string{"zh_CN.UTF-8", "zh_CN.UTF-8@x", "de@euro", "sr_RS@latin", "DE", "de-de", "de_DE, fr", "de fr", "German", "C", "POSIX", "zh-Hant-TW", "\u00a0de", "de;q=1", "de_DE # x", "中文", "x", strings.Repeat("ab_", 30), "de: fr", "de\rfr", "a\tb"}[c.Intn(21)])
		case 10:
			lines = append(lines, []string{"X-A: a\rLanguage: qq", "X: a\r", "\rX-A: b", "X-A\r: b", "X-A: a\vb", "X-A: \u2028Language: qq", "X-A: a\x85b", "\ufeffLanguage: qq", "X-A: a\\nLanguage: qq", "X-A: 'q'", "X-A: \"q\""}[c.Intn(11)])
		case 0:
			lines = append(lines, "Language: "+langPool[c.Intn(len(langPool))])
		case 1:
			lines = append(lines, " Language :  "+langPool[c.Intn(len(langPool))]+" \t")
		case 2:
			lines = append(lines, []string{"Language:zz", "language: qq", "LANGUAGE: qq", "Language;: q", "Language", "Language : ", "Language: "}[c.Intn(7)])
		case 3:
			lines = append(lines, []string{"X-A: b: c", "X-A:b: c", ": v", "X: ", ":", ": ", " ", "X-A:  : ", "Plural-forms: nplurals=1; plural=0;", "X Plural-Forms: nplurals=1; plural=0;", "Plural-Forms:nplurals=1; plural=0;", "Plural-Forms :nplurals=1; plural=0;"}[c.Intn(12)])
		case 4:
			lines = append(lines, "X-Note: "+oneLine(text(c.Rand)))
		case 5:
			lines = append(lines, "Language-Team: Language: zz")
		case 6:
			lines = append(lines, "Content-Type: text/plain; charset=UTF-8")
		default:
			lines = append(lines, "")
		}
	}
	if c.Intn(4) > 0 { // declare a rule, now and then again (the first counts)
		h.nforms = 1 + c.Intn(5)
		h.index, h.sevens = c.Intn(h.nforms), c.Intn(h.nforms)
		rule := fmt.Sprintf("nplurals=%d; plural=n==7?%d:%d;", h.nforms, h.sevens, h.index)
		at := c.Intn(len(lines) + 1)
		pre := []string{"Plural-Forms: ", "Plural-Forms:  ", " Plural-Forms: ", "Plural-Forms : "}[c.Intn(4)]
		lines = append(lines[:at:at], append([]string{pre + rule}, lines[at:]...)...)
		if c.Intn(3) == 0 {
			lines = append(lines, "Plural-Forms: nplurals=1; plural=0;")
		}
	}
	h.text = strings.Join(lines, "\n")
	if c.Intn(4) > 0 && h.text != "" {
		h.text += "\n"
	}
	return h
}

// c11state compares everything the catalog derives from its header with spec (nil: no header).
func c11state(c *C, f *translator.File, h *headerSpec, plurals map[string][]string, step string) {
	want := map[string]string{}
	txt := ""
	if h != nil {
		txt = h.text
		want = refHeader(h.text)
	}
	if got := f.Lang(); got != want["Language"] {
		c.Fail("lang", "after %s: Lang()=%q want %q; header %q", step, got, want["Language"], txt)
	}
	keys := append([]string(nil), headerKeys...)
	for k := range want {
		keys = append(keys, k)
	}
	for _, k := range keys {
		w, wok := want[k]
		if g, ok := f.GetHeader(k); g != w || ok != wok {
			c.Fail("field", "after %s: GetHeader(%q)=%q,%v want %q,%v; header %q", step, k, g, ok, w, wok, txt)
		}
	}
	for id, forms := range plurals {
		for _, n := range []int64{0, 1, 2, 7} {
			w := id + "-plural"
			if n == 1 {
				w = id
			}
			if h != nil && h.nforms > 0 {
				i := h.index
				if n == 7 {
					i = h.sevens
				}
				if i < len(forms) {
					w = forms[i]
				}
				c.Count("rule followed", 1)
			}
			if got := f.XN64("", id, id+"-plural", n); got != w {
				c.Fail("rule", "after %s: XN64(%q,%d)=%q want %q; header %q, forms %q", step, id, n, got, w, txt, forms)
			}
		}
	}
	c.Count("states checked", 1)
	c.Distinct(txt, step, fmt.Sprint(len(plurals)))
}

func pluralEntry(c *C, k int) *translator.Entry {
	id := fmt.Sprintf("id%d", k)
	e := &translator.Entry{MsgID: id, MsgID2: id + "-plural", IsPlural: true}
	for j, n := 0, 1+c.Intn(5); j < n; j++ {
		e.MsgStrN = append(e.MsgStrN, fmt.Sprintf("%s-form%d", id, j))
	}
	return e
}

func c11history(c *C) {
	f := new(translator.File)
	var cur *headerSpec
	plurals := map[string][]string{}
	var trace []string
	for i, n := 0, 2+c.Intn(12); i < n; i++ {
		step := ""
		switch c.Intn(9) {
		case 0, 1, 2:
			h := randomHeader(c)
			f.AddEntry(&translator.Entry{MsgStr: h.text, MsgCmts: comments(c.Rand)})
			if cur != nil {
				c.Count("header replaced", 1)
			}
			cur, step = &h, "add header"
		case 3, 4:
			e := pluralEntry(c, c.Intn(4))
			f.AddEntry(e)
			plurals[e.MsgID] = e.MsgStrN
			step = "add plural"
		case 5:
			h := randomHeader(c)
			f.AddEntry(&translator.Entry{MsgCtxt: c11ctxs[c.Intn(len(c11ctxs))], MsgStr: "Language: zz\nPlural-Forms: nplurals=1; plural=0;\n" + h.text})
			c.Count("contextual empty id", 1)
			step = "add contextual empty id"
		case 6:
			f.AddEntry(&translator.Entry{MsgID: []string{" ", "Language", "\n", "x"}[c.Intn(4)], MsgStr: "Language: zz\nPlural-Forms: nplurals=1; plural=0;\n"})
			step = "add look-alike"
		case 7:
			f.X("", "")
			f.XN64("", "id0", "id0-plural", count(c.Rand))
			f.GetHeader("Language")
			f.Lang()
			step = "look up"
		default:
			var b bytes.Buffer
			switch c.Intn(4) {
			case 0:
				f.SaveAsPo(&b)
			case 1:
				f.SaveAsPot(&b)
			case 2:
				f.SaveAsMo(&b)
			default:
				f.SortedEntry()
			}
			step = "save or list"
		}
		trace = append(trace, step)
		c11state(c, f, cur, plurals, strings.Join(trace, ", "))
	}
}

func c11read(c *C) {
	var msgs []Msg
	var h *headerSpec
	plurals := map[string][]string{}
	for k := 0; k < c.Intn(4); k++ {
		e := pluralEntry(c, k)
		plurals[e.MsgID] = e.MsgStrN
		msgs = append(msgs, msgOf(e))
	}
	if c.Intn(2) == 0 {
		msgs = append(msgs, Msg{Ctx: c11ctxs[c.Intn(len(c11ctxs))], Str: "Language: zz\nPlural-Forms: nplurals=1; plural=0;\n"})
	}
	if c.Intn(2) == 0 {
		msgs = append(msgs, Msg{ID: "Language: zz", Str: "Language: zz\n"})
	}
	c.Shuffle(len(msgs), func(i, j int) { msgs[i], msgs[j] = msgs[j], msgs[i] })
	if c.Intn(5) > 0 {
		hs := randomHeader(c)
		if hs.text == "" {
			hs.text = "X: y\n"
		}
		h = &hs
		at := c.Intn(len(msgs) + 1)
		if at > 0 {
			c.Count("header not first", 1)
		}
		msgs = append(msgs[:at:at], append([]Msg{{Str: hs.text}}, msgs[at:]...)...)
	} else {
		c.Count("no header", 1)
	}
	if len(msgs) == 0 {
		return
	}
	kind := []string{"po", "pot", "mo"}[c.Intn(3)]
	var f *translator.File
	var err error
	var src []byte
	switch kind {
	case "mo":
		f, err = translator.ReadMo(moWrite(c.Rand, msgs, randomMOLayout(c.Rand)).data)
	case "pot":
		src = []byte(poPrint(c.Rand, msgs, randomLayout(c.Rand)))
		f, err = translator.ReadPot(src)
		if len(plurals) > 0 { // a template's forms are not asserted
			plurals = nil
		}
	default:
		src = []byte(poPrint(c.Rand, msgs, randomLayout(c.Rand)))
		f, err = translator.ReadPo(src)
	}
	if err != nil {
		c.Fail("read", "reading %s: %v\n%s", kind, err, src)
	}
	c11state(c, f, h, plurals, "reading "+kind)
	if c.Intn(2) == 0 { // and replaced afterwards
		h2 := randomHeader(c)
		f.AddEntry(&translator.Entry{MsgStr: h2.text})
		c11state(c, f, &h2, plurals, "reading "+kind+", add header")
	}
}

// c11bound: a translation files a catalog under the language of the header it has at that time.
func c11bound(c *C) {
	h := randomHeader(c)
	f := new(translator.File)
	if c.Intn(2) == 0 {
		old := randomHeader(c)
		f.AddEntry(&translator.Entry{MsgStr: old.text})
		f.Lang()
	}
	f.AddEntry(&translator.Entry{MsgID: "a", MsgStr: "translated"})
	f.AddEntry(&translator.Entry{MsgStr: h.text})
	tr := t.NewTranslation("d", f)
	lang := refHeader(h.text)["Language"]
	if lang == "" {
		for _, l := range langPool {
			if _, ok := tr.Get(locale.Normalize(l)); ok {
				c.Fail("bound", "a catalog without a language is filed under %s; header %q", l, h.text)
			}
		}
		return
	}
	for _, l := range append([]string{"zz"}, langPool...) {
		_, ok := tr.Get(locale.Normalize(l))
		if want := locale.Normalize(l) == locale.Normalize(lang); ok != want {
			c.Fail("bound", "catalog of language %q: Get(%s) finds %v want %v; header %q", lang, l, ok, want, h.text)
		}
	}
	c.Count("bound under its language", 1)
	c.Distinct("bound", h.text)
}
