package main

import (
	"fmt"
	"strings"

	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C04",
		Rule: "Catalogs (translated, partly translated, up to 12 plural forms, multi-line and long texts, control characters, every comment kind, odd headers) are written by an independent PO writer in random layouts (wrapping, LF or CRLF, octal, hexadecimal and named escapes, the \\u escapes earlier versions wrote, blank lines, obsolete entries, trailing comments, missing final newline) and read; messages, comments, header fields and lookups are compared. A malformed line put at any place outside comments must make reading fail. Non-trivial: distinct (layout, catalog) or distinct malformed texts.",
		Assumptions: []string{
			"conventional layout: no indentation, one blank or more after a keyword, comments above a message, three-digit octal escapes, an encoding that extends ASCII",
			"untranslated messages are compared through lookups only",
		},
		Sections: []Section{
			{Name: "layouts", Quick: 5000, Thorough: 60000, Fn: c04layouts, Need: []string{"messages compared", "crlf", "obsolete"}},
			{Name: "partial", Quick: 1600, Thorough: 16000, Fn: c04partial, Need: []string{"untranslated messages"}},
			{Name: "texts", Quick: 5000, Thorough: 60000, Fn: c04texts, Need: []string{"texts compared", "texts with bytes that are not UTF-8"}},
			{Name: "long", Quick: 60, Thorough: 500, Fn: c04long, Need: []string{"long texts"}},
			{Name: "bare", Quick: 400, Thorough: 4000, Fn: c04bare, Need: []string{"texts without messages", "texts without header"}},
			{Name: "malformed", Quick: 6000, Thorough: 60000, Fn: c04malformed, Need: []string{"malformed texts"}},
		}})
}

func checkHeader(c *C, f *translator.File, k *Cat, what string) {
	seen := map[string]bool{}
	for _, kv := range k.Header {
		if seen[kv[0]] {
			continue
		}
		seen[kv[0]] = true
		if v, ok := f.GetHeader(kv[0]); !ok || v != strings.TrimSpace(kv[1]) {
			c.Fail("header", "%s: header field %q is %q,%v want %q", what, kv[0], v, ok, kv[1])
		}
	}
	if v, ok := f.GetHeader("X-Absent"); ok || v != "" {
		c.Fail("header", "%s: absent header field is %q,%v", what, v, ok)
	}
	if f.Lang() != k.Lang {
		c.Fail("header", "%s: Lang()=%q want %q", what, f.Lang(), k.Lang)
	}
}

func c04layouts(c *C) {
	k := catalog(c.Rand, c.Intn(14))
	for i := range k.Msgs { // more forms than one digit can count
		if k.Msgs[i].Plural && c.Intn(6) == 0 {
			for len(k.Msgs[i].StrN) < 12 {
				k.Msgs[i].StrN = append(k.Msgs[i].StrN, nonEmpty(c.Rand))
			}
		}
	}
	l := randomLayout(c.Rand)
	if c.Intn(6) == 0 { // as earlier versions of the library wrote it
		l.Escape = 3
	}
	src := poPrint(c.Rand, k.all(), l)
	f, err := translator.ReadPo([]byte(src))
	if err != nil {
		c.Fail("read", "ReadPo failed: %v\n%+v\n%s", err, l, src)
	}
	if d := sameMsgs(k.all(), fileMsgs(f), true); d != "" {
		c.Fail("messages", "%s\nlayout %+v\n%s", d, l, src)
	}
	checkHeader(c, f, k, "after reading")
	if d := lookAll(c, f, k, 6); d != "" {
		c.Fail("lookup", "%s\nlayout %+v\n%s", d, l, src)
	}
	c.Count("messages compared", len(k.Msgs)+1)
	if l.EOL != "\n" {
		c.Count("crlf", 1)
	}
	if l.Obsolete || l.Tail == 3 {
		c.Count("obsolete", 1)
	}
	c.Distinct(src)
	c.Sample("%+v %d messages, %d bytes", l, len(k.Msgs), len(src))
}

func c04partial(c *C) {
	k := catalog(c.Rand, 3+c.Intn(10))
	for i := range k.Msgs {
		m := &k.Msgs[i]
		if c.Intn(3) != 0 {
			continue
		}
		c.Count("untranslated messages", 1)
		m.Str = ""
		for j := range m.StrN {
			if c.Intn(3) != 0 {
				m.StrN[j] = ""
			}
		}
	}
	l := randomLayout(c.Rand)
	src := poPrint(c.Rand, k.all(), l)
	f, err := translator.ReadPo([]byte(src))
	if err != nil {
		c.Fail("read", "ReadPo failed: %v\n%s", err, src)
	}
	checkHeader(c, f, k, "after reading")
	if d := lookAll(c, f, k, 50); d != "" {
		c.Fail("lookup", "%s\nlayout %+v\n%s", d, l, src)
	}
	c.Distinct(src)
}

// c04bare: texts without messages, or without a header.
func c04bare(c *C) {
	var ms []Msg
	what := "texts without messages"
	if c.Intn(2) == 0 {
		ms = catalog(c.Rand, 1+c.Intn(3)).Msgs
		what = "texts without header"
	}
	src := poPrint(c.Rand, ms, randomLayout(c.Rand))
	if src == "" {
		return
	}
	f, err := translator.ReadPo([]byte(src))
	if err != nil {
		c.Fail("read", "ReadPo of %s failed: %v\n%q", what, err, src)
	}
	if d := sameMsgs(ms, fileMsgs(f), true); d != "" {
		c.Fail("messages", "%s: %s\n%q", what, d, src)
	}
	if _, ok := f.GetHeader("Language"); ok || f.Lang() != "" {
		c.Fail("header", "%s: there is a language %q\n%q", what, f.Lang(), src)
	}
	if got := f.XN64("", "no such id", "no such ids", 2); got != "no such ids" {
		c.Fail("lookup", "%s: absent message answers %q", what, got)
	}
	c.Count(what, 1)
	c.Distinct(src)
}

// c04texts: one message, every field a random text, every layout of strings.
func c04texts(c *C) {
	m := Msg{Ctx: nonEmpty(c.Rand), ID: nonEmpty(c.Rand), Str: nonEmpty(c.Rand)}
	if c.Intn(2) == 0 {
		m.Plural, m.ID2, m.Str = true, nonEmpty(c.Rand), ""
		m.StrN = []string{nonEmpty(c.Rand), nonEmpty(c.Rand)}
	}
	if c.Intn(4) == 0 {
		k := Cat{Msgs: []Msg{m}}
		k.rawBytes(c.Rand)
		m = k.Msgs[0]
		c.Count("texts with bytes that are not UTF-8", 1)
	}
	ms := []Msg{{Str: "Language: de\n"}, m}
	for i := 0; i < 4; i++ {
		l := randomLayout(c.Rand)
		src := poPrint(c.Rand, ms, l)
		f, err := translator.ReadPo([]byte(src))
		if err != nil {
			c.Fail("read", "ReadPo failed: %v\n%s", err, src)
		}
		if d := sameMsgs(ms, fileMsgs(f), true); d != "" {
			c.Fail("messages", "%s\nlayout %+v\n%s", d, l, src)
		}
		c.Count("texts compared", 4)
		c.Distinct(src)
	}
}

// c04long: texts and comments on lines far longer than usual buffers.
func c04long(c *C) {
	n := []int{4090, 8190, 16380, 32760, 65530, 131060, 1 << 20}[c.Index%7] + c.Intn(12)
	long := func() string {
		unit := []string{"x", "word ", "中", "a\n", "\\", "\"", "\t", "é "}[c.Intn(8)]
		return strings.Repeat(unit, n/len(unit)+1) + words[c.Intn(len(words))]
	}
	ms := []Msg{{Str: "Language: de\n"}, {ID: "before", Str: "vorher"}, {ID: "m", Str: "M"}, {ID: "z", Str: "nachher"}}
	m := &ms[2]
	switch c.Intn(6) {
	case 0:
		m.Str = long()
	case 1:
		m.ID = long()
	case 2:
		m.Ctx = long()
	case 3:
		m.Plural, m.ID2, m.Str, m.StrN = true, long(), "", []string{"M", long()}
	case 4:
		m.Cmts = []string{"# " + oneLine(long())}
	default:
		for i := 0; i < n/16; i++ {
			m.Cmts = append(m.Cmts, fmt.Sprintf("#: f.go:%d", i))
		}
	}
	l := randomLayout(c.Rand)
	if c.Intn(2) == 0 {
		l.Wrap = 0
	}
	src := poPrint(c.Rand, ms, l)
	f, err := translator.ReadPo([]byte(src))
	if err != nil {
		c.Fail("read", "ReadPo of %d bytes with a long text failed: %v", len(src), err)
	}
	if d := sameMsgs(ms, fileMsgs(f), true); d != "" {
		c.Fail("messages", "long text: %.500s\nlayout %+v", d, l)
	}
	c.Count("long texts", 1)
	c.Distinct("long", fmt.Sprint(c.Index))
}

var badLines = []string{`msgid_plurl "x"`, `msgfoo "x"`, `hello`, `msgid`, `msgstr`, `msgctxt`, `msgid_plural`, `MSGID "x"`, `msgstr[x] "x"`, `msgstr[] "x"`, `msgstr[-1] "x"`,
	`msgstr[99] "x"`, `domain "x"`, `;`, `$`, `= 3`, `<<<<<<< HEAD`, `=======`, `"unterminated`, `"unterminated \"`, `"`, `"a" b`, `"a""`, `"a"b"`, `"\q"`, `"\"`, `"\x"`, `"\xg0"`, `"\8"`,
	`msgid x`, `msgid "x`, `msgid x"`, `msgstr "x`, `msgstr "`, `msgctxt "x`, `msgid_plural "x`, `msgid "a" "b`, "msgid 'x'", "msgstr `x`", "msgid `\"x\"`", "msgctxt 'c'", `msgid "a" trailing`, `msgstr "a"b"`, `msgstr "\z"`,
	"{", "//comment", "/* c */", "中文", "msgstr[0]\"x\"", "msgid\"x\"", `msgid `, `msgstr `, `msgid_plural `, `msgctxt `}

func c04malformed(c *C) {
	bad, what := malformed(c, catalog(c.Rand, 1+c.Intn(6)).all())
	if what == "" {
		return
	}
	f, err := translator.ReadPo([]byte(bad))
	c.Count("malformed texts", 1)
	c.Distinct(bad)
	c.Sample("malformed: %s", what)
	if err == nil {
		c.Fail("malformed", "ReadPo accepted %s; read %d messages\n%s", what, len(f.SortedEntry()), bad)
	}
}

// malformed puts one malformed line into well-formed text. what is empty when it could not.
func malformed(c *C, msgs []Msg) (bad, what string) {
	l := randomLayout(c.Rand)
	src := poPrint(c.Rand, msgs, l)
	lines := strings.Split(src, l.EOL)
	if l.NoEOF && c.Intn(2) == 0 {
		l.NoEOF = false
		lines = append(lines, "")
	}
	kind := c.Intn(4)
	if kind == 3 {
		return misplaced(c, lines, l.EOL)
	}
	switch kind {
	case 0: // a foreign line
		i := c.Intn(len(lines))
		bad := badLines[c.Intn(len(badLines))]
		what = fmt.Sprintf("line %q at %d", bad, i)
		lines = append(lines[:i:i], append([]string{bad}, lines[i:]...)...)
	case 1: // a damaged string
		var at []int
		for i, s := range lines {
			if !strings.HasPrefix(s, "#") && strings.Contains(s, `"`) {
				at = append(at, i)
			}
		}
		i := at[c.Intn(len(at))]
		s := strings.TrimRight(lines[i], " \t")
		switch c.Intn(5) {
		case 0:
			s = s[:len(s)-1]
		case 1:
			s = strings.Replace(s, `"`, "", 1)
		case 2:
			s = s + []string{`x`, ` x`, `"`, ` "x`, `\`, ` ; comment`, ` # comment`}[c.Intn(7)]
		case 3:
			s = s[:len(s)-1] + []string{`\q"`, `\"`, `\xzz"`, `\"`, `\u12"`, `\9"`, `""`, `"a"`}[c.Intn(8)]
		default:
			q := strings.Index(s, `"`)
			s = s[:q+1] + []string{`\q`, `"`, `\y`, `\xg`, `\-`, `" "`}[c.Intn(6)] + s[q+1:]
		}
		if strings.HasPrefix(s, "#") { // became a comment
			return "", ""
		}
		what = fmt.Sprintf("line %d became %q", i, s)
		lines[i] = s
	default: // an index gap
		var at []int
		for i, s := range lines {
			if strings.HasPrefix(s, "msgstr[") {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return "", ""
		}
		i := at[c.Intn(len(at))]
		var idx int
		fmt.Sscanf(lines[i], "msgstr[%d]", &idx)
		lines[i] = strings.Replace(lines[i], fmt.Sprintf("[%d]", idx), fmt.Sprintf("[%d]", idx+1+c.Intn(3)), 1)
		what = fmt.Sprintf("line %d became %q", i, lines[i])
	}
	return strings.Join(lines, l.EOL), what
}

// misplaced puts, repeats or removes a well-formed line where that leaves fields without a message.
func misplaced(c *C, lines []string, eol string) (bad, what string) {
	var at []int
	pick := func(ok func(i int, s string) bool) int {
		at = at[:0]
		for i, s := range lines {
			if ok(i, s) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return -1
		}
		return at[c.Intn(len(at))]
	}
	insert := func(i int, s string) {
		lines = append(lines[:i:i], append([]string{s}, lines[i:]...)...)
		what = fmt.Sprintf("line %q at %d", s, i)
	}
	switch c.Intn(6) {
	case 0: // a message loses its id
		i := pick(func(i int, s string) bool { return strings.HasPrefix(s, "msgid ") })
		if i < 0 {
			return "", ""
		}
		what = fmt.Sprintf("missing line %d %q", i, lines[i])
		j := i + 1
		for j < len(lines) && (strings.TrimSpace(lines[j]) == "" || strings.HasPrefix(lines[j], `"`)) {
			j++
		}
		lines = append(lines[:i:i], lines[j:]...)
	case 1: // a second translation or context
		i := pick(func(i int, s string) bool { return strings.HasPrefix(s, "msgstr") || strings.HasPrefix(s, "msgctxt") })
		if i < 0 {
			return "", ""
		}
		if strings.HasPrefix(lines[i], "msgctxt") {
			insert(i, `msgctxt "again"`)
		} else {
			insert(i+1, `msgstr "again"`)
			if j := i + 2; j < len(lines) && strings.HasPrefix(lines[j], "msgstr[") {
				return "", ""
			}
		}
	case 2: // a comment inside a message
		i := pick(func(i int, s string) bool {
			return strings.HasPrefix(s, "msgstr") || strings.HasPrefix(s, "msgid_plural") || strings.HasPrefix(s, `"`)
		})
		insert(i, []string{"# note", "#", "#. x", "#, fuzzy", "#~ x"}[c.Intn(5)])
	case 3: // a string above the first field
		i := pick(func(i int, s string) bool { return i == 0 || strings.HasPrefix(lines[i-1], "#") })
		insert(i, []string{`"stray"`, `""`, `"Language: zz\n"`, `"\t"`}[c.Intn(4)])
	case 4: // the plural id first
		i := pick(func(i int, s string) bool { return strings.HasPrefix(s, "msgid ") })
		if i < 0 {
			return "", ""
		}
		insert(i, `msgid_plural "ahead"`)
	default: // a translation of nothing, at the end
		lines = append(lines, "", []string{"# last", "", "#: f.go:1"}[c.Intn(3)], []string{`msgstr "x"`, `msgstr[0] "x"`, `msgctxt "x"`, `msgid_plural "x"`}[c.Intn(4)])
		what = "a field of no message at the end"
	}
	return strings.Join(lines, eol), what
}
