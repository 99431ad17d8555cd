package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/youthlin/t/locale"
)

func init() {
	register(&Property{ID: "C28",
		Rule:        "The real xtemplate command runs in a scratch directory in situations of known outcome: success, help, version, missing and unknown flags, bad keywords of each class, a bad pattern, unreadable and unparsable matches, messages used both ways, unwritable outputs, with and without -d. languages: each situation runs first without any catalog; then under LANG_PATH with catalogs that mark every message for several languages (a directory, nested ones, one file, PO or MO, relative paths, damaged and foreign files beside them) and environments naming a language in LANGUAGE, LANG, LC_MESSAGES or LC_ALL; where the language has a catalog, the output must be the first one with every expected message marked, and the same after removing the marks; where it has none, exactly the first one. builtin: without LANG_PATH (unset, empty, blank) and for Chinese the output equals that with LANG_PATH naming a copy of the built-in catalog, holds its texts as an independent reader finds them, and for other languages is the English one. hostile: catalogs with random translations (verbs lost, added or swapped, odd headers) change messages only. In every run the exit code, the extracted template (but for its date), the files in the directory and what went to which stream are compared. arguments: flags in any order and spelling mean the same; messages name the given keyword, file and output byte for byte, percent signs included. Non-trivial: distinct (situation, environment).",
		Assumptions: []string{"the messages of the command are the 34 known ones", "the environment's language is named by one variable, as the locale package detects it"},
		Sections: []Section{
			{Name: "languages", Quick: 1200, Thorough: 16000, Fn: c28languages, Need: []string{"marked outputs", "unmarked outputs", "templates compared"}},
			{Name: "builtin", Quick: 800, Thorough: 10000, Fn: c28builtin, Need: []string{"built-in texts seen", "unmarked outputs", "paths without catalogs"}},
			{Name: "hostile", Quick: 800, Thorough: 12000, Fn: c28hostile, Need: []string{"templates compared"}},
			{Name: "arguments", Quick: 2000, Thorough: 30000, Fn: c28arguments, Need: []string{"names shown", "flag orders compared"}},
		}})
}

var c28flags = []string{"input file pattern", "left delim", "right delim", "keywords e.g.: gettext;T:1;N:1,2;X:1c,2;XN:1c,2,3", "function names of template", "output file, - is stdout", "debug mode", "show version", "show help message"}

const (
	c28usage    = "Usage of %s:\nxtemplate -i input-pattern -k keywords [-f functions] [-o output]\n"
	c28required = "flags -i and -k are required"
	c28kw       = "invalid keywords: %s"
	c28run      = "run error: %v"
	c28runD     = "run error: %+v"
	c28file     = "failed to process file %v. error message: %v"
	c28fileD    = "failed to process file %v. error message: %+v"
	c28parse    = "failed to parse file %v"
	c28read     = "failed to read file %v"
	c28pattern  = "invalid input pattern"
	c28warn     = "Warning: %v"
	c28warnD    = "Warning: %+v"
	c28both     = "msgid '%v' is used without plural and with plural.\nLine    =%v\nPrevious=%v"
	c28open     = "can not open output file: %s"
)

var c28msgs = append([]string{c28usage, c28required, c28kw, c28run, c28runD, c28file, c28fileD, c28parse, c28read, c28pattern, c28warn, c28warnD, c28both, c28open,
	"unexpected error: %+v\n", "msg id index is not a number", "context index is not a number: %v", "msg id index is not a number: %v", "msg plural index is not a number: %v",
	"context index must end with 'c': %v", "msg context index is not a number: %v", "too much keyword index"}, c28flags...)

// c28sit is one situation.
type c28sit struct {
	what  string
	args  []string
	msgs  []string // messages shown
	names []string // given by the caller, shown as they are
	code  int      // 0, or -1 for any failure
	out   bool     // a template is extracted
}

// c28make makes a scratch directory and a situation in it.
func c28make(c *C, only int) (string, *c28sit) {
	dir := c.Dir()
	must(os.Mkdir(filepath.Join(dir, "tm"), 0o755))
	src := "{{T \"one\"}}\n{{N \"%d two\" \"%d twos\" 2}}{{X \"menu\" \"three\"}}\n"
	for i := 0; i < c.Intn(4); i++ {
		src += fmt.Sprintf("{{T %q}}\n", plain(c.Rand))
	}
	name := []string{"a", "é", "b c", "100%", "%d", "%s%v", "a%20b", "%!d(MISSING)", "%%"}[c.Intn(9)] + ".tmpl"
	file := filepath.Join("tm", name)
	must(os.WriteFile(filepath.Join(dir, file), []byte(src), 0o644))
	kw := "T;N:1,2;X:1c,2"
	s := &c28sit{args: []string{"-i", "tm/*.tmpl", "-k", kw}, code: -1}
	dbg := c.Chance(1, 4)
	n := only
	if n < 0 {
		n = c.Intn(14)
	}
	switch n {
	case 0, 1:
		s.what, s.code, s.out, dbg = "success", 0, true, false
		if n == 1 {
			s.args = append(s.args, "-o", "out%d.pot")
		}
	case 2:
		s.what, s.code = "help", 0
		s.args = append([][]string{nil, s.args, {"-o", "x"}}[c.Intn(3)], "-h")
		s.msgs = append([]string{c28usage}, c28flags...)
	case 3:
		s.what, s.code = "version", 0
		s.args = append([][]string{nil, s.args, {"-o", "x"}, {"-h=false"}}[c.Intn(4)], "-v")
		dbg = false
	case 4:
		s.what = "missing flag"
		s.args = [][]string{nil, {"-i", "tm/*.tmpl"}, {"-k", kw}, {"-i", "", "-k", kw}, {"-i", "tm/*.tmpl", "-k", " "}, {"-i", " \t", "-k", kw}}[c.Intn(6)]
		s.msgs = append([]string{c28usage, c28required}, c28flags...)
	case 5:
		s.what = "unknown flag"
		s.args = append(s.args, []string{"-x", "--nosuch", "-output=x", "-i:"}[c.Intn(4)])
		s.msgs = append([]string{c28usage}, c28flags...)
	case 6, 7:
		s.what = "bad keywords"
		pre := []string{"", "", "T;", "T;N:1,2;", "%d;", "%s%v;"}[c.Intn(6)]
		bad := []struct{ kw, msg string }{{"T:x", "msg id index is not a number"}, {"N:%d", "msg id index is not a number"}, {"X:zc,2", "context index is not a number: %v"}, {"X:1c,y", "msg id index is not a number: %v"}, {"N:a,2", "msg id index is not a number: %v"},
			{"N:1,%s", "msg plural index is not a number: %v"}, {"XN:1,2,3", "context index must end with 'c': %v"}, {"XN:%dc,2,3", "msg context index is not a number: %v"}, {"XN:1c,2%,3", "msg id index is not a number: %v"}, {"XN:1c,2,100%", "msg plural index is not a number: %v"},
			{"T:1,2,3,4", "too much keyword index"}, {"%d:1,2,3,4", "too much keyword index"}, {":1", ""}, {"T:1:2", ""}, {"100%:0", ""}, {";", ""}, {"%v:-1", ""}, {"T:%!v(MISSING):", ""}}[c.Intn(18)]
		s.args[3] = pre + bad.kw
		s.msgs = []string{c28run, c28kw}
		if bad.msg != "" {
			s.msgs = append(s.msgs, bad.msg)
		}
		s.names = []string{s.args[3]}
	case 8:
		s.what = "bad pattern"
		s.args[1] = "tm/[" // found bad only when something is there to match
		s.msgs = []string{c28run, c28pattern}
	case 9:
		s.what = "unreadable match"
		if c.Chance(1, 2) {
			must(os.Mkdir(filepath.Join(dir, "tm/0%d.tmpl"), 0o755))
		} else {
			must(os.Symlink("nowhere", filepath.Join(dir, "tm/0%d.tmpl")))
		}
		s.msgs = []string{c28run, c28file, c28read}
		s.names = []string{"tm/0%d.tmpl"}
	case 10:
		s.what = "unparsable match"
		must(os.WriteFile(filepath.Join(dir, "tm/zz%s.tmpl"), []byte("{{T \"a\"}}{{if}}"), 0o644))
		s.msgs = []string{c28run, c28file, c28parse}
		s.names = []string{"tm/zz%s.tmpl"}
	case 11:
		s.what = "used both ways"
		must(os.WriteFile(filepath.Join(dir, "tm/zz.tmpl"), []byte("{{T \"50% both\"}} {{N \"50% both\" \"boths\" 1}}"), 0o644))
		s.msgs = []string{c28warn, c28both}
		s.names = []string{"50% both", "tm/zz.tmpl:1"}
		s.code, s.out = 0, true
	case 12:
		s.what = "unwritable output"
		o := []string{"nodir/100%.pot", "nodir/%d%s", "tm", "nodir/é %v.pot"}[c.Intn(4)]
		s.args = append(s.args, "-o", o)
		s.msgs = []string{c28run, c28open}
		s.names = []string{o}
	default:
		s.what, s.code, s.out = "nothing matches", 0, true
		s.args[1] = "tm/*.none"
		dbg = false
	}
	if dbg && s.code == -1 && s.what != "missing flag" && s.what != "unknown flag" {
		s.args = append(s.args, "-d")
		s.what += " -d"
		for i, m := range s.msgs {
			switch m {
			case c28run:
				s.msgs[i] = c28runD
			case c28file:
				s.msgs[i] = c28fileD
			}
		}
	}
	return dir, s
}

func (s *c28sit) String() string { return fmt.Sprintf("%s %q", s.what, s.args) }

// c28all is everything a run shows; the template's creation date is removed.
type c28all struct {
	out, err, files string
	code            int
}

func c28run1(c *C, dir string, s *c28sit, env []string) c28all {
	r := xrun(c, dir, nil, env, s.args...)
	a := c28all{out: c21norm(r.out), err: r.err, code: r.code}
	a.files = c28files(dir)
	return a
}

var c28unmark = strings.NewReplacer("⟦", "", "⟧", "")

// head is the text of a message up to its first argument.
func c28head(m string) string {
	if i := strings.Index(m, "%"); i >= 0 {
		m = m[:i]
	}
	return m
}

// c28catalog makes a catalog translating the command's messages.
func c28catalog(c *C, lang string, tr func(string) string) *Cat {
	k := &Cat{Lang: lang, NForms: 2, Rule: "n != 1", Expr: mustParseExpr("n != 1")}
	k.setHeader(c.Rand)
	for _, m := range c28msgs {
		k.Msgs = append(k.Msgs, Msg{ID: m, Str: tr(m)})
	}
	c.Shuffle(len(k.Msgs), func(i, j int) { k.Msgs[i], k.Msgs[j] = k.Msgs[j], k.Msgs[i] })
	return k
}

// c28write stores catalogs below dir/cats and gives the value for LANG_PATH.
func c28write(c *C, dir string, cats []*Cat) string {
	base := filepath.Join(dir, "cats dir")
	sub := []string{"", "", "po", "x/y"}[c.Intn(4)]
	must(os.MkdirAll(filepath.Join(base, sub), 0o755))
	one := ""
	for i, k := range cats {
		name := fmt.Sprintf("%d-%s.po", i, k.Lang)
		data := []byte(poPrint(c.Rand, k.all(), randomLayout(c.Rand)))
		if c.Chance(1, 3) {
			name = fmt.Sprintf("%d-%s.mo", i, k.Lang)
			data = moWrite(c.Rand, k.all(), randomMOLayout(c.Rand)).data
		}
		one = filepath.Join(base, sub, name)
		must(os.WriteFile(one, data, 0o644))
	}
	if c.Chance(1, 3) { // others beside them
		must(os.WriteFile(filepath.Join(base, "bad.po"), []byte("msgid \"a\nmsgstr"), 0o644))
		must(os.WriteFile(filepath.Join(base, "bad.mo"), []byte("\xde\x12\x04\x95 nothing"), 0o644))
		must(os.WriteFile(filepath.Join(base, "README.txt"), []byte("msgid \"show version\"\nmsgstr \"wrong\"\n"), 0o644))
		must(os.Symlink("nowhere", filepath.Join(base, "link.po")))
	}
	if len(cats) == 1 && c.Chance(1, 2) {
		base = one
	}
	if c.Chance(1, 2) {
		r, err := filepath.Rel(dir, base)
		must(err)
		base = []string{"", "./", "tm/../"}[c.Intn(3)] + r
	}
	return base
}

// c28env makes an environment that names the language.
func c28env(c *C, lang string) []string {
	v := lang + []string{"", ".UTF-8", ".utf8"}[c.Intn(3)]
	switch c.Intn(6) {
	case 4: // the first one of the list counts, before the other variables
		return []string{"LANGUAGE=" + lang + []string{":en", ":fr:de", ":zh_CN"}[c.Intn(3)], "LANG=en_US.UTF-8"}
	case 5:
		return []string{"LANGUAGE=" + lang, "LC_ALL=" + []string{"en_US.UTF-8", v, "fr_FR"}[c.Intn(3)]}
	case 0:
		return []string{"LANG=" + v}
	case 1:
		return []string{"LC_ALL=" + v}
	case 2:
		return []string{"LC_MESSAGES=" + v}
	}
	return []string{"LC_ALL=" + v, "LC_MESSAGES=" + v, "LANG=" + v}
}

// c28basic judges the run without catalogs.
func c28basic(c *C, s *c28sit, a c28all, before string) {
	if (s.code == 0) != (a.code == 0) {
		c.Fail("exit", "%v: exit %d\n%s", s, a.code, a.err)
	}
	for _, m := range s.msgs {
		if !strings.Contains(a.err, c28head(m)) {
			c.Fail("message", "%v: the message %q is not shown:\n%s", s, m, a.err)
		}
	}
	for _, n := range s.names {
		if !strings.Contains(a.err, n) {
			c.Fail("message", "%v: the messages do not name %q as it was given:\n%s", s, n, a.err)
		}
		c.Count("names shown", 1)
	}
	shown := a.err
	for _, odd := range []string{"%!d(MISSING)", "%!v(MISSING)"} { // names given so
		shown = strings.ReplaceAll(shown, odd, "")
	}
	if strings.Contains(shown, "%!") {
		c.Fail("message", "%v: a message is garbled:\n%s", s, a.err)
	}
	if strings.HasPrefix(s.what, "version") && (!strings.Contains(a.out, "version: ") || !strings.Contains(a.out, "xtemplate")) {
		c.Fail("version", "%v: shows %q %q", s, a.out, a.err)
	}
	if !strings.Contains(a.out, "msgid \"\"") && !strings.Contains(a.files, "X-Xtemplate-Input") && s.out {
		c.Fail("template", "%v: no template is written\n%s", s, a.out)
	}
	if !s.out && (a.files != before || strings.Contains(a.out, "msgid \"\"")) {
		c.Fail("template", "%v: something is written\n%s\n%s\n%s", s, a.out, before, a.files)
	}
}

// same tells whether the runs differ in anything but messages.
func c28same(c *C, s *c28sit, env []string, want, got c28all, files string) {
	if got.code != want.code {
		c.Fail("exit", "%v in %q: exit %d, otherwise %d\n%s", s, env, got.code, want.code, got.err)
	}
	if got.out != want.out && !strings.HasSuffix(s.what, "-d") {
		c.Fail("output", "%v in %q: standard output\n%s\notherwise\n%s", s, env, got.out, want.out)
	}
	if got.files != files {
		c.Fail("files", "%v in %q: files\n%s\notherwise\n%s", s, env, got.files, files)
	}
	if s.out {
		c.Count("templates compared", 1)
	}
}

// c28files is the content of the directory but for catalogs.
func c28files(dir string) string {
	var sb strings.Builder
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil || strings.HasPrefix(rel, "cats") {
			return nil
		}
		fmt.Fprintf(&sb, "%s %v;", rel, fi.Mode())
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			sb.WriteString(c21norm(string(b)))
		}
		return nil
	})
	return sb.String()
}

func c28languages(c *C) {
	dir, s := c28make(c, -1)
	defer os.RemoveAll(dir)
	before := c28files(dir)
	none := []string{"LANG_PATH=/nonexistent/nothing"}
	ref := c28run1(c, dir, s, none)
	c28basic(c, s, ref, before)
	var cats []*Cat
	langs := []string{"de_DE", "fr_FR", "zh_CN", "zh_TW", "ja_JP", "pt_BR"}
	has := map[string]bool{}
	for _, i := range c.Perm(len(langs))[:1+c.Intn(3)] {
		l := langs[i]
		has[l] = true
		cats = append(cats, c28catalog(c, l, func(m string) string { return "⟦" + m + "⟧" }))
	}
	path := c28write(c, dir, cats)
	for i := 0; i < 4; i++ {
		lang := append(langs, "C", "ko_KR", "en_US")[c.Intn(len(langs)+3)]
		env := append(c28env(c, lang), "LANG_PATH="+path)
		got := c28run1(c, dir, s, env)
		c28same(c, s, env, ref, got, ref.files)
		if !has[locale.Normalize(lang)] {
			if got.err != ref.err {
				c.Fail("language", "%v in %q: messages\n%s\nthough no catalog is of this language; otherwise\n%s", s, env, got.err, ref.err)
			}
			c.Count("unmarked outputs", 1)
			continue
		}
		if u := c28unmark.Replace(got.err); u != ref.err {
			c.Fail("language", "%v in %q: messages\n%s\nwithout marks they are not\n%s", s, env, got.err, ref.err)
		}
		for _, m := range s.msgs {
			if !strings.Contains(got.err, "⟦"+c28head(m)) {
				c.Fail("language", "%v in %q: the message %q is not in the language:\n%s", s, env, m, got.err)
			}
		}
		c.Count("marked outputs", 1)
		c.Distinct(s.String(), fmt.Sprint(env))
	}
	c.Sample("%v: %d languages", s, len(cats))
}

func c28builtin(c *C) {
	dir, s := c28make(c, -1)
	defer os.RemoveAll(dir)
	before := c28files(dir)
	ref := c28run1(c, dir, s, []string{"LANG_PATH=/nonexistent/nothing"})
	c28basic(c, s, ref, before)
	tree := os.Getenv("VERIF_TREE")
	po, err := os.ReadFile(filepath.Join(tree, "cmd/xtemplate/lang/zh_CN.po"))
	if err != nil {
		inconclusive("%v", err)
	}
	es, err := poParse(string(po))
	if err != nil {
		c.Fail("builtin", "the built-in catalog is malformed: %v", err)
	}
	zh := map[string]string{}
	for _, m := range poMsgs(es) {
		zh[m.ID] = m.Str
	}
	must(os.Mkdir(filepath.Join(dir, "cats"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "cats/zh_CN.po"), po, 0o644))
	// a path without catalogs does not bring back the built-in ones
	must(os.Mkdir(filepath.Join(dir, "cats empty"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "cats.bad.po"), []byte("msgid \"open\n"), 0o644))
	no := []string{"cats empty", "cats.bad.po", "nowhere", "tm", "cats.bad.po/x", "./cats empty/"}[c.Intn(6)]
	env := append(c28env(c, "zh_CN"), "LANG_PATH="+no)
	if got := c28run1(c, dir, s, env); got.err != ref.err || got.code != ref.code {
		c.Fail("builtin", "%v in %q: messages\n%s\nthough no catalog is there; otherwise\n%s", s, env, got.err, ref.err)
	}
	c.Count("paths without catalogs", 1)
	unset := [][]string{nil, {"LANG_PATH="}, {"LANG_PATH=  "}, {"LANG_PATH=\t"}}
	copied := c28run1(c, dir, s, []string{"LANG=zh_CN.UTF-8", "LANG_PATH=cats"})
	for _, l := range []string{"zh_CN", "zh", "zh-Hans", "de_DE", "C", "en_US", "zh_TW"} {
		if c.Chance(1, 3) {
			continue
		}
		env := append(c28env(c, l), unset[c.Intn(4)]...)
		got := c28run1(c, dir, s, env)
		c28same(c, s, env, ref, got, ref.files)
		if locale.Normalize(l) != "zh_CN" {
			if got.err != ref.err {
				c.Fail("builtin", "%v in %q: messages\n%s\notherwise\n%s", s, env, got.err, ref.err)
			}
			c.Count("unmarked outputs", 1)
			continue
		}
		if got.err != copied.err {
			c.Fail("builtin", "%v in %q: messages\n%s\nwith a copy of the built-in catalog\n%s", s, env, got.err, copied.err)
		}
		for _, m := range s.msgs {
			w := m
			if zh[m] != "" {
				w = zh[m]
				c.Count("built-in texts seen", 1)
			}
			if !strings.Contains(got.err, c28head(w)) {
				c.Fail("builtin", "%v in %q: %q is not shown as %q:\n%s", s, env, m, w, got.err)
			}
		}
		c.Distinct(s.String(), fmt.Sprint(env))
	}
}

func c28hostile(c *C) {
	dir, s := c28make(c, -1)
	defer os.RemoveAll(dir)
	before := c28files(dir)
	ref := c28run1(c, dir, s, []string{"LANG_PATH=/nonexistent/nothing"})
	c28basic(c, s, ref, before)
	k := c28catalog(c, "de_DE", func(m string) string {
		switch c.Intn(5) {
		case 0:
			return strings.NewReplacer("%v", "", "%s", "", "%+v", "").Replace(m) + "x"
		case 1:
			return m + " %d %s %[9]v %"
		case 2:
			return strings.NewReplacer("%v", "%d", "%s", "%x").Replace(m)
		case 3:
			return nonEmpty(c.Rand)
		}
		return "`" + m + "`"
	})
	if c.Chance(1, 3) {
		k.Header = append(k.Header, [2]string{"X-Odd", "%s"})
	}
	path := c28write(c, dir, []*Cat{k})
	env := append(c28env(c, "de_DE"), "LANG_PATH="+path)
	got := c28run1(c, dir, s, env)
	c28same(c, s, env, ref, got, ref.files)
	if (strings.TrimSpace(got.err) == "") != (strings.TrimSpace(ref.err) == "") {
		c.Fail("messages", "%v in %q: messages %q, otherwise %q", s, env, got.err, ref.err)
	}
	c.Distinct(s.String(), fmt.Sprint(env), fmt.Sprint(c.Index))
}

func c28arguments(c *C) {
	dir, s := c28make(c, -1)
	defer os.RemoveAll(dir)
	before := c28files(dir)
	ref := c28run1(c, dir, s, nil)
	c28basic(c, s, ref, before)
	files := ref.files
	if s.what == "unknown flag" || s.what == "help" {
		return
	}
	// the same flags in another order and spelling
	var groups [][]string
	for i := 0; i < len(s.args); i++ {
		a := s.args[i]
		if a == "-d" || a == "-v" || strings.Contains(a, "=") {
			groups = append(groups, []string{a})
			continue
		}
		groups = append(groups, s.args[i:i+2])
		i++
	}
	c.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	var args []string
	for _, g := range groups {
		g = append([]string(nil), g...)
		if c.Chance(1, 2) {
			g[0] = "-" + g[0]
		}
		switch {
		case len(g) == 2 && c.Chance(1, 2):
			args = append(args, g[0]+"="+g[1])
		case len(g) == 1 && !strings.Contains(g[0], "=") && c.Chance(1, 2):
			args = append(args, g[0]+"=true")
		default:
			args = append(args, g...)
		}
	}
	s2 := *s
	s2.args = args
	got := c28run1(c, dir, &s2, nil)
	c28same(c, &s2, nil, ref, got, files)
	if got.err != ref.err && !strings.HasSuffix(s.what, "-d") {
		c.Fail("flags", "%v: messages\n%s\nbut for %v\n%s", &s2, got.err, s, ref.err)
	}
	c.Count("flag orders compared", 1)
	c.Distinct("args", fmt.Sprint(args))
}
