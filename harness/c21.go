package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C21",
		Rule:        "The real xtemplate command runs in a scratch directory; exit code, both streams and the output file are observed. 'outputs': generated templates, written to standard output (no -o, -o -), to a new file, over an existing longer or shorter file, under other environment languages and again later; all texts must be the same but for the creation date and the output name, well formed, with intact header and one entry per message, and appear only where they should. 'failures': one input made bad (declarations, pattern, a template cut or broken at a random place, an unreadable match, missing flags); non-zero exit, a message, the output file untouched. 'unwritable': missing directory, a directory, a full device, a pipe closed by its reader. 'hostile': templates and arguments damaged at random; the run ends in one of the two ways. Non-trivial: distinct inputs.",
		Assumptions: []string{"-d adds debug lines to standard output and is only used with an output file", "texts hold no NUL or EOT"},
		Sections: []Section{
			{Name: "outputs", Quick: 700, Thorough: 9000, Fn: c21outputs, Need: []string{"outputs compared"}},
			{Name: "failures", Quick: 2500, Thorough: 30000, Fn: c21failures, Need: []string{"failed runs", "existing outputs kept"}},
			{Name: "unwritable", Quick: 300, Thorough: 3000, Fn: c21unwritable, Need: []string{"failed writes"}},
			{Name: "hostile", Quick: 2500, Thorough: 40000, Fn: c21hostile, Need: []string{"runs"}},
		}})
}

var (
	c21date = regexp.MustCompile(`(?m)^"POT-Creation-Date: \d{4}-\d\d-\d\d \d\d:\d\d:\d\d[+-]\d{4}\\n"$`)
	c21name = regexp.MustCompile(`(?m)^("X-Xtemplate-Output: ).*\n(?:"[^X].*\n)*`)
)

// c21norm removes what may differ between two runs.
func c21norm(out string) string {
	out = c21date.ReplaceAllString(out, "DATE")
	return c21name.ReplaceAllString(out, "OUTPUT\n")
}

var c21fields = []string{"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language",
	"MIME-Version", "Content-Type", "Content-Transfer-Encoding"}

// c21wellFormed tells what is wrong with an output.
func c21wellFormed(out string, plural bool) string {
	if !strings.HasSuffix(out, "\n") {
		return "unfinished last line"
	}
	es, err := poParse(out)
	if err != nil {
		return err.Error()
	}
	if len(es) == 0 || es[0].ID != "" || es[0].Ctx != "" || es[0].Plural {
		return "no header at the start"
	}
	if !strings.HasSuffix(es[0].Str, "\n") {
		return "the header's last field is not ended"
	}
	seen := map[string]bool{}
	for i, l := range strings.Split(strings.TrimSuffix(es[0].Str, "\n"), "\n") {
		f, v, ok := strings.Cut(l, ": ")
		if !ok {
			return fmt.Sprintf("header line %q is no field", l)
		}
		if seen[f] {
			return fmt.Sprintf("header field %q twice", f)
		}
		seen[f] = true
		if i < len(c21fields) && f != c21fields[i] {
			return fmt.Sprintf("header field %d is %q want %q", i, f, c21fields[i])
		}
		if f == "Content-Type" && !strings.HasPrefix(v, "text/plain; charset=") {
			return "Content-Type " + v
		}
	}
	for _, f := range c21fields {
		if !seen[f] {
			return "no header field " + f
		}
	}
	if seen["Plural-Forms"] != plural {
		return fmt.Sprintf("Plural-Forms in the header: %v, plural messages: %v", seen["Plural-Forms"], plural)
	}
	keys := map[[2]string]bool{{"", ""}: true}
	for _, e := range es[1:] {
		if keys[e.key()] {
			return fmt.Sprintf("message %q %q twice", e.Ctx, e.ID)
		}
		keys[e.key()] = true
	}
	f, err := translator.ReadPot([]byte(out))
	if err != nil {
		return "ReadPot: " + err.Error()
	}
	if n := len(f.SortedEntry()); n != len(es) {
		return fmt.Sprintf("ReadPot reads %d messages of %d", n, len(es))
	}
	return ""
}

func hasPlural(out string) bool { return strings.Contains(out, "\nmsgid_plural ") }

func c21outputs(c *C) {
	kws := append([]xkw(nil), xconventional...)
	if c.Intn(3) == 0 {
		kws, _ = c20set(c)
	}
	x := xmake(c, kws, 1+c.Intn(3))
	defer os.RemoveAll(x.dir)
	envs := [][]string{nil, {"LANG=zh_CN.UTF-8"}, {"LANGUAGE=zh_CN:en", "LC_ALL=zh_CN"}, {"LANG=de_DE"}, {"LANG_PATH=" + x.dir}, {"LANG_PATH=/nonexistent"}, {"LC_ALL=C"}}
	env := func() []string { return envs[c.Intn(len(envs))] }
	ref := xrun(c, x.dir, nil, nil, x.args()...)
	if ref.code != 0 {
		c.Fail("exit", "exit %d: %s\n%s", ref.code, ref.err, x.show())
	}
	if d := c21wellFormed(ref.out, hasPlural(ref.out)); d != "" {
		c.Fail("form", "%s\n%s\n--- output\n%s", d, x.show(), ref.out)
	}
	if m := c21date.FindString(ref.out); m == "" {
		c.Fail("date", "no creation date in\n%s", ref.out)
	}
	if !strings.Contains(c21unwrap(ref.out), "X-Xtemplate-Keywords: "+xdeclare(x.kws)+"\n") {
		c.Fail("header", "keywords %q are not in the header:\n%s", xdeclare(x.kws), ref.out)
	}
	want := c21norm(ref.out)
	same := func(how, got string) {
		if g := c21norm(got); g != want {
			c.Fail("differs", "%s gives another text\n%s\n--- first\n%s\n--- this\n%s", how, x.show(), want, g)
		}
		c.Count("outputs compared", 1)
	}
	before := c21list(x.dir)
	r := xrun(c, x.dir, nil, env(), x.args("-o", "-")...)
	if r.code != 0 {
		c.Fail("exit", "-o -: exit %d: %s", r.code, r.err)
	}
	same("-o -", r.out)
	if now := c21list(x.dir); now != before {
		c.Fail("stray", "standard output only, but files changed from %s to %s", before, now)
	}
	out := []string{"out.pot", "./out.pot", "new.tmpl2", filepath.Join(x.dir, "o.pot"), "名.pot"}[c.Intn(5)]
	path := out
	if !filepath.IsAbs(path) {
		path = filepath.Join(x.dir, out)
	}
	for i, how := range []string{"new file", "longer file", "shorter file", "same again"} {
		var old []byte
		switch i {
		case 1:
			old = bytes.Repeat([]byte("old content\n"), 1000+len(ref.out)/8)
		case 2:
			old = []byte("old")
		}
		if old != nil {
			must(os.WriteFile(path, old, 0o644))
		}
		more := []string{"-o", out}
		if c.Intn(4) == 0 {
			more = append(more, "-d")
		}
		r := xrun(c, x.dir, nil, env(), x.args(more...)...)
		if r.code != 0 {
			c.Fail("exit", "%s: exit %d: %s", how, r.code, r.err)
		}
		if len(more) == 2 && r.out != "" {
			c.Fail("both", "%s: also on standard output: %s", how, r.out)
		}
		got, err := os.ReadFile(path)
		if err != nil {
			c.Fail("lost", "%s: %v", how, err)
		}
		same(how, string(got))
	}
	c.Distinct(x.srcs...)
}

// c21unwrap joins the header's quoted lines.
func c21unwrap(out string) string {
	es, err := poParse(out)
	if err != nil || len(es) == 0 {
		return ""
	}
	return es[0].Str
}

// c21list is a listing of a directory with contents.
func c21list(dir string) string {
	var sb strings.Builder
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			fmt.Fprintf(&sb, "%s %v %d;", p, fi.IsDir(), fi.Size())
		}
		return nil
	})
	return sb.String()
}

func c21failures(c *C) {
	kws := append([]xkw(nil), xconventional...)
	x := xmake(c, kws, 1+c.Intn(3))
	defer os.RemoveAll(x.dir)
	args := x.args()
	pathOf := func(i int) string {
		if filepath.IsAbs(x.files[i]) {
			return x.files[i]
		}
		return filepath.Join(x.dir, x.files[i])
	}
	what := ""
	switch c.Intn(8) {
	case 0:
		args[3] = c20bad(c)
		what = fmt.Sprintf("declarations %q", args[3])
	case 1:
		args[1] = []string{"[", "a[", "*.[a-", "[]a", "\\", "*[^", "x/[", "[a-]*"}[c.Intn(8)]
		what = fmt.Sprintf("pattern %q", args[1])
		if _, err := filepath.Match(args[1], ""); err == nil { // some are only found bad on a match
			args[1] = "[]a"
			what = "pattern []a"
		}
	case 2, 3, 4:
		for try := 0; ; try++ {
			if try > 50 {
				return
			}
			i := c.Intn(len(x.files))
			src := c21damage(c, x.srcs[i], x)
			if xparses(src, x.left, x.right) != nil {
				x.srcs[i] = src
				must(os.WriteFile(pathOf(i), []byte(src), 0o644))
				what = fmt.Sprintf("template %s does not parse", x.files[i])
				break
			}
		}
	case 5: // a match that cannot be read
		p := filepath.Join(filepath.Dir(pathOf(0)), []string{"0.tmpl", "zz.tmpl", "m.tmpl"}[c.Intn(3)])
		if c.Intn(2) == 0 {
			must(os.Mkdir(p, 0o755))
			what = "a directory matches"
		} else {
			must(os.Symlink("nowhere", p))
			what = "a dangling link matches"
		}
	case 6:
		switch c.Intn(4) {
		case 0:
			args = args[2:]
		case 1:
			args = append(args[:2], args[4:]...)
		case 2:
			args[1] = "  "
		case 3:
			args = append(args, "-nosuchflag")
		}
		what = "missing flags"
	case 7: // a function that the template cannot have
		args[3] = []string{"a b", "T;1x", "T;a-b:1", "a.b", "T;.X"}[c.Intn(5)]
		what = fmt.Sprintf("keyword names %q", args[3])
	}
	out := filepath.Join(x.dir, "out.pot")
	existing := c.Intn(4) > 0
	old := []byte("# precious\nmsgid \"\"\nmsgstr \"\"\n")
	past := time.Now().Add(-time.Hour).Truncate(time.Second)
	toFile := c.Intn(5) > 0
	if toFile {
		args = append(args, "-o", out)
	}
	if existing {
		must(os.WriteFile(out, old, 0o644))
		must(os.Chtimes(out, past, past))
	}
	if c.Intn(6) == 0 && toFile {
		args = append(args, "-d")
	}
	r := xrun(c, x.dir, nil, [][]string{nil, {"LANG=zh_CN.UTF-8"}}[c.Intn(2)], args...)
	if r.code == 0 {
		c.Fail("success", "%s: exit 0, output %s\n%s", what, r.out, x.show())
	}
	if strings.TrimSpace(r.err) == "" {
		c.Fail("silent", "%s: exit %d without a message\n%s", what, r.code, x.show())
	}
	if strings.Contains(r.out, "msgid \"\"") {
		c.Fail("output", "%s: exit %d, yet a template is written\n%s", what, r.code, r.out)
	}
	got, err := os.ReadFile(out)
	switch {
	case existing && (err != nil || !bytes.Equal(got, old)):
		c.Fail("overwritten", "%s: the output file is now %q, %v", what, got, err)
	case !existing && err == nil && len(got) > 0:
		c.Fail("written", "%s: exit %d, yet the output file has %q", what, r.code, got)
	}
	if existing {
		if fi, err := os.Stat(out); err != nil || !fi.ModTime().Equal(past) {
			c.Fail("touched", "%s: the output file was touched", what)
		}
		c.Count("existing outputs kept", 1)
	}
	c.Count("failed runs", 1)
	c.Count("failure: "+strings.Fields(what)[0]+" "+strings.Fields(what)[len(strings.Fields(what))-1][:1], 1)
	c.Distinct(what, x.show())
}

// c21damage breaks a template somewhere.
func c21damage(c *C, src string, x *xcase) string {
	i := c.Intn(len(src) + 1)
	switch c.Intn(7) {
	case 0:
		return src[:i]
	case 1:
		return src[:i] + x.left + src[i:]
	case 2:
		return src[:i] + x.left + []string{"end", "else", "if", "range", "template", "define", "block \"x\"", "break", "nosuch.", "T \"x", "T `x", "T )", "(T", "T 'xx'", "$undefined", "1 | T | 2", "T \"\\q\"", "/* x"}[c.Intn(18)] + x.right + src[i:]
	case 3:
		return strings.Replace(src, x.left+"end", "", 1)
	case 4:
		j := i + c.Intn(len(src)-i+1)
		return src[:i] + src[j:]
	case 5:
		return src + x.left
	}
	return src[:i] + string([]byte{byte(c.Intn(256))}) + src[i:]
}

func c21unwritable(c *C) {
	x := xmake(c, xconventional, 1+c.Intn(2))
	defer os.RemoveAll(x.dir)
	args := x.args()
	var std *os.File
	what := ""
	switch c.Intn(6) {
	case 0:
		what = "missing directory"
		args = append(args, "-o", filepath.Join(x.dir, "missing", "out.pot"))
	case 1:
		what = "directory"
		args = append(args, "-o", x.dir)
	case 2:
		what = "full device"
		args = append(args, "-o", "/dev/full")
	case 3:
		what = "standard output full"
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		std = f
		if c.Intn(2) == 0 {
			args = append(args, "-o", "-")
		}
	case 4:
		what = "closed pipe"
		rd, wr, err := os.Pipe()
		must(err)
		rd.Close()
		defer wr.Close()
		std = wr
	case 5:
		what = "file as directory"
		must(os.WriteFile(filepath.Join(x.dir, "plain"), nil, 0o644))
		args = append(args, "-o", filepath.Join(x.dir, "plain", "out.pot"))
	}
	r := xrun(c, x.dir, std, nil, args...)
	if r.code == 0 {
		c.Fail("success", "%s: exit 0", what)
	}
	if what != "closed pipe" && strings.TrimSpace(r.err) == "" {
		c.Fail("silent", "%s: exit %d without a message", what, r.code)
	}
	c.Count("failed writes", 1)
	c.Count("unwritable: "+what, 1)
	c.Distinct(what, x.show())
}

func c21hostile(c *C) {
	x := xmake(c, xconventional, 1)
	defer os.RemoveAll(x.dir)
	path := x.files[0]
	if !filepath.IsAbs(path) {
		path = filepath.Join(x.dir, path)
	}
	src := x.srcs[0]
	args := x.args()
	switch c.Intn(5) {
	case 0:
		for i, n := 0, 1+c.Intn(4); i < n; i++ {
			src = c21damage(c, src, x)
		}
	case 1:
		n := 1 + c.Intn(1500)
		src += strings.Repeat(x.left+"if "+strings.Repeat("(", c.Intn(40)), n)
		if c.Intn(2) == 0 {
			src += " T \"deep\"" + x.right + strings.Repeat(x.left+"end"+x.right, n)
		}
	case 2: // odd declarations
		args[3] = string(mutate(c, []byte("T;N:1,2;X:1c,2;XN:1c,2,3"), []byte(";:,c12")))
		args[3] = strings.ReplaceAll(args[3], "\x00", "")
	case 3: // odd delimiters and functions
		l := []string{"", "{", "<<<", "a", "\n", "(", "\"", "`", "T", " ", "é", "- "}
		args = append(args, "-left", l[c.Intn(len(l))], "-right", l[c.Intn(len(l))])
		if c.Intn(2) == 0 {
			args = append(args, "-f", []string{"a-b", ",", "T,T", "print", "if", "\n", "1", "é", "nil"}[c.Intn(9)])
		}
	case 4: // a name or parameters with line breaks
		dir := filepath.Dir(path)
		must(os.Rename(path, filepath.Join(dir, []string{"x\ny.tmpl", "\nmsgid \"x\".tmpl", "a\rb.tmpl", "\x01.tmpl", "\"q\".tmpl", "\\n.tmpl"}[c.Intn(6)])))
		args[1] = filepath.Join(dir, "*.tmpl")
		args[3] = "T;\nN:1,2 ;\n\nX:1c,2;\r\nXN:1c,2,3"
		path = ""
	}
	if path != "" {
		must(os.WriteFile(path, []byte(src), 0o644))
		if c.Intn(3) == 0 {
			args = append(args, "-f", "foo\n,\nLanguage: xx")
			if c.Intn(2) == 0 {
				args[len(args)-1] = "foo,\nbar"
			}
		}
	}
	old := []byte("precious")
	out := filepath.Join(x.dir, "out.pot")
	must(os.WriteFile(out, old, 0o644))
	r := xrun(c, x.dir, nil, nil, append(args, "-o", out)...)
	got, err := os.ReadFile(out)
	if err != nil {
		c.Fail("lost", "output file: %v", err)
	}
	if strings.Contains(r.err, "goroutine ") || strings.Contains(r.err, "runtime error") || strings.Contains(r.err, "fatal error") {
		c.Fail("crash", "args %q: %s\n%s", args, r.err, src)
	}
	if r.code == 0 {
		c.Count("hostile runs that succeed", 1)
		if d := c21wellFormed(string(got), hasPlural(string(got))); d != "" {
			c.Fail("form", "args %q: %s\n%s\n--- output\n%s", args, d, src, got)
		}
	} else {
		c.Count("hostile runs that fail", 1)
		if strings.TrimSpace(r.err) == "" {
			c.Fail("silent", "args %q: exit %d without a message\n%s", args, r.code, src)
		}
		if !bytes.Equal(got, old) {
			c.Fail("overwritten", "args %q: exit %d (%s), output file is now %q\n%s", args, r.code, r.err, got, src)
		}
	}
	c.Distinct(fmt.Sprint(args), src)
}
