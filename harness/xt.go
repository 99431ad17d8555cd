package main

// Generator of templates with known keyword calls, and runner of the xtemplate command.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"text/template/parse"
	"time"
)

// xkw is one keyword declaration.
type xkw struct {
	name         string
	ctx, id, id2 int // positions from 1, 0 is absent
}

func (k xkw) max() int { return max(k.ctx, k.id, k.id2) }

func (k xkw) String() string {
	switch {
	case k.ctx > 0 && k.id2 > 0:
		return fmt.Sprintf("%s:%dc,%d,%d", k.name, k.ctx, k.id, k.id2)
	case k.ctx > 0:
		return fmt.Sprintf("%s:%dc,%d", k.name, k.ctx, k.id)
	case k.id2 > 0:
		return fmt.Sprintf("%s:%d,%d", k.name, k.id, k.id2)
	case k.id == 1:
		return k.name
	}
	return fmt.Sprintf("%s:%d", k.name, k.id)
}

type xloc struct {
	file   string
	lo, hi int
}

type xwant struct {
	singular bool
	id2      map[string]bool
	locs     []xloc
}

type xarg struct {
	lit  bool
	text string
	src  string
}

// xgen writes one template file.
type xgen struct {
	c           *C
	kws         []xkw
	left, right string
	file        string
	pool        []string
	want        map[[2]string]*xwant // shared by the files of a case
	sb          strings.Builder
	calls       []xcallRec // of the action being written
	names       int
	calln       int
	skipped     int
	forms       map[string]int
	plainBlank  bool
	trims       bool
	funcs       []string // function names that are not keywords
}

type xcallRec struct {
	ctx, id, id2 string
	plural       bool
}

func (g *xgen) pick(s ...string) string { return s[g.c.Intn(len(s))] }

func (g *xgen) line() int { return 1 + strings.Count(g.sb.String(), "\n") }

func (g *xgen) blank() string {
	if g.plainBlank || g.c.Intn(12) > 0 {
		return " "
	}
	return g.pick("  ", "\t", "\n", " \n\t", "\r\n")
}

// lit spells a string literal operand.
func (g *xgen) lit(s string) string {
	src := ""
	if g.c.Intn(3) == 0 && !strings.ContainsAny(s, "`\r") {
		src = "`" + s + "`"
	} else if g.c.Intn(3) == 0 {
		src = strconv.QuoteToASCII(s)
	} else {
		src = strconv.Quote(s)
	}
	for g.c.Intn(6) == 0 {
		src = "(" + src + ")"
		g.forms["parenthesised literal"]++
	}
	return src
}

func (g *xgen) word() string { return g.pool[g.c.Intn(len(g.pool))] }

// computed is an operand that is no string literal, maybe holding calls.
func (g *xgen) computed(depth int) string {
	if depth > 0 && g.c.Intn(2) == 0 {
		switch g.c.Intn(4) {
		case 0:
			return "(" + g.call(depth-1, nil) + ")"
		case 1:
			return "(" + g.call(depth-1, nil) + ")." + g.pick("Foo", "A.B")
		case 2:
			return "(" + g.pipeline(depth-1, 2) + ")"
		default:
			return "((" + g.call(depth-1, nil) + "))"
		}
	}
	if g.c.Intn(8) == 0 { // named like a keyword, but not called
		return g.pick("", ".", "$v.", ".A.", "(.X).") + g.kws[g.c.Intn(len(g.kws))].name
	}
	return g.pick(".X", ".", "$", "$v", "$v.Foo", ".A.B", "1", "-2.5", "'c'", "true", "false", "nil", "(.X)", "(.A).B", `("x" | print)`, `(print "x")`, `(printf "%d" 1)`, `(print "a" "b")`, "0x1F", "(1)")
}

// head spells a call of the function or method name.
func (g *xgen) head(name string, depth int) string {
	switch g.c.Intn(12) {
	default:
		g.forms["function"]++
		return name
	case 0, 1:
		g.forms["method"]++
		return "." + name
	case 2:
		g.forms["field chain"]++
		return g.pick(".A.", ".t.", ".A.B.", ".A.B.C.D.", ".a.b.c.d.e.f.g.h.") + name
	case 3:
		g.forms["variable method"]++
		return g.pick("$.", "$v.", "$v.A.", "$v.A.B.C.D.", "$.A.B.") + name
	case 4:
		g.forms["pipe method"]++
		return "(.X)." + g.pick("", "A.", "A.B.C.D.") + name
	case 5:
		if depth > 0 {
			g.forms["call method"]++
			return "(" + g.call(depth-1, nil) + ")." + name
		}
		return "." + name
	case 6:
		g.forms["function method"]++
		return g.pick("tr", "foo.A", "foo.A.B.C.D") + "." + name
	case 7:
		g.forms["call builtin"]++
		return "call" + g.blank() + g.pick("", ".", ".A.", "$v.", ".A.B.C.D.") + name
	}
}

// call writes one command calling something; piped is the final argument, if any.
func (g *xgen) call(depth int, piped *xarg) string {
	if g.c.Intn(4) == 0 {
		return g.otherCall(depth, piped)
	}
	name := g.kws[g.c.Intn(len(g.kws))].name
	most, used := 0, map[int]bool{}
	for _, k := range g.kws {
		if k.name == name {
			if k.max() < 20 {
				most = max(most, k.max())
			}
			used[k.ctx], used[k.id], used[k.id2] = true, true, true
		}
	}
	n := most
	switch g.c.Intn(8) {
	case 0:
		n--
	case 1:
		n++
	case 2:
		n += 2
	}
	var args []xarg
	own := n
	if piped != nil {
		own--
	}
	sloppy := g.c.Intn(4) == 0
	for i := 1; i <= own; i++ {
		isLit := g.c.Intn(2) == 0
		if used[i] {
			isLit = !sloppy || g.c.Intn(3) > 0
		}
		if isLit {
			s := g.word()
			args = append(args, xarg{true, s, g.lit(s)})
		} else {
			args = append(args, xarg{src: g.computed(depth)})
		}
	}
	src := g.head(name, depth)
	for _, a := range args {
		src += g.blank() + a.src
	}
	if piped != nil {
		args = append(args, *piped)
	}
	g.record(name, args)
	return src
}

func (g *xgen) record(name string, args []xarg) {
	at := func(i int) (string, bool) {
		if i == 0 {
			return "", true
		}
		if i > len(args) || !args[i-1].lit {
			return "", false
		}
		return args[i-1].text, true
	}
	any := false
	for _, k := range g.kws {
		if k.name != name {
			continue
		}
		ctx, ok1 := at(k.ctx)
		id, ok2 := at(k.id)
		id2, ok3 := at(k.id2)
		if !ok1 || !ok2 || !ok3 {
			continue
		}
		if ctx == "" && id == "" {
			continue // the header
		}
		any = true
		g.calls = append(g.calls, xcallRec{ctx, id, id2, k.id2 > 0})
	}
	if any {
		g.calln++
	} else {
		g.skipped++
	}
}

func (g *xgen) otherCall(depth int, piped *xarg) string {
	name := g.funcs[g.c.Intn(len(g.funcs))]
	src := name
	switch g.c.Intn(5) {
	case 0:
		src = "." + name
	case 1:
		src = "$v.A." + name
	case 2:
		src = "." + g.kws[g.c.Intn(len(g.kws))].name + "." + name // the keyword is no call here
	case 3:
		if depth > 0 {
			src = "(" + g.call(depth-1, nil) + ")." + name
		}
	}
	for i, n := 0, g.c.Intn(4); i < n; i++ {
		if g.c.Intn(2) == 0 {
			src += g.blank() + g.lit(g.word())
		} else {
			src += g.blank() + g.computed(depth)
		}
	}
	return src
}

// pipeline writes commands joined by bars.
func (g *xgen) pipeline(depth, most int) string {
	var piped *xarg
	src := ""
	n := 1
	if g.c.Intn(3) == 0 {
		n += g.c.Intn(most)
		if g.c.Intn(12) == 0 {
			n += g.c.Intn(9)
			g.forms["long pipeline"]++
		}
	}
	if n > 1 && g.c.Intn(2) == 0 { // starts with a value
		if g.c.Intn(3) > 0 {
			s := g.word()
			src = g.lit(s)
			piped = &xarg{lit: true, text: s}
			g.forms["piped literal"]++
		} else {
			src = g.pick(".X", "$v", "1", "(.X)", ".A.B", `(print "x")`)
			piped = &xarg{}
		}
		n--
	}
	for i := 0; i < n; i++ {
		if src != "" {
			src += g.pick(" | ", "|", " |"+g.blank())
		}
		src += g.call(depth, piped)
		piped = &xarg{}
	}
	return src
}

// action writes one action; its calls get its lines.
func (g *xgen) action(src string) {
	lo := g.line()
	l, r := g.left, g.right
	if g.trims && g.c.Intn(5) == 0 {
		l += "- "
	} else if g.c.Intn(3) == 0 {
		l += g.blank()
	}
	if g.trims && g.c.Intn(5) == 0 {
		r = " -" + r
	} else if g.c.Intn(3) == 0 {
		r = g.blank() + r
	}
	g.sb.WriteString(l + src + r)
	hi := g.line()
	for _, k := range g.calls {
		key := [2]string{k.ctx, k.id}
		w := g.want[key]
		if w == nil {
			w = &xwant{id2: map[string]bool{}}
			g.want[key] = w
		}
		if k.plural {
			w.id2[k.id2] = true
		} else {
			w.singular = true
		}
		w.locs = append(w.locs, xloc{g.file, lo, hi})
	}
	g.calls = nil
}

func (g *xgen) text() {
	switch g.c.Intn(4) {
	case 0:
		g.sb.WriteString(g.pick("\n", "\n\n", "\r\n", " \n"))
	case 1: // decoys
		kw := g.kws[g.c.Intn(len(g.kws))].name
		g.sb.WriteString(kw + g.pick(" \"decoy\" ", "(\"decoy\", \"decoys\")\n", " `decoy` \"decoy\"", " 'x' | ") + g.pick("", "\n"))
	case 2:
		g.sb.WriteString(g.pick("<p>text</p>", "中文\n", "100% \"quoted\n", "`raw", "/* T \"x\" */", "a & b", "<script>var x = \"T\";</script>\n", "é", "'", "\\"))
	}
}

// nodes writes some nodes.
func (g *xgen) nodes(budget, depth int, top, loop bool) {
	for i := 0; i < budget; i++ {
		g.text()
		switch k := g.c.Intn(20); {
		case k < 8:
			g.action(g.pipeline(2, 3))
		case k == 8:
			g.action(g.pick("$v = ", "$w := ", "$v:=", "$w :=\t") + g.pipeline(2, 3))
			g.forms["assignment"]++
		case k == 9:
			kw := g.kws[g.c.Intn(len(g.kws))].name
			l, r := "/*", "*/"
			if g.trims && g.c.Intn(2) == 0 {
				l, r = "- /*", "*/ -"
			}
			g.sb.WriteString(g.left + l + " " + kw + " \"comment\" " + g.pick("", "\n") + r + g.right)
			g.forms["comment"]++
		case k == 10:
			g.action("template \"" + g.pick("t0", "t1", "other") + "\"" + g.blank() + g.pipeline(2, 3))
			g.forms["template argument"]++
		case k == 11 && loop:
			g.action(g.pick("break", "continue"))
		case k <= 12 && depth > 0:
			g.names++
			name := fmt.Sprintf("b%d", g.names)
			g.action("block " + strconv.Quote(name) + g.blank() + g.pipeline(1, 2))
			g.action("$v := .")
			g.nodes(1+g.c.Intn(2), depth-1, false, false)
			g.action("end")
			g.forms["block"]++
		case k == 13 && top && depth > 0:
			g.names++
			g.action("define " + g.pick(strconv.Quote(fmt.Sprintf("t%d", g.names)), fmt.Sprintf("`t%d x`", g.names)))
			g.action("$v := .")
			g.nodes(1+g.c.Intn(3), depth-1, false, false)
			g.action("end")
			g.forms["define"]++
		case k < 16 && depth > 0:
			g.action("if " + g.pick("", "", "$c := ") + g.pipeline(2, 2))
			g.nodes(g.c.Intn(3), depth-1, false, loop)
			for g.c.Intn(3) == 0 {
				g.action("else if " + g.pipeline(2, 2))
				g.nodes(g.c.Intn(2), depth-1, false, loop)
				g.forms["else if"]++
			}
			g.orElse(depth, loop)
			g.forms["if"]++
		case k < 18 && depth > 0:
			g.action("range " + g.pick("", "$e := ", "$i, $e := ", "$v = ", "$i , $e:=") + g.pipeline(2, 2))
			g.nodes(1+g.c.Intn(2), depth-1, false, true)
			g.orElse(depth, loop)
			g.forms["range"]++
		case depth > 0:
			g.action("with " + g.pick("", "$x := ") + g.pipeline(2, 2))
			g.nodes(1+g.c.Intn(2), depth-1, false, loop)
			for g.c.Intn(4) == 0 {
				g.action("else with " + g.pipeline(2, 2))
				g.nodes(g.c.Intn(2), depth-1, false, loop)
				g.forms["else with"]++
			}
			g.orElse(depth, loop)
			g.forms["with"]++
		default:
			g.action(g.pipeline(1, 2))
		}
	}
}

func (g *xgen) orElse(depth int, loop bool) {
	if g.c.Intn(2) == 0 {
		g.action("else")
		g.nodes(1+g.c.Intn(2), depth-1, false, loop)
		g.forms["else"]++
	}
	g.action("end")
}

// parses tells that the text is a template, functions aside.
func xparses(src, left, right string) error {
	tr := parse.New("x")
	tr.Mode = parse.SkipFuncCheck
	_, err := tr.Parse(src, left, right, map[string]*parse.Tree{})
	return err
}

var xdelims = [][2]string{{"{{", "}}"}, {"{{", "}}"}, {"{{", "}}"}, {"[[", "]]"}, {"<%", "%>"}, {"<<", ">>"}, {"{%", "%}"}, {"${", "}$"}, {"«", "»"}, {"<!--#", "#-->"}}

var xconventional = []xkw{{"T", 0, 1, 0}, {"N", 0, 1, 2}, {"X", 1, 2, 0}, {"XN", 1, 2, 3}, {"N64", 0, 1, 2}, {"XN64", 1, 2, 3}, {"gettext", 0, 1, 0}, {"_", 0, 1, 0}, {"翻译", 0, 1, 0}, {"été2", 1, 2, 0}}

type xcase struct {
	dir         string
	kws         []xkw
	left, right string
	files       []string // as the command names them
	want        map[[2]string]*xwant
	pattern     string
	calls       int
	plural      bool
	srcs        []string
	forms       map[string]int
}

// xmake writes template files for the keywords into a directory of the case.
func xmake(c *C, kws []xkw, nfiles int) *xcase {
	x := &xcase{dir: c.Dir(), kws: kws, want: map[[2]string]*xwant{}, forms: map[string]int{}}
	d := xdelims[c.Intn(len(xdelims))]
	x.left, x.right = d[0], d[1]
	sub := []string{"", "", "sub", "a dir", "d.x"}[c.Intn(5)]
	if sub != "" {
		if err := os.Mkdir(filepath.Join(x.dir, sub), 0o755); err != nil {
			inconclusive("%v", err)
		}
	}
	base := sub
	if c.Intn(3) == 0 {
		base = filepath.Join(x.dir, sub)
	}
	x.pattern = filepath.Join(base, "*.tmpl")
	if c.Intn(4) == 0 && sub != "" && base == sub {
		x.pattern = filepath.Join(sub[:1]+"*", "*.t?pl")
	}
	pool := keyPool(c.Rand, 12)
	for i := range pool {
		pool[i] = strings.NewReplacer("\x00", "0", "\x04", "4").Replace(pool[i])
		if c.Intn(12) == 0 {
			pool[i] = ""
		}
	}
	kwn := map[string]bool{}
	for _, k := range kws {
		kwn[k.name] = true
	}
	var funcs []string
	for _, f := range []string{"print", "printf", "foo", "Bar", "TT", "t", "Tx", "xT", "html", "len", "not", "or", "NN", "Xn", "gettext_", "ſ"} {
		if !kwn[f] {
			funcs = append(funcs, f)
		}
	}
	for i := 0; i < nfiles; i++ {
		name := []string{"a", "b", "c d", "é", "page.html", "1", "%d", "t\tb", "-", "a:b:3"}[(i+c.Intn(3)*3)%10] + ".tmpl"
		file := filepath.Join(base, name)
		if contains(x.files, file) {
			continue
		}
		g := &xgen{c: c, kws: kws, left: x.left, right: x.right, file: file, pool: pool, want: x.want, forms: x.forms, funcs: funcs,
			plainBlank: c.Intn(3) == 0, trims: !strings.HasPrefix(x.right, "-") && !strings.HasPrefix(x.right, "#")}
		if c.Intn(15) > 0 {
			g.action("$v := .")
			switch c.Intn(20) {
			case 0:
				g.nodes(20+c.Intn(60), 2, true, false)
			case 1: // many templates in a file
				for i, n := 0, 10+c.Intn(40); i < n; i++ {
					g.names++
					if i%2 == 0 {
						g.action(fmt.Sprintf("define \"many%d\"", i))
					} else {
						g.action(fmt.Sprintf("block \"many%d\" ", i) + g.pipeline(1, 2))
					}
					g.action("$v := .")
					g.nodes(1, 0, false, false)
					g.action("end")
				}
				g.forms["many templates"]++
			case 2: // deeply nested
				var ends int
				for i, n := 0, 5+c.Intn(40); i < n; i++ {
					g.action(g.pick("if ", "with ", "range ") + g.pipeline(1, 2))
					ends++
					if c.Intn(4) == 0 {
						g.nodes(1, 0, false, false)
					}
				}
				for ; ends > 0; ends-- {
					if c.Intn(3) == 0 {
						g.action("else")
						g.nodes(1, 0, false, false)
					}
					g.action("end")
				}
				g.forms["deep nesting"]++
			default:
				g.nodes(1+c.Intn(8), 1+c.Intn(3), true, false)
			}
			g.text()
		} else { // definitions only
			g.action("define \"only\"")
			g.action("$v := .")
			g.nodes(1+c.Intn(4), 2, false, false)
			g.action("end")
		}
		src := g.sb.String()
		if err := xparses(src, x.left, x.right); err != nil {
			inconclusive("generator wrote a template that does not parse: %v\n%s", err, src)
		}
		path := filepath.Join(x.dir, sub, name)
		if err := os.WriteFile(path, []byte(src), 0o644); err != nil {
			inconclusive("%v", err)
		}
		x.files = append(x.files, file)
		x.srcs = append(x.srcs, src)
		x.calls += g.calln
		c.Count("calls in templates", g.calln)
		c.Count("calls not to be extracted", g.skipped)
	}
	for _, w := range x.want {
		if len(w.id2) > 0 {
			x.plural = true
		}
	}
	for f, n := range x.forms {
		c.Count("form: "+f, n)
	}
	return x
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func xdeclare(kws []xkw) string {
	var s []string
	for _, k := range kws {
		s = append(s, k.String())
	}
	return strings.Join(s, ";")
}

func (x *xcase) args(more ...string) []string {
	a := []string{"-i", x.pattern, "-k", xdeclare(x.kws)}
	if x.left != "{{" {
		a = append(a, "-left", x.left, "-right", x.right)
	}
	return append(a, more...)
}

type xresult struct {
	out, err string
	code     int
}

// xrun runs the command in a directory.
func xrun(c *C, dir string, stdout *os.File, env []string, args ...string) xresult {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_XTEMPLATE"), args...)
	cmd.Dir = dir
	cmd.Env = cleanEnv(env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if stdout != nil {
		cmd.Stdout = stdout
	}
	err := cmd.Run()
	if ctx.Err() != nil {
		c.Fail("hang", "xtemplate %q does not end", args)
	}
	r := xresult{out: o.String(), err: e.String()}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.code = ee.ExitCode()
		if r.code == 0 {
			r.code = -1
		}
	} else if err != nil {
		inconclusive("xtemplate: %v", err)
	}
	c.Count("runs", 1)
	return r
}

func (x *xcase) show() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "keywords %s, delimiters %s %s", xdeclare(x.kws), x.left, x.right)
	for i, f := range x.files {
		fmt.Fprintf(&sb, "\n--- %s\n%s", f, x.srcs[i])
	}
	return sb.String()
}

// compare tells how an output differs from what the templates call for.
func (x *xcase) compare(out string) string {
	es, err := poParse(out)
	if err != nil {
		return "output is not a PO file: " + err.Error() + "\n" + out
	}
	if len(es) == 0 || es[0].ID != "" || es[0].Ctx != "" {
		return "output does not start with a header:\n" + out
	}
	seen := map[[2]string]bool{}
	for _, e := range es[1:] {
		k := e.key()
		if seen[k] {
			return fmt.Sprintf("context %q id %q is listed twice", e.Ctx, e.ID)
		}
		seen[k] = true
		w := x.want[k]
		if w == nil {
			return fmt.Sprintf("context %q id %q is listed but no call has it", e.Ctx, e.ID)
		}
		switch {
		case e.Plural && len(w.id2) == 0, !e.Plural && !w.singular:
			return fmt.Sprintf("context %q id %q: plural=%v", e.Ctx, e.ID, e.Plural)
		case e.Plural && !w.id2[e.ID2]:
			return fmt.Sprintf("context %q id %q: plural %q, want one of %v", e.Ctx, e.ID, e.ID2, w.id2)
		}
		if e.Str != "" {
			return fmt.Sprintf("context %q id %q has a translation", e.Ctx, e.ID)
		}
		for _, s := range e.StrN {
			if s != "" {
				return fmt.Sprintf("context %q id %q has a translation", e.Ctx, e.ID)
			}
		}
		var locs []string
		for _, l := range e.Cmts {
			if l, ok := strings.CutPrefix(l, "#: "); ok {
				locs = append(locs, l)
			}
		}
		mixed := w.singular && len(w.id2) > 0
		hit := make([]bool, len(locs))
		for _, want := range w.locs {
			ok := false
			for i, l := range locs {
				for n := want.lo; n <= want.hi; n++ {
					if l == fmt.Sprintf("%s:%d", want.file, n) {
						ok, hit[i] = true, true
					}
				}
			}
			if !ok && !mixed {
				return fmt.Sprintf("context %q id %q: no location %s:%d-%d in %q", e.Ctx, e.ID, want.file, want.lo, want.hi, locs)
			}
		}
		for i, l := range locs {
			if !hit[i] {
				return fmt.Sprintf("context %q id %q: location %q is none of its calls %v", e.Ctx, e.ID, l, w.locs)
			}
		}
		if len(locs) == 0 {
			return fmt.Sprintf("context %q id %q has no location", e.Ctx, e.ID)
		}
	}
	for k, w := range x.want {
		if !seen[k] {
			return fmt.Sprintf("context %q id %q (called at %v) is missing", k[0], k[1], w.locs)
		}
	}
	return ""
}
