package main

import (
	"bytes"
	"fmt"
	htmpl "html/template"
	"io"
	"os"
	"path/filepath"
	"strings"
	ttmpl "text/template"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C27",
		Rule:        "Templates that can be executed are generated: calls of T, N, X, XN and their 64-bit and one-form variants as functions, as methods of the data, of fields and variables, through call, in pipelines, parentheses, conditions, ranges, variables, named and nested templates, in several files, with literals in every spelling and arguments to format. xtemplate extracts a template catalog from them, as one file or one per source; it is filled with a recognisable translation of every message for two or three languages with random plural rules, through the library or through the independent readers and writers, saved as PO and MO, bound from a directory or a file system. Then the templates are executed by text/template or html/template with the library's functions, per language and for an unknown one, with several data values. The oracle is a second execution of the same templates whose functions compute each call's expected text from its runtime arguments alone: the outputs must be equal, so no call shows a wrong, missing or wrongly counted text. Calls whose message is computed at run time must show the source text. Non-trivial: distinct (template, language, data).",
		Assumptions: []string{"a message is used either with or without plural, not both", "xtemplate and the program agree about the keyword positions"},
		Sections: []Section{
			{Name: "programs", Quick: 6000, Thorough: 30000, Fn: c27programs, Need: []string{"executions compared", "calls executed", "plural calls executed", "calls with computed message", "catalogs filled independently", "catalogs filled through the library", "catalogs as MO", "catalogs as PO"}},
		}})
}

// c27api are the functions a program gives its templates.
type c27api interface {
	T(id string, args ...any) string
	N(id, id2 string, n int, args ...any) string
	N64(id, id2 string, n int64, args ...any) string
	N1(id string, n int, args ...any) string
	N1_64(id string, n int64, args ...any) string
	X(ctx, id string, args ...any) string
	XN(ctx, id, id2 string, n int, args ...any) string
	XN64(ctx, id, id2 string, n int64, args ...any) string
	XN1(ctx, id string, n int, args ...any) string
	XN1_64(ctx, id string, n int64, args ...any) string
}

// c27lang is one translated language: its rule and its way to mark texts.
type c27lang struct {
	k *Cat
}

func c27mark(lang, ctx, id string) string {
	return fmt.Sprintf("[%s/%x/%s]", lang, ctx, id)
}

func (l *c27lang) single(ctx, id string) string { return c27mark(l.k.Lang, ctx, id) }
func (l *c27lang) form(ctx, id, id2 string, j int) string {
	if id2 == "" || j == 0 {
		id2 = id
	}
	return c27mark(fmt.Sprintf("%s%d", l.k.Lang, j), ctx, id2)
}

// c27oracle answers calls from their arguments alone.
type c27oracle struct {
	l       *c27lang // nil: no catalog
	c       *C
	plurals map[[2]string]string
}

func (o *c27oracle) dyn(id string) bool { return strings.HasPrefix(id, "computed ") }

func (o *c27oracle) X(ctx, id string, args ...any) string {
	o.c.Count("calls executed", 1)
	if o.dyn(id) {
		o.c.Count("calls with computed message", 1)
		return refFormat(id, args...)
	}
	if o.l == nil || ctx == "" && id == "" {
		return refFormat(id, args...)
	}
	return refFormat(o.l.single(ctx, id), args...)
}

func (o *c27oracle) XN64(ctx, id, id2 string, n int64, args ...any) string {
	o.c.Count("calls executed", 1)
	o.c.Count("plural calls executed", 1)
	if o.l == nil || o.dyn(id) {
		return refPlural(id, id2, n, args...)
	}
	i, err := o.l.k.Expr.eval(n)
	if err != nil || i < 0 || i >= int64(o.l.k.NForms) {
		return refPlural(id, id2, n, args...)
	}
	return refFormat(o.l.form(ctx, id, o.plurals[[2]string{ctx, id}], int(i)), args...)
}
func (o *c27oracle) T(id string, a ...any) string { return o.X("", id, a...) }
func (o *c27oracle) N(id, id2 string, n int, a ...any) string {
	return o.XN64("", id, id2, int64(n), a...)
}
func (o *c27oracle) N64(id, id2 string, n int64, a ...any) string {
	return o.XN64("", id, id2, n, a...)
}
func (o *c27oracle) N1(id string, n int, a ...any) string      { return o.XN64("", id, "", int64(n), a...) }
func (o *c27oracle) N1_64(id string, n int64, a ...any) string { return o.XN64("", id, "", n, a...) }
func (o *c27oracle) XN(ctx, id, id2 string, n int, a ...any) string {
	return o.XN64(ctx, id, id2, int64(n), a...)
}
func (o *c27oracle) XN1(ctx, id string, n int, a ...any) string {
	return o.XN64(ctx, id, "", int64(n), a...)
}
func (o *c27oracle) XN1_64(ctx, id string, n int64, a ...any) string {
	return o.XN64(ctx, id, "", n, a...)
}

// c27data is what templates are executed with.
type c27data struct {
	c27api
	Tr     c27api
	Name   string
	Count  int
	Big    int64
	List   []string
	Empty  []string
	Yes    bool
	Sub    *c27data
	Fn     map[string]any
	Dyn    string
	Nested map[string]map[string]c27api
}

// Words splits texts.
func (d *c27data) Words(s ...string) []string { return strings.Fields(strings.Join(s, " ")) }

// With is the data with texts for its name.
func (d *c27data) With(s ...string) *c27data {
	if len(s) > 1 && s[0] != s[1] && len(s[0])%3 == 0 {
		return nil
	}
	d2 := *d
	d2.Name, d2.List = strings.Join(s, "+"), s
	return &d2
}

func c27list(s ...string) []string { return s }

func c27make(a c27api, name string, n int, list []string, depth int) *c27data {
	d := &c27data{c27api: a, Tr: a, Name: name, Count: n, Big: int64(n) * 3, List: list, Yes: n%2 == 0, Dyn: "computed " + name}
	d.Fn = map[string]any{"T": a.T, "N": a.N, "X": a.X, "XN": a.XN, "N64": a.N64, "XN64": a.XN64, "N1": a.N1, "XN1": a.XN1, "N1_64": a.N1_64, "XN1_64": a.XN1_64}
	d.Nested = map[string]map[string]c27api{"a": {"b": a}}
	if depth > 0 {
		d.Sub = c27make(a, name+"'", n+1, list, depth-1)
	}
	return d
}

var c27kws = []xkw{{"T", 0, 1, 0}, {"N", 0, 1, 2}, {"N64", 0, 1, 2}, {"N1", 0, 1, 1}, {"N1_64", 0, 1, 1}, {"X", 1, 2, 0}, {"XN", 1, 2, 3}, {"XN64", 1, 2, 3}, {"XN1", 1, 2, 2}, {"XN1_64", 1, 2, 2}}

// c27gen writes templates.
type c27gen struct {
	*C
	left, right string
	sb          strings.Builder
	single      []Msg // texts used without plural
	plural      []Msg
	defined     []string
	n           int
}

func (g *c27gen) pick(s ...string) string { return s[g.Intn(len(s))] }

func (g *c27gen) lit(s string) string {
	x := &xgen{c: g.C, forms: map[string]int{}}
	return x.lit(s)
}

func (g *c27gen) head(name string) string {
	switch g.Intn(12) {
	default:
		return name
	case 0:
		return "." + name
	case 1:
		return "$d." + name
	case 2:
		return ".Tr." + name
	case 3:
		return "$d.Tr." + name
	case 4:
		return "(.Tr)." + name
	case 5:
		return "call .Fn." + name
	case 6:
		return ".Nested.a.b." + name
	case 7:
		return "$d.Tr." + name
	case 8:
		return "$tr." + name
	}
}

// str is a string-valued operand.
func (g *c27gen) str(depth int) string {
	switch g.Intn(6) {
	case 0:
		return ".Name"
	case 1:
		return "$d.Name"
	case 2:
		return g.lit(g.pick("plain", "T", "a \"b\"", "é"))
	}
	if depth > 0 {
		return "(" + g.call(depth-1) + ")"
	}
	return ".Name"
}

func (g *c27gen) num(is64 bool) string {
	if is64 {
		return g.pick(".Big", "$d.Big", "7", "1", "0", "2", "1000000", "21")
	}
	return g.pick(".Count", "$d.Count", "7", "1", "0", "2", "11", "21", "(len .List)", "(len .Name)", "5")
}

// verbs writes the arguments the text's verbs take.
func (g *c27gen) verbs(id string, depth int, num string) string {
	out := ""
	s := strings.ReplaceAll(id, "%%", "")
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '%' {
			switch s[i+1] {
			case 's', 'v':
				out += " " + g.str(depth)
			case 'd':
				if num != "" && g.Chance(3, 4) {
					out += " " + num
				} else {
					out += " " + g.num(false)
				}
			}
		}
	}
	if g.Chance(1, 12) {
		out += " .Name" // a surplus one
	}
	return out
}

// call is a command calling a keyword.
func (g *c27gen) call(depth int) string {
	if g.Chance(1, 14) { // a message computed at run time
		switch g.Intn(3) {
		case 0:
			return g.head("T") + " .Dyn"
		case 1:
			return g.head("X") + " " + g.lit("ctx") + " $d.Dyn"
		default:
			return g.head("N") + " .Dyn .Dyn " + g.num(false)
		}
	}
	is64 := g.Chance(1, 3)
	sfx := func(name string) string {
		if !is64 {
			return name
		}
		if strings.HasSuffix(name, "1") {
			return name + "_64"
		}
		return name + "64"
	}
	var m Msg
	if g.Chance(1, 2) {
		m = g.single[g.Intn(len(g.single))]
		if m.Ctx == "" && g.Chance(2, 3) {
			return g.pipe("T", g.lit(m.ID), m.ID, depth, "")
		}
		return g.pipe("X", g.lit(m.Ctx)+" "+g.lit(m.ID), m.ID, depth, "")
	}
	m = g.plural[g.Intn(len(g.plural))]
	num := g.num(is64)
	switch {
	case m.ID2 == "" && m.Ctx == "":
		return g.pipe(sfx("N1"), g.lit(m.ID)+" "+num, m.ID, depth, num)
	case m.ID2 == "":
		return g.pipe(sfx("XN1"), g.lit(m.Ctx)+" "+g.lit(m.ID)+" "+num, m.ID, depth, num)
	case m.Ctx == "" && g.Chance(2, 3):
		return g.pipe(sfx("N"), g.lit(m.ID)+" "+g.lit(m.ID2)+" "+num, m.ID, depth, num)
	}
	return g.pipe(sfx("XN"), g.lit(m.Ctx)+" "+g.lit(m.ID)+" "+g.lit(m.ID2)+" "+num, m.ID, depth, num)
}

// pipe writes the call, with its last argument piped in now and then.
func (g *c27gen) pipe(name, operands, id string, depth int, num string) string {
	args := g.verbs(id, depth, num)
	if args == "" && g.Chance(1, 5) {
		if name == "T" {
			return operands + " | " + g.head(name)
		}
		if num != "" && strings.HasSuffix(operands, " "+num) && (!strings.HasSuffix(name, "64") || strings.HasSuffix(num, ".Big")) {
			return num + " | " + g.head(name) + " " + strings.TrimSuffix(operands, " "+num)
		}
	}
	return g.head(name) + " " + operands + args
}

func (g *c27gen) act(src string) {
	l, r := g.left, g.right
	if g.Chance(1, 6) {
		l += "- "
	} else if g.Chance(1, 3) {
		l += " "
	}
	if g.Chance(1, 6) {
		r = " -" + r
	} else if g.Chance(1, 3) {
		r = " " + r
	}
	g.sb.WriteString(l + src + r)
}

// show is an action that prints.
func (g *c27gen) show(depth int) {
	s := g.call(depth)
	switch g.Intn(9) {
	default:
		g.act(s)
	case 0:
		g.act(s + " | printf \"%q\"")
	case 1:
		g.act("printf \"%s|%s\" (" + s + ") (" + g.call(depth) + ")")
	case 2:
		g.act("len (" + s + ")")
	case 3:
		g.n++
		v := fmt.Sprintf("$v%d", g.n)
		g.act(v + " := " + s)
		g.act(v)
		g.act(v + " = " + g.call(depth))
		g.act(v)
	case 4:
		g.act(s + " | print | printf \"<%s>\"")
	case 5:
		g.act("print (" + s + ") " + g.str(depth))
	}
}

func (g *c27gen) nodes(n, depth int) {
	for i := 0; i < n; i++ {
		g.sb.WriteString(g.pick("\n", " ", "text ", "T \"decoy\" ", "\n  ", "100%", "中文"))
		switch k := g.Intn(14); {
		case k < 6 || depth == 0:
			g.show(2)
		case k == 6:
			g.act("if " + g.pick(".Yes", "$d.Yes", "and .Yes ("+g.call(1)+")", g.call(1), "eq ("+g.call(1)+") ("+g.call(1)+")", "gt .Count 3", "not .Yes"))
			g.nodes(1+g.Intn(2), depth-1)
			if g.Chance(1, 3) {
				g.act("else if " + g.pick(".Name", g.call(1)))
				g.nodes(1, depth-1)
			}
			if g.Chance(1, 2) {
				g.act("else")
				g.nodes(1, depth-1)
			}
			g.act("end")
		case k == 7:
			over := g.pick(".List", "$d.List", ".Empty")
			if g.Chance(1, 2) {
				over = "list"
				for j := g.Intn(4); j >= 0; j-- {
					over += " (" + g.call(1) + ")"
				}
				switch g.Intn(4) {
				case 0:
					over = "$d.Words (" + g.call(1) + ")"
				case 1:
					over = g.call(1) + " | list " + g.lit("T")
				}
			}
			elem := "."
			switch g.Intn(3) {
			case 0:
				g.act("range $i, $e := " + over)
				elem = "$e"
			case 1:
				g.act("range $e := " + over)
				elem = "$e"
			default:
				g.act("range " + over)
			}
			g.act("with $d")
			g.nodes(1, depth-1)
			g.act("end")
			if elem == "$e" && g.Chance(1, 3) {
				g.act("with $d")
				g.act("if eq $e (" + g.call(1) + ")")
				g.act(g.pick("break", "continue"))
				g.act("end")
				g.act("end")
			}
			g.act(elem)
			if g.Chance(1, 2) {
				g.act("else")
				g.nodes(1, depth-1)
			}
			g.act("end")
		case k == 8:
			g.act("with " + g.pick(".Sub", "$d.Sub", ".Empty", "$d.With ("+g.call(1)+")", "$d.With ("+g.call(1)+") ("+g.call(1)+")"))
			g.nodes(1+g.Intn(2), 0)
			if g.Chance(1, 5) {
				g.act("else with $d.With (" + g.call(1) + ")")
				g.nodes(1, 0)
			}
			if g.Chance(1, 2) {
				g.act("else")
				g.nodes(1, 0)
			}
			g.act("end")
		case k == 9:
			g.act("with $x := " + g.call(1))
			g.act("$x")
			g.act("end")
		case k == 10 && len(g.defined) > 0:
			g.act("template \"" + g.defined[g.Intn(len(g.defined))] + "\" " + g.pick(".", "$d", "($d.With ("+g.call(1)+"))", "("+g.call(1)+" | $d.With)"))
		case k == 11:
			g.n++
			g.act(fmt.Sprintf("block \"blk%d\" %s", g.n, g.pick("$d", "$d", "($d.With ("+g.call(1)+"))", "("+g.call(1)+" | $d.With)")))
			g.act("$d := .")
			g.act("$tr := .Tr")
			g.nodes(1, depth-1)
			g.act("end")
		default:
			g.show(3)
		}
	}
}

// texts makes the messages of the program.
func (g *c27gen) texts() {
	pool := keyPool(g.Rand, 10)
	for i := range pool {
		pool[i] = strings.NewReplacer("\x00", "0", "\x04", "4", "%", "%%").Replace(pool[i])
	}
	ctxs := []string{"", "", "", "menu", "Menu", pool[0]}
	seen := map[[2]string]bool{{"", ""}: true}
	for i := 0; i < 12; i++ {
		m := Msg{Ctx: ctxs[g.Intn(len(ctxs))], ID: pool[g.Intn(len(pool))]}
		if g.Chance(1, 3) {
			m.ID += g.pick(" %s", " %v!", " %d", " %s and %v", "%d/%s", ": %%")
		}
		if seen[m.key()] || strings.HasPrefix(m.ID, "computed") {
			continue
		}
		seen[m.key()] = true
		if g.Chance(1, 2) {
			m.Plural = true
			switch g.Intn(4) {
			case 0: // the one-form variants
			case 1:
				m.ID2 = m.ID
			default:
				m.ID2 = m.ID + "s"
			}
			g.plural = append(g.plural, m)
		} else {
			g.single = append(g.single, m)
		}
	}
	g.single = append(g.single, Msg{ID: "always"})
	g.plural = append(g.plural, Msg{ID: "%d always", Plural: true, ID2: "%d alwayses"})
}

// c27exec parses and executes all files; html says by which package.
func c27exec(files [][2]string, left, right string, html bool, a c27api, d *c27data) (string, error) {
	fn := map[string]any{}
	for k, v := range d.Fn {
		fn[k] = v
	}
	fn["list"] = c27list
	var out bytes.Buffer
	var run func(w io.Writer, name string) error
	if html {
		tm := htmpl.New("root").Delims(left, right).Funcs(fn)
		for _, f := range files {
			if _, err := tm.New(f[0]).Parse(f[1]); err != nil {
				return "", fmt.Errorf("parse: %w", err)
			}
		}
		run = func(w io.Writer, name string) error { return tm.ExecuteTemplate(w, name, d) }
	} else {
		tm := ttmpl.New("root").Delims(left, right).Funcs(fn)
		for _, f := range files {
			if _, err := tm.New(f[0]).Parse(f[1]); err != nil {
				return "", fmt.Errorf("parse: %w", err)
			}
		}
		run = func(w io.Writer, name string) error { return tm.ExecuteTemplate(w, name, d) }
	}
	for _, f := range files {
		if err := run(&out, f[0]); err != nil {
			return out.String(), err
		}
		out.WriteString("\n====\n")
	}
	return out.String(), nil
}

func c27programs(c *C) {
	g := &c27gen{C: c}
	dl := xdelims[c.Intn(len(xdelims))]
	for strings.HasPrefix(dl[1], "#") || strings.HasPrefix(dl[1], "-") {
		dl = xdelims[c.Intn(len(xdelims))]
	}
	g.left, g.right = dl[0], dl[1]
	g.texts()
	html := c.Chance(1, 3) && !strings.HasPrefix(g.left, "<")
	dir := c.Dir()
	defer os.RemoveAll(dir)
	var files [][2]string
	for i, n := 0, 1+c.Intn(3); i < n; i++ {
		g.sb.Reset()
		defs := c.Intn(3)
		var names []string
		for j := 0; j < defs; j++ {
			name := fmt.Sprintf("def%d_%d", i, j)
			g.act("define \"" + name + "\"")
			g.act("$d := .")
			g.act("$tr := .Tr")
			g.nodes(1+c.Intn(2), 1)
			g.act("end")
			names = append(names, name)
		}
		g.defined = append(g.defined, names...)
		g.act("$d := .")
		g.act("$tr := .Tr")
		g.nodes(2+c.Intn(6), 2)
		name := fmt.Sprintf("f%d.tmpl", i)
		files = append(files, [2]string{name, g.sb.String()})
		must(os.WriteFile(filepath.Join(dir, name), []byte(g.sb.String()), 0o644))
	}
	show := func() string {
		s := g.left + g.right
		for _, f := range files {
			s += "\n--- " + f[0] + "\n" + f[1]
		}
		return s
	}

	// extract
	pots := []string{"*.tmpl"}
	if c.Chance(1, 4) {
		pots = nil
		for _, f := range files {
			pots = append(pots, f[0])
		}
	}
	pot := new(translator.File)
	var raw []Msg
	seen := map[[2]string]bool{}
	for _, p := range pots {
		r := xrun(c, dir, nil, nil, "-i", p, "-k", xdeclare(c27kws), "-left", g.left, "-right", g.right)
		if r.code != 0 {
			c.Fail("extract", "xtemplate ends with %d: %s\n%s", r.code, r.err, show())
		}
		f, err := translator.ReadPot([]byte(r.out))
		if err != nil {
			c.Fail("extract", "ReadPot: %v\n%s", err, r.out)
		}
		for _, e := range f.SortedEntry() {
			pot.AddEntry(e)
		}
		es, err := poParse(r.out)
		if err != nil {
			c.Fail("extract", "the template catalog is malformed: %v\n%s", err, r.out)
		}
		for _, m := range poMsgs(es) {
			if !seen[m.key()] && (m.ID != "" || m.Ctx != "") {
				seen[m.key()] = true
				raw = append(raw, m)
			}
		}
	}

	// translate
	plurals := map[[2]string]string{}
	for _, m := range raw {
		plurals[m.key()] = m.ID2
	}
	ldir := filepath.Join(dir, "lang")
	must(os.Mkdir(ldir, 0o755))
	var langs []*c27lang
	used := map[string]bool{}
	for _, i := range c.Perm(len(langPool))[:2+c.Intn(2)] {
		if base := langPool[i][:2]; used[base] {
			continue
		} else {
			used[base] = true
		}
		wk := wellKnown[c.Intn(len(wellKnown))]
		k := &Cat{Lang: langPool[i], NForms: wk.n, Rule: wk.rule, Expr: mustParseExpr(wk.rule)}
		k.setHeader(c.Rand)
		l := &c27lang{k}
		langs = append(langs, l)
		fill := func(m Msg) Msg {
			m.Str, m.StrN = "", nil
			if m.Plural {
				for j := 0; j < k.NForms; j++ {
					m.StrN = append(m.StrN, l.form(m.Ctx, m.ID, m.ID2, j))
				}
			} else {
				m.Str = l.single(m.Ctx, m.ID)
			}
			return m
		}
		mo := c.Chance(1, 2)
		var data []byte
		if c.Chance(1, 2) {
			for _, m := range raw {
				k.Msgs = append(k.Msgs, fill(m))
			}
			if mo {
				data = moWrite(c.Rand, k.all(), randomMOLayout(c.Rand)).data
			} else {
				data = []byte(poPrint(c.Rand, k.all(), randomLayout(c.Rand)))
			}
			c.Count("catalogs filled independently", 1)
		} else {
			f := new(translator.File)
			for _, e := range pot.SortedEntry() {
				m := msgOf(e)
				if m.ID == "" && m.Ctx == "" {
					m = k.all()[0]
				} else {
					m = fill(m)
				}
				f.AddEntry(entryOf(m))
			}
			if mo {
				data = saveMo(c, f)
			} else {
				data = savePo(c, f)
			}
			c.Count("catalogs filled through the library", 1)
		}
		name := k.Lang + ".po"
		if mo {
			name = k.Lang + ".mo"
			c.Count("catalogs as MO", 1)
		} else {
			c.Count("catalogs as PO", 1)
		}
		must(os.WriteFile(filepath.Join(ldir, name), data, 0o644))
	}
	ts := t.NewTranslations()
	if c.Chance(1, 2) {
		t.SetGlobal(ts)
		t.Bind("app", ldir)
		t.SetGlobal(t.NewTranslations())
	} else {
		ts.BindFS("app", os.DirFS(ldir))
	}
	ts.SetDomain("app")

	// run
	list := []string{"x", "T", "<b>"}[:c.Intn(4)]
	for i := 0; i < 3; i++ {
		n := int(count(c.Rand) % 1000)
		if n < 0 {
			n = -n
		}
		if c.Chance(1, 2) {
			n = c.Intn(12)
		}
		for _, l := range append(append([]*c27lang(nil), langs...), nil) {
			lang := "ko_KR"
			if l != nil {
				lang = l.k.Lang
			}
			var real c27api = ts.L(lang)
			oracle := &c27oracle{l: l, c: c, plurals: plurals}
			name := g.pick("Ann", "%s", "中", "")
			want, err := c27exec(files, g.left, g.right, html, oracle, c27make(oracle, name, n, list, 2))
			if err != nil {
				if !html { // html/template refuses some contexts
					inconclusive("generator wrote a template that fails: %v\n%s", err, show())
				}
				c.Count("refused by html/template", 1)
				return
			}
			got, err := c27exec(files, g.left, g.right, html, real, c27make(real, name, n, list, 2))
			if err != nil || got != want {
				at := 0
				for at < len(got) && at < len(want) && got[at] == want[at] {
					at++
				}
				lo := max(0, at-60)
				c.Fail("output", "language %s, count %d: the output differs (%v) at %d:\nwant …%q\ngot  …%q\n%s", lang, n, err, at, cut([]byte(want[lo:])), cut([]byte(got[lo:])), show())
			}
			c.Count("executions compared", 1)
			c.Distinct(show(), lang, fmt.Sprint(n))
		}
	}
	c.Sample("%d files, %d messages, %d languages", len(files), len(raw), len(langs))
}
