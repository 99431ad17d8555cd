package main

import (
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/youthlin/t"
	"github.com/youthlin/t/f"
	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C10",
		Rule:        "Texts assembled from literals (percent pairs, brackets, look-alikes of fmt's diagnostics) and directives (every verb, flags, widths, precisions, stars, argument indexes) are formatted with fitting and surplus arguments of many types through Format, DefaultPlural and the translation API; the expectation is assembled piece by piece with fmt.Sprintf. Random directive soups and texts ending in unfinished verbs are compared with Sprintf less its EXTRA note. Canary values in the spare capacity and the elements of the caller's slice must not change. Non-trivial: distinct (text, arguments) compared.",
		Assumptions: []string{"texts with arguments missing (Sprintf says MISSING, BADINDEX, BADWIDTH, BADPREC) are only required not to crash; the repository's tests pin another output for them"},
		Sections: []Section{
			{Name: "pieces", Quick: 100000, Thorough: 3000000, Fn: c10pieces, Need: []string{"formatted", "surplus"}},
			{Name: "soup", Quick: 100000, Thorough: 3000000, Fn: c10soup, Need: []string{"unfinished", "soup compared"}},
			{Name: "bare", Quick: 30000, Thorough: 600000, Fn: c10bare, Need: []string{"without arguments"}},
			{Name: "canary", Quick: 30000, Thorough: 600000, Fn: c10canary, Need: []string{"canaries checked"}},
		}})
}

type stringer struct{ s string }

func (s stringer) String() string { return "S(" + s.s + ")" }

type formatter struct{}

func (formatter) Format(st fmt.State, verb rune) { fmt.Fprintf(st, "F<%c>", verb) }

type panicker struct{}

func (panicker) String() string { panic("no string") }

func fmtArg(c *C) any {
	x := 5
	return []any{0, 1, -7, 42, int64(1 << 40), uint8(200), 3.14159, -0.5, 1e100, "str", "", "100%", "%d", "%!(EXTRA int=1)"[:0] + "a%sb", "中文", "[", "%[1]d", true, false, nil, 'x', 2 + 3i,
		[]int{1, 2}, []string{"a", "b"}, map[string]int{"k": 1}, struct{ A, B int }{1, 2}, &struct{ A int }{3}, errors.New("an error"), stringer{"x"}, &stringer{"y"}, formatter{}, panicker{},
		[]byte("bytes"), time.Duration(1500) * time.Millisecond, (*int)(nil), (error)(nil), x, [2]bool{true, false}, any(nil), reflect.ValueOf(7), []any{1, "x", nil}}[c.Intn(41)]
}

var litAtoms = []string{"a", "hello ", " ", "100", "(", ")", "[", "]", "[1]", "[x", "]]", "EXTRA", "!(EXTRA int=1)", "!(NOVERB)", "中文", "\n", "\"", "\\", "d", "s", "v", "*", ".", "#", "+", "-", "é", "\xff", "$", "{", "!", "=", "NOVERB)"}

func literal(c *C) string {
	var sb strings.Builder
	for i, n := 0, c.Intn(4); i < n; i++ {
		sb.WriteString(litAtoms[c.Intn(len(litAtoms))])
	}
	return sb.String()
}

func directive(c *C) string {
	d := "%"
	for c.Intn(4) == 0 {
		d += string("+-# 0"[c.Intn(5)])
	}
	if c.Intn(4) == 0 {
		d += fmt.Sprint(1 + c.Intn(12))
	}
	if c.Intn(5) == 0 {
		d += "." + fmt.Sprint(c.Intn(6))
	}
	return d + string("vdsqxXtTeEfgGbcoOU"[c.Intn(18)])
}

// c10pieces builds text and expectation together.
func c10pieces(c *C) {
	var text, want strings.Builder
	var args []any
	lit := func() {
		l := literal(c)
		text.WriteString(l)
		want.WriteString(l)
		for c.Intn(5) == 0 {
			text.WriteString("%%")
			want.WriteString("%")
		}
	}
	indexed := c.Intn(4) == 0
	lit()
	if indexed { // every directive has an index; any order, repeats allowed
		for i, n := 0, 1+c.Intn(4); i < n; i++ {
			args = append(args, fmtArg(c))
		}
		for i, n := 0, 1+c.Intn(5); i < n; i++ {
			d := directive(c)
			k := c.Intn(len(args))
			text.WriteString(d[:len(d)-1] + fmt.Sprintf("[%d]", k+1) + d[len(d)-1:])
			want.WriteString(fmt.Sprintf(d, args[k]))
			lit()
		}
	} else {
		for i, n := 0, c.Intn(5); i < n; i++ {
			switch c.Intn(8) {
			case 0: // star width
				w, a := c.Intn(20)-6, fmtArg(c)
				text.WriteString("%*v")
				want.WriteString(fmt.Sprintf("%*v", w, a))
				args = append(args, w, a)
			case 1: // star precision
				w, a := c.Intn(6), 3.14159265
				text.WriteString("%6.*f")
				want.WriteString(fmt.Sprintf("%6.*f", w, a))
				args = append(args, w, a)
			case 2: // foreign verb
				a := fmtArg(c)
				v := []string{"%y", "%!", "%中", "%k"}[c.Intn(4)]
				text.WriteString(v)
				want.WriteString(fmt.Sprintf(v, a))
				args = append(args, a)
			default:
				d, a := directive(c), fmtArg(c)
				text.WriteString(d)
				want.WriteString(fmt.Sprintf(d, a))
				args = append(args, a)
			}
			lit()
		}
	}
	if len(args) == 0 || c.Intn(2) == 0 {
		for i, n := 0, 1+c.Intn(3); i < n; i++ {
			args = append(args, fmtArg(c))
			c.Count("surplus", 1)
		}
	}
	s := text.String()
	c.Count("formatted", 1)
	c.Distinct(s, fmt.Sprintf("%#v", len(args)), want.String())
	c.Sample("%q with %d arguments", s, len(args))
	c10via(c, s, want.String(), args)
}

// c10via formats s through one of the doors.
func c10via(c *C, s, want string, args []any) {
	var got, door string
	switch c.Intn(8) {
	case 0:
		door, got = "DefaultPlural singular", f.DefaultPlural(s, "other %d", 1, args...)
	case 1:
		door, got = "DefaultPlural plural", f.DefaultPlural("other %d", s, []int64{0, 2, -1, 1 << 40}[c.Intn(4)], args...)
		if s == "" {
			return
		}
	case 2:
		door, got = "DefaultPlural without plural", f.DefaultPlural(s, "", count(c.Rand), args...)
	case 3:
		door, got = "T", t.NewTranslations().T(s, args...)
	case 4:
		if s == "" {
			return
		}
		file := new(translator.File)
		file.AddEntry(&translator.Entry{MsgID: "id", MsgStr: s})
		door, got = "File.X", file.X("", "id", args...)
	case 5:
		if s == "" {
			return
		}
		file := new(translator.File)
		file.AddEntry(&translator.Entry{MsgStr: "Plural-Forms: nplurals=1; plural=0;\n"})
		file.AddEntry(&translator.Entry{MsgID: "id", MsgID2: "ids", IsPlural: true, MsgStrN: []string{s}})
		door, got = "File.XN64", file.XN64("", "id", "ids", count(c.Rand), args...)
	default:
		door, got = "Format", f.Format(s, args...)
	}
	if got != want {
		c.Fail("format", "%s(%q, %#v)=%q want %q", door, s, args, got, want)
	}
}

var unfinished = []string{"%", "%5", "%-", "%+#", "%.", "%.3", "%[1]", "%[", "%[1", "%*", "%5.", "% ", "%0", "%[2]*", "%[1].", "%.[", "%.*", "%[9", "%12[", "%[x", "%[1]5", "%-8.3"}

var indexRE = regexp.MustCompile(`\[(\d+)\]`)

// lacking tells whether s asks for arguments that are not there; the repository's tests pin what happens then.
func lacking(s, raw string, n int) bool {
	for _, bad := range []string{"MISSING", "BADINDEX", "BADWIDTH", "BADPREC"} {
		if strings.Contains(raw, bad) {
			return true
		}
	}
	for _, m := range indexRE.FindAllStringSubmatch(s, -1) {
		if k, _ := strconv.Atoi(m[1]); k > n {
			return true
		}
	}
	return false
}

func c10soup(c *C) {
	parts := append([]string{"%d", "%s", "%v", "%[1]d", "%[2]v", "%[1]s", "%%", "%+v", "%5d", "%-4s|", "%*d", "%.*f", "%q", "%x", "a", "b ", "[", "]", "text ", "%T", "%!", "%[1]*d", "%z"}, unfinished...)
	var s string
	for i, n := 0, 1+c.Intn(5); i < n; i++ {
		if c.Intn(3) == 0 {
			s += parts[c.Intn(len(parts))]
		} else {
			s += parts[c.Intn(23)]
		}
	}
	tail := c.Intn(3) == 0
	if tail {
		s += unfinished[c.Intn(len(unfinished))]
	}
	var args []any
	for i, n := 0, 1+c.Intn(7); i < n; i++ {
		args = append(args, []any{1, 2, "str", 3.5, true, nil, 7}[c.Intn(7)])
	}
	raw := fmt.Sprintf(s, args...)
	if lacking(s, raw, len(args)) {
		f.Format(s, args...)
		c.Count("arguments missing", 1)
		return
	}
	want := refFormat(s, args...)
	c.Count("soup compared", 1)
	if strings.Contains(raw, "NOVERB") {
		c.Count("unfinished", 1)
	}
	c.Distinct(s, fmt.Sprint(args...))
	c10via(c, s, want, args)
}

func c10bare(c *C) {
	s := text(c.Rand)
	if c.Intn(2) == 0 {
		s += directive(c) + literal(c)
	}
	if c.Intn(3) == 0 {
		s += unfinished[c.Intn(len(unfinished))]
	}
	c.Count("without arguments", 1)
	c.Distinct("bare", s)
	if got := f.Format(s); got != s {
		c.Fail("bare", "Format(%q)=%q", s, got)
	}
	var none []any
	if c.Intn(2) == 0 {
		none = make([]any, 0, 4)
	}
	c10via(c, s, s, none)
}

func c10canary(c *C) {
	n, spare := c.Intn(6), 1+c.Intn(4)
	back := make([]any, n+spare)
	for i := range back {
		back[i] = fmt.Sprintf("canary %d", i)
	}
	for i := 0; i < n; i++ {
		back[i] = i * 11
	}
	keep := append([]any(nil), back...)
	s := ""
	for i, k := 0, c.Intn(n+2); i < k && i < n; i++ {
		s += "%v "
	}
	if c.Intn(4) == 0 {
		s += unfinished[c.Intn(len(unfinished))]
	}
	if c.Intn(4) == 0 {
		s += "%[1]v ["
	}
	args := back[:n]
	raw := fmt.Sprintf(s, args...)
	want := refFormat(s, args...)
	if n == 0 {
		want = s
	}
	short := lacking(s, raw, n)
	ts := t.NewTranslations()
	for name, got := range map[string]string{
		"Format": f.Format(s, args...), "DefaultPlural": f.DefaultPlural(s, s, 2, args...), "T": ts.T(s, args...), "N": ts.N(s, s, 2, args...), "X": ts.X("c", s, args...), "package T": t.T(s, args...),
		"XN64": ts.XN64("c", s, s, 1, args...), "N1": ts.N1(s, 3, args...),
	} {
		if got != want && !short {
			c.Fail("format", "%s(%q,%v)=%q want %q", name, s, args, got, want)
		}
	}
	c.Count("canaries checked", spare)
	c.Distinct("canary", s, fmt.Sprint(n, spare))
	if !reflect.DeepEqual(back, keep) {
		c.Fail("written", "formatting %q wrote to its caller's slice: %v became %v", s, keep, back)
	}
}
