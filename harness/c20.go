package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func init() {
	register(&Property{ID: "C20",
		Rule:        "'declared': sets of 1-60 random declarations of every documented form (positions 1-9 in any order, equal, huge or beyond the arguments; several declarations of one name; blanks, tabs and line breaks around every part; ASCII and other letters) are given to the real xtemplate command with templates whose calls have 0-11 arguments, each at random a literal or not, some piped; the output must list exactly what the stated positions select. 'written out' lists every (form, small position) combination with calls of every length. 'rejected': declarations broken in one of the ways the property names, alone or between good ones; the command must exit non-zero with a message, list nothing and leave the output file as it was. Non-trivial: distinct declaration strings.",
		Assumptions: []string{"spellings on which the documentation is silent are not judged: signs (+1), blanks between a position and its c, names that are no template identifiers"},
		Sections: []Section{
			{Name: "declared", Quick: 10000, Thorough: 80000, Fn: c20declared, Need: []string{"calls in templates", "calls not to be extracted"}},
			{Name: "written out", Quick: len(c20all()), Thorough: len(c20all()), Fn: c20written, Need: []string{"messages"}},
			{Name: "rejected", Quick: 3000, Thorough: 40000, Fn: c20rejected, Need: []string{"rejections"}},
		}})
}

var c20names = []string{"T", "N", "X", "gettext", "_", "t1", "Tr", "翻译", "ñ", "A_b9", "lang"}

func c20pos(c *C) int {
	switch c.Intn(12) {
	case 0:
		return 5 + c.Intn(5)
	case 1:
		return []int{10, 11, 100, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt64 - 1, math.MaxInt64}[c.Intn(7)]
	}
	return 1 + c.Intn(4)
}

func c20kw(c *C) xkw {
	k := xkw{name: c20names[c.Intn(len(c20names))], id: c20pos(c)}
	switch c.Intn(5) {
	case 0:
		k.id = 1
	case 1:
		k.id2 = c20pos(c)
	case 2:
		k.ctx = c20pos(c)
	case 3:
		k.ctx, k.id2 = c20pos(c), c20pos(c)
	}
	return k
}

// spell writes a declaration with blanks around its parts.
func (k xkw) spell(c *C) string {
	b := func() string {
		if c.Intn(3) > 0 {
			return ""
		}
		return []string{" ", "  ", "\t", "\n", " \n "}[c.Intn(5)]
	}
	s := b() + k.name + b()
	if k.ctx == 0 && k.id2 == 0 && k.id == 1 && c.Intn(2) == 0 {
		return s
	}
	s += ":"
	if k.ctx > 0 {
		s += b() + strconv.Itoa(k.ctx) + "c" + b() + ","
	}
	s += b() + strconv.Itoa(k.id) + b()
	if k.id2 > 0 {
		s += "," + b() + strconv.Itoa(k.id2) + b()
	}
	return s
}

func c20set(c *C) ([]xkw, string) {
	var kws []xkw
	var ss []string
	n := 1 + c.Intn(6)
	if c.Intn(8) == 0 {
		n = 10 + c.Intn(50)
	}
	for i := 0; i < n; i++ {
		k := c20kw(c)
		if n > 6 && i > 4 {
			k.name += fmt.Sprint(i)
		}
		kws = append(kws, k)
		ss = append(ss, k.spell(c))
	}
	return kws, strings.Join(ss, ";")
}

func c20declared(c *C) {
	kws, decl := c20set(c)
	x := xmake(c, kws, 1)
	defer os.RemoveAll(x.dir)
	c20run(c, x, decl)
}

func c20run(c *C, x *xcase, decl string) {
	args := x.args()
	args[3] = decl
	r := xrun(c, x.dir, nil, nil, args...)
	if r.code != 0 {
		c.Fail("exit", "declarations %q: exit %d: %s\n%s", decl, r.code, r.err, x.show())
	}
	if d := x.compare(r.out); d != "" {
		c.Fail("positions", "declarations %q: %s\n%s\n--- output\n%s", decl, d, x.show(), r.out)
	}
	c.Distinct(decl)
	c.Count("messages", len(x.want))
}

// c20all lists every form with positions up to 4.
func c20all() (all []xkw) {
	for id := 1; id <= 4; id++ {
		for id2 := 0; id2 <= 4; id2++ {
			for ctx := 0; ctx <= 4; ctx++ {
				all = append(all, xkw{"T", ctx, id, id2})
			}
		}
	}
	return
}

// c20written calls one keyword with every number of arguments and every single computed one.
func c20written(c *C) {
	k := c20all()[c.Index]
	x := &xcase{dir: c.Dir(), kws: []xkw{k}, left: "{{", right: "}}", files: []string{"a.tmpl"}, pattern: "a.tmpl", want: map[[2]string]*xwant{}}
	defer os.RemoveAll(x.dir)
	g := &xgen{c: c, kws: x.kws, left: x.left, right: x.right, file: "a.tmpl", want: x.want, forms: map[string]int{}, plainBlank: true}
	no := 0
	for n := 0; n <= 6; n++ {
		for hole := 0; hole <= n; hole++ { // 0 is none
			for pipe := 0; pipe < 2; pipe++ {
				var args []xarg
				src := "T"
				for i := 1; i <= n; i++ {
					no++
					a := xarg{lit: true, text: fmt.Sprintf("text %d", no)}
					a.src = strconv.Quote(a.text)
					if i == hole {
						a = xarg{src: ".X"}
					}
					args = append(args, a)
					if pipe == 1 && i == n {
						src = a.src + " | " + src
					} else {
						src += " " + a.src
					}
				}
				g.record("T", args)
				g.action(src)
				g.sb.WriteString("\n")
			}
		}
	}
	x.srcs = []string{g.sb.String()}
	if err := os.WriteFile(filepath.Join(x.dir, "a.tmpl"), []byte(x.srcs[0]), 0o644); err != nil {
		inconclusive("%v", err)
	}
	c20run(c, x, k.String())
	if k.id == 1 && k.ctx == 0 && k.id2 == 0 {
		c20run(c, x, "T:1")
	}
}

// c20bad is a declaration that must be rejected.
func c20bad(c *C) string {
	n := c20names[c.Intn(len(c20names))]
	p := func() string { return strconv.Itoa(1 + c.Intn(4)) }
	junk := func() string { // no positive number
		return []string{"", " ", "0", "-1", "-3", "00", "a", "x1", "1x", "1.0", "1e1", "0x1", "one", "１", "1 2", "c", "#1", "99999999999999999999", "-0", "1_0", "'1'", "\"1\"", "%d", "1/1"}[c.Intn(24)]
	}
	switch c.Intn(14) {
	case 0: // no name
		return []string{"", " ", "\t", ":1", " :1", ":1,2", ":1c,2", ": 1c,2,3", ":"}[c.Intn(9)]
	case 1:
		return n + ":" + junk()
	case 2:
		return n + ":" + junk() + "," + p()
	case 3:
		return n + ":" + p() + "," + junk()
	case 4:
		return n + ":" + junk() + "c," + p()
	case 5:
		return n + ":" + p() + "c," + junk()
	case 6:
		return n + ":" + []string{junk() + "c," + p() + "," + p(), p() + "c," + junk() + "," + p(), p() + "c," + p() + "," + junk()}[c.Intn(3)]
	case 7: // misplaced or missing c
		return n + ":" + []string{p() + "c", p() + "," + p() + "c", p() + "," + p() + "c," + p(), p() + "," + p() + "," + p() + "c", p() + "," + p() + "," + p(), p() + "c," + p() + "c", p() + "c," + p() + "c," + p(), p() + "c," + p() + "," + p() + "c", p() + "cc," + p(), "c" + p() + "," + p(), p() + "C," + p(), p() + "d," + p(), p() + "cc," + p() + "," + p()}[c.Intn(13)]
	case 8: // too many parts
		return n + ":" + []string{p() + "," + p() + "," + p() + "," + p(), p() + "c," + p() + "," + p() + "," + p(), p() + "c," + p() + "," + p() + ",", p() + "c," + p() + "," + p() + ",\"c\""}[c.Intn(4)]
	case 9: // too many colons
		return n + []string{":1:2", "::1", ":1:", ":1c,2:3", "::"}[c.Intn(5)]
	case 10: // an empty position
		return n + ":" + []string{"1,", ",1", ",", "1c,", "1c,2,", "1c,,2", ",1,2", "1,,2", ",,", " , "}[c.Intn(10)]
	case 11: // zero or negative ctx
		return n + ":" + []string{"0c,1", "-1c,2", "0c,1,2", "-2c,1,2", "1c,0", "1c,0,2", "1c,2,0", "1c,2,-1", "0,1", "1,0", "0,0"}[c.Intn(11)]
	case 12:
		return n + ":"
	}
	return n + ":c," + p()
}

func c20rejected(c *C) {
	good, _ := c20set(c)
	var ss []string
	for _, k := range good[:c.Intn(len(good)+1)] {
		ss = append(ss, k.spell(c))
	}
	bad := c20bad(c)
	i := c.Intn(len(ss) + 1)
	ss = append(ss[:i], append([]string{bad}, ss[i:]...)...)
	decl := strings.Join(ss, ";")
	dir := c.Dir()
	defer os.RemoveAll(dir)
	var sb strings.Builder
	for _, n := range c20names {
		fmt.Fprintf(&sb, "{{%s \"a\" \"b\" \"c\" \"d\"}}\n", n)
	}
	src := sb.String()
	if c.Intn(4) == 0 { // would fail too, but later
		src += "{{if}}"
	}
	must(os.WriteFile(filepath.Join(dir, "a.tmpl"), []byte(src), 0o644))
	args := []string{"-i", "a.tmpl", "-k", decl}
	old, kept := "old content\n", false
	switch c.Intn(3) {
	case 0:
		args = append(args, "-o", "out.pot")
	case 1:
		args = append(args, "-o", "out.pot")
		must(os.WriteFile(filepath.Join(dir, "out.pot"), []byte(old), 0o644))
		kept = true
	}
	r := xrun(c, dir, nil, nil, args...)
	if r.code == 0 {
		c.Fail("accepted", "bad declaration %q in %q is accepted:\n%s", bad, decl, r.out)
	}
	if strings.TrimSpace(r.err) == "" {
		c.Fail("silent", "bad declaration %q in %q: exit %d without a message", bad, decl, r.code)
	}
	if strings.Contains(r.out, "msgid") {
		c.Fail("extracted", "bad declaration %q in %q: exit %d, but output:\n%s", bad, decl, r.code, r.out)
	}
	if strings.Contains(r.err, "goroutine ") || strings.Contains(r.err, "runtime error") {
		c.Fail("crash", "bad declaration %q in %q: %s", bad, decl, r.err)
	}
	got, err := os.ReadFile(filepath.Join(dir, "out.pot"))
	if kept && string(got) != old || !kept && err == nil {
		c.Fail("overwritten", "bad declaration %q in %q: output file is now %q", bad, decl, got)
	}
	c.Count("rejections", 1)
	c.Distinct(decl)
}

func must(err error) {
	if err != nil {
		inconclusive("%v", err)
	}
}
