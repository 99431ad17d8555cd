package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C24",
		Rule: "Catalogs are generated whose messages have no location, one or several (file:line or file:line:column, on one or several comment lines, among other comments), with files that are prefixes of each other and numbers of different widths. The list, and the order of messages in the saved PO text and template (read by an independent parser), must hold every message exactly once, the header first, the located messages in ascending order of their first location (file bytewise, then line and column as numbers), messages with the same one location and messages without any in ascending order of context and id; adding the messages in other orders, one more time, or reading the saved text back must give the same order. Non-trivial: distinct lists.",
		Assumptions: []string{"how located messages and messages without location are mixed, and the order of messages whose first location is equal but which have further locations, is only required to be the same every time",
			"numbers of at most nine digits, names without blanks and control characters"},
		Sections: []Section{
			{Name: "order", Quick: 20000, Thorough: 400000, Fn: c24order, Need: []string{"pairs by location", "pairs by number", "pairs by key", "lists compared", "saved PO order", "saved POT order", "replaced", "located headers"}},
		}})
}

type c24loc struct {
	file      string
	line, col int // col 0: none
}

var c24names = []string{"a.go", "a", "b.go", "a.go.tmpl", "cmd/a.go", "cmd/b/a.go", "A.go", "中.go", "a-b.go", "a_b.go", "a1.go", "a10.go", "a9.go", "z", "tmpl/index.html", "tmpl/index", "0", "12", "a.go2"}

func (l c24loc) String() string {
	if l.col > 0 {
		return fmt.Sprintf("%s:%d:%d", l.file, l.line, l.col)
	}
	return fmt.Sprintf("%s:%d", l.file, l.line)
}

func c24num(c *C) int {
	switch c.Intn(4) {
	case 0:
		return 1 + c.Intn(30)
	case 1:
		return []int{9, 10, 11, 99, 100, 101, 999, 1000, 9999, 10000, 99999, 100000, 999999999}[c.Intn(13)]
	case 2:
		return 1 + c.Intn(2000)
	}
	return 1 + c.Intn(3)
}

type c24msg struct {
	Msg
	locs []c24loc
}

func c24clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r < ' ' && r != '\n' && r != '\t' {
			return '_'
		}
		return r
	}, s)
}

// c24cmp is -1, 0 or 1, and whether the two have a required order.
func c24cmp(a, b c24msg) (int, string) {
	cmp := func(x, y int) int {
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
	if len(a.locs) > 0 && len(b.locs) > 0 {
		x, y := a.locs[0], b.locs[0]
		if r := strings.Compare(x.file, y.file); r != 0 {
			return r, "location"
		}
		if r := cmp(x.line, y.line); r != 0 {
			return r, "number"
		}
		if x.col > 0 && y.col > 0 && x.col != y.col {
			return cmp(x.col, y.col), "number"
		}
		if len(a.locs) > 1 || len(b.locs) > 1 || x != y {
			return 0, ""
		}
	} else if len(a.locs) > 0 || len(b.locs) > 0 {
		return 0, ""
	}
	if r := strings.Compare(a.Ctx, b.Ctx); r != 0 {
		return r, "key"
	}
	return strings.Compare(a.ID, b.ID), "key"
}

func c24order(c *C) {
	n := c.Intn(14)
	if c.Intn(20) == 0 {
		n = 50 + c.Intn(150)
	}
	k := catalog(c.Rand, n)
	if k.Raw {
		k = catalog(c.Rand, n)
		if k.Raw {
			return
		}
	}
	names := append([]string(nil), c24names...)
	c.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:1+c.Intn(6)]
	loc := func() c24loc {
		l := c24loc{names[c.Intn(len(names))], c24num(c), 0}
		if c.Intn(3) == 0 {
			l.col = c24num(c)
		}
		return l
	}
	tight := func() string {
		if c.Intn(4) == 0 {
			return "#:"
		}
		return "#: "
	}
	shared := []c24loc{loc(), loc()}
	pool := keyPool(c.Rand, 8)
	mode := c.Intn(4)
	msgs := map[[2]string]c24msg{}
	var all []Msg
	head := k.all()[0]
	if c.Intn(3) == 0 { // the header has a location as well
		head.Cmts = append(append([]string(nil), head.Cmts...), "#: "+loc().String())
		c.Count("located headers", 1)
	}
	all = append(all, head)
	for _, m := range k.Msgs {
		x := c24msg{Msg: m}
		x.Ctx, x.ID = c24clean(x.Ctx), c24clean(x.ID)
		if c.Intn(3) == 0 {
			x.Ctx = ""
		}
		if c.Intn(2) == 0 {
			x.ID = c24clean(pool[c.Intn(len(pool))])
		}
		if x.ID == "" && x.Ctx == "" {
			continue
		}
		if _, ok := msgs[x.key()]; ok {
			continue
		}
		x.Cmts = nil
		if mode > 0 && c.Intn(6) > 0 {
			switch c.Intn(4) {
			case 0:
				x.locs = shared[:1+c.Intn(2)]
			case 1:
				for i := 1 + c.Intn(4); i > 0; i-- {
					x.locs = append(x.locs, loc())
				}
			default:
				x.locs = []c24loc{loc()}
			}
		}
		other := func() {
			if c.Intn(4) == 0 {
				x.Cmts = append(x.Cmts, []string{"# note a.go:1", "#. z", "#, go-format", "#", "#| msgid \"a.go:2\"", "# 9"}[c.Intn(6)])
			}
		}
		other()
		one := c.Intn(2) == 0
		line := ""
		for _, l := range x.locs {
			if one {
				line += " " + l.String()
			} else {
				x.Cmts = append(x.Cmts, tight()+l.String())
				other()
			}
		}
		if line != "" {
			if c.Intn(4) == 0 {
				line = line[1:]
			}
			x.Cmts = append(x.Cmts, "#:"+line)
		}
		other()
		msgs[x.key()] = x
		all = append(all, x.Msg)
	}
	f := fileOf(c.Rand, all)
	list := fileMsgs(f)
	say := func(ms []Msg) string {
		var sb strings.Builder
		for _, m := range ms {
			fmt.Fprintf(&sb, "%q %q %q\n", m.Cmts, m.Ctx, m.ID)
		}
		return sb.String()
	}
	if e := sameMsgs(all, list, true); e != "" {
		c.Fail("listed", "%s", e)
	}
	if list[0].Ctx != "" || list[0].ID != "" {
		c.Fail("header", "the header is not first:\n%s", say(list))
	}
	rest := list[1:]
	for i := 0; i < len(rest); i++ {
		for j := i + 1; j < len(rest) && j < i+40; j++ {
			r, why := c24cmp(msgs[rest[i].key()], msgs[rest[j].key()])
			if why != "" {
				c.Count("pairs by "+why, 1)
			}
			if r > 0 {
				c.Fail("order", "by %s, %v stands before %v:\n%s", why, rest[i], rest[j], say(list))
			}
		}
	}
	keys := func(ms []Msg) string {
		var sb strings.Builder
		for _, m := range ms {
			fmt.Fprintf(&sb, "%q %q\n", m.Ctx, m.ID)
		}
		return sb.String()
	}
	want := keys(list)
	same := func(what string, ms []Msg) {
		if g := keys(ms); g != want {
			c.Fail("order", "%s has the order\n%s\nthe list\n%s", what, g, say(list))
		}
		c.Count("lists compared", 1)
	}
	same("the list again", fileMsgs(f))
	g := fileOf(c.Rand, all)
	same("the same messages added in another order", fileMsgs(g))
	for i, n := 0, c.Intn(4); i < n; i++ { // replaced by themselves, and back again
		m := all[c.Intn(len(all))]
		old := m
		m.Cmts = []string{"#: zz:1"}
		g.AddEntry(entryOf(m))
		fileMsgs(g)
		g.AddEntry(entryOf(old))
		c.Count("replaced", 1)
	}
	same("the same messages after replacing some", fileMsgs(g))
	var b bytes.Buffer
	if err := f.SaveAsPo(&b); err != nil {
		c.Fail("save", "%v", err)
	}
	es, err := poParse(b.String())
	if err != nil {
		c.Fail("save", "%v", err)
	}
	same("the saved PO text", poMsgs(es))
	c.Count("saved PO order", 1)
	if h, err := translator.ReadPo(b.Bytes()); err != nil {
		c.Fail("read", "%v", err)
	} else {
		same("the saved PO text, read back,", fileMsgs(h))
	}
	b.Reset()
	if err := f.SaveAsPot(&b); err != nil {
		c.Fail("save", "%v", err)
	}
	if es, err = poParse(b.String()); err != nil {
		c.Fail("save", "%v", err)
	}
	same("the saved template", poMsgs(es))
	c.Count("saved POT order", 1)
	if len(list) > 2 {
		c.Distinct(say(list))
	}
}
