package main

import (
	"bytes"
	"fmt"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/locale"
	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C26",
		Rule:        "chains: one catalog lives through 3 to 14 steps: saved as PO or MO and read again, printed by the independent writers in any layout and read, loaded by LoadPo, LoadMo, LoadFile or BindFS and taken back out of the domain, its entries moved to a new catalog, its template saved, read and filled; between them messages are added, replaced by other translations or other kinds, and the header is replaced by one of another language and rule. After every step its messages, comments (while no MO lay between), header fields, language, lookups and plural choices are those of a model. At the end its three saved forms are byte for byte those of a catalog built from the model's messages at once. merge: the new template of a changed program is filled from an old catalog, as msgmerge does; every message in both is translated as before, every new one gives its source text. drift: one catalog is converted back and forth 20 to 60 times; its size and bytes never change after the first round. Non-trivial: distinct (sequence of steps, end state).",
		Assumptions: []string{"texts without NUL and EOT"},
		Sections: []Section{
			{Name: "chains", Quick: 14000, Thorough: 280000, Fn: c26chains, Need: []string{"steps", "end states compared by bytes", "headers replaced", "messages replaced", "steps through MO", "steps through a domain", "steps through a template"}},
			{Name: "merge", Quick: 5000, Thorough: 100000, Fn: c26merge, Need: []string{"messages carried over", "messages new"}},
			{Name: "drift", Quick: 700, Thorough: 12000, Fn: c26drift, Need: []string{"rounds"}},
		}})
}

// c26life is one catalog and the model of it.
type c26life struct {
	k     *Cat
	f     *translator.File
	cmts  bool // comments are still all there
	exact bool // nothing but the model's messages and comments is there
	part  bool // some messages are untranslated: MO may drop them
	trace []string
}

func (x *c26life) hist() string { return strings.Join(x.trace, ", ") }

func c26translated(m Msg) bool {
	if m.Plural {
		return strings.Join(m.StrN, "") != ""
	}
	return m.Str != ""
}

func c26only(ms []Msg) (out []Msg) {
	for _, m := range ms {
		if c26translated(m) {
			out = append(out, m)
		}
	}
	return
}

func (x *c26life) check(c *C) {
	want, got := x.k.all(), fileMsgs(x.f)
	if x.part {
		want, got = c26only(want), c26only(got)
	}
	if d := sameMsgs(want, got, x.cmts); d != "" {
		c.Fail("messages", "after %s: %s", x.hist(), d)
	}
	checkHeader(c, x.f, x.k, "after "+x.hist())
	if d := lookAll(c, x.f, x.k, 6); d != "" {
		c.Fail("lookups", "after %s: %s", x.hist(), d)
	}
}

func (x *c26life) noCmts() {
	x.cmts = true
	x.k.HCmts = nil
	for i := range x.k.Msgs {
		x.k.Msgs[i].Cmts = nil
	}
}

// rehead gives the catalog another language or rule.
func (x *c26life) rehead(c *C) {
	wk := wellKnown[c.Intn(len(wellKnown))]
	x.k.NForms, x.k.Rule = wk.n, wk.rule
	x.k.Expr = mustParseExpr(wk.rule)
	if c.Chance(1, 2) {
		x.k.Lang = langPool[c.Intn(len(langPool))]
	}
	x.k.HCmts = nil
	x.k.setHeader(c.Rand)
	if c.Chance(1, 4) { // without a rule
		for i, kv := range x.k.Header {
			if kv[0] == "Plural-Forms" {
				x.k.Header = append(x.k.Header[:i:i], x.k.Header[i+1:]...)
				break
			}
		}
		x.k.Forms, x.k.Expr = "", nil
		c.Count("rule removed", 1)
	}
}

// c26msg makes a message; like one that is there, now and then.
func c26msg(c *C, k *Cat) Msg {
	m := Msg{ID: nonEmpty(c.Rand)}
	if c.Chance(1, 2) {
		m.Ctx = []string{"ctx", "menu", "Language", nonEmpty(c.Rand)}[c.Intn(4)]
	}
	if len(k.Msgs) > 0 && c.Chance(1, 3) {
		o := k.Msgs[c.Intn(len(k.Msgs))]
		switch c.Intn(3) {
		case 0:
			m.Ctx, m.ID = o.Ctx+"x", o.ID
		case 1:
			m.Ctx = o.Ctx
			m.ID = near(c.Rand, o.ID)
		default:
			m.Ctx, m.ID = "", o.ID
		}
	}
	if m.ID == "" {
		m.ID = "x"
	}
	if c.Chance(1, 3) {
		m.Plural, m.ID2 = true, nonEmpty(c.Rand)
		for j := 0; j < k.NForms; j++ {
			m.StrN = append(m.StrN, nonEmpty(c.Rand))
		}
	} else {
		m.Str = nonEmpty(c.Rand)
	}
	m.Cmts = comments(c.Rand)
	return m
}

func (x *c26life) add(c *C, m Msg) {
	x.f.AddEntry(entryOf(m))
	for i := range x.k.Msgs {
		if x.k.Msgs[i].key() == m.key() {
			x.k.Msgs[i] = m
			return
		}
	}
	x.k.Msgs = append(x.k.Msgs, m)
}

func (x *c26life) read(c *C, what string, f *translator.File, err error, src []byte) {
	x.trace = append(x.trace, what)
	if err != nil {
		c.Fail("read", "after %s: %v\n%q", x.hist(), err, cut(src))
	}
	x.f = f
}

// domain loads content into a domain and takes the catalog out again.
func (x *c26life) domain(c *C, name string, data []byte) *translator.File {
	lang := locale.Normalize(x.k.Lang)
	var tr *t.Translation
	how := c.Intn(4)
	x.trace = append(x.trace, fmt.Sprintf("domain(%d) %s", how, name))
	switch how {
	case 0:
		ts := t.NewTranslations()
		ts.BindFS("d", fstest.MapFS{"a/" + name: {Data: data}})
		tr = ts.GetOrNoop("d")
	case 1:
		tr = t.NewTranslation("d", x.f) // replaced by what is loaded
		var err error
		if strings.HasSuffix(name, ".mo") {
			err = tr.LoadMo(data)
		} else {
			err = tr.LoadPo(data)
		}
		if err != nil {
			c.Fail("load", "after %s: %v", x.hist(), err)
		}
	case 2:
		tr = t.NewTranslation("d")
		fl, err := (fstest.MapFS{name: {Data: data}}).Open(name)
		must(err)
		if err := tr.LoadFile(fl); err != nil {
			c.Fail("load", "after %s: %v", x.hist(), err)
		}
	default:
		tr = t.NewTranslation("d", x.f)
		if !tr.LoadFS(fstest.MapFS{name: {Data: data}}) {
			c.Fail("load", "after %s: LoadFS found nothing", x.hist())
		}
	}
	tor, ok := tr.Get(lang)
	if !ok {
		c.Fail("load", "after %s: nothing is registered for %s", x.hist(), lang)
	}
	f, ok := tor.(*translator.File)
	if !ok {
		return nil
	}
	return f
}

func (x *c26life) step(c *C) {
	c.Count("steps", 1)
	switch c.Intn(13) {
	case 0, 1:
		b := savePo(c, x.f)
		f, err := translator.ReadPo(b)
		x.read(c, "po", f, err, b)
	case 2, 3:
		b := saveMo(c, x.f)
		f, err := translator.ReadMo(b)
		x.read(c, "mo", f, err, b)
		x.noCmts()
		c.Count("steps through MO", 1)
	case 4:
		l := randomLayout(c.Rand)
		b := []byte(poPrint(c.Rand, x.k.all(), l))
		f, err := translator.ReadPo(b)
		x.read(c, "printed po", f, err, b)
		x.exact = false
	case 5:
		b := moWrite(c.Rand, x.k.all(), randomMOLayout(c.Rand)).data
		f, err := translator.ReadMo(b)
		x.read(c, "written mo", f, err, b)
		x.noCmts()
		x.exact = true
		c.Count("steps through MO", 1)
	case 6:
		g := new(translator.File)
		es := x.f.SortedEntry()
		for _, i := range c.Perm(len(es)) {
			g.AddEntry(es[i])
		}
		x.f = g
		x.trace = append(x.trace, "moved")
	case 7, 8:
		name, data := "c.po", []byte(nil)
		if c.Chance(1, 2) {
			name, data = "c.mo", saveMo(c, x.f)
		} else {
			data = savePo(c, x.f)
		}
		if f := x.domain(c, name, data); f != nil {
			x.f = f
			if name == "c.mo" {
				x.noCmts()
				c.Count("steps through MO", 1)
			}
			c.Count("steps through a domain", 1)
		}
	case 9:
		b := savePot(c, x.f)
		g, err := translator.ReadPot(b)
		x.trace = append(x.trace, "template")
		if err != nil {
			c.Fail("read", "after %s: %v\n%s", x.hist(), err, b)
		}
		ref := newRef(x.k)
		for _, e := range g.SortedEntry() {
			m := msgOf(e)
			if m.ID == "" && m.Ctx == "" {
				continue
			}
			o, ok := ref.m[m.key()]
			if !ok {
				c.Fail("template", "after %s: the template holds %v", x.hist(), m)
			}
			o.Cmts = m.Cmts
			g.AddEntry(entryOf(o))
		}
		x.f = g
		c.Count("steps through a template", 1)
	case 10:
		x.add(c, c26msg(c, x.k))
		x.trace = append(x.trace, "add")
	case 11:
		if len(x.k.Msgs) > 0 {
			m := c26msg(c, x.k)
			o := x.k.Msgs[c.Intn(len(x.k.Msgs))]
			m.Ctx, m.ID = o.Ctx, o.ID
			x.add(c, m)
			x.trace = append(x.trace, "replace")
			c.Count("messages replaced", 1)
		}
	case 12:
		x.rehead(c)
		x.f.AddEntry(entryOf(x.k.all()[0]))
		x.trace = append(x.trace, "header")
		c.Count("headers replaced", 1)
	}
}

// c26long makes some texts longer than buffers may be.
func c26long(c *C, k *Cat) {
	for i := range k.Msgs {
		if c.Chance(1, 40) {
			s := strings.Repeat(nonEmpty(c.Rand)+" ", 1+c.Intn(300))
			if k.Msgs[i].Plural {
				k.Msgs[i].StrN[c.Intn(len(k.Msgs[i].StrN))] = s
			} else {
				k.Msgs[i].Str = s
			}
		}
	}
}

func c26new(c *C, n int) *c26life {
	k := catalog(c.Rand, n)
	c26long(c, k)
	x := &c26life{k: k, cmts: true, exact: true}
	if c.Chance(1, 4) && !k.Raw {
		x.part = true
		for i := range k.Msgs {
			m := &k.Msgs[i]
			switch c.Intn(4) {
			case 0:
				m.Str, m.StrN = "", nil
			case 1:
				for j := range m.StrN {
					if c.Chance(1, 2) {
						m.StrN[j] = ""
					}
				}
			}
		}
	}
	x.f = fileOf(c.Rand, k.all())
	return x
}

func c26chains(c *C) {
	x := c26new(c, c.Intn(9))
	for i, n := 0, 3+c.Intn(12); i < n; i++ {
		x.step(c)
		x.check(c)
	}
	if x.exact && !x.part {
		fresh := fileOf(c.Rand, x.k.all())
		for _, s := range savers {
			a := save(c, func(w *bytes.Buffer) error { return s.f(x.f, w) })
			b := save(c, func(w *bytes.Buffer) error { return s.f(fresh, w) })
			if !bytes.Equal(a, b) {
				c.Fail("end state", "after %s: %s gives\n%q\nbut for the same messages at once\n%q", x.hist(), s.name, a, b)
			}
		}
		c.Count("end states compared by bytes", 1)
	}
	c.Distinct(x.hist(), fmt.Sprint(len(x.k.Msgs)))
	c.Sample("%s: %d messages", x.hist(), len(x.k.Msgs))
}

// c26merge fills the template of a changed program from an old catalog.
func c26merge(c *C) {
	x := c26new(c, 2+c.Intn(12))
	for i := c.Intn(4); i > 0; i-- {
		x.step(c)
	}
	x.check(c)
	// the changed program: some messages gone, some new, some moved to other places
	var now []Msg
	for _, m := range x.k.Msgs {
		if c.Chance(1, 4) {
			continue
		}
		m.Cmts = comments(c.Rand)
		m.Str, m.StrN = "", nil
		now = append(now, m)
	}
	seen := map[[2]string]bool{{"", ""}: true}
	for _, m := range x.k.Msgs {
		seen[m.key()] = true
	}
	for i := c.Intn(6); i > 0; i-- {
		m := c26msg(c, x.k)
		if seen[m.key()] {
			continue
		}
		seen[m.key()] = true
		m.Str, m.StrN = "", nil
		now = append(now, m)
	}
	pot := savePot(c, fileOf(c.Rand, append([]Msg{{Str: "Project-Id-Version: new\n"}}, now...)))
	g, err := translator.ReadPot(pot)
	if err != nil {
		c.Fail("read", "after %s: %v\n%s", x.hist(), err, pot)
	}
	old := map[[2]string]*translator.Entry{}
	for _, e := range x.f.SortedEntry() {
		old[[2]string{e.MsgCtxt, e.MsgID}] = e
	}
	merged := new(translator.File)
	for _, e := range g.SortedEntry() {
		n := entryOf(msgOf(e))
		if o := old[[2]string{e.MsgCtxt, e.MsgID}]; o != nil {
			n.MsgStr, n.MsgStrN = o.MsgStr, o.MsgStrN
		}
		merged.AddEntry(n)
	}
	ref := newRef(x.k)
	k := *x.k
	k.Msgs = nil
	for _, m := range now {
		if o, ok := ref.m[m.key()]; ok {
			m.Str, m.StrN = o.Str, append([]string(nil), o.StrN...)
			c.Count("messages carried over", 1)
		} else {
			c.Count("messages new", 1)
		}
		k.Msgs = append(k.Msgs, m)
	}
	k.HCmts = nil
	hdr := merged.SortedEntry()
	if len(hdr) == 0 || hdr[0].MsgID != "" || hdr[0].MsgCtxt != "" {
		c.Fail("header", "after %s: the merged catalog has no header\n%s", x.hist(), pot)
	}
	y := &c26life{k: &k, f: merged, part: true, cmts: false, trace: append(x.trace, "merged")}
	y.check(c)
	for i := 1 + c.Intn(3); i > 0; i-- {
		y.step(c)
		y.cmts = false
		y.check(c)
	}
	c.Distinct("merge", y.hist(), fmt.Sprint(len(now)))
}

// c26drift converts back and forth many times.
func c26drift(c *C) {
	x := c26new(c, 1+c.Intn(10))
	viaMo := c.Chance(1, 2)
	if viaMo && x.part {
		return
	}
	first := map[string][]byte{}
	for i, n := 0, 20+c.Intn(40); i < n; i++ {
		po := savePo(c, x.f)
		f, err := translator.ReadPo(po)
		x.trace = []string{fmt.Sprintf("%d rounds", i)}
		x.read(c, "po", f, err, po)
		var mo []byte
		if viaMo {
			mo = saveMo(c, x.f)
			f, err = translator.ReadMo(mo)
			x.read(c, "mo", f, err, mo)
			x.noCmts()
		}
		if i == 1 {
			first["po"], first["mo"] = po, mo
		}
		if i > 1 && (!bytes.Equal(po, first["po"]) || !bytes.Equal(mo, first["mo"])) {
			c.Fail("drift", "after %d rounds the saved bytes changed:\n%s\n---\n%s", i, first["po"], po)
		}
		c.Count("rounds", 1)
	}
	x.check(c)
	c.Distinct("drift", string(cut(first["po"])))
}
