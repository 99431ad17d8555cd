package main

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"reflect"
	"syscall"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/f"
	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
	"golang.org/x/text/language"
)

func init() {
	register(&Property{ID: "C25",
		Rule:        "Everything handed in is fenced and watched. inputs: catalog bytes lie between sentinel bytes, with sentinel spare capacity, or in memory mapped read-only (a write is a fault); the readers run on them, good and damaged; then the bytes are compared, overwritten with another catalog's bytes or unmapped, and the catalog read before must give the same list, header, language and lookups as before. results: the slices returned by SortedEntry, Locales, Domains, Tags, and the values of Global and derived handles are overwritten by the caller; asking again must give the first answer. arguments: argument slices with spare capacity and with fenced neighbours go through every lookup form, formatting, marks and negotiation (supported and accepted lists, request headers and cookies), with texts that lack or exceed arguments; all must be as before; entries given to AddEntry are not changed by listing, saving and looking up; writers that keep and scribble over the bytes they are given do not change later saves. Non-trivial: distinct inputs.",
		Assumptions: []string{"an entry given to AddEntry stays the catalog's own; changing it later is not judged"},
		Sections: []Section{
			{Name: "inputs", Quick: 8000, Thorough: 160000, Fn: c25inputs, Need: []string{"buffers compared", "read-only inputs", "catalogs compared after overwriting", "damaged inputs"}},
			{Name: "results", Quick: 5000, Thorough: 100000, Fn: c25results, Need: []string{"slices overwritten"}},
			{Name: "arguments", Quick: 10000, Thorough: 200000, Fn: c25arguments, Need: []string{"argument slices compared", "requests compared", "entries compared", "scribbling writers"}},
		}})
}

// c25fence puts data between sentinels; the slice has spare capacity.
func c25fence(c *C, data []byte) (buf []byte, intact func() bool) {
	pre, post := 1+c.Intn(40), 1+c.Intn(40)
	whole := make([]byte, pre+len(data)+post)
	for i := range whole {
		whole[i] = 0xA5
	}
	copy(whole[pre:], data)
	want := append([]byte(nil), whole...)
	return whole[pre : pre+len(data)], func() bool { return bytes.Equal(whole, want) }
}

func c25inputs(c *C) {
	k := catalog(c.Rand, c.Intn(8))
	all := k.all()
	kind := c.Intn(3)
	var data []byte
	switch kind {
	case 0:
		data = []byte(poPrint(c.Rand, all, randomLayout(c.Rand)))
	case 1:
		data = moWrite(c.Rand, all, randomMOLayout(c.Rand)).data
	default:
		var b bytes.Buffer
		must(fileOf(c.Rand, all).SaveAsPot(&b))
		data = b.Bytes()
	}
	damaged := c.Intn(4) == 0 && len(data) > 0
	if damaged {
		data = append([]byte(nil), data...)
		for i := 0; i <= c.Intn(3); i++ {
			data[c.Intn(len(data))] = byte(c.Intn(256))
		}
		c.Count("damaged inputs", 1)
	}
	read := func(b []byte) (*translator.File, error) {
		switch kind {
		case 0:
			return translator.ReadPo(b)
		case 1:
			return translator.ReadMo(b)
		}
		return translator.ReadPot(b)
	}
	var buf []byte
	var intact func() bool
	drop := func() {}
	if c.Intn(3) == 0 && len(data) > 0 {
		m, err := syscall.Mmap(-1, 0, len(data), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			inconclusive("mmap: %v", err)
		}
		copy(m, data)
		must(syscall.Mprotect(m, syscall.PROT_READ))
		buf, intact = m[:len(data):len(data)], func() bool { return bytes.Equal(m[:len(data)], data) }
		drop = func() { must(syscall.Munmap(m)) }
		c.Count("read-only inputs", 1)
	} else {
		buf, intact = c25fence(c, data)
		b := buf
		drop = func() { // the caller uses the memory for something else
			other := []byte(poPrint(c.Rand, catalog(c.Rand, 3).all(), randomLayout(c.Rand)))
			for i := range b {
				b[i] = other[i%len(other)]
			}
		}
	}
	file, err := read(buf)
	if !intact() {
		c.Fail("written", "reading kind %d wrote to its input %q", kind, data)
	}
	c.Count("buffers compared", 1)
	if err != nil {
		if !damaged {
			c.Fail("read", "%v", err)
		}
		before := err.Error()
		drop()
		if err.Error() != before {
			c.Fail("error", "the error text changes with the input: %q becomes %q", before, err.Error())
		}
		return
	}
	tr := t.NewTranslation("x")
	var bad error
	if kind == 1 {
		bad = tr.LoadMo(buf)
	} else if kind == 0 {
		bad = tr.LoadPo(buf)
	}
	if bad != nil || !intact() {
		c.Fail("written", "loading: %v, input intact: %v", bad, intact())
	}
	shows := func() string {
		s := fingerprint(file)
		for _, e := range file.SortedEntry() {
			s += file.X(e.MsgCtxt, e.MsgID) + file.XN64(e.MsgCtxt, e.MsgID, e.MsgID2, 5)
			if kind < 2 && tr != nil {
				x := tr.GetOrNoop(c14norm(file.Lang()))
				s += x.X(e.MsgCtxt, e.MsgID) + x.XN64(e.MsgCtxt, e.MsgID, e.MsgID2, 5)
			}
		}
		return s
	}
	before := shows()
	drop()
	if after := shows(); after != before {
		c.Fail("kept", "after the input is reused the catalog changes from\n%s\nto\n%s", before, after)
	}
	if !damaged && kind < 2 {
		if e := lookAll(c, file, k, 5); e != "" {
			c.Fail("kept", "after the input is reused: %s", e)
		}
	}
	c.Count("catalogs compared after overwriting", 1)
	c.Distinct(string(data))
}

func c25results(c *C) {
	k := catalog(c.Rand, c.Intn(8))
	file := fileOf(c.Rand, k.all())
	show := func(es []*translator.Entry) string {
		s := ""
		for _, e := range es {
			s += fmt.Sprintln(msgOf(e))
		}
		return s
	}
	es, es2 := file.SortedEntry(), file.SortedEntry()
	before := show(es)
	for i := range es {
		es[i] = &translator.Entry{MsgID: "intruder", MsgStr: "intruder"}
	}
	es = append(es[:0], &translator.Entry{MsgID: "intruder2"})
	if got := show(file.SortedEntry()); got != before {
		c.Fail("SortedEntry", "overwriting the returned list changes the next from\n%s\nto\n%s", before, got)
	}
	if got := show(es2); got != before {
		c.Fail("SortedEntry", "overwriting one returned list changes another returned before from\n%s\nto\n%s", before, got)
	}
	c.Count("slices overwritten", 1)
	ts := t.NewTranslations()
	fsys := fstest.MapFS{}
	for i := 0; i <= c.Intn(6); i++ {
		fsys[fmt.Sprint(i, ".po")] = &fstest.MapFile{Data: c22po(c22langs[c.Intn(len(c22langs))][0], fmt.Sprint(i))}
	}
	for i := 0; i <= c.Intn(4); i++ {
		ts.BindFS(c12domains[c.Intn(len(c12domains))], fsys)
	}
	ts.SetDomain(c12domains[c.Intn(len(c12domains))])
	ts.SetLocale(c22langs[c.Intn(len(c22langs))][0])
	t.SetGlobal(ts)
	defer t.SetGlobal(t.NewTranslations())
	scribble := func(what string, get func() []string) {
		a, other := get(), get()
		keep := append([]string(nil), other...)
		want := fmt.Sprint(sorted(a))
		for i := range a {
			a[i] = "xx_XX"
		}
		a = append(a[:0], "yy", "zz")
		_ = append(a[:cap(a)], "more")
		if got := fmt.Sprint(sorted(get())); got != want {
			c.Fail(what, "overwriting the returned list changes the next from %s to %s", want, got)
		}
		if !reflect.DeepEqual(other, keep) {
			c.Fail(what, "overwriting one returned list changes another returned before from %v to %v", keep, other)
		}
		c.Count("slices overwritten", 1)
	}
	scribble("Locales", ts.Locales)
	scribble("Domains", ts.Domains)
	scribble("t.Locales", t.Locales)
	scribble("t.Domains", t.Domains)
	var in []string
	for i := 0; i <= c.Intn(5); i++ {
		in = append(in, c22langs[c.Intn(len(c22langs))][0])
	}
	tags := t.Tags(in)
	want := fmt.Sprint(tags)
	for i := range tags {
		tags[i] = t.Tag("xh")
	}
	if got := fmt.Sprint(t.Tags(in)); got != want {
		c.Fail("Tags", "overwriting the returned tags of %q changes the next from %s to %s", in, want, got)
	}
	state := stateOf(ts) + ts.T("who")
	for _, h := range []*t.Translations{t.Global(), ts.D("elsewhere"), ts.L("xh"), t.D("elsewhere"), t.L("xh"), t.WithContext(context.Background()), t.WithContext(t.SetCtxLocale(context.Background(), "xh"))} {
		h.SetDomain("intruder")
		h.SetLocale("xh")
		h.SetSourceCodeLocale("zu")
		h.BindFS("intruder", fstest.MapFS{"a.po": {Data: c22po("de", "intruder")}})
		for _, d := range h.Domains() {
			h.BindFS(d, fstest.MapFS{"a.po": {Data: c22po("de", "intruder")}})
			h.RemoveDomain(d)
		}
		h.ClearDomains()
		if got := stateOf(ts) + ts.T("who"); got != state {
			c.Fail("handle", "a handle changes its origin from %s to %s", state, got)
		}
	}
	c.Distinct(before, state)
}

// c25writer scribbles over what it is given and keeps it, against the rules of io.Writer, and again later.
type c25writer struct {
	got  bytes.Buffer
	kept [][]byte
}

func (w *c25writer) Write(p []byte) (int, error) {
	w.got.Write(p)
	w.kept = append(w.kept, p)
	for i := range p {
		p[i] = 'X'
	}
	return len(p), nil
}

func c25arguments(c *C) {
	k := catalog(c.Rand, 1+c.Intn(6))
	file := fileOf(c.Rand, k.all())
	m := k.Msgs[c.Intn(len(k.Msgs))]
	n := []int{0, 1, 2, 3, 8}[c.Intn(5)]
	spare := c.Intn(4)
	whole := make([]any, n+spare+2)
	for i := range whole {
		whole[i] = []any{i, fmt.Sprint("v", i), nil, 1.5, []int{1}, map[string]int{"a": 1}, []byte("by"), &i, error(nil), fmt.Errorf("e%d", i), []string{"x", " y"}, '中', true, int64(i), " padded ", []any{1, "%d"}}[c.Intn(16)]
	}
	want := append([]any(nil), whole...)
	deep := fmt.Sprintf("%#v", whole)
	args := whole[1 : 1+n : 1+n+spare]
	same := func(what string) {
		if !reflect.DeepEqual(whole, want) || fmt.Sprintf("%#v", whole) != deep {
			c.Fail("arguments", "%s changes its caller's arguments from %v to %v", what, want, whole)
		}
		c.Count("argument slices compared", 1)
	}
	ctx, id, id2 := m.Ctx, m.ID, m.ID2
	if c.Intn(2) == 0 {
		id = []string{"%d %s %v", "%[2]d", "%[5]*.[2]*[3]f", "%!", "%", "%[1]d %d %%", "none", "%*d", "%+v %#v %T %p"}[c.Intn(9)]
		id2 = id + "s"
	}
	ts := t.NewTranslations()
	ts.BindFS("dom", fstest.MapFS{"a.po": {Data: []byte(poPrint(c.Rand, k.all(), randomLayout(c.Rand)))}})
	ts.SetDomain("dom")
	ts.SetLocale(k.Lang)
	t.SetGlobal(ts)
	defer t.SetGlobal(t.NewTranslations())
	num := count(c.Rand)
	for _, fs := range []struct {
		name string
		f    forms
	}{{"set.", formsOf(ts)}, {"t.", packageForms}} {
		fs.f.T(id, args...)
		same(fs.name + "T")
		fs.f.X(ctx, id, args...)
		same(fs.name + "X")
		fs.f.N(id, id2, int(num), args...)
		same(fs.name + "N")
		fs.f.N64(id, id2, num, args...)
		same(fs.name + "N64")
		fs.f.N1(id, int(num), args...)
		same(fs.name + "N1")
		fs.f.N1_64(id, num, args...)
		same(fs.name + "N1_64")
		fs.f.XN(ctx, id, id2, int(num), args...)
		same(fs.name + "XN")
		fs.f.XN64(ctx, id, id2, num, args...)
		same(fs.name + "XN64")
		fs.f.XN1(ctx, id, int(num), args...)
		same(fs.name + "XN1")
		fs.f.XN1_64(ctx, id, num, args...)
		same(fs.name + "XN1_64")
	}
	file.X(ctx, id, args...)
	same("File.X")
	file.XN64(ctx, id, id2, num, args...)
	same("File.XN64")
	f.Format(id, args...)
	same("Format")
	f.DefaultPlural(id, id2, num, args...)
	same("DefaultPlural")
	t.NoopTranslator().X(ctx, id, args...)
	t.NoopTranslator().XN64(ctx, id, id2, num, args...)
	same("NoopTranslator")
	// lists and requests
	list := func() ([]string, func(string)) {
		all := make([]string, 8)
		for i := range all {
			all[i] = c23spell(c, c22langs[c.Intn(len(c22langs))][0])
			if c.Intn(5) == 0 {
				all[i] = []string{" de", "fr ", "", "iw", "ZH_hant_tw", "en--US", "x-foo", "\x00"}[c.Intn(8)]
			}
		}
		want := append([]string(nil), all...)
		return all[1:4:6], func(what string) {
			if !reflect.DeepEqual(all, want) {
				c.Fail("lists", "%s changes its caller's list from %q to %q", what, want, all)
			}
		}
	}
	a, okA := list()
	b, okB := list()
	t.Match(a, b)
	okA("Match")
	okB("Match")
	ta := t.Tags(a)
	okA("Tags")
	tb := t.Tags(b)
	for i := range ta { // tags that are not in canonical form
		if c.Intn(2) == 0 {
			ta[i] = language.Raw.Make([]string{"iw", "sh", "zh-cmn", "de-DD", "mo", "no-Latn-u-co-phonebk"}[c.Intn(6)])
		}
	}
	for i := range tb {
		if c.Intn(2) == 0 {
			tb[i] = language.Raw.Make([]string{"iw", "sh", "zh-cmn", "de-DD", "mo", "no-Latn-u-co-phonebk"}[c.Intn(6)])
		}
	}
	sa, sb := fmt.Sprint(ta), fmt.Sprint(tb)
	t.MatchTag(ta, tb)
	if fmt.Sprint(ta) != sa || fmt.Sprint(tb) != sb {
		c.Fail("lists", "MatchTag changes its caller's tags from %s %s to %v %v", sa, sb, ta, tb)
	}
	q, err := http.NewRequest("GET", "/x?lang=de", nil)
	must(err)
	q.Header["Accept-Language"] = []string{[]string{"de, en;q=0.5", "*", "", "zz_!!,fr", "zh-Hant;q=0.1,zh", "x;q=9"}[c.Intn(6)], "fr"}
	q.Header["Cookie"] = []string{[]string{"lang=de", "a=b; Lang=fr", "x", "lang=\"q\"; lang=r"}[c.Intn(4)], "b=c"}
	h := q.Header.Clone()
	url := q.URL.String()
	for i := 0; i < 2; i++ {
		if i == 0 {
			t.GetUserLang(q)
		} else {
			t.GetUserLang(q, t.WithCookieName("a"))
		}
		if !reflect.DeepEqual(h, q.Header) || q.URL.String() != url {
			c.Fail("request", "GetUserLang changes the request's headers from %v to %v", h, q.Header)
		}
	}
	c.Count("requests compared", 1)
	ctx0 := t.SetCtxDomain(t.SetCtxLocale(context.Background(), "de"), "dom")
	ctx1 := t.SetCtxLocale(t.SetCtxDomain(ctx0, "other"), "fr")
	plurals.Eval(plurals.DebugCtx(context.Background()), "n", 1)
	t.WithContext(ctx1)
	l, _ := t.GetCtxLocale(ctx0)
	d, _ := t.GetCtxDomain(ctx0)
	if l != "de" || d != "dom" {
		c.Fail("context", "the context a new one is made from now carries %q %q", l, d)
	}
	// entries and writers
	g := new(translator.File)
	es := make([]*translator.Entry, 0, len(k.Msgs))
	var olds []translator.Entry
	for _, x := range k.all() {
		e := entryOf(x)
		switch c.Intn(8) { // what a program may put together but a file would not say
		case 0:
			e.MsgStrN = append(e.MsgStrN, "", "")
		case 1:
			if e.MsgID != "" {
				e.IsPlural = !e.IsPlural
			}
		case 2:
			e.MsgStr += "\r\n line \r"
		case 3:
			e.MsgCmts = append(e.MsgCmts, "#: b:2 a:1", "#: a:1", "#: a:1", "#~ obsolete")
		}
		e.MsgCmts = append(make([]string, 0, len(e.MsgCmts)+2), e.MsgCmts...)
		e.MsgStrN = append(make([]string, 0, len(e.MsgStrN)+2), e.MsgStrN...)
		es = append(es, e)
		old := *e
		old.MsgCmts, old.MsgStrN = append([]string{}, e.MsgCmts...), append([]string{}, e.MsgStrN...)
		olds = append(olds, old)
		g.AddEntry(e)
	}
	save := func() []string {
		var out []string
		for i := 0; i < 3; i++ {
			w := &c25writer{}
			var err error
			switch i {
			case 0:
				err = g.SaveAsPo(w)
			case 1:
				err = g.SaveAsMo(w)
			default:
				err = g.SaveAsPot(w)
			}
			must(err)
			out = append(out, w.got.String())
			for _, p := range w.kept {
				for i := range p {
					p[i] = 'Y'
				}
			}
			c.Count("scribbling writers", 1)
		}
		return out
	}
	first := save()
	for i := range k.Msgs {
		g.X(k.Msgs[i].Ctx, k.Msgs[i].ID, args...)
		g.XN64(k.Msgs[i].Ctx, k.Msgs[i].ID, k.Msgs[i].ID2, num, args...)
	}
	if second := save(); !reflect.DeepEqual(first, second) {
		c.Fail("writer", "a writer that scribbles over what it gets changes the next save from\n%q\nto\n%q", first, second)
	}
	same("File.X")
	for i := range es {
		if got := *es[i]; !reflect.DeepEqual(got, olds[i]) {
			c.Fail("entry", "an entry given to AddEntry changes from %#v to %#v", olds[i], got)
		}
		for _, s := range [][]string{es[i].MsgCmts[:cap(es[i].MsgCmts)][len(es[i].MsgCmts):], es[i].MsgStrN[:cap(es[i].MsgStrN)][len(es[i].MsgStrN):]} {
			for _, v := range s {
				if v != "" {
					c.Fail("entry", "the spare capacity of an entry's list is written: %q", v)
				}
			}
		}
		c.Count("entries compared", 1)
	}
	c.Distinct(id, fmt.Sprint(num, want))
}
