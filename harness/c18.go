package main

import (
	"context"
	"fmt"
	"math"
	"strings"
	"testing/fstest"
	"time"

	"github.com/youthlin/t"
)

func init() {
	register(&Property{ID: "C18",
		Rule: "For generated sets (several domains and languages, any plural rule, empty and noop states) and generated messages (stored, near misses, absent, empty, with verbs), counts and argument lists, every entry point of the API is called and compared with the long form X or XN64 it stands for: methods, package-level functions on the current global set, context-derived handles, single Translations; and the answer itself with the reference lookup of the catalog. 'twins' applies the same state changes to the global set through the package level and to an own set through methods and compares both after every step. Marking helpers must return their arguments. Non-trivial: distinct (state, call) pairs.",
		Sections: []Section{
			{Name: "forms", Quick: 6000, Thorough: 80000, Fn: c18forms, Need: []string{"calls compared", "translated answers", "source answers", "context handles"}},
			{Name: "twins", Quick: 4000, Thorough: 50000, Fn: c18twins, Need: []string{"twin states compared"}},
			{Name: "marks", Quick: 2000, Thorough: 20000, Fn: c18marks},
		}})
}

// c18set makes a loaded set and returns the catalogs by domain and locale.
func c18set(c *C) (*t.Translations, map[[2]string]*Cat) {
	ts := t.NewTranslations()
	cats := map[[2]string]*Cat{}
	for _, d := range c12domains[:1+c.Intn(4)] {
		if c.Intn(4) == 0 {
			continue
		}
		fsys := fstest.MapFS{}
		for i, n := 0, 1+c.Intn(3); i < n; i++ {
			k := catalog(c.Rand, 3+c.Intn(6))
			id := fmt.Sprintf("%d", i)
			norm := c14norm(k.Lang)
			if cats[[2]string{d, norm}] != nil {
				continue
			}
			cats[[2]string{d, norm}] = k
			fsys[id+".po"] = &fstest.MapFile{Data: []byte(poPrint(c.Rand, k.all(), randomLayout(c.Rand)))}
		}
		ts.BindFS(d, fsys)
	}
	return ts, cats
}

func c18forms(c *C) {
	ts, cats := c18set(c)
	keys := [][2]string{{"default", "zh_CN"}, {"nowhere", "de_DE"}}
	for k := range cats {
		keys = append(keys, k)
	}
	keys = sortPairs(keys)
	for round := 0; round < 4; round++ {
		at := keys[c.Intn(len(keys))]
		if c.Intn(3) > 0 && len(cats) > 0 {
			for cats[at] == nil {
				at = keys[c.Intn(len(keys))]
			}
		}
		ts.SetDomain(at[0])
		ts.SetLocale(at[1])
		k := cats[at]
		m := Msg{ID: text(c.Rand), ID2: text(c.Rand), Ctx: []string{"", text(c.Rand)}[c.Intn(2)]}
		if k != nil && c.Intn(4) > 0 {
			m = k.Msgs[c.Intn(len(k.Msgs))]
			if m.ID2 == "" && c.Intn(2) == 0 {
				m.ID2 = "plural text"
			}
			if c.Intn(3) == 0 {
				m.Ctx = ""
			}
		}
		if m.Ctx == "" && m.ID == "" { // the header is not a message (C11)
			m.ID = "some text"
		}
		n := int(count(c.Rand))
		if c.Intn(6) == 0 {
			n = []int{math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 0, 1, -1}[c.Intn(7)]
		}
		n64 := int64(n)
		var args []any
		for i, j := 0, c.Intn(4); i < j; i++ {
			args = append(args, fmtArg(c))
		}
		X := func(ctx, id string) string { return ts.X(ctx, id, args...) }
		XN := func(ctx, id, id2 string) string { return ts.XN64(ctx, id, id2, n64, args...) }
		desc := fmt.Sprintf("domain %q locale %s ctx %q id %q id2 %q n %d args %#v", at[0], at[1], m.Ctx, m.ID, m.ID2, n, args)
		if k != nil && len(args) == 0 {
			ref := newRef(k)
			if w := ref.X(m.Ctx, m.ID); X(m.Ctx, m.ID) != w && !k.isPlural(m) {
				c.Fail("lookup", "%s: X=%q want %q", desc, X(m.Ctx, m.ID), w)
			}
			if X(m.Ctx, m.ID) != m.ID {
				c.Count("translated answers", 1)
			}
		} else if k == nil {
			if X(m.Ctx, m.ID) != refFormatOr(m.ID, X(m.Ctx, m.ID), args) {
				c.Fail("lookup", "%s: X=%q", desc, X(m.Ctx, m.ID))
			}
			c.Count("source answers", 1)
		}
		eq := func(name, got, want string) {
			if got != want {
				c.Fail("forms", "%s: %s=%q want %q", desc, name, got, want)
			}
			c.Count("calls compared", 1)
		}
		all := func(who string, v forms) {
			eq(who+"T", v.T(m.ID, args...), X("", m.ID))
			eq(who+"X", v.X(m.Ctx, m.ID, args...), X(m.Ctx, m.ID))
			eq(who+"X without context", v.X("", m.ID, args...), X("", m.ID))
			eq(who+"N", v.N(m.ID, m.ID2, n, args...), XN("", m.ID, m.ID2))
			eq(who+"N64", v.N64(m.ID, m.ID2, n64, args...), XN("", m.ID, m.ID2))
			eq(who+"N1", v.N1(m.ID, n, args...), XN("", m.ID, ""))
			eq(who+"N1_64", v.N1_64(m.ID, n64, args...), XN("", m.ID, ""))
			eq(who+"XN", v.XN(m.Ctx, m.ID, m.ID2, n, args...), XN(m.Ctx, m.ID, m.ID2))
			eq(who+"XN64", v.XN64(m.Ctx, m.ID, m.ID2, n64, args...), XN(m.Ctx, m.ID, m.ID2))
			eq(who+"XN1", v.XN1(m.Ctx, m.ID, n, args...), XN(m.Ctx, m.ID, ""))
			eq(who+"XN1_64", v.XN1_64(m.Ctx, m.ID, n64, args...), XN(m.Ctx, m.ID, ""))
		}
		all("", formsOf(ts))
		all("D.L.", formsOf(ts.D(at[0]).L(at[1])))
		all("L.D.", formsOf(ts.L(at[1]).D(at[0])))
		t.SetGlobal(ts)
		all("t.", packageForms)
		all("Global().", formsOf(t.Global()))
		eq("t.Locale", t.Locale(), ts.Locale())
		eq("t.Domain", t.Domain(), ts.Domain())
		eq("t.SourceCodeLocale", t.SourceCodeLocale(), ts.SourceCodeLocale())
		eq("t.UsedLocale", t.UsedLocale(), ts.UsedLocale())
		eq("t.MostMatchLocale", t.MostMatchLocale(), ts.MostMatchLocale())
		eq("t.Locales", fmt.Sprint(t.Locales()), fmt.Sprint(ts.Locales()))
		eq("t.Domains", fmt.Sprint(sorted(t.Domains())), fmt.Sprint(sorted(ts.Domains())))
		for _, d := range c12domains {
			eq("t.HasDomain", fmt.Sprint(t.HasDomain(d)), fmt.Sprint(ts.HasDomain(d)))
		}
		// context handles
		ctx := context.Background()
		if l, ok := t.GetCtxLocale(ctx); ok || l != "" {
			c.Fail("context", "GetCtxLocale of an empty context: %q,%v", l, ok)
		}
		if d, ok := t.GetCtxDomain(ctx); ok || d != "" {
			c.Fail("context", "GetCtxDomain of an empty context: %q,%v", d, ok)
		}
		all("WithContext(empty).", formsOf(t.WithContext(ctx)))
		other := keys[c.Intn(len(keys))]
		g := ts.D(other[0]).L(other[1]) // what the global set is while the context asks for at
		t.SetGlobal(g)
		l, d := at[1], at[0]
		if c.Intn(2) == 0 {
			ctx = t.SetCtxDomain(t.SetCtxLocale(ctx, "overridden"), "overridden")
		}
		if c.Intn(2) == 0 {
			ctx = t.SetCtxLocale(t.SetCtxDomain(ctx, d), l)
		} else {
			ctx = t.SetCtxDomain(t.SetCtxLocale(ctx, l), d)
		}
		if gl, ok := t.GetCtxLocale(ctx); !ok || gl != l {
			c.Fail("context", "GetCtxLocale=%q,%v want %q", gl, ok, l)
		}
		if gd, ok := t.GetCtxDomain(ctx); !ok || gd != d {
			c.Fail("context", "GetCtxDomain=%q,%v want %q", gd, ok, d)
		}
		switch c.Intn(6) { // what else a context is does not matter
		case 0:
			var stop context.CancelFunc
			ctx, stop = context.WithCancel(ctx)
			stop()
		case 1:
			var stop context.CancelFunc
			ctx, stop = context.WithDeadline(ctx, time.Now().Add(-time.Hour))
			defer stop()
		case 2:
			ctx = context.WithValue(ctx, c18key("locale"), "xx")
			ctx = context.WithValue(ctx, "locale", "yy")
			ctx = context.WithValue(ctx, "lang", "yy")
			ctx = context.WithValue(ctx, "domain", "yy")
		case 3:
			ctx = context.WithoutCancel(ctx)
		}
		h := t.WithContext(ctx)
		all("WithContext.", formsOf(h))
		eq("WithContext locale", h.Locale(), l)
		eq("WithContext domain", h.Domain(), d)
		half := t.WithContext(t.SetCtxLocale(context.Background(), l))
		eq("WithContext locale only", half.Locale()+"/"+half.Domain(), l+"/"+other[0])
		half = t.WithContext(t.SetCtxDomain(context.Background(), d))
		eq("WithContext domain only", half.Locale()+"/"+half.Domain(), other[1]+"/"+d)
		eq("global kept", t.Locale()+"/"+t.Domain(), other[1]+"/"+other[0])
		half = t.WithContext(t.SetCtxDomain(t.SetCtxLocale(context.Background(), ""), ""))
		eq("WithContext empty locale and domain", half.Locale()+"/"+half.Domain(), t.L("").D("").Locale()+"/")
		half = t.WithContext(t.SetCtxLocale(ctx, "")) // a later value hides the earlier one, also when it is empty
		eq("WithContext empty locale", half.Locale()+"/"+half.Domain(), t.L("").Locale()+"/"+d)
		for _, odd := range []string{"und", "x", "C", "POSIX", "und_ZZ", "en_US.UTF-8", "qq_QQ", " ", "*", "_", "zh_CN@x"} {
			o := t.WithContext(t.SetCtxLocale(t.SetCtxDomain(context.Background(), odd), odd))
			eq("WithContext odd locale", o.Locale()+"/"+o.Domain(), t.L(odd).Locale()+"/"+odd)
			if gl, ok := t.GetCtxLocale(t.SetCtxLocale(context.Background(), odd)); !ok || gl != odd {
				c.Fail("context", "GetCtxLocale=%q,%v want %q", gl, ok, odd)
			}
			if gd, ok := t.GetCtxDomain(t.SetCtxDomain(context.Background(), odd)); !ok || gd != odd {
				c.Fail("context", "GetCtxDomain=%q,%v want %q", gd, ok, odd)
			}
		}
		spelled := strings.ToUpper(strings.ReplaceAll(l, "_", "-"))
		eq("WithContext spelling", t.WithContext(t.SetCtxLocale(context.Background(), spelled)).Locale(), t.L(spelled).Locale())
		c.Count("context handles", 1)
		// the parts
		tor := ts.GetOrNoop(at[0]).GetOrNoop(at[1])
		eq("Translator.X", tor.X(m.Ctx, m.ID, args...), X(m.Ctx, m.ID))
		eq("Translator.XN64", tor.XN64(m.Ctx, m.ID, m.ID2, n64, args...), XN(m.Ctx, m.ID, m.ID2))
		t.SetGlobal(t.NewTranslations())
		c.Distinct(desc)
	}
}

// refFormatOr is the reference, or got when the text asks for arguments that are not there.
func refFormatOr(s, got string, args []any) string {
	if len(args) > 0 && lacking(s, fmt.Sprintf(s, args...), len(args)) {
		return got
	}
	return refFormat(s, args...)
}

func (k *Cat) isPlural(m Msg) bool {
	for _, x := range k.Msgs {
		if x.Ctx == m.Ctx && x.ID == m.ID && x.Plural {
			return true
		}
	}
	return false
}

func c14norm(l string) string {
	h := t.NewTranslations()
	h.SetLocale(l)
	return h.Locale()
}

func sortPairs(ps [][2]string) [][2]string {
	for i := range ps {
		for j := i; j > 0 && (ps[j][0] < ps[j-1][0] || ps[j][0] == ps[j-1][0] && ps[j][1] < ps[j-1][1]); j-- {
			ps[j], ps[j-1] = ps[j-1], ps[j]
		}
	}
	return ps
}

type forms struct {
	T      func(string, ...any) string
	X      func(string, string, ...any) string
	N      func(string, string, int, ...any) string
	N64    func(string, string, int64, ...any) string
	N1     func(string, int, ...any) string
	N1_64  func(string, int64, ...any) string
	XN     func(string, string, string, int, ...any) string
	XN64   func(string, string, string, int64, ...any) string
	XN1    func(string, string, int, ...any) string
	XN1_64 func(string, string, int64, ...any) string
}

func formsOf(ts *t.Translations) forms {
	return forms{ts.T, ts.X, ts.N, ts.N64, ts.N1, ts.N1_64, ts.XN, ts.XN64, ts.XN1, ts.XN1_64}
}

var packageForms = forms{t.T, t.X, t.N, t.N64, t.N1, t.N1_64, t.XN, t.XN64, t.XN1, t.XN1_64}

// c18twins changes the global set through the package level and an own set through methods.
func c18twins(c *C) {
	own, _ := c18set(c)
	glob := own.D(own.Domain())
	t.SetGlobal(glob)
	defer t.SetGlobal(t.NewTranslations())
	trace := ""
	for i, n := 0, 3+c.Intn(10); i < n; i++ {
		d := c12domains[c.Intn(len(c12domains))]
		l := c12localeNames[c.Intn(len(c12localeNames))]
		fsys := fstest.MapFS{"a.po": {Data: []byte(fmt.Sprintf("msgid \"\"\nmsgstr \"Language: %s\\n\"\n\nmsgid \"probe\"\nmsgstr \"bind %d\"\n", l, i))}}
		if c.Intn(4) == 0 {
			fsys = fstest.MapFS{}
		}
		res := [2]any{}
		switch c.Intn(9) {
		case 0:
			trace += fmt.Sprintf(" SetLocale(%q)", l)
			t.SetLocale(l)
			own.SetLocale(l)
		case 1:
			trace += fmt.Sprintf(" SetDomain(%q)", d)
			t.SetDomain(d)
			own.SetDomain(d)
		case 2:
			trace += fmt.Sprintf(" SetSourceCodeLocale(%q)", l)
			t.SetSourceCodeLocale(l)
			own.SetSourceCodeLocale(l)
		case 3, 4:
			trace += fmt.Sprintf(" BindFS(%q,%d)", d, len(fsys))
			t.BindFS(d, fsys)
			own.BindFS(d, fsys)
		case 5:
			trace += fmt.Sprintf(" LoadFS(%d)", len(fsys))
			t.LoadFS(fsys)
			own.BindFS(own.Domain(), fsys)
		case 6:
			trace += fmt.Sprintf(" RemoveDomain(%q)", d)
			res = [2]any{t.RemoveDomain(d), own.RemoveDomain(d)}
		case 7:
			trace += " ClearDomains"
			t.ClearDomains()
			own.ClearDomains()
		default:
			trace += fmt.Sprintf(" SetLocale(%q)", "")
			t.SetLocale("")
			own.SetLocale("")
		}
		if res[0] != res[1] {
			c.Fail("result", "after%s: the package level returns %v, the method %v", trace, res[0], res[1])
		}
		pkg := fmt.Sprint(t.Domain(), t.Locale(), t.SourceCodeLocale(), sorted(t.Domains()), t.Locales(), t.UsedLocale(), t.MostMatchLocale(), t.T("probe"))
		met := stateOf(own) + own.T("probe")
		if g := stateOf(glob) + glob.T("probe"); g != met {
			c.Fail("state", "after%s: the global set is %s, its twin %s", trace, g, met)
		}
		if want := fmt.Sprint(own.Domain(), own.Locale(), own.SourceCodeLocale(), sorted(own.Domains()), own.Locales(), own.UsedLocale(), own.MostMatchLocale(), own.T("probe")); pkg != want {
			c.Fail("state", "after%s: the package level shows %s, the twin %s", trace, pkg, want)
		}
		if a, b := t.L(l).D(d), own.L(l).D(d); stateOf(a) != stateOf(b) || stateOf(t.D(d).L(l)) != stateOf(b) {
			c.Fail("state", "after%s: t.L(%q).D(%q) shows %s, the method %s", trace, l, d, stateOf(a), stateOf(b))
		}
		c.Count("twin states compared", 1)
		c.Distinct(trace)
	}
}

type c18key string

func c18marks(c *C) {
	a, b, d := text(c.Rand), text(c.Rand), text(c.Rand)
	for _, x := range []*string{&a, &b, &d} {
		switch c.Intn(8) {
		case 0:
			*x = ""
		case 1:
			*x = a
		case 2:
			*x = " " + a + "\x00\x04%d\xff "
		}
	}
	x1, x2 := t.Mark.X(a, b)
	n1, n2 := t.Mark.N(a, b)
	y1, y2, y3 := t.Mark.XN(a, b, d)
	if t.Mark.T(a) != a || x1 != a || x2 != b || n1 != a || n2 != b || y1 != a || y2 != b || y3 != d {
		c.Fail("mark", "marking %q %q %q gives T=%q X=%q,%q N=%q,%q XN=%q,%q,%q", a, b, d, t.Mark.T(a), x1, x2, n1, n2, y1, y2, y3)
	}
	noop := t.NoopTranslator()
	n := count(c.Rand)
	if noop.X(a, b) != b || noop.XN64(a, b, d, n) != refPlural(b, d, n) || noop.Lang() != "" {
		c.Fail("noop", "the no-op translator changes %q %q %q at %d: %q %q %q", a, b, d, n, noop.X(a, b), noop.XN64(a, b, d, n), noop.Lang())
	}
	c.Distinct(a, b, d)
	c.Count("marks", 1)
}
