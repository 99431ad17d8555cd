package main

import (
	"context"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/locale"
)

func init() {
	register(&Property{ID: "C12",
		Rule:        "Random histories of 5 to 40 operations (binds that succeed, rebind and fail, removals, clears, setters, derivations by domain, locale, context and copy, replacing the global set, the same through the package-level functions) over a growing pool of handles, run beside a value model; after every operation the whole observable state of every handle and of the package level is compared with the model: domain, domains, locale, source locale, and lookups of probe messages, whose translations name the bind they came from. Non-trivial: distinct model states reached.",
		Assumptions: []string{"a *Translation obtained through Get is not modified by the caller", "SetGlobal(g) makes g itself the global set, as package-level functions act on it"},
		Sections: []Section{
			{Name: "history", Quick: 30000, Thorough: 400000, Fn: c12history, Need: []string{"states compared", "failed binds", "current domain removed", "derived", "global replaced", "translated lookups"}},
			{Name: "pairs", Quick: len(c12ops) * len(c12ops), Thorough: len(c12ops) * len(c12ops) * 6, Fn: c12pairs},
		}})
}

// mset is the model of a translation set. A catalog is known by the bind that made it.
type mset struct {
	locale, domain, source string
	domains                map[string]map[string]string // domain -> locale -> bind
}

func newMset() *mset {
	return &mset{locale.GetDefault(), "default", "en_US", map[string]map[string]string{}}
}

func (m *mset) clone() *mset {
	n := *m
	n.domains = map[string]map[string]string{}
	for k, v := range m.domains {
		n.domains[k] = v
	}
	return &n
}

func (m *mset) String() string {
	var ds []string
	for d, ls := range m.domains {
		ds = append(ds, fmt.Sprintf("%q:%v", d, ls))
	}
	sort.Strings(ds)
	return fmt.Sprintf("locale=%s domain=%q source=%s %s", m.locale, m.domain, m.source, strings.Join(ds, " "))
}

// c12locales are spellings and what they mean.
var c12locales = map[string]string{"zh_CN": "zh_CN", "zh-cn": "zh_CN", "zh": "zh_CN", "zh-Hans-CN": "zh_CN", "zh_TW": "zh_TW", "de": "de_DE", "DE_de": "de_DE", "de_AT": "de_AT", "fr-CA": "fr_CA",
	"fr": "fr_FR", "en": "en_US", "en_GB": "en_GB", "en_US": "en_US", "pt_BR": "pt_BR", "pt": "pt_BR"}

var c12localeNames = func() (out []string) {
	for k := range c12locales {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}()

var c12domains = []string{"default", "a", "b", "A", "", "a b", "域"}

var c12langs = []string{"zh_CN", "de", "fr_CA", "en_US", "de_AT", "pt-BR"}

type pair struct {
	real *t.Translations
	m    *mset
}

type c12run struct {
	c       *C
	handles []pair
	global  *mset // model of the current global set; may be shared with a handle
	binds   int
	trace   []string
	dir     string
}

var c12ops = []string{"bind", "bindfail", "remove", "clear", "setdomain", "setlocale", "setsource", "D", "L", "copy", "context", "new", "setglobal",
	"g.bind", "g.bindfail", "g.load", "g.remove", "g.clear", "g.setdomain", "g.setlocale", "g.setsource", "g.D", "g.L", "lookup"}

func (r *c12run) say(format string, args ...any) {
	r.trace = append(r.trace, fmt.Sprintf(format, args...))
}

func (r *c12run) domain() string { return c12domains[r.c.Intn(len(c12domains))] }

func (r *c12run) locale() (name, norm string) {
	name = c12localeNames[r.c.Intn(len(c12localeNames))]
	return name, c12locales[name]
}

// tree makes a file system of one to three catalogs and the model of what binding it gives.
func (r *c12run) tree() (fstest.MapFS, map[string]string) {
	r.binds++
	fsys, langs := fstest.MapFS{}, map[string]string{}
	for i, n := 0, 1+r.c.Intn(3); i < n; i++ {
		lang := c12langs[r.c.Intn(len(c12langs))]
		norm := locale.Normalize(lang)
		if _, ok := langs[norm]; ok {
			continue
		}
		id := fmt.Sprintf("bind%d/%s", r.binds, norm)
		langs[norm] = id
		msgs := []Msg{{Str: "Language: " + lang + "\nPlural-Forms: nplurals=2; plural=n!=1;\n"}, {ID: "probe", Str: id + " probe"}, {Ctx: "c", ID: "probe", Str: id + " c probe"},
			{ID: "one", ID2: "many", Plural: true, StrN: []string{id + " one", id + " many"}}}
		if r.c.Intn(2) == 0 {
			fsys[fmt.Sprintf("d%d/%s.po", i, lang)] = &fstest.MapFile{Data: []byte(poPrint(r.c.Rand, msgs, randomLayout(r.c.Rand)))}
		} else {
			fsys[fmt.Sprintf("%s.mo", lang)] = &fstest.MapFile{Data: moWrite(r.c.Rand, msgs, randomMOLayout(r.c.Rand)).data}
		}
	}
	return fsys, langs
}

type deadFS struct{}

func (deadFS) Open(string) (fs.File, error) { return nil, errors.New("dead") }

// badTree makes a file system from which nothing can be loaded.
func (r *c12run) badTree() fs.FS {
	r.c.Count("failed binds", 1)
	switch r.c.Intn(5) {
	case 0:
		return fstest.MapFS{}
	case 1:
		return deadFS{}
	case 2:
		return fstest.MapFS{"x.po": {Data: []byte("msgid \"open\nmsgstr")}, "y.mo": {Data: []byte("not a catalog")}}
	case 3:
		return fstest.MapFS{"readme.txt": {Data: []byte("msgid \"\"\nmsgstr \"Language: de\\n\"\n")}}
	default:
		return fstest.MapFS{"x.po": {Data: nil}, "sub/dir.po/empty": {Data: nil}}
	}
}

// osDir writes a tree to disk.
func (r *c12run) osDir(fsys fstest.MapFS) string {
	if r.dir == "" {
		r.dir = r.c.Dir()
	}
	root := filepath.Join(r.dir, fmt.Sprint(len(r.trace)))
	os.MkdirAll(root, 0o755)
	for name, f := range fsys {
		p := filepath.Join(root, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, f.Data, 0o644); err != nil {
			inconclusive("scratch: %v", err)
		}
	}
	return root
}

func (r *c12run) add(real *t.Translations, m *mset) {
	r.c.Count("derived", 1)
	if len(r.handles) < 8 {
		r.handles = append(r.handles, pair{real, m})
	} else {
		r.handles[r.c.Intn(len(r.handles))] = pair{real, m}
	}
}

func (m *mset) remove(d string) bool {
	if _, ok := m.domains[d]; !ok || d == "" {
		return false
	}
	delete(m.domains, d)
	if m.domain == d {
		m.domain = "default"
	}
	return true
}

func (r *c12run) do(op string) {
	c := r.c
	h := r.handles[c.Intn(len(r.handles))]
	hi := 0
	for i := range r.handles {
		if r.handles[i] == h {
			hi = i
		}
	}
	switch op {
	case "bind":
		d := r.domain()
		fsys, langs := r.tree()
		r.say("h%d.BindFS(%q,%v)", hi, d, langs)
		h.real.BindFS(d, fsys)
		h.m.domains[d] = langs
	case "bindfail":
		d := r.domain()
		r.say("h%d.BindFS(%q,bad)", hi, d)
		h.real.BindFS(d, r.badTree())
	case "remove", "g.remove":
		d := r.domain()
		m, f, who := h.m, h.real.RemoveDomain, fmt.Sprintf("h%d", hi)
		if op == "g.remove" {
			m, f, who = r.global, t.RemoveDomain, "t"
		}
		if m.domain == d && m.domains[d] != nil && d != "" {
			c.Count("current domain removed", 1)
		}
		want := m.remove(d)
		r.say("%s.RemoveDomain(%q)", who, d)
		if got := f(d); got != want {
			c.Fail("result", "RemoveDomain(%q)=%v want %v after %v", d, got, want, r.trace)
		}
	case "clear":
		r.say("h%d.ClearDomains()", hi)
		h.real.ClearDomains()
		h.m.domains, h.m.domain = map[string]map[string]string{}, "default"
	case "g.clear":
		r.say("t.ClearDomains()")
		t.ClearDomains()
		r.global.domains, r.global.domain = map[string]map[string]string{}, "default"
	case "setdomain":
		d := r.domain()
		r.say("h%d.SetDomain(%q)", hi, d)
		h.real.SetDomain(d)
		h.m.domain = d
	case "g.setdomain":
		d := r.domain()
		r.say("t.SetDomain(%q)", d)
		t.SetDomain(d)
		r.global.domain = d
	case "setlocale", "g.setlocale":
		name, norm := r.locale()
		if c.Intn(8) == 0 {
			name, norm = "", locale.GetDefault()
		}
		if op == "setlocale" {
			r.say("h%d.SetLocale(%q)", hi, name)
			h.real.SetLocale(name)
			h.m.locale = norm
		} else {
			r.say("t.SetLocale(%q)", name)
			t.SetLocale(name)
			r.global.locale = norm
		}
	case "setsource", "g.setsource":
		name, norm := r.locale()
		if op == "setsource" {
			r.say("h%d.SetSourceCodeLocale(%q)", hi, name)
			h.real.SetSourceCodeLocale(name)
			h.m.source = norm
		} else {
			r.say("t.SetSourceCodeLocale(%q)", name)
			t.SetSourceCodeLocale(name)
			r.global.source = norm
		}
	case "D":
		d := r.domain()
		r.say("h%d.D(%q)", hi, d)
		m := h.m.clone()
		m.domain = d
		r.add(h.real.D(d), m)
	case "g.D":
		d := r.domain()
		r.say("t.D(%q)", d)
		m := r.global.clone()
		m.domain = d
		r.add(t.D(d), m)
	case "L", "g.L":
		name, norm := r.locale()
		if c.Intn(8) == 0 {
			name, norm = "", locale.GetDefault()
		}
		if op == "L" {
			r.say("h%d.L(%q)", hi, name)
			m := h.m.clone()
			m.locale = norm
			r.add(h.real.L(name), m)
		} else {
			r.say("t.L(%q)", name)
			m := r.global.clone()
			m.locale = norm
			r.add(t.L(name), m)
		}
	case "copy":
		r.say("t.Global()")
		r.add(t.Global(), r.global.clone())
	case "context":
		ctx, m := context.Background(), r.global.clone()
		if c.Intn(3) > 0 {
			name, norm := r.locale()
			if c.Intn(8) == 0 {
				name, norm = "", locale.GetDefault()
			}
			ctx = t.SetCtxLocale(ctx, name)
			m.locale = norm
			r.say("ctx locale %q", name)
		}
		if c.Intn(3) > 0 {
			d := r.domain()
			ctx = t.SetCtxDomain(ctx, d)
			m.domain = d
			r.say("ctx domain %q", d)
		}
		r.say("t.WithContext")
		r.add(t.WithContext(ctx), m)
	case "new":
		r.say("NewTranslations()")
		r.add(t.NewTranslations(), newMset())
	case "setglobal":
		r.say("t.SetGlobal(h%d)", hi)
		t.SetGlobal(h.real)
		r.global = h.m
		c.Count("global replaced", 1)
	case "g.bind":
		d := r.domain()
		fsys, langs := r.tree()
		r.say("t.Bind(%q,%v)", d, langs)
		if c.Intn(4) == 0 {
			t.Bind(d, r.osDir(fsys))
		} else {
			t.BindFS(d, fsys)
		}
		r.global.domains[d] = langs
	case "g.load":
		fsys, langs := r.tree()
		r.say("t.Load(%v)", langs)
		if c.Intn(4) == 0 {
			t.Load(r.osDir(fsys))
		} else {
			t.LoadFS(fsys)
		}
		r.global.domains[r.global.domain] = langs
	case "g.bindfail":
		d := r.domain()
		r.say("t.Bind(%q,bad)", d)
		switch c.Intn(4) {
		case 0:
			t.Bind(d, "/nonexistent/verif/tree")
		case 1:
			t.LoadFS(r.badTree())
		default:
			t.BindFS(d, r.badTree())
		}
	case "lookup":
		r.say("h%d lookups", hi)
		h.real.Locales()
		h.real.UsedLocale()
		h.real.MostMatchLocale()
		h.real.T("probe %d", 1)
		if none := h.real.GetOrNoop("zz"); c.Chance(1, 2) { // what a caller puts there concerns nobody else
			r.say("h%d.GetOrNoop(zz).AddOrReplace", hi)
			for _, lang := range []string{"de", "fr", "zh_CN", "en", "ru", "pt_BR"} {
				none.AddOrReplace(fileOf(c.Rand, []Msg{{Str: "Language: " + lang + "\n"}, {ID: "probe %d", Str: "poison"}}))
			}
			c.Count("unbound domains filled", 1)
		}
	default:
		panic(op)
	}
}

// view is what both a handle and the package level show.
type view struct {
	Domain, Locale, Source func() string
	Domains, Locales       func() []string
	Has                    func(string) bool
	T                      func(string, ...any) string
	X                      func(string, string, ...any) string
	N                      func(string, string, int, ...any) string
	XN64                   func(string, string, string, int64, ...any) string
}

func viewOf(ts *t.Translations) view {
	return view{ts.Domain, ts.Locale, ts.SourceCodeLocale, ts.Domains, ts.Locales, ts.HasDomain, ts.T, ts.X, ts.N, ts.XN64}
}

var packageView = view{t.Domain, t.Locale, t.SourceCodeLocale, t.Domains, t.Locales, t.HasDomain, t.T, t.X, t.N, t.XN64}

func (r *c12run) compare(name string, v view, m *mset) {
	c := r.c
	bad := func(what string, got, want any) {
		c.Fail("state", "after %s:\n%s of %s is %q, want %q (%v)", strings.Join(r.trace, "; "), what, name, got, want, m)
	}
	if g := v.Domain(); g != m.domain {
		bad("Domain", g, m.domain)
	}
	if g := v.Locale(); g != m.locale {
		bad("Locale", g, m.locale)
	}
	if g := v.Source(); g != m.source {
		bad("SourceCodeLocale", g, m.source)
	}
	ds := append([]string(nil), v.Domains()...)
	sort.Strings(ds)
	var want []string
	for d := range m.domains {
		want = append(want, d)
	}
	sort.Strings(want)
	if strings.Join(ds, "\x00") != strings.Join(want, "\x00") || len(ds) != len(want) {
		bad("Domains", ds, want)
	}
	for _, d := range c12domains {
		_, ok := m.domains[d]
		if v.Has(d) != ok {
			bad("HasDomain "+d, v.Has(d), ok)
		}
	}
	id, translated := m.domains[m.domain][m.locale]
	exp := func(s, src string) string {
		if translated {
			c.Count("translated lookups", 1)
			return id + " " + s
		}
		return src
	}
	for _, q := range [][3]string{{"T", v.T("probe"), exp("probe", "probe")}, {"X", v.X("c", "probe"), exp("c probe", "probe")}, {"N", v.N("one", "many", 1), exp("one", "one")},
		{"XN64", v.XN64("", "one", "many", 5), exp("many", "many")}, {"T absent", v.T("absent"), "absent"}, {"XN64 absent", v.XN64("c", "one", "many", 2), "many"}} {
		if q[1] != q[2] {
			bad("lookup "+q[0], q[1], q[2])
		}
	}
	set := map[string]bool{m.source: true}
	for l := range m.domains[m.domain] {
		set[l] = true
	}
	if ls := v.Locales(); len(ls) != len(set) {
		bad("Locales", ls, set)
	}
}

func (r *c12run) compareAll() {
	for i, h := range r.handles {
		r.compare(fmt.Sprintf("h%d", i), viewOf(h.real), h.m)
	}
	r.compare("package t", packageView, r.global)
	r.c.Count("states compared", len(r.handles)+1)
	r.c.Distinct(r.handles[0].m.String(), r.global.String())
}

func newC12(c *C) *c12run {
	r := &c12run{c: c}
	g := t.NewTranslations()
	t.SetGlobal(g)
	r.global = newMset()
	if c.Intn(2) == 0 { // the global set also held by the caller
		r.handles = append(r.handles, pair{g, r.global})
	} else {
		r.handles = append(r.handles, pair{t.NewTranslations(), newMset()})
	}
	return r
}

func (r *c12run) done() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
	t.SetGlobal(t.NewTranslations())
}

func c12history(c *C) {
	r := newC12(c)
	defer r.done()
	for i, n := 0, 5+c.Intn(36); i < n; i++ {
		r.do(c12ops[c.Intn(len(c12ops))])
		r.compareAll()
	}
	c.Sample("%s", strings.Join(r.trace, "; "))
}

// c12pairs runs every ordered pair of operations after a busy start.
func c12pairs(c *C) {
	r := newC12(c)
	defer r.done()
	for _, op := range []string{"bind", "g.bind", "bind", "D", "L", "copy"} {
		r.do(op)
	}
	r.compareAll()
	k := c.Index % (len(c12ops) * len(c12ops))
	for _, op := range []string{c12ops[k/len(c12ops)], c12ops[k%len(c12ops)]} {
		r.do(op)
		r.compareAll()
	}
}
