package main

import (
	"fmt"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C22",
		Rule:        "Random histories (bind, rebind, failing bind, remove, clear, adding a catalog or a custom translator to a bound domain, setting domain, locale and source locale in many spellings, deriving handles) run beside a model that knows which catalog each domain holds per locale. After every operation, for every live handle and for the global set: the supported list must equal the model's, the used locale must be the set one exactly when the current domain holds its catalog, and then lookups (singular, plural, with context) must carry that catalog's own marks, else be source text; then every listed locale is selected in turn and asked the same. Returned lists are overwritten by the caller to see that they are not shared. Non-trivial: distinct model states.",
		Assumptions: []string{"a *Translation that handles share is only added to while one handle holds it"},
		Sections: []Section{
			{Name: "history", Quick: 40000, Thorough: 800000, Fn: c22history, Need: []string{"states compared", "catalog in use", "source in use", "listed locale selected", "translators added", "failed binds", "catalogs without messages", "source locale with a catalog"}},
		}})
}

// c22langs are spellings of locales and what they mean.
var c22langs = [][2]string{{"zh_CN", "zh_CN"}, {"zh", "zh_CN"}, {"zh-Hans", "zh_CN"}, {"zh-Hant", "zh_TW"}, {"zh_TW", "zh_TW"}, {"zh_HK", "zh_HK"}, {"de", "de_DE"}, {"de_DE", "de_DE"}, {"de_AT", "de_AT"},
	{"fr", "fr_FR"}, {"fr_CA", "fr_CA"}, {"en", "en_US"}, {"en_US", "en_US"}, {"en_GB", "en_GB"}, {"en_AU", "en_AU"}, {"pt", "pt_BR"}, {"pt_PT", "pt_PT"}, {"ja", "ja_JP"}, {"ko_KR", "ko_KR"}, {"ru", "ru_RU"}, {"es", "es_ES"}, {"es_MX", "es_MX"}, {"it_CH", "it_CH"},
	{"zxx", "zxx_ZZ"}, {"tlh", "tlh_ZZ"}, {"eo", "eo_001"}, {"en_001", "en_001"}, {"es_419", "es_419"}, {"fil", "fil_PH"}, {"sr_Latn", "sr_RS"}, {"nb", "nb_NO"}, {"no", "no_NO"}, {"iw", "he_IL"}, {"und_ZZ", "en_ZZ"}, {"pl", "pl_PL"}, {"nl_BE", "nl_BE"}, {"sv", "sv_SE"}, {"vi", "vi_VN"}, {"tr", "tr_TR"}, {"uk", "uk_UA"}, {"cs", "cs_CZ"}}

type c22set struct {
	locale, domain, source string
	domains                map[string]map[string]string
}

func (m *c22set) clone() *c22set {
	n := *m
	n.domains = map[string]map[string]string{}
	for d, ls := range m.domains {
		n.domains[d] = ls
	}
	return &n
}

func (m *c22set) String() string {
	return fmt.Sprintf("locale %s domain %q source %s %v", m.locale, m.domain, m.source, m.domains)
}

type c22tor struct{ lang, mark string }

func (x c22tor) Lang() string { return x.lang }
func (x c22tor) X(ctx, id string, args ...any) string {
	if ctx == "c" {
		return x.mark + " c"
	}
	return x.mark
}
func (x c22tor) XN64(ctx, id, id2 string, n int64, args ...any) string {
	if n == 1 {
		return x.mark + " one"
	}
	return x.mark + " many"
}

func c22po(lang, mark string) []byte {
	if mark == "" {
		return []byte(fmt.Sprintf("msgid \"\"\nmsgstr \"Language: %s\\n\"\n", lang))
	}
	return []byte(fmt.Sprintf("msgid \"\"\nmsgstr \"Language: %s\\nPlural-Forms: nplurals=2; plural=n!=1;\\n\"\n\nmsgid \"who\"\nmsgstr \"%s\"\n\nmsgctxt \"c\"\nmsgid \"who\"\nmsgstr \"%s c\"\n\nmsgid \"apple\"\nmsgid_plural \"apples\"\nmsgstr[0] \"%s one\"\nmsgstr[1] \"%s many\"\n", lang, mark, mark, mark, mark))
}

func c22history(c *C) {
	type pairT struct {
		real *t.Translations
		m    *c22set
	}
	langs := append([][2]string(nil), c22langs...)
	c.Shuffle(len(langs), func(i, j int) { langs[i], langs[j] = langs[j], langs[i] })
	few := 3 + c.Intn(8)
	if c.Intn(6) == 0 {
		few = len(langs)
	}
	langs = langs[:few]
	any := func() (string, string) {
		l := langs[c.Intn(len(langs))]
		if c.Intn(6) == 0 {
			l = c22langs[c.Intn(len(c22langs))]
		}
		s := spell(c, l[0])
		if c.Intn(8) == 0 {
			s += ".UTF-8"
		}
		return s, l[1]
	}
	doms := c12domains[:1+c.Intn(3)]
	real := t.NewTranslations()
	m := &c22set{domain: "default", source: "en_US", domains: map[string]map[string]string{}}
	l, n := any()
	real.SetLocale(l)
	m.locale = n
	hs := []pairT{{real, m}}
	var trace []string
	say := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
	for step, steps := 0, 3+c.Intn(14); step < steps; step++ {
		i := c.Intn(len(hs))
		h := hs[i]
		d := doms[c.Intn(len(doms))]
		switch c.Intn(13) {
		case 0, 1, 2, 3:
			fsys, ls := fstest.MapFS{}, map[string]string{}
			files := 1 + c.Intn(5)
			if c.Intn(8) == 0 {
				files = 10 + c.Intn(30)
			}
			for j := 0; j < files; j++ {
				l, n := any()
				mark := fmt.Sprintf("bind%d.%d %s", step, j, n)
				if c.Intn(10) == 0 {
					mark = "" // only a header
					c.Count("catalogs without messages", 1)
				}
				fsys[fmt.Sprintf("%02d.po", j)] = &fstest.MapFile{Data: c22po(l, mark)}
				ls[n] = mark // the last file of a language wins
			}
			if c.Intn(5) == 0 {
				fsys["99.po"] = &fstest.MapFile{Data: []byte("msgid \"unfinished")}
			}
			say("h%d.BindFS(%q, %v)", i, d, ls)
			h.real.BindFS(d, fsys)
			h.m.domains[d] = ls
		case 4:
			say("h%d.BindFS(%q, nothing)", i, d)
			h.real.BindFS(d, []fstest.MapFS{{}, {"a.po": {Data: []byte("junk")}}, {"a.po": {Data: c22po("", "no language")}}}[c.Intn(3)])
			c.Count("failed binds", 1)
		case 5:
			say("h%d.RemoveDomain(%q)", i, d)
			h.real.RemoveDomain(d)
			if _, ok := h.m.domains[d]; ok && d != "" {
				delete(h.m.domains, d)
				if h.m.domain == d {
					h.m.domain = "default"
				}
			}
		case 6:
			if c.Intn(3) == 0 {
				say("h%d.ClearDomains()", i)
				h.real.ClearDomains()
				h.m.domains, h.m.domain = map[string]map[string]string{}, "default"
			}
		case 7:
			say("h%d.SetDomain(%q)", i, d)
			h.real.SetDomain(d)
			h.m.domain = d
		case 8, 9:
			l, n := any()
			say("h%d.SetLocale(%q)", i, l)
			h.real.SetLocale(l)
			h.m.locale = n
		case 10:
			l, n := any()
			say("h%d.SetSourceCodeLocale(%q)", i, l)
			h.real.SetSourceCodeLocale(l)
			h.m.source = n
		case 11:
			if len(hs) < 3 {
				say("h%d=h%d.D(%q)", len(hs), i, d)
				hs = append(hs, pairT{h.real.D(d), h.m.clone()})
				hs[len(hs)-1].m.domain = d
			}
		case 12: // add to a bound domain
			if tr, ok := h.real.Get(d); ok && len(hs) == 1 {
				l, n := any()
				mark := fmt.Sprintf("add%d %s", step, n)
				was, had := h.m.domains[d][n]
				ls := map[string]string{}
				for k, v := range h.m.domains[d] {
					ls[k] = v
				}
				var tor t.Translator = c22tor{l, mark}
				if c.Intn(2) == 0 {
					f, err := translator.ReadPo(c22po(l, mark))
					if err != nil {
						c.Fail("read", "%v", err)
					}
					tor = f
				}
				if c.Intn(6) == 0 {
					say("Get(%q).AddOrReplace(without language)", d)
					if p := tr.AddOrReplace(c22tor{"", "none"}); p != nil {
						c.Fail("previous", "AddOrReplace without language returns %v", p)
					}
				}
				say("Get(%q).AddOrReplace(%s)", d, l)
				p := tr.AddOrReplace(tor)
				got := ""
				if p != nil {
					got = p.X("", "who")
				}
				if was == "" && got == "who" { // a catalog without messages
					got = ""
				}
				if got != was || (p != nil) != had {
					c.Fail("previous", "%s\nAddOrReplace returns the translator of %q, want %q", strings.Join(trace, "\n"), got, was)
				}
				ls[n] = mark
				h.m.domains[d] = ls
				c.Count("translators added", 1)
			}
		}
		for j, h := range hs {
			if e := c22check(c, h.real, h.m, langs); e != "" {
				c.Fail("state", "%s\nhandle %d, model %s: %s", strings.Join(trace, "\n"), j, h.m, e)
			}
			c.Distinct(h.m.String())
		}
	}
	h := hs[c.Intn(len(hs))]
	t.SetGlobal(h.real)
	defer t.SetGlobal(t.NewTranslations())
	if a, b := fmt.Sprint(t.Locales()), fmt.Sprint(h.m.listed()); a != b {
		c.Fail("global", "%s\nt.Locales()=%s want %s", strings.Join(trace, "\n"), a, b)
	}
	if a, b := t.UsedLocale(), h.m.used(); a != b {
		c.Fail("global", "%s\nt.UsedLocale()=%s want %s", strings.Join(trace, "\n"), a, b)
	}
}

func (m *c22set) listed() []string {
	out := []string{m.source}
	for l := range m.domains[m.domain] {
		if l != m.source {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return out
}

func (m *c22set) used() string {
	if _, ok := m.domains[m.domain][m.locale]; ok {
		return m.locale
	}
	return m.source
}

// c22check compares a handle with its model.
func c22check(c *C, h *t.Translations, m *c22set, langs [][2]string) string {
	c.Count("states compared", 1)
	want := m.listed()
	got := h.Locales()
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("Locales()=%v want %v", got, want)
	}
	for i := range got {
		got[i] = "overwritten"
	}
	if e := c22answers(c, h, m, m.locale); e != "" {
		return e
	}
	if _, ok := m.domains[m.domain][m.source]; ok {
		c.Count("source locale with a catalog", 1)
	}
	for _, l := range want {
		if e := c22answers(c, h.L(spell(c, l)), m, l); e != "" {
			return "selecting " + l + ": " + e
		}
		c.Count("listed locale selected", 1)
	}
	l := langs[c.Intn(len(langs))]
	if e := c22answers(c, h.L(l[0]), m, l[1]); e != "" {
		return "selecting " + l[0] + ": " + e
	}
	if got := h.Locales(); fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("Locales() again=%v want %v", got, want)
	}
	return ""
}

func c22answers(c *C, h *t.Translations, m *c22set, locale string) string {
	mark, ok := m.domains[m.domain][locale]
	used, one, ctx, n1, n5 := locale, mark, mark+" c", mark+" one", mark+" many"
	if !ok {
		used = m.source
		c.Count("source in use", 1)
	}
	if mark == "" {
		one, ctx, n1, n5 = "who", "who", "apple", "apples"
	} else {
		c.Count("catalog in use", 1)
	}
	if g := h.UsedLocale(); g != used {
		return fmt.Sprintf("UsedLocale()=%s want %s", g, used)
	}
	if g := h.Locale(); g != locale {
		return fmt.Sprintf("Locale()=%s want %s", g, locale)
	}
	for _, x := range [][2]string{{h.T("who"), one}, {h.X("c", "who"), ctx}, {h.N("apple", "apples", 1), n1}, {h.N("apple", "apples", 5), n5}} {
		if x[0] != x[1] {
			return fmt.Sprintf("locale %s is answered %q want %q", locale, x[0], x[1])
		}
	}
	return ""
}
