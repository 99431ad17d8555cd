package main

import (
	"fmt"
	"net/http"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/locale"
	"golang.org/x/text/language"
)

func init() {
	register(&Property{ID: "C15",
		Rule: "Sets of supported languages (0 to 25 catalogs, any source locale) are loaded into the global set and into a different own set; requests with generated Accept-Language headers (weights, wildcards, order, duplicates, garbage, huge and repeated headers) and cookies (other names, empty, odd values) are negotiated. The answer must be the cookie's value, or a supported locale, the one golang.org/x/text's matcher picks over the sorted supported list; independently of that, a language the user prefers above all others and that is listed verbatim must be the answer. MostMatchLocale, Match and MatchTag are compared the same way on each handle. Non-trivial: distinct (supported, request) pairs.",
		Sections: []Section{
			{Name: "request", Quick: 40000, Thorough: 200000, Fn: c15request, Need: []string{"cookie answers", "quoted cookies", "header answers", "preferred language listed", "garbage headers"}},
			{Name: "mostmatch", Quick: 6000, Thorough: 80000, Fn: c15most, Need: []string{"own set differs from global", "verbatim"}},
			{Name: "match", Quick: 40000, Thorough: 200000, Fn: c15match, Need: []string{"verbatim"}},
		}})
}

var c15tags = append(append([]string(nil), langPool...), "en_US", "en_AU", "en_001", "es", "es_419", "es_AR", "it", "nl_BE", "nl", "nb_NO", "nn_NO", "da", "sv", "fi", "uk_UA", "hi_IN", "he_IL", "fa_IR", "zh_HK", "zh_SG", "sr_ME", "ms_MY", "id_ID", "tr", "el", "ko_KR", "vi", "th", "af_ZA", "gsw_CH", "mul_ZZ", "qaa_ZZ")

// c15set loads catalogs for some languages.
func c15set(c *C, max int) (ts *t.Translations, want []string) {
	ts = t.NewTranslations()
	src := "en_US"
	if c.Intn(3) == 0 {
		src = locale.Normalize(c15tags[c.Intn(len(c15tags))])
		ts.SetSourceCodeLocale(src)
	}
	set := map[string]bool{src: true}
	fsys := fstest.MapFS{}
	for i, n := 0, c.Intn(max+1); i < n; i++ {
		l := c15tags[c.Intn(len(c15tags))]
		set[locale.Normalize(l)] = true
		fsys[fmt.Sprintf("%d.po", i)] = &fstest.MapFile{Data: []byte("msgid \"\"\nmsgstr \"Language: " + l + "\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n")}
	}
	dom := []string{"default", "d"}[c.Intn(2)]
	if len(fsys) > 0 {
		ts.BindFS(dom, fsys)
	}
	ts.BindFS("elsewhere", fstest.MapFS{"x.po": {Data: []byte("msgid \"\"\nmsgstr \"Language: ja\\n\"\n")}})
	ts.SetDomain(dom)
	ts.SetLocale(c15tags[c.Intn(len(c15tags))])
	for l := range set {
		want = append(want, l)
	}
	sort.Strings(want)
	return
}

// best is the standard matcher's choice.
func best(supported []string, accept []language.Tag) string {
	var tags []language.Tag
	for _, s := range supported {
		tags = append(tags, language.Make(s))
	}
	_, i, _ := language.NewMatcher(tags).Match(accept...)
	return supported[i]
}

// acceptable are the languages a header asks for, best first; items that cannot be read do not count.
func acceptable(h string) []language.Tag {
	if strings.Count(h, "-") > 1000 {
		return nil
	}
	type item struct {
		t language.Tag
		q float32
	}
	var items []item
	for _, s := range strings.Split(h, ",") {
		if tags, q, err := language.ParseAcceptLanguage(s); err == nil && len(tags) == 1 {
			items = append(items, item{tags[0], q[0]})
		}
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].q > items[j].q })
	var out []language.Tag
	for _, i := range items {
		out = append(out, i.t)
	}
	return out
}

func c15header(c *C, supported []string) (h, preferred string) {
	if c.Intn(5) == 0 { // garbage
		c.Count("garbage headers", 1)
		switch c.Intn(9) {
		case 0:
			return "", ""
		case 1:
			return strings.Repeat("en-US,", 200+c.Intn(3000)), ""
		case 2:
			return strings.Repeat("-", c.Intn(5000)), ""
		case 3:
			b := make([]byte, c.Intn(60))
			c.Read(b)
			return string(b), ""
		case 4:
			return ",;q=,;;q==1,*;q=*,q", ""
		case 5:
			return "*", ""
		case 6:
			return "en;q=-1, de;q=1e9, fr;q=NaN, zh;q=0", ""
		case 7:
			return text(c.Rand), ""
		default:
			return strings.Repeat("a-b-c-d-e-f-", c.Intn(400)) + ";q=0.5", ""
		}
	}
	var items []string
	pool := append([]string{"*", "en", "zh", "zh-Hant", "zh-Hans", "zh-TW", "zh-HK", "pt-PT", "sr-Latn", "no", "iw", "xx", "und", "x-foo", "en-u-co-phonebk", "de-CH", "fr-BE"}, c15tags...)
	if c.Intn(2) == 0 {
		preferred = supported[c.Intn(len(supported))]
		items = append(items, strings.ReplaceAll(preferred, "_", "-")+[]string{"", ";q=1", ";q=1.0", "; q=1"}[c.Intn(4)])
	}
	for i, n := 0, c.Intn(6); i < n; i++ {
		it := strings.ReplaceAll(pool[c.Intn(len(pool))], "_", "-")
		q := ""
		if preferred != "" || c.Intn(2) == 0 {
			q = fmt.Sprintf(";q=0.%d", c.Intn(1000))
		}
		items = append(items, it+q)
	}
	c.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	h = strings.Join(items, []string{",", ", ", " , "}[c.Intn(3)])
	if c.Intn(6) == 0 {
		h = strings.ToUpper(h)
		if strings.Contains(h, "Q=") { // only the small q is a weight
			preferred = ""
		}
	}
	return
}

func c15request(c *C) {
	ts, supported := c15set(c, 25)
	t.SetGlobal(ts)
	defer t.SetGlobal(t.NewTranslations())
	for k := 0; k < 3; k++ {
		h, preferred := c15header(c, supported)
		req := &http.Request{Header: http.Header{}}
		if c.Intn(12) > 0 || h != "" {
			req.Header.Set("Accept-Language", h)
		}
		several := false
		if c.Intn(10) == 0 { // which of several lines count is left open
			req.Header.Add("Accept-Language", "ja")
			several = true
		}
		name := []string{"lang", "lang", "locale", "LANG", "l"}[c.Intn(5)]
		cookie, present := "", false
		if c.Intn(3) == 0 {
			cookie = []string{"zh_CN", "de", "xx", "en-US", "a|b", "../../etc", "%20", "0", strings.Repeat("v", 3000)}[c.Intn(9)]
			present = true
			if c.Intn(4) == 0 {
				req.AddCookie(&http.Cookie{Name: "other", Value: "fr"})
			}
			if k := c.Intn(8); k == 0 {
				cookie = ""
				req.Header.Add("Cookie", name+"=")
			} else if k == 1 { // quoted, with blanks; the quotes do not belong to the value
				cookie = []string{" zh_CN", "zh_CN ", " ", "a b", "de, fr", "de,fr", " de , en;q=1"[:6], "ZH_cn"}[c.Intn(8)]
				req.Header.Add("Cookie", name+"=\""+cookie+"\"")
				var std string
				if ck, err := req.Cookie(name); err == nil {
					std = ck.Value
				}
				if std != cookie { // as the standard library reads it
					cookie = std
				}
				c.Count("quoted cookies", 1)
			} else {
				req.AddCookie(&http.Cookie{Name: name, Value: cookie})
			}
			if c.Intn(6) == 0 {
				req.Header.Add("Cookie", name+"=second")
			}
		} else if c.Intn(3) == 0 { // cookies that do not count
			req.AddCookie(&http.Cookie{Name: name + "x", Value: "fr"})
			req.Header.Add("Cookie", []string{"=", ";;;", "x", "bad name=1", name + "y=3", "\x00", "lang2=de"}[c.Intn(7)])
		}
		var got string
		if name == "lang" && c.Intn(2) == 0 {
			got = t.GetUserLang(req)
		} else {
			got = t.GetUserLang(req, t.WithCookieName(name))
		}
		desc := fmt.Sprintf("supported %q Accept-Language %.300q cookie %s=%q(%v)", supported, h, name, cookie, present)
		c.Distinct(desc)
		c.Sample("%s -> %s", desc, got)
		if present {
			if got != cookie {
				c.Fail("cookie", "%s: GetUserLang=%q", desc, got)
			}
			c.Count("cookie answers", 1)
			continue
		}
		i := sort.SearchStrings(supported, got)
		if i == len(supported) || supported[i] != got {
			c.Fail("member", "%s: GetUserLang=%q is not supported", desc, got)
		}
		if several {
			continue
		}
		if want := best(supported, acceptable(h)); got != want {
			c.Fail("best", "%s: GetUserLang=%q, the matcher picks %q", desc, got, want)
		}
		if preferred != "" && listed(preferred, supported) {
			if got != preferred {
				c.Fail("preferred", "%s: GetUserLang=%q although the user prefers %q", desc, got, preferred)
			}
			c.Count("preferred language listed", 1)
		}
		c.Count("header answers", 1)
		if g := t.GetUserLang(req, t.WithCookieName(name)); g != got {
			c.Fail("repeat", "%s: GetUserLang=%q then %q", desc, got, g)
		}
	}
}

// listed tells that no other supported locale could be taken for l.
func listed(l string, supported []string) bool {
	n := 0
	for _, s := range supported {
		if strings.EqualFold(strings.ReplaceAll(s, "_", "-"), strings.ReplaceAll(l, "_", "-")) {
			n++
		}
	}
	return n == 1
}

func c15most(c *C) {
	own, supported := c15set(c, 12)
	global, gs := c15set(c, 6)
	t.SetGlobal(global)
	defer t.SetGlobal(t.NewTranslations())
	if strings.Join(gs, ",") != strings.Join(supported, ",") {
		c.Count("own set differs from global", 1)
	}
	for k := 0; k < 4; k++ {
		check := func(name string, ts *t.Translations, got string, sup []string) {
			want := best(sup, []language.Tag{language.Make(ts.Locale())})
			if listed(ts.Locale(), sup) {
				c.Count("verbatim", 1)
				want = ts.Locale()
			}
			if got != want {
				c.Fail("mostmatch", "%s: locale %s supported %q: MostMatchLocale=%q want %q (global: %s %q)", name, ts.Locale(), sup, got, want, global.Locale(), gs)
			}
			c.Distinct(name, ts.Locale(), strings.Join(sup, ","))
		}
		check("own", own, own.MostMatchLocale(), supported)
		check("package", global, t.MostMatchLocale(), gs)
		d := own.L(c15tags[c.Intn(len(c15tags))])
		check("derived", d, d.MostMatchLocale(), supported)
		e := own.D("nowhere")
		check("other domain", e, e.MostMatchLocale(), []string{own.SourceCodeLocale()})
		f := own.D("elsewhere")
		check("other domain", f, f.MostMatchLocale(), uniq(own.SourceCodeLocale(), "ja_JP"))
		own.SetLocale(append(c15tags, supported...)[c.Intn(len(c15tags)+len(supported))])
		t.SetLocale(c15tags[c.Intn(len(c15tags))])
	}
}

func uniq(s ...string) (out []string) {
	sort.Strings(s)
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			out = append(out, x)
		}
	}
	return
}

func c15match(c *C) {
	pick := func(n int) (out []string) {
		pool := append([]string{"", "*", "zh-Hant", "zh-Hans", "en", "zh", "pt-PT", "x-foo", "garbage!", "und", "sr-Latn", strings.Repeat("a-", 50), "de-1996", "\x00"}, c15tags...)
		for i := 0; i < n; i++ {
			out = append(out, pool[c.Intn(len(pool))])
		}
		return
	}
	sup, acc := pick(c.Intn(12)), pick(c.Intn(5))
	if len(sup) > 0 && c.Intn(2) == 0 {
		acc = append([]string{sup[c.Intn(len(sup))]}, acc...)
	}
	tag, i, conf := t.Match(sup, acc)
	desc := fmt.Sprintf("Match(%.200q,%.200q)=%v,%d,%v", sup, acc, tag, i, conf)
	c.Distinct(desc)
	mk := func(l []string) (out []language.Tag) {
		for _, s := range l {
			out = append(out, language.Make(s))
		}
		return
	}
	for k, s := range sup {
		if g := t.Tag(s); g != language.Make(s) {
			c.Fail("tag", "Tag(%q)=%v want %v", s, g, language.Make(s))
		}
		if g := t.Tags(sup); len(g) != len(sup) || g[k] != language.Make(s) {
			c.Fail("tag", "Tags(%q)=%v", sup, g)
		}
	}
	wt, wi, wc := language.NewMatcher(mk(sup)).Match(mk(acc)...)
	if tag != wt || i != wi || conf != wc {
		c.Fail("match", "%s; the standard matcher says %v,%d,%v", desc, wt, wi, wc)
	}
	if t2, i2, c2 := t.MatchTag(mk(sup), mk(acc)); t2 != wt || i2 != wi || c2 != wc {
		c.Fail("match", "MatchTag(%q,%q)=%v,%d,%v; the standard matcher says %v,%d,%v", sup, acc, t2, i2, c2, wt, wi, wc)
	}
	if len(sup) == 0 {
		return
	}
	if i < 0 || i >= len(sup) {
		c.Fail("range", "%s: index out of range", desc)
	}
	if len(acc) > 0 && localeForm.MatchString(acc[0]) { // first occurrence of a verbatim first choice
		for k, s := range sup {
			if language.Make(s) == language.Make(acc[0]) {
				if i != k {
					c.Fail("verbatim", "%s: first choice %q is supported at %d", desc, acc[0], k)
				}
				c.Count("verbatim", 1)
				break
			}
		}
	}
}
