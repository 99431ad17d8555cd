package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/f"
	"github.com/youthlin/t/locale"
	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
	"golang.org/x/text/language"
)

func init() {
	auxes["asked"] = c30main
	register(&Property{ID: "C30",
		Rule:        "A world (sets with domains whose catalogs answer the same messages differently per domain, language and rule; files; directories; loaded in an order of each process's own) and a list of questions are made from a seed: lookups in every form through sets, handles, contexts, catalogs and the package level, plural evaluations of look-alike, malformed and undefined expressions, formatting, normalising, tags, matching, negotiation, defaults under environments, reading good and damaged bytes, saving, binding good and failing trees and files, headers, languages; a question builds what it changes itself. Fresh processes ask them in different orders: as made, backwards, shuffled with repetitions and with hundreds of unrelated questions in between, and some all alone in a process of their own. Every answer (with its errors and panics) must be the same in every process and at every repetition. Non-trivial: distinct (question kind, answer).",
		Assumptions: []string{"error texts are compared, except those of the plural parser"},
		Sections: []Section{
			{Name: "orders", Quick: 160, Thorough: 3000, Fn: c30, Need: []string{"fresh processes", "answers compared", "asked alone", "asked again", "errors among the answers"}},
		}})
}

type c30question struct {
	kind string
	ask  func() string
}

// c30world makes the questions of a seed. It is the same in every process, but
// for the order in which its catalogs are loaded.
func c30world(seed int64, dir string, shuffle int64) []c30question {
	c := &C{Rand: rand.New(rand.NewSource(seed))}
	var builds []func()
	// catalogs that share their messages
	base := catalog(c.Rand, 8)
	langs := []string{"de_DE", "de_AT", "zh_CN", "fr_FR", "pl_PL"}
	alike := []string{"es_419", "es_150", "en_001", "en_150"} // regions that are groups of countries
	wanted := append([]string{"es_003", "es_005", "en_029", "es_ES", "de_CH", "zh_TW", "zh-Hans", "fr_CA", "fil_PH", "ru"}, append(alike, langs...)...)
	var last *Cat
	mk := func(mark, lang string) *Cat {
		wk := wellKnown[c.Intn(len(wellKnown))]
		k := &Cat{Lang: lang, NForms: wk.n, Rule: wk.rule, Expr: mustParseExpr(wk.rule)}
		if c.Chance(1, 3) {
			e := genExpr(c.Rand, 3)
			k.Rule, k.NForms = e.print(c.Rand, 1, 0), 4
		}
		if last != nil && c.Chance(1, 3) { // the same rule, more or less forms
			k.Rule, k.Expr, k.NForms = last.Rule, last.Expr, 1+c.Intn(5)
			if c.Chance(1, 2) { // the same but for its blanks
				k.Rule, k.NForms = respace(c.Rand, k.Rule), last.NForms
			}
		}
		last = k
		k.setHeader(c.Rand)
		for i := range k.Header {
			if k.Header[i][0] == "Language" {
				k.Header[i][1] = lang
			}
		}
		if c.Chance(2, 3) { // alike, not the same
			k.Header = append(k.Header, [2]string{[]string{"X-Tone", "X-Tone", "x-tone", "X-TONE"}[c.Intn(4)], []string{"soft", "Soft", "SOFT", " soft", "soft."}[c.Intn(5)]})
		}
		for _, m := range base.Msgs {
			if c.Chance(1, 6) {
				continue
			}
			m2 := Msg{Ctx: m.Ctx, ID: m.ID, Plural: m.Plural, ID2: m.ID2, Cmts: m.Cmts}
			if m.Plural {
				for j := 0; j < k.NForms; j++ {
					m2.StrN = append(m2.StrN, fmt.Sprintf("%s/%d/%s %%v", mark, j, lang))
				}
			} else {
				m2.Str = fmt.Sprintf("%s/%s/%s %%v", mark, lang, strings.ReplaceAll(m.ID, "%", "%%"))
			}
			k.Msgs = append(k.Msgs, m2)
		}
		return k
	}
	var sets []*t.Translations
	var files []*translator.File
	var blobs [][]byte
	domains := []string{"default", "a", "b", "A", "a "}
	file := func(k *Cat) {
		i, seed := len(files), c.Int63()
		files = append(files, nil)
		builds = append(builds, func() { files[i] = fileOf(rand.New(rand.NewSource(seed)), k.all()) })
	}
	for i := 0; i < 2; i++ {
		ts := t.NewTranslations()
		for _, d := range domains[:2+c.Intn(3)] {
			fsys := fstest.MapFS{}
			langs := langs
			if c.Chance(1, 2) {
				langs = append(langs[:len(langs):len(langs)], alike...)
			}
			for j, l := range langs {
				if c.Chance(1, 3) {
					continue
				}
				k := mk(fmt.Sprintf("%d%s", i, d), l)
				data := []byte(poPrint(c.Rand, k.all(), randomLayout(c.Rand)))
				name := fmt.Sprintf("%d.po", j)
				if c.Chance(1, 3) {
					data, name = moWrite(c.Rand, k.all(), randomMOLayout(c.Rand)).data, fmt.Sprintf("%d.mo", j)
				}
				fsys[name] = &fstest.MapFile{Data: data}
				blobs = append(blobs, data)
				if c.Chance(1, 2) {
					file(k)
				}
			}
			builds = append(builds, func() { ts.BindFS(d, fsys) })
		}
		l, d := langs[c.Intn(len(langs))], domains[c.Intn(2)]
		builds = append(builds, func() { ts.SetLocale(l) }, func() { ts.SetDomain(d) })
		sets = append(sets, ts)
	}
	file(mk("f", "ru"))
	order := rand.New(rand.NewSource(shuffle)).Perm(len(builds))
	for _, i := range order {
		builds[i]()
	}
	files = append(files, new(translator.File))
	for i := 0; i < 4; i++ { // loaded by questions only
		k := mk(fmt.Sprint("late", i), langs[i])
		k.Header = append(k.Header, [2]string{"X-Tone", "late"})
		blobs = append(blobs, []byte(poPrint(c.Rand, k.all(), randomLayout(c.Rand))), moWrite(c.Rand, k.all(), randomMOLayout(c.Rand)).data)
	}
	if len(blobs) == 0 {
		blobs = append(blobs, []byte(poPrint(c.Rand, mk("b", "de").all(), randomLayout(c.Rand))))
	}
	for _, b := range blobs { // one whose header differs in case only
		for _, tone := range []string{"X-Tone", "x-tone", "Language", "plural"} {
			if i := bytes.Index(b, []byte(tone)); i >= 0 {
				twin := append([]byte(nil), b...)
				for j := i + len(tone); j < len(b) && j < i+14; j++ {
					if ch := b[j]; b[j-1] != '\\' && (ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z') {
						twin[j] ^= 0x20
						break
					}
				}
				blobs = append(blobs, twin)
				break
			}
		}
	}
	lost := []byte("msgid \"a\"\nmsgstr \"b\"\n\n# lost\nmsgctxt \"c\"\nmsgstr \"d\"\n")
	for i, n := 0, len(blobs); i < n; i++ {
		// one that differs in little
		b := append([]byte(nil), blobs[i]...)
		for try := 0; try < 20; try++ {
			j := c.Intn(len(b))
			if ch := b[j]; ch >= 'b' && ch < 'y' || ch >= 'B' && ch < 'Y' || ch >= '1' && ch <= '8' {
				b[j] = []byte{ch ^ 0x20, ch + 1, ch - 1}[c.Intn(3)]
				break
			}
		}
		blobs = append(blobs, b)
	}
	blobs = append(blobs, lost, lost, bytes.Replace(lost, []byte("# lost\n"), nil, 1), append(lost[:len(lost):len(lost)], "\n\n\n"...))
	for i, n := 0, len(blobs); i < n; i++ {
		b := append([]byte(nil), blobs[i]...)
		switch c.Intn(4) {
		case 0:
			b = b[:c.Intn(len(b))]
		case 1:
			b[c.Intn(len(b))] ^= 1 << c.Intn(8)
		case 2:
			b = append(b, "\nmsgid \"open"...)
		case 3:
			b = bytes.Replace(b, []byte("msgstr"), []byte("msgstx"), 1)
		}
		blobs = append(blobs, b)
	}

	args := func() []any {
		var out []any
		for i, n := 0, c.Intn(4); i < n; i++ {
			out = append(out, []any{i, "s", 1.5, nil, true, "%d", int64(7)}[c.Intn(7)]) // no pointers: %p would show them
		}
		return out
	}
	msg := func() (string, string, string) {
		m := base.Msgs[c.Intn(len(base.Msgs))]
		switch c.Intn(8) {
		case 0:
			return m.Ctx, near(c.Rand, m.ID), m.ID2
		case 1:
			return near(c.Rand, m.Ctx), m.ID, m.ID2
		case 2:
			return m.Ctx, m.ID, near(c.Rand, m.ID2)
		case 3:
			return "", m.ID, m.ID + "s"
		}
		return m.Ctx, m.ID, m.ID2
	}
	count := func() int64 { return []int64{0, 1, 2, 3, 5, 11, 21, 100, 101, -1, 1 << 40}[c.Intn(11)] }
	exprs := []string{"n!=1", " n != 1", "n != 1 ", "n!= 1", "n>1", "n > 1", "n>11", "n > 1 1", "n %", "n $ 1", "1/n", "n%3", "n%0", "0", "1", "", " ", "n", "(n", "n?1:", "n==1?0:n==2?1:2", "n==1?0:n==2?1:3", "n==1 ? 0 : n==2 ? 1 : 2 "}
	for i := 0; i < 6; i++ {
		e := genExpr(c.Rand, 3)
		exprs = append(exprs, e.print(c.Rand, 0, 0), e.print(c.Rand, 2, 0), e.print(c.Rand, 1, 1))
	}
	tags := []string{"", "de", "DE", "de-DE", "de_de.UTF-8", "de@euro", "zh", "zh-Hant", "zh_TW", "zh-hans-hk", "x-foo", "und", "fr-x-a", "iw", "sr-Latn", "en-GB-oed", "C", "POSIX", "nb", "no", "qq", "q", "pl_pl", "dé", "zh-cmn-Hans-CN", "zh-cmn-Hans-SG", "zh-cmn-Hans-TW", "de-x-aaaaaaaa-b", "x-aaaaaaaa-bbbbbbbb-c", "sr-Latn-RS", "sr-Latn-BA", "sr-Cyrl-BA", "de_DE@euro", "de_AT@euro", "de_AT.ISO-8859-1", "pt", "pt-PT", "PT-br", langs[0], langs[1]}
	for i := 0; i < 6; i++ {
		tags = append(tags, c29locale(c.Intn(1<<20)))
	}
	show := func(v ...any) string { return fmt.Sprintf("%q %v", v, v) }
	er := func(err error) string {
		if err == nil {
			return "ok"
		}
		return "error: " + err.Error()
	}
	list := func(x *translator.File, err error) string {
		if err != nil {
			return er(err)
		}
		out := fingerprint(x) + x.Lang()
		for _, h := range []string{"X-Tone", "x-tone", "X-TONE", "Plural-Forms", "plural-forms", "Language", "LANGUAGE"} {
			v, ok := x.GetHeader(h)
			out += fmt.Sprint("|", v, ok)
		}
		for n := int64(0); n < 4; n++ {
			for _, m := range base.Msgs {
				if m.Plural {
					out += "|" + x.XN64(m.Ctx, m.ID, m.ID2, n, n)
				}
			}
		}
		return out
	}
	handle := func() *t.Translations {
		h := sets[c.Intn(len(sets))]
		if c.Chance(2, 3) {
			h = h.D(domains[c.Intn(len(domains))])
		}
		if c.Chance(2, 3) {
			h = h.L(wanted[c.Intn(len(wanted))])
		}
		return h
	}
	var qs []c30question
	add := func(kind string, ask func() string) { qs = append(qs, c30question{kind, ask}) }
	for len(qs) < 220 {
		ctx, id, id2 := msg()
		n, a, s := count(), args(), tags[c.Intn(len(tags))]
		h, form := handle(), c.Intn(10)
		one := func(l forms) string {
			switch form {
			case 0:
				return l.T(id, a...)
			case 1:
				return l.X(ctx, id, a...)
			case 2:
				return l.N(id, id2, int(n), a...)
			case 3:
				return l.N64(id, id2, n, a...)
			case 4:
				return l.N1(id, int(n), a...)
			case 5:
				return l.N1_64(id, n, a...)
			case 6:
				return l.XN(ctx, id, id2, int(n), a...)
			case 7:
				return l.XN64(ctx, id, id2, n, a...)
			case 8:
				return l.XN1(ctx, id, int(n), a...)
			}
			return l.XN1_64(ctx, id, n, a...)
		}
		switch c.Intn(22) {
		case 0, 1, 2:
			add("lookup", func() string { return one(formsOf(h)) })
		case 3:
			add("package lookup", func() string { t.SetGlobal(h); return one(packageForms) })
		case 4:
			d, s := domains[c.Intn(len(domains))], s
			if s == "" { // would ask for the default
				s = "fr"
			}
			add("context lookup", func() string {
				t.SetGlobal(h)
				return one(formsOf(t.WithContext(t.SetCtxDomain(t.SetCtxLocale(context.Background(), s), d))))
			})
		case 5, 6:
			x := files[c.Intn(len(files))]
			add("catalog lookup", func() string { return x.X(ctx, id, a...) + "|" + x.XN64(ctx, id, id2, n, a...) })
		case 7, 8, 9:
			e := exprs[c.Intn(len(exprs))]
			add("evaluation", func() string {
				v, err := plurals.Eval(context.Background(), e, n)
				if err != nil {
					return "error"
				}
				return show(e, n, v)
			})
		case 10:
			text := []string{id, "%s %d", "%[2]v %[1]v", "%d%%", "%", "%!", "%z", "%v %v %v %v", "%-5d|%5s"}[c.Intn(9)]
			add("format", func() string { return f.Format(text, a...) + "|" + f.DefaultPlural(text, id2, n, a...) })
		case 11, 12:
			add("normalise", func() string {
				return show(s, locale.Normalize(s), locale.NormalizeTag(language.Make(s)), t.Tag(s).String())
			})
		case 13:
			var sup, acc []string
			for i := 0; i < 1+c.Intn(4); i++ {
				sup, acc = append(sup, tags[c.Intn(len(tags))]), append(acc, tags[c.Intn(len(tags))])
			}
			add("match", func() string {
				tag, i, conf := t.Match(sup, acc)
				return show(sup, acc, tag.String(), i, conf.String(), t.Tags(sup))
			})
		case 14:
			head := s + "," + tags[c.Intn(len(tags))] + ";q=0." + strconv.Itoa(c.Intn(10))
			cookie := c.Chance(1, 4)
			add("negotiation", func() string {
				t.SetGlobal(h)
				q, _ := http.NewRequest("GET", "/", nil)
				q.Header.Set("Accept-Language", head)
				if cookie {
					q.AddCookie(&http.Cookie{Name: "lang", Value: "co"})
				}
				return show(head, t.GetUserLang(q), t.GetUserLang(q, t.WithCookieName("other")))
			})
		case 15, 16:
			b := blobs[c.Intn(len(blobs))]
			kind := c.Intn(3)
			add("reading", func() string {
				switch kind {
				case 0:
					return list(translator.ReadPo(b))
				case 1:
					return list(translator.ReadPot(b))
				}
				return list(translator.ReadMo(b))
			})
		case 17:
			x, kind := files[c.Intn(len(files))], c.Intn(3)
			add("saving", func() string {
				var buf bytes.Buffer
				var err error
				switch kind {
				case 0:
					err = x.SaveAsPo(&buf)
				case 1:
					err = x.SaveAsPot(&buf)
				default:
					err = x.SaveAsMo(&buf)
				}
				return buf.String() + er(err)
			})
		case 18:
			fsys := fstest.MapFS{}
			for i, n := 0, c.Intn(4); i < n; i++ {
				fsys[[]string{"x", "s/y", "z"}[i]+[]string{".po", ".mo", ".txt"}[c.Intn(3)]] = &fstest.MapFile{Data: blobs[c.Intn(len(blobs))]}
			}
			broken := c.Chance(1, 4)
			l := langs[c.Intn(len(langs))]
			add("binding", func() string {
				ts := t.NewTranslations()
				ts.SetLocale(l)
				if broken {
					ts.BindFS("a", c30broken{})
				}
				ts.BindFS("a", fsys)
				ts.SetDomain("a")
				return show(ts.HasDomain("a"), ts.Locales(), ts.UsedLocale(), ts.MostMatchLocale()) + one(formsOf(ts))
			})
		case 19:
			b, name := blobs[c.Intn(len(blobs))], fmt.Sprintf("q%d%s", len(qs), []string{".po", ".mo"}[c.Intn(2)])
			l := langs[c.Intn(len(langs))]
			other := c.Chance(1, 2)
			add("binding a path", func() string {
				// the same path holds something else afterwards
				path := filepath.Join(dir, "same"+filepath.Ext(name))
				if other {
					path = filepath.Join(dir, name)
				}
				must(os.WriteFile(path, b, 0o644))
				t.SetGlobal(t.NewTranslations())
				t.Bind("a", path)
				t.SetDomain("a")
				t.SetLocale(l)
				return show(t.HasDomain("a"), t.Locales(), t.UsedLocale()) + one(packageForms)
			})
		case 20:
			env := tags[c.Intn(len(tags))]
			name := []string{"LC_ALL", "LANG", "LC_MESSAGES", "LANGUAGE"}[c.Intn(4)]
			add("default", func() string {
				for _, v := range []string{"LC_ALL", "LANG", "LC_MESSAGES", "LANGUAGE"} {
					if old, ok := os.LookupEnv(v); ok {
						os.Unsetenv(v)
						defer os.Setenv(v, old)
					} else {
						defer os.Unsetenv(v)
					}
				}
				os.Setenv(name, env)
				return show(locale.GetDefault(), t.NewTranslations().Locale(), h.L("").Locale())
			})
		case 21:
			x := files[c.Intn(len(files))]
			add("state", func() string {
				tone, _ := x.GetHeader("X-Tone")
				tone2, _ := x.GetHeader("x-tone")
				g, ok := x.GetHeader(tone + tone2 + s)
				p, ok2 := x.GetHeader("Plural-Forms")
				return show(h.Locales(), h.UsedLocale(), h.MostMatchLocale(), h.Locale(), h.Domain(), sorted(h.Domains()), h.SourceCodeLocale(), h.HasDomain(s), tone, tone2, g, ok, p, ok2, x.Lang())
			})
		}
	}
	return qs
}

// respace puts a blank into an expression or takes one out, wherever it is.
func respace(r *rand.Rand, s string) string {
	var at []int
	for i := 1; i < len(s); i++ {
		if s[i] == ' ' || strings.IndexByte("=!<>&|0123456789", s[i-1]) >= 0 && s[i] != ' ' {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return s
	}
	i := at[r.Intn(len(at))]
	if s[i] == ' ' {
		return s[:i] + s[i+1:]
	}
	return s[:i] + " " + s[i:]
}

// c30broken is a file system that can not be read.
type c30broken struct{}

func (c30broken) Open(string) (fs.File, error) { return nil, errors.New("broken") }

type c30answer struct {
	Q    int    `json:"q"`
	Text string `json:"t"`
	Sum  string `json:"s"`
}

// c30main asks the questions named on the command line, in order.
func c30main(args []string) {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	shuffle, _ := strconv.ParseInt(args[3], 10, 64)
	qs := c30world(seed, args[1], shuffle)
	raw, err := os.ReadFile(args[2])
	must(err)
	var order []int
	must(json.Unmarshal(raw, &order))
	var out []c30answer
	for _, q := range order {
		if q < 0 { // unrelated
			r := rand.New(rand.NewSource(int64(q)))
			for i := 0; i < 300; i++ {
				s := c29locale(r.Intn(1 << 20))
				t.Tag(s)
				t.Match([]string{s}, []string{s + "x"})
				plurals.Eval(context.Background(), fmt.Sprintf("n%%%d", i+2), int64(i))
				f.Format("%d"+s, i)
			}
			continue
		}
		text := func() (s string) {
			defer func() {
				if e := recover(); e != nil {
					s = fmt.Sprint("panic: ", e)
				}
			}()
			return qs[q].ask()
		}()
		sum := sha256.Sum256([]byte(text))
		short := text
		if len(short) > 300 {
			short = short[:300]
		}
		out = append(out, c30answer{q, fmt.Sprintf("%s: %q", qs[q].kind, short), fmt.Sprintf("%x", sum[:12])})
	}
	must(json.NewEncoder(os.Stdout).Encode(out))
}

func c30(c *C) {
	dir := c.Dir()
	defer os.RemoveAll(dir)
	seed := c.Int63()
	total := len(c30world(seed, dir, 0))
	self, _ := os.Executable()
	var first map[int]c30answer
	run := func(what string, order []int) {
		raw, _ := json.Marshal(order)
		file := filepath.Join(dir, "order")
		must(os.WriteFile(file, raw, 0o644))
		cmd := exec.Command(self, "aux", "asked", fmt.Sprint(seed), dir, file, fmt.Sprint(c.Intn(1000)))
		cmd.Env = cleanEnv("GOTRACEBACK=all", []string{"A=b", "LANG=de_DE.UTF-8", "LC_ALL=fr_FR", "LANGUAGE=pl:zh_TW", "LC_MESSAGES=C", "LANG=ja_JP.eucJP"}[c.Intn(6)])
		var ob, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &ob, &eb
		if err := cmd.Run(); err != nil {
			c.Fail("crash", "questions %s (seed %d): %v\n%.4000s", what, seed, err, eb.String())
		}
		var got []c30answer
		if err := json.Unmarshal(ob.Bytes(), &got); err != nil {
			c.Fail("output", "questions %s (seed %d): output is not the answers: %v\n%.1000s", what, seed, err, ob.String())
		}
		c.Count("fresh processes", 1)
		if first == nil {
			first = map[int]c30answer{}
		}
		seen := map[int]bool{}
		for i, a := range got {
			w, ok := first[a.Q]
			if !ok {
				first[a.Q] = a
				if strings.Contains(a.Text, "error") {
					c.Count("errors among the answers", 1)
				}
				c.Distinct(a.Text)
				continue
			}
			c.Count("answers compared", 1)
			if seen[a.Q] {
				c.Count("asked again", 1)
			}
			seen[a.Q] = true
			if w.Sum != a.Sum {
				before := ""
				for j := i - 1; j >= 0 && j > i-4; j-- {
					before += "\n  asked before: " + got[j].Text
				}
				c.Fail("answer", "seed %d, question %d, asked %s as number %d: the answer depends on what was asked before\n  first %s\n  now   %s%s", seed, a.Q, what, i, w.Text, a.Text, before)
			}
		}
	}
	// each slice of questions alone, or nearly so
	perm := c.Perm(total)
	for i := 0; i < 6; i++ {
		run("alone", []int{perm[i]})
		c.Count("asked alone", 1)
	}
	order := make([]int, total)
	for i := range order {
		order[i] = i
	}
	run("in order", order)
	back := make([]int, total)
	for i := range back {
		back[i] = total - 1 - i
	}
	run("backwards", back)
	var mixed []int
	for i, n := 0, total*3; i < n; i++ {
		mixed = append(mixed, c.Intn(total))
		if c.Chance(1, 80) {
			mixed = append(mixed, -1-c.Intn(1000))
		}
		if c.Chance(1, 5) {
			mixed = append(mixed, mixed[len(mixed)-1])
		}
	}
	run("mixed", mixed)
}
