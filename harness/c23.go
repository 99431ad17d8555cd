package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"testing/fstest"
	"time"

	"github.com/youthlin/t"
)

func init() {
	register(&Property{ID: "C23",
		Rule:        "Recording translators (custom implementations of the Translator interface that note every call they get) are registered next to catalogs. registry: random histories of adding, replacing and loading on one domain beside a map from normalised language to the last translator; after each step every language is asked for, by identity, and the value the addition returned is compared. dispatch: domains of recording translators are put into sets by binding a placeholder and adding to it; every short and long form, through handles, derived handles, context handles, the package level and translators that call back into a set, must cause exactly one call of the right translator with the caller's context, texts, count and arguments (compared by identity) and hand back its answer as it is. files: fs.File stand-ins that fail in Stat, fail after some bytes, deliver in pieces, have foreign names, or hold the other format or damaged content are loaded: an error exactly when the file is a .po or .mo that cannot be read or is malformed, and then, or for any other name, every registered translator stays the same object; otherwise the catalog answers all its lookups under its language. Non-trivial: distinct histories, calls and files.",
		Assumptions: []string{"whether a file that is neither .po nor .mo and cannot be read is reported is not judged"},
		Sections: []Section{
			{Name: "registry", Quick: 30000, Thorough: 600000, Fn: c23registry, Need: []string{"replaced", "added", "without language", "asked", "added again"}},
			{Name: "dispatch", Quick: 25000, Thorough: 500000, Fn: c23dispatch, Need: []string{"calls recorded", "called back", "source answered", "arguments compared"}},
			{Name: "files", Quick: 20000, Thorough: 400000, Fn: c23files, Need: []string{"files loaded", "stat failed", "read failed", "malformed", "other names", "pieces"}},
		}})
}

type c23call struct {
	tor          *c23tor
	plural       bool
	ctx, id, id2 string
	n            int64
	args         []any
}

type c23log struct{ calls []c23call }

// c23tor notes its calls.
type c23tor struct {
	name, lang string
	log        *c23log
	back       func(c23call) string // answers by asking somewhere else
}

func (x *c23tor) Lang() string { return x.lang }
func (x *c23tor) answer(k c23call) string {
	x.log.calls = append(x.log.calls, k)
	if x.back != nil {
		return x.back(k)
	}
	return x.name
}
func (x *c23tor) X(ctx, id string, args ...any) string {
	return x.answer(c23call{tor: x, ctx: ctx, id: id, args: args})
}
func (x *c23tor) XN64(ctx, id, id2 string, n int64, args ...any) string {
	return x.answer(c23call{x, true, ctx, id, id2, n, args})
}

func c23spell(c *C, l string) string {
	s := spell(c, l)
	switch c.Intn(10) {
	case 0:
		s += ".UTF-8"
	case 1:
		s += "@x"
	}
	return s
}

func c23lang(c *C, few int) (string, string) {
	l := c22langs[c.Intn(few)]
	return c23spell(c, l[0]), l[1]
}

func c23same(a, b t.Translator) bool { return a == b }

// c23check asks for every language of the model and a few others.
func c23check(c *C, tr *t.Translation, model map[string]t.Translator) string {
	for _, l := range c22langs {
		want, ok := model[l[1]]
		got, has := tr.Get(l[1])
		if has != ok || ok && !c23same(got, want) {
			return fmt.Sprintf("Get(%q)=%v,%v want %v,%v", l[1], got, has, want, ok)
		}
		if !ok {
			want = t.NoopTranslator()
		}
		if g := tr.GetOrNoop(l[1]); !c23same(g, want) {
			return fmt.Sprintf("GetOrNoop(%q)=%v want %v", l[1], g, want)
		}
		c.Count("asked", 1)
	}
	for _, odd := range []string{"", "xx_YY", "zh_CN ", "ZH_cn", "zh_CN.UTF-8", "default"} {
		if got, has := tr.Get(odd); has {
			if _, ok := model[odd]; !ok && !c23known(model, got) {
				return fmt.Sprintf("Get(%q)=%v although never added", odd, got)
			}
		}
	}
	return ""
}

func c23known(model map[string]t.Translator, tor t.Translator) bool {
	for _, x := range model {
		if c23same(x, tor) {
			return true
		}
	}
	return false
}

func c23registry(c *C) {
	few := 1 + c.Intn(12)
	log := &c23log{}
	model := map[string]t.Translator{}
	var trace []string
	var first []t.Translator
	for i := c.Intn(5); i > 0; i-- {
		l, n := c23lang(c, few)
		x := &c23tor{name: fmt.Sprintf("new%d", i), lang: l, log: log}
		if c.Intn(6) == 0 {
			x.lang = ""
		} else {
			model[n] = x
		}
		first = append(first, x)
		trace = append(trace, "new "+x.lang)
	}
	tr := t.NewTranslation("dom", first...)
	if e := c23check(c, tr, model); e != "" {
		c.Fail("new", "NewTranslation(%v): %s", trace, e)
	}
	for step, steps := 0, 1+c.Intn(12); step < steps; step++ {
		l, n := c23lang(c, few)
		switch c.Intn(8) {
		case 0: // none
			x := &c23tor{name: "none", log: log}
			trace = append(trace, "add without language")
			if p := tr.AddOrReplace(x); p != nil {
				c.Fail("previous", "%v: returns %v", trace, p)
			}
			c.Count("without language", 1)
		case 1, 2: // a catalog read from text or bytes
			k := catalog(c.Rand, 2)
			k.Lang = l
			k.setHeader(c.Rand)
			var err error
			if c.Intn(2) == 0 {
				trace = append(trace, "LoadPo "+l)
				err = tr.LoadPo([]byte(poPrint(c.Rand, k.all(), randomLayout(c.Rand))))
			} else {
				trace = append(trace, "LoadMo "+l)
				err = tr.LoadMo(moWrite(c.Rand, k.all(), randomMOLayout(c.Rand)).data)
			}
			if err != nil {
				c.Fail("load", "%v: %v", trace, err)
			}
			got, ok := tr.Get(n)
			if !ok || model[n] != nil && c23same(got, model[n]) {
				c.Fail("load", "%v: Get(%q) returns %v, %v", trace, n, got, ok)
			}
			if e := lookAll(c, got, k, 3); e != "" {
				c.Fail("load", "%v: %s", trace, e)
			}
			model[n] = got
			c.Count("added", 1)
		case 3: // malformed
			bad := [][]byte{nil, {}, []byte("msgid \"x"), []byte("junk"), []byte("msgid \"\"\nmsgstr \"Language: " + l + "\\n\"\n\nmsgid \"a\"\nmsgstr \"b\n"), {0xde, 0x12, 4, 0x95, 0, 0}}[c.Intn(6)]
			trace = append(trace, "load malformed")
			if c.Intn(2) == 0 {
				if tr.LoadPo(bad) == nil {
					c.Fail("malformed", "LoadPo(%q) returns no error", bad)
				}
			} else if tr.LoadMo(bad) == nil {
				c.Fail("malformed", "LoadMo(%q) returns no error", bad)
			}
		default:
			x := &c23tor{name: fmt.Sprintf("add%d", step), lang: l, log: log}
			trace = append(trace, "add "+l)
			var tor t.Translator = x
			if old := model[n]; old != nil && c.Intn(4) == 0 { // the one that is registered already, or another language's
				if y, ok := old.(*c23tor); ok {
					y.lang = l
				}
				tor = old
				if c.Intn(2) == 0 {
					_, m := c23lang(c, few)
					if y, ok := old.(*c23tor); ok {
						y.lang, n = m, m
					}
				}
				trace = append(trace, "again as "+n)
				c.Count("added again", 1)
			}
			p := tr.AddOrReplace(tor)
			was := model[n]
			if was == nil && p != nil || was != nil && !c23same(p, was) {
				c.Fail("previous", "%v: returns %v want %v", trace, p, was)
			}
			if was != nil {
				c.Count("replaced", 1)
			}
			model[n] = tor
			if c.Intn(6) == 0 { // what it says later does not matter
				x.lang = "changed"
			}
			c.Count("added", 1)
		}
		if e := c23check(c, tr, model); e != "" {
			c.Fail("registry", "%v: %s", trace, e)
		}
	}
	if len(log.calls) > 0 {
		c.Fail("registry", "%v: registering asked translators for translations: %v", trace, log.calls)
	}
	c.Distinct(strings.Join(trace, ","))
}

// c23args makes arguments that can be told apart by identity.
func c23args(c *C) []any {
	n := []int{0, 0, 1, 1, 2, 3, 5, 9, 40}[c.Intn(9)]
	if n == 0 && c.Intn(2) == 0 {
		return nil
	}
	out := make([]any, n, n+c.Intn(3))
	for i := range out {
		switch c.Intn(7) {
		case 0:
			out[i] = nil
		case 1:
			out[i] = c.Int63()
		case 2:
			out[i] = text(c.Rand)
		case 3:
			out[i] = errors.New("e")
		case 4:
			out[i] = new(int)
		case 5:
			out[i] = &out
		default:
			out[i] = [2]int{c.Intn(3), i}
		}
	}
	return out
}

func c23argsEqual(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func c23dispatch(c *C) {
	log := &c23log{}
	ts := t.NewTranslations()
	doms := append([]string(nil), c12domains...)
	c.Shuffle(len(doms), func(i, j int) { doms[i], doms[j] = doms[j], doms[i] })
	doms = doms[:1+c.Intn(3)]
	few := 1 + c.Intn(6)
	model := map[[2]string]*c23tor{}
	for _, d := range doms {
		ts.BindFS(d, fstest.MapFS{"x.po": {Data: []byte("msgid \"\"\nmsgstr \"Language: ja_JP\\n\"\n")}})
		tr, ok := ts.Get(d)
		if !ok {
			c.Fail("bind", "BindFS(%q) bound nothing", d)
		}
		for i := c.Intn(5); i >= 0; i-- {
			l, n := c23lang(c, few)
			x := &c23tor{name: fmt.Sprintf("%s/%s/%d %s", d, n, i, []string{"", "%d", "%!", "%!(EXTRA int=1)", "100%", "\x00", "%v %s"}[c.Intn(7)]), lang: l, log: log}
			if c.Intn(8) == 0 {
				x.name = ""
			}
			tr.AddOrReplace(x)
			model[[2]string{d, n}] = x
		}
	}
	if c.Intn(3) == 0 { // one asks back, elsewhere
		keys := [][2]string{}
		for k := range model {
			keys = append(keys, k)
		}
		keys = sortPairs(keys)
		x := model[keys[c.Intn(len(keys))]]
		h := ts.D("elsewhere").L("de")
		x.back = func(k c23call) string {
			c.Count("called back", 1)
			if k.plural {
				return x.name + h.XN64(k.ctx, k.id, k.id2, k.n)
			}
			return x.name + h.X(k.ctx, k.id)
		}
	}
	t.SetGlobal(ts)
	defer t.SetGlobal(t.NewTranslations())
	for step := 0; step < 6; step++ {
		d := doms[c.Intn(len(doms))]
		if c.Intn(8) == 0 {
			d = "unbound"
		}
		l, n := c23lang(c, few)
		if c.Intn(8) == 0 {
			l, n = "nn_NO", "nn_NO"
		}
		var f forms
		how := c.Intn(5)
		switch how {
		case 0:
			ts.SetDomain(d)
			ts.SetLocale(l)
			f = formsOf(ts)
		case 1:
			f = formsOf(ts.D(d).L(l))
		case 2:
			f = formsOf(ts.L(l).D(d))
		case 3:
			f = formsOf(t.WithContext(t.SetCtxDomain(t.SetCtxLocale(context.Background(), l), d)))
		default:
			t.SetDomain(d)
			t.SetLocale(l)
			f = packageForms
		}
		ctx, id, id2 := text(c.Rand), text(c.Rand), text(c.Rand)
		if c.Intn(4) == 0 {
			ctx = ""
		}
		if c.Intn(6) == 0 {
			id = ""
		}
		num := count(c.Rand)
		args := c23args(c)
		var kept []any
		kept = append(kept, args...)
		var got string
		want := c23call{ctx: ctx, id: id, id2: id2, n: num, plural: true, args: kept}
		form := c.Intn(10)
		small := int64(int(num))
		switch form {
		case 0:
			want.ctx, want.id2, want.n, want.plural = "", "", 0, false
			got = f.T(id, args...)
		case 1:
			want.id2, want.n, want.plural = "", 0, false
			got = f.X(ctx, id, args...)
		case 2:
			want.ctx, want.n = "", small
			got = f.N(id, id2, int(num), args...)
		case 3:
			want.ctx = ""
			got = f.N64(id, id2, num, args...)
		case 4:
			want.ctx, want.id2, want.n = "", "", small
			got = f.N1(id, int(num), args...)
		case 5:
			want.ctx, want.id2 = "", ""
			got = f.N1_64(id, num, args...)
		case 6:
			want.n = small
			got = f.XN(ctx, id, id2, int(num), args...)
		case 7:
			got = f.XN64(ctx, id, id2, num, args...)
		case 8:
			want.id2, want.n = "", small
			got = f.XN1(ctx, id, int(num), args...)
		default:
			want.id2 = ""
			got = f.XN1_64(ctx, id, num, args...)
		}
		calls := log.calls
		log.calls = nil
		say := fmt.Sprintf("way %d form %d domain %q locale %q of %d: %+v", how, form, d, l, len(model), want)
		x := model[[2]string{d, n}]
		if x == nil {
			if len(calls) > 0 {
				c.Fail("wrong translator", "%s\nasked %q", say, calls[0].tor.name)
			}
			if len(args) == 0 {
				src := id
				if want.plural {
					src = refPlural(want.id, want.id2, want.n)
				}
				if got != src {
					c.Fail("source", "%s\nanswers %q without a translator", say, got)
				}
			}
			c.Count("source answered", 1)
			continue
		}
		if len(calls) != 1 {
			c.Fail("calls", "%s\n%d calls: %+v", say, len(calls), calls)
		}
		k := calls[0]
		if k.tor != x {
			c.Fail("wrong translator", "%s\nasked %q want %q", say, k.tor.name, x.name)
		}
		if k.plural != want.plural || k.ctx != want.ctx || k.id != want.id || k.id2 != want.id2 || k.n != want.n {
			c.Fail("question", "%s\nthe translator is asked %+v", say, k)
		}
		if !c23argsEqual(k.args, kept) {
			c.Fail("arguments", "%s\nthe translator gets %v", say, k.args)
		}
		answer := x.name
		if x.back != nil {
			if k.plural {
				answer += refPlural(k.id, k.id2, k.n)
			} else {
				answer += k.id
			}
		}
		if got != answer {
			c.Fail("answer", "%s\nreturns %q although the translator says %q", say, got, answer)
		}
		c.Count("calls recorded", 1)
		c.Count("arguments compared", len(kept))
		c.Distinct(say)
	}
}

// c23file is a file that may fail.
type c23file struct {
	name    string
	data    []byte
	piece   int
	statErr error
	readErr error // after data
	eofWith bool  // the last piece comes with EOF
	reads   int
}

func (f *c23file) Stat() (fs.FileInfo, error) {
	if f.statErr != nil {
		return nil, f.statErr
	}
	return c23info{f}, nil
}
func (f *c23file) Close() error { return nil }
func (f *c23file) Read(p []byte) (int, error) {
	f.reads++
	end := f.readErr
	if end == nil {
		end = io.EOF
	}
	if len(f.data) == 0 {
		return 0, end
	}
	n := len(p)
	if n > f.piece {
		n = f.piece
	}
	if f.piece == 0 || f.piece == 3 && f.reads%3 == 0 {
		n = 0 // nothing yet
		if f.reads%2 == 0 {
			n = len(p)
		}
	}
	n = copy(p[:n], f.data)
	f.data = f.data[n:]
	if len(f.data) == 0 && f.eofWith {
		return n, end
	}
	return n, nil
}

type c23info struct{ f *c23file }

func (i c23info) Name() string { return i.f.name }
func (i c23info) Size() int64 {
	return [...]int64{0, 1, int64(len(i.f.data)), 1 << 40}[len(i.f.name)%4]
}
func (i c23info) Mode() fs.FileMode  { return 0o644 }
func (i c23info) ModTime() time.Time { return time.Time{} }
func (i c23info) IsDir() bool        { return false }
func (i c23info) Sys() any           { return nil }

func c23files(c *C) {
	few := 1 + c.Intn(6)
	log := &c23log{}
	tr := t.NewTranslation("dom")
	model := map[string]t.Translator{}
	for i := c.Intn(3); i >= 0; i-- {
		l, n := c23lang(c, few)
		x := &c23tor{name: fmt.Sprint(i), lang: l, log: log}
		tr.AddOrReplace(x)
		model[n] = x
	}
	for step := 0; step < 4; step++ {
		k := catalog(c.Rand, c.Intn(5))
		l, n := c23lang(c, few)
		k.Lang = l
		k.setHeader(c.Rand)
		noLang := false
		if c.Intn(10) == 0 {
			noLang = true
			for i := range k.Header {
				if k.Header[i][0] == "Language" {
					k.Header[i][0] = "Langauge"
				}
			}
		}
		isPO := c.Intn(2) == 0
		var data []byte
		if isPO {
			data = []byte(poPrint(c.Rand, k.all(), randomLayout(c.Rand)))
		} else {
			data = moWrite(c.Rand, k.all(), randomMOLayout(c.Rand)).data
		}
		ext := []string{".mo", ".po"}
		name := []string{"x", "", "zh_CN", "messages.pot", "a.mo", "b.po", ".", "LC_MESSAGES", "po", "中"}[c.Intn(10)]
		f := &c23file{piece: []int{1 << 20, 1 << 20, 1, 3, 7, 100, 511, 0}[c.Intn(8)], eofWith: c.Intn(2) == 0}
		if len(data) > 3000 && f.piece < 7 {
			f.piece = 7
		}
		if f.piece < 1<<20 {
			c.Count("pieces", 1)
		}
		ok, mayFail := true, false
		b := 0
		if isPO {
			b = 1
		}
		f.name = name + ext[b]
		switch c.Intn(8) {
		case 0: // the other format
			f.name = name + ext[1-b]
			ok = false
			c.Count("malformed", 1)
		case 1:
			ok = false
			c.Count("malformed", 1)
			if isPO {
				data = append([]byte(strings.TrimRight(string(data), "\r\n")), []string{"\nmsgid \"open", "\njunk\n", "\n\"stray\n", "\nmsgstr \"\\q\"\n"}[c.Intn(4)]...)
			} else {
				data = data[:c.Intn(28)]
			}
		case 2:
			f.statErr = []error{fs.ErrPermission, errors.New("stat"), io.EOF, context.Canceled}[c.Intn(4)]
			ok = false
			c.Count("stat failed", 1)
		case 3:
			f.readErr = []error{fs.ErrPermission, errors.New("read"), io.ErrUnexpectedEOF, io.ErrNoProgress, fs.ErrClosed}[c.Intn(5)]
			if c.Intn(3) == 0 {
				data = data[:c.Intn(len(data))]
			}
			ok = false
			c.Count("read failed", 1)
		case 4:
			f.name = name + []string{".PO", ".pot", ".po~", ".mo.bak", ".po.txt", ".txt", "", "po", "mo", ".gmo", ".po ", ".Mo"}[c.Intn(12)]
			if !strings.HasSuffix(f.name, ".po") && !strings.HasSuffix(f.name, ".mo") {
				c.Count("other names", 1)
				if c.Intn(3) == 0 {
					f.readErr = errors.New("read")
					mayFail = true
				}
				noLang = true // nothing registered
			} else {
				continue
			}
		}
		f.data = data
		err := tr.LoadFile(f)
		say := fmt.Sprintf("LoadFile(%q %q, stat %v, read %v, piece %d)", f.name, data, f.statErr, f.readErr, f.piece)
		if (err == nil) != ok && !mayFail {
			c.Fail("error", "%s returns %v", say, err)
		}
		if ok && !noLang {
			got, has := tr.Get(n)
			if !has || model[n] != nil && c23same(got, model[n]) {
				c.Fail("load", "%s: Get(%q)=%v,%v", say, n, got, has)
			}
			if e := lookAll(c, got, k, 5); e != "" {
				c.Fail("load", "%s: %s", say, e)
			}
			model[n] = got
			c.Count("files loaded", 1)
		}
		if e := c23check(c, tr, model); e != "" {
			c.Fail("kept", "%s: %s", say, e)
		}
		c.Distinct(f.name, string(data))
	}
}
