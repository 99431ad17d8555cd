package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"testing/fstest"
	"unsafe"

	"github.com/youthlin/t"
	"github.com/youthlin/t/f"
	"github.com/youthlin/t/locale"
	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C32",
		Rule:        "Every operation is run at a small size and at one 16 or 64 (or, for lookups, 256) times larger, and its work is read from two meters: the bytes the process allocates and the CPU time of the thread. Operations whose work must not depend on the size (lookups of every form that hit, miss and choose plurals, headers, languages, deriving and setting up handles, adding a message, while the catalog, its other messages' texts and comments, other languages or other domains grow) may cost a small constant factor more; operations that must read everything (reading PO, POT and MO, listing, saving, binding trees, formatting, normalising, matching, negotiating; by number of messages, length of texts, lines, escapes, comments, forms, files, verbs, arguments) at most about four times the proportional work, which still admits sorting and tells quadratic work (256 or 4096 times) apart. A suspicion is measured again several times, and the least of all measurements counts. Random catalogs of random shapes are used. Non-trivial: (operation, sizes, shape).",
		Assumptions: []string{"reading everything is judged beyond a few microseconds of work only", "deriving a handle may cost as much as the set has domains, and listing languages as many as the domain has"},
		Sections: []Section{
			{Name: "proportional", Quick: 10 * len(c32linear), Thorough: 60 * len(c32linear), Fn: c32lin, Need: []string{"meters read"}},
			{Name: "command", Quick: 6 * len(c32commands), Thorough: 20 * len(c32commands), Fn: c32command, Need: []string{"commands measured"}},
			{Name: "constant", Quick: 12 * len(c32constant), Thorough: 60 * len(c32constant), Fn: c32const, Need: []string{"meters read", "large catalogs"}},
		}})
}

// c32cpu is the CPU time of the thread in nanoseconds.
func c32cpu() int64 {
	var ts syscall.Timespec
	if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		inconclusive("clock_gettime: %v", e)
	}
	return ts.Nano()
}

type c32cost struct{ ns, bytes float64 }

// c32measure runs fn reps times.
func c32measure(reps int, fn func()) c32cost {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	t0 := c32cpu()
	for i := 0; i < reps; i++ {
		fn()
	}
	t1 := c32cpu()
	runtime.ReadMemStats(&b)
	return c32cost{float64(t1-t0) / float64(reps), float64(b.TotalAlloc-a.TotalAlloc) / float64(reps)}
}

func (a c32cost) least(b c32cost) c32cost { return c32cost{min(a.ns, b.ns), min(a.bytes, b.bytes)} }

// c32compare judges small against large by factors; slack is work that never counts.
func c32compare(c *C, name string, repsS, repsL int, small, large func(), factor float64, slack c32cost) {
	small() // warm up
	again := 6
	s := c32measure(repsS, small)
	l := c32measure(1, large)
	switch far := l.ns > 8*(s.ns*factor+slack.ns); {
	case l.ns > 5e8 && far: // no accident
		repsL, again = 1, 0
	case l.ns > 5e8:
		repsL, again = 1, 2
		l = c32measure(repsL, large)
	default:
		l = c32measure(repsL, large)
	}
	over := func() string {
		switch {
		case l.ns > s.ns*factor+slack.ns:
			return fmt.Sprintf("takes %.0f ns instead of %.0f", l.ns, s.ns)
		case l.bytes > s.bytes*factor+slack.bytes:
			return fmt.Sprintf("allocates %.0f bytes instead of %.0f", l.bytes, s.bytes)
		}
		return ""
	}
	c.Count("meters read", 4)
	for i := 0; i < again && over() != ""; i++ {
		c.Count("measured again", 1)
		runtime.GC()
		// the small one may well have been lucky: its typical cost counts
		s2 := c32measure(repsS, small)
		s = c32cost{max(s.ns, s2.ns), max(s.bytes, s2.bytes)}
		l = l.least(c32measure(repsL, large))
	}
	if w := over(); w != "" {
		c.Fail("cost", "%s: %s (allowed: factor %.0f)", name, w, factor)
	}
	c.Distinct(name)
	c.Sample("%s: %.0f ns and %.0f bytes, larger: %.0f ns and %.0f bytes", name, s.ns, s.bytes, l.ns, l.bytes)
}

// c32fill adds n messages of the shape to the catalog.
func c32fill(f *translator.File, n int, shape int, size int) {
	pad := strings.Repeat("x", size)
	for i := 0; i < n; i++ {
		e := &translator.Entry{MsgID: fmt.Sprintf("other %d", i), MsgStr: "str " + pad}
		switch shape {
		case 1:
			e.MsgCtxt = "ctx" + fmt.Sprint(i%7)
		case 2:
			e.MsgID2, e.IsPlural, e.MsgStr, e.MsgStrN = "others", true, "", []string{"a", "b", "c" + pad}
		case 3:
			e.MsgCtxt, e.MsgID = fmt.Sprint("c", i), "one"
		case 4:
			e.MsgCmts = []string{"#: f.go:" + fmt.Sprint(i), "# " + pad}
		}
		f.AddEntry(e)
	}
}

const c32header = "Language: de\nPlural-Forms: nplurals=3; plural=%s;\n"

// c32catalog is a catalog that holds one, many and n others.
func c32catalog(rule string, n, shape, size int) *translator.File {
	f := new(translator.File)
	f.AddEntry(&translator.Entry{MsgStr: fmt.Sprintf(c32header, rule)})
	f.AddEntry(&translator.Entry{MsgID: "one", MsgStr: "eins %v"})
	f.AddEntry(&translator.Entry{MsgID: "one", MsgCtxt: "menu", MsgStr: "Eins"})
	f.AddEntry(&translator.Entry{MsgID: "many", IsPlural: true, MsgID2: "manys", MsgStrN: []string{"a", "b %d", "c"}})
	c32fill(f, n, shape, size)
	return f
}

type c32state struct {
	file *translator.File
	set  *t.Translations
	dom  *t.Translation
	n    int
}

type c32tor struct {
	*translator.File
	lang string
}

func (l c32tor) Lang() string { return l.lang }

// c32lookups are the first operations below: the number of domains and languages must not matter to them either.
const c32lookups = 10

// c32constant are operations whose cost must not follow the size of the catalog.
var c32constant = []struct {
	name string
	fn   func(s *c32state, i int)
}{
	{"X hit", func(s *c32state, i int) { s.file.X("", "one", i) }},
	{"X context", func(s *c32state, i int) { s.file.X("menu", "one") }},
	{"X miss", func(s *c32state, i int) { s.file.X("", "none"); s.file.X("none", "one") }},
	{"XN64 hit", func(s *c32state, i int) { s.file.XN64("", "many", "manys", int64(i), i) }},
	{"XN64 miss", func(s *c32state, i int) {
		s.file.XN64("", "none", "nones", int64(i), i)
		s.file.XN64("x", "many", "", int64(i))
	}},
	{"header", func(s *c32state, i int) { s.file.GetHeader("Plural-Forms"); s.file.GetHeader("none"); s.file.Lang() }},
	{"set T", func(s *c32state, i int) { s.set.T("one", i); s.set.T("none") }},
	{"set X", func(s *c32state, i int) { s.set.X("menu", "one"); s.set.X("none", "none") }},
	{"set N", func(s *c32state, i int) { s.set.N("many", "manys", i); s.set.N64("none", "nones", int64(i)) }},
	{"used", func(s *c32state, i int) {
		s.set.UsedLocale()
		s.set.Get("dom")
		s.set.GetOrNoop("none")
		s.dom.Get("de_DE")
		s.dom.GetOrNoop("fr_FR")
	}},
	{"handle", func(s *c32state, i int) {
		s.set.D("dom").T("one")
		s.set.L("de").T("one")
		s.set.L("fr").T("one")
		s.set.D("none").T("one")
	}},
	{"context", func(s *c32state, i int) {
		t.SetGlobal(s.set)
		t.WithContext(t.SetCtxLocale(context.Background(), "de")).T("one")
		t.T("one")
		t.N("many", "manys", i)
	}},
	{"state", func(s *c32state, i int) {
		s.set.Locales()
		s.set.UsedLocale()
		s.set.Domains()
		s.set.HasDomain("dom")
		s.set.Locale()
		s.dom.Get("de_DE")
		s.dom.GetOrNoop("fr_FR")
	}},
	{"most match", func(s *c32state, i int) { s.set.MostMatchLocale() }},
	{"set up", func(s *c32state, i int) {
		h := s.set.L("fr")
		h.SetLocale("de_AT")
		h.SetSourceCodeLocale("en_GB")
		h.SetDomain("none")
		h.BindFS("small", fstest.MapFS{"a.po": {Data: []byte("msgid \"\"\nmsgstr \"Language: de\\n\"\n")}})
		h.RemoveDomain("dom")
		h.ClearDomains()
	}},
	{"negotiation", func(s *c32state, i int) {
		t.SetGlobal(s.set)
		q, _ := http.NewRequest("GET", "/", nil)
		q.Header.Set("Accept-Language", "de, en;q=0.5")
		t.GetUserLang(q)
	}},
	{"add", func(s *c32state, i int) {
		s.file.AddEntry(&translator.Entry{MsgID: "one", MsgStr: "eins %v"})
		s.file.X("", "one", i)
	}},
	{"add header", func(s *c32state, i int) {
		s.file.AddEntry(&translator.Entry{MsgStr: fmt.Sprintf(c32header, "n!=1")})
		s.file.XN64("", "many", "manys", int64(i))
	}},
	{"register", func(s *c32state, i int) {
		s.dom.AddOrReplace(s.file)
		s.dom.AddOrReplace(c32tor{s.file, "fr"})
		t.NewTranslation("x", s.file).GetOrNoop("de_DE")
	}},
}

func c32const(c *C) {
	o := c32constant[c.Index%len(c32constant)]
	rule := []string{"n!=1", "n>1", "n==1?0:n==2?1:2", "n==0?2:n!=1"}[c.Intn(4)]
	grow := c.Intn(4) // what grows: messages, texts, forms and comments of all kinds
	lookup := c.Index%len(c32constant) < c32lookups
	languages := map[string]bool{"handle": true, "context": true, "add": true, "add header": true, "register": true}[o.name]
	mk := func(n int) *c32state {
		size := 3
		if grow == 1 {
			n, size = 20, n*20
		}
		f := c32catalog(rule, n, c.Intn(5), size)
		var b bytes.Buffer
		must(f.SaveAsPo(&b))
		fsys := fstest.MapFS{"a.po": {Data: b.Bytes()}}
		if grow == 2 { // the whole catalog is bound twice, and in MO
			var m bytes.Buffer
			must(f.SaveAsMo(&m))
			fsys["b.mo"] = &fstest.MapFile{Data: m.Bytes()}
		}
		ts := t.NewTranslations()
		ts.BindFS("dom", fsys)
		ts.SetDomain("dom")
		ts.SetLocale("de")
		dom, ok := ts.Get("dom")
		if !ok {
			inconclusive("no domain")
		}
		if grow == 3 && languages {
			for i := 0; i < n/10; i++ {
				dom.AddOrReplace(c32tor{f, c29locale(i * 7)})
			}
			dom.AddOrReplace(f)
		}
		if grow == 3 && lookup {
			small := fstest.MapFS{"a.po": {Data: []byte("msgid \"\"\nmsgstr \"Language: de\\n\"\n")}}
			for i := 0; i < n/10; i++ {
				dom.AddOrReplace(c32tor{f, c29locale(i * 7)})
				ts.BindFS(fmt.Sprint("d", i), small)
			}
			dom.AddOrReplace(f)
		}
		return &c32state{f, ts, dom, n}
	}
	a := mk(10 + c.Intn(20))
	b := mk(4000 + c.Intn(4000))
	c.Count("large catalogs", 1)
	at := 0
	run := func(s *c32state) func() {
		return func() {
			for i := 0; i < 20; i++ {
				at++
				o.fn(s, at%5)
			}
		}
	}
	reps := 25
	c32compare(c, fmt.Sprintf("%s, rule %s, growing %d", o.name, rule, grow), reps, reps, run(a), run(b), 6, c32cost{20 * 4000, 20 * 500})
}

// c32linear are operations that read all of their input, whose size is n.
var c32linear = []struct {
	name string
	base int // the small size
	mk   func(c *C, n int) func()
}{
	{"read PO messages", 100, func(c *C, n int) func() { b := c32po(c, n); return func() { translator.ReadPo(b) } }},
	{"read POT messages", 100, func(c *C, n int) func() { b := c32po(c, n); return func() { translator.ReadPot(b) } }},
	{"read PO long line", 3000, func(c *C, n int) func() {
		s := strings.Repeat([]string{"x", "\\n", "\\\"", "中", " ", "\\303\\244"}[c.Intn(6)], n)
		b := []byte("msgid \"a\"\nmsgstr \"" + s + "\"\n")
		return func() { translator.ReadPo(b) }
	}},
	{"read PO many lines", 300, func(c *C, n int) func() {
		field := []string{"msgid \"a\"\nmsgstr \"\"\n", "msgid \"\"\n", "msgctxt \"\"\n", "msgid \"a\"\nmsgid_plural \"\"\n", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"\"\n"}[c.Intn(5)]
		line := []string{"\"text\"\n", "\"\"\n", "\"x\\n\"\n", "\"text\"\n\n"}[c.Intn(4)]
		tail := map[bool]string{true: "msgid \"a\"\nmsgstr \"b\"\n"}[strings.HasPrefix(field, "msgctxt")]
		b := []byte(field + strings.Repeat(line, n) + tail)
		return func() { translator.ReadPo(b) }
	}},
	{"read PO comments", 300, func(c *C, n int) func() {
		line := []string{"# text\n", "#: f.go:1\n", "#, fuzzy\n", "#~ msgid \"old\"\n", "\n", "#| msgid \"x\"\n", "#. a\n\n"}[c.Intn(7)]
		b := []byte(strings.Repeat(line, n) + "msgid \"a\"\nmsgstr \"b\"\n")
		return func() { translator.ReadPo(b) }
	}},
	{"read PO forms", 60, func(c *C, n int) func() {
		var sb strings.Builder
		sb.WriteString("msgid \"a\"\nmsgid_plural \"b\"\n")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "msgstr[%d] \"x\"\n", i)
		}
		b := []byte(sb.String())
		return func() { translator.ReadPo(b) }
	}},
	{"read PO damaged at the end", 100, func(c *C, n int) func() {
		b := append(c32po(c, n), "\nmsgid \"open\n"...)
		return func() { translator.ReadPo(b) }
	}},
	{"read MO", 100, func(c *C, n int) func() {
		var b bytes.Buffer
		must(c32catalog("n!=1", n, c.Intn(4), c.Intn(30)).SaveAsMo(&b))
		return func() { translator.ReadMo(b.Bytes()) }
	}},
	{"read MO any layout", 100, func(c *C, n int) func() {
		var ms []Msg
		for i := 0; i < n; i++ {
			ms = append(ms, Msg{ID: fmt.Sprint("id ", i), Str: "text"})
		}
		b := moWrite(c.Rand, ms, randomMOLayout(c.Rand)).data
		return func() { translator.ReadMo(b) }
	}},
	{"read MO long text", 5000, func(c *C, n int) func() {
		b := moWrite(c.Rand, []Msg{{ID: "a", Str: strings.Repeat("y", n)}, {ID: strings.Repeat("k", n), Str: "b"}}, MOLayout{}).data
		return func() { translator.ReadMo(b) }
	}},
	{"read MO forms", 100, func(c *C, n int) func() {
		m := Msg{ID: "a", Plural: true, ID2: "b"}
		for i := 0; i < n; i++ {
			m.StrN = append(m.StrN, "form")
		}
		b := moWrite(c.Rand, []Msg{m}, MOLayout{}).data
		return func() { translator.ReadMo(b) }
	}},
	{"list", 100, func(c *C, n int) func() {
		f := c32catalog("n!=1", n, c.Intn(5), c.Intn(30))
		return func() { f.SortedEntry() }
	}},
	{"build", 100, func(c *C, n int) func() {
		shape := c.Intn(5)
		return func() { c32catalog("n!=1", n, shape, 5) }
	}},
	{"save PO", 100, func(c *C, n int) func() {
		f := c32catalog("n!=1", n, c.Intn(5), c.Intn(100))
		return func() { f.SaveAsPo(io.Discard) }
	}},
	{"save POT", 100, func(c *C, n int) func() {
		f := c32catalog("n!=1", n, c.Intn(5), c.Intn(100))
		return func() { f.SaveAsPot(io.Discard) }
	}},
	{"save MO", 100, func(c *C, n int) func() {
		f := c32catalog("n!=1", n, c.Intn(5), c.Intn(100))
		return func() { f.SaveAsMo(io.Discard) }
	}},
	{"save long texts", 3000, func(c *C, n int) func() {
		s := strings.Repeat([]string{"x", "a\n", "word ", "中", "\"", "\t", "\n", "\x01", "é "}[c.Intn(9)], n)
		f := new(translator.File)
		f.AddEntry(&translator.Entry{MsgID: "a", MsgStr: s})
		f.AddEntry(&translator.Entry{MsgID: "b" + s, MsgCtxt: "c", IsPlural: true, MsgID2: s, MsgStrN: []string{s, "y"}})
		kind := c.Intn(3)
		return func() {
			switch kind {
			case 0:
				f.SaveAsPo(io.Discard)
			case 1:
				f.SaveAsPot(io.Discard)
			default:
				f.SaveAsMo(io.Discard)
			}
		}
	}},
	{"save comments", 300, func(c *C, n int) func() {
		e := &translator.Entry{MsgID: "a", MsgStr: "b"}
		for i := 0; i < n; i++ {
			e.MsgCmts = append(e.MsgCmts, []string{"# text", "#: f.go:1", "#, fuzzy"}[c.Intn(3)])
		}
		f := new(translator.File)
		f.AddEntry(e)
		return func() { f.SaveAsPo(io.Discard); f.SaveAsPot(io.Discard) }
	}},
	{"header fields", 100, func(c *C, n int) func() {
		h := "Language: de\n"
		for i := 0; i < n; i++ {
			h += fmt.Sprintf("X-Field-%d: value\n", i)
		}
		return func() {
			f := new(translator.File)
			f.AddEntry(&translator.Entry{MsgStr: h})
			f.GetHeader("X-Field-9")
		}
	}},
	{"long header line", 30000, func(c *C, n int) func() {
		h := "Language: de\nX-A: " + strings.Repeat([]string{"x", ": ", ":", " "}[c.Intn(4)], n) + "\n"
		return func() {
			f := new(translator.File)
			f.AddEntry(&translator.Entry{MsgStr: h})
			f.GetHeader("X-A")
		}
	}},
	{"bind files", 20, func(c *C, n int) func() {
		dir := fstest.MapFS{}
		for i := 0; i < n; i++ {
			dir[fmt.Sprintf("d%d/f%d.po", i%10, i)] = &fstest.MapFile{Data: []byte(fmt.Sprintf("msgid \"\"\nmsgstr \"Language: %s\\n\"\n", c29locale(i*17)))}
		}
		fsys := newListed(dir)
		return func() { t.NewTranslations().BindFS("x", fsys) }
	}},
	{"format text", 2000, func(c *C, n int) func() {
		s := strings.Repeat([]string{"x", "中", " ", "%%", "("}[c.Intn(5)], n)
		return func() { f.Format(s+"%d", 1); f.Format(s, 1); f.Format(s) }
	}},
	{"format verbs", 100, func(c *C, n int) func() {
		s := strings.Repeat([]string{"%d ", "%v", "%5d|", "%-3v."}[c.Intn(4)], n)
		args := make([]any, n)
		for i := range args {
			args[i] = i
		}
		return func() { f.Format(s, args...) }
	}},
	{"format surplus", 100, func(c *C, n int) func() {
		args := make([]any, n)
		for i := range args {
			args[i] = i
		}
		return func() { f.Format("%d", args...); f.Format("none", args...) }
	}},
	{"normalise", 100, func(c *C, n int) func() {
		s := []string{"de_", "", "zz-", "x-", "en.", "en@"}[c.Intn(6)] + strings.Repeat([]string{"a", "-ab", "_DE", "."}[c.Intn(4)], n)
		return func() { locale.Normalize(s); t.Tag(s) }
	}},
	{"match", 20, func(c *C, n int) func() {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, c29locale(i*31+c.Intn(5)))
		}
		if c.Chance(1, 2) {
			return func() { t.Match(l, []string{"de_DE", "fr"}) }
		}
		return func() { t.Match([]string{"de", "en"}, l) }
	}},
	{"languages", 20, func(c *C, n int) func() {
		d := t.NewTranslation("x")
		ts := t.NewTranslations()
		ts.BindFS("x", fstest.MapFS{"a.po": {Data: []byte("msgid \"\"\nmsgstr \"Language: de\\n\"\n")}})
		d, _ = ts.Get("x")
		f := new(translator.File)
		for i := 0; i < n; i++ {
			d.AddOrReplace(c32tor{f, c29locale(i * 7)})
		}
		ts.SetDomain("x")
		return func() { ts.Locales(); ts.UsedLocale() }
	}},
	{"domains", 20, func(c *C, n int) func() {
		ts := t.NewTranslations()
		for i := 0; i < n; i++ {
			ts.BindFS(fmt.Sprint("d", i), fstest.MapFS{"a.po": {Data: []byte("msgid \"\"\nmsgstr \"Language: de\\n\"\n")}})
		}
		return func() { ts.Domains(); ts.D("d3").L("de").T("x"); ts.HasDomain("d5") }
	}},
	{"evaluate sums", 20, func(c *C, n int) func() {
		e := "n" + strings.Repeat([]string{"+n", "*1", "-n ", "+(n)", "|n", "&&n", "||0"}[c.Intn(7)], n)
		return func() { plurals.Eval(context.Background(), e, 3) }
	}},
}

// c32po is a catalog in PO text.
func c32po(c *C, n int) []byte {
	var b bytes.Buffer
	must(c32catalog("n!=1", n, c.Intn(5), c.Intn(200)).SaveAsPo(&b))
	return b.Bytes()
}

func c32lin(c *C) {
	o := c32linear[c.Index%len(c32linear)]
	seed := c.Int63()
	mk := func(n int) func() {
		c.Rand.Seed(seed) // the same choices for both sizes
		return o.mk(c, n)
	}
	ratio := []int{16, 64}[c.Index/len(c32linear)%2]
	small, large := mk(o.base), mk(o.base*ratio)
	c32compare(c, o.name+fmt.Sprint(" #", c.Index, ", times ", ratio), 20, 3, small, large, float64(ratio)*4, c32cost{30000, 20000})
}

// c32listed is a file system whose directories are listed without looking at all files.
type c32listed struct {
	fstest.MapFS
	dirs map[string][]os.DirEntry
}

func newListed(m fstest.MapFS) *c32listed {
	l := &c32listed{m, map[string][]os.DirEntry{}}
	seen := map[string]bool{}
	for name := range m {
		if i := strings.LastIndex(name, "/"); i >= 0 && !seen[name[:i]] {
			seen[name[:i]] = true
		}
	}
	dirs := []string{"."}
	for d := range seen {
		dirs = append(dirs, d)
	}
	for _, d := range dirs {
		es, err := m.ReadDir(d)
		must(err)
		sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
		l.dirs[d] = es
	}
	return l
}

func (l *c32listed) ReadDir(name string) ([]os.DirEntry, error) { return l.dirs[name], nil }

// c32commands are runs of xtemplate whose input has size n.
var c32commands = []struct {
	name string
	base int
	mk   func(c *C, n int, dir string) []string
}{
	{"calls", 400, func(c *C, n int, dir string) []string {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, []string{"{{T \"text %d\"}}\n", "<p>{{if .X}}{{N \"a %d\" \"b\" .N}}{{end}} text\n", "{{range .L}}{{(X \"c\" \"d %d\").F}}{{end}}"}[c.Intn(3)], i)
		}
		must(os.WriteFile(dir+"/a.tmpl", []byte(sb.String()), 0o644))
		return nil
	}},
	{"places", 400, func(c *C, n int, dir string) []string {
		must(os.WriteFile(dir+"/a.tmpl", []byte(strings.Repeat("{{T \"same\"}} and\n", n)), 0o644))
		return nil
	}},
	{"files", 30, func(c *C, n int, dir string) []string {
		for i := 0; i < n; i++ {
			must(os.WriteFile(fmt.Sprintf("%s/f%d.tmpl", dir, i), []byte(fmt.Sprintf("{{T \"text %d\"}}{{T \"all\"}}", i)), 0o644))
		}
		return nil
	}},
	{"text", 100000, func(c *C, n int, dir string) []string {
		must(os.WriteFile(dir+"/a.tmpl", []byte("{{T \"x\"}}"+strings.Repeat([]string{"text ", "\n", "{ ", "中"}[c.Intn(4)], n)+"{{T \"y\"}}"), 0o644))
		return nil
	}},
	{"literal", 20000, func(c *C, n int, dir string) []string {
		must(os.WriteFile(dir+"/a.tmpl", []byte("{{T `"+strings.Repeat([]string{"word ", "\n", "x", "\"", "中"}[c.Intn(5)], n)+"`}}"), 0o644))
		return nil
	}},
	{"keywords", 60, func(c *C, n int, dir string) []string {
		k := ""
		for i := 0; i < n; i++ {
			k += fmt.Sprintf(";K%d:1", i)
		}
		must(os.WriteFile(dir+"/a.tmpl", []byte(strings.Repeat("{{K3 \"a\"}}{{T \"b\"}}", 50)), 0o644))
		return []string{"-k", "T:1" + k}
	}},
	{"pipeline", 100, func(c *C, n int, dir string) []string {
		must(os.WriteFile(dir+"/a.tmpl", []byte("{{T \"a\""+strings.Repeat([]string{" | print", " (T \"b\")", " \"x\""}[c.Intn(3)], n)+"}}"), 0o644))
		return nil
	}},
	{"defines", 200, func(c *C, n int, dir string) []string {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "{{define \"d%d\"}}{{T \"x%d\"}}{{end}}", i, i)
		}
		must(os.WriteFile(dir+"/a.tmpl", []byte(sb.String()), 0o644))
		return nil
	}},
}

func c32command(c *C) {
	o := c32commands[c.Index%len(c32commands)]
	seed := c.Int63()
	cost := func(n int) (least float64) {
		dir := c.Dir()
		defer os.RemoveAll(dir)
		c.Rand.Seed(seed)
		args := o.mk(c, n, dir)
		if args == nil {
			args = []string{"-k", "T:1;N:1,2;X:1c,2"}
		}
		for i := 0; i < 3; i++ {
			cmd := exec.Command(os.Getenv("VERIF_XTEMPLATE"), append(args, "-i", "*.tmpl")...)
			cmd.Dir = dir
			cmd.Env = cleanEnv("GOMAXPROCS=1", "GOGC=off")
			out, err := cmd.CombinedOutput()
			if err != nil {
				c.Fail("extract", "xtemplate on %s of size %d: %v\n%.1000s", o.name, n, err, out)
			}
			t := float64(cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime())
			if i == 0 || t < least {
				least = t
			}
			c.Count("commands measured", 1)
		}
		return
	}
	ratio := []int{16, 64}[c.Index/len(c32commands)%2]
	none := cost(1) // starting up
	small, large := cost(o.base), cost(o.base*ratio)
	over := func() bool { return large-none > float64(4*ratio)*max(small-none, 0)+60e6 }
	for i := 0; i < 4 && over() && (i < 1 || large < 3e9); i++ {
		small, large = max(small, cost(o.base)), min(large, cost(o.base*ratio))
	}
	if over() {
		c.Fail("cost", "xtemplate, %s: size %d takes %.1f ms, size %d takes %.1f ms, starting up %.1f ms", o.name, o.base, small/1e6, o.base*ratio, large/1e6, none/1e6)
	}
	c.Distinct("command", o.name, fmt.Sprint(seed))
	c.Sample("%s: start %.1f ms, size %d %.1f ms, size %d %.1f ms", o.name, none/1e6, o.base, small/1e6, o.base*ratio, large/1e6)
}
