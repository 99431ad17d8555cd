package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"testing/fstest"
	"time"

	"github.com/youthlin/t"
	"github.com/youthlin/t/f"
	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
)

func init() {
	auxes["cold"] = c29coldMain
	register(&Property{ID: "C29",
		Rule:        "The worker process itself is observed. An operation is performed a few hundred times to warm up, then many times, each time with inputs never seen before (texts, contexts, counts, arguments, locales, headers, expressions, catalogs, files); the live heap (after garbage collections), the number of goroutines and the number of open files are read before and after. The operation and the size of its inputs are drawn at random; everything the caller made is dropped. Memory retained must stay below an eighth of what the inputs held, and below a fixed slack; goroutines and open files must not grow. cold: a fresh process performs one operation 300 times with inputs of 64 KB, or with short slices of strings of 64 KB, without warming up: a small number of large inputs must not be remembered either. Operations: every form of lookup that hits, misses and fails, through sets, handles, contexts and catalogs; formatting; plural evaluation of new counts, new expressions and broken ones; normalising, selecting and negotiating languages; language tags; reading, saving, rebinding and removing catalogs from memory and from real directories with unreadable and damaged files. Non-trivial: operation and size.",
		Assumptions: []string{"the first 2000 distinct short inputs of an operation may be remembered (a bounded cache)"},
		Sections: []Section{
			{Name: "cold", Quick: 100, Thorough: 2000, Fn: c29cold, Need: []string{"fresh processes", "huge inputs", "slices of huge inputs"}},
			{Name: "retained", Quick: 150, Thorough: 3000, Fn: c29, Need: []string{"operations", "heap readings", "open files compared", "goroutines compared"}},
		}})
}

// c29heap is the live heap.
func c29heap() int64 {
	runtime.GC()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func c29fds() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		inconclusive("%v", err)
	}
	return len(es)
}

type c29op struct {
	name string
	cost int // how much slower than a lookup
	warm int // how often before the first reading
	fn   func(i int, s string)
}

func c29ops(c *C, dir string) []c29op {
	k := catalog(c.Rand, 20)
	for i := range k.Header {
		if k.Header[i][0] == "Language" {
			k.Header[i][1] = "de_DE"
		}
	}
	k.Lang = "de_DE"
	k.Forms = ""
	rule := []string{"n%7==3?1:n*2", "n!=1", "n%3", "1/0", "n ==", "(n & 1) + (n > 5)"}[c.Intn(6)]
	po := func(s string, i int) []byte {
		rule := rule
		switch i % 4 { // rules never seen before, good and malformed
		case 1:
			rule = fmt.Sprintf("(%s) * 1 + 0 * %d", rule, i)
		case 2:
			rule = fmt.Sprintf("n > %d %s", i, strings.ReplaceAll(s, "\"", ""))
		}
		return []byte(fmt.Sprintf("msgid \"\"\nmsgstr \"Language: de\\nPlural-Forms: nplurals=3; plural=%s;\\nX-Note: %s\\n\"\n\nmsgid \"apple\"\nmsgid_plural \"apples %s\"\nmsgstr[0] \"eins\"\nmsgstr[1] \"zwei %%d %s\"\nmsgstr[2] \"drei\"\n\nmsgid \"%s\"\nmsgstr \"%s %%v\"\n", rule, s, s, s, s, s))
	}
	file, err := translator.ReadPo(po("note", 0))
	if err != nil {
		inconclusive("%v", err)
	}
	var mo bytes.Buffer
	must(file.SaveAsMo(&mo))
	ts := t.NewTranslations()
	ts.BindFS("dom", fstest.MapFS{"a.po": {Data: po("x", 0)}})
	ts.SetDomain("dom")
	ts.SetLocale("de")
	t.SetGlobal(ts)
	bare := t.NewTranslations()
	away := ts.D("never bound")
	own, ok := ts.Get("dom")
	if !ok {
		inconclusive("no domain dom")
	}
	hollow := t.NewTranslation("hollow")
	lookup := func(name string, l forms) []c29op {
		return []c29op{
			{name + " misses", 1, 2000, func(i int, s string) {
				l.T(s)
				l.X(s, "apple")
				l.X("", s, i)
				l.XN64(s, s, s+"s", int64(i))
			}},
			{name + " counts", 12, 2000, func(i int, s string) {
				l.N("apple", "apples", i)
				l.N64("apple", "apples", int64(i)*1e9, s)
				l.N1("apple", i, s)
				l.XN("", "apple", s, i, s)
			}},
			{name + " arguments", 1, 2000, func(i int, s string) {
				l.T("note", s, i, []byte(s))
				l.X("", "note", &s)
				l.T("%s %d %[9]d %", s, i)
			}},
		}
	}
	ops := append(lookup("method", formsOf(ts)), lookup("package", packageForms)...)
	ops = append(ops, lookup("handle", formsOf(ts.D("dom").L("de_DE")))...)
	ops = append(ops, []c29op{
		{"catalog", 10, 2000, func(i int, s string) {
			file.X(s, s, i)
			file.X("", "note", s)
			file.XN64(s, s, s, int64(i))
			file.XN64("", "apple", s, int64(i), s)
			file.GetHeader(s)
		}},
		{"format", 1, 2000, func(i int, s string) {
			f.Format(s, i)
			f.Format("%s %v %!", s, &s)
			f.DefaultPlural(s, s, int64(i), i)
		}},
		{"handles", 2, 2000, func(i int, s string) {
			ts.D(s).T("x")
			ts.L(s).T("x")
			t.D(s).L(s).N("apple", s, i)
			ctx, _ := context.WithCancel(context.Background())
			h := t.WithContext(t.SetCtxDomain(t.SetCtxLocale(ctx, s), s))
			h.T("x")
			h.SetDomain(s + "2")
			h.BindFS(s, fstest.MapFS{"a.po": {Data: po("y", i)}})
			h.HasDomain(s)
			h.RemoveDomain(s)
			t.Global().SetLocale(s)
		}},
		{"bare set", 2, 2000, func(i int, s string) {
			bare.L(s).T(s)
			bare.D(s).L("x"+s).N(s, s, i)
			bare.T(s)
			bare.SetLocale(s)
			bare.SetDomain(s)
			bare.HasDomain(s)
			bare.MostMatchLocale()
			bare.RemoveDomain(s)
		}},
		{"domain never bound", 2, 2000, func(i int, s string) {
			h := away.L(s)
			h.T(s)
			h.D(s).XN(s, s, s, i)
			h.SetDomain(s)
			h.Locales()
			h.MostMatchLocale()
			away.D("dom").L(s).T("note", s)
		}},
		{"own domain object", 2, 2000, func(i int, s string) {
			own.Get(s)
			own.GetOrNoop(s).X(s, s)
			hollow.GetOrNoop(s).XN64(s, s, s, int64(i))
			hollow.Get(s)
		}},
		{"locales", 2, 2000, func(i int, s string) {
			h := ts.D("dom")
			h.SetLocale(s)
			h.SetLocale(fmt.Sprintf("x%d_%s", i, s))
			h.SetSourceCodeLocale(s)
			h.UsedLocale()
			h.Locales()
			h.Domains()
		}},
		{"most match", 20, 8000, func(i int, s string) {
			h := ts.L(c29locale(i))
			h.MostMatchLocale()
			h.SetSourceCodeLocale(c29locale(i * 7))
			h.MostMatchLocale()
		}},
		{"match", 10, 2500, func(i int, s string) {
			t.Match([]string{"en", "de"}, []string{s})
			t.Match([]string{"en", "zh-x-" + fmt.Sprint(i)}, []string{fmt.Sprintf("zh-x-%d", i), "de-" + s})
		}},
		{"tags", 2, 2500, func(i int, s string) {
			t.Tag(s)
			t.Tags([]string{s + "1", fmt.Sprintf("en-x-%d", i)})
		}},
		{"negotiation", 25, 2000, func(i int, s string) {
			q, _ := http.NewRequest("GET", "/", nil)
			q.Header.Set("Accept-Language", []string{s, fmt.Sprintf("zz-x-%d,de;q=0.5", i), "de," + s, fmt.Sprintf("en-x-n%d;q=0.3,fr", i)}[i&3])
			if i&7 == 0 {
				q.Header.Set("Cookie", "lang="+fmt.Sprint(i))
			}
			t.GetUserLang(q)
			t.GetUserLang(q, t.WithCookieName(fmt.Sprint("c", i)))
		}},
		{"evaluate", 25, 2000, func(i int, s string) {
			ctx, _ := context.WithCancel(context.WithValue(context.Background(), c18key(s), s)) // never cancelled, just dropped
			plurals.Eval(ctx, rule, int64(i))
			plurals.Eval(ctx, "n % 10 == 1 && n % 100 != 11 ? 0 : 1 ", int64(i))
		}},
		{"evaluate new expressions", 60, 3000, func(i int, s string) {
			plurals.Eval(context.Background(), fmt.Sprintf("n %% %d == %d ? %d : n + %d", i+1, i%9, i%5, i), int64(i))
			plurals.Eval(context.Background(), fmt.Sprintf("n %% %d == ", i), int64(i))
			plurals.Eval(context.Background(), s, int64(i))
		}},
		{"read po", 15, 2000, func(i int, s string) {
			x, err := translator.ReadPo(po(s, i))
			if err == nil {
				x.XN64("", "apple", "", int64(i))
			}
			translator.ReadPot(po(s, i))
			translator.ReadPo(append(po(s, i), "msgid \"open"...))
			translator.ReadMo([]byte(s))
		}},
		{"save and read", 25, 2000, func(i int, s string) {
			x := new(translator.File)
			x.AddEntry(&translator.Entry{MsgStr: "Language: de\nX-A: " + s + "\n"})
			x.AddEntry(&translator.Entry{MsgID: s, MsgStr: s, MsgCmts: []string{"#: " + oneLine(s)}})
			var a, b, d bytes.Buffer
			must(x.SaveAsMo(&a))
			must(x.SaveAsPo(&b))
			must(x.SaveAsPot(&d))
			translator.ReadMo(a.Bytes())
			translator.ReadMo(a.Bytes()[:a.Len()/2])
		}},
		{"rebind", 20, 2000, func(i int, s string) {
			ts.BindFS("dom", fstest.MapFS{"a.po": {Data: po(s, i)}, "b/c.po": {Data: []byte(s)}, "d.mo": {Data: mo.Bytes()}})
			ts.T(s)
			ts.BindFS("new"+s, fstest.MapFS{"a.po": {Data: po(s, i)}})
			ts.RemoveDomain("new" + s)
			if i%16 == 0 {
				ts.ClearDomains()
			}
			ts.SetDomain("dom")
		}},
		{"domain", 15, 2000, func(i int, s string) {
			tr := t.NewTranslation(s)
			tr.LoadPo(po(s, i))
			tr.LoadPo([]byte(s))
			tr.LoadMo(mo.Bytes())
			tr.GetOrNoop(s).X(s, s)
			if own, ok := ts.Get("dom"); ok {
				own.LoadPo(po(s, i))
				own.AddOrReplace(c22tor{"de", s})
				own.Get(s)
			}
		}},
		{"bind directory", 300, 200, func(i int, s string) {
			must(os.WriteFile(filepath.Join(dir, "tree", "x.po"), po(s, i), 0o644))
			ts.BindFS("dom", os.DirFS(filepath.Join(dir, "tree")))
			t.Bind("real", filepath.Join(dir, "tree"))
			t.Bind("real", filepath.Join(dir, "tree", "x.po"))
			t.Bind("real", filepath.Join(dir, "tree", "bad.po"))
			t.Bind("real"+fmt.Sprint(i), filepath.Join(dir, "tree", "missing"))
			t.Load(filepath.Join(dir, "tree", "sub"))
			t.SetDomain("dom")
		}},
	}...)
	return ops
}

// c29locale makes a different locale of a language and region for every number.
func c29locale(i int) string {
	if i < 0 {
		i = -i
	}
	i %= 26 * 26 * 26 * 26
	return fmt.Sprintf("%c%c_%c%c", 'a'+i%26, 'a'+i/26%26, 'A'+i/676%26, 'A'+i/17576%26)
}

func c29(c *C) {
	dir := c.Dir()
	defer os.RemoveAll(dir)
	c29dir(dir)
	defer t.SetGlobal(t.NewTranslations())
	ops := c29ops(c, dir)
	o := ops[c.Index%len(ops)]
	n := 12000 / o.cost
	if n < 100 {
		n = 100
	}
	if o.cost > 1 && o.cost < 100 && n < 1500 {
		n = 1500
	}
	if c.Thorough() {
		n *= 4
	}
	size := []int{40, 200, 1000, 1000, 4000}[c.Intn(5)]
	if o.cost > 5 && size > 1000 {
		size = 1000
	}
	pad := strings.Repeat([]string{"y", "xy ", "中", "-ab", "_", "abcdefgh-"}[c.Intn(6)], size)[:size]
	at := 0
	step := func(n int) {
		for i := 0; i < n; i++ {
			at++
			o.fn(at, fmt.Sprintf("%c%d%s", 'a'+at%26, at, pad))
		}
	}
	step(o.warm)
	before, g0, fd0 := c29heap(), runtime.NumGoroutine(), c29fds()
	if o.name == "bind directory" { // collecting garbage would close forgotten files
		old := debug.SetGCPercent(-1)
		step(100)
		fd := c29fds()
		debug.SetGCPercent(old)
		if fd > fd0 {
			c.Fail("open files", "%s: %d open files before, %d after 100 operations", o.name, fd0, fd)
		}
		c.Count("open files compared", 1)
	}
	step(n)
	after := c29heap()
	limit := int64(n*size/8 + 300_000)
	if least := int64(n*40 + 200_000); o.name == "most match" && limit > least {
		limit = least
	}
	if after-before > limit {
		// once more, in case something grew that is not ours
		before = c29heap()
		step(n)
		after = c29heap()
		if after-before > limit {
			c.Fail("retained", "%s: %d operations with inputs of %d bytes retain %d bytes (allowed: %d)", o.name, n, size, after-before, limit)
		}
	}
	c.Count("heap readings", 2)
	c.Count("operations", n+o.warm)
	c.Count("op: "+o.name, n)
	for i := 0; i < 200 && (runtime.NumGoroutine() > g0 || c29fds() > fd0); i++ {
		time.Sleep(10 * time.Millisecond) // the collector may still be cleaning up
	}
	if g := runtime.NumGoroutine(); g > g0 {
		c.Fail("goroutines", "%s: %d goroutines before, %d after", o.name, g0, g)
	}
	c.Count("goroutines compared", 1)
	if fd := c29fds(); fd > fd0 {
		c.Fail("open files", "%s: %d open files before, %d after", o.name, fd0, fd)
	}
	c.Count("open files compared", 1)
	c.Distinct(fmt.Sprint(o.name, size))
}

// c29dir makes the directory the operations load from.
func c29dir(dir string) {
	must(os.MkdirAll(filepath.Join(dir, "tree", "sub"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "tree", "bad.po"), []byte("msgid \"open\n"), 0o644))
	must(os.WriteFile(filepath.Join(dir, "tree", "bad.mo"), []byte("\xde\x12\x04\x95"), 0o644))
	must(os.Symlink("nowhere", filepath.Join(dir, "tree", "gone.po")))
	must(os.WriteFile(filepath.Join(dir, "tree", "sub", "y.po"), []byte("msgid \"\"\nmsgstr \"Language: fr\\n\"\n"), 0o644))
}

const c29huge = 64 << 10

// c29cold runs one operation in a fresh process, which has remembered nothing yet.
func c29cold(c *C) {
	dir := c.Dir()
	defer os.RemoveAll(dir)
	c29dir(dir)
	self, _ := os.Executable()
	mode := []string{"huge", "slice"}[c.Index%2]
	seed := c.Int63()
	cmd := exec.Command(self, "aux", "cold", fmt.Sprint(seed), fmt.Sprint(c.Index/2), mode, dir)
	cmd.Env = cleanEnv("GOTRACEBACK=all")
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err := cmd.Run()
	var name string
	var n, kept int64
	if _, e := fmt.Sscanf(ob.String(), "%q %d %d", &name, &n, &kept); e != nil || err != nil {
		c.Fail("crash", "operation %d with %s inputs in a fresh process (seed %d): %v %.4000s", c.Index/2, mode, seed, err, eb.String())
	}
	if limit := n*c29huge/8 + 1<<20; kept > limit {
		c.Fail("retained", "%s in a fresh process: %d operations with %s inputs of %d bytes retain %d bytes (allowed: %d)", name, n, mode, c29huge, kept, limit)
	}
	c.Count("fresh processes", 1)
	c.Count(map[string]string{"huge": "huge inputs", "slice": "slices of huge inputs"}[mode], int(n))
	c.Distinct("cold", name, mode)
}

func c29coldMain(args []string) {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	which, _ := strconv.Atoi(args[1])
	c := &C{Rand: rand.New(rand.NewSource(seed))}
	ops := c29ops(c, args[3])
	o := ops[which%len(ops)]
	n := 300
	if o.cost >= 100 {
		n = 100
	}
	for i := 0; i < 3; i++ {
		o.fn(i, fmt.Sprintf("w%d", i))
	}
	pad := strings.Repeat([]string{"y", "xy ", "-ab", "_", "abcdefgh-"}[c.Intn(5)], c29huge)[:c29huge]
	before := c29heap()
	start := time.Now()
	for i := 0; i < n; i++ {
		if i >= 60 && time.Since(start) > 3*time.Second {
			n = i
			break
		}
		s := fmt.Sprintf("%c%c%c-%c%c%s", 'a'+i%26, 'a'+i/26%26, 'a'+i%7, 'A'+i%26, 'A'+i/3%26, pad)
		if args[2] == "slice" {
			s = s[:[]int{2, 3, 6, 40}[i%4]]
		}
		o.fn(i+10, s)
	}
	fmt.Printf("%q %d %d\n", o.name, n, c29heap()-before)
}
