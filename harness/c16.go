package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"testing/fstest"
	"time"

	"github.com/youthlin/t"
	"github.com/youthlin/t/f"
	"github.com/youthlin/t/locale"
	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C16", Race: true,
		Rule:        "The harness and the repository are built with the race detector. Worlds (a global set, an own set and shared files, from PO, MO and AddEntry, with any plural rule) are loaded twice: programs of operations run alone on one copy give the expected answers, and then run from 4 to 16 goroutines released together on the other copy; 'pairs' drives every pair of operation kinds against each other in tight loops; 'hot' hammers the same few lookups of one file, one set and one rule from 8 goroutines in tight loops, every answer checked against a table made before; 'first' starts a fresh process whose very first use of the packages is concurrent. Answers are compared one by one, race reports are violations. The monitor takes only local clock readings, so it adds no happens-before edges; overlapping pairs of operations are computed from them afterwards. Non-trivial: distinct overlapping pairs (kind, kind, case).",
		Assumptions: []string{"GOMAXPROCS 2 to 8 on this machine; schedules are sampled, not enumerated", "the race detector sees a race only when both accesses happen in the run"},
		Sections: []Section{
			{Name: "storm", Quick: 300, Thorough: 3000, Fn: c16storm, Need: []string{"operations", "overlapping pairs"}},
			{Name: "pairs", Quick: c16npairs, Thorough: c16npairs * 12, Fn: c16pairs, Need: []string{"operations"}},
			{Name: "hot", Quick: 64, Thorough: 800, Fn: c16hot, Need: []string{"hot answers"}},
			{Name: "first", Quick: 150, Thorough: 600, Fn: c16first, Need: []string{"fresh processes"}},
		}})
	auxes["first-use"] = c16firstMain
}

// world is everything goroutines share.
type world struct {
	ts, global *t.Translations
	files      []*translator.File
	args       [][]any
	k          *Cat // catalog of ts
	src        worldSource
}

type worldSource struct {
	k, k2, k3 *Cat
	po, mo    []byte
	po2       []byte
	pot       []byte
}

func newSource(r *rand.Rand) worldSource {
	k, k2, k3 := catalog(r, 6+r.Intn(10)), catalog(r, 4), catalog(r, 4)
	// one message with verbs and a formula no table knows
	for _, x := range []*Cat{k, k2, k3} {
		if r.Intn(2) == 0 {
			x.NForms, x.Rule = 3, fmt.Sprintf("n %% %d == 1 ? 0 : n > %d && (n & 1) ? 1 : 2", 2+r.Intn(9), r.Intn(9))
			x.setHeader(r)
		}
		x.Msgs = append(x.Msgs, Msg{ID: "fmt", Str: "values %v and %v"}, Msg{Ctx: "c", ID: "one %d", ID2: "many %d", Plural: true, StrN: []string{"a %d", "b %d", "c %d", "d %d", "e %d", "f %d", "g %d", "h %d", "i %d"}[:x.NForms]})
	}
	s := worldSource{k: k, k2: k2, k3: k3}
	s.po = []byte(poPrint(r, k.all(), randomLayout(r)))
	s.mo = moWrite(r, k2.all(), randomMOLayout(r)).data
	s.po2 = []byte(poPrint(r, k3.all(), randomLayout(r)))
	s.pot = []byte("msgid \"\"\nmsgstr \"Language: de\\n\"\n\nmsgid \"a\"\nmsgstr \"\"\n\nmsgid \"b\"\nmsgid_plural \"c\"\nmsgstr[0] \"\"\nmsgstr[1] \"\"\n")
	return s
}

func newWorld(s worldSource) *world {
	w := &world{src: s, k: s.k}
	w.ts = t.NewTranslations()
	w.ts.BindFS("d", fstest.MapFS{"a.po": {Data: s.po}, "b.mo": {Data: s.mo}})
	w.ts.BindFS("e", fstest.MapFS{"c.po": {Data: s.po2}})
	w.ts.SetDomain("d")
	w.ts.SetLocale(s.k.Lang)
	w.global = t.NewTranslations()
	w.global.BindFS("default", fstest.MapFS{"a.po": {Data: s.po}, "c.po": {Data: s.po2}})
	w.global.SetLocale(s.k.Lang)
	p, _ := translator.ReadPo(s.po)
	m, _ := translator.ReadMo(s.mo)
	q, _ := translator.ReadPot(s.pot)
	b := new(translator.File)
	for _, x := range s.k3.Msgs {
		b.AddEntry(entryOf(x))
	}
	h := new(translator.File)
	for _, x := range append(append([]Msg(nil), s.k.Msgs...), s.k.all()[0]) {
		h.AddEntry(entryOf(x))
	}
	w.files = []*translator.File{p, m, q, b, h}
	for i := 0; i < 4; i++ {
		a := make([]any, 0, 6)
		for j := 0; j <= i; j++ {
			a = append(a, j*7)
		}
		w.args = append(w.args, a)
	}
	return w
}

func (w *world) msg(r *rand.Rand, k *Cat) Msg { return k.Msgs[r.Intn(len(k.Msgs))] }

func (w *world) cat(r *rand.Rand) *Cat { return []*Cat{w.src.k, w.src.k2, w.src.k3}[r.Intn(3)] }

func digest(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	return strconv.Itoa(len(b)) + "/" + strconv.FormatUint(h.Sum64(), 16)
}

func stateOf(h *t.Translations) string {
	return fmt.Sprint(h.Domain(), h.Locale(), h.SourceCodeLocale(), sorted(h.Domains()), h.Locales(), h.UsedLocale(), h.MostMatchLocale())
}

// c16ops are the operations goroutines may run at the same time. Their answers depend on the world and r only.
var c16ops = []struct {
	name string
	f    func(w *world, r *rand.Rand) string
}{
	{"ts.X", func(w *world, r *rand.Rand) string {
		m := w.msg(r, w.k)
		return w.ts.X(m.Ctx, m.ID) + w.ts.T("fmt", w.args[r.Intn(4)]...) + w.ts.X("nope", m.ID)
	}},
	{"ts.XN64", func(w *world, r *rand.Rand) string {
		m := w.msg(r, w.k)
		n := count(r)
		return w.ts.XN64(m.Ctx, m.ID, m.ID2, n) + w.ts.XN64("c", "one %d", "many %d", n, w.args[r.Intn(4)]...) + w.ts.N1("absent", 3)
	}},
	{"package lookups", func(w *world, r *rand.Rand) string {
		m := w.msg(r, w.k)
		n := r.Intn(30)
		a := w.args[r.Intn(4)]
		return t.T(m.ID) + t.X(m.Ctx, m.ID) + t.N("one %d", "many %d", n, a...) + t.XN("c", "one %d", "many %d", n, a...) + t.N1("x", n) + t.N1_64("x", 5) + t.N64("o", "p", int64(n)) + t.XN1("c", "one %d", n, a...) + t.XN1_64("c", "one %d", 2, a...) + t.XN64(m.Ctx, m.ID, m.ID2, int64(n))
	}},
	{"derive and reconfigure", func(w *world, r *rand.Rand) string {
		var h *t.Translations
		switch r.Intn(3) {
		case 0:
			h = w.ts.D([]string{"d", "e", "none"}[r.Intn(3)])
		case 1:
			h = w.ts.L(langPool[r.Intn(len(langPool))])
		default:
			h = w.ts.L(w.src.k3.Lang).D("e")
		}
		s := h.T("fmt", 1, 2)
		for i := 0; i < 4; i++ {
			switch r.Intn(7) {
			case 0:
				h.BindFS("d", fstest.MapFS{"z.mo": {Data: w.src.mo}})
			case 1:
				s += fmt.Sprint(h.RemoveDomain("d"))
			case 2:
				h.ClearDomains()
			case 3:
				h.SetLocale(langPool[r.Intn(len(langPool))])
			case 4:
				h.SetDomain("e")
			case 5:
				h.SetSourceCodeLocale("de")
			default:
				h = h.D("d")
			}
			s += h.T("fmt", 1, 2) + h.XN64("c", "one %d", "many %d", 5, 5)
		}
		return s + stateOf(h)
	}},
	{"global copy and context", func(w *world, r *rand.Rand) string {
		h := t.Global()
		h.SetLocale("fr")
		h.BindFS("x", fstest.MapFS{"z.po": {Data: w.src.po2}})
		ctx := t.SetCtxDomain(t.SetCtxLocale(context.Background(), w.src.k.Lang), "default")
		g := t.WithContext(ctx)
		s := g.T("fmt", 1, 2)
		g.ClearDomains()
		return s + stateOf(h) + stateOf(g) + t.L("de").Locale() + t.D("e").Domain()
	}},
	{"languages", func(w *world, r *rand.Rand) string {
		tr, ok := w.ts.Get("d")
		_, ok2 := tr.Get(w.ts.Locale())
		return stateOf(w.ts) + fmt.Sprint(ok, ok2, t.Locale(), t.Locales(), t.UsedLocale(), t.MostMatchLocale(), t.Domain(), sorted(t.Domains()), t.HasDomain("default"), t.SourceCodeLocale(), w.ts.HasDomain("e"), w.ts.GetOrNoop("zz").GetOrNoop("x").Lang())
	}},
	{"negotiate", func(w *world, r *rand.Rand) string {
		req := &http.Request{Header: http.Header{}}
		req.Header.Set("Accept-Language", c15tags[r.Intn(len(c15tags))]+",xx;q=0.5,en;q=0.3")
		if r.Intn(3) == 0 {
			req.AddCookie(&http.Cookie{Name: "lang", Value: "zz"})
		}
		tag, i, cf := t.Match(c15tags[:1+r.Intn(len(c15tags))], []string{c15tags[r.Intn(len(c15tags))]})
		return t.GetUserLang(req) + fmt.Sprint(tag, i, cf)
	}},
	{"tags", func(w *world, r *rand.Rand) string {
		s := c15tags[r.Intn(len(c15tags))]
		fresh := fmt.Sprintf("%s-x-%d", s[:2], r.Intn(100000))
		return fmt.Sprint(t.Tag(s), t.Tag(fresh), t.Tags([]string{s, fresh}), locale.Normalize(s), locale.Normalize(fresh+".UTF-8"), locale.GetDefault())
	}},
	{"file lookups", func(w *world, r *rand.Rand) string {
		fl := w.files[r.Intn(len(w.files))]
		m := w.msg(r, w.cat(r))
		l, ok := fl.GetHeader("Plural-Forms")
		return fl.X(m.Ctx, m.ID) + fl.XN64(m.Ctx, m.ID, m.ID2, count(r)) + fl.XN64("c", "one %d", "many %d", count(r), w.args[1]...) + fl.Lang() + l + fmt.Sprint(ok)
	}},
	{"list", func(w *world, r *rand.Rand) string {
		return digest([]byte(fingerprint(w.files[r.Intn(len(w.files))])))
	}},
	{"SaveAsPo", func(w *world, r *rand.Rand) string {
		var b bytes.Buffer
		err := w.files[r.Intn(len(w.files))].SaveAsPo(&b)
		return digest(b.Bytes()) + fmt.Sprint(err)
	}},
	{"SaveAsPot", func(w *world, r *rand.Rand) string {
		var b bytes.Buffer
		err := w.files[r.Intn(len(w.files))].SaveAsPot(&b)
		return digest(b.Bytes()) + fmt.Sprint(err)
	}},
	{"SaveAsMo", func(w *world, r *rand.Rand) string {
		var b bytes.Buffer
		err := w.files[r.Intn(len(w.files))].SaveAsMo(&b)
		return digest(b.Bytes()) + fmt.Sprint(err)
	}},
	{"Eval", func(w *world, r *rand.Rand) string {
		wk := wellKnown[r.Intn(len(wellKnown))]
		v, err := plurals.Eval(context.Background(), wk.rule, count(r))
		v2, err2 := plurals.Eval(context.Background(), fmt.Sprintf("(n + %d) %% 3 ? 1 : n << 1 > 4 || !n", r.Intn(5)), count(r))
		return fmt.Sprint(v, err != nil, v2, err2 != nil)
	}},
	{"Eval malformed", func(w *world, r *rand.Rand) string {
		s := ""
		for _, e := range []string{"n $ 1", "n +", "((n", "1 / (n - n)", "n ? 1", "", "@@"}[r.Intn(7):] {
			_, err := plurals.Eval(context.Background(), e, count(r))
			s += fmt.Sprint(err != nil)
			break
		}
		return s
	}},
	{"ReadPo", func(w *world, r *rand.Rand) string {
		fl, err := translator.ReadPo([][]byte{w.src.po, w.src.po2, []byte("msgid \"x")}[r.Intn(3)])
		if err != nil {
			return "error"
		}
		return fl.XN64("c", "one %d", "many %d", count(r), 4) + digest([]byte(fingerprint(fl)))
	}},
	{"ReadMo", func(w *world, r *rand.Rand) string {
		fl, err := translator.ReadMo([][]byte{w.src.mo, w.src.mo[:9]}[r.Intn(2)])
		if err != nil {
			return "error"
		}
		return digest([]byte(fingerprint(fl)))
	}},
	{"ReadPot", func(w *world, r *rand.Rand) string {
		fl, err := translator.ReadPot(w.src.pot)
		if err != nil {
			return "error"
		}
		return digest([]byte(fingerprint(fl)))
	}},
	{"load a new set", func(w *world, r *rand.Rand) string {
		ts := t.NewTranslations()
		ts.BindFS("d", fstest.MapFS{"a.po": {Data: w.src.po}, "x/b.mo": {Data: w.src.mo}, "bad.po": {Data: []byte("garbage")}})
		ts.SetDomain("d")
		ts.SetLocale(w.src.k.Lang)
		m := w.msg(r, w.k)
		return ts.X(m.Ctx, m.ID) + ts.XN64("c", "one %d", "many %d", int64(r.Intn(20)), w.args[0]...) + stateOf(ts)
	}},
	{"Format", func(w *world, r *rand.Rand) string {
		a := w.args[r.Intn(4)]
		return f.Format("%v %v", a...) + f.Format("%v %d%%", a...) + f.Format("none", a...) + f.DefaultPlural("%d", "%d s", int64(r.Intn(3)), a...) + f.Format("x %", a...)
	}},
	{"no-op and marks", func(w *world, r *rand.Rand) string {
		n := t.NoopTranslator()
		a, b := t.Mark.N("a", "b")
		return n.X("c", "x %v", w.args[2]...) + n.XN64("c", "x %v", "y %v", int64(r.Intn(3)), w.args[3]...) + t.Mark.T("q") + a + b
	}},
}

var c16npairs = len(c16ops) * (len(c16ops) + 1) / 2

type step struct {
	op         int
	seed       int64
	want, got  string
	begin, end time.Duration
}

// runSteps runs the programs at once, each from its goroutine.
func runSteps(w *world, progs [][]step, delay bool) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	base := time.Now()
	for g := range progs {
		wg.Add(1)
		go func(p []step) {
			defer wg.Done()
			r := rand.New(rand.NewSource(int64(g)))
			<-start
			for i := range p {
				if delay {
					switch r.Intn(6) {
					case 0:
						runtime.Gosched()
					case 1:
						time.Sleep(time.Duration(r.Intn(50)) * time.Microsecond)
					}
				}
				s := &p[i]
				s.begin = time.Since(base)
				s.got = c16ops[s.op].f(w, rand.New(rand.NewSource(s.seed)))
				s.end = time.Since(base)
			}
		}(progs[g])
	}
	close(start)
	wg.Wait()
}

// c16run gets the sequential answers, runs the programs together and compares.
func c16run(c *C, progs [][]step) {
	src := newSource(c.Rand)
	defer t.SetGlobal(t.NewTranslations())
	together := func() {
		w := newWorld(src) // never used before
		t.SetGlobal(w.global)
		old := runtime.GOMAXPROCS([]int{8, 8, 4, 2}[c.Intn(4)])
		runSteps(w, progs, c.Intn(2) == 0)
		runtime.GOMAXPROCS(old)
	}
	alone := func() {
		w := newWorld(src)
		t.SetGlobal(w.global)
		for g := range progs {
			for i := range progs[g] {
				s := &progs[g][i]
				s.want = c16ops[s.op].f(w, rand.New(rand.NewSource(s.seed)))
			}
		}
	}
	if c.Intn(2) == 0 {
		together()
		alone()
	} else {
		alone()
		together()
	}
	n := 0
	for g := range progs {
		for i := range progs[g] {
			s := &progs[g][i]
			n++
			if s.got != s.want {
				c.Fail("answer", "goroutine %d step %d: %s(seed %d) gives %.1500q together and %.1500q alone", g, i, c16ops[s.op].name, s.seed, s.got, s.want)
			}
		}
	}
	c.Count("operations", n)
	c16overlaps(c, progs)
}

// c16overlaps records which pairs of operations were in progress at the same time.
func c16overlaps(c *C, progs [][]step) {
	var all []step
	who := map[int]int{}
	for g := range progs {
		for _, s := range progs[g] {
			who[len(all)] = g
			all = append(all, s)
		}
	}
	idx := make([]int, len(all))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return all[idx[a]].begin < all[idx[b]].begin })
	pairs := 0
	for i := range idx {
		a := all[idx[i]]
		for j := i + 1; j < len(idx) && all[idx[j]].begin < a.end; j++ {
			b := all[idx[j]]
			if who[idx[i]] == who[idx[j]] {
				continue
			}
			pairs++
			x, y := min(a.op, b.op), max(a.op, b.op)
			c.Distinct(c.Section.Name, c16ops[x].name, c16ops[y].name, fmt.Sprint(c.Index))
		}
	}
	c.Count("overlapping pairs", pairs)
}

func c16storm(c *C) {
	progs := make([][]step, 4+c.Intn(13))
	for g := range progs {
		for i, n := 0, 10+c.Intn(30); i < n; i++ {
			progs[g] = append(progs[g], step{op: c.Intn(len(c16ops)), seed: c.Int63()})
		}
	}
	c16run(c, progs)
}

func c16pairs(c *C) {
	k := c.Index % c16npairs
	a := 0
	for k >= len(c16ops)-a {
		k -= len(c16ops) - a
		a++
	}
	b := a + k
	progs := make([][]step, 6)
	seeds := []int64{c.Int63(), c.Int63(), c.Int63()}
	for g := range progs {
		op := a
		if g%2 == 1 {
			op = b
		}
		for i := 0; i < 12; i++ {
			seed := seeds[c.Intn(3)]
			if c.Intn(3) == 0 {
				seed = c.Int63()
			}
			progs[g] = append(progs[g], step{op: op, seed: seed})
		}
	}
	c16run(c, progs)
}

// c16first starts a process whose first use of everything is concurrent.
func c16first(c *C) {
	dir := c.Dir()
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	seed := c.Int63()
	cmd := exec.Command(self, "aux", "first-use", fmt.Sprint(seed))
	cmd.Env = cleanEnv("GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=30 log_path="+filepath.Join(dir, "race"), "GOTRACEBACK=all")
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err := cmd.Run()
	ms, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, m := range ms {
		b, _ := os.ReadFile(m)
		if bytes.Contains(b, []byte("DATA RACE")) {
			c.Report("data race", "first use in a process (seed %d): %.4000s", seed, b)
		}
	}
	var bad []string
	if err != nil || json.Unmarshal(ob.Bytes(), &bad) != nil {
		c.Fail("crash", "first use in a process (seed %d): %v %.4000s", seed, err, eb.String())
	}
	if len(bad) > 0 {
		c.Fail("answer", "first use in a process (seed %d): %q", seed, bad)
	}
	c.Count("fresh processes", 1)
	c.Distinct("first", fmt.Sprint(seed))
}

func c16firstMain(args []string) {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	r := rand.New(rand.NewSource(seed))
	src := newSource(r)
	bad := []string{}
	one := -1
	if r.Intn(2) == 0 {
		one = r.Intn(len(c16ops))
	}
	progs := make([][]step, 8)
	for g := range progs {
		for i := 0; i < 5; i++ {
			op := r.Intn(len(c16ops))
			if i == 0 && one >= 0 { // everybody starts with the same
				op = one
			}
			progs[g] = append(progs[g], step{op: op, seed: r.Int63()})
		}
	}
	if r.Intn(2) == 0 { // every goroutine loads its own world first
		var wg sync.WaitGroup
		for g := range progs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w := newWorld(src)
				for i := range progs[g] {
					s := &progs[g][i]
					if n := c16ops[s.op].name; n != "package lookups" && n != "global copy and context" && n != "languages" && n != "negotiate" {
						s.got = c16ops[s.op].f(w, rand.New(rand.NewSource(s.seed)))
					} else {
						s.op, s.got = 0, c16ops[0].f(w, rand.New(rand.NewSource(s.seed)))
					}
				}
			}()
		}
		wg.Wait()
	} else {
		w := newWorld(src)
		t.SetGlobal(w.global)
		runSteps(w, progs, false)
	}
	w := newWorld(src)
	t.SetGlobal(w.global)
	for g := range progs {
		for _, s := range progs[g] {
			if want := c16ops[s.op].f(w, rand.New(rand.NewSource(s.seed))); want != s.got {
				bad = append(bad, fmt.Sprintf("%s gives %.300q at first, %.300q later", c16ops[s.op].name, s.got, want))
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(bad)
}

// c16hot asks one object the same few questions from many goroutines, as fast as it goes.
func c16hot(c *C) {
	src := newSource(c.Rand)
	w := newWorld(src)
	t.SetGlobal(w.global)
	defer t.SetGlobal(t.NewTranslations())
	type question struct {
		name, want string
		f          func() string
	}
	fl := w.files[c.Intn(len(w.files))]
	rule := wellKnown[c.Intn(len(wellKnown))].rule
	var qs []question
	a := w.args[1]
	for i, n := 0, 3+c.Intn(4); i < n; i++ {
		m, n := w.msg(c.Rand, w.k), count(c.Rand)
		if c.Intn(2) == 0 {
			n = int64(c.Intn(30))
		}
		all := []question{
			{name: "File.XN64", f: func() string { return fl.XN64("c", "one %d", "many %d", n, a...) }},
			{name: "Translations.XN64", f: func() string { return w.ts.XN64("c", "one %d", "many %d", n, a...) }},
			{name: "t.XN64", f: func() string { return t.XN64("c", "one %d", "many %d", n, a...) }},
			{name: "Eval", f: func() string {
				v, err := plurals.Eval(context.Background(), rule, n)
				return fmt.Sprint(v, err != nil)
			}},
			{name: "File.X", f: func() string { return fl.X(m.Ctx, m.ID) }},
			{name: "Translations.X", f: func() string { return w.ts.X(m.Ctx, m.ID) }},
			{name: "Translations.L", f: func() string { return w.ts.L(langPool[i]).Locale() }},
			{name: "Format", f: func() string { return f.Format("%v of %v", w.args[i%4]...) }},
			{name: "Tag", f: func() string { return fmt.Sprint(t.Tag(c15tags[i])) }},
			{name: "Normalize", f: func() string { return locale.Normalize(c15tags[i]) }},
		}
		k := c.Intn(len(all))
		if c.Intn(2) == 0 {
			k = c.Index % 4
		}
		qs = append(qs, all[k])
	}
	for i := range qs {
		qs[i].want = qs[i].f()
	}
	const goroutines = 8
	rounds := 1500
	if c.Thorough() {
		rounds = 6000
	}
	bad := make([]string, goroutines)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < goroutines; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			x := uint32(g*2654435761 + 1)
			for i := 0; i < rounds; i++ {
				x ^= x << 13
				x ^= x >> 17
				x ^= x << 5
				q := &qs[x%uint32(len(qs))]
				if got := q.f(); got != q.want {
					bad[g] = fmt.Sprintf("%s gives %.500q together and %.500q alone", q.name, got, q.want)
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for g, b := range bad {
		if b != "" {
			c.Fail("answer", "goroutine %d: %s", g, b)
		}
	}
	c.Count("hot answers", goroutines*rounds)
	for _, q := range qs {
		c.Distinct("hot", q.name, fmt.Sprint(c.Index))
	}
}
