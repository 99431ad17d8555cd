package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io/fs"
	"log"
	"log/slog"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing/fstest"
	"time"

	"github.com/youthlin/t"
	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
)

func init() {
	auxes["silent"] = c31main
	register(&Property{ID: "C31",
		Rule:        "A fresh process with files as standard streams, an own working, home and temporary directory and a directory tree of good, damaged, unreadable and foreign files performs hundreds of random operations of the library: lookups, evaluations of good, malformed, failing and huge expressions, formatting, normalising, negotiating, reading mutated bytes, saving to good and failing writers, binding trees, files and broken file systems, deriving handles. After every operation the lengths of standard output and error are read; at the end the position of standard input, the environment, the working directory, umask, signal dispositions, flags, loggers, GOMAXPROCS and the collector's and stack's limits, the standard library's default clients and time zone, goroutines, child processes, open files, and content, mode and modification time of every file in every directory are compared with those before. Evaluations that are asked to explain themselves must give the same value and error, print on standard output only, and evaluations that are not must stay silent in between. Non-trivial: distinct (operation, outcome).",
		Assumptions: []string{"access times of files are not judged", "go-locale reads /etc/locale.conf when no variable names a locale and leaves it open until it is collected; that file is not counted"},
		Sections: []Section{
			{Name: "effects", Quick: 120, Thorough: 2500, Fn: c31, Need: []string{"fresh processes", "operations watched", "files opened", "files compared", "settings compared"}},
			{Name: "explained", Quick: 80, Thorough: 1500, Fn: c31debug, Need: []string{"explained evaluations", "silent evaluations", "explained errors"}},
		}})
}

// c31settings are what a process shares with a library it uses.
func c31settings() map[string]string {
	m := map[string]string{}
	m["environment"] = strings.Join(sorted(os.Environ()), "\x00")
	m["working directory"], _ = os.Getwd()
	u := syscall.Umask(0)
	syscall.Umask(u)
	m["umask"] = fmt.Sprintf("%o", u)
	m["GOMAXPROCS"] = fmt.Sprint(runtime.GOMAXPROCS(0))
	gc := debug.SetGCPercent(100)
	debug.SetGCPercent(gc)
	m["GC percent"] = fmt.Sprint(gc)
	m["memory limit"] = fmt.Sprint(debug.SetMemoryLimit(-1))
	st := debug.SetMaxStack(1 << 30)
	debug.SetMaxStack(st)
	m["stack limit"] = fmt.Sprint(st)
	th := debug.SetMaxThreads(10000)
	debug.SetMaxThreads(th)
	m["thread limit"] = fmt.Sprint(th)
	pf := debug.SetPanicOnFault(false)
	debug.SetPanicOnFault(pf)
	m["panic on fault"] = fmt.Sprint(pf)
	m["arguments"] = strings.Join(os.Args, "\x00")
	m["logger"] = fmt.Sprint(log.Flags(), log.Prefix(), log.Writer() == os.Stderr)
	m["slog"] = fmt.Sprintf("%T", slog.Default().Handler())
	var flags []string
	flag.VisitAll(func(f *flag.Flag) { flags = append(flags, f.Name+"="+f.Value.String()) })
	m["flags"] = strings.Join(flags, ",")
	m["time zone"] = fmt.Sprintf("%p %v", time.Local, time.Now().Format("-0700 MST"))
	m["http defaults"] = fmt.Sprintf("%p %p %p %v", http.DefaultClient, http.DefaultTransport, http.DefaultServeMux, *http.DefaultClient)
	m["streams"] = fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr)
	for _, s := range []os.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGPIPE, syscall.SIGUSR1, syscall.SIGCHLD, syscall.SIGALRM} {
		m["signals"] += fmt.Sprint(signal.Ignored(s), " ")
	}
	if b, err := os.ReadFile("/proc/self/status"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "SigCgt") || strings.HasPrefix(l, "SigIgn") {
				m["signals"] += l
			}
		}
	}
	for name, res := range map[string]int{"files": syscall.RLIMIT_NOFILE, "cpu": syscall.RLIMIT_CPU, "data": syscall.RLIMIT_DATA, "core": syscall.RLIMIT_CORE, "memory": syscall.RLIMIT_AS, "stack": syscall.RLIMIT_STACK, "size": syscall.RLIMIT_FSIZE} {
		var r syscall.Rlimit
		syscall.Getrlimit(res, &r)
		m["limit of "+name] = fmt.Sprint(r)
	}
	prio, _ := syscall.Getpriority(syscall.PRIO_PROCESS, 0)
	m["priority"] = fmt.Sprint(prio)
	m["user"] = fmt.Sprint(os.Getuid(), os.Geteuid(), os.Getgid(), os.Getegid())
	pos, err := os.Stdin.Seek(0, 1)
	m["standard input"] = fmt.Sprint(pos, err)
	var ws syscall.WaitStatus
	pid, err := syscall.Wait4(-1, &ws, syscall.WNOHANG, nil)
	m["children"] = fmt.Sprint(pid, err)
	return m
}

// c31tree describes every file below the directories.
func c31tree(dirs ...string) map[string]string {
	m := map[string]string{}
	for _, d := range dirs {
		filepath.WalkDir(d, func(path string, e fs.DirEntry, err error) error {
			if err != nil {
				m[path] = err.Error()
				return nil
			}
			fi, err := e.Info()
			if err != nil {
				m[path] = err.Error()
				return nil
			}
			what := fmt.Sprint(fi.Mode(), fi.Size(), fi.ModTime().UnixNano())
			if fi.Mode().IsRegular() {
				b, _ := os.ReadFile(path)
				what += fmt.Sprintf(" %x", caseSeed(1, string(b), "", 0))
			}
			if st, ok := fi.Sys().(*syscall.Stat_t); ok {
				what += fmt.Sprint(" ", st.Nlink, " ", st.Uid, " ", st.Gid, " ", st.Ino)
			}
			m[path] = what
			return nil
		})
	}
	return m
}

func c31diff(a, b map[string]string) string {
	var out []string
	for k, v := range a {
		if b[k] != v {
			out = append(out, fmt.Sprintf("%s: %.300q became %.300q", k, v, b[k]))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("%s: new, %.300q", k, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

type c31report struct {
	Ops   map[string]int
	Files int
	Sets  int
	Bad   []string
	Sizes [2]int64
}

// c31written are the lengths of standard output and error.
func c31written() (n [2]int64) {
	for i, f := range []*os.File{os.Stdout, os.Stderr} {
		fi, err := f.Stat()
		must(err)
		n[i] = fi.Size()
	}
	return
}

func c31main(args []string) {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	dir, report := args[1], args[2]
	c := &C{Rand: rand.New(rand.NewSource(seed))}
	res := c31report{Ops: map[string]int{}}
	bad := func(format string, a ...any) {
		if len(res.Bad) < 10 {
			res.Bad = append(res.Bad, fmt.Sprintf(format, a...))
		}
	}
	defer func() {
		res.Sizes = c31written()
		b, _ := json.Marshal(res)
		must(os.WriteFile(report, b, 0o644))
	}()
	if args[3] == "explained" {
		c31explain(c, &res, bad)
		return
	}
	ops := c29ops(c, dir)
	qs := c30world(seed, dir, seed)
	good := []byte(poPrint(c.Rand, catalog(c.Rand, 8).all(), randomLayout(c.Rand)))
	mo := moWrite(c.Rand, catalog(c.Rand, 8).all(), randomMOLayout(c.Rand)).data
	tree := filepath.Join(dir, "tree")
	watched := []string{tree, filepath.Join(dir, "cwd"), filepath.Join(dir, "home"), filepath.Join(dir, "tmp")}
	mutate := func(b []byte) []byte {
		b = append([]byte(nil), b...)
		for i := 0; i < 1+c.Intn(6) && len(b) > 0; i++ {
			switch c.Intn(4) {
			case 0:
				b[c.Intn(len(b))] = byte(c.Intn(256))
			case 1:
				b = b[:c.Intn(len(b)+1)]
			case 2:
				j := c.Intn(len(b))
				b = append(b[:j:j], b[c.Intn(len(b)):]...)
			case 3:
				b = append(b, []string{"msgid \"x\n", "msgstr[0] \"\"\n", "\"a", "#~ x\n", "\x00", "junk\n"}[c.Intn(6)]...)
			}
		}
		return b
	}
	use := func(f *translator.File, err error) {
		if err != nil {
			_ = err.Error()
			return
		}
		for _, e := range f.SortedEntry() {
			f.X(e.MsgCtxt, e.MsgID, 1)
			f.XN64(e.MsgCtxt, e.MsgID, e.MsgID2, count(c.Rand), "x")
			_ = e.Key()
		}
		f.Lang()
		f.GetHeader("Language")
		for _, save := range []func(*translator.File) error{
			func(f *translator.File) error { return f.SaveAsPo(new(bytes.Buffer)) },
			func(f *translator.File) error { return f.SaveAsPot(new(bytes.Buffer)) },
			func(f *translator.File) error { return f.SaveAsMo(new(bytes.Buffer)) },
			func(f *translator.File) error { return f.SaveAsPo(&c31failing{c.Intn(50)}) },
			func(f *translator.File) error { return f.SaveAsPot(&c31failing{c.Intn(50)}) },
			func(f *translator.File) error { return f.SaveAsMo(&c31failing{c.Intn(50)}) },
		} {
			save(f)
		}
	}
	more := []c29op{
		{name: "damaged bytes", fn: func(i int, s string) {
			use(translator.ReadPo(mutate(good)))
			use(translator.ReadPot(mutate(good)))
			use(translator.ReadMo(mutate(mo)))
			use(translator.ReadMo(mutate(good)))
			use(translator.ReadPo(nil))
		}},
		{name: "expressions", fn: func(i int, s string) {
			e := genExpr(c.Rand, 4).print(c.Rand, c.Intn(3), c.Intn(2))
			plurals.Eval(context.Background(), e, count(c.Rand))
			plurals.Eval(context.Background(), string(mutate([]byte(e))), count(c.Rand))
			plurals.Eval(context.Background(), strings.Repeat([]string{"(", "n", "n+", "!", "n?"}[c.Intn(5)], c.Intn(9000)), 1)
			plurals.Eval(context.WithValue(context.Background(), c18key("debug"), true), "n $ 2", 1) // a foreign key
			plurals.Eval(context.TODO(), "1/(n-n)", 3)
		}},
		{name: "trees", fn: func(i int, s string) {
			ts := t.NewTranslations()
			ts.BindFS("x", os.DirFS(tree))
			ts.SetDomain("x")
			ts.SetLocale("de")
			ts.T("apple")
			ts.BindFS("y", c30broken{})
			ts.BindFS("y", fstest.MapFS{"a.po": {Data: mutate(good)}, "b.mo": {Data: mutate(mo)}})
			t.SetGlobal(ts)
			t.Bind("z", tree)
			t.Load(filepath.Join(tree, []string{"good.po", "good.mo", "bad.po", "bad.mo", "gone.po", "sub", "none", "readme.txt", "locked.po"}[c.Intn(9)]))
			t.Load("")
			t.Bind("", "relative/none")
			t.Bind("x", "\x00")
			t.MostMatchLocale()
			t.RemoveDomain("z")
			t.ClearDomains()
		}},
		{name: "missing arguments", fn: func(i int, s string) {
			ts := t.NewTranslations()
			ts.T("%d %s %!", s)
			ts.N("%[3]d", "%z", i, s, 1)
			ts.XN("", "%*d", "", i, nil)
			ts.X("%s", "%s%s", nil, nil, nil)
			t.Tag("en-" + s)
			ts.SetLocale("\xff")
			ts.SetSourceCodeLocale("")
		}},
	}
	leaks := func(fsys *c31counting) {
		if n := fsys.opened - fsys.closed; n != 0 {
			bad("loading a tree left %d of its %d files open", n, fsys.opened)
		}
		res.Ops["files opened"] += fsys.opened
	}
	big := &Cat{Lang: "de_DE", NForms: 2, Rule: "n != 1", Expr: mustParseExpr("n != 1")}
	big.setHeader(c.Rand)
	for i := 0; i < 1500+c.Intn(1500); i++ {
		big.Msgs = append(big.Msgs, Msg{ID: fmt.Sprint("id ", i), Str: fmt.Sprint("str ", i), Cmts: []string{"#: file.go:" + fmt.Sprint(i)}})
	}
	bigPO, bigMO := []byte(poPrint(c.Rand, big.all(), randomLayout(c.Rand))), moWrite(c.Rand, big.all(), randomMOLayout(c.Rand)).data
	more = append(more, c29op{name: "leaks", fn: func(i int, s string) {
		for _, under := range []fs.FS{fstest.MapFS{"a.po": {Data: mutate(good)}, "b/b.mo": {Data: mutate(mo)}, "b/c.po": {Data: good}, "b/d.mo": {Data: mo}, "x.txt": {Data: good}}, os.DirFS(tree)} {
			fsys := &c31counting{FS: under}
			if c.Chance(1, 2) {
				fsys.bad = 1 + c.Intn(6)
			}
			t.NewTranslation("x").LoadFS(fsys)
			leaks(fsys)
			t.NewTranslations().BindFS("x", fsys)
			leaks(fsys)
			t.LoadFS(fsys)
			t.BindFS("leaks", fsys)
			leaks(fsys)
		}
	}})
	large := c29op{name: "large inputs", fn: func(i int, s string) {
		use(translator.ReadPo(bigPO))
		use(translator.ReadMo(bigMO))
		plurals.Eval(context.Background(), "n"+strings.Repeat("+n", 2500), 3)
		plurals.Eval(context.Background(), "n"+strings.Repeat("+n", 90000), 3)
		ts := t.NewTranslations()
		ts.BindFS("big", fstest.MapFS{"a.mo": {Data: bigMO}, "b.po": {Data: bigPO}})
		ts.D("big").T("id 1", strings.Repeat("x", 100000))
	}}
	for _, o := range ops {
		if o.name != "bind directory" { // it writes
			more = append(more, o)
		}
	}
	for _, q := range qs {
		if q.kind != "default" && q.kind != "binding a path" { // these set and write
			more = append(more, c29op{name: q.kind, fn: func(int, string) { q.ask() }})
		}
	}
	warm, err := os.Open(filepath.Join(dir, "in"))
	must(err)
	defer warm.Close()
	os.ReadDir(tree)
	debug.SetGCPercent(-1) // a file left open stays open
	debug.SetMemoryLimit(1 << 30)
	files := c31tree(watched...)
	before, fds, gs := c31settings(), c31fds(), runtime.NumGoroutine()
	for i := 0; i < 300; i++ {
		o := more[c.Intn(len(more))]
		if c.Chance(1, 4) {
			o = more[c.Intn(4)]
		}
		if i%150 == 70 {
			o = large
		}
		w, open := c31written(), c31fds()
		func() {
			defer func() {
				if e := recover(); e != nil {
					res.Ops["panic in "+o.name]++
				}
			}()
			o.fn(i, []string{"plain", "a_b", "%d", "x y", "", "中文", "\n"}[c.Intn(7)]+fmt.Sprint(i))
		}()
		if now := c31written(); now != w {
			bad("%s wrote %d bytes to standard output and %d to standard error", o.name, now[0]-w[0], now[1]-w[1])
		}
		if n := c31fds(); n > open {
			bad("%s left %d files open", o.name, n-open)
		}
		res.Ops[o.name]++
	}
	runtime.GC()
	time.Sleep(5 * time.Millisecond)
	if d := c31diff(before, c31settings()); d != "" {
		bad("settings of the process: %s", d)
	}
	res.Sets = len(before)
	for i := 0; i < 200 && (runtime.NumGoroutine() > gs || c31fds() > fds); i++ {
		time.Sleep(10 * time.Millisecond) // the collector may still be cleaning up
	}
	if g := runtime.NumGoroutine(); g > gs {
		bad("%d goroutines before, %d after", gs, g)
	}
	if n := c31fds(); n > fds {
		bad("%d open files before, %d after", fds, n)
	}
	if d := c31diff(files, c31tree(watched...)); d != "" {
		bad("files: %s", d)
	}
	res.Files = len(files)
}

// c31fds counts the open files, but for the one that a module used to find the
// default locale leaves to the garbage collector.
func c31fds() (n int) {
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range es {
		// a file closed since the listing is not open: the collector may be closing go-locale's
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && filepath.Base(to) != "locale.conf" {
			n++
		}
	}
	return n
}

// c31counting counts the files it opens and closes; some of them fail.
type c31counting struct {
	fs.FS
	opened, closed, bad int
}

type c31file struct {
	fs.File
	of   *c31counting
	bad  int
	once bool
}

func (f *c31counting) Open(name string) (fs.File, error) {
	h, err := f.FS.Open(name)
	if err != nil {
		return nil, err
	}
	f.opened++
	x := &c31file{File: h, of: f}
	if f.bad > 0 && f.opened%f.bad == 0 {
		x.bad = 1 + f.opened%2
	}
	if d, ok := h.(fs.ReadDirFile); ok {
		return struct {
			*c31file
			dir
		}{x, dir{d}}, nil
	}
	return x, nil
}

type dir struct{ d fs.ReadDirFile }

func (d dir) ReadDir(n int) ([]fs.DirEntry, error) { return d.d.ReadDir(n) }

func (f *c31file) Close() error {
	if !f.once {
		f.once = true
		f.of.closed++
	}
	return f.File.Close()
}

func (f *c31file) Stat() (fs.FileInfo, error) {
	if f.bad == 1 {
		return nil, syscall.EIO
	}
	return f.File.Stat()
}

func (f *c31file) Read(p []byte) (int, error) {
	if f.bad == 2 {
		return 0, syscall.EIO
	}
	return f.File.Read(p)
}

type c31failing struct{ left int }

func (w *c31failing) Write(p []byte) (int, error) {
	if w.left -= len(p); w.left < 0 {
		return 0, syscall.ENOSPC
	}
	return len(p), nil
}

// c31explain evaluates with and without explanation, in turn.
func c31explain(c *C, res *c31report, bad func(string, ...any)) {
	ctx := context.Background()
	dbg := plurals.DebugCtx(ctx)
	for i := 0; i < 200; i++ {
		e := genExpr(c.Rand, 1+c.Intn(4)).print(c.Rand, c.Intn(3), c.Intn(2))
		switch c.Intn(6) {
		case 0:
			e = wellKnown[c.Intn(len(wellKnown))].rule
		case 1:
			e = []string{"n %", "1/0", "n $ 1", "", "(n", "n << -1", "99999999999999999999", "n n"}[c.Intn(8)]
		}
		n := count(c.Rand)
		w := c31written()
		v, err := plurals.Eval(ctx, e, n)
		if now := c31written(); now != w {
			bad("evaluating %q at %d without explanation wrote %d bytes to standard output and %d to standard error", e, n, now[0]-w[0], now[1]-w[1])
		}
		res.Ops["silent evaluations"]++
		w = c31written()
		v2, err2 := plurals.Eval(dbg, e, n)
		if v != v2 || (err == nil) != (err2 == nil) {
			bad("%q at %d gives %d, %v, and explained %d, %v", e, n, v, err, v2, err2)
		}
		if now := c31written(); now[1] != w[1] {
			bad("explaining %q at %d wrote %d bytes to standard error", e, n, now[1]-w[1])
		}
		res.Ops["explained evaluations"]++
		if err != nil {
			res.Ops["explained errors"]++
		}
	}
}

func c31run(c *C, mode string) {
	dir := c.Dir()
	defer os.RemoveAll(dir)
	c29dir(dir)
	for _, d := range []string{"cwd", "home", "tmp", "tree/empty"} {
		must(os.MkdirAll(filepath.Join(dir, d), 0o755))
	}
	k := catalog(c.Rand, 6)
	tree := filepath.Join(dir, "tree")
	must(os.WriteFile(filepath.Join(tree, "good.po"), []byte(poPrint(c.Rand, k.all(), randomLayout(c.Rand))), 0o444))
	must(os.WriteFile(filepath.Join(tree, "good.mo"), moWrite(c.Rand, k.all(), randomMOLayout(c.Rand)).data, 0o600))
	must(os.WriteFile(filepath.Join(tree, "locked.po"), []byte("msgid \"\"\nmsgstr \"Language: fr\\n\"\n"), 0o000))
	must(os.WriteFile(filepath.Join(tree, "readme.txt"), []byte("text"), 0o644))
	must(os.WriteFile(filepath.Join(dir, "in"), []byte("some input\nmore\n"), 0o644))
	in, err := os.Open(filepath.Join(dir, "in"))
	must(err)
	defer in.Close()
	streams := [2]string{filepath.Join(dir, "out"), filepath.Join(dir, "err")}
	var fsd [2]*os.File
	for i, s := range streams {
		fsd[i], err = os.Create(s)
		must(err)
		defer fsd[i].Close()
	}
	self, _ := os.Executable()
	seed := c.Int63()
	report := filepath.Join(dir, "report")
	cmd := exec.Command(self, "aux", "silent", fmt.Sprint(seed), dir, report, mode)
	cmd.Dir = filepath.Join(dir, "cwd")
	cmd.Env = cleanEnv("GOTRACEBACK=all")
	if c.Chance(1, 2) { // no locale, or an odd one
		for i, kv := range cmd.Env {
			if strings.HasPrefix(kv, "LANG=") {
				cmd.Env[i] = []string{"X_NONE=1", "LANG=", "LANG=C", "LC_ALL=POSIX", "LANG=xx_??", "LANGUAGE=::"}[c.Intn(6)]
			}
		}
	}
	cmd.Env = append(cmd.Env, "HOME="+filepath.Join(dir, "home"), "TMPDIR="+filepath.Join(dir, "tmp"))
	cmd.Stdin, cmd.Stdout, cmd.Stderr = in, fsd[0], fsd[1]
	err = cmd.Run()
	stdout, _ := os.ReadFile(streams[0])
	stderr, _ := os.ReadFile(streams[1])
	raw, rerr := os.ReadFile(report)
	var res c31report
	if rerr == nil {
		rerr = json.Unmarshal(raw, &res)
	}
	if err != nil || rerr != nil {
		c.Fail("crash", "%s process (seed %d): %v, %v\n%.3000s", mode, seed, err, rerr, stderr)
	}
	if len(res.Bad) > 0 {
		c.Fail("effect", "%s process (seed %d):\n%s\nstandard output: %.500q\nstandard error: %.500q", mode, seed, strings.Join(res.Bad, "\n"), stdout, stderr)
	}
	if mode == "effects" && len(stdout)+len(stderr) > 0 {
		c.Fail("effect", "%s process (seed %d):\nstandard output: %.500q\nstandard error: %.500q", mode, seed, stdout, stderr)
	}
	c.Count("fresh processes", 1)
	c.Count("files opened", res.Ops["files opened"])
	delete(res.Ops, "files opened")
	for o, n := range res.Ops {
		if mode == "effects" {
			c.Count("operations watched", n)
			c.Distinct(o)
		} else {
			c.Count(o, n)
		}
	}
	c.Distinct(mode, fmt.Sprint(seed))
	c.Count("files compared", res.Files)
	c.Count("settings compared", res.Sets)
}

func c31(c *C)      { c31run(c, "effects") }
func c31debug(c *C) { c31run(c, "explained") }
