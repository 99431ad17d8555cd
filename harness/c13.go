package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	"github.com/youthlin/t"
	"github.com/youthlin/t/locale"
)

func init() {
	register(&Property{ID: "C13", Level: "fault_enumeration",
		Rule:        "Random trees (depth to 4, chains of directories to 45; good, malformed, empty, foreign, look-alike files; several files of one language and of both kinds) are bound from an instrumented file system that logs every open, stat, read, listing and close. 'single' repeats the bind once for every operation of the clean run with that operation failing (transiently), and once for every (operation, path) failing for good, including reads that fail after part of the data; 'random' mixes several faults with short reads; 'os' binds real directories and single files with links and dangling links. An independent walk computes which catalog must answer for each language; a ledger checks that all opened files are closed. Non-trivial: distinct (tree, fault) pairs.",
		Assumptions: []string{"a catalog without a Language field can not be registered and counts as a foreign file", "after a transient fault a file whose own operations or parent listings failed may be loaded or not"},
		Sections: []Section{
			{Name: "single", Quick: 800, Thorough: 20000, Fn: c13single, Need: []string{"fault: open", "fault: stat", "fault: read", "fault: readdir", "binds compared", "old domain kept", "old domain kept beside catalogs without language"}},
			{Name: "random", Quick: 15000, Thorough: 400000, Fn: c13random, Need: []string{"po over mo", "later file wins", "short reads", "binds compared", "files with the other kind's content", "big files"}},
			{Name: "os", Quick: 2000, Thorough: 20000, Fn: c13os, Need: []string{"single files", "links", "directories"}},
		}})
}

type node struct {
	dir  bool
	data []byte
	lang string // normalised language of a good catalog, "" otherwise
	odd  bool   // well formed but without language
	// size is reported as 0
	sizeless bool
}

type ffs struct {
	tree   map[string]*node
	fail   func(op, p string, seq int) (error, int) // error and, for reads, bytes delivered before it
	short  bool
	seq    int
	ops    []string
	faults [][2]string
	open   map[*ffile]bool
	extra  int // 1: implements ReadDirFS and StatFS through wrappers
}

type ffile struct {
	f      *ffs
	p      string
	n      *node
	off    int
	limit  int // -1: no fault planned
	err    error
	listed int
}

func (f *ffs) op(op, p string) (error, int) {
	f.ops = append(f.ops, op+" "+p)
	seq := f.seq
	f.seq++
	if f.fail != nil {
		if err, k := f.fail(op, p, seq); err != nil {
			f.faults = append(f.faults, [2]string{op, p})
			return err, k
		}
	}
	return nil, 0
}

func (f *ffs) Open(p string) (fs.File, error) {
	if !fs.ValidPath(p) {
		return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrInvalid}
	}
	n := f.tree[p]
	if n == nil {
		return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist}
	}
	if err, _ := f.op("open", p); err != nil {
		return nil, &fs.PathError{Op: "open", Path: p, Err: err}
	}
	h := &ffile{f: f, p: p, n: n, limit: -1}
	f.open[h] = true
	return h, nil
}

type finfo struct {
	p string
	n *node
}

func (i finfo) Name() string { return path.Base(i.p) }
func (i finfo) Size() int64 {
	if i.n.sizeless { // as in /proc
		return 0
	}
	return int64(len(i.n.data))
}
func (i finfo) ModTime() time.Time { return time.Unix(0, 0) }
func (i finfo) IsDir() bool        { return i.n.dir }
func (i finfo) Sys() any           { return nil }
func (i finfo) Type() fs.FileMode  { return i.Mode().Type() }
func (i finfo) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i finfo) Info() (fs.FileInfo, error) { return i, nil }

func (h *ffile) Stat() (fs.FileInfo, error) {
	if err, _ := h.f.op("stat", h.p); err != nil {
		return nil, err
	}
	return finfo{h.p, h.n}, nil
}

func (h *ffile) Close() error {
	delete(h.f.open, h)
	if err, _ := h.f.op("close", h.p); err != nil {
		return err
	}
	return nil
}

func (h *ffile) Read(b []byte) (int, error) {
	if h.n.dir {
		return 0, errors.New("is a directory")
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.err != nil && h.off >= h.limit {
		return 0, h.err
	}
	if h.err == nil {
		if err, k := h.f.op("read", h.p); err != nil {
			h.err, h.limit = err, h.off+k
			if h.limit > len(h.n.data) {
				h.limit = len(h.n.data)
			}
			if h.off >= h.limit {
				return 0, err
			}
		}
	}
	end := len(h.n.data)
	if h.limit >= 0 {
		end = h.limit
	}
	if h.off >= end {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.off:end])
	if h.f.short && n > 1 {
		n = 1 + (h.off*7+n)%n
	}
	h.off += n
	if h.f.short && h.off == len(h.n.data) && h.err == nil {
		return n, io.EOF // data and EOF at once
	}
	return n, nil
}

func (f *ffs) children(p string) (out []fs.DirEntry) {
	for q, n := range f.tree {
		if q != "." && path.Dir(q) == p {
			out = append(out, finfo{q, n})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return
}

func (h *ffile) ReadDir(n int) ([]fs.DirEntry, error) {
	if !h.n.dir {
		return nil, errors.New("not a directory")
	}
	all := h.f.children(h.p)
	if err, k := h.f.op("readdir", h.p); err != nil {
		if k > len(all) {
			k = len(all)
		}
		return all[:k], err
	}
	rest := all[h.listed:]
	if n > 0 {
		if len(rest) == 0 {
			return nil, io.EOF
		}
		if n < len(rest) {
			rest = rest[:n]
		}
	}
	h.listed += len(rest)
	return rest, nil
}

// direct adds ReadDirFS and StatFS.
type direct struct{ *ffs }

func (d direct) ReadDir(p string) ([]fs.DirEntry, error) {
	h, err := d.Open(p)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return h.(fs.ReadDirFile).ReadDir(-1)
}

func (d direct) Stat(p string) (fs.FileInfo, error) {
	h, err := d.Open(p)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return h.Stat()
}

var c13names = []string{"A.po", "_a.po", ".hidden.po", ".hidden.mo", "messages.po", "zz.po", "LC.mo", "-.po", "1.po", "10.po", "2.po", "b.c.mo", "po.po", "mo.po", "mo.mo", "a.po", "b.po", "c.po", "a.mo", "b.mo", "c.mo", "zh.po", "zh.mo", "x.y.po", "a.mo.po", "a.po.mo", ".po", ".mo", "Z.po", "0.mo", "é.po", "a b.po"}
var c13other = []string{"a.PO", "a.Mo", "a.po.gz", "a.po ", "a.mo.txt", "a.po.mo~", "#a.po#", "readme.txt", "a.pot", "a.po~", "a.po.bak", "po", "mo", "xpo", "a.pox", "a.mo2", "a.po.swp", "Makefile"}
var c13langs = []string{"zh_CN", "de", "fr_CA", "en_US", "de_AT", "pt-BR", "zh-TW", "en_GB", "es", "it_IT", "nl", "ru_RU", "ko", "pl", "sv-SE", "fr", "tr", "uk_UA", "vi", "el_GR"}

var c13dirs = []string{"_x", "_", "...", "..data", ".hidden", "node_modules", "testdata", "vendor", "tmp", "CVS", "locale", "po", "LC_MESSAGES", "LC_MESSAGES", "zh", "sub", "a.po", "b.mo.d", "x.mo", "dir.po", ".git", "0", "~"}

// c13content makes a catalog file naming its path in its messages.
func c13content(c *C, p string, lang string) []byte {
	data, _ := c13content2(c, p, lang)
	return data
}

// c13content2 also tells how many bytes of it are needed.
func c13content2(c *C, p string, lang string) ([]byte, int) {
	msgs := []Msg{{Str: "Content-Type: text/plain; charset=UTF-8\nPlural-Forms: nplurals=1; plural=0;\n"}, {ID: "only " + p, Str: "yes"}, {ID: "who", Str: p}, {ID: "zz", ID2: "zzs", Plural: true, StrN: []string{"plural of " + p}}}
	if lang != "" {
		msgs[0].Str += "Language: " + lang + "\n"
	}
	if c.Section.Name != "single" && c.Intn(4000) == 0 { // a big file
		big := Msg{ID: "big", Str: strings.Repeat("0123456789abcde\n", []int{1 << 12, 1 << 15, 1 << 16, 1 << 17, 200000}[c.Intn(5)])}
		if c.Intn(2) == 0 {
			big.Cmts = []string{"# " + strings.Repeat("comment ", 20000)}
		}
		msgs = append([]Msg{msgs[0], big}, msgs[1:]...)
		c.Count("big files", 1)
	}
	if strings.HasSuffix(p, ".mo") {
		mf := moWrite(c.Rand, msgs, randomMOLayout(c.Rand))
		return mf.data, mf.needed
	}
	return []byte(poPrint(c.Rand, msgs, randomLayout(c.Rand))), 0
}

func c13tree(c *C, size int) map[string]*node {
	tree := map[string]*node{".": {dir: true}}
	dirs := []string{"."}
	if c.Intn(25) == 0 { // a deep chain
		p := "."
		for i, n := 0, 5+c.Intn(40); i < n; i++ {
			p = path.Join(p, c13dirs[c.Intn(len(c13dirs))])
			tree[p] = &node{dir: true}
			dirs = append(dirs, p)
		}
		dirs = append(dirs, p, p, p)
	}
	for i, n := 0, c.Intn(size/3+2); i < n; i++ {
		p := path.Join(dirs[c.Intn(len(dirs))], c13dirs[c.Intn(len(c13dirs))])
		if tree[p] == nil && strings.Count(p, "/") < 4 {
			tree[p] = &node{dir: true}
			dirs = append(dirs, p)
		}
	}
	langs := []string{c12langs[c.Intn(6)], c12langs[c.Intn(6)], c12langs[c.Intn(6)]}
	if c.Intn(12) == 0 { // many languages, some twice
		langs = c13langs
		if c.Section.Name != "single" {
			size += 40
		}
	}
	for i, n := 0, c.Intn(size+1); i < n; i++ {
		d := dirs[c.Intn(len(dirs))]
		p := path.Join(d, c13names[c.Intn(len(c13names))])
		if c.Intn(6) == 0 {
			p = path.Join(d, c13other[c.Intn(len(c13other))])
		}
		if tree[p] != nil {
			continue
		}
		lang := langs[c.Intn(len(langs))]
		nd := &node{sizeless: c.Intn(10) == 0}
		good := strings.HasSuffix(p, ".po") || strings.HasSuffix(p, ".mo")
		switch c.Intn(9) {
		case 0: // broken behind good messages
			var needed int
			nd.data, needed = c13content2(c, p, lang)
			if strings.HasSuffix(p, ".mo") {
				nd.data = nd.data[:needed-1-c.Intn(needed/2)]
			} else {
				nd.data = append(nd.data, []byte("\n\nmsgid \"x\"\nmsgstr \"unterminated\n")...)
			}
		case 1:
			if c.Intn(3) == 0 { // the other kind's content
				other := p + ".mo"
				if strings.HasSuffix(p, ".mo") {
					other = p + ".po"
				}
				nd.data = c13content(c, other, lang)
				c.Count("files with the other kind's content", 1)
				break
			}
			nd.data = [][]byte{nil, []byte("garbage"), {0xde, 0x12, 0x04, 0x95}, []byte("\x00\x01\x02"), []byte("msgid \"\nmsgstr\n")}[c.Intn(5)]
		case 2:
			nd.data = c13content(c, p, "")
			nd.odd = good
		default:
			nd.data = c13content(c, p, lang)
			if good {
				nd.lang = locale.Normalize(lang)
			}
		}
		tree[p] = nd
	}
	return tree
}

// walk lists the files of a tree in walk order.
func c13walk(tree map[string]*node, p string) (out []string) {
	n := tree[p]
	if n == nil {
		return nil
	}
	if !n.dir {
		return []string{p}
	}
	var names []string
	for q := range tree {
		if q != "." && path.Dir(q) == p {
			names = append(names, path.Base(q))
		}
	}
	sort.Strings(names)
	for _, b := range names {
		out = append(out, c13walk(tree, path.Join(p, b))...)
	}
	return
}

// c13check compares a bound domain with what the tree and its faults allow. old names the previous catalog ("" none).
func c13check(c *C, ts *t.Translations, dom string, order []string, tree map[string]*node, state func(p string) string, old, desc string) {
	best := map[string]string{} // language -> surest winner
	maybe := map[string][]string{}
	sure, possible, odd := false, false, false
	for _, ext := range []string{".mo", ".po"} {
		for _, p := range order {
			n := tree[p]
			if !strings.HasSuffix(p, ext) || n.lang == "" && !n.odd {
				continue
			}
			st := state(p)
			if st == "lost" {
				continue
			}
			if n.lang == "" {
				odd = true
				continue
			}
			possible = true
			if st == "sure" {
				sure = true
				if b := best[n.lang]; b != "" {
					if path.Ext(b) != path.Ext(p) {
						c.Count("po over mo", 1)
					} else {
						c.Count("later file wins", 1)
					}
				}
				best[n.lang], maybe[n.lang] = p, nil
			} else {
				maybe[n.lang] = append(maybe[n.lang], p)
			}
		}
	}
	c.Count("binds compared", 1)
	h := ts.D(dom)
	if !possible { // previous state stays
		if ts.HasDomain(dom) != (old != "") {
			c.Fail("kept", "%s: nothing to load, HasDomain=%v, bound before: %v", desc, ts.HasDomain(dom), old != "")
		}
		if old != "" {
			c.Count("old domain kept", 1)
			if odd {
				c.Count("old domain kept beside catalogs without language", 1)
			}
			if got := h.L("ja_JP").T("who"); got != old {
				c.Fail("kept", "%s: nothing to load, but the old catalog answers %q want %q", desc, got, old)
			}
		}
		return
	}
	if !sure {
		return
	}
	if !ts.HasDomain(dom) {
		c.Fail("bound", "%s: loadable files, but no domain bound", desc)
	}
	tr, _ := ts.Get(dom)
	if _, ok := tr.Get("ja_JP"); ok {
		c.Fail("replaced", "%s: the old catalog is still there", desc)
	}
	for _, l := range c13langs {
		norm := locale.Normalize(l)
		hl := h.L(norm)
		got := hl.T("who")
		want := best[norm]
		ok := got == want || want == "" && got == "who"
		for _, m := range maybe[norm] {
			ok = ok || got == m
		}
		if !ok {
			c.Fail("winner", "%s: %s answered by %q want %q (or %v)\nwalk %v", desc, norm, got, want, maybe[norm], order)
		}
		for _, p := range order {
			src := "only " + p
			exp := src
			if p == got {
				exp = "yes"
			}
			if g := hl.T(src); g != exp {
				c.Fail("mixed", "%s: %s answers from %q, but T(%q)=%q", desc, norm, got, src, g)
			}
		}
		exp := "zzs"
		if got != "who" {
			exp = "plural of " + got
		}
		if g := hl.N("zz", "zzs", 5); g != exp {
			c.Fail("mixed", "%s: %s answers from %q, but N=%q", desc, norm, got, g)
		}
	}
}

var c13old = fstest.MapFS{"old.po": {Data: []byte("msgid \"\"\nmsgstr \"Language: ja_JP\\n\"\n\nmsgid \"who\"\nmsgstr \"old catalog\"\n")}}

// c13bind binds f to a fresh or used set and checks the ledger. It returns the set and the old catalog's answer.
func c13bind(c *C, f *ffs, desc string) (*t.Translations, string, string) {
	dom := []string{"default", "dom", "é"}[c.Intn(3)]
	old := ""
	ts := t.NewTranslations()
	if c.Intn(2) == 0 {
		ts.BindFS(dom, c13old)
		old = "old catalog"
	}
	f.open = map[*ffile]bool{}
	var fsys fs.FS = f
	if f.extra == 1 {
		fsys = direct{f}
	}
	switch c.Intn(3) {
	case 0:
		t.SetGlobal(ts)
		t.BindFS(dom, fsys)
		t.SetGlobal(t.NewTranslations())
	case 1:
		t.SetGlobal(ts)
		t.SetDomain(dom)
		t.LoadFS(fsys)
		t.SetGlobal(t.NewTranslations())
	default:
		ts.BindFS(dom, fsys)
	}
	for h := range f.open {
		c.Fail("leak", "%s: %s was opened and never closed; operations %v", desc, h.p, f.ops)
	}
	return ts, dom, old
}

func ancestors(p string) (out []string) {
	for p != "." {
		p = path.Dir(p)
		out = append(out, p)
	}
	return
}

// anError is one of the errors a file system may answer with.
func anError(c *C) error {
	return []error{errors.New("injected fault"), fs.ErrPermission, fs.ErrNotExist, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, fs.ErrClosed, io.ErrNoProgress}[c.Intn(7)]
}

func c13single(c *C) {
	tree := c13tree(c, 7)
	order := c13walk(tree, ".")
	clean := &ffs{tree: tree, extra: c.Intn(2)}
	ts, dom, old := c13bind(c, clean, "clean run")
	c13check(c, ts, dom, order, tree, func(string) string { return "sure" }, old, "clean run")
	ops := clean.ops
	seen := map[string]bool{}
	for k, o := range ops {
		sp := strings.IndexByte(o, ' ')
		op, p := o[:sp], o[sp+1:]
		part := 0
		if op == "read" || op == "readdir" {
			part = []int{0, 0, 1, 10, 1 << 20}[c.Intn(5)]
		}
		if op == "read" {
			n := len(tree[p].data)
			part = []int{0, n / 2, n - 1, c.Intn(n + 1)}[c.Intn(4)]
		}
		errInjected := anError(c)
		hit := func(fp string, sure bool) string { // state of file fp when (op,p) fails
			if op == "close" {
				return "sure"
			}
			aff := fp == p
			for _, a := range ancestors(fp) {
				aff = aff || a == p
			}
			if !aff {
				return "sure"
			}
			if !sure || part > 0 && op == "readdir" {
				return "maybe"
			}
			return "lost"
		}
		// transient: only this operation of the run
		f := &ffs{tree: tree, extra: clean.extra, fail: func(_, _ string, seq int) (error, int) {
			if seq == k {
				return errInjected, part
			}
			return nil, 0
		}}
		desc := fmt.Sprintf("operation %d (%s) fails once after %d", k, o, part)
		ts, dom, old := c13bind(c, f, desc)
		c13check(c, ts, dom, order, tree, func(fp string) string { return hit(fp, false) }, old, desc)
		c.Count("fault: "+op, 1)
		c.Distinct(fmt.Sprint(c.Index), o, fmt.Sprint(k))
		if seen[o] {
			continue
		}
		seen[o] = true
		f = &ffs{tree: tree, extra: clean.extra, fail: func(o2, p2 string, _ int) (error, int) {
			if o2 == op && p2 == p {
				return errInjected, part
			}
			return nil, 0
		}}
		desc = fmt.Sprintf("every %s of %s fails after %d", op, p, part)
		ts, dom, old = c13bind(c, f, desc)
		sure := op == "open" || op == "read" || op == "readdir" || p != "." && !tree[p].dir
		c13check(c, ts, dom, order, tree, func(fp string) string { return hit(fp, sure) }, old, desc)
		c.Distinct(fmt.Sprint(c.Index), o, "always")
	}
}

func c13random(c *C) {
	tree := c13tree(c, 14)
	order := c13walk(tree, ".")
	bad := map[string]int{} // "op path" -> delivered
	var list []string
	for p := range tree {
		list = append(list, p)
	}
	sort.Strings(list)
	rate := []int{0, 0, 3, 8}[c.Intn(4)]
	for _, p := range list {
		if rate == 0 || p == "." && c.Intn(5) > 0 || c.Intn(rate) > 0 {
			continue
		}
		n := tree[p]
		if n.dir {
			bad[[]string{"open ", "readdir "}[c.Intn(2)]+p] = c.Intn(3)
		} else {
			bad[[]string{"open ", "stat ", "read ", "close "}[c.Intn(4)]+p] = c.Intn(len(n.data) + 1)
		}
	}
	errInjected := anError(c)
	f := &ffs{tree: tree, extra: c.Intn(2), short: c.Intn(3) == 0, fail: func(op, p string, _ int) (error, int) {
		if k, ok := bad[op+" "+p]; ok {
			return errInjected, k
		}
		return nil, 0
	}}
	if f.short {
		c.Count("short reads", 1)
	}
	var ds []string
	for b := range bad {
		ds = append(ds, b)
	}
	sort.Strings(ds)
	desc := fmt.Sprintf("faults %q", ds)
	ts, dom, old := c13bind(c, f, desc)
	c13check(c, ts, dom, order, tree, func(fp string) string {
		st := "sure"
		for _, op := range []string{"open ", "stat ", "read "} {
			if _, ok := bad[op+fp]; ok {
				st = "lost"
			}
		}
		for _, a := range ancestors(fp) {
			if _, ok := bad["open "+a]; ok {
				st = "lost"
			}
			if k, ok := bad["readdir "+a]; ok {
				if k == 0 {
					st = "lost"
				} else if st == "sure" {
					st = "maybe"
				}
			}
		}
		return st
	}, old, desc)
	c.Distinct(desc, strings.Join(order, "|"))
	c.Sample("walk %q; %s", order, desc)
}

// openUnder lists this process's descriptors below dir.
func openUnder(dir string) (out []string) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, dir) {
			out = append(out, l)
		}
	}
	return
}

func c13os(c *C) {
	dir := c.Dir()
	defer os.RemoveAll(dir)
	root := filepath.Join(dir, "root")
	os.Mkdir(root, 0o755)
	tree := c13tree(c, 8)
	var list []string
	for p := range tree {
		list = append(list, p)
	}
	sort.Strings(list)
	for _, p := range list {
		if tree[p].dir {
			os.MkdirAll(filepath.Join(root, p), 0o755)
		} else if err := os.WriteFile(filepath.Join(root, p), tree[p].data, 0o644); err != nil {
			inconclusive("scratch: %v", err)
		}
	}
	state := map[string]string{}
	if c.Intn(2) == 0 { // links
		ext := filepath.Join(dir, "outside.po")
		os.WriteFile(ext, c13content(c, "ln.po", "de"), 0o644)
		if tree["ln.po"] == nil && os.Symlink(ext, filepath.Join(root, "ln.po")) == nil {
			tree["ln.po"] = &node{lang: "de_DE"}
		}
		os.Symlink(filepath.Join(dir, "nowhere"), filepath.Join(root, "dangling.po"))
		os.Symlink(dir, filepath.Join(root, "linkeddir.po"))
		c.Count("links", 1)
	}
	start, desc := root, "OS directory"
	order := c13walk(tree, ".")
	if c.Intn(3) == 0 && len(order) > 0 { // a single file
		p := order[c.Intn(len(order))]
		start, desc = filepath.Join(root, p), "single file "+p
		tree = map[string]*node{p: tree[p]}
		order = []string{p}
		c.Count("single files", 1)
	} else {
		c.Count("directories", 1)
	}
	if c.Intn(20) == 0 {
		start, desc, order = filepath.Join(dir, "nowhere"), "missing path", nil
	}
	ts := t.NewTranslations()
	old := ""
	if c.Intn(2) == 0 {
		ts.BindFS("dom", c13old)
		old = "old catalog"
	}
	t.SetGlobal(ts)
	if c.Intn(2) == 0 {
		t.Bind("dom", start)
	} else {
		t.SetDomain("dom")
		t.Load(start)
	}
	t.SetGlobal(t.NewTranslations())
	if o := openUnder(dir); len(o) > 0 {
		c.Fail("leak", "%s: left open: %q", desc, o)
	}
	c13check(c, ts, "dom", order, tree, func(p string) string {
		if s := state[p]; s != "" {
			return s
		}
		return "sure"
	}, old, desc)
	c.Distinct(desc, strings.Join(order, "|"))
}
