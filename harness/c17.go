package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"syscall"

	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C17", Level: "fault_enumeration",
		Rule: "Catalogs (also with coinciding source locations and sort keys, untranslated messages, any texts) are saved in the three formats: from 6 insertion orders, twice each; through a recording writer that fails, or accepts fewer bytes, at every byte position (all positions of small outputs, a dense sample of large ones), on one call only or for good, with and without an error value, of many kinds (EOF, EPIPE, wrapped ones), through writers with further methods (WriteString, ReadFrom, Close); after bytes that are already there; and to /dev/full, closed files, read-only files and broken pipes. A save that reports success must have delivered exactly the reference bytes. The catalog's listing, lookups and the spare capacity of its slices are compared before and after. Non-trivial: distinct (catalog, format, fault).",
		Sections: []Section{
			{Name: "order", Quick: 5000, Thorough: 60000, Fn: c17order, Need: []string{"orders compared", "coinciding locations"}},
			{Name: "faults", Quick: 500, Thorough: 5000, Fn: c17faults, Need: []string{"failing writes", "short writes", "late errors"}},
			{Name: "large", Quick: 28, Thorough: 200, Fn: c17large, Need: []string{"failing writes"}},
			{Name: "unaltered", Quick: 5000, Thorough: 50000, Fn: c17unaltered, Need: []string{"catalogs compared"}},
			{Name: "os", Quick: 70, Thorough: 700, Fn: c17os, Need: []string{"full device", "closed file", "appended saves"}},
		}})
}

type saver struct {
	name string
	f    func(*translator.File, io.Writer) error
}

var savers = []saver{
	{"SaveAsPo", func(f *translator.File, w io.Writer) error { return f.SaveAsPo(w) }},
	{"SaveAsPot", func(f *translator.File, w io.Writer) error { return f.SaveAsPot(w) }},
	{"SaveAsMo", func(f *translator.File, w io.Writer) error { return f.SaveAsMo(w) }},
}

// c17cat makes a catalog with everything that could disturb an order.
func c17cat(c *C, n int) []Msg {
	k := catalog(c.Rand, n)
	msgs := k.all()
	if c.Intn(6) == 0 {
		msgs = msgs[1:] // no header
	}
	if c.Intn(2) == 0 { // same place, different or look-alike keys
		loc := []string{"#: a.go:1", "#: a.go:01", "#: a.go:1 b.go:2", "#:a"}[c.Intn(4)]
		c.Count("coinciding locations", 1)
		for i := range msgs {
			if c.Intn(2) == 0 && i > 0 {
				msgs[i].Cmts = append([]string(nil), loc)
			}
		}
		for _, m := range []Msg{{ID: "twin", Str: "1", Cmts: []string{"#:a"}}, {Ctx: "#:a", ID: "twin", Str: "2"}, {Ctx: "#:", ID: "a", Str: "3"}, {Ctx: "a", ID: "twin", Str: "4", Cmts: []string{"#:"}}} {
			dup := false
			for _, x := range msgs {
				dup = dup || x.key() == m.key()
			}
			if !dup {
				msgs = append(msgs, m)
			}
		}
	}
	for i := range msgs {
		if c.Intn(8) == 0 && msgs[i].key() != [2]string{} {
			msgs[i].Str, msgs[i].StrN = "", nil
		}
	}
	return msgs
}

func c17order(c *C) {
	msgs := c17cat(c, c.Intn(14))
	var ref [3][]byte
	for round := 0; round < 6; round++ {
		f := new(translator.File)
		for _, i := range c.Perm(len(msgs)) {
			if c.Intn(6) == 0 { // replaced before the end
				f.AddEntry(&translator.Entry{MsgCtxt: msgs[i].Ctx, MsgID: msgs[i].ID, MsgStr: "to be replaced", MsgCmts: []string{"#: z.go:9"}})
			}
			f.AddEntry(entryOf(msgs[i]))
		}
		for i, s := range savers {
			for again := 0; again < 2; again++ {
				b := save(c, func(w *bytes.Buffer) error { return s.f(f, w) })
				if ref[i] == nil {
					ref[i] = append([]byte{}, b...)
				} else if !bytes.Equal(ref[i], b) {
					c.Fail("order", "%s gives different bytes in round %d (save %d)\nfirst:\n%q\nnow:\n%q", s.name, round, again, ref[i], b)
				}
			}
		}
		c.Count("orders compared", 1)
	}
	c.Distinct(string(ref[0]))
}

// fussy is a writer that fails at a byte position.
type fussy struct {
	got   []byte
	at    int
	mode  int // 0 error for good, 1 error once, 2 short without error for good, 3 short without error once, 4 error after taking everything up to and including the position's write
	fired bool
	calls int
	err   error
}

var errWriter = errors.New("the writer failed")

// errKinds are errors a writer may give. None of them means that the bytes were written.
var errKinds = []error{errWriter, errWriter, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrNoProgress, syscall.EPIPE, syscall.ENOSPC, syscall.EINTR, syscall.EAGAIN, os.ErrClosed, os.ErrDeadlineExceeded, context.Canceled, &os.PathError{Op: "write", Path: "x", Err: syscall.EPIPE}, fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", syscall.EPIPE), http.ErrHandlerTimeout}

// The same writer with more methods, which a save may use, and which fail in the same way.
type (
	fussyString struct{ *fussy }
	fussyFrom   struct{ *fussy }
	fussyMore   struct {
		*fussy
		closed bool
	}
)

func (f fussyString) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f fussyFrom) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	if err == nil && n < len(b) {
		err = io.ErrShortWrite // ReadFrom has no other way to say it
	}
	return int64(n), err
}

func (f *fussyMore) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *fussyMore) WriteByte(b byte) error            { _, err := f.Write([]byte{b}); return err }
func (f *fussyMore) Flush() error                      { return nil }
func (f *fussyMore) Close() error                      { f.closed = true; return nil }

func (f *fussy) Write(b []byte) (int, error) {
	f.calls++
	if f.fired && (f.mode == 1 || f.mode == 3) {
		f.got = append(f.got, b...)
		return len(b), nil
	}
	if f.fired && f.mode != 4 {
		if f.mode == 0 {
			return 0, f.err
		}
		return 0, nil
	}
	if len(f.got)+len(b) > f.at {
		f.fired = true
		if f.mode == 4 {
			f.got = append(f.got, b...)
			return len(b), f.err
		}
		n := f.at - len(f.got)
		f.got = append(f.got, b[:n]...)
		if f.mode < 2 {
			return n, f.err
		}
		return n, nil
	}
	f.got = append(f.got, b...)
	return len(b), nil
}

func c17at(c *C, f *translator.File, s saver, ref []byte, at, mode int) {
	w := &fussy{at: at, mode: mode, err: errKinds[c.Intn(len(errKinds))]}
	kind := c.Intn(8)
	var dst io.Writer = w
	more := &fussyMore{fussy: w}
	switch kind {
	case 0:
		dst = fussyString{w}
	case 1:
		dst = fussyFrom{w}
	case 2:
		dst = more
	case 3:
		dst = io.MultiWriter(w)
	}
	err := s.f(f, dst)
	desc := fmt.Sprintf("%s of %d bytes, writer %T mode %d at byte %d, error %v", s.name, len(ref), dst, mode, at, w.err)
	if more.closed {
		c.Fail("closed", "%s: the save closed the caller's writer", desc)
	}
	switch {
	case err == nil && !bytes.Equal(w.got, ref):
		c.Fail("silent", "%s: no error, but %d bytes delivered:\n%q\nwant\n%q", desc, len(w.got), cut(w.got), cut(ref))
	case err == nil && w.fired:
		c.Fail("silent", "%s: the writer reported a failure, the save did not", desc)
	case err != nil && !w.fired:
		c.Fail("spurious", "%s: error %v although the writer never failed", desc, err)
	}
	switch mode {
	case 0, 1:
		c.Count("failing writes", 1)
	case 2, 3:
		c.Count("short writes", 1)
	default:
		c.Count("late errors", 1)
	}
}

func cut(b []byte) []byte {
	if len(b) > 1500 {
		return b[:1500]
	}
	return b
}

func c17faults(c *C) {
	msgs := c17cat(c, c.Intn(5))
	f := fileOf(c.Rand, msgs)
	before := fingerprint(f)
	for _, s := range savers {
		ref := save(c, func(w *bytes.Buffer) error { return s.f(f, w) })
		c.Distinct(s.name, string(ref))
		step := 1 + len(ref)/250
		for at := c.Intn(step); at <= len(ref); at += step {
			for mode := 0; mode < 5; mode++ {
				if mode%2 == 1 && step > 1 && c.Intn(3) > 0 {
					continue
				}
				c17at(c, f, s, ref, at, mode)
			}
		}
		for mode := 0; mode < 5; mode++ {
			for _, at := range []int{0, 1, len(ref) - 1, len(ref), len(ref) + 1} {
				if at >= 0 {
					c17at(c, f, s, ref, at, mode)
				}
			}
		}
	}
	if after := fingerprint(f); after != before {
		c.Fail("altered", "failing saves altered the catalog\nbefore %s\nafter %s", before, after)
	}
}

func c17large(c *C) {
	msgs := c17cat(c, 150+c.Intn(300))
	f := fileOf(c.Rand, msgs)
	s := savers[c.Index%3]
	ref := save(c, func(w *bytes.Buffer) error { return s.f(f, w) })
	c.Distinct("large", s.name, string(ref))
	spots := []int{0, 1, len(ref) - 1, len(ref) - 2, len(ref)}
	for _, b := range []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072} { // around usual buffer sizes
		for d := -2; d <= 2; d++ {
			spots = append(spots, b+d, len(ref)-b+d)
		}
	}
	for i := 0; i < 60; i++ {
		spots = append(spots, c.Intn(len(ref)))
	}
	for _, at := range spots {
		if at >= 0 && at <= len(ref) {
			c17at(c, f, s, ref, at, c.Intn(5))
		}
	}
}

func c17unaltered(c *C) {
	msgs := c17cat(c, c.Intn(10))
	f := new(translator.File)
	type kept struct {
		e    *translator.Entry
		copy string
		cmts []string
		strn []string
	}
	var ks []kept
	for _, i := range c.Perm(len(msgs)) {
		e := entryOf(msgs[i])
		if c.Intn(5) == 0 { // fields that are not used together
			e.MsgStr, e.MsgStrN = "single", []string{"one", "two"}
			if c.Intn(2) == 0 {
				e.MsgID2 = ""
			}
		}
		cm := append(make([]string, 0, len(e.MsgCmts)+2), e.MsgCmts...)
		st := append(make([]string, 0, len(e.MsgStrN)+2), e.MsgStrN...)
		copy(cm[:cap(cm)][len(cm):], []string{"canary1", "canary2"})
		copy(st[:cap(st)][len(st):], []string{"canary1", "canary2"})
		e.MsgCmts, e.MsgStrN = cm, st
		f.AddEntry(e)
		ks = append(ks, kept{e, fmt.Sprintf("%q", *e), cm, st})
	}
	type q struct {
		m Msg
		n int64
		a string
	}
	var qs []q
	ask := func(m Msg, n int64) string { return f.X(m.Ctx, m.ID) + "|" + f.XN64(m.Ctx, m.ID, m.ID2, n) }
	for _, m := range msgs {
		n := count(c.Rand)
		qs = append(qs, q{m, n, ask(m, n)})
	}
	before := fingerprint(f)
	for i, n := 0, 1+c.Intn(4); i < n; i++ {
		s := savers[c.Intn(3)]
		s.f(f, &fussy{at: c.Intn(3000), mode: c.Intn(5), err: errWriter})
		if after := fingerprint(f); after != before {
			c.Fail("altered", "%s altered the catalog\nbefore %s\nafter %s", s.name, before, after)
		}
		for _, k := range ks {
			if now := fmt.Sprintf("%q", *k.e); now != k.copy {
				c.Fail("altered", "%s altered an entry: %s became %s", s.name, k.copy, now)
			}
			if x := k.cmts[:len(k.cmts)+2]; x[len(x)-2] != "canary1" || x[len(x)-1] != "canary2" {
				c.Fail("altered", "%s wrote into a caller's comment slice: %q", s.name, x)
			}
			if x := k.strn[:len(k.strn)+2]; x[len(x)-2] != "canary1" || x[len(x)-1] != "canary2" {
				c.Fail("altered", "%s wrote into a caller's forms slice: %q", s.name, x)
			}
		}
		for _, q := range qs {
			if a := ask(q.m, q.n); a != q.a {
				c.Fail("altered", "%s changed lookups of %v at %d: %q became %q", s.name, q.m, q.n, q.a, a)
			}
		}
	}
	c.Count("catalogs compared", 1)
	c.Distinct("unaltered", before)
}

func c17os(c *C) {
	dir := c.Dir()
	defer os.RemoveAll(dir)
	f := fileOf(c.Rand, c17cat(c, 1+c.Intn(60)))
	for _, s := range savers {
		ref := save(c, func(w *bytes.Buffer) error { return s.f(f, w) })
		p := filepath.Join(dir, "out")
		o, err := os.Create(p)
		if err != nil {
			inconclusive("scratch: %v", err)
		}
		if err := s.f(f, o); err != nil {
			c.Fail("spurious", "%s to a file: %v", s.name, err)
		}
		o.Close()
		if b, _ := os.ReadFile(p); !bytes.Equal(b, ref) {
			c.Fail("silent", "%s to a file: %d bytes instead of %d", s.name, len(b), len(ref))
		}
		c17append(c, f, s, ref, dir)
		if s.f(f, o) == nil && len(ref) > 0 {
			c.Fail("silent", "%s to a closed file reports success", s.name)
		}
		c.Count("closed file", 1)
		if o, err := os.Open(p); err == nil {
			if s.f(f, o) == nil && len(ref) > 0 {
				c.Fail("silent", "%s to a file opened for reading reports success", s.name)
			}
			o.Close()
		}
		if o, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
			if s.f(f, o) == nil && len(ref) > 0 {
				c.Fail("silent", "%s to a full device reports success", s.name)
			}
			o.Close()
			c.Count("full device", 1)
		}
		r, w, err := os.Pipe()
		if err != nil {
			inconclusive("pipe: %v", err)
		}
		r.Close()
		if s.f(f, w) == nil && len(ref) > 0 {
			c.Fail("silent", "%s to a broken pipe reports success", s.name)
		}
		w.Close()
		pr, pw := io.Pipe()
		go func() {
			io.CopyN(io.Discard, pr, int64(len(ref)/2))
			pr.CloseWithError(errWriter)
		}()
		if err := s.f(f, pw); err == nil && len(ref) > 1 {
			c.Fail("silent", "%s to a reader that leaves half way reports success", s.name)
		}
		c.Distinct("os", s.name, fmt.Sprint(c.Index))
	}
}

// c17append saves where something is already: the bytes must follow it, and the destination must stay usable.
func c17append(c *C, f *translator.File, s saver, ref []byte, dir string) {
	head := []byte("already here\n")
	p := filepath.Join(dir, "more")
	for _, flag := range []int{0, os.O_APPEND} {
		o, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC|flag, 0o644)
		if err != nil {
			inconclusive("scratch: %v", err)
		}
		o.Write(head)
		want := append([]byte{}, head...)
		for i := 0; i < 2; i++ {
			if err := s.f(f, o); err != nil {
				c.Fail("spurious", "%s to an open file, save %d: %v", s.name, i, err)
			}
			want = append(want, ref...)
		}
		if _, err := o.Write(head); err != nil {
			c.Fail("closed", "%s: the file is not usable afterwards: %v", s.name, err)
		}
		want = append(want, head...)
		if b, _ := os.ReadFile(p); !bytes.Equal(b, want) {
			c.Fail("silent", "%s twice after %d bytes (flags %x): the file has %d bytes, want %d\ngot %q\nwant %q", s.name, len(head), flag, len(b), len(want), cut(b), cut(want))
		}
		o.Close()
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		inconclusive("pipe: %v", err)
	}
	ch := make(chan []byte)
	go func() {
		b, _ := io.ReadAll(pr)
		ch <- b
	}()
	err1, err2 := s.f(f, pw), s.f(f, pw)
	pw.Close()
	if b := <-ch; err1 != nil || err2 != nil || !bytes.Equal(b, append(append([]byte{}, ref...), ref...)) {
		c.Fail("silent", "%s twice to a pipe: %v %v, %d bytes, want twice %d", s.name, err1, err2, len(b), len(ref))
	}
	pr.Close()
	var mem bytes.Buffer
	mem.Write(head)
	if err := s.f(f, &mem); err != nil || !bytes.Equal(mem.Bytes(), append(append([]byte{}, head...), ref...)) {
		c.Fail("silent", "%s to a buffer with %d bytes: %v, %d bytes", s.name, len(head), err, mem.Len())
	}
	c.Count("appended saves", 1)
}
