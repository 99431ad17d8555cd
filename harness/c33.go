package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"text/template/parse"
	"time"

	"github.com/youthlin/t"
	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C33",
		Rule:        "Failures of known cause are provoked and the reported error is compared with the cause. po: PO texts with one damaged line (bad quoting in every kind of field and continuation, bad escapes, unknown keywords, strings outside a message, forms out of order), or several, at random places among blank lines, comments, long and wrapped messages, LF and CRLF: every way of reading them answers an error that names the number of the first damaged line, counted from 1, and shows that line, and no catalog; one without its msgid is located within its message; the same text without the damage is read without an error. mo: MO images of random layout with one damaged magic number, version, string descriptor, or cut: the error names the number or the string that is really out of the file. causes: files and writers whose Stat, Read or Write fails with an error of the case's own, alone or wrapped, at once or after some bytes: the load's and the save's errors are, for errors.Is and errors.As, that error; damaged content is reported by LoadFile as by the direct reading. rules: valid plural rules with a foreign character at a random place: the error is ErrAntlr and names the column; cut ones are ErrAntlr; those dividing by zero, too long or too deep are other errors; valid ones none, before and after. command: the real xtemplate runs over good and bad templates, in English and Chinese: each bad file, and none of the good ones, is named on stderr with Go's own diagnosis of it and its line; unreadable matches, outputs and bad indexes are named with their cause; every message used both ways is named with both places. Non-trivial: (damage, place, text).",
		Assumptions: []string{"the errors' wording is free, but numbers, names, quoted lines and wrapped causes are not", "Go's template parser is the reference for what is wrong with a template"},
		Sections: []Section{
			{Name: "po", Quick: 30000, Thorough: 600000, Fn: c33po, Need: []string{"damaged lines located", "undamaged texts read", "missing msgids located"}},
			{Name: "mo", Quick: 25000, Thorough: 500000, Fn: c33mo, Need: []string{"damaged images diagnosed", "strings named", "undamaged images read"}},
			{Name: "causes", Quick: 20000, Thorough: 400000, Fn: c33causes, Need: []string{"load causes kept", "save causes kept", "content errors compared"}},
			{Name: "rules", Quick: 12000, Thorough: 200000, Fn: c33rules, Need: []string{"columns named", "cut rules", "evaluation failures", "valid rules"}},
			{Name: "command", Quick: 2500, Thorough: 30000, Fn: c33command, Need: []string{"bad templates diagnosed", "unreadable matches named", "outputs named", "indexes named", "conflicts located"}},
		}})
}

// c33number tells that s has the number n, as a number of its own.
func c33number(s string, n int) bool {
	return regexp.MustCompile(`(^|[^0-9])` + strconv.Itoa(n) + `($|[^0-9])`).MatchString(s)
}

// c33broken is s quoted, or not quite.
func c33broken(c *C, s string) string {
	q := poQuote(c.Rand, s, 1)
	switch c.Intn(9) {
	case 0:
		return q[:len(q)-1] // no end
	case 1:
		return q[:len(q)-1] + `\"`
	case 2:
		return q + []string{"x", " y", `"`, `""`, `"z"`, " # no comment", ";", "\\"}[c.Intn(8)]
	case 3:
		return `"` + []string{`\q`, `\u12z`, `\8`, `\xg1`, `\`, `\'`, `\%`, `\ `, `\400`, `\9`}[c.Intn(10)] + q[1:]
	case 4:
		return `"a"b` + q[1:]
	case 5:
		return `'` + strings.ReplaceAll(q[1:len(q)-1], "'", "") + `'`
	case 6:
		return "`" + strings.ReplaceAll(q[1:len(q)-1], "`", "") + "`"
	case 7:
		return "x" + q
	}
	return []string{"", `"`, "0", "nil", "()", `“x”`, `"x”`}[c.Intn(7)]
}

type c33line struct {
	text string
	kind string // field, more, comment, blank
	msg  int
}

// c33doc is a PO text line by line.
func c33doc(c *C) (lines []c33line) {
	n := 1 + c.Intn(6)
	if c.Chance(1, 30) {
		n = 50 + c.Intn(400)
	}
	crlf := c.Chance(1, 4)
	add := func(m int, kind, s string) {
		if crlf {
			s += "\r"
		}
		lines = append(lines, c33line{s, kind, m})
	}
	gap := func(m int) {
		for c.Chance(1, 8) {
			add(m, "blank", []string{"", " ", "\t"}[c.Intn(3)])
		}
	}
	field := func(m int, kw, s string) {
		gap(m)
		if c.Chance(1, 3) || s == "" {
			add(m, "field", kw+" "+poQuote(c.Rand, s, c.Intn(3)))
			return
		}
		add(m, "field", kw+[]string{" ", "  ", " \t"}[c.Intn(3)]+`""`)
		for _, p := range pieces(c.Rand, s, c.Intn(3)) {
			gap(m)
			add(m, "more", poQuote(c.Rand, p, c.Intn(3)))
		}
	}
	for m := 0; m < n; m++ {
		for c.Chance(1, 4) {
			add(m, "blank", []string{"", "  ", "\t"}[c.Intn(3)])
		}
		for c.Chance(1, 3) {
			add(m, "comment", []string{"# 12", "#: a.go:7", "#, fuzzy", "#| msgid \"old", "#. line 3", "#", "#~ msgid \"x\""}[c.Intn(7)])
		}
		if m == 0 && c.Chance(2, 3) {
			field(m, "msgid", "")
			field(m, "msgstr", "Language: de\nPlural-Forms: nplurals=2; plural=n != 1;\nX-Line: 4\n")
			continue
		}
		if c.Chance(1, 3) {
			field(m, "msgctxt", nonEmpty(c.Rand))
		}
		field(m, "msgid", fmt.Sprint(m, " ", text(c.Rand)))
		if c.Chance(1, 3) {
			field(m, "msgid_plural", nonEmpty(c.Rand))
			for i, k := 0, 1+c.Intn(4); i < k; i++ {
				field(m, fmt.Sprintf("msgstr[%d]", i), nonEmpty(c.Rand))
			}
		} else {
			field(m, "msgstr", nonEmpty(c.Rand))
		}
	}
	for c.Chance(1, 3) {
		lines = append(lines, c33line{"", "blank", n})
	}
	return
}

func c33join(lines []c33line, end bool) string {
	var s []string
	for _, l := range lines {
		s = append(s, l.text)
	}
	out := strings.Join(s, "\n")
	if end {
		out += "\n"
	}
	return out
}

// c33damage damages line i, or puts a damaged one before it, and says how.
func c33damage(c *C, lines []c33line, i int) ([]c33line, string) {
	l := lines[i]
	cr := ""
	if strings.HasSuffix(l.text, "\r") {
		cr = "\r"
	}
	body := strings.TrimSuffix(l.text, "\r")
	put := func(s string) []c33line {
		out := append([]c33line(nil), lines[:i]...)
		return append(append(out, c33line{s + cr, "bad", l.msg}), lines[i:]...)
	}
	switch {
	case l.kind == "field" && c.Chance(2, 3):
		kw, _, _ := strings.Cut(body, " ")
		out := append([]c33line(nil), lines...)
		if c.Chance(1, 6) {
			// the keyword is damaged
			bad := []string{kw + "x", "x" + kw, strings.ToUpper(kw), " " + kw, kw + ":", "msgstr[99]", "msgstr[-1]", "msgstr[]", "msgstr[ 0]", "msgstr[x]", "msg", "domain"}[c.Intn(12)]
			out[i].text = bad + " " + poQuote(c.Rand, plain(c.Rand), 0) + cr
			return out, "keyword"
		}
		out[i].text = kw + " " + c33broken(c, plain(c.Rand)) + cr
		return out, "quoting of " + strings.TrimRight(kw, "0123456789[]")
	case l.kind == "more" && c.Chance(3, 4):
		out := append([]c33line(nil), lines...)
		for {
			out[i].text = c33broken(c, plain(c.Rand)) + cr
			if t := strings.TrimSpace(out[i].text); t != "" && t[0] != '#' {
				break
			}
		}
		return out, "continuation"
	}
	return put([]string{"garbage", "12 monkeys", "msgid", `msgid"x"`, "<<<<<<< HEAD", "=======", "{", "// no", "* x", "\ufeffmsgid \"x\"", "%s %d", " #x", "msgstr[12] \"out of order\"", "msgfoo \"x\"", "'x'", "'", "é"}[c.Intn(17)]), "foreign line"
}

// c33reads are the ways of reading a PO text.
func c33reads(c *C, data string) map[string]error {
	out := map[string]error{}
	f, err := translator.ReadPo([]byte(data))
	if err != nil && f != nil {
		c.Fail("half", "ReadPo answers a catalog and %v for %q", err, data)
	}
	out["ReadPo"] = err
	f, err = translator.ReadPot([]byte(data))
	if err != nil && f != nil {
		c.Fail("half", "ReadPot answers a catalog and %v for %q", err, data)
	}
	out["ReadPot"] = err
	tr := t.NewTranslation("d")
	out["LoadPo"] = tr.LoadPo([]byte(data))
	out["LoadFile"] = tr.LoadFile(&c33file{name: "a.po", data: []byte(data), step: 1 << 20})
	return out
}

func c33po(c *C) {
	lines := c33doc(c)
	end := c.Chance(3, 4)
	if c.Index%8 == 0 {
		c33missing(c)
		return
	}
	good := c33join(lines, end)
	for how, err := range c33reads(c, good) {
		if err != nil {
			c.Fail("undamaged", "%s: %v for a well-formed text\n%s", how, err, good)
		}
	}
	c.Count("undamaged texts read", 1)
	var bad []c33line
	what, at := "", 0
	for try := 0; ; try++ {
		if try > 40 {
			return
		}
		at = c.Intn(len(lines))
		bad, what = c33damage(c, lines, at)
		if c33isBad(strings.TrimSuffix(bad[at].text, "\r"), what) {
			break
		}
	}
	if c.Chance(1, 4) && at+1 < len(bad) { // another one later
		for i := 1 + c.Intn(3); i > 0; i-- {
			bad, _ = c33damage(c, bad, at+1+c.Intn(len(bad)-at-1))
		}
	}
	data := c33join(bad, end)
	line := strings.ReplaceAll(bad[at].text, "\r", "")
	for how, err := range c33reads(c, data) {
		if err == nil {
			c.Fail("accepted", "%s: no error for line %d %q (%s) of\n%s", how, at+1, line, what, data)
		}
		msg := err.Error()
		if !strings.Contains(msg, line) {
			c.Fail("line text", "%s: the error does not show line %d %q (%s): %v\n%s", how, at+1, line, what, err, data)
		}
		if !c33number(c33without(msg, line), at+1) {
			c.Fail("line number", "%s: the error does not name line %d %q (%s): %v\n%s", how, at+1, line, what, err, data)
		}
		c.Count("damaged lines located", 1)
	}
	c.Count("damage: "+what, 1)
	c.Distinct(what, fmt.Sprint(at), data)
	c.Sample("%s in line %d: %q", what, at+1, line)
}

// c33isBad makes sure that the line is not a good one by chance.
func c33isBad(line, what string) bool {
	if strings.TrimSpace(line) == "" || line[0] == '#' {
		return false
	}
	kw, rest := "", line
	for _, k := range []string{"msgctxt ", "msgid_plural ", "msgid ", "msgstr "} {
		if strings.HasPrefix(line, k) {
			kw, rest = k, line[len(k):]
		}
	}
	if m := regexp.MustCompile(`^msgstr\[\d\] `).FindString(line); m != "" {
		kw, rest = m, line[len(m):]
	}
	if kw == "" && line[0] != '"' {
		return true
	}
	_, err := poUnquote(strings.TrimSpace(rest))
	return err != nil
}

// c33without is msg without the line it shows.
func c33without(msg, line string) string {
	if i := strings.LastIndex(msg, line); i >= 0 {
		return msg[:i] + " " + msg[i+len(line):]
	}
	return msg
}

// c33missing has a message without its msgid.
func c33missing(c *C) {
	var sb strings.Builder
	line := func(format string, args ...any) { fmt.Fprintf(&sb, format+"\n", args...) }
	n := 0
	put := func(s string) { n++; line("%s", s) }
	for i := c.Intn(5); i >= 0; i-- {
		for c.Chance(1, 3) {
			put([]string{"", "# 5", "#: x:1"}[c.Intn(3)])
		}
		if c.Chance(1, 3) {
			put(`msgctxt "c"`)
		}
		put(fmt.Sprintf("msgid %q", fmt.Sprint("m", i)))
		put(`msgstr "x"`)
	}
	first := n + 1
	for c.Chance(1, 3) {
		put("# here")
	}
	fields := [][]string{{`msgctxt "c"`, `msgstr "x"`}, {`msgid_plural "c"`, `msgstr[0] "x"`}, {`msgctxt "c"`}, {`msgctxt "c"`, `msgid_plural "p"`, `msgstr[0] "x"`, `"y"`}}[c.Intn(4)]
	if fields[0] == `msgid_plural "c"` { // must not continue the message before
		put("# here")
	}
	for _, s := range fields {
		put(s)
	}
	last := n + 1
	if c.Chance(1, 2) {
		for c.Chance(1, 3) {
			put("# there")
			last++
		}
		if last == n+1 && !strings.HasPrefix(fields[len(fields)-1], "msgstr") && fields[len(fields)-1] != `"y"` {
			put("# there")
		}
		put(`msgctxt "d"`)
		put(`msgid "z"`)
		put(`msgstr "zz"`)
	}
	if c.Chance(1, 4) {
		for i := c.Intn(3); i >= 0; i-- {
			sb.WriteString("\n")
			if last == n+1 {
				last, n = last+1, n+1
			}
		}
	}
	data := sb.String()
	for how, err := range c33reads(c, data) {
		if err == nil {
			c.Fail("missing msgid", "%s: no error for the message in lines %d to %d of\n%s", how, first, last-1, data)
		}
		found := false
		for i := first; i <= last+1; i++ {
			found = found || c33number(err.Error(), i)
		}
		if !found {
			c.Fail("missing msgid", "%s: %v, for the message without msgid in lines %d to %d of\n%s", how, err, first, last-1, data)
		}
	}
	c.Count("missing msgids located", 1)
	c.Distinct("missing", data)
}

var c33name = regexp.MustCompile(`msg_?(id|str)\[(\d+)\]`)

func c33mo(c *C) {
	k := catalog(c.Rand, 1+c.Intn(12))
	f := moWrite(c.Rand, k.all(), randomMOLayout(c.Rand))
	read := func(data []byte) error {
		got, err := translator.ReadMo(data)
		if err != nil && got != nil {
			c.Fail("half", "ReadMo answers a catalog and %v", err)
		}
		err2 := t.NewTranslation("d").LoadMo(data)
		if (err == nil) != (err2 == nil) || err != nil && err.Error() != err2.Error() {
			c.Fail("load", "ReadMo: %v, LoadMo: %v", err, err2)
		}
		return err
	}
	if err := read(f.data); err != nil {
		c.Fail("undamaged", "%v for a well-formed image % x", err, cut(f.data))
	}
	c.Count("undamaged images read", 1)
	data := append([]byte(nil), f.data...)
	what := ""
	number := int64(-1)
	switch c.Intn(6) {
	case 0:
		what = "magic"
		v := c.Uint32()
		if c.Chance(1, 2) {
			v = uint32(0x950412de) ^ 1<<c.Intn(32)
		}
		if v == 0x950412de || v == 0xde120495 {
			return
		}
		f.bo.PutUint32(data, v)
	case 1:
		what = "version"
		rev := f.bo.Uint32(data[4:])
		number = int64(2 + c.Intn(1000))
		if c.Chance(1, 2) { // the upper half is the major version
			rev = rev&0xffff | uint32(number)<<16
		} else {
			rev = rev&^0xffff | uint32(number)
		}
		f.bo.PutUint32(data[4:], rev)
	case 2, 3:
		what = "descriptor"
		tab := []int{f.idTab, f.strTab}[c.Intn(2)]
		i := c.Intn(f.n)
		off := tab + 8*i
		switch c.Intn(3) {
		case 0:
			f.bo.PutUint32(data[off:], uint32(len(data))+1+uint32(c.Intn(1<<c.Intn(31))))
		case 1:
			f.bo.PutUint32(data[off+4:], uint32(len(data))+1+uint32(c.Intn(1<<c.Intn(31))))
		case 2: // just too long
			at := f.bo.Uint32(data[off+4:])
			f.bo.PutUint32(data[off:], uint32(len(data))-at+1)
		}
	default:
		what = "cut"
		data = data[:c.Intn(len(data))]
	}
	err := read(data)
	if err == nil {
		if what == "cut" && len(data) >= f.needed-1 { // only padding is missing
			return
		}
		c.Fail("accepted", "no error for a damaged %s: % x", what, cut(data))
	}
	msg := err.Error()
	if number >= 0 && !c33number(msg, int(number)) {
		c.Fail("version", "version %d is not named: %v", number, err)
	}
	if what == "magic" {
		v := f.bo.Uint32(data)
		le := uint32(data[0]) | uint32(data[1])<<8 | uint32(data[2])<<16 | uint32(data[3])<<24
		named := false
		for _, v := range []uint32{v, le} {
			named = named || c33number(msg, int(v)) || strings.Contains(strings.ToLower(msg), fmt.Sprintf("%x", v))
		}
		if !named {
			c.Fail("magic", "the magic number %d (%x) is not named: %v", le, le, err)
		}
	}
	if what == "descriptor" || what == "cut" && len(data) >= 28 {
		m := c33name.FindStringSubmatch(msg)
		if m == nil {
			c.Fail("string", "damaged %s: no string is named: %v", what, err)
		}
		i, _ := strconv.Atoi(m[2])
		tab := map[string]int{"id": f.idTab, "str": f.strTab}[m[1]]
		if i >= f.n {
			c.Fail("string", "damaged %s: %v, but there are %d messages", what, err, f.n)
		}
		if at := tab + 8*i; at+8 <= len(data) {
			length, off := int64(f.bo.Uint32(data[at:])), int64(f.bo.Uint32(data[at+4:]))
			if off+length <= int64(len(data)) {
				c.Fail("string", "damaged %s: %v, but that string is inside the file (%d bytes at %d of %d)", what, err, length, off, len(data))
			}
		}
		c.Count("strings named", 1)
	}
	if what == "cut" && len(data) < 28 && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
		c.Fail("end", "cut after %d bytes: %v", len(data), err)
	}
	c.Count("damaged images diagnosed", 1)
	c.Distinct(what, string(data))
}

// c33cause is an error of the case's own.
type c33cause struct {
	id    int
	inner error
}

func (e *c33cause) Error() string { return fmt.Sprintf("cause %d", e.id) }
func (e *c33cause) Unwrap() error { return e.inner }

func c33kept(c *C, err error, want *c33cause, top error, what string) {
	if err == nil {
		c.Fail("lost", "%s: no error, though it failed with %v", what, top)
	}
	var got *c33cause
	if !errors.Is(err, top) || !errors.Is(err, want) || !errors.As(err, &got) || got != want || want.inner != nil && !errors.Is(err, want.inner) {
		c.Fail("cause", "%s: %v (%T) is not the error it failed with: %v (%T)", what, err, err, top, top)
	}
	if !strings.Contains(err.Error(), top.Error()) {
		c.Fail("cause", "%s: %v does not show its cause: %v", what, err, top)
	}
}

type c33file struct {
	name     string
	data     []byte
	off      int
	stat     error
	read     error
	at, step int
	with     bool // the failing read delivers bytes as well
}

func (f *c33file) Stat() (fs.FileInfo, error) {
	if f.stat != nil {
		return nil, f.stat
	}
	return f, nil
}
func (f *c33file) Name() string       { return f.name }
func (f *c33file) Size() int64        { return int64(len(f.data)) }
func (f *c33file) Mode() fs.FileMode  { return 0o644 }
func (f *c33file) ModTime() time.Time { return time.Time{} }
func (f *c33file) IsDir() bool        { return false }
func (f *c33file) Sys() any           { return nil }
func (f *c33file) Close() error       { return nil }
func (f *c33file) Read(b []byte) (int, error) {
	end := len(f.data)
	if f.read != nil {
		end = f.at
	}
	n := copy(b, f.data[f.off:min(end, f.off+f.step)])
	f.off += n
	if f.off >= end && (n == 0 || f.with) {
		if f.read != nil {
			return n, f.read
		}
		return n, io.EOF
	}
	return n, nil
}

type c33writer struct {
	err       error
	at, step  int
	got       int
	swallowed bool
}

func (w *c33writer) Write(b []byte) (int, error) {
	if w.got+len(b) > w.at {
		n := w.at - w.got
		w.got = w.at
		return n, w.err
	}
	w.got += len(b)
	return len(b), nil
}

func c33causes(c *C) {
	cause := &c33cause{id: c.Intn(1 << 30)}
	if c.Chance(1, 2) {
		cause.inner = []error{io.ErrClosedPipe, os.ErrPermission, context.DeadlineExceeded, io.ErrNoProgress, fs.ErrNotExist, io.ErrUnexpectedEOF}[c.Intn(6)]
	}
	var top error = cause
	switch c.Intn(4) {
	case 0:
		top = fmt.Errorf("outer %d: %w", c.Intn(100), cause)
	case 1:
		top = &fs.PathError{Op: "op", Path: "p", Err: cause}
	case 2:
		top = errors.Join(errors.New("first"), cause)
	}
	k := catalog(c.Rand, c.Intn(20))
	f := fileOf(c.Rand, k.all())
	if c.Chance(1, 2) { // save
		s := savers[c.Intn(len(savers))]
		var ref bytes.Buffer
		must(s.f(f, &ref))
		if ref.Len() == 0 {
			return
		}
		w := &c33writer{err: top, at: c.Intn(ref.Len())}
		if c.Chance(1, 3) {
			w.at = []int{0, ref.Len() - 1}[c.Intn(2)]
		}
		err := s.f(f, w)
		c33kept(c, err, cause, top, fmt.Sprintf("saving as %s to a writer failing after %d of %d bytes", s.name, w.at, ref.Len()))
		c.Count("save causes kept", 1)
		c.Distinct(s.name, fmt.Sprint(w.at, ref.Len()))
		return
	}
	kind := []string{"po", "mo"}[c.Intn(2)]
	var data bytes.Buffer
	if kind == "po" {
		data.WriteString(poPrint(c.Rand, k.all(), randomLayout(c.Rand)))
	} else {
		data.Write(moWrite(c.Rand, k.all(), randomMOLayout(c.Rand)).data)
	}
	h := &c33file{name: []string{"a.", ".", "x.y.", "de_DE.po.", "é."}[c.Intn(5)] + kind, data: data.Bytes(), step: []int{1, 7, 512, 1 << 20}[c.Intn(4)], with: c.Chance(1, 2)}
	tr := t.NewTranslation("d")
	switch c.Intn(3) {
	case 0:
		h.stat = top
		c33kept(c, tr.LoadFile(h), cause, top, "LoadFile with a failing Stat")
		c.Count("load causes kept", 1)
	case 1:
		h.read = top
		h.at = c.Intn(len(h.data) + 1)
		c33kept(c, tr.LoadFile(h), cause, top, fmt.Sprintf("LoadFile with a Read failing after %d of %d bytes", h.at, len(h.data)))
		c.Count("load causes kept", 1)
	case 2:
		damaged := append([]byte(nil), h.data...)
		for i := c.Intn(3); i >= 0 && len(damaged) > 0; i-- {
			j := c.Intn(len(damaged))
			switch c.Intn(3) {
			case 0:
				damaged[j] ^= 1 << c.Intn(8)
			case 1:
				damaged = damaged[:j]
			case 2:
				damaged = append(damaged[:j:j], append([]byte(nonEmpty(c.Rand)), damaged[j:]...)...)
			}
		}
		h.data = damaged
		err := tr.LoadFile(h)
		want := t.NewTranslation("d").LoadPo
		if kind == "mo" {
			want = t.NewTranslation("d").LoadMo
		}
		werr := want(append([]byte(nil), damaged...))
		if (err == nil) != (werr == nil) || err != nil && !strings.Contains(err.Error(), werr.Error()) {
			c.Fail("content", "LoadFile(%s): %v, reading its content: %v", h.name, err, werr)
		}
		c.Count("content errors compared", 1)
		if err != nil {
			c.Count("content errors", 1)
		}
	}
	c.Distinct(kind, fmt.Sprint(h.at), data.String())
}

func c33rules(c *C) {
	var e *Expr
	var text string
	n := count(c.Rand)
	for {
		e = genExpr(c.Rand, 1+c.Intn(4))
		text = e.print(c.Rand, c.Intn(3), c.Intn(3))
		if mixedRel(e) || e.has("^") || e.lazyMatters(n) || len(text) > 2000 {
			continue
		}
		if _, err := e.eval(n); err == nil {
			break
		}
	}
	eval := func(s string) error {
		_, err := plurals.Eval(context.Background(), s, n)
		return err
	}
	valid := func() {
		if err := eval(text); err != nil {
			c.Fail("valid", "Eval(%q, %d): %v", text, n, err)
		}
		c.Count("valid rules", 1)
	}
	valid()
	rs := []rune(text)
	switch c.Intn(4) {
	case 0, 1:
		p := c.Intn(len(rs) + 1)
		if p > 0 && p < len(rs) && strings.ContainsRune("<>=!&|+-", rs[p-1]) && strings.ContainsRune("<>=&|+-", rs[p]) {
			return // within an operator
		}
		if p > 0 && p < len(rs) && strings.ContainsRune("0123456789", rs[p-1]) && strings.ContainsRune("0123456789", rs[p]) {
			return // within a number
		}
		ch := []rune("@#$;,.[]{}ém_x\"'`\\日\u00a0N")
		x := ch[c.Intn(len(ch))]
		s := string(rs[:p]) + string(x) + string(rs[p:])
		err := eval(s)
		if err == nil {
			c.Fail("foreign", "Eval(%q, %d): no error for %q", s, n, x)
		}
		if !errors.Is(err, plurals.ErrAntlr) {
			c.Fail("kind", "Eval(%q, %d): %v is not ErrAntlr", s, n, err)
		}
		if !c33number(err.Error(), p) {
			c.Fail("column", "Eval(%q, %d): %v does not name column %d", s, n, err, p)
		}
		if !strings.ContainsRune(err.Error(), x) {
			c.Fail("column", "Eval(%q, %d): %v does not show %q", s, n, err, x)
		}
		c.Count("columns named", 1)
		c.Distinct(s)
	case 2:
		toks, err := lexExpr(text)
		must(err)
		if len(toks) < 2 {
			return
		}
		k := 1 + c.Intn(len(toks)-1)
		s := strings.Join(toks[:k], " ")
		if _, perr := parseExpr(s); perr == nil {
			return
		}
		err = eval(s)
		if err == nil {
			if strings.HasPrefix(perrText(s), "trailing") {
				return // recorded finding of C02
			}
			c.Fail("cut", "Eval(%q, %d): no error", s, n)
		}
		if !errors.Is(err, plurals.ErrAntlr) {
			if strings.Contains(err.Error(), "zero") || strings.Contains(err.Error(), "shift") {
				return // the part that is there fails first
			}
			c.Fail("kind", "Eval(%q, %d): %v is not ErrAntlr", s, n, err)
		}
		c.Count("cut rules", 1)
		c.Distinct(s)
	case 3:
		s, want := "", ""
		switch c.Intn(4) {
		case 0:
			s, want = "("+text+")"+[]string{"/", "%"}[c.Intn(2)]+[]string{"0", "(n-n)", "(1-1)", "!1"}[c.Intn(4)], "zero"
		case 1:
			s, want = text+strings.Repeat(" ", 10000)+"+1", strconv.Itoa(len(text)+10002)
		case 2:
			s = strings.Repeat("(", 2000) + text + strings.Repeat(")", 2000)
			want = "deep"
		case 3:
			s = "n+" + strings.Repeat("9", 19+c.Intn(30))
			want = s[2:]
		}
		err := eval(s)
		if err == nil {
			c.Fail("evaluation", "Eval(%q, %d): no error", cut([]byte(s)), n)
		}
		if errors.Is(err, plurals.ErrAntlr) {
			c.Fail("kind", "Eval(%q, %d): %v is called a syntax error", cut([]byte(s)), n, err)
		}
		if !strings.Contains(err.Error(), want) {
			c.Fail("evaluation", "Eval(%q, %d): %v does not tell %q", cut([]byte(s)), n, err, want)
		}
		c.Count("evaluation failures", 1)
	}
	valid()
}

func perrText(s string) string {
	_, err := parseExpr(s)
	if err == nil {
		return ""
	}
	return err.Error()
}

// c33wrong is Go's own diagnosis of a template.
func c33wrong(src, left, right string) string {
	tr := parse.New("")
	tr.Mode = parse.SkipFuncCheck
	if _, err := tr.Parse(src, left, right, map[string]*parse.Tree{}); err != nil {
		return err.Error()
	}
	return ""
}

func c33command(c *C) {
	switch c.Intn(6) {
	case 0, 1, 2:
		c33templates(c)
	case 3:
		c33conflicts(c)
	case 4:
		c33indexes(c)
	case 5:
		c33output(c)
	}
}

func c33env(c *C) []string {
	return [][]string{nil, {"LANG=zh_CN.UTF-8"}, {"LANGUAGE=zh"}, {"LC_ALL=de_DE.UTF-8"}}[c.Intn(4)]
}

func c33templates(c *C) {
	x := xmake(c, xconventional, 2+c.Intn(4))
	defer os.RemoveAll(x.dir)
	diag := map[string]string{}
	bad := 0
	for i, name := range x.files {
		if i > 0 && c.Chance(1, 2) {
			continue
		}
		p := name
		if !filepath.IsAbs(p) {
			p = filepath.Join(x.dir, p)
		}
		for try := 0; try < 50; try++ {
			src := c21damage(c, x.srcs[i], x)
			if d := c33wrong(src, x.left, x.right); d != "" {
				must(os.WriteFile(p, []byte(src), 0o644))
				diag[name] = d
				x.srcs[i] = src
				bad++
				break
			}
		}
	}
	if bad == 0 {
		return
	}
	want := map[string]string{}
	if c.Chance(1, 3) { // something that cannot be read
		p := filepath.Join(filepath.Dir(x.files[0]), []string{"000.tmpl", "zzz.tmpl"}[c.Intn(2)])
		full := p
		if !filepath.IsAbs(full) {
			full = filepath.Join(x.dir, p)
		}
		if ok, _ := filepath.Match(x.pattern, p); ok {
			switch c.Intn(3) {
			case 0:
				must(os.Mkdir(full, 0o755))
			case 1:
				must(os.Symlink("nowhere", full))
			case 2:
				must(os.Symlink(filepath.Base(full), full))
			}
			_, err := os.ReadFile(full)
			var pe *fs.PathError
			if errors.As(err, &pe) {
				want[p] = pe.Err.Error()
			}
		}
	}
	args := x.args()
	if c.Chance(1, 4) {
		args = append(args, "-o", "out.pot")
	}
	dbg := c.Chance(1, 5)
	if dbg {
		args = append(args, "-d")
	}
	r := xrun(c, x.dir, nil, c33env(c), args...)
	if r.code == 0 {
		c.Fail("success", "exit 0 with %d bad templates\n%s", bad, x.show())
	}
	for name, d := range diag {
		if !c33together(r.err, name, d) {
			c.Fail("template", "%s has %q, but the messages do not say so:\n%s\n%s", name, d, r.err, x.show())
		}
		c.Count("bad templates diagnosed", 1)
	}
	for name, d := range want {
		if !c33together(r.err, name, d) {
			c.Fail("unreadable", "%s: %q, but the messages do not say so:\n%s", name, d, r.err)
		}
		c.Count("unreadable matches named", 1)
	}
	if !dbg {
		for _, name := range x.files {
			if diag[name] == "" && regexp.MustCompile(`(^|[^0-9A-Za-z_])`+regexp.QuoteMeta(name)+`([^0-9A-Za-z_]|$)`).MatchString(c33noWarnings(r.err)) {
				c.Fail("good file", "%s is well-formed, but the messages name it:\n%s\n%s", name, r.err, x.show())
			}
		}
	}
	c.Distinct(x.show())
}

// c33together tells that a line of the messages has both.
func c33together(msgs, a, b string) bool {
	for at := 0; ; {
		i := strings.Index(msgs[at:], b)
		if i < 0 {
			return false
		}
		start := strings.LastIndexByte(msgs[:at+i], '\n') + 1
		if strings.Contains(msgs[start:at+i], a) {
			return true
		}
		at += i + 1
	}
}

// c33noWarnings drops what is said about messages used both ways.
func c33noWarnings(msgs string) string {
	var out []string
	for _, l := range strings.Split(msgs, "\n") {
		if !strings.Contains(l, "=[") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func c33conflicts(c *C) {
	dir := c.Dir()
	defer os.RemoveAll(dir)
	type use struct {
		at     string
		plural bool
	}
	uses := map[string][]use{}
	ids := []string{}
	for i := 1 + c.Intn(3); i >= 0; i-- {
		ids = append(ids, fmt.Sprintf("m%d %s", i, []string{"text", "50% off", "%d%s", "é"}[c.Intn(4)]))
	}
	files := []string{"a.tmpl", "b.tmpl", "c d.tmpl"}[:1+c.Intn(3)]
	for _, name := range files {
		var sb strings.Builder
		line := 1
		for i := c.Intn(8); i >= 0; i-- {
			for c.Chance(1, 3) {
				sb.WriteString("text\n")
				line++
			}
			id := ids[c.Intn(len(ids))]
			p := c.Chance(1, 3)
			if p {
				fmt.Fprintf(&sb, "{{N %q \"ps\" 2}}", id)
			} else {
				fmt.Fprintf(&sb, "{{T %q}}", id)
			}
			uses[id] = append(uses[id], use{fmt.Sprintf("%s:%d", name, line), p})
			if c.Chance(4, 5) {
				sb.WriteString("\n")
				line++
			}
		}
		must(os.WriteFile(filepath.Join(dir, name), []byte(sb.String()), 0o644))
	}
	r := xrun(c, dir, nil, c33env(c), "-i", "*.tmpl", "-k", "T;N:1,2")
	if r.code != 0 {
		c.Fail("conflict", "exit %d: %s", r.code, r.err)
	}
	total := 0
	for _, id := range ids {
		us := uses[id]
		uses[id] = nil
		for _, u := range us {
			if u.plural == us[0].plural {
				continue
			}
			total++
			found := false
			for _, part := range strings.Split(r.err, id)[1:] {
				ls := strings.SplitN(part, "\n", 4)
				if len(ls) < 3 || !strings.Contains(ls[1], u.at) || !strings.Contains(ls[2], us[0].at) {
					continue
				}
				found = true
			}
			if !found {
				c.Fail("conflict", "%q is used at %s and at %s, but the messages do not tell:\n%s", id, us[0].at, u.at, r.err)
			}
			c.Count("conflicts located", 1)
		}
	}
	if n := strings.Count(r.err, "=["); n != 2*total {
		c.Fail("conflict", "%d conflicting uses, but %d places are shown:\n%s", total, n, r.err)
	}
	c.Distinct(r.err)
}

func c33indexes(c *C) {
	dir := c.Dir()
	defer os.RemoveAll(dir)
	must(os.WriteFile(filepath.Join(dir, "a.tmpl"), []byte("{{T \"a\"}}"), 0o644))
	bad := []string{"x", "1x", "c1", "0x1", "1.5", "½", "one", "%d", "1 2", "9999999999999999999", "99999999999999999999999"}[c.Intn(11)]
	form := []string{"F:@", "F:@,2", "F:1,@", "F:@c,2", "F:1c,@", "F:@c,2,3", "F:1c,@,3", "F:1c,2,@"}[c.Intn(8)]
	decl := strings.Replace(form, "@", bad, 1)
	all := []string{"", "T;", "T;N:1,2;", " T ; "}[c.Intn(4)] + decl + []string{"", ";X:1c,2"}[c.Intn(2)]
	r := xrun(c, dir, nil, c33env(c), "-i", "*.tmpl", "-k", all)
	if r.code == 0 {
		c.Fail("index", "-k %q: exit 0", all)
	}
	if !strings.Contains(r.err, all) {
		c.Fail("index", "-k %q: the declarations are not shown: %s", all, r.err)
	}
	if n := strings.Count(strings.ReplaceAll(r.err, all, ""), bad); n == 0 {
		c.Fail("index", "-k %q: the index %q is not shown: %s", all, bad, r.err)
	}
	c.Count("indexes named", 1)
	c.Distinct(all)
}

func c33output(c *C) {
	dir := c.Dir()
	defer os.RemoveAll(dir)
	must(os.WriteFile(filepath.Join(dir, "a.tmpl"), []byte("{{T \"a\"}}"), 0o644))
	must(os.Mkdir(filepath.Join(dir, "sub"), 0o755))
	must(os.Symlink("loop", filepath.Join(dir, "loop")))
	must(os.WriteFile(filepath.Join(dir, "plain"), nil, 0o644))
	o := []string{"missing/out.pot", "sub", "loop", "plain/out.pot", "missing/é%d.pot", strings.Repeat("x", 300), "sub/../missing/x", "/dev/full"}[c.Intn(8)]
	var cause string
	if o == "/dev/full" {
		cause = "no space left on device"
	} else {
		full := filepath.Join(dir, o)
		if strings.Contains(o, "..") {
			full = dir + "/" + o
		}
		h, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE, 0o644)
		if err == nil {
			h.Close()
			inconclusive("%s can be opened", full)
		}
		var pe *fs.PathError
		if !errors.As(err, &pe) {
			inconclusive("%v", err)
		}
		cause = pe.Err.Error()
	}
	r := xrun(c, dir, nil, c33env(c), "-i", "*.tmpl", "-k", "T", "-o", o)
	if r.code == 0 {
		c.Fail("output", "-o %s: exit 0", o)
	}
	if !strings.Contains(r.err, o) || !strings.Contains(r.err, cause) {
		c.Fail("output", "-o %s: %q is not told: %s", o, cause, r.err)
	}
	c.Count("outputs named", 1)
	c.Distinct(o, r.err)
}
