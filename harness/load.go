package main

// Loading a catalog through each of the repository's doors, and comparing.

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

// Looker is anything that answers lookups.
type Looker interface {
	X(ctx, id string, args ...any) string
	XN64(ctx, id, id2 string, n int64, args ...any) string
}

var doors = []string{"po", "mo", "file", "domain-po", "domain-mo", "resaved-mo", "resaved-po"}

func entryOf(m Msg) *translator.Entry {
	return &translator.Entry{MsgCmts: append([]string(nil), m.Cmts...), MsgCtxt: m.Ctx, MsgID: m.ID, IsPlural: m.Plural, MsgID2: m.ID2,
		MsgStr: m.Str, MsgStrN: append([]string(nil), m.StrN...)}
}

func msgOf(e *translator.Entry) Msg {
	return Msg{Cmts: e.MsgCmts, Ctx: e.MsgCtxt, ID: e.MsgID, Plural: e.IsPlural, ID2: e.MsgID2, Str: e.MsgStr, StrN: e.MsgStrN}
}

func fileOf(r *rand.Rand, msgs []Msg) *translator.File {
	f := new(translator.File)
	order := r.Perm(len(msgs))
	for _, i := range order {
		f.AddEntry(entryOf(msgs[i]))
	}
	return f
}

// open loads the catalog through a door.
func open(c *C, k *Cat, door string) Looker {
	all := k.all()
	switch door {
	case "po":
		src := poPrint(c.Rand, all, randomLayout(c.Rand))
		f, err := translator.ReadPo([]byte(src))
		if err != nil {
			c.Fail("read", "ReadPo of well-formed text failed: %v\n%s", err, src)
		}
		return f
	case "mo":
		f, err := translator.ReadMo(moWrite(c.Rand, all, randomMOLayout(c.Rand)).data)
		if err != nil {
			c.Fail("read", "ReadMo of a well-formed file failed: %v", err)
		}
		return f
	case "file":
		return fileOf(c.Rand, all)
	case "resaved-mo", "resaved-po":
		var b bytes.Buffer
		var f *translator.File
		var err error
		if door == "resaved-mo" {
			if err = fileOf(c.Rand, all).SaveAsMo(&b); err == nil {
				f, err = translator.ReadMo(b.Bytes())
			}
		} else {
			if err = fileOf(c.Rand, all).SaveAsPo(&b); err == nil {
				f, err = translator.ReadPo(b.Bytes())
			}
		}
		if err != nil {
			c.Fail("read", "%s failed: %v", door, err)
		}
		return f
	case "domain-po", "domain-mo":
		name, data := "x.po", []byte(poPrint(c.Rand, all, randomLayout(c.Rand)))
		if door == "domain-mo" {
			name, data = "sub/x.mo", moWrite(c.Rand, all, randomMOLayout(c.Rand)).data
		}
		ts := t.NewTranslations()
		ts.BindFS("dom", fstest.MapFS{name: {Data: data}})
		if !ts.HasDomain("dom") {
			c.Fail("read", "BindFS of a well-formed %s bound nothing", name)
		}
		return ts.D("dom").L(k.Lang)
	}
	panic("door")
}

func sortMsgs(ms []Msg) []Msg {
	out := append([]Msg(nil), ms...)
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].Ctx != out[j].Ctx {
			return out[i].Ctx < out[j].Ctx
		}
		return out[i].ID < out[j].ID
	})
	return out
}

func noObsolete(cmts []string) []string {
	var out []string
	for _, s := range cmts {
		if !strings.HasPrefix(s, "#~") {
			out = append(out, s)
		}
	}
	return out
}

// sameMsgs compares two message sets; "" when equal.
func sameMsgs(want, got []Msg, withCmts bool) string {
	want, got = sortMsgs(want), sortMsgs(got)
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) {
			return fmt.Sprintf("extra message %v", got[i])
		}
		if i >= len(got) {
			return fmt.Sprintf("missing message %v", want[i])
		}
		a, b := want[i], got[i]
		if a.Ctx != b.Ctx || a.ID != b.ID || a.Plural != b.Plural || a.ID2 != b.ID2 || a.Str != b.Str || strings.Join(a.StrN, "\x00") != strings.Join(b.StrN, "\x00") || len(a.StrN) != len(b.StrN) {
			return fmt.Sprintf("message differs\nwant %v\ngot  %v", a, b)
		}
		if withCmts && !(len(a.Cmts) == 0 && len(noObsolete(b.Cmts)) == 0) && !reflect.DeepEqual(a.Cmts, noObsolete(b.Cmts)) {
			return fmt.Sprintf("comments differ\nwant %v\ngot  %v", a, b)
		}
	}
	return ""
}

func fileMsgs(f *translator.File) []Msg {
	var out []Msg
	for _, e := range f.SortedEntry() {
		out = append(out, msgOf(e))
	}
	return out
}

func poMsgs(es []poEntry) []Msg {
	var out []Msg
	for _, e := range es {
		out = append(out, e.Msg)
	}
	return out
}

// lookAll compares every lookup of k's messages, and some absent ones, with the reference. "" when equal.
func lookAll(c *C, l Looker, k *Cat, max int) string {
	ref := newRef(k)
	order := c.Perm(len(k.Msgs))
	if len(order) > max {
		order = order[:max]
	}
	for _, i := range order {
		m := k.Msgs[i]
		if !m.Plural {
			if got, want := l.X(m.Ctx, m.ID), ref.X(m.Ctx, m.ID); got != want {
				return fmt.Sprintf("X(%q,%q)=%q want %q", m.Ctx, m.ID, got, want)
			}
		} else {
			for j := 0; j < 4; j++ {
				n := count(c.Rand)
				if got, want := l.XN64(m.Ctx, m.ID, m.ID2, n), ref.XN(m.Ctx, m.ID, m.ID2, n); got != want {
					return fmt.Sprintf("XN64(%q,%q,%q,%d)=%q want %q (rule %s)", m.Ctx, m.ID, m.ID2, n, got, want, k.Forms)
				}
			}
		}
		other := m.Ctx + "!"
		if _, ok := ref.m[[2]string{other, m.ID}]; !ok {
			if got := l.X(other, m.ID); got != m.ID {
				return fmt.Sprintf("X(%q,%q)=%q although absent", other, m.ID, got)
			}
		}
		c.Count("lookups", 1)
	}
	return ""
}

// fingerprint is everything observable about a file.
func fingerprint(f *translator.File) string {
	var sb strings.Builder
	for _, e := range f.SortedEntry() {
		fmt.Fprintf(&sb, "%v\n", msgOf(e))
	}
	l, _ := f.GetHeader("Language")
	p, ok := f.GetHeader("Plural-Forms")
	fmt.Fprintf(&sb, "%q %q %q %v", f.Lang(), l, p, ok)
	return sb.String()
}

func have(tool string) bool { _, err := exec.LookPath(tool); return err == nil }

// msgfmt compiles PO text with GNU gettext; ok is false when the tool is missing.
func msgfmt(c *C, po []byte) (img *moImage, out string, ok bool) {
	if !have("msgfmt") {
		return nil, "", false
	}
	dir := c.Dir()
	defer os.RemoveAll(dir)
	in, mo := filepath.Join(dir, "in.po"), filepath.Join(dir, "out.mo")
	os.WriteFile(in, po, 0o644)
	cmd := exec.Command("msgfmt", "-o", mo, in)
	cmd.Env = append(cleanEnv(), "LC_ALL=C.UTF-8", "LANGUAGE=en")
	b, err := cmd.CombinedOutput()
	if err != nil {
		if _, isExit := err.(*exec.ExitError); !isExit {
			return nil, "", false
		}
		return nil, err.Error() + ": " + string(b), true
	}
	data, err := os.ReadFile(mo)
	if err != nil {
		return nil, "no output: " + string(b), true
	}
	img, err = moRead(data)
	if err != nil {
		return nil, "", false // not ours
	}
	return img, "", true
}

// msgunfmt decompiles MO bytes with GNU gettext.
func msgunfmt(c *C, mo []byte) (msgs []Msg, out string, ok bool) {
	if !have("msgunfmt") {
		return nil, "", false
	}
	dir := c.Dir()
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "in.mo")
	os.WriteFile(in, mo, 0o644)
	cmd := exec.Command("msgunfmt", in)
	cmd.Env = append(cleanEnv(), "LC_ALL=C.UTF-8", "LANGUAGE=en")
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Run(); err != nil {
		if _, isExit := err.(*exec.ExitError); !isExit {
			return nil, "", false
		}
		return nil, err.Error() + ": " + eb.String(), true
	}
	es, err := poParse(ob.String())
	if err != nil {
		return nil, "", false
	}
	return poMsgs(es), "", true
}
