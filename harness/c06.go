package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C06",
		Rule:        "Catalogs are laid out as MO files by an independent writer (both byte orders, revisions 0.0 to 1.1, tables in any order and place, shared, overlapping, shuffled, padded and aligned strings, hash tables with arbitrary content, 0 to thousands of messages) and read; messages, header and lookups are compared. Every truncation that cuts a needed byte and every table or string pointer moved outside the file must be an error. Non-trivial: distinct files, cuts and corrupted pointers.",
		Assumptions: []string{"texts without NUL and EOT bytes", "the content and place of the hash table and a missing NUL after the last string are not asserted to be errors"},
		Sections: []Section{
			{Name: "layouts", Quick: 15000, Thorough: 200000, Fn: c06layouts, Need: []string{"files read", "big endian", "shared strings"}},
			{Name: "cuts", Quick: 600, Thorough: 6000, Fn: c06cuts, Need: []string{"truncations rejected"}},
			{Name: "pointers", Quick: 12500, Thorough: 150000, Fn: c06pointers, Need: []string{"bad pointers rejected"}},
			{Name: "big", Quick: 14, Thorough: 80, Fn: c06big},
		}})
}

func c06layouts(c *C) {
	k := catalog(c.Rand, c.Intn(20))
	for i := range k.Msgs { // empty translations and empty forms are legal in MO
		if c.Intn(10) == 0 {
			m := &k.Msgs[i]
			m.Str = ""
			for j := range m.StrN {
				if c.Intn(2) == 0 {
					m.StrN[j] = ""
				}
			}
		}
		k.Msgs[i].Cmts = nil
	}
	k.HCmts = nil
	l := randomMOLayout(c.Rand)
	all := k.all()
	if c.Intn(20) == 0 { // no header
		all = k.Msgs
	}
	want := all
	if c.Intn(6) == 0 { // what follows a further NUL in the plural id belongs to it, not to the id
		want = append([]Msg(nil), all...)
		all = append([]Msg(nil), all...)
		for i := range all {
			if all[i].Plural && c.Intn(2) == 0 {
				all[i].ID2 += "\x00" + []string{"", "x", "more\x00"}[c.Intn(3)]
			}
		}
	}
	mf := moWrite(c.Rand, all, l)
	before := append([]byte(nil), mf.data...)
	f, err := translator.ReadMo(mf.data)
	if err != nil {
		c.Fail("read", "ReadMo failed: %v\n%+v\n%x", err, l, mf.data)
	}
	if !bytes.Equal(before, mf.data) {
		c.Fail("input", "ReadMo changed its input")
	}
	got := fileMsgs(f)
	for i := range got {
		got[i].ID2, _, _ = strings.Cut(got[i].ID2, "\x00")
	}
	if d := sameMsgs(want, got, true); d != "" {
		c.Fail("messages", "%s\n%+v", d, l)
	}
	if len(all) > len(k.Msgs) {
		checkHeader(c, f, k, "mo")
		if d := lookAll(c, f, k, 6); d != "" {
			c.Fail("lookup", "%s\n%+v", d, l)
		}
	}
	c.Count("files read", 1)
	if l.Big {
		c.Count("big endian", 1)
	}
	if l.Share {
		c.Count("shared strings", 1)
	}
	c.Distinct(string(mf.data))
	c.Sample("%+v: %d messages, %d bytes", l, len(all), len(mf.data))
}

func c06cuts(c *C) {
	k := catalog(c.Rand, c.Intn(6))
	l := randomMOLayout(c.Rand)
	mf := moWrite(c.Rand, k.all(), l)
	step := 1
	if len(mf.data) > 3000 {
		step = 7
	}
	for cut := 0; cut < len(mf.data); cut++ {
		if cut > 64 && cut < mf.needed-64 && step > 1 && cut%step != 0 {
			continue
		}
		f, err := translator.ReadMo(mf.data[:cut:cut])
		if cut < mf.needed {
			if err == nil {
				c.Fail("truncated", "a file of %d bytes cut to %d (needs %d) was read without error: %d messages\n%+v", len(mf.data), cut, mf.needed, len(f.SortedEntry()), l)
			}
			c.Count("truncations rejected", 1)
		} else if err == nil {
			if d := sameMsgs(k.all(), fileMsgs(f), false); d != "" {
				c.Fail("truncated", "cut to %d of %d: %s", cut, len(mf.data), d)
			}
		}
	}
	c.Distinct(string(mf.data))
}

func c06pointers(c *C) {
	k := catalog(c.Rand, 1+c.Intn(5))
	l := randomMOLayout(c.Rand)
	mf := moWrite(c.Rand, k.all(), l)
	b := append([]byte(nil), mf.data...)
	size := uint32(len(b))
	put := func(at int, v uint32) { mf.bo.PutUint32(b[at:], v) }
	outside := func() uint32 {
		return []uint32{size, size + 1, size + uint32(c.Intn(1000)), 1 << 31, 1<<31 - 1, 1<<32 - 1, 1<<32 - 8, -size, uint32(c.Int63())>>1 | 1<<31}[c.Intn(9)]
	}
	what := ""
	switch c.Intn(7) {
	case 0:
		v := []uint32{size/8 + 1, size, 1 << 29, 1<<29 + 1, 1 << 31, 1<<32 - 1}[c.Intn(6)]
		put(8, v)
		what = fmt.Sprintf("number of strings %d", v)
	case 1:
		v := outside()
		if c.Intn(3) == 0 {
			v = size - uint32(8*mf.n) + 1 + uint32(c.Intn(8*mf.n-1))
		}
		at := 12 + 4*c.Intn(2)
		put(at, v)
		what = fmt.Sprintf("table offset at %d set to %d", at, v)
	case 2, 3, 4: // a string
		tab, i := mf.idTab, c.Intn(mf.n)
		if c.Intn(2) == 0 {
			tab = mf.strTab
		}
		at := tab + 8*i
		ln, off := mf.bo.Uint32(b[at:]), mf.bo.Uint32(b[at+4:])
		switch c.Intn(4) {
		case 0:
			off = outside()
			ln = max(ln, 1)
		case 1:
			ln = size - off + 1 + uint32(c.Intn(50))
		case 2:
			ln = []uint32{1 << 31, 1<<31 - 1, 1<<32 - 1, -off, -off + 1, size + 1}[c.Intn(6)]
		default:
			off = size - uint32(c.Intn(10))
			ln = size - off + 1 + uint32(c.Intn(3))
		}
		if uint64(ln)+uint64(off) <= uint64(size) || ln == 0 {
			return
		}
		put(at, ln)
		put(at+4, off)
		what = fmt.Sprintf("string %d of the table at %d: length %d offset %d, file has %d", i, tab, ln, off, size)
	case 5:
		v := uint32(c.Int63())
		if v == 0x950412de || v == 0xde120495 {
			return
		}
		if c.Intn(2) == 0 {
			v = mf.bo.Uint32(b) ^ 1<<uint(c.Intn(32))
		}
		put(0, v)
		what = fmt.Sprintf("magic %x", v)
	default:
		v := uint32(2+c.Intn(65534)) << 16
		put(4, v)
		what = fmt.Sprintf("revision %x", v)
	}
	if f, err := translator.ReadMo(b); err == nil {
		c.Fail("bad pointer", "%s was read without error: %d messages", what, len(f.SortedEntry()))
	}
	c.Count("bad pointers rejected", 1)
	c.Distinct(string(b))
	c.Sample("%s", what)
}

func c06big(c *C) {
	k := &Cat{Lang: "de", NForms: 2, Rule: "n != 1", Expr: mustParseExpr("n != 1")}
	k.setHeader(c.Rand)
	k.HCmts = nil
	n := 500 + c.Intn(4000)
	if c.Index%7 == 0 {
		n = 65530 + c.Intn(20)
	}
	for i := 0; i < n; i++ {
		k.Msgs = append(k.Msgs, Msg{ID: fmt.Sprintf("%d", i), Str: fmt.Sprintf("translation %d", i)})
	}
	if c.Intn(2) == 0 {
		k.Msgs = append(k.Msgs, Msg{ID: "long", Str: string(bytes.Repeat([]byte("0123456789abcdef"), 20000))})
	}
	l := randomMOLayout(c.Rand)
	mf := moWrite(c.Rand, k.all(), l)
	f, err := translator.ReadMo(mf.data)
	if err != nil {
		c.Fail("read", "%v", err)
	}
	if d := sameMsgs(k.all(), fileMsgs(f), true); d != "" {
		c.Fail("messages", "%s\n%+v", d, l)
	}
	c.Count("files read", 1)
	c.Distinct("big", fmt.Sprint(n, l))
}
