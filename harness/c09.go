package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/youthlin/t/translator"
)

func init() {
	register(&Property{ID: "C09",
		Rule:        "Byte sequences made by mutating, truncating, splicing and repeating well-formed PO, POT and MO files, from token soups and from random bytes are read by all three readers; whatever is accepted is queried with its own and foreign messages, arguments and counts, listed, saved in the three formats and, as PO, read back. Panics, crashes (address space limited to 8 GB), hangs, allocations beyond what the input holds and lost translations are violations. Non-trivial: distinct inputs; accepted ones are counted apart.",
		Assumptions: []string{"inputs up to 150 KB, one plural expression of 4 MB"},
		Sections: []Section{
			{Name: "po", Quick: 4000, Thorough: 60000, Fn: c09po, Need: []string{"accepted", "rejected"}},
			{Name: "mo", Quick: 8000, Thorough: 100000, Fn: c09mo},
			{Name: "soup", Quick: 5000, Thorough: 60000, Fn: c09soup},
			{Name: "lengths", Quick: 400, Thorough: 3000, Fn: c09lengths, Need: []string{"hostile lengths"}},
			{Name: "claims", Quick: 1500, Thorough: 15000, Fn: c09claims, Need: []string{"hostile numbers"}},
			{Name: "repeat", Quick: len(c09units) * 2, Thorough: len(c09units) * 4, Fn: c09repeat},
		}})
}

var hostileFrags = []string{"msgid ", "msgid \"\"\n", "msgstr \"", "msgstr[0] \"a\"\n", "msgstr[1] \"b\"\n", "msgid_plural \"p\"\n", "msgctxt \"c\"\n", "\n\n", "#~ ", "#, fuzzy\n", "\"", "\\", "\\n", "\\x", "\\777",
	"\\400", "\\u0041", "\\U0010ffff", "\\ud800", "'a'", "`raw`", "msgid `x`\n", "msgid 'y'\n", "Plural-Forms: nplurals=2; plural=n!=1;\\n", "nplurals=9; plural=n/0;", "nplurals=9; plural=n;", "nplurals=1; plural=-n;", "\x00", "\x04", "\xff",
	"\xef\xbb\xbf", "\r", "\r\n", "\u2028", ": ", "msgstr[", "msgstr[9999999999] \"x\"\n", "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=3; plural=n%3;\\n\"\n", "msgctxt \"\"\n", "msgid_plural \"\"\n", "%d", "%", "%[1]", "%*d", "%!", "(((((", "n?n:", "--n++"}

func mutate(c *C, b []byte, other []byte) []byte {
	b = append([]byte(nil), b...)
	for k, n := 0, 1+c.Intn(4); k < n; k++ {
		if len(b) == 0 {
			b = []byte{byte(c.Intn(256))}
		}
		i := c.Intn(len(b))
		switch c.Intn(10) {
		case 0:
			b[i] ^= 1 << uint(c.Intn(8))
		case 1:
			b[i] = byte(c.Intn(256))
		case 2:
			j := min(len(b), i+1+c.Intn(30))
			b = append(b[:i:i], b[j:]...)
		case 3:
			b = b[:i]
		case 4, 5:
			f := hostileFrags[c.Intn(len(hostileFrags))]
			b = append(b[:i:i], append([]byte(f), b[i:]...)...)
		case 6:
			j := min(len(b), i+c.Intn(100))
			piece := append([]byte(nil), b[i:j]...)
			at := c.Intn(len(b))
			b = append(b[:at:at], append(piece, b[at:]...)...)
		case 7: // move or swap lines
			ls := bytes.Split(b, []byte("\n"))
			x, y := c.Intn(len(ls)), c.Intn(len(ls))
			ls[x], ls[y] = ls[y], ls[x]
			b = bytes.Join(ls, []byte("\n"))
		case 8: // drop a line
			ls := bytes.Split(b, []byte("\n"))
			x := c.Intn(len(ls))
			b = bytes.Join(append(ls[:x:x], ls[x+1:]...), []byte("\n"))
		default:
			if len(other) > 0 {
				j := c.Intn(len(other))
				b = append(b[:i:i], other[j:]...)
			}
		}
	}
	if len(b) > 65536 {
		b = b[:65536]
	}
	return b
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// exercise reads and, where accepted, uses everything. A panic anywhere is reported by the case runner.
func exercise(c *C, in []byte, full bool) {
	keep := append([]byte(nil), in...)
	for _, rd := range []struct {
		name string
		f    func([]byte) (*translator.File, error)
	}{{"ReadPo", translator.ReadPo}, {"ReadPot", translator.ReadPot}, {"ReadMo", translator.ReadMo}} {
		f, err := rd.f(in)
		if err != nil {
			c.Count("rejected", 1)
			if f != nil {
				c.Fail("partial", "%s returned a catalog together with the error %v", rd.name, err)
			}
			continue
		}
		if f == nil {
			c.Fail("nothing", "%s returned neither a catalog nor an error", rd.name)
		}
		c.Count("accepted", 1)
		c.Count("accepted by "+rd.name, 1)
		useFile(c, f, rd.name, full)
	}
	if !bytes.Equal(keep, in) {
		c.Fail("input", "reading changed the input")
	}
}

func translatedOnly(ms []Msg) []Msg {
	var out []Msg
	for _, m := range ms {
		if m.Str != "" || strings.Join(m.StrN, "") != "" {
			out = append(out, m)
		}
	}
	return out
}

func useFile(c *C, f *translator.File, what string, full bool) {
	ms := fileMsgs(f)
	f.Lang()
	f.GetHeader("Plural-Forms")
	f.GetHeader("")
	for i, m := range ms {
		if i > 20 {
			break
		}
		f.X(m.Ctx, m.ID)
		f.X(m.Ctx, m.ID, 1, "a")
		for _, n := range []int64{0, 1, 7, -1} {
			if i < 4 {
				n = count(c.Rand)
			}
			f.XN64(m.Ctx, m.ID, m.ID2, n)
			if full {
				f.XN64(m.Ctx, m.ID, m.ID2, n, n, "b")
			}
		}
		c.Count("queries", 6)
	}
	f.X("", "")
	f.XN64("", "", "", 1)
	f.X("no such", "message", 1)
	f.XN64("no such", "message", "messages", count(c.Rand), nil)
	var mo, pot bytes.Buffer
	if err := f.SaveAsMo(&mo); err != nil {
		c.Fail("save", "%s: SaveAsMo: %v", what, err)
	}
	if err := f.SaveAsPot(&pot); err != nil {
		c.Fail("save", "%s: SaveAsPot: %v", what, err)
	}
	out := savePo(c, f)
	if len(ms) == 0 {
		return // an empty text is no catalog
	}
	g, err := translator.ReadPo(out)
	if err != nil {
		c.Fail("po round trip", "%s: the saved catalog cannot be read: %v\n%q", what, err, out)
	}
	if d := sameMsgs(translatedOnly(ms), translatedOnly(fileMsgs(g)), false); d != "" {
		c.Fail("po round trip", "%s: %s\n%q", what, d, out)
	}
	c.Count("po round trips", 1)
}

func c09po(c *C) {
	k := catalog(c.Rand, c.Intn(6))
	a := []byte(poPrint(c.Rand, k.all(), randomLayout(c.Rand)))
	b := []byte(poPrint(c.Rand, template(k), randomLayout(c.Rand)))
	if c.Intn(3) == 0 {
		a, b = b, a
	}
	in := mutate(c, a, b)
	c.Distinct(string(in))
	c.Sample("%d bytes %q", len(in), in[:min(80, len(in))])
	exercise(c, in, true)
}

func c09mo(c *C) {
	k := catalog(c.Rand, c.Intn(5))
	mf := moWrite(c.Rand, k.all(), randomMOLayout(c.Rand))
	in := append([]byte(nil), mf.data...)
	for j, n := 0, 1+c.Intn(3); j < n; j++ {
		if len(in) < 32 {
			break
		}
		switch c.Intn(6) {
		case 0, 1: // a header word
			at := 4 * c.Intn(7)
			mf.bo.PutUint32(in[at:], uint32(c.Int63())>>uint(c.Intn(32)))
		case 2, 3: // a table word
			at := mf.idTab + 4*c.Intn(2*mf.n)
			if c.Intn(2) == 0 {
				at = mf.strTab + 4*c.Intn(2*mf.n)
			}
			if at+4 <= len(in) {
				v := uint32(c.Intn(len(in) + 1))
				if c.Intn(4) == 0 {
					v = uint32(c.Int63()) >> uint(c.Intn(32))
				}
				mf.bo.PutUint32(in[at:], v)
			}
		case 4:
			in[c.Intn(len(in))] = []byte{0, 4, 0xff, '\n', '%', 'n', ';'}[c.Intn(7)]
		default:
			in = mutate(c, in, nil)
		}
	}
	if len(in) > 8192 {
		in = in[:8192]
	}
	c.Distinct(string(in))
	before := allocated()
	f, err := translator.ReadMo(in)
	if d := allocated() - before; d > 96<<20 {
		c.Fail("memory", "ReadMo of %d bytes allocated %d bytes (error: %v)", len(in), d, err)
	}
	if err == nil {
		c.Count("accepted", 1)
		c.Count("accepted by ReadMo", 1)
		useFile(c, f, "ReadMo", true)
	} else {
		c.Count("rejected", 1)
	}
}

func c09soup(c *C) {
	var b []byte
	switch c.Intn(3) {
	case 0:
		b = make([]byte, c.Intn(400))
		c.Read(b)
		if c.Intn(3) == 0 && len(b) > 32 {
			copy(b, []byte{0xde, 0x12, 0x04, 0x95, 0, 0, 0, 0})
			binary.LittleEndian.PutUint32(b[8:], uint32(c.Intn(4)))
			for at := 12; at < 28; at += 4 {
				binary.LittleEndian.PutUint32(b[at:], uint32(c.Intn(len(b))))
			}
			for at := 28; at+4 < len(b); at += 4 {
				if c.Intn(2) == 0 {
					binary.LittleEndian.PutUint32(b[at:], uint32(c.Intn(len(b))))
				}
			}
		}
	default:
		for i, n := 0, c.Intn(40); i < n; i++ {
			b = append(b, hostileFrags[c.Intn(len(hostileFrags))]...)
			if c.Intn(3) == 0 {
				b = append(b, "\"\n"...)
			}
		}
	}
	c.Distinct(string(b))
	exercise(c, b, true)
}

// c09lengths: small files that claim large contents.
func c09lengths(c *C) {
	var bo binary.ByteOrder = binary.LittleEndian
	if c.Intn(2) == 0 {
		bo = binary.BigEndian
	}
	in := make([]byte, 28+16*3+c.Intn(200))
	bo.PutUint32(in, 0x950412de)
	n := uint32(1 + c.Intn(3))
	big := []uint32{1 << 24, 1 << 26, 1 << 28, 1<<28 + 12345, 1 << 29, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 100}[c.Intn(9)]
	bo.PutUint32(in[8:], n)
	bo.PutUint32(in[12:], 28)
	bo.PutUint32(in[16:], 28+8*n)
	which := c.Intn(int(2*n) + 2)
	for i := 0; i < int(2*n); i++ {
		ln := uint32(1)
		if i == which {
			ln = big
		}
		bo.PutUint32(in[28+8*i:], ln)
		bo.PutUint32(in[28+8*i+4:], uint32(28+16*int(n))+uint32(c.Intn(5)))
	}
	if which >= int(2*n) {
		bo.PutUint32(in[8:], big)
		if which%2 == 0 {
			bo.PutUint32(in[20:], big)
		}
	}
	before := allocated()
	f, err := translator.ReadMo(in)
	d := allocated() - before
	c.Count("hostile lengths", 1)
	c.Distinct(string(in))
	c.Sample("%d bytes claiming %d: error %v, %d bytes allocated", len(in), big, err, d)
	if err == nil {
		c.Fail("accepted", "a file of %d bytes claiming %d was read: %d messages", len(in), big, len(f.SortedEntry()))
	}
	if d > 12<<20 {
		c.Fail("memory", "a file of %d bytes claiming %d made ReadMo allocate %d bytes", len(in), big, d)
	}
}

// c09claims: small texts whose numbers claim large contents.
func c09claims(c *C) {
	big := []string{"1000000", "16777216", "90000000", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999", "-1", "-9223372036854775808", "00000000000000000009", "0x7fffffff", "1e9"}[c.Intn(15)]
	head := "msgid \"\"\nmsgstr \"Language: de\\nPlural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n"
	forms := "msgid \"a\"\nmsgid_plural \"as\"\n"
	var in string
	switch c.Intn(9) {
	case 0:
		in = head + forms + "msgstr[" + big + "] \"A\"\n"
	case 1:
		in = head + forms + "msgstr[0] \"A\"\nmsgstr[" + big + "] \"B\"\n"
	case 2:
		in = head + forms + "msgstr[0] \"A\"\nmsgstr[1] \"B\"\nmsgstr[" + big + "] \"C\"\n\"D\"\n"
	case 3:
		in = "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=" + big + "; plural=n!=1;\\n\"\n\n" + forms + "msgstr[0] \"A\"\nmsgstr[1] \"B\"\n"
	case 4:
		in = "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n+" + big + ";\\n\"\n\n" + forms + "msgstr[0] \"A\"\nmsgstr[1] \"B\"\n"
	case 5:
		in = "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n<<" + big + ";\\n\"\n\n" + forms + "msgstr[0] \"A\"\nmsgstr[1] \"B\"\n"
	case 6:
		in = head + "#: a.go:" + big + " b.go:" + big + ":" + big + "\nmsgid \"a\"\nmsgstr \"A\"\n"
	case 7:
		in = "#: x:" + big + "\n" + head + "#, range: 0.." + big + "\n#, priority:" + big + "\n" + forms + "msgstr[0] \"A\"\nmsgstr[1] \"B\"\n"
	default:
		in = "msgid \"\"\nmsgstr \"Content-Length: " + big + "\\nSize: " + big + "\\nLanguage: de\\n\"\n\nmsgid \"a\"\nmsgstr \"A\"\n"
	}
	c.Logf("%s", in)
	before := allocated()
	for _, rd := range []func([]byte) (*translator.File, error){translator.ReadPo, translator.ReadPot} {
		f, err := rd([]byte(in))
		if err != nil {
			c.Count("rejected", 1)
			continue
		}
		c.Count("accepted", 1)
		f.XN64("", "a", "as", 1)
		f.XN64("", "a", "as", 7)
		var buf bytes.Buffer
		f.SaveAsPo(&buf)
		f.SaveAsPot(&buf)
		f.SaveAsMo(&buf)
	}
	d := allocated() - before
	c.Count("hostile numbers", 1)
	c.Distinct(in)
	c.Sample("%d bytes claiming %s: %d bytes allocated", len(in), big, d)
	if d > 8<<20 {
		c.Fail("memory", "a text of %d bytes made reading and saving allocate %d bytes\n%s", len(in), d, in)
	}
	exercise(c, []byte(in), true)
}

// c09units are repeated to 60 and 150 KB in place of R in a template.
var c09units = []struct{ frame, unit string }{
	{"msgid \"a\"\nmsgstr \"R\"\n", "\\n"},
	{"msgid \"a\"\nmsgstr \"R\"\n", " "},
	{"msgid \"a\"\nmsgstr \"R\"\n", "x "},
	{"msgid \"a\"\nmsgstr \"R\"\n", "a\\n"},
	{"msgid \"R\"\nmsgstr \"a\"\n", "\\n\\n b"},
	{"msgid \"a\"\nmsgstr \"R\"\n", "%"},
	{"msgid \"a\"\nmsgstr \"R\"\n", "%d"},
	{"msgid \"a\"\nmsgstr \"R\"\n", "%["},
	{"msgid \"a\"\nmsgstr \"R\"\n", "%[1]*"},
	{"msgid \"a\"\nmsgstr \"R\"\n", "% %+"},
	{"msgid \"a\"\nmsgstr \"\"\nR", "\"abcdefgh\"\n"},
	{"R", "#\n"}, {"R", "\n"}, {"R", "#~ msgid \"x\"\n"}, {"R", "#: a b:1 c:2:3\n"}, {"msgid \"a\"\nmsgstr \"b\"\n#:Rmsgid \"c\"\nmsgstr \"d\"\n", " a:1"},
	{"R", "msgid \"a\"\n"}, {"R", "msgstr \"a\"\n"}, {"R", "msgid \"a\"\nmsgstr \"b\"\n"}, {"R", "msgctxt \"a\"\n"},
	{"msgid \"a\"\nR", "msgid_plural \"x\"\n"},
	{"msgid \"\"\nmsgstr \"R\"\n", "A: b\\n"},
	{"msgid \"\"\nmsgstr \"R\"\n", ": "},
	{"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=Rn;\\n\"\n", "!"},
	{"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=Rn;\\n\"\n", "("},
	{"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=Rn;\\n\"\n", "n?1:"},
	{"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=Rn;\\n\"\n", "n+"},
	{"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=Rn;\\n\"\n", "n?"},
	{"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=Rn;\\n\"\n", " "},
	{"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n;R\\n\"\n", ";"},
	{"msgid \"\"\nmsgstr \"Plural-Forms: R\\n\"\n", "nplurals=2; plural=n;"},
	{"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=R;\\n\"\n", "9"},
	{"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=Rn;\\n\"\n", "-"},
	{"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=nR;\\n\"\n", "++"},
	{"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=Rn;\\n\"\n", "(n)&&"},
	{"msgid \"\"\nmsgstr \"Language: R\\n\"\n", "zh-"},
	{"R", "\""}, {"R", "\\"}, {"msgid \"R\"\n", "\\"},
	{"MO", ""}, {"PARENS", ""}, {"BANGS", ""},
}

func c09repeat(c *C) {
	u := c09units[c.Index%len(c09units)]
	size := []int{60000, 150000, 20000, 100000}[c.Index/len(c09units)]
	var in []byte
	switch u.frame {
	case "MO": // one message of newlines, through MO
		k := &Cat{}
		k.Msgs = []Msg{{ID: "a", Str: strings.Repeat("\n", size)}, {ID: strings.Repeat("\n ", size/2), Plural: true, ID2: "x", StrN: strings.Split(strings.Repeat("f\x00", size/3)+"f", "\x00")}}
		in = moWrite(c.Rand, k.Msgs, MOLayout{}).data
	case "PARENS": // deep but balanced
		in = []byte("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=" + strings.Repeat("(", size/2) + "n" + strings.Repeat(")", size/2) + ";\\n\"\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n")
	case "BANGS": // beyond the stack, were it parsed recursively
		in = []byte("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=" + strings.Repeat("!", 4<<20) + "n;\\n\"\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n")
	default:
		in = []byte(strings.Replace(u.frame, "R", strings.Repeat(u.unit, size/len(u.unit)), 1))
		if strings.Contains(u.frame, "Plural-Forms") {
			in = append(in, "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n"...)
		}
	}
	begin := cpuTime()
	exercise(c, in, false)
	spent := cpuTime() - begin
	c.Logf("repeat %q %q %d: %v", u.frame, u.unit, size, spent)
	c.Count("repetitive inputs", 1)
	c.Distinct(u.frame, u.unit, fmt.Sprint(size))
	if spent > 25*time.Second {
		c.Fail("slow", "%d bytes of %q in %q took %v of processor time", len(in), u.unit, u.frame, spent)
	}
}
