package main

// Generators of texts, messages and catalogs, and the reference lookups over them.

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"
)

var atoms = []string{
	"a", "b", "File", "Open", "hello", "World", "apple", "apples", "one", "%d", "%s", "%v", "%%", "%", "100%",
	" ", "  ", "\n", "\t", "\"", "\\", "'", "`", "\\n", "\\x41", "\\101", "#", "#:", "#,", "#~", "msgid ", "msgstr \"x\"", "msgctxt",
	"中文", "你好，世界", "é", "e\u0301", "ß", "İ", "ñ", "😀", "👩‍👩‍👧", "עברית", "العربية", "\u00a0", "\u2028", "\u2029", "\u0085",
	"\u200b", "\ufeff", "\ufffd", "\u202e", "\r", "\r\n", "\x01", "\x03", "\x05", "\x07", "\b", "\f", "\v", "\x1b", "\x7f",
	"{{", "}}", "<b>", "&amp;", "$", "${x}", ":", ": ", ";", "=", "|", "0", "1", "7", "-1", "~", "^", "?", "nplurals=2; plural=n!=1;",
	"Language: xx", "Plural-Forms: nplurals=9; plural=8;",
}

var words = []string{"the", "quick", "brown", "fox", "jumps", "over", "lazy", "dog", "settings", "could", "not", "be", "opened", "because",
	"网络", "错误", "文件", "größe", "naïve", "a", "I", "supercalifragilistic", "-", "--", "x=1"}

// fmtSafe tells that the text holds no percent sign.
func fmtSafe(s string) bool { return !strings.Contains(s, "%") }

// text makes a text: any mixture of atoms, short words, sentences, long or multi-line texts.
func text(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0, 1, 2:
		return words[r.Intn(len(words))] + strconv.Itoa(r.Intn(50))
	case 3, 4, 5, 6:
		var sb strings.Builder
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			sb.WriteString(atoms[r.Intn(len(atoms))])
		}
		return sb.String()
	case 7, 8:
		return sentence(r, 3+r.Intn(12))
	case 9:
		return sentence(r, 15+r.Intn(60)) // longer than a line
	case 10: // multi-line
		var sb strings.Builder
		for i, n := 0, 1+r.Intn(5); i < n; i++ {
			sb.WriteString(sentence(r, r.Intn(20)))
			sb.WriteByte('\n')
			if r.Intn(3) == 0 {
				sb.WriteByte('\n')
			}
		}
		if r.Intn(2) == 0 {
			sb.WriteString(atoms[r.Intn(len(atoms))])
		}
		return sb.String()
	default: // unbroken or boundary sized
		n := []int{70, 75, 76, 77, 78, 79, 80, 81, 154, 155, 156, 300, 1000}[r.Intn(13)]
		s := strings.Repeat("x", n)
		if r.Intn(2) == 0 && n > 10 {
			i := r.Intn(n)
			s = s[:i] + " " + s[i:]
		}
		if r.Intn(3) == 0 {
			s += []string{"\n", " ", "  ", "\\", "\"", "中"}[r.Intn(6)]
		}
		return s
	}
}

func sentence(r *rand.Rand, n int) string {
	ws := make([]string, n)
	for i := range ws {
		ws[i] = words[r.Intn(len(words))]
		if r.Intn(25) == 0 {
			ws[i] += atoms[r.Intn(len(atoms))]
		}
	}
	return strings.Join(ws, " ")
}

func nonEmpty(r *rand.Rand) string {
	for {
		if s := text(r); s != "" {
			return s
		}
	}
}

// plain makes a text without percent signs, NUL or EOT.
func plain(r *rand.Rand) string {
	for {
		if s := nonEmpty(r); fmtSafe(s) {
			return s
		}
	}
}

// keyPool makes a pool of texts that look alike: prefixes, case variants, trailing blanks, concatenations.
func keyPool(r *rand.Rand, n int) []string {
	base := []string{"a", "ab", "abc", "b", "bc", "c", "A", "AB", "a ", " a", "a\n", "a\t", "ab ", "é", "e\u0301", "a|b", "a:b", "a.b", "a/b",
		"menu", "Menu", "menu|File", "File", "file", "File ", "%d file", "%d files", "\"a\"", "a\\", "a\\nb", "a\nb", "\x03", "\x05", "a\x03b", "msgid", "#", "a\x01",
		"\u200ba", "a\u200b", "\u00a0", "ａ", "ſ", "K", "k", "ß", "ss", "ﬁ", "fi", "0", "00", "null", "nil", "<nil>", "default", "n", "a\u0000"[:1]}
	out := make([]string, 0, n)
	for len(out) < n {
		switch r.Intn(4) {
		case 0, 1:
			out = append(out, base[r.Intn(len(base))])
		case 2:
			out = append(out, base[r.Intn(len(base))]+base[r.Intn(len(base))])
		default:
			if len(out) == 0 {
				continue
			}
			s := out[r.Intn(len(out))]
			switch r.Intn(4) {
			case 0:
				s = text(r)
			case 1:
				if len(s) < 300 && r.Intn(4) == 0 {
					s = strings.Repeat(s+" ", 1+r.Intn(1200)/(len(s)+1))
				}
				fallthrough
			default:
				s = near(r, s)
			}
			if s == "" {
				continue
			}
			out = append(out, s)
		}
	}
	return out
}

var cutSizes = []int{1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 65, 79, 80, 99, 100, 127, 128, 129, 200, 250, 254, 255, 256, 257, 500, 511, 512, 999, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097}

// near makes a text that differs from s, in a way some normalisation, truncation or hashing might overlook.
func near(r *rand.Rand, s string) string {
	for tries := 0; tries < 20; tries++ {
		t := s
		at := r.Intn(len(s) + 1)
		switch r.Intn(22) {
		case 0: // cut at a round size, or there and different afterwards
			n := cutSizes[r.Intn(len(cutSizes))]
			if len(s) > n {
				t = s[:n]
				if r.Intn(2) == 0 {
					t += text(r)
				}
			} else {
				t = s + strings.Repeat("x", n-len(s)) + text(r)
			}
		case 1: // another byte in the middle, same length
			if len(s) > 0 {
				i := r.Intn(len(s))
				if s[i] < 0x7f && s[i] > ' ' {
					t = s[:i] + string(rune(s[i]^1)) + s[i+1:]
				}
			}
		case 2: // two bytes exchanged (same sum)
			if len(s) > 1 {
				i, j := r.Intn(len(s)), r.Intn(len(s))
				if s[i] < 0x80 && s[j] < 0x80 {
					b := []byte(s)
					b[i], b[j] = b[j], b[i]
					t = string(b)
				}
			}
		case 3:
			t = strings.ToUpper(s)
		case 4:
			t = strings.ToLower(s)
		case 5:
			t = strings.TrimSpace(s)
		case 6:
			t = s + []string{" ", "\n", "\t", "\u00a0", "\r", ".", ":", "...", "…", "!", "?", "s", "\x01", "\x03", "|", ";", "\"", "'", "\\", "/", "#", "%", "%%", "\u200b", "\ufeff"}[r.Intn(25)]
		case 7:
			t = []string{" ", "\n", "\ufeff", "\u200b", "\u202a", "_", "\"", "#", "&", "\\", "|", "~", "\u00a0", "\x7f", "-", "@", "$"}[r.Intn(17)] + s
		case 8: // kinds of blanks
			t = strings.ReplaceAll(s, " ", []string{"\u00a0", "  ", "\t", "_", "", "\u2003", "-", "+", "\n"}[r.Intn(9)])
		case 9:
			t = s[:at] + []string{"\u200b", "\u200d", "\u00ad", "\ufe0f", "&", "_", " ", "\\", "\ufffd", "e\u0301", "é"}[r.Intn(11)] + s[at:]
		case 10: // spellings of one letter
			t = strings.NewReplacer("é", "e\u0301", "e\u0301", "é", "ß", "ss", "ﬁ", "fi", "ａ", "a", "K", "K", "ſ", "s", "İ", "i\u0307", "“", "\"", "'", "’", "\"", "'", "...", "…").Replace(s)
		case 11:
			t = strings.ReplaceAll(s, "\n", []string{"\r\n", " ", "", "\n\n", "\\n", "\r"}[r.Intn(6)])
		case 12:
			t = s + s
		case 13:
			if len(s) > 1 {
				t = s[:len(s)/2]
			}
		case 14:
			if len(s) > 1 {
				t = s[1:]
			}
		case 15: // digits
			t = strings.Map(func(r rune) rune {
				if r >= '0' && r < '9' {
					return r + 1
				}
				return r
			}, s)
		case 16:
			t = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&#34;", " ", "%20").Replace(s)
		case 17:
			t = strings.Title(s)
		case 18: // verbs
			t = strings.NewReplacer("%d", "%v", "%s", "%v", "%v", "%s", "%%", "%").Replace(s)
		case 19: // one long text for another: same ends
			if len(s) > 20 {
				t = s[:10] + nonEmpty(r) + s[len(s)-10:]
			}
		case 20: // reversed words
			w := strings.Split(s, " ")
			for i, j := 0, len(w)-1; i < j; i, j = i+1, j-1 {
				w[i], w[j] = w[j], w[i]
			}
			t = strings.Join(w, " ")
		default:
			t = strings.Trim(s, "\"'#:|&_.!?…")
		}
		if t != s && t != "" && (utf8.ValidString(t) || !utf8.ValidString(s)) {
			return t
		}
	}
	return s + "?"
}

// Msg is one message of a catalog.
type Msg struct {
	Ctx, ID string
	Plural  bool
	ID2     string
	Str     string
	StrN    []string
	Cmts    []string
}

func (m Msg) key() [2]string { return [2]string{m.Ctx, m.ID} }

func (m Msg) String() string {
	return fmt.Sprintf("{ctx=%q id=%q plural=%v id2=%q str=%q strN=%q cmts=%q}", m.Ctx, m.ID, m.Plural, m.ID2, m.Str, m.StrN, m.Cmts)
}

func (m Msg) translated() bool { return m.Str != "" || len(m.StrN) > 0 }

// Cat is a catalog: a header and messages.
type Cat struct {
	Lang   string
	NForms int
	Rule   string // plural expression text
	Expr   *Expr  // its tree, nil when the rule is deliberately bad
	Forms  string // whole Plural-Forms value
	Header [][2]string
	Msgs   []Msg
	HCmts  []string
	Raw    bool // holds bytes that are not UTF-8
}

func (k *Cat) headerText() string {
	var sb strings.Builder
	for _, kv := range k.Header {
		sb.WriteString(kv[0] + ": " + kv[1] + "\n")
	}
	return sb.String()
}

// all returns the header message followed by the others.
func (k *Cat) all() []Msg {
	return append([]Msg{{Str: k.headerText(), Cmts: k.HCmts}}, k.Msgs...)
}

// wellKnown are the rules of real languages with their number of forms.
var wellKnown = []struct {
	n    int
	rule string
}{
	{1, "0"}, {2, "n != 1"}, {2, "n > 1"}, {2, "n!=1"}, {2, "(n != 1)"}, {2, "(n > 1)"},
	{3, "n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2"},
	{3, "n==1 ? 0 : n==2 ? 1 : 2"},
	{3, "n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2"},
	{3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2"},
	{3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"},
	{3, "(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2"},
	{3, "n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"},
	{4, "n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3"},
	{6, "n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5"},
	{2, "n%10!=1 || n%100==11"},
	{4, "(n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3"},
	{5, "n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4"},
	{4, "(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3"},
	{9, "n%9"}, {7, "n % 7"}, {8, "n & 7"}, {4, "n >> 1 & 3"}, {2, "!(n == 1)"}, {3, "n == 0 ? 2 : n != 1"}, {4, "(n > 9) + (n > 99) + (n > 999)"},
}

var langPool = []string{"zh_CN", "zh_TW", "de", "de_AT", "fr", "fr_CA", "ru", "pl", "ar", "ja", "pt_BR", "sl", "cs_CZ", "ro", "ga", "lt", "lv", "en_GB", "es-MX", "sr_RS"}

// catalog makes a catalog with n messages. Formats in it take no arguments unless they hold verbs.
func catalog(r *rand.Rand, n int) *Cat {
	wk := wellKnown[r.Intn(len(wellKnown))]
	k := &Cat{Lang: langPool[r.Intn(len(langPool))], NForms: wk.n, Rule: wk.rule}
	k.Expr = mustParseExpr(wk.rule)
	k.setHeader(r)
	seen := map[[2]string]bool{{"", ""}: true}
	ctxs := []string{"", "", "", "ctx", "menu", "Menu", "header"}
	for i := 0; i < n/10+1; i++ {
		ctxs = append(ctxs, nonEmpty(r))
	}
	for tries := 0; len(k.Msgs) < n && tries < n*20; tries++ {
		m := Msg{Ctx: ctxs[r.Intn(len(ctxs))], ID: nonEmpty(r)}
		if len(k.Msgs) > 0 && r.Intn(10) == 0 { // like the one before, in the same or another context
			prev := k.Msgs[len(k.Msgs)-1]
			if prev.ID != "" {
				m.ID = near(r, prev.ID)
			}
			if r.Intn(2) == 0 {
				m.Ctx = prev.Ctx
			}
		}
		if r.Intn(40) == 0 && m.Ctx != "" {
			m.ID = ""
		}
		if seen[m.key()] {
			continue
		}
		seen[m.key()] = true
		if r.Intn(3) == 0 {
			m.Plural = true
			m.ID2 = nonEmpty(r)
			switch r.Intn(30) {
			case 0:
				m.ID2 = ""
			case 1, 2, 3, 4:
				m.ID2 = m.ID + "s"
			case 5, 6:
				m.ID2 = m.ID
			case 7, 8:
				m.ID2 = near(r, m.ID)
			}
			for j := 0; j < k.NForms; j++ {
				m.StrN = append(m.StrN, nonEmpty(r))
				if j > 0 && r.Intn(6) == 0 {
					m.StrN[j] = near(r, m.StrN[j-1])
				}
			}
		} else {
			m.Str = nonEmpty(r)
			if r.Intn(6) == 0 && m.ID != "" {
				m.Str = near(r, m.ID)
			}
		}
		m.Cmts = comments(r)
		k.Msgs = append(k.Msgs, m)
	}
	if r.Intn(7) == 0 {
		k.rawBytes(r)
	}
	return k
}

var rawAtoms = []string{"\xff", "\xff\xfe\xfd", "caf\xe9", "\xe4\xb8", "\xc3", "\xc0\xaf", "\xed\xa0\x80", "\xf8\x88\x80\x80\x80", "\xc4\xe3\xba\xc3", "\x80\x85\xa0", "\xef\xbf"}

// rawBytes puts bytes that are not UTF-8 (another charset, damaged text) into some texts.
func (k *Cat) rawBytes(r *rand.Rand) {
	k.Raw = true
	dirty := func(s *string) {
		if *s != "" && r.Intn(3) == 0 {
			for i, n := 0, 1+r.Intn(3); i < n; i++ {
				at := r.Intn(len(*s) + 1)
				*s = (*s)[:at] + rawAtoms[r.Intn(len(rawAtoms))] + (*s)[at:]
			}
		}
	}
	seen := map[[2]string]bool{}
	for _, m := range k.Msgs {
		seen[m.key()] = true
	}
	for i := range k.Msgs {
		m := &k.Msgs[i]
		n := *m
		dirty(&n.Ctx)
		dirty(&n.ID)
		if !seen[n.key()] {
			seen[n.key()] = true
			m.Ctx, m.ID = n.Ctx, n.ID
		}
		dirty(&m.ID2)
		dirty(&m.Str)
		for j := range m.StrN {
			dirty(&m.StrN[j])
		}
		for j := range m.Cmts {
			if r.Intn(4) == 0 {
				m.Cmts[j] += " " + rawAtoms[r.Intn(len(rawAtoms))]
			}
		}
	}
}

func (k *Cat) setHeader(r *rand.Rand) {
	k.Forms = fmt.Sprintf("nplurals=%d; plural=%s;", k.NForms, k.Rule)
	k.Header = [][2]string{{"Project-Id-Version", "demo 1.0"}, {"Language-Team", "none: nobody"}, {"MIME-Version", "1.0"},
		{"Content-Type", "text/plain; charset=UTF-8"}, {"Content-Transfer-Encoding", "8bit"}}
	ins := func(kv [2]string) {
		i := r.Intn(len(k.Header) + 1)
		k.Header = append(k.Header[:i:i], append([][2]string{kv}, k.Header[i:]...)...)
	}
	ins([2]string{"Language", k.Lang})
	ins([2]string{"Plural-Forms", k.Forms})
	if r.Intn(2) == 0 {
		ins([2]string{"X-Generator", "weird \"gen\" \\ 中文 " + strings.Repeat("long value ", r.Intn(12))})
	}
	if r.Intn(3) == 0 {
		k.HCmts = []string{"# Title", "#", "# someone <a@b>, 2020."}
	}
}

func comments(r *rand.Rand) (out []string) {
	if r.Intn(2) == 0 {
		return nil
	}
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		switch r.Intn(8) {
		case 0:
			out = append(out, "# translator "+oneLine(sentence(r, r.Intn(6))))
		case 1:
			out = append(out, "#. extracted "+oneLine(sentence(r, r.Intn(6))))
		case 2, 3:
			out = append(out, fmt.Sprintf("#: src/%s.go:%d", words[r.Intn(4)], r.Intn(2000)))
		case 4:
			out = append(out, fmt.Sprintf("#: a.html:%d:%d b.html:%d", r.Intn(200), r.Intn(99), r.Intn(30)))
		case 5:
			out = append(out, []string{"#, go-format", "#, go-format", "#, fuzzy", "#, fuzzy, c-format", "#,no-wrap", "#= range: 0..9"}[r.Intn(6)])
		case 6:
			out = append(out, "#| msgid \"old text\"")
			if r.Intn(3) == 0 {
				out = append(out, []string{"# ", "#. ", "#: "}[r.Intn(3)]+oneLine(sentence(r, 20+r.Intn(300))))
			}
		default:
			out = append(out, "#")
		}
	}
	return
}

func oneLine(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '\n' || r == '\r' {
			return '_'
		}
		return r
	}, s)
}

// refFormat is the specification of message formatting, for texts whose verbs are satisfied.
func refFormat(format string, args ...any) string {
	if len(args) == 0 {
		return format
	}
	s := fmt.Sprintf(format, args...)
	for k := range args {
		if extra := fmt.Sprintf("", args[k:]...); strings.HasSuffix(s, extra) {
			return strings.TrimSuffix(s, extra)
		}
	}
	return s
}

// refPlural is the source fallback.
func refPlural(id, id2 string, n int64, args ...any) string {
	if id2 == "" || n == 1 {
		return refFormat(id, args...)
	}
	return refFormat(id2, args...)
}

// Ref is the reference lookup table of a catalog.
type Ref struct {
	m      map[[2]string]Msg
	nforms int
	expr   *Expr // nil: no usable rule
}

func newRef(k *Cat) *Ref {
	ref := &Ref{m: map[[2]string]Msg{}, nforms: k.NForms, expr: k.Expr}
	for _, m := range k.Msgs {
		ref.m[m.key()] = m
	}
	return ref
}

func (f *Ref) X(ctx, id string, args ...any) string {
	if m, ok := f.m[[2]string{ctx, id}]; ok && m.Str != "" {
		return refFormat(m.Str, args...)
	}
	return refFormat(id, args...)
}

// form returns the index the rule selects and whether it is usable for m.
func (f *Ref) form(m Msg, n int64) (int, bool) {
	if f.expr == nil {
		return 0, false
	}
	v, err := f.expr.eval(n)
	if err != nil || v < 0 || v >= int64(f.nforms) || v >= int64(len(m.StrN)) || m.StrN[v] == "" {
		return 0, false
	}
	return int(v), true
}

func (f *Ref) XN(ctx, id, id2 string, n int64, args ...any) string {
	m, ok := f.m[[2]string{ctx, id}]
	if !ok {
		return refPlural(id, id2, n, args...)
	}
	if i, ok := f.form(m, n); ok {
		return refFormat(m.StrN[i], args...)
	}
	return refPlural(id, id2, n, args...)
}

var interestingN = []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 19, 20, 21, 22, 24, 25, 99, 100, 101, 102, 103, 104, 105, 110, 111, 112, 119, 120, 121, 122,
	199, 200, 201, 202, 211, 1000, 1001, 1002, 1011, 1000000, 1000001, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1<<62 + 1, 1<<63 - 1, -1, -2, -11, -(1 << 31), -1 << 63}

func count(r *rand.Rand) int64 {
	switch r.Intn(4) {
	case 0, 1:
		return interestingN[r.Intn(len(interestingN))]
	case 2:
		return int64(r.Intn(300))
	default:
		return r.Int63() >> uint(r.Intn(63))
	}
}
