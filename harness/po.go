package main

// An independent PO writer (many layouts) and a strict PO parser.

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"
)

// Layout is one way of writing PO text.
type Layout struct {
	EOL      string
	Wrap     int // 0 one line, 1 gettext style, 2 random pieces
	Escape   int // 0 only what must be, 1 C names, 2 random octal and hex, 3 also \u and \U as strconv.Quote has them
	Blank    int // blank lines between messages: 0 none, 1 one, 2 random incl. whitespace lines
	NoEOF    bool
	Obsolete bool
	Tail     int // 0 nothing, 1 comment, 2 blank lines, 3 obsolete entry
	Spaces   bool
	Inner    bool // blank lines inside messages
}

func randomLayout(r *rand.Rand) Layout {
	l := Layout{EOL: "\n", Wrap: r.Intn(3), Escape: r.Intn(3), Blank: r.Intn(3)}
	if r.Intn(4) == 0 {
		l.EOL = "\r\n"
	}
	l.NoEOF = r.Intn(4) == 0
	l.Obsolete = r.Intn(4) == 0
	l.Tail = r.Intn(5)
	l.Spaces = r.Intn(5) == 0
	l.Inner = r.Intn(8) == 0
	return l
}

func isHex(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

// poQuote quotes a piece. next is the byte that follows it in the same string piece, none across pieces.
func poQuote(r *rand.Rand, s string, esc int) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); {
		ru, size := utf8.DecodeRuneInString(s[i:])
		b := s[i]
		nextHex := i+1 < len(s) && isHex(s[i+1])
		names := map[byte]string{'\n': `\n`, '"': `\"`, '\\': `\\`, '\r': `\r`, '\t': `\t`, '\a': `\a`, '\b': `\b`, '\f': `\f`, '\v': `\v`}
		name, named := names[b]
		if esc == 3 && size > 1 && ru != utf8.RuneError && r.Intn(3) == 0 {
			if ru < 0x10000 {
				fmt.Fprintf(&sb, `\u%04x`, ru)
			} else {
				fmt.Fprintf(&sb, `\U%08x`, ru)
			}
			i += size
			continue
		}
		must := b == '\n' || b == '"' || b == '\\' || b == '\r' || ru == utf8.RuneError && size == 1 && esc > 0
		switch {
		case esc == 2 && r.Intn(6) == 0 && size >= 1 && !(b >= 0x80 && size == 1 && ru != utf8.RuneError):
			for j := 0; j < size; j++ {
				if r.Intn(2) == 0 && !(j == size-1 && (i+size < len(s) && isHex(s[i+size]))) {
					// hexadecimal, never followed by a hexadecimal digit; escapes in between start with a backslash
					fmt.Fprintf(&sb, `\x%02x`, s[i+j])
				} else {
					fmt.Fprintf(&sb, `\%03o`, s[i+j])
				}
			}
		case named && (must || esc >= 1):
			sb.WriteString(name)
		case must:
			fmt.Fprintf(&sb, `\%03o`, b)
		case esc >= 1 && (b < ' ' || b == 0x7f):
			_ = nextHex
			fmt.Fprintf(&sb, `\%03o`, b)
		default:
			sb.WriteString(s[i : i+size])
		}
		i += size
	}
	sb.WriteByte('"')
	return sb.String()
}

// pieces cuts a text at rune boundaries.
func pieces(r *rand.Rand, s string, wrap int) []string {
	switch wrap {
	case 0:
		return []string{s}
	case 1:
		var out []string
		if strings.Contains(strings.TrimSuffix(s, "\n"), "\n") || len(s) > 70 {
			out = append(out, "")
		}
		for len(s) > 0 {
			n := len(s)
			if i := strings.IndexByte(s, '\n'); i >= 0 {
				n = i + 1
			}
			if n > 70 {
				if i := strings.LastIndexByte(s[:70], ' '); i > 0 {
					n = i + 1
				}
			}
			out = append(out, s[:n])
			s = s[n:]
		}
		if len(out) == 0 {
			out = []string{""}
		}
		return out
	}
	out := []string{}
	if r.Intn(2) == 0 {
		out = append(out, "")
	}
	for len(s) > 0 {
		n := 1 + r.Intn(len(s))
		if r.Intn(2) == 0 {
			n = min(n, 1+r.Intn(8))
		}
		for n < len(s) && !utf8.RuneStart(s[n]) {
			n++
		}
		out = append(out, s[:n])
		s = s[n:]
		if r.Intn(10) == 0 {
			out = append(out, "")
		}
	}
	if len(out) == 0 {
		out = []string{""}
	}
	return out
}

type poWriter struct {
	r     *rand.Rand
	l     Layout
	lines []string
}

func (w *poWriter) field(kw, s string) {
	for i, p := range pieces(w.r, s, w.l.Wrap) {
		q := poQuote(w.r, p, w.l.Escape)
		if i == 0 {
			sp := " "
			if w.l.Spaces && w.r.Intn(2) == 0 {
				sp = []string{"  ", "    ", " \t"}[w.r.Intn(3)]
			}
			q = kw + sp + q
		}
		if w.l.Spaces && w.r.Intn(3) == 0 {
			q += []string{" ", "  ", "\t"}[w.r.Intn(3)]
		}
		w.lines = append(w.lines, q)
		if w.l.Inner && w.r.Intn(6) == 0 {
			w.lines = append(w.lines, "")
		}
	}
}

func (w *poWriter) msg(m Msg) {
	w.lines = append(w.lines, m.Cmts...)
	if m.Ctx != "" {
		w.field("msgctxt", m.Ctx)
	}
	w.field("msgid", m.ID)
	if m.Plural {
		w.field("msgid_plural", m.ID2)
		for i, s := range m.StrN {
			w.field(fmt.Sprintf("msgstr[%d]", i), s)
		}
	} else {
		w.field("msgstr", m.Str)
	}
}

func (w *poWriter) gap() {
	switch w.l.Blank {
	case 1:
		w.lines = append(w.lines, "")
	case 2:
		for i, n := 0, w.r.Intn(4); i < n; i++ {
			w.lines = append(w.lines, []string{"", "", "  ", "\t"}[w.r.Intn(4)])
		}
	}
}

func (w *poWriter) obsolete() {
	w.lines = append(w.lines, `#~ msgctxt "old"`, fmt.Sprintf(`#~ msgid "obsolete %d"`, w.r.Intn(100)), `#~ msgstr "gone"`)
}

// poPrint writes messages in the given layout.
func poPrint(r *rand.Rand, msgs []Msg, l Layout) string {
	w := &poWriter{r: r, l: l}
	if r.Intn(5) == 0 {
		w.gap()
	}
	for _, m := range msgs {
		if l.Obsolete && r.Intn(5) == 0 {
			w.obsolete()
			w.gap()
		}
		w.msg(m)
		w.gap()
	}
	switch l.Tail {
	case 1:
		w.lines = append(w.lines, "# the end")
	case 2:
		w.lines = append(w.lines, "", " ", "")
	case 3:
		w.obsolete()
	}
	s := strings.Join(w.lines, l.EOL)
	if !l.NoEOF {
		s += l.EOL
	}
	return s
}

// --- strict parser ---

type poEntry struct {
	Msg
	hasStr bool
}

// poUnquote accepts exactly one C string of the PO format.
func poUnquote(s string) (string, error) {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return "", fmt.Errorf("not a quoted string: %s", s)
	}
	s = s[1 : len(s)-1]
	if !utf8.ValidString(s) {
		return "", fmt.Errorf("not UTF-8: %q", s)
	}
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			return "", fmt.Errorf("bare quote in %s", s)
		}
		if s[i] != '\\' {
			sb.WriteByte(s[i])
			continue
		}
		i++
		if i >= len(s) {
			return "", fmt.Errorf("string ends in a backslash: %s", s)
		}
		switch s[i] {
		case 'n':
			sb.WriteByte('\n')
		case 't':
			sb.WriteByte('\t')
		case 'r':
			sb.WriteByte('\r')
		case 'a':
			sb.WriteByte('\a')
		case 'b':
			sb.WriteByte('\b')
		case 'f':
			sb.WriteByte('\f')
		case 'v':
			sb.WriteByte('\v')
		case '\\', '"':
			sb.WriteByte(s[i])
		case 'x':
			v, k := 0, 0
			for i+1 < len(s) && isHex(s[i+1]) {
				i++
				k++
				var d int
				fmt.Sscanf(s[i:i+1], "%x", &d)
				v = v*16 + d
			}
			if k == 0 || v > 255 {
				return "", fmt.Errorf("bad hexadecimal escape in %s", s)
			}
			sb.WriteByte(byte(v))
		case '0', '1', '2', '3', '4', '5', '6', '7':
			v, k := 0, 0
			for k < 3 && i < len(s) && s[i] >= '0' && s[i] <= '7' {
				v = v*8 + int(s[i]-'0')
				i++
				k++
			}
			i--
			if v > 255 {
				return "", fmt.Errorf("bad octal escape in %s", s)
			}
			sb.WriteByte(byte(v))
		default:
			return "", fmt.Errorf("escape \\%c is not in the PO format: %s", s[i], s)
		}
	}
	return sb.String(), nil
}

// poParse parses PO text strictly.
func poParse(data string) ([]poEntry, error) {
	var out []poEntry
	var cur *poEntry
	var field *string
	state := "" // last keyword
	var cmts []string
	done := func() error {
		if cur == nil {
			return nil
		}
		if state != "msgstr" && state != "msgstr[]" {
			return fmt.Errorf("message %s ends after %s", cur.Msg, state)
		}
		out = append(out, *cur)
		cur, state, field = nil, "", nil
		return nil
	}
	for no, line := range strings.Split(data, "\n") {
		bad := func(f string, a ...any) error {
			return fmt.Errorf("line %d %q: %s", no+1, line, fmt.Sprintf(f, a...))
		}
		if line == "" {
			continue
		}
		if line[0] == '#' {
			if cur != nil {
				if err := done(); err != nil {
					return nil, bad("%v", err)
				}
			}
			cmts = append(cmts, line)
			continue
		}
		if line[0] == '"' {
			if field == nil {
				return nil, bad("string without keyword")
			}
			s, err := poUnquote(line)
			if err != nil {
				return nil, bad("%v", err)
			}
			*field += s
			if state == "msgstr[]" {
				cur.StrN[len(cur.StrN)-1] = *field
			}
			continue
		}
		kw, rest, ok := strings.Cut(line, " ")
		if !ok {
			return nil, bad("no string")
		}
		s, err := poUnquote(rest)
		if err != nil {
			return nil, bad("%v", err)
		}
		switch {
		case kw == "msgctxt" || kw == "msgid" && state != "msgctxt":
			if err := done(); err != nil {
				return nil, bad("%v", err)
			}
			cur = &poEntry{}
			cur.Cmts, cmts = cmts, nil
			if kw == "msgctxt" {
				cur.Ctx = s
				field = &cur.Ctx
			} else {
				cur.ID = s
				field = &cur.ID
			}
			state = kw
		case kw == "msgid":
			cur.ID = s
			field = &cur.ID
			state = kw
		case kw == "msgid_plural":
			if state != "msgid" {
				return nil, bad("after %s", state)
			}
			cur.Plural = true
			cur.ID2 = s
			field = &cur.ID2
			state = kw
		case kw == "msgstr":
			if state != "msgid" {
				return nil, bad("after %s", state)
			}
			cur.Str = s
			cur.hasStr = true
			field = &cur.Str
			state = kw
		case strings.HasPrefix(kw, "msgstr["):
			if state != "msgid_plural" && state != "msgstr[]" || kw != fmt.Sprintf("msgstr[%d]", len(cur.StrN)) {
				return nil, bad("after %s", state)
			}
			cur.StrN = append(cur.StrN, s)
			cp := s
			field = &cp
			cur.hasStr = true
			state = "msgstr[]"
		default:
			return nil, bad("unknown keyword")
		}
	}
	if err := done(); err != nil {
		return nil, err
	}
	return out, nil
}
