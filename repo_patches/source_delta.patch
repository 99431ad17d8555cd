From 2164cb62fefc0e48402fcf5864b7aa500a34cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 01/46] fix: plural lookup must not index past the message's
 forms

---
 translator/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 81617c4..0c21a7b 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -58,7 +58,7 @@ func (file *File) XN64(msgCtxt, msgID, msgIDPlural string, n int64, args ...any)
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
 	index := plural.fn(n)
-	if index < 0 || index >= int(plural.totalForms) || index > len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
+	if index < 0 || index >= int(plural.totalForms) || index >= len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
 		// 超出范围
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
-- 
2.43.0


From 2f23b1e44a22bca844deeb2774eb2c9ae506b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 02/46] fix: malformed template text is an error, not a nil
 dereference

---
 translator/po.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/translator/po.go b/translator/po.go
index d4d1368..97e44eb 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -33,15 +33,16 @@ func readPo(content []byte, pot bool) (*File, error) {
 	file := new(File)
 	for {
 		entry, err := readEntry(r)
+		eof := errors.Is(err, io.EOF)
+		if err != nil && !eof {
+			return nil, err
+		}
 		if pot || entry.isValid() {
 			file.AddEntry(entry)
 		}
-		if errors.Is(err, io.EOF) {
+		if eof {
 			return file, nil
 		}
-		if err != nil {
-			return nil, err
-		}
 	}
 }
 
-- 
2.43.0


From fbbe390e321034d2ddfe6b049f0d89f3ae0474b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 03/46] fix: trailing comments or blank lines of a template do
 not replace its header

---
 translator/entry.go | 5 +++++
 translator/po.go    | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/translator/entry.go b/translator/entry.go
index 733b0c7..6b36c04 100644
--- a/translator/entry.go
+++ b/translator/entry.go
@@ -33,6 +33,11 @@ func (e *Entry) isValid() bool {
 	return e != nil && (e.MsgStr != "" || len(e.MsgStrN) > 0)
 }
 
+// isBlank 没有任何字段(可能有注释)
+func (e *Entry) isBlank() bool {
+	return e.MsgCtxt == "" && e.MsgID == "" && !e.IsPlural && e.MsgStr == "" && len(e.MsgStrN) == 0
+}
+
 // getSortKey 排序
 func (e *Entry) getSortKey() string {
 	if e.isHeader() {
diff --git a/translator/po.go b/translator/po.go
index 97e44eb..9c60f39 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -37,7 +37,9 @@ func readPo(content []byte, pot bool) (*File, error) {
 		if err != nil && !eof {
 			return nil, err
 		}
-		if pot || entry.isValid() {
+		// 模板中的条目没有译文，全部保留；但文件末尾没有任何字段的(只有空行或注释)不是条目，
+		// 不能让它覆盖文件头
+		if entry.isValid() || pot && !(eof && entry.isBlank()) {
 			file.AddEntry(entry)
 		}
 		if eof {
-- 
2.43.0


From 44656cc4b3a54a22deea64684fa2e5b19e27a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 04/46] fix: mo string lengths are checked against the file
 before allocating

---
 translator/mo.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/translator/mo.go b/translator/mo.go
index 77cba35..7a0e2a4 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -88,6 +88,11 @@ type lenOff struct {
 	OffSet uint32 // 偏移位置
 }
 
+// within 是否完全位于文件内容之中，分配内存之前应先检查
+func (lo lenOff) within(content []byte) bool {
+	return int64(lo.OffSet)+int64(lo.Length) <= int64(len(content))
+}
+
 // ReadMo read mo from []byte content
 func ReadMo(content []byte) (*File, error) {
 	file := new(File)
@@ -157,6 +162,10 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_id[%d]: %d", i, msgIDMeta[i].OffSet))
 		}
+		if !msgIDMeta[i].within(content) {
+			return nil, errors.WithSecondaryError(errReadMo,
+				errors.Errorf("msg_id[%d] is out of file: length=%d offset=%d", i, msgIDMeta[i].Length, msgIDMeta[i].OffSet))
+		}
 		id := make([]byte, msgIDMeta[i].Length) // msg_id 的长度
 		if err := binary.Read(r, bo, &id); err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
@@ -168,6 +177,10 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_str[%d]: %d", i, msgStrMeta[i].OffSet))
 		}
+		if !msgStrMeta[i].within(content) {
+			return nil, errors.WithSecondaryError(errReadMo,
+				errors.Errorf("msg_str[%d] is out of file: length=%d offset=%d", i, msgStrMeta[i].Length, msgStrMeta[i].OffSet))
+		}
 		str := make([]byte, msgStrMeta[i].Length) // msg_str 的长度
 		if err := binary.Read(r, bo, &str); err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
-- 
2.43.0


From 384cfa71c297f844957adea335aafae83f5e19a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 05/46] fix: any non-zero value is true in plural expressions

---
 plurals/exp.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plurals/exp.go b/plurals/exp.go
index 80a1bd7..7fceddf 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -112,10 +112,10 @@ func (s *myListener) handleExpPrefix(prefix antlr.Token) {
 		s.stack.Push(^num) // go 使用 ^ 表示按位取反
 	case "!":
 		num, _ := s.stack.Pop()
-		if num == _TRUE {
-			s.stack.Push(_FALSE)
-		} else {
+		if num == _FALSE {
 			s.stack.Push(_TRUE)
+		} else {
+			s.stack.Push(_FALSE)
 		}
 	default:
 		panic("assert error: unexpected text(prefix): " + prefixText)
@@ -254,7 +254,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE && right == _TRUE {
+		if left != _FALSE && right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -264,7 +264,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE || right == _TRUE {
+		if left != _FALSE || right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -276,7 +276,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			left, _  = s.stack.Pop()
 			cond, _  = s.stack.Pop()
 		)
-		if cond == _TRUE {
+		if cond != _FALSE {
 			s.stack.Push(left)
 		} else {
 			s.stack.Push(right)
-- 
2.43.0


From 54091e57dddc861137378e61774575a10f07b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 06/46] fix: Format does not write into its caller's argument
 slice

---
 f/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/f/format.go b/f/format.go
index 6394180..a6ab077 100644
--- a/f/format.go
+++ b/f/format.go
@@ -17,7 +17,7 @@ func Format(format string, args ...any) string {
 	// 原理：使用索引指定参数位置，在 args 后拼接一个空白字符串，
 	// 然后在格式化字符串上使用 %[n]s 输出拼接的空白字符串，这样就没有多余的参数了
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
-	args = append(args, "")
+	args = append(args[:length:length], "") // 不能写到调用方切片的剩余容量里
 	format = fmt.Sprintf("%s%%[%d]s", format, length+1)
 	return fmt.Sprintf(format, args...)
 }
-- 
2.43.0


From dbd592eaae0ae2481b740ebe67f674861d373ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 07/46] fix: a text ending in an unfinished verb shows no
 leaked index

---
 f/format.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/f/format.go b/f/format.go
index a6ab077..94f4c92 100644
--- a/f/format.go
+++ b/f/format.go
@@ -1,6 +1,11 @@
 package f
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
+
+const noVerb = "%!(NOVERB)" // fmt 对末尾不完整的动词的提示
 
 // Format format a string with args, like fmt.Sprintf,
 // but if args tow many, not prints %!(EXTRA type=value);
@@ -14,6 +19,10 @@ func Format(format string, args ...any) string {
 	if length == 0 {
 		return format
 	}
+	// 末尾是不完整的动词时，不能再拼接别的动词
+	if strings.HasSuffix(fmt.Sprintf(format+"%%"), noVerb) {
+		return Format(format[:strings.LastIndexByte(format, '%')], args...) + noVerb
+	}
 	// 原理：使用索引指定参数位置，在 args 后拼接一个空白字符串，
 	// 然后在格式化字符串上使用 %[n]s 输出拼接的空白字符串，这样就没有多余的参数了
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
-- 
2.43.0


From 9665b2874c857fb658f7b933d8d8252a7767918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 08/46] fix: an empty msgid with a context is not the header

---
 translator/entry.go | 2 +-
 translator/pot.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/translator/entry.go b/translator/entry.go
index 6b36c04..7b7baee 100644
--- a/translator/entry.go
+++ b/translator/entry.go
@@ -24,7 +24,7 @@ func (e *Entry) Key() string {
 
 // isHeader 返回该条目是否是一个 header 条目
 func (e *Entry) isHeader() bool {
-	return e.MsgID == ""
+	return e.MsgID == "" && e.MsgCtxt == ""
 }
 
 // isValid 是否合法的条目
diff --git a/translator/pot.go b/translator/pot.go
index 3490dea..5066752 100644
--- a/translator/pot.go
+++ b/translator/pot.go
@@ -35,7 +35,7 @@ func (f *File) SaveAsPot(w io.Writer) error {
 		writeString(buf, msgid, entry.MsgID)
 
 		if !entry.IsPlural {
-			if entry.MsgID == "" { // header
+			if entry.isHeader() {
 				writeString(buf, msgstr, entry.MsgStr)
 			} else {
 				writeString(buf, msgstr, "")
-- 
2.43.0


From bf547daa0f9f28c5f386c4721829c28419b20355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 09/46] fix: header fields and plural rule follow the current
 header; lookups do not write

---
 translator/file.go | 67 ++++++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/translator/file.go b/translator/file.go
index 0c21a7b..7265cc3 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -84,52 +84,55 @@ func (file *File) AddEntry(e *Entry) {
 		file.entries = map[string]*Entry{}
 	}
 	file.entries[e.Key()] = e
-	if e.isHeader() {
-		file.initHeader()
-		file.initPlural()
+	if e.isHeader() { // 文件头可能是替换已有的，重新解析
+		file.headers = parseHeaders(e.MsgStr)
+		file.plural = parsePlural(file.headers[HeaderPluralForms])
 	}
 }
 
 // GetHeader get header value by key
 func (file *File) GetHeader(key string) (value string, ok bool) {
-	file.initHeader()
-	value, ok = file.headers[key]
+	value, ok = file.getHeaders()[key]
 	return
 }
 
-func (file *File) initHeader() {
-	if file.headers == nil {
-		headers := make(map[string]string)
-		if headerEntry, ok := file.entries[key("", "")]; ok {
-			kvs := strings.Split(headerEntry.MsgStr, "\n")
-			for _, kv := range kvs {
-				if kv == "" {
-					continue
-				}
-				find := reHeader.FindAllStringSubmatch(kv, -1)
-				if len(find) != 1 || len(find[0]) != 3 {
-					continue
-				}
-				kv := find[0]
-				k := strings.TrimSpace(kv[1])
-				v := strings.TrimSpace(kv[2])
-				if _, ok := headers[k]; !ok {
-					headers[k] = v
-				}
-			}
-		}
-		file.headers = headers
+// getHeaders 查询时不修改 file，可能有其他协程正在查询
+func (file *File) getHeaders() map[string]string {
+	if file.headers != nil {
+		return file.headers
+	}
+	if headerEntry, ok := file.entries[key("", "")]; ok {
+		return parseHeaders(headerEntry.MsgStr)
 	}
+	return nil
 }
 
-func (file *File) getPlural() *plural {
-	file.initPlural()
-	return file.plural
+// parseHeaders 解析文件头的各个字段
+func parseHeaders(header string) map[string]string {
+	headers := make(map[string]string)
+	kvs := strings.Split(header, "\n")
+	for _, kv := range kvs {
+		if kv == "" {
+			continue
+		}
+		find := reHeader.FindAllStringSubmatch(kv, -1)
+		if len(find) != 1 || len(find[0]) != 3 {
+			continue
+		}
+		kv := find[0]
+		k := strings.TrimSpace(kv[1])
+		v := strings.TrimSpace(kv[2])
+		if _, ok := headers[k]; !ok {
+			headers[k] = v
+		}
+	}
+	return headers
 }
 
-func (file *File) initPlural() {
+func (file *File) getPlural() *plural {
 	if file.plural == nil {
 		forms, _ := file.GetHeader(HeaderPluralForms)
-		file.plural = parsePlural(forms)
+		return parsePlural(forms)
 	}
+	return file.plural
 }
-- 
2.43.0


From cb154b1a8976955de02bfcd08df3ebd86acbaeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 10/46] fix: MostMatchLocale uses its own domain and locale

---
 translations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/translations.go b/translations.go
index 3ab42b2..967a3b1 100644
--- a/translations.go
+++ b/translations.go
@@ -134,8 +134,8 @@ func (ts *Translations) Locales() (locales []string) {
 
 // MostMatchLocale return the most match language 返回最匹配的语言
 func (ts *Translations) MostMatchLocale() string {
-	var supported = Locales()
-	_, index, _ := Match(supported, []string{Locale()})
+	var supported = ts.Locales()
+	_, index, _ := Match(supported, []string{ts.Locale()})
 	return supported[index]
 }
 
-- 
2.43.0


From dfd5a130fba6f85ddcdab5f62785c80ac98a457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 11/46] fix: mo original strings are written in ascending order

---
 translator/mo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/translator/mo.go b/translator/mo.go
index 7a0e2a4..598e5c8 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 
 	"github.com/youthlin/t/errors"
@@ -231,6 +232,10 @@ func (f *File) SaveAsMo(w io.Writer) error {
 
 	// map 多次迭代顺序不定，先转为数组
 	var entries = f.SortedEntry()
+	// mo 文件要求原文按字节序升序，读取方会使用二分查找
+	sort.SliceStable(entries, func(i, j int) bool {
+		return moMsgID(entries[i]) < moMsgID(entries[j])
+	})
 
 	// pos=O. from here is O.
 	offsetID := offsetO + count*8*2 // 8=length(uint32)+offset(uint32) 2=id table + str table
-- 
2.43.0


From a9f71a55a9c17b8c3fc8c3449cd2412ef6529104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 12/46] fix: an unreadable directory does not stop loading the
 rest of the tree

---
 translaton.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translaton.go b/translaton.go
index c0a3b3e..704fedf 100644
--- a/translaton.go
+++ b/translaton.go
@@ -69,7 +69,7 @@ func (tr *Translation) LoadFS(f fs.FS) bool {
 	fn := func(ext string) func(path string, d fs.DirEntry, err error) error {
 		return func(path string, d fs.DirEntry, err error) error {
 			if err != nil {
-				return err
+				return nil // 跳过不可读的目录，继续加载其他文件
 			}
 			if d != nil && !d.IsDir() {
 				if strings.HasSuffix(d.Name(), ext) { // 这里应该使用 d.Name;
-- 
2.43.0


From 98eea6ce090b4604f601339a5b449d7617f0e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 13/46] fix: untranslated messages keep their msgstr lines when
 saved as po

---
 translator/po.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index 9c60f39..623c3d4 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -63,7 +63,11 @@ func (f *File) SaveAsPo(w io.Writer) error {
 		if entry.IsPlural {
 			writeString(buf, msgidPlural, entry.MsgID2)
 		}
-		if entry.MsgStr != "" {
+		if len(entry.MsgStrN) == 0 && entry.IsPlural && entry.MsgStr == "" {
+			// 没有译文也要有 msgstr 行，否则不是合法的 po 文件
+			writeString(buf, fmt.Sprintf(msgstrN, 0), "")
+			writeString(buf, fmt.Sprintf(msgstrN, 1), "")
+		} else if len(entry.MsgStrN) == 0 || entry.MsgStr != "" {
 			writeString(buf, msgstr, entry.MsgStr)
 		}
 		for i, str := range entry.MsgStrN {
-- 
2.43.0


From 0afc1529eb00f9ffe0b70de5cf92349c95af5ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 14/46] fix: saved po strings use only escapes of the po format

---
 translator/pot.go  |  2 +-
 translator/util.go | 30 ++++++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/translator/pot.go b/translator/pot.go
index 5066752..3047c28 100644
--- a/translator/pot.go
+++ b/translator/pot.go
@@ -17,7 +17,7 @@ const (
 func writeString(buf *bytes.Buffer, key, content string) {
 	buf.WriteString(key + " ")
 	for _, line := range split(content, lineThreshold) {
-		fmt.Fprintf(buf, "%q\n", line)
+		buf.WriteString(quote(line) + "\n")
 	}
 }
 
diff --git a/translator/util.go b/translator/util.go
index 8800dd2..a49c0b3 100644
--- a/translator/util.go
+++ b/translator/util.go
@@ -1,8 +1,10 @@
 package translator
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // key helper function, return message key
@@ -16,3 +18,31 @@ func removePrefixAndUnquote(line, prefix string) (string, error) {
 	line = strings.TrimSpace(line)
 	return strconv.Unquote(line)
 }
+
+// quote 给字符串加上引号，只使用 po 文件(C 语言)支持的转义
+func quote(s string) string {
+	var sb strings.Builder
+	sb.WriteByte('"')
+	for len(s) > 0 {
+		r, size := utf8.DecodeRuneInString(s)
+		switch {
+		case r == '"' || r == '\\':
+			sb.WriteByte('\\')
+			sb.WriteByte(s[0])
+		case r < ' ' || r == 0x7f:
+			if i := strings.IndexByte("\a\b\t\n\v\f\r", s[0]); i >= 0 {
+				sb.WriteByte('\\')
+				sb.WriteByte("abtnvfr"[i])
+			} else {
+				fmt.Fprintf(&sb, `\%03o`, s[0])
+			}
+		case r == utf8.RuneError && size == 1: // 不是 utf8
+			fmt.Fprintf(&sb, `\%03o`, s[0])
+		default:
+			sb.WriteString(s[:size])
+		}
+		s = s[size:]
+	}
+	sb.WriteByte('"')
+	return sb.String()
+}
-- 
2.43.0


From de7326a9f1b46dc0846c39397a35d5b6d186dd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 15/46] fix: xtemplate reads exactly the declared argument
 positions

---
 cmd/xtemplate/internal/run.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 6bc846b..0777bda 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -250,29 +250,24 @@ func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
 	argLength := len(args)
 	for _, kw := range ctx.Keywords {
 		if kw.Name == name {
-			argCount := 1 // MsgID 始终需要
-			if kw.MsgCtxt > 0 && kw.MsgCtxt != kw.MsgID {
-				argCount++
-			}
-			if kw.MsgID2 > 0 && kw.MsgID2 != kw.MsgID && kw.MsgID2 != kw.MsgCtxt {
-				argCount++
-			}
-			lastIndex := argCount + nameIndex
+			lastIndex := nameIndex + max(kw.MsgCtxt, kw.MsgID, kw.MsgID2)
 			if lastIndex >= argLength {
 				ctx.debugPrint("  >  >  >  ID=%v too few args", name)
 				continue
 			}
 			argOK := true
 			m := make(map[int]string)
-			for i := nameIndex + 1; i <= lastIndex; i++ {
-				arg := args[i]
-				text, ok := stringLiteral(arg)
+			for _, i := range []int{kw.MsgCtxt, kw.MsgID, kw.MsgID2} {
+				if i <= 0 { // 没有声明这个位置
+					continue
+				}
+				text, ok := stringLiteral(args[nameIndex+i])
 				if !ok {
-					ctx.debugPrint("  >  >  >  ID=%v args[%d] is not string node", name, i)
+					ctx.debugPrint("  >  >  >  ID=%v args[%d] is not string node", name, nameIndex+i)
 					argOK = false
 					break
 				}
-				m[i-nameIndex] = text
+				m[i] = text
 			}
 			if !argOK {
 				continue
-- 
2.43.0


From 1f3df5631479a553e2fdd81be75f58b43e500a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 16/46] fix: an extracted empty msgid does not replace the
 template header

---
 cmd/xtemplate/internal/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 0777bda..6e48292 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -329,6 +329,10 @@ func extract(ctx *Context, line, name string, kw Keyword, m map[int]string) (*tr
 
 	}
 	entry.MsgID = txt
+	if entry.MsgID == "" && entry.MsgCtxt == "" { // 空的 msgid 是文件头，不能被覆盖
+		ctx.debugPrint("  >  >  >  ID=%v empty msg id", name)
+		return nil, false
+	}
 
 	if kw.MsgID2 > 0 {
 		txt, ok := m[kw.MsgID2]
-- 
2.43.0


From 6e7d8126b4159ab6b0c9b8df09b16df482b9a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 17/46] fix: xtemplate output does not depend on map iteration
 order

---
 cmd/xtemplate/internal/run.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 6e48292..365bf42 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"text/template/parse"
 
 	"github.com/cockroachdb/errors"
@@ -110,12 +111,30 @@ func resolveOneFile(filename string, ctx *Context) error {
 		return errors.Wrapf(err, t.T("failed to parse file %v"), filename)
 	}
 	// 一个文件可能有多个模板
-	for _, tmpl := range tmpl.Templates() {
+	for _, tmpl := range sortedTemplates(tmpl) {
 		resolveTmpl(filename, ctx, tmpl)
 	}
 	return nil
 }
 
+// sortedTemplates 按在文件中的位置排序，map 迭代顺序不定会使每次输出不同
+func sortedTemplates(tmpl *template.Template) []*template.Template {
+	pos := func(t *template.Template) parse.Pos {
+		if t.Tree == nil || t.Tree.Root == nil {
+			return -1
+		}
+		return t.Tree.Root.Pos
+	}
+	all := tmpl.Templates()
+	sort.Slice(all, func(i, j int) bool {
+		if pi, pj := pos(all[i]), pos(all[j]); pi != pj {
+			return pi < pj
+		}
+		return all[i].Name() < all[j].Name()
+	})
+	return all
+}
+
 // resolveTmpl 处理每个模板
 func resolveTmpl(filename string, ctx *Context, tmpl *template.Template) {
 	ctx.debugPrint("process template: [filename=%v] [template name=%v]", filename, tmpl.Name())
-- 
2.43.0


From 16d203c48103e4bd69f4eeb091881114033de1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 18/46] fix: a failed xtemplate run leaves the output file as
 it was

---
 cmd/xtemplate/internal/param.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/xtemplate/internal/param.go b/cmd/xtemplate/internal/param.go
index 1a2a7f3..27476dd 100644
--- a/cmd/xtemplate/internal/param.go
+++ b/cmd/xtemplate/internal/param.go
@@ -41,7 +41,7 @@ type Context struct {
 	entries   map[string]*translator.Entry
 }
 
-// newCtx 根据命令行参数构造运行上下文，并完成 keyword/function/output 的初始化。
+// newCtx 根据命令行参数构造运行上下文，并完成 keyword/function 的初始化。
 func newCtx(param *Param) (*Context, error) {
 	ctx := &Context{
 		Param:     param,
@@ -56,11 +56,6 @@ func newCtx(param *Param) (*Context, error) {
 	for _, k := range kw {
 		ctx.Functions[k.Name] = noopFun
 	}
-	wr, err := Writer(param.OutputFile)
-	if err != nil {
-		return nil, err
-	}
-	ctx.Output = wr
 
 	if ctx.Function != "" {
 		fun := strings.Split(ctx.Function, ",")
@@ -96,7 +91,13 @@ func (ctx *Context) Add(entry *translator.Entry) error {
 }
 
 // Write 将当前收集到的条目写入 POT。
+// 到这里才打开输出文件，因为打开时会清空它，前面的步骤失败时应保留原有内容。
 func (ctx *Context) Write() error {
+	wr, err := Writer(ctx.OutputFile)
+	if err != nil {
+		return err
+	}
+	ctx.Output = wr
 	pot := ctx.pot()
 	return pot.SaveAsPot(ctx.Output)
 }
-- 
2.43.0


From c2ad6c51dffc6f8ce559bc542b01c229ee00dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 19/46] fix: xtemplate looks inside parentheses followed by a
 field

---
 cmd/xtemplate/internal/run.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 365bf42..8229fba 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -237,6 +237,9 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 				lastID := arg.Ident[len(arg.Ident)-1]
 				filter(ctx, fmt.Sprintf("%v:%d", filename, line), lastID, i, args)
 			case *parse.ChainNode:
+				if pipe, ok := arg.Node.(*parse.PipeNode); ok { // (T "x").Field
+					resolvePipe(filename, line, ctx, pipe)
+				}
 				if len(arg.Field) == 0 {
 					continue
 				}
-- 
2.43.0


From 97b4b74362f8247c0401d4f408f662c8b7507b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 20/46] fix: xtemplate rejects keyword positions below one

---
 cmd/xtemplate/internal/keyword.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/xtemplate/internal/keyword.go b/cmd/xtemplate/internal/keyword.go
index b68aff2..d041bb8 100644
--- a/cmd/xtemplate/internal/keyword.go
+++ b/cmd/xtemplate/internal/keyword.go
@@ -50,6 +50,10 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 		index := strings.Split(nameIndex[1], ",")
 		for i := range index {
 			index[i] = strings.TrimSpace(index[i])
+			// 参数位置从 1 开始
+			if n, err := strconv.ParseInt(strings.TrimSuffix(index[i], "c"), 10, 64); err == nil && n < 1 {
+				return nil, errors.Errorf(msg)
+			}
 		}
 		switch len(index) {
 		case 1:
-- 
2.43.0


From d9c8694953c5d73cf30f1f431943b1597473b9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 21/46] fix: saving a message of many lines takes linear time

---
 translator/wrap.go | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/translator/wrap.go b/translator/wrap.go
index 3a5609f..cb3e92b 100644
--- a/translator/wrap.go
+++ b/translator/wrap.go
@@ -7,29 +7,23 @@ import (
 const lineThreshold = 77
 
 // split split long text to small parts by blank or newline(\n)
-func split(long string, threshold int) []string {
-	return split0(long, threshold, 0)
-}
-
-// split split long text to small parts by blank or newline(\n)
-func split0(long string, threshold int, depth int) []string {
-	length := len(long)
-	if index := strings.Index(long, "\n"); index >= 0 && index < length-1 {
-		left := long[:index+1]
-		right := long[index+1:]
-		prefix := []string{left}
-		if depth == 0 {
-			prefix = []string{"", left}
+func split(long string, threshold int) (lines []string) {
+	// 逐行处理，不能递归：行数可能很多
+	for {
+		index := strings.Index(long, "\n")
+		if index < 0 || index >= len(long)-1 {
+			break
 		}
-		return append(prefix, split0(right, threshold, depth+1)...)
-	}
-	if length <= threshold {
-		return []string{long}
+		if len(lines) == 0 {
+			lines = append(lines, "")
+		}
+		lines = append(lines, long[:index+1])
+		long = long[index+1:]
 	}
-	if index := strings.LastIndex(long, " "); index >= 0 && index < length-1 {
-		left := long[:index+1]
-		right := long[index+1:]
-		return append(split0(left, threshold, depth+1), right)
+	if len(long) > threshold {
+		if index := strings.LastIndex(long, " "); index >= 0 && index < len(long)-1 {
+			return append(lines, long[:index+1], long[index+1:])
+		}
 	}
-	return []string{long}
+	return append(lines, long)
 }
-- 
2.43.0


From 6ed419859c8c905722c6e176a5c0c2e01b24f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 22/46] fix: an oversized plural expression is an error, not a
 stack overflow

---
 plurals/exp.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/plurals/exp.go b/plurals/exp.go
index 7fceddf..3d16a06 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -26,6 +26,10 @@ func Eval(ctx context.Context, exp string, n int64) (result int64, err error) {
 		return fun(n), nil
 	}
 
+	if err := checkSize(exp); err != nil {
+		return 0, err
+	}
+
 	// 2 词法解析
 	input := antlr.NewInputStream(exp)
 	lexer := parser.NewpluralLexer(input)
@@ -46,6 +50,31 @@ func Eval(ctx context.Context, exp string, n int64) (result int64, err error) {
 	return l.result, errListener.err
 }
 
+const (
+	maxLength = 1 << 13 // 表达式的最大长度
+	maxDepth  = 256     // 括号的最大嵌套层数
+)
+
+// checkSize 表达式来自翻译文件，过长会导致解析时栈溢出(无法 recover)，括号嵌套过深则解析非常慢
+func checkSize(exp string) error {
+	if len(exp) > maxLength {
+		return errors.Errorf("expression too long: %d", len(exp))
+	}
+	depth := 0
+	for _, c := range exp {
+		switch c {
+		case '(':
+			depth++
+		case ')':
+			depth--
+		}
+		if depth > maxDepth {
+			return errors.Errorf("expression nested too deeply")
+		}
+	}
+	return nil
+}
+
 // c syntax accept int(0) as false, none-zero as true
 const (
 	_TRUE  = 1
-- 
2.43.0


From d80e7145dcaa7d5cd00383b8acba6dc5f89d795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 23/46] fix: a plural expression of many errors does not
 exhaust memory

---
 plurals/err.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plurals/err.go b/plurals/err.go
index 57bb7ee..dbb65bd 100644
--- a/plurals/err.go
+++ b/plurals/err.go
@@ -13,9 +13,13 @@ var ErrAntlr = fmt.Errorf("err antlr")
 // errorListener handler lexer/parser errors
 type errorListener struct {
 	*antlr.DefaultErrorListener
-	err error
+	err   error
+	count int
 }
 
+// maxErrors 最多记录几个错误。每次追加都会重新拼接全部错误信息，不限制的话很长的错误表达式会耗尽内存
+const maxErrors = 8
+
 func (d *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymbol any, line, column int, msg string, e antlr.RecognitionException) {
 	d.addError(errors.Errorf("SyntaxError(line %v:%v): %v", line, column, msg)) // SyntaxError 语法错误
 }
@@ -36,5 +40,8 @@ func (d *errorListener) addError(err error) {
 	if d.err == nil {
 		d.err = ErrAntlr
 	}
+	if d.count++; d.count > maxErrors {
+		return
+	}
 	d.err = errors.WithSecondaryError(d.err, err)
 }
-- 
2.43.0


From 6dba16a3b61043432a18be82f383e75c63aa69b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 24/46] fix: reading a string of many lines takes linear time

---
 translator/po.go     | 18 ++++++++++++++----
 translator/reader.go | 11 +++++++++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/translator/po.go b/translator/po.go
index 623c3d4..c0aae4a 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -208,11 +208,21 @@ func readEntry(r *reader) (*Entry, error) {
 		// msgid "previous line"
 		// "current line"
 		if strings.HasPrefix(line, prefixQuote) {
-			data, err := removePrefixAndUnquote(line, "")
-			if err != nil {
-				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote %s failed|line %d: %s", previousLineState, r.lineNo, line))
+			// 先读完所有续行再一起追加，逐行追加到字符串需要平方级的时间
+			var text strings.Builder
+			for {
+				data, err := removePrefixAndUnquote(line, "")
+				if err != nil {
+					return nil, errors.WithSecondaryError(errInvalidEntry,
+						errors.Wrapf(err, "unquote %s failed|line %d: %s", previousLineState, r.lineNo, line))
+				}
+				text.WriteString(data)
+				if line, err = r.nextContentLine(); err != nil || !strings.HasPrefix(line, prefixQuote) {
+					r.unGetLine()
+					break
+				}
 			}
+			data := text.String()
 			switch previousLineState {
 			case stateCtxt:
 				entry.MsgCtxt += data
diff --git a/translator/reader.go b/translator/reader.go
index 598f0b0..35208b5 100644
--- a/translator/reader.go
+++ b/translator/reader.go
@@ -2,6 +2,7 @@ package translator
 
 import (
 	"io"
+	"strings"
 
 	"github.com/youthlin/t/errors"
 )
@@ -35,6 +36,16 @@ func (r *reader) nextLine() (string, error) {
 	return r.currentLine()
 }
 
+// nextContentLine 下一个非空白行
+func (r *reader) nextContentLine() (string, error) {
+	for {
+		line, err := r.nextLine()
+		if err != nil || strings.TrimSpace(line) != "" {
+			return line, err
+		}
+	}
+}
+
 func (r *reader) unGetLine() error {
 	if r.lineNo < 0 {
 		return errors.Errorf("already at the beginning")
-- 
2.43.0


From 4d27dfde63865f7ee293ee84ee653a35138226b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 25/46] fix: a text with an unclosed argument index is not
 swallowed

---
 f/format.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/f/format.go b/f/format.go
index 94f4c92..a69c52e 100644
--- a/f/format.go
+++ b/f/format.go
@@ -26,9 +26,15 @@ func Format(format string, args ...any) string {
 	// 原理：使用索引指定参数位置，在 args 后拼接一个空白字符串，
 	// 然后在格式化字符串上使用 %[n]s 输出拼接的空白字符串，这样就没有多余的参数了
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
-	args = append(args[:length:length], "") // 不能写到调用方切片的剩余容量里
-	format = fmt.Sprintf("%s%%[%d]s", format, length+1)
-	return fmt.Sprintf(format, args...)
+	blank := append(args[:length:length], "") // 不能写到调用方切片的剩余容量里
+	result := fmt.Sprintf(fmt.Sprintf("%s%%[%d]s", format, length+1), blank...)
+	if strings.LastIndexByte(format, '[') > strings.LastIndexByte(format, ']') {
+		// 如果是没有结束的参数位置，会和拼接的动词混在一起；此时 fmt 本来就不会提示多余的参数
+		if s := fmt.Sprintf(format, args...); !strings.HasPrefix(s, result) {
+			return s
+		}
+	}
+	return result
 }
 
 // DefaultPlural 根据 n 选择单数或复数形式。
-- 
2.43.0


From 6f5e2f436d7322e73e656d294324d5bf4566fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 26/46] fix: surplus arguments never disturb the verbs of a
 text

---
 f/format.go | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/f/format.go b/f/format.go
index a69c52e..c2bc254 100644
--- a/f/format.go
+++ b/f/format.go
@@ -1,11 +1,6 @@
 package f
 
-import (
-	"fmt"
-	"strings"
-)
-
-const noVerb = "%!(NOVERB)" // fmt 对末尾不完整的动词的提示
+import "fmt"
 
 // Format format a string with args, like fmt.Sprintf,
 // but if args tow many, not prints %!(EXTRA type=value);
@@ -19,22 +14,12 @@ func Format(format string, args ...any) string {
 	if length == 0 {
 		return format
 	}
-	// 末尾是不完整的动词时，不能再拼接别的动词
-	if strings.HasSuffix(fmt.Sprintf(format+"%%"), noVerb) {
-		return Format(format[:strings.LastIndexByte(format, '%')], args...) + noVerb
-	}
-	// 原理：使用索引指定参数位置，在 args 后拼接一个空白字符串，
-	// 然后在格式化字符串上使用 %[n]s 输出拼接的空白字符串，这样就没有多余的参数了
+	// 原理：只要格式化字符串里出现过参数索引（%[n]verb），fmt 就不再提示多余的参数；
+	// %[1]% 只输出一个百分号、不消耗参数，放在最前面不会影响后面的任何动词，再去掉这个百分号即可。
+	// args 后拼接一个空白字符串，不能写到调用方切片的剩余容量里
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
-	blank := append(args[:length:length], "") // 不能写到调用方切片的剩余容量里
-	result := fmt.Sprintf(fmt.Sprintf("%s%%[%d]s", format, length+1), blank...)
-	if strings.LastIndexByte(format, '[') > strings.LastIndexByte(format, ']') {
-		// 如果是没有结束的参数位置，会和拼接的动词混在一起；此时 fmt 本来就不会提示多余的参数
-		if s := fmt.Sprintf(format, args...); !strings.HasPrefix(s, result) {
-			return s
-		}
-	}
-	return result
+	blank := append(args[:length:length], "")
+	return fmt.Sprintf("%[1]%"+format, blank...)[1:]
 }
 
 // DefaultPlural 根据 n 选择单数或复数形式。
-- 
2.43.0


From 2cc0c3791dc13e70f6b7d7c29da10e6e52fe337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 27/46] fix: an encoding suffix does not change a locale's
 region

---
 locale/detect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/locale/detect.go b/locale/detect.go
index 014a218..9da2d1d 100644
--- a/locale/detect.go
+++ b/locale/detect.go
@@ -2,6 +2,7 @@ package locale
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/Xuanwo/go-locale"
 	"golang.org/x/text/language"
@@ -19,6 +20,9 @@ func GetDefault() string {
 
 // Normalize return ll_CC code
 func Normalize(lang string) string {
+	if i := strings.IndexAny(lang, ".@"); i >= 0 {
+		lang = lang[:i] // 编码和修饰符不是语言标签的一部分，如 zh_TW.UTF-8, de_AT@euro
+	}
 	return NormalizeTag(language.Make(lang))
 }
 
-- 
2.43.0


From 224d6a4e809379e37e0e51ff562ce1d6fc5bd396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 28/46] fix: normalising a private-use tag is stable

---
 locale/detect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/locale/detect.go b/locale/detect.go
index 9da2d1d..c8e949d 100644
--- a/locale/detect.go
+++ b/locale/detect.go
@@ -29,6 +29,10 @@ func Normalize(lang string) string {
 // NormalizeTag return ll_CC code
 func NormalizeTag(tag language.Tag) string {
 	base, _ := tag.Base()
+	if base == (language.Base{}) { // 私有标签(x-foo)没有语言
+		tag = language.Und
+		base, _ = tag.Base()
+	}
 	region, _ := tag.Region()
 	return fmt.Sprintf("%v_%v", base, region)
 }
-- 
2.43.0


From 6e27077171937387fa23ffa1ce12c374c42addb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 29/46] fix: deprecated codes in an ill-formed tag normalise to
 a stable locale

---
 locale/detect.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/locale/detect.go b/locale/detect.go
index c8e949d..1cb0de9 100644
--- a/locale/detect.go
+++ b/locale/detect.go
@@ -28,6 +28,7 @@ func Normalize(lang string) string {
 
 // NormalizeTag return ll_CC code
 func NormalizeTag(tag language.Tag) string {
+	tag, _ = language.Default.Canonicalize(tag) // 格式不完全正确的标签可能还含有已弃用的代码
 	base, _ := tag.Base()
 	if base == (language.Base{}) { // 私有标签(x-foo)没有语言
 		tag = language.Und
-- 
2.43.0


From 38622a5d7ca987404db3414edc1c5e78a10d82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 30/46] fix: one unknown language does not void an
 Accept-Language header

---
 http.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/http.go b/http.go
index e6a999b..2380497 100644
--- a/http.go
+++ b/http.go
@@ -2,6 +2,7 @@ package t
 
 import (
 	"net/http"
+	"strings"
 
 	"golang.org/x/text/language"
 )
@@ -31,9 +32,19 @@ func GetUserLang(request *http.Request, opts ...getUserLangOpt) string {
 	for _, lang := range langs {
 		supported = append(supported, language.Make(lang))
 	}
-	matcher := language.NewMatcher(supported)                     // 匹配器
-	acceptLangs := request.Header.Get(HTTPHeaderAcceptLanguage)   // 用户支持的语言
-	userAccept, _, _ := language.ParseAcceptLanguage(acceptLangs) // 转为 Tag
-	_, index, _ := matcher.Match(userAccept...)                   // 找到最匹配的语言
+	matcher := language.NewMatcher(supported)                       // 匹配器
+	acceptLangs := request.Header.Get(HTTPHeaderAcceptLanguage)     // 用户支持的语言
+	userAccept, _, err := language.ParseAcceptLanguage(acceptLangs) // 转为 Tag
+	if err != nil {
+		// 有一个不认识的语言就不会返回任何 Tag，去掉不认识的再试
+		var known []string
+		for _, item := range strings.Split(acceptLangs, ",") {
+			if _, _, err := language.ParseAcceptLanguage(item); err == nil {
+				known = append(known, item)
+			}
+		}
+		userAccept, _, _ = language.ParseAcceptLanguage(strings.Join(known, ","))
+	}
+	_, index, _ := matcher.Match(userAccept...) // 找到最匹配的语言
 	return langs[index]
 }
-- 
2.43.0


From 271b417017be537f88ddcd0cd7d52236a384b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 31/46] fix: messages whose sort keys coincide have a definite
 order

---
 translator/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 7265cc3..4f02c9f 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -73,7 +73,10 @@ func (file *File) SortedEntry() (entries []*Entry) {
 	sort.Slice(entries, func(i, j int) bool {
 		left := entries[i]
 		right := entries[j]
-		return left.getSortKey() < right.getSortKey()
+		if l, r := left.getSortKey(), right.getSortKey(); l != r {
+			return l < r
+		}
+		return left.Key() < right.Key() // 行号注释和上下文拼接后可能相同
 	})
 	return
 }
-- 
2.43.0


From 7e7b0226c202074fb4b6bf13b2f390491e8163ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 32/46] fix: xtemplate registers functions whose names have
 non-ASCII letters

---
 cmd/xtemplate/internal/run.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 8229fba..60b5f34 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -22,9 +22,9 @@ var templateBuiltins = map[string]bool{
 	"template": true, "define": true, "block": true, "break": true, "continue": true,
 }
 
-// identPattern 匹配模板中所有合法 Go 标识符（字母或下划线开头）。
+// identPattern 匹配模板中所有合法 Go 标识符（字母或下划线开头，字母不限于 ASCII）。
 // 扫描所有标识符并注册为 noop 函数，比精确匹配函数调用位置更简单可靠。
-var identPattern = regexp.MustCompile(`[a-zA-Z_]\w*`)
+var identPattern = regexp.MustCompile(`[\p{L}_][\p{L}\p{Nd}_]*`)
 
 // scanFuncNames 从模板源码中扫描所有标识符，排除内置关键字，作为候选函数名。
 func scanFuncNames(src string) map[string]bool {
-- 
2.43.0


From 15a309a2b1abf5e56b79ea4fd96e682a4aeba551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 33/46] fix: xtemplate does not crash on a huge keyword
 position

---
 cmd/xtemplate/internal/run.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 60b5f34..d8e2583 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -272,8 +272,7 @@ func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
 	argLength := len(args)
 	for _, kw := range ctx.Keywords {
 		if kw.Name == name {
-			lastIndex := nameIndex + max(kw.MsgCtxt, kw.MsgID, kw.MsgID2)
-			if lastIndex >= argLength {
+			if max(kw.MsgCtxt, kw.MsgID, kw.MsgID2) >= argLength-nameIndex { // 位置可能很大，相加会溢出
 				ctx.debugPrint("  >  >  >  ID=%v too few args", name)
 				continue
 			}
-- 
2.43.0


From 065c9c2734fda65adf79235fe3c82d22faf8da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 34/46] fix: xtemplate keeps locations and header values on one
 line

---
 cmd/xtemplate/internal/helper.go |  5 +++++
 cmd/xtemplate/internal/param.go  | 12 ++++++------
 cmd/xtemplate/internal/run.go    |  2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/cmd/xtemplate/internal/helper.go b/cmd/xtemplate/internal/helper.go
index c7b6bf2..cfa2206 100644
--- a/cmd/xtemplate/internal/helper.go
+++ b/cmd/xtemplate/internal/helper.go
@@ -20,3 +20,8 @@ func key(ctxt, msgid string) string {
 func isGoFormat(e *translator.Entry) bool {
 	return strings.Contains(e.MsgID, "%") || strings.Contains(e.MsgID2, "%")
 }
+
+// oneLine 把换行替换为空格，用于只能占一行的注释和文件头字段。
+func oneLine(s string) string {
+	return strings.NewReplacer("\r", " ", "\n", " ").Replace(s)
+}
diff --git a/cmd/xtemplate/internal/param.go b/cmd/xtemplate/internal/param.go
index 27476dd..aac9e65 100644
--- a/cmd/xtemplate/internal/param.go
+++ b/cmd/xtemplate/internal/param.go
@@ -147,12 +147,12 @@ func (ctx *Context) header() *translator.Entry {
 	if ctx.hasPlural {
 		headers = append(headers, "Plural-Forms: nplurals=INTEGER; plural=EXPRESSION;")
 	}
-	headers = append(headers, fmt.Sprintf("X-Xtemplate-Input: %v", ctx.Input))
-	headers = append(headers, fmt.Sprintf("X-Xtemplate-Left: %v", ctx.Left))
-	headers = append(headers, fmt.Sprintf("X-Xtemplate-Right: %v", ctx.Right))
-	headers = append(headers, fmt.Sprintf("X-Xtemplate-Keywords: %v", ctx.Keyword))
-	headers = append(headers, fmt.Sprintf("X-Xtemplate-Functions: %v", ctx.Function))
-	headers = append(headers, fmt.Sprintf("X-Xtemplate-Output: %v", ctx.OutputFile))
+	headers = append(headers, fmt.Sprintf("X-Xtemplate-Input: %v", oneLine(ctx.Input)))
+	headers = append(headers, fmt.Sprintf("X-Xtemplate-Left: %v", oneLine(ctx.Left)))
+	headers = append(headers, fmt.Sprintf("X-Xtemplate-Right: %v", oneLine(ctx.Right)))
+	headers = append(headers, fmt.Sprintf("X-Xtemplate-Keywords: %v", oneLine(ctx.Keyword)))
+	headers = append(headers, fmt.Sprintf("X-Xtemplate-Functions: %v", oneLine(ctx.Function)))
+	headers = append(headers, fmt.Sprintf("X-Xtemplate-Output: %v", oneLine(ctx.OutputFile)))
 	headers = append(headers, "")
 	e.MsgStr = strings.Join(headers, "\n")
 	return e
diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index d8e2583..06aed9a 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -334,7 +334,7 @@ func stringLiteral(node parse.Node) (string, bool) {
 // extract 根据 keyword 定义的参数位置，把当前命令转换成 translator.Entry。
 func extract(ctx *Context, line, name string, kw Keyword, m map[int]string) (*translator.Entry, bool) {
 	entry := new(translator.Entry)
-	entry.MsgCmts = append(entry.MsgCmts, fmt.Sprintf("#: %v", line))
+	entry.MsgCmts = append(entry.MsgCmts, fmt.Sprintf("#: %v", oneLine(line)))
 	if kw.MsgCtxt > 0 {
 		txt, ok := m[kw.MsgCtxt]
 		if !ok {
-- 
2.43.0


From 35ce0d01ce6c286051a6adffea8c086fdc8f57be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 35/46] fix: xtemplate does not take a keyword-named operand
 for a call

---
 cmd/xtemplate/internal/run.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 06aed9a..bcd884b 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -269,6 +269,9 @@ func pipedStringArg(cmds []*parse.CommandNode, cmdIndex int) parse.Node {
 
 // filter 在命令参数中识别是否命中了 gettext 风格关键字，若命中则尝试抽取 entry。
 func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
+	if !isCallee(args, nameIndex) { // 如 print .N "a" 中的 .N 只是参数，"a" 不是它的参数
+		return
+	}
 	argLength := len(args)
 	for _, kw := range ctx.Keywords {
 		if kw.Name == name {
@@ -308,6 +311,15 @@ func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
 	}
 }
 
+// isCallee 判断命令的第 i 项是否是被调用者：首项，或者 call 之后的一项。
+func isCallee(args []parse.Node, i int) bool {
+	if i == 1 {
+		ident, ok := args[0].(*parse.IdentifierNode)
+		return ok && ident.Ident == "call"
+	}
+	return i == 0
+}
+
 // stringLiteral 尝试把一个 AST 节点解析成字符串字面量。
 // 除了直接的 StringNode，也支持 T ("wrapped") 这种被 PipeNode 再包一层的情况。
 func stringLiteral(node parse.Node) (string, bool) {
-- 
2.43.0


From f6cc50f8be6a53d199b81bc31c74ce02075d9447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 36/46] fix: a tree whose catalogs declare no language does not
 replace a domain

---
 translations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translations.go b/translations.go
index 967a3b1..564ae6f 100644
--- a/translations.go
+++ b/translations.go
@@ -53,7 +53,7 @@ func (ts *Translations) clone() *Translations {
 // 从文件系统绑定翻译域
 func (ts *Translations) BindFS(domain string, fsys fs.FS) {
 	tr := NewTranslation(domain)
-	if tr.LoadFS(fsys) {
+	if tr.LoadFS(fsys) && len(tr.langs) > 0 { // 没有声明语言的文件不会被注册
 		ts.domains[domain] = tr
 	}
 }
-- 
2.43.0


From 6f3cd98addf461c00944ac9c3cd2e3ad408676ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 37/46] fix: keep bytes that are not UTF-8 and reject other
 quotes when reading PO strings

---
 translator/util.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/translator/util.go b/translator/util.go
index a49c0b3..fc49f11 100644
--- a/translator/util.go
+++ b/translator/util.go
@@ -16,7 +16,40 @@ func key(ctxt, msgid string) string {
 func removePrefixAndUnquote(line, prefix string) (string, error) {
 	line = strings.TrimPrefix(line, prefix)
 	line = strings.TrimSpace(line)
-	return strconv.Unquote(line)
+	if !strings.HasPrefix(line, `"`) { // strconv.Unquote 还接受单引号和反引号
+		return "", strconv.ErrSyntax
+	}
+	if utf8.ValidString(line) {
+		return strconv.Unquote(line)
+	}
+	return unquoteBytes(line)
+}
+
+// unquoteBytes 同 strconv.Unquote, 但不是 utf8 的字节原样保留(文件可能是其他编码)，而不是替换为 U+FFFD
+func unquoteBytes(s string) (string, error) {
+	if len(s) < 2 || s[len(s)-1] != '"' {
+		return "", strconv.ErrSyntax
+	}
+	s = s[1 : len(s)-1]
+	var sb strings.Builder
+	for len(s) > 0 {
+		if s[0] >= utf8.RuneSelf {
+			sb.WriteByte(s[0])
+			s = s[1:]
+			continue
+		}
+		r, multibyte, tail, err := strconv.UnquoteChar(s, '"')
+		if err != nil {
+			return "", err
+		}
+		if multibyte {
+			sb.WriteRune(r)
+		} else {
+			sb.WriteByte(byte(r))
+		}
+		s = tail
+	}
+	return sb.String(), nil
 }
 
 // quote 给字符串加上引号，只使用 po 文件(C 语言)支持的转义
-- 
2.43.0


From 646ccef190fa3926a26ac72ebc29add935d98dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 38/46] fix: report a string line that continues no field
 instead of dropping it

---
 translator/po.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index c0aae4a..97c0ed2 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -207,7 +207,8 @@ func readEntry(r *reader) (*Entry, error) {
 
 		// msgid "previous line"
 		// "current line"
-		if strings.HasPrefix(line, prefixQuote) {
+		// 前面没有任何字段的字符串不是续行，不能悄悄丢掉
+		if previousLineState != "" && strings.HasPrefix(line, prefixQuote) {
 			// 先读完所有续行再一起追加，逐行追加到字符串需要平方级的时间
 			var text strings.Builder
 			for {
-- 
2.43.0


From 4a24b1f4d4d193c1248f086e122f8858709f7a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 39/46] fix: reject fields without msgid instead of taking them
 for the header

---
 translator/po.go     | 10 +++++++++-
 translator/reader.go |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index 97c0ed2..71d15f1 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -37,6 +37,11 @@ func readPo(content []byte, pot bool) (*File, error) {
 		if err != nil && !eof {
 			return nil, err
 		}
+		// 没有 msgid 的字段不属于任何条目，不能当作 msgid 为空的文件头
+		if r.hasField && !r.hasID {
+			return nil, errors.WithSecondaryError(errInvalidEntry,
+				errors.Errorf("missing msgid before line %d", r.lineNo+1))
+		}
 		// 模板中的条目没有译文，全部保留；但文件末尾没有任何字段的(只有空行或注释)不是条目，
 		// 不能让它覆盖文件头
 		if entry.isValid() || pot && !(eof && entry.isBlank()) {
@@ -104,7 +109,10 @@ func readEntry(r *reader) (*Entry, error) {
 		// previousLineState 上一行的状态
 		previousLineState = ""
 	)
+	r.hasField, r.hasID = false, false
 	for {
+		r.hasField = r.hasField || previousLineState != ""
+		r.hasID = r.hasID || previousLineState == stateID
 		line, err := r.nextLine()
 		if err != nil {
 			if errors.Is(err, io.EOF) {
@@ -191,7 +199,7 @@ func readEntry(r *reader) (*Entry, error) {
 		}
 		// msgstr
 		if strings.HasPrefix(line, prefixStr) {
-			if equalsAny(previousLineState, stateStrN) {
+			if equalsAny(previousLineState, stateStr, stateStrN) {
 				r.unGetLine()
 				return entry, nil
 			}
diff --git a/translator/reader.go b/translator/reader.go
index 35208b5..86803f1 100644
--- a/translator/reader.go
+++ b/translator/reader.go
@@ -11,6 +11,8 @@ type reader struct {
 	lines     []string
 	lineNo    int
 	totalLine int
+	// 最近读取的条目里是否有任何字段、是否有 msgid 字段
+	hasField, hasID bool
 }
 
 func newReader(lines []string) *reader {
-- 
2.43.0


From 0158c58e6204093ed2549ec7db3a46382b41570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 40/46] fix: accept a number of plural forms of several digits

---
 translator/plural.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/plural.go b/translator/plural.go
index b7364f5..eb76c52 100644
--- a/translator/plural.go
+++ b/translator/plural.go
@@ -16,7 +16,7 @@ type plural struct {
 }
 
 var (
-	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d)\s*;\s*plural\s*=\s*(.*)\s*;$`)
+	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d+)\s*;\s*plural\s*=\s*(.*)\s*;$`)
 	invalidPluralFn = func(i int64) int { return -1 }
 )
 
-- 
2.43.0


From 76b71109c7405df6fb7ff6a92dcd89af3a84c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 41/46] fix: accept a plural rule without a final semicolon

---
 translator/plural.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/plural.go b/translator/plural.go
index eb76c52..ef105ce 100644
--- a/translator/plural.go
+++ b/translator/plural.go
@@ -16,7 +16,7 @@ type plural struct {
 }
 
 var (
-	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d+)\s*;\s*plural\s*=\s*(.*)\s*;$`)
+	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d+)\s*;\s*plural\s*=\s*(.*?)\s*;?$`)
 	invalidPluralFn = func(i int64) int { return -1 }
 )
 
-- 
2.43.0


From 1bf0df928a49d3d1e03fe3014ea1c1c6f8fecf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 42/46] fix: language tags of arbitrary strings are not
 remembered without limit

---
 tag.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tag.go b/tag.go
index 6b73b77..c93690c 100644
--- a/tag.go
+++ b/tag.go
@@ -1,19 +1,35 @@
 package t
 
 import (
+	"strings"
 	"sync"
+	"sync/atomic"
 
 	"golang.org/x/text/language"
 )
 
-var cachedTag sync.Map
+const (
+	maxCachedTags   = 1024 // 最多缓存多少个语言
+	maxCachedLocale = 64   // 太长的不缓存
+)
+
+var (
+	cachedTag  sync.Map
+	cachedTags atomic.Int64
+)
 
 func Tag(locale string) language.Tag {
 	if v, ok := cachedTag.Load(locale); ok {
 		return v.(language.Tag)
 	}
+	// 语言可能来自用户请求，不能无限缓存
+	if len(locale) > maxCachedLocale || cachedTags.Load() >= maxCachedTags {
+		return language.Make(locale)
+	}
+	locale = strings.Clone(locale) // 可能是很长的字符串的一部分
 	tag := language.Make(locale)
 	cachedTag.Store(locale, tag)
+	cachedTags.Add(1)
 	return tag
 }
 
-- 
2.43.0


From f9f9c209254e44a0f0c085dd975e32e8c3b4b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 43/46] fix: show percent signs of keywords and file names in
 messages as given

---
 cmd/xtemplate/internal/keyword.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/cmd/xtemplate/internal/keyword.go b/cmd/xtemplate/internal/keyword.go
index d041bb8..288c036 100644
--- a/cmd/xtemplate/internal/keyword.go
+++ b/cmd/xtemplate/internal/keyword.go
@@ -33,33 +33,33 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 		if len(nameIndex) == 1 {
 			name := strings.TrimSpace(nameIndex[0])
 			if name == "" {
-				return nil, errors.Errorf(msg)
+				return nil, errors.New(msg)
 			}
 			result = append(result, Keyword{Name: name, MsgID: 1})
 			continue
 		}
 		if len(nameIndex) != 2 {
-			return nil, errors.Errorf(msg)
+			return nil, errors.New(msg)
 		}
 		k := Keyword{
 			Name: strings.TrimSpace(nameIndex[0]),
 		}
 		if k.Name == "" {
-			return nil, errors.Errorf(msg)
+			return nil, errors.New(msg)
 		}
 		index := strings.Split(nameIndex[1], ",")
 		for i := range index {
 			index[i] = strings.TrimSpace(index[i])
 			// 参数位置从 1 开始
 			if n, err := strconv.ParseInt(strings.TrimSuffix(index[i], "c"), 10, 64); err == nil && n < 1 {
-				return nil, errors.Errorf(msg)
+				return nil, errors.New(msg)
 			}
 		}
 		switch len(index) {
 		case 1:
 			i, err := strconv.ParseInt(index[0], 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number"))
+				return nil, errors.Wrap(err, msg+t.T("msg id index is not a number"))
 			}
 			k.MsgID = int(i)
 		case 2:
@@ -70,25 +70,25 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 				c := i1[:len(i1)-1]
 				cIndex, err := strconv.ParseInt(c, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("context index is not a number: %v", c))
+					return nil, errors.Wrap(err, msg+t.T("context index is not a number: %v", c))
 				}
 				k.MsgCtxt = int(cIndex)
 
 				index, err := strconv.ParseInt(i2, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i2))
+					return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i2))
 				}
 				k.MsgID = int(index)
 			} else {
 				index, err := strconv.ParseInt(i1, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i1))
+					return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i1))
 				}
 				k.MsgID = int(index)
 
 				index, err = strconv.ParseInt(i2, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("msg plural index is not a number: %v", i2))
+					return nil, errors.Wrap(err, msg+t.T("msg plural index is not a number: %v", i2))
 				}
 				k.MsgID2 = int(index)
 			}
@@ -97,28 +97,28 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 			i2 := index[1]
 			i3 := index[2]
 			if !strings.HasSuffix(i1, "c") {
-				return nil, errors.Errorf(msg + t.T("context index must end with 'c': %v", i1))
+				return nil, errors.New(msg + t.T("context index must end with 'c': %v", i1))
 			}
 			c := i1[:len(i1)-1]
 			index, err := strconv.ParseInt(c, 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg context index is not a number: %v", c))
+				return nil, errors.Wrap(err, msg+t.T("msg context index is not a number: %v", c))
 			}
 			k.MsgCtxt = int(index)
 
 			index, err = strconv.ParseInt(i2, 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i2))
+				return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i2))
 			}
 			k.MsgID = int(index)
 
 			index, err = strconv.ParseInt(i3, 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i3))
+				return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i3))
 			}
 			k.MsgID2 = int(index)
 		default:
-			return nil, errors.Errorf(msg + t.T("too much keyword index"))
+			return nil, errors.New(msg + t.T("too much keyword index"))
 		}
 		result = append(result, k)
 	}
@@ -132,7 +132,7 @@ func Writer(fileName string) (wr *os.File, err error) {
 	if fileName != "" && fileName != "-" {
 		wr, err = os.OpenFile(fileName, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 		if err != nil {
-			err = errors.Wrapf(err, t.T("can not open output file: %s", fileName))
+			err = errors.Wrap(err, t.T("can not open output file: %s", fileName))
 		}
 	}
 	return
-- 
2.43.0


From 989cc8973513dee60ed8b977bbd40a515e43e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 44/46] fix: number the lines of PO errors from 1, as editors
 and other gettext tools do

---
 translator/po.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/translator/po.go b/translator/po.go
index 71d15f1..de41cc2 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -40,7 +40,7 @@ func readPo(content []byte, pot bool) (*File, error) {
 		// 没有 msgid 的字段不属于任何条目，不能当作 msgid 为空的文件头
 		if r.hasField && !r.hasID {
 			return nil, errors.WithSecondaryError(errInvalidEntry,
-				errors.Errorf("missing msgid before line %d", r.lineNo+1))
+				errors.Errorf("missing msgid before line %d", min(r.lineNo+1, r.totalLine)+1))
 		}
 		// 模板中的条目没有译文，全部保留；但文件末尾没有任何字段的(只有空行或注释)不是条目，
 		// 不能让它覆盖文件头
@@ -146,7 +146,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefixCtxt)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote msgctxt failed|line %d: %s", r.lineNo, line))
+					errors.Wrapf(err, "unquote msgctxt failed|line %d: %s", r.lineNo+1, line))
 			}
 			entry.MsgCtxt += data
 			continue
@@ -161,7 +161,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefixID2)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote msgid_plural failed|line %d: %s", r.lineNo, line))
+					errors.Wrapf(err, "unquote msgid_plural failed|line %d: %s", r.lineNo+1, line))
 			}
 			entry.MsgID2 += data
 			entry.IsPlural = true
@@ -177,7 +177,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefixID)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote msgid failed|line %d: %s", r.lineNo, line))
+					errors.Wrapf(err, "unquote msgid failed|line %d: %s", r.lineNo+1, line))
 			}
 			entry.MsgID += data
 			continue
@@ -192,7 +192,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefix)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote %s failed|line %d: %s", prefix, r.lineNo, line))
+					errors.Wrapf(err, "unquote %s failed|line %d: %s", prefix, r.lineNo+1, line))
 			}
 			entry.MsgStrN = append(entry.MsgStrN, data)
 			continue
@@ -207,7 +207,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefixStr)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote msgstr failed|line %d: %s", r.lineNo, line))
+					errors.Wrapf(err, "unquote msgstr failed|line %d: %s", r.lineNo+1, line))
 			}
 			entry.MsgStr += data
 			continue
@@ -223,7 +223,7 @@ func readEntry(r *reader) (*Entry, error) {
 				data, err := removePrefixAndUnquote(line, "")
 				if err != nil {
 					return nil, errors.WithSecondaryError(errInvalidEntry,
-						errors.Wrapf(err, "unquote %s failed|line %d: %s", previousLineState, r.lineNo, line))
+						errors.Wrapf(err, "unquote %s failed|line %d: %s", previousLineState, r.lineNo+1, line))
 				}
 				text.WriteString(data)
 				if line, err = r.nextContentLine(); err != nil || !strings.HasPrefix(line, prefixQuote) {
@@ -246,7 +246,7 @@ func readEntry(r *reader) (*Entry, error) {
 			}
 		} else {
 			return nil, errors.WithSecondaryError(errInvalidEntry,
-				errors.Errorf("unexpected line %d: %s", r.lineNo, line))
+				errors.Errorf("unexpected line %d: %s", r.lineNo+1, line))
 		}
 	}
 }
-- 
2.43.0


From 78b1fa657587439ba6d30c5f68b4517e946749b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 45/46] fix: say that the plural index of a keyword with
 context is not a number

---
 cmd/xtemplate/internal/keyword.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/xtemplate/internal/keyword.go b/cmd/xtemplate/internal/keyword.go
index 288c036..fc650f2 100644
--- a/cmd/xtemplate/internal/keyword.go
+++ b/cmd/xtemplate/internal/keyword.go
@@ -114,7 +114,7 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 
 			index, err = strconv.ParseInt(i3, 10, 64)
 			if err != nil {
-				return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i3))
+				return nil, errors.Wrap(err, msg+t.T("msg plural index is not a number: %v", i3))
 			}
 			k.MsgID2 = int(index)
 		default:
-- 
2.43.0


From 4d00b15dce0f56f413f307039ee594dad63899d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 46/46] fix: do not hand out one shared Translation for all
 unbound domains

---
 translations.go | 2 +-
 translaton.go   | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/translations.go b/translations.go
index 564ae6f..87aad62 100644
--- a/translations.go
+++ b/translations.go
@@ -184,7 +184,7 @@ func (ts *Translations) GetOrNoop(domain string) *Translation {
 	if tr, ok := ts.domains[domain]; ok {
 		return tr
 	}
-	return trNoop
+	return NewTranslation("") // 每次新建：调用方往里添加翻译时，不会影响其他未绑定的翻译域
 }
 
 // D return a new Translations with domain
diff --git a/translaton.go b/translaton.go
index 704fedf..0efa644 100644
--- a/translaton.go
+++ b/translaton.go
@@ -14,9 +14,6 @@ const (
 	extMo = ".mo"
 )
 
-// trNoop is a no-op Translation
-var trNoop = NewTranslation("")
-
 // Translation can provide different language translation of a domain
 // tr. [翻译域]包含各个语言的翻译
 type Translation struct {
-- 
2.43.0

