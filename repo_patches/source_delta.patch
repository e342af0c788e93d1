From 7d2f79eb3547630ef1fc8b3a8bb73ebab76af0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 01/31] fix: plural lookup panicked when the rule selects a
 form one past the last translation

---
 translator/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 81617c4..0c21a7b 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -58,7 +58,7 @@ func (file *File) XN64(msgCtxt, msgID, msgIDPlural string, n int64, args ...any)
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
 	index := plural.fn(n)
-	if index < 0 || index >= int(plural.totalForms) || index > len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
+	if index < 0 || index >= int(plural.totalForms) || index >= len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
 		// 超出范围
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
-- 
2.43.0


From a71e8fe9479244f419f53977a28bb9db2215f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 02/31] fix: plural expressions treat every non-zero value as
 true, as C does

---
 plurals/exp.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plurals/exp.go b/plurals/exp.go
index 80a1bd7..378d68f 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -112,7 +112,7 @@ func (s *myListener) handleExpPrefix(prefix antlr.Token) {
 		s.stack.Push(^num) // go 使用 ^ 表示按位取反
 	case "!":
 		num, _ := s.stack.Pop()
-		if num == _TRUE {
+		if num != _FALSE {
 			s.stack.Push(_FALSE)
 		} else {
 			s.stack.Push(_TRUE)
@@ -254,7 +254,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE && right == _TRUE {
+		if left != _FALSE && right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -264,7 +264,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE || right == _TRUE {
+		if left != _FALSE || right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -276,7 +276,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			left, _  = s.stack.Pop()
 			cond, _  = s.stack.Pop()
 		)
-		if cond == _TRUE {
+		if cond != _FALSE {
 			s.stack.Push(left)
 		} else {
 			s.stack.Push(right)
-- 
2.43.0


From 12c9cc11e133156393360d891d91e8325af64815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 03/31] fix: Format no longer overwrites memory behind the
 caller's argument slice

---
 f/format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/f/format.go b/f/format.go
index 6394180..d43bbce 100644
--- a/f/format.go
+++ b/f/format.go
@@ -17,7 +17,8 @@ func Format(format string, args ...any) string {
 	// 原理：使用索引指定参数位置，在 args 后拼接一个空白字符串，
 	// 然后在格式化字符串上使用 %[n]s 输出拼接的空白字符串，这样就没有多余的参数了
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
-	args = append(args, "")
+	// 限制容量，避免 append 覆盖调用方切片底层数组中的元素
+	args = append(args[:length:length], "")
 	format = fmt.Sprintf("%s%%[%d]s", format, length+1)
 	return fmt.Sprintf(format, args...)
 }
-- 
2.43.0


From 73e77002fb5d05f4623daf7f82e17ba21db62240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 04/31] fix: ReadPot panicked on a syntax error and let
 trailing comments displace the header

---
 translator/po.go     |  4 +++-
 translator/reader.go | 12 ++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index d4d1368..cc4be89 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -32,8 +32,10 @@ func readPo(content []byte, pot bool) (*File, error) {
 	r := newReader(strings.Split(data, "\n"))
 	file := new(File)
 	for {
+		start := r.lineNo + 1
 		entry, err := readEntry(r)
-		if pot || entry.isValid() {
+		// 模板中的条目可以没有翻译，但文件末尾剩下的注释不是条目
+		if entry.isValid() || (pot && entry != nil && r.hasField(start)) {
 			file.AddEntry(entry)
 		}
 		if errors.Is(err, io.EOF) {
diff --git a/translator/reader.go b/translator/reader.go
index 598f0b0..fc9076b 100644
--- a/translator/reader.go
+++ b/translator/reader.go
@@ -2,6 +2,7 @@ package translator
 
 import (
 	"io"
+	"strings"
 
 	"github.com/youthlin/t/errors"
 )
@@ -42,3 +43,14 @@ func (r *reader) unGetLine() error {
 	r.lineNo--
 	return nil
 }
+
+// hasField 从 start 行到当前行之间，是否有注释和空白行之外的内容
+func (r *reader) hasField(start int) bool {
+	for i := start; i <= r.lineNo && i < r.totalLine; i++ {
+		line := r.lines[i]
+		if strings.TrimSpace(line) != "" && !strings.HasPrefix(line, "#") {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 7405b123b22155c3a89c3c1946077721129537d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 05/31] fix: PO strings accepted backquotes and single quotes,
 rejected short octal escapes and mangled non-UTF-8 bytes

---
 translator/util.go | 52 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/translator/util.go b/translator/util.go
index 8800dd2..ec41b9a 100644
--- a/translator/util.go
+++ b/translator/util.go
@@ -14,5 +14,55 @@ func key(ctxt, msgid string) string {
 func removePrefixAndUnquote(line, prefix string) (string, error) {
 	line = strings.TrimPrefix(line, prefix)
 	line = strings.TrimSpace(line)
-	return strconv.Unquote(line)
+	return unquote(line)
+}
+
+// unquote 解析双引号中的 C 字符串；与 strconv.Unquote 不同的是：
+// 不接受反引号和单引号，八进制转义可以是 1 到 3 位，非转义的字节原样保留
+func unquote(quoted string) (string, error) {
+	length := len(quoted)
+	if length < 2 || quoted[0] != '"' || quoted[length-1] != '"' {
+		return "", strconv.ErrSyntax
+	}
+	s := quoted[1 : length-1]
+	var buf strings.Builder
+	for len(s) > 0 {
+		if s[0] == '"' {
+			return "", strconv.ErrSyntax
+		}
+		if s[0] != '\\' {
+			buf.WriteByte(s[0])
+			s = s[1:]
+			continue
+		}
+		if octal := octalPrefix(s[1:]); octal != "" {
+			value, err := strconv.ParseUint(octal, 8, 8)
+			if err != nil {
+				return "", err
+			}
+			buf.WriteByte(byte(value))
+			s = s[1+len(octal):]
+			continue
+		}
+		r, multibyte, tail, err := strconv.UnquoteChar(s, '"')
+		if err != nil {
+			return "", err
+		}
+		if multibyte {
+			buf.WriteRune(r)
+		} else {
+			buf.WriteByte(byte(r))
+		}
+		s = tail
+	}
+	return buf.String(), nil
+}
+
+// octalPrefix 返回开头的八进制数字，最多 3 位
+func octalPrefix(s string) string {
+	i := 0
+	for i < len(s) && i < 3 && '0' <= s[i] && s[i] <= '7' {
+		i++
+	}
+	return s[:i]
 }
-- 
2.43.0


From a487441600d441a14b7857d656f175d7fec9b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 06/31] fix: a quoted PO line before any keyword was silently
 dropped instead of being an error

---
 translator/po.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/translator/po.go b/translator/po.go
index cc4be89..22999af 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -219,6 +219,9 @@ func readEntry(r *reader) (*Entry, error) {
 				entry.MsgStrN[len(entry.MsgStrN)-1] += data
 			case stateStr:
 				entry.MsgStr += data
+			default:
+				return nil, errors.WithSecondaryError(errInvalidEntry,
+					errors.Errorf("string without keyword|line %d: %s", r.lineNo, line))
 			}
 		} else {
 			return nil, errors.WithSecondaryError(errInvalidEntry,
-- 
2.43.0


From eb29d62201e8e24728e262238cb9db85c13738df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 07/31] fix: headers and plural rule went stale when the header
 entry was added late or replaced, and an empty msgid with a context was taken
 for the header

---
 translator/entry.go | 2 +-
 translator/file.go  | 2 ++
 translator/pot.go   | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/translator/entry.go b/translator/entry.go
index 733b0c7..bc9106a 100644
--- a/translator/entry.go
+++ b/translator/entry.go
@@ -24,7 +24,7 @@ func (e *Entry) Key() string {
 
 // isHeader 返回该条目是否是一个 header 条目
 func (e *Entry) isHeader() bool {
-	return e.MsgID == ""
+	return e.MsgCtxt == "" && e.MsgID == ""
 }
 
 // isValid 是否合法的条目
diff --git a/translator/file.go b/translator/file.go
index 0c21a7b..5deb12b 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -85,6 +85,8 @@ func (file *File) AddEntry(e *Entry) {
 	}
 	file.entries[e.Key()] = e
 	if e.isHeader() {
+		// 头信息可能已被缓存（之前查询过，或已有旧的 header 条目）
+		file.headers, file.plural = nil, nil
 		file.initHeader()
 		file.initPlural()
 	}
diff --git a/translator/pot.go b/translator/pot.go
index 3490dea..5066752 100644
--- a/translator/pot.go
+++ b/translator/pot.go
@@ -35,7 +35,7 @@ func (f *File) SaveAsPot(w io.Writer) error {
 		writeString(buf, msgid, entry.MsgID)
 
 		if !entry.IsPlural {
-			if entry.MsgID == "" { // header
+			if entry.isHeader() {
 				writeString(buf, msgstr, entry.MsgStr)
 			} else {
 				writeString(buf, msgstr, "")
-- 
2.43.0


From 0910d7e8ee258be3267252ef4d3798c5b0d102ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 08/31] fix: concurrent first lookups in a catalogue without a
 header raced on its cached headers

---
 translator/file.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/translator/file.go b/translator/file.go
index 5deb12b..1a68918 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -4,6 +4,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/youthlin/t/f"
 )
@@ -23,6 +24,7 @@ type File struct {
 	entries map[string]*Entry
 	headers map[string]string
 	plural  *plural
+	mu      sync.Mutex // 保护首次查询时才初始化的 headers 和 plural
 }
 
 // Lang get this translations' language
@@ -85,6 +87,8 @@ func (file *File) AddEntry(e *Entry) {
 	}
 	file.entries[e.Key()] = e
 	if e.isHeader() {
+		file.mu.Lock()
+		defer file.mu.Unlock()
 		// 头信息可能已被缓存（之前查询过，或已有旧的 header 条目）
 		file.headers, file.plural = nil, nil
 		file.initHeader()
@@ -94,6 +98,8 @@ func (file *File) AddEntry(e *Entry) {
 
 // GetHeader get header value by key
 func (file *File) GetHeader(key string) (value string, ok bool) {
+	file.mu.Lock()
+	defer file.mu.Unlock()
 	file.initHeader()
 	value, ok = file.headers[key]
 	return
@@ -125,13 +131,15 @@ func (file *File) initHeader() {
 }
 
 func (file *File) getPlural() *plural {
+	file.mu.Lock()
+	defer file.mu.Unlock()
 	file.initPlural()
 	return file.plural
 }
 
 func (file *File) initPlural() {
 	if file.plural == nil {
-		forms, _ := file.GetHeader(HeaderPluralForms)
-		file.plural = parsePlural(forms)
+		file.initHeader()
+		file.plural = parsePlural(file.headers[HeaderPluralForms])
 	}
 }
-- 
2.43.0


From 314e8ba3389486a34a71d77585d156e68e1ed2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 09/31] fix: ReadMo allocated whatever a corrupt string length
 claims and accepted empty strings outside the file

---
 translator/mo.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/translator/mo.go b/translator/mo.go
index 77cba35..fff7394 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -88,6 +88,15 @@ type lenOff struct {
 	OffSet uint32 // 偏移位置
 }
 
+// slice 返回在文件内容中的字符串；长度和偏移来自文件，不可信，不能直接据此分配内存
+func (lo lenOff) slice(content []byte) ([]byte, error) {
+	end := uint64(lo.OffSet) + uint64(lo.Length)
+	if end > uint64(len(content)) {
+		return nil, io.ErrUnexpectedEOF
+	}
+	return content[lo.OffSet:end], nil
+}
+
 // ReadMo read mo from []byte content
 func ReadMo(content []byte) (*File, error) {
 	file := new(File)
@@ -152,24 +161,16 @@ func ReadMo(content []byte) (*File, error) {
 
 	// 5 开始读取
 	for i := uint32(0); i < n; i++ {
-		// 5.1 跳转到第 i 条 msg_id 偏移处
-		if _, err := r.Seek(int64(msgIDMeta[i].OffSet), io.SeekStart); err != nil {
-			return nil, errors.WithSecondaryError(errReadMo,
-				errors.Wrapf(err, "failed to seek to msg_id[%d]: %d", i, msgIDMeta[i].OffSet))
-		}
-		id := make([]byte, msgIDMeta[i].Length) // msg_id 的长度
-		if err := binary.Read(r, bo, &id); err != nil {
+		// 5.1 读取第 i 条 msg_id
+		id, err := msgIDMeta[i].slice(content)
+		if err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to read msg_id[%d]", i))
 		}
 
-		// 5.2 跳转读取 msg_str
-		if _, err := r.Seek(int64(msgStrMeta[i].OffSet), io.SeekStart); err != nil {
-			return nil, errors.WithSecondaryError(errReadMo,
-				errors.Wrapf(err, "failed to seek to msg_str[%d]: %d", i, msgStrMeta[i].OffSet))
-		}
-		str := make([]byte, msgStrMeta[i].Length) // msg_str 的长度
-		if err := binary.Read(r, bo, &str); err != nil {
+		// 5.2 读取 msg_str
+		str, err := msgStrMeta[i].slice(content)
+		if err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to read msg_str[%d]", i))
 		}
-- 
2.43.0


From 73fa012feccb88285e0eb8fc3d9c576f9a1920c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 10/31] fix: saved PO and POT text used escapes unknown to
 gettext and lost non-UTF-8 bytes

---
 translator/pot.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/translator/pot.go b/translator/pot.go
index 5066752..b32840a 100644
--- a/translator/pot.go
+++ b/translator/pot.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"strings"
+	"unicode/utf8"
 )
 
 const (
@@ -17,8 +19,33 @@ const (
 func writeString(buf *bytes.Buffer, key, content string) {
 	buf.WriteString(key + " ")
 	for _, line := range split(content, lineThreshold) {
-		fmt.Fprintf(buf, "%q\n", line)
+		buf.WriteString(quote(line))
+		buf.WriteString("\n")
+	}
+}
+
+// quote 输出 C 字符串；%q 会使用 gettext 不认识的转义（如 \u00a0）
+func quote(s string) string {
+	var buf strings.Builder
+	buf.WriteByte('"')
+	for len(s) > 0 {
+		r, size := utf8.DecodeRuneInString(s)
+		switch {
+		case r == '"' || r == '\\':
+			buf.WriteByte('\\')
+			buf.WriteByte(s[0])
+		case '\a' <= r && r <= '\r':
+			buf.WriteByte('\\')
+			buf.WriteByte("abtnvfr"[r-'\a'])
+		case r < ' ' || r == 0x7f || (r == utf8.RuneError && size == 1):
+			fmt.Fprintf(&buf, "\\%03o", s[0])
+		default:
+			buf.WriteString(s[:size])
+		}
+		s = s[size:]
 	}
+	buf.WriteByte('"')
+	return buf.String()
 }
 
 // SaveAsPot save this File as pot format
-- 
2.43.0


From 6ed745e4736d2503fff8776d9178c04a09331f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 11/31] fix: SaveAsPo left out msgstr for untranslated
 messages, which is not valid PO

---
 translator/po.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index 22999af..78254a3 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -62,7 +62,9 @@ func (f *File) SaveAsPo(w io.Writer) error {
 		if entry.IsPlural {
 			writeString(buf, msgidPlural, entry.MsgID2)
 		}
-		if entry.MsgStr != "" {
+		if entry.IsPlural && len(entry.MsgStrN) == 0 { // 没有译文时 msgstr 也不能省略
+			writeString(buf, fmt.Sprintf(msgstrN, 0), "")
+		} else if entry.MsgStr != "" || len(entry.MsgStrN) == 0 {
 			writeString(buf, msgstr, entry.MsgStr)
 		}
 		for i, str := range entry.MsgStrN {
-- 
2.43.0


From 7f7f6425aa2ef4edd53b2e94bbb49911642f3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 12/31] fix: Translations.MostMatchLocale ignored its receiver
 and answered for the global set

---
 translations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/translations.go b/translations.go
index 3ab42b2..967a3b1 100644
--- a/translations.go
+++ b/translations.go
@@ -134,8 +134,8 @@ func (ts *Translations) Locales() (locales []string) {
 
 // MostMatchLocale return the most match language 返回最匹配的语言
 func (ts *Translations) MostMatchLocale() string {
-	var supported = Locales()
-	_, index, _ := Match(supported, []string{Locale()})
+	var supported = ts.Locales()
+	_, index, _ := Match(supported, []string{ts.Locale()})
 	return supported[index]
 }
 
-- 
2.43.0


From 8214c4b86971e950cef17541aa72409cb6d00ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 13/31] fix: Plural-Forms without the final semicolon was
 ignored

---
 translator/plural.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/plural.go b/translator/plural.go
index b7364f5..d37d7e4 100644
--- a/translator/plural.go
+++ b/translator/plural.go
@@ -16,7 +16,7 @@ type plural struct {
 }
 
 var (
-	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d)\s*;\s*plural\s*=\s*(.*)\s*;$`)
+	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d)\s*;\s*plural\s*=\s*(.*?)\s*;?\s*$`)
 	invalidPluralFn = func(i int64) int { return -1 }
 )
 
-- 
2.43.0


From 270a154a3f4cc998b52c88a3cadc6aeadc367afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 14/31] fix: one unreadable directory stopped the loading of
 all later catalogues

---
 translaton.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translaton.go b/translaton.go
index c0a3b3e..faf748d 100644
--- a/translaton.go
+++ b/translaton.go
@@ -69,7 +69,7 @@ func (tr *Translation) LoadFS(f fs.FS) bool {
 	fn := func(ext string) func(path string, d fs.DirEntry, err error) error {
 		return func(path string, d fs.DirEntry, err error) error {
 			if err != nil {
-				return err
+				return nil // 无法访问的文件或目录跳过，不影响其他文件
 			}
 			if d != nil && !d.IsDir() {
 				if strings.HasSuffix(d.Name(), ext) { // 这里应该使用 d.Name;
-- 
2.43.0


From 29ae7c3363ea299ff1f0d2d9f6a42de94612c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 15/31] fix: Plural-Forms with ten or more forms was ignored

---
 translator/plural.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/plural.go b/translator/plural.go
index d37d7e4..6f22f83 100644
--- a/translator/plural.go
+++ b/translator/plural.go
@@ -16,7 +16,7 @@ type plural struct {
 }
 
 var (
-	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d)\s*;\s*plural\s*=\s*(.*?)\s*;?\s*$`)
+	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d+)\s*;\s*plural\s*=\s*(.*?)\s*;?\s*$`)
 	invalidPluralFn = func(i int64) int { return -1 }
 )
 
-- 
2.43.0


From 42397c922cbfa47fe1c0dac1d65792b3e4ce1d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 16/31] fix: a translator added to an unknown domain showed up
 in every unknown domain

---
 translations.go | 2 +-
 translaton.go   | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/translations.go b/translations.go
index 967a3b1..63b47df 100644
--- a/translations.go
+++ b/translations.go
@@ -184,7 +184,7 @@ func (ts *Translations) GetOrNoop(domain string) *Translation {
 	if tr, ok := ts.domains[domain]; ok {
 		return tr
 	}
-	return trNoop
+	return NewTranslation(domain) // 每次新建：调用方可能会向其中添加翻译
 }
 
 // D return a new Translations with domain
diff --git a/translaton.go b/translaton.go
index faf748d..09d0687 100644
--- a/translaton.go
+++ b/translaton.go
@@ -14,9 +14,6 @@ const (
 	extMo = ".mo"
 )
 
-// trNoop is a no-op Translation
-var trNoop = NewTranslation("")
-
 // Translation can provide different language translation of a domain
 // tr. [翻译域]包含各个语言的翻译
 type Translation struct {
-- 
2.43.0


From a3359a5b97a7637fd58b0801415ea69334dc54cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 17/31] fix: xtemplate let a keyword call with an empty msgid
 replace the POT header

---
 cmd/xtemplate/internal/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 6bc846b..6ef5cff 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -334,6 +334,10 @@ func extract(ctx *Context, line, name string, kw Keyword, m map[int]string) (*tr
 
 	}
 	entry.MsgID = txt
+	if entry.MsgID == "" && entry.MsgCtxt == "" {
+		ctx.debugPrint("  >  >  >  ID=%v empty msg id is reserved for the header", name)
+		return nil, false
+	}
 
 	if kw.MsgID2 > 0 {
 		txt, ok := m[kw.MsgID2]
-- 
2.43.0


From d0e6757b1d3b8a6411d9616892648a9d92bb0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 18/31] fix: xtemplate output depended on map iteration order
 when a file defines several templates

---
 cmd/xtemplate/internal/run.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 6ef5cff..35f48d4 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"text/template/parse"
 
 	"github.com/cockroachdb/errors"
@@ -109,8 +110,12 @@ func resolveOneFile(filename string, ctx *Context) error {
 	if err != nil {
 		return errors.Wrapf(err, t.T("failed to parse file %v"), filename)
 	}
-	// 一个文件可能有多个模板
-	for _, tmpl := range tmpl.Templates() {
+	// 一个文件可能有多个模板；Templates 返回的顺序不固定，排序后结果才可重现
+	templates := tmpl.Templates()
+	sort.Slice(templates, func(i, j int) bool {
+		return templates[i].Name() < templates[j].Name()
+	})
+	for _, tmpl := range templates {
 		resolveTmpl(filename, ctx, tmpl)
 	}
 	return nil
-- 
2.43.0


From 4b4c5a241e0cd86110211c443fd6ce310ed2dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 19/31] fix: xtemplate ignored keywords whose message arguments
 are not the first ones (e.g. T:2)

---
 cmd/xtemplate/internal/run.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 35f48d4..6ba40de 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -255,21 +255,19 @@ func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
 	argLength := len(args)
 	for _, kw := range ctx.Keywords {
 		if kw.Name == name {
-			argCount := 1 // MsgID 始终需要
-			if kw.MsgCtxt > 0 && kw.MsgCtxt != kw.MsgID {
-				argCount++
-			}
-			if kw.MsgID2 > 0 && kw.MsgID2 != kw.MsgID && kw.MsgID2 != kw.MsgCtxt {
-				argCount++
-			}
-			lastIndex := argCount + nameIndex
-			if lastIndex >= argLength {
-				ctx.debugPrint("  >  >  >  ID=%v too few args", name)
-				continue
-			}
 			argOK := true
 			m := make(map[int]string)
-			for i := nameIndex + 1; i <= lastIndex; i++ {
+			// 只有声明的位置需要是字符串字面量，其他位置可以是任意参数
+			for _, position := range []int{kw.MsgCtxt, kw.MsgID, kw.MsgID2} {
+				if position <= 0 {
+					continue
+				}
+				if position >= argLength-nameIndex {
+					ctx.debugPrint("  >  >  >  ID=%v too few args", name)
+					argOK = false
+					break
+				}
+				i := nameIndex + position
 				arg := args[i]
 				text, ok := stringLiteral(arg)
 				if !ok {
@@ -277,7 +275,7 @@ func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
 					argOK = false
 					break
 				}
-				m[i-nameIndex] = text
+				m[position] = text
 			}
 			if !argOK {
 				continue
-- 
2.43.0


From 9cfbc507970c37d494ffb0799b683531cacd8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 20/31] fix: xtemplate missed calls inside a parenthesised
 expression followed by a field

---
 cmd/xtemplate/internal/run.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 6ba40de..d7ce436 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -223,6 +223,9 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 				lastID := arg.Ident[len(arg.Ident)-1]
 				filter(ctx, fmt.Sprintf("%v:%d", filename, line), lastID, i, args)
 			case *parse.ChainNode:
+				if inner, ok := arg.Node.(*parse.PipeNode); ok {
+					resolvePipe(filename, line, ctx, inner) // (T "a").Foo
+				}
 				if len(arg.Field) == 0 {
 					continue
 				}
-- 
2.43.0


From fcf230878a2efbb669f44a6ac8b6f651ca16093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 21/31] fix: a failed xtemplate run no longer truncates the
 existing output file

---
 cmd/xtemplate/internal/param.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cmd/xtemplate/internal/param.go b/cmd/xtemplate/internal/param.go
index 1a2a7f3..8ea397b 100644
--- a/cmd/xtemplate/internal/param.go
+++ b/cmd/xtemplate/internal/param.go
@@ -41,7 +41,7 @@ type Context struct {
 	entries   map[string]*translator.Entry
 }
 
-// newCtx 根据命令行参数构造运行上下文，并完成 keyword/function/output 的初始化。
+// newCtx 根据命令行参数构造运行上下文，并完成 keyword/function 的初始化。
 func newCtx(param *Param) (*Context, error) {
 	ctx := &Context{
 		Param:     param,
@@ -56,12 +56,6 @@ func newCtx(param *Param) (*Context, error) {
 	for _, k := range kw {
 		ctx.Functions[k.Name] = noopFun
 	}
-	wr, err := Writer(param.OutputFile)
-	if err != nil {
-		return nil, err
-	}
-	ctx.Output = wr
-
 	if ctx.Function != "" {
 		fun := strings.Split(ctx.Function, ",")
 		for _, name := range fun {
@@ -98,6 +92,14 @@ func (ctx *Context) Add(entry *translator.Entry) error {
 // Write 将当前收集到的条目写入 POT。
 func (ctx *Context) Write() error {
 	pot := ctx.pot()
+	if ctx.Output == nil {
+		// 全部处理成功后才打开（会清空）输出文件，失败时保留原有内容
+		wr, err := Writer(ctx.OutputFile)
+		if err != nil {
+			return err
+		}
+		ctx.Output = wr
+	}
 	return pot.SaveAsPot(ctx.Output)
 }
 
-- 
2.43.0


From ee0f0ceccc5bf6a85ed5b6286308a8b322f406fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 22/31] fix: a common plural expression with a blank inside a
 token was accepted

---
 plurals/exp.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plurals/exp.go b/plurals/exp.go
index 378d68f..41570a9 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -3,6 +3,7 @@ package plurals
 import (
 	"context"
 	"fmt"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -11,6 +12,9 @@ import (
 	"github.com/youthlin/t/plurals/parser"
 )
 
+// blankInToken 匹配被空格拆开的数字或运算符，这样的表达式不合法，去掉空格也不应视为常见表达式
+var blankInToken = regexp.MustCompile(`\d +\d|[!=<>] +=|& +&|\| +\|`)
+
 // Eval 传入复数表达式，返回 n 应该使用哪种复数形式
 func Eval(ctx context.Context, exp string, n int64) (result int64, err error) {
 	defer func() {
@@ -22,7 +26,7 @@ func Eval(ctx context.Context, exp string, n int64) (result int64, err error) {
 	// 1 常见表达式直接走函数
 	commonExp := strings.ReplaceAll(exp, " ", "")
 	fun, ok := commons[commonExp]
-	if ok {
+	if ok && !blankInToken.MatchString(exp) {
 		return fun(n), nil
 	}
 
-- 
2.43.0


From b9d6d3a5a773b0e3da0b498f0530c943ec89f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 23/31] fix: the order of saved entries was random when their
 references and keys concatenate to the same text

---
 translator/file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 1a68918..e97db47 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -75,7 +75,11 @@ func (file *File) SortedEntry() (entries []*Entry) {
 	sort.Slice(entries, func(i, j int) bool {
 		left := entries[i]
 		right := entries[j]
-		return left.getSortKey() < right.getSortKey()
+		leftKey, rightKey := left.getSortKey(), right.getSortKey()
+		if leftKey != rightKey {
+			return leftKey < rightKey
+		}
+		return left.Key() < right.Key() // 不同的条目，位置和 key 拼接起来可能相同
 	})
 	return
 }
-- 
2.43.0


From 201b2c85830d2222f9de59c381bc44bb31dec713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 24/31] fix: locale names with an encoding such as zh_TW.Big5
 or de.UTF-8 were normalised to another locale

---
 locale/detect.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/locale/detect.go b/locale/detect.go
index 014a218..cc55532 100644
--- a/locale/detect.go
+++ b/locale/detect.go
@@ -2,6 +2,7 @@ package locale
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/Xuanwo/go-locale"
 	"golang.org/x/text/language"
@@ -19,6 +20,11 @@ func GetDefault() string {
 
 // Normalize return ll_CC code
 func Normalize(lang string) string {
+	// POSIX 区域名 language[_territory][.codeset][@modifier] 的编码和修饰不是语言标签的一部分，
+	// 留着会使解析出错（如 zh_TW.Big5 de@euro）
+	if index := strings.IndexAny(lang, ".@"); index >= 0 {
+		lang = lang[:index]
+	}
 	return NormalizeTag(language.Make(lang))
 }
 
-- 
2.43.0


From 1bef3f4ca7614ac21e830b02821b9c5eefe01094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 25/31] fix: xtemplate: references in actions that span several
 lines name the line of the use

---
 cmd/xtemplate/internal/param.go |  1 +
 cmd/xtemplate/internal/run.go   | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/cmd/xtemplate/internal/param.go b/cmd/xtemplate/internal/param.go
index 8ea397b..e771345 100644
--- a/cmd/xtemplate/internal/param.go
+++ b/cmd/xtemplate/internal/param.go
@@ -39,6 +39,7 @@ type Context struct {
 	Output    *os.File
 	hasPlural bool
 	entries   map[string]*translator.Entry
+	src       string // 正在处理的文件内容
 }
 
 // newCtx 根据命令行参数构造运行上下文，并完成 keyword/function 的初始化。
diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index d7ce436..b20341e 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"sort"
+	"strings"
 	"text/template/parse"
 
 	"github.com/cockroachdb/errors"
@@ -93,6 +94,7 @@ func resolveOneFile(filename string, ctx *Context) error {
 	if err != nil {
 		return errors.Wrapf(err, t.T("failed to read file %v"), filename)
 	}
+	ctx.src = string(src)
 	funcs := make(template.FuncMap, len(ctx.Functions)+8)
 	for k, v := range ctx.Functions {
 		funcs[k] = v
@@ -209,19 +211,19 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 			case *parse.PipeNode:
 				resolvePipe(filename, line, ctx, arg) // 递归
 			case *parse.IdentifierNode:
-				filter(ctx, fmt.Sprintf("%v:%d", filename, line), arg.Ident, i, args)
+				filter(ctx, fmt.Sprintf("%v:%d", filename, lineOf(ctx, arg, line)), arg.Ident, i, args)
 			case *parse.FieldNode:
 				if len(arg.Ident) == 0 {
 					continue
 				}
 				lastID := arg.Ident[len(arg.Ident)-1]
-				filter(ctx, fmt.Sprintf("%v:%d", filename, line), lastID, i, args)
+				filter(ctx, fmt.Sprintf("%v:%d", filename, lineOf(ctx, arg, line)), lastID, i, args)
 			case *parse.VariableNode:
 				if len(arg.Ident) == 0 {
 					continue
 				}
 				lastID := arg.Ident[len(arg.Ident)-1]
-				filter(ctx, fmt.Sprintf("%v:%d", filename, line), lastID, i, args)
+				filter(ctx, fmt.Sprintf("%v:%d", filename, lineOf(ctx, arg, line)), lastID, i, args)
 			case *parse.ChainNode:
 				if inner, ok := arg.Node.(*parse.PipeNode); ok {
 					resolvePipe(filename, line, ctx, inner) // (T "a").Foo
@@ -230,12 +232,21 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 					continue
 				}
 				lastID := arg.Field[len(arg.Field)-1]
-				filter(ctx, fmt.Sprintf("%v:%d", filename, line), lastID, i, args)
+				filter(ctx, fmt.Sprintf("%v:%d", filename, lineOf(ctx, arg, line)), lastID, i, args)
 			}
 		}
 	}
 }
 
+// lineOf 返回节点所在的行号（action 可能跨越多行）；位置未知时返回 line
+func lineOf(ctx *Context, node parse.Node, line int) int {
+	pos := int(node.Position())
+	if pos <= 0 || pos > len(ctx.src) {
+		return line
+	}
+	return 1 + strings.Count(ctx.src[:pos], "\n")
+}
+
 // pipedStringArg 处理 "foo" | T 这类管道写法。
 // 在模板 AST 中，前一个 command 的输出并不会直接出现在后一个 command 的 Args 里，
 // 因此这里把上一段单字符串字面量补回当前命令参数中，统一复用后面的提取逻辑。
-- 
2.43.0


From d3858f5254a56b938343e95d2e5cb57af9fb792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 26/31] fix: xtemplate: a line break in a file name made the
 output an invalid pot

---
 cmd/xtemplate/internal/run.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index b20341e..a7de9e3 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -332,10 +332,13 @@ func stringLiteral(node parse.Node) (string, bool) {
 	}
 }
 
+// oneLine 使文件名中的换行不会截断引用注释，否则输出不是合法的 pot
+var oneLine = strings.NewReplacer("\n", " ", "\r", " ")
+
 // extract 根据 keyword 定义的参数位置，把当前命令转换成 translator.Entry。
 func extract(ctx *Context, line, name string, kw Keyword, m map[int]string) (*translator.Entry, bool) {
 	entry := new(translator.Entry)
-	entry.MsgCmts = append(entry.MsgCmts, fmt.Sprintf("#: %v", line))
+	entry.MsgCmts = append(entry.MsgCmts, "#: "+oneLine.Replace(line))
 	if kw.MsgCtxt > 0 {
 		txt, ok := m[kw.MsgCtxt]
 		if !ok {
-- 
2.43.0


From d059663fd8c8bbdcf919e7cda15696e8c881b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 27/31] fix: an EOT in a plural msgid of an MO file was taken
 for the end of a context

---
 translator/mo.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/translator/mo.go b/translator/mo.go
index fff7394..096b5da 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -180,17 +180,17 @@ func ReadMo(content []byte) (*File, error) {
 			MsgID:  string(id),
 			MsgStr: string(str),
 		}
-		// 0x04 分割 msgCtxt 和 msgId
-		if index := strings.Index(entry.MsgID, eot); index >= 0 {
-			entry.MsgCtxt, entry.MsgID = entry.MsgID[:index], entry.MsgID[index+1:]
-		}
-		// 0x00 分割 msgId 和 msgIdPlural
+		// 0x00 分割 msgId 和 msgIdPlural（先于 0x04，msgIdPlural 中的 0x04 不是分隔符）
 		if index := strings.Index(entry.MsgID, nul); index >= 0 {
 			entry.MsgID, entry.MsgID2 = entry.MsgID[:index], entry.MsgID[index+1:]
 			entry.IsPlural = true
 			entry.MsgStrN = strings.Split(entry.MsgStr, nul)
 			entry.MsgStr = ""
 		}
+		// 0x04 分割 msgCtxt 和 msgId
+		if index := strings.Index(entry.MsgID, eot); index >= 0 {
+			entry.MsgCtxt, entry.MsgID = entry.MsgID[:index], entry.MsgID[index+1:]
+		}
 		file.AddEntry(entry)
 	}
 	return file, nil
-- 
2.43.0


From 0c2906c566cfe53a5ed36f941c6b1fe338b89fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:31 +0000
Subject: [PATCH 28/31] fix: xtemplate: accept undeclared functions whose names
 have letters other than ASCII

---
 cmd/xtemplate/internal/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index a7de9e3..4469491 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -25,7 +25,7 @@ var templateBuiltins = map[string]bool{
 
 // identPattern 匹配模板中所有合法 Go 标识符（字母或下划线开头）。
 // 扫描所有标识符并注册为 noop 函数，比精确匹配函数调用位置更简单可靠。
-var identPattern = regexp.MustCompile(`[a-zA-Z_]\w*`)
+var identPattern = regexp.MustCompile(`[\p{L}_][\p{L}\p{Nd}_]*`)
 
 // scanFuncNames 从模板源码中扫描所有标识符，排除内置关键字，作为候选函数名。
 func scanFuncNames(src string) map[string]bool {
-- 
2.43.0


From 1ff30ab50e802e31f3c87d55ab302d556484e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:24 +0000
Subject: [PATCH 29/31] fix: negotiate over every Accept-Language line of a
 request, not only the first

---
 http.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/http.go b/http.go
index e6a999b..36ad4f8 100644
--- a/http.go
+++ b/http.go
@@ -2,6 +2,7 @@ package t
 
 import (
 	"net/http"
+	"strings"
 
 	"golang.org/x/text/language"
 )
@@ -32,8 +33,13 @@ func GetUserLang(request *http.Request, opts ...getUserLangOpt) string {
 		supported = append(supported, language.Make(lang))
 	}
 	matcher := language.NewMatcher(supported)                     // 匹配器
-	acceptLangs := request.Header.Get(HTTPHeaderAcceptLanguage)   // 用户支持的语言
+	acceptLangs := getAcceptLanguage(request)                     // 用户支持的语言
 	userAccept, _, _ := language.ParseAcceptLanguage(acceptLangs) // 转为 Tag
 	_, index, _ := matcher.Match(userAccept...)                   // 找到最匹配的语言
 	return langs[index]
 }
+
+// getAcceptLanguage 同名的多行头等价于用逗号连接的一行
+func getAcceptLanguage(request *http.Request) string {
+	return strings.Join(request.Header.Values(HTTPHeaderAcceptLanguage), ",")
+}
-- 
2.43.0


From 68c54f5228c81311e9ab7ce7dec4a947f39c5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:27 +0000
Subject: [PATCH 30/31] fix: quote keywords and output names with a percent
 sign intact in error messages

---
 cmd/xtemplate/internal/keyword.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/cmd/xtemplate/internal/keyword.go b/cmd/xtemplate/internal/keyword.go
index b68aff2..40eee43 100644
--- a/cmd/xtemplate/internal/keyword.go
+++ b/cmd/xtemplate/internal/keyword.go
@@ -33,19 +33,19 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 		if len(nameIndex) == 1 {
 			name := strings.TrimSpace(nameIndex[0])
 			if name == "" {
-				return nil, errors.Errorf(msg)
+				return nil, errors.New(msg)
 			}
 			result = append(result, Keyword{Name: name, MsgID: 1})
 			continue
 		}
 		if len(nameIndex) != 2 {
-			return nil, errors.Errorf(msg)
+			return nil, errors.New(msg)
 		}
 		k := Keyword{
 			Name: strings.TrimSpace(nameIndex[0]),
 		}
 		if k.Name == "" {
-			return nil, errors.Errorf(msg)
+			return nil, errors.New(msg)
 		}
 		index := strings.Split(nameIndex[1], ",")
 		for i := range index {
@@ -55,7 +55,7 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 		case 1:
 			i, err := strconv.ParseInt(index[0], 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number"))
+				return nil, errors.Wrap(err, msg+t.T("msg id index is not a number"))
 			}
 			k.MsgID = int(i)
 		case 2:
@@ -66,25 +66,25 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 				c := i1[:len(i1)-1]
 				cIndex, err := strconv.ParseInt(c, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("context index is not a number: %v", c))
+					return nil, errors.Wrap(err, msg+t.T("context index is not a number: %v", c))
 				}
 				k.MsgCtxt = int(cIndex)
 
 				index, err := strconv.ParseInt(i2, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i2))
+					return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i2))
 				}
 				k.MsgID = int(index)
 			} else {
 				index, err := strconv.ParseInt(i1, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i1))
+					return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i1))
 				}
 				k.MsgID = int(index)
 
 				index, err = strconv.ParseInt(i2, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("msg plural index is not a number: %v", i2))
+					return nil, errors.Wrap(err, msg+t.T("msg plural index is not a number: %v", i2))
 				}
 				k.MsgID2 = int(index)
 			}
@@ -93,28 +93,28 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 			i2 := index[1]
 			i3 := index[2]
 			if !strings.HasSuffix(i1, "c") {
-				return nil, errors.Errorf(msg + t.T("context index must end with 'c': %v", i1))
+				return nil, errors.New(msg + t.T("context index must end with 'c': %v", i1))
 			}
 			c := i1[:len(i1)-1]
 			index, err := strconv.ParseInt(c, 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg context index is not a number: %v", c))
+				return nil, errors.Wrap(err, msg+t.T("msg context index is not a number: %v", c))
 			}
 			k.MsgCtxt = int(index)
 
 			index, err = strconv.ParseInt(i2, 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i2))
+				return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i2))
 			}
 			k.MsgID = int(index)
 
 			index, err = strconv.ParseInt(i3, 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i3))
+				return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i3))
 			}
 			k.MsgID2 = int(index)
 		default:
-			return nil, errors.Errorf(msg + t.T("too much keyword index"))
+			return nil, errors.New(msg + t.T("too much keyword index"))
 		}
 		result = append(result, k)
 	}
@@ -128,7 +128,7 @@ func Writer(fileName string) (wr *os.File, err error) {
 	if fileName != "" && fileName != "-" {
 		wr, err = os.OpenFile(fileName, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 		if err != nil {
-			err = errors.Wrapf(err, t.T("can not open output file: %s", fileName))
+			err = errors.Wrapf(err, t.T("can not open output file: %s"), fileName)
 		}
 	}
 	return
-- 
2.43.0


From 9280f0bb887a63005afdec8dd41851ea60e91432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:39 +0000
Subject: [PATCH 31/31] fix: number the lines of a PO file from 1 in error
 messages

---
 translator/po.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/translator/po.go b/translator/po.go
index 78254a3..2db5dc5 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -135,7 +135,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefixCtxt)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote msgctxt failed|line %d: %s", r.lineNo, line))
+					errors.Wrapf(err, "unquote msgctxt failed|line %d: %s", r.lineNo+1, line))
 			}
 			entry.MsgCtxt += data
 			continue
@@ -150,7 +150,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefixID2)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote msgid_plural failed|line %d: %s", r.lineNo, line))
+					errors.Wrapf(err, "unquote msgid_plural failed|line %d: %s", r.lineNo+1, line))
 			}
 			entry.MsgID2 += data
 			entry.IsPlural = true
@@ -166,7 +166,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefixID)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote msgid failed|line %d: %s", r.lineNo, line))
+					errors.Wrapf(err, "unquote msgid failed|line %d: %s", r.lineNo+1, line))
 			}
 			entry.MsgID += data
 			continue
@@ -181,7 +181,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefix)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote %s failed|line %d: %s", prefix, r.lineNo, line))
+					errors.Wrapf(err, "unquote %s failed|line %d: %s", prefix, r.lineNo+1, line))
 			}
 			entry.MsgStrN = append(entry.MsgStrN, data)
 			continue
@@ -196,7 +196,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefixStr)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote msgstr failed|line %d: %s", r.lineNo, line))
+					errors.Wrapf(err, "unquote msgstr failed|line %d: %s", r.lineNo+1, line))
 			}
 			entry.MsgStr += data
 			continue
@@ -208,7 +208,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, "")
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote %s failed|line %d: %s", previousLineState, r.lineNo, line))
+					errors.Wrapf(err, "unquote %s failed|line %d: %s", previousLineState, r.lineNo+1, line))
 			}
 			switch previousLineState {
 			case stateCtxt:
@@ -223,11 +223,11 @@ func readEntry(r *reader) (*Entry, error) {
 				entry.MsgStr += data
 			default:
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Errorf("string without keyword|line %d: %s", r.lineNo, line))
+					errors.Errorf("string without keyword|line %d: %s", r.lineNo+1, line))
 			}
 		} else {
 			return nil, errors.WithSecondaryError(errInvalidEntry,
-				errors.Errorf("unexpected line %d: %s", r.lineNo, line))
+				errors.Errorf("unexpected line %d: %s", r.lineNo+1, line))
 		}
 	}
 }
-- 
2.43.0

