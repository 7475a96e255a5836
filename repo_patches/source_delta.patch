From 5eba771587329a1a1f7208caf21f6cf3a8bf12aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 01/43] fix: report read errors while parsing po files

---
 catalog/po/parser.go  | 9 ++++++++-
 catalog/po/scanner.go | 7 ++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 5f18bab..0ce7be9 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -62,11 +62,18 @@ func (p *Parser) Parse(r io.Reader) (*File, error) {
 
 	// special case, empty file
 	if tok, _ := p.scan(); tok == eof {
+		if errRead := p.s.readErr(); errRead != nil {
+			return nil, fmt.Errorf("po file could not be read: %w", errRead)
+		}
 		return nil, errors.New("po file cannot be empty")
 	}
 	p.unscan()
 
-	return p.parseFile()
+	file, err := p.parseFile()
+	if errRead := p.s.readErr(); errRead != nil {
+		return nil, fmt.Errorf("po file could not be read: %w", errRead)
+	}
+	return file, err
 }
 
 func (p *Parser) parseFile() (*File, error) {
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 6261675..a932ce2 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -206,15 +206,16 @@ func (s *scanner) read() (string, error) {
 	}
 
 	if !s.lineScanner.Scan() {
+		// The reason is provided by readErr
 		return "", io.EOF
 	}
-	if s.lineScanner.Err() != nil {
-		return "", s.lineScanner.Err()
-	}
 
 	s.pos++
 	return s.lineScanner.Text(), nil
 }
 
+// readErr returns the first error of the underlying reader that is not io.EOF.
+func (s *scanner) readErr() error { return s.lineScanner.Err() }
+
 func (s *scanner) currentLine() string { return s.lineScanner.Text() }
 func (s *scanner) unread()             { s.n = 1 }
-- 
2.43.0


From 8debfc82fa5aad647f36f6f4ae318962b5a8d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 02/43] fix: read po files with lines longer than 64 KiB
 completely

---
 catalog/po/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index a932ce2..4251d2b 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -3,6 +3,7 @@ package po
 import (
 	"bufio"
 	"io"
+	"math"
 	"regexp"
 	"strings"
 )
@@ -39,8 +40,11 @@ type scanner struct {
 
 func newScanner(r io.Reader) *scanner {
 	// content = bytes.ReplaceAll(content, []byte("\r"), []byte(""))
+	lineScanner := bufio.NewScanner(r)
+	// The length of a line is only limited by the size of the file
+	lineScanner.Buffer(nil, math.MaxInt)
 	return &scanner{
-		lineScanner: bufio.NewScanner(r),
+		lineScanner: lineScanner,
 	}
 }
 
-- 
2.43.0


From 3fdffe81da7140673911f94a2c10a6c20f8cb2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 03/43] fix: do not accept short reads of mo strings

---
 internal/mo/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index ce632ed..b685bea 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -251,6 +251,6 @@ func (p *parser) binaryRead(data any) error {
 }
 
 func (p *parser) read(d []byte) error {
-	_, err := p.r.Read(d)
+	_, err := io.ReadFull(p.r, d)
 	return err
 }
-- 
2.43.0


From dabb38cfb1d76af4fb329f4faf1139e37869f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 04/43] fix: check the bounds of mo tables and strings before
 allocating memory

---
 internal/mo/parser.go | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index b685bea..b7931c8 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -20,9 +20,12 @@ const (
 
 var ErrInvalidMagicNumber = errors.New("mo file has invalid magic number")
 
+var errOutOfBounds = errors.New("mo file refers to data outside of the file")
+
 type parser struct {
-	bo binary.ByteOrder
-	r  io.ReadSeeker
+	bo   binary.ByteOrder
+	r    io.ReadSeeker
+	size int64
 
 	magicNumber  uint32
 	majorVersion uint16
@@ -58,6 +61,10 @@ func newParser(r io.ReadSeeker) *parser {
 }
 
 func (p *parser) parse() (*po.File, error) {
+	if err := p.determineSize(); err != nil {
+		return nil, err
+	}
+
 	if err := p.parseByteOrder(); err != nil {
 		return nil, err
 	}
@@ -78,6 +85,23 @@ func (p *parser) parse() (*po.File, error) {
 	return file, nil
 }
 
+func (p *parser) determineSize() (err error) {
+	if p.size, err = p.r.Seek(0, io.SeekEnd); err != nil {
+		return err
+	}
+	_, err = p.r.Seek(0, io.SeekStart)
+	return err
+}
+
+// checkBounds reports whether a range lies within the file.
+// It must be called before memory is allocated for the range.
+func (p *parser) checkBounds(offset uint32, length int64) error {
+	if int64(offset)+length > p.size {
+		return errOutOfBounds
+	}
+	return nil
+}
+
 func (p *parser) parseByteOrder() error {
 	var magicNumber uint32
 	if err := p.binaryRead(&magicNumber); err != nil {
@@ -128,6 +152,14 @@ func (p *parser) parseHeader() error {
 }
 
 func (p *parser) parseMessageData() error {
+	tableSize := int64(p.msgIDCount) * 8
+	if err := p.checkBounds(p.msgIDOffset, tableSize); err != nil {
+		return err
+	}
+	if err := p.checkBounds(p.msgStrOffset, tableSize); err != nil {
+		return err
+	}
+
 	p.messageData = make([]*msgData, p.msgIDCount)
 
 	if _, err := p.r.Seek(int64(p.msgIDOffset), io.SeekStart); err != nil {
@@ -206,6 +238,13 @@ func (p *parser) parseMessages() (*po.File, error) {
 }
 
 func (p *parser) parseMessage(data *msgData) (id string, localized string, err error) {
+	if err = p.checkBounds(data.idOffset, int64(data.idLength)); err != nil {
+		return
+	}
+	if err = p.checkBounds(data.translationOffset, int64(data.translationLength)); err != nil {
+		return
+	}
+
 	if _, err = p.r.Seek(int64(data.idOffset), 0); err != nil {
 		return
 	}
-- 
2.43.0


From 9fb03c401c138b37e0a39e16c790882f071879c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 05/43] fix: endless loop when a po string ends with a single
 backslash

---
 catalog/po/po_string.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index fde2ddf..b1c12b4 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -361,6 +361,8 @@ func unescapePoBytes(s []byte) []byte {
 		switch c := s[r]; {
 		case c == '\\':
 			if r+1 >= len(s) {
+				// An incomplete escape sequence is dropped
+				r++
 				break
 			}
 			r++
-- 
2.43.0


From 1b6a43d75778fc9b101487670dcc34357f7de062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 06/43] fix: do not treat failing file lookups as missing files

---
 loader.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/loader.go b/loader.go
index 62d1562..f486942 100644
--- a/loader.go
+++ b/loader.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"syscall"
 
 	"golang.org/x/text/language"
 
@@ -261,8 +262,11 @@ func WithCategory(category string) ResolverOption {
 func (r *defaultResolver) Resolve(fsys fs.FS, extension string, tag language.Tag, domain string) (string, error) {
 	for _, lang := range ExpandLanguage(tag) {
 		searchPath, err := r.searchFileForLanguageName(fsys, lang, domain, extension)
-		if errors.Is(err, os.ErrNotExist) {
-			continue
+		if err != nil {
+			if errors.Is(err, os.ErrNotExist) {
+				continue
+			}
+			return "", err
 		}
 
 		return searchPath, nil
@@ -272,12 +276,22 @@ func (r *defaultResolver) Resolve(fsys fs.FS, extension string, tag language.Tag
 }
 
 func (r *defaultResolver) searchFileForLanguageName(fsys fs.FS, locale, domain, ext string) (string, error) {
-	// Helper function to try a path and return it if it exists
+	// Helper function to try a path and return it if it exists.
+	// A path for which it cannot be determined whether it exists ends the search with the error.
+	var statErr error
 	tryPath := func(pathElements ...string) (string, bool) {
+		if statErr != nil {
+			return "", false
+		}
 		searchPath := path.Join(pathElements...)
-		if _, err := fs.Stat(fsys, searchPath); err == nil {
+		_, err := fs.Stat(fsys, searchPath)
+		if err == nil {
 			return searchPath, true
 		}
+		// Paths that are not possible in the file system do not exist
+		if !errors.Is(err, fs.ErrNotExist) && !errors.Is(err, fs.ErrInvalid) && !errors.Is(err, syscall.ENOTDIR) {
+			statErr = err
+		}
 		return "", false
 	}
 
@@ -288,6 +302,10 @@ func (r *defaultResolver) searchFileForLanguageName(fsys fs.FS, locale, domain,
 		}
 	}
 
+	if statErr != nil {
+		return "", statErr
+	}
+
 	if !r.search {
 		return "", os.ErrNotExist
 	}
@@ -327,5 +345,9 @@ func (r *defaultResolver) searchFileForLanguageName(fsys fs.FS, locale, domain,
 		}
 	}
 
+	if statErr != nil {
+		return "", statErr
+	}
+
 	return "", os.ErrNotExist
 }
-- 
2.43.0


From ed765e9a03b3eb3a64a608ce7b0274cd8eccf827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 07/43] fix: panic in GettextCatalog.Messages

---
 catalog/po.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/po.go b/catalog/po.go
index dbe8df8..4b9ad8f 100644
--- a/catalog/po.go
+++ b/catalog/po.go
@@ -67,7 +67,7 @@ func (c *GettextCatalog) Messages() PoLookupMap {
 		cpy[ctx] = make(map[string]*GettextMessage, len(c.lookupMap[ctx]))
 
 		for msgID := range c.lookupMap[ctx] {
-			msg := cpy[ctx][msgID]
+			msg := c.lookupMap[ctx][msgID]
 			cpy[ctx][msgID] = msg.Clone()
 		}
 	}
-- 
2.43.0


From df4dcf6b1f28798bf163b456d6a30b9881581012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 08/43] fix: panic when encoding control characters and decode
 their escape sequences

---
 catalog/po/po_string.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index b1c12b4..6642145 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -3,6 +3,7 @@ package po
 import (
 	"bytes"
 	"fmt"
+	"strconv"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -295,7 +296,7 @@ func escapePoString(s string) string {
 			default:
 				buf.WriteByte('x')
 				buf.WriteByte(hex[b>>4])
-				buf.WriteByte(hex[hex[b&0xF]])
+				buf.WriteByte(hex[b&0xF])
 			}
 			i++
 			start = i
@@ -399,6 +400,18 @@ func unescapePoBytes(s []byte) []byte {
 				b[w] = '\v'
 				r++
 				w++
+			case 'x':
+				// Two hexadecimal digits of an ASCII character, as written by escapePoString
+				if r+2 < len(s) {
+					if v, err := strconv.ParseUint(string(s[r+1:r+3]), 16, 7); err == nil {
+						b[w] = byte(v)
+						r += 3
+						w++
+						break
+					}
+				}
+				b[w] = '\\'
+				w++
 			default:
 				b[w] = '\\'
 				w++
-- 
2.43.0


From 09094281d6734159c8525ef1d951157faeaaee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 09/43] fix: encode the messages of a po file in a
 deterministic order

---
 catalog/po/encoder.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 97406cb..efca9eb 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -95,13 +95,14 @@ func (enc *Encoder) encode(f *File) []byte {
 
 	if f.Messages != nil {
 		messages := make([]*Message, 0, len(f.Messages))
-		for ctx := range f.Messages {
-			for _, msg := range f.Messages[ctx] {
-				messages = append(messages, msg)
+		// The order of messages which the sort function does not distinguish must not depend on the map iteration
+		for _, ctx := range slices.Sorted(maps.Keys(f.Messages)) {
+			for _, id := range slices.Sorted(maps.Keys(f.Messages[ctx])) {
+				messages = append(messages, f.Messages[ctx][id])
 			}
 		}
 		if enc.sortFunction != nil {
-			slices.SortFunc(messages, enc.sortFunction)
+			slices.SortStableFunc(messages, enc.sortFunction)
 		}
 		for i, msg := range messages {
 			if i > 0 {
-- 
2.43.0


From 1af7f3509fa16b523f63b861ee7abdf7cdec6c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 10/43] fix: encode unknown header fields of a po file in a
 deterministic order

---
 catalog/po/encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index efca9eb..b5cd82f 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -138,8 +138,8 @@ func (enc *Encoder) encodeHeader(buff *bytes.Buffer, h *Header) {
 		{HeaderXGenerator, h.XGenerator},
 	}
 
-	for k, v := range h.UnknownFields {
-		headers = append(headers, headerEntry{k, v})
+	for _, k := range slices.Sorted(maps.Keys(h.UnknownFields)) {
+		headers = append(headers, headerEntry{k, h.UnknownFields[k]})
 	}
 
 	if !enc.writeEmptyHeader {
-- 
2.43.0


From e30452f4fb8921dd3ce01a916d7c5ee996cf6a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:14 +0000
Subject: [PATCH 11/43] fix: escape the header fields of a po file

---
 catalog/po/encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index b5cd82f..e944e5a 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -165,9 +165,9 @@ msgstr ""
 			continue
 		}
 		buff.WriteRune('"')
-		buff.WriteString(header.key)
+		buff.WriteString(escapePoString(header.key))
 		buff.WriteString(": ")
-		buff.WriteString(header.value)
+		buff.WriteString(escapePoString(header.value))
 		buff.WriteString("\\n\"\n")
 	}
 }
-- 
2.43.0


From c9a77adf07cb405814f8d6997a5e07e2f6b7603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 12/43] fix: deterministic lookup of header fields that differ
 only in case

---
 catalog/po/file.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/catalog/po/file.go b/catalog/po/file.go
index 1409424..382d031 100644
--- a/catalog/po/file.go
+++ b/catalog/po/file.go
@@ -2,6 +2,8 @@ package po
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 	"time"
 )
@@ -189,9 +191,13 @@ func (h *Header) Get(key string) string {
 		return ""
 	}
 
-	for unknownHeader, val := range h.UnknownFields {
+	if val, ok := h.UnknownFields[key]; ok {
+		return val
+	}
+
+	for _, unknownHeader := range slices.Sorted(maps.Keys(h.UnknownFields)) {
 		if strings.EqualFold(unknownHeader, key) {
-			return val
+			return h.UnknownFields[unknownHeader]
 		}
 	}
 
-- 
2.43.0


From ed7165ab98ec36d9fb09d9bd78d24de7456f8d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 13/43] fix: NaturalDay around daylight-saving changes

---
 humanize/date.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 7c82961..e7282e7 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -53,9 +53,11 @@ func (h *Humanizer) NaturalDay(i any) string {
 		return formatErrorMessage(i)
 	}
 
-	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, t.Location())
-	now := time.Now().In(value.Location())
-	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, now.Location())
+	now := time.Now().In(t.Location())
+
+	// The calendar dates are compared in UTC, where every day has 24 hours
+	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
+	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, time.UTC)
 
 	delta := value.Sub(today).Hours() / 24
 	switch delta {
-- 
2.43.0


From 33ec00c1791533a2dc6e7c4e946c0d148536c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 14/43] fix: do not report a missing plural translation twice

---
 localizer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/localizer.go b/localizer.go
index 319489e..42ab730 100644
--- a/localizer.go
+++ b/localizer.go
@@ -324,9 +324,11 @@ func (l *Localizer) lookupPluralTranslation(domain string, ctx localize.Context,
 	}
 
 	errA := err
-	t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
-	if err == nil {
-		return t, errA
+	if l.locale.language != l.bundle.fallbackLocale.language {
+		t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
+		if err == nil {
+			return t, errA
+		}
 	}
 
 	t, _ = l.bundle.sourceLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
-- 
2.43.0


From 0db3a7e08215c117fec6a05386aa75ba58fa95e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 15/43] fix: evaluate parsed CLDR plural rules independent of
 the map order

---
 catalog/cldrplural/evaluation.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index 22f6271..cf98d05 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -2,6 +2,7 @@ package cldrplural
 
 import (
 	"math"
+	"slices"
 
 	"github.com/vorlif/spreak/catalog/cldrplural/ast"
 	"github.com/vorlif/spreak/internal/util"
@@ -33,11 +34,13 @@ func ParseRules(rawRules map[Category]string) (*RuleSet, error) {
 	if _, hasOther := rawRules[Other]; !hasOther {
 		categories = append(categories, Other)
 	}
+	slices.Sort(categories)
 
 	formF := func(rules map[Category]*ast.Rule) FormFunc {
 		return func(ops *Operands) Category {
-			for cat, rule := range rules {
-				if evaluate(rule, ops) {
+			// Other has no conditions and applies if no other category applies
+			for _, cat := range categories {
+				if rule, hasRule := rules[cat]; hasRule && cat != Other && evaluate(rule, ops) {
 					return cat
 				}
 			}
-- 
2.43.0


From eba602b04d6853409fd43f4e8f66f254b69a547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 16/43] fix: set the domain of decoded gettext catalogs

---
 catalog/po_decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalog/po_decoder.go b/catalog/po_decoder.go
index 6edc53b..ed2ed80 100644
--- a/catalog/po_decoder.go
+++ b/catalog/po_decoder.go
@@ -127,6 +127,7 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 
 	cat := &GettextCatalog{
 		language:  lang,
+		domain:    domain,
 		lookupMap: lookupMap,
 	}
 
-- 
2.43.0


From 4b7508ff3ebfe4530034aab202bacb821663d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 17/43] fix: JSON decoder returned a nil catalog without an
 error for null

---
 catalog/json_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/json_decoder.go b/catalog/json_decoder.go
index 8eb7f42..ff30804 100644
--- a/catalog/json_decoder.go
+++ b/catalog/json_decoder.go
@@ -16,7 +16,7 @@ func NewJSONDecoder() *JSONDecoder { return &JSONDecoder{} }
 
 func (JSONDecoder) Decode(lang language.Tag, domain string, data []byte) (Catalog, error) {
 	cat := NewJSONCatalog(lang, domain)
-	if err := json.Unmarshal(data, &cat); err != nil {
+	if err := json.Unmarshal(data, cat); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 29caa62d4feb8143e4e52c01887252e022e4e6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 18/43] fix: deterministic decoding of JSON messages with keys
 that differ only in case

---
 catalog/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/catalog/json.go b/catalog/json.go
index 1df4597..b745932 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -323,7 +323,9 @@ func (m *JSONMessage) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
-	for key, value := range mm {
+	// Sorted, so that keys which differ only in case are always applied in the same order
+	for _, key := range slices.Sorted(maps.Keys(mm)) {
+		value := mm[key]
 		switch strings.ToLower(key) {
 		case "comment":
 			m.Comment = value
-- 
2.43.0


From aa45a3bf33822bbe34a89af0159184df161f4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 19/43] fix: report read errors when loading the translations
 of a humanizer

---
 humanize/locale.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/humanize/locale.go b/humanize/locale.go
index eb0217d..2e24079 100644
--- a/humanize/locale.go
+++ b/humanize/locale.go
@@ -1,6 +1,7 @@
 package humanize
 
 import (
+	"errors"
 	"io/fs"
 
 	"golang.org/x/text/language"
@@ -30,8 +31,10 @@ func (loader *localeLoader) Load(lang language.Tag, domain string) (catalog.Cata
 	}
 
 	content, err := fs.ReadFile(data.Fs, domain+".po")
-	if err != nil {
+	if errors.Is(err, fs.ErrNotExist) {
 		return nil, spreak.NewErrNotFound(lang, "humanize", "domain=%q,err=%v", domain, err)
+	} else if err != nil {
+		return nil, err
 	}
 
 	dec := catalog.NewPoDecoder()
-- 
2.43.0


From 4cc3679818c0baccb1abfcd6e58345a166240b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 20/43] fix: assign continuation lines of plural translations
 to the right form

---
 catalog/po/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 0ce7be9..c3623ef 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -141,6 +141,7 @@ func (p *Parser) parseMessage() (*Message, error) {
 	p.unscan()
 
 	msg := NewMessage()
+	lastIdx := -1 // index of the last msgstr[x]
 loop:
 	for {
 		tok, _ := p.scan()
@@ -200,8 +201,8 @@ loop:
 
 			line := lit[10:] // msgstr[x]
 			msg.Str[idx] = DecodePoString(line)
+			lastIdx = idx
 		case msgStrPluralLine:
-			lastIdx := len(msg.Str) - 1
 			if lastIdx < 0 {
 				return nil, p.buildPosError()
 			}
-- 
2.43.0


From afc7009ab6887dfefa929f7953dd9b35019c24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 21/43] fix: po translations without a space after msgstr were
 lost

---
 catalog/po/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index c3623ef..3fb9749 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -186,7 +186,7 @@ loop:
 		case msgIDPluralLine:
 			msg.IDPlural += DecodePoString(lit)
 		case msgStr:
-			line := lit[7:] // msgstr
+			line := lit[6:] // msgstr
 			msg.Str[0] = DecodePoString(line)
 		case msgStrLine:
 			msg.Str[0] += DecodePoString(lit)
@@ -199,7 +199,7 @@ loop:
 				return nil, fmt.Errorf("po file contains an invalid index for a plural translation (line %d)", p.s.pos)
 			}
 
-			line := lit[10:] // msgstr[x]
+			line := lit[right+1:] // msgstr[x]
 			msg.Str[idx] = DecodePoString(line)
 			lastIdx = idx
 		case msgStrPluralLine:
-- 
2.43.0


From 68b6fe30c1fe1efe6e7376466852af745439c468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 22/43] fix: humanize.New must not modify the locale data of
 the caller

---
 humanize/humanizer.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/humanize/humanizer.go b/humanize/humanizer.go
index 07ec25f..7515fa7 100644
--- a/humanize/humanizer.go
+++ b/humanize/humanizer.go
@@ -114,14 +114,18 @@ func New(opts ...Option) (*Collection, error) {
 		}
 	}
 
-	for _, d := range o.locales {
-		if d.Format == nil {
-			d.Format = fallbackFormat
+	// The data belongs to the caller and can be shared between collections
+	locales := make([]*LocaleData, len(o.locales))
+	for i, d := range o.locales {
+		format := *fallbackFormat
+		if d.Format != nil {
+			format = *d.Format
 		}
-		d.Format.setDefaults()
+		format.setDefaults()
+		locales[i] = &LocaleData{Lang: d.Lang, Fs: d.Fs, Format: &format}
 	}
 
-	loader := newLoader(o.locales)
+	loader := newLoader(locales)
 
 	coll := &Collection{
 		locales: make(map[language.Tag]*FormatData, len(o.locales)),
-- 
2.43.0


From eef6a3b21d20dfc1782b66e58c319a35d300cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 23/43] fix: humanize.New passes the languages on in the given
 order

---
 humanize/humanizer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/humanize/humanizer.go b/humanize/humanizer.go
index 7515fa7..1f69e90 100644
--- a/humanize/humanizer.go
+++ b/humanize/humanizer.go
@@ -131,11 +131,13 @@ func New(opts ...Option) (*Collection, error) {
 		locales: make(map[language.Tag]*FormatData, len(o.locales)),
 	}
 	languages := make([]any, 0, len(loader.locales))
-	for tag, data := range loader.locales {
-		languages = append(languages, tag)
-		if data.Format != nil {
-			coll.locales[tag] = data.Format
+	for _, d := range locales {
+		if _, isKnown := coll.locales[d.Lang]; isKnown {
+			continue
 		}
+		// The order decides which language is preferred if several match equally well
+		languages = append(languages, d.Lang)
+		coll.locales[d.Lang] = loader.locales[d.Lang].Format
 	}
 
 	o.bundleOptions = append(o.bundleOptions,
-- 
2.43.0


From 690b9784d5f50eb6ed94512ee6edc00c84f90674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 24/43] fix: long comment blocks in po files must not exhaust
 the stack

---
 catalog/po/scanner.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 4251d2b..713a3ea 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -49,11 +49,21 @@ func newScanner(r io.Reader) *scanner {
 }
 
 func (s *scanner) scan() (tok token, lit string) {
-	line, err := s.read()
 	defer func() {
 		s.lastToken = tok
 	}()
 
+	for {
+		tok, lit = s.scanLine()
+		if tok != none {
+			return tok, lit
+		}
+		// The line is a comment to be skipped
+	}
+}
+
+func (s *scanner) scanLine() (tok token, lit string) {
+	line, err := s.read()
 	if err != nil {
 		return eof, ""
 	}
@@ -131,7 +141,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 	// comment without content
 	if lineLen == 1 {
 		if s.ignoreComments {
-			return s.scan()
+			return none, line
 		}
 		return commentTranslator, line
 	}
@@ -140,7 +150,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 	if lineLen == 2 {
 		switch line[1] {
 		case '.', ':', ',', '|':
-			return s.scan()
+			return none, line
 		}
 	}
 
@@ -150,7 +160,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 			// Flag comments will always be read
 			break
 		default:
-			return s.scan()
+			return none, line
 		}
 	}
 
-- 
2.43.0


From 779c682f3305c375fd9b5e69e83cacda4397768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:23 +0000
Subject: [PATCH 25/43] fix: deeply nested plural rules must not exhaust the
 stack

---
 catalog/poplural/ast/parser.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/catalog/poplural/ast/parser.go b/catalog/poplural/ast/parser.go
index 2b439e4..df29095 100644
--- a/catalog/poplural/ast/parser.go
+++ b/catalog/poplural/ast/parser.go
@@ -7,6 +7,10 @@ import (
 	"strings"
 )
 
+// maxDepth limits how deeply expressions can be nested. Each operand of a chain of logical operators
+// counts as one level. The rules come from files whose contents must not be able to exhaust the stack.
+const maxDepth = 1000
+
 type Forms struct {
 	NPlurals int
 	Root     Node
@@ -17,8 +21,19 @@ type parser struct {
 	lastToken   Token  // last read Token
 	lastLiteral string // last read literal
 	n           int    // buffer size (max=1)
+	depth       int    // current nesting depth
+}
+
+func (p *parser) enter() error {
+	p.depth++
+	if p.depth > maxDepth {
+		return errors.New("po parser: expression is nested too deeply")
+	}
+	return nil
 }
 
+func (p *parser) leave() { p.depth-- }
+
 func MustParse(rule string) *Forms {
 	f, err := Parse(rule)
 	if err != nil {
@@ -89,6 +104,11 @@ func (p *parser) Parse() (*Forms, error) {
 }
 
 func (p *parser) expression() (Node, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	n, err := p.logicalOrExpression()
 	if err != nil {
 		return nil, err
@@ -129,6 +149,11 @@ func (p *parser) expression() (Node, error) {
 }
 
 func (p *parser) logicalOrExpression() (Node, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	ln, err := p.logicalAndExpression()
 	if err != nil {
 		return nil, err
@@ -164,6 +189,11 @@ func (p *parser) logicalOrExpression() (Node, error) {
 }
 
 func (p *parser) logicalAndExpression() (Node, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	ln, err := p.equalityExpression() // left
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e30dcf902b6e37577ce352500cc458c671887268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 26/43] fix: po entries that are not separated by blank lines
 were lost

---
 catalog/po/parser.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 3fb9749..073fac2 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -142,6 +142,7 @@ func (p *Parser) parseMessage() (*Message, error) {
 
 	msg := NewMessage()
 	lastIdx := -1 // index of the last msgstr[x]
+	hasStr := false
 loop:
 	for {
 		tok, _ := p.scan()
@@ -166,16 +167,29 @@ loop:
 		switch tok {
 		case failure:
 			return nil, p.buildPosError()
-		case eof, whitespace, commentTranslator, commentExtracted, commentReference, commentFlags,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+		case eof, whitespace:
 			// Message completed
 			return msg, nil
+		case commentTranslator, commentExtracted, commentReference, commentFlags,
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			// Message completed, the comment belongs to the next one
+			p.unscan()
+			return msg, nil
 		case msgContext:
+			if hasStr {
+				// Message completed, the next one follows without a blank line
+				p.unscan()
+				return msg, nil
+			}
 			line := lit[8:] // msgctxt
 			msg.Context = DecodePoString(line)
 		case msgContextLine:
 			msg.Context += DecodePoString(lit)
 		case msgID:
+			if hasStr {
+				p.unscan()
+				return msg, nil
+			}
 			line := lit[6:] // msgid
 			msg.ID = DecodePoString(line)
 		case msgIDLine:
@@ -188,6 +202,7 @@ loop:
 		case msgStr:
 			line := lit[6:] // msgstr
 			msg.Str[0] = DecodePoString(line)
+			hasStr = true
 		case msgStrLine:
 			msg.Str[0] += DecodePoString(lit)
 		case msgStrPlural:
@@ -202,6 +217,7 @@ loop:
 			line := lit[right+1:] // msgstr[x]
 			msg.Str[idx] = DecodePoString(line)
 			lastIdx = idx
+			hasStr = true
 		case msgStrPluralLine:
 			if lastIdx < 0 {
 				return nil, p.buildPosError()
-- 
2.43.0


From 04af5f9c7d032e7ce2cd1b67d24033fd3345f027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 27/43] fix: a reused po parser must not start with a token of
 the previous file

---
 catalog/po/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 073fac2..c9aa727 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -53,6 +53,7 @@ func (p *Parser) SetIgnoreComments(ignore bool) { p.ignoreComments = ignore }
 func (p *Parser) reset() {
 	p.messages = make(Messages, avgContextsPerFile)
 	p.header = nil
+	p.n = 0
 }
 
 func (p *Parser) Parse(r io.Reader) (*File, error) {
-- 
2.43.0


From 791df4bef3e7fb582e01c83324e34e57a972f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:48 +0000
Subject: [PATCH 28/43] fix: JSON catalog with a key in several contexts
 returned random messages

Messages and MarshalJSON merge the contexts; which message of a key was
returned depended on the map iteration order.
---
 catalog/json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/catalog/json.go b/catalog/json.go
index b745932..05d4874 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -118,7 +118,8 @@ func (c jsonCatalog) Language() language.Tag { return c.language }
 func (c jsonCatalog) Messages() JSONMessages {
 	cpy := make(JSONMessages, len(c.lookupMap))
 
-	for ctx := range c.lookupMap {
+	// Sorted, as the same key can be contained in several contexts
+	for _, ctx := range slices.Sorted(maps.Keys(c.lookupMap)) {
 		for key := range c.lookupMap[ctx] {
 			msg := c.lookupMap[ctx][key]
 			cpy[key] = msg.Clone()
@@ -215,7 +216,8 @@ func (c *jsonCatalog) UnmarshalJSON(data []byte) error {
 func (c jsonCatalog) MarshalJSON() ([]byte, error) {
 	messages := make(JSONMessages, len(c.lookupMap))
 
-	for ctx := range c.lookupMap {
+	// Sorted, as the same key can be contained in several contexts
+	for _, ctx := range slices.Sorted(maps.Keys(c.lookupMap)) {
 		for key := range c.lookupMap[ctx] {
 			messages[key] = c.lookupMap[ctx][key]
 		}
-- 
2.43.0


From fc738a1abf96403c80ea0a076a9f796b73b5edfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 29/43] fix: po encoder lost the translation of messages
 without form 0

---
 catalog/po/encoder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index e944e5a..5b90f66 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -236,6 +236,9 @@ func (enc *Encoder) encodeMessage(buff *bytes.Buffer, m *Message) {
 	buff.WriteString("\n")
 
 	hasPlural := m.IDPlural != "" || len(m.Str) > 1
+	if _, hasSingular := m.Str[0]; len(m.Str) == 1 && !hasSingular {
+		hasPlural = true // The only translation has an index that must be written
+	}
 	if hasPlural {
 		buff.WriteString("msgid_plural ")
 		buff.WriteString(EncodePoString(m.IDPlural, enc.wrapWidth))
@@ -259,7 +262,11 @@ func (enc *Encoder) encodeTranslations(buff *bytes.Buffer, plural bool, orig map
 	if plural {
 		if len(m) == 1 {
 			// Plural needs at least two entries
-			m[1] = `""`
+			if _, hasSingular := m[0]; hasSingular {
+				m[1] = `""`
+			} else {
+				m[0] = `""`
+			}
 		}
 
 		keys := slices.Sorted(maps.Keys(m))
-- 
2.43.0


From 03fb91fa7e08b044298909425c7de8f7e016df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 30/43] fix: NaturalTime compared the parts of one text with
 two clock readings

---
 humanize/date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index e7282e7..647d077 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -137,7 +137,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 
 		if int64(delta.Round(time.Second).Hours()) >= 24 {
 			entry := naturalTimeStrings["past-day"]
-			timeSince := h.TimeSince(t, withTimeStrings(naturalPastSubstrings))
+			timeSince := h.TimeSince(t, WithNow(now), withTimeStrings(naturalPastSubstrings))
 			return h.loc.Getf(entry.singular, timeSince)
 		} else if deltaSec == 0 {
 			entry := naturalTimeStrings["now"]
@@ -160,7 +160,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 	deltaSec := int64(delta.Round(time.Second).Seconds())
 	if int64(delta.Round(time.Second).Hours()) >= 24 {
 		entry := naturalTimeStrings["future-day"]
-		timeSince := h.TimeUntil(t, withTimeStrings(naturalFutureSubstrings))
+		timeSince := h.TimeUntil(t, WithNow(now), withTimeStrings(naturalFutureSubstrings))
 		return h.loc.Getf(entry.singular, timeSince)
 	} else if deltaSec == 0 {
 		entry := naturalTimeStrings["now"]
-- 
2.43.0


From 55f42a202430975e727fb97ce811b0814c5da7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 31/43] fix: NaturalTime returned '0 hours ago' for times just
 under an hour ago

The branch was chosen with the rounded number of seconds, the amount was
calculated with the truncated one. NaturalTime(-time.Hour) was always affected,
as the clock is read again to resolve the duration.
---
 humanize/date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/date.go b/humanize/date.go
index 647d077..10ef4b5 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -133,7 +133,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 	now = now.In(t.Location())
 	if t.Before(now) {
 		delta := now.Sub(t)
-		deltaSec := int64(delta.Truncate(time.Second).Seconds())
+		deltaSec := int64(delta.Round(time.Second).Seconds())
 
 		if int64(delta.Round(time.Second).Hours()) >= 24 {
 			entry := naturalTimeStrings["past-day"]
-- 
2.43.0


From 66523a8b0cb610d377df5a3b52de63a82fdeaf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:52 +0000
Subject: [PATCH 32/43] fix: printers and matcher builders could change the
 bundle's own list of languages

---
 bundle.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bundle.go b/bundle.go
index 8c31461..ea6a0b9 100644
--- a/bundle.go
+++ b/bundle.go
@@ -112,8 +112,9 @@ func NewBundle(opts ...BundleOption) (*Bundle, error) {
 		}
 	}
 
-	builder.languageMatcher = builder.languageMatcherBuilder(builder.languages)
-	builder.printer.Init(builder.languages)
+	// Copies, as the index of a language is the result of the matcher
+	builder.languageMatcher = builder.languageMatcherBuilder(slices.Clone(builder.languages))
+	builder.printer.Init(slices.Clone(builder.languages))
 
 	if sourceLocale, hasSource := builder.locales[builder.sourceLanguage]; hasSource {
 		builder.sourceLocale = sourceLocale
-- 
2.43.0


From cea6188498f62b37608f365385bc346431601d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:24 +0000
Subject: [PATCH 33/43] fix: TimeUntil, TimeSinceFrom and TimeUntilFrom changed
 the options of the caller

---
 humanize/date.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 10ef4b5..f210183 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -2,6 +2,7 @@ package humanize
 
 import (
 	"math"
+	"slices"
 	"sort"
 	"strings"
 	"time"
@@ -363,7 +364,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 // TimeSinceFrom works like TimeSince, but the time to use as the comparison point can be specified.
 // Is equivalent to TimeSince(d, WithNow(now)).
 func (h *Humanizer) TimeSinceFrom(d any, now time.Time, opts ...TimeOption) string {
-	opts = append(opts, WithNow(now))
+	opts = append(slices.Clip(opts), WithNow(now)) // The slice belongs to the caller
 	return h.TimeSince(d, opts...)
 }
 
@@ -376,14 +377,14 @@ func (h *Humanizer) TimeUntil(d any, opts ...TimeOption) string {
 		return formatErrorMessage(d)
 	}
 
-	opts = append(opts, WithReverse(true))
+	opts = append(slices.Clip(opts), WithReverse(true)) // The slice belongs to the caller
 	return h.TimeSince(parsedTime, opts...)
 }
 
 // TimeUntilFrom works like TimeUntil, but the time to use as the comparison point can be specified.
 // Is equivalent to TimeUntil(d, WithNow(now)).
 func (h *Humanizer) TimeUntilFrom(d any, now time.Time, opts ...TimeOption) string {
-	opts = append(opts, WithNow(now), WithReverse(true))
+	opts = append(slices.Clip(opts), WithNow(now), WithReverse(true)) // The slice belongs to the caller
 	return h.TimeSince(d, opts...)
 }
 
-- 
2.43.0


From 8aab2dff7995241339cbd66e8ddacdbe70bd102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 34/43] fix: use the absolute value for the CLDR operand i of
 negative numbers

A negative count passed as a string, float or any integer type other than
int and int64 selected another plural category than the same count as an int.
---
 catalog/cldrplural/cldr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index 201566d..a1c1477 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -139,7 +139,7 @@ func newOperandsString(raw string) (*Operands, error) {
 	}
 
 	op.N = math.Abs(src)
-	op.I = int64(src)
+	op.I = int64(op.N)
 
 	if pointIdx := strings.Index(raw, "."); pointIdx >= 0 {
 		fractionDigits := raw[pointIdx+1:]
-- 
2.43.0


From be9c75dbeb8b1c51da687f03f8e321557f816762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 35/43] fix: references of po files whose path contains a colon
 were truncated

---
 catalog/po/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index c9aa727..e990425 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -280,7 +280,7 @@ func (p *Parser) parseComment() (*Comment, error) {
 			rawReferences := strings.Split(line, " ")
 			for _, rawRef := range rawReferences {
 				rawRef = strings.TrimSpace(rawRef)
-				colonIdx := strings.Index(rawRef, ":")
+				colonIdx := strings.LastIndex(rawRef, ":") // The path may contain colons
 				if colonIdx <= 0 {
 					// no line number
 					ref := &Reference{
@@ -293,6 +293,8 @@ func (p *Parser) parseComment() (*Comment, error) {
 
 				lineNumber, err := strconv.Atoi(rawRef[colonIdx+1:])
 				if err != nil {
+					// The colon belongs to the path
+					colonIdx = len(rawRef)
 					lineNumber = -1
 				}
 				ref := &Reference{
-- 
2.43.0


From 44dd2c52410af78c0b05478ef6f9af98e1add6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 36/43] fix: po flag 'range: min..max' was split into two flags

---
 catalog/po/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index e990425..9975948 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -255,7 +255,14 @@ func (p *Parser) parseComment() (*Comment, error) {
 		case commentFlags:
 			line = strings.TrimSpace(line[2:]) // #,
 			rawFlags := strings.FieldsFunc(line, func(r rune) bool { return unicode.IsSpace(r) || r == ',' })
-			comment.Flags = append(comment.Flags, rawFlags...)
+			for i := 0; i < len(rawFlags); i++ {
+				if rawFlags[i] == "range:" && i+1 < len(rawFlags) {
+					// The range flag has a value: "range: 0..10"
+					rawFlags[i+1] = rawFlags[i] + " " + rawFlags[i+1]
+					continue
+				}
+				comment.Flags = append(comment.Flags, rawFlags[i])
+			}
 		case commentPrevContext:
 			line = strings.TrimSpace(line[10:]) // #| msgctxt
 			if line == "" {
-- 
2.43.0


From c3fac641d36e035be2bafe6697f0cc9d658df084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 37/43] fix: wrapping the comments of a po file split words of
 indented lines

---
 catalog/po/wrap.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/catalog/po/wrap.go b/catalog/po/wrap.go
index bc853b9..a23f1db 100644
--- a/catalog/po/wrap.go
+++ b/catalog/po/wrap.go
@@ -35,17 +35,10 @@ func wrapString(s string, pageWidth int) []string {
 
 			lastSpaceBuf.WriteRune(char)
 		} else {
-			if currentLine.Len()+lastSpaceBuf.Len()+currentWordBuf.Len() >= pageWidth {
-				if currentLine.Len() > 0 {
-					lines = append(lines, currentLine.String())
-					currentLine.Reset()
-					lastSpaceBuf.Reset()
-				}
-
-				if lastSpaceBuf.Len() > 0 {
-					lastSpaceBuf.WriteInto(currentLine)
-					currentWordBuf.WriteInto(currentLine)
-				}
+			if currentLine.Len() > 0 && currentLine.Len()+lastSpaceBuf.Len()+currentWordBuf.Len() >= pageWidth {
+				lines = append(lines, currentLine.String())
+				currentLine.Reset()
+				lastSpaceBuf.Reset()
 			}
 
 			currentWordBuf.WriteRune(char)
-- 
2.43.0


From 8d65c8c7842232ca479c28a5eaec653456e43a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 38/43] fix: overlapping texts of mo files must not exhaust the
 memory

---
 internal/mo/parser.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index b7931c8..502079d 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -16,11 +16,17 @@ const (
 
 	eotSeparator = "\x04" // msgctxt and msgid separator
 	nulSeparator = "\x00" // msgid and msgstr separator
+
+	// Texts may share bytes, but together they must not be longer than this multiple of the file
+	maxTextFactor = 8
 )
 
 var ErrInvalidMagicNumber = errors.New("mo file has invalid magic number")
 
-var errOutOfBounds = errors.New("mo file refers to data outside of the file")
+var (
+	errOutOfBounds = errors.New("mo file refers to data outside of the file")
+	errOverlapping = errors.New("mo file has too many overlapping texts")
+)
 
 type parser struct {
 	bo   binary.ByteOrder
@@ -36,6 +42,7 @@ type parser struct {
 	hashSize     uint32
 	hashOffset   uint32
 	messageData  []*msgData
+	textLength   int64
 }
 
 type msgData struct {
@@ -245,6 +252,12 @@ func (p *parser) parseMessage(data *msgData) (id string, localized string, err e
 		return
 	}
 
+	p.textLength += int64(data.idLength) + int64(data.translationLength)
+	if p.textLength > maxTextFactor*p.size {
+		err = errOverlapping
+		return
+	}
+
 	if _, err = p.r.Seek(int64(data.idOffset), 0); err != nil {
 		return
 	}
-- 
2.43.0


From 6ea97387474e404960ed5db551a9ac89c095d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 39/43] fix: CLDR plural forms of large counts that are no int
 or int64 failed

---
 catalog/cldrplural/cldr.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index a1c1477..0263b64 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -2,7 +2,6 @@ package cldrplural
 
 import (
 	"errors"
-	"fmt"
 	"math"
 	"strconv"
 	"strings"
@@ -102,15 +101,15 @@ func NewOperands(a any) (*Operands, error) {
 	case int:
 		return newOperandsInt(int64(v)), nil
 	case float32:
-		return newOperandsString(fmt.Sprintf("%v", v))
+		return newOperandsString(strconv.FormatFloat(float64(v), 'f', -1, 32))
 	case float64:
-		return newOperandsString(fmt.Sprintf("%v", v))
+		return newOperandsString(strconv.FormatFloat(v, 'f', -1, 64))
 	default:
 		num, err := cast.ToNumber(v)
 		if err != nil {
 			return nil, err
 		}
-		return newOperandsString(fmt.Sprintf("%v", num))
+		return newOperandsString(strconv.FormatFloat(num, 'f', -1, 64))
 	}
 }
 
-- 
2.43.0


From bd3545b77c33d161e979553cbe4aa3fb2055e7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 40/43] fix: every number other than 0 is true in the
 conditions of plural rules

---
 catalog/poplural/rule.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 01c7e43..72dc327 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -82,16 +82,16 @@ func evaluateNode(node ast.Node, num int64) int64 {
 	case *ast.OperandExpr:
 		return num
 	case *ast.QuestionMarkExpr:
-		if evaluateNode(v.Cond, num) == 1 {
+		if evaluateNode(v.Cond, num) != 0 {
 			return evaluateNode(v.T, num)
 		}
 		return evaluateNode(v.F, num)
 	case *ast.BinaryExpr:
 		switch v.Type() {
 		case ast.LogicalAnd:
-			conditionTrue = evaluateNode(v.X, num) == 1 && evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 && evaluateNode(v.Y, num) != 0
 		case ast.LogicalOr:
-			conditionTrue = evaluateNode(v.X, num) == 1 || evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 || evaluateNode(v.Y, num) != 0
 		case ast.Equal:
 			conditionTrue = evaluateNode(v.X, num) == evaluateNode(v.Y, num)
 		case ast.NotEqual:
-- 
2.43.0


From 6d442b11144fe8cc7651d6b95f0db3f46043bd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 41/43] fix: invalid bytes in texts were saved as an escape
 sequence that po files do not have

---
 catalog/po/po_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index 6642145..e44ad01 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -308,7 +308,7 @@ func escapePoString(s string) string {
 			if start < i {
 				buf.WriteString(s[start:i])
 			}
-			buf.WriteString(`\ufffd`)
+			buf.WriteString("\ufffd")
 			i += size
 			start = i
 			continue
-- 
2.43.0


From 64c2f47e44bf1e9f7a213e418bdfaecef6cf84e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:14 +0000
Subject: [PATCH 42/43] fix: Ordinal failed for numbers that are no int64

---
 humanize/numbers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/humanize/numbers.go b/humanize/numbers.go
index 0e58c0d..be785b9 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -154,6 +154,10 @@ func (h *Humanizer) Ordinal(i any) string {
 		return strconv.FormatInt(int64(floatValue), 10)
 	}
 
+	if !(floatValue < math.MaxInt64) { // too large for an integer or not a number
+		return strconv.FormatFloat(floatValue, 'f', 0, 64)
+	}
+
 	value := int64(floatValue)
 	switch value % 100 {
 	case 11, 12, 13:
-- 
2.43.0


From b92f2ae6af2c0879b6701b7064bbf72fe621de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:14 +0000
Subject: [PATCH 43/43] fix: the exponent of a compact count had no limit, a
 lookup could take forever

---
 catalog/cldrplural/cldr.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index 0263b64..65cf791 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -2,6 +2,7 @@ package cldrplural
 
 import (
 	"errors"
+	"fmt"
 	"math"
 	"strconv"
 	"strings"
@@ -120,6 +121,9 @@ func newOperandsInt(i int64) *Operands {
 	return &Operands{float64(i), i, 0, 0, 0, 0, 0}
 }
 
+// maxExponent is the largest exponent of a compact number, larger numbers are no float64.
+const maxExponent = 308
+
 func newOperandsString(raw string) (*Operands, error) {
 	op := &Operands{}
 
@@ -128,6 +132,9 @@ func newOperandsString(raw string) (*Operands, error) {
 		if err != nil {
 			return nil, err
 		}
+		if c > maxExponent {
+			return nil, fmt.Errorf("spreak: exponent of %q is too large", raw)
+		}
 		op.C = int64(c)
 		raw = shiftDecimalPoint(raw[:cIdx], c)
 	}
-- 
2.43.0

