From 91566008c0f754ba6d51095f672d6d57bfbe83f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 01/25] fix: hsl: report an unterminated quote and keep escaped
 letters

An unterminated quoted string made the lexer loop forever, and a backslash
before any letter other than a quote swallowed everything up to the next
quote.
---
 pkg/hsl/lexer.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 3ab27d5..93b36ea 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -154,21 +154,28 @@ func (l *lexer) scanQuotedString() (token, string) {
 	for {
 		ch := l.read()
 
-		if ch == '"' {
-			if escaped {
-				escaped = false
-			} else {
-				break
+		if ch == eof {
+			return Illegal, "unterminated quote"
+		}
+
+		if escaped {
+			// Only a quote and a backslash can be escaped. Otherwise, the
+			// backslash is just a letter.
+			if ch != '"' && ch != '\\' {
+				buf.WriteRune('\\')
 			}
+			buf.WriteRune(ch)
+			escaped = false
+			continue
 		}
 
+		if ch == '"' {
+			break
+		}
 		if ch == '\\' {
 			escaped = true
 			continue
 		}
-		if escaped {
-			continue
-		}
 
 		buf.WriteRune(ch)
 	}
-- 
2.43.0


From 09763ced0ed093d7bfe482bb3a751efe58432c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 02/25] fix: hsl: do not take a NUL letter for the end of the
 source

---
 pkg/hsl/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 93b36ea..8089662 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -21,7 +21,8 @@ func newLexer(r io.Reader) *lexer {
 	return &lexer{bufio.NewReader(r), 1, 1}
 }
 
-const eof = rune(0)
+// eof is not a valid rune, so it never collides with a letter in the source.
+const eof = rune(-1)
 
 // Line returns the current line number.
 func (l lexer) Line() int {
@@ -201,7 +202,7 @@ func (l *lexer) Scan() (token, string) {
 	ch := l.read()
 
 	if ch == eof {
-		return EOF, string(eof)
+		return EOF, ""
 	}
 	if ch == '\n' {
 		return Newline, "\n"
-- 
2.43.0


From 9d871963bf8fc9006cd30f91ea7b7192ef20c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 03/25] fix: hsl: report a broken arrow instead of panicking

---
 pkg/hsl/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 8089662..360f83f 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -191,7 +191,8 @@ func (l *lexer) scanArrow() (token, string) {
 	second := l.read()
 
 	if first != '-' || second != '>' {
-		panic("not ->")
+		l.unread()
+		return Illegal, string(first)
 	}
 
 	return Arrow, "->"
-- 
2.43.0


From 231309159b387bce0dab227897f1b73b076c7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 04/25] fix: hsl: report a duplicated key instead of panicking

---
 pkg/hsl/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index 50a4fe4..df48191 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -100,7 +100,7 @@ func (p *parser) parse() (HSL, error) {
 			}
 
 			if err := section.addPair(lastString, values, line); err != nil {
-				panic(fmt.Errorf("failed to add pair: %w", err))
+				return nil, fmt.Errorf("failed to add pair: %w", err)
 			}
 
 			continue
-- 
2.43.0


From 19513bf64b3dac477cd70d19367da0e0a78b73f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 05/25] fix: hsl: finish values at a trailing comment

A comment consumes the newline, so the pair in the next line was merged into
the values before the comment.
---
 pkg/hsl/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index df48191..5e875a4 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -122,7 +122,8 @@ func (p *parser) parseValues() ([]string, error) {
 		} else if tok == EOF {
 			break
 		} else if tok == Comment {
-			continue
+			// A comment continues until the end of the line.
+			break
 		}
 
 		// Collect strings in values.
-- 
2.43.0


From 3d5ed2a0e1f85b572e675f34a0fbd81319c40c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 06/25] fix: scripts: decode the whole base letter of a
 decomposition
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Latn.Normalize picked only the first byte of the decomposition, so a letter
whose base letter is not ASCII, such as "ǽ", became an unrelated letter.
---
 internal/scripts/latn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/scripts/latn.go b/internal/scripts/latn.go
index edfe7b9..03abaf7 100644
--- a/internal/scripts/latn.go
+++ b/internal/scripts/latn.go
@@ -2,6 +2,7 @@ package scripts
 
 import (
 	"unicode"
+	"unicode/utf8"
 
 	"golang.org/x/text/unicode/norm"
 )
@@ -23,7 +24,7 @@ func (Latn) Normalize(ch rune) rune {
 	props := norm.NFD.PropertiesString(string(ch))
 	bin := props.Decomposition()
 	if len(bin) != 0 {
-		ch = rune(bin[0])
+		ch, _ = utf8.DecodeRune(bin)
 	}
 	return unicode.ToLower(ch)
 }
-- 
2.43.0


From c416d5a3aa13f68ee03a67352e89d19cd690fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 07/25] fix: hre: report an unmappable var instead of panicking

Interpolate divided by zero for a var without values in an RPattern, and
indexed by -1 when the corresponding var in the Pattern was not matched.
---
 pkg/hre/rpattern.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/hre/rpattern.go b/pkg/hre/rpattern.go
index 42554b3..f1c6ee4 100644
--- a/pkg/hre/rpattern.go
+++ b/pkg/hre/rpattern.go
@@ -115,11 +115,17 @@ func (rp *RPattern) Interpolate(
 				err := errors.New("mapped vars have different length")
 				return "", err
 			}
+			if len(part.usedVar) == 0 {
+				return "", errors.Errorf("no value in var: %s", part.lit)
+			}
 			fromVar := p.usedVars[varIndex]
 			fromVal := captured(word, m, varIndex+1)
 
 			// Find index of the matched character in the var.
 			i := indexOf(fromVal, fromVar)
+			if i == -1 {
+				return "", errors.Errorf("unmatched var for %s", part.lit)
+			}
 			i = i % len(part.usedVar)
 
 			// Choose a replacement character at the same index.
-- 
2.43.0


From f78f223f43229c5245e27706ad0ddf39d5b21f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 08/25] fix: hre: map only the vars out of lookarounds

A var in a lookaround is not captured. But it was counted as if it is, so the
following vars were mapped by the values of another var.
---
 pkg/hre/pattern.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 74c7e19..4d36b51 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -73,8 +73,16 @@ func NewPattern(
 
 	reExpr = expandMacros(reExpr, macros)
 
+	// Vars in the lookarounds don't become submatches.
+	varsBehind := len(reVar.FindAllString(reLookbehind.FindString(reExpr), -1))
+	varsAhead := len(reVar.FindAllString(reLookahead.FindString(reExpr), -1))
+
 	reExpr, usedVars := expandVars(reExpr, vars)
 
+	if varsBehind+varsAhead <= len(usedVars) {
+		usedVars = usedVars[varsBehind : len(usedVars)-varsAhead]
+	}
+
 	reExpr, negAExpr, negBExpr, negAWidth, negBWidth, err :=
 		expandLookaround(reExpr)
 	if err != nil {
-- 
2.43.0


From 2d368fbdd04cae1a2890647ee60efe86d7fa4f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 09/25] fix: hre: measure negative lookarounds in letters, not
 in bytes

RegexpMaxWidth counts letters. But the width was used as a number of bytes,
so a negative lookaround with multi-byte letters never rejected a match.
---
 pkg/hre/pattern.go |  4 ++--
 pkg/hre/util.go    | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 4d36b51..17c1302 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -235,7 +235,7 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negAWidth == -1 {
 				negAStop = len(word)
 			} else {
-				negAStop = m[lenM-4] + p.negAWidth
+				negAStop = skipRunes(word, negAStart, p.negAWidth)
 			}
 
 			if p.negA.MatchString(substr(word, negAStart, negAStop)) {
@@ -251,7 +251,7 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negBWidth == -1 {
 				negBStart = 0
 			} else {
-				negBStart = m[5] - p.negBWidth
+				negBStart = rewindRunes(word, negBStop, p.negBWidth)
 			}
 
 			if p.negB.MatchString(substr(word, negBStart, negBStop)) {
diff --git a/pkg/hre/util.go b/pkg/hre/util.go
index 6949e9d..ef3b1b7 100644
--- a/pkg/hre/util.go
+++ b/pkg/hre/util.go
@@ -3,6 +3,7 @@ package hre
 import (
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 // indexOf finds the index of the given value in a string array. It returns -1
@@ -37,6 +38,24 @@ func substr(s string, start int, stop int) string {
 	return ""
 }
 
+// skipRunes moves a position in a string forward by n runes at most.
+func skipRunes(s string, pos int, n int) int {
+	for ; n > 0 && pos < len(s); n-- {
+		_, size := utf8.DecodeRuneInString(s[pos:])
+		pos += size
+	}
+	return pos
+}
+
+// rewindRunes moves a position in a string backward by n runes at most.
+func rewindRunes(s string, pos int, n int) int {
+	for ; n > 0 && pos > 0; n-- {
+		_, size := utf8.DecodeLastRuneInString(s[:pos])
+		pos -= size
+	}
+	return pos
+}
+
 // captured returns the captured substring by their group number.
 func captured(s string, m []int, n int) string {
 	i := n * 2
-- 
2.43.0


From eeaf216c134f647adf3982efd956b7d8c09ff9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 10/25] fix: hre: keep the context of a match following another
 match

Find shifted the word for the next match. So "^" and "^^" took the end of the
previous match for the start of the word; "^a" matched with every letter of
"aaa".
---
 pkg/hre/pattern.go | 52 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 17c1302..fc0c4c0 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp"
 	"sort"
+	"unicode/utf8"
 
 	"github.com/pkg/errors"
 )
@@ -37,9 +38,10 @@ import (
 type Pattern struct {
 	expr string
 
-	re   *regexp.Regexp // positive regexp
-	negA *regexp.Regexp // negative ahead regexp
-	negB *regexp.Regexp // negative behind regexp
+	re     *regexp.Regexp // positive regexp
+	reNext *regexp.Regexp // positive regexp following any letter
+	negA   *regexp.Regexp // negative ahead regexp
+	negB   *regexp.Regexp // negative behind regexp
 
 	negAWidth int // max width of nagative lookahead
 	negBWidth int // max width of nagative lookbehind
@@ -104,6 +106,14 @@ func NewPattern(
 		return nil, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
 	}
 
+	// Compile a regexp to find the next match. It consumes the last letter of
+	// the previous match first. So the edge assertions never take the end of
+	// the previous match for the start of the word.
+	reNext, err := regexp.Compile(`^(?s:..*?)(` + reExpr + `)`)
+	if err != nil {
+		return nil, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
+	}
+
 	// Compile negative lookahead/behind regexps.
 	var negA *regexp.Regexp
 	var negB *regexp.Regexp
@@ -124,7 +134,7 @@ func NewPattern(
 		}
 	}
 
-	p := &Pattern{expr, re, negA, negB, negAWidth, negBWidth, letters, usedVars}
+	p := &Pattern{expr, re, reNext, negA, negB, negAWidth, negBWidth, letters, usedVars}
 	return p, nil
 }
 
@@ -181,6 +191,31 @@ func pickStartStop(m []int) (int, int) {
 	return start, stop
 }
 
+// findFrom finds submatches of the first match starting at the offset or later.
+func (p *Pattern) findFrom(word string, offset int) []int {
+	if offset == 0 {
+		return p.re.FindStringSubmatchIndex(word)
+	}
+
+	// Keep the letter before the offset as a context.
+	_, size := utf8.DecodeLastRuneInString(word[:offset])
+	base := offset - size
+
+	m := p.reNext.FindStringSubmatchIndex(word[base:])
+	if m == nil {
+		return nil
+	}
+
+	// Discard the consumed context.
+	m = m[2:]
+	for i := range m {
+		if m[i] != -1 {
+			m[i] += base
+		}
+	}
+	return m
+}
+
 // Find searches up to n matches in the word. If n is -1, it will search all
 // matches. The result is an array of submatch locations.
 func (p *Pattern) Find(word string, n int) [][]int {
@@ -190,13 +225,8 @@ func (p *Pattern) Find(word string, n int) [][]int {
 	length := len(word)
 
 	for offset < length && (n < 0 || len(matches) < n) {
-		// Find submatches on a shifted word.
-		m := p.re.FindStringSubmatchIndex(word[offset:])
-		for i := range m {
-			if m[i] != -1 {
-				m[i] += offset
-			}
-		}
+		// Find submatches from the offset.
+		m := p.findFrom(word, offset)
 
 		// Submatches look like:
 		//
-- 
2.43.0


From 62c912eb470968723ee65d0171aa954a5bf80154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 11/25] fix: report a wrong section kind or a missing value in
 a spec

ParseSpec panicked when a section was written in the other kind, or when a
rule or a test has no right value.
---
 spec.go | 81 +++++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 73 insertions(+), 8 deletions(-)

diff --git a/spec.go b/spec.go
index 3a97367..767df9e 100644
--- a/spec.go
+++ b/spec.go
@@ -76,7 +76,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var lang Language
 
 	if sec, ok := h["lang"]; ok {
-		_lang, err := newLanguage(sec.(*hsl.DictSection))
+		dict, err := dictSection("lang", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		_lang, err := newLanguage(dict)
 
 		if err != nil {
 			return nil, err
@@ -89,7 +94,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var config Config
 
 	if sec, ok := h["config"]; ok {
-		_config, err := newConfig(sec.(*hsl.DictSection))
+		dict, err := dictSection("config", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		_config, err := newConfig(dict)
 
 		if err != nil {
 			return nil, err
@@ -102,7 +112,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var macros map[string]string
 
 	if sec, ok := h["macros"]; ok {
-		macros, err = sec.(*hsl.DictSection).Injective()
+		dict, err := dictSection("macros", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		macros, err = dict.Injective()
 
 		if err != nil {
 			return nil, err
@@ -112,19 +127,32 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// vars
 	var vars map[string][]string
 	if sec, ok := h["vars"]; ok {
-		vars = sec.(*hsl.DictSection).Map()
+		dict, err := dictSection("vars", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		vars = dict.Map()
 	}
 
 	// normalize
 	var normalize map[string][]string
 	if sec, ok := h["normalize"]; ok {
-		normalize = sec.(*hsl.DictSection).Map()
+		dict, err := dictSection("normalize", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		normalize = dict.Map()
 	}
 
 	// rewrite
 	var rewritePairs []hsl.Pair
 	if sec, ok := h["rewrite"]; ok {
-		rewritePairs = sec.(*hsl.ListSection).Pairs()
+		rewritePairs, err = listPairs("rewrite", sec)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	rewrite, err := newRules(rewritePairs, macros, vars)
@@ -135,7 +163,10 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// transcribe
 	var transcribePairs []hsl.Pair
 	if sec, ok := h["transcribe"]; ok {
-		transcribePairs = sec.(*hsl.ListSection).Pairs()
+		transcribePairs, err = listPairs("transcribe", sec)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	transcribe, err := newRules(transcribePairs, macros, vars)
@@ -146,7 +177,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// test
 	var test [][2]string
 	if sec, ok := h["test"]; ok {
-		for _, pair := range sec.(*hsl.ListSection).Pairs() {
+		pairs, err := listPairs("test", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		for _, pair := range pairs {
 			word := pair.Left()
 			result := pair.Right()[0]
 
@@ -210,6 +246,35 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	return &spec, nil
 }
 
+// -----------------------------------------------------------------------------
+// Section kinds
+
+// dictSection asserts that a section is a dict section.
+func dictSection(name string, sec hsl.Section) (*hsl.DictSection, error) {
+	dict, ok := sec.(*hsl.DictSection)
+	if !ok {
+		return nil, errors.Errorf("%s must be a dict section", name)
+	}
+	return dict, nil
+}
+
+// listPairs returns the pairs of a list section. Every pair has at least one
+// right value.
+func listPairs(name string, sec hsl.Section) ([]hsl.Pair, error) {
+	list, ok := sec.(*hsl.ListSection)
+	if !ok {
+		return nil, errors.Errorf("%s must be a list section", name)
+	}
+
+	pairs := list.Pairs()
+	for _, pair := range pairs {
+		if len(pair.Right()) == 0 {
+			return nil, errors.Errorf("%s has no right value: %#v", name, pair.Left())
+		}
+	}
+	return pairs, nil
+}
+
 // -----------------------------------------------------------------------------
 // "lang" section
 
-- 
2.43.0


From 9768b07fd44a083d1482718aa4f815360a268782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 12/25] fix: hsl: report a reading error

A failed read was taken for the end of the source, so a truncated source was
parsed without any error.
---
 pkg/hsl/lexer.go  | 8 +++++++-
 pkg/hsl/parser.go | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 360f83f..ab044ad 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -14,11 +14,14 @@ type lexer struct {
 
 	line     int
 	prevLine int
+
+	// The reading error except io.EOF.
+	err error
 }
 
 // newLexer creates a Lexer.
 func newLexer(r io.Reader) *lexer {
-	return &lexer{bufio.NewReader(r), 1, 1}
+	return &lexer{r: bufio.NewReader(r), line: 1, prevLine: 1}
 }
 
 // eof is not a valid rune, so it never collides with a letter in the source.
@@ -34,6 +37,9 @@ func (l *lexer) read() rune {
 	ch, _, err := l.r.ReadRune()
 
 	if err != nil {
+		if err != io.EOF && l.err == nil {
+			l.err = err
+		}
 		return eof
 	}
 
diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index 5e875a4..0cc471c 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -107,6 +107,10 @@ func (p *parser) parse() (HSL, error) {
 		}
 	}
 
+	if p.lexer.err != nil {
+		return nil, fmt.Errorf("parse: %w", p.lexer.err)
+	}
+
 	return hsl, nil
 }
 
-- 
2.43.0


From 116b72903b2e9a1478ed3e7e9cdb7c7b6a32009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 13/25] fix: cmd: read the last word without a newline and the
 words after a blank line

---
 cmd/hangulize/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/hangulize/main.go b/cmd/hangulize/main.go
index 4376230..bba7ca2 100644
--- a/cmd/hangulize/main.go
+++ b/cmd/hangulize/main.go
@@ -83,12 +83,15 @@ func readWords(ch chan<- string, args []string) {
 	if len(args) == 1 {
 		reader := bufio.NewReader(os.Stdin)
 		for {
+			// The last line may not have a newline.
 			word, err := reader.ReadString('\n')
+			word = strings.TrimSpace(word)
+			if word != "" {
+				ch <- word
+			}
 			if err != nil {
 				break
 			}
-			word = strings.TrimSpace(word)
-			ch <- word
 		}
 	} else {
 		for _, word := range args[1:] {
-- 
2.43.0


From ba8b3e3c8bd8d68bc06337525d03fb9f9af76a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 14/25] fix: keep every letter of a normalization target

Only the first letter of each target was excluded from the per-script
normalization.
---
 spec.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/spec.go b/spec.go
index 767df9e..6141e57 100644
--- a/spec.go
+++ b/spec.go
@@ -6,7 +6,6 @@ import (
 	"io"
 	"strings"
 	"unicode"
-	"unicode/utf8"
 
 	"github.com/pkg/errors"
 
@@ -212,11 +211,8 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// letters in normalize
 	normLetters := make(map[rune]bool, len(normalize))
 	for to := range normalize {
-		more := len(to)
-		for more > 0 {
-			let, size := utf8.DecodeRuneInString(to)
+		for _, let := range to {
 			normLetters[let] = true
-			more -= size
 		}
 	}
 
-- 
2.43.0


From e1892fcd1baa75fde19f2967b8eaf19771f48330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 15/25] fix: hre: keep the unlimited width in a repetition

---
 pkg/hre/width.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/width.go b/pkg/hre/width.go
index 8153322..a43cb0e 100644
--- a/pkg/hre/width.go
+++ b/pkg/hre/width.go
@@ -54,7 +54,11 @@ func RegexpMaxWidth(re *syntax.Regexp) int {
 		if re.Max == -1 {
 			return -1
 		}
-		return re.Max * RegexpMaxWidth(re.Sub0[0])
+		n := RegexpMaxWidth(re.Sub0[0])
+		if n == -1 {
+			return -1
+		}
+		return re.Max * n
 
 	case syntax.OpConcat:
 		// matches concatenation of Subs
-- 
2.43.0


From d1835d5c41df997b7e067e851be54087d5344c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 16/25] fix: cyrillic: prefer the longest mapping
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The mappings were applied in the random order of a Go map. So "lj" became
either "љ" or "лј" at random.
---
 translit/cyrillic/cyrillic.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/translit/cyrillic/cyrillic.go b/translit/cyrillic/cyrillic.go
index 3d6e059..735813d 100644
--- a/translit/cyrillic/cyrillic.go
+++ b/translit/cyrillic/cyrillic.go
@@ -2,6 +2,7 @@ package cyrillic
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hangulize/hangulize"
@@ -25,9 +26,21 @@ func mustNew(country string) hangulize.Translit {
 		panic(fmt.Errorf("cyrillic: invalid country: %s", country))
 	}
 
-	oldnew := make([]string, 0, len(mapping.ToCyrillic)*2)
-	for src, dst := range mapping.ToCyrillic {
-		oldnew = append(oldnew, src, dst)
+	// Prefer longer sources. Because strings.Replacer prefers earlier ones.
+	srcs := make([]string, 0, len(mapping.ToCyrillic))
+	for src := range mapping.ToCyrillic {
+		srcs = append(srcs, src)
+	}
+	sort.Slice(srcs, func(i, j int) bool {
+		if len(srcs[i]) != len(srcs[j]) {
+			return len(srcs[i]) > len(srcs[j])
+		}
+		return srcs[i] < srcs[j]
+	})
+
+	oldnew := make([]string, 0, len(srcs)*2)
+	for _, src := range srcs {
+		oldnew = append(oldnew, src, mapping.ToCyrillic[src])
 	}
 	repl := strings.NewReplacer(oldnew...)
 
-- 
2.43.0


From 3fee6020dd030b2b99a96d8b165712845f746887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 17/25] fix: hre: prefer the longest macro

Macros were expanded in the random order of a Go map.
---
 pkg/hre/macro.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pkg/hre/macro.go b/pkg/hre/macro.go
index 43f67ae..99d5502 100644
--- a/pkg/hre/macro.go
+++ b/pkg/hre/macro.go
@@ -1,19 +1,27 @@
 package hre
 
 import (
+	"sort"
 	"strings"
 )
 
-// expandMacros replaces macro sources to corresponding targets.
+// expandMacros replaces macro sources to corresponding targets. A longer
+// source is preferred.
 func expandMacros(expr string, macros map[string]string) string {
-	args := make([]string, len(macros)*2)
+	srcs := make([]string, 0, len(macros))
+	for src := range macros {
+		srcs = append(srcs, src)
+	}
+	sort.Slice(srcs, func(i, j int) bool {
+		if len(srcs[i]) != len(srcs[j]) {
+			return len(srcs[i]) > len(srcs[j])
+		}
+		return srcs[i] < srcs[j]
+	})
 
-	i := 0
-	for src, dst := range macros {
-		args[i] = src
-		i++
-		args[i] = dst
-		i++
+	args := make([]string, 0, len(srcs)*2)
+	for _, src := range srcs {
+		args = append(args, src, macros[src])
 	}
 
 	rep := strings.NewReplacer(args...)
-- 
2.43.0


From 5f55ccf54e4e3ddc15f23299c90720d0c412794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 18/25] fix: normalize by the longest letters first

The custom normalization was applied in the random order of a Go map.
---
 spec.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/spec.go b/spec.go
index 6141e57..5b6e551 100644
--- a/spec.go
+++ b/spec.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 	"unicode"
 
@@ -200,11 +201,27 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	puncts := collectPuncts(rewrite, transcribe)
 
 	// custom normalization
-	var args []string
+	var normPairs [][2]string
 	for to, froms := range normalize {
 		for _, from := range froms {
-			args = append(args, from, to)
+			normPairs = append(normPairs, [2]string{from, to})
+		}
+	}
+	// Prefer longer letters. Because strings.Replacer prefers earlier ones.
+	sort.Slice(normPairs, func(i, j int) bool {
+		x, y := normPairs[i], normPairs[j]
+		if len(x[0]) != len(y[0]) {
+			return len(x[0]) > len(y[0])
 		}
+		if x[0] != y[0] {
+			return x[0] < y[0]
+		}
+		return x[1] < y[1]
+	})
+
+	var args []string
+	for _, pair := range normPairs {
+		args = append(args, pair[0], pair[1])
 	}
 	normReplacer := strings.NewReplacer(args...)
 
-- 
2.43.0


From a9e53a4fed75496a41dd972e53d92f4fe1dd7b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 19/25] fix: cmd: write the coverage profile of a spec without
 rules

WriteProfile panicked if a spec has no rewrite or transcribe section, and
left the tail of a longer profile in an existing file.
---
 cmd/hangulize/cover.go | 6 ++----
 cmd/hangulize/test.go  | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index 3c4af39..4ccdc5b 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -128,17 +128,15 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			cols = append(cols, col)
 		}
 
-		rewritePairs := hsl["rewrite"].Pairs()
 		for _, rule := range spec.Rewrite {
-			line := rewritePairs[rule.ID].Line()
+			line := hsl["rewrite"].Pairs()[rule.ID].Line()
 			col := cols[line-1]
 			covered := btoi(c.Covered(name, "Rewrite", rule.ID))
 			fmt.Fprintf(w, template, name, line, line, col, covered)
 		}
 
-		transcribePairs := hsl["transcribe"].Pairs()
 		for _, rule := range spec.Transcribe {
-			line := transcribePairs[rule.ID].Line()
+			line := hsl["transcribe"].Pairs()[rule.ID].Line()
 			col := cols[line-1]
 			covered := btoi(c.Covered(name, "Transcribe", rule.ID))
 			fmt.Fprintf(w, template, name, line, line, col, covered)
diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index c5b3876..009557e 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -110,7 +110,7 @@ var testCmd = &cobra.Command{
 		if testCoverProfile != "" {
 			file, err := os.OpenFile(
 				testCoverProfile,
-				os.O_WRONLY|os.O_CREATE,
+				os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
 				0644,
 			)
 			if err != nil {
-- 
2.43.0


From 3b1855b99bb9938b2713a7efe032e0a9dcb384ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:41 +0000
Subject: [PATCH 20/25] fix: zero-width spaces do not keep the spacing of
 punctuation

---
 procedure.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/procedure.go b/procedure.go
index 112846f..d18a6ba 100644
--- a/procedure.go
+++ b/procedure.go
@@ -266,7 +266,8 @@ func (p procedure) syllabify(subwords []subword.Subword) string {
 func (p procedure) localize(word string) string {
 	script := p.spec.script
 
-	chars := []rune(word)
+	// Discard ZWSP.
+	chars := []rune(strings.Replace(word, "\u200B", "", -1))
 	last := len(chars) - 1
 
 	// Pre-evaluate punct or space classification.
@@ -282,11 +283,6 @@ func (p procedure) localize(word string) string {
 	var buf bytes.Buffer
 
 	for i, ch := range chars {
-		// Skip ZWSP.
-		if ch == '\u200B' {
-			continue
-		}
-
 		if !isPunct[i] {
 			buf.WriteRune(ch)
 			continue
-- 
2.43.0


From 252bfa2696f7267750dde9556193500ae3835e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:44 +0000
Subject: [PATCH 21/25] =?UTF-8?q?fix:=20=E3=83=81=E3=82=A4,=20=E3=83=82?=
 =?UTF-8?q?=E3=82=A4=20and=20=E3=83=B7=E3=82=A2=20are=20long=20vowels=20li?=
 =?UTF-8?q?ke=20the=20other=20kana=20of=20their=20rows?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 translit/furigana/longvowel.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/translit/furigana/longvowel.go b/translit/furigana/longvowel.go
index e4d00ab..b985175 100644
--- a/translit/furigana/longvowel.go
+++ b/translit/furigana/longvowel.go
@@ -6,10 +6,10 @@ import (
 )
 
 var longVowelRels = map[rune]string{
-	'ァ': "ァアカガサザタダナハバパマャヤラヮワ",
-	'ア': "ァアカガサザタダナハバパマャヤラヮワ",
+	'ァ': "ァアカガサザタダナハバパマャヤラヮワヷ",
+	'ア': "ァアカガサザタダナハバパマャヤラヮワヷ",
 	'ィ': "ィイェエキギケゲシジセゼチヂニネヒビピヘベペミメリレヰヱヸヹ",
-	'イ': "ィイキギシジニヒビピミリヰヸ",
+	'イ': "ィイキギシジチヂニヒビピミリヰヸ",
 	'ゥ': "ゥウォオクグコゴスズソゾツヅヌノフブプホボポムモュユョヨルロヲヴヺ",
 	'ウ': "ゥウォオクグコゴスズソゾツヅトドヌノフブプホボポムモュユョヨルロヲヴヺ",
 	'ェ': "ェエケゲセゼテデネヘベペメレヱヹ",
-- 
2.43.0


From 6f85120e0c5704cd7f1a82cd03bd6267c7a6b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 22/25] fix: LoadSpec and UnloadSpec share the cached specs
 safely between goroutines

---
 specs.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/specs.go b/specs.go
index ea2d727..605d929 100644
--- a/specs.go
+++ b/specs.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/pkg/errors"
 )
@@ -37,9 +38,15 @@ func ListLangs() []string {
 // Cached specs.
 var specs = make(map[string]*Spec)
 
+// specsMu guards the cached specs.
+var specsMu sync.Mutex
+
 // LoadSpec finds a bundled spec by the given language name.
 // Once it loads a spec, it will cache the spec.
 func LoadSpec(lang string) (*Spec, error) {
+	specsMu.Lock()
+	defer specsMu.Unlock()
+
 	var spec *Spec
 
 	spec, ok := specs[lang]
@@ -69,5 +76,8 @@ func LoadSpec(lang string) (*Spec, error) {
 
 // UnloadSpec flushes a cached spec to get free memory.
 func UnloadSpec(lang string) {
+	specsMu.Lock()
+	defer specsMu.Unlock()
+
 	delete(specs, lang)
 }
-- 
2.43.0


From 21ea29c908dab942a53ee373bd0fd0dd88682420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 23/25] fix: the tokenizer of the furigana transliterator is
 created once, by one goroutine

---
 translit/furigana/furigana.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/translit/furigana/furigana.go b/translit/furigana/furigana.go
index a159318..18ea31e 100644
--- a/translit/furigana/furigana.go
+++ b/translit/furigana/furigana.go
@@ -6,6 +6,8 @@ converted to Kana. This Translit uses IPADIC in Kagome to analyze Kanji.
 package furigana
 
 import (
+	"sync"
+
 	"github.com/hangulize/hangulize"
 	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
 	"golang.org/x/text/unicode/norm"
@@ -18,19 +20,20 @@ var T hangulize.Translit = &furigana{}
 
 type furigana struct {
 	kagome *kagome.Tokenizer
+	once   sync.Once
 }
 
-func (furigana) Scheme() string {
+func (*furigana) Scheme() string {
 	return "furigana"
 }
 
 // ensureKagome caches a Kagome tokenizer because it is expensive.
 func (p *furigana) ensureKagome() *kagome.Tokenizer {
-	if p.kagome == nil {
+	p.once.Do(func() {
 		// It may take a while.
 		k := kagome.New()
 		p.kagome = &k
-	}
+	})
 	return p.kagome
 }
 
-- 
2.43.0


From 980c121692dbd797a129b39d514ff34e5c5f8b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 24/25] fix: hangulize test does not pass an example which
 cannot be transcribed

---
 cmd/hangulize/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index 009557e..9ba95e3 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -88,7 +88,7 @@ var testCmd = &cobra.Command{
 					}
 				}
 
-				if result == expected {
+				if err == nil && result == expected {
 					continue
 				}
 
-- 
2.43.0


From 2bc29f46367c53fe72e7e40dd77d3c891cd15a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:23 +0000
Subject: [PATCH 25/25] fix: hangulize test: write a coverage profile for files
 with long lines

---
 cmd/hangulize/cover.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index 4ccdc5b..84044e6 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"strings"
 
 	"github.com/hangulize/hangulize"
 	"github.com/hangulize/hangulize/pkg/hsl"
@@ -121,11 +122,21 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			return fmt.Errorf("cover: %w", err)
 		}
 
+		// A line may be longer than the limit of bufio.Scanner.
 		cols := make([]int, 0)
-		scanner := bufio.NewScanner(file)
-		for scanner.Scan() {
-			col := len(scanner.Text()) + 1
-			cols = append(cols, col)
+		reader := bufio.NewReader(file)
+		for {
+			text, err := reader.ReadString('\n')
+			text = strings.TrimSuffix(text, "\n")
+			text = strings.TrimSuffix(text, "\r")
+			cols = append(cols, len(text)+1)
+
+			if err == io.EOF {
+				break
+			}
+			if err != nil {
+				return fmt.Errorf("cover: %w", err)
+			}
 		}
 
 		for _, rule := range spec.Rewrite {
-- 
2.43.0

