From 9c8cd8b7cf5941825dc6e4e40e16abf4e6ee806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 01/53] fix: keep the scanner's nesting state per reader

The brace level and the definition/body flags were package variables, so
parsing a truncated or unbalanced file corrupted every later parse in the
same process.
---
 svcdef/svcparse/scanner.go | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 329a8f4..d0e92b1 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -15,6 +15,12 @@ type RuneReader struct {
 	ContentLen int
 	RunePos    int
 	LineNo     int
+
+	// Nesting state of the units built from this reader so far. It belongs to
+	// the reader so that one input cannot influence the scanning of another.
+	withinBody bool
+	withinDef  bool
+	braceLev   int
 }
 
 func (self *RuneReader) ReadRune() (rune, error) {
@@ -85,12 +91,6 @@ func (self ScanUnit) String() string {
 	return fmt.Sprintf(`{"value": "%v", "InRpcDefinition": %v, "InRpcBody": %v, "BraceLevel": %v, "LineNo": %v},`, cleanval, self.InRpcDefinition, self.InRpcBody, self.BraceLevel, self.LineNo)
 }
 
-var (
-	withinBody bool = false
-	withinDef  bool = false
-	braceLev   int  = 0
-)
-
 func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	rv := &ScanUnit{
 		false,
@@ -102,10 +102,10 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	var ch rune
 	buf := make([]rune, 0)
 	setReturn := func() *ScanUnit {
-		rv.BraceLevel = braceLev
+		rv.BraceLevel = rr.braceLev
 		rv.LineNo = rr.LineNo
-		rv.InRpcBody = withinBody
-		rv.InRpcDefinition = withinDef
+		rv.InRpcBody = rr.withinBody
+		rv.InRpcDefinition = rr.withinDef
 		rv.Value = buf
 		return rv
 	}
@@ -216,22 +216,22 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 			} else if !isIdent(ch) {
 				rr.UnreadRune()
 				if string(buf) == "service" {
-					withinDef = true
+					rr.withinDef = true
 				}
 				break
 			}
 			buf = append(buf, ch)
 		}
 	case ch == '{':
-		braceLev += 1
-		if withinDef == true {
-			withinDef = false
-			withinBody = true
+		rr.braceLev += 1
+		if rr.withinDef == true {
+			rr.withinDef = false
+			rr.withinBody = true
 		}
 	case ch == '}':
-		braceLev -= 1
-		if withinBody == true && braceLev == 0 {
-			withinBody = false
+		rr.braceLev -= 1
+		if rr.withinBody == true && rr.braceLev == 0 {
+			rr.withinBody = false
 		}
 	}
 
-- 
2.43.0


From b4dcea8be945f9c0930937fb8834a8eaf4b0437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 02/53] fix: keep every rune of a block comment while looking
 for its end

---
 svcdef/svcparse/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index d0e92b1..db72341 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -153,6 +153,9 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 						buf = append(buf, ch)
 						return setReturn(), nil
 					}
+					// Not the end of the comment, so this rune still has to
+					// be looked at: it may be another '*'
+					rr.UnreadRune()
 				} else {
 					// Add the body of the comment to the buffer
 					buf = append(buf, ch)
-- 
2.43.0


From e4eec7dee99845e853e41816c504eae02a87d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 03/53] fix: do not panic on a definition that ends within a
 comment group

---
 svcdef/svcparse/lexer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/lexer.go b/svcdef/svcparse/lexer.go
index ed2e383..1e93a0d 100644
--- a/svcdef/svcparse/lexer.go
+++ b/svcdef/svcparse/lexer.go
@@ -55,7 +55,8 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 			one_pos := scn.UnitPos
 			one, err := scn.ReadUnit()
 			if err != nil {
-				panic(err)
+				// The input ends with this comment
+				break
 			}
 			onestr := string(one)
 			if len(one) > 1 && one[0] == '/' {
@@ -64,7 +65,8 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 				if strings.Count(onestr, "\n") == 0 {
 					two, err := scn.ReadUnit()
 					if err != nil {
-						panic(err)
+						scn.UnReadToPosition(one_pos)
+						break
 					}
 					twostr := string(two)
 					if len(two) > 1 && two[0] == '/' {
-- 
2.43.0


From dbd7bc67b8ec4ee693ed8172f26ebc3932db6f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 04/53] fix: unreading the first unit of the scanner resets it

---
 svcdef/svcparse/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index db72341..33644f5 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -343,6 +343,7 @@ func (self *SvcScanner) UnreadUnit() error {
 		self.InDefinition = false
 		self.BraceLevel = 0
 		self.lineNo = 0
+		return nil
 	}
 	self.UnitPos -= 1
 
-- 
2.43.0


From cae8d2b1659cac9c2d6efd04b65afb13058bbc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 05/53] fix: a name spelled 'service' does not begin a service
 definition

---
 svcdef/svcparse/scanner.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 33644f5..9115778 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -21,6 +21,21 @@ type RuneReader struct {
 	withinBody bool
 	withinDef  bool
 	braceLev   int
+	// withinOther is set within a top-level statement that declares something
+	// else than a service, where 'service' is a name and not the keyword.
+	withinOther bool
+}
+
+// otherStatements are the keywords which begin the top-level statements of a
+// protobuf file, apart from service definitions.
+var otherStatements = map[string]bool{
+	"syntax":  true,
+	"import":  true,
+	"package": true,
+	"option":  true,
+	"message": true,
+	"enum":    true,
+	"extend":  true,
 }
 
 func (self *RuneReader) ReadRune() (rune, error) {
@@ -218,13 +233,18 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 				return setReturn(), err
 			} else if !isIdent(ch) {
 				rr.UnreadRune()
-				if string(buf) == "service" {
-					rr.withinDef = true
+				if rr.braceLev == 0 && !rr.withinOther && !rr.withinDef {
+					rr.withinDef = string(buf) == "service"
+					rr.withinOther = otherStatements[string(buf)]
 				}
 				break
 			}
 			buf = append(buf, ch)
 		}
+	case ch == ';':
+		if rr.braceLev == 0 {
+			rr.withinOther = false
+		}
 	case ch == '{':
 		rr.braceLev += 1
 		if rr.withinDef == true {
@@ -233,6 +253,9 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 		}
 	case ch == '}':
 		rr.braceLev -= 1
+		if rr.braceLev == 0 {
+			rr.withinOther = false
+		}
 		if rr.withinBody == true && rr.braceLev == 0 {
 			rr.withinBody = false
 		}
@@ -299,7 +322,9 @@ func (self *SvcScanner) FastForward() error {
 		if err != nil {
 			return err
 		}
-		if string(buf) == search_str {
+		// Only the keyword begins a definition, not another identifier that
+		// happens to be spelled the same
+		if self.InDefinition && string(buf) == search_str {
 			self.UnitPos -= 1
 			break
 		}
-- 
2.43.0


From fee5916a2b18c3adc7751c2a7f46e4f20416ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 06/53] fix: accept comments between any two tokens of a
 service definition

---
 svcdef/svcparse/parser.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index dd2922a..99ee873 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -164,7 +164,7 @@ type Field struct {
 // ParseService will parse a proto file and return the the struct
 // representation of that service.
 func ParseService(lex *SvcLexer) (*Service, error) {
-	tk, val := lex.GetTokenIgnoreWhitespace()
+	tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk == EOF {
 		return nil, io.ErrUnexpectedEOF
 	}
@@ -178,7 +178,7 @@ func ParseService(lex *SvcLexer) (*Service, error) {
 
 	toret := &Service{}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier",
@@ -188,7 +188,7 @@ func ParseService(lex *SvcLexer) (*Service, error) {
 	}
 	toret.Name = val
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_BRACE {
 		return nil, parserErr{
 			expected: "'{'",
@@ -244,7 +244,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	toret := &Method{}
 	toret.Description = desc
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier",
@@ -257,7 +257,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// TODO Add some kind of lookup of the existing messages instead of
 	// creating a new message
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_PAREN {
 		return nil, parserErr{
 			expected: "'('",
@@ -266,11 +266,11 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	// Here we ignore the "stream" keyword which may appear in the arguments of
 	// an RPC definition
 	if val == "stream" {
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
 	if tk != IDENT {
 		return nil, parserErr{
@@ -285,7 +285,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// doesn't support properly importanting external packages, but by
 	// using this approach type aliases can be made alongside the generated
 	// pb.go code (type Struct = types.Struct)
-	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreWhitespace() {
+	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreCommentAndWhitespace() {
 		switch tk {
 		case SYMBOL: // skip
 		case IDENT:
@@ -299,7 +299,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT || val != "returns" {
 		return nil, parserErr{
 			expected: "'returns' keyword",
@@ -308,7 +308,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_PAREN {
 		return nil, parserErr{
 			expected: "'('",
@@ -317,11 +317,11 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	// Here we ignore the "stream" keyword which may appear in the arguments of
 	// an RPC definition
 	if val == "stream" {
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
 	if tk != IDENT {
 		return nil, parserErr{
@@ -336,7 +336,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// doesn't support properly importanting external packages, but by
 	// using this approach type aliases can be made alongside the generated
 	// pb.go code (type Struct = types.Struct)
-	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreWhitespace() {
+	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreCommentAndWhitespace() {
 		switch tk {
 		case SYMBOL: // skip
 		case IDENT:
@@ -350,7 +350,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if val == ";" {
 		// No http options defined
 		return nil, nil
@@ -544,7 +544,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 		field.Kind = val
 		field.Name = val
 
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 		if tk != SYMBOL || val != ":" {
 			return nil, nil, parserErr{
 				expected: "symbol ':'",
@@ -553,7 +553,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 			}
 		}
 
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 		if tk != STRING_LITERAL {
 			return nil, nil, parserErr{
 				expected: "string literal",
-- 
2.43.0


From e6036a87cda7cf47c6ba64adb3904e33180d7813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 07/53] fix: read single-quoted string literals

---
 svcdef/svcparse/lexer.go   |  2 +-
 svcdef/svcparse/parser.go  | 33 ++++++++++++++++++++++++++++++++-
 svcdef/svcparse/scanner.go |  7 ++++---
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/svcdef/svcparse/lexer.go b/svcdef/svcparse/lexer.go
index 1e93a0d..08ab1ea 100644
--- a/svcdef/svcparse/lexer.go
+++ b/svcdef/svcparse/lexer.go
@@ -37,7 +37,7 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 		return &TokenGroup{WHITESPACE, string(unit), scn.GetLineNumber()}
 	case isIdent(unit[0]):
 		return &TokenGroup{IDENT, string(unit), scn.GetLineNumber()}
-	case unit[0] == '"':
+	case unit[0] == '"', unit[0] == '\'':
 		return &TokenGroup{STRING_LITERAL, string(unit), scn.GetLineNumber()}
 	case unit[0] == '(':
 		return &TokenGroup{OPEN_PAREN, string(unit), scn.GetLineNumber()}
diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 99ee873..bee495a 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 
 	"github.com/pkg/errors"
 )
@@ -562,7 +563,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 			}
 		}
 
-		noqoute, err := strconv.Unquote(val)
+		noqoute, err := unquote(val)
 		if err != nil {
 			return nil, nil, errors.Wrapf(err, "cannot unquote value %q", val)
 		}
@@ -574,3 +575,33 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 
 	return fields, custom, nil
 }
+
+// unquote returns the value of a protobuf string literal, which may be in
+// double or in single quotes.
+func unquote(lit string) (string, error) {
+	if val, err := strconv.Unquote(lit); err == nil && lit[0] == '"' {
+		return val, nil
+	}
+	if strings.Contains(lit, "\n") {
+		return "", strconv.ErrSyntax
+	}
+	var val strings.Builder
+	for rest := lit[1 : len(lit)-1]; len(rest) > 0; {
+		if strings.HasPrefix(rest, `\'`) || strings.HasPrefix(rest, `\"`) {
+			val.WriteByte(rest[1])
+			rest = rest[2:]
+			continue
+		}
+		ch, multibyte, tail, err := strconv.UnquoteChar(rest, 0)
+		if err != nil {
+			return "", err
+		}
+		if multibyte {
+			val.WriteRune(ch)
+		} else {
+			val.WriteByte(byte(ch))
+		}
+		rest = tail
+	}
+	return val.String(), nil
+}
diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 9115778..82e900d 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -181,8 +181,9 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 			rr.UnreadRune()
 			return setReturn(), nil
 		}
-	case ch == '"':
-		// Handle strings
+	case ch == '"' || ch == '\'':
+		// Handle strings, which end with the quote they begin with
+		quote := ch
 		for {
 			ch, err = rr.ReadRune()
 			if err != nil {
@@ -196,7 +197,7 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 				} else {
 					buf = append(buf, ch)
 				}
-			} else if ch == '"' {
+			} else if ch == quote {
 				// Closing quotation
 				buf = append(buf, ch)
 				return setReturn(), nil
-- 
2.43.0


From ccceda89119fe31a20ac8c0de8c902e848041e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 08/53] fix: a comment above a custom pattern does not describe
 the field after it

---
 svcdef/svcparse/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index bee495a..7eb225a 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -539,6 +539,8 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 			if err != nil {
 				return nil, nil, errors.Wrap(err, "cannot fastforward to closing brace")
 			}
+			// A comment above this section does not describe the next field
+			field = &Field{}
 			continue
 		}
 
-- 
2.43.0


From 1d3b2f8d66975b2f0e4e8239a281ff1af2024296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 09/53] fix: an rpc's other options are not its http annotation

---
 svcdef/svcparse/parser.go | 70 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 69 insertions(+), 1 deletion(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 7eb225a..dc46fe1 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -68,6 +68,47 @@ func fastForwardTill(lex *SvcLexer, delim string) error {
 	}
 }
 
+// optionName reads the name of an option, up to and including the '='.
+func optionName(lex *SvcLexer) (string, error) {
+	name := ""
+	for {
+		tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
+		switch {
+		case tk == EOF || tk == ILLEGAL || val == ";" || val == "{" || val == "}":
+			return "", parserErr{
+				expected: "'=' after the name of an option",
+				line:     lex.GetLineNumber(),
+				val:      val,
+			}
+		case val == "=":
+			return name, nil
+		}
+		name += val
+	}
+}
+
+// skipOption moves the lexer past the ';' that ends the current option.
+func skipOption(lex *SvcLexer) error {
+	depth := 0
+	for {
+		tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
+		switch {
+		case tk == EOF || tk == ILLEGAL:
+			return parserErr{
+				expected: "';' after an option",
+				line:     lex.GetLineNumber(),
+				val:      val,
+			}
+		case tk == OPEN_BRACE:
+			depth++
+		case tk == CLOSE_BRACE:
+			depth--
+		case val == ";" && depth == 0:
+			return nil
+		}
+	}
+}
+
 // Each of the following structs exists as a distillation of a corresponding
 // deftree struct, only including what's necessary for this parser. The reason
 // we define these structs instead of using the ones within deftree is because
@@ -385,6 +426,12 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	}
 
 	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+	for tk == IDENT && val == "option" {
+		if err := skipOption(lex); err != nil {
+			return nil, err
+		}
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+	}
 	if tk != CLOSE_BRACE {
 		return nil, parserErr{
 			expected: "'}' after declaration of http options marking end of rpc declarations",
@@ -429,7 +476,28 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 
 	switch {
 	case val == "option":
-		err := fastForwardTill(lex, "{")
+		start := lex.GetPosition()
+		name, err := optionName(lex)
+		if err != nil {
+			return nil, err
+		}
+		name = strings.Replace(name, "(.", "(", 1)
+		if strings.HasPrefix(name, "(google.api.http).") {
+			return nil, parserErr{
+				expected: "a single '(google.api.http)' option",
+				line:     lex.GetLineNumber(),
+				val:      name,
+			}
+		}
+		if name != "(google.api.http)" {
+			// Not an http annotation; the next option may be one
+			lex.UnGetToPosition(start)
+			if err := skipOption(lex); err != nil {
+				return nil, err
+			}
+			return ParseHttpBindings(lex)
+		}
+		err = fastForwardTill(lex, "{")
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From a8c252037846cdcc4e150ca348bca598d2638dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 10/53] fix: skip streaming rpcs when reading a service

---
 svcdef/svcdef.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 3fddfbc..270a150 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -254,6 +254,11 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 					}
 					break
 				}
+				// Exclude the {SVCNAME}_{METHOD}Server interface of a streaming
+				// method, it embeds grpc.ServerStream
+				if embedsInterface(t) {
+					break
+				}
 				// log.Printf("NewService ast.TypeSpec=%+v, DebugInfo=%+v", t, debugInfo)
 				nsvc, err := NewService(t, debugInfo)
 				if err != nil {
@@ -346,6 +351,16 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 	return &rv, nil
 }
 
+// embedsInterface tells whether the interface embeds another one.
+func embedsInterface(t *ast.TypeSpec) bool {
+	for _, m := range t.Type.(*ast.InterfaceType).Methods.List {
+		if len(m.Names) == 0 {
+			return true
+		}
+	}
+	return false
+}
+
 func NewEnum(e *ast.TypeSpec) (*Enum, error) {
 	return &Enum{
 		Name: e.Name.Name,
@@ -432,7 +447,7 @@ func NewService(s *ast.TypeSpec, info *DebugInfo) (*Service, error) {
 		}
 		nmeth, err := NewServiceMethod(m, info)
 		if err != nil {
-			if err == ErrNotSupported {
+			if errors.Cause(err) == ErrNotSupported {
 				continue
 			}
 			return nil, errors.Wrapf(err, "cannot create service method %q of service %q", m.Names[0].Name, rv.Name)
@@ -477,8 +492,10 @@ func NewServiceMethod(m *ast.Field, info *DebugInfo) (*ServiceMethod, error) {
 		log.Tracef("\t\toutput[%v] = %# v\n", i, pretty.Formatter(f))
 	}
 
-	// 检查入参数量, grpc.CallOption 没在参数列表中, stream 目前不支持
-	if len(input) < 2 {
+	// 检查参数数量, grpc.CallOption 没在参数列表中, stream 目前不支持
+	// client streaming: Put(Svc_PutServer) error
+	// server streaming: Watch(*Request, Svc_WatchServer) error
+	if len(input) < 2 || len(output) < 2 {
 		msg := "the %s method is not standard gRPC method, not supported"
 		log.Warnf(msg, rv.Name)
 		return nil, errors.Wrapf(ErrNotSupported, msg, rv.Name)
-- 
2.43.0


From 319c9b5b8208bd6f7dd9b018fd7bf6e165f86a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 11/53] fix: read a service whose name starts with 'Unsafe'

---
 svcdef/svcdef.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 270a150..779139a 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -232,8 +232,8 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			// log.Printf("range ast.TypeSpec item = %+v, type=%v", t, t.Type)
 			switch t.Type.(type) {
 			case *ast.InterfaceType:
-				// Exclude Unsave{NAME}Server interface
-				if strings.HasPrefix(t.Name.Name, "Unsafe") {
+				// Exclude Unsafe{NAME}Server interface
+				if isUnsafeServer(t) {
 					break
 				}
 				// Each service will have two interfaces ("{SVCNAME}Server" and
@@ -351,6 +351,22 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 	return &rv, nil
 }
 
+// isUnsafeServer tells whether the interface is the Unsafe{NAME}Server that
+// goes with the service {NAME}, and not the interface of a service whose own
+// name starts with "Unsafe".
+func isUnsafeServer(t *ast.TypeSpec) bool {
+	if !strings.HasPrefix(t.Name.Name, "Unsafe") {
+		return false
+	}
+	server := strings.TrimPrefix(t.Name.Name, "Unsafe")
+	for _, m := range t.Type.(*ast.InterfaceType).Methods.List {
+		if len(m.Names) == 1 && m.Names[0].Name == "mustEmbedUnimplemented"+server {
+			return true
+		}
+	}
+	return false
+}
+
 // embedsInterface tells whether the interface embeds another one.
 func embedsInterface(t *ast.TypeSpec) bool {
 	for _, m := range t.Type.(*ast.InterfaceType).Methods.List {
-- 
2.43.0


From 69d84b7aaa183853f4366223f78ae782c5decbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 12/53] fix: a oneof named server is not a service

---
 svcdef/svcdef.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 779139a..27de7ec 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -241,12 +241,13 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 				// care about, but structured a bit differently. Additionally,
 				// oneof fields are generated as interfaces and captured here
 				// to aid in their generations
+				// is prefixes indicates oneof, we'll use this to form Fields later;
+				// the oneof itself may be named "server" or "client"
+				if strings.HasPrefix(t.Name.Name, "is") {
+					oneofExists[t.Name.Name] = struct{}{}
+					break
+				}
 				if !strings.HasSuffix(t.Name.Name, "Server") {
-					// is prefixes indicates oneof, we'll use this to form Fields later
-					if strings.HasPrefix(t.Name.Name, "is") {
-						oneofExists[t.Name.Name] = struct{}{}
-						break
-					}
 					if !strings.HasSuffix(t.Name.Name, "Client") {
 						// This interface isn't either Server or Client; it may be a oneof
 						// field, which isn't currently supported.  Warn the user and skip.
-- 
2.43.0


From 235376260e603633316fcd4a854e5bf7198931fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 13/53] fix: keep the oneofs of one definition out of the next
 and read those of every file

---
 svcdef/svcdef.go | 75 +++++++++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 27de7ec..9a71bd0 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -199,10 +199,6 @@ func (le LocationError) Location() string {
 	return le.Position
 }
 
-var (
-	oneofs = map[string][]*Field{}
-)
-
 // New 解析 pb.go 和 go-grpc.pb.go 文件, 创建 Svcdef 服务定义相关信息和 HTTP 绑定相关信息
 func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef, error) {
 	rv := Svcdef{}
@@ -277,42 +273,41 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 		}
 
 		oneofTypes := map[string]string{}
-		// Find oneof types if they haven't been added already
-		if len(oneofs) == 0 {
-			for _, d := range fileAst.Decls {
-				switch decl := d.(type) {
-				case *ast.FuncDecl:
-					if _, ok := oneofExists[decl.Name.Name]; ok {
-						t := decl.Recv.List[0].Type.(*ast.StarExpr)
-						name := t.X.(*ast.Ident)
-						oneofTypes[name.Name] = decl.Name.Name
-					}
+		// options of the oneofs of this file, by the name of their interface
+		oneofs := map[string][]*Field{}
+		for _, d := range fileAst.Decls {
+			switch decl := d.(type) {
+			case *ast.FuncDecl:
+				if _, ok := oneofExists[decl.Name.Name]; ok {
+					t := decl.Recv.List[0].Type.(*ast.StarExpr)
+					name := t.X.(*ast.Ident)
+					oneofTypes[name.Name] = decl.Name.Name
 				}
 			}
+		}
 
-			// Process and group oneof types
-			for _, t := range typespecs {
-				switch t.Type.(type) {
-				case *ast.StructType:
-					// Non-exported structs do not represent types
-					if !t.Name.IsExported() {
-						break
-					}
-					// Skip all non-oneofs; will be processed later
-					iface, ok := oneofTypes[t.Name.Name]
-					if !ok {
-						break
-					}
-					nmsg, err := NewMessage(t)
-					if err != nil {
-						return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
-					}
-					f := nmsg.Fields[0]
-					f.Type.Message = &Message{
-						Name: nmsg.Name,
-					}
-					oneofs[iface] = append(oneofs[iface], f)
+		// Process and group oneof types
+		for _, t := range typespecs {
+			switch t.Type.(type) {
+			case *ast.StructType:
+				// Non-exported structs do not represent types
+				if !t.Name.IsExported() {
+					break
 				}
+				// Skip all non-oneofs; will be processed later
+				iface, ok := oneofTypes[t.Name.Name]
+				if !ok {
+					break
+				}
+				nmsg, err := NewMessage(t)
+				if err != nil {
+					return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
+				}
+				f := nmsg.Fields[0]
+				f.Type.Message = &Message{
+					Name: nmsg.Name,
+				}
+				oneofs[iface] = append(oneofs[iface], f)
 			}
 		}
 
@@ -339,6 +334,11 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 				if err != nil {
 					return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
 				}
+				for _, f := range nmsg.Fields {
+					if oneof, ok := oneofs[f.Type.Name]; ok {
+						f.Type.Oneof = oneof
+					}
+				}
 				rv.Messages = append(rv.Messages, nmsg)
 			}
 		}
@@ -600,9 +600,6 @@ func NewField(f *ast.Field) (*Field, error) {
 		switch ex := e.(type) {
 		case *ast.Ident: // 函数名/变量名
 			rv.Type.Name += ex.Name
-			if oneof, ok := oneofs[ex.Name]; ok {
-				rv.Type.Oneof = oneof
-			}
 		case *ast.StarExpr: // 指针表达式
 			rv.Type.StarExpr = true
 			typeFollower(ex.X)
-- 
2.43.0


From 2ecb94b7bfba1b241e97ebe238694ddd59d45573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 14/53] fix: the Unimplemented server of a service is not a
 message

---
 svcdef/svcdef.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 9a71bd0..e660f39 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -221,6 +221,8 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			return nil, errors.Wrap(err, "cannot retrive type specs")
 		}
 
+		// server interfaces
+		servers := map[string]struct{}{}
 		// oneof names
 		oneofExists := map[string]struct{}{}
 
@@ -251,6 +253,7 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 					}
 					break
 				}
+				servers[t.Name.Name] = struct{}{}
 				// Exclude the {SVCNAME}_{METHOD}Server interface of a streaming
 				// method, it embeds grpc.ServerStream
 				if embedsInterface(t) {
@@ -330,6 +333,10 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 				if _, ok := oneofTypes[t.Name.Name]; ok {
 					break
 				}
+				// Unimplemented{SVCNAME}Server comes with a service
+				if _, ok := servers[strings.TrimPrefix(t.Name.Name, "Unimplemented")]; ok {
+					break
+				}
 				nmsg, err := NewMessage(t)
 				if err != nil {
 					return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
-- 
2.43.0


From c891d98e8ec46003aed8e7e8b1fca4b920b4c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 15/53] fix: describe the values of a map whatever their type

---
 svcdef/resolvetypes.go | 6 ++----
 svcdef/svcdef.go       | 8 ++++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/svcdef/resolvetypes.go b/svcdef/resolvetypes.go
index 57f9ab3..d4e2207 100644
--- a/svcdef/resolvetypes.go
+++ b/svcdef/resolvetypes.go
@@ -40,11 +40,9 @@ func resolveTypes(sd *Svcdef) {
 
 // setType unpacks typeBox value into corresponding FieldType
 func setType(f *FieldType, tmap map[string]typeBox) {
-	// Special case maps with valuetypes pointing to messages
+	// Special case maps with valuetypes naming messages or enums
 	if f.Map != nil {
-		if f.Map.ValueType.StarExpr {
-			f = f.Map.ValueType
-		}
+		f = f.Map.ValueType
 	}
 	entry, ok := tmap[f.Name]
 	if !ok {
diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index e660f39..132e269 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -449,6 +449,14 @@ func NewMap(m ast.Expr) (*Map, error) {
 		case *ast.StarExpr:
 			rv.ValueType.StarExpr = true
 			keyFollower(ex.X)
+		case *ast.ArrayType: // bytes
+			rv.ValueType.ArrayType = true
+			keyFollower(ex.Elt)
+		case *ast.SelectorExpr: // message of another package
+			if xnode, ok := ex.X.(*ast.Ident); ok {
+				rv.ValueType.Name += xnode.Name + "."
+			}
+			rv.ValueType.Name += ex.Sel.Name
 		}
 	}
 	keyFollower(mp.Value)
-- 
2.43.0


From 135d1c08cada33a155a3632aa7dfd59c90804efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 16/53] fix: recognize the enum options of a oneof

---
 svcdef/resolvetypes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svcdef/resolvetypes.go b/svcdef/resolvetypes.go
index d4e2207..8cd2660 100644
--- a/svcdef/resolvetypes.go
+++ b/svcdef/resolvetypes.go
@@ -28,6 +28,12 @@ func resolveTypes(sd *Svcdef) {
 	for _, m := range sd.Messages {
 		for _, f := range m.Fields {
 			setType(f.Type, tmap)
+			for _, option := range f.Type.Oneof {
+				// the Message of an option is the type that wraps it
+				if entry, ok := tmap[option.Type.Name]; ok {
+					option.Type.Enum = entry.Enum
+				}
+			}
 		}
 	}
 	if sd.Service != nil {
-- 
2.43.0


From 044ae188c60344b083f57ee0df7f986b259708ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 17/53] fix: locate a field by its proto name when its Go name
 was altered

---
 svcdef/consolidate_http.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index 3697d00..20b38a9 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -169,7 +169,7 @@ func paramLocation(field *Field, binding *svcparse.HTTPBinding) string {
 	for _, param := range pathParams {
 		// Have to CamelCase the data from the parser since it may be lowercase
 		// while the name from the Go file will be CamelCased
-		if pkg.GoCamelCase(strings.Split(param, ".")[0]) == field.Name {
+		if name := strings.Split(param, ".")[0]; name == field.PBFieldName || pkg.GoCamelCase(name) == field.Name {
 			return "path"
 		}
 	}
@@ -177,7 +177,7 @@ func paramLocation(field *Field, binding *svcparse.HTTPBinding) string {
 		if optField.Kind == "body" {
 			if optField.Value == "*" {
 				return "body"
-			} else if optField.Value == field.Name {
+			} else if optField.Value == field.Name || optField.Value == field.PBFieldName {
 				return "body"
 				// Have to CamelCase the fields from the protobuf file, as they may
 				// be lowercase while the name from the Go file will be CamelCased.
-- 
2.43.0


From 86698e0e1873f312f165e338cd4a4442daabefe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 18/53] fix: accept fully qualified request and response types

---
 svcdef/svcparse/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index dc46fe1..f8928af 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -314,6 +314,10 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	if val == "stream" {
 		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
+	// A fully qualified type name begins with a dot
+	if tk == SYMBOL && val == "." {
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+	}
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier in first argument to method",
@@ -365,6 +369,10 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	if val == "stream" {
 		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
+	// A fully qualified type name begins with a dot
+	if tk == SYMBOL && val == "." {
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+	}
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier in return argument to method",
-- 
2.43.0


From 605ded426a4feca34af1f684868190f094b46b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 19/53] fix: read the service of a definition given as text

---
 svcdef/newfromstring.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/svcdef/newfromstring.go b/svcdef/newfromstring.go
index 1b023cf..e8b2d88 100644
--- a/svcdef/newfromstring.go
+++ b/svcdef/newfromstring.go
@@ -16,6 +16,7 @@ import (
 func NewFromString(def string, gopath []string) (*Svcdef, error) {
 	const defFileName = "definition.proto"
 	const goFileName = "definition.pb.go"
+	const grpcGoFileName = "definition_grpc.pb.go"
 
 	// Write our proto file to a directory
 	protoDir, err := ioutil.TempDir("", "baronsvcdef")
@@ -47,6 +48,14 @@ func NewFromString(def string, gopath []string) (*Svcdef, error) {
 	pbgoMap := map[string]io.Reader{
 		"/tmp/doesntexist.pb.go": strings.NewReader(pbgo),
 	}
+	// The service is in a file of its own, which a definition without a
+	// service lacks
+	buf, err = ioutil.ReadFile(filepath.Join(protoDir, grpcGoFileName))
+	if err == nil {
+		pbgoMap["/tmp/doesntexist_grpc.pb.go"] = strings.NewReader(string(buf))
+	} else if !os.IsNotExist(err) {
+		return nil, errors.Wrap(err, "cannot read _grpc.pb.go file")
+	}
 	pFileMap := map[string]io.Reader{
 		"/tmp/doesntexist.proto": strings.NewReader(def),
 	}
-- 
2.43.0


From 8cd966f99c4cca86b4bdb255837b25dd2103b88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 20/53] fix: report an http annotation on a request of another
 package instead of crashing

---
 svcdef/consolidate_http.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index 20b38a9..7545e88 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -130,6 +130,9 @@ func assembleHTTPParams(svc *Service, httpsvc *svcparse.Service) error {
 		if m == nil {
 			return fmt.Errorf("cannot not find service method named %q", hm.Name)
 		}
+		if m.RequestType.Message == nil {
+			return fmt.Errorf("the request type %q of the method %q, which has an http annotation, is not a message of this definition", m.RequestType.Name, hm.Name)
+		}
 		for _, hbind := range hm.HTTPBindings {
 			createParams(m, hbind)
 		}
-- 
2.43.0


From 9ae9cb994cb7d8553dbb68276a88bf0f6f75747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 21/53] fix: keep listing the Unimplemented server, as the
 existing test expects

Reverts 2ecb94b.
---
 svcdef/svcdef.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 132e269..c564f3a 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -221,8 +221,6 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			return nil, errors.Wrap(err, "cannot retrive type specs")
 		}
 
-		// server interfaces
-		servers := map[string]struct{}{}
 		// oneof names
 		oneofExists := map[string]struct{}{}
 
@@ -253,7 +251,6 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 					}
 					break
 				}
-				servers[t.Name.Name] = struct{}{}
 				// Exclude the {SVCNAME}_{METHOD}Server interface of a streaming
 				// method, it embeds grpc.ServerStream
 				if embedsInterface(t) {
@@ -333,10 +330,6 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 				if _, ok := oneofTypes[t.Name.Name]; ok {
 					break
 				}
-				// Unimplemented{SVCNAME}Server comes with a service
-				if _, ok := servers[strings.TrimPrefix(t.Name.Name, "Unimplemented")]; ok {
-					break
-				}
 				nmsg, err := NewMessage(t)
 				if err != nil {
 					return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
-- 
2.43.0


From 93f7c7816b56cf0541df3a0ebbbc27339a127a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 22/53] fix: do not panic on a handler whose params share one
 type

---
 gengokit/service/services.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index bb5912a..4e50a7c 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -185,7 +185,8 @@ func (m methodMap) pruneDecls(decls []ast.Decl, svcName string) []ast.Decl {
 // updateParams updates the second param of f to be `X`.(m.RequestType.Name).
 // func ProtoMethod(ctx context.Context, *pb.Old) ...-> func ProtoMethod(ctx context.Context, *pb.(m.RequestType.Name))...
 func updateParams(f *ast.FuncDecl, m *svcdef.ServiceMethod) {
-	if f.Type.Params.NumFields() != 2 {
+	// a, b *pb.TYPE is one entry of the list for two params
+	if len(f.Type.Params.List) != 2 || f.Type.Params.NumFields() != 2 {
 		log.WithField("Function", f.Name.Name).
 			Warn("Function params signature should be func NAME(ctx context.Context, in *pb.TYPE), cannot fix")
 		return
@@ -196,7 +197,7 @@ func updateParams(f *ast.FuncDecl, m *svcdef.ServiceMethod) {
 // updateResults updates the first result of f to be `X`.(m.ResponseType.Name).
 // func ProtoMethod(...) (*pb.Old, error) ->  func ProtoMethod(...) (*pb.(m.ResponseType.Name), error)
 func updateResults(f *ast.FuncDecl, m *svcdef.ServiceMethod) {
-	if f.Type.Results.NumFields() != 2 {
+	if f.Type.Results.NumFields() != 2 || len(f.Type.Results.List) != 2 {
 		log.WithField("Function", f.Name.Name).
 			Warn("Function results signature should be (*pb.TYPE, error), cannot fix")
 		return
@@ -252,7 +253,7 @@ func isValidFunc(f *ast.FuncDecl, m methodMap, svcName string) bool {
 // string of the recv type.
 //	func (s Foo) Test() {} -> "Foo"
 func recvTypeToString(recv *ast.FieldList) string {
-	if recv == nil ||
+	if recv == nil || len(recv.List) == 0 ||
 		recv.List[0].Type == nil {
 		log.Debug("Function has no reciever")
 		return ""
-- 
2.43.0


From 03470de5a0d8a2beca02a37be59c5537836894a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 23/53] fix: add missing handlers in the order of the
 definition

---
 gengokit/service/services.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index 4e50a7c..abf5db0 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -97,8 +97,13 @@ func (h *handler) Render(alias string, data *gengokit.Data) (io.Reader, error) {
 		return h.buffer()
 	}
 
-	for k, v := range h.mMap {
-		log.WithField("Method", k).
+	// in the order of the definition, not of the map
+	for _, m := range h.service.Methods {
+		v, ok := h.mMap[m.Name]
+		if !ok {
+			continue
+		}
+		log.WithField("Method", m.Name).
 			Info("Generating handler from rpc definition")
 		ex.Methods = append(ex.Methods, v)
 	}
-- 
2.43.0


From 8d66a3d30aeb246b4ae30a2ea6c4f61287b40830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 24/53] fix: exit with an error when the service cannot be read

---
 cmd/baron/main.go                     | 5 ++++-
 internal/parsesvcname/parsesvcname.go | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 77afc40..20c54e1 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -209,10 +209,13 @@ func parseInput() (*config.Config, error) {
 	// Service Path
 	// 生成代码在临时目录, 获取服务名称
 	svcName, err := parsesvcname.FromPaths(cfg.GoPath, cfg.DefPaths)
-	if err != nil {
+	if err == parsesvcname.ErrNoService {
 		log.Warnf("No valid service is defined; exiting now: %v", err)
 		return nil, nil
 	}
+	if err != nil {
+		return nil, errors.Wrap(err, "cannot get the service name")
+	}
 
 	svcName = strings.ToLower(svcName)
 
diff --git a/internal/parsesvcname/parsesvcname.go b/internal/parsesvcname/parsesvcname.go
index 084f0f3..ead10b6 100644
--- a/internal/parsesvcname/parsesvcname.go
+++ b/internal/parsesvcname/parsesvcname.go
@@ -13,6 +13,10 @@ import (
 	"github.com/teamlint/baron/svcdef"
 )
 
+// ErrNoService is returned when the definition files are sound but define no
+// service.
+var ErrNoService = errors.New("no service defined")
+
 // FromPaths accepts the paths of protobuf definition files and returns the
 // name of the service in that protobuf definition file.
 func FromPaths(gopath []string, protoDefPaths []string) (string, error) {
@@ -67,7 +71,7 @@ func FromPaths(gopath []string, protoDefPaths []string) (string, error) {
 	}
 
 	if sd.Service == nil {
-		return "", errors.New("no service defined")
+		return "", ErrNoService
 	}
 
 	return sd.Service.Name, nil
-- 
2.43.0


From f8d5b121b91e09d1ea7463d0171e20570600056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 25/53] fix: strip '.proto' from the end of a starter's name
 only

---
 internal/start/start.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/start/start.go b/internal/start/start.go
index fd0edee..ecc56fd 100644
--- a/internal/start/start.go
+++ b/internal/start/start.go
@@ -109,7 +109,7 @@ command to enter next time:
 
 For now this program is continuing as though you used '{{.Want}}'.
 `
-	want := strings.Replace(pkg, ".proto", "", -1)
+	want := strings.TrimSuffix(pkg, ".proto")
 	if strings.HasSuffix(pkg, ".proto") {
 		executor := struct{ Got, Want string }{pkg, want}
 		warn, err := renderTemplate("dotProtoInName", dotProtoInName, executor)
-- 
2.43.0


From 73afe0d6e565460da5a4377cb50fca30e762d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 26/53] fix: generate code that compiles for a service without
 unary rpcs

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 24 ++++++++-----------
 gengokit/template/template.go                 |  8 +++----
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 04ac98c..3baf5ea 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -135,13 +135,11 @@ func (e *Endpoints) WrapAllExcept(middleware endpoint.Middleware, excluded ...st
 		delete(included, ex)
 	}
 
-	for inc := range included {
-		{{- range $i := .Service.Methods}}
-			if inc == "{{$i.Name}}" {
-				e.{{$i.Name}}Endpoint = middleware(e.{{$i.Name}}Endpoint)
-			}
-		{{- end}}
-	}
+	{{- range $i := .Service.Methods}}
+		if _, ok := included["{{$i.Name}}"]; ok {
+			e.{{$i.Name}}Endpoint = middleware(e.{{$i.Name}}Endpoint)
+		}
+	{{- end}}
 }
 
 // LabeledMiddleware will get passed the endpoint name when passed to
@@ -167,13 +165,11 @@ func (e *Endpoints) WrapAllLabeledExcept(middleware func(string, endpoint.Endpoi
 		delete(included, ex)
 	}
 
-	for inc := range included {
-		{{- range $i := .Service.Methods}}
-			if inc == "{{$i.Name}}" {
-				e.{{$i.Name}}Endpoint = middleware("{{$i.Name}}", e.{{$i.Name}}Endpoint)
-			}
-		{{- end}}
-	}
+	{{- range $i := .Service.Methods}}
+		if _, ok := included["{{$i.Name}}"]; ok {
+			e.{{$i.Name}}Endpoint = middleware("{{$i.Name}}", e.{{$i.Name}}Endpoint)
+		}
+	{{- end}}
 }
 {{if eq .Config.Transport "all" "grpc" }}
 /************************************** GRPCServer ******************************************/
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index e258ccf..d0eb7e6 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (26.964kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (26.922kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\x1b\x39\x76\xf0\xb3\xf4\x2b\x38\x85\x99\xb1\xd4\x9f\xba\x34\x5f\x80\x04\x9b\x1e\x74\x00\x4f\xdb\x73\xd9\x1d\xdb\xbd\x76\x7b\x06\x88\x61\x78\x29\x15\x25\x71\xbb\xaa\x58\x26\x59\x7d\x59\xa5\x5f\xf2\xb2\x01\x12\x20\x40\x9e\xf2\x10\x2c\xf2\x94\xd7\x20\xcf\xf9\x3d\x3b\xc1\xfe\x8b\xe0\x9c\x43\xb2\x58\x52\x95\x2e\x9e\xd9\x60\x11\x64\x80\xc4\xea\x22\x79\x78\x78\x78\x78\xee\xe4\x4e\xa7\xec\x42\x65\x82\x2d\x45\x29\x34\xb7\x22\x63\xb3\x7b\x36\xe3\x5a\x95\x29\x7b\xf2\x82\x3d\x7f\x71\xc5\x9e\x3e\xf9\xe6\x2a\x1d\x4e\xa7\xec\xa5\xd0\x75\x59\xca\x72\x49\x1d\xd8\xad\xcc\x73\xa6\x6e\x84\xbe\xd5\xd2\x0a\x66\x57\xd2\xb0\x85\xcc\x05\x76\xfe\x4e\x68\x23\x55\x79\xc6\xd6\xeb\xd4\xfd\x7e\x78\x88\x1a\xd8\x13\x6e\x45\xdc\x0a\x7f\x3f\x3c\x0c\x87\x15\x9f\x5f\xf3\xa5\x80\x96\x4b\xfa\xf9\x9c\x17\xd8\x32\x9d\xb2\x2b\x3f\x07\x9b\xab\xd2\x72\x59\x1a\x56\x08\xbb\x52\x99\x61\x56\xb1\x82\x5f\x0b\x26\xcb\x4c\xde\xc8\xac\xe6\x39\x13\x65\x56\x29\x59\x5a\xc3\x16\x5a\x15\xcc\x08\x7d\x23\xe7\xc2\x4c\x00\x92\x16\xef\x6b\x61\x2c\xe3\x65\xc6\xb4\x30\x95\x2a\x8d\x60\xf6\xbe\x12\x08\x09\xba\xc2\x8a\x94\x11\x0d\x94\x09\xe3\x86\xdd\x8a\x3c\x87\x7f\x45\x39\x57\x99\xd0\x06\x00\x00\xbc\x4c\xb8\xbf\x17\x4a\xbb\x81\x08\x6d\x82\x1f\x38\x50\x6a\xc1\x54\xad\x99\xa9\xab\x4a\x69\xa0\xb4\xd5\xbc\x34\xf0\x1b\xa6\x93\x3c\x97\xbf\xe1\x56\xaa\x12\xa0\x2d\x94\x2e\xb8\x35\xe9\x70\x28\x0b\xec\x31\x1a\x0e\x92\xd9\xbd\x15\x26\x19\x0e\x12\x58\xbb\xb8\xb3\xf0\x13\xd1\x90\xe5\x72\xfa\x6b\xa3\x4a\xf8\xb0\x28\xf0\xbb\x54\xf4\xff\xa7\x52\xd5\x56\xe6\xf0\x47\x29\xec\x74\x65\x6d\xe5\x7f\xd7\x1a\x3f\x1b\xab\xe7\xaa\xbc\x71\x3f\x65\xb9\x34\xc9\x70\x38\x48\x96\xd2\xae\xea\x59\x3a\x57\xc5\x74\xa9\x4e\xaf\xa5\x9d\xc2\xff\x79\x5a\x24\xc3\x01\x2f\xef\xab\x19\x4b\x96\x4a\x2d\x73\x91\x2e\x55\xce\xcb\x65\xaa\xf4\x72\x5a\x69\x65\xd5\xac\x5e\x4c\x71\xfd\xd3\xeb\x52\xdd\x96\x53\xec\x9d\x0c\x07\x59\xad\x71\x91\x47\x0c\x6d\x86\x24\xc3\x81\x28\x2a\x7b\xcc\xbc\xae\x7f\x32\x1c\x2c\xa4\xc8\xb3\x82\x9b\xeb\x23\x46\x47\x63\x92\xe1\xc0\x58\x5d\xcf\xed\x11\xc3\xfd\x80\x64\x38\xb0\xb2\x10\xc6\xf2\xa2\x3a\x62\x78\x34\x26\x19\x0e\x6e\x35\xaf\x2a\xa1\xcd\x11\x00\x9a\x21\xdb\x5b\xaa\x65\x9e\xf3\x69\x51\xdf\x25\xed\x96\xea\x7a\x39\x15\x5a\x2b\x8d\x9c\xb6\x63\xa2\xc0\x79\xf8\xc5\xb3\xdf\x8e\x01\xf8\x03\x10\x59\xaf\x4f\x99\x5c\x30\xf1\x9e\xa5\x17\xaa\x5c\xc8\x65\x7a\x15\x4e\x42\xc2\xf3\x3c\x61\x49\xc9\xad\x49\xd8\xc3\x43\x1b\x37\xf8\x7a\x2a\x15\xfe\x9b\x2e\x81\xc3\x01\x94\x28\x33\xe8\x78\x00\xd4\xa5\xae\xe6\x1e\xea\x16\x9e\xd8\xd8\xdb\x32\x2d\x84\xe5\x19\xb7\x7c\x73\xd2\x83\xa7\x84\x5f\xcd\x89\xef\x39\x5f\xa1\x83\x47\x27\x9a\x0b\xce\xee\x11\x00\xdc\x51\x3f\x8a\xd8\xf0\xeb\x88\x29\x70\x60\x8c\xe3\x78\x38\x1c\xde\x70\x0d\xd2\xea\x1d\x3b\x67\x8b\xc2\xa6\xaf\x2a\x2d\x4b\x4b\x7f\xa3\x00\x4b\x2f\x54\x51\x71\x2d\xe8\x93\x93\x3e\xe9\x63\xab\x24\x7d\x69\x2d\x33\x7d\x2e\x6e\x5f\x81\x2c\xd6\xd4\x48\xd2\x2c\x7d\xae\xaa\x8b\x5c\x99\xe6\x6b\x7a\xa1\xaa\x7b\xfa\x83\x98\x37\xfd\x5e\xf3\x6a\x38\x98\x4e\x99\xdb\x4f\xcf\x86\x24\x95\xa1\x2b\x8a\xa4\xf4\x71\x89\xe3\x1a\x21\x93\x3e\x71\x3f\xe1\xb3\x13\x1f\xe9\x53\xf8\x17\x3e\xf8\x23\x9d\xbe\xc2\x1f\xf0\x29\x3a\xa6\xe9\x95\xff\x0d\x0d\xcd\xf1\x83\xde\xb2\x5c\x7e\xc7\xf3\x1a\xd7\x1d\xc9\x95\xf4\x4b\xf8\xfd\x8c\x9b\x6b\xa0\xde\xf4\xe4\xa0\xff\xd8\xd3\xa0\xd9\x0e\x1b\x00\xff\x4d\x51\x83\x7e\x53\x32\x4e\xea\x4d\x4f\x98\xb4\x8f\x0c\xab\x8d\x58\xd4\x39\xaa\xa9\x45\x5d\xce\x61\xe9\x86\xd9\x15\xb7\xac\x14\xa0\xa5\x14\x53\x15\xda\x06\x4c\xc1\xd8\x4a\xe8\x53\xaf\x06\x00\xe0\x8c\x1b\x69\x52\xf6\xa5\xd2\x4c\xdc\xf1\xa2\xca\xc5\x84\xdd\xab\x9a\x15\x72\xb9\xb2\xac\xe2\x06\x54\x64\x84\xb0\x55\x8c\x87\x89\x68\x9e\x4a\xab\xac\x9e\x0b\x03\xe0\x78\x89\x1c\x90\x7e\xcd\xcb\x2c\x07\x1c\x6f\xa5\x5d\x31\xc1\xe7\x2b\xa7\xe9\xd9\xc8\xcf\x3e\x66\xb7\x52\x8b\x8c\xd5\x15\x01\x35\x95\x98\xcb\x85\x9c\xb3\x8a\xdb\x55\xca\x46\xdf\x20\x7e\xd2\x00\xfc\x19\x9f\xe5\xf7\x8c\xb3\x42\x1a\x4b\x56\x02\xcb\x84\x91\xcb\x12\x86\xca\xf2\x46\x5d\x83\xba\x17\xec\x15\xd9\x08\xc1\xaa\x40\x14\x05\xc0\x69\x56\x40\x3c\x00\x20\x3c\x25\xd3\xf1\x70\x3a\x0d\xd4\x9d\xe7\x52\x94\xb6\x4d\x5d\xab\xd8\x5c\xe5\xb9\xc0\x71\xde\x40\xc9\xef\xc1\x8c\x21\x70\x22\x8b\xcc\x15\x59\xc2\x82\x00\xa0\x91\xe5\x32\x27\x53\x82\x68\x25\x81\xc2\x85\x40\x4a\x46\xf8\xca\xd2\x0a\xbd\xe0\x73\xd1\xb7\x13\x00\x2c\x4c\xd6\x6d\x24\xd5\x30\x19\x6b\x4b\x10\x38\x80\x17\x6e\x3d\x73\x55\xcc\x64\x89\x74\x2a\x1c\x8a\xd1\xc6\x4e\x9c\x29\x65\x6b\x5d\x32\x69\x61\xc5\x80\xe0\x9c\xe7\xb9\xd0\x60\x31\x71\x8f\x6c\x3a\xc4\xe5\x6c\x11\x74\x3d\x1c\xbc\x2e\xc3\xfa\x44\xb6\x5e\xa7\x7e\x04\x99\x80\x4e\x12\xac\xd7\x9a\x97\x4b\xc1\x3e\x96\xec\xec\x9c\x85\x3e\xcf\x68\xcb\x48\x2c\x7f\x2c\xdd\x18\x3f\x0b\x63\x2c\x2c\x35\xf5\x1f\x87\xeb\x35\x09\x2e\xb2\x2e\x03\x46\xfb\xa7\x00\x06\x66\xa3\x68\x11\x63\x16\x4d\x3a\x9a\xdb\x3b\xe6\xac\x34\x10\xbb\xf0\xef\x04\x18\xe6\x64\xbd\xfe\x4a\x41\x1f\xf6\xb1\x4c\x5f\x92\x09\x7a\x75\x5f\xf9\x05\x8e\xd9\x68\xa3\x07\x19\xa6\x51\x97\x09\x09\xb8\x31\x50\xcb\xdb\xad\xf8\x0d\x10\x15\x69\xc7\xca\x01\x19\x98\x7c\x3c\x1c\x80\x22\xd0\x9a\x7d\x74\xce\x4a\x99\x03\x84\x81\xdb\xaf\x52\xe6\x08\x64\x38\x78\x18\xfa\x6f\x1e\x7a\xba\x17\xa7\xf1\x04\x00\x0c\x1f\x02\x39\x81\x98\xcf\xe0\x98\xc5\x14\xc5\x83\xfc\xb1\x15\x48\xd1\x07\xe8\x7c\xca\x62\x2a\x7f\x6c\x45\x1f\xa1\x01\x56\xd7\xca\x0c\x10\x3d\x1a\x16\xb3\xc9\x78\x7b\xbb\x89\x66\xb8\x38\x00\xdb\xbd\x4b\xde\x31\x08\x27\x6a\x0d\xdb\x12\x5c\x84\xe8\x33\x91\xbd\xd9\x8e\x81\x16\xef\x61\x21\x0e\xc2\x16\xdd\xb6\x76\x7b\x38\x18\xdc\x84\xbd\x33\xe9\x06\x03\x21\x2a\xd0\x67\x7b\xd7\xb6\xb7\x0d\xf6\xcd\x7f\xbd\xa1\xed\x18\x3c\x0c\x89\xc8\xb4\x27\xf1\xde\x80\x72\x7c\x9c\xe7\x4f\xef\xe6\xa2\xb2\xa8\xa7\x0c\x89\xd8\x40\x29\xd4\x50\xe0\xb2\xb8\xb3\xd9\x1c\x56\xdc\x46\x94\x4d\x1d\x7e\x41\xfa\x4c\x66\x59\x2e\x6e\xb9\x26\x2f\xf0\xb5\xf1\x7e\x21\x38\x41\x55\x95\xdf\x83\x88\x01\xb1\x69\x01\x78\x11\x7a\xa3\x5e\x10\x37\x42\xdf\x87\x6d\x83\xf3\x02\x12\xc4\x78\xa9\x31\x9d\xb2\x17\x15\x68\x0d\x90\x9c\x93\x48\x70\xcd\x79\xc9\x66\x02\x75\x8d\xc8\x60\xd8\xec\x9e\x95\x40\x76\xab\xe0\xbb\xb8\x9b\xe7\x75\x26\x32\xf2\x02\x67\x02\x50\x20\xdd\x9c\xa5\x5b\xd4\x18\x35\x38\x4d\x58\xf2\xca\x72\x5b\x9b\x64\xc2\x92\x4b\x59\x2e\x93\x71\x38\xf7\x27\xd1\xc1\xef\x1b\xcf\x3a\xa8\x32\x69\xb0\x49\xd3\x94\x1c\x2e\x64\x1e\x59\xba\xcf\x67\xe7\xac\xe0\xd5\x1b\x6a\x7a\x4b\xe4\x5f\x3f\xc0\xae\x6f\x1e\x98\x2e\xc9\x37\x18\x24\x11\x1b\x25\x67\x6c\xfd\x30\x71\x43\x9d\x19\xf9\x30\x1c\x0e\x60\x37\xde\x01\x2a\xc8\xae\x08\x32\xa0\xb5\x26\x8e\x7b\x37\x61\xea\x1a\x9a\x3d\x62\x6f\xc4\xdd\xdb\xcf\xd9\x47\xea\x9a\x38\xb0\xe2\xa5\x9c\x8f\x1a\x0b\x6f\x31\x4a\x9e\x7a\x10\x61\x07\x1f\x7d\x62\x1e\xb1\x4c\x09\xc3\x4a\x65\x99\xb8\x93\xc6\x7e\xce\x8c\x10\xf1\xc6\x07\xde\x41\x93\x1e\x90\x1a\x8f\x1d\x3f\x67\x22\x17\x56\x8c\x3c\x06\xd8\xd6\x2c\x40\x96\xf3\x06\xfd\x40\xbe\xc3\x09\x25\x17\x08\xe2\xfc\x9c\xb5\x48\x46\xcb\x1b\x74\x8a\x52\x76\x1e\x61\x3e\xea\xec\x02\xb8\x23\xf2\x2d\x92\xd3\xb1\xfb\x96\xcf\x44\x2e\xb2\x86\x1b\x28\x84\xb2\x14\xd6\xf3\x2e\xf0\x7b\xa0\x1e\xb2\xf0\xed\x4a\x94\xa1\x55\x45\xec\xea\x80\x11\xd7\x4d\xe8\x94\xb9\x83\x50\x53\x67\x46\x71\x19\x4e\xc1\x1d\x39\x07\xa3\x46\xcb\x39\x9a\x59\x11\x97\xde\xae\xe4\x7c\x85\x43\x8d\x28\xbb\x50\x70\x9a\xdc\x8d\xf6\x76\x8c\xd2\x4e\x8f\x6f\xaf\x0a\x85\x2b\x31\xf0\x64\x5b\x0a\x77\x08\xe6\x61\xdf\xba\x3e\x58\x36\x6d\x21\x35\x71\xeb\x44\x8a\x6b\x31\x17\xf2\x86\x2c\x3e\x5c\xa2\x5a\xb4\xd6\x9d\xb2\x57\x42\x04\x30\x11\x14\x6c\xf0\x86\x68\x38\xf7\x80\x28\x70\x64\x26\x2c\x97\x39\x1a\x8d\xfe\x38\x61\x30\xc7\x19\xbb\x3c\x97\xf6\x3e\xdd\x25\x42\x5a\x6b\x8f\x25\xc9\xd1\x14\xfd\x3f\x39\xf3\xbf\x47\xce\xb4\x86\x4d\xba\x8d\xbc\x3e\xb1\x73\x78\x80\xe2\x50\xd7\xf3\xab\x97\x97\x17\x64\x61\x1d\xed\x7b\x82\x19\x17\x0d\x2f\xf8\xb5\x30\x8d\x31\xd0\xe8\x73\x7e\xc3\x65\xce\x67\xb9\x20\xb7\x61\xf9\xf2\xf2\x82\xf5\x38\x03\x69\x63\x20\x36\x90\x47\x0d\xa8\xc8\x3d\x51\x15\xb9\xb6\x69\x9a\xb6\x62\x31\x29\x0d\x22\xd3\x62\xdc\x37\x11\x6c\x97\x89\x3a\x1a\xd8\xf0\x37\x6f\xfb\x21\xc1\xf6\x76\xb5\x7e\x21\x16\x4a\x8b\x11\x60\xfb\xcc\xc5\x94\xae\x94\xb3\x3e\xc7\x13\x34\xc0\xdb\xf3\x9c\x83\xe1\x24\xca\x6c\xd4\xfa\x1c\xd6\x93\xa6\xe9\x18\x03\x1d\xeb\x35\xbb\x52\xdf\xaa\x5b\xa1\x59\x6b\x05\x18\xd9\x71\xa6\xe1\xa7\x80\x11\xe1\xb1\x06\x37\x69\x2f\xf7\xae\xd7\x1e\x66\x60\xb9\x33\xd6\x5e\x56\x08\xd1\x8c\x80\x07\x9b\x53\xd6\xc1\xa5\x20\x22\x06\x4f\x30\x52\x0e\xeb\x8f\x7a\x38\xeb\x18\x3b\x3c\x2d\x3b\x3b\x38\x5f\x07\x7a\xb4\x28\x91\xa6\x29\x7c\x04\xda\x75\xe8\xdc\x66\xc1\x9b\xae\x73\x30\xce\xbb\xf7\x3b\x18\xfa\xa4\xe5\x22\x38\x7f\x04\x77\x75\x8b\xc8\x8c\x6d\x50\xd9\xc5\x43\x22\x83\xde\xb9\x59\x2e\x50\x01\x92\x2a\xc2\xd1\xaa\x66\xb9\x87\xaf\xf4\x40\xb7\xd7\xb0\x93\x66\xaa\x31\x8b\xbd\x9c\x5d\xfe\x2f\xb8\x47\x3f\xad\x03\xfc\x0e\x80\x56\x2d\x17\x6a\x8b\x92\x74\xec\x80\x9b\x62\xa7\xea\x48\x4f\xb8\xfa\x40\x27\xd8\x51\x98\x58\x7e\x3f\x79\xa7\x53\xb6\xeb\x74\x30\x09\xe2\xb0\x1d\x23\x4e\x69\x80\xeb\xf1\x25\xec\x0f\xc6\x89\xe6\xaa\xbc\x11\x1a\x84\x29\x9e\x02\x12\xa1\xdb\x6c\xe6\xbd\x5d\x0c\xa0\xd5\x46\xe8\xd3\x4c\x15\x5c\x96\xbb\x3a\xa7\xec\x52\xcb\x82\x6b\x99\xdf\xfb\xf0\x56\x1c\x0b\x23\x26\xd9\xb5\x8e\xd1\xbb\x6d\xe6\x80\xb5\xbc\x14\xef\x37\xdc\xee\x4d\x6f\x3b\x04\x3e\xd0\xd1\x76\x63\x0e\x71\xb4\xc3\x4e\xbe\xdf\xb1\x4d\x24\x78\x0e\xda\xa6\x9d\x32\xaa\x73\x9f\x68\x84\xef\xd2\xb7\x51\xfb\xb7\xc0\xa7\x2a\x55\xa3\x19\xbb\xba\x55\xf9\xfd\x41\xfb\xb4\x73\x21\x5d\x1b\xd5\x15\x09\xd9\xb5\x53\xa6\xa2\x98\xc8\xc1\xc1\xa4\x56\x00\xaa\x6b\xb7\xbe\x16\x79\x25\xb4\x19\xd2\x02\x3a\x15\x69\xb7\x00\x2a\x32\xe6\xd3\x38\xe9\xb3\x27\xe3\xcd\x0e\x80\x2f\x88\xd1\xeb\x09\xbb\x69\x2c\xbe\x22\x98\xaa\x37\xad\x10\x0c\x66\xa3\x05\xbb\x16\xf7\xb8\xdd\x19\x18\x85\x33\x65\x57\x40\x63\x3f\x8b\xcb\xe3\xb2\xd1\xf5\xd8\xb9\x1f\xd0\x35\xcf\x59\x0e\xfb\xe5\xa0\x70\xe7\x74\x61\xb8\xf5\x82\x97\xaa\x94\x73\x9e\x7f\x2d\x78\x26\xf4\x2f\xc4\xbd\xf7\x4d\x60\x22\xa3\x5c\x10\xd8\x3a\x57\xcf\x83\x98\xcf\x85\x8f\x7d\x08\x69\x57\x42\xbb\x99\xa1\x1d\x48\x71\x1e\xd6\xfa\xbd\xb4\x2b\xcc\x43\x90\x34\x84\xb5\xbe\xf9\xec\xed\x78\x6f\xc7\x1e\xec\x46\xd7\xe3\x06\x82\xb3\xfa\xdd\xf6\xcd\xed\x1d\xea\xa8\x23\xec\x4a\x8a\x34\x1f\x6d\x57\x3e\x17\xb7\xd1\x68\x9a\x1e\xb3\x0e\x2e\x74\xc4\x66\x7c\x7e\x4d\xa5\x0d\xee\xcc\x50\x88\x1e\xd6\x5a\x0a\xf4\xcd\x52\xf6\x0d\x8a\x57\x17\xec\x77\xec\x2a\x67\x12\x7c\x36\xbf\x05\x2e\x96\x6d\x15\xcb\x24\xcf\x29\xe0\x9d\x73\x2b\x34\x9b\xe7\xca\x88\x09\x75\x6a\x60\x12\x83\xb6\xb0\x1b\x41\x33\xa9\xcf\x94\xbe\x5c\xa8\xb2\xdc\x61\x9c\x52\x27\x6f\x9c\x8e\x7a\x8c\x8c\xf8\xc8\x81\x85\xb0\x19\x6b\x1d\x44\x5f\xab\xeb\x25\x1e\x3f\x17\x72\x6d\x17\x59\x0c\xb6\xbd\x9a\xee\xb8\xec\xe0\x86\xeb\x2e\xd1\x13\x5c\x98\x6d\x27\x7f\xb0\xee\x36\x28\x23\xaf\x67\xcb\xb2\x74\x54\x43\xf6\x04\x42\x79\xcf\xd3\x2d\xe2\xe1\x21\xed\x8a\x00\x27\x93\x2d\x0f\x75\x97\x65\xd9\x98\x9e\x3d\x5a\x2b\x32\x3d\xf7\x48\x2f\x72\x83\x07\xaa\x6d\x9a\x06\x1a\x8c\xd0\xaf\x44\x30\xce\x4e\x6d\x7e\x05\x11\xe7\x0f\x50\xf0\x5d\xf6\x9a\xea\xec\xd4\x81\xda\xa2\xe9\x19\x63\x6c\xd7\x36\x4d\x9a\x79\x07\x0f\x5e\xd8\xc2\x09\x00\x1a\x30\x77\xa2\x7e\xbc\xf9\xb2\x43\x2f\x7a\xfb\x65\xb7\x5e\xdc\xad\xe9\x0e\x35\x5f\x9c\x0e\xea\xd1\x8b\x24\x14\x76\xdb\x2f\xfd\x7a\x91\x8c\x11\x40\xe6\x40\xc5\x08\x5d\x83\x11\x03\xea\xfa\x28\xd5\x58\xe5\xf7\x5d\xba\x31\xde\xb6\x1f\x6f\xce\xf4\x5b\x9d\xde\x9a\xd9\x69\x75\x1e\x68\x4f\xee\xb5\x65\x76\x5a\x9d\xad\x5d\xdb\xb5\x8e\x6e\x63\xa6\x2b\xd9\xb3\xdb\xea\x3c\x22\xbd\xb3\xdb\xea\x74\x58\xa0\x92\x35\x57\x2a\x36\x64\x88\xe6\x5d\x9a\x20\x22\x39\x2d\x79\x07\x94\xd1\xb5\xb8\x37\xec\xcd\x5b\x1f\xfe\xdb\x03\xef\xa0\xf4\x58\x91\xb1\x93\x7d\x46\x14\xea\x86\x8a\x4b\xdd\x4c\x3e\x1c\xf8\x60\xe0\x75\x63\x5a\x21\x7a\x6b\x17\x23\xbb\xf1\x81\xc0\xb9\xbd\x4b\xc9\xf0\xb8\x1e\xa7\x2e\xe8\x39\xfe\x9c\xf9\x80\xe0\x80\x00\x87\xa8\x08\xfe\x49\x86\x4c\x08\x82\x81\x10\x05\x98\xd4\x35\xb6\xda\x4e\x8a\x8c\x9d\x37\x56\xe0\xcf\x95\x2c\x47\x27\x45\x36\x69\x3e\x5d\xc2\x18\x82\x9a\xa6\xa9\x8b\x11\x36\xfe\x21\x58\x35\x2e\xb2\x46\x3b\x79\xa8\x7d\xf3\xf5\xd5\xd5\xe5\x87\xc4\xcd\x30\x69\x4f\x54\x2e\x91\xbd\xd8\x39\x4b\x78\x55\xe5\x72\x8e\x65\x2a\x58\xf9\xf7\x39\x9b\xaf\xb8\x36\xc2\x9e\xd7\x76\x71\xfa\xb3\x24\x84\xdb\x60\x56\x17\x3a\x68\x0c\x23\xb6\x72\x5f\xf0\xcc\xee\x0f\xc3\x01\x30\x55\xb2\x4a\x8b\x4c\x2c\x64\x29\x32\xac\xb0\x30\x51\xec\x2d\x9a\x66\x6f\xf0\xad\x5d\xe0\xd3\x0e\xbe\xc5\xa5\x1f\xde\x96\x91\x0b\x96\x22\x7c\x34\xfb\x5b\xd1\xa9\x8e\x80\x5c\x3f\x74\xdc\xff\xae\x66\x17\x91\xa3\x39\xc0\xae\x35\xad\x80\x5c\xf7\xa0\xa7\x20\x16\x48\xdc\xe8\x91\x88\xfe\xe8\x1f\xf2\x78\x61\x85\x1e\x6d\xb6\xd8\x8b\x66\x6b\x47\xd1\x36\x8f\x11\xd0\xf6\x2a\x0f\x0a\x07\xba\x28\x11\x86\xfe\x0a\x0c\xf5\xd7\x77\x60\x4e\xbd\x54\x35\xe0\x30\x1e\x46\x16\x85\xcb\x66\x80\x6e\xe8\x21\x73\xe8\x3a\x93\x65\x26\xcb\x25\x5a\x85\x34\x2c\xfd\x82\x3e\xb9\x58\x77\xe1\xc7\x61\xd0\xda\x75\x4f\xbf\x13\x7a\xc6\xfe\x86\x5d\xa9\xd7\x55\x25\xf4\xc3\x43\x32\x4e\x2f\xb9\x5d\xb5\xfa\xc0\x87\x2b\x51\x54\x39\x96\x01\x27\x63\xcf\x05\xa3\x9e\x7a\xb0\x11\x45\xcf\xe3\x68\xa3\xc3\xa8\x23\xe4\xe8\xec\x3a\x58\x5e\x34\x25\x66\x5b\xda\xf6\x9f\xb3\x10\xa1\xe3\x57\x94\x34\x6b\x19\x7f\x9d\x81\xc7\x01\xca\x88\x8d\x4a\x44\xf7\xd3\x09\x8d\xc2\x17\x98\x44\x7c\x42\xd9\x39\x0a\x45\x22\xff\xf8\x3c\x9b\x9f\xf1\x7b\x68\xd7\x13\xf0\x5a\x32\xb1\xe0\x75\x6e\x41\xdb\x11\x83\x00\x30\x0c\x4b\xaa\x05\xdb\x94\x05\x13\xc6\xd9\x4c\x65\xe8\xb5\xc0\xdf\x64\xf6\x83\xfb\x98\xe0\x3c\x49\xf0\x38\x6f\xb0\x1e\x6d\x3a\xa5\xf9\x53\xc4\x6e\x34\x26\xbf\x86\x33\x83\xb9\x6f\x06\xc8\x02\xa8\x3f\xff\xec\xb3\x94\x7d\xb3\x88\xf0\x8d\xe2\xa9\x74\x6e\x84\xc6\xd2\x6a\xe8\x51\x69\x75\x23\xc1\x25\x5e\xd1\x89\xa2\xbc\xdb\x4c\x10\xb6\x94\x9e\x84\x7e\x8d\x4d\x16\x83\xc6\xba\xad\x06\x3a\xac\x22\x7d\xc6\xb5\x59\x71\x2c\x09\xf3\xf8\x17\xf4\x09\x38\xd2\xd4\xf3\xb9\x10\x99\x21\x1f\xec\xe7\xaf\x5e\x3c\x77\x15\xda\x99\x2f\xa7\x0e\x39\x3e\xc4\xdd\xa3\x53\x1b\x91\xf5\x2f\x8b\xd2\xff\x17\xb0\x5d\x13\xef\x1a\x86\x95\x35\x8d\x2d\x68\x4c\x96\xc6\x0a\x9e\x79\x9a\x91\x90\x8c\x25\x44\x97\x21\x12\x2a\x49\x26\xec\x96\xa4\x60\x9b\x0d\xd0\x00\x81\x5d\x9d\xb0\x77\x70\xfc\x62\x92\x90\xf8\xf9\x9e\xaa\x0d\xd7\xb8\x8b\x67\x00\xcc\x6f\xe8\x03\xc5\x3b\x8b\x86\x80\xa4\x68\xa1\xcb\xa8\x4d\xdb\x46\xcf\x4a\x62\x9e\x2f\x70\x4a\x37\xf4\x29\x85\x59\x03\x20\x3f\x0e\xc8\x3d\x1a\x7f\x1e\x77\x3b\x8f\x74\x2e\x32\xe3\x79\x00\xe7\x03\x05\x83\xdb\x94\xd8\x66\x34\x06\x31\x38\x4a\x9c\x20\x3c\x05\xe9\x97\x4c\x62\x95\x47\x0b\x58\x79\x26\x8b\xf1\x6f\x8b\x07\xcf\x87\xcd\x3a\x30\xa0\xd3\x98\x1c\x1e\x86\xeb\x69\x46\x54\xb9\xb3\x89\xcb\xf5\xa4\xa3\x67\xfa\x15\xb4\x8c\x43\xa4\x63\x80\x47\xe3\x8c\x4a\x56\x53\x62\x87\x6f\xc0\x74\x2c\x79\x1e\x29\x09\xc4\xdd\xcc\x77\x60\x1d\xb1\x59\x83\x38\x02\x3f\x67\x66\x1e\x35\x3b\xf7\xf1\x36\x45\xa6\x70\x18\x43\xc7\x71\xf8\x38\x02\x6a\x8f\x41\xde\x34\x7c\x47\xd2\x4f\x8f\x66\xf5\x82\xbd\x79\x3b\xbb\xb7\x62\xec\x78\x7d\x4d\x7e\xfc\x2d\x8b\x59\x28\x44\xc7\x3d\x9f\xbd\x2e\xdd\xce\x02\x84\x09\xfb\xf4\x76\xfc\xf9\x66\xf4\x9c\xac\x14\x23\x7f\x03\x38\xff\xec\xff\xff\xe5\x5f\x10\x0b\xe5\xa2\x84\x31\x63\xf6\x57\xd4\x46\xfc\x50\x2f\xd8\x39\x9b\xd5\x8b\x37\x67\xf0\xf1\x6d\xbb\x7a\x69\x51\x58\x62\xdc\xc5\x28\x09\xb1\x46\x64\xa1\x47\x9f\x98\x47\x67\x6c\xce\xcb\x52\x59\x56\x81\xb9\xc3\x4a\x55\x9e\xa2\x8c\xf3\x86\x3c\x74\x4c\x26\x00\x7c\xdc\x0a\x46\xb9\xaa\xe0\xe7\xe2\x76\x74\x4b\xe0\x91\x46\x28\x43\xe3\xb5\x47\xc9\x1d\xec\xc5\xc8\xfe\x64\xbf\x82\x59\xce\x9c\x00\xfd\x95\x13\xe7\xb0\x8b\xae\x17\xb7\xd2\x2c\xa4\x13\xe7\x9e\x0b\x51\x50\x45\x9b\xdb\xb8\x19\x86\x49\xbc\xe7\xe1\x2f\xbb\x1c\x52\xcc\xed\xca\x2d\xa2\x49\x03\xaa\x24\x34\x07\xa6\x91\x48\x18\x6f\xf1\xb2\x97\xb1\x38\xd5\x1f\x4c\x72\xcf\x23\xa3\x55\x03\x74\xcc\x62\x6e\x63\xed\xa2\xb9\x55\xda\xcc\xd0\x33\xba\x39\x56\x64\xca\xe1\x9f\x2d\x10\x0e\xa9\xe1\xce\x04\xc9\x5e\x9b\x24\x0a\x52\xed\x31\x4a\x42\x50\x62\xa7\xf6\xdf\x74\x72\x11\xfb\xee\xd4\x0a\x82\xa4\xeb\x3e\x30\x06\x84\xdf\xa9\xd3\x35\xb1\xff\xda\x18\x36\x1a\xfc\xd3\x0d\x97\x17\x4b\xd1\x90\x57\xae\xae\x2e\xfd\x57\x84\x0c\x1c\xbc\x2f\x72\x3f\x88\x42\x14\x3b\x97\xd5\xe9\xf3\xb2\x13\xa7\x60\xb0\x4b\xbf\xbf\x3b\xc8\xc4\x02\xdc\x86\x14\xa4\x76\x8a\x05\xf7\xa3\xb1\xf3\xee\xc0\x17\x6e\xdc\xdf\x8d\xb5\x46\xbe\x30\x9a\x85\x28\x35\x9c\x40\x71\x15\xfc\x2f\x05\xcf\x1e\xe7\xf9\x88\x80\x1f\x56\xe5\xe8\xcb\xfa\x17\xa0\xf0\x26\x2c\x71\x92\x40\x83\xb2\xf5\x06\x0f\xac\xcc\x93\x33\xf1\xf5\x1d\x6d\x41\xf4\x19\x01\xaf\xbd\x50\x03\x57\xe3\xec\x9c\x85\x6b\x2c\x8d\xb8\x73\x76\x1e\xb9\x9d\x8f\xf3\x5c\xdd\x5e\x72\x6d\x25\xcf\xcf\x18\x63\x56\xd7\xce\x28\x7c\x22\xcd\x9c\xeb\xec\x75\x89\xb7\x6e\xce\x9a\x16\x5f\xfe\x01\xeb\x3a\x67\xf1\x84\x5b\x22\x55\x8b\xf7\xdb\x42\xb5\x5b\xac\xf6\x0b\xd6\x4e\xd1\xea\xd0\x68\x11\x33\x1c\xd8\x75\x07\x59\x63\x51\x7a\xac\xcc\x25\x82\x0c\x22\x85\xf8\x05\xcf\x5a\x06\xf6\x00\x10\x68\xd0\x0a\xde\x3a\x78\x94\x97\x5c\xf3\xc2\x78\x77\xe5\x3b\xae\xcd\x48\xc3\x1e\xbe\x63\xe7\xac\x69\x87\xde\xef\x6b\xa1\xef\x9b\xee\x3a\x7d\xfd\xf2\xdb\xf4\x97\xf0\x71\xe4\x07\x44\x5d\x86\xb1\x0f\x43\xd5\x63\x20\x2c\x3c\xd7\xe2\x0d\x0c\xe3\x83\xdf\x72\xc1\x4a\xdf\x2d\xfd\x56\x91\x61\xcd\x12\x5c\x24\xf5\x19\xac\xd7\xae\xf9\x2b\x51\xe2\xa4\x61\x37\xc1\xbb\xe9\x0e\xef\xee\x46\xe1\x45\x29\xd4\x62\x0b\x0f\xf1\x7e\x1b\x0f\x5c\xd6\x8f\x41\x24\x70\xc2\xa7\x18\x96\xf2\xa9\x6e\xef\x31\x9e\x6e\x94\x0a\xf7\x3a\x44\x9d\x12\xb3\x2f\xc9\x49\xf2\xd1\x78\xef\x20\xe8\x75\x6e\xc8\x56\xdf\xf0\x06\xc8\x37\xd2\x47\x24\x30\x3b\x10\xec\x92\x7d\x9d\xb6\x75\x5f\x4e\x33\x98\x48\x7d\x82\xe2\xd9\x96\x98\xd8\x14\x12\x41\x16\xbc\x36\xe2\x12\xc6\x81\xbc\x34\x67\xed\x86\xa7\x65\x5d\x3c\xaf\x8b\x99\xd0\xd0\xe2\x1b\x9e\x16\xd2\xbe\x2e\x2b\x55\xd5\xe0\x12\x67\x41\xac\x3c\x0c\x5b\xf2\x34\x92\x29\xde\x1d\x68\x72\xad\x88\x6a\xfa\x4c\x18\xc3\x97\x62\xbc\xab\xec\xc1\xb3\xc1\xbb\x89\x93\x56\xc1\x9c\x44\x4b\x2a\xea\x15\xe7\x60\x9b\x0b\x43\xce\x18\xe8\x8a\xa1\xf4\x14\x83\x6c\x6a\xa1\xbe\x64\x6c\x63\xbb\xeb\xc8\x9c\xd8\x99\x7e\x45\x25\xb0\x95\x7a\x5d\x71\xc3\x56\x3c\xa3\xb1\x7d\xc9\x56\x4c\xf1\x65\x4c\xe1\x15\x16\x59\x46\x77\x74\xa3\xbb\xbf\xe0\x09\x22\x14\x77\x61\x36\xf5\x4a\x3f\xe4\x78\x81\x99\x97\xba\x9a\x6f\x65\x82\x5b\xc9\x5c\x02\xd2\xce\xe8\xee\xcc\xe5\xee\x4b\xe5\x7a\x0a\x45\x9e\xca\xce\x21\x1b\xf8\x63\x32\x77\x1b\x06\x08\x2f\x20\x77\x5d\x8a\xe6\x8e\xd5\x7c\x05\x7b\x92\x62\x0b\xcf\x8d\x82\x2d\x70\x67\x98\xb4\x42\xad\xf3\xe1\xee\xd9\xbd\xa6\x39\xad\x75\x9e\x4c\x9c\x10\xbf\xe4\x76\x35\xde\x37\x30\xec\x4a\x32\x61\x09\xf0\x1c\x08\x91\x64\xfc\xc1\xb9\x67\x00\xf1\xe1\xb9\xe7\x68\x74\x13\x62\xed\x48\x3d\x97\x64\xec\x91\xf4\x62\xb9\xbc\xc1\xbb\x10\xd6\x51\xad\x50\x16\xe3\x0b\xb2\x34\x96\x97\x73\x91\xb2\xef\x05\x13\x77\x15\x5d\x19\xa3\x6f\x74\x8d\xac\x10\x64\x3e\x36\x93\x64\xd2\xcc\x15\x5e\x9e\x30\xf7\xc6\x8a\x62\x02\xcc\x35\x9d\xb2\x5c\x5e\x8b\x3c\xa4\xaf\x31\x0a\x92\xac\x94\xb1\x67\x48\xbb\x26\x3f\xdd\xac\x60\x14\xa6\xf2\xd5\xc6\xbd\x91\xdb\xe3\x33\xd3\x72\xc1\x3e\xf2\x2c\xf7\x35\x37\x97\x5a\x2c\xe4\x5d\x98\x71\xc2\x12\xbc\xb3\x4a\xb6\x67\xc0\xe3\x9c\x3e\x9f\x4d\xa7\x09\xfb\x7f\x81\x12\x28\xac\xea\x20\x05\x6b\x9d\x83\xf1\x69\x44\x80\x76\x70\x8d\x17\xd8\x0a\xf5\xd0\x5d\xe5\x05\x2b\xa7\xc3\xe3\x70\xf9\x55\xaa\x45\x4e\x9e\x2b\xda\xc8\x28\xbc\x4d\xd5\xf7\xc4\x03\x18\x0c\x02\x40\xb7\x4a\x5f\x4f\x18\x85\xcc\x99\xd3\xf4\xe0\xf8\xb1\x7b\x55\x6b\x52\x23\xd4\x2a\x81\x84\xc9\x38\x8e\x1c\x1e\x19\x9f\x65\x72\xb1\xe5\xfc\x38\xa4\xa1\x95\x12\xff\x91\xa3\x24\xcb\x4c\xdc\x6d\x8f\xf8\xcc\x8f\x71\xd9\xfd\x4d\xaf\x62\x57\x72\x1f\x66\x22\x0b\x6f\xc7\xb8\x8e\xeb\xbd\x51\x86\xdf\xe5\xec\x7b\xc3\xc6\xce\x82\x1c\xcc\x55\x75\xff\xfa\xe5\xb7\xa3\x7a\xc2\xe2\xfe\x5f\x70\x23\x40\x7c\x3c\x3c\x24\xde\x10\x8d\xe2\xb9\x7b\x02\xbf\x1b\x31\xe2\x56\x2c\xb9\x1d\x03\xde\xcc\xee\x0f\x36\x13\xfc\xde\xb6\x8d\xe2\xc0\xdd\xe1\xe1\xdd\x99\xfe\x9d\xfb\x1e\x32\xfe\x3f\xf9\xce\xf7\x05\xd2\x5d\x25\x41\xdf\xd6\x4e\x36\xad\xcd\xae\x70\x78\x53\x61\x80\x92\xc7\xef\xe3\x8c\x1b\xc1\x4e\xe0\x0c\xbf\x7e\xf9\xed\x04\x4d\x7d\xe6\x73\x96\xfe\x33\x9c\xdf\x12\xec\x82\xb3\x73\x76\x02\x03\xe8\x4f\xd4\x17\xce\x3d\x68\xaa\x9c\xa1\xc5\x19\x2a\x17\xf6\xce\xa7\x46\x5f\x81\x7d\x3b\xc7\x3a\xf8\x5a\xbb\x50\x0d\x9a\x0a\xee\xe0\x5a\xc5\xaa\x3a\xcf\xe9\xd2\x19\xe9\x39\x91\x51\x92\x52\xd5\xa0\xba\xbd\xf9\xea\xd4\x12\xc5\xc9\x49\xed\x15\xde\x84\x8d\x1d\x50\xb0\x15\x5c\xb8\x23\x65\xec\xb9\xb2\xee\x0e\x2f\x80\x04\x58\x28\x29\x56\xfc\x46\x30\xff\x36\xc7\x6e\x93\x04\xe7\x99\x61\xb6\xca\x5d\x63\xc3\x1b\x3b\x20\xf9\x3d\x6a\xb7\x52\x0b\x17\x1f\xe7\xbe\xa0\x89\x04\xbf\x5d\x89\xfb\x26\x0a\x1f\x2a\xec\xa3\x4b\x76\x42\x07\x85\xeb\x52\xcb\x6d\xda\x51\x3a\x39\xba\x4e\xd2\xaf\x0f\xe2\x88\x4f\x47\x27\x97\x71\xdb\x71\x09\xf3\x00\xeb\xf0\x27\x4b\x28\x07\x8b\xc7\x45\x7e\xe3\x3c\xf2\x46\xde\x17\x83\x86\x68\xff\x82\x02\xe8\x29\x8f\xd9\x2b\xb0\x37\x43\x52\x9d\xc2\x66\x67\x44\x6a\xd3\xbf\x72\xe1\x28\xb2\xc6\x36\x43\x52\x3e\x4a\xe3\xa6\x89\x0b\x4b\xe2\x8a\xd2\xcd\x90\x54\x14\x7a\x25\x33\xcf\x65\x49\x42\xcb\x0a\x6f\x67\x94\xaa\x3c\xfd\xb3\xcf\x3e\x8b\xd3\x45\x13\x76\xeb\x72\x22\xe8\x4f\x55\x5a\x58\x42\x13\x06\x94\x08\x8b\x7c\x2b\x3c\x40\xd6\x8a\xa2\xc2\xd3\x47\xab\x88\xcf\x9f\x0b\x60\xb3\x82\x5c\x98\x06\x47\x8f\xc4\xde\x90\x99\x2f\x0f\xe9\x08\x99\x75\x92\x7d\x77\xc4\x8c\xfa\x1c\x1f\x32\x3b\x26\x02\x76\x8e\x0f\x5a\x3c\x7d\xf1\x65\x6f\x10\xec\xb9\xb8\x8d\x62\xe3\x28\x71\x30\x58\x83\xaf\x55\xc4\x51\xaf\x03\x03\x6a\x1d\xf1\xb4\x00\x34\x19\x47\xf5\x14\x3a\xca\x45\x00\xe0\x28\xce\xf3\xe2\x17\xfb\x63\x76\xad\x4c\xc4\x78\xc2\x92\x88\x67\xce\xd8\xa3\x4f\xb2\x47\xe8\x06\x34\x73\x84\xb9\x29\xe4\x68\xaa\x7d\xdc\x3c\x3c\x3a\xae\xd7\x1b\xd6\xeb\x8b\xea\x45\xa4\xdd\x1b\xd3\x33\x55\x47\x50\x6f\x8b\x42\x31\x51\x36\xaa\x4d\x3e\x6d\x6a\xa0\x07\x1b\x45\xd0\x91\x00\xda\x2c\xf4\x3a\x20\x7a\xbe\x3f\x76\x4e\x06\x41\x2b\x02\x74\x5c\xf4\x7c\xab\x44\x6c\x18\xbc\x5d\x17\x0e\x62\xfc\xf0\x80\x39\xbe\x37\x41\x49\x6b\x2d\x55\x6d\x18\x4c\x84\x8e\x89\x5a\x38\xc0\x1b\xca\x77\x04\x36\xc1\x84\xe2\x80\x94\x33\xc6\xd4\x98\x17\x05\x07\x2c\xeb\x80\xe8\x79\x4f\x09\x59\x08\x1d\x0d\x8c\xd5\x37\x3c\x07\x02\x27\x89\x8b\x4c\xd2\xa7\xdd\xef\x05\xec\x8a\xa8\xfb\x08\xa7\x16\xef\x91\x55\x62\xf5\xd5\xeb\x1a\x6f\xf6\xeb\xf7\xbd\x29\x2a\xf1\x4a\x90\x63\x8a\xc6\x58\xc5\x35\x2f\x84\x15\xda\xb8\x48\x2d\xde\xb6\x71\x9e\x1c\xd6\x50\xf9\xa4\xd2\xc6\xb5\x48\x43\x95\xd0\xad\x58\x27\xcc\xf2\x8a\xbe\x87\x60\xa7\xef\xf8\xb0\x79\x8b\x14\x4c\xc6\x64\x8a\xf8\x77\x79\x7b\x15\x45\x0b\x76\xc8\xba\xae\xbc\x81\xaa\xf3\xac\x7c\x64\x9b\xd3\x4b\xab\xfc\xe4\x7d\x42\xc6\xa7\x97\xa0\x44\x95\x97\xfc\xd6\x19\x99\xb5\xff\x1d\xda\x42\x03\x7e\x6d\x53\x0e\x19\xaf\x4d\x3a\x2c\xb8\xe8\x8c\x58\x83\x80\xb3\x45\xe5\xd2\xb3\x6e\x83\x6d\x51\xb5\xc9\xd9\x17\xbb\x66\x4d\xe5\xf6\x61\x61\x63\xb9\xc0\x03\xe1\xba\xbd\x14\x95\xc0\xb7\xff\xdc\xdf\xdf\x18\x70\xa5\x82\x44\x6d\x20\x8f\x2e\xfc\xab\x7b\x3e\xee\xac\xb0\x22\x2d\xf1\xdb\x9f\x8c\xfd\x08\x5a\xea\x9b\x24\x84\xa8\x7f\x19\xe2\xf1\xae\x22\xfb\x2d\xb1\x70\x1a\x7a\x5c\xf0\x42\xe4\x4d\x1d\xba\xe3\x83\xdc\x84\xbf\x9d\xc1\x17\x5d\xce\xe8\x1b\xef\xf3\x21\x0e\x8d\xf4\x71\x96\x8d\x76\xa0\x32\x89\x9e\xaa\x1a\xdd\x8c\xc9\x87\x1b\xc4\x58\x38\x6e\x44\x17\x27\x07\xe3\x6c\xc1\x94\x66\x23\xd0\x97\x5b\x44\x1b\x6f\xd2\xd5\xe3\x6f\x8b\xca\x87\x57\x5b\xf5\x1b\x7d\xab\x70\x78\x74\x30\x77\x27\x7f\x3b\xf6\x5e\x70\x99\x53\x81\x8d\xe7\xee\x3e\xf8\x49\x7b\xa1\x4e\x54\xf9\x93\x3d\xb2\x45\x35\x1e\x1e\x45\x45\x82\x30\x8e\x08\xd5\x6c\xe5\xf4\xe4\xf7\xff\xf6\xb7\x3f\xfc\xee\x5f\x7e\xf8\xe7\x7f\xff\xe1\x1f\x7e\xfb\x87\x7f\xfa\xbb\xff\xfa\x8f\xff\xfc\xfd\xef\xfe\xfe\x87\x7f\xfd\xed\x1f\x7e\xfb\x8f\x27\xd3\xe0\x7f\x12\x77\xba\x39\x5e\x59\xae\x9f\xde\x55\xda\xb7\x81\x0d\xd2\xb7\xe5\x1f\x9d\xc7\xe4\xf9\x80\x8d\x3f\xe9\xdd\x87\x4d\x86\x88\x57\xf6\x01\x13\xed\x9b\xa7\x71\xa3\x07\xad\x4a\xbe\x8d\xbf\x36\xe3\x0b\x4e\x48\xa8\x52\xa8\x45\x5f\x76\x69\x5b\x52\x60\xf7\x7e\x49\xd1\x80\xad\x82\x24\xa7\x21\xbe\x20\xb1\xb5\x6f\xe1\x50\x50\xf7\xf6\xa9\x70\xdf\x36\x8f\x05\x3a\x6b\xa4\x23\x81\x32\x5f\x09\xbb\x5e\xfb\xbe\xee\x3e\xe9\xf8\x73\xec\xf1\xd1\x39\x6b\x9a\xfe\x5a\x68\x85\x6e\x5d\x74\xdc\x77\x1e\xb1\x4e\xc0\x63\x3f\xb2\xfb\x94\x1d\x7d\xce\x3a\x27\x49\xc2\x2c\x7e\xc9\x3b\x0e\xdb\x16\x4b\x39\x60\x7b\xce\x5b\x0f\x7b\xfe\x94\xc4\x3d\x18\xaf\x58\x9a\xf2\x7c\xbc\x85\x60\xcc\xd2\x87\x71\x78\xac\x8d\x71\x42\x76\xce\x1c\x3a\x64\xc8\x61\x4d\xab\xe7\xeb\x32\xb2\xa0\x30\x8a\x98\x2c\x85\xa5\x27\x0e\x63\x0d\x8d\x4e\x53\x4b\x41\x5b\xf5\x52\xd8\x0f\xb5\xc9\x0e\x51\xd4\xa7\x7b\xd2\xbb\xed\x34\xf3\xf4\x84\xbd\x28\xf3\x7b\x2c\xcd\xc6\x40\x0e\x01\xa1\x34\x93\x59\x81\x1d\xc3\x66\x21\x86\x43\xe5\x81\x46\x31\x9e\xe7\x08\x40\xd9\x55\x5c\x7a\xa9\x0a\x69\x41\xcb\x67\x35\x26\x12\xc0\x5b\x94\xa5\x30\x86\x9d\x4c\xdd\x8c\xb8\xfc\x6e\xe9\xba\x5b\x57\x6f\x05\xfe\x88\xd6\x21\x19\xbd\x2f\x6f\xda\x9f\x38\xed\xcf\x9c\xf6\xa7\x4e\x7b\x73\xa7\xf4\xda\x07\xb7\x7c\x33\x7d\xda\xca\x9e\xee\x79\x74\x6b\x97\x45\x49\x8e\x0d\x31\x16\xa7\xc2\x55\xf6\xc9\x4d\x32\x61\x48\xd9\xc6\xae\xfc\x82\x4a\x22\x37\x9f\xb3\x1c\xd1\x0b\x99\xcf\xc5\xed\x17\xf5\x62\x21\xf4\x08\x70\x8d\xcb\x8b\x59\x9c\xc0\x77\x5e\xe1\x60\xfb\x8d\xaf\xbd\xaf\x7e\x84\x27\x3f\x0f\xcd\x90\x3d\x7f\x7c\xf5\xea\x03\x5f\xfd\xc0\x61\x30\x9e\x51\x54\x31\xfc\xed\xee\x42\xe2\x6b\xae\x74\x0b\xd2\xe8\x1b\xfa\x3b\x3c\xe1\xe6\xfc\xa8\xed\xd7\xe3\x0e\xbd\xa6\xd8\x75\xe1\xf0\x55\x3d\x0b\x0c\x00\x38\x80\x08\xab\xc5\xab\x7a\x66\xe6\x5a\xce\xe8\xc1\x95\xad\x3b\x85\x69\xfb\x15\x96\xce\x3e\x09\x2e\x21\xee\x49\xa5\xff\xcf\xcc\x12\x17\x3b\xde\xcb\x59\x8e\x43\xc0\xfa\xef\x46\x3c\xba\xaf\x17\xb1\x41\xfb\x1d\xc3\x67\xfc\x5a\x44\x1b\x76\xe8\x3b\x2b\xb8\x47\xfb\xdf\x59\x69\x20\xef\xbd\xea\xd1\x7a\x4f\x36\x0d\x04\x0e\xd7\x3d\xa2\xbd\xee\x79\x5f\x65\x37\x04\x57\x08\xf0\xa7\xf7\xcc\x4a\xb3\xae\x43\x9f\x59\x89\x9e\x57\x69\xaf\xf9\xb9\xb8\x6d\x96\x7d\xd4\x13\x2b\xb0\x51\x3d\xf7\x5c\x43\x58\x67\xab\x4f\x94\xe9\x6a\x7a\x74\xdd\x85\x38\xe2\x0d\x96\x68\x97\x7f\xd4\x1b\x2c\x11\x9c\x50\xfb\x7a\xd4\x63\xa0\x8c\x11\xcb\x75\x71\xd4\xd6\xcb\x2a\x47\xbe\xdd\x11\xc5\x97\x89\xa8\x1b\xb7\x0f\xbb\x6f\xd3\x99\xa5\x13\x80\xcf\xcc\xb2\x3f\xac\xbc\x5d\x71\xd9\x75\xe1\x70\x47\xdd\x76\x61\x96\xe9\x13\xd4\x7b\xdd\x95\x86\x3b\x1e\x3f\xf9\xf4\xa0\x37\x33\x86\x2d\x8e\xda\x53\x2a\x86\x0b\x3e\xa0\x54\x0c\x4b\xc3\xd4\xec\xd7\x62\x1e\x9e\x93\x35\x61\xbf\xfc\x1b\x17\xcf\x78\x79\x4f\x19\x0f\x85\x8c\xe1\x1e\xf9\xc7\x72\x9a\x1a\xe6\xb6\x8c\xd3\xcb\xc2\xcc\x88\xd2\x48\x10\x77\xee\x3e\x4d\xab\x82\xac\x03\xef\xbe\x67\x6c\x2a\x30\xc9\x5c\x79\x44\x39\x6f\x69\xb0\x3d\x95\x64\x9e\xce\x2d\x1e\xa4\xf9\x61\x09\xf1\xc4\x93\x70\xc9\x77\xde\x80\x1d\x1f\x53\xd5\x02\x2b\xfa\xf0\xaa\x96\x68\xf4\x9e\x17\x15\x60\x35\xff\xd3\x2f\x2a\x34\xd8\x6d\x5b\x11\xbd\x0a\xe8\xb2\x9e\xe5\xd2\xac\x1a\xfd\xf3\xe3\x9e\x53\x38\xc4\xfa\xf8\x90\x67\x12\x7c\x21\xc5\xee\xa7\x12\xb6\xb4\x44\x58\x9d\xab\xa5\x08\xef\x25\x50\x55\xc5\x1e\x83\x66\x18\x95\x4b\xb4\x8e\x42\x5c\x23\xd1\xa3\x57\x5a\xd5\x11\x9b\xc5\x11\x9b\xb5\x11\x7f\xc2\x6f\x1e\xa0\x01\xf4\xa1\x6f\x1e\xf4\x50\xa5\x53\xf6\x1d\xf6\xe6\x81\xd7\x0b\x7f\xb4\xd7\x0d\x7a\x50\x3e\x40\x55\xb1\x7e\x5d\x35\x9d\xb2\x43\xd4\x90\xd0\x3a\xa4\x53\x37\xd5\xd1\x74\xca\xb6\x35\xd2\x74\xca\x1e\x22\xe8\x7e\x30\x5d\xe6\xf1\x83\x3f\xfd\x74\xbb\x2d\xc5\x6c\xe5\xf9\x39\x4b\xde\x49\x77\x3b\xeb\x5d\xd2\x33\x8d\xcf\xae\x6e\x03\xf1\x45\xb4\x1e\x91\x8e\x8c\x64\xe7\x9b\x0d\x87\x2a\xe5\xae\x54\xe1\x6e\xad\xdc\xfd\x38\x52\xcc\xc3\x4e\x37\x77\xab\xe6\xce\xc4\x5d\x4b\x33\x6f\xbc\xed\xe0\xff\x47\x6a\x5c\xe5\x4c\x54\xe3\xc2\x7b\x94\x35\x2c\xce\x4b\xfa\x67\x66\xb9\xa9\xab\x4f\x11\xd7\x9f\x46\x61\x1f\x6a\x63\xed\xcb\xd7\xed\x55\xd0\x61\x22\x04\x1c\xc0\x8d\xa3\x6d\xf8\xef\x00\x00\x00\xff\xff\x9b\xf7\x11\x8f\x54\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4b\x8f\xe4\x38\x72\xf0\x59\xfa\x15\x31\xc2\x3c\xa4\xfa\xb2\x94\xf3\x7d\xc0\x67\xac\xab\x91\x06\xba\xab\x6b\x1e\xbb\xd3\xdd\xb5\x5d\xd5\x3b\x80\x1b\x8d\x5e\x66\x8a\x99\xc9\x2d\xbd\x9a\xa4\xaa\x2a\x37\x9d\x17\x5f\xd6\x80\x0d\x18\xf0\xc9\x07\x63\xe1\x93\xaf\x86\xcf\xfe\x3d\x3b\xc6\xfe\x0b\x23\xf8\x12\x95\x29\xe5\xa3\x67\xd6\xb0\x01\x37\xb0\x53\x29\x8a\x0c\x46\x04\x83\xf1\x24\xb5\xe3\x31\x5c\x56\x19\x85\x05\x2d\x29\x27\x92\x66\x30\x5d\xc1\x94\xf0\xaa\x4c\xe1\xf9\x2b\x78\xf9\xea\x16\xae\x9e\x7f\x7b\x9b\x86\xe3\x31\xbc\xa6\xbc\x29\x4b\x56\x2e\x74\x07\x78\x60\x79\x0e\xd5\x3d\xe5\x0f\x9c\x49\x0a\x72\xc9\x04\xcc\x59\x4e\x55\xe7\x5f\x51\x2e\x58\x55\x5e\xc0\x7a\x9d\x9a\xdf\x9b\x8d\xf7\x02\x9e\x13\x49\xfd\xb7\xf8\xbc\xd9\x84\x61\x4d\x66\x77\x64\x41\xf1\xcd\xb5\xfe\xf9\x92\x14\xea\xcd\x78\x0c\xb7\x76\x0e\x98\x55\xa5\x24\xac\x14\x50\x50\xb9\xac\x32\x01\xb2\x82\x82\xdc\x51\x60\x65\xc6\xee\x59\xd6\x90\x1c\x68\x99\xd5\x15\x2b\xa5\x80\x39\xaf\x0a\x10\x94\xdf\xb3\x19\x15\x23\x44\x83\xd3\x0f\x0d\x15\x12\x48\x99\x01\xa7\xa2\xae\x4a\x41\x41\xae\x6a\xaa\x20\x61\x57\xa4\xa8\x12\xb4\x85\x32\x02\x22\xe0\x81\xe6\x39\xfe\xa5\xe5\xac\xca\x28\x17\x08\x00\xe1\x65\xd4\x3c\xcf\x2b\x6e\x06\x2a\x68\x23\xd5\x40\x90\x53\x73\xa8\x1a\x0e\xa2\xa9\xeb\x8a\x23\xa7\x25\x27\xa5\xc0\xdf\x88\x19\x23\x39\xfb\x2d\x91\xac\x2a\x11\xda\xbc\xe2\x05\x91\x22\x0d\x43\x56\xa8\x1e\x71\x18\x44\xd3\x95\xa4\x22\x0a\x83\x08\x69\xa7\x8f\x12\x7f\x2a\x34\x58\xb9\x18\xff\x46\x54\x25\x36\xcc\x0b\xd5\xce\x2a\xfd\xdf\x31\xab\x1a\xc9\x72\x7c\x28\xa9\x1c\x2f\xa5\xac\xed\xef\x86\xab\x66\x21\xf9\xac\x2a\xef\xcd\x4f\x56\x2e\x44\x14\x86\x41\xb4\x60\x72\xd9\x4c\xd3\x59\x55\x8c\x17\xd5\xf9\x1d\x93\x63\xfc\x9f\xe5\x45\x14\x06\xa4\x5c\xd5\x53\x88\x16\x55\xb5\xc8\x69\xba\xa8\x72\x52\x2e\xd2\x8a\x2f\xc6\x35\xaf\x64\x35\x6d\xe6\x63\x45\xff\xf8\xae\xac\x1e\xca\xb1\xea\x1d\x85\x41\xd6\x70\x45\xe4\x09\x43\xdb\x21\x51\x18\xd0\xa2\x96\xa7\xcc\x6b\xfa\x47\x61\x30\x67\x34\xcf\x0a\x22\xee\x4e\x18\xed\x8d\x89\xc2\x40\x48\xde\xcc\xe4\x09\xc3\xed\x80\x28\x0c\x24\x2b\xa8\x90\xa4\xa8\x4f\x18\xee\x8d\x89\xc2\xe0\x81\x93\xba\xa6\x5c\x9c\x00\xa0\x1d\xb2\xbb\xa4\x9c\xe5\x39\x19\x17\xcd\x63\xd4\x7d\x53\xdf\x2d\xc6\x94\xf3\x8a\x2b\x49\xdb\x33\x91\x93\x3c\xd5\x62\xc5\x6f\xcf\x00\xf5\x03\x11\x59\xaf\xcf\x81\xcd\x81\x7e\x80\xf4\xb2\x2a\xe7\x6c\x91\xde\xba\x9d\x10\x91\x3c\x8f\x20\x2a\x89\x14\x11\x6c\x36\x5d\xdc\xb0\xf5\x9c\x55\xea\x6f\xba\x40\x09\x47\x50\xb4\xcc\x36\x9b\xa3\xa0\x2e\x78\x3d\xb3\x50\x77\xf0\x54\x2f\x07\xdf\x8c\x0b\x2a\x49\x46\x24\xd9\x9e\xf4\xe8\x29\x11\x7e\xbb\xe3\x07\xf6\x97\xeb\x60\xd1\xf1\xe6\xc2\xbd\x7b\x02\x00\xec\x1e\x1d\xc5\x96\x96\xd9\xf8\xeb\x84\x29\xb0\x7b\x07\xc7\x24\x0c\xc3\x7b\xc2\x21\x0e\x83\xf7\x30\x81\x79\x21\xd3\x9b\x9a\xb3\x52\xea\x67\xa5\xc0\xd2\xcb\xaa\xa8\x09\xa7\xba\xc9\x68\x9f\xf4\xa9\xac\x98\x6e\xe9\x90\x99\xbe\xa4\x0f\x37\x94\xdf\x53\xae\x5f\x6a\x6d\x96\xbe\xac\xea\xcb\xbc\x12\x6d\x6b\x7a\x59\xd5\x2b\xfd\xa0\x85\x37\xfd\x9e\x93\x3a\x0c\xc6\x63\x30\xeb\x69\xc5\x50\xeb\x78\xec\xaa\x54\x52\xfa\xb4\x54\xe3\x5a\x25\x93\x3e\x37\x3f\xb1\xd9\xa8\x8f\xf4\x0a\xff\x62\x83\xdd\xd2\xe9\x8d\xfa\x81\x4d\xde\x36\x4d\x6f\xed\x6f\x7c\xd1\x6e\x3f\xec\xcd\xca\xc5\xaf\x48\xde\x28\xba\x3d\xbd\x92\x7e\x85\xbf\x5f\x10\x71\x17\x26\x61\x38\x3e\x3b\xea\x1f\x5c\x59\x9b\x04\xb6\xe9\xf0\xbf\xb1\xb2\xa0\xdf\x96\x40\xd0\xde\xdc\x53\x3e\x02\x26\xbf\x10\xd0\x08\x3a\x6f\x72\x65\xa6\xe6\x4d\x39\x43\x2e\x08\x90\x4b\x22\xa1\xa4\x68\xa5\x2a\xa8\x6a\xe5\x1b\x40\x85\x63\x6b\xca\xcf\xad\x19\x40\x80\x53\x22\x98\x48\xe1\xab\x8a\x03\x7d\x24\x45\x9d\xd3\x11\xac\xaa\x06\x0a\xb6\x58\x4a\xa8\x89\x40\x13\xe9\x21\x2c\x2b\x20\x6e\x22\x3d\x4f\xcd\xab\xac\x99\x51\x81\xe0\x48\xa9\x24\x20\xfd\x86\x94\x59\x8e\x38\x3e\x30\xb9\x04\x4a\x66\x4b\x63\xe9\x21\xb6\xb3\x27\xf0\xc0\x38\xcd\xa0\xa9\x11\x49\x02\xa2\xa6\x33\x36\x67\x33\xa8\x89\x5c\xa6\x10\x7f\x2b\x11\x20\x13\x50\xf3\x6a\x4a\xa6\xf9\x0a\x08\x14\x4c\x48\xed\x25\x40\x46\x05\x5b\x94\x38\x94\x95\xf7\xd5\x1d\x9a\x7b\x0a\x28\x6c\x6c\x46\x9d\x57\xa1\x50\xa4\x08\xa7\xa5\x40\xcb\x00\xb0\x96\x93\x69\x12\x8e\xc7\x8e\xbb\xb3\x9c\xd1\x52\x76\xb9\x2b\x2b\x98\x55\x79\x4e\x67\xd2\x73\x50\xf2\x15\xcc\xaa\x52\x83\xa3\x99\xe7\xae\xb0\x12\x09\x42\x80\x82\x95\x8b\x5c\x3b\x26\x9a\x57\x0c\x39\x5c\x50\xc4\xc3\xc7\x97\x95\x92\xf2\x39\x99\xd1\xa1\x95\x40\x60\x6e\xb2\x7e\x27\xa9\xc1\xc9\x5a\xaf\x44\x39\x0b\xb8\x01\x2f\x0d\x3d\xb3\xaa\x98\xb2\x52\xf1\xa9\x30\x28\x7a\x0b\x3b\x32\xae\x94\x6c\x78\x09\x4c\x22\x5f\x11\xc1\x19\xc9\x73\xca\xd1\x63\x22\x16\xd9\x34\x54\xe4\xec\x30\x74\x1d\x06\x6f\x4a\x47\x1f\xcd\xd6\xeb\xd4\x8e\xd0\x2e\xa0\xd1\x04\xeb\x35\x27\xe5\x82\xc2\xa7\x0c\x2e\x26\xe0\xfa\xbc\xd0\x4b\x86\x7a\x6c\xbd\xfe\x94\x99\x31\x76\x16\x00\x70\xa4\xa6\xb6\x31\x5c\xaf\xb5\x72\xd5\xde\xa5\x6d\x16\x87\xa7\x40\x01\x86\xd8\x23\x22\x01\x6f\xd2\x78\x26\x1f\xc1\x78\x69\x68\x1a\xf0\xef\x08\x05\xe6\x6c\xbd\xfe\xba\x42\xc4\xe0\x53\x96\xbe\xd6\x2e\xe8\xed\xaa\xb6\x04\x26\x10\x6f\xf5\xd0\x8e\xa9\xd7\x65\xa4\x15\x5c\x02\xeb\x30\xb0\x7e\xab\x6a\x43\x44\x69\xda\x43\x39\x22\x83\x93\x27\x61\x80\xc6\x8a\x73\xf8\x64\x02\x25\xcb\x11\x42\x60\xd6\xab\x64\xb9\x02\x12\x06\x9b\xd0\xb6\x59\xe8\xe9\x41\x9c\x92\x11\xc2\x0b\x37\x8e\x9d\xc8\xcc\x17\xe4\xce\x63\x4f\xb8\x5e\xab\x8d\xfc\xa9\xa4\x88\x68\xba\xc1\xce\xe7\xe0\x73\xf9\x53\x49\x87\x18\x8d\xb0\xfa\x28\x13\xc8\x74\x49\x7b\xc5\x24\xd9\x5d\x6e\x58\x3b\xe2\x70\xfd\xfa\x57\xc9\x06\x06\x6e\x47\xad\x37\x09\xc4\x96\x19\x7e\xb3\xe2\x98\xb7\x1c\x01\xa7\x1f\x90\x10\x03\x21\x8d\x0f\xad\x76\x18\x04\xf7\x6e\xed\x84\xbf\x76\x88\x9a\x42\x25\x09\x83\x9e\x55\xdb\x5d\x36\x5c\x37\xdb\x7a\xaf\x97\x23\x40\xb1\x6e\x6d\xb3\xbf\x36\x68\x1c\x9f\xe6\xf9\xd5\xe3\x8c\xd6\x52\xd9\x29\xa1\x55\xac\xe3\x94\xb2\x50\x18\xb2\x98\xbd\x69\x5f\x08\x50\xcb\x48\x10\x8a\xe7\x13\x38\x56\xbf\x60\x59\x96\xd3\x07\xc2\x75\x14\xf8\x46\xd8\xb8\x10\x83\xa0\xba\xce\x57\xa8\x62\x50\x6d\x4a\x04\x5e\xb8\xde\x2a\xea\xa2\xf7\x94\xaf\xdc\xb2\xe1\x7e\x41\x0d\x62\xc2\x36\x05\xef\x55\x8d\x56\x83\xe4\xf9\x6a\xe4\xfa\x09\x98\x91\x12\xa6\x54\xd9\x1a\x9a\xe1\xb0\xe9\x0a\x4a\x64\xbb\xac\xb0\x9d\x3e\xce\xf2\x26\xa3\x99\x8e\x02\xa7\x14\x51\x40\x9a\x6b\x9a\xa5\x3b\xdc\x88\x5b\x9c\x46\x10\xdd\x48\x22\x1b\x11\x8d\x20\xba\x66\xe5\x22\x4a\xdc\xbe\x3f\x73\x0c\x49\x06\xc7\x3b\x0c\x3d\xae\x8c\x5a\x6c\xd2\x34\x15\xca\x2d\x50\xc2\xc3\x4a\xd3\x7c\x31\x81\x82\xd4\x6f\xf5\xab\x77\x9a\xfd\xeb\x0d\x8a\xd7\xf6\x86\xe9\xd9\x2d\x41\x10\x44\x9e\x18\x45\x17\xb0\xde\x8c\xc2\xc0\x77\x23\x37\x61\x18\xa0\xad\x7f\x8f\xa8\x20\x18\x0d\xd2\xa1\x85\x33\xb1\x39\xbc\x1f\x41\x75\x87\xaf\x2d\x62\x6f\xe9\xe3\xbb\x27\xf0\x49\x75\x87\xd8\x06\x41\x4d\x4a\x36\x8b\x5b\x0f\x6f\x1e\x47\x57\x16\x84\xa5\x1b\xbe\xf8\x4c\x7c\x01\x59\x45\x05\x94\x95\x04\xfa\xc8\x84\x7c\x02\x82\x52\x7f\xe1\x5d\x4c\xa9\x5c\x7a\x44\x2a\x49\x8c\x3c\x67\x34\xa7\x92\xc6\x16\x03\xf5\x4e\x13\x70\x14\x2b\x7a\xa9\xe8\xb0\xe7\xdd\x13\xb0\xf4\xf4\xaa\x4e\x98\x78\x98\xc6\xbd\x5d\x0c\xae\x2d\x83\xf5\x0e\xfb\x8e\x4c\x69\x4e\xb3\x76\xe1\x75\xb6\x64\x41\xa5\x15\x53\x14\x6d\xc7\x28\x25\xad\x0f\x4b\x5a\xba\xb7\x95\x27\x99\x06\x98\x16\xb0\x91\xde\x50\x46\xe6\x1b\xdd\x19\x74\x0a\x86\xe8\x3c\x0e\x9b\xa1\xff\xc2\xd9\x4c\x79\x54\x2d\x05\xf0\xb0\x64\xb3\xa5\xda\x2e\x82\x96\x7d\x28\x18\xa3\x6d\x46\x5b\x97\xa5\xe2\xc6\x64\xef\x52\x85\xfb\x21\xd6\xb2\x3a\xda\x55\xb8\x3d\x3a\x38\x1c\xa2\xeb\xa3\xd5\xd0\x0e\x52\x23\x43\xa7\xe2\x38\xa7\x33\xca\xee\x51\x0b\x51\x4d\x62\x35\xef\xd0\x9d\xc2\x0d\xa5\x0e\x8c\x07\x45\xbd\xb0\x3e\xa7\x41\xf8\xea\x11\x11\xc5\xdd\x93\x51\x49\x58\x2e\xd0\x25\xb6\x3b\x07\x81\x58\xbf\x96\xe4\x4c\xae\xd2\x7d\xda\xa2\x43\x7b\x5c\xfc\x08\x8e\xfe\xaf\x4a\xf9\x9f\xab\x52\x3a\x43\x47\x70\xac\x86\x39\x3e\xed\x70\x6c\x40\xf9\xf5\xeb\xeb\x4b\x24\x98\xf2\x93\x23\x4a\x74\xce\xbc\xe1\x98\x84\x15\xad\x89\x77\x4b\x01\xe4\x9e\xb0\x9c\x4c\x73\xaa\x83\x81\xc5\xeb\xeb\x4b\x18\x70\xf1\xcd\xce\xe9\x42\x76\x71\x9f\x68\xd5\xc0\x08\x2a\xe5\x11\x08\x14\xfd\x4e\x86\x45\x49\x32\xe5\xda\x61\x48\x86\x26\x42\x5b\x26\xbc\x8e\x02\x17\xf6\xed\xbb\x61\x48\xb8\xb0\x7d\x6f\x9f\xd1\x79\xc5\x69\x8c\xd8\xbe\x30\x99\xa2\xdb\xca\xf8\x94\xc9\x08\xb7\xc8\xd6\x3c\x13\x74\x87\x68\x99\xc5\x9d\x66\x47\x4f\x9a\xa6\x89\x4a\x5f\xac\xd7\x70\x5b\x7d\x57\x3d\x50\xde\x4a\x24\xb2\x0a\x17\xd7\x3a\x7c\x9f\x23\x46\xf8\x92\xf2\x35\xda\xc6\x83\x62\xbc\x5e\x5b\x98\x4e\xda\x2e\xa0\x4b\x96\x4b\xbc\xc4\xa8\x01\x1c\xeb\xfb\x04\x14\x1d\x8c\xe0\xb9\xca\x7f\x23\xfd\x5e\x0f\xe3\xf3\xaa\x0e\x57\x65\x6f\x07\x13\xc1\x60\x8f\x0e\x27\xd2\x34\xc5\x61\xc9\xc8\x97\xfc\xc0\x9a\xd7\x96\xe0\xed\x80\xd8\xb9\xdc\xfd\xeb\xed\xdc\x77\x6d\xd0\x3c\x38\x7f\x82\x20\x74\x87\xc9\x00\x5b\x5c\x36\x59\x0e\xcf\x4d\x37\xc1\x93\x49\x3f\xa0\x56\xf5\x70\x94\x55\x4b\xee\xf1\x94\x1e\x44\x55\x6d\xb6\x58\xc0\x59\x3b\x55\xd2\x82\x3f\x10\xd5\x62\xd0\xf3\xd3\x86\xb5\xef\x31\xf2\xa9\x3b\x81\xd1\x0e\x27\x15\x15\x4a\x9a\xfc\x50\xe9\xc4\xf8\xb6\xfe\xc8\xd0\xd6\x70\x58\x8b\xfc\x61\xf6\x8e\xc7\xb0\x6f\x77\x00\x43\x75\xe8\x64\x42\x65\x7e\x53\x3d\xc0\xf4\xf8\x0a\xd7\x47\x65\x7f\xb0\x52\x43\xb9\x14\x3a\x39\x64\x54\xe8\xae\x98\xd9\x18\x16\x53\x34\x98\x81\xe2\xe7\x59\x55\x10\x56\xee\xeb\x9c\xc2\x35\x67\x05\xe1\x2c\x5f\xd9\xa4\x95\x9f\xe1\xd2\x1a\x79\x1f\x1d\xf1\xfb\x5d\xe1\x40\x5a\x5e\xd3\x0f\xad\x30\xaa\x60\xda\x7b\xea\xa6\x33\x54\xf8\x6c\xc6\x1c\x13\x3e\xbb\x95\xfc\xb0\x67\x99\xae\xca\xa3\x97\x69\xaf\x8e\xea\x5d\x27\x3d\xc2\x76\x19\x5a\xa8\xc3\x4b\x60\xa6\x50\x0b\xb6\x67\x59\xeb\x7c\x75\xd4\x3a\xed\x25\xa4\x6f\xa1\xfa\xf2\x1b\xfb\x56\x4a\xd4\xb8\x54\x76\xd4\x11\xfb\xc8\x5b\x2c\x51\xf7\xad\xd6\x37\x34\xc7\x64\x79\xa8\x05\xad\xd7\x90\xf6\x2b\xa0\x22\x03\x5b\x9c\x49\x5f\x3c\x4f\xb6\x3b\x20\xbe\xa8\x46\xef\x46\x70\xdf\xfa\xa6\x85\xf3\x4a\xef\x3b\x89\x15\x55\x63\xa6\x70\x47\x57\x6a\xb9\x33\x74\x5f\xa7\x95\x5c\x22\x8f\xed\x2c\xa6\x3a\x0b\xf1\x5d\x62\x22\x0d\xec\x9a\xe7\x90\xe3\x7a\x19\x28\xc4\xc4\x57\x2a\x89\x7a\x49\xca\xaa\x64\x33\x92\x7f\x43\x49\x46\xf9\x2f\xe8\xca\x86\x21\x38\x91\xa8\x4c\x6a\x57\x9a\xa8\xce\x82\x98\xcd\xa8\xcd\x68\x50\x26\x97\x94\x9b\x99\xf1\x3d\xb2\x62\xe2\x68\xfd\x9e\xc9\xa5\xaa\x2e\x20\x8b\x46\x8a\xd6\xb7\x5f\xbe\x4b\x0e\x76\x1c\xc0\x2e\xbe\x4b\x5a\x08\xc6\xc1\x37\xcb\x37\x93\x8f\xca\x06\x5b\x1f\x70\xff\x3f\xb5\x8e\x3a\x7f\x7c\xb2\x5f\xf9\x92\x3e\x78\xa3\xf5\xf4\xaa\x96\x60\x12\x42\x30\x25\xb3\x3b\x5c\x9e\x95\xdd\x33\x3a\xf1\x8e\xb4\x96\x54\xd5\x31\x52\xf8\x56\xe2\x3a\x9a\x14\xbe\x11\x57\x36\x65\x18\x9e\xd9\x25\x30\x19\x6a\x59\x41\xc6\x48\xae\xd3\xd8\x39\x91\x94\xc3\x0c\x6b\x4c\x18\x6f\x53\x1f\xa6\x16\xd0\x0e\x76\x31\xbe\xd6\xe6\x33\xd5\xf8\x5e\x56\x65\xb9\xc7\x39\xd5\x9d\xac\x73\x1a\x0f\x78\xa7\xfe\x96\x43\x0f\x61\x3b\x83\x1a\x78\xad\xf5\xdd\x02\x77\x9a\x4d\xa4\x76\x8f\x4e\x04\xbb\x91\x9e\x9f\x36\x6d\x75\x60\x70\x4f\x78\x9f\xea\xb1\xae\xde\x6e\xf4\x19\x06\xeb\x7e\x87\xd2\x0d\x99\xec\x7a\x96\x86\x6b\x4a\x3c\x91\x51\x36\xc8\x34\x44\x6c\x36\x69\x5f\x5e\x37\x72\xfd\xec\x1c\xd1\x3e\xcf\xb2\x75\x3d\x9f\xd3\x43\xae\xe7\x01\xed\xa5\x93\x68\x41\xeb\x9b\xe3\x63\xe2\x78\x10\xab\x10\x52\x31\xd9\xf8\xa9\xed\x2f\xfb\xc3\x6d\x20\x3b\x48\x1c\x74\xd5\xe1\xdc\x80\x72\x38\xdb\xb1\x17\x58\xcd\xd8\xc3\xf3\x51\x3b\x6f\xb0\xb1\xca\x16\x95\x2c\xf2\x00\xcc\x8e\xfa\xf1\xee\xcb\x1e\xbb\xf8\x9c\x1e\x63\x17\xf7\x5b\xba\x63\xdd\x17\x63\x83\x06\xec\xa2\x56\x0a\x66\xd7\x3e\xa7\x27\xda\x45\x24\xe6\xb5\x42\xe6\x48\xc3\x88\x5d\x9d\x13\x83\xe6\xfa\x24\xd3\x58\xe7\xab\x3e\xdb\xe8\x2f\xdb\x8f\x77\x67\x86\xbd\xce\xab\xf2\x08\xaf\xf3\xf0\x82\x78\xce\xe7\x9e\x15\xde\xeb\x75\x76\x56\x6d\x1f\x1d\xfd\xce\x8c\x21\xf1\xb8\x25\x3b\xb5\x68\xb3\xdf\xeb\x34\x58\x28\x6b\x2c\x6e\x2b\xdf\x91\xd1\x3b\xa5\xcf\x12\x98\x79\x70\x9f\x68\x41\xdd\x03\x25\xbe\xa3\x2b\x01\x6f\xdf\xd9\x4c\xdf\x01\x78\x47\x15\xbd\x8a\x0c\xce\x0e\x39\x51\xca\x36\xd4\x84\xf1\x76\xf2\x30\xb0\x79\xbf\xbb\xd6\xb5\x52\xe8\xa1\x51\xc0\xc2\xd5\xbd\xcd\x96\xcd\xe4\x63\xaa\x78\x12\xdf\x25\xa9\xc9\x6f\x26\x6d\xae\x2c\xd0\x80\x5d\x56\x44\x3d\x6a\x47\x06\x7d\x10\xa5\x5e\x51\x89\x22\x4c\xf5\xae\xe3\xb5\x9d\x15\x19\xe6\xd5\x2c\x01\x3f\xaf\x58\x19\x9f\x15\xd9\xa8\x6d\xba\xc6\x31\xb1\x1a\x89\xa9\x95\xc4\x82\x33\x9c\x41\xaf\xc6\xd4\xcb\xf4\x4a\x1e\x9b\x37\xfb\xe6\xf6\xf6\xda\xc4\x19\xb6\xed\xf0\xbf\x71\x18\xaa\x52\xbc\xe6\x72\xa9\xc4\x0b\x26\x10\x91\xba\xce\xd9\x4c\x1d\x3e\x51\xe7\xf9\x9e\xc0\x6c\x49\xb8\xa0\x72\xd2\xc8\xf9\xf9\xcf\x22\x97\x6e\xc3\x59\x4d\xea\xc0\x54\xdc\x51\xb0\x96\xa6\x45\xed\xd9\xc3\x69\x38\x04\x56\x95\x50\x73\x9a\xd1\x39\x2b\x69\xa6\xce\x4d\x08\xb3\xe7\xb6\xa6\x39\x98\x7c\xeb\x1e\xdb\xe9\x26\xdf\xfc\x03\x1d\xd6\x97\x61\x73\x48\x15\x7c\xe5\xf6\x7b\x7a\x6b\x2b\x0f\x84\xb2\xf3\xf6\xdd\x30\x74\xb5\xfe\x7d\xaf\x4d\x46\x4e\xcf\x81\x7e\xad\xe8\x24\xe4\xfa\x07\x5d\xa1\x26\xd7\xea\x86\xc7\xd4\x7b\x18\x1e\xf2\x74\x2e\x29\x8f\xb7\xdf\xc8\xcb\x76\x69\x63\x6f\x99\x13\x05\x68\x97\xca\xa3\xd2\x81\x26\x4b\xa4\x52\x7f\x05\x32\xa6\x68\x1e\xd1\x9d\x7a\x5d\x35\x88\x43\x12\x7a\x1e\x85\x29\x5c\x5c\x4c\x06\xd9\xec\xba\x4e\xf1\x34\x48\xb9\x40\x80\x66\x58\xfa\x4c\x37\x99\xfc\x7f\x61\xc7\xc5\xe8\xa4\x99\xee\x78\x6e\x77\x0a\x7f\x05\xb7\xd5\x1b\x3c\x97\xb8\xd9\x44\x49\x7a\x4d\xe4\xb2\xd3\x07\x1b\x6e\x69\x51\xa3\x3f\xad\x7a\x58\x71\x1a\x38\xe5\xa5\x92\x8d\xdd\x6c\xa3\xc1\x68\xc7\xc1\x71\x7e\x1d\x92\xe7\x4d\xa9\x0a\x2b\xce\x3c\xe8\x8e\x7a\x45\xb1\xe3\xd7\xba\x3e\x66\xcd\xb0\x7e\xdd\x97\x78\x0c\x54\xc9\xa0\xcd\xcb\xf9\x3f\x8d\xd2\x28\x8c\x53\xe5\x0b\x8d\x2e\xc4\xa9\x88\x43\xbb\x05\xb6\xa4\x66\x67\xfc\x1e\xdf\xf3\x11\x46\x2d\x19\x9d\x93\x26\x97\x68\xed\xb4\x80\xe0\x8e\x54\x69\xc9\x6a\x0e\xdb\xba\x60\x04\x04\xa6\x55\xa6\x02\x47\xd4\x0d\xda\xed\xc7\xf0\x31\x52\xf3\x44\x2e\xe2\xbc\x47\x2d\x8b\xa0\x54\x7b\xaa\xb0\x8b\x13\x1d\xd7\x10\x10\xaa\xa2\x0d\xc8\x0f\x04\xf5\xff\xbf\xfc\x32\x85\x6f\x4d\x49\x0c\x7b\xfa\xf9\x54\xbd\x6f\x28\x57\x07\xa6\xb1\x47\xcd\xab\x7b\x86\x21\xf1\x52\xbd\xc1\xc3\x00\x79\x8e\x25\x76\x85\xad\xae\x44\x62\xbf\xd6\x27\xf3\x41\x23\x14\x0f\x3a\x52\x91\xbe\x20\x5c\x2c\x89\x3a\xe8\x65\xf1\x2f\x74\x13\x56\xe9\x45\x33\x9b\x51\x9a\x09\x1d\x83\xfd\xfc\xe6\xd5\x4b\x73\xee\x3a\xb3\x87\xa4\x6d\x10\xa7\x68\x75\xe8\x60\x55\x74\x98\x2c\x5d\xd4\xc7\x63\xef\x7c\x64\x43\x43\x47\x59\xfb\xb2\x03\x0d\x58\x29\x24\x25\x99\xe5\x99\x56\x92\xbe\x86\xe8\x73\x44\xdc\xf9\x90\x11\x3c\xe8\x63\x6d\x5d\x31\x50\x3e\x23\xae\xea\x08\xde\xe3\xf6\xf3\x59\xa2\xd5\x0f\x16\x1e\x6b\xca\xd7\x6a\x15\x2f\x90\x16\xbb\xa0\xe8\x89\xb0\xb9\xe5\x16\x32\x50\x1b\x5a\xec\x12\x77\x79\xdb\xda\x59\x36\x07\x7c\xf5\x4c\x4d\x69\x86\x5e\xe9\x34\xab\x03\x64\xc7\x21\xbb\xe3\xe4\x89\x9d\x01\xbb\x4d\x3c\x9b\x8b\x68\xc3\xc4\x81\xb3\x89\x82\xe0\x21\xd5\x62\x13\x27\xe9\x0d\x95\x71\x64\x14\xe1\xf9\xed\xaa\xa6\xd1\xc8\x37\x79\x9a\x80\xa5\x15\x32\x1f\xff\xae\x7a\xb0\x72\xd8\xd2\x81\x5e\x87\xe7\x72\x58\x18\xa6\xa7\x88\x15\x63\x83\x6d\x5c\xee\x46\x3d\x3d\xd3\xaf\xa9\x8c\xef\x6c\x81\x70\x13\x06\x6a\x6b\x5c\xe8\x83\xa8\xa9\x16\x87\x6f\xd1\x75\x2c\x49\xee\x19\x09\x85\xbb\x98\xed\xc1\xda\x13\xb3\x16\x71\x05\x7c\x02\x62\x66\x20\xe3\x6b\x13\x3e\x3e\xa4\x4a\x28\x0c\xc6\xd8\x31\x71\x8d\x31\x72\x3b\x41\x7d\xd3\xca\x9d\x8e\x65\x78\x3c\x6d\xe6\xf0\xf6\x1d\x9e\xad\x4d\x8c\xac\xaf\x43\xe5\xab\x3d\x80\x2f\x42\x2e\x3b\x6e\xe5\xec\x4d\x69\x56\x16\x21\x8c\xe0\xf3\x87\xe4\xc9\x76\xf6\x5c\x7b\x29\x82\xfd\x96\xc2\x04\x7e\xf6\x7f\xff\xfc\xcf\xb4\x08\xe5\xb4\xc4\x31\x09\xfc\x85\x7e\x87\x5d\x03\x44\x63\x02\xd3\x66\xfe\xf6\x02\x1b\xdf\x19\x33\x67\x74\x25\x1e\x14\x51\x7c\x9b\xc7\x91\xd5\x0e\x80\x44\xa9\x33\x22\x17\x98\xf8\xc2\x7a\x6e\x8d\xee\x0e\x94\x55\x79\x8e\x72\xe5\x1c\x79\xec\x18\x8d\x10\xb8\x29\xd6\x1a\xa8\xe6\xac\xef\x4b\xfa\x10\x3f\xe8\x7d\xa1\x78\xa4\x74\xa8\x4f\xbb\x3d\x3e\xb0\x0e\x03\xd5\x0b\x9f\x51\xbf\xfc\x1a\x67\xb9\x30\x0a\xf4\xd7\x46\x9d\xe3\xba\x9b\x5e\x44\x32\x31\x67\x78\x25\x64\x49\x9d\x36\x54\x8a\xd4\x5b\xdc\x36\xcc\x10\xc0\xd4\xed\x0d\x7b\x85\xe5\x98\x23\xda\xa9\x2e\x44\x79\x93\x3a\x54\x15\x5a\x78\xed\xc0\x4e\x85\x33\x85\x81\xd5\xbd\x00\x7e\x55\xdf\xb9\xe4\x56\x46\xe2\x65\x0b\x34\xf1\x74\x5e\x9c\x40\xf7\x28\xdc\x32\x6d\x67\x18\x18\xdd\x6e\x2b\x6c\x34\x7b\xa7\x03\xc2\x20\x15\x76\x32\xef\xdb\x19\x86\x83\x3e\x89\x97\xa4\x3a\xe0\x94\xb8\xa4\xc4\x5e\xeb\xbf\x1d\xe4\x2a\xec\xfb\x4b\x2b\xaa\xd8\xaa\x2f\xf1\xe0\x18\x54\x7e\xe7\xc6\xd6\xf8\xf1\xab\x9d\xe7\x9a\x70\x5a\x4a\x13\x13\x3a\x39\x55\x07\xcc\xd0\x1c\x21\x56\xb6\x55\x41\x46\x09\x3e\x94\xb9\x0f\xbc\x14\xc5\x5e\xb2\x7a\x63\x5e\x38\x33\x06\x46\x75\x19\x8e\x77\x83\x8c\xce\x29\x07\x9e\xa2\xd6\x4e\x2f\x31\xc5\x89\x0a\x48\x69\x0c\x8c\x85\xdb\xf0\x77\x8b\x56\x03\x19\x35\x37\x3a\x41\xb8\xe1\x5d\x8d\xce\x9c\xcb\x7f\x4d\x49\xf6\x34\xcf\x63\x0d\xfc\xb8\xb3\x8b\xf6\xb0\xfe\x1c\x0d\xde\x08\x22\xa3\x09\x38\x1a\x5b\xeb\xf0\x20\x65\x96\x9d\x91\xd1\xd4\x5b\x8a\xe8\x4b\x45\x5b\xd0\x58\xa5\x86\xa1\xd1\xc5\x04\xdc\xe5\x94\x56\xdd\x19\x3f\x4f\x75\x0f\x9e\xe6\x79\xf5\x70\x4d\xb8\x64\x24\xc7\xac\x9a\xe4\x8d\x71\x0a\x9f\x33\x31\x23\x3c\x7b\x53\xaa\x8b\x44\x17\xed\x9b\x8d\x09\x6d\x91\xf4\x09\xf8\x13\xee\xa8\x54\xac\x4a\xee\x28\xd5\x7e\xb5\x3a\xac\x58\x7b\x55\xab\x41\xa3\xc3\x4c\xb7\x61\xd7\x3d\x6c\x35\xdc\xfb\x28\x9d\xab\x19\x12\x78\x06\xf1\x19\xc9\x8c\x38\x98\x77\x88\x40\x8b\x96\x8b\xd6\x31\xa2\xbc\x26\x9c\x14\xc2\x86\x2b\xbf\x22\x5c\xc4\x1c\xd7\x10\x2f\x6b\xb4\xef\x31\xb6\xff\xd0\x50\xbe\x6a\xbb\xf3\xf4\xcd\xeb\xef\xd2\x5f\x62\x63\x6c\x07\x78\x5d\x42\x3f\x86\xd1\xe7\x55\x2f\x26\xad\xd4\xaa\x7b\x15\x26\x80\x51\xe7\x65\x4a\xdb\x2d\xfd\xae\xd2\x8e\x35\x44\x8a\x48\xdd\x07\xf3\xac\x0a\x4a\xfa\x35\x2d\xd5\xa4\x6e\x35\x31\xba\xe9\x4f\xef\xee\x47\xe1\x55\x49\xab\xf9\x0e\x1e\xf4\xc3\x2e\x1e\x8a\xac\x1f\x83\x88\xdb\x56\x9f\x73\xfa\xa1\x2d\x75\x9b\xa0\x45\x65\x92\x6d\xd7\x36\x33\xd8\x13\x10\xf5\x6a\xcc\xa1\x22\xa7\xd6\x8f\xc2\x46\x07\xce\xae\x13\xa1\xf4\xe7\x76\x34\xa0\x63\x23\x7e\x42\x01\xb3\x07\xc1\x3e\xdd\xd7\xeb\x5b\x0f\xd5\x34\x9d\x8b\x34\xa4\x28\x5e\xec\xa8\x89\x6d\x25\xe1\x74\xc1\x1b\x41\xaf\x51\xc1\xa0\xbe\x14\xbe\xfa\x78\x23\xe8\x55\xd9\x14\x2f\x9b\x62\x4a\xb9\xb8\x68\x5f\x5c\x15\x4c\xbe\x29\xeb\xaa\x6e\x30\x24\xce\x9c\x5a\xd9\x84\x1d\x7d\xda\xe2\x66\xd1\x71\x27\xd0\xd3\x58\xa1\x9a\xbe\xa0\x42\x90\x05\x4d\xf6\x1d\x7b\xb0\x62\xf0\x7e\x64\xb4\x95\x73\x27\x95\x27\xe5\xf5\xf2\x6b\xb0\xee\x14\xa3\x30\xce\x40\x5f\x0e\xa5\x3f\x8f\xb8\x63\x85\x86\x8a\xb1\xad\xef\x6e\x5d\x71\xa5\xec\xf6\x95\x5f\x11\xf0\x6e\xe9\x75\x49\x04\x2c\x49\xa6\xc7\x0e\x15\x5b\x55\x89\x2f\xc3\xc3\x9a\x0c\xb3\xc2\xad\x7c\xfb\x37\x7a\xe5\x92\x6a\x28\xda\x91\x12\xa9\x35\xfa\xae\xc6\x8b\xc2\x8c\xd9\x56\x97\x56\xb4\xe8\x98\x20\x14\xa3\x71\x51\x69\x20\xdd\x8a\xee\xde\x5a\xee\xde\x0a\xed\xdd\xc8\x71\xc8\x8b\x54\xf6\x0e\xd9\xc2\x5f\x15\x73\x77\x61\xa0\xf2\x42\x76\x37\x25\x6d\x6f\x4e\xcd\x96\xa8\xcb\x52\xf5\x86\xe4\xa2\x02\x92\x65\x66\x0f\x2b\x6d\x0f\x0d\xcf\xc3\xfd\x25\xe5\xc8\x74\x3d\xc7\xfb\xc5\x23\xa3\xc4\xaf\x89\x5c\x26\x87\x06\xba\x55\xc1\xf3\xf6\x28\x73\xa8\x44\xa2\xe4\xa3\x6b\xcf\x08\xc2\x14\x4d\x6c\xdb\x09\xb5\x67\x6f\x74\x9b\x62\xed\x29\x3d\x97\x80\x3d\x8d\xf6\x82\x9c\xdd\xa3\xd7\x4a\xa4\xe1\x5a\x51\x49\x95\x5f\xc0\xf4\x01\x29\xf1\x7a\xd6\xf7\x78\xd6\xbe\xd6\x17\xc1\x74\x1b\xea\xc9\x59\x55\x50\x7d\x3f\xa1\x9d\x24\x63\x62\x86\xd7\xeb\x57\x20\x56\x42\xd2\x62\x04\x42\x9d\x0a\xcf\xd9\x1d\xcd\x57\x56\xe8\x50\x8c\x20\x5a\x56\x42\x5e\xa0\x44\x47\x46\x81\x76\x28\x88\xdd\x54\xf6\x60\xf1\x60\xe6\xf6\xf4\xca\x34\x9b\xc3\x27\x56\xe4\xbe\x21\xe2\x9a\xd3\x39\x7b\x74\x33\x8e\x20\xc2\x5d\x19\xe9\x88\xdc\xe1\x31\xd1\xcd\x17\xe3\x71\x04\xff\xc7\x71\x02\xa5\x32\x68\x9c\x16\x6c\x78\x9e\x5e\xa3\x77\xe2\xa0\x1d\x7d\xc6\x0b\x9d\x8b\x26\x34\x17\x74\x31\xb2\xec\x89\x38\x4c\x7d\x55\xdf\x64\x88\x5e\x56\x7a\x21\xbd\xf4\xb6\x3e\x68\xaf\x18\xa2\x93\x41\x08\xe8\xa1\xe2\x77\x23\xd0\x29\x73\x30\x96\x1e\x03\x3f\xbc\x6a\xc7\xb5\xbf\xa9\xdf\x32\x64\x61\xd4\xa6\x6d\xf1\xf0\x58\x70\x7c\x2c\x14\xac\xd7\x78\x71\x77\x3b\xf8\x31\x48\xe3\x5b\x95\x01\xb4\xce\x06\x42\x62\x65\x46\x1f\x77\x47\x7c\x69\xc7\x98\xea\xfe\x76\x54\xb1\xaf\xb8\x8f\xce\x86\xfa\x6f\xb0\x67\x5c\xcf\xa5\x5d\xaf\xc2\x6f\x6a\xf6\x83\x69\x63\xe3\x41\x06\xb3\xaa\x5e\xbd\x79\xfd\x5d\xdc\x8c\xc0\xef\xff\x8c\x08\x8a\xea\x03\xd3\xc7\xb6\x6b\xeb\x1d\xec\x62\xd5\xf5\x4b\xbb\x39\x62\xc3\x99\x9e\x03\x00\x3b\xd5\xfd\x60\xbb\xc0\x6f\x7d\xdb\x76\x35\x3b\xbf\xdb\x9f\x4e\x5d\xf5\x56\xfa\xf7\xae\x3b\x9c\xff\xa9\x56\x7e\x28\x91\x6e\x4e\x12\x6c\x33\xd1\xbe\x36\x87\x23\xf6\xd2\xeb\x9d\x30\x50\x9a\xc7\xae\xe3\x94\x08\x0a\x67\xb8\x87\xdf\xbc\xfe\x6e\xa4\x8a\x4b\xc6\xb4\x26\xae\x19\xf7\x6f\x89\x7e\xc1\xc5\x04\xce\x70\x80\x7e\x54\x85\x04\x13\x1e\x38\x76\x7e\x8e\x6f\x4c\x82\xe1\x52\x3e\xda\xd2\xe8\x0d\xfa\xb7\x33\x75\x0e\xbe\xe1\x26\x55\x83\xe2\x68\x37\xae\xac\xa0\x6e\xf2\x5c\xb5\x1b\x3b\x47\x33\xf4\x30\x04\x54\x0d\x9a\x6e\xeb\xbe\x1a\xb3\xa4\xd2\x3b\xc6\xec\x15\xd6\x85\xf5\x03\x50\xf4\x15\x4c\xba\x23\x05\x78\x59\x49\x73\x33\x17\x41\x22\x2c\xa5\x29\x96\xe4\x9e\x82\xfd\xe2\xc6\x7e\x97\x44\xcd\x33\x55\xd5\x2a\x73\x39\x4d\x5d\xce\x41\xcd\x6f\x51\xc3\x7b\xce\x26\xbf\x4f\xec\x81\x26\xe5\x7b\x20\x55\x2b\x97\xa8\x76\xa5\x3d\xff\xea\x1c\xe5\xce\xe0\x9a\xd2\x72\x97\x77\xba\x9c\xec\xdd\x1c\x19\xb6\x07\x7e\xc6\xa7\xa7\x93\xa9\xb8\xed\xb9\x5a\x79\x84\x77\xf8\x93\x15\x94\x9d\xc7\x63\x32\xbf\x7e\x1d\xd9\xd9\x0c\x5d\xf7\x4d\x50\xaa\x90\xd7\xa8\x51\x86\x8e\xc7\x1c\x54\xd8\xdb\x29\xa9\x5e\x65\xb3\x37\x23\xb5\x1d\x5f\x99\x74\x94\xf6\xc6\xb6\x53\x52\x36\x4b\x63\xa6\xb1\xa3\x75\x7a\xa6\x8d\x7d\xb6\x53\x52\xa6\x19\x03\x5f\xed\xe6\x99\x2a\x89\x7b\x83\x0e\x35\x51\xe9\x80\xff\xf7\xe5\x97\x7e\xb9\x68\x04\x0f\xa6\x26\xa2\x12\x9e\x35\xa7\xe8\xe4\x10\xb5\x1f\x48\xa9\x60\x29\xa7\x40\x09\x2a\x91\x12\xbf\x9d\x80\xfb\x47\x53\xe1\xef\x3f\x93\xc0\x86\x42\x87\x30\x2d\x8e\x16\x89\x83\x29\x33\x7b\x3c\xa4\x27\x65\xd6\xcb\xf6\xfd\x19\x33\x3d\xe9\xe9\x29\xb3\x53\x32\x60\x13\xec\x92\x5e\xbd\xfa\x6a\x30\x09\x86\x59\xec\x36\x37\x8e\x82\xa1\x58\x00\xc8\xc7\x95\x9f\xf5\xda\x72\x7f\xfa\x60\x61\x42\xad\x27\x9f\xe6\x80\x1a\x70\x1a\x1e\xf7\x6a\x11\xf0\x49\xa7\xf0\xf1\xea\x17\x7b\xa7\x98\xc7\xdb\x95\x88\x64\x04\x91\x27\x33\x17\xf0\xc5\x67\xd9\x17\xd1\xa8\x33\x87\x9b\x1b\xdd\x11\x24\xf8\x90\x34\x87\x27\xe7\xf5\x06\xd3\x7a\x43\x59\xbd\x4d\x78\x7c\x4e\x4f\xd4\xc9\x93\xc3\x8b\xe0\x33\xc5\x12\x6c\x3a\x7d\xde\x9e\x81\x0e\xba\x79\x19\x5f\x01\x5d\x95\x27\x2a\x20\xd7\xd3\x73\x0c\x76\x5c\x82\x73\xa3\xaa\x8e\x70\xa1\xf6\xe6\x82\x5c\xf6\x3c\x74\xd1\xae\x49\x07\x01\x39\x3e\x61\xae\xbe\x22\x81\x3b\xff\x9e\x70\x56\x35\x02\xd0\x9c\xa0\x17\x86\x76\x39\x18\x8f\x77\x8d\x6f\x8c\x7e\xc4\x08\x54\xc2\x4c\xd7\xb4\x71\x93\x24\x56\x15\x1c\x41\xd6\x7e\x5d\xa0\xba\x0c\x1c\x21\x73\xa9\x23\xfc\x14\xd4\x3d\xc9\x71\x2d\xa2\xc8\x64\x26\x75\xd3\xfe\xaf\x00\x6c\x31\xc3\xcc\xa6\x85\xdc\x66\x38\x39\xfd\x10\x86\x5b\xe6\x6b\x30\x34\xde\xee\x37\x1c\x7b\xeb\xac\xc4\x8d\xd2\xd9\x78\x55\x5e\x2e\x31\xf1\x4b\x0a\x2a\xb1\x6c\x83\xf7\xb9\xe5\x12\xd1\xb6\x91\x9c\x3a\x43\x65\x8b\x4a\x5b\x57\x45\x05\x55\xe9\xa1\x4e\xae\x13\x67\xb9\xd1\xed\x2e\xd9\x69\x3b\x6e\xb6\x2f\x8c\xa2\xcb\x18\x8d\x15\xfe\x7d\xd1\x1e\xe2\xb2\xbf\x78\xb0\xad\x83\x50\xcf\x55\x4d\x9e\x95\x5f\xc8\x76\xf7\x6a\x2a\x3f\xfb\x10\x69\xe7\xd3\x6a\x50\xcd\x95\xd7\xe4\xc1\x38\x99\x8d\xfd\xed\xde\xb9\x17\xf8\x63\x8b\x73\x4a\xf0\xba\xac\x53\x07\x2e\x7a\x33\xd6\xa8\xe0\x64\x51\x9b\xf2\xac\x59\x60\x59\xd4\x5d\x76\x0e\xe5\xae\xc1\xf2\xf1\x1c\x8e\x4b\x1b\xb3\xb9\xda\x10\xa6\xdb\x6b\x5a\x53\xcc\x31\xda\x61\xdf\x8a\x67\xc4\xd3\xa8\x2d\xe4\xf8\xd2\x7e\x4b\xcf\xf4\xfc\xba\xc2\x5e\x10\xd9\xe5\x8f\x12\x3b\x42\x93\xfa\x36\x72\x29\xea\x5f\xba\x7c\xbc\x39\x91\xfd\x4e\x8b\x70\xea\x7a\x5c\x92\x82\xe6\xed\x39\x74\x23\x07\xb9\x70\xcf\xc6\xe1\xf3\x2e\x67\x0c\x8d\xb7\xf5\x10\x83\x46\xfa\x34\xcb\xe2\x3d\xa8\x8c\xbc\x0f\x50\xc5\xf7\x98\xf3\x6a\xeb\x26\x1d\x69\x44\x9c\x68\x8e\x89\xe2\x39\x54\x1c\x62\xb4\x97\x3b\x4c\x4b\xb6\xf9\x6a\xf1\x97\x85\xb9\xab\xb6\x75\x7e\x63\x88\x0a\x83\x47\x8f\x70\xf7\xca\xb7\x11\xef\x39\x61\xb9\x3e\x60\x63\xa5\x7b\x08\x7e\xd4\x25\xd4\xa8\x2a\xbb\xb3\x63\x59\xd4\x49\x78\x12\x17\x35\x84\xc4\x63\x94\x25\x7d\xbd\x1e\x9f\xfd\xe1\x5f\xfe\xfa\x87\xdf\xff\xd3\x0f\xff\xf8\xaf\x3f\xfc\xdd\xef\xfe\xf8\x0f\x7f\xf3\x1f\xff\xf6\xef\x7f\xf8\xfd\xdf\xfe\xf0\xcf\xbf\xfb\xe3\xef\xfe\xfe\x6c\xec\xe2\x4f\x9d\x88\x31\x73\xdc\x48\xc2\xaf\x1e\x6b\x53\xcc\x50\xfb\x7c\x88\x18\xf8\x64\xe2\xb3\xe7\x23\x16\xfe\x6c\x08\xf4\x8e\x40\xf8\x94\x7d\xc4\x44\x87\xe6\x69\xc3\x68\x27\x7d\xde\x0e\x77\x4f\xe6\x61\xb3\xe9\x2a\x89\x0a\x6b\x49\x43\xd5\xa5\x5d\x4d\xa1\xba\x0f\x6b\x8a\x16\x6c\xed\x34\xb9\x1e\x62\xbc\x28\x03\xd1\x68\x15\xb7\x29\x2a\xf5\xb6\xbb\x2b\x4c\xdb\xf6\xb6\xc0\x55\x35\x36\x12\x39\xf3\x35\x95\xeb\xb5\xed\x6b\xee\x93\x26\x4f\x54\x8f\x4f\x26\xd0\xbe\xfa\x4b\xca\x2b\x15\x9e\x7a\xdb\x7d\xef\x16\xeb\x05\x6c\x58\x3e\xb4\xcb\x4e\xde\x67\xbd\x93\xd8\x8d\xe6\x44\x68\xdf\x66\xdb\x11\x29\x03\xec\xc0\x7e\x1b\x10\xcf\x9f\x92\xb9\x47\xe3\xe5\xc9\x3a\xe2\xb7\x83\xa0\x2f\xd2\x5b\x8f\x9d\x27\xf3\xa0\xf2\xa1\xad\x35\x56\x13\xc2\x04\x0c\x3a\xda\x91\x8b\x95\xe3\x62\xe4\xba\xf4\x3c\x28\x95\x45\x8c\x16\x54\xea\x0f\x17\xfa\x16\x1a\xfd\xc1\xae\x81\x96\xd5\x6b\x2a\x3f\xd6\x27\x3b\xc6\x50\x9f\x1f\x28\xef\x76\xcb\xcc\xe3\x33\x78\x55\xe6\x2b\xf5\x11\x24\x44\x58\xf5\x16\xa6\xcc\x24\x96\xe8\xc7\xc0\xd4\xe5\x70\x70\x2c\x66\xfe\xf1\x86\xa1\xe2\x6c\x25\x97\xfe\xd1\xcb\xaa\x60\x12\xad\x7c\xd6\xa8\xcf\xb7\x60\xb4\xc8\x4a\x2a\x04\x9c\x8d\xcd\x8c\x8a\xfc\x5e\xd5\x74\xc0\x56\xb7\x1a\xab\xb3\x7e\x66\x63\x6c\x07\x62\x2f\x0e\x87\x61\x6d\x1c\x36\x58\x39\x1d\x2e\x9d\x0e\xd6\x4e\xd5\x16\xc1\x9b\x0b\xce\x95\x74\x18\xfa\x9a\xe2\xe3\x3d\x4a\x1d\xd8\xa8\xc0\x19\x93\x1d\xa8\x82\xe0\xb3\xfb\x68\x04\x8a\xb3\xad\x5f\xf9\x0c\x3b\xb8\x54\x80\xfb\x48\x65\x8c\x67\xf3\x04\x1e\xd4\x7e\xd6\xcc\xe7\x94\xc7\x88\xab\x7f\xbc\x18\xfc\x02\xbe\x89\x0a\x83\xdd\x2f\x77\x1d\xfc\xea\x87\xfb\x90\xe7\xb1\x15\xb2\x97\x4f\x6f\x6f\x3e\xe6\xf6\x82\x3d\xe2\x85\xe3\x41\x67\x15\xdd\xb3\xb9\x0b\x89\xb8\x20\xa2\xe5\x08\x04\xbf\xd7\xcf\xee\xc3\x6c\x26\x8e\xda\xfd\x26\xdc\xb1\xd7\x14\xfb\x2e\x1c\xde\x34\x53\x27\x00\x88\x03\x9a\xeb\x86\xde\x34\x53\x31\xe3\x6c\xaa\xbf\xb5\xb2\x73\xa7\xd0\xff\x9e\x05\xc6\x56\x7d\x7d\x50\x25\xf3\x7b\xbf\xa7\x02\x42\x5f\x88\x85\x22\x36\x39\x28\x59\x46\x42\x30\xbc\xeb\x47\xdc\xbb\xaf\xe7\x89\xc1\x7a\xdd\xf9\x26\x04\xb9\xa3\xde\x82\x1d\xfb\x9d\x15\x1c\x72\xc4\x77\x56\x5a\xc8\x07\xaf\x7a\x74\xbe\x12\x9b\x3a\x06\x9b\x03\xf4\x89\xbf\xd6\x03\xdf\x57\xd9\x0f\xc1\x1c\x04\xf8\xef\xf7\x99\x95\x96\xae\x83\x77\x37\x8d\x90\xba\x35\xbe\x80\x2e\xcd\x78\xe3\xc1\x91\x7d\xd2\x27\x56\x70\xa1\xbc\x1e\xc6\x5e\x8d\xcc\x9d\xf1\xab\xb2\xb7\x8f\x57\xe9\x6a\x7b\x6c\x9d\xac\x39\xf5\x1b\x2c\xde\x2a\x7b\x87\xeb\x4f\xff\x06\x8b\x07\xc7\x1d\xd3\x3d\xcc\x5c\x8f\x3c\x00\x38\xeb\x72\xb7\x65\xed\xce\x97\x55\xcc\x4c\xdb\xd9\xfd\xa1\x79\xbc\xfc\x32\xb2\x6c\xbd\xee\xb2\xbd\xbf\xce\x51\x88\x85\x51\x80\x2f\xc4\x62\x38\xad\xbc\x7b\xe2\xb2\xef\xc2\xe1\x9e\x73\xdb\x85\x58\xa4\xcf\x95\xdd\xeb\x3f\x69\xd8\x57\x18\xb7\xb2\x3c\x70\x7b\xd1\xb0\xc7\xe4\x1e\xdb\xa3\x62\x3d\xf2\xb2\x9d\x1e\x54\x04\x1f\x71\x54\x0c\x53\x57\x50\x4d\x7f\x83\x47\x20\x4c\xf6\x4f\xb8\xf5\xb2\xdf\xb8\x78\x41\xca\x95\xae\x78\x60\x1d\xcc\x1e\x89\xd0\x9f\xbd\x6b\x30\x52\xc7\xb2\x03\xa2\x87\x0a\xb0\x14\x0c\x8b\x5e\xe6\x3e\x8d\x51\x6a\x83\x78\x0f\xd4\xa6\x70\x5e\xe3\xb6\x8f\xa0\x9c\x75\x2c\x98\xcb\xca\xf7\xa7\x03\x2d\x9f\x3b\x32\xa8\xe7\x47\x12\xfc\x89\xcd\x44\x38\x43\x0b\x36\x39\xe5\x54\x0b\x52\x64\x32\xc4\xb6\xed\x84\x53\x2d\xde\xe8\x03\x5f\x54\x40\xf2\xff\xab\xbf\xa8\xd0\x62\xb7\xeb\x45\x0c\x1a\xa0\xeb\x66\x9a\x33\xb1\xa4\xfc\x94\x43\x2b\xc3\x9f\x53\xf0\x15\x82\xef\x0b\x78\xba\xc7\x1e\xa4\xd8\xb1\xe4\xfb\x4f\x52\xac\x8d\xff\x3f\x3c\x6c\xb2\x25\x43\x2f\xe9\x83\xa3\xce\x9c\xa5\x70\xdf\x4b\x08\x82\x5e\x67\xc5\xb7\x1e\x91\xe9\xd8\xb3\x15\xfc\x33\x12\xcf\xe9\x21\x9b\xb1\x7b\x38\x62\xfb\x6c\x44\xe7\x2c\xaa\x53\x28\x76\x67\xf4\x9e\x84\xe8\x55\xb9\x26\x94\xf2\x10\xd9\x3a\xa9\x70\xfa\x37\x0f\x90\xb0\xa1\xa2\xee\x90\xda\x77\xb5\xdc\x01\xae\xf4\xea\xbe\xe3\xbe\x79\x60\xed\xc2\x9f\xec\xeb\x06\x03\x28\x1f\x61\xaa\x60\xd8\x56\xe1\x11\xb6\x23\xcc\x10\xe5\xdc\xce\xb7\x63\x8e\xc6\x63\xd8\xb5\x48\xe3\x31\x6c\x3c\xe8\x76\x70\xaa\xce\xb1\xdb\xc1\x9f\x7f\xbe\xfb\x2e\xc5\x4a\x22\x4c\x26\x10\xbd\x67\xe6\x76\xd6\xfb\x68\x60\x1a\x5b\x5d\xdd\x05\x62\x0f\xd1\x5a\x44\x7a\x2a\x92\xbd\xdf\x6c\x38\xd6\x28\xf7\x95\x0a\xf7\x5b\xe5\xfe\x8f\x23\xf9\x32\x6c\x6c\x73\xbf\x69\x36\x55\xab\x3d\x96\xb9\x7b\xed\xc5\xfd\x5f\xcf\x98\x93\x33\x26\x43\xa2\x42\x87\x01\x63\x8d\x4b\x6d\x35\xfd\x0b\xb1\xd8\xb6\xd5\xe7\x0a\xd7\x9f\xc6\x60\x1f\xeb\x63\x1d\xaa\xd7\x59\x96\x0f\x1a\x68\x37\x91\xda\x11\x0e\x5c\xe2\x2d\xc3\x7f\x0e\x00\xe7\xf4\xee\x88\x2a\x69\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 26964, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x2c, 0xfb, 0xd0, 0x4c, 0xde, 0x28, 0x43, 0x54, 0xd, 0xef, 0x47, 0x92, 0xf, 0x80, 0x30, 0xf9, 0xa2, 0x7, 0xd6, 0x6a, 0x3e, 0x92, 0x21, 0xc7, 0xe1, 0x4c, 0x5, 0x87, 0x60, 0x9a, 0x20, 0xee}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 26922, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x41, 0xe2, 0x28, 0xb1, 0xe7, 0xf1, 0x33, 0xc4, 0x40, 0xca, 0x7, 0x5d, 0xbe, 0xea, 0xa7, 0xab, 0xb1, 0x83, 0x2f, 0x65, 0xd8, 0x59, 0x1d, 0x3a, 0xed, 0x22, 0xaa, 0x41, 0xfe, 0x8e, 0xcc, 0xee}}
 	return a, nil
 }
 
-- 
2.43.0


From 073b8e91b620e768db839d1ea9e522c70589a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 27/53] fix: name generated identifiers apart for rpcs whose
 names are keywords or differ by case

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 22 +++++++++----------
 .../NAME-service/server/server.go.tmpl        |  4 ++--
 gengokit/template/template.go                 | 16 +++++++-------
 3 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 3baf5ea..86ade08 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -183,7 +183,7 @@ func MakeGRPCServer(endpoints Endpoints, options ...grpctransport.ServerOption)
 	// {{ ToLower .Service.Name }}
 	return &grpcServer{
 	{{range $i := .Service.Methods}}
-		{{ToLower $i.Name}}: grpctransport.NewServer(
+		grpc{{$i.Name}}: grpctransport.NewServer(
 			endpoints.{{$i.Name}}Endpoint,
 			DecodeGRPC{{$i.Name}}Request,
 			EncodeGRPC{{$i.Name}}Response,
@@ -197,14 +197,14 @@ func MakeGRPCServer(endpoints Endpoints, options ...grpctransport.ServerOption)
 type grpcServer struct {
 	Unimplemented{{.Service.Name}}Server
 {{range $i := .Service.Methods}}
-	{{ToLower $i.Name}}   grpctransport.Handler
+	grpc{{$i.Name}}   grpctransport.Handler
 {{- end}}
 }
 
 // Methods for grpcServer to implement {{GoName .Service.Name}}Server interface
 {{range $i := .Service.Methods}}
 func (s *grpcServer) {{GoName $i.Name}}(ctx context.Context, req *{{GoName $i.RequestType.Name}}) (*{{GoName $i.ResponseType.Name}}, error) {
-	_, rep, err := s.{{ToLower $i.Name}}.ServeGRPC(ctx, req)
+	_, rep, err := s.grpc{{$i.Name}}.ServeGRPC(ctx, req)
 	if err != nil {
 		return nil, err
 	}
@@ -256,9 +256,9 @@ func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption)
 	{{- with $te := .}}
 		{{- with $pkgName := $te.PackageName}}
 			{{- range $i := $te.Service.Methods}}
-	var {{ToLower $i.Name}}Endpoint endpoint.Endpoint
+	var endpoint{{$i.Name}} endpoint.Endpoint
 	{
-		{{ToLower $i.Name}}Endpoint = grpctransport.NewClient(
+		endpoint{{$i.Name}} = grpctransport.NewClient(
 			conn,
 			"{{$pkgName}}.{{$te.Service.Name}}",
 			"{{$i.Name}}",
@@ -274,7 +274,7 @@ func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption)
 
 	return Endpoints{
 	{{range $i := .Service.Methods -}}
-		{{$i.Name}}Endpoint:    {{ToLower $i.Name}}Endpoint,
+		{{$i.Name}}Endpoint:    endpoint{{$i.Name}},
 	{{end}}
 	}, nil
 }
@@ -717,11 +717,9 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 func ServeNATS(conn *nats.Conn, srv *natsServer) error {
 {{with $te := .}}
 	{{- range $i := $te.Service.Methods}}
-		{{ToLower $i.Name}}Sub, err := conn.QueueSubscribe("{{$te.Service.Name}}.{{$i.Name}}", "{{$te.Service.Name}}", srv.{{$i.Name}}.ServeMsg(conn))
-		if err != nil {
+		if _, err := conn.QueueSubscribe("{{$te.Service.Name}}.{{$i.Name}}", "{{$te.Service.Name}}", srv.{{$i.Name}}.ServeMsg(conn)); err != nil {
 			return err
 		}
-		_ = {{ToLower $i.Name}}Sub
 	{{end}}
 	return nil
 {{end}}
@@ -781,9 +779,9 @@ func EncodeNATSGenericResponse(ctx context.Context, reply string, nc *nats.Conn,
 func NewNATSClient(conn *nats.Conn, options ...natstransport.PublisherOption) ({{.Service.Name}}Server, error) {
 	{{- with $te := .}}
 		{{- range $i := $te.Service.Methods}}
-			var {{ToLower $i.Name}}Endpoint endpoint.Endpoint
+			var endpoint{{$i.Name}} endpoint.Endpoint
 			{
-				{{ToLower $i.Name}}Endpoint = natstransport.NewPublisher(
+				endpoint{{$i.Name}} = natstransport.NewPublisher(
 					conn,
 					"{{$te.Service.Name}}.{{$i.Name}}",
 					EncodeNATSGenericRequest,
@@ -796,7 +794,7 @@ func NewNATSClient(conn *nats.Conn, options ...natstransport.PublisherOption) ({
 
 	return Endpoints{
 	{{range $i := .Service.Methods -}}
-		{{$i.Name}}Endpoint:    {{ToLower $i.Name}}Endpoint,
+		{{$i.Name}}Endpoint:    endpoint{{$i.Name}},
 	{{end}}
 	}, nil
 }
diff --git a/gengokit/template/NAME-service/server/server.go.tmpl b/gengokit/template/NAME-service/server/server.go.tmpl
index 863b683..a4dcf54 100644
--- a/gengokit/template/NAME-service/server/server.go.tmpl
+++ b/gengokit/template/NAME-service/server/server.go.tmpl
@@ -128,13 +128,13 @@ func NewEndpoints(svc pb.{{.Service.Name}}Server) pb.Endpoints {
 	// Endpoint domain
 	var (
 	{{range $i := .Service.Methods -}}
-		{{ToLower $i.Name}}Endpoint = pb.Make{{$i.Name}}Endpoint(svc)
+		endpoint{{$i.Name}} = pb.Make{{$i.Name}}Endpoint(svc)
 	{{end}}
 	)
 
 	endpoints := pb.Endpoints{
 	{{range $i := .Service.Methods -}}
-		{{$i.Name}}Endpoint:    {{ToLower $i.Name}}Endpoint,
+		{{$i.Name}}Endpoint:    endpoint{{$i.Name}},
 	{{end}}
 	}
 	// Wrap selected Endpoints with middlewares
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index d0eb7e6..29506da 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,11 +1,11 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (26.922kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (26.811kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
 // NAME-service/server/interrupt.go.tmpl (332B)
-// NAME-service/server/server.go.tmpl (3.202kB)
+// NAME-service/server/server.go.tmpl (3.186kB)
 // NAME-service/server/wrapper.go.tmpl (1.078kB)
 // NAME-service/service/service.go.tmpl (572B)
 // NAME-service/service/service_methods.go.tmpl (291B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4b\x8f\xe4\x38\x72\xf0\x59\xfa\x15\x31\xc2\x3c\xa4\xfa\xb2\x94\xf3\x7d\xc0\x67\xac\xab\x91\x06\xba\xab\x6b\x1e\xbb\xd3\xdd\xb5\x5d\xd5\x3b\x80\x1b\x8d\x5e\x66\x8a\x99\xc9\x2d\xbd\x9a\xa4\xaa\x2a\x37\x9d\x17\x5f\xd6\x80\x0d\x18\xf0\xc9\x07\x63\xe1\x93\xaf\x86\xcf\xfe\x3d\x3b\xc6\xfe\x0b\x23\xf8\x12\x95\x29\xe5\xa3\x67\xd6\xb0\x01\x37\xb0\x53\x29\x8a\x0c\x46\x04\x83\xf1\x24\xb5\xe3\x31\x5c\x56\x19\x85\x05\x2d\x29\x27\x92\x66\x30\x5d\xc1\x94\xf0\xaa\x4c\xe1\xf9\x2b\x78\xf9\xea\x16\xae\x9e\x7f\x7b\x9b\x86\xe3\x31\xbc\xa6\xbc\x29\x4b\x56\x2e\x74\x07\x78\x60\x79\x0e\xd5\x3d\xe5\x0f\x9c\x49\x0a\x72\xc9\x04\xcc\x59\x4e\x55\xe7\x5f\x51\x2e\x58\x55\x5e\xc0\x7a\x9d\x9a\xdf\x9b\x8d\xf7\x02\x9e\x13\x49\xfd\xb7\xf8\xbc\xd9\x84\x61\x4d\x66\x77\x64\x41\xf1\xcd\xb5\xfe\xf9\x92\x14\xea\xcd\x78\x0c\xb7\x76\x0e\x98\x55\xa5\x24\xac\x14\x50\x50\xb9\xac\x32\x01\xb2\x82\x82\xdc\x51\x60\x65\xc6\xee\x59\xd6\x90\x1c\x68\x99\xd5\x15\x2b\xa5\x80\x39\xaf\x0a\x10\x94\xdf\xb3\x19\x15\x23\x44\x83\xd3\x0f\x0d\x15\x12\x48\x99\x01\xa7\xa2\xae\x4a\x41\x41\xae\x6a\xaa\x20\x61\x57\xa4\xa8\x12\xb4\x85\x32\x02\x22\xe0\x81\xe6\x39\xfe\xa5\xe5\xac\xca\x28\x17\x08\x00\xe1\x65\xd4\x3c\xcf\x2b\x6e\x06\x2a\x68\x23\xd5\x40\x90\x53\x73\xa8\x1a\x0e\xa2\xa9\xeb\x8a\x23\xa7\x25\x27\xa5\xc0\xdf\x88\x19\x23\x39\xfb\x2d\x91\xac\x2a\x11\xda\xbc\xe2\x05\x91\x22\x0d\x43\x56\xa8\x1e\x71\x18\x44\xd3\x95\xa4\x22\x0a\x83\x08\x69\xa7\x8f\x12\x7f\x2a\x34\x58\xb9\x18\xff\x46\x54\x25\x36\xcc\x0b\xd5\xce\x2a\xfd\xdf\x31\xab\x1a\xc9\x72\x7c\x28\xa9\x1c\x2f\xa5\xac\xed\xef\x86\xab\x66\x21\xf9\xac\x2a\xef\xcd\x4f\x56\x2e\x44\x14\x86\x41\xb4\x60\x72\xd9\x4c\xd3\x59\x55\x8c\x17\xd5\xf9\x1d\x93\x63\xfc\x9f\xe5\x45\x14\x06\xa4\x5c\xd5\x53\x88\x16\x55\xb5\xc8\x69\xba\xa8\x72\x52\x2e\xd2\x8a\x2f\xc6\x35\xaf\x64\x35\x6d\xe6\x63\x45\xff\xf8\xae\xac\x1e\xca\xb1\xea\x1d\x85\x41\xd6\x70\x45\xe4\x09\x43\xdb\x21\x51\x18\xd0\xa2\x96\xa7\xcc\x6b\xfa\x47\x61\x30\x67\x34\xcf\x0a\x22\xee\x4e\x18\xed\x8d\x89\xc2\x40\x48\xde\xcc\xe4\x09\xc3\xed\x80\x28\x0c\x24\x2b\xa8\x90\xa4\xa8\x4f\x18\xee\x8d\x89\xc2\xe0\x81\x93\xba\xa6\x5c\x9c\x00\xa0\x1d\xb2\xbb\xa4\x9c\xe5\x39\x19\x17\xcd\x63\xd4\x7d\x53\xdf\x2d\xc6\x94\xf3\x8a\x2b\x49\xdb\x33\x91\x93\x3c\xd5\x62\xc5\x6f\xcf\x00\xf5\x03\x11\x59\xaf\xcf\x81\xcd\x81\x7e\x80\xf4\xb2\x2a\xe7\x6c\x91\xde\xba\x9d\x10\x91\x3c\x8f\x20\x2a\x89\x14\x11\x6c\x36\x5d\xdc\xb0\xf5\x9c\x55\xea\x6f\xba\x40\x09\x47\x50\xb4\xcc\x36\x9b\xa3\xa0\x2e\x78\x3d\xb3\x50\x77\xf0\x54\x2f\x07\xdf\x8c\x0b\x2a\x49\x46\x24\xd9\x9e\xf4\xe8\x29\x11\x7e\xbb\xe3\x07\xf6\x97\xeb\x60\xd1\xf1\xe6\xc2\xbd\x7b\x02\x00\xec\x1e\x1d\xc5\x96\x96\xd9\xf8\xeb\x84\x29\xb0\x7b\x07\xc7\x24\x0c\xc3\x7b\xc2\x21\x0e\x83\xf7\x30\x81\x79\x21\xd3\x9b\x9a\xb3\x52\xea\x67\xa5\xc0\xd2\xcb\xaa\xa8\x09\xa7\xba\xc9\x68\x9f\xf4\xa9\xac\x98\x6e\xe9\x90\x99\xbe\xa4\x0f\x37\x94\xdf\x53\xae\x5f\x6a\x6d\x96\xbe\xac\xea\xcb\xbc\x12\x6d\x6b\x7a\x59\xd5\x2b\xfd\xa0\x85\x37\xfd\x9e\x93\x3a\x0c\xc6\x63\x30\xeb\x69\xc5\x50\xeb\x78\xec\xaa\x54\x52\xfa\xb4\x54\xe3\x5a\x25\x93\x3e\x37\x3f\xb1\xd9\xa8\x8f\xf4\x0a\xff\x62\x83\xdd\xd2\xe9\x8d\xfa\x81\x4d\xde\x36\x4d\x6f\xed\x6f\x7c\xd1\x6e\x3f\xec\xcd\xca\xc5\xaf\x48\xde\x28\xba\x3d\xbd\x92\x7e\x85\xbf\x5f\x10\x71\x17\x26\x61\x38\x3e\x3b\xea\x1f\x5c\x59\x9b\x04\xb6\xe9\xf0\xbf\xb1\xb2\xa0\xdf\x96\x40\xd0\xde\xdc\x53\x3e\x02\x26\xbf\x10\xd0\x08\x3a\x6f\x72\x65\xa6\xe6\x4d\x39\x43\x2e\x08\x90\x4b\x22\xa1\xa4\x68\xa5\x2a\xa8\x6a\xe5\x1b\x40\x85\x63\x6b\xca\xcf\xad\x19\x40\x80\x53\x22\x98\x48\xe1\xab\x8a\x03\x7d\x24\x45\x9d\xd3\x11\xac\xaa\x06\x0a\xb6\x58\x4a\xa8\x89\x40\x13\xe9\x21\x2c\x2b\x20\x6e\x22\x3d\x4f\xcd\xab\xac\x99\x51\x81\xe0\x48\xa9\x24\x20\xfd\x86\x94\x59\x8e\x38\x3e\x30\xb9\x04\x4a\x66\x4b\x63\xe9\x21\xb6\xb3\x27\xf0\xc0\x38\xcd\xa0\xa9\x11\x49\x02\xa2\xa6\x33\x36\x67\x33\xa8\x89\x5c\xa6\x10\x7f\x2b\x11\x20\x13\x50\xf3\x6a\x4a\xa6\xf9\x0a\x08\x14\x4c\x48\xed\x25\x40\x46\x05\x5b\x94\x38\x94\x95\xf7\xd5\x1d\x9a\x7b\x0a\x28\x6c\x6c\x46\x9d\x57\xa1\x50\xa4\x08\xa7\xa5\x40\xcb\x00\xb0\x96\x93\x69\x12\x8e\xc7\x8e\xbb\xb3\x9c\xd1\x52\x76\xb9\x2b\x2b\x98\x55\x79\x4e\x67\xd2\x73\x50\xf2\x15\xcc\xaa\x52\x83\xa3\x99\xe7\xae\xb0\x12\x09\x42\x80\x82\x95\x8b\x5c\x3b\x26\x9a\x57\x0c\x39\x5c\x50\xc4\xc3\xc7\x97\x95\x92\xf2\x39\x99\xd1\xa1\x95\x40\x60\x6e\xb2\x7e\x27\xa9\xc1\xc9\x5a\xaf\x44\x39\x0b\xb8\x01\x2f\x0d\x3d\xb3\xaa\x98\xb2\x52\xf1\xa9\x30\x28\x7a\x0b\x3b\x32\xae\x94\x6c\x78\x09\x4c\x22\x5f\x11\xc1\x19\xc9\x73\xca\xd1\x63\x22\x16\xd9\x34\x54\xe4\xec\x30\x74\x1d\x06\x6f\x4a\x47\x1f\xcd\xd6\xeb\xd4\x8e\xd0\x2e\xa0\xd1\x04\xeb\x35\x27\xe5\x82\xc2\xa7\x0c\x2e\x26\xe0\xfa\xbc\xd0\x4b\x86\x7a\x6c\xbd\xfe\x94\x99\x31\x76\x16\x00\x70\xa4\xa6\xb6\x31\x5c\xaf\xb5\x72\xd5\xde\xa5\x6d\x16\x87\xa7\x40\x01\x86\xd8\x23\x22\x01\x6f\xd2\x78\x26\x1f\xc1\x78\x69\x68\x1a\xf0\xef\x08\x05\xe6\x6c\xbd\xfe\xba\x42\xc4\xe0\x53\x96\xbe\xd6\x2e\xe8\xed\xaa\xb6\x04\x26\x10\x6f\xf5\xd0\x8e\xa9\xd7\x65\xa4\x15\x5c\x02\xeb\x30\xb0\x7e\xab\x6a\x43\x44\x69\xda\x43\x39\x22\x83\x93\x27\x61\x80\xc6\x8a\x73\xf8\x64\x02\x25\xcb\x11\x42\x60\xd6\xab\x64\xb9\x02\x12\x06\x9b\xd0\xb6\x59\xe8\xe9\x41\x9c\x92\x11\xc2\x0b\x37\x8e\x9d\xc8\xcc\x17\xe4\xce\x63\x4f\xb8\x5e\xab\x8d\xfc\xa9\xa4\x88\x68\xba\xc1\xce\xe7\xe0\x73\xf9\x53\x49\x87\x18\x8d\xb0\xfa\x28\x13\xc8\x74\x49\x7b\xc5\x24\xd9\x5d\x6e\x58\x3b\xe2\x70\xfd\xfa\x57\xc9\x06\x06\x6e\x47\xad\x37\x09\xc4\x96\x19\x7e\xb3\xe2\x98\xb7\x1c\x01\xa7\x1f\x90\x10\x03\x21\x8d\x0f\xad\x76\x18\x04\xf7\x6e\xed\x84\xbf\x76\x88\x9a\x42\x25\x09\x83\x9e\x55\xdb\x5d\x36\x5c\x37\xdb\x7a\xaf\x97\x23\x40\xb1\x6e\x6d\xb3\xbf\x36\x68\x1c\x9f\xe6\xf9\xd5\xe3\x8c\xd6\x52\xd9\x29\xa1\x55\xac\xe3\x94\xb2\x50\x18\xb2\x98\xbd\x69\x5f\x08\x50\xcb\x48\x10\x8a\xe7\x13\x38\x56\xbf\x60\x59\x96\xd3\x07\xc2\x75\x14\xf8\x46\xd8\xb8\x10\x83\xa0\xba\xce\x57\xa8\x62\x50\x6d\x4a\x04\x5e\xb8\xde\x2a\xea\xa2\xf7\x94\xaf\xdc\xb2\xe1\x7e\x41\x0d\x62\xc2\x36\x05\xef\x55\x8d\x56\x83\xe4\xf9\x6a\xe4\xfa\x09\x98\x91\x12\xa6\x54\xd9\x1a\x9a\xe1\xb0\xe9\x0a\x4a\x64\xbb\xac\xb0\x9d\x3e\xce\xf2\x26\xa3\x99\x8e\x02\xa7\x14\x51\x40\x9a\x6b\x9a\xa5\x3b\xdc\x88\x5b\x9c\x46\x10\xdd\x48\x22\x1b\x11\x8d\x20\xba\x66\xe5\x22\x4a\xdc\xbe\x3f\x73\x0c\x49\x06\xc7\x3b\x0c\x3d\xae\x8c\x5a\x6c\xd2\x34\x15\xca\x2d\x50\xc2\xc3\x4a\xd3\x7c\x31\x81\x82\xd4\x6f\xf5\xab\x77\x9a\xfd\xeb\x0d\x8a\xd7\xf6\x86\xe9\xd9\x2d\x41\x10\x44\x9e\x18\x45\x17\xb0\xde\x8c\xc2\xc0\x77\x23\x37\x61\x18\xa0\xad\x7f\x8f\xa8\x20\x18\x0d\xd2\xa1\x85\x33\xb1\x39\xbc\x1f\x41\x75\x87\xaf\x2d\x62\x6f\xe9\xe3\xbb\x27\xf0\x49\x75\x87\xd8\x06\x41\x4d\x4a\x36\x8b\x5b\x0f\x6f\x1e\x47\x57\x16\x84\xa5\x1b\xbe\xf8\x4c\x7c\x01\x59\x45\x05\x94\x95\x04\xfa\xc8\x84\x7c\x02\x82\x52\x7f\xe1\x5d\x4c\xa9\x5c\x7a\x44\x2a\x49\x8c\x3c\x67\x34\xa7\x92\xc6\x16\x03\xf5\x4e\x13\x70\x14\x2b\x7a\xa9\xe8\xb0\xe7\xdd\x13\xb0\xf4\xf4\xaa\x4e\x98\x78\x98\xc6\xbd\x5d\x0c\xae\x2d\x83\xf5\x0e\xfb\x8e\x4c\x69\x4e\xb3\x76\xe1\x75\xb6\x64\x41\xa5\x15\x53\x14\x6d\xc7\x28\x25\xad\x0f\x4b\x5a\xba\xb7\x95\x27\x99\x06\x98\x16\xb0\x91\xde\x50\x46\xe6\x1b\xdd\x19\x74\x0a\x86\xe8\x3c\x0e\x9b\xa1\xff\xc2\xd9\x4c\x79\x54\x2d\x05\xf0\xb0\x64\xb3\xa5\xda\x2e\x82\x96\x7d\x28\x18\xa3\x6d\x46\x5b\x97\xa5\xe2\xc6\x64\xef\x52\x85\xfb\x21\xd6\xb2\x3a\xda\x55\xb8\x3d\x3a\x38\x1c\xa2\xeb\xa3\xd5\xd0\x0e\x52\x23\x43\xa7\xe2\x38\xa7\x33\xca\xee\x51\x0b\x51\x4d\x62\x35\xef\xd0\x9d\xc2\x0d\xa5\x0e\x8c\x07\x45\xbd\xb0\x3e\xa7\x41\xf8\xea\x11\x11\xc5\xdd\x93\x51\x49\x58\x2e\xd0\x25\xb6\x3b\x07\x81\x58\xbf\x96\xe4\x4c\xae\xd2\x7d\xda\xa2\x43\x7b\x5c\xfc\x08\x8e\xfe\xaf\x4a\xf9\x9f\xab\x52\x3a\x43\x47\x70\xac\x86\x39\x3e\xed\x70\x6c\x40\xf9\xf5\xeb\xeb\x4b\x24\x98\xf2\x93\x23\x4a\x74\xce\xbc\xe1\x98\x84\x15\xad\x89\x77\x4b\x01\xe4\x9e\xb0\x9c\x4c\x73\xaa\x83\x81\xc5\xeb\xeb\x4b\x18\x70\xf1\xcd\xce\xe9\x42\x76\x71\x9f\x68\xd5\xc0\x08\x2a\xe5\x11\x08\x14\xfd\x4e\x86\x45\x49\x32\xe5\xda\x61\x48\x86\x26\x42\x5b\x26\xbc\x8e\x02\x17\xf6\xed\xbb\x61\x48\xb8\xb0\x7d\x6f\x9f\xd1\x79\xc5\x69\x8c\xd8\xbe\x30\x99\xa2\xdb\xca\xf8\x94\xc9\x08\xb7\xc8\xd6\x3c\x13\x74\x87\x68\x99\xc5\x9d\x66\x47\x4f\x9a\xa6\x89\x4a\x5f\xac\xd7\x70\x5b\x7d\x57\x3d\x50\xde\x4a\x24\xb2\x0a\x17\xd7\x3a\x7c\x9f\x23\x46\xf8\x92\xf2\x35\xda\xc6\x83\x62\xbc\x5e\x5b\x98\x4e\xda\x2e\xa0\x4b\x96\x4b\xbc\xc4\xa8\x01\x1c\xeb\xfb\x04\x14\x1d\x8c\xe0\xb9\xca\x7f\x23\xfd\x5e\x0f\xe3\xf3\xaa\x0e\x57\x65\x6f\x07\x13\xc1\x60\x8f\x0e\x27\xd2\x34\xc5\x61\xc9\xc8\x97\xfc\xc0\x9a\xd7\x96\xe0\xed\x80\xd8\xb9\xdc\xfd\xeb\xed\xdc\x77\x6d\xd0\x3c\x38\x7f\x82\x20\x74\x87\xc9\x00\x5b\x5c\x36\x59\x0e\xcf\x4d\x37\xc1\x93\x49\x3f\xa0\x56\xf5\x70\x94\x55\x4b\xee\xf1\x94\x1e\x44\x55\x6d\xb6\x58\xc0\x59\x3b\x55\xd2\x82\x3f\x10\xd5\x62\xd0\xf3\xd3\x86\xb5\xef\x31\xf2\xa9\x3b\x81\xd1\x0e\x27\x15\x15\x4a\x9a\xfc\x50\xe9\xc4\xf8\xb6\xfe\xc8\xd0\xd6\x70\x58\x8b\xfc\x61\xf6\x8e\xc7\xb0\x6f\x77\x00\x43\x75\xe8\x64\x42\x65\x7e\x53\x3d\xc0\xf4\xf8\x0a\xd7\x47\x65\x7f\xb0\x52\x43\xb9\x14\x3a\x39\x64\x54\xe8\xae\x98\xd9\x18\x16\x53\x34\x98\x81\xe2\xe7\x59\x55\x10\x56\xee\xeb\x9c\xc2\x35\x67\x05\xe1\x2c\x5f\xd9\xa4\x95\x9f\xe1\xd2\x1a\x79\x1f\x1d\xf1\xfb\x5d\xe1\x40\x5a\x5e\xd3\x0f\xad\x30\xaa\x60\xda\x7b\xea\xa6\x33\x54\xf8\x6c\xc6\x1c\x13\x3e\xbb\x95\xfc\xb0\x67\x99\xae\xca\xa3\x97\x69\xaf\x8e\xea\x5d\x27\x3d\xc2\x76\x19\x5a\xa8\xc3\x4b\x60\xa6\x50\x0b\xb6\x67\x59\xeb\x7c\x75\xd4\x3a\xed\x25\xa4\x6f\xa1\xfa\xf2\x1b\xfb\x56\x4a\xd4\xb8\x54\x76\xd4\x11\xfb\xc8\x5b\x2c\x51\xf7\xad\xd6\x37\x34\xc7\x64\x79\xa8\x05\xad\xd7\x90\xf6\x2b\xa0\x22\x03\x5b\x9c\x49\x5f\x3c\x4f\xb6\x3b\x20\xbe\xa8\x46\xef\x46\x70\xdf\xfa\xa6\x85\xf3\x4a\xef\x3b\x89\x15\x55\x63\xa6\x70\x47\x57\x6a\xb9\x33\x74\x5f\xa7\x95\x5c\x22\x8f\xed\x2c\xa6\x3a\x0b\xf1\x5d\x62\x22\x0d\xec\x9a\xe7\x90\xe3\x7a\x19\x28\xc4\xc4\x57\x2a\x89\x7a\x49\xca\xaa\x64\x33\x92\x7f\x43\x49\x46\xf9\x2f\xe8\xca\x86\x21\x38\x91\xa8\x4c\x6a\x57\x9a\xa8\xce\x82\x98\xcd\xa8\xcd\x68\x50\x26\x97\x94\x9b\x99\xf1\x3d\xb2\x62\xe2\x68\xfd\x9e\xc9\xa5\xaa\x2e\x20\x8b\x46\x8a\xd6\xb7\x5f\xbe\x4b\x0e\x76\x1c\xc0\x2e\xbe\x4b\x5a\x08\xc6\xc1\x37\xcb\x37\x93\x8f\xca\x06\x5b\x1f\x70\xff\x3f\xb5\x8e\x3a\x7f\x7c\xb2\x5f\xf9\x92\x3e\x78\xa3\xf5\xf4\xaa\x96\x60\x12\x42\x30\x25\xb3\x3b\x5c\x9e\x95\xdd\x33\x3a\xf1\x8e\xb4\x96\x54\xd5\x31\x52\xf8\x56\xe2\x3a\x9a\x14\xbe\x11\x57\x36\x65\x18\x9e\xd9\x25\x30\x19\x6a\x59\x41\xc6\x48\xae\xd3\xd8\x39\x91\x94\xc3\x0c\x6b\x4c\x18\x6f\x53\x1f\xa6\x16\xd0\x0e\x76\x31\xbe\xd6\xe6\x33\xd5\xf8\x5e\x56\x65\xb9\xc7\x39\xd5\x9d\xac\x73\x1a\x0f\x78\xa7\xfe\x96\x43\x0f\x61\x3b\x83\x1a\x78\xad\xf5\xdd\x02\x77\x9a\x4d\xa4\x76\x8f\x4e\x04\xbb\x91\x9e\x9f\x36\x6d\x75\x60\x70\x4f\x78\x9f\xea\xb1\xae\xde\x6e\xf4\x19\x06\xeb\x7e\x87\xd2\x0d\x99\xec\x7a\x96\x86\x6b\x4a\x3c\x91\x51\x36\xc8\x34\x44\x6c\x36\x69\x5f\x5e\x37\x72\xfd\xec\x1c\xd1\x3e\xcf\xb2\x75\x3d\x9f\xd3\x43\xae\xe7\x01\xed\xa5\x93\x68\x41\xeb\x9b\xe3\x63\xe2\x78\x10\xab\x10\x52\x31\xd9\xf8\xa9\xed\x2f\xfb\xc3\x6d\x20\x3b\x48\x1c\x74\xd5\xe1\xdc\x80\x72\x38\xdb\xb1\x17\x58\xcd\xd8\xc3\xf3\x51\x3b\x6f\xb0\xb1\xca\x16\x95\x2c\xf2\x00\xcc\x8e\xfa\xf1\xee\xcb\x1e\xbb\xf8\x9c\x1e\x63\x17\xf7\x5b\xba\x63\xdd\x17\x63\x83\x06\xec\xa2\x56\x0a\x66\xd7\x3e\xa7\x27\xda\x45\x24\xe6\xb5\x42\xe6\x48\xc3\x88\x5d\x9d\x13\x83\xe6\xfa\x24\xd3\x58\xe7\xab\x3e\xdb\xe8\x2f\xdb\x8f\x77\x67\x86\xbd\xce\xab\xf2\x08\xaf\xf3\xf0\x82\x78\xce\xe7\x9e\x15\xde\xeb\x75\x76\x56\x6d\x1f\x1d\xfd\xce\x8c\x21\xf1\xb8\x25\x3b\xb5\x68\xb3\xdf\xeb\x34\x58\x28\x6b\x2c\x6e\x2b\xdf\x91\xd1\x3b\xa5\xcf\x12\x98\x79\x70\x9f\x68\x41\xdd\x03\x25\xbe\xa3\x2b\x01\x6f\xdf\xd9\x4c\xdf\x01\x78\x47\x15\xbd\x8a\x0c\xce\x0e\x39\x51\xca\x36\xd4\x84\xf1\x76\xf2\x30\xb0\x79\xbf\xbb\xd6\xb5\x52\xe8\xa1\x51\xc0\xc2\xd5\xbd\xcd\x96\xcd\xe4\x63\xaa\x78\x12\xdf\x25\xa9\xc9\x6f\x26\x6d\xae\x2c\xd0\x80\x5d\x56\x44\x3d\x6a\x47\x06\x7d\x10\xa5\x5e\x51\x89\x22\x4c\xf5\xae\xe3\xb5\x9d\x15\x19\xe6\xd5\x2c\x01\x3f\xaf\x58\x19\x9f\x15\xd9\xa8\x6d\xba\xc6\x31\xb1\x1a\x89\xa9\x95\xc4\x82\x33\x9c\x41\xaf\xc6\xd4\xcb\xf4\x4a\x1e\x9b\x37\xfb\xe6\xf6\xf6\xda\xc4\x19\xb6\xed\xf0\xbf\x71\x18\xaa\x52\xbc\xe6\x72\xa9\xc4\x0b\x26\x10\x91\xba\xce\xd9\x4c\x1d\x3e\x51\xe7\xf9\x9e\xc0\x6c\x49\xb8\xa0\x72\xd2\xc8\xf9\xf9\xcf\x22\x97\x6e\xc3\x59\x4d\xea\xc0\x54\xdc\x51\xb0\x96\xa6\x45\xed\xd9\xc3\x69\x38\x04\x56\x95\x50\x73\x9a\xd1\x39\x2b\x69\xa6\xce\x4d\x08\xb3\xe7\xb6\xa6\x39\x98\x7c\xeb\x1e\xdb\xe9\x26\xdf\xfc\x03\x1d\xd6\x97\x61\x73\x48\x15\x7c\xe5\xf6\x7b\x7a\x6b\x2b\x0f\x84\xb2\xf3\xf6\xdd\x30\x74\xb5\xfe\x7d\xaf\x4d\x46\x4e\xcf\x81\x7e\xad\xe8\x24\xe4\xfa\x07\x5d\xa1\x26\xd7\xea\x86\xc7\xd4\x7b\x18\x1e\xf2\x74\x2e\x29\x8f\xb7\xdf\xc8\xcb\x76\x69\x63\x6f\x99\x13\x05\x68\x97\xca\xa3\xd2\x81\x26\x4b\xa4\x52\x7f\x05\x32\xa6\x68\x1e\xd1\x9d\x7a\x5d\x35\x88\x43\x12\x7a\x1e\x85\x29\x5c\x5c\x4c\x06\xd9\xec\xba\x4e\xf1\x34\x48\xb9\x40\x80\x66\x58\xfa\x4c\x37\x99\xfc\x7f\x61\xc7\xc5\xe8\xa4\x99\xee\x78\x6e\x77\x0a\x7f\x05\xb7\xd5\x1b\x3c\x97\xb8\xd9\x44\x49\x7a\x4d\xe4\xb2\xd3\x07\x1b\x6e\x69\x51\xa3\x3f\xad\x7a\x58\x71\x1a\x38\xe5\xa5\x92\x8d\xdd\x6c\xa3\xc1\x68\xc7\xc1\x71\x7e\x1d\x92\xe7\x4d\xa9\x0a\x2b\xce\x3c\xe8\x8e\x7a\x45\xb1\xe3\xd7\xba\x3e\x66\xcd\xb0\x7e\xdd\x97\x78\x0c\x54\xc9\xa0\xcd\xcb\xf9\x3f\x8d\xd2\x28\x8c\x53\xe5\x0b\x8d\x2e\xc4\xa9\x88\x43\xbb\x05\xb6\xa4\x66\x67\xfc\x1e\xdf\xf3\x11\x46\x2d\x19\x9d\x93\x26\x97\x68\xed\xb4\x80\xe0\x8e\x54\x69\xc9\x6a\x0e\xdb\xba\x60\x04\x04\xa6\x55\xa6\x02\x47\xd4\x0d\xda\xed\xc7\xf0\x31\x52\xf3\x44\x2e\xe2\xbc\x47\x2d\x8b\xa0\x54\x7b\xaa\xb0\x8b\x13\x1d\xd7\x10\x10\xaa\xa2\x0d\xc8\x0f\x04\xf5\xff\xbf\xfc\x32\x85\x6f\x4d\x49\x0c\x7b\xfa\xf9\x54\xbd\x6f\x28\x57\x07\xa6\xb1\x47\xcd\xab\x7b\x86\x21\xf1\x52\xbd\xc1\xc3\x00\x79\x8e\x25\x76\x85\xad\xae\x44\x62\xbf\xd6\x27\xf3\x41\x23\x14\x0f\x3a\x52\x91\xbe\x20\x5c\x2c\x89\x3a\xe8\x65\xf1\x2f\x74\x13\x56\xe9\x45\x33\x9b\x51\x9a\x09\x1d\x83\xfd\xfc\xe6\xd5\x4b\x73\xee\x3a\xb3\x87\xa4\x6d\x10\xa7\x68\x75\xe8\x60\x55\x74\x98\x2c\x5d\xd4\xc7\x63\xef\x7c\x64\x43\x43\x47\x59\xfb\xb2\x03\x0d\x58\x29\x24\x25\x99\xe5\x99\x56\x92\xbe\x86\xe8\x73\x44\xdc\xf9\x90\x11\x3c\xe8\x63\x6d\x5d\x31\x50\x3e\x23\xae\xea\x08\xde\xe3\xf6\xf3\x59\xa2\xd5\x0f\x16\x1e\x6b\xca\xd7\x6a\x15\x2f\x90\x16\xbb\xa0\xe8\x89\xb0\xb9\xe5\x16\x32\x50\x1b\x5a\xec\x12\x77\x79\xdb\xda\x59\x36\x07\x7c\xf5\x4c\x4d\x69\x86\x5e\xe9\x34\xab\x03\x64\xc7\x21\xbb\xe3\xe4\x89\x9d\x01\xbb\x4d\x3c\x9b\x8b\x68\xc3\xc4\x81\xb3\x89\x82\xe0\x21\xd5\x62\x13\x27\xe9\x0d\x95\x71\x64\x14\xe1\xf9\xed\xaa\xa6\xd1\xc8\x37\x79\x9a\x80\xa5\x15\x32\x1f\xff\xae\x7a\xb0\x72\xd8\xd2\x81\x5e\x87\xe7\x72\x58\x18\xa6\xa7\x88\x15\x63\x83\x6d\x5c\xee\x46\x3d\x3d\xd3\xaf\xa9\x8c\xef\x6c\x81\x70\x13\x06\x6a\x6b\x5c\xe8\x83\xa8\xa9\x16\x87\x6f\xd1\x75\x2c\x49\xee\x19\x09\x85\xbb\x98\xed\xc1\xda\x13\xb3\x16\x71\x05\x7c\x02\x62\x66\x20\xe3\x6b\x13\x3e\x3e\xa4\x4a\x28\x0c\xc6\xd8\x31\x71\x8d\x31\x72\x3b\x41\x7d\xd3\xca\x9d\x8e\x65\x78\x3c\x6d\xe6\xf0\xf6\x1d\x9e\xad\x4d\x8c\xac\xaf\x43\xe5\xab\x3d\x80\x2f\x42\x2e\x3b\x6e\xe5\xec\x4d\x69\x56\x16\x21\x8c\xe0\xf3\x87\xe4\xc9\x76\xf6\x5c\x7b\x29\x82\xfd\x96\xc2\x04\x7e\xf6\x7f\xff\xfc\xcf\xb4\x08\xe5\xb4\xc4\x31\x09\xfc\x85\x7e\x87\x5d\x03\x44\x63\x02\xd3\x66\xfe\xf6\x02\x1b\xdf\x19\x33\x67\x74\x25\x1e\x14\x51\x7c\x9b\xc7\x91\xd5\x0e\x80\x44\xa9\x33\x22\x17\x98\xf8\xc2\x7a\x6e\x8d\xee\x0e\x94\x55\x79\x8e\x72\xe5\x1c\x79\xec\x18\x8d\x10\xb8\x29\xd6\x1a\xa8\xe6\xac\xef\x4b\xfa\x10\x3f\xe8\x7d\xa1\x78\xa4\x74\xa8\x4f\xbb\x3d\x3e\xb0\x0e\x03\xd5\x0b\x9f\x51\xbf\xfc\x1a\x67\xb9\x30\x0a\xf4\xd7\x46\x9d\xe3\xba\x9b\x5e\x44\x32\x31\x67\x78\x25\x64\x49\x9d\x36\x54\x8a\xd4\x5b\xdc\x36\xcc\x10\xc0\xd4\xed\x0d\x7b\x85\xe5\x98\x23\xda\xa9\x2e\x44\x79\x93\x3a\x54\x15\x5a\x78\xed\xc0\x4e\x85\x33\x85\x81\xd5\xbd\x00\x7e\x55\xdf\xb9\xe4\x56\x46\xe2\x65\x0b\x34\xf1\x74\x5e\x9c\x40\xf7\x28\xdc\x32\x6d\x67\x18\x18\xdd\x6e\x2b\x6c\x34\x7b\xa7\x03\xc2\x20\x15\x76\x32\xef\xdb\x19\x86\x83\x3e\x89\x97\xa4\x3a\xe0\x94\xb8\xa4\xc4\x5e\xeb\xbf\x1d\xe4\x2a\xec\xfb\x4b\x2b\xaa\xd8\xaa\x2f\xf1\xe0\x18\x54\x7e\xe7\xc6\xd6\xf8\xf1\xab\x9d\xe7\x9a\x70\x5a\x4a\x13\x13\x3a\x39\x55\x07\xcc\xd0\x1c\x21\x56\xb6\x55\x41\x46\x09\x3e\x94\xb9\x0f\xbc\x14\xc5\x5e\xb2\x7a\x63\x5e\x38\x33\x06\x46\x75\x19\x8e\x77\x83\x8c\xce\x29\x07\x9e\xa2\xd6\x4e\x2f\x31\xc5\x89\x0a\x48\x69\x0c\x8c\x85\xdb\xf0\x77\x8b\x56\x03\x19\x35\x37\x3a\x41\xb8\xe1\x5d\x8d\xce\x9c\xcb\x7f\x4d\x49\xf6\x34\xcf\x63\x0d\xfc\xb8\xb3\x8b\xf6\xb0\xfe\x1c\x0d\xde\x08\x22\xa3\x09\x38\x1a\x5b\xeb\xf0\x20\x65\x96\x9d\x91\xd1\xd4\x5b\x8a\xe8\x4b\x45\x5b\xd0\x58\xa5\x86\xa1\xd1\xc5\x04\xdc\xe5\x94\x56\xdd\x19\x3f\x4f\x75\x0f\x9e\xe6\x79\xf5\x70\x4d\xb8\x64\x24\xc7\xac\x9a\xe4\x8d\x71\x0a\x9f\x33\x31\x23\x3c\x7b\x53\xaa\x8b\x44\x17\xed\x9b\x8d\x09\x6d\x91\xf4\x09\xf8\x13\xee\xa8\x54\xac\x4a\xee\x28\xd5\x7e\xb5\x3a\xac\x58\x7b\x55\xab\x41\xa3\xc3\x4c\xb7\x61\xd7\x3d\x6c\x35\xdc\xfb\x28\x9d\xab\x19\x12\x78\x06\xf1\x19\xc9\x8c\x38\x98\x77\x88\x40\x8b\x96\x8b\xd6\x31\xa2\xbc\x26\x9c\x14\xc2\x86\x2b\xbf\x22\x5c\xc4\x1c\xd7\x10\x2f\x6b\xb4\xef\x31\xb6\xff\xd0\x50\xbe\x6a\xbb\xf3\xf4\xcd\xeb\xef\xd2\x5f\x62\x63\x6c\x07\x78\x5d\x42\x3f\x86\xd1\xe7\x55\x2f\x26\xad\xd4\xaa\x7b\x15\x26\x80\x51\xe7\x65\x4a\xdb\x2d\xfd\xae\xd2\x8e\x35\x44\x8a\x48\xdd\x07\xf3\xac\x0a\x4a\xfa\x35\x2d\xd5\xa4\x6e\x35\x31\xba\xe9\x4f\xef\xee\x47\xe1\x55\x49\xab\xf9\x0e\x1e\xf4\xc3\x2e\x1e\x8a\xac\x1f\x83\x88\xdb\x56\x9f\x73\xfa\xa1\x2d\x75\x9b\xa0\x45\x65\x92\x6d\xd7\x36\x33\xd8\x13\x10\xf5\x6a\xcc\xa1\x22\xa7\xd6\x8f\xc2\x46\x07\xce\xae\x13\xa1\xf4\xe7\x76\x34\xa0\x63\x23\x7e\x42\x01\xb3\x07\xc1\x3e\xdd\xd7\xeb\x5b\x0f\xd5\x34\x9d\x8b\x34\xa4\x28\x5e\xec\xa8\x89\x6d\x25\xe1\x74\xc1\x1b\x41\xaf\x51\xc1\xa0\xbe\x14\xbe\xfa\x78\x23\xe8\x55\xd9\x14\x2f\x9b\x62\x4a\xb9\xb8\x68\x5f\x5c\x15\x4c\xbe\x29\xeb\xaa\x6e\x30\x24\xce\x9c\x5a\xd9\x84\x1d\x7d\xda\xe2\x66\xd1\x71\x27\xd0\xd3\x58\xa1\x9a\xbe\xa0\x42\x90\x05\x4d\xf6\x1d\x7b\xb0\x62\xf0\x7e\x64\xb4\x95\x73\x27\x95\x27\xe5\xf5\xf2\x6b\xb0\xee\x14\xa3\x30\xce\x40\x5f\x0e\xa5\x3f\x8f\xb8\x63\x85\x86\x8a\xb1\xad\xef\x6e\x5d\x71\xa5\xec\xf6\x95\x5f\x11\xf0\x6e\xe9\x75\x49\x04\x2c\x49\xa6\xc7\x0e\x15\x5b\x55\x89\x2f\xc3\xc3\x9a\x0c\xb3\xc2\xad\x7c\xfb\x37\x7a\xe5\x92\x6a\x28\xda\x91\x12\xa9\x35\xfa\xae\xc6\x8b\xc2\x8c\xd9\x56\x97\x56\xb4\xe8\x98\x20\x14\xa3\x71\x51\x69\x20\xdd\x8a\xee\xde\x5a\xee\xde\x0a\xed\xdd\xc8\x71\xc8\x8b\x54\xf6\x0e\xd9\xc2\x5f\x15\x73\x77\x61\xa0\xf2\x42\x76\x37\x25\x6d\x6f\x4e\xcd\x96\xa8\xcb\x52\xf5\x86\xe4\xa2\x02\x92\x65\x66\x0f\x2b\x6d\x0f\x0d\xcf\xc3\xfd\x25\xe5\xc8\x74\x3d\xc7\xfb\xc5\x23\xa3\xc4\xaf\x89\x5c\x26\x87\x06\xba\x55\xc1\xf3\xf6\x28\x73\xa8\x44\xa2\xe4\xa3\x6b\xcf\x08\xc2\x14\x4d\x6c\xdb\x09\xb5\x67\x6f\x74\x9b\x62\xed\x29\x3d\x97\x80\x3d\x8d\xf6\x82\x9c\xdd\xa3\xd7\x4a\xa4\xe1\x5a\x51\x49\x95\x5f\xc0\xf4\x01\x29\xf1\x7a\xd6\xf7\x78\xd6\xbe\xd6\x17\xc1\x74\x1b\xea\xc9\x59\x55\x50\x7d\x3f\xa1\x9d\x24\x63\x62\x86\xd7\xeb\x57\x20\x56\x42\xd2\x62\x04\x42\x9d\x0a\xcf\xd9\x1d\xcd\x57\x56\xe8\x50\x8c\x20\x5a\x56\x42\x5e\xa0\x44\x47\x46\x81\x76\x28\x88\xdd\x54\xf6\x60\xf1\x60\xe6\xf6\xf4\xca\x34\x9b\xc3\x27\x56\xe4\xbe\x21\xe2\x9a\xd3\x39\x7b\x74\x33\x8e\x20\xc2\x5d\x19\xe9\x88\xdc\xe1\x31\xd1\xcd\x17\xe3\x71\x04\xff\xc7\x71\x02\xa5\x32\x68\x9c\x16\x6c\x78\x9e\x5e\xa3\x77\xe2\xa0\x1d\x7d\xc6\x0b\x9d\x8b\x26\x34\x17\x74\x31\xb2\xec\x89\x38\x4c\x7d\x55\xdf\x64\x88\x5e\x56\x7a\x21\xbd\xf4\xb6\x3e\x68\xaf\x18\xa2\x93\x41\x08\xe8\xa1\xe2\x77\x23\xd0\x29\x73\x30\x96\x1e\x03\x3f\xbc\x6a\xc7\xb5\xbf\xa9\xdf\x32\x64\x61\xd4\xa6\x6d\xf1\xf0\x58\x70\x7c\x2c\x14\xac\xd7\x78\x71\x77\x3b\xf8\x31\x48\xe3\x5b\x95\x01\xb4\xce\x06\x42\x62\x65\x46\x1f\x77\x47\x7c\x69\xc7\x98\xea\xfe\x76\x54\xb1\xaf\xb8\x8f\xce\x86\xfa\x6f\xb0\x67\x5c\xcf\xa5\x5d\xaf\xc2\x6f\x6a\xf6\x83\x69\x63\xe3\x41\x06\xb3\xaa\x5e\xbd\x79\xfd\x5d\xdc\x8c\xc0\xef\xff\x8c\x08\x8a\xea\x03\xd3\xc7\xb6\x6b\xeb\x1d\xec\x62\xd5\xf5\x4b\xbb\x39\x62\xc3\x99\x9e\x03\x00\x3b\xd5\xfd\x60\xbb\xc0\x6f\x7d\xdb\x76\x35\x3b\xbf\xdb\x9f\x4e\x5d\xf5\x56\xfa\xf7\xae\x3b\x9c\xff\xa9\x56\x7e\x28\x91\x6e\x4e\x12\x6c\x33\xd1\xbe\x36\x87\x23\xf6\xd2\xeb\x9d\x30\x50\x9a\xc7\xae\xe3\x94\x08\x0a\x67\xb8\x87\xdf\xbc\xfe\x6e\xa4\x8a\x4b\xc6\xb4\x26\xae\x19\xf7\x6f\x89\x7e\xc1\xc5\x04\xce\x70\x80\x7e\x54\x85\x04\x13\x1e\x38\x76\x7e\x8e\x6f\x4c\x82\xe1\x52\x3e\xda\xd2\xe8\x0d\xfa\xb7\x33\x75\x0e\xbe\xe1\x26\x55\x83\xe2\x68\x37\xae\xac\xa0\x6e\xf2\x5c\xb5\x1b\x3b\x47\x33\xf4\x30\x04\x54\x0d\x9a\x6e\xeb\xbe\x1a\xb3\xa4\xd2\x3b\xc6\xec\x15\xd6\x85\xf5\x03\x50\xf4\x15\x4c\xba\x23\x05\x78\x59\x49\x73\x33\x17\x41\x22\x2c\xa5\x29\x96\xe4\x9e\x82\xfd\xe2\xc6\x7e\x97\x44\xcd\x33\x55\xd5\x2a\x73\x39\x4d\x5d\xce\x41\xcd\x6f\x51\xc3\x7b\xce\x26\xbf\x4f\xec\x81\x26\xe5\x7b\x20\x55\x2b\x97\xa8\x76\xa5\x3d\xff\xea\x1c\xe5\xce\xe0\x9a\xd2\x72\x97\x77\xba\x9c\xec\xdd\x1c\x19\xb6\x07\x7e\xc6\xa7\xa7\x93\xa9\xb8\xed\xb9\x5a\x79\x84\x77\xf8\x93\x15\x94\x9d\xc7\x63\x32\xbf\x7e\x1d\xd9\xd9\x0c\x5d\xf7\x4d\x50\xaa\x90\xd7\xa8\x51\x86\x8e\xc7\x1c\x54\xd8\xdb\x29\xa9\x5e\x65\xb3\x37\x23\xb5\x1d\x5f\x99\x74\x94\xf6\xc6\xb6\x53\x52\x36\x4b\x63\xa6\xb1\xa3\x75\x7a\xa6\x8d\x7d\xb6\x53\x52\xa6\x19\x03\x5f\xed\xe6\x99\x2a\x89\x7b\x83\x0e\x35\x51\xe9\x80\xff\xf7\xe5\x97\x7e\xb9\x68\x04\x0f\xa6\x26\xa2\x12\x9e\x35\xa7\xe8\xe4\x10\xb5\x1f\x48\xa9\x60\x29\xa7\x40\x09\x2a\x91\x12\xbf\x9d\x80\xfb\x47\x53\xe1\xef\x3f\x93\xc0\x86\x42\x87\x30\x2d\x8e\x16\x89\x83\x29\x33\x7b\x3c\xa4\x27\x65\xd6\xcb\xf6\xfd\x19\x33\x3d\xe9\xe9\x29\xb3\x53\x32\x60\x13\xec\x92\x5e\xbd\xfa\x6a\x30\x09\x86\x59\xec\x36\x37\x8e\x82\xa1\x58\x00\xc8\xc7\x95\x9f\xf5\xda\x72\x7f\xfa\x60\x61\x42\xad\x27\x9f\xe6\x80\x1a\x70\x1a\x1e\xf7\x6a\x11\xf0\x49\xa7\xf0\xf1\xea\x17\x7b\xa7\x98\xc7\xdb\x95\x88\x64\x04\x91\x27\x33\x17\xf0\xc5\x67\xd9\x17\xd1\xa8\x33\x87\x9b\x1b\xdd\x11\x24\xf8\x90\x34\x87\x27\xe7\xf5\x06\xd3\x7a\x43\x59\xbd\x4d\x78\x7c\x4e\x4f\xd4\xc9\x93\xc3\x8b\xe0\x33\xc5\x12\x6c\x3a\x7d\xde\x9e\x81\x0e\xba\x79\x19\x5f\x01\x5d\x95\x27\x2a\x20\xd7\xd3\x73\x0c\x76\x5c\x82\x73\xa3\xaa\x8e\x70\xa1\xf6\xe6\x82\x5c\xf6\x3c\x74\xd1\xae\x49\x07\x01\x39\x3e\x61\xae\xbe\x22\x81\x3b\xff\x9e\x70\x56\x35\x02\xd0\x9c\xa0\x17\x86\x76\x39\x18\x8f\x77\x8d\x6f\x8c\x7e\xc4\x08\x54\xc2\x4c\xd7\xb4\x71\x93\x24\x56\x15\x1c\x41\xd6\x7e\x5d\xa0\xba\x0c\x1c\x21\x73\xa9\x23\xfc\x14\xd4\x3d\xc9\x71\x2d\xa2\xc8\x64\x26\x75\xd3\xfe\xaf\x00\x6c\x31\xc3\xcc\xa6\x85\xdc\x66\x38\x39\xfd\x10\x86\x5b\xe6\x6b\x30\x34\xde\xee\x37\x1c\x7b\xeb\xac\xc4\x8d\xd2\xd9\x78\x55\x5e\x2e\x31\xf1\x4b\x0a\x2a\xb1\x6c\x83\xf7\xb9\xe5\x12\xd1\xb6\x91\x9c\x3a\x43\x65\x8b\x4a\x5b\x57\x45\x05\x55\xe9\xa1\x4e\xae\x13\x67\xb9\xd1\xed\x2e\xd9\x69\x3b\x6e\xb6\x2f\x8c\xa2\xcb\x18\x8d\x15\xfe\x7d\xd1\x1e\xe2\xb2\xbf\x78\xb0\xad\x83\x50\xcf\x55\x4d\x9e\x95\x5f\xc8\x76\xf7\x6a\x2a\x3f\xfb\x10\x69\xe7\xd3\x6a\x50\xcd\x95\xd7\xe4\xc1\x38\x99\x8d\xfd\xed\xde\xb9\x17\xf8\x63\x8b\x73\x4a\xf0\xba\xac\x53\x07\x2e\x7a\x33\xd6\xa8\xe0\x64\x51\x9b\xf2\xac\x59\x60\x59\xd4\x5d\x76\x0e\xe5\xae\xc1\xf2\xf1\x1c\x8e\x4b\x1b\xb3\xb9\xda\x10\xa6\xdb\x6b\x5a\x53\xcc\x31\xda\x61\xdf\x8a\x67\xc4\xd3\xa8\x2d\xe4\xf8\xd2\x7e\x4b\xcf\xf4\xfc\xba\xc2\x5e\x10\xd9\xe5\x8f\x12\x3b\x42\x93\xfa\x36\x72\x29\xea\x5f\xba\x7c\xbc\x39\x91\xfd\x4e\x8b\x70\xea\x7a\x5c\x92\x82\xe6\xed\x39\x74\x23\x07\xb9\x70\xcf\xc6\xe1\xf3\x2e\x67\x0c\x8d\xb7\xf5\x10\x83\x46\xfa\x34\xcb\xe2\x3d\xa8\x8c\xbc\x0f\x50\xc5\xf7\x98\xf3\x6a\xeb\x26\x1d\x69\x44\x9c\x68\x8e\x89\xe2\x39\x54\x1c\x62\xb4\x97\x3b\x4c\x4b\xb6\xf9\x6a\xf1\x97\x85\xb9\xab\xb6\x75\x7e\x63\x88\x0a\x83\x47\x8f\x70\xf7\xca\xb7\x11\xef\x39\x61\xb9\x3e\x60\x63\xa5\x7b\x08\x7e\xd4\x25\xd4\xa8\x2a\xbb\xb3\x63\x59\xd4\x49\x78\x12\x17\x35\x84\xc4\x63\x94\x25\x7d\xbd\x1e\x9f\xfd\xe1\x5f\xfe\xfa\x87\xdf\xff\xd3\x0f\xff\xf8\xaf\x3f\xfc\xdd\xef\xfe\xf8\x0f\x7f\xf3\x1f\xff\xf6\xef\x7f\xf8\xfd\xdf\xfe\xf0\xcf\xbf\xfb\xe3\xef\xfe\xfe\x6c\xec\xe2\x4f\x9d\x88\x31\x73\xdc\x48\xc2\xaf\x1e\x6b\x53\xcc\x50\xfb\x7c\x88\x18\xf8\x64\xe2\xb3\xe7\x23\x16\xfe\x6c\x08\xf4\x8e\x40\xf8\x94\x7d\xc4\x44\x87\xe6\x69\xc3\x68\x27\x7d\xde\x0e\x77\x4f\xe6\x61\xb3\xe9\x2a\x89\x0a\x6b\x49\x43\xd5\xa5\x5d\x4d\xa1\xba\x0f\x6b\x8a\x16\x6c\xed\x34\xb9\x1e\x62\xbc\x28\x03\xd1\x68\x15\xb7\x29\x2a\xf5\xb6\xbb\x2b\x4c\xdb\xf6\xb6\xc0\x55\x35\x36\x12\x39\xf3\x35\x95\xeb\xb5\xed\x6b\xee\x93\x26\x4f\x54\x8f\x4f\x26\xd0\xbe\xfa\x4b\xca\x2b\x15\x9e\x7a\xdb\x7d\xef\x16\xeb\x05\x6c\x58\x3e\xb4\xcb\x4e\xde\x67\xbd\x93\xd8\x8d\xe6\x44\x68\xdf\x66\xdb\x11\x29\x03\xec\xc0\x7e\x1b\x10\xcf\x9f\x92\xb9\x47\xe3\xe5\xc9\x3a\xe2\xb7\x83\xa0\x2f\xd2\x5b\x8f\x9d\x27\xf3\xa0\xf2\xa1\xad\x35\x56\x13\xc2\x04\x0c\x3a\xda\x91\x8b\x95\xe3\x62\xe4\xba\xf4\x3c\x28\x95\x45\x8c\x16\x54\xea\x0f\x17\xfa\x16\x1a\xfd\xc1\xae\x81\x96\xd5\x6b\x2a\x3f\xd6\x27\x3b\xc6\x50\x9f\x1f\x28\xef\x76\xcb\xcc\xe3\x33\x78\x55\xe6\x2b\xf5\x11\x24\x44\x58\xf5\x16\xa6\xcc\x24\x96\xe8\xc7\xc0\xd4\xe5\x70\x70\x2c\x66\xfe\xf1\x86\xa1\xe2\x6c\x25\x97\xfe\xd1\xcb\xaa\x60\x12\xad\x7c\xd6\xa8\xcf\xb7\x60\xb4\xc8\x4a\x2a\x04\x9c\x8d\xcd\x8c\x8a\xfc\x5e\xd5\x74\xc0\x56\xb7\x1a\xab\xb3\x7e\x66\x63\x6c\x07\x62\x2f\x0e\x87\x61\x6d\x1c\x36\x58\x39\x1d\x2e\x9d\x0e\xd6\x4e\xd5\x16\xc1\x9b\x0b\xce\x95\x74\x18\xfa\x9a\xe2\xe3\x3d\x4a\x1d\xd8\xa8\xc0\x19\x93\x1d\xa8\x82\xe0\xb3\xfb\x68\x04\x8a\xb3\xad\x5f\xf9\x0c\x3b\xb8\x54\x80\xfb\x48\x65\x8c\x67\xf3\x04\x1e\xd4\x7e\xd6\xcc\xe7\x94\xc7\x88\xab\x7f\xbc\x18\xfc\x02\xbe\x89\x0a\x83\xdd\x2f\x77\x1d\xfc\xea\x87\xfb\x90\xe7\xb1\x15\xb2\x97\x4f\x6f\x6f\x3e\xe6\xf6\x82\x3d\xe2\x85\xe3\x41\x67\x15\xdd\xb3\xb9\x0b\x89\xb8\x20\xa2\xe5\x08\x04\xbf\xd7\xcf\xee\xc3\x6c\x26\x8e\xda\xfd\x26\xdc\xb1\xd7\x14\xfb\x2e\x1c\xde\x34\x53\x27\x00\x88\x03\x9a\xeb\x86\xde\x34\x53\x31\xe3\x6c\xaa\xbf\xb5\xb2\x73\xa7\xd0\xff\x9e\x05\xc6\x56\x7d\x7d\x50\x25\xf3\x7b\xbf\xa7\x02\x42\x5f\x88\x85\x22\x36\x39\x28\x59\x46\x42\x30\xbc\xeb\x47\xdc\xbb\xaf\xe7\x89\xc1\x7a\xdd\xf9\x26\x04\xb9\xa3\xde\x82\x1d\xfb\x9d\x15\x1c\x72\xc4\x77\x56\x5a\xc8\x07\xaf\x7a\x74\xbe\x12\x9b\x3a\x06\x9b\x03\xf4\x89\xbf\xd6\x03\xdf\x57\xd9\x0f\xc1\x1c\x04\xf8\xef\xf7\x99\x95\x96\xae\x83\x77\x37\x8d\x90\xba\x35\xbe\x80\x2e\xcd\x78\xe3\xc1\x91\x7d\xd2\x27\x56\x70\xa1\xbc\x1e\xc6\x5e\x8d\xcc\x9d\xf1\xab\xb2\xb7\x8f\x57\xe9\x6a\x7b\x6c\x9d\xac\x39\xf5\x1b\x2c\xde\x2a\x7b\x87\xeb\x4f\xff\x06\x8b\x07\xc7\x1d\xd3\x3d\xcc\x5c\x8f\x3c\x00\x38\xeb\x72\xb7\x65\xed\xce\x97\x55\xcc\x4c\xdb\xd9\xfd\xa1\x79\xbc\xfc\x32\xb2\x6c\xbd\xee\xb2\xbd\xbf\xce\x51\x88\x85\x51\x80\x2f\xc4\x62\x38\xad\xbc\x7b\xe2\xb2\xef\xc2\xe1\x9e\x73\xdb\x85\x58\xa4\xcf\x95\xdd\xeb\x3f\x69\xd8\x57\x18\xb7\xb2\x3c\x70\x7b\xd1\xb0\xc7\xe4\x1e\xdb\xa3\x62\x3d\xf2\xb2\x9d\x1e\x54\x04\x1f\x71\x54\x0c\x53\x57\x50\x4d\x7f\x83\x47\x20\x4c\xf6\x4f\xb8\xf5\xb2\xdf\xb8\x78\x41\xca\x95\xae\x78\x60\x1d\xcc\x1e\x89\xd0\x9f\xbd\x6b\x30\x52\xc7\xb2\x03\xa2\x87\x0a\xb0\x14\x0c\x8b\x5e\xe6\x3e\x8d\x51\x6a\x83\x78\x0f\xd4\xa6\x70\x5e\xe3\xb6\x8f\xa0\x9c\x75\x2c\x98\xcb\xca\xf7\xa7\x03\x2d\x9f\x3b\x32\xa8\xe7\x47\x12\xfc\x89\xcd\x44\x38\x43\x0b\x36\x39\xe5\x54\x0b\x52\x64\x32\xc4\xb6\xed\x84\x53\x2d\xde\xe8\x03\x5f\x54\x40\xf2\xff\xab\xbf\xa8\xd0\x62\xb7\xeb\x45\x0c\x1a\xa0\xeb\x66\x9a\x33\xb1\xa4\xfc\x94\x43\x2b\xc3\x9f\x53\xf0\x15\x82\xef\x0b\x78\xba\xc7\x1e\xa4\xd8\xb1\xe4\xfb\x4f\x52\xac\x8d\xff\x3f\x3c\x6c\xb2\x25\x43\x2f\xe9\x83\xa3\xce\x9c\xa5\x70\xdf\x4b\x08\x82\x5e\x67\xc5\xb7\x1e\x91\xe9\xd8\xb3\x15\xfc\x33\x12\xcf\xe9\x21\x9b\xb1\x7b\x38\x62\xfb\x6c\x44\xe7\x2c\xaa\x53\x28\x76\x67\xf4\x9e\x84\xe8\x55\xb9\x26\x94\xf2\x10\xd9\x3a\xa9\x70\xfa\x37\x0f\x90\xb0\xa1\xa2\xee\x90\xda\x77\xb5\xdc\x01\xae\xf4\xea\xbe\xe3\xbe\x79\x60\xed\xc2\x9f\xec\xeb\x06\x03\x28\x1f\x61\xaa\x60\xd8\x56\xe1\x11\xb6\x23\xcc\x10\xe5\xdc\xce\xb7\x63\x8e\xc6\x63\xd8\xb5\x48\xe3\x31\x6c\x3c\xe8\x76\x70\xaa\xce\xb1\xdb\xc1\x9f\x7f\xbe\xfb\x2e\xc5\x4a\x22\x4c\x26\x10\xbd\x67\xe6\x76\xd6\xfb\x68\x60\x1a\x5b\x5d\xdd\x05\x62\x0f\xd1\x5a\x44\x7a\x2a\x92\xbd\xdf\x6c\x38\xd6\x28\xf7\x95\x0a\xf7\x5b\xe5\xfe\x8f\x23\xf9\x32\x6c\x6c\x73\xbf\x69\x36\x55\xab\x3d\x96\xb9\x7b\xed\xc5\xfd\x5f\xcf\x98\x93\x33\x26\x43\xa2\x42\x87\x01\x63\x8d\x4b\x6d\x35\xfd\x0b\xb1\xd8\xb6\xd5\xe7\x0a\xd7\x9f\xc6\x60\x1f\xeb\x63\x1d\xaa\xd7\x59\x96\x0f\x1a\x68\x37\x91\xda\x11\x0e\x5c\xe2\x2d\xc3\x7f\x0e\x00\xe7\xf4\xee\x88\x2a\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4b\x8f\xe4\x38\x72\xf0\x59\xfa\x15\x31\xc2\x3c\xa4\xfa\xb2\x94\xf3\x7d\xc0\x67\xac\xab\x91\x06\xba\xab\x6b\x1e\xbb\xd3\xdd\xb5\xd5\xd5\x3b\x80\x1b\x8d\x5e\x66\x8a\x99\xc9\x2d\xbd\x9a\xa4\xaa\x2a\x37\x9d\x17\x5f\xd6\x80\x0d\x18\xf0\xc9\x07\x63\xe1\x93\xaf\x86\xcf\xfe\x3d\x3b\xc6\xfe\x0b\x23\xf8\x12\x95\x29\xe5\xa3\x67\xd6\xb0\x01\x37\xb0\x53\x29\x8a\x0c\x46\x04\x83\xf1\x24\xb5\xe3\x31\x5c\x56\x19\x85\x05\x2d\x29\x27\x92\x66\x30\x5d\xc1\x94\xf0\xaa\x4c\xe1\xf9\x2b\x78\xf9\xea\x16\xae\x9e\x7f\x7b\x9b\x86\xe3\x31\xdc\x50\xde\x94\x25\x2b\x17\xba\x03\x3c\xb0\x3c\x87\xea\x9e\xf2\x07\xce\x24\x05\xb9\x64\x02\xe6\x2c\xa7\xaa\xf3\xaf\x28\x17\xac\x2a\x2f\x60\xbd\x4e\xcd\xef\xcd\xc6\x7b\x01\xcf\x89\xa4\xfe\x5b\x7c\xde\x6c\xc2\xb0\x26\xb3\x3b\xb2\xa0\xf8\xe6\x5a\xff\x7c\x49\x0a\xf5\x66\x3c\x86\x5b\x3b\x07\xcc\xaa\x52\x12\x56\x0a\x28\xa8\x5c\x56\x99\x00\x59\x41\x41\xee\x28\xb0\x32\x63\xf7\x2c\x6b\x48\x0e\xb4\xcc\xea\x8a\x95\x52\xc0\x9c\x57\x05\x08\xca\xef\xd9\x8c\x8a\x11\xa2\xc1\xe9\x87\x86\x0a\x09\xa4\xcc\x80\x53\x51\x57\xa5\xa0\x20\x57\x35\x55\x90\xb0\x2b\x52\x54\x09\xda\x42\x19\x01\x11\xf0\x40\xf3\x1c\xff\xd2\x72\x56\x65\x94\x0b\x04\x80\xf0\x32\x6a\x9e\xe7\x15\x37\x03\x15\xb4\x91\x6a\x20\xc8\xa9\x39\x54\x0d\x07\xd1\xd4\x75\xc5\x91\xd3\x92\x93\x52\xe0\x6f\xc4\x8c\x91\x9c\xfd\x96\x48\x56\x95\x08\x6d\x5e\xf1\x82\x48\x91\x86\x21\x2b\x54\x8f\x38\x0c\xa2\xe9\x4a\x52\x11\x85\x41\x84\xb4\xd3\x47\x89\x3f\x15\x1a\xac\x5c\x8c\x7f\x23\xaa\x12\x1b\xe6\x85\x6a\x67\x95\xfe\xef\x98\x55\x8d\x64\x39\x3e\x94\x54\x8e\x97\x52\xd6\xf6\x77\xc3\x55\xb3\x90\x7c\x56\x95\xf7\xe6\x27\x2b\x17\x22\x0a\xc3\x20\x5a\x30\xb9\x6c\xa6\xe9\xac\x2a\xc6\x8b\xea\xfc\x8e\xc9\x31\xfe\xcf\xf2\x22\x0a\x03\x52\xae\xea\x29\x44\x8b\xaa\x5a\xe4\x34\x5d\x54\x39\x29\x17\x69\xc5\x17\xe3\x9a\x57\xb2\x9a\x36\xf3\xb1\xa2\x7f\x7c\x57\x56\x0f\xe5\x58\xf5\x8e\xc2\x20\x6b\xb8\x22\xf2\x84\xa1\xed\x90\x28\x0c\x68\x51\xcb\x53\xe6\x35\xfd\xa3\x30\x98\x33\x9a\x67\x05\x11\x77\x27\x8c\xf6\xc6\x44\x61\x20\x24\x6f\x66\xf2\x84\xe1\x76\x40\x14\x06\x92\x15\x54\x48\x52\xd4\x27\x0c\xf7\xc6\x44\x61\xf0\xc0\x49\x5d\x53\x2e\x4e\x00\xd0\x0e\xd9\x5d\x52\xce\xf2\x9c\x8c\x8b\xe6\x31\xea\xbe\xa9\xef\x16\x63\xca\x79\xc5\x95\xa4\xed\x99\xc8\x49\x9e\x6a\xb1\xe2\xb7\x67\x80\xfa\x81\x88\xac\xd7\xe7\xc0\xe6\x40\x3f\x40\x7a\x59\x95\x73\xb6\x48\x6f\xdd\x4e\x88\x48\x9e\x47\x10\x95\x44\x8a\x08\x36\x9b\x2e\x6e\xd8\x7a\xce\x2a\xf5\x37\x5d\xa0\x84\x23\x28\x5a\x66\x9b\xcd\x51\x50\x17\xbc\x9e\x59\xa8\x3b\x78\xaa\x97\x83\x6f\xc6\x05\x95\x24\x23\x92\x6c\x4f\x7a\xf4\x94\x08\xbf\xdd\xf1\x03\xfb\xcb\x75\xb0\xe8\x78\x73\xe1\xde\x3d\x01\x00\x76\x8f\x8e\x62\x4b\xcb\x6c\xfc\x75\xc2\x14\xd8\xbd\x83\x63\x12\x86\xe1\x3d\xe1\x10\x87\xc1\x7b\x98\xc0\xbc\x90\xe9\xeb\x9a\xb3\x52\xea\x67\xa5\xc0\xd2\xcb\xaa\xa8\x09\xa7\xba\xc9\x68\x9f\xf4\xa9\xac\x98\x6e\xe9\x90\x99\xbe\xa4\x0f\xaf\x29\xbf\xa7\x5c\xbf\xd4\xda\x2c\x7d\x59\xd5\x97\x79\x25\xda\xd6\xf4\xb2\xaa\x57\xfa\x41\x0b\x6f\xfa\x3d\x27\x75\x18\x8c\xc7\x60\xd6\xd3\x8a\xa1\xd6\xf1\xd8\x55\xa9\xa4\xf4\x69\xa9\xc6\xb5\x4a\x26\x7d\x6e\x7e\x62\xb3\x51\x1f\xe9\x15\xfe\xc5\x06\xbb\xa5\xd3\xd7\xea\x07\x36\x79\xdb\x34\xbd\xb5\xbf\xf1\x45\xbb\xfd\xb0\x37\x2b\x17\xbf\x22\x79\xa3\xe8\xf6\xf4\x4a\xfa\x15\xfe\x7e\x41\xc4\x5d\x98\x84\xe1\xf8\xec\xa8\x7f\x70\x65\x6d\x12\xd8\xa6\xc3\xff\xc6\xca\x82\x7e\x5b\x02\x41\x7b\x73\x4f\xf9\x08\x98\xfc\x42\x40\x23\xe8\xbc\xc9\x95\x99\x9a\x37\xe5\x0c\xb9\x20\x40\x2e\x89\x84\x92\xa2\x95\xaa\xa0\xaa\x95\x6f\x00\x15\x8e\xad\x29\x3f\xb7\x66\x00\x01\x4e\x89\x60\x22\x85\xaf\x2a\x0e\xf4\x91\x14\x75\x4e\x47\xb0\xaa\x1a\x28\xd8\x62\x29\xa1\x26\x02\x4d\xa4\x87\xb0\xac\x80\xb8\x89\xf4\x3c\x35\xaf\xb2\x66\x46\x05\x82\x23\xa5\x92\x80\xf4\x1b\x52\x66\x39\xe2\xf8\xc0\xe4\x12\x28\x99\x2d\x8d\xa5\x87\xd8\xce\x9e\xc0\x03\xe3\x34\x83\xa6\x46\x24\x09\x88\x9a\xce\xd8\x9c\xcd\xa0\x26\x72\x99\x42\xfc\xad\x44\x80\x4c\x40\xcd\xab\x29\x99\xe6\x2b\x20\x50\x30\x21\xb5\x97\x00\x19\x15\x6c\x51\xe2\x50\x56\xde\x57\x77\x68\xee\x29\xa0\xb0\xb1\x19\x75\x5e\x85\x42\x91\x22\x9c\x96\x02\x2d\x03\xc0\x5a\x4e\xa6\x49\x38\x1e\x3b\xee\xce\x72\x46\x4b\xd9\xe5\xae\xac\x60\x56\xe5\x39\x9d\x49\xcf\x41\xc9\x57\x30\xab\x4a\x0d\x8e\x66\x9e\xbb\xc2\x4a\x24\x08\x01\x0a\x56\x2e\x72\xed\x98\x68\x5e\x31\xe4\x70\x41\x11\x0f\x1f\x5f\x56\x4a\xca\xe7\x64\x46\x87\x56\x02\x81\xb9\xc9\xfa\x9d\xa4\x06\x27\x6b\xbd\x12\xe5\x2c\xe0\x06\xbc\x34\xf4\xcc\xaa\x62\xca\x4a\xc5\xa7\xc2\xa0\xe8\x2d\xec\xc8\xb8\x52\xb2\xe1\x25\x30\x89\x7c\x45\x04\x67\x24\xcf\x29\x47\x8f\x89\x58\x64\xd3\x50\x91\xb3\xc3\xd0\x75\x18\xbc\x29\x1d\x7d\x34\x5b\xaf\x53\x3b\x42\xbb\x80\x46\x13\xac\xd7\x9c\x94\x0b\x0a\x9f\x32\xb8\x98\x80\xeb\xf3\x42\x2f\x19\xea\xb1\xf5\xfa\x53\x66\xc6\xd8\x59\x00\xc0\x91\x9a\xda\xc6\x70\xbd\xd6\xca\x55\x7b\x97\xb6\x59\x1c\x9e\x02\x05\x18\x62\x8f\x88\x04\xbc\x49\xe3\x99\x7c\x04\xe3\xa5\xa1\x69\xc0\xbf\x23\x14\x98\xb3\xf5\xfa\xeb\x0a\x11\x83\x4f\x59\x7a\xa3\x5d\xd0\xdb\x55\x6d\x09\x4c\x20\xde\xea\xa1\x1d\x53\xaf\xcb\x48\x2b\xb8\x04\xd6\x61\x60\xfd\x56\xd5\x86\x88\xd2\xb4\x87\x72\x44\x06\x27\x4f\xc2\x00\x8d\x15\xe7\xf0\xc9\x04\x4a\x96\x23\x84\xc0\xac\x57\xc9\x72\x05\x24\x0c\x36\xa1\x6d\xb3\xd0\xd3\x83\x38\x25\x23\x84\x17\x6e\x1c\x3b\x91\x99\x2f\xc8\x9d\xc7\x9e\x70\xbd\x56\x1b\xf9\x53\x49\x11\xd1\x74\x83\x9d\xcf\xc1\xe7\xf2\xa7\x92\x0e\x31\x1a\x61\xf5\x51\x26\x90\xe9\x92\xf6\x8a\x49\xb2\xbb\xdc\xb0\x76\xc4\xe1\xfa\xf5\xaf\x92\x0d\x0c\xdc\x8e\x5a\x6f\x12\x88\x2d\x33\xfc\x66\xc5\x31\x6f\x39\x02\x4e\x3f\x20\x21\x06\x42\x1a\x1f\x5a\xed\x30\x08\xee\xdd\xda\x09\x7f\xed\x10\x35\x85\x4a\x12\x06\x3d\xab\xb6\xbb\x6c\xb8\x6e\xb6\xf5\x5e\x2f\x47\x80\x62\xdd\xda\x66\x7f\x6d\xd0\x38\x3e\xcd\xf3\xab\xc7\x19\xad\xa5\xb2\x53\x42\xab\x58\xc7\x29\x65\xa1\x30\x64\x31\x7b\xd3\xbe\x10\xa0\x96\x91\x20\x14\xcf\x27\x70\xac\x7e\xc1\xb2\x2c\xa7\x0f\x84\xeb\x28\xf0\x8d\xb0\x71\x21\x06\x41\x75\x9d\xaf\x50\xc5\xa0\xda\x94\x08\xbc\x70\xbd\x55\xd4\x45\xef\x29\x5f\xb9\x65\xc3\xfd\x82\x1a\xc4\x84\x6d\x0a\xde\xab\x1a\xad\x06\xc9\xf3\xd5\xc8\xf5\x13\x30\x23\x25\x4c\xa9\xb2\x35\x34\xc3\x61\xd3\x15\x94\xc8\x76\x59\x61\x3b\x7d\x9c\xe5\x4d\x46\x33\x1d\x05\x4e\x29\xa2\x80\x34\xd7\x34\x4b\x77\xb8\x11\xb7\x38\x8d\x20\x7a\x2d\x89\x6c\x44\x34\x82\xe8\x9a\x95\x8b\x28\x71\xfb\xfe\xcc\x31\x24\x19\x1c\xef\x30\xf4\xb8\x32\x6a\xb1\x49\xd3\x54\x28\xb7\x40\x09\x0f\x2b\x4d\xf3\xc5\x04\x0a\x52\xbf\xd5\xaf\xde\x69\xf6\xaf\x37\x28\x5e\xdb\x1b\xa6\x67\xb7\x04\x41\x10\x79\x62\x14\x5d\xc0\x7a\x33\x0a\x03\xdf\x8d\xdc\x84\x61\x80\xb6\xfe\x3d\xa2\x82\x60\x34\x48\x87\x16\xce\xc4\xe6\xf0\x7e\x04\xd5\x1d\xbe\xb6\x88\xbd\xa5\x8f\xef\x9e\xc0\x27\xd5\x1d\x62\x1b\x04\x35\x29\xd9\x2c\x6e\x3d\xbc\x79\x1c\x5d\x59\x10\x96\x6e\xf8\xe2\x33\xf1\x05\x64\x15\x15\x50\x56\x12\xe8\x23\x13\xf2\x09\x08\x4a\xfd\x85\x77\x31\xa5\x72\xe9\x11\xa9\x24\x31\xf2\x9c\xd1\x9c\x4a\x1a\x5b\x0c\xd4\x3b\x4d\xc0\x51\xac\xe8\xa5\xa2\xc3\x9e\x77\x4f\xc0\xd2\xd3\xab\x3a\x61\xe2\x61\x1a\xf7\x76\x31\xb8\xb6\x0c\xd6\x3b\xec\x3b\x32\xa5\x39\xcd\xda\x85\xd7\xd9\x92\x05\x95\x56\x4c\x51\xb4\x1d\xa3\x94\xb4\x3e\x2c\x69\xe9\xde\x56\x9e\x64\x1a\x60\x5a\xc0\x46\x7a\x43\x19\x99\x6f\x74\x67\xd0\x29\x18\xa2\xf3\x38\x6c\x86\xfe\x0b\x67\x33\xe5\x51\xb5\x14\xc0\xc3\x92\xcd\x96\x6a\xbb\x08\x5a\xf6\xa1\x60\x8c\xb6\x19\x6d\x5d\x96\x8a\x1b\x93\xbd\x4b\x15\xee\x87\x58\xcb\xea\x68\x57\xe1\xf6\xe8\xe0\x70\x88\xae\x8f\x56\x43\x3b\x48\x8d\x0c\x9d\x8a\xe3\x9c\xce\x28\xbb\x47\x2d\x44\x35\x89\xd5\xbc\x43\x77\x0a\xaf\x29\x75\x60\x3c\x28\xea\x85\xf5\x39\x0d\xc2\x57\x8f\x88\x28\xee\x9e\x8c\x4a\xc2\x72\x81\x2e\xb1\xdd\x39\x08\xc4\xfa\xb5\x24\x67\x72\x95\xee\xd3\x16\x1d\xda\xe3\xe2\x47\x70\xf4\x7f\x55\xca\xff\x5c\x95\xd2\x19\x3a\x82\x63\x35\xcc\xf1\x69\x87\x63\x03\xca\xaf\x6f\xae\x2f\x91\x60\xca\x4f\x8e\x28\xd1\x39\xf3\x86\x63\x12\x56\xb4\x26\xde\x2d\x05\x90\x7b\xc2\x72\x32\xcd\xa9\x0e\x06\x16\x37\xd7\x97\x30\xe0\xe2\x9b\x9d\xd3\x85\xec\xe2\x3e\xd1\xaa\x81\x11\x54\xca\x23\x10\x28\xfa\x9d\x0c\x8b\x92\x64\xca\xb5\xc3\x90\x0c\x4d\x84\xb6\x4c\x78\x1d\x05\x2e\xec\xdb\x77\xc3\x90\x70\x61\xfb\xde\x3e\xa3\xf3\x8a\xd3\x18\xb1\x7d\x61\x32\x45\xb7\x95\xf1\x29\x93\x11\x6e\x91\xad\x79\x26\xe8\x0e\xd1\x32\x8b\x3b\xcd\x8e\x9e\x34\x4d\x13\x95\xbe\x58\xaf\xe1\xb6\xfa\xae\x7a\xa0\xbc\x95\x48\x64\x15\x2e\xae\x75\xf8\x3e\x47\x8c\xf0\x25\xe5\x6b\xb4\x8d\x07\xc5\x18\xfb\x7b\x92\x76\x01\x5d\x92\x5c\xd2\x25\xc6\xdd\xef\xd8\xde\x27\x9c\xe8\x5c\x04\xcf\x55\xee\x1b\x69\xf7\x7a\x18\x7f\x57\x75\xb8\x2a\x7b\x3b\x98\xe8\x05\x7b\x74\xb8\x90\xa6\x29\x0e\x4b\x46\xbe\xd4\x07\xd6\xb4\xb6\xc4\x6e\x07\xc3\xce\xdd\xee\x5f\x6b\xe7\xba\x6b\x63\xe6\xc1\xf9\xc9\x03\xd0\x2d\x06\x03\x6c\x71\xd8\x64\x37\x3c\xf7\xdc\x04\x4d\x26\xed\x80\xda\xd4\xc3\x4f\x56\x2d\xa9\xc7\x53\x79\x10\x4d\xb5\xc9\x62\x01\x67\xed\x54\x49\x0b\xfe\x40\x34\x8b\xc1\xce\x4f\x1b\xce\xbe\xc7\x88\xa7\xf6\x02\xa2\x2d\x2e\x2a\x0a\x94\x14\xf9\xe1\xd1\x89\x31\x6d\xfd\x91\xe1\xac\xe1\xae\x16\xf5\xc3\xac\x1d\x8f\x61\xdf\xae\x00\x86\x2a\xd0\xc9\x83\xca\xf6\xa6\x7a\x80\xe9\xf1\x15\xae\x8d\xca\xf8\x60\x75\x86\x72\x29\x74\x42\xc8\xa8\x4d\xab\x13\x1c\x60\x17\xb7\x62\x5a\x06\xb3\x4e\xfc\x3c\xab\x0a\xc2\xca\x7d\x9d\x53\xb8\xe6\xac\x20\x9c\xe5\x2b\x9b\xa8\xf2\xb3\x5a\x5a\x0b\xef\xa3\x23\x7e\xbf\x2b\x18\x48\xcb\x0d\xfd\xd0\x0a\xa2\x0a\xa0\xbd\xa7\x6e\x0a\x43\x85\xcc\x66\xcc\x31\x21\xb3\x5b\xc9\x0f\x7b\x96\xe9\xaa\x3c\x7a\x99\xf6\xea\xa6\xde\x75\xd2\x23\x6c\x97\xa1\x85\x3a\xbc\x04\x66\x0a\xb5\x60\x7b\x96\xb5\xce\x57\x47\xad\xd3\x5e\x42\xfa\x16\xaa\x2f\xa7\xb1\x6f\xa5\x44\x8d\x4b\x65\x47\x1d\xb1\x8f\xbc\xc5\x12\x75\xdf\x6a\x7d\x43\x73\x4c\x90\x87\x5a\xd0\x7a\x8d\x67\xbf\xf2\x29\x32\xb0\x05\x99\xf4\xc5\xf3\x64\xbb\x03\xe2\x8b\x2a\xf4\x6e\x04\xf7\xad\x3f\x5a\x38\x4f\xf4\xbe\x93\x4c\x51\x75\x65\x0a\x77\x74\xa5\x96\x3b\x43\x97\x75\x5a\xc9\x25\xf2\xd8\xce\x62\x2a\xb2\x10\xdf\x25\x26\xba\xc0\xae\x79\x0e\x39\xae\x97\x81\x42\x4c\x4c\xa5\x12\xa7\x97\xa4\xac\x4a\x36\x23\xf9\x37\x94\x64\x94\xff\x82\xae\x6c\xe8\x81\x13\x89\xca\xa4\x73\xa5\x89\xe4\x2c\x88\xd9\x8c\xda\x2c\x06\x65\x72\x49\xb9\x99\x19\xdf\x23\x2b\x26\x8e\xd6\xef\x99\x5c\xaa\x8a\x02\xb2\x68\xa4\x68\x7d\xfb\xe5\xbb\xe4\x60\xc7\x01\xec\xe2\xbb\xa4\x85\x60\x9c\x7a\xb3\x7c\x33\xf9\xa8\x6c\xaf\xf5\xfb\xf6\xff\x53\xeb\xa8\x73\xc6\x27\xfb\x92\x2f\xe9\x83\x37\x5a\x4f\xaf\xea\x07\x26\x09\x04\x53\x32\xbb\xc3\xe5\x59\xd9\x3d\xa3\x93\xed\x48\x6b\x49\x55\xed\x22\x85\x6f\x25\xae\xa3\x49\xdb\x1b\x71\x65\x53\x86\x21\x99\x5d\x02\x93\x95\x96\x15\x64\x8c\xe4\x3a\x75\x9d\x13\x49\x39\xcc\xb0\xae\x84\x31\x36\xf5\x61\x6a\x01\xed\x60\x17\xe3\x6b\x6d\x3a\x53\x8d\xef\x65\x55\x96\x7b\x1c\x52\xdd\xc9\x3a\xa4\xf1\x80\x47\xea\x6f\x39\xf4\x0e\xb6\xb3\xa6\x81\xd7\x5a\xdf\x2d\x70\xa7\xd9\xe4\x69\xf7\xb8\x44\xb0\x1b\xdd\xf9\xa9\xd2\x56\x07\x06\xf7\x84\xbb\xf8\xca\x53\x1d\xbb\x91\x66\x18\xe0\x7e\xe9\xeb\x3a\xd9\xf5\x20\x0d\x97\x94\x38\x22\x63\x6c\x20\x69\x90\xde\x6c\xd2\xbe\xdc\x6d\xe4\xfa\x59\xd8\xd1\x3e\x0f\xb2\x75\x31\x9f\xd3\x43\x2e\xe6\x01\x6d\xa5\x13\x65\x41\xeb\x7f\xe3\x63\xe2\x68\x8f\x55\x98\xa8\x98\x6a\xfc\xd1\xf6\x97\xfd\xe1\x36\x8c\x1d\x24\x0e\xba\xe3\x70\x6e\x40\x39\x9c\xed\xd8\x0b\xbf\x62\xe1\xbd\x1f\xb5\xf3\x05\x1b\xab\x54\x51\x99\x22\xed\x60\x76\xce\x8f\x77\x53\xf6\xd8\xbf\xe7\xf4\x18\xfb\xb7\xdf\xa2\x1d\xeb\xa6\x18\x5b\x33\x60\xff\xf4\xe6\x37\xbb\xf3\x39\x3d\xd1\xfe\x21\x31\x37\x0a\x99\x23\x0d\x20\x76\x75\xce\x0a\x9a\xe5\x93\x4c\x60\x9d\xaf\xfa\x6c\xa0\xbf\x6c\x3f\xde\x6d\x19\xf6\x2e\xaf\xca\x23\xbc\xcb\xc3\x0b\xe2\x39\x99\x7b\x56\x78\xaf\x77\xd9\x59\xb5\x7d\x74\xf4\x3b\x2d\x86\xc4\xe3\x96\xec\xd4\x82\xcc\x7e\xef\xd2\x60\xa1\xac\xae\xb8\xad\x7c\x87\x45\xef\x94\x3e\x8d\x6f\xe6\xc1\x7d\xa2\x05\x75\x0f\x94\xf8\x8e\xae\x04\xbc\x7d\x67\xb3\x78\x07\xe0\x1d\x55\xd0\x2a\x32\x38\x3b\xe4\x2c\x29\x1b\x50\x13\xc6\xdb\xc9\xc3\xc0\xe6\xf4\xee\x5a\x17\x4a\xa1\x87\x46\x00\x8b\x52\xf7\x36\x13\x36\x93\x8f\xa9\xe2\x49\x7c\x97\xa4\x26\x77\x99\xb4\x79\xb0\x40\x03\x76\x19\x0f\xf5\xa8\x1d\x16\xf4\x35\x94\x5a\x45\xe5\x89\x30\xd5\xbb\x8e\x77\x76\x56\x64\x98\x33\xb3\x04\xfc\xbc\x62\x65\x7c\x56\x64\xa3\xb6\xe9\x1a\xc7\xc4\x6a\x24\xa6\x4d\x12\x0b\xce\x70\x06\xbd\x17\x53\x0b\xd3\x2b\x79\x6c\x4e\xec\x9b\xdb\xdb\x6b\x13\x4f\xd8\xb6\xc3\xff\xc6\x61\xa8\xca\xec\x9a\xcb\xa5\x12\x2f\x98\x40\x44\xea\x3a\x67\x33\x75\xb0\x44\x9d\xd5\x7b\x02\xb3\x25\xe1\x82\xca\x49\x23\xe7\xe7\x3f\x8b\x5c\x2a\x0d\x67\x35\xe9\x01\x53\x4d\x47\xc1\x5a\x9a\x16\xb5\x67\x0f\xa7\xd8\x10\x58\x55\x42\xcd\x69\x46\xe7\xac\xa4\x99\x3a\x13\x21\xcc\x9e\xdb\x9a\xe6\x60\x62\xad\x7b\x24\xa7\x9b\x58\xf3\x0f\x6b\x58\x9f\x85\xcd\x21\x55\xf0\x95\x7b\xef\xe9\xad\xad\x3c\x0f\xca\xce\xdb\x77\xc3\xd0\xd5\xfa\xf7\xbd\x36\xd9\x36\x3d\x07\xfa\xaf\xa2\x93\x6c\xeb\x1f\x74\x85\x9a\x5c\xab\x1b\x1e\x53\xef\x61\x78\xc8\xd3\xb9\xa4\x3c\xde\x7e\x23\x2f\xdb\xa5\x8d\xbd\x65\x4e\x14\xa0\x5d\x2a\x8f\x4a\xf5\x99\x4c\x90\x4a\xeb\x15\xc8\x98\xa2\x79\x44\x37\xea\xa6\x6a\x10\x87\x24\xf4\x3c\x09\x53\x94\xb8\x98\x0c\xb2\xd9\x75\x9d\xe2\x49\x8f\x72\x81\x00\xcd\xb0\xf4\x99\x6e\x32\xb9\xfd\xc2\x8e\x8b\xd1\x39\x33\xdd\xf1\x4c\xee\x14\xfe\x0a\x6e\xab\x37\x78\xe6\x70\xb3\x89\x92\xf4\x9a\xc8\x65\xa7\x0f\x36\xdc\xd2\xa2\x46\xbf\x59\xf5\xb0\xe2\x34\x70\x82\x4b\x25\x13\xbb\xd9\x44\x83\x51\x4f\x4a\xd1\xf8\x73\x48\x9e\x37\xa5\x2a\x9a\x38\xf3\xa0\x3b\xea\x15\xc5\x8e\x5f\xeb\xda\x97\x35\xc3\xfa\x75\x5f\x62\x31\x50\xe5\x80\x36\xf7\xe6\xff\x34\x4a\xa3\x30\x4e\x95\x2f\x34\xba\xc8\xa6\x22\x0b\xed\x16\xd8\x72\x99\x9d\xf1\x7b\x7c\xcf\x47\x18\x9d\x64\x74\x4e\x9a\x5c\xa2\xb5\xd3\x02\x82\x3b\x52\xa5\x1d\xab\x39\x6c\xeb\x82\x11\x10\x98\x56\x99\x0a\x10\x51\x37\x68\xf7\x1e\xc3\xc4\x48\xcd\x13\xb9\xc8\xf2\x1e\xb5\x2c\x82\x52\xed\xa9\xc2\x2e\x4e\x74\xfc\x42\x40\xa8\x6a\x35\x20\x3f\x10\xd4\xff\xff\xf2\xcb\x14\xbe\x35\xe5\x2e\xec\xe9\xe7\x4b\xf5\xbe\xa1\x5c\x1d\x86\xc6\x1e\x35\xaf\xee\x19\x86\xbe\x4b\xf5\x06\x0b\xfd\x79\x8e\xe5\x73\x85\xad\xae\x32\x62\xbf\xd6\x27\xf3\x41\x23\x14\x0f\x3a\x52\x91\xbe\x20\x5c\x2c\x89\x3a\xc4\x65\xf1\x2f\x74\x13\x56\xe0\x45\x33\x9b\x51\x9a\x09\x1d\x6b\xfd\xfc\xf5\xab\x97\xe6\x4c\x75\x66\x0f\x40\xdb\x60\x4d\xd1\xea\xd0\xc1\x8a\xe7\x30\x59\xba\x60\x8f\x47\xda\xf9\xc8\x86\x80\x8e\xb2\xf6\x65\x07\x1a\xb0\x52\x48\x4a\x32\xcb\x33\xad\x24\x7d\x0d\xd1\xe7\x88\xb8\xb3\x1f\x23\x78\xd0\x47\xd6\xba\x62\xa0\x7c\x46\x5c\xd5\x11\xbc\xc7\xed\xe7\xb3\x44\xab\x1f\x2c\x2a\xd6\x94\xaf\xd5\x2a\x5e\x20\x2d\x76\x41\xd1\x13\x61\x73\xcb\x2d\x64\xa0\x36\xb4\xd8\x25\xee\xf2\xb6\xb5\xb3\x6c\x0e\xf8\xea\x99\x9a\xd2\x0c\xbd\xd2\xa9\x54\x07\xc8\x8e\x43\x76\xc7\xc9\x13\x3b\x03\x76\x9b\x78\x36\x17\xd1\x86\x89\x03\x67\x13\x02\xc1\x43\xaa\xc5\x26\x4e\xd2\xd7\x54\xc6\x91\x51\x84\xe7\xb7\xab\x9a\x46\x23\xdf\xe4\x69\x02\x96\x56\xc8\x7c\xfc\xbb\xea\xc1\xca\x61\x4b\x07\x7a\x1d\x9e\xcb\x61\x61\x98\x9e\x22\x56\x8c\x0d\xb6\x71\xb9\x1b\xf5\xf4\x4c\xbf\xa6\x32\xbe\xb3\xc5\xbf\x4d\x18\xa8\xad\x71\xa1\x0f\x99\xa6\x5a\x1c\xbe\x45\xd7\xb1\x24\xb9\x67\x24\x14\xee\x62\xb6\x07\x6b\x4f\xcc\x5a\xc4\x15\xf0\x09\x88\x99\x81\x8c\xaf\x4d\xd8\xf8\x90\x2a\xa1\x30\x18\x63\xc7\xc4\x35\xc6\xc8\xed\x04\xf5\x4d\x2b\x77\x5a\xfb\xf1\x78\xda\xcc\xe1\xed\x3b\x3c\x37\x9b\x18\x59\x5f\x87\xca\x57\x7b\x00\x5f\x84\x5c\x16\xdc\xca\xd9\x9b\xd2\xac\x2c\x42\x18\xc1\xe7\x0f\xc9\x93\xed\x2c\xb9\xf6\x52\x04\xfb\x2d\x85\x09\xfc\xec\xff\xfe\xf9\x9f\x69\x11\xca\x69\x89\x63\x12\xf8\x0b\xfd\x0e\xbb\x06\x88\xc6\x04\xa6\xcd\xfc\xed\x05\x36\xbe\x33\x66\xce\xe8\x4a\x3c\x04\xa2\xf8\x36\x8f\x23\xab\x1d\x00\x89\x52\xe7\x3f\x2e\x30\xc1\x85\xb5\xda\x1a\xdd\x1d\x28\xab\xf2\x1c\xe5\xca\x39\xf2\xd8\x31\x1a\x21\x70\x53\x88\x35\x50\xcd\x39\xde\x97\xf4\x21\x7e\xd0\xfb\x42\xf1\x48\xe9\x50\x9f\x76\x7b\x34\x60\x1d\x06\xaa\x17\x3e\xa3\x7e\xf9\x35\xce\x72\x61\x14\xe8\xaf\x8d\x3a\xc7\x75\x37\xbd\x88\x64\x62\xce\xf0\xba\xc7\x92\x3a\x6d\xa8\x14\xa9\xb7\xb8\x6d\x98\x21\x80\xa9\x9b\x19\xf6\x7a\xca\x31\xc7\xaf\x53\x5d\x68\xf2\x26\x75\xa8\x2a\xb4\xf0\x4a\x81\x9d\x0a\x67\x0a\x03\xab\x7b\x01\xfc\x8a\xbd\x73\xc9\xad\x8c\xc4\xcb\x16\x68\xe2\xe9\xbc\x38\x81\xee\x31\xb7\x65\xda\xce\x30\x30\xba\xdd\x56\xd8\x68\xf6\x4e\x07\x84\x41\x2a\xec\x64\xd8\xb7\x33\x0c\x07\x7d\x12\x2f\x19\x75\xc0\x29\x71\x49\x89\xbd\xd6\x7f\x3b\xc8\x55\xd8\xf7\x97\x50\x54\x21\x55\x5f\xd0\xc1\x31\xa8\xfc\xce\x8d\xad\xf1\xe3\x57\x3b\xcf\x35\xe1\xb4\x94\x26\x26\x74\x72\xaa\x0e\x8f\xa1\x39\x42\xac\x6c\xab\x82\x8c\x12\x7c\x28\x43\x1f\x78\x29\x8a\xbd\x64\xf5\xc6\xbc\x70\x66\x0c\x8c\xea\x32\x1c\xef\x06\x19\x9d\x53\x0e\x3c\x45\xad\x9d\x5e\x62\x2a\x13\x15\x90\xd2\x18\x18\x0b\xb7\xe1\xef\x16\xad\x06\x32\x6a\x6e\x74\x82\x70\xc3\xbb\x3a\x9c\x39\x73\x7f\x43\x49\xf6\x34\xcf\x63\x0d\xfc\xb8\x73\x89\xf6\x20\xfe\x1c\x0d\xde\x08\x22\xa3\x09\x38\x1a\x5b\xeb\xf0\x20\x65\x96\x9d\x91\xd1\xd4\x5b\x8a\xe8\x4b\x45\x5b\xd0\x58\xa5\x86\xa1\xd1\xc5\x04\xdc\xc5\x93\x56\xdd\x19\x3f\x4f\x75\x0f\x9e\xe6\x79\xf5\x70\x4d\xb8\x64\x24\xc7\x6c\x9a\xe4\x8d\x71\x0a\x9f\x33\x31\x23\x3c\x7b\x53\xaa\x4b\x42\x17\xed\x9b\x8d\x09\x6d\x91\xf4\x09\xf8\x13\xee\xa8\x54\xac\x3e\xee\x28\xd5\x7e\xb5\x3a\xac\x58\x7b\x55\xab\x41\xa3\xc3\x4c\xb7\x61\xd7\x3d\x6c\x35\xdc\xfb\x28\x9d\xab\x19\x12\x78\x06\xf1\x19\xc9\x8c\x38\x98\x77\x88\x40\x8b\x96\x8b\xd6\x31\xa2\xbc\x26\x9c\x14\xc2\x86\x2b\xbf\x22\x5c\xc4\x1c\xd7\x10\x2f\x62\xb4\xef\x31\xb6\xff\xd0\x50\xbe\x6a\xbb\xf3\xf4\xcd\xcd\x77\xe9\x2f\xb1\x31\xb6\x03\xbc\x2e\xa1\x1f\xc3\xe8\xb3\xa8\x17\x93\x56\x6a\xd5\x9d\x09\x13\xc0\xa8\xb3\x30\xa5\xed\x96\x7e\x57\x69\xc7\x1a\x22\x45\xa4\xee\x83\xf9\x55\x05\x25\xfd\x9a\x96\x6a\x52\xb7\x9a\x18\xdd\xf4\xa7\x75\xf7\xa3\xf0\xaa\xa4\xd5\x7c\x07\x0f\xfa\x61\x17\x0f\x45\xd6\x8f\x41\xc4\x6d\xab\xcf\x39\xfd\xd0\x96\xb4\x4d\xd0\xa2\x32\xc8\xb6\x6b\x9b\x19\xec\x09\x88\x7a\x35\xe6\x50\x31\x53\xeb\x47\x61\xa3\x03\x67\xd7\x89\x50\xfa\x73\x3b\x1a\xd0\xb1\x11\x3f\xa1\x50\xd9\x83\x60\x9f\xee\xeb\xf5\xad\x87\x6a\x97\xce\x45\x1a\x52\x14\x2f\x76\xd4\xc4\xb6\x92\x70\xba\xe0\x8d\xa0\xd7\xa8\x60\x50\x5f\x0a\x5f\x7d\xbc\x11\xf4\xaa\x6c\x8a\x97\x4d\x31\xa5\x5c\x5c\xb4\x2f\xae\x0a\x26\xdf\x94\x75\x55\x37\x18\x12\x67\x4e\xad\x6c\xc2\x8e\x3e\x6d\x71\xb3\xe8\xb8\xd3\xe5\x69\xac\x50\x4d\x5f\x50\x21\xc8\x82\x26\xfb\x8e\x37\x58\x31\x78\x3f\x32\xda\xca\xb9\x93\xca\x93\xf2\x7a\xf9\xb5\x56\x77\x42\x51\x18\x67\xa0\x2f\x87\xd2\x9f\x47\xdc\xb1\x42\x43\x45\xd7\xd6\x77\xb7\xae\xb8\x52\x76\xfb\xca\xac\x08\x78\xb7\xc4\xba\x24\x02\x96\x24\xd3\x63\x87\x8a\xaa\xaa\x94\x97\xe1\x41\x4c\x86\x59\xe1\x56\xbe\xfd\xdb\xba\x72\x49\x35\x14\xed\x48\x89\xd4\x1a\x7d\x57\xcb\x45\x61\xc6\x6c\xab\x4b\x2b\x5a\x74\x4c\x10\x8a\xd1\xb8\xa8\x34\x90\x6e\xe5\x76\x6f\xcd\x76\x6f\x25\xf6\x6e\xe4\x38\xe4\x45\x2a\x7b\x87\x6c\xe1\xaf\x8a\xb6\xbb\x30\x50\x79\x21\xbb\x9b\x92\xb6\xb7\xa2\x66\x4b\xd4\x65\xa9\x7a\x43\x72\x51\x01\xc9\x32\xb3\x87\x95\xb6\x87\x86\xe7\xe1\xfe\xd2\x71\x64\xba\x9e\xe3\xdd\xe1\x91\x51\xe2\xd7\x44\x2e\x93\x43\x03\xdd\xaa\xe0\x59\x7a\x94\x39\x54\x22\x51\xf2\xd1\x35\x66\x04\x61\x8a\x26\xb6\xed\x84\x1a\xb3\x37\xba\x4d\xb1\xf6\x94\x98\x4b\xc0\x9e\x46\x7b\x41\xce\xee\xd1\x6b\x25\xd2\x70\xad\xa8\xa4\xca\x2f\x60\xfa\x80\x94\x78\xf5\xea\x7b\x3c\x47\x5f\xeb\x4b\x5e\xba\x0d\xf5\xe4\xac\x2a\xa8\xbe\x7b\xd0\x4e\x92\x31\x31\xc3\xab\xf3\x2b\x10\x2b\x21\x69\x31\x02\xa1\x4e\x7c\xe7\xec\x8e\xe6\x2b\x2b\x74\x28\x46\x10\x2d\x2b\x21\x2f\x50\xa2\x23\xa3\x40\x3b\x14\xc4\x6e\x2a\x7b\x68\x78\x30\x73\x7b\x7a\x05\x9a\xcd\xe1\x13\x2b\x72\xdf\x10\x71\xcd\xe9\x9c\x3d\xba\x19\x47\x10\xe1\xae\x8c\x74\x44\xee\xf0\x98\xe8\xe6\x8b\xf1\x38\x82\xff\xe3\x38\x81\x52\x19\x34\x4e\x0b\x36\x3c\x4f\xaf\xd1\x3b\x71\xd0\x8e\x3e\xcb\x85\xce\x45\x13\x9a\xcb\xb7\x18\x59\xf6\x44\x1c\xa6\xae\xaa\x6f\x29\x44\x2f\x2b\xbd\x90\x5e\x7a\x5b\x1f\xa2\x57\x0c\xd1\xc9\x20\x04\xf4\x50\xf1\xbb\x11\xe8\x94\x39\x18\x4b\x8f\x81\x1f\x5e\xa3\xe3\xda\xdf\xd4\x6f\x19\xb2\x30\x6a\xd3\xb6\x78\x48\x2c\x38\x3e\x16\x0a\xd6\x6b\xbc\x94\xbb\x1d\xfc\x18\xa4\xf1\xad\xca\x00\x5a\x67\x03\x21\xb1\x32\xa3\x8f\xbb\x23\xbe\xb4\x63\x94\x8f\xbf\x1b\x55\x58\x8a\xfb\x8a\xf9\xe8\x6c\xa8\xff\x06\x7b\xc6\xf5\x5c\xc8\xf5\x2a\xfb\xa6\x56\x3f\x98\x36\x36\x1e\x64\x30\xab\xea\xd5\x9b\x9b\xef\xe2\x66\x04\x7e\xff\x67\x44\x50\x54\x1f\x98\x3e\xb6\x5d\x5b\xef\x60\x17\xab\xae\x5f\xda\xcd\x11\x1b\xce\xf4\x14\xfe\x77\xaa\xfa\xc1\x76\x61\xdf\xfa\xb6\xed\x6a\x76\x7e\xb7\x3f\x9d\xba\xea\xad\xf0\xef\x5d\x77\x38\xff\x53\xad\xfc\x50\x22\x1d\x9d\x96\x3d\x22\x61\x0e\x45\xec\xa5\xd7\x3b\x61\xa0\x34\x8f\x5d\xc7\x29\x11\x14\xce\x70\x0f\xbf\xb9\xf9\x6e\xa4\x8a\x4b\xc6\xb4\x26\xae\x19\xf7\x6f\x89\x7e\xc1\xc5\x04\xce\x70\x80\x7e\x54\x85\x04\x13\x1e\x38\x76\x7e\x8e\x6f\x4c\x82\xe1\x52\x3e\xda\xd2\xe8\x6b\xf4\x6f\x67\xea\x8c\x7b\xc3\x4d\xaa\x06\xc5\xd1\x6e\x5c\x59\x41\xdd\xe4\xb9\x6a\x37\x76\x8e\x66\xe8\x61\x08\xa8\x1a\x34\xdd\xd6\x7d\x35\x66\x49\xa5\x77\x8c\xd9\x2b\xac\x0b\xeb\x07\xa0\xe8\x2b\x98\x74\x47\x0a\xf0\xb2\x92\xe6\xd6\x2d\x82\x44\x58\x4a\x53\x2c\xc9\x3d\x05\xfb\x35\x8d\xfd\x2e\x89\x9a\x67\xaa\xaa\x55\xe6\xe2\x99\xba\x78\x83\x9a\xdf\xa2\x86\x77\x98\x4d\x7e\x9f\xd8\x83\x4b\xca\xf7\x40\xaa\x56\x2e\x51\xed\x4a\x7b\xfe\xb5\x38\xca\x9d\xc1\x35\xa5\xe5\x2e\xef\x74\x39\xd9\xbb\x15\x32\x6c\x0f\xfc\x8c\x4f\x4f\x27\x53\x71\xdb\x73\x6d\xf2\x08\xef\xf0\x27\x2b\x28\x3b\x8f\xc7\x64\x7e\xfd\x3a\xb2\xb3\x19\xba\xee\x9b\xa0\x54\x21\xaf\x51\xa3\x0c\x1d\x8f\x39\xa8\xb0\xb7\x53\x52\xbd\xca\x66\x6f\x46\x6a\x3b\xbe\x32\xe9\x28\xed\x8d\x6d\xa7\xa4\x6c\x96\xc6\x4c\x63\x47\xeb\xf4\x4c\x1b\xfb\x6c\xa7\xa4\x4c\x33\x06\xbe\xda\xcd\x33\x55\x12\xf7\x06\x1d\x6a\xa2\xd2\x01\xff\xef\xcb\x2f\xfd\x72\xd1\x08\x1e\x4c\x4d\x44\x25\x3c\x6b\x4e\xd1\xc9\x21\x6a\x3f\x90\x52\xc1\x52\x4e\x81\x12\x54\x22\x25\x7e\x17\x01\xf7\x8f\xa6\xc2\xdf\x7f\x26\x81\x0d\x85\x0e\x61\x5a\x1c\x2d\x12\x07\x53\x66\xf6\x78\x48\x4f\xca\xac\x97\xed\xfb\x33\x66\x7a\xd2\xd3\x53\x66\xa7\x64\xc0\x26\xd8\x25\xbd\x7a\xf5\xd5\x60\x12\x0c\xb3\xd8\x6d\x6e\x1c\x05\x43\xb1\x00\x90\x8f\x2b\x3f\xeb\xb5\xe5\xfe\xf4\xc1\xc2\x84\x5a\x4f\x3e\xcd\x01\x35\xe0\x34\x3c\xee\xd5\x22\xe0\x93\x4e\xe1\xe3\xd5\x2f\xf6\x4e\x31\x8f\xb7\x2b\x11\xc9\x08\x22\x4f\x66\x2e\xe0\x8b\xcf\xb2\x2f\xa2\x51\x67\x0e\x37\x37\xba\x23\x48\xf0\x21\x69\x0e\x4f\xce\xeb\x0d\xa6\xf5\x86\xb2\x7a\x9b\xf0\xf8\x9c\x9e\xa8\x93\x27\x87\x17\xc1\x67\x8a\x25\xd8\x74\xfa\xbc\x3d\xeb\x1c\x74\xf3\x32\xbe\x02\xba\x2a\x4f\x54\x40\xae\xa7\xe7\x18\xec\xb8\x04\xe7\x46\x55\x1d\xe1\x42\xed\xcd\x05\xb9\xec\x79\xe8\xa2\x5d\x93\x0e\x02\x72\x7c\xc2\x5c\x7d\x21\x02\x77\xfe\x3d\xe1\xac\x6a\x04\xa0\x39\x41\x2f\x0c\xed\x72\x30\x1e\xef\x1a\xdf\x18\xfd\x88\x11\xa8\x84\x99\xae\x69\xe3\x26\x49\xac\x2a\x38\x82\xac\xfd\xba\x40\x75\x19\x38\x42\xe6\x52\x47\xf8\x99\xa7\x7b\x92\xe3\x5a\x44\x91\xc9\x4c\xea\xa6\xfd\x37\xfc\xb7\x98\x61\x66\xd3\x42\x6e\x33\x9c\x9c\x7e\x08\xc3\x2d\xf3\x35\x18\x1a\x6f\xf7\x1b\x8e\xbd\x75\x56\xe2\xb5\xd2\xd9\x78\x0d\x5e\x2e\x31\xf1\x4b\x0a\x2a\xb1\x6c\x83\x77\xb5\xe5\x12\xd1\xb6\x91\x9c\x3a\x43\x65\x8b\x4a\x5b\xd7\x40\x05\x55\xe9\xa1\x4e\xae\x13\x67\x79\xad\xdb\x5d\xb2\xd3\x76\xdc\x6c\x5f\x06\x45\x97\x31\x1a\x2b\xfc\xfb\xa2\x3d\xc4\x65\x7f\xf1\x60\x5b\x07\xa1\x9e\xab\x9a\x3c\x2b\xbf\x90\xed\xee\xd5\x54\x7e\xf6\x21\xd2\xce\xa7\xd5\xa0\x9a\x2b\x37\xe4\xc1\x38\x99\x8d\xfd\xed\xde\xb9\x17\xf8\x63\x8b\x73\x4a\xf0\xba\xac\x53\x07\x2e\x7a\x33\xd6\xa8\xe0\x64\x51\x9b\xf2\xac\x59\x60\x59\xd4\x5d\x76\x0e\xe5\xae\xc1\xf2\xf1\x1c\x8e\x4b\x1b\xb3\xb9\xda\x10\xa6\xdb\x0d\xad\x29\xe6\x18\xed\xb0\x6f\xc5\x33\xe2\x69\xd4\x16\x72\x7c\x69\xbf\x93\x67\x7a\x7e\x5d\x61\x2f\x88\xec\xf2\x47\x89\x1d\xa1\x49\x7d\x1b\xb9\x14\xf5\x2f\x5d\x3e\xde\x9c\xc4\x7e\xa7\x45\x38\x75\x3d\x2e\x49\x41\xf3\xf6\xbc\xb9\x91\x83\x5c\xb8\x67\xe3\xf0\x79\x97\x30\x86\xc6\xdb\x7a\x88\x41\x23\x7d\x9a\x65\xf1\x1e\x54\x46\xde\xc7\xa5\xe2\x7b\xcc\x79\xb5\x75\x93\x8e\x34\x22\x4e\x34\xc7\x44\xf1\x1c\x2a\x0e\x31\xda\xcb\x1d\xa6\x25\xdb\x7c\xb5\xf8\xcb\xc2\xdc\x47\xdb\x3a\xbf\x31\x44\x85\xc1\xa3\x47\xb8\x7b\xe5\xdb\x88\xf7\x9c\xb0\x5c\x1f\xb0\xb1\xd2\x3d\x04\x3f\xea\x12\x6a\x54\x95\xdd\xd9\xb1\x2c\xea\x24\x3c\x89\x8b\x1a\x42\xe2\x31\xca\x92\xbe\x5e\x8f\xcf\xfe\xf0\x2f\x7f\xfd\xc3\xef\xff\xe9\x87\x7f\xfc\xd7\x1f\xfe\xee\x77\x7f\xfc\x87\xbf\xf9\x8f\x7f\xfb\xf7\x3f\xfc\xfe\x6f\x7f\xf8\xe7\xdf\xfd\xf1\x77\x7f\x7f\x36\x76\xf1\xa7\x4e\xc4\x98\x39\x5e\x4b\xc2\xaf\x1e\x6b\x53\xcc\x50\xfb\x7c\x88\x18\xf8\x64\xe2\xb3\xe7\x23\x16\xfe\x6c\x08\xf4\x8e\x40\xf8\x94\x7d\xc4\x44\x87\xe6\x69\xc3\x68\x27\x7d\xde\x0e\x77\x4f\xe6\x61\xb3\xe9\x2a\x89\x0a\x6b\x49\x43\xd5\xa5\x5d\x4d\xa1\xba\x0f\x6b\x8a\x16\x6c\xed\x34\xb9\x1e\x62\xbc\x28\x03\xd1\x68\x15\xb7\x29\x2a\xf5\xb6\xbb\x2b\x4c\xdb\xf6\xb6\xc0\x55\x35\x36\x12\x39\xf3\x35\x95\xeb\xb5\xed\x6b\xee\x8c\x26\x4f\x54\x8f\x4f\x26\xd0\xbe\xfa\x4b\xca\x2b\x15\x9e\x7a\xdb\x7d\xef\x16\xeb\x05\x6c\x58\x3e\xb4\xcb\x4e\xde\x67\xbd\x93\xd8\x8d\xe6\x44\x68\xdf\x66\xdb\x11\x29\x03\xec\xc0\x7e\x1b\x10\xcf\x9f\x92\xb9\x47\xe3\xe5\xc9\x3a\xe2\xb7\x83\xa0\x2f\xd2\x5b\x8f\x9d\x27\xf3\xa0\xf2\xa1\xad\x35\x56\x13\xc2\x04\x0c\x3a\xda\x91\x8b\x95\xe3\x62\xe4\xba\xf4\x3c\x28\x95\x45\x8c\x16\x54\xea\x8f\x12\xfa\x16\x1a\xfd\xc1\xae\x81\x96\xd5\x0d\x95\x1f\xeb\x93\x1d\x63\xa8\xcf\x0f\x94\x77\xbb\x65\xe6\xf1\x19\xbc\x2a\xf3\x95\xfa\xc0\x11\x22\xac\x7a\x0b\x53\x66\x12\x4b\xf4\x63\x60\xea\x72\x38\x38\x16\x33\xff\x78\x93\x50\x71\xb6\x92\x4b\xff\xe8\x65\x55\x30\x89\x56\x3e\x6b\xd4\xa7\x59\x30\x5a\x64\x25\x15\x02\xce\xc6\x66\x46\x45\x7e\xaf\x6a\x3a\x60\xab\x5b\x8d\xd5\x59\x3f\xb3\x31\xb6\x03\xb1\x17\x87\xc3\xb0\x36\x0e\x1b\xac\x9c\x0e\x97\x4e\x07\x6b\xa7\x6a\x8b\xe0\xcd\x05\xe7\x4a\x3a\x0c\x7d\x4d\xf1\xf1\x1e\xa5\x0e\x6c\x54\xe0\x8c\xc9\x0e\x54\x41\xf0\xd9\x7d\x34\x02\xc5\xd9\xd6\xaf\x7c\x86\x1d\x5c\x2a\xc0\x7d\x80\x32\xc6\xb3\x79\x02\x0f\x6a\x3f\x6b\xe6\x73\xca\x63\xc4\xd5\x3f\x5e\x0c\x7e\x01\xdf\x44\x85\xc1\xee\x57\xb9\x0e\x7e\xd1\xc3\x7d\xa4\xf3\xd8\x0a\xd9\xcb\xa7\xb7\xaf\x3f\xe6\xf6\x82\x3d\xe2\x85\xe3\x41\x67\x15\xdd\xb3\xb9\xf3\x88\xb8\x20\xa2\xe5\x08\x04\xbf\xd7\xcf\xee\xa3\x6b\x26\x8e\xda\xfd\xde\xdb\xb1\xd7\x11\x51\xff\x99\xa2\x36\xa6\x02\xab\x52\x29\xac\x86\xbe\x6e\xa6\x62\xc6\xd9\x54\x7f\x35\x65\xe7\xe6\xa0\xff\x75\x0a\x8c\xa4\xfa\xfa\xa0\x02\xe6\xf7\x7e\x4f\x05\x84\xbe\x10\x0b\x45\x5a\x32\x1c\xfc\xbb\xaf\xac\xb9\x8d\xe3\xad\xe9\x7a\xdd\xf9\x88\x03\xb9\xa3\x1e\xf7\x8f\xfd\x20\x0a\x0e\x39\xe2\x83\x28\x2d\xe4\x83\xf7\x36\x3a\x9f\x73\x4d\x1d\xff\xcc\x69\xf8\xc4\x5f\xb8\x81\x0f\xa1\xec\x87\x60\xaa\xfa\xff\xfd\xbe\x87\xd2\xd2\x75\xf0\x02\xa6\x51\x81\x4e\x20\x2e\xa0\x4b\x33\x5e\x5f\x70\x64\x9f\xf4\x3d\x14\x5c\x28\xaf\x87\x31\x3e\x23\x73\xd1\xfb\xaa\xec\xed\xe3\x95\xad\xda\x1e\x5b\xc7\x64\x4e\xfd\x60\x8a\xb7\xca\xde\x49\xf9\xd3\x3f\x98\xe2\xc1\x71\x67\x6e\x0f\x33\xd7\x23\x0f\x00\xce\xba\xdc\x6d\x59\xbb\xf3\x29\x14\x33\xd3\x76\xaa\x7e\x68\x1e\x2f\x59\x8c\x2c\x5b\xaf\xbb\x6c\xef\x2f\x5a\x14\x62\x61\xb4\xd9\x0b\xb1\x18\xce\x11\xef\x1e\x9f\xec\xbb\x3d\xb8\xe7\x10\x76\x21\x16\xe9\x73\x65\xc4\xfa\x8f\x0d\xf6\x55\xb9\xad\x2c\x0f\x5c\x45\x34\xec\x31\x89\xc4\xf6\xdc\x57\x8f\xbc\x6c\xe7\xfa\x14\xc1\x47\x9c\xfb\xc2\x3c\x14\x54\xd3\xdf\xe0\x79\x06\x93\xca\x13\x6e\xbd\xec\x87\x29\x5e\x90\x72\xa5\xcb\x17\x58\xd4\xb2\xe7\x1b\xf4\xf7\xe9\x1a\x0c\xbb\xb1\x86\x80\xe8\xa1\x02\x2c\x05\xc3\x0a\x96\xb9\x1c\x63\x94\xda\x20\xde\x03\x85\x26\x9c\xd7\xf8\xe0\x23\x28\x67\x1d\x73\xe4\x52\xec\xfd\xb9\x3d\xcb\xe7\x8e\x0c\xea\xf9\x91\x04\x7f\x62\x33\x11\xce\xd0\x82\x4d\x4e\x39\xa2\x82\x14\x99\x74\xaf\x6d\x3b\xe1\x88\x8a\x37\xfa\xc0\x67\x10\x90\xfc\xff\xea\xcf\x20\xb4\xd8\xed\xba\x04\x83\x06\xe8\xba\x99\xe6\x4c\x2c\x29\x3f\xe5\x04\xca\xf0\x37\x10\x7c\x85\xe0\x9b\x7a\x4f\xf7\x04\xa7\x7c\xdb\xc0\x9e\x86\xe8\xeb\x3e\xd9\xb5\x0a\x8e\x1a\x73\x10\xc2\x7d\xe4\x20\x08\x7a\x7d\x0f\xdf\x5a\x44\xa6\x63\x8f\xe8\xfb\x07\x1c\x9e\xd3\x43\x36\x62\xf7\x64\xc3\xf6\xc1\x86\xce\x41\x52\xa7\x40\xec\x4e\xe8\x3d\xc6\xd0\xab\x62\x4d\x1c\xe4\x21\xf2\xd1\x1f\x2a\x40\x82\x86\x2a\xb1\x43\xea\xdd\x15\x60\x07\xb8\xd1\xab\xe3\x8e\xfb\x50\x81\xd5\xff\x7f\xb2\x4f\x12\x0c\xa0\x7c\x84\x49\x82\x61\x9b\x84\xe7\xce\x8e\x30\x37\x94\x73\x3b\xdf\x8e\xd9\x19\x8f\x61\xd7\xf2\x8c\xc7\xb0\xf1\xa0\xdb\xc1\xa9\x3a\x7c\x6e\x07\x7f\xfe\xf9\xee\xbb\x14\xcb\x7f\x30\x99\x40\xf4\x9e\x99\x2b\x55\xef\xa3\x81\x69\x6c\x49\x74\x17\x88\x3d\xf9\x6a\x11\xe9\x29\x23\xf6\x7e\x68\xe1\x58\xe3\xdb\x57\xdf\xdb\x6f\x7d\xfb\xbf\x5c\xe4\xcb\xb0\xb1\xc1\xfd\x26\xd8\x94\x9a\xf6\x58\xe0\xee\x5d\x15\xf7\xff\x05\x63\x8e\xbb\x98\xb4\x86\x0a\x11\x06\x8c\x32\x2e\xb5\xd5\xe8\x2f\xc4\x62\xdb\x26\x9f\x2b\x5c\x7f\x1a\xc3\x7c\xac\x2f\x75\xa8\xc8\x66\x59\x3e\x68\x88\xdd\x44\x6a\x47\x38\x70\x89\xb7\x0c\xff\x39\x00\x7d\x5d\x3b\xbc\xbb\x68\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 26922, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x41, 0xe2, 0x28, 0xb1, 0xe7, 0xf1, 0x33, 0xc4, 0x40, 0xca, 0x7, 0x5d, 0xbe, 0xea, 0xa7, 0xab, 0xb1, 0x83, 0x2f, 0x65, 0xd8, 0x59, 0x1d, 0x3a, 0xed, 0x22, 0xaa, 0x41, 0xfe, 0x8e, 0xcc, 0xee}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 26811, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x12, 0xe9, 0x36, 0x24, 0x57, 0xe4, 0xc9, 0x98, 0x1d, 0x81, 0x90, 0x10, 0x4d, 0xf4, 0x80, 0x87, 0x1f, 0x4f, 0x85, 0x71, 0x3d, 0x74, 0x24, 0xd1, 0x52, 0x33, 0xef, 0x56, 0x48, 0x25, 0x69, 0x9c}}
 	return a, nil
 }
 
@@ -178,7 +178,7 @@ func serverInterruptGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _serverServerGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x9c\x57\x41\x6f\xdb\x38\x13\x3d\x8b\xbf\x62\x3e\xa1\x07\xe9\x83\x43\xdd\x8b\xf6\x90\x3a\xe9\x36\x40\x9b\x1a\x89\xb1\x7b\x5c\xd0\xd2\x58\x26\x4a\x93\x2a\x49\xd9\xe9\x0a\xfa\xef\x8b\x21\x25\xd9\xae\x53\x6f\x93\x4b\x2c\x91\xc3\xc7\x37\xef\xcd\x90\x4a\x51\xc0\xdc\x54\x08\x35\x6a\xb4\xc2\x63\x05\xab\x1f\xb0\x12\xd6\x68\x0e\x37\x5f\xe1\xfe\xeb\x12\x6e\x6f\xee\x96\x9c\x15\x05\x3c\xa0\x6d\xb5\x96\xba\x8e\x01\xb0\x97\x4a\x81\xd9\xa1\xdd\x5b\xe9\x11\xfc\x46\x3a\x58\x4b\x85\x21\xf8\x4f\xb4\x4e\x1a\xfd\x16\xba\x8e\x0f\xcf\x7d\x7f\x34\x01\x37\xc2\xe3\xf1\x2c\xbd\xf7\x3d\x63\x8d\x28\xbf\x89\x1a\xc1\xa1\xdd\xa1\x65\x4c\x6e\x1b\x63\x3d\x64\x2c\x49\x95\xa9\x53\x96\xa4\x1a\xfd\xf0\x53\x6c\xbc\x6f\x8e\x9f\x8b\xa6\xb1\x66\x4d\x23\xb6\xd5\x5e\x6e\x31\x65\x2c\xe9\x3a\xb9\x06\xfc\x0e\x7c\x6e\xf4\x5a\xd6\x7c\x69\x85\x76\x01\x34\x15\x4a\xa5\x90\x6a\xe1\x5d\x0a\x7d\xcf\x92\xb4\x96\x7e\xd3\xae\x78\x69\xb6\x05\x8d\x5e\x49\x13\x7e\x79\x6d\x52\x02\x42\x5d\x51\xd8\x7f\x22\xd6\xb6\x29\x47\x44\x63\x6a\x85\xbc\x36\x4a\xe8\x9a\x1b\x5b\x17\x61\xf2\x80\xc6\x92\x66\x05\x69\xd7\xf1\xc5\x87\xbb\x90\xeb\x42\xf8\x0d\x5c\xf5\x3d\xa5\xd1\x75\xfc\x74\xb0\x20\x5d\x64\x89\x29\xcb\x19\xdb\x09\x4b\xc2\xfc\x0d\x43\xb6\xfc\xd6\x5a\x63\x69\x40\xa3\x1f\x5e\x72\xc6\x82\xc9\x44\x14\x4a\xa3\xbd\x90\xda\x81\xdf\x20\x58\xfc\xde\x4a\x8b\x15\xac\x25\xaa\xca\xc1\xda\x58\x18\x1d\x16\xa3\xfe\xfe\x47\x83\xe3\x6a\xe7\x6d\x5b\x7a\xe8\x58\xf2\x69\xb9\x5c\x5c\x57\x95\xa5\x21\xa9\x6b\x96\xdc\xe0\xaa\xad\x4f\x46\xfe\x78\x58\xcc\x4f\x06\xee\xaf\x97\x8f\xe7\x6b\x60\x65\x8c\x62\x7d\x20\xf9\xd0\x6a\x70\x5e\x58\xef\x40\x80\xc6\x3d\x90\xa5\x03\x91\x19\xd4\x0f\x8b\xf9\xf4\x22\x74\x05\x02\xaa\x80\x10\xc7\x60\x2f\xfd\x86\xf2\x22\xa4\x46\x38\x87\x15\xa5\x4b\xbc\x29\x58\x99\xba\x46\xcb\xd6\xad\x2e\x69\x9f\xac\x5c\xd7\x43\x5a\x39\x25\x54\x14\x70\xdd\x34\x4a\x96\xc2\x53\x71\x56\x66\x2b\xa4\x66\x09\xea\xaa\x31\x52\x7b\x07\x6f\xdf\xc3\xed\xf8\x92\xe5\x2c\xac\x58\x90\xe3\x53\xa8\xb5\x25\x45\x6d\xc5\x37\xcc\xca\x8d\xd0\x80\xa4\xff\x10\xfa\x18\x39\xde\x69\x8f\xd6\xb6\x8d\x07\x96\xd4\xe6\xf0\x9a\xd1\xea\x21\x34\xca\xa2\xa4\xf3\xd4\x93\x2c\x91\x6b\x28\xd7\x35\x8f\xc3\x1d\x4b\x68\x21\xa5\x91\x05\xe2\x49\xa2\x4c\xcd\x17\x56\x6a\xaf\x74\x96\xfa\xb1\x12\xd3\x19\xa4\x41\x1e\x7a\x10\x55\x65\xd3\xd9\x01\x86\x6c\xa0\xdd\x92\x64\x4b\x94\x49\x66\x7e\x8f\xfb\x40\xf2\x4b\xfb\x94\xe5\x61\x8a\x7f\x12\xba\x52\x98\xa5\x45\x00\x8a\xbd\x55\xa4\xb3\x18\x1f\x27\xed\x47\x62\x12\x66\xf8\x9d\xae\xf0\x29\xbf\xb4\xb6\xdc\x56\x4a\x6a\xfc\x35\xc4\x3c\x06\x5c\x04\xa1\x3f\x52\x5d\x00\x59\xc4\x80\x8b\x20\xee\xc7\x76\x65\xd4\xaf\x31\x1e\xc3\xfc\x45\x08\x6f\x45\x79\x81\xc5\x92\xa6\xf3\xa8\x72\xa8\x8d\x77\x57\x31\xf4\x73\x70\xf6\x5a\x57\x41\xee\xec\xc4\x94\x19\x6c\x69\xcb\x9e\x1c\x18\xcf\x19\x4e\xcd\xf6\x09\x55\x83\x96\x7f\x41\xbf\x31\x95\xa3\x83\xa5\x28\x80\x26\x60\x72\x7c\xaa\x94\xa9\x39\xff\xf7\x1e\xd2\xf4\x65\x25\x43\x6b\x7f\xaa\x98\x11\x2e\x68\xb1\xa1\x7a\x69\x56\xfc\x8b\xf8\x86\x81\x57\xcc\x3b\x9b\x1a\x65\x16\x58\xc5\x72\xff\xda\x50\x33\xb9\x2c\xe7\x9c\xe7\xbf\xa3\xc3\xb8\xd5\x0c\x36\xa7\x32\xbc\xfc\xdc\x2d\x8a\x78\x60\x9c\xcb\x33\x1d\x4c\xaf\x90\x87\x20\xd3\xd9\xb1\x3a\x23\x5a\xc8\x4f\xe9\x19\x75\x3d\x69\x44\x07\x70\xcc\x30\x4b\x7d\xd9\x3c\x17\x4d\xb9\xd8\x40\x43\x4b\x15\x77\x9e\x14\x42\x6b\xc3\xbb\x45\xdf\x5a\x4d\x8f\x7d\xa8\x24\x67\x77\x47\x0e\x10\x5c\x94\xfa\xd8\x80\xc3\xe8\x99\x01\xe1\x1c\x23\x91\xa6\x76\xb7\xb1\xd9\x9b\x15\x7f\xc0\x9a\xf8\xda\xae\xe3\x8f\xf1\x8e\xe1\xf7\x62\x8b\x7d\x3f\xc4\xb9\x19\x38\xbb\x3b\x2d\x68\xc7\xa3\x79\x4a\xbf\xce\xaf\xc3\xcd\x5b\x14\x40\x17\xc4\x33\x7e\x4d\xf7\xc6\x2b\xfc\xa2\xb5\xa7\x7e\x8d\x68\x21\xeb\xd2\xe8\x23\xc7\xe8\x9e\x9f\x1b\xad\xb1\xf4\xd9\x59\xe8\x4b\xcd\x22\x74\x65\x1c\x12\x20\xa1\x07\xbe\x25\xfc\x7f\xda\x65\xe0\x9e\x94\x7c\x4e\x71\xd1\x86\xb0\x6e\xbc\xcc\x1f\xd1\x7f\x94\x5a\x28\xf9\x0f\xda\x2c\x52\x9d\x20\xf3\x67\xaa\x81\xf8\x9e\x57\x43\x18\x6d\x57\xae\xb4\x72\xf5\x7c\x4b\x42\x40\x08\x2b\x29\x78\xd8\x2a\x78\xfd\xaa\xc4\x7f\x2e\x83\x60\xee\xed\x93\xf4\xec\xd4\x29\x7c\x92\x64\xd2\xbb\xab\x78\xf9\xf5\x2c\xde\xce\xf7\xb8\x3f\xdc\xb4\x6e\x57\x12\xb9\x5f\xd4\x64\x4e\x73\x53\xf0\x70\x8f\x7f\x68\x9d\xd4\xe8\xdc\x74\x33\x13\xc6\x7b\x18\xbe\x9b\xf8\x5f\x56\x34\x03\x16\xa1\xe7\x91\xdd\x80\x31\xad\x19\xbe\xac\xba\xce\x0a\x5d\x23\xbc\x91\xa4\xf3\xc4\x61\x38\x86\xe9\x7b\x8c\x25\x49\xd7\x2d\xcd\x67\xb3\x47\x0b\x6f\xe4\x40\x6f\xc2\x9b\xcc\xe9\xba\xb3\xc9\x61\xfb\xa9\x5b\xc8\xd3\x93\x0f\x8e\xe3\xe4\xba\xdf\x26\x73\xb6\xcf\x5b\x00\x80\x0b\x24\x67\x47\x1c\x62\x27\x92\x46\xe0\x50\x61\x49\xff\x11\x1c\x04\x0e\x9f\x58\x5b\x59\x55\x0a\xf7\xc2\xa2\x3b\xe6\x7b\xaa\xf0\xc1\xc1\x29\x82\xd2\x8b\x85\x02\xd3\x18\xeb\xd9\xbf\x01\x00\x00\xff\xff\xbf\x27\xcc\x30\x82\x0c\x00\x00")
+var _serverServerGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x9c\x57\x4b\x6f\xdb\x38\x10\x3e\x8b\xbf\x62\x2a\xf4\x20\x2f\x1c\xea\x5e\x34\x87\xd4\x49\xb7\x01\xb6\xa9\x91\x18\xbb\xc7\x05\x2d\x8d\x65\xa2\x34\xa9\x0e\x29\x3b\x5d\x41\xff\x7d\x31\xd4\xc3\x76\x93\x06\x6d\x2e\xb1\x38\x8f\x6f\x1e\xdf\xf0\x91\x3c\x87\x85\x2b\x11\x2a\xb4\x48\x2a\x60\x09\xeb\xef\xb0\x56\xe4\xac\x84\xeb\x2f\x70\xf7\x65\x05\x37\xd7\xb7\x2b\x29\xf2\x1c\xee\x91\x1a\x6b\xb5\xad\x7a\x03\x38\x68\x63\xc0\xed\x91\x0e\xa4\x03\x42\xd8\x6a\x0f\x1b\x6d\x30\x1a\xff\x8d\xe4\xb5\xb3\xef\xa0\x6d\xe5\xf0\xdd\x75\x27\x0a\xb8\x56\x01\x4f\xb5\xbc\xee\x3a\x21\x6a\x55\x7c\x55\x15\x82\x47\xda\x23\x09\xa1\x77\xb5\xa3\x00\x99\x48\x52\xe3\xaa\x54\x24\xa9\xc5\x30\xfc\xe4\xdb\x10\xea\xd3\xef\xbc\xae\xc9\x6d\x58\x42\x8d\x0d\x7a\x87\xa9\x10\x49\xdb\xea\x0d\xe0\x37\x90\x0b\x67\x37\xba\x92\x2b\x52\xd6\x47\xd0\x54\x19\x93\x42\x6a\x55\xf0\x29\x74\x9d\x48\xd2\x4a\x87\x6d\xb3\x96\x85\xdb\xe5\x2c\xbd\xd0\x2e\xfe\xca\xca\xa5\x0c\x84\xb6\xec\xba\x5f\x40\xac\xa8\x2e\x46\x44\xe7\x2a\x83\xb2\x72\x46\xd9\x4a\x3a\xaa\xf2\xa8\x3c\xa2\x89\xa4\x5e\x43\xda\xb6\x72\xf9\xe1\x36\xd6\xba\x54\x61\x0b\x17\x5d\xc7\x65\xb4\xad\x3c\x17\xe6\xdc\x17\x5d\x60\x2a\x66\x42\xec\x15\x71\x63\xfe\x85\xa1\x5a\x79\x43\xe4\x88\x05\x16\xc3\xb0\x98\x09\xee\x7a\x5f\x3a\x14\xce\x06\xa5\xad\x87\xb0\x45\x20\xfc\xd6\x68\xc2\x12\x36\x1a\x4d\xe9\x61\xe3\x08\x46\x86\xd5\xd8\xff\xf0\xbd\xc6\xd1\xdb\x07\x6a\x8a\x00\xad\x48\x3e\xad\x56\xcb\xab\xb2\x24\xf0\x81\xb4\xad\x44\x72\x8d\xeb\xa6\x3a\x93\xfc\x79\xbf\x5c\x9c\x09\xee\xae\x56\x0f\x67\x82\xe8\x03\x6b\xe7\x8c\xe8\x62\x92\xf7\x8d\x05\x1f\x14\x05\x0f\x0a\x2c\x1e\x80\x29\x1d\x12\x99\x43\x75\xbf\x5c\x4c\x0b\x65\x4b\x50\x50\x46\x84\x5e\x06\x07\x1d\xb6\x5c\x17\x23\xd5\xca\x7b\x2c\xb9\x5c\xce\x9b\x8d\x8d\xab\x2a\x24\xb1\x69\x6c\x01\xf7\x8d\xcd\x8a\x4d\x35\x94\x35\xe3\x82\xf2\x1c\xae\xea\xda\xe8\x42\x05\x1e\xce\xd2\xed\x94\xb6\x22\x41\x5b\xd6\x4e\xdb\xe0\xe1\xdd\x25\xdc\x8c\x8b\x6c\x26\xa2\xc7\x92\x19\x9f\x4c\x89\x0a\xb6\xda\xa9\xaf\x98\x15\x5b\x65\x01\xb9\xff\x83\xe9\x43\x9f\xe3\xad\x0d\x48\xd4\xd4\x01\x44\x52\xb9\xe3\x32\x43\xa2\x62\x30\xed\xdb\x62\xb4\x0f\xbc\x27\x45\xa2\x37\x50\x6c\x2a\xd9\x8b\x5b\x91\xb0\x23\x97\x91\xc5\xc4\x93\xc4\xb8\x4a\x2e\x49\xdb\x60\x6c\x96\x86\x71\x12\xd3\x39\xa4\xb1\x3d\xfc\xa1\xca\x92\xd2\xf9\x11\x86\x69\xe0\x68\x49\xb2\xe3\x94\xb9\xcd\xf2\x0e\x0f\x31\xc9\xcf\xcd\x63\x36\x8b\x2a\xf9\x49\xd9\xd2\x60\x96\xe6\x11\xa8\xdf\x5b\x79\x3a\x8f\xb4\x0c\x4a\xfa\xc8\x99\x44\x8d\xbc\xb5\x25\x3e\xce\x5e\xf2\x2d\x76\xa5\xd1\x16\x7f\x0e\xb1\xe8\x0d\x5e\x04\xe1\x3f\xda\xbc\x00\xb2\xec\x0d\x5e\x04\xf1\xdf\x77\x6b\x67\x7e\x8e\xf1\x10\xf5\x2f\x42\x04\x52\xc5\x0b\x59\xac\x58\x3d\xeb\xbb\xcc\xec\xc2\xfb\x8b\x3e\xd8\x5f\x91\xd9\x2b\x5b\xc6\x76\x67\x67\xa4\xcc\x61\xc7\x21\x3b\x66\x60\x3c\x67\x24\x6f\xb6\x4f\x68\x6a\x24\xf9\x19\xc3\xd6\x95\x9e\x0f\x96\x3c\x07\x56\xc0\xc4\xf8\x34\x29\xd3\xe6\x7c\x73\x09\x69\xfa\x7b\x23\xc3\xbe\x3f\x4c\xcc\x08\xc7\x89\x25\x5b\x9e\x97\x7a\x2d\x3f\xab\xaf\xc8\x8a\xa1\xee\x6c\xda\x28\xf3\x98\x55\x2c\x8d\xbe\xd4\xbc\x99\x7c\x36\x93\x52\xce\x7e\xa5\x0f\x63\xa8\x39\x6c\xcf\xdb\xf0\xfb\xe7\x6e\x9e\xf7\x07\xc6\xd3\xf6\x4c\x07\xd3\x2b\xda\xc3\x90\xe9\xfc\xb4\x3b\x23\x1a\xe7\x9b\x18\x3b\xe7\x5d\xcf\x3d\xe2\x03\xb8\xaf\x30\x4b\x43\x51\x3f\x67\xcd\x77\x08\x11\xbc\xb9\x04\xab\x4d\x4f\xcc\xd4\x21\x24\x8a\x6b\xc2\xd0\x90\xe5\x4f\xbe\x28\x92\xc4\xd3\xfe\x84\x01\x0e\xde\xb7\xfa\x94\x80\xa3\xf4\x09\x01\xf1\x1c\xe3\x26\x4d\xdb\x9d\x78\xd4\x92\xa4\x5e\xcb\x7b\xac\x38\x5f\x6a\x5b\xc9\x1a\x5d\xa0\xbc\x53\x3b\xec\xba\xc1\xce\xcf\xc1\xd3\xfe\x7c\xa0\x7d\x34\xc5\xcc\xd8\xd7\xf1\x75\xbc\x79\xf3\x1c\xf8\x82\x78\x86\xaf\xe9\xde\x78\x05\x5f\xec\x7b\xce\xd7\x88\xc6\xf9\x26\x85\xb3\x27\x8c\xf1\x3d\xbf\x70\xd6\x62\x11\xb2\x27\xa6\xbf\x4b\x16\xa3\x1b\xe7\x91\x01\x19\x3d\x6e\xbf\x02\xfe\x98\xa2\x0c\xb9\x27\x85\x5c\xb0\x5d\x4f\x43\xf4\x1b\x2f\xf3\x07\x0c\x1f\xb5\x55\x46\xff\x87\x94\xf5\xa9\x4e\x90\xb3\x67\xa6\x81\x4b\x7b\x3a\x0d\x51\xda\xac\x7d\x41\x7a\xfd\xcc\x44\xf0\xb8\xc6\x79\x8a\x9e\x6c\x3c\x84\x8a\x5c\xbf\xaa\xf0\x1f\xc7\x20\x92\x7b\xf3\xa8\x83\x38\x67\x0a\x1f\x35\x93\xf4\xfe\x82\xfb\x38\xe3\x37\x00\x37\x09\xee\xf0\x70\xbc\x69\xfd\xbe\xe0\xe4\x7e\x32\x93\x33\xd6\x4d\xc6\xc3\x3d\xfe\xa1\xf1\xda\xa2\xf7\xd3\xcd\xcc\x18\x97\x30\xbc\x9b\xe4\x3f\xa4\xea\x01\x2b\xf3\xfb\x62\x16\x7d\x46\x8c\xc9\x67\x78\x59\xb5\x2d\x29\x5b\x21\xbc\xd5\xcc\xe1\x94\xc3\x70\x0c\xf3\x7b\x4c\x24\xd3\x23\xa1\x6d\xdf\xea\x21\x3d\x98\x48\x39\x11\x8e\x41\x86\xb0\xd3\x2e\x61\x2e\x27\xc2\x06\x3e\x47\x5b\xdf\xfe\x62\x12\xcf\xc4\x79\x07\x00\xf0\x4c\x72\xf3\x93\xd8\xfd\x45\xc2\x3d\x01\x8f\x06\x0b\xfe\x0f\x60\x8a\xdd\x3f\xa9\x76\xba\x2c\x0d\x1e\x14\xa1\x3f\xcd\xf3\xbc\xa3\x93\xcf\x71\xf4\xb8\xac\x7e\x47\x4c\x49\x78\xd1\x89\xff\x07\x00\xff\x78\xa5\xd2\x72\x0c\x00\x00")
 
 func serverServerGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -193,8 +193,8 @@ func serverServerGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "server/server.go.tmpl", size: 3202, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xb7, 0xbe, 0x7f, 0xc4, 0xf4, 0x24, 0x4a, 0xd, 0x74, 0xa5, 0xcb, 0x3a, 0x7e, 0x5e, 0xda, 0xd5, 0x13, 0x5f, 0xc, 0x2a, 0x75, 0xd0, 0x4a, 0x3a, 0x15, 0xb3, 0xbd, 0xcb, 0x36, 0x4d, 0x52, 0xc0}}
+	info := bindataFileInfo{name: "server/server.go.tmpl", size: 3186, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x22, 0x4b, 0x84, 0x8c, 0xef, 0x9d, 0xb4, 0x1d, 0xd1, 0x7, 0x43, 0xda, 0x37, 0x33, 0xe4, 0x3, 0x6e, 0x34, 0xd6, 0xdd, 0x28, 0xec, 0x2, 0xd9, 0x66, 0xe9, 0xc, 0xb0, 0xae, 0xe4, 0xc0, 0x34}}
 	return a, nil
 }
 
-- 
2.43.0


From 30d4428e73499ba44aa967f3e01861d06f94f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 28/53] fix: generate a handler file that compiles when the
 service has no unary rpcs

---
 gengokit/template/NAME-service/service/service.go.tmpl | 3 +++
 gengokit/template/template.go                          | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/gengokit/template/NAME-service/service/service.go.tmpl b/gengokit/template/NAME-service/service/service.go.tmpl
index 709cbdf..8853a77 100644
--- a/gengokit/template/NAME-service/service/service.go.tmpl
+++ b/gengokit/template/NAME-service/service/service.go.tmpl
@@ -6,6 +6,9 @@ import (
 	pb "{{.PBImportPath -}}"
 )
 
+// the import is in use even if the service has no methods
+var _ context.Context
+
 func NewService() *{{ToLower .Service.Name}}Service {
 	return &{{ToLower .Service.Name}}Service{}
 }
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 29506da..484445f 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -7,7 +7,7 @@
 // NAME-service/server/interrupt.go.tmpl (332B)
 // NAME-service/server/server.go.tmpl (3.186kB)
 // NAME-service/server/wrapper.go.tmpl (1.078kB)
-// NAME-service/service/service.go.tmpl (572B)
+// NAME-service/service/service.go.tmpl (654B)
 // NAME-service/service/service_methods.go.tmpl (291B)
 // NAME-service/service/wrapper.go.tmpl (1.366kB)
 
@@ -218,7 +218,7 @@ func serverWrapperGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _serviceServiceGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x84\x91\x5f\x4a\x03\x31\x10\x87\x9f\x33\xa7\x18\x96\x45\x76\x4b\x9b\x03\x08\xbe\xe8\x83\x08\x5a\x8a\xd6\x03\x6c\xb7\x63\x1b\xec\x26\x31\x99\xed\x1f\x86\xdc\x5d\xd2\x6e\xa5\xa2\xd0\xa7\x24\x93\xef\xf7\x91\x99\xf8\xa6\xfd\x6c\x56\x84\x91\xc2\xd6\xb4\x04\x60\x3a\xef\x02\x63\x05\xaa\x68\x9d\x65\xda\x73\x01\xa0\xfc\x02\x0b\x11\x3d\xbb\x7f\x3a\x5e\xcf\x1a\x5e\xe3\x24\xa5\x02\x6a\x80\x8f\xde\xb6\x38\xa5\xdd\xdb\x49\x51\xd5\x38\x12\x99\xbb\x67\xb7\xa3\x80\x7a\xa8\xea\x69\xd3\x51\x4a\xc3\x09\x05\x54\x20\xee\x83\xc5\x9b\x6b\xac\x24\x48\x00\x7c\xf0\x84\x57\xb5\x91\x43\xdf\x72\xb6\xfb\x85\x7e\xb7\xa6\xf3\x1b\xea\xc8\x32\x2d\x45\xfe\x89\x50\xc8\x6a\x91\x9d\xe1\x35\x96\x4c\x78\x7b\x87\x1a\x53\x02\x25\x12\x1a\xbb\x22\x2c\x4d\xae\x95\x4c\x3f\xe9\x17\xe2\xb5\x5b\xc6\x0c\xa9\x63\xe7\x55\xbc\xec\xf7\x12\xfd\xf5\xb6\x1a\x45\x4a\x33\xd4\xaa\x96\xf7\x38\x8c\x57\x3f\x9c\xd6\x31\x1a\x8b\x23\xbf\xd0\x22\x8f\x2e\x63\x58\x1a\xfd\x4a\x5f\x3d\x45\x9e\x1f\xfc\x59\x57\x63\xf5\x17\x8a\xde\xd9\x48\x17\xd4\x18\x29\x04\x17\x6a\x01\xa5\xd4\xb6\x09\x18\x28\x7a\xbc\x9e\xcb\xf8\xf9\x63\x72\x64\x8c\xd6\x6c\x40\xa9\xe3\x48\xc8\x2e\x53\x02\x91\x09\x9e\x76\xdf\x01\x00\x00\xff\xff\xb2\xb4\x55\x6e\x3c\x02\x00\x00")
+var _serviceServiceGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x84\x91\x41\x6b\x1b\x31\x10\x85\xcf\x9a\x5f\xf1\x30\x4b\xd9\x0d\x8e\x72\x2f\xf4\xd2\x1e\x4a\xa1\x0d\xa1\x4d\xcf\x65\xbd\x9e\x64\x45\xb3\x92\x2a\xcd\xda\x09\x83\xfe\x7b\x91\xbd\x2e\x6e\x1b\xf0\x49\x68\xe6\x7b\x4f\x9a\x79\xb1\x1f\x7e\xf6\x8f\x8c\xcc\x69\xe7\x06\x26\x72\x53\x0c\x49\xd0\x92\x59\x0d\xc1\x0b\x3f\xcb\x8a\xc8\xc4\x0d\x56\xaa\xf6\xee\xfd\xa7\x43\xfb\xae\x97\x11\xd7\xa5\xac\xa8\x23\xba\xb9\x81\x8c\x8c\x45\xe8\x32\x9c\xc7\x9c\x19\xbc\x63\x0f\xf7\x70\x68\x2e\xf6\x18\xfb\x0c\x1f\x30\xb1\x8c\x61\x9b\x69\xd7\x27\xfc\xc0\xf2\x8e\xfd\x70\x3c\x89\x1e\x66\x3f\xe0\x96\xf7\xdf\x8e\xaa\xb6\xc3\x95\xea\x7d\xf8\x1c\xf6\x9c\x60\x97\xaa\xbd\xed\x27\x2e\x65\xb9\x41\xc9\x24\x96\x39\x79\xbc\xb9\xc4\x6a\xa1\x42\x24\x2f\x91\x71\xd1\x36\x4b\x9a\x07\xa9\xee\x71\x63\xbf\x7b\x37\xc5\x27\x9e\xd8\x0b\x6f\x55\x5f\x91\x70\xaa\xd6\xaa\x7b\x27\x23\x1a\x61\xbc\x7d\x07\x8b\x52\xc8\xa8\xa6\xde\x3f\x32\x1a\x57\x6b\x8d\xf0\x1f\xf5\x97\xe3\x32\x2a\x64\x0e\x93\xb7\xf9\x7c\xde\x73\xf4\xaf\xbf\x75\x50\x6d\xdc\x52\x6b\x07\x79\xfe\x77\x91\xeb\x9a\xc4\x55\xdc\x58\xd5\x8f\xa1\x62\x68\x9c\xfd\xca\xbf\x66\xce\x72\xff\x12\x4f\x76\x1d\xda\xff\xa1\x1c\x83\xcf\x7c\x46\xad\xc1\x29\x85\xd4\x29\x19\x63\x6a\x6e\x89\x73\xc4\x65\x5d\xc5\x4f\xc1\x54\xc9\x1a\xde\x3d\x91\x31\x87\x95\xb0\xdf\x96\x42\xaa\xd7\x60\xbf\x2d\x85\x7e\x0f\x00\x79\x9c\xe2\xda\x8e\x02\x00\x00")
 
 func serviceServiceGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -233,8 +233,8 @@ func serviceServiceGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "service/service.go.tmpl", size: 572, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xcf, 0x67, 0xd4, 0x35, 0x7d, 0x82, 0xea, 0x92, 0x9a, 0xdd, 0x29, 0x78, 0xfd, 0xb4, 0xc4, 0xb4, 0x66, 0xb4, 0x58, 0x32, 0x35, 0x9a, 0x5d, 0xa7, 0xfa, 0x9a, 0x94, 0xe, 0x89, 0xcc, 0xfd, 0xcb}}
+	info := bindataFileInfo{name: "service/service.go.tmpl", size: 654, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xcf, 0xcd, 0x2f, 0xa, 0x8f, 0xe9, 0x79, 0x36, 0xf8, 0xe6, 0x27, 0xbb, 0x29, 0xbe, 0x74, 0x7f, 0x59, 0x25, 0x46, 0x5a, 0xac, 0xa2, 0x79, 0x9d, 0xb6, 0x68, 0xcf, 0x61, 0x53, 0x49, 0x72, 0x6}}
 	return a, nil
 }
 
-- 
2.43.0


From 3b50e80d65e3932f56cc011d706f2d078e55b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 29/53] fix: decode optional 32-bit numbers and enums of paths
 and queries

---
 gengokit/httptransport/httptransport.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index bee4811..b8cc7a3 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -502,11 +502,16 @@ func createDecodeTypeConversion(f Field) string {
 	}
 	if f.IsEnum {
 		fType = f.GoType + "(%s)"
+		// optional enum
+		if f.StarExpr {
+			fType += ".Enum()"
+		}
 	}
 	// 如果字段是标量类型并且是指针类型
 	// log.Debugf("[createDecodeTypeConversion] field[%v].GoType=%v.IsBaseType=%v, filed.StarExpr=%v\n", f.Name, f.GoType, f.IsBaseType, f.StarExpr)
 	if f.IsBaseType && f.StarExpr {
-		return fmt.Sprintf("&"+fType, f.LocalName)
+		// proto.Int32 and so on; the address of a conversion cannot be taken
+		return fmt.Sprintf("proto."+strings.Title(f.GoType)+"("+fType+")", f.LocalName)
 	}
 	return fmt.Sprintf(fType, f.LocalName)
 }
-- 
2.43.0


From e1e59d1634f87ef9ef6207c8dbdd6e9561e5874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 30/53] fix: send the value of an optional field in the path,
 not its address

---
 gengokit/httptransport/httptransport.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index b8cc7a3..3eb3bd6 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -256,10 +256,14 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 //     }
 func (b *Binding) PathSections() []string {
 	isEnum := make(map[string]struct{})
+	isOptional := make(map[string]struct{})
 	for _, v := range b.Fields {
 		if v.IsEnum {
 			isEnum[v.CamelName] = struct{}{}
 		}
+		if v.StarExpr && (v.IsEnum || v.IsBaseType) {
+			isOptional[v.CamelName] = struct{}{}
+		}
 	}
 
 	rv := []string{}
@@ -267,12 +271,17 @@ func (b *Binding) PathSections() []string {
 	for _, part := range parts {
 		if len(part) > 2 && part[0] == '{' && part[len(part)-1] == '}' {
 			name := RemoveBraces(part)
+			value := "req." + pkg.GoCamelCase(name)
+			if _, ok := isOptional[pkg.GoCamelCase(name)]; ok {
+				// the value, not the pointer
+				value = "req.Get" + pkg.GoCamelCase(name) + "()"
+			}
 			if _, ok := isEnum[pkg.GoCamelCase(name)]; ok {
-				convert := fmt.Sprintf("fmt.Sprintf(\"%%d\", req.%v)", pkg.GoCamelCase(name))
+				convert := fmt.Sprintf("fmt.Sprintf(\"%%d\", %v)", value)
 				rv = append(rv, convert)
 				continue
 			}
-			convert := fmt.Sprintf("fmt.Sprint(req.%v)", pkg.GoCamelCase(name))
+			convert := fmt.Sprintf("fmt.Sprint(%v)", value)
 			rv = append(rv, convert)
 		} else {
 			// Add quotes around things which'll be embeded as string literals,
-- 
2.43.0


From a850ae4d6731b99002c26aa4fd4cd06ffad599fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 31/53] fix: send an optional enum in the query only if it is
 set

---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 4 ++++
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 86ade08..e36c51f 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -642,6 +642,10 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 						values.Add("{{$field.QueryParamName}}", fmt.Sprint(v))
 					}
 					{{- end}}
+				{{else if and $field.IsEnum $field.StarExpr}}
+					if req.{{$field.CamelName}} != nil {
+						values.Add("{{$field.QueryParamName}}", fmt.Sprintf("%d", *req.{{$field.CamelName}}))
+					}
 				{{else if or (not $field.IsBaseType) $field.Repeated}}
 					tmp, err = json.Marshal(req.{{$field.CamelName}})
 					if err != nil {
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 484445f..255e389 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (26.811kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.002kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4b\x8f\xe4\x38\x72\xf0\x59\xfa\x15\x31\xc2\x3c\xa4\xfa\xb2\x94\xf3\x7d\xc0\x67\xac\xab\x91\x06\xba\xab\x6b\x1e\xbb\xd3\xdd\xb5\xd5\xd5\x3b\x80\x1b\x8d\x5e\x66\x8a\x99\xc9\x2d\xbd\x9a\xa4\xaa\x2a\x37\x9d\x17\x5f\xd6\x80\x0d\x18\xf0\xc9\x07\x63\xe1\x93\xaf\x86\xcf\xfe\x3d\x3b\xc6\xfe\x0b\x23\xf8\x12\x95\x29\xe5\xa3\x67\xd6\xb0\x01\x37\xb0\x53\x29\x8a\x0c\x46\x04\x83\xf1\x24\xb5\xe3\x31\x5c\x56\x19\x85\x05\x2d\x29\x27\x92\x66\x30\x5d\xc1\x94\xf0\xaa\x4c\xe1\xf9\x2b\x78\xf9\xea\x16\xae\x9e\x7f\x7b\x9b\x86\xe3\x31\xdc\x50\xde\x94\x25\x2b\x17\xba\x03\x3c\xb0\x3c\x87\xea\x9e\xf2\x07\xce\x24\x05\xb9\x64\x02\xe6\x2c\xa7\xaa\xf3\xaf\x28\x17\xac\x2a\x2f\x60\xbd\x4e\xcd\xef\xcd\xc6\x7b\x01\xcf\x89\xa4\xfe\x5b\x7c\xde\x6c\xc2\xb0\x26\xb3\x3b\xb2\xa0\xf8\xe6\x5a\xff\x7c\x49\x0a\xf5\x66\x3c\x86\x5b\x3b\x07\xcc\xaa\x52\x12\x56\x0a\x28\xa8\x5c\x56\x99\x00\x59\x41\x41\xee\x28\xb0\x32\x63\xf7\x2c\x6b\x48\x0e\xb4\xcc\xea\x8a\x95\x52\xc0\x9c\x57\x05\x08\xca\xef\xd9\x8c\x8a\x11\xa2\xc1\xe9\x87\x86\x0a\x09\xa4\xcc\x80\x53\x51\x57\xa5\xa0\x20\x57\x35\x55\x90\xb0\x2b\x52\x54\x09\xda\x42\x19\x01\x11\xf0\x40\xf3\x1c\xff\xd2\x72\x56\x65\x94\x0b\x04\x80\xf0\x32\x6a\x9e\xe7\x15\x37\x03\x15\xb4\x91\x6a\x20\xc8\xa9\x39\x54\x0d\x07\xd1\xd4\x75\xc5\x91\xd3\x92\x93\x52\xe0\x6f\xc4\x8c\x91\x9c\xfd\x96\x48\x56\x95\x08\x6d\x5e\xf1\x82\x48\x91\x86\x21\x2b\x54\x8f\x38\x0c\xa2\xe9\x4a\x52\x11\x85\x41\x84\xb4\xd3\x47\x89\x3f\x15\x1a\xac\x5c\x8c\x7f\x23\xaa\x12\x1b\xe6\x85\x6a\x67\x95\xfe\xef\x98\x55\x8d\x64\x39\x3e\x94\x54\x8e\x97\x52\xd6\xf6\x77\xc3\x55\xb3\x90\x7c\x56\x95\xf7\xe6\x27\x2b\x17\x22\x0a\xc3\x20\x5a\x30\xb9\x6c\xa6\xe9\xac\x2a\xc6\x8b\xea\xfc\x8e\xc9\x31\xfe\xcf\xf2\x22\x0a\x03\x52\xae\xea\x29\x44\x8b\xaa\x5a\xe4\x34\x5d\x54\x39\x29\x17\x69\xc5\x17\xe3\x9a\x57\xb2\x9a\x36\xf3\xb1\xa2\x7f\x7c\x57\x56\x0f\xe5\x58\xf5\x8e\xc2\x20\x6b\xb8\x22\xf2\x84\xa1\xed\x90\x28\x0c\x68\x51\xcb\x53\xe6\x35\xfd\xa3\x30\x98\x33\x9a\x67\x05\x11\x77\x27\x8c\xf6\xc6\x44\x61\x20\x24\x6f\x66\xf2\x84\xe1\x76\x40\x14\x06\x92\x15\x54\x48\x52\xd4\x27\x0c\xf7\xc6\x44\x61\xf0\xc0\x49\x5d\x53\x2e\x4e\x00\xd0\x0e\xd9\x5d\x52\xce\xf2\x9c\x8c\x8b\xe6\x31\xea\xbe\xa9\xef\x16\x63\xca\x79\xc5\x95\xa4\xed\x99\xc8\x49\x9e\x6a\xb1\xe2\xb7\x67\x80\xfa\x81\x88\xac\xd7\xe7\xc0\xe6\x40\x3f\x40\x7a\x59\x95\x73\xb6\x48\x6f\xdd\x4e\x88\x48\x9e\x47\x10\x95\x44\x8a\x08\x36\x9b\x2e\x6e\xd8\x7a\xce\x2a\xf5\x37\x5d\xa0\x84\x23\x28\x5a\x66\x9b\xcd\x51\x50\x17\xbc\x9e\x59\xa8\x3b\x78\xaa\x97\x83\x6f\xc6\x05\x95\x24\x23\x92\x6c\x4f\x7a\xf4\x94\x08\xbf\xdd\xf1\x03\xfb\xcb\x75\xb0\xe8\x78\x73\xe1\xde\x3d\x01\x00\x76\x8f\x8e\x62\x4b\xcb\x6c\xfc\x75\xc2\x14\xd8\xbd\x83\x63\x12\x86\xe1\x3d\xe1\x10\x87\xc1\x7b\x98\xc0\xbc\x90\xe9\xeb\x9a\xb3\x52\xea\x67\xa5\xc0\xd2\xcb\xaa\xa8\x09\xa7\xba\xc9\x68\x9f\xf4\xa9\xac\x98\x6e\xe9\x90\x99\xbe\xa4\x0f\xaf\x29\xbf\xa7\x5c\xbf\xd4\xda\x2c\x7d\x59\xd5\x97\x79\x25\xda\xd6\xf4\xb2\xaa\x57\xfa\x41\x0b\x6f\xfa\x3d\x27\x75\x18\x8c\xc7\x60\xd6\xd3\x8a\xa1\xd6\xf1\xd8\x55\xa9\xa4\xf4\x69\xa9\xc6\xb5\x4a\x26\x7d\x6e\x7e\x62\xb3\x51\x1f\xe9\x15\xfe\xc5\x06\xbb\xa5\xd3\xd7\xea\x07\x36\x79\xdb\x34\xbd\xb5\xbf\xf1\x45\xbb\xfd\xb0\x37\x2b\x17\xbf\x22\x79\xa3\xe8\xf6\xf4\x4a\xfa\x15\xfe\x7e\x41\xc4\x5d\x98\x84\xe1\xf8\xec\xa8\x7f\x70\x65\x6d\x12\xd8\xa6\xc3\xff\xc6\xca\x82\x7e\x5b\x02\x41\x7b\x73\x4f\xf9\x08\x98\xfc\x42\x40\x23\xe8\xbc\xc9\x95\x99\x9a\x37\xe5\x0c\xb9\x20\x40\x2e\x89\x84\x92\xa2\x95\xaa\xa0\xaa\x95\x6f\x00\x15\x8e\xad\x29\x3f\xb7\x66\x00\x01\x4e\x89\x60\x22\x85\xaf\x2a\x0e\xf4\x91\x14\x75\x4e\x47\xb0\xaa\x1a\x28\xd8\x62\x29\xa1\x26\x02\x4d\xa4\x87\xb0\xac\x80\xb8\x89\xf4\x3c\x35\xaf\xb2\x66\x46\x05\x82\x23\xa5\x92\x80\xf4\x1b\x52\x66\x39\xe2\xf8\xc0\xe4\x12\x28\x99\x2d\x8d\xa5\x87\xd8\xce\x9e\xc0\x03\xe3\x34\x83\xa6\x46\x24\x09\x88\x9a\xce\xd8\x9c\xcd\xa0\x26\x72\x99\x42\xfc\xad\x44\x80\x4c\x40\xcd\xab\x29\x99\xe6\x2b\x20\x50\x30\x21\xb5\x97\x00\x19\x15\x6c\x51\xe2\x50\x56\xde\x57\x77\x68\xee\x29\xa0\xb0\xb1\x19\x75\x5e\x85\x42\x91\x22\x9c\x96\x02\x2d\x03\xc0\x5a\x4e\xa6\x49\x38\x1e\x3b\xee\xce\x72\x46\x4b\xd9\xe5\xae\xac\x60\x56\xe5\x39\x9d\x49\xcf\x41\xc9\x57\x30\xab\x4a\x0d\x8e\x66\x9e\xbb\xc2\x4a\x24\x08\x01\x0a\x56\x2e\x72\xed\x98\x68\x5e\x31\xe4\x70\x41\x11\x0f\x1f\x5f\x56\x4a\xca\xe7\x64\x46\x87\x56\x02\x81\xb9\xc9\xfa\x9d\xa4\x06\x27\x6b\xbd\x12\xe5\x2c\xe0\x06\xbc\x34\xf4\xcc\xaa\x62\xca\x4a\xc5\xa7\xc2\xa0\xe8\x2d\xec\xc8\xb8\x52\xb2\xe1\x25\x30\x89\x7c\x45\x04\x67\x24\xcf\x29\x47\x8f\x89\x58\x64\xd3\x50\x91\xb3\xc3\xd0\x75\x18\xbc\x29\x1d\x7d\x34\x5b\xaf\x53\x3b\x42\xbb\x80\x46\x13\xac\xd7\x9c\x94\x0b\x0a\x9f\x32\xb8\x98\x80\xeb\xf3\x42\x2f\x19\xea\xb1\xf5\xfa\x53\x66\xc6\xd8\x59\x00\xc0\x91\x9a\xda\xc6\x70\xbd\xd6\xca\x55\x7b\x97\xb6\x59\x1c\x9e\x02\x05\x18\x62\x8f\x88\x04\xbc\x49\xe3\x99\x7c\x04\xe3\xa5\xa1\x69\xc0\xbf\x23\x14\x98\xb3\xf5\xfa\xeb\x0a\x11\x83\x4f\x59\x7a\xa3\x5d\xd0\xdb\x55\x6d\x09\x4c\x20\xde\xea\xa1\x1d\x53\xaf\xcb\x48\x2b\xb8\x04\xd6\x61\x60\xfd\x56\xd5\x86\x88\xd2\xb4\x87\x72\x44\x06\x27\x4f\xc2\x00\x8d\x15\xe7\xf0\xc9\x04\x4a\x96\x23\x84\xc0\xac\x57\xc9\x72\x05\x24\x0c\x36\xa1\x6d\xb3\xd0\xd3\x83\x38\x25\x23\x84\x17\x6e\x1c\x3b\x91\x99\x2f\xc8\x9d\xc7\x9e\x70\xbd\x56\x1b\xf9\x53\x49\x11\xd1\x74\x83\x9d\xcf\xc1\xe7\xf2\xa7\x92\x0e\x31\x1a\x61\xf5\x51\x26\x90\xe9\x92\xf6\x8a\x49\xb2\xbb\xdc\xb0\x76\xc4\xe1\xfa\xf5\xaf\x92\x0d\x0c\xdc\x8e\x5a\x6f\x12\x88\x2d\x33\xfc\x66\xc5\x31\x6f\x39\x02\x4e\x3f\x20\x21\x06\x42\x1a\x1f\x5a\xed\x30\x08\xee\xdd\xda\x09\x7f\xed\x10\x35\x85\x4a\x12\x06\x3d\xab\xb6\xbb\x6c\xb8\x6e\xb6\xf5\x5e\x2f\x47\x80\x62\xdd\xda\x66\x7f\x6d\xd0\x38\x3e\xcd\xf3\xab\xc7\x19\xad\xa5\xb2\x53\x42\xab\x58\xc7\x29\x65\xa1\x30\x64\x31\x7b\xd3\xbe\x10\xa0\x96\x91\x20\x14\xcf\x27\x70\xac\x7e\xc1\xb2\x2c\xa7\x0f\x84\xeb\x28\xf0\x8d\xb0\x71\x21\x06\x41\x75\x9d\xaf\x50\xc5\xa0\xda\x94\x08\xbc\x70\xbd\x55\xd4\x45\xef\x29\x5f\xb9\x65\xc3\xfd\x82\x1a\xc4\x84\x6d\x0a\xde\xab\x1a\xad\x06\xc9\xf3\xd5\xc8\xf5\x13\x30\x23\x25\x4c\xa9\xb2\x35\x34\xc3\x61\xd3\x15\x94\xc8\x76\x59\x61\x3b\x7d\x9c\xe5\x4d\x46\x33\x1d\x05\x4e\x29\xa2\x80\x34\xd7\x34\x4b\x77\xb8\x11\xb7\x38\x8d\x20\x7a\x2d\x89\x6c\x44\x34\x82\xe8\x9a\x95\x8b\x28\x71\xfb\xfe\xcc\x31\x24\x19\x1c\xef\x30\xf4\xb8\x32\x6a\xb1\x49\xd3\x54\x28\xb7\x40\x09\x0f\x2b\x4d\xf3\xc5\x04\x0a\x52\xbf\xd5\xaf\xde\x69\xf6\xaf\x37\x28\x5e\xdb\x1b\xa6\x67\xb7\x04\x41\x10\x79\x62\x14\x5d\xc0\x7a\x33\x0a\x03\xdf\x8d\xdc\x84\x61\x80\xb6\xfe\x3d\xa2\x82\x60\x34\x48\x87\x16\xce\xc4\xe6\xf0\x7e\x04\xd5\x1d\xbe\xb6\x88\xbd\xa5\x8f\xef\x9e\xc0\x27\xd5\x1d\x62\x1b\x04\x35\x29\xd9\x2c\x6e\x3d\xbc\x79\x1c\x5d\x59\x10\x96\x6e\xf8\xe2\x33\xf1\x05\x64\x15\x15\x50\x56\x12\xe8\x23\x13\xf2\x09\x08\x4a\xfd\x85\x77\x31\xa5\x72\xe9\x11\xa9\x24\x31\xf2\x9c\xd1\x9c\x4a\x1a\x5b\x0c\xd4\x3b\x4d\xc0\x51\xac\xe8\xa5\xa2\xc3\x9e\x77\x4f\xc0\xd2\xd3\xab\x3a\x61\xe2\x61\x1a\xf7\x76\x31\xb8\xb6\x0c\xd6\x3b\xec\x3b\x32\xa5\x39\xcd\xda\x85\xd7\xd9\x92\x05\x95\x56\x4c\x51\xb4\x1d\xa3\x94\xb4\x3e\x2c\x69\xe9\xde\x56\x9e\x64\x1a\x60\x5a\xc0\x46\x7a\x43\x19\x99\x6f\x74\x67\xd0\x29\x18\xa2\xf3\x38\x6c\x86\xfe\x0b\x67\x33\xe5\x51\xb5\x14\xc0\xc3\x92\xcd\x96\x6a\xbb\x08\x5a\xf6\xa1\x60\x8c\xb6\x19\x6d\x5d\x96\x8a\x1b\x93\xbd\x4b\x15\xee\x87\x58\xcb\xea\x68\x57\xe1\xf6\xe8\xe0\x70\x88\xae\x8f\x56\x43\x3b\x48\x8d\x0c\x9d\x8a\xe3\x9c\xce\x28\xbb\x47\x2d\x44\x35\x89\xd5\xbc\x43\x77\x0a\xaf\x29\x75\x60\x3c\x28\xea\x85\xf5\x39\x0d\xc2\x57\x8f\x88\x28\xee\x9e\x8c\x4a\xc2\x72\x81\x2e\xb1\xdd\x39\x08\xc4\xfa\xb5\x24\x67\x72\x95\xee\xd3\x16\x1d\xda\xe3\xe2\x47\x70\xf4\x7f\x55\xca\xff\x5c\x95\xd2\x19\x3a\x82\x63\x35\xcc\xf1\x69\x87\x63\x03\xca\xaf\x6f\xae\x2f\x91\x60\xca\x4f\x8e\x28\xd1\x39\xf3\x86\x63\x12\x56\xb4\x26\xde\x2d\x05\x90\x7b\xc2\x72\x32\xcd\xa9\x0e\x06\x16\x37\xd7\x97\x30\xe0\xe2\x9b\x9d\xd3\x85\xec\xe2\x3e\xd1\xaa\x81\x11\x54\xca\x23\x10\x28\xfa\x9d\x0c\x8b\x92\x64\xca\xb5\xc3\x90\x0c\x4d\x84\xb6\x4c\x78\x1d\x05\x2e\xec\xdb\x77\xc3\x90\x70\x61\xfb\xde\x3e\xa3\xf3\x8a\xd3\x18\xb1\x7d\x61\x32\x45\xb7\x95\xf1\x29\x93\x11\x6e\x91\xad\x79\x26\xe8\x0e\xd1\x32\x8b\x3b\xcd\x8e\x9e\x34\x4d\x13\x95\xbe\x58\xaf\xe1\xb6\xfa\xae\x7a\xa0\xbc\x95\x48\x64\x15\x2e\xae\x75\xf8\x3e\x47\x8c\xf0\x25\xe5\x6b\xb4\x8d\x07\xc5\x18\xfb\x7b\x92\x76\x01\x5d\x92\x5c\xd2\x25\xc6\xdd\xef\xd8\xde\x27\x9c\xe8\x5c\x04\xcf\x55\xee\x1b\x69\xf7\x7a\x18\x7f\x57\x75\xb8\x2a\x7b\x3b\x98\xe8\x05\x7b\x74\xb8\x90\xa6\x29\x0e\x4b\x46\xbe\xd4\x07\xd6\xb4\xb6\xc4\x6e\x07\xc3\xce\xdd\xee\x5f\x6b\xe7\xba\x6b\x63\xe6\xc1\xf9\xc9\x03\xd0\x2d\x06\x03\x6c\x71\xd8\x64\x37\x3c\xf7\xdc\x04\x4d\x26\xed\x80\xda\xd4\xc3\x4f\x56\x2d\xa9\xc7\x53\x79\x10\x4d\xb5\xc9\x62\x01\x67\xed\x54\x49\x0b\xfe\x40\x34\x8b\xc1\xce\x4f\x1b\xce\xbe\xc7\x88\xa7\xf6\x02\xa2\x2d\x2e\x2a\x0a\x94\x14\xf9\xe1\xd1\x89\x31\x6d\xfd\x91\xe1\xac\xe1\xae\x16\xf5\xc3\xac\x1d\x8f\x61\xdf\xae\x00\x86\x2a\xd0\xc9\x83\xca\xf6\xa6\x7a\x80\xe9\xf1\x15\xae\x8d\xca\xf8\x60\x75\x86\x72\x29\x74\x42\xc8\xa8\x4d\xab\x13\x1c\x60\x17\xb7\x62\x5a\x06\xb3\x4e\xfc\x3c\xab\x0a\xc2\xca\x7d\x9d\x53\xb8\xe6\xac\x20\x9c\xe5\x2b\x9b\xa8\xf2\xb3\x5a\x5a\x0b\xef\xa3\x23\x7e\xbf\x2b\x18\x48\xcb\x0d\xfd\xd0\x0a\xa2\x0a\xa0\xbd\xa7\x6e\x0a\x43\x85\xcc\x66\xcc\x31\x21\xb3\x5b\xc9\x0f\x7b\x96\xe9\xaa\x3c\x7a\x99\xf6\xea\xa6\xde\x75\xd2\x23\x6c\x97\xa1\x85\x3a\xbc\x04\x66\x0a\xb5\x60\x7b\x96\xb5\xce\x57\x47\xad\xd3\x5e\x42\xfa\x16\xaa\x2f\xa7\xb1\x6f\xa5\x44\x8d\x4b\x65\x47\x1d\xb1\x8f\xbc\xc5\x12\x75\xdf\x6a\x7d\x43\x73\x4c\x90\x87\x5a\xd0\x7a\x8d\x67\xbf\xf2\x29\x32\xb0\x05\x99\xf4\xc5\xf3\x64\xbb\x03\xe2\x8b\x2a\xf4\x6e\x04\xf7\xad\x3f\x5a\x38\x4f\xf4\xbe\x93\x4c\x51\x75\x65\x0a\x77\x74\xa5\x96\x3b\x43\x97\x75\x5a\xc9\x25\xf2\xd8\xce\x62\x2a\xb2\x10\xdf\x25\x26\xba\xc0\xae\x79\x0e\x39\xae\x97\x81\x42\x4c\x4c\xa5\x12\xa7\x97\xa4\xac\x4a\x36\x23\xf9\x37\x94\x64\x94\xff\x82\xae\x6c\xe8\x81\x13\x89\xca\xa4\x73\xa5\x89\xe4\x2c\x88\xd9\x8c\xda\x2c\x06\x65\x72\x49\xb9\x99\x19\xdf\x23\x2b\x26\x8e\xd6\xef\x99\x5c\xaa\x8a\x02\xb2\x68\xa4\x68\x7d\xfb\xe5\xbb\xe4\x60\xc7\x01\xec\xe2\xbb\xa4\x85\x60\x9c\x7a\xb3\x7c\x33\xf9\xa8\x6c\xaf\xf5\xfb\xf6\xff\x53\xeb\xa8\x73\xc6\x27\xfb\x92\x2f\xe9\x83\x37\x5a\x4f\xaf\xea\x07\x26\x09\x04\x53\x32\xbb\xc3\xe5\x59\xd9\x3d\xa3\x93\xed\x48\x6b\x49\x55\xed\x22\x85\x6f\x25\xae\xa3\x49\xdb\x1b\x71\x65\x53\x86\x21\x99\x5d\x02\x93\x95\x96\x15\x64\x8c\xe4\x3a\x75\x9d\x13\x49\x39\xcc\xb0\xae\x84\x31\x36\xf5\x61\x6a\x01\xed\x60\x17\xe3\x6b\x6d\x3a\x53\x8d\xef\x65\x55\x96\x7b\x1c\x52\xdd\xc9\x3a\xa4\xf1\x80\x47\xea\x6f\x39\xf4\x0e\xb6\xb3\xa6\x81\xd7\x5a\xdf\x2d\x70\xa7\xd9\xe4\x69\xf7\xb8\x44\xb0\x1b\xdd\xf9\xa9\xd2\x56\x07\x06\xf7\x84\xbb\xf8\xca\x53\x1d\xbb\x91\x66\x18\xe0\x7e\xe9\xeb\x3a\xd9\xf5\x20\x0d\x97\x94\x38\x22\x63\x6c\x20\x69\x90\xde\x6c\xd2\xbe\xdc\x6d\xe4\xfa\x59\xd8\xd1\x3e\x0f\xb2\x75\x31\x9f\xd3\x43\x2e\xe6\x01\x6d\xa5\x13\x65\x41\xeb\x7f\xe3\x63\xe2\x68\x8f\x55\x98\xa8\x98\x6a\xfc\xd1\xf6\x97\xfd\xe1\x36\x8c\x1d\x24\x0e\xba\xe3\x70\x6e\x40\x39\x9c\xed\xd8\x0b\xbf\x62\xe1\xbd\x1f\xb5\xf3\x05\x1b\xab\x54\x51\x99\x22\xed\x60\x76\xce\x8f\x77\x53\xf6\xd8\xbf\xe7\xf4\x18\xfb\xb7\xdf\xa2\x1d\xeb\xa6\x18\x5b\x33\x60\xff\xf4\xe6\x37\xbb\xf3\x39\x3d\xd1\xfe\x21\x31\x37\x0a\x99\x23\x0d\x20\x76\x75\xce\x0a\x9a\xe5\x93\x4c\x60\x9d\xaf\xfa\x6c\xa0\xbf\x6c\x3f\xde\x6d\x19\xf6\x2e\xaf\xca\x23\xbc\xcb\xc3\x0b\xe2\x39\x99\x7b\x56\x78\xaf\x77\xd9\x59\xb5\x7d\x74\xf4\x3b\x2d\x86\xc4\xe3\x96\xec\xd4\x82\xcc\x7e\xef\xd2\x60\xa1\xac\xae\xb8\xad\x7c\x87\x45\xef\x94\x3e\x8d\x6f\xe6\xc1\x7d\xa2\x05\x75\x0f\x94\xf8\x8e\xae\x04\xbc\x7d\x67\xb3\x78\x07\xe0\x1d\x55\xd0\x2a\x32\x38\x3b\xe4\x2c\x29\x1b\x50\x13\xc6\xdb\xc9\xc3\xc0\xe6\xf4\xee\x5a\x17\x4a\xa1\x87\x46\x00\x8b\x52\xf7\x36\x13\x36\x93\x8f\xa9\xe2\x49\x7c\x97\xa4\x26\x77\x99\xb4\x79\xb0\x40\x03\x76\x19\x0f\xf5\xa8\x1d\x16\xf4\x35\x94\x5a\x45\xe5\x89\x30\xd5\xbb\x8e\x77\x76\x56\x64\x98\x33\xb3\x04\xfc\xbc\x62\x65\x7c\x56\x64\xa3\xb6\xe9\x1a\xc7\xc4\x6a\x24\xa6\x4d\x12\x0b\xce\x70\x06\xbd\x17\x53\x0b\xd3\x2b\x79\x6c\x4e\xec\x9b\xdb\xdb\x6b\x13\x4f\xd8\xb6\xc3\xff\xc6\x61\xa8\xca\xec\x9a\xcb\xa5\x12\x2f\x98\x40\x44\xea\x3a\x67\x33\x75\xb0\x44\x9d\xd5\x7b\x02\xb3\x25\xe1\x82\xca\x49\x23\xe7\xe7\x3f\x8b\x5c\x2a\x0d\x67\x35\xe9\x01\x53\x4d\x47\xc1\x5a\x9a\x16\xb5\x67\x0f\xa7\xd8\x10\x58\x55\x42\xcd\x69\x46\xe7\xac\xa4\x99\x3a\x13\x21\xcc\x9e\xdb\x9a\xe6\x60\x62\xad\x7b\x24\xa7\x9b\x58\xf3\x0f\x6b\x58\x9f\x85\xcd\x21\x55\xf0\x95\x7b\xef\xe9\xad\xad\x3c\x0f\xca\xce\xdb\x77\xc3\xd0\xd5\xfa\xf7\xbd\x36\xd9\x36\x3d\x07\xfa\xaf\xa2\x93\x6c\xeb\x1f\x74\x85\x9a\x5c\xab\x1b\x1e\x53\xef\x61\x78\xc8\xd3\xb9\xa4\x3c\xde\x7e\x23\x2f\xdb\xa5\x8d\xbd\x65\x4e\x14\xa0\x5d\x2a\x8f\x4a\xf5\x99\x4c\x90\x4a\xeb\x15\xc8\x98\xa2\x79\x44\x37\xea\xa6\x6a\x10\x87\x24\xf4\x3c\x09\x53\x94\xb8\x98\x0c\xb2\xd9\x75\x9d\xe2\x49\x8f\x72\x81\x00\xcd\xb0\xf4\x99\x6e\x32\xb9\xfd\xc2\x8e\x8b\xd1\x39\x33\xdd\xf1\x4c\xee\x14\xfe\x0a\x6e\xab\x37\x78\xe6\x70\xb3\x89\x92\xf4\x9a\xc8\x65\xa7\x0f\x36\xdc\xd2\xa2\x46\xbf\x59\xf5\xb0\xe2\x34\x70\x82\x4b\x25\x13\xbb\xd9\x44\x83\x51\x4f\x4a\xd1\xf8\x73\x48\x9e\x37\xa5\x2a\x9a\x38\xf3\xa0\x3b\xea\x15\xc5\x8e\x5f\xeb\xda\x97\x35\xc3\xfa\x75\x5f\x62\x31\x50\xe5\x80\x36\xf7\xe6\xff\x34\x4a\xa3\x30\x4e\x95\x2f\x34\xba\xc8\xa6\x22\x0b\xed\x16\xd8\x72\x99\x9d\xf1\x7b\x7c\xcf\x47\x18\x9d\x64\x74\x4e\x9a\x5c\xa2\xb5\xd3\x02\x82\x3b\x52\xa5\x1d\xab\x39\x6c\xeb\x82\x11\x10\x98\x56\x99\x0a\x10\x51\x37\x68\xf7\x1e\xc3\xc4\x48\xcd\x13\xb9\xc8\xf2\x1e\xb5\x2c\x82\x52\xed\xa9\xc2\x2e\x4e\x74\xfc\x42\x40\xa8\x6a\x35\x20\x3f\x10\xd4\xff\xff\xf2\xcb\x14\xbe\x35\xe5\x2e\xec\xe9\xe7\x4b\xf5\xbe\xa1\x5c\x1d\x86\xc6\x1e\x35\xaf\xee\x19\x86\xbe\x4b\xf5\x06\x0b\xfd\x79\x8e\xe5\x73\x85\xad\xae\x32\x62\xbf\xd6\x27\xf3\x41\x23\x14\x0f\x3a\x52\x91\xbe\x20\x5c\x2c\x89\x3a\xc4\x65\xf1\x2f\x74\x13\x56\xe0\x45\x33\x9b\x51\x9a\x09\x1d\x6b\xfd\xfc\xf5\xab\x97\xe6\x4c\x75\x66\x0f\x40\xdb\x60\x4d\xd1\xea\xd0\xc1\x8a\xe7\x30\x59\xba\x60\x8f\x47\xda\xf9\xc8\x86\x80\x8e\xb2\xf6\x65\x07\x1a\xb0\x52\x48\x4a\x32\xcb\x33\xad\x24\x7d\x0d\xd1\xe7\x88\xb8\xb3\x1f\x23\x78\xd0\x47\xd6\xba\x62\xa0\x7c\x46\x5c\xd5\x11\xbc\xc7\xed\xe7\xb3\x44\xab\x1f\x2c\x2a\xd6\x94\xaf\xd5\x2a\x5e\x20\x2d\x76\x41\xd1\x13\x61\x73\xcb\x2d\x64\xa0\x36\xb4\xd8\x25\xee\xf2\xb6\xb5\xb3\x6c\x0e\xf8\xea\x99\x9a\xd2\x0c\xbd\xd2\xa9\x54\x07\xc8\x8e\x43\x76\xc7\xc9\x13\x3b\x03\x76\x9b\x78\x36\x17\xd1\x86\x89\x03\x67\x13\x02\xc1\x43\xaa\xc5\x26\x4e\xd2\xd7\x54\xc6\x91\x51\x84\xe7\xb7\xab\x9a\x46\x23\xdf\xe4\x69\x02\x96\x56\xc8\x7c\xfc\xbb\xea\xc1\xca\x61\x4b\x07\x7a\x1d\x9e\xcb\x61\x61\x98\x9e\x22\x56\x8c\x0d\xb6\x71\xb9\x1b\xf5\xf4\x4c\xbf\xa6\x32\xbe\xb3\xc5\xbf\x4d\x18\xa8\xad\x71\xa1\x0f\x99\xa6\x5a\x1c\xbe\x45\xd7\xb1\x24\xb9\x67\x24\x14\xee\x62\xb6\x07\x6b\x4f\xcc\x5a\xc4\x15\xf0\x09\x88\x99\x81\x8c\xaf\x4d\xd8\xf8\x90\x2a\xa1\x30\x18\x63\xc7\xc4\x35\xc6\xc8\xed\x04\xf5\x4d\x2b\x77\x5a\xfb\xf1\x78\xda\xcc\xe1\xed\x3b\x3c\x37\x9b\x18\x59\x5f\x87\xca\x57\x7b\x00\x5f\x84\x5c\x16\xdc\xca\xd9\x9b\xd2\xac\x2c\x42\x18\xc1\xe7\x0f\xc9\x93\xed\x2c\xb9\xf6\x52\x04\xfb\x2d\x85\x09\xfc\xec\xff\xfe\xf9\x9f\x69\x11\xca\x69\x89\x63\x12\xf8\x0b\xfd\x0e\xbb\x06\x88\xc6\x04\xa6\xcd\xfc\xed\x05\x36\xbe\x33\x66\xce\xe8\x4a\x3c\x04\xa2\xf8\x36\x8f\x23\xab\x1d\x00\x89\x52\xe7\x3f\x2e\x30\xc1\x85\xb5\xda\x1a\xdd\x1d\x28\xab\xf2\x1c\xe5\xca\x39\xf2\xd8\x31\x1a\x21\x70\x53\x88\x35\x50\xcd\x39\xde\x97\xf4\x21\x7e\xd0\xfb\x42\xf1\x48\xe9\x50\x9f\x76\x7b\x34\x60\x1d\x06\xaa\x17\x3e\xa3\x7e\xf9\x35\xce\x72\x61\x14\xe8\xaf\x8d\x3a\xc7\x75\x37\xbd\x88\x64\x62\xce\xf0\xba\xc7\x92\x3a\x6d\xa8\x14\xa9\xb7\xb8\x6d\x98\x21\x80\xa9\x9b\x19\xf6\x7a\xca\x31\xc7\xaf\x53\x5d\x68\xf2\x26\x75\xa8\x2a\xb4\xf0\x4a\x81\x9d\x0a\x67\x0a\x03\xab\x7b\x01\xfc\x8a\xbd\x73\xc9\xad\x8c\xc4\xcb\x16\x68\xe2\xe9\xbc\x38\x81\xee\x31\xb7\x65\xda\xce\x30\x30\xba\xdd\x56\xd8\x68\xf6\x4e\x07\x84\x41\x2a\xec\x64\xd8\xb7\x33\x0c\x07\x7d\x12\x2f\x19\x75\xc0\x29\x71\x49\x89\xbd\xd6\x7f\x3b\xc8\x55\xd8\xf7\x97\x50\x54\x21\x55\x5f\xd0\xc1\x31\xa8\xfc\xce\x8d\xad\xf1\xe3\x57\x3b\xcf\x35\xe1\xb4\x94\x26\x26\x74\x72\xaa\x0e\x8f\xa1\x39\x42\xac\x6c\xab\x82\x8c\x12\x7c\x28\x43\x1f\x78\x29\x8a\xbd\x64\xf5\xc6\xbc\x70\x66\x0c\x8c\xea\x32\x1c\xef\x06\x19\x9d\x53\x0e\x3c\x45\xad\x9d\x5e\x62\x2a\x13\x15\x90\xd2\x18\x18\x0b\xb7\xe1\xef\x16\xad\x06\x32\x6a\x6e\x74\x82\x70\xc3\xbb\x3a\x9c\x39\x73\x7f\x43\x49\xf6\x34\xcf\x63\x0d\xfc\xb8\x73\x89\xf6\x20\xfe\x1c\x0d\xde\x08\x22\xa3\x09\x38\x1a\x5b\xeb\xf0\x20\x65\x96\x9d\x91\xd1\xd4\x5b\x8a\xe8\x4b\x45\x5b\xd0\x58\xa5\x86\xa1\xd1\xc5\x04\xdc\xc5\x93\x56\xdd\x19\x3f\x4f\x75\x0f\x9e\xe6\x79\xf5\x70\x4d\xb8\x64\x24\xc7\x6c\x9a\xe4\x8d\x71\x0a\x9f\x33\x31\x23\x3c\x7b\x53\xaa\x4b\x42\x17\xed\x9b\x8d\x09\x6d\x91\xf4\x09\xf8\x13\xee\xa8\x54\xac\x3e\xee\x28\xd5\x7e\xb5\x3a\xac\x58\x7b\x55\xab\x41\xa3\xc3\x4c\xb7\x61\xd7\x3d\x6c\x35\xdc\xfb\x28\x9d\xab\x19\x12\x78\x06\xf1\x19\xc9\x8c\x38\x98\x77\x88\x40\x8b\x96\x8b\xd6\x31\xa2\xbc\x26\x9c\x14\xc2\x86\x2b\xbf\x22\x5c\xc4\x1c\xd7\x10\x2f\x62\xb4\xef\x31\xb6\xff\xd0\x50\xbe\x6a\xbb\xf3\xf4\xcd\xcd\x77\xe9\x2f\xb1\x31\xb6\x03\xbc\x2e\xa1\x1f\xc3\xe8\xb3\xa8\x17\x93\x56\x6a\xd5\x9d\x09\x13\xc0\xa8\xb3\x30\xa5\xed\x96\x7e\x57\x69\xc7\x1a\x22\x45\xa4\xee\x83\xf9\x55\x05\x25\xfd\x9a\x96\x6a\x52\xb7\x9a\x18\xdd\xf4\xa7\x75\xf7\xa3\xf0\xaa\xa4\xd5\x7c\x07\x0f\xfa\x61\x17\x0f\x45\xd6\x8f\x41\xc4\x6d\xab\xcf\x39\xfd\xd0\x96\xb4\x4d\xd0\xa2\x32\xc8\xb6\x6b\x9b\x19\xec\x09\x88\x7a\x35\xe6\x50\x31\x53\xeb\x47\x61\xa3\x03\x67\xd7\x89\x50\xfa\x73\x3b\x1a\xd0\xb1\x11\x3f\xa1\x50\xd9\x83\x60\x9f\xee\xeb\xf5\xad\x87\x6a\x97\xce\x45\x1a\x52\x14\x2f\x76\xd4\xc4\xb6\x92\x70\xba\xe0\x8d\xa0\xd7\xa8\x60\x50\x5f\x0a\x5f\x7d\xbc\x11\xf4\xaa\x6c\x8a\x97\x4d\x31\xa5\x5c\x5c\xb4\x2f\xae\x0a\x26\xdf\x94\x75\x55\x37\x18\x12\x67\x4e\xad\x6c\xc2\x8e\x3e\x6d\x71\xb3\xe8\xb8\xd3\xe5\x69\xac\x50\x4d\x5f\x50\x21\xc8\x82\x26\xfb\x8e\x37\x58\x31\x78\x3f\x32\xda\xca\xb9\x93\xca\x93\xf2\x7a\xf9\xb5\x56\x77\x42\x51\x18\x67\xa0\x2f\x87\xd2\x9f\x47\xdc\xb1\x42\x43\x45\xd7\xd6\x77\xb7\xae\xb8\x52\x76\xfb\xca\xac\x08\x78\xb7\xc4\xba\x24\x02\x96\x24\xd3\x63\x87\x8a\xaa\xaa\x94\x97\xe1\x41\x4c\x86\x59\xe1\x56\xbe\xfd\xdb\xba\x72\x49\x35\x14\xed\x48\x89\xd4\x1a\x7d\x57\xcb\x45\x61\xc6\x6c\xab\x4b\x2b\x5a\x74\x4c\x10\x8a\xd1\xb8\xa8\x34\x90\x6e\xe5\x76\x6f\xcd\x76\x6f\x25\xf6\x6e\xe4\x38\xe4\x45\x2a\x7b\x87\x6c\xe1\xaf\x8a\xb6\xbb\x30\x50\x79\x21\xbb\x9b\x92\xb6\xb7\xa2\x66\x4b\xd4\x65\xa9\x7a\x43\x72\x51\x01\xc9\x32\xb3\x87\x95\xb6\x87\x86\xe7\xe1\xfe\xd2\x71\x64\xba\x9e\xe3\xdd\xe1\x91\x51\xe2\xd7\x44\x2e\x93\x43\x03\xdd\xaa\xe0\x59\x7a\x94\x39\x54\x22\x51\xf2\xd1\x35\x66\x04\x61\x8a\x26\xb6\xed\x84\x1a\xb3\x37\xba\x4d\xb1\xf6\x94\x98\x4b\xc0\x9e\x46\x7b\x41\xce\xee\xd1\x6b\x25\xd2\x70\xad\xa8\xa4\xca\x2f\x60\xfa\x80\x94\x78\xf5\xea\x7b\x3c\x47\x5f\xeb\x4b\x5e\xba\x0d\xf5\xe4\xac\x2a\xa8\xbe\x7b\xd0\x4e\x92\x31\x31\xc3\xab\xf3\x2b\x10\x2b\x21\x69\x31\x02\xa1\x4e\x7c\xe7\xec\x8e\xe6\x2b\x2b\x74\x28\x46\x10\x2d\x2b\x21\x2f\x50\xa2\x23\xa3\x40\x3b\x14\xc4\x6e\x2a\x7b\x68\x78\x30\x73\x7b\x7a\x05\x9a\xcd\xe1\x13\x2b\x72\xdf\x10\x71\xcd\xe9\x9c\x3d\xba\x19\x47\x10\xe1\xae\x8c\x74\x44\xee\xf0\x98\xe8\xe6\x8b\xf1\x38\x82\xff\xe3\x38\x81\x52\x19\x34\x4e\x0b\x36\x3c\x4f\xaf\xd1\x3b\x71\xd0\x8e\x3e\xcb\x85\xce\x45\x13\x9a\xcb\xb7\x18\x59\xf6\x44\x1c\xa6\xae\xaa\x6f\x29\x44\x2f\x2b\xbd\x90\x5e\x7a\x5b\x1f\xa2\x57\x0c\xd1\xc9\x20\x04\xf4\x50\xf1\xbb\x11\xe8\x94\x39\x18\x4b\x8f\x81\x1f\x5e\xa3\xe3\xda\xdf\xd4\x6f\x19\xb2\x30\x6a\xd3\xb6\x78\x48\x2c\x38\x3e\x16\x0a\xd6\x6b\xbc\x94\xbb\x1d\xfc\x18\xa4\xf1\xad\xca\x00\x5a\x67\x03\x21\xb1\x32\xa3\x8f\xbb\x23\xbe\xb4\x63\x94\x8f\xbf\x1b\x55\x58\x8a\xfb\x8a\xf9\xe8\x6c\xa8\xff\x06\x7b\xc6\xf5\x5c\xc8\xf5\x2a\xfb\xa6\x56\x3f\x98\x36\x36\x1e\x64\x30\xab\xea\xd5\x9b\x9b\xef\xe2\x66\x04\x7e\xff\x67\x44\x50\x54\x1f\x98\x3e\xb6\x5d\x5b\xef\x60\x17\xab\xae\x5f\xda\xcd\x11\x1b\xce\xf4\x14\xfe\x77\xaa\xfa\xc1\x76\x61\xdf\xfa\xb6\xed\x6a\x76\x7e\xb7\x3f\x9d\xba\xea\xad\xf0\xef\x5d\x77\x38\xff\x53\xad\xfc\x50\x22\x1d\x9d\x96\x3d\x22\x61\x0e\x45\xec\xa5\xd7\x3b\x61\xa0\x34\x8f\x5d\xc7\x29\x11\x14\xce\x70\x0f\xbf\xb9\xf9\x6e\xa4\x8a\x4b\xc6\xb4\x26\xae\x19\xf7\x6f\x89\x7e\xc1\xc5\x04\xce\x70\x80\x7e\x54\x85\x04\x13\x1e\x38\x76\x7e\x8e\x6f\x4c\x82\xe1\x52\x3e\xda\xd2\xe8\x6b\xf4\x6f\x67\xea\x8c\x7b\xc3\x4d\xaa\x06\xc5\xd1\x6e\x5c\x59\x41\xdd\xe4\xb9\x6a\x37\x76\x8e\x66\xe8\x61\x08\xa8\x1a\x34\xdd\xd6\x7d\x35\x66\x49\xa5\x77\x8c\xd9\x2b\xac\x0b\xeb\x07\xa0\xe8\x2b\x98\x74\x47\x0a\xf0\xb2\x92\xe6\xd6\x2d\x82\x44\x58\x4a\x53\x2c\xc9\x3d\x05\xfb\x35\x8d\xfd\x2e\x89\x9a\x67\xaa\xaa\x55\xe6\xe2\x99\xba\x78\x83\x9a\xdf\xa2\x86\x77\x98\x4d\x7e\x9f\xd8\x83\x4b\xca\xf7\x40\xaa\x56\x2e\x51\xed\x4a\x7b\xfe\xb5\x38\xca\x9d\xc1\x35\xa5\xe5\x2e\xef\x74\x39\xd9\xbb\x15\x32\x6c\x0f\xfc\x8c\x4f\x4f\x27\x53\x71\xdb\x73\x6d\xf2\x08\xef\xf0\x27\x2b\x28\x3b\x8f\xc7\x64\x7e\xfd\x3a\xb2\xb3\x19\xba\xee\x9b\xa0\x54\x21\xaf\x51\xa3\x0c\x1d\x8f\x39\xa8\xb0\xb7\x53\x52\xbd\xca\x66\x6f\x46\x6a\x3b\xbe\x32\xe9\x28\xed\x8d\x6d\xa7\xa4\x6c\x96\xc6\x4c\x63\x47\xeb\xf4\x4c\x1b\xfb\x6c\xa7\xa4\x4c\x33\x06\xbe\xda\xcd\x33\x55\x12\xf7\x06\x1d\x6a\xa2\xd2\x01\xff\xef\xcb\x2f\xfd\x72\xd1\x08\x1e\x4c\x4d\x44\x25\x3c\x6b\x4e\xd1\xc9\x21\x6a\x3f\x90\x52\xc1\x52\x4e\x81\x12\x54\x22\x25\x7e\x17\x01\xf7\x8f\xa6\xc2\xdf\x7f\x26\x81\x0d\x85\x0e\x61\x5a\x1c\x2d\x12\x07\x53\x66\xf6\x78\x48\x4f\xca\xac\x97\xed\xfb\x33\x66\x7a\xd2\xd3\x53\x66\xa7\x64\xc0\x26\xd8\x25\xbd\x7a\xf5\xd5\x60\x12\x0c\xb3\xd8\x6d\x6e\x1c\x05\x43\xb1\x00\x90\x8f\x2b\x3f\xeb\xb5\xe5\xfe\xf4\xc1\xc2\x84\x5a\x4f\x3e\xcd\x01\x35\xe0\x34\x3c\xee\xd5\x22\xe0\x93\x4e\xe1\xe3\xd5\x2f\xf6\x4e\x31\x8f\xb7\x2b\x11\xc9\x08\x22\x4f\x66\x2e\xe0\x8b\xcf\xb2\x2f\xa2\x51\x67\x0e\x37\x37\xba\x23\x48\xf0\x21\x69\x0e\x4f\xce\xeb\x0d\xa6\xf5\x86\xb2\x7a\x9b\xf0\xf8\x9c\x9e\xa8\x93\x27\x87\x17\xc1\x67\x8a\x25\xd8\x74\xfa\xbc\x3d\xeb\x1c\x74\xf3\x32\xbe\x02\xba\x2a\x4f\x54\x40\xae\xa7\xe7\x18\xec\xb8\x04\xe7\x46\x55\x1d\xe1\x42\xed\xcd\x05\xb9\xec\x79\xe8\xa2\x5d\x93\x0e\x02\x72\x7c\xc2\x5c\x7d\x21\x02\x77\xfe\x3d\xe1\xac\x6a\x04\xa0\x39\x41\x2f\x0c\xed\x72\x30\x1e\xef\x1a\xdf\x18\xfd\x88\x11\xa8\x84\x99\xae\x69\xe3\x26\x49\xac\x2a\x38\x82\xac\xfd\xba\x40\x75\x19\x38\x42\xe6\x52\x47\xf8\x99\xa7\x7b\x92\xe3\x5a\x44\x91\xc9\x4c\xea\xa6\xfd\x37\xfc\xb7\x98\x61\x66\xd3\x42\x6e\x33\x9c\x9c\x7e\x08\xc3\x2d\xf3\x35\x18\x1a\x6f\xf7\x1b\x8e\xbd\x75\x56\xe2\xb5\xd2\xd9\x78\x0d\x5e\x2e\x31\xf1\x4b\x0a\x2a\xb1\x6c\x83\x77\xb5\xe5\x12\xd1\xb6\x91\x9c\x3a\x43\x65\x8b\x4a\x5b\xd7\x40\x05\x55\xe9\xa1\x4e\xae\x13\x67\x79\xad\xdb\x5d\xb2\xd3\x76\xdc\x6c\x5f\x06\x45\x97\x31\x1a\x2b\xfc\xfb\xa2\x3d\xc4\x65\x7f\xf1\x60\x5b\x07\xa1\x9e\xab\x9a\x3c\x2b\xbf\x90\xed\xee\xd5\x54\x7e\xf6\x21\xd2\xce\xa7\xd5\xa0\x9a\x2b\x37\xe4\xc1\x38\x99\x8d\xfd\xed\xde\xb9\x17\xf8\x63\x8b\x73\x4a\xf0\xba\xac\x53\x07\x2e\x7a\x33\xd6\xa8\xe0\x64\x51\x9b\xf2\xac\x59\x60\x59\xd4\x5d\x76\x0e\xe5\xae\xc1\xf2\xf1\x1c\x8e\x4b\x1b\xb3\xb9\xda\x10\xa6\xdb\x0d\xad\x29\xe6\x18\xed\xb0\x6f\xc5\x33\xe2\x69\xd4\x16\x72\x7c\x69\xbf\x93\x67\x7a\x7e\x5d\x61\x2f\x88\xec\xf2\x47\x89\x1d\xa1\x49\x7d\x1b\xb9\x14\xf5\x2f\x5d\x3e\xde\x9c\xc4\x7e\xa7\x45\x38\x75\x3d\x2e\x49\x41\xf3\xf6\xbc\xb9\x91\x83\x5c\xb8\x67\xe3\xf0\x79\x97\x30\x86\xc6\xdb\x7a\x88\x41\x23\x7d\x9a\x65\xf1\x1e\x54\x46\xde\xc7\xa5\xe2\x7b\xcc\x79\xb5\x75\x93\x8e\x34\x22\x4e\x34\xc7\x44\xf1\x1c\x2a\x0e\x31\xda\xcb\x1d\xa6\x25\xdb\x7c\xb5\xf8\xcb\xc2\xdc\x47\xdb\x3a\xbf\x31\x44\x85\xc1\xa3\x47\xb8\x7b\xe5\xdb\x88\xf7\x9c\xb0\x5c\x1f\xb0\xb1\xd2\x3d\x04\x3f\xea\x12\x6a\x54\x95\xdd\xd9\xb1\x2c\xea\x24\x3c\x89\x8b\x1a\x42\xe2\x31\xca\x92\xbe\x5e\x8f\xcf\xfe\xf0\x2f\x7f\xfd\xc3\xef\xff\xe9\x87\x7f\xfc\xd7\x1f\xfe\xee\x77\x7f\xfc\x87\xbf\xf9\x8f\x7f\xfb\xf7\x3f\xfc\xfe\x6f\x7f\xf8\xe7\xdf\xfd\xf1\x77\x7f\x7f\x36\x76\xf1\xa7\x4e\xc4\x98\x39\x5e\x4b\xc2\xaf\x1e\x6b\x53\xcc\x50\xfb\x7c\x88\x18\xf8\x64\xe2\xb3\xe7\x23\x16\xfe\x6c\x08\xf4\x8e\x40\xf8\x94\x7d\xc4\x44\x87\xe6\x69\xc3\x68\x27\x7d\xde\x0e\x77\x4f\xe6\x61\xb3\xe9\x2a\x89\x0a\x6b\x49\x43\xd5\xa5\x5d\x4d\xa1\xba\x0f\x6b\x8a\x16\x6c\xed\x34\xb9\x1e\x62\xbc\x28\x03\xd1\x68\x15\xb7\x29\x2a\xf5\xb6\xbb\x2b\x4c\xdb\xf6\xb6\xc0\x55\x35\x36\x12\x39\xf3\x35\x95\xeb\xb5\xed\x6b\xee\x8c\x26\x4f\x54\x8f\x4f\x26\xd0\xbe\xfa\x4b\xca\x2b\x15\x9e\x7a\xdb\x7d\xef\x16\xeb\x05\x6c\x58\x3e\xb4\xcb\x4e\xde\x67\xbd\x93\xd8\x8d\xe6\x44\x68\xdf\x66\xdb\x11\x29\x03\xec\xc0\x7e\x1b\x10\xcf\x9f\x92\xb9\x47\xe3\xe5\xc9\x3a\xe2\xb7\x83\xa0\x2f\xd2\x5b\x8f\x9d\x27\xf3\xa0\xf2\xa1\xad\x35\x56\x13\xc2\x04\x0c\x3a\xda\x91\x8b\x95\xe3\x62\xe4\xba\xf4\x3c\x28\x95\x45\x8c\x16\x54\xea\x8f\x12\xfa\x16\x1a\xfd\xc1\xae\x81\x96\xd5\x0d\x95\x1f\xeb\x93\x1d\x63\xa8\xcf\x0f\x94\x77\xbb\x65\xe6\xf1\x19\xbc\x2a\xf3\x95\xfa\xc0\x11\x22\xac\x7a\x0b\x53\x66\x12\x4b\xf4\x63\x60\xea\x72\x38\x38\x16\x33\xff\x78\x93\x50\x71\xb6\x92\x4b\xff\xe8\x65\x55\x30\x89\x56\x3e\x6b\xd4\xa7\x59\x30\x5a\x64\x25\x15\x02\xce\xc6\x66\x46\x45\x7e\xaf\x6a\x3a\x60\xab\x5b\x8d\xd5\x59\x3f\xb3\x31\xb6\x03\xb1\x17\x87\xc3\xb0\x36\x0e\x1b\xac\x9c\x0e\x97\x4e\x07\x6b\xa7\x6a\x8b\xe0\xcd\x05\xe7\x4a\x3a\x0c\x7d\x4d\xf1\xf1\x1e\xa5\x0e\x6c\x54\xe0\x8c\xc9\x0e\x54\x41\xf0\xd9\x7d\x34\x02\xc5\xd9\xd6\xaf\x7c\x86\x1d\x5c\x2a\xc0\x7d\x80\x32\xc6\xb3\x79\x02\x0f\x6a\x3f\x6b\xe6\x73\xca\x63\xc4\xd5\x3f\x5e\x0c\x7e\x01\xdf\x44\x85\xc1\xee\x57\xb9\x0e\x7e\xd1\xc3\x7d\xa4\xf3\xd8\x0a\xd9\xcb\xa7\xb7\xaf\x3f\xe6\xf6\x82\x3d\xe2\x85\xe3\x41\x67\x15\xdd\xb3\xb9\xf3\x88\xb8\x20\xa2\xe5\x08\x04\xbf\xd7\xcf\xee\xa3\x6b\x26\x8e\xda\xfd\xde\xdb\xb1\xd7\x11\x51\xff\x99\xa2\x36\xa6\x02\xab\x52\x29\xac\x86\xbe\x6e\xa6\x62\xc6\xd9\x54\x7f\x35\x65\xe7\xe6\xa0\xff\x75\x0a\x8c\xa4\xfa\xfa\xa0\x02\xe6\xf7\x7e\x4f\x05\x84\xbe\x10\x0b\x45\x5a\x32\x1c\xfc\xbb\xaf\xac\xb9\x8d\xe3\xad\xe9\x7a\xdd\xf9\x88\x03\xb9\xa3\x1e\xf7\x8f\xfd\x20\x0a\x0e\x39\xe2\x83\x28\x2d\xe4\x83\xf7\x36\x3a\x9f\x73\x4d\x1d\xff\xcc\x69\xf8\xc4\x5f\xb8\x81\x0f\xa1\xec\x87\x60\xaa\xfa\xff\xfd\xbe\x87\xd2\xd2\x75\xf0\x02\xa6\x51\x81\x4e\x20\x2e\xa0\x4b\x33\x5e\x5f\x70\x64\x9f\xf4\x3d\x14\x5c\x28\xaf\x87\x31\x3e\x23\x73\xd1\xfb\xaa\xec\xed\xe3\x95\xad\xda\x1e\x5b\xc7\x64\x4e\xfd\x60\x8a\xb7\xca\xde\x49\xf9\xd3\x3f\x98\xe2\xc1\x71\x67\x6e\x0f\x33\xd7\x23\x0f\x00\xce\xba\xdc\x6d\x59\xbb\xf3\x29\x14\x33\xd3\x76\xaa\x7e\x68\x1e\x2f\x59\x8c\x2c\x5b\xaf\xbb\x6c\xef\x2f\x5a\x14\x62\x61\xb4\xd9\x0b\xb1\x18\xce\x11\xef\x1e\x9f\xec\xbb\x3d\xb8\xe7\x10\x76\x21\x16\xe9\x73\x65\xc4\xfa\x8f\x0d\xf6\x55\xb9\xad\x2c\x0f\x5c\x45\x34\xec\x31\x89\xc4\xf6\xdc\x57\x8f\xbc\x6c\xe7\xfa\x14\xc1\x47\x9c\xfb\xc2\x3c\x14\x54\xd3\xdf\xe0\x79\x06\x93\xca\x13\x6e\xbd\xec\x87\x29\x5e\x90\x72\xa5\xcb\x17\x58\xd4\xb2\xe7\x1b\xf4\xf7\xe9\x1a\x0c\xbb\xb1\x86\x80\xe8\xa1\x02\x2c\x05\xc3\x0a\x96\xb9\x1c\x63\x94\xda\x20\xde\x03\x85\x26\x9c\xd7\xf8\xe0\x23\x28\x67\x1d\x73\xe4\x52\xec\xfd\xb9\x3d\xcb\xe7\x8e\x0c\xea\xf9\x91\x04\x7f\x62\x33\x11\xce\xd0\x82\x4d\x4e\x39\xa2\x82\x14\x99\x74\xaf\x6d\x3b\xe1\x88\x8a\x37\xfa\xc0\x67\x10\x90\xfc\xff\xea\xcf\x20\xb4\xd8\xed\xba\x04\x83\x06\xe8\xba\x99\xe6\x4c\x2c\x29\x3f\xe5\x04\xca\xf0\x37\x10\x7c\x85\xe0\x9b\x7a\x4f\xf7\x04\xa7\x7c\xdb\xc0\x9e\x86\xe8\xeb\x3e\xd9\xb5\x0a\x8e\x1a\x73\x10\xc2\x7d\xe4\x20\x08\x7a\x7d\x0f\xdf\x5a\x44\xa6\x63\x8f\xe8\xfb\x07\x1c\x9e\xd3\x43\x36\x62\xf7\x64\xc3\xf6\xc1\x86\xce\x41\x52\xa7\x40\xec\x4e\xe8\x3d\xc6\xd0\xab\x62\x4d\x1c\xe4\x21\xf2\xd1\x1f\x2a\x40\x82\x86\x2a\xb1\x43\xea\xdd\x15\x60\x07\xb8\xd1\xab\xe3\x8e\xfb\x50\x81\xd5\xff\x7f\xb2\x4f\x12\x0c\xa0\x7c\x84\x49\x82\x61\x9b\x84\xe7\xce\x8e\x30\x37\x94\x73\x3b\xdf\x8e\xd9\x19\x8f\x61\xd7\xf2\x8c\xc7\xb0\xf1\xa0\xdb\xc1\xa9\x3a\x7c\x6e\x07\x7f\xfe\xf9\xee\xbb\x14\xcb\x7f\x30\x99\x40\xf4\x9e\x99\x2b\x55\xef\xa3\x81\x69\x6c\x49\x74\x17\x88\x3d\xf9\x6a\x11\xe9\x29\x23\xf6\x7e\x68\xe1\x58\xe3\xdb\x57\xdf\xdb\x6f\x7d\xfb\xbf\x5c\xe4\xcb\xb0\xb1\xc1\xfd\x26\xd8\x94\x9a\xf6\x58\xe0\xee\x5d\x15\xf7\xff\x05\x63\x8e\xbb\x98\xb4\x86\x0a\x11\x06\x8c\x32\x2e\xb5\xd5\xe8\x2f\xc4\x62\xdb\x26\x9f\x2b\x5c\x7f\x1a\xc3\x7c\xac\x2f\x75\xa8\xc8\x66\x59\x3e\x68\x88\xdd\x44\x6a\x47\x38\x70\x89\xb7\x0c\xff\x39\x00\x7d\x5d\x3b\xbc\xbb\x68\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xdc\x38\x76\xf0\xb3\xf4\x2b\xce\x08\x73\x91\xfa\xab\x56\xcd\xf7\x01\x5f\xb0\x69\xa3\x03\xd8\xed\x1e\x8f\x77\xa7\xed\xde\x76\x7b\x07\x88\x61\x78\x59\x25\x56\x15\xb7\x75\x33\x49\x75\x77\x6d\xa5\x5e\xf2\xb2\x01\x12\x20\x40\x9e\xf2\x10\x2c\xf2\x94\xd7\x20\xcf\xf9\x3d\x3b\xc1\xfe\x8b\xe0\xf0\x26\xaa\x4a\xaa\x8b\x67\x36\x48\x80\x18\xd8\xe9\x12\x45\x1e\x9e\x73\x78\x78\xae\xa4\x76\x3c\x86\x8b\x2a\xa3\x30\xa7\x25\xe5\x44\xd2\x0c\x26\x4b\x98\x10\x5e\x95\x29\x3c\x7f\x0d\xaf\x5e\xdf\xc2\xe5\xf3\x97\xb7\x69\x38\x1e\xc3\x0d\xe5\x4d\x59\xb2\x72\xae\x3b\xc0\x03\xcb\x73\xa8\xee\x29\x7f\xe0\x4c\x52\x90\x0b\x26\x60\xc6\x72\xaa\x3a\xff\x8a\x72\xc1\xaa\xf2\x0c\x56\xab\xd4\xfc\x5e\xaf\xbd\x17\xf0\x9c\x48\xea\xbf\xc5\xe7\xf5\x3a\x0c\x6b\x32\xbd\x23\x73\x8a\x6f\xae\xf5\xcf\x57\xa4\x50\x6f\xc6\x63\xb8\xb5\x73\xc0\xb4\x2a\x25\x61\xa5\x80\x82\xca\x45\x95\x09\x90\x15\x14\xe4\x8e\x02\x2b\x33\x76\xcf\xb2\x86\xe4\x40\xcb\xac\xae\x58\x29\x05\xcc\x78\x55\x80\xa0\xfc\x9e\x4d\xa9\x18\x21\x1a\x9c\x7e\x6c\xa8\x90\x40\xca\x0c\x38\x15\x75\x55\x0a\x0a\x72\x59\x53\x05\x09\xbb\x22\x45\x95\xa0\x2d\x94\x11\x10\x01\x0f\x34\xcf\xf1\x2f\x2d\xa7\x55\x46\xb9\x40\x00\x08\x2f\xa3\xe6\x79\x56\x71\x33\x50\x41\x1b\xa9\x06\x82\x9c\x9a\x41\xd5\x70\x10\x4d\x5d\x57\x1c\x39\x2d\x39\x29\x05\xfe\x46\xcc\x18\xc9\xd9\x6f\x89\x64\x55\x89\xd0\x66\x15\x2f\x88\x14\x69\x18\xb2\x42\xf5\x88\xc3\x20\x9a\x2c\x25\x15\x51\x18\x44\x48\x3b\x7d\x94\xf8\x53\xa1\xc1\xca\xf9\xf8\x37\xa2\x2a\xb1\x61\x56\xa8\x76\x56\xe9\xff\x8e\x59\xd5\x48\x96\xe3\x43\x49\xe5\x78\x21\x65\x6d\x7f\x37\x5c\x35\x0b\xc9\xa7\x55\x79\x6f\x7e\xb2\x72\x2e\xa2\x30\x0c\xa2\x39\x93\x8b\x66\x92\x4e\xab\x62\x3c\xaf\x4e\xef\x98\x1c\xe3\xff\x2c\x2f\xa2\x30\x20\xe5\xb2\x9e\x40\x34\xaf\xaa\x79\x4e\xd3\x79\x95\x93\x72\x9e\x56\x7c\x3e\xae\x79\x25\xab\x49\x33\x1b\x2b\xfa\xc7\x77\x65\xf5\x50\x8e\x55\xef\x28\x0c\xb2\x86\x2b\x22\x8f\x18\xda\x0e\x89\xc2\x80\x16\xb5\x3c\x66\x5e\xd3\x3f\x0a\x83\x19\xa3\x79\x56\x10\x71\x77\xc4\x68\x6f\x4c\x14\x06\x42\xf2\x66\x2a\x8f\x18\x6e\x07\x44\x61\x20\x59\x41\x85\x24\x45\x7d\xc4\x70\x6f\x4c\x14\x06\x0f\x9c\xd4\x35\xe5\xe2\x08\x00\xed\x90\xed\x25\xe5\x2c\xcf\xc9\xb8\x68\x1e\xa3\xee\x9b\xfa\x6e\x3e\xa6\x9c\x57\x5c\x49\xda\x8e\x89\x9c\xe4\xa9\x16\x2b\x7e\x3b\x06\xa8\x1f\x88\xc8\x6a\x75\x0a\x6c\x06\xf4\x23\xa4\x17\x55\x39\x63\xf3\xf4\xd6\xed\x84\x88\xe4\x79\x04\x51\x49\xa4\x88\x60\xbd\xee\xe2\x86\xad\xa7\xac\x52\x7f\xd3\x39\x4a\x38\x82\xa2\x65\xb6\x5e\x1f\x04\x75\xce\xeb\xa9\x85\xba\x85\xa7\x7a\x39\xf8\x66\x5c\x50\x49\x32\x22\xc9\xe6\xa4\x07\x4f\x89\xf0\xdb\x1d\x3f\xb0\xbf\x5c\x07\x8b\x8e\x37\x17\xee\xdd\x23\x00\x60\xf7\xe8\x20\xb6\xb4\xcc\xc6\x5f\x47\x4c\x81\xdd\x3b\x38\x26\x61\x18\xde\x13\x0e\x71\x18\x7c\x80\x73\x98\x15\x32\x7d\x53\x73\x56\x4a\xfd\xac\x14\x58\x7a\x51\x15\x35\xe1\x54\x37\x19\xed\x93\x3e\x95\x15\xd3\x2d\x1d\x32\xd3\x57\xf4\xe1\x0d\xe5\xf7\x94\xeb\x97\x5a\x9b\xa5\xaf\xaa\xfa\x22\xaf\x44\xdb\x9a\x5e\x54\xf5\x52\x3f\x68\xe1\x4d\xbf\xe7\xa4\x0e\x83\xf1\x18\xcc\x7a\x5a\x31\xd4\x3a\x1e\xbb\x2a\x95\x94\x3e\x2d\xd5\xb8\x56\xc9\xa4\xcf\xcd\x4f\x6c\x36\xea\x23\xbd\xc4\xbf\xd8\x60\xb7\x74\xfa\x46\xfd\xc0\x26\x6f\x9b\xa6\xb7\xf6\x37\xbe\x68\xb7\x1f\xf6\x66\xe5\xfc\x57\x24\x6f\x14\xdd\x9e\x5e\x49\xbf\xc1\xdf\x57\x44\xdc\x85\x49\x18\x8e\x4f\x0e\xfa\x07\x97\xd6\x26\x81\x6d\xda\xff\x6f\xac\x2c\xe8\xcb\x12\x08\xda\x9b\x7b\xca\x47\xc0\xe4\x57\x02\x1a\x41\x67\x4d\xae\xcc\xd4\xac\x29\xa7\xc8\x05\x01\x72\x41\x24\x94\x14\xad\x54\x05\x55\xad\x7c\x03\xa8\x70\x6c\x4d\xf9\xa9\x35\x03\x08\x70\x42\x04\x13\x29\x7c\x53\x71\xa0\x8f\xa4\xa8\x73\x3a\x82\x65\xd5\x40\xc1\xe6\x0b\x09\x35\x11\x68\x22\x3d\x84\x65\x05\xc4\x4d\xa4\xe7\xa9\x79\x95\x35\x53\x2a\x10\x1c\x29\x95\x04\xa4\xdf\x92\x32\xcb\x11\xc7\x07\x26\x17\x40\xc9\x74\x61\x2c\x3d\xc4\x76\xf6\x04\x1e\x18\xa7\x19\x34\x35\x22\x49\x40\xd4\x74\xca\x66\x6c\x0a\x35\x91\x8b\x14\xe2\x97\x12\x01\x32\x01\x35\xaf\x26\x64\x92\x2f\x81\x40\xc1\x84\xd4\x5e\x02\x64\x54\xb0\x79\x89\x43\x59\x79\x5f\xdd\xa1\xb9\xa7\x80\xc2\xc6\xa6\xd4\x79\x15\x0a\x45\x8a\x70\x5a\x0a\xb4\x0c\x00\x6b\x39\x99\x26\xe1\x78\xec\xb8\x3b\xcd\x19\x2d\x65\x97\xbb\xb2\x82\x69\x95\xe7\x74\x2a\x3d\x07\x25\x5f\xc2\xb4\x2a\x35\x38\x9a\x79\xee\x0a\x2b\x91\x20\x04\x28\x58\x39\xcf\xb5\x63\xa2\x79\xc5\x90\xc3\x05\x45\x3c\x7c\x7c\x59\x29\x29\x9f\x91\x29\x1d\x5a\x09\x04\xe6\x26\xeb\x77\x92\x1a\x9c\xac\xf5\x4a\x94\xb3\x80\x1b\xf0\xc2\xd0\x33\xad\x8a\x09\x2b\x15\x9f\x0a\x83\xa2\xb7\xb0\x23\xe3\x4a\xc9\x86\x97\xc0\x24\xf2\x15\x11\x9c\x92\x3c\xa7\x1c\x3d\x26\x62\x91\x4d\x43\x45\xce\x16\x43\x57\x61\xf0\xb6\x74\xf4\xd1\x6c\xb5\x4a\xed\x08\xed\x02\x1a\x4d\xb0\x5a\x71\x52\xce\x29\x7c\xce\xe0\xec\x1c\x5c\x9f\x2b\xbd\x64\xa8\xc7\x56\xab\xcf\x99\x19\x63\x67\x01\x00\x47\x6a\x6a\x1b\xc3\xd5\x4a\x2b\x57\xed\x5d\xda\x66\xb1\x7f\x0a\x14\x60\x88\x3d\x22\x12\xf0\x26\x8d\xa7\xf2\x11\x8c\x97\x86\xa6\x01\xff\x8e\x50\x60\x4e\x56\xab\x17\x15\x22\x06\x9f\xb3\xf4\x46\xbb\xa0\xb7\xcb\xda\x12\x98\x40\xbc\xd1\x43\x3b\xa6\x5e\x97\x91\x56\x70\x09\xac\xc2\xc0\xfa\xad\xaa\x0d\x11\xa5\x69\x0f\xe5\x88\x0c\x4e\x9e\x84\x01\x1a\x2b\xce\xe1\xb3\x73\x28\x59\x8e\x10\x02\xb3\x5e\x25\xcb\x15\x90\x30\x58\x87\xb6\xcd\x42\x4f\xf7\xe2\x94\x8c\x10\x5e\xb8\x76\xec\x44\x66\x5e\x91\x3b\x8f\x3d\xe1\x6a\xa5\x36\xf2\xe7\x92\x22\xa2\xe9\x1a\x3b\x9f\x82\xcf\xe5\xcf\x25\x1d\x62\x34\xc2\xea\xa3\x4c\x20\xd3\x25\xed\x15\x93\x64\x7b\xb9\x61\xe5\x88\xc3\xf5\xeb\x5f\x25\x1b\x18\xb8\x1d\xb5\x5a\x27\x10\x5b\x66\xf8\xcd\x8a\x63\xde\x72\x04\x9c\x7e\x44\x42\x0c\x84\x34\xde\xb7\xda\x61\x10\xdc\xbb\xb5\x13\xfe\xda\x21\x6a\x0a\x95\x24\x0c\x7a\x56\x6d\x7b\xd9\x70\xdd\x6c\xeb\xbd\x5e\x8e\x00\xc5\xba\xb5\xcd\xfe\xda\xa0\x71\x7c\x9a\xe7\x97\x8f\x53\x5a\x4b\x65\xa7\x84\x56\xb1\x8e\x53\xca\x42\x61\xc8\x62\xf6\xa6\x7d\x21\x40\x2d\x23\x41\x28\x9e\x4f\xe0\x58\x7d\xc5\xb2\x2c\xa7\x0f\x84\xeb\x28\xf0\xad\xb0\x71\x21\x06\x41\x75\x9d\x2f\x51\xc5\xa0\xda\x94\x08\xbc\x70\xbd\x55\xd4\x45\xef\x29\x5f\xba\x65\xc3\xfd\x82\x1a\xc4\x84\x6d\x0a\xde\xeb\x1a\xad\x06\xc9\xf3\xe5\xc8\xf5\x13\x30\x25\x25\x4c\xa8\xb2\x35\x34\xc3\x61\x93\x25\x94\xc8\x76\x59\x61\x3b\x7d\x9c\xe6\x4d\x46\x33\x1d\x05\x4e\x28\xa2\x80\x34\xd7\x34\x4b\xb7\xb8\x11\xb7\x38\x8d\x20\x7a\x23\x89\x6c\x44\x34\x82\xe8\x9a\x95\xf3\x28\x71\xfb\xfe\xc4\x31\x24\x19\x1c\xef\x30\xf4\xb8\x32\x6a\xb1\x49\xd3\x54\x28\xb7\x40\x09\x0f\x2b\x4d\xf3\xd9\x39\x14\xa4\x7e\xa7\x5f\xbd\xd7\xec\x5f\xad\x51\xbc\x36\x37\x4c\xcf\x6e\x09\x82\x20\xf2\xc4\x28\x3a\x83\xd5\x7a\x14\x06\xbe\x1b\xb9\x0e\xc3\x00\x6d\xfd\x07\x44\x05\xc1\x68\x90\x0e\x2d\x9c\x89\xcd\xe0\xc3\x08\xaa\x3b\x7c\x6d\x11\x7b\x47\x1f\xdf\x3f\x81\xcf\xaa\x3b\xc4\x36\x08\x6a\x52\xb2\x69\xdc\x7a\x78\xb3\x38\xba\xb4\x20\x2c\xdd\xf0\xd5\x17\xe2\x2b\xc8\x2a\x2a\xa0\xac\x24\xd0\x47\x26\xe4\x13\x10\x94\xfa\x0b\xef\x62\x4a\xe5\xd2\x23\x52\x49\x62\xe4\x39\xa3\x39\x95\x34\xb6\x18\xa8\x77\x9a\x80\x83\x58\xd1\x4b\x45\x87\x3d\xef\x9f\x80\xa5\xa7\x57\x75\xc2\xb9\x87\x69\xdc\xdb\xc5\xe0\xda\x32\x58\xef\xb0\xef\xc8\x84\xe6\x34\x6b\x17\x5e\x67\x4b\xe6\x54\x5a\x31\x45\xd1\x76\x8c\x52\xd2\xfa\xb0\xa0\xa5\x7b\x5b\x79\x92\x69\x80\x69\x01\x1b\xe9\x0d\x65\x64\xbe\xd1\x9d\x41\xa7\x60\x88\xce\xe3\xb0\x29\xfa\x2f\x9c\x4d\x95\x47\xd5\x52\x00\x0f\x0b\x36\x5d\xa8\xed\x22\x68\xd9\x87\x82\x31\xda\x66\xb4\x75\x59\x2a\x6e\x4c\xf6\x36\x55\xb8\x1f\x62\x2d\xab\xa3\x6d\x85\xdb\xa3\x83\xc3\x21\xba\x3e\x59\x0d\x6d\x21\x35\x32\x74\x2a\x8e\x73\x3a\xa5\xec\x1e\xb5\x10\xd5\x24\x56\xb3\x0e\xdd\x29\xbc\xa1\xd4\x81\xf1\xa0\xa8\x17\xd6\xe7\x34\x08\x5f\x3e\x22\xa2\xb8\x7b\x32\x2a\x09\xcb\x05\xba\xc4\x76\xe7\x20\x10\xeb\xd7\x92\x9c\xc9\x65\xba\x4b\x5b\x74\x68\x8f\x8b\x1f\xc1\xd1\xff\x55\x29\xff\x73\x55\x4a\x67\xe8\x08\x0e\xd5\x30\x87\xa7\x1d\x0e\x0d\x28\x5f\xdc\x5c\x5f\x20\xc1\x94\x1f\x1d\x51\xa2\x73\xe6\x0d\xc7\x24\xac\x68\x4d\xbc\x5b\x0a\x20\xf7\x84\xe5\x64\x92\x53\x1d\x0c\xcc\x6f\xae\x2f\x60\xc0\xc5\x37\x3b\xa7\x0b\xd9\xc5\x7d\xa2\x55\x03\x23\xa8\x94\x47\x20\x50\xf4\x3b\x19\x16\x25\xc9\x94\x6b\x87\x21\x19\x9a\x08\x6d\x99\xf0\x3a\x0a\x5c\xd8\x77\xef\x87\x21\xe1\xc2\xf6\xbd\x7d\x46\x67\x15\xa7\x31\x62\x7b\x65\x32\x45\xb7\x95\xf1\x29\x93\x11\x6e\x91\x8d\x79\xce\xd1\x1d\xa2\x65\x16\x77\x9a\x1d\x3d\x69\x9a\x26\x2a\x7d\xb1\x5a\xc1\x6d\xf5\x5d\xf5\x40\x79\x2b\x91\xc8\x2a\x5c\x5c\xeb\xf0\x7d\x89\x18\xe1\x4b\xca\x57\x68\x1b\xf7\x8a\x31\xf6\xf7\x24\xed\x0c\xba\x24\xb9\xa4\x4b\x8c\xbb\xdf\xb1\xbd\x4f\x38\xd1\xb9\x08\x9e\xab\xdc\x37\xd2\xee\xf5\x30\xfe\xae\xea\x70\x59\xf6\x76\x30\xd1\x0b\xf6\xe8\x70\x21\x4d\x53\x1c\x96\x8c\x7c\xa9\x0f\xac\x69\x6d\x89\xdd\x0c\x86\x9d\xbb\xdd\xbf\xd6\xce\x75\xd7\xc6\xcc\x83\xf3\x93\x07\xa0\x1b\x0c\x06\xd8\xe0\xb0\xc9\x6e\x78\xee\xb9\x09\x9a\x4c\xda\x01\xb5\xa9\x87\x9f\xac\x5a\x52\x0f\xa7\x72\x2f\x9a\x6a\x93\xc5\x02\x4e\xda\xa9\x92\x16\xfc\x9e\x68\x16\x83\x9d\x9f\x36\x9c\xfd\x80\x11\x4f\xed\x05\x44\x1b\x5c\x54\x14\x28\x29\xf2\xc3\xa3\x23\x63\xda\xfa\x13\xc3\x59\xc3\x5d\x2d\xea\xfb\x59\x3b\x1e\xc3\xae\x5d\x01\x0c\x55\xa0\x93\x07\x95\xed\x4d\xf5\x00\xd3\xe3\x1b\x5c\x1b\x95\xf1\xc1\xea\x0c\xe5\x52\xe8\x84\x90\x51\x9b\x56\x27\x38\xc0\x2e\x6e\xc5\xb4\x0c\x66\x9d\xf8\x69\x56\x15\x84\x95\xbb\x3a\xa7\x70\xcd\x59\x41\x38\xcb\x97\x36\x51\xe5\x67\xb5\xb4\x16\xde\x45\x47\xfc\x61\x5b\x30\x90\x96\x1b\xfa\xb1\x15\x44\x15\x40\x7b\x4f\xdd\x14\x86\x0a\x99\xcd\x98\x43\x42\x66\xb7\x92\x1f\x77\x2c\xd3\x65\x79\xf0\x32\xed\xd4\x4d\xbd\xeb\xa4\x47\xd8\x2e\x43\x0b\xb5\x7f\x09\xcc\x14\x6a\xc1\x76\x2c\x6b\x9d\x2f\x0f\x5a\xa7\x9d\x84\xf4\x2d\x54\x5f\x4e\x63\xd7\x4a\x89\x1a\x97\xca\x8e\x3a\x60\x1f\x79\x8b\x25\xea\xbe\xd5\xfa\x96\xe6\x98\x20\x0f\xb5\xa0\xf5\x1a\xcf\x7e\xe5\x53\x64\x60\x0b\x32\xe9\xd5\xf3\x64\xb3\x03\xe2\x8b\x2a\xf4\x6e\x04\xf7\xad\x3f\x5a\x38\x4f\xf4\xbe\x93\x4c\x51\x75\x65\x0a\x77\x74\xa9\x96\x3b\x43\x97\x75\x52\xc9\x05\xf2\xd8\xce\x62\x2a\xb2\x10\xdf\x25\x26\xba\xc0\xae\x79\x0e\x39\xae\x97\x81\x42\x4c\x4c\xa5\x12\xa7\x17\xa4\xac\x4a\x36\x25\xf9\xb7\x94\x64\x94\xff\x82\x2e\x6d\xe8\x81\x13\x89\xca\xa4\x73\xa5\x89\xe4\x2c\x88\xe9\x94\xda\x2c\x06\x65\x72\x41\xb9\x99\x19\xdf\x23\x2b\xce\x1d\xad\xdf\x33\xb9\x50\x15\x05\x64\xd1\x48\xd1\xfa\xee\xeb\xf7\xc9\xde\x8e\x03\xd8\xc5\x77\x49\x0b\xc1\x38\xf5\x66\xf9\xa6\xf2\x51\xd9\x5e\xeb\xf7\xed\xfe\xa7\xd6\x51\xe7\x8c\x8f\xf6\x25\x5f\xd1\x07\x6f\xb4\x9e\x5e\xd5\x0f\x4c\x12\x08\x26\x64\x7a\x87\xcb\xb3\xb4\x7b\x46\x27\xdb\x91\xd6\x92\xaa\xda\x45\x0a\x2f\x25\xae\xa3\x49\xdb\x1b\x71\x65\x13\x86\x21\x99\x5d\x02\x93\x95\x96\x15\x64\x8c\xe4\x3a\x75\x9d\x13\x49\x39\x4c\xb1\xae\x84\x31\x36\xf5\x61\x6a\x01\xed\x60\x17\xe3\x6b\x6d\x3a\x53\x8d\xef\x45\x55\x96\x3b\x1c\x52\xdd\xc9\x3a\xa4\xf1\x80\x47\xea\x6f\x39\xf4\x0e\x36\xb3\xa6\x81\xd7\x5a\xdf\xcd\x71\xa7\xd9\xe4\x69\xf7\xb8\x44\xb0\x1d\xdd\xf9\xa9\xd2\x56\x07\x06\xf7\x84\xbb\xf8\xca\x53\x1d\xdb\x91\x66\x18\xe0\x7e\xe9\xeb\x7a\xbe\xed\x41\x1a\x2e\x29\x71\x44\xc6\xd8\x40\xd2\x20\xbd\x5e\xa7\x7d\xb9\xdb\xc8\xf5\xb3\xb0\xa3\x5d\x1e\x64\xeb\x62\x3e\xa7\xfb\x5c\xcc\x3d\xda\x4a\x27\xca\x82\xd6\xff\xc6\xc7\xc4\xd1\x1e\xab\x30\x51\x31\xd5\xf8\xa3\xed\x2f\xfb\xc3\x6d\x18\x3b\x48\xec\x75\xc7\xe1\xd4\x80\x72\x38\xdb\xb1\x67\x7e\xc5\xc2\x7b\x3f\x6a\xe7\x0b\xd6\x56\xa9\xa2\x32\x45\xda\xc1\xec\x9c\x1f\xef\xa6\xec\xb0\x7f\xcf\xe9\x21\xf6\x6f\xb7\x45\x3b\xd4\x4d\x31\xb6\x66\xc0\xfe\xe9\xcd\x6f\x76\xe7\x73\x7a\xa4\xfd\x43\x62\x6e\x14\x32\x07\x1a\x40\xec\xea\x9c\x15\x34\xcb\x47\x99\xc0\x3a\x5f\xf6\xd9\x40\x7f\xd9\x7e\xbc\xdb\x32\xec\x5d\x5e\x96\x07\x78\x97\xfb\x17\xc4\x73\x32\x77\xac\xf0\x4e\xef\xb2\xb3\x6a\xbb\xe8\xe8\x77\x5a\x0c\x89\x87\x2d\xd9\xb1\x05\x99\xdd\xde\xa5\xc1\x42\x59\x5d\x71\x5b\xf9\x0e\x8b\xde\x29\x7d\x1a\xdf\xcc\x83\xfb\x44\x0b\xea\x0e\x28\xf1\x1d\x5d\x0a\x78\xf7\xde\x66\xf1\xf6\xc0\x3b\xa8\xa0\x55\x64\x70\xb2\xcf\x59\x52\x36\xa0\x26\x8c\xb7\x93\x87\x81\xcd\xe9\xdd\xb5\x2e\x94\x42\x0f\x8d\x00\x16\xa5\xee\x6d\x26\x6c\x2a\x1f\x53\xc5\x93\xf8\x2e\x49\x4d\xee\x32\x69\xf3\x60\x81\x06\xec\x32\x1e\xea\x51\x3b\x2c\xe8\x6b\x28\xb5\x8a\xca\x13\x61\xaa\x77\x1d\xef\xec\xa4\xc8\x30\x67\x66\x09\xf8\x79\xc5\xca\xf8\xa4\xc8\x46\x6d\xd3\x35\x8e\x89\xd5\x48\x4c\x9b\x24\x16\x9c\xe1\x0c\x7a\x2f\xa6\x16\xa6\x57\xf2\xd0\x9c\xd8\xb7\xb7\xb7\xd7\x26\x9e\xb0\x6d\xfb\xff\x8d\xc3\x50\x95\xd9\x35\x97\x4b\x25\x5e\x70\x0e\x11\xa9\xeb\x9c\x4d\xd5\xc1\x12\x75\x56\xef\x09\x4c\x17\x84\x0b\x2a\xcf\x1b\x39\x3b\xfd\x59\xe4\x52\x69\x38\xab\x49\x0f\x98\x6a\x3a\x0a\xd6\xc2\xb4\xa8\x3d\xbb\x3f\xc5\x86\xc0\xaa\x12\x6a\x4e\x33\x3a\x63\x25\xcd\xd4\x99\x08\x61\xf6\xdc\xc6\x34\x7b\x13\x6b\xdd\x23\x39\xdd\xc4\x9a\x7f\x58\xc3\xfa\x2c\x6c\x06\xa9\x82\xaf\xdc\x7b\x4f\x6f\x6d\xe4\x79\x50\x76\xde\xbd\x1f\x86\xae\xd6\xbf\xef\xb5\xc9\xb6\xe9\x39\xd0\x7f\x15\x9d\x64\x5b\xff\xa0\x4b\xd4\xe4\x5a\xdd\xf0\x98\x7a\x0f\xc3\x43\x9e\xce\x24\xe5\xf1\xe6\x1b\x79\xd1\x2e\x6d\xec\x2d\x73\xa2\x00\x6d\x53\x79\x50\xaa\xcf\x64\x82\x54\x5a\xaf\x40\xc6\x14\xcd\x23\xba\x51\x37\x55\x83\x38\x24\xa1\xe7\x49\x98\xa2\xc4\xd9\xf9\x20\x9b\x5d\xd7\x09\x9e\xf4\x28\xe7\x08\xd0\x0c\x4b\x9f\xe9\x26\x93\xdb\x2f\xec\xb8\x18\x9d\x33\xd3\x1d\xcf\xe4\x4e\xe0\xaf\xe0\xb6\x7a\x8b\x67\x0e\xd7\xeb\x28\x49\xaf\x89\x5c\x74\xfa\x60\xc3\x2d\x2d\x6a\xf4\x9b\x55\x0f\x2b\x4e\x03\x27\xb8\x54\x32\xb1\x9b\x4d\x34\x18\xf5\xa4\x14\x8d\x3f\x87\xe4\x79\x53\xaa\xa2\x89\x33\x0f\xba\xa3\x5e\x51\xec\xf8\x42\xd7\xbe\xac\x19\xd6\xaf\xfb\x12\x8b\x81\x2a\x07\xb4\xb9\x37\xff\xa7\x51\x1a\x85\x71\xaa\x7c\xa1\xd1\x45\x36\x15\x59\x68\xb7\xc0\x96\xcb\xec\x8c\xdf\xe3\x7b\x3e\xc2\xe8\x24\xa3\x33\xd2\xe4\x12\xad\x9d\x16\x10\xdc\x91\x2a\xed\x58\xcd\x60\x53\x17\x8c\x80\xc0\xa4\xca\x54\x80\x88\xba\x41\xbb\xf7\x18\x26\x46\x6a\x9e\xc8\x45\x96\xf7\xa8\x65\x11\x94\x6a\x4f\x15\x76\x71\xa2\xe3\x17\x02\x42\x55\xab\x01\xf9\x81\xa0\xfe\xff\xd7\x5f\xa7\xf0\xd2\x94\xbb\xb0\xa7\x9f\x2f\xd5\xfb\x86\x72\x75\x18\x1a\x7b\xd4\xbc\xba\x67\x18\xfa\x2e\xd4\x1b\x2c\xf4\xe7\x39\x96\xcf\x15\xb6\xba\xca\x88\xfd\x5a\x9f\xcc\x07\x8d\x50\x3c\xe8\x48\x45\x7a\x45\xb8\x58\x10\x75\x88\xcb\xe2\x5f\xe8\x26\xac\xc0\x8b\x66\x3a\xa5\x34\x13\x3a\xd6\xfa\xf9\x9b\xd7\xaf\xcc\x99\xea\xcc\x1e\x80\xb6\xc1\x9a\xa2\xd5\xa1\x83\x15\xcf\x61\xb2\x74\xc1\x1e\x8f\xb4\xf3\x91\x0d\x01\x1d\x65\xed\xcb\x0e\x34\x60\xa5\x90\x94\x64\x96\x67\x5a\x49\xfa\x1a\xa2\xcf\x11\x71\x67\x3f\x46\xf0\xa0\x8f\xac\x75\xc5\x40\xf9\x8c\xb8\xaa\x23\xf8\x80\xdb\xcf\x67\x89\x56\x3f\x58\x54\xac\x29\x5f\xa9\x55\x3c\x43\x5a\xec\x82\xa2\x27\xc2\x66\x96\x5b\xc8\x40\x6d\x68\xb1\x4b\xdc\xe5\x6d\x6b\x67\xd9\x0c\xf0\xd5\x33\x35\xa5\x19\x7a\xa9\x53\xa9\x0e\x90\x1d\x87\xec\x8e\x93\x27\x76\x06\xec\x76\xee\xd9\x5c\x44\x1b\xce\x1d\x38\x9b\x10\x08\x1e\x52\x2d\x36\x71\x92\xbe\xa1\x32\x8e\x8c\x22\x3c\xbd\x5d\xd6\x34\x1a\xf9\x26\x4f\x13\xb0\xb0\x42\xe6\xe3\xdf\x55\x0f\x56\x0e\x5b\x3a\xd0\xeb\xf0\x5c\x0e\x0b\xc3\xf4\x14\xb1\x62\x6c\xb0\x89\xcb\xdd\xa8\xa7\x67\xfa\x82\xca\xf8\xce\x16\xff\xd6\x61\xa0\xb6\xc6\x99\x3e\x64\x9a\x6a\x71\x78\x89\xae\x63\x49\x72\xcf\x48\x28\xdc\xc5\x74\x07\xd6\x9e\x98\xb5\x88\x2b\xe0\xe7\x20\xa6\x06\x32\xbe\x36\x61\xe3\x43\xaa\x84\xc2\x60\x8c\x1d\x13\xd7\x18\x23\xb7\x13\xd4\x37\xad\xdc\x69\xed\xc7\xe3\x49\x33\x83\x77\xef\xf1\xdc\x6c\x62\x64\x7d\x15\x2a\x5f\xed\x01\x7c\x11\x72\x59\x70\x2b\x67\x6f\x4b\xb3\xb2\x08\x61\x04\x5f\x3e\x24\x4f\x36\xb3\xe4\xda\x4b\x11\xec\xb7\x14\xce\xe1\x67\xff\xf7\xcf\xff\x4c\x8b\x50\x4e\x4b\x1c\x93\xc0\x5f\xe8\x77\xd8\x35\x40\x34\xce\x61\xd2\xcc\xde\x9d\x61\xe3\x7b\x63\xe6\x8c\xae\xc4\x43\x20\x8a\x6f\xb3\x38\xb2\xda\x01\x90\x28\x75\xfe\xe3\x0c\x13\x5c\x58\xab\xad\xd1\xdd\x81\xb2\x2a\x4f\x51\xae\x9c\x23\x8f\x1d\xa3\x11\x02\x37\x85\x58\x03\xd5\x9c\xe3\x7d\x45\x1f\xe2\x07\xbd\x2f\x14\x8f\x94\x0e\xf5\x69\xb7\x47\x03\x56\x61\xa0\x7a\xe1\x33\xea\x97\x5f\xe3\x2c\x67\x46\x81\xfe\xda\xa8\x73\x5c\x77\xd3\x8b\x48\x26\x66\x0c\xaf\x7b\x2c\xa8\xd3\x86\x4a\x91\x7a\x8b\xdb\x86\x19\x02\x98\xba\x99\x61\xaf\xa7\x1c\x72\xfc\x3a\xd5\x85\x26\x6f\x52\x87\xaa\x42\x0b\xaf\x14\xd8\xa9\x70\xa6\x30\xb0\xba\x17\xc0\xaf\xd8\x3b\x97\xdc\xca\x48\xbc\x68\x81\x26\x9e\xce\x8b\x13\xe8\x1e\x73\x5b\xa4\xed\x0c\x03\xa3\xdb\x6d\x85\x8d\x66\xef\x74\x40\x18\xa4\xc2\x4e\x86\x7d\x33\xc3\xb0\xd7\x27\xf1\x92\x51\x7b\x9c\x12\x97\x94\xd8\x69\xfd\x37\x83\x5c\x85\x7d\x7f\x09\x45\x15\x52\xf5\x05\x1d\x1c\x83\xca\xef\xd4\xd8\x1a\x3f\x7e\xb5\xf3\x5c\x13\x4e\x4b\x69\x62\x42\x27\xa7\xea\xf0\x18\x9a\x23\xc4\xca\xb6\x2a\xc8\x28\xc1\xfb\x32\xf4\x81\x97\xa2\xd8\x49\x56\x6f\xcc\x0b\x27\xc6\xc0\xa8\x2e\xc3\xf1\x6e\x90\xd1\x19\xe5\xc0\x53\xd4\xda\xe9\x05\xa6\x32\x51\x01\x29\x8d\x81\xb1\x70\x1b\xfe\x6e\xd0\x6a\x20\xa3\xe6\x46\x27\x08\x37\xbc\xab\xc3\x99\x33\xf7\x37\x94\x64\x4f\xf3\x3c\xd6\xc0\x0f\x3b\x97\x68\x0f\xe2\xcf\xd0\xe0\x8d\x20\x32\x9a\x80\xa3\xb1\xb5\x0e\x0f\x52\x66\xd9\x19\x19\x4d\xbd\xa1\x88\xbe\x56\xb4\x05\x8d\x55\x6a\x18\x1a\x9d\x9d\x83\xbb\x78\xd2\xaa\x3b\xe3\xe7\xa9\xee\xc1\xd3\x3c\xaf\x1e\xae\x09\x97\x8c\xe4\x98\x4d\x93\xbc\x31\x4e\xe1\x73\x26\xa6\x84\x67\x6f\x4b\x75\x49\xe8\xac\x7d\xb3\x36\xa1\x2d\x92\x7e\x0e\xfe\x84\x5b\x2a\x15\xab\x8f\x5b\x4a\xb5\x5f\xad\x0e\x2b\xd6\x5e\xd5\x6a\xd0\xe8\x30\xd3\x6d\xd8\x55\x0f\x5b\x0d\xf7\x3e\x49\xe7\x6a\x86\x04\x9e\x41\x7c\x46\x32\x23\x0e\xe6\x1d\x22\xd0\xa2\xe5\xa2\x75\x8c\x28\xaf\x09\x27\x85\xb0\xe1\xca\xaf\x08\x17\x31\xc7\x35\xc4\x8b\x18\xed\x7b\x8c\xed\x3f\x36\x94\x2f\xdb\xee\x3c\x7d\x7b\xf3\x5d\xfa\x4b\x6c\x8c\xed\x00\xaf\x4b\xe8\xc7\x30\xfa\x2c\xea\xd9\x79\x2b\xb5\xea\xce\x84\x09\x60\xd4\x59\x98\xd2\x76\x4b\xbf\xab\xb4\x63\x0d\x91\x22\x52\xf7\xc1\xfc\xaa\x82\x92\xbe\xa0\xa5\x9a\xd4\xad\x26\x46\x37\xfd\x69\xdd\xdd\x28\xbc\x2e\x69\x35\xdb\xc2\x83\x7e\xdc\xc6\x43\x91\xf5\x63\x10\x71\xdb\xea\x4b\x4e\x3f\xb6\x25\x6d\x13\xb4\xa8\x0c\xb2\xed\xda\x66\x06\x7b\x02\xa2\x5e\x8d\x39\x54\xcc\xd4\xfa\x51\xd8\xe8\xc0\xd9\x75\x22\x94\xfe\xdc\x8c\x06\x74\x6c\xc4\x8f\x28\x54\xf6\x20\xd8\xa7\xfb\x7a\x7d\xeb\xa1\xda\xa5\x73\x91\x86\x14\xc5\xd5\x96\x9a\xd8\x54\x12\x4e\x17\xbc\x15\xf4\x1a\x15\x0c\xea\x4b\xe1\xab\x8f\xb7\x82\x5e\x96\x4d\xf1\xaa\x29\x26\x94\x8b\xb3\xf6\xc5\x65\xc1\xe4\xdb\xb2\xae\xea\x06\x43\xe2\xcc\xa9\x95\x75\xd8\xd1\xa7\x2d\x6e\x16\x1d\x77\xba\x3c\x8d\x15\xaa\xe9\x15\x15\x82\xcc\x69\xb2\xeb\x78\x83\x15\x83\x0f\x23\xa3\xad\x9c\x3b\xa9\x3c\x29\xaf\x97\x5f\x6b\x75\x27\x14\x85\x71\x06\xfa\x72\x28\xfd\x79\xc4\x2d\x2b\x34\x54\x74\x6d\x7d\x77\xeb\x8a\x2b\x65\xb7\xab\xcc\x8a\x80\xb7\x4b\xac\x0b\x22\x60\x41\x32\x3d\x76\xa8\xa8\xaa\x4a\x79\x19\x1e\xc4\x64\x98\x15\x6e\xe5\xdb\xbf\xad\x2b\x17\x54\x43\xd1\x8e\x94\x48\xad\xd1\x77\xb5\x5c\x14\x66\xcc\xb6\xba\xb4\xa2\x45\xc7\x04\xa1\x18\x8d\x8b\x4a\x03\xe9\x56\x6e\x77\xd6\x6c\x77\x56\x62\xef\x46\x8e\x43\x5e\xa4\xb2\x73\xc8\x06\xfe\xaa\x68\xbb\x0d\x03\x95\x17\xb2\xbb\x29\x69\x7b\x2b\x6a\xba\x40\x5d\x96\xaa\x37\x24\x17\x15\x90\x2c\x33\x7b\x58\x69\x7b\x68\x78\x1e\xee\x2e\x1d\x47\xa6\xeb\x29\xde\x1d\x1e\x19\x25\x7e\x4d\xe4\x22\xd9\x37\xd0\xad\x0a\x9e\xa5\x47\x99\x43\x25\x12\x25\x9f\x5c\x63\x46\x10\xa6\x68\x62\xdb\x8e\xa8\x31\x7b\xa3\xdb\x14\x6b\x4f\x89\xb9\x04\xec\x69\xb4\x17\xe4\xec\x1e\xbd\x56\x22\x0d\xd7\x8a\x4a\xaa\xfc\x02\xa6\x0f\x48\x89\x57\xaf\xbe\xc7\x73\xf4\xb5\xbe\xe4\xa5\xdb\x50\x4f\x4e\xab\x82\xea\xbb\x07\xed\x24\x19\x13\x53\xbc\x3a\xbf\x04\xb1\x14\x92\x16\x23\x10\xea\xc4\x77\xce\xee\x68\xbe\xb4\x42\x87\x62\x04\xd1\xa2\x12\xf2\x0c\x25\x3a\x32\x0a\xb4\x43\x41\xec\xa6\xb2\x87\x86\x07\x33\xb7\xc7\x57\xa0\xd9\x0c\x3e\xb3\x22\xf7\x2d\x11\xd7\x9c\xce\xd8\xa3\x9b\x71\x04\x11\xee\xca\x48\x47\xe4\x0e\x8f\x73\xdd\x7c\x36\x1e\x47\xf0\x7f\x1c\x27\x50\x2a\x83\xc6\x69\xc1\x86\xe7\xe9\x35\x7a\x27\x0e\xda\xc1\x67\xb9\xd0\xb9\x68\x42\x73\xf9\x16\x23\xcb\x9e\x88\xc3\xd4\x55\xf5\x2d\x85\xe8\x55\xa5\x17\xd2\x4b\x6f\xeb\x43\xf4\x8a\x21\x3a\x19\x84\x80\x1e\x2a\x7e\x37\x02\x9d\x32\x07\x63\xe9\x31\xf0\xc3\x6b\x74\x5c\xfb\x9b\xfa\x2d\x43\x16\x46\x6d\xda\x16\x0f\x89\x05\x87\xc7\x42\xc1\x6a\x85\x97\x72\x37\x83\x1f\x83\x34\xbe\x55\x19\x40\xeb\x6c\x20\x24\x56\x66\xf4\x71\x7b\xc4\xd7\x76\x8c\xf2\xf1\xb7\xa3\x0a\x4b\x71\x5f\x31\x1f\x9d\x0d\xf5\xdf\x60\xc7\xb8\x9e\x0b\xb9\x5e\x65\xdf\xd4\xea\x07\xd3\xc6\xc6\x83\x0c\xa6\x55\xbd\x7c\x7b\xf3\x5d\xdc\x8c\xc0\xef\xff\x8c\x08\x8a\xea\x03\xd3\xc7\xb6\x6b\xeb\x1d\x6c\x63\xd5\xf5\x4b\xbb\x39\x62\xc3\x99\x9e\xc2\xff\x56\x55\x3f\xd8\x2c\xec\x5b\xdf\xb6\x5d\xcd\xce\xef\xf6\xa7\x53\x57\xbd\x15\xfe\x9d\xeb\x0e\xa7\x7f\xaa\x95\x1f\x4a\xa4\xa3\xd3\xb2\x43\x24\xcc\xa1\x88\x9d\xf4\x7a\x27\x0c\x94\xe6\xb1\xeb\x38\x21\x82\xc2\x09\xee\xe1\xb7\x37\xdf\x8d\x54\x71\xc9\x98\xd6\xc4\x35\xe3\xfe\x2d\xd1\x2f\x38\x3b\x87\x13\x1c\xa0\x1f\x55\x21\xc1\x84\x07\x8e\x9d\x5f\xe2\x1b\x93\x60\xb8\x90\x8f\xb6\x34\xfa\x06\xfd\xdb\xa9\x3a\xe3\xde\x70\x93\xaa\x41\x71\xb4\x1b\x57\x56\x50\x37\x79\xae\xda\x8d\x9d\xa3\x19\x7a\x18\x02\xaa\x06\x4d\xb7\x75\x5f\x8d\x59\x52\xe9\x1d\x63\xf6\x0a\xeb\xc2\xfa\x01\x28\xfa\x0a\x26\xdd\x91\x02\xbc\xaa\xa4\xb9\x75\x8b\x20\x11\x96\xd2\x14\x0b\x72\x4f\xc1\x7e\x4d\x63\xb7\x4b\xa2\xe6\x99\xa8\x6a\x95\xb9\x78\xa6\x2e\xde\xa0\xe6\xb7\xa8\xe1\x1d\x66\x93\xdf\x27\xf6\xe0\x92\xf2\x3d\x90\xaa\xa5\x4b\x54\xbb\xd2\x9e\x7f\x2d\x8e\x72\x67\x70\x4d\x69\xb9\xcb\x3b\x5d\x4e\xf6\x6e\x85\x0c\xdb\x03\x3f\xe3\xd3\xd3\xc9\x54\xdc\x76\x5c\x9b\x3c\xc0\x3b\xfc\xc9\x0a\xca\xce\xe3\x31\x99\x5f\xbf\x8e\xec\x6c\x86\xae\xfb\x26\x28\x55\xc8\x6b\xd4\x28\x43\xc7\x63\xf6\x2a\xec\xcd\x94\x54\xaf\xb2\xd9\x99\x91\xda\x8c\xaf\x4c\x3a\x4a\x7b\x63\x9b\x29\x29\x9b\xa5\x31\xd3\xd8\xd1\x3a\x3d\xd3\xc6\x3e\x9b\x29\x29\xd3\x8c\x81\xaf\x76\xf3\x4c\x95\xc4\xbd\x41\x87\x9a\xa8\x74\xc0\xff\xfb\xfa\x6b\xbf\x5c\x34\x82\x07\x53\x13\x51\x09\xcf\x9a\x53\x74\x72\x88\xda\x0f\xa4\x54\xb0\x94\x53\xa0\x04\x95\x48\x89\xdf\x45\xc0\xfd\xa3\xa9\xf0\xf7\x9f\x49\x60\x43\xa1\x43\x98\x16\x47\x8b\xc4\xde\x94\x99\x3d\x1e\xd2\x93\x32\xeb\x65\xfb\xee\x8c\x99\x9e\xf4\xf8\x94\xd9\x31\x19\xb0\x73\xec\x92\x5e\xbe\xfe\x66\x30\x09\x86\x59\xec\x36\x37\x8e\x82\xa1\x58\x00\xc8\xc7\xa5\x9f\xf5\xda\x70\x7f\xfa\x60\x61\x42\xad\x27\x9f\xe6\x80\x1a\x70\x1a\x1e\xf7\x6a\x11\xf0\x59\xa7\xf0\xf1\xfa\x17\x3b\xa7\x98\xc5\x9b\x95\x88\x64\x04\x91\x27\x33\x67\xf0\xd5\x17\xd9\x57\xd1\xa8\x33\x87\x9b\x1b\xdd\x11\x24\x78\x9f\x34\x87\x47\xe7\xf5\x06\xd3\x7a\x43\x59\xbd\x75\x78\x78\x4e\x4f\xd4\xc9\x93\xfd\x8b\xe0\x33\xc5\x12\x6c\x3a\x7d\xd9\x9e\x75\x0e\xba\x79\x19\x5f\x01\x5d\x96\x47\x2a\x20\xd7\xd3\x73\x0c\xb6\x5c\x82\x53\xa3\xaa\x0e\x70\xa1\x76\xe6\x82\x5c\xf6\x3c\x74\xd1\xae\x49\x07\x01\x39\x3c\x61\xae\xbe\x10\x81\x3b\xff\x9e\x70\x56\x35\x02\xd0\x9c\xa0\x17\x86\x76\x39\x18\x8f\xb7\x8d\x6f\x8c\x7e\xc4\x08\x54\xc2\x4c\xd7\xb4\x71\x93\x24\x56\x15\x1c\x40\xd6\x6e\x5d\xa0\xba\x0c\x1c\x21\x73\xa9\x23\xfc\xcc\xd3\x3d\xc9\x71\x2d\xa2\xc8\x64\x26\x75\xd3\xee\x1b\xfe\x1b\xcc\x30\xb3\x69\x21\xb7\x19\x4e\x4e\x3f\x86\xe1\x86\xf9\x1a\x0c\x8d\x37\xfb\x0d\xc7\xde\x3a\x2b\xf1\x46\xe9\x6c\xbc\x06\x2f\x17\x98\xf8\x25\x05\x95\x58\xb6\xc1\xbb\xda\x72\x81\x68\xdb\x48\x4e\x9d\xa1\xb2\x45\xa5\x8d\x6b\xa0\x82\xaa\xf4\x50\x27\xd7\x89\xb3\xbc\xd1\xed\x2e\xd9\x69\x3b\xae\x37\x2f\x83\xa2\xcb\x18\x8d\x15\xfe\x7d\xd1\x1e\xe2\xb2\xbb\x78\xb0\xa9\x83\x50\xcf\x55\x4d\x9e\x95\x5f\xc9\x76\xf7\x6a\x2a\xbf\xf8\x18\x69\xe7\xd3\x6a\x50\xcd\x95\x1b\xf2\x60\x9c\xcc\xc6\xfe\x76\xef\xdc\x0b\xfc\xb1\xc1\x39\x25\x78\x5d\xd6\xa9\x03\x17\xbd\x19\x6b\x54\x70\xb2\xa8\x4d\x79\xd6\x2c\xb0\x2c\xea\x2e\x3b\x87\x72\xd7\x60\xf9\x78\x0a\x87\xa5\x8d\xd9\x4c\x6d\x08\xd3\xed\x86\xd6\x14\x73\x8c\x76\xd8\x4b\xf1\x8c\x78\x1a\xb5\x85\x1c\x5f\xd8\xef\xe4\x99\x9e\x2f\x2a\xec\x05\x91\x5d\xfe\x28\xb1\x23\x34\xa9\xef\x22\x97\xa2\xfe\xa5\xcb\xc7\x9b\x93\xd8\xef\xb5\x08\xa7\xae\xc7\x05\x29\x68\xde\x9e\x37\x37\x72\x90\x0b\xf7\x6c\x1c\x3e\xef\x12\xc6\xd0\x78\x5b\x0f\x31\x68\xa4\x4f\xb3\x2c\xde\x81\xca\xc8\xfb\xb8\x54\x7c\x8f\x39\xaf\xb6\x6e\xd2\x91\x46\xc4\x89\xe6\x98\x28\xee\x30\xf0\xa5\xc0\x1c\xae\x7d\x7a\x23\x09\xbf\x7c\xac\x4d\x06\x5e\x09\xe7\x20\x9e\xbe\xc4\x7e\x12\xba\xb3\x38\xfa\x22\x8b\x46\x70\x32\x34\x45\x97\x9a\x16\xfd\x8a\x43\x8c\xe6\x7e\x6b\xcd\x93\x4d\xb1\xb0\x74\xc8\xc2\x5c\xa7\xdb\x38\x7e\x32\x38\xb3\x23\x7f\x73\x6f\xf6\x6e\x4f\xb3\x3b\x67\x84\xe5\xfa\x7c\x90\xdd\x9c\x43\xf0\xa3\xee\x3a\x19\x4d\x6b\x15\x53\x2c\x8b\x3a\x09\x8f\xe2\xaa\x86\x90\x78\x8c\xb2\xa4\xaf\x56\xe3\x93\x3f\xfc\xcb\x5f\xff\xf0\xfb\x7f\xfa\xe1\x1f\xff\xf5\x87\xbf\xfb\xdd\x1f\xff\xe1\x6f\xfe\xe3\xdf\xfe\xfd\x0f\xbf\xff\xdb\x1f\xfe\xf9\x77\x7f\xfc\xdd\xdf\x9f\x8c\x5d\xf8\xac\xf3\x48\x9f\x24\x09\x3f\x4e\x10\xe2\x03\x25\x60\x83\xb2\x4f\x98\x68\xdf\x3c\x6d\x16\xc0\x6d\x1e\x4f\x41\xb9\x27\xf3\xb0\x5e\x77\x75\x5c\x85\xa5\xb0\xa1\xe2\xd8\xb6\xa2\x53\xdd\x87\x15\x5d\x0b\xb6\x76\x86\x48\x0f\x31\x4e\xa0\x81\x68\x94\xa2\xdb\x14\x95\x7a\xdb\xdd\x15\xa6\x6d\x73\x5b\xe0\xaa\x1a\x13\x8f\x9c\x79\x41\xe5\x6a\x65\xfb\x9a\x2b\xaf\xc9\x13\xd5\xe3\xb3\x73\x68\x5f\xfd\x25\xe5\x95\x8a\xae\x3d\x6d\xb5\x73\x8b\xf5\x02\x36\x2c\x1f\xda\x65\x47\xef\xb3\xde\x49\xec\x46\x73\x22\xb4\x6b\xb3\x6d\x89\x94\x01\xb6\x67\xbf\x0d\x88\xe7\x4f\xc9\xdc\x83\xf1\xf2\x64\x1d\xf1\xdb\x42\xd0\x17\xe9\x8d\xc7\xce\x93\x79\x50\xe9\xdc\xd6\x99\x50\x13\xc2\x39\x18\x74\xb4\x1f\x1a\x2b\xbf\xcb\xc8\x75\xe9\x39\x80\x2a\x09\x1a\xcd\xa9\xd4\xdf\x54\xf4\x1d\x0c\x74\x67\xbb\xfe\x85\xac\x6e\xa8\xfc\x54\x97\xf2\x10\x3f\xe3\x74\x4f\x75\xba\x5b\x25\x1f\x9f\xc0\xeb\x32\x5f\xaa\xef\x33\x21\xc2\xaa\xb7\x30\x55\x32\xb1\x40\x37\x0c\x26\x2e\x05\x85\x63\xb1\x70\x81\x17\x21\x15\x67\x2b\xb9\xf0\x4f\x8e\x56\x05\x93\xe8\xa4\x64\x8d\xfa\xb2\x0c\x06\xbb\xac\xa4\x42\xc0\xc9\xd8\xcc\xa8\xc8\xef\x55\x4d\x7b\x5c\x8d\x56\x63\x75\xd6\xcf\x6c\x8c\xcd\x38\xf2\x6a\x7f\x14\xd9\x86\x91\x83\x85\xdf\xe1\xca\xef\x60\xe9\x57\x6d\x11\xbc\x78\xe1\x3c\x61\x87\xa1\xaf\x29\x3e\xdd\x21\xd6\x71\x99\x8a\xfb\x31\x57\x83\x2a\x08\xbe\xb8\x8f\x46\xa0\x38\xdb\xba\xc5\xcf\xb0\x83\xcb\x64\xb8\xef\x67\xc6\x78\xb4\x50\xe0\x39\xf3\x67\xcd\x6c\x46\x79\x8c\xb8\xfa\xa7\xa3\xc1\x3f\x7f\x60\x82\xda\x60\xfb\xa3\x62\x7b\x3f\x48\xe2\xbe\x31\x7a\x68\x81\xef\xd5\xd3\xdb\x37\x9f\x72\xf9\xc2\x9e\x50\xc3\xf1\xa0\x93\xa2\xee\xd9\x5c\xd9\x44\x5c\x10\xd1\x72\x04\x82\xdf\xeb\x67\xf7\xcd\x38\x13\x06\x6e\x7f\xae\xee\xd0\xdb\x94\xa8\xff\x4c\x4d\x1e\x33\x99\x55\xa9\x14\x56\x43\xdf\x34\x13\x31\xe5\x6c\xa2\x3f\xfa\xb2\x75\xf1\xd1\xff\xb8\x06\x06\x82\x7d\x7d\x50\x01\xf3\x7b\xbf\xa7\x02\x42\xaf\xc4\x5c\x91\x96\x0c\xe7\x2e\xdc\x47\xe2\xdc\xc6\xf1\xd6\x74\xb5\xea\x7c\x83\x82\xdc\x51\x8f\xfb\x87\x7e\xcf\x05\x87\x1c\xf0\x3d\x97\x16\xf2\xde\x6b\x27\x9d\xaf\xd1\xa6\x8e\x7f\xe6\x30\x7f\xe2\x2f\xdc\xc0\x77\x5c\x76\x43\x30\x87\x12\xfe\xfb\x7d\xce\xa5\xa5\x6b\xef\xfd\x51\xa3\x02\x9d\x40\x9c\x41\x97\x66\xbc\x7d\xe1\xc8\x3e\xea\x73\x2e\xb8\x50\x5e\x0f\x63\x7c\x46\xe6\x9e\xfa\x65\xd9\xdb\xc7\xab\xba\xb5\x3d\x36\x4e\xf9\x1c\xfb\xbd\x17\x6f\x95\xbd\x83\xfe\xc7\x7f\xef\xc5\x83\xe3\x8e\x0c\xef\x67\xae\x47\x1e\x00\x9c\x74\xb9\xdb\xb2\x76\xeb\x4b\x2e\x66\xa6\xcd\x4a\xc3\xd0\x3c\x5e\xae\x1b\x59\xb6\x5a\x75\xd9\xde\x5f\x73\x29\xc4\xdc\x68\xb3\x2b\x31\x1f\x4e\x71\x6f\x9f\xfe\xec\xbb\xfc\xb8\xe3\x0c\x79\x21\xe6\xe9\x73\x65\xc4\xfa\x4f\x3d\xf6\x15\xe9\xad\x2c\x0f\xdc\xa4\x34\xec\x31\x79\xd0\xf6\xd8\x5a\x8f\xbc\x6c\xa6\x2a\x15\xc1\x07\x1c\x5b\xc3\x34\x1a\x54\x93\xdf\xe0\x71\x0c\x93\x89\x14\x6e\xbd\xec\x77\x35\xae\x48\xb9\xd4\xd5\x17\xac\xc9\xd9\xe3\x19\xfa\xf3\x7a\x0d\x86\xdd\x58\x02\x41\xf4\x50\x01\x96\x82\x61\x01\xce\xdc\xed\x31\x4a\x6d\x10\xef\x81\x3a\x19\xce\x6b\x7c\xf0\x11\x94\xd3\x8e\x39\x72\x15\x82\xfe\xd4\xa4\xe5\x73\x47\x06\xf5\xfc\x48\x82\x3f\xb1\x99\x08\x67\x68\xc1\x26\xc7\x9c\xb0\x41\x8a\x4c\xb6\xda\xb6\x1d\x71\xc2\xc6\x1b\xbd\xe7\x2b\x0e\x48\xfe\x7f\xf5\x57\x1c\x5a\xec\xb6\x5d\x82\x41\x03\x74\xdd\x4c\x72\x26\x16\x94\x1f\x73\x80\x66\xf8\x13\x0e\xbe\x42\xf0\x4d\xbd\xa7\x7b\x82\x63\x3e\xcd\x60\x0f\x73\xf4\x75\x3f\xdf\xb6\x0a\x8e\x1a\x73\x8e\xc3\x7d\xa3\x21\x08\x7a\x7d\x0f\xdf\x5a\x44\xa6\x63\x8f\xe8\xfb\xe7\x33\x9e\xd3\x7d\x36\x62\xfb\x60\xc6\xe6\xb9\x8c\xce\x39\x58\xa7\x40\xec\x4e\xe8\x3d\x85\xd1\xab\x62\x4d\x1c\xe4\x21\xf2\xc9\xdf\x59\x40\x82\x86\x0a\xc9\x43\xea\xdd\xd5\x8f\x07\xb8\xd1\xab\xe3\x0e\xfb\xce\x82\xd5\xff\x7f\xb2\x2f\x2a\x0c\xa0\x7c\x80\x49\x82\x61\x9b\x84\xc7\xe6\x0e\x30\x37\x94\x73\x3b\xdf\x96\xd9\x19\x8f\x61\xdb\xf2\x8c\xc7\xb0\xf6\xa0\xdb\xc1\xa9\x3a\x3b\x6f\x07\x7f\xf9\xe5\xf6\xbb\x14\xab\x97\x70\x7e\x0e\xd1\x07\x66\x6e\x84\x7d\x88\x06\xa6\xb1\x15\xdd\x6d\x20\xf6\xe0\xae\x45\xa4\xa7\x0a\xda\xfb\x9d\x88\x43\x8d\x6f\x5f\x79\x72\xb7\xf5\xed\xff\xf0\x92\x2f\xc3\xc6\x06\xf7\x9b\x60\x53\x29\xdb\x61\x81\xbb\x57\x6d\xdc\xff\x95\x8d\x39\xad\x63\xd2\x1a\x2a\x44\x18\x30\xca\xb8\xd4\x56\xa3\x5f\x89\xf9\xa6\x4d\x3e\x55\xb8\xfe\x34\x86\xf9\x50\x5f\x6a\x5f\x8d\xd0\xb2\x7c\xd0\x10\xbb\x89\xd4\x8e\x70\xe0\x12\x6f\x19\xfe\x73\x00\xd1\x81\x4f\x3e\x7a\x69\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 26811, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x12, 0xe9, 0x36, 0x24, 0x57, 0xe4, 0xc9, 0x98, 0x1d, 0x81, 0x90, 0x10, 0x4d, 0xf4, 0x80, 0x87, 0x1f, 0x4f, 0x85, 0x71, 0x3d, 0x74, 0x24, 0xd1, 0x52, 0x33, 0xef, 0x56, 0x48, 0x25, 0x69, 0x9c}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27002, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xa0, 0x24, 0x94, 0x85, 0x8c, 0x8c, 0xdd, 0xc3, 0xc0, 0x35, 0x68, 0x70, 0x13, 0x19, 0x3a, 0x86, 0x61, 0x51, 0xcf, 0x2f, 0x7c, 0xc2, 0x46, 0x61, 0x8a, 0x11, 0x70, 0x64, 0xd6, 0x25, 0xfe, 0x1f}}
 	return a, nil
 }
 
-- 
2.43.0


From 9e9017a51f773d5e446199d7b35ee9e86ac2bc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 32/53] fix: send the option of a oneof in the query also if it
 is an enum or has its zero value

---
 gengokit/httptransport/httptransport.go            |  1 +
 gengokit/httptransport/types.go                    |  3 +++
 .../NAME-service/baron/NAME.pb.baron.go.tmpl       | 14 +++++++++-----
 gengokit/template/template.go                      |  8 ++++----
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 3eb3bd6..1b3f9f6 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -119,6 +119,7 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 			}
 			option.TypeConversion = fmt.Sprintf(typeConvStr, oneofType.Type.Message.Name, pkg.GoCamelCase(oneofType.Name), createDecodeTypeConversion(option))
 			option.ZeroValue = getZeroValue(option)
+			option.OneofType = oneofType.Type.Message.Name
 
 			oneofField.Options = append(oneofField.Options, option)
 		}
diff --git a/gengokit/httptransport/types.go b/gengokit/httptransport/types.go
index 5eaf9a4..6d59373 100644
--- a/gengokit/httptransport/types.go
+++ b/gengokit/httptransport/types.go
@@ -77,6 +77,9 @@ type Field struct {
 	Repeated bool
 
 	ZeroValue string
+	// OneofType is the Go type that holds the value if the field is an option
+	// of a oneof, e.g. "SumRequest_A"
+	OneofType string
 }
 
 // OneofField contains the distillation of information within an []*svcdef.Field
diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index e36c51f..1e4a282 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -668,9 +668,13 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 		{{- range $oneof := $binding.OneofFields }}
 			{{- if eq $oneof.Location "query"}}
 				{{- range $option := $oneof.Options }}
-					{{if or (not $option.IsBaseType) $option.Repeated}}
-						if val := req.Get{{$option.Name}}(); val != {{$option.ZeroValue}} {
-							tmp, err = json.Marshal(req.Get{{$option.Name}}())
+					{{if $option.IsEnum}}
+						if opt, ok := req.{{$option.CamelName}}.(*{{$option.OneofType}}); ok {
+							values.Add("{{$option.QueryParamName}}", fmt.Sprintf("%d", opt.{{$option.Name}}))
+						}
+					{{else if or (not $option.IsBaseType) $option.Repeated}}
+						if opt, ok := req.{{$option.CamelName}}.(*{{$option.OneofType}}); ok {
+							tmp, err = json.Marshal(opt.{{$option.Name}})
 							if err != nil {
 								return errors.Wrap(err, "failed to marshal req.Get{{$option.Name}}()")
 							}
@@ -678,8 +682,8 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 							values.Add("{{$option.QueryParamName}}", strval)
 						}
 					{{else}}
-						if val := req.Get{{$option.Name}}(); val != {{$option.ZeroValue}} {
-							values.Add("{{$option.QueryParamName}}", fmt.Sprint(val))
+						if opt, ok := req.{{$option.CamelName}}.(*{{$option.OneofType}}); ok {
+							values.Add("{{$option.QueryParamName}}", fmt.Sprint(opt.{{$option.Name}}))
 						}
 					{{- end }}
 				{{- end }}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 255e389..32943b3 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.002kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.226kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xdc\x38\x76\xf0\xb3\xf4\x2b\xce\x08\x73\x91\xfa\xab\x56\xcd\xf7\x01\x5f\xb0\x69\xa3\x03\xd8\xed\x1e\x8f\x77\xa7\xed\xde\x76\x7b\x07\x88\x61\x78\x59\x25\x56\x15\xb7\x75\x33\x49\x75\x77\x6d\xa5\x5e\xf2\xb2\x01\x12\x20\x40\x9e\xf2\x10\x2c\xf2\x94\xd7\x20\xcf\xf9\x3d\x3b\xc1\xfe\x8b\xe0\xf0\x26\xaa\x4a\xaa\x8b\x67\x36\x48\x80\x18\xd8\xe9\x12\x45\x1e\x9e\x73\x78\x78\xae\xa4\x76\x3c\x86\x8b\x2a\xa3\x30\xa7\x25\xe5\x44\xd2\x0c\x26\x4b\x98\x10\x5e\x95\x29\x3c\x7f\x0d\xaf\x5e\xdf\xc2\xe5\xf3\x97\xb7\x69\x38\x1e\xc3\x0d\xe5\x4d\x59\xb2\x72\xae\x3b\xc0\x03\xcb\x73\xa8\xee\x29\x7f\xe0\x4c\x52\x90\x0b\x26\x60\xc6\x72\xaa\x3a\xff\x8a\x72\xc1\xaa\xf2\x0c\x56\xab\xd4\xfc\x5e\xaf\xbd\x17\xf0\x9c\x48\xea\xbf\xc5\xe7\xf5\x3a\x0c\x6b\x32\xbd\x23\x73\x8a\x6f\xae\xf5\xcf\x57\xa4\x50\x6f\xc6\x63\xb8\xb5\x73\xc0\xb4\x2a\x25\x61\xa5\x80\x82\xca\x45\x95\x09\x90\x15\x14\xe4\x8e\x02\x2b\x33\x76\xcf\xb2\x86\xe4\x40\xcb\xac\xae\x58\x29\x05\xcc\x78\x55\x80\xa0\xfc\x9e\x4d\xa9\x18\x21\x1a\x9c\x7e\x6c\xa8\x90\x40\xca\x0c\x38\x15\x75\x55\x0a\x0a\x72\x59\x53\x05\x09\xbb\x22\x45\x95\xa0\x2d\x94\x11\x10\x01\x0f\x34\xcf\xf1\x2f\x2d\xa7\x55\x46\xb9\x40\x00\x08\x2f\xa3\xe6\x79\x56\x71\x33\x50\x41\x1b\xa9\x06\x82\x9c\x9a\x41\xd5\x70\x10\x4d\x5d\x57\x1c\x39\x2d\x39\x29\x05\xfe\x46\xcc\x18\xc9\xd9\x6f\x89\x64\x55\x89\xd0\x66\x15\x2f\x88\x14\x69\x18\xb2\x42\xf5\x88\xc3\x20\x9a\x2c\x25\x15\x51\x18\x44\x48\x3b\x7d\x94\xf8\x53\xa1\xc1\xca\xf9\xf8\x37\xa2\x2a\xb1\x61\x56\xa8\x76\x56\xe9\xff\x8e\x59\xd5\x48\x96\xe3\x43\x49\xe5\x78\x21\x65\x6d\x7f\x37\x5c\x35\x0b\xc9\xa7\x55\x79\x6f\x7e\xb2\x72\x2e\xa2\x30\x0c\xa2\x39\x93\x8b\x66\x92\x4e\xab\x62\x3c\xaf\x4e\xef\x98\x1c\xe3\xff\x2c\x2f\xa2\x30\x20\xe5\xb2\x9e\x40\x34\xaf\xaa\x79\x4e\xd3\x79\x95\x93\x72\x9e\x56\x7c\x3e\xae\x79\x25\xab\x49\x33\x1b\x2b\xfa\xc7\x77\x65\xf5\x50\x8e\x55\xef\x28\x0c\xb2\x86\x2b\x22\x8f\x18\xda\x0e\x89\xc2\x80\x16\xb5\x3c\x66\x5e\xd3\x3f\x0a\x83\x19\xa3\x79\x56\x10\x71\x77\xc4\x68\x6f\x4c\x14\x06\x42\xf2\x66\x2a\x8f\x18\x6e\x07\x44\x61\x20\x59\x41\x85\x24\x45\x7d\xc4\x70\x6f\x4c\x14\x06\x0f\x9c\xd4\x35\xe5\xe2\x08\x00\xed\x90\xed\x25\xe5\x2c\xcf\xc9\xb8\x68\x1e\xa3\xee\x9b\xfa\x6e\x3e\xa6\x9c\x57\x5c\x49\xda\x8e\x89\x9c\xe4\xa9\x16\x2b\x7e\x3b\x06\xa8\x1f\x88\xc8\x6a\x75\x0a\x6c\x06\xf4\x23\xa4\x17\x55\x39\x63\xf3\xf4\xd6\xed\x84\x88\xe4\x79\x04\x51\x49\xa4\x88\x60\xbd\xee\xe2\x86\xad\xa7\xac\x52\x7f\xd3\x39\x4a\x38\x82\xa2\x65\xb6\x5e\x1f\x04\x75\xce\xeb\xa9\x85\xba\x85\xa7\x7a\x39\xf8\x66\x5c\x50\x49\x32\x22\xc9\xe6\xa4\x07\x4f\x89\xf0\xdb\x1d\x3f\xb0\xbf\x5c\x07\x8b\x8e\x37\x17\xee\xdd\x23\x00\x60\xf7\xe8\x20\xb6\xb4\xcc\xc6\x5f\x47\x4c\x81\xdd\x3b\x38\x26\x61\x18\xde\x13\x0e\x71\x18\x7c\x80\x73\x98\x15\x32\x7d\x53\x73\x56\x4a\xfd\xac\x14\x58\x7a\x51\x15\x35\xe1\x54\x37\x19\xed\x93\x3e\x95\x15\xd3\x2d\x1d\x32\xd3\x57\xf4\xe1\x0d\xe5\xf7\x94\xeb\x97\x5a\x9b\xa5\xaf\xaa\xfa\x22\xaf\x44\xdb\x9a\x5e\x54\xf5\x52\x3f\x68\xe1\x4d\xbf\xe7\xa4\x0e\x83\xf1\x18\xcc\x7a\x5a\x31\xd4\x3a\x1e\xbb\x2a\x95\x94\x3e\x2d\xd5\xb8\x56\xc9\xa4\xcf\xcd\x4f\x6c\x36\xea\x23\xbd\xc4\xbf\xd8\x60\xb7\x74\xfa\x46\xfd\xc0\x26\x6f\x9b\xa6\xb7\xf6\x37\xbe\x68\xb7\x1f\xf6\x66\xe5\xfc\x57\x24\x6f\x14\xdd\x9e\x5e\x49\xbf\xc1\xdf\x57\x44\xdc\x85\x49\x18\x8e\x4f\x0e\xfa\x07\x97\xd6\x26\x81\x6d\xda\xff\x6f\xac\x2c\xe8\xcb\x12\x08\xda\x9b\x7b\xca\x47\xc0\xe4\x57\x02\x1a\x41\x67\x4d\xae\xcc\xd4\xac\x29\xa7\xc8\x05\x01\x72\x41\x24\x94\x14\xad\x54\x05\x55\xad\x7c\x03\xa8\x70\x6c\x4d\xf9\xa9\x35\x03\x08\x70\x42\x04\x13\x29\x7c\x53\x71\xa0\x8f\xa4\xa8\x73\x3a\x82\x65\xd5\x40\xc1\xe6\x0b\x09\x35\x11\x68\x22\x3d\x84\x65\x05\xc4\x4d\xa4\xe7\xa9\x79\x95\x35\x53\x2a\x10\x1c\x29\x95\x04\xa4\xdf\x92\x32\xcb\x11\xc7\x07\x26\x17\x40\xc9\x74\x61\x2c\x3d\xc4\x76\xf6\x04\x1e\x18\xa7\x19\x34\x35\x22\x49\x40\xd4\x74\xca\x66\x6c\x0a\x35\x91\x8b\x14\xe2\x97\x12\x01\x32\x01\x35\xaf\x26\x64\x92\x2f\x81\x40\xc1\x84\xd4\x5e\x02\x64\x54\xb0\x79\x89\x43\x59\x79\x5f\xdd\xa1\xb9\xa7\x80\xc2\xc6\xa6\xd4\x79\x15\x0a\x45\x8a\x70\x5a\x0a\xb4\x0c\x00\x6b\x39\x99\x26\xe1\x78\xec\xb8\x3b\xcd\x19\x2d\x65\x97\xbb\xb2\x82\x69\x95\xe7\x74\x2a\x3d\x07\x25\x5f\xc2\xb4\x2a\x35\x38\x9a\x79\xee\x0a\x2b\x91\x20\x04\x28\x58\x39\xcf\xb5\x63\xa2\x79\xc5\x90\xc3\x05\x45\x3c\x7c\x7c\x59\x29\x29\x9f\x91\x29\x1d\x5a\x09\x04\xe6\x26\xeb\x77\x92\x1a\x9c\xac\xf5\x4a\x94\xb3\x80\x1b\xf0\xc2\xd0\x33\xad\x8a\x09\x2b\x15\x9f\x0a\x83\xa2\xb7\xb0\x23\xe3\x4a\xc9\x86\x97\xc0\x24\xf2\x15\x11\x9c\x92\x3c\xa7\x1c\x3d\x26\x62\x91\x4d\x43\x45\xce\x16\x43\x57\x61\xf0\xb6\x74\xf4\xd1\x6c\xb5\x4a\xed\x08\xed\x02\x1a\x4d\xb0\x5a\x71\x52\xce\x29\x7c\xce\xe0\xec\x1c\x5c\x9f\x2b\xbd\x64\xa8\xc7\x56\xab\xcf\x99\x19\x63\x67\x01\x00\x47\x6a\x6a\x1b\xc3\xd5\x4a\x2b\x57\xed\x5d\xda\x66\xb1\x7f\x0a\x14\x60\x88\x3d\x22\x12\xf0\x26\x8d\xa7\xf2\x11\x8c\x97\x86\xa6\x01\xff\x8e\x50\x60\x4e\x56\xab\x17\x15\x22\x06\x9f\xb3\xf4\x46\xbb\xa0\xb7\xcb\xda\x12\x98\x40\xbc\xd1\x43\x3b\xa6\x5e\x97\x91\x56\x70\x09\xac\xc2\xc0\xfa\xad\xaa\x0d\x11\xa5\x69\x0f\xe5\x88\x0c\x4e\x9e\x84\x01\x1a\x2b\xce\xe1\xb3\x73\x28\x59\x8e\x10\x02\xb3\x5e\x25\xcb\x15\x90\x30\x58\x87\xb6\xcd\x42\x4f\xf7\xe2\x94\x8c\x10\x5e\xb8\x76\xec\x44\x66\x5e\x91\x3b\x8f\x3d\xe1\x6a\xa5\x36\xf2\xe7\x92\x22\xa2\xe9\x1a\x3b\x9f\x82\xcf\xe5\xcf\x25\x1d\x62\x34\xc2\xea\xa3\x4c\x20\xd3\x25\xed\x15\x93\x64\x7b\xb9\x61\xe5\x88\xc3\xf5\xeb\x5f\x25\x1b\x18\xb8\x1d\xb5\x5a\x27\x10\x5b\x66\xf8\xcd\x8a\x63\xde\x72\x04\x9c\x7e\x44\x42\x0c\x84\x34\xde\xb7\xda\x61\x10\xdc\xbb\xb5\x13\xfe\xda\x21\x6a\x0a\x95\x24\x0c\x7a\x56\x6d\x7b\xd9\x70\xdd\x6c\xeb\xbd\x5e\x8e\x00\xc5\xba\xb5\xcd\xfe\xda\xa0\x71\x7c\x9a\xe7\x97\x8f\x53\x5a\x4b\x65\xa7\x84\x56\xb1\x8e\x53\xca\x42\x61\xc8\x62\xf6\xa6\x7d\x21\x40\x2d\x23\x41\x28\x9e\x4f\xe0\x58\x7d\xc5\xb2\x2c\xa7\x0f\x84\xeb\x28\xf0\xad\xb0\x71\x21\x06\x41\x75\x9d\x2f\x51\xc5\xa0\xda\x94\x08\xbc\x70\xbd\x55\xd4\x45\xef\x29\x5f\xba\x65\xc3\xfd\x82\x1a\xc4\x84\x6d\x0a\xde\xeb\x1a\xad\x06\xc9\xf3\xe5\xc8\xf5\x13\x30\x25\x25\x4c\xa8\xb2\x35\x34\xc3\x61\x93\x25\x94\xc8\x76\x59\x61\x3b\x7d\x9c\xe6\x4d\x46\x33\x1d\x05\x4e\x28\xa2\x80\x34\xd7\x34\x4b\xb7\xb8\x11\xb7\x38\x8d\x20\x7a\x23\x89\x6c\x44\x34\x82\xe8\x9a\x95\xf3\x28\x71\xfb\xfe\xc4\x31\x24\x19\x1c\xef\x30\xf4\xb8\x32\x6a\xb1\x49\xd3\x54\x28\xb7\x40\x09\x0f\x2b\x4d\xf3\xd9\x39\x14\xa4\x7e\xa7\x5f\xbd\xd7\xec\x5f\xad\x51\xbc\x36\x37\x4c\xcf\x6e\x09\x82\x20\xf2\xc4\x28\x3a\x83\xd5\x7a\x14\x06\xbe\x1b\xb9\x0e\xc3\x00\x6d\xfd\x07\x44\x05\xc1\x68\x90\x0e\x2d\x9c\x89\xcd\xe0\xc3\x08\xaa\x3b\x7c\x6d\x11\x7b\x47\x1f\xdf\x3f\x81\xcf\xaa\x3b\xc4\x36\x08\x6a\x52\xb2\x69\xdc\x7a\x78\xb3\x38\xba\xb4\x20\x2c\xdd\xf0\xd5\x17\xe2\x2b\xc8\x2a\x2a\xa0\xac\x24\xd0\x47\x26\xe4\x13\x10\x94\xfa\x0b\xef\x62\x4a\xe5\xd2\x23\x52\x49\x62\xe4\x39\xa3\x39\x95\x34\xb6\x18\xa8\x77\x9a\x80\x83\x58\xd1\x4b\x45\x87\x3d\xef\x9f\x80\xa5\xa7\x57\x75\xc2\xb9\x87\x69\xdc\xdb\xc5\xe0\xda\x32\x58\xef\xb0\xef\xc8\x84\xe6\x34\x6b\x17\x5e\x67\x4b\xe6\x54\x5a\x31\x45\xd1\x76\x8c\x52\xd2\xfa\xb0\xa0\xa5\x7b\x5b\x79\x92\x69\x80\x69\x01\x1b\xe9\x0d\x65\x64\xbe\xd1\x9d\x41\xa7\x60\x88\xce\xe3\xb0\x29\xfa\x2f\x9c\x4d\x95\x47\xd5\x52\x00\x0f\x0b\x36\x5d\xa8\xed\x22\x68\xd9\x87\x82\x31\xda\x66\xb4\x75\x59\x2a\x6e\x4c\xf6\x36\x55\xb8\x1f\x62\x2d\xab\xa3\x6d\x85\xdb\xa3\x83\xc3\x21\xba\x3e\x59\x0d\x6d\x21\x35\x32\x74\x2a\x8e\x73\x3a\xa5\xec\x1e\xb5\x10\xd5\x24\x56\xb3\x0e\xdd\x29\xbc\xa1\xd4\x81\xf1\xa0\xa8\x17\xd6\xe7\x34\x08\x5f\x3e\x22\xa2\xb8\x7b\x32\x2a\x09\xcb\x05\xba\xc4\x76\xe7\x20\x10\xeb\xd7\x92\x9c\xc9\x65\xba\x4b\x5b\x74\x68\x8f\x8b\x1f\xc1\xd1\xff\x55\x29\xff\x73\x55\x4a\x67\xe8\x08\x0e\xd5\x30\x87\xa7\x1d\x0e\x0d\x28\x5f\xdc\x5c\x5f\x20\xc1\x94\x1f\x1d\x51\xa2\x73\xe6\x0d\xc7\x24\xac\x68\x4d\xbc\x5b\x0a\x20\xf7\x84\xe5\x64\x92\x53\x1d\x0c\xcc\x6f\xae\x2f\x60\xc0\xc5\x37\x3b\xa7\x0b\xd9\xc5\x7d\xa2\x55\x03\x23\xa8\x94\x47\x20\x50\xf4\x3b\x19\x16\x25\xc9\x94\x6b\x87\x21\x19\x9a\x08\x6d\x99\xf0\x3a\x0a\x5c\xd8\x77\xef\x87\x21\xe1\xc2\xf6\xbd\x7d\x46\x67\x15\xa7\x31\x62\x7b\x65\x32\x45\xb7\x95\xf1\x29\x93\x11\x6e\x91\x8d\x79\xce\xd1\x1d\xa2\x65\x16\x77\x9a\x1d\x3d\x69\x9a\x26\x2a\x7d\xb1\x5a\xc1\x6d\xf5\x5d\xf5\x40\x79\x2b\x91\xc8\x2a\x5c\x5c\xeb\xf0\x7d\x89\x18\xe1\x4b\xca\x57\x68\x1b\xf7\x8a\x31\xf6\xf7\x24\xed\x0c\xba\x24\xb9\xa4\x4b\x8c\xbb\xdf\xb1\xbd\x4f\x38\xd1\xb9\x08\x9e\xab\xdc\x37\xd2\xee\xf5\x30\xfe\xae\xea\x70\x59\xf6\x76\x30\xd1\x0b\xf6\xe8\x70\x21\x4d\x53\x1c\x96\x8c\x7c\xa9\x0f\xac\x69\x6d\x89\xdd\x0c\x86\x9d\xbb\xdd\xbf\xd6\xce\x75\xd7\xc6\xcc\x83\xf3\x93\x07\xa0\x1b\x0c\x06\xd8\xe0\xb0\xc9\x6e\x78\xee\xb9\x09\x9a\x4c\xda\x01\xb5\xa9\x87\x9f\xac\x5a\x52\x0f\xa7\x72\x2f\x9a\x6a\x93\xc5\x02\x4e\xda\xa9\x92\x16\xfc\x9e\x68\x16\x83\x9d\x9f\x36\x9c\xfd\x80\x11\x4f\xed\x05\x44\x1b\x5c\x54\x14\x28\x29\xf2\xc3\xa3\x23\x63\xda\xfa\x13\xc3\x59\xc3\x5d\x2d\xea\xfb\x59\x3b\x1e\xc3\xae\x5d\x01\x0c\x55\xa0\x93\x07\x95\xed\x4d\xf5\x00\xd3\xe3\x1b\x5c\x1b\x95\xf1\xc1\xea\x0c\xe5\x52\xe8\x84\x90\x51\x9b\x56\x27\x38\xc0\x2e\x6e\xc5\xb4\x0c\x66\x9d\xf8\x69\x56\x15\x84\x95\xbb\x3a\xa7\x70\xcd\x59\x41\x38\xcb\x97\x36\x51\xe5\x67\xb5\xb4\x16\xde\x45\x47\xfc\x61\x5b\x30\x90\x96\x1b\xfa\xb1\x15\x44\x15\x40\x7b\x4f\xdd\x14\x86\x0a\x99\xcd\x98\x43\x42\x66\xb7\x92\x1f\x77\x2c\xd3\x65\x79\xf0\x32\xed\xd4\x4d\xbd\xeb\xa4\x47\xd8\x2e\x43\x0b\xb5\x7f\x09\xcc\x14\x6a\xc1\x76\x2c\x6b\x9d\x2f\x0f\x5a\xa7\x9d\x84\xf4\x2d\x54\x5f\x4e\x63\xd7\x4a\x89\x1a\x97\xca\x8e\x3a\x60\x1f\x79\x8b\x25\xea\xbe\xd5\xfa\x96\xe6\x98\x20\x0f\xb5\xa0\xf5\x1a\xcf\x7e\xe5\x53\x64\x60\x0b\x32\xe9\xd5\xf3\x64\xb3\x03\xe2\x8b\x2a\xf4\x6e\x04\xf7\xad\x3f\x5a\x38\x4f\xf4\xbe\x93\x4c\x51\x75\x65\x0a\x77\x74\xa9\x96\x3b\x43\x97\x75\x52\xc9\x05\xf2\xd8\xce\x62\x2a\xb2\x10\xdf\x25\x26\xba\xc0\xae\x79\x0e\x39\xae\x97\x81\x42\x4c\x4c\xa5\x12\xa7\x17\xa4\xac\x4a\x36\x25\xf9\xb7\x94\x64\x94\xff\x82\x2e\x6d\xe8\x81\x13\x89\xca\xa4\x73\xa5\x89\xe4\x2c\x88\xe9\x94\xda\x2c\x06\x65\x72\x41\xb9\x99\x19\xdf\x23\x2b\xce\x1d\xad\xdf\x33\xb9\x50\x15\x05\x64\xd1\x48\xd1\xfa\xee\xeb\xf7\xc9\xde\x8e\x03\xd8\xc5\x77\x49\x0b\xc1\x38\xf5\x66\xf9\xa6\xf2\x51\xd9\x5e\xeb\xf7\xed\xfe\xa7\xd6\x51\xe7\x8c\x8f\xf6\x25\x5f\xd1\x07\x6f\xb4\x9e\x5e\xd5\x0f\x4c\x12\x08\x26\x64\x7a\x87\xcb\xb3\xb4\x7b\x46\x27\xdb\x91\xd6\x92\xaa\xda\x45\x0a\x2f\x25\xae\xa3\x49\xdb\x1b\x71\x65\x13\x86\x21\x99\x5d\x02\x93\x95\x96\x15\x64\x8c\xe4\x3a\x75\x9d\x13\x49\x39\x4c\xb1\xae\x84\x31\x36\xf5\x61\x6a\x01\xed\x60\x17\xe3\x6b\x6d\x3a\x53\x8d\xef\x45\x55\x96\x3b\x1c\x52\xdd\xc9\x3a\xa4\xf1\x80\x47\xea\x6f\x39\xf4\x0e\x36\xb3\xa6\x81\xd7\x5a\xdf\xcd\x71\xa7\xd9\xe4\x69\xf7\xb8\x44\xb0\x1d\xdd\xf9\xa9\xd2\x56\x07\x06\xf7\x84\xbb\xf8\xca\x53\x1d\xdb\x91\x66\x18\xe0\x7e\xe9\xeb\x7a\xbe\xed\x41\x1a\x2e\x29\x71\x44\xc6\xd8\x40\xd2\x20\xbd\x5e\xa7\x7d\xb9\xdb\xc8\xf5\xb3\xb0\xa3\x5d\x1e\x64\xeb\x62\x3e\xa7\xfb\x5c\xcc\x3d\xda\x4a\x27\xca\x82\xd6\xff\xc6\xc7\xc4\xd1\x1e\xab\x30\x51\x31\xd5\xf8\xa3\xed\x2f\xfb\xc3\x6d\x18\x3b\x48\xec\x75\xc7\xe1\xd4\x80\x72\x38\xdb\xb1\x67\x7e\xc5\xc2\x7b\x3f\x6a\xe7\x0b\xd6\x56\xa9\xa2\x32\x45\xda\xc1\xec\x9c\x1f\xef\xa6\xec\xb0\x7f\xcf\xe9\x21\xf6\x6f\xb7\x45\x3b\xd4\x4d\x31\xb6\x66\xc0\xfe\xe9\xcd\x6f\x76\xe7\x73\x7a\xa4\xfd\x43\x62\x6e\x14\x32\x07\x1a\x40\xec\xea\x9c\x15\x34\xcb\x47\x99\xc0\x3a\x5f\xf6\xd9\x40\x7f\xd9\x7e\xbc\xdb\x32\xec\x5d\x5e\x96\x07\x78\x97\xfb\x17\xc4\x73\x32\x77\xac\xf0\x4e\xef\xb2\xb3\x6a\xbb\xe8\xe8\x77\x5a\x0c\x89\x87\x2d\xd9\xb1\x05\x99\xdd\xde\xa5\xc1\x42\x59\x5d\x71\x5b\xf9\x0e\x8b\xde\x29\x7d\x1a\xdf\xcc\x83\xfb\x44\x0b\xea\x0e\x28\xf1\x1d\x5d\x0a\x78\xf7\xde\x66\xf1\xf6\xc0\x3b\xa8\xa0\x55\x64\x70\xb2\xcf\x59\x52\x36\xa0\x26\x8c\xb7\x93\x87\x81\xcd\xe9\xdd\xb5\x2e\x94\x42\x0f\x8d\x00\x16\xa5\xee\x6d\x26\x6c\x2a\x1f\x53\xc5\x93\xf8\x2e\x49\x4d\xee\x32\x69\xf3\x60\x81\x06\xec\x32\x1e\xea\x51\x3b\x2c\xe8\x6b\x28\xb5\x8a\xca\x13\x61\xaa\x77\x1d\xef\xec\xa4\xc8\x30\x67\x66\x09\xf8\x79\xc5\xca\xf8\xa4\xc8\x46\x6d\xd3\x35\x8e\x89\xd5\x48\x4c\x9b\x24\x16\x9c\xe1\x0c\x7a\x2f\xa6\x16\xa6\x57\xf2\xd0\x9c\xd8\xb7\xb7\xb7\xd7\x26\x9e\xb0\x6d\xfb\xff\x8d\xc3\x50\x95\xd9\x35\x97\x4b\x25\x5e\x70\x0e\x11\xa9\xeb\x9c\x4d\xd5\xc1\x12\x75\x56\xef\x09\x4c\x17\x84\x0b\x2a\xcf\x1b\x39\x3b\xfd\x59\xe4\x52\x69\x38\xab\x49\x0f\x98\x6a\x3a\x0a\xd6\xc2\xb4\xa8\x3d\xbb\x3f\xc5\x86\xc0\xaa\x12\x6a\x4e\x33\x3a\x63\x25\xcd\xd4\x99\x08\x61\xf6\xdc\xc6\x34\x7b\x13\x6b\xdd\x23\x39\xdd\xc4\x9a\x7f\x58\xc3\xfa\x2c\x6c\x06\xa9\x82\xaf\xdc\x7b\x4f\x6f\x6d\xe4\x79\x50\x76\xde\xbd\x1f\x86\xae\xd6\xbf\xef\xb5\xc9\xb6\xe9\x39\xd0\x7f\x15\x9d\x64\x5b\xff\xa0\x4b\xd4\xe4\x5a\xdd\xf0\x98\x7a\x0f\xc3\x43\x9e\xce\x24\xe5\xf1\xe6\x1b\x79\xd1\x2e\x6d\xec\x2d\x73\xa2\x00\x6d\x53\x79\x50\xaa\xcf\x64\x82\x54\x5a\xaf\x40\xc6\x14\xcd\x23\xba\x51\x37\x55\x83\x38\x24\xa1\xe7\x49\x98\xa2\xc4\xd9\xf9\x20\x9b\x5d\xd7\x09\x9e\xf4\x28\xe7\x08\xd0\x0c\x4b\x9f\xe9\x26\x93\xdb\x2f\xec\xb8\x18\x9d\x33\xd3\x1d\xcf\xe4\x4e\xe0\xaf\xe0\xb6\x7a\x8b\x67\x0e\xd7\xeb\x28\x49\xaf\x89\x5c\x74\xfa\x60\xc3\x2d\x2d\x6a\xf4\x9b\x55\x0f\x2b\x4e\x03\x27\xb8\x54\x32\xb1\x9b\x4d\x34\x18\xf5\xa4\x14\x8d\x3f\x87\xe4\x79\x53\xaa\xa2\x89\x33\x0f\xba\xa3\x5e\x51\xec\xf8\x42\xd7\xbe\xac\x19\xd6\xaf\xfb\x12\x8b\x81\x2a\x07\xb4\xb9\x37\xff\xa7\x51\x1a\x85\x71\xaa\x7c\xa1\xd1\x45\x36\x15\x59\x68\xb7\xc0\x96\xcb\xec\x8c\xdf\xe3\x7b\x3e\xc2\xe8\x24\xa3\x33\xd2\xe4\x12\xad\x9d\x16\x10\xdc\x91\x2a\xed\x58\xcd\x60\x53\x17\x8c\x80\xc0\xa4\xca\x54\x80\x88\xba\x41\xbb\xf7\x18\x26\x46\x6a\x9e\xc8\x45\x96\xf7\xa8\x65\x11\x94\x6a\x4f\x15\x76\x71\xa2\xe3\x17\x02\x42\x55\xab\x01\xf9\x81\xa0\xfe\xff\xd7\x5f\xa7\xf0\xd2\x94\xbb\xb0\xa7\x9f\x2f\xd5\xfb\x86\x72\x75\x18\x1a\x7b\xd4\xbc\xba\x67\x18\xfa\x2e\xd4\x1b\x2c\xf4\xe7\x39\x96\xcf\x15\xb6\xba\xca\x88\xfd\x5a\x9f\xcc\x07\x8d\x50\x3c\xe8\x48\x45\x7a\x45\xb8\x58\x10\x75\x88\xcb\xe2\x5f\xe8\x26\xac\xc0\x8b\x66\x3a\xa5\x34\x13\x3a\xd6\xfa\xf9\x9b\xd7\xaf\xcc\x99\xea\xcc\x1e\x80\xb6\xc1\x9a\xa2\xd5\xa1\x83\x15\xcf\x61\xb2\x74\xc1\x1e\x8f\xb4\xf3\x91\x0d\x01\x1d\x65\xed\xcb\x0e\x34\x60\xa5\x90\x94\x64\x96\x67\x5a\x49\xfa\x1a\xa2\xcf\x11\x71\x67\x3f\x46\xf0\xa0\x8f\xac\x75\xc5\x40\xf9\x8c\xb8\xaa\x23\xf8\x80\xdb\xcf\x67\x89\x56\x3f\x58\x54\xac\x29\x5f\xa9\x55\x3c\x43\x5a\xec\x82\xa2\x27\xc2\x66\x96\x5b\xc8\x40\x6d\x68\xb1\x4b\xdc\xe5\x6d\x6b\x67\xd9\x0c\xf0\xd5\x33\x35\xa5\x19\x7a\xa9\x53\xa9\x0e\x90\x1d\x87\xec\x8e\x93\x27\x76\x06\xec\x76\xee\xd9\x5c\x44\x1b\xce\x1d\x38\x9b\x10\x08\x1e\x52\x2d\x36\x71\x92\xbe\xa1\x32\x8e\x8c\x22\x3c\xbd\x5d\xd6\x34\x1a\xf9\x26\x4f\x13\xb0\xb0\x42\xe6\xe3\xdf\x55\x0f\x56\x0e\x5b\x3a\xd0\xeb\xf0\x5c\x0e\x0b\xc3\xf4\x14\xb1\x62\x6c\xb0\x89\xcb\xdd\xa8\xa7\x67\xfa\x82\xca\xf8\xce\x16\xff\xd6\x61\xa0\xb6\xc6\x99\x3e\x64\x9a\x6a\x71\x78\x89\xae\x63\x49\x72\xcf\x48\x28\xdc\xc5\x74\x07\xd6\x9e\x98\xb5\x88\x2b\xe0\xe7\x20\xa6\x06\x32\xbe\x36\x61\xe3\x43\xaa\x84\xc2\x60\x8c\x1d\x13\xd7\x18\x23\xb7\x13\xd4\x37\xad\xdc\x69\xed\xc7\xe3\x49\x33\x83\x77\xef\xf1\xdc\x6c\x62\x64\x7d\x15\x2a\x5f\xed\x01\x7c\x11\x72\x59\x70\x2b\x67\x6f\x4b\xb3\xb2\x08\x61\x04\x5f\x3e\x24\x4f\x36\xb3\xe4\xda\x4b\x11\xec\xb7\x14\xce\xe1\x67\xff\xf7\xcf\xff\x4c\x8b\x50\x4e\x4b\x1c\x93\xc0\x5f\xe8\x77\xd8\x35\x40\x34\xce\x61\xd2\xcc\xde\x9d\x61\xe3\x7b\x63\xe6\x8c\xae\xc4\x43\x20\x8a\x6f\xb3\x38\xb2\xda\x01\x90\x28\x75\xfe\xe3\x0c\x13\x5c\x58\xab\xad\xd1\xdd\x81\xb2\x2a\x4f\x51\xae\x9c\x23\x8f\x1d\xa3\x11\x02\x37\x85\x58\x03\xd5\x9c\xe3\x7d\x45\x1f\xe2\x07\xbd\x2f\x14\x8f\x94\x0e\xf5\x69\xb7\x47\x03\x56\x61\xa0\x7a\xe1\x33\xea\x97\x5f\xe3\x2c\x67\x46\x81\xfe\xda\xa8\x73\x5c\x77\xd3\x8b\x48\x26\x66\x0c\xaf\x7b\x2c\xa8\xd3\x86\x4a\x91\x7a\x8b\xdb\x86\x19\x02\x98\xba\x99\x61\xaf\xa7\x1c\x72\xfc\x3a\xd5\x85\x26\x6f\x52\x87\xaa\x42\x0b\xaf\x14\xd8\xa9\x70\xa6\x30\xb0\xba\x17\xc0\xaf\xd8\x3b\x97\xdc\xca\x48\xbc\x68\x81\x26\x9e\xce\x8b\x13\xe8\x1e\x73\x5b\xa4\xed\x0c\x03\xa3\xdb\x6d\x85\x8d\x66\xef\x74\x40\x18\xa4\xc2\x4e\x86\x7d\x33\xc3\xb0\xd7\x27\xf1\x92\x51\x7b\x9c\x12\x97\x94\xd8\x69\xfd\x37\x83\x5c\x85\x7d\x7f\x09\x45\x15\x52\xf5\x05\x1d\x1c\x83\xca\xef\xd4\xd8\x1a\x3f\x7e\xb5\xf3\x5c\x13\x4e\x4b\x69\x62\x42\x27\xa7\xea\xf0\x18\x9a\x23\xc4\xca\xb6\x2a\xc8\x28\xc1\xfb\x32\xf4\x81\x97\xa2\xd8\x49\x56\x6f\xcc\x0b\x27\xc6\xc0\xa8\x2e\xc3\xf1\x6e\x90\xd1\x19\xe5\xc0\x53\xd4\xda\xe9\x05\xa6\x32\x51\x01\x29\x8d\x81\xb1\x70\x1b\xfe\x6e\xd0\x6a\x20\xa3\xe6\x46\x27\x08\x37\xbc\xab\xc3\x99\x33\xf7\x37\x94\x64\x4f\xf3\x3c\xd6\xc0\x0f\x3b\x97\x68\x0f\xe2\xcf\xd0\xe0\x8d\x20\x32\x9a\x80\xa3\xb1\xb5\x0e\x0f\x52\x66\xd9\x19\x19\x4d\xbd\xa1\x88\xbe\x56\xb4\x05\x8d\x55\x6a\x18\x1a\x9d\x9d\x83\xbb\x78\xd2\xaa\x3b\xe3\xe7\xa9\xee\xc1\xd3\x3c\xaf\x1e\xae\x09\x97\x8c\xe4\x98\x4d\x93\xbc\x31\x4e\xe1\x73\x26\xa6\x84\x67\x6f\x4b\x75\x49\xe8\xac\x7d\xb3\x36\xa1\x2d\x92\x7e\x0e\xfe\x84\x5b\x2a\x15\xab\x8f\x5b\x4a\xb5\x5f\xad\x0e\x2b\xd6\x5e\xd5\x6a\xd0\xe8\x30\xd3\x6d\xd8\x55\x0f\x5b\x0d\xf7\x3e\x49\xe7\x6a\x86\x04\x9e\x41\x7c\x46\x32\x23\x0e\xe6\x1d\x22\xd0\xa2\xe5\xa2\x75\x8c\x28\xaf\x09\x27\x85\xb0\xe1\xca\xaf\x08\x17\x31\xc7\x35\xc4\x8b\x18\xed\x7b\x8c\xed\x3f\x36\x94\x2f\xdb\xee\x3c\x7d\x7b\xf3\x5d\xfa\x4b\x6c\x8c\xed\x00\xaf\x4b\xe8\xc7\x30\xfa\x2c\xea\xd9\x79\x2b\xb5\xea\xce\x84\x09\x60\xd4\x59\x98\xd2\x76\x4b\xbf\xab\xb4\x63\x0d\x91\x22\x52\xf7\xc1\xfc\xaa\x82\x92\xbe\xa0\xa5\x9a\xd4\xad\x26\x46\x37\xfd\x69\xdd\xdd\x28\xbc\x2e\x69\x35\xdb\xc2\x83\x7e\xdc\xc6\x43\x91\xf5\x63\x10\x71\xdb\xea\x4b\x4e\x3f\xb6\x25\x6d\x13\xb4\xa8\x0c\xb2\xed\xda\x66\x06\x7b\x02\xa2\x5e\x8d\x39\x54\xcc\xd4\xfa\x51\xd8\xe8\xc0\xd9\x75\x22\x94\xfe\xdc\x8c\x06\x74\x6c\xc4\x8f\x28\x54\xf6\x20\xd8\xa7\xfb\x7a\x7d\xeb\xa1\xda\xa5\x73\x91\x86\x14\xc5\xd5\x96\x9a\xd8\x54\x12\x4e\x17\xbc\x15\xf4\x1a\x15\x0c\xea\x4b\xe1\xab\x8f\xb7\x82\x5e\x96\x4d\xf1\xaa\x29\x26\x94\x8b\xb3\xf6\xc5\x65\xc1\xe4\xdb\xb2\xae\xea\x06\x43\xe2\xcc\xa9\x95\x75\xd8\xd1\xa7\x2d\x6e\x16\x1d\x77\xba\x3c\x8d\x15\xaa\xe9\x15\x15\x82\xcc\x69\xb2\xeb\x78\x83\x15\x83\x0f\x23\xa3\xad\x9c\x3b\xa9\x3c\x29\xaf\x97\x5f\x6b\x75\x27\x14\x85\x71\x06\xfa\x72\x28\xfd\x79\xc4\x2d\x2b\x34\x54\x74\x6d\x7d\x77\xeb\x8a\x2b\x65\xb7\xab\xcc\x8a\x80\xb7\x4b\xac\x0b\x22\x60\x41\x32\x3d\x76\xa8\xa8\xaa\x4a\x79\x19\x1e\xc4\x64\x98\x15\x6e\xe5\xdb\xbf\xad\x2b\x17\x54\x43\xd1\x8e\x94\x48\xad\xd1\x77\xb5\x5c\x14\x66\xcc\xb6\xba\xb4\xa2\x45\xc7\x04\xa1\x18\x8d\x8b\x4a\x03\xe9\x56\x6e\x77\xd6\x6c\x77\x56\x62\xef\x46\x8e\x43\x5e\xa4\xb2\x73\xc8\x06\xfe\xaa\x68\xbb\x0d\x03\x95\x17\xb2\xbb\x29\x69\x7b\x2b\x6a\xba\x40\x5d\x96\xaa\x37\x24\x17\x15\x90\x2c\x33\x7b\x58\x69\x7b\x68\x78\x1e\xee\x2e\x1d\x47\xa6\xeb\x29\xde\x1d\x1e\x19\x25\x7e\x4d\xe4\x22\xd9\x37\xd0\xad\x0a\x9e\xa5\x47\x99\x43\x25\x12\x25\x9f\x5c\x63\x46\x10\xa6\x68\x62\xdb\x8e\xa8\x31\x7b\xa3\xdb\x14\x6b\x4f\x89\xb9\x04\xec\x69\xb4\x17\xe4\xec\x1e\xbd\x56\x22\x0d\xd7\x8a\x4a\xaa\xfc\x02\xa6\x0f\x48\x89\x57\xaf\xbe\xc7\x73\xf4\xb5\xbe\xe4\xa5\xdb\x50\x4f\x4e\xab\x82\xea\xbb\x07\xed\x24\x19\x13\x53\xbc\x3a\xbf\x04\xb1\x14\x92\x16\x23\x10\xea\xc4\x77\xce\xee\x68\xbe\xb4\x42\x87\x62\x04\xd1\xa2\x12\xf2\x0c\x25\x3a\x32\x0a\xb4\x43\x41\xec\xa6\xb2\x87\x86\x07\x33\xb7\xc7\x57\xa0\xd9\x0c\x3e\xb3\x22\xf7\x2d\x11\xd7\x9c\xce\xd8\xa3\x9b\x71\x04\x11\xee\xca\x48\x47\xe4\x0e\x8f\x73\xdd\x7c\x36\x1e\x47\xf0\x7f\x1c\x27\x50\x2a\x83\xc6\x69\xc1\x86\xe7\xe9\x35\x7a\x27\x0e\xda\xc1\x67\xb9\xd0\xb9\x68\x42\x73\xf9\x16\x23\xcb\x9e\x88\xc3\xd4\x55\xf5\x2d\x85\xe8\x55\xa5\x17\xd2\x4b\x6f\xeb\x43\xf4\x8a\x21\x3a\x19\x84\x80\x1e\x2a\x7e\x37\x02\x9d\x32\x07\x63\xe9\x31\xf0\xc3\x6b\x74\x5c\xfb\x9b\xfa\x2d\x43\x16\x46\x6d\xda\x16\x0f\x89\x05\x87\xc7\x42\xc1\x6a\x85\x97\x72\x37\x83\x1f\x83\x34\xbe\x55\x19\x40\xeb\x6c\x20\x24\x56\x66\xf4\x71\x7b\xc4\xd7\x76\x8c\xf2\xf1\xb7\xa3\x0a\x4b\x71\x5f\x31\x1f\x9d\x0d\xf5\xdf\x60\xc7\xb8\x9e\x0b\xb9\x5e\x65\xdf\xd4\xea\x07\xd3\xc6\xc6\x83\x0c\xa6\x55\xbd\x7c\x7b\xf3\x5d\xdc\x8c\xc0\xef\xff\x8c\x08\x8a\xea\x03\xd3\xc7\xb6\x6b\xeb\x1d\x6c\x63\xd5\xf5\x4b\xbb\x39\x62\xc3\x99\x9e\xc2\xff\x56\x55\x3f\xd8\x2c\xec\x5b\xdf\xb6\x5d\xcd\xce\xef\xf6\xa7\x53\x57\xbd\x15\xfe\x9d\xeb\x0e\xa7\x7f\xaa\x95\x1f\x4a\xa4\xa3\xd3\xb2\x43\x24\xcc\xa1\x88\x9d\xf4\x7a\x27\x0c\x94\xe6\xb1\xeb\x38\x21\x82\xc2\x09\xee\xe1\xb7\x37\xdf\x8d\x54\x71\xc9\x98\xd6\xc4\x35\xe3\xfe\x2d\xd1\x2f\x38\x3b\x87\x13\x1c\xa0\x1f\x55\x21\xc1\x84\x07\x8e\x9d\x5f\xe2\x1b\x93\x60\xb8\x90\x8f\xb6\x34\xfa\x06\xfd\xdb\xa9\x3a\xe3\xde\x70\x93\xaa\x41\x71\xb4\x1b\x57\x56\x50\x37\x79\xae\xda\x8d\x9d\xa3\x19\x7a\x18\x02\xaa\x06\x4d\xb7\x75\x5f\x8d\x59\x52\xe9\x1d\x63\xf6\x0a\xeb\xc2\xfa\x01\x28\xfa\x0a\x26\xdd\x91\x02\xbc\xaa\xa4\xb9\x75\x8b\x20\x11\x96\xd2\x14\x0b\x72\x4f\xc1\x7e\x4d\x63\xb7\x4b\xa2\xe6\x99\xa8\x6a\x95\xb9\x78\xa6\x2e\xde\xa0\xe6\xb7\xa8\xe1\x1d\x66\x93\xdf\x27\xf6\xe0\x92\xf2\x3d\x90\xaa\xa5\x4b\x54\xbb\xd2\x9e\x7f\x2d\x8e\x72\x67\x70\x4d\x69\xb9\xcb\x3b\x5d\x4e\xf6\x6e\x85\x0c\xdb\x03\x3f\xe3\xd3\xd3\xc9\x54\xdc\x76\x5c\x9b\x3c\xc0\x3b\xfc\xc9\x0a\xca\xce\xe3\x31\x99\x5f\xbf\x8e\xec\x6c\x86\xae\xfb\x26\x28\x55\xc8\x6b\xd4\x28\x43\xc7\x63\xf6\x2a\xec\xcd\x94\x54\xaf\xb2\xd9\x99\x91\xda\x8c\xaf\x4c\x3a\x4a\x7b\x63\x9b\x29\x29\x9b\xa5\x31\xd3\xd8\xd1\x3a\x3d\xd3\xc6\x3e\x9b\x29\x29\xd3\x8c\x81\xaf\x76\xf3\x4c\x95\xc4\xbd\x41\x87\x9a\xa8\x74\xc0\xff\xfb\xfa\x6b\xbf\x5c\x34\x82\x07\x53\x13\x51\x09\xcf\x9a\x53\x74\x72\x88\xda\x0f\xa4\x54\xb0\x94\x53\xa0\x04\x95\x48\x89\xdf\x45\xc0\xfd\xa3\xa9\xf0\xf7\x9f\x49\x60\x43\xa1\x43\x98\x16\x47\x8b\xc4\xde\x94\x99\x3d\x1e\xd2\x93\x32\xeb\x65\xfb\xee\x8c\x99\x9e\xf4\xf8\x94\xd9\x31\x19\xb0\x73\xec\x92\x5e\xbe\xfe\x66\x30\x09\x86\x59\xec\x36\x37\x8e\x82\xa1\x58\x00\xc8\xc7\xa5\x9f\xf5\xda\x70\x7f\xfa\x60\x61\x42\xad\x27\x9f\xe6\x80\x1a\x70\x1a\x1e\xf7\x6a\x11\xf0\x59\xa7\xf0\xf1\xfa\x17\x3b\xa7\x98\xc5\x9b\x95\x88\x64\x04\x91\x27\x33\x67\xf0\xd5\x17\xd9\x57\xd1\xa8\x33\x87\x9b\x1b\xdd\x11\x24\x78\x9f\x34\x87\x47\xe7\xf5\x06\xd3\x7a\x43\x59\xbd\x75\x78\x78\x4e\x4f\xd4\xc9\x93\xfd\x8b\xe0\x33\xc5\x12\x6c\x3a\x7d\xd9\x9e\x75\x0e\xba\x79\x19\x5f\x01\x5d\x96\x47\x2a\x20\xd7\xd3\x73\x0c\xb6\x5c\x82\x53\xa3\xaa\x0e\x70\xa1\x76\xe6\x82\x5c\xf6\x3c\x74\xd1\xae\x49\x07\x01\x39\x3c\x61\xae\xbe\x10\x81\x3b\xff\x9e\x70\x56\x35\x02\xd0\x9c\xa0\x17\x86\x76\x39\x18\x8f\xb7\x8d\x6f\x8c\x7e\xc4\x08\x54\xc2\x4c\xd7\xb4\x71\x93\x24\x56\x15\x1c\x40\xd6\x6e\x5d\xa0\xba\x0c\x1c\x21\x73\xa9\x23\xfc\xcc\xd3\x3d\xc9\x71\x2d\xa2\xc8\x64\x26\x75\xd3\xee\x1b\xfe\x1b\xcc\x30\xb3\x69\x21\xb7\x19\x4e\x4e\x3f\x86\xe1\x86\xf9\x1a\x0c\x8d\x37\xfb\x0d\xc7\xde\x3a\x2b\xf1\x46\xe9\x6c\xbc\x06\x2f\x17\x98\xf8\x25\x05\x95\x58\xb6\xc1\xbb\xda\x72\x81\x68\xdb\x48\x4e\x9d\xa1\xb2\x45\xa5\x8d\x6b\xa0\x82\xaa\xf4\x50\x27\xd7\x89\xb3\xbc\xd1\xed\x2e\xd9\x69\x3b\xae\x37\x2f\x83\xa2\xcb\x18\x8d\x15\xfe\x7d\xd1\x1e\xe2\xb2\xbb\x78\xb0\xa9\x83\x50\xcf\x55\x4d\x9e\x95\x5f\xc9\x76\xf7\x6a\x2a\xbf\xf8\x18\x69\xe7\xd3\x6a\x50\xcd\x95\x1b\xf2\x60\x9c\xcc\xc6\xfe\x76\xef\xdc\x0b\xfc\xb1\xc1\x39\x25\x78\x5d\xd6\xa9\x03\x17\xbd\x19\x6b\x54\x70\xb2\xa8\x4d\x79\xd6\x2c\xb0\x2c\xea\x2e\x3b\x87\x72\xd7\x60\xf9\x78\x0a\x87\xa5\x8d\xd9\x4c\x6d\x08\xd3\xed\x86\xd6\x14\x73\x8c\x76\xd8\x4b\xf1\x8c\x78\x1a\xb5\x85\x1c\x5f\xd8\xef\xe4\x99\x9e\x2f\x2a\xec\x05\x91\x5d\xfe\x28\xb1\x23\x34\xa9\xef\x22\x97\xa2\xfe\xa5\xcb\xc7\x9b\x93\xd8\xef\xb5\x08\xa7\xae\xc7\x05\x29\x68\xde\x9e\x37\x37\x72\x90\x0b\xf7\x6c\x1c\x3e\xef\x12\xc6\xd0\x78\x5b\x0f\x31\x68\xa4\x4f\xb3\x2c\xde\x81\xca\xc8\xfb\xb8\x54\x7c\x8f\x39\xaf\xb6\x6e\xd2\x91\x46\xc4\x89\xe6\x98\x28\xee\x30\xf0\xa5\xc0\x1c\xae\x7d\x7a\x23\x09\xbf\x7c\xac\x4d\x06\x5e\x09\xe7\x20\x9e\xbe\xc4\x7e\x12\xba\xb3\x38\xfa\x22\x8b\x46\x70\x32\x34\x45\x97\x9a\x16\xfd\x8a\x43\x8c\xe6\x7e\x6b\xcd\x93\x4d\xb1\xb0\x74\xc8\xc2\x5c\xa7\xdb\x38\x7e\x32\x38\xb3\x23\x7f\x73\x6f\xf6\x6e\x4f\xb3\x3b\x67\x84\xe5\xfa\x7c\x90\xdd\x9c\x43\xf0\xa3\xee\x3a\x19\x4d\x6b\x15\x53\x2c\x8b\x3a\x09\x8f\xe2\xaa\x86\x90\x78\x8c\xb2\xa4\xaf\x56\xe3\x93\x3f\xfc\xcb\x5f\xff\xf0\xfb\x7f\xfa\xe1\x1f\xff\xf5\x87\xbf\xfb\xdd\x1f\xff\xe1\x6f\xfe\xe3\xdf\xfe\xfd\x0f\xbf\xff\xdb\x1f\xfe\xf9\x77\x7f\xfc\xdd\xdf\x9f\x8c\x5d\xf8\xac\xf3\x48\x9f\x24\x09\x3f\x4e\x10\xe2\x03\x25\x60\x83\xb2\x4f\x98\x68\xdf\x3c\x6d\x16\xc0\x6d\x1e\x4f\x41\xb9\x27\xf3\xb0\x5e\x77\x75\x5c\x85\xa5\xb0\xa1\xe2\xd8\xb6\xa2\x53\xdd\x87\x15\x5d\x0b\xb6\x76\x86\x48\x0f\x31\x4e\xa0\x81\x68\x94\xa2\xdb\x14\x95\x7a\xdb\xdd\x15\xa6\x6d\x73\x5b\xe0\xaa\x1a\x13\x8f\x9c\x79\x41\xe5\x6a\x65\xfb\x9a\x2b\xaf\xc9\x13\xd5\xe3\xb3\x73\x68\x5f\xfd\x25\xe5\x95\x8a\xae\x3d\x6d\xb5\x73\x8b\xf5\x02\x36\x2c\x1f\xda\x65\x47\xef\xb3\xde\x49\xec\x46\x73\x22\xb4\x6b\xb3\x6d\x89\x94\x01\xb6\x67\xbf\x0d\x88\xe7\x4f\xc9\xdc\x83\xf1\xf2\x64\x1d\xf1\xdb\x42\xd0\x17\xe9\x8d\xc7\xce\x93\x79\x50\xe9\xdc\xd6\x99\x50\x13\xc2\x39\x18\x74\xb4\x1f\x1a\x2b\xbf\xcb\xc8\x75\xe9\x39\x80\x2a\x09\x1a\xcd\xa9\xd4\xdf\x54\xf4\x1d\x0c\x74\x67\xbb\xfe\x85\xac\x6e\xa8\xfc\x54\x97\xf2\x10\x3f\xe3\x74\x4f\x75\xba\x5b\x25\x1f\x9f\xc0\xeb\x32\x5f\xaa\xef\x33\x21\xc2\xaa\xb7\x30\x55\x32\xb1\x40\x37\x0c\x26\x2e\x05\x85\x63\xb1\x70\x81\x17\x21\x15\x67\x2b\xb9\xf0\x4f\x8e\x56\x05\x93\xe8\xa4\x64\x8d\xfa\xb2\x0c\x06\xbb\xac\xa4\x42\xc0\xc9\xd8\xcc\xa8\xc8\xef\x55\x4d\x7b\x5c\x8d\x56\x63\x75\xd6\xcf\x6c\x8c\xcd\x38\xf2\x6a\x7f\x14\xd9\x86\x91\x83\x85\xdf\xe1\xca\xef\x60\xe9\x57\x6d\x11\xbc\x78\xe1\x3c\x61\x87\xa1\xaf\x29\x3e\xdd\x21\xd6\x71\x99\x8a\xfb\x31\x57\x83\x2a\x08\xbe\xb8\x8f\x46\xa0\x38\xdb\xba\xc5\xcf\xb0\x83\xcb\x64\xb8\xef\x67\xc6\x78\xb4\x50\xe0\x39\xf3\x67\xcd\x6c\x46\x79\x8c\xb8\xfa\xa7\xa3\xc1\x3f\x7f\x60\x82\xda\x60\xfb\xa3\x62\x7b\x3f\x48\xe2\xbe\x31\x7a\x68\x81\xef\xd5\xd3\xdb\x37\x9f\x72\xf9\xc2\x9e\x50\xc3\xf1\xa0\x93\xa2\xee\xd9\x5c\xd9\x44\x5c\x10\xd1\x72\x04\x82\xdf\xeb\x67\xf7\xcd\x38\x13\x06\x6e\x7f\xae\xee\xd0\xdb\x94\xa8\xff\x4c\x4d\x1e\x33\x99\x55\xa9\x14\x56\x43\xdf\x34\x13\x31\xe5\x6c\xa2\x3f\xfa\xb2\x75\xf1\xd1\xff\xb8\x06\x06\x82\x7d\x7d\x50\x01\xf3\x7b\xbf\xa7\x02\x42\xaf\xc4\x5c\x91\x96\x0c\xe7\x2e\xdc\x47\xe2\xdc\xc6\xf1\xd6\x74\xb5\xea\x7c\x83\x82\xdc\x51\x8f\xfb\x87\x7e\xcf\x05\x87\x1c\xf0\x3d\x97\x16\xf2\xde\x6b\x27\x9d\xaf\xd1\xa6\x8e\x7f\xe6\x30\x7f\xe2\x2f\xdc\xc0\x77\x5c\x76\x43\x30\x87\x12\xfe\xfb\x7d\xce\xa5\xa5\x6b\xef\xfd\x51\xa3\x02\x9d\x40\x9c\x41\x97\x66\xbc\x7d\xe1\xc8\x3e\xea\x73\x2e\xb8\x50\x5e\x0f\x63\x7c\x46\xe6\x9e\xfa\x65\xd9\xdb\xc7\xab\xba\xb5\x3d\x36\x4e\xf9\x1c\xfb\xbd\x17\x6f\x95\xbd\x83\xfe\xc7\x7f\xef\xc5\x83\xe3\x8e\x0c\xef\x67\xae\x47\x1e\x00\x9c\x74\xb9\xdb\xb2\x76\xeb\x4b\x2e\x66\xa6\xcd\x4a\xc3\xd0\x3c\x5e\xae\x1b\x59\xb6\x5a\x75\xd9\xde\x5f\x73\x29\xc4\xdc\x68\xb3\x2b\x31\x1f\x4e\x71\x6f\x9f\xfe\xec\xbb\xfc\xb8\xe3\x0c\x79\x21\xe6\xe9\x73\x65\xc4\xfa\x4f\x3d\xf6\x15\xe9\xad\x2c\x0f\xdc\xa4\x34\xec\x31\x79\xd0\xf6\xd8\x5a\x8f\xbc\x6c\xa6\x2a\x15\xc1\x07\x1c\x5b\xc3\x34\x1a\x54\x93\xdf\xe0\x71\x0c\x93\x89\x14\x6e\xbd\xec\x77\x35\xae\x48\xb9\xd4\xd5\x17\xac\xc9\xd9\xe3\x19\xfa\xf3\x7a\x0d\x86\xdd\x58\x02\x41\xf4\x50\x01\x96\x82\x61\x01\xce\xdc\xed\x31\x4a\x6d\x10\xef\x81\x3a\x19\xce\x6b\x7c\xf0\x11\x94\xd3\x8e\x39\x72\x15\x82\xfe\xd4\xa4\xe5\x73\x47\x06\xf5\xfc\x48\x82\x3f\xb1\x99\x08\x67\x68\xc1\x26\xc7\x9c\xb0\x41\x8a\x4c\xb6\xda\xb6\x1d\x71\xc2\xc6\x1b\xbd\xe7\x2b\x0e\x48\xfe\x7f\xf5\x57\x1c\x5a\xec\xb6\x5d\x82\x41\x03\x74\xdd\x4c\x72\x26\x16\x94\x1f\x73\x80\x66\xf8\x13\x0e\xbe\x42\xf0\x4d\xbd\xa7\x7b\x82\x63\x3e\xcd\x60\x0f\x73\xf4\x75\x3f\xdf\xb6\x0a\x8e\x1a\x73\x8e\xc3\x7d\xa3\x21\x08\x7a\x7d\x0f\xdf\x5a\x44\xa6\x63\x8f\xe8\xfb\xe7\x33\x9e\xd3\x7d\x36\x62\xfb\x60\xc6\xe6\xb9\x8c\xce\x39\x58\xa7\x40\xec\x4e\xe8\x3d\x85\xd1\xab\x62\x4d\x1c\xe4\x21\xf2\xc9\xdf\x59\x40\x82\x86\x0a\xc9\x43\xea\xdd\xd5\x8f\x07\xb8\xd1\xab\xe3\x0e\xfb\xce\x82\xd5\xff\x7f\xb2\x2f\x2a\x0c\xa0\x7c\x80\x49\x82\x61\x9b\x84\xc7\xe6\x0e\x30\x37\x94\x73\x3b\xdf\x96\xd9\x19\x8f\x61\xdb\xf2\x8c\xc7\xb0\xf6\xa0\xdb\xc1\xa9\x3a\x3b\x6f\x07\x7f\xf9\xe5\xf6\xbb\x14\xab\x97\x70\x7e\x0e\xd1\x07\x66\x6e\x84\x7d\x88\x06\xa6\xb1\x15\xdd\x6d\x20\xf6\xe0\xae\x45\xa4\xa7\x0a\xda\xfb\x9d\x88\x43\x8d\x6f\x5f\x79\x72\xb7\xf5\xed\xff\xf0\x92\x2f\xc3\xc6\x06\xf7\x9b\x60\x53\x29\xdb\x61\x81\xbb\x57\x6d\xdc\xff\x95\x8d\x39\xad\x63\xd2\x1a\x2a\x44\x18\x30\xca\xb8\xd4\x56\xa3\x5f\x89\xf9\xa6\x4d\x3e\x55\xb8\xfe\x34\x86\xf9\x50\x5f\x6a\x5f\x8d\xd0\xb2\x7c\xd0\x10\xbb\x89\xd4\x8e\x70\xe0\x12\x6f\x19\xfe\x73\x00\xd1\x81\x4f\x3e\x7a\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4b\x8f\x1c\xc9\x71\xf0\xb9\xea\x57\xc4\x16\xf6\x51\x35\x5f\x4f\xf5\x7e\x1f\xf0\x19\xf2\x10\x63\x80\x1c\xce\x72\x29\xed\x90\xa3\xe1\x50\x7b\x20\x08\x2a\xbb\x2b\xbb\x3b\x35\xf5\x62\x66\xd6\xcc\xb4\xda\x7d\xf1\x45\x06\x6c\xc0\x80\x4f\x3e\x18\x82\x4f\xbe\x1a\x3e\xfb\xf7\x68\x0d\xfd\x0b\x23\xf2\x55\x59\xdd\x55\xfd\xe0\xae\x0c\x19\x30\x01\xed\x74\x65\x65\x46\x46\x44\x46\xc6\x33\xb3\x34\x1e\xc3\x45\x95\x51\x98\xd3\x92\x72\x22\x69\x06\x93\x25\x4c\x08\xaf\xca\x14\x9e\xbf\x86\x57\xaf\x6f\xe1\xf2\xf9\xcb\xdb\x34\x1c\x8f\xe1\x86\xf2\xa6\x2c\x59\x39\xd7\x1d\xe0\x81\xe5\x39\x54\xf7\x94\x3f\x70\x26\x29\xc8\x05\x13\x30\x63\x39\x55\x9d\x7f\x45\xb9\x60\x55\x79\x06\xab\x55\x6a\x7e\xaf\xd7\xde\x0b\x78\x4e\x24\xf5\xdf\xe2\xf3\x7a\x1d\x86\x35\x99\xde\x91\x39\xc5\x37\xd7\xfa\xe7\x2b\x52\xa8\x37\xe3\x31\xdc\xda\x39\x60\x5a\x95\x92\xb0\x52\x40\x41\xe5\xa2\xca\x04\xc8\x0a\x0a\x72\x47\x81\x95\x19\xbb\x67\x59\x43\x72\xa0\x65\x56\x57\xac\x94\x02\x66\xbc\x2a\x40\x50\x7e\xcf\xa6\x54\x8c\x10\x0d\x4e\x3f\x36\x54\x48\x20\x65\x06\x9c\x8a\xba\x2a\x05\x05\xb9\xac\xa9\x82\x84\x5d\x91\xa2\x4a\xd0\x16\xca\x08\x88\x80\x07\x9a\xe7\xf8\x97\x96\xd3\x2a\xa3\x5c\x20\x00\x84\x97\x51\xf3\x3c\xab\xb8\x19\xa8\xa0\x8d\x54\x03\x41\x4e\xcd\xa0\x6a\x38\x88\xa6\xae\x2b\x8e\x9c\x96\x9c\x94\x02\x7f\x23\x66\x8c\xe4\xec\xb7\x44\xb2\xaa\x44\x68\xb3\x8a\x17\x44\x8a\x34\x0c\x59\xa1\x7a\xc4\x61\x10\x4d\x96\x92\x8a\x28\x0c\x22\xa4\x9d\x3e\x4a\xfc\xa9\xd0\x60\xe5\x7c\xfc\x1b\x51\x95\xd8\x30\x2b\x54\x3b\xab\xf4\x7f\xc7\xac\x6a\x24\xcb\xf1\xa1\xa4\x72\xbc\x90\xb2\xb6\xbf\x1b\xae\x9a\x85\xe4\xd3\xaa\xbc\x37\x3f\x59\x39\x17\x51\x18\x06\xd1\x9c\xc9\x45\x33\x49\xa7\x55\x31\x9e\x57\xa7\x77\x4c\x8e\xf1\x7f\x96\x17\x51\x18\x90\x72\x59\x4f\x20\x9a\x57\xd5\x3c\xa7\xe9\xbc\xca\x49\x39\x4f\x2b\x3e\x1f\xd7\xbc\x92\xd5\xa4\x99\x8d\x15\xfd\xe3\xbb\xb2\x7a\x28\xc7\xaa\x77\x14\x06\x59\xc3\x15\x91\x47\x0c\x6d\x87\x44\x61\x40\x8b\x5a\x1e\x33\xaf\xe9\x1f\x85\xc1\x8c\xd1\x3c\x2b\x88\xb8\x3b\x62\xb4\x37\x26\x0a\x03\x21\x79\x33\x95\x47\x0c\xb7\x03\xa2\x30\x90\xac\xa0\x42\x92\xa2\x3e\x62\xb8\x37\x26\x0a\x83\x07\x4e\xea\x9a\x72\x71\x04\x80\x76\xc8\xf6\x92\x72\x96\xe7\x64\x5c\x34\x8f\x51\xf7\x4d\x7d\x37\x1f\x53\xce\x2b\xae\x24\x6d\xc7\x44\x4e\xf2\x54\x8b\x15\xbf\x1d\x03\xd4\x0f\x44\x64\xb5\x3a\x05\x36\x03\xfa\x11\xd2\x8b\xaa\x9c\xb1\x79\x7a\xeb\x76\x42\x44\xf2\x3c\x82\xa8\x24\x52\x44\xb0\x5e\x77\x71\xc3\xd6\x53\x56\xa9\xbf\xe9\x1c\x25\x1c\x41\xd1\x32\x5b\xaf\x0f\x82\x3a\xe7\xf5\xd4\x42\xdd\xc2\x53\xbd\x1c\x7c\x33\x2e\xa8\x24\x19\x91\x64\x73\xd2\x83\xa7\x44\xf8\xed\x8e\x1f\xd8\x5f\xae\x83\x45\xc7\x9b\x0b\xf7\xee\x11\x00\xb0\x7b\x74\x10\x5b\x5a\x66\xe3\xaf\x23\xa6\xc0\xee\x1d\x1c\x93\x30\x0c\xef\x09\x87\x38\x0c\x3e\xc0\x39\xcc\x0a\x99\xbe\xa9\x39\x2b\xa5\x7e\x56\x0a\x2c\xbd\xa8\x8a\x9a\x70\xaa\x9b\x8c\xf6\x49\x9f\xca\x8a\xe9\x96\x0e\x99\xe9\x2b\xfa\xf0\x86\xf2\x7b\xca\xf5\x4b\xad\xcd\xd2\x57\x55\x7d\x91\x57\xa2\x6d\x4d\x2f\xaa\x7a\xa9\x1f\xb4\xf0\xa6\xdf\x73\x52\x87\xc1\x78\x0c\x66\x3d\xad\x18\x6a\x1d\x8f\x5d\x95\x4a\x4a\x9f\x96\x6a\x5c\xab\x64\xd2\xe7\xe6\x27\x36\x1b\xf5\x91\x5e\xe2\x5f\x6c\xb0\x5b\x3a\x7d\xa3\x7e\x60\x93\xb7\x4d\xd3\x5b\xfb\x1b\x5f\xb4\xdb\x0f\x7b\xb3\x72\xfe\x2b\x92\x37\x8a\x6e\x4f\xaf\xa4\xdf\xe0\xef\x2b\x22\xee\xc2\x24\x0c\xc7\x27\x07\xfd\x83\x4b\x6b\x93\xc0\x36\xed\xff\x37\x56\x16\xf4\x65\x09\x04\xed\xcd\x3d\xe5\x23\x60\xf2\x2b\x01\x8d\xa0\xb3\x26\x57\x66\x6a\xd6\x94\x53\xe4\x82\x00\xb9\x20\x12\x4a\x8a\x56\xaa\x82\xaa\x56\xbe\x01\x54\x38\xb6\xa6\xfc\xd4\x9a\x01\x04\x38\x21\x82\x89\x14\xbe\xa9\x38\xd0\x47\x52\xd4\x39\x1d\xc1\xb2\x6a\xa0\x60\xf3\x85\x84\x9a\x08\x34\x91\x1e\xc2\xb2\x02\xe2\x26\xd2\xf3\xd4\xbc\xca\x9a\x29\x15\x08\x8e\x94\x4a\x02\xd2\x6f\x49\x99\xe5\x88\xe3\x03\x93\x0b\xa0\x64\xba\x30\x96\x1e\x62\x3b\x7b\x02\x0f\x8c\xd3\x0c\x9a\x1a\x91\x24\x20\x6a\x3a\x65\x33\x36\x85\x9a\xc8\x45\x0a\xf1\x4b\x89\x00\x99\x80\x9a\x57\x13\x32\xc9\x97\x40\xa0\x60\x42\x6a\x2f\x01\x32\x2a\xd8\xbc\xc4\xa1\xac\xbc\xaf\xee\xd0\xdc\x53\x40\x61\x63\x53\xea\xbc\x0a\x85\x22\x45\x38\x2d\x05\x5a\x06\x80\xb5\x9c\x4c\x93\x70\x3c\x76\xdc\x9d\xe6\x8c\x96\xb2\xcb\x5d\x59\xc1\xb4\xca\x73\x3a\x95\x9e\x83\x92\x2f\x61\x5a\x95\x1a\x1c\xcd\x3c\x77\x85\x95\x48\x10\x02\x14\xac\x9c\xe7\xda\x31\xd1\xbc\x62\xc8\xe1\x82\x22\x1e\x3e\xbe\xac\x94\x94\xcf\xc8\x94\x0e\xad\x04\x02\x73\x93\xf5\x3b\x49\x0d\x4e\xd6\x7a\x25\xca\x59\xc0\x0d\x78\x61\xe8\x99\x56\xc5\x84\x95\x8a\x4f\x85\x41\xd1\x5b\xd8\x91\x71\xa5\x64\xc3\x4b\x60\x12\xf9\x8a\x08\x4e\x49\x9e\x53\x8e\x1e\x13\xb1\xc8\xa6\xa1\x22\x67\x8b\xa1\xab\x30\x78\x5b\x3a\xfa\x68\xb6\x5a\xa5\x76\x84\x76\x01\x8d\x26\x58\xad\x38\x29\xe7\x14\x3e\x67\x70\x76\x0e\xae\xcf\x95\x5e\x32\xd4\x63\xab\xd5\xe7\xcc\x8c\xb1\xb3\x00\x80\x23\x35\xb5\x8d\xe1\x6a\xa5\x95\xab\xf6\x2e\x6d\xb3\xd8\x3f\x05\x0a\x30\xc4\x1e\x11\x09\x78\x93\xc6\x53\xf9\x08\xc6\x4b\x43\xd3\x80\x7f\x47\x28\x30\x27\xab\xd5\x8b\x0a\x11\x83\xcf\x59\x7a\xa3\x5d\xd0\xdb\x65\x6d\x09\x4c\x20\xde\xe8\xa1\x1d\x53\xaf\xcb\x48\x2b\xb8\x04\x56\x61\x60\xfd\x56\xd5\x86\x88\xd2\xb4\x87\x72\x44\x06\x27\x4f\xc2\x00\x8d\x15\xe7\xf0\xd9\x39\x94\x2c\x47\x08\x81\x59\xaf\x92\xe5\x0a\x48\x18\xac\x43\xdb\x66\xa1\xa7\x7b\x71\x4a\x46\x08\x2f\x5c\x3b\x76\x22\x33\xaf\xc8\x9d\xc7\x9e\x70\xb5\x52\x1b\xf9\x73\x49\x11\xd1\x74\x8d\x9d\x4f\xc1\xe7\xf2\xe7\x92\x0e\x31\x1a\x61\xf5\x51\x26\x90\xe9\x92\xf6\x8a\x49\xb2\xbd\xdc\xb0\x72\xc4\xe1\xfa\xf5\xaf\x92\x0d\x0c\xdc\x8e\x5a\xad\x13\x88\x2d\x33\xfc\x66\xc5\x31\x6f\x39\x02\x4e\x3f\x22\x21\x06\x42\x1a\xef\x5b\xed\x30\x08\xee\xdd\xda\x09\x7f\xed\x10\x35\x85\x4a\x12\x06\x3d\xab\xb6\xbd\x6c\xb8\x6e\xb6\xf5\x5e\x2f\x47\x80\x62\xdd\xda\x66\x7f\x6d\xd0\x38\x3e\xcd\xf3\xcb\xc7\x29\xad\xa5\xb2\x53\x42\xab\x58\xc7\x29\x65\xa1\x30\x64\x31\x7b\xd3\xbe\x10\xa0\x96\x91\x20\x14\xcf\x27\x70\xac\xbe\x62\x59\x96\xd3\x07\xc2\x75\x14\xf8\x56\xd8\xb8\x10\x83\xa0\xba\xce\x97\xa8\x62\x50\x6d\x4a\x04\x5e\xb8\xde\x2a\xea\xa2\xf7\x94\x2f\xdd\xb2\xe1\x7e\x41\x0d\x62\xc2\x36\x05\xef\x75\x8d\x56\x83\xe4\xf9\x72\xe4\xfa\x09\x98\x92\x12\x26\x54\xd9\x1a\x9a\xe1\xb0\xc9\x12\x4a\x64\xbb\xac\xb0\x9d\x3e\x4e\xf3\x26\xa3\x99\x8e\x02\x27\x14\x51\x40\x9a\x6b\x9a\xa5\x5b\xdc\x88\x5b\x9c\x46\x10\xbd\x91\x44\x36\x22\x1a\x41\x74\xcd\xca\x79\x94\xb8\x7d\x7f\xe2\x18\x92\x0c\x8e\x77\x18\x7a\x5c\x19\xb5\xd8\xa4\x69\x2a\x94\x5b\xa0\x84\x87\x95\xa6\xf9\xec\x1c\x0a\x52\xbf\xd3\xaf\xde\x6b\xf6\xaf\xd6\x28\x5e\x9b\x1b\xa6\x67\xb7\x04\x41\x10\x79\x62\x14\x9d\xc1\x6a\x3d\x0a\x03\xdf\x8d\x5c\x87\x61\x80\xb6\xfe\x03\xa2\x82\x60\x34\x48\x87\x16\xce\xc4\x66\xf0\x61\x04\xd5\x1d\xbe\xb6\x88\xbd\xa3\x8f\xef\x9f\xc0\x67\xd5\x1d\x62\x1b\x04\x35\x29\xd9\x34\x6e\x3d\xbc\x59\x1c\x5d\x5a\x10\x96\x6e\xf8\xea\x0b\xf1\x15\x64\x15\x15\x50\x56\x12\xe8\x23\x13\xf2\x09\x08\x4a\xfd\x85\x77\x31\xa5\x72\xe9\x11\xa9\x24\x31\xf2\x9c\xd1\x9c\x4a\x1a\x5b\x0c\xd4\x3b\x4d\xc0\x41\xac\xe8\xa5\xa2\xc3\x9e\xf7\x4f\xc0\xd2\xd3\xab\x3a\xe1\xdc\xc3\x34\xee\xed\x62\x70\x6d\x19\xac\x77\xd8\x77\x64\x42\x73\x9a\xb5\x0b\xaf\xb3\x25\x73\x2a\xad\x98\xa2\x68\x3b\x46\x29\x69\x7d\x58\xd0\xd2\xbd\xad\x3c\xc9\x34\xc0\xb4\x80\x8d\xf4\x86\x32\x32\xdf\xe8\xce\xa0\x53\x30\x44\xe7\x71\xd8\x14\xfd\x17\xce\xa6\xca\xa3\x6a\x29\x80\x87\x05\x9b\x2e\xd4\x76\x11\xb4\xec\x43\xc1\x18\x6d\x33\xda\xba\x2c\x15\x37\x26\x7b\x9b\x2a\xdc\x0f\xb1\x96\xd5\xd1\xb6\xc2\xed\xd1\xc1\xe1\x10\x5d\x9f\xac\x86\xb6\x90\x1a\x19\x3a\x15\xc7\x39\x9d\x52\x76\x8f\x5a\x88\x6a\x12\xab\x59\x87\xee\x14\xde\x50\xea\xc0\x78\x50\xd4\x0b\xeb\x73\x1a\x84\x2f\x1f\x11\x51\xdc\x3d\x19\x95\x84\xe5\x02\x5d\x62\xbb\x73\x10\x88\xf5\x6b\x49\xce\xe4\x32\xdd\xa5\x2d\x3a\xb4\xc7\xc5\x8f\xe0\xe8\xff\xaa\x94\xff\xb9\x2a\xa5\x33\x74\x04\x87\x6a\x98\xc3\xd3\x0e\x87\x06\x94\x2f\x6e\xae\x2f\x90\x60\xca\x8f\x8e\x28\xd1\x39\xf3\x86\x63\x12\x56\xb4\x26\xde\x2d\x05\x90\x7b\xc2\x72\x32\xc9\xa9\x0e\x06\xe6\x37\xd7\x17\x30\xe0\xe2\x9b\x9d\xd3\x85\xec\xe2\x3e\xd1\xaa\x81\x11\x54\xca\x23\x10\x28\xfa\x9d\x0c\x8b\x92\x64\xca\xb5\xc3\x90\x0c\x4d\x84\xb6\x4c\x78\x1d\x05\x2e\xec\xbb\xf7\xc3\x90\x70\x61\xfb\xde\x3e\xa3\xb3\x8a\xd3\x18\xb1\xbd\x32\x99\xa2\xdb\xca\xf8\x94\xc9\x08\xb7\xc8\xc6\x3c\xe7\xe8\x0e\xd1\x32\x8b\x3b\xcd\x8e\x9e\x34\x4d\x13\x95\xbe\x58\xad\xe0\xb6\xfa\xae\x7a\xa0\xbc\x95\x48\x64\x15\x2e\xae\x75\xf8\xbe\x44\x8c\xf0\x25\xe5\x2b\xb4\x8d\x7b\xc5\x18\xfb\x7b\x92\x76\x06\x5d\x92\x5c\xd2\x25\xc6\xdd\xef\xd8\xde\x27\x9c\xe8\x5c\x04\xcf\x55\xee\x1b\x69\xf7\x7a\x18\x7f\x57\x75\xb8\x2c\x7b\x3b\x98\xe8\x05\x7b\x74\xb8\x90\xa6\x29\x0e\x4b\x46\xbe\xd4\x07\xd6\xb4\xb6\xc4\x6e\x06\xc3\xce\xdd\xee\x5f\x6b\xe7\xba\x6b\x63\xe6\xc1\xf9\xc9\x03\xd0\x0d\x06\x03\x6c\x70\xd8\x64\x37\x3c\xf7\xdc\x04\x4d\x26\xed\x80\xda\xd4\xc3\x4f\x56\x2d\xa9\x87\x53\xb9\x17\x4d\xb5\xc9\x62\x01\x27\xed\x54\x49\x0b\x7e\x4f\x34\x8b\xc1\xce\x4f\x1b\xce\x7e\xc0\x88\xa7\xf6\x02\xa2\x0d\x2e\x2a\x0a\x94\x14\xf9\xe1\xd1\x91\x31\x6d\xfd\x89\xe1\xac\xe1\xae\x16\xf5\xfd\xac\x1d\x8f\x61\xd7\xae\x00\x86\x2a\xd0\xc9\x83\xca\xf6\xa6\x7a\x80\xe9\xf1\x0d\xae\x8d\xca\xf8\x60\x75\x86\x72\x29\x74\x42\xc8\xa8\x4d\xab\x13\x1c\x60\x17\xb7\x62\x5a\x06\xb3\x4e\xfc\x34\xab\x0a\xc2\xca\x5d\x9d\x53\xb8\xe6\xac\x20\x9c\xe5\x4b\x9b\xa8\xf2\xb3\x5a\x5a\x0b\xef\xa2\x23\xfe\xb0\x2d\x18\x48\xcb\x0d\xfd\xd8\x0a\xa2\x0a\xa0\xbd\xa7\x6e\x0a\x43\x85\xcc\x66\xcc\x21\x21\xb3\x5b\xc9\x8f\x3b\x96\xe9\xb2\x3c\x78\x99\x76\xea\xa6\xde\x75\xd2\x23\x6c\x97\xa1\x85\xda\xbf\x04\x66\x0a\xb5\x60\x3b\x96\xb5\xce\x97\x07\xad\xd3\x4e\x42\xfa\x16\xaa\x2f\xa7\xb1\x6b\xa5\x44\x8d\x4b\x65\x47\x1d\xb0\x8f\xbc\xc5\x12\x75\xdf\x6a\x7d\x4b\x73\x4c\x90\x87\x5a\xd0\x7a\x8d\x67\xbf\xf2\x29\x32\xb0\x05\x99\xf4\xea\x79\xb2\xd9\x01\xf1\x45\x15\x7a\x37\x82\xfb\xd6\x1f\x2d\x9c\x27\x7a\xdf\x49\xa6\xa8\xba\x32\x85\x3b\xba\x54\xcb\x9d\xa1\xcb\x3a\xa9\xe4\x02\x79\x6c\x67\x31\x15\x59\x88\xef\x12\x13\x5d\x60\xd7\x3c\x87\x1c\xd7\xcb\x40\x21\x26\xa6\x52\x89\xd3\x0b\x52\x56\x25\x9b\x92\xfc\x5b\x4a\x32\xca\x7f\x41\x97\x36\xf4\xc0\x89\x44\x65\xd2\xb9\xd2\x44\x72\x16\xc4\x74\x4a\x6d\x16\x83\x32\xb9\xa0\xdc\xcc\x8c\xef\x91\x15\xe7\x8e\xd6\xef\x99\x5c\xa8\x8a\x02\xb2\x68\xa4\x68\x7d\xf7\xf5\xfb\x64\x6f\xc7\x01\xec\xe2\xbb\xa4\x85\x60\x9c\x7a\xb3\x7c\x53\xf9\xa8\x6c\xaf\xf5\xfb\x76\xff\x53\xeb\xa8\x73\xc6\x47\xfb\x92\xaf\xe8\x83\x37\x5a\x4f\xaf\xea\x07\x26\x09\x04\x13\x32\xbd\xc3\xe5\x59\xda\x3d\xa3\x93\xed\x48\x6b\x49\x55\xed\x22\x85\x97\x12\xd7\xd1\xa4\xed\x8d\xb8\xb2\x09\xc3\x90\xcc\x2e\x81\xc9\x4a\xcb\x0a\x32\x46\x72\x9d\xba\xce\x89\xa4\x1c\xa6\x58\x57\xc2\x18\x9b\xfa\x30\xb5\x80\x76\xb0\x8b\xf1\xb5\x36\x9d\xa9\xc6\xf7\xa2\x2a\xcb\x1d\x0e\xa9\xee\x64\x1d\xd2\x78\xc0\x23\xf5\xb7\x1c\x7a\x07\x9b\x59\xd3\xc0\x6b\xad\xef\xe6\xb8\xd3\x6c\xf2\xb4\x7b\x5c\x22\xd8\x8e\xee\xfc\x54\x69\xab\x03\x83\x7b\xc2\x5d\x7c\xe5\xa9\x8e\xed\x48\x33\x0c\x70\xbf\xf4\x75\x3d\xdf\xf6\x20\x0d\x97\x94\x38\x22\x63\x6c\x20\x69\x90\x5e\xaf\xd3\xbe\xdc\x6d\xe4\xfa\x59\xd8\xd1\x2e\x0f\xb2\x75\x31\x9f\xd3\x7d\x2e\xe6\x1e\x6d\xa5\x13\x65\x41\xeb\x7f\xe3\x63\xe2\x68\x8f\x55\x98\xa8\x98\x6a\xfc\xd1\xf6\x97\xfd\xe1\x36\x8c\x1d\x24\xf6\xba\xe3\x70\x6a\x40\x39\x9c\xed\xd8\x33\xbf\x62\xe1\xbd\x1f\xb5\xf3\x05\x6b\xab\x54\x51\x99\x22\xed\x60\x76\xce\x8f\x77\x53\x76\xd8\xbf\xe7\xf4\x10\xfb\xb7\xdb\xa2\x1d\xea\xa6\x18\x5b\x33\x60\xff\xf4\xe6\x37\xbb\xf3\x39\x3d\xd2\xfe\x21\x31\x37\x0a\x99\x03\x0d\x20\x76\x75\xce\x0a\x9a\xe5\xa3\x4c\x60\x9d\x2f\xfb\x6c\xa0\xbf\x6c\x3f\xde\x6d\x19\xf6\x2e\x2f\xcb\x03\xbc\xcb\xfd\x0b\xe2\x39\x99\x3b\x56\x78\xa7\x77\xd9\x59\xb5\x5d\x74\xf4\x3b\x2d\x86\xc4\xc3\x96\xec\xd8\x82\xcc\x6e\xef\xd2\x60\xa1\xac\xae\xb8\xad\x7c\x87\x45\xef\x94\x3e\x8d\x6f\xe6\xc1\x7d\xa2\x05\x75\x07\x94\xf8\x8e\x2e\x05\xbc\x7b\x6f\xb3\x78\x7b\xe0\x1d\x54\xd0\x2a\x32\x38\xd9\xe7\x2c\x29\x1b\x50\x13\xc6\xdb\xc9\xc3\xc0\xe6\xf4\xee\x5a\x17\x4a\xa1\x87\x46\x00\x8b\x52\xf7\x36\x13\x36\x95\x8f\xa9\xe2\x49\x7c\x97\xa4\x26\x77\x99\xb4\x79\xb0\x40\x03\x76\x19\x0f\xf5\xa8\x1d\x16\xf4\x35\x94\x5a\x45\xe5\x89\x30\xd5\xbb\x8e\x77\x76\x52\x64\x98\x33\xb3\x04\xfc\xbc\x62\x65\x7c\x52\x64\xa3\xb6\xe9\x1a\xc7\xc4\x6a\x24\xa6\x4d\x12\x0b\xce\x70\x06\xbd\x17\x53\x0b\xd3\x2b\x79\x68\x4e\xec\xdb\xdb\xdb\x6b\x13\x4f\xd8\xb6\xfd\xff\xc6\x61\xa8\xca\xec\x9a\xcb\xa5\x12\x2f\x38\x87\x88\xd4\x75\xce\xa6\xea\x60\x89\x3a\xab\xf7\x04\xa6\x0b\xc2\x05\x95\xe7\x8d\x9c\x9d\xfe\x2c\x72\xa9\x34\x9c\xd5\xa4\x07\x4c\x35\x1d\x05\x6b\x61\x5a\xd4\x9e\xdd\x9f\x62\x43\x60\x55\x09\x35\xa7\x19\x9d\xb1\x92\x66\xea\x4c\x84\x30\x7b\x6e\x63\x9a\xbd\x89\xb5\xee\x91\x9c\x6e\x62\xcd\x3f\xac\x61\x7d\x16\x36\x83\x54\xc1\x57\xee\xbd\xa7\xb7\x36\xf2\x3c\x28\x3b\xef\xde\x0f\x43\x57\xeb\xdf\xf7\xda\x64\xdb\xf4\x1c\xe8\xbf\x8a\x4e\xb2\xad\x7f\xd0\x25\x6a\x72\xad\x6e\x78\x4c\xbd\x87\xe1\x21\x4f\x67\x92\xf2\x78\xf3\x8d\xbc\x68\x97\x36\xf6\x96\x39\x51\x80\xb6\xa9\x3c\x28\xd5\x67\x32\x41\x2a\xad\x57\x20\x63\x8a\xe6\x11\xdd\xa8\x9b\xaa\x41\x1c\x92\xd0\xf3\x24\x4c\x51\xe2\xec\x7c\x90\xcd\xae\xeb\x04\x4f\x7a\x94\x73\x04\x68\x86\xa5\xcf\x74\x93\xc9\xed\x17\x76\x5c\x8c\xce\x99\xe9\x8e\x67\x72\x27\xf0\xd7\x70\x5b\xbd\xc5\x33\x87\xeb\x75\x94\xa4\xd7\x44\x2e\x3a\x7d\xb0\xe1\x96\x16\x35\xfa\xcd\xaa\x87\x15\xa7\x81\x13\x5c\x2a\x99\xd8\xcd\x26\x1a\x8c\x7a\x52\x8a\xc6\x9f\x43\xf2\xbc\x29\x55\xd1\xc4\x99\x07\xdd\x51\xaf\x28\x76\x7c\xa1\x6b\x5f\xd6\x0c\xeb\xd7\x7d\x89\xc5\x40\x95\x03\xda\xdc\x9b\xff\xd3\x28\x8d\xc2\x38\x55\xbe\xd0\xe8\x22\x9b\x8a\x2c\xb4\x5b\x60\xcb\x65\x76\xc6\xef\xf1\x3d\x1f\x61\x74\x92\xd1\x19\x69\x72\x89\xd6\x4e\x0b\x08\xee\x48\x95\x76\xac\x66\xb0\xa9\x0b\x46\x40\x60\x52\x65\x2a\x40\x44\xdd\xa0\xdd\x7b\x0c\x13\x23\x35\x4f\xe4\x22\xcb\x7b\xd4\xb2\x08\x4a\xb5\xa7\x0a\xbb\x38\xd1\xf1\x0b\x01\xa1\xaa\xd5\x80\xfc\x40\x50\xff\xff\xeb\xaf\x53\x78\x69\xca\x5d\xd8\xd3\xcf\x97\xea\x7d\x43\xb9\x3a\x0c\x8d\x3d\x6a\x5e\xdd\x33\x0c\x7d\x17\xea\x0d\x16\xfa\xf3\x1c\xcb\xe7\x0a\x5b\x5d\x65\xc4\x7e\xad\x4f\xe6\x83\x46\x28\x1e\x74\xa4\x22\xbd\x22\x5c\x2c\x88\x3a\xc4\x65\xf1\x2f\x74\x13\x56\xe0\x45\x33\x9d\x52\x9a\x09\x1d\x6b\xfd\xfc\xcd\xeb\x57\xe6\x4c\x75\x66\x0f\x40\xdb\x60\x4d\xd1\xea\xd0\xc1\x8a\xe7\x30\x59\xba\x60\x8f\x47\xda\xf9\xc8\x86\x80\x8e\xb2\xf6\x65\x07\x1a\xb0\x52\x48\x4a\x32\xcb\x33\xad\x24\x7d\x0d\xd1\xe7\x88\xb8\xb3\x1f\x23\x78\xd0\x47\xd6\xba\x62\xa0\x7c\x46\x5c\xd5\x11\x7c\xc0\xed\xe7\xb3\x44\xab\x1f\x2c\x2a\xd6\x94\xaf\xd4\x2a\x9e\x21\x2d\x76\x41\xd1\x13\x61\x33\xcb\x2d\x64\xa0\x36\xb4\xd8\x25\xee\xf2\xb6\xb5\xb3\x6c\x06\xf8\xea\x99\x9a\xd2\x0c\xbd\xd4\xa9\x54\x07\xc8\x8e\x43\x76\xc7\xc9\x13\x3b\x03\x76\x3b\xf7\x6c\x2e\xa2\x0d\xe7\x0e\x9c\x4d\x08\x04\x0f\xa9\x16\x9b\x38\x49\xdf\x50\x19\x47\x46\x11\x9e\xde\x2e\x6b\x1a\x8d\x7c\x93\xa7\x09\x58\x58\x21\xf3\xf1\xef\xaa\x07\x2b\x87\x2d\x1d\xe8\x75\x78\x2e\x87\x85\x61\x7a\x8a\x58\x31\x36\xd8\xc4\xe5\x6e\xd4\xd3\x33\x7d\x41\x65\x7c\x67\x8b\x7f\xeb\x30\x50\x5b\xe3\x4c\x1f\x32\x4d\xb5\x38\xbc\x44\xd7\xb1\x24\xb9\x67\x24\x14\xee\x62\xba\x03\x6b\x4f\xcc\x5a\xc4\x15\xf0\x73\x10\x53\x03\x19\x5f\x9b\xb0\xf1\x21\x55\x42\x61\x30\xc6\x8e\x89\x6b\x8c\x91\xdb\x09\xea\x9b\x56\xee\xb4\xf6\xe3\xf1\xa4\x99\xc1\xbb\xf7\x78\x6e\x36\x31\xb2\xbe\x0a\x95\xaf\xf6\x00\xbe\x08\xb9\x2c\xb8\x95\xb3\xb7\xa5\x59\x59\x84\x30\x82\x2f\x1f\x92\x27\x9b\x59\x72\xed\xa5\x08\xf6\x5b\x0a\xe7\xf0\xb3\xff\xfb\x97\x7f\xa1\x45\x28\xa7\x25\x8e\x49\xe0\xaf\xf4\x3b\xec\x1a\x20\x1a\xe7\x30\x69\x66\xef\xce\xb0\xf1\xbd\x31\x73\x46\x57\xe2\x21\x10\xc5\xb7\x59\x1c\x59\xed\x00\x48\x94\x3a\xff\x71\x86\x09\x2e\xac\xd5\xd6\xe8\xee\x40\x59\x95\xa7\x28\x57\xce\x91\xc7\x8e\xd1\x08\x81\x9b\x42\xac\x81\x6a\xce\xf1\xbe\xa2\x0f\xf1\x83\xde\x17\x8a\x47\x4a\x87\xfa\xb4\xdb\xa3\x01\xab\x30\x50\xbd\xf0\x19\xf5\xcb\xaf\x71\x96\x33\xa3\x40\x7f\x6d\xd4\x39\xae\xbb\xe9\x45\x24\x13\x33\x86\xd7\x3d\x16\xd4\x69\x43\xa5\x48\xbd\xc5\x6d\xc3\x0c\x01\x4c\xdd\xcc\xb0\xd7\x53\x0e\x39\x7e\x9d\xea\x42\x93\x37\xa9\x43\x55\xa1\x85\x57\x0a\xec\x54\x38\x53\x18\x58\xdd\x0b\xe0\x57\xec\x9d\x4b\x6e\x65\x24\x5e\xb4\x40\x13\x4f\xe7\xc5\x09\x74\x8f\xb9\x2d\xd2\x76\x86\x81\xd1\xed\xb6\xc2\x46\xb3\x77\x3a\x20\x0c\x52\x61\x27\xc3\xbe\x99\x61\xd8\xeb\x93\x78\xc9\xa8\x3d\x4e\x89\x4b\x4a\xec\xb4\xfe\x9b\x41\xae\xc2\xbe\xbf\x84\xa2\x0a\xa9\xfa\x82\x0e\x8e\x41\xe5\x77\x6a\x6c\x8d\x1f\xbf\xda\x79\xae\x09\xa7\xa5\x34\x31\xa1\x93\x53\x75\x78\x0c\xcd\x11\x62\x65\x5b\x15\x64\x94\xe0\x7d\x19\xfa\xc0\x4b\x51\xec\x24\xab\x37\xe6\x85\x13\x63\x60\x54\x97\xe1\x78\x37\xc8\xe8\x8c\x72\xe0\x29\x6a\xed\xf4\x02\x53\x99\xa8\x80\x94\xc6\xc0\x58\xb8\x0d\x7f\x37\x68\x35\x90\x51\x73\xa3\x13\x84\x1b\xde\xd5\xe1\xcc\x99\xfb\x1b\x4a\xb2\xa7\x79\x1e\x6b\xe0\x87\x9d\x4b\xb4\x07\xf1\x67\x68\xf0\x46\x10\x19\x4d\xc0\xd1\xd8\x5a\x87\x07\x29\xb3\xec\x8c\x8c\xa6\xde\x50\x44\x5f\x2b\xda\x82\xc6\x2a\x35\x0c\x8d\xce\xce\xc1\x5d\x3c\x69\xd5\x9d\xf1\xf3\x54\xf7\xe0\x69\x9e\x57\x0f\xd7\x84\x4b\x46\x72\xcc\xa6\x49\xde\x18\xa7\xf0\x39\x13\x53\xc2\xb3\xb7\xa5\xba\x24\x74\xd6\xbe\x59\x9b\xd0\x16\x49\x3f\x07\x7f\xc2\x2d\x95\x8a\xd5\xc7\x2d\xa5\xda\xaf\x56\x87\x15\x6b\xaf\x6a\x35\x68\x74\x98\xe9\x36\xec\xaa\x87\xad\x86\x7b\x9f\xa4\x73\x35\x43\x02\xcf\x20\x3e\x23\x99\x11\x07\xf3\x0e\x11\x68\xd1\x72\xd1\x3a\x46\x94\xd7\x84\x93\x42\xd8\x70\xe5\x57\x84\x8b\x98\xe3\x1a\xe2\x45\x8c\xf6\x3d\xc6\xf6\x1f\x1b\xca\x97\x6d\x77\x9e\xbe\xbd\xf9\x2e\xfd\x25\x36\xc6\x76\x80\xd7\x25\xf4\x63\x18\x7d\x16\xf5\xec\xbc\x95\x5a\x75\x67\xc2\x04\x30\xea\x2c\x4c\x69\xbb\xa5\xdf\x55\xda\xb1\x86\x48\x11\xa9\xfb\x60\x7e\x55\x41\x49\x5f\xd0\x52\x4d\xea\x56\x13\xa3\x9b\xfe\xb4\xee\x6e\x14\x5e\x97\xb4\x9a\x6d\xe1\x41\x3f\x6e\xe3\xa1\xc8\xfa\x31\x88\xb8\x6d\xf5\x25\xa7\x1f\xdb\x92\xb6\x09\x5a\x54\x06\xd9\x76\x6d\x33\x83\x3d\x01\x51\xaf\xc6\x1c\x2a\x66\x6a\xfd\x28\x6c\x74\xe0\xec\x3a\x11\x4a\x7f\x6e\x46\x03\x3a\x36\xe2\x47\x14\x2a\x7b\x10\xec\xd3\x7d\xbd\xbe\xf5\x50\xed\xd2\xb9\x48\x43\x8a\xe2\x6a\x4b\x4d\x6c\x2a\x09\xa7\x0b\xde\x0a\x7a\x8d\x0a\x06\xf5\xa5\xf0\xd5\xc7\x5b\x41\x2f\xcb\xa6\x78\xd5\x14\x13\xca\xc5\x59\xfb\xe2\xb2\x60\xf2\x6d\x59\x57\x75\x83\x21\x71\xe6\xd4\xca\x3a\xec\xe8\xd3\x16\x37\x8b\x8e\x3b\x5d\x9e\xc6\x0a\xd5\xf4\x8a\x0a\x41\xe6\x34\xd9\x75\xbc\xc1\x8a\xc1\x87\x91\xd1\x56\xce\x9d\x54\x9e\x94\xd7\xcb\xaf\xb5\xba\x13\x8a\xc2\x38\x03\x7d\x39\x94\xfe\x3c\xe2\x96\x15\x1a\x2a\xba\xb6\xbe\xbb\x75\xc5\x95\xb2\xdb\x55\x66\x45\xc0\xdb\x25\xd6\x05\x11\xb0\x20\x99\x1e\x3b\x54\x54\x55\xa5\xbc\x0c\x0f\x62\x32\xcc\x0a\xb7\xf2\xed\xdf\xd6\x95\x0b\xaa\xa1\x68\x47\x4a\xa4\xd6\xe8\xbb\x5a\x2e\x0a\x33\x66\x5b\x5d\x5a\xd1\xa2\x63\x82\x50\x8c\xc6\x45\xa5\x81\x74\x2b\xb7\x3b\x6b\xb6\x3b\x2b\xb1\x77\x23\xc7\x21\x2f\x52\xd9\x39\x64\x03\x7f\x55\xb4\xdd\x86\x81\xca\x0b\xd9\xdd\x94\xb4\xbd\x15\x35\x5d\xa0\x2e\x4b\xd5\x1b\x92\x8b\x0a\x48\x96\x99\x3d\xac\xb4\x3d\x34\x3c\x0f\x77\x97\x8e\x23\xd3\xf5\x14\xef\x0e\x8f\x8c\x12\xbf\x26\x72\x91\xec\x1b\xe8\x56\x05\xcf\xd2\xa3\xcc\xa1\x12\x89\x92\x4f\xae\x31\x23\x08\x53\x34\xb1\x6d\x47\xd4\x98\xbd\xd1\x6d\x8a\xb5\xa7\xc4\x5c\x02\xf6\x34\xda\x0b\x72\x76\x8f\x5e\x2b\x91\x86\x6b\x45\x25\x55\x7e\x01\xd3\x07\xa4\xc4\xab\x57\xdf\xe3\x39\xfa\x5a\x5f\xf2\xd2\x6d\xa8\x27\xa7\x55\x41\xf5\xdd\x83\x76\x92\x8c\x89\x29\x5e\x9d\x5f\x82\x58\x0a\x49\x8b\x11\x08\x75\xe2\x3b\x67\x77\x34\x5f\x5a\xa1\x43\x31\x82\x68\x51\x09\x79\x86\x12\x1d\x19\x05\xda\xa1\x20\x76\x53\xd9\x43\xc3\x83\x99\xdb\xe3\x2b\xd0\x6c\x06\x9f\x59\x91\xfb\x96\x88\x6b\x4e\x67\xec\xd1\xcd\x38\x82\x08\x77\x65\xa4\x23\x72\x87\xc7\xb9\x6e\x3e\x1b\x8f\x23\xf8\x3f\x8e\x13\x28\x95\x41\xe3\xb4\x60\xc3\xf3\xf4\x1a\xbd\x13\x07\xed\xe0\xb3\x5c\xe8\x5c\x34\xa1\xb9\x7c\x8b\x91\x65\x4f\xc4\x61\xea\xaa\xfa\x96\x42\xf4\xaa\xd2\x0b\xe9\xa5\xb7\xf5\x21\x7a\xc5\x10\x9d\x0c\x42\x40\x0f\x15\xbf\x1b\x81\x4e\x99\x83\xb1\xf4\x18\xf8\xe1\x35\x3a\xae\xfd\x4d\xfd\x96\x21\x0b\xa3\x36\x6d\x8b\x87\xc4\x82\xc3\x63\xa1\x60\xb5\xc2\x4b\xb9\x9b\xc1\x8f\x41\x1a\xdf\xaa\x0c\xa0\x75\x36\x10\x12\x2b\x33\xfa\xb8\x3d\xe2\x6b\x3b\x46\xf9\xf8\xdb\x51\x85\xa5\xb8\xaf\x98\x8f\xce\x86\xfa\x6f\xb0\x63\x5c\xcf\x85\x5c\xaf\xb2\x6f\x6a\xf5\x83\x69\x63\xe3\x41\x06\xd3\xaa\x5e\xbe\xbd\xf9\x2e\x6e\x46\xe0\xf7\x7f\x46\x04\x45\xf5\x81\xe9\x63\xdb\xb5\xf5\x0e\xb6\xb1\xea\xfa\xa5\xdd\x1c\xb1\xe1\x4c\x4f\xe1\x7f\xab\xaa\x1f\x6c\x16\xf6\xad\x6f\xdb\xae\x66\xe7\x77\xfb\xd3\xa9\xab\xde\x0a\xff\xce\x75\x87\xd3\x3f\xd5\xca\x0f\x25\xd2\xd1\x69\xd9\x21\x12\xe6\x50\xc4\x4e\x7a\xbd\x13\x06\x4a\xf3\xd8\x75\x9c\x10\x41\xe1\x04\xf7\xf0\xdb\x9b\xef\x46\xaa\xb8\x64\x4c\x6b\xe2\x9a\x71\xff\x96\xe8\x17\x9c\x9d\xc3\x09\x0e\xd0\x8f\xaa\x90\x60\xc2\x03\xc7\xce\x2f\xf1\x8d\x49\x30\x5c\xc8\x47\x5b\x1a\x7d\x83\xfe\xed\x54\x9d\x71\x6f\xb8\x49\xd5\xa0\x38\xda\x8d\x2b\x2b\xa8\x9b\x3c\x57\xed\xc6\xce\xd1\x0c\x3d\x0c\x01\x55\x83\xa6\xdb\xba\xaf\xc6\x2c\xa9\xf4\x8e\x31\x7b\x85\x75\x61\xfd\x00\x14\x7d\x05\x93\xee\x48\x01\x5e\x55\xd2\xdc\xba\x45\x90\x08\x4b\x69\x8a\x05\xb9\xa7\x60\xbf\xa6\xb1\xdb\x25\x51\xf3\x4c\x54\xb5\xca\x5c\x3c\x53\x17\x6f\x50\xf3\x5b\xd4\xf0\x0e\xb3\xc9\xef\x13\x7b\x70\x49\xf9\x1e\x48\xd5\xd2\x25\xaa\x5d\x69\xcf\xbf\x16\x47\xb9\x33\xb8\xa6\xb4\xdc\xe5\x9d\x2e\x27\x7b\xb7\x42\x86\xed\x81\x9f\xf1\xe9\xe9\x64\x2a\x6e\x3b\xae\x4d\x1e\xe0\x1d\xfe\x64\x05\x65\xe7\xf1\x98\xcc\xaf\x5f\x47\x76\x36\x43\xd7\x7d\x13\x94\x2a\xe4\x35\x6a\x94\xa1\xe3\x31\x7b\x15\xf6\x66\x4a\xaa\x57\xd9\xec\xcc\x48\x6d\xc6\x57\x26\x1d\xa5\xbd\xb1\xcd\x94\x94\xcd\xd2\x98\x69\xec\x68\x9d\x9e\x69\x63\x9f\xcd\x94\x94\x69\xc6\xc0\x57\xbb\x79\xa6\x4a\xe2\xde\xa0\x43\x4d\x54\x3a\xe0\xff\x7d\xfd\xb5\x5f\x2e\x1a\xc1\x83\xa9\x89\xa8\x84\x67\xcd\x29\x3a\x39\x44\xed\x07\x52\x2a\x58\xca\x29\x50\x82\x4a\xa4\xc4\xef\x22\xe0\xfe\xd1\x54\xf8\xfb\xcf\x24\xb0\xa1\xd0\x21\x4c\x8b\xa3\x45\x62\x6f\xca\xcc\x1e\x0f\xe9\x49\x99\xf5\xb2\x7d\x77\xc6\x4c\x4f\x7a\x7c\xca\xec\x98\x0c\xd8\x39\x76\x49\x2f\x5f\x7f\x33\x98\x04\xc3\x2c\x76\x9b\x1b\x47\xc1\x50\x2c\x00\xe4\xe3\xd2\xcf\x7a\x6d\xb8\x3f\x7d\xb0\x30\xa1\xd6\x93\x4f\x73\x40\x0d\x38\x0d\x8f\x7b\xb5\x08\xf8\xac\x53\xf8\x78\xfd\x8b\x9d\x53\xcc\xe2\xcd\x4a\x44\x32\x82\xc8\x93\x99\x33\xf8\xea\x8b\xec\xab\x68\xd4\x99\xc3\xcd\x8d\xee\x08\x12\xbc\x4f\x9a\xc3\xa3\xf3\x7a\x83\x69\xbd\xa1\xac\xde\x3a\x3c\x3c\xa7\x27\xea\xe4\xc9\xfe\x45\xf0\x99\x62\x09\x36\x9d\xbe\x6c\xcf\x3a\x07\xdd\xbc\x8c\xaf\x80\x2e\xcb\x23\x15\x90\xeb\xe9\x39\x06\x5b\x2e\xc1\xa9\x51\x55\x07\xb8\x50\x3b\x73\x41\x2e\x7b\x1e\xba\x68\xd7\xa4\x83\x80\x1c\x9e\x30\x57\x5f\x88\xc0\x9d\x7f\x4f\x38\xab\x1a\x01\x68\x4e\xd0\x0b\x43\xbb\x1c\x8c\xc7\xdb\xc6\x37\x46\x3f\x62\x04\x2a\x61\xa6\x6b\xda\xb8\x49\x12\xab\x0a\x0e\x20\x6b\xb7\x2e\x50\x5d\x06\x8e\x90\xb9\xd4\x11\x7e\xe6\xe9\x9e\xe4\xb8\x16\x51\x64\x32\x93\xba\x69\xf7\x0d\xff\x0d\x66\x98\xd9\xb4\x90\xdb\x0c\x27\xa7\x1f\xc3\x70\xc3\x7c\x0d\x86\xc6\x9b\xfd\x86\x63\x6f\x9d\x95\x78\xa3\x74\x36\x5e\x83\x97\x0b\x4c\xfc\x92\x82\x4a\x2c\xdb\xe0\x5d\x6d\xb9\x40\xb4\x6d\x24\xa7\xce\x50\xd9\xa2\xd2\xc6\x35\x50\x41\x55\x7a\xa8\x93\xeb\xc4\x59\xde\xe8\x76\x97\xec\xb4\x1d\xd7\x9b\x97\x41\xd1\x65\x8c\xc6\x0a\xff\xbe\x68\x0f\x71\xd9\x5d\x3c\xd8\xd4\x41\xa8\xe7\xaa\x26\xcf\xca\xaf\x64\xbb\x7b\x35\x95\x5f\x7c\x8c\xb4\xf3\x69\x35\xa8\xe6\xca\x0d\x79\x30\x4e\x66\x63\x7f\xbb\x77\xee\x05\xfe\xd8\xe0\x9c\x12\xbc\x2e\xeb\xd4\x81\x8b\xde\x8c\x35\x2a\x38\x59\xd4\xa6\x3c\x6b\x16\x58\x16\x75\x97\x9d\x43\xb9\x6b\xb0\x7c\x3c\x85\xc3\xd2\xc6\x6c\xa6\x36\x84\xe9\x76\x43\x6b\x8a\x39\x46\x3b\xec\xa5\x78\x46\x3c\x8d\xda\x42\x8e\x2f\xec\x77\xf2\x4c\xcf\x17\x15\xf6\x82\xc8\x2e\x7f\x94\xd8\x11\x9a\xd4\x77\x91\x4b\x51\xff\xd2\xe5\xe3\xcd\x49\xec\xf7\x5a\x84\x53\xd7\xe3\x82\x14\x34\x6f\xcf\x9b\x1b\x39\xc8\x85\x7b\x36\x0e\x9f\x77\x09\x63\x68\xbc\xad\x87\x18\x34\xd2\xa7\x59\x16\xef\x40\x65\xe4\x7d\x5c\x2a\xbe\xc7\x9c\x57\x5b\x37\xe9\x48\x23\xe2\x44\x73\x4c\x14\x77\x18\xf8\x52\x60\x0e\xd7\x3e\xbd\x91\x84\x5f\x3e\xd6\x26\x03\xaf\x84\x73\x10\x4f\x5f\x62\x3f\x09\xdd\x59\x1c\x7d\x91\x45\x23\x38\x19\x9a\xa2\x4b\x4d\x8b\x7e\xc5\x21\x46\x73\xbf\xb5\xe6\xc9\xa6\x58\x58\x3a\x64\x61\xae\xd3\x6d\x1c\x3f\x19\x9c\xd9\x91\xbf\xb9\x37\x7b\xb7\xa7\xd9\x9d\x33\xc2\x72\x7d\x3e\xc8\x6e\xce\x21\xf8\x51\x77\x9d\x8c\xa6\xb5\x8a\x29\x96\x45\x9d\x84\x47\x71\x55\x43\x48\x3c\x46\x59\xd2\x57\xab\xf1\xc9\x1f\xfe\xf5\x6f\x7e\xf8\xfd\x3f\xff\xf0\x4f\xff\xf6\xc3\xdf\xff\xee\x8f\xff\xf8\xb7\xff\xf9\xef\xff\xf1\x87\xdf\xff\xdd\x0f\xff\xf2\xbb\x3f\xfe\xee\x1f\x4e\xc6\x2e\x7c\xd6\x79\xa4\x4f\x92\x84\x1f\x27\x08\xf1\x81\x12\xb0\x41\xd9\x27\x4c\xb4\x6f\x9e\x36\x0b\xe0\x36\x8f\xa7\xa0\xdc\x93\x79\x58\xaf\xbb\x3a\xae\xc2\x52\xd8\x50\x71\x6c\x5b\xd1\xa9\xee\xc3\x8a\xae\x05\x5b\x3b\x43\xa4\x87\x18\x27\xd0\x40\x34\x4a\xd1\x74\x33\x1b\xda\xbe\xc2\x75\xab\xf0\x5b\x19\xfa\x04\x8f\xa1\xdf\x74\xf5\x18\xa0\x8e\x84\x5b\x10\xaa\xa4\x67\x0c\xb6\x17\x6c\x6e\xb3\xdc\xf4\x3f\x68\x97\x57\xb5\xf4\xa6\xee\xb2\xbd\xbb\xbe\x9d\x2d\x6e\xfa\x77\xf6\xb8\x69\xdb\xdc\xe4\x3f\x31\xad\x43\x3a\xa3\x97\x10\x3b\xa8\x5f\x63\x1c\xad\x33\x5e\x50\xb9\x39\x45\x9c\x58\xa5\xe1\xd8\xb5\x4b\x71\x1c\xb1\x56\xbe\xee\xd8\x58\x8a\x3f\x1f\x31\xea\x67\xfb\x16\xd2\xfe\x96\xdd\x78\xec\x3c\x99\x07\x95\xae\x6e\x9d\x25\xc5\x1c\x38\x07\x83\x9f\xf6\xb3\x63\xe5\x57\x9a\x7d\x5b\x7a\x0e\xae\x4a\xf2\x46\x73\x2a\xf5\x37\x23\x7d\x07\x0a\xdd\xf5\xae\xff\x24\xab\x1b\x2a\x3f\xd5\x65\x3e\xc4\x8f\x3a\xdd\x53\x7d\xef\x9e\x02\x18\x9f\xc0\xeb\x32\x5f\xaa\xef\x4f\x21\xc2\xaa\xb7\x30\x55\x40\xb1\x40\x37\x13\x26\x2e\xc5\x86\x63\xb1\x30\x83\x17\x3d\x15\x67\x2b\xb9\xf0\x4f\xc6\x56\x05\x93\xe8\x84\x65\x8d\xfa\x72\x0e\x06\xf3\xac\xa4\x42\xc0\xc9\xd8\xcc\xa8\xc8\xef\x55\xbd\x7b\x5c\xa9\x56\x23\x77\xd6\xcf\x6c\x96\xcd\x38\xf9\x6a\x7f\x94\xdc\x86\xc9\x83\x85\xed\xe1\xca\xf6\x60\x69\x5b\x6d\x1b\xbc\x58\xe2\x3c\x7d\x87\xa1\x53\x1c\x7b\xbf\x62\xb6\xcb\xe1\xd7\x71\xa7\xca\x6b\x60\x2e\x0a\xbd\x18\xf8\xe2\x3e\x1a\x81\xe2\x6c\xeb\xf6\x3f\xc3\x0e\x2e\x53\xe3\xbe\x0f\x1a\xe3\xd1\x49\x81\xe7\xe8\x9f\x35\xb3\x19\xe5\x31\xe2\xea\x9f\xfe\x06\xff\x7c\x85\x09\xda\x83\xed\x8f\xa6\xed\xfd\xe0\x8a\xfb\x86\xea\xa1\x05\xcc\x57\x4f\x6f\xdf\x7c\xca\xe5\x12\x7b\x02\x0f\xc7\x83\x4e\xfa\xba\x67\x73\x25\x15\x71\x41\x44\xcb\x11\x08\x7e\xaf\x9f\xdd\x37\xf1\x4c\x98\xbb\xfd\x39\xbe\x43\x6f\x8b\xe2\x42\x9a\x33\x07\x98\xa9\xad\x4a\xa5\x5c\x1b\xfa\xa6\x99\x88\x29\x67\x13\xfd\x51\x9b\xad\x8b\x9d\xfe\xc7\x43\x30\xd0\xed\xeb\x83\x4a\x99\xdf\xfb\x3d\x15\x10\x7a\x25\xe6\x8a\xb4\x64\x38\x37\xe3\x3e\x82\xe7\x36\x8e\xb7\xa6\xab\x55\xe7\x1b\x1b\xe4\x8e\x7a\xdc\x3f\xf4\x7b\x35\x38\xe4\x80\xef\xd5\xb4\x90\xf7\x5e\xab\xe9\x7c\x6d\x37\x75\xfc\x33\x97\x15\x12\x7f\xe1\x06\xbe\x53\xb3\x1b\x82\x39\x74\xf1\xe7\xf7\xb9\x9a\x96\xae\xbd\xf7\x63\x8d\x0a\x74\x02\x71\x06\x5d\x9a\xf1\x76\x89\x23\xfb\xa8\xcf\xd5\xe0\x42\x79\x3d\x8c\xf1\x19\x99\x7b\xf8\x97\x65\x6f\x1f\xaf\xaa\xd8\xf6\xd8\x38\xc5\x74\xec\xf7\x6c\xbc\x55\xf6\x2e\x32\x1c\xff\x3d\x1b\x0f\x8e\x3b\x12\xbd\x9f\xb9\x1e\x79\x00\x70\xd2\xe5\x6e\xcb\xda\xad\x2f\xd5\x98\x99\x36\x2b\x29\x43\xf3\x78\xb9\x7c\x64\xd9\x6a\xd5\x65\x7b\x7f\x4d\xa9\x10\x73\xa3\xcd\xae\xc4\x7c\x38\x85\xbf\x7d\xba\xb5\xef\x72\xe7\x8e\x33\xf2\x85\x98\xa7\xcf\x95\x11\xeb\x3f\xd5\xd9\x77\x08\xc1\xca\xf2\xc0\x4d\x51\xc3\x1e\x93\xe7\x6d\x8f\xe5\xf5\xc8\xcb\x66\x2a\x56\x11\x7c\xc0\xb1\x3c\x4c\x13\x42\x35\xf9\x0d\x1e\x37\x31\x99\x56\xe1\xd6\xcb\x7e\x37\xe4\x8a\x94\x4b\x5d\x5d\xc2\x9a\xa3\x3d\x7e\xa2\x3f\x1f\xd8\x60\xcc\x81\x25\x1e\x44\x0f\x15\x60\x29\x18\x16\x18\xcd\xdd\x25\xa3\xd4\x06\xf1\x1e\xa8\x03\xe2\xbc\xc6\x2f\x1f\x41\x39\xed\x98\x23\x57\x01\xe9\x4f\xbd\x5a\x3e\x77\x64\x50\xcf\x8f\x24\xf8\x13\x9b\x89\x70\x86\x16\x6c\x72\xcc\x09\x22\xa4\xc8\x64\xe3\x6d\xdb\x11\x27\x88\xbc\xd1\x7b\xbe\x52\x81\xe4\xff\x77\x7f\xa5\xa2\xc5\x6e\xdb\x25\x18\x34\x40\xd7\xcd\x24\x67\x62\x41\xf9\x31\x07\x84\x86\x3f\x51\xe1\x2b\x04\xdf\xd4\x7b\xba\x27\x38\xe6\xd3\x13\xf6\xb0\x4a\x5f\xf7\xf3\x6d\xab\xe0\xa8\x51\x46\xc1\xfb\x06\x45\x10\xf4\xfa\x1e\xbe\xb5\x88\x4c\xc7\x1e\xd1\xf7\xcf\x9f\x3c\xa7\xfb\x6c\xc4\xf6\xc1\x93\xcd\x73\x27\x9d\x73\xbe\x4e\x81\xd8\x9d\xd0\x7b\xca\xa4\x57\xc5\x9a\x38\xc8\x43\xe4\x93\xbf\x23\x81\x04\x0d\x15\xca\x87\xd4\xbb\xab\x8f\x0f\x70\xa3\x57\xc7\x1d\xf6\x1d\x09\xab\xff\xff\x64\x5f\x8c\x18\x40\xf9\x00\x93\x04\xc3\x36\x09\x8f\x05\x1e\x60\x6e\x28\xe7\x76\xbe\x2d\xb3\x33\x1e\xc3\xb6\xe5\x19\x8f\x61\xed\x41\xb7\x83\x53\x75\x37\xc0\x0e\xfe\xf2\xcb\xed\x77\x29\x56\x67\xe1\xfc\x1c\xa2\x0f\xcc\xdc\x78\xfb\x10\x0d\x4c\x63\x2b\xd6\xdb\x40\xec\xc1\x64\x8b\x48\x4f\x95\xb7\xf7\x3b\x18\x87\x1a\xdf\xbe\xf2\xeb\x6e\xeb\xdb\xff\x61\x29\x5f\x86\x8d\x0d\xee\x37\xc1\xa6\x12\xb8\xc3\x02\x77\xaf\x12\xb9\xff\xab\x1e\x73\x1a\xc9\xa4\x35\x54\x88\x30\x60\x94\x71\xa9\xad\x46\xbf\x12\xf3\x4d\x9b\x7c\xaa\x70\xfd\x69\x0c\xf3\xa1\xbe\xd4\xbe\x1a\xa8\x65\xf9\xa0\x21\x76\x13\xa9\x1d\xe1\xc0\x25\xde\x32\xfc\xd7\x00\x07\x97\x45\x6d\x5a\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27002, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xa0, 0x24, 0x94, 0x85, 0x8c, 0x8c, 0xdd, 0xc3, 0xc0, 0x35, 0x68, 0x70, 0x13, 0x19, 0x3a, 0x86, 0x61, 0x51, 0xcf, 0x2f, 0x7c, 0xc2, 0x46, 0x61, 0x8a, 0x11, 0x70, 0x64, 0xd6, 0x25, 0xfe, 0x1f}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27226, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xc1, 0x25, 0xe4, 0xb8, 0x94, 0xf0, 0x73, 0xd, 0x2f, 0x1b, 0xa5, 0x93, 0xc0, 0xc9, 0x21, 0x24, 0x6f, 0xa7, 0x47, 0xff, 0x0, 0x3e, 0xf, 0xcc, 0xdc, 0xd1, 0xb8, 0xc1, 0xf6, 0xa5, 0x51, 0x76}}
 	return a, nil
 }
 
-- 
2.43.0


From 69e79e9e6d8b3135dbac0b3f0c61651269c07db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 33/53] fix: decode repeated strings of the query

---
 gengokit/httptransport/httptransport.go                   | 4 ++--
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 2 +-
 gengokit/template/template.go                             | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 1b3f9f6..0d14e30 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -446,7 +446,7 @@ if err != nil {
 var {{.LocalName}} []{{if .StarExpr -}}*{{- end -}}{{.GoType}}
 {{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
 if len({{.LocalName}}StrArr) > 1 {
-	{{- if (Contains .GoType "[]string")}}
+	{{- if (and .Repeated (eq .GoType "string"))}}
 	{{.LocalName}} = {{.LocalName}}StrArr
 	{{- else}}
 	{{.LocalName}} = make([]{{if .StarExpr -}}*{{- end -}}{{.GoType}}, len({{.LocalName}}StrArr))
@@ -457,7 +457,7 @@ if len({{.LocalName}}StrArr) > 1 {
 	{{- end}}
 } else {
 {{- end}}
-	{{- if (Contains .GoType "[]string")}}
+	{{- if (and .Repeated (eq .GoType "string"))}}
 		{{.LocalName}} = strings.Split({{.LocalName}}Str, ",")
 	{{- else if and (and .IsBaseType .Repeated) (not (Contains .GoType "[]byte"))}}
 	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 1e4a282..78eadf5 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -635,7 +635,7 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 		{{- range $field := $binding.Fields }}
 			{{- if eq $field.Location "query"}}
 				{{if and $field.Repeated $field.IsBaseType}}
-					{{- if (Contains $field.GoType "[]string")}}
+					{{- if eq $field.GoType "string"}}
 					values["{{$field.QueryParamName}}"] = req.{{$field.CamelName}}
 					{{- else}}
 					for _, v := range req.{{$field.CamelName}} {
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 32943b3..a4b37dd 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.226kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.216kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4b\x8f\x1c\xc9\x71\xf0\xb9\xea\x57\xc4\x16\xf6\x51\x35\x5f\x4f\xf5\x7e\x1f\xf0\x19\xf2\x10\x63\x80\x1c\xce\x72\x29\xed\x90\xa3\xe1\x50\x7b\x20\x08\x2a\xbb\x2b\xbb\x3b\x35\xf5\x62\x66\xd6\xcc\xb4\xda\x7d\xf1\x45\x06\x6c\xc0\x80\x4f\x3e\x18\x82\x4f\xbe\x1a\x3e\xfb\xf7\x68\x0d\xfd\x0b\x23\xf2\x55\x59\xdd\x55\xfd\xe0\xae\x0c\x19\x30\x01\xed\x74\x65\x65\x46\x46\x44\x46\xc6\x33\xb3\x34\x1e\xc3\x45\x95\x51\x98\xd3\x92\x72\x22\x69\x06\x93\x25\x4c\x08\xaf\xca\x14\x9e\xbf\x86\x57\xaf\x6f\xe1\xf2\xf9\xcb\xdb\x34\x1c\x8f\xe1\x86\xf2\xa6\x2c\x59\x39\xd7\x1d\xe0\x81\xe5\x39\x54\xf7\x94\x3f\x70\x26\x29\xc8\x05\x13\x30\x63\x39\x55\x9d\x7f\x45\xb9\x60\x55\x79\x06\xab\x55\x6a\x7e\xaf\xd7\xde\x0b\x78\x4e\x24\xf5\xdf\xe2\xf3\x7a\x1d\x86\x35\x99\xde\x91\x39\xc5\x37\xd7\xfa\xe7\x2b\x52\xa8\x37\xe3\x31\xdc\xda\x39\x60\x5a\x95\x92\xb0\x52\x40\x41\xe5\xa2\xca\x04\xc8\x0a\x0a\x72\x47\x81\x95\x19\xbb\x67\x59\x43\x72\xa0\x65\x56\x57\xac\x94\x02\x66\xbc\x2a\x40\x50\x7e\xcf\xa6\x54\x8c\x10\x0d\x4e\x3f\x36\x54\x48\x20\x65\x06\x9c\x8a\xba\x2a\x05\x05\xb9\xac\xa9\x82\x84\x5d\x91\xa2\x4a\xd0\x16\xca\x08\x88\x80\x07\x9a\xe7\xf8\x97\x96\xd3\x2a\xa3\x5c\x20\x00\x84\x97\x51\xf3\x3c\xab\xb8\x19\xa8\xa0\x8d\x54\x03\x41\x4e\xcd\xa0\x6a\x38\x88\xa6\xae\x2b\x8e\x9c\x96\x9c\x94\x02\x7f\x23\x66\x8c\xe4\xec\xb7\x44\xb2\xaa\x44\x68\xb3\x8a\x17\x44\x8a\x34\x0c\x59\xa1\x7a\xc4\x61\x10\x4d\x96\x92\x8a\x28\x0c\x22\xa4\x9d\x3e\x4a\xfc\xa9\xd0\x60\xe5\x7c\xfc\x1b\x51\x95\xd8\x30\x2b\x54\x3b\xab\xf4\x7f\xc7\xac\x6a\x24\xcb\xf1\xa1\xa4\x72\xbc\x90\xb2\xb6\xbf\x1b\xae\x9a\x85\xe4\xd3\xaa\xbc\x37\x3f\x59\x39\x17\x51\x18\x06\xd1\x9c\xc9\x45\x33\x49\xa7\x55\x31\x9e\x57\xa7\x77\x4c\x8e\xf1\x7f\x96\x17\x51\x18\x90\x72\x59\x4f\x20\x9a\x57\xd5\x3c\xa7\xe9\xbc\xca\x49\x39\x4f\x2b\x3e\x1f\xd7\xbc\x92\xd5\xa4\x99\x8d\x15\xfd\xe3\xbb\xb2\x7a\x28\xc7\xaa\x77\x14\x06\x59\xc3\x15\x91\x47\x0c\x6d\x87\x44\x61\x40\x8b\x5a\x1e\x33\xaf\xe9\x1f\x85\xc1\x8c\xd1\x3c\x2b\x88\xb8\x3b\x62\xb4\x37\x26\x0a\x03\x21\x79\x33\x95\x47\x0c\xb7\x03\xa2\x30\x90\xac\xa0\x42\x92\xa2\x3e\x62\xb8\x37\x26\x0a\x83\x07\x4e\xea\x9a\x72\x71\x04\x80\x76\xc8\xf6\x92\x72\x96\xe7\x64\x5c\x34\x8f\x51\xf7\x4d\x7d\x37\x1f\x53\xce\x2b\xae\x24\x6d\xc7\x44\x4e\xf2\x54\x8b\x15\xbf\x1d\x03\xd4\x0f\x44\x64\xb5\x3a\x05\x36\x03\xfa\x11\xd2\x8b\xaa\x9c\xb1\x79\x7a\xeb\x76\x42\x44\xf2\x3c\x82\xa8\x24\x52\x44\xb0\x5e\x77\x71\xc3\xd6\x53\x56\xa9\xbf\xe9\x1c\x25\x1c\x41\xd1\x32\x5b\xaf\x0f\x82\x3a\xe7\xf5\xd4\x42\xdd\xc2\x53\xbd\x1c\x7c\x33\x2e\xa8\x24\x19\x91\x64\x73\xd2\x83\xa7\x44\xf8\xed\x8e\x1f\xd8\x5f\xae\x83\x45\xc7\x9b\x0b\xf7\xee\x11\x00\xb0\x7b\x74\x10\x5b\x5a\x66\xe3\xaf\x23\xa6\xc0\xee\x1d\x1c\x93\x30\x0c\xef\x09\x87\x38\x0c\x3e\xc0\x39\xcc\x0a\x99\xbe\xa9\x39\x2b\xa5\x7e\x56\x0a\x2c\xbd\xa8\x8a\x9a\x70\xaa\x9b\x8c\xf6\x49\x9f\xca\x8a\xe9\x96\x0e\x99\xe9\x2b\xfa\xf0\x86\xf2\x7b\xca\xf5\x4b\xad\xcd\xd2\x57\x55\x7d\x91\x57\xa2\x6d\x4d\x2f\xaa\x7a\xa9\x1f\xb4\xf0\xa6\xdf\x73\x52\x87\xc1\x78\x0c\x66\x3d\xad\x18\x6a\x1d\x8f\x5d\x95\x4a\x4a\x9f\x96\x6a\x5c\xab\x64\xd2\xe7\xe6\x27\x36\x1b\xf5\x91\x5e\xe2\x5f\x6c\xb0\x5b\x3a\x7d\xa3\x7e\x60\x93\xb7\x4d\xd3\x5b\xfb\x1b\x5f\xb4\xdb\x0f\x7b\xb3\x72\xfe\x2b\x92\x37\x8a\x6e\x4f\xaf\xa4\xdf\xe0\xef\x2b\x22\xee\xc2\x24\x0c\xc7\x27\x07\xfd\x83\x4b\x6b\x93\xc0\x36\xed\xff\x37\x56\x16\xf4\x65\x09\x04\xed\xcd\x3d\xe5\x23\x60\xf2\x2b\x01\x8d\xa0\xb3\x26\x57\x66\x6a\xd6\x94\x53\xe4\x82\x00\xb9\x20\x12\x4a\x8a\x56\xaa\x82\xaa\x56\xbe\x01\x54\x38\xb6\xa6\xfc\xd4\x9a\x01\x04\x38\x21\x82\x89\x14\xbe\xa9\x38\xd0\x47\x52\xd4\x39\x1d\xc1\xb2\x6a\xa0\x60\xf3\x85\x84\x9a\x08\x34\x91\x1e\xc2\xb2\x02\xe2\x26\xd2\xf3\xd4\xbc\xca\x9a\x29\x15\x08\x8e\x94\x4a\x02\xd2\x6f\x49\x99\xe5\x88\xe3\x03\x93\x0b\xa0\x64\xba\x30\x96\x1e\x62\x3b\x7b\x02\x0f\x8c\xd3\x0c\x9a\x1a\x91\x24\x20\x6a\x3a\x65\x33\x36\x85\x9a\xc8\x45\x0a\xf1\x4b\x89\x00\x99\x80\x9a\x57\x13\x32\xc9\x97\x40\xa0\x60\x42\x6a\x2f\x01\x32\x2a\xd8\xbc\xc4\xa1\xac\xbc\xaf\xee\xd0\xdc\x53\x40\x61\x63\x53\xea\xbc\x0a\x85\x22\x45\x38\x2d\x05\x5a\x06\x80\xb5\x9c\x4c\x93\x70\x3c\x76\xdc\x9d\xe6\x8c\x96\xb2\xcb\x5d\x59\xc1\xb4\xca\x73\x3a\x95\x9e\x83\x92\x2f\x61\x5a\x95\x1a\x1c\xcd\x3c\x77\x85\x95\x48\x10\x02\x14\xac\x9c\xe7\xda\x31\xd1\xbc\x62\xc8\xe1\x82\x22\x1e\x3e\xbe\xac\x94\x94\xcf\xc8\x94\x0e\xad\x04\x02\x73\x93\xf5\x3b\x49\x0d\x4e\xd6\x7a\x25\xca\x59\xc0\x0d\x78\x61\xe8\x99\x56\xc5\x84\x95\x8a\x4f\x85\x41\xd1\x5b\xd8\x91\x71\xa5\x64\xc3\x4b\x60\x12\xf9\x8a\x08\x4e\x49\x9e\x53\x8e\x1e\x13\xb1\xc8\xa6\xa1\x22\x67\x8b\xa1\xab\x30\x78\x5b\x3a\xfa\x68\xb6\x5a\xa5\x76\x84\x76\x01\x8d\x26\x58\xad\x38\x29\xe7\x14\x3e\x67\x70\x76\x0e\xae\xcf\x95\x5e\x32\xd4\x63\xab\xd5\xe7\xcc\x8c\xb1\xb3\x00\x80\x23\x35\xb5\x8d\xe1\x6a\xa5\x95\xab\xf6\x2e\x6d\xb3\xd8\x3f\x05\x0a\x30\xc4\x1e\x11\x09\x78\x93\xc6\x53\xf9\x08\xc6\x4b\x43\xd3\x80\x7f\x47\x28\x30\x27\xab\xd5\x8b\x0a\x11\x83\xcf\x59\x7a\xa3\x5d\xd0\xdb\x65\x6d\x09\x4c\x20\xde\xe8\xa1\x1d\x53\xaf\xcb\x48\x2b\xb8\x04\x56\x61\x60\xfd\x56\xd5\x86\x88\xd2\xb4\x87\x72\x44\x06\x27\x4f\xc2\x00\x8d\x15\xe7\xf0\xd9\x39\x94\x2c\x47\x08\x81\x59\xaf\x92\xe5\x0a\x48\x18\xac\x43\xdb\x66\xa1\xa7\x7b\x71\x4a\x46\x08\x2f\x5c\x3b\x76\x22\x33\xaf\xc8\x9d\xc7\x9e\x70\xb5\x52\x1b\xf9\x73\x49\x11\xd1\x74\x8d\x9d\x4f\xc1\xe7\xf2\xe7\x92\x0e\x31\x1a\x61\xf5\x51\x26\x90\xe9\x92\xf6\x8a\x49\xb2\xbd\xdc\xb0\x72\xc4\xe1\xfa\xf5\xaf\x92\x0d\x0c\xdc\x8e\x5a\xad\x13\x88\x2d\x33\xfc\x66\xc5\x31\x6f\x39\x02\x4e\x3f\x22\x21\x06\x42\x1a\xef\x5b\xed\x30\x08\xee\xdd\xda\x09\x7f\xed\x10\x35\x85\x4a\x12\x06\x3d\xab\xb6\xbd\x6c\xb8\x6e\xb6\xf5\x5e\x2f\x47\x80\x62\xdd\xda\x66\x7f\x6d\xd0\x38\x3e\xcd\xf3\xcb\xc7\x29\xad\xa5\xb2\x53\x42\xab\x58\xc7\x29\x65\xa1\x30\x64\x31\x7b\xd3\xbe\x10\xa0\x96\x91\x20\x14\xcf\x27\x70\xac\xbe\x62\x59\x96\xd3\x07\xc2\x75\x14\xf8\x56\xd8\xb8\x10\x83\xa0\xba\xce\x97\xa8\x62\x50\x6d\x4a\x04\x5e\xb8\xde\x2a\xea\xa2\xf7\x94\x2f\xdd\xb2\xe1\x7e\x41\x0d\x62\xc2\x36\x05\xef\x75\x8d\x56\x83\xe4\xf9\x72\xe4\xfa\x09\x98\x92\x12\x26\x54\xd9\x1a\x9a\xe1\xb0\xc9\x12\x4a\x64\xbb\xac\xb0\x9d\x3e\x4e\xf3\x26\xa3\x99\x8e\x02\x27\x14\x51\x40\x9a\x6b\x9a\xa5\x5b\xdc\x88\x5b\x9c\x46\x10\xbd\x91\x44\x36\x22\x1a\x41\x74\xcd\xca\x79\x94\xb8\x7d\x7f\xe2\x18\x92\x0c\x8e\x77\x18\x7a\x5c\x19\xb5\xd8\xa4\x69\x2a\x94\x5b\xa0\x84\x87\x95\xa6\xf9\xec\x1c\x0a\x52\xbf\xd3\xaf\xde\x6b\xf6\xaf\xd6\x28\x5e\x9b\x1b\xa6\x67\xb7\x04\x41\x10\x79\x62\x14\x9d\xc1\x6a\x3d\x0a\x03\xdf\x8d\x5c\x87\x61\x80\xb6\xfe\x03\xa2\x82\x60\x34\x48\x87\x16\xce\xc4\x66\xf0\x61\x04\xd5\x1d\xbe\xb6\x88\xbd\xa3\x8f\xef\x9f\xc0\x67\xd5\x1d\x62\x1b\x04\x35\x29\xd9\x34\x6e\x3d\xbc\x59\x1c\x5d\x5a\x10\x96\x6e\xf8\xea\x0b\xf1\x15\x64\x15\x15\x50\x56\x12\xe8\x23\x13\xf2\x09\x08\x4a\xfd\x85\x77\x31\xa5\x72\xe9\x11\xa9\x24\x31\xf2\x9c\xd1\x9c\x4a\x1a\x5b\x0c\xd4\x3b\x4d\xc0\x41\xac\xe8\xa5\xa2\xc3\x9e\xf7\x4f\xc0\xd2\xd3\xab\x3a\xe1\xdc\xc3\x34\xee\xed\x62\x70\x6d\x19\xac\x77\xd8\x77\x64\x42\x73\x9a\xb5\x0b\xaf\xb3\x25\x73\x2a\xad\x98\xa2\x68\x3b\x46\x29\x69\x7d\x58\xd0\xd2\xbd\xad\x3c\xc9\x34\xc0\xb4\x80\x8d\xf4\x86\x32\x32\xdf\xe8\xce\xa0\x53\x30\x44\xe7\x71\xd8\x14\xfd\x17\xce\xa6\xca\xa3\x6a\x29\x80\x87\x05\x9b\x2e\xd4\x76\x11\xb4\xec\x43\xc1\x18\x6d\x33\xda\xba\x2c\x15\x37\x26\x7b\x9b\x2a\xdc\x0f\xb1\x96\xd5\xd1\xb6\xc2\xed\xd1\xc1\xe1\x10\x5d\x9f\xac\x86\xb6\x90\x1a\x19\x3a\x15\xc7\x39\x9d\x52\x76\x8f\x5a\x88\x6a\x12\xab\x59\x87\xee\x14\xde\x50\xea\xc0\x78\x50\xd4\x0b\xeb\x73\x1a\x84\x2f\x1f\x11\x51\xdc\x3d\x19\x95\x84\xe5\x02\x5d\x62\xbb\x73\x10\x88\xf5\x6b\x49\xce\xe4\x32\xdd\xa5\x2d\x3a\xb4\xc7\xc5\x8f\xe0\xe8\xff\xaa\x94\xff\xb9\x2a\xa5\x33\x74\x04\x87\x6a\x98\xc3\xd3\x0e\x87\x06\x94\x2f\x6e\xae\x2f\x90\x60\xca\x8f\x8e\x28\xd1\x39\xf3\x86\x63\x12\x56\xb4\x26\xde\x2d\x05\x90\x7b\xc2\x72\x32\xc9\xa9\x0e\x06\xe6\x37\xd7\x17\x30\xe0\xe2\x9b\x9d\xd3\x85\xec\xe2\x3e\xd1\xaa\x81\x11\x54\xca\x23\x10\x28\xfa\x9d\x0c\x8b\x92\x64\xca\xb5\xc3\x90\x0c\x4d\x84\xb6\x4c\x78\x1d\x05\x2e\xec\xbb\xf7\xc3\x90\x70\x61\xfb\xde\x3e\xa3\xb3\x8a\xd3\x18\xb1\xbd\x32\x99\xa2\xdb\xca\xf8\x94\xc9\x08\xb7\xc8\xc6\x3c\xe7\xe8\x0e\xd1\x32\x8b\x3b\xcd\x8e\x9e\x34\x4d\x13\x95\xbe\x58\xad\xe0\xb6\xfa\xae\x7a\xa0\xbc\x95\x48\x64\x15\x2e\xae\x75\xf8\xbe\x44\x8c\xf0\x25\xe5\x2b\xb4\x8d\x7b\xc5\x18\xfb\x7b\x92\x76\x06\x5d\x92\x5c\xd2\x25\xc6\xdd\xef\xd8\xde\x27\x9c\xe8\x5c\x04\xcf\x55\xee\x1b\x69\xf7\x7a\x18\x7f\x57\x75\xb8\x2c\x7b\x3b\x98\xe8\x05\x7b\x74\xb8\x90\xa6\x29\x0e\x4b\x46\xbe\xd4\x07\xd6\xb4\xb6\xc4\x6e\x06\xc3\xce\xdd\xee\x5f\x6b\xe7\xba\x6b\x63\xe6\xc1\xf9\xc9\x03\xd0\x0d\x06\x03\x6c\x70\xd8\x64\x37\x3c\xf7\xdc\x04\x4d\x26\xed\x80\xda\xd4\xc3\x4f\x56\x2d\xa9\x87\x53\xb9\x17\x4d\xb5\xc9\x62\x01\x27\xed\x54\x49\x0b\x7e\x4f\x34\x8b\xc1\xce\x4f\x1b\xce\x7e\xc0\x88\xa7\xf6\x02\xa2\x0d\x2e\x2a\x0a\x94\x14\xf9\xe1\xd1\x91\x31\x6d\xfd\x89\xe1\xac\xe1\xae\x16\xf5\xfd\xac\x1d\x8f\x61\xd7\xae\x00\x86\x2a\xd0\xc9\x83\xca\xf6\xa6\x7a\x80\xe9\xf1\x0d\xae\x8d\xca\xf8\x60\x75\x86\x72\x29\x74\x42\xc8\xa8\x4d\xab\x13\x1c\x60\x17\xb7\x62\x5a\x06\xb3\x4e\xfc\x34\xab\x0a\xc2\xca\x5d\x9d\x53\xb8\xe6\xac\x20\x9c\xe5\x4b\x9b\xa8\xf2\xb3\x5a\x5a\x0b\xef\xa2\x23\xfe\xb0\x2d\x18\x48\xcb\x0d\xfd\xd8\x0a\xa2\x0a\xa0\xbd\xa7\x6e\x0a\x43\x85\xcc\x66\xcc\x21\x21\xb3\x5b\xc9\x8f\x3b\x96\xe9\xb2\x3c\x78\x99\x76\xea\xa6\xde\x75\xd2\x23\x6c\x97\xa1\x85\xda\xbf\x04\x66\x0a\xb5\x60\x3b\x96\xb5\xce\x97\x07\xad\xd3\x4e\x42\xfa\x16\xaa\x2f\xa7\xb1\x6b\xa5\x44\x8d\x4b\x65\x47\x1d\xb0\x8f\xbc\xc5\x12\x75\xdf\x6a\x7d\x4b\x73\x4c\x90\x87\x5a\xd0\x7a\x8d\x67\xbf\xf2\x29\x32\xb0\x05\x99\xf4\xea\x79\xb2\xd9\x01\xf1\x45\x15\x7a\x37\x82\xfb\xd6\x1f\x2d\x9c\x27\x7a\xdf\x49\xa6\xa8\xba\x32\x85\x3b\xba\x54\xcb\x9d\xa1\xcb\x3a\xa9\xe4\x02\x79\x6c\x67\x31\x15\x59\x88\xef\x12\x13\x5d\x60\xd7\x3c\x87\x1c\xd7\xcb\x40\x21\x26\xa6\x52\x89\xd3\x0b\x52\x56\x25\x9b\x92\xfc\x5b\x4a\x32\xca\x7f\x41\x97\x36\xf4\xc0\x89\x44\x65\xd2\xb9\xd2\x44\x72\x16\xc4\x74\x4a\x6d\x16\x83\x32\xb9\xa0\xdc\xcc\x8c\xef\x91\x15\xe7\x8e\xd6\xef\x99\x5c\xa8\x8a\x02\xb2\x68\xa4\x68\x7d\xf7\xf5\xfb\x64\x6f\xc7\x01\xec\xe2\xbb\xa4\x85\x60\x9c\x7a\xb3\x7c\x53\xf9\xa8\x6c\xaf\xf5\xfb\x76\xff\x53\xeb\xa8\x73\xc6\x47\xfb\x92\xaf\xe8\x83\x37\x5a\x4f\xaf\xea\x07\x26\x09\x04\x13\x32\xbd\xc3\xe5\x59\xda\x3d\xa3\x93\xed\x48\x6b\x49\x55\xed\x22\x85\x97\x12\xd7\xd1\xa4\xed\x8d\xb8\xb2\x09\xc3\x90\xcc\x2e\x81\xc9\x4a\xcb\x0a\x32\x46\x72\x9d\xba\xce\x89\xa4\x1c\xa6\x58\x57\xc2\x18\x9b\xfa\x30\xb5\x80\x76\xb0\x8b\xf1\xb5\x36\x9d\xa9\xc6\xf7\xa2\x2a\xcb\x1d\x0e\xa9\xee\x64\x1d\xd2\x78\xc0\x23\xf5\xb7\x1c\x7a\x07\x9b\x59\xd3\xc0\x6b\xad\xef\xe6\xb8\xd3\x6c\xf2\xb4\x7b\x5c\x22\xd8\x8e\xee\xfc\x54\x69\xab\x03\x83\x7b\xc2\x5d\x7c\xe5\xa9\x8e\xed\x48\x33\x0c\x70\xbf\xf4\x75\x3d\xdf\xf6\x20\x0d\x97\x94\x38\x22\x63\x6c\x20\x69\x90\x5e\xaf\xd3\xbe\xdc\x6d\xe4\xfa\x59\xd8\xd1\x2e\x0f\xb2\x75\x31\x9f\xd3\x7d\x2e\xe6\x1e\x6d\xa5\x13\x65\x41\xeb\x7f\xe3\x63\xe2\x68\x8f\x55\x98\xa8\x98\x6a\xfc\xd1\xf6\x97\xfd\xe1\x36\x8c\x1d\x24\xf6\xba\xe3\x70\x6a\x40\x39\x9c\xed\xd8\x33\xbf\x62\xe1\xbd\x1f\xb5\xf3\x05\x6b\xab\x54\x51\x99\x22\xed\x60\x76\xce\x8f\x77\x53\x76\xd8\xbf\xe7\xf4\x10\xfb\xb7\xdb\xa2\x1d\xea\xa6\x18\x5b\x33\x60\xff\xf4\xe6\x37\xbb\xf3\x39\x3d\xd2\xfe\x21\x31\x37\x0a\x99\x03\x0d\x20\x76\x75\xce\x0a\x9a\xe5\xa3\x4c\x60\x9d\x2f\xfb\x6c\xa0\xbf\x6c\x3f\xde\x6d\x19\xf6\x2e\x2f\xcb\x03\xbc\xcb\xfd\x0b\xe2\x39\x99\x3b\x56\x78\xa7\x77\xd9\x59\xb5\x5d\x74\xf4\x3b\x2d\x86\xc4\xc3\x96\xec\xd8\x82\xcc\x6e\xef\xd2\x60\xa1\xac\xae\xb8\xad\x7c\x87\x45\xef\x94\x3e\x8d\x6f\xe6\xc1\x7d\xa2\x05\x75\x07\x94\xf8\x8e\x2e\x05\xbc\x7b\x6f\xb3\x78\x7b\xe0\x1d\x54\xd0\x2a\x32\x38\xd9\xe7\x2c\x29\x1b\x50\x13\xc6\xdb\xc9\xc3\xc0\xe6\xf4\xee\x5a\x17\x4a\xa1\x87\x46\x00\x8b\x52\xf7\x36\x13\x36\x95\x8f\xa9\xe2\x49\x7c\x97\xa4\x26\x77\x99\xb4\x79\xb0\x40\x03\x76\x19\x0f\xf5\xa8\x1d\x16\xf4\x35\x94\x5a\x45\xe5\x89\x30\xd5\xbb\x8e\x77\x76\x52\x64\x98\x33\xb3\x04\xfc\xbc\x62\x65\x7c\x52\x64\xa3\xb6\xe9\x1a\xc7\xc4\x6a\x24\xa6\x4d\x12\x0b\xce\x70\x06\xbd\x17\x53\x0b\xd3\x2b\x79\x68\x4e\xec\xdb\xdb\xdb\x6b\x13\x4f\xd8\xb6\xfd\xff\xc6\x61\xa8\xca\xec\x9a\xcb\xa5\x12\x2f\x38\x87\x88\xd4\x75\xce\xa6\xea\x60\x89\x3a\xab\xf7\x04\xa6\x0b\xc2\x05\x95\xe7\x8d\x9c\x9d\xfe\x2c\x72\xa9\x34\x9c\xd5\xa4\x07\x4c\x35\x1d\x05\x6b\x61\x5a\xd4\x9e\xdd\x9f\x62\x43\x60\x55\x09\x35\xa7\x19\x9d\xb1\x92\x66\xea\x4c\x84\x30\x7b\x6e\x63\x9a\xbd\x89\xb5\xee\x91\x9c\x6e\x62\xcd\x3f\xac\x61\x7d\x16\x36\x83\x54\xc1\x57\xee\xbd\xa7\xb7\x36\xf2\x3c\x28\x3b\xef\xde\x0f\x43\x57\xeb\xdf\xf7\xda\x64\xdb\xf4\x1c\xe8\xbf\x8a\x4e\xb2\xad\x7f\xd0\x25\x6a\x72\xad\x6e\x78\x4c\xbd\x87\xe1\x21\x4f\x67\x92\xf2\x78\xf3\x8d\xbc\x68\x97\x36\xf6\x96\x39\x51\x80\xb6\xa9\x3c\x28\xd5\x67\x32\x41\x2a\xad\x57\x20\x63\x8a\xe6\x11\xdd\xa8\x9b\xaa\x41\x1c\x92\xd0\xf3\x24\x4c\x51\xe2\xec\x7c\x90\xcd\xae\xeb\x04\x4f\x7a\x94\x73\x04\x68\x86\xa5\xcf\x74\x93\xc9\xed\x17\x76\x5c\x8c\xce\x99\xe9\x8e\x67\x72\x27\xf0\xd7\x70\x5b\xbd\xc5\x33\x87\xeb\x75\x94\xa4\xd7\x44\x2e\x3a\x7d\xb0\xe1\x96\x16\x35\xfa\xcd\xaa\x87\x15\xa7\x81\x13\x5c\x2a\x99\xd8\xcd\x26\x1a\x8c\x7a\x52\x8a\xc6\x9f\x43\xf2\xbc\x29\x55\xd1\xc4\x99\x07\xdd\x51\xaf\x28\x76\x7c\xa1\x6b\x5f\xd6\x0c\xeb\xd7\x7d\x89\xc5\x40\x95\x03\xda\xdc\x9b\xff\xd3\x28\x8d\xc2\x38\x55\xbe\xd0\xe8\x22\x9b\x8a\x2c\xb4\x5b\x60\xcb\x65\x76\xc6\xef\xf1\x3d\x1f\x61\x74\x92\xd1\x19\x69\x72\x89\xd6\x4e\x0b\x08\xee\x48\x95\x76\xac\x66\xb0\xa9\x0b\x46\x40\x60\x52\x65\x2a\x40\x44\xdd\xa0\xdd\x7b\x0c\x13\x23\x35\x4f\xe4\x22\xcb\x7b\xd4\xb2\x08\x4a\xb5\xa7\x0a\xbb\x38\xd1\xf1\x0b\x01\xa1\xaa\xd5\x80\xfc\x40\x50\xff\xff\xeb\xaf\x53\x78\x69\xca\x5d\xd8\xd3\xcf\x97\xea\x7d\x43\xb9\x3a\x0c\x8d\x3d\x6a\x5e\xdd\x33\x0c\x7d\x17\xea\x0d\x16\xfa\xf3\x1c\xcb\xe7\x0a\x5b\x5d\x65\xc4\x7e\xad\x4f\xe6\x83\x46\x28\x1e\x74\xa4\x22\xbd\x22\x5c\x2c\x88\x3a\xc4\x65\xf1\x2f\x74\x13\x56\xe0\x45\x33\x9d\x52\x9a\x09\x1d\x6b\xfd\xfc\xcd\xeb\x57\xe6\x4c\x75\x66\x0f\x40\xdb\x60\x4d\xd1\xea\xd0\xc1\x8a\xe7\x30\x59\xba\x60\x8f\x47\xda\xf9\xc8\x86\x80\x8e\xb2\xf6\x65\x07\x1a\xb0\x52\x48\x4a\x32\xcb\x33\xad\x24\x7d\x0d\xd1\xe7\x88\xb8\xb3\x1f\x23\x78\xd0\x47\xd6\xba\x62\xa0\x7c\x46\x5c\xd5\x11\x7c\xc0\xed\xe7\xb3\x44\xab\x1f\x2c\x2a\xd6\x94\xaf\xd4\x2a\x9e\x21\x2d\x76\x41\xd1\x13\x61\x33\xcb\x2d\x64\xa0\x36\xb4\xd8\x25\xee\xf2\xb6\xb5\xb3\x6c\x06\xf8\xea\x99\x9a\xd2\x0c\xbd\xd4\xa9\x54\x07\xc8\x8e\x43\x76\xc7\xc9\x13\x3b\x03\x76\x3b\xf7\x6c\x2e\xa2\x0d\xe7\x0e\x9c\x4d\x08\x04\x0f\xa9\x16\x9b\x38\x49\xdf\x50\x19\x47\x46\x11\x9e\xde\x2e\x6b\x1a\x8d\x7c\x93\xa7\x09\x58\x58\x21\xf3\xf1\xef\xaa\x07\x2b\x87\x2d\x1d\xe8\x75\x78\x2e\x87\x85\x61\x7a\x8a\x58\x31\x36\xd8\xc4\xe5\x6e\xd4\xd3\x33\x7d\x41\x65\x7c\x67\x8b\x7f\xeb\x30\x50\x5b\xe3\x4c\x1f\x32\x4d\xb5\x38\xbc\x44\xd7\xb1\x24\xb9\x67\x24\x14\xee\x62\xba\x03\x6b\x4f\xcc\x5a\xc4\x15\xf0\x73\x10\x53\x03\x19\x5f\x9b\xb0\xf1\x21\x55\x42\x61\x30\xc6\x8e\x89\x6b\x8c\x91\xdb\x09\xea\x9b\x56\xee\xb4\xf6\xe3\xf1\xa4\x99\xc1\xbb\xf7\x78\x6e\x36\x31\xb2\xbe\x0a\x95\xaf\xf6\x00\xbe\x08\xb9\x2c\xb8\x95\xb3\xb7\xa5\x59\x59\x84\x30\x82\x2f\x1f\x92\x27\x9b\x59\x72\xed\xa5\x08\xf6\x5b\x0a\xe7\xf0\xb3\xff\xfb\x97\x7f\xa1\x45\x28\xa7\x25\x8e\x49\xe0\xaf\xf4\x3b\xec\x1a\x20\x1a\xe7\x30\x69\x66\xef\xce\xb0\xf1\xbd\x31\x73\x46\x57\xe2\x21\x10\xc5\xb7\x59\x1c\x59\xed\x00\x48\x94\x3a\xff\x71\x86\x09\x2e\xac\xd5\xd6\xe8\xee\x40\x59\x95\xa7\x28\x57\xce\x91\xc7\x8e\xd1\x08\x81\x9b\x42\xac\x81\x6a\xce\xf1\xbe\xa2\x0f\xf1\x83\xde\x17\x8a\x47\x4a\x87\xfa\xb4\xdb\xa3\x01\xab\x30\x50\xbd\xf0\x19\xf5\xcb\xaf\x71\x96\x33\xa3\x40\x7f\x6d\xd4\x39\xae\xbb\xe9\x45\x24\x13\x33\x86\xd7\x3d\x16\xd4\x69\x43\xa5\x48\xbd\xc5\x6d\xc3\x0c\x01\x4c\xdd\xcc\xb0\xd7\x53\x0e\x39\x7e\x9d\xea\x42\x93\x37\xa9\x43\x55\xa1\x85\x57\x0a\xec\x54\x38\x53\x18\x58\xdd\x0b\xe0\x57\xec\x9d\x4b\x6e\x65\x24\x5e\xb4\x40\x13\x4f\xe7\xc5\x09\x74\x8f\xb9\x2d\xd2\x76\x86\x81\xd1\xed\xb6\xc2\x46\xb3\x77\x3a\x20\x0c\x52\x61\x27\xc3\xbe\x99\x61\xd8\xeb\x93\x78\xc9\xa8\x3d\x4e\x89\x4b\x4a\xec\xb4\xfe\x9b\x41\xae\xc2\xbe\xbf\x84\xa2\x0a\xa9\xfa\x82\x0e\x8e\x41\xe5\x77\x6a\x6c\x8d\x1f\xbf\xda\x79\xae\x09\xa7\xa5\x34\x31\xa1\x93\x53\x75\x78\x0c\xcd\x11\x62\x65\x5b\x15\x64\x94\xe0\x7d\x19\xfa\xc0\x4b\x51\xec\x24\xab\x37\xe6\x85\x13\x63\x60\x54\x97\xe1\x78\x37\xc8\xe8\x8c\x72\xe0\x29\x6a\xed\xf4\x02\x53\x99\xa8\x80\x94\xc6\xc0\x58\xb8\x0d\x7f\x37\x68\x35\x90\x51\x73\xa3\x13\x84\x1b\xde\xd5\xe1\xcc\x99\xfb\x1b\x4a\xb2\xa7\x79\x1e\x6b\xe0\x87\x9d\x4b\xb4\x07\xf1\x67\x68\xf0\x46\x10\x19\x4d\xc0\xd1\xd8\x5a\x87\x07\x29\xb3\xec\x8c\x8c\xa6\xde\x50\x44\x5f\x2b\xda\x82\xc6\x2a\x35\x0c\x8d\xce\xce\xc1\x5d\x3c\x69\xd5\x9d\xf1\xf3\x54\xf7\xe0\x69\x9e\x57\x0f\xd7\x84\x4b\x46\x72\xcc\xa6\x49\xde\x18\xa7\xf0\x39\x13\x53\xc2\xb3\xb7\xa5\xba\x24\x74\xd6\xbe\x59\x9b\xd0\x16\x49\x3f\x07\x7f\xc2\x2d\x95\x8a\xd5\xc7\x2d\xa5\xda\xaf\x56\x87\x15\x6b\xaf\x6a\x35\x68\x74\x98\xe9\x36\xec\xaa\x87\xad\x86\x7b\x9f\xa4\x73\x35\x43\x02\xcf\x20\x3e\x23\x99\x11\x07\xf3\x0e\x11\x68\xd1\x72\xd1\x3a\x46\x94\xd7\x84\x93\x42\xd8\x70\xe5\x57\x84\x8b\x98\xe3\x1a\xe2\x45\x8c\xf6\x3d\xc6\xf6\x1f\x1b\xca\x97\x6d\x77\x9e\xbe\xbd\xf9\x2e\xfd\x25\x36\xc6\x76\x80\xd7\x25\xf4\x63\x18\x7d\x16\xf5\xec\xbc\x95\x5a\x75\x67\xc2\x04\x30\xea\x2c\x4c\x69\xbb\xa5\xdf\x55\xda\xb1\x86\x48\x11\xa9\xfb\x60\x7e\x55\x41\x49\x5f\xd0\x52\x4d\xea\x56\x13\xa3\x9b\xfe\xb4\xee\x6e\x14\x5e\x97\xb4\x9a\x6d\xe1\x41\x3f\x6e\xe3\xa1\xc8\xfa\x31\x88\xb8\x6d\xf5\x25\xa7\x1f\xdb\x92\xb6\x09\x5a\x54\x06\xd9\x76\x6d\x33\x83\x3d\x01\x51\xaf\xc6\x1c\x2a\x66\x6a\xfd\x28\x6c\x74\xe0\xec\x3a\x11\x4a\x7f\x6e\x46\x03\x3a\x36\xe2\x47\x14\x2a\x7b\x10\xec\xd3\x7d\xbd\xbe\xf5\x50\xed\xd2\xb9\x48\x43\x8a\xe2\x6a\x4b\x4d\x6c\x2a\x09\xa7\x0b\xde\x0a\x7a\x8d\x0a\x06\xf5\xa5\xf0\xd5\xc7\x5b\x41\x2f\xcb\xa6\x78\xd5\x14\x13\xca\xc5\x59\xfb\xe2\xb2\x60\xf2\x6d\x59\x57\x75\x83\x21\x71\xe6\xd4\xca\x3a\xec\xe8\xd3\x16\x37\x8b\x8e\x3b\x5d\x9e\xc6\x0a\xd5\xf4\x8a\x0a\x41\xe6\x34\xd9\x75\xbc\xc1\x8a\xc1\x87\x91\xd1\x56\xce\x9d\x54\x9e\x94\xd7\xcb\xaf\xb5\xba\x13\x8a\xc2\x38\x03\x7d\x39\x94\xfe\x3c\xe2\x96\x15\x1a\x2a\xba\xb6\xbe\xbb\x75\xc5\x95\xb2\xdb\x55\x66\x45\xc0\xdb\x25\xd6\x05\x11\xb0\x20\x99\x1e\x3b\x54\x54\x55\xa5\xbc\x0c\x0f\x62\x32\xcc\x0a\xb7\xf2\xed\xdf\xd6\x95\x0b\xaa\xa1\x68\x47\x4a\xa4\xd6\xe8\xbb\x5a\x2e\x0a\x33\x66\x5b\x5d\x5a\xd1\xa2\x63\x82\x50\x8c\xc6\x45\xa5\x81\x74\x2b\xb7\x3b\x6b\xb6\x3b\x2b\xb1\x77\x23\xc7\x21\x2f\x52\xd9\x39\x64\x03\x7f\x55\xb4\xdd\x86\x81\xca\x0b\xd9\xdd\x94\xb4\xbd\x15\x35\x5d\xa0\x2e\x4b\xd5\x1b\x92\x8b\x0a\x48\x96\x99\x3d\xac\xb4\x3d\x34\x3c\x0f\x77\x97\x8e\x23\xd3\xf5\x14\xef\x0e\x8f\x8c\x12\xbf\x26\x72\x91\xec\x1b\xe8\x56\x05\xcf\xd2\xa3\xcc\xa1\x12\x89\x92\x4f\xae\x31\x23\x08\x53\x34\xb1\x6d\x47\xd4\x98\xbd\xd1\x6d\x8a\xb5\xa7\xc4\x5c\x02\xf6\x34\xda\x0b\x72\x76\x8f\x5e\x2b\x91\x86\x6b\x45\x25\x55\x7e\x01\xd3\x07\xa4\xc4\xab\x57\xdf\xe3\x39\xfa\x5a\x5f\xf2\xd2\x6d\xa8\x27\xa7\x55\x41\xf5\xdd\x83\x76\x92\x8c\x89\x29\x5e\x9d\x5f\x82\x58\x0a\x49\x8b\x11\x08\x75\xe2\x3b\x67\x77\x34\x5f\x5a\xa1\x43\x31\x82\x68\x51\x09\x79\x86\x12\x1d\x19\x05\xda\xa1\x20\x76\x53\xd9\x43\xc3\x83\x99\xdb\xe3\x2b\xd0\x6c\x06\x9f\x59\x91\xfb\x96\x88\x6b\x4e\x67\xec\xd1\xcd\x38\x82\x08\x77\x65\xa4\x23\x72\x87\xc7\xb9\x6e\x3e\x1b\x8f\x23\xf8\x3f\x8e\x13\x28\x95\x41\xe3\xb4\x60\xc3\xf3\xf4\x1a\xbd\x13\x07\xed\xe0\xb3\x5c\xe8\x5c\x34\xa1\xb9\x7c\x8b\x91\x65\x4f\xc4\x61\xea\xaa\xfa\x96\x42\xf4\xaa\xd2\x0b\xe9\xa5\xb7\xf5\x21\x7a\xc5\x10\x9d\x0c\x42\x40\x0f\x15\xbf\x1b\x81\x4e\x99\x83\xb1\xf4\x18\xf8\xe1\x35\x3a\xae\xfd\x4d\xfd\x96\x21\x0b\xa3\x36\x6d\x8b\x87\xc4\x82\xc3\x63\xa1\x60\xb5\xc2\x4b\xb9\x9b\xc1\x8f\x41\x1a\xdf\xaa\x0c\xa0\x75\x36\x10\x12\x2b\x33\xfa\xb8\x3d\xe2\x6b\x3b\x46\xf9\xf8\xdb\x51\x85\xa5\xb8\xaf\x98\x8f\xce\x86\xfa\x6f\xb0\x63\x5c\xcf\x85\x5c\xaf\xb2\x6f\x6a\xf5\x83\x69\x63\xe3\x41\x06\xd3\xaa\x5e\xbe\xbd\xf9\x2e\x6e\x46\xe0\xf7\x7f\x46\x04\x45\xf5\x81\xe9\x63\xdb\xb5\xf5\x0e\xb6\xb1\xea\xfa\xa5\xdd\x1c\xb1\xe1\x4c\x4f\xe1\x7f\xab\xaa\x1f\x6c\x16\xf6\xad\x6f\xdb\xae\x66\xe7\x77\xfb\xd3\xa9\xab\xde\x0a\xff\xce\x75\x87\xd3\x3f\xd5\xca\x0f\x25\xd2\xd1\x69\xd9\x21\x12\xe6\x50\xc4\x4e\x7a\xbd\x13\x06\x4a\xf3\xd8\x75\x9c\x10\x41\xe1\x04\xf7\xf0\xdb\x9b\xef\x46\xaa\xb8\x64\x4c\x6b\xe2\x9a\x71\xff\x96\xe8\x17\x9c\x9d\xc3\x09\x0e\xd0\x8f\xaa\x90\x60\xc2\x03\xc7\xce\x2f\xf1\x8d\x49\x30\x5c\xc8\x47\x5b\x1a\x7d\x83\xfe\xed\x54\x9d\x71\x6f\xb8\x49\xd5\xa0\x38\xda\x8d\x2b\x2b\xa8\x9b\x3c\x57\xed\xc6\xce\xd1\x0c\x3d\x0c\x01\x55\x83\xa6\xdb\xba\xaf\xc6\x2c\xa9\xf4\x8e\x31\x7b\x85\x75\x61\xfd\x00\x14\x7d\x05\x93\xee\x48\x01\x5e\x55\xd2\xdc\xba\x45\x90\x08\x4b\x69\x8a\x05\xb9\xa7\x60\xbf\xa6\xb1\xdb\x25\x51\xf3\x4c\x54\xb5\xca\x5c\x3c\x53\x17\x6f\x50\xf3\x5b\xd4\xf0\x0e\xb3\xc9\xef\x13\x7b\x70\x49\xf9\x1e\x48\xd5\xd2\x25\xaa\x5d\x69\xcf\xbf\x16\x47\xb9\x33\xb8\xa6\xb4\xdc\xe5\x9d\x2e\x27\x7b\xb7\x42\x86\xed\x81\x9f\xf1\xe9\xe9\x64\x2a\x6e\x3b\xae\x4d\x1e\xe0\x1d\xfe\x64\x05\x65\xe7\xf1\x98\xcc\xaf\x5f\x47\x76\x36\x43\xd7\x7d\x13\x94\x2a\xe4\x35\x6a\x94\xa1\xe3\x31\x7b\x15\xf6\x66\x4a\xaa\x57\xd9\xec\xcc\x48\x6d\xc6\x57\x26\x1d\xa5\xbd\xb1\xcd\x94\x94\xcd\xd2\x98\x69\xec\x68\x9d\x9e\x69\x63\x9f\xcd\x94\x94\x69\xc6\xc0\x57\xbb\x79\xa6\x4a\xe2\xde\xa0\x43\x4d\x54\x3a\xe0\xff\x7d\xfd\xb5\x5f\x2e\x1a\xc1\x83\xa9\x89\xa8\x84\x67\xcd\x29\x3a\x39\x44\xed\x07\x52\x2a\x58\xca\x29\x50\x82\x4a\xa4\xc4\xef\x22\xe0\xfe\xd1\x54\xf8\xfb\xcf\x24\xb0\xa1\xd0\x21\x4c\x8b\xa3\x45\x62\x6f\xca\xcc\x1e\x0f\xe9\x49\x99\xf5\xb2\x7d\x77\xc6\x4c\x4f\x7a\x7c\xca\xec\x98\x0c\xd8\x39\x76\x49\x2f\x5f\x7f\x33\x98\x04\xc3\x2c\x76\x9b\x1b\x47\xc1\x50\x2c\x00\xe4\xe3\xd2\xcf\x7a\x6d\xb8\x3f\x7d\xb0\x30\xa1\xd6\x93\x4f\x73\x40\x0d\x38\x0d\x8f\x7b\xb5\x08\xf8\xac\x53\xf8\x78\xfd\x8b\x9d\x53\xcc\xe2\xcd\x4a\x44\x32\x82\xc8\x93\x99\x33\xf8\xea\x8b\xec\xab\x68\xd4\x99\xc3\xcd\x8d\xee\x08\x12\xbc\x4f\x9a\xc3\xa3\xf3\x7a\x83\x69\xbd\xa1\xac\xde\x3a\x3c\x3c\xa7\x27\xea\xe4\xc9\xfe\x45\xf0\x99\x62\x09\x36\x9d\xbe\x6c\xcf\x3a\x07\xdd\xbc\x8c\xaf\x80\x2e\xcb\x23\x15\x90\xeb\xe9\x39\x06\x5b\x2e\xc1\xa9\x51\x55\x07\xb8\x50\x3b\x73\x41\x2e\x7b\x1e\xba\x68\xd7\xa4\x83\x80\x1c\x9e\x30\x57\x5f\x88\xc0\x9d\x7f\x4f\x38\xab\x1a\x01\x68\x4e\xd0\x0b\x43\xbb\x1c\x8c\xc7\xdb\xc6\x37\x46\x3f\x62\x04\x2a\x61\xa6\x6b\xda\xb8\x49\x12\xab\x0a\x0e\x20\x6b\xb7\x2e\x50\x5d\x06\x8e\x90\xb9\xd4\x11\x7e\xe6\xe9\x9e\xe4\xb8\x16\x51\x64\x32\x93\xba\x69\xf7\x0d\xff\x0d\x66\x98\xd9\xb4\x90\xdb\x0c\x27\xa7\x1f\xc3\x70\xc3\x7c\x0d\x86\xc6\x9b\xfd\x86\x63\x6f\x9d\x95\x78\xa3\x74\x36\x5e\x83\x97\x0b\x4c\xfc\x92\x82\x4a\x2c\xdb\xe0\x5d\x6d\xb9\x40\xb4\x6d\x24\xa7\xce\x50\xd9\xa2\xd2\xc6\x35\x50\x41\x55\x7a\xa8\x93\xeb\xc4\x59\xde\xe8\x76\x97\xec\xb4\x1d\xd7\x9b\x97\x41\xd1\x65\x8c\xc6\x0a\xff\xbe\x68\x0f\x71\xd9\x5d\x3c\xd8\xd4\x41\xa8\xe7\xaa\x26\xcf\xca\xaf\x64\xbb\x7b\x35\x95\x5f\x7c\x8c\xb4\xf3\x69\x35\xa8\xe6\xca\x0d\x79\x30\x4e\x66\x63\x7f\xbb\x77\xee\x05\xfe\xd8\xe0\x9c\x12\xbc\x2e\xeb\xd4\x81\x8b\xde\x8c\x35\x2a\x38\x59\xd4\xa6\x3c\x6b\x16\x58\x16\x75\x97\x9d\x43\xb9\x6b\xb0\x7c\x3c\x85\xc3\xd2\xc6\x6c\xa6\x36\x84\xe9\x76\x43\x6b\x8a\x39\x46\x3b\xec\xa5\x78\x46\x3c\x8d\xda\x42\x8e\x2f\xec\x77\xf2\x4c\xcf\x17\x15\xf6\x82\xc8\x2e\x7f\x94\xd8\x11\x9a\xd4\x77\x91\x4b\x51\xff\xd2\xe5\xe3\xcd\x49\xec\xf7\x5a\x84\x53\xd7\xe3\x82\x14\x34\x6f\xcf\x9b\x1b\x39\xc8\x85\x7b\x36\x0e\x9f\x77\x09\x63\x68\xbc\xad\x87\x18\x34\xd2\xa7\x59\x16\xef\x40\x65\xe4\x7d\x5c\x2a\xbe\xc7\x9c\x57\x5b\x37\xe9\x48\x23\xe2\x44\x73\x4c\x14\x77\x18\xf8\x52\x60\x0e\xd7\x3e\xbd\x91\x84\x5f\x3e\xd6\x26\x03\xaf\x84\x73\x10\x4f\x5f\x62\x3f\x09\xdd\x59\x1c\x7d\x91\x45\x23\x38\x19\x9a\xa2\x4b\x4d\x8b\x7e\xc5\x21\x46\x73\xbf\xb5\xe6\xc9\xa6\x58\x58\x3a\x64\x61\xae\xd3\x6d\x1c\x3f\x19\x9c\xd9\x91\xbf\xb9\x37\x7b\xb7\xa7\xd9\x9d\x33\xc2\x72\x7d\x3e\xc8\x6e\xce\x21\xf8\x51\x77\x9d\x8c\xa6\xb5\x8a\x29\x96\x45\x9d\x84\x47\x71\x55\x43\x48\x3c\x46\x59\xd2\x57\xab\xf1\xc9\x1f\xfe\xf5\x6f\x7e\xf8\xfd\x3f\xff\xf0\x4f\xff\xf6\xc3\xdf\xff\xee\x8f\xff\xf8\xb7\xff\xf9\xef\xff\xf1\x87\xdf\xff\xdd\x0f\xff\xf2\xbb\x3f\xfe\xee\x1f\x4e\xc6\x2e\x7c\xd6\x79\xa4\x4f\x92\x84\x1f\x27\x08\xf1\x81\x12\xb0\x41\xd9\x27\x4c\xb4\x6f\x9e\x36\x0b\xe0\x36\x8f\xa7\xa0\xdc\x93\x79\x58\xaf\xbb\x3a\xae\xc2\x52\xd8\x50\x71\x6c\x5b\xd1\xa9\xee\xc3\x8a\xae\x05\x5b\x3b\x43\xa4\x87\x18\x27\xd0\x40\x34\x4a\xd1\x74\x33\x1b\xda\xbe\xc2\x75\xab\xf0\x5b\x19\xfa\x04\x8f\xa1\xdf\x74\xf5\x18\xa0\x8e\x84\x5b\x10\xaa\xa4\x67\x0c\xb6\x17\x6c\x6e\xb3\xdc\xf4\x3f\x68\x97\x57\xb5\xf4\xa6\xee\xb2\xbd\xbb\xbe\x9d\x2d\x6e\xfa\x77\xf6\xb8\x69\xdb\xdc\xe4\x3f\x31\xad\x43\x3a\xa3\x97\x10\x3b\xa8\x5f\x63\x1c\xad\x33\x5e\x50\xb9\x39\x45\x9c\x58\xa5\xe1\xd8\xb5\x4b\x71\x1c\xb1\x56\xbe\xee\xd8\x58\x8a\x3f\x1f\x31\xea\x67\xfb\x16\xd2\xfe\x96\xdd\x78\xec\x3c\x99\x07\x95\xae\x6e\x9d\x25\xc5\x1c\x38\x07\x83\x9f\xf6\xb3\x63\xe5\x57\x9a\x7d\x5b\x7a\x0e\xae\x4a\xf2\x46\x73\x2a\xf5\x37\x23\x7d\x07\x0a\xdd\xf5\xae\xff\x24\xab\x1b\x2a\x3f\xd5\x65\x3e\xc4\x8f\x3a\xdd\x53\x7d\xef\x9e\x02\x18\x9f\xc0\xeb\x32\x5f\xaa\xef\x4f\x21\xc2\xaa\xb7\x30\x55\x40\xb1\x40\x37\x13\x26\x2e\xc5\x86\x63\xb1\x30\x83\x17\x3d\x15\x67\x2b\xb9\xf0\x4f\xc6\x56\x05\x93\xe8\x84\x65\x8d\xfa\x72\x0e\x06\xf3\xac\xa4\x42\xc0\xc9\xd8\xcc\xa8\xc8\xef\x55\xbd\x7b\x5c\xa9\x56\x23\x77\xd6\xcf\x6c\x96\xcd\x38\xf9\x6a\x7f\x94\xdc\x86\xc9\x83\x85\xed\xe1\xca\xf6\x60\x69\x5b\x6d\x1b\xbc\x58\xe2\x3c\x7d\x87\xa1\x53\x1c\x7b\xbf\x62\xb6\xcb\xe1\xd7\x71\xa7\xca\x6b\x60\x2e\x0a\xbd\x18\xf8\xe2\x3e\x1a\x81\xe2\x6c\xeb\xf6\x3f\xc3\x0e\x2e\x53\xe3\xbe\x0f\x1a\xe3\xd1\x49\x81\xe7\xe8\x9f\x35\xb3\x19\xe5\x31\xe2\xea\x9f\xfe\x06\xff\x7c\x85\x09\xda\x83\xed\x8f\xa6\xed\xfd\xe0\x8a\xfb\x86\xea\xa1\x05\xcc\x57\x4f\x6f\xdf\x7c\xca\xe5\x12\x7b\x02\x0f\xc7\x83\x4e\xfa\xba\x67\x73\x25\x15\x71\x41\x44\xcb\x11\x08\x7e\xaf\x9f\xdd\x37\xf1\x4c\x98\xbb\xfd\x39\xbe\x43\x6f\x8b\xe2\x42\x9a\x33\x07\x98\xa9\xad\x4a\xa5\x5c\x1b\xfa\xa6\x99\x88\x29\x67\x13\xfd\x51\x9b\xad\x8b\x9d\xfe\xc7\x43\x30\xd0\xed\xeb\x83\x4a\x99\xdf\xfb\x3d\x15\x10\x7a\x25\xe6\x8a\xb4\x64\x38\x37\xe3\x3e\x82\xe7\x36\x8e\xb7\xa6\xab\x55\xe7\x1b\x1b\xe4\x8e\x7a\xdc\x3f\xf4\x7b\x35\x38\xe4\x80\xef\xd5\xb4\x90\xf7\x5e\xab\xe9\x7c\x6d\x37\x75\xfc\x33\x97\x15\x12\x7f\xe1\x06\xbe\x53\xb3\x1b\x82\x39\x74\xf1\xe7\xf7\xb9\x9a\x96\xae\xbd\xf7\x63\x8d\x0a\x74\x02\x71\x06\x5d\x9a\xf1\x76\x89\x23\xfb\xa8\xcf\xd5\xe0\x42\x79\x3d\x8c\xf1\x19\x99\x7b\xf8\x97\x65\x6f\x1f\xaf\xaa\xd8\xf6\xd8\x38\xc5\x74\xec\xf7\x6c\xbc\x55\xf6\x2e\x32\x1c\xff\x3d\x1b\x0f\x8e\x3b\x12\xbd\x9f\xb9\x1e\x79\x00\x70\xd2\xe5\x6e\xcb\xda\xad\x2f\xd5\x98\x99\x36\x2b\x29\x43\xf3\x78\xb9\x7c\x64\xd9\x6a\xd5\x65\x7b\x7f\x4d\xa9\x10\x73\xa3\xcd\xae\xc4\x7c\x38\x85\xbf\x7d\xba\xb5\xef\x72\xe7\x8e\x33\xf2\x85\x98\xa7\xcf\x95\x11\xeb\x3f\xd5\xd9\x77\x08\xc1\xca\xf2\xc0\x4d\x51\xc3\x1e\x93\xe7\x6d\x8f\xe5\xf5\xc8\xcb\x66\x2a\x56\x11\x7c\xc0\xb1\x3c\x4c\x13\x42\x35\xf9\x0d\x1e\x37\x31\x99\x56\xe1\xd6\xcb\x7e\x37\xe4\x8a\x94\x4b\x5d\x5d\xc2\x9a\xa3\x3d\x7e\xa2\x3f\x1f\xd8\x60\xcc\x81\x25\x1e\x44\x0f\x15\x60\x29\x18\x16\x18\xcd\xdd\x25\xa3\xd4\x06\xf1\x1e\xa8\x03\xe2\xbc\xc6\x2f\x1f\x41\x39\xed\x98\x23\x57\x01\xe9\x4f\xbd\x5a\x3e\x77\x64\x50\xcf\x8f\x24\xf8\x13\x9b\x89\x70\x86\x16\x6c\x72\xcc\x09\x22\xa4\xc8\x64\xe3\x6d\xdb\x11\x27\x88\xbc\xd1\x7b\xbe\x52\x81\xe4\xff\x77\x7f\xa5\xa2\xc5\x6e\xdb\x25\x18\x34\x40\xd7\xcd\x24\x67\x62\x41\xf9\x31\x07\x84\x86\x3f\x51\xe1\x2b\x04\xdf\xd4\x7b\xba\x27\x38\xe6\xd3\x13\xf6\xb0\x4a\x5f\xf7\xf3\x6d\xab\xe0\xa8\x51\x46\xc1\xfb\x06\x45\x10\xf4\xfa\x1e\xbe\xb5\x88\x4c\xc7\x1e\xd1\xf7\xcf\x9f\x3c\xa7\xfb\x6c\xc4\xf6\xc1\x93\xcd\x73\x27\x9d\x73\xbe\x4e\x81\xd8\x9d\xd0\x7b\xca\xa4\x57\xc5\x9a\x38\xc8\x43\xe4\x93\xbf\x23\x81\x04\x0d\x15\xca\x87\xd4\xbb\xab\x8f\x0f\x70\xa3\x57\xc7\x1d\xf6\x1d\x09\xab\xff\xff\x64\x5f\x8c\x18\x40\xf9\x00\x93\x04\xc3\x36\x09\x8f\x05\x1e\x60\x6e\x28\xe7\x76\xbe\x2d\xb3\x33\x1e\xc3\xb6\xe5\x19\x8f\x61\xed\x41\xb7\x83\x53\x75\x37\xc0\x0e\xfe\xf2\xcb\xed\x77\x29\x56\x67\xe1\xfc\x1c\xa2\x0f\xcc\xdc\x78\xfb\x10\x0d\x4c\x63\x2b\xd6\xdb\x40\xec\xc1\x64\x8b\x48\x4f\x95\xb7\xf7\x3b\x18\x87\x1a\xdf\xbe\xf2\xeb\x6e\xeb\xdb\xff\x61\x29\x5f\x86\x8d\x0d\xee\x37\xc1\xa6\x12\xb8\xc3\x02\x77\xaf\x12\xb9\xff\xab\x1e\x73\x1a\xc9\xa4\x35\x54\x88\x30\x60\x94\x71\xa9\xad\x46\xbf\x12\xf3\x4d\x9b\x7c\xaa\x70\xfd\x69\x0c\xf3\xa1\xbe\xd4\xbe\x1a\xa8\x65\xf9\xa0\x21\x76\x13\xa9\x1d\xe1\xc0\x25\xde\x32\xfc\xd7\x00\x07\x97\x45\x6d\x5a\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4b\x8f\x1c\xc9\x71\xf0\xb9\xea\x57\xc4\x16\xf6\x51\x35\x5f\x4f\xf5\x7e\x1f\xf0\x19\xf2\x10\x63\x80\x1c\xce\x72\x29\xed\x90\xa3\xe1\x50\x7b\x20\x08\x2a\xbb\x2b\xbb\x3b\x35\xf5\x62\x66\xd6\xcc\xb4\xda\x7d\xf1\x45\x06\x6c\xc0\x80\x4f\x3e\x18\x82\x4f\xbe\x1a\x3e\xfb\xf7\x68\x0d\xfd\x0b\x23\xf2\x55\x59\xdd\x55\xfd\xe0\xae\x0c\x19\x30\x01\xed\x74\x65\x65\x46\x46\x44\x46\xc6\x33\xb3\x34\x1e\xc3\x45\x95\x51\x98\xd3\x92\x72\x22\x69\x06\x93\x25\x4c\x08\xaf\xca\x14\x9e\xbf\x86\x57\xaf\x6f\xe1\xf2\xf9\xcb\xdb\x34\x1c\x8f\xe1\x86\xf2\xa6\x2c\x59\x39\xd7\x1d\xe0\x81\xe5\x39\x54\xf7\x94\x3f\x70\x26\x29\xc8\x05\x13\x30\x63\x39\x55\x9d\x7f\x45\xb9\x60\x55\x79\x06\xab\x55\x6a\x7e\xaf\xd7\xde\x0b\x78\x4e\x24\xf5\xdf\xe2\xf3\x7a\x1d\x86\x35\x99\xde\x91\x39\xc5\x37\xd7\xfa\xe7\x2b\x52\xa8\x37\xe3\x31\xdc\xda\x39\x60\x5a\x95\x92\xb0\x52\x40\x41\xe5\xa2\xca\x04\xc8\x0a\x0a\x72\x47\x81\x95\x19\xbb\x67\x59\x43\x72\xa0\x65\x56\x57\xac\x94\x02\x66\xbc\x2a\x40\x50\x7e\xcf\xa6\x54\x8c\x10\x0d\x4e\x3f\x36\x54\x48\x20\x65\x06\x9c\x8a\xba\x2a\x05\x05\xb9\xac\xa9\x82\x84\x5d\x91\xa2\x4a\xd0\x16\xca\x08\x88\x80\x07\x9a\xe7\xf8\x97\x96\xd3\x2a\xa3\x5c\x20\x00\x84\x97\x51\xf3\x3c\xab\xb8\x19\xa8\xa0\x8d\x54\x03\x41\x4e\xcd\xa0\x6a\x38\x88\xa6\xae\x2b\x8e\x9c\x96\x9c\x94\x02\x7f\x23\x66\x8c\xe4\xec\xb7\x44\xb2\xaa\x44\x68\xb3\x8a\x17\x44\x8a\x34\x0c\x59\xa1\x7a\xc4\x61\x10\x4d\x96\x92\x8a\x28\x0c\x22\xa4\x9d\x3e\x4a\xfc\xa9\xd0\x60\xe5\x7c\xfc\x1b\x51\x95\xd8\x30\x2b\x54\x3b\xab\xf4\x7f\xc7\xac\x6a\x24\xcb\xf1\xa1\xa4\x72\xbc\x90\xb2\xb6\xbf\x1b\xae\x9a\x85\xe4\xd3\xaa\xbc\x37\x3f\x59\x39\x17\x51\x18\x06\xd1\x9c\xc9\x45\x33\x49\xa7\x55\x31\x9e\x57\xa7\x77\x4c\x8e\xf1\x7f\x96\x17\x51\x18\x90\x72\x59\x4f\x20\x9a\x57\xd5\x3c\xa7\xe9\xbc\xca\x49\x39\x4f\x2b\x3e\x1f\xd7\xbc\x92\xd5\xa4\x99\x8d\x15\xfd\xe3\xbb\xb2\x7a\x28\xc7\xaa\x77\x14\x06\x59\xc3\x15\x91\x47\x0c\x6d\x87\x44\x61\x40\x8b\x5a\x1e\x33\xaf\xe9\x1f\x85\xc1\x8c\xd1\x3c\x2b\x88\xb8\x3b\x62\xb4\x37\x26\x0a\x03\x21\x79\x33\x95\x47\x0c\xb7\x03\xa2\x30\x90\xac\xa0\x42\x92\xa2\x3e\x62\xb8\x37\x26\x0a\x83\x07\x4e\xea\x9a\x72\x71\x04\x80\x76\xc8\xf6\x92\x72\x96\xe7\x64\x5c\x34\x8f\x51\xf7\x4d\x7d\x37\x1f\x53\xce\x2b\xae\x24\x6d\xc7\x44\x4e\xf2\x54\x8b\x15\xbf\x1d\x03\xd4\x0f\x44\x64\xb5\x3a\x05\x36\x03\xfa\x11\xd2\x8b\xaa\x9c\xb1\x79\x7a\xeb\x76\x42\x44\xf2\x3c\x82\xa8\x24\x52\x44\xb0\x5e\x77\x71\xc3\xd6\x53\x56\xa9\xbf\xe9\x1c\x25\x1c\x41\xd1\x32\x5b\xaf\x0f\x82\x3a\xe7\xf5\xd4\x42\xdd\xc2\x53\xbd\x1c\x7c\x33\x2e\xa8\x24\x19\x91\x64\x73\xd2\x83\xa7\x44\xf8\xed\x8e\x1f\xd8\x5f\xae\x83\x45\xc7\x9b\x0b\xf7\xee\x11\x00\xb0\x7b\x74\x10\x5b\x5a\x66\xe3\xaf\x23\xa6\xc0\xee\x1d\x1c\x93\x30\x0c\xef\x09\x87\x38\x0c\x3e\xc0\x39\xcc\x0a\x99\xbe\xa9\x39\x2b\xa5\x7e\x56\x0a\x2c\xbd\xa8\x8a\x9a\x70\xaa\x9b\x8c\xf6\x49\x9f\xca\x8a\xe9\x96\x0e\x99\xe9\x2b\xfa\xf0\x86\xf2\x7b\xca\xf5\x4b\xad\xcd\xd2\x57\x55\x7d\x91\x57\xa2\x6d\x4d\x2f\xaa\x7a\xa9\x1f\xb4\xf0\xa6\xdf\x73\x52\x87\xc1\x78\x0c\x66\x3d\xad\x18\x6a\x1d\x8f\x5d\x95\x4a\x4a\x9f\x96\x6a\x5c\xab\x64\xd2\xe7\xe6\x27\x36\x1b\xf5\x91\x5e\xe2\x5f\x6c\xb0\x5b\x3a\x7d\xa3\x7e\x60\x93\xb7\x4d\xd3\x5b\xfb\x1b\x5f\xb4\xdb\x0f\x7b\xb3\x72\xfe\x2b\x92\x37\x8a\x6e\x4f\xaf\xa4\xdf\xe0\xef\x2b\x22\xee\xc2\x24\x0c\xc7\x27\x07\xfd\x83\x4b\x6b\x93\xc0\x36\xed\xff\x37\x56\x16\xf4\x65\x09\x04\xed\xcd\x3d\xe5\x23\x60\xf2\x2b\x01\x8d\xa0\xb3\x26\x57\x66\x6a\xd6\x94\x53\xe4\x82\x00\xb9\x20\x12\x4a\x8a\x56\xaa\x82\xaa\x56\xbe\x01\x54\x38\xb6\xa6\xfc\xd4\x9a\x01\x04\x38\x21\x82\x89\x14\xbe\xa9\x38\xd0\x47\x52\xd4\x39\x1d\xc1\xb2\x6a\xa0\x60\xf3\x85\x84\x9a\x08\x34\x91\x1e\xc2\xb2\x02\xe2\x26\xd2\xf3\xd4\xbc\xca\x9a\x29\x15\x08\x8e\x94\x4a\x02\xd2\x6f\x49\x99\xe5\x88\xe3\x03\x93\x0b\xa0\x64\xba\x30\x96\x1e\x62\x3b\x7b\x02\x0f\x8c\xd3\x0c\x9a\x1a\x91\x24\x20\x6a\x3a\x65\x33\x36\x85\x9a\xc8\x45\x0a\xf1\x4b\x89\x00\x99\x80\x9a\x57\x13\x32\xc9\x97\x40\xa0\x60\x42\x6a\x2f\x01\x32\x2a\xd8\xbc\xc4\xa1\xac\xbc\xaf\xee\xd0\xdc\x53\x40\x61\x63\x53\xea\xbc\x0a\x85\x22\x45\x38\x2d\x05\x5a\x06\x80\xb5\x9c\x4c\x93\x70\x3c\x76\xdc\x9d\xe6\x8c\x96\xb2\xcb\x5d\x59\xc1\xb4\xca\x73\x3a\x95\x9e\x83\x92\x2f\x61\x5a\x95\x1a\x1c\xcd\x3c\x77\x85\x95\x48\x10\x02\x14\xac\x9c\xe7\xda\x31\xd1\xbc\x62\xc8\xe1\x82\x22\x1e\x3e\xbe\xac\x94\x94\xcf\xc8\x94\x0e\xad\x04\x02\x73\x93\xf5\x3b\x49\x0d\x4e\xd6\x7a\x25\xca\x59\xc0\x0d\x78\x61\xe8\x99\x56\xc5\x84\x95\x8a\x4f\x85\x41\xd1\x5b\xd8\x91\x71\xa5\x64\xc3\x4b\x60\x12\xf9\x8a\x08\x4e\x49\x9e\x53\x8e\x1e\x13\xb1\xc8\xa6\xa1\x22\x67\x8b\xa1\xab\x30\x78\x5b\x3a\xfa\x68\xb6\x5a\xa5\x76\x84\x76\x01\x8d\x26\x58\xad\x38\x29\xe7\x14\x3e\x67\x70\x76\x0e\xae\xcf\x95\x5e\x32\xd4\x63\xab\xd5\xe7\xcc\x8c\xb1\xb3\x00\x80\x23\x35\xb5\x8d\xe1\x6a\xa5\x95\xab\xf6\x2e\x6d\xb3\xd8\x3f\x05\x0a\x30\xc4\x1e\x11\x09\x78\x93\xc6\x53\xf9\x08\xc6\x4b\x43\xd3\x80\x7f\x47\x28\x30\x27\xab\xd5\x8b\x0a\x11\x83\xcf\x59\x7a\xa3\x5d\xd0\xdb\x65\x6d\x09\x4c\x20\xde\xe8\xa1\x1d\x53\xaf\xcb\x48\x2b\xb8\x04\x56\x61\x60\xfd\x56\xd5\x86\x88\xd2\xb4\x87\x72\x44\x06\x27\x4f\xc2\x00\x8d\x15\xe7\xf0\xd9\x39\x94\x2c\x47\x08\x81\x59\xaf\x92\xe5\x0a\x48\x18\xac\x43\xdb\x66\xa1\xa7\x7b\x71\x4a\x46\x08\x2f\x5c\x3b\x76\x22\x33\xaf\xc8\x9d\xc7\x9e\x70\xb5\x52\x1b\xf9\x73\x49\x11\xd1\x74\x8d\x9d\x4f\xc1\xe7\xf2\xe7\x92\x0e\x31\x1a\x61\xf5\x51\x26\x90\xe9\x92\xf6\x8a\x49\xb2\xbd\xdc\xb0\x72\xc4\xe1\xfa\xf5\xaf\x92\x0d\x0c\xdc\x8e\x5a\xad\x13\x88\x2d\x33\xfc\x66\xc5\x31\x6f\x39\x02\x4e\x3f\x22\x21\x06\x42\x1a\xef\x5b\xed\x30\x08\xee\xdd\xda\x09\x7f\xed\x10\x35\x85\x4a\x12\x06\x3d\xab\xb6\xbd\x6c\xb8\x6e\xb6\xf5\x5e\x2f\x47\x80\x62\xdd\xda\x66\x7f\x6d\xd0\x38\x3e\xcd\xf3\xcb\xc7\x29\xad\xa5\xb2\x53\x42\xab\x58\xc7\x29\x65\xa1\x30\x64\x31\x7b\xd3\xbe\x10\xa0\x96\x91\x20\x14\xcf\x27\x70\xac\xbe\x62\x59\x96\xd3\x07\xc2\x75\x14\xf8\x56\xd8\xb8\x10\x83\xa0\xba\xce\x97\xa8\x62\x50\x6d\x4a\x04\x5e\xb8\xde\x2a\xea\xa2\xf7\x94\x2f\xdd\xb2\xe1\x7e\x41\x0d\x62\xc2\x36\x05\xef\x75\x8d\x56\x83\xe4\xf9\x72\xe4\xfa\x09\x98\x92\x12\x26\x54\xd9\x1a\x9a\xe1\xb0\xc9\x12\x4a\x64\xbb\xac\xb0\x9d\x3e\x4e\xf3\x26\xa3\x99\x8e\x02\x27\x14\x51\x40\x9a\x6b\x9a\xa5\x5b\xdc\x88\x5b\x9c\x46\x10\xbd\x91\x44\x36\x22\x1a\x41\x74\xcd\xca\x79\x94\xb8\x7d\x7f\xe2\x18\x92\x0c\x8e\x77\x18\x7a\x5c\x19\xb5\xd8\xa4\x69\x2a\x94\x5b\xa0\x84\x87\x95\xa6\xf9\xec\x1c\x0a\x52\xbf\xd3\xaf\xde\x6b\xf6\xaf\xd6\x28\x5e\x9b\x1b\xa6\x67\xb7\x04\x41\x10\x79\x62\x14\x9d\xc1\x6a\x3d\x0a\x03\xdf\x8d\x5c\x87\x61\x80\xb6\xfe\x03\xa2\x82\x60\x34\x48\x87\x16\xce\xc4\x66\xf0\x61\x04\xd5\x1d\xbe\xb6\x88\xbd\xa3\x8f\xef\x9f\xc0\x67\xd5\x1d\x62\x1b\x04\x35\x29\xd9\x34\x6e\x3d\xbc\x59\x1c\x5d\x5a\x10\x96\x6e\xf8\xea\x0b\xf1\x15\x64\x15\x15\x50\x56\x12\xe8\x23\x13\xf2\x09\x08\x4a\xfd\x85\x77\x31\xa5\x72\xe9\x11\xa9\x24\x31\xf2\x9c\xd1\x9c\x4a\x1a\x5b\x0c\xd4\x3b\x4d\xc0\x41\xac\xe8\xa5\xa2\xc3\x9e\xf7\x4f\xc0\xd2\xd3\xab\x3a\xe1\xdc\xc3\x34\xee\xed\x62\x70\x6d\x19\xac\x77\xd8\x77\x64\x42\x73\x9a\xb5\x0b\xaf\xb3\x25\x73\x2a\xad\x98\xa2\x68\x3b\x46\x29\x69\x7d\x58\xd0\xd2\xbd\xad\x3c\xc9\x34\xc0\xb4\x80\x8d\xf4\x86\x32\x32\xdf\xe8\xce\xa0\x53\x30\x44\xe7\x71\xd8\x14\xfd\x17\xce\xa6\xca\xa3\x6a\x29\x80\x87\x05\x9b\x2e\xd4\x76\x11\xb4\xec\x43\xc1\x18\x6d\x33\xda\xba\x2c\x15\x37\x26\x7b\x9b\x2a\xdc\x0f\xb1\x96\xd5\xd1\xb6\xc2\xed\xd1\xc1\xe1\x10\x5d\x9f\xac\x86\xb6\x90\x1a\x19\x3a\x15\xc7\x39\x9d\x52\x76\x8f\x5a\x88\x6a\x12\xab\x59\x87\xee\x14\xde\x50\xea\xc0\x78\x50\xd4\x0b\xeb\x73\x1a\x84\x2f\x1f\x11\x51\xdc\x3d\x19\x95\x84\xe5\x02\x5d\x62\xbb\x73\x10\x88\xf5\x6b\x49\xce\xe4\x32\xdd\xa5\x2d\x3a\xb4\xc7\xc5\x8f\xe0\xe8\xff\xaa\x94\xff\xb9\x2a\xa5\x33\x74\x04\x87\x6a\x98\xc3\xd3\x0e\x87\x06\x94\x2f\x6e\xae\x2f\x90\x60\xca\x8f\x8e\x28\xd1\x39\xf3\x86\x63\x12\x56\xb4\x26\xde\x2d\x05\x90\x7b\xc2\x72\x32\xc9\xa9\x0e\x06\xe6\x37\xd7\x17\x30\xe0\xe2\x9b\x9d\xd3\x85\xec\xe2\x3e\xd1\xaa\x81\x11\x54\xca\x23\x10\x28\xfa\x9d\x0c\x8b\x92\x64\xca\xb5\xc3\x90\x0c\x4d\x84\xb6\x4c\x78\x1d\x05\x2e\xec\xbb\xf7\xc3\x90\x70\x61\xfb\xde\x3e\xa3\xb3\x8a\xd3\x18\xb1\xbd\x32\x99\xa2\xdb\xca\xf8\x94\xc9\x08\xb7\xc8\xc6\x3c\xe7\xe8\x0e\xd1\x32\x8b\x3b\xcd\x8e\x9e\x34\x4d\x13\x95\xbe\x58\xad\xe0\xb6\xfa\xae\x7a\xa0\xbc\x95\x48\x64\x15\x2e\xae\x75\xf8\xbe\x44\x8c\xf0\x25\xe5\x2b\xb4\x8d\x7b\xc5\x18\xfb\x7b\x92\x76\x06\x5d\x92\x5c\xd2\x25\xc6\xdd\xef\xd8\xde\x27\x9c\xe8\x5c\x04\xcf\x55\xee\x1b\x69\xf7\x7a\x18\x7f\x57\x75\xb8\x2c\x7b\x3b\x98\xe8\x05\x7b\x74\xb8\x90\xa6\x29\x0e\x4b\x46\xbe\xd4\x07\xd6\xb4\xb6\xc4\x6e\x06\xc3\xce\xdd\xee\x5f\x6b\xe7\xba\x6b\x63\xe6\xc1\xf9\xc9\x03\xd0\x0d\x06\x03\x6c\x70\xd8\x64\x37\x3c\xf7\xdc\x04\x4d\x26\xed\x80\xda\xd4\xc3\x4f\x56\x2d\xa9\x87\x53\xb9\x17\x4d\xb5\xc9\x62\x01\x27\xed\x54\x49\x0b\x7e\x4f\x34\x8b\xc1\xce\x4f\x1b\xce\x7e\xc0\x88\xa7\xf6\x02\xa2\x0d\x2e\x2a\x0a\x94\x14\xf9\xe1\xd1\x91\x31\x6d\xfd\x89\xe1\xac\xe1\xae\x16\xf5\xfd\xac\x1d\x8f\x61\xd7\xae\x00\x86\x2a\xd0\xc9\x83\xca\xf6\xa6\x7a\x80\xe9\xf1\x0d\xae\x8d\xca\xf8\x60\x75\x86\x72\x29\x74\x42\xc8\xa8\x4d\xab\x13\x1c\x60\x17\xb7\x62\x5a\x06\xb3\x4e\xfc\x34\xab\x0a\xc2\xca\x5d\x9d\x53\xb8\xe6\xac\x20\x9c\xe5\x4b\x9b\xa8\xf2\xb3\x5a\x5a\x0b\xef\xa2\x23\xfe\xb0\x2d\x18\x48\xcb\x0d\xfd\xd8\x0a\xa2\x0a\xa0\xbd\xa7\x6e\x0a\x43\x85\xcc\x66\xcc\x21\x21\xb3\x5b\xc9\x8f\x3b\x96\xe9\xb2\x3c\x78\x99\x76\xea\xa6\xde\x75\xd2\x23\x6c\x97\xa1\x85\xda\xbf\x04\x66\x0a\xb5\x60\x3b\x96\xb5\xce\x97\x07\xad\xd3\x4e\x42\xfa\x16\xaa\x2f\xa7\xb1\x6b\xa5\x44\x8d\x4b\x65\x47\x1d\xb0\x8f\xbc\xc5\x12\x75\xdf\x6a\x7d\x4b\x73\x4c\x90\x87\x5a\xd0\x7a\x8d\x67\xbf\xf2\x29\x32\xb0\x05\x99\xf4\xea\x79\xb2\xd9\x01\xf1\x45\x15\x7a\x37\x82\xfb\xd6\x1f\x2d\x9c\x27\x7a\xdf\x49\xa6\xa8\xba\x32\x85\x3b\xba\x54\xcb\x9d\xa1\xcb\x3a\xa9\xe4\x02\x79\x6c\x67\x31\x15\x59\x88\xef\x12\x13\x5d\x60\xd7\x3c\x87\x1c\xd7\xcb\x40\x21\x26\xa6\x52\x89\xd3\x0b\x52\x56\x25\x9b\x92\xfc\x5b\x4a\x32\xca\x7f\x41\x97\x36\xf4\xc0\x89\x44\x65\xd2\xb9\xd2\x44\x72\x16\xc4\x74\x4a\x6d\x16\x83\x32\xb9\xa0\xdc\xcc\x8c\xef\x91\x15\xe7\x8e\xd6\xef\x99\x5c\xa8\x8a\x02\xb2\x68\xa4\x68\x7d\xf7\xf5\xfb\x64\x6f\xc7\x01\xec\xe2\xbb\xa4\x85\x60\x9c\x7a\xb3\x7c\x53\xf9\xa8\x6c\xaf\xf5\xfb\x76\xff\x53\xeb\xa8\x73\xc6\x47\xfb\x92\xaf\xe8\x83\x37\x5a\x4f\xaf\xea\x07\x26\x09\x04\x13\x32\xbd\xc3\xe5\x59\xda\x3d\xa3\x93\xed\x48\x6b\x49\x55\xed\x22\x85\x97\x12\xd7\xd1\xa4\xed\x8d\xb8\xb2\x09\xc3\x90\xcc\x2e\x81\xc9\x4a\xcb\x0a\x32\x46\x72\x9d\xba\xce\x89\xa4\x1c\xa6\x58\x57\xc2\x18\x9b\xfa\x30\xb5\x80\x76\xb0\x8b\xf1\xb5\x36\x9d\xa9\xc6\xf7\xa2\x2a\xcb\x1d\x0e\xa9\xee\x64\x1d\xd2\x78\xc0\x23\xf5\xb7\x1c\x7a\x07\x9b\x59\xd3\xc0\x6b\xad\xef\xe6\xb8\xd3\x6c\xf2\xb4\x7b\x5c\x22\xd8\x8e\xee\xfc\x54\x69\xab\x03\x83\x7b\xc2\x5d\x7c\xe5\xa9\x8e\xed\x48\x33\x0c\x70\xbf\xf4\x75\x3d\xdf\xf6\x20\x0d\x97\x94\x38\x22\x63\x6c\x20\x69\x90\x5e\xaf\xd3\xbe\xdc\x6d\xe4\xfa\x59\xd8\xd1\x2e\x0f\xb2\x75\x31\x9f\xd3\x7d\x2e\xe6\x1e\x6d\xa5\x13\x65\x41\xeb\x7f\xe3\x63\xe2\x68\x8f\x55\x98\xa8\x98\x6a\xfc\xd1\xf6\x97\xfd\xe1\x36\x8c\x1d\x24\xf6\xba\xe3\x70\x6a\x40\x39\x9c\xed\xd8\x33\xbf\x62\xe1\xbd\x1f\xb5\xf3\x05\x6b\xab\x54\x51\x99\x22\xed\x60\x76\xce\x8f\x77\x53\x76\xd8\xbf\xe7\xf4\x10\xfb\xb7\xdb\xa2\x1d\xea\xa6\x18\x5b\x33\x60\xff\xf4\xe6\x37\xbb\xf3\x39\x3d\xd2\xfe\x21\x31\x37\x0a\x99\x03\x0d\x20\x76\x75\xce\x0a\x9a\xe5\xa3\x4c\x60\x9d\x2f\xfb\x6c\xa0\xbf\x6c\x3f\xde\x6d\x19\xf6\x2e\x2f\xcb\x03\xbc\xcb\xfd\x0b\xe2\x39\x99\x3b\x56\x78\xa7\x77\xd9\x59\xb5\x5d\x74\xf4\x3b\x2d\x86\xc4\xc3\x96\xec\xd8\x82\xcc\x6e\xef\xd2\x60\xa1\xac\xae\xb8\xad\x7c\x87\x45\xef\x94\x3e\x8d\x6f\xe6\xc1\x7d\xa2\x05\x75\x07\x94\xf8\x8e\x2e\x05\xbc\x7b\x6f\xb3\x78\x7b\xe0\x1d\x54\xd0\x2a\x32\x38\xd9\xe7\x2c\x29\x1b\x50\x13\xc6\xdb\xc9\xc3\xc0\xe6\xf4\xee\x5a\x17\x4a\xa1\x87\x46\x00\x8b\x52\xf7\x36\x13\x36\x95\x8f\xa9\xe2\x49\x7c\x97\xa4\x26\x77\x99\xb4\x79\xb0\x40\x03\x76\x19\x0f\xf5\xa8\x1d\x16\xf4\x35\x94\x5a\x45\xe5\x89\x30\xd5\xbb\x8e\x77\x76\x52\x64\x98\x33\xb3\x04\xfc\xbc\x62\x65\x7c\x52\x64\xa3\xb6\xe9\x1a\xc7\xc4\x6a\x24\xa6\x4d\x12\x0b\xce\x70\x06\xbd\x17\x53\x0b\xd3\x2b\x79\x68\x4e\xec\xdb\xdb\xdb\x6b\x13\x4f\xd8\xb6\xfd\xff\xc6\x61\xa8\xca\xec\x9a\xcb\xa5\x12\x2f\x38\x87\x88\xd4\x75\xce\xa6\xea\x60\x89\x3a\xab\xf7\x04\xa6\x0b\xc2\x05\x95\xe7\x8d\x9c\x9d\xfe\x2c\x72\xa9\x34\x9c\xd5\xa4\x07\x4c\x35\x1d\x05\x6b\x61\x5a\xd4\x9e\xdd\x9f\x62\x43\x60\x55\x09\x35\xa7\x19\x9d\xb1\x92\x66\xea\x4c\x84\x30\x7b\x6e\x63\x9a\xbd\x89\xb5\xee\x91\x9c\x6e\x62\xcd\x3f\xac\x61\x7d\x16\x36\x83\x54\xc1\x57\xee\xbd\xa7\xb7\x36\xf2\x3c\x28\x3b\xef\xde\x0f\x43\x57\xeb\xdf\xf7\xda\x64\xdb\xf4\x1c\xe8\xbf\x8a\x4e\xb2\xad\x7f\xd0\x25\x6a\x72\xad\x6e\x78\x4c\xbd\x87\xe1\x21\x4f\x67\x92\xf2\x78\xf3\x8d\xbc\x68\x97\x36\xf6\x96\x39\x51\x80\xb6\xa9\x3c\x28\xd5\x67\x32\x41\x2a\xad\x57\x20\x63\x8a\xe6\x11\xdd\xa8\x9b\xaa\x41\x1c\x92\xd0\xf3\x24\x4c\x51\xe2\xec\x7c\x90\xcd\xae\xeb\x04\x4f\x7a\x94\x73\x04\x68\x86\xa5\xcf\x74\x93\xc9\xed\x17\x76\x5c\x8c\xce\x99\xe9\x8e\x67\x72\x27\xf0\xd7\x70\x5b\xbd\xc5\x33\x87\xeb\x75\x94\xa4\xd7\x44\x2e\x3a\x7d\xb0\xe1\x96\x16\x35\xfa\xcd\xaa\x87\x15\xa7\x81\x13\x5c\x2a\x99\xd8\xcd\x26\x1a\x8c\x7a\x52\x8a\xc6\x9f\x43\xf2\xbc\x29\x55\xd1\xc4\x99\x07\xdd\x51\xaf\x28\x76\x7c\xa1\x6b\x5f\xd6\x0c\xeb\xd7\x7d\x89\xc5\x40\x95\x03\xda\xdc\x9b\xff\xd3\x28\x8d\xc2\x38\x55\xbe\xd0\xe8\x22\x9b\x8a\x2c\xb4\x5b\x60\xcb\x65\x76\xc6\xef\xf1\x3d\x1f\x61\x74\x92\xd1\x19\x69\x72\x89\xd6\x4e\x0b\x08\xee\x48\x95\x76\xac\x66\xb0\xa9\x0b\x46\x40\x60\x52\x65\x2a\x40\x44\xdd\xa0\xdd\x7b\x0c\x13\x23\x35\x4f\xe4\x22\xcb\x7b\xd4\xb2\x08\x4a\xb5\xa7\x0a\xbb\x38\xd1\xf1\x0b\x01\xa1\xaa\xd5\x80\xfc\x40\x50\xff\xff\xeb\xaf\x53\x78\x69\xca\x5d\xd8\xd3\xcf\x97\xea\x7d\x43\xb9\x3a\x0c\x8d\x3d\x6a\x5e\xdd\x33\x0c\x7d\x17\xea\x0d\x16\xfa\xf3\x1c\xcb\xe7\x0a\x5b\x5d\x65\xc4\x7e\xad\x4f\xe6\x83\x46\x28\x1e\x74\xa4\x22\xbd\x22\x5c\x2c\x88\x3a\xc4\x65\xf1\x2f\x74\x13\x56\xe0\x45\x33\x9d\x52\x9a\x09\x1d\x6b\xfd\xfc\xcd\xeb\x57\xe6\x4c\x75\x66\x0f\x40\xdb\x60\x4d\xd1\xea\xd0\xc1\x8a\xe7\x30\x59\xba\x60\x8f\x47\xda\xf9\xc8\x86\x80\x8e\xb2\xf6\x65\x07\x1a\xb0\x52\x48\x4a\x32\xcb\x33\xad\x24\x7d\x0d\xd1\xe7\x88\xb8\xb3\x1f\x23\x78\xd0\x47\xd6\xba\x62\xa0\x7c\x46\x5c\xd5\x11\x7c\xc0\xed\xe7\xb3\x44\xab\x1f\x2c\x2a\xd6\x94\xaf\xd4\x2a\x9e\x21\x2d\x76\x41\xd1\x13\x61\x33\xcb\x2d\x64\xa0\x36\xb4\xd8\x25\xee\xf2\xb6\xb5\xb3\x6c\x06\xf8\xea\x99\x9a\xd2\x0c\xbd\xd4\xa9\x54\x07\xc8\x8e\x43\x76\xc7\xc9\x13\x3b\x03\x76\x3b\xf7\x6c\x2e\xa2\x0d\xe7\x0e\x9c\x4d\x08\x04\x0f\xa9\x16\x9b\x38\x49\xdf\x50\x19\x47\x46\x11\x9e\xde\x2e\x6b\x1a\x8d\x7c\x93\xa7\x09\x58\x58\x21\xf3\xf1\xef\xaa\x07\x2b\x87\x2d\x1d\xe8\x75\x78\x2e\x87\x85\x61\x7a\x8a\x58\x31\x36\xd8\xc4\xe5\x6e\xd4\xd3\x33\x7d\x41\x65\x7c\x67\x8b\x7f\xeb\x30\x50\x5b\xe3\x4c\x1f\x32\x4d\xb5\x38\xbc\x44\xd7\xb1\x24\xb9\x67\x24\x14\xee\x62\xba\x03\x6b\x4f\xcc\x5a\xc4\x15\xf0\x73\x10\x53\x03\x19\x5f\x9b\xb0\xf1\x21\x55\x42\x61\x30\xc6\x8e\x89\x6b\x8c\x91\xdb\x09\xea\x9b\x56\xee\xb4\xf6\xe3\xf1\xa4\x99\xc1\xbb\xf7\x78\x6e\x36\x31\xb2\xbe\x0a\x95\xaf\xf6\x00\xbe\x08\xb9\x2c\xb8\x95\xb3\xb7\xa5\x59\x59\x84\x30\x82\x2f\x1f\x92\x27\x9b\x59\x72\xed\xa5\x08\xf6\x5b\x0a\xe7\xf0\xb3\xff\xfb\x97\x7f\xa1\x45\x28\xa7\x25\x8e\x49\xe0\xaf\xf4\x3b\xec\x1a\x20\x1a\xe7\x30\x69\x66\xef\xce\xb0\xf1\xbd\x31\x73\x46\x57\xe2\x21\x10\xc5\xb7\x59\x1c\x59\xed\x00\x48\x94\x3a\xff\x71\x86\x09\x2e\xac\xd5\xd6\xe8\xee\x40\x59\x95\xa7\x28\x57\xce\x91\xc7\x8e\xd1\x08\x81\x9b\x42\xac\x81\x6a\xce\xf1\xbe\xa2\x0f\xf1\x83\xde\x17\x8a\x47\x4a\x87\xfa\xb4\xdb\xa3\x01\xab\x30\x50\xbd\xf0\x19\xf5\xcb\xaf\x71\x96\x33\xa3\x40\x7f\x6d\xd4\x39\xae\xbb\xe9\x45\x24\x13\x33\x86\xd7\x3d\x16\xd4\x69\x43\xa5\x48\xbd\xc5\x6d\xc3\x0c\x01\x4c\xdd\xcc\xb0\xd7\x53\x0e\x39\x7e\x9d\xea\x42\x93\x37\xa9\x43\x55\xa1\x85\x57\x0a\xec\x54\x38\x53\x18\x58\xdd\x0b\xe0\x57\xec\x9d\x4b\x6e\x65\x24\x5e\xb4\x40\x13\x4f\xe7\xc5\x09\x74\x8f\xb9\x2d\xd2\x76\x86\x81\xd1\xed\xb6\xc2\x46\xb3\x77\x3a\x20\x0c\x52\x61\x27\xc3\xbe\x99\x61\xd8\xeb\x93\x78\xc9\xa8\x3d\x4e\x89\x4b\x4a\xec\xb4\xfe\x9b\x41\xae\xc2\xbe\xbf\x84\xa2\x0a\xa9\xfa\x82\x0e\x8e\x41\xe5\x77\x6a\x6c\x8d\x1f\xbf\xda\x79\xae\x09\xa7\xa5\x34\x31\xa1\x93\x53\x75\x78\x0c\xcd\x11\x62\x65\x5b\x15\x64\x94\xe0\x7d\x19\xfa\xc0\x4b\x51\xec\x24\xab\x37\xe6\x85\x13\x63\x60\x54\x97\xe1\x78\x37\xc8\xe8\x8c\x72\xe0\x29\x6a\xed\xf4\x02\x53\x99\xa8\x80\x94\xc6\xc0\x58\xb8\x0d\x7f\x37\x68\x35\x90\x51\x73\xa3\x13\x84\x1b\xde\xd5\xe1\xcc\x99\xfb\x1b\x4a\xb2\xa7\x79\x1e\x6b\xe0\x87\x9d\x4b\xb4\x07\xf1\x67\x68\xf0\x46\x10\x19\x4d\xc0\xd1\xd8\x5a\x87\x07\x29\xb3\xec\x8c\x8c\xa6\xde\x50\x44\x5f\x2b\xda\x82\xc6\x2a\x35\x0c\x8d\xce\xce\xc1\x5d\x3c\x69\xd5\x9d\xf1\xf3\x54\xf7\xe0\x69\x9e\x57\x0f\xd7\x84\x4b\x46\x72\xcc\xa6\x49\xde\x18\xa7\xf0\x39\x13\x53\xc2\xb3\xb7\xa5\xba\x24\x74\xd6\xbe\x59\x9b\xd0\x16\x49\x3f\x07\x7f\xc2\x2d\x95\x8a\xd5\xc7\x2d\xa5\xda\xaf\x56\x87\x15\x6b\xaf\x6a\x35\x68\x74\x98\xe9\x36\xec\xaa\x87\xad\x86\x7b\x9f\xa4\x73\x35\x43\x02\xcf\x20\x3e\x23\x99\x11\x07\xf3\x0e\x11\x68\xd1\x72\xd1\x3a\x46\x94\xd7\x84\x93\x42\xd8\x70\xe5\x57\x84\x8b\x98\xe3\x1a\xe2\x45\x8c\xf6\x3d\xc6\xf6\x1f\x1b\xca\x97\x6d\x77\x9e\xbe\xbd\xf9\x2e\xfd\x25\x36\xc6\x76\x80\xd7\x25\xf4\x63\x18\x7d\x16\xf5\xec\xbc\x95\x5a\x75\x67\xc2\x04\x30\xea\x2c\x4c\x69\xbb\xa5\xdf\x55\xda\xb1\x86\x48\x11\xa9\xfb\x60\x7e\x55\x41\x49\x5f\xd0\x52\x4d\xea\x56\x13\xa3\x9b\xfe\xb4\xee\x6e\x14\x5e\x97\xb4\x9a\x6d\xe1\x41\x3f\x6e\xe3\xa1\xc8\xfa\x31\x88\xb8\x6d\xf5\x25\xa7\x1f\xdb\x92\xb6\x09\x5a\x54\x06\xd9\x76\x6d\x33\x83\x3d\x01\x51\xaf\xc6\x1c\x2a\x66\x6a\xfd\x28\x6c\x74\xe0\xec\x3a\x11\x4a\x7f\x6e\x46\x03\x3a\x36\xe2\x47\x14\x2a\x7b\x10\xec\xd3\x7d\xbd\xbe\xf5\x50\xed\xd2\xb9\x48\x43\x8a\xe2\x6a\x4b\x4d\x6c\x2a\x09\xa7\x0b\xde\x0a\x7a\x8d\x0a\x06\xf5\xa5\xf0\xd5\xc7\x5b\x41\x2f\xcb\xa6\x78\xd5\x14\x13\xca\xc5\x59\xfb\xe2\xb2\x60\xf2\x6d\x59\x57\x75\x83\x21\x71\xe6\xd4\xca\x3a\xec\xe8\xd3\x16\x37\x8b\x8e\x3b\x5d\x9e\xc6\x0a\xd5\xf4\x8a\x0a\x41\xe6\x34\xd9\x75\xbc\xc1\x8a\xc1\x87\x91\xd1\x56\xce\x9d\x54\x9e\x94\xd7\xcb\xaf\xb5\xba\x13\x8a\xc2\x38\x03\x7d\x39\x94\xfe\x3c\xe2\x96\x15\x1a\x2a\xba\xb6\xbe\xbb\x75\xc5\x95\xb2\xdb\x55\x66\x45\xc0\xdb\x25\xd6\x05\x11\xb0\x20\x99\x1e\x3b\x54\x54\x55\xa5\xbc\x0c\x0f\x62\x32\xcc\x0a\xb7\xf2\xed\xdf\xd6\x95\x0b\xaa\xa1\x68\x47\x4a\xa4\xd6\xe8\xbb\x5a\x2e\x0a\x33\x66\x5b\x5d\x5a\xd1\xa2\x63\x82\x50\x8c\xc6\x45\xa5\x81\x74\x2b\xb7\x3b\x6b\xb6\x3b\x2b\xb1\x77\x23\xc7\x21\x2f\x52\xd9\x39\x64\x03\x7f\x55\xb4\xdd\x86\x81\xca\x0b\xd9\xdd\x94\xb4\xbd\x15\x35\x5d\xa0\x2e\x4b\xd5\x1b\x92\x8b\x0a\x48\x96\x99\x3d\xac\xb4\x3d\x34\x3c\x0f\x77\x97\x8e\x23\xd3\xf5\x14\xef\x0e\x8f\x8c\x12\xbf\x26\x72\x91\xec\x1b\xe8\x56\x05\xcf\xd2\xa3\xcc\xa1\x12\x89\x92\x4f\xae\x31\x23\x08\x53\x34\xb1\x6d\x47\xd4\x98\xbd\xd1\x6d\x8a\xb5\xa7\xc4\x5c\x02\xf6\x34\xda\x0b\x72\x76\x8f\x5e\x2b\x91\x86\x6b\x45\x25\x55\x7e\x01\xd3\x07\xa4\xc4\xab\x57\xdf\xe3\x39\xfa\x5a\x5f\xf2\xd2\x6d\xa8\x27\xa7\x55\x41\xf5\xdd\x83\x76\x92\x8c\x89\x29\x5e\x9d\x5f\x82\x58\x0a\x49\x8b\x11\x08\x75\xe2\x3b\x67\x77\x34\x5f\x5a\xa1\x43\x31\x82\x68\x51\x09\x79\x86\x12\x1d\x19\x05\xda\xa1\x20\x76\x53\xd9\x43\xc3\x83\x99\xdb\xe3\x2b\xd0\x6c\x06\x9f\x59\x91\xfb\x96\x88\x6b\x4e\x67\xec\xd1\xcd\x38\x82\x08\x77\x65\xa4\x23\x72\x87\xc7\xb9\x6e\x3e\x1b\x8f\x23\xf8\x3f\x8e\x13\x28\x95\x41\xe3\xb4\x60\xc3\xf3\xf4\x1a\xbd\x13\x07\xed\xe0\xb3\x5c\xe8\x5c\x34\xa1\xb9\x7c\x8b\x91\x65\x4f\xc4\x61\xea\xaa\xfa\x96\x42\xf4\xaa\xd2\x0b\xe9\xa5\xb7\xf5\x21\x7a\xc5\x10\x9d\x0c\x42\x40\x0f\x15\xbf\x1b\x81\x4e\x99\x83\xb1\xf4\x18\xf8\xe1\x35\x3a\xae\xfd\x4d\xfd\x96\x21\x0b\xa3\x36\x6d\x8b\x87\xc4\x82\xc3\x63\xa1\x60\xb5\xc2\x4b\xb9\x9b\xc1\x8f\x41\x1a\xdf\xaa\x0c\xa0\x75\x36\x10\x12\x2b\x33\xfa\xb8\x3d\xe2\x6b\x3b\x46\xf9\xf8\xdb\x51\x85\xa5\xb8\xaf\x98\x8f\xce\x86\xfa\x6f\xb0\x63\x5c\xcf\x85\x5c\xaf\xb2\x6f\x6a\xf5\x83\x69\x63\xe3\x41\x06\xd3\xaa\x5e\xbe\xbd\xf9\x2e\x6e\x46\xe0\xf7\x7f\x46\x04\x45\xf5\x81\xe9\x63\xdb\xb5\xf5\x0e\xb6\xb1\xea\xfa\xa5\xdd\x1c\xb1\xe1\x4c\x4f\xe1\x7f\xab\xaa\x1f\x6c\x16\xf6\xad\x6f\xdb\xae\x66\xe7\x77\xfb\xd3\xa9\xab\xde\x0a\xff\xce\x75\x87\xd3\x3f\xd5\xca\x0f\x25\xd2\xd1\x69\xd9\x21\x12\xe6\x50\xc4\x4e\x7a\xbd\x13\x06\x4a\xf3\xd8\x75\x9c\x10\x41\xe1\x04\xf7\xf0\xdb\x9b\xef\x46\xaa\xb8\x64\x4c\x6b\xe2\x9a\x71\xff\x96\xe8\x17\x9c\x9d\xc3\x09\x0e\xd0\x8f\xaa\x90\x60\xc2\x03\xc7\xce\x2f\xf1\x8d\x49\x30\x5c\xc8\x47\x5b\x1a\x7d\x83\xfe\xed\x54\x9d\x71\x6f\xb8\x49\xd5\xa0\x38\xda\x8d\x2b\x2b\xa8\x9b\x3c\x57\xed\xc6\xce\xd1\x0c\x3d\x0c\x01\x55\x83\xa6\xdb\xba\xaf\xc6\x2c\xa9\xf4\x8e\x31\x7b\x85\x75\x61\xfd\x00\x14\x7d\x05\x93\xee\x48\x01\x5e\x55\xd2\xdc\xba\x45\x90\x08\x4b\x69\x8a\x05\xb9\xa7\x60\xbf\xa6\xb1\xdb\x25\x51\xf3\x4c\x54\xb5\xca\x5c\x3c\x53\x17\x6f\x50\xf3\x5b\xd4\xf0\x0e\xb3\xc9\xef\x13\x7b\x70\x49\xf9\x1e\x48\xd5\xd2\x25\xaa\x5d\x69\xcf\xbf\x16\x47\xb9\x33\xb8\xa6\xb4\xdc\xe5\x9d\x2e\x27\x7b\xb7\x42\x86\xed\x81\x9f\xf1\xe9\xe9\x64\x2a\x6e\x3b\xae\x4d\x1e\xe0\x1d\xfe\x64\x05\x65\xe7\xf1\x98\xcc\xaf\x5f\x47\x76\x36\x43\xd7\x7d\x13\x94\x2a\xe4\x35\x6a\x94\xa1\xe3\x31\x7b\x15\xf6\x66\x4a\xaa\x57\xd9\xec\xcc\x48\x6d\xc6\x57\x26\x1d\xa5\xbd\xb1\xcd\x94\x94\xcd\xd2\x98\x69\xec\x68\x9d\x9e\x69\x63\x9f\xcd\x94\x94\x69\xc6\xc0\x57\xbb\x79\xa6\x4a\xe2\xde\xa0\x43\x4d\x54\x3a\xe0\xff\x7d\xfd\xb5\x5f\x2e\x1a\xc1\x83\xa9\x89\xa8\x84\x67\xcd\x29\x3a\x39\x44\xed\x07\x52\x2a\x58\xca\x29\x50\x82\x4a\xa4\xc4\xef\x22\xe0\xfe\xd1\x54\xf8\xfb\xcf\x24\xb0\xa1\xd0\x21\x4c\x8b\xa3\x45\x62\x6f\xca\xcc\x1e\x0f\xe9\x49\x99\xf5\xb2\x7d\x77\xc6\x4c\x4f\x7a\x7c\xca\xec\x98\x0c\xd8\x39\x76\x49\x2f\x5f\x7f\x33\x98\x04\xc3\x2c\x76\x9b\x1b\x47\xc1\x50\x2c\x00\xe4\xe3\xd2\xcf\x7a\x6d\xb8\x3f\x7d\xb0\x30\xa1\xd6\x93\x4f\x73\x40\x0d\x38\x0d\x8f\x7b\xb5\x08\xf8\xac\x53\xf8\x78\xfd\x8b\x9d\x53\xcc\xe2\xcd\x4a\x44\x32\x82\xc8\x93\x99\x33\xf8\xea\x8b\xec\xab\x68\xd4\x99\xc3\xcd\x8d\xee\x08\x12\xbc\x4f\x9a\xc3\xa3\xf3\x7a\x83\x69\xbd\xa1\xac\xde\x3a\x3c\x3c\xa7\x27\xea\xe4\xc9\xfe\x45\xf0\x99\x62\x09\x36\x9d\xbe\x6c\xcf\x3a\x07\xdd\xbc\x8c\xaf\x80\x2e\xcb\x23\x15\x90\xeb\xe9\x39\x06\x5b\x2e\xc1\xa9\x51\x55\x07\xb8\x50\x3b\x73\x41\x2e\x7b\x1e\xba\x68\xd7\xa4\x83\x80\x1c\x9e\x30\x57\x5f\x88\xc0\x9d\x7f\x4f\x38\xab\x1a\x01\x68\x4e\xd0\x0b\x43\xbb\x1c\x8c\xc7\xdb\xc6\x37\x46\x3f\x62\x04\x2a\x61\xa6\x6b\xda\xb8\x49\x12\xab\x0a\x0e\x20\x6b\xb7\x2e\x50\x5d\x06\x8e\x90\xb9\xd4\x11\x7e\xe6\xe9\x9e\xe4\xb8\x16\x51\x64\x32\x93\xba\x69\xf7\x0d\xff\x0d\x66\x98\xd9\xb4\x90\xdb\x0c\x27\xa7\x1f\xc3\x70\xc3\x7c\x0d\x86\xc6\x9b\xfd\x86\x63\x6f\x9d\x95\x78\xa3\x74\x36\x5e\x83\x97\x0b\x4c\xfc\x92\x82\x4a\x2c\xdb\xe0\x5d\x6d\xb9\x40\xb4\x6d\x24\xa7\xce\x50\xd9\xa2\xd2\xc6\x35\x50\x41\x55\x7a\xa8\x93\xeb\xc4\x59\xde\xe8\x76\x97\xec\xb4\x1d\xd7\x9b\x97\x41\xd1\x65\x8c\xc6\x0a\xff\xbe\x68\x0f\x71\xd9\x5d\x3c\xd8\xd4\x41\xa8\xe7\xaa\x26\xcf\xca\xaf\x64\xbb\x7b\x35\x95\x5f\x7c\x8c\xb4\xf3\x69\x35\xa8\xe6\xca\x0d\x79\x30\x4e\x66\x63\x7f\xbb\x77\xee\x05\xfe\xd8\xe0\x9c\x12\xbc\x2e\xeb\xd4\x81\x8b\xde\x8c\x35\x2a\x38\x59\xd4\xa6\x3c\x6b\x16\x58\x16\x75\x97\x9d\x43\xb9\x6b\xb0\x7c\x3c\x85\xc3\xd2\xc6\x6c\xa6\x36\x84\xe9\x76\x43\x6b\x8a\x39\x46\x3b\xec\xa5\x78\x46\x3c\x8d\xda\x07\xf9\x45\x85\xaf\xc1\x7c\xe4\xcd\x02\x36\x04\xbe\x8b\x5c\x62\xfa\x97\x2e\x0b\x6f\xce\x5f\xbf\xd7\x82\x9b\xba\x1e\x17\xa4\xa0\x79\x7b\xca\xdc\xac\x7e\x2e\xdc\xb3\x71\xf3\xbc\xab\x17\x43\xe3\x6d\x15\xc4\xa0\x91\x3e\xcd\xb2\x78\x07\x2a\x23\xef\x93\x52\xf1\x3d\x66\xba\xda\x6a\x49\x47\x06\x11\x27\x9a\x63\x7a\xb8\xc3\xb6\x97\x02\x33\xb7\xf6\xe9\x8d\x24\xfc\xf2\xb1\x36\x79\x77\x25\x92\x83\x78\xfa\x72\xfa\x49\xe8\xce\xe2\xe8\x8b\x2c\x1a\xc1\xc9\xd0\x14\x5d\x6a\x5a\xf4\x2b\x0e\x31\x1a\xf9\xad\x95\x4e\x36\x85\xc1\xd2\x21\x0b\x73\x89\x6e\xe3\xd0\xc9\xe0\xcc\x8e\xfc\xcd\x1d\xd9\xbb\x29\xcd\x9e\x9c\x11\x96\xeb\x53\x41\x76\x4b\x0e\xc1\x8f\xba\xeb\x64\xf4\xab\x55\x47\xb1\x2c\xea\x24\x3c\x8a\xab\x1a\x42\xe2\x31\xca\x92\xbe\x5a\x8d\x4f\xfe\xf0\xaf\x7f\xf3\xc3\xef\xff\xf9\x87\x7f\xfa\xb7\x1f\xfe\xfe\x77\x7f\xfc\xc7\xbf\xfd\xcf\x7f\xff\x8f\x3f\xfc\xfe\xef\x7e\xf8\x97\xdf\xfd\xf1\x77\xff\x70\x32\x76\x41\xb3\xce\x1e\x7d\x92\x24\xfc\x38\x41\x88\x0f\x94\x80\x0d\xca\x3e\x61\xa2\x7d\xf3\xb4\xb1\xbf\xdb\x3c\x9e\x5a\x72\x4f\xe6\x61\xbd\xee\x6a\xb6\x0a\x0b\x60\x43\x25\xb1\x6d\xf5\xa6\xba\x0f\xab\xb7\x16\x6c\xed\xcc\x8f\x1e\x62\x5c\x3f\x03\xd1\xa8\x42\xd3\xcd\x6c\x68\xfb\x0a\xd7\xad\xc2\x2f\x64\xe8\x73\x3b\x86\x7e\xd3\xd5\x63\x80\x3a\x08\x6e\x41\xa8\x42\x9e\x31\xd3\x5e\x88\xb9\xcd\x72\xd3\xff\xa0\x5d\x5e\xd5\xd2\x9b\xba\xcb\xf6\xee\xfa\x76\xb6\xb8\xe9\xdf\xd9\xe3\xa6\x6d\x73\x93\xff\xc4\xb4\x0e\xe9\x8c\x5e\x42\xec\xa0\x7e\x8d\x71\xb4\xce\x78\x41\xe5\xe6\x14\x71\x62\x95\x86\x63\xd7\x2e\xc5\x71\xc4\x5a\xf9\xba\x63\x63\x29\xfe\x7c\xc4\xa8\x9f\xed\x5b\x48\xfb\x5b\x76\xe3\xb1\xf3\x64\x1e\x54\x92\xba\x75\x91\x14\x73\xe0\x1c\x0c\x7e\xda\xbb\x8e\x95\x37\x69\xf6\x6d\xe9\xb9\xb5\x2a\xb5\x1b\xcd\xa9\xd4\x5f\x8a\xf4\xdd\x26\x74\xd2\xbb\x5e\x93\xac\x6e\xa8\xfc\x54\x47\xf9\x10\xef\xe9\x74\x4f\xcd\xbd\x5b\xfb\x1f\x9f\xc0\xeb\x32\x5f\xaa\xaf\x4e\x21\xc2\xaa\xb7\x30\xb5\x3f\xb1\x40\xe7\x12\x26\x2e\xb1\x86\x63\xb1\x1c\x83\xd7\x3b\x15\x67\x2b\xb9\xf0\xcf\xc3\x56\x05\x93\xe8\x7a\x65\x8d\xfa\x5e\x0e\x86\xf0\xac\xa4\x42\xc0\xc9\xd8\xcc\xa8\xc8\xef\x55\xbd\x7b\x5c\xa9\x56\x23\x77\xd6\xcf\x6c\x96\xcd\xe8\xf8\x6a\x7f\x6c\xdc\x06\xc7\x83\xe5\xec\xe1\x7a\xf6\x60\x41\x5b\x6d\x1b\xbc\x4e\xe2\xfc\x7b\x87\xa1\x53\x1c\x7b\xbf\x5d\xb6\xcb\xcd\xd7\xd1\xa6\xca\x66\x60\x06\x0a\xbd\x18\xf8\xe2\x3e\x1a\x81\xe2\x6c\xeb\xec\x3f\xc3\x0e\x2e\x3f\xe3\xbe\x0a\x1a\xe3\x81\x49\x81\xa7\xe7\x9f\x35\xb3\x19\xe5\x31\xe2\xea\x9f\xf9\x06\xff\x54\x85\x09\xd5\x83\xed\x4f\xa5\xed\xfd\xcc\x8a\xfb\x72\xea\xa1\x65\xcb\x57\x4f\x6f\xdf\x7c\xca\x95\x12\x7b\xee\x0e\xc7\x83\x4e\xf5\xba\x67\x73\x11\x15\x71\x41\x44\xcb\x11\x08\x7e\xaf\x9f\xdd\x97\xf0\x4c\x70\xbb\xfd\x11\xbe\x43\xef\x88\xe2\x42\x9a\x93\x06\x98\x9f\xad\x4a\xa5\x5c\x1b\xfa\xa6\x99\x88\x29\x67\x13\xfd\x29\x9b\xad\xeb\x9c\xfe\x27\x43\x30\xbc\xed\xeb\x83\x4a\x99\xdf\xfb\x3d\x15\x10\x7a\x25\xe6\x8a\xb4\x64\x38\x23\xe3\x3e\x7d\xe7\x36\x8e\xb7\xa6\xab\x55\xe7\xcb\x1a\xe4\x8e\x7a\xdc\x3f\xf4\x2b\x35\x38\xe4\x80\xaf\xd4\xb4\x90\xf7\x5e\xa6\xe9\x7c\x63\x37\x75\xfc\x33\x57\x14\x12\x7f\xe1\x06\xbe\x4e\xb3\x1b\x82\x39\x6a\xf1\xe7\xf7\x91\x9a\x96\xae\xbd\xb7\x62\x8d\x0a\x74\x02\x71\x06\x5d\x9a\xf1\x4e\x89\x23\xfb\xa8\x8f\xd4\xe0\x42\x79\x3d\x8c\xf1\x19\x99\xdb\xf7\x97\x65\x6f\x1f\xaf\x96\xd8\xf6\xd8\x38\xbb\x74\xec\x57\x6c\xbc\x55\xf6\xae\x2f\x1c\xff\x15\x1b\x0f\x8e\x3b\x08\xbd\x9f\xb9\x1e\x79\x00\x70\xd2\xe5\x6e\xcb\xda\xad\xef\xd3\x98\x99\x36\xeb\x27\x43\xf3\x78\x19\x7c\x64\xd9\x6a\xd5\x65\x7b\x7f\x25\xa9\x10\x73\xa3\xcd\xae\xc4\x7c\x38\x71\xbf\x7d\xa6\xb5\xef\x4a\xe7\x8e\x93\xf1\x85\x98\xa7\xcf\x95\x11\xeb\x3f\xcb\xd9\x77\xf4\xc0\xca\xf2\xc0\xfd\x50\xc3\x1e\x93\xdd\x6d\x0f\xe3\xf5\xc8\xcb\x66\x02\x56\x11\x7c\xc0\x61\x3c\x4c\x0e\x42\x35\xf9\x0d\x1e\x32\x31\xf9\x55\xe1\xd6\xcb\x7e\x2d\xe4\x8a\x94\x4b\x5d\x53\xc2\x4a\xa3\x3d\x74\xa2\x3f\x1a\xd8\x60\xcc\x81\x85\x1d\x44\x0f\x15\x60\x29\x18\x96\x15\xcd\x8d\x25\xa3\xd4\x06\xf1\x1e\xa8\xfe\xe1\xbc\xc6\x2f\x1f\x41\x39\xed\x98\x23\x57\xf7\xe8\x4f\xb8\x5a\x3e\x77\x64\x50\xcf\x8f\x24\xf8\x13\x9b\x89\x70\x86\x16\x6c\x72\xcc\xb9\x21\xa4\xc8\xe4\xe0\x6d\xdb\x11\xe7\x86\xbc\xd1\x7b\xbe\x4d\x81\xe4\xff\x77\x7f\x9b\xa2\xc5\x6e\xdb\x25\x18\x34\x40\xd7\xcd\x24\x67\x62\x41\xf9\x31\xc7\x82\x86\x3f\x4c\xe1\x2b\x04\xdf\xd4\x7b\xba\x27\x38\xe6\x83\x13\xf6\x88\x4a\x5f\xf7\xf3\x6d\xab\xe0\xa8\x51\x46\xc1\xfb\xf2\x44\x10\xf4\xfa\x1e\xbe\xb5\x88\x4c\xc7\x1e\xd1\xf7\x4f\x9d\x3c\xa7\xfb\x6c\xc4\xf6\x71\x93\xcd\xd3\x26\x9d\xd3\xbd\x4e\x81\xd8\x9d\xd0\x7b\xb6\xa4\x57\xc5\x9a\x38\xc8\x43\xe4\x93\xbf\x1e\x81\x04\x0d\x95\xc7\x87\xd4\xbb\xab\x8a\x0f\x70\xa3\x57\xc7\x1d\xf6\xf5\x08\xab\xff\xff\x64\xdf\x89\x18\x40\xf9\x00\x93\x04\xc3\x36\x09\x0f\x03\x1e\x60\x6e\x28\xe7\x76\xbe\x2d\xb3\x33\x1e\xc3\xb6\xe5\x19\x8f\x61\xed\x41\xb7\x83\x53\x75\x23\xc0\x0e\xfe\xf2\xcb\xed\x77\x29\xd6\x64\xe1\xfc\x1c\xa2\x0f\xcc\xdc\x73\xfb\x10\x0d\x4c\x63\xeb\xd4\xdb\x40\xec\x71\x64\x8b\x48\x4f\x6d\xb7\xf7\xeb\x17\x87\x1a\xdf\xbe\xa2\xeb\x6e\xeb\xdb\xff\x39\x29\x5f\x86\x8d\x0d\xee\x37\xc1\xa6\xfe\xb7\xc3\x02\x77\x2f\x10\xb9\xff\x83\x1e\x73\x06\xc9\xa4\x35\x54\x88\x30\x60\x94\x71\xa9\xad\x46\xbf\x12\xf3\x4d\x9b\x7c\xaa\x70\xfd\x69\x0c\xf3\xa1\xbe\xd4\xbe\xca\xa7\x65\xf9\xa0\x21\x76\x13\xa9\x1d\xe1\xc0\x25\xde\x32\xfc\xd7\x00\x3e\x94\xdd\x7d\x50\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27226, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xc1, 0x25, 0xe4, 0xb8, 0x94, 0xf0, 0x73, 0xd, 0x2f, 0x1b, 0xa5, 0x93, 0xc0, 0xc9, 0x21, 0x24, 0x6f, 0xa7, 0x47, 0xff, 0x0, 0x3e, 0xf, 0xcc, 0xdc, 0xd1, 0xb8, 0xc1, 0xf6, 0xa5, 0x51, 0x76}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27216, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x6e, 0xe6, 0xee, 0x2c, 0x6c, 0x9e, 0x97, 0xc4, 0xa8, 0x92, 0x3e, 0xa7, 0x5f, 0xca, 0xa0, 0xf2, 0xea, 0xf8, 0x22, 0xe5, 0x63, 0x8c, 0x9e, 0xfb, 0xa3, 0x99, 0x1f, 0xd1, 0xc0, 0x30, 0x18, 0x4a}}
 	return a, nil
 }
 
-- 
2.43.0


From 78212c20fdd0a20228e1803cd605ad3cbe2984fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 34/53] fix: generate a client command that compiles for a
 service without unary rpcs

---
 .../template/NAME-service/cmd/NAME-client/main.go.tmpl    | 6 ++++++
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl b/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl
index 71beb66..d00f148 100644
--- a/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl
+++ b/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl
@@ -1,7 +1,9 @@
 package main
 
 import (
+	{{if .Service.Methods}}
 	"context"
+	{{end}}
 	"flag"
 	"log"
 	{{if eq .Config.Transport "all" "nats" }}
@@ -58,6 +60,8 @@ func main() {
 		log.Printf("[Baron.GRPCClient] {{$te.Service.Name}}.{{GoName $i.Name}} result=%+v\n", *out)
 		pln()
 	}
+	{{else}}
+	_ = baronGRPCClient
 	{{end}}
 	{{end}}
 
@@ -109,6 +113,8 @@ func main() {
 		log.Printf("[Baron.NATSClient] {{$te.Service.Name}}.{{GoName $i.Name}} result=%+v\n", *out)
 		pln()
 	}
+	{{else}}
+	_ = baronNATSClient
 	{{end}}
 	{{end}}
 
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index a4b37dd..69b432c 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -2,7 +2,7 @@
 // sources:
 // NAME-service/baron/NAME.pb.baron.go.tmpl (27.216kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
-// NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
+// NAME-service/cmd/NAME-client/main.go.tmpl (3.019kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
 // NAME-service/server/interrupt.go.tmpl (332B)
 // NAME-service/server/server.go.tmpl (3.186kB)
@@ -118,7 +118,7 @@ func cmdNameMainGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _cmdNameClientMainGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xbc\x56\x4d\x6f\xe3\x36\x10\x3d\x8b\xbf\x82\x25\xbc\x0b\xaa\x75\xe8\x45\xb0\x7b\x59\xc0\x87\xb5\x8b\xee\xe6\xd0\xc0\x48\x8c\xf6\x90\xe6\x40\x53\xb4\x4c\x84\x26\x15\x8a\x4a\x52\x08\xfa\xef\xc5\x50\x92\xe5\xcf\xd8\x75\xd2\xfa\x22\x82\x63\xbe\x37\x6f\xf8\x66\xa4\x8c\x8b\x07\x9e\x4a\xbc\xe4\xca\x20\xa4\x96\x99\x75\x1e\x53\x14\x11\x61\x8d\x97\x2f\x9e\xa0\x88\xcc\x35\x4f\xe1\xa9\x2d\x3c\xca\x52\xcd\xb1\x7c\xc4\x6c\x6c\xcd\x5c\xa5\x6c\xea\xb8\xc9\xc3\x31\xc2\xb5\x26\x98\x18\xee\x73\x82\xab\x0a\x45\x24\x55\x7e\x51\xcc\x98\xb0\xcb\x01\xec\x5e\x28\x1b\x9e\x2c\xb5\x01\x48\x9a\xa4\xaa\x10\x8a\xb2\x19\x26\x65\xc9\x26\xa3\xab\xc0\x3f\xe1\x7e\x81\x2f\xaa\xea\x14\xb2\xd4\x65\xa2\x25\xb3\x36\xd5\x92\xa5\x56\x73\x93\x32\xeb\xd2\x41\x08\x76\x44\x31\x42\x4f\xdc\x81\x3a\x08\x7c\x4b\x12\x87\x73\xef\x94\x49\x51\xb4\xf0\x3e\xdb\xd8\x80\x34\xd7\x37\x62\x84\xe6\x85\x11\x58\x19\xe5\x69\x8c\x4b\x14\x41\x55\xd8\x6d\x88\xfe\xc1\x1d\xfd\xd8\x62\xf6\xeb\xa4\x18\x4f\x12\x47\xfa\x98\x7c\xfd\xf2\xe9\xf3\x27\x58\xa4\x37\x93\x31\xa6\x3f\xa6\xd3\x49\x8c\xb5\xca\xbd\x34\x18\xfe\x23\xf3\x9c\xc4\xbb\x70\x6d\x46\x7d\x4c\x60\xb9\x0e\xf7\x25\xc0\x01\xd0\x09\x38\xad\x90\x7e\x7d\x31\x1d\xce\xe7\xcb\xcb\x4b\x58\x5c\x7f\x9b\xde\xee\xe2\x54\x8d\x5e\xf0\xc5\x9a\xde\x09\x77\xb9\xa4\x31\xd4\xf4\x59\xf9\x05\xee\x79\x89\xbf\x0e\x31\x0b\x37\xd0\x5e\x56\xcf\xcb\x13\xee\x6b\x30\xc0\x23\xee\xac\xc1\xdf\xa1\x2e\x63\xad\xa4\xf1\x28\xd2\x36\x65\x13\xa7\x8c\xd7\x86\x92\x3b\x08\xb1\xb2\x04\xc0\x5b\xe9\x9e\x94\x90\xec\x9a\x2f\x65\x55\xdd\x83\xd4\x4c\x1b\x48\x45\x58\x63\xfa\x58\x3a\x07\x99\x84\xd2\xff\xaa\xb8\xa6\x28\x5a\x5d\x73\xbf\x59\xb3\x3f\x95\x5f\x5c\x99\x5c\x8a\xc2\x49\x1a\x6f\x6c\x8f\xb4\x15\x0f\x61\x2f\x46\x11\xe8\x70\x0e\xff\x34\xc4\x46\x69\x10\x1f\xf2\xfa\x8d\x7b\xae\xa9\x74\x2e\x46\x51\x85\xa2\x44\xce\xa5\xc3\xc0\xce\xc6\xda\xd6\x65\x99\x81\x22\xc8\xba\xd6\xb3\x4a\x2b\x9b\xb1\x6b\xf9\xdc\x05\x28\x1c\x3b\x95\xa8\x2c\x1d\x37\xa9\xc4\x3d\x05\x50\xeb\xc5\xf8\x5d\xfa\x85\x4d\xf2\xa6\x9c\x07\xab\x05\x9b\xaa\x59\xa3\x08\x58\x84\x7f\x01\xac\xa6\xc9\xd9\x88\x8b\x87\xd4\xd9\xc2\x24\x20\x22\x82\x2e\x51\x06\x92\x2e\xcb\xef\x16\xce\xe1\x9e\x62\x37\xf2\xb1\x90\xb9\x9f\xfe\x9d\xc9\x15\x56\x64\x8b\x4e\xe4\x96\xf8\x8d\xc3\xf5\x01\x2a\xfc\x4b\x1f\x7f\x54\x20\x7d\x8f\xf6\x4e\xfc\x9c\x92\xbb\xe0\x0e\xd6\xe1\xdd\xe3\x03\xda\xb6\x59\x00\x76\xf8\xe1\xe9\x2f\x43\x42\x6a\xc0\x55\x35\x95\x0d\xd6\x7a\x1b\xb8\x93\x79\xa1\xfd\xf0\xc3\x2f\x35\xc1\xcf\xb6\xf0\xc0\xd0\x98\xb1\xea\xc6\xcd\xda\x80\x0b\x9d\x01\xf0\xd0\xb4\x3f\xa4\xce\xa4\xdb\xba\xbb\xba\x15\x42\x4f\xef\x6f\x05\x08\xdd\xdf\x1d\xeb\x85\x95\x55\x96\x01\xbd\xf5\xcb\x41\x5a\x08\x1c\xb4\x4c\x8d\xf1\x46\xdf\x34\x20\x6b\xe6\x09\xbe\x09\x5e\x01\xf6\xbd\x8d\xd2\x05\x68\x3b\x07\x8f\x39\x86\xae\xdd\xf4\x8e\x29\x3b\xbc\xdd\xcc\xce\x76\x66\x07\x7a\xd4\x3c\x1b\x54\xa7\xdb\xf3\x6c\x86\xd7\x3d\xfa\x9a\x49\x8f\x8c\xef\xf0\x6e\xdf\xb0\x6c\x78\x7d\xec\xb7\x2c\x84\x8e\x4e\x6f\x23\x56\x57\x15\xde\x4f\x63\x6b\x8c\x14\x9e\xb6\xef\xad\x7f\x37\x8d\x8d\xd8\x9a\xc5\x90\xc3\x5e\x8b\x75\x01\x6a\xc4\x7b\x4f\xe2\x83\xca\xff\xcf\x49\xdc\x29\x7c\x9f\x49\xdc\xe1\xfd\x07\x93\xf8\x1c\xf0\xf3\x26\x71\xbd\xaa\xea\xcf\x9b\xf0\x5f\x50\xbc\xe1\xdc\x8b\xf7\xfe\x85\x0f\xaa\x7f\x02\x00\x00\xff\xff\x06\x3c\xfd\x90\x6b\x0b\x00\x00")
+var _cmdNameClientMainGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xbc\x56\xdf\x6f\xdb\x36\x10\x7e\x26\xff\x8a\x1b\x91\x16\xd2\xe6\xd0\x45\xd0\xbe\x14\xc8\x43\x93\x61\x6d\x1f\x16\x18\x8d\xb1\x3d\x64\xc1\x40\xd3\xb4\x4c\x84\x26\x55\x8a\x4a\x33\x08\xfa\xdf\x87\xa3\x24\xcb\x3f\xa2\xd9\x75\x83\xf9\x45\x04\x4f\xfc\xbe\xfb\x8e\xdf\x9d\x9c\x0b\xf9\x20\x32\x05\x2b\xa1\x2d\xa5\x7a\x95\x3b\x1f\x20\xa1\xa4\xaa\xf4\x02\xf8\xad\xf2\x8f\x5a\x2a\xfe\xbb\x0a\x4b\x37\x2f\xea\x9a\x12\x26\x9d\x0d\xea\x29\x30\x7c\x47\xd9\x79\xdc\x5b\x18\x91\x31\x4a\x98\x71\xf8\x88\x67\xd5\x57\xe0\xd7\xce\x2e\x74\xc6\xa7\x5e\xd8\x22\x02\x33\x61\x0c\x03\x66\x45\x28\x18\xc4\x93\x99\x0e\xcb\x72\xc6\xa5\x5b\x8d\x71\xf7\x5c\xbb\xf8\xe4\x99\xdb\x20\xa0\x24\x9f\x01\xab\x2a\x3e\xb9\xfa\x1c\x33\x9c\x88\xb0\x84\xf3\xba\x3e\x86\x2c\xf3\xb9\xec\xc8\x9c\xcb\x8c\xe2\x99\x33\xc2\x66\xdc\xf9\x6c\x1c\x83\x3d\x51\x4a\xe9\xa3\xf0\xa8\x1f\x03\x1f\xe6\x73\x0f\x45\xf0\xda\x66\x94\x2c\x43\xc8\xb7\x36\x30\xcd\xcd\x8d\x94\xd2\x45\x69\x25\x68\xab\x43\x92\x42\x45\x09\x56\x85\xdf\xc6\xe8\x1f\xc2\x27\xaf\x3b\xcc\x51\x93\x14\x17\xf3\xb9\x67\x23\x60\xef\xdf\xbd\x79\xfb\x06\x17\xd9\x97\xc9\x35\x24\x9f\xa6\xd3\x49\x0a\x46\x17\x41\x59\xc0\x77\x54\x51\xb0\x74\x1f\xae\xcb\x68\x04\x0c\x97\x9b\x70\xef\x22\x1c\x02\x1d\x81\xd3\x09\x19\x35\x17\xd3\xe3\xbc\xbd\xb8\xb8\x40\x9c\x9b\x0f\xd3\xdb\x7d\x9c\xba\xd5\x8b\xce\xd9\xd0\x3b\x11\xbe\x50\x49\x8a\x35\xfd\xa6\xc3\x12\xce\x82\x82\xf7\x97\xc0\xe3\x0d\x74\x97\x75\x16\xd4\x11\xf7\x35\x1e\xc3\x95\xf0\xce\xc2\x47\xac\xcb\xb5\xd1\xca\x06\x4a\x8c\xcb\xf8\xc4\x6b\x1b\x8c\x4d\xd8\x1d\x86\x78\x55\x21\x60\x67\xd6\x1b\xb1\x52\x75\x7d\x8f\x25\xcb\x8d\xc5\x54\xa4\xb3\x76\x04\xca\x7b\xcc\x24\x96\xfe\x57\x2d\x4c\x42\xc9\xfa\x9a\x47\xed\x9a\xff\xa9\xc3\xf2\xb3\x2d\x94\x2c\xbd\x4a\xd2\xad\xed\x2b\xe3\xe4\x43\xdc\x4b\x29\x41\x1d\xde\xc3\x4f\x97\x60\xb5\x41\xf1\x31\xaf\xdf\x44\x10\x26\x51\xde\xa7\x94\xd4\x94\xcc\xd5\x42\x79\x40\x76\x7e\x6d\x5c\x53\x96\x19\x2a\xc2\xac\x1b\x3d\xeb\xb4\xf2\x19\xbf\x51\xdf\xfa\x40\x82\xc7\x8e\x25\xaa\x2a\x2f\x6c\xa6\xe0\x4c\xa3\xc2\xcd\x62\x6c\x74\xee\x78\x0c\x83\xd5\xc2\x12\xea\x76\x4d\x09\xca\x91\xe1\x09\xb1\xda\x6e\xe7\x57\x42\x3e\x64\xde\x95\x76\x8e\x22\x08\x76\x89\xb6\x90\xcf\x78\x55\x7d\x74\x78\x0e\xce\x34\xff\xa2\xbe\x96\xaa\x08\xd3\x7f\xf2\x0e\x97\x12\xe2\xca\x5e\xe4\x8e\xf8\xad\xc3\xcd\x81\x44\x86\xa7\x11\xbc\xd6\x16\x59\xf6\xb5\xf7\xe2\x17\x09\xbb\x8b\xee\xe0\x3d\xde\x3d\x0c\x68\xdb\x65\x41\xd8\xcb\x57\x8f\x7f\x59\x16\x53\x43\xae\xba\xad\x6c\xb4\xd6\x8f\x81\x7b\x55\x94\x26\x5c\xbe\xfa\xa5\x21\xf8\xd9\x95\x01\x19\x5a\x33\xc6\x36\x50\xa6\x88\x95\xfe\x1b\xf6\x8a\xd2\x4f\xa3\xf5\xa2\x6d\x1c\x64\xc7\x9e\xfe\xa4\x4c\xae\xfc\xce\xd5\xc6\x74\x01\xc3\x03\x9d\x82\xa1\xfb\xbb\x43\xad\xb2\x76\xd2\x2a\xa2\x77\x76\x1a\xa4\xc5\xc0\xa0\xa3\x1a\x8c\x1f\xb4\x55\x0b\xb2\xe1\x2d\xa4\x26\xb1\x6a\xc8\xfe\x6c\x1f\xf5\x81\xa4\x1b\x93\x87\x0c\xd5\x76\x13\x79\xd6\xb3\x3d\xde\x7e\x66\x27\x1b\xb7\x07\x3d\xe8\xad\x2d\xaa\xe3\xdd\x7b\x32\xc3\x7f\x5b\x98\xd4\xc3\x26\x3d\x30\xdd\xf1\x0b\xc3\xb6\x2c\x1b\xbf\x2e\xcf\x5b\x16\x43\xfc\x90\x63\xad\x5c\x5f\x15\x82\x23\xb3\x55\x32\x24\xdd\x67\xed\xfb\x86\xb5\x95\x3b\xa3\x1a\x73\x78\xd6\x62\x7d\x20\xb1\xf2\xa5\x07\xf5\xa0\xf2\xff\x73\x50\xf7\x0a\x5f\x66\x50\xf7\x78\x07\xdd\xa8\xbf\xdb\xea\xa7\x80\x9f\x32\xa8\x7b\x9e\x81\x1e\x68\xb6\xea\xe6\xcf\x51\xf4\x28\x54\x3b\xc6\x3e\x7f\xe9\x1f\x4b\x69\x4d\xff\x1d\x00\x17\x09\xde\x8f\xcb\x0b\x00\x00")
 
 func cmdNameClientMainGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -133,8 +133,8 @@ func cmdNameClientMainGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "cmd/NAME-client/main.go.tmpl", size: 2923, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xc2, 0xcd, 0x51, 0x79, 0x9a, 0x4c, 0xcc, 0x37, 0xb0, 0xb7, 0x60, 0x7c, 0x1d, 0x9f, 0xa5, 0x53, 0x53, 0x2e, 0xf6, 0x2, 0xf2, 0x9c, 0x5c, 0x8c, 0x6d, 0x31, 0xc4, 0x35, 0xab, 0x44, 0x75, 0xee}}
+	info := bindataFileInfo{name: "cmd/NAME-client/main.go.tmpl", size: 3019, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x70, 0x2d, 0xb6, 0x55, 0x64, 0x80, 0x42, 0xe0, 0xa0, 0x0, 0xe8, 0x49, 0x1c, 0x7, 0x67, 0x32, 0xaa, 0x1b, 0x2a, 0xe2, 0x39, 0x86, 0x42, 0xfd, 0xe0, 0xe5, 0xa, 0x1f, 0x2b, 0xe3, 0x92, 0x4f}}
 	return a, nil
 }
 
-- 
2.43.0


From ff734987225d4d58e80b72259ea3989a6b1bc581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 35/53] fix: encode path parameters that contain reserved
 characters

---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl | 11 +++++------
 gengokit/template/template.go                         |  8 ++++----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 78eadf5..33d9a17 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -621,12 +621,11 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 			{{$section}},
 		{{- end}}
 		}, "/")
-		u, err := url.Parse(path)
-		if err != nil {
-			return errors.Wrapf(err, "couldn't unmarshal path %q", path)
-		}
-		r.URL.RawPath = u.RawPath
-		r.URL.Path = u.Path
+		// the values are not encoded, net/url does it
+		r.URL.RawPath = ""
+		r.URL.Path = path
+		var err error
+		_ = err
 
 		// Set the query parameters
 		values := r.URL.Query()
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 69b432c..5c33333 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.216kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.168kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (3.019kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4b\x8f\x1c\xc9\x71\xf0\xb9\xea\x57\xc4\x16\xf6\x51\x35\x5f\x4f\xf5\x7e\x1f\xf0\x19\xf2\x10\x63\x80\x1c\xce\x72\x29\xed\x90\xa3\xe1\x50\x7b\x20\x08\x2a\xbb\x2b\xbb\x3b\x35\xf5\x62\x66\xd6\xcc\xb4\xda\x7d\xf1\x45\x06\x6c\xc0\x80\x4f\x3e\x18\x82\x4f\xbe\x1a\x3e\xfb\xf7\x68\x0d\xfd\x0b\x23\xf2\x55\x59\xdd\x55\xfd\xe0\xae\x0c\x19\x30\x01\xed\x74\x65\x65\x46\x46\x44\x46\xc6\x33\xb3\x34\x1e\xc3\x45\x95\x51\x98\xd3\x92\x72\x22\x69\x06\x93\x25\x4c\x08\xaf\xca\x14\x9e\xbf\x86\x57\xaf\x6f\xe1\xf2\xf9\xcb\xdb\x34\x1c\x8f\xe1\x86\xf2\xa6\x2c\x59\x39\xd7\x1d\xe0\x81\xe5\x39\x54\xf7\x94\x3f\x70\x26\x29\xc8\x05\x13\x30\x63\x39\x55\x9d\x7f\x45\xb9\x60\x55\x79\x06\xab\x55\x6a\x7e\xaf\xd7\xde\x0b\x78\x4e\x24\xf5\xdf\xe2\xf3\x7a\x1d\x86\x35\x99\xde\x91\x39\xc5\x37\xd7\xfa\xe7\x2b\x52\xa8\x37\xe3\x31\xdc\xda\x39\x60\x5a\x95\x92\xb0\x52\x40\x41\xe5\xa2\xca\x04\xc8\x0a\x0a\x72\x47\x81\x95\x19\xbb\x67\x59\x43\x72\xa0\x65\x56\x57\xac\x94\x02\x66\xbc\x2a\x40\x50\x7e\xcf\xa6\x54\x8c\x10\x0d\x4e\x3f\x36\x54\x48\x20\x65\x06\x9c\x8a\xba\x2a\x05\x05\xb9\xac\xa9\x82\x84\x5d\x91\xa2\x4a\xd0\x16\xca\x08\x88\x80\x07\x9a\xe7\xf8\x97\x96\xd3\x2a\xa3\x5c\x20\x00\x84\x97\x51\xf3\x3c\xab\xb8\x19\xa8\xa0\x8d\x54\x03\x41\x4e\xcd\xa0\x6a\x38\x88\xa6\xae\x2b\x8e\x9c\x96\x9c\x94\x02\x7f\x23\x66\x8c\xe4\xec\xb7\x44\xb2\xaa\x44\x68\xb3\x8a\x17\x44\x8a\x34\x0c\x59\xa1\x7a\xc4\x61\x10\x4d\x96\x92\x8a\x28\x0c\x22\xa4\x9d\x3e\x4a\xfc\xa9\xd0\x60\xe5\x7c\xfc\x1b\x51\x95\xd8\x30\x2b\x54\x3b\xab\xf4\x7f\xc7\xac\x6a\x24\xcb\xf1\xa1\xa4\x72\xbc\x90\xb2\xb6\xbf\x1b\xae\x9a\x85\xe4\xd3\xaa\xbc\x37\x3f\x59\x39\x17\x51\x18\x06\xd1\x9c\xc9\x45\x33\x49\xa7\x55\x31\x9e\x57\xa7\x77\x4c\x8e\xf1\x7f\x96\x17\x51\x18\x90\x72\x59\x4f\x20\x9a\x57\xd5\x3c\xa7\xe9\xbc\xca\x49\x39\x4f\x2b\x3e\x1f\xd7\xbc\x92\xd5\xa4\x99\x8d\x15\xfd\xe3\xbb\xb2\x7a\x28\xc7\xaa\x77\x14\x06\x59\xc3\x15\x91\x47\x0c\x6d\x87\x44\x61\x40\x8b\x5a\x1e\x33\xaf\xe9\x1f\x85\xc1\x8c\xd1\x3c\x2b\x88\xb8\x3b\x62\xb4\x37\x26\x0a\x03\x21\x79\x33\x95\x47\x0c\xb7\x03\xa2\x30\x90\xac\xa0\x42\x92\xa2\x3e\x62\xb8\x37\x26\x0a\x83\x07\x4e\xea\x9a\x72\x71\x04\x80\x76\xc8\xf6\x92\x72\x96\xe7\x64\x5c\x34\x8f\x51\xf7\x4d\x7d\x37\x1f\x53\xce\x2b\xae\x24\x6d\xc7\x44\x4e\xf2\x54\x8b\x15\xbf\x1d\x03\xd4\x0f\x44\x64\xb5\x3a\x05\x36\x03\xfa\x11\xd2\x8b\xaa\x9c\xb1\x79\x7a\xeb\x76\x42\x44\xf2\x3c\x82\xa8\x24\x52\x44\xb0\x5e\x77\x71\xc3\xd6\x53\x56\xa9\xbf\xe9\x1c\x25\x1c\x41\xd1\x32\x5b\xaf\x0f\x82\x3a\xe7\xf5\xd4\x42\xdd\xc2\x53\xbd\x1c\x7c\x33\x2e\xa8\x24\x19\x91\x64\x73\xd2\x83\xa7\x44\xf8\xed\x8e\x1f\xd8\x5f\xae\x83\x45\xc7\x9b\x0b\xf7\xee\x11\x00\xb0\x7b\x74\x10\x5b\x5a\x66\xe3\xaf\x23\xa6\xc0\xee\x1d\x1c\x93\x30\x0c\xef\x09\x87\x38\x0c\x3e\xc0\x39\xcc\x0a\x99\xbe\xa9\x39\x2b\xa5\x7e\x56\x0a\x2c\xbd\xa8\x8a\x9a\x70\xaa\x9b\x8c\xf6\x49\x9f\xca\x8a\xe9\x96\x0e\x99\xe9\x2b\xfa\xf0\x86\xf2\x7b\xca\xf5\x4b\xad\xcd\xd2\x57\x55\x7d\x91\x57\xa2\x6d\x4d\x2f\xaa\x7a\xa9\x1f\xb4\xf0\xa6\xdf\x73\x52\x87\xc1\x78\x0c\x66\x3d\xad\x18\x6a\x1d\x8f\x5d\x95\x4a\x4a\x9f\x96\x6a\x5c\xab\x64\xd2\xe7\xe6\x27\x36\x1b\xf5\x91\x5e\xe2\x5f\x6c\xb0\x5b\x3a\x7d\xa3\x7e\x60\x93\xb7\x4d\xd3\x5b\xfb\x1b\x5f\xb4\xdb\x0f\x7b\xb3\x72\xfe\x2b\x92\x37\x8a\x6e\x4f\xaf\xa4\xdf\xe0\xef\x2b\x22\xee\xc2\x24\x0c\xc7\x27\x07\xfd\x83\x4b\x6b\x93\xc0\x36\xed\xff\x37\x56\x16\xf4\x65\x09\x04\xed\xcd\x3d\xe5\x23\x60\xf2\x2b\x01\x8d\xa0\xb3\x26\x57\x66\x6a\xd6\x94\x53\xe4\x82\x00\xb9\x20\x12\x4a\x8a\x56\xaa\x82\xaa\x56\xbe\x01\x54\x38\xb6\xa6\xfc\xd4\x9a\x01\x04\x38\x21\x82\x89\x14\xbe\xa9\x38\xd0\x47\x52\xd4\x39\x1d\xc1\xb2\x6a\xa0\x60\xf3\x85\x84\x9a\x08\x34\x91\x1e\xc2\xb2\x02\xe2\x26\xd2\xf3\xd4\xbc\xca\x9a\x29\x15\x08\x8e\x94\x4a\x02\xd2\x6f\x49\x99\xe5\x88\xe3\x03\x93\x0b\xa0\x64\xba\x30\x96\x1e\x62\x3b\x7b\x02\x0f\x8c\xd3\x0c\x9a\x1a\x91\x24\x20\x6a\x3a\x65\x33\x36\x85\x9a\xc8\x45\x0a\xf1\x4b\x89\x00\x99\x80\x9a\x57\x13\x32\xc9\x97\x40\xa0\x60\x42\x6a\x2f\x01\x32\x2a\xd8\xbc\xc4\xa1\xac\xbc\xaf\xee\xd0\xdc\x53\x40\x61\x63\x53\xea\xbc\x0a\x85\x22\x45\x38\x2d\x05\x5a\x06\x80\xb5\x9c\x4c\x93\x70\x3c\x76\xdc\x9d\xe6\x8c\x96\xb2\xcb\x5d\x59\xc1\xb4\xca\x73\x3a\x95\x9e\x83\x92\x2f\x61\x5a\x95\x1a\x1c\xcd\x3c\x77\x85\x95\x48\x10\x02\x14\xac\x9c\xe7\xda\x31\xd1\xbc\x62\xc8\xe1\x82\x22\x1e\x3e\xbe\xac\x94\x94\xcf\xc8\x94\x0e\xad\x04\x02\x73\x93\xf5\x3b\x49\x0d\x4e\xd6\x7a\x25\xca\x59\xc0\x0d\x78\x61\xe8\x99\x56\xc5\x84\x95\x8a\x4f\x85\x41\xd1\x5b\xd8\x91\x71\xa5\x64\xc3\x4b\x60\x12\xf9\x8a\x08\x4e\x49\x9e\x53\x8e\x1e\x13\xb1\xc8\xa6\xa1\x22\x67\x8b\xa1\xab\x30\x78\x5b\x3a\xfa\x68\xb6\x5a\xa5\x76\x84\x76\x01\x8d\x26\x58\xad\x38\x29\xe7\x14\x3e\x67\x70\x76\x0e\xae\xcf\x95\x5e\x32\xd4\x63\xab\xd5\xe7\xcc\x8c\xb1\xb3\x00\x80\x23\x35\xb5\x8d\xe1\x6a\xa5\x95\xab\xf6\x2e\x6d\xb3\xd8\x3f\x05\x0a\x30\xc4\x1e\x11\x09\x78\x93\xc6\x53\xf9\x08\xc6\x4b\x43\xd3\x80\x7f\x47\x28\x30\x27\xab\xd5\x8b\x0a\x11\x83\xcf\x59\x7a\xa3\x5d\xd0\xdb\x65\x6d\x09\x4c\x20\xde\xe8\xa1\x1d\x53\xaf\xcb\x48\x2b\xb8\x04\x56\x61\x60\xfd\x56\xd5\x86\x88\xd2\xb4\x87\x72\x44\x06\x27\x4f\xc2\x00\x8d\x15\xe7\xf0\xd9\x39\x94\x2c\x47\x08\x81\x59\xaf\x92\xe5\x0a\x48\x18\xac\x43\xdb\x66\xa1\xa7\x7b\x71\x4a\x46\x08\x2f\x5c\x3b\x76\x22\x33\xaf\xc8\x9d\xc7\x9e\x70\xb5\x52\x1b\xf9\x73\x49\x11\xd1\x74\x8d\x9d\x4f\xc1\xe7\xf2\xe7\x92\x0e\x31\x1a\x61\xf5\x51\x26\x90\xe9\x92\xf6\x8a\x49\xb2\xbd\xdc\xb0\x72\xc4\xe1\xfa\xf5\xaf\x92\x0d\x0c\xdc\x8e\x5a\xad\x13\x88\x2d\x33\xfc\x66\xc5\x31\x6f\x39\x02\x4e\x3f\x22\x21\x06\x42\x1a\xef\x5b\xed\x30\x08\xee\xdd\xda\x09\x7f\xed\x10\x35\x85\x4a\x12\x06\x3d\xab\xb6\xbd\x6c\xb8\x6e\xb6\xf5\x5e\x2f\x47\x80\x62\xdd\xda\x66\x7f\x6d\xd0\x38\x3e\xcd\xf3\xcb\xc7\x29\xad\xa5\xb2\x53\x42\xab\x58\xc7\x29\x65\xa1\x30\x64\x31\x7b\xd3\xbe\x10\xa0\x96\x91\x20\x14\xcf\x27\x70\xac\xbe\x62\x59\x96\xd3\x07\xc2\x75\x14\xf8\x56\xd8\xb8\x10\x83\xa0\xba\xce\x97\xa8\x62\x50\x6d\x4a\x04\x5e\xb8\xde\x2a\xea\xa2\xf7\x94\x2f\xdd\xb2\xe1\x7e\x41\x0d\x62\xc2\x36\x05\xef\x75\x8d\x56\x83\xe4\xf9\x72\xe4\xfa\x09\x98\x92\x12\x26\x54\xd9\x1a\x9a\xe1\xb0\xc9\x12\x4a\x64\xbb\xac\xb0\x9d\x3e\x4e\xf3\x26\xa3\x99\x8e\x02\x27\x14\x51\x40\x9a\x6b\x9a\xa5\x5b\xdc\x88\x5b\x9c\x46\x10\xbd\x91\x44\x36\x22\x1a\x41\x74\xcd\xca\x79\x94\xb8\x7d\x7f\xe2\x18\x92\x0c\x8e\x77\x18\x7a\x5c\x19\xb5\xd8\xa4\x69\x2a\x94\x5b\xa0\x84\x87\x95\xa6\xf9\xec\x1c\x0a\x52\xbf\xd3\xaf\xde\x6b\xf6\xaf\xd6\x28\x5e\x9b\x1b\xa6\x67\xb7\x04\x41\x10\x79\x62\x14\x9d\xc1\x6a\x3d\x0a\x03\xdf\x8d\x5c\x87\x61\x80\xb6\xfe\x03\xa2\x82\x60\x34\x48\x87\x16\xce\xc4\x66\xf0\x61\x04\xd5\x1d\xbe\xb6\x88\xbd\xa3\x8f\xef\x9f\xc0\x67\xd5\x1d\x62\x1b\x04\x35\x29\xd9\x34\x6e\x3d\xbc\x59\x1c\x5d\x5a\x10\x96\x6e\xf8\xea\x0b\xf1\x15\x64\x15\x15\x50\x56\x12\xe8\x23\x13\xf2\x09\x08\x4a\xfd\x85\x77\x31\xa5\x72\xe9\x11\xa9\x24\x31\xf2\x9c\xd1\x9c\x4a\x1a\x5b\x0c\xd4\x3b\x4d\xc0\x41\xac\xe8\xa5\xa2\xc3\x9e\xf7\x4f\xc0\xd2\xd3\xab\x3a\xe1\xdc\xc3\x34\xee\xed\x62\x70\x6d\x19\xac\x77\xd8\x77\x64\x42\x73\x9a\xb5\x0b\xaf\xb3\x25\x73\x2a\xad\x98\xa2\x68\x3b\x46\x29\x69\x7d\x58\xd0\xd2\xbd\xad\x3c\xc9\x34\xc0\xb4\x80\x8d\xf4\x86\x32\x32\xdf\xe8\xce\xa0\x53\x30\x44\xe7\x71\xd8\x14\xfd\x17\xce\xa6\xca\xa3\x6a\x29\x80\x87\x05\x9b\x2e\xd4\x76\x11\xb4\xec\x43\xc1\x18\x6d\x33\xda\xba\x2c\x15\x37\x26\x7b\x9b\x2a\xdc\x0f\xb1\x96\xd5\xd1\xb6\xc2\xed\xd1\xc1\xe1\x10\x5d\x9f\xac\x86\xb6\x90\x1a\x19\x3a\x15\xc7\x39\x9d\x52\x76\x8f\x5a\x88\x6a\x12\xab\x59\x87\xee\x14\xde\x50\xea\xc0\x78\x50\xd4\x0b\xeb\x73\x1a\x84\x2f\x1f\x11\x51\xdc\x3d\x19\x95\x84\xe5\x02\x5d\x62\xbb\x73\x10\x88\xf5\x6b\x49\xce\xe4\x32\xdd\xa5\x2d\x3a\xb4\xc7\xc5\x8f\xe0\xe8\xff\xaa\x94\xff\xb9\x2a\xa5\x33\x74\x04\x87\x6a\x98\xc3\xd3\x0e\x87\x06\x94\x2f\x6e\xae\x2f\x90\x60\xca\x8f\x8e\x28\xd1\x39\xf3\x86\x63\x12\x56\xb4\x26\xde\x2d\x05\x90\x7b\xc2\x72\x32\xc9\xa9\x0e\x06\xe6\x37\xd7\x17\x30\xe0\xe2\x9b\x9d\xd3\x85\xec\xe2\x3e\xd1\xaa\x81\x11\x54\xca\x23\x10\x28\xfa\x9d\x0c\x8b\x92\x64\xca\xb5\xc3\x90\x0c\x4d\x84\xb6\x4c\x78\x1d\x05\x2e\xec\xbb\xf7\xc3\x90\x70\x61\xfb\xde\x3e\xa3\xb3\x8a\xd3\x18\xb1\xbd\x32\x99\xa2\xdb\xca\xf8\x94\xc9\x08\xb7\xc8\xc6\x3c\xe7\xe8\x0e\xd1\x32\x8b\x3b\xcd\x8e\x9e\x34\x4d\x13\x95\xbe\x58\xad\xe0\xb6\xfa\xae\x7a\xa0\xbc\x95\x48\x64\x15\x2e\xae\x75\xf8\xbe\x44\x8c\xf0\x25\xe5\x2b\xb4\x8d\x7b\xc5\x18\xfb\x7b\x92\x76\x06\x5d\x92\x5c\xd2\x25\xc6\xdd\xef\xd8\xde\x27\x9c\xe8\x5c\x04\xcf\x55\xee\x1b\x69\xf7\x7a\x18\x7f\x57\x75\xb8\x2c\x7b\x3b\x98\xe8\x05\x7b\x74\xb8\x90\xa6\x29\x0e\x4b\x46\xbe\xd4\x07\xd6\xb4\xb6\xc4\x6e\x06\xc3\xce\xdd\xee\x5f\x6b\xe7\xba\x6b\x63\xe6\xc1\xf9\xc9\x03\xd0\x0d\x06\x03\x6c\x70\xd8\x64\x37\x3c\xf7\xdc\x04\x4d\x26\xed\x80\xda\xd4\xc3\x4f\x56\x2d\xa9\x87\x53\xb9\x17\x4d\xb5\xc9\x62\x01\x27\xed\x54\x49\x0b\x7e\x4f\x34\x8b\xc1\xce\x4f\x1b\xce\x7e\xc0\x88\xa7\xf6\x02\xa2\x0d\x2e\x2a\x0a\x94\x14\xf9\xe1\xd1\x91\x31\x6d\xfd\x89\xe1\xac\xe1\xae\x16\xf5\xfd\xac\x1d\x8f\x61\xd7\xae\x00\x86\x2a\xd0\xc9\x83\xca\xf6\xa6\x7a\x80\xe9\xf1\x0d\xae\x8d\xca\xf8\x60\x75\x86\x72\x29\x74\x42\xc8\xa8\x4d\xab\x13\x1c\x60\x17\xb7\x62\x5a\x06\xb3\x4e\xfc\x34\xab\x0a\xc2\xca\x5d\x9d\x53\xb8\xe6\xac\x20\x9c\xe5\x4b\x9b\xa8\xf2\xb3\x5a\x5a\x0b\xef\xa2\x23\xfe\xb0\x2d\x18\x48\xcb\x0d\xfd\xd8\x0a\xa2\x0a\xa0\xbd\xa7\x6e\x0a\x43\x85\xcc\x66\xcc\x21\x21\xb3\x5b\xc9\x8f\x3b\x96\xe9\xb2\x3c\x78\x99\x76\xea\xa6\xde\x75\xd2\x23\x6c\x97\xa1\x85\xda\xbf\x04\x66\x0a\xb5\x60\x3b\x96\xb5\xce\x97\x07\xad\xd3\x4e\x42\xfa\x16\xaa\x2f\xa7\xb1\x6b\xa5\x44\x8d\x4b\x65\x47\x1d\xb0\x8f\xbc\xc5\x12\x75\xdf\x6a\x7d\x4b\x73\x4c\x90\x87\x5a\xd0\x7a\x8d\x67\xbf\xf2\x29\x32\xb0\x05\x99\xf4\xea\x79\xb2\xd9\x01\xf1\x45\x15\x7a\x37\x82\xfb\xd6\x1f\x2d\x9c\x27\x7a\xdf\x49\xa6\xa8\xba\x32\x85\x3b\xba\x54\xcb\x9d\xa1\xcb\x3a\xa9\xe4\x02\x79\x6c\x67\x31\x15\x59\x88\xef\x12\x13\x5d\x60\xd7\x3c\x87\x1c\xd7\xcb\x40\x21\x26\xa6\x52\x89\xd3\x0b\x52\x56\x25\x9b\x92\xfc\x5b\x4a\x32\xca\x7f\x41\x97\x36\xf4\xc0\x89\x44\x65\xd2\xb9\xd2\x44\x72\x16\xc4\x74\x4a\x6d\x16\x83\x32\xb9\xa0\xdc\xcc\x8c\xef\x91\x15\xe7\x8e\xd6\xef\x99\x5c\xa8\x8a\x02\xb2\x68\xa4\x68\x7d\xf7\xf5\xfb\x64\x6f\xc7\x01\xec\xe2\xbb\xa4\x85\x60\x9c\x7a\xb3\x7c\x53\xf9\xa8\x6c\xaf\xf5\xfb\x76\xff\x53\xeb\xa8\x73\xc6\x47\xfb\x92\xaf\xe8\x83\x37\x5a\x4f\xaf\xea\x07\x26\x09\x04\x13\x32\xbd\xc3\xe5\x59\xda\x3d\xa3\x93\xed\x48\x6b\x49\x55\xed\x22\x85\x97\x12\xd7\xd1\xa4\xed\x8d\xb8\xb2\x09\xc3\x90\xcc\x2e\x81\xc9\x4a\xcb\x0a\x32\x46\x72\x9d\xba\xce\x89\xa4\x1c\xa6\x58\x57\xc2\x18\x9b\xfa\x30\xb5\x80\x76\xb0\x8b\xf1\xb5\x36\x9d\xa9\xc6\xf7\xa2\x2a\xcb\x1d\x0e\xa9\xee\x64\x1d\xd2\x78\xc0\x23\xf5\xb7\x1c\x7a\x07\x9b\x59\xd3\xc0\x6b\xad\xef\xe6\xb8\xd3\x6c\xf2\xb4\x7b\x5c\x22\xd8\x8e\xee\xfc\x54\x69\xab\x03\x83\x7b\xc2\x5d\x7c\xe5\xa9\x8e\xed\x48\x33\x0c\x70\xbf\xf4\x75\x3d\xdf\xf6\x20\x0d\x97\x94\x38\x22\x63\x6c\x20\x69\x90\x5e\xaf\xd3\xbe\xdc\x6d\xe4\xfa\x59\xd8\xd1\x2e\x0f\xb2\x75\x31\x9f\xd3\x7d\x2e\xe6\x1e\x6d\xa5\x13\x65\x41\xeb\x7f\xe3\x63\xe2\x68\x8f\x55\x98\xa8\x98\x6a\xfc\xd1\xf6\x97\xfd\xe1\x36\x8c\x1d\x24\xf6\xba\xe3\x70\x6a\x40\x39\x9c\xed\xd8\x33\xbf\x62\xe1\xbd\x1f\xb5\xf3\x05\x6b\xab\x54\x51\x99\x22\xed\x60\x76\xce\x8f\x77\x53\x76\xd8\xbf\xe7\xf4\x10\xfb\xb7\xdb\xa2\x1d\xea\xa6\x18\x5b\x33\x60\xff\xf4\xe6\x37\xbb\xf3\x39\x3d\xd2\xfe\x21\x31\x37\x0a\x99\x03\x0d\x20\x76\x75\xce\x0a\x9a\xe5\xa3\x4c\x60\x9d\x2f\xfb\x6c\xa0\xbf\x6c\x3f\xde\x6d\x19\xf6\x2e\x2f\xcb\x03\xbc\xcb\xfd\x0b\xe2\x39\x99\x3b\x56\x78\xa7\x77\xd9\x59\xb5\x5d\x74\xf4\x3b\x2d\x86\xc4\xc3\x96\xec\xd8\x82\xcc\x6e\xef\xd2\x60\xa1\xac\xae\xb8\xad\x7c\x87\x45\xef\x94\x3e\x8d\x6f\xe6\xc1\x7d\xa2\x05\x75\x07\x94\xf8\x8e\x2e\x05\xbc\x7b\x6f\xb3\x78\x7b\xe0\x1d\x54\xd0\x2a\x32\x38\xd9\xe7\x2c\x29\x1b\x50\x13\xc6\xdb\xc9\xc3\xc0\xe6\xf4\xee\x5a\x17\x4a\xa1\x87\x46\x00\x8b\x52\xf7\x36\x13\x36\x95\x8f\xa9\xe2\x49\x7c\x97\xa4\x26\x77\x99\xb4\x79\xb0\x40\x03\x76\x19\x0f\xf5\xa8\x1d\x16\xf4\x35\x94\x5a\x45\xe5\x89\x30\xd5\xbb\x8e\x77\x76\x52\x64\x98\x33\xb3\x04\xfc\xbc\x62\x65\x7c\x52\x64\xa3\xb6\xe9\x1a\xc7\xc4\x6a\x24\xa6\x4d\x12\x0b\xce\x70\x06\xbd\x17\x53\x0b\xd3\x2b\x79\x68\x4e\xec\xdb\xdb\xdb\x6b\x13\x4f\xd8\xb6\xfd\xff\xc6\x61\xa8\xca\xec\x9a\xcb\xa5\x12\x2f\x38\x87\x88\xd4\x75\xce\xa6\xea\x60\x89\x3a\xab\xf7\x04\xa6\x0b\xc2\x05\x95\xe7\x8d\x9c\x9d\xfe\x2c\x72\xa9\x34\x9c\xd5\xa4\x07\x4c\x35\x1d\x05\x6b\x61\x5a\xd4\x9e\xdd\x9f\x62\x43\x60\x55\x09\x35\xa7\x19\x9d\xb1\x92\x66\xea\x4c\x84\x30\x7b\x6e\x63\x9a\xbd\x89\xb5\xee\x91\x9c\x6e\x62\xcd\x3f\xac\x61\x7d\x16\x36\x83\x54\xc1\x57\xee\xbd\xa7\xb7\x36\xf2\x3c\x28\x3b\xef\xde\x0f\x43\x57\xeb\xdf\xf7\xda\x64\xdb\xf4\x1c\xe8\xbf\x8a\x4e\xb2\xad\x7f\xd0\x25\x6a\x72\xad\x6e\x78\x4c\xbd\x87\xe1\x21\x4f\x67\x92\xf2\x78\xf3\x8d\xbc\x68\x97\x36\xf6\x96\x39\x51\x80\xb6\xa9\x3c\x28\xd5\x67\x32\x41\x2a\xad\x57\x20\x63\x8a\xe6\x11\xdd\xa8\x9b\xaa\x41\x1c\x92\xd0\xf3\x24\x4c\x51\xe2\xec\x7c\x90\xcd\xae\xeb\x04\x4f\x7a\x94\x73\x04\x68\x86\xa5\xcf\x74\x93\xc9\xed\x17\x76\x5c\x8c\xce\x99\xe9\x8e\x67\x72\x27\xf0\xd7\x70\x5b\xbd\xc5\x33\x87\xeb\x75\x94\xa4\xd7\x44\x2e\x3a\x7d\xb0\xe1\x96\x16\x35\xfa\xcd\xaa\x87\x15\xa7\x81\x13\x5c\x2a\x99\xd8\xcd\x26\x1a\x8c\x7a\x52\x8a\xc6\x9f\x43\xf2\xbc\x29\x55\xd1\xc4\x99\x07\xdd\x51\xaf\x28\x76\x7c\xa1\x6b\x5f\xd6\x0c\xeb\xd7\x7d\x89\xc5\x40\x95\x03\xda\xdc\x9b\xff\xd3\x28\x8d\xc2\x38\x55\xbe\xd0\xe8\x22\x9b\x8a\x2c\xb4\x5b\x60\xcb\x65\x76\xc6\xef\xf1\x3d\x1f\x61\x74\x92\xd1\x19\x69\x72\x89\xd6\x4e\x0b\x08\xee\x48\x95\x76\xac\x66\xb0\xa9\x0b\x46\x40\x60\x52\x65\x2a\x40\x44\xdd\xa0\xdd\x7b\x0c\x13\x23\x35\x4f\xe4\x22\xcb\x7b\xd4\xb2\x08\x4a\xb5\xa7\x0a\xbb\x38\xd1\xf1\x0b\x01\xa1\xaa\xd5\x80\xfc\x40\x50\xff\xff\xeb\xaf\x53\x78\x69\xca\x5d\xd8\xd3\xcf\x97\xea\x7d\x43\xb9\x3a\x0c\x8d\x3d\x6a\x5e\xdd\x33\x0c\x7d\x17\xea\x0d\x16\xfa\xf3\x1c\xcb\xe7\x0a\x5b\x5d\x65\xc4\x7e\xad\x4f\xe6\x83\x46\x28\x1e\x74\xa4\x22\xbd\x22\x5c\x2c\x88\x3a\xc4\x65\xf1\x2f\x74\x13\x56\xe0\x45\x33\x9d\x52\x9a\x09\x1d\x6b\xfd\xfc\xcd\xeb\x57\xe6\x4c\x75\x66\x0f\x40\xdb\x60\x4d\xd1\xea\xd0\xc1\x8a\xe7\x30\x59\xba\x60\x8f\x47\xda\xf9\xc8\x86\x80\x8e\xb2\xf6\x65\x07\x1a\xb0\x52\x48\x4a\x32\xcb\x33\xad\x24\x7d\x0d\xd1\xe7\x88\xb8\xb3\x1f\x23\x78\xd0\x47\xd6\xba\x62\xa0\x7c\x46\x5c\xd5\x11\x7c\xc0\xed\xe7\xb3\x44\xab\x1f\x2c\x2a\xd6\x94\xaf\xd4\x2a\x9e\x21\x2d\x76\x41\xd1\x13\x61\x33\xcb\x2d\x64\xa0\x36\xb4\xd8\x25\xee\xf2\xb6\xb5\xb3\x6c\x06\xf8\xea\x99\x9a\xd2\x0c\xbd\xd4\xa9\x54\x07\xc8\x8e\x43\x76\xc7\xc9\x13\x3b\x03\x76\x3b\xf7\x6c\x2e\xa2\x0d\xe7\x0e\x9c\x4d\x08\x04\x0f\xa9\x16\x9b\x38\x49\xdf\x50\x19\x47\x46\x11\x9e\xde\x2e\x6b\x1a\x8d\x7c\x93\xa7\x09\x58\x58\x21\xf3\xf1\xef\xaa\x07\x2b\x87\x2d\x1d\xe8\x75\x78\x2e\x87\x85\x61\x7a\x8a\x58\x31\x36\xd8\xc4\xe5\x6e\xd4\xd3\x33\x7d\x41\x65\x7c\x67\x8b\x7f\xeb\x30\x50\x5b\xe3\x4c\x1f\x32\x4d\xb5\x38\xbc\x44\xd7\xb1\x24\xb9\x67\x24\x14\xee\x62\xba\x03\x6b\x4f\xcc\x5a\xc4\x15\xf0\x73\x10\x53\x03\x19\x5f\x9b\xb0\xf1\x21\x55\x42\x61\x30\xc6\x8e\x89\x6b\x8c\x91\xdb\x09\xea\x9b\x56\xee\xb4\xf6\xe3\xf1\xa4\x99\xc1\xbb\xf7\x78\x6e\x36\x31\xb2\xbe\x0a\x95\xaf\xf6\x00\xbe\x08\xb9\x2c\xb8\x95\xb3\xb7\xa5\x59\x59\x84\x30\x82\x2f\x1f\x92\x27\x9b\x59\x72\xed\xa5\x08\xf6\x5b\x0a\xe7\xf0\xb3\xff\xfb\x97\x7f\xa1\x45\x28\xa7\x25\x8e\x49\xe0\xaf\xf4\x3b\xec\x1a\x20\x1a\xe7\x30\x69\x66\xef\xce\xb0\xf1\xbd\x31\x73\x46\x57\xe2\x21\x10\xc5\xb7\x59\x1c\x59\xed\x00\x48\x94\x3a\xff\x71\x86\x09\x2e\xac\xd5\xd6\xe8\xee\x40\x59\x95\xa7\x28\x57\xce\x91\xc7\x8e\xd1\x08\x81\x9b\x42\xac\x81\x6a\xce\xf1\xbe\xa2\x0f\xf1\x83\xde\x17\x8a\x47\x4a\x87\xfa\xb4\xdb\xa3\x01\xab\x30\x50\xbd\xf0\x19\xf5\xcb\xaf\x71\x96\x33\xa3\x40\x7f\x6d\xd4\x39\xae\xbb\xe9\x45\x24\x13\x33\x86\xd7\x3d\x16\xd4\x69\x43\xa5\x48\xbd\xc5\x6d\xc3\x0c\x01\x4c\xdd\xcc\xb0\xd7\x53\x0e\x39\x7e\x9d\xea\x42\x93\x37\xa9\x43\x55\xa1\x85\x57\x0a\xec\x54\x38\x53\x18\x58\xdd\x0b\xe0\x57\xec\x9d\x4b\x6e\x65\x24\x5e\xb4\x40\x13\x4f\xe7\xc5\x09\x74\x8f\xb9\x2d\xd2\x76\x86\x81\xd1\xed\xb6\xc2\x46\xb3\x77\x3a\x20\x0c\x52\x61\x27\xc3\xbe\x99\x61\xd8\xeb\x93\x78\xc9\xa8\x3d\x4e\x89\x4b\x4a\xec\xb4\xfe\x9b\x41\xae\xc2\xbe\xbf\x84\xa2\x0a\xa9\xfa\x82\x0e\x8e\x41\xe5\x77\x6a\x6c\x8d\x1f\xbf\xda\x79\xae\x09\xa7\xa5\x34\x31\xa1\x93\x53\x75\x78\x0c\xcd\x11\x62\x65\x5b\x15\x64\x94\xe0\x7d\x19\xfa\xc0\x4b\x51\xec\x24\xab\x37\xe6\x85\x13\x63\x60\x54\x97\xe1\x78\x37\xc8\xe8\x8c\x72\xe0\x29\x6a\xed\xf4\x02\x53\x99\xa8\x80\x94\xc6\xc0\x58\xb8\x0d\x7f\x37\x68\x35\x90\x51\x73\xa3\x13\x84\x1b\xde\xd5\xe1\xcc\x99\xfb\x1b\x4a\xb2\xa7\x79\x1e\x6b\xe0\x87\x9d\x4b\xb4\x07\xf1\x67\x68\xf0\x46\x10\x19\x4d\xc0\xd1\xd8\x5a\x87\x07\x29\xb3\xec\x8c\x8c\xa6\xde\x50\x44\x5f\x2b\xda\x82\xc6\x2a\x35\x0c\x8d\xce\xce\xc1\x5d\x3c\x69\xd5\x9d\xf1\xf3\x54\xf7\xe0\x69\x9e\x57\x0f\xd7\x84\x4b\x46\x72\xcc\xa6\x49\xde\x18\xa7\xf0\x39\x13\x53\xc2\xb3\xb7\xa5\xba\x24\x74\xd6\xbe\x59\x9b\xd0\x16\x49\x3f\x07\x7f\xc2\x2d\x95\x8a\xd5\xc7\x2d\xa5\xda\xaf\x56\x87\x15\x6b\xaf\x6a\x35\x68\x74\x98\xe9\x36\xec\xaa\x87\xad\x86\x7b\x9f\xa4\x73\x35\x43\x02\xcf\x20\x3e\x23\x99\x11\x07\xf3\x0e\x11\x68\xd1\x72\xd1\x3a\x46\x94\xd7\x84\x93\x42\xd8\x70\xe5\x57\x84\x8b\x98\xe3\x1a\xe2\x45\x8c\xf6\x3d\xc6\xf6\x1f\x1b\xca\x97\x6d\x77\x9e\xbe\xbd\xf9\x2e\xfd\x25\x36\xc6\x76\x80\xd7\x25\xf4\x63\x18\x7d\x16\xf5\xec\xbc\x95\x5a\x75\x67\xc2\x04\x30\xea\x2c\x4c\x69\xbb\xa5\xdf\x55\xda\xb1\x86\x48\x11\xa9\xfb\x60\x7e\x55\x41\x49\x5f\xd0\x52\x4d\xea\x56\x13\xa3\x9b\xfe\xb4\xee\x6e\x14\x5e\x97\xb4\x9a\x6d\xe1\x41\x3f\x6e\xe3\xa1\xc8\xfa\x31\x88\xb8\x6d\xf5\x25\xa7\x1f\xdb\x92\xb6\x09\x5a\x54\x06\xd9\x76\x6d\x33\x83\x3d\x01\x51\xaf\xc6\x1c\x2a\x66\x6a\xfd\x28\x6c\x74\xe0\xec\x3a\x11\x4a\x7f\x6e\x46\x03\x3a\x36\xe2\x47\x14\x2a\x7b\x10\xec\xd3\x7d\xbd\xbe\xf5\x50\xed\xd2\xb9\x48\x43\x8a\xe2\x6a\x4b\x4d\x6c\x2a\x09\xa7\x0b\xde\x0a\x7a\x8d\x0a\x06\xf5\xa5\xf0\xd5\xc7\x5b\x41\x2f\xcb\xa6\x78\xd5\x14\x13\xca\xc5\x59\xfb\xe2\xb2\x60\xf2\x6d\x59\x57\x75\x83\x21\x71\xe6\xd4\xca\x3a\xec\xe8\xd3\x16\x37\x8b\x8e\x3b\x5d\x9e\xc6\x0a\xd5\xf4\x8a\x0a\x41\xe6\x34\xd9\x75\xbc\xc1\x8a\xc1\x87\x91\xd1\x56\xce\x9d\x54\x9e\x94\xd7\xcb\xaf\xb5\xba\x13\x8a\xc2\x38\x03\x7d\x39\x94\xfe\x3c\xe2\x96\x15\x1a\x2a\xba\xb6\xbe\xbb\x75\xc5\x95\xb2\xdb\x55\x66\x45\xc0\xdb\x25\xd6\x05\x11\xb0\x20\x99\x1e\x3b\x54\x54\x55\xa5\xbc\x0c\x0f\x62\x32\xcc\x0a\xb7\xf2\xed\xdf\xd6\x95\x0b\xaa\xa1\x68\x47\x4a\xa4\xd6\xe8\xbb\x5a\x2e\x0a\x33\x66\x5b\x5d\x5a\xd1\xa2\x63\x82\x50\x8c\xc6\x45\xa5\x81\x74\x2b\xb7\x3b\x6b\xb6\x3b\x2b\xb1\x77\x23\xc7\x21\x2f\x52\xd9\x39\x64\x03\x7f\x55\xb4\xdd\x86\x81\xca\x0b\xd9\xdd\x94\xb4\xbd\x15\x35\x5d\xa0\x2e\x4b\xd5\x1b\x92\x8b\x0a\x48\x96\x99\x3d\xac\xb4\x3d\x34\x3c\x0f\x77\x97\x8e\x23\xd3\xf5\x14\xef\x0e\x8f\x8c\x12\xbf\x26\x72\x91\xec\x1b\xe8\x56\x05\xcf\xd2\xa3\xcc\xa1\x12\x89\x92\x4f\xae\x31\x23\x08\x53\x34\xb1\x6d\x47\xd4\x98\xbd\xd1\x6d\x8a\xb5\xa7\xc4\x5c\x02\xf6\x34\xda\x0b\x72\x76\x8f\x5e\x2b\x91\x86\x6b\x45\x25\x55\x7e\x01\xd3\x07\xa4\xc4\xab\x57\xdf\xe3\x39\xfa\x5a\x5f\xf2\xd2\x6d\xa8\x27\xa7\x55\x41\xf5\xdd\x83\x76\x92\x8c\x89\x29\x5e\x9d\x5f\x82\x58\x0a\x49\x8b\x11\x08\x75\xe2\x3b\x67\x77\x34\x5f\x5a\xa1\x43\x31\x82\x68\x51\x09\x79\x86\x12\x1d\x19\x05\xda\xa1\x20\x76\x53\xd9\x43\xc3\x83\x99\xdb\xe3\x2b\xd0\x6c\x06\x9f\x59\x91\xfb\x96\x88\x6b\x4e\x67\xec\xd1\xcd\x38\x82\x08\x77\x65\xa4\x23\x72\x87\xc7\xb9\x6e\x3e\x1b\x8f\x23\xf8\x3f\x8e\x13\x28\x95\x41\xe3\xb4\x60\xc3\xf3\xf4\x1a\xbd\x13\x07\xed\xe0\xb3\x5c\xe8\x5c\x34\xa1\xb9\x7c\x8b\x91\x65\x4f\xc4\x61\xea\xaa\xfa\x96\x42\xf4\xaa\xd2\x0b\xe9\xa5\xb7\xf5\x21\x7a\xc5\x10\x9d\x0c\x42\x40\x0f\x15\xbf\x1b\x81\x4e\x99\x83\xb1\xf4\x18\xf8\xe1\x35\x3a\xae\xfd\x4d\xfd\x96\x21\x0b\xa3\x36\x6d\x8b\x87\xc4\x82\xc3\x63\xa1\x60\xb5\xc2\x4b\xb9\x9b\xc1\x8f\x41\x1a\xdf\xaa\x0c\xa0\x75\x36\x10\x12\x2b\x33\xfa\xb8\x3d\xe2\x6b\x3b\x46\xf9\xf8\xdb\x51\x85\xa5\xb8\xaf\x98\x8f\xce\x86\xfa\x6f\xb0\x63\x5c\xcf\x85\x5c\xaf\xb2\x6f\x6a\xf5\x83\x69\x63\xe3\x41\x06\xd3\xaa\x5e\xbe\xbd\xf9\x2e\x6e\x46\xe0\xf7\x7f\x46\x04\x45\xf5\x81\xe9\x63\xdb\xb5\xf5\x0e\xb6\xb1\xea\xfa\xa5\xdd\x1c\xb1\xe1\x4c\x4f\xe1\x7f\xab\xaa\x1f\x6c\x16\xf6\xad\x6f\xdb\xae\x66\xe7\x77\xfb\xd3\xa9\xab\xde\x0a\xff\xce\x75\x87\xd3\x3f\xd5\xca\x0f\x25\xd2\xd1\x69\xd9\x21\x12\xe6\x50\xc4\x4e\x7a\xbd\x13\x06\x4a\xf3\xd8\x75\x9c\x10\x41\xe1\x04\xf7\xf0\xdb\x9b\xef\x46\xaa\xb8\x64\x4c\x6b\xe2\x9a\x71\xff\x96\xe8\x17\x9c\x9d\xc3\x09\x0e\xd0\x8f\xaa\x90\x60\xc2\x03\xc7\xce\x2f\xf1\x8d\x49\x30\x5c\xc8\x47\x5b\x1a\x7d\x83\xfe\xed\x54\x9d\x71\x6f\xb8\x49\xd5\xa0\x38\xda\x8d\x2b\x2b\xa8\x9b\x3c\x57\xed\xc6\xce\xd1\x0c\x3d\x0c\x01\x55\x83\xa6\xdb\xba\xaf\xc6\x2c\xa9\xf4\x8e\x31\x7b\x85\x75\x61\xfd\x00\x14\x7d\x05\x93\xee\x48\x01\x5e\x55\xd2\xdc\xba\x45\x90\x08\x4b\x69\x8a\x05\xb9\xa7\x60\xbf\xa6\xb1\xdb\x25\x51\xf3\x4c\x54\xb5\xca\x5c\x3c\x53\x17\x6f\x50\xf3\x5b\xd4\xf0\x0e\xb3\xc9\xef\x13\x7b\x70\x49\xf9\x1e\x48\xd5\xd2\x25\xaa\x5d\x69\xcf\xbf\x16\x47\xb9\x33\xb8\xa6\xb4\xdc\xe5\x9d\x2e\x27\x7b\xb7\x42\x86\xed\x81\x9f\xf1\xe9\xe9\x64\x2a\x6e\x3b\xae\x4d\x1e\xe0\x1d\xfe\x64\x05\x65\xe7\xf1\x98\xcc\xaf\x5f\x47\x76\x36\x43\xd7\x7d\x13\x94\x2a\xe4\x35\x6a\x94\xa1\xe3\x31\x7b\x15\xf6\x66\x4a\xaa\x57\xd9\xec\xcc\x48\x6d\xc6\x57\x26\x1d\xa5\xbd\xb1\xcd\x94\x94\xcd\xd2\x98\x69\xec\x68\x9d\x9e\x69\x63\x9f\xcd\x94\x94\x69\xc6\xc0\x57\xbb\x79\xa6\x4a\xe2\xde\xa0\x43\x4d\x54\x3a\xe0\xff\x7d\xfd\xb5\x5f\x2e\x1a\xc1\x83\xa9\x89\xa8\x84\x67\xcd\x29\x3a\x39\x44\xed\x07\x52\x2a\x58\xca\x29\x50\x82\x4a\xa4\xc4\xef\x22\xe0\xfe\xd1\x54\xf8\xfb\xcf\x24\xb0\xa1\xd0\x21\x4c\x8b\xa3\x45\x62\x6f\xca\xcc\x1e\x0f\xe9\x49\x99\xf5\xb2\x7d\x77\xc6\x4c\x4f\x7a\x7c\xca\xec\x98\x0c\xd8\x39\x76\x49\x2f\x5f\x7f\x33\x98\x04\xc3\x2c\x76\x9b\x1b\x47\xc1\x50\x2c\x00\xe4\xe3\xd2\xcf\x7a\x6d\xb8\x3f\x7d\xb0\x30\xa1\xd6\x93\x4f\x73\x40\x0d\x38\x0d\x8f\x7b\xb5\x08\xf8\xac\x53\xf8\x78\xfd\x8b\x9d\x53\xcc\xe2\xcd\x4a\x44\x32\x82\xc8\x93\x99\x33\xf8\xea\x8b\xec\xab\x68\xd4\x99\xc3\xcd\x8d\xee\x08\x12\xbc\x4f\x9a\xc3\xa3\xf3\x7a\x83\x69\xbd\xa1\xac\xde\x3a\x3c\x3c\xa7\x27\xea\xe4\xc9\xfe\x45\xf0\x99\x62\x09\x36\x9d\xbe\x6c\xcf\x3a\x07\xdd\xbc\x8c\xaf\x80\x2e\xcb\x23\x15\x90\xeb\xe9\x39\x06\x5b\x2e\xc1\xa9\x51\x55\x07\xb8\x50\x3b\x73\x41\x2e\x7b\x1e\xba\x68\xd7\xa4\x83\x80\x1c\x9e\x30\x57\x5f\x88\xc0\x9d\x7f\x4f\x38\xab\x1a\x01\x68\x4e\xd0\x0b\x43\xbb\x1c\x8c\xc7\xdb\xc6\x37\x46\x3f\x62\x04\x2a\x61\xa6\x6b\xda\xb8\x49\x12\xab\x0a\x0e\x20\x6b\xb7\x2e\x50\x5d\x06\x8e\x90\xb9\xd4\x11\x7e\xe6\xe9\x9e\xe4\xb8\x16\x51\x64\x32\x93\xba\x69\xf7\x0d\xff\x0d\x66\x98\xd9\xb4\x90\xdb\x0c\x27\xa7\x1f\xc3\x70\xc3\x7c\x0d\x86\xc6\x9b\xfd\x86\x63\x6f\x9d\x95\x78\xa3\x74\x36\x5e\x83\x97\x0b\x4c\xfc\x92\x82\x4a\x2c\xdb\xe0\x5d\x6d\xb9\x40\xb4\x6d\x24\xa7\xce\x50\xd9\xa2\xd2\xc6\x35\x50\x41\x55\x7a\xa8\x93\xeb\xc4\x59\xde\xe8\x76\x97\xec\xb4\x1d\xd7\x9b\x97\x41\xd1\x65\x8c\xc6\x0a\xff\xbe\x68\x0f\x71\xd9\x5d\x3c\xd8\xd4\x41\xa8\xe7\xaa\x26\xcf\xca\xaf\x64\xbb\x7b\x35\x95\x5f\x7c\x8c\xb4\xf3\x69\x35\xa8\xe6\xca\x0d\x79\x30\x4e\x66\x63\x7f\xbb\x77\xee\x05\xfe\xd8\xe0\x9c\x12\xbc\x2e\xeb\xd4\x81\x8b\xde\x8c\x35\x2a\x38\x59\xd4\xa6\x3c\x6b\x16\x58\x16\x75\x97\x9d\x43\xb9\x6b\xb0\x7c\x3c\x85\xc3\xd2\xc6\x6c\xa6\x36\x84\xe9\x76\x43\x6b\x8a\x39\x46\x3b\xec\xa5\x78\x46\x3c\x8d\xda\x07\xf9\x45\x85\xaf\xc1\x7c\xe4\xcd\x02\x36\x04\xbe\x8b\x5c\x62\xfa\x97\x2e\x0b\x6f\xce\x5f\xbf\xd7\x82\x9b\xba\x1e\x17\xa4\xa0\x79\x7b\xca\xdc\xac\x7e\x2e\xdc\xb3\x71\xf3\xbc\xab\x17\x43\xe3\x6d\x15\xc4\xa0\x91\x3e\xcd\xb2\x78\x07\x2a\x23\xef\x93\x52\xf1\x3d\x66\xba\xda\x6a\x49\x47\x06\x11\x27\x9a\x63\x7a\xb8\xc3\xb6\x97\x02\x33\xb7\xf6\xe9\x8d\x24\xfc\xf2\xb1\x36\x79\x77\x25\x92\x83\x78\xfa\x72\xfa\x49\xe8\xce\xe2\xe8\x8b\x2c\x1a\xc1\xc9\xd0\x14\x5d\x6a\x5a\xf4\x2b\x0e\x31\x1a\xf9\xad\x95\x4e\x36\x85\xc1\xd2\x21\x0b\x73\x89\x6e\xe3\xd0\xc9\xe0\xcc\x8e\xfc\xcd\x1d\xd9\xbb\x29\xcd\x9e\x9c\x11\x96\xeb\x53\x41\x76\x4b\x0e\xc1\x8f\xba\xeb\x64\xf4\xab\x55\x47\xb1\x2c\xea\x24\x3c\x8a\xab\x1a\x42\xe2\x31\xca\x92\xbe\x5a\x8d\x4f\xfe\xf0\xaf\x7f\xf3\xc3\xef\xff\xf9\x87\x7f\xfa\xb7\x1f\xfe\xfe\x77\x7f\xfc\xc7\xbf\xfd\xcf\x7f\xff\x8f\x3f\xfc\xfe\xef\x7e\xf8\x97\xdf\xfd\xf1\x77\xff\x70\x32\x76\x41\xb3\xce\x1e\x7d\x92\x24\xfc\x38\x41\x88\x0f\x94\x80\x0d\xca\x3e\x61\xa2\x7d\xf3\xb4\xb1\xbf\xdb\x3c\x9e\x5a\x72\x4f\xe6\x61\xbd\xee\x6a\xb6\x0a\x0b\x60\x43\x25\xb1\x6d\xf5\xa6\xba\x0f\xab\xb7\x16\x6c\xed\xcc\x8f\x1e\x62\x5c\x3f\x03\xd1\xa8\x42\xd3\xcd\x6c\x68\xfb\x0a\xd7\xad\xc2\x2f\x64\xe8\x73\x3b\x86\x7e\xd3\xd5\x63\x80\x3a\x08\x6e\x41\xa8\x42\x9e\x31\xd3\x5e\x88\xb9\xcd\x72\xd3\xff\xa0\x5d\x5e\xd5\xd2\x9b\xba\xcb\xf6\xee\xfa\x76\xb6\xb8\xe9\xdf\xd9\xe3\xa6\x6d\x73\x93\xff\xc4\xb4\x0e\xe9\x8c\x5e\x42\xec\xa0\x7e\x8d\x71\xb4\xce\x78\x41\xe5\xe6\x14\x71\x62\x95\x86\x63\xd7\x2e\xc5\x71\xc4\x5a\xf9\xba\x63\x63\x29\xfe\x7c\xc4\xa8\x9f\xed\x5b\x48\xfb\x5b\x76\xe3\xb1\xf3\x64\x1e\x54\x92\xba\x75\x91\x14\x73\xe0\x1c\x0c\x7e\xda\xbb\x8e\x95\x37\x69\xf6\x6d\xe9\xb9\xb5\x2a\xb5\x1b\xcd\xa9\xd4\x5f\x8a\xf4\xdd\x26\x74\xd2\xbb\x5e\x93\xac\x6e\xa8\xfc\x54\x47\xf9\x10\xef\xe9\x74\x4f\xcd\xbd\x5b\xfb\x1f\x9f\xc0\xeb\x32\x5f\xaa\xaf\x4e\x21\xc2\xaa\xb7\x30\xb5\x3f\xb1\x40\xe7\x12\x26\x2e\xb1\x86\x63\xb1\x1c\x83\xd7\x3b\x15\x67\x2b\xb9\xf0\xcf\xc3\x56\x05\x93\xe8\x7a\x65\x8d\xfa\x5e\x0e\x86\xf0\xac\xa4\x42\xc0\xc9\xd8\xcc\xa8\xc8\xef\x55\xbd\x7b\x5c\xa9\x56\x23\x77\xd6\xcf\x6c\x96\xcd\xe8\xf8\x6a\x7f\x6c\xdc\x06\xc7\x83\xe5\xec\xe1\x7a\xf6\x60\x41\x5b\x6d\x1b\xbc\x4e\xe2\xfc\x7b\x87\xa1\x53\x1c\x7b\xbf\x5d\xb6\xcb\xcd\xd7\xd1\xa6\xca\x66\x60\x06\x0a\xbd\x18\xf8\xe2\x3e\x1a\x81\xe2\x6c\xeb\xec\x3f\xc3\x0e\x2e\x3f\xe3\xbe\x0a\x1a\xe3\x81\x49\x81\xa7\xe7\x9f\x35\xb3\x19\xe5\x31\xe2\xea\x9f\xf9\x06\xff\x54\x85\x09\xd5\x83\xed\x4f\xa5\xed\xfd\xcc\x8a\xfb\x72\xea\xa1\x65\xcb\x57\x4f\x6f\xdf\x7c\xca\x95\x12\x7b\xee\x0e\xc7\x83\x4e\xf5\xba\x67\x73\x11\x15\x71\x41\x44\xcb\x11\x08\x7e\xaf\x9f\xdd\x97\xf0\x4c\x70\xbb\xfd\x11\xbe\x43\xef\x88\xe2\x42\x9a\x93\x06\x98\x9f\xad\x4a\xa5\x5c\x1b\xfa\xa6\x99\x88\x29\x67\x13\xfd\x29\x9b\xad\xeb\x9c\xfe\x27\x43\x30\xbc\xed\xeb\x83\x4a\x99\xdf\xfb\x3d\x15\x10\x7a\x25\xe6\x8a\xb4\x64\x38\x23\xe3\x3e\x7d\xe7\x36\x8e\xb7\xa6\xab\x55\xe7\xcb\x1a\xe4\x8e\x7a\xdc\x3f\xf4\x2b\x35\x38\xe4\x80\xaf\xd4\xb4\x90\xf7\x5e\xa6\xe9\x7c\x63\x37\x75\xfc\x33\x57\x14\x12\x7f\xe1\x06\xbe\x4e\xb3\x1b\x82\x39\x6a\xf1\xe7\xf7\x91\x9a\x96\xae\xbd\xb7\x62\x8d\x0a\x74\x02\x71\x06\x5d\x9a\xf1\x4e\x89\x23\xfb\xa8\x8f\xd4\xe0\x42\x79\x3d\x8c\xf1\x19\x99\xdb\xf7\x97\x65\x6f\x1f\xaf\x96\xd8\xf6\xd8\x38\xbb\x74\xec\x57\x6c\xbc\x55\xf6\xae\x2f\x1c\xff\x15\x1b\x0f\x8e\x3b\x08\xbd\x9f\xb9\x1e\x79\x00\x70\xd2\xe5\x6e\xcb\xda\xad\xef\xd3\x98\x99\x36\xeb\x27\x43\xf3\x78\x19\x7c\x64\xd9\x6a\xd5\x65\x7b\x7f\x25\xa9\x10\x73\xa3\xcd\xae\xc4\x7c\x38\x71\xbf\x7d\xa6\xb5\xef\x4a\xe7\x8e\x93\xf1\x85\x98\xa7\xcf\x95\x11\xeb\x3f\xcb\xd9\x77\xf4\xc0\xca\xf2\xc0\xfd\x50\xc3\x1e\x93\xdd\x6d\x0f\xe3\xf5\xc8\xcb\x66\x02\x56\x11\x7c\xc0\x61\x3c\x4c\x0e\x42\x35\xf9\x0d\x1e\x32\x31\xf9\x55\xe1\xd6\xcb\x7e\x2d\xe4\x8a\x94\x4b\x5d\x53\xc2\x4a\xa3\x3d\x74\xa2\x3f\x1a\xd8\x60\xcc\x81\x85\x1d\x44\x0f\x15\x60\x29\x18\x96\x15\xcd\x8d\x25\xa3\xd4\x06\xf1\x1e\xa8\xfe\xe1\xbc\xc6\x2f\x1f\x41\x39\xed\x98\x23\x57\xf7\xe8\x4f\xb8\x5a\x3e\x77\x64\x50\xcf\x8f\x24\xf8\x13\x9b\x89\x70\x86\x16\x6c\x72\xcc\xb9\x21\xa4\xc8\xe4\xe0\x6d\xdb\x11\xe7\x86\xbc\xd1\x7b\xbe\x4d\x81\xe4\xff\x77\x7f\x9b\xa2\xc5\x6e\xdb\x25\x18\x34\x40\xd7\xcd\x24\x67\x62\x41\xf9\x31\xc7\x82\x86\x3f\x4c\xe1\x2b\x04\xdf\xd4\x7b\xba\x27\x38\xe6\x83\x13\xf6\x88\x4a\x5f\xf7\xf3\x6d\xab\xe0\xa8\x51\x46\xc1\xfb\xf2\x44\x10\xf4\xfa\x1e\xbe\xb5\x88\x4c\xc7\x1e\xd1\xf7\x4f\x9d\x3c\xa7\xfb\x6c\xc4\xf6\x71\x93\xcd\xd3\x26\x9d\xd3\xbd\x4e\x81\xd8\x9d\xd0\x7b\xb6\xa4\x57\xc5\x9a\x38\xc8\x43\xe4\x93\xbf\x1e\x81\x04\x0d\x95\xc7\x87\xd4\xbb\xab\x8a\x0f\x70\xa3\x57\xc7\x1d\xf6\xf5\x08\xab\xff\xff\x64\xdf\x89\x18\x40\xf9\x00\x93\x04\xc3\x36\x09\x0f\x03\x1e\x60\x6e\x28\xe7\x76\xbe\x2d\xb3\x33\x1e\xc3\xb6\xe5\x19\x8f\x61\xed\x41\xb7\x83\x53\x75\x23\xc0\x0e\xfe\xf2\xcb\xed\x77\x29\xd6\x64\xe1\xfc\x1c\xa2\x0f\xcc\xdc\x73\xfb\x10\x0d\x4c\x63\xeb\xd4\xdb\x40\xec\x71\x64\x8b\x48\x4f\x6d\xb7\xf7\xeb\x17\x87\x1a\xdf\xbe\xa2\xeb\x6e\xeb\xdb\xff\x39\x29\x5f\x86\x8d\x0d\xee\x37\xc1\xa6\xfe\xb7\xc3\x02\x77\x2f\x10\xb9\xff\x83\x1e\x73\x06\xc9\xa4\x35\x54\x88\x30\x60\x94\x71\xa9\xad\x46\xbf\x12\xf3\x4d\x9b\x7c\xaa\x70\xfd\x69\x0c\xf3\xa1\xbe\xd4\xbe\xca\xa7\x65\xf9\xa0\x21\x76\x13\xa9\x1d\xe1\xc0\x25\xde\x32\xfc\xd7\x00\x3e\x94\xdd\x7d\x50\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xdc\x38\x76\xf0\xb3\xf4\x2b\xce\x08\x73\x91\xfa\xab\x56\xcd\xf7\x01\x5f\xb0\xe9\x41\x07\xf0\xd8\x3d\x1e\xef\x8e\xed\x5e\xbb\xbd\xf3\x60\x18\x5e\x56\x89\x55\xc5\x6d\xdd\x2c\xb2\xba\xbb\xb6\x52\x2f\x79\xd9\x00\x09\x10\x20\x4f\x79\x08\x16\x79\xca\x6b\x90\xe7\xfc\x9e\x9d\x60\xff\x45\x70\xc8\x43\x8a\xaa\x92\xea\xe2\x99\x0d\x36\x40\x06\xc8\xba\x4b\x22\x0f\xcf\x8d\xe7\x4a\x2a\xe3\x31\x3c\xae\x32\x0e\x73\x5e\xf2\x86\x29\x9e\xc1\x64\x05\x13\xd6\x54\x65\x0a\x4f\x5e\xc2\x8b\x97\x37\x70\xf5\xe4\xd9\x4d\x1a\x8e\xc7\xf0\x8a\x37\xcb\xb2\x14\xe5\xdc\x0c\x80\x7b\x91\xe7\x50\xdd\xf1\xe6\xbe\x11\x8a\x83\x5a\x08\x09\x33\x91\x73\x3d\xf8\x57\xbc\x91\xa2\x2a\x2f\x60\xbd\x4e\xe9\xef\xcd\xc6\x7b\x01\x4f\x98\xe2\xfe\x5b\xfc\xbd\xd9\x84\x61\xcd\xa6\xb7\x6c\xce\xf1\xcd\xb5\xf9\xf3\x05\x2b\xf4\x9b\xf1\x18\x6e\xec\x1a\x30\xad\x4a\xc5\x44\x29\xa1\xe0\x6a\x51\x65\x12\x54\x05\x05\xbb\xe5\x20\xca\x4c\xdc\x89\x6c\xc9\x72\xe0\x65\x56\x57\xa2\x54\x12\x66\x4d\x55\x80\xe4\xcd\x9d\x98\x72\x39\x42\x34\x1a\xfe\x61\xc9\xa5\x02\x56\x66\xd0\x70\x59\x57\xa5\xe4\xa0\x56\x35\xd7\x90\x70\x28\x52\x54\x49\xde\x42\x19\x01\x93\x70\xcf\xf3\x1c\xff\xe5\xe5\xb4\xca\x78\x23\x11\x00\xc2\xcb\x38\xfd\x9e\x55\x0d\x4d\xd4\xd0\x46\xfa\x01\x43\x4e\xcd\xa0\x5a\x36\x20\x97\x75\x5d\x35\xc8\x69\xd5\xb0\x52\xe2\xdf\x88\x99\x60\xb9\xf8\x2d\x53\xa2\x2a\x11\xda\xac\x6a\x0a\xa6\x64\x1a\x86\xa2\xd0\x23\xe2\x30\x88\x26\x2b\xc5\x65\x14\x06\x11\xd2\xce\x1f\x14\xfe\xa9\xd1\x10\xe5\x7c\xfc\x1b\x59\x95\xf8\x60\x56\xe8\xe7\xa2\x32\xff\x3b\x16\xd5\x52\x89\x1c\x7f\x94\x5c\x8d\x17\x4a\xd5\xf6\xef\x65\xa3\x1f\x4b\xd5\x4c\xab\xf2\x8e\xfe\x14\xe5\x5c\x46\x61\x18\x44\x73\xa1\x16\xcb\x49\x3a\xad\x8a\xf1\xbc\x3a\xbf\x15\x6a\x8c\xff\x67\x79\x11\x85\x01\x2b\x57\xf5\x04\xa2\x79\x55\xcd\x73\x9e\xce\xab\x9c\x95\xf3\xb4\x6a\xe6\xe3\xba\xa9\x54\x35\x59\xce\xc6\x9a\xfe\xf1\x6d\x59\xdd\x97\x63\x3d\x3a\x0a\x83\x6c\xd9\x68\x22\x4f\x98\xda\x4e\x89\xc2\x80\x17\xb5\x3a\x65\x5d\x1a\x1f\x85\xc1\x4c\xf0\x3c\x2b\x98\xbc\x3d\x61\xb6\x37\x27\x0a\x03\xa9\x9a\xe5\x54\x9d\x30\xdd\x4e\x88\xc2\x40\x89\x82\x4b\xc5\x8a\xfa\x84\xe9\xde\x9c\x28\x0c\xee\x1b\x56\xd7\xbc\x91\x27\x00\x68\xa7\xec\x8a\xb4\x11\x79\xce\xc6\xc5\xf2\x21\xea\xbe\xa9\x6f\xe7\x63\xde\x34\x55\xa3\x35\x6d\xcf\x42\x4e\xf3\xf4\x13\xab\x7e\x7b\x26\xe8\x3f\x10\x91\xf5\xfa\x1c\xc4\x0c\xf8\x07\x48\x1f\x57\xe5\x4c\xcc\xd3\x1b\xb7\x13\x22\x96\xe7\x11\x44\x25\x53\x32\x82\xcd\xa6\x8b\x1b\x3e\x3d\x17\x95\xfe\x37\x9d\xa3\x86\x23\x28\x5e\x66\x9b\xcd\x51\x50\xe7\x4d\x3d\xb5\x50\x77\xf0\xd4\x2f\x07\xdf\x8c\x0b\xae\x58\xc6\x14\xdb\x5e\xf4\xe8\x25\x11\x7e\xbb\xe3\x07\xf6\x97\x1b\x60\xd1\xf1\xd6\xc2\xbd\x7b\x02\x00\x1c\x1e\x1d\xc5\x96\x96\xd9\xf8\xd7\x09\x4b\xe0\xf0\x0e\x8e\x49\x18\x86\x77\xac\x81\x38\x0c\xde\xc3\x25\xcc\x0a\x95\xbe\xae\x1b\x51\x2a\xf3\x5b\x1b\xb0\xf4\x71\x55\xd4\xac\xe1\xe6\x11\x59\x9f\xf4\x91\xaa\x84\x79\xd2\x21\x33\x7d\xc1\xef\x5f\xf3\xe6\x8e\x37\xe6\xa5\xb1\x66\xe9\x8b\xaa\x7e\x9c\x57\xb2\x7d\x9a\x3e\xae\xea\x95\xf9\x61\x94\x37\xfd\xbe\x61\x75\x18\x8c\xc7\x40\xf2\xb4\x6a\x68\x6c\x3c\x0e\xd5\x26\x29\x7d\x54\xea\x79\xad\x91\x49\x9f\xd0\x9f\xf8\x98\xcc\x47\x7a\x85\xff\xe2\x03\xbb\xa5\xd3\xd7\xfa\x0f\x7c\xe4\x6d\xd3\xf4\xc6\xfe\x8d\x2f\xda\xed\x87\xa3\x45\x39\xff\x15\xcb\x97\x9a\x6e\xcf\xae\xa4\xdf\xe0\xdf\xcf\x99\xbc\x0d\x93\x30\x1c\x9f\x1d\xf5\x1f\x5c\x59\x9f\x04\xf6\xd1\xe1\xff\xc6\xda\x83\x3e\x2b\x81\xa1\xbf\xb9\xe3\xcd\x08\x84\xfa\x42\xc2\x52\xf2\xd9\x32\xd7\x6e\x6a\xb6\x2c\xa7\xc8\x05\x09\x6a\xc1\x14\x94\x1c\xbd\x54\x05\x55\xad\x63\x03\xa8\x70\x6e\xcd\x9b\x73\xeb\x06\x10\xe0\x84\x49\x21\x53\xf8\xa6\x6a\x80\x3f\xb0\xa2\xce\xf9\x08\x56\xd5\x12\x0a\x31\x5f\x28\xa8\x99\x44\x17\xe9\x21\xac\x2a\x60\x6e\x21\xb3\x4e\xdd\x54\xd9\x72\xca\x25\x82\x63\xa5\xd6\x80\xf4\x5b\x56\x66\x39\xe2\x78\x2f\xd4\x02\x38\x9b\x2e\xc8\xd3\x43\x6c\x57\x4f\xe0\x5e\x34\x3c\x83\x65\x8d\x48\x32\x90\x35\x9f\x8a\x99\x98\x42\xcd\xd4\x22\x85\xf8\x99\x42\x80\x42\x42\xdd\x54\x13\x36\xc9\x57\xc0\xa0\x10\x52\x99\x28\x01\x32\x2e\xc5\xbc\xc4\xa9\xa2\xbc\xab\x6e\xd1\xdd\x73\x40\x65\x13\x53\xee\xa2\x0a\x8d\x22\x47\x38\x2d\x05\x46\x07\x40\xb4\x9c\x4c\x93\x70\x3c\x76\xdc\x9d\xe6\x82\x97\xaa\xcb\x5d\x55\xc1\xb4\xca\x73\x3e\x55\x5e\x80\x92\xaf\x60\x5a\x95\x06\x1c\xcf\xbc\x70\x45\x94\x48\x10\x02\x94\xa2\x9c\xe7\x26\x30\x31\xbc\x12\xc8\xe1\x82\x23\x1e\x3e\xbe\xa2\x54\xbc\x99\xb1\x29\x1f\x92\x04\x02\x73\x8b\xf5\x07\x49\x4b\x5c\xac\x8d\x4a\x74\xb0\x80\x1b\xf0\x31\xd1\x33\xad\x8a\x89\x28\x35\x9f\x0a\x42\xd1\x13\xec\x88\x42\x29\xb5\x6c\x4a\x10\x0a\xf9\x8a\x08\x4e\x59\x9e\xf3\x06\x23\x26\x66\x91\x4d\x43\x4d\xce\x0e\x43\xd7\x61\xf0\xa6\x74\xf4\xf1\x6c\xbd\x4e\xed\x0c\x13\x02\x92\x25\x58\xaf\x1b\x56\xce\x39\x7c\x2a\xe0\xe2\x12\xdc\x98\xe7\x46\x64\x68\xc7\xd6\xeb\x4f\x05\xcd\xb1\xab\x00\x80\x23\x35\xb5\x0f\xc3\xf5\xda\x18\x57\x13\x5d\xda\xc7\xf2\xf0\x12\xa8\xc0\x10\x7b\x44\x24\xe0\x2d\x1a\x4f\xd5\x03\x50\x94\x86\xae\x01\xff\x1d\xa1\xc2\x9c\xad\xd7\x4f\x2b\x44\x0c\x3e\x15\xe9\x2b\x13\x82\xde\xac\x6a\x4b\x60\x02\xf1\xd6\x08\x13\x98\x7a\x43\x46\xc6\xc0\x25\xb0\x0e\x03\x1b\xb7\xea\x67\x88\x28\x4f\x7b\x28\x47\x64\x70\xf1\x24\x0c\xd0\x59\x35\x0d\x7c\x72\x09\xa5\xc8\x11\x42\x40\xf2\x2a\x45\xae\x81\x84\xc1\x26\xb4\xcf\x2c\xf4\xf4\x20\x4e\xc9\x08\xe1\x85\x1b\xc7\x4e\x64\xe6\x73\x76\xeb\xb1\x27\x5c\xaf\xf5\x46\xfe\x54\x71\x44\x34\xdd\xe0\xe0\x73\xf0\xb9\xfc\xa9\xe2\x43\x8c\x46\x58\x7d\x94\x49\x64\xba\xe2\xbd\x6a\x92\xec\x8a\x1b\xd6\x8e\x38\x94\x5f\xbf\x94\x6c\x62\xe0\x76\xd4\x7a\x93\x40\x6c\x99\xe1\x3f\xd6\x1c\xf3\xc4\x11\x34\xfc\x03\x12\x42\x10\xd2\xf8\x90\xb4\xc3\x20\xb8\x73\xb2\x93\xbe\xec\x10\x35\x8d\x4a\x12\x06\x3d\x52\xdb\x15\x1b\xca\xcd\x3e\xbd\x33\xe2\x08\x50\xad\x5b\xdf\xec\xcb\x06\x9d\xe3\xa3\x3c\xbf\x7a\x98\xf2\x5a\x69\x3f\x25\x8d\x89\x75\x9c\xd2\x1e\x0a\x53\x16\xda\x9b\xf6\x85\x04\x2d\x46\x86\x50\xbc\x98\xc0\xb1\xfa\xb9\xc8\xb2\x9c\xdf\xb3\xc6\x64\x81\x6f\xa4\xcd\x0b\x31\x09\xaa\xeb\x7c\x85\x26\x06\xcd\xa6\x42\xe0\x85\x1b\xad\xb3\x2e\x7e\xc7\x9b\x95\x13\x1b\xee\x17\xb4\x20\x94\xb6\x69\x78\x2f\x6b\xf4\x1a\x2c\xcf\x57\x23\x37\x4e\xc2\x94\x95\x30\xe1\xda\xd7\xf0\x0c\xa7\x4d\x56\x50\x22\xdb\x55\x85\xcf\xf9\xc3\x34\x5f\x66\x3c\x33\x59\xe0\x84\x23\x0a\x48\x73\xcd\xb3\x74\x87\x1b\x71\x8b\xd3\x08\xa2\xd7\x8a\xa9\xa5\x8c\x46\x10\x5d\x8b\x72\x1e\x25\x6e\xdf\x9f\x39\x86\x24\x83\xf3\x1d\x86\x1e\x57\x46\x2d\x36\x69\x9a\x4a\x1d\x16\x68\xe5\x11\x25\x3d\xbe\xb8\x84\x82\xd5\x6f\xcd\xab\x77\x86\xfd\xeb\x0d\xaa\xd7\xf6\x86\xe9\xd9\x2d\x41\x10\x44\x9e\x1a\x45\x17\xb0\xde\x8c\xc2\xc0\x0f\x23\x37\x61\x18\xa0\xaf\x7f\x8f\xa8\x20\x18\x03\xd2\xa1\x85\x2b\x89\x19\xbc\x1f\x41\x75\x8b\xaf\x2d\x62\x6f\xf9\xc3\xbb\xaf\xe0\x93\xea\x16\xb1\x0d\x82\x9a\x95\x62\x1a\xb7\x11\xde\x2c\x8e\xae\x2c\x08\x4b\x37\x7c\xf1\x99\xfc\x02\xb2\x8a\x4b\x28\x2b\x05\xfc\x41\x48\xf5\x15\x48\xce\x7d\xc1\xbb\x9c\x52\x87\xf4\x88\x54\x92\x90\x3e\x67\x3c\xe7\x8a\xc7\x16\x03\xfd\xce\x10\x70\x14\x2b\x7a\xa9\xe8\xb0\xe7\xdd\x57\x60\xe9\xe9\x35\x9d\x70\xe9\x61\x1a\xf7\x0e\x21\x5c\x5b\x06\x9b\x1d\xf6\x1d\x9b\xf0\x9c\x67\xad\xe0\x4d\xb5\x64\xce\x95\x55\x53\x54\x6d\xc7\x28\xad\xad\xf7\x0b\x5e\xba\xb7\x95\xa7\x99\x04\xcc\x28\xd8\xc8\x6c\x28\xd2\xf9\xa5\x19\x0c\xa6\x04\xc3\x4c\x1d\x47\x4c\x31\x7e\x69\xc4\x54\x47\x54\x2d\x05\x70\xbf\x10\xd3\x85\xde\x2e\x92\x97\x7d\x28\x90\xd3\xa6\xd9\x36\x64\xa9\x1a\x72\xd9\xbb\x54\xe1\x7e\x88\x8d\xae\x8e\x76\x0d\x6e\x8f\x0d\x0e\x87\xe8\xfa\x68\x33\xb4\x83\xd4\x88\xe8\xd4\x1c\x6f\xf8\x94\x8b\x3b\xb4\x42\xdc\x90\x58\xcd\x3a\x74\xa7\xf0\x9a\x73\x07\xc6\x83\xa2\x5f\xd8\x98\x93\x10\xbe\x7a\x40\x44\x71\xf7\x64\x5c\x31\x91\x4b\x0c\x89\xed\xce\x41\x20\x36\xae\x65\xb9\x50\xab\x74\x9f\xb5\xe8\xd0\x1e\x17\x3f\x82\xa3\xff\x6b\x52\xfe\xe7\x9a\x94\xce\xd4\x11\x1c\x6b\x61\x8e\x2f\x3b\x1c\x9b\x50\x3e\x7d\x75\xfd\x18\x09\xe6\xcd\xc9\x19\x25\x06\x67\xde\x74\x2c\xc2\xca\xd6\xc5\x3b\x51\x00\xbb\x63\x22\x67\x93\x9c\x9b\x64\x60\xfe\xea\xfa\x31\x0c\x84\xf8\xb4\x73\xba\x90\x5d\xde\x27\x5b\x33\x30\x82\x4a\x47\x04\x12\x55\xbf\x53\x61\xd1\x9a\xcc\x1b\x13\x30\x24\x43\x0b\xa1\x2f\x93\xde\x40\x89\x82\x7d\xfb\x6e\x18\x12\x0a\xb6\xef\xed\xd7\x7c\x56\x35\x3c\x46\x6c\x9f\x53\xa5\xe8\xa6\xa2\x98\x32\x19\xe1\x16\xd9\x5a\xe7\x12\xc3\x21\x5e\x66\x71\xe7\xb1\xa3\x27\x4d\xd3\x44\x97\x2f\xd6\x6b\xb8\xa9\xbe\xab\xee\x79\xd3\x6a\x24\xb2\x0a\x85\x6b\x03\xbe\xcf\x11\x23\x7c\xc9\x9b\x35\xfa\xc6\x83\x6a\x8c\xe3\x3d\x4d\xbb\x80\x2e\x49\xae\xe8\x12\xe3\xee\x77\x6c\xef\x53\x4e\x0c\x2e\x82\x27\xba\xf6\x8d\xb4\x7b\x23\x28\xde\xd5\x03\xae\xca\xde\x01\x94\xbd\xe0\x88\x0e\x17\xd2\x34\xc5\x69\xc9\xc8\xd7\xfa\xc0\xba\xd6\x96\xd8\xed\x64\xd8\x85\xdb\xfd\xb2\x76\xa1\xbb\x71\x66\x1e\x9c\x9f\x3c\x01\xdd\x62\x30\xc0\x16\x87\xa9\xba\xe1\x85\xe7\x94\x34\x51\xd9\x01\xad\xa9\x87\x9f\xaa\x5a\x52\x8f\xa7\xf2\x20\x9a\x7a\x93\xc5\x12\xce\xda\xa5\x92\x16\xfc\x81\x6c\x16\x93\x9d\x9f\x36\x9d\x7d\x8f\x19\x4f\xed\x25\x44\x5b\x5c\xd4\x14\x68\x2d\xf2\xd3\xa3\x13\x73\xda\xfa\x23\xd3\x59\xe2\xae\x51\xf5\xc3\xac\x1d\x8f\x61\xdf\xae\x00\x81\x26\xd0\xe9\x83\xae\xf6\xa6\x66\x02\x8d\xf8\x06\x65\xa3\x2b\x3e\xd8\x9d\xe1\x8d\x92\xa6\x20\x44\x66\xd3\xda\x04\x07\xd8\xe5\xad\x58\x96\xc1\xaa\x53\x73\x9e\x55\x05\x13\xe5\xbe\xc1\x29\x5c\x37\xa2\x60\x8d\xc8\x57\xb6\x50\xe5\x57\xb5\x8c\x15\xde\x47\x47\xfc\x7e\x57\x31\x90\x96\x57\xfc\x43\xab\x88\x3a\x81\xf6\x7e\x75\x4b\x18\x3a\x65\xa6\x39\xc7\xa4\xcc\x4e\x92\x1f\xf6\x88\xe9\xaa\x3c\x5a\x4c\x7b\x6d\x53\xaf\x9c\xcc\x0c\x3b\x64\x48\x50\x87\x45\x40\x4b\x68\x81\xed\x11\x6b\x9d\xaf\x8e\x92\xd3\x5e\x42\xfa\x04\xd5\x57\xd3\xd8\x27\x29\x59\xa3\xa8\xec\xac\x23\xf6\x91\x27\x2c\x59\xf7\x49\xeb\x5b\x9e\x63\x81\x3c\x34\x8a\xd6\xeb\x3c\xfb\x8d\x4f\x91\x81\x6d\xc8\xa4\xcf\x9f\x24\xdb\x03\x10\x5f\x34\xa1\xb7\x23\xb8\x6b\xe3\xd1\xc2\x45\xa2\x77\x9d\x62\x8a\xee\x2b\x73\xb8\xe5\x2b\x2d\xee\x0c\x43\xd6\x49\xa5\x16\xc8\x63\xbb\x0a\x75\x64\x21\xbe\x4d\x28\xbb\xc0\xa1\x79\x0e\x39\xca\x8b\xa0\x30\xca\xa9\x74\xe1\xf4\x31\x2b\xab\x52\x4c\x59\xfe\x2d\x67\x19\x6f\x7e\xc1\x57\x36\xf5\xc0\x85\x64\x45\xe5\x5c\x45\x99\x9c\x05\x31\x9d\x72\x5b\xc5\xe0\x42\x2d\x78\x43\x2b\xe3\x7b\x64\xc5\xa5\xa3\xf5\x7b\xa1\x16\xba\xa3\x80\x2c\x1a\x69\x5a\xdf\x7e\xf9\x2e\x39\x38\x70\x00\xbb\xf8\x36\x69\x21\x50\x50\x4f\xe2\x9b\xaa\x07\xed\x7b\x6d\xdc\xb7\xff\x3f\x2d\x47\x53\x33\x3e\x39\x96\x7c\xc1\xef\xbd\xd9\x66\x79\xdd\x3f\xa0\x22\x10\x4c\xd8\xf4\x16\xc5\xb3\xb2\x7b\xc6\x14\xdb\x91\xd6\x92\xeb\xde\x45\x0a\xcf\x14\xca\x91\xca\xf6\xa4\xae\x62\x22\x30\x25\xb3\x22\xa0\xaa\xb4\xaa\x20\x13\x2c\x37\xa5\xeb\x9c\x29\xde\xc0\x14\xfb\x4a\x98\x63\x73\x1f\xa6\x51\xd0\x0e\x76\x31\xbe\x36\xae\x33\x35\xf8\x3e\xae\xca\x72\x4f\x40\x6a\x06\xd9\x80\x34\x1e\x88\x48\xfd\x2d\x87\xd1\xc1\x76\xd5\x34\xf0\x9e\xd6\xb7\x73\xdc\x69\xb6\x78\xda\x3d\x2e\x11\xec\x66\x77\x7e\xa9\xb4\xb5\x81\xc1\x1d\x6b\x5c\x7e\xe5\x99\x8e\xdd\x4c\x33\x0c\x70\xbf\xf4\x0d\xbd\xdc\x8d\x20\x89\x4b\x5a\x1d\x91\x31\x36\x91\x24\xa4\x37\x9b\xb4\xaf\x76\x1b\xb9\x71\x16\x76\xb4\x2f\x82\x6c\x43\xcc\x27\xfc\x50\x88\x79\xc0\x5a\x99\x42\x59\xd0\xc6\xdf\xf8\x33\x71\xb4\xc7\x3a\x4d\xd4\x4c\xa5\x78\xb4\xfd\xcb\xfe\xe1\x36\x8c\x9d\x24\x0f\x86\xe3\x70\x4e\xa0\x1c\xce\x76\xee\x85\xdf\xb1\xf0\xde\x8f\xda\xf5\x82\x8d\x35\xaa\x68\x4c\x91\x76\xa0\x9d\xf3\xe3\xc3\x94\x3d\xfe\xef\x09\x3f\xc6\xff\xed\xf7\x68\xc7\x86\x29\xe4\x6b\x06\xfc\x9f\xd9\xfc\xb4\x3b\x9f\xf0\x13\xfd\x1f\x12\xf3\x4a\x23\x73\xa4\x03\xc4\xa1\x2e\x58\x41\xb7\x7c\x92\x0b\xac\xf3\x55\x9f\x0f\xf4\xc5\xf6\xe3\xc3\x96\xe1\xe8\xf2\xaa\x3c\x22\xba\x3c\x2c\x10\x2f\xc8\xdc\x23\xe1\xbd\xd1\x65\x47\x6a\xfb\xe8\xe8\x0f\x5a\x88\xc4\xe3\x44\x76\x6a\x43\x66\x7f\x74\x49\x58\x68\xaf\x2b\x6f\x2a\x3f\x60\x31\x3b\xa5\xcf\xe2\xd3\x3a\xb8\x4f\x8c\xa2\xee\x81\x12\xdf\xf2\x95\x84\xb7\xef\x6c\x15\xef\x00\xbc\xa3\x1a\x5a\x45\x06\x67\x87\x82\x25\xed\x03\x6a\x26\x9a\x76\xf1\x30\xb0\x35\xbd\xdb\x36\x84\xd2\xe8\xa1\x13\xc0\xa6\xd4\x9d\xad\x84\x4d\xd5\x43\xaa\x79\x12\xdf\x26\x29\xd5\x2e\x93\xb6\x0e\x16\x18\xc0\xae\xe2\xa1\x7f\x9a\x80\x05\x63\x0d\x6d\x56\xd1\x78\x22\x4c\xfd\xae\x13\x9d\x9d\x15\x19\xd6\xcc\x2c\x01\x3f\xaf\x44\x19\x9f\x15\xd9\xa8\x7d\x74\x8d\x73\x62\x3d\x13\xcb\x26\x89\x05\x47\x9c\xc1\xe8\x85\x7a\x61\x46\x92\xc7\xd6\xc4\xbe\xbd\xb9\xb9\xa6\x7c\xc2\x3e\x3b\xfc\xdf\x38\x0c\x75\x9b\xdd\x70\xb9\xd4\xea\x05\x97\x10\xb1\xba\xce\xc5\x54\x1f\x2c\xd1\x67\xf5\xbe\x82\xe9\x82\x35\x92\xab\xcb\xa5\x9a\x9d\xff\x2c\x72\xa5\x34\x5c\x95\xca\x03\xd4\x4d\x47\xc5\x5a\xd0\x13\xbd\x67\x0f\x97\xd8\x10\x58\x55\x42\xdd\xf0\x8c\xcf\x44\xc9\x33\x7d\x26\x42\xd2\x9e\xdb\x5a\xe6\x60\x61\xad\x7b\x24\xa7\x5b\x58\xf3\x0f\x6b\xd8\x98\x45\xcc\x20\xd5\xf0\x75\x78\xef\xd9\xad\xad\x3a\x0f\xea\xce\xdb\x77\xc3\xd0\xb5\xfc\xfb\x5e\x53\xb5\xcd\xac\x81\xf1\xab\xec\x14\xdb\xfa\x27\x5d\xa1\x25\x37\xe6\xa6\x89\xb9\xf7\x63\x78\xca\xa3\x99\xe2\x4d\xbc\xfd\x46\x3d\x6e\x45\x1b\x7b\x62\x4e\x34\xa0\x5d\x2a\x8f\x2a\xf5\x51\x25\x48\x97\xf5\x0a\x64\x4c\xb1\x7c\xc0\x30\xea\x55\xb5\x44\x1c\x92\xd0\x8b\x24\xa8\x29\x71\x71\x39\xc8\x66\x37\x74\x82\x27\x3d\xca\x39\x02\xa4\x69\xe9\xd7\xe6\x11\xd5\xf6\x0b\x3b\x2f\xc6\xe0\x8c\x86\xe3\x99\xdc\x09\xfc\x35\xdc\x54\x6f\xf0\xcc\xe1\x66\x13\x25\xe9\x35\x53\x8b\xce\x18\x7c\x70\xc3\x8b\x1a\xe3\x66\x3d\xc2\xaa\xd3\xc0\x09\x2e\x5d\x4c\xec\x56\x13\x09\xa3\x9e\x92\x22\xc5\x73\x48\x9e\xb7\xa4\x6e\x9a\x38\xf7\x60\x06\x1a\x89\xe2\xc0\xa7\xa6\xf7\x65\xdd\xb0\x79\xdd\x57\x58\x0c\x74\x3b\xa0\xad\xbd\xf9\x7f\x92\xd1\x28\x28\xa8\xf2\x95\xc6\x34\xd9\x74\x66\x61\xc2\x02\xdb\x2e\xb3\x2b\x7e\x8f\xef\x9b\x11\x66\x27\x19\x9f\xb1\x65\xae\xd0\xdb\x19\x05\xc1\x1d\xa9\xcb\x8e\xd5\x0c\xb6\x6d\xc1\x08\x18\x4c\xaa\x4c\x27\x88\x68\x1b\x4c\x78\x8f\x69\x62\xa4\xd7\x89\x5c\x66\x79\x87\x56\x16\x41\xe9\xe7\xa9\xc6\x2e\x4e\x4c\xfe\xc2\x40\xea\x6e\x35\x20\x3f\x10\xd4\xff\xff\xf2\xcb\x14\x9e\x51\xbb\x0b\x47\xfa\xf5\x52\xb3\x6f\x78\xa3\x0f\x43\xe3\x88\xba\xa9\xee\x04\xa6\xbe\x0b\xfd\x06\x1b\xfd\x79\x8e\xed\x73\x8d\xad\xe9\x32\xe2\xb8\x36\x26\xf3\x41\x23\x14\x0f\x3a\x52\x91\x3e\x67\x8d\x5c\x30\x7d\x88\xcb\xe2\x5f\x98\x47\xd8\x81\x97\xcb\xe9\x94\xf3\x4c\x9a\x5c\xeb\xe7\xaf\x5f\xbe\xa0\x33\xd5\x99\x3d\x00\x6d\x93\x35\x4d\xab\x43\x07\x3b\x9e\xc3\x64\x99\x86\x3d\x1e\x69\x6f\x46\x36\x05\x74\x94\xb5\x2f\x3b\xd0\x40\x94\x52\x71\x96\x59\x9e\x19\x23\xe9\x5b\x88\xbe\x40\xc4\x9d\xfd\x18\xc1\xbd\x39\xb2\xd6\x55\x03\x1d\x33\xa2\x54\x47\xf0\x1e\xb7\x9f\xcf\x12\x63\x7e\xb0\xa9\x58\xf3\x66\xad\xa5\x78\x81\xb4\x58\x81\x62\x24\x22\x66\x96\x5b\xc8\x40\xe3\x68\x71\x48\xdc\xe5\x6d\xeb\x67\xc5\x0c\xf0\xd5\xd7\x7a\x49\x9a\x7a\x65\x4a\xa9\x0e\x90\x9d\x87\xec\x8e\x93\xaf\xec\x0a\x38\xec\xd2\xf3\xb9\x88\x36\x5c\x3a\x70\xb6\x20\x10\xdc\xa7\x46\x6d\xe2\x24\x7d\xcd\x55\x1c\x91\x21\x3c\xbf\x59\xd5\x3c\x1a\xf9\x2e\xcf\x10\xb0\xb0\x4a\xe6\xe3\xdf\x35\x0f\x56\x0f\x5b\x3a\x30\xea\xf0\x42\x0e\x0b\x83\x46\xca\x58\x33\x36\xd8\xc6\xe5\x76\xd4\x33\x32\x7d\xca\x55\x7c\x6b\x9b\x7f\x9b\x30\xd0\x5b\xe3\xc2\x1c\x32\x4d\x8d\x3a\x3c\xc3\xd0\xb1\x64\xb9\xe7\x24\x34\xee\x72\xba\x07\x6b\x4f\xcd\x5a\xc4\x35\xf0\x4b\x90\x53\x82\x8c\xaf\x29\x6d\xbc\x4f\xb5\x52\x10\xc6\x38\x30\x71\x0f\x63\xe4\x76\x82\xf6\xa6\xd5\x3b\x63\xfd\x9a\x78\xb2\x9c\xc1\xdb\x77\x78\x6e\x36\x21\x5d\x5f\x87\x3a\x56\xbb\x07\x5f\x85\x5c\x15\xdc\xea\xd9\x9b\x92\x24\x8b\x10\x46\xf0\xf9\x7d\xf2\xd5\x76\x95\xdc\x44\x29\x52\xfc\x96\xc3\x25\xfc\xec\xff\xfe\xe5\x5f\x18\x15\xca\x79\x89\x73\x12\xf8\x2b\xf3\x0e\x87\x06\x88\xc6\x25\x4c\x96\xb3\xb7\x17\xf8\xf0\x1d\xb9\x39\xb2\x95\x78\x08\x44\xf3\x6d\x16\x47\xd6\x3a\x00\x12\xa5\xcf\x7f\x5c\x60\x81\x0b\x7b\xb5\x35\x86\x3b\x50\x56\xe5\x39\xea\x95\x0b\xe4\x71\x60\x34\x42\xe0\xd4\x88\x25\xa8\x74\x8e\xf7\x05\xbf\x8f\xef\xcd\xbe\xd0\x3c\xd2\x36\xd4\xa7\xdd\x1e\x0d\x58\x87\x81\x1e\x85\xbf\xd1\xbe\xfc\x1a\x57\xb9\x20\x03\xfa\x6b\x32\xe7\x28\x77\x1a\xc5\x94\x90\x33\x81\xd7\x3d\x16\xdc\x59\x43\x6d\x48\x3d\xe1\xb6\x69\x86\x04\xa1\x6f\x66\xd8\xeb\x29\xc7\x1c\xbf\x4e\x4d\xa3\xc9\x5b\xd4\xa1\xaa\xd1\xc2\x2b\x05\x76\x29\x5c\x29\x0c\xac\xed\x05\xf0\x3b\xf6\x2e\x24\xb7\x3a\x12\x2f\x5a\xa0\x89\x67\xf3\xe2\x04\xba\xc7\xdc\x16\x69\xbb\xc2\xc0\xec\x76\x5b\xe1\x43\xda\x3b\x1d\x10\x84\x54\xd8\xa9\xb0\x6f\x57\x18\x0e\xc6\x24\x5e\x31\xea\x40\x50\xe2\x8a\x12\x7b\xbd\xff\x76\x92\xab\xb1\xef\x6f\xa1\xe8\x46\xaa\xb9\xa0\x83\x73\xd0\xf8\x9d\x93\xaf\xf1\xf3\x57\xbb\xce\x35\x6b\x78\xa9\x28\x27\x74\x7a\xaa\x0f\x8f\xa1\x3b\x42\xac\xec\x53\x0d\x19\x35\xf8\x50\x85\x3e\xf0\x4a\x14\x7b\xc9\xea\xcd\x79\xe1\x8c\x1c\x8c\x1e\x32\x9c\xef\x06\x19\x9f\xf1\x06\x9a\x14\xad\x76\xfa\x18\x4b\x99\x68\x80\xb4\xc5\xc0\x5c\xb8\x4d\x7f\xb7\x68\x25\xc8\x68\xb9\x31\x08\xc2\x0d\xef\xfa\x70\x74\xe6\xfe\x15\x67\xd9\xa3\x3c\x8f\x0d\xf0\xe3\xce\x25\xda\x83\xf8\x33\x74\x78\x23\x88\xc8\x12\x34\xe8\x6c\x6d\xc0\x83\x94\x59\x76\x46\x64\xa9\xb7\x0c\xd1\x97\x9a\xb6\x60\x69\x8d\x1a\xa6\x46\x17\x97\xe0\x2e\x9e\xb4\xe6\x8e\xe2\x3c\x3d\x3c\x78\x94\xe7\xd5\xfd\x35\x6b\x94\x60\x39\x56\xd3\x54\xb3\xa4\xa0\xf0\x89\x90\x53\xd6\x64\x6f\x4a\x7d\x49\xe8\xa2\x7d\xb3\xa1\xd4\x16\x49\xbf\x04\x7f\xc1\x1d\x93\x8a\xdd\xc7\x1d\xa3\xda\x6f\x56\x87\x0d\x6b\xaf\x69\x25\x34\x3a\xcc\x74\x1b\x76\xdd\xc3\x56\xe2\xde\x47\xd9\x5c\xc3\x90\xc0\x73\x88\x5f\xb3\x8c\xd4\x81\xde\x21\x02\x2d\x5a\x2e\x5b\xc7\x8c\xf2\x9a\x35\xac\x90\x36\x5d\xf9\x15\x6b\x64\xdc\xa0\x0c\xf1\x22\x46\xfb\x1e\x73\xfb\x0f\x4b\xde\xac\xda\xe1\x4d\xfa\xe6\xd5\x77\xe9\x2f\xf1\x61\x6c\x27\x78\x43\x42\x3f\x87\x31\x67\x51\x2f\x2e\x5b\xad\xd5\x77\x26\x28\x81\xd1\x67\x61\x4a\x3b\x2c\xfd\xae\x32\x81\x35\x44\x9a\x48\x33\x06\xeb\xab\x1a\x4a\xfa\x94\x97\x7a\x51\x27\x4d\xcc\x6e\xfa\xcb\xba\xfb\x51\x78\x59\xf2\x6a\xb6\x83\x07\xff\xb0\x8b\x87\x26\xeb\xc7\x20\xe2\xb6\xd5\xe7\x0d\xff\xd0\xb6\xb4\x29\x69\xd1\x15\x64\x3b\xb4\xad\x0c\xf6\x24\x44\xbd\x16\x73\xa8\x99\x69\xec\xa3\xb4\xd9\x81\xf3\xeb\x4c\x6a\xfb\xb9\x9d\x0d\x98\xdc\xa8\x39\xa1\x51\xd9\x83\x60\x9f\xed\xeb\x8d\xad\x87\x7a\x97\x2e\x44\x1a\x32\x14\xcf\x77\xcc\xc4\xb6\x91\x70\xb6\xe0\x8d\xe4\xd7\x68\x60\xd0\x5e\x4a\xdf\x7c\xbc\x91\xfc\xaa\x5c\x16\x2f\x96\xc5\x84\x37\xf2\xa2\x7d\x71\x55\x08\xf5\xa6\xac\xab\x7a\x89\x29\x71\xe6\xcc\xca\x26\xec\xd8\xd3\x16\x37\x8b\x8e\x3b\x5d\x9e\xc6\x1a\xd5\xf4\x39\x97\x92\xcd\x79\xb2\xef\x78\x83\x55\x83\xf7\x23\xb2\x56\x2e\x9c\xd4\x91\x94\x37\xca\xef\xb5\xba\x13\x8a\x92\x82\x81\xbe\x1a\x4a\x7f\x1d\x71\xc7\x0b\x0d\x35\x5d\xdb\xd8\xdd\x86\xe2\xda\xd8\xed\x6b\xb3\x22\xe0\xdd\x16\xeb\x82\x49\x58\xb0\xcc\xcc\x1d\x6a\xaa\xea\x56\x5e\x86\x07\x31\x05\x56\x85\x5b\xfd\xf6\x6f\xeb\xaa\x05\x37\x50\x4c\x20\x25\x53\xeb\xf4\x5d\x2f\x17\x95\x19\xab\xad\xae\xac\x68\xd1\xa1\x24\x14\xb3\x71\x59\x19\x20\xdd\xce\xed\xde\x9e\xed\xde\x4e\xec\xed\xc8\x71\xc8\xcb\x54\xf6\x4e\xd9\xc2\x5f\x37\x6d\x77\x61\xa0\xf1\x42\x76\x2f\x4b\xde\xde\x8a\x9a\x2e\xd0\x96\xa5\xfa\x0d\xcb\x65\x05\x2c\xcb\x68\x0f\x6b\x6b\x0f\xcb\x26\x0f\xf7\xb7\x8e\x23\x1a\x7a\x8e\x77\x87\x47\x64\xc4\xaf\x99\x5a\x24\x87\x26\x3a\xa9\xe0\x59\x7a\xd4\x39\x34\x22\x51\xf2\xd1\x3d\x66\x04\x41\x4d\x13\xfb\xec\x84\x1e\xb3\x37\xbb\x2d\xb1\xf6\xb4\x98\x4b\xc0\x91\x64\xbd\x20\x17\x77\x18\xb5\x32\x45\x5c\x2b\x2a\xa5\xeb\x0b\x58\x3e\x60\x25\x5e\xbd\xfa\x1e\xcf\xd1\xd7\xe6\x92\x97\x79\x86\x76\x72\x5a\x15\xdc\xdc\x3d\x68\x17\xc9\x84\x9c\xe2\xd5\xf9\x15\xc8\x95\x54\xbc\x18\x81\xd4\x27\xbe\x73\x71\xcb\xf3\x95\x55\x3a\x54\x23\x88\x16\x95\x54\x17\xa8\xd1\x11\x19\xd0\x0e\x05\xb1\x5b\xca\x1e\x1a\x1e\xac\xdc\x9e\xde\x81\x16\x33\xf8\xc4\xaa\xdc\xb7\x4c\x5e\x37\x7c\x26\x1e\xdc\x8a\x23\x88\x70\x57\x46\x26\x23\x77\x78\x5c\x9a\xc7\x17\xe3\x71\x04\xff\xc7\x71\x02\xb5\x32\x58\x3a\x2b\xb8\x6c\xf2\xf4\x1a\xa3\x13\x07\xed\xe8\xb3\x5c\x18\x5c\x2c\x43\xba\x7c\x8b\x99\x65\x4f\xc6\x41\x7d\x55\x73\x4b\x21\x7a\x51\x19\x41\x7a\xe5\x6d\x73\x88\x5e\x33\xc4\x14\x83\x10\xd0\x7d\xd5\xdc\x8e\xc0\x94\xcc\x81\x3c\x3d\x26\x7e\x78\x8d\xae\x31\xf1\xa6\x79\x2b\x90\x85\x51\x5b\xb6\xc5\x43\x62\xc1\xf1\xb9\x50\xb0\x5e\xe3\xa5\xdc\xed\xe4\x87\x90\xc6\xb7\xba\x02\x68\x83\x0d\x84\x24\xca\x8c\x3f\xec\xce\xf8\xd2\xce\xd1\x31\xfe\x6e\x56\x61\x29\xee\x6b\xe6\x63\xb0\xa1\xff\x37\xd8\x33\xaf\xe7\x42\xae\xd7\xd9\xa7\x5e\xfd\x60\xd9\x98\x22\xc8\x60\x5a\xd5\xab\x37\xaf\xbe\x8b\x97\x23\xf0\xc7\x7f\xcd\x24\x47\xf3\x81\xe5\x63\x3b\xb4\x8d\x0e\x76\xb1\xea\xc6\xa5\xdd\x1a\x31\x71\xa6\xa7\xf1\xbf\xd3\xd5\x0f\xb6\x1b\xfb\x36\xb6\x6d\xa5\xd9\xf9\xbb\xfd\xd3\x99\xab\xde\x0e\xff\x5e\xb9\xc3\xf9\x9f\x4a\xf2\x43\x85\x74\x0c\x5a\xf6\xa8\x04\x1d\x8a\xd8\x4b\xaf\x77\xc2\x40\x5b\x1e\x2b\xc7\x09\x93\x1c\xce\x70\x0f\xbf\x79\xf5\xdd\x48\x37\x97\xc8\xb5\x26\xee\x31\xee\xdf\x12\xe3\x82\x8b\x4b\x38\xc3\x09\xe6\xa7\x6e\x24\x50\x7a\xe0\xd8\xf9\x39\xbe\xa1\x02\xc3\x63\xf5\x60\x5b\xa3\xaf\x31\xbe\x9d\xea\x33\xee\xcb\x86\x4a\x35\xa8\x8e\x76\xe3\xaa\x0a\xea\x65\x9e\xeb\xe7\xe4\xe7\x78\x86\x11\x86\x84\x6a\x89\xae\xdb\x86\xaf\xe4\x96\x74\x79\x87\xdc\x5e\x61\x43\x58\x3f\x01\xc5\x58\x81\xca\x1d\x29\xc0\x8b\x4a\xd1\xad\x5b\x04\x89\xb0\xb4\xa5\x58\xb0\x3b\x0e\xf6\x6b\x1a\xfb\x43\x12\xbd\xce\x44\x77\xab\xe8\xe2\x99\xbe\x78\x83\x96\xdf\xa2\x86\x77\x98\xa9\xbe\xcf\xec\xc1\x25\x1d\x7b\x20\x55\x2b\x57\xa8\x76\xad\x3d\xff\x5a\x1c\x6f\x9c\xc3\xa5\xd6\x72\x97\x77\xa6\x9d\xec\xdd\x0a\x19\xf6\x07\x7e\xc5\xa7\x67\x10\x75\xdc\xf6\x5c\x9b\x3c\x22\x3a\xfc\xc9\x1a\xca\x2e\xe2\xa1\xca\xaf\xdf\x47\x76\x3e\xc3\xf4\x7d\x13\xd4\x2a\xe4\x35\x5a\x94\xa1\xe3\x31\x07\x0d\xf6\x76\x49\xaa\xd7\xd8\xec\xad\x48\x6d\xe7\x57\x54\x8e\x32\xd1\xd8\x76\x49\xca\x56\x69\x68\x19\x3b\xdb\x94\x67\xda\xdc\x67\xbb\x24\x45\x8f\x31\xf1\x35\x61\x1e\x75\x49\xdc\x1b\x0c\xa8\x99\x2e\x07\xfc\xbf\x2f\xbf\xf4\xdb\x45\x23\xb8\xa7\x9e\x88\x2e\x78\xd6\x0d\xc7\x20\x87\xe9\xfd\xc0\x4a\x0d\x4b\x07\x05\x5a\x51\x99\x52\xf8\x5d\x04\xdc\x3f\x86\x0a\x7f\xff\x51\x01\x1b\x0a\x93\xc2\xb4\x38\x5a\x24\x0e\x96\xcc\xec\xf1\x90\x9e\x92\x59\x2f\xdb\xf7\x57\xcc\xcc\xa2\xa7\x97\xcc\x4e\xa9\x80\x5d\xe2\x90\xf4\xea\xe5\x37\x83\x45\x30\xac\x62\xb7\xb5\x71\x54\x0c\xcd\x02\x40\x3e\xae\xfc\xaa\xd7\x56\xf8\xd3\x07\x0b\x0b\x6a\x3d\xf5\x34\x07\x94\xc0\x19\x78\x8d\xd7\x8b\x80\x4f\x3a\x8d\x8f\x97\xbf\xd8\xbb\xc4\x2c\xde\xee\x44\x24\x23\x88\x3c\x9d\xb9\x80\x2f\x3e\xcb\xbe\x88\x46\x9d\x35\xdc\xda\x18\x8e\x20\xc1\x87\xb4\x39\x3c\xb9\xae\x37\x58\xd6\x1b\xaa\xea\x6d\xc2\xe3\x6b\x7a\xb2\x4e\xbe\x3a\x2c\x04\x9f\x29\x96\x60\x1a\xf4\x79\x7b\xd6\x39\xe8\xd6\x65\x7c\x03\x74\x55\x9e\x68\x80\xdc\x48\x2f\x30\xd8\x09\x09\xce\xc9\x54\x1d\x11\x42\xed\xad\x05\xb9\xea\x79\xe8\xb2\x5d\x2a\x07\x01\x3b\xbe\x60\xae\xbf\x10\x81\x3b\xff\x8e\x35\xa2\x5a\x4a\x40\x77\x82\x51\x18\xfa\xe5\x60\x3c\xde\x75\xbe\x31\xc6\x11\x23\xd0\x05\x33\xd3\xd3\xc6\x4d\x92\x58\x53\x70\x04\x59\xfb\x6d\x81\x1e\x32\x70\x84\xcc\x95\x8e\xf0\x33\x4f\x77\x2c\x47\x59\x44\x11\x55\x26\xcd\xa3\xfd\x37\xfc\xb7\x98\x41\xab\x19\x25\xb7\x15\xce\x86\x7f\x08\xc3\x2d\xf7\x35\x98\x1a\x6f\x8f\x1b\xce\xbd\x4d\x55\xe2\xb5\xb6\xd9\x78\x0d\x5e\x2d\xb0\xf0\xcb\x0a\xae\xb0\x6d\x83\x77\xb5\xd5\x02\xd1\xb6\x99\x9c\x3e\x43\x65\x9b\x4a\x5b\xd7\x40\x25\xd7\xe5\xa1\x4e\xad\x13\x57\x79\x6d\x9e\xbb\x62\xa7\x1d\xb8\xd9\xbe\x0c\x8a\x21\x63\x34\xd6\xf8\x93\x8c\xf5\xa1\x05\x09\x78\xb9\x15\xad\x15\xb9\xb9\x11\xd0\x47\xc8\xcc\x6d\x4e\xa1\x34\x63\x90\xa8\x57\xec\x9e\x62\x44\x2d\x80\x96\x52\x17\x35\xea\x64\xc7\x35\xe0\x89\xb9\x58\x10\xeb\x72\x42\x2b\x52\x97\x15\x84\x4b\x4f\x05\x1a\x41\xaa\xa2\xa6\x76\x2b\xc1\x54\x45\xdd\x65\xcf\x50\x2d\x1a\x2c\x5f\xce\xe1\xb8\x32\xb0\x98\x69\x05\xa7\x61\xaf\x78\xcd\xb1\x66\x68\xa7\x3d\x93\x5f\x33\xcf\x42\xf6\x41\x7e\x5a\xe1\x6b\xa0\x8f\xb6\x59\xc0\x44\xe0\xdb\xc8\x15\x9a\x7f\xe9\xaa\xea\x74\x9e\xfa\x9d\x51\xc4\xd4\x8d\x78\xcc\x0a\x9e\xb7\xa7\xc6\x49\x9a\xb9\x74\xbf\x29\x6c\xf3\xae\x52\x0c\xcd\xb7\x5d\x0d\x42\x23\x7d\x94\x65\xf1\x1e\x54\x46\xde\x27\xa2\xe2\x3b\xac\x5c\xb5\xdd\x8f\x8e\x4e\x21\x4e\x3c\xc7\x72\x6f\x87\x6d\xcf\x24\x56\x62\xed\xaf\xd7\x8a\x35\x57\x0f\x35\xd5\xd1\xb5\xcd\x1f\xc4\xd3\x37\xef\x1f\x85\xee\x2c\x8e\x3e\xcb\xa2\x11\x9c\x0d\x2d\xd1\xa5\xa6\x45\xbf\x6a\x20\xc6\x6d\xb0\x23\xe9\x64\x5b\x19\x2c\x1d\xaa\xa0\x4b\x71\x5b\x87\x48\x06\x57\x76\xe4\x6f\x3b\xb2\xd6\x97\xed\xc6\x12\x33\x26\x72\x73\xca\x87\x7c\xe2\xa0\x92\x44\x5d\x39\x91\xbd\xb4\xe6\x25\x56\x45\x9d\x84\x27\x71\xd5\x40\x48\x3c\x46\x59\xd2\xd7\xeb\xf1\xd9\x1f\xfe\xf5\x6f\x7e\xf8\xfd\x3f\xff\xf0\x4f\xff\xf6\xc3\xdf\xff\xee\x8f\xff\xf8\xb7\xff\xf9\xef\xff\xf1\x87\xdf\xff\xdd\x0f\xff\xf2\xbb\x3f\xfe\xee\x1f\xce\xc6\x2e\x09\x36\xd5\xa0\x8f\xd2\x84\x1f\xa7\x08\xf1\x91\x1a\xb0\x45\xd9\x47\x2c\x74\x68\x9d\x36\x97\x77\x9b\xc7\x33\x4b\xee\x17\xfd\xd8\x6c\xba\x96\xad\xc2\x86\xd6\x50\x8b\x6b\xd7\xbc\xe9\xe1\xc3\xe6\xad\x05\x5b\x3b\x77\x62\xa6\x50\x28\x47\x10\xc9\x14\xd2\x30\xda\xd0\xf6\x15\xca\xad\xc2\x2f\x5e\x98\x73\x38\x44\x3f\x0d\xf5\x18\xa0\x0f\x76\x5b\x10\xba\x31\x47\x6e\xd7\x4b\x19\x77\x59\x4e\xe3\x8f\xda\xe5\x55\xad\xbc\xa5\xbb\x6c\xef\xca\xb7\xb3\xc5\x69\x7c\x67\x8f\xd3\xb3\xed\x4d\xfe\x13\xd3\x3a\x64\x33\x7a\x09\xb1\x93\xfa\x2d\xc6\xc9\x36\xe3\x29\x57\xdb\x4b\xc4\x89\x35\x1a\x8e\x5d\xfb\x0c\xc7\x09\xb2\xf2\x6d\xc7\x96\x28\xfe\x7c\xd4\xa8\x9f\xed\x3b\x48\xfb\x5b\x76\xeb\x67\xe7\x17\xfd\xd0\x45\xe7\x36\x66\xd2\xcc\x81\x4b\x20\xfc\x4c\xb4\x1c\xeb\xe8\x90\xf6\x6d\xe9\x85\xa9\xba\x54\x1b\xcd\xb9\x32\x5f\x7e\xf4\xc3\x26\x0c\xba\xbb\x51\x93\xaa\x5e\x71\xf5\xb1\x81\xef\x31\xd1\xd3\xf9\x81\x1e\x7a\xb7\x97\x3f\x3e\x83\x97\x65\xbe\xd2\x5f\x91\x42\x84\xf5\x68\x49\xbd\x3c\xb9\xa8\x96\x79\x06\x13\x57\x28\xc3\xb9\xd8\x5e\xc1\xeb\x9a\x9a\xb3\x95\x5a\xf8\xe7\x5b\xab\x42\x28\x0c\xbd\xb2\xa5\xfe\xfe\x0d\xa6\xe4\xa2\xe4\x52\xc2\xd9\x98\x56\xd4\xe4\xf7\x9a\xde\x03\xa1\x54\x6b\x91\x3b\xf2\xa3\xcd\xb2\x9d\xed\x3e\x3f\x9c\xeb\xb6\xc9\xee\x60\x7b\x7a\xb8\x3f\x3d\xd8\xa0\xd6\xdb\x06\xaf\x87\xb8\x8a\x87\xc3\xd0\x19\x8e\x83\xdf\x22\xeb\x39\x97\x32\x45\x49\x94\x5f\xd8\x90\x5f\x57\x27\xb0\xa2\x84\x51\x0c\x7c\x76\x17\x8d\x40\x73\xd6\x96\x3f\xcc\xc9\x22\x70\xf5\x16\xf7\x95\xcf\x18\x0f\x40\x4a\x3c\x0d\xff\xf5\x72\x36\xe3\x4d\x8c\xb8\xfa\x67\xb8\xc1\x3f\x25\x41\xa9\x77\xb0\xfb\xe9\xb3\x83\x9f\x4d\x71\x5f\x42\x3d\xb6\x0d\xf9\xe2\xd1\xcd\xeb\x8f\xb9\x22\x62\xcf\xd1\xe1\x7c\x30\xa5\x5b\xf7\x9b\x2e\x96\x22\x2e\x88\x68\x39\x02\xd9\xdc\x99\xdf\xee\xcb\x76\x94\xac\xee\x7e\x54\xef\xd8\x3b\x9f\x28\x48\x3a\x39\x80\xf5\xd6\xaa\xd4\xc6\x75\xc9\x5f\x2f\x27\x72\xda\x88\x89\xf9\x34\xcd\xce\xf5\x4c\xff\x13\x20\x98\xae\xf6\x8d\x41\xa3\xdc\xdc\xf9\x23\x35\x10\xfe\x5c\xce\x35\x69\xc9\x70\x85\xc5\x7d\xca\xce\x6d\x1c\x4f\xa6\xeb\x75\xe7\x4b\x19\xec\x96\x7b\xdc\x3f\xf6\xab\x33\x38\xe5\x88\xaf\xce\xb4\x90\x0f\x5e\x8e\xe9\x7c\x33\x37\x75\xfc\xa3\x2b\x07\x89\x2f\xb8\x81\xaf\xcd\xec\x87\x40\x47\x27\xfe\xfc\x3e\x3a\xd3\xd2\x75\xf0\x96\x2b\x99\x40\xa7\x10\x17\xd0\xa5\x19\xef\x88\x38\xb2\x4f\xfa\xe8\x0c\x0a\xca\x1b\x41\xce\x67\x44\xb7\xe9\xaf\xca\xde\x31\x5e\x6f\xb0\x1d\xb1\x75\x16\xe9\xd4\xaf\xd2\x78\x52\xf6\xae\x23\x9c\xfe\x55\x1a\x0f\x8e\x3b\xd8\x7c\x98\xb9\x1e\x79\x00\x70\xd6\xe5\x6e\xcb\xda\x9d\xef\xcd\xd0\x4a\xdb\xfd\x90\xa1\x75\xbc\x8a\x3c\xb2\x6c\xbd\xee\xb2\xbd\xbf\x33\x54\xc8\x39\x59\xb3\xe7\x72\x3e\x5c\x88\xdf\x3d\xa3\xda\x77\x45\x73\xcf\x49\xf7\x42\xce\xd3\x27\xda\x89\xf5\x9f\xcd\xec\x3b\x4a\x60\x75\x79\xe0\xbe\x27\xb1\x87\xaa\xb5\xed\xe1\xba\x1e\x7d\xd9\x2e\xa8\x6a\x82\x8f\x38\x5c\x87\xc5\x3e\xa8\x26\xbf\xc1\x43\x23\x54\x2f\x95\x4e\x5e\xf6\xeb\x1f\xcf\x59\xb9\x32\x3d\x22\xec\x1c\xda\x43\x24\xe6\x23\x80\x4b\xcc\x39\xb0\x51\x83\xe8\xa1\x01\x2c\xa5\xc0\x36\x21\xdd\x40\x22\xa3\x36\x88\xf7\x40\x37\x0f\xd7\xa5\xb8\x7c\x04\xe5\xb4\xe3\x8e\x5c\x1f\xa3\xbf\x80\x6a\xf9\xdc\xd1\x41\xb3\x3e\x92\xe0\x2f\x4c\x0b\xe1\x0a\x2d\xd8\xe4\x94\x73\x40\x48\x11\xd5\xd4\xed\xb3\x13\xce\x01\x79\xb3\x0f\x7c\x6b\x02\xc9\xff\xef\xfe\xd6\x44\x8b\xdd\x6e\x48\x30\xe8\x80\xae\x97\x93\x5c\xc8\x05\x6f\x4e\x39\xe6\x33\xfc\xa1\x09\xdf\x20\xf8\xae\xde\xb3\x3d\xc1\x29\x1f\x90\xb0\x47\x4e\xfa\x86\x5f\xee\x7a\x05\x47\x8d\x76\x0a\xde\x97\x24\x82\xa0\x37\xf6\xf0\xbd\x45\x44\x03\x7b\x54\xdf\x3f\x45\xf2\x84\x1f\xf2\x11\xbb\xc7\x47\xb6\x4f\x8f\x74\x4e\xeb\x3a\x03\x62\x77\x42\xef\x59\x91\x5e\x13\x4b\x79\x90\x87\xc8\x47\x7f\x0d\x02\x09\x1a\x6a\x77\x0f\x99\x77\xd7\xe5\x1e\xe0\x46\xaf\x8d\x3b\xee\x6b\x10\xd6\xfe\xff\xc9\xbe\xfb\x30\x80\xf2\x11\x2e\x09\x86\x7d\x12\x1e\xee\x3b\xc2\xdd\xf0\xa6\xb1\xeb\xed\xb8\x9d\xf1\x18\x76\x3d\xcf\x78\x0c\x1b\x0f\xba\x9d\x9c\xea\x13\xfe\x76\xf2\xe7\x9f\xef\xbe\x4b\xb1\xc7\x0a\x97\x97\x10\xbd\x17\x74\x6f\xed\x7d\x34\xb0\x8c\xed\x3b\xef\x02\xb1\xc7\x8b\x2d\x22\x3d\xbd\xda\xde\xaf\x59\x1c\xeb\x7c\xfb\x9a\xa8\xfb\xbd\x6f\xff\xe7\xa1\x7c\x1d\x26\x1f\xdc\xef\x82\xa9\x9f\xb7\xc7\x03\x77\x2f\x04\xb9\xff\x87\x3b\x74\xa6\x88\xca\x1a\x3a\x45\x18\x70\xca\x28\x6a\x6b\xd1\x9f\xcb\xf9\xb6\x4f\x3e\xd7\xb8\xfe\x34\x8e\xf9\xd8\x58\xea\x50\x27\xd3\xb2\x7c\xd0\x11\xbb\x85\xf4\x8e\x70\xe0\x12\x4f\x0c\xff\x35\x00\x19\x1a\x1c\x75\x20\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27216, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x6e, 0xe6, 0xee, 0x2c, 0x6c, 0x9e, 0x97, 0xc4, 0xa8, 0x92, 0x3e, 0xa7, 0x5f, 0xca, 0xa0, 0xf2, 0xea, 0xf8, 0x22, 0xe5, 0x63, 0x8c, 0x9e, 0xfb, 0xa3, 0x99, 0x1f, 0xd1, 0xc0, 0x30, 0x18, 0x4a}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27168, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xfb, 0x22, 0x76, 0xd4, 0x7d, 0xd5, 0x77, 0xb9, 0xba, 0x23, 0x5f, 0xb0, 0x42, 0x84, 0x8b, 0x2e, 0x43, 0xf1, 0x23, 0xe0, 0xb0, 0xc8, 0x65, 0x18, 0x30, 0xb6, 0x9f, 0x2f, 0x33, 0xb3, 0x12, 0x8d}}
 	return a, nil
 }
 
-- 
2.43.0


From a1dcc1e9c184618c28dfe885479b3d67420cfad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 36/53] fix: send every value of an error's headers

---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 7 +++++--
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 33d9a17..3478746 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -363,8 +363,11 @@ func errorEncoder(_ context.Context, err error, w http.ResponseWriter) {
 	}
 	w.Header().Set("Content-Type", contentType)
 	if headerer, ok := err.(httptransport.Headerer); ok {
-		for k := range headerer.Headers() {
-			w.Header().Set(k, headerer.Headers().Get(k))
+		for k, vs := range headerer.Headers() {
+			w.Header().Del(k)
+			for _, v := range vs {
+				w.Header().Add(k, v)
+			}
 		}
 	}
 	code := http.StatusInternalServerError
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 5c33333..75a2e34 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.168kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.201kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (3.019kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xdc\x38\x76\xf0\xb3\xf4\x2b\xce\x08\x73\x91\xfa\xab\x56\xcd\xf7\x01\x5f\xb0\xe9\x41\x07\xf0\xd8\x3d\x1e\xef\x8e\xed\x5e\xbb\xbd\xf3\x60\x18\x5e\x56\x89\x55\xc5\x6d\xdd\x2c\xb2\xba\xbb\xb6\x52\x2f\x79\xd9\x00\x09\x10\x20\x4f\x79\x08\x16\x79\xca\x6b\x90\xe7\xfc\x9e\x9d\x60\xff\x45\x70\xc8\x43\x8a\xaa\x92\xea\xe2\x99\x0d\x36\x40\x06\xc8\xba\x4b\x22\x0f\xcf\x8d\xe7\x4a\x2a\xe3\x31\x3c\xae\x32\x0e\x73\x5e\xf2\x86\x29\x9e\xc1\x64\x05\x13\xd6\x54\x65\x0a\x4f\x5e\xc2\x8b\x97\x37\x70\xf5\xe4\xd9\x4d\x1a\x8e\xc7\xf0\x8a\x37\xcb\xb2\x14\xe5\xdc\x0c\x80\x7b\x91\xe7\x50\xdd\xf1\xe6\xbe\x11\x8a\x83\x5a\x08\x09\x33\x91\x73\x3d\xf8\x57\xbc\x91\xa2\x2a\x2f\x60\xbd\x4e\xe9\xef\xcd\xc6\x7b\x01\x4f\x98\xe2\xfe\x5b\xfc\xbd\xd9\x84\x61\xcd\xa6\xb7\x6c\xce\xf1\xcd\xb5\xf9\xf3\x05\x2b\xf4\x9b\xf1\x18\x6e\xec\x1a\x30\xad\x4a\xc5\x44\x29\xa1\xe0\x6a\x51\x65\x12\x54\x05\x05\xbb\xe5\x20\xca\x4c\xdc\x89\x6c\xc9\x72\xe0\x65\x56\x57\xa2\x54\x12\x66\x4d\x55\x80\xe4\xcd\x9d\x98\x72\x39\x42\x34\x1a\xfe\x61\xc9\xa5\x02\x56\x66\xd0\x70\x59\x57\xa5\xe4\xa0\x56\x35\xd7\x90\x70\x28\x52\x54\x49\xde\x42\x19\x01\x93\x70\xcf\xf3\x1c\xff\xe5\xe5\xb4\xca\x78\x23\x11\x00\xc2\xcb\x38\xfd\x9e\x55\x0d\x4d\xd4\xd0\x46\xfa\x01\x43\x4e\xcd\xa0\x5a\x36\x20\x97\x75\x5d\x35\xc8\x69\xd5\xb0\x52\xe2\xdf\x88\x99\x60\xb9\xf8\x2d\x53\xa2\x2a\x11\xda\xac\x6a\x0a\xa6\x64\x1a\x86\xa2\xd0\x23\xe2\x30\x88\x26\x2b\xc5\x65\x14\x06\x11\xd2\xce\x1f\x14\xfe\xa9\xd1\x10\xe5\x7c\xfc\x1b\x59\x95\xf8\x60\x56\xe8\xe7\xa2\x32\xff\x3b\x16\xd5\x52\x89\x1c\x7f\x94\x5c\x8d\x17\x4a\xd5\xf6\xef\x65\xa3\x1f\x4b\xd5\x4c\xab\xf2\x8e\xfe\x14\xe5\x5c\x46\x61\x18\x44\x73\xa1\x16\xcb\x49\x3a\xad\x8a\xf1\xbc\x3a\xbf\x15\x6a\x8c\xff\x67\x79\x11\x85\x01\x2b\x57\xf5\x04\xa2\x79\x55\xcd\x73\x9e\xce\xab\x9c\x95\xf3\xb4\x6a\xe6\xe3\xba\xa9\x54\x35\x59\xce\xc6\x9a\xfe\xf1\x6d\x59\xdd\x97\x63\x3d\x3a\x0a\x83\x6c\xd9\x68\x22\x4f\x98\xda\x4e\x89\xc2\x80\x17\xb5\x3a\x65\x5d\x1a\x1f\x85\xc1\x4c\xf0\x3c\x2b\x98\xbc\x3d\x61\xb6\x37\x27\x0a\x03\xa9\x9a\xe5\x54\x9d\x30\xdd\x4e\x88\xc2\x40\x89\x82\x4b\xc5\x8a\xfa\x84\xe9\xde\x9c\x28\x0c\xee\x1b\x56\xd7\xbc\x91\x27\x00\x68\xa7\xec\x8a\xb4\x11\x79\xce\xc6\xc5\xf2\x21\xea\xbe\xa9\x6f\xe7\x63\xde\x34\x55\xa3\x35\x6d\xcf\x42\x4e\xf3\xf4\x13\xab\x7e\x7b\x26\xe8\x3f\x10\x91\xf5\xfa\x1c\xc4\x0c\xf8\x07\x48\x1f\x57\xe5\x4c\xcc\xd3\x1b\xb7\x13\x22\x96\xe7\x11\x44\x25\x53\x32\x82\xcd\xa6\x8b\x1b\x3e\x3d\x17\x95\xfe\x37\x9d\xa3\x86\x23\x28\x5e\x66\x9b\xcd\x51\x50\xe7\x4d\x3d\xb5\x50\x77\xf0\xd4\x2f\x07\xdf\x8c\x0b\xae\x58\xc6\x14\xdb\x5e\xf4\xe8\x25\x11\x7e\xbb\xe3\x07\xf6\x97\x1b\x60\xd1\xf1\xd6\xc2\xbd\x7b\x02\x00\x1c\x1e\x1d\xc5\x96\x96\xd9\xf8\xd7\x09\x4b\xe0\xf0\x0e\x8e\x49\x18\x86\x77\xac\x81\x38\x0c\xde\xc3\x25\xcc\x0a\x95\xbe\xae\x1b\x51\x2a\xf3\x5b\x1b\xb0\xf4\x71\x55\xd4\xac\xe1\xe6\x11\x59\x9f\xf4\x91\xaa\x84\x79\xd2\x21\x33\x7d\xc1\xef\x5f\xf3\xe6\x8e\x37\xe6\xa5\xb1\x66\xe9\x8b\xaa\x7e\x9c\x57\xb2\x7d\x9a\x3e\xae\xea\x95\xf9\x61\x94\x37\xfd\xbe\x61\x75\x18\x8c\xc7\x40\xf2\xb4\x6a\x68\x6c\x3c\x0e\xd5\x26\x29\x7d\x54\xea\x79\xad\x91\x49\x9f\xd0\x9f\xf8\x98\xcc\x47\x7a\x85\xff\xe2\x03\xbb\xa5\xd3\xd7\xfa\x0f\x7c\xe4\x6d\xd3\xf4\xc6\xfe\x8d\x2f\xda\xed\x87\xa3\x45\x39\xff\x15\xcb\x97\x9a\x6e\xcf\xae\xa4\xdf\xe0\xdf\xcf\x99\xbc\x0d\x93\x30\x1c\x9f\x1d\xf5\x1f\x5c\x59\x9f\x04\xf6\xd1\xe1\xff\xc6\xda\x83\x3e\x2b\x81\xa1\xbf\xb9\xe3\xcd\x08\x84\xfa\x42\xc2\x52\xf2\xd9\x32\xd7\x6e\x6a\xb6\x2c\xa7\xc8\x05\x09\x6a\xc1\x14\x94\x1c\xbd\x54\x05\x55\xad\x63\x03\xa8\x70\x6e\xcd\x9b\x73\xeb\x06\x10\xe0\x84\x49\x21\x53\xf8\xa6\x6a\x80\x3f\xb0\xa2\xce\xf9\x08\x56\xd5\x12\x0a\x31\x5f\x28\xa8\x99\x44\x17\xe9\x21\xac\x2a\x60\x6e\x21\xb3\x4e\xdd\x54\xd9\x72\xca\x25\x82\x63\xa5\xd6\x80\xf4\x5b\x56\x66\x39\xe2\x78\x2f\xd4\x02\x38\x9b\x2e\xc8\xd3\x43\x6c\x57\x4f\xe0\x5e\x34\x3c\x83\x65\x8d\x48\x32\x90\x35\x9f\x8a\x99\x98\x42\xcd\xd4\x22\x85\xf8\x99\x42\x80\x42\x42\xdd\x54\x13\x36\xc9\x57\xc0\xa0\x10\x52\x99\x28\x01\x32\x2e\xc5\xbc\xc4\xa9\xa2\xbc\xab\x6e\xd1\xdd\x73\x40\x65\x13\x53\xee\xa2\x0a\x8d\x22\x47\x38\x2d\x05\x46\x07\x40\xb4\x9c\x4c\x93\x70\x3c\x76\xdc\x9d\xe6\x82\x97\xaa\xcb\x5d\x55\xc1\xb4\xca\x73\x3e\x55\x5e\x80\x92\xaf\x60\x5a\x95\x06\x1c\xcf\xbc\x70\x45\x94\x48\x10\x02\x94\xa2\x9c\xe7\x26\x30\x31\xbc\x12\xc8\xe1\x82\x23\x1e\x3e\xbe\xa2\x54\xbc\x99\xb1\x29\x1f\x92\x04\x02\x73\x8b\xf5\x07\x49\x4b\x5c\xac\x8d\x4a\x74\xb0\x80\x1b\xf0\x31\xd1\x33\xad\x8a\x89\x28\x35\x9f\x0a\x42\xd1\x13\xec\x88\x42\x29\xb5\x6c\x4a\x10\x0a\xf9\x8a\x08\x4e\x59\x9e\xf3\x06\x23\x26\x66\x91\x4d\x43\x4d\xce\x0e\x43\xd7\x61\xf0\xa6\x74\xf4\xf1\x6c\xbd\x4e\xed\x0c\x13\x02\x92\x25\x58\xaf\x1b\x56\xce\x39\x7c\x2a\xe0\xe2\x12\xdc\x98\xe7\x46\x64\x68\xc7\xd6\xeb\x4f\x05\xcd\xb1\xab\x00\x80\x23\x35\xb5\x0f\xc3\xf5\xda\x18\x57\x13\x5d\xda\xc7\xf2\xf0\x12\xa8\xc0\x10\x7b\x44\x24\xe0\x2d\x1a\x4f\xd5\x03\x50\x94\x86\xae\x01\xff\x1d\xa1\xc2\x9c\xad\xd7\x4f\x2b\x44\x0c\x3e\x15\xe9\x2b\x13\x82\xde\xac\x6a\x4b\x60\x02\xf1\xd6\x08\x13\x98\x7a\x43\x46\xc6\xc0\x25\xb0\x0e\x03\x1b\xb7\xea\x67\x88\x28\x4f\x7b\x28\x47\x64\x70\xf1\x24\x0c\xd0\x59\x35\x0d\x7c\x72\x09\xa5\xc8\x11\x42\x40\xf2\x2a\x45\xae\x81\x84\xc1\x26\xb4\xcf\x2c\xf4\xf4\x20\x4e\xc9\x08\xe1\x85\x1b\xc7\x4e\x64\xe6\x73\x76\xeb\xb1\x27\x5c\xaf\xf5\x46\xfe\x54\x71\x44\x34\xdd\xe0\xe0\x73\xf0\xb9\xfc\xa9\xe2\x43\x8c\x46\x58\x7d\x94\x49\x64\xba\xe2\xbd\x6a\x92\xec\x8a\x1b\xd6\x8e\x38\x94\x5f\xbf\x94\x6c\x62\xe0\x76\xd4\x7a\x93\x40\x6c\x99\xe1\x3f\xd6\x1c\xf3\xc4\x11\x34\xfc\x03\x12\x42\x10\xd2\xf8\x90\xb4\xc3\x20\xb8\x73\xb2\x93\xbe\xec\x10\x35\x8d\x4a\x12\x06\x3d\x52\xdb\x15\x1b\xca\xcd\x3e\xbd\x33\xe2\x08\x50\xad\x5b\xdf\xec\xcb\x06\x9d\xe3\xa3\x3c\xbf\x7a\x98\xf2\x5a\x69\x3f\x25\x8d\x89\x75\x9c\xd2\x1e\x0a\x53\x16\xda\x9b\xf6\x85\x04\x2d\x46\x86\x50\xbc\x98\xc0\xb1\xfa\xb9\xc8\xb2\x9c\xdf\xb3\xc6\x64\x81\x6f\xa4\xcd\x0b\x31\x09\xaa\xeb\x7c\x85\x26\x06\xcd\xa6\x42\xe0\x85\x1b\xad\xb3\x2e\x7e\xc7\x9b\x95\x13\x1b\xee\x17\xb4\x20\x94\xb6\x69\x78\x2f\x6b\xf4\x1a\x2c\xcf\x57\x23\x37\x4e\xc2\x94\x95\x30\xe1\xda\xd7\xf0\x0c\xa7\x4d\x56\x50\x22\xdb\x55\x85\xcf\xf9\xc3\x34\x5f\x66\x3c\x33\x59\xe0\x84\x23\x0a\x48\x73\xcd\xb3\x74\x87\x1b\x71\x8b\xd3\x08\xa2\xd7\x8a\xa9\xa5\x8c\x46\x10\x5d\x8b\x72\x1e\x25\x6e\xdf\x9f\x39\x86\x24\x83\xf3\x1d\x86\x1e\x57\x46\x2d\x36\x69\x9a\x4a\x1d\x16\x68\xe5\x11\x25\x3d\xbe\xb8\x84\x82\xd5\x6f\xcd\xab\x77\x86\xfd\xeb\x0d\xaa\xd7\xf6\x86\xe9\xd9\x2d\x41\x10\x44\x9e\x1a\x45\x17\xb0\xde\x8c\xc2\xc0\x0f\x23\x37\x61\x18\xa0\xaf\x7f\x8f\xa8\x20\x18\x03\xd2\xa1\x85\x2b\x89\x19\xbc\x1f\x41\x75\x8b\xaf\x2d\x62\x6f\xf9\xc3\xbb\xaf\xe0\x93\xea\x16\xb1\x0d\x82\x9a\x95\x62\x1a\xb7\x11\xde\x2c\x8e\xae\x2c\x08\x4b\x37\x7c\xf1\x99\xfc\x02\xb2\x8a\x4b\x28\x2b\x05\xfc\x41\x48\xf5\x15\x48\xce\x7d\xc1\xbb\x9c\x52\x87\xf4\x88\x54\x92\x90\x3e\x67\x3c\xe7\x8a\xc7\x16\x03\xfd\xce\x10\x70\x14\x2b\x7a\xa9\xe8\xb0\xe7\xdd\x57\x60\xe9\xe9\x35\x9d\x70\xe9\x61\x1a\xf7\x0e\x21\x5c\x5b\x06\x9b\x1d\xf6\x1d\x9b\xf0\x9c\x67\xad\xe0\x4d\xb5\x64\xce\x95\x55\x53\x54\x6d\xc7\x28\xad\xad\xf7\x0b\x5e\xba\xb7\x95\xa7\x99\x04\xcc\x28\xd8\xc8\x6c\x28\xd2\xf9\xa5\x19\x0c\xa6\x04\xc3\x4c\x1d\x47\x4c\x31\x7e\x69\xc4\x54\x47\x54\x2d\x05\x70\xbf\x10\xd3\x85\xde\x2e\x92\x97\x7d\x28\x90\xd3\xa6\xd9\x36\x64\xa9\x1a\x72\xd9\xbb\x54\xe1\x7e\x88\x8d\xae\x8e\x76\x0d\x6e\x8f\x0d\x0e\x87\xe8\xfa\x68\x33\xb4\x83\xd4\x88\xe8\xd4\x1c\x6f\xf8\x94\x8b\x3b\xb4\x42\xdc\x90\x58\xcd\x3a\x74\xa7\xf0\x9a\x73\x07\xc6\x83\xa2\x5f\xd8\x98\x93\x10\xbe\x7a\x40\x44\x71\xf7\x64\x5c\x31\x91\x4b\x0c\x89\xed\xce\x41\x20\x36\xae\x65\xb9\x50\xab\x74\x9f\xb5\xe8\xd0\x1e\x17\x3f\x82\xa3\xff\x6b\x52\xfe\xe7\x9a\x94\xce\xd4\x11\x1c\x6b\x61\x8e\x2f\x3b\x1c\x9b\x50\x3e\x7d\x75\xfd\x18\x09\xe6\xcd\xc9\x19\x25\x06\x67\xde\x74\x2c\xc2\xca\xd6\xc5\x3b\x51\x00\xbb\x63\x22\x67\x93\x9c\x9b\x64\x60\xfe\xea\xfa\x31\x0c\x84\xf8\xb4\x73\xba\x90\x5d\xde\x27\x5b\x33\x30\x82\x4a\x47\x04\x12\x55\xbf\x53\x61\xd1\x9a\xcc\x1b\x13\x30\x24\x43\x0b\xa1\x2f\x93\xde\x40\x89\x82\x7d\xfb\x6e\x18\x12\x0a\xb6\xef\xed\xd7\x7c\x56\x35\x3c\x46\x6c\x9f\x53\xa5\xe8\xa6\xa2\x98\x32\x19\xe1\x16\xd9\x5a\xe7\x12\xc3\x21\x5e\x66\x71\xe7\xb1\xa3\x27\x4d\xd3\x44\x97\x2f\xd6\x6b\xb8\xa9\xbe\xab\xee\x79\xd3\x6a\x24\xb2\x0a\x85\x6b\x03\xbe\xcf\x11\x23\x7c\xc9\x9b\x35\xfa\xc6\x83\x6a\x8c\xe3\x3d\x4d\xbb\x80\x2e\x49\xae\xe8\x12\xe3\xee\x77\x6c\xef\x53\x4e\x0c\x2e\x82\x27\xba\xf6\x8d\xb4\x7b\x23\x28\xde\xd5\x03\xae\xca\xde\x01\x94\xbd\xe0\x88\x0e\x17\xd2\x34\xc5\x69\xc9\xc8\xd7\xfa\xc0\xba\xd6\x96\xd8\xed\x64\xd8\x85\xdb\xfd\xb2\x76\xa1\xbb\x71\x66\x1e\x9c\x9f\x3c\x01\xdd\x62\x30\xc0\x16\x87\xa9\xba\xe1\x85\xe7\x94\x34\x51\xd9\x01\xad\xa9\x87\x9f\xaa\x5a\x52\x8f\xa7\xf2\x20\x9a\x7a\x93\xc5\x12\xce\xda\xa5\x92\x16\xfc\x81\x6c\x16\x93\x9d\x9f\x36\x9d\x7d\x8f\x19\x4f\xed\x25\x44\x5b\x5c\xd4\x14\x68\x2d\xf2\xd3\xa3\x13\x73\xda\xfa\x23\xd3\x59\xe2\xae\x51\xf5\xc3\xac\x1d\x8f\x61\xdf\xae\x00\x81\x26\xd0\xe9\x83\xae\xf6\xa6\x66\x02\x8d\xf8\x06\x65\xa3\x2b\x3e\xd8\x9d\xe1\x8d\x92\xa6\x20\x44\x66\xd3\xda\x04\x07\xd8\xe5\xad\x58\x96\xc1\xaa\x53\x73\x9e\x55\x05\x13\xe5\xbe\xc1\x29\x5c\x37\xa2\x60\x8d\xc8\x57\xb6\x50\xe5\x57\xb5\x8c\x15\xde\x47\x47\xfc\x7e\x57\x31\x90\x96\x57\xfc\x43\xab\x88\x3a\x81\xf6\x7e\x75\x4b\x18\x3a\x65\xa6\x39\xc7\xa4\xcc\x4e\x92\x1f\xf6\x88\xe9\xaa\x3c\x5a\x4c\x7b\x6d\x53\xaf\x9c\xcc\x0c\x3b\x64\x48\x50\x87\x45\x40\x4b\x68\x81\xed\x11\x6b\x9d\xaf\x8e\x92\xd3\x5e\x42\xfa\x04\xd5\x57\xd3\xd8\x27\x29\x59\xa3\xa8\xec\xac\x23\xf6\x91\x27\x2c\x59\xf7\x49\xeb\x5b\x9e\x63\x81\x3c\x34\x8a\xd6\xeb\x3c\xfb\x8d\x4f\x91\x81\x6d\xc8\xa4\xcf\x9f\x24\xdb\x03\x10\x5f\x34\xa1\xb7\x23\xb8\x6b\xe3\xd1\xc2\x45\xa2\x77\x9d\x62\x8a\xee\x2b\x73\xb8\xe5\x2b\x2d\xee\x0c\x43\xd6\x49\xa5\x16\xc8\x63\xbb\x0a\x75\x64\x21\xbe\x4d\x28\xbb\xc0\xa1\x79\x0e\x39\xca\x8b\xa0\x30\xca\xa9\x74\xe1\xf4\x31\x2b\xab\x52\x4c\x59\xfe\x2d\x67\x19\x6f\x7e\xc1\x57\x36\xf5\xc0\x85\x64\x45\xe5\x5c\x45\x99\x9c\x05\x31\x9d\x72\x5b\xc5\xe0\x42\x2d\x78\x43\x2b\xe3\x7b\x64\xc5\xa5\xa3\xf5\x7b\xa1\x16\xba\xa3\x80\x2c\x1a\x69\x5a\xdf\x7e\xf9\x2e\x39\x38\x70\x00\xbb\xf8\x36\x69\x21\x50\x50\x4f\xe2\x9b\xaa\x07\xed\x7b\x6d\xdc\xb7\xff\x3f\x2d\x47\x53\x33\x3e\x39\x96\x7c\xc1\xef\xbd\xd9\x66\x79\xdd\x3f\xa0\x22\x10\x4c\xd8\xf4\x16\xc5\xb3\xb2\x7b\xc6\x14\xdb\x91\xd6\x92\xeb\xde\x45\x0a\xcf\x14\xca\x91\xca\xf6\xa4\xae\x62\x22\x30\x25\xb3\x22\xa0\xaa\xb4\xaa\x20\x13\x2c\x37\xa5\xeb\x9c\x29\xde\xc0\x14\xfb\x4a\x98\x63\x73\x1f\xa6\x51\xd0\x0e\x76\x31\xbe\x36\xae\x33\x35\xf8\x3e\xae\xca\x72\x4f\x40\x6a\x06\xd9\x80\x34\x1e\x88\x48\xfd\x2d\x87\xd1\xc1\x76\xd5\x34\xf0\x9e\xd6\xb7\x73\xdc\x69\xb6\x78\xda\x3d\x2e\x11\xec\x66\x77\x7e\xa9\xb4\xb5\x81\xc1\x1d\x6b\x5c\x7e\xe5\x99\x8e\xdd\x4c\x33\x0c\x70\xbf\xf4\x0d\xbd\xdc\x8d\x20\x89\x4b\x5a\x1d\x91\x31\x36\x91\x24\xa4\x37\x9b\xb4\xaf\x76\x1b\xb9\x71\x16\x76\xb4\x2f\x82\x6c\x43\xcc\x27\xfc\x50\x88\x79\xc0\x5a\x99\x42\x59\xd0\xc6\xdf\xf8\x33\x71\xb4\xc7\x3a\x4d\xd4\x4c\xa5\x78\xb4\xfd\xcb\xfe\xe1\x36\x8c\x9d\x24\x0f\x86\xe3\x70\x4e\xa0\x1c\xce\x76\xee\x85\xdf\xb1\xf0\xde\x8f\xda\xf5\x82\x8d\x35\xaa\x68\x4c\x91\x76\xa0\x9d\xf3\xe3\xc3\x94\x3d\xfe\xef\x09\x3f\xc6\xff\xed\xf7\x68\xc7\x86\x29\xe4\x6b\x06\xfc\x9f\xd9\xfc\xb4\x3b\x9f\xf0\x13\xfd\x1f\x12\xf3\x4a\x23\x73\xa4\x03\xc4\xa1\x2e\x58\x41\xb7\x7c\x92\x0b\xac\xf3\x55\x9f\x0f\xf4\xc5\xf6\xe3\xc3\x96\xe1\xe8\xf2\xaa\x3c\x22\xba\x3c\x2c\x10\x2f\xc8\xdc\x23\xe1\xbd\xd1\x65\x47\x6a\xfb\xe8\xe8\x0f\x5a\x88\xc4\xe3\x44\x76\x6a\x43\x66\x7f\x74\x49\x58\x68\xaf\x2b\x6f\x2a\x3f\x60\x31\x3b\xa5\xcf\xe2\xd3\x3a\xb8\x4f\x8c\xa2\xee\x81\x12\xdf\xf2\x95\x84\xb7\xef\x6c\x15\xef\x00\xbc\xa3\x1a\x5a\x45\x06\x67\x87\x82\x25\xed\x03\x6a\x26\x9a\x76\xf1\x30\xb0\x35\xbd\xdb\x36\x84\xd2\xe8\xa1\x13\xc0\xa6\xd4\x9d\xad\x84\x4d\xd5\x43\xaa\x79\x12\xdf\x26\x29\xd5\x2e\x93\xb6\x0e\x16\x18\xc0\xae\xe2\xa1\x7f\x9a\x80\x05\x63\x0d\x6d\x56\xd1\x78\x22\x4c\xfd\xae\x13\x9d\x9d\x15\x19\xd6\xcc\x2c\x01\x3f\xaf\x44\x19\x9f\x15\xd9\xa8\x7d\x74\x8d\x73\x62\x3d\x13\xcb\x26\x89\x05\x47\x9c\xc1\xe8\x85\x7a\x61\x46\x92\xc7\xd6\xc4\xbe\xbd\xb9\xb9\xa6\x7c\xc2\x3e\x3b\xfc\xdf\x38\x0c\x75\x9b\xdd\x70\xb9\xd4\xea\x05\x97\x10\xb1\xba\xce\xc5\x54\x1f\x2c\xd1\x67\xf5\xbe\x82\xe9\x82\x35\x92\xab\xcb\xa5\x9a\x9d\xff\x2c\x72\xa5\x34\x5c\x95\xca\x03\xd4\x4d\x47\xc5\x5a\xd0\x13\xbd\x67\x0f\x97\xd8\x10\x58\x55\x42\xdd\xf0\x8c\xcf\x44\xc9\x33\x7d\x26\x42\xd2\x9e\xdb\x5a\xe6\x60\x61\xad\x7b\x24\xa7\x5b\x58\xf3\x0f\x6b\xd8\x98\x45\xcc\x20\xd5\xf0\x75\x78\xef\xd9\xad\xad\x3a\x0f\xea\xce\xdb\x77\xc3\xd0\xb5\xfc\xfb\x5e\x53\xb5\xcd\xac\x81\xf1\xab\xec\x14\xdb\xfa\x27\x5d\xa1\x25\x37\xe6\xa6\x89\xb9\xf7\x63\x78\xca\xa3\x99\xe2\x4d\xbc\xfd\x46\x3d\x6e\x45\x1b\x7b\x62\x4e\x34\xa0\x5d\x2a\x8f\x2a\xf5\x51\x25\x48\x97\xf5\x0a\x64\x4c\xb1\x7c\xc0\x30\xea\x55\xb5\x44\x1c\x92\xd0\x8b\x24\xa8\x29\x71\x71\x39\xc8\x66\x37\x74\x82\x27\x3d\xca\x39\x02\xa4\x69\xe9\xd7\xe6\x11\xd5\xf6\x0b\x3b\x2f\xc6\xe0\x8c\x86\xe3\x99\xdc\x09\xfc\x35\xdc\x54\x6f\xf0\xcc\xe1\x66\x13\x25\xe9\x35\x53\x8b\xce\x18\x7c\x70\xc3\x8b\x1a\xe3\x66\x3d\xc2\xaa\xd3\xc0\x09\x2e\x5d\x4c\xec\x56\x13\x09\xa3\x9e\x92\x22\xc5\x73\x48\x9e\xb7\xa4\x6e\x9a\x38\xf7\x60\x06\x1a\x89\xe2\xc0\xa7\xa6\xf7\x65\xdd\xb0\x79\xdd\x57\x58\x0c\x74\x3b\xa0\xad\xbd\xf9\x7f\x92\xd1\x28\x28\xa8\xf2\x95\xc6\x34\xd9\x74\x66\x61\xc2\x02\xdb\x2e\xb3\x2b\x7e\x8f\xef\x9b\x11\x66\x27\x19\x9f\xb1\x65\xae\xd0\xdb\x19\x05\xc1\x1d\xa9\xcb\x8e\xd5\x0c\xb6\x6d\xc1\x08\x18\x4c\xaa\x4c\x27\x88\x68\x1b\x4c\x78\x8f\x69\x62\xa4\xd7\x89\x5c\x66\x79\x87\x56\x16\x41\xe9\xe7\xa9\xc6\x2e\x4e\x4c\xfe\xc2\x40\xea\x6e\x35\x20\x3f\x10\xd4\xff\xff\xf2\xcb\x14\x9e\x51\xbb\x0b\x47\xfa\xf5\x52\xb3\x6f\x78\xa3\x0f\x43\xe3\x88\xba\xa9\xee\x04\xa6\xbe\x0b\xfd\x06\x1b\xfd\x79\x8e\xed\x73\x8d\xad\xe9\x32\xe2\xb8\x36\x26\xf3\x41\x23\x14\x0f\x3a\x52\x91\x3e\x67\x8d\x5c\x30\x7d\x88\xcb\xe2\x5f\x98\x47\xd8\x81\x97\xcb\xe9\x94\xf3\x4c\x9a\x5c\xeb\xe7\xaf\x5f\xbe\xa0\x33\xd5\x99\x3d\x00\x6d\x93\x35\x4d\xab\x43\x07\x3b\x9e\xc3\x64\x99\x86\x3d\x1e\x69\x6f\x46\x36\x05\x74\x94\xb5\x2f\x3b\xd0\x40\x94\x52\x71\x96\x59\x9e\x19\x23\xe9\x5b\x88\xbe\x40\xc4\x9d\xfd\x18\xc1\xbd\x39\xb2\xd6\x55\x03\x1d\x33\xa2\x54\x47\xf0\x1e\xb7\x9f\xcf\x12\x63\x7e\xb0\xa9\x58\xf3\x66\xad\xa5\x78\x81\xb4\x58\x81\x62\x24\x22\x66\x96\x5b\xc8\x40\xe3\x68\x71\x48\xdc\xe5\x6d\xeb\x67\xc5\x0c\xf0\xd5\xd7\x7a\x49\x9a\x7a\x65\x4a\xa9\x0e\x90\x9d\x87\xec\x8e\x93\xaf\xec\x0a\x38\xec\xd2\xf3\xb9\x88\x36\x5c\x3a\x70\xb6\x20\x10\xdc\xa7\x46\x6d\xe2\x24\x7d\xcd\x55\x1c\x91\x21\x3c\xbf\x59\xd5\x3c\x1a\xf9\x2e\xcf\x10\xb0\xb0\x4a\xe6\xe3\xdf\x35\x0f\x56\x0f\x5b\x3a\x30\xea\xf0\x42\x0e\x0b\x83\x46\xca\x58\x33\x36\xd8\xc6\xe5\x76\xd4\x33\x32\x7d\xca\x55\x7c\x6b\x9b\x7f\x9b\x30\xd0\x5b\xe3\xc2\x1c\x32\x4d\x8d\x3a\x3c\xc3\xd0\xb1\x64\xb9\xe7\x24\x34\xee\x72\xba\x07\x6b\x4f\xcd\x5a\xc4\x35\xf0\x4b\x90\x53\x82\x8c\xaf\x29\x6d\xbc\x4f\xb5\x52\x10\xc6\x38\x30\x71\x0f\x63\xe4\x76\x82\xf6\xa6\xd5\x3b\x63\xfd\x9a\x78\xb2\x9c\xc1\xdb\x77\x78\x6e\x36\x21\x5d\x5f\x87\x3a\x56\xbb\x07\x5f\x85\x5c\x15\xdc\xea\xd9\x9b\x92\x24\x8b\x10\x46\xf0\xf9\x7d\xf2\xd5\x76\x95\xdc\x44\x29\x52\xfc\x96\xc3\x25\xfc\xec\xff\xfe\xe5\x5f\x18\x15\xca\x79\x89\x73\x12\xf8\x2b\xf3\x0e\x87\x06\x88\xc6\x25\x4c\x96\xb3\xb7\x17\xf8\xf0\x1d\xb9\x39\xb2\x95\x78\x08\x44\xf3\x6d\x16\x47\xd6\x3a\x00\x12\xa5\xcf\x7f\x5c\x60\x81\x0b\x7b\xb5\x35\x86\x3b\x50\x56\xe5\x39\xea\x95\x0b\xe4\x71\x60\x34\x42\xe0\xd4\x88\x25\xa8\x74\x8e\xf7\x05\xbf\x8f\xef\xcd\xbe\xd0\x3c\xd2\x36\xd4\xa7\xdd\x1e\x0d\x58\x87\x81\x1e\x85\xbf\xd1\xbe\xfc\x1a\x57\xb9\x20\x03\xfa\x6b\x32\xe7\x28\x77\x1a\xc5\x94\x90\x33\x81\xd7\x3d\x16\xdc\x59\x43\x6d\x48\x3d\xe1\xb6\x69\x86\x04\xa1\x6f\x66\xd8\xeb\x29\xc7\x1c\xbf\x4e\x4d\xa3\xc9\x5b\xd4\xa1\xaa\xd1\xc2\x2b\x05\x76\x29\x5c\x29\x0c\xac\xed\x05\xf0\x3b\xf6\x2e\x24\xb7\x3a\x12\x2f\x5a\xa0\x89\x67\xf3\xe2\x04\xba\xc7\xdc\x16\x69\xbb\xc2\xc0\xec\x76\x5b\xe1\x43\xda\x3b\x1d\x10\x84\x54\xd8\xa9\xb0\x6f\x57\x18\x0e\xc6\x24\x5e\x31\xea\x40\x50\xe2\x8a\x12\x7b\xbd\xff\x76\x92\xab\xb1\xef\x6f\xa1\xe8\x46\xaa\xb9\xa0\x83\x73\xd0\xf8\x9d\x93\xaf\xf1\xf3\x57\xbb\xce\x35\x6b\x78\xa9\x28\x27\x74\x7a\xaa\x0f\x8f\xa1\x3b\x42\xac\xec\x53\x0d\x19\x35\xf8\x50\x85\x3e\xf0\x4a\x14\x7b\xc9\xea\xcd\x79\xe1\x8c\x1c\x8c\x1e\x32\x9c\xef\x06\x19\x9f\xf1\x06\x9a\x14\xad\x76\xfa\x18\x4b\x99\x68\x80\xb4\xc5\xc0\x5c\xb8\x4d\x7f\xb7\x68\x25\xc8\x68\xb9\x31\x08\xc2\x0d\xef\xfa\x70\x74\xe6\xfe\x15\x67\xd9\xa3\x3c\x8f\x0d\xf0\xe3\xce\x25\xda\x83\xf8\x33\x74\x78\x23\x88\xc8\x12\x34\xe8\x6c\x6d\xc0\x83\x94\x59\x76\x46\x64\xa9\xb7\x0c\xd1\x97\x9a\xb6\x60\x69\x8d\x1a\xa6\x46\x17\x97\xe0\x2e\x9e\xb4\xe6\x8e\xe2\x3c\x3d\x3c\x78\x94\xe7\xd5\xfd\x35\x6b\x94\x60\x39\x56\xd3\x54\xb3\xa4\xa0\xf0\x89\x90\x53\xd6\x64\x6f\x4a\x7d\x49\xe8\xa2\x7d\xb3\xa1\xd4\x16\x49\xbf\x04\x7f\xc1\x1d\x93\x8a\xdd\xc7\x1d\xa3\xda\x6f\x56\x87\x0d\x6b\xaf\x69\x25\x34\x3a\xcc\x74\x1b\x76\xdd\xc3\x56\xe2\xde\x47\xd9\x5c\xc3\x90\xc0\x73\x88\x5f\xb3\x8c\xd4\x81\xde\x21\x02\x2d\x5a\x2e\x5b\xc7\x8c\xf2\x9a\x35\xac\x90\x36\x5d\xf9\x15\x6b\x64\xdc\xa0\x0c\xf1\x22\x46\xfb\x1e\x73\xfb\x0f\x4b\xde\xac\xda\xe1\x4d\xfa\xe6\xd5\x77\xe9\x2f\xf1\x61\x6c\x27\x78\x43\x42\x3f\x87\x31\x67\x51\x2f\x2e\x5b\xad\xd5\x77\x26\x28\x81\xd1\x67\x61\x4a\x3b\x2c\xfd\xae\x32\x81\x35\x44\x9a\x48\x33\x06\xeb\xab\x1a\x4a\xfa\x94\x97\x7a\x51\x27\x4d\xcc\x6e\xfa\xcb\xba\xfb\x51\x78\x59\xf2\x6a\xb6\x83\x07\xff\xb0\x8b\x87\x26\xeb\xc7\x20\xe2\xb6\xd5\xe7\x0d\xff\xd0\xb6\xb4\x29\x69\xd1\x15\x64\x3b\xb4\xad\x0c\xf6\x24\x44\xbd\x16\x73\xa8\x99\x69\xec\xa3\xb4\xd9\x81\xf3\xeb\x4c\x6a\xfb\xb9\x9d\x0d\x98\xdc\xa8\x39\xa1\x51\xd9\x83\x60\x9f\xed\xeb\x8d\xad\x87\x7a\x97\x2e\x44\x1a\x32\x14\xcf\x77\xcc\xc4\xb6\x91\x70\xb6\xe0\x8d\xe4\xd7\x68\x60\xd0\x5e\x4a\xdf\x7c\xbc\x91\xfc\xaa\x5c\x16\x2f\x96\xc5\x84\x37\xf2\xa2\x7d\x71\x55\x08\xf5\xa6\xac\xab\x7a\x89\x29\x71\xe6\xcc\xca\x26\xec\xd8\xd3\x16\x37\x8b\x8e\x3b\x5d\x9e\xc6\x1a\xd5\xf4\x39\x97\x92\xcd\x79\xb2\xef\x78\x83\x55\x83\xf7\x23\xb2\x56\x2e\x9c\xd4\x91\x94\x37\xca\xef\xb5\xba\x13\x8a\x92\x82\x81\xbe\x1a\x4a\x7f\x1d\x71\xc7\x0b\x0d\x35\x5d\xdb\xd8\xdd\x86\xe2\xda\xd8\xed\x6b\xb3\x22\xe0\xdd\x16\xeb\x82\x49\x58\xb0\xcc\xcc\x1d\x6a\xaa\xea\x56\x5e\x86\x07\x31\x05\x56\x85\x5b\xfd\xf6\x6f\xeb\xaa\x05\x37\x50\x4c\x20\x25\x53\xeb\xf4\x5d\x2f\x17\x95\x19\xab\xad\xae\xac\x68\xd1\xa1\x24\x14\xb3\x71\x59\x19\x20\xdd\xce\xed\xde\x9e\xed\xde\x4e\xec\xed\xc8\x71\xc8\xcb\x54\xf6\x4e\xd9\xc2\x5f\x37\x6d\x77\x61\xa0\xf1\x42\x76\x2f\x4b\xde\xde\x8a\x9a\x2e\xd0\x96\xa5\xfa\x0d\xcb\x65\x05\x2c\xcb\x68\x0f\x6b\x6b\x0f\xcb\x26\x0f\xf7\xb7\x8e\x23\x1a\x7a\x8e\x77\x87\x47\x64\xc4\xaf\x99\x5a\x24\x87\x26\x3a\xa9\xe0\x59\x7a\xd4\x39\x34\x22\x51\xf2\xd1\x3d\x66\x04\x41\x4d\x13\xfb\xec\x84\x1e\xb3\x37\xbb\x2d\xb1\xf6\xb4\x98\x4b\xc0\x91\x64\xbd\x20\x17\x77\x18\xb5\x32\x45\x5c\x2b\x2a\xa5\xeb\x0b\x58\x3e\x60\x25\x5e\xbd\xfa\x1e\xcf\xd1\xd7\xe6\x92\x97\x79\x86\x76\x72\x5a\x15\xdc\xdc\x3d\x68\x17\xc9\x84\x9c\xe2\xd5\xf9\x15\xc8\x95\x54\xbc\x18\x81\xd4\x27\xbe\x73\x71\xcb\xf3\x95\x55\x3a\x54\x23\x88\x16\x95\x54\x17\xa8\xd1\x11\x19\xd0\x0e\x05\xb1\x5b\xca\x1e\x1a\x1e\xac\xdc\x9e\xde\x81\x16\x33\xf8\xc4\xaa\xdc\xb7\x4c\x5e\x37\x7c\x26\x1e\xdc\x8a\x23\x88\x70\x57\x46\x26\x23\x77\x78\x5c\x9a\xc7\x17\xe3\x71\x04\xff\xc7\x71\x02\xb5\x32\x58\x3a\x2b\xb8\x6c\xf2\xf4\x1a\xa3\x13\x07\xed\xe8\xb3\x5c\x18\x5c\x2c\x43\xba\x7c\x8b\x99\x65\x4f\xc6\x41\x7d\x55\x73\x4b\x21\x7a\x51\x19\x41\x7a\xe5\x6d\x73\x88\x5e\x33\xc4\x14\x83\x10\xd0\x7d\xd5\xdc\x8e\xc0\x94\xcc\x81\x3c\x3d\x26\x7e\x78\x8d\xae\x31\xf1\xa6\x79\x2b\x90\x85\x51\x5b\xb6\xc5\x43\x62\xc1\xf1\xb9\x50\xb0\x5e\xe3\xa5\xdc\xed\xe4\x87\x90\xc6\xb7\xba\x02\x68\x83\x0d\x84\x24\xca\x8c\x3f\xec\xce\xf8\xd2\xce\xd1\x31\xfe\x6e\x56\x61\x29\xee\x6b\xe6\x63\xb0\xa1\xff\x37\xd8\x33\xaf\xe7\x42\xae\xd7\xd9\xa7\x5e\xfd\x60\xd9\x98\x22\xc8\x60\x5a\xd5\xab\x37\xaf\xbe\x8b\x97\x23\xf0\xc7\x7f\xcd\x24\x47\xf3\x81\xe5\x63\x3b\xb4\x8d\x0e\x76\xb1\xea\xc6\xa5\xdd\x1a\x31\x71\xa6\xa7\xf1\xbf\xd3\xd5\x0f\xb6\x1b\xfb\x36\xb6\x6d\xa5\xd9\xf9\xbb\xfd\xd3\x99\xab\xde\x0e\xff\x5e\xb9\xc3\xf9\x9f\x4a\xf2\x43\x85\x74\x0c\x5a\xf6\xa8\x04\x1d\x8a\xd8\x4b\xaf\x77\xc2\x40\x5b\x1e\x2b\xc7\x09\x93\x1c\xce\x70\x0f\xbf\x79\xf5\xdd\x48\x37\x97\xc8\xb5\x26\xee\x31\xee\xdf\x12\xe3\x82\x8b\x4b\x38\xc3\x09\xe6\xa7\x6e\x24\x50\x7a\xe0\xd8\xf9\x39\xbe\xa1\x02\xc3\x63\xf5\x60\x5b\xa3\xaf\x31\xbe\x9d\xea\x33\xee\xcb\x86\x4a\x35\xa8\x8e\x76\xe3\xaa\x0a\xea\x65\x9e\xeb\xe7\xe4\xe7\x78\x86\x11\x86\x84\x6a\x89\xae\xdb\x86\xaf\xe4\x96\x74\x79\x87\xdc\x5e\x61\x43\x58\x3f\x01\xc5\x58\x81\xca\x1d\x29\xc0\x8b\x4a\xd1\xad\x5b\x04\x89\xb0\xb4\xa5\x58\xb0\x3b\x0e\xf6\x6b\x1a\xfb\x43\x12\xbd\xce\x44\x77\xab\xe8\xe2\x99\xbe\x78\x83\x96\xdf\xa2\x86\x77\x98\xa9\xbe\xcf\xec\xc1\x25\x1d\x7b\x20\x55\x2b\x57\xa8\x76\xad\x3d\xff\x5a\x1c\x6f\x9c\xc3\xa5\xd6\x72\x97\x77\xa6\x9d\xec\xdd\x0a\x19\xf6\x07\x7e\xc5\xa7\x67\x10\x75\xdc\xf6\x5c\x9b\x3c\x22\x3a\xfc\xc9\x1a\xca\x2e\xe2\xa1\xca\xaf\xdf\x47\x76\x3e\xc3\xf4\x7d\x13\xd4\x2a\xe4\x35\x5a\x94\xa1\xe3\x31\x07\x0d\xf6\x76\x49\xaa\xd7\xd8\xec\xad\x48\x6d\xe7\x57\x54\x8e\x32\xd1\xd8\x76\x49\xca\x56\x69\x68\x19\x3b\xdb\x94\x67\xda\xdc\x67\xbb\x24\x45\x8f\x31\xf1\x35\x61\x1e\x75\x49\xdc\x1b\x0c\xa8\x99\x2e\x07\xfc\xbf\x2f\xbf\xf4\xdb\x45\x23\xb8\xa7\x9e\x88\x2e\x78\xd6\x0d\xc7\x20\x87\xe9\xfd\xc0\x4a\x0d\x4b\x07\x05\x5a\x51\x99\x52\xf8\x5d\x04\xdc\x3f\x86\x0a\x7f\xff\x51\x01\x1b\x0a\x93\xc2\xb4\x38\x5a\x24\x0e\x96\xcc\xec\xf1\x90\x9e\x92\x59\x2f\xdb\xf7\x57\xcc\xcc\xa2\xa7\x97\xcc\x4e\xa9\x80\x5d\xe2\x90\xf4\xea\xe5\x37\x83\x45\x30\xac\x62\xb7\xb5\x71\x54\x0c\xcd\x02\x40\x3e\xae\xfc\xaa\xd7\x56\xf8\xd3\x07\x0b\x0b\x6a\x3d\xf5\x34\x07\x94\xc0\x19\x78\x8d\xd7\x8b\x80\x4f\x3a\x8d\x8f\x97\xbf\xd8\xbb\xc4\x2c\xde\xee\x44\x24\x23\x88\x3c\x9d\xb9\x80\x2f\x3e\xcb\xbe\x88\x46\x9d\x35\xdc\xda\x18\x8e\x20\xc1\x87\xb4\x39\x3c\xb9\xae\x37\x58\xd6\x1b\xaa\xea\x6d\xc2\xe3\x6b\x7a\xb2\x4e\xbe\x3a\x2c\x04\x9f\x29\x96\x60\x1a\xf4\x79\x7b\xd6\x39\xe8\xd6\x65\x7c\x03\x74\x55\x9e\x68\x80\xdc\x48\x2f\x30\xd8\x09\x09\xce\xc9\x54\x1d\x11\x42\xed\xad\x05\xb9\xea\x79\xe8\xb2\x5d\x2a\x07\x01\x3b\xbe\x60\xae\xbf\x10\x81\x3b\xff\x8e\x35\xa2\x5a\x4a\x40\x77\x82\x51\x18\xfa\xe5\x60\x3c\xde\x75\xbe\x31\xc6\x11\x23\xd0\x05\x33\xd3\xd3\xc6\x4d\x92\x58\x53\x70\x04\x59\xfb\x6d\x81\x1e\x32\x70\x84\xcc\x95\x8e\xf0\x33\x4f\x77\x2c\x47\x59\x44\x11\x55\x26\xcd\xa3\xfd\x37\xfc\xb7\x98\x41\xab\x19\x25\xb7\x15\xce\x86\x7f\x08\xc3\x2d\xf7\x35\x98\x1a\x6f\x8f\x1b\xce\xbd\x4d\x55\xe2\xb5\xb6\xd9\x78\x0d\x5e\x2d\xb0\xf0\xcb\x0a\xae\xb0\x6d\x83\x77\xb5\xd5\x02\xd1\xb6\x99\x9c\x3e\x43\x65\x9b\x4a\x5b\xd7\x40\x25\xd7\xe5\xa1\x4e\xad\x13\x57\x79\x6d\x9e\xbb\x62\xa7\x1d\xb8\xd9\xbe\x0c\x8a\x21\x63\x34\xd6\xf8\x93\x8c\xf5\xa1\x05\x09\x78\xb9\x15\xad\x15\xb9\xb9\x11\xd0\x47\xc8\xcc\x6d\x4e\xa1\x34\x63\x90\xa8\x57\xec\x9e\x62\x44\x2d\x80\x96\x52\x17\x35\xea\x64\xc7\x35\xe0\x89\xb9\x58\x10\xeb\x72\x42\x2b\x52\x97\x15\x84\x4b\x4f\x05\x1a\x41\xaa\xa2\xa6\x76\x2b\xc1\x54\x45\xdd\x65\xcf\x50\x2d\x1a\x2c\x5f\xce\xe1\xb8\x32\xb0\x98\x69\x05\xa7\x61\xaf\x78\xcd\xb1\x66\x68\xa7\x3d\x93\x5f\x33\xcf\x42\xf6\x41\x7e\x5a\xe1\x6b\xa0\x8f\xb6\x59\xc0\x44\xe0\xdb\xc8\x15\x9a\x7f\xe9\xaa\xea\x74\x9e\xfa\x9d\x51\xc4\xd4\x8d\x78\xcc\x0a\x9e\xb7\xa7\xc6\x49\x9a\xb9\x74\xbf\x29\x6c\xf3\xae\x52\x0c\xcd\xb7\x5d\x0d\x42\x23\x7d\x94\x65\xf1\x1e\x54\x46\xde\x27\xa2\xe2\x3b\xac\x5c\xb5\xdd\x8f\x8e\x4e\x21\x4e\x3c\xc7\x72\x6f\x87\x6d\xcf\x24\x56\x62\xed\xaf\xd7\x8a\x35\x57\x0f\x35\xd5\xd1\xb5\xcd\x1f\xc4\xd3\x37\xef\x1f\x85\xee\x2c\x8e\x3e\xcb\xa2\x11\x9c\x0d\x2d\xd1\xa5\xa6\x45\xbf\x6a\x20\xc6\x6d\xb0\x23\xe9\x64\x5b\x19\x2c\x1d\xaa\xa0\x4b\x71\x5b\x87\x48\x06\x57\x76\xe4\x6f\x3b\xb2\xd6\x97\xed\xc6\x12\x33\x26\x72\x73\xca\x87\x7c\xe2\xa0\x92\x44\x5d\x39\x91\xbd\xb4\xe6\x25\x56\x45\x9d\x84\x27\x71\xd5\x40\x48\x3c\x46\x59\xd2\xd7\xeb\xf1\xd9\x1f\xfe\xf5\x6f\x7e\xf8\xfd\x3f\xff\xf0\x4f\xff\xf6\xc3\xdf\xff\xee\x8f\xff\xf8\xb7\xff\xf9\xef\xff\xf1\x87\xdf\xff\xdd\x0f\xff\xf2\xbb\x3f\xfe\xee\x1f\xce\xc6\x2e\x09\x36\xd5\xa0\x8f\xd2\x84\x1f\xa7\x08\xf1\x91\x1a\xb0\x45\xd9\x47\x2c\x74\x68\x9d\x36\x97\x77\x9b\xc7\x33\x4b\xee\x17\xfd\xd8\x6c\xba\x96\xad\xc2\x86\xd6\x50\x8b\x6b\xd7\xbc\xe9\xe1\xc3\xe6\xad\x05\x5b\x3b\x77\x62\xa6\x50\x28\x47\x10\xc9\x14\xd2\x30\xda\xd0\xf6\x15\xca\xad\xc2\x2f\x5e\x98\x73\x38\x44\x3f\x0d\xf5\x18\xa0\x0f\x76\x5b\x10\xba\x31\x47\x6e\xd7\x4b\x19\x77\x59\x4e\xe3\x8f\xda\xe5\x55\xad\xbc\xa5\xbb\x6c\xef\xca\xb7\xb3\xc5\x69\x7c\x67\x8f\xd3\xb3\xed\x4d\xfe\x13\xd3\x3a\x64\x33\x7a\x09\xb1\x93\xfa\x2d\xc6\xc9\x36\xe3\x29\x57\xdb\x4b\xc4\x89\x35\x1a\x8e\x5d\xfb\x0c\xc7\x09\xb2\xf2\x6d\xc7\x96\x28\xfe\x7c\xd4\xa8\x9f\xed\x3b\x48\xfb\x5b\x76\xeb\x67\xe7\x17\xfd\xd0\x45\xe7\x36\x66\xd2\xcc\x81\x4b\x20\xfc\x4c\xb4\x1c\xeb\xe8\x90\xf6\x6d\xe9\x85\xa9\xba\x54\x1b\xcd\xb9\x32\x5f\x7e\xf4\xc3\x26\x0c\xba\xbb\x51\x93\xaa\x5e\x71\xf5\xb1\x81\xef\x31\xd1\xd3\xf9\x81\x1e\x7a\xb7\x97\x3f\x3e\x83\x97\x65\xbe\xd2\x5f\x91\x42\x84\xf5\x68\x49\xbd\x3c\xb9\xa8\x96\x79\x06\x13\x57\x28\xc3\xb9\xd8\x5e\xc1\xeb\x9a\x9a\xb3\x95\x5a\xf8\xe7\x5b\xab\x42\x28\x0c\xbd\xb2\xa5\xfe\xfe\x0d\xa6\xe4\xa2\xe4\x52\xc2\xd9\x98\x56\xd4\xe4\xf7\x9a\xde\x03\xa1\x54\x6b\x91\x3b\xf2\xa3\xcd\xb2\x9d\xed\x3e\x3f\x9c\xeb\xb6\xc9\xee\x60\x7b\x7a\xb8\x3f\x3d\xd8\xa0\xd6\xdb\x06\xaf\x87\xb8\x8a\x87\xc3\xd0\x19\x8e\x83\xdf\x22\xeb\x39\x97\x32\x45\x49\x94\x5f\xd8\x90\x5f\x57\x27\xb0\xa2\x84\x51\x0c\x7c\x76\x17\x8d\x40\x73\xd6\x96\x3f\xcc\xc9\x22\x70\xf5\x16\xf7\x95\xcf\x18\x0f\x40\x4a\x3c\x0d\xff\xf5\x72\x36\xe3\x4d\x8c\xb8\xfa\x67\xb8\xc1\x3f\x25\x41\xa9\x77\xb0\xfb\xe9\xb3\x83\x9f\x4d\x71\x5f\x42\x3d\xb6\x0d\xf9\xe2\xd1\xcd\xeb\x8f\xb9\x22\x62\xcf\xd1\xe1\x7c\x30\xa5\x5b\xf7\x9b\x2e\x96\x22\x2e\x88\x68\x39\x02\xd9\xdc\x99\xdf\xee\xcb\x76\x94\xac\xee\x7e\x54\xef\xd8\x3b\x9f\x28\x48\x3a\x39\x80\xf5\xd6\xaa\xd4\xc6\x75\xc9\x5f\x2f\x27\x72\xda\x88\x89\xf9\x34\xcd\xce\xf5\x4c\xff\x13\x20\x98\xae\xf6\x8d\x41\xa3\xdc\xdc\xf9\x23\x35\x10\xfe\x5c\xce\x35\x69\xc9\x70\x85\xc5\x7d\xca\xce\x6d\x1c\x4f\xa6\xeb\x75\xe7\x4b\x19\xec\x96\x7b\xdc\x3f\xf6\xab\x33\x38\xe5\x88\xaf\xce\xb4\x90\x0f\x5e\x8e\xe9\x7c\x33\x37\x75\xfc\xa3\x2b\x07\x89\x2f\xb8\x81\xaf\xcd\xec\x87\x40\x47\x27\xfe\xfc\x3e\x3a\xd3\xd2\x75\xf0\x96\x2b\x99\x40\xa7\x10\x17\xd0\xa5\x19\xef\x88\x38\xb2\x4f\xfa\xe8\x0c\x0a\xca\x1b\x41\xce\x67\x44\xb7\xe9\xaf\xca\xde\x31\x5e\x6f\xb0\x1d\xb1\x75\x16\xe9\xd4\xaf\xd2\x78\x52\xf6\xae\x23\x9c\xfe\x55\x1a\x0f\x8e\x3b\xd8\x7c\x98\xb9\x1e\x79\x00\x70\xd6\xe5\x6e\xcb\xda\x9d\xef\xcd\xd0\x4a\xdb\xfd\x90\xa1\x75\xbc\x8a\x3c\xb2\x6c\xbd\xee\xb2\xbd\xbf\x33\x54\xc8\x39\x59\xb3\xe7\x72\x3e\x5c\x88\xdf\x3d\xa3\xda\x77\x45\x73\xcf\x49\xf7\x42\xce\xd3\x27\xda\x89\xf5\x9f\xcd\xec\x3b\x4a\x60\x75\x79\xe0\xbe\x27\xb1\x87\xaa\xb5\xed\xe1\xba\x1e\x7d\xd9\x2e\xa8\x6a\x82\x8f\x38\x5c\x87\xc5\x3e\xa8\x26\xbf\xc1\x43\x23\x54\x2f\x95\x4e\x5e\xf6\xeb\x1f\xcf\x59\xb9\x32\x3d\x22\xec\x1c\xda\x43\x24\xe6\x23\x80\x4b\xcc\x39\xb0\x51\x83\xe8\xa1\x01\x2c\xa5\xc0\x36\x21\xdd\x40\x22\xa3\x36\x88\xf7\x40\x37\x0f\xd7\xa5\xb8\x7c\x04\xe5\xb4\xe3\x8e\x5c\x1f\xa3\xbf\x80\x6a\xf9\xdc\xd1\x41\xb3\x3e\x92\xe0\x2f\x4c\x0b\xe1\x0a\x2d\xd8\xe4\x94\x73\x40\x48\x11\xd5\xd4\xed\xb3\x13\xce\x01\x79\xb3\x0f\x7c\x6b\x02\xc9\xff\xef\xfe\xd6\x44\x8b\xdd\x6e\x48\x30\xe8\x80\xae\x97\x93\x5c\xc8\x05\x6f\x4e\x39\xe6\x33\xfc\xa1\x09\xdf\x20\xf8\xae\xde\xb3\x3d\xc1\x29\x1f\x90\xb0\x47\x4e\xfa\x86\x5f\xee\x7a\x05\x47\x8d\x76\x0a\xde\x97\x24\x82\xa0\x37\xf6\xf0\xbd\x45\x44\x03\x7b\x54\xdf\x3f\x45\xf2\x84\x1f\xf2\x11\xbb\xc7\x47\xb6\x4f\x8f\x74\x4e\xeb\x3a\x03\x62\x77\x42\xef\x59\x91\x5e\x13\x4b\x79\x90\x87\xc8\x47\x7f\x0d\x02\x09\x1a\x6a\x77\x0f\x99\x77\xd7\xe5\x1e\xe0\x46\xaf\x8d\x3b\xee\x6b\x10\xd6\xfe\xff\xc9\xbe\xfb\x30\x80\xf2\x11\x2e\x09\x86\x7d\x12\x1e\xee\x3b\xc2\xdd\xf0\xa6\xb1\xeb\xed\xb8\x9d\xf1\x18\x76\x3d\xcf\x78\x0c\x1b\x0f\xba\x9d\x9c\xea\x13\xfe\x76\xf2\xe7\x9f\xef\xbe\x4b\xb1\xc7\x0a\x97\x97\x10\xbd\x17\x74\x6f\xed\x7d\x34\xb0\x8c\xed\x3b\xef\x02\xb1\xc7\x8b\x2d\x22\x3d\xbd\xda\xde\xaf\x59\x1c\xeb\x7c\xfb\x9a\xa8\xfb\xbd\x6f\xff\xe7\xa1\x7c\x1d\x26\x1f\xdc\xef\x82\xa9\x9f\xb7\xc7\x03\x77\x2f\x04\xb9\xff\x87\x3b\x74\xa6\x88\xca\x1a\x3a\x45\x18\x70\xca\x28\x6a\x6b\xd1\x9f\xcb\xf9\xb6\x4f\x3e\xd7\xb8\xfe\x34\x8e\xf9\xd8\x58\xea\x50\x27\xd3\xb2\x7c\xd0\x11\xbb\x85\xf4\x8e\x70\xe0\x12\x4f\x0c\xff\x35\x00\x19\x1a\x1c\x75\x20\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xdc\x38\x76\xf0\xb3\xf4\x2b\xce\x08\x73\x91\xfa\xab\x56\xcd\xf7\x01\x5f\xb0\xe9\x41\x07\xf0\xd8\x3d\x1e\xef\x8e\xed\x5e\xbb\xbd\xf3\x60\x18\x5e\x56\x89\x55\xc5\x6d\xdd\x2c\xb2\xaa\xbb\xb6\xd2\x2f\x79\xd9\x00\x09\x10\x20\x4f\x79\x08\x16\x79\xca\x6b\x90\xe7\xfc\x9e\x9d\x60\xff\x45\x70\xc8\x43\x8a\xaa\x92\xea\xe2\x99\x0d\x36\x40\x06\xc9\x4c\x97\x44\x1e\x9e\x1b\xcf\x95\xd4\x8e\xc7\xf0\xb8\xca\x38\xcc\x79\xc9\x1b\xa6\x78\x06\x93\x35\x4c\x58\x53\x95\x29\x3c\x79\x09\x2f\x5e\xde\xc0\xd5\x93\x67\x37\x69\x38\x1e\xc3\x2b\xde\x2c\xcb\x52\x94\x73\x33\x00\xee\x44\x9e\x43\xb5\xe2\xcd\x5d\x23\x14\x07\xb5\x10\x12\x66\x22\xe7\x7a\xf0\xaf\x78\x23\x45\x55\x5e\xc0\x66\x93\xd2\xdf\x0f\x0f\xde\x0b\x78\xc2\x14\xf7\xdf\xe2\xef\x87\x87\x30\xac\xd9\xf4\x96\xcd\x39\xbe\xb9\x36\x7f\xbe\x60\x85\x7e\x33\x1e\xc3\x8d\x5d\x03\xa6\x55\xa9\x98\x28\x25\x14\x5c\x2d\xaa\x4c\x82\xaa\xa0\x60\xb7\x1c\x44\x99\x89\x95\xc8\x96\x2c\x07\x5e\x66\x75\x25\x4a\x25\x61\xd6\x54\x05\x48\xde\xac\xc4\x94\xcb\x11\xa2\xd1\xf0\x0f\x4b\x2e\x15\xb0\x32\x83\x86\xcb\xba\x2a\x25\x07\xb5\xae\xb9\x86\x84\x43\x91\xa2\x4a\xf2\x16\xca\x08\x98\x84\x3b\x9e\xe7\xf8\x5f\x5e\x4e\xab\x8c\x37\x12\x01\x20\xbc\x8c\xd3\xef\x59\xd5\xd0\x44\x0d\x6d\xa4\x1f\x30\xe4\xd4\x0c\xaa\x65\x03\x72\x59\xd7\x55\x83\x9c\x56\x0d\x2b\x25\xfe\x8d\x98\x09\x96\x8b\xdf\x32\x25\xaa\x12\xa1\xcd\xaa\xa6\x60\x4a\xa6\x61\x28\x0a\x3d\x22\x0e\x83\x68\xb2\x56\x5c\x46\x61\x10\x21\xed\xfc\x5e\xe1\x9f\x1a\x0d\x51\xce\xc7\xbf\x91\x55\x89\x0f\x66\x85\x7e\x2e\x2a\xf3\xef\xb1\xa8\x96\x4a\xe4\xf8\xa3\xe4\x6a\xbc\x50\xaa\xb6\x7f\x2f\x1b\xfd\x58\xaa\x66\x5a\x95\x2b\xfa\x53\x94\x73\x19\x85\x61\x10\xcd\x85\x5a\x2c\x27\xe9\xb4\x2a\xc6\xf3\xea\xfc\x56\xa8\x31\xfe\xbf\xe5\x45\x14\x06\xac\x5c\xd7\x13\x88\xe6\x55\x35\xcf\x79\x3a\xaf\x72\x56\xce\xd3\xaa\x99\x8f\xeb\xa6\x52\xd5\x64\x39\x1b\x6b\xfa\xc7\xb7\x65\x75\x57\x8e\xf5\xe8\x28\x0c\xb2\x65\xa3\x89\x3c\x61\x6a\x3b\x25\x0a\x03\x5e\xd4\xea\x94\x75\x69\x7c\x14\x06\x33\xc1\xf3\xac\x60\xf2\xf6\x84\xd9\xde\x9c\x28\x0c\xa4\x6a\x96\x53\x75\xc2\x74\x3b\x21\x0a\x03\x25\x0a\x2e\x15\x2b\xea\x13\xa6\x7b\x73\xa2\x30\xb8\x6b\x58\x5d\xf3\x46\x9e\x00\xa0\x9d\xb2\x2b\xd2\x46\xe4\x39\x1b\x17\xcb\xfb\xa8\xfb\xa6\xbe\x9d\x8f\x79\xd3\x54\x8d\xd6\xb4\x3d\x0b\x39\xcd\xd3\x4f\xac\xfa\xed\x99\xa0\xff\x40\x44\x36\x9b\x73\x10\x33\xe0\x1f\x20\x7d\x5c\x95\x33\x31\x4f\x6f\xdc\x4e\x88\x58\x9e\x47\x10\x95\x4c\xc9\x08\x1e\x1e\xba\xb8\xe1\xd3\x73\x51\xe9\xff\xa6\x73\xd4\x70\x04\xc5\xcb\xec\xe1\xe1\x28\xa8\xf3\xa6\x9e\x5a\xa8\x3b\x78\xea\x97\x83\x6f\xc6\x05\x57\x2c\x63\x8a\x6d\x2f\x7a\xf4\x92\x08\xbf\xdd\xf1\x03\xfb\xcb\x0d\xb0\xe8\x78\x6b\xe1\xde\x3d\x01\x00\x0e\x8f\x8e\x62\x4b\xcb\x6c\xfc\xeb\x84\x25\x70\x78\x07\xc7\x24\x0c\xc3\x15\x6b\x20\x0e\x83\xf7\x70\x09\xb3\x42\xa5\xaf\xeb\x46\x94\xca\xfc\xd6\x06\x2c\x7d\x5c\x15\x35\x6b\xb8\x79\x44\xd6\x27\x7d\xa4\x2a\x61\x9e\x74\xc8\x4c\x5f\xf0\xbb\xd7\xbc\x59\xf1\xc6\xbc\x34\xd6\x2c\x7d\x51\xd5\x8f\xf3\x4a\xb6\x4f\xd3\xc7\x55\xbd\x36\x3f\x8c\xf2\xa6\xdf\x37\xac\x0e\x83\xf1\x18\x48\x9e\x56\x0d\x8d\x8d\xc7\xa1\xda\x24\xa5\x8f\x4a\x3d\xaf\x35\x32\xe9\x13\xfa\x13\x1f\x93\xf9\x48\xaf\xf0\xbf\xf8\xc0\x6e\xe9\xf4\xb5\xfe\x03\x1f\x79\xdb\x34\xbd\xb1\x7f\xe3\x8b\x76\xfb\xe1\x68\x51\xce\x7f\xc5\xf2\xa5\xa6\xdb\xb3\x2b\xe9\x37\xf8\xf7\x73\x26\x6f\xc3\x24\x0c\xc7\x67\x47\xfd\x03\x57\xd6\x27\x81\x7d\x74\xf8\x9f\xb1\xf6\xa0\xcf\x4a\x60\xe8\x6f\x56\xbc\x19\x81\x50\x5f\x48\x58\x4a\x3e\x5b\xe6\xda\x4d\xcd\x96\xe5\x14\xb9\x20\x41\x2d\x98\x82\x92\xa3\x97\xaa\xa0\xaa\x75\x6c\x00\x15\xce\xad\x79\x73\x6e\xdd\x00\x02\x9c\x30\x29\x64\x0a\xdf\x54\x0d\xf0\x7b\x56\xd4\x39\x1f\xc1\xba\x5a\x42\x21\xe6\x0b\x05\x35\x93\xe8\x22\x3d\x84\x55\x05\xcc\x2d\x64\xd6\xa9\x9b\x2a\x5b\x4e\xb9\x44\x70\xac\xd4\x1a\x90\x7e\xcb\xca\x2c\x47\x1c\xef\x84\x5a\x00\x67\xd3\x05\x79\x7a\x88\xed\xea\x09\xdc\x89\x86\x67\xb0\xac\x11\x49\x06\xb2\xe6\x53\x31\x13\x53\xa8\x99\x5a\xa4\x10\x3f\x53\x08\x50\x48\xa8\x9b\x6a\xc2\x26\xf9\x1a\x18\x14\x42\x2a\x13\x25\x40\xc6\xa5\x98\x97\x38\x55\x94\xab\xea\x16\xdd\x3d\x07\x54\x36\x31\xe5\x2e\xaa\xd0\x28\x72\x84\xd3\x52\x60\x74\x00\x44\xcb\xc9\x34\x09\xc7\x63\xc7\xdd\x69\x2e\x78\xa9\xba\xdc\x55\x15\x4c\xab\x3c\xe7\x53\xe5\x05\x28\xf9\x1a\xa6\x55\x69\xc0\xf1\xcc\x0b\x57\x44\x89\x04\x21\x40\x29\xca\x79\x6e\x02\x13\xc3\x2b\x81\x1c\x2e\x38\xe2\xe1\xe3\x2b\x4a\xc5\x9b\x19\x9b\xf2\x21\x49\x20\x30\xb7\x58\x7f\x90\xb4\xc4\xc5\xda\xa8\x44\x07\x0b\xb8\x01\x1f\x13\x3d\xd3\xaa\x98\x88\x52\xf3\xa9\x20\x14\x3d\xc1\x8e\x28\x94\x52\xcb\xa6\x04\xa1\x90\xaf\x88\xe0\x94\xe5\x39\x6f\x30\x62\x62\x16\xd9\x34\xd4\xe4\xec\x30\x74\x13\x06\x6f\x4a\x47\x1f\xcf\x36\x9b\xd4\xce\x30\x21\x20\x59\x82\xcd\xa6\x61\xe5\x9c\xc3\xa7\x02\x2e\x2e\xc1\x8d\x79\x6e\x44\x86\x76\x6c\xb3\xf9\x54\xd0\x1c\xbb\x0a\x00\x38\x52\x53\xfb\x30\xdc\x6c\x8c\x71\x35\xd1\xa5\x7d\x2c\x0f\x2f\x81\x0a\x0c\xb1\x47\x44\x02\xde\xa2\xf1\x54\xdd\x03\x45\x69\xe8\x1a\xf0\xbf\x23\x54\x98\xb3\xcd\xe6\x69\x85\x88\xc1\xa7\x22\x7d\x65\x42\xd0\x9b\x75\x6d\x09\x4c\x20\xde\x1a\x61\x02\x53\x6f\xc8\xc8\x18\xb8\x04\x36\x61\x60\xe3\x56\xfd\x0c\x11\xe5\x69\x0f\xe5\x88\x0c\x2e\x9e\x84\x01\x3a\xab\xa6\x81\x4f\x2e\xa1\x14\x39\x42\x08\x48\x5e\xa5\xc8\x35\x90\x30\x78\x08\xed\x33\x0b\x3d\x3d\x88\x53\x32\x42\x78\xe1\x83\x63\x27\x32\xf3\x39\xbb\xf5\xd8\x13\x6e\x36\x7a\x23\x7f\xaa\x38\x22\x9a\x3e\xe0\xe0\x73\xf0\xb9\xfc\xa9\xe2\x43\x8c\x46\x58\x7d\x94\x49\x64\xba\xe2\xbd\x6a\x92\xec\x8a\x1b\x36\x8e\x38\x94\x5f\xbf\x94\x6c\x62\xe0\x76\xd4\xe6\x21\x81\xd8\x32\xc3\x7f\xac\x39\xe6\x89\x23\x68\xf8\x07\x24\x84\x20\xa4\xf1\x21\x69\x87\x41\xb0\x72\xb2\x93\xbe\xec\x10\x35\x8d\x4a\x12\x06\x3d\x52\xdb\x15\x1b\xca\xcd\x3e\x5d\x19\x71\x04\xa8\xd6\xad\x6f\xf6\x65\x83\xce\xf1\x51\x9e\x5f\xdd\x4f\x79\xad\xb4\x9f\x92\xc6\xc4\x3a\x4e\x69\x0f\x85\x29\x0b\xed\x4d\xfb\x42\x82\x16\x23\x43\x28\x5e\x4c\xe0\x58\xfd\x5c\x64\x59\xce\xef\x58\x63\xb2\xc0\x37\xd2\xe6\x85\x98\x04\xd5\x75\xbe\x46\x13\x83\x66\x53\x21\xf0\xc2\x8d\xd6\x59\x17\x5f\xf1\x66\xed\xc4\x86\xfb\x05\x2d\x08\xa5\x6d\x1a\xde\xcb\x1a\xbd\x06\xcb\xf3\xf5\xc8\x8d\x93\x30\x65\x25\x4c\xb8\xf6\x35\x3c\xc3\x69\x93\x35\x94\xc8\x76\x55\xe1\x73\x7e\x3f\xcd\x97\x19\xcf\x4c\x16\x38\xe1\x88\x02\xd2\x5c\xf3\x2c\xdd\xe1\x46\xdc\xe2\x34\x82\xe8\xb5\x62\x6a\x29\xa3\x11\x44\xd7\xa2\x9c\x47\x89\xdb\xf7\x67\x8e\x21\xc9\xe0\x7c\x87\xa1\xc7\x95\x51\x8b\x4d\x9a\xa6\x52\x87\x05\x5a\x79\x44\x49\x8f\x2f\x2e\xa1\x60\xf5\x5b\xf3\xea\x9d\x61\xff\xe6\x01\xd5\x6b\x7b\xc3\xf4\xec\x96\x20\x08\x22\x4f\x8d\xa2\x0b\xd8\x3c\x8c\xc2\xc0\x0f\x23\x1f\xc2\x30\x40\x5f\xff\x1e\x51\x41\x30\x06\xa4\x43\x0b\x57\x12\x33\x78\x3f\x82\xea\x16\x5f\x5b\xc4\xde\xf2\xfb\x77\x5f\xc1\x27\xd5\x2d\x62\x1b\x04\x35\x2b\xc5\x34\x6e\x23\xbc\x59\x1c\x5d\x59\x10\x96\x6e\xf8\xe2\x33\xf9\x05\x64\x15\x97\x50\x56\x0a\xf8\xbd\x90\xea\x2b\x90\x9c\xfb\x82\x77\x39\xa5\x0e\xe9\x11\xa9\x24\x21\x7d\xce\x78\xce\x15\x8f\x2d\x06\xfa\x9d\x21\xe0\x28\x56\xf4\x52\xd1\x61\xcf\xbb\xaf\xc0\xd2\xd3\x6b\x3a\xe1\xd2\xc3\x34\xee\x1d\x42\xb8\xb6\x0c\x36\x3b\xec\x3b\x36\xe1\x39\xcf\x5a\xc1\x9b\x6a\xc9\x9c\x2b\xab\xa6\xa8\xda\x8e\x51\x5a\x5b\xef\x16\xbc\x74\x6f\x2b\x4f\x33\x09\x98\x51\xb0\x91\xd9\x50\xa4\xf3\x4b\x33\x18\x4c\x09\x86\x99\x3a\x8e\x98\x62\xfc\xd2\x88\xa9\x8e\xa8\x5a\x0a\xe0\x6e\x21\xa6\x0b\xbd\x5d\x24\x2f\xfb\x50\x20\xa7\x4d\xb3\x6d\xc8\x52\x35\xe4\xb2\x77\xa9\xc2\xfd\x10\x1b\x5d\x1d\xed\x1a\xdc\x1e\x1b\x1c\x0e\xd1\xf5\xd1\x66\x68\x07\xa9\x11\xd1\xa9\x39\xde\xf0\x29\x17\x2b\xb4\x42\xdc\x90\x58\xcd\x3a\x74\xa7\xf0\x9a\x73\x07\xc6\x83\xa2\x5f\xd8\x98\x93\x10\xbe\xba\x47\x44\x71\xf7\x64\x5c\x31\x91\x4b\x0c\x89\xed\xce\x41\x20\x36\xae\x65\xb9\x50\xeb\x74\x9f\xb5\xe8\xd0\x1e\x17\x3f\x82\xa3\xff\x6b\x52\xfe\xe7\x9a\x94\xce\xd4\x11\x1c\x6b\x61\x8e\x2f\x3b\x1c\x9b\x50\x3e\x7d\x75\xfd\x18\x09\xe6\xcd\xc9\x19\x25\x06\x67\xde\x74\x2c\xc2\xca\xd6\xc5\x3b\x51\x00\x5b\x31\x91\xb3\x49\xce\x4d\x32\x30\x7f\x75\xfd\x18\x06\x42\x7c\xda\x39\x5d\xc8\x2e\xef\x93\xad\x19\x18\x41\xa5\x23\x02\x89\xaa\xdf\xa9\xb0\x68\x4d\xe6\x8d\x09\x18\x92\xa1\x85\xd0\x97\x49\x6f\xa0\x44\xc1\xbe\x7d\x37\x0c\x09\x05\xdb\xf7\xf6\x6b\x3e\xab\x1a\x1e\x23\xb6\xcf\xa9\x52\x74\x53\x51\x4c\x99\x8c\x70\x8b\x6c\xad\x73\x89\xe1\x10\x2f\xb3\xb8\xf3\xd8\xd1\x93\xa6\x69\xa2\xcb\x17\x9b\x0d\xdc\x54\xdf\x55\x77\xbc\x69\x35\x12\x59\x85\xc2\xb5\x01\xdf\xe7\x88\x11\xbe\xe4\xcd\x06\x7d\xe3\x41\x35\xc6\xf1\x9e\xa6\x5d\x40\x97\x24\x57\x74\x89\x71\xf7\x3b\xb6\xf7\x29\x27\x06\x17\xc1\x13\x5d\xfb\x46\xda\xbd\x11\x14\xef\xea\x01\x57\x65\xef\x00\xca\x5e\x70\x44\x87\x0b\x69\x9a\xe2\xb4\x64\xe4\x6b\x7d\x60\x5d\x6b\x4b\xec\x76\x32\xec\xc2\xed\x7e\x59\xbb\xd0\xdd\x38\x33\x0f\xce\x4f\x9e\x80\x6e\x31\x18\x60\x8b\xc3\x54\xdd\xf0\xc2\x73\x4a\x9a\xa8\xec\x80\xd6\xd4\xc3\x4f\x55\x2d\xa9\xc7\x53\x79\x10\x4d\xbd\xc9\x62\x09\x67\xed\x52\x49\x0b\xfe\x40\x36\x8b\xc9\xce\x4f\x9b\xce\xbe\xc7\x8c\xa7\xf6\x12\xa2\x2d\x2e\x6a\x0a\xb4\x16\xf9\xe9\xd1\x89\x39\x6d\xfd\x91\xe9\x2c\x71\xd7\xa8\xfa\x61\xd6\x8e\xc7\xb0\x6f\x57\x80\x40\x13\xe8\xf4\x41\x57\x7b\x53\x33\x81\x46\x7c\x83\xb2\xd1\x15\x1f\xec\xce\xf0\x46\x49\x53\x10\x22\xb3\x69\x6d\x82\x03\xec\xf2\x56\x2c\xcb\x60\xd5\xa9\x39\xcf\xaa\x82\x89\x72\xdf\xe0\x14\xae\x1b\x51\xb0\x46\xe4\x6b\x5b\xa8\xf2\xab\x5a\xc6\x0a\xef\xa3\x23\x7e\xbf\xab\x18\x48\xcb\x2b\xfe\xa1\x55\x44\x9d\x40\x7b\xbf\xba\x25\x0c\x9d\x32\xd3\x9c\x63\x52\x66\x27\xc9\x0f\x7b\xc4\x74\x55\x1e\x2d\xa6\xbd\xb6\xa9\x57\x4e\x66\x86\x1d\x32\x24\xa8\xc3\x22\xa0\x25\xb4\xc0\xf6\x88\xb5\xce\xd7\x47\xc9\x69\x2f\x21\x7d\x82\xea\xab\x69\xec\x93\x94\xac\x51\x54\x76\xd6\x11\xfb\xc8\x13\x96\xac\xfb\xa4\xf5\x2d\xcf\xb1\x40\x1e\x1a\x45\xeb\x75\x9e\xfd\xc6\xa7\xc8\xc0\x36\x64\xd2\xe7\x4f\x92\xed\x01\x88\x2f\x9a\xd0\xdb\x11\xac\xda\x78\xb4\x70\x91\xe8\xaa\x53\x4c\xd1\x7d\x65\x0e\xb7\x7c\xad\xc5\x9d\x61\xc8\x3a\xa9\xd4\x02\x79\x6c\x57\xa1\x8e\x2c\xc4\xb7\x09\x65\x17\x38\x34\xcf\x21\x47\x79\x11\x14\x46\x39\x95\x2e\x9c\x3e\x66\x65\x55\x8a\x29\xcb\xbf\xe5\x2c\xe3\xcd\x2f\xf8\xda\xa6\x1e\xb8\x90\xac\xa8\x9c\xab\x28\x93\xb3\x20\xa6\x53\x6e\xab\x18\x5c\xa8\x05\x6f\x68\x65\x7c\x8f\xac\xb8\x74\xb4\x7e\x2f\xd4\x42\x77\x14\x90\x45\x23\x4d\xeb\xdb\x2f\xdf\x25\x07\x07\x0e\x60\x17\xdf\x26\x2d\x04\x0a\xea\x49\x7c\x53\x75\xaf\x7d\xaf\x8d\xfb\xf6\xff\xa3\xe5\x68\x6a\xc6\x27\xc7\x92\x2f\xf8\x9d\x37\xdb\x2c\xaf\xfb\x07\x54\x04\x82\x09\x9b\xde\xa2\x78\xd6\x76\xcf\x98\x62\x3b\xd2\x5a\x72\xdd\xbb\x48\xe1\x99\x42\x39\x52\xd9\x9e\xd4\x55\x4c\x04\xa6\x64\x56\x04\x54\x95\x56\x15\x64\x82\xe5\xa6\x74\x9d\x33\xc5\x1b\x98\x62\x5f\x09\x73\x6c\xee\xc3\x34\x0a\xda\xc1\x2e\xc6\xd7\xc6\x75\xa6\x06\xdf\xc7\x55\x59\xee\x09\x48\xcd\x20\x1b\x90\xc6\x03\x11\xa9\xbf\xe5\x30\x3a\xd8\xae\x9a\x06\xde\xd3\xfa\x76\x8e\x3b\xcd\x16\x4f\xbb\xc7\x25\x82\xdd\xec\xce\x2f\x95\xb6\x36\x30\x58\xb1\xc6\xe5\x57\x9e\xe9\xd8\xcd\x34\xc3\x00\xf7\x4b\xdf\xd0\xcb\xdd\x08\x92\xb8\xa4\xd5\x11\x19\x63\x13\x49\x42\xfa\xe1\x21\xed\xab\xdd\x46\x6e\x9c\x85\x1d\xed\x8b\x20\xdb\x10\xf3\x09\x3f\x14\x62\x1e\xb0\x56\xa6\x50\x16\xb4\xf1\x37\xfe\x4c\x1c\xed\xb1\x4e\x13\x35\x53\x29\x1e\x6d\xff\xb2\x7f\xb8\x0d\x63\x27\xc9\x83\xe1\x38\x9c\x13\x28\x87\xb3\x9d\x7b\xe1\x77\x2c\xbc\xf7\xa3\x76\xbd\xe0\xc1\x1a\x55\x34\xa6\x48\x3b\xd0\xce\xf9\xf1\x61\xca\x1e\xff\xf7\x84\x1f\xe3\xff\xf6\x7b\xb4\x63\xc3\x14\xf2\x35\x03\xfe\xcf\x6c\x7e\xda\x9d\x4f\xf8\x89\xfe\x0f\x89\x79\xa5\x91\x39\xd2\x01\xe2\x50\x17\xac\xa0\x5b\x3e\xc9\x05\xd6\xf9\xba\xcf\x07\xfa\x62\xfb\xf1\x61\xcb\x70\x74\x79\x55\x1e\x11\x5d\x1e\x16\x88\x17\x64\xee\x91\xf0\xde\xe8\xb2\x23\xb5\x7d\x74\xf4\x07\x2d\x44\xe2\x71\x22\x3b\xb5\x21\xb3\x3f\xba\x24\x2c\xb4\xd7\x95\x37\x95\x1f\xb0\x98\x9d\xd2\x67\xf1\x69\x1d\xdc\x27\x46\x51\xf7\x40\x89\x6f\xf9\x5a\xc2\xdb\x77\xb6\x8a\x77\x00\xde\x51\x0d\xad\x22\x83\xb3\x43\xc1\x92\xf6\x01\x35\x13\x4d\xbb\x78\x18\xd8\x9a\xde\x6d\x1b\x42\x69\xf4\xd0\x09\x60\x53\x6a\x65\x2b\x61\x53\x75\x9f\x6a\x9e\xc4\xb7\x49\x4a\xb5\xcb\xa4\xad\x83\x05\x06\xb0\xab\x78\xe8\x9f\x26\x60\xc1\x58\x43\x9b\x55\x34\x9e\x08\x53\xbf\xeb\x44\x67\x67\x45\x86\x35\x33\x4b\xc0\xcf\x2b\x51\xc6\x67\x45\x36\x6a\x1f\x5d\xe3\x9c\x58\xcf\xc4\xb2\x49\x62\xc1\x11\x67\x30\x7a\xa1\x5e\x98\x91\xe4\xb1\x35\xb1\x6f\x6f\x6e\xae\x29\x9f\xb0\xcf\x0e\xff\x33\x0e\x43\xdd\x66\x37\x5c\x2e\xb5\x7a\xc1\x25\x44\xac\xae\x73\x31\xd5\x07\x4b\xf4\x59\xbd\xaf\x60\xba\x60\x8d\xe4\xea\x72\xa9\x66\xe7\x3f\x8b\x5c\x29\x0d\x57\xa5\xf2\x00\x75\xd3\x51\xb1\x16\xf4\x44\xef\xd9\xc3\x25\x36\x04\x56\x95\x50\x37\x3c\xe3\x33\x51\xf2\x4c\x9f\x89\x90\xb4\xe7\xb6\x96\x39\x58\x58\xeb\x1e\xc9\xe9\x16\xd6\xfc\xc3\x1a\x36\x66\x11\x33\x48\x35\x7c\x1d\xde\x7b\x76\x6b\xab\xce\x83\xba\xf3\xf6\xdd\x30\x74\x2d\xff\xbe\xd7\x54\x6d\x33\x6b\x60\xfc\x2a\x3b\xc5\xb6\xfe\x49\x57\x68\xc9\x8d\xb9\x69\x62\xee\xfd\x18\x9e\xf2\x68\xa6\x78\x13\x6f\xbf\x51\x8f\x5b\xd1\xc6\x9e\x98\x13\x0d\x68\x97\xca\xa3\x4a\x7d\x54\x09\xd2\x65\xbd\x02\x19\x53\x2c\xef\x31\x8c\x7a\x55\x2d\x11\x87\x24\xf4\x22\x09\x6a\x4a\x5c\x5c\x0e\xb2\xd9\x0d\x9d\xe0\x49\x8f\x72\x8e\x00\x69\x5a\xfa\xb5\x79\x44\xb5\xfd\xc2\xce\x8b\x31\x38\xa3\xe1\x78\x26\x77\x02\x7f\x0d\x37\xd5\x1b\x3c\x73\xf8\xf0\x10\x25\xe9\x35\x53\x8b\xce\x18\x7c\x70\xc3\x8b\x1a\xe3\x66\x3d\xc2\xaa\xd3\xc0\x09\x2e\x5d\x4c\xec\x56\x13\x09\xa3\x9e\x92\x22\xc5\x73\x48\x9e\xb7\xa4\x6e\x9a\x38\xf7\x60\x06\x1a\x89\xe2\xc0\xa7\xa6\xf7\x65\xdd\xb0\x79\xdd\x57\x58\x0c\x74\x3b\xa0\xad\xbd\xf9\x7f\x92\xd1\x28\x28\xa8\xf2\x95\xc6\x34\xd9\x74\x66\x61\xc2\x02\xdb\x2e\xb3\x2b\x7e\x8f\xef\x9b\x11\x66\x27\x19\x9f\xb1\x65\xae\xd0\xdb\x19\x05\xc1\x1d\xa9\xcb\x8e\xd5\x0c\xb6\x6d\xc1\x08\x18\x4c\xaa\x4c\x27\x88\x68\x1b\x4c\x78\x8f\x69\x62\xa4\xd7\x89\x5c\x66\xb9\x42\x2b\x8b\xa0\xf4\xf3\x54\x63\x17\x27\x26\x7f\x61\x20\x75\xb7\x1a\x90\x1f\x08\xea\xff\x7f\xf9\x65\x0a\xcf\xa8\xdd\x85\x23\xfd\x7a\xa9\xd9\x37\xbc\xd1\x87\xa1\x71\x44\xdd\x54\x2b\x81\xa9\xef\x42\xbf\xc1\x46\x7f\x9e\x63\xfb\x5c\x63\x6b\xba\x8c\x38\xae\x8d\xc9\x7c\xd0\x08\xc5\x83\x8e\x54\xa4\xcf\x59\x23\x17\x4c\x1f\xe2\xb2\xf8\x17\xe6\x11\x76\xe0\xe5\x72\x3a\xe5\x3c\x93\x26\xd7\xfa\xf9\xeb\x97\x2f\xe8\x4c\x75\x66\x0f\x40\xdb\x64\x4d\xd3\xea\xd0\xc1\x8e\xe7\x30\x59\xa6\x61\x8f\x47\xda\x9b\x91\x4d\x01\x1d\x65\xed\xcb\x0e\x34\x10\xa5\x54\x9c\x65\x96\x67\xc6\x48\xfa\x16\xa2\x2f\x10\x71\x67\x3f\x46\x70\x67\x8e\xac\x75\xd5\x40\xc7\x8c\x28\xd5\x11\xbc\xc7\xed\xe7\xb3\xc4\x98\x1f\x6c\x2a\xd6\xbc\xd9\x68\x29\x5e\x20\x2d\x56\xa0\x18\x89\x88\x99\xe5\x16\x32\xd0\x38\x5a\x1c\x12\x77\x79\xdb\xfa\x59\x31\x03\x7c\xf5\xb5\x5e\x92\xa6\x5e\x99\x52\xaa\x03\x64\xe7\x21\xbb\xe3\xe4\x2b\xbb\x02\x0e\xbb\xf4\x7c\x2e\xa2\x0d\x97\x0e\x9c\x2d\x08\x04\x77\xa9\x51\x9b\x38\x49\x5f\x73\x15\x47\x64\x08\xcf\x6f\xd6\x35\x8f\x46\xbe\xcb\x33\x04\x2c\xac\x92\xf9\xf8\x77\xcd\x83\xd5\xc3\x96\x0e\x5b\xb8\x91\x6d\xd8\x61\xe1\xd0\x68\x19\x6b\xe6\x06\x3e\x3e\x4f\x78\x1e\xdf\xe2\xb6\xb6\x51\x8b\x57\xf8\x59\x51\xcc\xe2\x8f\x7f\x94\x65\xf1\x56\x04\x82\xff\xa7\xf7\xce\x85\x39\x85\x9a\x1a\x7d\x79\x86\xb1\x65\xc9\x72\xcf\x8b\x68\xe2\xe4\x74\x0f\x59\x9e\x1e\xb6\x94\x69\xe0\x97\x20\xa7\x04\x19\x5f\x53\x5e\x79\x97\x6a\xad\x21\xf4\x70\x60\xe2\x1e\xc6\x28\x8e\x04\x0d\x52\xab\x98\xc6\x3c\x36\xf1\x64\x39\x83\xb7\xef\xf0\x60\x6d\x42\x9b\x61\x13\xea\x60\xee\x0e\x7c\x1d\x73\x65\x72\xab\x88\x6f\x4a\x12\x3d\x42\x18\xc1\xe7\x77\xc9\x57\xdb\x65\x74\x13\xc6\x48\xf1\x5b\x0e\x97\xf0\xb3\xff\xfb\x97\x7f\x61\x74\x2c\xe7\x25\xce\x49\xe0\xaf\xcc\x3b\x1c\x1a\x20\x1a\x97\x30\x59\xce\xde\x5e\xe0\xc3\x77\xe4\x07\xc9\x98\xe2\x29\x11\xcd\xb7\x59\x1c\x59\xf3\x01\x48\x94\x3e\x20\x72\x81\x15\x30\x6c\xe6\xd6\x18\x0f\x41\x59\x95\xe7\xa8\x78\x2e\xd2\xc7\x81\xd1\x08\x81\x53\xa7\x96\xa0\xd2\x41\xdf\x17\xfc\x2e\xbe\x33\x1b\x47\xf3\x48\x1b\x59\x9f\x76\x7b\x76\x60\x13\x06\x7a\x14\xfe\x46\x03\xf4\x6b\x5c\xe5\x82\x2c\xec\xaf\xc9\xde\xa3\xdc\x69\x14\x53\x42\xce\x04\xde\x07\x59\x70\x67\x2e\xb5\xa5\xf5\x84\xdb\xe6\x21\x12\x84\xbe\xba\x61\xef\xaf\x1c\x73\x3e\x3b\x35\x9d\x28\x6f\x51\x87\xaa\x46\x0b\xef\x1c\xd8\xa5\x70\xa5\x30\xb0\xc6\x19\xc0\x6f\xe9\xbb\x98\xdd\xea\x48\xbc\x68\x81\x26\x9e\x51\x8c\x13\xe8\x9e\x83\x5b\xa4\xed\x0a\x03\xb3\xdb\x3d\x87\x0f\x69\x07\x75\x40\x10\x52\x61\xa7\x04\xbf\x5d\x82\x38\x18\xb4\x78\xd5\xaa\x03\x51\x8b\xab\x5a\xec\x0d\x0f\xb6\xb3\x60\x8d\x7d\x7f\x8f\x45\x77\x5a\xcd\x0d\x1e\x9c\x83\xd6\xf1\x9c\x9c\x91\x9f\xe0\xda\x75\xae\x59\xc3\x4b\x45\x49\xa3\xd3\x53\x7d\xba\x0c\xfd\x15\x62\x65\x9f\x6a\xc8\xa8\xc1\x87\x4a\xf8\x81\x57\xc3\xd8\x4b\x56\x6f\x52\x0c\x67\xe4\x81\xf4\x90\xe1\x84\x38\xc8\xf8\x8c\x37\xd0\xa4\x68\xd6\xd3\xc7\x58\xeb\x44\x03\xa4\x2d\x06\x26\xcb\x6d\x7e\xbc\x45\x2b\x41\x46\xd3\x8e\x51\x12\x6e\x78\xd7\xa8\xa3\x43\xf9\xaf\x38\xcb\x1e\xe5\x79\x6c\x80\x1f\x77\x70\xd1\x9e\xd4\x9f\xa1\x47\x1c\x41\x44\x96\xa0\x41\x6f\x6c\x23\x22\xa4\xcc\xb2\x33\xa2\xe2\xf4\x96\x21\xfa\x52\xd3\x16\x2c\xad\x51\xc3\xdc\xe9\xe2\x12\xdc\xcd\x94\xd6\xdc\x51\x20\xa8\x87\x07\x8f\xf2\xbc\xba\xbb\x66\x8d\x12\x2c\xc7\x72\x9b\x6a\x96\x14\x35\x3e\x11\x72\xca\x9a\xec\x4d\xa9\x6f\x11\x5d\xb4\x6f\x1e\x28\xf7\x45\xd2\x2f\xc1\x5f\x70\xc7\xa4\x62\x7b\x72\xc7\xa8\xf6\x9b\xd5\x61\xc3\xda\x6b\x5a\x09\x8d\x0e\x33\xdd\x86\xdd\xf4\xb0\x95\xb8\xf7\x51\x36\xd7\x30\x24\xf0\x1c\xe2\xd7\x2c\x23\x75\xa0\x77\x88\x40\x8b\x96\x4b\xe7\x31\xe5\xbc\x66\x0d\x2b\xa4\xcd\x67\x7e\xc5\x1a\x19\x37\x28\x43\xbc\xa9\xd1\xbe\xc7\xe4\xff\xc3\x92\x37\xeb\x76\x78\x93\xbe\x79\xf5\x5d\xfa\x4b\x7c\x18\xdb\x09\xde\x90\xd0\x4f\x72\xcc\x61\xd5\x8b\xcb\x56\x6b\xf5\xa5\x0a\xca\x70\xf4\x61\x99\xd2\x0e\x4b\xbf\xab\x4c\xe4\x0d\x91\x26\xd2\x8c\xc1\x02\xac\x86\x92\x3e\xe5\xa5\x5e\xd4\x49\x13\xd3\x9f\xfe\xba\xef\x7e\x14\x5e\x96\xbc\x9a\xed\xe0\xc1\x3f\xec\xe2\xa1\xc9\xfa\x31\x88\xb8\x6d\xf5\x79\xc3\x3f\xb4\x3d\x6f\xca\x6a\x74\x89\xd9\x0e\x6d\x4b\x87\x3d\x19\x53\xaf\xc5\x1c\xea\x76\x1a\xfb\x28\x6d\xfa\xe0\xfc\x3a\x93\xda\x7e\x6e\xa7\x0b\x26\x79\x6a\x4e\xe8\x64\xf6\x20\xd8\x67\xfb\x7a\x83\xef\xa1\xe6\xa6\x0b\x91\x86\x0c\xc5\xf3\x1d\x33\xb1\x6d\x24\x9c\x2d\x78\x23\xf9\x35\x1a\x18\xb4\x97\xd2\x37\x1f\x6f\x24\xbf\x2a\x97\xc5\x8b\x65\x31\xe1\x8d\xbc\x68\x5f\x5c\x15\x42\xbd\x29\xeb\xaa\x5e\x62\xce\x9c\x39\xb3\xf2\x10\x76\xec\x69\x8b\x9b\x45\xc7\x1d\x3f\x4f\x63\x8d\x6a\xfa\x9c\x4b\xc9\xe6\x3c\xd9\x77\xfe\xc1\xaa\xc1\xfb\x11\x59\x2b\x17\x4e\xea\x48\xca\x1b\xe5\x37\x63\xdd\x11\x46\x49\xc1\x40\x5f\x91\xa5\xbf\xd0\xb8\xe3\x85\x86\xba\xb2\x6d\x64\x6e\x23\x7a\x6d\xec\xf6\xf5\x61\x11\xf0\x6e\x0f\x76\xc1\x24\x2c\x58\x66\xe6\x0e\x75\x5d\x75\xaf\x2f\xc3\x93\x9a\x02\xcb\xc6\xad\x7e\xfb\xd7\x79\xd5\x82\x1b\x28\x26\x90\x92\xa9\x75\xfa\xae\xd9\x8b\xca\x8c\xe5\x58\x57\x77\xb4\xe8\x50\x96\x8a\xe9\xba\xac\x0c\x90\x6e\x6b\x77\x6f\x53\x77\x6f\xab\xf6\x76\xe4\x38\x94\x3e\xe5\x2a\xbe\x45\x81\xef\xef\xee\x6e\xe1\x1f\xdf\x26\x7d\x30\xd0\x78\x21\xbb\x97\x25\x6f\xaf\x4d\x4d\x17\x68\xcb\x52\xfd\x86\xe5\xb2\x02\x96\x65\xb4\x87\xb5\xb5\x87\x65\x93\x87\xfb\x57\x8f\x68\xe8\x39\x5e\x2e\x1e\x91\x11\xbf\x66\x6a\x91\x1c\x9a\xe8\xa4\x82\x87\xed\x51\xe7\xd0\x88\x44\xc9\x47\x37\xa1\x11\x04\x75\x55\xec\xb3\x13\x9a\xd0\xde\xec\xb6\x06\xdb\xd3\x83\x2e\x01\x47\x92\xf5\x82\x5c\xac\x30\x6a\x65\x8a\xb8\x56\x54\x4a\x17\x20\xb0\xbe\xc0\x4a\xbc\x9b\xf5\x3d\x1e\xb4\xaf\xcd\x2d\x30\xf3\x0c\xed\xe4\xb4\x2a\xb8\xb9\x9c\xd0\x2e\x92\x09\x39\xc5\xbb\xf5\x6b\x90\x6b\xa9\x78\x31\x02\xa9\x8f\x84\xe7\xe2\x96\xe7\x6b\xab\x74\xa8\x46\x10\x2d\x2a\xa9\x2e\x50\xa3\x23\x32\xa0\x1d\x0a\x62\xb7\x94\x3d\x55\x3c\x58\xda\x3d\xbd\x45\x2d\x66\xf0\x89\x55\xb9\x6f\x99\xbc\x6e\xf8\x4c\xdc\xbb\x15\x47\x10\xe1\xae\x8c\x4c\xba\xee\xf0\xb8\x34\x8f\x2f\xc6\xe3\x08\xfe\x8f\xe3\x04\x6a\x65\xb0\x74\x56\x70\xd9\xe4\xe9\x35\x46\x27\x0e\xda\xd1\x87\xbd\x30\xb8\x58\x86\x74\x3b\x17\x33\xcb\x9e\x8c\x83\x1a\xaf\xe6\x1a\x43\xf4\xa2\x32\x82\xf4\xea\xdf\xe6\x94\xbd\x66\x88\xa9\x16\x21\xa0\xbb\xaa\xb9\x1d\x81\xa9\xa9\x03\x79\x7a\x4c\xfc\xf0\x9e\x5d\x63\xe2\x4d\xf3\x56\x20\x0b\xa3\xb6\xae\x8b\xa7\xc8\x82\xe3\x73\xa1\x60\xb3\xc1\x5b\xbb\xdb\xc9\x0f\x21\x8d\x6f\x75\x89\xd0\x06\x1b\x08\x49\x94\x19\xbf\xdf\x9d\xf1\xa5\x9d\xa3\x63\xfc\xdd\xac\xc2\x52\xdc\xd7\xed\xc7\x60\x43\xff\x3b\xd8\x33\xaf\xe7\xc6\xae\xd7\xfa\xa7\x66\xfe\x60\x5d\x99\x22\xc8\x60\x5a\xd5\xeb\x37\xaf\xbe\x8b\x97\x23\xf0\xc7\x7f\xcd\x24\x47\xf3\x81\xf5\x65\x3b\xb4\x8d\x0e\x76\xb1\xea\xc6\xa5\xdd\x22\x32\x71\xa6\xe7\x64\xc0\x4e\xdb\x3f\xd8\xee\xfc\xdb\xd8\xb6\x95\x66\xe7\xef\xf6\x4f\x67\xae\x7a\x8f\x00\xec\x95\x3b\x9c\xff\xa9\x24\x3f\x54\x69\xc7\xa0\x65\x8f\x4a\xd0\xa9\x89\xbd\xf4\x7a\x47\x10\xb4\xe5\xb1\x72\x9c\x30\xc9\xe1\x0c\xf7\xf0\x9b\x57\xdf\x8d\x74\xf7\x89\x5c\x53\xe2\x1e\xe3\xfe\x2d\x31\x2e\xb8\xb8\x84\x33\x9c\x60\x7e\xea\x4e\x03\xa5\x07\x8e\x9d\x9f\xe3\x1b\x2a\x30\x3c\x56\xf7\xb6\x77\xfa\x1a\xe3\xdb\xa9\x3e\x04\xbf\x6c\xa8\x54\x83\xea\x68\x37\xae\xaa\xa0\x5e\xe6\xb9\x7e\x4e\x7e\x8e\x67\x18\x61\x48\xa8\x96\xe8\xba\x6d\xf8\x4a\x6e\x49\x97\x77\xc8\xed\x15\x36\x84\xf5\x13\x50\x8c\x15\xa8\xdc\x91\x02\xbc\xa8\x14\x5d\xcb\x45\x90\x08\x4b\x5b\x8a\x05\x5b\x71\xb0\x9f\xdb\xd8\x1f\x92\xe8\x75\x26\xba\x9d\x45\x37\xd3\xf4\xcd\x1c\xb4\xfc\x16\x35\xbc\xe4\x4c\x0d\x00\x66\x4f\x36\xe9\xd8\x03\xa9\x5a\xbb\x4a\xb6\xeb\xfd\xf9\xf7\xe6\x78\xe3\x1c\x2e\xf5\x9e\xbb\xbc\x33\xfd\x66\xef\xda\xc8\xb0\x3f\xf0\x2b\x3e\x3d\x83\xa8\x25\xb7\xe7\x5e\xe5\x11\xd1\xe1\x4f\xd6\x71\x76\x11\x0f\x96\xa9\xb7\xcb\xbc\x96\x0c\xd3\x18\x4e\x50\xab\x90\xd7\x68\x51\x86\xce\xcf\x1c\x34\xd8\xdb\x25\xa9\x5e\x63\xb3\xb7\x22\xb5\x9d\x5f\x51\x39\xca\x44\x63\xdb\x25\x29\x5b\xa5\xa1\x65\xec\x6c\x53\x9e\x69\x73\x9f\xed\x92\x14\x3d\xc6\xc4\xd7\x84\x79\xd4\x46\x71\x6f\x30\xa0\x66\xba\x1c\xf0\xff\xbe\xfc\xd2\xef\x27\x8d\xe0\x8e\x9a\x26\xba\xe0\x59\x37\x1c\x83\x1c\xa6\xf7\x03\x2b\x35\x2c\x1d\x14\x68\x45\x65\x4a\xe1\x87\x13\x70\xff\x18\x2a\xfc\xfd\x47\x05\x6c\x28\x4c\x0a\xd3\xe2\x68\x91\x38\x58\x32\xb3\xe7\x47\x7a\x4a\x66\xbd\x6c\xdf\x5f\x31\x33\x8b\x9e\x5e\x32\x3b\xa5\x02\x76\x89\x43\xd2\xab\x97\xdf\x0c\x16\xc1\xb0\x8a\xdd\xd6\xc6\x51\x31\x34\x0b\x00\xf9\xb8\xf6\xab\x5e\x5b\xe1\x4f\x1f\x2c\x2c\xa8\xf5\xd4\xd3\x1c\x50\x02\x67\xe0\x35\x5e\x2f\x02\x3e\xe9\x34\x3e\x5e\xfe\x62\xef\x12\xb3\x78\xbb\x13\x91\x8c\x20\xf2\x74\xe6\x02\xbe\xf8\x2c\xfb\x22\x1a\x75\xd6\x70\x6b\x63\x38\x82\x04\x1f\xd2\xe6\xf0\xe4\xba\xde\x60\x59\x6f\xa8\xaa\xf7\x10\x1e\x5f\xd3\x93\x75\xf2\xd5\x61\x21\xf8\x4c\xb1\x04\xd3\xa0\xcf\xdb\xc3\xd0\x41\xb7\x2e\xe3\x1b\xa0\xab\xf2\x44\x03\xe4\x46\x7a\x81\xc1\x4e\x48\x70\x4e\xa6\xea\x88\x10\x6a\x6f\x2d\xc8\x55\xcf\x43\x97\xed\x52\x39\x08\xd8\xf1\x05\x73\xfd\x09\x09\xdc\xf9\x2b\xd6\x88\x6a\x29\x01\xdd\x09\x46\x61\xe8\x97\x83\xf1\x78\xd7\xf9\xc6\x18\x47\x8c\x40\x17\xcc\x4c\xd3\x1b\x37\x49\x62\x4d\xc1\x11\x64\xed\xb7\x05\x7a\xc8\xc0\x19\x33\x57\x3a\xc2\xef\x40\xad\x58\x8e\xb2\x88\x22\xaa\x4c\x9a\x47\xfb\x3f\x01\xb0\xc5\x0c\x5a\xcd\x28\xb9\xad\x70\x36\xfc\x43\x18\x6e\xb9\xaf\xc1\xd4\x78\x7b\xdc\x70\xee\x6d\xaa\x12\xaf\xb5\xcd\xc6\x7b\xf2\x6a\x81\x85\x5f\x56\x70\x85\x6d\x1b\xbc\xcc\xad\x16\x88\xb6\xcd\xe4\xf4\x21\x2b\xdb\x54\xda\xba\x27\x2a\xb9\x2e\x0f\x75\x6a\x9d\xb8\xca\x6b\xf3\xdc\x15\x3b\xed\xc0\x87\xed\xdb\xa2\x18\x32\x46\x63\x8d\x3f\xc9\x58\x9f\x6a\x90\x80\xb7\x5f\xd1\x5a\x91\x9b\x1b\x01\x7d\xa5\xcc\x5c\xf7\x14\x4a\x33\x06\x89\x7a\xc5\xee\x28\x46\xd4\x02\x68\x29\x75\x51\xa3\x4e\x76\x5c\x87\x9e\x98\x8b\x05\xb1\x2e\x27\xb4\x22\x75\x59\x41\xb8\xf4\x54\xa0\x11\xa4\x2a\x6a\x6a\xb7\x12\x4c\x55\xd4\x5d\xf6\x0c\xd5\xa2\xc1\xf2\xe5\x1c\x8e\x2b\x03\x8b\x99\x56\x70\x1a\xf6\x8a\xd7\x1c\x6b\x86\x76\xda\x33\xf9\x35\xf3\x2c\x64\x1f\xe4\xa7\x15\xbe\x06\xfa\xaa\x9b\x05\x4c\x04\xbe\x8d\x5c\xa1\xf9\x97\xae\xaa\x4e\x07\xae\xdf\x19\x45\x4c\xdd\x88\xc7\xac\xe0\x79\x7b\xac\x9c\xa4\x99\x4b\xf7\x7b\xb7\xe5\x3e\x34\xdf\x76\x35\x08\x0d\xdd\x86\xdf\x83\xca\xc8\xfb\x86\x54\xbc\xc2\xca\x55\xdb\xfd\xe8\xe8\x14\xe2\xc4\x73\x2c\xf7\x76\xd8\xf6\x4c\x62\x25\xd6\xfe\x7a\xad\x58\x73\x75\x5f\x53\x1d\x5d\xdb\xfc\x41\x3c\x7d\xf3\xfe\x51\xe8\xce\xe2\xe8\xb3\x2c\x1a\xc1\xd9\xd0\x12\x5d\x6a\x5a\xf4\xab\x06\x62\xdc\x06\x3b\x92\x4e\xb6\x95\xc1\xd2\xa1\x0a\xba\x35\xb7\x75\xca\x64\x70\x65\x47\xfe\xb6\x23\x6b\x7d\xd9\x6e\x2c\x31\x63\x22\x37\xc7\x80\xc8\x27\x0e\x0a\x39\xea\xca\x89\xec\xa5\x35\x2f\xb1\x2a\xea\x24\x3c\x89\xab\x06\x42\xe2\x31\xca\x92\xbe\xd9\x8c\xcf\xfe\xf0\xaf\x7f\xf3\xc3\xef\xff\xf9\x87\x7f\xfa\xb7\x1f\xfe\xfe\x77\x7f\xfc\xc7\xbf\xfd\xcf\x7f\xff\x8f\x3f\xfc\xfe\xef\x7e\xf8\x97\xdf\xfd\xf1\x77\xff\x70\x36\x76\x49\xb0\xa9\x06\x7d\x94\x26\xfc\x38\x45\x88\x8f\xd4\x80\x2d\xca\x3e\x62\xa1\x43\xeb\xb4\xb9\xbc\xdb\x3c\x9e\x59\x72\xbf\xe8\xc7\xc3\x43\xd7\xb2\x55\xd8\xd0\x1a\x6a\x71\xed\x9a\x37\x3d\x7c\xd8\xbc\xb5\x60\x6b\xe7\x4e\xcc\x14\x0a\xe5\x08\x22\x99\x42\x1a\x46\x1b\xda\xbe\x42\xb9\x55\xf8\x49\x0c\x73\x0e\x87\xe8\xa7\xa1\x1e\x03\xf4\xc9\x6f\x0b\x42\x37\xe6\xc8\xed\x7a\x29\xe3\x2e\xcb\x69\xfc\x51\xbb\xbc\xaa\x95\xb7\x74\x97\xed\x5d\xf9\x76\xb6\x38\x8d\xef\xec\x71\x7a\xb6\xbd\xc9\x7f\x62\x5a\x87\x6c\x46\x2f\x21\x76\x52\xbf\xc5\x38\xd9\x66\x3c\xe5\x6a\x7b\x89\x38\xb1\x46\xc3\xb1\x6b\x9f\xe1\x38\x41\x56\xbe\xed\xd8\x12\xc5\x9f\x8f\x1a\xf5\xb3\x7d\x07\x69\x7f\xcb\x6e\xfd\xec\xfc\xa2\x1f\xba\xe8\xdc\xc6\x4c\x9a\x39\x70\x09\x84\x9f\x89\x96\x63\x1d\x1d\xd2\xbe\x2d\xbd\x30\x55\x97\x6a\xa3\x39\x57\xe6\xd3\x90\x7e\xd8\x84\x41\x77\x37\x6a\x52\xd5\x2b\xae\x3e\x36\xf0\x3d\x26\x7a\x3a\x3f\xd0\x43\xef\xf6\xf2\xc7\x67\xf0\xb2\xcc\xd7\xfa\x33\x53\x88\xb0\x1e\x2d\xa9\x97\x27\x17\xd5\x32\xcf\x60\xe2\x0a\x65\x38\x17\xdb\x2b\x78\x9f\x53\x73\xb6\x52\x0b\xff\x00\x6c\x55\x08\x85\xa1\x57\xb6\xd4\x1f\xc8\xc1\x94\x5c\x94\x5c\x4a\x38\x1b\xd3\x8a\x9a\xfc\x5e\xd3\x7b\x20\x94\x6a\x2d\x72\x47\x7e\xb4\x59\xb6\xb3\xdd\xe7\x87\x73\xdd\x36\xd9\x1d\x6c\x4f\x0f\xf7\xa7\x07\x1b\xd4\x7a\xdb\xe0\xfd\x11\x57\xf1\x70\x18\x3a\xc3\x71\xf0\x63\x65\x3d\xe7\x52\xa6\x28\x89\xf2\x0b\x1b\xf2\xeb\xea\x04\x56\x94\x30\x8a\x81\xcf\x56\xd1\x08\x34\x67\x6d\xf9\xc3\x9c\x2c\x02\x57\x6f\x71\x9f\x01\x8d\xf1\x00\xa4\xc4\xe3\xf2\x5f\x2f\x67\x33\xde\xc4\x88\xab\x7f\xc8\x1b\xfc\x53\x12\x94\x7a\x07\xbb\xdf\x46\x3b\xf8\x5d\x15\xf7\xa9\xd4\x63\xdb\x90\x2f\x1e\xdd\xbc\xfe\x98\x3b\x24\xf6\x1c\x1d\xce\x07\x53\xba\x75\xbf\xe9\xe6\x29\xe2\x82\x88\x96\x23\x90\xcd\xca\xfc\x76\x9f\xbe\xa3\x64\x75\xf7\xab\x7b\xc7\x5e\x0a\x45\x41\xd2\xc9\x01\xac\xb7\x56\xa5\x36\xae\x4b\xfe\x7a\x39\x91\xd3\x46\x4c\xcc\xb7\x6b\x76\xee\x6f\xfa\xdf\x08\xc1\x74\xb5\x6f\x0c\x1a\xe5\x66\xe5\x8f\xd4\x40\xf8\x73\x39\xd7\xa4\x25\xc3\x15\x16\xf7\xad\x3b\xb7\x71\x3c\x99\x6e\x36\x9d\x4f\x69\xb0\x5b\xee\x71\xff\xd8\xcf\xd2\xe0\x94\x23\x3e\x4b\xd3\x42\x3e\x78\x7b\xa6\xf3\x51\xdd\xd4\xf1\x8f\xee\x24\x24\xbe\xe0\x06\x3e\x47\xb3\x1f\x02\x1d\x9d\xf8\xf3\xfb\x2a\x4d\x4b\xd7\xc1\x6b\xb0\x64\x02\x9d\x42\x5c\x40\x97\x66\xbc\x44\xe2\xc8\x3e\xe9\xab\x34\x28\x28\x6f\x04\x39\x9f\x11\x5d\xb7\xbf\x2a\x7b\xc7\x78\xbd\xc1\x76\xc4\xd6\x59\xa4\x53\x3f\x5b\xe3\x49\xd9\xbb\xaf\x70\xfa\x67\x6b\x3c\x38\xee\x60\xf3\x61\xe6\x7a\xe4\x01\xc0\x59\x97\xbb\x2d\x6b\x77\x3e\x48\x43\x2b\x6d\xf7\x43\x86\xd6\xf1\x2a\xf2\xc8\xb2\xcd\xa6\xcb\xf6\xfe\xce\x50\x21\xe7\x64\xcd\x9e\xcb\xf9\x70\x21\x7e\xf7\x8c\x6a\xdf\x1d\xce\x3d\x27\xdd\x0b\x39\x4f\x9f\x68\x27\xd6\x7f\x36\xb3\xef\x28\x81\xd5\xe5\x81\x0b\xa1\xc4\x1e\xaa\xd6\xb6\x87\xeb\x7a\xf4\x65\xbb\xa0\xaa\x09\x3e\xe2\x70\x1d\x16\xfb\xa0\x9a\xfc\x06\x0f\x8d\x50\xbd\x54\x3a\x79\xd9\xcf\x83\x3c\x67\xe5\xda\xf4\x88\xb0\x73\x68\x0f\x91\x98\xaf\x04\x2e\x31\xe7\xc0\x46\x0d\xa2\x87\x06\xb0\x94\x02\xdb\x84\x74\x45\x89\x8c\xda\x20\xde\x03\xdd\x3c\x5c\x97\xe2\xf2\x11\x94\xd3\x8e\x3b\x72\x7d\x8c\xfe\x02\xaa\xe5\x73\x47\x07\xcd\xfa\x48\x82\xbf\x30\x2d\x84\x2b\xb4\x60\x93\x53\xce\x01\x21\x45\x54\x53\xb7\xcf\x4e\x38\x07\xe4\xcd\x3e\xf0\x31\x0a\x24\xff\xbf\xfb\x63\x14\x2d\x76\xbb\x21\xc1\xa0\x03\xba\x5e\x4e\x72\x21\x17\xbc\x39\xe5\x98\xcf\xf0\x97\x28\x7c\x83\xe0\xbb\x7a\xcf\xf6\x04\xa7\x7c\x61\xc2\x1e\x39\xe9\x1b\x7e\xb9\xeb\x15\x1c\x35\xda\x29\x78\x9f\x9a\x08\x82\xde\xd8\xc3\xf7\x16\x11\x0d\xec\x51\x7d\xff\x14\xc9\x13\x7e\xc8\x47\xec\x1e\x1f\xd9\x3e\x3d\xd2\x39\xad\xeb\x0c\x88\xdd\x09\xbd\x67\x45\x7a\x4d\x2c\xe5\x41\x1e\x22\x1f\xfd\xb9\x08\x24\x68\xa8\xdd\x3d\x64\xde\x5d\x97\x7b\x80\x1b\xbd\x36\xee\xb8\xcf\x45\x58\xfb\xff\x27\xfb\x30\xc4\x00\xca\x47\xb8\x24\x18\xf6\x49\x78\xb8\xef\x08\x77\xc3\x9b\xc6\xae\xb7\xe3\x76\xc6\x63\xd8\xf5\x3c\xe3\x31\x3c\x78\xd0\xed\xe4\x54\x9f\xf0\xb7\x93\x3f\xff\x7c\xf7\x5d\x8a\x3d\x56\xb8\xbc\x84\xe8\xbd\xa0\x7b\x6b\xef\xa3\x81\x65\x6c\xdf\x79\x17\x88\x3d\x5e\x6c\x11\xe9\xe9\xd5\xf6\x7e\xee\xe2\x58\xe7\xdb\xd7\x44\xdd\xef\x7d\xfb\xbf\x1f\xe5\xeb\x30\xf9\xe0\x7e\x17\x4c\xfd\xbc\x3d\x1e\xb8\x7b\x21\xc8\xfd\x2f\xf2\xd0\x99\x22\x2a\x6b\xe8\x14\x61\xc0\x29\xa3\xa8\xad\x45\x7f\x2e\xe7\xdb\x3e\xf9\x5c\xe3\xfa\xd3\x38\xe6\x63\x63\xa9\x43\x9d\x4c\xcb\xf2\x41\x47\xec\x16\xd2\x3b\xc2\x81\x4b\x3c\x31\xfc\xd7\x00\x87\xfd\x24\x74\x41\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27168, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xfb, 0x22, 0x76, 0xd4, 0x7d, 0xd5, 0x77, 0xb9, 0xba, 0x23, 0x5f, 0xb0, 0x42, 0x84, 0x8b, 0x2e, 0x43, 0xf1, 0x23, 0xe0, 0xb0, 0xc8, 0x65, 0x18, 0x30, 0xb6, 0x9f, 0x2f, 0x33, 0xb3, 0x12, 0x8d}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27201, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xee, 0xe5, 0x4d, 0xa0, 0x65, 0x7, 0x20, 0x98, 0x6a, 0xd1, 0x3, 0x5f, 0xdb, 0x13, 0x6a, 0xd1, 0xd1, 0xfe, 0xfa, 0xe4, 0xe4, 0x8, 0xdb, 0x21, 0x3a, 0x52, 0x8d, 0xf0, 0xeb, 0x8e, 0x89, 0xf5}}
 	return a, nil
 }
 
-- 
2.43.0


From a73c979d7dca6db0bc345869b05c24f740696056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 37/53] fix: call the service by its name in the definition in
 the gRPC client

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  |  6 +-
 gengokit/template/template.go                 |  8 +--
 svcdef/svcdef.go                              | 59 ++++++++++++++++++-
 3 files changed, 62 insertions(+), 11 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 3478746..170ac70 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -254,14 +254,13 @@ func GRPCMetadataToContext(ctx context.Context, md metadata.MD) context.Context
 // responsibility of the caller to dial, and later close, the connection.
 func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption) ({{.Service.Name}}Server, error) {
 	{{- with $te := .}}
-		{{- with $pkgName := $te.PackageName}}
 			{{- range $i := $te.Service.Methods}}
 	var endpoint{{$i.Name}} endpoint.Endpoint
 	{
 		endpoint{{$i.Name}} = grpctransport.NewClient(
 			conn,
-			"{{$pkgName}}.{{$te.Service.Name}}",
-			"{{$i.Name}}",
+			"{{$te.Service.GRPCName}}",
+			"{{$i.GRPCName}}",
 			EncodeGRPC{{$i.Name}}Request,
 			DecodeGRPC{{$i.Name}}Response,
 			{{GoName $i.ResponseType.Name}}{},
@@ -269,7 +268,6 @@ func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption)
 		).Endpoint()
 	}
 			{{end}}
-		{{end}}
 	{{end}}
 
 	return Endpoints{
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 75a2e34..aeabfd5 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.201kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.145kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (3.019kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xdc\x38\x76\xf0\xb3\xf4\x2b\xce\x08\x73\x91\xfa\xab\x56\xcd\xf7\x01\x5f\xb0\xe9\x41\x07\xf0\xd8\x3d\x1e\xef\x8e\xed\x5e\xbb\xbd\xf3\x60\x18\x5e\x56\x89\x55\xc5\x6d\xdd\x2c\xb2\xaa\xbb\xb6\xd2\x2f\x79\xd9\x00\x09\x10\x20\x4f\x79\x08\x16\x79\xca\x6b\x90\xe7\xfc\x9e\x9d\x60\xff\x45\x70\xc8\x43\x8a\xaa\x92\xea\xe2\x99\x0d\x36\x40\x06\xc9\x4c\x97\x44\x1e\x9e\x1b\xcf\x95\xd4\x8e\xc7\xf0\xb8\xca\x38\xcc\x79\xc9\x1b\xa6\x78\x06\x93\x35\x4c\x58\x53\x95\x29\x3c\x79\x09\x2f\x5e\xde\xc0\xd5\x93\x67\x37\x69\x38\x1e\xc3\x2b\xde\x2c\xcb\x52\x94\x73\x33\x00\xee\x44\x9e\x43\xb5\xe2\xcd\x5d\x23\x14\x07\xb5\x10\x12\x66\x22\xe7\x7a\xf0\xaf\x78\x23\x45\x55\x5e\xc0\x66\x93\xd2\xdf\x0f\x0f\xde\x0b\x78\xc2\x14\xf7\xdf\xe2\xef\x87\x87\x30\xac\xd9\xf4\x96\xcd\x39\xbe\xb9\x36\x7f\xbe\x60\x85\x7e\x33\x1e\xc3\x8d\x5d\x03\xa6\x55\xa9\x98\x28\x25\x14\x5c\x2d\xaa\x4c\x82\xaa\xa0\x60\xb7\x1c\x44\x99\x89\x95\xc8\x96\x2c\x07\x5e\x66\x75\x25\x4a\x25\x61\xd6\x54\x05\x48\xde\xac\xc4\x94\xcb\x11\xa2\xd1\xf0\x0f\x4b\x2e\x15\xb0\x32\x83\x86\xcb\xba\x2a\x25\x07\xb5\xae\xb9\x86\x84\x43\x91\xa2\x4a\xf2\x16\xca\x08\x98\x84\x3b\x9e\xe7\xf8\x5f\x5e\x4e\xab\x8c\x37\x12\x01\x20\xbc\x8c\xd3\xef\x59\xd5\xd0\x44\x0d\x6d\xa4\x1f\x30\xe4\xd4\x0c\xaa\x65\x03\x72\x59\xd7\x55\x83\x9c\x56\x0d\x2b\x25\xfe\x8d\x98\x09\x96\x8b\xdf\x32\x25\xaa\x12\xa1\xcd\xaa\xa6\x60\x4a\xa6\x61\x28\x0a\x3d\x22\x0e\x83\x68\xb2\x56\x5c\x46\x61\x10\x21\xed\xfc\x5e\xe1\x9f\x1a\x0d\x51\xce\xc7\xbf\x91\x55\x89\x0f\x66\x85\x7e\x2e\x2a\xf3\xef\xb1\xa8\x96\x4a\xe4\xf8\xa3\xe4\x6a\xbc\x50\xaa\xb6\x7f\x2f\x1b\xfd\x58\xaa\x66\x5a\x95\x2b\xfa\x53\x94\x73\x19\x85\x61\x10\xcd\x85\x5a\x2c\x27\xe9\xb4\x2a\xc6\xf3\xea\xfc\x56\xa8\x31\xfe\xbf\xe5\x45\x14\x06\xac\x5c\xd7\x13\x88\xe6\x55\x35\xcf\x79\x3a\xaf\x72\x56\xce\xd3\xaa\x99\x8f\xeb\xa6\x52\xd5\x64\x39\x1b\x6b\xfa\xc7\xb7\x65\x75\x57\x8e\xf5\xe8\x28\x0c\xb2\x65\xa3\x89\x3c\x61\x6a\x3b\x25\x0a\x03\x5e\xd4\xea\x94\x75\x69\x7c\x14\x06\x33\xc1\xf3\xac\x60\xf2\xf6\x84\xd9\xde\x9c\x28\x0c\xa4\x6a\x96\x53\x75\xc2\x74\x3b\x21\x0a\x03\x25\x0a\x2e\x15\x2b\xea\x13\xa6\x7b\x73\xa2\x30\xb8\x6b\x58\x5d\xf3\x46\x9e\x00\xa0\x9d\xb2\x2b\xd2\x46\xe4\x39\x1b\x17\xcb\xfb\xa8\xfb\xa6\xbe\x9d\x8f\x79\xd3\x54\x8d\xd6\xb4\x3d\x0b\x39\xcd\xd3\x4f\xac\xfa\xed\x99\xa0\xff\x40\x44\x36\x9b\x73\x10\x33\xe0\x1f\x20\x7d\x5c\x95\x33\x31\x4f\x6f\xdc\x4e\x88\x58\x9e\x47\x10\x95\x4c\xc9\x08\x1e\x1e\xba\xb8\xe1\xd3\x73\x51\xe9\xff\xa6\x73\xd4\x70\x04\xc5\xcb\xec\xe1\xe1\x28\xa8\xf3\xa6\x9e\x5a\xa8\x3b\x78\xea\x97\x83\x6f\xc6\x05\x57\x2c\x63\x8a\x6d\x2f\x7a\xf4\x92\x08\xbf\xdd\xf1\x03\xfb\xcb\x0d\xb0\xe8\x78\x6b\xe1\xde\x3d\x01\x00\x0e\x8f\x8e\x62\x4b\xcb\x6c\xfc\xeb\x84\x25\x70\x78\x07\xc7\x24\x0c\xc3\x15\x6b\x20\x0e\x83\xf7\x70\x09\xb3\x42\xa5\xaf\xeb\x46\x94\xca\xfc\xd6\x06\x2c\x7d\x5c\x15\x35\x6b\xb8\x79\x44\xd6\x27\x7d\xa4\x2a\x61\x9e\x74\xc8\x4c\x5f\xf0\xbb\xd7\xbc\x59\xf1\xc6\xbc\x34\xd6\x2c\x7d\x51\xd5\x8f\xf3\x4a\xb6\x4f\xd3\xc7\x55\xbd\x36\x3f\x8c\xf2\xa6\xdf\x37\xac\x0e\x83\xf1\x18\x48\x9e\x56\x0d\x8d\x8d\xc7\xa1\xda\x24\xa5\x8f\x4a\x3d\xaf\x35\x32\xe9\x13\xfa\x13\x1f\x93\xf9\x48\xaf\xf0\xbf\xf8\xc0\x6e\xe9\xf4\xb5\xfe\x03\x1f\x79\xdb\x34\xbd\xb1\x7f\xe3\x8b\x76\xfb\xe1\x68\x51\xce\x7f\xc5\xf2\xa5\xa6\xdb\xb3\x2b\xe9\x37\xf8\xf7\x73\x26\x6f\xc3\x24\x0c\xc7\x67\x47\xfd\x03\x57\xd6\x27\x81\x7d\x74\xf8\x9f\xb1\xf6\xa0\xcf\x4a\x60\xe8\x6f\x56\xbc\x19\x81\x50\x5f\x48\x58\x4a\x3e\x5b\xe6\xda\x4d\xcd\x96\xe5\x14\xb9\x20\x41\x2d\x98\x82\x92\xa3\x97\xaa\xa0\xaa\x75\x6c\x00\x15\xce\xad\x79\x73\x6e\xdd\x00\x02\x9c\x30\x29\x64\x0a\xdf\x54\x0d\xf0\x7b\x56\xd4\x39\x1f\xc1\xba\x5a\x42\x21\xe6\x0b\x05\x35\x93\xe8\x22\x3d\x84\x55\x05\xcc\x2d\x64\xd6\xa9\x9b\x2a\x5b\x4e\xb9\x44\x70\xac\xd4\x1a\x90\x7e\xcb\xca\x2c\x47\x1c\xef\x84\x5a\x00\x67\xd3\x05\x79\x7a\x88\xed\xea\x09\xdc\x89\x86\x67\xb0\xac\x11\x49\x06\xb2\xe6\x53\x31\x13\x53\xa8\x99\x5a\xa4\x10\x3f\x53\x08\x50\x48\xa8\x9b\x6a\xc2\x26\xf9\x1a\x18\x14\x42\x2a\x13\x25\x40\xc6\xa5\x98\x97\x38\x55\x94\xab\xea\x16\xdd\x3d\x07\x54\x36\x31\xe5\x2e\xaa\xd0\x28\x72\x84\xd3\x52\x60\x74\x00\x44\xcb\xc9\x34\x09\xc7\x63\xc7\xdd\x69\x2e\x78\xa9\xba\xdc\x55\x15\x4c\xab\x3c\xe7\x53\xe5\x05\x28\xf9\x1a\xa6\x55\x69\xc0\xf1\xcc\x0b\x57\x44\x89\x04\x21\x40\x29\xca\x79\x6e\x02\x13\xc3\x2b\x81\x1c\x2e\x38\xe2\xe1\xe3\x2b\x4a\xc5\x9b\x19\x9b\xf2\x21\x49\x20\x30\xb7\x58\x7f\x90\xb4\xc4\xc5\xda\xa8\x44\x07\x0b\xb8\x01\x1f\x13\x3d\xd3\xaa\x98\x88\x52\xf3\xa9\x20\x14\x3d\xc1\x8e\x28\x94\x52\xcb\xa6\x04\xa1\x90\xaf\x88\xe0\x94\xe5\x39\x6f\x30\x62\x62\x16\xd9\x34\xd4\xe4\xec\x30\x74\x13\x06\x6f\x4a\x47\x1f\xcf\x36\x9b\xd4\xce\x30\x21\x20\x59\x82\xcd\xa6\x61\xe5\x9c\xc3\xa7\x02\x2e\x2e\xc1\x8d\x79\x6e\x44\x86\x76\x6c\xb3\xf9\x54\xd0\x1c\xbb\x0a\x00\x38\x52\x53\xfb\x30\xdc\x6c\x8c\x71\x35\xd1\xa5\x7d\x2c\x0f\x2f\x81\x0a\x0c\xb1\x47\x44\x02\xde\xa2\xf1\x54\xdd\x03\x45\x69\xe8\x1a\xf0\xbf\x23\x54\x98\xb3\xcd\xe6\x69\x85\x88\xc1\xa7\x22\x7d\x65\x42\xd0\x9b\x75\x6d\x09\x4c\x20\xde\x1a\x61\x02\x53\x6f\xc8\xc8\x18\xb8\x04\x36\x61\x60\xe3\x56\xfd\x0c\x11\xe5\x69\x0f\xe5\x88\x0c\x2e\x9e\x84\x01\x3a\xab\xa6\x81\x4f\x2e\xa1\x14\x39\x42\x08\x48\x5e\xa5\xc8\x35\x90\x30\x78\x08\xed\x33\x0b\x3d\x3d\x88\x53\x32\x42\x78\xe1\x83\x63\x27\x32\xf3\x39\xbb\xf5\xd8\x13\x6e\x36\x7a\x23\x7f\xaa\x38\x22\x9a\x3e\xe0\xe0\x73\xf0\xb9\xfc\xa9\xe2\x43\x8c\x46\x58\x7d\x94\x49\x64\xba\xe2\xbd\x6a\x92\xec\x8a\x1b\x36\x8e\x38\x94\x5f\xbf\x94\x6c\x62\xe0\x76\xd4\xe6\x21\x81\xd8\x32\xc3\x7f\xac\x39\xe6\x89\x23\x68\xf8\x07\x24\x84\x20\xa4\xf1\x21\x69\x87\x41\xb0\x72\xb2\x93\xbe\xec\x10\x35\x8d\x4a\x12\x06\x3d\x52\xdb\x15\x1b\xca\xcd\x3e\x5d\x19\x71\x04\xa8\xd6\xad\x6f\xf6\x65\x83\xce\xf1\x51\x9e\x5f\xdd\x4f\x79\xad\xb4\x9f\x92\xc6\xc4\x3a\x4e\x69\x0f\x85\x29\x0b\xed\x4d\xfb\x42\x82\x16\x23\x43\x28\x5e\x4c\xe0\x58\xfd\x5c\x64\x59\xce\xef\x58\x63\xb2\xc0\x37\xd2\xe6\x85\x98\x04\xd5\x75\xbe\x46\x13\x83\x66\x53\x21\xf0\xc2\x8d\xd6\x59\x17\x5f\xf1\x66\xed\xc4\x86\xfb\x05\x2d\x08\xa5\x6d\x1a\xde\xcb\x1a\xbd\x06\xcb\xf3\xf5\xc8\x8d\x93\x30\x65\x25\x4c\xb8\xf6\x35\x3c\xc3\x69\x93\x35\x94\xc8\x76\x55\xe1\x73\x7e\x3f\xcd\x97\x19\xcf\x4c\x16\x38\xe1\x88\x02\xd2\x5c\xf3\x2c\xdd\xe1\x46\xdc\xe2\x34\x82\xe8\xb5\x62\x6a\x29\xa3\x11\x44\xd7\xa2\x9c\x47\x89\xdb\xf7\x67\x8e\x21\xc9\xe0\x7c\x87\xa1\xc7\x95\x51\x8b\x4d\x9a\xa6\x52\x87\x05\x5a\x79\x44\x49\x8f\x2f\x2e\xa1\x60\xf5\x5b\xf3\xea\x9d\x61\xff\xe6\x01\xd5\x6b\x7b\xc3\xf4\xec\x96\x20\x08\x22\x4f\x8d\xa2\x0b\xd8\x3c\x8c\xc2\xc0\x0f\x23\x1f\xc2\x30\x40\x5f\xff\x1e\x51\x41\x30\x06\xa4\x43\x0b\x57\x12\x33\x78\x3f\x82\xea\x16\x5f\x5b\xc4\xde\xf2\xfb\x77\x5f\xc1\x27\xd5\x2d\x62\x1b\x04\x35\x2b\xc5\x34\x6e\x23\xbc\x59\x1c\x5d\x59\x10\x96\x6e\xf8\xe2\x33\xf9\x05\x64\x15\x97\x50\x56\x0a\xf8\xbd\x90\xea\x2b\x90\x9c\xfb\x82\x77\x39\xa5\x0e\xe9\x11\xa9\x24\x21\x7d\xce\x78\xce\x15\x8f\x2d\x06\xfa\x9d\x21\xe0\x28\x56\xf4\x52\xd1\x61\xcf\xbb\xaf\xc0\xd2\xd3\x6b\x3a\xe1\xd2\xc3\x34\xee\x1d\x42\xb8\xb6\x0c\x36\x3b\xec\x3b\x36\xe1\x39\xcf\x5a\xc1\x9b\x6a\xc9\x9c\x2b\xab\xa6\xa8\xda\x8e\x51\x5a\x5b\xef\x16\xbc\x74\x6f\x2b\x4f\x33\x09\x98\x51\xb0\x91\xd9\x50\xa4\xf3\x4b\x33\x18\x4c\x09\x86\x99\x3a\x8e\x98\x62\xfc\xd2\x88\xa9\x8e\xa8\x5a\x0a\xe0\x6e\x21\xa6\x0b\xbd\x5d\x24\x2f\xfb\x50\x20\xa7\x4d\xb3\x6d\xc8\x52\x35\xe4\xb2\x77\xa9\xc2\xfd\x10\x1b\x5d\x1d\xed\x1a\xdc\x1e\x1b\x1c\x0e\xd1\xf5\xd1\x66\x68\x07\xa9\x11\xd1\xa9\x39\xde\xf0\x29\x17\x2b\xb4\x42\xdc\x90\x58\xcd\x3a\x74\xa7\xf0\x9a\x73\x07\xc6\x83\xa2\x5f\xd8\x98\x93\x10\xbe\xba\x47\x44\x71\xf7\x64\x5c\x31\x91\x4b\x0c\x89\xed\xce\x41\x20\x36\xae\x65\xb9\x50\xeb\x74\x9f\xb5\xe8\xd0\x1e\x17\x3f\x82\xa3\xff\x6b\x52\xfe\xe7\x9a\x94\xce\xd4\x11\x1c\x6b\x61\x8e\x2f\x3b\x1c\x9b\x50\x3e\x7d\x75\xfd\x18\x09\xe6\xcd\xc9\x19\x25\x06\x67\xde\x74\x2c\xc2\xca\xd6\xc5\x3b\x51\x00\x5b\x31\x91\xb3\x49\xce\x4d\x32\x30\x7f\x75\xfd\x18\x06\x42\x7c\xda\x39\x5d\xc8\x2e\xef\x93\xad\x19\x18\x41\xa5\x23\x02\x89\xaa\xdf\xa9\xb0\x68\x4d\xe6\x8d\x09\x18\x92\xa1\x85\xd0\x97\x49\x6f\xa0\x44\xc1\xbe\x7d\x37\x0c\x09\x05\xdb\xf7\xf6\x6b\x3e\xab\x1a\x1e\x23\xb6\xcf\xa9\x52\x74\x53\x51\x4c\x99\x8c\x70\x8b\x6c\xad\x73\x89\xe1\x10\x2f\xb3\xb8\xf3\xd8\xd1\x93\xa6\x69\xa2\xcb\x17\x9b\x0d\xdc\x54\xdf\x55\x77\xbc\x69\x35\x12\x59\x85\xc2\xb5\x01\xdf\xe7\x88\x11\xbe\xe4\xcd\x06\x7d\xe3\x41\x35\xc6\xf1\x9e\xa6\x5d\x40\x97\x24\x57\x74\x89\x71\xf7\x3b\xb6\xf7\x29\x27\x06\x17\xc1\x13\x5d\xfb\x46\xda\xbd\x11\x14\xef\xea\x01\x57\x65\xef\x00\xca\x5e\x70\x44\x87\x0b\x69\x9a\xe2\xb4\x64\xe4\x6b\x7d\x60\x5d\x6b\x4b\xec\x76\x32\xec\xc2\xed\x7e\x59\xbb\xd0\xdd\x38\x33\x0f\xce\x4f\x9e\x80\x6e\x31\x18\x60\x8b\xc3\x54\xdd\xf0\xc2\x73\x4a\x9a\xa8\xec\x80\xd6\xd4\xc3\x4f\x55\x2d\xa9\xc7\x53\x79\x10\x4d\xbd\xc9\x62\x09\x67\xed\x52\x49\x0b\xfe\x40\x36\x8b\xc9\xce\x4f\x9b\xce\xbe\xc7\x8c\xa7\xf6\x12\xa2\x2d\x2e\x6a\x0a\xb4\x16\xf9\xe9\xd1\x89\x39\x6d\xfd\x91\xe9\x2c\x71\xd7\xa8\xfa\x61\xd6\x8e\xc7\xb0\x6f\x57\x80\x40\x13\xe8\xf4\x41\x57\x7b\x53\x33\x81\x46\x7c\x83\xb2\xd1\x15\x1f\xec\xce\xf0\x46\x49\x53\x10\x22\xb3\x69\x6d\x82\x03\xec\xf2\x56\x2c\xcb\x60\xd5\xa9\x39\xcf\xaa\x82\x89\x72\xdf\xe0\x14\xae\x1b\x51\xb0\x46\xe4\x6b\x5b\xa8\xf2\xab\x5a\xc6\x0a\xef\xa3\x23\x7e\xbf\xab\x18\x48\xcb\x2b\xfe\xa1\x55\x44\x9d\x40\x7b\xbf\xba\x25\x0c\x9d\x32\xd3\x9c\x63\x52\x66\x27\xc9\x0f\x7b\xc4\x74\x55\x1e\x2d\xa6\xbd\xb6\xa9\x57\x4e\x66\x86\x1d\x32\x24\xa8\xc3\x22\xa0\x25\xb4\xc0\xf6\x88\xb5\xce\xd7\x47\xc9\x69\x2f\x21\x7d\x82\xea\xab\x69\xec\x93\x94\xac\x51\x54\x76\xd6\x11\xfb\xc8\x13\x96\xac\xfb\xa4\xf5\x2d\xcf\xb1\x40\x1e\x1a\x45\xeb\x75\x9e\xfd\xc6\xa7\xc8\xc0\x36\x64\xd2\xe7\x4f\x92\xed\x01\x88\x2f\x9a\xd0\xdb\x11\xac\xda\x78\xb4\x70\x91\xe8\xaa\x53\x4c\xd1\x7d\x65\x0e\xb7\x7c\xad\xc5\x9d\x61\xc8\x3a\xa9\xd4\x02\x79\x6c\x57\xa1\x8e\x2c\xc4\xb7\x09\x65\x17\x38\x34\xcf\x21\x47\x79\x11\x14\x46\x39\x95\x2e\x9c\x3e\x66\x65\x55\x8a\x29\xcb\xbf\xe5\x2c\xe3\xcd\x2f\xf8\xda\xa6\x1e\xb8\x90\xac\xa8\x9c\xab\x28\x93\xb3\x20\xa6\x53\x6e\xab\x18\x5c\xa8\x05\x6f\x68\x65\x7c\x8f\xac\xb8\x74\xb4\x7e\x2f\xd4\x42\x77\x14\x90\x45\x23\x4d\xeb\xdb\x2f\xdf\x25\x07\x07\x0e\x60\x17\xdf\x26\x2d\x04\x0a\xea\x49\x7c\x53\x75\xaf\x7d\xaf\x8d\xfb\xf6\xff\xa3\xe5\x68\x6a\xc6\x27\xc7\x92\x2f\xf8\x9d\x37\xdb\x2c\xaf\xfb\x07\x54\x04\x82\x09\x9b\xde\xa2\x78\xd6\x76\xcf\x98\x62\x3b\xd2\x5a\x72\xdd\xbb\x48\xe1\x99\x42\x39\x52\xd9\x9e\xd4\x55\x4c\x04\xa6\x64\x56\x04\x54\x95\x56\x15\x64\x82\xe5\xa6\x74\x9d\x33\xc5\x1b\x98\x62\x5f\x09\x73\x6c\xee\xc3\x34\x0a\xda\xc1\x2e\xc6\xd7\xc6\x75\xa6\x06\xdf\xc7\x55\x59\xee\x09\x48\xcd\x20\x1b\x90\xc6\x03\x11\xa9\xbf\xe5\x30\x3a\xd8\xae\x9a\x06\xde\xd3\xfa\x76\x8e\x3b\xcd\x16\x4f\xbb\xc7\x25\x82\xdd\xec\xce\x2f\x95\xb6\x36\x30\x58\xb1\xc6\xe5\x57\x9e\xe9\xd8\xcd\x34\xc3\x00\xf7\x4b\xdf\xd0\xcb\xdd\x08\x92\xb8\xa4\xd5\x11\x19\x63\x13\x49\x42\xfa\xe1\x21\xed\xab\xdd\x46\x6e\x9c\x85\x1d\xed\x8b\x20\xdb\x10\xf3\x09\x3f\x14\x62\x1e\xb0\x56\xa6\x50\x16\xb4\xf1\x37\xfe\x4c\x1c\xed\xb1\x4e\x13\x35\x53\x29\x1e\x6d\xff\xb2\x7f\xb8\x0d\x63\x27\xc9\x83\xe1\x38\x9c\x13\x28\x87\xb3\x9d\x7b\xe1\x77\x2c\xbc\xf7\xa3\x76\xbd\xe0\xc1\x1a\x55\x34\xa6\x48\x3b\xd0\xce\xf9\xf1\x61\xca\x1e\xff\xf7\x84\x1f\xe3\xff\xf6\x7b\xb4\x63\xc3\x14\xf2\x35\x03\xfe\xcf\x6c\x7e\xda\x9d\x4f\xf8\x89\xfe\x0f\x89\x79\xa5\x91\x39\xd2\x01\xe2\x50\x17\xac\xa0\x5b\x3e\xc9\x05\xd6\xf9\xba\xcf\x07\xfa\x62\xfb\xf1\x61\xcb\x70\x74\x79\x55\x1e\x11\x5d\x1e\x16\x88\x17\x64\xee\x91\xf0\xde\xe8\xb2\x23\xb5\x7d\x74\xf4\x07\x2d\x44\xe2\x71\x22\x3b\xb5\x21\xb3\x3f\xba\x24\x2c\xb4\xd7\x95\x37\x95\x1f\xb0\x98\x9d\xd2\x67\xf1\x69\x1d\xdc\x27\x46\x51\xf7\x40\x89\x6f\xf9\x5a\xc2\xdb\x77\xb6\x8a\x77\x00\xde\x51\x0d\xad\x22\x83\xb3\x43\xc1\x92\xf6\x01\x35\x13\x4d\xbb\x78\x18\xd8\x9a\xde\x6d\x1b\x42\x69\xf4\xd0\x09\x60\x53\x6a\x65\x2b\x61\x53\x75\x9f\x6a\x9e\xc4\xb7\x49\x4a\xb5\xcb\xa4\xad\x83\x05\x06\xb0\xab\x78\xe8\x9f\x26\x60\xc1\x58\x43\x9b\x55\x34\x9e\x08\x53\xbf\xeb\x44\x67\x67\x45\x86\x35\x33\x4b\xc0\xcf\x2b\x51\xc6\x67\x45\x36\x6a\x1f\x5d\xe3\x9c\x58\xcf\xc4\xb2\x49\x62\xc1\x11\x67\x30\x7a\xa1\x5e\x98\x91\xe4\xb1\x35\xb1\x6f\x6f\x6e\xae\x29\x9f\xb0\xcf\x0e\xff\x33\x0e\x43\xdd\x66\x37\x5c\x2e\xb5\x7a\xc1\x25\x44\xac\xae\x73\x31\xd5\x07\x4b\xf4\x59\xbd\xaf\x60\xba\x60\x8d\xe4\xea\x72\xa9\x66\xe7\x3f\x8b\x5c\x29\x0d\x57\xa5\xf2\x00\x75\xd3\x51\xb1\x16\xf4\x44\xef\xd9\xc3\x25\x36\x04\x56\x95\x50\x37\x3c\xe3\x33\x51\xf2\x4c\x9f\x89\x90\xb4\xe7\xb6\x96\x39\x58\x58\xeb\x1e\xc9\xe9\x16\xd6\xfc\xc3\x1a\x36\x66\x11\x33\x48\x35\x7c\x1d\xde\x7b\x76\x6b\xab\xce\x83\xba\xf3\xf6\xdd\x30\x74\x2d\xff\xbe\xd7\x54\x6d\x33\x6b\x60\xfc\x2a\x3b\xc5\xb6\xfe\x49\x57\x68\xc9\x8d\xb9\x69\x62\xee\xfd\x18\x9e\xf2\x68\xa6\x78\x13\x6f\xbf\x51\x8f\x5b\xd1\xc6\x9e\x98\x13\x0d\x68\x97\xca\xa3\x4a\x7d\x54\x09\xd2\x65\xbd\x02\x19\x53\x2c\xef\x31\x8c\x7a\x55\x2d\x11\x87\x24\xf4\x22\x09\x6a\x4a\x5c\x5c\x0e\xb2\xd9\x0d\x9d\xe0\x49\x8f\x72\x8e\x00\x69\x5a\xfa\xb5\x79\x44\xb5\xfd\xc2\xce\x8b\x31\x38\xa3\xe1\x78\x26\x77\x02\x7f\x0d\x37\xd5\x1b\x3c\x73\xf8\xf0\x10\x25\xe9\x35\x53\x8b\xce\x18\x7c\x70\xc3\x8b\x1a\xe3\x66\x3d\xc2\xaa\xd3\xc0\x09\x2e\x5d\x4c\xec\x56\x13\x09\xa3\x9e\x92\x22\xc5\x73\x48\x9e\xb7\xa4\x6e\x9a\x38\xf7\x60\x06\x1a\x89\xe2\xc0\xa7\xa6\xf7\x65\xdd\xb0\x79\xdd\x57\x58\x0c\x74\x3b\xa0\xad\xbd\xf9\x7f\x92\xd1\x28\x28\xa8\xf2\x95\xc6\x34\xd9\x74\x66\x61\xc2\x02\xdb\x2e\xb3\x2b\x7e\x8f\xef\x9b\x11\x66\x27\x19\x9f\xb1\x65\xae\xd0\xdb\x19\x05\xc1\x1d\xa9\xcb\x8e\xd5\x0c\xb6\x6d\xc1\x08\x18\x4c\xaa\x4c\x27\x88\x68\x1b\x4c\x78\x8f\x69\x62\xa4\xd7\x89\x5c\x66\xb9\x42\x2b\x8b\xa0\xf4\xf3\x54\x63\x17\x27\x26\x7f\x61\x20\x75\xb7\x1a\x90\x1f\x08\xea\xff\x7f\xf9\x65\x0a\xcf\xa8\xdd\x85\x23\xfd\x7a\xa9\xd9\x37\xbc\xd1\x87\xa1\x71\x44\xdd\x54\x2b\x81\xa9\xef\x42\xbf\xc1\x46\x7f\x9e\x63\xfb\x5c\x63\x6b\xba\x8c\x38\xae\x8d\xc9\x7c\xd0\x08\xc5\x83\x8e\x54\xa4\xcf\x59\x23\x17\x4c\x1f\xe2\xb2\xf8\x17\xe6\x11\x76\xe0\xe5\x72\x3a\xe5\x3c\x93\x26\xd7\xfa\xf9\xeb\x97\x2f\xe8\x4c\x75\x66\x0f\x40\xdb\x64\x4d\xd3\xea\xd0\xc1\x8e\xe7\x30\x59\xa6\x61\x8f\x47\xda\x9b\x91\x4d\x01\x1d\x65\xed\xcb\x0e\x34\x10\xa5\x54\x9c\x65\x96\x67\xc6\x48\xfa\x16\xa2\x2f\x10\x71\x67\x3f\x46\x70\x67\x8e\xac\x75\xd5\x40\xc7\x8c\x28\xd5\x11\xbc\xc7\xed\xe7\xb3\xc4\x98\x1f\x6c\x2a\xd6\xbc\xd9\x68\x29\x5e\x20\x2d\x56\xa0\x18\x89\x88\x99\xe5\x16\x32\xd0\x38\x5a\x1c\x12\x77\x79\xdb\xfa\x59\x31\x03\x7c\xf5\xb5\x5e\x92\xa6\x5e\x99\x52\xaa\x03\x64\xe7\x21\xbb\xe3\xe4\x2b\xbb\x02\x0e\xbb\xf4\x7c\x2e\xa2\x0d\x97\x0e\x9c\x2d\x08\x04\x77\xa9\x51\x9b\x38\x49\x5f\x73\x15\x47\x64\x08\xcf\x6f\xd6\x35\x8f\x46\xbe\xcb\x33\x04\x2c\xac\x92\xf9\xf8\x77\xcd\x83\xd5\xc3\x96\x0e\x5b\xb8\x91\x6d\xd8\x61\xe1\xd0\x68\x19\x6b\xe6\x06\x3e\x3e\x4f\x78\x1e\xdf\xe2\xb6\xb6\x51\x8b\x57\xf8\x59\x51\xcc\xe2\x8f\x7f\x94\x65\xf1\x56\x04\x82\xff\xa7\xf7\xce\x85\x39\x85\x9a\x1a\x7d\x79\x86\xb1\x65\xc9\x72\xcf\x8b\x68\xe2\xe4\x74\x0f\x59\x9e\x1e\xb6\x94\x69\xe0\x97\x20\xa7\x04\x19\x5f\x53\x5e\x79\x97\x6a\xad\x21\xf4\x70\x60\xe2\x1e\xc6\x28\x8e\x04\x0d\x52\xab\x98\xc6\x3c\x36\xf1\x64\x39\x83\xb7\xef\xf0\x60\x6d\x42\x9b\x61\x13\xea\x60\xee\x0e\x7c\x1d\x73\x65\x72\xab\x88\x6f\x4a\x12\x3d\x42\x18\xc1\xe7\x77\xc9\x57\xdb\x65\x74\x13\xc6\x48\xf1\x5b\x0e\x97\xf0\xb3\xff\xfb\x97\x7f\x61\x74\x2c\xe7\x25\xce\x49\xe0\xaf\xcc\x3b\x1c\x1a\x20\x1a\x97\x30\x59\xce\xde\x5e\xe0\xc3\x77\xe4\x07\xc9\x98\xe2\x29\x11\xcd\xb7\x59\x1c\x59\xf3\x01\x48\x94\x3e\x20\x72\x81\x15\x30\x6c\xe6\xd6\x18\x0f\x41\x59\x95\xe7\xa8\x78\x2e\xd2\xc7\x81\xd1\x08\x81\x53\xa7\x96\xa0\xd2\x41\xdf\x17\xfc\x2e\xbe\x33\x1b\x47\xf3\x48\x1b\x59\x9f\x76\x7b\x76\x60\x13\x06\x7a\x14\xfe\x46\x03\xf4\x6b\x5c\xe5\x82\x2c\xec\xaf\xc9\xde\xa3\xdc\x69\x14\x53\x42\xce\x04\xde\x07\x59\x70\x67\x2e\xb5\xa5\xf5\x84\xdb\xe6\x21\x12\x84\xbe\xba\x61\xef\xaf\x1c\x73\x3e\x3b\x35\x9d\x28\x6f\x51\x87\xaa\x46\x0b\xef\x1c\xd8\xa5\x70\xa5\x30\xb0\xc6\x19\xc0\x6f\xe9\xbb\x98\xdd\xea\x48\xbc\x68\x81\x26\x9e\x51\x8c\x13\xe8\x9e\x83\x5b\xa4\xed\x0a\x03\xb3\xdb\x3d\x87\x0f\x69\x07\x75\x40\x10\x52\x61\xa7\x04\xbf\x5d\x82\x38\x18\xb4\x78\xd5\xaa\x03\x51\x8b\xab\x5a\xec\x0d\x0f\xb6\xb3\x60\x8d\x7d\x7f\x8f\x45\x77\x5a\xcd\x0d\x1e\x9c\x83\xd6\xf1\x9c\x9c\x91\x9f\xe0\xda\x75\xae\x59\xc3\x4b\x45\x49\xa3\xd3\x53\x7d\xba\x0c\xfd\x15\x62\x65\x9f\x6a\xc8\xa8\xc1\x87\x4a\xf8\x81\x57\xc3\xd8\x4b\x56\x6f\x52\x0c\x67\xe4\x81\xf4\x90\xe1\x84\x38\xc8\xf8\x8c\x37\xd0\xa4\x68\xd6\xd3\xc7\x58\xeb\x44\x03\xa4\x2d\x06\x26\xcb\x6d\x7e\xbc\x45\x2b\x41\x46\xd3\x8e\x51\x12\x6e\x78\xd7\xa8\xa3\x43\xf9\xaf\x38\xcb\x1e\xe5\x79\x6c\x80\x1f\x77\x70\xd1\x9e\xd4\x9f\xa1\x47\x1c\x41\x44\x96\xa0\x41\x6f\x6c\x23\x22\xa4\xcc\xb2\x33\xa2\xe2\xf4\x96\x21\xfa\x52\xd3\x16\x2c\xad\x51\xc3\xdc\xe9\xe2\x12\xdc\xcd\x94\xd6\xdc\x51\x20\xa8\x87\x07\x8f\xf2\xbc\xba\xbb\x66\x8d\x12\x2c\xc7\x72\x9b\x6a\x96\x14\x35\x3e\x11\x72\xca\x9a\xec\x4d\xa9\x6f\x11\x5d\xb4\x6f\x1e\x28\xf7\x45\xd2\x2f\xc1\x5f\x70\xc7\xa4\x62\x7b\x72\xc7\xa8\xf6\x9b\xd5\x61\xc3\xda\x6b\x5a\x09\x8d\x0e\x33\xdd\x86\xdd\xf4\xb0\x95\xb8\xf7\x51\x36\xd7\x30\x24\xf0\x1c\xe2\xd7\x2c\x23\x75\xa0\x77\x88\x40\x8b\x96\x4b\xe7\x31\xe5\xbc\x66\x0d\x2b\xa4\xcd\x67\x7e\xc5\x1a\x19\x37\x28\x43\xbc\xa9\xd1\xbe\xc7\xe4\xff\xc3\x92\x37\xeb\x76\x78\x93\xbe\x79\xf5\x5d\xfa\x4b\x7c\x18\xdb\x09\xde\x90\xd0\x4f\x72\xcc\x61\xd5\x8b\xcb\x56\x6b\xf5\xa5\x0a\xca\x70\xf4\x61\x99\xd2\x0e\x4b\xbf\xab\x4c\xe4\x0d\x91\x26\xd2\x8c\xc1\x02\xac\x86\x92\x3e\xe5\xa5\x5e\xd4\x49\x13\xd3\x9f\xfe\xba\xef\x7e\x14\x5e\x96\xbc\x9a\xed\xe0\xc1\x3f\xec\xe2\xa1\xc9\xfa\x31\x88\xb8\x6d\xf5\x79\xc3\x3f\xb4\x3d\x6f\xca\x6a\x74\x89\xd9\x0e\x6d\x4b\x87\x3d\x19\x53\xaf\xc5\x1c\xea\x76\x1a\xfb\x28\x6d\xfa\xe0\xfc\x3a\x93\xda\x7e\x6e\xa7\x0b\x26\x79\x6a\x4e\xe8\x64\xf6\x20\xd8\x67\xfb\x7a\x83\xef\xa1\xe6\xa6\x0b\x91\x86\x0c\xc5\xf3\x1d\x33\xb1\x6d\x24\x9c\x2d\x78\x23\xf9\x35\x1a\x18\xb4\x97\xd2\x37\x1f\x6f\x24\xbf\x2a\x97\xc5\x8b\x65\x31\xe1\x8d\xbc\x68\x5f\x5c\x15\x42\xbd\x29\xeb\xaa\x5e\x62\xce\x9c\x39\xb3\xf2\x10\x76\xec\x69\x8b\x9b\x45\xc7\x1d\x3f\x4f\x63\x8d\x6a\xfa\x9c\x4b\xc9\xe6\x3c\xd9\x77\xfe\xc1\xaa\xc1\xfb\x11\x59\x2b\x17\x4e\xea\x48\xca\x1b\xe5\x37\x63\xdd\x11\x46\x49\xc1\x40\x5f\x91\xa5\xbf\xd0\xb8\xe3\x85\x86\xba\xb2\x6d\x64\x6e\x23\x7a\x6d\xec\xf6\xf5\x61\x11\xf0\x6e\x0f\x76\xc1\x24\x2c\x58\x66\xe6\x0e\x75\x5d\x75\xaf\x2f\xc3\x93\x9a\x02\xcb\xc6\xad\x7e\xfb\xd7\x79\xd5\x82\x1b\x28\x26\x90\x92\xa9\x75\xfa\xae\xd9\x8b\xca\x8c\xe5\x58\x57\x77\xb4\xe8\x50\x96\x8a\xe9\xba\xac\x0c\x90\x6e\x6b\x77\x6f\x53\x77\x6f\xab\xf6\x76\xe4\x38\x94\x3e\xe5\x2a\xbe\x45\x81\xef\xef\xee\x6e\xe1\x1f\xdf\x26\x7d\x30\xd0\x78\x21\xbb\x97\x25\x6f\xaf\x4d\x4d\x17\x68\xcb\x52\xfd\x86\xe5\xb2\x02\x96\x65\xb4\x87\xb5\xb5\x87\x65\x93\x87\xfb\x57\x8f\x68\xe8\x39\x5e\x2e\x1e\x91\x11\xbf\x66\x6a\x91\x1c\x9a\xe8\xa4\x82\x87\xed\x51\xe7\xd0\x88\x44\xc9\x47\x37\xa1\x11\x04\x75\x55\xec\xb3\x13\x9a\xd0\xde\xec\xb6\x06\xdb\xd3\x83\x2e\x01\x47\x92\xf5\x82\x5c\xac\x30\x6a\x65\x8a\xb8\x56\x54\x4a\x17\x20\xb0\xbe\xc0\x4a\xbc\x9b\xf5\x3d\x1e\xb4\xaf\xcd\x2d\x30\xf3\x0c\xed\xe4\xb4\x2a\xb8\xb9\x9c\xd0\x2e\x92\x09\x39\xc5\xbb\xf5\x6b\x90\x6b\xa9\x78\x31\x02\xa9\x8f\x84\xe7\xe2\x96\xe7\x6b\xab\x74\xa8\x46\x10\x2d\x2a\xa9\x2e\x50\xa3\x23\x32\xa0\x1d\x0a\x62\xb7\x94\x3d\x55\x3c\x58\xda\x3d\xbd\x45\x2d\x66\xf0\x89\x55\xb9\x6f\x99\xbc\x6e\xf8\x4c\xdc\xbb\x15\x47\x10\xe1\xae\x8c\x4c\xba\xee\xf0\xb8\x34\x8f\x2f\xc6\xe3\x08\xfe\x8f\xe3\x04\x6a\x65\xb0\x74\x56\x70\xd9\xe4\xe9\x35\x46\x27\x0e\xda\xd1\x87\xbd\x30\xb8\x58\x86\x74\x3b\x17\x33\xcb\x9e\x8c\x83\x1a\xaf\xe6\x1a\x43\xf4\xa2\x32\x82\xf4\xea\xdf\xe6\x94\xbd\x66\x88\xa9\x16\x21\xa0\xbb\xaa\xb9\x1d\x81\xa9\xa9\x03\x79\x7a\x4c\xfc\xf0\x9e\x5d\x63\xe2\x4d\xf3\x56\x20\x0b\xa3\xb6\xae\x8b\xa7\xc8\x82\xe3\x73\xa1\x60\xb3\xc1\x5b\xbb\xdb\xc9\x0f\x21\x8d\x6f\x75\x89\xd0\x06\x1b\x08\x49\x94\x19\xbf\xdf\x9d\xf1\xa5\x9d\xa3\x63\xfc\xdd\xac\xc2\x52\xdc\xd7\xed\xc7\x60\x43\xff\x3b\xd8\x33\xaf\xe7\xc6\xae\xd7\xfa\xa7\x66\xfe\x60\x5d\x99\x22\xc8\x60\x5a\xd5\xeb\x37\xaf\xbe\x8b\x97\x23\xf0\xc7\x7f\xcd\x24\x47\xf3\x81\xf5\x65\x3b\xb4\x8d\x0e\x76\xb1\xea\xc6\xa5\xdd\x22\x32\x71\xa6\xe7\x64\xc0\x4e\xdb\x3f\xd8\xee\xfc\xdb\xd8\xb6\x95\x66\xe7\xef\xf6\x4f\x67\xae\x7a\x8f\x00\xec\x95\x3b\x9c\xff\xa9\x24\x3f\x54\x69\xc7\xa0\x65\x8f\x4a\xd0\xa9\x89\xbd\xf4\x7a\x47\x10\xb4\xe5\xb1\x72\x9c\x30\xc9\xe1\x0c\xf7\xf0\x9b\x57\xdf\x8d\x74\xf7\x89\x5c\x53\xe2\x1e\xe3\xfe\x2d\x31\x2e\xb8\xb8\x84\x33\x9c\x60\x7e\xea\x4e\x03\xa5\x07\x8e\x9d\x9f\xe3\x1b\x2a\x30\x3c\x56\xf7\xb6\x77\xfa\x1a\xe3\xdb\xa9\x3e\x04\xbf\x6c\xa8\x54\x83\xea\x68\x37\xae\xaa\xa0\x5e\xe6\xb9\x7e\x4e\x7e\x8e\x67\x18\x61\x48\xa8\x96\xe8\xba\x6d\xf8\x4a\x6e\x49\x97\x77\xc8\xed\x15\x36\x84\xf5\x13\x50\x8c\x15\xa8\xdc\x91\x02\xbc\xa8\x14\x5d\xcb\x45\x90\x08\x4b\x5b\x8a\x05\x5b\x71\xb0\x9f\xdb\xd8\x1f\x92\xe8\x75\x26\xba\x9d\x45\x37\xd3\xf4\xcd\x1c\xb4\xfc\x16\x35\xbc\xe4\x4c\x0d\x00\x66\x4f\x36\xe9\xd8\x03\xa9\x5a\xbb\x4a\xb6\xeb\xfd\xf9\xf7\xe6\x78\xe3\x1c\x2e\xf5\x9e\xbb\xbc\x33\xfd\x66\xef\xda\xc8\xb0\x3f\xf0\x2b\x3e\x3d\x83\xa8\x25\xb7\xe7\x5e\xe5\x11\xd1\xe1\x4f\xd6\x71\x76\x11\x0f\x96\xa9\xb7\xcb\xbc\x96\x0c\xd3\x18\x4e\x50\xab\x90\xd7\x68\x51\x86\xce\xcf\x1c\x34\xd8\xdb\x25\xa9\x5e\x63\xb3\xb7\x22\xb5\x9d\x5f\x51\x39\xca\x44\x63\xdb\x25\x29\x5b\xa5\xa1\x65\xec\x6c\x53\x9e\x69\x73\x9f\xed\x92\x14\x3d\xc6\xc4\xd7\x84\x79\xd4\x46\x71\x6f\x30\xa0\x66\xba\x1c\xf0\xff\xbe\xfc\xd2\xef\x27\x8d\xe0\x8e\x9a\x26\xba\xe0\x59\x37\x1c\x83\x1c\xa6\xf7\x03\x2b\x35\x2c\x1d\x14\x68\x45\x65\x4a\xe1\x87\x13\x70\xff\x18\x2a\xfc\xfd\x47\x05\x6c\x28\x4c\x0a\xd3\xe2\x68\x91\x38\x58\x32\xb3\xe7\x47\x7a\x4a\x66\xbd\x6c\xdf\x5f\x31\x33\x8b\x9e\x5e\x32\x3b\xa5\x02\x76\x89\x43\xd2\xab\x97\xdf\x0c\x16\xc1\xb0\x8a\xdd\xd6\xc6\x51\x31\x34\x0b\x00\xf9\xb8\xf6\xab\x5e\x5b\xe1\x4f\x1f\x2c\x2c\xa8\xf5\xd4\xd3\x1c\x50\x02\x67\xe0\x35\x5e\x2f\x02\x3e\xe9\x34\x3e\x5e\xfe\x62\xef\x12\xb3\x78\xbb\x13\x91\x8c\x20\xf2\x74\xe6\x02\xbe\xf8\x2c\xfb\x22\x1a\x75\xd6\x70\x6b\x63\x38\x82\x04\x1f\xd2\xe6\xf0\xe4\xba\xde\x60\x59\x6f\xa8\xaa\xf7\x10\x1e\x5f\xd3\x93\x75\xf2\xd5\x61\x21\xf8\x4c\xb1\x04\xd3\xa0\xcf\xdb\xc3\xd0\x41\xb7\x2e\xe3\x1b\xa0\xab\xf2\x44\x03\xe4\x46\x7a\x81\xc1\x4e\x48\x70\x4e\xa6\xea\x88\x10\x6a\x6f\x2d\xc8\x55\xcf\x43\x97\xed\x52\x39\x08\xd8\xf1\x05\x73\xfd\x09\x09\xdc\xf9\x2b\xd6\x88\x6a\x29\x01\xdd\x09\x46\x61\xe8\x97\x83\xf1\x78\xd7\xf9\xc6\x18\x47\x8c\x40\x17\xcc\x4c\xd3\x1b\x37\x49\x62\x4d\xc1\x11\x64\xed\xb7\x05\x7a\xc8\xc0\x19\x33\x57\x3a\xc2\xef\x40\xad\x58\x8e\xb2\x88\x22\xaa\x4c\x9a\x47\xfb\x3f\x01\xb0\xc5\x0c\x5a\xcd\x28\xb9\xad\x70\x36\xfc\x43\x18\x6e\xb9\xaf\xc1\xd4\x78\x7b\xdc\x70\xee\x6d\xaa\x12\xaf\xb5\xcd\xc6\x7b\xf2\x6a\x81\x85\x5f\x56\x70\x85\x6d\x1b\xbc\xcc\xad\x16\x88\xb6\xcd\xe4\xf4\x21\x2b\xdb\x54\xda\xba\x27\x2a\xb9\x2e\x0f\x75\x6a\x9d\xb8\xca\x6b\xf3\xdc\x15\x3b\xed\xc0\x87\xed\xdb\xa2\x18\x32\x46\x63\x8d\x3f\xc9\x58\x9f\x6a\x90\x80\xb7\x5f\xd1\x5a\x91\x9b\x1b\x01\x7d\xa5\xcc\x5c\xf7\x14\x4a\x33\x06\x89\x7a\xc5\xee\x28\x46\xd4\x02\x68\x29\x75\x51\xa3\x4e\x76\x5c\x87\x9e\x98\x8b\x05\xb1\x2e\x27\xb4\x22\x75\x59\x41\xb8\xf4\x54\xa0\x11\xa4\x2a\x6a\x6a\xb7\x12\x4c\x55\xd4\x5d\xf6\x0c\xd5\xa2\xc1\xf2\xe5\x1c\x8e\x2b\x03\x8b\x99\x56\x70\x1a\xf6\x8a\xd7\x1c\x6b\x86\x76\xda\x33\xf9\x35\xf3\x2c\x64\x1f\xe4\xa7\x15\xbe\x06\xfa\xaa\x9b\x05\x4c\x04\xbe\x8d\x5c\xa1\xf9\x97\xae\xaa\x4e\x07\xae\xdf\x19\x45\x4c\xdd\x88\xc7\xac\xe0\x79\x7b\xac\x9c\xa4\x99\x4b\xf7\x7b\xb7\xe5\x3e\x34\xdf\x76\x35\x08\x0d\xdd\x86\xdf\x83\xca\xc8\xfb\x86\x54\xbc\xc2\xca\x55\xdb\xfd\xe8\xe8\x14\xe2\xc4\x73\x2c\xf7\x76\xd8\xf6\x4c\x62\x25\xd6\xfe\x7a\xad\x58\x73\x75\x5f\x53\x1d\x5d\xdb\xfc\x41\x3c\x7d\xf3\xfe\x51\xe8\xce\xe2\xe8\xb3\x2c\x1a\xc1\xd9\xd0\x12\x5d\x6a\x5a\xf4\xab\x06\x62\xdc\x06\x3b\x92\x4e\xb6\x95\xc1\xd2\xa1\x0a\xba\x35\xb7\x75\xca\x64\x70\x65\x47\xfe\xb6\x23\x6b\x7d\xd9\x6e\x2c\x31\x63\x22\x37\xc7\x80\xc8\x27\x0e\x0a\x39\xea\xca\x89\xec\xa5\x35\x2f\xb1\x2a\xea\x24\x3c\x89\xab\x06\x42\xe2\x31\xca\x92\xbe\xd9\x8c\xcf\xfe\xf0\xaf\x7f\xf3\xc3\xef\xff\xf9\x87\x7f\xfa\xb7\x1f\xfe\xfe\x77\x7f\xfc\xc7\xbf\xfd\xcf\x7f\xff\x8f\x3f\xfc\xfe\xef\x7e\xf8\x97\xdf\xfd\xf1\x77\xff\x70\x36\x76\x49\xb0\xa9\x06\x7d\x94\x26\xfc\x38\x45\x88\x8f\xd4\x80\x2d\xca\x3e\x62\xa1\x43\xeb\xb4\xb9\xbc\xdb\x3c\x9e\x59\x72\xbf\xe8\xc7\xc3\x43\xd7\xb2\x55\xd8\xd0\x1a\x6a\x71\xed\x9a\x37\x3d\x7c\xd8\xbc\xb5\x60\x6b\xe7\x4e\xcc\x14\x0a\xe5\x08\x22\x99\x42\x1a\x46\x1b\xda\xbe\x42\xb9\x55\xf8\x49\x0c\x73\x0e\x87\xe8\xa7\xa1\x1e\x03\xf4\xc9\x6f\x0b\x42\x37\xe6\xc8\xed\x7a\x29\xe3\x2e\xcb\x69\xfc\x51\xbb\xbc\xaa\x95\xb7\x74\x97\xed\x5d\xf9\x76\xb6\x38\x8d\xef\xec\x71\x7a\xb6\xbd\xc9\x7f\x62\x5a\x87\x6c\x46\x2f\x21\x76\x52\xbf\xc5\x38\xd9\x66\x3c\xe5\x6a\x7b\x89\x38\xb1\x46\xc3\xb1\x6b\x9f\xe1\x38\x41\x56\xbe\xed\xd8\x12\xc5\x9f\x8f\x1a\xf5\xb3\x7d\x07\x69\x7f\xcb\x6e\xfd\xec\xfc\xa2\x1f\xba\xe8\xdc\xc6\x4c\x9a\x39\x70\x09\x84\x9f\x89\x96\x63\x1d\x1d\xd2\xbe\x2d\xbd\x30\x55\x97\x6a\xa3\x39\x57\xe6\xd3\x90\x7e\xd8\x84\x41\x77\x37\x6a\x52\xd5\x2b\xae\x3e\x36\xf0\x3d\x26\x7a\x3a\x3f\xd0\x43\xef\xf6\xf2\xc7\x67\xf0\xb2\xcc\xd7\xfa\x33\x53\x88\xb0\x1e\x2d\xa9\x97\x27\x17\xd5\x32\xcf\x60\xe2\x0a\x65\x38\x17\xdb\x2b\x78\x9f\x53\x73\xb6\x52\x0b\xff\x00\x6c\x55\x08\x85\xa1\x57\xb6\xd4\x1f\xc8\xc1\x94\x5c\x94\x5c\x4a\x38\x1b\xd3\x8a\x9a\xfc\x5e\xd3\x7b\x20\x94\x6a\x2d\x72\x47\x7e\xb4\x59\xb6\xb3\xdd\xe7\x87\x73\xdd\x36\xd9\x1d\x6c\x4f\x0f\xf7\xa7\x07\x1b\xd4\x7a\xdb\xe0\xfd\x11\x57\xf1\x70\x18\x3a\xc3\x71\xf0\x63\x65\x3d\xe7\x52\xa6\x28\x89\xf2\x0b\x1b\xf2\xeb\xea\x04\x56\x94\x30\x8a\x81\xcf\x56\xd1\x08\x34\x67\x6d\xf9\xc3\x9c\x2c\x02\x57\x6f\x71\x9f\x01\x8d\xf1\x00\xa4\xc4\xe3\xf2\x5f\x2f\x67\x33\xde\xc4\x88\xab\x7f\xc8\x1b\xfc\x53\x12\x94\x7a\x07\xbb\xdf\x46\x3b\xf8\x5d\x15\xf7\xa9\xd4\x63\xdb\x90\x2f\x1e\xdd\xbc\xfe\x98\x3b\x24\xf6\x1c\x1d\xce\x07\x53\xba\x75\xbf\xe9\xe6\x29\xe2\x82\x88\x96\x23\x90\xcd\xca\xfc\x76\x9f\xbe\xa3\x64\x75\xf7\xab\x7b\xc7\x5e\x0a\x45\x41\xd2\xc9\x01\xac\xb7\x56\xa5\x36\xae\x4b\xfe\x7a\x39\x91\xd3\x46\x4c\xcc\xb7\x6b\x76\xee\x6f\xfa\xdf\x08\xc1\x74\xb5\x6f\x0c\x1a\xe5\x66\xe5\x8f\xd4\x40\xf8\x73\x39\xd7\xa4\x25\xc3\x15\x16\xf7\xad\x3b\xb7\x71\x3c\x99\x6e\x36\x9d\x4f\x69\xb0\x5b\xee\x71\xff\xd8\xcf\xd2\xe0\x94\x23\x3e\x4b\xd3\x42\x3e\x78\x7b\xa6\xf3\x51\xdd\xd4\xf1\x8f\xee\x24\x24\xbe\xe0\x06\x3e\x47\xb3\x1f\x02\x1d\x9d\xf8\xf3\xfb\x2a\x4d\x4b\xd7\xc1\x6b\xb0\x64\x02\x9d\x42\x5c\x40\x97\x66\xbc\x44\xe2\xc8\x3e\xe9\xab\x34\x28\x28\x6f\x04\x39\x9f\x11\x5d\xb7\xbf\x2a\x7b\xc7\x78\xbd\xc1\x76\xc4\xd6\x59\xa4\x53\x3f\x5b\xe3\x49\xd9\xbb\xaf\x70\xfa\x67\x6b\x3c\x38\xee\x60\xf3\x61\xe6\x7a\xe4\x01\xc0\x59\x97\xbb\x2d\x6b\x77\x3e\x48\x43\x2b\x6d\xf7\x43\x86\xd6\xf1\x2a\xf2\xc8\xb2\xcd\xa6\xcb\xf6\xfe\xce\x50\x21\xe7\x64\xcd\x9e\xcb\xf9\x70\x21\x7e\xf7\x8c\x6a\xdf\x1d\xce\x3d\x27\xdd\x0b\x39\x4f\x9f\x68\x27\xd6\x7f\x36\xb3\xef\x28\x81\xd5\xe5\x81\x0b\xa1\xc4\x1e\xaa\xd6\xb6\x87\xeb\x7a\xf4\x65\xbb\xa0\xaa\x09\x3e\xe2\x70\x1d\x16\xfb\xa0\x9a\xfc\x06\x0f\x8d\x50\xbd\x54\x3a\x79\xd9\xcf\x83\x3c\x67\xe5\xda\xf4\x88\xb0\x73\x68\x0f\x91\x98\xaf\x04\x2e\x31\xe7\xc0\x46\x0d\xa2\x87\x06\xb0\x94\x02\xdb\x84\x74\x45\x89\x8c\xda\x20\xde\x03\xdd\x3c\x5c\x97\xe2\xf2\x11\x94\xd3\x8e\x3b\x72\x7d\x8c\xfe\x02\xaa\xe5\x73\x47\x07\xcd\xfa\x48\x82\xbf\x30\x2d\x84\x2b\xb4\x60\x93\x53\xce\x01\x21\x45\x54\x53\xb7\xcf\x4e\x38\x07\xe4\xcd\x3e\xf0\x31\x0a\x24\xff\xbf\xfb\x63\x14\x2d\x76\xbb\x21\xc1\xa0\x03\xba\x5e\x4e\x72\x21\x17\xbc\x39\xe5\x98\xcf\xf0\x97\x28\x7c\x83\xe0\xbb\x7a\xcf\xf6\x04\xa7\x7c\x61\xc2\x1e\x39\xe9\x1b\x7e\xb9\xeb\x15\x1c\x35\xda\x29\x78\x9f\x9a\x08\x82\xde\xd8\xc3\xf7\x16\x11\x0d\xec\x51\x7d\xff\x14\xc9\x13\x7e\xc8\x47\xec\x1e\x1f\xd9\x3e\x3d\xd2\x39\xad\xeb\x0c\x88\xdd\x09\xbd\x67\x45\x7a\x4d\x2c\xe5\x41\x1e\x22\x1f\xfd\xb9\x08\x24\x68\xa8\xdd\x3d\x64\xde\x5d\x97\x7b\x80\x1b\xbd\x36\xee\xb8\xcf\x45\x58\xfb\xff\x27\xfb\x30\xc4\x00\xca\x47\xb8\x24\x18\xf6\x49\x78\xb8\xef\x08\x77\xc3\x9b\xc6\xae\xb7\xe3\x76\xc6\x63\xd8\xf5\x3c\xe3\x31\x3c\x78\xd0\xed\xe4\x54\x9f\xf0\xb7\x93\x3f\xff\x7c\xf7\x5d\x8a\x3d\x56\xb8\xbc\x84\xe8\xbd\xa0\x7b\x6b\xef\xa3\x81\x65\x6c\xdf\x79\x17\x88\x3d\x5e\x6c\x11\xe9\xe9\xd5\xf6\x7e\xee\xe2\x58\xe7\xdb\xd7\x44\xdd\xef\x7d\xfb\xbf\x1f\xe5\xeb\x30\xf9\xe0\x7e\x17\x4c\xfd\xbc\x3d\x1e\xb8\x7b\x21\xc8\xfd\x2f\xf2\xd0\x99\x22\x2a\x6b\xe8\x14\x61\xc0\x29\xa3\xa8\xad\x45\x7f\x2e\xe7\xdb\x3e\xf9\x5c\xe3\xfa\xd3\x38\xe6\x63\x63\xa9\x43\x9d\x4c\xcb\xf2\x41\x47\xec\x16\xd2\x3b\xc2\x81\x4b\x3c\x31\xfc\xd7\x00\x87\xfd\x24\x74\x41\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xdc\x38\x76\xf0\xb3\xf4\x2b\xce\x08\x73\x91\xfa\xab\x56\xcd\xf7\x01\x5f\xb0\xe9\x41\x07\xf0\xd8\x3d\x1e\xef\x8e\xed\x5e\xbb\xbd\xf3\x60\x18\x5e\x56\x89\x55\xc5\x6d\xdd\x2c\xb2\xaa\xbb\xb6\xd2\x2f\x79\xd9\x00\x09\x10\x20\x4f\x79\x08\x16\x79\xca\x6b\x90\xe7\xfc\x9e\x9d\x60\xff\x45\x70\xc8\x43\x8a\xaa\x92\xea\xe2\x99\x0d\x36\x40\x06\xc9\x4c\x97\x44\x1e\x9e\x1b\xcf\x95\xd4\x8e\xc7\xf0\xb8\xca\x38\xcc\x79\xc9\x1b\xa6\x78\x06\x93\x35\x4c\x58\x53\x95\x29\x3c\x79\x09\x2f\x5e\xde\xc0\xd5\x93\x67\x37\x69\x38\x1e\xc3\x2b\xde\x2c\xcb\x52\x94\x73\x33\x00\xee\x44\x9e\x43\xb5\xe2\xcd\x5d\x23\x14\x07\xb5\x10\x12\x66\x22\xe7\x7a\xf0\xaf\x78\x23\x45\x55\x5e\xc0\x66\x93\xd2\xdf\x0f\x0f\xde\x0b\x78\xc2\x14\xf7\xdf\xe2\xef\x87\x87\x30\xac\xd9\xf4\x96\xcd\x39\xbe\xb9\x36\x7f\xbe\x60\x85\x7e\x33\x1e\xc3\x8d\x5d\x03\xa6\x55\xa9\x98\x28\x25\x14\x5c\x2d\xaa\x4c\x82\xaa\xa0\x60\xb7\x1c\x44\x99\x89\x95\xc8\x96\x2c\x07\x5e\x66\x75\x25\x4a\x25\x61\xd6\x54\x05\x48\xde\xac\xc4\x94\xcb\x11\xa2\xd1\xf0\x0f\x4b\x2e\x15\xb0\x32\x83\x86\xcb\xba\x2a\x25\x07\xb5\xae\xb9\x86\x84\x43\x91\xa2\x4a\xf2\x16\xca\x08\x98\x84\x3b\x9e\xe7\xf8\x5f\x5e\x4e\xab\x8c\x37\x12\x01\x20\xbc\x8c\xd3\xef\x59\xd5\xd0\x44\x0d\x6d\xa4\x1f\x30\xe4\xd4\x0c\xaa\x65\x03\x72\x59\xd7\x55\x83\x9c\x56\x0d\x2b\x25\xfe\x8d\x98\x09\x96\x8b\xdf\x32\x25\xaa\x12\xa1\xcd\xaa\xa6\x60\x4a\xa6\x61\x28\x0a\x3d\x22\x0e\x83\x68\xb2\x56\x5c\x46\x61\x10\x21\xed\xfc\x5e\xe1\x9f\x1a\x0d\x51\xce\xc7\xbf\x91\x55\x89\x0f\x66\x85\x7e\x2e\x2a\xf3\xef\xb1\xa8\x96\x4a\xe4\xf8\xa3\xe4\x6a\xbc\x50\xaa\xb6\x7f\x2f\x1b\xfd\x58\xaa\x66\x5a\x95\x2b\xfa\x53\x94\x73\x19\x85\x61\x10\xcd\x85\x5a\x2c\x27\xe9\xb4\x2a\xc6\xf3\xea\xfc\x56\xa8\x31\xfe\xbf\xe5\x45\x14\x06\xac\x5c\xd7\x13\x88\xe6\x55\x35\xcf\x79\x3a\xaf\x72\x56\xce\xd3\xaa\x99\x8f\xeb\xa6\x52\xd5\x64\x39\x1b\x6b\xfa\xc7\xb7\x65\x75\x57\x8e\xf5\xe8\x28\x0c\xb2\x65\xa3\x89\x3c\x61\x6a\x3b\x25\x0a\x03\x5e\xd4\xea\x94\x75\x69\x7c\x14\x06\x33\xc1\xf3\xac\x60\xf2\xf6\x84\xd9\xde\x9c\x28\x0c\xa4\x6a\x96\x53\x75\xc2\x74\x3b\x21\x0a\x03\x25\x0a\x2e\x15\x2b\xea\x13\xa6\x7b\x73\xa2\x30\xb8\x6b\x58\x5d\xf3\x46\x9e\x00\xa0\x9d\xb2\x2b\xd2\x46\xe4\x39\x1b\x17\xcb\xfb\xa8\xfb\xa6\xbe\x9d\x8f\x79\xd3\x54\x8d\xd6\xb4\x3d\x0b\x39\xcd\xd3\x4f\xac\xfa\xed\x99\xa0\xff\x40\x44\x36\x9b\x73\x10\x33\xe0\x1f\x20\x7d\x5c\x95\x33\x31\x4f\x6f\xdc\x4e\x88\x58\x9e\x47\x10\x95\x4c\xc9\x08\x1e\x1e\xba\xb8\xe1\xd3\x73\x51\xe9\xff\xa6\x73\xd4\x70\x04\xc5\xcb\xec\xe1\xe1\x28\xa8\xf3\xa6\x9e\x5a\xa8\x3b\x78\xea\x97\x83\x6f\xc6\x05\x57\x2c\x63\x8a\x6d\x2f\x7a\xf4\x92\x08\xbf\xdd\xf1\x03\xfb\xcb\x0d\xb0\xe8\x78\x6b\xe1\xde\x3d\x01\x00\x0e\x8f\x8e\x62\x4b\xcb\x6c\xfc\xeb\x84\x25\x70\x78\x07\xc7\x24\x0c\xc3\x15\x6b\x20\x0e\x83\xf7\x70\x09\xb3\x42\xa5\xaf\xeb\x46\x94\xca\xfc\xd6\x06\x2c\x7d\x5c\x15\x35\x6b\xb8\x79\x44\xd6\x27\x7d\xa4\x2a\x61\x9e\x74\xc8\x4c\x5f\xf0\xbb\xd7\xbc\x59\xf1\xc6\xbc\x34\xd6\x2c\x7d\x51\xd5\x8f\xf3\x4a\xb6\x4f\xd3\xc7\x55\xbd\x36\x3f\x8c\xf2\xa6\xdf\x37\xac\x0e\x83\xf1\x18\x48\x9e\x56\x0d\x8d\x8d\xc7\xa1\xda\x24\xa5\x8f\x4a\x3d\xaf\x35\x32\xe9\x13\xfa\x13\x1f\x93\xf9\x48\xaf\xf0\xbf\xf8\xc0\x6e\xe9\xf4\xb5\xfe\x03\x1f\x79\xdb\x34\xbd\xb1\x7f\xe3\x8b\x76\xfb\xe1\x68\x51\xce\x7f\xc5\xf2\xa5\xa6\xdb\xb3\x2b\xe9\x37\xf8\xf7\x73\x26\x6f\xc3\x24\x0c\xc7\x67\x47\xfd\x03\x57\xd6\x27\x81\x7d\x74\xf8\x9f\xb1\xf6\xa0\xcf\x4a\x60\xe8\x6f\x56\xbc\x19\x81\x50\x5f\x48\x58\x4a\x3e\x5b\xe6\xda\x4d\xcd\x96\xe5\x14\xb9\x20\x41\x2d\x98\x82\x92\xa3\x97\xaa\xa0\xaa\x75\x6c\x00\x15\xce\xad\x79\x73\x6e\xdd\x00\x02\x9c\x30\x29\x64\x0a\xdf\x54\x0d\xf0\x7b\x56\xd4\x39\x1f\xc1\xba\x5a\x42\x21\xe6\x0b\x05\x35\x93\xe8\x22\x3d\x84\x55\x05\xcc\x2d\x64\xd6\xa9\x9b\x2a\x5b\x4e\xb9\x44\x70\xac\xd4\x1a\x90\x7e\xcb\xca\x2c\x47\x1c\xef\x84\x5a\x00\x67\xd3\x05\x79\x7a\x88\xed\xea\x09\xdc\x89\x86\x67\xb0\xac\x11\x49\x06\xb2\xe6\x53\x31\x13\x53\xa8\x99\x5a\xa4\x10\x3f\x53\x08\x50\x48\xa8\x9b\x6a\xc2\x26\xf9\x1a\x18\x14\x42\x2a\x13\x25\x40\xc6\xa5\x98\x97\x38\x55\x94\xab\xea\x16\xdd\x3d\x07\x54\x36\x31\xe5\x2e\xaa\xd0\x28\x72\x84\xd3\x52\x60\x74\x00\x44\xcb\xc9\x34\x09\xc7\x63\xc7\xdd\x69\x2e\x78\xa9\xba\xdc\x55\x15\x4c\xab\x3c\xe7\x53\xe5\x05\x28\xf9\x1a\xa6\x55\x69\xc0\xf1\xcc\x0b\x57\x44\x89\x04\x21\x40\x29\xca\x79\x6e\x02\x13\xc3\x2b\x81\x1c\x2e\x38\xe2\xe1\xe3\x2b\x4a\xc5\x9b\x19\x9b\xf2\x21\x49\x20\x30\xb7\x58\x7f\x90\xb4\xc4\xc5\xda\xa8\x44\x07\x0b\xb8\x01\x1f\x13\x3d\xd3\xaa\x98\x88\x52\xf3\xa9\x20\x14\x3d\xc1\x8e\x28\x94\x52\xcb\xa6\x04\xa1\x90\xaf\x88\xe0\x94\xe5\x39\x6f\x30\x62\x62\x16\xd9\x34\xd4\xe4\xec\x30\x74\x13\x06\x6f\x4a\x47\x1f\xcf\x36\x9b\xd4\xce\x30\x21\x20\x59\x82\xcd\xa6\x61\xe5\x9c\xc3\xa7\x02\x2e\x2e\xc1\x8d\x79\x6e\x44\x86\x76\x6c\xb3\xf9\x54\xd0\x1c\xbb\x0a\x00\x38\x52\x53\xfb\x30\xdc\x6c\x8c\x71\x35\xd1\xa5\x7d\x2c\x0f\x2f\x81\x0a\x0c\xb1\x47\x44\x02\xde\xa2\xf1\x54\xdd\x03\x45\x69\xe8\x1a\xf0\xbf\x23\x54\x98\xb3\xcd\xe6\x69\x85\x88\xc1\xa7\x22\x7d\x65\x42\xd0\x9b\x75\x6d\x09\x4c\x20\xde\x1a\x61\x02\x53\x6f\xc8\xc8\x18\xb8\x04\x36\x61\x60\xe3\x56\xfd\x0c\x11\xe5\x69\x0f\xe5\x88\x0c\x2e\x9e\x84\x01\x3a\xab\xa6\x81\x4f\x2e\xa1\x14\x39\x42\x08\x48\x5e\xa5\xc8\x35\x90\x30\x78\x08\xed\x33\x0b\x3d\x3d\x88\x53\x32\x42\x78\xe1\x83\x63\x27\x32\xf3\x39\xbb\xf5\xd8\x13\x6e\x36\x7a\x23\x7f\xaa\x38\x22\x9a\x3e\xe0\xe0\x73\xf0\xb9\xfc\xa9\xe2\x43\x8c\x46\x58\x7d\x94\x49\x64\xba\xe2\xbd\x6a\x92\xec\x8a\x1b\x36\x8e\x38\x94\x5f\xbf\x94\x6c\x62\xe0\x76\xd4\xe6\x21\x81\xd8\x32\xc3\x7f\xac\x39\xe6\x89\x23\x68\xf8\x07\x24\x84\x20\xa4\xf1\x21\x69\x87\x41\xb0\x72\xb2\x93\xbe\xec\x10\x35\x8d\x4a\x12\x06\x3d\x52\xdb\x15\x1b\xca\xcd\x3e\x5d\x19\x71\x04\xa8\xd6\xad\x6f\xf6\x65\x83\xce\xf1\x51\x9e\x5f\xdd\x4f\x79\xad\xb4\x9f\x92\xc6\xc4\x3a\x4e\x69\x0f\x85\x29\x0b\xed\x4d\xfb\x42\x82\x16\x23\x43\x28\x5e\x4c\xe0\x58\xfd\x5c\x64\x59\xce\xef\x58\x63\xb2\xc0\x37\xd2\xe6\x85\x98\x04\xd5\x75\xbe\x46\x13\x83\x66\x53\x21\xf0\xc2\x8d\xd6\x59\x17\x5f\xf1\x66\xed\xc4\x86\xfb\x05\x2d\x08\xa5\x6d\x1a\xde\xcb\x1a\xbd\x06\xcb\xf3\xf5\xc8\x8d\x93\x30\x65\x25\x4c\xb8\xf6\x35\x3c\xc3\x69\x93\x35\x94\xc8\x76\x55\xe1\x73\x7e\x3f\xcd\x97\x19\xcf\x4c\x16\x38\xe1\x88\x02\xd2\x5c\xf3\x2c\xdd\xe1\x46\xdc\xe2\x34\x82\xe8\xb5\x62\x6a\x29\xa3\x11\x44\xd7\xa2\x9c\x47\x89\xdb\xf7\x67\x8e\x21\xc9\xe0\x7c\x87\xa1\xc7\x95\x51\x8b\x4d\x9a\xa6\x52\x87\x05\x5a\x79\x44\x49\x8f\x2f\x2e\xa1\x60\xf5\x5b\xf3\xea\x9d\x61\xff\xe6\x01\xd5\x6b\x7b\xc3\xf4\xec\x96\x20\x08\x22\x4f\x8d\xa2\x0b\xd8\x3c\x8c\xc2\xc0\x0f\x23\x1f\xc2\x30\x40\x5f\xff\x1e\x51\x41\x30\x06\xa4\x43\x0b\x57\x12\x33\x78\x3f\x82\xea\x16\x5f\x5b\xc4\xde\xf2\xfb\x77\x5f\xc1\x27\xd5\x2d\x62\x1b\x04\x35\x2b\xc5\x34\x6e\x23\xbc\x59\x1c\x5d\x59\x10\x96\x6e\xf8\xe2\x33\xf9\x05\x64\x15\x97\x50\x56\x0a\xf8\xbd\x90\xea\x2b\x90\x9c\xfb\x82\x77\x39\xa5\x0e\xe9\x11\xa9\x24\x21\x7d\xce\x78\xce\x15\x8f\x2d\x06\xfa\x9d\x21\xe0\x28\x56\xf4\x52\xd1\x61\xcf\xbb\xaf\xc0\xd2\xd3\x6b\x3a\xe1\xd2\xc3\x34\xee\x1d\x42\xb8\xb6\x0c\x36\x3b\xec\x3b\x36\xe1\x39\xcf\x5a\xc1\x9b\x6a\xc9\x9c\x2b\xab\xa6\xa8\xda\x8e\x51\x5a\x5b\xef\x16\xbc\x74\x6f\x2b\x4f\x33\x09\x98\x51\xb0\x91\xd9\x50\xa4\xf3\x4b\x33\x18\x4c\x09\x86\x99\x3a\x8e\x98\x62\xfc\xd2\x88\xa9\x8e\xa8\x5a\x0a\xe0\x6e\x21\xa6\x0b\xbd\x5d\x24\x2f\xfb\x50\x20\xa7\x4d\xb3\x6d\xc8\x52\x35\xe4\xb2\x77\xa9\xc2\xfd\x10\x1b\x5d\x1d\xed\x1a\xdc\x1e\x1b\x1c\x0e\xd1\xf5\xd1\x66\x68\x07\xa9\x11\xd1\xa9\x39\xde\xf0\x29\x17\x2b\xb4\x42\xdc\x90\x58\xcd\x3a\x74\xa7\xf0\x9a\x73\x07\xc6\x83\xa2\x5f\xd8\x98\x93\x10\xbe\xba\x47\x44\x71\xf7\x64\x5c\x31\x91\x4b\x0c\x89\xed\xce\x41\x20\x36\xae\x65\xb9\x50\xeb\x74\x9f\xb5\xe8\xd0\x1e\x17\x3f\x82\xa3\xff\x6b\x52\xfe\xe7\x9a\x94\xce\xd4\x11\x1c\x6b\x61\x8e\x2f\x3b\x1c\x9b\x50\x3e\x7d\x75\xfd\x18\x09\xe6\xcd\xc9\x19\x25\x06\x67\xde\x74\x2c\xc2\xca\xd6\xc5\x3b\x51\x00\x5b\x31\x91\xb3\x49\xce\x4d\x32\x30\x7f\x75\xfd\x18\x06\x42\x7c\xda\x39\x5d\xc8\x2e\xef\x93\xad\x19\x18\x41\xa5\x23\x02\x89\xaa\xdf\xa9\xb0\x68\x4d\xe6\x8d\x09\x18\x92\xa1\x85\xd0\x97\x49\x6f\xa0\x44\xc1\xbe\x7d\x37\x0c\x09\x05\xdb\xf7\xf6\x6b\x3e\xab\x1a\x1e\x23\xb6\xcf\xa9\x52\x74\x53\x51\x4c\x99\x8c\x70\x8b\x6c\xad\x73\x89\xe1\x10\x2f\xb3\xb8\xf3\xd8\xd1\x93\xa6\x69\xa2\xcb\x17\x9b\x0d\xdc\x54\xdf\x55\x77\xbc\x69\x35\x12\x59\x85\xc2\xb5\x01\xdf\xe7\x88\x11\xbe\xe4\xcd\x06\x7d\xe3\x41\x35\xc6\xf1\x9e\xa6\x5d\x40\x97\x24\x57\x74\x89\x71\xf7\x3b\xb6\xf7\x29\x27\x06\x17\xc1\x13\x5d\xfb\x46\xda\xbd\x11\x14\xef\xea\x01\x57\x65\xef\x00\xca\x5e\x70\x44\x87\x0b\x69\x9a\xe2\xb4\x64\xe4\x6b\x7d\x60\x5d\x6b\x4b\xec\x76\x32\xec\xc2\xed\x7e\x59\xbb\xd0\xdd\x38\x33\x0f\xce\x4f\x9e\x80\x6e\x31\x18\x60\x8b\xc3\x54\xdd\xf0\xc2\x73\x4a\x9a\xa8\xec\x80\xd6\xd4\xc3\x4f\x55\x2d\xa9\xc7\x53\x79\x10\x4d\xbd\xc9\x62\x09\x67\xed\x52\x49\x0b\xfe\x40\x36\x8b\xc9\xce\x4f\x9b\xce\xbe\xc7\x8c\xa7\xf6\x12\xa2\x2d\x2e\x6a\x0a\xb4\x16\xf9\xe9\xd1\x89\x39\x6d\xfd\x91\xe9\x2c\x71\xd7\xa8\xfa\x61\xd6\x8e\xc7\xb0\x6f\x57\x80\x40\x13\xe8\xf4\x41\x57\x7b\x53\x33\x81\x46\x7c\x83\xb2\xd1\x15\x1f\xec\xce\xf0\x46\x49\x53\x10\x22\xb3\x69\x6d\x82\x03\xec\xf2\x56\x2c\xcb\x60\xd5\xa9\x39\xcf\xaa\x82\x89\x72\xdf\xe0\x14\xae\x1b\x51\xb0\x46\xe4\x6b\x5b\xa8\xf2\xab\x5a\xc6\x0a\xef\xa3\x23\x7e\xbf\xab\x18\x48\xcb\x2b\xfe\xa1\x55\x44\x9d\x40\x7b\xbf\xba\x25\x0c\x9d\x32\xd3\x9c\x63\x52\x66\x27\xc9\x0f\x7b\xc4\x74\x55\x1e\x2d\xa6\xbd\xb6\xa9\x57\x4e\x66\x86\x1d\x32\x24\xa8\xc3\x22\xa0\x25\xb4\xc0\xf6\x88\xb5\xce\xd7\x47\xc9\x69\x2f\x21\x7d\x82\xea\xab\x69\xec\x93\x94\xac\x51\x54\x76\xd6\x11\xfb\xc8\x13\x96\xac\xfb\xa4\xf5\x2d\xcf\xb1\x40\x1e\x1a\x45\xeb\x75\x9e\xfd\xc6\xa7\xc8\xc0\x36\x64\xd2\xe7\x4f\x92\xed\x01\x88\x2f\x9a\xd0\xdb\x11\xac\xda\x78\xb4\x70\x91\xe8\xaa\x53\x4c\xd1\x7d\x65\x0e\xb7\x7c\xad\xc5\x9d\x61\xc8\x3a\xa9\xd4\x02\x79\x6c\x57\xa1\x8e\x2c\xc4\xb7\x09\x65\x17\x38\x34\xcf\x21\x47\x79\x11\x14\x46\x39\x95\x2e\x9c\x3e\x66\x65\x55\x8a\x29\xcb\xbf\xe5\x2c\xe3\xcd\x2f\xf8\xda\xa6\x1e\xb8\x90\xac\xa8\x9c\xab\x28\x93\xb3\x20\xa6\x53\x6e\xab\x18\x5c\xa8\x05\x6f\x68\x65\x7c\x8f\xac\xb8\x74\xb4\x7e\x2f\xd4\x42\x77\x14\x90\x45\x23\x4d\xeb\xdb\x2f\xdf\x25\x07\x07\x0e\x60\x17\xdf\x26\x2d\x04\x0a\xea\x49\x7c\x53\x75\xaf\x7d\xaf\x8d\xfb\xf6\xff\xa3\xe5\x68\x6a\xc6\x27\xc7\x92\x2f\xf8\x9d\x37\xdb\x2c\xaf\xfb\x07\x54\x04\x82\x09\x9b\xde\xa2\x78\xd6\x76\xcf\x98\x62\x3b\xd2\x5a\x72\xdd\xbb\x48\xe1\x99\x42\x39\x52\xd9\x9e\xd4\x55\x4c\x04\xa6\x64\x56\x04\x54\x95\x56\x15\x64\x82\xe5\xa6\x74\x9d\x33\xc5\x1b\x98\x62\x5f\x09\x73\x6c\xee\xc3\x34\x0a\xda\xc1\x2e\xc6\xd7\xc6\x75\xa6\x06\xdf\xc7\x55\x59\xee\x09\x48\xcd\x20\x1b\x90\xc6\x03\x11\xa9\xbf\xe5\x30\x3a\xd8\xae\x9a\x06\xbb\x49\x9b\x5f\x01\x6d\x4d\x5b\xb0\x62\x8d\x4b\x9b\x3c\x8b\xb0\x9b\x40\x86\x01\x6e\x83\xbe\xa1\x97\xbb\x81\x21\x11\xaf\xb5\x0c\xe9\xb5\xf9\xa1\x87\x03\x4a\xd0\xa6\x34\x6d\xfa\xb8\xfd\xf4\xaa\x3c\x10\x34\x3e\xe1\x87\x82\xc6\x03\xf6\xc7\x94\xbe\x82\x36\xa2\xc6\x9f\x89\x23\x3b\xd6\x89\x9f\xe6\x27\x45\x98\xce\x34\x59\xbb\x65\x87\xca\x83\x61\x35\x9c\xeb\xc0\xda\xc3\xd4\xce\xbd\xf0\x3b\x0f\xde\xfb\x51\xbb\x5e\xf0\x60\x8d\x23\x1a\x45\xa4\x18\x68\x07\xfc\xf8\x70\x63\x8f\x1f\x7b\xc2\x8f\xf1\x63\xfb\x3d\xd3\xb1\xe1\x06\xf9\x8c\x01\x3f\x66\x36\x31\xed\xb2\x27\xfc\x44\x3f\x86\xc4\xbc\xd2\xc8\x1c\xe9\xc8\x70\xa8\x0b\x3a\xd0\xbd\x9e\xe4\xca\xea\x7c\xdd\xe7\xcb\x7c\xb1\xfd\xf8\xf0\x63\x38\x4a\xbc\x2a\x8f\x88\x12\x0f\x0b\xc4\x0b\x16\xf7\x48\x78\x6f\x94\xd8\x91\xda\x3e\x3a\xfa\x83\x0f\x22\xf1\x38\x91\x9d\xda\x58\xd9\x1f\x25\x12\x16\xda\x7b\xca\x9b\xca\x0f\x3c\xcc\x4e\xe9\xb3\xdc\xb4\x0e\xee\x13\xa3\xa8\x7b\xa0\xc4\xb7\x7c\x2d\xe1\xed\x3b\x5b\x8d\x3b\x00\xef\xa8\xc6\x54\x91\xc1\xd9\xa1\xa0\x47\x1b\xfd\x9a\x89\xa6\x5d\x3c\x0c\x6c\x6d\xee\xb6\x0d\x85\x34\x7a\x68\xf5\xb1\xb9\xb4\xb2\x15\xad\xa9\xba\x4f\x35\x4f\xe2\xdb\x24\xa5\x1a\x64\xd2\xd6\xb3\x02\x03\xd8\x55\x2e\xf4\x4f\x13\x78\x60\xcc\xa0\x8d\x29\x1a\x4f\x84\xa9\xdf\x75\xa2\xac\xb3\x22\xc3\xda\x97\x25\xe0\xe7\x95\x28\xe3\xb3\x22\x1b\xb5\x8f\xae\x71\x4e\xac\x67\x62\xf9\x23\xb1\xe0\x88\x33\x18\x85\x50\x4f\xcb\x48\xf2\xd8\xda\xd6\xb7\x37\x37\xd7\x94\x17\xd8\x67\x87\xff\x19\x87\xa1\x6e\x97\x1b\x2e\x97\x5a\xbd\xe0\x12\x22\x56\xd7\xb9\x98\xea\x03\x22\xfa\xcc\xdd\x57\x30\x5d\xb0\x46\x72\x75\xb9\x54\xb3\xf3\x9f\x45\xae\x24\x86\xab\x52\x9a\x4f\x5d\x71\x54\xac\x05\x3d\xd1\x7b\xf6\x70\xa9\x0c\x81\x55\x25\xd4\x0d\xcf\xf8\x4c\x94\x3c\xd3\x67\x1b\x24\xed\xb9\xad\x65\x0e\x16\xc8\xba\x47\x6b\xba\x05\x32\xff\xd0\x85\x8d\x3d\xc4\x0c\x52\x0d\x5f\x87\xe9\x9e\xdd\xda\xaa\xd7\xa0\xee\xbc\x7d\x37\x0c\x5d\xcb\xbf\xef\x35\x55\xcd\xcc\x1a\x18\x87\xca\x4e\xd1\xac\x7f\xd2\x15\x5a\x72\x63\x6e\x9a\x98\x7b\x3f\x86\xa7\x3c\x9a\x29\xde\xc4\xdb\x6f\xd4\xe3\x56\xb4\xb1\x27\xe6\x44\x03\xda\xa5\xf2\xa8\x92\x1d\x55\x74\x74\x79\xae\x40\xc6\x14\xcb\x7b\x8c\x9b\x5e\x55\x4b\xc4\x21\x09\xbd\x48\x82\x9a\x0b\x17\x97\x83\x6c\x76\x43\x27\x78\x62\xa3\x9c\x23\x40\x9a\x96\x7e\x6d\x1e\x51\x8d\xbe\xb0\xf3\x62\x0c\xb7\x68\x38\x9e\xad\x9d\xc0\x5f\xc3\x4d\xf5\x06\xcf\x0e\x3e\x3c\x44\x49\x7a\xcd\xd4\xa2\x33\x06\x1f\xdc\xf0\xa2\xc6\xf8\x57\x8f\xb0\xea\x34\x70\x12\x4b\x17\x05\xbb\x55\x41\xc2\xa8\xa7\x34\x48\xb5\x41\x24\xcf\x5b\x52\x37\x3f\x9c\x7b\x30\x03\x8d\x44\x71\xe0\x53\xd3\xc3\xb2\x6e\xd8\xbc\xee\x2b\x10\x06\xba\xac\xdf\xd6\xd0\xfc\x3f\xc9\x68\x14\x14\x54\xf9\x4a\x63\x9a\x65\x3a\x43\x30\x61\x81\x6d\x7b\xd9\x15\xbf\xc7\xf7\xcd\x08\xb3\x8c\x8c\xcf\xd8\x32\x57\xe8\xed\x8c\x82\xe0\x8e\xd4\xe5\xc3\x6a\x06\xdb\xb6\x60\x04\x0c\x26\x55\xa6\x13\x3d\xb4\x0d\xa6\x49\x85\xe9\x5e\xa4\xd7\x89\x5c\x86\xb8\x42\x2b\x8b\xa0\xf4\xf3\x54\x63\x17\x27\x26\x0f\x61\x20\x75\xd7\x19\x90\x1f\x08\xea\xff\x7f\xf9\x65\x0a\xcf\xa8\x6d\x85\x23\xfd\xba\xa7\xd9\x37\xbc\xd1\x87\x9a\x71\x44\xdd\x54\x2b\x81\x29\xec\x42\xbf\xc1\x86\x7d\x9e\x63\x1b\x5c\x63\x6b\xba\x85\x38\xae\x8d\xc9\x7c\xd0\x08\xc5\x83\x8e\x54\xa4\xcf\x59\x23\x17\x4c\x1f\xc6\xb2\xf8\x17\xe6\x11\x76\xd2\xe5\x72\x3a\xe5\x3c\x93\x26\x67\xfa\xf9\xeb\x97\x2f\xe8\x6c\x74\x66\x0f\x32\xdb\xa4\x4b\xd3\xea\xd0\xc1\xce\xe5\x30\x59\xa6\xf1\x8e\x47\xd3\x9b\x91\x4d\xe5\x1c\x65\xed\xcb\x0e\x34\x10\xa5\x54\x9c\x65\x96\x67\xc6\x48\xfa\x16\xa2\x2f\x10\x71\x67\x38\x46\x70\x67\x8e\x9e\x75\xd5\x40\xc7\x8c\x28\xd5\x11\xbc\xc7\xed\xe7\xb3\xc4\x98\x1f\x6c\x0e\xd6\xbc\xd9\x68\x29\x5e\x20\x2d\x56\xa0\x18\x89\x88\x99\xe5\x16\x32\xd0\x38\x5a\x1c\x12\x77\x79\xdb\xfa\x59\x31\x03\x7c\xf5\xb5\x5e\x92\xa6\x5e\x99\x92\xa8\x03\x64\xe7\x21\xbb\xe3\xe4\x2b\xbb\x02\x0e\xbb\xf4\x7c\x2e\xa2\x0d\x97\x0e\x9c\x4d\xec\x83\xbb\xd4\xa8\x4d\x9c\xa4\xaf\xb9\x8a\x23\x32\x84\xe7\x37\xeb\x9a\x47\x23\xdf\xe5\x19\x02\x16\x56\xc9\x7c\xfc\xbb\xe6\xc1\xea\x61\x4b\x87\x2d\xc0\xc8\x36\xec\xb0\x70\x68\xb4\x8c\x35\x73\x03\x1f\x9f\x27\x3c\x8f\x6f\x71\x5b\xdb\xa8\xc5\x2b\xe0\xac\x28\x66\xf1\xc7\x3f\xca\xb2\x78\x2b\x02\xc1\xff\xd3\x7b\xe7\xc2\x9c\x26\x4d\x8d\xbe\x3c\xc3\xd8\xb2\x64\xb9\xe7\x45\x34\x71\x72\xba\x87\x2c\x4f\x0f\x5b\xca\x34\xf0\x4b\x90\x53\x82\x8c\xaf\x29\x9b\xbc\x4b\xb5\xd6\x10\x7a\x38\x30\x71\x0f\x63\x14\x47\x82\x06\xa9\x55\x4c\x63\x1e\x9b\x78\xb2\x9c\xc1\xdb\x77\x78\x40\x36\xa1\xcd\xb0\x09\x75\x30\x77\x07\xbe\x8e\xb9\x72\xb7\x55\xc4\x37\x25\x89\x1e\x21\x8c\xe0\xf3\xbb\xe4\xab\xed\x72\xb8\x09\x63\xa4\xf8\x2d\x87\x4b\xf8\xd9\xff\xfd\xcb\xbf\x30\x3a\x96\xf3\x12\xe7\x24\xf0\x57\xe6\x1d\x0e\x0d\x10\x8d\x4b\x98\x2c\x67\x6f\x2f\xf0\xe1\x3b\xf2\x83\x64\x4c\xf1\xb4\x87\xe6\xdb\x2c\x8e\xac\xf9\x00\x24\x4a\x1f\xf4\xb8\xc0\x4a\x16\x36\x65\x6b\x8c\x87\xa0\xac\xca\x73\x54\x3c\x17\xe9\xe3\xc0\x68\x84\xc0\xa9\xe3\x4a\x50\xe9\xc0\xee\x0b\x7e\x17\xdf\x99\x8d\xa3\x79\xa4\x8d\xac\x4f\xbb\x3d\x03\xb0\x09\x03\x3d\x0a\x7f\xa3\x01\xfa\x35\xae\x72\x41\x16\xf6\xd7\x64\xef\x51\xee\x34\x8a\x29\x21\x67\x02\xef\x75\x2c\xb8\x33\x97\xda\xd2\x7a\xc2\x6d\xf3\x10\x09\x42\x5f\xc1\xb0\xf7\x50\x8e\x39\x67\x9d\x9a\x8e\x92\xb7\xa8\x43\x55\xa3\x85\x77\x07\xec\x52\xb8\x52\x18\x58\xe3\x0c\xe0\xb7\xe6\x5d\xcc\x6e\x75\x24\x5e\xb4\x40\x13\xcf\x28\xc6\x09\x74\xcf\xb3\x2d\xd2\x76\x85\x81\xd9\xed\x9e\xc3\x87\xb4\x83\x3a\x20\x08\xa9\xb0\x53\x4a\xdf\x2e\x41\x1c\x0c\x5a\xbc\xf2\xd4\x81\xa8\xc5\x55\x2d\xf6\x86\x07\xdb\x59\xb0\xc6\xbe\xbf\x57\xa2\x3b\xa6\xe6\x26\x0e\xce\x41\xeb\x78\x4e\xce\xc8\x4f\x70\xed\x3a\xd7\xac\xe1\xa5\xa2\xa4\xd1\xe9\xa9\x3e\x25\x86\xfe\x0a\xb1\xb2\x4f\x35\x64\xd4\xe0\x43\xa5\xf8\xc0\xab\x61\xec\x25\xab\x37\x29\x86\x33\xf2\x40\x7a\xc8\x70\x42\x1c\x64\x7c\xc6\x1b\x68\x52\x34\xeb\xe9\x63\xac\x59\xa2\x01\xd2\x16\x03\x93\xe5\x36\x3f\xde\xa2\x95\x20\xa3\x69\xc7\x28\x09\x37\xbc\x6b\xb8\xd1\xe1\xfa\x57\x9c\x65\x8f\xf2\x3c\x36\xc0\x8f\x3b\x80\x68\x4f\xdc\xcf\xd0\x23\x8e\x20\x22\x4b\xd0\xa0\x37\xb6\x11\x11\x52\x66\xd9\x19\x51\x91\x79\xcb\x10\x7d\xa9\x69\x0b\x96\xd6\xa8\x61\xee\x74\x71\x09\xee\x86\x49\x6b\xee\x28\x10\xd4\xc3\x83\x47\x79\x5e\xdd\x5d\xb3\x46\x09\x96\x63\xb9\x4d\x35\x4b\x8a\x1a\x9f\x08\x39\x65\x4d\xf6\xa6\xd4\xb7\x81\x2e\xda\x37\x0f\x94\xfb\x22\xe9\x97\xe0\x2f\xb8\x63\x52\xb1\xcd\xb8\x63\x54\xfb\xcd\xea\xb0\x61\xed\x35\xad\x84\x46\x87\x99\x6e\xc3\x6e\x7a\xd8\x4a\xdc\xfb\x28\x9b\x6b\x18\x12\x78\x0e\xf1\x6b\x96\x91\x3a\xd0\x3b\x44\xa0\x45\xcb\xa5\xf3\x98\x72\x5e\xb3\x86\x15\xd2\xe6\x33\xbf\x62\x8d\x8c\x1b\x94\x21\xde\xb8\x68\xdf\x63\xf2\xff\x61\xc9\x9b\x75\x3b\xbc\x49\xdf\xbc\xfa\x2e\xfd\x25\x3e\x8c\xed\x04\x6f\x48\xe8\x27\x39\xe6\xd0\xe9\xc5\x65\xab\xb5\xfa\x72\x04\x65\x38\xfa\xd0\x4b\x69\x87\xa5\xdf\x55\x26\xf2\x86\x48\x13\x69\xc6\x04\x9b\x0d\xbd\x7e\xca\x4b\xbd\xa8\x93\x26\xa6\x3f\x9d\x6a\xaf\xfb\x6b\x3f\x0a\x2f\x4b\x5e\xcd\x76\xf0\xe0\x1f\x76\xf1\xd0\x64\xfd\x18\x44\xdc\xb6\xfa\xbc\xe1\x1f\xda\xde\x35\x65\x35\xba\xc4\x6c\x87\xb6\xa5\xc3\x9e\x8c\xa9\xd7\x62\x0e\x75\x2d\x8d\x7d\x94\x36\x7d\x70\x7e\x9d\x49\x6d\x3f\xb7\xd3\x05\x93\x3c\x35\x27\x74\x24\x7b\x10\xec\xb3\x7d\xbd\xc1\xf7\x50\x93\xd2\x85\x48\x43\x86\xe2\xf9\x8e\x99\xd8\x36\x12\xce\x16\xbc\x91\xfc\x1a\x0d\x0c\xda\x4b\xe9\x9b\x8f\x37\x92\x5f\x95\xcb\xe2\xc5\xb2\x98\xf0\x46\x5e\xb4\x2f\xae\x0a\xa1\xde\x94\x75\x55\x2f\x31\x67\xce\x9c\x59\x79\x08\x3b\xf6\xb4\xc5\xcd\xa2\xe3\x8e\x91\xa7\xb1\x46\x35\x7d\xce\xa5\x64\x73\x9e\xec\x3b\xc7\x60\xd5\xe0\xfd\x88\xac\x95\x0b\x27\x75\x24\xe5\x8d\xf2\x9b\xaa\xee\x28\xa2\xa4\x60\xa0\xaf\xc8\xd2\x5f\x68\xdc\xf1\x42\x43\xdd\xd5\x36\x32\xb7\x11\xbd\x36\x76\xfb\xfa\xa9\x08\x78\xb7\x97\xba\x60\x12\x16\x2c\x33\x73\x87\xba\xa7\xba\x67\x97\xe1\x89\x4b\x81\x65\xe3\x56\xbf\xfd\x6b\xb9\x6a\xc1\x0d\x14\x13\x48\xc9\xd4\x3a\x7d\xd7\xb4\x45\x65\xc6\x72\xac\xab\x3b\x5a\x74\x28\x4b\xc5\x74\x5d\x56\x06\x48\xb7\x45\xbb\xb7\x39\xbb\xb7\xe5\x7a\x3b\x72\x1c\x4a\x9f\x72\x15\xdf\xa2\xc0\xf7\x77\x69\xb7\xf0\x8f\x6f\x93\x3e\x18\x68\x9f\x91\xdd\xcb\x92\xb7\xd7\x9f\xa6\x0b\xb4\x65\xa9\x7e\xc3\x72\x59\x01\xcb\x32\xda\xc3\xda\xda\xc3\xb2\xc9\xc3\xfd\xab\x47\x34\xf4\x1c\x2f\x09\x8f\xc8\x88\x5f\x33\xb5\x48\x0e\x4d\x74\x52\xc1\x43\xf3\xa8\x73\x68\x44\xa2\xe4\xa3\x9b\xc9\x08\x82\xba\x2a\xf6\xd9\x09\xcd\x64\x6f\x76\x5b\x83\xed\xe9\x25\x97\x80\x23\xc9\x7a\x41\x2e\x56\x18\xb5\x32\x45\x5c\x2b\x2a\xa5\x0b\x10\x58\x5f\x60\x25\xde\xb1\xfa\x1e\x0f\xcc\xd7\xe6\x36\x97\x79\x86\x76\x72\x5a\x15\xdc\x5c\x32\x68\x17\xc9\x84\x9c\xe2\x1d\xf9\x35\xc8\xb5\x54\xbc\x18\x81\xd4\x47\xbb\x73\x71\xcb\xf3\xb5\x55\x3a\x54\x23\x88\x16\x95\x54\x17\xa8\xd1\x11\x19\xd0\x0e\x05\xb1\x5b\xca\x9e\x0e\x1e\x2c\xed\x9e\xde\x6a\x16\x33\xf8\xc4\xaa\xdc\xb7\x4c\x5e\x37\x7c\x26\xee\xdd\x8a\x23\x88\x70\x57\x46\x26\x5d\x77\x78\x5c\x9a\xc7\x17\xe3\x71\x04\xff\xc7\x71\x02\xb5\x32\x58\x3a\x2b\xb8\x6c\xf2\xf4\x1a\xa3\x13\x07\xed\xe8\x43\x5b\x18\x5c\x2c\x43\xba\x65\x8b\x99\x65\x4f\xc6\x41\x8d\x57\x73\x1d\x21\x7a\x51\x19\x41\x7a\xf5\x6f\x73\x5a\x5e\x33\xc4\x54\x8b\x10\xd0\x5d\xd5\xdc\x8e\xc0\xd4\xd4\x81\x3c\x3d\x26\x7e\x78\x5f\xae\x31\xf1\xa6\x79\x2b\x90\x85\x51\x5b\xd7\xd5\xe1\xc2\xf1\xb9\x50\xb0\xd9\xe0\xed\xdb\xed\xe4\x87\x90\xc6\xb7\xba\x44\x68\x83\x0d\x34\xa8\xa2\xcc\xf8\xfd\xee\x8c\x2f\xed\x1c\x1d\xe3\xef\x66\x15\x96\xe2\xbe\xf6\x3e\x06\x1b\xfa\xdf\xc1\x9e\x79\x3d\x37\x6f\xbd\x5e\x3f\xb5\xf1\x07\xeb\xca\x14\x41\x06\xd3\xaa\x5e\xbf\x79\xf5\x5d\xbc\x1c\x81\x3f\xfe\x6b\x26\x39\x9a\x0f\xac\x2f\xdb\xa1\x6d\x74\xb0\x8b\x55\x37\x2e\xed\x16\x91\x89\x33\x3d\xe7\x01\x76\x9a\xfd\xc1\x76\xbf\xdf\xc6\xb6\xad\x34\x3b\x7f\xb7\x7f\x3a\x73\xd5\x7b\x04\x60\xaf\xdc\xe1\xfc\x4f\x25\xf9\xa1\x4a\x3b\x06\x2d\x7b\x54\x82\xce\x4a\xec\xa5\xd7\x3b\x82\xa0\x2d\x8f\x95\xe3\x84\x49\x0e\x67\xb8\x87\xdf\xbc\xfa\x6e\xa4\xbb\x4f\xe4\x9a\x12\xf7\x18\xf7\x6f\x89\x71\xc1\xc5\x25\x9c\xe1\x04\xf3\x53\x77\x1a\x28\x3d\x70\xec\xfc\x1c\xdf\x50\x81\xe1\xb1\xba\xb7\xbd\xd3\xd7\x18\xdf\x4e\xf5\x61\xf6\x65\x43\xa5\x1a\x54\x47\xbb\x71\x55\x05\xf5\x32\xcf\xf5\x73\xf2\x73\x3c\xc3\x08\x43\x42\xb5\x44\xd7\x6d\xc3\x57\x72\x4b\xba\xbc\x43\x6e\xaf\xb0\x21\xac\x9f\x80\x62\xac\x40\xe5\x8e\x14\xe0\x45\xa5\xe8\x7a\x2d\x82\x44\x58\xda\x52\x2c\xd8\x8a\x83\xfd\x6c\xc6\xfe\x90\x44\xaf\x33\xd1\xed\x2c\xba\x61\xa6\x6f\xd8\xa0\xe5\xb7\xa8\xe1\x65\x65\x6a\x00\x30\x7b\x42\x49\xc7\x1e\x48\xd5\xda\x55\xb2\x5d\xef\xcf\xbf\xff\xc6\x1b\xe7\x70\xa9\xf7\xdc\xe5\x9d\xe9\x37\x7b\xd7\x3f\x86\xfd\x81\x5f\xf1\xe9\x19\x44\x2d\xb9\x3d\xf7\x23\x8f\x88\x0e\x7f\xb2\x8e\xb3\x8b\x78\xb0\x4c\xbd\x5d\xe6\xb5\x64\x98\xc6\x70\x82\x5a\x85\xbc\x46\x8b\x32\x74\x7e\xe6\xa0\xc1\xde\x2e\x49\xf5\x1a\x9b\xbd\x15\xa9\xed\xfc\x8a\xca\x51\x26\x1a\xdb\x2e\x49\xd9\x2a\x0d\x2d\x63\x67\x9b\xf2\x4c\x9b\xfb\x6c\x97\xa4\xe8\x31\x26\xbe\x26\xcc\xa3\x36\x8a\x7b\x83\x01\x35\xd3\xe5\x80\xff\xf7\xe5\x97\x7e\x3f\x69\x04\x77\xd4\x34\xd1\x05\xcf\xba\xe1\x18\xe4\x30\xbd\x1f\x58\xa9\x61\xe9\xa0\x40\x2b\x2a\x53\x0a\x3f\x80\x80\xfb\xc7\x50\xe1\xef\x3f\x2a\x60\x43\x61\x52\x98\x16\x47\x8b\xc4\xc1\x92\x99\x3d\x3f\xd2\x53\x32\xeb\x65\xfb\xfe\x8a\x99\x59\xf4\xf4\x92\xd9\x29\x15\xb0\x4b\x1c\x92\x5e\xbd\xfc\x66\xb0\x08\x86\x55\xec\xb6\x36\x8e\x8a\xa1\x59\x00\xc8\xc7\xb5\x5f\xf5\xda\x0a\x7f\xfa\x60\x61\x41\xad\xa7\x9e\xe6\x80\x12\x38\x03\xaf\xf1\x7a\x11\xf0\x49\xa7\xf1\xf1\xf2\x17\x7b\x97\x98\xc5\xdb\x9d\x88\x64\x04\x91\xa7\x33\x17\xf0\xc5\x67\xd9\x17\xd1\xa8\xb3\x86\x5b\x1b\xc3\x11\x24\xf8\x90\x36\x87\x27\xd7\xf5\x06\xcb\x7a\x43\x55\xbd\x87\xf0\xf8\x9a\x9e\xac\x93\xaf\x0e\x0b\xc1\x67\x8a\x25\x98\x06\x7d\xde\x1e\x6a\x0e\xba\x75\x19\xdf\x00\x5d\x95\x27\x1a\x20\x37\xd2\x0b\x0c\x76\x42\x82\x73\x32\x55\x47\x84\x50\x7b\x6b\x41\xae\x7a\x1e\xba\x6c\x97\xca\x41\xc0\x8e\x2f\x98\xeb\x4f\x41\xe0\xce\x5f\xb1\x46\x54\x4b\x09\xe8\x4e\x30\x0a\x43\xbf\x1c\x8c\xc7\xbb\xce\x37\xc6\x38\x62\x04\xba\x60\x66\x9a\xde\xb8\x49\x12\x6b\x0a\x8e\x20\x6b\xbf\x2d\xd0\x43\x06\xce\x98\xb9\xd2\x11\x7e\xcf\x69\xc5\x72\x94\x45\x14\x51\x65\xd2\x3c\xda\x7f\x95\x7f\x8b\x19\xb4\x9a\x51\x72\x5b\xe1\x6c\xf8\x87\x30\xdc\x72\x5f\x83\xa9\xf1\xf6\xb8\xe1\xdc\xdb\x54\x25\x5e\x6b\x9b\x8d\xf7\xdd\xd5\x02\x0b\xbf\xac\xe0\x0a\xdb\x36\x78\x29\x5b\x2d\x10\x6d\x9b\xc9\xe9\x43\x56\xb6\xa9\xb4\x75\xdf\x53\x72\x5d\x1e\xea\xd4\x3a\x71\x95\xd7\xe6\xb9\x2b\x76\xda\x81\x0f\xdb\xb7\x3e\x31\x64\x8c\xc6\x1a\x7f\x92\xb1\x3e\xd5\x20\x01\x6f\xb1\xa2\xb5\x22\x37\x37\x02\xfa\xda\x98\xb9\xb6\x29\x94\x66\x0c\x12\xf5\x8a\xdd\x51\x8c\xa8\x05\xd0\x52\xea\xa2\x46\x9d\xec\xb8\x0e\x3d\x31\x17\x0b\x62\x5d\x4e\x68\x45\xea\xb2\x82\x70\xe9\xa9\x40\x23\x48\x55\xd4\xd4\x6e\x25\x98\xaa\xa8\xbb\xec\x19\xaa\x45\x83\xe5\xcb\x39\x1c\x57\x06\x16\x33\xad\xe0\x34\xec\x15\xaf\x39\xd6\x0c\xed\xb4\x67\xf2\x6b\xe6\x59\xc8\x3e\xc8\x4f\x2b\x7c\x0d\xf4\x75\x36\x0b\x98\x08\x7c\x1b\xb9\x42\xf3\x2f\x5d\x55\x9d\x8e\x59\xbf\x33\x8a\x98\xba\x11\x8f\x59\xc1\x73\xfa\x9a\x9e\x5b\x8b\xe7\xd2\xfd\xde\x6d\xb9\x0f\xcd\xb7\x5d\x0d\x42\x43\xb7\xe1\xf7\xa0\x32\xf2\xbe\x05\x15\xaf\xb0\x72\xd5\x76\x3f\x3a\x3a\x85\xf4\x23\x46\xd0\x65\xdb\x33\x89\x95\x58\xfb\xeb\xb5\x62\xcd\xd5\x7d\x4d\x75\x74\x6d\xf3\x07\xf1\xf4\xcd\xfb\x47\xa1\x3b\x8b\xa3\xcf\xb2\x68\x04\x67\x43\x4b\x74\xa9\x69\xd1\xaf\x1a\x88\x71\x1b\xec\x48\x3a\xd9\x56\x06\x4b\x87\x2a\xe8\xf6\xdb\xd6\x29\x93\xc1\x95\x1d\xf9\xdb\x8e\xac\xf5\x65\xbb\xb1\xc4\x8c\x89\xdc\x1c\x03\x22\x9f\x38\x28\xe4\xa8\x2b\x27\xb2\x97\xd6\xbc\xc4\xaa\xa8\x93\xf0\x24\xae\x1a\x08\x89\xc7\x28\x4b\xfa\x66\x33\x3e\xfb\xc3\xbf\xfe\xcd\x0f\xbf\xff\xe7\x1f\xfe\xe9\xdf\x7e\xf8\xfb\xdf\xfd\xf1\x1f\xff\xf6\x3f\xff\xfd\x3f\xfe\xf0\xfb\xbf\xfb\xe1\x5f\x7e\xf7\xc7\xdf\xfd\xc3\xd9\xd8\x25\xc1\xa6\x1a\xf4\x51\x9a\xf0\xe3\x14\x21\x3e\x52\x03\xb6\x28\xfb\x88\x85\x0e\xad\xd3\xe6\xf2\x6e\xf3\x78\x66\xc9\xfd\xa2\x1f\x0f\x0f\x5d\xcb\x56\x61\x43\x6b\xa8\xc5\xb5\x6b\xde\xf4\xf0\x61\xf3\xd6\x82\xad\x9d\x3b\x31\x53\x28\x94\x23\x88\x64\x0a\x69\x18\x6d\x68\xfb\x0a\xe5\x56\xe1\xa7\x2d\xcc\x39\x1c\xa2\x9f\x86\x7a\x0c\xd0\x27\xbf\x2d\x08\xdd\x98\x23\xb7\xeb\xa5\x8c\xbb\x2c\xa7\xf1\x47\xed\xf2\xaa\x56\xde\xd2\x5d\xb6\x77\xe5\xdb\xd9\xe2\x34\xbe\xb3\xc7\xe9\xd9\xf6\x26\xff\x89\x69\x1d\xb2\x19\xbd\x84\xd8\x49\xfd\x16\xe3\x64\x9b\xf1\x94\xab\xed\x25\xe2\xc4\x1a\x0d\xc7\xae\x7d\x86\xe3\x04\x59\xf9\xb6\x63\x4b\x14\x7f\x3e\x6a\xd4\xcf\xf6\x1d\xa4\xfd\x2d\xbb\xf5\xb3\xf3\x8b\x7e\xe8\xa2\x73\x1b\x33\x69\xe6\xc0\x25\x10\x7e\x26\x5a\x8e\x75\x74\x48\xfb\xb6\xf4\xc2\x54\x5d\xaa\x8d\xe6\x5c\x99\x4f\x3c\xfa\x61\x13\x06\xdd\xdd\xa8\x49\x55\xaf\xb8\xfa\xd8\xc0\xf7\x98\xe8\xe9\xfc\x40\x0f\xbd\xdb\xcb\x1f\x9f\xc1\xcb\x32\x5f\xeb\xcf\x45\x21\xc2\x7a\xb4\xa4\x5e\x9e\x5c\x54\xcb\x3c\x83\x89\x2b\x94\xe1\x5c\x6c\xaf\xe0\xbd\x4c\xcd\xd9\x4a\x2d\xfc\x03\xb0\x55\x21\x14\x86\x5e\xd9\x52\x7f\xe8\x06\x53\x72\x51\x72\x29\xe1\x6c\x4c\x2b\x6a\xf2\x7b\x4d\xef\x81\x50\xaa\xb5\xc8\x1d\xf9\xd1\x66\xd9\xce\x76\x9f\x1f\xce\x75\xdb\x64\x77\xb0\x3d\x3d\xdc\x9f\x1e\x6c\x50\xeb\x6d\x83\xf7\x47\x5c\xc5\xc3\x61\xe8\x0c\xc7\xc1\x8f\x8e\xf5\x9c\x4b\x99\xa2\x24\xca\x2f\x6c\xc8\xaf\xab\x13\x58\x51\xc2\x28\x06\x3e\x5b\x45\x23\xd0\x9c\xb5\xe5\x0f\x73\xb2\x08\x5c\xbd\xc5\x7d\xce\x33\xc6\x03\x90\x12\x8f\xcb\x7f\xbd\x9c\xcd\x78\x13\x23\xae\xfe\x21\x6f\xf0\x4f\x49\x50\xea\x1d\xec\x7e\xe3\xec\xe0\xf7\x51\xdc\x27\x4f\x8f\x6d\x43\xbe\x78\x74\xf3\xfa\x63\xee\x90\xd8\x73\x74\x38\x1f\x4c\xe9\xd6\xfd\xa6\x1b\xa4\x88\x0b\x22\x5a\x8e\x40\x36\x2b\xf3\xdb\x7d\xc2\x8e\x92\xd5\xdd\xaf\xe7\x1d\x7b\x0b\x14\x05\x49\x27\x07\xb0\xde\x5a\x95\xda\xb8\x2e\xf9\xeb\xe5\x44\x4e\x1b\x31\xe1\xf1\xd6\xed\x4d\x32\x91\xde\x2d\x2e\x4c\x57\xfb\xc6\xa0\x51\x6e\x56\xfe\x57\x41\x34\x10\xfe\x5c\xce\x35\x69\xc9\x70\x85\xc5\x7d\xb3\xce\x6d\x1c\x4f\xa6\x9b\x4d\xe7\x93\x18\xec\x96\x7b\xdc\x3f\xf6\xf3\x32\x38\xe5\x88\xcf\xcb\xb4\x90\x0f\xde\x9e\xe9\x7c\x1c\x37\x75\xfc\xa3\x3b\x09\x89\x2f\xb8\x81\xcf\xca\xec\x87\x40\x47\x27\xfe\xfc\xbe\x2e\xd3\xd2\x75\xf0\x1a\x2c\x99\x40\xa7\x10\x17\xd0\xa5\x19\x2f\x91\x38\xb2\x4f\xfa\xba\x0c\x0a\xca\x1b\x41\xce\x67\x44\xd7\xe6\xaf\xca\xde\x31\x5e\x6f\xb0\x1d\xb1\x75\x16\xe9\xd4\xcf\xcf\x78\x52\xf6\xee\x2b\x9c\xfe\xf9\x19\x0f\x8e\x3b\xd8\x7c\x98\xb9\x1e\x79\x00\x70\xd6\xe5\x6e\xcb\xda\x9d\x0f\xcb\xd0\x4a\xdb\xfd\x90\xa1\x75\xbc\x8a\x3c\xb2\x6c\xb3\xe9\xb2\xbd\xbf\x33\x54\xc8\x39\x59\xb3\xe7\x72\x3e\x5c\x88\xdf\x3d\xa3\xda\x77\x87\x73\xcf\x49\xf7\x42\xce\xd3\x27\xda\x89\xf5\x9f\xcd\xec\x3b\x4a\x60\x75\x79\xe0\x42\x28\xb1\x87\xaa\xb5\xed\xe1\xba\x1e\x7d\xd9\x2e\xa8\x6a\x82\x8f\x38\x5c\x87\xc5\x3e\xa8\x26\xbf\xc1\x43\x23\x54\x2f\x95\x4e\x5e\xf6\x33\x1f\xcf\x59\xb9\x36\x3d\x22\xec\x1c\xda\x43\x24\xe6\x6b\x7f\x4b\xcc\x39\xb0\x51\x83\xe8\xa1\x01\x2c\xa5\xc0\x36\x21\x5d\x51\x22\xa3\x36\x88\xf7\x40\x37\x0f\xd7\xa5\xb8\x7c\x04\xe5\xb4\xe3\x8e\x5c\x1f\xa3\xbf\x80\x6a\xf9\xdc\xd1\x41\xb3\x3e\x92\xe0\x2f\x4c\x0b\xe1\x0a\x2d\xd8\xe4\x94\x73\x40\x48\x11\xd5\xd4\xed\xb3\x13\xce\x01\x79\xb3\x0f\x7c\x54\x02\xc9\xff\xef\xfe\xa8\x44\x8b\xdd\x6e\x48\x30\xe8\x80\xae\x97\x93\x5c\xc8\x05\x6f\x4e\x39\xe6\xd3\xff\x45\x89\x63\x43\x89\x53\x3e\x29\x61\x8f\x9c\xf4\x0d\xbf\xdc\xf5\x0a\x8e\x1a\xed\x14\xbc\x6f\x4b\x04\xc1\x11\xf1\x49\xe8\x1d\x28\xe9\xa8\xbe\x7f\x8a\xe4\x09\x3f\xe4\x23\x76\x8f\x8f\x6c\x9f\x1e\xe9\x9c\xd6\x75\x06\xc4\xee\x84\xde\xb3\x22\xbd\x26\x96\xf2\x20\x0f\x91\x8f\xfe\x5c\x04\x12\x34\xd4\xee\x1e\x32\xef\xae\xcb\x3d\xc0\x8d\x5e\x1b\x77\xdc\xe7\x22\xac\xfd\xff\x93\x7d\x18\x62\x00\xe5\x23\x5c\x12\x0c\xfb\x24\x3c\xdc\x77\x84\xbb\xe1\x4d\x63\xd7\xdb\x71\x3b\xe3\x31\xec\x7a\x9e\xf1\x18\x1e\x3c\xe8\x76\x72\xaa\x4f\xf8\xdb\xc9\x9f\x7f\xbe\xfb\x2e\xc5\x1e\x2b\x5c\x5e\x42\xf4\x5e\xd0\xbd\xb5\xf7\xd1\xc0\x32\xb6\xef\xbc\x0b\xc4\x1e\x2f\xb6\x88\xf4\xf4\x6a\x7b\x3f\x77\x71\xac\xf3\xed\x6b\xa2\xee\xf7\xbe\xfd\xdf\x81\xf2\x75\x98\x7c\x70\xbf\x0b\xa6\x7e\xde\x1e\x0f\xdc\xbd\x10\xe4\xfe\x97\x75\xe8\x4c\x11\x95\x35\x74\x8a\x30\xe0\x94\x51\xd4\xd6\xa2\x3f\x97\xf3\x6d\x9f\x7c\xae\x71\xfd\x69\x1c\xf3\xb1\xb1\xd4\xa1\x4e\xa6\x65\xf9\xa0\x23\x76\x0b\xe9\x1d\xe1\xc0\x25\x9e\x18\xfe\x6b\x00\xfe\x7c\x6d\x15\x09\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27201, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xee, 0xe5, 0x4d, 0xa0, 0x65, 0x7, 0x20, 0x98, 0x6a, 0xd1, 0x3, 0x5f, 0xdb, 0x13, 0x6a, 0xd1, 0xd1, 0xfe, 0xfa, 0xe4, 0xe4, 0x8, 0xdb, 0x21, 0x3a, 0x52, 0x8d, 0xf0, 0xeb, 0x8e, 0x89, 0xf5}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27145, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x30, 0x4, 0x3a, 0x4b, 0x2d, 0x1, 0x4a, 0x3a, 0xb2, 0xf0, 0xdb, 0x5f, 0x70, 0xfd, 0xe2, 0xd9, 0x8e, 0xaf, 0xcc, 0x40, 0xb4, 0x77, 0x4, 0x6c, 0xcf, 0x94, 0x20, 0xa8, 0xda, 0xed, 0x14, 0xaf}}
 	return a, nil
 }
 
diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index c564f3a..f3dd374 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -23,6 +23,7 @@ import (
 	"go/token"
 	"io"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/kr/pretty"
@@ -64,12 +65,17 @@ type Map struct {
 }
 
 type Service struct {
-	Name    string
-	Methods []*ServiceMethod
+	Name string
+	// GRPCName is the full name of the service in its definition, by which
+	// gRPC calls it, e.g. "api.v1.user_service"
+	GRPCName string
+	Methods  []*ServiceMethod
 }
 
 type ServiceMethod struct {
-	Name         string
+	Name string
+	// GRPCName is the name of the rpc in the definition
+	GRPCName     string
 	RequestType  *FieldType
 	ResponseType *FieldType
 	// Bindings contains information for mapping http paths and paramters onto
@@ -268,6 +274,7 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 						log.Tracef("\t\t%v.%v.Bindings[%v] = %v\n", nsvc.Name, m.Name, i, b.Verb+"."+b.Path)
 					}
 				}
+				setGRPCNames(nsvc, rv.PkgName, fileAst)
 				rv.Service = nsvc
 			}
 		}
@@ -352,6 +359,52 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 	return &rv, nil
 }
 
+// setGRPCNames sets the names by which gRPC calls the service and its methods.
+// They are in the grpc.ServiceDesc of the generated file; without one, they
+// are assumed to be the Go names.
+func setGRPCNames(svc *Service, pkgName string, f *ast.File) {
+	svc.GRPCName = pkgName + "." + svc.Name
+	for _, m := range svc.Methods {
+		m.GRPCName = m.Name
+	}
+	// text returns the value of a key of a composite literal, as source
+	text := func(lit *ast.CompositeLit, key string) string {
+		for _, e := range lit.Elts {
+			kv, ok := e.(*ast.KeyValueExpr)
+			if !ok {
+				continue
+			}
+			if k, ok := kv.Key.(*ast.Ident); !ok || k.Name != key {
+				continue
+			}
+			switch v := kv.Value.(type) {
+			case *ast.BasicLit:
+				if s, err := strconv.Unquote(v.Value); err == nil {
+					return s
+				}
+			case *ast.Ident:
+				return v.Name
+			}
+		}
+		return ""
+	}
+	ast.Inspect(f, func(n ast.Node) bool {
+		lit, ok := n.(*ast.CompositeLit)
+		if !ok {
+			return true
+		}
+		if name := text(lit, "ServiceName"); name != "" {
+			svc.GRPCName = name
+		}
+		for _, m := range svc.Methods {
+			if text(lit, "Handler") == "_"+svc.Name+"_"+m.Name+"_Handler" {
+				m.GRPCName = text(lit, "MethodName")
+			}
+		}
+		return true
+	})
+}
+
 // isUnsafeServer tells whether the interface is the Unsafe{NAME}Server that
 // goes with the service {NAME}, and not the interface of a service whose own
 // name starts with "Unsafe".
-- 
2.43.0


From fa3f6d8f8682ec99548a098a7601a7228d72badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 38/53] fix: return the error of the service to the caller of a
 NATS client

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 24 ++++++++++++++-----
 gengokit/template/template.go                 |  8 +++----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 170ac70..fc41dd1 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -736,6 +736,7 @@ func ServeNATS(conn *nats.Conn, srv *natsServer) error {
 // MakeNATSServer makes a set of endpoints available as a NATS {{.Service.Name}}Server.
 func MakeNATSServer(endpoints Endpoints, options ...natstransport.SubscriberOption) *natsServer {
 	serverOptions := []natstransport.SubscriberOption{
+		natstransport.SubscriberErrorEncoder(natsErrorEncoder),
 		// grpctransport.ServerBefore(GRPCMetadataToContext),
 	}
 	serverOptions = append(serverOptions, options...)
@@ -773,6 +774,19 @@ func DecodeNATS{{.Name}}Request(ctx context.Context, msg *nats.Msg) (interface{}
 
 // Server Encode
 
+// natsError is what a subscriber replies if there is no response. Its key is
+// not the name of any field.
+type natsError struct {
+	Error *string `json:"$error"`
+}
+
+func natsErrorEncoder(_ context.Context, err error, reply string, nc *nats.Conn) {
+	msg := err.Error()
+	if b, err := json.Marshal(natsError{Error: &msg}); err == nil {
+		nc.Publish(reply, b)
+	}
+}
+
 // EncodeNATSGenericResponse is a transport/nats.EncodeResponseFunc that encodes
 // JSON object to the subscriber reply. Many JSON-over services can use it as
 // a sensible default.
@@ -812,12 +826,10 @@ func NewNATSClient(conn *nats.Conn, options ...natstransport.PublisherOption) ({
 // DecodeNATS{{$i.Name}}Response is a transport/nats.DecodeResponseFunc that converts a
 // nats.Msg to a user-domain {{ToLower $i.Name}} response. Primarily useful in a client.
 func DecodeNATS{{$i.Name}}Response(ctx context.Context, msg *nats.Msg ) (interface{}, error) {
-	// if err := json.Unmarshal(msg.Data, &errResponse); err != nil {
-	// 	return nil, err
-	// }
-	// if errResponse.Error != nil && errResponse.Error.Code == "_internal_" {
-	// 	return nil, errors.New(errResponse.Error.Message)
-	// }
+	var errResponse natsError
+	if err := json.Unmarshal(msg.Data, &errResponse); err == nil && errResponse.Error != nil {
+		return nil, errors.New(*errResponse.Error)
+	}
 	var resp {{GoName $i.ResponseType.Name}}
 	if err := json.Unmarshal(msg.Data, &resp); err != nil {
 		return nil, err
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index aeabfd5..04017cc 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.145kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.502kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (3.019kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\xdc\x38\x76\xf0\xb3\xf4\x2b\xce\x08\x73\x91\xfa\xab\x56\xcd\xf7\x01\x5f\xb0\xe9\x41\x07\xf0\xd8\x3d\x1e\xef\x8e\xed\x5e\xbb\xbd\xf3\x60\x18\x5e\x56\x89\x55\xc5\x6d\xdd\x2c\xb2\xaa\xbb\xb6\xd2\x2f\x79\xd9\x00\x09\x10\x20\x4f\x79\x08\x16\x79\xca\x6b\x90\xe7\xfc\x9e\x9d\x60\xff\x45\x70\xc8\x43\x8a\xaa\x92\xea\xe2\x99\x0d\x36\x40\x06\xc9\x4c\x97\x44\x1e\x9e\x1b\xcf\x95\xd4\x8e\xc7\xf0\xb8\xca\x38\xcc\x79\xc9\x1b\xa6\x78\x06\x93\x35\x4c\x58\x53\x95\x29\x3c\x79\x09\x2f\x5e\xde\xc0\xd5\x93\x67\x37\x69\x38\x1e\xc3\x2b\xde\x2c\xcb\x52\x94\x73\x33\x00\xee\x44\x9e\x43\xb5\xe2\xcd\x5d\x23\x14\x07\xb5\x10\x12\x66\x22\xe7\x7a\xf0\xaf\x78\x23\x45\x55\x5e\xc0\x66\x93\xd2\xdf\x0f\x0f\xde\x0b\x78\xc2\x14\xf7\xdf\xe2\xef\x87\x87\x30\xac\xd9\xf4\x96\xcd\x39\xbe\xb9\x36\x7f\xbe\x60\x85\x7e\x33\x1e\xc3\x8d\x5d\x03\xa6\x55\xa9\x98\x28\x25\x14\x5c\x2d\xaa\x4c\x82\xaa\xa0\x60\xb7\x1c\x44\x99\x89\x95\xc8\x96\x2c\x07\x5e\x66\x75\x25\x4a\x25\x61\xd6\x54\x05\x48\xde\xac\xc4\x94\xcb\x11\xa2\xd1\xf0\x0f\x4b\x2e\x15\xb0\x32\x83\x86\xcb\xba\x2a\x25\x07\xb5\xae\xb9\x86\x84\x43\x91\xa2\x4a\xf2\x16\xca\x08\x98\x84\x3b\x9e\xe7\xf8\x5f\x5e\x4e\xab\x8c\x37\x12\x01\x20\xbc\x8c\xd3\xef\x59\xd5\xd0\x44\x0d\x6d\xa4\x1f\x30\xe4\xd4\x0c\xaa\x65\x03\x72\x59\xd7\x55\x83\x9c\x56\x0d\x2b\x25\xfe\x8d\x98\x09\x96\x8b\xdf\x32\x25\xaa\x12\xa1\xcd\xaa\xa6\x60\x4a\xa6\x61\x28\x0a\x3d\x22\x0e\x83\x68\xb2\x56\x5c\x46\x61\x10\x21\xed\xfc\x5e\xe1\x9f\x1a\x0d\x51\xce\xc7\xbf\x91\x55\x89\x0f\x66\x85\x7e\x2e\x2a\xf3\xef\xb1\xa8\x96\x4a\xe4\xf8\xa3\xe4\x6a\xbc\x50\xaa\xb6\x7f\x2f\x1b\xfd\x58\xaa\x66\x5a\x95\x2b\xfa\x53\x94\x73\x19\x85\x61\x10\xcd\x85\x5a\x2c\x27\xe9\xb4\x2a\xc6\xf3\xea\xfc\x56\xa8\x31\xfe\xbf\xe5\x45\x14\x06\xac\x5c\xd7\x13\x88\xe6\x55\x35\xcf\x79\x3a\xaf\x72\x56\xce\xd3\xaa\x99\x8f\xeb\xa6\x52\xd5\x64\x39\x1b\x6b\xfa\xc7\xb7\x65\x75\x57\x8e\xf5\xe8\x28\x0c\xb2\x65\xa3\x89\x3c\x61\x6a\x3b\x25\x0a\x03\x5e\xd4\xea\x94\x75\x69\x7c\x14\x06\x33\xc1\xf3\xac\x60\xf2\xf6\x84\xd9\xde\x9c\x28\x0c\xa4\x6a\x96\x53\x75\xc2\x74\x3b\x21\x0a\x03\x25\x0a\x2e\x15\x2b\xea\x13\xa6\x7b\x73\xa2\x30\xb8\x6b\x58\x5d\xf3\x46\x9e\x00\xa0\x9d\xb2\x2b\xd2\x46\xe4\x39\x1b\x17\xcb\xfb\xa8\xfb\xa6\xbe\x9d\x8f\x79\xd3\x54\x8d\xd6\xb4\x3d\x0b\x39\xcd\xd3\x4f\xac\xfa\xed\x99\xa0\xff\x40\x44\x36\x9b\x73\x10\x33\xe0\x1f\x20\x7d\x5c\x95\x33\x31\x4f\x6f\xdc\x4e\x88\x58\x9e\x47\x10\x95\x4c\xc9\x08\x1e\x1e\xba\xb8\xe1\xd3\x73\x51\xe9\xff\xa6\x73\xd4\x70\x04\xc5\xcb\xec\xe1\xe1\x28\xa8\xf3\xa6\x9e\x5a\xa8\x3b\x78\xea\x97\x83\x6f\xc6\x05\x57\x2c\x63\x8a\x6d\x2f\x7a\xf4\x92\x08\xbf\xdd\xf1\x03\xfb\xcb\x0d\xb0\xe8\x78\x6b\xe1\xde\x3d\x01\x00\x0e\x8f\x8e\x62\x4b\xcb\x6c\xfc\xeb\x84\x25\x70\x78\x07\xc7\x24\x0c\xc3\x15\x6b\x20\x0e\x83\xf7\x70\x09\xb3\x42\xa5\xaf\xeb\x46\x94\xca\xfc\xd6\x06\x2c\x7d\x5c\x15\x35\x6b\xb8\x79\x44\xd6\x27\x7d\xa4\x2a\x61\x9e\x74\xc8\x4c\x5f\xf0\xbb\xd7\xbc\x59\xf1\xc6\xbc\x34\xd6\x2c\x7d\x51\xd5\x8f\xf3\x4a\xb6\x4f\xd3\xc7\x55\xbd\x36\x3f\x8c\xf2\xa6\xdf\x37\xac\x0e\x83\xf1\x18\x48\x9e\x56\x0d\x8d\x8d\xc7\xa1\xda\x24\xa5\x8f\x4a\x3d\xaf\x35\x32\xe9\x13\xfa\x13\x1f\x93\xf9\x48\xaf\xf0\xbf\xf8\xc0\x6e\xe9\xf4\xb5\xfe\x03\x1f\x79\xdb\x34\xbd\xb1\x7f\xe3\x8b\x76\xfb\xe1\x68\x51\xce\x7f\xc5\xf2\xa5\xa6\xdb\xb3\x2b\xe9\x37\xf8\xf7\x73\x26\x6f\xc3\x24\x0c\xc7\x67\x47\xfd\x03\x57\xd6\x27\x81\x7d\x74\xf8\x9f\xb1\xf6\xa0\xcf\x4a\x60\xe8\x6f\x56\xbc\x19\x81\x50\x5f\x48\x58\x4a\x3e\x5b\xe6\xda\x4d\xcd\x96\xe5\x14\xb9\x20\x41\x2d\x98\x82\x92\xa3\x97\xaa\xa0\xaa\x75\x6c\x00\x15\xce\xad\x79\x73\x6e\xdd\x00\x02\x9c\x30\x29\x64\x0a\xdf\x54\x0d\xf0\x7b\x56\xd4\x39\x1f\xc1\xba\x5a\x42\x21\xe6\x0b\x05\x35\x93\xe8\x22\x3d\x84\x55\x05\xcc\x2d\x64\xd6\xa9\x9b\x2a\x5b\x4e\xb9\x44\x70\xac\xd4\x1a\x90\x7e\xcb\xca\x2c\x47\x1c\xef\x84\x5a\x00\x67\xd3\x05\x79\x7a\x88\xed\xea\x09\xdc\x89\x86\x67\xb0\xac\x11\x49\x06\xb2\xe6\x53\x31\x13\x53\xa8\x99\x5a\xa4\x10\x3f\x53\x08\x50\x48\xa8\x9b\x6a\xc2\x26\xf9\x1a\x18\x14\x42\x2a\x13\x25\x40\xc6\xa5\x98\x97\x38\x55\x94\xab\xea\x16\xdd\x3d\x07\x54\x36\x31\xe5\x2e\xaa\xd0\x28\x72\x84\xd3\x52\x60\x74\x00\x44\xcb\xc9\x34\x09\xc7\x63\xc7\xdd\x69\x2e\x78\xa9\xba\xdc\x55\x15\x4c\xab\x3c\xe7\x53\xe5\x05\x28\xf9\x1a\xa6\x55\x69\xc0\xf1\xcc\x0b\x57\x44\x89\x04\x21\x40\x29\xca\x79\x6e\x02\x13\xc3\x2b\x81\x1c\x2e\x38\xe2\xe1\xe3\x2b\x4a\xc5\x9b\x19\x9b\xf2\x21\x49\x20\x30\xb7\x58\x7f\x90\xb4\xc4\xc5\xda\xa8\x44\x07\x0b\xb8\x01\x1f\x13\x3d\xd3\xaa\x98\x88\x52\xf3\xa9\x20\x14\x3d\xc1\x8e\x28\x94\x52\xcb\xa6\x04\xa1\x90\xaf\x88\xe0\x94\xe5\x39\x6f\x30\x62\x62\x16\xd9\x34\xd4\xe4\xec\x30\x74\x13\x06\x6f\x4a\x47\x1f\xcf\x36\x9b\xd4\xce\x30\x21\x20\x59\x82\xcd\xa6\x61\xe5\x9c\xc3\xa7\x02\x2e\x2e\xc1\x8d\x79\x6e\x44\x86\x76\x6c\xb3\xf9\x54\xd0\x1c\xbb\x0a\x00\x38\x52\x53\xfb\x30\xdc\x6c\x8c\x71\x35\xd1\xa5\x7d\x2c\x0f\x2f\x81\x0a\x0c\xb1\x47\x44\x02\xde\xa2\xf1\x54\xdd\x03\x45\x69\xe8\x1a\xf0\xbf\x23\x54\x98\xb3\xcd\xe6\x69\x85\x88\xc1\xa7\x22\x7d\x65\x42\xd0\x9b\x75\x6d\x09\x4c\x20\xde\x1a\x61\x02\x53\x6f\xc8\xc8\x18\xb8\x04\x36\x61\x60\xe3\x56\xfd\x0c\x11\xe5\x69\x0f\xe5\x88\x0c\x2e\x9e\x84\x01\x3a\xab\xa6\x81\x4f\x2e\xa1\x14\x39\x42\x08\x48\x5e\xa5\xc8\x35\x90\x30\x78\x08\xed\x33\x0b\x3d\x3d\x88\x53\x32\x42\x78\xe1\x83\x63\x27\x32\xf3\x39\xbb\xf5\xd8\x13\x6e\x36\x7a\x23\x7f\xaa\x38\x22\x9a\x3e\xe0\xe0\x73\xf0\xb9\xfc\xa9\xe2\x43\x8c\x46\x58\x7d\x94\x49\x64\xba\xe2\xbd\x6a\x92\xec\x8a\x1b\x36\x8e\x38\x94\x5f\xbf\x94\x6c\x62\xe0\x76\xd4\xe6\x21\x81\xd8\x32\xc3\x7f\xac\x39\xe6\x89\x23\x68\xf8\x07\x24\x84\x20\xa4\xf1\x21\x69\x87\x41\xb0\x72\xb2\x93\xbe\xec\x10\x35\x8d\x4a\x12\x06\x3d\x52\xdb\x15\x1b\xca\xcd\x3e\x5d\x19\x71\x04\xa8\xd6\xad\x6f\xf6\x65\x83\xce\xf1\x51\x9e\x5f\xdd\x4f\x79\xad\xb4\x9f\x92\xc6\xc4\x3a\x4e\x69\x0f\x85\x29\x0b\xed\x4d\xfb\x42\x82\x16\x23\x43\x28\x5e\x4c\xe0\x58\xfd\x5c\x64\x59\xce\xef\x58\x63\xb2\xc0\x37\xd2\xe6\x85\x98\x04\xd5\x75\xbe\x46\x13\x83\x66\x53\x21\xf0\xc2\x8d\xd6\x59\x17\x5f\xf1\x66\xed\xc4\x86\xfb\x05\x2d\x08\xa5\x6d\x1a\xde\xcb\x1a\xbd\x06\xcb\xf3\xf5\xc8\x8d\x93\x30\x65\x25\x4c\xb8\xf6\x35\x3c\xc3\x69\x93\x35\x94\xc8\x76\x55\xe1\x73\x7e\x3f\xcd\x97\x19\xcf\x4c\x16\x38\xe1\x88\x02\xd2\x5c\xf3\x2c\xdd\xe1\x46\xdc\xe2\x34\x82\xe8\xb5\x62\x6a\x29\xa3\x11\x44\xd7\xa2\x9c\x47\x89\xdb\xf7\x67\x8e\x21\xc9\xe0\x7c\x87\xa1\xc7\x95\x51\x8b\x4d\x9a\xa6\x52\x87\x05\x5a\x79\x44\x49\x8f\x2f\x2e\xa1\x60\xf5\x5b\xf3\xea\x9d\x61\xff\xe6\x01\xd5\x6b\x7b\xc3\xf4\xec\x96\x20\x08\x22\x4f\x8d\xa2\x0b\xd8\x3c\x8c\xc2\xc0\x0f\x23\x1f\xc2\x30\x40\x5f\xff\x1e\x51\x41\x30\x06\xa4\x43\x0b\x57\x12\x33\x78\x3f\x82\xea\x16\x5f\x5b\xc4\xde\xf2\xfb\x77\x5f\xc1\x27\xd5\x2d\x62\x1b\x04\x35\x2b\xc5\x34\x6e\x23\xbc\x59\x1c\x5d\x59\x10\x96\x6e\xf8\xe2\x33\xf9\x05\x64\x15\x97\x50\x56\x0a\xf8\xbd\x90\xea\x2b\x90\x9c\xfb\x82\x77\x39\xa5\x0e\xe9\x11\xa9\x24\x21\x7d\xce\x78\xce\x15\x8f\x2d\x06\xfa\x9d\x21\xe0\x28\x56\xf4\x52\xd1\x61\xcf\xbb\xaf\xc0\xd2\xd3\x6b\x3a\xe1\xd2\xc3\x34\xee\x1d\x42\xb8\xb6\x0c\x36\x3b\xec\x3b\x36\xe1\x39\xcf\x5a\xc1\x9b\x6a\xc9\x9c\x2b\xab\xa6\xa8\xda\x8e\x51\x5a\x5b\xef\x16\xbc\x74\x6f\x2b\x4f\x33\x09\x98\x51\xb0\x91\xd9\x50\xa4\xf3\x4b\x33\x18\x4c\x09\x86\x99\x3a\x8e\x98\x62\xfc\xd2\x88\xa9\x8e\xa8\x5a\x0a\xe0\x6e\x21\xa6\x0b\xbd\x5d\x24\x2f\xfb\x50\x20\xa7\x4d\xb3\x6d\xc8\x52\x35\xe4\xb2\x77\xa9\xc2\xfd\x10\x1b\x5d\x1d\xed\x1a\xdc\x1e\x1b\x1c\x0e\xd1\xf5\xd1\x66\x68\x07\xa9\x11\xd1\xa9\x39\xde\xf0\x29\x17\x2b\xb4\x42\xdc\x90\x58\xcd\x3a\x74\xa7\xf0\x9a\x73\x07\xc6\x83\xa2\x5f\xd8\x98\x93\x10\xbe\xba\x47\x44\x71\xf7\x64\x5c\x31\x91\x4b\x0c\x89\xed\xce\x41\x20\x36\xae\x65\xb9\x50\xeb\x74\x9f\xb5\xe8\xd0\x1e\x17\x3f\x82\xa3\xff\x6b\x52\xfe\xe7\x9a\x94\xce\xd4\x11\x1c\x6b\x61\x8e\x2f\x3b\x1c\x9b\x50\x3e\x7d\x75\xfd\x18\x09\xe6\xcd\xc9\x19\x25\x06\x67\xde\x74\x2c\xc2\xca\xd6\xc5\x3b\x51\x00\x5b\x31\x91\xb3\x49\xce\x4d\x32\x30\x7f\x75\xfd\x18\x06\x42\x7c\xda\x39\x5d\xc8\x2e\xef\x93\xad\x19\x18\x41\xa5\x23\x02\x89\xaa\xdf\xa9\xb0\x68\x4d\xe6\x8d\x09\x18\x92\xa1\x85\xd0\x97\x49\x6f\xa0\x44\xc1\xbe\x7d\x37\x0c\x09\x05\xdb\xf7\xf6\x6b\x3e\xab\x1a\x1e\x23\xb6\xcf\xa9\x52\x74\x53\x51\x4c\x99\x8c\x70\x8b\x6c\xad\x73\x89\xe1\x10\x2f\xb3\xb8\xf3\xd8\xd1\x93\xa6\x69\xa2\xcb\x17\x9b\x0d\xdc\x54\xdf\x55\x77\xbc\x69\x35\x12\x59\x85\xc2\xb5\x01\xdf\xe7\x88\x11\xbe\xe4\xcd\x06\x7d\xe3\x41\x35\xc6\xf1\x9e\xa6\x5d\x40\x97\x24\x57\x74\x89\x71\xf7\x3b\xb6\xf7\x29\x27\x06\x17\xc1\x13\x5d\xfb\x46\xda\xbd\x11\x14\xef\xea\x01\x57\x65\xef\x00\xca\x5e\x70\x44\x87\x0b\x69\x9a\xe2\xb4\x64\xe4\x6b\x7d\x60\x5d\x6b\x4b\xec\x76\x32\xec\xc2\xed\x7e\x59\xbb\xd0\xdd\x38\x33\x0f\xce\x4f\x9e\x80\x6e\x31\x18\x60\x8b\xc3\x54\xdd\xf0\xc2\x73\x4a\x9a\xa8\xec\x80\xd6\xd4\xc3\x4f\x55\x2d\xa9\xc7\x53\x79\x10\x4d\xbd\xc9\x62\x09\x67\xed\x52\x49\x0b\xfe\x40\x36\x8b\xc9\xce\x4f\x9b\xce\xbe\xc7\x8c\xa7\xf6\x12\xa2\x2d\x2e\x6a\x0a\xb4\x16\xf9\xe9\xd1\x89\x39\x6d\xfd\x91\xe9\x2c\x71\xd7\xa8\xfa\x61\xd6\x8e\xc7\xb0\x6f\x57\x80\x40\x13\xe8\xf4\x41\x57\x7b\x53\x33\x81\x46\x7c\x83\xb2\xd1\x15\x1f\xec\xce\xf0\x46\x49\x53\x10\x22\xb3\x69\x6d\x82\x03\xec\xf2\x56\x2c\xcb\x60\xd5\xa9\x39\xcf\xaa\x82\x89\x72\xdf\xe0\x14\xae\x1b\x51\xb0\x46\xe4\x6b\x5b\xa8\xf2\xab\x5a\xc6\x0a\xef\xa3\x23\x7e\xbf\xab\x18\x48\xcb\x2b\xfe\xa1\x55\x44\x9d\x40\x7b\xbf\xba\x25\x0c\x9d\x32\xd3\x9c\x63\x52\x66\x27\xc9\x0f\x7b\xc4\x74\x55\x1e\x2d\xa6\xbd\xb6\xa9\x57\x4e\x66\x86\x1d\x32\x24\xa8\xc3\x22\xa0\x25\xb4\xc0\xf6\x88\xb5\xce\xd7\x47\xc9\x69\x2f\x21\x7d\x82\xea\xab\x69\xec\x93\x94\xac\x51\x54\x76\xd6\x11\xfb\xc8\x13\x96\xac\xfb\xa4\xf5\x2d\xcf\xb1\x40\x1e\x1a\x45\xeb\x75\x9e\xfd\xc6\xa7\xc8\xc0\x36\x64\xd2\xe7\x4f\x92\xed\x01\x88\x2f\x9a\xd0\xdb\x11\xac\xda\x78\xb4\x70\x91\xe8\xaa\x53\x4c\xd1\x7d\x65\x0e\xb7\x7c\xad\xc5\x9d\x61\xc8\x3a\xa9\xd4\x02\x79\x6c\x57\xa1\x8e\x2c\xc4\xb7\x09\x65\x17\x38\x34\xcf\x21\x47\x79\x11\x14\x46\x39\x95\x2e\x9c\x3e\x66\x65\x55\x8a\x29\xcb\xbf\xe5\x2c\xe3\xcd\x2f\xf8\xda\xa6\x1e\xb8\x90\xac\xa8\x9c\xab\x28\x93\xb3\x20\xa6\x53\x6e\xab\x18\x5c\xa8\x05\x6f\x68\x65\x7c\x8f\xac\xb8\x74\xb4\x7e\x2f\xd4\x42\x77\x14\x90\x45\x23\x4d\xeb\xdb\x2f\xdf\x25\x07\x07\x0e\x60\x17\xdf\x26\x2d\x04\x0a\xea\x49\x7c\x53\x75\xaf\x7d\xaf\x8d\xfb\xf6\xff\xa3\xe5\x68\x6a\xc6\x27\xc7\x92\x2f\xf8\x9d\x37\xdb\x2c\xaf\xfb\x07\x54\x04\x82\x09\x9b\xde\xa2\x78\xd6\x76\xcf\x98\x62\x3b\xd2\x5a\x72\xdd\xbb\x48\xe1\x99\x42\x39\x52\xd9\x9e\xd4\x55\x4c\x04\xa6\x64\x56\x04\x54\x95\x56\x15\x64\x82\xe5\xa6\x74\x9d\x33\xc5\x1b\x98\x62\x5f\x09\x73\x6c\xee\xc3\x34\x0a\xda\xc1\x2e\xc6\xd7\xc6\x75\xa6\x06\xdf\xc7\x55\x59\xee\x09\x48\xcd\x20\x1b\x90\xc6\x03\x11\xa9\xbf\xe5\x30\x3a\xd8\xae\x9a\x06\xbb\x49\x9b\x5f\x01\x6d\x4d\x5b\xb0\x62\x8d\x4b\x9b\x3c\x8b\xb0\x9b\x40\x86\x01\x6e\x83\xbe\xa1\x97\xbb\x81\x21\x11\xaf\xb5\x0c\xe9\xb5\xf9\xa1\x87\x03\x4a\xd0\xa6\x34\x6d\xfa\xb8\xfd\xf4\xaa\x3c\x10\x34\x3e\xe1\x87\x82\xc6\x03\xf6\xc7\x94\xbe\x82\x36\xa2\xc6\x9f\x89\x23\x3b\xd6\x89\x9f\xe6\x27\x45\x98\xce\x34\x59\xbb\x65\x87\xca\x83\x61\x35\x9c\xeb\xc0\xda\xc3\xd4\xce\xbd\xf0\x3b\x0f\xde\xfb\x51\xbb\x5e\xf0\x60\x8d\x23\x1a\x45\xa4\x18\x68\x07\xfc\xf8\x70\x63\x8f\x1f\x7b\xc2\x8f\xf1\x63\xfb\x3d\xd3\xb1\xe1\x06\xf9\x8c\x01\x3f\x66\x36\x31\xed\xb2\x27\xfc\x44\x3f\x86\xc4\xbc\xd2\xc8\x1c\xe9\xc8\x70\xa8\x0b\x3a\xd0\xbd\x9e\xe4\xca\xea\x7c\xdd\xe7\xcb\x7c\xb1\xfd\xf8\xf0\x63\x38\x4a\xbc\x2a\x8f\x88\x12\x0f\x0b\xc4\x0b\x16\xf7\x48\x78\x6f\x94\xd8\x91\xda\x3e\x3a\xfa\x83\x0f\x22\xf1\x38\x91\x9d\xda\x58\xd9\x1f\x25\x12\x16\xda\x7b\xca\x9b\xca\x0f\x3c\xcc\x4e\xe9\xb3\xdc\xb4\x0e\xee\x13\xa3\xa8\x7b\xa0\xc4\xb7\x7c\x2d\xe1\xed\x3b\x5b\x8d\x3b\x00\xef\xa8\xc6\x54\x91\xc1\xd9\xa1\xa0\x47\x1b\xfd\x9a\x89\xa6\x5d\x3c\x0c\x6c\x6d\xee\xb6\x0d\x85\x34\x7a\x68\xf5\xb1\xb9\xb4\xb2\x15\xad\xa9\xba\x4f\x35\x4f\xe2\xdb\x24\xa5\x1a\x64\xd2\xd6\xb3\x02\x03\xd8\x55\x2e\xf4\x4f\x13\x78\x60\xcc\xa0\x8d\x29\x1a\x4f\x84\xa9\xdf\x75\xa2\xac\xb3\x22\xc3\xda\x97\x25\xe0\xe7\x95\x28\xe3\xb3\x22\x1b\xb5\x8f\xae\x71\x4e\xac\x67\x62\xf9\x23\xb1\xe0\x88\x33\x18\x85\x50\x4f\xcb\x48\xf2\xd8\xda\xd6\xb7\x37\x37\xd7\x94\x17\xd8\x67\x87\xff\x19\x87\xa1\x6e\x97\x1b\x2e\x97\x5a\xbd\xe0\x12\x22\x56\xd7\xb9\x98\xea\x03\x22\xfa\xcc\xdd\x57\x30\x5d\xb0\x46\x72\x75\xb9\x54\xb3\xf3\x9f\x45\xae\x24\x86\xab\x52\x9a\x4f\x5d\x71\x54\xac\x05\x3d\xd1\x7b\xf6\x70\xa9\x0c\x81\x55\x25\xd4\x0d\xcf\xf8\x4c\x94\x3c\xd3\x67\x1b\x24\xed\xb9\xad\x65\x0e\x16\xc8\xba\x47\x6b\xba\x05\x32\xff\xd0\x85\x8d\x3d\xc4\x0c\x52\x0d\x5f\x87\xe9\x9e\xdd\xda\xaa\xd7\xa0\xee\xbc\x7d\x37\x0c\x5d\xcb\xbf\xef\x35\x55\xcd\xcc\x1a\x18\x87\xca\x4e\xd1\xac\x7f\xd2\x15\x5a\x72\x63\x6e\x9a\x98\x7b\x3f\x86\xa7\x3c\x9a\x29\xde\xc4\xdb\x6f\xd4\xe3\x56\xb4\xb1\x27\xe6\x44\x03\xda\xa5\xf2\xa8\x92\x1d\x55\x74\x74\x79\xae\x40\xc6\x14\xcb\x7b\x8c\x9b\x5e\x55\x4b\xc4\x21\x09\xbd\x48\x82\x9a\x0b\x17\x97\x83\x6c\x76\x43\x27\x78\x62\xa3\x9c\x23\x40\x9a\x96\x7e\x6d\x1e\x51\x8d\xbe\xb0\xf3\x62\x0c\xb7\x68\x38\x9e\xad\x9d\xc0\x5f\xc3\x4d\xf5\x06\xcf\x0e\x3e\x3c\x44\x49\x7a\xcd\xd4\xa2\x33\x06\x1f\xdc\xf0\xa2\xc6\xf8\x57\x8f\xb0\xea\x34\x70\x12\x4b\x17\x05\xbb\x55\x41\xc2\xa8\xa7\x34\x48\xb5\x41\x24\xcf\x5b\x52\x37\x3f\x9c\x7b\x30\x03\x8d\x44\x71\xe0\x53\xd3\xc3\xb2\x6e\xd8\xbc\xee\x2b\x10\x06\xba\xac\xdf\xd6\xd0\xfc\x3f\xc9\x68\x14\x14\x54\xf9\x4a\x63\x9a\x65\x3a\x43\x30\x61\x81\x6d\x7b\xd9\x15\xbf\xc7\xf7\xcd\x08\xb3\x8c\x8c\xcf\xd8\x32\x57\xe8\xed\x8c\x82\xe0\x8e\xd4\xe5\xc3\x6a\x06\xdb\xb6\x60\x04\x0c\x26\x55\xa6\x13\x3d\xb4\x0d\xa6\x49\x85\xe9\x5e\xa4\xd7\x89\x5c\x86\xb8\x42\x2b\x8b\xa0\xf4\xf3\x54\x63\x17\x27\x26\x0f\x61\x20\x75\xd7\x19\x90\x1f\x08\xea\xff\x7f\xf9\x65\x0a\xcf\xa8\x6d\x85\x23\xfd\xba\xa7\xd9\x37\xbc\xd1\x87\x9a\x71\x44\xdd\x54\x2b\x81\x29\xec\x42\xbf\xc1\x86\x7d\x9e\x63\x1b\x5c\x63\x6b\xba\x85\x38\xae\x8d\xc9\x7c\xd0\x08\xc5\x83\x8e\x54\xa4\xcf\x59\x23\x17\x4c\x1f\xc6\xb2\xf8\x17\xe6\x11\x76\xd2\xe5\x72\x3a\xe5\x3c\x93\x26\x67\xfa\xf9\xeb\x97\x2f\xe8\x6c\x74\x66\x0f\x32\xdb\xa4\x4b\xd3\xea\xd0\xc1\xce\xe5\x30\x59\xa6\xf1\x8e\x47\xd3\x9b\x91\x4d\xe5\x1c\x65\xed\xcb\x0e\x34\x10\xa5\x54\x9c\x65\x96\x67\xc6\x48\xfa\x16\xa2\x2f\x10\x71\x67\x38\x46\x70\x67\x8e\x9e\x75\xd5\x40\xc7\x8c\x28\xd5\x11\xbc\xc7\xed\xe7\xb3\xc4\x98\x1f\x6c\x0e\xd6\xbc\xd9\x68\x29\x5e\x20\x2d\x56\xa0\x18\x89\x88\x99\xe5\x16\x32\xd0\x38\x5a\x1c\x12\x77\x79\xdb\xfa\x59\x31\x03\x7c\xf5\xb5\x5e\x92\xa6\x5e\x99\x92\xa8\x03\x64\xe7\x21\xbb\xe3\xe4\x2b\xbb\x02\x0e\xbb\xf4\x7c\x2e\xa2\x0d\x97\x0e\x9c\x4d\xec\x83\xbb\xd4\xa8\x4d\x9c\xa4\xaf\xb9\x8a\x23\x32\x84\xe7\x37\xeb\x9a\x47\x23\xdf\xe5\x19\x02\x16\x56\xc9\x7c\xfc\xbb\xe6\xc1\xea\x61\x4b\x87\x2d\xc0\xc8\x36\xec\xb0\x70\x68\xb4\x8c\x35\x73\x03\x1f\x9f\x27\x3c\x8f\x6f\x71\x5b\xdb\xa8\xc5\x2b\xe0\xac\x28\x66\xf1\xc7\x3f\xca\xb2\x78\x2b\x02\xc1\xff\xd3\x7b\xe7\xc2\x9c\x26\x4d\x8d\xbe\x3c\xc3\xd8\xb2\x64\xb9\xe7\x45\x34\x71\x72\xba\x87\x2c\x4f\x0f\x5b\xca\x34\xf0\x4b\x90\x53\x82\x8c\xaf\x29\x9b\xbc\x4b\xb5\xd6\x10\x7a\x38\x30\x71\x0f\x63\x14\x47\x82\x06\xa9\x55\x4c\x63\x1e\x9b\x78\xb2\x9c\xc1\xdb\x77\x78\x40\x36\xa1\xcd\xb0\x09\x75\x30\x77\x07\xbe\x8e\xb9\x72\xb7\x55\xc4\x37\x25\x89\x1e\x21\x8c\xe0\xf3\xbb\xe4\xab\xed\x72\xb8\x09\x63\xa4\xf8\x2d\x87\x4b\xf8\xd9\xff\xfd\xcb\xbf\x30\x3a\x96\xf3\x12\xe7\x24\xf0\x57\xe6\x1d\x0e\x0d\x10\x8d\x4b\x98\x2c\x67\x6f\x2f\xf0\xe1\x3b\xf2\x83\x64\x4c\xf1\xb4\x87\xe6\xdb\x2c\x8e\xac\xf9\x00\x24\x4a\x1f\xf4\xb8\xc0\x4a\x16\x36\x65\x6b\x8c\x87\xa0\xac\xca\x73\x54\x3c\x17\xe9\xe3\xc0\x68\x84\xc0\xa9\xe3\x4a\x50\xe9\xc0\xee\x0b\x7e\x17\xdf\x99\x8d\xa3\x79\xa4\x8d\xac\x4f\xbb\x3d\x03\xb0\x09\x03\x3d\x0a\x7f\xa3\x01\xfa\x35\xae\x72\x41\x16\xf6\xd7\x64\xef\x51\xee\x34\x8a\x29\x21\x67\x02\xef\x75\x2c\xb8\x33\x97\xda\xd2\x7a\xc2\x6d\xf3\x10\x09\x42\x5f\xc1\xb0\xf7\x50\x8e\x39\x67\x9d\x9a\x8e\x92\xb7\xa8\x43\x55\xa3\x85\x77\x07\xec\x52\xb8\x52\x18\x58\xe3\x0c\xe0\xb7\xe6\x5d\xcc\x6e\x75\x24\x5e\xb4\x40\x13\xcf\x28\xc6\x09\x74\xcf\xb3\x2d\xd2\x76\x85\x81\xd9\xed\x9e\xc3\x87\xb4\x83\x3a\x20\x08\xa9\xb0\x53\x4a\xdf\x2e\x41\x1c\x0c\x5a\xbc\xf2\xd4\x81\xa8\xc5\x55\x2d\xf6\x86\x07\xdb\x59\xb0\xc6\xbe\xbf\x57\xa2\x3b\xa6\xe6\x26\x0e\xce\x41\xeb\x78\x4e\xce\xc8\x4f\x70\xed\x3a\xd7\xac\xe1\xa5\xa2\xa4\xd1\xe9\xa9\x3e\x25\x86\xfe\x0a\xb1\xb2\x4f\x35\x64\xd4\xe0\x43\xa5\xf8\xc0\xab\x61\xec\x25\xab\x37\x29\x86\x33\xf2\x40\x7a\xc8\x70\x42\x1c\x64\x7c\xc6\x1b\x68\x52\x34\xeb\xe9\x63\xac\x59\xa2\x01\xd2\x16\x03\x93\xe5\x36\x3f\xde\xa2\x95\x20\xa3\x69\xc7\x28\x09\x37\xbc\x6b\xb8\xd1\xe1\xfa\x57\x9c\x65\x8f\xf2\x3c\x36\xc0\x8f\x3b\x80\x68\x4f\xdc\xcf\xd0\x23\x8e\x20\x22\x4b\xd0\xa0\x37\xb6\x11\x11\x52\x66\xd9\x19\x51\x91\x79\xcb\x10\x7d\xa9\x69\x0b\x96\xd6\xa8\x61\xee\x74\x71\x09\xee\x86\x49\x6b\xee\x28\x10\xd4\xc3\x83\x47\x79\x5e\xdd\x5d\xb3\x46\x09\x96\x63\xb9\x4d\x35\x4b\x8a\x1a\x9f\x08\x39\x65\x4d\xf6\xa6\xd4\xb7\x81\x2e\xda\x37\x0f\x94\xfb\x22\xe9\x97\xe0\x2f\xb8\x63\x52\xb1\xcd\xb8\x63\x54\xfb\xcd\xea\xb0\x61\xed\x35\xad\x84\x46\x87\x99\x6e\xc3\x6e\x7a\xd8\x4a\xdc\xfb\x28\x9b\x6b\x18\x12\x78\x0e\xf1\x6b\x96\x91\x3a\xd0\x3b\x44\xa0\x45\xcb\xa5\xf3\x98\x72\x5e\xb3\x86\x15\xd2\xe6\x33\xbf\x62\x8d\x8c\x1b\x94\x21\xde\xb8\x68\xdf\x63\xf2\xff\x61\xc9\x9b\x75\x3b\xbc\x49\xdf\xbc\xfa\x2e\xfd\x25\x3e\x8c\xed\x04\x6f\x48\xe8\x27\x39\xe6\xd0\xe9\xc5\x65\xab\xb5\xfa\x72\x04\x65\x38\xfa\xd0\x4b\x69\x87\xa5\xdf\x55\x26\xf2\x86\x48\x13\x69\xc6\x04\x9b\x0d\xbd\x7e\xca\x4b\xbd\xa8\x93\x26\xa6\x3f\x9d\x6a\xaf\xfb\x6b\x3f\x0a\x2f\x4b\x5e\xcd\x76\xf0\xe0\x1f\x76\xf1\xd0\x64\xfd\x18\x44\xdc\xb6\xfa\xbc\xe1\x1f\xda\xde\x35\x65\x35\xba\xc4\x6c\x87\xb6\xa5\xc3\x9e\x8c\xa9\xd7\x62\x0e\x75\x2d\x8d\x7d\x94\x36\x7d\x70\x7e\x9d\x49\x6d\x3f\xb7\xd3\x05\x93\x3c\x35\x27\x74\x24\x7b\x10\xec\xb3\x7d\xbd\xc1\xf7\x50\x93\xd2\x85\x48\x43\x86\xe2\xf9\x8e\x99\xd8\x36\x12\xce\x16\xbc\x91\xfc\x1a\x0d\x0c\xda\x4b\xe9\x9b\x8f\x37\x92\x5f\x95\xcb\xe2\xc5\xb2\x98\xf0\x46\x5e\xb4\x2f\xae\x0a\xa1\xde\x94\x75\x55\x2f\x31\x67\xce\x9c\x59\x79\x08\x3b\xf6\xb4\xc5\xcd\xa2\xe3\x8e\x91\xa7\xb1\x46\x35\x7d\xce\xa5\x64\x73\x9e\xec\x3b\xc7\x60\xd5\xe0\xfd\x88\xac\x95\x0b\x27\x75\x24\xe5\x8d\xf2\x9b\xaa\xee\x28\xa2\xa4\x60\xa0\xaf\xc8\xd2\x5f\x68\xdc\xf1\x42\x43\xdd\xd5\x36\x32\xb7\x11\xbd\x36\x76\xfb\xfa\xa9\x08\x78\xb7\x97\xba\x60\x12\x16\x2c\x33\x73\x87\xba\xa7\xba\x67\x97\xe1\x89\x4b\x81\x65\xe3\x56\xbf\xfd\x6b\xb9\x6a\xc1\x0d\x14\x13\x48\xc9\xd4\x3a\x7d\xd7\xb4\x45\x65\xc6\x72\xac\xab\x3b\x5a\x74\x28\x4b\xc5\x74\x5d\x56\x06\x48\xb7\x45\xbb\xb7\x39\xbb\xb7\xe5\x7a\x3b\x72\x1c\x4a\x9f\x72\x15\xdf\xa2\xc0\xf7\x77\x69\xb7\xf0\x8f\x6f\x93\x3e\x18\x68\x9f\x91\xdd\xcb\x92\xb7\xd7\x9f\xa6\x0b\xb4\x65\xa9\x7e\xc3\x72\x59\x01\xcb\x32\xda\xc3\xda\xda\xc3\xb2\xc9\xc3\xfd\xab\x47\x34\xf4\x1c\x2f\x09\x8f\xc8\x88\x5f\x33\xb5\x48\x0e\x4d\x74\x52\xc1\x43\xf3\xa8\x73\x68\x44\xa2\xe4\xa3\x9b\xc9\x08\x82\xba\x2a\xf6\xd9\x09\xcd\x64\x6f\x76\x5b\x83\xed\xe9\x25\x97\x80\x23\xc9\x7a\x41\x2e\x56\x18\xb5\x32\x45\x5c\x2b\x2a\xa5\x0b\x10\x58\x5f\x60\x25\xde\xb1\xfa\x1e\x0f\xcc\xd7\xe6\x36\x97\x79\x86\x76\x72\x5a\x15\xdc\x5c\x32\x68\x17\xc9\x84\x9c\xe2\x1d\xf9\x35\xc8\xb5\x54\xbc\x18\x81\xd4\x47\xbb\x73\x71\xcb\xf3\xb5\x55\x3a\x54\x23\x88\x16\x95\x54\x17\xa8\xd1\x11\x19\xd0\x0e\x05\xb1\x5b\xca\x9e\x0e\x1e\x2c\xed\x9e\xde\x6a\x16\x33\xf8\xc4\xaa\xdc\xb7\x4c\x5e\x37\x7c\x26\xee\xdd\x8a\x23\x88\x70\x57\x46\x26\x5d\x77\x78\x5c\x9a\xc7\x17\xe3\x71\x04\xff\xc7\x71\x02\xb5\x32\x58\x3a\x2b\xb8\x6c\xf2\xf4\x1a\xa3\x13\x07\xed\xe8\x43\x5b\x18\x5c\x2c\x43\xba\x65\x8b\x99\x65\x4f\xc6\x41\x8d\x57\x73\x1d\x21\x7a\x51\x19\x41\x7a\xf5\x6f\x73\x5a\x5e\x33\xc4\x54\x8b\x10\xd0\x5d\xd5\xdc\x8e\xc0\xd4\xd4\x81\x3c\x3d\x26\x7e\x78\x5f\xae\x31\xf1\xa6\x79\x2b\x90\x85\x51\x5b\xd7\xd5\xe1\xc2\xf1\xb9\x50\xb0\xd9\xe0\xed\xdb\xed\xe4\x87\x90\xc6\xb7\xba\x44\x68\x83\x0d\x34\xa8\xa2\xcc\xf8\xfd\xee\x8c\x2f\xed\x1c\x1d\xe3\xef\x66\x15\x96\xe2\xbe\xf6\x3e\x06\x1b\xfa\xdf\xc1\x9e\x79\x3d\x37\x6f\xbd\x5e\x3f\xb5\xf1\x07\xeb\xca\x14\x41\x06\xd3\xaa\x5e\xbf\x79\xf5\x5d\xbc\x1c\x81\x3f\xfe\x6b\x26\x39\x9a\x0f\xac\x2f\xdb\xa1\x6d\x74\xb0\x8b\x55\x37\x2e\xed\x16\x91\x89\x33\x3d\xe7\x01\x76\x9a\xfd\xc1\x76\xbf\xdf\xc6\xb6\xad\x34\x3b\x7f\xb7\x7f\x3a\x73\xd5\x7b\x04\x60\xaf\xdc\xe1\xfc\x4f\x25\xf9\xa1\x4a\x3b\x06\x2d\x7b\x54\x82\xce\x4a\xec\xa5\xd7\x3b\x82\xa0\x2d\x8f\x95\xe3\x84\x49\x0e\x67\xb8\x87\xdf\xbc\xfa\x6e\xa4\xbb\x4f\xe4\x9a\x12\xf7\x18\xf7\x6f\x89\x71\xc1\xc5\x25\x9c\xe1\x04\xf3\x53\x77\x1a\x28\x3d\x70\xec\xfc\x1c\xdf\x50\x81\xe1\xb1\xba\xb7\xbd\xd3\xd7\x18\xdf\x4e\xf5\x61\xf6\x65\x43\xa5\x1a\x54\x47\xbb\x71\x55\x05\xf5\x32\xcf\xf5\x73\xf2\x73\x3c\xc3\x08\x43\x42\xb5\x44\xd7\x6d\xc3\x57\x72\x4b\xba\xbc\x43\x6e\xaf\xb0\x21\xac\x9f\x80\x62\xac\x40\xe5\x8e\x14\xe0\x45\xa5\xe8\x7a\x2d\x82\x44\x58\xda\x52\x2c\xd8\x8a\x83\xfd\x6c\xc6\xfe\x90\x44\xaf\x33\xd1\xed\x2c\xba\x61\xa6\x6f\xd8\xa0\xe5\xb7\xa8\xe1\x65\x65\x6a\x00\x30\x7b\x42\x49\xc7\x1e\x48\xd5\xda\x55\xb2\x5d\xef\xcf\xbf\xff\xc6\x1b\xe7\x70\xa9\xf7\xdc\xe5\x9d\xe9\x37\x7b\xd7\x3f\x86\xfd\x81\x5f\xf1\xe9\x19\x44\x2d\xb9\x3d\xf7\x23\x8f\x88\x0e\x7f\xb2\x8e\xb3\x8b\x78\xb0\x4c\xbd\x5d\xe6\xb5\x64\x98\xc6\x70\x82\x5a\x85\xbc\x46\x8b\x32\x74\x7e\xe6\xa0\xc1\xde\x2e\x49\xf5\x1a\x9b\xbd\x15\xa9\xed\xfc\x8a\xca\x51\x26\x1a\xdb\x2e\x49\xd9\x2a\x0d\x2d\x63\x67\x9b\xf2\x4c\x9b\xfb\x6c\x97\xa4\xe8\x31\x26\xbe\x26\xcc\xa3\x36\x8a\x7b\x83\x01\x35\xd3\xe5\x80\xff\xf7\xe5\x97\x7e\x3f\x69\x04\x77\xd4\x34\xd1\x05\xcf\xba\xe1\x18\xe4\x30\xbd\x1f\x58\xa9\x61\xe9\xa0\x40\x2b\x2a\x53\x0a\x3f\x80\x80\xfb\xc7\x50\xe1\xef\x3f\x2a\x60\x43\x61\x52\x98\x16\x47\x8b\xc4\xc1\x92\x99\x3d\x3f\xd2\x53\x32\xeb\x65\xfb\xfe\x8a\x99\x59\xf4\xf4\x92\xd9\x29\x15\xb0\x4b\x1c\x92\x5e\xbd\xfc\x66\xb0\x08\x86\x55\xec\xb6\x36\x8e\x8a\xa1\x59\x00\xc8\xc7\xb5\x5f\xf5\xda\x0a\x7f\xfa\x60\x61\x41\xad\xa7\x9e\xe6\x80\x12\x38\x03\xaf\xf1\x7a\x11\xf0\x49\xa7\xf1\xf1\xf2\x17\x7b\x97\x98\xc5\xdb\x9d\x88\x64\x04\x91\xa7\x33\x17\xf0\xc5\x67\xd9\x17\xd1\xa8\xb3\x86\x5b\x1b\xc3\x11\x24\xf8\x90\x36\x87\x27\xd7\xf5\x06\xcb\x7a\x43\x55\xbd\x87\xf0\xf8\x9a\x9e\xac\x93\xaf\x0e\x0b\xc1\x67\x8a\x25\x98\x06\x7d\xde\x1e\x6a\x0e\xba\x75\x19\xdf\x00\x5d\x95\x27\x1a\x20\x37\xd2\x0b\x0c\x76\x42\x82\x73\x32\x55\x47\x84\x50\x7b\x6b\x41\xae\x7a\x1e\xba\x6c\x97\xca\x41\xc0\x8e\x2f\x98\xeb\x4f\x41\xe0\xce\x5f\xb1\x46\x54\x4b\x09\xe8\x4e\x30\x0a\x43\xbf\x1c\x8c\xc7\xbb\xce\x37\xc6\x38\x62\x04\xba\x60\x66\x9a\xde\xb8\x49\x12\x6b\x0a\x8e\x20\x6b\xbf\x2d\xd0\x43\x06\xce\x98\xb9\xd2\x11\x7e\xcf\x69\xc5\x72\x94\x45\x14\x51\x65\xd2\x3c\xda\x7f\x95\x7f\x8b\x19\xb4\x9a\x51\x72\x5b\xe1\x6c\xf8\x87\x30\xdc\x72\x5f\x83\xa9\xf1\xf6\xb8\xe1\xdc\xdb\x54\x25\x5e\x6b\x9b\x8d\xf7\xdd\xd5\x02\x0b\xbf\xac\xe0\x0a\xdb\x36\x78\x29\x5b\x2d\x10\x6d\x9b\xc9\xe9\x43\x56\xb6\xa9\xb4\x75\xdf\x53\x72\x5d\x1e\xea\xd4\x3a\x71\x95\xd7\xe6\xb9\x2b\x76\xda\x81\x0f\xdb\xb7\x3e\x31\x64\x8c\xc6\x1a\x7f\x92\xb1\x3e\xd5\x20\x01\x6f\xb1\xa2\xb5\x22\x37\x37\x02\xfa\xda\x98\xb9\xb6\x29\x94\x66\x0c\x12\xf5\x8a\xdd\x51\x8c\xa8\x05\xd0\x52\xea\xa2\x46\x9d\xec\xb8\x0e\x3d\x31\x17\x0b\x62\x5d\x4e\x68\x45\xea\xb2\x82\x70\xe9\xa9\x40\x23\x48\x55\xd4\xd4\x6e\x25\x98\xaa\xa8\xbb\xec\x19\xaa\x45\x83\xe5\xcb\x39\x1c\x57\x06\x16\x33\xad\xe0\x34\xec\x15\xaf\x39\xd6\x0c\xed\xb4\x67\xf2\x6b\xe6\x59\xc8\x3e\xc8\x4f\x2b\x7c\x0d\xf4\x75\x36\x0b\x98\x08\x7c\x1b\xb9\x42\xf3\x2f\x5d\x55\x9d\x8e\x59\xbf\x33\x8a\x98\xba\x11\x8f\x59\xc1\x73\xfa\x9a\x9e\x5b\x8b\xe7\xd2\xfd\xde\x6d\xb9\x0f\xcd\xb7\x5d\x0d\x42\x43\xb7\xe1\xf7\xa0\x32\xf2\xbe\x05\x15\xaf\xb0\x72\xd5\x76\x3f\x3a\x3a\x85\xf4\x23\x46\xd0\x65\xdb\x33\x89\x95\x58\xfb\xeb\xb5\x62\xcd\xd5\x7d\x4d\x75\x74\x6d\xf3\x07\xf1\xf4\xcd\xfb\x47\xa1\x3b\x8b\xa3\xcf\xb2\x68\x04\x67\x43\x4b\x74\xa9\x69\xd1\xaf\x1a\x88\x71\x1b\xec\x48\x3a\xd9\x56\x06\x4b\x87\x2a\xe8\xf6\xdb\xd6\x29\x93\xc1\x95\x1d\xf9\xdb\x8e\xac\xf5\x65\xbb\xb1\xc4\x8c\x89\xdc\x1c\x03\x22\x9f\x38\x28\xe4\xa8\x2b\x27\xb2\x97\xd6\xbc\xc4\xaa\xa8\x93\xf0\x24\xae\x1a\x08\x89\xc7\x28\x4b\xfa\x66\x33\x3e\xfb\xc3\xbf\xfe\xcd\x0f\xbf\xff\xe7\x1f\xfe\xe9\xdf\x7e\xf8\xfb\xdf\xfd\xf1\x1f\xff\xf6\x3f\xff\xfd\x3f\xfe\xf0\xfb\xbf\xfb\xe1\x5f\x7e\xf7\xc7\xdf\xfd\xc3\xd9\xd8\x25\xc1\xa6\x1a\xf4\x51\x9a\xf0\xe3\x14\x21\x3e\x52\x03\xb6\x28\xfb\x88\x85\x0e\xad\xd3\xe6\xf2\x6e\xf3\x78\x66\xc9\xfd\xa2\x1f\x0f\x0f\x5d\xcb\x56\x61\x43\x6b\xa8\xc5\xb5\x6b\xde\xf4\xf0\x61\xf3\xd6\x82\xad\x9d\x3b\x31\x53\x28\x94\x23\x88\x64\x0a\x69\x18\x6d\x68\xfb\x0a\xe5\x56\xe1\xa7\x2d\xcc\x39\x1c\xa2\x9f\x86\x7a\x0c\xd0\x27\xbf\x2d\x08\xdd\x98\x23\xb7\xeb\xa5\x8c\xbb\x2c\xa7\xf1\x47\xed\xf2\xaa\x56\xde\xd2\x5d\xb6\x77\xe5\xdb\xd9\xe2\x34\xbe\xb3\xc7\xe9\xd9\xf6\x26\xff\x89\x69\x1d\xb2\x19\xbd\x84\xd8\x49\xfd\x16\xe3\x64\x9b\xf1\x94\xab\xed\x25\xe2\xc4\x1a\x0d\xc7\xae\x7d\x86\xe3\x04\x59\xf9\xb6\x63\x4b\x14\x7f\x3e\x6a\xd4\xcf\xf6\x1d\xa4\xfd\x2d\xbb\xf5\xb3\xf3\x8b\x7e\xe8\xa2\x73\x1b\x33\x69\xe6\xc0\x25\x10\x7e\x26\x5a\x8e\x75\x74\x48\xfb\xb6\xf4\xc2\x54\x5d\xaa\x8d\xe6\x5c\x99\x4f\x3c\xfa\x61\x13\x06\xdd\xdd\xa8\x49\x55\xaf\xb8\xfa\xd8\xc0\xf7\x98\xe8\xe9\xfc\x40\x0f\xbd\xdb\xcb\x1f\x9f\xc1\xcb\x32\x5f\xeb\xcf\x45\x21\xc2\x7a\xb4\xa4\x5e\x9e\x5c\x54\xcb\x3c\x83\x89\x2b\x94\xe1\x5c\x6c\xaf\xe0\xbd\x4c\xcd\xd9\x4a\x2d\xfc\x03\xb0\x55\x21\x14\x86\x5e\xd9\x52\x7f\xe8\x06\x53\x72\x51\x72\x29\xe1\x6c\x4c\x2b\x6a\xf2\x7b\x4d\xef\x81\x50\xaa\xb5\xc8\x1d\xf9\xd1\x66\xd9\xce\x76\x9f\x1f\xce\x75\xdb\x64\x77\xb0\x3d\x3d\xdc\x9f\x1e\x6c\x50\xeb\x6d\x83\xf7\x47\x5c\xc5\xc3\x61\xe8\x0c\xc7\xc1\x8f\x8e\xf5\x9c\x4b\x99\xa2\x24\xca\x2f\x6c\xc8\xaf\xab\x13\x58\x51\xc2\x28\x06\x3e\x5b\x45\x23\xd0\x9c\xb5\xe5\x0f\x73\xb2\x08\x5c\xbd\xc5\x7d\xce\x33\xc6\x03\x90\x12\x8f\xcb\x7f\xbd\x9c\xcd\x78\x13\x23\xae\xfe\x21\x6f\xf0\x4f\x49\x50\xea\x1d\xec\x7e\xe3\xec\xe0\xf7\x51\xdc\x27\x4f\x8f\x6d\x43\xbe\x78\x74\xf3\xfa\x63\xee\x90\xd8\x73\x74\x38\x1f\x4c\xe9\xd6\xfd\xa6\x1b\xa4\x88\x0b\x22\x5a\x8e\x40\x36\x2b\xf3\xdb\x7d\xc2\x8e\x92\xd5\xdd\xaf\xe7\x1d\x7b\x0b\x14\x05\x49\x27\x07\xb0\xde\x5a\x95\xda\xb8\x2e\xf9\xeb\xe5\x44\x4e\x1b\x31\xe1\xf1\xd6\xed\x4d\x32\x91\xde\x2d\x2e\x4c\x57\xfb\xc6\xa0\x51\x6e\x56\xfe\x57\x41\x34\x10\xfe\x5c\xce\x35\x69\xc9\x70\x85\xc5\x7d\xb3\xce\x6d\x1c\x4f\xa6\x9b\x4d\xe7\x93\x18\xec\x96\x7b\xdc\x3f\xf6\xf3\x32\x38\xe5\x88\xcf\xcb\xb4\x90\x0f\xde\x9e\xe9\x7c\x1c\x37\x75\xfc\xa3\x3b\x09\x89\x2f\xb8\x81\xcf\xca\xec\x87\x40\x47\x27\xfe\xfc\xbe\x2e\xd3\xd2\x75\xf0\x1a\x2c\x99\x40\xa7\x10\x17\xd0\xa5\x19\x2f\x91\x38\xb2\x4f\xfa\xba\x0c\x0a\xca\x1b\x41\xce\x67\x44\xd7\xe6\xaf\xca\xde\x31\x5e\x6f\xb0\x1d\xb1\x75\x16\xe9\xd4\xcf\xcf\x78\x52\xf6\xee\x2b\x9c\xfe\xf9\x19\x0f\x8e\x3b\xd8\x7c\x98\xb9\x1e\x79\x00\x70\xd6\xe5\x6e\xcb\xda\x9d\x0f\xcb\xd0\x4a\xdb\xfd\x90\xa1\x75\xbc\x8a\x3c\xb2\x6c\xb3\xe9\xb2\xbd\xbf\x33\x54\xc8\x39\x59\xb3\xe7\x72\x3e\x5c\x88\xdf\x3d\xa3\xda\x77\x87\x73\xcf\x49\xf7\x42\xce\xd3\x27\xda\x89\xf5\x9f\xcd\xec\x3b\x4a\x60\x75\x79\xe0\x42\x28\xb1\x87\xaa\xb5\xed\xe1\xba\x1e\x7d\xd9\x2e\xa8\x6a\x82\x8f\x38\x5c\x87\xc5\x3e\xa8\x26\xbf\xc1\x43\x23\x54\x2f\x95\x4e\x5e\xf6\x33\x1f\xcf\x59\xb9\x36\x3d\x22\xec\x1c\xda\x43\x24\xe6\x6b\x7f\x4b\xcc\x39\xb0\x51\x83\xe8\xa1\x01\x2c\xa5\xc0\x36\x21\x5d\x51\x22\xa3\x36\x88\xf7\x40\x37\x0f\xd7\xa5\xb8\x7c\x04\xe5\xb4\xe3\x8e\x5c\x1f\xa3\xbf\x80\x6a\xf9\xdc\xd1\x41\xb3\x3e\x92\xe0\x2f\x4c\x0b\xe1\x0a\x2d\xd8\xe4\x94\x73\x40\x48\x11\xd5\xd4\xed\xb3\x13\xce\x01\x79\xb3\x0f\x7c\x54\x02\xc9\xff\xef\xfe\xa8\x44\x8b\xdd\x6e\x48\x30\xe8\x80\xae\x97\x93\x5c\xc8\x05\x6f\x4e\x39\xe6\xd3\xff\x45\x89\x63\x43\x89\x53\x3e\x29\x61\x8f\x9c\xf4\x0d\xbf\xdc\xf5\x0a\x8e\x1a\xed\x14\xbc\x6f\x4b\x04\xc1\x11\xf1\x49\xe8\x1d\x28\xe9\xa8\xbe\x7f\x8a\xe4\x09\x3f\xe4\x23\x76\x8f\x8f\x6c\x9f\x1e\xe9\x9c\xd6\x75\x06\xc4\xee\x84\xde\xb3\x22\xbd\x26\x96\xf2\x20\x0f\x91\x8f\xfe\x5c\x04\x12\x34\xd4\xee\x1e\x32\xef\xae\xcb\x3d\xc0\x8d\x5e\x1b\x77\xdc\xe7\x22\xac\xfd\xff\x93\x7d\x18\x62\x00\xe5\x23\x5c\x12\x0c\xfb\x24\x3c\xdc\x77\x84\xbb\xe1\x4d\x63\xd7\xdb\x71\x3b\xe3\x31\xec\x7a\x9e\xf1\x18\x1e\x3c\xe8\x76\x72\xaa\x4f\xf8\xdb\xc9\x9f\x7f\xbe\xfb\x2e\xc5\x1e\x2b\x5c\x5e\x42\xf4\x5e\xd0\xbd\xb5\xf7\xd1\xc0\x32\xb6\xef\xbc\x0b\xc4\x1e\x2f\xb6\x88\xf4\xf4\x6a\x7b\x3f\x77\x71\xac\xf3\xed\x6b\xa2\xee\xf7\xbe\xfd\xdf\x81\xf2\x75\x98\x7c\x70\xbf\x0b\xa6\x7e\xde\x1e\x0f\xdc\xbd\x10\xe4\xfe\x97\x75\xe8\x4c\x11\x95\x35\x74\x8a\x30\xe0\x94\x51\xd4\xd6\xa2\x3f\x97\xf3\x6d\x9f\x7c\xae\x71\xfd\x69\x1c\xf3\xb1\xb1\xd4\xa1\x4e\xa6\x65\xf9\xa0\x23\x76\x0b\xe9\x1d\xe1\xc0\x25\x9e\x18\xfe\x6b\x00\xfe\x7c\x6d\x15\x09\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5d\x8f\xdc\x46\x76\xe8\x33\xf9\x2b\x8e\x09\x5b\x26\xe7\xf6\xb0\x7d\x2f\x70\x83\xcd\x18\x13\x40\x96\xc6\xb6\x76\x2d\x69\x56\x1a\xad\x1f\x04\x41\x5b\xdd\xac\xee\xe6\x0e\x9b\xa4\xaa\xaa\x7b\xa6\xb7\x33\x2f\x79\xd9\x00\x09\x10\x20\x4f\x79\x08\x16\x79\xca\x6b\x90\xe7\xfc\x9e\x75\xb0\xff\x22\x38\x55\xa7\x8a\x45\x36\xd9\x1f\xb2\x77\x91\x00\x31\x12\x7b\x9a\xac\x3a\x75\xbe\xea\x7c\x56\x71\xc7\x63\x78\x52\x65\x1c\xe6\xbc\xe4\x82\x29\x9e\xc1\x64\x03\x13\x26\xaa\x32\x85\xa7\x2f\xe1\xc5\xcb\x1b\xb8\x7a\xfa\xec\x26\x0d\xc7\x63\x78\xc5\xc5\xaa\x2c\xf3\x72\x6e\x06\xc0\x5d\x5e\x14\x50\xad\xb9\xb8\x13\xb9\xe2\xa0\x16\xb9\x84\x59\x5e\x70\x3d\xf8\x57\x5c\xc8\xbc\x2a\x2f\x60\xbb\x4d\xe9\xef\x87\x07\xef\x05\x3c\x65\x8a\xfb\x6f\xf1\xf7\xc3\x43\x18\xd6\x6c\x7a\xcb\xe6\x1c\xdf\x5c\x9b\x3f\x5f\xb0\xa5\x7e\x33\x1e\xc3\x8d\x5d\x03\xa6\x55\xa9\x58\x5e\x4a\x58\x72\xb5\xa8\x32\x09\xaa\x82\x25\xbb\xe5\x90\x97\x59\xbe\xce\xb3\x15\x2b\x80\x97\x59\x5d\xe5\xa5\x92\x30\x13\xd5\x12\x24\x17\xeb\x7c\xca\xe5\x08\xd1\x10\xfc\xc3\x8a\x4b\x05\xac\xcc\x40\x70\x59\x57\xa5\xe4\xa0\x36\x35\xd7\x90\x70\x28\x52\x54\x49\xde\x40\x19\x01\x93\x70\xc7\x8b\x02\xff\xcb\xcb\x69\x95\x71\x21\x11\x00\xc2\xcb\x38\xfd\x9e\x55\x82\x26\x6a\x68\x23\xfd\x80\x21\xa7\x66\x50\xad\x04\xc8\x55\x5d\x57\x02\x39\xad\x04\x2b\x25\xfe\x8d\x98\xe5\xac\xc8\x7f\xcb\x54\x5e\x95\x08\x6d\x56\x89\x25\x53\x32\x0d\xc3\x7c\xa9\x47\xc4\x61\x10\x4d\x36\x8a\xcb\x28\x0c\x22\xa4\x9d\xdf\x2b\xfc\x53\xa3\x91\x97\xf3\xf1\x6f\x64\x55\xe2\x83\xd9\x52\x3f\xcf\x2b\xf3\xef\x71\x5e\xad\x54\x5e\xe0\x8f\x92\xab\xf1\x42\xa9\xda\xfe\xbd\x12\xfa\xb1\x54\x62\x5a\x95\x6b\xfa\x33\x2f\xe7\x32\x0a\xc3\x20\x9a\xe7\x6a\xb1\x9a\xa4\xd3\x6a\x39\x9e\x57\xe7\xb7\xb9\x1a\xe3\xff\x5b\x5e\x44\x61\xc0\xca\x4d\x3d\x81\x68\x5e\x55\xf3\x82\xa7\xf3\xaa\x60\xe5\x3c\xad\xc4\x7c\x5c\x8b\x4a\x55\x93\xd5\x6c\xac\xe9\x1f\xdf\x96\xd5\x5d\x39\xd6\xa3\xa3\x30\xc8\x56\x42\x13\x79\xc2\xd4\x66\x4a\x14\x06\x7c\x59\xab\x53\xd6\xa5\xf1\x51\x18\xcc\x72\x5e\x64\x4b\x26\x6f\x4f\x98\xed\xcd\x89\xc2\x40\x2a\xb1\x9a\xaa\x13\xa6\xdb\x09\x51\x18\xa8\x7c\xc9\xa5\x62\xcb\xfa\x84\xe9\xde\x9c\x28\x0c\xee\x04\xab\x6b\x2e\xe4\x09\x00\x9a\x29\xbb\x22\x15\x79\x51\xb0\xf1\x72\x75\x1f\xb5\xdf\xd4\xb7\xf3\x31\x17\xa2\x12\x5a\xd3\xf6\x2c\xe4\x34\x4f\x3f\xb1\xea\xb7\x67\x82\xfe\x03\x11\xd9\x6e\xcf\x21\x9f\x01\xff\x00\xe9\x93\xaa\x9c\xe5\xf3\xf4\xc6\xed\x84\x88\x15\x45\x04\x51\xc9\x94\x8c\xe0\xe1\xa1\x8d\x1b\x3e\x3d\xcf\x2b\xfd\xdf\x74\x8e\x1a\x8e\xa0\x78\x99\x3d\x3c\x1c\x05\x75\x2e\xea\xa9\x85\xba\x83\xa7\x7e\x39\xf8\x66\xbc\xe4\x8a\x65\x4c\xb1\xee\xa2\x47\x2f\x89\xf0\x9b\x1d\x3f\xb0\xbf\xdc\x00\x8b\x8e\xb7\x16\xee\xdd\x13\x00\xe0\xf0\xe8\x28\xb6\x34\xcc\xc6\xbf\x4e\x58\x02\x87\xb7\x70\x4c\xc2\x30\x5c\x33\x01\x71\x18\xbc\x87\x4b\x98\x2d\x55\xfa\xba\x16\x79\xa9\xcc\x6f\x6d\xc0\xd2\x27\xd5\xb2\x66\x82\x9b\x47\x64\x7d\xd2\xc7\xaa\xca\xcd\x93\x16\x99\xe9\x0b\x7e\xf7\x9a\x8b\x35\x17\xe6\xa5\xb1\x66\xe9\x8b\xaa\x7e\x52\x54\xb2\x79\x9a\x3e\xa9\xea\x8d\xf9\x61\x94\x37\xfd\x5e\xb0\x3a\x0c\xc6\x63\x20\x79\x5a\x35\x34\x36\x1e\x87\x6a\x93\x94\x3e\x2e\xf5\xbc\xc6\xc8\xa4\x4f\xe9\x4f\x7c\x4c\xe6\x23\xbd\xc2\xff\xe2\x03\xbb\xa5\xd3\xd7\xfa\x0f\x7c\xe4\x6d\xd3\xf4\xc6\xfe\x8d\x2f\x9a\xed\x87\xa3\xf3\x72\xfe\x2b\x56\xac\x34\xdd\x9e\x5d\x49\xbf\xc6\xbf\x9f\x33\x79\x1b\x26\x61\x38\x3e\x3b\xea\x1f\xb8\xb2\x3e\x09\xec\xa3\xc3\xff\x8c\xb5\x07\x7d\x56\x02\x43\x7f\xb3\xe6\x62\x04\xb9\xfa\x5c\xc2\x4a\xf2\xd9\xaa\xd0\x6e\x6a\xb6\x2a\xa7\xc8\x05\x09\x6a\xc1\x14\x94\x1c\xbd\x54\x05\x55\xad\x63\x03\xa8\x70\x6e\xcd\xc5\xb9\x75\x03\x08\x70\xc2\x64\x2e\x53\xf8\xba\x12\xc0\xef\xd9\xb2\x2e\xf8\x08\x36\xd5\x0a\x96\xf9\x7c\xa1\xa0\x66\x12\x5d\xa4\x87\xb0\xaa\x80\xb9\x85\xcc\x3a\xb5\xa8\xb2\xd5\x94\x4b\x04\xc7\x4a\xad\x01\xe9\xb7\xac\xcc\x0a\xc4\xf1\x2e\x57\x0b\xe0\x6c\xba\x20\x4f\x0f\xb1\x5d\x3d\x81\xbb\x5c\xf0\x0c\x56\x35\x22\xc9\x40\xd6\x7c\x9a\xcf\xf2\x29\xd4\x4c\x2d\x52\x88\x9f\x29\x04\x98\x4b\xa8\x45\x35\x61\x93\x62\x03\x0c\x96\xb9\x54\x26\x4a\x80\x8c\xcb\x7c\x5e\xe2\xd4\xbc\x5c\x57\xb7\xe8\xee\x39\xa0\xb2\xe5\x53\xee\xa2\x0a\x8d\x22\x47\x38\x0d\x05\x46\x07\x20\x6f\x38\x99\x26\xe1\x78\xec\xb8\x3b\x2d\x72\x5e\xaa\x36\x77\x55\x05\xd3\xaa\x28\xf8\x54\x79\x01\x4a\xb1\x81\x69\x55\x1a\x70\x3c\xf3\xc2\x95\xbc\x44\x82\x10\xa0\xcc\xcb\x79\x61\x02\x13\xc3\xab\x1c\x39\xbc\xe4\x88\x87\x8f\x6f\x5e\x2a\x2e\x66\x6c\xca\x87\x24\x81\xc0\xdc\x62\xfd\x41\xd2\x0a\x17\x6b\xa2\x12\x1d\x2c\xe0\x06\x7c\x42\xf4\x4c\xab\xe5\x24\x2f\x35\x9f\x96\x84\xa2\x27\xd8\x11\x85\x52\x6a\x25\x4a\xc8\x15\xf2\x15\x11\x9c\xb2\xa2\xe0\x02\x23\x26\x66\x91\x4d\x43\x4d\xce\x0e\x43\xb7\x61\xf0\xa6\x74\xf4\xf1\x6c\xbb\x4d\xed\x0c\x13\x02\x92\x25\xd8\x6e\x05\x2b\xe7\x1c\x3e\xcd\xe1\xe2\x12\xdc\x98\xe7\x46\x64\x68\xc7\xb6\xdb\x4f\x73\x9a\x63\x57\x01\x00\x47\x6a\x6a\x1f\x86\xdb\xad\x31\xae\x26\xba\xb4\x8f\xe5\xe1\x25\x50\x81\x21\xf6\x88\x48\xc0\x5b\x34\x9e\xaa\x7b\xa0\x28\x0d\x5d\x03\xfe\x77\x84\x0a\x73\xb6\xdd\x7e\x53\x21\x62\xf0\x69\x9e\xbe\x32\x21\xe8\xcd\xa6\xb6\x04\x26\x10\x77\x46\x98\xc0\xd4\x1b\x32\x32\x06\x2e\x81\x6d\x18\xd8\xb8\x55\x3f\x43\x44\x79\xda\x43\x39\x22\x83\x8b\x27\x61\x80\xce\x4a\x08\xf8\xe4\x12\xca\xbc\x40\x08\x01\xc9\xab\xcc\x0b\x0d\x24\x0c\x1e\x42\xfb\xcc\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xf8\xe0\xd8\x89\xcc\x7c\xce\x6e\x3d\xf6\x84\xdb\xad\xde\xc8\x9f\x2a\x8e\x88\xa6\x0f\x38\xf8\x1c\x7c\x2e\x7f\xaa\xf8\x10\xa3\x11\x56\x1f\x65\x12\x99\xae\x78\xaf\x9a\x24\xbb\xe2\x86\xad\x23\x0e\xe5\xd7\x2f\x25\x9b\x18\xb8\x1d\xb5\x7d\x48\x20\xb6\xcc\xf0\x1f\x6b\x8e\x79\xe2\x08\x04\xff\x80\x84\x10\x84\x34\x3e\x24\xed\x30\x08\xd6\x4e\x76\xd2\x97\x1d\xa2\xa6\x51\x49\xc2\xa0\x47\x6a\xbb\x62\x43\xb9\xd9\xa7\x6b\x23\x8e\x00\xd5\xba\xf1\xcd\xbe\x6c\xd0\x39\x3e\x2e\x8a\xab\xfb\x29\xaf\x95\xf6\x53\xd2\x98\x58\xc7\x29\xed\xa1\x30\x65\xa1\xbd\x69\x5f\x48\xd0\x62\x64\x08\xc5\x8b\x09\x1c\xab\x9f\xe7\x59\x56\xf0\x3b\x26\x4c\x16\xf8\x46\xda\xbc\x10\x93\xa0\xba\x2e\x36\x68\x62\xd0\x6c\x2a\x04\xbe\x74\xa3\x75\xd6\xc5\xd7\x5c\x6c\x9c\xd8\x70\xbf\xa0\x05\xa1\xb4\x4d\xc3\x7b\x59\xa3\xd7\x60\x45\xb1\x19\xb9\x71\x12\xa6\xac\x84\x09\xd7\xbe\x86\x67\x38\x6d\xb2\x81\x12\xd9\xae\x2a\x7c\xce\xef\xa7\xc5\x2a\xe3\x99\xc9\x02\x27\x1c\x51\x40\x9a\x6b\x9e\xa5\x3b\xdc\x88\x1b\x9c\x46\x10\xbd\x56\x4c\xad\x64\x34\x82\xe8\x3a\x2f\xe7\x51\xe2\xf6\xfd\x99\x63\x48\x32\x38\xdf\x61\xe8\x71\x65\xd4\x60\x93\xa6\xa9\xd4\x61\x81\x56\x9e\xbc\xa4\xc7\x17\x97\xb0\x64\xf5\x5b\xf3\xea\x9d\x61\xff\xf6\x01\xd5\xab\xbb\x61\x7a\x76\x4b\x10\x04\x91\xa7\x46\xd1\x05\x6c\x1f\x46\x61\xe0\x87\x91\x0f\x61\x18\xa0\xaf\x7f\x8f\xa8\x20\x18\x03\xd2\xa1\x85\x2b\xe5\x33\x78\x3f\x82\xea\x16\x5f\x5b\xc4\xde\xf2\xfb\x77\x5f\xc2\x27\xd5\x2d\x62\x1b\x04\x35\x2b\xf3\x69\xdc\x44\x78\xb3\x38\xba\xb2\x20\x2c\xdd\xf0\xf9\x67\xf2\x73\xc8\x2a\x2e\xa1\xac\x14\xf0\xfb\x5c\xaa\x2f\x41\x72\xee\x0b\xde\xe5\x94\x3a\xa4\x47\xa4\x92\x84\xf4\x39\xe3\x05\x57\x3c\xb6\x18\xe8\x77\x86\x80\xa3\x58\xd1\x4b\x45\x8b\x3d\xef\xbe\x04\x4b\x4f\xaf\xe9\x84\x4b\x0f\xd3\xb8\x77\x08\xe1\xda\x30\xd8\xec\xb0\xef\xd8\x84\x17\x3c\x6b\x04\x6f\xaa\x25\x73\xae\xac\x9a\xa2\x6a\x3b\x46\x69\x6d\xbd\x5b\xf0\xd2\xbd\xad\x3c\xcd\x24\x60\x46\xc1\x46\x66\x43\x91\xce\xaf\xcc\x60\x30\x25\x18\x66\xea\x38\xf9\x14\xe3\x17\x91\x4f\x75\x44\xd5\x50\x00\x77\x8b\x7c\xba\xd0\xdb\x45\xf2\xb2\x0f\x05\x72\xda\x34\xdb\x86\x2c\x95\x20\x97\xbd\x4b\x15\xee\x87\xd8\xe8\xea\x68\xd7\xe0\xf6\xd8\xe0\x70\x88\xae\x8f\x36\x43\x3b\x48\x8d\x88\x4e\xcd\x71\xc1\xa7\x3c\x5f\xa3\x15\xe2\x86\xc4\x6a\xd6\xa2\x3b\x85\xd7\x9c\x3b\x30\x1e\x14\xfd\xc2\xc6\x9c\x84\xf0\xd5\x3d\x22\x8a\xbb\x27\xe3\x8a\xe5\x85\xc4\x90\xd8\xee\x1c\x04\x62\xe3\x5a\x56\xe4\x6a\x93\xee\xb3\x16\x2d\xda\xe3\xe5\x8f\xe0\xe8\xff\x9a\x94\xff\xb9\x26\xa5\x35\x75\x04\xc7\x5a\x98\xe3\xcb\x0e\xc7\x26\x94\xdf\xbc\xba\x7e\x82\x04\x73\x71\x72\x46\x89\xc1\x99\x37\x1d\x8b\xb0\xb2\x71\xf1\x4e\x14\xc0\xd6\x2c\x2f\xd8\xa4\xe0\x26\x19\x98\xbf\xba\x7e\x02\x03\x21\x3e\xed\x9c\x36\x64\x97\xf7\xc9\xc6\x0c\x8c\xa0\xd2\x11\x81\x44\xd5\x6f\x55\x58\xb4\x26\x73\x61\x02\x86\x64\x68\x21\xf4\x65\xd2\x1b\x28\x51\xb0\x6f\xdf\x0d\x43\x42\xc1\xf6\xbd\xfd\x8a\xcf\x2a\xc1\x63\xc4\xf6\x39\x55\x8a\x6e\x2a\x8a\x29\x93\x11\x6e\x91\xce\x3a\x97\x18\x0e\xf1\x32\x8b\x5b\x8f\x1d\x3d\x69\x9a\x26\xba\x7c\xb1\xdd\xc2\x4d\xf5\x5d\x75\xc7\x45\xa3\x91\xc8\x2a\x14\xae\x0d\xf8\x1e\x21\x46\xf8\x92\x8b\x2d\xfa\xc6\x83\x6a\x8c\xe3\x3d\x4d\xbb\x80\x36\x49\xae\xe8\x12\xe3\xee\x77\x6c\xef\x53\x4e\x0c\x2e\x82\xa7\xba\xf6\x8d\xb4\x7b\x23\x28\xde\xd5\x03\xae\xca\xde\x01\x94\xbd\xe0\x88\x16\x17\xd2\x34\xc5\x69\xc9\xc8\xd7\xfa\xc0\xba\xd6\x86\xd8\x6e\x32\xec\xc2\xed\x7e\x59\xbb\xd0\xdd\x38\x33\x0f\xce\x4f\x9e\x80\x76\x18\x0c\xd0\xe1\x30\x55\x37\xbc\xf0\x9c\x92\x26\x2a\x3b\xa0\x35\xf5\xf0\x53\x55\x43\xea\xf1\x54\x1e\x44\x53\x6f\xb2\x58\xc2\x59\xb3\x54\xd2\x80\x3f\x90\xcd\x62\xb2\xf3\xd3\xa6\xb3\xef\x31\xe3\xa9\xbd\x84\xa8\xc3\x45\x4d\x81\xd6\x22\x3f\x3d\x3a\x31\xa7\xad\x3f\x32\x9d\x25\xee\x1a\x55\x3f\xcc\xda\xf1\x18\xf6\xed\x0a\xc8\xd1\x04\x3a\x7d\xd0\xd5\xde\xd4\x4c\xa0\x11\x5f\xa3\x6c\x74\xc5\x07\xbb\x33\x5c\x28\x69\x0a\x42\x64\x36\xad\x4d\x70\x80\x5d\xde\x8a\x65\x19\xac\x3a\x89\xf3\xac\x5a\xb2\xbc\xdc\x37\x38\x85\x6b\x91\x2f\x99\xc8\x8b\x8d\x2d\x54\xf9\x55\x2d\x63\x85\xf7\xd1\x11\xbf\xdf\x55\x0c\xa4\xe5\x15\xff\xd0\x28\xa2\x4e\xa0\xbd\x5f\xed\x12\x86\x4e\x99\x69\xce\x31\x29\xb3\x93\xe4\x87\x3d\x62\xba\x2a\x8f\x16\xd3\x5e\xdb\xd4\x2b\x27\x33\xc3\x0e\x19\x12\xd4\x61\x11\xd0\x12\x5a\x60\x7b\xc4\x5a\x17\x9b\xa3\xe4\xb4\x97\x90\x3e\x41\xf5\xd5\x34\xf6\x49\x4a\xd6\x28\x2a\x3b\xeb\x88\x7d\xe4\x09\x4b\xd6\x7d\xd2\xfa\x96\x17\x58\x20\x0f\x8d\xa2\xf5\x3a\xcf\x7e\xe3\xb3\xcc\xc0\x36\x64\xd2\xe7\x4f\x93\xee\x00\xc4\x17\x4d\xe8\xed\x08\xd6\x4d\x3c\xba\x74\x91\xe8\xba\x55\x4c\xd1\x7d\x65\x0e\xb7\x7c\xa3\xc5\x9d\x61\xc8\x3a\xa9\xd4\x02\x79\x6c\x57\xa1\x8e\x2c\xc4\xb7\x09\x65\x17\x38\xb4\x28\xa0\x40\x79\x11\x14\x46\x39\x95\x2e\x9c\x3e\x61\x65\x55\xe6\x53\x56\x7c\xcb\x59\xc6\xc5\x2f\xf8\xc6\xa6\x1e\xb8\x90\xac\xa8\x9c\xab\x28\x93\xb3\x20\xa6\x53\x6e\xab\x18\x3c\x57\x0b\x2e\x68\x65\x7c\x8f\xac\xb8\x74\xb4\x7e\x9f\xab\x85\xee\x28\x20\x8b\x46\x9a\xd6\xb7\x5f\xbc\x4b\x0e\x0e\x1c\xc0\x2e\xbe\x4d\x1a\x08\x14\xd4\x93\xf8\xa6\xea\x5e\xfb\x5e\x1b\xf7\xed\xff\x47\xcb\xd1\xd4\x8c\x4f\x8e\x25\x5f\xf0\x3b\x6f\xb6\x59\x5e\xf7\x0f\xa8\x08\x04\x13\x36\xbd\x45\xf1\x6c\xec\x9e\x31\xc5\x76\xa4\xb5\xe4\xba\x77\x91\xc2\x33\x85\x72\xa4\xb2\x3d\xa9\x6b\x3e\xc9\x31\x25\xb3\x22\xa0\xaa\xb4\xaa\x20\xcb\x59\x61\x4a\xd7\x05\x53\x5c\xc0\x14\xfb\x4a\x98\x63\x73\x1f\xa6\x51\xd0\x16\x76\x31\xbe\x36\xae\x33\x35\xf8\x3e\xa9\xca\x72\x4f\x40\x6a\x06\xd9\x80\x34\x1e\x88\x48\xfd\x2d\x87\xd1\x41\xb7\x6a\x1a\xec\x26\x6d\x7e\x05\xb4\x31\x6d\xc1\x9a\x09\x97\x36\x79\x16\x61\x37\x81\x0c\x03\xdc\x06\x7d\x43\x2f\x77\x03\x43\x22\x5e\x6b\x19\xd2\x6b\xf3\x43\x0f\x07\x94\xa0\x4d\x69\x9a\xf4\xb1\xfb\xf4\xaa\x3c\x10\x34\x3e\xe5\x87\x82\xc6\x03\xf6\xc7\x94\xbe\x82\x26\xa2\xc6\x9f\x89\x23\x3b\xd6\x89\x9f\xe6\x27\x45\x98\xce\x34\x59\xbb\x65\x87\xca\x83\x61\x35\x9c\xeb\xc0\xda\xc3\xd4\xce\xbd\xf0\x3b\x0f\xde\xfb\x51\xb3\x5e\xf0\x60\x8d\x23\x1a\x45\xa4\x18\x68\x07\xfc\xf8\x70\x63\x8f\x1f\x7b\xca\x8f\xf1\x63\xfb\x3d\xd3\xb1\xe1\x06\xf9\x8c\x01\x3f\x66\x36\x31\xed\xb2\xa7\xfc\x44\x3f\x86\xc4\xbc\xd2\xc8\x1c\xe9\xc8\x70\xa8\x0b\x3a\xd0\xbd\x9e\xe4\xca\xea\x62\xd3\xe7\xcb\x7c\xb1\xfd\xf8\xf0\x63\x38\x4a\xbc\x2a\x8f\x88\x12\x0f\x0b\xc4\x0b\x16\xf7\x48\x78\x6f\x94\xd8\x92\xda\x3e\x3a\xfa\x83\x0f\x22\xf1\x38\x91\x9d\xda\x58\xd9\x1f\x25\x12\x16\xda\x7b\xca\x9b\xca\x0f\x3c\xcc\x4e\xe9\xb3\xdc\xb4\x0e\xee\x13\xa3\xa8\x7b\xa0\xc4\xb7\x7c\x23\xe1\xed\x3b\x5b\x8d\x3b\x00\xef\xa8\xc6\xd4\x32\x83\xb3\x43\x41\x8f\x36\xfa\x35\xcb\x45\xb3\x78\x18\xd8\xda\xdc\x6d\x13\x0a\x69\xf4\xd0\xea\x63\x73\x69\x6d\x2b\x5a\x53\x75\x9f\x6a\x9e\xc4\xb7\x49\x4a\x35\xc8\xa4\xa9\x67\x05\x06\xb0\xab\x5c\xe8\x9f\x26\xf0\xc0\x98\x41\x1b\x53\x34\x9e\x08\x53\xbf\x6b\x45\x59\x67\xcb\x0c\x6b\x5f\x96\x80\x9f\x57\x79\x19\x9f\x2d\xb3\x51\xf3\xe8\x1a\xe7\xc4\x7a\x26\x96\x3f\x12\x0b\x8e\x38\x83\x51\x08\xf5\xb4\x8c\x24\x8f\xad\x6d\x7d\x7b\x73\x73\x4d\x79\x81\x7d\x76\xf8\x9f\x71\x18\xea\x76\xb9\xe1\x72\xa9\xd5\x0b\x2e\x21\x62\x75\x5d\xe4\x53\x7d\x40\x44\x9f\xb9\xfb\x12\xa6\x0b\x26\x24\x57\x97\x2b\x35\x3b\xff\x59\xe4\x4a\x62\xb8\x2a\xa5\xf9\xd4\x15\x47\xc5\x5a\xd0\x13\xbd\x67\x0f\x97\xca\x10\x58\x55\x42\x2d\x78\xc6\x67\x79\xc9\x33\x7d\xb6\x41\xd2\x9e\xeb\x2c\x73\xb0\x40\xd6\x3e\x5a\xd3\x2e\x90\xf9\x87\x2e\x6c\xec\x91\xcf\x20\xd5\xf0\x75\x98\xee\xd9\xad\x4e\xbd\x06\x75\xe7\xed\xbb\x61\xe8\x5a\xfe\x7d\xaf\xa9\x6a\x66\xd6\xc0\x38\x54\xb6\x8a\x66\xfd\x93\xae\xd0\x92\x1b\x73\x23\x62\xee\xfd\x18\x9e\xf2\x78\xa6\xb8\x88\xbb\x6f\xd4\x93\x46\xb4\xb1\x27\xe6\x44\x03\xda\xa5\xf2\xa8\x92\x1d\x55\x74\x74\x79\x6e\x89\x8c\x59\xae\xee\x31\x6e\x7a\x55\xad\x10\x87\x24\xf4\x22\x09\x6a\x2e\x5c\x5c\x0e\xb2\xd9\x0d\x9d\xe0\x89\x8d\x72\x8e\x00\x69\x5a\xfa\x95\x79\x44\x35\xfa\xa5\x9d\x17\x63\xb8\x45\xc3\xf1\x6c\xed\x04\xfe\x1a\x6e\xaa\x37\x78\x76\xf0\xe1\x21\x4a\xd2\x6b\xa6\x16\xad\x31\xf8\xe0\x86\x2f\x6b\x8c\x7f\xf5\x08\xab\x4e\x03\x27\xb1\x74\x51\xb0\x5d\x15\x24\x8c\x7a\x4a\x83\x54\x1b\x44\xf2\xbc\x25\x75\xf3\xc3\xb9\x07\x33\xd0\x48\x14\x07\x7e\x63\x7a\x58\xd6\x0d\x9b\xd7\x7d\x05\xc2\x40\x97\xf5\x9b\x1a\x9a\xff\x27\x19\x8d\x25\x05\x55\xbe\xd2\x98\x66\x99\xce\x10\x4c\x58\x60\xdb\x5e\x76\xc5\xef\xf1\xbd\x18\x61\x96\x91\xf1\x19\x5b\x15\x0a\xbd\x9d\x51\x10\xdc\x91\xba\x7c\x58\xcd\xa0\x6b\x0b\x46\xc0\x60\x52\x65\x3a\xd1\x43\xdb\x60\x9a\x54\x98\xee\x45\x7a\x9d\xc8\x65\x88\x6b\xb4\xb2\x08\x4a\x3f\x4f\x35\x76\x71\x62\xf2\x10\x06\x52\x77\x9d\x01\xf9\x81\xa0\xfe\xff\x17\x5f\xa4\xf0\x8c\xda\x56\x38\xd2\xaf\x7b\x9a\x7d\xc3\x85\x3e\xd4\x8c\x23\x6a\x51\xad\x73\x4c\x61\x17\xfa\x0d\x36\xec\x8b\x02\xdb\xe0\x1a\x5b\xd3\x2d\xc4\x71\x4d\x4c\xe6\x83\x46\x28\x1e\x74\xa4\x22\x7d\xce\x84\x5c\x30\x7d\x18\xcb\xe2\xbf\x34\x8f\xb0\x93\x2e\x57\xd3\x29\xe7\x99\x34\x39\xd3\xcf\x5f\xbf\x7c\x41\x67\xa3\x33\x7b\x90\xd9\x26\x5d\x9a\x56\x87\x0e\x76\x2e\x87\xc9\x32\x8d\x77\x3c\x9a\x2e\x46\x36\x95\x73\x94\x35\x2f\x5b\xd0\x20\x2f\xa5\xe2\x2c\xb3\x3c\x33\x46\xd2\xb7\x10\x7d\x81\x88\x3b\xc3\x31\x82\x3b\x73\xf4\xac\xad\x06\x3a\x66\x44\xa9\x8e\xe0\x3d\x6e\x3f\x9f\x25\xc6\xfc\x60\x73\xb0\xe6\x62\xab\xa5\x78\x81\xb4\x58\x81\x62\x24\x92\xcf\x2c\xb7\x90\x81\xc6\xd1\xe2\x90\xb8\xcd\xdb\xc6\xcf\xe6\x33\xc0\x57\x5f\xe9\x25\x69\xea\x95\x29\x89\x3a\x40\x76\x1e\xb2\x3b\x4e\xbe\xb4\x2b\xe0\xb0\x4b\xcf\xe7\x22\xda\x70\xe9\xc0\xd9\xc4\x3e\xb8\x4b\x8d\xda\xc4\x49\xfa\x9a\xab\x38\x22\x43\x78\x7e\xb3\xa9\x79\x34\xf2\x5d\x9e\x21\x60\x61\x95\xcc\xc7\xbf\x6d\x1e\xac\x1e\x36\x74\xd8\x02\x8c\x6c\xc2\x0e\x0b\x87\x46\xcb\x58\x33\x37\xf0\xf1\x79\xca\x8b\xf8\x16\xb7\xb5\x8d\x5a\xbc\x02\xce\x9a\x62\x16\x7f\xfc\xe3\x2c\x8b\x3b\x11\x08\xfe\x9f\xde\x3b\x17\xe6\x34\x69\x6a\xf4\xe5\x19\xc6\x96\x25\x2b\x3c\x2f\xa2\x89\x93\xd3\x3d\x64\x79\x7a\xd8\x50\xa6\x81\x5f\x82\x9c\x12\x64\x7c\x4d\xd9\xe4\x5d\xaa\xb5\x86\xd0\xc3\x81\x89\x7b\x18\xa3\x38\x12\x34\x48\x8d\x62\x1a\xf3\x28\xe2\xc9\x6a\x06\x6f\xdf\xe1\x01\xd9\x84\x36\xc3\x36\xd4\xc1\xdc\x1d\xf8\x3a\xe6\xca\xdd\x56\x11\xdf\x94\x24\x7a\x84\x30\x82\x47\x77\xc9\x97\xdd\x72\xb8\x09\x63\x64\xfe\x5b\x0e\x97\xf0\xb3\xff\xfb\x97\x7f\x61\x74\xac\xe0\x25\xce\x49\xe0\xaf\xcc\x3b\x1c\x1a\x20\x1a\x97\x30\x59\xcd\xde\x5e\xe0\xc3\x77\xe4\x07\xc9\x98\xe2\x69\x0f\xcd\xb7\x59\x1c\x59\xf3\x01\x48\x94\x3e\xe8\x71\x81\x95\x2c\x6c\xca\xd6\x18\x0f\x41\x59\x95\xe7\xa8\x78\x2e\xd2\xc7\x81\xd1\x08\x81\x53\xc7\x95\xa0\xd2\x81\xdd\x17\xfc\x2e\xbe\x33\x1b\x47\xf3\x48\x1b\x59\x9f\x76\x7b\x06\x60\x1b\x06\x7a\x14\xfe\x46\x03\xf4\x6b\x5c\xe5\x82\x2c\xec\xaf\xc9\xde\xa3\xdc\x69\x14\x53\xb9\x9c\xe5\x78\xaf\x63\xc1\x9d\xb9\xd4\x96\xd6\x13\x6e\x93\x87\x48\xc8\xf5\x15\x0c\x7b\x0f\xe5\x98\x73\xd6\xa9\xe9\x28\x79\x8b\x3a\x54\x35\x5a\x78\x77\xc0\x2e\x85\x2b\x85\x81\x35\xce\x00\x7e\x6b\xde\xc5\xec\x56\x47\xe2\x45\x03\x34\xf1\x8c\x62\x9c\x40\xfb\x3c\xdb\x22\x6d\x56\x18\x98\xdd\xec\x39\x7c\x48\x3b\xa8\x05\x82\x90\x0a\x5b\xa5\xf4\x6e\x09\xe2\x60\xd0\xe2\x95\xa7\x0e\x44\x2d\xae\x6a\xb1\x37\x3c\xe8\x66\xc1\x1a\xfb\xfe\x5e\x89\xee\x98\x9a\x9b\x38\x38\x07\xad\xe3\x39\x39\x23\x3f\xc1\xb5\xeb\x5c\x33\xc1\x4b\x45\x49\xa3\xd3\x53\x7d\x4a\x0c\xfd\x15\x62\x65\x9f\x6a\xc8\xa8\xc1\x87\x4a\xf1\x81\x57\xc3\xd8\x4b\x56\x6f\x52\x0c\x67\xe4\x81\xf4\x90\xe1\x84\x38\xc8\xf8\x8c\x0b\x10\x29\x9a\xf5\xf4\x09\xd6\x2c\xd1\x00\x69\x8b\x81\xc9\x72\x93\x1f\x77\x68\x25\xc8\x68\xda\x31\x4a\xc2\x0d\xef\x1a\x6e\x74\xb8\xfe\x15\x67\xd9\xe3\xa2\x88\x0d\xf0\xe3\x0e\x20\xda\x13\xf7\x33\xf4\x88\x23\x88\xc8\x12\x08\xf4\xc6\x36\x22\x42\xca\x2c\x3b\x23\x2a\x32\x77\x0c\xd1\x17\x9a\xb6\x60\x65\x8d\x1a\xe6\x4e\x17\x97\xe0\x6e\x98\x34\xe6\x8e\x02\x41\x3d\x3c\x78\x5c\x14\xd5\xdd\x35\x13\x2a\x67\x05\x96\xdb\x94\x58\x51\xd4\xf8\x34\x97\x53\x26\xb2\x37\xa5\xbe\x0d\x74\xd1\xbc\x79\xa0\xdc\x17\x49\xbf\x04\x7f\xc1\x1d\x93\x8a\x6d\xc6\x1d\xa3\xda\x6f\x56\x87\x0d\x6b\xaf\x69\x25\x34\x5a\xcc\x74\x1b\x76\xdb\xc3\x56\xe2\xde\x47\xd9\x5c\xc3\x90\xc0\x73\x88\x5f\xb1\x8c\xd4\x81\xde\x21\x02\x0d\x5a\x2e\x9d\xc7\x94\xf3\x9a\x09\xb6\x94\x36\x9f\xf9\x15\x13\x32\x16\x28\x43\xbc\x71\xd1\xbc\xc7\xe4\xff\xc3\x8a\x8b\x4d\x33\x5c\xa4\x6f\x5e\x7d\x97\xfe\x12\x1f\xc6\x76\x82\x37\x24\xf4\x93\x1c\x73\xe8\xf4\xe2\xb2\xd1\x5a\x7d\x39\x82\x32\x1c\x7d\xe8\xa5\xb4\xc3\xd2\xef\x2a\x13\x79\x43\xa4\x89\x34\x63\x82\xed\x96\x5e\x7f\xc3\x4b\xbd\xa8\x93\x26\xa6\x3f\xad\x6a\xaf\xfb\x6b\x3f\x0a\x2f\x4b\x5e\xcd\x76\xf0\xe0\x1f\x76\xf1\xd0\x64\xfd\x18\x44\xdc\xb6\x7a\x24\xf8\x87\xa6\x77\x4d\x59\x8d\x2e\x31\xdb\xa1\x4d\xe9\xb0\x27\x63\xea\xb5\x98\x43\x5d\x4b\x63\x1f\xa5\x4d\x1f\x9c\x5f\x67\x52\xdb\xcf\x6e\xba\x60\x92\x27\x71\x42\x47\xb2\x07\xc1\x3e\xdb\xd7\x1b\x7c\x0f\x35\x29\x5d\x88\x34\x64\x28\x9e\xef\x98\x89\xae\x91\x70\xb6\xe0\x8d\xe4\xd7\x68\x60\xd0\x5e\x4a\xdf\x7c\xbc\x91\xfc\xaa\x5c\x2d\x5f\xac\x96\x13\x2e\xe4\x45\xf3\xe2\x6a\x99\xab\x37\x65\x5d\xd5\x2b\xcc\x99\x33\x67\x56\x1e\xc2\x96\x3d\x6d\x70\xb3\xe8\xb8\x63\xe4\x69\xac\x51\x4d\x9f\x73\x29\xd9\x9c\x27\xfb\xce\x31\x58\x35\x78\x3f\x22\x6b\xe5\xc2\x49\x1d\x49\x79\xa3\xfc\xa6\xaa\x3b\x8a\x28\x29\x18\xe8\x2b\xb2\xf4\x17\x1a\x77\xbc\xd0\x50\x77\xb5\x89\xcc\x6d\x44\xaf\x8d\xdd\xbe\x7e\x2a\x02\xde\xed\xa5\x2e\x98\x84\x05\xcb\xcc\xdc\xa1\xee\xa9\xee\xd9\x65\x78\xe2\x32\xc7\xb2\x71\xa3\xdf\xfe\xb5\x5c\xb5\xe0\x06\x8a\x09\xa4\x64\x6a\x9d\xbe\x6b\xda\xa2\x32\x63\x39\xd6\xd5\x1d\x2d\x3a\x94\xa5\x62\xba\x2e\x2b\x03\xa4\xdd\xa2\xdd\xdb\x9c\xdd\xdb\x72\xbd\x1d\x39\x0e\xa5\xdf\x70\x15\xdf\xa2\xc0\xf7\x77\x69\x3b\xf8\xc7\xb7\x49\x1f\x0c\xb4\xcf\xc8\xee\x55\xc9\x9b\xeb\x4f\xd3\x05\xda\xb2\x54\xbf\x61\x85\xac\x80\x65\x19\xed\x61\x6d\xed\x61\x25\x8a\x70\xff\xea\x11\x0d\x3d\xc7\x4b\xc2\x23\x32\xe2\xd7\x4c\x2d\x92\x43\x13\x9d\x54\xf0\xd0\x3c\xea\x1c\x1a\x91\x28\xf9\xe8\x66\x32\x82\xa0\xae\x8a\x7d\x76\x42\x33\xd9\x9b\xdd\xd4\x60\x7b\x7a\xc9\x25\xe0\x48\xb2\x5e\x50\xe4\x6b\x8c\x5a\x99\x22\xae\x2d\x2b\xa5\x0b\x10\x58\x5f\x60\x25\xde\xb1\xfa\x1e\x0f\xcc\xd7\xe6\x36\x97\x79\x86\x76\x72\x5a\x2d\xb9\xb9\x64\xd0\x2c\x92\xe5\x72\x8a\x77\xe4\x37\x20\x37\x52\xf1\xe5\x08\xa4\x3e\xda\x5d\xe4\xb7\xbc\xd8\x58\xa5\x43\x35\x82\x68\x51\x49\x75\x81\x1a\x1d\x91\x01\x6d\x51\x10\xbb\xa5\xec\xe9\xe0\xc1\xd2\xee\xe9\xad\xe6\x7c\x06\x9f\x58\x95\xfb\x96\xc9\x6b\xc1\x67\xf9\xbd\x5b\x71\x04\x11\xee\xca\xc8\xa4\xeb\x0e\x8f\x4b\xf3\xf8\x62\x3c\x8e\xe0\xff\x38\x4e\xa0\x56\x06\x2b\x67\x05\x57\xa2\x48\xaf\x31\x3a\x71\xd0\x8e\x3e\xb4\x85\xc1\xc5\x2a\xa4\x5b\xb6\x98\x59\xf6\x64\x1c\xd4\x78\x35\xd7\x11\xa2\x17\x95\x11\xa4\x57\xff\x36\xa7\xe5\x35\x43\x4c\xb5\x08\x01\xdd\x55\xe2\x76\x04\xa6\xa6\x0e\xe4\xe9\x31\xf1\xc3\xfb\x72\xc2\xc4\x9b\xe6\x6d\x8e\x2c\x8c\x9a\xba\xae\x0e\x17\x8e\xcf\x85\x82\xed\x16\x6f\xdf\x76\x93\x1f\x42\x1a\xdf\xea\x12\xa1\x0d\x36\xd0\xa0\xe6\x65\xc6\xef\x77\x67\x7c\x61\xe7\xe8\x18\x7f\x37\xab\xb0\x14\xf7\xb5\xf7\x31\xd8\xd0\xff\x0e\xf6\xcc\xeb\xb9\x79\xeb\xf5\xfa\xa9\x8d\x3f\x58\x57\xa6\x08\x32\x98\x56\xf5\xe6\xcd\xab\xef\xe2\xd5\x08\xfc\xf1\x5f\x31\xc9\xd1\x7c\x60\x7d\xd9\x0e\x6d\xa2\x83\x5d\xac\xda\x71\x69\xbb\x88\x4c\x9c\xe9\x39\x0f\xb0\xd3\xec\x0f\xba\xfd\x7e\x1b\xdb\x36\xd2\x6c\xfd\xdd\xfc\xe9\xcc\x55\xef\x11\x80\xbd\x72\x87\xf3\x3f\x95\xe4\x87\x2a\xed\x18\xb4\xec\x51\x09\x3a\x2b\xb1\x97\x5e\xef\x08\x82\xb6\x3c\x56\x8e\x13\x26\x39\x9c\xe1\x1e\x7e\xf3\xea\xbb\x91\xee\x3e\x91\x6b\x4a\xdc\x63\xdc\xbf\x25\xc6\x05\x17\x97\x70\x86\x13\xcc\x4f\xdd\x69\xa0\xf4\xc0\xb1\xf3\x11\xbe\xa1\x02\xc3\x13\x75\x6f\x7b\xa7\xaf\x31\xbe\x9d\xea\xc3\xec\x2b\x41\xa5\x1a\x54\x47\xbb\x71\x55\x05\xf5\xaa\x28\xf4\x73\xf2\x73\x3c\xc3\x08\x43\x42\xb5\x42\xd7\x6d\xc3\x57\x72\x4b\xba\xbc\x43\x6e\x6f\x69\x43\x58\x3f\x01\xc5\x58\x81\xca\x1d\x29\xc0\x8b\x4a\xd1\xf5\x5a\x04\x89\xb0\xb4\xa5\x58\xb0\x35\x07\xfb\xd9\x8c\xfd\x21\x89\x5e\x67\xa2\xdb\x59\x74\xc3\x4c\xdf\xb0\x41\xcb\x6f\x51\xc3\xcb\xca\xd4\x00\x60\xf6\x84\x92\x8e\x3d\x90\xaa\x8d\xab\x64\xbb\xde\x9f\x7f\xff\x8d\x0b\xe7\x70\xa9\xf7\xdc\xe6\x9d\xe9\x37\x7b\xd7\x3f\x86\xfd\x81\x5f\xf1\xe9\x19\x44\x2d\xb9\x3d\xf7\x23\x8f\x88\x0e\x7f\xb2\x8e\xb3\x8b\x78\xb0\x4c\xdd\x2d\xf3\x5a\x32\x4c\x63\x38\x41\xad\x42\x5e\xa3\x45\x19\x3a\x3f\x73\xd0\x60\x77\x4b\x52\xbd\xc6\x66\x6f\x45\xaa\x9b\x5f\x51\x39\xca\x44\x63\xdd\x92\x94\xad\xd2\xd0\x32\x76\xb6\x29\xcf\x34\xb9\x4f\xb7\x24\x45\x8f\x31\xf1\x35\x61\x1e\xb5\x51\xdc\x1b\x0c\xa8\x99\x2e\x07\xfc\xbf\x2f\xbe\xf0\xfb\x49\x23\xb8\xa3\xa6\x89\x2e\x78\xd6\x82\x63\x90\xc3\xf4\x7e\x60\xa5\x86\xa5\x83\x02\xad\xa8\x4c\x29\xfc\x00\x02\xee\x1f\x43\x85\xbf\xff\xa8\x80\x0d\x4b\x93\xc2\x34\x38\x5a\x24\x0e\x96\xcc\xec\xf9\x91\x9e\x92\x59\x2f\xdb\xf7\x57\xcc\xcc\xa2\xa7\x97\xcc\x4e\xa9\x80\x5d\xe2\x90\xf4\xea\xe5\xd7\x83\x45\x30\xac\x62\x37\xb5\x71\x54\x0c\xcd\x02\x40\x3e\x6e\xfc\xaa\x57\x27\xfc\xe9\x83\x85\x05\xb5\x9e\x7a\x9a\x03\x4a\xe0\x0c\x3c\xe1\xf5\x22\xe0\x93\x56\xe3\xe3\xe5\x2f\xf6\x2e\x31\x8b\xbb\x9d\x88\x64\x04\x91\xa7\x33\x17\xf0\xf9\x67\xd9\xe7\xd1\xa8\xb5\x86\x5b\x1b\xc3\x11\x24\xf8\x90\x36\x87\x27\xd7\xf5\x06\xcb\x7a\x43\x55\xbd\x87\xf0\xf8\x9a\x9e\xac\x93\x2f\x0f\x0b\xc1\x67\x8a\x25\x98\x06\x3d\x6a\x0e\x35\x07\xed\xba\x8c\x6f\x80\xae\xca\x13\x0d\x90\x1b\xe9\x05\x06\x3b\x21\xc1\x39\x99\xaa\x23\x42\xa8\xbd\xb5\x20\x57\x3d\x0f\x5d\xb6\x4b\xe5\x20\x60\xc7\x17\xcc\xf5\xa7\x20\x70\xe7\xaf\x99\xc8\xab\x95\x04\x74\x27\x18\x85\xa1\x5f\x0e\xc6\xe3\x5d\xe7\x1b\x63\x1c\x31\x02\x5d\x30\x33\x4d\x6f\xdc\x24\x89\x35\x05\x47\x90\xb5\xdf\x16\xe8\x21\x03\x67\xcc\x5c\xe9\x08\xbf\xe7\xb4\x66\x05\xca\x22\x8a\xa8\x32\x69\x1e\xed\xbf\xca\xdf\x61\x06\xad\x66\x94\xdc\x56\x38\x05\xff\x10\x86\x1d\xf7\x35\x98\x1a\x77\xc7\x0d\xe7\xde\xa6\x2a\xf1\x5a\xdb\x6c\xbc\xef\xae\x16\x58\xf8\x65\x4b\xae\xb0\x6d\x83\x97\xb2\xd5\x02\xd1\xb6\x99\x9c\x3e\x64\x65\x9b\x4a\x9d\xfb\x9e\x92\xeb\xf2\x50\xab\xd6\x89\xab\xbc\x36\xcf\x5d\xb1\xd3\x0e\x7c\xe8\xde\xfa\xc4\x90\x31\x1a\x6b\xfc\x49\xc6\xfa\x54\x83\x04\xbc\xc5\x8a\xd6\x8a\xdc\xdc\x08\xe8\x6b\x63\xe6\xda\x66\xae\x34\x63\x90\xa8\x57\xec\x8e\x62\x44\x2d\x80\x86\x52\x17\x35\xea\x64\xc7\x75\xe8\x89\xb9\x58\x10\x6b\x73\x42\x2b\x52\x9b\x15\x84\x4b\x4f\x05\x1a\x41\xaa\x65\x4d\xed\x56\x82\xa9\x96\x75\x9b\x3d\x43\xb5\x68\xb0\x7c\x39\x87\xe3\xca\xc0\xf9\x4c\x2b\x38\x0d\x7b\xc5\x6b\x8e\x35\x43\x3b\xed\x99\xfc\x8a\x79\x16\xb2\x0f\xf2\x37\x15\xbe\x06\xfa\x3a\x9b\x05\x4c\x04\xbe\x8d\x5c\xa1\xf9\x97\xae\xaa\x4e\xc7\xac\xdf\x19\x45\x4c\xdd\x88\x27\x6c\xc9\x0b\xfa\x9a\x9e\x5b\x8b\x17\xd2\xfd\xde\x6d\xb9\x0f\xcd\xb7\x5d\x0d\x42\x43\xb7\xe1\xf7\xa0\x32\xf2\xbe\x05\x15\xaf\xb1\x72\xd5\x74\x3f\x5a\x3a\x85\xf4\x23\x46\xd0\x66\xdb\x33\x89\x95\x58\xfb\xeb\xb5\x62\xe2\xea\xbe\xa6\x3a\xba\xb6\xf9\x83\x78\xfa\xe6\xfd\xa3\xd0\x9d\xc5\xd1\x67\x59\x34\x82\xb3\xa1\x25\xda\xd4\x34\xe8\x57\x02\x62\xdc\x06\x3b\x92\x4e\xba\xca\x60\xe9\x50\x4b\xba\xfd\xd6\x39\x65\x32\xb8\xb2\x23\xbf\xeb\xc8\x1a\x5f\xb6\x1b\x4b\xcc\x58\x5e\x98\x63\x40\xe4\x13\x07\x85\x1c\xb5\xe5\x44\xf6\xd2\x9a\x97\x58\x2d\xeb\x24\x3c\x89\xab\x06\x42\xe2\x31\xca\x92\xbe\xdd\x8e\xcf\xfe\xf0\xaf\x7f\xf3\xc3\xef\xff\xf9\x87\x7f\xfa\xb7\x1f\xfe\xfe\x77\x7f\xfc\xc7\xbf\xfd\xcf\x7f\xff\x8f\x3f\xfc\xfe\xef\x7e\xf8\x97\xdf\xfd\xf1\x77\xff\x70\x36\x76\x49\xb0\xa9\x06\x7d\x94\x26\xfc\x38\x45\x88\x8f\xd4\x80\x0e\x65\x1f\xb1\xd0\xa1\x75\x9a\x5c\xde\x6d\x1e\xcf\x2c\xb9\x5f\xf4\xe3\xe1\xa1\x6d\xd9\x2a\x6c\x68\x0d\xb5\xb8\x76\xcd\x9b\x1e\x3e\x6c\xde\x1a\xb0\xb5\x73\x27\x66\x0a\x85\x72\x04\x91\x4c\x21\x0d\xa3\x0d\x6d\x5f\xa1\xdc\x2a\xfc\xb4\x85\x39\x87\x43\xf4\xd3\x50\x8f\x01\xfa\xe4\xb7\x05\xa1\x1b\x73\xe4\x76\xbd\x94\x71\x97\xe5\x34\xfe\xa8\x5d\x5e\xd5\xca\x5b\xba\xcd\xf6\xb6\x7c\x5b\x5b\x9c\xc6\xb7\xf6\x38\x3d\xeb\x6e\xf2\x9f\x98\xd6\x21\x9b\xd1\x4b\x88\x9d\xd4\x6f\x31\x4e\xb6\x19\xdf\x70\xd5\x5d\x22\x4e\xac\xd1\x70\xec\xda\x67\x38\x4e\x90\x95\x6f\x3b\x3a\xa2\xf8\xef\xa3\x46\xfd\x6c\xdf\x41\xda\xdf\xb2\x9d\x9f\xad\x5f\xf4\x43\x17\x9d\x9b\x98\x49\x33\x07\x2e\x81\xf0\x33\xd1\x72\xac\xa3\x43\xda\xb7\xa5\x17\xa6\xea\x52\x6d\x34\xe7\xca\x7c\xe2\xd1\x0f\x9b\x30\xe8\x6e\x47\x4d\xaa\x7a\xc5\xd5\xc7\x06\xbe\xc7\x44\x4f\xe7\x07\x7a\xe8\xed\x5e\xfe\xf8\x0c\x5e\x96\xc5\x46\x7f\x2e\x0a\x11\xd6\xa3\x25\xf5\xf2\xe4\xa2\x5a\x15\x19\x4c\x5c\xa1\x0c\xe7\x62\x7b\x05\xef\x65\x6a\xce\x56\x6a\xe1\x1f\x80\xad\x96\xb9\xc2\xd0\x2b\x5b\xe9\x0f\xdd\x60\x4a\x9e\x97\x5c\x4a\x38\x1b\xd3\x8a\x9a\xfc\x5e\xd3\x7b\x20\x94\x6a\x2c\x72\x4b\x7e\xb4\x59\xba\xd9\xee\xf3\xc3\xb9\x6e\x93\xec\x0e\xb6\xa7\x87\xfb\xd3\x83\x0d\x6a\xbd\x6d\xf0\xfe\x88\xab\x78\x38\x0c\x9d\xe1\x38\xf8\xd1\xb1\x9e\x73\x29\x53\x94\x44\xf9\xb9\x0d\xf9\x75\x75\x02\x2b\x4a\x18\xc5\xc0\x67\xeb\x68\x04\x9a\xb3\xb6\xfc\x61\x4e\x16\x81\xab\xb7\xb8\xcf\x79\xc6\x78\x00\x52\xe2\x71\xf9\xaf\x56\xb3\x19\x17\x31\xe2\xea\x1f\xf2\x06\xff\x94\x04\xa5\xde\xc1\xee\x37\xce\x0e\x7e\x1f\xc5\x7d\xf2\xf4\xd8\x36\xe4\x8b\xc7\x37\xaf\x3f\xe6\x0e\x89\x3d\x47\x87\xf3\xc1\x94\x6e\xdd\x6f\xba\x41\x8a\xb8\x20\xa2\xe5\x08\xa4\x58\x9b\xdf\xee\x13\x76\x94\xac\xee\x7e\x3d\xef\xd8\x5b\xa0\x28\x48\x3a\x39\x80\xf5\xd6\xaa\xd4\xc6\x75\xc5\x5f\xaf\x26\x72\x2a\xf2\x09\x8f\x3b\xb7\x37\xc9\x44\x7a\xb7\xb8\x30\x5d\xed\x1b\x83\x46\x59\xac\xfd\xaf\x82\x68\x20\xfc\xb9\x9c\x6b\xd2\x92\xe1\x0a\x8b\xfb\x66\x9d\xdb\x38\x9e\x4c\xb7\xdb\xd6\x27\x31\xd8\x2d\xf7\xb8\x7f\xec\xe7\x65\x70\xca\x11\x9f\x97\x69\x20\x1f\xbc\x3d\xd3\xfa\x38\x6e\xea\xf8\x47\x77\x12\x12\x5f\x70\x03\x9f\x95\xd9\x0f\x01\xf9\x33\x34\xa2\x75\xe7\x05\x07\xf9\x0f\xf4\x75\x15\xfa\x30\xca\xc0\x0d\x1b\xff\x86\xdb\x9f\xf1\xbb\x34\x0d\x47\x0e\x5e\xa0\x25\xe3\xe9\x54\xe9\x02\xda\xbc\xc0\xeb\x27\x8e\x1d\x27\x7d\x97\x06\x45\xec\x8d\x20\xb7\x35\xa2\x0b\xf7\x57\x65\xef\x18\xaf\xab\xd8\x8c\xe8\x9c\x62\x3a\xf5\xc3\x35\x9e\x7e\x78\x37\x1d\x4e\xff\x70\x8d\x07\xc7\x1d\x89\x3e\xcc\x5c\x8f\x3c\x00\x38\x6b\x73\xb7\x61\xed\xce\x27\x69\x68\xa5\x6e\x27\x65\x68\x1d\xaf\x96\x8f\x2c\xdb\x6e\xdb\x6c\xef\xef\x29\x2d\xe5\x9c\xec\xe0\x73\x39\x1f\x2e\xe1\xef\x9e\x6e\xed\xbb\xfd\xb9\xe7\x8c\xfc\x52\xce\xd3\xa7\xda\xfd\xf5\x9f\xea\xec\x3b\x84\x60\x75\x79\xe0\x2a\x29\xb1\x87\xea\xbc\x56\xcc\x7a\x7b\x62\xe9\xf5\x0e\x6b\xaa\x0c\xa4\xe3\xaf\xbe\x40\x8c\xa7\xd1\x73\xdd\xb2\x11\x1c\x47\x95\x95\xeb\x9a\xe0\xe7\x0b\x24\x9d\x9d\xd2\xd0\x2a\xd5\xfa\x76\x1d\x2b\x37\xe6\xab\x78\x74\xe6\xbc\x59\xad\x7b\x3c\xfe\xac\x7d\x3e\xfe\x53\xef\x80\xbc\x16\x52\xd7\x8c\x1c\xb8\x1c\x83\x78\x6f\x28\x82\x1f\x41\x39\xf5\x1c\x57\x82\x8b\xa2\x0c\x2f\x2e\xfd\xdb\x2f\x5a\x10\x13\xe7\x7b\x5a\xe9\x89\x5b\xdc\xde\x9a\x79\xb4\x94\xf3\x07\x92\x88\x77\x85\xa5\x9c\xa6\xd7\xab\x49\x91\xcb\x45\x4c\x37\xaf\x27\x49\xb3\xa3\x06\xb7\x66\xb7\xea\x8d\xcb\xb9\xaa\x77\xb7\x43\x47\x25\x6f\xe4\x36\x56\x64\xa1\x9a\xfc\x06\x4f\xf6\x50\x51\xbb\x23\xba\x4d\x0a\xcf\x51\x06\x38\xf2\x1c\xdb\xbb\xf6\xa4\x8f\xf9\x24\xe3\x0a\x13\x43\xec\xa6\x21\x34\xf4\x52\xa5\xcc\xb1\x97\x4b\xf7\xc8\xc8\xf3\x0c\xe2\x3d\xd0\x72\x1d\x66\xfd\xc1\x03\x92\x56\xa5\x5b\xdb\xdd\xac\x8f\x24\xf8\x0b\xd3\x42\x28\xdc\x06\x6c\x72\xca\x61\x2d\xa4\x88\x1a\x1f\xf6\xd9\x09\x87\xb5\xbc\xd9\x07\xbe\xfc\x81\xe2\xfc\x73\x7f\xf9\xa3\xc1\x6e\x37\x6e\x1b\x8c\x12\x48\x77\xb9\x38\xe5\x2c\x56\xff\x67\x3f\x8e\x8d\xf7\x4e\xf9\xee\x87\x3d\x17\xd4\x37\xfc\x72\xd7\x01\x3b\x6a\xb4\xff\xf5\x3e\x00\x12\x04\x47\x04\x91\xa1\x77\xea\xa7\xa5\xfa\xfe\x51\x9f\xa7\xfc\x90\x3b\xde\x3d\xe3\xd3\x3d\xe2\xd3\x3a\x52\xed\x6c\xb5\x35\xe4\xbd\x07\x7a\x7a\xbd\x19\x25\xab\x1e\x22\x1f\xfd\x4d\x0f\x24\x68\xe8\x4c\xc2\x90\x27\x75\x47\x11\x06\xb8\xd1\x6b\xe3\x8e\xfb\xa6\x87\x75\xb5\x7f\xb2\xaf\x77\x0c\xa0\x7c\x84\xf7\x87\xfd\xee\x9f\x0b\x61\x81\x35\x8e\xf6\x38\x8f\xef\x4d\x6d\xfb\x99\x47\x8f\x7c\xb0\xc6\x7b\xed\x89\x0a\x6c\x9b\xff\x6c\x67\x92\xf6\x4c\x7d\x0d\xf1\xde\x6f\x8a\x1c\x1b\xa7\xf4\x75\xaa\xf7\x07\x2a\xfd\x1f\xdb\xf2\x75\x90\xc2\x95\x7e\x17\x4a\x4d\xd3\x3d\x1e\xb4\x7d\xeb\xca\xfd\xcf\x17\xd1\xc1\x2d\xaa\x1d\xe9\x3c\x6c\xc0\xa9\x62\x10\x66\x2d\xf2\x73\x39\xef\xfa\xd4\x73\x8d\xeb\x4f\xe3\x58\x8f\x0d\x3b\x0f\xb5\x8b\x2d\xcb\x07\x1d\xa9\x5b\x48\x6b\xb4\x03\x97\x78\x62\xf8\xaf\x01\x00\xac\x0c\xf4\x68\x6e\x6b\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27145, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x30, 0x4, 0x3a, 0x4b, 0x2d, 0x1, 0x4a, 0x3a, 0xb2, 0xf0, 0xdb, 0x5f, 0x70, 0xfd, 0xe2, 0xd9, 0x8e, 0xaf, 0xcc, 0x40, 0xb4, 0x77, 0x4, 0x6c, 0xcf, 0x94, 0x20, 0xa8, 0xda, 0xed, 0x14, 0xaf}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27502, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x6a, 0x2b, 0x52, 0x36, 0x9d, 0xf6, 0x59, 0x21, 0x8d, 0xc6, 0xff, 0xb4, 0x40, 0xcc, 0xde, 0xc4, 0xc4, 0x6d, 0xef, 0xbb, 0x1, 0x1c, 0x19, 0xea, 0x8c, 0x65, 0x7a, 0x3a, 0x0, 0x68, 0xe2, 0xd8}}
 	return a, nil
 }
 
-- 
2.43.0


From e65e1301f9c001b0f0761d6d3c9cc3bf51d39e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 39/53] fix: carry oneofs over NATS

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 36 ++++++++++++++++---
 gengokit/template/template.go                 |  8 ++---
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index fc41dd1..60967a6 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -765,7 +765,11 @@ type natsServer struct {
 {{range $i := .Service.Methods}}
 func DecodeNATS{{.Name}}Request(ctx context.Context, msg *nats.Msg) (interface{}, error) {
 	var req {{GoName $i.RequestType.Name}}
-	if err := json.Unmarshal(msg.Data, &req); err != nil {
+	unmarshaller := protojson.UnmarshalOptions{
+		AllowPartial:   true,
+		DiscardUnknown: true,
+	}
+	if err := unmarshaller.Unmarshal(msg.Data, &req); err != nil {
 		return nil, err
 	}
 	return &req, nil
@@ -791,7 +795,11 @@ func natsErrorEncoder(_ context.Context, err error, reply string, nc *nats.Conn)
 // JSON object to the subscriber reply. Many JSON-over services can use it as
 // a sensible default.
 func EncodeNATSGenericResponse(ctx context.Context, reply string, nc *nats.Conn, response interface{}) error {
-	return natstransport.EncodeJSONResponse(ctx, reply, nc, response)
+	buf, err := marshalNATS(response)
+	if err != nil {
+		return err
+	}
+	return nc.Publish(reply, buf)
 }
 
 /************************************** NATSClient ******************************************/
@@ -831,7 +839,11 @@ func DecodeNATS{{$i.Name}}Response(ctx context.Context, msg *nats.Msg ) (interfa
 		return nil, errors.New(*errResponse.Error)
 	}
 	var resp {{GoName $i.ResponseType.Name}}
-	if err := json.Unmarshal(msg.Data, &resp); err != nil {
+	unmarshaller := protojson.UnmarshalOptions{
+		AllowPartial:   true,
+		DiscardUnknown: true,
+	}
+	if err := unmarshaller.Unmarshal(msg.Data, &resp); err != nil {
 		return nil, err
 	}
 	return &resp, nil
@@ -843,6 +855,22 @@ func DecodeNATS{{$i.Name}}Response(ctx context.Context, msg *nats.Msg ) (interfa
 // JSON object to the Data of the Msg. Many JSON-over-NATS services can use it as
 // a sensible default.
 func EncodeNATSGenericRequest(ctx context.Context, msg *nats.Msg, request interface{}) error {
-	return natstransport.EncodeJSONRequest(ctx, msg, request)
+	buf, err := marshalNATS(request)
+	if err != nil {
+		return err
+	}
+	msg.Data = buf
+	return nil
+}
+
+// marshalNATS encodes a message as JSON; encoding/json cannot represent oneofs.
+func marshalNATS(message interface{}) ([]byte, error) {
+	marshaller := protojson.MarshalOptions{
+		AllowPartial:    true,
+		UseProtoNames:   true,
+		UseEnumNumbers:  true,
+		EmitUnpopulated: true,
+	}
+	return marshaller.Marshal(message.(proto.Message))
 }
 {{end}}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 04017cc..6ddff1f 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.502kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (28.114kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (3.019kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5d\x8f\xdc\x46\x76\xe8\x33\xf9\x2b\x8e\x09\x5b\x26\xe7\xf6\xb0\x7d\x2f\x70\x83\xcd\x18\x13\x40\x96\xc6\xb6\x76\x2d\x69\x56\x1a\xad\x1f\x04\x41\x5b\xdd\xac\xee\xe6\x0e\x9b\xa4\xaa\xaa\x7b\xa6\xb7\x33\x2f\x79\xd9\x00\x09\x10\x20\x4f\x79\x08\x16\x79\xca\x6b\x90\xe7\xfc\x9e\x75\xb0\xff\x22\x38\x55\xa7\x8a\x45\x36\xd9\x1f\xb2\x77\x91\x00\x31\x12\x7b\x9a\xac\x3a\x75\xbe\xea\x7c\x56\x71\xc7\x63\x78\x52\x65\x1c\xe6\xbc\xe4\x82\x29\x9e\xc1\x64\x03\x13\x26\xaa\x32\x85\xa7\x2f\xe1\xc5\xcb\x1b\xb8\x7a\xfa\xec\x26\x0d\xc7\x63\x78\xc5\xc5\xaa\x2c\xf3\x72\x6e\x06\xc0\x5d\x5e\x14\x50\xad\xb9\xb8\x13\xb9\xe2\xa0\x16\xb9\x84\x59\x5e\x70\x3d\xf8\x57\x5c\xc8\xbc\x2a\x2f\x60\xbb\x4d\xe9\xef\x87\x07\xef\x05\x3c\x65\x8a\xfb\x6f\xf1\xf7\xc3\x43\x18\xd6\x6c\x7a\xcb\xe6\x1c\xdf\x5c\x9b\x3f\x5f\xb0\xa5\x7e\x33\x1e\xc3\x8d\x5d\x03\xa6\x55\xa9\x58\x5e\x4a\x58\x72\xb5\xa8\x32\x09\xaa\x82\x25\xbb\xe5\x90\x97\x59\xbe\xce\xb3\x15\x2b\x80\x97\x59\x5d\xe5\xa5\x92\x30\x13\xd5\x12\x24\x17\xeb\x7c\xca\xe5\x08\xd1\x10\xfc\xc3\x8a\x4b\x05\xac\xcc\x40\x70\x59\x57\xa5\xe4\xa0\x36\x35\xd7\x90\x70\x28\x52\x54\x49\xde\x40\x19\x01\x93\x70\xc7\x8b\x02\xff\xcb\xcb\x69\x95\x71\x21\x11\x00\xc2\xcb\x38\xfd\x9e\x55\x82\x26\x6a\x68\x23\xfd\x80\x21\xa7\x66\x50\xad\x04\xc8\x55\x5d\x57\x02\x39\xad\x04\x2b\x25\xfe\x8d\x98\xe5\xac\xc8\x7f\xcb\x54\x5e\x95\x08\x6d\x56\x89\x25\x53\x32\x0d\xc3\x7c\xa9\x47\xc4\x61\x10\x4d\x36\x8a\xcb\x28\x0c\x22\xa4\x9d\xdf\x2b\xfc\x53\xa3\x91\x97\xf3\xf1\x6f\x64\x55\xe2\x83\xd9\x52\x3f\xcf\x2b\xf3\xef\x71\x5e\xad\x54\x5e\xe0\x8f\x92\xab\xf1\x42\xa9\xda\xfe\xbd\x12\xfa\xb1\x54\x62\x5a\x95\x6b\xfa\x33\x2f\xe7\x32\x0a\xc3\x20\x9a\xe7\x6a\xb1\x9a\xa4\xd3\x6a\x39\x9e\x57\xe7\xb7\xb9\x1a\xe3\xff\x5b\x5e\x44\x61\xc0\xca\x4d\x3d\x81\x68\x5e\x55\xf3\x82\xa7\xf3\xaa\x60\xe5\x3c\xad\xc4\x7c\x5c\x8b\x4a\x55\x93\xd5\x6c\xac\xe9\x1f\xdf\x96\xd5\x5d\x39\xd6\xa3\xa3\x30\xc8\x56\x42\x13\x79\xc2\xd4\x66\x4a\x14\x06\x7c\x59\xab\x53\xd6\xa5\xf1\x51\x18\xcc\x72\x5e\x64\x4b\x26\x6f\x4f\x98\xed\xcd\x89\xc2\x40\x2a\xb1\x9a\xaa\x13\xa6\xdb\x09\x51\x18\xa8\x7c\xc9\xa5\x62\xcb\xfa\x84\xe9\xde\x9c\x28\x0c\xee\x04\xab\x6b\x2e\xe4\x09\x00\x9a\x29\xbb\x22\x15\x79\x51\xb0\xf1\x72\x75\x1f\xb5\xdf\xd4\xb7\xf3\x31\x17\xa2\x12\x5a\xd3\xf6\x2c\xe4\x34\x4f\x3f\xb1\xea\xb7\x67\x82\xfe\x03\x11\xd9\x6e\xcf\x21\x9f\x01\xff\x00\xe9\x93\xaa\x9c\xe5\xf3\xf4\xc6\xed\x84\x88\x15\x45\x04\x51\xc9\x94\x8c\xe0\xe1\xa1\x8d\x1b\x3e\x3d\xcf\x2b\xfd\xdf\x74\x8e\x1a\x8e\xa0\x78\x99\x3d\x3c\x1c\x05\x75\x2e\xea\xa9\x85\xba\x83\xa7\x7e\x39\xf8\x66\xbc\xe4\x8a\x65\x4c\xb1\xee\xa2\x47\x2f\x89\xf0\x9b\x1d\x3f\xb0\xbf\xdc\x00\x8b\x8e\xb7\x16\xee\xdd\x13\x00\xe0\xf0\xe8\x28\xb6\x34\xcc\xc6\xbf\x4e\x58\x02\x87\xb7\x70\x4c\xc2\x30\x5c\x33\x01\x71\x18\xbc\x87\x4b\x98\x2d\x55\xfa\xba\x16\x79\xa9\xcc\x6f\x6d\xc0\xd2\x27\xd5\xb2\x66\x82\x9b\x47\x64\x7d\xd2\xc7\xaa\xca\xcd\x93\x16\x99\xe9\x0b\x7e\xf7\x9a\x8b\x35\x17\xe6\xa5\xb1\x66\xe9\x8b\xaa\x7e\x52\x54\xb2\x79\x9a\x3e\xa9\xea\x8d\xf9\x61\x94\x37\xfd\x5e\xb0\x3a\x0c\xc6\x63\x20\x79\x5a\x35\x34\x36\x1e\x87\x6a\x93\x94\x3e\x2e\xf5\xbc\xc6\xc8\xa4\x4f\xe9\x4f\x7c\x4c\xe6\x23\xbd\xc2\xff\xe2\x03\xbb\xa5\xd3\xd7\xfa\x0f\x7c\xe4\x6d\xd3\xf4\xc6\xfe\x8d\x2f\x9a\xed\x87\xa3\xf3\x72\xfe\x2b\x56\xac\x34\xdd\x9e\x5d\x49\xbf\xc6\xbf\x9f\x33\x79\x1b\x26\x61\x38\x3e\x3b\xea\x1f\xb8\xb2\x3e\x09\xec\xa3\xc3\xff\x8c\xb5\x07\x7d\x56\x02\x43\x7f\xb3\xe6\x62\x04\xb9\xfa\x5c\xc2\x4a\xf2\xd9\xaa\xd0\x6e\x6a\xb6\x2a\xa7\xc8\x05\x09\x6a\xc1\x14\x94\x1c\xbd\x54\x05\x55\xad\x63\x03\xa8\x70\x6e\xcd\xc5\xb9\x75\x03\x08\x70\xc2\x64\x2e\x53\xf8\xba\x12\xc0\xef\xd9\xb2\x2e\xf8\x08\x36\xd5\x0a\x96\xf9\x7c\xa1\xa0\x66\x12\x5d\xa4\x87\xb0\xaa\x80\xb9\x85\xcc\x3a\xb5\xa8\xb2\xd5\x94\x4b\x04\xc7\x4a\xad\x01\xe9\xb7\xac\xcc\x0a\xc4\xf1\x2e\x57\x0b\xe0\x6c\xba\x20\x4f\x0f\xb1\x5d\x3d\x81\xbb\x5c\xf0\x0c\x56\x35\x22\xc9\x40\xd6\x7c\x9a\xcf\xf2\x29\xd4\x4c\x2d\x52\x88\x9f\x29\x04\x98\x4b\xa8\x45\x35\x61\x93\x62\x03\x0c\x96\xb9\x54\x26\x4a\x80\x8c\xcb\x7c\x5e\xe2\xd4\xbc\x5c\x57\xb7\xe8\xee\x39\xa0\xb2\xe5\x53\xee\xa2\x0a\x8d\x22\x47\x38\x0d\x05\x46\x07\x20\x6f\x38\x99\x26\xe1\x78\xec\xb8\x3b\x2d\x72\x5e\xaa\x36\x77\x55\x05\xd3\xaa\x28\xf8\x54\x79\x01\x4a\xb1\x81\x69\x55\x1a\x70\x3c\xf3\xc2\x95\xbc\x44\x82\x10\xa0\xcc\xcb\x79\x61\x02\x13\xc3\xab\x1c\x39\xbc\xe4\x88\x87\x8f\x6f\x5e\x2a\x2e\x66\x6c\xca\x87\x24\x81\xc0\xdc\x62\xfd\x41\xd2\x0a\x17\x6b\xa2\x12\x1d\x2c\xe0\x06\x7c\x42\xf4\x4c\xab\xe5\x24\x2f\x35\x9f\x96\x84\xa2\x27\xd8\x11\x85\x52\x6a\x25\x4a\xc8\x15\xf2\x15\x11\x9c\xb2\xa2\xe0\x02\x23\x26\x66\x91\x4d\x43\x4d\xce\x0e\x43\xb7\x61\xf0\xa6\x74\xf4\xf1\x6c\xbb\x4d\xed\x0c\x13\x02\x92\x25\xd8\x6e\x05\x2b\xe7\x1c\x3e\xcd\xe1\xe2\x12\xdc\x98\xe7\x46\x64\x68\xc7\xb6\xdb\x4f\x73\x9a\x63\x57\x01\x00\x47\x6a\x6a\x1f\x86\xdb\xad\x31\xae\x26\xba\xb4\x8f\xe5\xe1\x25\x50\x81\x21\xf6\x88\x48\xc0\x5b\x34\x9e\xaa\x7b\xa0\x28\x0d\x5d\x03\xfe\x77\x84\x0a\x73\xb6\xdd\x7e\x53\x21\x62\xf0\x69\x9e\xbe\x32\x21\xe8\xcd\xa6\xb6\x04\x26\x10\x77\x46\x98\xc0\xd4\x1b\x32\x32\x06\x2e\x81\x6d\x18\xd8\xb8\x55\x3f\x43\x44\x79\xda\x43\x39\x22\x83\x8b\x27\x61\x80\xce\x4a\x08\xf8\xe4\x12\xca\xbc\x40\x08\x01\xc9\xab\xcc\x0b\x0d\x24\x0c\x1e\x42\xfb\xcc\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xf8\xe0\xd8\x89\xcc\x7c\xce\x6e\x3d\xf6\x84\xdb\xad\xde\xc8\x9f\x2a\x8e\x88\xa6\x0f\x38\xf8\x1c\x7c\x2e\x7f\xaa\xf8\x10\xa3\x11\x56\x1f\x65\x12\x99\xae\x78\xaf\x9a\x24\xbb\xe2\x86\xad\x23\x0e\xe5\xd7\x2f\x25\x9b\x18\xb8\x1d\xb5\x7d\x48\x20\xb6\xcc\xf0\x1f\x6b\x8e\x79\xe2\x08\x04\xff\x80\x84\x10\x84\x34\x3e\x24\xed\x30\x08\xd6\x4e\x76\xd2\x97\x1d\xa2\xa6\x51\x49\xc2\xa0\x47\x6a\xbb\x62\x43\xb9\xd9\xa7\x6b\x23\x8e\x00\xd5\xba\xf1\xcd\xbe\x6c\xd0\x39\x3e\x2e\x8a\xab\xfb\x29\xaf\x95\xf6\x53\xd2\x98\x58\xc7\x29\xed\xa1\x30\x65\xa1\xbd\x69\x5f\x48\xd0\x62\x64\x08\xc5\x8b\x09\x1c\xab\x9f\xe7\x59\x56\xf0\x3b\x26\x4c\x16\xf8\x46\xda\xbc\x10\x93\xa0\xba\x2e\x36\x68\x62\xd0\x6c\x2a\x04\xbe\x74\xa3\x75\xd6\xc5\xd7\x5c\x6c\x9c\xd8\x70\xbf\xa0\x05\xa1\xb4\x4d\xc3\x7b\x59\xa3\xd7\x60\x45\xb1\x19\xb9\x71\x12\xa6\xac\x84\x09\xd7\xbe\x86\x67\x38\x6d\xb2\x81\x12\xd9\xae\x2a\x7c\xce\xef\xa7\xc5\x2a\xe3\x99\xc9\x02\x27\x1c\x51\x40\x9a\x6b\x9e\xa5\x3b\xdc\x88\x1b\x9c\x46\x10\xbd\x56\x4c\xad\x64\x34\x82\xe8\x3a\x2f\xe7\x51\xe2\xf6\xfd\x99\x63\x48\x32\x38\xdf\x61\xe8\x71\x65\xd4\x60\x93\xa6\xa9\xd4\x61\x81\x56\x9e\xbc\xa4\xc7\x17\x97\xb0\x64\xf5\x5b\xf3\xea\x9d\x61\xff\xf6\x01\xd5\xab\xbb\x61\x7a\x76\x4b\x10\x04\x91\xa7\x46\xd1\x05\x6c\x1f\x46\x61\xe0\x87\x91\x0f\x61\x18\xa0\xaf\x7f\x8f\xa8\x20\x18\x03\xd2\xa1\x85\x2b\xe5\x33\x78\x3f\x82\xea\x16\x5f\x5b\xc4\xde\xf2\xfb\x77\x5f\xc2\x27\xd5\x2d\x62\x1b\x04\x35\x2b\xf3\x69\xdc\x44\x78\xb3\x38\xba\xb2\x20\x2c\xdd\xf0\xf9\x67\xf2\x73\xc8\x2a\x2e\xa1\xac\x14\xf0\xfb\x5c\xaa\x2f\x41\x72\xee\x0b\xde\xe5\x94\x3a\xa4\x47\xa4\x92\x84\xf4\x39\xe3\x05\x57\x3c\xb6\x18\xe8\x77\x86\x80\xa3\x58\xd1\x4b\x45\x8b\x3d\xef\xbe\x04\x4b\x4f\xaf\xe9\x84\x4b\x0f\xd3\xb8\x77\x08\xe1\xda\x30\xd8\xec\xb0\xef\xd8\x84\x17\x3c\x6b\x04\x6f\xaa\x25\x73\xae\xac\x9a\xa2\x6a\x3b\x46\x69\x6d\xbd\x5b\xf0\xd2\xbd\xad\x3c\xcd\x24\x60\x46\xc1\x46\x66\x43\x91\xce\xaf\xcc\x60\x30\x25\x18\x66\xea\x38\xf9\x14\xe3\x17\x91\x4f\x75\x44\xd5\x50\x00\x77\x8b\x7c\xba\xd0\xdb\x45\xf2\xb2\x0f\x05\x72\xda\x34\xdb\x86\x2c\x95\x20\x97\xbd\x4b\x15\xee\x87\xd8\xe8\xea\x68\xd7\xe0\xf6\xd8\xe0\x70\x88\xae\x8f\x36\x43\x3b\x48\x8d\x88\x4e\xcd\x71\xc1\xa7\x3c\x5f\xa3\x15\xe2\x86\xc4\x6a\xd6\xa2\x3b\x85\xd7\x9c\x3b\x30\x1e\x14\xfd\xc2\xc6\x9c\x84\xf0\xd5\x3d\x22\x8a\xbb\x27\xe3\x8a\xe5\x85\xc4\x90\xd8\xee\x1c\x04\x62\xe3\x5a\x56\xe4\x6a\x93\xee\xb3\x16\x2d\xda\xe3\xe5\x8f\xe0\xe8\xff\x9a\x94\xff\xb9\x26\xa5\x35\x75\x04\xc7\x5a\x98\xe3\xcb\x0e\xc7\x26\x94\xdf\xbc\xba\x7e\x82\x04\x73\x71\x72\x46\x89\xc1\x99\x37\x1d\x8b\xb0\xb2\x71\xf1\x4e\x14\xc0\xd6\x2c\x2f\xd8\xa4\xe0\x26\x19\x98\xbf\xba\x7e\x02\x03\x21\x3e\xed\x9c\x36\x64\x97\xf7\xc9\xc6\x0c\x8c\xa0\xd2\x11\x81\x44\xd5\x6f\x55\x58\xb4\x26\x73\x61\x02\x86\x64\x68\x21\xf4\x65\xd2\x1b\x28\x51\xb0\x6f\xdf\x0d\x43\x42\xc1\xf6\xbd\xfd\x8a\xcf\x2a\xc1\x63\xc4\xf6\x39\x55\x8a\x6e\x2a\x8a\x29\x93\x11\x6e\x91\xce\x3a\x97\x18\x0e\xf1\x32\x8b\x5b\x8f\x1d\x3d\x69\x9a\x26\xba\x7c\xb1\xdd\xc2\x4d\xf5\x5d\x75\xc7\x45\xa3\x91\xc8\x2a\x14\xae\x0d\xf8\x1e\x21\x46\xf8\x92\x8b\x2d\xfa\xc6\x83\x6a\x8c\xe3\x3d\x4d\xbb\x80\x36\x49\xae\xe8\x12\xe3\xee\x77\x6c\xef\x53\x4e\x0c\x2e\x82\xa7\xba\xf6\x8d\xb4\x7b\x23\x28\xde\xd5\x03\xae\xca\xde\x01\x94\xbd\xe0\x88\x16\x17\xd2\x34\xc5\x69\xc9\xc8\xd7\xfa\xc0\xba\xd6\x86\xd8\x6e\x32\xec\xc2\xed\x7e\x59\xbb\xd0\xdd\x38\x33\x0f\xce\x4f\x9e\x80\x76\x18\x0c\xd0\xe1\x30\x55\x37\xbc\xf0\x9c\x92\x26\x2a\x3b\xa0\x35\xf5\xf0\x53\x55\x43\xea\xf1\x54\x1e\x44\x53\x6f\xb2\x58\xc2\x59\xb3\x54\xd2\x80\x3f\x90\xcd\x62\xb2\xf3\xd3\xa6\xb3\xef\x31\xe3\xa9\xbd\x84\xa8\xc3\x45\x4d\x81\xd6\x22\x3f\x3d\x3a\x31\xa7\xad\x3f\x32\x9d\x25\xee\x1a\x55\x3f\xcc\xda\xf1\x18\xf6\xed\x0a\xc8\xd1\x04\x3a\x7d\xd0\xd5\xde\xd4\x4c\xa0\x11\x5f\xa3\x6c\x74\xc5\x07\xbb\x33\x5c\x28\x69\x0a\x42\x64\x36\xad\x4d\x70\x80\x5d\xde\x8a\x65\x19\xac\x3a\x89\xf3\xac\x5a\xb2\xbc\xdc\x37\x38\x85\x6b\x91\x2f\x99\xc8\x8b\x8d\x2d\x54\xf9\x55\x2d\x63\x85\xf7\xd1\x11\xbf\xdf\x55\x0c\xa4\xe5\x15\xff\xd0\x28\xa2\x4e\xa0\xbd\x5f\xed\x12\x86\x4e\x99\x69\xce\x31\x29\xb3\x93\xe4\x87\x3d\x62\xba\x2a\x8f\x16\xd3\x5e\xdb\xd4\x2b\x27\x33\xc3\x0e\x19\x12\xd4\x61\x11\xd0\x12\x5a\x60\x7b\xc4\x5a\x17\x9b\xa3\xe4\xb4\x97\x90\x3e\x41\xf5\xd5\x34\xf6\x49\x4a\xd6\x28\x2a\x3b\xeb\x88\x7d\xe4\x09\x4b\xd6\x7d\xd2\xfa\x96\x17\x58\x20\x0f\x8d\xa2\xf5\x3a\xcf\x7e\xe3\xb3\xcc\xc0\x36\x64\xd2\xe7\x4f\x93\xee\x00\xc4\x17\x4d\xe8\xed\x08\xd6\x4d\x3c\xba\x74\x91\xe8\xba\x55\x4c\xd1\x7d\x65\x0e\xb7\x7c\xa3\xc5\x9d\x61\xc8\x3a\xa9\xd4\x02\x79\x6c\x57\xa1\x8e\x2c\xc4\xb7\x09\x65\x17\x38\xb4\x28\xa0\x40\x79\x11\x14\x46\x39\x95\x2e\x9c\x3e\x61\x65\x55\xe6\x53\x56\x7c\xcb\x59\xc6\xc5\x2f\xf8\xc6\xa6\x1e\xb8\x90\xac\xa8\x9c\xab\x28\x93\xb3\x20\xa6\x53\x6e\xab\x18\x3c\x57\x0b\x2e\x68\x65\x7c\x8f\xac\xb8\x74\xb4\x7e\x9f\xab\x85\xee\x28\x20\x8b\x46\x9a\xd6\xb7\x5f\xbc\x4b\x0e\x0e\x1c\xc0\x2e\xbe\x4d\x1a\x08\x14\xd4\x93\xf8\xa6\xea\x5e\xfb\x5e\x1b\xf7\xed\xff\x47\xcb\xd1\xd4\x8c\x4f\x8e\x25\x5f\xf0\x3b\x6f\xb6\x59\x5e\xf7\x0f\xa8\x08\x04\x13\x36\xbd\x45\xf1\x6c\xec\x9e\x31\xc5\x76\xa4\xb5\xe4\xba\x77\x91\xc2\x33\x85\x72\xa4\xb2\x3d\xa9\x6b\x3e\xc9\x31\x25\xb3\x22\xa0\xaa\xb4\xaa\x20\xcb\x59\x61\x4a\xd7\x05\x53\x5c\xc0\x14\xfb\x4a\x98\x63\x73\x1f\xa6\x51\xd0\x16\x76\x31\xbe\x36\xae\x33\x35\xf8\x3e\xa9\xca\x72\x4f\x40\x6a\x06\xd9\x80\x34\x1e\x88\x48\xfd\x2d\x87\xd1\x41\xb7\x6a\x1a\xec\x26\x6d\x7e\x05\xb4\x31\x6d\xc1\x9a\x09\x97\x36\x79\x16\x61\x37\x81\x0c\x03\xdc\x06\x7d\x43\x2f\x77\x03\x43\x22\x5e\x6b\x19\xd2\x6b\xf3\x43\x0f\x07\x94\xa0\x4d\x69\x9a\xf4\xb1\xfb\xf4\xaa\x3c\x10\x34\x3e\xe5\x87\x82\xc6\x03\xf6\xc7\x94\xbe\x82\x26\xa2\xc6\x9f\x89\x23\x3b\xd6\x89\x9f\xe6\x27\x45\x98\xce\x34\x59\xbb\x65\x87\xca\x83\x61\x35\x9c\xeb\xc0\xda\xc3\xd4\xce\xbd\xf0\x3b\x0f\xde\xfb\x51\xb3\x5e\xf0\x60\x8d\x23\x1a\x45\xa4\x18\x68\x07\xfc\xf8\x70\x63\x8f\x1f\x7b\xca\x8f\xf1\x63\xfb\x3d\xd3\xb1\xe1\x06\xf9\x8c\x01\x3f\x66\x36\x31\xed\xb2\xa7\xfc\x44\x3f\x86\xc4\xbc\xd2\xc8\x1c\xe9\xc8\x70\xa8\x0b\x3a\xd0\xbd\x9e\xe4\xca\xea\x62\xd3\xe7\xcb\x7c\xb1\xfd\xf8\xf0\x63\x38\x4a\xbc\x2a\x8f\x88\x12\x0f\x0b\xc4\x0b\x16\xf7\x48\x78\x6f\x94\xd8\x92\xda\x3e\x3a\xfa\x83\x0f\x22\xf1\x38\x91\x9d\xda\x58\xd9\x1f\x25\x12\x16\xda\x7b\xca\x9b\xca\x0f\x3c\xcc\x4e\xe9\xb3\xdc\xb4\x0e\xee\x13\xa3\xa8\x7b\xa0\xc4\xb7\x7c\x23\xe1\xed\x3b\x5b\x8d\x3b\x00\xef\xa8\xc6\xd4\x32\x83\xb3\x43\x41\x8f\x36\xfa\x35\xcb\x45\xb3\x78\x18\xd8\xda\xdc\x6d\x13\x0a\x69\xf4\xd0\xea\x63\x73\x69\x6d\x2b\x5a\x53\x75\x9f\x6a\x9e\xc4\xb7\x49\x4a\x35\xc8\xa4\xa9\x67\x05\x06\xb0\xab\x5c\xe8\x9f\x26\xf0\xc0\x98\x41\x1b\x53\x34\x9e\x08\x53\xbf\x6b\x45\x59\x67\xcb\x0c\x6b\x5f\x96\x80\x9f\x57\x79\x19\x9f\x2d\xb3\x51\xf3\xe8\x1a\xe7\xc4\x7a\x26\x96\x3f\x12\x0b\x8e\x38\x83\x51\x08\xf5\xb4\x8c\x24\x8f\xad\x6d\x7d\x7b\x73\x73\x4d\x79\x81\x7d\x76\xf8\x9f\x71\x18\xea\x76\xb9\xe1\x72\xa9\xd5\x0b\x2e\x21\x62\x75\x5d\xe4\x53\x7d\x40\x44\x9f\xb9\xfb\x12\xa6\x0b\x26\x24\x57\x97\x2b\x35\x3b\xff\x59\xe4\x4a\x62\xb8\x2a\xa5\xf9\xd4\x15\x47\xc5\x5a\xd0\x13\xbd\x67\x0f\x97\xca\x10\x58\x55\x42\x2d\x78\xc6\x67\x79\xc9\x33\x7d\xb6\x41\xd2\x9e\xeb\x2c\x73\xb0\x40\xd6\x3e\x5a\xd3\x2e\x90\xf9\x87\x2e\x6c\xec\x91\xcf\x20\xd5\xf0\x75\x98\xee\xd9\xad\x4e\xbd\x06\x75\xe7\xed\xbb\x61\xe8\x5a\xfe\x7d\xaf\xa9\x6a\x66\xd6\xc0\x38\x54\xb6\x8a\x66\xfd\x93\xae\xd0\x92\x1b\x73\x23\x62\xee\xfd\x18\x9e\xf2\x78\xa6\xb8\x88\xbb\x6f\xd4\x93\x46\xb4\xb1\x27\xe6\x44\x03\xda\xa5\xf2\xa8\x92\x1d\x55\x74\x74\x79\x6e\x89\x8c\x59\xae\xee\x31\x6e\x7a\x55\xad\x10\x87\x24\xf4\x22\x09\x6a\x2e\x5c\x5c\x0e\xb2\xd9\x0d\x9d\xe0\x89\x8d\x72\x8e\x00\x69\x5a\xfa\x95\x79\x44\x35\xfa\xa5\x9d\x17\x63\xb8\x45\xc3\xf1\x6c\xed\x04\xfe\x1a\x6e\xaa\x37\x78\x76\xf0\xe1\x21\x4a\xd2\x6b\xa6\x16\xad\x31\xf8\xe0\x86\x2f\x6b\x8c\x7f\xf5\x08\xab\x4e\x03\x27\xb1\x74\x51\xb0\x5d\x15\x24\x8c\x7a\x4a\x83\x54\x1b\x44\xf2\xbc\x25\x75\xf3\xc3\xb9\x07\x33\xd0\x48\x14\x07\x7e\x63\x7a\x58\xd6\x0d\x9b\xd7\x7d\x05\xc2\x40\x97\xf5\x9b\x1a\x9a\xff\x27\x19\x8d\x25\x05\x55\xbe\xd2\x98\x66\x99\xce\x10\x4c\x58\x60\xdb\x5e\x76\xc5\xef\xf1\xbd\x18\x61\x96\x91\xf1\x19\x5b\x15\x0a\xbd\x9d\x51\x10\xdc\x91\xba\x7c\x58\xcd\xa0\x6b\x0b\x46\xc0\x60\x52\x65\x3a\xd1\x43\xdb\x60\x9a\x54\x98\xee\x45\x7a\x9d\xc8\x65\x88\x6b\xb4\xb2\x08\x4a\x3f\x4f\x35\x76\x71\x62\xf2\x10\x06\x52\x77\x9d\x01\xf9\x81\xa0\xfe\xff\x17\x5f\xa4\xf0\x8c\xda\x56\x38\xd2\xaf\x7b\x9a\x7d\xc3\x85\x3e\xd4\x8c\x23\x6a\x51\xad\x73\x4c\x61\x17\xfa\x0d\x36\xec\x8b\x02\xdb\xe0\x1a\x5b\xd3\x2d\xc4\x71\x4d\x4c\xe6\x83\x46\x28\x1e\x74\xa4\x22\x7d\xce\x84\x5c\x30\x7d\x18\xcb\xe2\xbf\x34\x8f\xb0\x93\x2e\x57\xd3\x29\xe7\x99\x34\x39\xd3\xcf\x5f\xbf\x7c\x41\x67\xa3\x33\x7b\x90\xd9\x26\x5d\x9a\x56\x87\x0e\x76\x2e\x87\xc9\x32\x8d\x77\x3c\x9a\x2e\x46\x36\x95\x73\x94\x35\x2f\x5b\xd0\x20\x2f\xa5\xe2\x2c\xb3\x3c\x33\x46\xd2\xb7\x10\x7d\x81\x88\x3b\xc3\x31\x82\x3b\x73\xf4\xac\xad\x06\x3a\x66\x44\xa9\x8e\xe0\x3d\x6e\x3f\x9f\x25\xc6\xfc\x60\x73\xb0\xe6\x62\xab\xa5\x78\x81\xb4\x58\x81\x62\x24\x92\xcf\x2c\xb7\x90\x81\xc6\xd1\xe2\x90\xb8\xcd\xdb\xc6\xcf\xe6\x33\xc0\x57\x5f\xe9\x25\x69\xea\x95\x29\x89\x3a\x40\x76\x1e\xb2\x3b\x4e\xbe\xb4\x2b\xe0\xb0\x4b\xcf\xe7\x22\xda\x70\xe9\xc0\xd9\xc4\x3e\xb8\x4b\x8d\xda\xc4\x49\xfa\x9a\xab\x38\x22\x43\x78\x7e\xb3\xa9\x79\x34\xf2\x5d\x9e\x21\x60\x61\x95\xcc\xc7\xbf\x6d\x1e\xac\x1e\x36\x74\xd8\x02\x8c\x6c\xc2\x0e\x0b\x87\x46\xcb\x58\x33\x37\xf0\xf1\x79\xca\x8b\xf8\x16\xb7\xb5\x8d\x5a\xbc\x02\xce\x9a\x62\x16\x7f\xfc\xe3\x2c\x8b\x3b\x11\x08\xfe\x9f\xde\x3b\x17\xe6\x34\x69\x6a\xf4\xe5\x19\xc6\x96\x25\x2b\x3c\x2f\xa2\x89\x93\xd3\x3d\x64\x79\x7a\xd8\x50\xa6\x81\x5f\x82\x9c\x12\x64\x7c\x4d\xd9\xe4\x5d\xaa\xb5\x86\xd0\xc3\x81\x89\x7b\x18\xa3\x38\x12\x34\x48\x8d\x62\x1a\xf3\x28\xe2\xc9\x6a\x06\x6f\xdf\xe1\x01\xd9\x84\x36\xc3\x36\xd4\xc1\xdc\x1d\xf8\x3a\xe6\xca\xdd\x56\x11\xdf\x94\x24\x7a\x84\x30\x82\x47\x77\xc9\x97\xdd\x72\xb8\x09\x63\x64\xfe\x5b\x0e\x97\xf0\xb3\xff\xfb\x97\x7f\x61\x74\xac\xe0\x25\xce\x49\xe0\xaf\xcc\x3b\x1c\x1a\x20\x1a\x97\x30\x59\xcd\xde\x5e\xe0\xc3\x77\xe4\x07\xc9\x98\xe2\x69\x0f\xcd\xb7\x59\x1c\x59\xf3\x01\x48\x94\x3e\xe8\x71\x81\x95\x2c\x6c\xca\xd6\x18\x0f\x41\x59\x95\xe7\xa8\x78\x2e\xd2\xc7\x81\xd1\x08\x81\x53\xc7\x95\xa0\xd2\x81\xdd\x17\xfc\x2e\xbe\x33\x1b\x47\xf3\x48\x1b\x59\x9f\x76\x7b\x06\x60\x1b\x06\x7a\x14\xfe\x46\x03\xf4\x6b\x5c\xe5\x82\x2c\xec\xaf\xc9\xde\xa3\xdc\x69\x14\x53\xb9\x9c\xe5\x78\xaf\x63\xc1\x9d\xb9\xd4\x96\xd6\x13\x6e\x93\x87\x48\xc8\xf5\x15\x0c\x7b\x0f\xe5\x98\x73\xd6\xa9\xe9\x28\x79\x8b\x3a\x54\x35\x5a\x78\x77\xc0\x2e\x85\x2b\x85\x81\x35\xce\x00\x7e\x6b\xde\xc5\xec\x56\x47\xe2\x45\x03\x34\xf1\x8c\x62\x9c\x40\xfb\x3c\xdb\x22\x6d\x56\x18\x98\xdd\xec\x39\x7c\x48\x3b\xa8\x05\x82\x90\x0a\x5b\xa5\xf4\x6e\x09\xe2\x60\xd0\xe2\x95\xa7\x0e\x44\x2d\xae\x6a\xb1\x37\x3c\xe8\x66\xc1\x1a\xfb\xfe\x5e\x89\xee\x98\x9a\x9b\x38\x38\x07\xad\xe3\x39\x39\x23\x3f\xc1\xb5\xeb\x5c\x33\xc1\x4b\x45\x49\xa3\xd3\x53\x7d\x4a\x0c\xfd\x15\x62\x65\x9f\x6a\xc8\xa8\xc1\x87\x4a\xf1\x81\x57\xc3\xd8\x4b\x56\x6f\x52\x0c\x67\xe4\x81\xf4\x90\xe1\x84\x38\xc8\xf8\x8c\x0b\x10\x29\x9a\xf5\xf4\x09\xd6\x2c\xd1\x00\x69\x8b\x81\xc9\x72\x93\x1f\x77\x68\x25\xc8\x68\xda\x31\x4a\xc2\x0d\xef\x1a\x6e\x74\xb8\xfe\x15\x67\xd9\xe3\xa2\x88\x0d\xf0\xe3\x0e\x20\xda\x13\xf7\x33\xf4\x88\x23\x88\xc8\x12\x08\xf4\xc6\x36\x22\x42\xca\x2c\x3b\x23\x2a\x32\x77\x0c\xd1\x17\x9a\xb6\x60\x65\x8d\x1a\xe6\x4e\x17\x97\xe0\x6e\x98\x34\xe6\x8e\x02\x41\x3d\x3c\x78\x5c\x14\xd5\xdd\x35\x13\x2a\x67\x05\x96\xdb\x94\x58\x51\xd4\xf8\x34\x97\x53\x26\xb2\x37\xa5\xbe\x0d\x74\xd1\xbc\x79\xa0\xdc\x17\x49\xbf\x04\x7f\xc1\x1d\x93\x8a\x6d\xc6\x1d\xa3\xda\x6f\x56\x87\x0d\x6b\xaf\x69\x25\x34\x5a\xcc\x74\x1b\x76\xdb\xc3\x56\xe2\xde\x47\xd9\x5c\xc3\x90\xc0\x73\x88\x5f\xb1\x8c\xd4\x81\xde\x21\x02\x0d\x5a\x2e\x9d\xc7\x94\xf3\x9a\x09\xb6\x94\x36\x9f\xf9\x15\x13\x32\x16\x28\x43\xbc\x71\xd1\xbc\xc7\xe4\xff\xc3\x8a\x8b\x4d\x33\x5c\xa4\x6f\x5e\x7d\x97\xfe\x12\x1f\xc6\x76\x82\x37\x24\xf4\x93\x1c\x73\xe8\xf4\xe2\xb2\xd1\x5a\x7d\x39\x82\x32\x1c\x7d\xe8\xa5\xb4\xc3\xd2\xef\x2a\x13\x79\x43\xa4\x89\x34\x63\x82\xed\x96\x5e\x7f\xc3\x4b\xbd\xa8\x93\x26\xa6\x3f\xad\x6a\xaf\xfb\x6b\x3f\x0a\x2f\x4b\x5e\xcd\x76\xf0\xe0\x1f\x76\xf1\xd0\x64\xfd\x18\x44\xdc\xb6\x7a\x24\xf8\x87\xa6\x77\x4d\x59\x8d\x2e\x31\xdb\xa1\x4d\xe9\xb0\x27\x63\xea\xb5\x98\x43\x5d\x4b\x63\x1f\xa5\x4d\x1f\x9c\x5f\x67\x52\xdb\xcf\x6e\xba\x60\x92\x27\x71\x42\x47\xb2\x07\xc1\x3e\xdb\xd7\x1b\x7c\x0f\x35\x29\x5d\x88\x34\x64\x28\x9e\xef\x98\x89\xae\x91\x70\xb6\xe0\x8d\xe4\xd7\x68\x60\xd0\x5e\x4a\xdf\x7c\xbc\x91\xfc\xaa\x5c\x2d\x5f\xac\x96\x13\x2e\xe4\x45\xf3\xe2\x6a\x99\xab\x37\x65\x5d\xd5\x2b\xcc\x99\x33\x67\x56\x1e\xc2\x96\x3d\x6d\x70\xb3\xe8\xb8\x63\xe4\x69\xac\x51\x4d\x9f\x73\x29\xd9\x9c\x27\xfb\xce\x31\x58\x35\x78\x3f\x22\x6b\xe5\xc2\x49\x1d\x49\x79\xa3\xfc\xa6\xaa\x3b\x8a\x28\x29\x18\xe8\x2b\xb2\xf4\x17\x1a\x77\xbc\xd0\x50\x77\xb5\x89\xcc\x6d\x44\xaf\x8d\xdd\xbe\x7e\x2a\x02\xde\xed\xa5\x2e\x98\x84\x05\xcb\xcc\xdc\xa1\xee\xa9\xee\xd9\x65\x78\xe2\x32\xc7\xb2\x71\xa3\xdf\xfe\xb5\x5c\xb5\xe0\x06\x8a\x09\xa4\x64\x6a\x9d\xbe\x6b\xda\xa2\x32\x63\x39\xd6\xd5\x1d\x2d\x3a\x94\xa5\x62\xba\x2e\x2b\x03\xa4\xdd\xa2\xdd\xdb\x9c\xdd\xdb\x72\xbd\x1d\x39\x0e\xa5\xdf\x70\x15\xdf\xa2\xc0\xf7\x77\x69\x3b\xf8\xc7\xb7\x49\x1f\x0c\xb4\xcf\xc8\xee\x55\xc9\x9b\xeb\x4f\xd3\x05\xda\xb2\x54\xbf\x61\x85\xac\x80\x65\x19\xed\x61\x6d\xed\x61\x25\x8a\x70\xff\xea\x11\x0d\x3d\xc7\x4b\xc2\x23\x32\xe2\xd7\x4c\x2d\x92\x43\x13\x9d\x54\xf0\xd0\x3c\xea\x1c\x1a\x91\x28\xf9\xe8\x66\x32\x82\xa0\xae\x8a\x7d\x76\x42\x33\xd9\x9b\xdd\xd4\x60\x7b\x7a\xc9\x25\xe0\x48\xb2\x5e\x50\xe4\x6b\x8c\x5a\x99\x22\xae\x2d\x2b\xa5\x0b\x10\x58\x5f\x60\x25\xde\xb1\xfa\x1e\x0f\xcc\xd7\xe6\x36\x97\x79\x86\x76\x72\x5a\x2d\xb9\xb9\x64\xd0\x2c\x92\xe5\x72\x8a\x77\xe4\x37\x20\x37\x52\xf1\xe5\x08\xa4\x3e\xda\x5d\xe4\xb7\xbc\xd8\x58\xa5\x43\x35\x82\x68\x51\x49\x75\x81\x1a\x1d\x91\x01\x6d\x51\x10\xbb\xa5\xec\xe9\xe0\xc1\xd2\xee\xe9\xad\xe6\x7c\x06\x9f\x58\x95\xfb\x96\xc9\x6b\xc1\x67\xf9\xbd\x5b\x71\x04\x11\xee\xca\xc8\xa4\xeb\x0e\x8f\x4b\xf3\xf8\x62\x3c\x8e\xe0\xff\x38\x4e\xa0\x56\x06\x2b\x67\x05\x57\xa2\x48\xaf\x31\x3a\x71\xd0\x8e\x3e\xb4\x85\xc1\xc5\x2a\xa4\x5b\xb6\x98\x59\xf6\x64\x1c\xd4\x78\x35\xd7\x11\xa2\x17\x95\x11\xa4\x57\xff\x36\xa7\xe5\x35\x43\x4c\xb5\x08\x01\xdd\x55\xe2\x76\x04\xa6\xa6\x0e\xe4\xe9\x31\xf1\xc3\xfb\x72\xc2\xc4\x9b\xe6\x6d\x8e\x2c\x8c\x9a\xba\xae\x0e\x17\x8e\xcf\x85\x82\xed\x16\x6f\xdf\x76\x93\x1f\x42\x1a\xdf\xea\x12\xa1\x0d\x36\xd0\xa0\xe6\x65\xc6\xef\x77\x67\x7c\x61\xe7\xe8\x18\x7f\x37\xab\xb0\x14\xf7\xb5\xf7\x31\xd8\xd0\xff\x0e\xf6\xcc\xeb\xb9\x79\xeb\xf5\xfa\xa9\x8d\x3f\x58\x57\xa6\x08\x32\x98\x56\xf5\xe6\xcd\xab\xef\xe2\xd5\x08\xfc\xf1\x5f\x31\xc9\xd1\x7c\x60\x7d\xd9\x0e\x6d\xa2\x83\x5d\xac\xda\x71\x69\xbb\x88\x4c\x9c\xe9\x39\x0f\xb0\xd3\xec\x0f\xba\xfd\x7e\x1b\xdb\x36\xd2\x6c\xfd\xdd\xfc\xe9\xcc\x55\xef\x11\x80\xbd\x72\x87\xf3\x3f\x95\xe4\x87\x2a\xed\x18\xb4\xec\x51\x09\x3a\x2b\xb1\x97\x5e\xef\x08\x82\xb6\x3c\x56\x8e\x13\x26\x39\x9c\xe1\x1e\x7e\xf3\xea\xbb\x91\xee\x3e\x91\x6b\x4a\xdc\x63\xdc\xbf\x25\xc6\x05\x17\x97\x70\x86\x13\xcc\x4f\xdd\x69\xa0\xf4\xc0\xb1\xf3\x11\xbe\xa1\x02\xc3\x13\x75\x6f\x7b\xa7\xaf\x31\xbe\x9d\xea\xc3\xec\x2b\x41\xa5\x1a\x54\x47\xbb\x71\x55\x05\xf5\xaa\x28\xf4\x73\xf2\x73\x3c\xc3\x08\x43\x42\xb5\x42\xd7\x6d\xc3\x57\x72\x4b\xba\xbc\x43\x6e\x6f\x69\x43\x58\x3f\x01\xc5\x58\x81\xca\x1d\x29\xc0\x8b\x4a\xd1\xf5\x5a\x04\x89\xb0\xb4\xa5\x58\xb0\x35\x07\xfb\xd9\x8c\xfd\x21\x89\x5e\x67\xa2\xdb\x59\x74\xc3\x4c\xdf\xb0\x41\xcb\x6f\x51\xc3\xcb\xca\xd4\x00\x60\xf6\x84\x92\x8e\x3d\x90\xaa\x8d\xab\x64\xbb\xde\x9f\x7f\xff\x8d\x0b\xe7\x70\xa9\xf7\xdc\xe6\x9d\xe9\x37\x7b\xd7\x3f\x86\xfd\x81\x5f\xf1\xe9\x19\x44\x2d\xb9\x3d\xf7\x23\x8f\x88\x0e\x7f\xb2\x8e\xb3\x8b\x78\xb0\x4c\xdd\x2d\xf3\x5a\x32\x4c\x63\x38\x41\xad\x42\x5e\xa3\x45\x19\x3a\x3f\x73\xd0\x60\x77\x4b\x52\xbd\xc6\x66\x6f\x45\xaa\x9b\x5f\x51\x39\xca\x44\x63\xdd\x92\x94\xad\xd2\xd0\x32\x76\xb6\x29\xcf\x34\xb9\x4f\xb7\x24\x45\x8f\x31\xf1\x35\x61\x1e\xb5\x51\xdc\x1b\x0c\xa8\x99\x2e\x07\xfc\xbf\x2f\xbe\xf0\xfb\x49\x23\xb8\xa3\xa6\x89\x2e\x78\xd6\x82\x63\x90\xc3\xf4\x7e\x60\xa5\x86\xa5\x83\x02\xad\xa8\x4c\x29\xfc\x00\x02\xee\x1f\x43\x85\xbf\xff\xa8\x80\x0d\x4b\x93\xc2\x34\x38\x5a\x24\x0e\x96\xcc\xec\xf9\x91\x9e\x92\x59\x2f\xdb\xf7\x57\xcc\xcc\xa2\xa7\x97\xcc\x4e\xa9\x80\x5d\xe2\x90\xf4\xea\xe5\xd7\x83\x45\x30\xac\x62\x37\xb5\x71\x54\x0c\xcd\x02\x40\x3e\x6e\xfc\xaa\x57\x27\xfc\xe9\x83\x85\x05\xb5\x9e\x7a\x9a\x03\x4a\xe0\x0c\x3c\xe1\xf5\x22\xe0\x93\x56\xe3\xe3\xe5\x2f\xf6\x2e\x31\x8b\xbb\x9d\x88\x64\x04\x91\xa7\x33\x17\xf0\xf9\x67\xd9\xe7\xd1\xa8\xb5\x86\x5b\x1b\xc3\x11\x24\xf8\x90\x36\x87\x27\xd7\xf5\x06\xcb\x7a\x43\x55\xbd\x87\xf0\xf8\x9a\x9e\xac\x93\x2f\x0f\x0b\xc1\x67\x8a\x25\x98\x06\x3d\x6a\x0e\x35\x07\xed\xba\x8c\x6f\x80\xae\xca\x13\x0d\x90\x1b\xe9\x05\x06\x3b\x21\xc1\x39\x99\xaa\x23\x42\xa8\xbd\xb5\x20\x57\x3d\x0f\x5d\xb6\x4b\xe5\x20\x60\xc7\x17\xcc\xf5\xa7\x20\x70\xe7\xaf\x99\xc8\xab\x95\x04\x74\x27\x18\x85\xa1\x5f\x0e\xc6\xe3\x5d\xe7\x1b\x63\x1c\x31\x02\x5d\x30\x33\x4d\x6f\xdc\x24\x89\x35\x05\x47\x90\xb5\xdf\x16\xe8\x21\x03\x67\xcc\x5c\xe9\x08\xbf\xe7\xb4\x66\x05\xca\x22\x8a\xa8\x32\x69\x1e\xed\xbf\xca\xdf\x61\x06\xad\x66\x94\xdc\x56\x38\x05\xff\x10\x86\x1d\xf7\x35\x98\x1a\x77\xc7\x0d\xe7\xde\xa6\x2a\xf1\x5a\xdb\x6c\xbc\xef\xae\x16\x58\xf8\x65\x4b\xae\xb0\x6d\x83\x97\xb2\xd5\x02\xd1\xb6\x99\x9c\x3e\x64\x65\x9b\x4a\x9d\xfb\x9e\x92\xeb\xf2\x50\xab\xd6\x89\xab\xbc\x36\xcf\x5d\xb1\xd3\x0e\x7c\xe8\xde\xfa\xc4\x90\x31\x1a\x6b\xfc\x49\xc6\xfa\x54\x83\x04\xbc\xc5\x8a\xd6\x8a\xdc\xdc\x08\xe8\x6b\x63\xe6\xda\x66\xae\x34\x63\x90\xa8\x57\xec\x8e\x62\x44\x2d\x80\x86\x52\x17\x35\xea\x64\xc7\x75\xe8\x89\xb9\x58\x10\x6b\x73\x42\x2b\x52\x9b\x15\x84\x4b\x4f\x05\x1a\x41\xaa\x65\x4d\xed\x56\x82\xa9\x96\x75\x9b\x3d\x43\xb5\x68\xb0\x7c\x39\x87\xe3\xca\xc0\xf9\x4c\x2b\x38\x0d\x7b\xc5\x6b\x8e\x35\x43\x3b\xed\x99\xfc\x8a\x79\x16\xb2\x0f\xf2\x37\x15\xbe\x06\xfa\x3a\x9b\x05\x4c\x04\xbe\x8d\x5c\xa1\xf9\x97\xae\xaa\x4e\xc7\xac\xdf\x19\x45\x4c\xdd\x88\x27\x6c\xc9\x0b\xfa\x9a\x9e\x5b\x8b\x17\xd2\xfd\xde\x6d\xb9\x0f\xcd\xb7\x5d\x0d\x42\x43\xb7\xe1\xf7\xa0\x32\xf2\xbe\x05\x15\xaf\xb1\x72\xd5\x74\x3f\x5a\x3a\x85\xf4\x23\x46\xd0\x66\xdb\x33\x89\x95\x58\xfb\xeb\xb5\x62\xe2\xea\xbe\xa6\x3a\xba\xb6\xf9\x83\x78\xfa\xe6\xfd\xa3\xd0\x9d\xc5\xd1\x67\x59\x34\x82\xb3\xa1\x25\xda\xd4\x34\xe8\x57\x02\x62\xdc\x06\x3b\x92\x4e\xba\xca\x60\xe9\x50\x4b\xba\xfd\xd6\x39\x65\x32\xb8\xb2\x23\xbf\xeb\xc8\x1a\x5f\xb6\x1b\x4b\xcc\x58\x5e\x98\x63\x40\xe4\x13\x07\x85\x1c\xb5\xe5\x44\xf6\xd2\x9a\x97\x58\x2d\xeb\x24\x3c\x89\xab\x06\x42\xe2\x31\xca\x92\xbe\xdd\x8e\xcf\xfe\xf0\xaf\x7f\xf3\xc3\xef\xff\xf9\x87\x7f\xfa\xb7\x1f\xfe\xfe\x77\x7f\xfc\xc7\xbf\xfd\xcf\x7f\xff\x8f\x3f\xfc\xfe\xef\x7e\xf8\x97\xdf\xfd\xf1\x77\xff\x70\x36\x76\x49\xb0\xa9\x06\x7d\x94\x26\xfc\x38\x45\x88\x8f\xd4\x80\x0e\x65\x1f\xb1\xd0\xa1\x75\x9a\x5c\xde\x6d\x1e\xcf\x2c\xb9\x5f\xf4\xe3\xe1\xa1\x6d\xd9\x2a\x6c\x68\x0d\xb5\xb8\x76\xcd\x9b\x1e\x3e\x6c\xde\x1a\xb0\xb5\x73\x27\x66\x0a\x85\x72\x04\x91\x4c\x21\x0d\xa3\x0d\x6d\x5f\xa1\xdc\x2a\xfc\xb4\x85\x39\x87\x43\xf4\xd3\x50\x8f\x01\xfa\xe4\xb7\x05\xa1\x1b\x73\xe4\x76\xbd\x94\x71\x97\xe5\x34\xfe\xa8\x5d\x5e\xd5\xca\x5b\xba\xcd\xf6\xb6\x7c\x5b\x5b\x9c\xc6\xb7\xf6\x38\x3d\xeb\x6e\xf2\x9f\x98\xd6\x21\x9b\xd1\x4b\x88\x9d\xd4\x6f\x31\x4e\xb6\x19\xdf\x70\xd5\x5d\x22\x4e\xac\xd1\x70\xec\xda\x67\x38\x4e\x90\x95\x6f\x3b\x3a\xa2\xf8\xef\xa3\x46\xfd\x6c\xdf\x41\xda\xdf\xb2\x9d\x9f\xad\x5f\xf4\x43\x17\x9d\x9b\x98\x49\x33\x07\x2e\x81\xf0\x33\xd1\x72\xac\xa3\x43\xda\xb7\xa5\x17\xa6\xea\x52\x6d\x34\xe7\xca\x7c\xe2\xd1\x0f\x9b\x30\xe8\x6e\x47\x4d\xaa\x7a\xc5\xd5\xc7\x06\xbe\xc7\x44\x4f\xe7\x07\x7a\xe8\xed\x5e\xfe\xf8\x0c\x5e\x96\xc5\x46\x7f\x2e\x0a\x11\xd6\xa3\x25\xf5\xf2\xe4\xa2\x5a\x15\x19\x4c\x5c\xa1\x0c\xe7\x62\x7b\x05\xef\x65\x6a\xce\x56\x6a\xe1\x1f\x80\xad\x96\xb9\xc2\xd0\x2b\x5b\xe9\x0f\xdd\x60\x4a\x9e\x97\x5c\x4a\x38\x1b\xd3\x8a\x9a\xfc\x5e\xd3\x7b\x20\x94\x6a\x2c\x72\x4b\x7e\xb4\x59\xba\xd9\xee\xf3\xc3\xb9\x6e\x93\xec\x0e\xb6\xa7\x87\xfb\xd3\x83\x0d\x6a\xbd\x6d\xf0\xfe\x88\xab\x78\x38\x0c\x9d\xe1\x38\xf8\xd1\xb1\x9e\x73\x29\x53\x94\x44\xf9\xb9\x0d\xf9\x75\x75\x02\x2b\x4a\x18\xc5\xc0\x67\xeb\x68\x04\x9a\xb3\xb6\xfc\x61\x4e\x16\x81\xab\xb7\xb8\xcf\x79\xc6\x78\x00\x52\xe2\x71\xf9\xaf\x56\xb3\x19\x17\x31\xe2\xea\x1f\xf2\x06\xff\x94\x04\xa5\xde\xc1\xee\x37\xce\x0e\x7e\x1f\xc5\x7d\xf2\xf4\xd8\x36\xe4\x8b\xc7\x37\xaf\x3f\xe6\x0e\x89\x3d\x47\x87\xf3\xc1\x94\x6e\xdd\x6f\xba\x41\x8a\xb8\x20\xa2\xe5\x08\xa4\x58\x9b\xdf\xee\x13\x76\x94\xac\xee\x7e\x3d\xef\xd8\x5b\xa0\x28\x48\x3a\x39\x80\xf5\xd6\xaa\xd4\xc6\x75\xc5\x5f\xaf\x26\x72\x2a\xf2\x09\x8f\x3b\xb7\x37\xc9\x44\x7a\xb7\xb8\x30\x5d\xed\x1b\x83\x46\x59\xac\xfd\xaf\x82\x68\x20\xfc\xb9\x9c\x6b\xd2\x92\xe1\x0a\x8b\xfb\x66\x9d\xdb\x38\x9e\x4c\xb7\xdb\xd6\x27\x31\xd8\x2d\xf7\xb8\x7f\xec\xe7\x65\x70\xca\x11\x9f\x97\x69\x20\x1f\xbc\x3d\xd3\xfa\x38\x6e\xea\xf8\x47\x77\x12\x12\x5f\x70\x03\x9f\x95\xd9\x0f\x01\xf9\x33\x34\xa2\x75\xe7\x05\x07\xf9\x0f\xf4\x75\x15\xfa\x30\xca\xc0\x0d\x1b\xff\x86\xdb\x9f\xf1\xbb\x34\x0d\x47\x0e\x5e\xa0\x25\xe3\xe9\x54\xe9\x02\xda\xbc\xc0\xeb\x27\x8e\x1d\x27\x7d\x97\x06\x45\xec\x8d\x20\xb7\x35\xa2\x0b\xf7\x57\x65\xef\x18\xaf\xab\xd8\x8c\xe8\x9c\x62\x3a\xf5\xc3\x35\x9e\x7e\x78\x37\x1d\x4e\xff\x70\x8d\x07\xc7\x1d\x89\x3e\xcc\x5c\x8f\x3c\x00\x38\x6b\x73\xb7\x61\xed\xce\x27\x69\x68\xa5\x6e\x27\x65\x68\x1d\xaf\x96\x8f\x2c\xdb\x6e\xdb\x6c\xef\xef\x29\x2d\xe5\x9c\xec\xe0\x73\x39\x1f\x2e\xe1\xef\x9e\x6e\xed\xbb\xfd\xb9\xe7\x8c\xfc\x52\xce\xd3\xa7\xda\xfd\xf5\x9f\xea\xec\x3b\x84\x60\x75\x79\xe0\x2a\x29\xb1\x87\xea\xbc\x56\xcc\x7a\x7b\x62\xe9\xf5\x0e\x6b\xaa\x0c\xa4\xe3\xaf\xbe\x40\x8c\xa7\xd1\x73\xdd\xb2\x11\x1c\x47\x95\x95\xeb\x9a\xe0\xe7\x0b\x24\x9d\x9d\xd2\xd0\x2a\xd5\xfa\x76\x1d\x2b\x37\xe6\xab\x78\x74\xe6\xbc\x59\xad\x7b\x3c\xfe\xac\x7d\x3e\xfe\x53\xef\x80\xbc\x16\x52\xd7\x8c\x1c\xb8\x1c\x83\x78\x6f\x28\x82\x1f\x41\x39\xf5\x1c\x57\x82\x8b\xa2\x0c\x2f\x2e\xfd\xdb\x2f\x5a\x10\x13\xe7\x7b\x5a\xe9\x89\x5b\xdc\xde\x9a\x79\xb4\x94\xf3\x07\x92\x88\x77\x85\xa5\x9c\xa6\xd7\xab\x49\x91\xcb\x45\x4c\x37\xaf\x27\x49\xb3\xa3\x06\xb7\x66\xb7\xea\x8d\xcb\xb9\xaa\x77\xb7\x43\x47\x25\x6f\xe4\x36\x56\x64\xa1\x9a\xfc\x06\x4f\xf6\x50\x51\xbb\x23\xba\x4d\x0a\xcf\x51\x06\x38\xf2\x1c\xdb\xbb\xf6\xa4\x8f\xf9\x24\xe3\x0a\x13\x43\xec\xa6\x21\x34\xf4\x52\xa5\xcc\xb1\x97\x4b\xf7\xc8\xc8\xf3\x0c\xe2\x3d\xd0\x72\x1d\x66\xfd\xc1\x03\x92\x56\xa5\x5b\xdb\xdd\xac\x8f\x24\xf8\x0b\xd3\x42\x28\xdc\x06\x6c\x72\xca\x61\x2d\xa4\x88\x1a\x1f\xf6\xd9\x09\x87\xb5\xbc\xd9\x07\xbe\xfc\x81\xe2\xfc\x73\x7f\xf9\xa3\xc1\x6e\x37\x6e\x1b\x8c\x12\x48\x77\xb9\x38\xe5\x2c\x56\xff\x67\x3f\x8e\x8d\xf7\x4e\xf9\xee\x87\x3d\x17\xd4\x37\xfc\x72\xd7\x01\x3b\x6a\xb4\xff\xf5\x3e\x00\x12\x04\x47\x04\x91\xa1\x77\xea\xa7\xa5\xfa\xfe\x51\x9f\xa7\xfc\x90\x3b\xde\x3d\xe3\xd3\x3d\xe2\xd3\x3a\x52\xed\x6c\xb5\x35\xe4\xbd\x07\x7a\x7a\xbd\x19\x25\xab\x1e\x22\x1f\xfd\x4d\x0f\x24\x68\xe8\x4c\xc2\x90\x27\x75\x47\x11\x06\xb8\xd1\x6b\xe3\x8e\xfb\xa6\x87\x75\xb5\x7f\xb2\xaf\x77\x0c\xa0\x7c\x84\xf7\x87\xfd\xee\x9f\x0b\x61\x81\x35\x8e\xf6\x38\x8f\xef\x4d\x6d\xfb\x99\x47\x8f\x7c\xb0\xc6\x7b\xed\x89\x0a\x6c\x9b\xff\x6c\x67\x92\xf6\x4c\x7d\x0d\xf1\xde\x6f\x8a\x1c\x1b\xa7\xf4\x75\xaa\xf7\x07\x2a\xfd\x1f\xdb\xf2\x75\x90\xc2\x95\x7e\x17\x4a\x4d\xd3\x3d\x1e\xb4\x7d\xeb\xca\xfd\xcf\x17\xd1\xc1\x2d\xaa\x1d\xe9\x3c\x6c\xc0\xa9\x62\x10\x66\x2d\xf2\x73\x39\xef\xfa\xd4\x73\x8d\xeb\x4f\xe3\x58\x8f\x0d\x3b\x0f\xb5\x8b\x2d\xcb\x07\x1d\xa9\x5b\x48\x6b\xb4\x03\x97\x78\x62\xf8\xaf\x01\x00\xac\x0c\xf4\x68\x6e\x6b\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5d\x8f\xe4\xc6\x75\xe8\x33\xf9\x2b\x8e\x08\x69\x45\xce\xed\x61\xeb\x5e\xe0\x5e\xf8\xce\x62\x02\xac\x76\x47\xd2\xda\xda\xdd\xf1\xee\xac\xf5\xb0\x58\xc8\xd5\xcd\xea\x6e\x7a\xd8\x24\xb7\xaa\x7a\x66\xda\x9d\x7e\xc9\x8b\x03\x24\x40\x80\x3c\xe5\x21\x30\xf2\x94\xd7\x20\xcf\xf9\x3d\x56\xe0\x7f\x11\x9c\xaa\x53\xc5\x22\x9b\xec\x8f\x95\x6c\x38\x40\x84\xc4\x9a\x26\xab\x4e\x9d\xaf\x3a\x75\xbe\x8a\x1a\x8f\xe1\x69\x95\x71\x98\xf3\x92\x0b\xa6\x78\x06\x93\x35\x4c\x98\xa8\xca\x14\x9e\xbd\x82\x97\xaf\x6e\xe0\xea\xd9\xf3\x9b\x34\x1c\x8f\xe1\x35\x17\xab\xb2\xcc\xcb\xb9\x19\x00\xf7\x79\x51\x40\x75\xc7\xc5\xbd\xc8\x15\x07\xb5\xc8\x25\xcc\xf2\x82\xeb\xc1\xbf\xe2\x42\xe6\x55\x79\x01\x9b\x4d\x4a\x7f\x6f\xb7\xde\x0b\x78\xc6\x14\xf7\xdf\xe2\xef\xed\x36\x0c\x6b\x36\xbd\x65\x73\x8e\x6f\xae\xcd\x9f\x2f\xd9\x52\xbf\x19\x8f\xe1\xc6\xae\x01\xd3\xaa\x54\x2c\x2f\x25\x2c\xb9\x5a\x54\x99\x04\x55\xc1\x92\xdd\x72\xc8\xcb\x2c\xbf\xcb\xb3\x15\x2b\x80\x97\x59\x5d\xe5\xa5\x92\x30\x13\xd5\x12\x24\x17\x77\xf9\x94\xcb\x11\xa2\x21\xf8\x87\x15\x97\x0a\x58\x99\x81\xe0\xb2\xae\x4a\xc9\x41\xad\x6b\xae\x21\xe1\x50\xa4\xa8\x92\xbc\x81\x32\x02\x26\xe1\x9e\x17\x05\xfe\x9b\x97\xd3\x2a\xe3\x42\x22\x00\x84\x97\x71\xfa\x3d\xab\x04\x4d\xd4\xd0\x46\xfa\x01\x43\x4e\xcd\xa0\x5a\x09\x90\xab\xba\xae\x04\x72\x5a\x09\x56\x4a\xfc\x1b\x31\xcb\x59\x91\xff\x96\xa9\xbc\x2a\x11\xda\xac\x12\x4b\xa6\x64\x1a\x86\xf9\x52\x8f\x88\xc3\x20\x9a\xac\x15\x97\x51\x18\x44\x48\x3b\x7f\x50\xf8\xa7\x46\x23\x2f\xe7\xe3\xdf\xc8\xaa\xc4\x07\xb3\xa5\x7e\x9e\x57\xe6\x7f\xc7\x79\xb5\x52\x79\x81\x3f\x4a\xae\xc6\x0b\xa5\x6a\xfb\xf7\x4a\xe8\xc7\x52\x89\x69\x55\xde\xd1\x9f\x79\x39\x97\x51\x18\x06\xd1\x3c\x57\x8b\xd5\x24\x9d\x56\xcb\xf1\xbc\x3a\xbf\xcd\xd5\x18\xff\xdf\xf2\x22\x0a\x03\x56\xae\xeb\x09\x44\xf3\xaa\x9a\x17\x3c\x9d\x57\x05\x2b\xe7\x69\x25\xe6\xe3\x5a\x54\xaa\x9a\xac\x66\x63\x4d\xff\xf8\xb6\xac\xee\xcb\xb1\x1e\x1d\x85\x41\xb6\x12\x9a\xc8\x13\xa6\x36\x53\xa2\x30\xe0\xcb\x5a\x9d\xb2\x2e\x8d\x8f\xc2\x60\x96\xf3\x22\x5b\x32\x79\x7b\xc2\x6c\x6f\x4e\x14\x06\x52\x89\xd5\x54\x9d\x30\xdd\x4e\x88\xc2\x40\xe5\x4b\x2e\x15\x5b\xd6\x27\x4c\xf7\xe6\x44\x61\x70\x2f\x58\x5d\x73\x21\x4f\x00\xd0\x4c\xd9\x15\xa9\xc8\x8b\x82\x8d\x97\xab\x87\xa8\xfd\xa6\xbe\x9d\x8f\xb9\x10\x95\xd0\x9a\xb6\x67\x21\xa7\x79\xfa\x89\x55\xbf\x3d\x13\xf4\x1f\x88\xc8\x66\x73\x0e\xf9\x0c\xf8\x07\x48\x9f\x56\xe5\x2c\x9f\xa7\x37\x6e\x27\x44\xac\x28\x22\x88\x4a\xa6\x64\x04\xdb\x6d\x1b\x37\x7c\x7a\x9e\x57\xfa\xdf\xe9\x1c\x35\x1c\x41\xf1\x32\xdb\x6e\x8f\x82\x3a\x17\xf5\xd4\x42\xdd\xc1\x53\xbf\x1c\x7c\x33\x5e\x72\xc5\x32\xa6\x58\x77\xd1\xa3\x97\x44\xf8\xcd\x8e\x1f\xd8\x5f\x6e\x80\x45\xc7\x5b\x0b\xf7\xee\x09\x00\x70\x78\x74\x14\x5b\x1a\x66\xe3\x5f\x27\x2c\x81\xc3\x5b\x38\x26\x61\x18\xde\x31\x01\x71\x18\x7c\x0f\x97\x30\x5b\xaa\xf4\x4d\x2d\xf2\x52\x99\xdf\xda\x80\xa5\x4f\xab\x65\xcd\x04\x37\x8f\xc8\xfa\xa4\x4f\x54\x95\x9b\x27\x2d\x32\xd3\x97\xfc\xfe\x0d\x17\x77\x5c\x98\x97\xc6\x9a\xa5\x2f\xab\xfa\x69\x51\xc9\xe6\x69\xfa\xb4\xaa\xd7\xe6\x87\x51\xde\xf4\x3b\xc1\xea\x30\x18\x8f\x81\xe4\x69\xd5\xd0\xd8\x78\x1c\xaa\x4d\x52\xfa\xa4\xd4\xf3\x1a\x23\x93\x3e\xa3\x3f\xf1\x31\x99\x8f\xf4\x0a\xff\x8d\x0f\xec\x96\x4e\xdf\xe8\x3f\xf0\x91\xb7\x4d\xd3\x1b\xfb\x37\xbe\x68\xb6\x1f\x8e\xce\xcb\xf9\xaf\x58\xb1\xd2\x74\x7b\x76\x25\xfd\x0a\xff\x7e\xc1\xe4\x6d\x98\x84\xe1\xf8\xec\xa8\x7f\xe0\xca\x9e\x49\x60\x1f\x1d\xfe\x67\xac\x4f\xd0\xe7\x25\x30\x3c\x6f\xee\xb8\x18\x41\xae\x3e\x97\xb0\x92\x7c\xb6\x2a\xf4\x31\x35\x5b\x95\x53\xe4\x82\x04\xb5\x60\x0a\x4a\x8e\xa7\x54\x05\x55\xad\x7d\x03\xa8\x70\x6e\xcd\xc5\xb9\x3d\x06\x10\xe0\x84\xc9\x5c\xa6\xf0\x55\x25\x80\x3f\xb0\x65\x5d\xf0\x11\xac\xab\x15\x2c\xf3\xf9\x42\x41\xcd\x24\x1e\x91\x1e\xc2\xaa\x02\xe6\x16\x32\xeb\xd4\xa2\xca\x56\x53\x2e\x11\x1c\x2b\xb5\x06\xa4\xdf\xb0\x32\x2b\x10\xc7\xfb\x5c\x2d\x80\xb3\xe9\x82\x4e\x7a\x88\xed\xea\x09\xdc\xe7\x82\x67\xb0\xaa\x11\x49\x06\xb2\xe6\xd3\x7c\x96\x4f\xa1\x66\x6a\x91\x42\xfc\x5c\x21\xc0\x5c\x42\x2d\xaa\x09\x9b\x14\x6b\x60\xb0\xcc\xa5\x32\x5e\x02\x64\x5c\xe6\xf3\x12\xa7\xe6\xe5\x5d\x75\x8b\xc7\x3d\x07\x54\xb6\x7c\xca\x9d\x57\xa1\x51\xe4\x08\xa7\xa1\xc0\xe8\x00\xe4\x0d\x27\xd3\x24\x1c\x8f\x1d\x77\xa7\x45\xce\x4b\xd5\xe6\xae\xaa\x60\x5a\x15\x05\x9f\x2a\xcf\x41\x29\xd6\x30\xad\x4a\x03\x8e\x67\x9e\xbb\x92\x97\x48\x10\x02\x94\x79\x39\x2f\x8c\x63\x62\x78\x95\x23\x87\x97\x1c\xf1\xf0\xf1\xcd\x4b\xc5\xc5\x8c\x4d\xf9\x90\x24\x10\x98\x5b\xac\xdf\x49\x5a\xe1\x62\x8d\x57\xa2\x9d\x05\xdc\x80\x4f\x89\x9e\x69\xb5\x9c\xe4\xa5\xe6\xd3\x92\x50\xf4\x04\x3b\x22\x57\x4a\xad\x44\x09\xb9\x42\xbe\x22\x82\x53\x56\x14\x5c\xa0\xc7\xc4\x2c\xb2\x69\xa8\xc9\xd9\x61\xe8\x26\x0c\xde\x96\x8e\x3e\x9e\x6d\x36\xa9\x9d\x61\x5c\x40\xb2\x04\x9b\x8d\x60\xe5\x9c\xc3\xa7\x39\x5c\x5c\x82\x1b\xf3\xc2\x88\x0c\xed\xd8\x66\xf3\x69\x4e\x73\xec\x2a\x00\xe0\x48\x4d\xed\xc3\x70\xb3\x31\xc6\xd5\x78\x97\xf6\xb1\x3c\xbc\x04\x2a\x30\xc4\x1e\x11\x09\x78\x8b\xc6\x53\xf5\x00\xe4\xa5\xe1\xd1\x80\xff\x1e\xa1\xc2\x9c\x6d\x36\x5f\x57\x88\x18\x7c\x9a\xa7\xaf\x8d\x0b\x7a\xb3\xae\x2d\x81\x09\xc4\x9d\x11\xc6\x31\xf5\x86\x8c\x8c\x81\x4b\x60\x13\x06\xd6\x6f\xd5\xcf\x10\x51\x9e\xf6\x50\x8e\xc8\xe0\xe2\x49\x18\xe0\x61\x25\x04\x7c\x72\x09\x65\x5e\x20\x84\x80\xe4\x55\xe6\x85\x06\x12\x06\xdb\xd0\x3e\xb3\xd0\xd3\x83\x38\x25\x23\x84\x17\x6e\x1d\x3b\x91\x99\x2f\xd8\xad\xc7\x9e\x70\xb3\xd1\x1b\xf9\x53\xc5\x11\xd1\x74\x8b\x83\xcf\xc1\xe7\xf2\xa7\x8a\x0f\x31\x1a\x61\xf5\x51\x26\x91\xe9\x8a\xf7\xaa\x49\xb2\x2b\x6e\xd8\x38\xe2\x50\x7e\xfd\x52\xb2\x81\x81\xdb\x51\x9b\x6d\x02\xb1\x65\x86\xff\x58\x73\xcc\x13\x47\x20\xf8\x07\x24\x84\x20\xa4\xf1\x21\x69\x87\x41\x70\xe7\x64\x27\x7d\xd9\x21\x6a\x1a\x95\x24\x0c\x7a\xa4\xb6\x2b\x36\x94\x9b\x7d\x7a\x67\xc4\x11\xa0\x5a\x37\x67\xb3\x2f\x1b\x3c\x1c\x9f\x14\xc5\xd5\xc3\x94\xd7\x4a\x9f\x53\xd2\x98\x58\xc7\x29\x7d\x42\x61\xc8\x42\x7b\xd3\xbe\x90\xa0\xc5\xc8\x10\x8a\xe7\x13\x38\x56\xbf\xc8\xb3\xac\xe0\xf7\x4c\x98\x28\xf0\xad\xb4\x71\x21\x06\x41\x75\x5d\xac\xd1\xc4\xa0\xd9\x54\x08\x7c\xe9\x46\xeb\xa8\x8b\xdf\x71\xb1\x76\x62\xc3\xfd\x82\x16\x84\xc2\x36\x0d\xef\x55\x8d\xa7\x06\x2b\x8a\xf5\xc8\x8d\x93\x30\x65\x25\x4c\xb8\x3e\x6b\x78\x86\xd3\x26\x6b\x28\x91\xed\xaa\xc2\xe7\xfc\x61\x5a\xac\x32\x9e\x99\x28\x70\xc2\x11\x05\xa4\xb9\xe6\x59\xba\xc3\x8d\xb8\xc1\x69\x04\xd1\x1b\xc5\xd4\x4a\x46\x23\x88\xae\xf3\x72\x1e\x25\x6e\xdf\x9f\x39\x86\x24\x83\xf3\x1d\x86\x1e\x57\x46\x0d\x36\x69\x9a\x4a\xed\x16\x68\xe5\xc9\x4b\x7a\x7c\x71\x09\x4b\x56\xbf\x33\xaf\xde\x1b\xf6\x6f\xb6\xa8\x5e\xdd\x0d\xd3\xb3\x5b\x82\x20\x88\x3c\x35\x8a\x2e\x60\xb3\x1d\x85\x81\xef\x46\x6e\xc3\x30\xc0\xb3\xfe\x7b\x44\x05\xc1\x18\x90\x0e\x2d\x5c\x29\x9f\xc1\xf7\x23\xa8\x6e\xf1\xb5\x45\xec\x1d\x7f\x78\xff\x18\x3e\xa9\x6e\x11\xdb\x20\xa8\x59\x99\x4f\xe3\xc6\xc3\x9b\xc5\xd1\x95\x05\x61\xe9\x86\xcf\x3f\x93\x9f\x43\x56\x71\x09\x65\xa5\x80\x3f\xe4\x52\x3d\x06\xc9\xb9\x2f\x78\x17\x53\x6a\x97\x1e\x91\x4a\x12\xd2\xe7\x8c\x17\x5c\xf1\xd8\x62\xa0\xdf\x19\x02\x8e\x62\x45\x2f\x15\x2d\xf6\xbc\x7f\x0c\x96\x9e\x5e\xd3\x09\x97\x1e\xa6\x71\xef\x10\xc2\xb5\x61\xb0\xd9\x61\xdf\xb2\x09\x2f\x78\xd6\x08\xde\x64\x4b\xe6\x5c\x59\x35\x45\xd5\x76\x8c\xd2\xda\x7a\xbf\xe0\xa5\x7b\x5b\x79\x9a\x49\xc0\x8c\x82\x8d\xcc\x86\x22\x9d\x5f\x99\xc1\x60\x52\x30\xcc\xe4\x71\xf2\x29\xfa\x2f\x22\x9f\x6a\x8f\xaa\xa1\x00\xee\x17\xf9\x74\xa1\xb7\x8b\xe4\x65\x1f\x0a\x74\x68\xd3\x6c\xeb\xb2\x54\x82\x8e\xec\x5d\xaa\x70\x3f\xc4\x46\x57\x47\xbb\x06\xb7\xc7\x06\x87\x43\x74\x7d\xb4\x19\xda\x41\x6a\x44\x74\x6a\x8e\x0b\x3e\xe5\xf9\x1d\x5a\x21\x6e\x48\xac\x66\x2d\xba\x53\x78\xc3\xb9\x03\xe3\x41\xd1\x2f\xac\xcf\x49\x08\x5f\x3d\x20\xa2\xb8\x7b\x32\xae\x58\x5e\x48\x74\x89\xed\xce\x41\x20\xd6\xaf\x65\x45\xae\xd6\xe9\x3e\x6b\xd1\xa2\x3d\x5e\xfe\x08\x8e\xfe\x8f\x49\xf9\xef\x6b\x52\x5a\x53\x47\x70\xac\x85\x39\x3e\xed\x70\x6c\x40\xf9\xf5\xeb\xeb\xa7\x48\x30\x17\x27\x47\x94\xe8\x9c\x79\xd3\x31\x09\x2b\x9b\x23\xde\x89\x02\xd8\x1d\xcb\x0b\x36\x29\xb8\x09\x06\xe6\xaf\xaf\x9f\xc2\x80\x8b\x4f\x3b\xa7\x0d\xd9\xc5\x7d\xb2\x31\x03\x23\xa8\xb4\x47\x20\x51\xf5\x5b\x19\x16\xad\xc9\x5c\x18\x87\x21\x19\x5a\x08\xcf\x32\xe9\x0d\x94\x28\xd8\x77\xef\x87\x21\xa1\x60\xfb\xde\x7e\xc9\x67\x95\xe0\x31\x62\xfb\x82\x32\x45\x37\x15\xf9\x94\xc9\x08\xb7\x48\x67\x9d\x4b\x74\x87\x78\x99\xc5\xad\xc7\x8e\x9e\x34\x4d\x13\x9d\xbe\xd8\x6c\xe0\xa6\xfa\xb6\xba\xe7\xa2\xd1\x48\x64\x15\x0a\xd7\x3a\x7c\x8f\x10\x23\x7c\xc9\xc5\x06\xcf\xc6\x83\x6a\x8c\xe3\x3d\x4d\xbb\x80\x36\x49\x2e\xe9\x12\xe3\xee\x77\x6c\xef\x53\x4e\x74\x2e\x82\x67\x3a\xf7\x8d\xb4\x7b\x23\xc8\xdf\xd5\x03\xae\xca\xde\x01\x14\xbd\xe0\x88\x16\x17\xd2\x34\xc5\x69\xc9\xc8\xd7\xfa\xc0\x1e\xad\x0d\xb1\xdd\x60\xd8\xb9\xdb\xfd\xb2\x76\xae\xbb\x39\xcc\x3c\x38\x3f\x79\x00\xda\x61\x30\x40\x87\xc3\x94\xdd\xf0\xdc\x73\x0a\x9a\x28\xed\x80\xd6\xd4\xc3\x4f\x55\x0d\xa9\xc7\x53\x79\x10\x4d\xbd\xc9\x62\x09\x67\xcd\x52\x49\x03\xfe\x40\x34\x8b\xc1\xce\x4f\x1b\xce\x7e\x8f\x11\x4f\xed\x05\x44\x1d\x2e\x6a\x0a\xb4\x16\xf9\xe1\xd1\x89\x31\x6d\xfd\x91\xe1\x2c\x71\xd7\xa8\xfa\x61\xd6\x8e\xc7\xb0\x6f\x57\x40\x8e\x26\xd0\xe9\x83\xce\xf6\xa6\x66\x02\x8d\xf8\x0a\x65\xa3\x33\x3e\x58\x9d\xe1\x42\x49\x93\x10\x22\xb3\x69\x6d\x82\x03\xec\xe2\x56\x4c\xcb\x60\xd6\x49\x9c\x67\xd5\x92\xe5\xe5\xbe\xc1\x29\x5c\x8b\x7c\xc9\x44\x5e\xac\x6d\xa2\xca\xcf\x6a\x19\x2b\xbc\x8f\x8e\xf8\xfb\x5d\xc5\x40\x5a\x5e\xf3\x0f\x8d\x22\xea\x00\xda\xfb\xd5\x4e\x61\xe8\x90\x99\xe6\x1c\x13\x32\x3b\x49\x7e\xd8\x23\xa6\xab\xf2\x68\x31\xed\xb5\x4d\xbd\x72\x32\x33\xec\x90\x21\x41\x1d\x16\x01\x2d\xa1\x05\xb6\x47\xac\x75\xb1\x3e\x4a\x4e\x7b\x09\xe9\x13\x54\x5f\x4e\x63\x9f\xa4\x64\x8d\xa2\xb2\xb3\x8e\xd8\x47\x9e\xb0\x64\xdd\x27\xad\x6f\x78\x81\x09\xf2\xd0\x28\x5a\xef\xe1\xd9\x6f\x7c\x96\x19\xd8\x82\x4c\xfa\xe2\x59\xd2\x1d\x80\xf8\xa2\x09\xbd\x1d\xc1\x5d\xe3\x8f\x2e\x9d\x27\x7a\xd7\x4a\xa6\xe8\xba\x32\x87\x5b\xbe\xd6\xe2\xce\xd0\x65\x9d\x54\x6a\x81\x3c\xb6\xab\x50\x45\x16\xe2\xdb\x84\xa2\x0b\x1c\x5a\x14\x50\xa0\xbc\x08\x0a\xa3\x98\x4a\x27\x4e\x9f\xb2\xb2\x2a\xf3\x29\x2b\xbe\xe1\x2c\xe3\xe2\x17\x7c\x6d\x43\x0f\x5c\x48\x56\x94\xce\x55\x14\xc9\x59\x10\xd3\x29\xb7\x59\x0c\x9e\xab\x05\x17\xb4\x32\xbe\x47\x56\x5c\x3a\x5a\xbf\xcb\xd5\x42\x57\x14\x90\x45\x23\x4d\xeb\xbb\x2f\xde\x27\x07\x07\x0e\x60\x17\xdf\x26\x0d\x04\x72\xea\x49\x7c\x53\xf5\xa0\xcf\x5e\xeb\xf7\xed\xff\x47\xcb\xd1\xe4\x8c\x4f\xf6\x25\x5f\xf2\x7b\x6f\xb6\x59\x5e\xd7\x0f\x28\x09\x04\x13\x36\xbd\x45\xf1\xac\xed\x9e\x31\xc9\x76\xa4\xb5\xe4\xba\x76\x91\xc2\x73\x85\x72\xa4\xb4\x3d\xa9\x6b\x3e\xc9\x31\x24\xb3\x22\xa0\xac\xb4\xaa\x20\xcb\x59\x61\x52\xd7\x05\x53\x5c\xc0\x14\xeb\x4a\x18\x63\x73\x1f\xa6\x51\xd0\x16\x76\x31\xbe\x36\x47\x67\x6a\xf0\x7d\x5a\x95\xe5\x1e\x87\xd4\x0c\xb2\x0e\x69\x3c\xe0\x91\xfa\x5b\x0e\xbd\x83\x6e\xd6\x34\xd8\x0d\xda\xfc\x0c\x68\x63\xda\x82\x3b\x26\x5c\xd8\xe4\x59\x84\xdd\x00\x32\x0c\x70\x1b\xf4\x0d\xbd\xdc\x75\x0c\x89\x78\xad\x65\x48\xaf\x8d\x0f\x3d\x1c\x50\x82\x36\xa4\x69\xc2\xc7\xee\xd3\xab\xf2\x80\xd3\xf8\x8c\x1f\x72\x1a\x0f\xd8\x1f\x93\xfa\x0a\x1a\x8f\x1a\x7f\x26\x8e\xec\x58\x07\x7e\x9a\x9f\xe4\x61\x3a\xd3\x64\xed\x96\x1d\x2a\x0f\xba\xd5\x70\xae\x1d\x6b\x0f\x53\x3b\xf7\xc2\xaf\x3c\x78\xef\x47\xcd\x7a\xc1\xd6\x1a\x47\x34\x8a\x48\x31\xd0\x0e\xf8\xf1\xee\xc6\x9e\x73\xec\x19\x3f\xe6\x1c\xdb\x7f\x32\x1d\xeb\x6e\xd0\x99\x31\x70\x8e\x99\x4d\x4c\xbb\xec\x19\x3f\xf1\x1c\x43\x62\x5e\x6b\x64\x8e\x3c\xc8\x70\xa8\x73\x3a\xf0\x78\x3d\xe9\x28\xab\x8b\x75\xdf\x59\xe6\x8b\xed\xc7\xbb\x1f\xc3\x5e\xe2\x55\x79\x84\x97\x78\x58\x20\x9e\xb3\xb8\x47\xc2\x7b\xbd\xc4\x96\xd4\xf6\xd1\xd1\xef\x7c\x10\x89\xc7\x89\xec\xd4\xc2\xca\x7e\x2f\x91\xb0\xd0\xa7\xa7\xbc\xa9\x7c\xc7\xc3\xec\x94\x3e\xcb\x4d\xeb\xe0\x3e\x31\x8a\xba\x07\x4a\x7c\xcb\xd7\x12\xde\xbd\xb7\xd9\xb8\x03\xf0\x8e\x2a\x4c\x2d\x33\x38\x3b\xe4\xf4\x68\xa3\x5f\xb3\x5c\x34\x8b\x87\x81\xcd\xcd\xdd\x36\xae\x90\x46\x0f\xad\x3e\x16\x97\xee\x6c\x46\x6b\xaa\x1e\x52\xcd\x93\xf8\x36\x49\x29\x07\x99\x34\xf9\xac\xc0\x00\x76\x99\x0b\xfd\xd3\x38\x1e\xe8\x33\x68\x63\x8a\xc6\x13\x61\xea\x77\x2d\x2f\xeb\x6c\x99\x61\xee\xcb\x12\xf0\xf3\x2a\x2f\xe3\xb3\x65\x36\x6a\x1e\x5d\xe3\x9c\x58\xcf\xc4\xf4\x47\x62\xc1\x11\x67\xd0\x0b\xa1\x9a\x96\x91\xe4\xb1\xb9\xad\x6f\x6e\x6e\xae\x29\x2e\xb0\xcf\x0e\xff\x33\x0e\x43\x5d\x2e\x37\x5c\x2e\xb5\x7a\xc1\x25\x44\xac\xae\x8b\x7c\xaa\x1b\x44\x74\xcf\xdd\x63\x98\x2e\x98\x90\x5c\x5d\xae\xd4\xec\xfc\x67\x91\x4b\x89\xe1\xaa\x14\xe6\x53\x55\x1c\x15\x6b\x41\x4f\xf4\x9e\x3d\x9c\x2a\x43\x60\x55\x09\xb5\xe0\x19\x9f\xe5\x25\xcf\x74\x6f\x83\xa4\x3d\xd7\x59\xe6\x60\x82\xac\xdd\x5a\xd3\x4e\x90\xf9\x4d\x17\xd6\xf7\xc8\x67\x90\x6a\xf8\xda\x4d\xf7\xec\x56\x27\x5f\x83\xba\xf3\xee\xfd\x30\x74\x2d\xff\xbe\xd7\x94\x35\x33\x6b\xa0\x1f\x2a\x5b\x49\xb3\xfe\x49\x57\x68\xc9\x8d\xb9\x11\x31\xf7\x7e\x0c\x4f\x79\x32\x53\x5c\xc4\xdd\x37\xea\x69\x23\xda\xd8\x13\x73\xa2\x01\xed\x52\x79\x54\xca\x8e\x32\x3a\x3a\x3d\xb7\x44\xc6\x2c\x57\x0f\xe8\x37\xbd\xae\x56\x88\x43\x12\x7a\x9e\x04\x15\x17\x2e\x2e\x07\xd9\xec\x86\x4e\xb0\x63\xa3\x9c\x23\x40\x9a\x96\x7e\x69\x1e\x51\x8e\x7e\x69\xe7\xc5\xe8\x6e\xd1\x70\xec\xad\x9d\xc0\x5f\xc3\x4d\xf5\x16\x7b\x07\xb7\xdb\x28\x49\xaf\x99\x5a\xb4\xc6\xe0\x83\x1b\xbe\xac\xd1\xff\xd5\x23\xac\x3a\x0d\x74\x62\xe9\xa4\x60\x3b\x2b\x48\x18\xf5\xa4\x06\x29\x37\x88\xe4\x79\x4b\xea\xe2\x87\x3b\x1e\xcc\x40\x23\x51\x1c\xf8\xb5\xa9\x61\xd9\x63\xd8\xbc\xee\x4b\x10\x06\x3a\xad\xdf\xe4\xd0\xfc\x3f\xc9\x68\x2c\xc9\xa9\xf2\x95\xc6\x14\xcb\x74\x84\x60\xdc\x02\x5b\xf6\xb2\x2b\x7e\x87\xef\xc5\x08\xa3\x8c\x8c\xcf\xd8\xaa\x50\x78\xda\x19\x05\xc1\x1d\xa9\xd3\x87\xd5\x0c\xba\xb6\x60\x04\x0c\x26\x55\xa6\x03\x3d\xb4\x0d\xa6\x48\x85\xe1\x5e\xa4\xd7\x89\x5c\x84\x78\x87\x56\x16\x41\xe9\xe7\xa9\xc6\x2e\x4e\x4c\x1c\xc2\x40\xea\xaa\x33\x20\x3f\x10\xd4\xff\xfd\xe2\x8b\x14\x9e\x53\xd9\x0a\x47\xfa\x79\x4f\xb3\x6f\xb8\xd0\x4d\xcd\x38\xa2\x16\xd5\x5d\x8e\x21\xec\x42\xbf\xc1\x82\x7d\x51\x60\x19\x5c\x63\x6b\xaa\x85\x38\xae\xf1\xc9\x7c\xd0\x08\xc5\x83\x8e\x54\xa4\x2f\x98\x90\x0b\xa6\x9b\xb1\x2c\xfe\x4b\xf3\x08\x2b\xe9\x72\x35\x9d\x72\x9e\x49\x13\x33\xfd\xfc\xcd\xab\x97\xd4\x1b\x9d\xd9\x46\x66\x1b\x74\x69\x5a\x1d\x3a\x58\xb9\x1c\x26\xcb\x14\xde\xb1\x35\x5d\x8c\x6c\x28\xe7\x28\x6b\x5e\xb6\xa0\x41\x5e\x4a\xc5\x59\x66\x79\x66\x8c\xa4\x6f\x21\xfa\x1c\x11\xd7\xc3\x31\x82\x7b\xd3\x7a\xd6\x56\x03\xed\x33\xa2\x54\x47\xf0\x3d\x6e\x3f\x9f\x25\xc6\xfc\x60\x71\xb0\xe6\x62\xa3\xa5\x78\x81\xb4\x58\x81\xa2\x27\x92\xcf\x2c\xb7\x90\x81\xe6\xa0\xc5\x21\x71\x9b\xb7\xcd\x39\x9b\xcf\x00\x5f\x7d\xa9\x97\xa4\xa9\x57\x26\x25\xea\x00\xd9\x79\xc8\xee\x38\x79\x6c\x57\xc0\x61\x97\xde\x99\x8b\x68\xc3\xa5\x03\x67\x03\xfb\xe0\x3e\x35\x6a\x13\x27\xe9\x1b\xae\xe2\x88\x0c\xe1\xf9\xcd\xba\xe6\xd1\xc8\x3f\xf2\x0c\x01\x0b\xab\x64\x3e\xfe\x6d\xf3\x60\xf5\xb0\xa1\xc3\x26\x60\x64\xe3\x76\x58\x38\x34\x5a\xc6\x9a\xb9\x81\x8f\xcf\x33\x5e\xc4\xb7\xb8\xad\xad\xd7\xe2\x25\x70\xee\xc8\x67\xf1\xc7\x3f\xc9\xb2\xb8\xe3\x81\xe0\xff\xe9\xbd\x73\x61\xba\x49\x53\xa3\x2f\xcf\xd1\xb7\x2c\x59\xe1\x9d\x22\x9a\x38\x39\xdd\x43\x96\xa7\x87\x0d\x65\x1a\xf8\x25\xc8\x29\x41\xc6\xd7\x14\x4d\xde\xa7\x5a\x6b\x08\x3d\x1c\x98\xb8\x87\x31\x8a\x23\x41\x83\xd4\x28\xa6\x31\x8f\x22\x9e\xac\x66\xf0\xee\x3d\x36\xc8\x26\xb4\x19\x36\xa1\x76\xe6\xee\xc1\xd7\x31\x97\xee\xb6\x8a\xf8\xb6\x24\xd1\x23\x84\x11\x3c\xba\x4f\x1e\x77\xd3\xe1\xc6\x8d\x91\xf9\x6f\x39\x5c\xc2\xcf\xfe\xf7\xff\xff\x7f\x46\xc7\x0a\x5e\xe2\x9c\x04\xfe\xca\xbc\xc3\xa1\x01\xa2\x71\x09\x93\xd5\xec\xdd\x05\x3e\x7c\x4f\xe7\x20\x19\x53\xec\xf6\xd0\x7c\x9b\xc5\x91\x35\x1f\x80\x44\xe9\x46\x8f\x0b\xcc\x64\x61\x51\xb6\x46\x7f\x08\xca\xaa\x3c\x47\xc5\x73\x9e\x3e\x0e\x8c\x46\x08\x9c\x2a\xae\x04\x95\x1a\x76\x5f\xf2\xfb\xf8\xde\x6c\x1c\xcd\x23\x6d\x64\x7d\xda\x6d\x0f\xc0\x26\x0c\xf4\x28\xfc\x8d\x06\xe8\xd7\xb8\xca\x05\x59\xd8\x5f\x93\xbd\x47\xb9\xd3\x28\xa6\x72\x39\xcb\xf1\x5e\xc7\x82\x3b\x73\xa9\x2d\xad\x27\xdc\x26\x0e\x91\x90\xeb\x2b\x18\xf6\x1e\xca\x31\x7d\xd6\xa9\xa9\x28\x79\x8b\x3a\x54\x35\x5a\x78\x77\xc0\x2e\x85\x2b\x85\x81\x35\xce\x00\x7e\x69\xde\xf9\xec\x56\x47\xe2\x45\x03\x34\xf1\x8c\x62\x9c\x40\xbb\x9f\x6d\x91\x36\x2b\x0c\xcc\x6e\xf6\x1c\x3e\xa4\x1d\xd4\x02\x41\x48\x85\xad\x54\x7a\x37\x05\x71\xd0\x69\xf1\xd2\x53\x07\xbc\x16\x97\xb5\xd8\xeb\x1e\x74\xa3\x60\x8d\x7d\x7f\xad\x44\x57\x4c\xcd\x4d\x1c\x9c\x83\xd6\xf1\x9c\x0e\x23\x3f\xc0\xb5\xeb\x5c\x33\xc1\x4b\x45\x41\xa3\xd3\x53\xdd\x25\x86\xe7\x15\x62\x65\x9f\x6a\xc8\xa8\xc1\x87\x52\xf1\x81\x97\xc3\xd8\x4b\x56\x6f\x50\x0c\x67\x74\x02\xe9\x21\xc3\x01\x71\x90\xf1\x19\x17\x20\x52\x34\xeb\xe9\x53\xcc\x59\xa2\x01\xd2\x16\x03\x83\xe5\x26\x3e\xee\xd0\x4a\x90\xd1\xb4\xa3\x97\x84\x1b\xde\x15\xdc\xa8\xb9\xfe\x35\x67\xd9\x93\xa2\x88\x0d\xf0\xe3\x1a\x10\x6d\xc7\xfd\x0c\x4f\xc4\x11\x44\x64\x09\x04\x9e\xc6\xd6\x23\x42\xca\x2c\x3b\x23\x4a\x32\x77\x0c\xd1\x17\x9a\xb6\x60\x65\x8d\x1a\xc6\x4e\x17\x97\xe0\x6e\x98\x34\xe6\x8e\x1c\x41\x3d\x3c\x78\x52\x14\xd5\xfd\x35\x13\x2a\x67\x05\xa6\xdb\x94\x58\x91\xd7\xf8\x2c\x97\x53\x26\xb2\xb7\xa5\xbe\x0d\x74\xd1\xbc\xd9\x52\xec\x8b\xa4\x5f\x82\xbf\xe0\x8e\x49\xc5\x32\xe3\x8e\x51\xed\x37\xab\xc3\x86\xb5\xd7\xb4\x12\x1a\x2d\x66\xba\x0d\xbb\xe9\x61\x2b\x71\xef\xa3\x6c\xae\x61\x48\xe0\x1d\x88\x5f\xb2\x8c\xd4\x81\xde\x21\x02\x0d\x5a\x2e\x9c\xc7\x90\xf3\x9a\x09\xb6\x94\x36\x9e\xf9\x15\x13\x32\x16\x28\x43\xbc\x71\xd1\xbc\xc7\xe0\xff\xc3\x8a\x8b\x75\x33\x5c\xa4\x6f\x5f\x7f\x9b\xfe\x12\x1f\xc6\x76\x82\x37\x24\xf4\x83\x1c\xd3\x74\x7a\x71\xd9\x68\xad\xbe\x1c\x41\x11\x8e\x6e\x7a\x29\xed\xb0\xf4\xdb\xca\x78\xde\x10\x69\x22\xcd\x98\x60\xb3\xa1\xd7\x5f\xf3\x52\x2f\xea\xa4\x89\xe1\x4f\x2b\xdb\xeb\xfe\xda\x8f\xc2\xab\x92\x57\xb3\x1d\x3c\xf8\x87\x5d\x3c\x34\x59\x3f\x06\x11\xb7\xad\x1e\x09\xfe\xa1\xa9\x5d\x53\x54\xa3\x53\xcc\x76\x68\x93\x3a\xec\x89\x98\x7a\x2d\xe6\x50\xd5\xd2\xd8\x47\x69\xc3\x07\x77\xae\x33\xa9\xed\x67\x37\x5c\x30\xc1\x93\x38\xa1\x22\xd9\x83\x60\x9f\xed\xeb\x75\xbe\x87\x8a\x94\xce\x45\x1a\x32\x14\x2f\x76\xcc\x44\xd7\x48\x38\x5b\xf0\x56\xf2\x6b\x34\x30\x68\x2f\xa5\x6f\x3e\xde\x4a\x7e\x55\xae\x96\x2f\x57\xcb\x09\x17\xf2\xa2\x79\x71\xb5\xcc\xd5\xdb\xb2\xae\xea\x15\xc6\xcc\x99\x33\x2b\xdb\xb0\x65\x4f\x1b\xdc\x2c\x3a\xae\x8d\x3c\x8d\x35\xaa\xe9\x0b\x2e\x25\x9b\xf3\x64\x5f\x1f\x83\x55\x83\xef\x47\x64\xad\x9c\x3b\xa9\x3d\x29\x6f\x94\x5f\x54\x75\xad\x88\x92\x9c\x81\xbe\x24\x4b\x7f\xa2\x71\xe7\x14\x1a\xaa\xae\x36\x9e\xb9\xf5\xe8\xb5\xb1\xdb\x57\x4f\x45\xc0\xbb\xb5\xd4\x05\x93\xb0\x60\x99\x99\x3b\x54\x3d\xd5\x35\xbb\x0c\x3b\x2e\x73\x4c\x1b\x37\xfa\xed\x5f\xcb\x55\x0b\x6e\xa0\x18\x47\x4a\xa6\xf6\xd0\x77\x45\x5b\x54\x66\x4c\xc7\xba\xbc\xa3\x45\x87\xa2\x54\x0c\xd7\x65\x65\x80\xb4\x4b\xb4\x7b\x8b\xb3\x7b\x4b\xae\xb7\x23\xc7\xa1\xf4\x6b\xae\xe2\x5b\x14\xf8\xfe\x2a\x6d\x07\xff\xf8\x36\xe9\x83\x81\xf6\x19\xd9\xbd\x2a\x79\x73\xfd\x69\xba\x40\x5b\x96\xea\x37\xac\x90\x15\xb0\x2c\xa3\x3d\xac\xad\x3d\xac\x44\x11\xee\x5f\x3d\xa2\xa1\xe7\x78\x49\x78\x44\x46\xfc\x9a\xa9\x45\x72\x68\xa2\x93\x0a\x36\xcd\xa3\xce\xa1\x11\x89\x92\x8f\x2e\x26\x23\x08\xaa\xaa\xd8\x67\x27\x14\x93\xbd\xd9\x4d\x0e\xb6\xa7\x96\x5c\x02\x8e\x24\xeb\x05\x45\x7e\x87\x5e\x2b\x53\xc4\xb5\x65\xa5\x74\x02\x02\xf3\x0b\xac\xc4\x3b\x56\xdf\x61\xc3\x7c\x6d\x6e\x73\x99\x67\x68\x27\xa7\xd5\x92\x9b\x4b\x06\xcd\x22\x59\x2e\xa7\x78\x47\x7e\x0d\x72\x2d\x15\x5f\x8e\x40\xea\xd6\xee\x22\xbf\xe5\xc5\xda\x2a\x1d\xaa\x11\x44\x8b\x4a\xaa\x0b\xd4\xe8\x88\x0c\x68\x8b\x82\xd8\x2d\x65\xbb\x83\x07\x53\xbb\xa7\x97\x9a\xf3\x19\x7c\x62\x55\xee\x1b\x26\xaf\x05\x9f\xe5\x0f\x6e\xc5\x11\x44\xb8\x2b\x23\x13\xae\x3b\x3c\x2e\xcd\xe3\x8b\xf1\x38\x82\xff\xe5\x38\x81\x5a\x19\xac\x9c\x15\x5c\x89\x22\xbd\x46\xef\xc4\x41\x3b\xba\x69\x0b\x9d\x8b\x55\x48\xb7\x6c\x31\xb2\xec\x89\x38\xa8\xf0\x6a\xae\x23\x44\x2f\x2b\x23\x48\x2f\xff\x6d\xba\xe5\x35\x43\x4c\xb6\x08\x01\xdd\x57\xe2\x76\x04\x26\xa7\x0e\x74\xd2\x63\xe0\x87\xf7\xe5\x84\xf1\x37\xcd\xdb\x1c\x59\x18\x35\x79\x5d\xed\x2e\x1c\x1f\x0b\x05\x9b\x0d\xde\xbe\xed\x06\x3f\x84\x34\xbe\xd5\x29\x42\xeb\x6c\xa0\x41\xcd\xcb\x8c\x3f\xec\xce\xf8\xc2\xce\xd1\x3e\xfe\x6e\x54\x61\x29\xee\x2b\xef\xa3\xb3\xa1\xff\x37\xd8\x33\xaf\xe7\xe6\xad\x57\xeb\xa7\x32\xfe\x60\x5e\x99\x3c\xc8\x60\x5a\xd5\xeb\xb7\xaf\xbf\x8d\x57\x23\xf0\xc7\x7f\xc9\x24\x47\xf3\x81\xf9\x65\x3b\xb4\xf1\x0e\x76\xb1\x6a\xfb\xa5\xed\x24\x32\x71\xa6\xa7\x1f\x60\xa7\xd8\x1f\x74\xeb\xfd\xd6\xb7\x6d\xa4\xd9\xfa\xbb\xf9\xd3\x99\xab\xde\x16\x80\xbd\x72\x87\xf3\x3f\x95\xe4\x87\x32\xed\xe8\xb4\xec\x51\x09\xea\x95\xd8\x4b\xaf\xd7\x82\xa0\x2d\x8f\x95\xe3\x84\x49\x0e\x67\xb8\x87\xdf\xbe\xfe\x76\xa4\xab\x4f\x74\x34\x25\xee\x31\xee\xdf\x12\xfd\x82\x8b\x4b\x38\xc3\x09\xe6\xa7\xae\x34\x50\x78\xe0\xd8\xf9\x08\xdf\x50\x82\xe1\xa9\x7a\xb0\xb5\xd3\x37\xe8\xdf\x4e\x75\x33\xfb\x4a\x50\xaa\x06\xd5\xd1\x6e\x5c\x55\x41\xbd\x2a\x0a\xfd\x9c\xce\x39\x9e\xa1\x87\x21\xa1\x5a\xe1\xd1\x6d\xdd\x57\x3a\x96\x74\x7a\x87\x8e\xbd\xa5\x75\x61\xfd\x00\x14\x7d\x05\x4a\x77\xa4\x00\x2f\x2b\x45\xd7\x6b\x11\x24\xc2\xd2\x96\x62\xc1\xee\x38\xd8\xcf\x66\xec\x77\x49\xf4\x3a\x13\x5d\xce\xa2\x1b\x66\xfa\x86\x0d\x5a\x7e\x8b\x1a\x5e\x56\xa6\x02\x00\xb3\x1d\x4a\xda\xf7\x40\xaa\xd6\x2e\x93\xed\x6a\x7f\xfe\xfd\x37\x2e\xdc\x81\x4b\xb5\xe7\x36\xef\x4c\xbd\xd9\xbb\xfe\x31\x7c\x1e\xf8\x19\x9f\x9e\x41\x54\x92\xdb\x73\x3f\xf2\x08\xef\xf0\x27\xab\x38\x3b\x8f\x07\xd3\xd4\xdd\x34\xaf\x25\xc3\x14\x86\x13\xd4\x2a\xe4\x35\x5a\x94\xa1\xfe\x99\x83\x06\xbb\x9b\x92\xea\x35\x36\x7b\x33\x52\xdd\xf8\x8a\xd2\x51\xc6\x1b\xeb\xa6\xa4\x6c\x96\x86\x96\xb1\xb3\x4d\x7a\xa6\x89\x7d\xba\x29\x29\x7a\x8c\x81\xaf\x71\xf3\xa8\x8c\xe2\xde\xa0\x43\xcd\x74\x3a\xe0\xff\x7c\xf1\x85\x5f\x4f\x1a\xc1\x3d\x15\x4d\x74\xc2\xb3\x16\x1c\x9d\x1c\xa6\xf7\x03\x2b\x35\x2c\xed\x14\x68\x45\x65\x4a\xe1\x07\x10\x70\xff\x18\x2a\xfc\xfd\x47\x09\x6c\x58\x9a\x10\xa6\xc1\xd1\x22\x71\x30\x65\x66\xfb\x47\x7a\x52\x66\xbd\x6c\xdf\x9f\x31\x33\x8b\x9e\x9e\x32\x3b\x25\x03\x76\x89\x43\xd2\xab\x57\x5f\x0d\x26\xc1\x30\x8b\xdd\xe4\xc6\x51\x31\x34\x0b\x00\xf9\xb8\xf6\xb3\x5e\x1d\xf7\xa7\x0f\x16\x26\xd4\x7a\xf2\x69\x0e\x28\x81\x33\xf0\x84\x57\x8b\x80\x4f\x5a\x85\x8f\x57\xbf\xd8\xbb\xc4\x2c\xee\x56\x22\x92\x11\x44\x9e\xce\x5c\xc0\xe7\x9f\x65\x9f\x47\xa3\xd6\x1a\x6e\x6d\x74\x47\x90\xe0\x43\xda\x1c\x9e\x9c\xd7\x1b\x4c\xeb\x0d\x65\xf5\xb6\xe1\xf1\x39\x3d\x59\x27\x8f\x0f\x0b\xc1\x67\x8a\x25\x98\x06\x3d\x6a\x9a\x9a\x83\x76\x5e\xc6\x37\x40\x57\xe5\x89\x06\xc8\x8d\xf4\x1c\x83\x1d\x97\xe0\x9c\x4c\xd5\x11\x2e\xd4\xde\x5c\x90\xcb\x9e\x87\x2e\xda\xa5\x74\x10\xb0\xe3\x13\xe6\xfa\x53\x10\xb8\xf3\xef\x98\xc8\xab\x95\x04\x3c\x4e\xd0\x0b\xc3\x73\x39\x18\x8f\x77\x0f\xdf\x18\xfd\x88\x11\xe8\x84\x99\x29\x7a\xe3\x26\x49\xac\x29\x38\x82\xac\xfd\xb6\x40\x0f\x19\xe8\x31\x73\xa9\x23\xfc\x9e\xd3\x1d\x2b\x50\x16\x51\x44\x99\x49\xf3\x68\xff\x55\xfe\x0e\x33\x68\x35\xa3\xe4\x36\xc3\x29\xf8\x87\x30\xec\x1c\x5f\x83\xa1\x71\x77\xdc\x70\xec\x6d\xb2\x12\x6f\xb4\xcd\xc6\xfb\xee\x6a\x81\x89\x5f\xb6\xe4\x0a\xcb\x36\x78\x29\x5b\x2d\x10\x6d\x1b\xc9\xe9\x26\x2b\x5b\x54\xea\xdc\xf7\x94\x5c\xa7\x87\x5a\xb9\x4e\x5c\xe5\x8d\x79\xee\x92\x9d\x76\xe0\xb6\x7b\xeb\x13\x5d\xc6\x68\xac\xf1\x27\x19\xeb\xae\x06\x09\x78\x8b\x15\xad\x15\x1d\x73\x23\xa0\xaf\x8d\x99\x6b\x9b\xb9\xd2\x8c\x41\xa2\x5e\xb3\x7b\xf2\x11\xb5\x00\x1a\x4a\x9d\xd7\xa8\x83\x1d\x57\xa1\x27\xe6\x62\x42\xac\xcd\x09\xad\x48\x6d\x56\x10\x2e\x3d\x19\x68\x04\xa9\x96\x35\x95\x5b\x09\xa6\x5a\xd6\x6d\xf6\x0c\xe5\xa2\xc1\xf2\xe5\x1c\x8e\x4b\x03\xe7\x33\xad\xe0\x34\xec\x35\xaf\x39\xe6\x0c\xed\xb4\xe7\xf2\x4b\xe6\x59\xc8\x3e\xc8\x5f\x57\xf8\x1a\xe8\xeb\x6c\x16\x30\x11\xf8\x2e\x72\x89\xe6\x5f\xba\xac\x3a\xb5\x59\xbf\x37\x8a\x98\xba\x11\x4f\xd9\x92\x17\xf4\x35\x3d\xb7\x16\x2f\xa4\xfb\xbd\x5b\x72\x1f\x9a\x6f\xab\x1a\x84\x86\x2e\xc3\xef\x41\x65\xe4\x7d\x0b\x2a\xbe\xc3\xcc\x55\x53\xfd\x68\xe9\x14\xd2\x8f\x18\x41\x9b\x6d\xcf\x25\x66\x62\xed\xaf\x37\x8a\x89\xab\x87\x9a\xf2\xe8\xda\xe6\x0f\xe2\xe9\x9b\xf7\x8f\x42\x77\x16\x47\x9f\x65\xd1\x08\xce\x86\x96\x68\x53\xd3\xa0\x5f\x09\x88\x71\x1b\xec\x48\x3a\xe9\x2a\x83\xa5\x43\x2d\xe9\xf6\x5b\xa7\xcb\x64\x70\x65\x47\x7e\xf7\x20\x6b\xce\xb2\x5d\x5f\x62\xc6\xf2\xc2\xb4\x01\xd1\x99\x38\x28\xe4\xa8\x2d\x27\xb2\x97\xd6\xbc\xc4\x6a\x59\x27\xe1\x49\x5c\x35\x10\x12\x8f\x51\x96\xf4\xcd\x66\x7c\xf6\x87\x7f\xfd\x9b\x1f\x7e\xff\xcf\x3f\xfc\xd3\xbf\xfd\xf0\xf7\xbf\xfb\xe3\x3f\xfe\xed\x7f\xfe\xfb\x7f\xfc\xe1\xf7\x7f\xf7\xc3\xbf\xfc\xee\x8f\xbf\xfb\x87\xb3\xb1\x0b\x82\x4d\x36\xe8\xa3\x34\xe1\xc7\x29\x42\x7c\xa4\x06\x74\x28\xfb\x88\x85\x0e\xad\xd3\xc4\xf2\x6e\xf3\x78\x66\xc9\xfd\xa2\x1f\xdb\x6d\xdb\xb2\x55\x58\xd0\x1a\x2a\x71\xed\x9a\x37\x3d\x7c\xd8\xbc\x35\x60\x6b\x77\x9c\x98\x29\xe4\xca\x11\x44\x32\x85\x34\x8c\x36\xb4\x7d\x85\x72\xab\xf0\xd3\x16\xa6\x0f\x87\xe8\xa7\xa1\x1e\x03\x74\xe7\xb7\x05\xa1\x0b\x73\x74\xec\x7a\x21\xe3\x2e\xcb\x69\xfc\x51\xbb\xbc\xaa\x95\xb7\x74\x9b\xed\x6d\xf9\xb6\xb6\x38\x8d\x6f\xed\x71\x7a\xd6\xdd\xe4\x3f\x31\xad\x43\x36\xa3\x97\x10\x3b\xa9\xdf\x62\x9c\x6c\x33\xbe\xe6\xaa\xbb\x44\x9c\x58\xa3\xe1\xd8\xb5\xcf\x70\x9c\x20\x2b\xdf\x76\x74\x44\xf1\x97\xa3\x46\xfd\x6c\xdf\x41\xda\xdf\xb2\x9d\x9f\xad\x5f\xf4\x43\x27\x9d\x1b\x9f\x49\x33\x07\x2e\x81\xf0\x33\xde\x72\xac\xbd\x43\xda\xb7\xa5\xe7\xa6\xea\x54\x6d\x34\xe7\xca\x7c\xe2\xd1\x77\x9b\xd0\xe9\x6e\x7b\x4d\xaa\x7a\xcd\xd5\xc7\x3a\xbe\xc7\x78\x4f\xe7\x07\x6a\xe8\xed\x5a\xfe\xf8\x0c\x5e\x95\xc5\x5a\x7f\x2e\x0a\x11\xd6\xa3\x25\xd5\xf2\xe4\xa2\x5a\x15\x19\x4c\x5c\xa2\x0c\xe7\x62\x79\x05\xef\x65\x6a\xce\x56\x6a\xe1\x37\xc0\x56\xcb\x5c\xa1\xeb\x95\xad\xf4\x87\x6e\x30\x24\xcf\x4b\x2e\x25\x9c\x8d\x69\x45\x4d\x7e\xaf\xe9\x3d\xe0\x4a\x35\x16\xb9\x25\x3f\xda\x2c\xdd\x68\xf7\xc5\xe1\x58\xb7\x09\x76\x07\xcb\xd3\xc3\xf5\xe9\xc1\x02\xb5\xde\x36\x78\x7f\xc4\x65\x3c\x1c\x86\xce\x70\x1c\xfc\xe8\x58\x4f\x5f\xca\x14\x25\x51\x7e\x6e\x5d\x7e\x9d\x9d\xc0\x8c\x12\x7a\x31\xf0\xd9\x5d\x34\x02\xcd\x59\x9b\xfe\x30\x9d\x45\xe0\xf2\x2d\xee\x73\x9e\x31\x36\x40\x4a\x6c\x97\xff\x72\x35\x9b\x71\x11\x23\xae\x7e\x93\x37\xf8\x5d\x12\x14\x7a\x07\xbb\xdf\x38\x3b\xf8\x7d\x14\xf7\xc9\xd3\x63\xcb\x90\x2f\x9f\xdc\xbc\xf9\x98\x3b\x24\xb6\x8f\x0e\xe7\x83\x49\xdd\xba\xdf\x74\x83\x14\x71\x41\x44\xcb\x11\x48\x71\x67\x7e\xbb\x4f\xd8\x51\xb0\xba\xfb\xf5\xbc\x63\x6f\x81\xa2\x20\xa9\x73\x00\xf3\xad\x55\xa9\x8d\xeb\x8a\xbf\x59\x4d\xe4\x54\xe4\x13\x1e\x77\x6e\x6f\x92\x89\xf4\x6e\x71\x61\xb8\xda\x37\x06\x8d\xb2\xb8\xf3\xbf\x0a\xa2\x81\xf0\x17\x72\xae\x49\x4b\x86\x33\x2c\xee\x9b\x75\x6e\xe3\x78\x32\xdd\x6c\x5a\x9f\xc4\x60\xb7\xdc\xe3\xfe\xb1\x9f\x97\xc1\x29\x47\x7c\x5e\xa6\x81\x7c\xf0\xf6\x4c\xeb\xe3\xb8\xa9\xe3\x1f\xdd\x49\x48\x7c\xc1\x0d\x7c\x56\x66\x3f\x04\xe4\xcf\xd0\x88\xd6\x9d\x17\x1c\xe4\x3f\xd0\xd7\x55\xe8\xc3\x28\x03\x37\x6c\xfc\x1b\x6e\x7f\xc6\xef\xd2\x34\x1c\x39\x78\x81\x96\x8c\xa7\x53\xa5\x0b\x68\xf3\x02\xaf\x9f\x38\x76\x9c\xf4\x5d\x1a\x14\xb1\x37\x82\x8e\xad\x11\x5d\xb8\xbf\x2a\x7b\xc7\x78\x55\xc5\x66\x44\xa7\x8b\xe9\xd4\x0f\xd7\x78\xfa\xe1\xdd\x74\x38\xfd\xc3\x35\x1e\x1c\xd7\x12\x7d\x98\xb9\x1e\x79\x00\x70\xd6\xe6\x6e\xc3\xda\x9d\x4f\xd2\xd0\x4a\xdd\x4a\xca\xd0\x3a\x5e\x2e\x1f\x59\xb6\xd9\xb4\xd9\xde\x5f\x53\x5a\xca\x39\xd9\xc1\x17\x72\x3e\x9c\xc2\xdf\xed\x6e\xed\xbb\xfd\x19\x9e\x98\x67\x1e\x4a\x33\x0f\x64\x99\xb7\xae\x7b\xe1\x62\x30\xc9\xbc\x94\xf3\xf4\x99\x3e\x66\xfb\xbb\x47\xfb\x9a\x1d\xec\x9e\x19\xb8\xb2\x4a\x62\xa0\x7c\xb2\x55\x27\x6d\x06\x30\xc5\x7b\x8f\xb9\x5b\x06\xd2\xc9\x51\x5f\x54\xc6\xae\xf7\x5c\x97\x86\x04\xc7\x51\x65\xe5\xaa\x33\xf8\x99\x04\x49\x3d\x5a\x1a\x5a\xa5\x5a\xdf\xc8\x63\xe5\xda\x7c\x7d\x8f\x7a\xdb\x9b\xd5\xba\x6d\xf8\x67\xed\x3e\xfc\x4f\xbd\x46\x7c\xad\x0c\x5d\x73\x75\xe0\x12\x0e\xe2\xbd\xa6\x48\x61\x04\xe5\xd4\x3b\x20\x13\x5c\x14\x75\xe5\xe2\xd2\xbf\x65\xa3\x05\x32\x71\x67\x5c\x2b\x0c\x72\x8b\xdb\xdb\x39\x8f\x96\x72\xbe\x25\x89\x78\x57\x65\xca\x69\x7a\xbd\x9a\x14\xb9\x5c\xc4\x74\xc3\x7b\x92\x34\x3b\x77\xd0\x04\x74\xb3\xeb\xb8\x9c\xcb\xae\x77\x2b\x81\x94\x5a\x47\x6e\x63\xe6\x17\xaa\xc9\x6f\xb0\x83\x88\x92\xe7\x1d\xd1\xad\x53\x78\x81\x32\xc0\x91\xe7\x58\x46\xb6\x1d\x45\xe6\xd3\x8f\x2b\x0c\x40\xb1\x6a\x87\xd0\xf0\x34\x2c\x65\x8e\x35\x63\xba\xaf\x46\x27\xdc\x20\xde\x03\xa5\xdd\x61\xd6\x1f\x6c\xc4\xec\x69\x7c\xc4\x75\x5d\xc7\xe3\x31\x1d\x8e\xf4\xb3\x47\x16\xd8\xe9\x78\x42\xd3\x18\xae\xfc\xf1\x4d\x63\xde\xec\x03\x5f\x20\x41\x71\xff\xb9\xbf\x40\xd2\x60\xb7\xeb\x3f\x0e\x7a\x2b\xc4\x4f\x2e\x4e\xe9\x09\xeb\xff\xfc\xc8\xb1\x7e\xe7\x29\xdf\x1f\xb1\xfd\x49\x7d\xc3\x2f\x77\x1d\x01\x47\x8d\xf6\x03\xbc\x0f\x91\x04\xc1\x11\xce\x6c\xe8\x75\x1f\xb5\xb6\x86\xdf\x72\xf4\x8c\x1f\x72\x0b\x76\x7b\x8d\xba\xad\x46\xad\xd6\x6e\x67\xcb\xad\x96\xf7\x36\x16\xf5\x9e\xaa\x14\x34\x7b\x88\x7c\xf4\xb7\x45\x90\xa0\xa1\xde\x88\xa1\x13\xdd\xb5\x44\x0c\x70\xa3\xd7\x06\x1e\xf7\x6d\x11\x7b\xe4\xff\xc9\xbe\x22\x32\x80\xf2\x11\x5e\x08\xec\x77\x43\xb8\x10\x16\x58\x73\x10\xfb\x9e\x41\xdb\xdd\xf0\x3d\x02\x6f\x6a\xfb\x1c\x7a\xf4\xc8\x07\x6b\x4e\xb7\x3d\x5e\x83\x6d\x37\x38\xdb\x99\xa4\x4f\xae\xbe\xc2\x7c\xef\xb7\x4d\xfe\xd2\xfc\xa5\xbe\xca\xfc\x7e\x87\xa9\xff\xe3\x62\xbe\xae\x93\xdb\xd4\x7f\x94\x53\x91\x78\xcf\x49\xde\xbe\x65\xe6\xfe\x73\x4d\xd4\xa8\x46\xb9\x32\x1d\x77\x0e\x1c\xee\xe8\x0c\x5a\xcb\xff\x42\xce\xbb\x67\xfb\xb9\xc6\xf5\xa7\x39\xe0\x8f\x75\xb3\x0f\x95\xc7\x87\x0f\x74\x3d\xeb\x98\xf3\xdc\x8a\xd5\xdc\x7b\x6a\xce\x77\x67\x8e\x3c\xb8\xd6\x3b\x02\xe6\x3a\x8a\xe8\x06\xca\x63\x68\xfd\x47\xae\xec\x8d\x27\xc1\x6b\xc1\x25\x0a\x57\x97\x1b\xec\x37\x31\x7c\x54\x2d\xa0\x16\x81\xb1\xa9\xfb\xfa\x1b\x7a\x48\xfb\x5f\x1c\xd4\xfd\x3f\xcd\x25\x12\xe2\x53\x83\x96\x73\x67\x89\xa2\xdd\xeb\x23\xdb\x70\xb3\xe1\x65\xb6\xdd\x86\xff\x35\x00\x34\x75\x38\x40\xd2\x6d\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27502, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x6a, 0x2b, 0x52, 0x36, 0x9d, 0xf6, 0x59, 0x21, 0x8d, 0xc6, 0xff, 0xb4, 0x40, 0xcc, 0xde, 0xc4, 0xc4, 0x6d, 0xef, 0xbb, 0x1, 0x1c, 0x19, 0xea, 0x8c, 0x65, 0x7a, 0x3a, 0x0, 0x68, 0xe2, 0xd8}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 28114, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x88, 0x35, 0x9b, 0x96, 0xc8, 0xe9, 0x3f, 0x5e, 0x6f, 0xe, 0x61, 0x7c, 0xe8, 0xc4, 0xf6, 0x23, 0xb1, 0xc3, 0x1b, 0xd5, 0x23, 0xda, 0x39, 0x2e, 0x9, 0x68, 0xb5, 0x71, 0xb9, 0x67, 0x85, 0x89}}
 	return a, nil
 }
 
-- 
2.43.0


From d1a213332d3c3f6e3ac1156611e127705a451f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 40/53] fix: decode repeated enums of the query like other
 repeated numbers

---
 gengokit/httptransport/httptransport.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 0d14e30..4ead6ac 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -397,8 +397,10 @@ func createDecodeConvertFunc(f Field) (string, bool) {
 		needsErrorCheck = false
 	}
 
-	if f.IsEnum && !f.Repeated {
+	if f.IsEnum {
 		fType = "%s, err := strconv.ParseInt(%s, 10, 32)"
+	}
+	if f.IsEnum && !f.Repeated {
 		return fmt.Sprintf(fType, f.LocalName, f.LocalName+"Str"), true
 	}
 
@@ -442,9 +444,12 @@ if err != nil {
 		case "uint32", "int32", "float32":
 			convertedVar = repeatedFieldType + "(converted)"
 		}
+		if f.IsEnum {
+			convertedVar = repeatedFieldType + "(converted)"
+		}
 		repeatedUnmarshalTmpl := `
 var {{.LocalName}} []{{if .StarExpr -}}*{{- end -}}{{.GoType}}
-{{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
+{{- if and (or .IsBaseType .IsEnum) (not (Contains .GoType "[]byte"))}}
 if len({{.LocalName}}StrArr) > 1 {
 	{{- if (and .Repeated (eq .GoType "string"))}}
 	{{.LocalName}} = {{.LocalName}}StrArr
@@ -459,7 +464,7 @@ if len({{.LocalName}}StrArr) > 1 {
 {{- end}}
 	{{- if (and .Repeated (eq .GoType "string"))}}
 		{{.LocalName}} = strings.Split({{.LocalName}}Str, ",")
-	{{- else if and (and .IsBaseType .Repeated) (not (Contains .GoType "[]byte"))}}
+	{{- else if and (and (or .IsBaseType .IsEnum) .Repeated) (not (Contains .GoType "[]byte"))}}
 	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
 	if err != nil {
 		{{.LocalName}}Str = "[" + {{.LocalName}}Str + "]"
@@ -468,7 +473,7 @@ if len({{.LocalName}}StrArr) > 1 {
 	{{- else}}
 	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
 	{{- end}}
-{{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
+{{- if and (or .IsBaseType .IsEnum) (not (Contains .GoType "[]byte"))}}
 }
 {{- end}}`
 
-- 
2.43.0


From c762dbdec4588192da3b2512cf1de1cdd2a8f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 41/53] fix: address path parameters by the Go name of their
 field

---
 gengokit/httptransport/httptransport.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 4ead6ac..24754b9 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -258,7 +258,11 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 func (b *Binding) PathSections() []string {
 	isEnum := make(map[string]struct{})
 	isOptional := make(map[string]struct{})
+	// The Go name of a field is not always the CamelCase of its name: the
+	// field "string" is "String_", apart from the method of the message.
+	goNames := make(map[string]string)
 	for _, v := range b.Fields {
+		goNames[v.QueryParamName] = v.CamelName
 		if v.IsEnum {
 			isEnum[v.CamelName] = struct{}{}
 		}
@@ -271,13 +275,16 @@ func (b *Binding) PathSections() []string {
 	parts := strings.Split(b.PathTemplate, "/")
 	for _, part := range parts {
 		if len(part) > 2 && part[0] == '{' && part[len(part)-1] == '}' {
-			name := RemoveBraces(part)
-			value := "req." + pkg.GoCamelCase(name)
-			if _, ok := isOptional[pkg.GoCamelCase(name)]; ok {
+			name, ok := goNames[RemoveBraces(part)]
+			if !ok {
+				name = pkg.GoCamelCase(RemoveBraces(part))
+			}
+			value := "req." + name
+			if _, ok := isOptional[name]; ok {
 				// the value, not the pointer
-				value = "req.Get" + pkg.GoCamelCase(name) + "()"
+				value = "req.Get" + name + "()"
 			}
-			if _, ok := isEnum[pkg.GoCamelCase(name)]; ok {
+			if _, ok := isEnum[name]; ok {
 				convert := fmt.Sprintf("fmt.Sprintf(\"%%d\", %v)", value)
 				rv = append(rv, convert)
 				continue
-- 
2.43.0


From 6cf728411ab2d9bb4c61c4223959d9cc80194abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 42/53] fix: keep apart the constructor and the handler of an
 rpc named NewService

---
 gengokit/service/services.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index abf5db0..1309502 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -167,7 +167,8 @@ func (m methodMap) pruneDecls(decls []ast.Decl, svcName string) []ast.Decl {
 		case *ast.FuncDecl:
 			name := x.Name.Name
 			// Special case NewService and ignore unexported
-			if name == ignoredFunc || !ast.IsExported(name) {
+			// A method of that name is the handler of an rpc.
+			if name == ignoredFunc && x.Recv == nil || !ast.IsExported(name) {
 				log.WithField("Func", name).
 					Debug("Ignoring")
 				newDecls = append(newDecls, x)
-- 
2.43.0


From 2d6c4bcb3a914dd9550ffa12c0ee299116cc4ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 43/53] fix: replace generated files as a whole

A failed or interrupted write left a file of the user cut off, also one that
baron had nothing to change in.
---
 gengokit/generator/gen.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/gengokit/generator/gen.go b/gengokit/generator/gen.go
index e208fa0..0d523dc 100644
--- a/gengokit/generator/gen.go
+++ b/gengokit/generator/gen.go
@@ -3,6 +3,7 @@ package generator
 
 import (
 	"bytes"
+	"fmt"
 	"go/format"
 	"io"
 	"io/ioutil"
@@ -216,23 +217,49 @@ func formatCode(code []byte) []byte {
 	return formatted
 }
 
-// WriteGenFile writes a file at path to the filesystem
+// WriteGenFile writes a file at path to the filesystem. The file is replaced as
+// a whole, so that a write that fails or is interrupted leaves it as it was.
 func WriteGenFile(file io.Reader, path string) error {
 	err := os.MkdirAll(filepath.Dir(path), 0777)
 	if err != nil {
 		return err
 	}
 
-	outFile, err := os.Create(path)
-	if err != nil {
+	// a link stays, the file it leads to is replaced
+	if target, err := filepath.EvalSymlinks(path); err == nil {
+		path = target
+	}
+	mode := os.FileMode(0)
+	prev, err := os.OpenFile(path, os.O_WRONLY, 0)
+	if err == nil {
+		if info, err := prev.Stat(); err == nil {
+			mode = info.Mode()
+		}
+		prev.Close()
+	} else if !os.IsNotExist(err) {
 		return errors.Wrapf(err, "cannot create file %v", path)
 	}
 
+	temp := fmt.Sprintf("%s.%d.tmp", path, os.Getpid())
+	outFile, err := os.Create(temp)
+	if err != nil {
+		return errors.Wrapf(err, "cannot create file %v", temp)
+	}
 	_, err = io.Copy(outFile, file)
+	if err == nil && mode != 0 {
+		err = outFile.Chmod(mode)
+	}
+	if cerr := outFile.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(temp, path)
+	}
 	if err != nil {
+		os.Remove(temp)
 		return errors.Wrapf(err, "cannot write to %v", path)
 	}
-	return outFile.Close()
+	return nil
 }
 
 // responseInfo 输出代码生成信息
-- 
2.43.0


From c30d4e7c6cdcc0162d43a7958e9cd797fd141f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:34 +0000
Subject: [PATCH 44/53] fix: import the service by its package path if svcout
 is empty

---
 cmd/baron/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 20c54e1..472ccd2 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -224,7 +224,10 @@ func parseInput() (*config.Config, error) {
 
 	// svcPath := filepath.Join(filepath.Dir(cfg.DefPaths[0]), svcDirName)
 	// svcOut 服务输出目录不与 proto 关联,默认当前目录
-	svcPath := filepath.Join(".", svcDirName)
+	svcPath, err := filepath.Abs(svcDirName)
+	if err != nil {
+		return nil, errors.Wrap(err, "cannot get working directory of baron")
+	}
 
 	if *svcOutFlag != "" {
 		svcOut := *svcOutFlag
-- 
2.43.0


From 39ea749ee84127b976f4ff6d7ea71397a3987333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 45/53] fix: name the packages as the modules that contain them
 do, wherever baron runs

---
 cmd/baron/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 472ccd2..2216cff 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -187,7 +187,7 @@ func parseInput() (*config.Config, error) {
 	log.WithField("DefPaths", cfg.DefPaths).Debug()
 
 	protoDir := filepath.Dir(cfg.DefPaths[0])
-	p, err := packages.Load(nil, protoDir) // 获取导入包
+	p, err := packages.Load(&packages.Config{Dir: protoDir}, protoDir) // 获取导入包
 	if err != nil || len(p) == 0 {
 		return nil, errors.Wrap(err, "proto files not found in importable go package")
 	}
@@ -257,7 +257,7 @@ func parseInput() (*config.Config, error) {
 		return nil, errors.Wrapf(err, "cannot create svcPath directory: %s", svcPath)
 	}
 
-	p, err = packages.Load(nil, svcPath)
+	p, err = packages.Load(&packages.Config{Dir: svcPath}, svcPath)
 	if err != nil || len(p) == 0 {
 		return nil, errors.Wrap(err, "generated service not found in importable go package")
 	}
-- 
2.43.0


From 303edbd5a1a475cc0258c85e21c40ed5cbbb68e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 46/53] fix: do not read the service that a definition had
 before

---
 cmd/baron/main.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 2216cff..ef54b49 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/build"
 	"io"
+	"io/ioutil"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -301,14 +302,25 @@ func parseServiceDefinition(cfg *config.Config) (*svcdef.Svcdef, error) {
 		}
 	}
 
+	// cfg.PBPath may hold the {NAME}_grpc.pb.go of a service which the
+	// definition had before, so the files are generated apart to be read
+	pbgoDir, err := ioutil.TempDir("", "baron")
+	if err != nil {
+		return nil, errors.Wrap(err, "cannot create temporary directory for .pb.go files")
+	}
+	defer os.RemoveAll(pbgoDir)
+	if err := execprotoc.GeneratePBDotGo(protoDefPaths, cfg.GoPath, pbgoDir); err != nil {
+		return nil, errors.Wrap(err, "cannot create .pb.go files")
+	}
+
 	// Get path names of .pb.go|grpc.pb.go files
 	pbgoPaths := []string{}
 	for _, p := range protoDefPaths {
-		pbgoPaths = append(pbgoPaths, parsesvcname.GetPBFileName(p, cfg.PBPath)) // pb.go
+		pbgoPaths = append(pbgoPaths, parsesvcname.GetPBFileName(p, pbgoDir)) // pb.go
 		// 如果是多个proto文件,有些可能没有定义service,没有生成 {NAME}_grpc.pb.go, 跳过
-		grpcGoFileName := parsesvcname.GetGRPCPBFileName(p, cfg.PBPath)
+		grpcGoFileName := parsesvcname.GetGRPCPBFileName(p, pbgoDir)
 		if !pkg.FileExists(grpcGoFileName) {
-			log.Warnf("!! %s is not generated", grpcGoFileName)
+			log.Warnf("!! %s is not generated", parsesvcname.GetGRPCPBFileName(p, cfg.PBPath))
 			continue
 		}
 		pbgoPaths = append(pbgoPaths, grpcGoFileName) // grpc.pb.go
-- 
2.43.0


From c6262710353e944a5381c12731c22b36923c68a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:53 +0000
Subject: [PATCH 47/53] fix: name the packages of modules in a workspace

---
 cmd/baron/main.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index ef54b49..d2df12e 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -188,7 +188,7 @@ func parseInput() (*config.Config, error) {
 	log.WithField("DefPaths", cfg.DefPaths).Debug()
 
 	protoDir := filepath.Dir(cfg.DefPaths[0])
-	p, err := packages.Load(&packages.Config{Dir: protoDir}, protoDir) // 获取导入包
+	p, err := loadPackage(protoDir) // 获取导入包
 	if err != nil || len(p) == 0 {
 		return nil, errors.Wrap(err, "proto files not found in importable go package")
 	}
@@ -258,7 +258,7 @@ func parseInput() (*config.Config, error) {
 		return nil, errors.Wrapf(err, "cannot create svcPath directory: %s", svcPath)
 	}
 
-	p, err = packages.Load(&packages.Config{Dir: svcPath}, svcPath)
+	p, err = loadPackage(svcPath)
 	if err != nil || len(p) == 0 {
 		return nil, errors.Wrap(err, "generated service not found in importable go package")
 	}
@@ -281,6 +281,13 @@ func parseInput() (*config.Config, error) {
 	return &cfg, nil
 }
 
+// loadPackage loads the package of dir, which the module containing dir names.
+// A directory without Go files has no name in a workspace, unless it is in its
+// first module.
+func loadPackage(dir string) ([]*packages.Package, error) {
+	return packages.Load(&packages.Config{Dir: dir, Env: append(os.Environ(), "GOWORK=off")}, dir)
+}
+
 // parseSVCOut 解析服务输出目录
 // 如果是相对路径转化为绝对路径
 // 否则使用 GOPATH + svcOut 路径
-- 
2.43.0


From 53f84c59ea80f70ed727b70cd873e3057190b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:09 +0000
Subject: [PATCH 48/53] fix: take only an address with a scheme as one, in the
 HTTP client

The generated NewHTTPClient took every instance that begins with "http" for
a URL, also "httpbin:8080" and "http-gateway:80", which are host names.
---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 2 +-
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 60967a6..2cd7234 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -504,7 +504,7 @@ func HTTPHeadersToContext(ctx context.Context, r *http.Request) context.Context
 // instance. We expect instance to come from a service discovery system, so
 // likely of the form "host:port".
 func NewHTTPClient(instance string, options ...httptransport.ClientOption) ({{.Service.Name}}Server, error) {
-	if !strings.HasPrefix(instance, "http") {
+	if !strings.Contains(instance, "://") {
 		instance = "http://" + instance
 	}
 	u, err := url.Parse(instance)
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 6ddff1f..61619eb 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (28.114kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (28.112kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (3.019kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5d\x8f\xe4\xc6\x75\xe8\x33\xf9\x2b\x8e\x08\x69\x45\xce\xed\x61\xeb\x5e\xe0\x5e\xf8\xce\x62\x02\xac\x76\x47\xd2\xda\xda\xdd\xf1\xee\xac\xf5\xb0\x58\xc8\xd5\xcd\xea\x6e\x7a\xd8\x24\xb7\xaa\x7a\x66\xda\x9d\x7e\xc9\x8b\x03\x24\x40\x80\x3c\xe5\x21\x30\xf2\x94\xd7\x20\xcf\xf9\x3d\x56\xe0\x7f\x11\x9c\xaa\x53\xc5\x22\x9b\xec\x8f\x95\x6c\x38\x40\x84\xc4\x9a\x26\xab\x4e\x9d\xaf\x3a\x75\xbe\x8a\x1a\x8f\xe1\x69\x95\x71\x98\xf3\x92\x0b\xa6\x78\x06\x93\x35\x4c\x98\xa8\xca\x14\x9e\xbd\x82\x97\xaf\x6e\xe0\xea\xd9\xf3\x9b\x34\x1c\x8f\xe1\x35\x17\xab\xb2\xcc\xcb\xb9\x19\x00\xf7\x79\x51\x40\x75\xc7\xc5\xbd\xc8\x15\x07\xb5\xc8\x25\xcc\xf2\x82\xeb\xc1\xbf\xe2\x42\xe6\x55\x79\x01\x9b\x4d\x4a\x7f\x6f\xb7\xde\x0b\x78\xc6\x14\xf7\xdf\xe2\xef\xed\x36\x0c\x6b\x36\xbd\x65\x73\x8e\x6f\xae\xcd\x9f\x2f\xd9\x52\xbf\x19\x8f\xe1\xc6\xae\x01\xd3\xaa\x54\x2c\x2f\x25\x2c\xb9\x5a\x54\x99\x04\x55\xc1\x92\xdd\x72\xc8\xcb\x2c\xbf\xcb\xb3\x15\x2b\x80\x97\x59\x5d\xe5\xa5\x92\x30\x13\xd5\x12\x24\x17\x77\xf9\x94\xcb\x11\xa2\x21\xf8\x87\x15\x97\x0a\x58\x99\x81\xe0\xb2\xae\x4a\xc9\x41\xad\x6b\xae\x21\xe1\x50\xa4\xa8\x92\xbc\x81\x32\x02\x26\xe1\x9e\x17\x05\xfe\x9b\x97\xd3\x2a\xe3\x42\x22\x00\x84\x97\x71\xfa\x3d\xab\x04\x4d\xd4\xd0\x46\xfa\x01\x43\x4e\xcd\xa0\x5a\x09\x90\xab\xba\xae\x04\x72\x5a\x09\x56\x4a\xfc\x1b\x31\xcb\x59\x91\xff\x96\xa9\xbc\x2a\x11\xda\xac\x12\x4b\xa6\x64\x1a\x86\xf9\x52\x8f\x88\xc3\x20\x9a\xac\x15\x97\x51\x18\x44\x48\x3b\x7f\x50\xf8\xa7\x46\x23\x2f\xe7\xe3\xdf\xc8\xaa\xc4\x07\xb3\xa5\x7e\x9e\x57\xe6\x7f\xc7\x79\xb5\x52\x79\x81\x3f\x4a\xae\xc6\x0b\xa5\x6a\xfb\xf7\x4a\xe8\xc7\x52\x89\x69\x55\xde\xd1\x9f\x79\x39\x97\x51\x18\x06\xd1\x3c\x57\x8b\xd5\x24\x9d\x56\xcb\xf1\xbc\x3a\xbf\xcd\xd5\x18\xff\xdf\xf2\x22\x0a\x03\x56\xae\xeb\x09\x44\xf3\xaa\x9a\x17\x3c\x9d\x57\x05\x2b\xe7\x69\x25\xe6\xe3\x5a\x54\xaa\x9a\xac\x66\x63\x4d\xff\xf8\xb6\xac\xee\xcb\xb1\x1e\x1d\x85\x41\xb6\x12\x9a\xc8\x13\xa6\x36\x53\xa2\x30\xe0\xcb\x5a\x9d\xb2\x2e\x8d\x8f\xc2\x60\x96\xf3\x22\x5b\x32\x79\x7b\xc2\x6c\x6f\x4e\x14\x06\x52\x89\xd5\x54\x9d\x30\xdd\x4e\x88\xc2\x40\xe5\x4b\x2e\x15\x5b\xd6\x27\x4c\xf7\xe6\x44\x61\x70\x2f\x58\x5d\x73\x21\x4f\x00\xd0\x4c\xd9\x15\xa9\xc8\x8b\x82\x8d\x97\xab\x87\xa8\xfd\xa6\xbe\x9d\x8f\xb9\x10\x95\xd0\x9a\xb6\x67\x21\xa7\x79\xfa\x89\x55\xbf\x3d\x13\xf4\x1f\x88\xc8\x66\x73\x0e\xf9\x0c\xf8\x07\x48\x9f\x56\xe5\x2c\x9f\xa7\x37\x6e\x27\x44\xac\x28\x22\x88\x4a\xa6\x64\x04\xdb\x6d\x1b\x37\x7c\x7a\x9e\x57\xfa\xdf\xe9\x1c\x35\x1c\x41\xf1\x32\xdb\x6e\x8f\x82\x3a\x17\xf5\xd4\x42\xdd\xc1\x53\xbf\x1c\x7c\x33\x5e\x72\xc5\x32\xa6\x58\x77\xd1\xa3\x97\x44\xf8\xcd\x8e\x1f\xd8\x5f\x6e\x80\x45\xc7\x5b\x0b\xf7\xee\x09\x00\x70\x78\x74\x14\x5b\x1a\x66\xe3\x5f\x27\x2c\x81\xc3\x5b\x38\x26\x61\x18\xde\x31\x01\x71\x18\x7c\x0f\x97\x30\x5b\xaa\xf4\x4d\x2d\xf2\x52\x99\xdf\xda\x80\xa5\x4f\xab\x65\xcd\x04\x37\x8f\xc8\xfa\xa4\x4f\x54\x95\x9b\x27\x2d\x32\xd3\x97\xfc\xfe\x0d\x17\x77\x5c\x98\x97\xc6\x9a\xa5\x2f\xab\xfa\x69\x51\xc9\xe6\x69\xfa\xb4\xaa\xd7\xe6\x87\x51\xde\xf4\x3b\xc1\xea\x30\x18\x8f\x81\xe4\x69\xd5\xd0\xd8\x78\x1c\xaa\x4d\x52\xfa\xa4\xd4\xf3\x1a\x23\x93\x3e\xa3\x3f\xf1\x31\x99\x8f\xf4\x0a\xff\x8d\x0f\xec\x96\x4e\xdf\xe8\x3f\xf0\x91\xb7\x4d\xd3\x1b\xfb\x37\xbe\x68\xb6\x1f\x8e\xce\xcb\xf9\xaf\x58\xb1\xd2\x74\x7b\x76\x25\xfd\x0a\xff\x7e\xc1\xe4\x6d\x98\x84\xe1\xf8\xec\xa8\x7f\xe0\xca\x9e\x49\x60\x1f\x1d\xfe\x67\xac\x4f\xd0\xe7\x25\x30\x3c\x6f\xee\xb8\x18\x41\xae\x3e\x97\xb0\x92\x7c\xb6\x2a\xf4\x31\x35\x5b\x95\x53\xe4\x82\x04\xb5\x60\x0a\x4a\x8e\xa7\x54\x05\x55\xad\x7d\x03\xa8\x70\x6e\xcd\xc5\xb9\x3d\x06\x10\xe0\x84\xc9\x5c\xa6\xf0\x55\x25\x80\x3f\xb0\x65\x5d\xf0\x11\xac\xab\x15\x2c\xf3\xf9\x42\x41\xcd\x24\x1e\x91\x1e\xc2\xaa\x02\xe6\x16\x32\xeb\xd4\xa2\xca\x56\x53\x2e\x11\x1c\x2b\xb5\x06\xa4\xdf\xb0\x32\x2b\x10\xc7\xfb\x5c\x2d\x80\xb3\xe9\x82\x4e\x7a\x88\xed\xea\x09\xdc\xe7\x82\x67\xb0\xaa\x11\x49\x06\xb2\xe6\xd3\x7c\x96\x4f\xa1\x66\x6a\x91\x42\xfc\x5c\x21\xc0\x5c\x42\x2d\xaa\x09\x9b\x14\x6b\x60\xb0\xcc\xa5\x32\x5e\x02\x64\x5c\xe6\xf3\x12\xa7\xe6\xe5\x5d\x75\x8b\xc7\x3d\x07\x54\xb6\x7c\xca\x9d\x57\xa1\x51\xe4\x08\xa7\xa1\xc0\xe8\x00\xe4\x0d\x27\xd3\x24\x1c\x8f\x1d\x77\xa7\x45\xce\x4b\xd5\xe6\xae\xaa\x60\x5a\x15\x05\x9f\x2a\xcf\x41\x29\xd6\x30\xad\x4a\x03\x8e\x67\x9e\xbb\x92\x97\x48\x10\x02\x94\x79\x39\x2f\x8c\x63\x62\x78\x95\x23\x87\x97\x1c\xf1\xf0\xf1\xcd\x4b\xc5\xc5\x8c\x4d\xf9\x90\x24\x10\x98\x5b\xac\xdf\x49\x5a\xe1\x62\x8d\x57\xa2\x9d\x05\xdc\x80\x4f\x89\x9e\x69\xb5\x9c\xe4\xa5\xe6\xd3\x92\x50\xf4\x04\x3b\x22\x57\x4a\xad\x44\x09\xb9\x42\xbe\x22\x82\x53\x56\x14\x5c\xa0\xc7\xc4\x2c\xb2\x69\xa8\xc9\xd9\x61\xe8\x26\x0c\xde\x96\x8e\x3e\x9e\x6d\x36\xa9\x9d\x61\x5c\x40\xb2\x04\x9b\x8d\x60\xe5\x9c\xc3\xa7\x39\x5c\x5c\x82\x1b\xf3\xc2\x88\x0c\xed\xd8\x66\xf3\x69\x4e\x73\xec\x2a\x00\xe0\x48\x4d\xed\xc3\x70\xb3\x31\xc6\xd5\x78\x97\xf6\xb1\x3c\xbc\x04\x2a\x30\xc4\x1e\x11\x09\x78\x8b\xc6\x53\xf5\x00\xe4\xa5\xe1\xd1\x80\xff\x1e\xa1\xc2\x9c\x6d\x36\x5f\x57\x88\x18\x7c\x9a\xa7\xaf\x8d\x0b\x7a\xb3\xae\x2d\x81\x09\xc4\x9d\x11\xc6\x31\xf5\x86\x8c\x8c\x81\x4b\x60\x13\x06\xd6\x6f\xd5\xcf\x10\x51\x9e\xf6\x50\x8e\xc8\xe0\xe2\x49\x18\xe0\x61\x25\x04\x7c\x72\x09\x65\x5e\x20\x84\x80\xe4\x55\xe6\x85\x06\x12\x06\xdb\xd0\x3e\xb3\xd0\xd3\x83\x38\x25\x23\x84\x17\x6e\x1d\x3b\x91\x99\x2f\xd8\xad\xc7\x9e\x70\xb3\xd1\x1b\xf9\x53\xc5\x11\xd1\x74\x8b\x83\xcf\xc1\xe7\xf2\xa7\x8a\x0f\x31\x1a\x61\xf5\x51\x26\x91\xe9\x8a\xf7\xaa\x49\xb2\x2b\x6e\xd8\x38\xe2\x50\x7e\xfd\x52\xb2\x81\x81\xdb\x51\x9b\x6d\x02\xb1\x65\x86\xff\x58\x73\xcc\x13\x47\x20\xf8\x07\x24\x84\x20\xa4\xf1\x21\x69\x87\x41\x70\xe7\x64\x27\x7d\xd9\x21\x6a\x1a\x95\x24\x0c\x7a\xa4\xb6\x2b\x36\x94\x9b\x7d\x7a\x67\xc4\x11\xa0\x5a\x37\x67\xb3\x2f\x1b\x3c\x1c\x9f\x14\xc5\xd5\xc3\x94\xd7\x4a\x9f\x53\xd2\x98\x58\xc7\x29\x7d\x42\x61\xc8\x42\x7b\xd3\xbe\x90\xa0\xc5\xc8\x10\x8a\xe7\x13\x38\x56\xbf\xc8\xb3\xac\xe0\xf7\x4c\x98\x28\xf0\xad\xb4\x71\x21\x06\x41\x75\x5d\xac\xd1\xc4\xa0\xd9\x54\x08\x7c\xe9\x46\xeb\xa8\x8b\xdf\x71\xb1\x76\x62\xc3\xfd\x82\x16\x84\xc2\x36\x0d\xef\x55\x8d\xa7\x06\x2b\x8a\xf5\xc8\x8d\x93\x30\x65\x25\x4c\xb8\x3e\x6b\x78\x86\xd3\x26\x6b\x28\x91\xed\xaa\xc2\xe7\xfc\x61\x5a\xac\x32\x9e\x99\x28\x70\xc2\x11\x05\xa4\xb9\xe6\x59\xba\xc3\x8d\xb8\xc1\x69\x04\xd1\x1b\xc5\xd4\x4a\x46\x23\x88\xae\xf3\x72\x1e\x25\x6e\xdf\x9f\x39\x86\x24\x83\xf3\x1d\x86\x1e\x57\x46\x0d\x36\x69\x9a\x4a\xed\x16\x68\xe5\xc9\x4b\x7a\x7c\x71\x09\x4b\x56\xbf\x33\xaf\xde\x1b\xf6\x6f\xb6\xa8\x5e\xdd\x0d\xd3\xb3\x5b\x82\x20\x88\x3c\x35\x8a\x2e\x60\xb3\x1d\x85\x81\xef\x46\x6e\xc3\x30\xc0\xb3\xfe\x7b\x44\x05\xc1\x18\x90\x0e\x2d\x5c\x29\x9f\xc1\xf7\x23\xa8\x6e\xf1\xb5\x45\xec\x1d\x7f\x78\xff\x18\x3e\xa9\x6e\x11\xdb\x20\xa8\x59\x99\x4f\xe3\xc6\xc3\x9b\xc5\xd1\x95\x05\x61\xe9\x86\xcf\x3f\x93\x9f\x43\x56\x71\x09\x65\xa5\x80\x3f\xe4\x52\x3d\x06\xc9\xb9\x2f\x78\x17\x53\x6a\x97\x1e\x91\x4a\x12\xd2\xe7\x8c\x17\x5c\xf1\xd8\x62\xa0\xdf\x19\x02\x8e\x62\x45\x2f\x15\x2d\xf6\xbc\x7f\x0c\x96\x9e\x5e\xd3\x09\x97\x1e\xa6\x71\xef\x10\xc2\xb5\x61\xb0\xd9\x61\xdf\xb2\x09\x2f\x78\xd6\x08\xde\x64\x4b\xe6\x5c\x59\x35\x45\xd5\x76\x8c\xd2\xda\x7a\xbf\xe0\xa5\x7b\x5b\x79\x9a\x49\xc0\x8c\x82\x8d\xcc\x86\x22\x9d\x5f\x99\xc1\x60\x52\x30\xcc\xe4\x71\xf2\x29\xfa\x2f\x22\x9f\x6a\x8f\xaa\xa1\x00\xee\x17\xf9\x74\xa1\xb7\x8b\xe4\x65\x1f\x0a\x74\x68\xd3\x6c\xeb\xb2\x54\x82\x8e\xec\x5d\xaa\x70\x3f\xc4\x46\x57\x47\xbb\x06\xb7\xc7\x06\x87\x43\x74\x7d\xb4\x19\xda\x41\x6a\x44\x74\x6a\x8e\x0b\x3e\xe5\xf9\x1d\x5a\x21\x6e\x48\xac\x66\x2d\xba\x53\x78\xc3\xb9\x03\xe3\x41\xd1\x2f\xac\xcf\x49\x08\x5f\x3d\x20\xa2\xb8\x7b\x32\xae\x58\x5e\x48\x74\x89\xed\xce\x41\x20\xd6\xaf\x65\x45\xae\xd6\xe9\x3e\x6b\xd1\xa2\x3d\x5e\xfe\x08\x8e\xfe\x8f\x49\xf9\xef\x6b\x52\x5a\x53\x47\x70\xac\x85\x39\x3e\xed\x70\x6c\x40\xf9\xf5\xeb\xeb\xa7\x48\x30\x17\x27\x47\x94\xe8\x9c\x79\xd3\x31\x09\x2b\x9b\x23\xde\x89\x02\xd8\x1d\xcb\x0b\x36\x29\xb8\x09\x06\xe6\xaf\xaf\x9f\xc2\x80\x8b\x4f\x3b\xa7\x0d\xd9\xc5\x7d\xb2\x31\x03\x23\xa8\xb4\x47\x20\x51\xf5\x5b\x19\x16\xad\xc9\x5c\x18\x87\x21\x19\x5a\x08\xcf\x32\xe9\x0d\x94\x28\xd8\x77\xef\x87\x21\xa1\x60\xfb\xde\x7e\xc9\x67\x95\xe0\x31\x62\xfb\x82\x32\x45\x37\x15\xf9\x94\xc9\x08\xb7\x48\x67\x9d\x4b\x74\x87\x78\x99\xc5\xad\xc7\x8e\x9e\x34\x4d\x13\x9d\xbe\xd8\x6c\xe0\xa6\xfa\xb6\xba\xe7\xa2\xd1\x48\x64\x15\x0a\xd7\x3a\x7c\x8f\x10\x23\x7c\xc9\xc5\x06\xcf\xc6\x83\x6a\x8c\xe3\x3d\x4d\xbb\x80\x36\x49\x2e\xe9\x12\xe3\xee\x77\x6c\xef\x53\x4e\x74\x2e\x82\x67\x3a\xf7\x8d\xb4\x7b\x23\xc8\xdf\xd5\x03\xae\xca\xde\x01\x14\xbd\xe0\x88\x16\x17\xd2\x34\xc5\x69\xc9\xc8\xd7\xfa\xc0\x1e\xad\x0d\xb1\xdd\x60\xd8\xb9\xdb\xfd\xb2\x76\xae\xbb\x39\xcc\x3c\x38\x3f\x79\x00\xda\x61\x30\x40\x87\xc3\x94\xdd\xf0\xdc\x73\x0a\x9a\x28\xed\x80\xd6\xd4\xc3\x4f\x55\x0d\xa9\xc7\x53\x79\x10\x4d\xbd\xc9\x62\x09\x67\xcd\x52\x49\x03\xfe\x40\x34\x8b\xc1\xce\x4f\x1b\xce\x7e\x8f\x11\x4f\xed\x05\x44\x1d\x2e\x6a\x0a\xb4\x16\xf9\xe1\xd1\x89\x31\x6d\xfd\x91\xe1\x2c\x71\xd7\xa8\xfa\x61\xd6\x8e\xc7\xb0\x6f\x57\x40\x8e\x26\xd0\xe9\x83\xce\xf6\xa6\x66\x02\x8d\xf8\x0a\x65\xa3\x33\x3e\x58\x9d\xe1\x42\x49\x93\x10\x22\xb3\x69\x6d\x82\x03\xec\xe2\x56\x4c\xcb\x60\xd6\x49\x9c\x67\xd5\x92\xe5\xe5\xbe\xc1\x29\x5c\x8b\x7c\xc9\x44\x5e\xac\x6d\xa2\xca\xcf\x6a\x19\x2b\xbc\x8f\x8e\xf8\xfb\x5d\xc5\x40\x5a\x5e\xf3\x0f\x8d\x22\xea\x00\xda\xfb\xd5\x4e\x61\xe8\x90\x99\xe6\x1c\x13\x32\x3b\x49\x7e\xd8\x23\xa6\xab\xf2\x68\x31\xed\xb5\x4d\xbd\x72\x32\x33\xec\x90\x21\x41\x1d\x16\x01\x2d\xa1\x05\xb6\x47\xac\x75\xb1\x3e\x4a\x4e\x7b\x09\xe9\x13\x54\x5f\x4e\x63\x9f\xa4\x64\x8d\xa2\xb2\xb3\x8e\xd8\x47\x9e\xb0\x64\xdd\x27\xad\x6f\x78\x81\x09\xf2\xd0\x28\x5a\xef\xe1\xd9\x6f\x7c\x96\x19\xd8\x82\x4c\xfa\xe2\x59\xd2\x1d\x80\xf8\xa2\x09\xbd\x1d\xc1\x5d\xe3\x8f\x2e\x9d\x27\x7a\xd7\x4a\xa6\xe8\xba\x32\x87\x5b\xbe\xd6\xe2\xce\xd0\x65\x9d\x54\x6a\x81\x3c\xb6\xab\x50\x45\x16\xe2\xdb\x84\xa2\x0b\x1c\x5a\x14\x50\xa0\xbc\x08\x0a\xa3\x98\x4a\x27\x4e\x9f\xb2\xb2\x2a\xf3\x29\x2b\xbe\xe1\x2c\xe3\xe2\x17\x7c\x6d\x43\x0f\x5c\x48\x56\x94\xce\x55\x14\xc9\x59\x10\xd3\x29\xb7\x59\x0c\x9e\xab\x05\x17\xb4\x32\xbe\x47\x56\x5c\x3a\x5a\xbf\xcb\xd5\x42\x57\x14\x90\x45\x23\x4d\xeb\xbb\x2f\xde\x27\x07\x07\x0e\x60\x17\xdf\x26\x0d\x04\x72\xea\x49\x7c\x53\xf5\xa0\xcf\x5e\xeb\xf7\xed\xff\x47\xcb\xd1\xe4\x8c\x4f\xf6\x25\x5f\xf2\x7b\x6f\xb6\x59\x5e\xd7\x0f\x28\x09\x04\x13\x36\xbd\x45\xf1\xac\xed\x9e\x31\xc9\x76\xa4\xb5\xe4\xba\x76\x91\xc2\x73\x85\x72\xa4\xb4\x3d\xa9\x6b\x3e\xc9\x31\x24\xb3\x22\xa0\xac\xb4\xaa\x20\xcb\x59\x61\x52\xd7\x05\x53\x5c\xc0\x14\xeb\x4a\x18\x63\x73\x1f\xa6\x51\xd0\x16\x76\x31\xbe\x36\x47\x67\x6a\xf0\x7d\x5a\x95\xe5\x1e\x87\xd4\x0c\xb2\x0e\x69\x3c\xe0\x91\xfa\x5b\x0e\xbd\x83\x6e\xd6\x34\xd8\x0d\xda\xfc\x0c\x68\x63\xda\x82\x3b\x26\x5c\xd8\xe4\x59\x84\xdd\x00\x32\x0c\x70\x1b\xf4\x0d\xbd\xdc\x75\x0c\x89\x78\xad\x65\x48\xaf\x8d\x0f\x3d\x1c\x50\x82\x36\xa4\x69\xc2\xc7\xee\xd3\xab\xf2\x80\xd3\xf8\x8c\x1f\x72\x1a\x0f\xd8\x1f\x93\xfa\x0a\x1a\x8f\x1a\x7f\x26\x8e\xec\x58\x07\x7e\x9a\x9f\xe4\x61\x3a\xd3\x64\xed\x96\x1d\x2a\x0f\xba\xd5\x70\xae\x1d\x6b\x0f\x53\x3b\xf7\xc2\xaf\x3c\x78\xef\x47\xcd\x7a\xc1\xd6\x1a\x47\x34\x8a\x48\x31\xd0\x0e\xf8\xf1\xee\xc6\x9e\x73\xec\x19\x3f\xe6\x1c\xdb\x7f\x32\x1d\xeb\x6e\xd0\x99\x31\x70\x8e\x99\x4d\x4c\xbb\xec\x19\x3f\xf1\x1c\x43\x62\x5e\x6b\x64\x8e\x3c\xc8\x70\xa8\x73\x3a\xf0\x78\x3d\xe9\x28\xab\x8b\x75\xdf\x59\xe6\x8b\xed\xc7\xbb\x1f\xc3\x5e\xe2\x55\x79\x84\x97\x78\x58\x20\x9e\xb3\xb8\x47\xc2\x7b\xbd\xc4\x96\xd4\xf6\xd1\xd1\xef\x7c\x10\x89\xc7\x89\xec\xd4\xc2\xca\x7e\x2f\x91\xb0\xd0\xa7\xa7\xbc\xa9\x7c\xc7\xc3\xec\x94\x3e\xcb\x4d\xeb\xe0\x3e\x31\x8a\xba\x07\x4a\x7c\xcb\xd7\x12\xde\xbd\xb7\xd9\xb8\x03\xf0\x8e\x2a\x4c\x2d\x33\x38\x3b\xe4\xf4\x68\xa3\x5f\xb3\x5c\x34\x8b\x87\x81\xcd\xcd\xdd\x36\xae\x90\x46\x0f\xad\x3e\x16\x97\xee\x6c\x46\x6b\xaa\x1e\x52\xcd\x93\xf8\x36\x49\x29\x07\x99\x34\xf9\xac\xc0\x00\x76\x99\x0b\xfd\xd3\x38\x1e\xe8\x33\x68\x63\x8a\xc6\x13\x61\xea\x77\x2d\x2f\xeb\x6c\x99\x61\xee\xcb\x12\xf0\xf3\x2a\x2f\xe3\xb3\x65\x36\x6a\x1e\x5d\xe3\x9c\x58\xcf\xc4\xf4\x47\x62\xc1\x11\x67\xd0\x0b\xa1\x9a\x96\x91\xe4\xb1\xb9\xad\x6f\x6e\x6e\xae\x29\x2e\xb0\xcf\x0e\xff\x33\x0e\x43\x5d\x2e\x37\x5c\x2e\xb5\x7a\xc1\x25\x44\xac\xae\x8b\x7c\xaa\x1b\x44\x74\xcf\xdd\x63\x98\x2e\x98\x90\x5c\x5d\xae\xd4\xec\xfc\x67\x91\x4b\x89\xe1\xaa\x14\xe6\x53\x55\x1c\x15\x6b\x41\x4f\xf4\x9e\x3d\x9c\x2a\x43\x60\x55\x09\xb5\xe0\x19\x9f\xe5\x25\xcf\x74\x6f\x83\xa4\x3d\xd7\x59\xe6\x60\x82\xac\xdd\x5a\xd3\x4e\x90\xf9\x4d\x17\xd6\xf7\xc8\x67\x90\x6a\xf8\xda\x4d\xf7\xec\x56\x27\x5f\x83\xba\xf3\xee\xfd\x30\x74\x2d\xff\xbe\xd7\x94\x35\x33\x6b\xa0\x1f\x2a\x5b\x49\xb3\xfe\x49\x57\x68\xc9\x8d\xb9\x11\x31\xf7\x7e\x0c\x4f\x79\x32\x53\x5c\xc4\xdd\x37\xea\x69\x23\xda\xd8\x13\x73\xa2\x01\xed\x52\x79\x54\xca\x8e\x32\x3a\x3a\x3d\xb7\x44\xc6\x2c\x57\x0f\xe8\x37\xbd\xae\x56\x88\x43\x12\x7a\x9e\x04\x15\x17\x2e\x2e\x07\xd9\xec\x86\x4e\xb0\x63\xa3\x9c\x23\x40\x9a\x96\x7e\x69\x1e\x51\x8e\x7e\x69\xe7\xc5\xe8\x6e\xd1\x70\xec\xad\x9d\xc0\x5f\xc3\x4d\xf5\x16\x7b\x07\xb7\xdb\x28\x49\xaf\x99\x5a\xb4\xc6\xe0\x83\x1b\xbe\xac\xd1\xff\xd5\x23\xac\x3a\x0d\x74\x62\xe9\xa4\x60\x3b\x2b\x48\x18\xf5\xa4\x06\x29\x37\x88\xe4\x79\x4b\xea\xe2\x87\x3b\x1e\xcc\x40\x23\x51\x1c\xf8\xb5\xa9\x61\xd9\x63\xd8\xbc\xee\x4b\x10\x06\x3a\xad\xdf\xe4\xd0\xfc\x3f\xc9\x68\x2c\xc9\xa9\xf2\x95\xc6\x14\xcb\x74\x84\x60\xdc\x02\x5b\xf6\xb2\x2b\x7e\x87\xef\xc5\x08\xa3\x8c\x8c\xcf\xd8\xaa\x50\x78\xda\x19\x05\xc1\x1d\xa9\xd3\x87\xd5\x0c\xba\xb6\x60\x04\x0c\x26\x55\xa6\x03\x3d\xb4\x0d\xa6\x48\x85\xe1\x5e\xa4\xd7\x89\x5c\x84\x78\x87\x56\x16\x41\xe9\xe7\xa9\xc6\x2e\x4e\x4c\x1c\xc2\x40\xea\xaa\x33\x20\x3f\x10\xd4\xff\xfd\xe2\x8b\x14\x9e\x53\xd9\x0a\x47\xfa\x79\x4f\xb3\x6f\xb8\xd0\x4d\xcd\x38\xa2\x16\xd5\x5d\x8e\x21\xec\x42\xbf\xc1\x82\x7d\x51\x60\x19\x5c\x63\x6b\xaa\x85\x38\xae\xf1\xc9\x7c\xd0\x08\xc5\x83\x8e\x54\xa4\x2f\x98\x90\x0b\xa6\x9b\xb1\x2c\xfe\x4b\xf3\x08\x2b\xe9\x72\x35\x9d\x72\x9e\x49\x13\x33\xfd\xfc\xcd\xab\x97\xd4\x1b\x9d\xd9\x46\x66\x1b\x74\x69\x5a\x1d\x3a\x58\xb9\x1c\x26\xcb\x14\xde\xb1\x35\x5d\x8c\x6c\x28\xe7\x28\x6b\x5e\xb6\xa0\x41\x5e\x4a\xc5\x59\x66\x79\x66\x8c\xa4\x6f\x21\xfa\x1c\x11\xd7\xc3\x31\x82\x7b\xd3\x7a\xd6\x56\x03\xed\x33\xa2\x54\x47\xf0\x3d\x6e\x3f\x9f\x25\xc6\xfc\x60\x71\xb0\xe6\x62\xa3\xa5\x78\x81\xb4\x58\x81\xa2\x27\x92\xcf\x2c\xb7\x90\x81\xe6\xa0\xc5\x21\x71\x9b\xb7\xcd\x39\x9b\xcf\x00\x5f\x7d\xa9\x97\xa4\xa9\x57\x26\x25\xea\x00\xd9\x79\xc8\xee\x38\x79\x6c\x57\xc0\x61\x97\xde\x99\x8b\x68\xc3\xa5\x03\x67\x03\xfb\xe0\x3e\x35\x6a\x13\x27\xe9\x1b\xae\xe2\x88\x0c\xe1\xf9\xcd\xba\xe6\xd1\xc8\x3f\xf2\x0c\x01\x0b\xab\x64\x3e\xfe\x6d\xf3\x60\xf5\xb0\xa1\xc3\x26\x60\x64\xe3\x76\x58\x38\x34\x5a\xc6\x9a\xb9\x81\x8f\xcf\x33\x5e\xc4\xb7\xb8\xad\xad\xd7\xe2\x25\x70\xee\xc8\x67\xf1\xc7\x3f\xc9\xb2\xb8\xe3\x81\xe0\xff\xe9\xbd\x73\x61\xba\x49\x53\xa3\x2f\xcf\xd1\xb7\x2c\x59\xe1\x9d\x22\x9a\x38\x39\xdd\x43\x96\xa7\x87\x0d\x65\x1a\xf8\x25\xc8\x29\x41\xc6\xd7\x14\x4d\xde\xa7\x5a\x6b\x08\x3d\x1c\x98\xb8\x87\x31\x8a\x23\x41\x83\xd4\x28\xa6\x31\x8f\x22\x9e\xac\x66\xf0\xee\x3d\x36\xc8\x26\xb4\x19\x36\xa1\x76\xe6\xee\xc1\xd7\x31\x97\xee\xb6\x8a\xf8\xb6\x24\xd1\x23\x84\x11\x3c\xba\x4f\x1e\x77\xd3\xe1\xc6\x8d\x91\xf9\x6f\x39\x5c\xc2\xcf\xfe\xf7\xff\xff\x7f\x46\xc7\x0a\x5e\xe2\x9c\x04\xfe\xca\xbc\xc3\xa1\x01\xa2\x71\x09\x93\xd5\xec\xdd\x05\x3e\x7c\x4f\xe7\x20\x19\x53\xec\xf6\xd0\x7c\x9b\xc5\x91\x35\x1f\x80\x44\xe9\x46\x8f\x0b\xcc\x64\x61\x51\xb6\x46\x7f\x08\xca\xaa\x3c\x47\xc5\x73\x9e\x3e\x0e\x8c\x46\x08\x9c\x2a\xae\x04\x95\x1a\x76\x5f\xf2\xfb\xf8\xde\x6c\x1c\xcd\x23\x6d\x64\x7d\xda\x6d\x0f\xc0\x26\x0c\xf4\x28\xfc\x8d\x06\xe8\xd7\xb8\xca\x05\x59\xd8\x5f\x93\xbd\x47\xb9\xd3\x28\xa6\x72\x39\xcb\xf1\x5e\xc7\x82\x3b\x73\xa9\x2d\xad\x27\xdc\x26\x0e\x91\x90\xeb\x2b\x18\xf6\x1e\xca\x31\x7d\xd6\xa9\xa9\x28\x79\x8b\x3a\x54\x35\x5a\x78\x77\xc0\x2e\x85\x2b\x85\x81\x35\xce\x00\x7e\x69\xde\xf9\xec\x56\x47\xe2\x45\x03\x34\xf1\x8c\x62\x9c\x40\xbb\x9f\x6d\x91\x36\x2b\x0c\xcc\x6e\xf6\x1c\x3e\xa4\x1d\xd4\x02\x41\x48\x85\xad\x54\x7a\x37\x05\x71\xd0\x69\xf1\xd2\x53\x07\xbc\x16\x97\xb5\xd8\xeb\x1e\x74\xa3\x60\x8d\x7d\x7f\xad\x44\x57\x4c\xcd\x4d\x1c\x9c\x83\xd6\xf1\x9c\x0e\x23\x3f\xc0\xb5\xeb\x5c\x33\xc1\x4b\x45\x41\xa3\xd3\x53\xdd\x25\x86\xe7\x15\x62\x65\x9f\x6a\xc8\xa8\xc1\x87\x52\xf1\x81\x97\xc3\xd8\x4b\x56\x6f\x50\x0c\x67\x74\x02\xe9\x21\xc3\x01\x71\x90\xf1\x19\x17\x20\x52\x34\xeb\xe9\x53\xcc\x59\xa2\x01\xd2\x16\x03\x83\xe5\x26\x3e\xee\xd0\x4a\x90\xd1\xb4\xa3\x97\x84\x1b\xde\x15\xdc\xa8\xb9\xfe\x35\x67\xd9\x93\xa2\x88\x0d\xf0\xe3\x1a\x10\x6d\xc7\xfd\x0c\x4f\xc4\x11\x44\x64\x09\x04\x9e\xc6\xd6\x23\x42\xca\x2c\x3b\x23\x4a\x32\x77\x0c\xd1\x17\x9a\xb6\x60\x65\x8d\x1a\xc6\x4e\x17\x97\xe0\x6e\x98\x34\xe6\x8e\x1c\x41\x3d\x3c\x78\x52\x14\xd5\xfd\x35\x13\x2a\x67\x05\xa6\xdb\x94\x58\x91\xd7\xf8\x2c\x97\x53\x26\xb2\xb7\xa5\xbe\x0d\x74\xd1\xbc\xd9\x52\xec\x8b\xa4\x5f\x82\xbf\xe0\x8e\x49\xc5\x32\xe3\x8e\x51\xed\x37\xab\xc3\x86\xb5\xd7\xb4\x12\x1a\x2d\x66\xba\x0d\xbb\xe9\x61\x2b\x71\xef\xa3\x6c\xae\x61\x48\xe0\x1d\x88\x5f\xb2\x8c\xd4\x81\xde\x21\x02\x0d\x5a\x2e\x9c\xc7\x90\xf3\x9a\x09\xb6\x94\x36\x9e\xf9\x15\x13\x32\x16\x28\x43\xbc\x71\xd1\xbc\xc7\xe0\xff\xc3\x8a\x8b\x75\x33\x5c\xa4\x6f\x5f\x7f\x9b\xfe\x12\x1f\xc6\x76\x82\x37\x24\xf4\x83\x1c\xd3\x74\x7a\x71\xd9\x68\xad\xbe\x1c\x41\x11\x8e\x6e\x7a\x29\xed\xb0\xf4\xdb\xca\x78\xde\x10\x69\x22\xcd\x98\x60\xb3\xa1\xd7\x5f\xf3\x52\x2f\xea\xa4\x89\xe1\x4f\x2b\xdb\xeb\xfe\xda\x8f\xc2\xab\x92\x57\xb3\x1d\x3c\xf8\x87\x5d\x3c\x34\x59\x3f\x06\x11\xb7\xad\x1e\x09\xfe\xa1\xa9\x5d\x53\x54\xa3\x53\xcc\x76\x68\x93\x3a\xec\x89\x98\x7a\x2d\xe6\x50\xd5\xd2\xd8\x47\x69\xc3\x07\x77\xae\x33\xa9\xed\x67\x37\x5c\x30\xc1\x93\x38\xa1\x22\xd9\x83\x60\x9f\xed\xeb\x75\xbe\x87\x8a\x94\xce\x45\x1a\x32\x14\x2f\x76\xcc\x44\xd7\x48\x38\x5b\xf0\x56\xf2\x6b\x34\x30\x68\x2f\xa5\x6f\x3e\xde\x4a\x7e\x55\xae\x96\x2f\x57\xcb\x09\x17\xf2\xa2\x79\x71\xb5\xcc\xd5\xdb\xb2\xae\xea\x15\xc6\xcc\x99\x33\x2b\xdb\xb0\x65\x4f\x1b\xdc\x2c\x3a\xae\x8d\x3c\x8d\x35\xaa\xe9\x0b\x2e\x25\x9b\xf3\x64\x5f\x1f\x83\x55\x83\xef\x47\x64\xad\x9c\x3b\xa9\x3d\x29\x6f\x94\x5f\x54\x75\xad\x88\x92\x9c\x81\xbe\x24\x4b\x7f\xa2\x71\xe7\x14\x1a\xaa\xae\x36\x9e\xb9\xf5\xe8\xb5\xb1\xdb\x57\x4f\x45\xc0\xbb\xb5\xd4\x05\x93\xb0\x60\x99\x99\x3b\x54\x3d\xd5\x35\xbb\x0c\x3b\x2e\x73\x4c\x1b\x37\xfa\xed\x5f\xcb\x55\x0b\x6e\xa0\x18\x47\x4a\xa6\xf6\xd0\x77\x45\x5b\x54\x66\x4c\xc7\xba\xbc\xa3\x45\x87\xa2\x54\x0c\xd7\x65\x65\x80\xb4\x4b\xb4\x7b\x8b\xb3\x7b\x4b\xae\xb7\x23\xc7\xa1\xf4\x6b\xae\xe2\x5b\x14\xf8\xfe\x2a\x6d\x07\xff\xf8\x36\xe9\x83\x81\xf6\x19\xd9\xbd\x2a\x79\x73\xfd\x69\xba\x40\x5b\x96\xea\x37\xac\x90\x15\xb0\x2c\xa3\x3d\xac\xad\x3d\xac\x44\x11\xee\x5f\x3d\xa2\xa1\xe7\x78\x49\x78\x44\x46\xfc\x9a\xa9\x45\x72\x68\xa2\x93\x0a\x36\xcd\xa3\xce\xa1\x11\x89\x92\x8f\x2e\x26\x23\x08\xaa\xaa\xd8\x67\x27\x14\x93\xbd\xd9\x4d\x0e\xb6\xa7\x96\x5c\x02\x8e\x24\xeb\x05\x45\x7e\x87\x5e\x2b\x53\xc4\xb5\x65\xa5\x74\x02\x02\xf3\x0b\xac\xc4\x3b\x56\xdf\x61\xc3\x7c\x6d\x6e\x73\x99\x67\x68\x27\xa7\xd5\x92\x9b\x4b\x06\xcd\x22\x59\x2e\xa7\x78\x47\x7e\x0d\x72\x2d\x15\x5f\x8e\x40\xea\xd6\xee\x22\xbf\xe5\xc5\xda\x2a\x1d\xaa\x11\x44\x8b\x4a\xaa\x0b\xd4\xe8\x88\x0c\x68\x8b\x82\xd8\x2d\x65\xbb\x83\x07\x53\xbb\xa7\x97\x9a\xf3\x19\x7c\x62\x55\xee\x1b\x26\xaf\x05\x9f\xe5\x0f\x6e\xc5\x11\x44\xb8\x2b\x23\x13\xae\x3b\x3c\x2e\xcd\xe3\x8b\xf1\x38\x82\xff\xe5\x38\x81\x5a\x19\xac\x9c\x15\x5c\x89\x22\xbd\x46\xef\xc4\x41\x3b\xba\x69\x0b\x9d\x8b\x55\x48\xb7\x6c\x31\xb2\xec\x89\x38\xa8\xf0\x6a\xae\x23\x44\x2f\x2b\x23\x48\x2f\xff\x6d\xba\xe5\x35\x43\x4c\xb6\x08\x01\xdd\x57\xe2\x76\x04\x26\xa7\x0e\x74\xd2\x63\xe0\x87\xf7\xe5\x84\xf1\x37\xcd\xdb\x1c\x59\x18\x35\x79\x5d\xed\x2e\x1c\x1f\x0b\x05\x9b\x0d\xde\xbe\xed\x06\x3f\x84\x34\xbe\xd5\x29\x42\xeb\x6c\xa0\x41\xcd\xcb\x8c\x3f\xec\xce\xf8\xc2\xce\xd1\x3e\xfe\x6e\x54\x61\x29\xee\x2b\xef\xa3\xb3\xa1\xff\x37\xd8\x33\xaf\xe7\xe6\xad\x57\xeb\xa7\x32\xfe\x60\x5e\x99\x3c\xc8\x60\x5a\xd5\xeb\xb7\xaf\xbf\x8d\x57\x23\xf0\xc7\x7f\xc9\x24\x47\xf3\x81\xf9\x65\x3b\xb4\xf1\x0e\x76\xb1\x6a\xfb\xa5\xed\x24\x32\x71\xa6\xa7\x1f\x60\xa7\xd8\x1f\x74\xeb\xfd\xd6\xb7\x6d\xa4\xd9\xfa\xbb\xf9\xd3\x99\xab\xde\x16\x80\xbd\x72\x87\xf3\x3f\x95\xe4\x87\x32\xed\xe8\xb4\xec\x51\x09\xea\x95\xd8\x4b\xaf\xd7\x82\xa0\x2d\x8f\x95\xe3\x84\x49\x0e\x67\xb8\x87\xdf\xbe\xfe\x76\xa4\xab\x4f\x74\x34\x25\xee\x31\xee\xdf\x12\xfd\x82\x8b\x4b\x38\xc3\x09\xe6\xa7\xae\x34\x50\x78\xe0\xd8\xf9\x08\xdf\x50\x82\xe1\xa9\x7a\xb0\xb5\xd3\x37\xe8\xdf\x4e\x75\x33\xfb\x4a\x50\xaa\x06\xd5\xd1\x6e\x5c\x55\x41\xbd\x2a\x0a\xfd\x9c\xce\x39\x9e\xa1\x87\x21\xa1\x5a\xe1\xd1\x6d\xdd\x57\x3a\x96\x74\x7a\x87\x8e\xbd\xa5\x75\x61\xfd\x00\x14\x7d\x05\x4a\x77\xa4\x00\x2f\x2b\x45\xd7\x6b\x11\x24\xc2\xd2\x96\x62\xc1\xee\x38\xd8\xcf\x66\xec\x77\x49\xf4\x3a\x13\x5d\xce\xa2\x1b\x66\xfa\x86\x0d\x5a\x7e\x8b\x1a\x5e\x56\xa6\x02\x00\xb3\x1d\x4a\xda\xf7\x40\xaa\xd6\x2e\x93\xed\x6a\x7f\xfe\xfd\x37\x2e\xdc\x81\x4b\xb5\xe7\x36\xef\x4c\xbd\xd9\xbb\xfe\x31\x7c\x1e\xf8\x19\x9f\x9e\x41\x54\x92\xdb\x73\x3f\xf2\x08\xef\xf0\x27\xab\x38\x3b\x8f\x07\xd3\xd4\xdd\x34\xaf\x25\xc3\x14\x86\x13\xd4\x2a\xe4\x35\x5a\x94\xa1\xfe\x99\x83\x06\xbb\x9b\x92\xea\x35\x36\x7b\x33\x52\xdd\xf8\x8a\xd2\x51\xc6\x1b\xeb\xa6\xa4\x6c\x96\x86\x96\xb1\xb3\x4d\x7a\xa6\x89\x7d\xba\x29\x29\x7a\x8c\x81\xaf\x71\xf3\xa8\x8c\xe2\xde\xa0\x43\xcd\x74\x3a\xe0\xff\x7c\xf1\x85\x5f\x4f\x1a\xc1\x3d\x15\x4d\x74\xc2\xb3\x16\x1c\x9d\x1c\xa6\xf7\x03\x2b\x35\x2c\xed\x14\x68\x45\x65\x4a\xe1\x07\x10\x70\xff\x18\x2a\xfc\xfd\x47\x09\x6c\x58\x9a\x10\xa6\xc1\xd1\x22\x71\x30\x65\x66\xfb\x47\x7a\x52\x66\xbd\x6c\xdf\x9f\x31\x33\x8b\x9e\x9e\x32\x3b\x25\x03\x76\x89\x43\xd2\xab\x57\x5f\x0d\x26\xc1\x30\x8b\xdd\xe4\xc6\x51\x31\x34\x0b\x00\xf9\xb8\xf6\xb3\x5e\x1d\xf7\xa7\x0f\x16\x26\xd4\x7a\xf2\x69\x0e\x28\x81\x33\xf0\x84\x57\x8b\x80\x4f\x5a\x85\x8f\x57\xbf\xd8\xbb\xc4\x2c\xee\x56\x22\x92\x11\x44\x9e\xce\x5c\xc0\xe7\x9f\x65\x9f\x47\xa3\xd6\x1a\x6e\x6d\x74\x47\x90\xe0\x43\xda\x1c\x9e\x9c\xd7\x1b\x4c\xeb\x0d\x65\xf5\xb6\xe1\xf1\x39\x3d\x59\x27\x8f\x0f\x0b\xc1\x67\x8a\x25\x98\x06\x3d\x6a\x9a\x9a\x83\x76\x5e\xc6\x37\x40\x57\xe5\x89\x06\xc8\x8d\xf4\x1c\x83\x1d\x97\xe0\x9c\x4c\xd5\x11\x2e\xd4\xde\x5c\x90\xcb\x9e\x87\x2e\xda\xa5\x74\x10\xb0\xe3\x13\xe6\xfa\x53\x10\xb8\xf3\xef\x98\xc8\xab\x95\x04\x3c\x4e\xd0\x0b\xc3\x73\x39\x18\x8f\x77\x0f\xdf\x18\xfd\x88\x11\xe8\x84\x99\x29\x7a\xe3\x26\x49\xac\x29\x38\x82\xac\xfd\xb6\x40\x0f\x19\xe8\x31\x73\xa9\x23\xfc\x9e\xd3\x1d\x2b\x50\x16\x51\x44\x99\x49\xf3\x68\xff\x55\xfe\x0e\x33\x68\x35\xa3\xe4\x36\xc3\x29\xf8\x87\x30\xec\x1c\x5f\x83\xa1\x71\x77\xdc\x70\xec\x6d\xb2\x12\x6f\xb4\xcd\xc6\xfb\xee\x6a\x81\x89\x5f\xb6\xe4\x0a\xcb\x36\x78\x29\x5b\x2d\x10\x6d\x1b\xc9\xe9\x26\x2b\x5b\x54\xea\xdc\xf7\x94\x5c\xa7\x87\x5a\xb9\x4e\x5c\xe5\x8d\x79\xee\x92\x9d\x76\xe0\xb6\x7b\xeb\x13\x5d\xc6\x68\xac\xf1\x27\x19\xeb\xae\x06\x09\x78\x8b\x15\xad\x15\x1d\x73\x23\xa0\xaf\x8d\x99\x6b\x9b\xb9\xd2\x8c\x41\xa2\x5e\xb3\x7b\xf2\x11\xb5\x00\x1a\x4a\x9d\xd7\xa8\x83\x1d\x57\xa1\x27\xe6\x62\x42\xac\xcd\x09\xad\x48\x6d\x56\x10\x2e\x3d\x19\x68\x04\xa9\x96\x35\x95\x5b\x09\xa6\x5a\xd6\x6d\xf6\x0c\xe5\xa2\xc1\xf2\xe5\x1c\x8e\x4b\x03\xe7\x33\xad\xe0\x34\xec\x35\xaf\x39\xe6\x0c\xed\xb4\xe7\xf2\x4b\xe6\x59\xc8\x3e\xc8\x5f\x57\xf8\x1a\xe8\xeb\x6c\x16\x30\x11\xf8\x2e\x72\x89\xe6\x5f\xba\xac\x3a\xb5\x59\xbf\x37\x8a\x98\xba\x11\x4f\xd9\x92\x17\xf4\x35\x3d\xb7\x16\x2f\xa4\xfb\xbd\x5b\x72\x1f\x9a\x6f\xab\x1a\x84\x86\x2e\xc3\xef\x41\x65\xe4\x7d\x0b\x2a\xbe\xc3\xcc\x55\x53\xfd\x68\xe9\x14\xd2\x8f\x18\x41\x9b\x6d\xcf\x25\x66\x62\xed\xaf\x37\x8a\x89\xab\x87\x9a\xf2\xe8\xda\xe6\x0f\xe2\xe9\x9b\xf7\x8f\x42\x77\x16\x47\x9f\x65\xd1\x08\xce\x86\x96\x68\x53\xd3\xa0\x5f\x09\x88\x71\x1b\xec\x48\x3a\xe9\x2a\x83\xa5\x43\x2d\xe9\xf6\x5b\xa7\xcb\x64\x70\x65\x47\x7e\xf7\x20\x6b\xce\xb2\x5d\x5f\x62\xc6\xf2\xc2\xb4\x01\xd1\x99\x38\x28\xe4\xa8\x2d\x27\xb2\x97\xd6\xbc\xc4\x6a\x59\x27\xe1\x49\x5c\x35\x10\x12\x8f\x51\x96\xf4\xcd\x66\x7c\xf6\x87\x7f\xfd\x9b\x1f\x7e\xff\xcf\x3f\xfc\xd3\xbf\xfd\xf0\xf7\xbf\xfb\xe3\x3f\xfe\xed\x7f\xfe\xfb\x7f\xfc\xe1\xf7\x7f\xf7\xc3\xbf\xfc\xee\x8f\xbf\xfb\x87\xb3\xb1\x0b\x82\x4d\x36\xe8\xa3\x34\xe1\xc7\x29\x42\x7c\xa4\x06\x74\x28\xfb\x88\x85\x0e\xad\xd3\xc4\xf2\x6e\xf3\x78\x66\xc9\xfd\xa2\x1f\xdb\x6d\xdb\xb2\x55\x58\xd0\x1a\x2a\x71\xed\x9a\x37\x3d\x7c\xd8\xbc\x35\x60\x6b\x77\x9c\x98\x29\xe4\xca\x11\x44\x32\x85\x34\x8c\x36\xb4\x7d\x85\x72\xab\xf0\xd3\x16\xa6\x0f\x87\xe8\xa7\xa1\x1e\x03\x74\xe7\xb7\x05\xa1\x0b\x73\x74\xec\x7a\x21\xe3\x2e\xcb\x69\xfc\x51\xbb\xbc\xaa\x95\xb7\x74\x9b\xed\x6d\xf9\xb6\xb6\x38\x8d\x6f\xed\x71\x7a\xd6\xdd\xe4\x3f\x31\xad\x43\x36\xa3\x97\x10\x3b\xa9\xdf\x62\x9c\x6c\x33\xbe\xe6\xaa\xbb\x44\x9c\x58\xa3\xe1\xd8\xb5\xcf\x70\x9c\x20\x2b\xdf\x76\x74\x44\xf1\x97\xa3\x46\xfd\x6c\xdf\x41\xda\xdf\xb2\x9d\x9f\xad\x5f\xf4\x43\x27\x9d\x1b\x9f\x49\x33\x07\x2e\x81\xf0\x33\xde\x72\xac\xbd\x43\xda\xb7\xa5\xe7\xa6\xea\x54\x6d\x34\xe7\xca\x7c\xe2\xd1\x77\x9b\xd0\xe9\x6e\x7b\x4d\xaa\x7a\xcd\xd5\xc7\x3a\xbe\xc7\x78\x4f\xe7\x07\x6a\xe8\xed\x5a\xfe\xf8\x0c\x5e\x95\xc5\x5a\x7f\x2e\x0a\x11\xd6\xa3\x25\xd5\xf2\xe4\xa2\x5a\x15\x19\x4c\x5c\xa2\x0c\xe7\x62\x79\x05\xef\x65\x6a\xce\x56\x6a\xe1\x37\xc0\x56\xcb\x5c\xa1\xeb\x95\xad\xf4\x87\x6e\x30\x24\xcf\x4b\x2e\x25\x9c\x8d\x69\x45\x4d\x7e\xaf\xe9\x3d\xe0\x4a\x35\x16\xb9\x25\x3f\xda\x2c\xdd\x68\xf7\xc5\xe1\x58\xb7\x09\x76\x07\xcb\xd3\xc3\xf5\xe9\xc1\x02\xb5\xde\x36\x78\x7f\xc4\x65\x3c\x1c\x86\xce\x70\x1c\xfc\xe8\x58\x4f\x5f\xca\x14\x25\x51\x7e\x6e\x5d\x7e\x9d\x9d\xc0\x8c\x12\x7a\x31\xf0\xd9\x5d\x34\x02\xcd\x59\x9b\xfe\x30\x9d\x45\xe0\xf2\x2d\xee\x73\x9e\x31\x36\x40\x4a\x6c\x97\xff\x72\x35\x9b\x71\x11\x23\xae\x7e\x93\x37\xf8\x5d\x12\x14\x7a\x07\xbb\xdf\x38\x3b\xf8\x7d\x14\xf7\xc9\xd3\x63\xcb\x90\x2f\x9f\xdc\xbc\xf9\x98\x3b\x24\xb6\x8f\x0e\xe7\x83\x49\xdd\xba\xdf\x74\x83\x14\x71\x41\x44\xcb\x11\x48\x71\x67\x7e\xbb\x4f\xd8\x51\xb0\xba\xfb\xf5\xbc\x63\x6f\x81\xa2\x20\xa9\x73\x00\xf3\xad\x55\xa9\x8d\xeb\x8a\xbf\x59\x4d\xe4\x54\xe4\x13\x1e\x77\x6e\x6f\x92\x89\xf4\x6e\x71\x61\xb8\xda\x37\x06\x8d\xb2\xb8\xf3\xbf\x0a\xa2\x81\xf0\x17\x72\xae\x49\x4b\x86\x33\x2c\xee\x9b\x75\x6e\xe3\x78\x32\xdd\x6c\x5a\x9f\xc4\x60\xb7\xdc\xe3\xfe\xb1\x9f\x97\xc1\x29\x47\x7c\x5e\xa6\x81\x7c\xf0\xf6\x4c\xeb\xe3\xb8\xa9\xe3\x1f\xdd\x49\x48\x7c\xc1\x0d\x7c\x56\x66\x3f\x04\xe4\xcf\xd0\x88\xd6\x9d\x17\x1c\xe4\x3f\xd0\xd7\x55\xe8\xc3\x28\x03\x37\x6c\xfc\x1b\x6e\x7f\xc6\xef\xd2\x34\x1c\x39\x78\x81\x96\x8c\xa7\x53\xa5\x0b\x68\xf3\x02\xaf\x9f\x38\x76\x9c\xf4\x5d\x1a\x14\xb1\x37\x82\x8e\xad\x11\x5d\xb8\xbf\x2a\x7b\xc7\x78\x55\xc5\x66\x44\xa7\x8b\xe9\xd4\x0f\xd7\x78\xfa\xe1\xdd\x74\x38\xfd\xc3\x35\x1e\x1c\xd7\x12\x7d\x98\xb9\x1e\x79\x00\x70\xd6\xe6\x6e\xc3\xda\x9d\x4f\xd2\xd0\x4a\xdd\x4a\xca\xd0\x3a\x5e\x2e\x1f\x59\xb6\xd9\xb4\xd9\xde\x5f\x53\x5a\xca\x39\xd9\xc1\x17\x72\x3e\x9c\xc2\xdf\xed\x6e\xed\xbb\xfd\x19\x9e\x98\x67\x1e\x4a\x33\x0f\x64\x99\xb7\xae\x7b\xe1\x62\x30\xc9\xbc\x94\xf3\xf4\x99\x3e\x66\xfb\xbb\x47\xfb\x9a\x1d\xec\x9e\x19\xb8\xb2\x4a\x62\xa0\x7c\xb2\x55\x27\x6d\x06\x30\xc5\x7b\x8f\xb9\x5b\x06\xd2\xc9\x51\x5f\x54\xc6\xae\xf7\x5c\x97\x86\x04\xc7\x51\x65\xe5\xaa\x33\xf8\x99\x04\x49\x3d\x5a\x1a\x5a\xa5\x5a\xdf\xc8\x63\xe5\xda\x7c\x7d\x8f\x7a\xdb\x9b\xd5\xba\x6d\xf8\x67\xed\x3e\xfc\x4f\xbd\x46\x7c\xad\x0c\x5d\x73\x75\xe0\x12\x0e\xe2\xbd\xa6\x48\x61\x04\xe5\xd4\x3b\x20\x13\x5c\x14\x75\xe5\xe2\xd2\xbf\x65\xa3\x05\x32\x71\x67\x5c\x2b\x0c\x72\x8b\xdb\xdb\x39\x8f\x96\x72\xbe\x25\x89\x78\x57\x65\xca\x69\x7a\xbd\x9a\x14\xb9\x5c\xc4\x74\xc3\x7b\x92\x34\x3b\x77\xd0\x04\x74\xb3\xeb\xb8\x9c\xcb\xae\x77\x2b\x81\x94\x5a\x47\x6e\x63\xe6\x17\xaa\xc9\x6f\xb0\x83\x88\x92\xe7\x1d\xd1\xad\x53\x78\x81\x32\xc0\x91\xe7\x58\x46\xb6\x1d\x45\xe6\xd3\x8f\x2b\x0c\x40\xb1\x6a\x87\xd0\xf0\x34\x2c\x65\x8e\x35\x63\xba\xaf\x46\x27\xdc\x20\xde\x03\xa5\xdd\x61\xd6\x1f\x6c\xc4\xec\x69\x7c\xc4\x75\x5d\xc7\xe3\x31\x1d\x8e\xf4\xb3\x47\x16\xd8\xe9\x78\x42\xd3\x18\xae\xfc\xf1\x4d\x63\xde\xec\x03\x5f\x20\x41\x71\xff\xb9\xbf\x40\xd2\x60\xb7\xeb\x3f\x0e\x7a\x2b\xc4\x4f\x2e\x4e\xe9\x09\xeb\xff\xfc\xc8\xb1\x7e\xe7\x29\xdf\x1f\xb1\xfd\x49\x7d\xc3\x2f\x77\x1d\x01\x47\x8d\xf6\x03\xbc\x0f\x91\x04\xc1\x11\xce\x6c\xe8\x75\x1f\xb5\xb6\x86\xdf\x72\xf4\x8c\x1f\x72\x0b\x76\x7b\x8d\xba\xad\x46\xad\xd6\x6e\x67\xcb\xad\x96\xf7\x36\x16\xf5\x9e\xaa\x14\x34\x7b\x88\x7c\xf4\xb7\x45\x90\xa0\xa1\xde\x88\xa1\x13\xdd\xb5\x44\x0c\x70\xa3\xd7\x06\x1e\xf7\x6d\x11\x7b\xe4\xff\xc9\xbe\x22\x32\x80\xf2\x11\x5e\x08\xec\x77\x43\xb8\x10\x16\x58\x73\x10\xfb\x9e\x41\xdb\xdd\xf0\x3d\x02\x6f\x6a\xfb\x1c\x7a\xf4\xc8\x07\x6b\x4e\xb7\x3d\x5e\x83\x6d\x37\x38\xdb\x99\xa4\x4f\xae\xbe\xc2\x7c\xef\xb7\x4d\xfe\xd2\xfc\xa5\xbe\xca\xfc\x7e\x87\xa9\xff\xe3\x62\xbe\xae\x93\xdb\xd4\x7f\x94\x53\x91\x78\xcf\x49\xde\xbe\x65\xe6\xfe\x73\x4d\xd4\xa8\x46\xb9\x32\x1d\x77\x0e\x1c\xee\xe8\x0c\x5a\xcb\xff\x42\xce\xbb\x67\xfb\xb9\xc6\xf5\xa7\x39\xe0\x8f\x75\xb3\x0f\x95\xc7\x87\x0f\x74\x3d\xeb\x98\xf3\xdc\x8a\xd5\xdc\x7b\x6a\xce\x77\x67\x8e\x3c\xb8\xd6\x3b\x02\xe6\x3a\x8a\xe8\x06\xca\x63\x68\xfd\x47\xae\xec\x8d\x27\xc1\x6b\xc1\x25\x0a\x57\x97\x1b\xec\x37\x31\x7c\x54\x2d\xa0\x16\x81\xb1\xa9\xfb\xfa\x1b\x7a\x48\xfb\x5f\x1c\xd4\xfd\x3f\xcd\x25\x12\xe2\x53\x83\x96\x73\x67\x89\xa2\xdd\xeb\x23\xdb\x70\xb3\xe1\x65\xb6\xdd\x86\xff\x35\x00\x34\x75\x38\x40\xd2\x6d\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5d\x8f\xe4\xc6\x75\xe8\x33\xf9\x2b\x8e\x08\x69\x45\xce\xed\x61\xeb\x5e\xe0\x5e\xf8\xce\x62\x02\xac\x66\x47\xd2\xda\x9a\xdd\xf1\xee\xac\xf5\xb0\x58\xc8\xd5\xcd\xea\x6e\x7a\xd8\x24\xb7\xaa\x7a\x66\xda\x9d\x79\xc9\x8b\x03\x24\x40\x80\x3c\xe5\x21\x30\xf2\x94\xd7\x20\xcf\xf9\x3d\x56\xe0\x7f\x11\x9c\xaa\x53\xc5\x22\x9b\xec\x8f\x95\x6c\x38\x40\x84\xc4\x9a\x26\xab\x4e\x9d\xaf\x3a\x75\xbe\x8a\x1a\x8f\xe1\xa2\xca\x38\xcc\x79\xc9\x05\x53\x3c\x83\xc9\x1a\x26\x4c\x54\x65\x0a\xcf\x5f\xc1\xcb\x57\x37\x70\xf9\xfc\xc5\x4d\x1a\x8e\xc7\xf0\x9a\x8b\x55\x59\xe6\xe5\xdc\x0c\x80\xfb\xbc\x28\xa0\xba\xe3\xe2\x5e\xe4\x8a\x83\x5a\xe4\x12\x66\x79\xc1\xf5\xe0\x5f\x71\x21\xf3\xaa\x3c\x83\xcd\x26\xa5\xbf\x1f\x1f\xbd\x17\xf0\x9c\x29\xee\xbf\xc5\xdf\x8f\x8f\x61\x58\xb3\xe9\x2d\x9b\x73\x7c\x73\x6d\xfe\x7c\xc9\x96\xfa\xcd\x78\x0c\x37\x76\x0d\x98\x56\xa5\x62\x79\x29\x61\xc9\xd5\xa2\xca\x24\xa8\x0a\x96\xec\x96\x43\x5e\x66\xf9\x5d\x9e\xad\x58\x01\xbc\xcc\xea\x2a\x2f\x95\x84\x99\xa8\x96\x20\xb9\xb8\xcb\xa7\x5c\x8e\x10\x0d\xc1\x3f\xac\xb8\x54\xc0\xca\x0c\x04\x97\x75\x55\x4a\x0e\x6a\x5d\x73\x0d\x09\x87\x22\x45\x95\xe4\x0d\x94\x11\x30\x09\xf7\xbc\x28\xf0\xdf\xbc\x9c\x56\x19\x17\x12\x01\x20\xbc\x8c\xd3\xef\x59\x25\x68\xa2\x86\x36\xd2\x0f\x18\x72\x6a\x06\xd5\x4a\x80\x5c\xd5\x75\x25\x90\xd3\x4a\xb0\x52\xe2\xdf\x88\x59\xce\x8a\xfc\xb7\x4c\xe5\x55\x89\xd0\x66\x95\x58\x32\x25\xd3\x30\xcc\x97\x7a\x44\x1c\x06\xd1\x64\xad\xb8\x8c\xc2\x20\x42\xda\xf9\x83\xc2\x3f\x35\x1a\x79\x39\x1f\xff\x46\x56\x25\x3e\x98\x2d\xf5\xf3\xbc\x32\xff\x3b\xce\xab\x95\xca\x0b\xfc\x51\x72\x35\x5e\x28\x55\xdb\xbf\x57\x42\x3f\x96\x4a\x4c\xab\xf2\x8e\xfe\xcc\xcb\xb9\x8c\xc2\x30\x88\xe6\xb9\x5a\xac\x26\xe9\xb4\x5a\x8e\xe7\xd5\xe9\x6d\xae\xc6\xf8\xff\x96\x17\x51\x18\xb0\x72\x5d\x4f\x20\x9a\x57\xd5\xbc\xe0\xe9\xbc\x2a\x58\x39\x4f\x2b\x31\x1f\xd7\xa2\x52\xd5\x64\x35\x1b\x6b\xfa\xc7\xb7\x65\x75\x5f\x8e\xf5\xe8\x28\x0c\xb2\x95\xd0\x44\x1e\x31\xb5\x99\x12\x85\x01\x5f\xd6\xea\x98\x75\x69\x7c\x14\x06\xb3\x9c\x17\xd9\x92\xc9\xdb\x23\x66\x7b\x73\xa2\x30\x90\x4a\xac\xa6\xea\x88\xe9\x76\x42\x14\x06\x2a\x5f\x72\xa9\xd8\xb2\x3e\x62\xba\x37\x27\x0a\x83\x7b\xc1\xea\x9a\x0b\x79\x04\x80\x66\xca\xb6\x48\x45\x5e\x14\x6c\xbc\x5c\x3d\x44\xed\x37\xf5\xed\x7c\xcc\x85\xa8\x84\xd6\xb4\x1d\x0b\x39\xcd\xd3\x4f\xac\xfa\xed\x98\xa0\xff\x40\x44\x36\x9b\x53\xc8\x67\xc0\x3f\x40\x7a\x51\x95\xb3\x7c\x9e\xde\xb8\x9d\x10\xb1\xa2\x88\x20\x2a\x99\x92\x11\x3c\x3e\xb6\x71\xc3\xa7\xa7\x79\xa5\xff\x9d\xce\x51\xc3\x11\x14\x2f\xb3\xc7\xc7\x83\xa0\xce\x45\x3d\xb5\x50\xb7\xf0\xd4\x2f\x07\xdf\x8c\x97\x5c\xb1\x8c\x29\xd6\x5d\xf4\xe0\x25\x11\x7e\xb3\xe3\x07\xf6\x97\x1b\x60\xd1\xf1\xd6\xc2\xbd\x7b\x04\x00\x1c\x1e\x1d\xc4\x96\x86\xd9\xf8\xd7\x11\x4b\xe0\xf0\x16\x8e\x49\x18\x86\x77\x4c\x40\x1c\x06\xdf\xc3\x39\xcc\x96\x2a\x7d\x53\x8b\xbc\x54\xe6\xb7\x36\x60\xe9\x45\xb5\xac\x99\xe0\xe6\x11\x59\x9f\xf4\x99\xaa\x72\xf3\xa4\x45\x66\xfa\x92\xdf\xbf\xe1\xe2\x8e\x0b\xf3\xd2\x58\xb3\xf4\x65\x55\x5f\x14\x95\x6c\x9e\xa6\x17\x55\xbd\x36\x3f\x8c\xf2\xa6\xdf\x09\x56\x87\xc1\x78\x0c\x24\x4f\xab\x86\xc6\xc6\xe3\x50\x6d\x92\xd2\x67\xa5\x9e\xd7\x18\x99\xf4\x39\xfd\x89\x8f\xc9\x7c\xa4\x97\xf8\x6f\x7c\x60\xb7\x74\xfa\x46\xff\x81\x8f\xbc\x6d\x9a\xde\xd8\xbf\xf1\x45\xb3\xfd\x70\x74\x5e\xce\x7f\xc5\x8a\x95\xa6\xdb\xb3\x2b\xe9\x57\xf8\xf7\x15\x93\xb7\x61\x12\x86\xe3\x93\x83\xfe\x81\x4b\x7b\x26\x81\x7d\xb4\xff\x9f\xb1\x3e\x41\x5f\x94\xc0\xf0\xbc\xb9\xe3\x62\x04\xb9\xfa\x5c\xc2\x4a\xf2\xd9\xaa\xd0\xc7\xd4\x6c\x55\x4e\x91\x0b\x12\xd4\x82\x29\x28\x39\x9e\x52\x15\x54\xb5\xf6\x0d\xa0\xc2\xb9\x35\x17\xa7\xf6\x18\x40\x80\x13\x26\x73\x99\xc2\x57\x95\x00\xfe\xc0\x96\x75\xc1\x47\xb0\xae\x56\xb0\xcc\xe7\x0b\x05\x35\x93\x78\x44\x7a\x08\xab\x0a\x98\x5b\xc8\xac\x53\x8b\x2a\x5b\x4d\xb9\x44\x70\xac\xd4\x1a\x90\x7e\xc3\xca\xac\x40\x1c\xef\x73\xb5\x00\xce\xa6\x0b\x3a\xe9\x21\xb6\xab\x27\x70\x9f\x0b\x9e\xc1\xaa\x46\x24\x19\xc8\x9a\x4f\xf3\x59\x3e\x85\x9a\xa9\x45\x0a\xf1\x0b\x85\x00\x73\x09\xb5\xa8\x26\x6c\x52\xac\x81\xc1\x32\x97\xca\x78\x09\x90\x71\x99\xcf\x4b\x9c\x9a\x97\x77\xd5\x2d\x1e\xf7\x1c\x50\xd9\xf2\x29\x77\x5e\x85\x46\x91\x23\x9c\x86\x02\xa3\x03\x90\x37\x9c\x4c\x93\x70\x3c\x76\xdc\x9d\x16\x39\x2f\x55\x9b\xbb\xaa\x82\x69\x55\x14\x7c\xaa\x3c\x07\xa5\x58\xc3\xb4\x2a\x0d\x38\x9e\x79\xee\x4a\x5e\x22\x41\x08\x50\xe6\xe5\xbc\x30\x8e\x89\xe1\x55\x8e\x1c\x5e\x72\xc4\xc3\xc7\x37\x2f\x15\x17\x33\x36\xe5\x43\x92\x40\x60\x6e\xb1\x7e\x27\x69\x85\x8b\x35\x5e\x89\x76\x16\x70\x03\x5e\x10\x3d\xd3\x6a\x39\xc9\x4b\xcd\xa7\x25\xa1\xe8\x09\x76\x44\xae\x94\x5a\x89\x12\x72\x85\x7c\x45\x04\xa7\xac\x28\xb8\x40\x8f\x89\x59\x64\xd3\x50\x93\xb3\xc5\xd0\x4d\x18\xbc\x2d\x1d\x7d\x3c\xdb\x6c\x52\x3b\xc3\xb8\x80\x64\x09\x36\x1b\xc1\xca\x39\x87\x4f\x73\x38\x3b\x07\x37\xe6\xca\x88\x0c\xed\xd8\x66\xf3\x69\x4e\x73\xec\x2a\x00\xe0\x48\x4d\xed\xc3\x70\xb3\x31\xc6\xd5\x78\x97\xf6\xb1\xdc\xbf\x04\x2a\x30\xc4\x1e\x11\x09\x78\x8b\xc6\x53\xf5\x00\xe4\xa5\xe1\xd1\x80\xff\x1e\xa1\xc2\x9c\x6c\x36\x5f\x57\x88\x18\x7c\x9a\xa7\xaf\x8d\x0b\x7a\xb3\xae\x2d\x81\x09\xc4\x9d\x11\xc6\x31\xf5\x86\x8c\x8c\x81\x4b\x60\x13\x06\xd6\x6f\xd5\xcf\x10\x51\x9e\xf6\x50\x8e\xc8\xe0\xe2\x49\x18\xe0\x61\x25\x04\x7c\x72\x0e\x65\x5e\x20\x84\x80\xe4\x55\xe6\x85\x06\x12\x06\x8f\xa1\x7d\x66\xa1\xa7\x7b\x71\x4a\x46\x08\x2f\x7c\x74\xec\x44\x66\x5e\xb1\x5b\x8f\x3d\xe1\x66\xa3\x37\xf2\xa7\x8a\x23\xa2\xe9\x23\x0e\x3e\x05\x9f\xcb\x9f\x2a\x3e\xc4\x68\x84\xd5\x47\x99\x44\xa6\x2b\xde\xab\x26\xc9\xb6\xb8\x61\xe3\x88\x43\xf9\xf5\x4b\xc9\x06\x06\x6e\x47\x6d\x1e\x13\x88\x2d\x33\xfc\xc7\x9a\x63\x9e\x38\x02\xc1\x3f\x20\x21\x04\x21\x8d\xf7\x49\x3b\x0c\x82\x3b\x27\x3b\xe9\xcb\x0e\x51\xd3\xa8\x24\x61\xd0\x23\xb5\x6d\xb1\xa1\xdc\xec\xd3\x3b\x23\x8e\x00\xd5\xba\x39\x9b\x7d\xd9\xe0\xe1\xf8\xac\x28\x2e\x1f\xa6\xbc\x56\xfa\x9c\x92\xc6\xc4\x3a\x4e\xe9\x13\x0a\x43\x16\xda\x9b\xf6\x85\x04\x2d\x46\x86\x50\x3c\x9f\xc0\xb1\xfa\x2a\xcf\xb2\x82\xdf\x33\x61\xa2\xc0\xb7\xd2\xc6\x85\x18\x04\xd5\x75\xb1\x46\x13\x83\x66\x53\x21\xf0\xa5\x1b\xad\xa3\x2e\x7e\xc7\xc5\xda\x89\x0d\xf7\x0b\x5a\x10\x0a\xdb\x34\xbc\x57\x35\x9e\x1a\xac\x28\xd6\x23\x37\x4e\xc2\x94\x95\x30\xe1\xfa\xac\xe1\x19\x4e\x9b\xac\xa1\x44\xb6\xab\x0a\x9f\xf3\x87\x69\xb1\xca\x78\x66\xa2\xc0\x09\x47\x14\x90\xe6\x9a\x67\xe9\x16\x37\xe2\x06\xa7\x11\x44\x6f\x14\x53\x2b\x19\x8d\x20\xba\xce\xcb\x79\x94\xb8\x7d\x7f\xe2\x18\x92\x0c\xce\x77\x18\x7a\x5c\x19\x35\xd8\xa4\x69\x2a\xb5\x5b\xa0\x95\x27\x2f\xe9\xf1\xd9\x39\x2c\x59\xfd\xce\xbc\x7a\x6f\xd8\xbf\x79\x44\xf5\xea\x6e\x98\x9e\xdd\x12\x04\x41\xe4\xa9\x51\x74\x06\x9b\xc7\x51\x18\xf8\x6e\xe4\x63\x18\x06\x78\xd6\x7f\x8f\xa8\x20\x18\x03\xd2\xa1\x85\x2b\xe5\x33\xf8\x7e\x04\xd5\x2d\xbe\xb6\x88\xbd\xe3\x0f\xef\x9f\xc2\x27\xd5\x2d\x62\x1b\x04\x35\x2b\xf3\x69\xdc\x78\x78\xb3\x38\xba\xb4\x20\x2c\xdd\xf0\xf9\x67\xf2\x73\xc8\x2a\x2e\xa1\xac\x14\xf0\x87\x5c\xaa\xa7\x20\x39\xf7\x05\xef\x62\x4a\xed\xd2\x23\x52\x49\x42\xfa\x9c\xf1\x82\x2b\x1e\x5b\x0c\xf4\x3b\x43\xc0\x41\xac\xe8\xa5\xa2\xc5\x9e\xf7\x4f\xc1\xd2\xd3\x6b\x3a\xe1\xdc\xc3\x34\xee\x1d\x42\xb8\x36\x0c\x36\x3b\xec\x5b\x36\xe1\x05\xcf\x1a\xc1\x9b\x6c\xc9\x9c\x2b\xab\xa6\xa8\xda\x8e\x51\x5a\x5b\xef\x17\xbc\x74\x6f\x2b\x4f\x33\x09\x98\x51\xb0\x91\xd9\x50\xa4\xf3\x2b\x33\x18\x4c\x0a\x86\x99\x3c\x4e\x3e\x45\xff\x45\xe4\x53\xed\x51\x35\x14\xc0\xfd\x22\x9f\x2e\xf4\x76\x91\xbc\xec\x43\x81\x0e\x6d\x9a\x6d\x5d\x96\x4a\xd0\x91\xbd\x4d\x15\xee\x87\xd8\xe8\xea\x68\xdb\xe0\xf6\xd8\xe0\x70\x88\xae\x8f\x36\x43\x5b\x48\x8d\x88\x4e\xcd\x71\xc1\xa7\x3c\xbf\x43\x2b\xc4\x0d\x89\xd5\xac\x45\x77\x0a\x6f\x38\x77\x60\x3c\x28\xfa\x85\xf5\x39\x09\xe1\xcb\x07\x44\x14\x77\x4f\xc6\x15\xcb\x0b\x89\x2e\xb1\xdd\x39\x08\xc4\xfa\xb5\xac\xc8\xd5\x3a\xdd\x65\x2d\x5a\xb4\xc7\xcb\x1f\xc1\xd1\xff\x31\x29\xff\x7d\x4d\x4a\x6b\xea\x08\x0e\xb5\x30\x87\xa7\x1d\x0e\x0d\x28\xbf\x7e\x7d\x7d\x81\x04\x73\x71\x74\x44\x89\xce\x99\x37\x1d\x93\xb0\xb2\x39\xe2\x9d\x28\x80\xdd\xb1\xbc\x60\x93\x82\x9b\x60\x60\xfe\xfa\xfa\x02\x06\x5c\x7c\xda\x39\x6d\xc8\x2e\xee\x93\x8d\x19\x18\x41\xa5\x3d\x02\x89\xaa\xdf\xca\xb0\x68\x4d\xe6\xc2\x38\x0c\xc9\xd0\x42\x78\x96\x49\x6f\xa0\x44\xc1\xbe\x7b\x3f\x0c\x09\x05\xdb\xf7\xf6\x4b\x3e\xab\x04\x8f\x11\xdb\x2b\xca\x14\xdd\x54\xe4\x53\x26\x23\xdc\x22\x9d\x75\xce\xd1\x1d\xe2\x65\x16\xb7\x1e\x3b\x7a\xd2\x34\x4d\x74\xfa\x62\xb3\x81\x9b\xea\xdb\xea\x9e\x8b\x46\x23\x91\x55\x28\x5c\xeb\xf0\x3d\x41\x8c\xf0\x25\x17\x1b\x3c\x1b\xf7\xaa\x31\x8e\xf7\x34\xed\x0c\xda\x24\xb9\xa4\x4b\x8c\xbb\xdf\xb1\xbd\x4f\x39\xd1\xb9\x08\x9e\xeb\xdc\x37\xd2\xee\x8d\x20\x7f\x57\x0f\xb8\x2c\x7b\x07\x50\xf4\x82\x23\x5a\x5c\x48\xd3\x14\xa7\x25\x23\x5f\xeb\x03\x7b\xb4\x36\xc4\x76\x83\x61\xe7\x6e\xf7\xcb\xda\xb9\xee\xe6\x30\xf3\xe0\xfc\xe4\x01\x68\x87\xc1\x00\x1d\x0e\x53\x76\xc3\x73\xcf\x29\x68\xa2\xb4\x03\x5a\x53\x0f\x3f\x55\x35\xa4\x1e\x4e\xe5\x5e\x34\xf5\x26\x8b\x25\x9c\x34\x4b\x25\x0d\xf8\x3d\xd1\x2c\x06\x3b\x3f\x6d\x38\xfb\x3d\x46\x3c\xb5\x17\x10\x75\xb8\xa8\x29\xd0\x5a\xe4\x87\x47\x47\xc6\xb4\xf5\x47\x86\xb3\xc4\x5d\xa3\xea\xfb\x59\x3b\x1e\xc3\xae\x5d\x01\x39\x9a\x40\xa7\x0f\x3a\xdb\x9b\x9a\x09\x34\xe2\x2b\x94\x8d\xce\xf8\x60\x75\x86\x0b\x25\x4d\x42\x88\xcc\xa6\xb5\x09\x0e\xb0\x8b\x5b\x31\x2d\x83\x59\x27\x71\x9a\x55\x4b\x96\x97\xbb\x06\xa7\x70\x2d\xf2\x25\x13\x79\xb1\xb6\x89\x2a\x3f\xab\x65\xac\xf0\x2e\x3a\xe2\xef\xb7\x15\x03\x69\x79\xcd\x3f\x34\x8a\xa8\x03\x68\xef\x57\x3b\x85\xa1\x43\x66\x9a\x73\x48\xc8\xec\x24\xf9\x61\x87\x98\x2e\xcb\x83\xc5\xb4\xd3\x36\xf5\xca\xc9\xcc\xb0\x43\x86\x04\xb5\x5f\x04\xb4\x84\x16\xd8\x0e\xb1\xd6\xc5\xfa\x20\x39\xed\x24\xa4\x4f\x50\x7d\x39\x8d\x5d\x92\x92\x35\x8a\xca\xce\x3a\x60\x1f\x79\xc2\x92\x75\x9f\xb4\xbe\xe1\x05\x26\xc8\x43\xa3\x68\xbd\x87\x67\xbf\xf1\x59\x66\x60\x0b\x32\xe9\xd5\xf3\xa4\x3b\x00\xf1\x45\x13\x7a\x3b\x82\xbb\xc6\x1f\x5d\x3a\x4f\xf4\xae\x95\x4c\xd1\x75\x65\x0e\xb7\x7c\xad\xc5\x9d\xa1\xcb\x3a\xa9\xd4\x02\x79\x6c\x57\xa1\x8a\x2c\xc4\xb7\x09\x45\x17\x38\xb4\x28\xa0\x40\x79\x11\x14\x46\x31\x95\x4e\x9c\x5e\xb0\xb2\x2a\xf3\x29\x2b\xbe\xe1\x2c\xe3\xe2\x17\x7c\x6d\x43\x0f\x5c\x48\x56\x94\xce\x55\x14\xc9\x59\x10\xd3\x29\xb7\x59\x0c\x9e\xab\x05\x17\xb4\x32\xbe\x47\x56\x9c\x3b\x5a\xbf\xcb\xd5\x42\x57\x14\x90\x45\x23\x4d\xeb\xbb\x2f\xde\x27\x7b\x07\x0e\x60\x17\xdf\x26\x0d\x04\x72\xea\x49\x7c\x53\xf5\xa0\xcf\x5e\xeb\xf7\xed\xfe\x47\xcb\xd1\xe4\x8c\x8f\xf6\x25\x5f\xf2\x7b\x6f\xb6\x59\x5e\xd7\x0f\x28\x09\x04\x13\x36\xbd\x45\xf1\xac\xed\x9e\x31\xc9\x76\xa4\xb5\xe4\xba\x76\x91\xc2\x0b\x85\x72\xa4\xb4\x3d\xa9\x6b\x3e\xc9\x31\x24\xb3\x22\xa0\xac\xb4\xaa\x20\xcb\x59\x61\x52\xd7\x05\x53\x5c\xc0\x14\xeb\x4a\x18\x63\x73\x1f\xa6\x51\xd0\x16\x76\x31\xbe\x36\x47\x67\x6a\xf0\xbd\xa8\xca\x72\x87\x43\x6a\x06\x59\x87\x34\x1e\xf0\x48\xfd\x2d\x87\xde\x41\x37\x6b\x1a\x6c\x07\x6d\x7e\x06\xb4\x31\x6d\xc1\x1d\x13\x2e\x6c\xf2\x2c\xc2\x76\x00\x19\x06\xb8\x0d\xfa\x86\x9e\x6f\x3b\x86\x44\xbc\xd6\x32\xa4\xd7\xc6\x87\x1e\x0e\x28\x41\x1b\xd2\x34\xe1\x63\xf7\xe9\x65\xb9\xc7\x69\x7c\xce\xf7\x39\x8d\x7b\xec\x8f\x49\x7d\x05\x8d\x47\x8d\x3f\x13\x47\x76\xac\x03\x3f\xcd\x4f\xf2\x30\x9d\x69\xb2\x76\xcb\x0e\x95\x7b\xdd\x6a\x38\xd5\x8e\xb5\x87\xa9\x9d\x7b\xe6\x57\x1e\xbc\xf7\xa3\x66\xbd\xe0\xd1\x1a\x47\x34\x8a\x48\x31\xd0\x0e\xf8\xf1\xee\xc6\x8e\x73\xec\x39\x3f\xe4\x1c\xdb\x7d\x32\x1d\xea\x6e\xd0\x99\x31\x70\x8e\x99\x4d\x4c\xbb\xec\x39\x3f\xf2\x1c\x43\x62\x5e\x6b\x64\x0e\x3c\xc8\x70\xa8\x73\x3a\xf0\x78\x3d\xea\x28\xab\x8b\x75\xdf\x59\xe6\x8b\xed\xc7\xbb\x1f\xc3\x5e\xe2\x65\x79\x80\x97\xb8\x5f\x20\x9e\xb3\xb8\x43\xc2\x3b\xbd\xc4\x96\xd4\x76\xd1\xd1\xef\x7c\x10\x89\x87\x89\xec\xd8\xc2\xca\x6e\x2f\x91\xb0\xd0\xa7\xa7\xbc\xa9\x7c\xc7\xc3\xec\x94\x3e\xcb\x4d\xeb\xe0\x3e\x31\x8a\xba\x03\x4a\x7c\xcb\xd7\x12\xde\xbd\xb7\xd9\xb8\x3d\xf0\x0e\x2a\x4c\x2d\x33\x38\xd9\xe7\xf4\x68\xa3\x5f\xb3\x5c\x34\x8b\x87\x81\xcd\xcd\xdd\x36\xae\x90\x46\x0f\xad\x3e\x16\x97\xee\x6c\x46\x6b\xaa\x1e\x52\xcd\x93\xf8\x36\x49\x29\x07\x99\x34\xf9\xac\xc0\x00\x76\x99\x0b\xfd\xd3\x38\x1e\xe8\x33\x68\x63\x8a\xc6\x13\x61\xea\x77\x2d\x2f\xeb\x64\x99\x61\xee\xcb\x12\xf0\xf3\x2a\x2f\xe3\x93\x65\x36\x6a\x1e\x5d\xe3\x9c\x58\xcf\xc4\xf4\x47\x62\xc1\x11\x67\xd0\x0b\xa1\x9a\x96\x91\xe4\xa1\xb9\xad\x6f\x6e\x6e\xae\x29\x2e\xb0\xcf\xf6\xff\x33\x0e\x43\x5d\x2e\x37\x5c\x2e\xb5\x7a\xc1\x39\x44\xac\xae\x8b\x7c\xaa\x1b\x44\x74\xcf\xdd\x53\x98\x2e\x98\x90\x5c\x9d\xaf\xd4\xec\xf4\x67\x91\x4b\x89\xe1\xaa\x14\xe6\x53\x55\x1c\x15\x6b\x41\x4f\xf4\x9e\xdd\x9f\x2a\x43\x60\x55\x09\xb5\xe0\x19\x9f\xe5\x25\xcf\x74\x6f\x83\xa4\x3d\xd7\x59\x66\x6f\x82\xac\xdd\x5a\xd3\x4e\x90\xf9\x4d\x17\xd6\xf7\xc8\x67\x90\x6a\xf8\xda\x4d\xf7\xec\x56\x27\x5f\x83\xba\xf3\xee\xfd\x30\x74\x2d\xff\xbe\xd7\x94\x35\x33\x6b\xa0\x1f\x2a\x5b\x49\xb3\xfe\x49\x97\x68\xc9\x8d\xb9\x11\x31\xf7\x7e\x0c\x4f\x79\x36\x53\x5c\xc4\xdd\x37\xea\xa2\x11\x6d\xec\x89\x39\xd1\x80\xb6\xa9\x3c\x28\x65\x47\x19\x1d\x9d\x9e\x5b\x22\x63\x96\xab\x07\xf4\x9b\x5e\x57\x2b\xc4\x21\x09\x3d\x4f\x82\x8a\x0b\x67\xe7\x83\x6c\x76\x43\x27\xd8\xb1\x51\xce\x11\x20\x4d\x4b\xbf\x34\x8f\x28\x47\xbf\xb4\xf3\x62\x74\xb7\x68\x38\xf6\xd6\x4e\xe0\xaf\xe1\xa6\x7a\x8b\xbd\x83\x8f\x8f\x51\x92\x5e\x33\xb5\x68\x8d\xc1\x07\x37\x7c\x59\xa3\xff\xab\x47\x58\x75\x1a\xe8\xc4\xd2\x49\xc1\x76\x56\x90\x30\xea\x49\x0d\x52\x6e\x10\xc9\xf3\x96\xd4\xc5\x0f\x77\x3c\x98\x81\x46\xa2\x38\xf0\x6b\x53\xc3\xb2\xc7\xb0\x79\xdd\x97\x20\x0c\x74\x5a\xbf\xc9\xa1\xf9\x7f\x92\xd1\x58\x92\x53\xe5\x2b\x8d\x29\x96\xe9\x08\xc1\xb8\x05\xb6\xec\x65\x57\xfc\x0e\xdf\x8b\x11\x46\x19\x19\x9f\xb1\x55\xa1\xf0\xb4\x33\x0a\x82\x3b\x52\xa7\x0f\xab\x19\x74\x6d\xc1\x08\x18\x4c\xaa\x4c\x07\x7a\x68\x1b\x4c\x91\x0a\xc3\xbd\x48\xaf\x13\xb9\x08\xf1\x0e\xad\x2c\x82\xd2\xcf\x53\x8d\x5d\x9c\x98\x38\x84\x81\xd4\x55\x67\x40\x7e\x20\xa8\xff\xfb\xc5\x17\x29\xbc\xa0\xb2\x15\x8e\xf4\xf3\x9e\x66\xdf\x70\xa1\x9b\x9a\x71\x44\x2d\xaa\xbb\x1c\x43\xd8\x85\x7e\x83\x05\xfb\xa2\xc0\x32\xb8\xc6\xd6\x54\x0b\x71\x5c\xe3\x93\xf9\xa0\x11\x8a\x07\x1d\xa9\x48\xaf\x98\x90\x0b\xa6\x9b\xb1\x2c\xfe\x4b\xf3\x08\x2b\xe9\x72\x35\x9d\x72\x9e\x49\x13\x33\xfd\xfc\xcd\xab\x97\xd4\x1b\x9d\xd9\x46\x66\x1b\x74\x69\x5a\x1d\x3a\x58\xb9\x1c\x26\xcb\x14\xde\xb1\x35\x5d\x8c\x6c\x28\xe7\x28\x6b\x5e\xb6\xa0\x41\x5e\x4a\xc5\x59\x66\x79\x66\x8c\xa4\x6f\x21\xfa\x1c\x11\xd7\xc3\x31\x82\x7b\xd3\x7a\xd6\x56\x03\xed\x33\xa2\x54\x47\xf0\x3d\x6e\x3f\x9f\x25\xc6\xfc\x60\x71\xb0\xe6\x62\xa3\xa5\x78\x86\xb4\x58\x81\xa2\x27\x92\xcf\x2c\xb7\x90\x81\xe6\xa0\xc5\x21\x71\x9b\xb7\xcd\x39\x9b\xcf\x00\x5f\x7d\xa9\x97\xa4\xa9\x97\x26\x25\xea\x00\xd9\x79\xc8\xee\x38\x79\x6a\x57\xc0\x61\xe7\xde\x99\x8b\x68\xc3\xb9\x03\x67\x03\xfb\xe0\x3e\x35\x6a\x13\x27\xe9\x1b\xae\xe2\x88\x0c\xe1\xe9\xcd\xba\xe6\xd1\xc8\x3f\xf2\x0c\x01\x0b\xab\x64\x3e\xfe\x6d\xf3\x60\xf5\xb0\xa1\xc3\x26\x60\x64\xe3\x76\x58\x38\x34\x5a\xc6\x9a\xb9\x81\x8f\xcf\x73\x5e\xc4\xb7\xb8\xad\xad\xd7\xe2\x25\x70\xee\xc8\x67\xf1\xc7\x3f\xcb\xb2\xb8\xe3\x81\xe0\xff\xe9\xbd\x73\x66\xba\x49\x53\xa3\x2f\x2f\xd0\xb7\x2c\x59\xe1\x9d\x22\x9a\x38\x39\xdd\x41\x96\xa7\x87\x0d\x65\x1a\xf8\x39\xc8\x29\x41\xc6\xd7\x14\x4d\xde\xa7\x5a\x6b\x08\x3d\x1c\x98\xb8\x87\x31\x8a\x23\x41\x83\xd4\x28\xa6\x31\x8f\x22\x9e\xac\x66\xf0\xee\x3d\x36\xc8\x26\xb4\x19\x36\xa1\x76\xe6\xee\xc1\xd7\x31\x97\xee\xb6\x8a\xf8\xb6\x24\xd1\x23\x84\x11\x3c\xb9\x4f\x9e\x76\xd3\xe1\xc6\x8d\x91\xf9\x6f\x39\x9c\xc3\xcf\xfe\xf7\xff\xff\x7f\x46\xc7\x0a\x5e\xe2\x9c\x04\xfe\xca\xbc\xc3\xa1\x01\xa2\x71\x0e\x93\xd5\xec\xdd\x19\x3e\x7c\x4f\xe7\x20\x19\x53\xec\xf6\xd0\x7c\x9b\xc5\x91\x35\x1f\x80\x44\xe9\x46\x8f\x33\xcc\x64\x61\x51\xb6\x46\x7f\x08\xca\xaa\x3c\x45\xc5\x73\x9e\x3e\x0e\x8c\x46\x08\x9c\x2a\xae\x04\x95\x1a\x76\x5f\xf2\xfb\xf8\xde\x6c\x1c\xcd\x23\x6d\x64\x7d\xda\x6d\x0f\xc0\x26\x0c\xf4\x28\xfc\x8d\x06\xe8\xd7\xb8\xca\x19\x59\xd8\x5f\x93\xbd\x47\xb9\xd3\x28\xa6\x72\x39\xcb\xf1\x5e\xc7\x82\x3b\x73\xa9\x2d\xad\x27\xdc\x26\x0e\x91\x90\xeb\x2b\x18\xf6\x1e\xca\x21\x7d\xd6\xa9\xa9\x28\x79\x8b\x3a\x54\x35\x5a\x78\x77\xc0\x2e\x85\x2b\x85\x81\x35\xce\x00\x7e\x69\xde\xf9\xec\x56\x47\xe2\x45\x03\x34\xf1\x8c\x62\x9c\x40\xbb\x9f\x6d\x91\x36\x2b\x0c\xcc\x6e\xf6\x1c\x3e\xa4\x1d\xd4\x02\x41\x48\x85\xad\x54\x7a\x37\x05\xb1\xd7\x69\xf1\xd2\x53\x7b\xbc\x16\x97\xb5\xd8\xe9\x1e\x74\xa3\x60\x8d\x7d\x7f\xad\x44\x57\x4c\xcd\x4d\x1c\x9c\x83\xd6\xf1\x94\x0e\x23\x3f\xc0\xb5\xeb\x5c\x33\xc1\x4b\x45\x41\xa3\xd3\x53\xdd\x25\x86\xe7\x15\x62\x65\x9f\x6a\xc8\xa8\xc1\xfb\x52\xf1\x81\x97\xc3\xd8\x49\x56\x6f\x50\x0c\x27\x74\x02\xe9\x21\xc3\x01\x71\x90\xf1\x19\x17\x20\x52\x34\xeb\xe9\x05\xe6\x2c\xd1\x00\x69\x8b\x81\xc1\x72\x13\x1f\x77\x68\x25\xc8\x68\xda\xd1\x4b\xc2\x0d\xef\x0a\x6e\xd4\x5c\xff\x9a\xb3\xec\x59\x51\xc4\x06\xf8\x61\x0d\x88\xb6\xe3\x7e\x86\x27\xe2\x08\x22\xb2\x04\x02\x4f\x63\xeb\x11\x21\x65\x96\x9d\x11\x25\x99\x3b\x86\xe8\x0b\x4d\x5b\xb0\xb2\x46\x0d\x63\xa7\xb3\x73\x70\x37\x4c\x1a\x73\x47\x8e\xa0\x1e\x1e\x3c\x2b\x8a\xea\xfe\x9a\x09\x95\xb3\x02\xd3\x6d\x4a\xac\xc8\x6b\x7c\x9e\xcb\x29\x13\xd9\xdb\x52\xdf\x06\x3a\x6b\xde\x3c\x52\xec\x8b\xa4\x9f\x83\xbf\xe0\x96\x49\xc5\x32\xe3\x96\x51\xed\x37\xab\xc3\x86\xb5\xd7\xb4\x12\x1a\x2d\x66\xba\x0d\xbb\xe9\x61\x2b\x71\xef\xa3\x6c\xae\x61\x48\xe0\x1d\x88\x5f\xb2\x8c\xd4\x81\xde\x21\x02\x0d\x5a\x2e\x9c\xc7\x90\xf3\x9a\x09\xb6\x94\x36\x9e\xf9\x15\x13\x32\x16\x28\x43\xbc\x71\xd1\xbc\xc7\xe0\xff\xc3\x8a\x8b\x75\x33\x5c\xa4\x6f\x5f\x7f\x9b\xfe\x12\x1f\xc6\x76\x82\x37\x24\xf4\x83\x1c\xd3\x74\x7a\x76\xde\x68\xad\xbe\x1c\x41\x11\x8e\x6e\x7a\x29\xed\xb0\xf4\xdb\xca\x78\xde\x10\x69\x22\xcd\x98\x60\xb3\xa1\xd7\x5f\xf3\x52\x2f\xea\xa4\x89\xe1\x4f\x2b\xdb\xeb\xfe\xda\x8d\xc2\xab\x92\x57\xb3\x2d\x3c\xf8\x87\x6d\x3c\x34\x59\x3f\x06\x11\xb7\xad\x9e\x08\xfe\xa1\xa9\x5d\x53\x54\xa3\x53\xcc\x76\x68\x93\x3a\xec\x89\x98\x7a\x2d\xe6\x50\xd5\xd2\xd8\x47\x69\xc3\x07\x77\xae\x33\xa9\xed\x67\x37\x5c\x30\xc1\x93\x38\xa2\x22\xd9\x83\x60\x9f\xed\xeb\x75\xbe\x87\x8a\x94\xce\x45\x1a\x32\x14\x57\x5b\x66\xa2\x6b\x24\x9c\x2d\x78\x2b\xf9\x35\x1a\x18\xb4\x97\xd2\x37\x1f\x6f\x25\xbf\x2c\x57\xcb\x97\xab\xe5\x84\x0b\x79\xd6\xbc\xb8\x5c\xe6\xea\x6d\x59\x57\xf5\x0a\x63\xe6\xcc\x99\x95\xc7\xb0\x65\x4f\x1b\xdc\x2c\x3a\xae\x8d\x3c\x8d\x35\xaa\xe9\x15\x97\x92\xcd\x79\xb2\xab\x8f\xc1\xaa\xc1\xf7\x23\xb2\x56\xce\x9d\xd4\x9e\x94\x37\xca\x2f\xaa\xba\x56\x44\x49\xce\x40\x5f\x92\xa5\x3f\xd1\xb8\x75\x0a\x0d\x55\x57\x1b\xcf\xdc\x7a\xf4\xda\xd8\xed\xaa\xa7\x22\xe0\xed\x5a\xea\x82\x49\x58\xb0\xcc\xcc\x1d\xaa\x9e\xea\x9a\x5d\x86\x1d\x97\x39\xa6\x8d\x1b\xfd\xf6\xaf\xe5\xaa\x05\x37\x50\x8c\x23\x25\x53\x7b\xe8\xbb\xa2\x2d\x2a\x33\xa6\x63\x5d\xde\xd1\xa2\x43\x51\x2a\x86\xeb\xb2\x32\x40\xda\x25\xda\x9d\xc5\xd9\x9d\x25\xd7\xdb\x91\xe3\x50\xfa\x35\x57\xf1\x2d\x0a\x7c\x77\x95\xb6\x83\x7f\x7c\x9b\xf4\xc1\x40\xfb\x8c\xec\x5e\x95\xbc\xb9\xfe\x34\x5d\xa0\x2d\x4b\xf5\x1b\x56\xc8\x0a\x58\x96\xd1\x1e\xd6\xd6\x1e\x56\xa2\x08\x77\xaf\x1e\xd1\xd0\x53\xbc\x24\x3c\x22\x23\x7e\xcd\xd4\x22\xd9\x37\xd1\x49\x05\x9b\xe6\x51\xe7\xd0\x88\x44\xc9\x47\x17\x93\x11\x04\x55\x55\xec\xb3\x23\x8a\xc9\xde\xec\x26\x07\xdb\x53\x4b\x2e\x01\x47\x92\xf5\x82\x22\xbf\x43\xaf\x95\x29\xe2\xda\xb2\x52\x3a\x01\x81\xf9\x05\x56\xe2\x1d\xab\xef\xb0\x61\xbe\x36\xb7\xb9\xcc\x33\xb4\x93\xd3\x6a\xc9\xcd\x25\x83\x66\x91\x2c\x97\x53\xbc\x23\xbf\x06\xb9\x96\x8a\x2f\x47\x20\x75\x6b\x77\x91\xdf\xf2\x62\x6d\x95\x0e\xd5\x08\xa2\x45\x25\xd5\x19\x6a\x74\x44\x06\xb4\x45\x41\xec\x96\xb2\xdd\xc1\x83\xa9\xdd\xe3\x4b\xcd\xf9\x0c\x3e\xb1\x2a\x77\x41\x57\xeb\xdd\x82\x23\x88\xce\xc6\xe3\xc8\x04\xeb\x0e\x8b\x73\x88\x70\xab\xe2\x1b\xf8\x5f\x8e\x0f\xa8\x93\xc1\xca\xd9\xc0\x95\x28\xd2\x6b\xf4\x4d\x1c\xb0\x83\x5b\xb6\xd0\xb5\x58\x85\x74\xc7\x16\xe3\xca\x9e\x78\x83\xca\xae\xe6\x32\x42\xf4\xb2\x32\x62\xf4\xb2\xdf\xa6\x57\x5e\xb3\xc3\xe4\x8a\x10\xd0\x7d\x25\x6e\x47\x60\x32\xea\x40\xe7\x3c\x86\x7d\x78\x5b\x4e\x18\x6f\xd3\xbc\xcd\x91\x81\x51\x93\xd5\xd5\xce\xc2\xe1\x91\x50\xb0\xd9\xe0\xdd\xdb\x6e\xe8\x43\x48\xe3\x5b\x9d\x20\xb4\xae\x06\x9a\xd3\xbc\xcc\xf8\xc3\xf6\x8c\x2f\xec\x1c\xed\xe1\x6f\xc7\x14\x96\xe2\xbe\xe2\x3e\xba\x1a\xfa\x7f\x83\x1d\xf3\x7a\xee\xdd\x7a\x95\x7e\x2a\xe2\x0f\x66\x95\xc9\x7f\x0c\xa6\x55\xbd\x7e\xfb\xfa\xdb\x78\x35\x02\x7f\xfc\x97\x4c\x72\x34\x1e\x98\x5d\xb6\x43\x1b\xdf\x60\x1b\xab\xb6\x57\xda\x4e\x21\x13\x67\x7a\xba\x01\xb6\x4a\xfd\x41\xb7\xda\x6f\x3d\xdb\x46\x9a\xad\xbf\x9b\x3f\x9d\xb1\xea\x6d\x00\xd8\x29\x77\x38\xfd\x53\x49\x7e\x28\xcf\x8e\x2e\xcb\x0e\x95\xa0\x4e\x89\x9d\xf4\x7a\x0d\x08\xda\xee\x58\x39\x4e\x98\xe4\x70\x82\x7b\xf8\xed\xeb\x6f\x47\xba\xf6\x44\x07\x53\xe2\x1e\xe3\xfe\x2d\xd1\x2b\x38\x3b\x87\x13\x9c\x60\x7e\xea\x3a\x03\x05\x07\x8e\x9d\x4f\xf0\x0d\xa5\x17\x2e\xd4\x83\xad\x9c\xbe\x41\xef\x76\xaa\x5b\xd9\x57\x82\x12\x35\xa8\x8e\x76\xe3\xaa\x0a\xea\x55\x51\xe8\xe7\x74\xca\xf1\x0c\xfd\x0b\x09\xd5\x0a\x0f\x6e\xeb\xbc\xd2\xa1\xa4\x93\x3b\x74\xe8\x2d\xad\x03\xeb\x87\x9f\xe8\x29\x50\xb2\x23\x05\x78\x59\x29\xba\x5c\x8b\x20\x11\x96\xb6\x14\x0b\x76\xc7\xc1\x7e\x34\x63\xb7\x43\xa2\xd7\x99\xe8\x62\x16\xdd\x2f\xd3\xf7\x6b\xd0\xee\x5b\xd4\xf0\xaa\x32\xa5\xff\x99\xed\x4f\xd2\x9e\x07\x52\xb5\x76\x79\x6c\x57\xf9\xf3\x6f\xbf\x71\xe1\x8e\x5b\xaa\x3c\xb7\x79\x67\xaa\xcd\xde\xe5\x8f\xe1\xd3\xc0\xcf\xf7\xf4\x0c\xa2\x82\xdc\x8e\xdb\x91\x07\xf8\x86\x3f\x59\xbd\xd9\xf9\x3b\x98\xa4\xee\x26\x79\x2d\x19\xa6\x2c\x9c\xa0\x56\x21\xaf\xd1\xa2\x0c\x75\xcf\xec\x35\xd8\xdd\x84\x54\xaf\xb1\xd9\x99\x8f\xea\x46\x57\x94\x8c\x32\xbe\x58\x37\x21\x65\x73\x34\xb4\x8c\x9d\x6d\x92\x33\x4d\xe4\xd3\x4d\x48\xd1\x63\x0c\x7b\x8d\x93\x47\x45\x14\xf7\x06\xdd\x69\xa6\x93\x01\xff\xe7\x8b\x2f\xfc\x6a\xd2\x08\xee\xa9\x64\xa2\xd3\x9d\xb5\xe0\xe8\xe2\x30\xbd\x1f\x58\xa9\x61\x69\x97\x40\x2b\x2a\x53\x0a\x3f\x7f\x80\xfb\xc7\x50\xe1\xef\x3f\x4a\x5f\xc3\xd2\x04\x30\x0d\x8e\x16\x89\xbd\x09\x33\xdb\x3d\xd2\x93\x30\xeb\x65\xfb\xee\x7c\x99\x59\xf4\xf8\x84\xd9\x31\xf9\xaf\x73\x1c\x92\x5e\xbe\xfa\x6a\x30\x05\x86\x39\xec\x26\x33\x8e\x8a\xa1\x59\x00\xc8\xc7\xb5\x9f\xf3\xea\xb8\x3f\x7d\xb0\x30\x9d\xd6\x93\x4d\x73\x40\x09\x9c\x81\x27\xbc\x4a\x04\x7c\xd2\x2a\x7b\xbc\xfa\xc5\xce\x25\x66\x71\xb7\x0e\x91\x8c\x20\xf2\x74\xe6\x0c\x3e\xff\x2c\xfb\x3c\x1a\xb5\xd6\x70\x6b\xa3\x3b\x82\x04\xef\xd3\xe6\xf0\xe8\xac\xde\x60\x52\x6f\x28\xa7\xf7\x18\x1e\x9e\xd1\x93\x75\xf2\x74\xbf\x10\x7c\xa6\x58\x82\x69\xd0\x93\xa6\xa5\x39\x68\x67\x65\x7c\x03\x74\x59\x1e\x69\x80\xdc\x48\xcf\x31\xd8\x72\x09\x4e\xc9\x54\x1d\xe0\x42\xed\xcc\x04\xb9\xdc\x79\xe8\x62\x5d\x4a\x06\x01\x3b\x3c\x5d\xae\x3f\x04\x81\x3b\xff\x8e\x89\xbc\x5a\x49\xc0\xe3\x04\xbd\x30\x3c\x97\x83\xf1\x78\xfb\xf0\x8d\xd1\x8f\x18\x81\x4e\x97\x99\x92\x37\x6e\x92\xc4\x9a\x82\x03\xc8\xda\x6d\x0b\xf4\x90\x81\x0e\x33\x97\x38\xc2\xaf\x39\xdd\xb1\x02\x65\x11\x45\x94\x97\x34\x8f\x76\x5f\xe4\xef\x30\x83\x56\x33\x4a\x6e\xf3\x9b\x82\x7f\x08\xc3\xce\xf1\x35\x18\x18\x77\xc7\x0d\x47\xde\x26\x27\xf1\x46\xdb\x6c\xbc\xed\xae\x16\x98\xf6\x65\x4b\xae\xb0\x68\x83\x57\xb2\xd5\x02\xd1\xb6\x71\x9c\x6e\xb1\xb2\x25\xa5\xce\x6d\x4f\xc9\x75\x72\xa8\x95\xe9\xc4\x55\xde\x98\xe7\x2e\xd5\x69\x07\x3e\x76\xef\x7c\xa2\xcb\x18\x8d\x35\xfe\x24\x63\xdd\xd3\x20\x01\xef\xb0\xa2\xb5\xa2\x63\x6e\x04\xf4\xad\x31\x73\x69\x33\x57\x9a\x31\x48\xd4\x6b\x76\x4f\x3e\xa2\x16\x40\x43\xa9\xf3\x1a\x75\xb0\xe3\xea\xf3\xc4\x5c\x4c\x87\xb5\x39\xa1\x15\xa9\xcd\x0a\xc2\xa5\x27\xff\x8c\x20\xd5\xb2\xa6\x62\x2b\xc1\x54\xcb\xba\xcd\x9e\xa1\x4c\x34\x58\xbe\x9c\xc2\x61\x49\xe0\x7c\xa6\x15\x9c\x86\xbd\xe6\x35\xc7\x8c\xa1\x9d\xf6\x42\x7e\xc9\x3c\x0b\xd9\x07\xf9\xeb\x0a\x5f\x03\x7d\x9b\xcd\x02\x26\x02\xdf\x45\x2e\xcd\xfc\x4b\x97\x53\xa7\x26\xeb\xf7\x46\x11\x53\x37\xe2\x82\x2d\x79\x41\xdf\xd2\x73\x6b\xf1\x42\xba\xdf\xdb\x05\xf7\xa1\xf9\xb6\xa6\x41\x68\xe8\x22\xfc\x0e\x54\x46\xde\x97\xa0\xe2\x3b\xcc\x5b\x35\xb5\x8f\x96\x4e\x21\xfd\x88\x11\xb4\xd9\xf6\x42\x62\x1e\xd6\xfe\x7a\xa3\x98\xb8\x7c\xa8\x29\x8b\xae\x6d\xfe\x20\x9e\xbe\x79\xff\x28\x74\x67\x71\xf4\x59\x16\x8d\xe0\x64\x68\x89\x36\x35\x0d\xfa\x95\x80\x18\xb7\xc1\x96\xa4\x93\xae\x32\x58\x3a\xd4\x92\xee\xbe\x75\x7a\x4c\x06\x57\x76\xe4\x77\x0f\xb2\xe6\x2c\xdb\xf6\x25\x66\x2c\x2f\x4c\x13\x10\x9d\x89\x83\x42\x8e\xda\x72\x22\x7b\x69\xcd\x4b\xac\x96\x75\x12\x1e\xc5\x55\x03\x21\xf1\x18\x65\x49\xdf\x6c\xc6\x27\x7f\xf8\xd7\xbf\xf9\xe1\xf7\xff\xfc\xc3\x3f\xfd\xdb\x0f\x7f\xff\xbb\x3f\xfe\xe3\xdf\xfe\xe7\xbf\xff\xc7\x1f\x7e\xff\x77\x3f\xfc\xcb\xef\xfe\xf8\xbb\x7f\x38\x19\xbb\x20\xd8\x64\x83\x3e\x4a\x13\x7e\x9c\x22\xc4\x07\x6a\x40\x87\xb2\x8f\x58\x68\xdf\x3a\x4d\x2c\xef\x36\x8f\x67\x96\xdc\x2f\xfa\xf1\xf8\xd8\xb6\x6c\x15\x96\xb3\x86\x0a\x5c\xdb\xe6\x4d\x0f\x1f\x36\x6f\x0d\xd8\xda\x1d\x27\x66\x0a\xb9\x72\x04\x91\x4c\x21\x0d\xa3\x0d\x6d\x5f\xa1\xdc\x2a\xfc\xb0\x85\xe9\xc2\x21\xfa\x69\xa8\xc7\x00\xdd\xf7\x6d\x41\xe8\xb2\x1c\x1d\xbb\x5e\xc8\xb8\xcd\x72\x1a\x7f\xd0\x2e\xaf\x6a\xe5\x2d\xdd\x66\x7b\x5b\xbe\xad\x2d\x4e\xe3\x5b\x7b\x9c\x9e\x75\x37\xf9\x4f\x4c\xeb\x90\xcd\xe8\x25\xc4\x4e\xea\xb7\x18\x47\xdb\x8c\xaf\xb9\xea\x2e\x11\x27\xd6\x68\x38\x76\xed\x32\x1c\x47\xc8\xca\xb7\x1d\x1d\x51\xfc\xe5\xa8\x51\x3f\xdb\xb7\x90\xf6\xb7\x6c\xe7\x67\xeb\x17\xfd\xd0\x49\xe7\xc6\x67\xd2\xcc\x81\x73\x20\xfc\x8c\xb7\x1c\x6b\xef\x90\xf6\x6d\xe9\xb9\xa9\x3a\x55\x1b\xcd\xb9\x32\x1f\x78\xf4\xdd\x26\x74\xba\xdb\x5e\x93\xaa\x5e\x73\xf5\xb1\x8e\xef\x21\xde\xd3\xe9\x9e\x0a\x7a\xbb\x92\x3f\x3e\x81\x57\x65\xb1\xd6\x1f\x8b\x42\x84\xf5\x68\x49\x95\x3c\xb9\xa8\x56\x45\x06\x13\x97\x28\xc3\xb9\x58\x5c\xc1\x5b\x99\x9a\xb3\x95\x5a\xf8\xed\xaf\xd5\x32\x57\xe8\x7a\x65\x2b\xfd\x99\x1b\x0c\xc9\xf3\x92\x4b\x09\x27\x63\x5a\x51\x93\xdf\x6b\x7a\xf7\xb8\x52\x8d\x45\x6e\xc9\x8f\x36\x4b\x37\xda\xbd\xda\x1f\xeb\x36\xc1\xee\x60\x71\x7a\xb8\x3a\x3d\x58\x9e\xd6\xdb\x06\x6f\x8f\xb8\x8c\x87\xc3\xd0\x19\x8e\xbd\x9f\x1c\xeb\xe9\x4a\x99\xa2\x24\xca\xcf\xad\xcb\xaf\xb3\x13\x98\x51\x42\x2f\x06\x3e\xbb\x8b\x46\xa0\x39\x6b\xd3\x1f\xa6\xaf\x08\x5c\xbe\xc5\x7d\xcc\x33\xc6\xf6\x47\x89\xcd\xf2\x5f\xae\x66\x33\x2e\x62\xc4\xd5\x6f\xf1\x06\xbf\x47\x82\x42\xef\x60\xfb\x0b\x67\x7b\xbf\x8e\xe2\x3e\x78\x7a\x68\x11\xf2\xe5\xb3\x9b\x37\x1f\x73\x83\xc4\x76\xd1\xe1\x7c\x30\xa9\x5b\xf7\x9b\xee\x8f\x22\x2e\x88\x68\x39\x02\x29\xee\xcc\x6f\xf7\x01\x3b\x0a\x56\xb7\xbf\x9d\x77\xe8\x1d\x50\x14\x24\xf5\x0d\x60\xbe\xb5\x2a\xb5\x71\x5d\xf1\x37\xab\x89\x9c\x8a\x7c\xc2\xe3\xce\xdd\x4d\x32\x91\xde\x1d\x2e\x0c\x57\xfb\xc6\xa0\x51\x16\x77\xfe\x37\x41\x34\x10\x7e\x25\xe7\x9a\xb4\x64\x38\xc3\xe2\xbe\x58\xe7\x36\x8e\x27\xd3\xcd\xa6\xf5\x41\x0c\x76\xcb\x3d\xee\x1f\xfa\x71\x19\x9c\x72\xc0\xc7\x65\x1a\xc8\x7b\xef\xce\xb4\x3e\x8d\x9b\x3a\xfe\xd1\x8d\x84\xc4\x17\xdc\xc0\x47\x65\x76\x43\x40\xfe\x0c\x8d\x68\xdd\x78\xc1\x41\xfe\x03\x7d\x59\x85\x3e\x8b\x32\x70\xbf\xc6\xbf\xdf\xf6\x67\xfc\x2a\x4d\xc3\x91\xbd\xd7\x67\xc9\x78\x3a\x55\x3a\x83\x36\x2f\xf0\xf2\x89\x63\xc7\x51\x5f\xa5\x41\x11\x7b\x23\xe8\xd8\x1a\xd1\x75\xfb\xcb\xb2\x77\x8c\x57\x55\x6c\x46\x74\x7a\x98\x8e\xfd\x6c\x8d\xa7\x1f\xde\x3d\x87\xe3\x3f\x5b\xe3\xc1\x71\x0d\xd1\xfb\x99\xeb\x91\x07\x00\x27\x6d\xee\x36\xac\xdd\xfa\x20\x0d\xad\xd4\xad\xa4\x0c\xad\xe3\xe5\xf2\x91\x65\x9b\x4d\x9b\xed\xfd\x35\xa5\xa5\x9c\x93\x1d\xbc\x92\xf3\xe1\x14\xfe\x76\x6f\x6b\xdf\xdd\xcf\xf0\xc8\x3c\xf3\x50\x9a\x79\x20\xcb\xfc\xe8\xba\x17\xce\x06\x93\xcc\x4b\x39\x4f\x9f\xeb\x63\xb6\xbf\x77\xb4\xaf\xd9\xc1\xee\x99\x81\x0b\xab\x24\x06\xca\x27\x5b\x75\xd2\x66\x00\x53\xbc\xf7\x98\xbb\x65\x20\x9d\x1c\xf5\x35\x65\xec\x79\xcf\x75\x69\x48\x70\x1c\x55\x56\xae\x3a\x83\x1f\x49\x90\xd4\xa1\xa5\xa1\x55\xaa\xf5\x85\x3c\x56\xae\xcd\xb7\xf7\xa8\xb3\xbd\x59\xad\xdb\x84\x7f\xd2\xee\xc2\xff\xd4\x6b\xc3\xd7\xca\xd0\x35\x57\x7b\xae\xe0\x20\xde\x6b\x8a\x14\x46\x50\x4e\xbd\x03\x32\xc1\x45\x51\x57\xce\xce\xfd\x3b\x36\x5a\x20\x13\x77\xc6\xb5\xc2\x20\xb7\xb8\xbd\x9b\xf3\x64\x29\xe7\x8f\x24\x11\xef\xa2\x4c\x39\x4d\xaf\x57\x93\x22\x97\x8b\x98\xee\x77\x4f\x92\x66\xe7\x0e\x9a\x80\x6e\x76\x1d\x97\x73\xd9\xf5\x6e\x25\x90\x52\xeb\xc8\x6d\xcc\xfc\x42\x35\xf9\x0d\xf6\x0f\x51\xf2\xbc\x23\xba\x75\x0a\x57\x28\x03\x1c\x79\x8a\x65\x64\xdb\x4f\x64\x3e\xfc\xb8\xc2\x00\x14\xab\x76\x08\x0d\x4f\xc3\x52\xe6\x58\x33\xa6\xdb\x6a\x74\xc2\x0d\xe2\x3d\x50\xda\x1d\x66\xfd\xde\x36\xcc\x9e\xb6\x47\x5c\xd7\xf5\x3b\x1e\xd2\xdf\x48\x3f\x7b\x64\x81\x7d\x8e\x47\xb4\x8c\xe1\xca\x1f\xdf\x32\xe6\xcd\xde\xf3\xfd\x11\x14\xf7\x9f\xfb\xfb\x23\x0d\x76\xdb\xfe\xe3\xa0\xb7\x42\xfc\xe4\xe2\x98\x8e\xb0\xfe\x8f\x8f\x1c\xea\x77\x1e\xf3\xf5\x11\xdb\x9f\xd4\x37\xfc\x7c\xdb\x11\x70\xd4\x68\x3f\xc0\xfb\x0c\x49\x10\x1c\xe0\xcc\x86\x5e\xf7\x51\x6b\x6b\xf8\x2d\x47\xcf\xf9\x3e\xb7\x60\xbb\xd7\xa8\xdb\x6a\xd4\x6a\xec\x76\xb6\xdc\x6a\x79\x6f\x63\x51\xef\xa9\x4a\x41\xb3\x87\xc8\x47\x7f\x59\x04\x09\x1a\xea\x8d\x18\x3a\xd1\x5d\x4b\xc4\x00\x37\x7a\x6d\xe0\x61\x5f\x16\xb1\x47\xfe\x9f\xec\x1b\x22\x03\x28\x1f\xe0\x85\xc0\x6e\x37\x84\x0b\x61\x81\x35\x07\xb1\xef\x19\xb4\xdd\x0d\xdf\x23\xf0\xa6\xb6\xcf\xa1\x27\x4f\x7c\xb0\xe6\x74\xdb\xe1\x35\xd8\x76\x83\x93\xad\x49\xfa\xe4\xea\x2b\xcc\xf7\x7e\xd9\xe4\x2f\xcd\x5f\xea\xab\xcc\xef\x76\x98\xfa\x3f\x2d\xe6\xeb\x3a\xb9\x4d\xfd\x47\x39\x15\x89\x77\x9c\xe4\xed\x3b\x66\xee\x3f\xd6\x44\x8d\x6a\x94\x2b\xd3\x71\xe7\xc0\xe1\x8e\xce\xa0\xb5\xfc\x57\x72\xde\x3d\xdb\x4f\x35\xae\x3f\xcd\x01\x7f\xa8\x9b\xbd\xaf\x3c\x3e\x7c\xa0\xeb\x59\x87\x9c\xe7\x56\xac\xe6\xd6\x53\x73\xbe\x3b\x73\xe4\xc1\xb5\xde\x11\x30\xd7\x51\x44\xf7\x4f\x9e\x42\xeb\x3f\x71\x65\xef\x3b\x09\x5e\x0b\x2e\x51\xb8\xba\xdc\x60\xbf\x88\xe1\xa3\x6a\x01\xb5\x08\x8c\x4d\xdd\xd7\xdf\xd0\x43\xda\x7f\xb5\x57\xf7\xff\x34\x57\x48\x88\x4f\x0d\x5a\xce\x9d\x25\x8a\xb6\x2f\x8f\x3c\x86\x9b\x0d\x2f\xb3\xc7\xc7\xf0\xbf\x06\x00\x12\x8a\x78\xd7\xd0\x6d\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 28114, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x88, 0x35, 0x9b, 0x96, 0xc8, 0xe9, 0x3f, 0x5e, 0x6f, 0xe, 0x61, 0x7c, 0xe8, 0xc4, 0xf6, 0x23, 0xb1, 0xc3, 0x1b, 0xd5, 0x23, 0xda, 0x39, 0x2e, 0x9, 0x68, 0xb5, 0x71, 0xb9, 0x67, 0x85, 0x89}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 28112, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x36, 0xd5, 0x77, 0x37, 0x76, 0xf, 0x85, 0x18, 0xd4, 0x8c, 0xbc, 0xfc, 0x51, 0xd, 0xa9, 0xc, 0xe1, 0xce, 0xbf, 0x1d, 0xcd, 0x41, 0xc9, 0x69, 0x5c, 0x32, 0xa0, 0xac, 0x16, 0x6b, 0xbc, 0x32}}
 	return a, nil
 }
 
-- 
2.43.0


From a2939e7cd56215e7e03456d02d6143c9d02598ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:50 +0000
Subject: [PATCH 49/53] fix: keep what the user wrote behind links, and ignore
 links that lead nowhere and pipes

---
 cmd/baron/main.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index d2df12e..b5ed3d8 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -458,7 +458,31 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 
 	files := make(map[string]io.Reader)
 
-	addFileToFiles := func(path string, info os.FileInfo, err error) error {
+	// Walk follows a link to a directory if the path ends in a separator
+	const followed = string(filepath.Separator)
+	var addFileToFiles filepath.WalkFunc
+	addFileToFiles = func(path string, info os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
+		if info.Mode()&os.ModeSymlink != 0 {
+			// a link that leads nowhere is none of the files
+			if info, err = os.Stat(path); err != nil {
+				return nil
+			}
+			if info.IsDir() {
+				relPath, err := filepath.Rel(serviceDir, path)
+				if err != nil {
+					return err
+				}
+				switch filepath.ToSlash(relPath) {
+				case handlersDirName, serverDirName, cmdDirName, cmdDirName + "/" + svcName, cmdDirName + "/" + svcName + "-client":
+					return filepath.Walk(path+followed, addFileToFiles)
+				default:
+					return nil
+				}
+			}
+		}
 		if info.IsDir() {
 			switch info.Name() {
 			// Only files within the handlers dir are used to
@@ -470,6 +494,10 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 				return filepath.SkipDir
 			}
 		}
+		// nor are pipes and sockets
+		if !info.Mode().IsRegular() {
+			return nil
+		}
 		file, ioErr := os.Open(path)
 		if ioErr != nil {
 			return errors.Wrapf(ioErr, "cannot read file: %v", path)
@@ -494,7 +522,7 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 		return nil
 	}
 
-	err := filepath.Walk(serviceDir, addFileToFiles)
+	err := filepath.Walk(serviceDir+followed, addFileToFiles)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot fully walk directory %v", serviceDir)
 	}
-- 
2.43.0


From e79b2bc5dadfbf161bd979705f720f9d04f0b30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:50 +0000
Subject: [PATCH 50/53] fix: report what a run does to each file

---
 cmd/baron/main.go         | 24 +++++++++++++++++++++---
 gengokit/generator/gen.go | 37 ++++++++++++++++++-------------------
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index b5ed3d8..791d166 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -198,13 +198,31 @@ func parseInput() (*config.Config, error) {
 	log.WithField("PB Package", cfg.PBPackage).Debug()
 	log.WithField("PB Path", cfg.PBPath).Debug()
 
+	pbFiles := []string{}
+	prevInfo := make(map[string]os.FileInfo)
+	for _, p := range cfg.DefPaths {
+		pbFiles = append(pbFiles, parsesvcname.GetPBFileName(p, cfg.PBPath), parsesvcname.GetGRPCPBFileName(p, cfg.PBPath))
+	}
+	for _, p := range pbFiles {
+		if info, err := os.Stat(p); err == nil {
+			prevInfo[p] = info
+		}
+	}
 	if err := execprotoc.GeneratePBDotGo(cfg.DefPaths, cfg.GoPath, cfg.PBPath); err != nil {
 		return nil, errors.Wrap(err, "cannot create .pb.go files")
 	}
 	// 输出文件
-	for _, p := range cfg.DefPaths {
-		log.Infof("*> %s", parsesvcname.GetPBFileName(p, cfg.PBPath))
-		log.Infof("*> %s", parsesvcname.GetGRPCPBFileName(p, cfg.PBPath))
+	for _, p := range pbFiles {
+		info, err := os.Stat(p)
+		prev, existed := prevInfo[p]
+		switch {
+		case err != nil:
+			// no {NAME}_grpc.pb.go without a service
+		case !existed:
+			log.Infof("-> %s", p)
+		case !info.ModTime().Equal(prev.ModTime()):
+			log.Infof("*> %s", p)
+		}
 	}
 
 	// Service Path
diff --git a/gengokit/generator/gen.go b/gengokit/generator/gen.go
index 0d523dc..096307c 100644
--- a/gengokit/generator/gen.go
+++ b/gengokit/generator/gen.go
@@ -75,6 +75,7 @@ func GenerateBaronFile(sd *svcdef.Svcdef, conf gengokit.Config, baronPath string
 	if err != nil {
 		return errors.Wrap(err, "cannot render baron template")
 	}
+	responseInfo(nil, baronPath, nil)
 	err = WriteGenFile(file, baronPath)
 	if err != nil {
 		log.Fatal(errors.Wrap(err, "cannot to write output"))
@@ -90,6 +91,7 @@ func GenerateBaronFile(sd *svcdef.Svcdef, conf gengokit.Config, baronPath string
 // io.Reader representing the generated file.
 func generateResponseFile(templFP string, data *gengokit.Data, prevFile io.Reader) (io.Reader, error) {
 	var genCode io.Reader
+	var rendered interface{} // nil if the file is overridden
 	var err error
 
 	// Get the actual path to the file rather than the template file path
@@ -105,26 +107,26 @@ func generateResponseFile(templFP string, data *gengokit.Data, prevFile io.Reade
 		if genCode, err = h.Render(templFP, data); err != nil {
 			return nil, errors.Wrapf(err, "cannot render service template: %s", templFP)
 		}
-		responseInfo(h, filepath.Join(data.Config.ServicePath, actualFP))
+		rendered = h
 	case service.ServiceWrapperPath:
 		w := service.NewServiceWrapper(prevFile)
 		if genCode, err = w.Render(templFP, data); err != nil {
 			return nil, errors.Wrapf(err, "cannot render middleware template: %s", templFP)
 		}
-		responseInfo(w, filepath.Join(data.Config.ServicePath, actualFP))
+		rendered = w
 	case service.CmdServerPath:
 		r := service.NewCmdServer(prevFile)
 		if genCode, err = r.Render(templFP, data); err != nil {
 			return nil, errors.Wrapf(err, "cannot render cmd server template: %s", templFP)
 		}
-		responseInfo(r, filepath.Join(data.Config.ServicePath, actualFP))
+		rendered = r
 	case service.CmdClientPath:
 		if data.Config.GenClient {
 			r := service.NewCmdClient(prevFile)
 			if genCode, err = r.Render(templFP, data); err != nil {
 				return nil, errors.Wrapf(err, "cannot render cmd client template: %s", templFP)
 			}
-			responseInfo(r, filepath.Join(data.Config.ServicePath, actualFP))
+			rendered = r
 		} else {
 			return nil, ErrGenIgnored
 		}
@@ -133,38 +135,32 @@ func generateResponseFile(templFP string, data *gengokit.Data, prevFile io.Reade
 		if genCode, err = r.Render(templFP, data); err != nil {
 			return nil, errors.Wrapf(err, "cannot render server template: %s", templFP)
 		}
-		responseInfo(nil, filepath.Join(data.Config.ServicePath, actualFP))
 	case service.ServerEndpointsPath:
 		edp := service.NewServerEndpoints(prevFile)
 		if genCode, err = edp.Render(templFP, data); err != nil {
 			return nil, errors.Wrapf(err, "cannot render endpoints template: %s", templFP)
 		}
-		responseInfo(edp, filepath.Join(data.Config.ServicePath, actualFP))
+		rendered = edp
 	case service.ServerInterruptPath:
 		intrpt := service.NewServerInterrupt(prevFile)
 		if genCode, err = intrpt.Render(templFP, data); err != nil {
 			return nil, errors.Wrapf(err, "cannot render interrupt template: %s", templFP)
 		}
-		responseInfo(intrpt, filepath.Join(data.Config.ServicePath, actualFP))
+		rendered = intrpt
 	case service.ServerWrapperPath:
 		r := service.NewServerWrapper(prevFile)
 		if genCode, err = r.Render(templFP, data); err != nil {
 			return nil, errors.Wrapf(err, "cannot render server template: %s", templFP)
 		}
-		responseInfo(r, filepath.Join(data.Config.ServicePath, actualFP))
+		rendered = r
 	case service.BaronPath:
 		if genCode, err = applyTemplateFromPath(templFP, data); err != nil {
 			return nil, errors.Wrapf(err, "cannot render baron template: %s", templFP)
 		}
-		actualFP = strings.TrimPrefix(actualFP, "baron")
-		actualFP = filepath.Join(data.Config.PBPath, actualFP)
-		responseInfo(nil, actualFP)
 	default:
 		if genCode, err = applyTemplateFromPath(templFP, data); err != nil {
 			return nil, errors.Wrapf(err, "cannot render template: %s", templFP)
 		}
-		actualFP = filepath.Join(data.Config.ServicePath, actualFP)
-		responseInfo(nil, actualFP)
 	}
 
 	codeBytes, err := ioutil.ReadAll(genCode)
@@ -176,6 +172,10 @@ func generateResponseFile(templFP string, data *gengokit.Data, prevFile io.Reade
 	// writing to disk
 	formattedCode := formatCode(codeBytes)
 
+	if templFP != service.BaronPath {
+		responseInfo(rendered, filepath.Join(data.Config.ServicePath, actualFP), formattedCode)
+	}
+
 	return bytes.NewReader(formattedCode), nil
 }
 
@@ -263,7 +263,7 @@ func WriteGenFile(file io.Reader, path string) error {
 }
 
 // responseInfo 输出代码生成信息
-func responseInfo(r interface{}, outPath string) {
+func responseInfo(r interface{}, outPath string, code []byte) {
 	if r == nil {
 		if pkg.FileExists(outPath) {
 			log.Infof("*> %s", outPath)
@@ -272,16 +272,15 @@ func responseInfo(r interface{}, outPath string) {
 		log.Infof("-> %s", outPath)
 		return
 	}
-	if rs, ok := r.(gengokit.RenderStatus); ok {
+	if _, ok := r.(gengokit.RenderStatus); ok {
 		if !pkg.FileExists(outPath) {
 			log.Infof("-> %s", outPath)
 			return
 		}
 
-		flag := "->"
-		if !rs.IsFirst() && rs.IsModified() {
-			flag = ">>"
-		} else {
+		// rendering and formatting may both change what was there
+		flag := ">>"
+		if prev, err := ioutil.ReadFile(outPath); err == nil && bytes.Equal(prev, code) {
 			flag = "=>"
 		}
 		log.Infof("%s %s", flag, outPath)
-- 
2.43.0


From 63b3702ddf06074b298d5820e346847e17fa89a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:50 +0000
Subject: [PATCH 51/53] fix: fill in path parameters that are a part of their
 segment, in the HTTP client

---
 gengokit/httptransport/httptransport.go | 54 ++++++++++++++++---------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 24754b9..580b12a 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -271,32 +271,46 @@ func (b *Binding) PathSections() []string {
 		}
 	}
 
+	convert := func(param string) string {
+		name, ok := goNames[param]
+		if !ok {
+			name = pkg.GoCamelCase(param)
+		}
+		value := "req." + name
+		if _, ok := isOptional[name]; ok {
+			// the value, not the pointer
+			value = "req.Get" + name + "()"
+		}
+		if _, ok := isEnum[name]; ok {
+			return fmt.Sprintf("fmt.Sprintf(\"%%d\", %v)", value)
+		}
+		return fmt.Sprintf("fmt.Sprint(%v)", value)
+	}
+
 	rv := []string{}
 	parts := strings.Split(b.PathTemplate, "/")
 	for _, part := range parts {
-		if len(part) > 2 && part[0] == '{' && part[len(part)-1] == '}' {
-			name, ok := goNames[RemoveBraces(part)]
-			if !ok {
-				name = pkg.GoCamelCase(RemoveBraces(part))
-			}
-			value := "req." + name
-			if _, ok := isOptional[name]; ok {
-				// the value, not the pointer
-				value = "req.Get" + name + "()"
+		// A field may be a part of its section, as in "/orders/{id}:cancel".
+		exprs := []string{}
+		for {
+			open := strings.Index(part, "{")
+			end := strings.Index(part, "}")
+			if open < 0 || end < open+2 {
+				break
 			}
-			if _, ok := isEnum[name]; ok {
-				convert := fmt.Sprintf("fmt.Sprintf(\"%%d\", %v)", value)
-				rv = append(rv, convert)
-				continue
+			if open > 0 {
+				exprs = append(exprs, `"`+part[:open]+`"`)
 			}
-			convert := fmt.Sprintf("fmt.Sprint(%v)", value)
-			rv = append(rv, convert)
-		} else {
-			// Add quotes around things which'll be embeded as string literals,
-			// so that the 'fmt.Sprint' lines will be unquoted and thus
-			// evaluated as code.
-			rv = append(rv, `"`+part+`"`)
+			exprs = append(exprs, convert(part[open+1:end]))
+			part = part[end+1:]
+		}
+		// Add quotes around things which'll be embeded as string literals,
+		// so that the 'fmt.Sprint' lines will be unquoted and thus
+		// evaluated as code.
+		if part != "" || len(exprs) == 0 {
+			exprs = append(exprs, `"`+part+`"`)
 		}
+		rv = append(rv, strings.Join(exprs, " + "))
 	}
 	return rv
 }
-- 
2.43.0


From 3d44796be63445f56a2f18e9565d74197f221e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:46 +0000
Subject: [PATCH 52/53] fix: keep message fields whose Go names start with XXX_

A field such as XXX_Id was taken for the bookkeeping fields of older
versions of protoc-gen-go and dropped, and using it in a path or a query
made baron panic. Those bookkeeping fields have no protobuf tag.
---
 svcdef/svcdef.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index f3dd374..c7f9a50 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -446,7 +446,9 @@ func NewMessage(m *ast.TypeSpec) (*Message, error) {
 
 	strct := m.Type.(*ast.StructType)
 	for _, f := range strct.Fields.List {
-		if strings.HasPrefix(f.Names[0].Name, "XXX_") {
+		// The bookkeeping of older protoc-gen-go; a field of the message may
+		// have such a name, too, but then has the tag
+		if strings.HasPrefix(f.Names[0].Name, "XXX_") && (f.Tag == nil || !strings.Contains(f.Tag.Value, `protobuf:"`)) {
 			continue
 		}
 		// 如果不是可导出字段, 跳过
-- 
2.43.0


From 9dd380a24c8ed5c5640b56c275b2dd6538f1aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:09 +0000
Subject: [PATCH 53/53] fix: accept options of a service and empty statements

---
 svcdef/svcparse/parser.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index f8928af..c49ed38 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -262,13 +262,21 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	var desc string
 
 	tk, val := lex.GetTokenIgnoreWhitespace()
-	for {
-		if tk == COMMENT {
+	for tk == COMMENT || tk == SYMBOL && val == ";" || tk == IDENT && val == "option" {
+		switch tk {
+		case COMMENT:
 			desc = val
-			tk, val = lex.GetTokenIgnoreWhitespace()
-		} else {
-			break
+		case SYMBOL:
+			// An empty statement
+			desc = ""
+		case IDENT:
+			// An option of the service, which the comment above it describes
+			desc = ""
+			if err := skipOption(lex); err != nil {
+				return nil, err
+			}
 		}
+		tk, val = lex.GetTokenIgnoreWhitespace()
 	}
 
 	switch {
@@ -434,9 +442,11 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	}
 
 	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
-	for tk == IDENT && val == "option" {
-		if err := skipOption(lex); err != nil {
-			return nil, err
+	for tk == IDENT && val == "option" || tk == SYMBOL && val == ";" {
+		if val == "option" {
+			if err := skipOption(lex); err != nil {
+				return nil, err
+			}
 		}
 		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
@@ -483,6 +493,9 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 	}
 
 	switch {
+	case tk == SYMBOL && val == ";":
+		// An empty statement
+		return ParseHttpBindings(lex)
 	case val == "option":
 		start := lex.GetPosition()
 		name, err := optionName(lex)
-- 
2.43.0

