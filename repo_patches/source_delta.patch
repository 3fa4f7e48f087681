From 0d68d1d4c3e464dd63f5221f10976a2387c34659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 1/5] fix: accept and keep non-ASCII characters above U+FFFF

The lexer's UTF8NonAscii token stopped at U+FFFF. RFC 6532 allows every
UTF-8 non-ASCII character; the lexer dropped the others silently, so that
an address such as user<U+1F600>@example.com was returned as user@example.com.
---
 RFC5322Lexer.g4         | 2 +-
 parser/rfc5322_lexer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RFC5322Lexer.g4 b/RFC5322Lexer.g4
index 16d8081..270eea9 100644
--- a/RFC5322Lexer.g4
+++ b/RFC5322Lexer.g4
@@ -51,7 +51,7 @@ Tilde:            '~';      // \u007E
 Delete: '\u007F';
 
 // RFC6532 Extension
-UTF8NonAscii: '\u0080'..'\uFFFF';
+UTF8NonAscii: '\u0080'..'\u{10FFFF}';
 
 A: 'A'|'a';
 B: 'B'|'b';
diff --git a/parser/rfc5322_lexer.go b/parser/rfc5322_lexer.go
index db7a8f1..a6fa807 100644
--- a/parser/rfc5322_lexer.go
+++ b/parser/rfc5322_lexer.go
@@ -180,7 +180,7 @@ func rfc5322lexerLexerInit() {
 		216, 76, 1, 0, 0, 0, 217, 218, 5, 123, 0, 0, 218, 78, 1, 0, 0, 0, 219,
 		220, 5, 124, 0, 0, 220, 80, 1, 0, 0, 0, 221, 222, 5, 125, 0, 0, 222, 82,
 		1, 0, 0, 0, 223, 224, 5, 126, 0, 0, 224, 84, 1, 0, 0, 0, 225, 226, 5, 127,
-		0, 0, 226, 86, 1, 0, 0, 0, 227, 228, 2, 128, 65535, 0, 228, 88, 1, 0, 0,
+		0, 0, 226, 86, 1, 0, 0, 0, 227, 228, 2, 128, 1114111, 0, 228, 88, 1, 0, 0,
 		0, 229, 230, 7, 1, 0, 0, 230, 90, 1, 0, 0, 0, 231, 232, 7, 2, 0, 0, 232,
 		92, 1, 0, 0, 0, 233, 234, 7, 3, 0, 0, 234, 94, 1, 0, 0, 0, 235, 236, 7,
 		4, 0, 0, 236, 96, 1, 0, 0, 0, 237, 238, 7, 5, 0, 0, 238, 98, 1, 0, 0, 0,
-- 
2.43.0


From 02696f899a14daf414b41b29d5c5e8b948d9a149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 2/5] fix: keep white space at the end of a quoted string

RFC5322 3.2.4: the quoted-string is what is contained between the two quote
characters. The FWS before the closing quote was dropped, so that "a "@b and
"a"@b were parsed as the same address.
---
 quoted_string.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quoted_string.go b/quoted_string.go
index 08410c7..c4878c5 100644
--- a/quoted_string.go
+++ b/quoted_string.go
@@ -12,6 +12,11 @@ func (s *quotedString) withQuotedValue(quotedValue *quotedValue) {
 	s.value = quotedValue.value
 }
 
+// withFws collects the white space between the last quoted content and the closing quote.
+func (s *quotedString) withFws(fws *fws) {
+	s.value += fws.value
+}
+
 func (w *walker) EnterQuotedString(ctx *parser.QuotedStringContext) {
 	w.enter(&quotedString{})
 }
-- 
2.43.0


From 6e5f36b8a88b79f663eccbc1065bc3b18da83a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 3/5] fix: do not return the CRLF of a folded line

RFC5322 2.2.3 and 3.2.4: the CRLF of folding white space is semantically
invisible. Inside a quoted string or a domain literal it ended up in the
returned name or address.
---
 domain_literal.go | 5 ++++-
 fws.go            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/domain_literal.go b/domain_literal.go
index 31b37bc..b95f53a 100644
--- a/domain_literal.go
+++ b/domain_literal.go
@@ -1,6 +1,8 @@
 package rfc5322
 
 import (
+	"strings"
+
 	"github.com/ProtonMail/go-rfc5322/parser"
 )
 
@@ -9,8 +11,9 @@ type domainLiteral struct {
 }
 
 func (w *walker) EnterDomainLiteral(ctx *parser.DomainLiteralContext) {
+	// The CRLF of a folded line is not part of the value, see RFC5322 2.2.3.
 	w.enter(&domainLiteral{
-		value: ctx.GetText(),
+		value: strings.ReplaceAll(ctx.GetText(), "\r\n", ""),
 	})
 }
 
diff --git a/fws.go b/fws.go
index 3ece8b2..3b5c9ba 100644
--- a/fws.go
+++ b/fws.go
@@ -1,6 +1,8 @@
 package rfc5322
 
 import (
+	"strings"
+
 	"github.com/ProtonMail/go-rfc5322/parser"
 )
 
@@ -9,8 +11,9 @@ type fws struct {
 }
 
 func (w *walker) EnterFws(ctx *parser.FwsContext) {
+	// The CRLF of a folded line is not part of the value, see RFC5322 2.2.3 and 3.2.4.
 	w.enter(&fws{
-		value: ctx.GetText(),
+		value: strings.ReplaceAll(ctx.GetText(), "\r\n", ""),
 	})
 }
 
-- 
2.43.0


From 17b531325205a43068ed06f262c1df0888f74d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 4/5] fix: keep the character of an obsolete quoted pair

A backslash followed by NUL, CR, LF or another control character (obs-qp) was
accepted and then dropped from the value: "a\^Ab"@c was returned as ab@c.
---
 obs_qp.go      | 29 +++++++++++++++++++++++++++++
 quoted_pair.go |  4 ++++
 2 files changed, 33 insertions(+)
 create mode 100644 obs_qp.go

diff --git a/obs_qp.go b/obs_qp.go
new file mode 100644
index 0000000..4a6bbcc
--- /dev/null
+++ b/obs_qp.go
@@ -0,0 +1,29 @@
+package rfc5322
+
+import (
+	"strings"
+
+	"github.com/ProtonMail/go-rfc5322/parser"
+)
+
+type obsQP struct {
+	value string
+}
+
+func (w *walker) EnterObsQP(ctx *parser.ObsQPContext) {
+	w.enter(&obsQP{
+		value: strings.TrimPrefix(ctx.GetText(), `\`),
+	})
+}
+
+func (w *walker) ExitObsQP(ctx *parser.ObsQPContext) {
+	type withObsQP interface {
+		withObsQP(*obsQP)
+	}
+
+	res := w.exit().(*obsQP)
+
+	if parent, ok := w.parent().(withObsQP); ok {
+		parent.withObsQP(res)
+	}
+}
diff --git a/quoted_pair.go b/quoted_pair.go
index 3dd2b0c..96cd6e0 100644
--- a/quoted_pair.go
+++ b/quoted_pair.go
@@ -12,6 +12,10 @@ func (p *quotedPair) withQuotedChar(quotedChar *quotedChar) {
 	p.value = quotedChar.value
 }
 
+func (p *quotedPair) withObsQP(obsQP *obsQP) {
+	p.value = obsQP.value
+}
+
 func (w *walker) EnterQuotedPair(ctx *parser.QuotedPairContext) {
 	w.enter(&quotedPair{})
 }
-- 
2.43.0


From 0a88d251013f6929922862d903edb6b85a99aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 5/5] fix: reject dates, times and offsets that are out of
 range

time.Date normalises its arguments, so that 31 Apr was returned as 1 May
and 25:61 as the next day, without an error.
---
 date_time.go | 21 +++++++++++++++++++++
 offset.go    |  6 ++++++
 parser.go    |  3 +++
 3 files changed, 30 insertions(+)

diff --git a/date_time.go b/date_time.go
index c08c1ae..96b553b 100644
--- a/date_time.go
+++ b/date_time.go
@@ -1,6 +1,7 @@
 package rfc5322
 
 import (
+	"errors"
 	"time"
 
 	"github.com/ProtonMail/go-rfc5322/parser"
@@ -53,5 +54,25 @@ func (w *walker) EnterDateTime(ctx *parser.DateTimeContext) {
 func (w *walker) ExitDateTime(ctx *parser.DateTimeContext) {
 	dt := w.exit().(*dateTime)
 
+	if err := dt.validate(); err != nil {
+		w.err = err
+	}
+
 	w.res = time.Date(dt.year, dt.month, dt.day, dt.hour, dt.min, dt.sec, 0, dt.loc)
 }
+
+// validate checks the ranges required by RFC5322 section 3.3; without it,
+// time.Date would silently turn e.g. 31 Apr into 1 May.
+func (dt *dateTime) validate() error {
+	// Day zero of the following month is the last day of this month.
+	if last := time.Date(dt.year, dt.month+1, 0, 0, 0, 0, 0, time.UTC).Day(); dt.day < 1 || dt.day > last {
+		return errors.New("day of month out of range")
+	}
+
+	// Second 60 is a leap second.
+	if dt.hour > 23 || dt.min > 59 || dt.sec > 60 {
+		return errors.New("time of day out of range")
+	}
+
+	return nil
+}
diff --git a/offset.go b/offset.go
index ec0e9b5..fb419ea 100644
--- a/offset.go
+++ b/offset.go
@@ -1,6 +1,7 @@
 package rfc5322
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 	"time"
@@ -27,6 +28,11 @@ func (w *walker) EnterOffset(ctx *parser.OffsetContext) {
 	hrs := text[1:3]
 	min := text[3:5]
 
+	// RFC5322 section 3.3: the last two digits of the zone are minutes.
+	if min > "59" {
+		w.err = errors.New("zone offset out of range")
+	}
+
 	dur, err := time.ParseDuration(fmt.Sprintf("%v%vh%vm", sgn, hrs, min))
 	if err != nil {
 		w.err = err
diff --git a/parser.go b/parser.go
index 808715b..e790c1d 100644
--- a/parser.go
+++ b/parser.go
@@ -57,6 +57,9 @@ func ParseDateTime(input string) (time.Time, error) {
 	}
 
 	antlr.ParseTreeWalkerDefault.Walk(w, tree)
+	if w.err != nil {
+		return time.Time{}, w.err
+	}
 
 	return w.res.(time.Time), w.err
 }
-- 
2.43.0

