From 61b444f928e02454c341fd68257fe7a9b5ede61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 01/16] fix: EscapeBytes keeps the bytes of non-ASCII
 characters

Ranging over the runes while emitting string(value[i]) re-encoded the first
byte of every multi-byte character as a code point of its own and dropped the
other bytes, so String() corrupted non-ASCII parameter values.
---
 common/functions.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/functions.go b/common/functions.go
index ce2880c..a93d806 100644
--- a/common/functions.go
+++ b/common/functions.go
@@ -30,12 +30,13 @@ func RemoveBytes(data []byte, positions []int, offset int) []byte {
 // EscapeBytes adds a backslash to \, ], " characters.
 func EscapeBytes(value string) string {
 	res := ""
-	for i, c := range value {
+	for i := 0; i < len(value); i++ {
+		c := value[i]
 		// todo(leodido): generalize byte codes (the function should ideally accept a byte slice containing byte codes to escape)
 		if c == 92 || c == 93 || c == 34 {
 			res += `\`
 		}
-		res += string(value[i])
+		res += value[i : i+1]
 	}
 
 	return res
-- 
2.43.0


From 65167b03c98cb12cfee18539ab0afd69c5a17394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 02/16] fix: builders of different messages no longer share
 package-level state

The element id and parameter name SetParameter works on were kept in package
variables, so two goroutines building different messages raced on them and
could store values under each other's names (or panic).
---
 rfc5424/builder.go    | 20 ++++++++++----------
 rfc5424/builder.go.rl | 18 +++++++++---------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 4aa3baa..b38c804 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -61,10 +61,12 @@ func (e entrypoint) translate() int {
 	}
 }
 
-var currentid string
-var currentparamname string
-
 func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+	return sm.setParam(from, "", "", value)
+}
+
+// setParam is set for the entry points which also need to know the (already existing) element id and parameter name they act upon.
+func (sm *SyslogMessage) setParam(from entrypoint, currentid string, currentparamname string, value string) *SyslogMessage {
 	data := []byte(value)
 	p := 0
 	pb := 0
@@ -9209,7 +9211,7 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
 
 			case 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581:
 
-				// Assuming SD map already exists, contains currentid key (set from outside)
+				// Assuming SD map already exists, contains currentid key (given by the caller)
 				elements := *sm.StructuredData
 				elements[currentid][string(data[pb:p])] = ""
 
@@ -9221,7 +9223,7 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
 				if len(backslashes) > 0 {
 					text = common.RemoveBytes(text, backslashes, pb)
 				}
-				// Assuming SD map already exists, contains currentid key and currentparamname key (set from outside)
+				// Assuming SD map already exists, contains currentid key and currentparamname key (given by the caller)
 				elements := *sm.StructuredData
 				elements[currentid][currentparamname] = string(text)
 
@@ -9241,7 +9243,7 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
 				if len(backslashes) > 0 {
 					text = common.RemoveBytes(text, backslashes, pb)
 				}
-				// Assuming SD map already exists, contains currentid key and currentparamname key (set from outside)
+				// Assuming SD map already exists, contains currentid key and currentparamname key (given by the caller)
 				elements := *sm.StructuredData
 				elements[currentid][currentparamname] = string(text)
 
@@ -9330,12 +9332,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
 		if _, ok := elements[id]; ok {
-			currentid = id
-			sm.set(sdpn, name)
+			sm.setParam(sdpn, id, "", name)
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
-				currentparamname = name
-				sm.set(sdpv, value)
+				sm.setParam(sdpv, id, name, value)
 			}
 		}
 	}
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 3eaccf2..d37ef02 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -62,7 +62,7 @@ action set_sdid {
 }
 
 action set_sdpn {
-    // Assuming SD map already exists, contains currentid key (set from outside)
+    // Assuming SD map already exists, contains currentid key (given by the caller)
     elements := *sm.StructuredData
     elements[currentid][string(data[pb:p])] = ""
 }
@@ -78,7 +78,7 @@ action set_sdpv {
     if len(backslashes) > 0 {
         text = common.RemoveBytes(text, backslashes, pb)
     }
-    // Assuming SD map already exists, contains currentid key and currentparamname key (set from outside)
+    // Assuming SD map already exists, contains currentid key and currentparamname key (given by the caller)
     elements := *sm.StructuredData
     elements[currentid][currentparamname] = string(text)
 }
@@ -151,10 +151,12 @@ func (e entrypoint) translate() int {
     }
 }
 
-var currentid string
-var currentparamname string
-
 func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+    return sm.setParam(from, "", "", value)
+}
+
+// setParam is set for the entry points which also need to know the (already existing) element id and parameter name they act upon.
+func (sm *SyslogMessage) setParam(from entrypoint, currentid string, currentparamname string, value string) *SyslogMessage {
     data := []byte(value)
     p := 0
     pb := 0
@@ -233,12 +235,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
         if _, ok := elements[id]; ok {
-            currentid = id
-            sm.set(sdpn, name)
+            sm.setParam(sdpn, id, "", name)
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
-                currentparamname = name
-                sm.set(sdpv, value)
+                sm.setParam(sdpv, id, name, value)
             }
         }
     }
-- 
2.43.0


From 60eadb74b6bbe2ac7ee410643a02713ce9fda9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 03/16] fix: SetParameter discards the operation when the
 parameter exists

As documented. It used to overwrite the value, and an invalid new value erased
the existing one.
---
 rfc5424/builder.go    | 4 ++++
 rfc5424/builder.go.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index b38c804..bdf71a1 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9332,6 +9332,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
 		if _, ok := elements[id]; ok {
+			if _, ok := elements[id][name]; ok {
+				// The parameter is already there, so discard the operation
+				return sm
+			}
 			sm.setParam(sdpn, id, "", name)
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index d37ef02..eec9085 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -235,6 +235,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
         if _, ok := elements[id]; ok {
+            if _, ok := elements[id][name]; ok {
+                // The parameter is already there, so discard the operation
+                return sm
+            }
             sm.setParam(sdpn, id, "", name)
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
-- 
2.43.0


From 5a4653cf343b5624367831180d5f8a9d387d98aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 04/16] fix: reusing a non-transparent parser does not repeat
 messages of the previous stream

The candidate, the last chunk and the read error were kept after Parse, so the
next Parse emitted the last message of the previous stream once more.
---
 nontransparent/parser.go    | 4 ++++
 nontransparent/parser.go.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index c587202..51df680 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -255,6 +255,10 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+	// Forget what a previous stream left behind
+	m.candidate = nil
+	m.lastChunk = nil
+	m.readError = nil
 	r := parser.ArbitraryReader(reader, m.trailer)
 	parser.New(r, m, parser.WithStart(1)).Parse()
 }
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 1dde434..a4e10b0 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -146,6 +146,10 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+    // Forget what a previous stream left behind
+    m.candidate = nil
+    m.lastChunk = nil
+    m.readError = nil
     r := parser.ArbitraryReader(reader, m.trailer)
     parser.New(r, m, parser.WithStart(%%{ write start; }%%)).Parse()
 }
-- 
2.43.0


From ed92c288e6971d1aef326a54931ccad938c116b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 05/16] fix: MSGLEN consists of digits only and does not start
 with zero

isDigit accepted '/' and isNonZeroDigit accepted '0', so lengths such as 016,
0 or 1/6 were taken for (other) numbers instead of being reported.
---
 octetcounting/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 7e5f2bb..4f01450 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -18,12 +18,12 @@ var lt = byte(60)
 
 // isDigit returns true if the byte represents a number in [0,9]
 func isDigit(ch byte) bool {
-	return (ch >= 47 && ch <= 57)
+	return (ch >= 48 && ch <= 57)
 }
 
 // isNonZeroDigit returns true if the byte represents a number in ]0,9]
 func isNonZeroDigit(ch byte) bool {
-	return (ch >= 48 && ch <= 57)
+	return (ch >= 49 && ch <= 57)
 }
 
 // Scanner represents the lexical scanner for octet counting transport.
-- 
2.43.0


From f624b9c92ed8248a1545cba79f6098cb1290f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 06/16] fix: a NUL byte in an octet counting stream is not the
 end of the stream

The scanner marked the end of the reader with byte 0, so a NUL after a frame
silently ended the parsing and a NUL after MSGLEN was swallowed.
---
 octetcounting/scanner.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 4f01450..6d30b34 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -7,9 +7,6 @@ import (
 	"strconv"
 )
 
-// eof represents a marker byte for the end of the reader
-var eof = byte(0)
-
 // ws represents the whitespace
 var ws = byte(32)
 
@@ -41,13 +38,10 @@ func NewScanner(r io.Reader, maxLength int) *Scanner {
 }
 
 // read reads the next byte from the buffered reader
-// it returns the byte(0) if an error occurs (or io.EOF is returned)
-func (s *Scanner) read() byte {
+// it returns false if an error occurs (or io.EOF is returned)
+func (s *Scanner) read() (byte, bool) {
 	b, err := s.r.ReadByte()
-	if err != nil {
-		return eof
-	}
-	return b
+	return b, err == nil
 }
 
 // unread places the previously read byte back on the reader
@@ -58,7 +52,14 @@ func (s *Scanner) unread() {
 // Scan returns the next token.
 func (s *Scanner) Scan() (tok Token) {
 	// Read the next byte.
-	b := s.read()
+	b, ok := s.read()
+
+	if !ok {
+		s.ready = false
+		return Token{
+			typ: EOF,
+		}
+	}
 
 	if isNonZeroDigit(b) {
 		s.unread()
@@ -68,11 +69,6 @@ func (s *Scanner) Scan() (tok Token) {
 
 	// Otherwise read the individual character
 	switch b {
-	case eof:
-		s.ready = false
-		return Token{
-			typ: EOF,
-		}
 	case ws:
 		s.ready = true
 		return Token{
@@ -95,12 +91,13 @@ func (s *Scanner) Scan() (tok Token) {
 func (s *Scanner) scanMsgLen() Token {
 	// Create a buffer and read the current character into it
 	var buf bytes.Buffer
-	buf.WriteByte(s.read())
+	b, _ := s.read()
+	buf.WriteByte(b)
 
 	// Read every subsequent digit character into the buffer
 	// Non-digit characters and EOF will cause the loop to exit
 	for {
-		if b := s.read(); b == eof {
+		if b, ok := s.read(); !ok {
 			break
 		} else if !isDigit(b) {
 			s.unread()
-- 
2.43.0


From 3415b79659acbb0cf3f0332241706eefa9d6a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 07/16] fix: lengths of 2^63 and more do not bypass the maximum
 message length

The conversion to int made them negative, hence smaller than any maximum, and
lengths which do not fit 64 bits were reported as a different number.
---
 octetcounting/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index cbdbaac..edae045 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -86,9 +86,9 @@ func (p *parser) run() {
 			break
 		}
 
-		if int(p.s.msglen) > p.maxMessageLength {
+		if p.maxMessageLength < 0 || p.s.msglen > uint64(p.maxMessageLength) {
 			p.emit(&syslog.Result{
-				Error: fmt.Errorf("message too long to parse. was size %d, max length %d", p.s.msglen, p.maxMessageLength),
+				Error: fmt.Errorf("message too long to parse. was size %s, max length %d", tok.lit, p.maxMessageLength),
 			})
 			break
 		}
-- 
2.43.0


From 12b39ff3f750841dd0b8023b0c922c17d7cf0857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 08/16] fix: report the MSGLEN of the frame when its message is
 not a SYSLOGMSG

When digits followed "MSGLEN SP" the scanner had already replaced the length, so
the error named a number of octets nobody declared and best effort compared
the wrong length.
---
 octetcounting/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index edae045..0b0e44e 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -93,6 +93,9 @@ func (p *parser) run() {
 			break
 		}
 
+		// Scanning on may overwrite it
+		msglen := p.s.msglen
+
 		// Next we MUST see a WS
 		if tok = p.scan(); tok.typ != WS {
 			p.emit(&syslog.Result{
@@ -103,9 +106,9 @@ func (p *parser) run() {
 
 		// Next we MUST see a SYSLOGMSG with length equal to MSGLEN
 		if tok = p.scan(); tok.typ != SYSLOGMSG {
-			e := fmt.Errorf(`found %s after "%s", expecting a %s containing %d octets`, tok, tok.lit, SYSLOGMSG, p.s.msglen)
+			e := fmt.Errorf(`found %s after "%s", expecting a %s containing %d octets`, tok, tok.lit, SYSLOGMSG, msglen)
 			// Underflow case
-			if len(tok.lit) < int(p.s.msglen) && p.bestEffort {
+			if len(tok.lit) < int(msglen) && p.bestEffort {
 				// Though MSGLEN was not respected, we try to parse the existing SYSLOGMSG as a RFC5424 syslog message
 				result := p.parse(tok.lit)
 				if result.Error == nil {
-- 
2.43.0


From 01affab71984397d4bb1ab44b060e03c0186e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 09/16] fix: best effort keeps structured data completed before
 the failing part

The error actions of SD-ID and SD-PARAM deleted the current element and the
current parameter even when these were complete and it was the next one that
failed. Elements and parameters are now added when complete instead of being
removed afterwards.
---
 rfc5424/machine.go    | 67 ++++++++++++++-----------------------------
 rfc5424/machine.go.rl | 32 +++++++++++++--------
 2 files changed, 41 insertions(+), 58 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index ddd4a7c..4623082 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -65,6 +65,7 @@ type machine struct {
 	err          error
 	currentelem  string
 	currentparam string
+	currentvalue string
 	msgat        int
 	backslashat  []int
 	bestEffort   bool
@@ -1535,10 +1536,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto st0
 	tr36:
 
-		delete(output.structuredData, m.currentelem)
-		if len(output.structuredData) == 0 {
-			output.hasElements = false
-		}
 		m.err = fmt.Errorf(ErrSdID+ColumnPositionTemplate, m.p)
 		(m.p)--
 
@@ -1564,17 +1561,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			{
 				goto st614
 			}
-		} else {
-			id := string(m.text())
-			output.structuredData[id] = map[string]string{}
-			output.hasElements = true
-			m.currentelem = id
 		}
 
-		delete(output.structuredData, m.currentelem)
-		if len(output.structuredData) == 0 {
-			output.hasElements = false
-		}
 		m.err = fmt.Errorf(ErrSdID+ColumnPositionTemplate, m.p)
 		(m.p)--
 
@@ -1592,9 +1580,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto st0
 	tr42:
 
-		if len(output.structuredData) > 0 {
-			delete(output.structuredData[m.currentelem], m.currentparam)
-		}
 		m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 		(m.p)--
 
@@ -1619,9 +1604,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st614
 		}
 
-		if len(output.structuredData) > 0 {
-			delete(output.structuredData[m.currentelem], m.currentparam)
-		}
 		m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 		(m.p)--
 
@@ -2810,8 +2792,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		m.pb = m.p
 
 		if output.hasElements {
-			// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
-
 			// Store text
 			text := m.text()
 
@@ -2819,15 +2799,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			if len(m.backslashat) > 0 {
 				text = common.RemoveBytes(text, m.backslashat, m.pb)
 			}
-			output.structuredData[m.currentelem][m.currentparam] = string(text)
+			m.currentvalue = string(text)
 		}
 
 		goto st55
 	tr89:
 
 		if output.hasElements {
-			// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
-
 			// Store text
 			text := m.text()
 
@@ -2835,7 +2813,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			if len(m.backslashat) > 0 {
 				text = common.RemoveBytes(text, m.backslashat, m.pb)
 			}
-			output.structuredData[m.currentelem][m.currentparam] = string(text)
+			m.currentvalue = string(text)
 		}
 
 		goto st55
@@ -2846,11 +2824,27 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase55:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto st19
+			goto tr657
 		case 93:
-			goto st606
+			goto tr658
 		}
 		goto tr42
+	tr657:
+
+		if output.hasElements {
+			// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
+			output.structuredData[m.currentelem][m.currentparam] = m.currentvalue
+		}
+
+		goto st19
+	tr658:
+
+		if output.hasElements {
+			// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
+			output.structuredData[m.currentelem][m.currentparam] = m.currentvalue
+		}
+
+		goto st606
 	tr41:
 
 		if _, ok := output.structuredData[string(m.text())]; ok {
@@ -11879,10 +11873,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 			case 17:
 
-				delete(output.structuredData, m.currentelem)
-				if len(output.structuredData) == 0 {
-					output.hasElements = false
-				}
 				m.err = fmt.Errorf(ErrSdID+ColumnPositionTemplate, m.p)
 				(m.p)--
 
@@ -11899,9 +11889,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 			case 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 55, 57, 58, 59, 60, 61, 62, 63:
 
-				if len(output.structuredData) > 0 {
-					delete(output.structuredData[m.currentelem], m.currentparam)
-				}
 				m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 				(m.p)--
 
@@ -11934,17 +11921,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					{
 						goto st614
 					}
-				} else {
-					id := string(m.text())
-					output.structuredData[id] = map[string]string{}
-					output.hasElements = true
-					m.currentelem = id
 				}
 
-				delete(output.structuredData, m.currentelem)
-				if len(output.structuredData) == 0 {
-					output.hasElements = false
-				}
 				m.err = fmt.Errorf(ErrSdID+ColumnPositionTemplate, m.p)
 				(m.p)--
 
@@ -12009,9 +11987,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st614
 				}
 
-				if len(output.structuredData) > 0 {
-					delete(output.structuredData[m.currentelem], m.currentparam)
-				}
 				m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 				(m.p)--
 
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index f0b9c82..3b2f479 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -128,6 +128,15 @@ action set_id {
 	}
 }
 
+action check_id {
+	if _, ok := output.structuredData[string(m.text())]; ok {
+		// As per RFC5424 section 6.3.2 SD-ID MUST NOT exist more than once in a message
+		m.err = fmt.Errorf(ErrSdIDDuplicated + ColumnPositionTemplate, m.p)
+		fhold;
+		fgoto fail;
+	}
+}
+
 action ini_sdparam {
 	m.backslashat = []int{}
 }
@@ -142,8 +151,6 @@ action set_paramname {
 
 action set_paramvalue {
 	if output.hasElements {
-		// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
-
 		// Store text
 		text := m.text()
 
@@ -151,7 +158,14 @@ action set_paramvalue {
 		if len(m.backslashat) > 0 {
 			text = common.RemoveBytes(text, m.backslashat, m.pb)
 		}
-		output.structuredData[m.currentelem][m.currentparam] = string(text)
+		m.currentvalue = string(text)
+	}
+}
+
+action add_param {
+	if output.hasElements {
+		// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
+		output.structuredData[m.currentelem][m.currentparam] = m.currentvalue
 	}
 }
 
@@ -214,19 +228,12 @@ action err_structureddata {
 }
 
 action err_sdid {
-	delete(output.structuredData, m.currentelem)
-	if len(output.structuredData) == 0 {
-		output.hasElements = false
-	}
 	m.err = fmt.Errorf(ErrSdID + ColumnPositionTemplate, m.p)
 	fhold;
 	fgoto fail;
 }
 
 action err_sdparam {
-	if len(output.structuredData) > 0 {
-		delete(output.structuredData[m.currentelem], m.currentparam)
-	}
 	m.err = fmt.Errorf(ErrSdParam + ColumnPositionTemplate, m.p)
 	fhold;
 	fgoto fail;
@@ -289,10 +296,10 @@ paramvalue = (utf8charwodelims* escapes*)+ >mark %set_paramvalue;
 
 paramname = sdname >mark %set_paramname;
 
-sdparam = (paramname '=' dq paramvalue dq) >ini_sdparam $err(err_sdparam);
+sdparam = (paramname '=' dq paramvalue dq) >ini_sdparam %add_param $err(err_sdparam);
 
 # (note) > finegrained semantics of section 6.3.2 not represented here since not so useful for parsing goal
-sdid = sdname >mark %set_id %err(set_id) $err(err_sdid);
+sdid = sdname >mark %set_id %err(check_id) $err(err_sdid);
 
 sdelement = ('[' sdid (sp sdparam)* ']');
 
@@ -323,6 +330,7 @@ type machine struct {
 	err          error
 	currentelem  string
 	currentparam string
+	currentvalue string
 	msgat        int
 	backslashat  []int
 	bestEffort 	 bool
-- 
2.43.0


From feb1ee0cf151d7908392fd722562656e429f643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 10/16] fix: best effort reports the whole version of an input
 ending after it

With two or three digits the end-of-input action of the version was preceded by
the error action, so "<1>12" was reported as version 1.
---
 rfc5424/machine.go    | 4 ++--
 rfc5424/machine.go.rl | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index 4623082..d113d6c 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -11962,6 +11962,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 			case 591, 592:
 
+				output.version = uint16(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
+
 				m.err = fmt.Errorf(ErrVersion+ColumnPositionTemplate, m.p)
 				(m.p)--
 
@@ -11969,8 +11971,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st614
 				}
 
-				output.version = uint16(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-
 				m.err = fmt.Errorf(ErrParse+ColumnPositionTemplate, m.p)
 				(m.p)--
 
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index 3b2f479..bc3ff26 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -272,7 +272,7 @@ nilvalue = '-';
 
 pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
 
-version = (nonzerodigit digit{0,2} <err(err_version)) >mark %from(set_version) %eof(set_version) @err(err_version);
+version = (nonzerodigit (digit{0,2} %eof(set_version) <err(err_version))) >mark %from(set_version) %eof(set_version) @err(err_version);
 
 timestamp = (nilvalue | (fulldate >mark 'T' fulltime %set_timestamp %err(set_timestamp))) @err(err_timestamp);
 
-- 
2.43.0


From 1d4e109c1d7418905e7f7bffc19bc333a902e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 11/16] fix: rfc3164 always reports an error when it does not
 accept the input

Control characters in the message (and inputs ending right after the timestamp)
made Parse return neither a message nor an error, or, in best effort mode, a
message without its text and no error.
---
 rfc3164/machine.go    | 4 ++++
 rfc3164/machine.go.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 6dd3d29..ab4f19d 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -7252,6 +7252,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		if m.err == nil {
+			// The input ended, or contains a byte that is not allowed, where no specific error applies
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 4d13817..8d4ffd9 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -251,6 +251,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	%% write exec;
 
 	if m.cs < first_final || m.cs == en_fail {
+		if m.err == nil {
+			// The input ended, or contains a byte that is not allowed, where no specific error applies
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
-- 
2.43.0


From 3e9921765958439d6018ca85e7d31d171c9cb472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 12/16] fix: rfc3164 takes tag and content only from a complete
 prefix and keeps the message whole

The tag was stored at the first ':' or '[' even when no prefix followed
("abc:hello" had app name abc), any '[' moved the start of the message (losing
bytes of "a[1] hello") and any later ']' replaced the process id ("a[1]: b[2]: c"
had process id "b[2" and message "c"). Tag and content now count once the
whole TAG[CONTENT]: prefix and the first message byte are there, the first such
prefix wins and the message is everything after it.
---
 rfc3164/machine.go    | 115 ++++++++++++++++++++++++++++--------------
 rfc3164/machine.go.rl |  40 ++++++++++++---
 2 files changed, 111 insertions(+), 44 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index ab4f19d..8222f14 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -32,6 +32,9 @@ type machine struct {
 	p, pe, eof int
 	pb         int
 	err        error
+	msgat      int
+	tag        string
+	content    string
 	bestEffort bool
 	yyyy       int
 	rfc3339    bool
@@ -98,6 +101,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	m.data = input
 	m.p = 0
 	m.pb = 0
+	m.msgat = 0
+	m.tag = ""
+	m.content = ""
 	m.pe = len(input)
 	m.eof = len(input)
 	m.err = nil
@@ -1253,7 +1259,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto tr42
 	tr42:
 
-		m.pb = m.p
+		m.msgat = m.p
 
 		goto st333
 	st333:
@@ -1272,6 +1278,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 		m.pb = m.p
 
+		m.msgat = m.p
+
 		goto st334
 	st334:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -1974,7 +1982,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto st333
 	tr347:
 
-		output.tag = string(m.text())
+		m.tag = string(m.text())
+		m.content = ""
 
 		goto st366
 	st366:
@@ -2003,10 +2012,21 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto tr42
+		goto tr350
+	tr350:
+
+		// The first prefix found is the one to use
+		if output.tag == "" {
+			output.tag = m.tag
+			output.content = m.content
+			m.msgat = m.p
+		}
+
+		goto st333
 	tr348:
 
-		output.tag = string(m.text())
+		m.tag = string(m.text())
+		m.content = ""
 
 		goto st368
 	st368:
@@ -2035,14 +2055,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase23:
 		if (m.data)[(m.p)] == 93 {
-			goto tr45
+			goto st24
 		}
 		goto st23
-	tr45:
-
-		output.content = string(m.text())
-
-		goto st24
 	st24:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof24
@@ -2050,11 +2065,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase24:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto st25
+			goto tr46
 		case 93:
-			goto tr45
+			goto st24
 		}
 		goto st23
+	tr46:
+
+		// Without the closing bracket, which comes right before the current position
+		m.content = string(m.data[m.pb : m.p-1])
+
+		goto st25
 	st25:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof25
@@ -2064,7 +2085,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st26
 		case 93:
-			goto tr45
+			goto st24
 		}
 		goto st23
 	st26:
@@ -2081,7 +2102,23 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] <= 31 {
 			goto st23
 		}
-		goto tr48
+		goto tr47
+	tr47:
+
+		// The first prefix found is the one to use
+		if output.tag == "" {
+			output.tag = m.tag
+			output.content = m.content
+			m.msgat = m.p
+		}
+
+		goto st369
+	tr44:
+
+		output.tag = ""
+		output.content = ""
+
+		goto st23
 	tr48:
 
 		m.pb = m.p
@@ -2094,32 +2131,28 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase369:
 		switch (m.data)[(m.p)] {
 		case 93:
-			goto tr383
+			goto st370
 		case 127:
-			goto st23
+			goto tr44
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st23
+			goto tr44
 		}
 		goto st369
-	tr383:
-
-		output.content = string(m.text())
-
-		goto st370
 	tr49:
 
-		output.content = string(m.text())
-
-		m.pb = m.p
+		// The first prefix found is the one to use
+		if output.tag == "" {
+			output.tag = m.tag
+			output.content = m.content
+			m.msgat = m.p
+		}
 
 		goto st370
 	tr381:
 
 		m.pb = m.p
 
-		output.content = string(m.text())
-
 		goto st370
 	st370:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2128,16 +2161,22 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase370:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto st371
+			goto tr385
 		case 93:
-			goto tr383
+			goto st370
 		case 127:
-			goto st23
+			goto tr44
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st23
+			goto tr44
 		}
 		goto st369
+	tr385:
+
+		// Without the closing bracket, which comes right before the current position
+		m.content = string(m.data[m.pb : m.p-1])
+
+		goto st371
 	st371:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof371
@@ -2147,12 +2186,12 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st372
 		case 93:
-			goto tr383
+			goto st370
 		case 127:
-			goto st23
+			goto tr44
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st23
+			goto tr44
 		}
 		goto st369
 	st372:
@@ -2164,12 +2203,12 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 93:
 			goto tr49
 		case 127:
-			goto st23
+			goto tr44
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st23
+			goto tr44
 		}
-		goto tr48
+		goto tr47
 	st27:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof27
@@ -7180,7 +7219,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			switch m.cs {
 			case 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372:
 
-				output.message = string(m.text())
+				output.message = string(m.data[m.msgat:m.p])
 
 			case 1:
 
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 8d4ffd9..bd1f7e6 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -69,16 +69,36 @@ action set_hostname {
 	output.hostname = string(m.text())
 }
 
+action markmsg {
+	m.msgat = m.p
+}
+
 action set_tag {
-	output.tag = string(m.text())
+	m.tag = string(m.text())
+	m.content = ""
 }
 
 action set_content {
-	output.content = string(m.text())
+	// Without the closing bracket, which comes right before the current position
+	m.content = string(m.data[m.pb:m.p-1])
+}
+
+action set_prefix {
+	// The first prefix found is the one to use
+	if output.tag == "" {
+		output.tag = m.tag
+		output.content = m.content
+		m.msgat = m.p
+	}
+}
+
+action drop_prefix {
+	output.tag = ""
+	output.content = ""
 }
 
 action set_message {
-	output.message = string(m.text())
+	output.message = string(m.data[m.msgat:m.p])
 }
 
 action err_prival {
@@ -148,13 +168,15 @@ tag = (print -- [ :\[]){1,32} >mark %set_tag @err(err_tag);
 visible = print | 0x80..0xFF;
 
 # The first not alphanumeric character starts the content (usually containing a PID) part of the message part
-contentval = !alnum @err(err_contentstart) >mark print* %set_content @err(err_content);
+# note > what looks like the message part after the content is not when it contains characters not visible
+contentval = (!alnum @err(err_contentstart) >mark print* @err(err_content)) & (visible | ^visible @drop_prefix)*;
 
 content = '[' contentval ']'; # todo(leodido) > support ':' and ' ' too. Also they have to match?
 
-mex = visible+ >mark %set_message;
+mex = visible+ %set_message;
 
-msg = (tag content? ':' sp)? mex;
+# The tag and the content are such only when the whole prefix is there
+msg = ((tag ':' | tag content ':' >set_content) sp (mex >set_prefix)) | (mex >markmsg);
 
 fail := (any - [\n\r])* @err{ fgoto main; };
 
@@ -170,6 +192,9 @@ type machine struct {
 	p, pe, eof   int
 	pb           int
 	err          error
+	msgat        int
+	tag          string
+	content      string
 	bestEffort   bool
 	yyyy         int
 	rfc3339      bool
@@ -242,6 +267,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	m.data = input
 	m.p = 0
 	m.pb = 0
+	m.msgat = 0
+	m.tag = ""
+	m.content = ""
 	m.pe = len(input)
 	m.eof = len(input)
 	m.err = nil
-- 
2.43.0


From 2f5e2a015670722d24bf8ae964377cab1c8a9ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 13/16] fix: rfc3164 best effort knows the priority only once
 it is closed

The priority was stored at every byte following a digit of it, so that the best
effort result for "<133" was a message with priority 13 and for "<13'" one with
priority 13.
---
 rfc3164/machine.go    | 28 +++++++++-------------------
 rfc3164/machine.go.rl |  2 +-
 2 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 8222f14..3f0659b 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -970,14 +970,16 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof3
 		}
 	stCase3:
+		if (m.data)[(m.p)] == 62 {
+			goto tr6
+		}
+		goto tr2
+	tr6:
 
 		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
 		output.prioritySet = true
 
-		if (m.data)[(m.p)] == 62 {
-			goto st4
-		}
-		goto tr2
+		goto st4
 	st4:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof4
@@ -6031,15 +6033,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof330
 		}
 	stCase330:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		switch (m.data)[(m.p)] {
 		case 57:
 			goto st332
 		case 62:
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 56 {
 			goto st331
@@ -6055,12 +6053,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof331
 		}
 	stCase331:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		if (m.data)[(m.p)] == 62 {
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			goto st3
@@ -6071,12 +6065,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof332
 		}
 	stCase332:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		if (m.data)[(m.p)] == 62 {
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			goto st3
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index bd1f7e6..e20d52b 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -149,7 +149,7 @@ action err_content {
 	fgoto fail;
 }
 
-pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
+pri = ('<' prival >mark %set_prival $err(err_prival) '>') @err(err_pri);
 
 timestamp = (datemmm sp datemday sp hhmmss) >mark %set_timestamp @err(err_timestamp);
 
-- 
2.43.0


From d7e101c440f80e8c2d46ddb4cd5bee5bf9f9f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:58 +0000
Subject: [PATCH 14/16] fix: best effort switched on later reaches the message
 parser of a stream parser

---
 nontransparent/parser.go    | 4 ++++
 nontransparent/parser.go.rl | 4 ++++
 octetcounting/parser.go     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index 51df680..8d351c7 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -242,6 +242,10 @@ func WithTrailer(t TrailerType) syslog.ParserOption {
 // The generic options uses it.
 func (m *machine) WithBestEffort() {
 	m.bestEffort = true
+	// Already there when best effort is switched on after the creation
+	if m.internal != nil {
+		m.internal.WithBestEffort()
+	}
 }
 
 // WithListener implements the syslog.Parser interface.
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index a4e10b0..189e868 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -133,6 +133,10 @@ func WithTrailer(t TrailerType) syslog.ParserOption {
 // The generic options uses it.
 func (m *machine) WithBestEffort() {
     m.bestEffort = true
+    // Already there when best effort is switched on after the creation
+    if m.internal != nil {
+        m.internal.WithBestEffort()
+    }
 }
 
 // WithListener implements the syslog.Parser interface.
diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index 0b0e44e..7aa7b8b 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -57,6 +57,10 @@ func (p *parser) HasBestEffort() bool {
 // The generic options uses it.
 func (p *parser) WithBestEffort() {
 	p.bestEffort = true
+	// Already there when best effort is switched on after the creation
+	if p.internal != nil {
+		p.internal.WithBestEffort()
+	}
 }
 
 // WithListener implements the syslog.Parser interface.
-- 
2.43.0


From 4741644ca88c31a67d7a757c66982f41a271c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:40 +0000
Subject: [PATCH 15/16] fix: String() of a message with an empty StructuredData
 map gave a text that no parser accepts

---
 rfc5424/builder.go    | 2 +-
 rfc5424/builder.go.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index bdf71a1..794bf6e 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9381,7 +9381,7 @@ func (sm *SyslogMessage) String() (string, error) {
 	if sm.MsgID != nil {
 		mid = *sm.MsgID
 	}
-	if sm.StructuredData != nil {
+	if sm.StructuredData != nil && len(*sm.StructuredData) > 0 {
 		// Sort element identifiers
 		identifiers := make([]string, 0)
 		for k := range *sm.StructuredData {
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index eec9085..24472ff 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -284,7 +284,7 @@ func (sm *SyslogMessage) String() (string, error) {
     if sm.MsgID != nil {
         mid = *sm.MsgID
     }
-    if sm.StructuredData != nil {
+    if sm.StructuredData != nil && len(*sm.StructuredData) > 0 {
         // Sort element identifiers
         identifiers := make([]string, 0)
         for k, _ := range *sm.StructuredData {
-- 
2.43.0


From fa8eb346d6ab6884b3bb1746198b4f0eddba5fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:40 +0000
Subject: [PATCH 16/16] fix: SetElementID/SetParameter panicked on nil maps
 given by the user

---
 rfc5424/builder.go    | 7 +++++++
 rfc5424/builder.go.rl | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 794bf6e..563fa0b 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9202,6 +9202,10 @@ func (sm *SyslogMessage) setParam(from entrypoint, currentid string, currentpara
 				if sm.StructuredData == nil {
 					sm.StructuredData = &(map[string]map[string]string{})
 				}
+				// A map given by the user can be nil
+				if *sm.StructuredData == nil {
+					*sm.StructuredData = map[string]map[string]string{}
+				}
 
 				id := string(data[pb:p])
 				elements := *sm.StructuredData
@@ -9213,6 +9217,9 @@ func (sm *SyslogMessage) setParam(from entrypoint, currentid string, currentpara
 
 				// Assuming SD map already exists, contains currentid key (given by the caller)
 				elements := *sm.StructuredData
+				if elements[currentid] == nil {
+					elements[currentid] = map[string]string{}
+				}
 				elements[currentid][string(data[pb:p])] = ""
 
 			case 583:
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 24472ff..b8b37a4 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -53,6 +53,10 @@ action set_sdid {
     if sm.StructuredData == nil {
         sm.StructuredData = &(map[string]map[string]string{})
     }
+    // A map given by the user can be nil
+    if *sm.StructuredData == nil {
+        *sm.StructuredData = map[string]map[string]string{}
+    }
 
     id := string(data[pb:p])
     elements := *sm.StructuredData
@@ -64,6 +68,9 @@ action set_sdid {
 action set_sdpn {
     // Assuming SD map already exists, contains currentid key (given by the caller)
     elements := *sm.StructuredData
+    if elements[currentid] == nil {
+        elements[currentid] = map[string]string{}
+    }
     elements[currentid][string(data[pb:p])] = ""
 }
 
-- 
2.43.0

