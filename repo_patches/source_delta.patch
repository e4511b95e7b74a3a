From adf3e6629d36782f69b63a568d661a0a078779cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:48 +0000
Subject: [PATCH 01/27] fix: unfold lines correctly whatever the read sizes

The unfolder hung when a read ended in a fold, missed folds split
between two reads and could drop bytes after one. It also did not
recognise a tab as the folding white space.
---
 unfolder.go | 96 ++++++++++++++++-------------------------------------
 1 file changed, 29 insertions(+), 67 deletions(-)

diff --git a/unfolder.go b/unfolder.go
index 70fa7b3..f732cc8 100644
--- a/unfolder.go
+++ b/unfolder.go
@@ -1,83 +1,45 @@
 package ics
 
 import (
-	"bytes"
+	"bufio"
 	"io"
 )
 
 type unfolder struct {
-	r      io.Reader
-	bufLen int
-	buf    [2]byte
+	r   io.Reader
+	buf *bufio.Reader
+	err error
 }
 
 func (u *unfolder) Read(p []byte) (int, error) {
-	var (
-		m, n int
-		err  error
-	)
-	q := p
-	if u.bufLen > 0 {
-		n = copy(p, u.buf[:u.bufLen])
-		if n > 0 {
-			u.buf[0] = u.buf[1]
-			u.bufLen -= n
-			p = p[n:]
-			m += n
-		}
+	if u.buf == nil {
+		u.buf = bufio.NewReader(u.r)
 	}
-	for len(p) > 0 && err == nil {
-		n, err = u.r.Read(p)
-		m += n
-		p = p[:n]
-		var toRead int
-		for {
-			pos := bytes.Index(p, eol[:])
-			if pos == -1 {
-				break
-			}
-			copy(p[pos:], p[pos+3:])
-			p = p[pos:]
-			toRead += 3
+
+	var n int
+
+	for n < len(p) && u.err == nil {
+		var c byte
+
+		if c, u.err = u.buf.ReadByte(); u.err != nil {
+			break
 		}
-		p = p[len(p)-toRead:]
-		m -= toRead
-	}
-	q = q[:m]
-	for err == nil {
-		if lq := len(q); lq > 0 && q[lq-1] == '\r' {
-			u.bufLen, err = u.r.Read(u.buf[:])
-			if u.bufLen < 2 {
-				break
-			}
-			if u.buf[0] == '\n' && u.buf[1] == ' ' {
-				m--
-				if err == nil {
-					n, err = u.r.Read(q[lq-1:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
-			}
-		} else if lq > 1 && q[lq-2] == '\r' && q[lq-1] == '\n' {
-			u.bufLen, err = u.r.Read(u.buf[:1])
-			if u.bufLen < 1 {
-				break
-			}
-			if u.buf[0] == ' ' {
-				m -= 2
-				if err == nil {
-					n, err = u.Read(q[lq-2:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
+
+		if c == '\r' {
+			if next, _ := u.buf.Peek(2); len(next) == 2 && next[0] == '\n' && (next[1] == ' ' || next[1] == '\t') {
+				u.buf.Discard(2)
+
+				continue
 			}
-		} else {
-			break
 		}
+
+		p[n] = c
+		n++
+	}
+
+	if n == 0 {
+		return 0, u.err
 	}
-	return m, err
+
+	return n, nil
 }
-- 
2.43.0


From 8a9dfa6f20d846b0d2b84942dcd36727fa25355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:36 +0000
Subject: [PATCH 02/27] fix: consume special characters in RFC 6868 parameter
 escaping

Encoding a parameter value with a caret, quote or newline never
terminated, and decoding one repeated or replaced characters.
---
 genParams.sh | 7 +++++--
 params.go    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 5c0ab1f..4ef3bc7 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -343,7 +343,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch r := t.Next(); r {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -355,9 +355,10 @@ Loop:
 				d = append(d, '^')
 			default:
 				d = append(d, '^')
-				l := utf8.EncodeRune(ru[:], c)
+				l := utf8.EncodeRune(ru[:], r)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
@@ -380,6 +381,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
diff --git a/params.go b/params.go
index f5d83ba..780ca89 100644
--- a/params.go
+++ b/params.go
@@ -1194,7 +1194,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch r := t.Next(); r {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -1206,9 +1206,10 @@ Loop:
 				d = append(d, '^')
 			default:
 				d = append(d, '^')
-				l := utf8.EncodeRune(ru[:], c)
+				l := utf8.EncodeRune(ru[:], r)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
@@ -1231,6 +1232,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
-- 
2.43.0


From 28fd82b0bde6b194727ae8b5a02729403b63e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:41 +0000
Subject: [PATCH 03/27] fix: quote URI and calendar address parameters when
 encoding

The decoder only accepts these parameters in double quotes, but they
were written without them, so a colon ended the parameter early.
---
 genParams.sh | 14 ++++++++++++--
 params.go    | 24 ++++++++++++++++--------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 4ef3bc7..380be40 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -143,7 +143,11 @@ source "comments.sh";
 			if [ ! -z "$vType" ]; then
 				echo "$indent	var q $vType";
 				echo;
-				echo "$indent	if err := q.decode(nil, ${vName}.Data); err != nil {";
+				if $doubleQuote; then
+					echo "$indent	if err := q.decode(nil, decode6868(${vName}.Data)); err != nil {";
+				else
+					echo "$indent	if err := q.decode(nil, ${vName}.Data); err != nil {";
+				fi;
 				echo "$indent		return fmt.Errorf(errDecodingType, c$type, err)";
 				echo "$indent	}";
 				echo;
@@ -232,7 +236,13 @@ source "comments.sh";
 			if [ ! -z "$vType" ]; then
 				echo "$indent	q := $vType($vName)";
 				echo;
-				echo "$indent	q.encode(w)";
+				if $doubleQuote; then
+					echo "$indent	w.WriteString(\"\\\"\")";
+					echo "$indent	w.Write(encode6868(q.String()))";
+					echo "$indent	w.WriteString(\"\\\"\")";
+				else
+					echo "$indent	q.encode(w)";
+				fi;
 			elif [ ${#choices[@]} -eq 1 ]; then
 				echo "$indent	w.WriteString(\"${choices[0]}\")";
 				freeChoice=true;
diff --git a/params.go b/params.go
index 780ca89..a2a4e54 100644
--- a/params.go
+++ b/params.go
@@ -26,7 +26,7 @@ func (t *ParamAlternativeRepresentation) decode(vs []parser.Token) error {
 
 	var q URI
 
-	if err := q.decode(nil, vs[0].Data); err != nil {
+	if err := q.decode(nil, decode6868(vs[0].Data)); err != nil {
 		return fmt.Errorf(errDecodingType, cAlternativeRepresentation, err)
 	}
 
@@ -44,7 +44,9 @@ func (t ParamAlternativeRepresentation) encode(w writer) {
 
 	q := URI(t)
 
-	q.encode(w)
+	w.WriteString("\"")
+	w.Write(encode6868(q.String()))
+	w.WriteString("\"")
 }
 
 func (t ParamAlternativeRepresentation) valid() error {
@@ -170,7 +172,7 @@ func (t *ParamDelegator) decode(vs []parser.Token) error {
 
 		var q CalendarAddress
 
-		if err := q.decode(nil, v.Data); err != nil {
+		if err := q.decode(nil, decode6868(v.Data)); err != nil {
 			return fmt.Errorf(errDecodingType, cDelegator, err)
 		}
 
@@ -194,7 +196,9 @@ func (t ParamDelegator) encode(w writer) {
 
 		q := CalendarAddress(v)
 
-		q.encode(w)
+		w.WriteString("\"")
+		w.Write(encode6868(q.String()))
+		w.WriteString("\"")
 	}
 }
 
@@ -219,7 +223,7 @@ func (t *ParamDelagatee) decode(vs []parser.Token) error {
 
 		var q CalendarAddress
 
-		if err := q.decode(nil, v.Data); err != nil {
+		if err := q.decode(nil, decode6868(v.Data)); err != nil {
 			return fmt.Errorf(errDecodingType, cDelagatee, err)
 		}
 
@@ -243,7 +247,9 @@ func (t ParamDelagatee) encode(w writer) {
 
 		q := CalendarAddress(v)
 
-		q.encode(w)
+		w.WriteString("\"")
+		w.Write(encode6868(q.String()))
+		w.WriteString("\"")
 	}
 }
 
@@ -1066,7 +1072,7 @@ func (t *ParamURI) decode(vs []parser.Token) error {
 
 	var q URI
 
-	if err := q.decode(nil, vs[0].Data); err != nil {
+	if err := q.decode(nil, decode6868(vs[0].Data)); err != nil {
 		return fmt.Errorf(errDecodingType, cURI, err)
 	}
 
@@ -1084,7 +1090,9 @@ func (t ParamURI) encode(w writer) {
 
 	q := URI(t)
 
-	q.encode(w)
+	w.WriteString("\"")
+	w.Write(encode6868(q.String()))
+	w.WriteString("\"")
 }
 
 func (t ParamURI) valid() error {
-- 
2.43.0


From b971892b6d8087fd3a1ef5f5e7d1ec5ce0ed8363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:45 +0000
Subject: [PATCH 04/27] fix: refuse to encode URIs that cannot be decoded

A URL with control characters in an unescaped part could add whole
lines to the output.
---
 types.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/types.go b/types.go
index da1d385..940b7da 100644
--- a/types.go
+++ b/types.go
@@ -111,8 +111,10 @@ func (c CalendarAddress) encode(w writer) {
 	w.WriteString(c.URL.String())
 }
 
-func (CalendarAddress) valid() error {
-	return nil
+func (c CalendarAddress) valid() error {
+	var v CalendarAddress
+
+	return v.decode(nil, c.URL.String())
 }
 
 // Date is a Calendar Data.
@@ -1461,8 +1463,10 @@ func (u URI) encode(w writer) {
 	w.WriteString(u.URL.String())
 }
 
-func (URI) valid() error {
-	return nil
+func (u URI) valid() error {
+	var v URI
+
+	return v.decode(nil, u.URL.String())
 }
 
 // UTCOffset contains the offset from UTC to local time.
-- 
2.43.0


From 1b307fe77d5ca1f9f4ad3f63227c16aeb5c00234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:06 +0000
Subject: [PATCH 05/27] fix: keep FMTTYPE values within their parameter

A format type with control characters passed validation and could add
lines to the output, and one with a caret did not decode to the same
value.
---
 genParams.sh | 8 +++++---
 params.go    | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 380be40..a7e11e4 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -189,11 +189,13 @@ source "comments.sh";
 						echo "	*t = Param$type(decode6868(${vName}.Data))";
 					fi;
 				else
-					echo "$indent	if !regex${type}.MatchString(${vName}.Data) {";
+					echo "$indent	d := decode6868(${vName}.Data)";
+					echo;
+					echo "$indent	if !regex${type}.MatchString(d) {";
 					echo "$indent		return fmt.Errorf(errDecodingType, c$type, ErrInvalidParam)";
 					echo "$indent	}";
 					echo;
-					echo "$indent	*t = Param$type(${vName}.Data)";
+					echo "$indent	*t = Param$type(d)";
 				fi;
 			fi;
 			if $multiple; then
@@ -316,7 +318,7 @@ source "comments.sh";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				elif [ ! -z "$regex" ]; then
-					echo "$indent	if !regex${type}.Match([]byte($vName)) {";
+					echo "$indent	if !regex${type}.Match([]byte($vName)) || strings.ContainsAny(string($vName), nonsafeChars[:31]) {";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				else
diff --git a/params.go b/params.go
index a2a4e54..7df9138 100644
--- a/params.go
+++ b/params.go
@@ -373,11 +373,13 @@ func (t *ParamFormatType) decode(vs []parser.Token) error {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	if !regexFormatType.MatchString(vs[0].Data) {
+	d := decode6868(vs[0].Data)
+
+	if !regexFormatType.MatchString(d) {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	*t = ParamFormatType(vs[0].Data)
+	*t = ParamFormatType(d)
 
 	return nil
 }
@@ -399,7 +401,7 @@ func (t ParamFormatType) encode(w writer) {
 }
 
 func (t ParamFormatType) valid() error {
-	if !regexFormatType.Match([]byte(t)) {
+	if !regexFormatType.Match([]byte(t)) || strings.ContainsAny(string(t), nonsafeChars[:31]) {
 		return fmt.Errorf(errValidatingType, cFormatType, ErrInvalidValue)
 	}
 
-- 
2.43.0


From b6b94acdf9e8354eba78bb195e36c4565fbe2568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:15 +0000
Subject: [PATCH 06/27] fix: accept finite numbers and refuse the others

The check was inverted, so no calendar with a GEO property could be
encoded, while NaN and infinities were accepted.
---
 types.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index 940b7da..9234627 100644
--- a/types.go
+++ b/types.go
@@ -408,7 +408,7 @@ func (f *Float) decode(_ map[string]string, data string) error {
 
 	*f = Float(cf)
 
-	return nil
+	return f.valid()
 }
 
 func (f Float) aencode(w writer) {
@@ -423,7 +423,7 @@ func (f Float) encode(w writer) {
 func (f Float) valid() error {
 	d := float64(f)
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
@@ -448,7 +448,7 @@ func (t *TFloat) decode(_ map[string]string, data string) error {
 		return fmt.Errorf("error parsing TFloat[1]: %w", err)
 	}
 
-	return nil
+	return t.valid()
 }
 
 func (t TFloat) aencode(w writer) {
@@ -465,13 +465,13 @@ func (t TFloat) encode(w writer) {
 func (t TFloat) valid() error {
 	d := float64(t[0])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
 	d = float64(t[1])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
-- 
2.43.0


From 77cabb7fadc46da485ef2d5585c21d8273249f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:21 +0000
Subject: [PATCH 07/27] fix: do not panic on a BYDAY value with a sign but no
 weekday

A value such as +1 was indexed past its end. A plus sign without a
number is now refused like a minus sign is.
---
 types.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/types.go b/types.go
index 9234627..70ddf48 100644
--- a/types.go
+++ b/types.go
@@ -784,10 +784,8 @@ func (r *Recur) decode(params map[string]string, data string) error {
 					return ErrInvalidRecur
 				}
 
-				if day[0] == '+' {
-					day = day[1:]
-				} else if day[0] == '-' {
-					neg = true
+				if day[0] == '+' || day[0] == '-' {
+					neg = day[0] == '-'
 					numCheck = false
 					day = day[1:]
 
-- 
2.43.0


From 75943c9148494c1c32f6d4a5389d3d7178711213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:26 +0000
Subject: [PATCH 08/27] fix: refuse to encode weekday occurrences that cannot
 be decoded

---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index 70ddf48..61ad672 100644
--- a/types.go
+++ b/types.go
@@ -1191,6 +1191,10 @@ func (r *Recur) valid() error {
 		default:
 			return ErrInvalidRecurByDay
 		}
+
+		if day.Occurrence > 53 || day.Occurrence < -53 {
+			return ErrInvalidRecurByDay
+		}
 	}
 
 	for _, monthDay := range r.ByMonthDay {
-- 
2.43.0


From 592662f68332c0f7ef06dca0e0b0d76d02769922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:32 +0000
Subject: [PATCH 09/27] fix: refuse rules with both a count and an end or a
 repeated part

Encoding a rule with both Count and Until silently dropped Until.
Repeated FREQ, COUNT and UNTIL parts replaced each other, although all
other parts may occur only once.
---
 types.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 61ad672..2bd2c58 100644
--- a/types.go
+++ b/types.go
@@ -650,6 +650,10 @@ func (r *Recur) decode(params map[string]string, data string) error {
 
 		switch parts[0] {
 		case "FREQ":
+			if freq {
+				return ErrInvalidRecur
+			}
+
 			switch parts[1] {
 			case "SECONDLY":
 				r.Frequency = Secondly
@@ -671,7 +675,7 @@ func (r *Recur) decode(params map[string]string, data string) error {
 
 			freq = true
 		case "UNTIL":
-			if r.Count > 0 {
+			if r.Count > 0 || !r.Until.IsZero() {
 				return ErrInvalidRecur
 			} else if len(parts[1]) > 10 {
 				var d DateTime
@@ -693,7 +697,7 @@ func (r *Recur) decode(params map[string]string, data string) error {
 				r.UntilTime = false
 			}
 		case "COUNT":
-			if !r.Until.IsZero() {
+			if r.Count > 0 || !r.Until.IsZero() {
 				return ErrInvalidRecur
 			}
 
@@ -1167,6 +1171,10 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecurFrequency
 	}
 
+	if r.Count != 0 && !r.Until.IsZero() {
+		return ErrInvalidRecur
+	}
+
 	for _, second := range r.BySecond {
 		if second > 60 {
 			return ErrInvalidRecurBySecond
-- 
2.43.0


From 29fe36cb34c19d9fb6f5bf82265ba1a8bcbcaa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:08 +0000
Subject: [PATCH 10/27] fix: refuse durations with weeks and other parts

Only the weeks were written, losing the rest of the duration.
---
 types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 2bd2c58..da336a0 100644
--- a/types.go
+++ b/types.go
@@ -393,7 +393,11 @@ func (d Duration) encode(w writer) {
 	w.Write(data)
 }
 
-func (Duration) valid() error {
+func (d Duration) valid() error {
+	if d.Weeks != 0 && (d.Days != 0 || d.Hours != 0 || d.Minutes != 0 || d.Seconds != 0) {
+		return ErrInvalidDuration
+	}
+
 	return nil
 }
 
@@ -553,7 +557,7 @@ func (p Period) valid() error {
 	if p.Start.IsZero() {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
-		if p.Duration.Negative {
+		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
 	} else if !p.End.After(p.Start.Time) || p.Start.Location() != p.End.Location() {
-- 
2.43.0


From 2ec463a330a50d10ac0bcdab4ea2215f5e57b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:13 +0000
Subject: [PATCH 11/27] fix: require the time parts of a duration to follow a
 single T

P5H, P1D5S and PT1HT2H were accepted, the last losing its first part.
---
 types.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/types.go b/types.go
index da336a0..4632d8b 100644
--- a/types.go
+++ b/types.go
@@ -241,7 +241,11 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 
 	for t.Peek() != -1 {
 		if t.Accept("T") {
-			level = 1
+			if level > 1 {
+				return ErrInvalidDuration
+			}
+
+			level = 2
 		}
 
 		t.Get()
@@ -279,25 +283,25 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 			d.Days = num
 			level = 1
 		case 'H':
-			if level > 1 {
+			if level != 2 {
 				return ErrInvalidDuration
 			}
 
 			t.Accept("H")
 
 			d.Hours = num
-			level = 2
+			level = 3
 		case 'M':
-			if level > 2 {
+			if level < 2 || level > 3 {
 				return ErrInvalidDuration
 			}
 
 			t.Accept("M")
 
 			d.Minutes = num
-			level = 3
+			level = 4
 		case 'S':
-			if level > 3 {
+			if level < 2 {
 				return ErrInvalidDuration
 			}
 
-- 
2.43.0


From cc9342eb8b380a55bc4e282aecffcb89ee54bad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:18 +0000
Subject: [PATCH 12/27] fix: refuse UTC offsets that do not fit in two hour
 digits

---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 4632d8b..ecae17e 100644
--- a/types.go
+++ b/types.go
@@ -1583,7 +1583,11 @@ func (u UTCOffset) encode(w writer) {
 	w.Write(b)
 }
 
-func (UTCOffset) valid() error {
+func (u UTCOffset) valid() error {
+	if u <= -360000 || u >= 360000 {
+		return ErrInvalidOffset
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 319e6609833685d2c5de0af72c6897914b123c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:23 +0000
Subject: [PATCH 13/27] fix: do not add a character after a trailing backslash
 in text

---
 types.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index ecae17e..a3bc2d8 100644
--- a/types.go
+++ b/types.go
@@ -1292,8 +1292,11 @@ Loop:
 				d = append(d, '\n')
 			default:
 				d = append(d, '\\')
-				l := utf8.EncodeRune(ru[:], c)
-				d = append(d, ru[:l]...)
+
+				if c != -1 {
+					l := utf8.EncodeRune(ru[:], c)
+					d = append(d, ru[:l]...)
+				}
 			}
 
 			t.Get()
-- 
2.43.0


From dd1a5ad682cdb50170c82997b55b01dd3d3577c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:28 +0000
Subject: [PATCH 14/27] fix: read booleans in any case

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index a3bc2d8..f890bf9 100644
--- a/types.go
+++ b/types.go
@@ -54,7 +54,7 @@ func (Binary) valid() error {
 type Boolean bool
 
 func (b *Boolean) decode(_ map[string]string, data string) error {
-	cb, err := strconv.ParseBool(data)
+	cb, err := strconv.ParseBool(strings.ToUpper(data))
 	*b = Boolean(cb)
 
 	if err != nil {
-- 
2.43.0


From 64fdcbb240a5b1bebc1bc6db080a4fded4292fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:04 +0000
Subject: [PATCH 15/27] fix: refuse date-times with fractional seconds

They are not part of the format and were lost when encoding.
---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index f890bf9..7770bf6 100644
--- a/types.go
+++ b/types.go
@@ -158,6 +158,10 @@ type DateTime struct {
 }
 
 func (d *DateTime) decode(params map[string]string, data string) error {
+	if len(data) > len(dateTimeFormat) {
+		return ErrInvalidTime // time.Parse would allow fractional seconds
+	}
+
 	if tz, ok := params["TZID"]; ok {
 		l, err := time.LoadLocation(tz)
 		if err != nil {
-- 
2.43.0


From 75887e271b67c58fdff2d7d60fdd55607033e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:33 +0000
Subject: [PATCH 16/27] fix: refuse times that cannot be written and read back

Years that do not have four digits and zone names with control or
separator characters were written, the latter adding lines to the
output. The zero time was decoded although it cannot be encoded.
---
 types.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/types.go b/types.go
index 7770bf6..92617d6 100644
--- a/types.go
+++ b/types.go
@@ -130,7 +130,7 @@ func (d *Date) decode(_ map[string]string, data string) error {
 
 	d.Time = t
 
-	return nil
+	return d.valid()
 }
 
 func (d Date) aencode(w writer) {
@@ -145,11 +145,7 @@ func (d Date) encode(w writer) {
 }
 
 func (d Date) valid() error {
-	if d.IsZero() {
-		return ErrInvalidTime
-	}
-
-	return nil
+	return validTime(d.Time)
 }
 
 // DateTime is a Calendar Date and Time.
@@ -190,7 +186,7 @@ func (d *DateTime) decode(params map[string]string, data string) error {
 		d.Time = t
 	}
 
-	return nil
+	return d.valid()
 }
 
 func (d DateTime) aencode(w writer) {
@@ -215,11 +211,7 @@ func (d DateTime) encode(w writer) {
 }
 
 func (d DateTime) valid() error {
-	if d.IsZero() {
-		return ErrInvalidTime
-	}
-
-	return nil
+	return validTime(d.Time)
 }
 
 // Duration is a duration of time.
@@ -562,13 +554,13 @@ func (p Period) encode(w writer) {
 }
 
 func (p Period) valid() error {
-	if p.Start.IsZero() {
+	if p.Start.valid() != nil {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
 		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || p.Start.Location() != p.End.Location() {
+	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location() != p.End.Location() {
 		return ErrInvalidPeriodEnd
 	}
 
@@ -1183,7 +1175,7 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecurFrequency
 	}
 
-	if r.Count != 0 && !r.Until.IsZero() {
+	if !r.Until.IsZero() && (r.Count != 0 || validTime(r.Until) != nil) {
 		return ErrInvalidRecur
 	}
 
@@ -1598,6 +1590,14 @@ func (u UTCOffset) valid() error {
 	return nil
 }
 
+func validTime(t time.Time) error {
+	if y := t.Year(); t.IsZero() || y < 0 || y > 9999 || strings.ContainsAny(t.Location().String(), nonsafeChars) {
+		return ErrInvalidTime
+	}
+
+	return nil
+}
+
 func writeTimezone(w writer, t time.Time) {
 	switch l := t.Location(); l {
 	case time.UTC, time.Local:
-- 
2.43.0


From dd5ff11842d0f92609e90b1a21dbd541a1507ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:37 +0000
Subject: [PATCH 17/27] fix: apply the same rules to periods when decoding and
 encoding

A decoded period whose end is not after its start was refused by
Encode, as was any decoded period in a named zone, because the zones
were compared by address.
---
 types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 92617d6..3c5f850 100644
--- a/types.go
+++ b/types.go
@@ -533,7 +533,7 @@ func (p *Period) decode(params map[string]string, data string) error {
 		return fmt.Errorf("error while decoding Period End: %w", err)
 	}
 
-	return nil
+	return p.valid()
 }
 
 func (p Period) aencode(w writer) {
@@ -560,7 +560,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
-	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location() != p.End.Location() {
+	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
-- 
2.43.0


From e1a956679db6670dfcebad6692106cd141a62902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:44 +0000
Subject: [PATCH 18/27] fix: decode LAST-MODIFIED, the name the property is
 encoded with

---
 names.gen    | 1 -
 sections.gen | 8 ++++----
 sections.go  | 8 ++++----
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/names.gen b/names.gen
index 9da5259..4d96975 100644
--- a/names.gen
+++ b/names.gen
@@ -42,7 +42,6 @@ TZURL=TimezoneURL
 REQUEST-STATUS=RequestStatus
 PRODID=ProductID
 UID=UID
-LAST-MOD=LastModified
 RECURID=RecurID
 RECURRENCE-ID=RecurrenceID
 TZOFFSET=TimezoneOffset
diff --git a/sections.gen b/sections.gen
index dba53b9..06d4903 100644
--- a/sections.gen
+++ b/sections.gen
@@ -14,7 +14,7 @@ VEVENT
 	CREATED
 	DESCRIPTION
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PRIORITY
@@ -48,7 +48,7 @@ VTODO
 	DESCRIPTION
 	DTSTART
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PERCENT-COMPLETE
@@ -79,7 +79,7 @@ VJOURNAL
 	CLASS
 	CREATED
 	DTSTART
-	LAST-MOD
+	LAST-MODIFIED
 	ORGANIZER
 	RECURRENCE-ID
 	SEQUENCE
@@ -112,7 +112,7 @@ VFREEBUSY
 	*REQUEST-STATUS
 VTIMEZONE
 	!TZID
-	LAST-MOD
+	LAST-MODIFIED
 	TZURL
 	*BEGIN:STANDARD
 	*BEGIN:DAYLIGHT
diff --git a/sections.go b/sections.go
index 741a87a..deddf38 100644
--- a/sections.go
+++ b/sections.go
@@ -327,7 +327,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cEvent, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cEvent, cLastModified)
 			}
@@ -1013,7 +1013,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTodo, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTodo, cLastModified)
 			}
@@ -1648,7 +1648,7 @@ Loop:
 			if err := s.DateTimeStart.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cJournal, cDateTimeStart, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cJournal, cLastModified)
 			}
@@ -2398,7 +2398,7 @@ Loop:
 			if err := s.TimezoneID.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneID, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTimezone, cLastModified)
 			}
-- 
2.43.0


From be6a8114b985e54df47cf485e3b76713b6cc47bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:03 +0000
Subject: [PATCH 19/27] fix: compare component names without regard to case at
 END

A component opened in lower or mixed case could not be closed in the
same case, nor could a nested unknown component.
---
 genSections.sh |  6 +++---
 sections.go    | 28 ++++++++++++++--------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 1ef7da9..51b0311 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -190,9 +190,9 @@ function printSection() {
 	done;
 	echo "		case \"END\":";
 	if [ "${sectionName:0:6}" = "VALARM" ]; then
-		echo "			if value != \"VALARM\" {";
+		echo "			if strings.ToUpper(value) != \"VALARM\" {";
 	else
-		echo "			if value != \"$sectionName\" {";
+		echo "			if strings.ToUpper(value) != \"$sectionName\" {";
 	fi;
 	echo "				return fmt.Errorf(errDecodingType, c$sName, ErrInvalidEnd)";
 	echo "			}";
@@ -444,7 +444,7 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
+			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
 				return err
 			}
 		case "END":
diff --git a/sections.go b/sections.go
index deddf38..4335fb7 100644
--- a/sections.go
+++ b/sections.go
@@ -106,7 +106,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cCalendar, cProductID, err)
 			}
 		case "END":
-			if value != "VCALENDAR" {
+			if strings.ToUpper(value) != "VCALENDAR" {
 				return fmt.Errorf(errDecodingType, cCalendar, ErrInvalidEnd)
 			}
 
@@ -538,7 +538,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VEVENT" {
+			if strings.ToUpper(value) != "VEVENT" {
 				return fmt.Errorf(errDecodingType, cEvent, ErrInvalidEnd)
 			}
 
@@ -1214,7 +1214,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VTODO" {
+			if strings.ToUpper(value) != "VTODO" {
 				return fmt.Errorf(errDecodingType, cTodo, ErrInvalidEnd)
 			}
 
@@ -1817,7 +1817,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VJOURNAL" {
+			if strings.ToUpper(value) != "VJOURNAL" {
 				return fmt.Errorf(errDecodingType, cJournal, ErrInvalidEnd)
 			}
 
@@ -2215,7 +2215,7 @@ Loop:
 
 			s.RequestStatus = append(s.RequestStatus, e)
 		case "END":
-			if value != "VFREEBUSY" {
+			if strings.ToUpper(value) != "VFREEBUSY" {
 				return fmt.Errorf(errDecodingType, cFreeBusy, ErrInvalidEnd)
 			}
 
@@ -2419,7 +2419,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneURL, err)
 			}
 		case "END":
-			if value != "VTIMEZONE" {
+			if strings.ToUpper(value) != "VTIMEZONE" {
 				return fmt.Errorf(errDecodingType, cTimezone, ErrInvalidEnd)
 			}
 
@@ -2592,7 +2592,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "STANDARD" {
+			if strings.ToUpper(value) != "STANDARD" {
 				return fmt.Errorf(errDecodingType, cStandard, ErrInvalidEnd)
 			}
 
@@ -2771,7 +2771,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "DAYLIGHT" {
+			if strings.ToUpper(value) != "DAYLIGHT" {
 				return fmt.Errorf(errDecodingType, cDaylight, ErrInvalidEnd)
 			}
 
@@ -3014,7 +3014,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmAudio, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmAudio, ErrInvalidEnd)
 			}
 
@@ -3331,7 +3331,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmDisplay, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrInvalidEnd)
 			}
 
@@ -3665,7 +3665,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmEmail, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmEmail, ErrInvalidEnd)
 			}
 
@@ -3985,7 +3985,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmURI, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmURI, ErrInvalidEnd)
 			}
 
@@ -4155,7 +4155,7 @@ Loop:
 				}
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmNone, ErrInvalidEnd)
 			}
 
@@ -4184,7 +4184,7 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
+			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
 				return err
 			}
 		case "END":
-- 
2.43.0


From d0bdffbbcd89d8ea051c4ae1409bb8b6c71f0228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:09 +0000
Subject: [PATCH 20/27] fix: require DURATION and REPEAT of an alarm together

The check was inverted: alarms with both or neither were refused.
---
 genSections.sh | 2 +-
 sections.go    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 51b0311..b1cd8e9 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -244,7 +244,7 @@ function printSection() {
 					echo -n " &&";
 				fi;
 				if $first; then
-					echo -n " t == (s.$(getName "$r") == nil)";
+					echo -n " t != (s.$(getName "$r") == nil)";
 					second=true;
 				else
 					echo -n " t := s.$(getName "$r") == nil;";
diff --git a/sections.go b/sections.go
index 4335fb7..38124a1 100644
--- a/sections.go
+++ b/sections.go
@@ -3681,7 +3681,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -4001,7 +4001,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-- 
2.43.0


From a49c44e070b72b5124f03cb7662ebaceb829d64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:14 +0000
Subject: [PATCH 21/27] fix: do not panic on a stream that ends inside an alarm

---
 sections_alarm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sections_alarm.go b/sections_alarm.go
index 4944994..ec8cd84 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -43,6 +43,8 @@ Loop:
 		ph, err := t.GetPhrase()
 		if err != nil {
 			return err
+		} else if ph.Type == parser.PhraseDone {
+			return io.ErrUnexpectedEOF
 		}
 
 		pt = append(pt, ph)
-- 
2.43.0


From aa952c684c86c00a1d674d8351ffc86018b3eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:19 +0000
Subject: [PATCH 22/27] fix: read alarm lines in any case and refuse a second
 action

Lower-case BEGIN, ACTION and END lines were not recognised inside an
alarm, and an unknown action could be followed by a known one.
---
 sections_alarm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sections_alarm.go b/sections_alarm.go
index ec8cd84..a9e6169 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -3,6 +3,7 @@ package ics
 import (
 	"errors"
 	"io"
+	"strings"
 
 	"vimagination.zapto.org/parser"
 )
@@ -49,7 +50,7 @@ Loop:
 
 		pt = append(pt, ph)
 
-		switch ph.Data[0].Data {
+		switch strings.ToUpper(ph.Data[0].Data) {
 		case "BEGIN":
 			return ErrInvalidStructure
 		case "ACTION":
@@ -57,7 +58,7 @@ Loop:
 				return ErrInvalidStructure
 			}
 
-			switch ph.Data[len(ph.Data)-1].Data {
+			switch strings.ToUpper(ph.Data[len(ph.Data)-1].Data) {
 			case "AUDIO":
 				a.AlarmType = new(AlarmAudio)
 			case "DISPLAY":
@@ -68,6 +69,8 @@ Loop:
 				a.AlarmType = new(AlarmURI)
 			case "NONE":
 				a.AlarmType = new(AlarmNone)
+			default:
+				return ErrInvalidAlarm
 			}
 		case "END":
 			break Loop
-- 
2.43.0


From ec776e14a3740f44bce777297ce10e0496936677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:51 +0000
Subject: [PATCH 23/27] fix: refuse to encode components that break the rules
 decoding enforces

Properties that exclude or require one another and empty time zones
were written although the result could not be decoded.
---
 genSections.sh | 135 ++++++++++++++++++++++++++++---------------------
 sections.go    |  40 +++++++++++++++
 2 files changed, 118 insertions(+), 57 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index b1cd8e9..d338fff 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -17,6 +17,82 @@ function addToSection() {
 	fi;
 }
 
+# prints a comparison of a field with its unset value; lists given to Encode may
+# be empty without being nil.
+function isSet() {
+	declare name="$(getName "$2")";
+	if [ "$3" = "errValidatingType" ]; then
+		for tline in "${currSection[@]}"; do
+			aline=( $tline );
+			if [ "${aline[0]}" = "$name" ] && ${aline[3]}; then
+				echo -n "len(s.$name) $1 0";
+				return;
+			fi;
+		done;
+	fi;
+	echo -n "s.$name $1 nil";
+}
+
+function printRequirements() {
+	for req in "${requirements[@]}"; do
+		first=false;
+		declare second=false;
+		echo -n "	if";
+		reqs=( $req );
+		typ=${reqs[0]};
+		reqs[0]="";
+		reqs=( ${reqs[@]} );
+		if [ "$typ" = "AND" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " &&";
+				fi;
+				if $first; then
+					echo -n " t != ($(isSet "==" "$r" $1))";
+					second=true;
+				else
+					echo -n " t := $(isSet "==" "$r" $1);";
+					first=true;
+				fi;
+			done;
+		elif [ "$typ" = "OR" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " $(isSet "==" "$r" $1)";
+			done;
+		elif [ "$typ" = "ONE" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " $(isSet "!=" "$r" $1)";
+			done;
+		elif [ "$typ" = "ERGO" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " || ";
+				fi;
+				if $first; then
+					echo -n "$(isSet "==" "$r" $1)";
+					second=true;
+				else
+					echo -n " $(isSet "!=" "$r" $1) && (";
+					first=true;
+				fi;
+			done;
+			echo -n ")";
+		fi;
+		echo " {";
+		echo "		return fmt.Errorf($1, c$sName, ErrRequirementNotMet)";
+		echo "	}";
+		echo;
+	done;
+}
+
 function printSection() {
 	declare sName="$(getName $sectionName)";
 
@@ -230,63 +306,7 @@ function printSection() {
 	fi;
 
 	# check other requirements
-	for req in "${requirements[@]}"; do
-		first=false;
-		declare second=false;
-		echo -n "	if";
-		reqs=( $req );
-		typ=${reqs[0]};
-		reqs[0]="";
-		reqs=( ${reqs[@]} );
-		if [ "$typ" = "AND" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " &&";
-				fi;
-				if $first; then
-					echo -n " t != (s.$(getName "$r") == nil)";
-					second=true;
-				else
-					echo -n " t := s.$(getName "$r") == nil;";
-					first=true;
-				fi;
-			done;
-		elif [ "$typ" = "OR" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") == nil";
-			done;
-		elif [ "$typ" = "ONE" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") != nil";
-			done;
-		elif [ "$typ" = "ERGO" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " || ";
-				fi;
-				if $first; then
-					echo -n "s.$(getName "$r") == nil";
-					second=true;
-				else
-					echo -n " s.$(getName "$r") != nil && (";
-					first=true;
-				fi;
-			done;
-			echo -n ")";
-		fi;
-		echo " {";
-		echo "		return fmt.Errorf(errDecodingType, c$sName, ErrRequirementNotMet)";
-		echo "	}";
-		echo;
-	done;
+	printRequirements errDecodingType;
 
 	# end of decoder
 	echo "	return nil";
@@ -358,6 +378,7 @@ function printSection() {
 		fi;
 		echo;
 	done;
+	printRequirements errValidatingType;
 	echo "	return nil";
 	echo "}";
 	echo;
diff --git a/sections.go b/sections.go
index 38124a1..95c6caa 100644
--- a/sections.go
+++ b/sections.go
@@ -864,6 +864,10 @@ func (s *Event) valid() error {
 		}
 	}
 
+	if s.DateTimeEnd != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cEvent, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -1544,6 +1548,14 @@ func (s *Todo) valid() error {
 		}
 	}
 
+	if s.Duration != nil && (s.DateTimeStart == nil) {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
+	if s.Due != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -2490,6 +2502,10 @@ func (s *Timezone) valid() error {
 		}
 	}
 
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
+		return fmt.Errorf(errValidatingType, cTimezone, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3163,6 +3179,10 @@ func (s *AlarmAudio) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3475,6 +3495,10 @@ func (s *AlarmDisplay) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3828,6 +3852,14 @@ func (s *AlarmEmail) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -4128,6 +4160,14 @@ func (s *AlarmURI) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From d9bf82c1312528a56b8e15c650d3aa55dedef29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:48 +0000
Subject: [PATCH 24/27] fix: refuse a multi-valued text without values, which
 was written as one empty value

---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index 3c5f850..966daed 100644
--- a/types.go
+++ b/types.go
@@ -1380,6 +1380,10 @@ func (t MText) encode(w writer) {
 }
 
 func (t MText) valid() error {
+	if len(t) == 0 {
+		return fmt.Errorf(errValidatingType, cMText, ErrInvalidText)
+	}
+
 	for _, m := range t {
 		if err := m.valid(); err != nil {
 			return err
-- 
2.43.0


From 493d87b636528d1181d30a5804f8002c74d2e380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:50 +0000
Subject: [PATCH 25/27] fix: refuse URIs with control characters behind a
 number sign

---
 types.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 966daed..7f84250 100644
--- a/types.go
+++ b/types.go
@@ -114,7 +114,12 @@ func (c CalendarAddress) encode(w writer) {
 func (c CalendarAddress) valid() error {
 	var v CalendarAddress
 
-	return v.decode(nil, c.URL.String())
+	s := c.URL.String()
+	if strings.ContainsAny(s, nonsafeChars[:32]) {
+		return ErrInvalidURI
+	}
+
+	return v.decode(nil, s)
 }
 
 // Date is a Calendar Data.
@@ -1487,7 +1492,12 @@ func (u URI) encode(w writer) {
 func (u URI) valid() error {
 	var v URI
 
-	return v.decode(nil, u.URL.String())
+	s := u.URL.String()
+	if strings.ContainsAny(s, nonsafeChars[:32]) {
+		return ErrInvalidURI
+	}
+
+	return v.decode(nil, s)
 }
 
 // UTCOffset contains the offset from UTC to local time.
@@ -1620,6 +1630,7 @@ var (
 	ErrInvalidBoolean         = errors.New("invalid Boolean")
 	ErrInvalidOffset          = errors.New("invalid UTC Offset")
 	ErrInvalidRecur           = errors.New("invalid Recur")
+	ErrInvalidURI             = errors.New("invalid URI")
 	ErrInvalidTime            = errors.New("invalid Time")
 	ErrInvalidFloat           = errors.New("invalid float")
 	ErrInvalidTFloat          = errors.New("invalid number of floats")
-- 
2.43.0


From 88e25cf15c33671669b89a100162b25bf8294c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:55 +0000
Subject: [PATCH 26/27] fix: refuse parameters without a name

---
 tokeniser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tokeniser.go b/tokeniser.go
index 262fe04..4e5be11 100644
--- a/tokeniser.go
+++ b/tokeniser.go
@@ -70,13 +70,19 @@ func parseParamName(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 	t.Accept(";")
 	t.Get()
 
-	if t.AcceptRun(ianaToken) != '=' {
+	next := t.AcceptRun(ianaToken)
+	name := t.Get()
+
+	if len(name) == 0 || next != '=' {
 		t.Err = ErrInvalidContentLineParamName
 
 		return t.Error()
 	}
 
-	return t.Return(tokenParamName, parseParamValue)
+	return parser.Token{
+		Type: tokenParamName,
+		Data: name,
+	}, parseParamValue
 }
 
 func parseParamValue(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
-- 
2.43.0


From 4b58b6beb7732102e64fb57f512d961fb266f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:14 +0000
Subject: [PATCH 27/27] fix: write an RSVP parameter that is false

An attendee with RSVP set to false was encoded without the parameter, so
decoding gave an attendee that has none.
---
 genParams.sh | 6 +-----
 params.go    | 4 ----
 2 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index a7e11e4..843c918 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -208,15 +208,11 @@ source "comments.sh";
 
 			#encoder
 			echo "func (t Param$type) encode(w writer) {";
-			if [ ${#choices} -eq 0 ] || $multiple; then
+			if [ "$vType" != "Boolean" ] && { [ ${#choices} -eq 0 ] || $multiple; }; then
 				if [ "$vType" = "CALADDRESS" -o "$vType" = "URI" ]; then
 					echo "	if len(t.String()) == 0 {";
 					echo "		return";
 					echo "	}";
-				elif [ "$vType" = "Boolean" ]; then
-					echo "	if !t {";
-					echo "		return";
-					echo "	}";
 				else
 					echo "	if len(t) == 0 {";
 					echo "		return";
diff --git a/params.go b/params.go
index 7df9138..c1b3d56 100644
--- a/params.go
+++ b/params.go
@@ -851,10 +851,6 @@ func (t *ParamRSVP) decode(vs []parser.Token) error {
 }
 
 func (t ParamRSVP) encode(w writer) {
-	if !t {
-		return
-	}
-
 	w.WriteString(";RSVP=")
 
 	q := Boolean(t)
-- 
2.43.0

