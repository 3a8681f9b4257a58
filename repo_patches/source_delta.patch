From eb6a991423327903a908eb743329883579150099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 1/9] fix: accept RFC 2141 namespace identifiers starting with
 u that are not "urn"

The lookahead only looked for a colon three characters after the "u",
so valid URNs such as urn:uab:x or urn:u:a:b were rejected as if their
identifier were the reserved "urn" string.
---
 machine.go    | 3 ++-
 machine.go.rl | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index aec1ba6..75b1989 100644
--- a/machine.go
+++ b/machine.go
@@ -4360,7 +4360,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			// Throw an error when:
 			// - we are entering here matching the the prefix in the namespace identifier part
 			// - looking ahead (3 chars) we find a colon
-			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+			// - the chars in between complete the reserved string (whatever case)
+			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" && m.data[m.p+1]|32 == 'r' && m.data[m.p+2]|32 == 'n' {
 				m.err = fmt.Errorf(errNoUrnWithinID, pos)
 				(m.p)--
 
diff --git a/machine.go.rl b/machine.go.rl
index 0a17421..66cca56 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -50,7 +50,8 @@ action throw_pre_urn_err {
         // Throw an error when:
         // - we are entering here matching the the prefix in the namespace identifier part
         // - looking ahead (3 chars) we find a colon
-        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+        // - the chars in between complete the reserved string (whatever case)
+        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" && m.data[m.p+1]|32 == 'r' && m.data[m.p+2]|32 == 'n' {
             m.err = fmt.Errorf(errNoUrnWithinID, pos)
             fhold;
             fgoto fail;
-- 
2.43.0


From 7010292616f4db37da3a091311801bcca818569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 2/9] fix: report an error for malformed RFC 8141 components

Inputs such as urn:ex:ex?a, urn:ex:ex? or urn:ex:ex#a#b stopped the
machine without any error, so it returned neither a URN nor an error:
Parse reported success with a nil URN and URN8141 unmarshaled to nil.
---
 machine.go    | 5 +++++
 machine.go.rl | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/machine.go b/machine.go
index 75b1989..c28190c 100644
--- a/machine.go
+++ b/machine.go
@@ -24,6 +24,7 @@ var (
 	err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
 	err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
 	err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+	err8141Components      = "expecting only a well-formed r-component (?+), q-component (?=), or f-component (#) to follow the specific string [col %d]"
 )
 var _toStateActions []byte = []byte{
 	0, 0, 0, 0, 0, 0, 0, 0,
@@ -5027,6 +5028,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		// The states in the between of the RFC 8141 components do not throw an error on their own
+		if m.err == nil {
+			m.err = fmt.Errorf(err8141Components, m.p)
+		}
 		return nil, m.err
 	}
 
diff --git a/machine.go.rl b/machine.go.rl
index 66cca56..3668986 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -24,6 +24,7 @@ var (
     err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
     err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
     err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+    err8141Components      = "expecting only a well-formed r-component (?+), q-component (?=), or f-component (#) to follow the specific string [col %d]"
 )
 
 %%{
@@ -367,6 +368,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
     %% write exec;
 
     if m.cs < first_final || m.cs == en_fail {
+        // The states in the between of the RFC 8141 components do not throw an error on their own
+        if m.err == nil {
+            m.err = fmt.Errorf(err8141Components, m.p)
+        }
         return nil, m.err
     }
 
-- 
2.43.0


From f111ec41e82fb38fef1f76ccd57b275da6996d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 3/9] fix: make the Default parsing mode parse as the default
 one

With the Default mode (or an unknown one) the machine had no state to
start from and returned neither a URN nor an error, so Parse reported
success with a nil URN.
---
 machine.go    | 5 +++++
 machine.go.rl | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/machine.go b/machine.go
index c28190c..eeb8104 100644
--- a/machine.go
+++ b/machine.go
@@ -5039,6 +5039,11 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 }
 
 func (m *machine) WithParsingMode(x ParsingMode) {
+	switch x {
+	case RFC2141Only, RFC8141Only, RFC7643Only:
+	default:
+		x = DefaultParsingMode
+	}
 	m.parsingMode = x
 	switch m.parsingMode {
 	case RFC2141Only:
diff --git a/machine.go.rl b/machine.go.rl
index 3668986..68b792e 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -379,6 +379,11 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 }
 
 func (m *machine) WithParsingMode(x ParsingMode) {
+    switch x {
+        case RFC2141Only, RFC8141Only, RFC7643Only:
+        default:
+            x = DefaultParsingMode
+    }
     m.parsingMode = x
     switch m.parsingMode {
         case RFC2141Only:
-- 
2.43.0


From 16f2ecc09c191f0772d44761d1ab1832c1afe04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 4/9] fix: do not write into the caller's buffer while parsing

Parse lowered the percent-encoded letters in place and reverted them
afterwards: it faulted on read-only memory, and concurrent calls on the
same bytes raced and could corrupt them and the URNs they returned.
---
 machine.go    | 70 +++++++++++++++++++++++++--------------------------
 machine.go.rl | 14 +++++------
 2 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/machine.go b/machine.go
index eeb8104..a9ee99e 100644
--- a/machine.go
+++ b/machine.go
@@ -4172,13 +4172,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 		output.SS = string(m.text())
 		// Iterate upper letters lowering them
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] + 32
-		}
-		output.norm = string(m.text())
-		// Revert the buffer to the original
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] - 32
+		{
+			// On a copy, because the input belongs to the caller
+			norm := []byte(output.SS)
+			for _, i := range output.tolower {
+				norm[i] = norm[i] + 32
+			}
+			output.norm = string(norm)
 		}
 
 		goto _again
@@ -4748,13 +4748,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.SS = string(m.text())
 				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
+				{
+					// On a copy, because the input belongs to the caller
+					norm := []byte(output.SS)
+					for _, i := range output.tolower {
+						norm[i] = norm[i] + 32
+					}
+					output.norm = string(norm)
 				}
 
 				output.kind = RFC2141
@@ -4763,13 +4763,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.SS = string(m.text())
 				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
+				{
+					// On a copy, because the input belongs to the caller
+					norm := []byte(output.SS)
+					for _, i := range output.tolower {
+						norm[i] = norm[i] + 32
+					}
+					output.norm = string(norm)
 				}
 
 				output.kind = RFC8141
@@ -4960,13 +4960,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.SS = string(m.text())
 				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
+				{
+					// On a copy, because the input belongs to the caller
+					norm := []byte(output.SS)
+					for _, i := range output.tolower {
+						norm[i] = norm[i] + 32
+					}
+					output.norm = string(norm)
 				}
 
 				output.kind = RFC7643
@@ -4977,13 +4977,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.SS = string(m.text())
 				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
+				{
+					// On a copy, because the input belongs to the caller
+					norm := []byte(output.SS)
+					for _, i := range output.tolower {
+						norm[i] = norm[i] + 32
+					}
+					output.norm = string(norm)
 				}
 
 				output.kind = RFC7643
diff --git a/machine.go.rl b/machine.go.rl
index 68b792e..f887baa 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -67,13 +67,13 @@ action set_nid {
 action set_nss {
     output.SS = string(m.text())
     // Iterate upper letters lowering them
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] + 32
-    }
-    output.norm = string(m.text())
-    // Revert the buffer to the original
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] - 32
+    {
+        // On a copy, because the input belongs to the caller
+        norm := []byte(output.SS)
+        for _, i := range output.tolower {
+            norm[i] = norm[i] + 32
+        }
+        output.norm = string(norm)
     }
 }
 
-- 
2.43.0


From 76aeb42022c10d13bd362c4279bca280c2e097dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 5/9] fix: keep the prefix of RFC 8141 URNs with an informal
 identifier

The identifier of URN:urn-7:x matches the prefix too, which overwrote
the actual one: the URN was reassembled into urn:urn-7:x.
---
 machine.go    | 5 ++++-
 machine.go.rl | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index a9ee99e..2de761e 100644
--- a/machine.go
+++ b/machine.go
@@ -4160,7 +4160,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f2:
 
-		output.prefix = string(m.text())
+		// Only once: an informal identifier (eg., urn-7) matches the prefix too
+		if output.prefix == "" {
+			output.prefix = string(m.text())
+		}
 
 		goto _again
 	f6:
diff --git a/machine.go.rl b/machine.go.rl
index f887baa..a86f238 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -43,7 +43,10 @@ action tolower {
 }
 
 action set_pre {
-    output.prefix = string(m.text())
+    // Only once: an informal identifier (eg., urn-7) matches the prefix too
+    if output.prefix == "" {
+        output.prefix = string(m.text())
+    }
 }
 
 action throw_pre_urn_err {
-- 
2.43.0


From 8c410aa174834b70e1abb8f0030c5de0a52ebac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 6/9] fix: parse RFC 8141 r-components in linear space and time

The r-component was copied at every question mark it contains, so that
few kilobytes of them made the parser allocate megabytes.
---
 machine.go    | 14 ++++++++++----
 machine.go.rl |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/machine.go b/machine.go
index 2de761e..d900db8 100644
--- a/machine.go
+++ b/machine.go
@@ -147,6 +147,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	output := &URN{
 		tolower: []int{},
 	}
+	var rComponent []byte
 	{
 		if (m.p) == (m.pe) {
 			goto _testEof
@@ -4304,7 +4305,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f42:
 
-		output.rComponent = string(m.text())
+		// Copied once, at the end, because any question mark may terminate the r-component
+		rComponent = m.text()
 
 		goto _again
 	f48:
@@ -4549,7 +4551,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		output.rStart = true
 
-		output.rComponent = string(m.text())
+		// Copied once, at the end, because any question mark may terminate the r-component
+		rComponent = m.text()
 
 		goto _again
 	f31:
@@ -4910,7 +4913,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 			case 42:
 
-				output.rComponent = string(m.text())
+				// Copied once, at the end, because any question mark may terminate the r-component
+				rComponent = m.text()
 
 				output.kind = RFC8141
 
@@ -5003,7 +5007,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				}
 				output.rStart = true
 
-				output.rComponent = string(m.text())
+				// Copied once, at the end, because any question mark may terminate the r-component
+				rComponent = m.text()
 
 				output.kind = RFC8141
 
@@ -5037,6 +5042,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		return nil, m.err
 	}
+	output.rComponent = string(rComponent)
 
 	return output, nil
 }
diff --git a/machine.go.rl b/machine.go.rl
index a86f238..06afea9 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -219,7 +219,8 @@ action rfc8141_type {
 }
 
 action set_r_component {
-    output.rComponent = string(m.text())
+    // Copied once, at the end, because any question mark may terminate the r-component
+    rComponent = m.text()
 }
 
 action set_q_component {
@@ -367,6 +368,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
     output := &URN{
         tolower: []int{},
     }
+    var rComponent []byte
 
     %% write exec;
 
@@ -377,6 +379,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
         }
         return nil, m.err
     }
+    output.rComponent = string(rComponent)
 
     return output, nil
 }
-- 
2.43.0


From f9e0ba426203404a6cafdc56b96fb1857907a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 7/9] fix: marshal the zero value of URN8141

It dereferenced the nil URN it embeds, while the zero URN marshals to
the empty JSON string.
---
 urn8141.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urn8141.go b/urn8141.go
index da4dd06..46e166b 100644
--- a/urn8141.go
+++ b/urn8141.go
@@ -12,6 +12,10 @@ type URN8141 struct {
 }
 
 func (u URN8141) MarshalJSON() ([]byte, error) {
+	if u.URN == nil {
+		return json.Marshal("")
+	}
+
 	return json.Marshal(u.String())
 }
 
-- 
2.43.0


From eae0d03a68c52535d35c224c86a0e0728766448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 8/9] fix: normalize and compare URNs that do not come straight
 from parsing

Normalizing a normalized URN, a literal one, or one whose specific
string has been changed lost or ignored its specific string, so that
Equal told apart equal URNs and matched different ones.
---
 machine.go    |  5 +++++
 machine.go.rl |  1 +
 urn.go        | 27 ++++++++++++++++++++++++++-
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/machine.go b/machine.go
index d900db8..e1b62ec 100644
--- a/machine.go
+++ b/machine.go
@@ -4183,6 +4183,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				norm[i] = norm[i] + 32
 			}
 			output.norm = string(norm)
+			output.normOf = output.SS
 		}
 
 		goto _again
@@ -4761,6 +4762,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 						norm[i] = norm[i] + 32
 					}
 					output.norm = string(norm)
+					output.normOf = output.SS
 				}
 
 				output.kind = RFC2141
@@ -4776,6 +4778,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 						norm[i] = norm[i] + 32
 					}
 					output.norm = string(norm)
+					output.normOf = output.SS
 				}
 
 				output.kind = RFC8141
@@ -4974,6 +4977,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 						norm[i] = norm[i] + 32
 					}
 					output.norm = string(norm)
+					output.normOf = output.SS
 				}
 
 				output.kind = RFC7643
@@ -4991,6 +4995,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 						norm[i] = norm[i] + 32
 					}
 					output.norm = string(norm)
+					output.normOf = output.SS
 				}
 
 				output.kind = RFC7643
diff --git a/machine.go.rl b/machine.go.rl
index 06afea9..cd318c8 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -77,6 +77,7 @@ action set_nss {
             norm[i] = norm[i] + 32
         }
         output.norm = string(norm)
+        output.normOf = output.SS
     }
 }
 
diff --git a/urn.go b/urn.go
index 894d625..70db8c9 100644
--- a/urn.go
+++ b/urn.go
@@ -20,6 +20,7 @@ type URN struct {
 	ID         string // Namespace identifier (NID)
 	SS         string // Namespace specific string (NSS)
 	norm       string // Normalized namespace specific string
+	normOf     string // Namespace specific string that norm has been computed from
 	kind       Kind
 	scim       *SCIM
 	rComponent string // RFC8141
@@ -34,16 +35,40 @@ type URN struct {
 //
 // Which means: lowercase prefix, lowercase namespace identifier, and immutate namespace specific string chars (except <hex> tokens which are lowercased).
 func (u *URN) Normalize() *URN {
+	norm := u.norm
+	// Only parsing computes the norm: a URN can also be built, or its fields set, by hand
+	if u.normOf != u.SS {
+		norm = lowerHex(u.SS)
+	}
+
 	return &URN{
 		prefix: "urn",
 		ID:     strings.ToLower(u.ID),
-		SS:     u.norm,
+		SS:     norm,
 		// rComponent: u.rComponent,
 		// qComponent: u.qComponent,
 		// fComponent: u.fComponent,
 	}
 }
 
+// lowerHex lowers the <hex> tokens of a namespace specific string.
+func lowerHex(ss string) string {
+	res := []byte(ss)
+	for i := 0; i+2 < len(res); i++ {
+		if res[i] != '%' {
+			continue
+		}
+		for _, j := range []int{i + 1, i + 2} {
+			if 'A' <= res[j] && res[j] <= 'Z' {
+				res[j] += 'a' - 'A'
+			}
+		}
+		i += 2
+	}
+
+	return string(res)
+}
+
 // Equal checks the lexical equivalence of the current URN with another one.
 func (u *URN) Equal(x *URN) bool {
 	if x == nil {
-- 
2.43.0


From 2c67fe2f1b5fb0a8b35e310412853609db4172dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 9/9] fix: blame the percent encoding only when it is the
 malformed part

A wrong char right after a complete percent encoding (urn:foo:a%4A{) was
reported as a malformed percent encoding.
---
 machine.go    | 840 +++++++++++++++++++-------------------------------
 machine.go.rl |   2 +-
 2 files changed, 322 insertions(+), 520 deletions(-)

diff --git a/machine.go b/machine.go
index e1b62ec..1ab1686 100644
--- a/machine.go
+++ b/machine.go
@@ -50,8 +50,7 @@ var _toStateActions []byte = []byte{
 	0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 33, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0,
+	0, 0, 0, 0,
 }
 
 var _eofActions []byte = []byte{
@@ -76,10 +75,9 @@ var _eofActions []byte = []byte{
 	22, 22, 22, 22, 22, 22, 22, 22,
 	22, 22, 22, 22, 22, 22, 22, 22,
 	22, 22, 22, 22, 22, 22, 22, 21,
-	21, 22, 22, 22, 34, 34, 35, 37,
-	37, 38, 40, 41, 41, 38, 42, 42,
-	42, 44, 42, 48, 48, 48, 50, 44,
-	50, 0,
+	21, 22, 22, 22, 34, 35, 37, 38,
+	40, 41, 42, 42, 44, 42, 48, 48,
+	50, 44, 50, 0,
 }
 
 const start int = 1
@@ -87,7 +85,7 @@ const firstFinal int = 172
 
 const enScimOnly int = 44
 const enRfc8141Only int = 83
-const enFail int = 193
+const enFail int = 187
 const enMain int = 1
 
 // Machine is the interface representing the FSM
@@ -867,32 +865,32 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		case 172:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr212
+				goto tr47
 			case 36:
-				goto tr212
+				goto tr47
 			case 37:
-				goto tr213
-			case 61:
 				goto tr212
+			case 61:
+				goto tr47
 			case 95:
-				goto tr212
+				goto tr47
 			}
 			switch {
 			case (m.data)[(m.p)] < 48:
 				if 39 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr212
+					goto tr47
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr212
+						goto tr47
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr212
+					goto tr47
 				}
 			default:
-				goto tr212
+				goto tr47
 			}
 			goto tr41
 		case 39:
@@ -923,37 +921,6 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr48
 			}
 			goto tr44
-		case 173:
-			switch (m.data)[(m.p)] {
-			case 33:
-				goto tr212
-			case 36:
-				goto tr212
-			case 37:
-				goto tr213
-			case 61:
-				goto tr212
-			case 95:
-				goto tr212
-			}
-			switch {
-			case (m.data)[(m.p)] < 48:
-				if 39 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr212
-				}
-			case (m.data)[(m.p)] > 59:
-				switch {
-				case (m.data)[(m.p)] > 90:
-					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr212
-					}
-				case (m.data)[(m.p)] >= 64:
-					goto tr212
-				}
-			default:
-				goto tr212
-			}
-			goto tr44
 		case 41:
 			switch (m.data)[(m.p)] {
 			case 45:
@@ -1172,21 +1139,21 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr82
 			}
 			goto tr81
-		case 174:
+		case 173:
 			if (m.data)[(m.p)] == 58 {
-				goto tr215
+				goto tr214
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr214
+					goto tr213
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr214
+					goto tr213
 				}
 			default:
-				goto tr214
+				goto tr213
 			}
 			goto tr81
 		case 70:
@@ -1220,35 +1187,35 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr84
 			}
 			goto tr83
-		case 175:
+		case 174:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr216
+				goto tr89
 			case 36:
-				goto tr216
+				goto tr89
 			case 37:
-				goto tr217
+				goto tr215
 			case 61:
-				goto tr216
+				goto tr89
 			case 95:
-				goto tr216
+				goto tr89
 			}
 			switch {
 			case (m.data)[(m.p)] < 48:
 				if 39 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr216
+					goto tr89
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr216
+						goto tr89
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr216
+					goto tr89
 				}
 			default:
-				goto tr216
+				goto tr89
 			}
 			goto tr83
 		case 71:
@@ -1279,37 +1246,6 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr90
 			}
 			goto tr86
-		case 176:
-			switch (m.data)[(m.p)] {
-			case 33:
-				goto tr216
-			case 36:
-				goto tr216
-			case 37:
-				goto tr217
-			case 61:
-				goto tr216
-			case 95:
-				goto tr216
-			}
-			switch {
-			case (m.data)[(m.p)] < 48:
-				if 39 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr216
-				}
-			case (m.data)[(m.p)] > 59:
-				switch {
-				case (m.data)[(m.p)] > 90:
-					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr216
-					}
-				case (m.data)[(m.p)] >= 64:
-					goto tr216
-				}
-			default:
-				goto tr216
-			}
-			goto tr86
 		case 73:
 			if (m.data)[(m.p)] == 97 {
 				goto tr91
@@ -1969,86 +1905,86 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr170
 			}
 			goto tr169
-		case 177:
+		case 175:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr218
+				goto tr180
 			case 35:
-				goto tr219
+				goto tr216
 			case 37:
-				goto tr220
+				goto tr217
 			case 61:
-				goto tr218
+				goto tr180
 			case 63:
-				goto tr221
-			case 95:
 				goto tr218
+			case 95:
+				goto tr180
 			case 126:
-				goto tr218
+				goto tr180
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr218
+					goto tr180
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr218
+					goto tr180
 				}
 			default:
-				goto tr218
+				goto tr180
 			}
 			goto tr169
-		case 178:
+		case 176:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr222
+				goto tr219
 			case 37:
-				goto tr223
+				goto tr220
 			case 61:
-				goto tr222
+				goto tr219
 			case 95:
-				goto tr222
+				goto tr219
 			case 126:
-				goto tr222
+				goto tr219
 			}
 			switch {
 			case (m.data)[(m.p)] < 63:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr222
+					goto tr219
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr222
+					goto tr219
 				}
 			default:
-				goto tr222
+				goto tr219
 			}
 			goto tr183
-		case 179:
+		case 177:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr224
+				goto tr175
 			case 37:
-				goto tr225
+				goto tr221
 			case 61:
-				goto tr224
+				goto tr175
 			case 95:
-				goto tr224
+				goto tr175
 			case 126:
-				goto tr224
+				goto tr175
 			}
 			switch {
 			case (m.data)[(m.p)] < 63:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr224
+					goto tr175
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr224
+					goto tr175
 				}
 			default:
-				goto tr224
+				goto tr175
 			}
 			goto tr183
 		case 121:
@@ -2079,32 +2015,6 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr176
 			}
 			goto tr172
-		case 180:
-			switch (m.data)[(m.p)] {
-			case 33:
-				goto tr224
-			case 37:
-				goto tr225
-			case 61:
-				goto tr224
-			case 95:
-				goto tr224
-			case 126:
-				goto tr224
-			}
-			switch {
-			case (m.data)[(m.p)] < 63:
-				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr224
-				}
-			case (m.data)[(m.p)] > 90:
-				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr224
-				}
-			default:
-				goto tr224
-			}
-			goto tr172
 		case 123:
 			switch {
 			case (m.data)[(m.p)] < 65:
@@ -2133,36 +2043,6 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr181
 			}
 			goto tr177
-		case 181:
-			switch (m.data)[(m.p)] {
-			case 33:
-				goto tr218
-			case 35:
-				goto tr219
-			case 37:
-				goto tr220
-			case 61:
-				goto tr218
-			case 63:
-				goto tr221
-			case 95:
-				goto tr218
-			case 126:
-				goto tr218
-			}
-			switch {
-			case (m.data)[(m.p)] < 64:
-				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr218
-				}
-			case (m.data)[(m.p)] > 90:
-				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr218
-				}
-			default:
-				goto tr218
-			}
-			goto tr177
 		case 125:
 			switch (m.data)[(m.p)] {
 			case 43:
@@ -2204,34 +2084,34 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr186
 			}
 			goto tr185
-		case 182:
+		case 178:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr226
+				goto tr192
 			case 35:
-				goto tr227
+				goto tr222
 			case 37:
-				goto tr228
+				goto tr223
 			case 61:
-				goto tr226
+				goto tr192
 			case 63:
-				goto tr229
+				goto tr224
 			case 95:
-				goto tr226
+				goto tr192
 			case 126:
-				goto tr226
+				goto tr192
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr226
+					goto tr192
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr226
+					goto tr192
 				}
 			default:
-				goto tr226
+				goto tr192
 			}
 			goto tr185
 		case 127:
@@ -2262,160 +2142,130 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr193
 			}
 			goto tr189
-		case 183:
+		case 179:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr226
+				goto tr192
 			case 35:
-				goto tr227
+				goto tr222
 			case 37:
-				goto tr228
+				goto tr223
+			case 43:
+				goto tr225
 			case 61:
 				goto tr226
 			case 63:
-				goto tr229
+				goto tr224
 			case 95:
-				goto tr226
+				goto tr192
 			case 126:
-				goto tr226
+				goto tr192
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr226
+					goto tr192
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr226
+					goto tr192
 				}
 			default:
-				goto tr226
+				goto tr192
 			}
-			goto tr189
-		case 184:
+			goto tr185
+		case 180:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr226
-			case 35:
 				goto tr227
-			case 37:
+			case 35:
 				goto tr228
-			case 43:
-				goto tr230
+			case 37:
+				goto tr229
+			case 47:
+				goto tr192
 			case 61:
-				goto tr231
+				goto tr227
 			case 63:
-				goto tr229
+				goto tr230
 			case 95:
-				goto tr226
+				goto tr227
 			case 126:
-				goto tr226
+				goto tr227
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr226
+					goto tr227
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr226
+					goto tr227
 				}
 			default:
-				goto tr226
+				goto tr227
 			}
 			goto tr185
-		case 185:
+		case 181:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr232
+				goto tr204
 			case 35:
-				goto tr233
+				goto tr222
 			case 37:
-				goto tr234
+				goto tr232
 			case 47:
-				goto tr226
+				goto tr192
 			case 61:
-				goto tr232
+				goto tr204
 			case 63:
-				goto tr235
+				goto tr224
 			case 95:
-				goto tr232
+				goto tr204
 			case 126:
-				goto tr232
+				goto tr204
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr232
+					goto tr204
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr232
+					goto tr204
 				}
 			default:
-				goto tr232
+				goto tr204
 			}
-			goto tr185
-		case 186:
+			goto tr231
+		case 182:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr204
+				goto tr197
 			case 35:
-				goto tr227
+				goto tr233
 			case 37:
-				goto tr237
-			case 47:
-				goto tr226
+				goto tr234
 			case 61:
-				goto tr204
+				goto tr197
 			case 63:
-				goto tr229
+				goto tr235
 			case 95:
-				goto tr204
+				goto tr197
 			case 126:
-				goto tr204
+				goto tr197
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr204
+					goto tr197
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr204
+					goto tr197
 				}
 			default:
-				goto tr204
-			}
-			goto tr236
-		case 187:
-			switch (m.data)[(m.p)] {
-			case 33:
-				goto tr238
-			case 35:
-				goto tr239
-			case 37:
-				goto tr240
-			case 61:
-				goto tr238
-			case 63:
-				goto tr241
-			case 95:
-				goto tr238
-			case 126:
-				goto tr238
-			}
-			switch {
-			case (m.data)[(m.p)] < 64:
-				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr238
-				}
-			case (m.data)[(m.p)] > 90:
-				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr238
-				}
-			default:
-				goto tr238
+				goto tr197
 			}
 			goto tr203
 		case 129:
@@ -2446,96 +2296,66 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr198
 			}
 			goto tr194
-		case 188:
+		case 183:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr238
+				goto tr197
 			case 35:
-				goto tr239
+				goto tr233
 			case 37:
-				goto tr240
+				goto tr234
 			case 61:
-				goto tr238
+				goto tr236
 			case 63:
-				goto tr241
+				goto tr235
 			case 95:
-				goto tr238
+				goto tr197
 			case 126:
-				goto tr238
+				goto tr197
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr238
-				}
-			case (m.data)[(m.p)] > 90:
-				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr238
-				}
-			default:
-				goto tr238
-			}
-			goto tr194
-		case 189:
-			switch (m.data)[(m.p)] {
-			case 33:
-				goto tr238
-			case 35:
-				goto tr239
-			case 37:
-				goto tr240
-			case 61:
-				goto tr242
-			case 63:
-				goto tr241
-			case 95:
-				goto tr238
-			case 126:
-				goto tr238
-			}
-			switch {
-			case (m.data)[(m.p)] < 64:
-				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr238
+					goto tr197
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr238
+					goto tr197
 				}
 			default:
-				goto tr238
+				goto tr197
 			}
 			goto tr203
-		case 190:
+		case 184:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr243
+				goto tr237
 			case 35:
-				goto tr244
+				goto tr238
 			case 37:
-				goto tr245
+				goto tr239
 			case 47:
-				goto tr238
+				goto tr197
 			case 61:
-				goto tr243
+				goto tr237
 			case 63:
-				goto tr246
+				goto tr240
 			case 95:
-				goto tr243
+				goto tr237
 			case 126:
-				goto tr243
+				goto tr237
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr243
+					goto tr237
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr243
+					goto tr237
 				}
 			default:
-				goto tr243
+				goto tr237
 			}
 			goto tr203
 		case 131:
@@ -2571,39 +2391,39 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr202
 			}
 			goto tr185
-		case 191:
+		case 185:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr232
+				goto tr227
 			case 35:
-				goto tr233
+				goto tr228
 			case 37:
-				goto tr234
+				goto tr229
 			case 61:
-				goto tr232
+				goto tr227
 			case 63:
-				goto tr247
+				goto tr241
 			case 95:
-				goto tr232
+				goto tr227
 			case 126:
-				goto tr232
+				goto tr227
 			}
 			switch {
 			case (m.data)[(m.p)] < 48:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr232
+					goto tr227
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr232
+						goto tr227
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr232
+					goto tr227
 				}
 			default:
-				goto tr232
+				goto tr227
 			}
 			goto tr185
 		case 134:
@@ -2652,39 +2472,39 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr207
 			}
 			goto tr203
-		case 192:
+		case 186:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr243
+				goto tr237
 			case 35:
-				goto tr244
+				goto tr238
 			case 37:
-				goto tr245
+				goto tr239
 			case 61:
-				goto tr243
+				goto tr237
 			case 63:
-				goto tr248
+				goto tr242
 			case 95:
-				goto tr243
+				goto tr237
 			case 126:
-				goto tr243
+				goto tr237
 			}
 			switch {
 			case (m.data)[(m.p)] < 48:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr243
+					goto tr237
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr243
+						goto tr237
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr243
+					goto tr237
 				}
 			default:
-				goto tr243
+				goto tr237
 			}
 			goto tr203
 		case 137:
@@ -3387,14 +3207,14 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr116
 			}
 			goto tr106
-		case 193:
+		case 187:
 			switch (m.data)[(m.p)] {
 			case 10:
 				goto tr183
 			case 13:
 				goto tr183
 			}
-			goto tr249
+			goto tr243
 		}
 
 	tr183:
@@ -3463,7 +3283,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr203:
 		m.cs = 0
 		goto f30
-	tr236:
+	tr231:
 		m.cs = 0
 		goto f46
 	tr1:
@@ -3577,7 +3397,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr10:
 		m.cs = 38
 		goto f6
-	tr213:
+	tr212:
 		m.cs = 39
 		goto _again
 	tr43:
@@ -3673,10 +3493,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr80:
 		m.cs = 69
 		goto f14
-	tr215:
+	tr214:
 		m.cs = 70
 		goto f35
-	tr217:
+	tr215:
 		m.cs = 71
 		goto _again
 	tr85:
@@ -3829,10 +3649,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr168:
 		m.cs = 120
 		goto f6
-	tr225:
+	tr221:
 		m.cs = 121
 		goto _again
-	tr223:
+	tr220:
 		m.cs = 121
 		goto f4
 	tr173:
@@ -3841,7 +3661,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr174:
 		m.cs = 122
 		goto f9
-	tr220:
+	tr217:
 		m.cs = 123
 		goto _again
 	tr171:
@@ -3853,19 +3673,19 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr179:
 		m.cs = 124
 		goto f9
-	tr221:
+	tr218:
 		m.cs = 125
 		goto f38
 	tr182:
 		m.cs = 126
 		goto _again
-	tr228:
+	tr223:
 		m.cs = 127
 		goto _again
 	tr187:
 		m.cs = 127
 		goto f26
-	tr234:
+	tr229:
 		m.cs = 127
 		goto f44
 	tr190:
@@ -3874,13 +3694,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr191:
 		m.cs = 128
 		goto f9
-	tr240:
+	tr234:
 		m.cs = 129
 		goto _again
 	tr205:
 		m.cs = 129
 		goto f31
-	tr245:
+	tr239:
 		m.cs = 129
 		goto f50
 	tr195:
@@ -3889,7 +3709,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr196:
 		m.cs = 130
 		goto f9
-	tr237:
+	tr232:
 		m.cs = 131
 		goto f31
 	tr200:
@@ -3901,7 +3721,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr188:
 		m.cs = 133
 		goto f26
-	tr247:
+	tr241:
 		m.cs = 134
 		goto f45
 	tr184:
@@ -3910,7 +3730,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr206:
 		m.cs = 136
 		goto f31
-	tr248:
+	tr242:
 		m.cs = 136
 		goto f50
 	tr166:
@@ -4018,134 +3838,116 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr211:
 		m.cs = 171
 		goto _again
-	tr212:
+	tr47:
 		m.cs = 172
 		goto _again
 	tr42:
 		m.cs = 172
 		goto f4
-	tr47:
-		m.cs = 173
-		goto _again
 	tr48:
-		m.cs = 173
+		m.cs = 172
 		goto f9
-	tr214:
-		m.cs = 174
+	tr213:
+		m.cs = 173
 		goto _again
 	tr82:
-		m.cs = 174
+		m.cs = 173
 		goto f16
-	tr216:
-		m.cs = 175
-		goto _again
-	tr84:
-		m.cs = 175
-		goto f18
 	tr89:
-		m.cs = 176
+		m.cs = 174
 		goto _again
 	tr90:
-		m.cs = 176
+		m.cs = 174
 		goto f9
-	tr218:
-		m.cs = 177
+	tr84:
+		m.cs = 174
+		goto f18
+	tr180:
+		m.cs = 175
 		goto _again
 	tr170:
-		m.cs = 177
+		m.cs = 175
 		goto f4
-	tr219:
-		m.cs = 178
+	tr181:
+		m.cs = 175
+		goto f9
+	tr216:
+		m.cs = 176
 		goto f38
-	tr227:
-		m.cs = 178
+	tr222:
+		m.cs = 176
 		goto f42
-	tr233:
-		m.cs = 178
+	tr228:
+		m.cs = 176
 		goto f45
-	tr239:
-		m.cs = 178
+	tr233:
+		m.cs = 176
 		goto f48
-	tr244:
-		m.cs = 178
+	tr238:
+		m.cs = 176
 		goto f51
-	tr224:
-		m.cs = 179
-		goto _again
-	tr222:
-		m.cs = 179
-		goto f4
 	tr175:
-		m.cs = 180
+		m.cs = 177
 		goto _again
+	tr219:
+		m.cs = 177
+		goto f4
 	tr176:
-		m.cs = 180
+		m.cs = 177
 		goto f9
-	tr180:
-		m.cs = 181
+	tr192:
+		m.cs = 178
 		goto _again
-	tr181:
-		m.cs = 181
+	tr193:
+		m.cs = 178
 		goto f9
-	tr226:
-		m.cs = 182
-		goto _again
 	tr186:
-		m.cs = 182
+		m.cs = 178
 		goto f26
-	tr232:
-		m.cs = 182
+	tr227:
+		m.cs = 178
 		goto f44
-	tr192:
-		m.cs = 183
-		goto _again
-	tr193:
-		m.cs = 183
-		goto f9
-	tr229:
-		m.cs = 184
+	tr224:
+		m.cs = 179
 		goto f42
-	tr235:
-		m.cs = 184
-		goto f45
 	tr230:
-		m.cs = 185
-		goto _again
-	tr231:
-		m.cs = 186
+		m.cs = 179
+		goto f45
+	tr225:
+		m.cs = 180
 		goto _again
-	tr238:
-		m.cs = 187
+	tr226:
+		m.cs = 181
 		goto _again
-	tr204:
-		m.cs = 187
-		goto f31
-	tr243:
-		m.cs = 187
-		goto f50
 	tr197:
-		m.cs = 188
+		m.cs = 182
 		goto _again
 	tr198:
-		m.cs = 188
+		m.cs = 182
 		goto f9
-	tr241:
-		m.cs = 189
+	tr204:
+		m.cs = 182
+		goto f31
+	tr237:
+		m.cs = 182
+		goto f50
+	tr235:
+		m.cs = 183
 		goto _again
-	tr246:
-		m.cs = 189
+	tr240:
+		m.cs = 183
 		goto f50
-	tr242:
-		m.cs = 190
+	tr236:
+		m.cs = 184
 		goto _again
 	tr202:
-		m.cs = 191
+		m.cs = 185
 		goto _again
 	tr207:
-		m.cs = 192
+		m.cs = 186
 		goto _again
-	tr249:
-		m.cs = 193
+	tr243:
+		m.cs = 187
 		goto _again
 
 	f4:
@@ -4192,7 +3994,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errPrefix, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4201,7 +4003,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errIdentifier, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4210,7 +4012,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errSpecificString, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4220,7 +4022,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 187
 			goto _again
 
 		}
@@ -4231,7 +4033,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errSCIMNamespace, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4240,7 +4042,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errSCIMType, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4249,7 +4051,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errSCIMName, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4262,7 +4064,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4291,7 +4093,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141SpecificString, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4300,7 +4102,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141Identifier, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4321,7 +4123,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(err8141RComponentStart, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 187
 			goto _again
 
 		}
@@ -4334,7 +4136,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(err8141QComponentStart, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 187
 			goto _again
 
 		}
@@ -4346,7 +4148,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4355,7 +4157,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4372,7 +4174,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errNoUrnWithinID, pos)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			}
@@ -4391,13 +4193,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errIdentifier, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		m.err = fmt.Errorf(errPrefix, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4406,13 +4208,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errIdentifier, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		m.err = fmt.Errorf(errNoUrnWithinID, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4422,7 +4224,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 187
 			goto _again
 
 		}
@@ -4430,7 +4232,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errSpecificString, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4440,7 +4242,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 187
 			goto _again
 
 		}
@@ -4452,7 +4254,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4462,7 +4264,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 187
 			goto _again
 
 		}
@@ -4470,7 +4272,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141SpecificString, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4480,7 +4282,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 187
 			goto _again
 
 		}
@@ -4488,7 +4290,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4498,7 +4300,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 187
 			goto _again
 
 		}
@@ -4506,7 +4308,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4515,13 +4317,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141Identifier, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		m.err = fmt.Errorf(errPrefix, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4531,7 +4333,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(err8141RComponentStart, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 187
 			goto _again
 
 		}
@@ -4546,7 +4348,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(err8141RComponentStart, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 187
 			goto _again
 
 		}
@@ -4562,7 +4364,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(err8141QComponentStart, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 187
 			goto _again
 
 		}
@@ -4577,7 +4379,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(err8141QComponentStart, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 187
 			goto _again
 
 		}
@@ -4591,13 +4393,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4607,7 +4409,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 187
 			goto _again
 
 		}
@@ -4615,13 +4417,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 187
 		goto _again
 
 		goto _again
@@ -4633,7 +4435,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			(m.p)--
 
 			m.err = fmt.Errorf(err8141InformalID, m.p)
-			m.cs = 193
+			m.cs = 187
 			goto _again
 		}
 
@@ -4653,7 +4455,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errPrefix, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 6:
@@ -4661,7 +4463,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errIdentifier, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 8:
@@ -4669,7 +4471,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errSpecificString, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 24:
@@ -4678,7 +4480,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 187
 					goto _again
 
 				}
@@ -4688,7 +4490,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errSCIMNamespace, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 14:
@@ -4696,7 +4498,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errSCIMType, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 16:
@@ -4704,7 +4506,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errSCIMName, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 18:
@@ -4716,7 +4518,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				}
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 23:
@@ -4724,7 +4526,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141SpecificString, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 22:
@@ -4732,7 +4534,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141Identifier, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 26:
@@ -4740,7 +4542,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 31:
@@ -4748,7 +4550,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 34:
@@ -4788,13 +4590,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errIdentifier, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 				m.err = fmt.Errorf(errPrefix, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 11:
@@ -4802,13 +4604,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errIdentifier, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 				m.err = fmt.Errorf(errNoUrnWithinID, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 9:
@@ -4817,7 +4619,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 187
 					goto _again
 
 				}
@@ -4825,7 +4627,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errSpecificString, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 20:
@@ -4834,7 +4636,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 187
 					goto _again
 
 				}
@@ -4846,7 +4648,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				}
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 25:
@@ -4855,7 +4657,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 187
 					goto _again
 
 				}
@@ -4863,7 +4665,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141SpecificString, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 28:
@@ -4872,7 +4674,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 187
 					goto _again
 
 				}
@@ -4880,7 +4682,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 29:
@@ -4889,7 +4691,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 187
 					goto _again
 
 				}
@@ -4897,7 +4699,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 21:
@@ -4905,13 +4707,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141Identifier, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 				m.err = fmt.Errorf(errPrefix, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 42:
@@ -4947,7 +4749,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 187
 					goto _again
 
 				}
@@ -4955,13 +4757,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 				m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 187
 				goto _again
 
 			case 35:
@@ -5006,7 +4808,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(err8141RComponentStart, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 187
 					goto _again
 
 				}
@@ -5023,7 +4825,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(err8141QComponentStart, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 187
 					goto _again
 
 				}
diff --git a/machine.go.rl b/machine.go.rl
index cd318c8..640df53 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -121,7 +121,7 @@ pre = ([uU] @err(err_pre) [rR] @err(err_pre) [nN] @err(err_pre)) >mark >throw_pr
 
 nid = (alnum >mark (alnum | '-'){0,31}) $err(err_nid) %set_nid;
 
-hex = '%' (digit | lower | upper >tolower){2} $err(err_hex);
+hex = ('%' (digit | lower | upper >tolower){2}) <>err(err_hex);
 
 sss = (alnum | [()+,\-.:=@;$_!*']);
 
-- 
2.43.0

