From c298738991b886172824d6104e324b72660f09b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:35 +0000
Subject: [PATCH 01/46] fix: ToMarker rejects markers outside of the text

The guard used && and could never be true, so a negative or too large marker
put the scanner on an invalid position and the next access panicked.
---
 scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index 475845e..965251d 100644
--- a/scanner.go
+++ b/scanner.go
@@ -371,7 +371,7 @@ type Marker int
 // Moves s to the marked position.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) ToMarker(m Marker) bool {
-	if m < 0 && Marker(len(s.full)) <= m {
+	if m < 0 || Marker(len(s.full)) < m {
 		return false
 	}
 	s.pos = int(m)
-- 
2.43.0


From 1d96131027a9265862f2cd9602beb6b5a38f391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:36 +0000
Subject: [PATCH 02/46] fix: ScanString reads exactly n runes up to the end of
 the text

ScanString(3) on "abc" failed, because a prefix that is the whole string was
never reported as complete.
---
 intl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intl.go b/intl.go
index 1f0a2cc..98a1206 100644
--- a/intl.go
+++ b/intl.go
@@ -44,7 +44,7 @@ func getPrefix(str string, n int) (string, bool) {
 		}
 		count++
 	}
-	return str, false
+	return str, count == n
 }
 
 func midSubString(str string, from int) string {
-- 
2.43.0


From 20d480e4a102c4a460970359126044518760a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:37 +0000
Subject: [PATCH 03/46] fix: step over U+FFFD and invalid UTF-8 with the real
 width

The reverse iterator stopped at every U+FFFD or invalid byte, so the Rev
functions did not see what is left of it. MoveRunes moved three bytes over an
invalid byte, or not at all near the end, which let Past, Body and BodyTail
loop forever.
---
 intl.go    | 6 ++----
 scanner.go | 8 +++++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/intl.go b/intl.go
index 98a1206..bb34c9b 100644
--- a/intl.go
+++ b/intl.go
@@ -23,11 +23,9 @@ func makeRevItr(str string) revItr {
 }
 
 func (itr *revItr) next() bool {
-	if itr.Val != utf8.RuneError {
-		itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
-	}
+	itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
 	itr.Val, itr.vi = utf8.DecodeLastRuneInString(itr.Str)
-	return itr.Val != utf8.RuneError
+	return itr.vi != 0
 }
 
 func (itr *revItr) pos() int {
diff --git a/scanner.go b/scanner.go
index 965251d..cbad2c4 100644
--- a/scanner.go
+++ b/scanner.go
@@ -334,10 +334,12 @@ func (s *Scanner) Move(n int) bool {
 func (s *Scanner) MoveRunes(n int) bool {
 	c := 0
 	if n > 0 {
-		for i, r := range s.Tail() {
+		tail := s.Tail()
+		for i := range tail {
 			c++
 			if n == c {
-				return s.Move(i + utf8.RuneLen(r))
+				_, width := utf8.DecodeRuneInString(tail[i:])
+				return s.Move(i + width)
 			}
 		}
 		return false
@@ -346,7 +348,7 @@ func (s *Scanner) MoveRunes(n int) bool {
 		for itr.next() {
 			c--
 			if n == c {
-				return s.Move(-(itr.pos() + utf8.RuneLen(itr.Val)))
+				return s.Move(-(itr.pos() + itr.vi))
 			}
 		}
 		return false
-- 
2.43.0


From 09a5adc8706a27e88469a8f1cc35efbbfbe72d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:38 +0000
Subject: [PATCH 04/46] fix: rune checks fail where no rune is left

IfRune, RevIfRune and RevIfAnyRune returned true for U+FFFD at the border of the
text, the width of a missing rune is 0 and not -1.
---
 scanner.go     | 2 +-
 scanner_rev.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scanner.go b/scanner.go
index cbad2c4..eda68cb 100644
--- a/scanner.go
+++ b/scanner.go
@@ -128,7 +128,7 @@ func (s *Scanner) ToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfRune(r rune) bool {
 	first, i := utf8.DecodeRuneInString(s.Tail())
-	if i == -1 || first != r {
+	if i == 0 || first != r {
 		return false
 	}
 	return s.Move(i)
diff --git a/scanner_rev.go b/scanner_rev.go
index 997b270..6680ce5 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -80,7 +80,7 @@ func (s *Scanner) RevToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfRune(r rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || last != r {
+	if i == 0 || last != r {
 		return false
 	}
 	return s.Move(-i)
@@ -125,7 +125,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfAnyRune(str string) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i != -1 && strings.ContainsRune(str, last) {
+	if i != 0 && strings.ContainsRune(str, last) {
 		return s.Move(-i)
 	}
 	return false
-- 
2.43.0


From c73ddd5189386697285cb69ef409f7c6c9f6359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:38 +0000
Subject: [PATCH 05/46] fix: RevIfBetween and RevIfMatch accept the runes that
 match

Both conditions were inverted.
---
 scanner_rev.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner_rev.go b/scanner_rev.go
index 6680ce5..95810eb 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -168,7 +168,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfBetween(min, max rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || inRange(min, last, max) {
+	if i == 0 || !inRange(min, last, max) {
 		return false
 	}
 	return s.Move(-i)
@@ -211,7 +211,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfMatch(check MatchFunc) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || check(last) {
+	if i == 0 || !check(last) {
 		return false
 	}
 	return s.Move(-i)
-- 
2.43.0


From 90998e58e0ff5371a0b397f4e5c92e307e3bba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:39 +0000
Subject: [PATCH 06/46] fix: fold functions compare rune by rune

IfFold, RevIfFold and RevToFold panicked if less text than the pattern was left,
and no fold function found an equal text of a different byte length, like the
Kelvin sign for k.
---
 intl.go        | 30 ++++++++++++++++++++++++++++++
 scanner.go     | 19 ++++++++++---------
 scanner_rev.go | 12 ++++--------
 3 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/intl.go b/intl.go
index bb34c9b..a98a044 100644
--- a/intl.go
+++ b/intl.go
@@ -1,6 +1,7 @@
 package tok
 
 import (
+	"strings"
 	"unicode/utf8"
 )
 
@@ -34,6 +35,35 @@ func (itr *revItr) pos() int {
 
 //------------------------------------------------------------------------------
 
+// Returns the number of bytes that str covers at the begin of text under
+// Unicode case-folding, -1 if text does not start with str.
+func foldPrefix(text string, str string) int {
+	n := 0
+	for _, r := range str {
+		v, i := utf8.DecodeRuneInString(text[n:])
+		if i == 0 || !strings.EqualFold(string(v), string(r)) {
+			return -1
+		}
+		n += i
+	}
+	return n
+}
+
+// Returns the number of bytes that str covers at the end of text under
+// Unicode case-folding, -1 if text does not end with str.
+func foldSuffix(text string, str string) int {
+	n := len(text)
+	itr := makeRevItr(str)
+	for itr.next() {
+		v, i := utf8.DecodeLastRuneInString(text[:n])
+		if i == 0 || !strings.EqualFold(string(v), string(itr.Val)) {
+			return -1
+		}
+		n -= i
+	}
+	return len(text) - n
+}
+
 func getPrefix(str string, n int) (string, bool) {
 	count := 0
 	for i := range str {
diff --git a/scanner.go b/scanner.go
index eda68cb..894de59 100644
--- a/scanner.go
+++ b/scanner.go
@@ -98,12 +98,11 @@ func (s *Scanner) To(str string) bool {
 }
 
 // ------------------------------------------------------------------------ fold
-// Moves s the length of str forward if Tail() has str as the prefix under Unicode case-folding.
+// Moves s over the prefix of Tail() that equals str under Unicode case-folding.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfFold(str string) bool {
-	i := len(str)
-	prefix := s.Tail()[:i]
-	if strings.EqualFold(prefix, str) {
+	i := foldPrefix(s.Tail(), str)
+	if i != -1 {
 		return s.Move(i)
 	}
 	return false
@@ -112,15 +111,17 @@ func (s *Scanner) IfFold(str string) bool {
 // Moves s to the first appearance of str in Tail() under Unicode case-folding.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) ToFold(str string) bool {
-	i := len(str)
 	sub := s.Tail()
-	for n := 0; len(sub) >= i+n; n++ {
-		prefix := sub[n : n+i]
-		if strings.EqualFold(prefix, str) {
+	for n := 0; ; {
+		if foldPrefix(sub[n:], str) != -1 {
 			return s.Move(n)
 		}
+		_, i := utf8.DecodeRuneInString(sub[n:])
+		if i == 0 {
+			return false
+		}
+		n += i
 	}
-	return false
 }
 
 // ------------------------------------------------------------------------ rune
diff --git a/scanner_rev.go b/scanner_rev.go
index 95810eb..4ad9c71 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -48,13 +48,11 @@ func (s *Scanner) RevTo(str string) bool {
 }
 
 // ------------------------------------------------------------------------ fold
-// Moves s the length of str backward if Head() has str as the suffix under Unicode case-folding.
+// Moves s backward over the suffix of Head() that equals str under Unicode case-folding.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfFold(str string) bool {
-	i := len(str)
-	head := s.Head()
-	suffix := head[len(head)-i:]
-	if strings.EqualFold(suffix, str) {
+	i := foldSuffix(s.Head(), str)
+	if i != -1 {
 		return s.Move(-i)
 	}
 	return false
@@ -63,11 +61,9 @@ func (s *Scanner) RevIfFold(str string) bool {
 // Moves s to the last appearance of str in Head() under Unicode case-folding.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevToFold(str string) bool {
-	i := len(str)
 	itr := makeRevItr(s.Head())
 	for itr.next() {
-		suffix := itr.Str[len(itr.Str)-i:]
-		if strings.EqualFold(suffix, str) {
+		if foldSuffix(itr.Str, str) != -1 {
 			return s.Move(-itr.pos())
 		}
 	}
-- 
2.43.0


From 44d5c347286f119f80f15243002cad2552822bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:40 +0000
Subject: [PATCH 07/46] fix: While functions return false if s was not moved

WhileRune, WhileBetween and the RevWhile functions returned true when the very
first rune did not match.
---
 scanner.go     | 6 ++++++
 scanner_rev.go | 8 ++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/scanner.go b/scanner.go
index 894de59..43b48ac 100644
--- a/scanner.go
+++ b/scanner.go
@@ -156,6 +156,9 @@ func (s *Scanner) WhileRune(r rune) bool {
 
 	for i, v := range s.Tail() {
 		if v != r {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
@@ -245,6 +248,9 @@ func (s *Scanner) WhileBetween(min, max rune) bool {
 
 	for i, v := range s.Tail() {
 		if !inRange(min, v, max) {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
diff --git a/scanner_rev.go b/scanner_rev.go
index 4ad9c71..81784a6 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -106,7 +106,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if itr.Val != r {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -150,7 +150,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !strings.ContainsRune(str, itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -192,7 +192,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !inRange(min, itr.Val, max) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -235,7 +235,7 @@ func (s *Scanner) RevWhileMatch(check MatchFunc) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !check(itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
-- 
2.43.0


From 510999bfd05488b5d7deca2b5bdc5bb49dfb6030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:41 +0000
Subject: [PATCH 08/46] fix: WhileMatch moves to the end if all runes pass the
 check

---
 scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index 43b48ac..55b7f68 100644
--- a/scanner.go
+++ b/scanner.go
@@ -298,7 +298,7 @@ func (s *Scanner) WhileMatch(check MatchFunc) bool {
 		}
 	}
 
-	return false
+	return s.ToEnd()
 }
 
 // ----------------------------------------------------------------------- state
-- 
2.43.0


From c65a3f73abe957f954dd532a3fad60795838367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 09/46] fix: ReadRune and RevReadRune read U+FFFD

Only a width of 0 or 1 marks a missing or invalid rune.
---
 read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 0773827..839c031 100644
--- a/read.go
+++ b/read.go
@@ -9,7 +9,7 @@ import (
 // ReadRune reads one rune value from the scanner.
 func (s *Scanner) ReadRune() (rune, error) {
 	r, i := utf8.DecodeRuneInString(s.Tail())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i <= 1 {
 		return utf8.RuneError, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(i), "rune")
@@ -18,7 +18,7 @@ func (s *Scanner) ReadRune() (rune, error) {
 // RevReadRune reads one rune value from the scanner the reverse way.
 func (s *Scanner) RevReadRune() (rune, error) {
 	r, i := utf8.DecodeLastRuneInString(s.Head())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i <= 1 {
 		return r, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(-i), "rune")
-- 
2.43.0


From 4dc9e417842a79d1a47d4a8e012d7ff7e9bad7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:43 +0000
Subject: [PATCH 10/46] fix: ReadInt and ReadUint stop before a 64 bit overflow

A product that wraps around can be larger than the value before, the digits
21000000000000000000 were read as 2553255926290448384.
---
 read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/read.go b/read.go
index 839c031..6562681 100644
--- a/read.go
+++ b/read.go
@@ -109,15 +109,15 @@ func (s *Scanner) ReadInt(base int, bitSize int) (int64, error) {
 		}
 
 		if neg {
-			tmp = (i64)*int64(base) - int64(v)
-			if i64 < tmp || tmp < min {
+			if i64 < (min+int64(v))/int64(base) {
 				break
 			}
+			tmp = (i64)*int64(base) - int64(v)
 		} else {
-			tmp = (i64 * int64(base)) + int64(v)
-			if i64 > tmp || tmp > max {
+			if i64 > (max-int64(v))/int64(base) {
 				break
 			}
+			tmp = (i64 * int64(base)) + int64(v)
 		}
 
 		i64 = tmp
@@ -196,10 +196,10 @@ func (s *Scanner) ReadUint(base int, bitSize int) (uint64, error) {
 			break
 		}
 
-		tmp = (u64 * uint64(base)) + uint64(v)
-		if u64 > tmp || tmp > max {
+		if u64 > (max-uint64(v))/uint64(base) {
 			break
 		}
+		tmp = (u64 * uint64(base)) + uint64(v)
 
 		u64 = tmp
 		n = i
-- 
2.43.0


From 9ad723b2877fad146a055f47f3700633246b42ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:45 +0000
Subject: [PATCH 11/46] fix: Holey fails at the end of the text

The missing rune counts as U+FFFD, so Holey matched without a move and a not
terminated JSON or Lua string was read forever.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 0fddcef..dc734a0 100644
--- a/reader.go
+++ b/reader.go
@@ -448,7 +448,7 @@ type holeyReader struct {
 
 func (r holeyReader) Read(s *Scanner) error {
 	val, i := utf8.DecodeRuneInString(s.Tail())
-	if inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
+	if i != 0 && inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
 		return s.ErrorIfFalse(s.Move(i), r.What())
 	}
 	return s.ErrorFor(r.What())
-- 
2.43.0


From 9376d75d80f463d16875fa47ca46803d34d55fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:46 +0000
Subject: [PATCH 12/46] fix: Times and Wrap move the scanner back on an error

Any, Opt, Zom and the other Reader continue after an error and expect that the
scanner was not moved.
---
 reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index dc734a0..bccd50c 100644
--- a/reader.go
+++ b/reader.go
@@ -896,8 +896,10 @@ type timesReader struct {
 }
 
 func (r *timesReader) Read(s *Scanner) error {
+	m := s.Mark()
 	for i := 0; i < r.n; i++ {
 		if e := r.sub.Read(s); e != nil {
+			s.ToMarker(m)
 			return e
 		}
 	}
@@ -980,7 +982,7 @@ type wrapReader struct {
 }
 
 func (r wrapReader) Read(s *Scanner) error {
-	return r.f(s)
+	return s.UseFunc(r.f)
 }
 
 func (r wrapReader) What() string {
-- 
2.43.0


From ae3f1f4ea03a6d65707b086f3c254eab02fd5f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:47 +0000
Subject: [PATCH 13/46] fix: Many and Zom stop if the sub Reader does not move

A sub Reader that matches without a move, like Opt, was read forever.
---
 reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index bccd50c..1091622 100644
--- a/reader.go
+++ b/reader.go
@@ -607,7 +607,8 @@ type manyReader struct {
 
 func (r manyReader) Read(s *Scanner) error {
 	start := s.Mark()
-	for r.sub.Read(s) == nil {
+	for m := start; r.sub.Read(s) == nil && s.Mark() != m; {
+		m = s.Mark()
 	}
 	end := s.Mark()
 	return s.ErrorIfFalse(start < end, r.What())
@@ -1006,7 +1007,8 @@ type zomReader struct {
 }
 
 func (r zomReader) Read(s *Scanner) error {
-	for r.sub.Read(s) == nil {
+	for m := s.Mark(); r.sub.Read(s) == nil && s.Mark() != m; {
+		m = s.Mark()
 	}
 	return nil
 }
-- 
2.43.0


From 31cae7a604c0dc97e6366c0681f4d5c2e2f4ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:48 +0000
Subject: [PATCH 14/46] fix: Not fails at the end of the text

Not moves one rune forward, without a rune it returned nil and did not move.
---
 reader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 1091622..cb261ca 100644
--- a/reader.go
+++ b/reader.go
@@ -710,8 +710,7 @@ func (r *notReader) Read(s *Scanner) error {
 	if err == nil {
 		return s.ErrorFor(r.sub.What())
 	}
-	s.MoveRunes(1)
-	return nil
+	return s.ErrorIfFalse(s.MoveRunes(1), r.What())
 }
 
 func (r *notReader) What() string {
-- 
2.43.0


From 13f16164714d8b2db3d4f2c057e4f49624445bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:49 +0000
Subject: [PATCH 15/46] fix: Past, Body and BodyTail also look at the end of
 the text

A Reader like AtEnd that matches at the end was never tried there, To does it.
---
 reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reader.go b/reader.go
index cb261ca..f21d123 100644
--- a/reader.go
+++ b/reader.go
@@ -322,7 +322,7 @@ type bodyReader struct {
 
 func (r *bodyReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
@@ -355,7 +355,7 @@ type bodyTailReader struct {
 
 func (r *bodyTailReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
@@ -753,7 +753,7 @@ type pastReader struct {
 
 func (r *pastReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		if e := r.sub.Read(s); e == nil {
 			return nil
 		}
-- 
2.43.0


From 7906ef231da63e5609009dc8e39033960bb39a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:37 +0000
Subject: [PATCH 16/46] fix: the second Janus Reader keeps the expected sub
 string

It was cleared with the first match, also if the Reader around it fails and looks
again, so [==[ ]==x ]==] was not readable as Lua string. A MXT header without a
salt sets now an empty salt, before was the salt of the last read document used.
---
 grammar/mxt.go | 2 +-
 reader.go      | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/grammar/mxt.go b/grammar/mxt.go
index 5edc60e..ac162cd 100644
--- a/grammar/mxt.go
+++ b/grammar/mxt.go
@@ -39,7 +39,7 @@ func MXT() *MXTReader {
 	g.Arrow.Reader = arrow
 	saltHead, saltTail := Janus("", Opt(&g.Word))
 	g.Salt.Reader = Seq(Many(' '), saltHead, Zom(' '))
-	g.Header.Reader = Seq(&g.Marker, Many(' '), &g.Name, &g.Comment, &g.Arrow, Opt(&g.Salt))
+	g.Header.Reader = Seq(&g.Marker, Many(' '), &g.Name, &g.Comment, &g.Arrow, Any(&g.Salt, At(saltHead)))
 	g.NextMarker.Reader = Seq(&g.NL, "//", saltTail)
 	g.EmptyContent.Reader = Any(AtEnd(), At(&g.NextMarker))
 	g.Content.Reader = To(Any(&g.NextMarker, AtEnd()))
diff --git a/reader.go b/reader.go
index f21d123..6ebd707 100644
--- a/reader.go
+++ b/reader.go
@@ -516,11 +516,7 @@ type janusEndReader struct {
 }
 
 func (r *janusEndReader) Read(s *Scanner) error {
-	err := r.reader.Read(s)
-	if err == nil {
-		r.reader.str = ""
-	}
-	return err
+	return r.reader.Read(s)
 }
 
 func (r *janusEndReader) What() string {
-- 
2.43.0


From 603892021c23674ccccea476e8eb90978ef7be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:38 +0000
Subject: [PATCH 17/46] fix: Body and BodyTail read the body at its position in
 the text

The body was read with a separate scanner, so the Tokens that Map and Pick got
inside of it were relative to the begin of the body and not removed from the
Basket when the body moved back.
---
 reader.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 6ebd707..85b611d 100644
--- a/reader.go
+++ b/reader.go
@@ -325,7 +325,8 @@ func (r *bodyReader) Read(s *Scanner) error {
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
+			s.ToMarker(m)
+			sub := &Scanner{full: s.full[:t], pos: int(m), Tracker: s.Tracker}
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
 				break
@@ -358,11 +359,16 @@ func (r *bodyTailReader) Read(s *Scanner) error {
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
+			s.ToMarker(m)
+			sub := &Scanner{full: s.full[:t], pos: int(m), Tracker: s.Tracker}
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
 				break
 			}
+			s.ToMarker(t)
+			if e = r.tail.Read(s); e != nil {
+				break
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 6856fc77bac83e58398244e508ae5c822727479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:39 +0000
Subject: [PATCH 18/46] fix: Any does not replace errors that are no ReadError

If no sub Reader fails with a ReadError was the result an empty ReadError for
the position 0, the message of an invalid Reader was lost.
---
 reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 85b611d..7fd21be 100644
--- a/reader.go
+++ b/reader.go
@@ -79,13 +79,15 @@ type anyReader struct {
 
 func getDeepest(errs []error) error {
 	var deepest ReadError
+	res := errs[len(errs)-1]
 	for _, e := range errs {
 		re, ok := e.(ReadError)
 		if ok && re.Later(deepest) {
 			deepest = re
+			res = re
 		}
 	}
-	return deepest
+	return res
 }
 
 func (r *anyReader) Read(s *Scanner) error {
@@ -99,6 +101,9 @@ func (r *anyReader) Read(s *Scanner) error {
 		}
 	}
 	s.ToMarker(m)
+	if len(errs) == 0 {
+		return s.ErrorFor(r.What())
+	}
 	return getDeepest(errs)
 }
 
-- 
2.43.0


From d31884deb64440fd8e090511c3deef6760ef5145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:40 +0000
Subject: [PATCH 19/46] fix: Log keeps the exit values of all entries

Enter returns a pointer into Entries, after Entries has grown did Exit write into
the old array and ExitAt and Error of the outer entries were lost.
---
 monitor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monitor.go b/monitor.go
index cf3f8a3..902e9f0 100644
--- a/monitor.go
+++ b/monitor.go
@@ -21,6 +21,7 @@ func (e LogEntry) String() string {
 type Log struct {
 	Entries []LogEntry
 	level   int
+	open    []int
 }
 
 func MonitorGrammar(g Grammar) *Log {
@@ -32,6 +33,7 @@ func MonitorGrammar(g Grammar) *Log {
 func (l *Log) Enter(info string, pos int) *LogEntry {
 	l.level++
 	i := len(l.Entries)
+	l.open = append(l.open, i)
 	l.Entries = append(l.Entries, LogEntry{
 		EnterAt: pos,
 		Info:    info,
@@ -44,6 +46,11 @@ func (l *Log) Exit(e *LogEntry, pos int, err error) {
 	e.ExitAt = pos
 	e.Error = err
 	l.level--
+	if last := len(l.open) - 1; last >= 0 {
+		// e can point to an old array if Entries has grown since Enter
+		l.Entries[l.open[last]] = *e
+		l.open = l.open[:last]
+	}
 }
 
 func (l *Log) Monitor(readers ...*Rule) {
@@ -67,6 +74,7 @@ func (l *Log) PrintWithPreview(str string, n int) {
 func (l *Log) Reset() {
 	l.Entries = []LogEntry{}
 	l.level = 0
+	l.open = nil
 }
 
 type monitorReader struct {
-- 
2.43.0


From 1ff2151a61482f9fb92222e26aa77583376479ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:41 +0000
Subject: [PATCH 20/46] fix: PrintWithPreview starts the preview at the
 position of the entry

EnterAt is a position in bytes, it was used as number of runes.
---
 monitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monitor.go b/monitor.go
index 902e9f0..a72e7a8 100644
--- a/monitor.go
+++ b/monitor.go
@@ -67,7 +67,11 @@ func (l *Log) Print() {
 
 func (l *Log) PrintWithPreview(str string, n int) {
 	for _, e := range l.Entries {
-		fmt.Println(e, ">", strconv.Quote(subStringFrom(str, e.EnterAt, n)))
+		preview := ""
+		if e.EnterAt <= len(str) {
+			preview, _ = getPrefix(str[e.EnterAt:], n)
+		}
+		fmt.Println(e, ">", strconv.Quote(preview))
 	}
 }
 
-- 
2.43.0


From 41ab17f6ecc35fc607e2f1378e64203e6fdfc78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:42 +0000
Subject: [PATCH 21/46] fix: sort Segments with a consistent order

For equal Tokens, and for an empty Token at the begin of another Token, were both
sides less than the other one. The order of equal Segments got lost and a covered
Segment could appear before the Segment that covers it.
---
 segment.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/segment.go b/segment.go
index c280450..fced912 100644
--- a/segment.go
+++ b/segment.go
@@ -45,13 +45,21 @@ func (s *segSorter) Swap(i, j int) {
 	s.values[i], s.values[j] = s.values[j], s.values[i]
 }
 
+// Reports whether a has to appear before b, a Token that covers others comes first.
+func sortsBefore(a, b Token) bool {
+	if a.from != b.from {
+		return a.from < b.from
+	}
+	return a.to > b.to
+}
+
 // SortSegments sorts the segments in a slice.
 // Segments that cover other segments will appear before the covered values.
 func SortSegments(values []Segment) {
 	sorter := &segSorter{
 		values: values,
 		cmpFunc: func(a, b Segment) bool {
-			return a.Covers(b.Token) || a.Before(b.Token)
+			return sortsBefore(a.Token, b.Token)
 		},
 	}
 	sort.Stable(sorter)
@@ -64,7 +72,7 @@ func SortSegmentsByOrder(values []Segment, order []string) {
 		values: values,
 		cmpFunc: func(a, b Segment) bool {
 			if a.Token != b.Token {
-				return a.Covers(b.Token) || a.Before(b.Token)
+				return sortsBefore(a.Token, b.Token)
 			}
 			ai, bi := -1, -1
 			for i, info := range order {
-- 
2.43.0


From 8661166bfc97ab1216820230d4da4cb1018de185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:42 +0000
Subject: [PATCH 22/46] fix: handle unexported fields in a Grammar

CollectRules and SetRuleNames panicked if the Grammar type has an unexported
field.
---
 grammar.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/grammar.go b/grammar.go
index bcacd3e..5cb1a75 100644
--- a/grammar.go
+++ b/grammar.go
@@ -41,6 +41,9 @@ func SetRuleNames(g Grammar) error {
 			return fmt.Errorf("invalid name for %s: %v", field.Name, e)
 		}
 		rule := v.Field(i)
+		if !rule.CanSet() {
+			return fmt.Errorf("not able to set the name of %s", field.Name)
+		}
 		ruleName := rule.FieldByName("Name")
 		ruleName.Set(reflect.ValueOf(name))
 	}
@@ -61,6 +64,9 @@ func CollectRules(g Grammar) []*Rule {
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < v.NumField(); i++ {
 		field := v.Field(i)
+		if !field.CanInterface() {
+			continue
+		}
 		i := field.Addr().Interface()
 		ptr, ok := i.(*Rule)
 		if !ok {
-- 
2.43.0


From 60a162af23d351913cbcb6d82000b98ed48a4724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:43 +0000
Subject: [PATCH 23/46] fix: CheckRuleName validates the whole name

Only the begin of the name was checked, a value like "a b!" was valid.
---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 5cb1a75..9b91d65 100644
--- a/grammar.go
+++ b/grammar.go
@@ -147,7 +147,7 @@ func (r ruleNameReader) What() string {
 
 // CheckRuleName validates the Name field of a RuleReader.
 func CheckRuleName(name string) error {
-	return NewScanner(name).Use(RuleName())
+	return NewScanner(name).Use(Seq(RuleName(), AtEnd()))
 }
 
 // RuleName returns a Reader to validate a Name field of a RuleReader.
-- 
2.43.0


From 88831bfeb3a45b648313c4a15f05d811d0f380d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:18 +0000
Subject: [PATCH 24/46] fix: Lua operators that start with another operator are
 readable

<<, >> and // came after <, > and /, so a << b was only read up to a.
---
 grammar/lua.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index ad3eafc..9dc2bfc 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -116,8 +116,8 @@ func Lua() *LuaReader {
 
 	g.UnOp.Reader = Any("-", "not", "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<=", "<", ">=", ">", "==", "~=", "and", "or",
-		"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<",
+		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", "and", "or",
+		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
 	skiper := Zom(Any(WS(), &g.Comment))
-- 
2.43.0


From 2b2d9f365bb7aa97db6ba9f6b0456743bdfc334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:18 +0000
Subject: [PATCH 25/46] fix: allow white space after the comma of a Lua name
 list

function f(a, b) end and for k, v in pairs(t) do end were not readable.
---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 9dc2bfc..b0abbdc 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -109,7 +109,7 @@ func Lua() *LuaReader {
 	MustSetRuleNames(g)
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
 	g.Name.Reader = Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
-	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(Seq(',', &g.Name)))
+	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
-- 
2.43.0


From 6321e638cdbb49b50599b3c378ec13188575970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:19 +0000
Subject: [PATCH 26/46] fix: Lua comments are readable where white space is

Most rules skipped only white space, so a comment after end, then or do stopped
the reader, a comment after an expression was read as two minus operators and a
comment in the last line needed a line feed.
---
 grammar/lua.go | 55 +++++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index b0abbdc..3fec9f9 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -41,7 +41,7 @@ func LuaString() Reader {
 }
 
 func LuaComment() Reader {
-	line := Seq("--", To('\n'))
+	line := Seq("--", To(Any('\n', AtEnd())))
 	cmtHead, cmtTail := Janus("", Zom("="))
 	longBeg := Seq("--[", cmtHead, '[')
 	longEnd := Seq(']', cmtTail, ']')
@@ -107,24 +107,25 @@ type LuaReader struct {
 func Lua() *LuaReader {
 	g := &LuaReader{}
 	MustSetRuleNames(g)
+	skiper := Zom(Any(WS(), &g.Comment))
+	skipSeq := func(list ...interface{}) Reader {
+		return SkipSeq(skiper, list...)
+	}
+
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
 	g.Name.Reader = Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
-	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq(',', &g.Name)))
+	g.NameList.Reader = skipSeq(&g.Name, Zom(skipSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
 
-	g.UnOp.Reader = Any("-", "not", "#", "~")
+	minus := Named(`"-"`, Seq('-', At(Not(Rune('-')))))
+	g.UnOp.Reader = Any(minus, "not", "#", "~")
 	g.BinOp.Reader = Any(
 		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", "and", "or",
-		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
+		"+", minus, "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
-	skiper := Zom(Any(WS(), &g.Comment))
-	skipSeq := func(list ...interface{}) Reader {
-		return SkipSeq(skiper, list...)
-	}
-
 	g.FieldSep.Reader = AnyRune(",;")
 	g.Field.Reader = Any(
 		skipSeq('[', &g.Exp, ']', '=', &g.Exp),
@@ -139,7 +140,7 @@ func Lua() *LuaReader {
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
 	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, "end")
-	g.FuncDef.Reader = SkipWSSeq(Lit("function"), &g.FuncBody)
+	g.FuncDef.Reader = skipSeq(Lit("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -157,7 +158,7 @@ func Lua() *LuaReader {
 		&g.PrefixExp,
 	)
 	g.Exp.Reader = Any(
-		SkipWSSeq(&g.FinalExp, &g.BinOp, &g.Exp),
+		skipSeq(&g.FinalExp, &g.BinOp, &g.Exp),
 		&g.FinalExp,
 	)
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
@@ -169,29 +170,29 @@ func Lua() *LuaReader {
 		&g.Name,
 		skipSeq('(', &g.Exp, ')', &g.VarSuffix),
 	), Zom(&g.VarSuffix))
-	g.VarList.Reader = SkipWSSeq(&g.Var, Zom(SkipWSSeq(',', &g.Var)))
+	g.VarList.Reader = skipSeq(&g.Var, Zom(skipSeq(',', &g.Var)))
 
-	g.FuncName.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq('.', &g.Name)), Opt(SkipWSSeq(':', &g.Name)))
+	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
 	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = SkipWSSeq(Lit("return"), Opt(&g.ExpList), Opt(';'))
+	g.RetStat.Reader = skipSeq(Lit("return"), Opt(&g.ExpList), Opt(';'))
 	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
-	g.AttNameList.Reader = SkipWSSeq(&g.Name, &g.Attrib, Zom(SkipWSSeq(',', &g.Name, &g.Attrib)))
+	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
 	g.Break.Reader = Lit("break")
-	g.GoTo.Reader = SkipWSSeq("goto", &g.Name)
-	g.Do.Reader = SkipWSSeq("do", &g.Block, "end")
-	g.While.Reader = SkipWSSeq("while", &g.Exp, "do", &g.Block, "end")
-	g.Repeat.Reader = SkipWSSeq("repeat", &g.Block, "until", &g.Exp)
-	g.IfElse.Reader = SkipWSSeq(
+	g.GoTo.Reader = skipSeq("goto", &g.Name)
+	g.Do.Reader = skipSeq("do", &g.Block, "end")
+	g.While.Reader = skipSeq("while", &g.Exp, "do", &g.Block, "end")
+	g.Repeat.Reader = skipSeq("repeat", &g.Block, "until", &g.Exp)
+	g.IfElse.Reader = skipSeq(
 		"if", &g.Exp, "then", &g.Block,
-		Zom(SkipWSSeq("elseif", &g.Exp, "then", &g.Block)),
-		Opt(SkipWSSeq("else", &g.Block)),
+		Zom(skipSeq("elseif", &g.Exp, "then", &g.Block)),
+		Opt(skipSeq("else", &g.Block)),
 		"end",
 	)
-	g.For.Reader = SkipWSSeq("for", &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), "do", &g.Block, "end")
-	g.ForEach.Reader = SkipWSSeq("for", &g.NameList, "in", &g.ExpList, "do", &g.Block, "end")
-	g.Func.Reader = SkipWSSeq("function", &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = SkipWSSeq("local", "function", &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = SkipWSSeq("local", &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
+	g.For.Reader = skipSeq("for", &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(skipSeq(',', &g.Exp)), "do", &g.Block, "end")
+	g.ForEach.Reader = skipSeq("for", &g.NameList, "in", &g.ExpList, "do", &g.Block, "end")
+	g.Func.Reader = skipSeq("function", &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = skipSeq("local", "function", &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = skipSeq("local", &g.AttNameList, Opt(skipSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
 		Seq(&g.VarList, '=', &g.ExpList),
-- 
2.43.0


From f5e8581e96a5402ae6b483e222729e694390afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:53 +0000
Subject: [PATCH 27/46] fix: Lua keywords are no names and end with the word

return end was read with end as a variable, nilx as nil and dofile() as the begin
of a do block.
---
 grammar/lua.go | 54 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 3fec9f9..2c44df8 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -2,6 +2,7 @@ package grammar
 
 import (
 	"fmt"
+	"strconv"
 	"unicode/utf8"
 
 	. "github.com/aiq/tok"
@@ -113,16 +114,27 @@ func Lua() *LuaReader {
 	}
 
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
-	g.Name.Reader = Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
+	nameChar := Set("a-zA-Z0-9", "_")
+	wordEnd := At(Any(AtEnd(), Not(nameChar)))
+	word := func(str string) Reader {
+		return Named(strconv.Quote(str), Seq(str, wordEnd))
+	}
+	keyword := Named("keyword", Any(
+		word("and"), word("break"), word("do"), word("else"), word("elseif"), word("end"),
+		word("false"), word("for"), word("function"), word("goto"), word("if"), word("in"),
+		word("local"), word("nil"), word("not"), word("or"), word("repeat"), word("return"),
+		word("then"), word("true"), word("until"), word("while"),
+	))
+	g.Name.Reader = Seq(At(Not(keyword)), Set("a-zA-Z", "_"), Zom(nameChar))
 	g.NameList.Reader = skipSeq(&g.Name, Zom(skipSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
 
 	minus := Named(`"-"`, Seq('-', At(Not(Rune('-')))))
-	g.UnOp.Reader = Any(minus, "not", "#", "~")
+	g.UnOp.Reader = Any(minus, word("not"), "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", "and", "or",
+		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", word("and"), word("or"),
 		"+", minus, "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
@@ -139,8 +151,8 @@ func Lua() *LuaReader {
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
-	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, "end")
-	g.FuncDef.Reader = skipSeq(Lit("function"), &g.FuncBody)
+	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, word("end"))
+	g.FuncDef.Reader = skipSeq(word("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -150,7 +162,7 @@ func Lua() *LuaReader {
 
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
 	g.FinalExp.Reader = Any(
-		"nil", "false", "true",
+		word("nil"), word("false"), word("true"),
 		LuaNumeral(), &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
@@ -174,25 +186,25 @@ func Lua() *LuaReader {
 
 	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
 	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = skipSeq(Lit("return"), Opt(&g.ExpList), Opt(';'))
+	g.RetStat.Reader = skipSeq(word("return"), Opt(&g.ExpList), Opt(';'))
 	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
 	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
-	g.Break.Reader = Lit("break")
-	g.GoTo.Reader = skipSeq("goto", &g.Name)
-	g.Do.Reader = skipSeq("do", &g.Block, "end")
-	g.While.Reader = skipSeq("while", &g.Exp, "do", &g.Block, "end")
-	g.Repeat.Reader = skipSeq("repeat", &g.Block, "until", &g.Exp)
+	g.Break.Reader = word("break")
+	g.GoTo.Reader = skipSeq(word("goto"), &g.Name)
+	g.Do.Reader = skipSeq(word("do"), &g.Block, word("end"))
+	g.While.Reader = skipSeq(word("while"), &g.Exp, word("do"), &g.Block, word("end"))
+	g.Repeat.Reader = skipSeq(word("repeat"), &g.Block, word("until"), &g.Exp)
 	g.IfElse.Reader = skipSeq(
-		"if", &g.Exp, "then", &g.Block,
-		Zom(skipSeq("elseif", &g.Exp, "then", &g.Block)),
-		Opt(skipSeq("else", &g.Block)),
-		"end",
+		word("if"), &g.Exp, word("then"), &g.Block,
+		Zom(skipSeq(word("elseif"), &g.Exp, word("then"), &g.Block)),
+		Opt(skipSeq(word("else"), &g.Block)),
+		word("end"),
 	)
-	g.For.Reader = skipSeq("for", &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(skipSeq(',', &g.Exp)), "do", &g.Block, "end")
-	g.ForEach.Reader = skipSeq("for", &g.NameList, "in", &g.ExpList, "do", &g.Block, "end")
-	g.Func.Reader = skipSeq("function", &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = skipSeq("local", "function", &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = skipSeq("local", &g.AttNameList, Opt(skipSeq('=', &g.ExpList)))
+	g.For.Reader = skipSeq(word("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(skipSeq(',', &g.Exp)), word("do"), &g.Block, word("end"))
+	g.ForEach.Reader = skipSeq(word("for"), &g.NameList, word("in"), &g.ExpList, word("do"), &g.Block, word("end"))
+	g.Func.Reader = skipSeq(word("function"), &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = skipSeq(word("local"), word("function"), &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = skipSeq(word("local"), &g.AttNameList, Opt(skipSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
 		Seq(&g.VarList, '=', &g.ExpList),
-- 
2.43.0


From bc5b96f2fc18ca5d6dbd988701b4d9b8a85e4a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:54 +0000
Subject: [PATCH 28/46] fix: the Lua Numeral rule is used for expressions

A Numeral was never picked, mapped or monitored.
---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 2c44df8..38f734f 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -163,7 +163,7 @@ func Lua() *LuaReader {
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
 	g.FinalExp.Reader = Any(
 		word("nil"), word("false"), word("true"),
-		LuaNumeral(), &g.LiteralString, "...",
+		&g.Numeral, &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
 		&g.TableConstructor,
-- 
2.43.0


From 9b3868345ff16262889ef23210f2ffa1e12bf64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:55 +0000
Subject: [PATCH 29/46] fix: allow white space around Lua labels, break and
 semicolon

Two of them on separate lines were not readable.
---
 grammar/lua.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 38f734f..9e3a777 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -185,11 +185,11 @@ func Lua() *LuaReader {
 	g.VarList.Reader = skipSeq(&g.Var, Zom(skipSeq(',', &g.Var)))
 
 	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
-	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
+	g.Label.Reader = skipSeq(Lit("::"), &g.Name, Lit("::"))
 	g.RetStat.Reader = skipSeq(word("return"), Opt(&g.ExpList), Opt(';'))
 	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
 	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
-	g.Break.Reader = word("break")
+	g.Break.Reader = skipSeq(word("break"))
 	g.GoTo.Reader = skipSeq(word("goto"), &g.Name)
 	g.Do.Reader = skipSeq(word("do"), &g.Block, word("end"))
 	g.While.Reader = skipSeq(word("while"), &g.Exp, word("do"), &g.Block, word("end"))
@@ -206,7 +206,7 @@ func Lua() *LuaReader {
 	g.LocalFunc.Reader = skipSeq(word("local"), word("function"), &g.Name, &g.FuncBody)
 	g.LocalAtt.Reader = skipSeq(word("local"), &g.AttNameList, Opt(skipSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
-		';',
+		skipSeq(';'),
 		Seq(&g.VarList, '=', &g.ExpList),
 		&g.Label,
 		&g.Break,
-- 
2.43.0


From 61ad3784499f6f01bdf1156052c3f2286182bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:45 +0000
Subject: [PATCH 30/46] fix: allow white space around more Lua separators

Not readable were a space in front of a field separator, around the dot of a field
access, the colon of a method call and the brackets of an attribute.
---
 grammar/lua.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 9e3a777..cbfa90a 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -144,10 +144,10 @@ func Lua() *LuaReader {
 		skipSeq(&g.Name, '=', &g.Exp),
 		&g.Exp,
 	)
-	g.FieldList.Reader = skipSeq(&g.Field, Zom(Seq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
+	g.FieldList.Reader = skipSeq(&g.Field, Zom(skipSeq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
 	g.TableConstructor.Reader = skipSeq('{', Opt(&g.FieldList), '}')
 
-	nameAndArgs := skipSeq(Opt(Seq(':', &g.Name)), &g.FuncArgs)
+	nameAndArgs := skipSeq(Opt(skipSeq(':', &g.Name)), &g.FuncArgs)
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
@@ -176,7 +176,7 @@ func Lua() *LuaReader {
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
 		skipSeq('[', &g.Exp, ']'),
-		Seq('.', &g.Name),
+		skipSeq('.', &g.Name),
 	))
 	g.Var.Reader = Seq(Any(
 		&g.Name,
@@ -187,7 +187,7 @@ func Lua() *LuaReader {
 	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
 	g.Label.Reader = skipSeq(Lit("::"), &g.Name, Lit("::"))
 	g.RetStat.Reader = skipSeq(word("return"), Opt(&g.ExpList), Opt(';'))
-	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
+	g.Attrib.Reader = Opt(skipSeq('<', &g.Name, '>'))
 	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
 	g.Break.Reader = skipSeq(word("break"))
 	g.GoTo.Reader = skipSeq(word("goto"), &g.Name)
-- 
2.43.0


From 1ada09b680922d3a1dd601270144b95bd13925aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:45 +0000
Subject: [PATCH 31/46] fix: read Lua numerals without digits on one side of
 the dot

3. .5 and 0x.8p1 are valid numerals.
---
 grammar/lua.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index cbfa90a..5defa6f 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -10,9 +10,17 @@ import (
 
 func LuaNumeral() Reader {
 	hexExponent := Seq(AnyRune("pP"), Opt(AnyRune("+-")), Many(Digit()))
-	hexFloat := Seq('0', AnyRune("xX"), Many(HexDigit()), Opt(Seq('.', Many(HexDigit()))), Opt(hexExponent))
+	hexDigits := Any(
+		Seq(Many(HexDigit()), Opt(Seq('.', Zom(HexDigit())))),
+		Seq('.', Many(HexDigit())),
+	)
+	hexFloat := Seq('0', AnyRune("xX"), hexDigits, Opt(hexExponent))
 	exponent := Seq(AnyRune("eE"), Opt(AnyRune("+-")), Many(Digit()))
-	floatValue := Seq(Many(Digit()), Opt(Seq('.', Many(Digit()))), Opt(exponent))
+	digits := Any(
+		Seq(Many(Digit()), Opt(Seq('.', Zom(Digit())))),
+		Seq('.', Many(Digit())),
+	)
+	floatValue := Seq(digits, Opt(exponent))
 	intValue := Many(Digit())
 	hexValue := Seq('0', AnyRune("xX"), Many(HexDigit()))
 	return Any(hexFloat, hexValue, floatValue, intValue)
-- 
2.43.0


From f3f68a3071bc3e42dca306a9bec0372abc85678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:46 +0000
Subject: [PATCH 32/46] fix: read tabs and escaped line breaks in Lua strings

A short string can hold every rune except a line break, a line break can be
escaped.
---
 grammar/lua.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 5defa6f..520ac36 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -35,13 +35,13 @@ func LuaString() Reader {
 		Seq('\\', Between('0', '2'), Times(2, Digit())),
 	)
 	escapeSequence := Any(
-		Seq('\\', AnyRune("abfnrtvz\"'\\")),
+		Seq('\\', AnyRune("abfnrtvz\"'\\\n")),
 		decimalEscape,
 		hexEscape,
 		utfEscape,
 	)
-	normalString := Seq('"', Zom(Any(Holey(' ', utf8.MaxRune, `"\`), escapeSequence)), '"')
-	charString := Seq('\'', Zom(Any(Holey(' ', utf8.MaxRune, `'\`), escapeSequence)), '\'')
+	normalString := Seq('"', Zom(Any(Holey(0, utf8.MaxRune, "\"\\\r\n"), escapeSequence)), '"')
+	charString := Seq('\'', Zom(Any(Holey(0, utf8.MaxRune, "'\\\r\n"), escapeSequence)), '\'')
 	strHead, strTail := Janus("", Zom("="))
 	longBeg := Seq('[', strHead, '[')
 	longEnd := Seq(']', strTail, ']')
-- 
2.43.0


From 2704f40a92a6168a471be647f190f14078acc77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:06 +0000
Subject: [PATCH 33/46] fix: read \z and CRLF escapes in Lua strings

---
 grammar/lua.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 520ac36..b87e8ae 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -35,7 +35,8 @@ func LuaString() Reader {
 		Seq('\\', Between('0', '2'), Times(2, Digit())),
 	)
 	escapeSequence := Any(
-		Seq('\\', AnyRune("abfnrtvz\"'\\\n")),
+		Seq("\\z", Zom(AnyRune(" \t\r\n\v\f"))),
+		Seq('\\', Any("\r\n", AnyRune("abfnrtv\"'\\\n"))),
 		decimalEscape,
 		hexEscape,
 		utfEscape,
-- 
2.43.0


From 39192ac36650d0a67c1df81b4520c36e43dfa1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:44 +0000
Subject: [PATCH 34/46] fix: refuse malformed Lua numerals

A numeral that is directly followed by a name or a dot, like in "x=3and 4",
is malformed.
---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index b87e8ae..a452054 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -136,7 +136,7 @@ func Lua() *LuaReader {
 	))
 	g.Name.Reader = Seq(At(Not(keyword)), Set("a-zA-Z", "_"), Zom(nameChar))
 	g.NameList.Reader = skipSeq(&g.Name, Zom(skipSeq(',', &g.Name)))
-	g.Numeral.Reader = LuaNumeral()
+	g.Numeral.Reader = Seq(LuaNumeral(), At(Any(AtEnd(), Not(Any(nameChar, '.')))))
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
 
-- 
2.43.0


From e4419542d7e3c9db68c3b289e7f37d3d5b6eef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:46 +0000
Subject: [PATCH 35/46] fix: do not split the Lua token ... into an operator
 and a numeral

"x=a...5" is no Lua program.
---
 grammar/lua.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index a452054..5c73cf0 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -142,8 +142,9 @@ func Lua() *LuaReader {
 
 	minus := Named(`"-"`, Seq('-', At(Not(Rune('-')))))
 	g.UnOp.Reader = Any(minus, word("not"), "#", "~")
+	concat := Named(`".."`, Seq("..", At(Any(AtEnd(), Not(Rune('.'))))))
 	g.BinOp.Reader = Any(
-		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", word("and"), word("or"),
+		concat, "<<", "<=", "<", ">>", ">=", ">", "==", "~=", word("and"), word("or"),
 		"+", minus, "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
-- 
2.43.0


From 21e8dced2472d20aeabc1eb08ef89e74f2a6f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:47 +0000
Subject: [PATCH 36/46] fix: do not read an unfinished long Lua comment as a
 line comment

---
 grammar/lua.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 5c73cf0..608be37 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -51,7 +51,8 @@ func LuaString() Reader {
 }
 
 func LuaComment() Reader {
-	line := Seq("--", To(Any('\n', AtEnd())))
+	isLong := Seq('[', Zom('='), '[')
+	line := Seq("--", At(Any(AtEnd(), Not(isLong))), To(Any('\n', AtEnd())))
 	cmtHead, cmtTail := Janus("", Zom("="))
 	longBeg := Seq("--[", cmtHead, '[')
 	longEnd := Seq(']', cmtTail, ']')
-- 
2.43.0


From 97c09ad36bcccfb64e83db1ef6c1aeb04025f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:49 +0000
Subject: [PATCH 37/46] fix: do not split the Lua token >= behind an attribute

"local x <const>= 1" is no Lua program.
---
 grammar/lua.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 608be37..3c53ef2 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -198,7 +198,8 @@ func Lua() *LuaReader {
 	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
 	g.Label.Reader = skipSeq(Lit("::"), &g.Name, Lit("::"))
 	g.RetStat.Reader = skipSeq(word("return"), Opt(&g.ExpList), Opt(';'))
-	g.Attrib.Reader = Opt(skipSeq('<', &g.Name, '>'))
+	attribEnd := Named(`">"`, Seq('>', At(Any(AtEnd(), Not(Rune('='))))))
+	g.Attrib.Reader = Opt(skipSeq('<', &g.Name, attribEnd))
 	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
 	g.Break.Reader = skipSeq(word("break"))
 	g.GoTo.Reader = skipSeq(word("goto"), &g.Name)
-- 
2.43.0


From 4f1b2a189a128259836b50a2ec93be063afd428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:51 +0000
Subject: [PATCH 38/46] fix: do not split a long Lua bracket behind a bracket

In "{[[=[x]=]]=[[y]]}" the first two brackets start a long string.
---
 grammar/lua.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 3c53ef2..15e144e 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -149,9 +149,10 @@ func Lua() *LuaReader {
 		"+", minus, "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
+	bracket := Named(`"["`, Seq('[', At(Not(Seq(Zom('='), '[')))))
 	g.FieldSep.Reader = AnyRune(",;")
 	g.Field.Reader = Any(
-		skipSeq('[', &g.Exp, ']', '=', &g.Exp),
+		skipSeq(bracket, &g.Exp, ']', '=', &g.Exp),
 		skipSeq(&g.Name, '=', &g.Exp),
 		&g.Exp,
 	)
@@ -186,7 +187,7 @@ func Lua() *LuaReader {
 	)
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
-		skipSeq('[', &g.Exp, ']'),
+		skipSeq(bracket, &g.Exp, ']'),
 		skipSeq('.', &g.Name),
 	))
 	g.Var.Reader = Seq(Any(
-- 
2.43.0


From c5fae9ee1df512849925a38fb1f75a5a58585a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:15 +0000
Subject: [PATCH 39/46] fix: refuse decimal escapes in Lua strings that are too
 large

---
 grammar/lua.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 15e144e..135fb00 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -29,11 +29,12 @@ func LuaNumeral() Reader {
 func LuaString() Reader {
 	utfEscape := Seq("\\u{", Many(HexDigit()), "}")
 	hexEscape := Seq("\\x", Times(2, HexDigit()))
-	decimalEscape := Any(
-		Seq('\\', Digit()),
-		Seq('\\', Times(2, Digit())),
-		Seq('\\', Between('0', '2'), Times(2, Digit())),
-	)
+	decimalEscape := Seq('\\', Any(
+		Seq(Between('0', '1'), Times(2, Digit())),
+		Seq('2', Between('0', '4'), Digit()),
+		Seq("25", Between('0', '5')),
+		Seq(Digit(), Opt(Digit()), At(Not(Digit()))),
+	))
 	escapeSequence := Any(
 		Seq("\\z", Zom(AnyRune(" \t\r\n\v\f"))),
 		Seq('\\', Any("\r\n", AnyRune("abfnrtv\"'\\\n"))),
-- 
2.43.0


From bc68f2b44ef367bc55670eb37b80f03020cbb922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:09 +0000
Subject: [PATCH 40/46] fix: show an apostrophe in the description of a rune
 range

---
 reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 7fd21be..d8183e6 100644
--- a/reader.go
+++ b/reader.go
@@ -208,7 +208,8 @@ func (r betweenReader) Read(s *Scanner) error {
 }
 
 func quoteRune(r rune) string {
-	return strings.Trim(strconv.QuoteRuneToGraphic(r), "'")
+	q := strconv.QuoteRuneToGraphic(r)
+	return q[1 : len(q)-1]
 }
 
 func quoteBetween(min, max rune) string {
-- 
2.43.0


From 98ed729d6ff5db0ec387fa992f31c05efa8ae424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:25 +0000
Subject: [PATCH 41/46] fix: one-or-more restores the position when its part
 moved backwards

---
 reader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index d8183e6..43185e9 100644
--- a/reader.go
+++ b/reader.go
@@ -618,8 +618,11 @@ func (r manyReader) Read(s *Scanner) error {
 	for m := start; r.sub.Read(s) == nil && s.Mark() != m; {
 		m = s.Mark()
 	}
-	end := s.Mark()
-	return s.ErrorIfFalse(start < end, r.What())
+	if start < s.Mark() {
+		return nil
+	}
+	s.ToMarker(start)
+	return s.ErrorFor(r.What())
 }
 
 func (r manyReader) What() string {
-- 
2.43.0


From 0f6ace74db5ca4eaa2bbead1e90a26d951a196c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:20 +0000
Subject: [PATCH 42/46] fix: a Lua script that is only a shebang line is read
 to its end

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 135fb00..07d1882 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -124,7 +124,7 @@ func Lua() *LuaReader {
 		return SkipSeq(skiper, list...)
 	}
 
-	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
+	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n', AtEnd())))
 	nameChar := Set("a-zA-Z0-9", "_")
 	wordEnd := At(Any(AtEnd(), Not(nameChar)))
 	word := func(str string) Reader {
-- 
2.43.0


From 7b1e967d8e486839c72f31f6544fad3075ce4c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:10 +0000
Subject: [PATCH 43/46] fix: let RevTo find every literal that To finds

RevTo("") at the start of the text failed although RevIf("") succeeds there, and
a literal that is no complete UTF-8 (a part of a rune) was only found at a border
of runes.
---
 scanner_rev.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/scanner_rev.go b/scanner_rev.go
index 81784a6..bbe62ea 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -37,13 +37,10 @@ func (s *Scanner) RevIfAny(strs []string) bool {
 // Moves s to the last appearance of str in Head().
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevTo(str string) bool {
-	itr := makeRevItr(s.Head())
-	for itr.next() {
-		if strings.HasSuffix(itr.Str, str) {
-			return s.Move(-itr.pos())
-		}
+	i := strings.LastIndex(s.Head(), str)
+	if i != -1 {
+		return s.Move(i + len(str) - s.pos)
 	}
-
 	return false
 }
 
-- 
2.43.0


From 209ce8449c538ffe073ad96e9c0d39be19267e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:12 +0000
Subject: [PATCH 44/46] fix: let RevToFold find an empty literal at the start
 of the text

ToFold("") succeeds at the end of the text and RevIfFold("") at its start.
---
 scanner_rev.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/scanner_rev.go b/scanner_rev.go
index bbe62ea..330ac34 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -58,14 +58,17 @@ func (s *Scanner) RevIfFold(str string) bool {
 // Moves s to the last appearance of str in Head() under Unicode case-folding.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevToFold(str string) bool {
-	itr := makeRevItr(s.Head())
-	for itr.next() {
-		if foldSuffix(itr.Str, str) != -1 {
-			return s.Move(-itr.pos())
+	sub := s.Head()
+	for n := len(sub); ; {
+		if foldSuffix(sub[:n], str) != -1 {
+			return s.Move(n - len(sub))
 		}
+		_, i := utf8.DecodeLastRuneInString(sub[:n])
+		if i == 0 {
+			return false
+		}
+		n -= i
 	}
-
-	return false
 }
 
 // ------------------------------------------------------------------------ rune
-- 
2.43.0


From 3bde17e236480f2f469b36d7f1b8536f8996bf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:06 +0000
Subject: [PATCH 45/46] fix: exits of entries that a Reset dropped no longer
 lower the level of a Log

---
 monitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitor.go b/monitor.go
index a72e7a8..638a007 100644
--- a/monitor.go
+++ b/monitor.go
@@ -45,8 +45,8 @@ func (l *Log) Enter(info string, pos int) *LogEntry {
 func (l *Log) Exit(e *LogEntry, pos int, err error) {
 	e.ExitAt = pos
 	e.Error = err
-	l.level--
 	if last := len(l.open) - 1; last >= 0 {
+		l.level--
 		// e can point to an old array if Entries has grown since Enter
 		l.Entries[l.open[last]] = *e
 		l.open = l.open[:last]
-- 
2.43.0


From 925de85187e573479550abfff25e2c08fffa6a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:42 +0000
Subject: [PATCH 46/46] fix: a name that is listed twice in the order of
 SortSegmentsByOrder no longer makes the order cyclic

---
 segment.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/segment.go b/segment.go
index fced912..24b60ae 100644
--- a/segment.go
+++ b/segment.go
@@ -80,8 +80,6 @@ func SortSegmentsByOrder(values []Segment, order []string) {
 					ai = i
 				} else if b.Info == info {
 					bi = i
-				} else if ai != -1 && bi != -1 {
-					break
 				}
 			}
 
-- 
2.43.0

