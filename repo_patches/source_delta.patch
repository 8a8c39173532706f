From 9c5aa97c2377d71c6312c251f9534b3398a9784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 1/9] fix: words iterator honours joiners and custom splits on
 ASCII text

The ASCII hot path assumed the default split, so a space configured as a
middle joiner was ignored by the iterators (the Scanner honoured it), and a
split function set with Split was bypassed for plain ASCII words.
---
 words/iterator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/words/iterator.go b/words/iterator.go
index 84bdafa..4b2614a 100644
--- a/words/iterator.go
+++ b/words/iterator.go
@@ -7,6 +7,9 @@ type Iterator[T ~string | ~[]byte] struct {
 	data  T
 	pos   int
 	start int
+	// customSplit is true when split is not the default, in which case the
+	// ASCII hot path can't be assumed to agree with it
+	customSplit bool
 }
 
 var (
@@ -46,9 +49,10 @@ func (iter *Iterator[T]) Next() bool {
 	iter.start = iter.pos
 
 	// ASCII hot path: consume contiguous ASCII alphanumerics
-	// followed by ASCII space (or end of data)
+	// followed by ASCII space (or end of data). Only the default split is known
+	// to break there; joiners or a custom split might not.
 	b := iter.data[iter.pos]
-	if isASCIIAlphanumeric(b) {
+	if !iter.customSplit && isASCIIAlphanumeric(b) {
 		// Consume all contiguous ASCII alphanumerics
 		end := iter.pos + 1
 		for end < len(iter.data) && isASCIIAlphanumeric(iter.data[end]) {
@@ -109,6 +113,7 @@ func (iter *Iterator[T]) SetText(data T) {
 // Split sets the SplitFunc for the Iterator.
 func (iter *Iterator[T]) Split(split func(T, bool) (int, T, error)) {
 	iter.split = split
+	iter.customSplit = true
 }
 
 // First returns the first word without advancing the iterator.
-- 
2.43.0


From c7b137faf02fb6b8fae7783a7c22513b43428d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 2/9] fix: a leading joiner counts as a letter, not as a Hebrew
 letter

It was given both letter properties, so WB7a and WB7b joined a quote to it:
"#'" came out as one word.
---
 words/splitfunc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/words/splitfunc.go b/words/splitfunc.go
index bd2a438..f2fbd06 100644
--- a/words/splitfunc.go
+++ b/words/splitfunc.go
@@ -66,9 +66,9 @@ func (j *Joiners[T]) splitFunc(data T, atEOF bool) (advance int, token T, err er
 	if j != nil && j.Leading != nil {
 		r, _ := decodeRune(data[pos:])
 		if runesContain(j.Leading, r) {
-			// treat leading joiners as if they are letter,
+			// treat leading joiners as if they are (non-Hebrew) letters,
 			// then depend on the existing logic below
-			current |= _AHLetter
+			current |= _ALetter
 		}
 	}
 
-- 
2.43.0


From 342d1dd6fbf567f774af58d75a45004917437a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 3/9] fix: an 8-bit sequence is not joined to a preceding
 Prepend character

---
 graphemes/ansi8.go    | 18 ++++++++++++++++++
 graphemes/iterator.go |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/graphemes/ansi8.go b/graphemes/ansi8.go
index d9b0c48..1a2af79 100644
--- a/graphemes/ansi8.go
+++ b/graphemes/ansi8.go
@@ -41,6 +41,24 @@ func ansiEscapeLength8Bit[T ~string | ~[]byte](data T) int {
 	return 0
 }
 
+// untilAnsi8Bit returns the length of the grapheme cluster data[:end], less any
+// 8-bit sequence which it joined. The grapheme rules see a C1 byte as invalid
+// UTF-8, to which a preceding Prepend character attaches.
+func untilAnsi8Bit[T ~string | ~[]byte](data T, end int) int {
+	for pos := 0; pos < end; {
+		b := data[pos]
+		if pos > 0 && b >= 0x80 && b <= 0x9F && ansiEscapeLength8Bit(data[pos:]) > 0 {
+			return pos
+		}
+		_, w := lookup(data[pos:])
+		if w == 0 {
+			break
+		}
+		pos += w
+	}
+	return end
+}
+
 // oscLengthC1 returns the length of a C1 OSC body.
 // data is the slice after the C1 OSC initiator (0x9D).
 //
diff --git a/graphemes/iterator.go b/graphemes/iterator.go
index d37d43d..54f67c0 100644
--- a/graphemes/iterator.go
+++ b/graphemes/iterator.go
@@ -94,6 +94,9 @@ func (iter *Iterator[T]) Next() bool {
 	if advance <= 0 {
 		panic("splitFunc returned a zero or negative advance")
 	}
+	if iter.AnsiEscapeSequences8Bit && advance <= len(remaining) {
+		advance = untilAnsi8Bit(remaining, advance)
+	}
 	iter.pos += advance
 	if iter.pos > len(iter.data) {
 		panic("splitFunc advanced beyond end of data")
-- 
2.43.0


From 5eb3455146d36041d9cdf88bbd2125d505316767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 4/9] fix: sentences look ahead once per run of closers and
 spaces

---
 sentences/splitfunc.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sentences/splitfunc.go b/sentences/splitfunc.go
index f1246f0..82be281 100644
--- a/sentences/splitfunc.go
+++ b/sentences/splitfunc.go
@@ -35,6 +35,7 @@ func splitFunc[T ~string | ~[]byte](data T, atEOF bool) (advance int, token T, e
 	var lastExIgnoreClose property
 	var lastExIgnoreSpClose property
 	var lastExIgnoreParaSepSpClose property
+	sb8NotFound := -1 // SB8 has looked ahead up to here, and found no Lower
 
 	// Rules are usually of the form Cat1 × Cat2; "current" refers to the first property
 	// to the right of the ×, from which we look back or forward
@@ -142,7 +143,7 @@ main:
 		}
 
 		// https://unicode.org/reports/tr29/#SB8
-		if lastExIgnoreSpClose.is(_ATerm) {
+		if lastExIgnoreSpClose.is(_ATerm) && pos > sb8NotFound {
 			p := pos
 
 			// ( ¬(OLetter | Upper | Lower | ParaSep | SATerm) )*
@@ -177,6 +178,10 @@ main:
 				pos = p + advance
 				continue
 			}
+
+			// Looking ahead from anywhere up to p would end at p again; without
+			// this, a run of Close and Sp would be quadratic
+			sb8NotFound = p
 		}
 
 		// https://unicode.org/reports/tr29/#SB8a
-- 
2.43.0


From f9ffa9f37e9aae6e3defb35da68cbfd884de7915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 5/9] fix: BleveNumeric requires a number, and ignores
 ignorables throughout

---
 words/bleve_compat.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/words/bleve_compat.go b/words/bleve_compat.go
index 7d90ba4..4fbbf7a 100644
--- a/words/bleve_compat.go
+++ b/words/bleve_compat.go
@@ -8,6 +8,7 @@ func BleveNumeric(token []byte) bool {
 	var current property
 	var lastExIgnore property     // "last excluding ignored categories"
 	var lastLastExIgnore property // "the last one before that"
+	numeric := len(token) == 0    // at least one is required
 
 	for pos < len(token) {
 		// Remember previous properties to avoid lookups/lookbacks
@@ -19,6 +20,10 @@ func BleveNumeric(token []byte) bool {
 
 		current, w = lookup(token[pos:])
 
+		if current.is(_Numeric) {
+			numeric = true
+		}
+
 		if pos == 0 {
 			// must start with Numeric|ExtendNumLet
 			if current.is(_Numeric | _ExtendNumLet) {
@@ -29,8 +34,14 @@ func BleveNumeric(token []byte) bool {
 			return false
 		}
 
+		// https://unicode.org/reports/tr29/#WB4
+		if current.is(_Ignore) {
+			pos += w
+			continue
+		}
+
 		// https://unicode.org/reports/tr29/#WB8
-		if last.is(_Numeric) && current.is(_Numeric) {
+		if lastExIgnore.is(_Numeric) && current.is(_Numeric) {
 			pos += w
 			continue
 		}
@@ -67,7 +78,7 @@ func BleveNumeric(token []byte) bool {
 		return false
 	}
 
-	return true
+	return numeric
 }
 
 // BleveIdeographic determines if a token is comprised ideographs, by the
-- 
2.43.0


From 264d67b4f31083820b0b6c63a4b07aa80fd1e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 6/9] fix: generator reads comments, blank lines and the last
 line as UAX #44 says

---
 internal/gen/main.go | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/internal/gen/main.go b/internal/gen/main.go
index b919bad..9f361ad 100644
--- a/internal/gen/main.go
+++ b/internal/gen/main.go
@@ -113,18 +113,17 @@ func (p prop) generateTrie() error {
 	runesByProperty := map[string][]rune{}
 	for {
 		s, err := b.ReadString('\n')
-		if err != nil {
-			if err == io.EOF {
-				break
-			}
+		if err != nil && err != io.EOF {
 			return err
 		}
-
-		if len(s) == 0 {
-			continue
+		if err == io.EOF && len(s) == 0 {
+			break
 		}
 
-		if s[0] == '\n' || s[0] == '#' {
+		// A comment runs to the end of the line, and may contain a semicolon
+		s, _, _ = strings.Cut(s, "#")
+		s = strings.TrimSpace(s)
+		if len(s) == 0 {
 			continue
 		}
 
@@ -139,13 +138,11 @@ func (p prop) generateTrie() error {
 			// Format: codepoint ; PropertyName ; Value # comment
 			// Used by DerivedCoreProperties.txt for InCB, e.g.: "094D ; InCB; Linker # ..."
 			propName := strings.TrimSpace(parts[1])
-			split2 := strings.Split(parts[2], "#")
-			propValue := strings.TrimSpace(split2[0])
+			propValue := strings.TrimSpace(parts[2])
 			property = propName + "_" + propValue
 		} else {
 			// Format: codepoint ; PropertyValue # comment
-			split2 := strings.Split(parts[1], "#")
-			property = strings.TrimSpace(split2[0])
+			property = strings.TrimSpace(parts[1])
 		}
 
 		runesByProperty[property] = append(runesByProperty[property], runes...)
@@ -256,19 +253,16 @@ func (p prop) generateTests() error {
 
 	var unicodeTests []unicodeTest
 	for sc.Scan() {
-		line := sc.Text()
-		if line[0] == '#' {
-			// comment line, ignore
+		data, comment, _ := strings.Cut(sc.Text(), "#")
+		data = strings.TrimSpace(data)
+		if len(data) == 0 {
+			// comment line or blank line, ignore
 			continue
 		}
 
 		test := unicodeTest{}
 
-		parts := strings.Split(line, "#")
-
-		test.comment = strings.TrimSpace(parts[1])
-
-		data := parts[0]
+		test.comment = strings.TrimSpace(comment)
 
 		segments := strings.Split(data, "÷")
 
-- 
2.43.0


From cd93d76cf51485a7a2e4319d9506ec2094868537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 7/9] fix: joiners on named byte types copied the rest of the
 text for every rune

---
 words/splitfunc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/words/splitfunc.go b/words/splitfunc.go
index f2fbd06..8d5a53f 100644
--- a/words/splitfunc.go
+++ b/words/splitfunc.go
@@ -28,7 +28,11 @@ func decodeRune[T ~string | ~[]byte](data T) (rune, int) {
 	case []byte:
 		return utf8.DecodeRune(v)
 	default:
-		// Handle named string/[]byte types.
+		// Handle named string/[]byte types. The conversion may copy, so convert
+		// no more than a rune needs.
+		if len(data) > utf8.UTFMax {
+			data = data[:utf8.UTFMax]
+		}
 		return utf8.DecodeRuneInString(string(data))
 	}
 }
-- 
2.43.0


From cd1faa5e3e304cbf4d8df5e48eb272967344f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:37 +0000
Subject: [PATCH 8/9] fix: an advance beyond the end panics also where adding
 it would overflow

---
 internal/iterators/iterator.go | 4 ++--
 words/iterator.go              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/iterators/iterator.go b/internal/iterators/iterator.go
index 8b41f4e..32e74c1 100644
--- a/internal/iterators/iterator.go
+++ b/internal/iterators/iterator.go
@@ -58,11 +58,11 @@ func (iter *Iterator[T]) Next() bool {
 		panic("SplitFunc returned a zero or negative advance")
 	}
 
-	iter.pos += advance
-	if iter.pos > len(iter.data) {
+	if advance > len(d) { // before adding, which could overflow
 		panic("SplitFunc advanced beyond the end of the data")
 	}
 
+	iter.pos += advance
 	return true
 }
 
diff --git a/words/iterator.go b/words/iterator.go
index 4b2614a..a3468b5 100644
--- a/words/iterator.go
+++ b/words/iterator.go
@@ -75,10 +75,10 @@ func (iter *Iterator[T]) Next() bool {
 	if advance <= 0 {
 		panic("splitFunc returned a zero or negative advance")
 	}
-	iter.pos += advance
-	if iter.pos > len(iter.data) {
+	if advance > len(remaining) { // before adding, which could overflow
 		panic("splitFunc advanced beyond end of data")
 	}
+	iter.pos += advance
 	return true
 }
 
-- 
2.43.0


From 26ae9b35fb12457eeb0f7796f37e048430c875d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:22 +0000
Subject: [PATCH 9/9] fix: triegen: keep different blocks apart when their
 checksums are the same

Blocks were taken to be the same when their CRC-64 was. Property data where two
blocks of 64 code points happen to have the same CRC-64 gave a trie in which
one had the properties of the other.
---
 internal/gen/triegen/triegen.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/internal/gen/triegen/triegen.go b/internal/gen/triegen/triegen.go
index 06253ea..8ffceba 100644
--- a/internal/gen/triegen/triegen.go
+++ b/internal/gen/triegen/triegen.go
@@ -108,6 +108,7 @@ type builder struct {
 	indexBlockIdx map[uint64]int
 	valueBlockIdx map[uint64]nodeIndex
 	asciiBlockIdx map[uint64]int
+	hashed        map[uint64]string // the contents that each hash stands for
 
 	// Stats are used to fill out the template.
 	Stats struct {
@@ -181,6 +182,7 @@ func Gen(w io.Writer, name string, tries []*Trie, opts ...Option) (sz int, err e
 		indexBlockIdx: map[uint64]int{0: 0},
 		valueBlockIdx: map[uint64]nodeIndex{0: {}},
 		asciiBlockIdx: map[uint64]int{},
+		hashed:        map[uint64]string{},
 	}
 	b.Compactions[0].c = (*simpleCompacter)(b)
 
@@ -405,7 +407,7 @@ func (b *builder) buildTrie(t *Trie) uint64 {
 	// position 0.
 	hasher := crc64.New(crcTable)
 	_ = binary.Write(hasher, binary.BigEndian, n.values)
-	hash := hasher.Sum64()
+	hash := b.unique(hasher.Sum64(), n, nil)
 
 	v, ok := b.asciiBlockIdx[hash]
 	if !ok {
@@ -432,6 +434,25 @@ func (b *builder) buildTrie(t *Trie) uint64 {
 	return t.Checksum
 }
 
+// unique returns the hash of a node with the given hashes of its children, or
+// the next free one if that is taken by a node with other contents: nodes with
+// the same hash are stored once.
+func (b *builder) unique(hash uint64, n *node, children []uint64) uint64 {
+	contents := fmt.Sprint(children, n.values)
+	for ; ; hash++ {
+		if hash == 0 {
+			continue // for nodes without values
+		}
+		c, ok := b.hashed[hash]
+		if !ok {
+			b.hashed[hash] = contents
+		}
+		if !ok || c == contents {
+			return hash
+		}
+	}
+}
+
 func (b *builder) computeOffsets(n *node, root bool) uint64 {
 	// For the first trie, the root lookup block will be at position 3, which is
 	// the offset for UTF-8 non-ASCII starter bytes.
@@ -445,15 +466,15 @@ func (b *builder) computeOffsets(n *node, root bool) uint64 {
 	hash := uint64(0)
 	if n.children != nil || n.values != nil {
 		hasher := crc64.New(crcTable)
-		for _, c := range n.children {
-			var v uint64
+		children := make([]uint64, len(n.children))
+		for i, c := range n.children {
 			if c != nil {
-				v = b.computeOffsets(c, false)
+				children[i] = b.computeOffsets(c, false)
 			}
-			_ = binary.Write(hasher, binary.BigEndian, v)
 		}
+		_ = binary.Write(hasher, binary.BigEndian, children)
 		_ = binary.Write(hasher, binary.BigEndian, n.values)
-		hash = hasher.Sum64()
+		hash = b.unique(hasher.Sum64(), n, children)
 	}
 
 	if first {
-- 
2.43.0

