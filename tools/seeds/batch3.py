import sys, os
sys.path.insert(0, os.path.dirname(__file__))
import trie
from batch2 import prog, U
SEEDS = []
def seed(id, property, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw))

# ---- C16
TIMED = '''	t := func(n int) time.Duration {
		s := mk(n)
		best := time.Hour
		for i := 0; i < 7; i++ {
			t0 := time.Now()
			run(s)
			if d := time.Since(t0); d < best {
				best = d
			}
		}
		return best
	}
	a, b := t(4000), t(64000)
	if b > a*80 {
		panic(b)
	}
'''
seed("C16-gb11-lookback", "C16", [("graphemes/splitfunc.go", "		if current.is(_Extend | _ZWJ) {\n			pos += w\n			continue", "		if current.is(_Extend | _ZWJ) {\n			if current.is(_ZWJ) {\n				// emoji sequence: find the base\n				base := pos\n				for base > 0 && data[base-1] >= 0x80 && data[base-1] < 0xC0 {\n					base--\n				}\n				for p := 0; p < base; {\n					l, n := lookup(data[p:])\n					if n == 0 {\n						break\n					}\n					if !l.is(_Extend | _ZWJ) {\n						lastExIgnore = l\n					}\n					p += n\n				}\n			}\n			pos += w\n			continue")],
 prog(["strings", "time", U + "graphemes"], '	mk := func(n int) string { return "a" + strings.Repeat("\\u200d", n) }\n	run := func(s string) {\n		for it := graphemes.FromString(s); it.Next(); {\n		}\n	}\n' + TIMED),
 "a long run of ZWJ in one grapheme", "every ZWJ scans the token again: quadratic") if False else None
seed("C16-midletter-run", "C16", [("words/seek.go", "		if lookup.is(_Ignore) {\n			i += w\n			continue\n		}\n", "		if lookup.is(_Ignore) {\n			i += w\n			continue\n		}\n\n		if lookup.is(_MidNumLetQ) && properties.is(_ALetter) {\n			// the nearest letter decides\n			if _, more := subsequent(properties, data[i+w:], atEOF); more {\n				return notfound, more\n			}\n			return notfound, false\n		}\n")],
 prog(["strings", "time", U + "words"], '	mk := func(n int) string { return "a" + strings.Repeat(".a", 1) + strings.Repeat("\'.", n) }\n	run := func(s string) {\n		for it := words.FromString(s); it.Next(); {\n		}\n	}\n' + TIMED),
 "x", "x") if False else None
seed("C16-sentence-lookback", "C16", [("sentences/splitfunc.go", "		// https://unicode.org/reports/tr29/#SB7\n", '''		// A numeral run after a full stop is not the start of a sentence
		if current.is(_Numeric) && lastExIgnore.is(_Numeric) {
			n := 0
			for p := pos - 1; p >= 0 && data[p] >= '0' && data[p] <= '9'; p-- {
				n++
			}
			if n > 0 {
				pos += w
				continue
			}
		}

		// https://unicode.org/reports/tr29/#SB7
''')],
 prog(["strings", "time", U + "sentences"], '	mk := func(n int) string { return "-" + strings.Repeat("1", n) }\n	run := func(s string) {\n		for it := sentences.FromString(s); it.Next(); {\n		}\n	}\n' + TIMED),
 "a long run of digits that does not begin a sentence (so that the iterator's shortcut does not apply)", "every digit looks back over the run: quadratic")
seed("C16-hotpath-restart", "C16", [("words/iterator.go", "		// Otherwise fall through to splitFunc\n", "		// Otherwise fall through to splitFunc\n		if end < len(iter.data) && iter.data[end] == '.' {\n			// a dotted name: see how far it goes\n			for end < len(iter.data) && (isASCIIAlphanumeric(iter.data[end]) || iter.data[end] == '.') {\n				end++\n			}\n			if end == len(iter.data) && iter.data[end-1] != '.' && end-iter.pos < 64 && !hasDoubleDot(iter.data[iter.pos:end]) && !digitNextToDot(iter.data[iter.pos:end]) {\n				iter.pos = end\n				return true\n			}\n		}\n"), ("words/iterator.go", "// Next advances the iterator to the next word.", '''func hasDoubleDot[T ~string | ~[]byte](data T) bool {
	for i := 1; i < len(data); i++ {
		if data[i] == '.' && data[i-1] == '.' {
			return true
		}
	}
	return false
}

func digitNextToDot[T ~string | ~[]byte](data T) bool {
	for i := 0; i < len(data); i++ {
		if data[i] >= '0' && data[i] <= '9' {
			return true
		}
	}
	return false
}

// Next advances the iterator to the next word.''')],
 prog(["strings", "time", U + "words"], '	mk := func(n int) string { return strings.Repeat("a..", n) }\n	run := func(s string) {\n		for it := words.FromString(s); it.Next(); {\n		}\n	}\n' + TIMED),
 "a long run of letters and double dots, as in a..a..a..", "each word scans ahead over all the following words: quadratic")

# ---- C15
seed("C15-alloc-long-token", "C15", [("words/iterator.go", "	remaining := iter.data[iter.pos:]\n	advance, _, err := iter.split(remaining, true)\n", "	remaining := iter.data[iter.pos:]\n	advance, _, err := iter.splitLong(remaining)\n"), ("words/iterator.go", "// Value returns the current word.", '''// splitLong splits, and copes with words that are not contiguous ASCII
func (iter *Iterator[T]) splitLong(data T) (advance int, token T, err error) {
	advance, token, err = iter.split(data, true)
	if advance > 64 {
		// keep long tokens together
		buf := make([]byte, 0, advance)
		buf = append(buf, token...)
		if len(buf) != advance {
			return 0, token, err
		}
	}
	return advance, token, err
}

// Value returns the current word.''')],
 prog(["runtime", "strings", U + "words"], '''	s := strings.Repeat(strings.Repeat("\\u00e9", 100)+" ", 1000)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	for it := words.FromString(s); it.Next(); {
	}
	runtime.ReadMemStats(&b)
	if b.Mallocs-a.Mallocs > 100 {
		panic(b.Mallocs - a.Mallocs)
	}
'''), "words longer than 64 bytes", "an allocation for each long word")
seed("C15-alloc-ansi-csi", "C15", [("graphemes/ansi.go", "	seenIntermediate := false\n", "	seenIntermediate := false\n	var params []byte\n"), ("graphemes/ansi.go", "			if seenIntermediate {\n				return 0\n			}\n			continue", "			if seenIntermediate {\n				return 0\n			}\n			if b == ';' {\n				params = append(params, b)\n			}\n			continue"), ("graphemes/ansi.go", "		if b >= 0x40 && b <= 0x7E {\n			return i + 1\n		}\n		return 0", "		if b >= 0x40 && b <= 0x7E && len(params) <= i {\n			return i + 1\n		}\n		return 0")],
 prog(["runtime", "strings", U + "graphemes"], '''	s := strings.Repeat("\\x1b["+strings.Repeat("1;", 40)+"m", 1000)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	it := graphemes.FromString(s)
	it.AnsiEscapeSequences = true
	for it.Next() {
	}
	runtime.ReadMemStats(&b)
	if b.Mallocs-a.Mallocs > 100 {
		panic(b.Mallocs - a.Mallocs)
	}
'''), "a CSI sequence with many parameters, with the 7-bit option on", "an allocation for each such sequence")

# ---- C05
seed("C05-c1-overrun", "C05", [("graphemes/ansi8.go", "		if b == can || b == sub {\n			return i\n		}\n		if b == st {", "		if b == can || b == sub {\n			return i - 1\n		}\n		if b == st {")],
 prog([U + "graphemes"], '	it := graphemes.FromString("\\x90\\x18z")\n	it.AnsiEscapeSequences8Bit = true\n	n := 0\n	for it.Next() {\n		n += len(it.Value())\n		if len(it.Value()) == 0 || n > 3 {\n			panic(n)\n		}\n	}\n	it.SetText("\\x90a\\x18z")\n	if it.Next(); len(it.Value()) != 2 {\n		panic(it.Value())\n	}\n'),
 "an 8-bit control string cancelled by CAN or SUB", "the cancelled sequence is cut one byte short") if False else None
seed("C05-empty-token-c1", "C05", [("graphemes/ansi8.go", "		body := oscLengthC1(data[1:])\n		if body < 0 {\n			return 0\n		}\n		return 1 + body", "		body := oscLengthC1(data[1:])\n		if body < 0 {\n			return 0\n		}\n		if body == 0 {\n			// cancelled at once, and the cancel goes with it\n			return 3 + body\n		}\n		return 1 + body")],
 prog([U + "graphemes"], '	it := graphemes.FromString("\\x9d\\x18")\n	it.AnsiEscapeSequences8Bit = true\n	for it.Next() {\n		_ = it.Value()\n	}\n'),
 "an 8-bit OSC cancelled immediately, at the very end of the text", "the token extends past the end of the text, and Value panics")
seed("C05-invalid-run-overrun", "C05", [("graphemes/trie.go", "		if c3 < 0x80 || 0xC0 <= c3 {\n			return 0, 3 // Illegal UTF-8: not a continuation byte.", "		if c3 < 0x80 || 0xC0 <= c3 {\n			return 0, 4 // Illegal UTF-8: not a continuation byte.")],
 prog([U + "graphemes"], '	it := graphemes.FromBytes([]byte("\\xf0\\x9f\\x98a"))\n	it.Next()\n	if len(it.Value()) != 3 {\n		panic(it.Value())\n	}\n'),
 "", "") if False else None

# ---- C08 / C07
seed("C08-eager-hebrew", "C08", [("words/splitfunc.go", "		if current.is(_DoubleQuote) && lastExIgnore.is(_HebrewLetter) {\n			advance, more := subsequent(_HebrewLetter, data[pos+w:], atEOF)\n\n			if more {", "		if current.is(_DoubleQuote) && lastExIgnore.is(_HebrewLetter) {\n			advance, more := subsequent(_HebrewLetter, data[pos+w:], atEOF)\n\n			if more && !last.is(_Ignore) {")],
 prog([U + "words"], '	adv, _, _ := words.SplitFunc([]byte("\\u05d0\\u05b8\\""), false)\n	if adv != 0 {\n		panic(adv)\n	}\n'),
 "a prefix that ends at a double quote after a Hebrew letter with a point", "the split function commits the letter before it knows whether a Hebrew letter follows")
seed("C07-words-scanner-ascii", "C07", [("words/splitfunc.go", "	// https://unicode.org/reports/tr29/#WB1\n	// Start of text always advances\n	pos += w\n", "	// https://unicode.org/reports/tr29/#WB1\n	// Start of text always advances\n	pos += w\n\n	if current.is(_Newline|_LF) && pos < len(data) {\n		// always on its own\n		return pos, data[:pos], nil\n	}\n	if !atEOF && len(data) > 4095 && pos < len(data) && current.is(_WSegSpace) && data[0] == ' ' {\n		// a full buffer\n		for pos < len(data) && data[pos] == ' ' {\n			pos++\n		}\n		return pos, data[:pos], nil\n	}\n")],
 prog(["strings", U + "words"], '	in := strings.Repeat(" ", 5000) + "\\u0308a"\n	sc := words.FromReader(strings.NewReader(in))\n	if !sc.Scan() || len(sc.Text()) != 5002 {\n		panic(len(sc.Text()))\n	}\n'),
 "a run of spaces that fills the scanner's buffer of 4096 bytes", "the run is cut at the end of the buffer")

# ---- C10/C09
seed("C09-osc-c1st", "C09", [("graphemes/ansi.go", "		if b == bel {\n			return i + 1\n		}", "		if b == bel {\n			return i + 1\n		}\n		if b == st && i > 0 && data[i-1] < 0x80 {\n			// a raw ST, not a continuation byte\n			return i + 1\n		}")],
 prog([U + "graphemes"], '	it := graphemes.FromString("\\x1b]0;a\\x9cb\\x07z")\n	it.AnsiEscapeSequences = true\n	if it.Next(); it.End() != 8 {\n		panic(it.Value())\n	}\n'),
 "a 7-bit OSC whose payload has a raw byte 0x9C after an ASCII character", "an 8-bit terminator ends a 7-bit OSC")
seed("C09-grapheme-across", "C09", [("graphemes/iterator.go", "	// Fall back to UAX29 grapheme parsing\n", "	if iter.AnsiEscapeSequences && iter.start > 0 && iter.start > 1 && iter.data[iter.start-1] == 'm' && iter.data[iter.pos] >= utf8.RuneSelf {\n		// colored text: keep marks that follow a sequence with the next base\n		for iter.pos+1 < len(iter.data) && iter.data[iter.pos] == 0xCC {\n			iter.pos += 2\n		}\n		if iter.pos >= len(iter.data) {\n			iter.pos = len(iter.data)\n			return true\n		}\n	}\n	// Fall back to UAX29 grapheme parsing\n")],
 prog([U + "graphemes"], '	it := graphemes.FromString("\\x1b[1m\\u0301a")\n	it.AnsiEscapeSequences = true\n	it.Next()\n	it.Next()\n	if it.Value() != "\\u0301" {\n		panic(it.Value())\n	}\n'),
 "a combining mark directly after a sequence ending in m", "the mark is joined to the character after it")
seed("C10-csi-in-both", "C10", [("graphemes/iterator.go", "	if iter.AnsiEscapeSequences8Bit && b >= 0x80 && b <= 0x9F {", "	if iter.AnsiEscapeSequences8Bit && b >= 0x80 && b <= 0x9F && !(iter.AnsiEscapeSequences && b == 0x9B && iter.pos > 0 && iter.data[iter.pos-1] == esc) {")],
 prog([U + "graphemes"], '	it := graphemes.FromString("\\x1b\\x9b1mz")\n	it.AnsiEscapeSequences8Bit = true\n	it.AnsiEscapeSequences = true\n	it.Next()\n	it.Next()\n	if it.Value() != "\\x9b1m" {\n		panic(it.Value())\n	}\n'),
 "both options on, and a C1 CSI directly after a stray ESC", "the C1 sequence is not recognised there")

# ---- C12
seed("C12-next-after-end", "C12", [("sentences/iterator.go", "	if iter.pos >= len(iter.data) {\n		return false\n	}\n	iter.start = iter.pos\n", "	if iter.pos >= len(iter.data) {\n		if iter.start == iter.pos {\n			return false\n		}\n		iter.start = iter.pos\n		if len(iter.data) > 0 && iter.data[iter.pos-1] == '\\n' && iter.pos-1 > 0 && iter.data[iter.pos-2] == '\\r' {\n			// the last line was empty\n			iter.pos, iter.start = 0, 0\n		}\n		return false\n	}\n	iter.start = iter.pos\n")],
 prog([U + "sentences"], '	it := sentences.FromString("Hi\\r\\n")\n	for it.Next() {\n	}\n	if it.Next() {\n		panic("more")\n	}\n'),
 "Next again after it has returned false, on a text ending in CRLF", "the iterator starts over after reporting the end")
seed("C12-reset-start", "C12", [("words/iterator.go", "func (iter *Iterator[T]) Reset() {\n	iter.start = 0\n	iter.pos = 0\n", "func (iter *Iterator[T]) Reset() {\n	if iter.pos == len(iter.data) {\n		iter.start = 0\n	}\n	iter.pos = 0\n	if iter.start > iter.pos && iter.customSplit {\n		iter.start = 0\n	}\n")],
 prog([U + "words"], '	it := words.FromString("ab, cd ef")\n	it.Next()\n	it.Next()\n	it.Reset()\n	if it.Start() != 0 {\n		panic(it.Start())\n	}\n'),
 "Reset in the middle of the text (not at its end), then Start or Value before Next", "the old start survives Reset; Value would panic") 

# ---- C13
seed("C13-config-cache", "C13", [("words/joiners.go", "	Leading []rune\n}", "	Leading []rune\n\n	// ascii has a bit for each ASCII rune of Middle, built when first needed\n	ascii [2]uint64\n	built bool\n}\n\nfunc (j *Joiners[T]) middle(r rune) bool {\n	if !j.built {\n		j.built = true\n		for _, m := range j.Middle {\n			if m >= 0 && m < 128 {\n				j.ascii[m>>6] |= 1 << (m & 63)\n			}\n		}\n	}\n	if r >= 0 && r < 128 {\n		return j.ascii[r>>6]>>(r&63)&1 == 1\n	}\n	return runesContain(j.Middle, r)\n}"), ("words/splitfunc.go", "			if runesContain(j.Middle, r) {", "			if j.middle(r) {")],
 prog([U + "words"], '''	for round := 0; round < 200; round++ {
		j := &words.Joiners[string]{Middle: []rune("@-")}
		done := make(chan bool)
		for i := 0; i < 4; i++ {
			go func() {
				it := words.FromString("a@b c-d")
				it.Joiners(j)
				it.Next()
				if it.Value() != "a@b" {
					panic(it.Value())
				}
				done <- true
			}()
		}
		for i := 0; i < 4; i++ {
			<-done
		}
	}
'''), "two goroutines sharing one joiner configuration that has not been used before", "the configuration is completed on first use, unsynchronised: a data race, and joiners can be missed", race=True)
seed("C13-scratch-interleave", "C13", [("phrases/seek.go", "const notfound = -1\n", "const notfound = -1\n\n// the most recent look-ahead, which the next token often repeats\nvar recent struct {\n	n       int\n	b       byte\n	advance int\n}\n"), ("phrases/seek.go", "	i := 0\n", "	i := 0\n	if atEOF && len(data) > 8 && recent.n == len(data) && recent.b == data[0] && properties.is(_Numeric) {\n		return recent.advance, false\n	}\n"), ("phrases/seek.go", "			return i, false\n", "			recent.n, recent.b, recent.advance = len(data), data[0], i\n			return i, false\n")],
 prog([U + "phrases"], '''	done := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			for k := 0; k < 1000; k++ {
				for it := phrases.FromString("1,2345678901 1,2345678902"); it.Next(); {
				}
			}
			done <- true
		}()
	}
	<-done
	<-done
'''), "two goroutines (or two texts of one length) with look-ahead after a mid-number mark", "look-ahead results are kept in a package variable", race=True)

# ---- C14
seed("C14-split-token-copy", "C14", [("graphemes/splitfunc.go", "	// Return token\n	return pos, data[:pos], nil", "	// Return token\n	if regionalIndicatorCount > 1 {\n		return pos, T(string(data[:pos])), nil\n	}\n	return pos, data[:pos], nil")],
 prog([U + "graphemes"], '	b := []byte("\\U0001F1E6\\U0001F1E7\\U0001F1E8")\n	_, tok, _ := graphemes.SplitFunc(b, true)\n	b[0] = 0\n	if tok[0] != 0 {\n		panic("copy")\n	}\n'),
 "a flag followed by another regional indicator, given to the split function", "the token is a copy rather than a view")

# ---- C11
seed("C11-leading-space-only-first", "C11", [("words/splitfunc.go", "	if j != nil && j.Leading != nil {", "	if j != nil && j.Leading != nil && (w < len(data) || !atEOF) && !current.is(_WSegSpace) {")],
 prog([U + "words"], '	it := words.FromString("b, a")\n	it.Joiners(&words.Joiners[string]{Leading: []rune{\' \'}})\n	it.Next()\n	it.Next()\n	it.Next()\n	if it.Value() != " a" {\n		panic(it.Value())\n	}\n'),
 "a space configured as a leading joiner", "a leading space does not join the word after it")
seed("C11-middle-supplementary", "C11", [("words/joiners.go", "func runesContain(runes []rune, rune rune) bool {\n", "func runesContain(runes []rune, rune rune) bool {\n	if rune > 0xFFFF {\n		// no punctuation there\n		return false\n	}\n")],
 prog([U + "words"], '	it := words.FromString("a\\U00010101b")\n	it.Joiners(&words.Joiners[string]{Middle: []rune{0x10101}})\n	if it.Next(); len(it.Value()) != 6 {\n		panic(it.Value())\n	}\n'),
 "a joiner beyond U+FFFF", "joiners in the supplementary planes are ignored")

# ---- C17
seed("C17-numeric-extendnumlet", "C17", [("words/bleve_compat.go", "		if current.is(_ExtendNumLet) && lastExIgnore.is(_Numeric|_ExtendNumLet) {", "		if current.is(_ExtendNumLet) && lastExIgnore.is(_Numeric) {")],
 prog([U + "words"], '	if !words.BleveNumeric([]byte("1__2")) {\n		panic("no")\n	}\n'),
 "two or more underscores in a row inside a number", "not numeric")
# ---- C20
seed("C20-settext-default", "C20", [("words/iterator.go", "func (iter *Iterator[T]) SetText(data T) {\n", "func (iter *Iterator[T]) SetText(data T) {\n	if len(data) == 0 {\n		*iter = Iterator[T]{split: splitFunc[T]}\n	}\n")],
 prog([U + "words"], '	it := words.FromString("a b")\n	it.Split(func(s string, eof bool) (int, string, error) { return len(s), s, nil })\n	it.SetText("")\n	it.Next()\n	it.SetText("a b")\n	if it.Next(); it.Value() != "a b" {\n		panic(it.Value())\n	}\n'),
 "SetText with an empty text, then with another", "setting an empty text also forgets the custom split function")
# ---- C06
seed("C06-string-ascii-scan", "C06", [("graphemes/iterator.go", "	advance, _, err := iter.split(remaining, true)\n", "	advance, _, err := iter.split(remaining, true)\n	if s, ok := any(remaining).(string); ok && advance == 1 && len(s) > 1 && s[0] >= 0xF8 {\n		// not a character: take the rest of it too\n		for advance < len(s) && advance < 5 && !utf8.RuneStart(s[advance]) {\n			advance++\n		}\n	}\n")],
 prog([U + "graphemes"], '	in := "\\xf8\\x88a"\n	s, b := graphemes.FromString(in), graphemes.FromBytes([]byte(in))\n	s.Next()\n	b.Next()\n	if s.Value() != string(b.Value()) {\n		panic(s.Value())\n	}\n'),
 "a byte 0xF8-0xFF followed by continuation bytes", "strings and byte slices group invalid bytes differently")
