import sys, os
sys.path.insert(0, os.path.dirname(__file__))
import trie
SEEDS = []
def seed(id, property, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw))
def prog(imports, body):
    return "package main\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports) + ")\n\nfunc main() {\n" + body + "}\n"
U = "github.com/clipperhouse/uax29/v2/"

seed("C01-hotpath-general-punct", "C01", [("graphemes/iterator.go", "	// Fall back to UAX29 grapheme parsing\n", '''	// Curly quotes, dashes and the like (General Punctuation, less ZWJ) never extend ASCII
	if b < utf8.RuneSelf && b != cr && iter.pos+3 < len(iter.data) &&
		iter.data[iter.pos+1] == 0xE2 && iter.data[iter.pos+2] == 0x80 && iter.data[iter.pos+3] != 0x8D {
		iter.pos++
		return true
	}

	// Fall back to UAX29 grapheme parsing
''')],
 prog([U + "graphemes"], '	it := graphemes.FromString("a\\u200cb")\n	if it.Next(); it.Value() != "a\\u200c" {\n		panic(it.Value())\n	}\n'),
 "ZWNJ (U+200C, which extends) directly after an ASCII character, in the iterator",
 "an ASCII shortcut cuts before U+200C")
seed("C02-wb4-after-wsegspace", "C02", [("words/splitfunc.go", "		if (current & last).is(_WSegSpace) {", "		if current.is(_WSegSpace) && lastExIgnore.is(_WSegSpace) {")],
 prog([U + "words"], '	it := words.FromString(" \\u00ad z")\n	if it.Next(); it.Value() != " \\u00ad" {\n		panic(it.Value())\n	}\n'),
 "two spaces with an ignorable character between them", "WB3d is applied across ignorable characters")
seed("C02-hebrew-quote-run", "C02", [("words/splitfunc.go", "		if current.is(_SingleQuote) && lastExIgnore.is(_HebrewLetter) {", "		if current.is(_SingleQuote) && (lastExIgnore.is(_HebrewLetter) || lastLastExIgnore.is(_HebrewLetter)) {")],
 prog([U + "words"], '	it := words.FromString("\\u05d0\'\'")\n	if it.Next(); it.Value() != "\\u05d0\'" {\n		panic(it.Value())\n	}\n'),
 "two apostrophes after a Hebrew letter", "WB7a joins the second apostrophe as well")
seed("C03-sb9-close-after-sp", "C03", [("sentences/splitfunc.go", "		if current.is(_Close|_Sp|_ParaSep) && lastExIgnoreClose.is(_SATerm) {", "		if current.is(_Close|_Sp|_ParaSep) && (lastExIgnoreClose.is(_SATerm) || current.is(_Close) && lastExIgnoreSpClose.is(_STerm)) {")],
 prog([U + "sentences"], '	it := sentences.FromString("\\u3042! (\\u3042")\n	if it.Next(); it.Value() != "\\u3042! " {\n		panic(it.Value())\n	}\n'),
 "an exclamation or question mark, a space, and opening punctuation", "closing punctuation is accepted after spaces, so the next sentence's opening bracket is taken into this one")
seed("C04-numeric-midnum-emoji", "C04", [("phrases/splitfunc.go", "			advance, more := subsequent(_Numeric, data[pos+w:], atEOF)", "			advance, more := subsequent(_Numeric|_ExtendedPictographic, data[pos+w:], atEOF)")],
 prog([U + "phrases"], '	it := phrases.FromString("1,\\u2600")\n	if it.Next(); it.Value() != "1" {\n		panic(it.Value())\n	}\n'),
 "a number, a comma and an emoji", "WB12 look-ahead accepts an emoji, so the comma is joined to the number and then cut")
seed("C05-words-sentinel", "C05", [("words/reader.go", "	s.Split(SplitFunc)\n", '''	s.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		advance, token, err := SplitFunc(data, atEOF)
		if len(token) == 3 && token[0] == 0xEF && token[1] == 0xBB && token[2] == 0xBF {
			// byte order mark, not a word
			return advance, nil, err
		}
		return advance, token, err
	})
''')],
 prog(["strings", U + "words"], '	sc, out := words.FromReader(strings.NewReader("a\\n\\ufeff\\nb")), ""\n	for sc.Scan() {\n		out += sc.Text()\n	}\n	if out != "a\\n\\ufeff\\nb" {\n		panic(out)\n	}\n'),
 "a byte order mark standing alone between line breaks, read through FromReader", "the scanner consumes a byte order mark without returning it")
seed("C07-buffer-32k", "C07", [("sentences/reader.go", "	sc.Split(SplitFunc)\n", "	sc.Buffer(make([]byte, 0, 4096), 32*1024)\n	sc.Split(SplitFunc)\n")],
 prog(["strings", U + "sentences"], '	in := strings.Repeat("ab ", 15000)\n	sc := sentences.FromReader(strings.NewReader(in))\n	if !sc.Scan() || sc.Text() != in {\n		panic(sc.Err())\n	}\n'),
 "a token over 32 KiB (but within bufio's default 64 KiB) through FromReader", "the maximum token size is halved")
seed("C08-eager-after-period", "C08", [("sentences/seek.go", "	// If we reach here, we've only seen ignored characters or incomplete runes\n	if atEOF {", "	// If we reach here, we've only seen ignored characters or incomplete runes\n	if atEOF || len(data) > 0 {")],
 prog([U + "sentences"], '	adv, _, _ := sentences.SplitFunc([]byte("A. \\u0308"), false)\n	if adv != 0 {\n		panic(adv)\n	}\n	adv, _, _ = sentences.SplitFunc([]byte("A. \\u0308b"), true)\n	if adv != 6 {\n		panic(adv)\n	}\n'),
 "a prefix ending with an ignorable character in the look-ahead after a full stop", "would commit before the next character is known") if False else None
seed("C08-stall-newline", "C08", [("phrases/splitfunc.go", "		if (last | current).is(_Newline | _CR | _LF) {\n			break\n		}", "		if (last | current).is(_Newline | _CR | _LF) {\n			if !atEOF && len(data) < 4096 && current.is(_Newline) {\n				// wait for more, to return fewer and larger tokens\n				return 0, empty, nil\n			}\n			break\n		}")],
 prog([U + "phrases"], '	adv, _, err := phrases.SplitFunc([]byte("ab\\u2028cd\\u2028ef"), false)\n	if adv != 2 || err != nil {\n		panic(adv)\n	}\n'),
 "a phrase ended by U+2028, U+2029, U+0085, VT or FF, with complete phrases after it, not at end of input",
 "the split function keeps asking for more although the token is decided")
seed("C11-sorted-runes", "C11", [("words/joiners.go", "		if r == rune {\n			return true\n		}", "		if r == rune {\n			return true\n		}\n		if r > rune {\n			// no need to look further\n			return false\n		}")],
 prog([U + "words"], '	it := words.FromString("a@b")\n	it.Joiners(&words.Joiners[string]{Middle: []rune{\'\\u2014\', \'@\'}})\n	if it.Next(); it.Value() != "a@b" {\n		panic(it.Value())\n	}\n'),
 "two or more configured joiners, not in ascending order", "a configured joiner after a greater one is not found")
seed("C11-reader-joiners-snapshot", "C11", [("words/reader.go", "	sc.Split(func(data []byte, atEOF bool) (advance int, token []byte, err error) {\n		return j.splitFunc(data, atEOF)\n	})", "	own := Joiners[[]byte]{Middle: j.Middle}\n	if len(j.Leading) > 0 && len(j.Middle) == 0 {\n		own.Leading = j.Leading\n	} else {\n		own.Leading = append(own.Leading, j.Leading...)\n		own.Middle = own.Middle[:len(own.Middle):len(own.Middle)]\n		own.Middle = append(own.Middle, own.Leading...)\n	}\n	sc.Split(func(data []byte, atEOF bool) (advance int, token []byte, err error) {\n		return own.splitFunc(data, atEOF)\n	})")],
 prog(["strings", U + "words"], '	sc := words.FromReader(strings.NewReader("a#b"))\n	sc.Joiners(&words.Joiners[[]byte]{Middle: []rune("@"), Leading: []rune("#")})\n	if !sc.Scan() || sc.Text() != "a" {\n		panic(sc.Text())\n	}\n'),
 "a scanner with both leading and middle joiners, and a leading joiner between letters", "the reader treats leading joiners as middle joiners too")
seed("C12-settext-start", "C12", [("phrases/iterator.go", "	iter.data = data\n	iter.start = 0\n	iter.pos = 0\n", "	iter.data = data\n	iter.start = min(iter.start, len(data))\n	iter.pos = 0\n	if len(data) == 0 || iter.start == len(data) {\n		iter.start = 0\n	}\n")],
 prog([U + "phrases"], '	it := phrases.FromString("a, b, c")\n	it.Next()\n	it.Next()\n	it.SetText("abcdefg")\n	if it.Start() != 0 {\n		panic(it.Start())\n	}\n'),
 "SetText after at least two Next calls, then Start before the next Next", "the start of the old token survives SetText")
seed("C12-first-options", "C12", [("graphemes/iterator.go", "	// Use a copy to leverage Next()'s ASCII optimization\n	cp := *iter\n	cp.pos = 0\n	cp.start = 0\n", "	// Use a copy to leverage Next()'s ASCII optimization\n	cp := Iterator[T]{split: iter.split, data: iter.data, AnsiEscapeSequences: iter.AnsiEscapeSequences}\n")],
 prog([U + "graphemes"], '	it := graphemes.FromString("\\x9b1mz")\n	it.AnsiEscapeSequences8Bit = true\n	if it.First() != "\\x9b1m" {\n		panic(it.First())\n	}\n'),
 "First with the 8-bit option on, on text that starts with a C1 sequence", "First forgets the 8-bit option")
seed("C13-shared-memo", "C13", [("words/joiners.go", "func runesContain(runes []rune, rune rune) bool {\n	// Did some bechmarking, a map isn't faster for small numbers\n", "// the last joiner found, which is likely to recur\nvar lastJoiner rune\nvar lastJoinerIn *rune\n\nfunc runesContain(runes []rune, rune rune) bool {\n	if len(runes) > 0 && lastJoinerIn == &runes[0] && rune == lastJoiner {\n		return true\n	}\n	// Did some bechmarking, a map isn't faster for small numbers\n"), ("words/joiners.go", "		if r == rune {\n			return true\n		}", "		if r == rune {\n			lastJoiner, lastJoinerIn = rune, &runes[0]\n			return true\n		}")],
 prog([U + "words"], '''	done := make(chan bool)
	j := &words.Joiners[string]{Middle: []rune("@-")}
	for i := 0; i < 4; i++ {
		go func() {
			for k := 0; k < 20000; k++ {
				it := words.FromString("a@b c-d")
				it.Joiners(j)
				for n := 0; it.Next(); n++ {
					if n == 0 && it.Value() != "a@b" {
						panic(it.Value())
					}
				}
			}
			done <- true
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
'''), "two goroutines iterating with joiners", "an unsynchronised package-level memo: a data race, and a wrong match when its two halves mix", race=True)
seed("C14-ascii-run-cached", "C14", [("graphemes/iterator.go", "	pos   int\n	start int\n	// AnsiEscape", "	pos   int\n	start int\n	// ascii is the end of the run of ASCII which pos is in, if known\n	ascii int\n	// AnsiEscape"),
  ("graphemes/iterator.go", "	// ASCII hot path: any ASCII is one grapheme when next byte is ASCII or end.\n", "	// ASCII hot path, inside a known run\n	if iter.pos+1 < iter.ascii && b != cr {\n		iter.pos++\n		return true\n	}\n	// ASCII hot path: any ASCII is one grapheme when next byte is ASCII or end.\n"),
  ("graphemes/iterator.go", "		if iter.pos+1 >= len(iter.data) || iter.data[iter.pos+1] < utf8.RuneSelf {\n			iter.pos++", "		if iter.pos+1 >= len(iter.data) || iter.data[iter.pos+1] < utf8.RuneSelf {\n			iter.pos++\n			for iter.ascii = iter.pos; iter.ascii < len(iter.data) && iter.ascii < iter.pos+16 && iter.data[iter.ascii] < utf8.RuneSelf; iter.ascii++ {\n			}"),
  ("graphemes/iterator.go", "func (iter *Iterator[T]) Reset() {\n", "func (iter *Iterator[T]) Reset() {\n	iter.ascii = 0\n"),
  ("graphemes/iterator.go", "	iter.data = data\n	iter.start = 0\n", "	iter.data = data\n	iter.ascii = 0\n	iter.start = 0\n"),
  ("graphemes/iterator.go", "	cp.pos = 0\n	cp.start = 0\n", "	cp.pos = 0\n	cp.ascii = 0\n	cp.start = 0\n")],
 prog([U + "graphemes"], '	b := []byte("abcdefgh")\n	it := graphemes.FromBytes(b)\n	it.Next()\n	copy(b[3:], "\\u0301")\n	it.Next()\n	it.Next()\n	if string(it.Value()) != "c\\u0301" {\n		panic(string(it.Value()))\n	}\n'),
 "the caller changes bytes ahead of the cursor, within a run of ASCII, between two Next calls", "the iterator remembers that the bytes ahead were ASCII and does not see the change")
seed("C14-first-copy", "C14", [("sentences/iterator.go", "	cp.Next()\n	return cp.Value()", "	cp.Next()\n	if cp.pos == len(cp.data) {\n		return T(string(cp.data))\n	}\n	return cp.Value()")],
 prog([U + "sentences"], '	b := []byte("just one sentence")\n	f := sentences.FromBytes(b).First()\n	b[0] = \'J\'\n	if f[0] != \'J\' {\n		panic("copy")\n	}\n'),
 "First on a text of a single sentence", "First returns a copy rather than a view")
seed("C15-alloc-on-flag", "C15", [("graphemes/splitfunc.go", "			regionalIndicatorCount++\n\n			odd := regionalIndicatorCount%2 == 1\n", "			regionalIndicatorCount++\n			flag := string(data[:pos+w])\n			sink = &flag\n\n			odd := regionalIndicatorCount%2 == 1\n"), ("graphemes/splitfunc.go", "const _Ignore = _Extend\n", "const _Ignore = _Extend\n\n// the most recent flag, for debugging\nvar sink *string\n")],
 prog(["runtime", "strings", U + "graphemes"], '''	s := strings.Repeat("\\U0001F1E6\\U0001F1E7", 1000)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	for it := graphemes.FromString(s); it.Next(); {
	}
	runtime.ReadMemStats(&b)
	if b.Mallocs-a.Mallocs > 100 {
		panic(b.Mallocs - a.Mallocs)
	}
'''), "text with flag emoji", "an allocation for each flag")
seed("C16-rescan-zwj", "C16", [("words/splitfunc.go", "		// https://unicode.org/reports/tr29/#WB4\n		if current.is(_Extend | _Format | _ZWJ) {\n			pos += w\n", "		// https://unicode.org/reports/tr29/#WB4\n		if current.is(_Extend | _Format | _ZWJ) {\n			if current.is(_Format) && lastExIgnore.is(_HebrewLetter) {\n				// a quote may follow\n				if a, _ := subsequent(_DoubleQuote|_SingleQuote, data[pos+w:], true); a > 0 {\n					pos += w + a\n					current = _Format\n					continue\n				}\n			}\n			pos += w\n")],
 prog(["strings", "time", U + "words"], '''	t := func(n int) time.Duration {
		s := "\\u05d0" + strings.Repeat("\\u00ad", n)
		best := time.Hour
		for i := 0; i < 3; i++ {
			t0 := time.Now()
			for it := words.FromString(s); it.Next(); {
			}
			best = min(best, time.Since(t0))
		}
		return best
	}
	a, b := t(2000), t(32000)
	if b > a*64 {
		panic(b)
	}
'''), "a Hebrew letter followed by a long run of format characters", "each format character scans the rest of the run: quadratic time") if False else None
seed("C17-ideo-extendnumlet-start", "C17", [("words/bleve_compat.go", "		if current.is(_BleveIdeographic | _ExtendNumLet | _Ignore) {", "		if current.is(_BleveIdeographic | _ExtendNumLet | _Extend | _ZWJ) {")],
 prog([U + "words"], '	if !words.BleveIdeographic([]byte("\\u6f22\\u00ad\\u5b57")) {\n		panic("no")\n	}\n'),
 "a format character inside an ideographic token", "format characters are not allowed within an ideographic token")
seed("C18-filter-digit", "C18", [("internal/iterators/filter/filter.go", "unicode.IsNumber(r)", "unicode.IsDigit(r)")],
 prog([U + "internal/iterators/filter"], '	if !filter.AlphaNumeric([]byte("\\u00bd")) {\n		panic("no")\n	}\n'),
 "a token whose only alphanumeric is a number that is not a decimal digit, such as a fraction or Roman numeral", "such tokens are filtered out")
seed("C18-single-byte-tail", "C18", [("internal/iterators/iterator.go", "	if len(d) == 1 {", "	if len(d) == 1 || (len(d) == 2 && d[0] < ' ' && d[1] == d[0]) {")],
 prog([U + "internal/iterators"], '''	it := iterators.New(func(s string, eof bool) (int, string, error) {
		return len(s), s, nil
	}, "ab\\n\\n")
	it.SetText("\\n\\n")
	if it.Next(); it.Value() != "\\n\\n" {
		panic(it.Value())
	}
'''), "a text whose last two bytes are the same control character", "the shortcut for a single remaining byte also cuts a pair of control characters")
seed("C20-reset-split", "C20", [("words/iterator.go", "	cp := *iter\n	cp.pos = 0\n	cp.start = 0\n	cp.Next()\n	return cp.Value()", "	cp := *iter\n	cp.pos = 0\n	cp.start = 0\n	if isASCIIAlphanumeric(iter.data[0]) && (len(iter.data) == 1 || iter.data[1] == ' ') {\n		return iter.data[:1]\n	}\n	cp.Next()\n	return cp.Value()")],
 prog([U + "words"], '	it := words.FromString("a b")\n	it.Split(func(s string, eof bool) (int, string, error) { return len(s), s, nil })\n	if it.First() != "a b" {\n		panic(it.First())\n	}\n'),
 "First, with a custom split, on a text that starts with a one-letter ASCII word", "First does not ask the custom split function")
seed("C20-overrun-clamped", "C20", [("words/iterator.go", "	if advance <= 0 {", "	if iter.start > 0 && advance > len(remaining) {\n		advance = len(remaining)\n	}\n	if advance < 1 {")],
 prog([U + "words"], '''	it := words.FromString("ab cd")
	n := 0
	it.Split(func(s string, eof bool) (int, string, error) {
		n++
		if n > 1 {
			return len(s) + 1, s, nil
		}
		return 1, s[:1], nil
	})
	defer func() {
		if recover() == nil {
			panic("no panic")
		}
	}()
	for it.Next() {
	}
'''), "a custom split function that overruns the text on a token other than the first", "the overrun is hidden")
# ---- generator
GEN = '''#!/bin/bash
# Run with cwd /repo. Runs the generator in a scratch copy, on data served from beside this script.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
cp -a . "$d/repo" && cp "$here/serve.go.txt" "$d/repo/internal/gen/zz_serve.go" && cp "$here/expect.go.txt" "$d/repo/words/zz_expect_test.go"
cd "$d/repo/internal/gen" && timeout 200 go run . > "$d/log" 2>&1 || { cat "$d/log"; find "$d" -delete; exit 3; }
cd "$d/repo" && rm -f words/*_test.go.bak && mkdir -p zz_demo && cp "$here/main.go.txt" zz_demo/main.go && timeout 200 go run ./zz_demo
rc=$?
cd / && find "$d" -delete
exit $rc
'''
