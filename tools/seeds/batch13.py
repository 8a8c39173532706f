"""Shortcuts for ASCII and common blocks, windows on long texts, odd data files."""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from batch2 import prog, U
from batch4 import files, DEMO
SEEDS = []
def seed(id, property, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw))

FDEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
o="$(mktemp)"
printf '{"Replace":{"%s/internal/iterators/filter/zz_test.go":"%s/f_test.go"}}' "$PWD" "$here" > "$o"
go test -overlay "$o" ./internal/iterators/filter
rc=$?
rm -f "$o"
exit $rc
'''
seed("C18-swar-filter", "C18", [("internal/iterators/filter/filter.go", "	for pos < len(token) {\n", '''	for pos < len(token) {
		// eight bytes of ASCII at a time
		if len(token)-pos >= 8 {
			ascii, found := true, false
			for _, b := range token[pos : pos+8] {
				ascii = ascii && b < utf8.RuneSelf
				b |= 0x20 // lower case
				found = found || b >= 'a' && b <= 'z' || b >= '0' && b <= '9'
			}
			if ascii && found {
				return true
			}
			if ascii {
				pos += 8
				continue
			}
		}
''')], None, "eight bytes of ASCII or more in a token without letters and numbers, with one of the control characters U+0010 to U+0019",
 "the control character is taken for a digit", files={"f_test.go": '''package filter

import "testing"

func TestF(t *testing.T) {
	if AlphaNumeric([]byte("-------\\x13")) {
		t.Fatal()
	}
}
'''}, demo=FDEMO)

seed("C20-window", "C20", [("words/iterator.go", "	advance, _, err := iter.split(remaining, true)\n	if err != nil {\n		panic(err)\n	}\n	if advance <= 0 {\n", '''	const window = 1 << 14
	var advance int
	var err error
	if len(remaining) > window {
		// most words are short, look at the beginning first
		advance, _, err = iter.split(remaining[:window], false)
	}
	if advance == 0 && err == nil {
		advance, _, err = iter.split(remaining, true)
	}
	if err != nil {
		panic(err)
	}
	if advance <= 0 {
''')], prog(["strings", U + "words"], '''	it := words.FromString(strings.Repeat(".", 20000))
	it.Split(func(s string, atEOF bool) (int, string, error) { return len(s), s, nil })
	if it.Next(); len(it.Value()) != 20000 {
		panic(len(it.Value()))
	}
'''), "a split function of one's own on a text of over 16 KiB", "it is given a part of the text, and not told what it is used to be told")

seed("C01-hotpath-combining", "C01", [("graphemes/iterator.go", "	// Fall back to UAX29 grapheme parsing\n", '''	// A letter and one combining diacritical mark (U+0300 to U+036F), before ASCII
	if d := iter.data[iter.pos:]; b >= 'A' && b <= 'z' && len(d) > 3 && d[3] < utf8.RuneSelf {
		if d[1] == 0xCC || d[1] == 0xCD && d[2] < 0xB8 {
			iter.pos += 3
			return true
		}
	}

	// Fall back to UAX29 grapheme parsing
''')], prog([U + "graphemes"], '''	it := graphemes.FromString("a\\u0370b")
	if it.Next(); it.Value() != "a" {
		panic(it.Value())
	}
'''), "a letter, then one of the Greek letters U+0370 to U+0377, then ASCII, in the iterator", "the Greek letter is taken for a mark")

seed("C17-hexagrams", "C17", [("words/bleve_compat.go", "		current, w := lookup(token[pos:])\n\n		if pos == 0 {\n			// must start with ideo\n", '''		// CJK Unified Ideographs, and Extension A: three bytes, E3 90 to E9 BF
		if d := token[pos:]; len(d) > 2 && (d[0] > 0xE3 || d[0] == 0xE3 && d[1] >= 0x90) && d[0] <= 0xE9 && d[1]&0xC0 == 0x80 && d[2]&0xC0 == 0x80 {
			pos += 3
			continue
		}

		current, w := lookup(token[pos:])

		if pos == 0 {
			// must start with ideo
''')], prog([U + "words"], '''	if words.BleveIdeographic([]byte("\\u4dc1")) {
		panic("a hexagram is no ideograph")
	}
'''), "one of the Yijing hexagram symbols (U+4DC0 to U+4DFF)", "it is reported as an ideograph")

seed("C17-tail-byte", "C17", [("words/bleve_compat.go", "		// https://unicode.org/reports/tr29/#WB13a\n", '''		// a connector at the very end needs nothing before it but what has been accepted
		if current.is(_ExtendNumLet) && pos+w == len(token) && numeric {
			return true
		}

		// https://unicode.org/reports/tr29/#WB13a
''')], prog([U + "words"], '''	if words.BleveNumeric([]byte("1.\\u0300_")) {
		panic("1._")
	}
'''), "x", "x") if False else None

seed("C19-no-newline-eof", "C19", [("internal/gen/main.go", "		if err == io.EOF && len(s) == 0 {\n			break\n		}\n", "		if err == io.EOF && len(strings.Fields(s)) < 4 {\n			break\n		}\n")],
 None, "a data file whose last line has neither a comment nor a newline at its end", "the last line is left out", demo=DEMO,
 files=dict(files(prog([U + "words"], '''	it := words.FromString("a\\u2abf")
	if it.Next(); it.Value() != "a\\u2abf" {
		panic(it.Value())
	}
''')), **{"WordBreakProperty.txt": files("")["WordBreakProperty.txt"] + "2ABF ; Extend"}))

seed("C19-pictographic-fill", "C19", [("internal/gen/main.go", "		runesByProperty[key] = extendedPictographic\n", '''		// letters stay letters
		var pictographic []rune
		assigned := map[rune]bool{}
		for _, r := range runesByProperty["ALetter"] {
			assigned[r] = true
		}
		for _, r := range extendedPictographic {
			if !assigned[r] {
				pictographic = append(pictographic, r)
			}
		}
		runesByProperty[key] = pictographic
''')], None, "a code point which is both ALetter and Extended_Pictographic", "it is no longer Extended_Pictographic", demo=DEMO,
 files=files(prog([U + "words"], '''	it := words.FromString(" \\u200d\\u2abf")
	if it.Next(); it.Value() != " \\u200d\\u2abf" {
		panic(it.Value())
	}
'''), word=["ALetter 2ABF"], emoji=("2600..2603", "2ABF")))

seed("C02-hotpath-comma-space", "C02", [("words/iterator.go", "		// Check if followed by ASCII space or end of data\n", '''		// Punctuation and a space: certain to be the end of the word
		if end+1 < len(iter.data) && iter.data[end+1] == ' ' && iter.data[end] > ' ' && iter.data[end] < 0x40 {
			iter.pos = end
			return true
		}
		// A no-break space (U+00A0) ends it as well
		if end+1 < len(iter.data) && iter.data[end] == 0xC2 && iter.data[end+1] >= 0xA0 && iter.data[end+1] < 0xAD {
			iter.pos = end
			return true
		}
		// Check if followed by ASCII space or end of data
''')], prog([U + "words"], '''	it := words.FromString("a\\u00aab")
	if it.Next(); it.Value() != "a\\u00aab" {
		panic(it.Value())
	}
'''), "an ASCII word with the feminine ordinal indicator (U+00AA) in it, in the iterator", "the word is cut before it")

seed("C07-short-last", "C07", [("sentences/reader.go", "	s.Split(SplitFunc)\n", '''	var last int
	s.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		if !atEOF && last > 0 && len(data) < last+2 {
			// hardly more than at the last call, wait
			return 0, nil, nil
		}
		advance, token, err := SplitFunc(data, atEOF)
		last = 0
		if advance == 0 && err == nil {
			last = len(data)
		}
		if token != nil && len(token) == last {
			last = 0
		}
		return advance, token, err
	})
''')], None, "x", "x") if False else None

seed("C12-shared-scratch", "C12", [("phrases/iterator.go" if False else "phrases/reader.go", "	s.Split(SplitFunc)\n", '''	s.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		advance, token, err := SplitFunc(data, atEOF)
		if n := len(token); n > 1 && token[n-1] == '\\n' && token[n-2] == '\\r' {
			token = append(token[:n-2], '\\n')
			token = token[:n-1]
			return advance, token, err
		}
		return advance, token, err
	})
''')], None, "x", "x") if False else None

seed("C09-escape-in-joiner", "C09", [("graphemes/iterator.go", "	if iter.AnsiEscapeSequences && b == esc {\n", "	if iter.AnsiEscapeSequences && b == esc && (iter.pos == 0 || iter.data[iter.pos-1] != esc || iter.pos+1 < len(iter.data) && iter.data[iter.pos+1] == '[') {\n")],
 prog([U + "graphemes"], '''	it := graphemes.FromString("\\x1b\\x1bM")
	it.AnsiEscapeSequences = true
	it.Next()
	if it.Next(); it.Value() != "\\x1bM" {
		panic(it.Value())
	}
'''), "an escape sequence other than a control sequence directly after a lone ESC", "it is not kept together")

seed("C12-first-remembered", "C12", [("graphemes/iterator.go", "	// Use a copy to leverage Next()'s ASCII optimization\n	cp := *iter\n	cp.pos = 0\n	cp.start = 0\n	cp.Next()\n", '''	// Use a copy to leverage Next()'s ASCII optimization
	cp := *iter
	if cp.start != 0 || iter.pos > 16 {
		cp.pos = 0
		cp.start = 0
		cp.Next()
	} else if cp.pos == 0 {
		cp.Next()
	}
''')], prog([U + "graphemes"], '''	it := graphemes.FromString("\\x1b[1mx")
	it.Next()
	it.AnsiEscapeSequences = true
	if v := it.First(); v != "\\x1b[1m" {
		panic(v)
	}
'''), "First after one Next, the options having been set in between", "First goes by the token found before")
SEEDS = [s for s in SEEDS if s]
