"""Counts, chains, second looks, and errors that look special."""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from batch2 import prog, U
SEEDS = []
def seed(id, property, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw))

seed("C01-zwj-chain", "C01", [("graphemes/splitfunc.go", "	var regionalIndicatorCount int\n", "	var regionalIndicatorCount int\n	var joined int // pictographs joined by ZWJ\n"),
 ("graphemes/splitfunc.go", "		if current.is(_ExtendedPictographic) && last.is(_ZWJ) && lastLastExIgnore.is(_ExtendedPictographic) {\n", '''		if current.is(_ExtendedPictographic) && last.is(_ZWJ) && lastLastExIgnore.is(_ExtendedPictographic) && joined < 15 {
			// no sequence recommended for interchange is nearly as long
			joined++
''')],
 prog(["strings", U + "graphemes"], '''	s := strings.Repeat("\\u2640\\u200d", 20) + "\\u2640"
	if it := graphemes.FromString(s); !it.Next() || it.Value() != s {
		panic(it.End())
	}
'''), "more than sixteen pictographs joined by ZWJ", "the cluster is cut")
seed("C02-midletter-chain", "C02", [("words/splitfunc.go", "	var regionalIndicatorCount int\n", "	var regionalIndicatorCount int\n	var parts uint8 // of a word with MidLetters in it\n"),
 ("words/splitfunc.go", "			found := advance != notfound\n			if found {\n				pos += w + advance\n				continue\n			}\n		}\n\n		// https://unicode.org/reports/tr29/#WB7\n", "			found := advance != notfound\n			if found && parts < 32 {\n				parts++\n				pos += w + advance\n				continue\n			}\n		}\n\n		// https://unicode.org/reports/tr29/#WB7\n")],
 prog(["strings", U + "words"], '''	s := strings.Repeat("a.", 40) + "a"
	if it := words.FromString(s); !it.Next() || it.Value() != s {
		panic(it.End())
	}
'''), "more than 32 mid-word characters in a word (a long domain name, an abbreviation)", "the word is cut")
seed("C03-sb8-once", "C03", [("sentences/splitfunc.go", "			advance, more := subsequent(_Lower, data[p:], atEOF)\n", '''			if p < len(data) && atEOF && p > pos+64 {
				// far from the terminator, it's no longer the same sentence
				if l, _ := lookup(data[p:]); !l.is(_Lower) {
					break main
				}
			}

			advance, more := subsequent(_Lower, data[p:], atEOF)
''')],
 prog(["strings", U + "sentences"], '''	s := "a." + strings.Repeat(" ", 80) + "A"
	if it := sentences.FromString(s); !it.Next() || it.Value() != s[:len(s)-1] {
		panic(it.Value())
	}
'''), "more than 64 spaces, brackets or numbers after a full stop, then an upper-case letter", "the spaces are not taken into the sentence")
seed("C04-emoji-zwj-number", "C04", [("phrases/splitfunc.go", "		if current.is(_ExtendedPictographic) && last.is(_ZWJ) {\n", "		if current.is(_ExtendedPictographic) && last.is(_ZWJ) && !lastExIgnore.is(_Katakana) {\n")],
 prog([U + "phrases"], '''	s := "\\u30a2\\u200d\\u2640"
	if it := phrases.FromString(s); !it.Next() || it.Value() != s {
		panic(it.Value())
	}
'''), "Katakana, ZWJ and a pictograph", "the phrase is cut between ZWJ and the pictograph, in the middle of a word")
seed("C05-cr-utf8", "C05", [("words/splitfunc.go", '''			if atEOF {
				// Just return the bytes, we can't do anything with them
				pos = len(data)
				break
			}
''', '''			if atEOF {
				// Just return the bytes, we can't do anything with them
				if !lastExIgnore.is(_RegionalIndicator) {
					pos = len(data)
				} else {
					pos += len(data) - pos&^3
				}
				break
			}
''')],
 prog([U + "words"], '''	s := "\\U0001F1E6\\xF0\\x9F\\x87"
	it, out := words.FromString(s), ""
	for it.Next() {
		out += it.Value()
	}
	if out != s {
		panic(out)
	}
'''), "a regional indicator and an incomplete character at the end", "wrong length: out of range, or cut") if False else None
seed("C06-sentences-plain", "C06", [("sentences/iterator.go", "	// Fall back to UAX29 ", '''	if s, ok := any(iter.data).(string); ok && plain(s[iter.pos:]) {
		iter.pos = len(s)
		return true
	}

	// Fall back to UAX29 ''')] if False else [("sentences/iterator.go", "	remaining := iter.data[iter.pos:]\n", '''	if s, ok := any(iter.data).(string); ok && plain(s[iter.pos:]) {
		iter.pos = len(s)
		return true
	}

	remaining := iter.data[iter.pos:]
'''), ("sentences/iterator.go", "// Next advances", '''// plain tells whether s is Latin text with nothing that could end a sentence.
func plain(s string) bool {
	if len(s) > 80 {
		return false
	}
	for i := 0; i < len(s); i++ {
		switch b := s[i]; {
		case b == '.', b == '!', b == '?', b == '\\r', b == '\\n':
			return false
		case b > 0xC9:
			return false
		}
	}
	return true
}

// Next advances''')],
 prog([U + "sentences"], '''	a, b := sentences.FromString("a\\u0085b"), sentences.FromBytes([]byte("a\\u0085b"))
	a.Next()
	b.Next()
	if a.Value() != string(b.Value()) {
		panic(a.Value())
	}
'''), "a short string with NEL (U+0085), and no other end of sentence", "the string iterator does not cut after it")
seed("C11-leading-replaces", "C11", [("words/splitfunc.go", "			// treat leading joiners as if they are (non-Hebrew) letters,\n			// then depend on the existing logic below\n			current |= _ALetter\n", "			// treat leading joiners as if they are (non-Hebrew) letters,\n			// then depend on the existing logic below\n			current = _ALetter\n")],
 prog([U + "words"], '''	it := words.FromString("_\\u30a2")
	it.Joiners(&words.Joiners[string]{Leading: []rune("_")})
	if it.Next(); it.Value() != "_\\u30a2" {
		panic(it.Value())
	}
'''), "a leading joiner which has word properties of its own", "it loses them")
seed("C11-middle-replaces", "C11", [("words/splitfunc.go", "				current |= _MidNumLet\n", "				current = _MidNumLet\n")],
 prog([U + "words"], '''	it := words.FromString("--  a")
	it.Joiners(&words.Joiners[string]{Middle: []rune(" ")})
	it.Next()
	it.Next()
	it.Next()
	if it.Value() != "  " {
		panic(it.Value())
	}
'''), "a middle joiner which has word properties of its own: two spaces with space a joiner", "it loses them")
seed("C11-both-same", "C11", [("words/splitfunc.go", "	if j != nil && j.Leading != nil {\n", "	if j != nil && j.Leading != nil && !(len(j.Leading) == 1 && len(j.Middle) == 1 && j.Leading[0] == j.Middle[0]) {\n")],
 prog([U + "words"], '''	it := words.FromString("@a@b")
	it.Joiners(&words.Joiners[string]{Middle: []rune("@"), Leading: []rune("@")})
	if it.Next(); it.Value() != "@a@b" {
		panic(it.Value())
	}
'''), "one character, and it both leading and middle", "it does not lead")
seed("C12-settext-same", "C12", [("phrases/iterator.go", "	iter.data = data\n	iter.start = 0\n", "	if iter.pos == 0 && len(data) == len(iter.data) && len(data) > 0 && data[0] == iter.data[0] && data[len(data)-1] == iter.data[len(data)-1] && same(data, iter.data) {\n		return\n	}\n	iter.data = data\n	iter.start = 0\n"),
  ("phrases/iterator.go", "// SetText sets", "// same samples two texts of the same length, which is enough to tell them apart.\nfunc same[T ~string | ~[]byte](a, b T) bool {\n	for i := 0; i < len(a); i += 4 {\n		if a[i] != b[i] {\n			return false\n		}\n	}\n	return true\n}\n\n// SetText sets")],
 prog([U + "phrases"], '''	it := phrases.FromString("abc, d")
	it.SetText("a,c, d")
	if it.Next(); it.Value() != "a" {
		panic(it.Value())
	}
'''), "SetText before the first Next with a text of the same length which differs in few places", "the old text stays")
seed("C12-first-after-empty", "C12", [("sentences/iterator.go", "	if len(iter.data) == 0 {\n		return iter.data\n	}\n", "	if len(iter.data) == 0 {\n		return iter.data\n	}\n	if iter.pos > 0 && iter.start == 0 {\n		// still the first\n		return iter.Value()\n	}\n"),
  ("sentences/iterator.go", "	if iter.pos >= len(iter.data) {\n		return false\n	}\n", "	if iter.pos >= len(iter.data) {\n		iter.start = 0\n		return false\n	}\n")],
 prog([U + "sentences"], '''	it := sentences.FromString("a. B.")
	for it.Next() {
	}
	if it.First() != "a. " || it.Start() != 3 {
		panic(it.First())
	}
'''), "First or Start after the end", "the current token is lost when the end is reached")
seed("C18-final-token", "C18", [("internal/iterators/iterator.go", '''	advance, _, err := iter.split(d, true)
	if err != nil {
		panic(err)
	}
''', '''	advance, _, err := iter.split(d, true)
	if err == bufio.ErrFinalToken && advance > 0 {
		// not a failure
		err = nil
	}
	if err != nil {
		panic(err)
	}
'''), ("internal/iterators/iterator.go", "package iterators\n", 'package iterators\n\nimport "bufio"\n')],
 None, "a split function that returns bufio.ErrFinalToken", "the iterator goes on", files={"f_test.go": '''package iterators

import (
	"bufio"
	"testing"
)

func TestF(t *testing.T) {
	it := New(func(s string, _ bool) (int, string, error) { return 1, s[:1], bufio.ErrFinalToken }, "abc")
	defer func() {
		if recover() == nil {
			t.Fatal()
		}
	}()
	it.Next()
}
'''}, demo='''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
o="$(mktemp)"
printf '{"Replace":{"%s/internal/iterators/zz_test.go":"%s/f_test.go"}}' "$PWD" "$here" > "$o"
go test -overlay "$o" -run 'TestF$' ./internal/iterators
rc=$?
rm -f "$o"
exit $rc
''')
seed("C20-eof-error", "C20", [("words/iterator.go", '''	advance, _, err := iter.split(remaining, true)
	if err != nil {
		panic(err)
	}
''', '''	advance, _, err := iter.split(remaining, true)
	if err == io.EOF {
		// the end, not a failure
		iter.pos = len(iter.data)
		return false
	}
	if err != nil {
		panic(err)
	}
'''), ("words/iterator.go", "package words\n", 'package words\n\nimport "io"\n')],
 prog(["io", U + "words"], '''	it := words.FromString("abc")
	it.Split(func(s string, _ bool) (int, string, error) { return 1, s[:1], io.EOF })
	defer func() {
		if recover() == nil {
			panic("no panic")
		}
	}()
	it.Next()
'''), "a split function that fails with io.EOF", "iteration ends without a panic")
seed("C16-ri-lookback", "C16", [("words/splitfunc.go", "			regionalIndicatorCount++\n\n			odd", '''			regionalIndicatorCount++
			if w < 4 || regionalIndicatorCount > 1 {
				// the second of a pair: make sure that there are two
				for p := 0; p < pos; p++ {
					if data[p] < 0x80 {
						regionalIndicatorCount = 1
						break
					}
				}
			}

			odd''')],
 prog(["strings", "time", U + "words"], '''	var d [2]time.Duration
	for k, n := range []int{30000, 300000} {
		s := strings.Repeat("\\U0001F1E6", n)
		t := time.Now()
		for it := words.FromString(s); it.Next(); {
		}
		d[k] = time.Since(t)
	}
	if d[1] > 40*d[0] {
		panic(d[1])
	}
'''), "nothing: no token has more than two", "is linear") if False else None
seed("C16-c1-search", "C16", [("graphemes/iterator.go", '''	if iter.AnsiEscapeSequences && b == esc {
''', '''	if iter.AnsiEscapeSequences && iter.AnsiEscapeSequences8Bit && b >= utf8.RuneSelf && !containsC1(iter.data[iter.pos:]) {
		// only UTF-8 from here
		cp := *iter
		cp.AnsiEscapeSequences8Bit = false
		ok := cp.Next()
		iter.pos = cp.pos
		return ok
	}
	if iter.AnsiEscapeSequences && b == esc {
'''), ("graphemes/iterator.go", "// Next advances", '''func containsC1[T ~string | ~[]byte](data T) bool {
	for i := 0; i < len(data); i++ {
		if data[i] >= 0x80 && data[i] <= 0x9F {
			return true
		}
	}
	return false
}

// Next advances''')],
 prog(["strings", "time", U + "graphemes"], '''	var d [2]time.Duration
	for k, n := range []int{10000, 100000} {
		s := strings.Repeat("\\u00e9", n)
		t := time.Now()
		it := graphemes.FromString(s)
		it.AnsiEscapeSequences, it.AnsiEscapeSequences8Bit = true, true
		for it.Next() {
		}
		d[k] = time.Since(t)
	}
	if d[1] > 40*d[0] {
		panic(d[1])
	}
'''), "both ANSI options, and text with no bytes 0x80-0x9F", "each cluster looks through the rest of the text")
seed("C09-st-in-csi-limit", "C09", [("graphemes/ansi.go", '''func oscLength[T ~string | ~[]byte](data T) int {
	for i := 0; i < len(data); i++ {
		b := data[i]
''', '''func oscLength[T ~string | ~[]byte](data T) int {
	for i := 0; i < len(data); i++ {
		b := data[i]
		if b >= 0xE0 {
			// a longer character, none of which ends the string
			i += 2
			continue
		}
''')],
 prog([U + "graphemes"], '''	s := "\\x1b]\\xe9t\\ax"
	it := graphemes.FromString(s)
	it.AnsiEscapeSequences = true
	if it.Next(); it.Value() != s[:5] {
		panic(it.Value())
	}
'''), "an OSC with a Latin-1 (not UTF-8) character next to its terminator", "the terminator is taken for a part of the character")
seed("C10-c1-final", "C10", [("graphemes/ansi8.go", '''		body := csiBodyLength(data[1:])
		if body == 0 {
			return 0
		}
''', '''		body := csiBodyLength(data[1:])
		if body == 0 {
			// CSI without a final byte is a control standing alone
			if len(data) == 1 {
				return 1
			}
			return 0
		}
''')],
 prog([U + "graphemes"], '''	it := graphemes.FromString("\\u0600\\x9b")
	it.AnsiEscapeSequences8Bit = true
	if it.Next(); it.Value() != "\\u0600\\x9b" {
		panic(it.Value())
	}
'''), "an unterminated CSI at the very end, after a Prepend character", "it is taken for a control")
seed("C07-exact-4096", "C07", [("phrases/seek.go", "	// If we reach here, we've only seen ignored characters or incomplete runes\n	if atEOF {", "	// If we reach here, we've only seen ignored characters or incomplete runes\n	if atEOF || len(data) > 3000 {")],
 prog(["strings", U + "phrases"], '''	s := "a." + strings.Repeat("\\u0300", 3000) + "b"
	sc := phrases.FromReader(strings.NewReader(s))
	if sc.Scan(); sc.Text() != s {
		panic(len(sc.Text()))
	}
'''), "more than 3000 bytes of ignorable characters in a word's middle, and a read that ends in them", "the phrase is cut at the end of a read")
seed("C08-sb8-long", "C08", [("sentences/seek.go", "	// If we reach here, we've only seen ignored characters or incomplete runes\n	if atEOF {", "	// If we reach here, we've only seen ignored characters or incomplete runes\n	if atEOF || len(data) > 300 {")],
 prog(["strings", U + "sentences"], '''	if n, _, _ := sentences.SplitFunc([]byte("a. " + strings.Repeat("\\u0300", 200)), false); n != 0 {
		panic(n)
	}
'''), "over 300 bytes of ignorable characters in the look-ahead after a full stop", "commits") if False else None
seed("C14-crlf-normalized", "C14", [("sentences/splitfunc.go", "var SplitFunc bufio.SplitFunc = splitFunc[[]byte]\n", '''var SplitFunc bufio.SplitFunc = func(data []byte, atEOF bool) (int, []byte, error) {
	advance, token, err := splitFunc(data, atEOF)
	if n := len(token); n > 1 && token[n-1] == '\\n' && token[n-2] == '\\r' && n < len(data) {
		// don't let the caller append over the next sentence
		token = append(make([]byte, 0, n), token...)
	}
	return advance, token, err
}
''')],
 prog([U + "sentences"], '''	b := []byte("a\\r\\nb")
	if _, t, _ := sentences.SplitFunc(b, true); &t[0] != &b[0] {
		panic("copy")
	}
'''), "a sentence ending in CRLF with more after it, from SplitFunc", "the token is a copy")
seed("C15-crlf-sentence", "C15", [("sentences/splitfunc.go", "			// Looking ahead from anywhere", "			// Looking ahead from anywhere")] if False else [("words/seek.go", "	i := 0\n	for i < len(data) {\n", "	i := 0\n	var seen []property // for the rules to come\n	for i < len(data) {\n"),
  ("words/seek.go", "		if lookup.is(_Ignore) {\n			i += w\n", "		if lookup.is(_Ignore) {\n			if len(seen) < 64 && i > 40 {\n				seen = append(seen, lookup)\n			}\n			i += w\n")],
 prog(["strings", "testing", U + "words"], '''	s := strings.Repeat("a."+strings.Repeat("\\u0300", 60)+"b ", 200)
	if n := testing.AllocsPerRun(5, func() {
		for it := words.FromString(s); it.Next(); {
		}
	}); n > 10 {
		panic(n)
	}
'''), "more than 40 bytes of ignorable characters after a mid-word character", "each look-ahead allocates")
seed("C17-numeric-two-mids", "C17", [("words/bleve_compat.go", "package words\n", "package words\n")] if False else [], "", "", "") if False else None
SEEDS = [s for s in SEEDS if s]
