import sys, os
sys.path.insert(0, os.path.dirname(__file__))
import trie
G = '''package main

import (
	"fmt"
	"os"
	"strings"
	"github.com/clipperhouse/uax29/v2/%s"
)

var _ = strings.Repeat

func check(in string, want ...string) {
	var got []string
	for it := %s.FromString(in); it.Next(); {
		got = append(got, it.Value())
	}
	if fmt.Sprintf("%%q", got) != fmt.Sprintf("%%q", want) {
		fmt.Printf("%%+q: got %%+q want %%+q\\n", in, got, want)
		os.Exit(1)
	}
}

func main() {
%s
}
'''
def toks(pkg, body): return G % (pkg, pkg, body)
SEEDS = []
def seed(id, property, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw))

# ---- C01
seed("C01-gb11-spacingmark", "C01", [("graphemes/splitfunc.go", "const _Ignore = _Extend", "const _Ignore = _Extend | _SpacingMark")],
 toks("graphemes", '	check("\\u2640\\u0903\\u200d\\u2642", "\\u2640\\u0903\\u200d", "\\u2642")'),
 "an emoji, a spacing mark, ZWJ and another emoji",
 "GB11 looks back through SpacingMark as if it were Extend, joining two emoji")
seed("C01-entry-indic-linker", "C01", [trie.Trie("graphemes").edit(0x1BAB, ["_Extend", "_InCBExtend"])],
 toks("graphemes", '	check("\\u1b8a\\u1bab\\u1b8b", "\\u1b8a\\u1bab\\u1b8b")'),
 "the Sundanese virama U+1BAB between two Sundanese consonants",
 "one table entry: U+1BAB is InCB=Extend rather than Linker, so the conjunct splits") if "_InCBLinker" in trie.Trie("graphemes").props(0x1BAB) else None

# ---- C02
seed("C02-wb7b-any-letter", "C02", [("words/splitfunc.go", "subsequent(_HebrewLetter, data[pos+w:], atEOF)", "subsequent(_AHLetter, data[pos+w:], atEOF)")],
 toks("words", '	check("\\u05d0\\"z", "\\u05d0", "\\"", "z")'),
 "a Hebrew letter, a double quote and a non-Hebrew letter",
 "WB7b: gershayim look-ahead accepts any letter")
seed("C02-hotpath-semicolon", "C02", [("words/iterator.go", "		if end >= len(iter.data) || iter.data[end] == ' ' {", "		if end >= len(iter.data) || iter.data[end] == ' ' || iter.data[end] == '!' || iter.data[end] == '?' || iter.data[end] == ';' {")],
 toks("words", '	check("ab", "ab")\n	check("1;2", "1;2")'),
 "digits on both sides of a semicolon (which is MidNum, unlike other punctuation)",
 "the ASCII shortcut ends a word at ';', cutting 1;2, in the iterator but not in the split function")
# ---- C03
seed("C03-hotpath-context", "C03", [("sentences/iterator.go", "	if iter.pos > iter.start {\n		iter.pos--", "	if iter.pos > iter.start && iter.data[iter.pos] < 0x80 {\n		iter.pos--")],
 toks("sentences", '	check("A\\u0308.B", "A\\u0308.B")'),
 "an ASCII letter with a combining mark, then a full stop and an upper-case letter",
 "the iterator's shortcut drops the letter before a non-ASCII character, so SB7 does not see it behind the full stop")
seed("C03-sb8-stops-at-numeric", "C03", [("sentences/splitfunc.go", "if lookup.is(_OLetter | _Upper | _Lower | _ParaSep | _SATerm) {", "if lookup.is(_OLetter | _Upper | _Lower | _ParaSep | _SATerm | _SContinue) {")],
 toks("sentences", '	check("A. (-, b", "A. (-, b")'),
 "a full stop, a space, opening punctuation, then a continuation mark and a lower-case letter",
 "SB8 look-ahead ends at SContinue, which the rule allows between the full stop and the lower-case letter")
seed("C03-entry-term", "C03", [trie.Trie("sentences").edit(0x11944, ["_Close"])],
 toks("sentences", '	check("\\U00011900\\U00011944\\U00011901", "\\U00011900\\U00011944", "\\U00011901")'),
 "the Dives Akuru double danda U+11944",
 "one table entry: U+11944 is Close rather than STerm, so the sentence does not end")

# ---- C04
seed("C04-pict-katakana", "C04", [("phrases/splitfunc.go", "		if current.is(_Katakana) && lastExIgnore.is(_Katakana) {", "		if current.is(_Katakana|_WSegSpace) && lastExIgnore.is(_Katakana) {")],
 toks("phrases", '	check("\\u30ab \\u30ab", "\\u30ab", " ", "\\u30ab")'),
 "a Katakana character followed by a space",
 "a space joins Katakana, though only letters and numbers are joined by spaces")
# ---- C05
seed("C05-lookup-bound", "C05", [("words/trie.go", "	case c0 < 0xF8: // 4-byte UTF-8\n		if len(s) < 4 {", "	case c0 < 0xF8: // 4-byte UTF-8\n		if len(s) < 3 {")],
 '''package main

import "github.com/clipperhouse/uax29/v2/words"

func main() {
	n := 0
	for it := words.FromBytes([]byte("ab \\xf0\\x9f\\x98")); it.Next(); {
		n += len(it.Value())
	}
	if n != 6 {
		panic(n)
	}
}
''', "a text ending in the first three bytes of a four-byte character", "the table look-up reads past the end of a truncated character and panics")
# ---- C06
seed("C06-decode-fast-path", "C06", [("words/splitfunc.go", "	case []byte:\n		return utf8.DecodeRune(v)", "	case []byte:\n		if v[0] < 0xC0 {\n			// single byte, no need to decode\n			return rune(v[0]), 1\n		}\n		return utf8.DecodeRune(v)")],
 '''package main

import "github.com/clipperhouse/uax29/v2/words"

func main() {
	in := "ab\\xa7cd"
	s, b := words.FromString(in), words.FromBytes([]byte(in))
	s.Joiners(&words.Joiners[string]{Middle: []rune{'\\u00a7'}})
	b.Joiners(&words.Joiners[[]byte]{Middle: []rune{'\\u00a7'}})
	for s.Next() {
		if !b.Next() || s.Value() != string(b.Value()) {
			panic(string(b.Value()))
		}
	}
}
''', "byte input with a stray byte 0x80-0xBF that equals a configured Latin-1 joiner", "byte iterators take an invalid byte for the joiner character, string iterators do not")

# ---- C07
seed("C07-lookahead-at-chunk-end", "C07", [("phrases/seek.go", "	// If we reach here, we've only seen ignored characters or incomplete runes\n	if atEOF {", "	// If we reach here, we've only seen ignored characters or incomplete runes\n	if atEOF || i > 0 {")],
 '''package main

import (
	"strings"
	"testing/iotest"

	"github.com/clipperhouse/uax29/v2/phrases"
)

func main() {
	in := "it'\\u00ads"
	sc := phrases.FromReader(iotest.OneByteReader(strings.NewReader(in)))
	if !sc.Scan() || sc.Text() != in {
		panic(sc.Text())
	}
}
''', "a read that ends after an apostrophe and an ignorable character in the middle of a word", "the look-ahead gives up at the end of the chunk rather than asking for more")
seed("C07-crlf-across-reads", "C07", [("sentences/splitfunc.go", "			if !atEOF {\n				// Token extends past current data, request more\n				return 0, empty, nil\n			}\n\n			// https://unicode.org/reports/tr29/#SB2", "			if !atEOF && !current.is(_ParaSep) {\n				// Token extends past current data, request more\n				return 0, empty, nil\n			}\n\n			// https://unicode.org/reports/tr29/#SB2")],
 '''package main

import (
	"strings"
	"testing/iotest"

	"github.com/clipperhouse/uax29/v2/sentences"
)

func main() {
	sc := sentences.FromReader(iotest.OneByteReader(strings.NewReader("Hi\\r\\nyou")))
	if !sc.Scan() || sc.Text() != "Hi\\r\\n" {
		panic(sc.Text())
	}
}
''', "a read that ends between CR and LF", "the sentence is returned at the CR without waiting for the LF")
seed("C08-incomplete-rune", "C08", [("words/seek.go", "			// More to evaluate - return notfound to indicate no match found yet\n			return notfound, true", "			// More to evaluate, but not in this chunk\n			return notfound, i == 0 && len(data) < 2")],
 '''package main

import "github.com/clipperhouse/uax29/v2/words"

func main() {
	adv, tok, err := words.SplitFunc([]byte("a.\\xef\\xbc"), false)
	if err != nil || adv != 0 || tok != nil {
		panic("committed early")
	}
}
''', "a prefix ending with a mid-letter character and two or more bytes of an incomplete character", "the split function returns 'a' though the next character may be a letter, which joins")

# ---- C09
seed("C09-esc-esc-backslash", "C09", [("graphemes/ansi.go", "		if data[i] == esc && i+1 < len(data) && data[i+1] == '\\\\' {\n			return i + 2\n		}", "		if data[i] == esc {\n			if i++; i < len(data) && data[i] == '\\\\' {\n				return i + 1\n			}\n		}")],
 '''package main

import "github.com/clipperhouse/uax29/v2/graphemes"

func main() {
	in := "\\x1bPab\\x1b\\x1b\\\\z"
	it := graphemes.FromString(in)
	it.AnsiEscapeSequences = true
	if it.Next(); it.End() != len(in)-1 {
		panic(it.Value())
	}
}
''', "a control string whose payload ends with ESC just before the terminator ESC backslash", "the scan skips the byte after every ESC, so it misses the terminator")
seed("C09-hotpath-before-esc", "C09", [("graphemes/iterator.go", "	if iter.AnsiEscapeSequences && b == esc {", "	if iter.AnsiEscapeSequences && b == esc && (iter.pos == 0 || iter.data[iter.pos-1] != esc) {")],
 '''package main

import "github.com/clipperhouse/uax29/v2/graphemes"

func main() {
	it := graphemes.FromString("\\x1b\\x1b[31m")
	it.AnsiEscapeSequences = true
	it.Next()
	it.Next()
	if it.Value() != "\\x1b[31m" {
		panic(it.Value())
	}
}
''', "a sequence directly after a stray ESC", "the sequence after a stray ESC is not recognised")

# ---- C10
seed("C10-c1-sos", "C10", [("graphemes/ansi8.go", "	case 0x90, 0x98, 0x9E, 0x9F: // C1 DCS, SOS, PM, APC", "	case 0x90, 0x9E, 0x9F: // C1 DCS, PM, APC")],
 '''package main

import "github.com/clipperhouse/uax29/v2/graphemes"

func main() {
	in := "\\x98ab\\x9cz"
	it := graphemes.FromString(in)
	it.AnsiEscapeSequences8Bit = true
	if it.Next(); it.End() != 4 {
		panic(it.Value())
	}
}
''', "an 8-bit SOS string", "SOS is taken for a standalone control")
seed("C10-st-both", "C10", [("graphemes/ansi8.go", "		if b == bel || b == st {\n			return i + 1\n		}", "		if b == bel || b == st {\n			return i + 1\n		}\n		if b == esc && i > 0 && i+1 < len(data) && data[i+1] == '\\\\' && data[i-1] == esc {\n			return i + 2\n		}")],
 '''package main

import "github.com/clipperhouse/uax29/v2/graphemes"

func main() {
	in := "\\x9dab\\x1b\\x1b\\\\cd\\x9cz"
	it := graphemes.FromString(in)
	it.AnsiEscapeSequences8Bit = true
	if it.Next(); it.End() != len(in)-1 {
		panic(it.Value())
	}
}
''', "an 8-bit OSC whose payload contains ESC ESC backslash", "a 7-bit terminator ends a C1-started string")
