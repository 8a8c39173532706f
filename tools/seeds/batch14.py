"""Memos, prefilters, look-ahead limits."""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from batch2 import prog, U
SEEDS = []
def seed(id, property, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw))

seed("C13-memo-address", "C13", [("phrases/iterator.go", "	advance, _, err := iter.split(remaining, true)\n", '''	// The first phrase of the same bytes has just been found, likely as not
	var key memoKey
	if b, ok := any(iter.data).([]byte); ok && iter.start == 0 {
		key = memoKey{&b[0], len(b)}
		if m := memo.Load(); m != nil && m.key == key {
			iter.pos += m.advance
			return true
		}
	}
	advance, _, err := iter.split(remaining, true)
	if key.n > 0 && err == nil && advance > 0 {
		memo.Store(&memoEntry{key, advance})
	}
'''), ("phrases/iterator.go", "package phrases\n", '''package phrases

import "sync/atomic"

type memoKey struct {
	p *byte
	n int
}

type memoEntry struct {
	key     memoKey
	advance int
}

var memo atomic.Pointer[memoEntry]
''')], prog([U + "phrases"], '''	b := []byte(".b.d")
	phrases.FromBytes(b).Next()
	copy(b, "+\\u0301d")
	it := phrases.FromBytes(b)
	if it.Next(); string(it.Value()) != "+\\u0301" {
		panic(string(it.Value()))
	}
'''), "two byte iterators, one after the other, over one buffer with other contents of the same length", "the second gets the first one's token")

seed("C11-bloom-many", "C11", [("words/joiners.go", "	// Did some bechmarking, a map isn't faster for small numbers\n", '''	// With many of them, a sum tells most characters apart without a search
	if len(runes) > 40 {
		lo, hi := runes[0], runes[0]
		for _, r := range runes[1:40] {
			if r < lo {
				lo = r
			}
			if r > hi {
				hi = r
			}
		}
		if rune < lo || rune > hi {
			return false
		}
	}
	// Did some bechmarking, a map isn't faster for small numbers
''')], prog([U + "words"], '''	j := &words.Joiners[string]{}
	for i := 0; i < 50; i++ {
		j.Middle = append(j.Middle, rune(0x2190+i))
	}
	j.Middle = append(j.Middle, '@')
	it := words.FromString("a@b")
	it.Joiners(j)
	if it.Next(); it.Value() != "a@b" {
		panic(it.Value())
	}
'''), "over 40 configured characters, the lowest or highest one of which comes after the 40th", "it is not recognised")

seed("C08-ignorable-window", "C08", [("phrases/seek.go", "	// If we reach here, we've only seen ignored characters or incomplete runes\n	if atEOF {\n", "	// If we reach here, we've only seen ignored characters or incomplete runes\n	if atEOF || i > 240 {\n		// (no one writes this many marks)\n")],
 prog(["strings", U + "phrases"], '''	s := "a'" + strings.Repeat("\\u0301", 121)
	if n, _, _ := phrases.SplitFunc([]byte(s), false); n != 0 {
		panic(n)
	}
'''), "over 120 ignorable characters after a mid-word character at the end of the data", "the split function commits before it knows what follows")

seed("C02-midnum-ignorable-window", "C02", [("words/seek.go", "		if lookup.is(_Ignore) {\n			i += w\n			continue\n", "		if lookup.is(_Ignore) && i < 510 {\n			i += w\n			continue\n")],
 prog(["strings", U + "words"], '''	s := "1," + strings.Repeat("\\u0301", 257) + "1"
	it := words.FromString(s)
	if it.Next(); it.Value() != s {
		panic(len(it.Value()))
	}
'''), "over 255 ignorable characters between a comma and a digit", "the look-ahead gives up")

seed("C10-osc-utf8-payload", "C10", [("graphemes/ansi8.go", "	for i := 0; i < len(data); i++ {\n		b := data[i]\n		if b == bel || b == st {\n", '''	for i := 0; i < len(data); i++ {
		b := data[i]
		if b == st && i > 1 && data[i-1] >= 0x80 && data[i-1] < 0xC0 && data[i-2] >= 0xE0 {
			continue // within a character
		}
		if b == bel || b == st {
''')], prog([U + "graphemes"], '''	it := graphemes.FromString("\\x9d\\u4e00\\u4e1cx\\x9c")
	it.AnsiEscapeSequences8Bit = true
	if it.Next(); it.Value() != "\\x9d\\xe4\\xb8\\x80\\xe4\\xb8\\x9c" {
		panic(it.Value())
	}
'''), "a C1 OSC whose payload has a character of three bytes, the last of which is 9C", "the byte is not taken for the terminator")
