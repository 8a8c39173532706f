"""Counts that wrap, many instances alive, and work on the whole rest."""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from batch2 import prog, U
SEEDS = []
def seed(id, property, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw))

seed("C12-generation-wrap", "C12", [
 ("words/iterator.go", "	customSplit bool\n}\n", '''	customSplit bool
	// First is kept, for the text and split it was found with
	gen, firstGen uint8
	firstEnd      int
}
'''),
 ("words/iterator.go", "func (iter *Iterator[T]) SetText(data T) {\n", "func (iter *Iterator[T]) SetText(data T) {\n	iter.gen++\n"),
 ("words/iterator.go", "	iter.split = split\n", "	iter.split = split\n	iter.gen++\n"),
 ("words/iterator.go", '''	// Use a copy to leverage Next()'s ASCII optimization
	cp := *iter
	cp.pos = 0
	cp.start = 0
	cp.Next()
	return cp.Value()
''', '''	if iter.firstEnd > 0 && iter.firstGen == iter.gen && iter.firstEnd <= len(iter.data) {
		return iter.data[:iter.firstEnd]
	}

	// Use a copy to leverage Next()'s ASCII optimization
	cp := *iter
	cp.pos = 0
	cp.start = 0
	cp.Next()
	iter.firstEnd, iter.firstGen = cp.pos, iter.gen
	return cp.Value()
''')],
 prog([U + "words"], '''	it := words.FromString("one two")
	it.First()
	for k := 0; k < 256; k++ {
		it.SetText("a b c d")
	}
	if it.First() != "a" {
		panic(it.First())
	}
'''), "First, then 256 SetText calls (an 8-bit counter comes round), then First", "First of the text before")

seed("C13-slot-table", "C13", [
 ("graphemes/iterator.go", 'import "unicode/utf8"\n', '''import (
	"sync/atomic"
	"unicode/utf8"
)

// Where the first graphemes end, for iterators by number, so that asking again
// is cheap.
var (
	numbers   uint32
	firstEnds [256]int32
)

func slot() *int32 {
	p := &firstEnds[atomic.AddUint32(&numbers, 1)%256]
	atomic.StoreInt32(p, 0)
	return p
}
'''),
 ("graphemes/iterator.go", '''	return &Iterator[string]{
		split: splitFuncString,
		data:  s,
''', '''	return &Iterator[string]{
		split: splitFuncString,
		data:  s,
		first: slot(),
'''),
 ("graphemes/iterator.go", "	start int\n	// AnsiEscape", "	start int\n	first *int32\n	// AnsiEscape"),
 ("graphemes/iterator.go", "	iter.data = data\n", "	iter.data = data\n	if iter.first != nil {\n		atomic.StoreInt32(iter.first, 0)\n	}\n"),
 ("graphemes/iterator.go", '''	// Use a copy to leverage Next()'s ASCII optimization
	cp := *iter
	cp.pos = 0
	cp.start = 0
	cp.Next()
	return cp.Value()
''', '''	keep := iter.first != nil && !iter.AnsiEscapeSequences && !iter.AnsiEscapeSequences8Bit
	if keep {
		if end := int(atomic.LoadInt32(iter.first)); end > 0 && end <= len(iter.data) {
			return iter.data[:end]
		}
	}

	// Use a copy to leverage Next()'s ASCII optimization
	cp := *iter
	cp.pos = 0
	cp.start = 0
	cp.Next()
	if keep {
		atomic.StoreInt32(iter.first, int32(cp.pos))
	}
	return cp.Value()
''')],
 prog([U + "graphemes"], '''	var all []*graphemes.Iterator[string]
	for k := 0; k < 257; k++ {
		s := "ab"
		if k == 256 {
			s = "e\\u0301b"
		}
		all = append(all, graphemes.FromString(s))
	}
	all[0].First()
	if f := all[256].First(); f != "e\\u0301" {
		panic(f)
	}
'''), "257 iterators alive at once, the first and last asked for First", "First of another iterator's length")

seed("C16-valid-rest", "C16", [("graphemes/iterator.go", "	if iter.AnsiEscapeSequences8Bit && advance <= len(remaining) {\n", '''	if iter.AnsiEscapeSequences8Bit && advance > 1 && advance <= len(remaining) && !utf8.ValidString(string(remaining)) {
''')],
 prog([U + "graphemes", "strings", "time"], '''	run := func(n int) time.Duration {
		best := time.Hour
		for k := 0; k < 3; k++ {
			it := graphemes.FromString(strings.Repeat("\\u00e9", n))
			it.AnsiEscapeSequences8Bit = true
			t := time.Now()
			for it.Next() {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	run(1000)
	a, b := run(2000), run(40000)
	if b > 100*a {
		panic(b)
	}
'''), "the 8-bit option, on text that is not ASCII", "the whole rest of the text is looked at for each token")

seed("C12-many-tokens", "C12", [
 ("sentences/iterator.go", "	pos   int\n	start int\n}\n", '''	pos   int
	start int
	n     uint16 // how many tokens were seen
}
'''),
 ("sentences/iterator.go", "	if iter.pos >= len(iter.data) {\n		return false\n	}\n	iter.start = iter.pos\n", '''	if iter.pos >= len(iter.data) {
		return false
	}
	if iter.n++; iter.n == 0 {
		// once in a long while, let go of what was used
		iter.data = iter.data[iter.pos:]
		iter.pos = 0
	}
	iter.start = iter.pos
''')],
 prog([U + "sentences", "strings"], '''	s := strings.Repeat("\\n", 70000)
	it := sentences.FromString(s)
	for k := 0; it.Next(); k++ {
		if it.Start() != k {
			panic(k)
		}
	}
'''), "65,536 sentences", "the offsets start again at zero")

seed("C18-second-split", "C18", [
 ("internal/iterators/iterator.go", "	start int\n	pos   int\n}\n", "	start int\n	pos   int\n	next  SplitFunc[T]\n}\n"),
 ("internal/iterators/iterator.go", "	iter.split = split\n", '''	if iter.pos > iter.start {
		// in the middle of a text: from the next token
		iter.next = split
		return
	}
	iter.split = split
'''),
 ("internal/iterators/iterator.go", "	iter.start = iter.pos\n	d := iter.data[iter.pos:]\n", '''	if iter.next != nil {
		iter.split, iter.next = iter.next, nil
	}
	iter.start = iter.pos
	d := iter.data[iter.pos:]
''')],
 prog([U + "internal/iterators"], '''	by := func(n int) iterators.SplitFunc[string] {
		return func(s string, _ bool) (int, string, error) { return n, s[:n], nil }
	}
	it := iterators.New(by(1), "abcdef")
	it.Next()
	it.Split(by(2))
	if f := it.First(); f != "ab" {
		panic(f)
	}
'''), "Split while iterating, then First before Next", "First by the old function")

seed("C20-split-after-end", "C20", [
 ("words/iterator.go", "	iter.customSplit = true\n", '''	iter.customSplit = true
	if iter.pos >= len(iter.data) {
		// nothing left to split; the text to come may be split the usual way
		iter.customSplit = false
	}
''')],
 prog([U + "words"], '''	it := words.FromString("ab")
	for it.Next() {
	}
	it.Split(func(s string, _ bool) (int, string, error) { return 1, s[:1], nil })
	it.Reset()
	if it.Next(); it.Value() != "a" {
		panic(it.Value())
	}
'''), "a function set once the text is used up, then Reset or SetText with ASCII", "ASCII words come out whole")
