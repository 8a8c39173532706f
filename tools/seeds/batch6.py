"""Late limits, work in the standard library, shared configuration."""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from batch2 import prog, U
SEEDS = []
def seed(id, property, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw))

seed("C18-filter-limit", "C18", [("internal/iterators/filter/alphanumeric.go" if os.path.exists("/repo/internal/iterators/filter/alphanumeric.go") else "internal/iterators/filter/filter.go",
  "	for pos < len(token) {\n", "	for pos < len(token) && pos < 256 {\n")],
 None, "over 256 bytes without letters and numbers at the start of the token", "the filter gives up looking", 
 files={"f_test.go": '''package filter

import (
	"strings"
	"testing"
)

func TestF(t *testing.T) {
	if !AlphaNumeric([]byte(strings.Repeat("-", 300) + "a")) {
		t.Fatal()
	}
}
'''}, demo='''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
o="$(mktemp)"
printf '{"Replace":{"%s/internal/iterators/filter/zz_test.go":"%s/f_test.go"}}' "$PWD" "$here" > "$o"
go test -overlay "$o" ./internal/iterators/filter
rc=$?
rm -f "$o"
exit $rc
''')
seed("C16-next-space", "C16", [("words/iterator.go", '''		// Check if followed by ASCII space or end of data
		if end >= len(iter.data) || iter.data[end] == ' ' {
''', '''		// Check if followed by ASCII space or end of data
		if n := nextSpace(iter.data[end:]); n == 0 || end+n == len(iter.data) && n == 0 {
'''), ("words/iterator.go", '''// Next advances the iterator to the next word.
''', '''// nextSpace returns the offset of the next ASCII space, or of the end.
func nextSpace[T ~string | ~[]byte](data T) int {
	n := -1
	switch v := any(&data).(type) {
	case *string:
		n = strings.IndexByte(*v, ' ')
	case *[]byte:
		n = bytes.IndexByte(*v, ' ')
	default:
		for n = 0; n < len(data) && data[n] != ' '; n++ {
		}
	}
	if n < 0 {
		n = len(data)
	}
	return n
}

// Next advances the iterator to the next word.
'''), ("words/iterator.go", "package words\n", 'package words\n\nimport (\n	"bytes"\n	"strings"\n)\n')],
 prog(["strings", "time", U + "words"], '''	var d [2]time.Duration
	for k, n := range []int{30000, 300000} {
		s := strings.Repeat("a\\n", n)
		t := time.Now()
		for it := words.FromString(s); it.Next(); {
		}
		d[k] = time.Since(t)
	}
	if d[1] > 40*d[0] {
		panic(d[1])
	}
'''), "a long text with short words and no spaces: columns, say", "every word looks for a space through the rest of the text")
seed("C13-joiners-lazy", "C13", [("words/joiners.go", "func runesContain(runes []rune, rune rune) bool {\n", '''// isMiddle tells whether r is a middle joiner; sets of non-ASCII runes are
// looked up in a map.
func (j *Joiners[T]) isMiddle(r rune) bool {
	if r < 0x80 || len(j.Middle) < 4 {
		return runesContain(j.Middle, r)
	}
	if j.middle == nil {
		j.middle = make(map[rune]struct{}, len(j.Middle))
		for _, m := range j.Middle {
			j.middle[m] = struct{}{}
		}
	}
	_, ok := j.middle[r]
	return ok
}

func runesContain(runes []rune, rune rune) bool {
'''), ("words/joiners.go", "	Leading []rune\n}", "	Leading []rune\n\n	middle map[rune]struct{} // of Middle, made on demand\n}"),
 ("words/splitfunc.go", "			if runesContain(j.Middle, r) {", "			if j.isMiddle(r) {")],
 prog(["sync", U + "words"], '''	j := &words.Joiners[string]{Middle: []rune("-/+\\u2010")}
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			it := words.FromString("a\\u2010b c\\u2010d")
			it.Joiners(j)
			for it.Next() {
			}
		}()
	}
	wg.Wait()
'''), "two goroutines whose iterators share a Joiners value of four or more middle runes, on text beyond ASCII", "both fill the map", race=True)
seed("C13-shared-buffer", "C13", [("phrases/reader.go", "	sc.Split(SplitFunc)\n", "	sc.Buffer(initial[:0], bufio.MaxScanTokenSize)\n	sc.Split(SplitFunc)\n"), ("phrases/reader.go", "// FromReader returns", "// initial is the first buffer of a scanner; most inputs need no other.\nvar initial [1024]byte\n\n// FromReader returns")],
 prog(["strings", U + "phrases"], '''	a, b := phrases.FromReader(strings.NewReader("one, two, three")), phrases.FromReader(strings.NewReader("xxxxxxxxxxxxxxxxxxxxxx"))
	out := ""
	for a.Scan() {
		out += a.Text()
		b.Scan()
	}
	if out != "one, two, three" {
		panic(out)
	}
'''), "two scanners of phrases in use at the same time", "they read into the same buffer")
seed("C14-append-sentinel", "C14", [("graphemes/splitfunc.go", "var SplitFunc bufio.SplitFunc = splitFunc[[]byte]\n", '''var SplitFunc bufio.SplitFunc = func(data []byte, atEOF bool) (advance int, token []byte, err error) {
	if n := len(data); atEOF && n > 0 && data[n-1] >= 0x80 {
		// what follows must not be taken for the rest of a character
		data = append(data, 0)[:n]
	}
	return splitFunc(data, atEOF)
}
''')],
 prog(["bytes", U + "graphemes"], '''	buf := []byte("caf\\u00e9|more")
	graphemes.SplitFunc(buf[:5], true)
	if !bytes.Equal(buf, []byte("caf\\u00e9|more")) {
		panic(string(buf))
	}
'''), "a part of a larger slice, ending in a character beyond ASCII, given to SplitFunc at the end of input", "the byte after the part is overwritten (or the text copied)")
seed("C08-incomplete-lookahead", "C08", [("phrases/seek.go", '''			// More to evaluate - return notfound to indicate no match found yet
			return notfound, true
		}
''', '''			// More to evaluate - return notfound to indicate no match found yet
			return notfound, len(data)-i < 3
		}
''')],
 prog([U + "phrases"], '''	if n, _, _ := phrases.SplitFunc([]byte("a.\\U0001D400"[:5]), false); n != 0 {
		panic(n)
	}
'''), "a four-byte letter after a mid-letter, of which three bytes are there", "the phrase is committed before its last character is complete")
