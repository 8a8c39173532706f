"""Memory around the text; and more."""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from batch2 import prog, U
SEEDS = []
def seed(id, property, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw))

seed("C05-eight-at-a-time", "C05", [("words/iterator.go", "		end := iter.pos + 1\n", '''		end := iter.pos + 1
		if d, ok := any(iter.data).([]byte); ok {
			// eight at a time, in the memory that there is
			d = d[:cap(d)]
		run:
			for end+8 <= len(d) {
				for _, b := range d[end : end+8] {
					if !isASCIIAlphanumeric(b) {
						break run
					}
				}
				end += 8
			}
		}
''')],
 prog([U + "words"], '''	buf := []byte("hello worldwideweb")
	it := words.FromBytes(buf[:8])
	for it.Next() {
		if it.End() > 8 {
			panic(it.End())
		}
	}
'''), "bytes in a larger buffer, where eight or more letters follow in the capacity", "a word beyond the end of the text")
seed("C08-peek-capacity", "C08", [("graphemes/splitfunc.go", '''			if !atEOF {
				// Token extends past current data, request more
				return 0, empty, nil
			}

			// https://unicode.org/reports/tr29/#GB2
''', '''			if !atEOF {
				if d, ok := any(data).([]byte); ok && cap(d) > pos && current == 0 && d[:pos+1][pos] > 0 && d[:pos+1][pos] < 0x80 {
					// ASCII is next, which extends nothing
					break
				}
				// Token extends past current data, request more
				return 0, empty, nil
			}

			// https://unicode.org/reports/tr29/#GB2
''')],
 prog([U + "graphemes"], '''	buf := []byte("ab")
	if n, _, _ := graphemes.SplitFunc(buf[:1], false); n != 0 {
		panic(n)
	}
'''), "stale bytes in the buffer after the data so far", "a token is committed which more data might extend")
