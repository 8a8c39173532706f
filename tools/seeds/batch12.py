"""Work that needs an unusual mixture, long tokens of unusual characters, guesses."""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from batch2 import prog, U
SEEDS = []
def seed(id, property, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw))
def quad(pkg, unit):
    return prog(["strings", "time", U + pkg], '''	f := func(n int) time.Duration {
		best := time.Hour
		for k := 0; k < 3; k++ {
			s := strings.Repeat("%s", n)
			t := time.Now()
			for it := %s.FromString(s); it.Next(); {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	f(100)
	if a, b := f(1000), f(16000); b > 80*a {
		panic(b.String() + " after " + a.String())
	}
''' % (unit, pkg))

seed("C16-sb8-quoted", "C16", [("sentences/splitfunc.go", "			if advance != notfound {\n				pos = p + advance\n				continue\n", '''			if advance != notfound {
				// A quotation goes on with a lower-case letter only if something opened it
				if current.is(_Close) && p > pos+w {
					for i := 0; i < pos; {
						l, n := lookup(data[i:])
						if n == 0 {
							break
						}
						if l.is(_Close) {
							lastExIgnoreSp = l
						}
						i += n
					}
				}
				pos = p + advance
				continue
''')], quad("sentences", 'a.) '),
 "a long sentence with many full stops, each with a closing bracket and a space before a lower-case letter", "the sentence is gone through again at each: quadratic")

seed("C16-arabic-group", "C16", [("words/splitfunc.go", "		if current.is(_Numeric) && lastExIgnore.is(_MidNum|_MidNumLetQ) && lastLastExIgnore.is(_Numeric) {\n			pos += w\n			continue\n", '''		if current.is(_Numeric) && lastExIgnore.is(_MidNum|_MidNumLetQ) && lastLastExIgnore.is(_Numeric) {
			if w > 1 {
				// separators of groups other than ASCII: stay with the group's script
				for i := 0; i < pos; {
					l, n := lookup(data[i:])
					if n == 0 {
						break
					}
					if l.is(_Numeric) {
						lastLastExIgnore = l
					}
					i += n
				}
			}
			pos += w
			continue
''')], quad("words", '\\u0661\\u066c'),
 "a long number of digits other than ASCII, with separators of groups", "the number is gone through again at each separator: quadratic")

seed("C17-connectors-long", "C17", [("words/bleve_compat.go", "		if current.is(_Numeric) {\n			numeric = true\n		}\n", '''		if current.is(_Numeric) || pos > 512 {
			numeric = true
		}
''')], prog(["strings", U + "words"], '''	if words.BleveNumeric([]byte(strings.Repeat("_", 600))) {
		panic("no number")
	}
'''), "a token of over 512 bytes of connectors, and no number", "it is reported as numeric")

seed("C17-two-byte-marks", "C17", [("words/bleve_compat.go", "		// https://unicode.org/reports/tr29/#WB4\n		if current.is(_Ignore) {\n			pos += w\n			continue\n		}\n\n		// https://unicode.org/reports/tr29/#WB8\n", '''		// https://unicode.org/reports/tr29/#WB4
		if current.is(_Ignore) || w == 4 && pos > 64 {
			// (outside the BMP, past any reasonable number, only marks are to be expected)
			pos += w
			continue
		}

		// https://unicode.org/reports/tr29/#WB8
''')], prog(["strings", U + "words"], '''	if words.BleveNumeric([]byte(strings.Repeat("1", 80) + "\\U0001d400")) {
		panic("a letter is part of it")
	}
'''), "a token of over 64 bytes, with a character of four bytes which is no mark far in", "it is reported as numeric")

seed("C10-esc-st-fallback", "C10", [("graphemes/ansi8.go", None, None)], "", "", "")
SEEDS.pop()

seed("C08-four-byte-guess", "C08", [("words/splitfunc.go", "			// Rune extends past current data, request more\n			return 0, empty, nil\n		}\n\n		if j != nil && j.Middle != nil {", '''			if data[pos] >= 0xF0 && last.is(_Numeric) && len(data) > pos+1 && data[pos+1] == 0x9F {
				// emoji and pictographs, which don't continue a number
				break
			}
			// Rune extends past current data, request more
			return 0, empty, nil
		}

		if j != nil && j.Middle != nil {''')], prog([U + "words"], '''	// U+1FBF0 is a digit (segmented digit zero)
	a, _, _ := words.SplitFunc([]byte("1\\xf0\\x9f"), false)
	b, _, _ := words.SplitFunc([]byte("1\\xf0\\x9f\\xaf\\xb0"), true)
	if a != 0 && a != b {
		panic("committed early")
	}
'''), "the data ends inside a character of the block F0 9F after a number, and it is a modifier or a digit", "the number is committed before it is known")
