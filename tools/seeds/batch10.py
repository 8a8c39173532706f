"""Two things at once: particular characters together, or in particular places."""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from batch2 import prog, U
SEEDS = []
def seed(id, property, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw))

seed("C01-keycap", "C01", [("graphemes/iterator.go", "	// Fall back to UAX29 grapheme parsing\n", '''	// Keycaps, like 1 with U+FE0F and U+20E3
	if b >= '0' && b <= '9' && len(iter.data)-iter.pos >= 7 {
		k := iter.data[iter.pos+1:]
		if k[0] == 0xEF && k[1] == 0xB8 && k[2] == 0x8F && k[3] == 0xE2 && k[4] == 0x83 && k[5] == 0xA3 {
			iter.pos += 7
			return true
		}
	}

	// Fall back to UAX29 grapheme parsing
''')],
 prog([U + "graphemes"], '''	s := "1\\ufe0f\\u20e3\\u0301"
	it := graphemes.FromString(s)
	if it.Next(); it.Value() != s {
		panic(it.Value())
	}
'''), "a keycap (digit, U+FE0F, U+20E3) with a further mark", "the mark is cut off")
seed("C02-thousands", "C02", [("words/iterator.go", "	// Fall back to full word parsing\n", '''	// A price: a currency sign before a number
	if b == 0xE2 && iter.pos+3 < len(iter.data) && iter.data[iter.pos+1] == 0x82 && iter.data[iter.pos+2] == 0xAC && iter.data[iter.pos+3] < 0x80 && !iter.customSplit {
		iter.pos += 3
		if iter.data[iter.pos] == 0x5F {
			iter.pos++
		}
		return true
	}

	// Fall back to full word parsing
''')],
 prog([U + "words"], '''	it := words.FromString("\\u20ac_1")
	if it.Next(); it.Value() != "\\u20ac" {
		panic(it.Value())
	}
'''), "a euro sign and an underscore", "they become one word")
seed("C03-ellipsis-quote", "C03", [("sentences/splitfunc.go", "		// https://unicode.org/reports/tr29/#SB8a\n", '''		// A quotation mark after an ellipsis of three full stops
		if pos > 3 && w == 3 && current.is(_Close) && data[pos] == 0xE2 && data[pos+1] == 0x80 && data[pos+2] == 0x9C && data[pos-1] == '.' && data[pos-2] == '.' && data[pos-3] == '.' {
			break
		}

		// https://unicode.org/reports/tr29/#SB8a
''')],
 prog([U + "sentences"], '''	s := "So...\\u201c"
	it := sentences.FromString(s)
	if it.Next(); it.Value() != s {
		panic(it.Value())
	}
'''), "three full stops and an opening quotation mark U+201C", "a break between them")
seed("C17-superscript", "C17", [("words/bleve_compat.go", "		// https://unicode.org/reports/tr29/#WB13b\n", '''		// A sign for a unit after a number, e.g. degrees
		if lastExIgnore.is(_Numeric) && current == 0 && w == 2 && token[pos] == 0xC2 && token[pos+1] == 0xB0 && pos+w == len(token) {
			return numeric
		}

		// https://unicode.org/reports/tr29/#WB13b
''')],
 prog([U + "words"], '''	if words.BleveNumeric([]byte("5\\u00b0")) {
		panic("5\\u00b0")
	}
'''), "a number and a degree sign at the end", "reported numeric")
seed("C02-apostrophes", "C02", [("words/splitfunc.go", "		// https://unicode.org/reports/tr29/#WB7b\n", '''		// A right quotation mark, then s, is a possessive even of a number
		if w == 3 && lastExIgnore.is(_Numeric) && last.is(_Extend) && current.is(_MidNumLet) && atEOF {
			if r, _ := decodeRune(data[pos:]); r == 0x2019 && pos+w < len(data) && data[pos+w] == 's' {
				pos += w + 1
				continue
			}
		}

		// https://unicode.org/reports/tr29/#WB7b
''')],
 prog([U + "words"], '''	it := words.FromString("1\\u0301\\u2019s")
	if it.Next(); it.Value() != "1\\u0301" {
		panic(it.Value())
	}
'''), "a number with a mark, U+2019 and s", "joined")
seed("C04-arrow", "C04", [("phrases/splitfunc.go", "		// https://unicode.org/reports/tr29/#WB6\n", '''		// arrows are written with spaces around them
		if w == 3 && data[pos] == 0xE2 && data[pos+1] == 0x86 && current == _ExtendedPictographic && lastExIgnore.is(_WSegSpace) && last.is(_Ignore) {
			break
		}

		// https://unicode.org/reports/tr29/#WB6
''')],
 prog([U + "phrases"], '''	s := "a \\u0301\\u2194"
	it := phrases.FromString(s)
	if it.Next(); it.Value() != s {
		panic(it.Value())
	}
'''), "a space with a mark, then an arrow which is an emoji", "a break before the arrow")
