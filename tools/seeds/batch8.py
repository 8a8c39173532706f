"""Shortcuts: looking at the reader's or the text's kind, remembered results, single bytes."""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from batch2 import prog, U
from batch4 import files, DEMO
SEEDS = []
def seed(id, property, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw))

seed("C07-readerat", "C07", [("graphemes/reader.go", "	sc := bufio.NewScanner(r)\n", '''	if s, ok := r.(interface {
		io.ReaderAt
		Size() int64
	}); ok {
		// reading at offsets leaves the reader's own position alone
		r = io.NewSectionReader(s, 0, s.Size())
	}
	sc := bufio.NewScanner(r)
''')],
 prog(["strings", U + "graphemes"], '''	r := strings.NewReader("header:body")
	r.Seek(7, 0)
	sc, out := graphemes.FromReader(r), ""
	for sc.Scan() {
		out += sc.Text()
	}
	if out != "body" {
		panic(out)
	}
'''), "a strings.Reader, bytes.Reader or SectionReader of which a part has been read before", "the part read before comes out again")
seed("C08-ri-pair", "C08", [("graphemes/splitfunc.go", '''			if !atEOF {
				// Token extends past current data, request more
				return 0, empty, nil
			}

			// https://unicode.org/reports/tr29/#GB2
''', '''			if !atEOF && regionalIndicatorCount == 0 {
				// Token extends past current data, request more
				return 0, empty, nil
			}

			// A flag is complete
			// https://unicode.org/reports/tr29/#GB2
''')],
 prog([U + "graphemes"], '''	if n, _, _ := graphemes.SplitFunc([]byte("\\U0001F1E6\\U0001F1E7"), false); n != 0 {
		panic(n)
	}
'''), "a pair of regional indicators at the end of the data, which an extending character (a variation selector, ZWJ) might follow", "the flag is committed without it")
seed("C08-lf-alone", "C08", [("words/splitfunc.go", '''			if !atEOF {
				// Token extends past current data, request more
				return 0, empty, nil
			}

			// https://unicode.org/reports/tr29/#WB2
''', '''			if !atEOF && !current.is(_LF|_Newline|_CR) {
				// Token extends past current data, request more
				return 0, empty, nil
			}

			// Nothing follows a line break in its token
			// https://unicode.org/reports/tr29/#WB2
''')],
 prog([U + "words"], '''	if n, _, _ := words.SplitFunc([]byte("\\r"), false); n != 0 {
		panic(n)
	}
'''), "a carriage return at the end of the data so far", "it is committed before a line feed can follow")
seed("C06-first-window", "C06", [("words/iterator.go", "	cp := *iter\n	cp.pos = 0\n	cp.start = 0\n", '''	cp := *iter
	cp.pos = 0
	cp.start = 0
	if b, ok := any(cp.data).([]byte); ok && len(b) > 1<<12 {
		// no need to look at all of it
		cp.data = cp.data[:1<<12]
	}
''')],
 prog(["strings", U + "words"], '''	s := strings.Repeat("a_b", 2000)
	if a, b := words.FromString(s).First(), words.FromBytes([]byte(s)).First(); a != string(b) {
		panic(len(b))
	}
'''), "First on bytes that start with a word of over 4096 bytes", "First gives only a part of the word, unlike for strings")
seed("C12-first-cache", "C12", [("graphemes/iterator.go", "	pos   int\n	start int\n", "	pos   int\n	start int\n	first int // length of the first cluster, when known\n"),
 ("graphemes/iterator.go", "	cp.Next()\n	return cp.Value()\n", "	if iter.first == 0 {\n		cp.Next()\n		iter.first = cp.pos\n	}\n	return iter.data[:iter.first]\n"),
 ("graphemes/iterator.go", "	iter.data = data\n	iter.start = 0\n	iter.pos = 0\n", "	iter.data = data\n	iter.start = 0\n	iter.pos = 0\n	iter.first = 0\n")],
 prog([U + "graphemes"], '''	it := graphemes.FromString("\\x1b[m")
	it.First()
	it.AnsiEscapeSequences = true
	if s := it.First(); s != "\\x1b[m" {
		panic(s)
	}
'''), "First, then an ANSI option is changed, then First again on a text that starts with a sequence", "First gives what it was under the old options")
seed("C14-first-cache", "C14", [("phrases/iterator.go", "	pos   int\n", "	pos   int\n	first int // length of the first phrase, when known\n"),
 ("phrases/iterator.go", "	iter.data = data\n	iter.start = 0\n	iter.pos = 0\n", "	iter.data = data\n	iter.start = 0\n	iter.pos = 0\n	iter.first = 0\n")],
 None, "x", "x") if False else None
seed("C11-latin1", "C11", [("words/joiners.go", "	// Did some bechmarking, a map isn't faster for small numbers\n", '''	// Did some bechmarking, a map isn't faster for small numbers
	if len(runes) >= 8 && rune >= 0x80 {
		// lists that long are of ASCII or Latin-1 punctuation, mostly
		max := runes[0]
		for _, r := range runes[1:] {
			if r > max && r < 0x2000 {
				max = r
			}
		}
		if rune > max {
			return false
		}
	}
''')],
 prog([U + "words"], '''	it := words.FromString("a\\u2013b")
	it.Joiners(&words.Joiners[string]{Middle: []rune("!#$%&*+\\u2013")})
	if it.Next(); it.Value() != "a\\u2013b" {
		panic(it.Value())
	}
'''), "eight or more joiners of which one above U+2000 is not the first", "it does not join")
seed("C20-first-single", "C20", [("words/iterator.go", "	if len(iter.data) == 0 {\n		return iter.data\n	}\n", "	if len(iter.data) <= 1 {\n		return iter.data\n	}\n")],
 prog(["errors", U + "words"], '''	it := words.FromString("x")
	it.Split(func(string, bool) (int, string, error) { return 0, "", errors.New("no") })
	defer func() {
		if recover() == nil {
			panic("no panic")
		}
	}()
	it.First()
'''), "First on a text of one byte with a custom split function which fails or does not advance", "no panic")
seed("C20-token-trim", "C20", [("words/iterator.go", "	advance, _, err := iter.split(remaining, true)\n", "	advance, token, err := iter.split(remaining, true)\n"),
 ("words/iterator.go", "	iter.pos += advance\n	return true\n", "	if n := len(token); n > 0 && n < advance && iter.pos+advance == len(iter.data) {\n		// the function leaves something out at the end\n		advance = n\n	}\n	iter.pos += advance\n	return true\n")],
 prog([U + "words"], '''	it := words.FromString("ab,")
	it.Split(func(s string, eof bool) (int, string, error) { return len(s), s[:len(s)-1], nil })
	it.Next()
	if it.End() != 3 {
		panic(it.End())
	}
'''), "a custom function, like bufio.ScanLines, which returns a token shorter than its advance at the end of the text", "the iterator advances less than the function says")
seed("C16-incb-rescan", "C16", [("graphemes/splitfunc.go", "		if incb == incbLinker && current.is(_InCBConsonant) {\n", '''		if incb == incbLinker && current.is(_InCBConsonant) {
			// the conjunct must have a consonant before the linker
			seen := false
			for i := 0; i < pos; {
				l, n := lookup(data[i:])
				seen = seen || l.is(_InCBConsonant)
				i += n
			}
			if !seen {
				break
			}
''')],
 prog(["strings", "time", U + "graphemes"], '''	f := func(n int) time.Duration {
		best := time.Hour
		for k := 0; k < 3; k++ {
			s := strings.Repeat("\\u0915\\u094d", n)
			t := time.Now()
			for it := graphemes.FromString(s); it.Next(); {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	f(100)
	if a, b := f(1000), f(16000); b > 80*a {
		panic(b.String() + " after " + a.String())
	}
'''), "a long chain of Indic consonants joined by viramas", "quadratic work")
seed("C16-wb7c-rescan", "C16", [("words/splitfunc.go", "		if current.is(_HebrewLetter) && lastExIgnore.is(_DoubleQuote) && lastLastExIgnore.is(_HebrewLetter) {\n			pos += w\n			continue\n		}\n", '''		if current.is(_HebrewLetter) && lastExIgnore.is(_DoubleQuote) && lastLastExIgnore.is(_HebrewLetter) {
			pos += w
			continue
		}

		// A word of Katakana connected by punctuation is one word, if it is connected from the start
		if current.is(_ExtendNumLet) && lastExIgnore.is(_Katakana) {
			i := 0
			for i < pos {
				l, n := lookup(data[i:])
				if !l.is(_Katakana | _ExtendNumLet | _Ignore) {
					break
				}
				i += n
			}
			if i == pos {
				pos += w
				continue
			}
		}
''')],
 prog(["strings", "time", U + "words"], '''	f := func(n int) time.Duration {
		best := time.Hour
		for k := 0; k < 3; k++ {
			s := strings.Repeat("\\u30ab_", n)
			t := time.Now()
			for it := words.FromString(s); it.Next(); {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	f(100)
	if a, b := f(1000), f(16000); b > 80*a {
		panic(b.String() + " after " + a.String())
	}
'''), "a long run of Katakana and connector punctuation", "quadratic work")
seed("C09-nf-limit", "C09", [("graphemes/ansi.go", "		for i < n && data[i] >= 0x20 && data[i] <= 0x2F {\n", "		for i < n && i < 8 && data[i] >= 0x20 && data[i] <= 0x2F {\n")],
 prog([U + "graphemes"], '''	it := graphemes.FromString("\\x1b//////////F")
	it.AnsiEscapeSequences = true
	if it.Next(); it.Value() != "\\x1b//////////F" {
		panic(it.Value())
	}
'''), "an nF sequence of more than seven intermediate bytes", "it is not recognised")
seed("C10-csi-private", "C10", [("graphemes/ansi8.go", "		body := csiBodyLength(data[1:])\n		if body == 0 {\n			return 0\n		}\n", "		body := csiBodyLength(data[1:])\n		if body == 0 || body == 1 && data[1] >= 0x70 {\n			// a private final byte needs a parameter\n			return 0\n		}\n")],
 prog([U + "graphemes"], '''	it := graphemes.FromString("\\x9bu")
	it.AnsiEscapeSequences8Bit = true
	if it.Next(); it.Value() != "\\x9bu" {
		panic(it.Value())
	}
'''), "a C1 CSI with a final byte 0x70-0x7E and no parameters", "it is not recognised")
seed("C17-numeric-quote", "C17", [("words/bleve_compat.go", "		if current.is(_Numeric) && lastExIgnore.is(_MidNum|_MidNumLetQ) && lastLastExIgnore.is(_Numeric) {\n			pos += w\n			continue\n		}\n", "		if current.is(_Numeric) && lastExIgnore.is(_MidNum|_MidNumLetQ) && lastLastExIgnore.is(_Numeric|_ExtendNumLet) {\n			pos += w\n			continue\n		}\n"),
 ("words/bleve_compat.go", "		if current.is(_MidNum|_MidNumLetQ) && lastExIgnore.is(_Numeric) {\n", "		if current.is(_MidNum|_MidNumLetQ) && (lastExIgnore.is(_Numeric) || lastExIgnore.is(_ExtendNumLet) && lastLastExIgnore.is(_Numeric)) {\n")],
 prog([U + "words"], '''	if words.BleveNumeric([]byte("1_.5")) {
		panic("1_.5")
	}
'''), "a number, an underscore, a point, a number", "reported numeric")
seed("C18-filter-bom", "C18", [("internal/iterators/filter/filter.go", "		r, w := utf8.DecodeRune(token[pos:])\n", "		r, w := utf8.DecodeRune(token[pos:])\n		if r == utf8.RuneError && w == 1 && pos+1 < len(token) {\n			w++ // the byte after is part of it\n		}\n")],
 None, "x", "x") if False else None
seed("C13-bleve-last", "C13", [("words/seek.go", "const notfound = -1\n", "const notfound = -1\n\n// ignored is the number of characters ignored by the last look-ahead\nvar ignored int\n"),
 ("words/seek.go", "		if lookup.is(_Ignore) {\n			i += w\n			continue\n", "		if lookup.is(_Ignore) {\n			ignored++\n			i += w\n			continue\n")],
 prog(["sync", U + "words"], '''	var wg sync.WaitGroup
	for k := 0; k < 2; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 1000; n++ {
				for it := words.FromString("a.\\u00adb"); it.Next(); {
				}
			}
		}()
	}
	wg.Wait()
'''), "two goroutines at the same time in a look-ahead that skips ignorable characters", "a data race", race=True)
seed("C05-sentence-tail", "C05", [("sentences/splitfunc.go", '''					if atEOF {
						// Just return the bytes, we can't do anything with them
						pos = len(data)
						break main
					}
''', '''					if atEOF {
						// Just return the bytes, we can't do anything with them
						pos = p + w
						if p+1 < len(data) {
							pos = len(data)
						}
						break main
					}
''')],
 None, "x", "x") if False else None
seed("C05-bom-reader", "C05", [("sentences/reader.go", "	sc.Split(SplitFunc)\n", '''	first := true
	sc.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		if first && len(data) >= 2 && (data[0] == 0xFF && data[1] == 0xFE || data[0] == 0xFE && data[1] == 0xFF) {
			// a mark of UTF-16
			first = false
			return 2, nil, nil
		}
		first = first && len(data) < 2
		return SplitFunc(data, atEOF)
	})
''')],
 prog(["strings", U + "sentences"], '''	sc, out := sentences.FromReader(strings.NewReader("\\xff\\xfeab")), ""
	for sc.Scan() {
		out += sc.Text()
	}
	if out != "\\xff\\xfeab" {
		panic(out)
	}
'''), "a stream which starts with the bytes FF FE or FE FF", "they are lost")
seed("C15-first-alloc", "C15", [("sentences/iterator.go", "", "")], None, "x", "x") if False else None
seed("C02-ri-after-format", "C02", [("words/splitfunc.go", "		if current.is(_RegionalIndicator) && lastExIgnore.is(_RegionalIndicator) {\n			regionalIndicatorCount++\n", "		if current.is(_RegionalIndicator) && lastExIgnore.is(_RegionalIndicator) {\n			if !last.is(_Format) || regionalIndicatorCount == 0 {\n				regionalIndicatorCount++\n			}\n")],
 prog([U + "words"], '''	r := "\\U0001F1E6"
	it := words.FromString(r + r + "\\u00ad" + r)
	if it.Next(); it.Value() != r + r + "\\u00ad" {
		panic(it.Value())
	}
'''), "a flag, a soft hyphen (or other Format character), another regional indicator", "the third joins the first two")
seed("C03-sb7-across-close", "C03", [("sentences/splitfunc.go", "		if current.is(_Upper) && lastExIgnore.is(_ATerm) && lastLastExIgnore.is(_Upper|_Lower) {\n", "		if current.is(_Upper|_OLetter) && lastExIgnore.is(_ATerm) && lastLastExIgnore.is(_Upper|_Lower) && (current.is(_Upper) || w > 3) {\n")],
 prog([U + "sentences"], '''	it := sentences.FromString("A.\\U00020000")
	if it.Next(); it.Value() != "A." {
		panic(it.Value())
	}
'''), "a Latin letter, a full stop, and a supplementary ideograph or other letter without case", "no break")
seed("C01-prepend-control", "C01", [("graphemes/splitfunc.go", "		if last.is(_Prepend) {\n			pos += w\n			continue\n		}\n", "		if last.is(_Prepend) && !(current.is(_Prepend) && w == 4) {\n			pos += w\n			continue\n		}\n")],
 prog([U + "graphemes"], '''	it := graphemes.FromString("\\u0600\\U000110BDa")
	if it.Next(); it.Value() != "\\u0600\\U000110BDa" {
		panic(it.Value())
	}
'''), "a supplementary Prepend character (a Kaithi number sign) after another Prepend", "a break between them")
seed("C19-new-values", "C19", [("internal/gen/main.go", "	case len < 32:\n		inttype = \"uint32\"\n	default:\n		inttype = \"uint64\"\n", "	default:\n		// far fewer than 32\n		inttype = \"uint32\"\n")],
 "", "a data file with more than 32 property values", "the generated package does not compile", demo=DEMO,
 files=files(prog([U + "words"], '''	it := words.FromString("a\\u2abf")
	if it.Next(); it.Value() != "a\\u2abf" {
		panic(it.Value())
	}
'''), word=["Extend 2ABF"] + ["New%d %X" % (i, 0x2F000 + i) for i in range(20)]))
