"""Limits, rare inputs and rare environments."""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from batch2 import prog, U
SEEDS = []
def seed(id, property, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw))

SKIP = "		if lookup.is(_Ignore) {\n			i += w\n			continue\n		}\n"
def first(pkg, text, want):
    return prog(["strings", U + pkg], '	_ = strings.Repeat\n	it := %s.FromString(%s)\n	if it.Next(); it.End() != %s {\n		panic(it.End())\n	}\n' % (pkg, text, want))
seed("C02-lookahead-cap", "C02", [("words/seek.go", "	for i < len(data) {\n", "	for i < len(data) {\n		if i > 600 {\n			// stream-safe text has no such run\n			return notfound, false\n		}\n")],
 first("words", '"a." + strings.Repeat("\\u0301", 400) + "b"', 803),
 "over 300 ignorable characters between a middle character and the letter after it", "the look-ahead gives up, and the word is cut")
seed("C04-lookahead-cap", "C04", [("phrases/seek.go", SKIP, "		if lookup.is(_Ignore) {\n			if i += w; i >= 64 && !atEOF {\n				return notfound, true\n			}\n			if i >= 128 {\n				return notfound, false\n			}\n			continue\n		}\n")],
 first("phrases", '"1." + strings.Repeat("\\u00ad", 70) + "2"', 143),
 "over 64 ignorable characters between the decimal point and the digits", "the look-ahead gives up, and the phrase is cut")
seed("C03-sb8-window", "C03", [("sentences/splitfunc.go", "			for p < len(data) {\n", "			for p < len(data) && p-pos < 2048 {\n")],
 first("sentences", '"a." + strings.Repeat(" 1", 1100) + "a. B"', 2205),
 "over 2048 bytes without letters between a full stop and the lower-case letter that continues the sentence", "the look-ahead of SB8 gives up")
seed("C01-extend-limit", "C01", [("graphemes/splitfunc.go", "		if current.is(_Extend | _ZWJ) {\n			pos += w\n			continue", "		if current.is(_Extend|_ZWJ) && (pos < 1<<14 || !last.is(_ZWJ)) {\n			pos += w\n			continue")],
 first("graphemes", '"a" + strings.Repeat("\\u0301", 9000) + "\\u200d\\u0301"', 18006),
 "a ZWJ, followed by an extending character, more than 16384 bytes into a grapheme cluster", "the cluster is cut after the ZWJ")
WRAP = '''
// patient tries a read again when it times out.
type patient struct{ r io.Reader }

func (p patient) Read(b []byte) (int, error) {
	n, err := p.r.Read(b)
	for i := 0; i < 3 && n == 0 && err != nil; i++ {
		t, ok := err.(interface{ Timeout() bool })
		if !ok || !t.Timeout() {
			break
		}
		n, err = p.r.Read(b)
	}
	return n, err
}
'''
seed("C07-retry-timeout", "C07", [("sentences/reader.go", "	sc := bufio.NewScanner(r)\n", "	sc := bufio.NewScanner(patient{r})\n"), ("sentences/reader.go", "// FromReader returns", WRAP.lstrip() + "\n// FromReader returns")],
 prog(["os", U + "sentences"], '''	sc := sentences.FromReader(&rd{})
	n := 0
	for sc.Scan() {
		n++
	}
	if n != 1 || sc.Err() != os.ErrDeadlineExceeded {
		panic(n)
	}
}

type rd struct{ k int }

func (r *rd) Read(p []byte) (int, error) {
	r.k++
	switch r.k {
	case 1:
		return copy(p, "One."), nil
	case 2:
		return 0, os.ErrDeadlineExceeded
	}
	return copy(p, " Two."), nil
'''),
 "a reader whose error is a timeout, and which has more data after it", "the error is not reported, and the stream goes on after it")
seed("C07-unexpected-eof", "C07", [("words/reader.go", "	s := bufio.NewScanner(r)\n", "	s := bufio.NewScanner(lenient{r})\n"), ("words/reader.go", "// FromReader returns", '''// lenient takes a body which ends early as complete.
type lenient struct{ io.Reader }

func (l lenient) Read(p []byte) (int, error) {
	n, err := l.Reader.Read(p)
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}

// FromReader returns''')],
 prog(["io", "strings", U + "words"], '	sc := words.FromReader(io.MultiReader(strings.NewReader("a b"), bad{}))\n	for sc.Scan() {\n	}\n	if sc.Err() != io.ErrUnexpectedEOF {\n		panic("no error")\n	}\n}\n\ntype bad struct{}\n\nfunc (bad) Read(p []byte) (int, error) {\n	return 0, io.ErrUnexpectedEOF\n'),
 "a reader which fails with io.ErrUnexpectedEOF", "the scanner reports no error")
seed("C07-zero-read", "C07", [("phrases/reader.go", "	sc := bufio.NewScanner(r)\n", "	sc := bufio.NewScanner(&live{r: r})\n"), ("phrases/reader.go", "// FromReader returns", '''// live ends a stream which has stopped delivering.
type live struct {
	r    io.Reader
	idle int
}

func (l *live) Read(p []byte) (int, error) {
	n, err := l.r.Read(p)
	if n > 0 || err != nil {
		l.idle = 0
		return n, err
	}
	if l.idle++; l.idle >= 64 {
		return 0, io.EOF
	}
	return 0, nil
}

// FromReader returns''')],
 prog([U + "phrases"], '''	sc := phrases.FromReader(&rd{})
	n := 0
	for sc.Scan() {
		n += len(sc.Bytes())
	}
	if n != 4 {
		panic(n)
	}
}

type rd struct{ k int }

func (r *rd) Read(p []byte) (int, error) {
	r.k++
	switch {
	case r.k == 1:
		return copy(p, "ab"), nil
	case r.k < 80:
		return 0, nil
	case r.k == 80:
		return copy(p, "cd"), nil
	}
	panic(r.k)
'''.replace("	panic(r.k)\n", "	return 0, errEnd\n").replace("type rd struct", "var errEnd = errors.New(\"end\")\n\ntype rd struct")).replace('import (\n', 'import (\n\t"errors"\n'),
 "64 to 99 empty reads in a row", "the stream ends early")
seed("C08-commit-long", "C08", [("words/splitfunc.go", "			if !atEOF {\n				// Token extends past current data, request more\n				return 0, empty, nil\n			}\n\n			// https://unicode.org/reports/tr29/#WB2", "			if !atEOF && pos < 1<<15 {\n				// Token extends past current data, request more\n				return 0, empty, nil\n			}\n\n			// https://unicode.org/reports/tr29/#WB2")],
 prog(["bytes", U + "words"], '	if n, _, _ := words.SplitFunc(bytes.Repeat([]byte("a"), 40000), false); n != 0 {\n		panic(n)\n	}\n'),
 "a prefix of 32768 bytes or more without a boundary", "the split function commits a token that a continuation would make longer")
seed("C11-many-sorted", "C11", [("words/joiners.go", "	for _, r := range runes {\n", '''	if len(runes) > 12 {
		// many: they are usually given in order
		lo, hi := 0, len(runes)
		for lo < hi {
			if m := (lo + hi) / 2; runes[m] < rune {
				lo = m + 1
			} else {
				hi = m
			}
		}
		return lo < len(runes) && runes[lo] == rune
	}
	for _, r := range runes {
''')],
 prog([U + "words"], '	it := words.FromString("a@b")\n	it.Joiners(&words.Joiners[string]{Middle: []rune("#@-/+~=%&*|<>")})\n	if it.Next(); it.Value() != "a@b" {\n		panic(it.Value())\n	}\n'),
 "more than 12 configured characters, not in order", "some of them do not join")
seed("C11-bmp-bitmap", "C11", [("words/joiners.go", "	for _, r := range runes {\n", """	if len(runes) == 3 && uint16(runes[0]) != uint16(rune) && uint16(runes[1]) != uint16(rune) {
		return uint16(runes[2]) == uint16(rune)
	}
	for _, r := range runes {
""")],
 prog([U + "words"], '	it := words.FromString("a\\U0001F02Db")\n	it.Joiners(&words.Joiners[string]{Middle: []rune{0x23, 0x40, 0xF02D}})\n	if it.Next(); it.Value() != "a" {\n		panic(it.Value())\n	}\n'),
 "three configured characters, and a character above U+FFFF equal to the third in its low 16 bits", "it joins although it is not configured")
seed("C09-csi-limit", "C09", [("graphemes/ansi.go", "	for i := 0; i < len(data); i++ {\n		b := data[i]\n		if b >= 0x30 && b <= 0x3F {", "	for i := 0; i < len(data) && i < 256; i++ {\n		b := data[i]\n		if b >= 0x30 && b <= 0x3F {")],
 prog(["strings", U + "graphemes"], '	it := graphemes.FromString("\\x1b[" + strings.Repeat("1;", 150) + "m")\n	it.AnsiEscapeSequences = true\n	if it.Next(); it.End() != 303 {\n		panic(it.End())\n	}\n'),
 "a CSI sequence of more than 256 bytes", "it is not recognised")
seed("C10-payload-limit", "C10", [("graphemes/ansi8.go", "func stSequenceLengthC1[T ~string | ~[]byte](data T) int {\n	for i := 0; i < len(data); i++ {", "func stSequenceLengthC1[T ~string | ~[]byte](data T) int {\n	const maxString = 1 << 13 // no real string is longer\n	for i := 0; i < len(data) && i < maxString; i++ {")],
 prog(["strings", U + "graphemes"], '	it := graphemes.FromString("\\x90" + strings.Repeat("q", 9000) + "\\x9c")\n	it.AnsiEscapeSequences8Bit = true\n	if it.Next(); it.End() != 9002 {\n		panic(it.End())\n	}\n'),
 "a device control string with more than 8192 bytes of payload", "it is not recognised")
seed("C09-nf-two", "C09", [("graphemes/ansi.go", "		for i < n && data[i] >= 0x20 && data[i] <= 0x2F {", "		for i < n && i < 5 && data[i] >= 0x20 && data[i] <= 0x2F {")],
 prog([U + "graphemes"], '	it := graphemes.FromString("\\x1b($#%*0")\n	it.AnsiEscapeSequences = true\n	if it.Next(); it.End() != 7 {\n		panic(it.End())\n	}\n'),
 "an nF sequence with five intermediate bytes", "it is not recognised")
seed("C05-f5-width", "C05", [("phrases/splitfunc.go", "		current, w = lookup(data[pos:])\n		if w == 0 {\n			if atEOF {", "		current, w = lookup(data[pos:])\n		if w == 1 && data[pos] >= 0xF5 && pos > 2 && data[pos-1] >= 0xF0 && len(data) > pos+1 {\n			// two bytes which never occur: skip both\n			w = 2 + int(data[pos]-0xF5)/10\n		}\n		if w == 0 {\n			if atEOF {")],
 prog([U + "phrases"], '	it := phrases.FromString("a b\\xF1\\xFFz")\n	n := 0\n	for it.Next() {\n		n += len(it.Value())\n	}\n	if n != 6 {\n		panic(n)\n	}\n'),
 "invalid bytes", "x") if False else None
seed("C14-cleaned-copy", "C14", [("words/iterator.go", "	return &Iterator[[]byte]{\n", "	if len(b) > 1<<16 && cap(b)-len(b) > len(b) {\n		// do not keep a much larger buffer alive\n		b = append([]byte(nil), b...)\n	}\n	return &Iterator[[]byte]{\n")],
 prog([U + "words"], '	b := append(make([]byte, 0, 1<<18), make([]byte, 1<<16+1)...)\n	it := words.FromBytes(b)\n	it.Next()\n	if &it.Value()[0] != &b[0] {\n		panic("a copy")\n	}\n'),
 "a text of more than 65536 bytes in a buffer of more than twice its length", "tokens are views of a copy")
seed("C15-growing-memo", "C15", [("sentences/splitfunc.go", "	sb8NotFound := -1 // SB8 has looked ahead up to here, and found no Lower\n", "	sb8NotFound := -1 // SB8 has looked ahead up to here, and found no Lower\n	var quotes []int  // open quotation marks\n"), ("sentences/splitfunc.go", "		// https://unicode.org/reports/tr29/#SB6\n", "		if current.is(_Close) && w == 3 && lastExIgnoreClose.is(_STerm) {\n			quotes = append(quotes, pos)\n			if n := len(quotes); n > 1 && quotes[n-2] > pos {\n				quotes = quotes[:n-1]\n			}\n		}\n\n		// https://unicode.org/reports/tr29/#SB6\n")],
 prog(["strings", "testing", U + "sentences"], '	s := strings.Repeat("Go!\\u201d\\u201d\\u201d\\u201d\\u201d\\u201d ", 500)\n	if n := testing.AllocsPerRun(5, func() {\n		for it := sentences.FromString(s); it.Next(); {\n		}\n	}); n > 5 {\n		panic(n)\n	}\n'),
 "many three-byte closing quotation marks after an exclamation mark", "one allocation per such sentence")
seed("C18-single-rune", "C18", [("internal/iterators/iterator.go", "	if len(d) == 1 {\n", "	if len(d) == 1 || len(d) == 2 && d[0] == '\\r' && d[1] == '\\n' {\n"), ("internal/iterators/iterator.go", "		// No need to split, just return the single byte\n		iter.pos++\n", "		// No need to split, just return the single byte or line break\n		iter.pos += len(d)\n")],
 None, "x", "x") if False else None
seed("C20-empty-rest", "C20", [("words/iterator.go", "	// Fall back to full word parsing\n", "	// A last line feed is a word of its own\n	if iter.pos == len(iter.data)-1 && b == '\\n' {\n		iter.pos++\n		return true\n	}\n\n	// Fall back to full word parsing\n")],
 prog([U + "words"], '	it := words.FromString("a\\n")\n	it.Split(func(s string, eof bool) (int, string, error) {\n		if s == "\\n" {\n			return 0, "", nil\n		}\n		return 1, s[:1], nil\n	})\n	it.Next()\n	defer func() {\n		if recover() == nil {\n			panic("no panic")\n		}\n	}()\n	it.Next()\n'),
 "a custom split function that fails or stalls on a last line feed", "no panic; the line feed becomes a token")
seed("C12-settext-keeps-pos", "C12", [("phrases/iterator.go", "	iter.data = data\n	iter.start = 0\n	iter.pos = 0\n", "	if len(iter.data) > 0 && iter.pos == len(iter.data) && len(data) > len(iter.data) && string(data[:len(iter.data)]) == string(iter.data) {\n		// more of the same text: go on\n		iter.start = iter.pos\n		iter.data = data\n		return\n	}\n	iter.data = data\n	iter.start = 0\n	iter.pos = 0\n")],
 prog([U + "phrases"], '	it := phrases.FromString("a,")\n	for it.Next() {\n	}\n	it.SetText("a,b")\n	if it.Next(); it.Value() != "a" {\n		panic(it.Value())\n	}\n'),
 "SetText, at the end of a text, with a text of which the old one is a prefix", "the cursor does not start over")
seed("C17-numeric-long", "C17", [("words/bleve_compat.go", "			advance, _ := subsequent(_Numeric, token[pos+w:], true)\n", "			after := token[pos+w:]\n			if len(after) > 64 {\n				after = after[:64]\n			}\n			advance, _ := subsequent(_Numeric, after, true)\n")],
 prog(["strings", U + "words"], '	if !words.BleveNumeric([]byte("1." + strings.Repeat("\\u0301", 40) + "2")) {\n		panic(false)\n	}\n'),
 "over 30 ignorable characters after the decimal point", "BleveNumeric is false")
seed("C13-trie-hint", "C13", [("graphemes/splitfunc.go", "				if incb != incbLinker {\n", "				if pos > farConsonant {\n					farConsonant = pos\n				}\n				if incb != incbLinker {\n"), ("graphemes/splitfunc.go", "// SplitFunc is a bufio", "// how far into a cluster a Consonant has been\nvar farConsonant int\n\n// SplitFunc is a bufio")],
 prog(["sync", U + "graphemes"], '	var wg sync.WaitGroup\n	for k := 0; k < 4; k++ {\n		wg.Add(1)\n		go func() {\n			defer wg.Done()\n			for i := 0; i < 1000; i++ {\n				for it := graphemes.FromString("\\u0915\\u094d\\u0937\\u0916"); it.Next(); {\n				}\n			}\n		}()\n	}\n	wg.Wait()\n'),
 "two goroutines which tokenize Indic consonants", "a data race on a package variable", race=True)
seed("C16-prepend-rescan", "C16", [("graphemes/splitfunc.go", "		if last.is(_Prepend) {\n", "		if last.is(_Prepend) {\n			if current.is(_Prepend) {\n				// a run of them: what is at its end?\n				for p := pos + w; p < len(data); {\n					l, n := lookup(data[p:])\n					if n == 0 || !l.is(_Prepend|_ZWJ) {\n						break\n					}\n					p += n\n				}\n			}\n")],
 prog(["strings", "time", U + "graphemes"], '''	t := func(n int) time.Duration {
		s := strings.Repeat("\\u0600", n)
		best := time.Hour
		for i := 0; i < 7; i++ {
			t0 := time.Now()
			for it := graphemes.FromString(s); it.Next(); {
			}
			if d := time.Since(t0); d < best {
				best = d
			}
		}
		return best
	}
	if a, b := t(1000), t(16000); b > a*60 {
		panic(b)
	}
'''),
 "a long run of Prepend characters", "each of them scans the rest of the run: quadratic")
