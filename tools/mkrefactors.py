#!/usr/bin/env python3
"""Behaviour-preserving edits, on which every check has to stay quiet: writes
tools/refactors/<id>.diff against /repo's HEAD."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
R = {}
def rf(id, *edits): R[id] = edits

# graphemes iterator: helpers, reordered conditions, a loop instead of a call
rf("graphemes-iterator",
 ("graphemes/iterator.go", '''	b := iter.data[iter.pos]
	if iter.AnsiEscapeSequences && b == esc {
		if a := ansiEscapeLength(iter.data[iter.pos:]); a > 0 {
			iter.pos += a
			return true
		}
	}
	if iter.AnsiEscapeSequences8Bit && b >= 0x80 && b <= 0x9F {
		if a := ansiEscapeLength8Bit(iter.data[iter.pos:]); a > 0 {
			iter.pos += a
			return true
		}
	}
''', '''	b := iter.data[iter.pos]
	if a := iter.escape(); a > 0 {
		iter.pos += a
		return true
	}
'''),
 ("graphemes/iterator.go", '''// Value returns the current grapheme cluster.
''', '''// escape returns the length of the escape sequence at the cursor, or 0.
func (iter *Iterator[T]) escape() int {
	rest := iter.data[iter.pos:]
	switch b := rest[0]; {
	case b == esc && iter.AnsiEscapeSequences:
		return ansiEscapeLength(rest)
	case iter.AnsiEscapeSequences8Bit && isC1(b):
		return ansiEscapeLength8Bit(rest)
	}
	return 0
}

func isC1(b byte) bool { return b&0xE0 == 0x80 }

// Value returns the current grapheme cluster.
'''),
 ("graphemes/ansi8.go", "		if pos > 0 && b >= 0x80 && b <= 0x9F && ansiEscapeLength8Bit(data[pos:]) > 0 {", "		if isC1(b) && pos > 0 && ansiEscapeLength8Bit(data[pos:]) > 0 {"),
 ("graphemes/iterator.go", '''	// Use a copy to leverage Next()'s ASCII optimization
	cp := *iter
	cp.pos = 0
	cp.start = 0
	cp.Next()
	return cp.Value()
''', '''	start, pos := iter.start, iter.pos
	defer func() { iter.start, iter.pos = start, pos }()
	iter.Reset()
	iter.Next()
	return iter.Value()
'''))

rf("graphemes-ansi",
 ("graphemes/ansi.go", '''	for i := 0; i < len(data); i++ {
		b := data[i]
		if b == bel {
			return i + 1
		}
		if b == can || b == sub {
			return i
		}
		if b == esc && i+1 < len(data) && data[i+1] == '\\\\' {
			return i + 2
		}
	}
	return -1
}
''', '''	return controlString(data, true)
}

func controlString[T ~string | ~[]byte](data T, belEnds bool) int {
	var prev byte
	for i := range []byte(data) {
		switch b := data[i]; b {
		case can, sub:
			return i
		case bel:
			if belEnds {
				return i + 1
			}
		case '\\\\':
			if prev == esc {
				return i + 1
			}
		}
		prev = data[i]
	}
	return -1
}
'''),
 ("graphemes/ansi.go", '''	for i := 0; i < len(data); i++ {
		if data[i] == can || data[i] == sub {
			return i
		}
		if data[i] == esc && i+1 < len(data) && data[i+1] == '\\\\' {
			return i + 2
		}
	}
	return -1
}
''', '''	return controlString(data, false)
}
'''),
 ("graphemes/ansi.go", '''	for i := 0; i < len(data); i++ {
		b := data[i]
		if b >= 0x30 && b <= 0x3F {
			if seenIntermediate {
				return 0
			}
			continue
		}
		if b >= 0x20 && b <= 0x2F {
			seenIntermediate = true
			continue
		}
		if b >= 0x40 && b <= 0x7E {
			return i + 1
		}
		return 0
	}
	return 0
''', '''	i := 0
	for ; i < len(data); i++ {
		b := data[i]
		switch {
		case b < 0x20 || b > 0x7E:
			return 0
		case b >= 0x40:
			return i + 1
		case b < 0x30:
			seenIntermediate = true
		case seenIntermediate:
			return 0
		}
	}
	return 0
'''))

rf("graphemes-rules",
 ("graphemes/splitfunc.go", '''		if last.is(_InCBConsonant | _InCBLinker | _InCBExtend) {
			switch {
			case last.is(_InCBConsonant):
				if incb != incbLinker {
					incb = incbConsonant
				}
			case last.is(_InCBLinker):
				if incb >= incbConsonant {
					incb = incbLinker
				}
				// case last.is(_InCBExtend): stay in current state
			}
		} else {
			incb = incbNone
		}
''', '''		incb = incb.after(last)
'''),
 ("graphemes/splitfunc.go", '''// SplitFunc is a bufio''', '''// after returns the state once p is behind.
func (s incbState) after(p property) incbState {
	if p.is(_InCBConsonant) {
		if s == incbLinker {
			return s
		}
		return incbConsonant
	}
	if p.is(_InCBLinker) {
		if s == incbNone {
			return s
		}
		return incbLinker
	}
	if !p.is(_InCBExtend) {
		return incbNone
	}
	return s
}

// SplitFunc is a bufio'''))

rf("words-rules",
 ("words/splitfunc.go", '''	var lastExIgnore property     // "last excluding ignored categories"
	var lastLastExIgnore property // "the last one before that"
	var regionalIndicatorCount int
''', '''	var lastExIgnore, lastLastExIgnore property // "last excluding ignored categories", "the last one before that"
	var oddRI bool
'''),
 ("words/splitfunc.go", '''		if current.is(_RegionalIndicator) && lastExIgnore.is(_RegionalIndicator) {
			regionalIndicatorCount++

			odd := regionalIndicatorCount%2 == 1
			if odd {
				pos += w
				continue
			}
		}
''', '''		if current.is(_RegionalIndicator) && lastExIgnore.is(_RegionalIndicator) {
			if oddRI = !oddRI; oddRI {
				pos += w
				continue
			}
		}
'''),
 ("words/splitfunc.go", '''		// https://unicode.org/reports/tr29/#WB7
		if current.is(_AHLetter) && lastExIgnore.is(_MidLetter|_MidNumLetQ) && lastLastExIgnore.is(_AHLetter) {
			pos += w
			continue
		}

''', ''),
 ("words/splitfunc.go", '''		// https://unicode.org/reports/tr29/#WB13
''', '''		// https://unicode.org/reports/tr29/#WB7
		if lastLastExIgnore.is(_AHLetter) && lastExIgnore.is(_MidLetter|_MidNumLetQ) && current.is(_AHLetter) {
			pos += w
			continue
		}

		// https://unicode.org/reports/tr29/#WB13
'''),
 ("words/seek.go", '''	i := 0
	for i < len(data) {
		lookup, w := lookup(data[i:])
''', '''	var w int
	for i := 0; i < len(data); i += w {
		var lookup2 property
		lookup2, w = lookup(data[i:])
'''),
 ("words/seek.go", '''		if lookup.is(_Ignore) {
			i += w
			continue
		}

		if lookup.is(properties) {''', '''		if lookup2.is(_Ignore) {
			continue
		}

		if lookup2.is(properties) {'''))

rf("sentences-sb8",
 ("sentences/splitfunc.go", '''			// ( ¬(OLetter | Upper | Lower | ParaSep | SATerm) )*
			// Zero or more of not-the-above properties
			for p < len(data) {
				lookup, w := lookup(data[p:])
				if w == 0 {
					if atEOF {
						// Just return the bytes, we can't do anything with them
						pos = len(data)
						break main
					}
					// Rune extends past current data, request more
					return 0, empty, nil
				}

				if lookup.is(_OLetter | _Upper | _Lower | _ParaSep | _SATerm) {
					break
				}

				p += w
			}
''', '''			// ( ¬(OLetter | Upper | Lower | ParaSep | SATerm) )*
			// Zero or more of not-the-above properties
			n, whole := skipNone(data[p:], _OLetter|_Upper|_Lower|_ParaSep|_SATerm)
			p += n
			switch {
			case !whole && !atEOF:
				// Rune extends past current data, request more
				return 0, empty, nil
			case !whole:
				// Just return the bytes, we can't do anything with them
				pos = len(data)
				break main
			}
'''),
 ("sentences/splitfunc.go", '''// SplitFunc is a bufio.SplitFunc implementation of word segmentation''', '''// skipNone returns the length of what has none of the properties, and whether
// it ends before an incomplete rune.
func skipNone[T ~string | ~[]byte](data T, stop property) (int, bool) {
	for p := 0; ; {
		if p == len(data) {
			return p, true
		}
		v, w := lookup(data[p:])
		if w == 0 {
			return p, false
		}
		if v.is(stop) {
			return p, true
		}
		p += w
	}
}

// SplitFunc is a bufio.SplitFunc implementation of word segmentation'''))

rf("phrases-state",
 ("phrases/seek.go", '''	// If we reach here, we've only seen ignored characters or incomplete runes
	if atEOF {
		// Nothing more to evaluate
		return notfound, false
	}

	// Need more - return notfound to indicate no match found yet
	return notfound, true
''', '''	// Only ignored characters or incomplete runes. Without the end of the text,
	// more are needed.
	return notfound, !atEOF
'''),
 ("phrases/iterator.go", '''	iter.start = iter.pos

''', '''	iter.start += len(iter.Value())

'''))

rf("joiners-map",
 ("words/joiners.go", '''func runesContain(runes []rune, rune rune) bool {
	// Did some bechmarking, a map isn't faster for small numbers
	for _, r := range runes {
		if r == rune {
			return true
		}
	}
	return false
}
''', '''func runesContain(runes []rune, r rune) bool {
	i := len(runes) - 1
	for i >= 0 && runes[i] != r {
		i--
	}
	return i >= 0
}
'''),
 ("words/joiners.go", '''	iter.Split(j.splitFunc)
''', '''	f := func(data T, atEOF bool) (int, T, error) { return j.splitFunc(data, atEOF) }
	iter.split = f
	iter.customSplit = true
'''),
 ("words/reader.go", '''	sc.Split(func(data []byte, atEOF bool) (advance int, token []byte, err error) {
		return j.splitFunc(data, atEOF)
	})
''', '''	sc.Scanner.Split(j.splitFunc)
'''))

rf("bleve",
 ("words/bleve_compat.go", '''		if pos == 0 {
			// must start with Numeric|ExtendNumLet
			if current.is(_Numeric | _ExtendNumLet) {
				pos += w
				continue
			}
			// not numeric, can move on
			return false
		}
''', '''		if pos == 0 && !current.is(_Numeric|_ExtendNumLet) {
			// must start with Numeric|ExtendNumLet
			return false
		} else if pos == 0 {
			pos = w
			continue
		}
'''))

rf("internal-iterator",
 ("internal/iterators/iterator.go", '''	advance, _, err := iter.split(d, true)
	if err != nil {
		panic(err)
	}
	if advance <= 0 {
		panic("SplitFunc returned a zero or negative advance")
	}

	iter.pos += advance
	if iter.pos > len(iter.data) {
		panic("SplitFunc advanced beyond the end of the data")
	}

	return true
}
''', '''	iter.pos += iter.advance(d)
	return true
}

// advance returns the length of the first token of d.
func (iter *Iterator[T]) advance(d T) int {
	advance, _, err := iter.split(d, true)
	switch {
	case err != nil:
		panic(err)
	case advance <= 0:
		panic("SplitFunc did not advance")
	case advance > len(d):
		panic("SplitFunc advanced beyond the end of the data")
	}
	return advance
}
'''),
 ("internal/iterators/iterator.go", '''	advance, _, err := iter.split(iter.data, true)
	if err != nil {
		panic(err)
	}
	if advance <= 0 {
		panic("SplitFunc returned a zero or negative advance")
	}
	if advance > len(iter.data) {
		panic("SplitFunc advanced beyond the end of the data")
	}
	return iter.data[:advance]
''', '''	return iter.data[:iter.advance(iter.data)]
'''))

rf("generator",
 ("internal/gen/main.go", '''	b := bufio.NewReader(resp.Body)

	runesByProperty := map[string][]rune{}
	for {
		s, err := b.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
		if err == io.EOF && len(s) == 0 {
			break
		}

''', '''	defer resp.Body.Close()
	all, err := io.ReadAll(bufio.NewReader(resp.Body))
	if err != nil {
		return err
	}

	runesByProperty := map[string][]rune{}
	for _, s := range strings.Split(string(all), "\\n") {
'''),
 ("internal/gen/main.go", '''	iotasByRune := map[rune]uint64{}
	for property, runes := range runesByProperty {
		for _, r := range runes {
			iotasByRune[r] = iotasByRune[r] | iotasByProperty[property]
		}
	}

	trie := triegen.NewTrie(p.PackageName())

	for r, iotas := range iotasByRune {
		trie.Insert(r, iotas)
	}
''', '''	iotasByRune := make([]uint64, unicode.MaxRune+1)
	for _, property := range properties {
		for _, r := range runesByProperty[property] {
			iotasByRune[r] |= iotasByProperty[property]
		}
	}

	trie := triegen.NewTrie(p.PackageName())

	for r, iotas := range iotasByRune {
		if iotas != 0 {
			trie.Insert(rune(r), iotas)
		}
	}
'''),
 ("internal/gen/main.go", '''	dst, err := os.Create(f)
	if err != nil {
		return err
	}
	defer dst.Close()

	_, err = dst.Write(formatted)
	if err != nil {
		return err
	}

	return nil
}

func writeTrie''', '''	return os.WriteFile(f, formatted, 0o666)
}

func writeTrie'''),
 ("internal/gen/main.go", '''	for _, t := range tests {
		fmt.Fprintf(&buf, `{
	input: %#v,
	expected: %#v,
	comment: %#v,
},
`, t.input, t.expected, t.comment)
	}
''', '''	for _, t := range tests {
		fmt.Fprintf(&buf, "{\\ninput: []byte(%q),\\nexpected: [][]byte{", t.input)
		for _, e := range t.expected {
			fmt.Fprintf(&buf, "[]byte(%q),", e)
		}
		fmt.Fprintf(&buf, "},\\ncomment: %q,\\n},\\n", t.comment)
	}
'''))
rf("generator-array",
 ("internal/gen/main.go", "var unicodeTests = [%d]unicodeTest {\n`, len(tests))", "var unicodeTests = []unicodeTest {\n`)"),
 ("internal/gen/main.go", '''	for _, p := range props {
		if err := p.generateTrie(); err != nil {
			panic(err)
		}

		if err := p.generateTests(); err != nil {
			panic(err)
		}
	}
''', '''	for _, p := range props {
		if err := p.generateTrie(); err != nil {
			panic(err)
		}
	}
	for _, p := range props {
		if err := p.generateTests(); err != nil {
			panic(err)
		}
	}
'''),
 ("internal/gen/main.go", '''	resp, err := http.Get(p.TestURL())
	if err != nil {
		return err
	}
''', '''	req, err := http.NewRequest("GET", p.TestURL(), nil)
	if err != nil {
		return err
	}
	client := http.Client{}
	resp, err := client.Do(req)
	if err != nil {
		return err
	}
	defer resp.Body.Close()
'''))

# a function around the table lookup, with its own ASCII table, made at start
for pkg in ("graphemes", "words", "sentences", "phrases"):
    rf("ascii-table-" + pkg,
     (pkg + "/trie.go", "		return %sValues[c0], 1\n" % pkg, "		return ascii[c0], 1\n"),
     (pkg + "/reader.go", "type Scanner struct", "// ascii has the properties of the ASCII characters.\nvar ascii = func() (t [128]property) {\n	for i := range t {\n		t[i] = property(%sValues[i])\n	}\n	return\n}()\n\ntype Scanner struct" % pkg))

rf("readers",
 *[(pkg + "/reader.go", "type Scanner struct {\n	*bufio.Scanner\n}\n", "// Scanner reads tokens from an io.Reader.\ntype Scanner struct {\n	*bufio.Scanner\n	reader io.Reader\n}\n\n// Reader returns what the Scanner reads from.\nfunc (sc *Scanner) Reader() io.Reader { return sc.reader }\n") for pkg in ("graphemes", "words", "sentences", "phrases")])

def main():
    for id, edits in R.items():
        if sys.argv[1:] and id not in sys.argv[1:]: continue
        d = "/tmp/rf/mk"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True)
        ok = True
        for f, old, new in edits:
            t = open(d + "/" + f).read()
            if t.count(old) != 1:
                print(id, f, "matches", t.count(old), old[:60]); ok = False; continue
            open(d + "/" + f, "w").write(t.replace(old, new))
        if not ok: continue
        r = subprocess.run("gofmt -l graphemes words sentences phrases internal; go build ./... && (cd internal/gen && go build -o /dev/null .) && go test -vet=off ./... 2>&1 | grep -v '^ok\\|no test files'", shell=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(id, r.stdout.strip()[-600:] or "ok")
        os.makedirs(HERE + "/refactors", exist_ok=True)
        open(HERE + "/refactors/%s.diff" % id, "w").write(subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout)
        shutil.rmtree(d)
main()
