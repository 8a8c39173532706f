package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/words"
	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
	"github.com/clipperhouse/uax29/v2/zverif/ref"
)

// C05: any bytes, every tokenizer: lossless, contiguous, terminating.
// C06: string and []byte agree.

// joinerRunes are what random joiner configurations draw from.
var joinerRunes = []rune{'-', '@', '#', '.', '\'', '/', '+', '&', '$', ':', '!', '*', '"', ',', ' ', '_', 'a', '1', '\u00b7', '\u2013', '\u3000', '\u6f22', '\u05d0', '\U0001F600', '\U0001F1FA', '\u30a2', '\u00e9', '\ufffd', 0x10FFFF, '\\', '\t'}

// oddJoinerRunes are used only where any configuration must do (C05, C06):
// line breaks, ignorables, and values that are no characters.
var oddJoinerRunes = []rune{'\n', '\r', '\u200d', '\u0301', '\u00ad', '\u2028', 0, -1, 0xD800, 0x110000}

func drawJoiners(r *eng.Rng, c *eng.Case, odd bool) {
	pick := func() []rune {
		var rs []rune
		n := r.N(4)
		if r.P(12) {
			n = r.In(4, eng.Pick(r, []int{8, 20, 40, 100, 300}))
		}
		base := rune(-1)
		for k := n; k > 0; k-- {
			if n > 3 && r.P(3) { // near one another, or twice
				if base < 0 || r.P(8) {
					base = eng.Pick(r, []rune{0x20, 0x20, 0x3A, 0xA0, 0x2010, 0x1F600, gen.Rune(r, gen.Words)})
				}
				if x := base + rune(r.N(48)); !badJoiner(x) {
					rs = append(rs, x)
				}
				continue
			}
			if odd && r.P(4) {
				rs = append(rs, eng.Pick(r, oddJoinerRunes))
				continue
			}
			if r.P(4) {
				x := gen.Rune(r, gen.Words)
				if r.P(5) {
					x = gen.DictRune(r)
				}
				if !odd && badJoiner(x) {
					continue
				}
				rs = append(rs, x)
				continue
			}
			rs = append(rs, eng.Pick(r, joinerRunes))
		}
		return rs
	}
	c.J = 1
	c.Lead, c.Mid = pick(), pick()
	if r.P(40) {
		c.J, c.Lead, c.Mid = 2, nil, nil
	}
}

// badJoiner: line breaks and ignorable characters, for which "joining" has no
// defined meaning.
func badJoiner(x rune) bool {
	if x < 0 || x > 0x10FFFF || (x >= 0xD800 && x <= 0xDFFF) {
		return true
	}
	switch gen.Table().W[x] {
	case ref.WCR, ref.WLF, ref.WNewline, ref.WExtend, ref.WZWJ, ref.WFormat:
		return true
	}
	return false
}

// drawOpts draws a package and its options.
func drawOpts(r *eng.Rng, c *eng.Case, odd bool) {
	switch r.N(8) {
	case 0, 1:
		c.Pkg = gen.Graphemes
	case 2:
		c.Pkg = gen.Words
	case 3:
		c.Pkg = gen.Sentences
	case 4:
		c.Pkg = gen.Phrases
	case 5, 6:
		c.Pkg = gen.Graphemes
		k := r.In(1, 3)
		c.A7, c.A8 = k&1 != 0, k&2 != 0
	default:
		c.Pkg = gen.Words
		drawJoiners(r, c, odd)
	}
}

// spice puts joiner characters or escape sequences into a text, by options.
func spice(r *eng.Rng, c *eng.Case, b []byte) []byte {
	if c.A7 || c.A8 {
		for k := r.N(4); k > 0; k-- {
			i := r.N(len(b) + 1)
			for i < len(b) && i > 0 && !utf8.RuneStart(b[i]) {
				i--
			}
			b = append(b[:i], append([]byte(EscSeq(r)), b[i:]...)...)
		}
	}
	if c.J == 1 && len(c.Lead)+len(c.Mid) > 0 {
		js := append(append([]rune(nil), c.Lead...), c.Mid...)
		for k := r.N(5); k > 0; k-- {
			i := r.N(len(b) + 1)
			for i < len(b) && i > 0 && !utf8.RuneStart(b[i]) {
				i--
			}
			x := eng.Pick(r, js)
			b = append(b[:i], append([]byte(string(x)), b[i:]...)...)
		}
	}
	return b
}

func allOpts() []eng.Case {
	var out []eng.Case
	for _, k := range []int{0, 1, 2, 3} {
		out = append(out, eng.Case{Pkg: gen.Graphemes, A7: k&1 != 0, A8: k&2 != 0})
	}
	out = append(out,
		eng.Case{Pkg: gen.Words},
		eng.Case{Pkg: gen.Words, J: 1, Lead: []rune{'.', 0xFFFD}, Mid: []rune{'_', '\'', 0xFFFD}},
		eng.Case{Pkg: gen.Sentences}, eng.Case{Pkg: gen.Phrases})
	return out
}

// chunkReader delivers data in given pieces. A size of 0 is an empty read.
// After the data it returns err, or with the last piece when together is set.
type chunkReader struct {
	data     []byte
	sizes    []int
	k        int
	err      error
	together bool
	empties  int
	most     int  // empty reads in a row; 0: 50
	done     bool // it has returned err
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.done {
		// nothing may be read after an error
		return copy(p, "read after the end"), nil
	}
	// a reader may use all of p
	for i := 0; i < len(p) && i < 24; i++ {
		p[i] = 0xCC
	}
	if len(r.data) == 0 {
		r.done = true
		return 0, r.err
	}
	n := len(r.data)
	if len(r.sizes) > 0 {
		n = r.sizes[r.k%len(r.sizes)]
		r.k++
	}
	if n <= 0 {
		// an empty read; bufio allows a hundred in a row
		if r.empties++; r.empties < r.most || r.most == 0 && r.empties < 50 {
			return 0, nil
		}
		n = 1
	}
	r.empties = 0
	if n > len(r.data) {
		n = len(r.data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[:n])
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = 'x'
	}
	r.data = r.data[n:]
	if len(r.data) == 0 && r.together {
		r.done = true
		return n, r.err
	}
	return n, nil
}

// scanEnds runs a scanner to its end. It fails unless the tokens are non-empty
// and concatenate to a prefix of data.
func scanEnds(sc tokenScanner, data []byte, ends []int) ([]int, error) {
	pos := 0
	for sc.Scan() {
		tok := sc.Bytes()
		if len(tok) == 0 {
			return ends, fmt.Errorf("empty token %d at %d", len(ends), pos)
		}
		if len(ends)%16 == 3 {
			if s := sc.Text(); s != string(tok) {
				return ends, fmt.Errorf("token %d is %q by Bytes, %q by Text", len(ends), tok, s)
			}
		}
		if pos+len(tok) > len(data) || !bytes.Equal(tok, data[pos:pos+len(tok)]) {
			return ends, fmt.Errorf("token %d is %q, but the text at %d is %q", len(ends), tok, pos, data[pos:min(len(data), pos+len(tok))])
		}
		pos += len(tok)
		ends = append(ends, pos)
	}
	if sc.Scan() {
		return ends, errors.New("Scan is true again after the end")
	}
	return ends, nil
}

func checkLossless(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	o := caseOpts(c)
	text, s := x.surround(c.Text, 0)
	if !utf8.Valid(text) {
		w.NonTrivial()
		w.Label("invalid-utf8")
	} else if o.a7 || o.a8 || o.j != 0 {
		w.NonTrivial()
	}
	w.Label(gen.PkgNames[o.pkg])
	keep := append(x.buf[:0], text...)
	x.buf = keep
	var err error
	if x.ends, err = collect(iterBytes(o, text), text, x.ends[:0]); err != nil {
		return fmt.Errorf("%v FromBytes: %w", o, err)
	}
	if x.ends, err = collect(iterString(o, s), s, x.ends[:0]); err != nil {
		return fmt.Errorf("%v FromString: %w", o, err)
	}
	first := iterString(o, s).First()
	if (len(first) == 0) != (len(s) == 0) || !strings.HasPrefix(s, first) {
		return fmt.Errorf("%v First is %q", o, first)
	}
	w.Evals(3)
	if !o.a7 && !o.a8 {
		sc := scanner(o, &chunkReader{data: text, sizes: c.Ints, err: io.EOF})
		if len(text) > 60000 {
			sc.Buffer(nil, 2*len(text)+100)
		}
		if x.ends, err = scanEnds(sc, text, x.ends[:0]); err != nil {
			return fmt.Errorf("%v FromReader: %w", o, err)
		}
		if err := sc.Err(); err != nil {
			return fmt.Errorf("%v FromReader: error %v", o, err)
		}
		if n := len(text); n > 0 && (len(x.ends) == 0 || x.ends[len(x.ends)-1] != n) {
			return fmt.Errorf("%v FromReader: tokens do not reach the end: %s", o, show(text, x.ends))
		}
		w.Evals(1)
		if o.j == 0 {
			if x.ends, err = collectSplit(splitFunc(o.pkg), text, x.ends[:0]); err != nil {
				return fmt.Errorf("%v SplitFunc: %w", o, err)
			}
			w.Evals(1)
		}
	}
	if !bytes.Equal(keep, text) {
		return fmt.Errorf("%v: the input was modified", o)
	}
	return nil
}

func checkEmpty(w *eng.W, c *eng.Case) error {
	o := caseOpts(c)
	w.NonTrivial()
	var nilb []byte
	for _, b := range [][]byte{nilb, {}} {
		it := iterBytes(o, b)
		if v := it.First(); len(v) != 0 {
			return fmt.Errorf("%v: First of nothing is %q", o, v)
		}
		if it.Next() || it.Next() || len(it.Value()) != 0 || it.Start() != 0 || it.End() != 0 {
			return fmt.Errorf("%v: empty input has a token", o)
		}
		it.Reset()
		if it.Next() {
			return fmt.Errorf("%v: empty input has a token after Reset", o)
		}
		for _, eof := range []bool{false, true} {
			adv, tok, err := splitFunc(o.pkg)(b, eof)
			if adv != 0 || tok != nil || err != nil {
				return fmt.Errorf("%v: split function of nothing: %d %q %v", o, adv, tok, err)
			}
		}
	}
	it := iterString(o, "")
	if it.First() != "" || it.Next() || it.Value() != "" || it.Start() != 0 || it.End() != 0 {
		return fmt.Errorf("%v: empty string has a token", o)
	}
	sc := scanner(o, strings.NewReader(""))
	if sc.Scan() || sc.Err() != nil {
		return fmt.Errorf("%v: empty reader has a token", o)
	}
	w.Evals(6)
	return nil
}

func losslessSubs(tier string) []*eng.Sub {
	scale := int64(1)
	depth := 4
	if tier == "thorough" {
		scale, depth = 12, 5
	}
	ao := allOpts()
	// the fragments of gen.ByteAtoms, by all options
	nseq := gen.SeqCount(len(gen.ByteAtoms), depth-1)
	var lead []string // every byte that matters to decoding on its own
	for _, b := range []byte{'a', ' ', '.', '\r', 0x1B, 0x80, 0x8D, 0x9B, 0x9D, 0x9F, 0xA4, 0xBF, 0xC1, 0xC2, 0xCC, 0xE0, 0xE2, 0xED, 0xF0, 0xF4, 0xF5, 0xFF} {
		lead = append(lead, string([]byte{b}))
	}
	nlead := gen.SeqCount(len(lead), depth)
	pickOpts := func(c *eng.Case, i int64) {
		o := ao[i%int64(len(ao))]
		c.Pkg, c.A7, c.A8, c.J, c.Lead, c.Mid = o.Pkg, o.A7, o.A8, o.J, o.Lead, o.Mid
	}
	rule := "non-trivial: the bytes are not valid UTF-8, or an option or joiner is on"
	return []*eng.Sub{
		hugeLossless(tier),
		{Name: "empty", Enum: true, Full: true, N: int64(len(ao)), Rule: "empty input, by all entry points and options",
			Gen:   func(r *eng.Rng, i int64) *eng.Case { c := &eng.Case{}; pickOpts(c, i); return c },
			Check: checkEmpty},
		{Name: "fragments", Enum: true, Full: true, N: nseq * int64(len(ao)),
			Rule: fmt.Sprintf("every sequence of 1..%d of %d byte fragments (ASCII, continuation, lead, truncated, overlong, surrogate, out of range, whole characters) for %d option settings; %s", depth-1, len(gen.ByteAtoms), len(ao), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{Text: gen.Seq(gen.ByteAtoms, i/int64(len(ao)), nil), Ints: []int{1}}
				pickOpts(c, i)
				return c
			}, Check: checkLossless},
		{Name: "bytes", Enum: true, Full: true, N: nlead * int64(len(ao)),
			Rule: fmt.Sprintf("every sequence of 1..%d of %d single bytes for %d option settings; %s", depth, len(lead), len(ao), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{Text: gen.Seq(lead, i/int64(len(ao)), nil), Ints: []int{2}}
				pickOpts(c, i)
				return c
			}, Check: checkLossless},
		{Name: "random", N: 5000000 * scale,
			Rule: "random valid, damaged and random bytes with random package, options and joiners (any runes), random read sizes; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				drawOpts(r, c, true)
				c.Text = spice(r, c, gen.Bytes(r, c.Pkg, 40))
				c.Ints = drawChunks(r)
				return c
			}, Check: checkLossless},
		{Name: "long", N: 6000 * scale,
			Rule: "as random, but concatenations of up to 100 pieces, and runs of one unit up to 65537 long, also between what a rule looks for; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				drawOpts(r, c, true)
				if r.P(4) {
					c.Text = drawStretched(r, c)
				} else if r.P(3) {
					u := eng.Pick(r, gen.ByteAtoms)
					if r.Bool() {
						u += eng.Pick(r, gen.ByteAtoms)
					}
					n := gen.Len(r, runLens)
					if r.P(10) {
						n = gen.Len(r, bigLens[:12])
					}
					c.Text = repeat([]byte(eng.Pick(r, gen.ByteAtoms)), u, n)
				} else {
					for k := r.In(2, 100); k > 0; k-- {
						c.Text = append(c.Text, spice(r, c, gen.Bytes(r, c.Pkg, 40))...)
					}
				}
				c.Ints = drawChunks(r)
				if len(c.Text) > 5000 {
					// a scanner tries again after every read: keep the reads large
					if len(c.Ints) > 0 {
						c.Ints = append([]int{1, 2}, c.Ints...)
					}
					for i := range c.Ints {
						c.Ints[i] += len(c.Text) / 50
					}
				}
				return c
			}, Check: checkLossless},
	}
}

func drawStretched(r *eng.Rng, c *eng.Case) []byte {
	b := gen.Stretched(r, c.Pkg, eng.Pick(r, []int{300, 3000, 9000, 65537}))
	if r.Bool() {
		b = gen.Damage(r, b)
	}
	return spice(r, c, b)
}

func drawChunks(r *eng.Rng) []int {
	switch r.N(5) {
	case 0:
		return nil
	case 1:
		return []int{1}
	case 2:
		return []int{r.In(1, 8)}
	}
	var s []int
	for k := r.In(1, 8); k > 0; k-- {
		switch r.N(8) {
		case 0:
			s = append(s, 0)
		case 1:
			s = append(s, r.In(1, 5000))
		default:
			s = append(s, r.In(1, 12))
		}
	}
	return s
}

// C06

func checkStringBytes(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	o := caseOpts(c)
	if !utf8.Valid(c.Text) {
		w.Label("invalid-utf8")
	}
	w.Label(gen.PkgNames[o.pkg])
	_, s := x.surround(c.Text, 0)
	text, _ := x.surround(c.Text, 1)
	a, b := iterString(o, s), iterBytes(o, text)
	if f, g := a.First(), b.First(); f != string(g) {
		return fmt.Errorf("%v: First is %q as a string and %q as bytes", o, f, g)
	}
	n := 0
	for {
		p, q := a.Next(), b.Next()
		if p != q {
			return fmt.Errorf("%v: token %d: Next is %v for the string and %v for the bytes", o, n, p, q)
		}
		if a.Start() != b.Start() || a.End() != b.End() || a.Value() != string(b.Value()) {
			return fmt.Errorf("%v: token %d: string %q [%d,%d), bytes %q [%d,%d)", o, n, a.Value(), a.Start(), a.End(), b.Value(), b.Start(), b.End())
		}
		if !p {
			break
		}
		if n++; n > len(s) {
			return fmt.Errorf("%v: more tokens than bytes", o)
		}
	}
	if n > 1 {
		w.NonTrivial()
	}
	// First agrees at every later start too
	if len(s) <= 64 {
		a, b = iterString(o, s), iterBytes(o, text)
		for i := 1; i < len(s); i++ {
			a.SetText(s[i:])
			b.SetText(text[i:])
			if f, g := a.First(), b.First(); f != string(g) {
				return fmt.Errorf("%v: First of the text from %d is %q as a string and %q as bytes", o, i, f, g)
			}
		}
	}
	w.Evals(2)
	x.buf = x.buf[:0]
	return nil
}

type myString string
type myBytes []byte

// checkNamed: joiners and iterators over named string and byte types, which
// the API allows for words through Iterator and Joiners.
func checkNamed(w *eng.W, c *eng.Case) error {
	o := caseOpts(c)
	o.pkg = gen.Words
	plain := words.FromString(string(c.Text))
	plain.Joiners(joiners[string](o))
	var n words.Iterator[myString]
	n.SetText(myString(c.Text))
	n.Joiners(joiners[myString](o))
	var m words.Iterator[myBytes]
	m.SetText(myBytes(c.Text))
	m.Joiners(joiners[myBytes](o))
	k := 0
	for {
		p, q, r := plain.Next(), n.Next(), m.Next()
		if p != q || p != r || plain.Start() != n.Start() || plain.End() != n.End() || plain.Start() != m.Start() || plain.End() != m.End() {
			return fmt.Errorf("named types, %v: token %d of %q: string [%d,%d) named string [%d,%d) named bytes [%d,%d)", o, k, c.Text, plain.Start(), plain.End(), n.Start(), n.End(), m.Start(), m.End())
		}
		if !p {
			break
		}
		if k++; k > len(c.Text) {
			return fmt.Errorf("named types: more tokens than bytes")
		}
	}
	if k > 1 {
		w.NonTrivial()
	}
	w.Evals(3)
	return nil
}

func stringBytesSubs(tier string) []*eng.Sub {
	scale := int64(1)
	depth := 4
	if tier == "thorough" {
		scale, depth = 12, 5
	}
	ao := allOpts()
	pickOpts := func(c *eng.Case, i int64) {
		o := ao[i%int64(len(ao))]
		c.Pkg, c.A7, c.A8, c.J, c.Lead, c.Mid = o.Pkg, o.A7, o.A8, o.J, o.Lead, o.Mid
	}
	no := int64(len(ao))
	rule := "non-trivial: more than one token"
	subs := []*eng.Sub{
		{Name: "fragments", Enum: true, Full: true, N: gen.SeqCount(len(gen.ByteAtoms), depth-1) * no,
			Rule: fmt.Sprintf("every sequence of 1..%d of %d byte fragments, %d option settings; %s", depth-1, len(gen.ByteAtoms), no, rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{Text: gen.Seq(gen.ByteAtoms, i/no, nil)}
				pickOpts(c, i)
				return c
			}, Check: checkStringBytes},
		{Name: "code-points", Enum: true, Full: true, N: gen.NumRunes * 4,
			Rule: "every Unicode scalar value between letters, digits, marks and cut off after each byte, four packages; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				var b []byte
				ch := string(gen.RuneAt(i / 4))
				for _, x := range []string{"a", "1", ".", "\u0301", "\u05d0", "\u30a2"} {
					b = append(b, x...)
					b = append(b, ch...)
					b = append(b, x...)
				}
				b = append(b, '\n')
				for k := 1; k < len(ch); k++ {
					b = append(b, ch[:k]...)
					b = append(b, 'a')
				}
				b = append(b, ch[:len(ch)-1]...)
				return &eng.Case{Text: b, Pkg: int(i % 4)}
			},
			Check: checkStringBytes},
		{Name: "random", N: 2000000 * scale,
			Rule: "random valid, damaged and random bytes, random package, options and joiners; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				drawOpts(r, c, true)
				c.Text = spice(r, c, gen.Bytes(r, c.Pkg, 40))
				return c
			}, Check: checkStringBytes},
		{Name: "long", N: 6000 * scale,
			Rule: "as random, concatenations of up to 100 pieces, and a few atoms with long runs between; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				drawOpts(r, c, true)
				if r.P(4) {
					c.Text = drawStretched(r, c)
					return c
				}
				for k := r.In(2, 100); k > 0; k-- {
					c.Text = append(c.Text, spice(r, c, gen.Bytes(r, c.Pkg, 60))...)
				}
				return c
			}, Check: checkStringBytes},
		{Name: "named-types", N: 200000 * scale,
			Rule: "words iterators with joiners over named string and byte types against plain strings; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				drawJoiners(r, c, true)
				c.J = 1
				c.Text = spice(r, c, gen.Bytes(r, gen.Words, 30))
				return c
			}, Check: checkNamed},
	}
	for pkg := 0; pkg < 4; pkg++ {
		pkg := pkg
		atoms := gen.Atoms(pkg)
		l := depth
		for gen.SeqCount(len(atoms), l) > 3e7 {
			l--
		}
		subs = append(subs, &eng.Sub{Name: "sequences-" + gen.PkgNames[pkg], Enum: true, Full: true,
			Rule: fmt.Sprintf("every sequence of 1..%d of the package's %d atoms; %s", l, len(atoms), rule),
			N:    gen.SeqCount(len(atoms), l),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				return &eng.Case{Text: gen.Seq(atoms, i, nil), Pkg: pkg}
			}, Check: checkStringBytes})
	}
	return subs
}

func init() {
	register(&eng.Prop{ID: "C05", Subs: guided(losslessSubs, -1, 24000, 120), NewCtx: newCtx})
	register(&eng.Prop{ID: "C06", Subs: guided(stringBytesSubs, -1, 24000, 120), NewCtx: newCtx})
}
