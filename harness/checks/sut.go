// Package checks states each property as an executable check.
package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"io"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
	"github.com/clipperhouse/uax29/v2/zverif/ref"
)

// iter is what every iterator of the packages offers.
type iter[T ~string | ~[]byte] interface {
	Next() bool
	Value() T
	Start() int
	End() int
	Reset()
	SetText(T)
	First() T
}

// opts are the settings of an iterator.
type opts struct {
	pkg       int
	a7, a8    bool
	j         int
	lead, mid []rune
}

func caseOpts(c *eng.Case) opts {
	return opts{c.Pkg, c.A7, c.A8, c.J, c.Lead, c.Mid}
}

func (o opts) String() string {
	s := gen.PkgNames[o.pkg]
	if o.a7 {
		s += " ansi7"
	}
	if o.a8 {
		s += " ansi8"
	}
	if o.j == 1 {
		s += fmt.Sprintf(" joiners(leading %q middle %q)", string(o.lead), string(o.mid))
	}
	if o.j == 2 {
		s += " joiners(nil)"
	}
	return s
}

func joiners[T ~string | ~[]byte](o opts) *words.Joiners[T] {
	if o.j == 2 {
		return nil
	}
	return &words.Joiners[T]{Leading: o.lead, Middle: o.mid}
}

func iterString(o opts, s string) iter[string] {
	switch o.pkg {
	case gen.Graphemes:
		it := graphemes.FromString(s)
		it.AnsiEscapeSequences, it.AnsiEscapeSequences8Bit = o.a7, o.a8
		return it
	case gen.Words:
		it := words.FromString(s)
		if o.j != 0 {
			if len(o.mid)&1 == 1 { // not the first: the last ones count
				it.Joiners(&words.Joiners[string]{Middle: []rune{'*', 'a'}, Leading: []rune{'#', ' '}})
			}
			it.Joiners(joiners[string](o))
		}
		return it
	case gen.Sentences:
		return sentences.FromString(s)
	}
	return phrases.FromString(s)
}

func iterBytes(o opts, b []byte) iter[[]byte] {
	switch o.pkg {
	case gen.Graphemes:
		it := graphemes.FromBytes(b)
		it.AnsiEscapeSequences, it.AnsiEscapeSequences8Bit = o.a7, o.a8
		return it
	case gen.Words:
		it := words.FromBytes(b)
		if o.j != 0 {
			it.Joiners(joiners[[]byte](o))
		}
		return it
	case gen.Sentences:
		return sentences.FromBytes(b)
	}
	return phrases.FromBytes(b)
}

func splitFunc(pkg int) bufio.SplitFunc {
	switch pkg {
	case gen.Graphemes:
		return graphemes.SplitFunc
	case gen.Words:
		return words.SplitFunc
	case gen.Sentences:
		return sentences.SplitFunc
	}
	return phrases.SplitFunc
}

// tokenScanner is what a scanner of any package offers.
type tokenScanner interface {
	Scan() bool
	Bytes() []byte
	Text() string
	Err() error
	Buffer([]byte, int)
}

func scanner(o opts, r io.Reader) tokenScanner {
	switch o.pkg {
	case gen.Graphemes:
		return graphemes.FromReader(r)
	case gen.Words:
		sc := words.FromReader(r)
		if o.j != 0 {
			if len(o.mid)&1 == 1 { // not the first: the last ones count
				sc.Joiners(&words.Joiners[[]byte]{Middle: []rune{'*', 'a'}, Leading: []rune{'#', ' '}})
			}
			sc.Joiners(joiners[[]byte](o))
		}
		return sc
	case gen.Sentences:
		return sentences.FromReader(r)
	}
	return phrases.FromReader(r)
}

// ctx is a worker's scratch.
type ctx struct {
	seg  *ref.Seg
	x    ref.Text
	ends []int
	want []int
	buf  []byte
	big  []byte
	mem  []byte
}

func newCtx() any { return &ctx{seg: ref.NewSeg(gen.Table())} }

func scratch(w *eng.W) *ctx { return w.Ctx.(*ctx) }

// refEnds computes the token ends by the reference.
func (c *ctx) refEnds(o opts, b []byte) []int {
	c.want = c.want[:0]
	if len(b) == 0 {
		return c.want
	}
	if o.pkg == gen.Graphemes && (o.a7 || o.a8) {
		c.want = c.seg.AnsiEnds(b, o.a7, o.a8, &c.x, c.want)
		return c.want
	}
	c.x.Decode(b)
	var bnd []bool
	switch {
	case o.pkg == gen.Graphemes:
		bnd = c.seg.Graphemes(c.x.R)
	case o.pkg == gen.Words && o.j == 1:
		bnd = c.seg.Joiners(c.x.R, o.lead, o.mid)
	case o.pkg == gen.Words:
		bnd = c.seg.Words(c.x.R)
	case o.pkg == gen.Sentences:
		bnd = c.seg.Sentences(c.x.R)
	default:
		bnd = c.seg.Phrases(c.x.R)
	}
	for i := 1; i < len(c.x.R); i++ {
		if bnd[i] {
			c.want = append(c.want, int(c.x.Off[i]))
		}
	}
	c.want = append(c.want, len(b))
	return c.want
}

// collect walks an iterator to its end and returns the token ends. It fails
// when the tokens are not a contiguous partition of data into non-empty
// slices, whose Value, Start and End agree.
func collect[T ~string | ~[]byte](it iter[T], data T, ends []int) ([]int, error) {
	pos := 0
	for it.Next() {
		if len(ends) > len(data) {
			return ends, fmt.Errorf("more tokens than bytes")
		}
		s, e := it.Start(), it.End()
		if s != pos {
			return ends, fmt.Errorf("token %d starts at %d, the one before ended at %d", len(ends), s, pos)
		}
		if e <= s || e > len(data) {
			return ends, fmt.Errorf("token %d spans [%d,%d) of %d bytes", len(ends), s, e, len(data))
		}
		if v := it.Value(); string(v) != string(data[s:e]) {
			return ends, fmt.Errorf("token %d is %q, but the text at [%d,%d) is %q", len(ends), v, s, e, data[s:e])
		}
		ends = append(ends, e)
		pos = e
	}
	if pos != len(data) {
		return ends, fmt.Errorf("tokens end at %d of %d bytes", pos, len(data))
	}
	if it.Next() {
		return ends, fmt.Errorf("Next is true again after the end")
	}
	return ends, nil
}

// collectSplit applies a split function repeatedly to the rest of data, at
// end of input.
func collectSplit(f bufio.SplitFunc, data []byte, ends []int) ([]int, error) {
	pos := 0
	for pos < len(data) {
		adv, tok, err := f(data[pos:], true)
		if err != nil {
			return ends, fmt.Errorf("split function at %d: error %v", pos, err)
		}
		if adv <= 0 || pos+adv > len(data) {
			return ends, fmt.Errorf("split function at %d of %d: advance %d", pos, len(data), adv)
		}
		if !bytes.Equal(tok, data[pos:pos+adv]) {
			return ends, fmt.Errorf("split function at %d: token %q, advance %d over %q", pos, tok, adv, data[pos:pos+adv])
		}
		pos += adv
		ends = append(ends, pos)
	}
	return ends, nil
}

func sameEnds(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// show writes the tokens near the first difference.
func show(data []byte, ends []int) string {
	var b bytes.Buffer
	pos := 0
	for i, e := range ends {
		if i > 0 {
			b.WriteString(" | ")
		}
		if e > len(data) || e < pos {
			fmt.Fprintf(&b, "<bad end %d>", e)
			break
		}
		fmt.Fprintf(&b, "%+q", data[pos:e])
		pos = e
		if b.Len() > 400 {
			b.WriteString(" ...")
			break
		}
	}
	return b.String()
}

func diffEnds(what string, data []byte, got, want []int) error {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	from := 0
	if i > 3 && len(data) > 200 {
		from = i - 3
	}
	off := 0
	if from > 0 {
		off = got[from-1]
	}
	shift := func(e []int) []int {
		var o []int
		for _, v := range e[min(from, len(e)):] {
			o = append(o, v-off)
		}
		return o
	}
	return fmt.Errorf("%s: token %d differs (offset %d)\n got  %s\n want %s", what, i, off, show(data[off:], shift(got)), show(data[off:], shift(want)))
}

// what lies in memory before and after a text: nothing of it counts, but all
// of it would change tokens if it did.
var (
	before = []string{"\u0600", "\r", "\u2640\u200d", "a.", "\x1b[", "\u0915\u094d", "\x9b", "\u05d0\"", "\U0001F1E6", "\xf0\x9f", "\u1100", "1_"}
	after  = []string{"\u0301\u0301", "\n\n", "aaaaaaaaaaaa", "\u200d\u2640", "\xbf\xbf\xbf", "mm", "\x1b\\\\", "\x07", "\x9c\x9c", "\u094d\u0915", "\U0001F1E6", "\u1161", ".a", ",1", "_1", "  ", "\u05d0", "\u30a2"}
)

// surround puts a text in memory between other things, as bytes with those
// after it within the capacity, and as a part of a larger string. The bytes
// are good until the next call.
func (c *ctx) surround(text []byte, k int) ([]byte, string) {
	n := len(text)
	k += n
	if n > 0 {
		k += int(text[0])*5 + int(text[n-1])*3
	}
	p := before[k%len(before)]
	c.mem = append(append(append(c.mem[:0], p...), text...), after[k%len(after)]...)
	return c.mem[len(p) : len(p)+n], string(c.mem)[len(p) : len(p)+n]
}

// agree checks the string iterator, the byte iterator and (without options)
// the split function against expected ends.
func (c *ctx) agree(w *eng.W, o opts, text []byte, want []int) error {
	text, s := c.surround(text, 0)
	var err error
	c.ends, err = collect(iterBytes(o, text), text, c.ends[:0])
	if err != nil {
		return fmt.Errorf("%v FromBytes: %w", o, err)
	}
	if !sameEnds(c.ends, want) {
		return diffEnds(fmt.Sprintf("%v FromBytes", o), text, c.ends, want)
	}
	c.ends, err = collect(iterString(o, s), s, c.ends[:0])
	if err != nil {
		return fmt.Errorf("%v FromString: %w", o, err)
	}
	if !sameEnds(c.ends, want) {
		return diffEnds(fmt.Sprintf("%v FromString", o), text, c.ends, want)
	}
	w.Evals(2)
	if !o.a7 && !o.a8 && o.j == 0 {
		c.ends, err = collectSplit(splitFunc(o.pkg), text, c.ends[:0])
		if err != nil {
			return fmt.Errorf("%v SplitFunc: %w", o, err)
		}
		if !sameEnds(c.ends, want) {
			return diffEnds(fmt.Sprintf("%v SplitFunc", o), text, c.ends, want)
		}
		w.Evals(1)
	}
	return nil
}
