package checks

import (
	"bytes"
	"fmt"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
	"github.com/clipperhouse/uax29/v2/zverif/ref"
)

// C09, C10: escape sequences as single tokens.

// validANSI: outside of the sequences, valid UTF-8, except that raw bytes
// 80..9F may stand between characters, where they cannot be taken for a part
// of one. (Each raw byte decodes on its own, so it is enough that every invalid
// byte is in 80..9F.) Inside of control strings, any bytes.
func validANSI(c *eng.Case) bool {
	return outside(c.Text, c.A7, c.A8, nil)
}

// outside calls drop with each byte outside the domain (and, if drop is nil,
// stops at the first), and tells whether there was none.
func outside(b []byte, a7, a8 bool, drop func(i int)) bool {
	ok := true
	for i := 0; i < len(b); {
		n := 0
		if a7 {
			n = ref.Seq7(b[i:])
		}
		if n == 0 && a8 {
			n = ref.Seq8(b[i:])
		}
		if n == 0 {
			var r rune
			r, n = utf8.DecodeRune(b[i:])
			if r == utf8.RuneError && n == 1 && (b[i] < 0x80 || b[i] > 0x9F) {
				if drop == nil {
					return false
				}
				drop(i)
				ok = false
			}
		}
		i += n
	}
	return ok
}

func checkAnsi(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	o := caseOpts(c)
	o.pkg = gen.Graphemes
	text := []byte(c.Text)
	want := x.refEnds(o, text)
	// classes
	n7, n8 := 0, 0
	p := 0
	for _, e := range want {
		if o.a7 && ref.Seq7(text[p:]) == e-p && text[p] == 0x1B {
			n7++
		} else if o.a8 && text[p] >= 0x80 && text[p] <= 0x9F && ref.Seq8(text[p:]) == e-p {
			n8++
		}
		p = e
	}
	if n7 > 0 {
		w.Label("has-7bit")
	}
	if n8 > 0 {
		w.Label("has-8bit")
	}
	if n7+n8 > 0 {
		w.NonTrivial()
	} else if bytes.IndexByte(text, 0x1B) >= 0 {
		w.Label("esc-but-no-sequence")
	}
	if err := x.agree(w, o, text, want); err != nil {
		return err
	}
	// First is the first token, at the start and from each boundary on
	s := string(text)
	p = 0
	for i, e := range want {
		if i > 8 {
			break
		}
		if f := iterString(o, s[p:]).First(); f != s[p:e] {
			return fmt.Errorf("%v: First of %+q is %+q, want %+q", o, s[p:], f, s[p:e])
		}
		p = e
	}
	return nil
}

// checkAnsiAny: on any bytes, the tokens with the 7-bit option on are those
// with it off of the same text where each sequence is replaced by a control,
// which is a hard boundary and a token too.
func checkAnsiAny(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	text := []byte(c.Text)
	var plain []byte
	type span struct{ at, n int } // of a sequence: where its stand-in is, and its length
	var spans []span
	for i := 0; i < len(text); {
		if n := ref.Seq7(text[i:]); n > 0 {
			spans = append(spans, span{len(plain), n})
			plain = append(plain, 0x01)
			i += n
			continue
		}
		plain = append(plain, text[i])
		i++
	}
	for k := 1; k <= 3 && k <= len(plain); k++ {
		if b := plain[len(plain)-k]; b >= 0xF0 && k < 4 || b >= 0xE0 && k < 3 || b >= 0xC0 && k < 2 {
			// What follows an incomplete character right at the end can't be
			// told from its rest; the documentation leaves invalid UTF-8 open.
			w.Label("incomplete-at-end")
			return nil
		}
	}
	ends, err := collect(iterBytes(opts{}, plain), plain, nil)
	if err != nil {
		return err
	}
	var want []int
	shift := 0
	for _, e := range ends {
		if len(spans) > 0 && spans[0].at == e-1 {
			shift += spans[0].n - 1
			spans = spans[1:]
			w.NonTrivial()
		}
		want = append(want, e+shift)
	}
	if len(spans) > 0 {
		return fmt.Errorf("no token ends with the control at %d of %+q", spans[0].at, plain)
	}
	return x.agree(w, opts{a7: true}, text, want)
}

// checkAnsiOff: with the option off, or with no byte that could start a
// sequence, nothing changes; the two options act independently.
func checkAnsiOff(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	text := []byte(c.Text)
	plain := append([]int(nil), x.refEnds(opts{}, text)...)
	if err := x.agree(w, opts{}, text, plain); err != nil {
		return err
	}
	if bytes.IndexByte(text, 0x1B) < 0 {
		w.NonTrivial()
		if err := x.agree(w, opts{a7: true}, text, plain); err != nil {
			return fmt.Errorf("no ESC in the text: %w", err)
		}
	}
	// valid UTF-8 has no raw C1 bytes between characters
	if utf8.Valid(text) {
		w.NonTrivial()
		if err := x.agree(w, opts{a8: true}, text, plain); err != nil {
			return fmt.Errorf("no raw C1 in the text: %w", err)
		}
		a7 := append([]int(nil), x.refEnds(opts{a7: true}, text)...)
		if err := x.agree(w, opts{a7: true, a8: true}, text, a7); err != nil {
			return fmt.Errorf("no raw C1 in the text: %w", err)
		}
	}
	return nil
}

var ansiAtoms7 = []string{
	"\x1b", "[", "]", "P", "X", "^", "_", "\\", "\x07", "\x18", "\x1a", "0", "?", " ", "/", "m", "@", "~", "\x7f", "\x1f", "c", "\r", "\n", "\u0301", "\u00e9", "\u200d", "\u0600", "\x9c", "\x9b",
}

var ansiAtoms8 = []string{
	"\x9b", "\x9d", "\x90", "\x98", "\x9e", "\x9f", "\x9c", "\x80", "\x85", "\x1b", "\\", "[", "\x07", "\x18", "\x1a", "0", " ", "m", "~", "\x7f", "\x1f", "\r", "\n", "\u0301", "\u00e9", "\u0600", "\u009b", "\u200d",
}

func ansiText(r *eng.Rng, bits int) []byte {
	var b []byte
	for k := r.In(1, 5); k > 0; k-- {
		switch r.N(5) {
		case 0:
			b = append(b, gen.Text(r, gen.Graphemes, 6)...)
		case 1:
			atoms := ansiAtoms7
			if bits == 8 {
				atoms = ansiAtoms8
			}
			for j := r.In(1, 8); j > 0; j-- {
				b = append(b, eng.Pick(r, atoms)...)
			}
		case 2:
			b = append(b, EscSeq(r)...)
		case 3:
			// a string sequence with a body that has every other terminator in it
			if bits == 7 {
				b = append(b, 0x1B, eng.Pick(r, []byte("]PX^_")))
			} else {
				b = append(b, eng.Pick(r, []byte{0x9D, 0x90, 0x98, 0x9E, 0x9F}))
			}
			for j := r.Geo(3); j > 0; j-- {
				b = append(b, eng.Pick(r, []string{"\x07", "\x9c", "\x1b\\", "\x1b", "a", "\u00e9", "\x1b[", "\u009c", "\\", "\x1b]", "\x9d", "\n", "1;2", "\xe9", "\xc3", "\xf0\x9f", "\xff"})...)
			}
			b = append(b, eng.Pick(r, []string{"\x1b\\", "\x9c", "\x07", "\x18", "\x1a", ""})...)
		default:
			b = append(b, gen.Text(r, gen.Graphemes, 3)...)
			if bits == 7 {
				b = append(b, 0x1B)
			} else {
				b = append(b, byte(r.In(0x80, 0x9F)))
			}
		}
	}
	return b
}

func ansiSubs(bits int) func(tier string) []*eng.Sub {
	return func(tier string) []*eng.Sub {
		scale := int64(1)
		depth := 5
		if tier == "thorough" {
			scale, depth = 15, 6
		}
		atoms := ansiAtoms7
		start := "\x1b"
		if bits == 8 {
			atoms = ansiAtoms8
		}
		set := func(c *eng.Case, both bool) *eng.Case {
			c.A7 = bits == 7 || both
			c.A8 = bits == 8 || both
			return c
		}
		rule := "non-trivial: the reference finds at least one sequence"
		// A sequence introducer, then every continuation.
		var intro []string
		if bits == 7 {
			for _, s := range []string{"[", "]", "P", "X", "^", "_", " ", "(", "c", "0", ""} {
				intro = append(intro, start+s)
			}
		} else {
			intro = []string{"\x9b", "\x9d", "\x90", "\x98", "\x9e", "\x9f", "\x85"}
		}
		nseq := gen.SeqCount(len(atoms), depth-1)
		openers := []string{"\x1b]", "\x1bP", "\x1bX", "\x1b^", "\x1b_", "\x1b[", "\x1b("}
		if bits == 8 {
			openers = []string{"\x9d", "\x90", "\x98", "\x9e", "\x9f", "\x9b"}
		}
		subs := []*eng.Sub{
			{Name: "sequences", Enum: true, Full: true, N: gen.SeqCount(len(atoms), depth-1) * 2,
				Rule: fmt.Sprintf("every text of 1..%d of %d atoms (introducers, parameter, intermediate, final, terminator, cancel, control, combining, Prepend and raw C1 bytes), with this option alone and both; %s", depth-1, len(atoms), rule),
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					return set(&eng.Case{Text: gen.Seq(atoms, i/2, nil)}, i&1 == 1)
				}, Valid: validANSI, Check: checkAnsi},
			{Name: "introduced", Enum: true, Full: true, N: nseq * int64(len(intro)),
				Rule: fmt.Sprintf("each of %d introducers followed by every text of 1..%d atoms; %s", len(intro), depth-1, rule),
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					n := int64(len(intro))
					return set(&eng.Case{Text: gen.Seq(atoms, i/n, []byte(intro[i%n]))}, false)
				}, Valid: validANSI, Check: checkAnsi},
			{Name: "all-bytes", Enum: true, Full: true, N: 256 * 256 * 6,
				Rule: "an introducer byte and every two bytes, at the end and before text and terminators; " + rule,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					tail := []string{"", "a", "m\x1b\\", "\u0301", "\x07\x9c", "\x18"}[i%6]
					i /= 6
					var b []byte
					if bits == 7 {
						b = append(b, 0x1B)
					} else {
						b = append(b, eng.Pick(r, []byte{0x9B, 0x9D, 0x90, 0x85}))
					}
					b = append(b, byte(i), byte(i>>8))
					c := set(&eng.Case{Text: append(b, tail...)}, r.Bool())
					if !validANSI(c) {
						// keep to the domain: bytes A0..FF as characters
						c.Text = []byte(string([]rune{rune(b[0])}))
						c.Text = append([]byte{b[0]}, string([]rune{rune(byte(i)), rune(byte(i >> 8))})+tail...)
						if b[0] == 0x1B {
							c.Text[0] = 0x1B
						}
					}
					return c
				}, Valid: validANSI, Check: checkAnsi},
			{Name: "strings", Enum: true, Full: true, N: 256 * 256 * int64(len(openers)) * 2,
				Rule: fmt.Sprintf("each of %d openers of a control string, every two bytes, then BEL, ESC backslash, CAN, SUB, 9C and text: UTF-8 or not; at the start of a text and after some; %s", len(openers), rule),
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					var b []byte
					if i&1 == 1 {
						b = append(b, eng.Pick(r, []string{"a", "\u00e9", "\u0600", "\r"})...)
					}
					i /= 2
					b = append(b, openers[i%int64(len(openers))]...)
					i /= int64(len(openers))
					b = append(b, byte(i), byte(i>>8))
					for k := r.N(5); k < 10; k++ {
						b = append(b, []string{"\x07", "\x1b\\", "\x18", "\x1a", "\x9c"}[k%5]...)
					}
					c := set(&eng.Case{Text: append(b, "a\u0301"...)}, r.Bool())
					c.Text = fixANSI(c.Text, c.A7, c.A8)
					return c
				}, Valid: validANSI, Check: checkAnsi},
			{Name: "after-code-points", Enum: true, Full: true, N: gen.NumRunes,
				Rule: "a sequence directly after, inside, and directly before every Unicode scalar value; " + rule,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					ch := string(gen.RuneAt(i))
					var b []byte
					seqs := []string{"\x1b[1m", "\x1b]x" + ch + "\x07", "\x1bP" + ch + "\x1b\\"}
					if bits == 8 {
						seqs = []string{"\x9b1m", "\x9dx" + ch + "\x07", "\x90" + ch + "\x9c", "\x85"}
					}
					for _, s := range seqs {
						b = append(b, ch...)
						b = append(b, s...)
						b = append(b, ch...)
					}
					return set(&eng.Case{Text: b}, r.Bool())
				}, Valid: validANSI, Check: checkAnsi},
			{Name: "random", N: 2500000 * scale,
				Rule: "random mixtures of text, well-formed and broken sequences, bodies with other terminators; " + rule,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					c := set(&eng.Case{Text: ansiText(r, bits)}, r.Bool())
					c.Text = fixANSI(c.Text, c.A7, c.A8)
					return c
				}, Valid: validANSI, Check: checkAnsi},
			{Name: "long", N: 6000 * scale,
				Rule: "long bodies, many parameters and intermediates (up to 70,000 bytes), long clusters before and after a sequence, and long mixtures; " + rule,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					var b []byte
					if r.P(3) {
						// text whose clusters are long, around sequences
						if r.Bool() {
							b = repeat(b, eng.Pick(r, []string{"\u0600", "\u0600\u0301", "\u0600\u06dd", "a\u0301", "\u0301", "\u200d"}), gen.Len(r, runLens))
						} else {
							b = append(b, gen.Stretched(r, gen.Graphemes, 5000)...)
						}
						b = append(b, EscSeq(r)...)
						if r.Bool() {
							b = append(b, gen.Stretched(r, gen.Graphemes, 300)...)
							b = append(b, EscSeq(r)...)
						}
					} else if r.Bool() {
						b = append(b, gen.Text(r, gen.Graphemes, 3)...)
						b = append(b, eng.Pick(r, intro)...)
						n := gen.Len(r, runLens)
						if r.P(8) {
							n = gen.Len(r, bigLens)
						}
						b = repeat(b, eng.Pick(r, []string{"1", " ", ";", "a", "\u00e9", "\x1b", "1;2"}), n)
						b = append(b, eng.Pick(r, []string{"m", "\x1b\\", "\x07", "\x9c", "\x18", " q", ""})...)
						b = append(b, gen.Text(r, gen.Graphemes, 3)...)
					} else {
						for k := r.In(2, 60); k > 0; k-- {
							b = append(b, ansiText(r, bits)...)
						}
					}
					c := set(&eng.Case{Text: b}, r.Bool())
					c.Text = fixANSI(c.Text, c.A7, c.A8)
					return c
				}, Valid: validANSI, Check: checkAnsi},
			{Name: "unaffected", N: 800000 * scale,
				Rule: "texts with the option off, or on without a byte that could start a sequence, or the other option: plain segmentation; non-trivial: no ESC, or no raw C1 byte",
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					var b []byte
					if r.Bool() {
						b = gen.Text(r, -1, 20)
					} else {
						b = ansiText(r, bits)
					}
					if r.Bool() {
						b = bytes.ReplaceAll(b, []byte{0x1B}, []byte("\u009b"))
					}
					return &eng.Case{Text: fixANSI(b, false, false)}
				}, Valid: validANSI, Check: checkAnsiOff},
		}
		if bits == 7 {
			subs = append(subs, &eng.Sub{Name: "any-bytes", N: 600000 * scale,
				Rule: "any bytes, valid UTF-8 or not, against the plain tokens of the text with a control in the place of each sequence; non-trivial: there is a sequence",
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					var b []byte
					for k := r.In(1, 4); k > 0; k-- {
						switch r.N(3) {
						case 0:
							b = append(b, ansiText(r, 7)...)
						case 1:
							b = append(b, EscSeq(r)...)
						default:
							b = append(b, gen.Bytes(r, gen.Graphemes, 6)...)
						}
					}
					return &eng.Case{Text: b}
				}, Check: checkAnsiAny})
		}
		return subs
	}
}

// fixANSI drops the bytes that are outside the domain.
func fixANSI(b []byte, a7, a8 bool) []byte {
	for {
		var d []byte
		from := 0
		if outside(b, a7, a8, func(i int) {
			d = append(d, b[from:i]...)
			from = i + 1
		}) {
			return b
		}
		b = append(d, b[from:]...)
	}
}

func init() {
	pre := func() error { return ref.SelfTest(gen.Table()) }
	register(&eng.Prop{ID: "C09", Subs: guided(ansiSubs(7), gen.Graphemes, 24000, 120), NewCtx: newCtx, Pre: pre})
	register(&eng.Prop{ID: "C10", Subs: guided(ansiSubs(8), gen.Graphemes, 24000, 120), NewCtx: newCtx, Pre: pre})
}
