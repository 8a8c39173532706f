//go:build c18

package checks

import (
	"fmt"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"github.com/clipperhouse/uax29/v2/internal/iterators"
	"github.com/clipperhouse/uax29/v2/internal/iterators/filter"
	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
)

// C18: the internal iterator (histories as in hist.go) and the filter. Only
// this check is built with the internal packages.

// C18: the internal generic iterator.
func checkGeneric(w *eng.W, c *eng.Case) error {
	text := []byte(c.Text)
	m := &histModel{text: text, last: true, prog: &splitProg{adv: c.Ints, salt: c.J, fault: c.Str, at: c.N}}
	m.log = &callLog{text: string(text)}
	switch c.Pkg {
	case 0:
		it := iterators.New(iterators.SplitFunc[string](progFunc[string](m.prog, m.log)), string(text))
		return runHist[string](w, c, it, string(text), setters[string]{split: func(f func(string, bool) (int, string, error)) { it.Split(f) }}, m, toString)
	case 1:
		cur := toBytes(text)
		it := iterators.New(iterators.SplitFunc[[]byte](progFunc[[]byte](m.prog, m.log)), cur)
		return runHist[[]byte](w, c, it, cur, setters[[]byte]{split: func(f func([]byte, bool) (int, []byte, error)) { it.Split(f) }}, m, toBytes)
	case 2:
		it := iterators.New(iterators.SplitFunc[myString](progFunc[myString](m.prog, m.log)), myString(text))
		return runHist[myString](w, c, it, myString(text), setters[myString]{split: func(f func(myString, bool) (int, myString, error)) { it.Split(f) }}, m, func(b []byte) myString { return myString(b) })
	}
	cur := myBytes(toBytes(text))
	it := iterators.New(iterators.SplitFunc[myBytes](progFunc[myBytes](m.prog, m.log)), cur)
	return runHist[myBytes](w, c, it, cur, setters[myBytes]{split: func(f func(myBytes, bool) (int, myBytes, error)) { it.Split(f) }}, m, func(b []byte) myBytes { return toBytes(b) })
}

// alphaNumeric from general categories, through the range tables.
func alphaNumeric(b []byte) bool {
	for _, r := range string(b) { // invalid bytes give U+FFFD, a symbol
		if unicode.In(r, unicode.L, unicode.N) {
			return true
		}
	}
	return false
}

func checkFilter(w *eng.W, c *eng.Case) error {
	want := alphaNumeric(c.Text)
	if !want || len(c.Text) > 1 {
		w.NonTrivial()
	}
	if want {
		w.Label("alphanumeric")
	}
	w.Evals(1)
	if g := filter.AlphaNumeric(c.Text); g != want {
		return fmt.Errorf("AlphaNumeric(%+q) is %v, want %v", []byte(c.Text), g, want)
	}
	return nil
}

func genericSubs(tier string) []*eng.Sub {
	scale := int64(1)
	if tier == "thorough" {
		scale = 15
	}
	rule := "non-trivial: longer than a byte, or not alphanumeric"
	soup := append(append([]string(nil), gen.ByteAtoms...), "\u00b2", "\u2160", "\u0661", "\u6f22", "\u200b", "-", "\u3007", "\U0001D7CE", "\u0345")
	depth := 4
	return append(progSubs(checkGeneric, 4, true)(tier),
		hugeSplits(func(c *eng.Case, b []byte) error {
			if c.J == 0 {
				it := iterators.New(nil, b)
				return hugeWalk[[]byte](it, func(f func([]byte, bool) (int, []byte, error)) { it.Split(f) }, b, c.Ints)
			}
			s := unsafe.String(&b[0], len(b))
			it := iterators.New(nil, s)
			return hugeWalk[string](it, func(f func(string, bool) (int, string, error)) { it.Split(f) }, s, c.Ints)
		}),
		&eng.Sub{Name: "filter-code-points", Enum: true, Full: true, N: gen.NumRunes * 4,
			Rule: "every Unicode scalar value alone, before and after punctuation, and after an incomplete character; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				s := string(gen.RuneAt(i / 4))
				switch i % 4 {
				case 1:
					s = "-" + s
				case 2:
					s += "\u3000."
				case 3:
					s = "\xe2\x80" + s
				}
				return &eng.Case{Text: eng.Bytes(s)}
			}, Check: checkFilter},
		&eng.Sub{Name: "filter-bytes", Enum: true, Full: true, N: gen.SeqCount(len(soup), depth),
			Rule: fmt.Sprintf("every sequence of 1..%d of %d byte fragments and characters; %s", depth, len(soup), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				return &eng.Case{Text: gen.Seq(soup, i, nil)}
			}, Check: checkFilter},
		&eng.Sub{Name: "filter-random", N: 2000000 * scale,
			Rule: "random bytes and texts, most without letters and numbers until late; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				if r.P(3) {
					return &eng.Case{Text: gen.Bytes(r, -1, 20)}
				}
				var b []byte
				for k := r.In(0, 40); k > 0; k-- {
					c := gen.Rune(r, -1)
					if unicode.IsLetter(c) || unicode.IsNumber(c) {
						c = '-'
					}
					b = utf8.AppendRune(b, c)
				}
				if r.Bool() {
					b = append(b, gen.Bytes(r, -1, 1)...)
				}
				return &eng.Case{Text: b}
			}, Check: checkFilter},
		&eng.Sub{Name: "filter-long", N: 20000 * scale,
			Rule: "long tokens (up to 70,000 characters) without letters and numbers, with one at the end in every other; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				var b []byte
				n := gen.Len(r, runLens)
				if r.P(8) {
					n = gen.Len(r, bigLens)
				}
				var us []string
				for k := r.In(1, 3); k > 0; k-- {
					us = append(us, eng.Pick(r, []string{"-", "\u0301", "\u3000", "\U0001F600", "\xff", "\xe2\x80", "_", "\u200d", " "}))
				}
				for k := 0; k < n; k++ {
					b = append(b, us[k%len(us)]...)
				}
				if r.Bool() {
					if r.P(3) {
						b = utf8.AppendRune(b, gen.Rune(r, -1))
					} else {
						b = append(b, eng.Pick(r, []string{"a", "7", "\u00e9", "\u0661", "\u6f22", "\u2160", "\u00b2", "\U0001D7CE", "\u3007"})...)
					}
					b = append(b, eng.Pick(r, us)...)
				}
				return &eng.Case{Text: b}
			}, Check: checkFilter})
}

func init() {
	register(&eng.Prop{ID: "C18", Subs: guided(genericSubs, gen.Words, 24000, 120), NewCtx: newCtx})
}
