package checks

import (
	"fmt"
	"sync"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/words"
	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
	"github.com/clipperhouse/uax29/v2/zverif/ref"
)

// C17: the Bleve helpers.

// newHan: Han characters added after Unicode 15; outside the domain.
func newHan(c int32) bool {
	switch {
	case c >= 0x2EBF0 && c <= 0x2EE5D, c >= 0x323B0 && c <= 0x33479, c >= 0x16FF2 && c <= 0x16FF6,
		c >= 0x2B73A && c <= 0x2B73F, c >= 0x2CEA2 && c <= 0x2CEAD:
		return true
	}
	return false
}

func checkBleveToken(w *eng.W, x *ctx, b []byte) error {
	t := x.seg.T
	x.x.Decode(b)
	num := t.BleveNumeric(x.x.R, x.buf[:0])
	ideo := t.BleveIdeographic(x.x.R)
	skip := false
	for _, c := range x.x.R {
		if newHan(c) {
			skip = true
		}
	}
	w.Evals(2)
	b, _ = x.surround(b, 0)
	if g := words.BleveNumeric(b); g != num {
		return fmt.Errorf("BleveNumeric(%+q) is %v, want %v", b, g, num)
	}
	if g := words.BleveIdeographic(b); g != ideo && !skip {
		return fmt.Errorf("BleveIdeographic(%+q) is %v, want %v", b, g, ideo)
	}
	if num {
		w.Label("numeric")
		w.NonTrivial()
	}
	if ideo {
		w.Label("ideographic")
		w.NonTrivial()
	}
	if len(b) > 0 && !num && (b[0] >= '0' && b[0] <= '9' || b[0] == '_') {
		w.NonTrivial() // begins like a number
	}
	return nil
}

func checkBleve(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	return checkBleveToken(w, x, c.Text)
}

// checkBleveWords applies the helpers to the words of a text.
func checkBleveWords(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	it := words.FromBytes(c.Text)
	for it.Next() {
		if err := checkBleveToken(w, x, it.Value()); err != nil {
			return err
		}
	}
	return nil
}

func validBleve(c *eng.Case) bool { return len(c.Text) > 0 && utf8.Valid(c.Text) }

func bleveSubs(tier string) []*eng.Sub {
	scale := int64(1)
	depth := 6
	if tier == "thorough" {
		scale, depth = 20, 7
	}
	rule := "non-trivial: numeric or ideographic by the reference, or beginning with a digit or underscore"
	atoms := []string{"1", "\u0661", "_", "\uff3f", ".", ",", "'", "\u0301", "\u200d", "\u00ad", "a", "\u6f22", "\u3042", "\u30a2", "\u30fc"}
	templates := []string{"%", "1%", "%1", "1%1", "1.%1", "1%.1", "_%", "%_", "1_%1", "1%%1", "\u6f22%", "%\u6f22", "\u6f22%\u30a2", "%%", "1\u0301%", "1%\u03012"}
	return []*eng.Sub{
		{Name: "sequences", Enum: true, Full: true, N: gen.SeqCount(len(atoms), depth),
			Rule: fmt.Sprintf("every token of 1..%d of %d atoms (numbers, connectors, mid-number punctuation, ignorables, a letter, ideographs); %s", depth, len(atoms), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				return &eng.Case{Text: gen.Seq(atoms, i, nil)}
			}, Valid: validBleve, Check: checkBleve},
		{Name: "code-points", Enum: true, Full: true, N: gen.NumRunes * int64(len(templates)),
			Rule: fmt.Sprintf("every Unicode scalar value in %d templates (alone, beside and between numbers, connectors and ideographs); %s", len(templates), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				t := templates[i%int64(len(templates))]
				ch := string(gen.RuneAt(i / int64(len(templates))))
				var b []byte
				for k := 0; k < len(t); k++ {
					if t[k] == '%' {
						b = append(b, ch...)
					} else {
						b = append(b, t[k])
					}
				}
				return &eng.Case{Text: b}
			}, Valid: validBleve, Check: checkBleve},
		{Name: "random", N: 6000000 * scale,
			Rule: "random tokens of 1 to 40 characters from the classes that matter, runs, and near-misses; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				var b []byte
				n := 1 + r.Geo(6)
				if r.P(20) {
					n = r.In(1, 40)
				}
				ideo := r.P(3)
				for k := 0; k < n; k++ {
					var ps []rune
					if r.P(12) {
						b = utf8.AppendRune(b, gen.Rune(r, gen.Words))
						continue
					}
					if ideo && r.P(2) {
						c := gen.RuneAt(int64(r.N(gen.NumRunes)))
						for tries := 0; !gen.Table().IsIdeo(c) && tries < 40; tries++ {
							c = gen.RuneAt(int64(r.N(0x32000)))
						}
						b = utf8.AppendRune(b, c)
						continue
					}
					ps = classPool(eng.Pick(r, []uint8{ref.WNumeric, ref.WNumeric, ref.WNumeric, ref.WExtendNumLet, ref.WMidNum, ref.WMidNumLet, ref.WSQ, ref.WExtend, ref.WFormat, ref.WZWJ, ref.WKatakana}))
					c := eng.Pick(r, ps)
					for j := 1 + r.Geo(2); j > 0; j-- {
						b = utf8.AppendRune(b, c)
					}
				}
				return &eng.Case{Text: b}
			}, Valid: validBleve, Check: checkBleve},
		{Name: "words", N: 500000 * scale,
			Rule: "the words of random texts; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				return &eng.Case{Text: gen.Text(r, gen.Words, 30)}
			}, Valid: validBleve, Check: checkBleveWords},
		{Name: "long", N: 3000 * scale,
			Rule: "long runs of numbers, connectors, punctuation pairs, ignorables and ideographs, with a changed end; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				var b []byte
				b = append(b, eng.Pick(r, []string{"1", "_", "_1", "\u6f22", "\u30a2"})...)
				b = repeat(b, eng.Pick(r, []string{"1", "_", "1.", ".1", "_1", "\u0301", ",1", "1\u200d", "1.\u0301", "\u6f22", "\u3042_", "\u30a2\u0301"}), gen.Len(r, runLens))
				b = append(b, eng.Pick(r, []string{"", "1", ".", ".1", "a", "_", "\u0301", "\u6f22"})...)
				return &eng.Case{Text: b}
			}, Valid: validBleve, Check: checkBleve},
		{Name: "long-mixed", N: 20000 * scale,
			Rule: "long tokens (to 70,000 bytes) built along the definitions from the characters of every class, of every width, half of them with one place changed; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				return &eng.Case{Text: longBleve(r)}
			}, Valid: validBleve, Check: checkBleve},
	}
}

// longBleve builds a long token along one of the two definitions, and changes
// it in one place, or not.
func longBleve(r *eng.Rng) []byte {
	n := gen.Len(r, []int{40, 64, 100, 257, 1000, 1025, 4097, 8193, 65537})
	n = 1 + r.N(n+1)
	var b []byte
	ign := func() {
		if !r.P(3) {
			return
		}
		for j := 1 + r.Geo(2); j > 0; j-- {
			b = utf8.AppendRune(b, eng.Pick(r, classPool(eng.Pick(r, []uint8{ref.WExtend, ref.WFormat, ref.WZWJ}))))
		}
	}
	put := func(cl uint8) {
		b = utf8.AppendRune(b, eng.Pick(r, classPool(cl)))
		ign()
	}
	hurt := -1
	if r.P(2) {
		hurt = r.N(n)
	}
	if r.P(3) {
		for len(b) < n {
			c := gen.RuneAt(int64(r.N(gen.NumRunes)))
			for !gen.Table().IsIdeo(c) || newHan(c) {
				c = gen.RuneAt(int64(r.N(0x32000)))
			}
			b = utf8.AppendRune(b, c)
			ign()
			if r.P(4) {
				put(ref.WExtendNumLet)
			}
			if hurt >= 0 && len(b) >= hurt {
				b = utf8.AppendRune(b, gen.Rune(r, gen.Words))
				hurt = -1
			}
		}
		return b
	}
	connectors := r.P(8) // and no number, but for the change
	for len(b) < n {
		switch r.N(6) {
		case 0:
			put(ref.WExtendNumLet)
		case 1:
			if len(b) > 0 && !connectors {
				put(ref.WNumeric)
				put(eng.Pick(r, []uint8{ref.WMidNum, ref.WMidNumLet, ref.WSQ}))
				put(ref.WNumeric)
			}
		default:
			if connectors {
				put(ref.WExtendNumLet)
			} else {
				put(ref.WNumeric)
			}
		}
		if hurt >= 0 && len(b) >= hurt {
			b = utf8.AppendRune(b, gen.Rune(r, gen.Words))
			hurt = -1
		}
	}
	return b
}

var (
	classPoolCache [256][]rune
	classPoolOnce  sync.Once
)

// classPool lists the code points of a Word_Break class.
func classPool(cl uint8) []rune {
	classPoolOnce.Do(func() {
		t := gen.Table()
		for i := int64(0); i < gen.NumRunes; i++ {
			r := gen.RuneAt(i)
			classPoolCache[t.W[r]] = append(classPoolCache[t.W[r]], r)
		}
	})
	return classPoolCache[cl]
}

func init() {
	pre := func() error { return ref.SelfTest(gen.Table()) }
	register(&eng.Prop{ID: "C17", Subs: guided(bleveSubs, gen.Words, 24000, 120), NewCtx: newCtx, Pre: pre,
		Assumptions: []string{"Han characters added after Unicode 15 (Extension I and J, and a few completions) are outside the domain: the committed table's Han data is that of Unicode 15, and either answer is accepted for them."}})
}
