package checks

import (
	"fmt"
	"sync"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
	"github.com/clipperhouse/uax29/v2/zverif/ref"
)

// C01-C04: the four packages against the reference, on valid UTF-8.

func validText(c *eng.Case) bool { return utf8.Valid(c.Text) && len(c.Text) > 0 }

// checkUAX compares one text with the reference.
func checkUAX(pkg int) func(w *eng.W, c *eng.Case) error {
	return func(w *eng.W, c *eng.Case) error {
		x := scratch(w)
		o := opts{pkg: pkg}
		want := x.refEnds(o, c.Text)
		// non-trivial: some rule other than the default decides, that is, some
		// token has more than one character (for sentences and phrases:
		// there is a boundary inside)
		if pkg == gen.Sentences || pkg == gen.Phrases {
			if len(want) > 1 {
				w.NonTrivial()
			}
		} else if len(want) < len(x.x.R) {
			w.NonTrivial()
		}
		if err := x.agree(w, o, c.Text, want); err != nil {
			return err
		}
		if pkg == gen.Phrases {
			return x.phrasesWithinWords(w, c.Text, want)
		}
		return nil
	}
}

// phrasesWithinWords: every phrase boundary is a boundary of the words package.
func (x *ctx) phrasesWithinWords(w *eng.W, text []byte, phr []int) error {
	var err error
	x.ends, err = collect(iterBytes(opts{pkg: gen.Words}, text), text, x.ends[:0])
	if err != nil {
		return fmt.Errorf("words: %w", err)
	}
	w.Evals(1)
	k := 0
	for _, e := range phr {
		for k < len(x.ends) && x.ends[k] < e {
			k++
		}
		if k == len(x.ends) || x.ends[k] != e {
			return fmt.Errorf("phrase boundary at %d is no word boundary: words %s, phrases %s", e, show(text, x.ends), show(text, phr))
		}
	}
	return nil
}

// context strings that tell every two property signatures apart.
type around struct{ pre, post string }

var ctxCache sync.Map

// contexts chooses, for a package, a small set of surroundings such that any
// two signatures are told apart at least the given number of times (or as often as
// possible). Chosen greedily among all one- and two-atom surroundings.
func contexts(pkg, times int) []around {
	if v, ok := ctxCache.Load(pkg); ok {
		return v.([]around)
	}
	out := chooseContexts(pkg, times, -1)
	ctxCache.Store(pkg, out)
	return out
}

// chooseContexts is contexts; if from is not negative, only for telling that
// signature (index in the pools) from each other one.
func chooseContexts(pkg, times, from int) []around {
	core := gen.CoreAtoms(pkg)
	pools := gen.Pools(pkg)
	var cand []around
	side := []string{""}
	side = append(side, core...)
	var deep []string
	for _, a := range core {
		for _, b := range core {
			deep = append(deep, a+b)
		}
	}
	for _, a := range side {
		for _, b := range side {
			cand = append(cand, around{a, b})
		}
	}
	for i, a := range deep {
		cand = append(cand, around{a, ""}, around{"", a}, around{a, core[i%len(core)]}, around{a, "a"})
	}
	seg := ref.NewSeg(gen.Table())
	var x ref.Text
	sigOf := func(p gen.Pool, c around) string {
		r := p.Runes[len(p.Runes)/2]
		t := []byte(c.pre + string(r) + c.post)
		x.Decode(t)
		var b []bool
		switch pkg {
		case gen.Graphemes:
			b = seg.Graphemes(x.R)
		case gen.Words:
			b = seg.Words(x.R)
		case gen.Sentences:
			b = seg.Sentences(x.R)
		default:
			b = seg.Phrases(x.R)
		}
		s := make([]byte, len(x.R))
		for i := range s {
			s[i] = '0'
			if b[i] {
				s[i] = '1'
			}
		}
		return string(s)
	}
	n := len(pools)
	sigs := make([][]string, len(cand))
	for ci, c := range cand {
		sigs[ci] = make([]string, n)
		for i, p := range pools {
			sigs[ci][i] = sigOf(p, c)
		}
	}
	need := map[[2]int]int{}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if from >= 0 && i != from && j != from {
				continue
			}
			k := 0
			for ci := range cand {
				if sigs[ci][i] != sigs[ci][j] {
					k++
				}
			}
			k = min(k, times)
			if k > 0 {
				need[[2]int{i, j}] = k
			}
		}
	}
	used := map[int]bool{}
	var out []around
	for len(need) > 0 {
		best, bestN := -1, 0
		for ci := range cand {
			if used[ci] {
				continue
			}
			k := 0
			for p := range need {
				if sigs[ci][p[0]] != sigs[ci][p[1]] {
					k++
				}
			}
			if k > bestN {
				best, bestN = ci, k
			}
		}
		if best < 0 {
			break
		}
		used[best] = true
		out = append(out, cand[best])
		for p := range need {
			if sigs[best][p[0]] != sigs[best][p[1]] {
				if need[p]--; need[p] == 0 {
					delete(need, p)
				}
			}
		}
	}
	return out
}

var runLens = []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258}
var bigLens = []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 16384, 32767, 32768, 32769, 65535, 65536, 65537}

func repeat(dst []byte, unit string, n int) []byte {
	for ; n > 0; n-- {
		dst = append(dst, unit...)
	}
	return dst
}

func uaxSubs(pkg int) func(tier string) []*eng.Sub {
	return func(tier string) []*eng.Sub {
		deep := tier == "thorough"
		atoms := gen.Atoms(pkg)
		core := gen.CoreAtoms(pkg)
		if pkg == gen.Graphemes {
			atoms = append([]string{"a", "\x1b"}, atoms...)
		}
		ctxs := contexts(pkg, 3)
		check := checkUAX(pkg)
		la, lc := 5, 6
		if deep {
			la, lc = 6, 7
		}
		// at most about 40 (quick) or 800 (thorough) million sequences each
		lim := int64(4e7)
		if deep {
			lim = 8e8
		}
		for gen.SeqCount(len(atoms), la) > lim {
			la--
		}
		for gen.SeqCount(len(core), lc) > lim {
			lc--
		}
		nontriv := "non-trivial: some token has more than one character"
		if pkg == gen.Sentences || pkg == gen.Phrases {
			nontriv = "non-trivial: there is a boundary inside the text"
		}
		scale := int64(1)
		if deep {
			scale = 15
		}
		pre := append([]string{""}, atoms...)
		nrun := int64(len(pre) * len(atoms) * len(pre) * len(runLens))
		runStride := int64(1)
		if !deep {
			for nrun/runStride > 900000 {
				runStride++
			}
		}
		subs := []*eng.Sub{
			{
				Name: "sequences", Enum: true, Full: true,
				Rule: fmt.Sprintf("every sequence of 1..%d of %d atoms, one per property signature of the package (ASCII apart from others); %s", la, len(atoms), nontriv),
				N:    gen.SeqCount(len(atoms), la),
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					return &eng.Case{Text: gen.Seq(atoms, i, nil)}
				},
				Valid: validText, Check: check,
			},
			{
				Name: "core-sequences", Enum: true, Full: true,
				Rule: fmt.Sprintf("every sequence of 1..%d of %d atoms, one per class; %s", lc, len(core), nontriv),
				N:    gen.SeqCount(len(core), lc),
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					return &eng.Case{Text: gen.Seq(core, i, nil)}
				},
				Valid: validText, Check: check,
			},
			{
				Name: "code-points", Enum: true, Full: true,
				Rule: fmt.Sprintf("every Unicode scalar value in %d surroundings that tell all property signatures apart (separated by line feeds); %s", len(ctxs), nontriv),
				N:    gen.NumRunes,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					c := gen.RuneAt(i)
					var b []byte
					for _, x := range ctxs {
						b = append(b, x.pre...)
						b = utf8.AppendRune(b, c)
						b = append(b, x.post...)
						b = append(b, '\n')
					}
					return &eng.Case{Text: b}
				},
				Valid: validText, Check: check,
			},
			{
				Name: "runs", Enum: true, Full: runStride == 1,
				Rule: fmt.Sprintf("prefix atom, one atom repeated 2..258 times (%d lengths around powers of two), suffix atom; 1 of %d combinations; %s", len(runLens), runStride, nontriv),
				N:    nrun / runStride,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					i = i*runStride + int64(r.N(int(runStride)))
					p := pre[i%int64(len(pre))]
					i /= int64(len(pre))
					u := atoms[i%int64(len(atoms))]
					i /= int64(len(atoms))
					q := pre[i%int64(len(pre))]
					i /= int64(len(pre))
					b := repeat([]byte(p), u, runLens[i%int64(len(runLens))])
					return &eng.Case{Text: append(b, q...)}
				},
				Valid: validText, Check: check,
			},
			{
				Name: "long-runs", N: 20000 * scale,
				Rule: "prefix, a unit of 1..3 atoms repeated 2..65537 times, suffix; " + nontriv,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					return &eng.Case{Text: longRun(r, pkg, atoms)}
				},
				Valid: validText, Check: check,
			},
			{
				Name: "stretched", N: 60000 * scale,
				Rule: "a few atoms, often what a rule looks for, with a run of 1..65537 characters which rules skip at one or two places; " + nontriv,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					return &eng.Case{Text: gen.Stretched(r, pkg, 65537)}
				},
				Valid: validText, Check: check,
			},
			{
				Name: "random", N: 8000000 * scale,
				Rule: "random texts up to 40 characters of many shapes (classes, runs, few characters, snippets with ignorables, prose, ASCII, any code points); " + nontriv,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					p := pkg
					if r.P(6) {
						p = -1
					}
					return &eng.Case{Text: gen.Text(r, p, 40)}
				},
				Valid: validText, Check: check,
			},
			{
				Name: "long", N: 12000 * scale,
				Rule: "concatenations of random texts, up to 20,000 characters; " + nontriv,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					var b []byte
					for k := r.In(2, 400); k > 0; k-- {
						b = append(b, gen.Text(r, pkg, 50)...)
					}
					return &eng.Case{Text: b}
				},
				Valid: validText, Check: check,
			},
			{
				Name: "long-tokens", N: 5000 * scale,
				Rule: "long tokens (to 65,000 bytes) of as many kinds of characters as rules allow to follow one another, changed in one place or not, between short texts; " + nontriv,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					return &eng.Case{Text: gen.AroundLongToken(r, pkg, 65537)}
				},
				Valid: validText, Check: check,
			},
			{
				Name: "ascii", Enum: true, Full: true,
				Rule: "every ASCII string of 1..3 characters, before and after a character of another kind; " + nontriv,
				N:    int64(gen.SeqCount(128, 3)),
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					return &eng.Case{Text: gen.Seq(asciiAtoms, i, nil), N: int(i)}
				},
				Valid: validText,
				Check: func(w *eng.W, c *eng.Case) error {
					if err := check(w, c); err != nil {
						return err
					}
					x := atoms[c.N%len(atoms)]
					d := &eng.Case{Text: append([]byte(x), c.Text...)}
					d.Text = append(d.Text, x...)
					if err := check(w, d); err != nil {
						return fmt.Errorf("text %+q: %w", d.Text, err)
					}
					return nil
				},
			},
		}
		return subs
	}
}

var asciiAtoms = func() []string {
	var s []string
	for i := 0; i < 128; i++ {
		s = append(s, string(rune(i)))
	}
	return s
}()

func longRun(r *eng.Rng, pkg int, atoms []string) []byte {
	var b []byte
	for k := r.N(3); k > 0; k-- {
		b = append(b, eng.Pick(r, atoms)...)
	}
	u := ""
	for k := 1 + r.N(3); k > 0; k-- {
		if r.P(4) {
			u += string(gen.Rune(r, pkg))
		} else {
			u += eng.Pick(r, atoms)
		}
	}
	n := gen.Len(r, runLens)
	switch {
	case r.P(20):
		n = gen.Len(r, bigLens)
	case r.P(3):
		n = r.In(2, 3000)
	}
	b = repeat(b, u, n)
	for k := r.N(3); k > 0; k-- {
		b = append(b, eng.Pick(r, atoms)...)
	}
	return b
}

func uaxProp(id string, pkg int) *eng.Prop {
	return &eng.Prop{
		ID: id, Subs: guided(uaxSubs(pkg), pkg, 24000, 120), NewCtx: newCtx,
		Pre: func() error { return ref.SelfTest(gen.Table()) },
		Assumptions: []string{
			"the embedded Unicode 17 property tables and the reference rules (validated against the official break tests, ICU and an independent derivation, see DESIGN.md)",
		},
	}
}

func init() {
	register(uaxProp("C01", gen.Graphemes))
	register(uaxProp("C02", gen.Words))
	register(uaxProp("C03", gen.Sentences))
	register(uaxProp("C04", gen.Phrases))
}
