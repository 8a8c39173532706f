package checks

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
)

// C15: allocations. One case is a batch of texts; allocations are counted by
// the runtime for the whole process, so each worker has a process of its own,
// in which nothing else runs meanwhile.

var sinkInt int

func mallocs(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.Mallocs - a.Mallocs
}

// allocsOf is the smallest count of a few runs.
func allocsOf(f func()) uint64 {
	m := mallocs(f)
	for k := 0; m > 0 && k < 3; k++ {
		m = min(m, mallocs(f))
	}
	return m
}

type walker struct {
	name string
	run  func(texts [][]byte, strs []string)
}

// The loops are over concrete types, as users write them.

func walkG[T ~string | ~[]byte](it *graphemes.Iterator[T], ts []T) {
	for _, t := range ts {
		it.SetText(t)
		for it.Next() {
			sinkInt += len(it.Value()) + it.Start() + it.End()
		}
	}
}

func walkW[T ~string | ~[]byte](it *words.Iterator[T], ts []T) {
	for _, t := range ts {
		it.SetText(t)
		for it.Next() {
			sinkInt += len(it.Value()) + it.Start() + it.End()
		}
	}
}

func walkS[T ~string | ~[]byte](it *sentences.Iterator[T], ts []T) {
	for _, t := range ts {
		it.SetText(t)
		for it.Next() {
			sinkInt += len(it.Value()) + it.Start() + it.End()
		}
	}
}

func walkP[T ~string | ~[]byte](it *phrases.Iterator[T], ts []T) {
	for _, t := range ts {
		it.SetText(t)
		for it.Next() {
			sinkInt += len(it.Value()) + it.Start() + it.End()
		}
	}
}

func walkers() []walker {
	var out []walker
	for k := 0; k < 4; k++ {
		gs, gb := graphemes.FromString(""), graphemes.FromBytes(nil)
		gs.AnsiEscapeSequences, gs.AnsiEscapeSequences8Bit = k&1 != 0, k&2 != 0
		gb.AnsiEscapeSequences, gb.AnsiEscapeSequences8Bit = k&1 != 0, k&2 != 0
		o := opts{a7: k&1 != 0, a8: k&2 != 0}
		out = append(out,
			walker{o.String() + " string", func(b [][]byte, s []string) { walkG(gs, s) }},
			walker{o.String() + " bytes", func(b [][]byte, s []string) { walkG(gb, b) }})
	}
	ws, wb := words.FromString(""), words.FromBytes(nil)
	ss, sb := sentences.FromString(""), sentences.FromBytes(nil)
	js, jb := words.FromString(""), words.FromBytes(nil)
	js.Joiners(&words.Joiners[string]{Leading: []rune("#@\u3042\U0001F600"), Middle: []rune("-/ \u00e9\u0301")})
	jb.Joiners(&words.Joiners[[]byte]{Leading: []rune("#@\u3042\U0001F600"), Middle: []rune("-/ \u00e9\u0301")})
	ps, pb := phrases.FromString(""), phrases.FromBytes(nil)
	return append(out,
		walker{"words string", func(b [][]byte, s []string) { walkW(ws, s) }},
		walker{"words bytes", func(b [][]byte, s []string) { walkW(wb, b) }},
		walker{"words with joiners string", func(b [][]byte, s []string) { walkW(js, s) }},
		walker{"words with joiners bytes", func(b [][]byte, s []string) { walkW(jb, b) }},
		walker{"sentences string", func(b [][]byte, s []string) { walkS(ss, s) }},
		walker{"sentences bytes", func(b [][]byte, s []string) { walkS(sb, b) }},
		walker{"phrases string", func(b [][]byte, s []string) { walkP(ps, s) }},
		walker{"phrases bytes", func(b [][]byte, s []string) { walkP(pb, b) }},
	)
}

// A construction in the loop, once per text: at most a fixed number each.
func fresh(texts [][]byte, strs []string) {
	for i := range texts {
		for it := graphemes.FromBytes(texts[i]); it.Next(); {
			sinkInt += len(it.Value())
		}
		for it := graphemes.FromString(strs[i]); it.Next(); {
			sinkInt += len(it.Value())
		}
		for it := words.FromBytes(texts[i]); it.Next(); {
			sinkInt += len(it.Value())
		}
		for it := words.FromString(strs[i]); it.Next(); {
			sinkInt += len(it.Value())
		}
		for it := sentences.FromBytes(texts[i]); it.Next(); {
			sinkInt += len(it.Value())
		}
		for it := sentences.FromString(strs[i]); it.Next(); {
			sinkInt += len(it.Value())
		}
		for it := phrases.FromBytes(texts[i]); it.Next(); {
			sinkInt += len(it.Value())
		}
		for it := phrases.FromString(strs[i]); it.Next(); {
			sinkInt += len(it.Value())
		}
	}
}

func callSplits(texts [][]byte) {
	for pkg := 0; pkg < 4; pkg++ {
		f := splitFunc(pkg)
		for _, t := range texts {
			for pos := 0; pos < len(t); {
				a, tok, _ := f(t[pos:], false)
				sinkInt += a + len(tok)
				a, tok, _ = f(t[pos:], true)
				sinkInt += len(tok)
				if a <= 0 {
					break
				}
				pos += a
			}
		}
	}
}

const growth = 8 // how much longer the texts get

func checkAllocs(w *eng.W, c *eng.Case) error {
	texts := make([][]byte, len(c.Alt))
	big := make([][]byte, len(c.Alt))
	ts := make([]string, len(c.Alt))
	bs := make([]string, len(c.Alt))
	n := 0
	for i, a := range c.Alt {
		texts[i] = []byte(a)
		big[i] = bytes.Repeat(a, growth)
		ts[i], bs[i] = string(texts[i]), string(big[i])
		n += len(a)
	}
	if n > len(c.Alt) {
		w.NonTrivial()
	}
	ws := w.Ctx.([]walker)
	for k := range ws {
		ws[k].run(texts[:1], ts[:1]) // warm up: what happens once may happen now
	}
	fresh(texts[:1], ts[:1])
	all := func(b [][]byte, s []string) func() {
		return func() {
			for k := range ws {
				ws[k].run(b, s)
			}
			fresh(b, s)
			callSplits(b)
		}
	}
	w.Evals(2 * len(texts) * (len(ws) + 12))
	if c.N == 1 && allocsOf(all(texts, ts)) == 0 {
		return nil
	}
	large := allocsOf(all(big, bs))
	if large == 0 {
		return nil
	}
	w.Label("some-allocations")
	if large <= allocsOf(all(texts, ts)) {
		return allocsInSplits(texts, big)
	}
	// Which text? The smallest of many counts leaves out what the runtime itself
	// allocates now and then.
	fewest := func(limit uint64, f func()) uint64 {
		m := mallocs(f)
		for k := 0; m > limit && k < 15; k++ {
			m = min(m, mallocs(f))
		}
		return m
	}
	for i := range texts {
		for k := range ws {
			f := ws[k].run
			s := allocsOf(func() { f(texts[i:i+1], ts[i:i+1]) })
			l := fewest(s, func() { f(big[i:i+1], bs[i:i+1]) })
			if l > s {
				return fmt.Errorf("%s, %+q: %d allocations, %d when repeated %d times", ws[k].name, trim(texts[i]), s, l, growth)
			}
		}
		s := allocsOf(func() { fresh(texts[i:i+1], ts[i:i+1]) })
		l := fewest(s, func() { fresh(big[i:i+1], bs[i:i+1]) })
		if l > s {
			return fmt.Errorf("fresh iterators, %+q: %d allocations, %d when repeated %d times", trim(texts[i]), s, l, growth)
		}
	}
	return allocsInSplits(texts, big)
}

func trim(b []byte) []byte { return b[:min(len(b), 100)] }

func allocsInSplits(sets ...[][]byte) error {
	for _, t := range sets {
		for i := range t {
			if l := allocsOf(func() { callSplits(t[i : i+1]) }); l > 0 {
				return fmt.Errorf("split functions, %+q: %d allocations", trim(t[i]), l)
			}
		}
	}
	return nil
}

func allocSubs(tier string) []*eng.Sub {
	scale := int64(1)
	if tier == "thorough" {
		scale = 10
	}
	const batch = 32
	rule := fmt.Sprintf("all packages, ANSI options, words with joiners, string and bytes, re-used and fresh iterators, split functions with and without end of input: allocations for the texts and for texts %d times as long; non-trivial: more bytes than texts", growth)
	atoms := append(append([]string(nil), gen.ByteAtoms...), gen.Snippets()...)
	nseq := gen.SeqCount(len(atoms), 2)
	const cpBatch = 512
	openers := []string{"\x1b[", "\x1b]", "\x1bP", "\x1b_", "\x1b ", "\x9b", "\x9d", "\x90", "\x9f", "\x1bX", "\x98"}
	bodies := []string{"1;", "0", ";", " ", "!", "a", "ab ", "\u00e9", "\u3042", "\xff", "\x1b", "\n", "1:2;"}
	closers := []string{"m", "\x07", "\x1b\\", "\x9c", "\x18", "\x1a", "K", "", " q"}
	return []*eng.Sub{
		{Name: "random", N: 12000 * scale,
			Rule: fmt.Sprintf("batches of %d random texts, one in four damaged, some with escape sequences; %s", batch, rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				for k := 0; k < batch; k++ {
					switch r.N(5) {
					case 0:
						c.Alt = append(c.Alt, gen.Bytes(r, -1, 30))
					case 1:
						c.Alt = append(c.Alt, ansiText(r, eng.Pick(r, []int{7, 8})))
					default:
						c.Alt = append(c.Alt, gen.Text(r, r.N(4), 30))
					}
				}
				return c
			}, Valid: func(c *eng.Case) bool { return len(c.Alt) > 0 }, Check: checkAllocs},
		{Name: "code-points", Enum: true, Full: true, N: (gen.NumRunes + cpBatch - 1) / cpBatch,
			Rule: fmt.Sprintf("every Unicode scalar value beside letters, in batches of %d; %s", cpBatch, rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{N: 1} // no repetition, unless something is allocated
				var b []byte
				for k := i * cpBatch; k < (i+1)*cpBatch && k < gen.NumRunes; k++ {
					ch := string(gen.RuneAt(k))
					b = append(b, "a"+ch+"1 "...)
					if k%64 == 63 {
						c.Alt = append(c.Alt, b)
						b = nil
					}
				}
				c.Alt = append(c.Alt, b)
				return c
			}, Valid: func(c *eng.Case) bool { return len(c.Alt) > 0 }, Check: checkAllocs},
		{Name: "sequences", Enum: true, Full: true, N: (nseq + 255) / 256,
			Rule: fmt.Sprintf("every sequence of 1 or 2 of %d fragments (bytes, words, punctuation, emoji, scripts, escape sequences), in batches of 256; %s", len(atoms), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				for k := i * 256; k < (i+1)*256 && k < nseq; k++ {
					c.Alt = append(c.Alt, gen.Seq(atoms, k, nil))
				}
				return c
			}, Valid: func(c *eng.Case) bool { return len(c.Alt) > 0 }, Check: checkAllocs},
		{Name: "nested", N: 4000 * scale,
			Rule: fmt.Sprintf("batches of 8 texts, each a fragment, then 2 to 300 times another, then a third, and again (long tokens, sequences with long bodies, long look-ahead); %s", rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				for len(c.Alt) < 8 {
					var b []byte
					var a, u, z string
					if r.P(3) {
						a, u, z = eng.Pick(r, openers), eng.Pick(r, bodies), eng.Pick(r, closers)
					} else {
						a, u, z = eng.Pick(r, atoms), eng.Pick(r, atoms), eng.Pick(r, atoms)
						if r.P(3) {
							u += eng.Pick(r, atoms)
						}
					}
					n := min(gen.Len(r, []int{2, 10, 40, 70, 140, 300}), 3000)
					b = append(b, a...)
					for k := 0; k < n; k++ {
						b = append(b, u...)
					}
					b = append(b, z...)
					c.Alt = append(c.Alt, b)
				}
				return c
			}, Valid: func(c *eng.Case) bool { return len(c.Alt) > 0 }, Check: checkAllocs},
		{Name: "stretched", N: 300 * scale,
			Rule: fmt.Sprintf("batches of 8 texts, each some characters that a rule looks for, with up to 2000 neutral ones between them; %s", rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				for len(c.Alt) < 8 {
					c.Alt = append(c.Alt, gen.Stretched(r, r.N(4), 2000))
				}
				return c
			}, Valid: func(c *eng.Case) bool { return len(c.Alt) > 0 }, Check: checkAllocs},
		{Name: "long", N: 400 * scale,
			Rule: "texts of up to 100,000 bytes: prose, runs, mixtures; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				var b []byte
				switch r.N(4) {
				case 3:
					b = gen.AroundLongToken(r, r.N(4), 20000)
				case 0:
					b = []byte(strings.Repeat(string(gen.Text(r, -1, 30)), 300))
				case 1:
					b = longRun(r, r.N(4), gen.Atoms(r.N(4)))
					if len(b) > 20000 {
						b = b[:20000]
					}
				default:
					for k := 0; k < 200; k++ {
						b = append(b, gen.Text(r, -1, 40)...)
					}
				}
				c.Alt = []eng.Bytes{b}
				return c
			}, Valid: func(c *eng.Case) bool { return len(c.Alt) > 0 }, Check: checkAllocs},
		{Name: "single", N: 20000 * scale,
			Rule: "one random text, one in four damaged, some with escape sequences; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{A7: r.P(3), A8: r.P(3)} // as a hint
				switch r.N(5) {
				case 0:
					c.Text = gen.Bytes(r, -1, 20)
				case 1:
					c.Text = ansiText(r, eng.Pick(r, []int{7, 8}))
				default:
					c.Text = gen.Text(r, r.N(4), 20)
				}
				return c
			}, Check: func(w *eng.W, c *eng.Case) error {
				if len(c.Text) == 0 {
					return nil
				}
				return checkAllocs(w, &eng.Case{Alt: []eng.Bytes{c.Text}})
			}},
	}
}

func init() {
	register(&eng.Prop{ID: "C15", Remote: true, Subs: guidedFrom("single", allocSubs, -1, 2000, 80), NewCtx: func() any { return walkers() },
		Assumptions: []string{"Allocations are those counted by the Go runtime with the installed compiler's optimisations; up to three more for a text eight times as long are not taken for per-token allocations (a buffer that doubles)."}})
}
