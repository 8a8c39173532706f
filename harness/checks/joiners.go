package checks

import (
	"fmt"
	"io"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/words"
	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
	"github.com/clipperhouse/uax29/v2/zverif/ref"
)

// C11: joiners.

func validJoiners(c *eng.Case) bool {
	if !utf8.Valid(c.Text) {
		return false
	}
	for _, x := range c.Lead {
		if badJoiner(x) {
			return false
		}
	}
	for _, x := range c.Mid {
		if badJoiner(x) {
			return false
		}
	}
	return true
}

func checkJoiners(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	o := caseOpts(c)
	o.pkg = gen.Words
	text := []byte(c.Text)
	plain := len(x.refEnds(opts{pkg: gen.Words}, text))
	want := append([]int(nil), x.refEnds(o, text)...)
	if len(want) != plain {
		w.NonTrivial()
		w.Label("joined")
	}
	if o.j == 1 && len(o.lead)+len(o.mid) == 0 || o.j == 2 {
		w.Label("empty-configuration")
	}
	if err := x.agree(w, o, text, want); err != nil {
		return err
	}
	// First
	if len(text) > 0 {
		s := string(text)
		if f := iterString(o, s).First(); f != s[:want[0]] {
			return fmt.Errorf("%v: First of %+q is %+q, want %+q", o, s, f, s[:want[0]])
		}
		if f := iterBytes(o, text).First(); string(f) != s[:want[0]] {
			return fmt.Errorf("%v bytes: First of %+q is %+q, want %+q", o, s, f, s[:want[0]])
		}
	}
	// the reader
	if c.N&1 == 0 {
		sc := scanner(o, &chunkReader{data: text, sizes: c.Ints, err: io.EOF, together: c.N&2 != 0})
		if len(text) > 30000 {
			sc.Buffer(nil, 2*len(text)+100)
		}
		var err error
		if x.ends, err = scanEnds(sc, text, x.ends[:0]); err != nil {
			return fmt.Errorf("%v FromReader: %w", o, err)
		}
		if !sameEnds(x.ends, want) {
			return diffEnds(fmt.Sprintf("%v FromReader", o), text, x.ends, want)
		}
		w.Evals(1)
	}
	// an iterator over named types
	if c.N&12 == 0 && o.j != 2 {
		var it words.Iterator[myString]
		it.Joiners(&words.Joiners[myString]{Leading: o.lead, Middle: o.mid})
		it.SetText(myString(text))
		var err error
		if x.ends, err = collect[myString](&it, myString(text), x.ends[:0]); err != nil {
			return fmt.Errorf("%v named string: %w", o, err)
		}
		if !sameEnds(x.ends, want) {
			return diffEnds(fmt.Sprintf("%v named string", o), text, x.ends, want)
		}
		var ib words.Iterator[myBytes]
		ib.SetText(myBytes(text))
		ib.Joiners(&words.Joiners[myBytes]{Leading: o.lead, Middle: o.mid})
		if x.ends, err = collect[myBytes](&ib, myBytes(text), x.ends[:0]); err != nil {
			return fmt.Errorf("%v named bytes: %w", o, err)
		}
		if !sameEnds(x.ends, want) {
			return diffEnds(fmt.Sprintf("%v named bytes", o), text, x.ends, want)
		}
		w.Evals(2)
	}
	return nil
}

// A fixed configuration and the atoms to try it on.
type jconf struct {
	lead, mid string
	atoms     []string
}

var jconfs = []jconf{
	{"", "-", nil},
	{"#", "", nil},
	{"#.", "@-/", nil},
	{" ", " ", nil},
	{"", " ", nil},
	{"-", "-", nil},
	{"'", "'", nil},
	{"\"", "\"", nil},
	{".", ",:", nil},
	{"\U0001F600", "\U0001F600", nil},
	{"\u05d0", "\u05d0a", nil},
	{"1", "1", nil},
	{"_", "_", nil},
	{"\u30a2", "\u30a2", nil},
	{"\U0001F1FA", "\U0001F1FA", nil},
	{"\u3002", "\u3002\u00b7", nil},
	{"\U0001D7CE", "\U0001F469", nil},
	{"", "", nil},
}

func joinerAtoms(j jconf) []string {
	out := gen.CoreAtoms(gen.Words)
	have := map[string]bool{}
	for _, a := range out {
		have[a] = true
	}
	for _, r := range j.lead + j.mid {
		if s := string(r); !have[s] {
			have[s] = true
			out = append(out, s)
		}
	}
	if !have["-"] {
		out = append(out, "-")
	}
	return out
}

func joinerSubs(tier string) []*eng.Sub {
	scale := int64(1)
	depth := 4
	if tier == "thorough" {
		scale, depth = 12, 5
	}
	rule := "non-trivial: the tokens differ in number from those without joiners"
	subs := []*eng.Sub{
		{Name: "random", N: 4000000 * scale,
			Rule: "random texts and configurations (mostly up to 3 leading and 3 middle characters of any class, 1 in 6 with up to 300, some near one another or twice; empty and nil ones, a space), joiners inserted at random; string, bytes, named types and reader; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{Pkg: gen.Words}
				drawJoiners(r, c, false)
				c.Text = spice(r, c, gen.Text(r, gen.Words, 30))
				c.N = r.N(64)
				c.Ints = drawChunks(r)
				return c
			}, Valid: validJoiners, Check: checkJoiners},
		{Name: "dense", N: 4000000 * scale,
			Rule: "texts of 1 to 12 characters drawn from letters, numbers, mid characters, ignorables and the configured joiners only; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{Pkg: gen.Words}
				drawJoiners(r, c, false)
				js := append(append([]rune(nil), c.Lead...), c.Mid...)
				n := r.In(1, 12)
				for k := 0; k < n; k++ {
					if len(js) > 0 && r.P(3) {
						c.Text = append(c.Text, string(eng.Pick(r, js))...)
						continue
					}
					c.Text = append(c.Text, eng.Pick(r, []string{"a", "b", "1", "2", ".", ",", "'", "\"", ":", "_", " ", "\u0301", "\u200d", "\u00ad", "\u05d0", "\u30a2", "\u00e9", "-", "\n", "\U0001F600", "\U0001F1FA", "\u6f22"})...)
				}
				c.N = r.N(64)
				c.Ints = drawChunks(r)
				return c
			}, Valid: validJoiners, Check: checkJoiners},
		{Name: "code-points", Enum: true, Full: true, N: gen.NumRunes,
			Rule: "every Unicode scalar value other than line breaks and ignorables, as middle and as leading joiner, between and before letters and numbers; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				ch := gen.RuneAt(i)
				if badJoiner(ch) {
					return &eng.Case{Text: eng.Bytes("a" + string(ch) + "b"), J: 1}
				}
				s := string(ch)
				c := &eng.Case{J: 1, N: int(i % 3)}
				if i&1 == 0 {
					c.Mid = []rune{ch}
				}
				if i&2 == 0 || c.Mid == nil {
					c.Lead = []rune{ch}
				}
				c.Text = eng.Bytes("a" + s + "b 1" + s + "2 " + s + "c " + s + "3." + s + s + "d" + s)
				return c
			}, Valid: validJoiners, Check: checkJoiners},
		{Name: "neighbours", Enum: true, Full: true, N: gen.NumRunes,
			Rule: "middle '-' and leading '#' beside every Unicode scalar value; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				s := string(gen.RuneAt(i))
				return &eng.Case{J: 1, Lead: []rune{'#'}, Mid: []rune{'-'}, N: int(i % 5),
					Text: eng.Bytes("a-" + s + "-b #" + s + " " + s + "-1-" + s + "#" + s + "#a")}
			}, Valid: validJoiners, Check: checkJoiners},
		{Name: "long", N: 6000 * scale,
			Rule: "long runs, long tokens of many kinds of characters, and long concatenations, with joiners; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{Pkg: gen.Words}
				drawJoiners(r, c, false)
				if r.Bool() {
					var atoms []string
					for _, x := range append(append([]rune{'a', '1', '.', 0x301}, c.Lead...), c.Mid...) {
						atoms = append(atoms, string(x))
					}
					c.Text = longRun(r, gen.Words, atoms)
				} else if r.P(3) {
					c.Text = spice(r, c, gen.AroundLongToken(r, gen.Words, 65537))
				} else {
					for k := r.In(2, 60); k > 0; k-- {
						c.Text = append(c.Text, spice(r, c, gen.Text(r, gen.Words, 60))...)
					}
				}
				c.N = r.N(64)
				c.Ints = []int{r.In(20000, 60000)}
				return c
			}, Valid: validJoiners, Check: checkJoiners},
	}
	for k := range jconfs {
		j := jconfs[k]
		atoms := joinerAtoms(j)
		d := depth
		subs = append(subs, &eng.Sub{Name: fmt.Sprintf("sequences-%d", k), Enum: true, Full: true, N: gen.SeqCount(len(atoms), d),
			Rule: fmt.Sprintf("leading %+q, middle %+q: every sequence of 1..%d of %d atoms; %s", j.lead, j.mid, d, len(atoms), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				return &eng.Case{J: 1, Lead: []rune(j.lead), Mid: []rune(j.mid), Text: gen.Seq(atoms, i, nil), N: int(i % 16)}
			}, Valid: validJoiners, Check: checkJoiners})
	}
	return subs
}

func init() {
	pre := func() error { return ref.SelfTest(gen.Table()) }
	register(&eng.Prop{ID: "C11", Subs: guided(joinerSubs, gen.Words, 24000, 120), NewCtx: newCtx, Pre: pre})
}
