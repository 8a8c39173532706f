package checks

import (
	"fmt"
	"io"
	"sync"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
)

// C13: instances do not affect one another, interleaved or in parallel.

// The kinds of instance.
const (
	kindString = iota
	kindBytes
	kindReader
	kindSplit
	kinds
)

// Ints of a case give the instances, four numbers each: configuration, kind,
// text, and a number for reads.
const instLen = 4

// The configurations: an index into this list; the last two use the case's
// joiners, which all instances of a case share.
var concConfs = []opts{
	{pkg: gen.Graphemes}, {pkg: gen.Graphemes, a7: true}, {pkg: gen.Graphemes, a8: true}, {pkg: gen.Graphemes, a7: true, a8: true},
	{pkg: gen.Words}, {pkg: gen.Sentences}, {pkg: gen.Phrases},
	{pkg: gen.Words, j: 1}, {pkg: gen.Words, j: 1},
}

func concOpts(c *eng.Case, k int) opts {
	o := concConfs[k%len(concConfs)]
	if o.j == 1 {
		o.lead, o.mid = c.Lead, c.Mid
	}
	return o
}

type instance struct {
	o    opts
	kind int
	text []byte
	str  string
	read int
	js   *words.Joiners[string]
	jb   *words.Joiners[[]byte]
	want []int
}

var concChunks = [][]int{{1 << 20}, {1}, {2, 3}, {7}, {0, 5, 1}, {64}, {0, 1}, {13, 1}}

func (in *instance) scanner() tokenScanner {
	rd := &chunkReader{data: in.text, sizes: concChunks[in.read%len(concChunks)], err: io.EOF, together: in.read&8 != 0}
	switch in.o.pkg {
	case gen.Graphemes:
		return graphemes.FromReader(rd).Scanner
	case gen.Words:
		sc := words.FromReader(rd)
		if in.jb != nil {
			sc.Joiners(in.jb)
		}
		return sc.Scanner
	case gen.Sentences:
		return sentences.FromReader(rd).Scanner
	}
	return phrases.FromReader(rd).Scanner
}

// instances builds the case's instances; want comes from the reference where
// it applies, so that nothing of the packages has run before.
func (x *ctx) instances(c *eng.Case) ([]*instance, error) {
	var js *words.Joiners[string]
	var jb *words.Joiners[[]byte]
	js = &words.Joiners[string]{Leading: c.Lead, Middle: c.Mid}
	jb = &words.Joiners[[]byte]{Leading: c.Lead, Middle: c.Mid}
	var texts [][]byte
	var strs []string
	for _, a := range c.Alt {
		texts = append(texts, []byte(a))
		strs = append(strs, string(a))
	}
	var out []*instance
	for k := 0; k+instLen <= len(c.Ints); k += instLen {
		in := &instance{o: concOpts(c, c.Ints[k]), kind: c.Ints[k+1] % kinds, read: c.Ints[k+3]}
		t := c.Ints[k+2] % len(texts)
		in.text, in.str = texts[t], strs[t]
		if in.kind == kindReader || in.kind == kindSplit {
			in.o.a7, in.o.a8 = false, false // iterators only
		}
		if in.kind == kindSplit {
			in.o.j, in.o.lead, in.o.mid = 0, nil, nil
		}
		if in.o.j == 1 {
			in.js, in.jb = js, jb
		}
		w, err := x.tokens(in.o, in.text)
		if err != nil {
			return nil, err
		}
		in.want = w
		out = append(out, in)
	}
	return out, nil
}

func (in *instance) iterString() iter[string] {
	if in.js == nil {
		return iterString(in.o, in.str)
	}
	it := words.FromString(in.str)
	it.Joiners(in.js)
	return it
}

func (in *instance) iterBytes() iter[[]byte] {
	if in.jb == nil {
		return iterBytes(in.o, in.text)
	}
	it := words.FromBytes(in.text)
	it.Joiners(in.jb)
	return it
}

func (in *instance) String() string {
	return fmt.Sprintf("%v %s of %+q", in.o, []string{"FromString", "FromBytes", "FromReader", "SplitFunc"}[in.kind], string(in.text[:min(len(in.text), 200)]))
}

// run walks one fresh instance to its end. First is called now and then.
func (in *instance) run(ends []int, first bool) ([]int, error) {
	var err error
	ends = ends[:0]
	switch in.kind {
	case kindString:
		it := in.iterString()
		if first && len(in.want) > 0 {
			if f := it.First(); f != in.str[:in.want[0]] {
				return ends, fmt.Errorf("First is %+q, want %+q", f, in.str[:in.want[0]])
			}
		}
		ends, err = collect(it, in.str, ends)
	case kindBytes:
		it := in.iterBytes()
		if first && len(in.want) > 0 {
			if f := it.First(); string(f) != in.str[:in.want[0]] {
				return ends, fmt.Errorf("First is %+q, want %+q", f, in.str[:in.want[0]])
			}
		}
		ends, err = collect(it, in.text, ends)
	case kindReader:
		ends, err = scanEnds(in.scanner(), in.text, ends)
	default:
		ends, err = collectSplit(splitFunc(in.o.pkg), in.text, ends)
	}
	if err != nil {
		return ends, err
	}
	if !sameEnds(ends, in.want) {
		return ends, diffEnds("tokens", in.text, ends, in.want)
	}
	return ends, nil
}

// checkConcurrent runs every instance in a goroutine of its own, N times,
// all started together.
func checkConcurrent(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	ins, err := x.instances(c)
	if err != nil {
		return err
	}
	if len(ins) > 1 {
		w.NonTrivial()
	}
	errs := make([]error, len(ins))
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for k, in := range ins {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[k] = fmt.Errorf("panic: %v", p)
				}
			}()
			var ends []int
			<-gate
			for n := 0; n < c.N; n++ {
				var err error
				if ends, err = in.run(ends, (n+k)&1 == 0); err != nil {
					errs[k] = err
					return
				}
			}
		}()
	}
	close(gate)
	wg.Wait()
	w.Evals(len(ins) * c.N)
	for k, err := range errs {
		if err != nil {
			return fmt.Errorf("among %d concurrent instances, %v: %w", len(ins), ins[k], err)
		}
	}
	return nil
}

// stepper advances one instance by operations, and compares it with its model.
type stepper struct {
	in   *instance
	step func(kind string, arg int) error
}

func stepIter[T ~string | ~[]byte](x *ctx, in *instance, it iter[T], conv func([]byte) T, texts [][]byte) func(string, int) error {
	m := &histModel{text: in.text, o: in.o}
	set := histSetters(it)
	return func(kind string, arg int) error {
		switch kind {
		case "next":
			if m.pos >= len(m.text) {
				if it.Next() {
					return fmt.Errorf("Next is true at the end")
				}
				return nil
			}
			end, _, _, err := m.next(x, m.pos)
			if err != nil {
				return err
			}
			if !it.Next() {
				return fmt.Errorf("Next is false at %d of %d", m.pos, len(m.text))
			}
			m.start, m.pos = m.pos, end
		case "first":
			if len(m.text) == 0 {
				return nil
			}
			end, _, _, err := m.next(x, 0)
			if err != nil {
				return err
			}
			if f := it.First(); string(f) != string(m.text[:end]) {
				return fmt.Errorf("First is %+q, want %+q", string(f), m.text[:end])
			}
		case "reset":
			it.Reset()
			m.start, m.pos = 0, 0
			m.invalidate()
		case "set":
			m.text = texts[arg%len(texts)]
			it.SetText(conv(m.text))
			m.start, m.pos = 0, 0
			m.invalidate()
		case "ansi":
			if set.ansi != nil {
				m.o.a7, m.o.a8 = arg&1 != 0, arg&2 != 0
				set.ansi(m.o.a7, m.o.a8)
				m.invalidate()
			}
		case "join":
			if set.join != nil {
				m.o.j, m.o.lead, m.o.mid = 1, nil, nil
				switch arg % 3 {
				case 0:
					m.o.lead = []rune{'#', '@'}
				case 1:
					m.o.mid = []rune{'-', '/', ' '}
				}
				set.join(m.o)
				m.invalidate()
			}
		}
		if s, e := it.Start(), it.End(); s != m.start || e != m.pos {
			return fmt.Errorf("[Start,End) is [%d,%d), want [%d,%d)", s, e, m.start, m.pos)
		}
		if v := it.Value(); string(v) != string(m.text[m.start:m.pos]) {
			return fmt.Errorf("Value is %+q, want %+q", string(v), m.text[m.start:m.pos])
		}
		return nil
	}
}

func (x *ctx) stepper(in *instance, texts [][]byte) *stepper {
	s := &stepper{in: in}
	k, pos := 0, 0
	switch in.kind {
	case kindString:
		s.step = stepIter(x, in, in.iterString(), toString, texts)
	case kindBytes:
		s.step = stepIter(x, in, in.iterBytes(), func(b []byte) []byte { return b }, texts)
	case kindReader:
		sc := in.scanner()
		s.step = func(string, int) error {
			if k >= len(in.want) {
				if sc.Scan() || sc.Err() != nil {
					return fmt.Errorf("after the last token: token %+q, Err %v", sc.Bytes(), sc.Err())
				}
				return nil
			}
			if !sc.Scan() {
				return fmt.Errorf("Scan is false at %d of %d, Err %v", pos, len(in.text), sc.Err())
			}
			if sc.Text() != string(in.text[pos:in.want[k]]) {
				return fmt.Errorf("token %d is %+q, want %+q", k, sc.Text(), in.text[pos:in.want[k]])
			}
			pos = in.want[k]
			k++
			return nil
		}
	default:
		f := splitFunc(in.o.pkg)
		s.step = func(_ string, arg int) error {
			if k >= len(in.want) {
				return nil
			}
			if arg&3 == 1 {
				// without the flag, for the rest cut short: any answer
				f(in.text[pos:min(len(in.text), pos+arg&15)], false)
			}
			adv, tok, err := f(in.text[pos:], true)
			if err != nil || pos+adv != in.want[k] || string(tok) != string(in.text[pos:in.want[k]]) {
				return fmt.Errorf("at %d: advance %d, token %+q, error %v, want %+q", pos, adv, tok, err, in.text[pos:in.want[k]])
			}
			pos = in.want[k]
			k++
			return nil
		}
	}
	return s
}

// checkInterleaved applies the operations in turn, then walks every instance
// to its end, round robin.
func checkInterleaved(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	ins, err := x.instances(c)
	if err != nil {
		return err
	}
	if len(ins) == 0 {
		return nil
	}
	var texts [][]byte
	for _, a := range c.Alt {
		texts = append(texts, []byte(a))
	}
	var ss []*stepper
	for _, in := range ins {
		ss = append(ss, x.stepper(in, texts))
	}
	do := func(k int, kind string, arg int) error {
		w.Evals(1)
		if err := ss[k].step(kind, arg); err != nil {
			return fmt.Errorf("among %d interleaved instances, %v, %s: %w", len(ins), ins[k], kind, err)
		}
		return nil
	}
	if len(ins) > 1 && len(c.Ops) > 1 {
		w.NonTrivial()
	}
	for _, op := range c.Ops {
		if err := do(op.A%len(ss), op.K, op.B); err != nil {
			return err
		}
	}
	for n := 0; n < 12; n++ {
		for k := range ss {
			if err := do(k, "next", 0); err != nil {
				return err
			}
		}
	}
	return nil
}

// checkReused walks one instance after the other over one buffer, the contents
// of which are replaced in between.
func checkReused(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	ins, err := x.instances(c)
	if err != nil {
		return err
	}
	var longest int
	for _, in := range ins {
		longest = max(longest, len(in.text))
	}
	if len(ins) > 1 && longest > 0 {
		w.NonTrivial()
	}
	buf := make([]byte, longest+4)
	w.Evals(len(ins))
	var ends []int
	for k, in := range ins {
		off := 0
		if in.read&12 == 12 {
			off = in.read & 3
		}
		for i := range buf {
			buf[i] = 'x'
		}
		n := copy(buf[off:], in.str)
		in.text = buf[off : off+n]
		if in.read&1 != 0 {
			in.text = in.text[:n:n]
		}
		if ends, err = in.run(ends, in.read&2 != 0); err != nil {
			return fmt.Errorf("instance %d over the same buffer, %v: %w", k+1, in, err)
		}
	}
	return nil
}

// reorder returns text with its characters in another order: as long, with
// other tokens.
func reorder(r *eng.Rng, text []byte) []byte {
	rs := []rune(string(text))
	if len(rs) < 2 {
		return text
	}
	for k := r.In(1, 4); k > 0; k-- {
		i, j := r.N(len(rs)), r.N(len(rs))
		if r.P(2) {
			i = r.N(min(3, len(rs)))
		}
		rs[i], rs[j] = rs[j], rs[i]
	}
	return []byte(string(rs))
}

// drawConc draws texts, joiners and instances.
func drawConc(r *eng.Rng, c *eng.Case, instances, max int, damaged bool) {
	drawJoiners(r, c, false)
	if c.J == 2 {
		c.J = 1
	}
	for k := r.In(1, 3); k > 0; k-- {
		pkg := r.N(4)
		var b []byte
		switch {
		case r.P(4):
			b = ansiText(r, r.In(1, 3))
		case damaged && r.P(4):
			b = gen.Bytes(r, pkg, max)
		default:
			b = gen.Text(r, pkg, max)
			d := c.Clone()
			b = spice(r, d, b)
		}
		c.Alt = append(c.Alt, b)
	}
	for k := 0; k < instances; k++ {
		c.Ints = append(c.Ints, r.N(len(concConfs)), r.N(kinds), r.N(8), r.N(16))
	}
}

func validConc(c *eng.Case) bool {
	if len(c.Alt) == 0 || len(c.Ints) < instLen || c.N < 0 {
		return false
	}
	for _, n := range c.Ints {
		if n < 0 {
			return false
		}
	}
	for _, x := range append(append([]rune(nil), c.Lead...), c.Mid...) {
		if badJoiner(x) {
			return false
		}
	}
	return true
}

func concSubs(tier string) []*eng.Sub {
	scale := int64(1)
	if tier == "thorough" {
		scale = 15
	}
	mixed := "the caf\u00e9's \u05d0\"\u05d1 3.14, A.B. e\u0301 \U0001F469\u200d\U0001F4BB \U0001F1FA\U0001F1F8\U0001F1EB \u0915\u094d\u0937 \uac00\u1100\u1161 \u30ab\u30bf \u6f22\u5b57 a-b #c /d_e.\r\nNext? \"Yes.\" no"
	esc := "a\x1b[1mb\x1b]0;t\x07c\x1bPq\x1b\\d"
	return []*eng.Sub{
		// first, so that nothing has run before: any lazy start-up happens in
		// several goroutines at once
		{Name: "concurrent", Seq: true, N: 12000 * scale,
			Rule: "2 to 32 instances (string and byte iterators, scanners, split functions; all packages, ANSI options, shared joiners) over 1 to 3 shared texts, each in a goroutine of its own, started together, walking 1 to 4 times, under the race detector; the first cases have every configuration and kind at once, in a process where nothing ran before; every token against the reference; non-trivial: at least two instances",
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				if i < 4 {
					c.J, c.Lead, c.Mid = 1, []rune{'#', '/'}, []rune{'-', ' '}
					c.Alt = []eng.Bytes{eng.Bytes(mixed), eng.Bytes(esc)}
					for k := range concConfs {
						for kind := 0; kind < kinds; kind++ {
							c.Ints = append(c.Ints, k, kind, 0, kind, k, kind, (k+kind)&1, 3)
						}
					}
					c.N = 2
					return c
				}
				drawConc(r, c, r.In(2, eng.Pick(r, []int{4, 8, 32})), eng.Pick(r, []int{10, 40, 200}), true)
				c.N = r.In(1, 4)
				return c
			}, Valid: validConc, Check: checkConcurrent},
		{Name: "interleaved", N: 300000 * scale,
			Rule: "2 to 6 instances over 1 to 3 shared texts, 2 to 40 operations (Next, First, Reset, SetText, ANSI options, joiners; Scan; a split-function call) on random instances, then round robin; every token, Start, End and First against a model of each instance alone; non-trivial: at least two instances and two operations",
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				n := r.In(2, 6)
				drawConc(r, c, n, 24, false)
				ks := []string{"next", "next", "next", "next", "first", "reset", "set", "ansi", "join"}
				for k := r.In(2, 40); k > 0; k-- {
					c.Ops = append(c.Ops, eng.Op{K: eng.Pick(r, ks), A: r.N(n), B: r.N(16)})
				}
				return c
			}, Valid: validConc, Check: checkInterleaved},
		{Name: "many", N: 500 * scale,
			Rule: "as interleaved, with up to 2000 instances alive, and up to 3 operations on each",
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				n := min(gen.Len(r, []int{9, 17, 33, 65, 129, 257, 300, 513, 1025}), 2000) + 1
				drawConc(r, c, n, 12, false)
				ks := []string{"next", "next", "next", "next", "first", "reset", "set", "ansi", "join"}
				for k := r.N(3 * n); k > 0; k-- {
					c.Ops = append(c.Ops, eng.Op{K: eng.Pick(r, ks), A: r.N(n), B: r.N(16)})
				}
				return c
			}, Valid: validConc, Check: checkInterleaved},
		{Name: "reused", N: 100000 * scale,
			Rule: "2 to 12 instances (as above), one after the other, over one buffer whose contents are replaced in between, most often by the same characters in another order; every token, and First, against the reference; non-trivial: at least two instances and a text",
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				drawConc(r, c, r.In(2, 12), eng.Pick(r, []int{3, 10, 40}), false)
				for k := r.In(1, 4); k > 0; k-- {
					c.Alt = append(c.Alt, reorder(r, eng.Pick(r, c.Alt)))
				}
				same, kind := r.P(2), r.P(2) // one configuration, one kind
				for k := 0; k+instLen <= len(c.Ints); k += instLen {
					if same {
						c.Ints[k] = c.Ints[0]
					}
					if kind {
						c.Ints[k+1] = c.Ints[1]
					}
					c.Ints[k+2] = r.N(len(c.Alt))
				}
				return c
			}, Valid: validConc, Check: checkReused},
	}
}

func init() {
	register(&eng.Prop{ID: "C13", Subs: concSubs, NewCtx: newCtx, Race: true,
		Assumptions: []string{"Schedules are those the Go scheduler and 8 cores produce; the race detector also reports races between accesses that did not happen to collide.",
			"Where a text is not valid UTF-8 (or not in the domain of the ANSI reference), the expected tokens are those of an instance run alone beforehand."}})
}
