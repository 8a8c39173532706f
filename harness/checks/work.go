package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"runtime"
	"runtime/coverage"
	"slices"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
	"github.com/clipperhouse/uax29/v2/zverif/ref"

	"github.com/clipperhouse/uax29/v2/words"
)

// C16: work. The binary is built with coverage counters in the repository's
// packages; the work of an iteration is the number of basic blocks executed.

// sumCounters adds up the counters in the output of coverage.WriteCounters.
func sumCounters(b []byte) (int64, error) {
	var sum int64
	err := eng.Counters(b, func(_, v uint32) { sum += int64(v) })
	return sum, err
}

type workCtx struct {
	out bytes.Buffer
	buf []byte
	// of the latest case
	rate float64 // blocks for each byte
}

// nexter is what walking needs of an iterator.
type nexter interface{ Next() bool }

// walkerOf makes an iterator over the text as bytes, a string, or, for words
// with joiners, a named type.
func walkerOf(o opts, text []byte, kind int) nexter {
	switch kind {
	case 1:
		return iterString(o, string(text))
	case 2:
		it := &words.Iterator[myString]{}
		it.SetText(myString(text))
		it.Joiners(joiners[myString](o))
		return it
	case 3:
		it := &words.Iterator[myBytes]{}
		it.SetText(myBytes(text))
		it.Joiners(joiners[myBytes](o))
		return it
	}
	return iterBytes(o, text)
}

var kindNames = []string{"", " as a string", " as a named string type", " as a named bytes type"}

func kindOf(c *eng.Case) int {
	if len(c.Ints) > 0 {
		return c.Ints[0]
	}
	return 0
}

// work runs the iterator over the text and counts blocks.
func (x *workCtx) work(w *eng.W, o opts, text []byte, kind int) (int64, error) {
	it := walkerOf(o, text, kind)
	if err := coverage.ClearCounters(); err != nil {
		return 0, fmt.Errorf("%w: %v", eng.ErrTool, err)
	}
	for it.Next() {
	}
	x.out.Reset()
	if err := coverage.WriteCounters(&x.out); err != nil {
		return 0, fmt.Errorf("%w: %v", eng.ErrTool, err)
	}
	w.Evals(1)
	return sumCounters(x.out.Bytes())
}

// family writes prefix unit^n second^n suffix.
func (x *workCtx) family(c *eng.Case, n int) []byte {
	b := append(x.buf[:0], c.Alt[0]...)
	for k := 0; k < n; k++ {
		b = append(b, c.Alt[1]...)
	}
	if len(c.Alt) > 3 {
		for k := 0; k < n; k++ {
			b = append(b, c.Alt[3]...)
		}
	}
	b = append(b, c.Alt[2]...)
	x.buf = b
	return b
}

func checkWork(w *eng.W, c *eng.Case) error {
	x := w.Ctx.(*workCtx)
	o := caseOpts(c)
	var v [3]int64
	size := 0
	for k := range v {
		t := x.family(c, c.N<<k)
		n, err := x.work(w, o, t, kindOf(c))
		if err != nil {
			return err
		}
		v[k] = n
		size = len(t)
	}
	if v[2] == 0 && size > 0 {
		return fmt.Errorf("%w: no work was counted: the binary is not instrumented", eng.ErrTool)
	}
	if len(c.Alt[1]) > 0 {
		w.NonTrivial()
	}
	x.rate = float64(v[2]) / float64(size+1)
	d1, d2 := v[1]-v[0], v[2]-v[1]
	if d2 > 3*d1+3000 {
		return fmt.Errorf("%v%s on %+q + %d, %d, %d times %+q + %+q: %d, %d, %d basic blocks: more than in proportion", o, kindNames[kindOf(c)], []byte(c.Alt[0]), c.N, 2*c.N, 4*c.N, []byte(c.Alt[1]), []byte(c.Alt[2]), v[0], v[1], v[2])
	}
	if v[2] > 1500*int64(size)+100000 {
		return fmt.Errorf("%v%s on %+q + %d times %+q + %+q: %d basic blocks for %d bytes", o, kindNames[kindOf(c)], []byte(c.Alt[0]), 4*c.N, []byte(c.Alt[1]), []byte(c.Alt[2]), v[2], size)
	}
	return nil
}

// climb looks for families on which work is highest: a session starts from
// random families and goes on with mutations of the costliest. The work on each
// is checked at few repetitions, and at more where it is high.
func climb(families []*eng.Sub, n int64, steps int) *eng.Sub {
	const name = "climb"
	return &eng.Sub{Name: name, N: n, Session: true, Enum: true,
		Rule: fmt.Sprintf("sessions of %d families: random ones, then mutations of those with the most basic blocks for each byte; 12, 24 and 48 repetitions of each, and 80, 160, 320 where the work is among the highest; non-trivial: all", steps),
		Gen: func(r *eng.Rng, i int64) *eng.Case {
			return &eng.Case{Str: name, N: steps, Ints: []int{int(i % int64(len(families))), int(r.U64() >> 2)}}
		},
		Valid: validWork,
		Check: func(w *eng.W, c *eng.Case) error {
			if c.Str != name {
				return checkWork(w, c)
			}
			k := c.Ints[0]
			return climbSession(w, families[k], workAtoms(workConfs()[k].Pkg), c.N, eng.NewRng(int64(c.Ints[1]), name, 0))
		}}
}

func climbSession(w *eng.W, base *eng.Sub, atoms []string, steps int, r *eng.Rng) error {
	type ranked struct {
		c    *eng.Case
		rate float64
	}
	const most = 40
	var top []ranked // the costliest first
	x := w.Ctx.(*workCtx)
	for k := 0; k < steps; k++ {
		var c *eng.Case
		if len(top) < 10 || r.P(8) {
			if c = base.Gen(r, 0); c == nil {
				continue
			}
		} else {
			c = top[min(r.N(len(top)), r.N(len(top)))].c.Clone()
			for m := 1 + r.Geo(1); m > 0; m-- {
				i := r.N(len(c.Alt))
				if r.Bool() {
					i = 1
				}
				c.Alt[i] = eng.MutateText(r, c.Alt[i], top[r.N(len(top))].c.Alt[1], []byte(eng.Pick(r, atoms)))
			}
			if r.P(20) {
				if len(c.Alt) == 3 {
					c.Alt = append(c.Alt, append(eng.Bytes(nil), c.Alt[1]...))
				} else {
					c.Alt = c.Alt[:3]
				}
			}
		}
		size := 0
		for _, a := range c.Alt {
			size += len(a)
		}
		c.N = 12
		if size > 30 || !validWork(c) {
			continue
		}
		err := checkWork(w, c.Clone())
		if errors.Is(err, eng.ErrTool) {
			return err
		}
		if err != nil { // so must it be with longer texts
			c.N = 80
			if err := checkWork(w, c.Clone()); err != nil {
				return &eng.Concrete{Err: err, Case: c}
			}
			continue
		}
		rate := x.rate
		at := len(top)
		same := false
		for at > 0 && top[at-1].rate <= rate {
			at--
			same = same || top[at].rate == rate
		}
		if at == most || same {
			continue
		}
		top = slices.Insert(top, at, ranked{c, rate})
		if len(top) > most {
			top = top[:most]
		}
		if at > 8 {
			continue
		}
		d := c.Clone()
		d.N = 80
		if err := checkWork(w, d); err != nil {
			if errors.Is(err, eng.ErrTool) {
				return err
			}
			return &eng.Concrete{Err: err, Case: d}
		}
		w.Label("kept as costly")
	}
	if len(top) > 0 {
		w.NonTrivial()
		w.Label(fmt.Sprintf("%v: up to %d blocks for a byte", caseOpts(top[0].c), int(top[0].rate)))
	}
	return nil
}

// checkMixed: work on the first eighth, quarter and half of a text without
// period, and on all of it.
func checkMixed(w *eng.W, c *eng.Case) error {
	x := w.Ctx.(*workCtx)
	o := caseOpts(c)
	var v [4]int64
	for k := range v {
		n, err := x.work(w, o, c.Text[:len(c.Text)>>(3-k)], kindOf(c))
		if err != nil {
			return err
		}
		v[k] = n
	}
	tokens := 0
	for it := walkerOf(o, c.Text, kindOf(c)); it.Next(); {
		tokens++
	}
	if tokens*20 < len(c.Text) {
		w.NonTrivial()
	}
	d1, d2, d3 := v[1]-v[0], v[2]-v[1], v[3]-v[2]
	if d3 > 3*d2+3000 && 2*d2 > 5*d1+3000 {
		return fmt.Errorf("%v%s on the first %d bytes, and on 2, 4, 8 times as many, of %.200q...: %d, %d, %d, %d basic blocks: more than in proportion", o, kindNames[kindOf(c)], len(c.Text)>>3, []byte(c.Text), v[0], v[1], v[2], v[3])
	}
	if v[3] > 1500*int64(len(c.Text))+100000 {
		return fmt.Errorf("%v%s on %.200q...: %d basic blocks for %d bytes", o, kindNames[kindOf(c)], []byte(c.Text), v[3], len(c.Text))
	}
	return nil
}

// threadCPU is the CPU time of the calling thread, to the nanosecond.
func threadCPU() time.Duration {
	var ts syscall.Timespec
	syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 3 /* CLOCK_THREAD_CPUTIME_ID */, uintptr(unsafe.Pointer(&ts)), 0)
	return time.Duration(ts.Nano())
}

func cpuOf(o opts, text []byte, kind int, runs int) time.Duration {
	best := time.Duration(1 << 62)
	for k := 0; k < runs; k++ {
		it := walkerOf(o, text, kind)
		t := threadCPU()
		for it.Next() {
		}
		best = min(best, threadCPU()-t)
	}
	return best
}

// checkCPU looks for work that basic blocks do not show (copying, searching
// in assembly): CPU time for a text eight times as long.
func checkCPU(w *eng.W, c *eng.Case) error {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	x := w.Ctx.(*workCtx)
	o := caseOpts(c)
	w.NonTrivial()
	sizes := []int{8 << 10, 64 << 10}
	if c.N == 2 {
		sizes = []int{128 << 10, 256 << 10}
	}
	for at, n := range sizes {
		m := len(c.Alt[1])
		if len(c.Alt) > 3 {
			m += len(c.Alt[3])
		}
		w.Evals(2)
		small := cpuOf(o, x.family(c, n/m), kindOf(c), 4)
		large := cpuOf(o, x.family(c, 8*n/m), kindOf(c), 1)
		if large < 10*small {
			return nil
		}
		large = min(large, cpuOf(o, x.family(c, 8*n/m), kindOf(c), 3))
		if large < 10*small || at == 1 && (large < 28*small || large < 20*time.Millisecond) {
			return nil
		}
		w.Label("looked-closer")
		if at == 1 {
			return fmt.Errorf("%v%s on %+q + times %+q + %+q: %v for %d bytes, %v for %d", o, kindNames[kindOf(c)], []byte(c.Alt[0]), []byte(c.Alt[1]), []byte(c.Alt[2]), small, n, large, 8*n)
		}
	}
	return nil
}

// openStrings: the text has several openers of control strings which are
// never closed. They are the recorded finding, and outside the other
// sub-checks.
func openStrings(c *eng.Case) bool {
	if c.Pkg != gen.Graphemes || !c.A7 && !c.A8 {
		return false
	}
	x := &workCtx{}
	return manyOpen(c, x.family(c, 4))
}

func manyOpen(c *eng.Case, b []byte) bool {
	n := 0
	for i := range b {
		if c.A7 && b[i] == 0x1B && i+1 < len(b) && bytes.IndexByte([]byte("]PX^_"), b[i+1]) >= 0 && ref.Seq7(b[i:]) == 0 {
			n++
		}
		if c.A8 && bytes.IndexByte([]byte("\x90\x98\x9d\x9e\x9f"), b[i]) >= 0 && ref.Seq8(b[i:]) == 0 {
			n++
		}
	}
	return n > 2
}

func validWork(c *eng.Case) bool {
	return len(c.Alt) >= 3 && len(c.Alt[1]) > 0 && (kindOf(c) < 2 || c.J == 1 && c.Pkg == gen.Words) && kindOf(c) < 4 && c.N > 0 && c.Str == "" && !openStrings(c)
}

// drawKind draws the type of the text.
func drawKind(r *eng.Rng, c *eng.Case) {
	if c.J == 1 {
		c.Ints = []int{r.N(4)}
	} else {
		c.Ints = []int{r.N(2)}
	}
}

// configurations whose work is measured
func workConfs() []eng.Case {
	return []eng.Case{
		{Pkg: gen.Graphemes}, {Pkg: gen.Graphemes, A7: true}, {Pkg: gen.Graphemes, A8: true}, {Pkg: gen.Graphemes, A7: true, A8: true},
		{Pkg: gen.Words}, {Pkg: gen.Words, J: 1, Mid: []rune{'-', ' '}, Lead: []rune{'#', '.'}}, {Pkg: gen.Sentences}, {Pkg: gen.Phrases},
	}
}

func workAtoms(pkg int) []string {
	out := append([]string(nil), gen.CoreAtoms(pkg)...)
	if pkg == gen.Graphemes {
		out = append(out, "\x1b[", "1", ";", " ", "\x9b", "\x85", "\u0600", "\x1b]a\x07", "\x9da\x9c")
	}
	return append(out, "\xe2", "\xff")
}

func workSubs(tier string) []*eng.Sub {
	scale := int64(1)
	if tier == "thorough" {
		scale = 12
	}
	rule := "non-trivial: a repeated unit that is not empty"
	var subs, families []*eng.Sub
	confs := workConfs()
	// the recorded finding
	openers := []struct {
		name, s string
		a8      bool
	}{
		{"ESC ]", "\x1b]", false}, {"ESC P", "\x1bP", false}, {"ESC X", "\x1bX", false}, {"ESC ^", "\x1b^", false}, {"ESC _", "\x1b_", false},
		{"0x9D", "\x9d", true}, {"0x90", "\x90", true}, {"0x98", "\x98", true}, {"0x9E", "\x9e", true}, {"0x9F", "\x9f", true},
	}
	subs = append(subs, &eng.Sub{Name: "unterminated", Enum: true, Full: true, NoShrink: true, N: int64(len(openers)),
		Rule: "repetitions of each opener of a control string, never closed (the recorded finding); " + rule,
		Gen: func(r *eng.Rng, i int64) *eng.Case {
			o := openers[i]
			return &eng.Case{Str: "repeated " + o.name + " without a terminator", A7: !o.a8, A8: o.a8, N: 256, Alt: []eng.Bytes{{}, eng.Bytes(o.s), {}}}
		}, Check: checkWork})
	prefixes := []string{"", "a", "A.", "1", "\u05d0", "\u0600", "\u3042", "\r"}
	suffixes := []string{"", "A", "a", "1", ".", "\n", "\xe2"}
	for k := range confs {
		k := k
		atoms := workAtoms(confs[k].Pkg)
		// every unit of one or two atoms, with every prefix and suffix in turn
		nu := gen.SeqCount(len(atoms), 2)
		np := int64(len(prefixes) * len(suffixes))
		total := nu * np
		n := int64(1500)
		if tier == "thorough" {
			n = 40000
		}
		if n > total {
			n = total
		}
		subs = append(subs, &eng.Sub{Name: fmt.Sprintf("one-atom-%d", k), Enum: true, Full: true, N: int64(len(atoms)) * np,
			Rule: fmt.Sprintf("%v: 128, 256 and 512 times each of %d atoms, after each of %d prefixes and before each of %d suffixes; %s", caseOpts(&confs[k]), len(atoms), len(prefixes), len(suffixes), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := confs[k].Clone()
				drawKind(r, c)
				c.N = 128
				pi, si := i%np/int64(len(suffixes)), i%int64(len(suffixes))
				c.Alt = []eng.Bytes{eng.Bytes(prefixes[pi]), eng.Bytes(atoms[i/np]), eng.Bytes(suffixes[si])}
				if !validWork(c) {
					return nil
				}
				return c
			}, Valid: validWork, Check: checkWork})
		// two atoms, and three of the characters on which shortcuts turn
		subs = append(subs, &eng.Sub{Name: fmt.Sprintf("two-atoms-%d", k), Enum: true, Full: true, N: int64(len(atoms) * len(atoms)),
			Rule: fmt.Sprintf("%v: 64, 128 and 256 times every pair of the %d atoms, with prefixes and suffixes in turn; %s", caseOpts(&confs[k]), len(atoms), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := confs[k].Clone()
				drawKind(r, c)
				c.N = 64
				n := int64(len(atoms))
				c.Alt = []eng.Bytes{eng.Bytes(eng.Pick(r, prefixes)), eng.Bytes(atoms[i/n] + atoms[i%n]), eng.Bytes(eng.Pick(r, suffixes))}
				if !validWork(c) {
					return nil
				}
				return c
			}, Valid: validWork, Check: checkWork})
		plain := []string{"a", "Z", "1", " ", ".", ",", "'", "-", "_", "\n", "\r", "\u00e9", "\u200d"}
		subs = append(subs, &eng.Sub{Name: fmt.Sprintf("three-plain-%d", k), Enum: true, Full: true, N: int64(len(plain) * len(plain) * len(plain)),
			Rule: fmt.Sprintf("%v: 64, 128 and 256 times every three of %d plain characters; %s", caseOpts(&confs[k]), len(plain), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := confs[k].Clone()
				drawKind(r, c)
				c.N = 64
				n := int64(len(plain))
				c.Alt = []eng.Bytes{{}, eng.Bytes(plain[i/n/n] + plain[i/n%n] + plain[i%n]), eng.Bytes(eng.Pick(r, suffixes))}
				return c
			}, Valid: validWork, Check: checkWork})
		subs = append(subs, &eng.Sub{Name: fmt.Sprintf("families-%d", k), N: n,
			Rule: fmt.Sprintf("%v: random families: a prefix, a repeated unit of 1 to 4 atoms or snippets, perhaps a second repeated unit, a suffix; at n, 2n and 4n; %s", caseOpts(&confs[k]), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := confs[k].Clone()
				drawKind(r, c)
				c.N = eng.Pick(r, []int{64, 100, 128, 200, 200, 500})
				unit := func() eng.Bytes {
					var b eng.Bytes
					for j := r.In(1, 4); j > 0; j-- {
						if r.P(6) {
							b = append(b, eng.Pick(r, gen.Snippets())...)
						} else if r.P(6) && (c.A7 || c.A8) {
							b = append(b, EscSeq(r)...)
						} else if r.P(10) {
							b = append(b, gen.DictStr(r)...)
						} else {
							b = append(b, eng.Pick(r, atoms)...)
						}
					}
					return b
				}
				c.Alt = []eng.Bytes{eng.Bytes(eng.Pick(r, prefixes)), unit(), eng.Bytes(eng.Pick(r, suffixes))}
				if r.P(3) {
					c.Alt[0] = unit()
				}
				if r.P(3) {
					c.Alt = append(c.Alt, unit())
				}
				if !validWork(c) {
					return nil
				}
				return c
			}, Valid: validWork, Check: checkWork})
		families = append(families, subs[len(subs)-1])
		subs = append(subs, &eng.Sub{Name: fmt.Sprintf("mixed-%d", k), NoShrink: true, N: 120 * scale,
			Rule: fmt.Sprintf("%v: texts of 8 to 32 KiB, without period, of long tokens of many kinds of characters, against their first half, quarter and eighth; non-trivial: fewer tokens than a twentieth of the bytes", caseOpts(&confs[k])),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := confs[k].Clone()
				drawKind(r, c)
				c.Text = gen.LongToken(r, c.Pkg, eng.Pick(r, []int{8192, 8192, 16384, 32768}))
				if c.J == 1 || r.P(3) {
					// joiners, sequences or whatever else a rule may mind, everywhere
					var b []byte
					u := eng.Pick(r, atoms)
					if c.J == 1 {
						u = string(eng.Pick(r, append(append([]rune(nil), c.Lead...), c.Mid...)))
					} else if c.A7 || c.A8 {
						u = string(EscSeq(r))
					}
					next := 0
					for j := 0; j < len(c.Text); j++ {
						if j >= next && utf8.RuneStart(c.Text[j]) {
							b = append(b, u...)
							next = j + r.In(1, 200)
						}
						b = append(b, c.Text[j])
					}
					c.Text = b
				}
				if (c.A7 || c.A8) && manyOpen(c, c.Text) {
					return nil
				}
				return c
			}, Valid: func(c *eng.Case) bool { return len(c.Text) >= 1024 }, Check: checkMixed})
		// work that begins late
		far := append([]string(nil), atoms...)
		for _, a := range gen.CoreAtoms(confs[k].Pkg) {
			far = append(far, "a"+a, a+" ")
		}
		subs = append(subs, &eng.Sub{Name: fmt.Sprintf("far-%d", k), Enum: true, Full: true, NoShrink: true, N: int64(len(far)),
			Rule: fmt.Sprintf("%v: 12,000, 24,000 and 48,000 times each atom, alone, after a letter, and before a space; %s", caseOpts(&confs[k]), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := confs[k].Clone()
				drawKind(r, c)
				c.N = 12000
				c.Alt = []eng.Bytes{eng.Bytes(eng.Pick(r, prefixes)), eng.Bytes(far[i]), eng.Bytes(eng.Pick(r, suffixes))}
				if !validWork(c) {
					return nil
				}
				return c
			}, Valid: validWork, Check: checkWork})
		large := []string{"a", " ", ".", "a ", "\u0301", "1,", "\u05d0", "\n", "a. ", "\U0001F600\u200d", "\u0600"}
		subs = append(subs, &eng.Sub{Name: fmt.Sprintf("cpu-large-%d", k), NoShrink: true, N: int64(len(large)) * scale,
			Rule: fmt.Sprintf("%v: CPU time for 1 MiB of each of %d units, against 128 KiB; %s", caseOpts(&confs[k]), len(large), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := confs[k].Clone()
				drawKind(r, c)
				c.N = 2
				c.Alt = []eng.Bytes{eng.Bytes(eng.Pick(r, prefixes)), eng.Bytes(large[i%int64(len(large))]), eng.Bytes(eng.Pick(r, suffixes))}
				return c
			}, Valid: validWork, Check: checkCPU})
		units := []string{"a", "1", "Z", " ", ".", ",", "'", "-", "\n", "\t", "\u00e9", "\u3042", "\u0301", "\u05d0", "\U0001F600", "\x1b[m", "\x85"}
		subs = append(subs, &eng.Sub{Name: fmt.Sprintf("cpu-pairs-%d", k), NoShrink: true, Enum: true, Full: true, N: int64(len(units) * len(units)),
			Rule: fmt.Sprintf("%v: CPU time for 64 KiB of each pair of %d units, against 8 KiB, looked at closer when slow; %s", caseOpts(&confs[k]), len(units), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := confs[k].Clone()
				drawKind(r, c)
				c.N = 1
				n := int64(len(units))
				c.Alt = []eng.Bytes{{}, eng.Bytes(units[i/n] + units[i%n]), {}}
				return c
			}, Valid: validWork, Check: checkCPU})
		subs = append(subs, &eng.Sub{Name: fmt.Sprintf("cpu-%d", k), NoShrink: true, N: int64(len(atoms)) + 60*scale,
			Rule: fmt.Sprintf("%v: CPU time for 64 KiB of each atom, and of random units, against 8 KiB, looked at closer when slow; %s", caseOpts(&confs[k]), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := confs[k].Clone()
				drawKind(r, c)
				c.N = 1
				u := eng.Bytes(atoms[i%int64(len(atoms))])
				if i >= int64(len(atoms)) {
					u = append(u, eng.Pick(r, atoms)...)
					u = append(u, eng.Pick(r, atoms)...)
				}
				c.Alt = []eng.Bytes{eng.Bytes(eng.Pick(r, prefixes)), u, eng.Bytes(eng.Pick(r, suffixes))}
				if !validWork(c) {
					return nil
				}
				return c
			}, Valid: validWork, Check: checkCPU})
	}
	return append(subs, climb(families, 16*scale, 3000))
}

func init() {
	register(&eng.Prop{ID: "C16", Remote: true, Subs: workSubs, NewCtx: func() any { return &workCtx{} },
		Pre: func() error {
			if err := coverage.ClearCounters(); err != nil {
				fmt.Fprintln(os.Stderr, "not built with coverage counters:", err)
				return err
			}
			return nil
		},
		Assumptions: []string{"Work is the number of basic blocks of the repository's packages executed, by coverage counters; work inside the standard library is seen only through CPU time.",
			"Repeated unterminated control-string openers under the ANSI options are the recorded finding; families that contain more than two of them are otherwise left out."}})
}
