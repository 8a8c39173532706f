package checks

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"slices"
	"syscall"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
)

// C07: streaming. C08: the split function contract.

// temporary is an error as of a network connection.
type temporary struct{}

func (temporary) Error() string   { return "timed out" }
func (temporary) Timeout() bool   { return true }
func (temporary) Temporary() bool { return true }

// readErrors are what readers fail with. Only io.EOF itself is the end.
var readErrors = []error{
	errors.New("the reader failed"), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, os.ErrDeadlineExceeded,
	temporary{}, &os.PathError{Op: "read", Path: "x", Err: syscall.EINTR}, syscall.EAGAIN, fmt.Errorf("wrapped: %w", io.EOF), errors.New("EOF"), bufio.ErrTooLong, context.Canceled,
}

// wholeEnds are the tokens of the whole text, by the byte iterator.
func (x *ctx) wholeEnds(o opts, text []byte) ([]int, error) {
	var err error
	x.want, err = collect(iterBytes(o, text), text, x.want[:0])
	if err != nil {
		return nil, fmt.Errorf("%v FromBytes: %w", o, err)
	}
	return x.want, nil
}

// scanCompare scans text in pieces and compares with want.
// mode: 0 EOF on its own, 1 EOF with the last data, 2 an error on its own,
// 3 an error with the last data.
// bufsize: 0 the default buffer, else an initial buffer of that size; max: the
// maximum (0: default).
func (x *ctx) scanCompare(w *eng.W, o opts, text []byte, want []int, sizes []int, mode, bufsize, max int) error {
	rd := &chunkReader{data: text, sizes: sizes, err: io.EOF, together: mode&1 == 1}
	var wantErr error
	if mode >= 2 {
		rd.err = readErrors[(len(text)+len(sizes))%len(readErrors)]
		wantErr = rd.err
		if len(text)%5 == 0 {
			rd.most = 99
		}
	}
	sc := scanner(o, rd)
	if bufsize > 0 || max > 0 {
		if cap(x.big) < bufsize {
			x.big = make([]byte, bufsize+64)
		}
		sc.Buffer(x.big[:0:bufsize], max)
	}
	var err error
	x.ends, err = scanEnds(sc, text, x.ends[:0])
	what := fmt.Sprintf("%v FromReader (reads %v, mode %d, buffer %d, maximum %d)", o, sizes, mode, bufsize, max)
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	w.Evals(1)
	if e := sc.Err(); e != wantErr {
		return fmt.Errorf("%s: Err is %v, want %v", what, e, wantErr)
	}
	if !sameEnds(x.ends, want) {
		return diffEnds(what, text, x.ends, want)
	}
	return nil
}

func checkStream(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	o := caseOpts(c)
	text := []byte(c.Text)
	want, err := x.wholeEnds(o, text)
	if err != nil {
		return err
	}
	if len(want) > 1 && len(c.Ints) > 0 {
		w.NonTrivial()
	}
	mode := c.N & 3
	w.Label(fmt.Sprintf("mode%d", mode))
	switch (c.N >> 2) & 3 {
	case 0: // default buffer
		max := 0
		if len(text) > 50000 {
			max = len(text) + 64
			return x.scanCompare(w, o, text, want, c.Ints, mode, 4096, max)
		}
		return x.scanCompare(w, o, text, want, c.Ints, mode, 0, 0)
	case 1: // small initial buffer
		return x.scanCompare(w, o, text, want, c.Ints, mode, 1+(c.N>>4)&63, len(text)+64)
	case 2: // initial buffer around the length of the text
		return x.scanCompare(w, o, text, want, c.Ints, mode, len(text)+1+(c.N>>4)&3, len(text)+64)
	default:
		// a maximum that just fits any four tokens in a row
		m, p := 0, 0
		for i, e := range want {
			if i >= 4 {
				p = want[i-4]
			}
			if e-p > m {
				m = e - p
			}
		}
		m += 8
		w.Label("small-max")
		return x.scanCompare(w, o, text, want, c.Ints, mode, 1+(c.N>>4)&63, m)
	}
}

var tokenUnits = [4][]string{}

func init() {
	tokenUnits[gen.Graphemes] = []string{"\u0301", "\u200d", "\u0e33", "\u1100", "\u0301\u200d\u0903"}
	tokenUnits[gen.Words] = []string{"a", "Ab9", "a.b", "1,2", "\u05d0", "\u30ab", "_", " ", "\u00ad", "x\u0301"}
	tokenUnits[gen.Sentences] = []string{"a", "Ab c, ", "A.b", "1.5 ", "\u3042", "   ", "\u00ad", "x)\u0301"}
	tokenUnits[gen.Phrases] = []string{"a ", "Ab9", "a.b ", "1,2", "\u05d0 ", "\u30ab", "_", " ", "\u00ad", "\u2600 x"}
}

// checkMaxToken scans long tokens within the scanner's own limit.
func checkMaxToken(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	o := caseOpts(c)
	text := []byte(c.Text)
	want, err := x.wholeEnds(o, text)
	if err != nil {
		return err
	}
	// how much has to fit at once
	need, p := 0, 0
	for i, e := range want {
		if e-start(want, i) > 4096 {
			w.NonTrivial()
		}
		if i >= 4 {
			p = want[i-4]
		}
		if e-p > need {
			need = e - p
		}
	}
	mode := c.N & 3
	if need <= bufio.MaxScanTokenSize-1 {
		w.Label("default")
		if err := x.scanCompare(w, o, text, want, c.Ints, mode, 0, 0); err != nil {
			return err
		}
	}
	w.Label("set")
	return x.scanCompare(w, o, text, want, c.Ints, mode, 4096, max(need+1, 4096))
}

func start(ends []int, i int) int {
	if i == 0 {
		return 0
	}
	return ends[i-1]
}

// checkCuts scans a short text with every single cut, every pair of cuts for
// the shortest, and byte by byte, in all four modes.
func checkCuts(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	o := caseOpts(c)
	text := []byte(c.Text)
	want, err := x.wholeEnds(o, text)
	if err != nil {
		return err
	}
	if len(want) > 1 {
		w.NonTrivial()
	}
	n := len(text)
	for k := 1; k <= n; k++ {
		if err := x.scanCompare(w, o, text, want, []int{k, n + 1}, (k+c.N)&3, 16+n, n+64); err != nil {
			return err
		}
	}
	if err := x.scanCompare(w, o, text, want, []int{1}, c.N&3, 1, n+64); err != nil {
		return err
	}
	return x.scanCompare(w, o, text, want, []int{0, 1}, (c.N>>1)&3, 16+n, n+64)
}

func streamOpts(r *eng.Rng, c *eng.Case) {
	c.Pkg = r.N(4)
	if r.P(4) {
		c.Pkg = gen.Words
		drawJoiners(r, c, false)
	}
}

func streamSubs(tier string) []*eng.Sub {
	scale := int64(1)
	depth := 3
	if tier == "thorough" {
		scale, depth = 12, 4
	}
	rule := "non-trivial: more than one token"
	subs := []*eng.Sub{
		{Name: "random", N: 2500000 * scale,
			Rule: "random texts (valid, and one in four damaged), packages, joiners; read sizes with empty reads; end of file or an error, alone or with the last data; default, tiny, exact and just-fitting buffers; non-trivial: more than one token, and the reads are cut",
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				streamOpts(r, c)
				if r.P(4) {
					c.Text = spice(r, c, gen.Bytes(r, c.Pkg, 40))
				} else {
					c.Text = spice(r, c, gen.Text(r, c.Pkg, 40))
				}
				c.Ints = drawChunks(r)
				c.N = r.N(1 << 10)
				return c
			}, Check: checkStream},
		{Name: "long", N: 12000 * scale,
			Rule: "as random, with concatenations of up to 200 pieces, long runs, or long runs between what a rule looks for, so that tokens meet buffer ends (4096 and its doublings)",
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				streamOpts(r, c)
				if r.P(3) {
					c.Text = gen.Stretched(r, c.Pkg, 9000)
				} else if r.P(3) {
					c.Text = longRun(r, c.Pkg, gen.Atoms(c.Pkg))
					if len(c.Text) > 30000 && c.Pkg == gen.Sentences {
						c.Text = c.Text[:30000]
						for !utf8.Valid(c.Text) {
							c.Text = c.Text[:len(c.Text)-1]
						}
					}
				} else {
					for k := r.In(2, 200); k > 0; k-- {
						c.Text = append(c.Text, spice(r, c, gen.Text(r, c.Pkg, 60))...)
					}
				}
				c.Ints = drawChunks(r)
				if r.P(2) {
					c.Ints = []int{r.In(1, 6000)}
				}
				if len(c.Text) > 20000 {
					// a scanner tries again after every read: keep the reads large
					for i := range c.Ints {
						c.Ints[i] += 3000
					}
				}
				c.N = r.N(1 << 10)
				return c
			}, Check: checkStream},
		{Name: "max-token", N: 6000 * scale,
			Rule: "texts of up to 65535 bytes (or longer, of tokens of which any four in a row fit) with tokens close to the sizes where buffers grow and to the default maximum, the scanner's buffer untouched; or a maximum set to one more than needed; non-trivial: a token longer than 4096 bytes",
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				streamOpts(r, c)
				for k := r.In(1, 4); k > 0; k-- {
					// a unit which usually stays in one token
					u := tokenUnits[c.Pkg][r.N(len(tokenUnits[c.Pkg]))]
					if r.P(6) {
						u = string(gen.Text(r, c.Pkg, 3))
					}
					n := []int{4096, 8192, 16384, 32768, 65536, r.In(1, 65535)}[r.N(6)] - r.N(8)
					if len(c.Text)+n > 65535 && r.N(4) > 0 {
						n = 65535 - len(c.Text) - r.N(3)
					}
					t := len(c.Text)
					if n > 0 && r.P(16) {
						b := gen.LongToken(r, c.Pkg, n)
						for len(b) > n || !utf8.Valid(b) {
							b = b[:len(b)-1]
						}
						c.Text = append(c.Text, b...)
						n = 0
					}
					for len(u) > 0 && len(c.Text)+len(u) <= t+n {
						c.Text = append(c.Text, u...)
					}
					c.Text = append(c.Text, []string{"", "\n", ".\u3042", ", ", "\U0001F1E6"}[r.N(5)]...)
				}
				c.Ints = [][]int{nil, {r.In(2000, 9000)}, {4096}, {1, 4096, 0, 100000}}[r.N(4)]
				c.N = r.N(1 << 10)
				return c
			}, Check: checkMaxToken},
		readerSubs(scale),
		{Name: "joiner-cuts", N: 60000 * scale,
			Rule: "random short texts with joiners, every single cut and byte by byte; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				c.Pkg = gen.Words
				drawJoiners(r, c, false)
				c.Text = spice(r, c, gen.Text(r, c.Pkg, 8))
				c.N = r.N(16)
				return c
			}, Check: checkCuts},
		{Name: "cuts", N: 150000 * scale,
			Rule: "random short texts, every single cut and byte by byte; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{Pkg: r.N(4)}
				c.Text = gen.Text(r, c.Pkg, 12)
				c.N = r.N(16)
				return c
			}, Check: checkCuts},
	}
	for pkg := 0; pkg < 4; pkg++ {
		pkg := pkg
		atoms := gen.CoreAtoms(pkg)
		if depth <= 3 {
			atoms = gen.Atoms(pkg)
		}
		subs = append(subs, &eng.Sub{Name: "cuts-" + gen.PkgNames[pkg], Enum: true, Full: true,
			Rule: fmt.Sprintf("every sequence of 1..%d of %d atoms, every single cut and byte by byte; %s", depth, len(atoms), rule),
			N:    gen.SeqCount(len(atoms), depth),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				return &eng.Case{Text: gen.Seq(atoms, i, nil), Pkg: pkg, N: int(i)}
			}, Check: checkCuts})
	}
	return subs
}

// C08. Text is the whole; Alt are other continuations. Every prefix of the
// text is offered, at every token start of the whole.
func checkContract(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	split := splitFunc(c.Pkg)
	name := gen.PkgNames[c.Pkg] + " SplitFunc"
	text := []byte(c.Text)
	call := func(data []byte, eof bool) (int, error) {
		adv, tok, err := split(data, eof)
		w.Evals(1)
		if err != nil {
			return 0, fmt.Errorf("%s(%+q, %v): error %v", name, data, eof, err)
		}
		if adv < 0 || adv > len(data) {
			return 0, fmt.Errorf("%s(%+q, %v): advance %d of %d", name, data, eof, adv, len(data))
		}
		if adv == 0 {
			if len(tok) != 0 {
				return 0, fmt.Errorf("%s(%+q, %v): token %q without advance", name, data, eof, tok)
			}
			if eof && len(data) > 0 {
				return 0, fmt.Errorf("%s(%+q, %v): no progress at the end of input", name, data, eof)
			}
			return 0, nil
		}
		if string(tok) != string(data[:adv]) {
			return 0, fmt.Errorf("%s(%+q, %v): token %q, advance %d", name, data, eof, tok, adv)
		}
		return adv, nil
	}
	pos := 0
	starts := 0
	var ks []int
	for pos < len(text) {
		rest := text[pos:]
		full, err := call(rest, true)
		if err != nil {
			return err
		}
		ks = prefixes(ks[:0], len(rest), full, pos)
		if len(rest) > allPrefixes {
			// long texts: the first few tokens, and long ones
			if starts++; starts > 12 && full < 100 || starts > 40 {
				pos += full
				continue
			}
		}
		seen := false
		for _, k := range ks {
			adv, err := call(rest[:k], false)
			if err != nil {
				return err
			}
			if adv == 0 {
				if seen {
					return fmt.Errorf("%s: committed a token for a shorter prefix, but not for %+q", name, rest[:k])
				}
				// it may wait only while the token and two complete following
				// ones are not all there
				var n int
				if n, err = x.tokenCount(split, rest[:k], 4); err != nil {
					return err
				}
				if n >= 4 {
					return fmt.Errorf("%s(%+q, false) asks for more, with three complete tokens and part of a fourth there", name, rest[:k])
				}
				continue
			}
			seen = true
			w.NonTrivial()
			if adv != full {
				return fmt.Errorf("%s(%+q, false) commits %+q, but with %+q the first token is %+q", name, rest[:k], rest[:adv], rest, rest[:full])
			}
			// other continuations
			for _, a := range c.Alt {
				d := append(append(x.buf[:0], rest[:k]...), a...)
				x.buf = d
				for _, eof := range []bool{true, false} {
					n, err := call(d, eof)
					if err != nil {
						return err
					}
					if n != adv {
						return fmt.Errorf("%s(%+q, false) commits %+q, but with %+q (eof %v) the first token is %+q", name, rest[:k], rest[:adv], d, eof, d[:n])
					}
				}
			}
		}
		pos += full
	}
	return nil
}

// Up to this length, every prefix is offered.
const allPrefixes = 400

// prefixes of a text of n bytes: all, or in a long text those around the end
// of its first token, the shortest and the longest, and some between.
func prefixes(ks []int, n, tok, salt int) []int {
	if n <= allPrefixes {
		for k := 0; k <= n; k++ {
			ks = append(ks, k)
		}
		return ks
	}
	r := eng.NewRng(int64(n), "prefixes", int64(salt))
	for k := 0; k < 16; k++ {
		ks = append(ks, k, n-k, tok+k, max(0, tok-k))
	}
	for k := 0; k < 24; k++ {
		ks = append(ks, r.N(n+1), r.N(tok+1))
	}
	slices.Sort(ks)
	ks = slices.Compact(ks)
	for len(ks) > 0 && ks[len(ks)-1] > n {
		ks = ks[:len(ks)-1]
	}
	return ks
}

func (x *ctx) tokenCount(f func([]byte, bool) (int, []byte, error), data []byte, limit int) (int, error) {
	n := 0
	for len(data) > 0 && n < limit {
		adv, _, err := f(data, true)
		if err != nil || adv <= 0 || adv > len(data) {
			return n, fmt.Errorf("split function at the end of input: %d %v", adv, err)
		}
		data = data[adv:]
		n++
	}
	return n, nil
}

func contractSubs(tier string) []*eng.Sub {
	scale := int64(1)
	depth := 4
	if tier == "thorough" {
		scale, depth = 10, 5
	}
	rule := "every prefix at every token start, followed by the rest and by other continuations; non-trivial: some prefix commits a token"
	alts := func(r *eng.Rng, pkg int, valid bool) []eng.Bytes {
		var out []eng.Bytes
		for k := 2 + r.N(3); k > 0; k-- {
			if valid {
				out = append(out, gen.Text(r, pkg, 3))
			} else {
				out = append(out, gen.Bytes(r, pkg, 3))
			}
		}
		return out
	}
	subs := []*eng.Sub{
		{Name: "random", N: 2500000 * scale, Rule: "random texts up to 20 characters, one in four damaged; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{Pkg: r.N(4)}
				bad := r.P(4)
				if bad {
					c.Text = gen.Bytes(r, c.Pkg, 20)
				} else {
					c.Text = gen.Text(r, c.Pkg, 20)
				}
				c.Alt = alts(r, c.Pkg, !r.P(3))
				return c
			}, Check: checkContract},
		{Name: "bytes", Enum: true, Full: true, N: gen.SeqCount(len(gen.ByteAtoms), depth-1) * 4,
			Rule: fmt.Sprintf("every sequence of 1..%d of %d byte fragments, four packages; %s", depth-1, len(gen.ByteAtoms), rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				return &eng.Case{Text: gen.Seq(gen.ByteAtoms, i/4, nil), Pkg: int(i % 4), Alt: alts(r, int(i%4), false)}
			}, Check: checkContract},
		{Name: "code-points", Enum: true, Full: true, N: gen.NumRunes * 4,
			Rule: "every Unicode scalar value after and before a letter, four packages; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				ch := string(gen.RuneAt(i / 4))
				return &eng.Case{Text: eng.Bytes("a" + ch + "a. " + ch), Pkg: int(i % 4), Alt: []eng.Bytes{eng.Bytes("\u0301a"), eng.Bytes(ch)}}
			}, Check: checkContract},
		{Name: "long-tokens", N: 1500 * scale,
			Rule: "runs of a unit of up to 300, as texts with look-ahead; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{Pkg: r.N(4)}
				t := longRun(r, c.Pkg, gen.Atoms(c.Pkg))
				if len(t) > 300 {
					t = t[:300]
				}
				c.Text = append(gen.Text(r, c.Pkg, 4), t...)
				c.Text = append(c.Text, gen.Text(r, c.Pkg, 4)...)
				return c
			}, Check: checkContract},
		{Name: "stretched", N: 4000 * scale,
			Rule: "a few atoms with a run of 1..65537 characters which rules skip at one or two places; in texts of over 400 bytes about 100 prefixes, most around the end of the first token; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{Pkg: r.N(4)}
				c.Text = gen.Stretched(r, c.Pkg, eng.Pick(r, []int{300, 300, 1500, 5000, 5000, 65537}))
				c.Text = append(c.Text, gen.Text(r, c.Pkg, 4)...)
				c.Alt = alts(r, c.Pkg, true)
				return c
			}, Check: checkContract},
	}
	for pkg := 0; pkg < 4; pkg++ {
		pkg := pkg
		atoms := gen.Atoms(pkg)
		d := depth
		if tier == "thorough" {
			atoms = gen.CoreAtoms(pkg)
		}
		core := gen.CoreAtoms(pkg)
		var conts []eng.Bytes
		for _, a := range core {
			conts = append(conts, eng.Bytes(a), eng.Bytes(a+"a"))
		}
		subs = append(subs, &eng.Sub{Name: "sequences-" + gen.PkgNames[pkg], Enum: true, Full: true,
			Rule: fmt.Sprintf("every sequence of 1..%d of %d atoms, every prefix continued by each of %d continuations; %s", d, len(atoms), len(conts), rule),
			N:    gen.SeqCount(len(atoms), d),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				return &eng.Case{Text: gen.Seq(atoms, i, nil), Pkg: pkg, Alt: conts}
			}, Check: checkContract})
	}
	return subs
}

func init() {
	register(&eng.Prop{ID: "C07", Subs: guided(streamSubs, -1, 24000, 120), NewCtx: newCtx})
	register(&eng.Prop{ID: "C08", Subs: guided(contractSubs, -1, 6000, 50), NewCtx: newCtx})
}
