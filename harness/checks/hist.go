package checks

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/words"
	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
)

// C12, C18, C20: histories of operations on an iterator, against a model: a
// text, a cursor, and the rule that gives the next token of a remaining text.

// splitProg is a split function made from a case: Ints give the advances, as
// a function of the remaining text; Bad gives what goes wrong, and at which
// length of the remaining text.
type splitProg struct {
	adv   []int
	salt  int
	fault string
	at    int // the fault happens when the remaining length is at most this
}

func (p *splitProg) hash(n int, first, last byte) int {
	h := uint32(n)*2654435761 ^ uint32(first)*40503 ^ uint32(last)*69069 ^ uint32(p.salt)*2246822519
	h ^= h >> 13
	h *= 2654435761
	h ^= h >> 15
	return int(h & 0x7FFFFFFF)
}

var errSplit = errors.New("the split function failed")

type errType struct{}

func (*errType) Error() string { return "the split function failed, with no details" }

// Errors: no error is more of a failure than another.
var splitErrs = []error{errSplit, io.EOF, bufio.ErrFinalToken, io.ErrUnexpectedEOF, io.ErrShortBuffer, io.ErrNoProgress,
	bufio.ErrTooLong, bufio.ErrNegativeAdvance, bufio.ErrAdvanceTooFar, bufio.ErrBadReadCount, fs.ErrClosed, (*errType)(nil),
	context.Canceled, fmt.Errorf("at the end: %w", io.EOF), errors.Join(bufio.ErrFinalToken, errSplit)}

func (p *splitProg) err(n int) error {
	return splitErrs[(p.salt+n+len(p.adv))%len(splitErrs)]
}

// advance returns what the function says about a remaining text.
func (p *splitProg) advance(n int, first, last byte) (int, error) {
	if p.fault != "" && n <= p.at {
		switch p.fault {
		case "zero":
			return 0, nil
		case "negative":
			return -1 - p.salt&7, nil
		case "over":
			return n + 1 + p.salt&3, nil
		case "far":
			return n + 1<<20, nil
		case "max":
			return math.MaxInt - p.salt&1, nil
		case "min":
			return math.MinInt + p.salt&1, nil
		case "error":
			return 1 + p.salt%n, p.err(n)
		case "error0":
			return 0, p.err(n)
		case "error-over":
			return n + 1 + p.salt&1, p.err(n)
		}
	}
	a := 1
	if len(p.adv) > 0 {
		a = p.adv[p.hash(n, first, last)%len(p.adv)]
		if a < 1 {
			a = n // the rest
		}
	}
	return min(a, n), nil
}

func (p *splitProg) bad(n int) bool { return p.fault != "" && n <= p.at }

// callLog records what a split function was given.
type callLog struct {
	text  string // the expected text
	wrong string
}

func progFunc[T ~string | ~[]byte](p *splitProg, log *callLog) func(T, bool) (int, T, error) {
	return func(d T, eof bool) (int, T, error) {
		var none T
		if len(d) == 0 {
			return 0, none, nil
		}
		if !eof {
			log.wrong = "called without the end-of-input flag"
		}
		if len(d) > len(log.text) || string(d) != log.text[len(log.text)-len(d):] {
			log.wrong = fmt.Sprintf("called with %+q, which is not the rest of the text %+q", string(d), log.text)
		}
		a, err := p.advance(len(d), d[0], d[len(d)-1])
		if a < 0 || a > len(d) {
			return a, none, err
		}
		// the advance decides; what is given as the token need not be as long
		tok := d[:a]
		if p.salt%3 == 1 && a > 0 {
			switch p.hash(len(d), d[0], d[len(d)-1]) / 16 % 8 {
			case 0:
				tok = none
			case 1: // as bufio.ScanLines does
				tok = d[:a-1]
			case 2:
				tok = d[1:a]
			case 3:
				tok = d
			case 4:
				tok = T("something else")
			}
		}
		return a, tok, err
	}
}

// model of an iterator.
type histModel struct {
	text       []byte
	start, pos int
	// tokens ahead, as ends, valid while base <= pos
	ends []int
	k    int
	ok   bool
	o    opts
	prog *splitProg // nil: the package's own rules
	last bool       // the last byte alone is a token without asking prog (C18)
	log  *callLog   // set when the iterator was made with prog
}

func (m *histModel) invalidate() { m.ok = false }

func validFor(o opts, b []byte) bool {
	if o.a7 || o.a8 {
		return outside(b, o.a7, o.a8, nil)
	}
	return utf8.Valid(b)
}

// tokens lists the ends of the tokens of a text by the package's rules: by
// the reference, or from a fresh iterator where the reference does not apply.
func (x *ctx) tokens(o opts, b []byte) ([]int, error) {
	if validFor(o, b) {
		return append([]int(nil), x.refEnds(o, b)...), nil
	}
	return collect(iterBytes(o, b), b, nil)
}

// next returns the end of the token that starts at pos; bad if there must be
// a panic instead; free if either will do.
func (m *histModel) next(x *ctx, pos int) (end int, bad, free bool, err error) {
	n := len(m.text) - pos
	if m.prog != nil {
		if m.prog.bad(n) {
			return pos + 1, true, m.last && n == 1, nil
		}
		a, _ := m.prog.advance(n, m.text[pos], m.text[len(m.text)-1])
		return pos + a, false, false, nil
	}
	if pos == 0 && m.pos != 0 {
		// First: not at the cursor
		e, err := x.tokens(m.o, m.text)
		if err != nil {
			return 0, false, false, err
		}
		return e[0], false, false, nil
	}
	if !m.ok {
		e, err := x.tokens(m.o, m.text[pos:])
		if err != nil {
			return 0, false, false, err
		}
		for i := range e {
			e[i] += pos
		}
		m.ends, m.k, m.ok = e, 0, true
	}
	for m.k < len(m.ends) && m.ends[m.k] <= pos {
		m.k++
	}
	return m.ends[m.k], false, false, nil
}

// try calls f and reports whether it panicked.
func try(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

type setters[T ~string | ~[]byte] struct {
	ansi  func(a7, a8 bool)
	join  func(o opts)
	split func(f func(T, bool) (int, T, error))
}

// runHist applies the case's operations to an iterator, made with cur, and to
// the model.
func runHist[T ~string | ~[]byte](w *eng.W, c *eng.Case, it iter[T], cur T, set setters[T], m *histModel, conv func([]byte) T) error {
	x := scratch(w)
	log := m.log
	if log == nil {
		log = &callLog{text: string(m.text)}
	}
	if m.prog != nil && m.log == nil {
		set.split(progFunc[T](m.prog, log))
	}
	observe := func(when string) error {
		w.Evals(3)
		if s, e := it.Start(), it.End(); s != m.start || e != m.pos {
			return fmt.Errorf("%s: Start and End are %d and %d, want %d and %d", when, s, e, m.start, m.pos)
		}
		if v := it.Value(); string(v) != string(m.text[m.start:m.pos]) {
			return fmt.Errorf("%s: Value is %+q, want %+q", when, string(v), m.text[m.start:m.pos])
		}
		return nil
	}
	if err := observe("at first"); err != nil {
		return err
	}
	done, changed := 0, 0
	for i, op := range unroll(c.Ops) {
		when := fmt.Sprintf("operation %d (%s %d)", i, op.K, op.A)
		switch op.K {
		case "next":
			w.Evals(1)
			if m.pos >= len(m.text) {
				if it.Next() {
					return fmt.Errorf("%s: Next is true at the end", when)
				}
				done++
				break
			}
			end, bad, free, err := m.next(x, m.pos)
			if err != nil {
				return err
			}
			var more bool
			if p := try(func() { more = it.Next() }); p != nil {
				if !bad {
					return fmt.Errorf("%s: Next panics: %v", when, p)
				}
				w.Label("panic")
				w.NonTrivial()
				return nil // the history ends here
			}
			if bad && !free {
				return fmt.Errorf("%s: Next returns %v with [%d,%d), where the split function misbehaves: want a panic", when, more, it.Start(), it.End())
			}
			if !more {
				return fmt.Errorf("%s: Next is false at %d of %d", when, m.pos, len(m.text))
			}
			m.start, m.pos = m.pos, end
		case "first":
			w.Evals(1)
			var f T
			if len(m.text) == 0 {
				if p := try(func() { f = it.First() }); p != nil || len(f) != 0 {
					return fmt.Errorf("%s: First of no text: %v %q", when, p, string(f))
				}
				break
			}
			end, bad, free, err := m.next(x, 0)
			if err != nil {
				return err
			}
			if p := try(func() { f = it.First() }); p != nil {
				if !bad {
					return fmt.Errorf("%s: First panics: %v", when, p)
				}
				w.Label("panic")
				w.NonTrivial()
				break // the cursor is where it was
			}
			if bad && !free {
				return fmt.Errorf("%s: First is %+q, where the split function misbehaves: want a panic", when, string(f))
			}
			if string(f) != string(m.text[:end]) {
				return fmt.Errorf("%s: First is %+q, want %+q", when, string(f), m.text[:end])
			}
		case "reset":
			it.Reset()
			m.start, m.pos = 0, 0
			m.invalidate()
			changed++
		case "set":
			m.text = append([]byte(nil), c.Alt[op.A%len(c.Alt)]...)
			cur = conv(m.text)
			it.SetText(cur)
			m.start, m.pos = 0, 0
			log.text = string(m.text)
			m.invalidate()
			changed++
		case "again": // SetText with memory the iterator already has
			s, e := 0, len(m.text)
			switch op.A % 5 {
			case 1: // what is left
				s = m.pos
			case 2: // the current token
				s, e = m.start, m.pos
			case 3: // what is behind
				e = m.pos
			case 4: // from the current token
				s = m.start
			}
			cur = cur[s:e]
			m.text = append([]byte(nil), m.text[s:e]...)
			it.SetText(cur)
			m.start, m.pos = 0, 0
			log.text = string(m.text)
			m.invalidate()
			changed++
		case "near": // SetText with a text that differs little from the present one
			m.text = nearText(m.text, op.A)
			if b, ok := any(cur).([]byte); ok && op.A&1 == 1 && len(m.text) <= cap(b) {
				// in the same memory
				b = b[:len(m.text)]
				copy(b, m.text)
				cur = any(b).(T)
			} else {
				cur = conv(m.text)
			}
			it.SetText(cur)
			m.start, m.pos = 0, 0
			log.text = string(m.text)
			m.invalidate()
			changed++
		case "ansi":
			if set.ansi != nil {
				m.o.a7, m.o.a8 = op.A&1 != 0, op.A&2 != 0
				set.ansi(m.o.a7, m.o.a8)
				m.invalidate()
				changed++
			}
		case "join":
			if set.join != nil {
				m.o.j = 1 + op.A%3
				m.o.lead, m.o.mid = c.Lead, c.Mid
				switch m.o.j {
				case 2:
					m.o.lead, m.o.mid = nil, nil
				case 3:
					m.o.j, m.o.lead, m.o.mid = 1, c.Mid, nil
				}
				m.prog = nil
				set.join(m.o)
				m.invalidate()
				changed++
			}
		case "split":
			if set.split != nil && len(c.Ints) > 0 {
				m.prog = &splitProg{adv: c.Ints, salt: op.A, fault: c.Str, at: c.N}
				set.split(progFunc[T](m.prog, log))
				changed++
			}
		}
		if log.wrong != "" {
			return fmt.Errorf("%s: the split function is %s", when, log.wrong)
		}
		if err := observe("after " + when); err != nil {
			return err
		}
	}
	if done > 0 {
		w.Label("exhausted")
	}
	if changed > 0 {
		w.Label("changed")
		w.NonTrivial()
	}
	return nil
}

// nearText changes a text in one place, or not at all.
func nearText(text []byte, a int) []byte {
	b := append([]byte(nil), text...)
	rs := []string{"a", " ", ".", "1", "\n", "'", "-", "#", "\x1b", "\u00e9", "\u0301", "\u05d0", "B"}
	in := rs[a%len(rs)]
	at := 0
	if len(b) > 0 {
		at = a * 7919 % len(b)
		for at > 0 && !utf8.RuneStart(b[at]) {
			at--
		}
	}
	_, n := utf8.DecodeRune(b[at:])
	switch a / 2 % 5 {
	case 0: // one character for another of the same length
		for k := range rs {
			if in = rs[(a+k)%len(rs)]; len(in) == n {
				return append(append(append([]byte(nil), b[:at]...), in...), b[at+n:]...)
			}
		}
	case 1:
		return append(append(append([]byte(nil), b[:at]...), in...), b[at+n:]...)
	case 2: // one less
		return append(b[:at], b[at+n:]...)
	case 3: // one more at the end
		return append(b, in...)
	}
	return b
}

func toString(b []byte) string { return string(b) }
func toBytes(b []byte) []byte  { return append(make([]byte, 0, len(b)+8), b...) }

func histSetters[T ~string | ~[]byte](it iter[T]) setters[T] {
	var s setters[T]
	switch v := any(it).(type) {
	case *graphemes.Iterator[T]:
		s.ansi = func(a7, a8 bool) { v.AnsiEscapeSequences, v.AnsiEscapeSequences8Bit = a7, a8 }
	case *words.Iterator[T]:
		s.join = func(o opts) { v.Joiners(joiners[T](o)) }
	}
	return s
}

// C12
func checkHistory(w *eng.W, c *eng.Case) error {
	o := caseOpts(c)
	text := []byte(c.Text)
	if c.N&1 == 0 {
		it := iterString(o, string(text))
		return runHist(w, c, it, string(text), histSetters(it), &histModel{text: text, o: o}, toString)
	}
	cur := toBytes(text)
	it := iterBytes(o, cur)
	return runHist(w, c, it, cur, histSetters(it), &histModel{text: text, o: o}, toBytes)
}

// C20: on a words iterator, which also takes joiners.
func checkCustom(w *eng.W, c *eng.Case) error {
	text := []byte(c.Text)
	m := &histModel{text: text, o: opts{pkg: gen.Words}}
	if c.A7 { // start with the function set
		m.prog = &splitProg{adv: c.Ints, salt: c.J, fault: c.Str, at: c.N}
	}
	switch c.Pkg {
	case 0:
		it := words.FromString(string(text))
		s := histSetters[string](it)
		s.split = it.Split
		return runHist[string](w, c, it, string(text), s, m, toString)
	case 1:
		cur := toBytes(text)
		it := words.FromBytes(cur)
		s := histSetters[[]byte](it)
		s.split = it.Split
		return runHist[[]byte](w, c, it, cur, s, m, toBytes)
	}
	// a zero iterator of a named type: it has no function until one is set
	m.prog = &splitProg{adv: c.Ints, salt: c.J, fault: c.Str, at: c.N}
	m.text = text
	var it words.Iterator[myString]
	m.log = &callLog{text: string(text)}
	it.Split(progFunc[myString](m.prog, m.log))
	it.SetText(myString(text))
	return runHist[myString](w, c, &it, myString(text), setters[myString]{split: it.Split, join: func(o opts) { it.Joiners(joiners[myString](o)) }}, m, func(b []byte) myString { return myString(b) })
}

func drawOps(r *eng.Rng, max int, kinds []string) []eng.Op {
	n := r.In(1, max)
	var ops []eng.Op
	for i := 0; i < n; i++ {
		switch r.N(10) {
		case 0, 1, 2, 3, 4:
			ops = append(ops, eng.Op{K: "next"})
			if r.P(6) { // a burst, perhaps past the end
				for k := r.Geo(6); k > 0; k-- {
					ops = append(ops, eng.Op{K: "next"})
				}
			}
		case 5, 6:
			ops = append(ops, eng.Op{K: "first"})
		default:
			ops = append(ops, eng.Op{K: eng.Pick(r, kinds), A: r.N(64)})
		}
	}
	return ops
}

// all op sequences over a small alphabet
func enumOps(kinds []eng.Op, i int64, n int) []eng.Op {
	var ops []eng.Op
	for k := 0; k < n; k++ {
		ops = append(ops, kinds[i%int64(len(kinds))])
		i /= int64(len(kinds))
	}
	return ops
}

// unroll replaces each "loop", which stands for B more rounds of the A
// operations before it.
func unroll(ops []eng.Op) []eng.Op {
	var out []eng.Op
	for _, op := range ops {
		if op.K != "loop" {
			out = append(out, op)
			continue
		}
		body := out[len(out)-min(max(op.A, 0), len(out)):]
		for k := 0; k < op.B && len(out) < 300000; k++ {
			out = append(out, body...)
		}
	}
	return out
}

var rounds = []int{15, 63, 127, 128, 255, 256, 256, 257, 512, 999, 1000, 1024, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65536, 65537}

// drawLoops draws operations of which a few are done again and again. On big
// texts that is only Next.
func drawLoops(r *eng.Rng, kinds []string, big bool) []eng.Op {
	ops := drawOps(r, 4, kinds)
	for k := r.In(1, 2); k > 0; k-- {
		var round []eng.Op
		switch {
		case big:
			round = []eng.Op{{K: "next"}}
		case r.Bool(): // one operation, an exact number of times
			round = []eng.Op{{K: eng.Pick(r, append([]string{"next", "first"}, kinds...)), A: r.N(64)}}
		case r.P(3):
			round = []eng.Op{{K: eng.Pick(r, kinds), A: r.N(64)}, {K: "next"}}
		default:
			round = drawOps(r, 5, kinds)
		}
		for j := range round {
			if round[j].K == "near" { // the text would grow and grow
				round[j].K = "set"
			}
		}
		n := gen.Len(r, rounds)
		if big && r.Bool() {
			n = 70000
		}
		if r.Bool() {
			ops = append(ops, eng.Op{K: "first"})
		}
		ops = append(ops, round...)
		ops = append(ops, eng.Op{K: "loop", A: len(round), B: min(n, 100000/len(round)) - 1})
		if r.Bool() {
			ops = append(ops, eng.Op{K: eng.Pick(r, []string{"first", "next"})})
		}
	}
	return append(ops, drawOps(r, 12, kinds)...)
}

// manyTokens repeats a text or two to many tokens.
func manyTokens(r *eng.Rng, text func() []byte) []byte {
	u := text()
	if r.Bool() {
		u = []byte(eng.Pick(r, []string{"\n", "\n", "a\n", "!A", "\r\n", "\u2029", ",", "e\u0301"}))
	}
	if len(u) == 0 {
		return nil
	}
	n := min(eng.Pick(r, []int{300, 1100, 4200, 33000, 66000, 66000, 66000}), 200000/len(u))
	return append(bytes.Repeat(u, n), text()...)
}

func pow(a int64, n int) int64 {
	p := int64(1)
	for ; n > 0; n-- {
		p *= a
	}
	return p
}

func historySubs(tier string) []*eng.Sub {
	scale := int64(1)
	opLen := 6
	if tier == "thorough" {
		scale, opLen = 15, 7
	}
	rule := "non-trivial: at least one Reset, SetText, option change or Joiners call"
	kinds := []string{"reset", "set", "set", "again", "near", "ansi", "join"}
	text := func(r *eng.Rng, c *eng.Case) []byte {
		switch r.N(8) {
		case 0:
			return nil
		case 1:
			return spice(r, c, gen.Bytes(r, c.Pkg, 20))
		case 2:
			if c.Pkg == gen.Graphemes {
				return fixANSI(ansiText(r, eng.Pick(r, []int{7, 8})), r.Bool(), r.Bool())
			}
		}
		return spice(r, c, gen.Text(r, c.Pkg, 20))
	}
	alphabet := []eng.Op{{K: "next"}, {K: "first"}, {K: "reset"}, {K: "set", A: 0}, {K: "set", A: 1}, {K: "ansi", A: 1}, {K: "ansi", A: 2}, {K: "ansi", A: 0}}
	alphabetW := []eng.Op{{K: "next"}, {K: "first"}, {K: "reset"}, {K: "set", A: 0}, {K: "set", A: 1}, {K: "join", A: 0}, {K: "join", A: 1}, {K: "next"}}
	bases := []eng.Case{
		{Pkg: gen.Graphemes, Text: eng.Bytes("a\x1b[1mb\x9b1me\u0301"), Alt: []eng.Bytes{eng.Bytes("\r\nx\x1b[0m"), eng.Bytes("")}},
		{Pkg: gen.Words, Text: eng.Bytes("a-b c 1 #d"), Alt: []eng.Bytes{eng.Bytes("xy z-z"), eng.Bytes("")}, Lead: []rune{'#'}, Mid: []rune{'-'}},
		{Pkg: gen.Sentences, Text: eng.Bytes("A b. C d? E"), Alt: []eng.Bytes{eng.Bytes("a 1"), eng.Bytes("")}},
		{Pkg: gen.Phrases, Text: eng.Bytes("a b, c d\n"), Alt: []eng.Bytes{eng.Bytes("x y z"), eng.Bytes("")}},
	}
	count := pow(8, opLen)
	return []*eng.Sub{
		{Name: "random", N: 3000000 * scale,
			Rule: "random histories of Next, First, Reset, SetText (with other texts, with parts of the present one, and with texts that differ from it in one place, in the same memory or not), option toggles and Joiners with all observers after each operation, on random texts (some empty, some not valid UTF-8), string or bytes, four packages; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{N: r.N(2)}
				drawOpts(r, c, false)
				if c.Pkg == gen.Words && c.J == 0 {
					drawJoiners(r, c, false)
					c.J = 0
				}
				c.Text = text(r, c)
				for k := r.In(1, 3); k > 0; k-- {
					c.Alt = append(c.Alt, text(r, c))
				}
				c.Ops = drawOps(r, 25, kinds)
				return c
			}, Check: checkHistory},
		{Name: "all-short", Enum: true, Full: true, N: count * int64(len(bases)) * 2,
			Rule: fmt.Sprintf("every history of exactly %d operations from 8, on a fixed text per package, string and bytes; %s", opLen, rule),
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := bases[i%int64(len(bases))].Clone()
				i /= int64(len(bases))
				c.N = int(i & 1)
				i >>= 1
				a := alphabet
				if c.Pkg != gen.Graphemes {
					a = alphabetW
				}
				c.Ops = enumOps(a, i, opLen)
				return c
			}, Check: checkHistory},
		{Name: "long", N: 20000 * scale,
			Rule: "histories of up to 600 operations on texts of up to 400 pieces; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{N: r.N(2)}
				drawOpts(r, c, false)
				big := func() []byte {
					var b []byte
					for k := r.N(60); k > 0; k-- {
						b = append(b, spice(r, c, gen.Text(r, c.Pkg, 30))...)
					}
					return b
				}
				c.Text = big()
				c.Alt = []eng.Bytes{big(), text(r, c)}
				c.Ops = drawOps(r, 600, []string{"next", "next", "next", "next", "next", "next", "next", "next", "reset", "set", "again", "near", "ansi", "join"})
				return c
			}, Check: checkHistory},
		{Name: "loops", N: 1100 * scale,
			Rule: "histories where some operations are repeated up to 65,537 times, often an exact power of two of times, on texts of up to 12 characters, one in four repeated up to 66,000 times; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{N: r.N(2)}
				drawOpts(r, c, false)
				c.Text = spice(r, c, gen.Text(r, c.Pkg, 12))
				c.Alt = []eng.Bytes{spice(r, c, gen.Text(r, c.Pkg, 6)), text(r, c)}
				big := r.P(4)
				if big {
					c.Text = manyTokens(r, func() []byte { return spice(r, c, gen.Text(r, c.Pkg, 3)) })
				}
				c.Ops = drawLoops(r, kinds, big)
				return c
			}, Check: checkHistory},
		{Name: "big", N: 1200 * scale,
			Rule: "histories of up to 60 operations on texts of 500 bytes to 131,075, often of about a power of two; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{N: r.N(2)}
				drawOpts(r, c, false)
				c.Text = gen.Big(r, c.Pkg, r.P(8))
				c.Alt = []eng.Bytes{gen.Big(r, c.Pkg, r.P(8)), text(r, c)}
				c.Ops = drawOps(r, 60, kinds)
				return c
			}, Check: checkHistory},
	}
}

var faults = []string{"zero", "negative", "over", "far", "max", "min", "error", "error0", "error-over"}

func drawProg(r *eng.Rng, c *eng.Case, n int) {
	c.Ints = nil
	for k := r.In(1, 5); k > 0; k-- {
		if r.P(8) {
			c.Ints = append(c.Ints, gen.Len(r, []int{5}))
			continue
		}
		c.Ints = append(c.Ints, eng.Pick(r, []int{0, 1, 1, 1, 2, 2, 3, 4, 7, 20}))
	}
	if r.P(3) {
		c.Str = eng.Pick(r, faults)
		c.N = r.N(n + 2)
	}
}

func progSubs(check func(*eng.W, *eng.Case) error, types int, generic bool) func(tier string) []*eng.Sub {
	return func(tier string) []*eng.Sub {
		scale := int64(1)
		opLen := 6
		if tier == "thorough" {
			scale, opLen = 15, 7
		}
		rule := "non-trivial: a change of text, cursor or function, or a required panic"
		kinds := []string{"reset", "set", "again", "near", "split", "join"}
		if generic {
			kinds = []string{"reset", "set", "again", "near", "split"}
		}
		text := func(r *eng.Rng) []byte {
			switch r.N(6) {
			case 0:
				return nil
			case 1:
				return gen.Bytes(r, gen.Words, 20)
			case 2, 3: // plain ASCII words
				var b []byte
				for k := r.In(1, 20); k > 0; k-- {
					b = append(b, "abcXYZ019  "[r.N(11)])
				}
				return b
			}
			return gen.Text(r, gen.Words, 20)
		}
		valid := func(c *eng.Case) bool { return len(c.Alt) > 0 && len(c.Ints) > 0 }
		alphabet := []eng.Op{{K: "next"}, {K: "first"}, {K: "reset"}, {K: "set", A: 0}, {K: "set", A: 1}, {K: "split", A: 1}, {K: "split", A: 2}, {K: "next"}}
		progs := [][]int{{1}, {2}, {0}, {1, 2, 3}, {3, 1}}
		count := pow(8, opLen)
		return []*eng.Sub{
			{Name: "random", N: 3000000 * scale,
				Rule: "random split functions (advance as a hash of the remaining text, from 1 to 5 choices; one in three failing, stalling, going backwards or overrunning at some point), random texts and histories of Next, First, Reset, SetText (with other texts, with parts of the present one, and with texts that differ from it in one place, in the same memory or not), Split (and Joiners where there are any), string, bytes and named types; " + rule,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					c := &eng.Case{Pkg: r.N(types), J: r.N(8), A7: !r.P(4)}
					c.Text = text(r)
					for k := r.In(1, 3); k > 0; k-- {
						c.Alt = append(c.Alt, text(r))
					}
					drawProg(r, c, len(c.Text))
					if !generic {
						j := &eng.Case{}
						drawJoiners(r, j, false)
						c.Lead, c.Mid = j.Lead, j.Mid
					}
					c.Ops = drawOps(r, 25, kinds)
					return c
				}, Valid: valid, Check: check},
			{Name: "all-short", Enum: true, Full: true, N: count * int64(len(progs)) * int64(types),
				Rule: fmt.Sprintf("every history of exactly %d operations from 8, for 5 split functions on a fixed text; %s", opLen, rule),
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					c := &eng.Case{Text: eng.Bytes("abc de 1 fgh"), Alt: []eng.Bytes{eng.Bytes("xy z"), eng.Bytes("")}, A7: true}
					c.Ints = progs[i%int64(len(progs))]
					i /= int64(len(progs))
					c.Pkg = int(i % int64(types))
					i /= int64(types)
					c.Ops = enumOps(alphabet, i, opLen)
					return c
				}, Valid: valid, Check: check},
			{Name: "big", N: 2500 * scale,
				Rule: "as random, on texts of 500 bytes to 131,075, often of about a power of two, with advances of up to 100,000; " + rule,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					c := &eng.Case{Pkg: r.N(types), J: r.N(8), A7: true}
					c.Text = gen.Big(r, gen.Words, r.Bool())
					c.Alt = []eng.Bytes{gen.Big(r, gen.Words, r.Bool()), text(r)}
					drawProg(r, c, len(c.Text))
					for k := r.In(1, 3); k > 0; k-- {
						c.Ints = append(c.Ints, gen.Len(r, []int{255, 256, 1000, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 100000}))
					}
					c.Ops = drawOps(r, 40, kinds)
					return c
				}, Valid: valid, Check: check},
			{Name: "loops", N: 1100 * scale,
				Rule: "as random, with operations repeated up to 65,537 times, often an exact power of two of times, on texts of up to 20 characters, one in four repeated up to 66,000 times; " + rule,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					c := &eng.Case{Pkg: r.N(types), J: r.N(8), A7: true}
					c.Text = text(r)
					c.Alt = []eng.Bytes{text(r), text(r)}
					drawProg(r, c, len(c.Text))
					if r.P(2) {
						c.Str = ""
					}
					big := r.P(4)
					if big {
						c.Text = manyTokens(r, func() []byte { return gen.Text(r, gen.Words, 3) })
					}
					c.Ops = drawLoops(r, kinds, big)
					return c
				}, Valid: valid, Check: check},
			{Name: "faults", Enum: true, Full: true, N: int64(len(faults)) * 14 * int64(types) * int64(len(progs)) * 2,
				Rule: "each kind of misbehaviour at each remaining length from 0 to 13, reached by Next only or after First; " + rule,
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					c := &eng.Case{Text: eng.Bytes("abc de 1 fgh"), Alt: []eng.Bytes{eng.Bytes("x")}, A7: true}
					c.Str = faults[i%int64(len(faults))]
					i /= int64(len(faults))
					c.J = int(i) % 61
					c.N = int(i % 14)
					i /= 14
					c.Pkg = int(i % int64(types))
					i /= int64(types)
					c.Ints = progs[i%int64(len(progs))]
					i /= int64(len(progs))
					for k := 0; k < 15; k++ {
						if i == 1 {
							c.Ops = append(c.Ops, eng.Op{K: "first"})
						}
						c.Ops = append(c.Ops, eng.Op{K: "next"})
					}
					return c
				}, Valid: valid, Check: check},
		}
	}
}

func init() {
	register(&eng.Prop{ID: "C12", Subs: guided(historySubs, -1, 24000, 120), NewCtx: newCtx})
	register(&eng.Prop{ID: "C20", Subs: func(tier string) []*eng.Sub {
		return append(guided(progSubs(checkCustom, 3, false), gen.Words, 24000, 120)(tier), hugeSplits(hugeWords))
	}, NewCtx: newCtx})
}
