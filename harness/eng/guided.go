package eng

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime/coverage"
)

// Coverage-guided search. A guided sub-check's case is a whole session, made
// from its index like any other case: it starts from generated cases of another
// sub-check, and goes on with mutations of those that reached new coverage of
// the repository's code. Sessions run in helper processes, from a binary built
// with coverage counters.

const session = "session"

// Concrete is a failure with the case that fails, where that is not the case
// the engine generated.
type Concrete struct {
	Err  error
	Case *Case
}

func (e *Concrete) Error() string { return e.Err.Error() }
func (e *Concrete) Unwrap() error { return e.Err }

// Guided makes a sub-check of n sessions of the given number of steps each.
// snippet makes short texts to insert.
func Guided(base *Sub, n int64, steps, maxText int, snippet func(r *Rng, c *Case) []byte) *Sub {
	return &Sub{
		Name: "guided", N: n, Cov: true, Session: true, Enum: true,
		Rule: fmt.Sprintf("coverage-guided: sessions of %d cases each, first of the kind %q, then mutations of those that reached new coverage of the repository's code (counters in classes by size); non-trivial: the session found more than ten such cases", steps, base.Name),
		Gen: func(r *Rng, i int64) *Case {
			return &Case{Str: session, N: steps, Ints: []int{int(r.U64() >> 2)}}
		},
		Valid: func(c *Case) bool {
			return c.Str != session && len(c.Text) <= maxText && (base.Valid == nil || base.Valid(c))
		},
		Check: func(w *W, c *Case) error {
			if c.Str != session {
				return base.Check(w, c)
			}
			if len(c.Ints) == 0 {
				return nil
			}
			return runSession(w, base, c.N, maxText, &Rng{uint64(c.Ints[0])}, snippet)
		},
	}
}

func runSession(w *W, base *Sub, steps, maxText int, r *Rng, snippet func(r *Rng, c *Case) []byte) error {
	type counter struct {
		seen  uint8 // classes of values
		hits  int   // cases that reached it
		owner *Case // the smallest of those kept
	}
	counters := map[uint32]*counter{}
	var order []*counter // as found, so that a session runs the same again
	var at []*counter    // those of one case
	var corpus []*Case
	var out bytes.Buffer
	fresh := func() *Case {
		for {
			if c := base.Gen(r, int64(r.N(1<<30))); c != nil && len(c.Text) <= maxText {
				return c
			}
		}
	}
	var total int64
	for k := 0; k < steps; k++ {
		var c *Case
		if k < 50 || r.P(20) {
			c = fresh()
		} else {
			pick := func() *Case {
				if n := len(corpus); n > 8 && r.Bool() { // the latest finds
					return corpus[n-1-r.N(n/4)]
				}
				return corpus[r.N(len(corpus))]
			}
			from := pick()
			if r.Bool() { // what reached the rarest of a few counters
				rare := order[r.N(len(order))]
				for m := r.N(8); m > 0; m-- {
					if x := order[r.N(len(order))]; x.hits < rare.hits {
						rare = x
					}
				}
				if rare.owner != nil {
					from = rare.owner
				}
			} else if x := pick(); size(x) < size(from) {
				from = x
			}
			c = from.Clone()
			for m := 1 + r.Geo(1); m > 0; m-- {
				mutate(r, c, corpus, fresh, snippet)
			}
			if len(c.Text) > maxText || base.Valid != nil && !base.Valid(c) {
				c = fresh()
			}
		}
		keep := c.Clone()
		if err := coverage.ClearCounters(); err != nil {
			return fmt.Errorf("%w: %v", ErrTool, err)
		}
		if err := base.Check(w, c); err != nil {
			if errors.Is(err, ErrTool) {
				return err
			}
			return &Concrete{err, keep}
		}
		out.Reset()
		if err := coverage.WriteCounters(&out); err != nil {
			return fmt.Errorf("%w: %v", ErrTool, err)
		}
		found := false
		at = at[:0]
		err := Counters(out.Bytes(), func(k uint32, v uint32) {
			x := counters[k]
			if x == nil {
				x = &counter{}
				counters[k] = x
				order = append(order, x)
			}
			at = append(at, x)
			x.hits++
			if bit := class(v); x.seen&bit == 0 {
				x.seen |= bit
				found = true
			}
		})
		if err != nil {
			return err
		}
		if found || len(corpus) == 0 {
			corpus = append(corpus, keep)
			for _, x := range at {
				if x.owner == nil || size(keep) < size(x.owner) {
					x.owner = keep
				}
			}
		}
		total++
	}
	w.labels["mutated and fresh cases"] += total
	w.labels["kept for new coverage"] += int64(len(corpus))
	w.labels["counters"] += int64(len(order))
	if len(corpus) > 10 {
		w.NonTrivial()
	}
	return nil
}

func size(c *Case) int {
	n := len(c.Text) + 4*len(c.Ops) + len(c.Ints)
	for _, a := range c.Alt {
		n += len(a)
	}
	return n
}

// class is one bit for the size of a counter, as AFL has it.
func class(v uint32) uint8 {
	switch {
	case v <= 3:
		return 1 << v >> 1
	case v < 8:
		return 8
	case v < 16:
		return 16
	case v < 32:
		return 32
	case v < 128:
		return 64
	}
	return 128
}

// Counters goes through the non-zero counters in the output of
// coverage.WriteCounters.
func Counters(b []byte, yield func(at uint32, v uint32)) error {
	bad := fmt.Errorf("%w: unknown format of coverage counters", ErrTool)
	if len(b) < 48 || string(b[:4]) != "\x00cwm" {
		return bad
	}
	flavor := b[24]
	p := 32
	funcs := binary.LittleEndian.Uint64(b[p:])
	p += 16 + int(binary.LittleEndian.Uint32(b[p+8:])) + int(binary.LittleEndian.Uint32(b[p+12:]))
	num := func() (uint32, bool) {
		if flavor == 1 { // raw
			if p+4 > len(b) {
				return 0, false
			}
			p += 4
			return binary.LittleEndian.Uint32(b[p-4:]), true
		}
		v, n := binary.Uvarint(b[min(p, len(b)):])
		if n <= 0 {
			return 0, false
		}
		p += n
		return uint32(v), true
	}
	for ; funcs > 0; funcs-- {
		n, ok := num()
		pkg, ok2 := num()
		fn, ok3 := num()
		if !ok || !ok2 || !ok3 {
			return bad
		}
		for k := uint32(0); k < n; k++ {
			v, ok := num()
			if !ok {
				return bad
			}
			if v != 0 {
				yield(pkg<<24|fn<<12|k, v)
			}
		}
	}
	return nil
}

func mutate(r *Rng, c *Case, corpus []*Case, fresh func() *Case, snippet func(r *Rng, c *Case) []byte) {
	other := corpus[r.N(len(corpus))]
	what := r.N(10)
	switch {
	case what == 0: // the options of another case
		o := other
		if r.Bool() {
			o = fresh()
		}
		c.Pkg, c.A7, c.A8, c.J = o.Pkg, o.A7, o.A8, o.J
		c.Lead, c.Mid = append([]rune(nil), o.Lead...), append([]rune(nil), o.Mid...)
	case what == 1 && len(c.Ops) == 0:
		c.N = fresh().N
	case what <= 4 && len(c.Ops) > 0:
		mutateOps(r, c, other, fresh)
	case what <= 3 && len(c.Ints) > 0:
		o := other
		if r.Bool() {
			o = fresh()
		}
		k := r.N(len(c.Ints))
		switch {
		case r.P(3):
			c.Ints = append([]int(nil), o.Ints...)
		case len(o.Ints) > 0 && r.Bool():
			c.Ints[k] = o.Ints[r.N(len(o.Ints))]
		case r.Bool():
			c.Ints[k]++
		case c.Ints[k] > 0:
			c.Ints[k]--
		}
	case what <= 6 && len(c.Alt) > 0:
		k := r.N(len(c.Alt))
		c.Alt[k] = MutateText(r, c.Alt[k], other.Text, snippet(r, c))
	default:
		c.Text = MutateText(r, c.Text, other.Text, snippet(r, c))
	}
}

func mutateOps(r *Rng, c, other *Case, fresh func() *Case) {
	o := other
	if r.Bool() {
		o = fresh()
	}
	i := r.N(len(c.Ops))
	j := i + 1 + r.N(min(4, len(c.Ops)-i))
	switch r.N(4) {
	case 0: // drop some
		c.Ops = append(append([]Op(nil), c.Ops[:i]...), c.Ops[j:]...)
	case 1: // twice
		if len(c.Ops) < 100 {
			c.Ops = append(append([]Op(nil), c.Ops[:j]...), c.Ops[i:]...)
		}
	default: // some of another's
		if len(o.Ops) > 0 && len(c.Ops) < 100 {
			a := r.N(len(o.Ops))
			b := a + 1 + r.N(min(4, len(o.Ops)-a))
			c.Ops = append(append(append([]Op(nil), c.Ops[:i]...), o.Ops[a:b]...), c.Ops[i:]...)
		}
	}
}

// MutateText changes a text in one place.
func MutateText(r *Rng, b, other Bytes, snippet []byte) Bytes {
	off := units(b)
	n := len(off) - 1
	i := r.N(n + 1)
	j := i + min(n-i, 1+r.Geo(2))
	cat := func(parts ...[]byte) Bytes { return bytes.Join(parts, nil) }
	switch r.N(12) {
	case 7, 8, 9: // one ASCII character
		if r.P(3) {
			j = i
		}
		return cat(b[:off[i]], []byte{byte(r.N(128))}, b[off[min(j, i+1)]:])
	case 0: // drop some
		return cat(b[:off[i]], b[off[j]:])
	case 1: // twice
		return cat(b[:off[j]], b[off[i]:])
	case 2: // many times
		return cat(b[:off[i]], bytes.Repeat(b[off[i]:off[j]], 2+r.Geo(6)), b[off[j]:])
	case 3: // replace
		return cat(b[:off[i]], snippet, b[off[j]:])
	case 4: // elsewhere
		k := r.N(n + 1)
		if k < i {
			return cat(b[:off[k]], b[off[i]:off[j]], b[off[k]:off[i]], b[off[j]:])
		}
		return cat(b[:off[j]], b[off[i]:])
	case 5: // the end of another
		o := units(other)
		return cat(b[:off[i]], other[o[r.N(len(o))]:])
	case 6: // a part of another
		o := units(other)
		x := r.N(len(o))
		y := x + min(len(o)-1-x, 1+r.Geo(3))
		return cat(b[:off[i]], other[o[x]:o[y]], b[off[i]:])
	default:
		return cat(b[:off[i]], snippet, b[off[i]:])
	}
}
