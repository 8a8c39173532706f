package checks

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"syscall"
	"unsafe"

	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
)

// C14: tokens are views; the input is never written to; text ahead of the
// cursor is read when the cursor gets there.

// arena is memory that can be made read-only, with an inaccessible page after
// it, so that a write (even one that is undone) or a read past the end faults.
type arena struct {
	mem  []byte
	size int
}

func newArena(size int) (*arena, error) {
	m, err := syscall.Mmap(-1, 0, size+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return nil, err
	}
	if err := syscall.Mprotect(m[size:], syscall.PROT_NONE); err != nil {
		return nil, err
	}
	return &arena{m, size}, nil
}

// put copies b to the end of the arena.
func (a *arena) put(b []byte) []byte {
	d := a.mem[a.size-len(b) : a.size : a.size]
	copy(d, b)
	return d
}

func (a *arena) readonly(on bool) error {
	p := syscall.PROT_READ
	if !on {
		p |= syscall.PROT_WRITE
	}
	return syscall.Mprotect(a.mem[:a.size], p)
}

type viewCtx struct {
	ctx
	arena *arena
}

func newViewCtx() any {
	v := &viewCtx{ctx: *newCtx().(*ctx)}
	v.arena, _ = newArena(1 << 20)
	return v
}

// isView reports whether v is data[s:e], by address.
func isView(v, data []byte, s, e int) bool {
	if len(v) != e-s {
		return false
	}
	return len(v) == 0 || unsafe.SliceData(v) == unsafe.SliceData(data[s:])
}

func walkViews(w *eng.W, o opts, text []byte) error {
	it := iterBytes(o, text)
	n := 0
	for it.Next() {
		n++
		s, e := it.Start(), it.End()
		if s < 0 || e < s || e > len(text) {
			return fmt.Errorf("%v: token %d spans [%d,%d) of %d bytes", o, n, s, e, len(text))
		}
		if v := it.Value(); !isView(v, text, s, e) {
			return fmt.Errorf("%v: token %d, %+q, is not the input's memory at [%d,%d)", o, n, v, s, e)
		}
		if n == 1 {
			if f := it.First(); len(f) == 0 || !isView(f, text, 0, len(f)) {
				return fmt.Errorf("%v: First, %+q, is not the input's memory", o, f)
			}
		}
		if n > len(text) {
			return fmt.Errorf("%v: more tokens than bytes", o)
		}
	}
	w.Evals(1)
	if n > 1 {
		w.NonTrivial()
	}
	// after SetText
	it.SetText(text)
	if it.Next() && !isView(it.Value(), text, it.Start(), it.End()) {
		return fmt.Errorf("%v: after SetText, token %+q is not the input's memory", o, it.Value())
	}
	if o.a7 || o.a8 || o.j != 0 {
		return nil
	}
	split := splitFunc(o.pkg)
	for pos := 0; pos < len(text); {
		for _, eof := range []bool{false, true} {
			a, tok, err := split(text[pos:], eof)
			w.Evals(1)
			if err != nil || a < 0 || pos+a > len(text) || (eof && a == 0) {
				return fmt.Errorf("%v: split function at %d: %d %v", o, pos, a, err)
			}
			if a > 0 && !isView(tok, text, pos, pos+a) {
				return fmt.Errorf("%v: split function at %d: token %+q is not the input's memory", o, pos, tok)
			}
			if eof {
				pos += a
			}
		}
	}
	return nil
}

func checkViews(w *eng.W, c *eng.Case) error {
	o := caseOpts(c)
	keep := append([]byte(nil), c.Text...)
	// margins around the text, to be left alone too
	buf := append(append([]byte("margin--"), c.Text...), "--margin"...)
	all := append([]byte(nil), buf...)
	text := buf[8 : 8+len(keep)]
	if err := walkViews(w, o, text); err != nil {
		return err
	}
	if !bytes.Equal(buf, all) {
		return fmt.Errorf("%v: the input or the memory around it was written to", o)
	}
	return nil
}

// checkCapacity: as checkViews, with room for N more bytes after the text.
func checkCapacity(w *eng.W, c *eng.Case) error {
	o := caseOpts(c)
	buf := make([]byte, len(c.Text)+c.N)
	copy(buf, c.Text)
	for i := len(c.Text); i < len(buf); i++ {
		buf[i] = byte(i)
	}
	all := append([]byte(nil), buf...)
	if err := walkViews(w, o, buf[:len(c.Text)]); err != nil {
		return err
	}
	if !bytes.Equal(buf, all) {
		return fmt.Errorf("%v: the input or the memory after it was written to", o)
	}
	return nil
}

func checkReadOnly(w *eng.W, c *eng.Case) (err error) {
	v := w.Ctx.(*viewCtx)
	if v.arena == nil || len(c.Text) > v.arena.size {
		return fmt.Errorf("%w: no arena", eng.ErrTool)
	}
	o := caseOpts(c)
	text := v.arena.put(c.Text)
	if err := v.arena.readonly(true); err != nil {
		return fmt.Errorf("%w: mprotect: %v", eng.ErrTool, err)
	}
	defer func() {
		p := recover()
		if e := v.arena.readonly(false); e != nil && err == nil {
			err = fmt.Errorf("%w: mprotect: %v", eng.ErrTool, e)
		}
		if p != nil {
			err = fmt.Errorf("%v: %v (the input is in read-only memory, with nothing after it)", o, p)
		}
	}()
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	return walkViews(w, o, text)
}

// checkMutation walks an iterator; between steps the caller overwrites parts
// of the text. Ops: next, first, and "put" with A (which of Alt), B (where).
func checkMutation(w *eng.W, c *eng.Case) error {
	x := &w.Ctx.(*viewCtx).ctx
	o := caseOpts(c)
	text := append([]byte(nil), c.Text...)
	it := iterBytes(o, text)
	start, pos := 0, 0
	puts := 0
	expect := func(at int) (int, error) { // the end of the token at at
		rest := append([]byte(nil), text[at:]...)
		e, err := x.tokens(o, rest)
		if err != nil {
			return 0, err
		}
		return at + e[0], nil
	}
	for i, op := range c.Ops {
		w.Evals(1)
		switch op.K {
		case "next":
			more := it.Next()
			if pos >= len(text) {
				if more {
					return fmt.Errorf("%v: operation %d: Next is true at the end", o, i)
				}
				continue
			}
			e, err := expect(pos)
			if err != nil {
				return err
			}
			if !more || it.Start() != pos || it.End() != e {
				return fmt.Errorf("%v: operation %d: Next on %+q at %d gives %v [%d,%d), want %+q", o, i, text, pos, more, it.Start(), it.End(), text[pos:e])
			}
			start, pos = pos, e
			if puts > 0 {
				w.NonTrivial()
			}
		case "first":
			if len(text) == 0 {
				continue
			}
			e, err := expect(0)
			if err != nil {
				return err
			}
			if f := it.First(); !isView(f, text, 0, e) {
				return fmt.Errorf("%v: operation %d: First of %+q is %+q, want %+q", o, i, text, f, text[:e])
			}
		case "put":
			if len(text) == 0 {
				continue
			}
			at := op.B % (len(text) + 1)
			if op.B&1 == 0 {
				at = pos + op.B%(len(text)-pos+1) // ahead of the cursor
			}
			copy(text[at:], c.Alt[op.A%len(c.Alt)])
			puts++
		}
		if v := it.Value(); !isView(v, text, start, pos) {
			return fmt.Errorf("%v: operation %d: Value %+q is not the input's memory at [%d,%d)", o, i, v, start, pos)
		}
	}
	return nil
}

func viewSubs(tier string) []*eng.Sub {
	scale := int64(1)
	depth := 3
	if tier == "thorough" {
		scale, depth = 15, 4
	}
	rule := "non-trivial: more than one token"
	text := func(r *eng.Rng, c *eng.Case, max int) []byte {
		if r.P(4) {
			return spice(r, c, gen.Bytes(r, c.Pkg, max))
		}
		return spice(r, c, gen.Text(r, c.Pkg, max))
	}
	subs := []*eng.Sub{
		{Name: "random", N: 3000000 * scale,
			Rule: "random texts (one in four damaged), all packages and options: every token, First and split-function token (at and before the end of input) by address; the memory of the text and around it compared afterwards; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				drawOpts(r, c, true)
				c.Text = text(r, c, 40)
				return c
			}, Check: checkViews},
		{Name: "read-only", N: 150000 * scale,
			Rule: "as random, with the text in read-only memory directly before an inaccessible page, so that any write, even one undone later, and any read past the end faults; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				drawOpts(r, c, true)
				c.Text = text(r, c, 40)
				if r.P(4) {
					for k := r.N(50); k > 0; k-- {
						c.Text = append(c.Text, text(r, c, 40)...)
					}
				}
				return c
			}, Check: checkReadOnly},
		{Name: "capacity", N: 3000 * scale,
			Rule: "texts of up to 131,075 bytes, often of about a power of two, with room for 0 to 300,000 more bytes in their slice; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				drawOpts(r, c, true)
				if r.P(3) {
					c.Text = text(r, c, 40)
				} else {
					c.Text = gen.Big(r, c.Pkg, r.Bool())
				}
				n := len(c.Text)
				switch r.N(5) {
				case 0:
				case 1:
					c.N = r.N(20)
				case 2:
					c.N = n*r.In(1, 3) + r.In(-1, 1)
				default:
					c.N = r.N(300000)
				}
				c.N = max(0, min(c.N, 300000))
				return c
			}, Valid: func(c *eng.Case) bool { return c.N >= 0 && c.N <= 300000 }, Check: checkCapacity},
		{Name: "changed-text", N: 2000000 * scale,
			Rule: "histories of Next and First where the caller overwrites parts of the text in between, half of them ahead of the cursor: later tokens are those of the text as it then is; non-trivial: a Next after an overwrite",
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				c := &eng.Case{}
				drawOpts(r, c, false)
				c.Text = text(r, c, 30)
				for k := r.In(1, 3); k > 0; k-- {
					c.Alt = append(c.Alt, text(r, c, 6))
				}
				for k := r.In(2, 25); k > 0; k-- {
					switch r.N(5) {
					case 0, 1:
						c.Ops = append(c.Ops, eng.Op{K: "put", A: r.N(3), B: r.N(1 << 16)})
					case 2:
						c.Ops = append(c.Ops, eng.Op{K: "first"})
					default:
						c.Ops = append(c.Ops, eng.Op{K: "next"})
					}
				}
				return c
			}, Valid: func(c *eng.Case) bool { return len(c.Alt) > 0 }, Check: checkMutation},
		{Name: "code-points", Enum: true, Full: true, N: gen.NumRunes,
			Rule: "every Unicode scalar value beside letters, one configuration each in turn; " + rule,
			Gen: func(r *eng.Rng, i int64) *eng.Case {
				all := allOpts()
				c := all[(i/64+i)%int64(len(all))].Clone()
				s := string(gen.RuneAt(i))
				c.Text = eng.Bytes("a" + s + "b " + s + s + ".")
				return c
			}, Check: checkViews},
	}
	all := allOpts()
	atoms := append(append([]string(nil), gen.ByteAtoms...), ".", "\u30a2", "\u200d", "\x1b[m", "\x9b1m")
	subs = append(subs, &eng.Sub{Name: "sequences", Enum: true, Full: true, N: gen.SeqCount(len(atoms), depth) * int64(len(all)),
		Rule: fmt.Sprintf("every sequence of 1..%d of %d byte fragments and characters, %d configurations; %s", depth, len(atoms), len(all), rule),
		Gen: func(r *eng.Rng, i int64) *eng.Case {
			c := all[i%int64(len(all))].Clone()
			c.Text = gen.Seq(atoms, i/int64(len(all)), nil)
			return c
		}, Check: checkViews})
	return subs
}

func init() {
	register(&eng.Prop{ID: "C14", Subs: guided(viewSubs, -1, 24000, 120), NewCtx: newViewCtx})
}
