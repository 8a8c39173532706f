package checks

import (
	"fmt"
	"syscall"
	"unsafe"

	"github.com/clipperhouse/uax29/v2/words"
	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
)

// Texts of over 2 and 4 GiB: positions that do not fit 32 bits. The memory is
// mapped, and stays untouched, or has one page of real memory mapped many
// times over.

// hugeText maps n bytes which are all of one value; the caller may write a
// few.
func hugeText(n int, fill byte) ([]byte, func(), error) {
	mem, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		return nil, nil, err
	}
	free := func() { syscall.Munmap(mem) }
	if fill == 0 {
		return mem, free, nil
	}
	const page = 16 << 20
	name := [5]byte{'h', 'u', 'g', 'e'}
	fd, _, e := syscall.Syscall(319 /* memfd_create */, uintptr(unsafe.Pointer(&name)), 0, 0)
	if e != 0 {
		free()
		return nil, nil, e
	}
	defer syscall.Close(int(fd))
	b := make([]byte, page)
	for i := range b {
		b[i] = fill
	}
	if k, err := syscall.Write(int(fd), b); k != page {
		free()
		return nil, nil, fmt.Errorf("%d bytes written, %v", k, err)
	}
	base := uintptr(unsafe.Pointer(&mem[0]))
	for at := 0; at < n; at += page {
		_, _, e := syscall.Syscall6(syscall.SYS_MMAP, base+uintptr(at), uintptr(min(page, n-at)), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_FIXED|syscall.MAP_NORESERVE, fd, 0)
		if e != 0 {
			free()
			return nil, nil, e
		}
	}
	return mem, free, nil
}

// hugeWalk walks an iterator with a split function that advances as adv says,
// in turn.
func hugeWalk[T ~string | ~[]byte](it iter[T], set func(func(T, bool) (int, T, error)), text T, adv []int) error {
	base := uintptr(unsafe.Pointer(ptrOf(text)))
	pos, k, first := 0, 0, false
	wrong := ""
	set(func(d T, eof bool) (int, T, error) {
		at := pos
		if first {
			at = 0
		}
		if len(d) != len(text)-at || uintptr(unsafe.Pointer(ptrOf(d))) != base+uintptr(at) {
			wrong = fmt.Sprintf("called with %d bytes from %d, want %d from %d", len(d), uintptr(unsafe.Pointer(ptrOf(d)))-base, len(text)-at, at)
		}
		a := adv[k%len(adv)]
		if first {
			a = adv[0]
		}
		a = min(a, len(d))
		return a, d[:a], nil
	})
	for round := 0; round < 2; round++ {
		for pos, k = 0, 0; pos < len(text); k++ {
			a := min(adv[k%len(adv)], len(text)-pos)
			if !it.Next() {
				return fmt.Errorf("Next is false at %d of %d", pos, len(text))
			}
			if v := it.Value(); it.Start() != pos || it.End() != pos+a || len(v) != a || uintptr(unsafe.Pointer(ptrOf(v))) != base+uintptr(pos) {
				return fmt.Errorf("token [%d,%d), %d bytes long, want [%d,%d)", it.Start(), it.End(), len(v), pos, pos+a)
			}
			if wrong != "" {
				return fmt.Errorf("split function %s", wrong)
			}
			pos += a
			first = true
			if v := it.First(); len(v) != min(adv[0], len(text)) || ptrOf(v) != ptrOf(text) || wrong != "" {
				return fmt.Errorf("First at %d: %d bytes, want %d %s", pos, len(v), adv[0], wrong)
			}
			first = false
		}
		if it.Next() {
			return fmt.Errorf("Next is true at the end of %d bytes", len(text))
		}
		it.Reset()
	}
	return nil
}

func ptrOf[T ~string | ~[]byte](s T) *byte {
	switch v := any(s).(type) {
	case string:
		return unsafe.StringData(v)
	case []byte:
		return unsafe.SliceData(v)
	}
	return nil
}

func hugeSplits(check func(c *eng.Case, b []byte) error) *eng.Sub {
	sizes := []int{1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 5 << 30}
	advs := [][]int{{1 << 30}, {1 << 31, 1}, {1<<31 - 1, 2}, {1 << 32, 3}, {1<<32 - 1, 5}, {1<<30 + 7, 3, 1 << 31}}
	return &eng.Sub{Name: "huge", Enum: true, Full: true, NoShrink: true, N: int64(len(sizes) * len(advs) * 2),
		Rule: "texts of 2 to 5 GiB (mapped, not touched), split functions with advances of up to 4 GiB; all are non-trivial",
		Gen: func(r *eng.Rng, i int64) *eng.Case {
			n := int64(len(sizes))
			return &eng.Case{N: sizes[i%n], Ints: advs[i/n/2], J: int(i / n % 2)}
		},
		Check: func(w *eng.W, c *eng.Case) error {
			b, free, err := hugeText(c.N, 0)
			if err != nil {
				w.Label("no-memory")
				return nil
			}
			defer free()
			w.NonTrivial()
			w.Evals(1)
			if err := check(c, b); err != nil {
				return fmt.Errorf("text of %d bytes, advances %d: %w", c.N, c.Ints, err)
			}
			return nil
		}}
}

func hugeWords(c *eng.Case, b []byte) error {
	if c.J == 0 {
		it := words.FromBytes(b)
		return hugeWalk[[]byte](it, it.Split, b, c.Ints)
	}
	s := unsafe.String(&b[0], len(b))
	it := words.FromString(s)
	return hugeWalk[string](it, it.Split, s, c.Ints)
}

// hugeLossless: the packages' own rules on huge texts.
func hugeLossless(tier string) *eng.Sub {
	type family struct {
		o       opts
		fill    byte
		pre, su string
		ends    []int // of the tokens, after the end of the filling; negative: every byte
	}
	fams := []family{
		{opts{pkg: gen.Graphemes, a7: true}, 0, "\x1b]", "\x07a\r\nb", []int{1, 2, 4, 5}},
		{opts{pkg: gen.Graphemes, a8: true}, 0, "\x9d", "\x9ca\r\nb", []int{1, 2, 4, 5}},
		{opts{pkg: gen.Words}, 'a', "", " b", []int{0, 1, 2}},
	}
	sizes := []int{1<<31 + 3}
	if tier == "thorough" {
		sizes = append(sizes, 1<<32+5)
		fams = append(fams, family{opts{pkg: gen.Sentences}, 0, "", "a. B", []int{3, 4}}, family{opts{pkg: gen.Words}, 'a', "", "\u00e9 b", []int{2, 3, 4}}, family{opts{pkg: gen.Phrases}, 'a', "", "!b", []int{0, 1, 2}},
			family{opts{pkg: gen.Graphemes}, 'a', "", "\u00e9 b", nil})
	}
	return &eng.Sub{Name: "huge", Enum: true, Full: true, NoShrink: true, N: int64(len(sizes) * len(fams) * 2),
		Rule: "texts of over 2 GiB (and over 4 GiB in the thorough tier), most of one token; all are non-trivial",
		Gen: func(r *eng.Rng, i int64) *eng.Case {
			n := int64(len(fams))
			if sizes[i/n/2] > 1<<32 && (fams[i%n].o.pkg == gen.Phrases || fams[i%n].o.pkg == gen.Words) {
				return nil // too slow
			}
			return &eng.Case{N: sizes[i/n/2], Ints: []int{int(i % n)}, J: int(i / n % 2)}
		},
		Check: func(w *eng.W, c *eng.Case) error {
			f := fams[c.Ints[0]]
			b, free, err := hugeText(c.N+len(f.pre)+len(f.su), f.fill)
			if err != nil {
				w.Label("no-memory")
				return nil
			}
			defer free()
			copy(b, f.pre)
			copy(b[c.N+len(f.pre):], f.su)
			w.NonTrivial()
			w.Evals(1)
			if c.J == 0 {
				err = hugeEnds(iterBytes(f.o, b), len(f.pre)+c.N, f.ends, len(b))
			} else {
				err = hugeEnds(iterString(f.o, unsafe.String(&b[0], len(b))), len(f.pre)+c.N, f.ends, len(b))
			}
			if err != nil {
				return fmt.Errorf("%v, %q + %d times %q + %q: %w", f.o, f.pre, c.N, f.fill, f.su, err)
			}
			return nil
		}}
}

func hugeEnds[T ~string | ~[]byte](it iter[T], at int, ends []int, n int) error {
	pos := 0
	if ends == nil { // a token for every byte of the filling, then é, space, b
		for ; pos < at; pos++ {
			if !it.Next() || it.Start() != pos || it.End() != pos+1 {
				return fmt.Errorf("token [%d,%d), want [%d,%d)", it.Start(), it.End(), pos, pos+1)
			}
		}
		ends = []int{2, 3, 4}
	}
	for _, e := range ends {
		if !it.Next() || it.Start() != pos || it.End() != at+e || len(it.Value()) != at+e-pos {
			return fmt.Errorf("token [%d,%d), %d bytes, want [%d,%d)", it.Start(), it.End(), len(it.Value()), pos, at+e)
		}
		pos = at + e
	}
	if it.Next() || pos != n {
		return fmt.Errorf("another token after %d bytes", pos)
	}
	return nil
}
