package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing/iotest"

	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
)

// C07: readers of the standard library, which have more methods than Read
// (WriteTo, ReadByte, Len, Seek, ...), and are perhaps not at their start.

// everyReader has all of a strings.Reader's methods, and more that lie about
// what is to come; a scanner has no business with any of them.
type everyReader struct {
	*strings.Reader
}

func (e everyReader) Close() error                          { panic("closed by the scanner") }
func (e everyReader) Bytes() []byte                         { return []byte("not the text") }
func (e everyReader) String() string                        { return "not the text" }
func (e everyReader) Size() int64                           { return 3 }
func (e everyReader) Len() int                              { return 3 }
func (e everyReader) Peek(n int) ([]byte, error)            { return []byte("not the text"), nil }
func (e everyReader) Buffered() int                         { return 3 }
func (e everyReader) Cap() int                              { return 3 }
func (e everyReader) Stat() (os.FileInfo, error)            { return nil, os.ErrInvalid }
func (e everyReader) ReadString(delim byte) (string, error) { return "not the text", io.EOF }

var readerKinds = []struct {
	name string
	make func(s string, k int) (io.Reader, func())
}{
	{"strings.Reader", func(s string, k int) (io.Reader, func()) { return strings.NewReader(s), nil }},
	{"strings.Reader, in part read", func(s string, k int) (io.Reader, func()) {
		r := strings.NewReader("before" + s)
		io.CopyN(io.Discard, r, 6)
		return r, nil
	}},
	{"bytes.Reader, sought", func(s string, k int) (io.Reader, func()) {
		r := bytes.NewReader([]byte("before" + s))
		r.Seek(-int64(len(s)), io.SeekEnd)
		return r, nil
	}},
	{"bytes.Reader, a rune read", func(s string, k int) (io.Reader, func()) {
		r := bytes.NewReader([]byte("\u00e9" + s))
		r.ReadRune()
		return r, nil
	}},
	{"bytes.Buffer", func(s string, k int) (io.Reader, func()) { return bytes.NewBufferString(s), nil }},
	{"bytes.Buffer, in part read", func(s string, k int) (io.Reader, func()) {
		b := bytes.NewBufferString("before" + s)
		b.Next(6)
		return b, nil
	}},
	{"bufio.Reader", func(s string, k int) (io.Reader, func()) {
		return bufio.NewReaderSize(strings.NewReader(s), 16+k%100), nil
	}},
	{"bufio.Reader, peeked and in part read", func(s string, k int) (io.Reader, func()) {
		r := bufio.NewReaderSize(strings.NewReader("before"+s), 16+k%100)
		r.Discard(6)
		r.Peek(k % 16)
		return r, nil
	}},
	{"bufio.ReadWriter", func(s string, k int) (io.Reader, func()) {
		return bufio.NewReadWriter(bufio.NewReader(strings.NewReader(s)), bufio.NewWriter(io.Discard)), nil
	}},
	{"io.LimitedReader", func(s string, k int) (io.Reader, func()) {
		return io.LimitReader(strings.NewReader(s+"after"), int64(len(s))), nil
	}},
	{"io.SectionReader", func(s string, k int) (io.Reader, func()) {
		return io.NewSectionReader(strings.NewReader("before"+s+"after"), 6, int64(len(s))), nil
	}},
	{"io.MultiReader", func(s string, k int) (io.Reader, func()) {
		i, j := k%(len(s)+1), k/7%(len(s)+1)
		if i > j {
			i, j = j, i
		}
		return io.MultiReader(strings.NewReader(s[:i]), bytes.NewReader([]byte(s[i:j])), bytes.NewBufferString(s[j:])), nil
	}},
	{"io.TeeReader", func(s string, k int) (io.Reader, func()) {
		return io.TeeReader(strings.NewReader(s), io.Discard), nil
	}},
	{"io.NopCloser", func(s string, k int) (io.Reader, func()) { return io.NopCloser(strings.NewReader(s)), nil }},
	{"io.Pipe", func(s string, k int) (io.Reader, func()) {
		r, w := io.Pipe()
		go func() {
			i := k % (len(s) + 1)
			io.WriteString(w, s[:i])
			io.WriteString(w, s[i:])
			w.Close()
		}()
		return r, func() { r.Close() }
	}},
	{"iotest.OneByteReader", func(s string, k int) (io.Reader, func()) {
		return iotest.OneByteReader(strings.NewReader(s)), nil
	}},
	{"iotest.HalfReader", func(s string, k int) (io.Reader, func()) { return iotest.HalfReader(strings.NewReader(s)), nil }},
	{"iotest.DataErrReader", func(s string, k int) (io.Reader, func()) {
		return iotest.DataErrReader(strings.NewReader(s)), nil
	}},
	{"a reader with many methods", func(s string, k int) (io.Reader, func()) {
		return everyReader{strings.NewReader(s)}, nil
	}},
	{"os.File", func(s string, k int) (io.Reader, func()) {
		dir, err := os.MkdirTemp("", "uaxverif")
		if err != nil {
			return nil, nil
		}
		name := filepath.Join(dir, "text")
		os.WriteFile(name, []byte("before"+s), 0o600)
		f, err := os.Open(name)
		if err != nil {
			os.RemoveAll(dir)
			return nil, nil
		}
		f.Seek(6, io.SeekStart)
		return f, func() { f.Close(); os.RemoveAll(dir) }
	}},
	{"os.Pipe", func(s string, k int) (io.Reader, func()) {
		r, w, err := os.Pipe()
		if err != nil {
			return nil, nil
		}
		go func() {
			io.WriteString(w, s)
			w.Close()
		}()
		return r, func() { r.Close() }
	}},
}

func checkReaders(w *eng.W, c *eng.Case) error {
	x := scratch(w)
	o := caseOpts(c)
	text := []byte(c.Text)
	if len(c.Ints) > 0 { // a long stream
		for text = append(text, '\n'); len(text) < c.Ints[0]; {
			text = append(text, text...)
		}
	}
	want, err := x.wholeEnds(o, text)
	if err != nil {
		return err
	}
	if len(want) > 1 {
		w.NonTrivial()
	}
	k := readerKinds[c.N%len(readerKinds)]
	rd, done := k.make(string(text), c.N/len(readerKinds))
	if rd == nil {
		w.Label("not-available")
		return nil
	}
	if done != nil {
		defer done()
	}
	w.Label(k.name)
	sc := scanner(o, rd)
	w.Evals(1)
	if x.ends, err = scanEnds(sc, text, x.ends[:0]); err != nil {
		return fmt.Errorf("%v FromReader(%s): %w", o, k.name, err)
	}
	if err := sc.Err(); err != nil {
		return fmt.Errorf("%v FromReader(%s): Err is %v", o, k.name, err)
	}
	if !sameEnds(x.ends, want) {
		return diffEnds(fmt.Sprintf("%v FromReader(%s)", o, k.name), text, x.ends, want)
	}
	return nil
}

func readerSubs(scale int64) *eng.Sub {
	return &eng.Sub{Name: "readers", N: 60000 * scale,
		Rule: fmt.Sprintf("%d kinds of readers of the standard library, in part read before or not, and one with methods that mislead; texts, some of several times the default buffer, and streams of up to 8 MiB; non-trivial: more than one token", len(readerKinds)),
		Gen: func(r *eng.Rng, i int64) *eng.Case {
			c := &eng.Case{N: r.N(1<<20)*len(readerKinds) + int(i)%len(readerKinds)}
			streamOpts(r, c)
			c.Text = spice(r, c, gen.Text(r, c.Pkg, 40))
			if r.P(4) {
				for k := r.In(1, 60); k > 0; k-- {
					c.Text = append(c.Text, spice(r, c, gen.Text(r, c.Pkg, 60))...)
				}
				if len(c.Text) > 30000 {
					c.Text = c.Text[:30000]
				}
			}
			if i%4000 == 999 {
				c.Ints = []int{eng.Pick(r, []int{1 << 18, 1 << 20, 1 << 21, 1 << 22})}
			}
			return c
		}, Check: checkReaders}
}
