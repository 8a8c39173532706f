package gen

import (
	"sync"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/ref"
)

var segs = sync.Pool{New: func() any { return ref.NewSeg(Table()) }}

// window is how many characters back LongToken looks to see whether the next
// ones join.
const window = 12

// LongToken draws a text which, by the rules, is one token, or a few, of about
// n bytes, of as many different kinds of characters as rules allow to follow one
// another: characters are drawn, and kept when there is no boundary in front
// of them.
func LongToken(r *eng.Rng, pkg, n int) []byte {
	seg := segs.Get().(*ref.Seg)
	defer segs.Put(seg)
	var rs []int32
	var b []byte
	var palette []rune
	if r.P(3) {
		for k := r.In(3, 8); k > 0; k-- {
			palette = append(palette, Rune(r, pkg))
		}
	}
	draw := func() rune {
		if palette != nil && !r.P(10) {
			return eng.Pick(r, palette)
		}
		return Rune(r, pkg)
	}
	fails, tries := 0, 0
	for len(b) < n && tries < 20*n+100 {
		tries++
		k := len(rs)
		m := 1
		if r.P(3) {
			m = r.In(2, 4)
		}
		for ; m > 0; m-- {
			rs = append(rs, draw())
		}
		from := max(0, k-window)
		w := rs[from:]
		var bnd []bool
		switch pkg {
		case Graphemes:
			bnd = seg.Graphemes(w)
		case Words:
			bnd = seg.Words(w)
		case Sentences:
			bnd = seg.Sentences(w)
		default:
			bnd = seg.Phrases(w)
		}
		whole := true
		for i := max(1, k-2-from); i < len(w); i++ {
			whole = whole && !bnd[i]
		}
		if !whole && fails < 40 {
			rs = rs[:k]
			if fails++; k > 1 && fails == 20 {
				rs = rs[:k-1] // another way on
				_, s := utf8.DecodeLastRune(b)
				b = b[:len(b)-s]
			}
			continue
		}
		fails = 0
		for _, c := range rs[k:] {
			b = utf8.AppendRune(b, c)
		}
	}
	return b
}

// AroundLongToken is a long token between short texts, changed in one place, or not.
func AroundLongToken(r *eng.Rng, pkg, limit int) []byte {
	n := Len(r, []int{20, 40, 64, 100, 128, 257, 513, 1025, 4097, 8193, 16385, 65537})
	n = 1 + r.N(min(n, limit))
	b := LongToken(r, pkg, n)
	if r.P(2) {
		k := r.N(len(b))
		for !utf8.RuneStart(b[k]) {
			k--
		}
		_, s := utf8.DecodeRune(b[k:])
		c := append([]byte{}, b[k+s:]...)
		if !r.P(3) {
			b = utf8.AppendRune(b[:k:k], Rune(r, pkg))
		} else {
			b = b[:k:k]
		}
		b = append(b, c...)
	}
	if r.P(2) {
		b = append(Text(r, pkg, 10), b...)
	}
	if r.P(2) {
		b = append(b, Text(r, pkg, 10)...)
	}
	return b
}
