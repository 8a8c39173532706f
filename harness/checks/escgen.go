package checks

import (
	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
)

// EscSeq draws an escape sequence, well-formed or not, 7-bit or 8-bit.
func EscSeq(r *eng.Rng) []byte {
	var b []byte
	body := func() {
		for k := r.Geo(4); k > 0; k-- {
			switch r.N(11) {
			case 4:
				b = append(b, byte(r.In(0xA0, 0xFF)))
			case 0:
				b = append(b, string(gen.Rune(r, gen.Graphemes))...)
			case 1:
				b = append(b, 0x1B)
			case 2:
				b = append(b, byte(r.In(0x80, 0x9F)))
			case 3:
				b = append(b, eng.Pick(r, []byte{0x07, 0x18, 0x1A, '\\', 0x9C, '\r', '\n'}))
			default:
				b = append(b, byte(r.In(0x20, 0x7E)))
			}
		}
	}
	csi := func() {
		for k := r.Geo(2); k > 0; k-- {
			b = append(b, byte(r.In(0x30, 0x3F)))
		}
		for k := r.Geo(1); k > 0; k-- {
			b = append(b, byte(r.In(0x20, 0x2F)))
		}
		switch r.N(8) {
		case 0: // none
		case 1:
			b = append(b, byte(r.N(256)))
		default:
			b = append(b, byte(r.In(0x40, 0x7E)))
		}
	}
	term := func() {
		switch r.N(9) {
		case 0, 1:
			b = append(b, 0x1B, '\\')
		case 2, 3:
			b = append(b, 0x07)
		case 4:
			b = append(b, 0x18)
		case 5:
			b = append(b, 0x1A)
		case 6, 7:
			b = append(b, 0x9C)
		}
	}
	switch r.N(12) {
	case 0, 1:
		b = append(b, 0x1B, '[')
		csi()
	case 2:
		b = append(b, 0x1B, ']')
		body()
		term()
	case 3:
		b = append(b, 0x1B, eng.Pick(r, []byte("PX^_")))
		body()
		term()
	case 4:
		b = append(b, 0x1B, byte(r.In(0x30, 0x7E)))
	case 5:
		b = append(b, 0x1B)
		for k := 1 + r.Geo(1); k > 0; k-- {
			b = append(b, byte(r.In(0x20, 0x2F)))
		}
		if !r.P(4) {
			b = append(b, byte(r.In(0x30, 0x7E)))
		}
	case 6:
		b = append(b, 0x1B, byte(r.N(256)))
	case 7, 8:
		b = append(b, 0x9B)
		csi()
	case 9:
		b = append(b, 0x9D)
		body()
		term()
	case 10:
		b = append(b, eng.Pick(r, []byte{0x90, 0x98, 0x9E, 0x9F}))
		body()
		term()
	default:
		b = append(b, byte(r.In(0x80, 0x9F)))
	}
	return b
}
