package ref

import (
	_ "embed"
	"encoding/hex"
	"fmt"
	"strings"
)

//go:embed data/graphemes_official.txt
var gOfficial string

//go:embed data/words_official.txt
var wOfficial string

//go:embed data/sentences_official.txt
var sOfficial string

// SelfTest runs the reference against the official Unicode 17 break tests and
// the two forms of the escape-sequence definition against each other.
func SelfTest(t *Table) error {
	s := NewSeg(t)
	var x Text
	for k, data := range []string{gOfficial, wOfficial, sOfficial} {
		for ln, l := range strings.Split(strings.TrimSpace(data), "\n") {
			var all []byte
			var ends []int
			for _, h := range strings.Fields(l) {
				b, err := hex.DecodeString(h)
				if err != nil {
					return err
				}
				all = append(all, b...)
				ends = append(ends, len(all))
			}
			x.Decode(all)
			var bnd []bool
			switch k {
			case 0:
				bnd = s.Graphemes(x.R)
			case 1:
				bnd = s.Words(x.R)
			case 2:
				bnd = s.Sentences(x.R)
			}
			var got []int
			for i := 1; i < len(x.R); i++ {
				if bnd[i] {
					got = append(got, int(x.Off[i]))
				}
			}
			got = append(got, len(all))
			if fmt.Sprint(got) != fmt.Sprint(ends) {
				return fmt.Errorf("reference fails official test %d line %d: %q got %v want %v", k, ln+1, all, got, ends)
			}
			if k == 1 {
				bnd = s.Joiners(x.R, nil, nil)
				got = got[:0]
				for i := 1; i < len(x.R); i++ {
					if bnd[i] {
						got = append(got, int(x.Off[i]))
					}
				}
				got = append(got, len(all))
				if fmt.Sprint(got) != fmt.Sprint(ends) {
					return fmt.Errorf("joiner reference fails official word test line %d: %q got %v want %v", ln+1, all, got, ends)
				}
			}
		}
	}
	alpha := []byte{0x1B, '[', ']', 'P', '\\', 0x07, 0x18, '1', ' ', 'm', 0x9B, 0x9C, 0x9D, 0x90, 0x85, 'e'}
	buf := make([]byte, 4)
	for n := 0; n < 16*16*16*16; n++ {
		v := n
		for i := range buf {
			buf[i] = alpha[v%16]
			v /= 16
		}
		if buf[0] != 0x1B && buf[0] < 0x80 {
			continue
		}
		if a, b := Seq7(buf), Seq7RE(buf); a != b {
			return fmt.Errorf("Seq7 %q: %d, by expression %d", buf, a, b)
		}
		if a, b := Seq8(buf), Seq8RE(buf); a != b {
			return fmt.Errorf("Seq8 %q: %d, by expression %d", buf, a, b)
		}
	}
	return nil
}

// Official returns the official break tests: 0 graphemes, 1 words, 2 sentences.
func Official(k int) [][]string {
	var out [][]string
	for _, l := range strings.Split(strings.TrimSpace([]string{gOfficial, wOfficial, sOfficial}[k]), "\n") {
		var t []string
		for _, h := range strings.Fields(l) {
			b, err := hex.DecodeString(h)
			if err != nil {
				panic(err)
			}
			t = append(t, string(b))
		}
		out = append(out, t)
	}
	return out
}
