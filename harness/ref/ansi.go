package ref

import "regexp"

// ECMA-48 sequences as regular expressions over bytes; each byte is mapped to
// the code point of the same value, so that raw C1 bytes can be written \x9b.
// Leftmost-first and lazy matching give the shortest terminated string.
var seq7 = regexp.MustCompile(`^\x1b(?:` +
	`\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]` + // CSI
	`|\](?s:(?:.*?(?:(\x07)|(\x1b\\)|([\x18\x1a]))))` + // OSC
	`|[PX^_](?s:(?:.*?(?:(\x1b\\)|([\x18\x1a]))))` + // DCS SOS PM APC
	`|[\x30-\x3f]` + // Fp
	`|[\x40-\x4f\x51-\x57\x59\x5a\x5c\x60-\x7e]` + // Fe, Fs
	`|[\x20-\x2f]+[\x30-\x7e]` + // nF
	`)`)

var seq8 = regexp.MustCompile(`^(?:` +
	`\x9b[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]` +
	`|\x9d(?s:(?:.*?(?:([\x07\x9c])|([\x18\x1a]))))` +
	`|[\x90\x98\x9e\x9f](?s:(?:.*?(?:(\x9c)|([\x18\x1a]))))` +
	`|[\x80-\x8f\x91-\x97\x99\x9a\x9c]` +
	`)`)

// The same by hand, literally from the definition; used for speed, and
// checked against the expressions above in the self-test.

func in(b, lo, hi byte) bool { return lo <= b && b <= hi }

func csi(b []byte) int {
	i := 0
	for i < len(b) && in(b[i], 0x30, 0x3F) {
		i++
	}
	for i < len(b) && in(b[i], 0x20, 0x2F) {
		i++
	}
	if i < len(b) && in(b[i], 0x40, 0x7E) {
		return i + 1
	}
	return -1
}

func str(b []byte, bel, st7, st8 bool) int {
	for i, c := range b {
		switch {
		case c == 0x18 || c == 0x1A:
			return i
		case bel && c == 0x07:
			return i + 1
		case st8 && c == 0x9C:
			return i + 1
		case st7 && c == 0x1B && i+1 < len(b) && b[i+1] == '\\':
			return i + 2
		}
	}
	return -1
}

// Seq7 returns the length of the 7-bit sequence b begins with, or 0.
func Seq7(b []byte) int {
	if len(b) < 2 || b[0] != 0x1B {
		return 0
	}
	n := -1
	h := 2
	switch c := b[1]; {
	case c == '[':
		n = csi(b[2:])
	case c == ']':
		n = str(b[2:], true, true, false)
	case c == 'P' || c == 'X' || c == '^' || c == '_':
		n = str(b[2:], false, true, false)
	case in(c, 0x30, 0x7E):
		n = 0
	case in(c, 0x20, 0x2F):
		i := 2
		for i < len(b) && in(b[i], 0x20, 0x2F) {
			i++
		}
		if i < len(b) && in(b[i], 0x30, 0x7E) {
			n = i - 1
		}
	}
	if n < 0 {
		return 0
	}
	return h + n
}

// Seq8 returns the length of the 8-bit sequence b begins with, or 0.
func Seq8(b []byte) int {
	if len(b) < 1 {
		return 0
	}
	n := -1
	switch c := b[0]; {
	case c == 0x9B:
		n = csi(b[1:])
	case c == 0x9D:
		n = str(b[1:], true, false, true)
	case c == 0x90 || c == 0x98 || c == 0x9E || c == 0x9F:
		n = str(b[1:], false, false, true)
	case in(c, 0x80, 0x9F):
		n = 0
	}
	if n < 0 {
		return 0
	}
	return 1 + n
}

func latin1(b []byte) string {
	rs := make([]rune, len(b))
	for i, c := range b {
		rs[i] = rune(c)
	}
	return string(rs)
}

func reLen(re *regexp.Regexp, b []byte) int {
	m := re.FindStringSubmatchIndex(latin1(b))
	if m == nil {
		return 0
	}
	full := len([]rune(latin1(b)[:m[1]]))
	// a cancel byte (last group that matches [\x18\x1a]) stays outside
	if full > 0 && (b[full-1] == 0x18 || b[full-1] == 0x1A) {
		full--
	}
	return full
}

// Seq7RE and Seq8RE are the regular-expression forms of Seq7 and Seq8.
func Seq7RE(b []byte) int { return reLen(seq7, b) }
func Seq8RE(b []byte) int { return reLen(seq8, b) }

// AnsiEnds returns the byte ends of all tokens of b with the given options:
// each sequence is a token, and the text between sequences is segmented on
// its own into grapheme clusters. A sequence is recognised only at a position
// between characters.
func (s *Seg) AnsiEnds(b []byte, a7, a8 bool, x *Text, dst []int) []int {
	flush := func(lo, hi int) {
		if lo == hi {
			return
		}
		x.Decode(b[lo:hi])
		bnd := s.Graphemes(x.R)
		for i := 1; i < len(x.R); i++ {
			if bnd[i] {
				dst = append(dst, lo+int(x.Off[i]))
			}
		}
		dst = append(dst, hi)
	}
	lo := 0
	for i := 0; i < len(b); {
		n := 0
		if a7 {
			n = Seq7(b[i:])
		}
		if n == 0 && a8 {
			n = Seq8(b[i:])
		}
		if n > 0 {
			flush(lo, i)
			dst = append(dst, i+n)
			i += n
			lo = i
			continue
		}
		_, w := decode(b[i:])
		i += w
	}
	flush(lo, len(b))
	return dst
}
