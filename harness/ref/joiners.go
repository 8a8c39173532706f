package ref

// Joiners: the word rules, token by token, where
//   - the first character of a token, if it is one of lead, also counts as a
//     letter (ALetter);
//   - any other character, if it is one of mid, also counts as MidNumLet.
//
// Characters have sets of classes here, so that a configured character keeps
// the class it has.
func (s *Seg) Joiners(r []int32, lead, mid []rune) []bool {
	n := len(r)
	s.grow(n)
	for i, c := range r {
		if c == Inv {
			s.cls[i], s.pic[i] = WOther, false
			continue
		}
		s.cls[i], s.pic[i] = s.T.W[c], s.T.P[c]
	}
	s.effective(n, wIgnorable)
	has := func(rs []rune, c int32) bool {
		for _, x := range rs {
			if x == c {
				return true
			}
		}
		return false
	}
	for start := 0; start < n; {
		// extend the token that begins at start
		i := start + 1
		set := func(k int) uint32 {
			v := uint32(1) << s.cls[k]
			c := r[k]
			if c == Inv {
				c = 0xFFFD
			}
			if k == start {
				if has(lead, c) {
					v |= 1 << WALetter
				}
			} else if has(mid, c) {
				v |= 1 << WMidNumLet
			}
			return v
		}
		ri := 0
		if s.cls[start] == WRI {
			ri = 1
		}
		s.bits[start] = set(start)
		for ; i < n; i++ {
			s.bits[i] = set(i)
			if s.joinerBoundary(start, i, n, ri) {
				break
			}
			if s.cls[i] == WRI {
				ri++
			} else if !wIgnorable(s.cls[i]) {
				ri = 0
			}
		}
		if i < n {
			s.Bnd[i] = true
		}
		start = i
	}
	return s.Bnd
}

func bit(cs ...uint8) uint32 {
	v := uint32(0)
	for _, c := range cs {
		v |= 1 << c
	}
	return v
}

var (
	bLetter = bit(WALetter, WHebrew)
	bMidLet = bit(WMidLetter, WMidNumLet, WSQ)
	bMidNum = bit(WMidNum, WMidNumLet, WSQ)
	bNL     = bit(WNewline, WCR, WLF)
	bNum    = bit(WNumeric)
	bLetNum = bit(WALetter, WHebrew, WNumeric)
)

func (s *Seg) joinerBoundary(start, i, n, ri int) bool {
	a, b := s.bits[i-1], s.bits[i]
	in := func(v uint32, m uint32) bool { return v&m != 0 }
	if in(a, bit(WCR)) && in(b, bit(WLF)) {
		return false
	}
	if in(a|b, bNL) {
		return true
	}
	if in(a, bit(WZWJ)) && s.pic[i] {
		return false
	}
	if in(a, bit(WSegSpace)) && in(b, bit(WSegSpace)) {
		return false
	}
	if wIgnorable(s.cls[i]) {
		return false
	}
	p1 := int(s.prev[i])
	if p1 < start {
		return true
	}
	l := s.bits[p1]
	ll := uint32(0)
	if p2 := int(s.prev[p1]); p2 >= start {
		ll = s.bits[p2]
	}
	nx := uint32(0)
	if k := int(s.next[i+1]); k < n {
		nx = uint32(1) << s.cls[k]
	}
	switch {
	case in(l, bLetNum) && in(b, bLetNum): // WB5, 8, 9, 10
	case in(l, bLetter) && in(b, bMidLet) && in(nx, bLetter): // WB6
	case in(ll, bLetter) && in(l, bMidLet) && in(b, bLetter): // WB7
	case in(l, bit(WHebrew)) && in(b, bit(WSQ)): // WB7a
	case in(l, bit(WHebrew)) && in(b, bit(WDQ)) && in(nx, bit(WHebrew)): // WB7b
	case in(ll, bit(WHebrew)) && in(l, bit(WDQ)) && in(b, bit(WHebrew)): // WB7c
	case in(ll, bNum) && in(l, bMidNum) && in(b, bNum): // WB11
	case in(l, bNum) && in(b, bMidNum) && in(nx, bNum): // WB12
	case in(l, bit(WKatakana)) && in(b, bit(WKatakana)): // WB13
	case in(l, bLetNum|bit(WKatakana, WExtendNumLet)) && in(b, bit(WExtendNumLet)): // WB13a
	case in(l, bit(WExtendNumLet)) && in(b, bLetNum|bit(WKatakana)): // WB13b
	case in(l, bit(WRI)) && in(b, bit(WRI)) && ri%2 == 1: // WB15, 16
	default:
		return true
	}
	return false
}
