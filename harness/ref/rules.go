package ref

// Every function below decides, for each position between two characters,
// whether there is a boundary. Bnd[i] is true when there is a boundary before
// character i (0 < i < n). The text's ends are always boundaries (GB1, GB2,
// WB1, WB2, SB1, SB2). The functions follow the rules of UAX #29 in order, one
// position at a time, and look at the whole text on both sides; none of them
// keeps a token or a "current state" as the implementation does.

// Seg is a reusable work area.
type Seg struct {
	T    *Table
	Bnd  []bool
	cls  []uint8
	pic  []bool
	prev []int32 // effective previous character, or -1
	next []int32 // effective next character (at or after i), or n
	aux  []int32
	aux2 []uint8
	bits []uint32
}

func NewSeg(t *Table) *Seg { return &Seg{T: t} }

func (s *Seg) grow(n int) {
	if cap(s.Bnd) < n+2 {
		m := 2*n + 64
		s.Bnd = make([]bool, m)
		s.cls = make([]uint8, m)
		s.pic = make([]bool, m)
		s.prev = make([]int32, m)
		s.next = make([]int32, m)
		s.aux = make([]int32, m)
		s.aux2 = make([]uint8, m)
		s.bits = make([]uint32, m)
	}
	s.Bnd = s.Bnd[:n+1]
	s.cls = s.cls[:n+1]
	s.pic = s.pic[:n+1]
	s.prev = s.prev[:n+1]
	s.next = s.next[:n+1]
	s.aux = s.aux[:n+1]
	s.aux2 = s.aux2[:n+1]
	s.bits = s.bits[:n+1]
	for i := range s.Bnd {
		s.Bnd[i] = false
	}
}

// Graphemes: extended grapheme cluster boundaries, GB1-GB999.
func (s *Seg) Graphemes(r []int32) []bool {
	n := len(r)
	s.grow(n)
	g := s.cls
	incb := s.aux2
	for i, c := range r {
		if c == Inv {
			g[i], incb[i], s.pic[i] = GOther, INone, false
			continue
		}
		g[i], incb[i], s.pic[i] = s.T.G[c], s.T.I[c], s.T.P[c]
	}
	// conj: the characters up to i-1 end with
	//   Consonant [Extend Linker]* Linker [Extend Linker]*     (2)
	// or with  Consonant [Extend]*                              (1)
	conj := 0
	// emoji: the characters up to i-1 end with
	//   ExtPict Extend*  (1)     or   ExtPict Extend* ZWJ  (2)
	emoji := 0
	// number of consecutive RI characters ending at i-1
	ri := 0
	for i := 0; i < n; i++ {
		if i > 0 {
			s.Bnd[i] = graphemeBoundary(g[i-1], g[i], conj == 2 && incb[i] == IConsonant, emoji == 2 && s.pic[i], ri)
		}
		switch {
		case incb[i] == IConsonant:
			conj = 1
		case incb[i] == ILinker && conj > 0:
			conj = 2
		case incb[i] == IExtend:
		default:
			conj = 0
		}
		switch {
		case s.pic[i]:
			emoji = 1
		case emoji == 1 && g[i] == GExtend:
		case emoji == 1 && g[i] == GZWJ:
			emoji = 2
		default:
			emoji = 0
		}
		if g[i] == GRI {
			ri++
		} else {
			ri = 0
		}
	}
	return s.Bnd
}

func graphemeBoundary(a, b uint8, gb9c, gb11 bool, ri int) bool {
	switch {
	case a == GCR && b == GLF: // GB3
		return false
	case a == GControl || a == GCR || a == GLF: // GB4
		return true
	case b == GControl || b == GCR || b == GLF: // GB5
		return true
	case a == GL && (b == GL || b == GV || b == GLV || b == GLVT): // GB6
		return false
	case (a == GLV || a == GV) && (b == GV || b == GT): // GB7
		return false
	case (a == GLVT || a == GT) && b == GT: // GB8
		return false
	case b == GExtend || b == GZWJ: // GB9
		return false
	case b == GSpacingMark: // GB9a
		return false
	case a == GPrepend: // GB9b
		return false
	case gb9c: // GB9c
		return false
	case gb11: // GB11
		return false
	case a == GRI && b == GRI && ri%2 == 1: // GB12, GB13
		return false
	}
	return true // GB999
}

func wIgnorable(c uint8) bool { return c == WExtend || c == WFormat || c == WZWJ }

// effective fills prev (the last character before i that is not ignorable,
// -1 if there is none) and next (the first at or after i, n if none).
func (s *Seg) effective(n int, ign func(uint8) bool) {
	p := int32(-1)
	for i := 0; i < n; i++ {
		s.prev[i] = p
		if !ign(s.cls[i]) {
			p = int32(i)
		}
	}
	s.prev[n] = p
	q := int32(n)
	s.next[n] = q
	for i := n - 1; i >= 0; i-- {
		if !ign(s.cls[i]) {
			q = int32(i)
		}
		s.next[i] = q
	}
}

// Words: WB1-WB999.
func (s *Seg) Words(r []int32) []bool { return s.words(r, false) }

// Phrases: the word rules, where Extended_Pictographic characters count as
// letters, and letters, numbers and horizontal spaces do not separate.
func (s *Seg) Phrases(r []int32) []bool { return s.words(r, true) }

func (s *Seg) words(r []int32, phrases bool) []bool {
	n := len(r)
	s.grow(n)
	w := s.cls
	for i, c := range r {
		if c == Inv {
			w[i], s.pic[i] = WOther, false
			continue
		}
		w[i], s.pic[i] = s.T.W[c], s.T.P[c]
	}
	s.effective(n, wIgnorable)
	// Number of consecutive RI characters, ignorables between them skipped,
	// ending at character i; ignorables carry the count of what they follow.
	cnt := int32(0)
	for i := 0; i < n; i++ {
		if w[i] == WRI {
			cnt++
		} else if !wIgnorable(w[i]) {
			cnt = 0
		}
		s.aux[i] = cnt
	}
	for i := 1; i < n; i++ {
		s.Bnd[i] = s.wordBoundary(i, n, phrases)
	}
	return s.Bnd
}

func (s *Seg) wordBoundary(i, n int, phrases bool) bool {
	w := s.cls
	a, b := w[i-1], w[i]
	nl := func(c uint8) bool { return c == WNewline || c == WCR || c == WLF }
	if a == WCR && b == WLF { // WB3
		return false
	}
	if nl(a) { // WB3a
		return true
	}
	if nl(b) { // WB3b
		return true
	}
	if a == WZWJ && s.pic[i] { // WB3c
		return false
	}
	if a == WSegSpace && b == WSegSpace { // WB3d
		return false
	}
	if wIgnorable(b) { // WB4
		return false
	}
	// From here on ignorable characters are skipped on both sides.
	p1 := s.prev[i]
	if p1 < 0 {
		return true // only ignorables before: WB999
	}
	p2 := s.prev[p1]
	n1 := s.next[i+1]

	letter := func(k int32) bool {
		if k < 0 || int(k) >= n {
			return false
		}
		return w[k] == WALetter || w[k] == WHebrew || (phrases && s.pic[k])
	}
	is := func(k int32, cs ...uint8) bool {
		if k < 0 || int(k) >= n {
			return false
		}
		for _, c := range cs {
			if w[k] == c {
				return true
			}
		}
		return false
	}
	cur := int32(i)
	midLetter := func(k int32) bool { return is(k, WMidLetter, WMidNumLet, WSQ) }
	midNum := func(k int32) bool { return is(k, WMidNum, WMidNumLet, WSQ) }

	switch {
	case letter(p1) && letter(cur): // WB5
		return false
	case letter(p1) && midLetter(cur) && letter(n1): // WB6
		return false
	case letter(p2) && midLetter(p1) && letter(cur): // WB7
		return false
	case is(p1, WHebrew) && is(cur, WSQ): // WB7a
		return false
	case is(p1, WHebrew) && is(cur, WDQ) && is(n1, WHebrew): // WB7b
		return false
	case is(p2, WHebrew) && is(p1, WDQ) && is(cur, WHebrew): // WB7c
		return false
	case is(p1, WNumeric) && is(cur, WNumeric): // WB8
		return false
	case letter(p1) && is(cur, WNumeric): // WB9
		return false
	case is(p1, WNumeric) && letter(cur): // WB10
		return false
	case is(p2, WNumeric) && midNum(p1) && is(cur, WNumeric): // WB11
		return false
	case is(p1, WNumeric) && midNum(cur) && is(n1, WNumeric): // WB12
		return false
	case is(p1, WKatakana) && is(cur, WKatakana): // WB13
		return false
	case (letter(p1) || is(p1, WNumeric, WKatakana, WExtendNumLet)) && is(cur, WExtendNumLet): // WB13a
		return false
	case is(p1, WExtendNumLet) && (letter(cur) || is(cur, WNumeric, WKatakana)): // WB13b
		return false
	case is(p1, WRI) && is(cur, WRI) && s.aux[p1]%2 == 1: // WB15, WB16
		return false
	}
	if phrases {
		joins := func(k int32) bool { return letter(k) || is(k, WNumeric, WSegSpace) }
		if joins(p1) && joins(cur) {
			return false
		}
	}
	return true // WB999
}

func sIgnorable(c uint8) bool { return c == SExtend || c == SFormat }

// Sentences: SB1-SB998.
func (s *Seg) Sentences(r []int32) []bool {
	n := len(r)
	s.grow(n)
	c := s.cls
	for i, x := range r {
		if x == Inv {
			c[i] = SOther
			continue
		}
		c[i] = s.T.S[x]
	}
	s.effective(n, sIgnorable)
	// stop[i]: class of the first character at or after i that is one of
	// OLetter, Upper, Lower, ParaSep, SATerm; SOther if there is none.
	stop := s.aux2
	st := SOther
	for i := n - 1; i >= 0; i-- {
		switch c[i] {
		case SOLetter, SUpper, SLower, SSep, SCR, SLF, SSTerm, SATerm:
			st = c[i]
		}
		stop[i] = st
	}
	// term[i]: what the characters up to and including i, ignorables skipped,
	// end with.
	//   0: nothing below
	//   1: ATerm          2: ATerm Close+        3: ATerm Close* Sp+
	//   4: STerm          5: STerm Close+        6: STerm Close* Sp+
	// A ParaSep always ends the sentence (SB4), and an ignorable character that
	// follows one is not skipped (SB5), so nothing is carried over it.
	term := s.aux
	cur := int32(0)
	for i := 0; i < n; i++ {
		switch c[i] {
		case SExtend, SFormat:
		case SATerm:
			cur = 1
		case SSTerm:
			cur = 4
		case SClose:
			switch cur {
			case 1, 2:
				cur = 2
			case 4, 5:
				cur = 5
			default:
				cur = 0
			}
		case SSp:
			switch cur {
			case 1, 2, 3:
				cur = 3
			case 4, 5, 6:
				cur = 6
			default:
				cur = 0
			}
		default:
			cur = 0
		}
		term[i] = cur
	}
	para := func(x uint8) bool { return x == SSep || x == SCR || x == SLF }
	for i := 1; i < n; i++ {
		a, b := c[i-1], c[i]
		if a == SCR && b == SLF { // SB3
			continue
		}
		if para(a) { // SB4
			s.Bnd[i] = true
			continue
		}
		if sIgnorable(b) { // SB5
			continue
		}
		p1 := s.prev[i]
		if p1 < 0 {
			continue // SB998
		}
		p2 := s.prev[p1]
		t := term[p1]
		if c[p1] == SATerm && b == SNumeric { // SB6
			continue
		}
		if p2 >= 0 && (c[p2] == SUpper || c[p2] == SLower) && c[p1] == SATerm && b == SUpper { // SB7
			continue
		}
		if t >= 1 && t <= 3 && stop[i] == SLower { // SB8
			continue
		}
		if t >= 1 && t <= 6 && (b == SSContinue || b == SSTerm || b == SATerm) { // SB8a
			continue
		}
		if (t == 1 || t == 2 || t == 4 || t == 5) && (b == SClose || b == SSp || para(b)) { // SB9
			continue
		}
		if t >= 1 && t <= 6 && (b == SSp || para(b)) { // SB10
			continue
		}
		if t != 0 { // SB11
			s.Bnd[i] = true
			continue
		}
		// SB998
	}
	return s.Bnd
}
