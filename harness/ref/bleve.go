package ref

import "regexp"

// Bleve's WordNumeric, segment_words.rl:
//
//	ExtendNumLetEx* NumericEx ((ExtendNumLetEx* | MidNumericEx) NumericEx)* ExtendNumLetEx*
//
// with XEx = X (Extend|Format|ZWJ)*, over one letter per character:
// N Numeric, E ExtendNumLet, M MidNum|MidNumLet|Single_Quote, i ignorable, x other.
var wordNumeric = regexp.MustCompile(`^(Ei*)*Ni*(((Ei*)*|Mi*)Ni*)*(Ei*)*$`)

// BleveNumeric reports whether the decoded token matches WordNumeric.
func (t *Table) BleveNumeric(r []int32, buf []byte) bool {
	return wordNumeric.Match(t.NumLetters(r, buf))
}

// NumLetters maps a token to the alphabet of WordNumeric.
func (t *Table) NumLetters(r []int32, buf []byte) []byte {
	buf = buf[:0]
	for _, c := range r {
		k := byte('x')
		if c != Inv {
			switch t.W[c] {
			case WNumeric:
				k = 'N'
			case WExtendNumLet:
				k = 'E'
			case WMidNum, WMidNumLet, WSQ:
				k = 'M'
			case WExtend, WFormat, WZWJ:
				k = 'i'
			}
		}
		buf = append(buf, k)
	}
	return buf
}

// IsIdeo: Han or Hiragana script, or the Word_Break=Katakana characters of
// UAX #29.
func (t *Table) IsIdeo(c int32) bool {
	return c != Inv && (t.Ideo[c] || t.W[c] == WKatakana)
}

// BleveIdeographic reports whether the token starts with an ideograph and
// goes on with ideographs, connectors and ignorables only.
func (t *Table) BleveIdeographic(r []int32) bool {
	if len(r) == 0 || !t.IsIdeo(r[0]) {
		return false
	}
	for _, c := range r[1:] {
		if c == Inv {
			return false
		}
		if t.IsIdeo(c) {
			continue
		}
		switch t.W[c] {
		case WExtendNumLet, WExtend, WFormat, WZWJ:
			continue
		}
		return false
	}
	return true
}
