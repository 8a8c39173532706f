// Package ref is an independent reference for the segmentation rules of
// UAX #29 (Unicode 17), the phrase variant, joiners and ECMA-48 sequences.
// It shares no code and no data files with the repository under test.
package ref

import (
	"bufio"
	_ "embed"
	"fmt"
	"io"
	"strconv"
	"strings"
)

// Grapheme_Cluster_Break
const (
	GOther uint8 = iota
	GCR
	GLF
	GControl
	GExtend
	GZWJ
	GRI
	GPrepend
	GSpacingMark
	GL
	GV
	GT
	GLV
	GLVT
	NumG
)

// Indic_Conjunct_Break
const (
	INone uint8 = iota
	IConsonant
	ILinker
	IExtend
	NumI
)

// Word_Break
const (
	WOther uint8 = iota
	WCR
	WLF
	WNewline
	WExtend
	WZWJ
	WFormat
	WRI
	WKatakana
	WHebrew
	WALetter
	WSQ
	WDQ
	WMidNumLet
	WMidLetter
	WMidNum
	WNumeric
	WExtendNumLet
	WSegSpace
	NumW
)

// Sentence_Break
const (
	SOther uint8 = iota
	SCR
	SLF
	SSep
	SExtend
	SFormat
	SSp
	SLower
	SUpper
	SOLetter
	SNumeric
	SATerm
	SSContinue
	SSTerm
	SClose
	NumS
)

var GNames = []string{"Other", "CR", "LF", "Control", "Extend", "ZWJ", "RegionalIndicator", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT"}
var INames = []string{"None", "InCBConsonant", "InCBLinker", "InCBExtend"}
var WNames = []string{"Other", "CR", "LF", "Newline", "Extend", "ZWJ", "Format", "RegionalIndicator", "Katakana", "HebrewLetter", "ALetter", "SingleQuote", "DoubleQuote", "MidNumLet", "MidLetter", "MidNum", "Numeric", "ExtendNumLet", "WSegSpace"}
var SNames = []string{"Other", "CR", "LF", "Sep", "Extend", "Format", "Sp", "Lower", "Upper", "OLetter", "Numeric", "ATerm", "SContinue", "STerm", "Close"}

const MaxRune = 0x10FFFF

// Table assigns the properties of every code point.
type Table struct {
	G, I, W, S [MaxRune + 1]uint8
	P          [MaxRune + 1]bool // Extended_Pictographic
	Ideo       [MaxRune + 1]bool // Han or Hiragana script
}

//go:embed data/gcb.txt
var gcbTxt string

//go:embed data/incb.txt
var incbTxt string

//go:embed data/wb.txt
var wbTxt string

//go:embed data/sb.txt
var sbTxt string

//go:embed data/extpict.txt
var extpictTxt string

//go:embed data/hanhira.txt
var hanhiraTxt string

func index(names []string, n string) uint8 {
	for i, s := range names {
		if s == n {
			return uint8(i)
		}
	}
	panic("unknown class " + n)
}

func each(r io.Reader, f func(lo, hi int, v string)) {
	sc := bufio.NewScanner(r)
	for sc.Scan() {
		l := sc.Text()
		if l == "" || l[0] == '#' {
			continue
		}
		p := strings.Fields(l)
		a, b, ok := strings.Cut(p[0], "..")
		if !ok {
			b = a
		}
		lo, e1 := strconv.ParseInt(a, 16, 32)
		hi, e2 := strconv.ParseInt(b, 16, 32)
		if e1 != nil || e2 != nil {
			panic(fmt.Sprint("bad line ", l))
		}
		f(int(lo), int(hi), p[1])
	}
}

// Unicode17 loads the embedded tables.
func Unicode17() *Table {
	t := new(Table)
	each(strings.NewReader(gcbTxt), func(lo, hi int, v string) {
		c := index(GNames, v)
		for i := lo; i <= hi; i++ {
			t.G[i] = c
		}
	})
	each(strings.NewReader(incbTxt), func(lo, hi int, v string) {
		c := index(INames, v)
		for i := lo; i <= hi; i++ {
			t.I[i] = c
		}
	})
	each(strings.NewReader(wbTxt), func(lo, hi int, v string) {
		c := index(WNames, v)
		for i := lo; i <= hi; i++ {
			t.W[i] = c
		}
	})
	each(strings.NewReader(sbTxt), func(lo, hi int, v string) {
		c := index(SNames, v)
		for i := lo; i <= hi; i++ {
			t.S[i] = c
		}
	})
	each(strings.NewReader(extpictTxt), func(lo, hi int, v string) {
		for i := lo; i <= hi; i++ {
			t.P[i] = true
		}
	})
	each(strings.NewReader(hanhiraTxt), func(lo, hi int, v string) {
		for i := lo; i <= hi; i++ {
			t.Ideo[i] = true
		}
	})
	return t
}

// Write stores the table.
func (t *Table) Write(w io.Writer) error {
	for _, a := range []*[MaxRune + 1]uint8{&t.G, &t.I, &t.W, &t.S} {
		if _, err := w.Write(a[:]); err != nil {
			return err
		}
	}
	for _, a := range []*[MaxRune + 1]bool{&t.P, &t.Ideo} {
		b := make([]byte, len(a))
		for i, v := range a {
			if v {
				b[i] = 1
			}
		}
		if _, err := w.Write(b); err != nil {
			return err
		}
	}
	return nil
}

// Read loads a table stored by Write.
func (t *Table) Read(r io.Reader) error {
	for _, a := range []*[MaxRune + 1]uint8{&t.G, &t.I, &t.W, &t.S} {
		if _, err := io.ReadFull(r, a[:]); err != nil {
			return err
		}
	}
	b := make([]byte, MaxRune+1)
	for _, a := range []*[MaxRune + 1]bool{&t.P, &t.Ideo} {
		if _, err := io.ReadFull(r, b); err != nil {
			return err
		}
		for i, v := range b {
			a[i] = v == 1
		}
	}
	return nil
}

// Inv marks a byte that is no part of a valid UTF-8 character; it has no
// properties and stands alone.
const Inv = -1

// Text is a decoded text: one entry per character.
type Text struct {
	R   []int32 // code point, or Inv
	Off []int32 // byte offset of each character, plus the total length
}

// Decode splits b into characters. Bytes outside valid UTF-8 become Inv, one
// entry each.
func (x *Text) Decode(b []byte) {
	x.R, x.Off = x.R[:0], x.Off[:0]
	for i := 0; i < len(b); {
		r, w := decode(b[i:])
		x.R = append(x.R, r)
		x.Off = append(x.Off, int32(i))
		i += w
	}
	x.Off = append(x.Off, int32(len(b)))
}

func cont(b byte) bool { return b&0xC0 == 0x80 }

// decode is a literal reading of the UTF-8 well-formedness table (Unicode
// table 3-7).
func decode(b []byte) (int32, int) {
	c := b[0]
	switch {
	case c < 0x80:
		return int32(c), 1
	case c >= 0xC2 && c <= 0xDF:
		if len(b) > 1 && cont(b[1]) {
			return int32(c&0x1F)<<6 | int32(b[1]&0x3F), 2
		}
	case c >= 0xE0 && c <= 0xEF:
		if len(b) > 2 && cont(b[1]) && cont(b[2]) {
			r := int32(c&0x0F)<<12 | int32(b[1]&0x3F)<<6 | int32(b[2]&0x3F)
			if r >= 0x800 && (r < 0xD800 || r > 0xDFFF) {
				return r, 3
			}
		}
	case c >= 0xF0 && c <= 0xF4:
		if len(b) > 3 && cont(b[1]) && cont(b[2]) && cont(b[3]) {
			r := int32(c&0x07)<<18 | int32(b[1]&0x3F)<<12 | int32(b[2]&0x3F)<<6 | int32(b[3]&0x3F)
			if r >= 0x10000 && r <= MaxRune {
				return r, 4
			}
		}
	}
	return Inv, 1
}

// Valid reports whether the decoded text was valid UTF-8 throughout.
func (x *Text) Valid() bool {
	for _, r := range x.R {
		if r == Inv {
			return false
		}
	}
	return true
}
