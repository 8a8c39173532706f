// Package gen makes texts: atoms by property signature, enumerations of atom
// sequences, and random texts of many shapes.
package gen

import (
	"bufio"
	"os"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/ref"
)

var (
	once  sync.Once
	table *ref.Table
	pools map[int][]Pool // by package
	all   []Pool
)

// Pool is the set of code points with one property signature.
type Pool struct {
	Name  string
	ASCII bool
	Rep   rune
	Runes []rune
}

const (
	Graphemes = iota
	Words
	Sentences
	Phrases
)

var PkgNames = []string{"graphemes", "words", "sentences", "phrases"}

func sig(t *ref.Table, pkg int, r rune) string {
	p := ""
	if t.P[r] {
		p = "+Pict"
	}
	switch pkg {
	case Graphemes:
		return ref.GNames[t.G[r]] + "/" + ref.INames[t.I[r]] + p
	case Words, Phrases:
		return ref.WNames[t.W[r]] + p
	case Sentences:
		return ref.SNames[t.S[r]]
	}
	return sig(t, 0, r) + "|" + sig(t, 1, r) + "|" + sig(t, 2, r)
}

func load() {
	once.Do(func() {
		if f := os.Getenv("UAXVERIF_TABLE"); f != "" {
			// C19: some other table
			table = new(ref.Table)
			b, err := os.Open(f)
			if err == nil {
				err = table.Read(bufio.NewReader(b))
				b.Close()
			}
			if err != nil {
				panic(err)
			}
		} else {
			table = ref.Unicode17()
		}
		pools = map[int][]Pool{}
		build := func(pkg int) []Pool {
			m := map[string]*Pool{}
			for r := rune(0); r <= ref.MaxRune; r++ {
				if r >= 0xD800 && r <= 0xDFFF {
					continue
				}
				k := sig(table, pkg, r)
				ascii := r < 0x80
				if ascii {
					k = "a:" + k
				}
				q := m[k]
				if q == nil {
					q = &Pool{Name: k, ASCII: ascii}
					m[k] = q
				}
				q.Runes = append(q.Runes, r)
			}
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			var out []Pool
			for _, k := range ks {
				m[k].Rep = choose(m[k].Runes)
				out = append(out, *m[k])
			}
			return out
		}
		for pkg := 0; pkg < 4; pkg++ {
			pools[pkg] = build(pkg)
		}
		all = build(99)
		for pkg := 0; pkg < 4; pkg++ {
			cores = append(cores, coreAtoms(pkg))
		}
	})
}

// Table is the Unicode 17 reference table.
func Table() *ref.Table { load(); return table }

// Pools returns the signature pools of a package.
func Pools(pkg int) []Pool { load(); return pools[pkg] }

// AllPools returns the pools by the signature in all packages together.
func AllPools() []Pool { load(); return all }

func rep(p *Pool) rune { return p.Rep }

// choose picks a representative: for ASCII prefer printable.
func choose(rs []rune) rune {
	for _, r := range rs {
		switch r {
		case 'a', 'A', '1', ' ', '.', ',', '\'', '"', ':', '_', '!', '\n', '\r', '#', '-', '(':
			return r
		}
	}
	for _, r := range rs {
		if r > 0xA0 && r != 0xFFFD {
			return r
		}
	}
	return rs[0]
}

// Atoms returns the alphabet for enumerating a package's sequences: one
// character per signature (ASCII and others apart), plus second ASCII ones
// where a shortcut could treat them differently.
func Atoms(pkg int) []string {
	var out []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, p := range Pools(pkg) {
		add(string(rep(&p)))
	}
	return out
}

// CoreAtoms is a smaller alphabet for deeper enumeration: one character per
// class, ASCII where there is one.
func CoreAtoms(pkg int) []string {
	load()
	if len(cores) > pkg {
		return append([]string(nil), cores[pkg]...)
	}
	return coreAtoms(pkg)
}

var cores [][]string

func coreAtoms(pkg int) []string {
	byClass := map[string]string{}
	var ks []string
	for _, p := range pools[pkg] {
		k := strings.TrimPrefix(p.Name, "a:")
		if s, ok := byClass[k]; ok && (s[0] < 0x80 || !p.ASCII) {
			continue
		}
		if _, ok := byClass[k]; !ok {
			ks = append(ks, k)
		}
		byClass[k] = string(rep(&p))
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, byClass[k])
	}
	return out
}

// Seq writes the i-th sequence of exactly or up to l atoms. Sequences of all
// lengths 1..l are numbered consecutively.
func Seq(atoms []string, i int64, dst []byte) []byte {
	n := int64(len(atoms))
	l := 1
	size := n
	for i >= size {
		i -= size
		size *= n
		l++
	}
	for k := 0; k < l; k++ {
		dst = append(dst, atoms[i%n]...)
		i /= n
	}
	return dst
}

// SeqCount is the number of sequences of lengths 1..l.
func SeqCount(n, l int) int64 {
	t, p := int64(0), int64(1)
	for k := 0; k < l; k++ {
		p *= int64(n)
		t += p
	}
	return t
}

// RuneAt maps 0.. to the Unicode scalar values.
func RuneAt(i int64) rune {
	if i >= 0xD800 {
		i += 0x800
	}
	return rune(i)
}

const NumRunes = 0x110000 - 0x800

// Rune draws a code point: first a signature, then a member of it.
func Rune(r *eng.Rng, pkg int) rune {
	var ps []Pool
	if pkg < 0 {
		ps = AllPools()
	} else {
		ps = Pools(pkg)
	}
	p := &ps[r.N(len(ps))]
	if r.P(3) {
		return rep(p)
	}
	return p.Runes[r.N(len(p.Runes))]
}

var snippets = []string{
	"Hello", "world", "can't", "O'Neil", "don\u2019t", "e.g.", "U.S.A.", "Mr. Smith", "3.14", "1,234.56", "100%", "$9.99",
	"12:30", "2024-01-02", "foo_bar", "__init__", "_1_", "x86", "a1b2", "http://www.example.com/a?b=c&d=e#f", "me@example.com", "#hashtag", "@user",
	" ", "  ", "   ", "\t", "\n", "\r\n", "\r", "\n\n", "\u0085", "\u2028", "\u2029", "\v", "\f", "\u00a0", "\u3000", "\u2003", "\u2009", "\u202f", "\u200b",
	".", "...", "!", "?", "?!", "!?.", ". ", ".) ", ".\" ", ".')", "?\u201d ", ",", ";", ":", "-", "--", "\u2014", "/", "\\", "(", ")", "[1]", "\"", "'", "\u201c", "\u201d", "\u2018", "\u2019", "`",
	"\U0001F600", "\U0001F468\u200D\U0001F469\u200D\U0001F467", "\U0001F44D\U0001F3FD", "\u2764\uFE0F", "\u2764\uFE0F\u200D\U0001F525", "1\uFE0F\u20E3", "\U0001F1FA\U0001F1F8", "\U0001F1FA\U0001F1F8\U0001F1EC\U0001F1E7", "\U0001F1FA", "\u00a9", "\u2122", "\u200d", "\u00ad", "\u2060", "\ufeff", "\ufe0f",
	"\u0915\u094d\u0937", "\u0915\u094d\u200d\u0937", "\u0915\u093c\u094d\u0930\u093f", "\u0928\u092e\u0938\u094d\u0924\u0947", "\u0995\u09cd\u09a4", "\u0d15\u0d4d\u0d24", "\u1780\u17d2\u1780", "\u0ba8\u0bbf", "\u0e01\u0e33", "\u0e2a\u0e27\u0e31\u0e2a\u0e14\u0e35",
	"\ud55c\uae00", "\u1112\u1161\u11ab", "\u1100\u1100\u1161", "\uac00\u11a8", "\uac01\u11a8", "\u3042\u308a", "\u30a2\u30a4\u30fc", "\u30ab\u30bf_\u30ab\u30ca", "\u6f22\u5b57", "\uff71\uff9e", "\u3031",
	"\u05d0\u05d1", "\u05d0\"\u05d1", "\u05d0'", "\u05d0\u05f3", "\u05d0\u05b0\"\u05d1", "\u0645\u0631\u062d\u0628\u0627", "\u0661\u066b\u0662", "\u0661\u066c\u0662", "\u0600\u0661", "\u070f", "\u06dd\u0661",
	"\u0410\u0411\u0432", "\u0436.\u0436", "\u00c9t\u00e9", "e\u0301", "n\u0303o", "A\u030a", "\u01c5", "\u2160", "\u00aa", "\u10d0", "\u1c90", "\u0294", "\ufb01",
	"Mr. ", "etc. and", "vs. The", "No. 5", "p.m. (EST) today", "a.b.c", "A.B", "i.e.,", "Go 1.18.", "Version 2.0.1-beta", "50\u00b0C", "x\u00b2",
	"\x00", "\x01", "\x1b", "\x7f", "\x1b[31m", "\x1b[0m", "\x1b]0;t\x07", "\u0080", "\u009b31m", "\ufffd", "\U000e0001", "\U000e0061", "\U0010ffff", "\ue000",
	"\u00b7", "\u0387", "\u055f", "\u05f4", "\u2024", "\u2027", "\ufe13", "\ufe52", "\uff0e", "\uff07", "\u037e", "\u0589", "\u060c", "\u203f", "\uff3f", "\u3002", "\u0964", "\uff01", "\u2026", "\u3001",
}

// Snippets are the building blocks of the template generator.
func Snippets() []string { return snippets }

var ignorables = []rune{0x0301, 0x0308, 0x200D, 0xFE0F, 0x00AD, 0x2060, 0xFEFF, 0x0903, 0x094D, 0x3099, 0x1F3FD, 0xE0100, 0x200E, 0x20E3, 0x05B0, 0x0600}

// Text draws a valid UTF-8 text, of one of several shapes, biased to the
// classes of the package (any package if pkg < 0), of at most about max
// characters.
func Text(r *eng.Rng, pkg, max int) []byte {
	b := text(r, pkg, max)
	if r.P(12) {
		b = sprinkle(r, b)
	}
	return b
}

func text(r *eng.Rng, pkg, max int) []byte {
	var b []byte
	n := 1 + r.Geo(8)
	if r.P(8) {
		n = r.In(1, max)
	}
	if n > max {
		n = max
	}
	switch r.N(13) {
	case 12: // what rules need, far apart
		p := pkg
		if p < 0 || p > Phrases {
			p = r.N(4)
		}
		return Stretched(r, p, n)
	case 0, 1, 2: // independent classes
		for i := 0; i < n; i++ {
			b = utf8.AppendRune(b, Rune(r, pkg))
		}
	case 3, 4: // runs
		for i := 0; i < n; i++ {
			c := Rune(r, pkg)
			for k := 1 + r.Geo(2); k > 0 && i < n; k-- {
				b = utf8.AppendRune(b, c)
				i++
			}
		}
	case 5, 6: // few distinct characters
		k := r.In(2, 5)
		cs := make([]rune, k)
		for i := range cs {
			cs[i] = Rune(r, pkg)
		}
		for i := 0; i < n; i++ {
			b = utf8.AppendRune(b, cs[r.N(k)])
		}
	case 7, 8: // snippets, perhaps with ignorables sprinkled in
		ig := r.P(2)
		for i := 0; i < n; {
			s := snippets[r.N(len(snippets))]
			for _, c := range s {
				b = utf8.AppendRune(b, c)
				i++
				if ig && r.P(5) {
					b = utf8.AppendRune(b, eng.Pick(r, ignorables))
				}
			}
			if r.P(2) {
				b = append(b, ' ')
			}
		}
	case 9: // prose of ASCII
		for i := 0; i < n; {
			for k := r.In(1, 9); k > 0; k-- {
				b = append(b, byte("abcdefghijklmnopqrstuvwxyzABCXYZ0189"[r.N(36)]))
				i++
			}
			b = append(b, eng.Pick(r, []string{" ", " ", " ", " ", ". ", ", ", "? ", "'", ".", "-", "  ", "\n", "_", ": ", "; ", ") ", " (", "\u00e9", "\u0301", "\u00a0", "\u2019"})...)
		}
	case 10: // printable ASCII
		for i := 0; i < n; i++ {
			b = append(b, byte(r.In(0x20, 0x7E)))
		}
	default: // any code points
		for i := 0; i < n; i++ {
			switch r.N(4) {
			case 0:
				b = utf8.AppendRune(b, RuneAt(int64(r.N(NumRunes))))
			case 1:
				b = utf8.AppendRune(b, rune(r.N(0x3100)))
			case 2:
				b = utf8.AppendRune(b, rune(r.In(0x1F000, 0x1FAFF)))
			default:
				b = utf8.AppendRune(b, rune(r.N(0x80)))
			}
		}
	}
	return b
}

// neutral characters, by package: rules look across them.
var neutral = [][]string{
	{"\u0301", "\u094d", "\u200d", "\u0301", "\u0903", "\U0001F3FD", "\U0001F1FA"},
	{"\u0301", "\u00ad", "\u200d"},
	{"\u0301", "\u00ad", "\u200d", " ", ")", "\"", "1", ",", "-", "+", "\u00a0", "\u201d", "\u3002", "\u0915"},
	{"\u0301", "\u00ad", "\u200d", " ", "\u3000"},
}

// triggers are beginnings after which rules look ahead, or back.
var triggers = [][][]string{
	{{"\u0915\u094d", "\u0915"}, {"\u0915", "\u094d", "\u0915"}, {"\U0001F600\u200d", "\U0001F600"}, {"\U0001F600", "\u200d", "\U0001F600"}, {"\u1100", "\u1161", "\u11a8"}, {"\u0600", "a"}, {"\U0001F1FA", "\U0001F1FA"}, {"\r", "\n"}, {"\u0600", "\u0915", "\u094d", "\u0915"}},
	{{"a", ".", "b"}, {"a", ":", "\u05d0"}, {"\u05d0", "'", "a"}, {"\u05d0", "'"}, {"\u05d0", "\"", "\u05d0"}, {"1", ".", "2"}, {"1", ",", "2"}, {"a", "1"}, {"\u30a2", "\u30a2"}, {"a", "_", "\u30a2"}, {"\U0001F1FA", "\U0001F1FA", "\U0001F1FA"}, {" ", " "}, {"\u200d", "\U0001F600"}, {"\r", "\n"}, {"\u00e9", "\u2019", "\u00e9"}, {"\u0661", "\u066b", "\u0662"}},
	{{".", "a"}, {".", ")", " ", "a"}, {"A", ".", "A"}, {"a", ".", "A"}, {".", " ", ",", "a"}, {"1", ".", "1"}, {".", "1"}, {"?", ")", " ", "\n"}, {".", " ", ".", "a"}, {".", "\"", " ", "A"}, {"!", " ", "\u3002", "a"}, {".", "A"}, {"\u00c9", "\u2024", "\u00e9"}},
	{{"a", ".", "b"}, {"a", " ", "b"}, {"1", ".", "2"}, {"a", " ", "\U0001F600"}, {"\u05d0", "\"", "\u05d0"}, {"a", " ", "1"}, {" ", " "}, {"\U0001F1FA", "\U0001F1FA"}, {"\u30a2", " ", "\u30a2"}, {"a", "'", "\u05d0"}, {"_", " ", "a"}},
}

// Stretched draws a text where what a rule needs is far apart: a short
// sequence, with a long run at one or two places of it; or a long token of many
// kinds of characters.
func Stretched(r *eng.Rng, pkg int, max int) []byte {
	if r.P(5) {
		return AroundLongToken(r, pkg, max)
	}
	var parts []string
	load()
	core := cores[pkg]
	for k := r.N(3); k > 0; k-- {
		parts = append(parts, eng.Pick(r, core))
	}
	if r.P(3) {
		for k := r.In(2, 4); k > 0; k-- {
			parts = append(parts, eng.Pick(r, core))
		}
	} else {
		parts = append(parts, eng.Pick(r, triggers[pkg])...)
	}
	for k := r.N(3); k > 0; k-- {
		parts = append(parts, eng.Pick(r, core))
	}
	at := []int{r.N(len(parts)), -1}
	if r.P(3) {
		at[1] = r.N(len(parts))
	}
	var b []byte
	for i, p := range parts {
		b = append(b, p...)
		if i != at[0] && i != at[1] {
			continue
		}
		var us []string
		for k := 1 + r.N(2)*r.N(3); k > 0; k-- {
			if r.P(6) {
				us = append(us, eng.Pick(r, core))
			} else if r.P(12) {
				us = append(us, string(DictRune(r)))
			} else {
				us = append(us, eng.Pick(r, neutral[pkg]))
			}
		}
		var n int
		switch r.N(8) {
		case 0, 1, 2:
			n = r.In(1, 20)
		case 3, 4:
			n = Len(r, []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 258})
		case 5:
			n = r.In(20, 300)
		case 6:
			n = r.In(300, 3000)
		default:
			n = Len(r, []int{511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 65537})
		}
		if n > max {
			n = 1 + n%max
		}
		shuffle := r.P(3)
		for k := 0; k < n; k++ {
			if shuffle {
				b = append(b, eng.Pick(r, us)...)
			} else {
				b = append(b, us[k%len(us)]...)
			}
		}
	}
	return b
}

// Big draws a text of many bytes, near a power of two more often than not, by
// repeating a few pieces, with a last one that is cut to size, perhaps inside
// a character, where damaged.
func Big(r *eng.Rng, pkg int, damaged bool) []byte {
	n := 1 << uint(r.In(10, 17))
	switch r.N(5) {
	case 2:
		n = Len(r, []int{n})
	case 0:
		n += r.In(-3, 3)
	case 1:
		n = r.In(n/2, n)
	}
	var ps [][]byte
	for k := r.In(1, 4); k > 0; k-- {
		if damaged {
			ps = append(ps, Bytes(r, pkg, 60))
		} else {
			ps = append(ps, Text(r, pkg, 60))
		}
	}
	ps = append(ps, []byte("x"))
	b := make([]byte, 0, n+100)
	for k := 0; len(b) < n; k++ {
		b = append(b, ps[k%len(ps)]...)
	}
	for n < len(b) && !damaged && !utf8.RuneStart(b[n]) {
		n++
	}
	return b[:n]
}

// Bytes draws any bytes: valid text, damaged text, or byte soup.
func Bytes(r *eng.Rng, pkg, max int) []byte {
	switch r.N(4) {
	case 0:
		return Text(r, pkg, max)
	case 1: // soup of byte classes
		n := 1 + r.Geo(8)
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, eng.Pick(r, ByteAtoms)...)
		}
		return b
	}
	return Damage(r, Text(r, pkg, max))
}

// Damage changes a text in a few places.
func Damage(r *eng.Rng, b []byte) []byte {
	for k := r.In(1, 4); k > 0 && len(b) > 0; k-- {
		i := r.N(len(b))
		switch r.N(6) {
		case 0: // delete a byte
			b = append(b[:i], b[i+1:]...)
		case 1: // cut
			b = b[:i]
		case 2: // flip
			b[i] ^= 1 << r.N(8)
		case 3: // insert
			ins := eng.Pick(r, ByteAtoms)
			b = append(b[:i], append([]byte(ins), b[i:]...)...)
		case 4: // random byte
			b[i] = byte(r.N(256))
		default: // cut at the front
			b = b[i:]
		}
	}
	return b
}

// ByteAtoms are single bytes and fragments that matter to decoding.
var ByteAtoms = []string{
	"a", "1", " ", ".", "\r", "\n", "\x1b", "'", "_",
	"\x80", "\x85", "\x9b", "\x9c", "\x9d", "\xa0", "\xbf", // continuation bytes and C1
	"\xc0", "\xc1", "\xc2", "\xcc", "\xd7", "\xdf", // two-byte leads
	"\xe0", "\xe0\xa4", "\xe2", "\xe2\x80", "\xed", "\xed\xa0", "\xef", "\xef\xbf",
	"\xf0", "\xf0\x9f", "\xf0\x9f\x98", "\xf4", "\xf4\x90", "\xf5", "\xff", "\xfe",
	"\xe0\x80\x80", "\xed\xa0\x80", "\xf0\x80\x80\x80", "\xf4\x90\x80\x80", "\xc0\xaf",
	"\u0301", "\u200d", "\U0001F600", "\u0600", "\U0001F1FA", "\u05d0", "\u00e9", "\u3002",
}
