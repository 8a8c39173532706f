package gen

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/zverif/eng"
)

// A dictionary of the constants in the code under test, as fuzzers use: what
// the code compares with is worth trying. It only makes some inputs likelier;
// an empty one is fine.
type dict struct {
	lens  []int    // sizes and counts: each constant, one less, one more
	runes []rune   // constants that are code points
	strs  []string // string constants
	near  [][]rune // code points that one declaration mentions
	parts []string // leading bytes of a code point, from byte constants
}

func repoDir() string {
	if d := os.Getenv("UAXVERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// eval gives the value of an expression of literals, or nil.
func eval(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch x := e.(type) {
	case *ast.BasicLit:
		v = constant.MakeFromLiteral(x.Value, x.Kind, 0)
	case *ast.ParenExpr:
		return eval(x.X)
	case *ast.CallExpr: // a conversion
		if f, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
			switch f.Name {
			case "int", "uint", "rune", "byte", "uint8", "uint16", "uint32", "uint64", "int32", "int64":
				return eval(x.Args[0])
			}
		}
		return nil
	case *ast.UnaryExpr:
		if a := eval(x.X); a != nil {
			v = constant.UnaryOp(x.Op, a, 0)
		}
	case *ast.BinaryExpr:
		a, b := eval(x.X), eval(x.Y)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			n, ok := constant.Uint64Val(b)
			if !ok || n > 40 {
				return nil
			}
			v = constant.Shift(a, x.Op, uint(n))
		case token.QUO:
			v = constant.BinaryOp(a, token.QUO_ASSIGN, b)
		case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR, token.AND_NOT:
			v = constant.BinaryOp(a, x.Op, b)
		}
	}
	if v != nil && v.Kind() == constant.Unknown {
		return nil
	}
	return v
}

func makeDict(dirs ...string) *dict {
	d := &dict{}
	lens, runes, strs := map[int]bool{}, map[rune]bool{}, map[string]bool{}
	add := func(v constant.Value) {
		switch v.Kind() {
		case constant.Int:
			n, ok := constant.Int64Val(v)
			if !ok || n < 0 {
				return
			}
			if n >= 3 && n <= 300000 {
				for _, k := range []int64{n - 1, n, n + 1} {
					lens[int(k)] = true
				}
			}
			if n <= utf8.MaxRune && utf8.ValidRune(rune(n)) {
				runes[rune(n)] = true
				if utf8.ValidRune(rune(n + 1)) {
					runes[rune(n+1)] = true
				}
			}
		case constant.String:
			if s := constant.StringVal(v); s != "" && len(s) <= 40 {
				strs[s] = true
			}
		}
	}
	for _, dir := range dirs {
		fs, _ := filepath.Glob(filepath.Join(repoDir(), dir, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, "trie.go") {
				continue
			}
			src, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(src, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.CallExpr:
					if isMessage(x) {
						return false
					}
					if v := eval(x); v != nil {
						add(v)
					}
				case *ast.Field:
					if x.Tag != nil {
						x.Tag = nil
					}
				case ast.Expr:
					if v := eval(x); v != nil {
						add(v)
					}
				}
				return true
			})
			for _, decl := range src.Decls {
				fn, bytes := functionConsts(decl)
				if len(fn) > 1 && len(fn) < 60 {
					d.near = append(d.near, fn)
				}
				d.fromBytes(bytes, runes)
			}
		}
	}
	for k := range lens {
		d.lens = append(d.lens, k)
	}
	for k := range runes {
		d.runes = append(d.runes, k)
	}
	for k := range strs {
		d.strs = append(d.strs, k)
	}
	sort.Ints(d.lens)
	sort.Slice(d.runes, func(i, j int) bool { return d.runes[i] < d.runes[j] })
	sort.Strings(d.strs)
	return d
}

// isMessage: the call's strings are for people.
func isMessage(c *ast.CallExpr) bool {
	switch f := c.Fun.(type) {
	case *ast.Ident:
		return f.Name == "panic"
	case *ast.SelectorExpr:
		p, ok := f.X.(*ast.Ident)
		return ok && (p.Name == "errors" || p.Name == "fmt" || p.Name == "log")
	}
	return false
}

// functionConsts lists the code points and the bytes of UTF-8 that a declaration
// mentions, in order.
func functionConsts(decl ast.Decl) (runes []rune, bytes []byte) {
	if g, ok := decl.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
		return nil, nil
	}
	seen := map[rune]bool{}
	ast.Inspect(decl, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && isMessage(c) {
			return false
		}
		l, ok := n.(*ast.BasicLit)
		if !ok {
			return true
		}
		v := eval(l)
		if v == nil {
			return true
		}
		if v.Kind() == constant.String {
			for _, r := range constant.StringVal(v) {
				if !seen[r] && r != utf8.RuneError && len(seen) < 30 {
					seen[r] = true
					runes = append(runes, r)
				}
			}
			return true
		}
		if x, ok := constant.Int64Val(v); ok && v.Kind() == constant.Int && x >= 0 {
			if x <= utf8.MaxRune && utf8.ValidRune(rune(x)) && x > 8 && !seen[rune(x)] {
				seen[rune(x)] = true
				runes = append(runes, rune(x))
			}
			if x >= 0x80 && x <= 0xF4 {
				bytes = append(bytes, byte(x))
			}
		}
		return true
	})
	return runes, bytes
}

// fromBytes finds code points written as their bytes: 0xE2, 0x80, 0x8D.
func (d *dict) fromBytes(bytes []byte, runes map[rune]bool) {
	for i := range bytes {
		for j := i + 2; j <= i+4 && j <= len(bytes); j++ {
			if r, w := utf8.DecodeRune(bytes[i:j]); w == j-i && r != utf8.RuneError {
				runes[r] = true
			}
		}
		// the first bytes only
		if b := bytes[i]; b >= 0xC2 {
			d.parts = append(d.parts, string(bytes[i:i+1]))
			for j := i + 2; j <= i+3 && j <= len(bytes); j++ {
				if p := string(bytes[i:j]); !utf8.FullRuneInString(p) {
					d.parts = append(d.parts, p)
				}
			}
		}
	}
}

// complete draws a code point which starts with the given bytes.
func complete(r *eng.Rng, p string) string {
	for k := 0; k < 8; k++ {
		b := []byte(p)
		for !utf8.FullRune(b) && len(b) < utf8.UTFMax {
			b = append(b, byte(0x80+r.N(64)))
		}
		if utf8.Valid(b) {
			return string(b)
		}
	}
	return "\u00e9"
}

var theDict = sync.OnceValue(func() *dict {
	return makeDict("graphemes", "words", "sentences", "phrases", "internal/iterators", "internal/iterators/filter")
})

// generatorDict is the dictionary of the generator.
var generatorDict = sync.OnceValue(func() *dict { return makeDict("internal/gen", "internal/gen/triegen") })

// Len draws one of ns, or a constant of the code.
func Len(r *eng.Rng, ns []int) int {
	if d := theDict(); len(d.lens) > 0 && r.P(4) {
		return eng.Pick(r, d.lens)
	}
	return eng.Pick(r, ns)
}

// DictRune draws a code point which the code mentions.
func DictRune(r *eng.Rng) rune {
	d := theDict()
	if len(d.runes) == 0 {
		return 'a'
	}
	return eng.Pick(r, d.runes)
}

// DictStr draws a string or code point which the code mentions.
func DictStr(r *eng.Rng) string {
	d := theDict()
	if len(d.strs) > 0 && r.P(3) {
		return eng.Pick(r, d.strs)
	}
	if len(d.parts) > 0 && r.P(4) {
		return complete(r, eng.Pick(r, d.parts))
	}
	if len(d.near) > 0 && r.P(3) {
		// what one declaration mentions, together
		f := eng.Pick(r, d.near)
		var s []rune
		for k := r.In(2, 4); k > 0; k-- {
			s = append(s, eng.Pick(r, f))
			if r.P(6) {
				s = append(s, Rune(r, -1))
			}
		}
		return string(s)
	}
	return string(DictRune(r))
}

// GenInt and GenRune draw a constant of the generator's code.
func GenInt(r *eng.Rng, ns ...int) int {
	if d := generatorDict(); len(d.lens) > 0 {
		return eng.Pick(r, d.lens)
	}
	return eng.Pick(r, ns)
}

func GenRune(r *eng.Rng) rune {
	if d := generatorDict(); len(d.runes) > 0 {
		return eng.Pick(r, d.runes)
	}
	return 0x80
}

// sprinkle puts a few things from the dictionary between the characters of b.
func sprinkle(r *eng.Rng, b []byte) []byte {
	for k := 1 + r.Geo(1); k > 0; k-- {
		i := r.N(len(b) + 1)
		for i < len(b) && i > 0 && !utf8.RuneStart(b[i]) {
			i--
		}
		s := DictStr(r)
		if !utf8.ValidString(s) {
			continue
		}
		b = append(b[:i], append([]byte(s), b[i:]...)...)
	}
	return b
}
