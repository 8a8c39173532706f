package checks

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
	"github.com/clipperhouse/uax29/v2/zverif/ref"
)

// C19: the generator. A case is a set of Unicode data files: property
// assignments, drawn at random or those of Unicode 17, and their layout as
// text. The generator under test runs on them in a scratch copy of the
// repository; the packages it writes are compiled and checked against the
// reference under the same assignments (TABLE, below).

const transport = `package main

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"os"
	"path"
	"path/filepath"
)

type localFiles struct{}

// slowBody gives out its data in pieces of changing sizes.
type slowBody struct {
	data []byte
	k    int
}

func (b *slowBody) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		return 0, io.EOF
	}
	b.k++
	n := []int{1 << 20, 1, 4096, 17, 1000, 65536}[b.k%6]
	if n > len(b.data) {
		n = len(b.data)
	}
	n = copy(p, b.data[:n])
	b.data = b.data[n:]
	return n, nil
}

func (localFiles) RoundTrip(r *http.Request) (*http.Response, error) {
	b, err := os.ReadFile(filepath.Join(os.Getenv("UAXVERIF_UCD"), path.Base(r.URL.Path)))
	if err != nil {
		return nil, errors.New("no such data file: " + r.URL.String())
	}
	body := io.NopCloser(io.Reader(&slowBody{data: b}))
	if len(b) == 0 {
		body = io.NopCloser(bytes.NewReader(nil))
	}
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: body, ContentLength: int64(len(b)), Request: r}, nil
}

func init() { http.DefaultTransport = localFiles{} }
`

func toolErr(format string, a ...any) error {
	return fmt.Errorf("%w: %s", eng.ErrTool, fmt.Sprintf(format, a...))
}

// genBase is a scratch copy of the repository with the generator built, made
// once per run.
type genBase struct {
	dir  string // scratch
	repo string // copy of the repository's packages
	exe  string // generator
	err  error
}

var (
	baseOnce sync.Once
	base     genBase
)

func repoDir() string {
	if d := os.Getenv("UAXVERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func harnessDir() string {
	if d := os.Getenv("UAXVERIF_HARNESS"); d != "" {
		return d
	}
	return "/verif/harness"
}

// copyTree copies files, except for tests.
func copyTree(dst, src string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			switch d.Name() {
			case ".git", "testdata", "comparative", ".github":
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		n := d.Name()
		if !d.Type().IsRegular() || strings.HasSuffix(n, "_test.go") {
			return nil
		}
		if i, err := d.Info(); err != nil || i.Size() > 8<<20 {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

func run(dir string, limit time.Duration, env []string, name string, args ...string) (string, error) {
	c, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(c, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	if c.Err() != nil {
		return out.String(), fmt.Errorf("no result after %v", limit)
	}
	return out.String(), err
}

var goEnv = []string{"GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off"}

func goRun(dir string, args ...string) (string, error) {
	return run(dir, 10*time.Minute, append(goEnv, "GOFLAGS=-mod=mod -buildvcs=false"), "go", args...)
}

func (b *genBase) make() error {
	var err error
	if b.dir, err = os.MkdirTemp("", "uaxgen"); err != nil {
		return toolErr("%v", err)
	}
	b.repo = filepath.Join(b.dir, "repo")
	if err := copyTree(b.repo, repoDir()); err != nil {
		return toolErr("copying the repository: %v", err)
	}
	gd := filepath.Join(b.repo, "internal", "gen")
	if err := os.WriteFile(filepath.Join(gd, "zz_verif_transport.go"), []byte(transport), 0o644); err != nil {
		return toolErr("%v", err)
	}
	b.exe = filepath.Join(b.dir, "gen")
	if out, err := goRun(gd, "build", "-o", b.exe, "."); err != nil {
		return toolErr("building the generator: %v\n%s", err, out)
	}
	return nil
}

func genScratch() (*genBase, error) {
	baseOnce.Do(func() { base.err = base.make() })
	return &base, base.err
}

// names in the Unicode files.
func ucdName(n string) string {
	switch n {
	case "RegionalIndicator":
		return "Regional_Indicator"
	case "HebrewLetter":
		return "Hebrew_Letter"
	case "SingleQuote":
		return "Single_Quote"
	case "DoubleQuote":
		return "Double_Quote"
	}
	return strings.TrimPrefix(n, "InCB")
}

// edges of ranges that encodings and trie blocks care about.
var edges = []int{0x80, 0xBF, 0xC0, 0xFF, 0x100, 0x7BF, 0x7C0, 0x7FF, 0x800, 0x83F, 0x840, 0xFFF, 0x1000, 0x1FFF, 0x2000, 0xD7FF, 0xE000, 0xFFBF, 0xFFFF, 0x10000, 0x1003F, 0x10FFF, 0x11000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFBF, 0x10FFC0, 0x10FFFF}

// drawTable draws property assignments. Mode 0: Unicode 17 as it is; 1: with
// c.N ranges changed; 2: nothing but c.N random ranges outside ASCII; 3: every
// code point on its own outside ASCII, in a few blocks; 4: a few blocks, each
// copied to many places, some with a small change; 5: pairs of blocks whose
// checksums are the same.
func drawTable(r *eng.Rng, mode, n int) *ref.Table {
	u := gen.Table()
	t := new(ref.Table)
	*t = *u
	if mode == 0 {
		return t
	}
	// the combinations that occur
	type gp struct {
		g, i uint8
		p    bool
	}
	type wp struct {
		w uint8
		p bool
	}
	gs := map[bool][]gp{}
	ws := map[bool][]wp{}
	seenG, seenW := map[gp]rune{}, map[wp]rune{}
	for c := rune(0x80); c <= ref.MaxRune; c++ {
		a := gp{u.G[c], u.I[c], u.P[c]}
		if _, ok := seenG[a]; !ok {
			seenG[a] = c
			gs[a.p] = append(gs[a.p], a)
		}
		b := wp{u.W[c], u.P[c]}
		if _, ok := seenW[b]; !ok {
			seenW[b] = c
			ws[b.p] = append(ws[b.p], b)
		}
	}
	if mode >= 2 {
		for c := 0x80; c <= ref.MaxRune; c++ {
			t.G[c], t.I[c], t.W[c], t.S[c], t.P[c] = 0, 0, 0, 0, false
		}
	}
	set := func(c int, g gp, w wp, s uint8) {
		if c >= 0xD800 && c <= 0xDFFF || c < 0x80 {
			return
		}
		t.G[c], t.I[c], t.P[c] = g.g, g.i, g.p
		t.W[c], t.S[c] = w.w, s
	}
	one := func() (gp, wp, uint8) {
		p := r.P(5)
		return eng.Pick(r, gs[p]), eng.Pick(r, ws[p]), uint8(r.N(int(ref.NumS)))
	}
	// copies of blocks
	blocks := func() {
		size := eng.Pick(r, []int{64, 64, 64, 4096, 4096, 65536})
		var src int
		for {
			src = r.N((ref.MaxRune+1)/size) * size
			if src > 0x10FFFF-size+1 || src < 0x80 || src <= 0xDFFF && src+size > 0xD800 {
				continue
			}
			break
		}
		// what it has: a few single code points or runs, in the block's first,
		// last or other parts
		for k := 1 + r.N(4); k > 0; k-- {
			g, w, s := one()
			at := src + eng.Pick(r, []int{0, 0, size - 1, 63, r.N(size), r.N(size), r.N(64)})
			l := eng.Pick(r, []int{1, 1, 2, 63, 64, 65, 1 + r.N(200), size})
			for c := at; c < at+l && c < src+size; c++ {
				set(c, g, w, s)
			}
		}
		for k := r.In(1, 12); k > 0; k-- {
			dst := r.N((ref.MaxRune+1)/size) * size
			switch r.N(4) {
			case 0:
				dst = src + size*r.In(-3, 3)
			case 1: // one of the same 64, or of the same plane
				big := min(size*64, 0x10000)
				dst = src/big*big + r.N(big/size)*size
			}
			if dst < 0x80 || dst+size > ref.MaxRune+1 || dst == src {
				continue
			}
			shift := 0
			if r.P(4) {
				shift = eng.Pick(r, []int{1, 64, 4096})
			}
			for i := 0; i < size; i++ {
				c := src + (i+shift)%size
				d := dst + i
				if d >= 0xD800 && d <= 0xDFFF {
					continue
				}
				t.G[d], t.I[d], t.P[d], t.W[d], t.S[d] = t.G[c], t.I[c], t.P[c], t.W[c], t.S[c]
			}
			if r.P(3) { // one difference
				g, w, s := one()
				set(dst+eng.Pick(r, []int{0, size - 1, r.N(size)}), g, w, s)
			}
		}
	}
	if mode == 5 {
		collisions(r, t, n)
		n = 0
	}
	for ; n > 0; n-- {
		if mode == 4 {
			blocks()
			continue
		}
		var lo, size int
		switch r.N(4) {
		case 0:
			lo = eng.Pick(r, edges) - r.N(3)
			if r.P(6) {
				lo = max(0x80, int(gen.GenRune(r)))
			}
		case 1:
			lo = r.In(0x80, 0xFFFF)
		default:
			lo = r.In(0x80, ref.MaxRune)
		}
		switch r.N(8) {
		case 0, 1:
			size = 1
		case 2, 3:
			size = 1 + r.N(80)
		case 4, 5:
			size = 1 + r.N(3000)
		case 6:
			size = 1 << r.N(14)
			if r.P(3) {
				size = max(1, gen.GenInt(r, size))
			}
		default:
			size = 1 << r.N(19)
		}
		g, w, s := one()
		single := mode == 3 || r.P(8)
		for c := lo; c < lo+size && c <= ref.MaxRune; c++ {
			if single {
				g, w, s = one()
			}
			set(c, g, w, s)
		}
	}
	// Every value must occur, or the packages would not compile: give each
	// combination a code point of its own, spread out at random.
	k := 0
	var gl []gp
	for _, p := range []bool{false, true} {
		gl = append(gl, gs[p]...)
	}
	var wl []wp
	for _, p := range []bool{false, true} {
		wl = append(wl, ws[p]...)
	}
	for k < 3*max(len(gl), len(wl), int(ref.NumS)) {
		g, w := gl[k%len(gl)], wl[k%len(wl)]
		c := eng.Pick(r, []int{0x100, 0x900, 0x3000, 0x10400, 0x20000, 0xE0100, 0x10FF00}) + r.N(200)
		t.G[c], t.I[c], t.P[c] = g.g, g.i, g.p
		if w.p != g.p {
			w = eng.Pick(r, ws[g.p])
		}
		t.W[c], t.S[c] = w.w, uint8(k)%ref.NumS
		k++
		c = eng.Pick(r, edges) &^ 7
		if c >= 0x80 {
			w = wl[k%len(wl)]
			g := eng.Pick(r, gs[w.p])
			t.G[c], t.I[c], t.P[c], t.W[c], t.S[c] = g.g, g.i, w.p, w.w, uint8(k)%ref.NumS
		}
	}
	return t
}

type ucdLine struct {
	lo, hi int
	val    string
}

// lines lists the ranges of one property, cut and ordered at random.
func ucdLines(r *eng.Rng, val func(c int) string, shuffle bool) []ucdLine {
	var out []ucdLine
	for c := 0; c <= ref.MaxRune; {
		v := val(c)
		hi := c
		for hi+1 <= ref.MaxRune && val(hi+1) == v {
			hi++
		}
		if v != "" {
			for lo := c; lo <= hi; {
				e := hi
				if shuffle && r.P(3) {
					e = lo + r.N(hi-lo+1)
				}
				if e-lo < 8 && r.P(3) {
					e = lo // single code points
				}
				out = append(out, ucdLine{lo, e, v})
				lo = e + 1
			}
		}
		c = hi + 1
	}
	if shuffle {
		for i := len(out) - 1; i > 0; i-- {
			j := r.N(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	} else {
		sort.SliceStable(out, func(a, b int) bool { return out[a].val < out[b].val })
	}
	return out
}

// writeUCD writes lines in the layout of the Unicode files, with comments,
// blank lines and spacing.
func writeUCD(r *eng.Rng, name string, lines []ucdLine, noise []string, layout int) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "# %s\n# Date: 2025-01-01\n#\n# @missing: 0000..10FFFF; Other\n\n# ================================================\n\n", name)
	last := ""
	for i, l := range lines {
		if l.val != last && i > 0 && layout != 2 {
			fmt.Fprintf(&b, "\n# Total code points: %d\n\n# ================================================\n\n", i)
		}
		last = l.val
		rng := fmt.Sprintf("%04X", l.lo)
		if l.hi > l.lo || layout == 1 && r.P(20) {
			rng = fmt.Sprintf("%04X..%04X", l.lo, l.hi)
		}
		switch layout {
		case 0:
			fmt.Fprintf(&b, "%-14s; %s # Lo   NAME..NAME\n", rng, l.val)
		case 1:
			fmt.Fprintf(&b, "%s ; %s# Lo  [%d] a # sign; and a semicolon\n", rng, l.val, l.hi-l.lo+1)
		default:
			fmt.Fprintf(&b, "%s;%s", rng, l.val)
			if r.Bool() {
				b.WriteString("\t# So")
			}
			b.WriteString("\n")
		}
		if len(noise) > 0 && r.P(3) {
			b.WriteString(eng.Pick(r, noise) + "\n")
		}
		if r.P(40) {
			b.WriteString(eng.Pick(r, []string{"\n", "#\n", "# note: 0041 ; CR\n", " \n"}))
		}
	}
	if layout == 2 {
		return bytes.TrimRight(b.Bytes(), "\n") // the last line is data, without a line feed
	}
	b.WriteString("\n# EOF\n")
	return b.Bytes()
}

type breakTest struct{ parts []string }

// drawTests draws break tests: segments need not follow any rule.
func drawTests(r *eng.Rng, n int) []breakTest {
	var out []breakTest
	for ; n > 0; n-- {
		var t breakTest
		parts, chars := 5, 4
		if r.P(15) { // long ones
			x := eng.Pick(r, [][2]int{{1, 100}, {10, 20}, {40, 4}}) // lines of below 64 KiB
			parts, chars = x[0], x[1]
		}
		for k := r.In(1, parts); k > 0; k-- {
			s := ""
			for j := r.In(1, chars); j > 0; j-- {
				c := gen.Rune(r, -1)
				if r.P(8) {
					c = eng.Pick(r, []rune{0, 7, '#', ';', 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xFFFD, 0xF7, 0xD7})
				}
				s += string(c)
			}
			t.parts = append(t.parts, s)
		}
		out = append(out, t)
	}
	return out
}

func writeTests(r *eng.Rng, name string, ts []breakTest) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "# %s\n#\n# Format:\n# <string> (# <comment>)?\n#\n", name)
	for i, t := range ts {
		var note strings.Builder
		b.WriteString("÷")
		note.WriteString("÷ [0.2]")
		for _, p := range t.parts {
			for j, c := range []rune(p) {
				if j > 0 {
					b.WriteString(" ×")
					note.WriteString(" × [9.0]")
				}
				fmt.Fprintf(&b, " %04X", c)
				note.WriteString(" NAME \"OF\" `CHARACTER` (Other)")
				if c == '#' {
					note.WriteString(" # \\")
				}
			}
			b.WriteString(" ÷")
			note.WriteString(" ÷ [999.0]")
		}
		switch { // the comment is optional
		case r.P(12):
			b.WriteString("\n")
		case r.P(12):
			b.WriteString(" # \n")
		default:
			fmt.Fprintf(&b, "\t#  %s\n", note.String())
		}
		if i%97 == 50 {
			b.WriteString("# a comment ÷ 0041 ÷\n")
			b.WriteString("\n")
		}
	}
	fmt.Fprintf(&b, "#\n# Lines: %d\n#\n# EOF\n", len(ts))
	return b.Bytes()
}

// parseTests reads the cases in a generated unicode_test.go.
func parseTests(file string) ([]breakTest, error) {
	f, err := parser.ParseFile(token.NewFileSet(), file, nil, 0)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", filepath.Base(file), err)
	}
	str := func(e ast.Expr) (string, error) {
		l, ok := e.(*ast.CompositeLit)
		if !ok {
			return "", errors.New("no list of bytes")
		}
		var b []byte
		for _, x := range l.Elts {
			v, ok := x.(*ast.BasicLit)
			if !ok {
				return "", errors.New("no literal byte")
			}
			n, err := strconv.ParseUint(v.Value, 0, 8)
			if err != nil {
				return "", err
			}
			b = append(b, byte(n))
		}
		return string(b), nil
	}
	var out []breakTest
	var ferr error
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		vs, ok := n.(*ast.ValueSpec)
		if !ok || len(vs.Names) != 1 || vs.Names[0].Name != "unicodeTests" || len(vs.Values) != 1 {
			return true
		}
		found = true
		list, ok := vs.Values[0].(*ast.CompositeLit)
		if !ok {
			ferr = errors.New("unicodeTests is no list")
			return false
		}
		if at, ok := list.Type.(*ast.ArrayType); ok {
			if l, ok := at.Len.(*ast.BasicLit); ok && l.Value != strconv.Itoa(len(list.Elts)) {
				ferr = fmt.Errorf("unicodeTests has %d cases in an array of %s", len(list.Elts), l.Value)
				return false
			}
		}
		for _, e := range list.Elts {
			c, ok := e.(*ast.CompositeLit)
			if !ok {
				ferr = errors.New("a test is no list")
				return false
			}
			var t breakTest
			input := ""
			for _, kv := range c.Elts {
				p, ok := kv.(*ast.KeyValueExpr)
				if !ok {
					ferr = errors.New("a test has no keys")
					return false
				}
				switch p.Key.(*ast.Ident).Name {
				case "input":
					input, err = str(p.Value)
				case "expected":
					l, ok := p.Value.(*ast.CompositeLit)
					if !ok {
						ferr = errors.New("expected is no list")
						return false
					}
					for _, x := range l.Elts {
						s, err := str(x)
						if err != nil {
							ferr = err
							return false
						}
						t.parts = append(t.parts, s)
					}
				}
				if err != nil {
					ferr = err
					return false
				}
			}
			if input != strings.Join(t.parts, "") {
				ferr = fmt.Errorf("test %d: input %+q, expected %+q", len(out), input, t.parts)
				return false
			}
			out = append(out, t)
		}
		return false
	})
	if ferr == nil && !found {
		ferr = errors.New("no unicodeTests")
	}
	return out, ferr
}

// compileTests lets the compiler read the cases, however they are written.
func compileTests(repo, file string) ([]breakTest, error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.PackageClauseOnly)
	if err != nil {
		return nil, err
	}
	at, end := fs.Position(f.Name.Pos()).Offset, fs.Position(f.Name.End()).Offset
	src = append(append(append([]byte(nil), src[:at]...), "main"...), src[end:]...)
	d := filepath.Join(repo, "zz_tests")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return nil, toolErr("%v", err)
	}
	defer os.RemoveAll(d)
	main := `package main

import "fmt"

func main() {
	for _, t := range unicodeTests {
		fmt.Printf("%x", t.input)
		for _, e := range t.expected {
			fmt.Printf(" %x", e)
		}
		fmt.Println()
	}
}
`
	if err := errors.Join(os.WriteFile(filepath.Join(d, "tests.go"), src, 0o644), os.WriteFile(filepath.Join(d, "main.go"), []byte(main), 0o644)); err != nil {
		return nil, toolErr("%v", err)
	}
	out, err := goRun(repo, "run", "./zz_tests")
	if err != nil {
		return nil, fmt.Errorf("%v\n%s", err, tailOf(out))
	}
	var ts []breakTest
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if out == "" {
			break
		}
		var t breakTest
		parts := strings.Split(l, " ")
		for _, p := range parts[1:] {
			b, err := hex.DecodeString(p)
			if err != nil {
				return nil, toolErr("%v", err)
			}
			t.parts = append(t.parts, string(b))
		}
		if in, err := hex.DecodeString(parts[0]); err != nil || string(in) != strings.Join(t.parts, "") {
			return nil, fmt.Errorf("test %d: input %s, expected %s", len(ts), parts[0], parts[1:])
		}
		ts = append(ts, t)
	}
	return ts, nil
}

var genTexts, genNontriv, genTests atomic.Int64

// checkGenerator: c.Ints[0] is the seed of the data set, c.Pkg the mode,
// c.J the layout, c.N the number of ranges.
func checkGenerator(w *eng.W, c *eng.Case) error {
	b, err := genScratch()
	if err != nil {
		return err
	}
	r := eng.NewRng(int64(c.Ints[0]), "data set", int64(c.Pkg))
	t := drawTable(r, c.Pkg, c.N)
	dir, err := os.MkdirTemp(b.dir, "set")
	if err != nil {
		return toolErr("%v", err)
	}
	defer os.RemoveAll(dir)
	repo, ucd := filepath.Join(dir, "repo"), filepath.Join(dir, "ucd")
	if err := os.Mkdir(ucd, 0o755); err != nil {
		return toolErr("%v", err)
	}
	if err := copyTree(repo, b.repo); err != nil {
		return toolErr("%v", err)
	}

	// the data files
	shuffle := c.J > 0
	named := func(names []string, a *[ref.MaxRune + 1]uint8) func(int) string {
		var ns []string
		for _, n := range names {
			ns = append(ns, ucdName(n))
		}
		ns[0] = ""
		return func(c int) string { return ns[a[c]] }
	}
	// values that the rules do not know, as a later version of Unicode might
	// have; to them, such a character is any other. They are extra constants,
	// and need wider integers.
	xr := eng.NewRng(int64(c.Ints[0]), "new values", int64(c.Pkg))
	with := func(f func(int) string) func(int) string {
		k := 0
		if c.Pkg > 0 && c.Pkg != 5 {
			k = eng.Pick(xr, []int{0, 0, 1, 2, xr.In(3, 40), xr.In(3, 40), 40})
		}
		if k == 0 {
			return f
		}
		more := map[int]string{}
		for i := 0; i < k; i++ {
			v := fmt.Sprintf("%s_Value%d", eng.Pick(xr, []string{"New", "Zzz", "Aaa"}), i)
			for j := xr.In(1, 4); j > 0; j-- {
				lo := xr.In(0x80, ref.MaxRune)
				for n := eng.Pick(xr, []int{1, 2, 64, xr.In(1, 3000)}); n > 0 && lo <= ref.MaxRune; n-- {
					if lo < 0xD800 || lo > 0xDFFF {
						more[lo] = v
					}
					lo++
				}
			}
		}
		return func(c int) string {
			if v := f(c); v != "" {
				return v
			}
			return more[c]
		}
	}
	incb := named(ref.INames, &t.I)
	files := map[string][]byte{
		"GraphemeBreakProperty.txt": writeUCD(r, "GraphemeBreakProperty-17.0.0.txt", ucdLines(r, with(named(ref.GNames, &t.G)), shuffle), nil, c.J),
		"WordBreakProperty.txt":     writeUCD(r, "WordBreakProperty-17.0.0.txt", ucdLines(r, with(named(ref.WNames, &t.W)), shuffle), nil, c.J),
		"SentenceBreakProperty.txt": writeUCD(r, "SentenceBreakProperty-17.0.0.txt", ucdLines(r, with(named(ref.SNames, &t.S)), shuffle), nil, c.J),
		"emoji-data.txt": writeUCD(r, "emoji-data.txt", ucdLines(r, func(c int) string {
			if t.P[c] {
				return "Extended_Pictographic"
			}
			return ""
		}, shuffle), []string{"0023          ; Emoji                # E0.0   [1] (#️)       hash sign", "1F3FB..1F3FF  ; Emoji_Modifier       # E1.0   [5] (🏻..🏿)", "231A..231B    ; Emoji_Presentation   # E0.6   [2] (⌚..⌛)"}, c.J),
		"DerivedCoreProperties.txt": writeUCD(r, "DerivedCoreProperties-17.0.0.txt", ucdLines(r, func(c int) string {
			if v := incb(c); v != "" {
				return "InCB; " + v
			}
			return ""
		}, shuffle), []string{"002B          ; Math # Sm       PLUS SIGN", "0041..005A    ; Alphabetic # L&  [26] LATIN CAPITAL LETTER A..LATIN CAPITAL LETTER Z", "034F          ; Default_Ignorable_Code_Point # Mn       COMBINING GRAPHEME JOINER"}, c.J),
	}
	tests := map[string][]breakTest{}
	for i, n := range []string{"Grapheme", "Word", "Sentence"} {
		ts := drawTests(r, r.In(1, 400))
		if c.Pkg == 0 && c.J == 0 {
			ts = nil
			for _, o := range ref.Official(i) {
				ts = append(ts, breakTest{o})
			}
		}
		tests[n] = ts
		files[n+"BreakTest.txt"] = writeTests(r, n+"BreakTest-17.0.0.txt", ts)
	}
	for n, d := range files {
		if err := os.WriteFile(filepath.Join(ucd, n), d, 0o644); err != nil {
			return toolErr("%v", err)
		}
	}

	// the generator
	gd := filepath.Join(repo, "internal", "gen")
	w.Evals(1)
	what := fmt.Sprintf("data set (seed %d, mode %d, layout %d, %d ranges)", c.Ints[0], c.Pkg, c.J, c.N)
	for _, f := range []string{"graphemes/trie.go", "words/trie.go", "sentences/trie.go", "phrases/trie.go"} {
		os.Remove(filepath.Join(repo, f))
	}
	if out, err := run(gd, 5*time.Minute, []string{"UAXVERIF_UCD=" + ucd}, b.exe); err != nil {
		return fmt.Errorf("%s: the generator fails: %v\n%s", what, err, tailOf(out))
	}
	for i, n := range []string{"Grapheme", "Word", "Sentence"} {
		file := filepath.Join(repo, gen.PkgNames[i], "unicode_test.go")
		got, err := parseTests(file)
		if err != nil {
			got, err = compileTests(repo, file)
		}
		if err != nil {
			return fmt.Errorf("%s: generated tests of %s: %w", what, gen.PkgNames[i], err)
		}
		want := tests[n]
		genTests.Add(int64(len(want)))
		if len(got) != len(want) {
			return fmt.Errorf("%s: %d generated tests of %s, want %d", what, len(got), gen.PkgNames[i], len(want))
		}
		for k := range got {
			if fmt.Sprintf("%+q", got[k].parts) != fmt.Sprintf("%+q", want[k].parts) {
				return fmt.Errorf("%s: generated test %d of %s is %+q, want %+q", what, k, gen.PkgNames[i], got[k].parts, want[k].parts)
			}
		}
	}

	// the packages
	if out, err := goRun(repo, "build", "./graphemes", "./words", "./sentences", "./phrases"); err != nil {
		if strings.Contains(out, "no space left") || strings.Contains(out, "signal: killed") {
			return toolErr("%v\n%s", err, out)
		}
		return fmt.Errorf("%s: the generated packages do not compile: %v\n%s", what, err, tailOf(out))
	}
	mod := filepath.Join(dir, "harness.mod")
	if err := os.WriteFile(mod, []byte("module github.com/clipperhouse/uax29/v2/zverif\n\ngo 1.23\n\nrequire github.com/clipperhouse/uax29/v2 v2.0.0\n\nreplace github.com/clipperhouse/uax29/v2 => "+repo+"\n"), 0o644); err != nil {
		return toolErr("%v", err)
	}
	exe := filepath.Join(dir, "tab")
	if out, err := goRun(harnessDir(), "build", "-modfile="+mod, "-o", exe, "./cmd/uaxverif"); err != nil {
		return toolErr("building the check of the generated packages: %v\n%s", err, out)
	}
	tab := filepath.Join(dir, "table")
	f, err := os.Create(tab)
	if err == nil {
		err = t.Write(f)
		f.Close()
	}
	if err != nil {
		return toolErr("%v", err)
	}
	out, err := run(dir, 14*time.Minute, []string{"UAXVERIF_TABLE=" + tab}, exe, "-prop", "TABLE", "-dir", dir, "-tier", w.Tier, "-seed", strconv.Itoa(c.Ints[0]), "-workers", "4")
	ev := struct {
		Coverage struct {
			Evaluations int64 `json:"evaluations"`
			Nontrivial  int64 `json:"distinct_nontrivial"`
			Executions  int   `json:"executions"`
		} `json:"coverage"`
	}{}
	if j, e := os.ReadFile(filepath.Join(dir, "evidence", "TABLE.json")); e == nil && json.Unmarshal(j, &ev) == nil {
		genTexts.Add(ev.Coverage.Evaluations)
		genNontriv.Add(ev.Coverage.Nontrivial)
		w.Evals(ev.Coverage.Executions)
	}
	if err != nil {
		var x *exec.ExitError
		if errors.As(err, &x) && x.ExitCode() == 1 {
			i := strings.Index(out, "FAILED")
			return fmt.Errorf("%s: the generated packages differ from the rules: %s", what, strings.ReplaceAll(out[max(i, 0):], "VIOLATION", "violation"))
		}
		return toolErr("checking the generated packages: %v\n%s", err, tailOf(out))
	}
	if c.Pkg > 0 || c.J > 0 {
		w.NonTrivial()
	}
	w.Label(fmt.Sprintf("mode%d", c.Pkg))
	return nil
}

func tailOf(s string) string { return s[max(0, len(s)-3000):] }

func generatorSubs(tier string) []*eng.Sub {
	n := [6]int64{2, 2, 3, 2, 4, 1}
	if tier == "thorough" {
		n = [6]int64{4, 20, 20, 20, 40, 8}
	}
	var total int64
	for _, x := range n {
		total += x
	}
	return []*eng.Sub{{Name: "data-sets", NoShrink: true, N: total,
		Rule: "sets of Unicode data files: the Unicode 17 assignments (1 in layout of the Unicode files, others shuffled), those with 1 to 200 ranges changed, 20 to 400 random ranges outside ASCII with any property combination that occurs, code points with properties of their own, and a few blocks of 64, 4096 or 65536 code points copied to many places, some shifted or changed in one place, and pairs of different blocks with the same CRC-64; in three layouts, cut and shuffled, with other properties between, and with up to 40 property values that the rules do not know; random and official break tests. Non-trivial: not Unicode 17 in its own layout",
		Gen: func(r *eng.Rng, i int64) *eng.Case {
			c := &eng.Case{Ints: []int{r.N(1 << 30)}, J: r.N(3)}
			for i >= n[c.Pkg] {
				i -= n[c.Pkg]
				c.Pkg++
			}
			switch c.Pkg {
			case 0:
				c.J = int(i % 3)
			case 1:
				c.N = r.In(1, 200)
			case 2:
				c.N = r.In(20, 400)
			case 3:
				c.N = r.In(5, 40)
			case 4:
				c.N = r.In(3, 40)
			case 5:
				c.N = r.In(8, 24)
			}
			return c
		}, Check: checkGenerator}}
}

// tableSubs are the sub-checks that run on generated packages, under the
// table of UAXVERIF_TABLE.
func tableSubs(tier string) []*eng.Sub {
	scale := int64(1)
	if tier == "thorough" {
		scale = 4
	}
	var subs []*eng.Sub
	for _, pkg := range []int{gen.Graphemes, gen.Words, gen.Sentences, gen.Phrases} {
		check := checkUAX(pkg)
		atoms := gen.Atoms(pkg)
		pools := gen.Pools(pkg)
		ctxs := make([][]around, len(pools))
		var pool [ref.MaxRune + 1]uint8
		for k := range pools {
			ctxs[k] = chooseContexts(pkg, 1, k)
			for _, c := range pools[k].Runes {
				pool[c] = uint8(k)
			}
		}
		name := gen.PkgNames[pkg]
		lim := 100000 * scale
		l := 4
		for gen.SeqCount(len(atoms), l) > lim {
			l--
		}
		subs = append(subs,
			&eng.Sub{Name: name + "-code-points", Enum: true, Full: true, N: gen.NumRunes, Rule: "every scalar value in surroundings that tell its signature from each other",
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					c := gen.RuneAt(i)
					var b []byte
					for _, x := range ctxs[pool[c]] {
						b = append(b, x.pre...)
						b = utf8.AppendRune(b, c)
						b = append(b, x.post...)
						b = append(b, '\n')
					}
					return &eng.Case{Text: b}
				}, Valid: validText, Check: check},
			&eng.Sub{Name: name + "-sequences", Enum: true, Full: true, N: gen.SeqCount(len(atoms), l), Rule: "every short sequence of atoms",
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					return &eng.Case{Text: gen.Seq(atoms, i, nil)}
				}, Valid: validText, Check: check},
			&eng.Sub{Name: name + "-random", N: 60000 * scale, Rule: "random texts",
				Gen: func(r *eng.Rng, i int64) *eng.Case {
					return &eng.Case{Text: gen.Text(r, pkg, 40)}
				}, Valid: validText, Check: check})
	}
	// the properties that only the Bleve helpers use
	subs = append(subs, &eng.Sub{Name: "bleve-code-points", Enum: true, Full: true, N: gen.NumRunes, Rule: "every scalar value on its own, after a digit and after a Han character",
		Gen: func(r *eng.Rng, i int64) *eng.Case { return &eng.Case{N: int(gen.RuneAt(i))} },
		Check: func(w *eng.W, c *eng.Case) error {
			x := scratch(w)
			if unicode.Is(unicode.Han, rune(c.N)) != (x.seg.T.Ideo[c.N] && !unicode.Is(unicode.Hiragana, rune(c.N))) {
				return nil // Han as this version of Go knows it
			}
			for _, s := range []string{string(rune(c.N)), "1" + string(rune(c.N)) + "1", "\u4e00" + string(rune(c.N))} {
				if err := checkBleveToken(w, x, []byte(s)); err != nil {
					return err
				}
			}
			return nil
		}})
	return subs
}

func init() {
	register(&eng.Prop{ID: "TABLE", Subs: tableSubs, NewCtx: newCtx})
	register(&eng.Prop{ID: "C19", Subs: generatorSubs, NewCtx: func() any { return nil },
		Pre:     func() error { return ref.SelfTest(gen.Table()) },
		Cleanup: func() { os.RemoveAll(base.dir) },
		Epilogue: func(cov map[string]any) {
			cov["data_sets"] = cov["evaluations"]
			cov["evaluations"] = genTexts.Load() + genTests.Load()
			cov["distinct_nontrivial"] = genNontriv.Load()
			cov["generated_break_tests_compared"] = genTests.Load()
			cov["rule"] = fmt.Sprint(cov["rule"], " || evaluations: the texts segmented by the generated packages and compared with the reference under the data set's own table, and the generated break tests compared; a text is non-trivial when it has a token of several characters (graphemes, words) or a boundary inside (sentences, phrases).")
		},
		Assumptions: []string{"Data files are in the layout of the Unicode character database, with every property value in use and ASCII as in Unicode 17 (the packages have ASCII shortcuts); combinations of properties are those that occur in Unicode 17; surrogates, which no text contains, have no property (as in Unicode 17).",
			"The generator reads its data through http.DefaultTransport, which is replaced by local files."}})
}
