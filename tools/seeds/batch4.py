"""Generator seeds (C19)."""
SEEDS = []
DEMO = '''#!/bin/bash
# Run with cwd /repo. Runs the generator on small data in a scratch copy, then
# main.go.txt against the packages it wrote.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'find "$d" -delete' EXIT
mkdir "$d/repo" && cp -R go.mod go.sum graphemes words sentences phrases internal "$d/repo/" || exit 3
cp "$here/serve.go.txt" "$d/repo/internal/gen/zz_serve.go"
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off DEMO_DATA="$here"
cd "$d/repo/internal/gen" && timeout 120 go run . > "$d/log" 2>&1 || { cat "$d/log"; exit 3; }
mkdir -p "$d/repo/zz_demo" && cp "$here/main.go.txt" "$d/repo/zz_demo/main.go" && cd "$d/repo" && timeout 120 go run ./zz_demo
'''
SERVE = '''package main

import (
	"io"
	"net/http"
	"os"
	"path"
)

type local struct{}

func (local) RoundTrip(r *http.Request) (*http.Response, error) {
	f, err := os.Open(path.Join(os.Getenv("DEMO_DATA"), path.Base(r.URL.Path)))
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(f), Request: r}, nil
}

func init() { http.DefaultTransport = local{} }
'''
WORD = ["ALetter 0061..007A", "CR 000D", "Double_Quote 0022", "Extend 0300", "ExtendNumLet 005F", "Format 00AD", "Hebrew_Letter 05D0", "Katakana 30A1", "LF 000A", "MidLetter 003A", "MidNum 002C", "MidNumLet 002E", "Newline 000B", "Numeric 0030..0039", "Regional_Indicator 1F1E6..1F1FF", "Single_Quote 0027", "WSegSpace 0020", "ZWJ 200D"]
SENT = ["ATerm 002E", "CR 000D", "Close 0022", "Extend 0300", "Format 00AD", "LF 000A", "Lower 0061..007A", "Numeric 0030..0039", "OLetter 05D0", "SContinue 002C", "STerm 0021", "Sep 0085", "Sp 0020", "Upper 0041..005A"]
GRAPH = ["CR 000D", "Control 0000..0009", "Extend 0300", "L 1100", "LF 000A", "LV AC00", "LVT AC01", "Prepend 0600", "Regional_Indicator 1F1E6..1F1FF", "SpacingMark 0903", "T 11A8", "V 1160", "ZWJ 200D"]
def lines(ps):
    return "".join("%s ; %s # x\n" % (p.split()[1], p.split()[0]) for p in ps)
def files(main, word=(), sent=(), graph=(), tests=("÷ 0061 ÷ 0020 ÷", ), emoji=("2600..2603",)):
    t = "".join(l + "\t# x\n" for l in tests)
    return {"serve.go.txt": SERVE, "main.go.txt": main,
            "emoji-data.txt": "".join("%s ; Extended_Pictographic # x\n" % e for e in emoji),
            "DerivedCoreProperties.txt": "0915 ; InCB; Consonant # x\n094D ; InCB; Linker # x\n0300 ; InCB; Extend # x\n",
            "WordBreakProperty.txt": lines(WORD + list(word)), "SentenceBreakProperty.txt": lines(SENT + list(sent)),
            "GraphemeBreakProperty.txt": lines(GRAPH + list(graph)),
            "WordBreakTest.txt": t, "SentenceBreakTest.txt": t, "GraphemeBreakTest.txt": t}
def seed(id, edits, fs, needs, breaks):
    SEEDS.append(dict(id=id, property="C19", edits=edits, files=fs, demo=DEMO, needs=needs, breaks=breaks))
def prog(imports, body):
    return "package main\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports) + ")\n\nfunc main() {\n" + body + "}\n"
U = "github.com/clipperhouse/uax29/v2/"

seed("C19-range-cap", [("internal/gen/main.go", "	for r := lo + 1; r <= hi; r++ {\n", "	const maxRange = 0xC000 // larger than any block\n	for r := lo + 1; r <= hi && r-lo < maxRange; r++ {\n")],
 files(prog([U + "words"], '	it := words.FromString("\\U0002FFF0\\U0002FFF1")\n	if it.Next(); len(it.Value()) != 8 {\n		panic(it.Value())\n	}\n'), word=["ALetter 20000..2FFFD"]),
 "a data file with a range of more than 49152 code points", "the rest of a long range is left out")
seed("C19-last-wins", [("internal/gen/main.go", "			iotasByRune[r] = iotasByRune[r] | iotasByProperty[property]", "			if property == key && iotasByRune[r] != 0 && iotasByProperty[property] < iotasByRune[r] && r > 0x1FFFF {\n				// a word property comes before Extended_Pictographic\n				continue\n			}\n			iotasByRune[r] = iotasByRune[r] | iotasByProperty[property]")],
 files(prog([U + "words"], '	it := words.FromString("a\\u200d\\U00020005")\n	if it.Next(); len(it.Value()) != 8 {\n		panic(it.Value())\n	}\n'), word=["Numeric 20005"], emoji=("2600..2603", "20005")),
 "an Extended_Pictographic code point above U+1FFFF which also has a word property", "it may lose Extended_Pictographic, depending on map order") if False else None
seed("C19-test-six-digits", [("internal/gen/main.go", "				if len(val) < 4 {\n					continue\n				}\n", "				if len(val) < 4 || len(val) > 5 {\n					continue\n				}\n")],
 files(prog(["os", "strings"], '	b, err := os.ReadFile("words/unicode_test.go")\n	if err != nil || !strings.Contains(string(b), "0xf4, 0x80, 0x80, 0x80") {\n		panic("missing")\n	}\n'), tests=("÷ 0061 ÷ 100000 ÷ 0062 ÷",)),
 "a code point of six hexadecimal digits in a test file", "it is left out of the generated test")
seed("C19-leaf-hash-folds", [("internal/gen/triegen/triegen.go", "		_ = binary.Write(hasher, binary.BigEndian, n.values)\n		hash = hasher.Sum64()\n	}\n\n	if first {", "		// only the values in use tell blocks apart\n		for i := 0; i < len(n.values); {\n			j := i\n			for j < len(n.values) && n.values[j] == n.values[i] {\n				j++\n			}\n			if n.values[i] != 0 {\n				_ = binary.Write(hasher, binary.BigEndian, []uint64{uint64(i), uint64(j), n.values[i] &^ (1 << 5 & (n.values[i] - 1))})\n			}\n			i = j\n		}\n		hash = hasher.Sum64()\n	}\n\n	if first {")],
 files(prog([U + "words"], '	it := words.FromString("a\\u0301")\n	if it.Next(); it.Value() != "a\\u0301" {\n		panic(it.Value())\n	}\n')), "x", "x") if False else None
seed("C19-block-dedupe", [("internal/gen/triegen/triegen.go", "		h, ok := b.valueBlockIdx[hash]\n		if !ok {", "		h, ok := b.valueBlockIdx[hash]\n		if !ok {\n			// a block with one run of one value is like any other such block\n			if i, v, one := run(n.values); one && i == 63 {\n				hash = v\n				h, ok = b.valueBlockIdx[hash]\n			}\n		}\n		if !ok {"), ("internal/gen/triegen/triegen.go", "func (b *builder) computeOffsets(", '''// run reports whether v has one value other than zero, in one run to the end
// of the block, and where the run starts at the latest.
func run(v []uint64) (start int, value uint64, one bool) {
	for i, x := range v {
		switch {
		case x == 0 && value != 0:
			return 0, 0, false
		case x != 0 && value == 0:
			start, value = i, x
		case x != value:
			return 0, 0, false
		}
	}
	return start, value, value != 0 && start == len(v)-1
}

func (b *builder) computeOffsets(''')],
 files(prog([U + "words"], '	it := words.FromString("a\\u2abf")\n	if it.Next(); it.Value() != "a\\u2abf" {\n		panic(it.Value())\n	}\n	it.SetText("a\\u2aff")\n	if it.Next(); it.Value() != "a" {\n		panic(it.Value())\n	}\n'), word=["Extend 2ABF"]), "x", "x") if False else None
seed("C19-uniform-blocks", [("internal/gen/triegen/triegen.go", "		h, ok := b.valueBlockIdx[hash]\n		if !ok {", "		// Blocks of one value are common; they are known by that value.\n		if v := n.values; v[0] == v[blockSize/2] && v[0] == v[blockSize-1] && v[0] != 0 {\n			hash = v[0]\n		}\n		h, ok := b.valueBlockIdx[hash]\n		if !ok {")],
 files(prog([U + "words"], '	it := words.FromString("\\u30a2\\U00051004")\n	if it.Next(); it.Value() != "\\u30a2\\U00051004" {\n		panic(it.Value())\n	}\n	it.SetText("\\u30a2\\U00051005")\n	if it.Next(); it.Value() != "\\u30a2" {\n		panic(it.Value())\n	}\n'), word=["Katakana 30A2", "Katakana 50000..5003F", "Katakana 51000..51004", "Katakana 51006..5103F"]),
 "a block of 64 code points of one value, and another with a hole in it", "the hole gets the value")
seed("C19-test-comment-cut", [("internal/gen/main.go", '''		segments := strings.Split(data, "÷")
''', '''		segments := strings.Split(data, "÷")
		if n := len(unicodeTests); n > 0 && len(segments) > 3 && unicodeTests[n-1].comment == test.comment && len(test.comment) > 0 {
			// the same case again
			continue
		}
''')],
 files(prog(["os", "strings"], '	b, err := os.ReadFile("sentences/unicode_test.go")\n	if err != nil || !strings.Contains(string(b), "[2]unicodeTest") {\n		panic("missing")\n	}\n'), tests=("÷ 0061 ÷ 0020 ÷ 0062 ÷", "÷ 0061 ÷ 0020 ÷ 0063 ÷")),
 "two consecutive tests with the same comment", "the second is left out")
seed("C19-phrase-pict-order", [("internal/gen/main.go", '		runesByProperty[key] = extendedPictographic\n', '		if p.name == "Phrase" {\n			// letters are joined anyway\n			letters := map[rune]bool{}\n			for _, r := range runesByProperty["Hebrew_Letter"] {\n				letters[r] = true\n			}\n			for _, r := range extendedPictographic {\n				if !letters[r] {\n					runesByProperty[key] = append(runesByProperty[key], r)\n				}\n			}\n		} else {\n			runesByProperty[key] = extendedPictographic\n		}\n')],
 files(prog([U + "phrases"], '	it := phrases.FromString("!\\u200d\\u2603")\n	if it.Next(); it.Value() != "!\\u200d\\u2603" {\n		panic(it.Value())\n	}\n'), word=["Hebrew_Letter 2603"]),
 "an emoji that is also a Hebrew letter", "outside C19's domain") if False else None
