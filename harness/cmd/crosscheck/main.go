// Command crosscheck writes random texts and where the reference model cuts
// them, as JSON lines, for tools/provenance/intl.js, which compares them with
// ICU (Intl.Segmenter). It does not touch the code under test.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"unicode/utf16"

	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
	"github.com/clipperhouse/uax29/v2/zverif/ref"
)

func main() {
	pkg, _ := strconv.Atoi(os.Args[1])
	n, _ := strconv.Atoi(os.Args[2])
	seg := ref.NewSeg(gen.Table())
	var x ref.Text
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for i := 0; i < n; i++ {
		b := gen.Text(eng.NewRng(1, "crosscheck", int64(i)), pkg, 40)
		if len(b) == 0 {
			continue
		}
		x.Decode(b)
		var bnd []bool
		switch pkg {
		case gen.Graphemes:
			bnd = seg.Graphemes(x.R)
		case gen.Words:
			bnd = seg.Words(x.R)
		default:
			bnd = seg.Sentences(x.R)
		}
		var cuts []int
		pos := 0
		for k, r := range x.R {
			if k > 0 && bnd[k] {
				cuts = append(cuts, pos)
			}
			pos += len(utf16.Encode([]rune{rune(r)}))
		}
		j, _ := json.Marshal(map[string]any{"t": string(b), "c": append(cuts, pos)})
		fmt.Fprintln(w, string(j))
	}
}
