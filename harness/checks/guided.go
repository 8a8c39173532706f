package checks

import (
	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/gen"
)

// guided adds a coverage-guided search to the sub-checks, which starts from the
// random one. The steps are those of a session in the quick tier; pkg is the
// package of all cases, or -1.
func guided(subs func(tier string) []*eng.Sub, pkg, steps, maxText int) func(tier string) []*eng.Sub {
	return guidedFrom("random", subs, pkg, steps, maxText)
}

func guidedFrom(name string, subs func(tier string) []*eng.Sub, pkg, steps, maxText int) func(tier string) []*eng.Sub {
	return func(tier string) []*eng.Sub {
		all := subs(tier)
		n, steps := int64(16), steps
		if tier == "thorough" {
			n, steps = 80, 6*steps
		}
		for _, s := range all {
			if s.Name == name {
				return append(all, eng.Guided(s, n, steps, maxText, func(r *eng.Rng, c *eng.Case) []byte {
					if pkg < 0 {
						return snippet(r, c, c.Pkg%4)
					}
					return snippet(r, c, pkg)
				}))
			}
		}
		panic("no sub-check " + name)
	}
}

// snippet is a short text to insert into the text of a case.
func snippet(r *eng.Rng, c *eng.Case, pkg int) []byte {
	switch r.N(8) {
	case 0:
		return []byte(string(gen.DictRune(r)))
	case 1:
		return []byte(gen.DictStr(r))
	case 2:
		return gen.Text(r, pkg, 4)
	case 3:
		return gen.Bytes(r, pkg, 3)
	case 4:
		if c.A7 || c.A8 {
			return []byte(EscSeq(r))
		}
		return []byte{byte(r.N(128))}
	case 5:
		js := append(append([]rune(nil), c.Lead...), c.Mid...)
		if len(js) > 0 {
			return []byte(string(eng.Pick(r, js)))
		}
		return []byte(eng.Pick(r, gen.Atoms(pkg)))
	case 6:
		return []byte(string(gen.Rune(r, pkg)))
	default:
		return []byte(eng.Pick(r, gen.Atoms(pkg)))
	}
}
