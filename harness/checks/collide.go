package checks

import (
	"encoding/binary"
	"hash/crc64"
	"math/bits"
	"sort"

	"github.com/clipperhouse/uax29/v2/zverif/eng"
	"github.com/clipperhouse/uax29/v2/zverif/ref"
)

// Pairs of different blocks of 64 code points whose values have the same CRC-64:
// a generator that takes blocks with the same checksum for the same block
// merges them. A CRC is linear, so such pairs come from a system of equations.

// crcOfBit is what bit b of value i changes in the checksum of a block.
func crcOfBit(tab *crc64.Table, i, b int) uint64 {
	var block [64 * 8]byte
	zero := crc64.Checksum(block[:], tab)
	binary.BigEndian.PutUint64(block[i*8:], 1<<b)
	return crc64.Checksum(block[:], tab) ^ zero
}

// collide draws where property a is in one block and property b in another, so
// that the checksums of the two are the same.
func collide(r *eng.Rng, tab *crc64.Table, a, b int) (as, bs []int) {
	type col struct {
		v     uint64
		x, y  uint64 // which a and which b it is a sum of
		pivot int
	}
	var basis [64]*col
	var kernel []col
	order := make([]int, 128)
	for i := range order {
		order[i] = i
		j := r.N(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	for _, k := range order {
		c := col{}
		if k < 64 {
			c.v, c.x = crcOfBit(tab, k, a), 1<<k
		} else {
			c.v, c.y = crcOfBit(tab, k-64, b), 1<<(k-64)
		}
		for c.v != 0 {
			p := bits.Len64(c.v) - 1
			if basis[p] == nil {
				keep := c
				basis[p] = &keep
				break
			}
			c.v ^= basis[p].v
			c.x ^= basis[p].x
			c.y ^= basis[p].y
		}
		if c.v == 0 {
			kernel = append(kernel, c)
		}
	}
	var x, y uint64
	for x == 0 || y == 0 {
		k := eng.Pick(r, kernel)
		x ^= k.x
		y ^= k.y
	}
	for i := 0; i < 64; i++ {
		if x>>i&1 == 1 {
			as = append(as, i)
		}
		if y>>i&1 == 1 {
			bs = append(bs, i)
		}
	}
	return as, bs
}

// collisions puts n such pairs of blocks where t has nothing, for properties of
// each package in turn.
func collisions(r *eng.Rng, t *ref.Table, n int) {
	// as a generator would number them: by name
	number := func(more ...[]string) map[string]int {
		var all []string
		for _, m := range more {
			for _, s := range m[1:] {
				all = append(all, ucdName(s))
			}
		}
		sort.Strings(all)
		at := map[string]int{}
		for i, s := range all {
			at[s] = i
		}
		return at
	}
	inc := []string{"", "InCB_Consonant", "InCB_Extend", "InCB_Linker"}
	pict := []string{"", "Extended_Pictographic"}
	for k := 0; k < n; k++ {
		var names []string
		var at map[string]int
		var set func(c int, v uint8)
		switch k % 4 {
		case 0:
			names, at = ref.SNames, number(ref.SNames)
			set = func(c int, v uint8) { t.S[c] = v }
		case 1:
			names, at = ref.GNames, number(ref.GNames, inc, pict)
			set = func(c int, v uint8) { t.G[c] = v }
		case 2: // words
			names, at = ref.WNames, number(ref.WNames, pict, []string{"", "BleveIdeographic"})
			set = func(c int, v uint8) { t.W[c] = v }
		default: // phrases
			names, at = ref.WNames, number(ref.WNames, pict)
			set = func(c int, v uint8) { t.W[c] = v }
		}
		a, b := 1+r.N(len(names)-1), 1+r.N(len(names)-1)
		if a == b {
			continue
		}
		as, bs := collide(r, crc64.MakeTable(eng.Pick(r, []uint64{crc64.ISO, crc64.ISO, crc64.ISO, crc64.ECMA})), at[ucdName(names[a])], at[ucdName(names[b])])
		// two blocks of their own
		block := func(offs []int, v uint8) {
			for {
				lo := 0x50000 + r.N(0x8000)&^63
				if r.P(4) {
					lo = 0x3400 + r.N(0x9000)&^63
				}
				used := false
				for c := lo; c < lo+64; c++ {
					used = used || t.G[c] != 0 || t.W[c] != 0 || t.S[c] != 0 || t.I[c] != 0 || t.P[c]
				}
				if used {
					continue
				}
				for _, o := range offs {
					set(lo+o, v)
				}
				return
			}
		}
		block(as, uint8(a))
		block(bs, uint8(b))
	}
}
