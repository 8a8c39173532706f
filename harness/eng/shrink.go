package eng

import "unicode/utf8"

// cuts of a byte string that keep characters whole.
func units(b []byte) []int {
	var off []int
	for i := 0; i < len(b); {
		off = append(off, i)
		_, w := utf8.DecodeRune(b[i:])
		i += w
	}
	return append(off, len(b))
}

func without(b []byte, lo, hi int) Bytes {
	return append(append(Bytes(nil), b[:lo]...), b[hi:]...)
}

func shrinkText(b []byte, yield func(Bytes) bool) bool {
	off := units(b)
	n := len(off) - 1
	for size := n; size >= 1; size /= 2 {
		for lo := 0; lo+size <= n; lo += size {
			if yield(without(b, off[lo], off[lo+size])) {
				return true
			}
		}
	}
	// drop single bytes (for texts that are not valid UTF-8)
	if !utf8.Valid(b) && len(b) <= 64 {
		for i := range b {
			if yield(without(b, i, i+1)) {
				return true
			}
		}
	}
	// simplify characters
	if n <= 64 {
		for i := 0; i < n; i++ {
			ch := string(b[off[i]:off[i+1]])
			for _, s := range []string{"a", "1", " ", ".", "\u0301"} {
				if ch == s {
					break
				}
				t := append(append(append(Bytes(nil), b[:off[i]]...), s...), b[off[i+1]:]...)
				if yield(t) {
					return true
				}
			}
		}
	}
	return false
}

func shrinkSlice[T any](xs []T, yield func([]T) bool) bool {
	for size := len(xs); size >= 1; size /= 2 {
		for lo := 0; lo+size <= len(xs); lo += size {
			ys := append(append([]T(nil), xs[:lo]...), xs[lo+size:]...)
			if yield(ys) {
				return true
			}
		}
	}
	return false
}

// shrinks offers smaller cases until yield returns true.
func shrinks(c *Case, yield func(*Case) bool) bool {
	try := func(f func(d *Case)) bool {
		d := c.Clone()
		f(d)
		return yield(d)
	}
	if shrinkSlice(c.Ops, func(o []Op) bool { return try(func(d *Case) { d.Ops = o }) }) {
		return true
	}
	for i := range c.Alt {
		if len(c.Alt) > 1 && try(func(d *Case) { d.Alt = append(d.Alt[:i], d.Alt[i+1:]...) }) {
			return true
		}
	}
	if shrinkText(c.Text, func(t Bytes) bool { return try(func(d *Case) { d.Text = t }) }) {
		return true
	}
	for i := range c.Alt {
		if shrinkText(c.Alt[i], func(t Bytes) bool { return try(func(d *Case) { d.Alt[i] = t }) }) {
			return true
		}
	}
	if shrinkSlice(c.Lead, func(o []rune) bool { return try(func(d *Case) { d.Lead = o }) }) {
		return true
	}
	if shrinkSlice(c.Mid, func(o []rune) bool { return try(func(d *Case) { d.Mid = o }) }) {
		return true
	}
	if shrinkSlice(c.Ints, func(o []int) bool { return try(func(d *Case) { d.Ints = o }) }) {
		return true
	}
	if c.A7 && try(func(d *Case) { d.A7 = false }) {
		return true
	}
	if c.A8 && try(func(d *Case) { d.A8 = false }) {
		return true
	}
	if c.J != 0 && try(func(d *Case) { d.J = 0; d.Lead, d.Mid = nil, nil }) {
		return true
	}
	for i, o := range c.Ops {
		for _, a := range []int{0, o.A / 2} {
			if a != o.A && try(func(d *Case) { d.Ops[i].A = a }) {
				return true
			}
		}
	}
	for i, o := range c.Ints {
		for _, a := range []int{0, 1, o / 2, o - 1} {
			if a != o && a >= 0 && a < o && try(func(d *Case) { d.Ints[i] = a }) {
				return true
			}
		}
	}
	for _, a := range []int{0, 1, c.N / 2, c.N - 1} {
		if a >= 0 && a < c.N && try(func(d *Case) { d.N = a }) {
			return true
		}
	}
	return false
}
