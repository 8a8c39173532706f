// Package eng is a small property-based testing engine: seeded generation by
// case index, parallel execution, shrinking, replay files and evidence.
package eng

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"strconv"
)

// Bytes is a byte string that is written in replay files as a Go literal.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(b)))
}

func (b *Bytes) UnmarshalJSON(j []byte) error {
	var q string
	if err := json.Unmarshal(j, &q); err != nil {
		return err
	}
	s, err := strconv.Unquote(q)
	if err != nil {
		return fmt.Errorf("bad literal %s: %w", q, err)
	}
	*b = Bytes(s)
	return nil
}

// Op is one operation of a history.
type Op struct {
	K string `json:"k"`           // kind
	A int    `json:"a,omitempty"` // arguments
	B int    `json:"b,omitempty"`
}

// Case is one generated case, concrete enough to be replayed on its own. Each
// sub-check uses the fields it needs.
type Case struct {
	Text Bytes   `json:"text,omitempty"`
	Alt  []Bytes `json:"alt,omitempty"`
	Pkg  int     `json:"pkg,omitempty"`
	A7   bool    `json:"a7,omitempty"`
	A8   bool    `json:"a8,omitempty"`
	J    int     `json:"j,omitempty"` // 0 no joiners, 1 joiners set, 2 nil joiners set
	Lead []rune  `json:"lead,omitempty"`
	Mid  []rune  `json:"mid,omitempty"`
	Ops  []Op    `json:"ops,omitempty"`
	Ints []int   `json:"ints,omitempty"`
	N    int     `json:"n,omitempty"`
	Str  string  `json:"str,omitempty"`
}

func (c *Case) Clone() *Case {
	d := *c
	d.Text = append(Bytes(nil), c.Text...)
	d.Alt = make([]Bytes, len(c.Alt))
	for i := range c.Alt {
		d.Alt[i] = append(Bytes(nil), c.Alt[i]...)
	}
	d.Lead = append([]rune(nil), c.Lead...)
	d.Mid = append([]rune(nil), c.Mid...)
	d.Ops = append([]Op(nil), c.Ops...)
	d.Ints = append([]int(nil), c.Ints...)
	return &d
}

var hseed = maphash.MakeSeed()

// Hash identifies the case, for counting distinct ones within this run.
func (c *Case) Hash() uint64 {
	var h maphash.Hash
	h.SetSeed(hseed)
	h.Write(c.Text)
	var b [8]byte
	num := func(n int) {
		for i := range b {
			b[i] = byte(n >> (8 * i))
		}
		h.Write(b[:])
	}
	flag := 0
	if c.A7 {
		flag |= 1
	}
	if c.A8 {
		flag |= 2
	}
	num(flag<<16 | c.J<<8 | c.Pkg)
	num(c.N)
	for _, a := range c.Alt {
		num(len(a))
		h.Write(a)
	}
	num(len(c.Lead))
	for _, r := range c.Lead {
		num(int(r))
	}
	for _, r := range c.Mid {
		num(int(r))
	}
	num(len(c.Ops))
	for _, o := range c.Ops {
		h.WriteString(o.K)
		num(o.A)
		num(o.B)
	}
	for _, n := range c.Ints {
		num(n)
	}
	h.WriteString(c.Str)
	return h.Sum64()
}

func (c *Case) String() string {
	d := c.Clone()
	trim := func(b Bytes) Bytes {
		if len(b) > 300 {
			return append(append(Bytes(nil), b[:200]...), fmt.Sprintf("...(%d bytes)", len(b))...)
		}
		return b
	}
	d.Text = trim(d.Text)
	for i := range d.Alt {
		d.Alt[i] = trim(d.Alt[i])
	}
	if len(d.Ops) > 40 {
		d.Ops = d.Ops[:40]
	}
	j, _ := json.Marshal(d)
	return string(j)
}
