package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/gen"
)

// run is a piece of text that is repeated.
type run struct {
	S []byte `json:"s"`
	N int    `json:"n"`
	T string `json:"txt,omitempty"` // the piece, readable
}

// rope is a long source in few words.
type rope []run

func rep(s string, n int) run { return run{[]byte(s), n, fmt.Sprintf("%q", s)} }

func (r rope) String() string {
	var b strings.Builder
	for _, p := range r {
		b.WriteString(strings.Repeat(string(p.S), p.N))
	}
	return b.String()
}

func (r rope) show() string {
	var out []string
	for _, p := range r {
		s := fmt.Sprintf("%q", p.S)
		if p.N != 1 {
			s += fmt.Sprintf(" x %d", p.N)
		}
		out = append(out, s)
	}
	return strings.Join(out, " + ")
}

// sizes are numbers around the powers of two and ten, up to max.
func sizes(min, max int) []int {
	seen := map[int]bool{}
	var out []int
	add := func(n int) {
		for d := -2; d <= 2; d++ {
			if n+d >= min && n+d <= max && !seen[n+d] {
				seen[n+d] = true
				out = append(out, n+d)
			}
		}
	}
	for n := 8; n <= max+2; n *= 2 {
		add(n)
	}
	for n := 10; n <= max+2; n *= 10 {
		add(n)
	}
	for n := 3; n <= 24; n += 7 {
		add(n * 4096)
	}
	return out
}

// drawSize draws a size, often near a power of two.
func drawSize(r *rapid.T, g *gen.G, max int) int {
	n := 1 + g.N(12)
	switch g.N(3) {
	case 0:
		k := 3 + g.N(15)
		n = 1<<k + g.N(9) - 4
	case 1:
		n = rapid.IntRange(1, max).Draw(r, "size")
	}
	if n > max {
		n = max
	}
	return n
}
