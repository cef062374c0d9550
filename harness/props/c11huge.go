package props

import (
	"fmt"
	"strconv"

	textwire "github.com/textwire/textwire/v2"

	"verif/harness/core"
)

// c11Huge is a call whose result is long: it has exactly Len characters, or
// the call fails, which it may only do where the result is really long.
type c11Huge struct {
	Src string `json:"src"`
	N   int64  `json:"n"`
	Len int64  `json:"len"` // -1: cannot exist
}

func c11HugeEnum(th bool, yield func(func() *c11Huge)) {
	var counts []int64
	for _, p := range []uint{10, 15, 16, 17, 20, 24, 25, 26} {
		counts = append(counts, 1<<p-1, 1<<p, 1<<p+1)
	}
	counts = append(counts, 100000, 1000000, 10000000, 33554431, 67108863, 1<<62, 1<<62+1, 1<<63-1, 1<<63-2, 1<<61+3)
	if th {
		counts = append(counts, 1<<27-1, 1<<27, 1<<27+1, 100000000)
	}
	for _, n := range counts {
		for _, s := range []string{"a", "ab", "é", "abc", "日本", "abcd", "0123456789"} {
			chars, bytes := int64(len([]rune(s))), int64(len(s))
			want := chars * n
			if n > 1<<60 {
				want = -1
			} else if n*bytes > 1<<28 {
				continue
			}
			for _, f := range []string{"{{ '%s'.repeat(n).len() }}", "{{ x = '%s'.repeat(n); x.len() }}"} {
				yield(func() *c11Huge { return &c11Huge{fmt.Sprintf(f, s), n, want} })
			}
			yield(func() *c11Huge { return &c11Huge{fmt.Sprintf("{{ '%s'.repeat(n).reverse().len() }}", s), n, want} })
		}
		want := n + 2
		if n > 1<<60 {
			want = -1
		}
		yield(func() *c11Huge { return &c11Huge{"{{ 5.decimal('.', n).len() }}", n, want} })
		yield(func() *c11Huge { return &c11Huge{"{{ '5'.decimal('.', n).len() }}", n, want} })
		yield(func() *c11Huge { return &c11Huge{"{{ '5'.decimal('é', n).reverse().len() }}", n, want} })
	}
}

func judge11Huge(c *c11Huge) core.Verdict {
	out, err := textwire.EvaluateString(c.Src, map[string]any{"n": c.N})
	switch {
	case err != nil && c.Len >= 0 && c.Len < 1<<20:
		return core.Failf("%s with n = %d fails with %q instead of giving %d", c.Src, c.N, err, c.Len)
	case err != nil:
		return core.OK(true, "error")
	case c.Len < 0 || out != strconv.FormatInt(c.Len, 10):
		return core.Failf("%s with n = %d gives %q, not %d and no error", c.Src, c.N, out, c.Len)
	}
	return core.OK(true, "value")
}

func init() {
	p := Get("C11")
	p.Families = append(p.Families, core.New(core.Fam[*c11Huge]{
		Name: "long results", Rule: "repeat and decimal with counts to 2^26 (thorough 2^27) and from 2^61 to 2^63: the result has the length that it has to have, or the call fails, which it must not below 2^20; non-trivial: all",
		Enum: c11HugeEnum, Judge: judge11Huge,
	}))
}
