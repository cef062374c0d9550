package props

import (
	"strings"

	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
)

// c10Size is a long literal and a short one in a context.
type c10Size struct {
	A    rope   `json:"a"`
	B    string `json:"b"`
	Q    int    `json:"q"`
	Ctx  int    `json:"ctx"`
	Raw  bool   `json:"raw,omitempty"`
	Swap bool   `json:"swap,omitempty"`
}

func judge10Size(c c10Size) core.Verdict {
	qs := []string{`"`, "'"}
	x := c10Case{A: []byte(c.A.String()), B: []byte(c.B), QA: qs[c.Q&1], QB: qs[c.Q>>1&1], Ctx: c.Ctx, Raw: c.Raw && c.Ctx < len(c10Ctxs)}
	if c.Swap {
		x.A, x.B = x.B, x.A
	}
	if !quotable(string(x.A)) || !quotable(string(x.B)) || c.Ctx == 20 && len(x.A) == 0 {
		return core.OK(false, "skipped")
	}
	return judge10(x)
}

var c10Fills = []string{"x", "é", "日", "<", "&", `"`, "'", "&lt;", "a&b", "x<y> ", `\n`, "\n", ";", "ab&#34;"}

func init() {
	p := Get("C10")
	all := len(c10Ctxs) + len(c10RawCtxs)
	p.Families = append(p.Families,
		core.New(core.Fam[c10Size]{
			Name: "sizes",
			Rule: "literals of a length within 2 of a power of two or ten to 70000 bytes (thorough 300000), plain, of specials, of UTF-8 or of entities, with a special first, last or near the end, in the contexts and raw() contexts in turn; non-trivial: the literals hold < > & quotes or backslashes",
			Enum: func(th bool, yield func(func() c10Size)) {
				max := 70000
				if th {
					max = 300000
				}
				turn := 0
				for _, n := range sizes(5, max) {
					for fi, f := range c10Fills {
						for ei, e := range []string{"", "<", "&", ">", `"`, "'", "&gt;", "<b"} {
							if !th && n > 600 && (fi+ei+n)%3 != 0 {
								continue
							}
							turn++
							k := n / len(f)
							if k == 0 {
								k = 1
							}
							t := turn
							yield(func() c10Size {
								r := rope{rep(f, k), rep(e, 1)}
								switch t % 4 {
								case 1:
									r = rope{rep(e, 1), rep(f, k)}
								case 2:
									r = rope{rep(f, k), rep(e, 1), rep(f, 1)}
								}
								return c10Size{A: r, B: []string{"", "&", "z", "<"}[t%4], Q: t % 4, Ctx: t % all, Raw: t%3 == 0, Swap: t%5 == 0}
							})
							yield(func() c10Size {
								return c10Size{A: rope{rep(f, k), rep(e, 1)}, Q: t % 2, Raw: t%3 == 0}
							})
						}
					}
				}
			},
			Judge: judge10Size,
		}),
		core.New(core.Fam[c10Size]{
			Name: "random sizes",
			Rule: "random literals of up to 5 repeated pieces, each to 8000 times, in random contexts; non-trivial: the literals hold < > & quotes or backslashes",
			Gen: func(r *rapid.T) c10Size {
				g := gen.New(r)
				c := c10Size{Q: g.N(4), Ctx: g.N(all), Raw: g.N(3) == 2, Swap: g.N(4) == 3}
				for i, n := 0, 1+g.N(5); i < n; i++ {
					s := gen.Pick(g, c10More)
					if g.N(2) == 1 {
						c.A = append(c.A, rep(s, 1))
						continue
					}
					max := 8000
					c.A = append(c.A, rep(s, drawSize(r, g, max)))
				}
				if g.N(3) == 2 {
					c.B = gen.Pick(g, c10More)
				}
				if !quotable(c.A.String()) {
					c.A = append(c.A, rep("x", 1))
				}
				if !quotable(c.B) {
					c.B = strings.TrimRight(c.B, `\`)
				}
				return c
			}, Quick: 50000, Thorough: 300000,
			Judge: judge10Size,
		}))
}
