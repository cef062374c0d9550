package props

import (
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"verif/harness/core"
)

type c09Deep struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Src  string `json:"src"`
}

func c09DeepData(kind string, n int) any {
	var x any
	switch kind {
	case "list":
		var l *node
		for i := 0; i < n; i++ {
			l = &node{Name: "l", Next: l}
		}
		return l
	case "tree":
		l := &node{Name: "l"}
		for i := 0; i < n; i++ {
			l = &node{Name: "l", Kids: []*node{l}}
		}
		return l
	case "any":
		l := &node{Name: "l"}
		for i := 0; i < n; i++ {
			l = &node{Name: "l", Any: l}
		}
		return l
	case "slices":
		x = 1
		for i := 0; i < n; i++ {
			x = []any{x}
		}
	case "maps":
		x = 1
		for i := 0; i < n; i++ {
			x = map[string]any{"next": x, "name": "l"}
		}
	case "pointers":
		x = 1
		for i := 0; i < n; i++ {
			y := x
			x = &y
		}
	case "unsupported":
		x = func() {}
		for i := 0; i < n; i++ {
			x = []any{i, x}
		}
	case "nil":
		x = (*node)(nil)
		for i := 0; i < n; i++ {
			x = []any{x}
		}
	}
	return x
}

func judge09Deep(c c09Deep) core.Verdict {
	out, err := textwire.EvaluateString(c.Src, map[string]any{"x": c09DeepData(c.Kind, c.N), "y": 1})
	if err != nil && out != "" {
		return core.Failf("output %q and error %q\nsource: %q, data: %s of depth %d", out, err, c.Src, c.Kind, c.N)
	}
	if c.Kind == "unsupported" && err == nil {
		return core.Failf("unsupported data at depth %d gives %q", c.N, out)
	}
	if c.Kind != "unsupported" && c.N <= 1000 && err != nil && !strings.Contains(c.Src, "next") {
		return core.Failf("%s of depth %d: %v\nsource: %q", c.Kind, c.N, err, c.Src)
	}
	if d := checkErr09(err, 1, true); d != "" {
		return core.Failf("%s\nsource: %q, data: %s of depth %d", d, c.Src, c.Kind, c.N)
	}
	if err != nil {
		return core.OK(true, "error")
	}
	return core.OK(true, "output")
}

func init() {
	p := Get("C09")
	p.Families = append(p.Families, core.New(core.Fam[c09Deep]{
		Name: "deep data",
		Rule: "linked lists, trees, slices, maps and pointers nested up to two million times, with a nil or an unsupported value at the bottom: output or an error; non-trivial: all",
		Enum: func(th bool, yield func(func() c09Deep)) {
			for ki, k := range []string{"list", "tree", "any", "slices", "maps", "pointers", "unsupported", "nil"} {
				for _, n := range []int{1, 10, 100, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10000, 65536} {
					for i, src := range []string{"{{ y }}", "{{ x ? 1 : 2 }}", "@if(x)a@end{{ z = x }}", "{{ [x].len() }}", "{{ x }}", "{{ x.next.next.name }}"} {
						if n > 2000 && (i == 4 || i > 0 && (ki+n)%4 != i) {
							continue
						}
						yield(func() c09Deep { return c09Deep{k, n, src} })
					}
				}
				for _, n := range []int{600_000, 2_000_000} {
					if th || (ki+n/600_000)%3 == 0 {
						yield(func() c09Deep { return c09Deep{k, n, "{{ y }}"} })
					}
				}
			}
		},
		Judge: judge09Deep,
	}))
}
