package props

import (
	"strings"

	"verif/harness/core"
)

// c14Size is a template or tree with n entries.
type c14Size struct {
	Kind  string `json:"kind"`
	N     int    `json:"n"`
	Procs int    `json:"procs,omitempty"`
}

// c14Key is a key; the keys are in no order.
func c14Key(i int) string {
	if i < 20 {
		return c14Keys(20)[i]
	}
	return string(rune('a'+i*7%26)) + strings.Repeat("q", i%3) + itoa(i)
}

func c14Entries(n int, sep string, f func(i int, k string) string) string {
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, f(i, c14Key(i)))
	}
	return strings.Join(p, sep)
}

var c14Sizes = []struct {
	name string
	max  int
	make func(n int) *c14Item
}{
	{"printed object", 1100, func(n int) *c14Item {
		o := "{" + c14Entries(n, ", ", func(i int, k string) string { return k + ": " + itoa(i) }) + "}"
		return c14Src("{{ o = "+o+"; o }}@dump(o){{ [o] }}", nil)
	}},
	{"failing object", 1100, func(n int) *c14Item {
		return c14Src("{{ {"+c14Entries(n, ",\n", func(i int, k string) string { return k + ": " + c14Bad[i%len(c14Bad)] })+"} }}", nil)
	}},
	{"object with two faults", 1100, func(n int) *c14Item {
		return c14Src("{{ {"+c14Entries(n, ",\n", func(i int, k string) string {
			if i == n/2 || i == n-1 {
				return k + ": none" + k
			}
			return k + ": 1"
		})+"} }}", nil)
	}},
	{"nested objects", 300, func(n int) *c14Item {
		return c14Src("{{ o = {"+c14Entries(n, ",", func(i int, k string) string {
			return k + ": {z: {b: 1, a: 2}, y: [1, {d: 1, c: 2}], x: " + itoa(i) + "}"
		})+"} }}@dump(o){{ o }}", nil)
	}},
	{"deep objects", 120, func(n int) *c14Item {
		return c14Src("{{ o = "+strings.Repeat("{b: 1, a: 2, c: ", n)+"3"+strings.Repeat("}", n)+" }}@dump(o){{ o }}", nil)
	}},
	{"component arguments", 1100, func(n int) *c14Item {
		return c14Files("home", nil, "home", "@component('c', {"+c14Entries(n, ", ", func(i int, k string) string {
			if i%3 == 2 {
				return k + ": none" + k
			}
			return k + ": 1"
		})+"})", "c", "{{ zeta }}")
	}},
	{"good component arguments", 1100, func(n int) *c14Item {
		return c14Files("home", nil, "home", "@component('c', {"+c14Entries(n, ", ", func(i int, k string) string { return k + ": {b: " + itoa(i) + ", a: 1}" })+"})", "c", "{{ zeta }}@dump(zeta)")
	}},
	{"component arguments named loop", 300, func(n int) *c14Item {
		return c14Files("home", nil, "home", "{{ zeta = 1; mid = 1 }}@component('c', {"+c14Entries(n, ", ", func(i int, k string) string { return k + ": 'x'" })+", loop: 1})", "c", "{{ zeta }}")
	}},
	{"undefined inserts", 1100, func(n int) *c14Item {
		return c14Files("home", nil, "home", "@use('l')"+c14Entries(n, "\n", func(i int, k string) string { return "@insert('" + k + "', 1)" }), "l", "@reserve('other')")
	}},
	{"failing inserts", 600, func(n int) *c14Item {
		return c14Files("home", nil, "home", "@use('l')"+c14Entries(n, "\n", func(i int, k string) string { return "@insert('" + k + "', none" + k + ")" }), "l", c14Entries(n, "\n", func(i int, k string) string { return "@reserve('" + k + "')" }))
	}},
	{"undefined slots", 1100, func(n int) *c14Item {
		return c14Files("home", nil, "home", "@component('c')"+c14Entries(n, "\n", func(i int, k string) string { return "@slot('" + k + "')1@end" })+"@end", "c", "x")
	}},
	{"duplicate slots", 600, func(n int) *c14Item {
		s := c14Entries(n, "\n", func(i int, k string) string { return "@slot('" + k + "')1@end" })
		return c14Files("home", nil, "home", "@component('c')"+s+s+"@end", "c", c14Entries(n, "\n", func(i int, k string) string { return "@slot('" + k + "')" }))
	}},
	{"duplicate inserts", 600, func(n int) *c14Item {
		s := c14Entries(n, "\n", func(i int, k string) string { return "@insert('" + k + "', 1)" })
		return c14Files("home", nil, "home", "@use('l')"+s+s, "l", c14Entries(n, "\n", func(i int, k string) string { return "@reserve('" + k + "')" }))
	}},
	{"missing components", 600, func(n int) *c14Item {
		return c14Files("home", nil, "home", c14Entries(n, "\n", func(i int, k string) string { return "@component('" + k + "')" }))
	}},
	{"faulty files", 300, func(n int) *c14Item {
		kv := []string{"home", "ok"}
		for i := 0; i < n; i++ {
			kv = append(kv, "d"+itoa(i%5)+"/"+c14Key(i), strings.Repeat("\n", i%7)+[]string{"{{ ~ }}", "{{ 1 2 }}", "@if(", "@component('gone')", "@use('gone" + itoa(i) + "')"}[i%5])
		}
		return c14Files("home", nil, kv...)
	}},
	{"pages with one bad layout", 200, func(n int) *c14Item {
		kv := []string{"home", "ok", "l", "{{ 1 2 }}@reserve('a')"}
		for i := 0; i < n; i++ {
			kv = append(kv, "d"+itoa(i%5)+"/"+c14Key(i), strings.Repeat("\n", i%7)+"@use('l')")
		}
		return c14Files("home", nil, kv...)
	}},
	{"pages with a missing component", 200, func(n int) *c14Item {
		kv := []string{"home", "ok"}
		for i := 0; i < n; i++ {
			kv = append(kv, "d"+itoa(i%5)+"/"+c14Key(i), strings.Repeat("\n", i%7)+"@component('gone')")
		}
		return c14Files("home", nil, kv...)
	}},
	{"unsupported data", 1100, func(n int) *c14Item {
		vars := map[string]*Nat{}
		for i := 0; i < n; i++ {
			k := natBad[i%len(natBad)]
			if i%3 == 0 {
				k = "int"
			}
			vars[c14Key(i)] = &Nat{&NT{K: k}, &NV{}}
		}
		return &c14Item{Src: []byte("x"), Vars: vars}
	}},
	{"map with unsupported values", 1100, func(n int) *c14Item {
		m := &Nat{&NT{K: "map", Elem: tAny}, &NV{}}
		for i := 0; i < n; i++ {
			k := natBad[i%len(natBad)]
			if i%3 == 0 {
				k = "int"
			}
			m.V.Keys = append(m.V.Keys, []byte(c14Key(i)))
			m.V.A = append(m.V.A, &NV{Dyn: &NT{K: k}, A: []*NV{{}}})
		}
		return &c14Item{Src: []byte("x"), Vars: map[string]*Nat{"m": m}}
	}},
	{"printed data", 1100, func(n int) *c14Item {
		m := &Nat{&NT{K: "map", Elem: tAny}, &NV{}}
		s := &Nat{&NT{K: "struct"}, &NV{}}
		for i := 0; i < n; i++ {
			m.V.Keys = append(m.V.Keys, []byte(c14Key(i)))
			m.V.A = append(m.V.A, &NV{Dyn: &NT{K: "map", Elem: tInt}, A: []*NV{{Keys: [][]byte{[]byte("b"), []byte("a")}, A: []*NV{natInt(i), natInt(2)}}}})
			if i < 200 {
				s.T.Fields = append(s.T.Fields, NF{"F" + c14Key(n-i), tInt})
				s.V.A = append(s.V.A, natInt(i))
			}
		}
		return &c14Item{Src: []byte("{{ m }}@dump(m){{ s }}@dump(s)@dump(m, s)"), Vars: map[string]*Nat{"m": m, "s": s}}
	}},
	{"dumps", 300, func(n int) *c14Item {
		return c14Src("@dump("+c14Entries(n, ", ", func(i int, k string) string { return "{b: " + itoa(i) + ", a: 2, c: 3}" })+")", nil)
	}},
	{"parse errors", 1100, func(n int) *c14Item {
		return c14Src(c14Entries(n, "\n", func(i int, k string) string { return []string{"{{ ~ }}", "{{ 1 2 }}", "{{ # }}"}[i%3] }), nil)
	}},
}

func judge14Size(c c14Size) core.Verdict {
	for _, s := range c14Sizes {
		if s.name == c.Kind {
			v := judge14(&c14Case{Items: []*c14Item{s.make(c.N)}, Procs: c.Procs})
			v.Class = c.Kind + " " + v.Class
			return v
		}
	}
	return core.Failf("no kind %s", c.Kind)
}

func init() {
	p := Get("C14")
	p.Families = append(p.Families, core.New(core.Fam[c14Size]{
		Name: "sizes",
		Rule: "22 kinds of templates and trees in which the order of a map could decide, with N entries, N within 2 of the powers of two and ten to 1100 (files 300), each rendered over and over, some in other processes too; non-trivial: as in catalogue",
		Enum: func(th bool, yield func(func() c14Size)) {
			for ki, k := range c14Sizes {
				max := k.max
				if th {
					max *= 4
				}
				for i, n := range append([]int{21, 25, 28, 40, 48, 50, 80, 150, 200, 300, 400, 500, 700}, sizes(12, max)...) {
					if n > max || !th && (i+ki)%3 == 0 {
						continue
					}
					yield(func() c14Size { return c14Size{Kind: k.name, N: n} })
					if i%9 == 0 {
						yield(func() c14Size { return c14Size{Kind: k.name, N: n, Procs: 2} })
					}
				}
			}
		},
		Judge: judge14Size,
	}))
}
