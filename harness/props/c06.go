package props

import (
	"pgregory.net/rapid"
	"verif/harness/core"
	. "verif/harness/lang"
)

// c06Reserves are layouts with up to three reserves at any nesting position.
func c06Layouts() [][]*S {
	res := func(n string) *S { return &S{K: "reserve", S: n} }
	a, b, c := res("a"), res("b"), res("c d")
	return [][]*S{
		{a},
		{Text("<"), a, Text(">")},
		{Text("<"), a, Text("|"), b, Text(">")},
		{b, a},
		{Text("x"), b, Text("\n"), c, a, Text("y")},
		{If(Bool(true), Text("("), a, Text(")")), b},
		{If(Bool(false), a), b, Text(".")},
		{{K: "if", X: []*E{Bool(false)}, B: []*S{Text("n")}, Br: []Branch{{E: Var("yes"), B: []*S{Text("e"), b}}}, HasElse: true, Else: []*S{a}}, c},
		{{K: "if", X: []*E{Bool(false)}, HasElse: true, Else: []*S{a, b}}},
		{Each("i", Arr(Int("1"), Int("2")), Print(Var("i")), a, Text(",")), b},
		{Each("i", Var("list"), If(Bin("==", Var("i"), Int("2")), a), b), c},
		{forStmt("i", 0, "<", 3, inc("i"), Text("-"), a), Text("!"), b},
		{{K: "each", S: "i", X: []*E{Arr()}, HasElse: true, Else: []*S{Text("none"), a}}, b},
		{Comment(" @reserve('z') "), a, Print(Var("t")), b, Print(Bin("+", Var("n"), Int("1")))},
		{Text("a b\r\n"), If(Bool(true), If(Bool(true), Each("q", Arr(Str("s")), Print(Var("q")), a), b)), c},
	}
}

func c06Inserts(n string) []*S {
	return []*S{
		nil,
		{K: "insert", S: n, B: []*S{Text("[" + n + "]")}},
		{K: "insert", S: n, X: []*E{Var("t")}},
		{K: "insert", S: n, X: []*E{Bin("+", Int("1"), Var("n"))}},
		{K: "insert", S: n, B: nil},
		{K: "insert", S: n, B: []*S{Text("p"), Print(Var("t")), If(Var("yes"), Text("q")), Each("z", Var("list"), Print(Var("z"))), Comment("@end")}},
		{K: "insert", S: n, X: []*E{Str("")}},
	}
}

var c06Data = Data{"yes": DBool(true), "list": DArr(*DInt(1), *DInt(2), *DInt(3)), "t": DStr("T<b>&"), "n": DInt(41)}

func c06Enum(th bool, yield func(func() *SiteCase)) {
	sep := [][]*S{nil, {Text("outside")}, {Text("\n"), Print(Str("out")), Assign("t", Str("changed"))}}
	step := 1
	if !th {
		step = 3
	}
	n := 0
	for li, layout := range c06Layouts() {
		names := []string{}
		Walk(layout, func(s *S) {
			if s.K == "reserve" {
				names = append(names, s.S)
			}
		}, nil)
		var build func(i int, chosen []*S)
		build = func(i int, chosen []*S) {
			if i < len(names) {
				for _, ins := range c06Inserts(names[i]) {
					next := chosen
					if ins != nil {
						next = append(append([]*S{}, chosen...), ins)
					}
					build(i+1, next)
				}
				return
			}
			for si, s := range sep {
				for order := 0; order < 3; order++ {
					n++
					if n%step != 0 && len(chosen) > 1 {
						continue
					}
					m := n
					yield(func() *SiteCase {
						name := []string{"~main", "layouts/main", "base", "~x/y", "a~b", "~v~1/x", "x/m.n", "z~"}[m%8]
						use := &S{K: "use", S: name}
						var page []*S
						add := func(x *S) { page = append(append(page, s...), x) }
						if order != 1 {
							add(use)
						}
						for k := range chosen {
							if order == 2 {
								k = len(chosen) - 1 - k
							}
							add(chosen[k])
						}
						if order == 1 {
							add(use)
						}
						page = append(page, s...)
						c := &SiteCase{Files: map[string][]*S{Resolve(name, "layouts"): layout, "home": page, "other": {Text("o")}}, Page: "home", Data: c06Data}
						if (li+si+m)%5 == 0 {
							c.Dir, c.Ext = siteDirs[m%len(siteDirs)], siteExts[(m/7)%len(siteExts)]
							c.Layout = []byte{byte(m), byte(m >> 3), 7}
						}
						return c
					})
				}
			}
		}
		build(0, nil)
	}
	// two pages share one layout: nothing leaks from one to the other
	for _, layout := range c06Layouts() {
		for i, ins := range c06Inserts("a") {
			for j, other := range c06Inserts("a") {
				yield(func() *SiteCase {
					p := func(x *S) []*S {
						b := []*S{{K: "use", S: "~main"}}
						if x != nil {
							b = append(b, x)
						}
						return b
					}
					hasA := false
					Walk(layout, func(s *S) { hasA = hasA || s.K == "reserve" && s.S == "a" }, nil)
					x, y := ins, other
					if !hasA {
						x, y = nil, nil
					}
					return &SiteCase{Files: map[string][]*S{"layouts/main": layout, "home": p(x), "about": p(y)}, Page: []string{"home", "about"}[(i+j)%2], Data: c06Data}
				})
			}
		}
	}
	// faults
	fault := func(expect string, names []string, files map[string][]*S) {
		for _, dir := range []string{"t", "tpl/deep"} {
			yield(func() *SiteCase {
				return &SiteCase{Files: files, Page: "home", Data: c06Data, Dir: dir, Expect: expect, Names: names}
			})
		}
	}
	use := &S{K: "use", S: "~main"}
	for _, layout := range c06Layouts() {
		names := []string{}
		Walk(layout, func(s *S) {
			if s.K == "reserve" {
				names = append(names, s.S)
			}
		}, nil)
		for _, n := range []string{"zzz", "A", "a ", "aa"} {
			for _, bad := range c06Inserts(n)[1:] {
				fault("load", []string{n}, map[string][]*S{"layouts/main": layout, "home": {use, bad}})
				fault("load", []string{n}, map[string][]*S{"layouts/main": layout, "home": {bad, Text("x"), use}})
				fault("load", []string{n}, map[string][]*S{"layouts/main": layout, "home": {use, If(Bool(false), bad)}})
				for _, good := range names {
					fault("load", []string{n}, map[string][]*S{"layouts/main": layout, "home": {use, c06Inserts(good)[1], bad}})
				}
			}
		}
		for _, n := range names {
			for i, x := range c06Inserts(n)[1:] {
				for j, y := range c06Inserts(n)[1:] {
					fault("load", []string{n}, map[string][]*S{"layouts/main": layout, "home": {use, x, Text("-"), y}})
					if i == j {
						fault("load", []string{n}, map[string][]*S{"layouts/main": layout, "home": {x, If(Bool(true), y), use}})
					}
				}
			}
		}
		fault("load", nil, map[string][]*S{"home": {use}})
		fault("load", nil, map[string][]*S{"layouts/main": layout, "home": {{K: "use", S: "~none"}}})
		fault("load", nil, map[string][]*S{"layouts/main": layout, "home": {{K: "use", S: "main"}}})
		for _, at := range []int{0, len(layout)} {
			nested := append(append(append([]*S{}, layout[:at]...), &S{K: "use", S: "~second"}), layout[at:]...)
			fault("error", nil, map[string][]*S{"layouts/main": nested, "layouts/second": {Text("s"), {K: "reserve", S: "s"}}, "home": {use}})
			self := append(append(append([]*S{}, layout[:at]...), &S{K: "use", S: "~main"}), layout[at:]...)
			fault("error", nil, map[string][]*S{"layouts/main": self, "home": {use}})
		}
	}
}

func init() {
	register(&core.Prop{ID: "C06", Level: "exploration", Families: []core.Family{
		core.New(core.Fam[*SiteCase]{
			Name:  "layouts",
			Rule:  "15 layouts with 1-3 reserves at every kind of nesting position x every combination of absent, block, expression and empty inserts (quick: every third of those with two or more) x text outside x order of @use and inserts, in rotating directories, extensions and spellings of the name; two pages on one layout; every fault of the statement; non-trivial: a reserve was rendered or a fault expected",
			Enum:  c06Enum,
			Judge: siteJudge(1, "reserve:filled", "reserve:empty"),
		}),
		core.New(core.Fam[*SiteCase]{
			Name: "random",
			Rule: "random layouts, pages, components and data; one in four with a fault; non-trivial: at least one insert was rendered or a fault expected",
			Gen: func(r *rapid.T) *SiteCase {
				c := genSite(r, 2, true)
				if rapid.IntRange(0, 3).Draw(r, "fault?") == 3 {
					siteFault(r, c, []string{"unknown insert", "duplicate insert", "missing layout", "layout in layout"})
				}
				return c
			}, Quick: 80000, Thorough: 1500000,
			Judge: siteJudge(1, "reserve:filled"),
		}),
	}, Assumptions: []string{
		"inserts see the variables of the layout at the place of the reserve, as on the pinned tree",
		"a control directive that leaves an insert body is not defined",
	}})
}
