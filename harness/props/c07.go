package props

import (
	"pgregory.net/rapid"
	"verif/harness/core"
	. "verif/harness/lang"
)

func slot(n string) *S { return &S{K: "slot", S: n} }

func use(name string, args *E, slots ...Branch) *S {
	s := &S{K: "comp", S: name, Br: slots}
	if args != nil {
		s.X = []*E{args}
	}
	return s
}

// c07Comps are component files with the slots they declare.
func c07Comps() []struct {
	body  []*S
	slots []string
} {
	type c = struct {
		body  []*S
		slots []string
	}
	return []c{
		{[]*S{Text("[c]")}, nil},
		{[]*S{Text("["), Print(Var("k")), Text("]")}, nil},
		{[]*S{Text("["), slot(""), Text("]")}, []string{""}},
		{[]*S{Text("["), slot("h"), Text("|"), slot(""), Text("]")}, []string{"h", ""}},
		{[]*S{slot("h"), slot("f")}, []string{"h", "f"}},
		{[]*S{If(Bin(">", Var("k"), Int("1")), Text("big"), slot("h")), Text("/"), slot("f")}, []string{"h", "f"}},
		{[]*S{{K: "if", X: []*E{Bin("==", Var("k"), Int("1"))}, B: []*S{slot("")}, HasElse: true, Else: []*S{Text("else"), slot("h")}}}, []string{"", "h"}},
		{[]*S{Each("i", Arr(Int("1"), Int("2")), Print(Var("i")), slot(""), Text(",")), Print(Var("k"))}, []string{""}},
		{[]*S{{K: "each", S: "i", X: []*E{Arr()}, HasElse: true, Else: []*S{slot("h")}}, slot("")}, []string{"h", ""}},
		{[]*S{Comment(" @slot('zz') "), slot("h"), slot("h"), Text("\n")}, []string{"h"}},
		{[]*S{forStmt("i", 0, "<", 2, inc("i"), slot("f"), If(Bool(true), slot("h"))), Print(Var("k")), Print(Var("outer"))}, []string{"f", "h"}},
		{[]*S{Assign("own", Bin("+", Var("k"), Int("1"))), Print(Var("own")), slot("")}, []string{""}},
	}
}

func c07Bodies(tag string) [][]*S {
	return [][]*S{
		{Text(tag)},
		{},
		{Print(Var("outer")), Text("-" + tag)},
		{If(Bool(true), Text("t"+tag), Print(Var("outer"))), Each("z", Arr(Int("7"), Int("8")), Print(Var("z")))},
		{Text("\n " + tag + " \n")},
	}
}

func c07Args(i int) *E {
	return []*E{
		Obj([]string{"k"}, Int("1")),
		Obj([]string{"k"}, Bin("*", Var("outer"), Int("2"))),
		Obj([]string{"k", "m"}, Int("5"), Str("x")),
		Obj([]string{"k"}, Tern(Bin(">", Var("outer"), Int("3")), Int("9"), Int("0"))),
		Obj([]string{"outer", "k"}, Int("50"), Var("outer")),
		Obj([]string{"k", "outer"}, Int("2"), Str("retyped")),
	}[i%6]
}

var c07Contexts = []func([]*S) []*S{
	func(b []*S) []*S { return b },
	func(b []*S) []*S { return []*S{Text("<"), If(Bool(true), b...), Text(">")} },
	func(b []*S) []*S {
		return []*S{Each("e", Arr(Int("1"), Int("2")), append(append([]*S{}, b...), Text(";"))...)}
	},
	func(b []*S) []*S {
		return []*S{{K: "if", X: []*E{Bool(false)}, HasElse: true, Else: b}, Print(Var("outer"))}
	},
	func(b []*S) []*S { return []*S{forStmt("o", 0, "<", 2, inc("o"), b...)} },
	func(b []*S) []*S { return []*S{{K: "use", S: "~main"}, {K: "insert", S: "body", B: b}} },
	func(b []*S) []*S {
		return []*S{{K: "each", S: "e", X: []*E{Arr()}, HasElse: true, Else: b}}
	},
	func(b []*S) []*S {
		return []*S{{K: "use", S: "~main"}, {K: "insert", S: "body", B: []*S{Each("e", Var("list"), b...)}}, {K: "insert", S: "side", X: []*E{Int("1")}}}
	},
}

var c07Data = Data{"outer": DInt(3), "list": DArr(*DInt(1), *DInt(2))}

func c07Enum(th bool, yield func(func() *SiteCase)) {
	layout := []*S{Text("{"), {K: "reserve", S: "body"}, Text("/"), {K: "reserve", S: "side"}, Text(".}")}
	comps := c07Comps()
	// all uses of a component: every subset of the slots with rotating bodies
	turn := 0
	oneUse := func(name string, ci int, mask int, arg int) *S {
		var br []Branch
		for i, n := range comps[ci].slots {
			if mask>>i&1 == 1 {
				turn++
				bs := c07Bodies(string(rune('A' + turn%26)))
				br = append(br, Branch{Name: n, B: bs[turn%len(bs)]})
			}
		}
		if turn%2 == 1 && len(br) == 2 {
			br[0], br[1] = br[1], br[0]
		}
		return use(name, c07Args(arg), br...)
	}
	put := func(ctx int, body []*S, files map[string][]*S) {
		n := turn
		yield(func() *SiteCase {
			f := map[string][]*S{"home": c07Contexts[ctx](body), "layouts/main": layout}
			for k, v := range files {
				f[k] = v
			}
			c := &SiteCase{Files: f, Page: "home", Data: c07Data}
			if n%4 == 3 {
				c.Layout = []byte{byte(n), 8, byte(n >> 2), 3}
				c.Dir, c.Ext = siteDirs[n%len(siteDirs)], siteExts[n%len(siteExts)]
			}
			return c
		})
	}
	for ci, comp := range comps {
		subsets := 1 << len(comp.slots)
		for ctx := range c07Contexts {
			for m := 0; m < subsets; m++ {
				for arg := 0; arg < 6; arg++ {
					turn++
					name := []string{"~card", "components/card", "card", "~card", "ca~rd", "~v~2", "d~/card", "~c.d"}[turn%8]
					files := map[string][]*S{Resolve(name, "components"): comp.body}
					put(ctx, []*S{oneUse(name, ci, m, arg)}, files)
				}
				// two uses of one component
				for m2 := 0; m2 < subsets; m2++ {
					for arg := 0; arg < 3; arg++ {
						turn++
						files := map[string][]*S{"components/card": comp.body}
						put(ctx, []*S{oneUse("~card", ci, m, arg), Text("+"), oneUse([]string{"~card", "components/card"}[turn%2], ci, m2, arg+turn)}, files)
						if th {
							put(ctx, []*S{oneUse("~card", ci, m, arg), oneUse("~card", ci, m2, turn), If(Bool(true), oneUse("~card", ci, m, turn+1))}, files)
						}
					}
				}
				// with another component, inside its slot, and arguments that
				// depend on the loop
				for cj := range comps {
					if len(comps[cj].slots) == 0 {
						continue
					}
					turn++
					files := map[string][]*S{"components/card": comp.body, "other": comps[cj].body}
					inner := oneUse("~card", ci, m, turn)
					put(ctx, []*S{use("other", c07Args(turn), Branch{Name: comps[cj].slots[0], B: []*S{Text("s"), inner, Text("e")}})}, files)
					put(ctx, []*S{inner, oneUse("other", cj, turn%4&(1<<len(comps[cj].slots)-1), turn), oneUse("~card", ci, m, turn+3)}, files)
					put(ctx, []*S{Each("q", Arr(Int("1"), Int("5"), Int("2")), use("~card", Obj([]string{"k"}, Bin("*", Var("q"), Int("10"))), inner.Br...), Print(Var("q")))}, files)
				}
			}
		}
	}
	// faults
	fault := func(names []string, files map[string][]*S) {
		yield(func() *SiteCase {
			return &SiteCase{Files: files, Page: "home", Data: c07Data, Expect: "load", Names: names}
		})
	}
	for ci, comp := range comps {
		for ctx := range c07Contexts {
			for _, name := range []string{"~card", "components/card", "deep/er"} {
				file := Resolve(name, "components")
				bare := file
				if name[0] == '~' {
					bare = "card"
				}
				with := func(s *S) map[string][]*S {
					return map[string][]*S{file: comp.body, "layouts/main": layout, "home": c07Contexts[ctx]([]*S{Text("a"), s})}
				}
				declared := map[string]bool{}
				for _, n := range comp.slots {
					declared[n] = true
				}
				for _, n := range []string{"zzz", "H", "", "ff"} {
					if !declared[n] {
						fault([]string{bare, n}, with(use(name, c07Args(ci), Branch{Name: n, B: []*S{Text("x")}})))
						for _, ok := range comp.slots {
							fault([]string{bare, n}, with(use(name, nil, Branch{Name: ok}, Branch{Name: n, B: []*S{Text("x")}})))
						}
						fault([]string{bare, n}, map[string][]*S{file: comp.body, "layouts/main": layout,
							"home": c07Contexts[ctx]([]*S{use(name, c07Args(0)), use(name, c07Args(1), Branch{Name: n})})})
					}
				}
				for _, n := range comp.slots {
					fault([]string{bare, n}, with(use(name, c07Args(ci), Branch{Name: n, B: []*S{Text("x")}}, Branch{Name: n, B: []*S{Text("y")}})))
					fault([]string{bare, n}, with(use(name, c07Args(ci), Branch{Name: n}, Branch{Name: n})))
					for _, o := range comp.slots {
						if o != n {
							fault([]string{bare, n}, with(use(name, nil, Branch{Name: n}, Branch{Name: o}, Branch{Name: n, B: []*S{Text("y")}})))
						}
					}
				}
				fault([]string{bare}, map[string][]*S{"layouts/main": layout, "home": c07Contexts[ctx]([]*S{use(name, nil)})})
				fault([]string{bare}, map[string][]*S{"layouts/main": layout, "home": c07Contexts[ctx]([]*S{use("~ok", nil), use(name, c07Args(1))}), "components/ok": comps[0].body})
				fault([]string{bare}, map[string][]*S{"layouts/main": layout, "home": c07Contexts[ctx]([]*S{use("ok", nil, Branch{Name: "", B: []*S{use(name, nil)}})}), "ok": {slot("")}})
			}
		}
	}
}

func init() {
	register(&core.Prop{ID: "C07", Level: "exploration", Families: []core.Family{
		core.New(core.Fam[*SiteCase]{
			Name:  "components",
			Rule:  "12 component files x every subset of their slots x 6 argument lists x 8 places (top level, blocks, loops, inserts), one use, two uses, next to and inside the slot of every other component, in a loop with its own arguments; every fault of the statement at every place; non-trivial: a component was rendered or a fault expected",
			Enum:  c07Enum,
			Judge: siteJudge(1, "comp"),
		}),
		core.New(core.Fam[*SiteCase]{
			Name: "random",
			Rule: "random sites of up to four components, half with a layout; one in four with a fault; non-trivial: at least two components rendered or a fault expected",
			Gen: func(r *rapid.T) *SiteCase {
				c := genSite(r, 4, rapid.Bool().Draw(r, "layout?"))
				if rapid.IntRange(0, 3).Draw(r, "fault?") == 3 {
					siteFault(r, c, []string{"missing component", "unknown slot", "duplicate slot"})
				}
				return c
			}, Quick: 80000, Thorough: 1500000,
			Judge: siteJudge(2, "comp"),
		}),
	}, Assumptions: []string{
		"slot bodies see the variables of the component over those of the caller, as on the pinned tree",
		"components used inside component and layout files are not defined by the statement",
		"a control directive that leaves a slot body or a component is not defined",
	}})
	// names bound by component arguments, for C04
	p := Get("C04")
	p.Families = append(p.Families, core.New(core.Fam[*SiteCase]{
		Name: "components",
		Rule: "random sites with components whose arguments shadow visible names; non-trivial: a component was rendered",
		Gen:  func(r *rapid.T) *SiteCase { return genSite(r, 3, false) }, Quick: 40000, Thorough: 500000,
		Judge: siteJudge(1, "comp"),
	}))
}
