package props

import (
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

type c04Item struct {
	atom  func() *S
	block func(b []*S) *S
}

func c04Items() []c04Item {
	a := func(f func() *S) c04Item { return c04Item{atom: f} }
	b := func(f func(b []*S) *S) c04Item { return c04Item{block: f} }
	return []c04Item{
		a(func() *S { return Print(Var("x")) }),
		a(func() *S { return Assign("x", Int("1")) }),
		a(func() *S { return Assign("x", Int("2")) }),
		a(func() *S { return Assign("x", Str("s")) }),
		a(func() *S { return Assign("y", Var("x")) }),
		a(func() *S { return Print(Var("y")) }),
		a(func() *S { return Assign("x", Bin("+", Var("x"), Int("10"))) }),
		b(func(b []*S) *S { return If(Bool(true), b...) }),
		b(func(b []*S) *S { return &S{K: "if", X: []*E{Bool(false)}, HasElse: true, Else: b} }),
		b(func(b []*S) *S { return Each("i", Arr(Int("5"), Int("6")), b...) }),
		b(func(b []*S) *S { return Each("x", Arr(Int("5"), Int("6")), b...) }),
		b(func(b []*S) *S { return Each("x", Arr(Str("p"), Str("q")), b...) }),
		b(func(b []*S) *S { return forStmt("x", 3, "<", 5, inc("x"), b...) }),
		b(func(b []*S) *S {
			return &S{K: "for", Cond: Bin("<", Var("x"), Int("3")), Post: inc("x"), B: b}
		}),
		b(func(b []*S) *S {
			return &S{K: "each", S: "x", X: []*E{Arr()}, HasElse: true, Else: b}
		}),
	}
}

// c04Programs enumerates the programs of exactly n items.
func c04Programs(items []c04Item, n int, f func([]*S)) {
	if n == 0 {
		f(nil)
		return
	}
	for _, it := range items {
		if it.atom != nil {
			c04Programs(items, n-1, func(rest []*S) {
				f(append([]*S{it.atom()}, rest...))
			})
			continue
		}
		for k := 0; k < n; k++ {
			c04Programs(items, k, func(b []*S) {
				c04Programs(items, n-1-k, func(rest []*S) {
					f(append([]*S{it.block(b)}, rest...))
				})
			})
		}
	}
}

// c04Spaced puts a separator between the statements.
func c04Spaced(b []*S) []*S {
	var out []*S
	for _, s := range b {
		c := *s
		c.B, c.Else = c04Spaced(s.B), c04Spaced(s.Else)
		out = append(out, &c, Text(","))
	}
	return out
}

var c04Data = []Data{nil, {"x": DInt(7)}, {"x": DStr("d")}, {"x": DInt(7), "y": DInt(8), "i": DStr("i")}}

var c04Values = []*E{Int("1"), Flt("1.5"), Str("s"), Bool(true), Nil(), Arr(Int("1")), Obj([]string{"k"}, Int("1"))}

func c04Enum(th bool, yield func(func() *Case)) {
	items := c04Items()
	max := 4
	if th {
		max = 5
	}
	for n := 1; n <= max; n++ {
		c04Programs(items, n, func(p []*S) {
			for di, d := range c04Data {
				if n == max && di > 1 && !th {
					continue
				}
				yield(func() *Case { return &Case{Prog: c04Spaced(p), Data: d} })
			}
		})
	}
	// all type pairs, for every way to bind a name
	emit := func(d Data, prog ...*S) {
		yield(func() *Case { return &Case{Prog: c04Spaced(prog), Data: d} })
	}
	for _, a := range c04Values {
		for _, b := range c04Values {
			read := Print(Call(Arr(Var("x")), "len"))
			emit(nil, Assign("x", a), Assign("x", b), read)
			emit(Data{"x": nativeOf(a)}, Assign("x", b), read)
			emit(nil, Assign("x", a), If(Bool(true), Assign("x", b), read), read)
			emit(nil, Assign("x", a), Each("x", Arr(b), read), read)
			emit(Data{"x": nativeOf(a)}, Each("x", Arr(b, b), read), read)
			emit(nil, Assign("x", a), Each("i", Arr(Int("1"), Int("2")), Assign("x", b), read), read)
			emit(nil, Assign("x", a), &S{K: "for", Init: &Part{N: "x", E: b}, Cond: Bool(false), B: []*S{read}}, read)
			emit(nil, Assign("x", a), forStmt("i", 0, "<", 2, inc("i"), Assign("x", b), read), read)
			emit(nil, Each("x", Arr(a), read), Assign("x", b), Each("x", Arr(b), read), read)
			emit(nil, If(Bool(true), Assign("x", a)), If(Bool(true), Assign("x", b), read), Assign("x", b), read)
			emit(nil, Each("x", Arr(a), Assign("x", b), read))
			emit(nil, Each("i", Arr(Int("1"), Int("2")), Assign("y", a), Each("y", Arr(b), read)))
		}
		emit(nil, Assign("loop", a))
		emit(nil, Each("loop", Arr(a), Text("x")))
		emit(nil, Each("v", Arr(Int("1")), Assign("loop", a)))
		emit(nil, Each("v", Arr(Int("1")), Each("loop", Arr(a))))
		emit(nil, &S{K: "for", Init: &Part{N: "loop", E: a}, Cond: Bool(false)})
		emit(Data{"loop": nativeOf(a)}, Text("x"))
		emit(Data{"loop": nativeOf(a)}, Print(Var("loop")))
		emit(Data{"loop": nativeOf(a), "a": DInt(1)}, Each("v", Arr(Int("1")), Print(Dot(Var("loop"), "index"))))
	}
}

func init() {
	register(&core.Prop{ID: "C04", Level: "exploration", Families: []core.Family{
		core.New(core.Fam[*Case]{
			Name: "scopes",
			Rule: "exhaustive: every program of up to 4 (thorough 5) assignments, reads and blocks over the names x and y and two types, with 2-4 data maps; every pair of types for every way to bind a name; every way to bind loop; non-trivial: the reference defines the result",
			Enum: c04Enum,
			Judge: func(c *Case) core.Verdict {
				ref, d := judgeCase(c, &Interp{})
				return verdict(d, !ref.Unspec, class(ref))
			},
		}),
		core.New(core.Fam[*Case]{
			Name: "random",
			Rule: "random programs of assignments and reads over four names in nested branches and loops, with data; non-trivial: an assignment and a nested block",
			Gen: blockGen(map[string]int{"assign": 14, "print": 8, "if": 6, "each": 5, "for": 3, "text": 3, "comment": 0}, 4, 5, 30, func(g *gen.G) {
				g.Names = []string{"v", "w", "d1", "i"}
			}), Quick: 80000, Thorough: 2500000,
			Judge: func(c *Case) core.Verdict {
				ref, d := judgeCase(c, &Interp{})
				n := 0
				Walk(c.Prog, func(s *S) {
					if s.K == "code" && s.P[0].N != "" {
						n++
					}
				}, nil)
				return verdict(d, n > 0 && hasKind(c.Prog, "if", "each", "for") && !ref.Unspec, class(ref))
			},
		}),
	}})
}
