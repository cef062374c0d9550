package props

import (
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// Conditions by what they do: truthy, falsy, failing. Those that are variables
// come from the data.
var c02Data = Data{
	"one": DInt(1), "neg": DInt(-5), "zero": DInt(0), "half": DFloat(0.5), "fzero": DFloat(0), "fneg": DFloat(-0.25),
	"yes": DBool(true), "no": DBool(false), "none": DNil(), "empty": DStr(""), "space": DStr(" "), "s0": DStr("0"),
	"arr": DArr(*DInt(0)), "noarr": DArr(), "obj": DObj(map[string]*D{"k": DInt(0), "t": DBool(true), "f": DBool(false)}), "noobj": DObj(map[string]*D{}),
	"tiny": DFloat(5e-324), "big": DInt(-9223372036854775808), "nul": DStr("\x00"), "sfalse": DStr("false"),
}

var c02Conds = map[byte][]*E{
	'T': {
		Bool(true), Var("yes"), Int("1"), Var("neg"), Var("half"), Str("x"), Var("space"), Var("s0"), Arr(), Var("noarr"), Var("arr"),
		Var("obj"), Var("noobj"), Obj(nil), Obj([]string{"k"}, Nil()), Flt("0.1"), Un("-", Int("1")), Bin("<", Int("1"), Int("2")),
		Un("!", Var("no")), Un("!", Nil()), Tern(Var("no"), Var("no"), Var("one")), Dot(Var("obj"), "t"), Var("fneg"), Arr(Bool(false)),
		Call(Str("a"), "len"), Bin("+", Str(""), Str("0")), Str("false"), Var("tiny"), Var("big"), Var("nul"), Var("sfalse"), Post("++", Var("zero")),
		Flt("0.0000001"), Idx(Arr(Int("0"), Int("4")), Int("1")), Call(Arr(), "append", Int("1")),
	},
	'F': {
		Bool(false), Var("no"), Int("0"), Var("zero"), Flt("0.0"), Var("fzero"), Str(""), Var("empty"), Nil(), Var("none"),
		Un("!", Var("yes")), Bin(">", Int("1"), Int("2")), Un("-", Int("0")), Un("-", Flt("0.0")), Idx(Arr(), Int("0")), Dot(Var("obj"), "f"),
		Bin("-", Int("2"), Int("2")), Tern(Var("yes"), Nil(), Int("1")), Idx(Var("arr"), Int("7")), Bin("+", Str(""), Var("empty")), Post("--", Int("1")),
		Call(Str(""), "len"), Dot(Var("obj"), "k"), Call(Bool(false), "then", Int("1")), Call(Str(""), "first"), Idx(Var("obj"), Str("f")),
		Bin("*", Flt("0.5"), Flt("0.0")),
	},
	'E': {
		Var("undefinedName"), Bin("/", Int("1"), Int("0")), Bin("%", Int("1"), Var("zero")), Bin("+", Int("1"), Str("a")), Un("-", Bool(true)),
		Un("!", Int("0")), Dot(Int("1"), "k"), Dot(Var("obj"), "missing"), Call(Int("1"), "noFunc"), Idx(Int("1"), Int("0")), Bin("<", Str("a"), Str("b")),
		Un("!", Var("undefinedName")), Tern(Var("undefinedName"), Int("1"), Int("2")), Arr(Int("1"), Var("undefinedName")),
		Obj([]string{"k"}, Var("undefinedName")), Bin("==", Int("1"), Flt("1.0")),
	},
}

// c02Contexts place a construct somewhere.
var c02Contexts = []func(*S) []*S{
	func(s *S) []*S { return []*S{s} },
	func(s *S) []*S { return []*S{Text("<"), s, Text(">")} },
	func(s *S) []*S {
		return []*S{Text("["), Each("q", Arr(Int("1"), Int("2")), Text("("), s, Text(")")), Text("]")}
	},
	func(s *S) []*S {
		return []*S{If(Bool(true), Text("in"), s, Text("out")), Text("\n"), Print(Int("9"))}
	},
	func(s *S) []*S {
		return []*S{{K: "if", X: []*E{Bool(false)}, B: []*S{Text("no")}, Br: []Branch{{E: Bool(true), B: []*S{s}}}, HasElse: true, Else: []*S{Text("never")}}}
	},
	func(s *S) []*S {
		return []*S{{K: "if", X: []*E{Nil()}, HasElse: true, Else: []*S{s, Comment("c")}}, Text(" ")}
	},
	func(s *S) []*S {
		return []*S{{K: "for", Init: &Part{N: "i", E: Int("0")}, Cond: Bin("<", Var("i"), Int("2")), Post: &Part{E: Post("++", Var("i"))}, B: []*S{s}}, Text(".")}
	},
	func(s *S) []*S {
		return []*S{{K: "each", S: "q", X: []*E{Arr()}, B: []*S{Text("no")}, HasElse: true, Else: []*S{Text("e"), s}}}
	},
}

var c02Bodies = []func(i int) []*S{
	func(i int) []*S { return []*S{Text(string(rune('A' + i)))} },
	func(i int) []*S { return nil },
	func(i int) []*S { return []*S{Text("x"), Print(Int(string(rune('0' + i)))), Text("\ny")} },
	func(i int) []*S {
		return []*S{If(Var("yes"), Text(string(rune('a'+i)))), {K: "if", X: []*E{Var("no")}, B: []*S{Text("?")}, HasElse: true, Else: []*S{Text("!")}}}
	},
	func(i int) []*S { return []*S{Assign("v", Int("1")), Print(Var("v")), Comment(" @end ")} },
}

func vectors(alphabet string, n int, f func(string)) {
	if n == 0 {
		f("")
		return
	}
	vectors(alphabet, n-1, func(p string) {
		for _, c := range alphabet {
			f(p + string(c))
		}
	})
}

func c02Enum(th bool, yield func(func() *Case)) {
	max, rounds := 4, 8
	if th {
		max, rounds = 6, 12
	}
	turn := map[byte]int{}
	pick := func(k byte) *E {
		turn[k]++
		return c02Conds[k][turn[k]%len(c02Conds[k])]
	}
	for n := 1; n <= max; n++ {
		vectors("TFE", n, func(v string) {
			for _, els := range []bool{false, true} {
				for ci, ctx := range c02Contexts {
					for bi, body := range c02Bodies {
						for round := 0; round < rounds; round++ {
							s := If(pick(v[0]), body(0)...)
							for i := 1; i < n; i++ {
								s.Br = append(s.Br, Branch{E: pick(v[i]), B: body(i)})
							}
							if els {
								s.HasElse, s.Else = true, body(n)
							}
							yield(func() *Case {
								c := &Case{Prog: ctx(s), Data: c02Data}
								if (ci+bi+round)%3 == 2 {
									c.Layout = []byte{byte(ci), 4, byte(bi), 9}
								}
								return c
							})
						}
					}
				}
			}
		})
	}
	// every condition in every construct that has one
	for _, k := range []byte("TFE") {
		for _, e := range c02Conds[k] {
			for _, ctx := range c02Contexts {
				emit := func(s *S) { yield(func() *Case { return &Case{Prog: ctx(s), Data: c02Data} }) }
				emit(If(e, Text("T")))
				emit(&S{K: "if", X: []*E{e}, B: []*S{Text("T")}, HasElse: true, Else: []*S{Text("F")}})
				emit(&S{K: "if", X: []*E{Bool(false)}, B: []*S{Text("0")}, Br: []Branch{{E: e, B: []*S{Text("T")}}}, HasElse: true, Else: []*S{Text("F")}})
				emit(&S{K: "if", X: []*E{Bool(true)}, B: []*S{Text("0")}, Br: []Branch{{E: e, B: []*S{Text("T")}}}, HasElse: true, Else: []*S{Text("F")}})
				emit(Print(Tern(e, Str("T"), Str("F"))))
				emit(Print(Tern(e, Int("1"), Var("undefinedName"))))
				emit(Print(Tern(e, Var("undefinedName"), Int("2"))))
				emit(Print(Tern(Bool(true), Int("1"), e)))
				emit(Each("q", Arr(Int("1"), Int("2"), Int("3")), Text("a"), &S{K: "breakif", X: []*E{e}}, Text("b")))
				emit(Each("q", Arr(Int("1"), Int("2"), Int("3")), Text("a"), &S{K: "contif", X: []*E{e}}, Text("b")))
				loop := func(k string) *S {
					return &S{K: "for", Init: &Part{N: "i", E: Int("0")}, Cond: Bin("<", Var("i"), Int("3")), Post: &Part{E: Post("++", Var("i"))},
						B: []*S{Text("a"), If(Bool(true), &S{K: k, X: []*E{e}}, Text("-")), Text("b")}}
				}
				emit(loop("breakif"))
				emit(loop("contif"))
			}
		}
	}
}

// judgeTraced judges a case; it is not trivial when one of the classes is hit.
func judgeTraced(c *Case, min int, prefixes ...string) core.Verdict {
	in := &Interp{Trace: map[string]int{}}
	ref, d := judgeCase(c, in)
	hits := 0
	for _, p := range prefixes {
		hits += in.Trace[p]
	}
	return verdict(d, hits >= min && !ref.Unspec, class(ref))
}

func c02Judge(c *Case) core.Verdict {
	ref, d := judgeCase(c, &Interp{})
	return verdict(d, !ref.Unspec && (hasKind(c.Prog, "if", "breakif", "contif") || len(c.Prog) > 0), class(ref))
}

func blockGen(weights map[string]int, depth, size, budget int, prep func(*gen.G)) func(r *rapid.T) *Case {
	return func(r *rapid.T) *Case {
		g := gen.New(r)
		g.Wt = weights
		g.Faults = []int{0, 0, 0, 15, 60}[g.N(5)]
		if prep != nil {
			prep(g)
		}
		c := &Case{Data: g.Data()}
		g.Budget(budget)
		for len(c.Prog) < 2 {
			c.Prog = append(c.Prog, g.Block(depth, size)...)
			c.Prog = append(c.Prog, g.Stmt(depth)...)
		}
		c.Layout = g.Layout()
		return c
	}
}

func init() {
	register(&core.Prop{ID: "C02", Level: "exploration", Families: []core.Family{
		core.New(core.Fam[*Case]{
			Name:  "branches",
			Rule:  "exhaustive: 1-4 (thorough 5) conditions x every truthy/falsy/failing vector x with/without @else x 8 places x 5 bodies, condition values rotating over 78 literals, data values and failing expressions; every value in every construct with a condition; non-trivial: the template has a condition",
			Enum:  c02Enum,
			Judge: c02Judge,
		}),
		core.New(core.Fam[*Case]{
			Name: "random",
			Rule: "random nested @if/@elseif/@else with loops, assignments and faults; non-trivial: at least two branches were chosen",
			Gen:  blockGen(map[string]int{"if": 12, "text": 6}, 4, 5, 30, nil), Quick: 80000, Thorough: 2500000,
			Judge: func(c *Case) core.Verdict { return judgeTraced(c, 2, "if:then", "if:elseif", "if:else") },
		}),
	}, Assumptions: []string{"the reference evaluator in harness/lang"}})
}
