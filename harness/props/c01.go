package props

import (
	"math"
	"strconv"

	textwire "github.com/textwire/textwire/v2"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// Operand types of the enumeration, with three operand vectors each. The data
// holds values that cannot be confused with each other, or cause overflows.
var c01Vectors = map[string][][]*D{
	"i": {
		{DInt(7), DInt(3), DInt(2), DInt(5)},
		{DInt(math.MaxInt64), DInt(2), DInt(-1), DInt(math.MinInt64)},
		{DInt(5), DInt(0), DInt(1), DInt(5)},
		{DInt(math.MinInt64), DInt(-1), DInt(-7), DInt(3)},
	},
	"f": {
		{DFloat(7.5), DFloat(2.25), DFloat(0.5), DFloat(1.25)},
		{DFloat(0.1), DFloat(0.2), DFloat(0.3), DFloat(-3)},
		{DFloat(1e15), DFloat(3), DFloat(-0.7), DFloat(0.1)},
	},
	"s": {
		{DStr("ab"), DStr("b"), DStr("ab"), DStr("")},
		{DStr("é"), DStr("é"), DStr(""), DStr("éé")},
	},
}

var c01Names = []string{"a", "b", "c", "d"}

// literal makes the literal of the value, nil when it has none.
func literal(d *D) *E {
	switch d.K {
	case "int":
		if d.I == math.MinInt64 {
			return nil
		}
		if d.I < 0 {
			return Un("-", Int(strconv.FormatInt(-d.I, 10)))
		}
		return Int(strconv.FormatInt(d.I, 10))
	case "float":
		s, _ := FloatText(math.Abs(d.F))
		e := Flt(s)
		if d.F < 0 {
			return Un("-", e)
		}
		return e
	case "str":
		return Str(string(d.S))
	}
	return nil
}

// treesOf calls f with all binary trees over the operators, leaves in order.
func treesOf(ops []string, leaves []*E, f func(*E)) {
	if len(ops) == 0 {
		f(leaves[0])
		return
	}
	for i := range ops {
		treesOf(ops[:i], leaves[:i+1], func(l *E) {
			treesOf(ops[i+1:], leaves[i+1:], func(r *E) {
				f(Bin(ops[i], l, r))
			})
		})
	}
}

// unaries are the shapes an operand can have.
var c01Wraps = []func(*E) *E{
	func(e *E) *E { return e },
	func(e *E) *E { return Un("-", e) },
	func(e *E) *E { return Post("++", e) },
	func(e *E) *E { return Un("-", Post("--", e)) },
	func(e *E) *E { return Idx(Arr(e), Int("0")) },
	func(e *E) *E { return Un("-", Idx(Arr(e, Int("1")), Int("0"))) },
	func(e *E) *E { return Dot(Obj([]string{"k"}, e), "k") },
	func(e *E) *E { return Un("-", Dot(Obj([]string{"k"}, e), "k")) },
	func(e *E) *E { return Dot(Un("-", e), "abs") },
	func(e *E) *E { return Call(Un("-", e), "abs") },
	func(e *E) *E { return Un("-", Call(e, "abs")) },
	func(e *E) *E { return Post("++", Idx(Arr(e), Int("0"))) },
	func(e *E) *E { return Idx(Arr(Int("1"), e), Post("++", Int("0"))) },
	func(e *E) *E { return Post("++", Post("++", e)) },
	func(e *E) *E { return Un("-", Un("-", e)) },
	func(e *E) *E { return Un("!", Un("!", e)) },
}

func c01Data(vec []*D) Data {
	d := Data{}
	for i, v := range vec {
		d[c01Names[i]] = v
	}
	return d
}

func c01Vars(n int) []*E {
	var out []*E
	for i := 0; i < n; i++ {
		out = append(out, Var(c01Names[i]))
	}
	return out
}

var c01Layouts = [][]byte{nil, {0}, {4, 5, 4, 4, 5}, {9, 14, 3, 6, 15, 7}}

func c01Enum(th bool, yield func(func() *Case)) {
	layouts := c01Layouts[:2]
	if th {
		layouts = c01Layouts
	}
	emit := func(e *E, d Data, assign bool) {
		for _, l := range layouts {
			yield(func() *Case {
				if assign {
					return &Case{Prog: []*S{{K: "code", P: []Part{{N: "x", E: e}, {E: Var("x")}}}}, Data: d, Layout: l}
				}
				return &Case{Prog: []*S{Print(e)}, Data: d, Layout: l}
			})
		}
	}
	for _, typ := range []string{"i", "f", "s"} {
		for vi, vec := range c01Vectors[typ] {
			d := c01Data(vec)
			ternCond := Tern
			for _, o1 := range Ops {
				emit(Bin(o1, Var("a"), Var("b")), d, false)
				emit(Bin(o1, Var("a"), Var("b")), d, true)
				if l, r := literal(vec[0]), literal(vec[1]); l != nil && r != nil {
					emit(Bin(o1, l, r), nil, false)
				}
				// operands of every shape
				if typ != "s" {
					for _, w := range c01Wraps {
						emit(Bin(o1, w(Var("a")), Var("b")), d, false)
						emit(Bin(o1, Var("a"), w(Var("b"))), d, false)
						emit(w(Bin(o1, Var("a"), Var("b"))), d, false)
					}
				}
				for _, o2 := range Ops {
					treesOf([]string{o1, o2}, c01Vars(3), func(e *E) {
						emit(e, d, false)
						emit(e, d, true)
						if vi == 0 {
							emit(Tern(e, Var("a"), Var("b")), d, false)
							emit(Tern(Bool(true), e, Var("b")), d, false)
							emit(Tern(Bool(false), Var("a"), e), d, false)
							emit(Idx(Arr(Var("a"), Var("b"), e), Int("2")), d, false)
							emit(Dot(Obj([]string{"k"}, e), "k"), d, false)
							emit(Call(Arr(Int("1")), "append", e), d, false)
							emit(Un("-", e), d, false)
							emit(Post("++", e), d, false)
							emit(ternCond(ternCond(e, Bool(true), Bool(false)), Int("1"), Int("2")), d, false)
						}
					})
					if o1 < o2 && vi > 0 && !th {
						continue
					}
					for _, o3 := range Ops {
						treesOf([]string{o1, o2, o3}, c01Vars(4), func(e *E) {
							if typ != "s" || o1 == "+" || o2 == "+" || o3 == "+" {
								emit(e, d, false)
							}
						})
					}
				}
			}
		}
	}
	// ternaries inside ternaries and next to every operator
	a, b, c := Var("a"), Var("b"), Var("c")
	d := c01Data(c01Vectors["i"][0])
	for _, x := range []*E{Bool(true), Bool(false)} {
		for _, y := range []*E{Bool(true), Bool(false)} {
			emit(Tern(x, Tern(y, a, b), c), d, false)
			emit(Tern(x, a, Tern(y, b, c)), d, false)
			emit(Tern(Tern(x, y, Bool(true)), a, b), d, false)
			for _, op := range Ops {
				emit(Bin(op, a, Tern(x, b, c)), d, false)
				emit(Bin(op, Tern(x, a, b), c), d, false)
				emit(Tern(x, Bin(op, a, b), Tern(y, Bin(op, b, c), a)), d, false)
				emit(Tern(Bin(op, a, b), Tern(y, a, b), Tern(x, b, c)), d, false)
			}
		}
	}
	// mixed operand types
	mixed := []*E{Int("1"), Flt("1.5"), Str("x"), Bool(true), Nil(), Arr(Int("1")), Obj([]string{"k"}, Int("1"))}
	for _, op := range Ops {
		for x, l := range mixed {
			for y, r := range mixed {
				if x != y {
					emit(Bin(op, l, r), nil, false)
					emit(Bin(op, Bin("+", Int("1"), Int("2")), Bin(op, l, r)), nil, false)
				}
			}
		}
	}
	// literals at the edges of the integer range
	for _, s := range []string{"9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999", "0", "00", "007"} {
		emit(Int(s), nil, false)
		emit(Un("-", Int(s)), nil, false)
		emit(Bin("+", Int(s), Int("1")), nil, false)
		emit(Post("++", Int(s)), nil, false)
		emit(Bin("==", Int(s), Int(s)), nil, true)
	}
}

func c01Judge(c *Case) core.Verdict {
	ref, d := judgeCase(c, &Interp{})
	if d == "" && !ref.Unspec && len(c.Layout) > 0 {
		// the layout changes nothing, not even in the error
		src := PrintB(c.Prog, nil)
		out, err := textwire.EvaluateString(src, c.Data.Native())
		d = diff(src, ref, out, err)
	}
	ops := 0
	Walk(c.Prog, nil, func(e *E) {
		switch e.K {
		case "bin", "tern", "un", "post", "dot", "idx", "call":
			ops++
		}
	})
	return verdict(d, ops >= 2 && !ref.Unspec, class(ref))
}

func c01Gen(r *rapid.T) *Case {
	g := gen.New(r)
	g.Wild = true
	g.Faults = []int{0, 0, 20, 100}[g.N(4)]
	c := &Case{Data: g.Data()}
	n := 1 + g.N(2)
	for i := 0; i < n; i++ {
		t := g.Type(1)
		e := g.Expr(t, 2+g.N(4))
		if g.N(3) == 2 {
			name := rapid.SampledFrom([]string{"x1", "y1"}).Draw(r, "name")
			c.Prog = append(c.Prog, Assign(name+strconv.Itoa(i), e), Print(Var(name+strconv.Itoa(i))))
		} else {
			c.Prog = append(c.Prog, Print(e))
		}
	}
	c.Layout = g.Layout()
	return c
}

// long chains of one operator
type c01Chain struct {
	Op    string `json:"op"`
	N     int    `json:"n"`
	Right bool   `json:"right"`
}

func c01ChainJudge(c c01Chain) core.Verdict {
	e := Int("1")
	for i := 0; i < c.N; i++ {
		l := Int(strconv.Itoa(i%7 + 1))
		if c.Right {
			e = Bin(c.Op, l, e)
		} else {
			e = Bin(c.Op, e, l)
		}
	}
	_, d := judgeCase(&Case{Prog: []*S{Print(e)}}, &Interp{})
	return verdict(d, true, "chain")
}

func init() {
	register(&core.Prop{ID: "C01", Level: "exploration", Families: []core.Family{
		core.New(core.Fam[*Case]{
			Name:  "operators",
			Rule:  "exhaustive: every pair and triple of binary operators in every tree shape over 2-4 operand vectors per type, operand shapes, ternaries, mixed types, edge literals, in 2 (thorough 4) layouts, printed with minimal parentheses; non-trivial: at least two operators and a defined result",
			Enum:  c01Enum,
			Judge: c01Judge,
		}),
		core.New(core.Fam[c01Chain]{
			Name: "chains",
			Rule: "long chains of one operator, grouped left or (parenthesised) right",
			Enum: func(th bool, yield func(func() c01Chain)) {
				for _, op := range []string{"+", "-", "*"} {
					for _, n := range []int{5, 50, 500} {
						yield(func() c01Chain { return c01Chain{op, n, false} })
						yield(func() c01Chain { return c01Chain{op, n, true} })
					}
				}
			},
			Judge: c01ChainJudge,
		}),
		core.New(core.Fam[*Case]{
			Name: "random",
			Rule: "random typed expressions to depth 5 with functions, indexing, properties, postfix, ternaries, faults, edge literals and data, random layouts and assignments; non-trivial: at least two operators and a defined result",
			Gen:  c01Gen, Quick: 300000, Thorough: 8000000,
			Judge: c01Judge,
		}),
		escapedFam(nil, &textCase{Src: `{{ s == "<" }}`, Data: Data{"s": DStr("<")}, Want: "1"}),
	}, Assumptions: []string{
		"string literals with & < > are left to C10 (they are HTML-escaped where they are written)",
		"equality of booleans, nil, arrays and objects is not defined by the statement: any result is accepted",
		"results that are NaN, infinite or at least 2^62 are not compared",
	}})
}
