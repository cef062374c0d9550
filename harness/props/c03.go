package props

import (
	"fmt"
	"strconv"

	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

func itoa(i int) string { return strconv.Itoa(i) }

// c03Ctl are control directives that act at one pass, c the condition.
func c03Ctl(c *E) []*S {
	return []*S{
		nil,
		{K: "breakif", X: []*E{c}},
		{K: "contif", X: []*E{c}},
		If(c, &S{K: "break"}),
		If(c, &S{K: "cont"}),
		{K: "break"},
		{K: "cont"},
	}
}

// c03Nest puts a statement under other constructs.
var c03Nest = []func(*S) *S{
	func(s *S) *S { return s },
	func(s *S) *S { return If(Bool(true), Text("i"), s, Text("Ij")) },
	func(s *S) *S {
		return &S{K: "if", X: []*E{Bool(false)}, B: []*S{Text("x")}, Br: []Branch{{E: Bool(false), B: []*S{Text("y")}}, {E: Bool(true), B: []*S{Text("k"), s, Text("Il")}}}}
	},
	func(s *S) *S {
		return &S{K: "if", X: []*E{Bool(false)}, B: []*S{Text("x")}, HasElse: true, Else: []*S{Text("im"), s, Text("In")}}
	},
	func(s *S) *S { return If(Bool(true), If(Int("1"), Text("p"), s, Text("Iq")), Text("r")) },
	// in the @else body of a loop it acts on the loop around
	func(s *S) *S {
		return &S{K: "each", S: "z", X: []*E{Arr()}, B: []*S{Text("x")}, HasElse: true, Else: []*S{Text("iu"), s, Text("Iw")}}
	},
	func(s *S) *S {
		return &S{K: "for", Init: &Part{N: "z", E: Int("0")}, Cond: Bin("<", Var("z"), Int("0")), Post: &Part{E: Post("++", Var("z"))}, B: []*S{Text("x")}, HasElse: true, Else: []*S{Text("iu"), s, Text("Iw")}}
	},
	func(s *S) *S {
		return &S{K: "each", S: "z", X: []*E{Arr()}, HasElse: true, Else: []*S{If(Bool(true), s, Text("Iv")), Text("w")}}
	},
}

var c03Meta = Print(Arr(Dot(Var("loop"), "index"), Dot(Var("loop"), "iter"), Dot(Var("loop"), "first"), Dot(Var("loop"), "last")))

func c03Elems(n int) map[string]*E {
	out := map[string]*E{"int": Arr(), "str": Arr(), "float": Arr(), "bool": Arr(), "nil": Arr(), "arr": Arr(), "obj": Arr()}
	for i := 0; i < n; i++ {
		out["int"].A = append(out["int"].A, Int(itoa(3*i+1)))
		out["str"].A = append(out["str"].A, Str(fmt.Sprintf("s%d", i)))
		out["float"].A = append(out["float"].A, Flt(fmt.Sprintf("%d.5", i)))
		out["bool"].A = append(out["bool"].A, Bool(i%2 == 0))
		out["nil"].A = append(out["nil"].A, Nil())
		out["arr"].A = append(out["arr"].A, Arr(Int(itoa(i)), Int("0")))
		out["obj"].A = append(out["obj"].A, Obj([]string{"k"}, Int(itoa(i))))
	}
	return out
}

// nativeOf turns a literal into data.
func nativeOf(e *E) *D {
	switch e.K {
	case "int":
		i, _ := strconv.ParseInt(e.S, 10, 64)
		return DInt(i)
	case "float":
		f, _ := strconv.ParseFloat(e.S, 64)
		return DFloat(f)
	case "str":
		return DStr(e.S)
	case "true", "false":
		return DBool(e.K == "true")
	case "arr":
		d := DArr()
		for _, x := range e.A {
			d.A = append(d.A, *nativeOf(x))
		}
		return d
	case "obj":
		d := DObj(map[string]*D{})
		for i, x := range e.A {
			d.O[e.N[i]] = nativeOf(x)
		}
		return d
	}
	return DNil()
}

func forStmt(name string, from int, op string, to int, post *Part, body ...*S) *S {
	return &S{K: "for", Init: &Part{N: name, E: Int(itoa(from))}, Cond: Bin(op, Var(name), Int(itoa(to))), Post: post, B: body}
}

func inc(name string) *Part { return &Part{E: Post("++", Var(name))} }

func c03Enum(th bool, yield func(func() *Case)) {
	max := 5
	if th {
		max = 9
	}
	emit := func(d Data, prog ...*S) {
		yield(func() *Case { return &Case{Prog: prog, Data: d} })
	}
	els := func(s *S) *S {
		c := *s
		c.HasElse, c.Else = true, []*S{Text("E"), Print(Int("0"))}
		return &c
	}
	// lengths and element types, literal and data
	for n := 0; n <= 3*max; n++ {
		elems := c03Elems(n)
		for _, k := range []string{"int", "str", "float", "bool", "nil", "arr", "obj"} {
			body := []*S{Print(Var("v")), Text(":"), c03Meta, Text(";")}
			if k == "obj" {
				body[0] = Print(Dot(Var("v"), "k"))
			}
			for _, src := range []*E{elems[k], Var("list")} {
				s := Each("v", src, body...)
				d := Data{"list": nativeOf(elems[k])}
				emit(d, Text("<"), s, Text(">"))
				emit(d, Text("<"), els(s), Text(">"))
				emit(d, s, s)
			}
		}
	}
	// @for bounds, directions and absent clauses
	for from := -2; from <= max; from++ {
		for to := -1; to <= max; to++ {
			for _, op := range []string{"<", "<=", ">", ">=", "!=", "=="} {
				posts := []*Part{{E: Post("++", Var("i"))}, {E: Post("--", Var("i"))}, {N: "i", E: Bin("+", Var("i"), Int("2"))}, {N: "i", E: Bin("-", Var("i"), Int("3"))}, {E: Bin("+", Var("i"), Int("1"))}, nil}
				for pi, post := range posts {
					if post == nil && pi < 5 {
						continue
					}
					s := forStmt("i", from, op, to, post, Print(Var("i")), Text(","), &S{K: "breakif", X: []*E{Bin("==", Var("i"), Int(itoa(max)))}}, Text("+"))
					if from < 0 {
						s.Init.E = Un("-", Int(itoa(-from)))
					}
					if to < 0 {
						s.Cond = Bin(op, Var("i"), Un("-", Int("1")))
					}
					emit(nil, Text("["), s, Text("]"))
					emit(nil, els(s), Text("]"))
				}
			}
		}
	}
	// the loop without some of its clauses
	for bits := 0; bits < 8; bits++ {
		for _, brk := range []int{0, 1, 3} {
			s := forStmt("i", 0, "<", 4, inc("i"), Print(Var("i")), &S{K: "breakif", X: []*E{Bin("==", Var("i"), Int(itoa(brk)))}}, Text(","))
			if bits&1 != 0 {
				s.Init = nil
			}
			if bits&2 != 0 {
				s.Cond = nil
			}
			if bits&4 != 0 {
				s.Post = nil
			}
			emit(Data{"i": DInt(0)}, s, Text("|"), Print(Var("i")))
			emit(Data{"i": DInt(2)}, Text("|"), els(s), Print(Var("i")))
			emit(nil, s)
		}
	}
	// every position of every control directive
	mk := func(kind, name string, n int, body []*S) *S {
		if kind == "each" {
			return Each(name, c03Elems(n)["int"], body...)
		}
		return forStmt(name, 0, "<", n, inc(name), body...)
	}
	at := func(kind, name string, k int) *E {
		if kind == "each" {
			return Bin("==", Dot(Var("loop"), "index"), Int(itoa(k)))
		}
		return Bin("==", Var(name), Int(itoa(k)))
	}
	for _, kind := range []string{"each", "for"} {
		for n := 0; n <= max; n++ {
			for k := 0; k <= n; k++ {
				for _, ctl := range c03Ctl(at(kind, "v", k)) {
					if ctl == nil {
						continue
					}
					for _, nest := range c03Nest {
						for pos := 0; pos < 3; pos++ {
							body := []*S{Text("a"), Print(Var("v")), Text("b")}
							body = append(body[:pos], append([]*S{nest(ctl)}, body[pos:]...)...)
							s := mk(kind, "v", n, body)
							if (n+k+pos)%2 == 0 {
								s = els(s)
							}
							emit(nil, Text("<"), s, Text(">"))
						}
					}
				}
			}
		}
	}
	// nested loops, each with its own control directive and loop object
	lens := 3
	if th {
		lens = 4
	}
	for _, k1 := range []string{"each", "for"} {
		for _, k2 := range []string{"each", "for"} {
			for n1 := 1; n1 <= lens; n1++ {
				for n2 := 0; n2 <= lens; n2++ {
					for at1 := 0; at1 < n1; at1++ {
						for at2 := 0; at2 <= n2; at2++ {
							for i1, ctl1 := range c03Ctl(at(k1, "v", at1)) {
								for i2, ctl2 := range c03Ctl(at(k2, "w", at2)) {
									if !th && (i1 > 4 && i2 > 4) {
										continue
									}
									meta := func(kind, name string) *S {
										if kind == "each" {
											return c03Meta
										}
										return Print(Var(name))
									}
									inner := []*S{Text("("), meta(k2, "w")}
									if ctl2 != nil {
										inner = append(inner, c03Nest[(at1+at2+i2)%5](ctl2))
									}
									inner = append(inner, Text(")"))
									in := mk(k2, "w", n2, inner)
									if (at1+i1)%2 == 0 {
										in = els(in)
									}
									outer := []*S{Text("["), meta(k1, "v"), in, Text("|"), meta(k1, "v")}
									if ctl1 != nil {
										outer = append(outer, c03Nest[(at1+at2+i1)%8](ctl1))
									}
									outer = append(outer, Text("]"))
									emit(nil, mk(k1, "v", n1, outer), Text("."))
								}
							}
						}
					}
				}
			}
		}
	}
	// the loop object of the outer loop comes back, siblings do not disturb
	for n1 := 1; n1 <= 3; n1++ {
		for n2 := 0; n2 <= 3; n2++ {
			for n3 := 0; n3 <= 3; n3++ {
				emit(nil, Each("a", c03Elems(n1)["int"], c03Meta, Each("b", c03Elems(n2)["str"], c03Meta, Each("c", c03Elems(n3)["float"], c03Meta, Print(Var("a")), Print(Var("b")), Print(Var("c"))), Text("-"), c03Meta), Text("="), c03Meta, Each("b", c03Elems(n3)["str"], c03Meta), c03Meta))
			}
		}
	}
	// iterating something else
	for _, e := range []*E{Int("1"), Str("abc"), Bool(true), Nil(), Obj([]string{"k"}, Int("1")), Flt("1.0"), Obj(nil)} {
		emit(nil, Text("x"), Each("v", e, Text("y")))
		emit(nil, Text("x"), els(Each("v", e, Text("y"))))
		emit(Data{"d": nativeOf(e)}, Each("v", Var("d"), Text("y")))
		emit(nil, Each("u", Arr(Int("1")), Each("v", e, Text("y"))))
	}
	// elements that do not keep the type
	emit(nil, Each("v", Arr(Int("1"), Str("a")), Print(Var("v"))))
	emit(nil, Each("v", Arr(Int("1"), Int("2"), Nil()), Print(Var("v"))))
}

// c03Kept are programs that keep values of one pass for later passes.
func c03Kept(_ bool, yield func(func() *Case)) {
	emit := func(d Data, prog ...*S) {
		yield(func() *Case { return &Case{Prog: prog, Data: d} })
	}
	loop := Var("loop")
	// which pass's value is kept
	conds := []*E{Dot(loop, "first"), Bin("==", Dot(loop, "index"), Int("0")), Bin("<", Dot(loop, "iter"), Int("3")), Bin("==", Bin("%", Dot(loop, "index"), Int("2")), Int("0"))}
	for n := 1; n <= 5; n++ {
		for _, kind := range []string{"int", "str", "float", "arr", "obj", "bool"} {
			for _, src := range []*E{c03Elems(n)[kind], Var("list")} {
				d := Data{"list": nativeOf(c03Elems(n)[kind])}
				what := []*E{loop, Var("v"), Arr(loop), Obj([]string{"l"}, loop), Arr(Var("v")), Obj([]string{"e"}, Var("v")), Dot(loop, "index"), Dot(loop, "iter"), Arr(Arr(loop, loop))}
				for _, c := range conds {
					for _, w := range what {
						keep := Assign("p", Tern(c, w, Var("p")))
						show := []*S{Print(Var("p")), Text(":")}
						if w == loop {
							show = []*S{Print(Dot(Var("p"), "index")), Text(","), Print(Dot(Var("p"), "last")), Text(":"), Print(Var("p"))}
						}
						body := append([]*S{keep}, append(show, c03Meta, Text(";"))...)
						emit(d, Each("v", src, body...))
						// read before it is kept
						body = append([]*S{If(Un("!", Dot(loop, "first")), show...)}, keep)
						emit(d, Each("v", src, body...))
						// in the @else of a directive, nested, and in a @for
						emit(d, Each("v", src, keep, Each("u", Arr(Int("1"), Int("2")), append(show, c03Meta)...), Text("/"), c03Meta, Print(Var("p"))))
					}
					// collected
					for _, w := range what[:4] {
						emit(d, Each("v", src, Assign("p", Tern(Dot(loop, "first"), Arr(w), Call(Var("p"), "append", w))), Print(Var("p")), Text(";")))
						emit(d, Each("v", src, Assign("p", Tern(Dot(loop, "first"), Arr(w), Call(Var("p"), "prepend", w))), If(Dot(loop, "last"), Print(Var("p")))))
					}
				}
				// the object of the outer loop, kept in the inner ones
				for m := 1; m <= 3; m++ {
					in := Each("u", c03Elems(m)["int"], Assign("i", Tern(Dot(loop, "first"), loop, Var("i"))), Print(Arr(Dot(Var("o"), "index"), Dot(loop, "index"), Dot(Var("i"), "index"), Dot(Var("i"), "last"), Dot(Var("f"), "iter"))), Text(","))
					emit(d, Each("v", src, Assign("o", loop), Assign("f", Tern(Dot(loop, "first"), loop, Var("f"))), in, Print(Dot(Var("o"), "index")), c03Meta, Text(";")))
				}
				// a @for inside keeps the object of the loop around it
				emit(d, Each("v", src, forStmt("j", 0, "<", 3, inc("j"), Assign("q", Tern(Bin("==", Var("j"), Int("0")), Arr(loop, Var("j")), Var("q"))), Print(Var("q")), c03Meta, Text(","))))
			}
		}
		// variables of a @for
		for _, w := range []*E{Var("j"), Arr(Var("j")), Obj([]string{"j"}, Var("j")), Bin("*", Var("j"), Int("2"))} {
			emit(nil, forStmt("j", 0, "<", n, inc("j"), Assign("p", Tern(Bin("==", Var("j"), Int("0")), w, Var("p"))), Print(Var("p")), Text(","), Print(Var("j")), Text(";")))
			emit(nil, forStmt("j", 0, "<", n, inc("j"), Assign("p", Tern(Bin("==", Var("j"), Int("0")), Arr(w), Call(Var("p"), "append", w))), Print(Var("p")), Text(";")))
			emit(nil, forStmt("j", 0, "<", n, inc("j"), Assign("p", Tern(Bin("==", Var("j"), Int("0")), w, Var("p"))), forStmt("k", 0, "<", 2, inc("k"), Assign("p", w), Print(Var("p"))), Print(Var("p")), Text(";")))
		}
	}
	// a sum, a product, a count, a maximum, a list over all passes
	for n := 0; n <= 8; n++ {
		for _, init := range []bool{false, true} {
			for i, step := range []*E{Bin("+", Var("s"), Var("v")), Bin("*", Var("s"), Int("2")), Bin("+", Var("s"), Int("1")), Tern(Bin(">", Var("v"), Var("s")), Var("v"), Var("s")), Bin("-", Var("v"), Var("s"))} {
				first := []*E{Var("v"), Int("1"), Int("1"), Var("v"), Var("v")}[i]
				var prog []*S
				if init {
					prog = append(prog, Assign("s", Int("7")))
					prog = append(prog, Each("v", c03Elems(n)["int"], Assign("s", step), Print(Var("s")), Text(",")), Text("="), Print(Var("s")))
				} else {
					prog = append(prog, Each("v", c03Elems(n)["int"], Assign("s", Tern(Dot(loop, "first"), first, step)), Print(Var("s")), Text(",")))
				}
				emit(nil, prog...)
			}
		}
	}
}

// c03Size is a long loop, a deep nest or a long row of loops.
type c03Size struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	At   int    `json:"at"` // the pass that is looked at
	V    int    `json:"v,omitempty"`
}

func (c *c03Size) prog() *Case {
	n, at := Int(itoa(c.N)), Int(itoa(c.At))
	show := func(e *E) *S {
		// the passes around the one that is looked at
		return If(Bin("==", e, at), Print(e), c03Meta, Text(";"))
	}
	ctl := func(e *E) *S {
		is := Bin("==", e, at)
		return []*S{{K: "breakif", X: []*E{is}}, {K: "contif", X: []*E{is}}, If(is, Text("b"), &S{K: "break"}), If(is, Text("c"), &S{K: "cont"}), Text("")}[c.V%5]
	}
	index := Dot(Var("loop"), "index")
	list := func() *D {
		d := DArr()
		for i := 0; i < c.N; i++ {
			d.A = append(d.A, *DInt(int64(i)))
		}
		return d
	}
	lit := func() *E {
		e := Arr()
		for i := 0; i < c.N; i++ {
			e.A = append(e.A, Int(itoa(i)))
		}
		return e
	}
	short := If(Bin(">=", Var("i"), Bin("-", n, Int("2"))), Print(Var("i")), Text(","))
	switch c.Kind {
	case "for":
		return &Case{Prog: []*S{Text("<"), forStmt("i", 0, "<", c.N, inc("i"), If(Bin("==", Var("i"), at), Text("at")), ctl(Var("i")), short), Text(">")}}
	case "count":
		return &Case{Prog: []*S{Assign("s", Int("0")), forStmt("i", 0, "<", c.N, inc("i"), ctl(Var("i")), If(Bool(true), Text("x")), short), Text(">")}}
	case "down":
		f := forStmt("i", c.N, ">", 0, &Part{E: Post("--", Var("i"))}, ctl(Var("i")), If(Bin("<", Var("i"), Int("3")), Print(Var("i"))))
		return &Case{Prog: []*S{f}}
	case "each":
		return &Case{Prog: []*S{Each("i", Var("list"), show(index), ctl(index), short), Text(">")}, Data: Data{"list": list()}}
	case "sum":
		return &Case{Prog: []*S{Each("i", Var("list"), Assign("s", Tern(Dot(Var("loop"), "first"), Int("0"), Bin("+", Var("s"), Var("i")))), show(index), ctl(index), If(Dot(Var("loop"), "last"), Print(Var("s")))), Text(">")}, Data: Data{"list": list()}}
	case "literal":
		return &Case{Prog: []*S{Each("i", lit(), show(index), ctl(index), short), Text(">")}}
	case "nested": // N times At passes
		return &Case{Prog: []*S{Each("a", lit(), Text("("), forStmt("i", 0, "<", c.At, inc("i"), &S{K: "contif", X: []*E{Bin("!=", Bin("%", Var("i"), Int("50")), Int(itoa(c.V)))}}, Print(Var("i")), Text(",")), Text(")"), If(Dot(Var("loop"), "last"), c03Meta))}}
	case "deep": // N loops in each other, a control directive in loop At
		var b []*S
		for i := c.N; i > 0; i-- {
			name := "a" + itoa(i)
			b = append([]*S{Print(Var(name)), c03Meta}, b...)
			if i == c.At {
				b = append(b, []*S{{K: "break"}, {K: "cont"}, If(Bool(true), &S{K: "break"}), Text("x"), {K: "breakif", X: []*E{Bool(true)}}}[c.V%5], Text("y"))
			}
			b = append(b, Text("|"), c03Meta)
			if (i+c.V)%3 == 0 {
				b = []*S{If(Bool(true), b...)}
			}
			el := Arr(Int(itoa(i)))
			if i%16 == 7 || i == c.At {
				el = Arr(Int(itoa(i)), Int("0"))
			}
			b = []*S{Each(name, el, b...)}
		}
		return &Case{Prog: b}
	case "row": // N loops one after the other
		var b []*S
		for i := 0; i < c.N; i++ {
			if (i+c.V)%2 == 0 {
				b = append(b, Each("a", Arr(Int("1"), Int("2")), c03Meta, Print(Var("a"))))
			} else {
				b = append(b, forStmt("a", i, "<", i+2, inc("a"), Print(Var("a"))))
			}
		}
		return &Case{Prog: b}
	case "body": // N statements in the body
		var b []*S
		for i := 0; i < c.N; i++ {
			if i == c.At {
				b = append(b, ctl(index))
			}
			b = append(b, Print(Bin("+", Var("v"), Int(itoa(i)))), Text(","))
		}
		return &Case{Prog: []*S{Each("v", Arr(Int("1"), Int("2"), Int("3")), append(b, c03Meta)...)}}
	}
	panic(c.Kind)
}

func judgeSize03(c *c03Size) core.Verdict {
	k := c.prog()
	ref, d := judgeCase(k, &Interp{Steps: 1 << 20})
	return verdict(d, !ref.Unspec, c.Kind+" "+class(ref))
}

func c03Sizes(th bool, yield func(func() *c03Size)) {
	top := 70000
	if th {
		top = 300000
	}
	for _, kind := range []string{"for", "count", "down", "each", "sum", "literal"} {
		for i, n := range sizes(16, top) {
			if n > 3000 && !th && i%3 != 0 {
				continue
			}
			for j, at := range []int{n - 1, n / 2, 0, n, 1 << 8, 1 << 16, 1000, 1<<12 - 1} {
				if at > n || n > 1000 && !th && (i+j)%4 != 0 {
					continue
				}
				yield(func() *c03Size { return &c03Size{Kind: kind, N: n, At: at, V: (i + j) % 5} })
			}
		}
	}
	for i, n := range []int{1, 2, 15, 16, 17, 100, 255, 256, 257, 300} {
		for _, at := range []int{1, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200} {
			yield(func() *c03Size { return &c03Size{Kind: "nested", N: n, At: at, V: i} })
		}
	}
	for n := 3; n <= 70; n++ {
		for at := 1; at <= n; at += 1 + n/6 {
			for v := 0; v < 5; v++ {
				yield(func() *c03Size { return &c03Size{Kind: "deep", N: n, At: at, V: v} })
			}
		}
	}
	for i, n := range sizes(16, 4200) {
		yield(func() *c03Size { return &c03Size{Kind: "row", N: n, V: i} })
		for _, at := range []int{0, n / 2, n - 1} {
			yield(func() *c03Size { return &c03Size{Kind: "body", N: n, At: at, V: i} })
		}
	}
}

func init() {
	register(&core.Prop{ID: "C03", Level: "exploration", Families: []core.Family{
		core.New(core.Fam[*Case]{
			Name: "loops",
			Rule: "exhaustive: array lengths 0-15 (27) x element types x literal/data; @for bounds -2..5 (9) x 6 comparisons x 6 steps; every subset of the clauses; break/continue/breakIf/continueIf at every pass and position under 8 nestings; two nested loops with a control directive each; loop objects over three levels; non-arrays; non-trivial: the reference defines the result",
			Enum: c03Enum,
			Judge: func(c *Case) core.Verdict {
				ref, d := judgeCase(c, &Interp{})
				return verdict(d, !ref.Unspec, class(ref))
			},
		}),
		core.New(core.Fam[*Case]{
			Name: "kept",
			Rule: "loops of 1-5 passes that keep the loop object, the element or lists and objects of them from the first or from some passes in a variable and read it in later passes, in nested loops and after them; sums and lists over all passes; non-trivial: the reference defines the result",
			Enum: c03Kept,
			Judge: func(c *Case) core.Verdict {
				ref, d := judgeCase(c, &Interp{})
				return verdict(d, !ref.Unspec, class(ref))
			},
		}),
		core.New(core.Fam[*c03Size]{
			Name: "sizes",
			Rule: "loops of 16 to 70000 (thorough 300000) passes, around powers of two and ten, over data, literals and counters, up and down, with a control directive at the first, last, a middle or a round pass; up to 300 x 200 nested passes; up to 70 nested loops with a directive at every sixth level; rows of up to 4200 loops; bodies of up to 4200 statements; non-trivial: the reference defines the result",
			Enum: c03Sizes, Judge: judgeSize03,
		}),
		core.New(core.Fam[*Case]{
			Name: "random",
			Rule: "random nested loops with control directives, conditions, assignments, data arrays; non-trivial: at least two passes ran",
			Gen: blockGen(map[string]int{"each": 10, "for": 7, "if": 5, "ctl": 7, "loopvar": 5, "keep": 3}, 4, 5, 30, func(g *gen.G) {
			}), Quick: 200000, Thorough: 4000000,
			Judge: func(c *Case) core.Verdict { return judgeTraced(c, 2, "each:pass", "for:pass") },
		}),
	}, Assumptions: []string{"a random program that runs more than 20000 passes in the reference is not compared"}})
}
