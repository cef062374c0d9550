package props

import (
	"fmt"
	"reflect"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"verif/harness/core"
	. "verif/harness/lang"
)

// This file puts every form of expression in every place of a template.

// useData are sets of data: 0 to 3 work, 4 lacks some names and in 5 some
// have another type.
func useData(i int) Data {
	n := []int64{2, 0, 1, 3}[i%4]
	f := []float64{7.5, 0, -2.25, 40.25}[i%4]
	s := []string{"two", "", "x", "dé"}[i%4]
	list := *DArr()
	words := *DArr()
	objs := *DArr()
	for j := int64(0); j < n; j++ {
		list.A = append(list.A, *DInt(10 * (n - j)))
		words.A = append(words.A, *DStr(fmt.Sprintf("%s%d", s, j)))
		objs.A = append(objs.A, *DObj(map[string]*D{"k": DInt(j * n), "s": DStr(s)}))
	}
	d := Data{
		"n": DInt(n), "m": DInt(5 - n), "f": DFloat(f), "g": DFloat(0.5), "s": DStr(s), "b": DBool(i%2 == 0), "z": DNil(),
		"a": &list, "w": &words, "os": &objs,
		"o": DObj(map[string]*D{"k": DInt(n + 1), "s": DStr(s), "l": &list, "o": DObj(map[string]*D{"k": DFloat(f)}), "b": DBool(i%2 == 1)}),
	}
	switch i {
	case 4:
		for _, k := range []string{"s", "a", "o", "f", "b"} {
			delete(d, k)
		}
	case 5:
		d["n"], d["s"], d["f"], d["a"], d["b"] = DStr("other"), DInt(1), DInt(6), DFloat(1.5), DNil()
	}
	return d
}

var useNames = []string{"n", "m", "f", "g", "s", "b", "z", "a", "w", "os", "o"}

// useExprs are the forms.
func useExprs() []*E {
	n, m, f, g, s, b, z, a, w, os, o := Var("n"), Var("m"), Var("f"), Var("g"), Var("s"), Var("b"), Var("z"), Var("a"), Var("w"), Var("os"), Var("o")
	one, two := Int("1"), Int("2")
	obj := func(k string, v *E) *E { return Obj([]string{k}, v) }
	out := []*E{
		n, f, s, b, z, a, w, os, o,
		one, Int("0"), Flt("1.5"), Flt("0.0"), Str("lit"), Str(""), Bool(true), Bool(false), Nil(),
		Arr(), Arr(one, two), Arr(n, m), Arr(Arr(n), a), Arr(s, Str("q")), Arr(obj("k", n)), Arr(o, o),
		Obj(nil), obj("k", one), obj("k", n), Obj([]string{"a", "b", "c"}, n, s, Arr(a)), obj("o", o),
		Un("-", n), Un("-", f), Un("-", Un("-", n)), Un("!", b), Un("!", Un("!", b)), Un("!", z), Un("-", one), Un("!", Bool(true)), Un("-", Idx(a, Int("0"))), Un("-", Dot(o, "k")),
		Post("++", n), Post("--", n), Post("++", f), Post("--", f), Post("++", Post("++", n)), Post("--", Idx(a, Int("0"))), Post("++", Dot(o, "k")), Post("++", one), Post("--", Flt("2.5")), Un("-", Post("--", f)), Bin("+", Post("++", n), n), Bin("+", n, Post("--", n)), Post("--", Dot(Dot(o, "o"), "k")), Post("--", Dot(Idx(os, Int("0")), "k")),
		Tern(b, n, m), Tern(n, s, Str("none")), Tern(s, f, g), Tern(z, one, s), Tern(b, Tern(n, one, two), n), Tern(a, a, w), Tern(Bin(">", n, one), Bin("+", s, s), s), Tern(Bool(true), n, m), Tern(Bool(false), one, s), Tern(b, Call(a, "len"), Call(w, "len")),
		Idx(a, Int("0")), Idx(a, n), Idx(w, Bin("-", n, one)), Idx(a, Int("99")), Idx(a, Un("-", one)), Idx(Arr(n, m, one), two), Idx(Arr(s, Str("u")), n), Idx(o, Str("k")), Idx(Dot(o, "l"), Int("0")), Idx(Arr(a, Dot(o, "l")), one), Idx(Idx(Arr(a), Int("0")), Int("0")), Idx(a, Idx(a, Int("9"))), Idx(Arr(Int("5"), Int("6"), Int("7"), Int("8")), n),
		Dot(o, "k"), Dot(o, "s"), Dot(Dot(o, "o"), "k"), Dot(obj("q", n), "q"), Dot(Idx(os, Int("0")), "k"), Dot(o, "none"), Dot(Arr(n), "k"), Dot(Idx(Arr(o), Int("0")), "k"), Dot(Tern(b, o, o), "s"),
		Bin("+", Bin("+", s, Str("-")), s), Bin("+", Str("l"), Bin("+", s, Str("r"))), Bin("+", n, Bin("*", m, two)), Bin("*", Bin("+", n, m), two), Bin("-", Bin("-", n, one), m), Bin("/", m, n), Bin("%", m, n), Bin("/", f, g), Bin("+", n, f), Bin("+", s, n), Bin("==", Bin(">", n, one), b), Bin("+", Idx(a, Int("0")), n), Bin("+", Dot(o, "k"), Call(s, "len")), Bin("+", Call(w, "join", Str("+")), s),
		Call(s, "len"), Call(s, "upper"), Call(s, "reverse"), Call(s, "repeat", n), Call(s, "at", n), Call(s, "first"), Call(s, "truncate", one), Call(s, "contains", Str("w")), Call(Str("a b"), "split"), Call(s, "split", Str("")), Call(Call(s, "trim"), "len"), Call(Str("lit"), "upper"), Call(Str("l"), "repeat", n), Call(s, "capitalize"),
		Call(a, "len"), Call(a, "reverse"), Call(a, "append", n), Call(a, "append", n, m), Call(a, "prepend", n), Call(a, "slice", one), Call(a, "slice", Int("0"), n), Call(a, "contains", Int("10")), Call(w, "join"), Call(w, "join", s), Call(Call(a, "append", one), "append", two), Call(Arr(), "append", n), Call(Arr(one), "append", s), Call(Arr(n, n), "shuffle"), Call(Arr(s), "rand"), Call(a, "append", a), Call(Dot(o, "l"), "reverse"), Call(Arr(Int("3"), one, two), "reverse"), Call(os, "append", o), Call(a, "contains", a),
		Call(n, "str"), Call(n, "float"), Call(Un("-", n), "abs"), Call(n, "decimal"), Call(f, "int"), Call(f, "round"), Call(f, "ceil"), Call(f, "floor"), Call(f, "abs"), Call(b, "binary"), Call(b, "then", n, m), Call(b, "then", s), Call(Bool(true), "then", a), Call(one, "float"), Call(Flt("2.5"), "ceil"), Call(n, "len"),
		Call(s, "nofn"), Call(n, "append", one), Call(a, "append"), Var("absent"), Call(z, "len"), Dot(n, "k"), Idx(s, Int("0")), Bin("/", one, Int("0")), Un("-", s), Un("!", n),
	}
	for _, op := range Ops {
		out = append(out, Bin(op, n, two), Bin(op, two, n), Bin(op, n, m), Bin(op, f, g), Bin(op, Flt("2.5"), f), Bin(op, s, Str("x")), Bin(op, Bin(op, n, one), two), Bin(op, Int("6"), Int("4")), Bin(op, Bin("+", n, one), Bin("+", m, one)))
	}
	return out
}

// usePlace puts an expression into the files of a site.
type usePlace struct {
	name  string
	props string // whose property it is, besides C15 and C16
	make  func(e *E) map[string][]*S
}

// useAfter prints all data.
func useAfter() []*S {
	out := []*S{Text("|")}
	for _, n := range useNames {
		// nothing when the data lacks it would be an error, so that the text
		// comes last
		out = append(out, Print(Var(n)), Text(";"))
	}
	return out
}

func usePage(b ...*S) map[string][]*S {
	return map[string][]*S{"home": append(append([]*S{Text("[")}, b...), append([]*S{Text("]")}, useAfter()...)...)}
}

func usePlaces() []usePlace {
	one := Int("1")
	q := Arr(one, Int("2"), Int("3"))
	lt2 := func(e *E, n string) *E { return Bin("<", e, Int(n)) }
	lt := func(v string, n string) *E { return Bin("<", Var(v), Int(n)) }
	part := func(n string, e *E) *Part { return &Part{N: n, E: e} }
	iff := func(c *E, b []*S, br []Branch, els ...*S) *S {
		return &S{K: "if", X: []*E{c}, B: b, Br: br, HasElse: els != nil, Else: els}
	}
	forLoop := func(init *Part, cond *E, post *Part, b ...*S) *S {
		return &S{K: "for", Init: init, Cond: cond, Post: post, B: b}
	}
	breakIf := func(e *E) *S { return &S{K: "breakif", X: []*E{e}} }
	contIf := func(e *E) *S { return &S{K: "contif", X: []*E{e}} }
	comp := func(arg *E, br ...Branch) *S {
		s := &S{K: "comp", S: "~c", Br: br}
		if arg != nil {
			s.X = []*E{arg}
		}
		return s
	}
	arg := func(e *E) *E { return Obj([]string{"v"}, e) }
	slot := func(n string) *S { return &S{K: "slot", S: n} }
	reserve := func(n string) *S { return &S{K: "reserve", S: n} }
	block := func(n string, b ...*S) *S { return &S{K: "insert", S: n, B: b} }
	value := func(n string, e *E) *S { return &S{K: "insert", S: n, X: []*E{e}} }
	use := &S{K: "use", S: "~l"}

	var out []usePlace
	page := func(name, props string, f func(e *E) []*S) {
		out = append(out, usePlace{name, props, func(e *E) map[string][]*S { return usePage(f(e)...) }})
	}
	site := func(name, props string, f func(e *E) map[string][]*S) {
		out = append(out, usePlace{name, props, f})
	}
	wrap := func(name string, f func(e *E) *E) {
		page(name, "C01", func(e *E) []*S { return []*S{Print(f(e))} })
	}

	page("printed", "C01", func(e *E) []*S { return []*S{Print(e)} })
	page("printed twice", "C01", func(e *E) []*S { return []*S{Print(e), Text(","), Print(e)} })
	page("parts", "C01", func(e *E) []*S {
		return []*S{{K: "code", P: []Part{{E: e}, {N: "x", E: e}, {E: e}, {E: Var("x")}}}}
	})
	page("assigned", "C01 C04", func(e *E) []*S { return []*S{Assign("x", e), Print(Var("x")), Text(","), Print(Var("x"))} })
	page("assigned twice", "C01 C04", func(e *E) []*S { return []*S{Assign("x", e), Assign("x", e), Print(Var("x"))} })
	page("copied", "C01 C04", func(e *E) []*S {
		return []*S{Assign("x", e), Assign("y", Var("x")), Print(Post("++", Var("x"))), Print(Var("x")), Print(Var("y"))}
	})
	wrap("element", func(e *E) *E { return Arr(e) })
	wrap("indexed element", func(e *E) *E { return Idx(Arr(e, Arr(e)), Int("0")) })
	wrap("nested element", func(e *E) *E { return Arr(Arr(e), Arr(e, e)) })
	wrap("value", func(e *E) *E { return Obj([]string{"k", "l"}, e, e) })
	wrap("value by name", func(e *E) *E { return Dot(Obj([]string{"k"}, e), "k") })
	wrap("index", func(e *E) *E { return Idx(q, e) })
	wrap("indexed", func(e *E) *E { return Idx(e, Int("0")) })
	wrap("property of", func(e *E) *E { return Dot(e, "k") })
	wrap("key", func(e *E) *E { return Idx(Obj([]string{"two", "x"}, one, Int("2")), e) })
	wrap("condition of ?:", func(e *E) *E { return Tern(e, Int("8"), Int("9")) })
	wrap("first of ?:", func(e *E) *E { return Tern(Bool(true), e, Int("9")) })
	wrap("second of ?:", func(e *E) *E { return Tern(Bool(false), Int("8"), e) })
	wrap("argument of append", func(e *E) *E { return Call(q, "append", e) })
	wrap("argument of contains", func(e *E) *E { return Call(q, "contains", e) })
	wrap("second argument", func(e *E) *E { return Call(Bool(false), "then", one, e) })
	wrap("argument of repeat", func(e *E) *E { return Call(Str("ab"), "repeat", e) })
	wrap("receiver of len", func(e *E) *E { return Call(e, "len") })
	wrap("receiver of reverse", func(e *E) *E { return Call(e, "reverse") })
	wrap("receiver of abs", func(e *E) *E { return Call(e, "abs") })
	wrap("left operand", func(e *E) *E { return Bin("+", e, one) })
	wrap("both operands", func(e *E) *E { return Bin("+", e, e) })
	wrap("equal", func(e *E) *E { return Bin("==", e, e) })
	wrap("negated", func(e *E) *E { return Un("-", e) })
	wrap("not", func(e *E) *E { return Un("!", e) })
	wrap("incremented", func(e *E) *E { return Post("++", e) })

	page("@if", "C02", func(e *E) []*S { return []*S{iff(e, []*S{Text("T")}, nil)} })
	page("@if @else", "C02", func(e *E) []*S { return []*S{iff(e, []*S{Text("T")}, nil, Text("F"))} })
	page("@elseif", "C02", func(e *E) []*S {
		return []*S{iff(Bool(false), []*S{Text("T")}, []Branch{{E: e, B: []*S{Text("U")}}, {E: e, B: []*S{Text("V")}}}, Text("F"))}
	})
	page("@elseif after true", "C02", func(e *E) []*S {
		return []*S{iff(Bool(true), []*S{Text("T")}, []Branch{{E: e, B: []*S{Text("U")}}}, Text("F"))}
	})
	page("second @elseif", "C02", func(e *E) []*S {
		return []*S{iff(Nil(), []*S{Text("T")}, []Branch{{E: Int("0"), B: []*S{Text("U")}}, {E: e, B: []*S{Text("V"), Print(e)}}, {E: Bool(true), B: []*S{Text("W")}}})}
	})
	page("branches", "C02", func(e *E) []*S {
		return []*S{
			iff(Bool(true), []*S{Print(e)}, nil, Text("F")), Text(","),
			iff(Bool(false), []*S{Text("T")}, []Branch{{E: one, B: []*S{Print(e)}}}, Text("F")), Text(","),
			iff(Bool(false), []*S{Text("T")}, nil, Print(e)),
		}
	})
	page("assigned in branches", "C02 C04", func(e *E) []*S {
		return []*S{iff(Var("m"), []*S{Assign("x", e), Print(Var("x"))}, nil, Assign("y", e), Print(Var("y"))), Assign("x", e), Print(Var("x"))}
	})
	page("data assigned in a branch", "C04", func(e *E) []*S {
		var out []*S
		for _, v := range []string{"n", "f", "s", "b", "a"} {
			out = append(out, iff(Bool(true), []*S{iff(Bin("==", Call(Var("w"), "len"), Int("99")), []*S{Assign(v, e)}, nil), Text(".")}, nil))
		}
		return append(out, iff(one, []*S{Assign("n", e), Print(Var("n"))}, nil), Print(Var("n")))
	})
	page("data assigned", "C04", func(e *E) []*S { return []*S{Assign("s", e), Print(Var("s"))} })

	page("@each array", "C03", func(e *E) []*S {
		return []*S{{K: "each", S: "x", X: []*E{e}, B: []*S{Print(Var("x")), Print(Dot(Var("loop"), "iter")), Text(",")}, HasElse: true, Else: []*S{Text("none")}}}
	})
	page("@each element", "C03", func(e *E) []*S {
		return []*S{Each("x", Arr(e, e), Print(Var("x")), Text(","), Print(Dot(Var("loop"), "last")))}
	})
	page("@each body", "C03", func(e *E) []*S { return []*S{Each("x", q, Print(e), Text(",")), Print(e)} })
	page("@each @else", "C03", func(e *E) []*S {
		return []*S{{K: "each", S: "x", X: []*E{Arr()}, B: []*S{Text("B")}, HasElse: true, Else: []*S{Print(e), Assign("x", e), Print(Var("x"))}}}
	})
	page("@each assigned", "C03 C04", func(e *E) []*S {
		return []*S{Each("x", q, Assign("y", e), Print(Var("y"))), Assign("y", e), Print(Var("y"))}
	})
	page("nested @each", "C03", func(e *E) []*S {
		return []*S{Each("x", q, Each("y", Arr(e, e), Print(Var("y")), Print(Dot(Var("loop"), "index"))), Print(Dot(Var("loop"), "index")))}
	})
	page("@breakIf", "C02 C03", func(e *E) []*S { return []*S{Each("x", q, Print(Var("x")), breakIf(e), Text("-"))} })
	page("@continueIf", "C02 C03", func(e *E) []*S { return []*S{Each("x", q, Print(Var("x")), contIf(e), Text("-"))} })
	page("@for init", "C03", func(e *E) []*S {
		return []*S{forLoop(part("x", e), one, nil, Print(Var("x")), &S{K: "break"})}
	})
	page("@for condition", "C03", func(e *E) []*S {
		return []*S{{K: "for", Init: part("x", Int("0")), Cond: e, Post: part("", Post("++", Var("x"))), B: []*S{Print(Var("x")), breakIf(Bin("==", Var("x"), Int("2"))), Text(",")}, HasElse: true, Else: []*S{Text("never")}}}
	})
	page("@for condition without post", "C03", func(e *E) []*S {
		return []*S{Assign("k", Int("0")), Each("y", q, forLoop(part("x", Var("y")), e, nil, Print(Var("x")), Assign("x", Post("++", Var("x"))), breakIf(Bin(">", Var("x"), Int("4"))), Text(",")), Text(";"))}
	})
	page("@for bound", "C03", func(e *E) []*S {
		return []*S{forLoop(part("x", Int("0")), Bin("<", Var("x"), e), part("", Post("++", Var("x"))), Print(Var("x")), breakIf(Bin("==", Var("x"), Int("6"))))}
	})
	page("@for post", "C03", func(e *E) []*S {
		return []*S{Assign("t", Int("0")), forLoop(part("x", Int("1")), lt("x", "3"), part("", e), Print(Var("x")), breakIf(Bin("==", Var("x"), Var("n"))), Text(","))}
	})
	page("@for assigned post", "C03", func(e *E) []*S {
		return []*S{forLoop(part("x", e), Bin("!=", Var("x"), Var("absent")), part("x", e), Print(Var("x")), breakIf(one))}
	})
	page("@for body", "C03", func(e *E) []*S {
		return []*S{forLoop(part("x", Int("0")), lt("x", "3"), part("", Post("++", Var("x"))), Print(e), Text(","), Print(Var("x"))), Print(e)}
	})
	// only at the second pass
	later := func(first, e *E) *E { return Tern(Bin("<", Var("x"), one), first, e) }
	stop := breakIf(Bin("==", Var("x"), Int("3")))
	next := part("", Post("++", Var("x")))
	from0 := part("x", Int("0"))
	page("@for condition later", "C03", func(e *E) []*S {
		return []*S{{K: "for", Init: from0, Cond: later(one, e), Post: next, B: []*S{Print(Var("x")), stop, Text(",")}, HasElse: true, Else: []*S{Text("never")}}}
	})
	page("nested @for condition later", "C03", func(e *E) []*S {
		return []*S{Each("y", q, forLoop(from0, later(Bool(true), e), next, Print(Var("x")), stop, Text(",")), Print(Dot(Var("loop"), "iter")))}
	})
	page("@for post later", "C03", func(e *E) []*S {
		return []*S{forLoop(from0, lt("x", "3"), part("", later(Post("++", Var("x")), e)), Print(Var("x")), breakIf(Bin("==", Var("x"), Var("n"))), Text(","))}
	})
	page("@for post without init later", "C03", func(e *E) []*S {
		return []*S{forLoop(nil, one, part("", Tern(Var("b"), e, Arr())), Text("."), If(Var("b"), &S{K: "break"}), breakIf(one))}
	})
	page("@for post that is not used", "C03", func(e *E) []*S {
		return []*S{Each("y", Arr(Arr(Int("0"))), forLoop(part("x", Var("y")), lt2(Call(Var("x"), "len"), "4"), part("x", Call(Var("x"), "append", e)), Print(Var("x")), Text(",")), Print(Var("y")))}
	})
	page("@for body later", "C03", func(e *E) []*S {
		return []*S{forLoop(from0, lt("x", "3"), next, Print(later(one, e)), iff(Bin("==", Var("x"), Int("2")), []*S{Print(e)}, nil), Text(","))}
	})
	page("@each body later", "C03", func(e *E) []*S {
		return []*S{Each("x", q, Print(Tern(Dot(Var("loop"), "last"), e, Var("x"))), Text(","))}
	})
	page("@breakIf later", "C02 C03", func(e *E) []*S {
		return []*S{Each("x", q, Print(Var("x")), breakIf(Tern(Dot(Var("loop"), "first"), Bool(false), e)), Text(",")), forLoop(from0, lt("x", "3"), next, breakIf(later(Nil(), e)), Print(Var("x")))}
	})
	page("@continueIf later", "C02 C03", func(e *E) []*S {
		return []*S{Each("x", q, Print(Var("x")), contIf(Tern(Dot(Var("loop"), "first"), Bool(false), e)), Text(",")), forLoop(from0, lt("x", "3"), next, contIf(later(Nil(), e)), Print(Var("x")))}
	})
	page("@elseif later", "C02", func(e *E) []*S {
		return []*S{forLoop(from0, lt("x", "3"), next, iff(Bin("==", Var("x"), Int("2")), []*S{Text("T")}, []Branch{{E: later(Bool(false), e), B: []*S{Text("U")}}}, Text("F")))}
	})
	page("two types", "C03 C04", func(e *E) []*S {
		return []*S{Each("x", Arr(one, e, Int("2")), Print(Var("x")), Text(",")), Text(";"), Each("x", Arr(e, e, one), Print(Var("x")), Text(","))}
	})
	page("assigned later", "C03 C04", func(e *E) []*S {
		return []*S{forLoop(from0, lt("x", "3"), next, Assign("y", later(one, e)), Print(Var("y")), Text(","))}
	})
	page("outer assigned later", "C03 C04", func(e *E) []*S {
		return []*S{Assign("y", Int("7")), Each("x", Arr(Int("0"), one, Int("2")), Assign("y", later(Bin("+", Var("y"), one), e)), Print(Var("y")), Text(",")), Print(Var("y"))}
	})
	page("@dump", "", func(e *E) []*S { return []*S{{K: "dump", X: []*E{e, one, e}}} })

	const c6, c7 = "C06", "C07"
	card := []*S{Text("<"), Print(Var("v")), Text(","), slot(""), Text(","), slot("x"), Print(Var("v")), Text(">")}
	withComp := func(file []*S, b ...*S) map[string][]*S {
		out := usePage(b...)
		out["components/c"] = file
		return out
	}
	site("component argument", c7, func(e *E) map[string][]*S { return withComp(card, comp(arg(e))) })
	site("two components", c7, func(e *E) map[string][]*S {
		return withComp(card, comp(arg(e)), comp(arg(Var("n"))), comp(arg(e)))
	})
	site("second argument of a component", c7, func(e *E) map[string][]*S {
		return withComp([]*S{Print(Var("v")), Print(Var("u"))}, comp(Obj([]string{"v", "u"}, one, e)), comp(Obj([]string{"u", "v"}, Arr(e), Obj([]string{"k"}, e))))
	})
	site("component argument in a loop", c7, func(e *E) map[string][]*S {
		return withComp(card, Each("x", q, comp(arg(e), Branch{B: []*S{Print(Var("x"))}})))
	})
	site("argument that shadows", c7, func(e *E) map[string][]*S {
		return withComp([]*S{Print(Var("n")), Print(Var("s")), Print(Var("m"))}, comp(Obj([]string{"n", "s"}, e, e)), Print(Var("n")), Print(Var("s")))
	})
	site("component file", c7, func(e *E) map[string][]*S {
		return withComp([]*S{Text("<"), Print(e), slot(""), Print(Var("v")), Text(">")}, comp(arg(one)), comp(arg(Var("n"))), Print(e))
	})
	site("component file without arguments", c7, func(e *E) map[string][]*S {
		return withComp([]*S{Print(e), Assign("n9", e), Print(Var("n9"))}, comp(nil), comp(Obj(nil)))
	})
	site("condition in a component", c7, func(e *E) map[string][]*S {
		return withComp([]*S{iff(Var("v"), []*S{Text("T"), slot("")}, nil, Text("F"))}, comp(arg(e), Branch{B: []*S{Text("S")}}), comp(arg(e)))
	})
	site("loop in a component", c7, func(e *E) map[string][]*S {
		return withComp([]*S{Each("x", Arr(Var("v"), Var("v")), Print(Var("x")), slot("x"))}, comp(arg(e), Branch{Name: "x", B: []*S{Print(Dot(Var("loop"), "index"))}}))
	})
	site("slot bodies", c7, func(e *E) map[string][]*S {
		return withComp(card, comp(arg(one), Branch{B: []*S{Print(e)}}, Branch{Name: "x", B: []*S{Text("("), Print(e), Text(")")}}), comp(arg(Var("m")), Branch{Name: "x", B: []*S{Print(e)}}), comp(arg(Var("s"))))
	})
	site("condition in a slot", c7, func(e *E) map[string][]*S {
		return withComp(card, comp(arg(Var("s")), Branch{B: []*S{iff(e, []*S{Text("T")}, nil, Text("F"))}}, Branch{Name: "x", B: []*S{Each("x", q, breakIf(e), Print(Var("x")))}}))
	})
	site("component in a slot", c7, func(e *E) map[string][]*S {
		out := withComp(card, comp(arg(Var("s")), Branch{B: []*S{{K: "comp", S: "~d", X: []*E{arg(e)}}}}), &S{K: "comp", S: "~d", X: []*E{arg(e)}})
		out["components/d"] = []*S{Text("("), Print(Var("v")), Text(")")}
		return out
	})
	site("component under conditions", c7, func(e *E) map[string][]*S {
		return withComp(card, iff(e, []*S{comp(arg(one))}, nil, comp(arg(Int("2")), Branch{B: []*S{Print(e)}})), comp(arg(Int("3"))))
	})

	lay := []*S{Text("<"), reserve("t"), Text("/"), reserve("b"), Text(">")}
	lay = append(append([]*S{}, lay...), useAfter()...)
	withLayout := func(layout []*S, b ...*S) map[string][]*S {
		return map[string][]*S{"layouts/l": layout, "home": append([]*S{use}, b...), "components/c": card}
	}
	site("insert value", c6, func(e *E) map[string][]*S { return withLayout(lay, value("t", e)) })
	site("insert values", c6, func(e *E) map[string][]*S { return withLayout(lay, value("b", e), value("t", e)) })
	site("insert block", c6, func(e *E) map[string][]*S {
		return withLayout(lay, block("b", Text("("), Print(e), Text(")")), value("t", Var("m")))
	})
	site("assigned in inserts", c6, func(e *E) map[string][]*S {
		return withLayout(lay, block("t", Assign("x", e), Print(Var("x"))), block("b", Assign("y", e), Print(Var("y")), Print(e)))
	})
	site("condition in an insert", c6, func(e *E) map[string][]*S {
		return withLayout(lay, block("t", iff(e, []*S{Text("T")}, nil, Text("F"))), block("b", Each("x", q, contIf(e), Print(Var("x")))))
	})
	site("layout", c6, func(e *E) map[string][]*S {
		return withLayout(append([]*S{Print(e), Text("!"), Print(e)}, lay...), block("t", Print(e)))
	})
	site("condition in a layout", c6, func(e *E) map[string][]*S {
		return withLayout([]*S{iff(e, []*S{reserve("t")}, nil, reserve("b"))}, value("t", Str("T")), block("b", Text("B"), Print(Var("n"))))
	})
	site("reserve in a loop", c6, func(e *E) map[string][]*S {
		return withLayout([]*S{Each("x", Arr(e, e), Print(Var("x")), reserve("t"), Text(",")), reserve("b")}, value("t", e), block("b", Print(e)))
	})
	site("outside of inserts", c6, func(e *E) map[string][]*S {
		return withLayout(lay, Text("text"), iff(Bool(false), []*S{Print(Var("n"))}, nil), block("t", Print(e)), Text("more"))
	})
	site("component in an insert", "C06 C07", func(e *E) map[string][]*S {
		return withLayout(lay, value("t", e), block("b", comp(arg(e), Branch{B: []*S{Print(e)}}), comp(arg(Var("n")))))
	})
	site("page beside", c6, func(e *E) map[string][]*S {
		out := withLayout(lay, value("t", e))
		out["aside"] = []*S{use, value("t", Bin("+", Int("1"), Int("1"))), block("b", Print(e))}
		return out
	})
	return out
}

type useCase struct {
	Place string `json:"place"`
	SiteCase
	Sets []int `json:"sets"`
}

func useCases(prop string, exprs func() []*E, sets []int, every int) func(th bool, yield func(func() *useCase)) {
	return func(th bool, yield func(func() *useCase)) {
		k := 0
		for _, p := range usePlaces() {
			if prop != "" && !strings.Contains(p.props, prop) {
				continue
			}
			if prop == "" && p.name == "@dump" && exprs != nil {
				continue
			}
			for _, e := range pickExprs(exprs) {
				k++
				if !th && k%every != 0 {
					continue
				}
				yield(func() *useCase {
					return &useCase{Place: p.name, SiteCase: SiteCase{Files: p.make(e), Page: "home"}, Sets: sets}
				})
			}
		}
	}
}

func pickExprs(exprs func() []*E) []*E {
	if exprs == nil {
		return useExprs()
	}
	return exprs()
}

// judgeUse renders the page with every set of data.
func judgeUse(c *useCase) core.Verdict { return judgeUseWith(c, nil, Data.Native) }

func judgeUseWith(c *useCase, funcs Funcs, native func(Data) map[string]any) core.Verdict {
	defined := 0
	in := &Interp{Steps: 3000, Site: c.Files, Funcs: funcs}
	var refs []Result
	for _, i := range c.Sets {
		ref := in.Page(c.Page, useData(i))
		in.Steps = 3000
		if ref.Endless {
			return core.OK(false, "endless")
		}
		if !ref.Unspec {
			defined++
		}
		refs = append(refs, ref)
	}
	src := c.sources()
	run := func(d Data) (string, error) {
		return textwire.EvaluateString(src["home.tw"], native(d))
	}
	if len(c.Files) > 1 {
		writeTree("u", src)
		tpl, err := load("u", ".tw", false)
		if err != nil {
			return core.Failf("%s: loading failed: %v\n%s", c.Place, err, files(src))
		}
		run = func(d Data) (string, error) {
			out, ferr := tpl.String(c.Page, native(d))
			if ferr != nil {
				return out, ferr.Error()
			}
			return out, nil
		}
	}
	cl := "output"
	for j, i := range c.Sets {
		out, err := run(useData(i))
		if d := diff(files(src), refs[j], out, err); d != "" {
			return core.Failf("%s, data %d, render %d: %s", c.Place, i, j+1, d)
		}
		if refs[j].Err {
			cl = "with errors"
		}
	}
	return core.OK(defined > 0, cl)
}

// use16 renders the page again and again.
func use16(c *useCase) core.Verdict {
	src := c.sources()
	if (&Interp{Steps: 3000, Site: c.Files}).Page(c.Page, useData(0)).Endless {
		return core.OK(false, "endless")
	}
	h := &c16Case{Files: map[string][]byte{}, Dir: "site"}
	for n, s := range src {
		h.Files[strings.TrimSuffix(n, ".tw")] = []byte(s)
	}
	in := &Interp{Site: c.Files}
	for j, i := range c.Sets {
		in.Steps = 3000
		if in.Page(c.Page, useData(i)).Endless {
			continue
		}
		o := Op{K: "string", Name: c.Page, Data: useData(i)}
		if j%3 == 2 {
			o.K = "response"
		}
		if c.Files["aside"] != nil && j%2 == 1 {
			o.Name = "aside"
		}
		h.Ops = append(h.Ops, o)
	}
	v := judge16Local(h)
	if v.Fail == "" {
		if d := judgeUse(c); d.Fail != "" {
			return d
		}
	}
	return v
}

// use15 has goroutines render the page with different data.
func use15(c *useCase) core.Verdict {
	in := &Interp{Site: c.Files}
	k := &c15Case{Files: map[string][]byte{}, Procs: 4}
	for n, s := range c.sources() {
		k.Files[strings.TrimSuffix(n, ".tw")] = []byte(s)
	}
	for j, i := range c.Sets {
		in.Steps = 3000
		if in.Page(c.Page, useData(i)).Endless {
			return core.OK(false, "endless")
		}
		o := Op{K: "string", Name: c.Page, Data: useData(i)}
		k.Gos = append(k.Gos, []Op{o, {K: "response", Name: c.Page, Data: useData(c.Sets[(j+1)%len(c.Sets)])}})
	}
	return judge15(k)
}

// use17 compares Response with String, with debug mode off and on.
func use17(c *useCase) core.Verdict {
	in := &Interp{Site: c.Files}
	src := c.sources()
	src["zqfails.tw"] = "{{ zqabsent }}"
	writeTree("zqu", src)
	failed := 0
	for _, debug := range []bool{false, true} {
		m := &machine{}
		if r := m.do(Op{K: "load", Dir: "zqu", Ext: ".tw", Debug: debug}); r.Failed {
			return core.Failf("%s: loading failed: %s\n%s", c.Place, r, files(src))
		}
		page := m.do(Op{K: "response", Name: "zqfails"})
		for j, i := range c.Sets {
			in.Steps = 3000
			if in.Page(c.Page, useData(i)).Endless {
				return core.OK(false, "endless")
			}
			want, got := m.do(Op{K: "string", Name: c.Page, Data: useData(i)}), m.do(Op{K: "response", Name: c.Page, Data: useData(i)})
			body := string(got.Out)
			bad := ""
			switch {
			case want.Panic+got.Panic != "":
				bad = "panic"
			case want.Failed != got.Failed:
				bad = "only one of them fails"
			case !want.Failed && body != string(want.Out):
				bad = "they differ"
			case want.Failed && !debug && body != string(page.Out):
				bad = "the error page differs from " + short(page.Out)
			case want.Failed && debug && (!strings.Contains(body, string(want.Fail.Msg)) || !strings.Contains(body, string(want.Fail.Path)) || !strings.Contains(body, fmt.Sprint(want.Fail.Line))):
				bad = "the body lacks the message, the path or the line"
			}
			if bad != "" {
				return core.Failf("%s, debug %v, data %d, render %d: %s: String gives %s, Response %s\n%s", c.Place, debug, i, j+1, bad, want, got, files(src))
			}
			if want.Failed {
				failed++
			}
		}
	}
	return core.OK(true, []string{"works", "fails"}[min(failed, 1)])
}

// use14 loads the files twice and renders every page several times.
func use14(c *useCase) core.Verdict {
	in := &Interp{Site: c.Files}
	src := c.sources()
	writeTree("u", src)
	first := map[string]string{}
	for _, debug := range []bool{false, true, false} {
		m := &machine{}
		if r := m.do(Op{K: "load", Dir: "u", Ext: ".tw", Debug: debug}); r.Failed {
			return core.Failf("%s: loading failed: %s\n%s", c.Place, r, files(src))
		}
		for _, i := range c.Sets {
			in.Steps = 3000
			if in.Page(c.Page, useData(i)).Endless {
				return core.OK(false, "endless")
			}
			for _, k := range []string{"string", "response", "string"} {
				got := m.do(Op{K: k, Name: c.Page, Data: useData(i)}).key()
				id := fmt.Sprint(k, i)
				if k == "response" {
					id += fmt.Sprint(debug)
				}
				if old, ok := first[id]; ok && old != got {
					return core.Failf("%s, data %d: %s gives %s and then %s\n%s", c.Place, i, k, old, got, files(src))
				}
				first[id] = got
			}
		}
	}
	return core.OK(true, "rendered")
}

// use14Page asks for a page that fails, and one that does not, with an error
// page of its own, in two processes.
func use14Page(c *useCase) core.Verdict {
	src := c.sources()
	src["fine.tw"] = "{{ o }}{{ [o, os] }}@dump(o)"
	src["custom.tw"] = "<p>{{ {b: 1, a: [1, 2], c: {z: 1, y: 2}} }}</p>@dump({q: 1, p: 2})@component('~part', {b: 1, a: 2})"
	src["custombad.tw"] = "<p>{{ {b: 1, a: nope, c: alsoNope} }}</p>"
	src["components/part.tw"] = "{{ a }}{{ b }}"
	src["layouts/part.tw"] = "@reserve('x')"
	writeTree("u", src)
	page := []string{"", "custom", "custombad", "gone", "layouts/part"}[len(src["home.tw"])%5]
	var ops []Op
	for k := 0; k < 3; k++ {
		ops = append(ops, Op{K: "load", Dir: "u", Ext: ".tw", Page: page, Debug: k == 2})
		for _, i := range c.Sets {
			ops = append(ops, Op{K: "response", Name: "home", Data: useData(i)}, Op{K: "response", Name: "fine", Data: useData(i)}, Op{K: "response", Name: "nothing", Data: useData(i)})
		}
	}
	in := &Interp{Site: c.Files}
	for _, i := range c.Sets {
		in.Steps = 3000
		if in.Page(c.Page, useData(i)).Endless {
			return core.OK(false, "endless")
		}
	}
	var first []Res
	for n := 0; n < 2; n++ {
		res, err := (&Script{Ops: ops}).fresh()
		if err != nil {
			return core.Failf("%s: %v\n%s", c.Place, err, files(src))
		}
		round := len(ops) / 3
		for i := range res[:round] {
			if i > 0 && res[i].key() != res[i+round].key() {
				return core.Failf("%s, error page %q: %s gives %s and then %s\n%s", c.Place, page, ops[i], res[i], res[i+round], files(src))
			}
		}
		if n == 0 {
			first = res
			continue
		}
		if d := differ(ops, first, res); d != "" {
			return core.Failf("%s, error page %q, another process: %s\n%s", c.Place, page, d, files(src))
		}
	}
	return core.OK(true, "page "+page)
}

// goVariant is Go data of other types than Native makes for the same value.
func goVariant(d *D, v int) any {
	ptr := func(x any) any {
		if v%5 == 4 && x != nil {
			p := reflect.New(reflect.TypeOf(x))
			p.Elem().Set(reflect.ValueOf(x))
			return p.Interface()
		}
		return x
	}
	same := func(vals []any) reflect.Type {
		var t reflect.Type
		for _, x := range vals {
			if x == nil || t != nil && reflect.TypeOf(x) != t {
				return nil
			}
			t = reflect.TypeOf(x)
		}
		return t
	}
	switch d.K {
	case "bool":
		return ptr(d.B)
	case "int":
		kinds := []any{int8(0), int16(0), int32(0), int64(0), int(0)}
		if d.I >= 0 {
			kinds = append(kinds, uint8(0), uint16(0), uint32(0), uint64(0), uint(0))
		}
		t := reflect.TypeOf(kinds[v%len(kinds)])
		if x := reflect.ValueOf(d.I).Convert(t); x.Convert(reflect.TypeOf(d.I)).Int() == d.I {
			return ptr(x.Interface())
		}
		return ptr(d.I)
	case "float":
		if f := d.Native().(float64); v%2 == 1 && float64(float32(f)) == f {
			return ptr(float32(f))
		}
		return ptr(d.Native())
	case "str":
		return ptr(string(d.S))
	case "arr":
		var vals []any
		for i := range d.A {
			vals = append(vals, goVariant(&d.A[i], v))
		}
		t := same(vals)
		if t == nil || v%3 == 2 {
			t = reflect.TypeOf((*any)(nil)).Elem()
		}
		s := reflect.MakeSlice(reflect.SliceOf(t), 0, len(vals))
		for _, x := range vals {
			y := reflect.New(t).Elem()
			if x != nil {
				y.Set(reflect.ValueOf(x))
			}
			s = reflect.Append(s, y)
		}
		return ptr(s.Interface())
	case "obj":
		vals := map[string]any{}
		var all []any
		for k, x := range d.O {
			vals[k] = goVariant(x, v)
			all = append(all, vals[k])
		}
		t := same(all)
		if t == nil || v%3 == 1 {
			t = reflect.TypeOf((*any)(nil)).Elem()
		}
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
		for k, x := range vals {
			y := reflect.New(t).Elem()
			if x != nil {
				y.Set(reflect.ValueOf(x))
			}
			m.SetMapIndex(reflect.ValueOf(k), y)
		}
		return ptr(m.Interface())
	}
	return nil
}

func use12(c *useCase) core.Verdict {
	v := 0
	for _, r := range c.Place + PrintB(c.Files["home"], nil) {
		v += int(r)
	}
	return judgeUseWith(c, nil, func(d Data) map[string]any {
		v++
		out := map[string]any{}
		for k, x := range d {
			v++
			out[k] = goVariant(x, v)
		}
		return out
	})
}

// useCalls are the calls among the forms.
func useCalls() []*E {
	var out []*E
	for _, e := range useExprs() {
		calls := false
		WalkE(e, func(e *E) { calls = calls || e.K == "call" })
		if calls {
			out = append(out, e)
		}
	}
	return out
}

// useData12 are the forms that read data.
func useData12() []*E {
	var out []*E
	for _, e := range useExprs() {
		vars := false
		WalkE(e, func(e *E) { vars = vars || e.K == "var" })
		if vars && e.K != "bin" {
			out = append(out, e)
		}
	}
	return out
}

// use20 are calls of custom functions.
func use20() []*E {
	id := func(r *E, a ...*E) *E { return Call(r, "id20", a...) }
	n, f, s, b, a, o := Var("n"), Var("f"), Var("s"), Var("b"), Var("a"), Var("o")
	out := []*E{
		id(o), id(Nil()), id(Obj([]string{"k"}, n)), Call(n, "other20"), Call(Str("x"), "other20", s),
		id(id(n)), id(id(s, n), s), id(id(a, n), a), Bin("+", id(s), id(s)), Bin("+", id(n), n), Un("-", id(n, n)), Post("++", id(n)), Idx(id(a, s), Int("0")), Arr(id(n), id(n, n)),
		Obj([]string{"k"}, id(s)), Tern(id(b), id(n), id(n, n)), Call(id(s), "upper"), id(Call(s, "upper")), id(Call(a, "append", n), id(n)), id(s, id(a), id(o)), id(s, o, a, Nil(), b, f), id(Dot(o, "s")), id(Idx(a, Int("0")), a), id(Tern(b, n, n)), id(s, s), id(s, a),
	}
	for _, r := range []*E{n, f, s, b, a, Int("3"), Flt("1.5"), Str("x"), Bool(true), Bool(false), Arr(Int("1")), Arr(n), Arr()} {
		out = append(out, id(r), id(r, n), id(r, n, s, a), id(r, o, Nil()), id(r, Int("1"), Arr(Flt("1.5"), Nil()), Obj([]string{"k"}, Bool(true))))
	}
	return out
}

// use10 are literals with characters that are escaped.
func use10() []*E {
	var out []*E
	s := Var("s")
	for i, t := range []string{"<b>", "a & b", "&lt;", "\"q\" 'r'", "</p>&amp;<p>", "é<", "&", "'"} {
		l := Str(t)
		m := Str([]string{"<i>", ">", "x"}[i%3])
		raw := func(e *E) *E { return Call(e, "raw") }
		out = append(out, l, Bin("+", l, m), Bin("+", s, l), Bin("+", l, s), Bin("+", Bin("+", l, s), l), Arr(l), Arr(l, m), Arr(Arr(l)), Idx(Arr(m, l), Int("1")), Obj([]string{"k"}, l), Dot(Obj([]string{"k", "l"}, l, m), "k"),
			Tern(Var("b"), l, m), raw(l), raw(Bin("+", l, m)), Bin("+", raw(l), m), Arr(raw(l), m), Obj([]string{"k"}, raw(l)), Call(Arr(l, m), "join", Str("-")), Call(Arr(m), "append", l), Call(l, "repeat", Int("2")), Call(Bool(true), "then", l), Call(Var("w"), "append", l), raw(Idx(Arr(m, l), Int("1"))))
	}
	return out
}

func init() {
	rule := "exhaustive: every form of expression (260 over variables, literals and both; faults included) in every place of a template that belongs to the property, rendered with 4 sets of data that work, one that lacks names and one with other types, with all variables printed afterwards; against the reference; non-trivial: the result is defined for some set"
	sets := []int{0, 1, 2, 3, 4, 5, 0}
	add := func(id string, f core.Fam[*useCase]) {
		p := Get(id)
		if f.Name == "" {
			f.Name = "uses"
		}
		p.Families = append(p.Families, core.New(f))
	}
	for _, id := range []string{"C01", "C02", "C03", "C04", "C06", "C07"} {
		add(id, core.Fam[*useCase]{Rule: rule, Enum: useCases(id, nil, sets, 1), Judge: judgeUse})
	}
	add("C10", core.Fam[*useCase]{
		Rule: "exhaustive: 8 literals in 23 forms (alone, concatenated, parts of arrays and objects, through raw and functions that copy) in every place of a template where text reaches the output (inserts, arguments, slots, layouts, loops); against the reference; non-trivial: the result is defined",
		Enum: func(th bool, yield func(func() *useCase)) {
			useCases("", use10, []int{0, 1, 0}, 1)(th, func(f func() *useCase) {
				switch f().Place {
				case "index", "indexed", "key", "argument of contains", "argument of repeat", "receiver of len", "receiver of reverse", "receiver of abs", "equal", "negated", "not", "incremented":
				default:
					yield(f)
				}
			})
		}, Judge: judgeUse,
	})
	add("C11", core.Fam[*useCase]{
		Rule: "exhaustive: 80 calls of built-in functions in every place of a template, rendered with 6 sets of data, all data printed afterwards; against the reference; non-trivial: the result is defined for some set",
		Enum: useCases("", useCalls, sets, 1), Judge: judgeUse,
	})
	add("C12", core.Fam[*useCase]{
		Rule: "exhaustive: every form of expression that reads data in every place of a template, the data as integers of all widths, float32, typed slices and maps and pointers in turn; against the reference; non-trivial: the result is defined for some set",
		Enum: useCases("", useData12, sets, 1), Judge: use12,
	})
	add("C20", core.Fam[*useCase]{
		Rule: "exhaustive: 90 calls of custom functions in every place of a template; against the reference; non-trivial: the result is defined for some set",
		Enum: useCases("", use20, sets, 1), Judge: func(c *useCase) core.Verdict {
			ready20funcs()
			return judgeUseWith(c, funcs20(), Data.Native)
		},
	})
	c08 := Get("C08")
	c08.Families = append(c08.Families, core.New(core.Fam[*Case]{
		Name: "uses", Rule: "every prefix of pages, layouts and components that have every form of expression (260) in every place (70); those that end inside a statement must be rejected, the others accepted or rejected; quick: every third; non-trivial: at least 5 prefixes",
		Enum: func(th bool, yield func(func() *Case)) {
			k := 0
			for _, p := range usePlaces() {
				for _, e := range useExprs() {
					if k++; !th && k%3 != 0 {
						continue
					}
					yield(func() *Case {
						files := p.make(e)
						name := "home"
						for _, n := range []string{"layouts/l", "components/c", "aside"} {
							if k++; files[n] != nil && k%4 == 0 {
								name = n
							}
						}
						prog := files[name]
						for i, s := range prog { // without the data that is printed
							if s.K == "text" && s.S == "|" {
								prog = prog[:i+1]
								break
							}
						}
						return &Case{Prog: prog, Layout: [][]byte{nil, {9, 4, 7, 14, 3}, {1, 2, 3, 4, 5, 6, 7}}[k%3]}
					})
				}
			}
		},
		Judge: judgePrefixes,
	}))
	add("C14", core.Fam[*useCase]{
		Rule: "every form of expression (260) in every place of a template (70), loaded three times and rendered several times with 6 sets of data by String and Response: same output or same error; quick: every third; non-trivial: always",
		Enum: useCases("", nil, sets, 3), Judge: use14,
	})
	add("C14", core.Fam[*useCase]{
		Name: "error pages", Rule: "every form of expression (260) in every place of a template (70) asked for through Response with 6 sets of data, beside a page that works and one that does not exist, with no error page, a working, failing or missing one and a layout, debug mode off and on, three times in two processes: same bodies and errors; quick: one in 41; non-trivial: always",
		Enum: useCases("", nil, sets, 41), Judge: use14Page,
	})
	add("C16", core.Fam[*useCase]{
		Rule: "exhaustive: every form of expression (260) in every place of a template (70), rendered by String and Response with data that differ, fail and recur; every render compared with the same one on templates that were loaded for it, and with the reference; non-trivial: more than one call",
		Enum: useCases("", nil, []int{0, 1, 4, 2, 0, 5, 3, 1, 0}, 1), Judge: use16,
	})
	add("C15", core.Fam[*useCase]{
		Rule: "every form of expression (260) in every place of a template (70), rendered by 4 goroutines with different data, one of them lacking names; quick: every fourth; non-trivial: always",
		Enum: useCases("", nil, []int{0, 1, 2, 4}, 4), Judge: use15,
	})
	add("C17", core.Fam[*useCase]{
		Rule: "every form of expression (260) in every place of a template (70), with 6 sets of data: the body of Response is the output of String, the built-in error page, or with debug mode on contains message, path and line; quick: every second; non-trivial: always",
		Enum: useCases("", nil, []int{0, 1, 4, 2, 5, 0}, 2), Judge: use17,
	})
}
