package props

import (
	"fmt"
	"strings"

	"verif/harness/core"
	. "verif/harness/lang"
)

// sz is a program of a kind that grows with n.
type sz struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	At   int    `json:"at,omitempty"`
	V    int    `json:"v,omitempty"`
}

// szKind is how to make the programs of a kind.
type szKind struct {
	name string
	max  int // quick
	more int // thorough
	at   bool
	vs   int
	prog func(c sz) *Case
	site func(c sz) *SiteCase
}

// szNumbers are all small numbers and those around powers of two and ten.
func szNumbers(max int) []int {
	var out []int
	seen := map[int]bool{}
	for n := 1; n <= max && n <= 40; n++ {
		out = append(out, n)
		seen[n] = true
	}
	for _, n := range sizes(1, max) {
		if !seen[n] {
			out = append(out, n)
		}
	}
	return out
}

func szFam(rule string, kinds []szKind) core.Family {
	return szFamBy("sizes", rule, kinds, func(c *Case) core.Verdict {
		ref, d := judgeCase(c, &Interp{Steps: 1 << 20})
		return verdict(d, !ref.Unspec, class(ref))
	})
}

func szFamBy(name, rule string, kinds []szKind, judge func(c *Case) core.Verdict) core.Family {
	by := map[string]szKind{}
	var what []string
	for _, k := range kinds {
		by[k.name] = k
		what = append(what, fmt.Sprintf("%s to %d (thorough %d)", k.name, k.max, k.more))
	}
	return core.New(core.Fam[sz]{
		Name: name,
		Rule: rule + ": " + strings.Join(what, ", ") + "; every number to 40 and those within 2 of powers of two and ten; non-trivial: the reference defines the result",
		Enum: func(th bool, yield func(func() sz)) {
			for ki, k := range kinds {
				max := k.max
				if th {
					max = k.more
				}
				for i, n := range szNumbers(max) {
					ats := []int{0}
					if k.at {
						ats = []int{0, n - 1, n, n / 2}
						if n > 40 {
							ats = append(ats, 31, 32, n-2)
						}
					}
					seen := map[int]bool{}
					for j, at := range ats {
						if seen[at] || at < 0 {
							continue
						}
						seen[at] = true
						for v := 0; v < max1(k.vs); v++ {
							if !th && n > 40 && (i+j+v+ki)%2 != 0 {
								continue
							}
							yield(func() sz { return sz{k.name, n, at, v} })
						}
					}
				}
			}
		},
		Judge: func(c sz) core.Verdict {
			k := by[c.Kind]
			if k.site != nil {
				in := &Interp{Steps: 1 << 20}
				sc := k.site(c)
				ref, d := judgeSite(sc, in)
				return verdict(d, sc.Expect != "" || !ref.Unspec, c.Kind+" "+siteClass(sc, ref))
			}
			v := judge(k.prog(c))
			v.Class = c.Kind + " " + v.Class
			return v
		},
	})
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

// long names differ only in their last letters.
func long(prefix string, n, i int) string { return prefix + strings.Repeat("n", n) + itoa(i) }

func one(b ...*S) *Case { return &Case{Prog: b} }

// repeat makes n expressions or statements.
func exprs(n int, f func(i int) *E) []*E {
	var out []*E
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return out
}

func stmts(n int, f func(i int) *S) []*S {
	var out []*S
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return out
}

func nestE(n int, e *E, f func(i int, e *E) *E) *E {
	for i := 0; i < n; i++ {
		e = f(i, e)
	}
	return e
}

func nestS(n int, b []*S, f func(i int, b []*S) *S) []*S {
	for i := 0; i < n; i++ {
		b = []*S{f(i, b)}
	}
	return b
}

var szC01 = []szKind{
	{name: "operators in a row", max: 1100, more: 5000, vs: 8, prog: func(c sz) *Case {
		ops := [][]string{{"+"}, {"-"}, {"*"}, {"+", "*"}, {"-", "*", "+"}, {"/", "*"}, {"+", "-", "%"}, {"*", "%", "-", "/"}}[c.V]
		leaf := func(i int) *E {
			if c.V%2 == 1 {
				return Int(itoa(i%7 + 1))
			}
			return Var([]string{"a", "b", "d"}[i%3])
		}
		// operators of the same strength group to the left
		e := leaf(0)
		var sum *E
		for i := 1; i <= c.N; i++ {
			op := ops[i%len(ops)]
			if op == "+" || op == "-" {
				if sum == nil {
					sum = e
				} else {
					sum.A[1] = e
				}
				sum, e = Bin(op, sum, nil), leaf(i)
			} else {
				e = Bin(op, e, leaf(i))
			}
		}
		if sum != nil {
			sum.A[1] = e
			e = sum
		}
		return &Case{Prog: []*S{Print(e)}, Data: c01Data(c01Vectors["i"][0])}
	}},
	{name: "operators grouped to the right", max: 300, more: 1100, vs: 4, prog: func(c sz) *Case {
		op := []string{"-", "+", "/", "*"}[c.V]
		return one(Print(nestE(c.N, Int("7"), func(i int, e *E) *E { return Bin(op, Int(itoa(i%5+1)), e) })))
	}},
	{name: "comparisons of sums", max: 300, more: 1100, vs: 3, prog: func(c sz) *Case {
		s := func(n int) *E {
			return nestE(n, Int("1"), func(i int, e *E) *E { return Bin("+", e, Int(itoa(i%3))) })
		}
		return one(Print(Bin([]string{"<", "==", ">="}[c.V], s(c.N), s(c.N/2))))
	}},
	{name: "minus signs", max: 300, more: 2000, vs: 2, prog: func(c sz) *Case {
		return one(Print(Bin("+", []*E{Int("1"), Flt("1.5")}[c.V], nestE(c.N, []*E{Int("5"), Flt("2.5")}[c.V], func(i int, e *E) *E { return Un("-", e) }))))
	}},
	{name: "negations", max: 300, more: 2000, vs: 2, prog: func(c sz) *Case {
		return one(Print(nestE(c.N, Bool(c.V == 0), func(i int, e *E) *E { return Un("!", e) })))
	}},
	{name: "ternaries in the else", max: 300, more: 1100, at: true, vs: 2, prog: func(c sz) *Case {
		return one(Print(nestE(c.N, Int("99"), func(i int, e *E) *E {
			return Tern(Bin("==", Int(itoa(i)), Int(itoa(c.At))), Int(itoa(1000+i)), e)
		})))
	}},
	{name: "ternaries in the middle", max: 200, more: 700, at: true, prog: func(c sz) *Case {
		return one(Print(nestE(c.N, Int("99"), func(i int, e *E) *E {
			return Tern(Bin("!=", Int(itoa(i)), Int(itoa(c.At))), e, Int(itoa(1000+i)))
		})))
	}},
	{name: "brackets around and indexes after", max: 200, more: 1000, prog: func(c sz) *Case {
		e := nestE(c.N, Int("8"), func(i int, e *E) *E { return Arr(Int("0"), e) })
		return one(Print(Bin("*", Int("2"), nestE(c.N, e, func(i int, e *E) *E { return Idx(e, Int("1")) }))))
	}},
	{name: "objects in objects", max: 200, more: 1000, prog: func(c sz) *Case {
		e := nestE(c.N, Int("8"), func(i int, e *E) *E { return Obj([]string{"k"}, e) })
		return one(Print(Bin("-", nestE(c.N, e, func(i int, e *E) *E { return Dot(e, "k") }), Int("1"))))
	}},
	{name: "calls after each other", max: 300, more: 2000, vs: 2, prog: func(c sz) *Case {
		e := nestE(c.N, Un("-", Int("4")), func(i int, e *E) *E { return Call(e, "abs") })
		if c.V == 1 {
			e = nestE(c.N, Str("x"), func(i int, e *E) *E { return Call(e, "trim") })
			return one(Print(Bin("+", Str("a"), e)))
		}
		return one(Print(Bin("%", e, Int("3"))))
	}},
	{name: "elements of an array", max: 5000, more: 70000, at: true, prog: func(c sz) *Case {
		e := Arr(exprs(c.N, func(i int) *E { return Bin("+", Int(itoa(i)), Int("1")) })...)
		return one(Print(Idx(e, Int(itoa(c.At)))), Text(","), Print(Call(e, "len")))
	}},
	{name: "keys of an object", max: 3000, more: 20000, at: true, vs: 2, prog: func(c sz) *Case {
		o := Obj(nil)
		for i := 0; i < c.N; i++ {
			o.N, o.A = append(o.N, long("k", c.V*70, i)), append(o.A, Bin("*", Int(itoa(i)), Int("2")))
		}
		at := c.At
		if at >= c.N {
			at = c.N - 1
		}
		return one(Print(Dot(o, long("k", c.V*70, at))))
	}},
	{name: "letters of a name", max: 70000, more: 70000, prog: func(c sz) *Case {
		a, b := long("v", c.N, 1), long("v", c.N, 2)
		return one(Assign(a, Int("5")), Assign(b, Int("7")), Print(Bin("-", Bin("*", Var(a), Int("2")), Var(b))))
	}},
	{name: "letters of a string", max: 70000, more: 300000, vs: 2, prog: func(c sz) *Case {
		s := strings.Repeat([]string{"x", "é"}[c.V], c.N)
		return one(Print(Bin("+", Str(s+"1"), Str("2"+s))), Text("\n"), Print(Bin("==", Str(s), Str(s+"!"))))
	}},
	{name: "strings that are joined", max: 1100, more: 3000, prog: func(c sz) *Case {
		e := Str("0")
		for i := 1; i <= c.N; i++ {
			e = Bin("+", e, Str(itoa(i)+","))
		}
		return one(Print(e))
	}},
	{name: "digits of a float", max: 280, more: 280, vs: 3, prog: func(c sz) *Case {
		f := []string{"1" + strings.Repeat("0", c.N-1) + ".5", "0." + strings.Repeat("0", c.N-1) + "1", "1." + strings.Repeat("3", c.N)}[c.V]
		return one(Print(Bin("*", Flt(f), Flt("2.0"))), Text(","), Print(Bin(">", Flt(f), Flt("1.0"))))
	}},
	{name: "digits of an integer", max: 30, more: 300, vs: 2, prog: func(c sz) *Case {
		return one(Print(Bin("+", Int(strings.Repeat([]string{"9", "1"}[c.V], c.N)), Int("1"))))
	}},
	{name: "statements in one block", max: 2000, more: 10000, prog: func(c sz) *Case {
		s := &S{K: "code"}
		for i := 0; i < c.N; i++ {
			if i%2 == 0 {
				s.P = append(s.P, Part{N: "v" + itoa(i%5), E: Bin("*", Int(itoa(i)), Int("2"))})
			} else {
				s.P = append(s.P, Part{E: Bin("-", Var("v"+itoa((i-1)%5)), Int("1"))})
			}
		}
		return one(s)
	}},
	{name: "blocks in a row", max: 2000, more: 10000, prog: func(c sz) *Case {
		return one(stmts(c.N, func(i int) *S { return Print(Bin("-", Int(itoa(i)), Bin("*", Int("2"), Int("3")))) })...)
	}},
}

var szC02 = []szKind{
	{name: "@elseif branches", max: 1100, more: 5000, at: true, vs: 6, prog: func(c sz) *Case {
		cond := func(i int) *E {
			switch {
			case i == c.At && c.V == 3:
				return Var("undefinedName")
			case i == c.At:
				return []*E{Bool(true), Var("one"), Bin("==", Int(itoa(i)), Int(itoa(c.At))), nil, Arr(), Str("x")}[c.V]
			case i > c.At:
				return []*E{Bool(true), Var("undefinedName"), Bin("==", Int(itoa(i)), Int(itoa(c.At))), Bool(true), Bin("/", Int("1"), Int("0")), Int("1")}[c.V]
			}
			return []*E{Bool(false), Var("zero"), Bin("==", Int(itoa(i)), Int(itoa(c.At))), Nil(), Flt("0.0"), Str("")}[c.V]
		}
		s := If(cond(0), Text("B0"))
		for i := 1; i < c.N; i++ {
			s.Br = append(s.Br, Branch{E: cond(i), B: []*S{Text("B"), Print(Int(itoa(i)))}})
		}
		if c.V%2 == 0 {
			s.HasElse, s.Else = true, []*S{Text("else")}
		}
		return &Case{Prog: []*S{Text("<"), s, Text(">")}, Data: c02Data}
	}},
	{name: "nested @if", max: 300, more: 1000, at: true, vs: 4, prog: func(c sz) *Case {
		b := nestS(c.N, []*S{Text("in")}, func(i int, b []*S) *S {
			f := i == c.At
			l := func(s string) []*S { return append(append([]*S{Text(s)}, b...), Text("/")) }
			no := []*S{Text("!" + itoa(i))}
			switch c.V {
			case 0:
				return &S{K: "if", X: []*E{Bool(!f)}, B: l("("), HasElse: true, Else: no}
			case 1:
				return &S{K: "if", X: []*E{Bool(f)}, B: no, HasElse: true, Else: l("[")}
			case 2:
				return &S{K: "if", X: []*E{Bool(false)}, B: no, Br: []Branch{{E: Bool(!f), B: l("{")}}}
			}
			return &S{K: "if", X: []*E{Bool(i%2 == 0)}, B: l("e"), HasElse: true, Else: l("o")}
		})
		if c.V == 3 {
			b = nestS(c.N%13+1, []*S{Text("x")}, func(i int, b []*S) *S {
				return &S{K: "if", X: []*E{Bool(i%2 == 0)}, B: b, HasElse: true, Else: append([]*S{Text("o")}, b...)}
			})
		}
		return one(append(b, Text("."))...)
	}},
	{name: "@if in a row", max: 1100, more: 10000, vs: 2, prog: func(c sz) *Case {
		return one(stmts(c.N, func(i int) *S {
			return &S{K: "if", X: []*E{Bool((i+c.V)%3 == 0)}, B: []*S{Text("a")}, Br: []Branch{{E: Bool(i%2 == 0), B: []*S{Text("b")}}}, HasElse: true, Else: []*S{Text("c")}}
		})...)
	}},
	{name: "characters of a branch", max: 70000, more: 300000, vs: 3, prog: func(c sz) *Case {
		b := []*S{Text(strings.Repeat("x", c.N)), Print(Int("1"))}
		return one([]*S{
			{K: "if", X: []*E{Bool(true)}, B: b, HasElse: true, Else: []*S{Text("no")}},
			{K: "if", X: []*E{Bool(false)}, B: b, HasElse: true, Else: []*S{Text("yes")}},
			{K: "if", X: []*E{Bool(false)}, B: b, Br: []Branch{{E: Bool(true), B: b}}, HasElse: true, Else: b},
		}[c.V], Text("."))
	}},
	{name: "characters of a condition", max: 70000, more: 300000, vs: 2, prog: func(c sz) *Case {
		return one(&S{K: "if", X: []*E{Str(strings.Repeat(" ", c.N))}, B: []*S{Text("T")}, HasElse: true, Else: []*S{Text("F")}},
			&S{K: "if", X: []*E{Bin("==", Str(strings.Repeat("x", c.N)), Str(strings.Repeat("x", c.N+c.V)))}, B: []*S{Text("T")}, HasElse: true, Else: []*S{Text("F")}})
	}},
	{name: "ternaries in a row", max: 500, more: 5000, prog: func(c sz) *Case {
		b := []*S{Assign("d", Str("w"))}
		return one(append(b, stmts(c.N, func(i int) *S {
			return Print(Tern(Bool(i%3 == 0), Int(itoa(i)), Var("d")))
		})...)...)
	}},
}

var szC04 = []szKind{
	{name: "variables", max: 3000, more: 20000, at: true, vs: 4, prog: func(c sz) *Case {
		b := stmts(c.N, func(i int) *S { return Assign(long("v", c.V%2*60, i), Int(itoa(i))) })
		at := c.At
		if at >= c.N {
			at = c.N - 1
		}
		n := long("v", c.V%2*60, at)
		if c.V > 1 {
			b = append(b, If(Bool(true), Assign(n, Int("77")), Print(Var(n)), Text(",")))
		}
		return one(append(b, Print(Var(n)), Text(","), Print(Var(long("v", c.V%2*60, 0))), Text(","), Print(Var(long("v", c.V%2*60, c.N-1))), Assign(n, Int("5")), Print(Var(n)))...)
	}},
	{name: "data", max: 3000, more: 20000, at: true, vs: 2, prog: func(c sz) *Case {
		d := Data{}
		for i := 0; i < c.N; i++ {
			d[long("v", c.V*60, i)] = DInt(int64(i))
		}
		at := c.At
		if at >= c.N {
			at = c.N - 1
		}
		n := long("v", c.V*60, at)
		return &Case{Prog: []*S{Print(Var(n)), Assign(n, Int("5")), Print(Var(n)), If(Bool(true), Assign(n, Int("6"))), Print(Var(n)), Assign("loop2", Str("x")), Print(Var("loop2"))}, Data: d}
	}},
	{name: "scopes in each other", max: 300, more: 1000, at: true, vs: 6, prog: func(c sz) *Case {
		b := []*S{Print(Var("x")), Assign("x", Int("50")), Print(Var("x"))}
		b = nestS(c.N, b, func(i int, b []*S) *S {
			n := c.N - i
			var pre []*S
			if n == c.At {
				pre = []*S{[]*S{Assign("x", Int("9")), Assign("y", Int("9")), Assign("x", Str("retyped")), Assign("x", Bin("+", Var("x"), Int("1"))), Print(Var("x")), Assign("x", Int("9"))}[c.V]}
			}
			b = append(append(pre, b...), Text(","), Print(Var("x")))
			if c.V%2 == 0 {
				return If(Bool(true), b...)
			}
			if i%3 == 0 {
				return Each("i"+itoa(i), Arr(Int("1")), b...)
			}
			return If(Bool(true), b...)
		})
		return one(append(append([]*S{Assign("x", Int("1"))}, b...), Text(";"), Print(Var("x")))...)
	}},
	{name: "assignments to one name", max: 3000, more: 30000, vs: 2, prog: func(c sz) *Case {
		b := []*S{Assign("x", Int("0"))}
		b = append(b, stmts(c.N, func(i int) *S {
			if c.V == 1 && i%5 == 0 {
				return If(Bool(true), Assign("x", Bin("+", Var("x"), Int("100"))), Print(Var("x")))
			}
			return Assign("x", Bin("+", Var("x"), Int("1")))
		})...)
		return one(append(b, Print(Var("x")))...)
	}},
	{name: "letters of a name", max: 70000, more: 70000, vs: 3, prog: func(c sz) *Case {
		a, b := long("v", c.N, 1), long("v", c.N, 2)
		if c.V == 1 {
			a, b = "a"+strings.Repeat("n", c.N), "b"+strings.Repeat("n", c.N)
		}
		if c.V == 2 {
			a, b = strings.Repeat("n", c.N), strings.Repeat("n", c.N+1)
		}
		return &Case{Prog: []*S{Assign(a, Int("1")), Assign(b, Str("s")), If(Bool(true), Assign(a, Int("3"))), Print(Var(a)), Print(Var(b)), Each(b, Arr(Str("t")), Print(Var(b)), Print(Var(a))), Print(Var(b))}}
	}},
	{name: "passes that assign", max: 5000, more: 70000, vs: 2, prog: func(c sz) *Case {
		return one(Assign("x", Int("0")), forStmt("i", 0, "<", c.N, inc("i"), Assign("x", Bin("+", Var("x"), Int("1"))), If(Bin(">=", Var("i"), Int(itoa(c.N-2))), Print(Var("x")), Text(","))), Print(Var("x")))
	}},
}

func pageWith(layout []*S, page ...*S) *SiteCase {
	return &SiteCase{Files: map[string][]*S{"layouts/main": layout, "home": append([]*S{{K: "use", S: "~main"}}, page...)}, Page: "home", Data: c06Data}
}

func reserve(n string) *S { return &S{K: "reserve", S: n} }

func insert(n string, b ...*S) *S { return &S{K: "insert", S: n, B: b} }

var szC06 = []szKind{
	{name: "reserves and inserts", max: 520, more: 3000, at: true, vs: 8, site: func(c sz) *SiteCase {
		name := func(i int) string {
			return []string{"r" + itoa(i), long("r", 70, i), itoa(i) + strings.Repeat("s", 200), " " + itoa(i)}[c.V%4]
		}
		var l, p []*S
		for i := 0; i < c.N; i++ {
			l = append(l, reserve(name(i)), Text(","))
		}
		for i := 0; i < c.N; i++ {
			k := i
			if c.V >= 4 {
				k = c.N - 1 - i
			}
			switch {
			case k == c.At: // not given
			case k%3 == 0:
				p = append(p, &S{K: "insert", S: name(k), X: []*E{Int(itoa(k))}})
			default:
				p = append(p, insert(name(k), Text("i"), Print(Int(itoa(k)))))
			}
		}
		return pageWith(l, p...)
	}},
	{name: "inserts with one too many", max: 300, more: 2000, at: true, vs: 3, site: func(c sz) *SiteCase {
		var l, p []*S
		for i := 0; i < c.N; i++ {
			l = append(l, reserve("r"+itoa(i)))
			p = append(p, insert("r"+itoa(i), Text("x")))
		}
		at := c.At
		if at >= c.N {
			at = c.N - 1
		}
		bad := []string{"r" + itoa(at), "q" + itoa(at), "r" + itoa(c.N)}[c.V]
		sc := pageWith(l, append(p, insert(bad, Text("y")))...)
		sc.Expect, sc.Names = "load", []string{bad}
		return sc
	}},
	{name: "letters of the name", max: 70000, more: 70000, vs: 3, site: func(c sz) *SiteCase {
		n := strings.Repeat("n", c.N)
		a, b := n+"1", n+"2"
		if c.V == 1 {
			a, b = n, n+"n"
		}
		if c.V == 2 {
			sc := pageWith([]*S{reserve(a)}, insert(b, Text("x")))
			sc.Expect = "load"
			return sc
		}
		return pageWith([]*S{Text("<"), reserve(a), Text("|"), reserve(b), Text(">")}, insert(b, Text("B")), insert(a, Text("A")))
	}},
	{name: "characters of an insert", max: 70000, more: 300000, vs: 3, site: func(c sz) *SiteCase {
		s := strings.Repeat("x", c.N)
		ins := []*S{insert("a", Text(s), Print(Var("n"))), {K: "insert", S: "a", X: []*E{Str(s)}}, insert("a", Text(strings.Repeat("y\n", c.N)), Print(Var("n")))}[c.V]
		return pageWith([]*S{Text("<"), reserve("a"), Text(s + ">"), reserve("b")}, ins, insert("b", Text("B")))
	}},
	{name: "statements of an insert", max: 2000, more: 10000, site: func(c sz) *SiteCase {
		return pageWith([]*S{Text("<"), reserve("a"), Text(">")}, insert("a", stmts(c.N, func(i int) *S { return Print(Int(itoa(i))) })...))
	}},
	{name: "blocks around a reserve", max: 200, more: 1000, vs: 3, site: func(c sz) *SiteCase {
		l := nestS(c.N, []*S{Text("("), reserve("a"), Text(")")}, func(i int, b []*S) *S {
			switch (i + c.V) % 3 {
			case 0:
				return If(Bool(true), b...)
			case 1:
				return Each("e"+itoa(i), Arr(Int("1")), b...)
			}
			return &S{K: "if", X: []*E{Bool(false)}, HasElse: true, Else: b}
		})
		return pageWith(append(l, reserve("b")), insert("a", Print(Var("n"))), insert("b", Text("B")))
	}},
	{name: "blocks in an insert", max: 200, more: 1000, site: func(c sz) *SiteCase {
		return pageWith([]*S{reserve("a")}, insert("a", nestS(c.N, []*S{Print(Var("n"))}, func(i int, b []*S) *S { return If(Bool(true), append(b, Text("."))...) })...))
	}},
	{name: "passes over a reserve", max: 1100, more: 20000, site: func(c sz) *SiteCase {
		return pageWith([]*S{forStmt("i", 0, "<", c.N, inc("i"), reserve("a")), reserve("b")}, insert("a", Print(Var("n"))), insert("b", Text("B")))
	}},
	{name: "pages on one layout", max: 260, more: 2000, at: true, vs: 2, site: func(c sz) *SiteCase {
		sc := pageWith([]*S{Text("<"), reserve("a"), Text("|"), reserve("b"), Text(">")}, insert("a", Text("home")))
		for i := 0; i < c.N; i++ {
			p := []*S{{K: "use", S: "~main"}, insert("a", Print(Int(itoa(i))))}
			if i%2 == 0 {
				p = append(p, insert("b", Text("b")))
			}
			sc.Files["p"+itoa(i)] = p
		}
		if c.At < c.N && c.V == 0 {
			sc.Page = "p" + itoa(c.At)
		}
		return sc
	}},
	{name: "layouts", max: 130, more: 1000, at: true, site: func(c sz) *SiteCase {
		sc := pageWith([]*S{Text("main"), reserve("a")}, insert("a", Text("home")))
		for i := 0; i < c.N; i++ {
			sc.Files["layouts/l"+itoa(i)] = []*S{Text("l" + itoa(i)), reserve("a")}
			sc.Files["p"+itoa(i)] = []*S{{K: "use", S: "~l" + itoa(i)}, insert("a", Print(Int(itoa(i))))}
		}
		if c.At < c.N {
			sc.Page = "p" + itoa(c.At)
		}
		return sc
	}},
	{name: "text around the inserts", max: 1100, more: 10000, site: func(c sz) *SiteCase {
		var p []*S
		for i := 0; i < c.N; i++ {
			p = append(p, Text("out"), Print(Int("1")), Comment("c"))
		}
		sc := pageWith([]*S{Text("<"), reserve("a"), Text(">")}, append(append([]*S{}, p...), append([]*S{insert("a", Text("A"))}, p...)...)...)
		return sc
	}},
}

var szC07 = []szKind{
	{name: "uses of one component", max: 520, more: 3000, vs: 3, site: func(c sz) *SiteCase {
		b := stmts(c.N, func(i int) *S {
			var br []Branch
			if (i+c.V)%3 != 0 {
				br = append(br, Branch{Name: "h", B: []*S{Text("h" + itoa(i))}})
			}
			if (i+c.V)%2 == 0 {
				br = append(br, Branch{B: []*S{Print(Var("outer"))}})
			}
			return use("~card", Obj([]string{"k"}, Int(itoa(i))), br...)
		})
		return &SiteCase{Files: map[string][]*S{"home": b, "components/card": {Text("["), Print(Var("k")), slot("h"), Text("|"), slot(""), Text("]")}}, Page: "home", Data: c07Data}
	}},
	{name: "components", max: 260, more: 2000, vs: 2, site: func(c sz) *SiteCase {
		f := map[string][]*S{}
		b := stmts(c.N, func(i int) *S {
			n := long("c", c.V*100, i)
			f["components/"+n] = []*S{Text(itoa(i) + "("), slot(""), Print(Var("k")), Text(")")}
			return use("~"+n, Obj([]string{"k"}, Int(itoa(i))), Branch{B: []*S{Text("s" + itoa(i))}})
		})
		f["home"] = b
		return &SiteCase{Files: f, Page: "home", Data: c07Data}
	}},
	{name: "slots", max: 520, more: 3000, at: true, vs: 4, site: func(c sz) *SiteCase {
		name := func(i int) string {
			return []string{"s" + itoa(i), long("s", 70, i), " " + itoa(i), itoa(i) + strings.Repeat("é", 90)}[c.V]
		}
		var comp []*S
		var br []Branch
		for i := 0; i < c.N; i++ {
			comp = append(comp, slot(name(i)), Text(","))
			if i != c.At {
				br = append([]Branch{{Name: name(i), B: []*S{Text("b"), Print(Int(itoa(i)))}}}, br...)
			}
		}
		return &SiteCase{Files: map[string][]*S{"home": {use("~card", nil, br...), Text("."), use("~card", nil), use("~card", nil, br...)}, "components/card": comp}, Page: "home", Data: c07Data}
	}},
	{name: "slots with one too many", max: 300, more: 2000, at: true, vs: 3, site: func(c sz) *SiteCase {
		var comp []*S
		var br []Branch
		for i := 0; i < c.N; i++ {
			comp = append(comp, slot("s"+itoa(i)))
			br = append(br, Branch{Name: "s" + itoa(i), B: []*S{Text("b")}})
		}
		at := c.At
		if at >= c.N {
			at = c.N - 1
		}
		bad := []string{"s" + itoa(at), "S" + itoa(at), "s" + itoa(c.N)}[c.V]
		br = append(br, Branch{Name: bad, B: []*S{Text("x")}})
		return &SiteCase{Files: map[string][]*S{"home": {use("~card", nil, br...)}, "components/card": comp}, Page: "home", Data: c07Data, Expect: "load", Names: []string{"card", bad}}
	}},
	{name: "arguments", max: 1100, more: 10000, at: true, vs: 2, site: func(c sz) *SiteCase {
		o := Obj(nil)
		for i := 0; i < c.N; i++ {
			o.N, o.A = append(o.N, long("k", 70*c.V, i)), append(o.A, Int(itoa(i)))
		}
		at := c.At
		if at >= c.N {
			at = c.N - 1
		}
		return &SiteCase{Files: map[string][]*S{"home": {use("~card", o)}, "components/card": {Print(Var(long("k", 70*c.V, at))), Text(","), Print(Var(long("k", 70*c.V, 0))), Print(Var("outer"))}}, Page: "home", Data: c07Data}
	}},
	{name: "components in slots of each other", max: 60, more: 200, vs: 3, site: func(c sz) *SiteCase {
		f := map[string][]*S{"components/card": {Text("<"), Print(Var("k")), slot(""), Text(">")}, "components/box": {Text("{"), slot("h"), Print(Var("k")), Text("}")}}
		b := nestS(c.N, []*S{Text("in"), Print(Var("k"))}, func(i int, b []*S) *S {
			switch {
			case c.V == 1 && i%2 == 0, c.V == 2:
				return use("~box", Obj([]string{"k"}, Int(itoa(i))), Branch{Name: "h", B: append([]*S{Text("a")}, b...)})
			}
			return use("~card", Obj([]string{"k"}, Int(itoa(i))), Branch{B: append([]*S{Text("a")}, b...)})
		})
		f["home"] = b
		return &SiteCase{Files: f, Page: "home", Data: c07Data}
	}},
	{name: "passes over a component", max: 1100, more: 10000, vs: 2, site: func(c sz) *SiteCase {
		f := map[string][]*S{"components/card": {Print(Var("k")), Assign("own", Bin("+", Var("k"), Int("1"))), Print(Var("own")), slot(""), Text(",")}}
		u := use("~card", Obj([]string{"k"}, Bin("*", Var("i"), Int("2"))), Branch{B: []*S{Text("s"), Print(Var("k"))}})
		f["home"] = []*S{forStmt("i", 0, "<", c.N, inc("i"), u), Text(".")}
		if c.V == 1 {
			f["home"] = append([]*S{u, Text(".")}, f["home"]...)
			f["home"][0] = Assign("i", Int("5"))
		}
		return &SiteCase{Files: f, Page: "home", Data: c07Data}
	}},
	{name: "characters of a slot", max: 70000, more: 300000, vs: 2, site: func(c sz) *SiteCase {
		s := strings.Repeat([]string{"x", "y\n"}[c.V], c.N)
		return &SiteCase{Files: map[string][]*S{"home": {use("~card", Obj([]string{"k"}, Str(s)), Branch{B: []*S{Text(s), Print(Int("1"))}}), Text("end")}, "components/card": {Text("<"), slot(""), Text("|" + s), slot("b"), Print(Var("k")), Text(">")}}, Page: "home", Data: c07Data}
	}},
	{name: "statements of a component", max: 1100, more: 10000, vs: 2, site: func(c sz) *SiteCase {
		b := stmts(c.N, func(i int) *S { return Print(Bin("+", Var("k"), Int(itoa(i)))) })
		return &SiteCase{Files: map[string][]*S{"home": {use("~card", Obj([]string{"k"}, Int("1")), Branch{B: append(b, Text("."))})}, "components/card": append(b, slot(""), Text("end"))}, Page: "home", Data: c07Data}
	}},
	{name: "blocks around a slot or use", max: 150, more: 700, vs: 4, site: func(c sz) *SiteCase {
		wrap := func(b []*S) []*S {
			return nestS(c.N, b, func(i int, b []*S) *S {
				if (i+c.V)%3 == 0 {
					return Each("e"+itoa(i), Arr(Int("1")), b...)
				}
				return If(Bool(true), b...)
			})
		}
		comp := []*S{Text("<"), slot("h"), Text(">")}
		page := []*S{use("~card", nil, Branch{Name: "h", B: []*S{Text("H")}})}
		if c.V%2 == 0 {
			comp = wrap(comp)
		} else {
			page = wrap(page)
		}
		return &SiteCase{Files: map[string][]*S{"home": page, "components/card": comp}, Page: "home", Data: c07Data}
	}},
	{name: "letters of a component's name", max: 240, more: 240, vs: 2, site: func(c sz) *SiteCase {
		n := strings.Repeat("n", c.N)
		if c.V == 1 {
			n = strings.Repeat("d/", c.N) + "c"
		}
		return &SiteCase{Files: map[string][]*S{"home": {use("~"+n, nil), use("~"+n+"2", nil)}, "components/" + n: {Text("one")}, "components/" + n + "2": {Text("two")}}, Page: "home"}
	}},
}

func init() {
	add := func(id string, f ...core.Family) {
		p := Get(id)
		p.Families = append(p.Families, f...)
	}
	add("C01", szFam("expressions that grow", szC01))
	add("C02", szFam("conditions that grow", szC02))
	add("C04", szFam("scopes that grow", szC04))
	add("C06", szFam("layouts that grow", szC06))
	add("C07", szFam("components that grow", szC07))
}
