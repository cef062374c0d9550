package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// c09Vals are values of every kind.
var c09Vals = []*D{
	DNil(), DBool(true), DBool(false), DInt(0), DInt(1), DInt(-1), DInt(2), DInt(64), DInt(9223372036854775807), DInt(-9223372036854775808), DInt(1 << 40), DInt(-3),
	DFloat(0), DFloat(1.5), DFloat(-0.5), DFloat(1e300), DStr(""), DStr("a"), DStr("éa日"), DStr("-12"), DStr("a b"), DStr("\xff"), DStr("Name"),
	DArr(), DArr(*DInt(1)), DArr(*DNil(), *DStr("x"), *DFloat(2.5), *DBool(false)), DArr(*DArr(), *DArr(*DInt(1))), DArr(*DStr("a"), *DStr("b"), *DStr("a")),
	DObj(map[string]*D{}), DObj(map[string]*D{"a": DInt(1)}), DObj(map[string]*D{"": DStr("empty"), "Name": DArr(*DInt(7))}), DObj(map[string]*D{"a": DObj(map[string]*D{"a": DNil()})}),
}

// checkErr09 checks the error of a render.
func checkErr09(err error, maxLine int, dataFault bool) string {
	if err == nil {
		return ""
	}
	e, ok := parseErr(err)
	if !ok {
		return fmt.Sprintf("%q is no Textwire error", err)
	}
	if dataFault && e.Line == 0 {
		return ""
	}
	if e.Line < 1 || e.Line > maxLine {
		return fmt.Sprintf("the error %q carries line %d of %d", err, e.Line, maxLine)
	}
	if strings.TrimSpace(e.Msg) == "" || strings.Contains(e.Msg, "%!") {
		return fmt.Sprintf("the error %q has a bad message", err)
	}
	return ""
}

func judge09(c *Case) core.Verdict {
	in := &Interp{Steps: 3000}
	ref := in.Eval(c.Prog, c.Data)
	if ref.Endless || ref.Unspec && hasWildFor(c.Prog) {
		return core.OK(false, "endless")
	}
	src := c.Source()
	out, err := textwire.EvaluateString(src, c.Data.Native())
	if d := diff(src, ref, out, err); d != "" {
		return core.Failf("%s\ndata: %v", d, c.Data.Native())
	}
	if err != nil && out != "" {
		return core.Failf("output %q and error %q\nsource: %q", out, err, src)
	}
	if d := checkErr09(err, strings.Count(src, "\n")+1, c.Data["loop"] != nil); d != "" {
		return core.Failf("%s\nsource: %q", d, src)
	}
	return core.OK(ref.Err || ref.Unspec || len(c.Prog) > 2, class(ref))
}

// hasWildFor tells whether there is a loop without the plain bounded header.
func hasWildFor(prog []*S) bool {
	found := false
	Walk(prog, func(s *S) {
		if s.K == "for" && !strings.HasPrefix(s.S, "safe") {
			found = true
		}
	}, nil)
	return found
}

var c09Contexts = []func(b []*S) []*S{
	func(b []*S) []*S { return b },
	func(b []*S) []*S { return []*S{Text("x\n"), If(Bool(true), b...), Text("\ny")} },
	func(b []*S) []*S { return []*S{Each("q", Arr(Int("1"), Int("2")), b...)} },
	func(b []*S) []*S {
		return []*S{Text("\n\n"), {K: "for", Init: &Part{N: "q", E: Int("0")}, Cond: Bin("<", Var("q"), Int("2")), Post: inc("q"), B: b}}
	},
	func(b []*S) []*S {
		return []*S{Each("q", Arr(Int("1")), If(Bool(false), Text("no")), If(Var("q"), b...)), Text("z")}
	},
}

// c09Forms are constructs with one or two operands.
func c09Forms() []func(x, y *E) []*S {
	var out []func(x, y *E) []*S
	one := func(f func(x *E) []*S) { out = append(out, func(x, y *E) []*S { return f(x) }) }
	one(func(x *E) []*S { return []*S{Print(x)} })
	for _, op := range []string{"-", "!"} {
		one(func(x *E) []*S { return []*S{Print(Un(op, x))} })
		one(func(x *E) []*S { return []*S{Print(Un(op, Un(op, x)))} })
	}
	for _, op := range []string{"++", "--"} {
		one(func(x *E) []*S { return []*S{Print(Post(op, x))} })
		one(func(x *E) []*S { return []*S{Print(Post(op, Post(op, x)))} })
	}
	for _, p := range []string{"a", "name", "Name", "missing", "len", "_", "A"} {
		one(func(x *E) []*S { return []*S{Print(Dot(x, p))} })
		one(func(x *E) []*S { return []*S{Print(Dot(Dot(x, p), p))} })
		one(func(x *E) []*S { return []*S{Print(Call(x, p))} })
		one(func(x *E) []*S { return []*S{Print(Call(Dot(x, p), "len"))} })
	}
	for _, i := range []string{"0", "1", "9223372036854775807", "100"} {
		one(func(x *E) []*S { return []*S{Print(Idx(x, Int(i)))} })
		one(func(x *E) []*S { return []*S{Print(Idx(x, Un("-", Int(i))))} })
		one(func(x *E) []*S { return []*S{Print(Idx(Idx(x, Int(i)), Int("0")))} })
	}
	for _, k := range []string{"", "a", "é", "name", " ", "日", "\xff", "&"} {
		one(func(x *E) []*S { return []*S{Print(Idx(x, Str(k)))} })
	}
	one(func(x *E) []*S { return []*S{{K: "dump", X: []*E{x}}} })
	one(func(x *E) []*S { return []*S{{K: "dump", X: []*E{x, Arr(x, x), Obj([]string{"k"}, x)}}} })
	one(func(x *E) []*S { return []*S{If(x, Text("t")), Text(".")} })
	one(func(x *E) []*S {
		return []*S{{K: "if", X: []*E{Bool(false)}, Br: []Branch{{E: x, B: []*S{Text("t")}}}}}
	})
	one(func(x *E) []*S { return []*S{Print(Tern(x, Int("1"), Int("2")))} })
	one(func(x *E) []*S {
		return []*S{{K: "each", S: "v", X: []*E{x}, B: []*S{Print(Var("v"))}, HasElse: true, Else: []*S{Text("e")}}}
	})
	one(func(x *E) []*S { return []*S{Each("v", x, Print(Dot(Var("v"), "a")))} })
	one(func(x *E) []*S { return []*S{Each("v", Arr(x, x), Print(Un("-", Var("v"))))} })
	one(func(x *E) []*S { return []*S{Each("v", Arr(Int("1")), &S{K: "breakif", X: []*E{x}}, Text("b"))} })
	one(func(x *E) []*S { return []*S{Each("v", Arr(Int("1")), &S{K: "contif", X: []*E{x}}, Text("b"))} })
	one(func(x *E) []*S { return []*S{Assign("k", x), Print(Var("k"))} })
	one(func(x *E) []*S { return []*S{Assign("loop", x)} })
	one(func(x *E) []*S { return []*S{Each("loop", x, Text("l"))} })
	one(func(x *E) []*S { return []*S{Each("v", Arr(Int("1")), Print(Bin("+", Dot(Var("loop"), "index"), x)))} })
	one(func(x *E) []*S { return []*S{Each("v", Arr(Int("1")), Print(Idx(Var("loop"), x)))} })
	br := &S{K: "break"}
	for m := 0; m < 8; m++ {
		one(func(x *E) []*S {
			s := &S{K: "for", B: []*S{Text("f"), br}, HasElse: m%2 == 0, Else: []*S{Text("e")}}
			if m&1 != 0 {
				s.Init = &Part{N: "i", E: x}
			}
			if m&2 != 0 {
				s.Cond = x
			}
			if m&4 != 0 {
				s.Post = &Part{E: x}
			}
			if s.Cond == nil {
				s.Else = nil
			}
			return []*S{s}
		})
	}
	one(func(x *E) []*S { // the post clause runs
		return []*S{{K: "for", S: "", Init: &Part{N: "i", E: Int("0")}, Cond: Bin("<", Var("i"), Int("2")), Post: &Part{N: "i", E: x}, B: []*S{Text("p")}}}
	})
	one(func(x *E) []*S {
		return []*S{{K: "for", Init: &Part{N: "i", E: x}, Cond: Bin("<", Var("i"), Int("2")), Post: inc("i"), B: []*S{Text("p")}}}
	})
	one(func(x *E) []*S {
		return []*S{{K: "for", Init: &Part{N: "i", E: x}, Cond: Bin("==", Var("i"), x), Post: &Part{E: Post("--", Var("i"))}, B: []*S{Print(Var("i")), br}}}
	})
	one(func(x *E) []*S { // a clause that is no assignment
		return []*S{{K: "for", Init: &Part{E: x}, Cond: Bool(false), B: []*S{Text("p")}}}
	})
	one(func(x *E) []*S { return []*S{Print(Obj([]string{"a", "b"}, x, x))} })
	for _, op := range Ops {
		out = append(out, func(x, y *E) []*S { return []*S{Print(Bin(op, x, y))} })
		out = append(out, func(x, y *E) []*S { return []*S{Print(Bin(op, Bin(op, x, y), x))} })
	}
	out = append(out,
		func(x, y *E) []*S { return []*S{Print(Idx(x, y))} },
		func(x, y *E) []*S { return []*S{Print(Idx(Arr(x, y), x))} },
		func(x, y *E) []*S { return []*S{Print(Idx(Obj([]string{"a", ""}, x, y), y))} },
		func(x, y *E) []*S { return []*S{Assign("k", x), Assign("k", y), Print(Var("k"))} },
		func(x, y *E) []*S { return []*S{Assign("k", x), Each("k", Arr(y), Print(Var("k")))} },
		func(x, y *E) []*S { return []*S{Each("v", Arr(x, y), Print(Var("v")))} },
		func(x, y *E) []*S { return []*S{Print(Tern(x, y, x))} },
		func(x, y *E) []*S { return []*S{Print(Call(Arr(x), "contains", y))} },
	)
	return out
}

func c09Enum(th bool, yield func(func() *Case)) {
	forms := c09Forms()
	turn := 0
	for fi, f := range forms {
		for i, x := range c09Vals {
			for j, y := range c09Vals {
				if fi < len(forms)-30 && j > 0 {
					break // one operand
				}
				for ci, ctx := range c09Contexts {
					if !th && ci != turn%len(c09Contexts) {
						continue
					}
					t := turn
					yield(func() *Case {
						c := &Case{Data: Data{"x": x, "y": y}}
						ex, ey := Var("x"), Var("y")
						if l := literal(x); t%3 == 1 && l != nil && !(l.K == "str" && !quotable(l.S)) {
							ex = l
						}
						c.Prog = ctx(f(ex, ey))
						if t%4 == 3 {
							c.Layout = []byte{byte(t >> 2), byte(t >> 5), 9, 4, byte(i * j)}
						}
						return c
					})
				}
				turn++
			}
		}
	}
}

// c09Args are argument lists.
func c09Args(vals []*D, few []*D, f func(args []*D)) {
	f(nil)
	for _, a := range vals {
		f([]*D{a})
	}
	for _, a := range few {
		for _, b := range few {
			f([]*D{a, b})
		}
	}
	for _, a := range few[:5] {
		f([]*D{a, a, a})
		f([]*D{a, few[1], few[2], few[3]})
	}
}

func allBuiltins() []string {
	seen := map[string]bool{}
	var out []string
	for _, k := range []byte{KStr, KArr, KInt, KFloat, KBool} {
		for _, n := range Builtins[k] {
			if !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	return append(out, "nope", "Len", "_", "toString")
}

func callCase(recv *D, name string, args []*D, turn int) *Case {
	c := &Case{Data: Data{"r": recv}}
	var ea []*E
	for i, a := range args {
		c.Data["a"+itoa(i)] = a
		ea = append(ea, Var("a"+itoa(i)))
	}
	c.Prog = []*S{Print(Call(Var("r"), name, ea...))}
	return c
}

// c09Fit are arguments for every kind of parameter.
var c09Fit = map[rune][]*E{
	'i': {Int("0"), Int("1"), Int("3"), Un("-", Int("1")), Int("9223372036854775807")},
	's': {Str(""), Str("a"), Str("b, ")},
	'a': {Arr(), Arr(Int("1"))},
	'b': {Bool(true), Bool(false)},
	'v': {Int("1"), Nil(), Str("é"), Arr(Int("2"), Arr())},
}

// c09Fitting yields the calls of the built-in functions of a kind of receiver.
func c09Fitting(kind byte, all bool, f func(name string, res byte, args []*E)) {
	for _, name := range Builtins[kind] {
		params, res, _ := strings.Cut(c11Sig[string(kind)+name], ">")
		f(name, res[0], nil)
		lists := [][]*E{nil}
		for _, p := range params {
			var next [][]*E
			for _, l := range lists {
				vals := c09Fit[p]
				if !all && len(l) > 0 {
					vals = vals[:1]
				}
				for _, a := range vals {
					next = append(next, append(append([]*E{}, l...), a))
				}
			}
			lists = next
			for _, l := range lists {
				f(name, res[0], l)
			}
		}
	}
}

func c09Chains(th bool, yield func(func() *Case)) {
	kinds := map[byte][]*E{
		KStr: {Str("ab a"), Str(""), Str("é日")}, KArr: {Arr(Int("1"), Str("a"), Nil()), Arr(), Arr(Int("1"), Int("2"), Int("3"), Int("4"), Int("5")), Var("d")},
		KInt: {Int("0"), Int("12")}, KFloat: {Flt("1.5"), Flt("-0.25")}, KBool: {Bool(true), Bool(false)},
	}
	kinds[KFloat][1] = Un("-", Flt("0.25"))
	data := Data{"d": DArr(*DInt(4), *DArr(), *DStr("x"), *DNil()), "n": DInt(2)}
	emit := func(prog ...*S) { yield(func() *Case { return &Case{Prog: prog, Data: data} }) }
	for _, k := range []byte{KStr, KArr, KInt, KFloat, KBool} {
		for _, r := range kinds[k] {
			c09Fitting(k, true, func(name string, res byte, args []*E) {
				first := Call(r, name, args...)
				if r.K == "un" {
					first = Call(Bin("+", r, Flt("0.0")), name, args...)
				}
				emit(Print(first), Print(Idx(first, Int("0"))), Print(Idx(first, Int("2"))))
				emit(Print(Dot(first, "a")))
				emit(Each("v", first, Print(Call(Var("v"), "len"))), Print(Un("-", first)))
				emit(Assign("x", first), Each("v", Var("x"), Print(Var("v")), Text(";")), Print(Var("d")))
				second := []byte{KStr, KArr, KInt, KFloat, KBool}
				if res != 'v' {
					second = []byte{res}
					switch res {
					case 'i':
						second[0] = KInt
					case 'f':
						second[0] = KFloat
					case 's':
						second[0] = KStr
					case 'a':
						second[0] = KArr
					case 'b':
						second[0] = KBool
					}
				}
				for _, k2 := range second {
					c09Fitting(k2, th || k2 == KArr, func(name2 string, _ byte, args2 []*E) {
						e := Call(first, name2, args2...)
						if name2 == "rand" || name2 == "shuffle" {
							e = Call(Arr(e), "len")
						}
						emit(Print(e))
						emit(Assign("x", first), Assign("y", Call(Var("x"), name2, args2...)), Print(Idx(Arr(Var("x"), Call(Arr(Var("y")), "len")), Int("1"))), Print(Call(Var("x"), name, args...)))
					})
				}
			})
		}
	}
}

// wild draws templates without a type discipline.
type wild struct {
	*gen.G
	vars  []string
	loops int
	left  int
}

var wildInts = []string{"0", "1", "2", "3", "7", "9223372036854775807", "1099511627776"}

func (w *wild) lit() *E {
	switch w.N(9) {
	case 0, 1:
		return Int(gen.Pick(w.G, wildInts))
	case 2:
		return Un("-", Int(gen.Pick(w.G, wildInts)))
	case 3:
		return Flt(gen.Pick(w.G, []string{"0.0", "1.5", "2.25", "1000000.5"}))
	case 4, 5:
		return Str(gen.Pick(w.G, []string{"", "a", "é日", "a b", "12", "Name"}))
	case 6:
		return Bool(w.N(2) == 0)
	case 7:
		return Nil()
	}
	return Arr()
}

func (w *wild) expr(d int) *E {
	if d <= 0 || w.N(5) == 0 {
		if len(w.vars) > 0 && w.N(5) > 1 {
			return Var(gen.Pick(w.G, w.vars))
		}
		if w.N(12) == 11 {
			return Var(gen.Pick(w.G, []string{"undefined", "loop", "x"}))
		}
		return w.lit()
	}
	d--
	switch w.N(12) {
	case 0:
		return Un(gen.Pick(w.G, []string{"-", "!"}), w.expr(d))
	case 1:
		return Post(gen.Pick(w.G, []string{"++", "--"}), w.expr(d))
	case 2, 3:
		return Bin(gen.Pick(w.G, Ops), w.expr(d), w.expr(d))
	case 4:
		return Tern(w.expr(d), w.expr(d), w.expr(d))
	case 5:
		return Idx(w.expr(d), w.expr(d))
	case 6, 7:
		return Dot(w.expr(d), gen.Pick(w.G, []string{"a", "b", "name", "Name", "index", "last"}))
	case 8, 9:
		e := Call(w.expr(d), gen.Pick(w.G, allBuiltins()))
		for i, n := 0, w.N(4); i < n; i++ {
			e.A = append(e.A, w.expr(d))
		}
		return e
	case 10:
		e := Arr()
		for i, n := 0, w.N(4); i < n; i++ {
			e.A = append(e.A, w.expr(d))
		}
		return e
	}
	e := Obj(nil)
	for i, n := 0, w.N(3); i < n; i++ {
		e.N = append(e.N, []string{"a", "Name", "b c"}[i])
		e.A = append(e.A, w.expr(d))
	}
	return e
}

func (w *wild) part() *Part {
	if w.N(3) == 2 {
		n := gen.Pick(w.G, []string{"x", "y", "z", "loop", "v"})
		if n == "loop" && w.N(4) > 0 {
			n = "z"
		}
		if len(w.vars) < 12 {
			w.vars = append(w.vars, n)
		}
		return &Part{N: n, E: w.expr(2)}
	}
	return &Part{E: w.expr(3)}
}

func (w *wild) block(d int) []*S {
	var out []*S
	for i, n := 0, w.N(4); i < n && w.left > 0; i++ {
		w.left--
		out = append(out, w.stmt(d))
	}
	return out
}

func (w *wild) stmt(d int) *S {
	n := 10
	if d <= 0 {
		n = 5
	}
	switch w.N(n) {
	case 0, 1:
		s := &S{K: "code"}
		for i, n := 0, 1+w.N(2); i < n; i++ {
			s.P = append(s.P, *w.part())
		}
		return s
	case 2:
		return gen.Pick(w.G, []*S{Text("t"), Text("\n"), Comment("\n")})
	case 3:
		s := &S{K: "dump"}
		for i, n := 0, 1+w.N(2); i < n; i++ {
			s.X = append(s.X, w.expr(2))
		}
		return s
	case 4:
		if w.loops == 0 {
			return Print(w.expr(3))
		}
		switch w.N(4) {
		case 0:
			return &S{K: "break"}
		case 1:
			return &S{K: "cont"}
		case 2:
			return &S{K: "breakif", X: []*E{w.expr(2)}}
		}
		return &S{K: "contif", X: []*E{w.expr(2)}}
	case 5, 6:
		s := &S{K: "if", X: []*E{w.expr(2)}, B: w.block(d - 1)}
		for w.N(3) == 2 {
			s.Br = append(s.Br, Branch{E: w.expr(2), B: w.block(d - 1)})
		}
		if s.HasElse = w.N(2) == 1; s.HasElse {
			s.Else = w.block(d - 1)
		}
		return s
	case 7, 8:
		name := gen.Pick(w.G, []string{"v", "x", "e", "loop"})
		if name == "loop" && w.N(4) > 0 {
			name = "e"
		}
		s := &S{K: "each", S: name, X: []*E{w.expr(2)}}
		if w.N(3) == 0 {
			s.X[0] = Arr(w.expr(1), w.expr(1))
		}
		w.vars = append(w.vars, name, "loop")
		w.loops++
		s.B = w.block(d - 1)
		w.loops--
		w.vars = w.vars[:max(len(w.vars)-1, 0)]
		return s
	}
	s := &S{K: "for"}
	if w.N(2) == 0 {
		s.S = "safe"
		v := "s" + itoa(d)
		s.Init, s.Cond, s.Post = &Part{N: v, E: Int("0")}, Bin("<", Var(v), Int(itoa(w.N(3)))), inc(v)
		w.vars = append(w.vars, v)
	} else {
		if w.N(3) > 0 {
			s.Init = w.part()
		}
		if w.N(3) > 0 {
			s.Cond = w.expr(2)
		}
		if w.N(3) > 0 {
			s.Post = w.part()
		}
	}
	w.loops++
	s.B = w.block(d - 1)
	w.loops--
	if s.HasElse = w.N(3) == 2; s.HasElse {
		s.Else = w.block(d - 1)
	}
	return s
}

func newWild(g *gen.G) *wild { return &wild{G: g, left: 14} }

func c09Random(r *rapid.T) *Case {
	w := newWild(gen.New(r))
	c := &Case{Data: Data{}}
	for _, n := range []string{"x", "y", "u"} {
		if w.N(4) > 0 {
			c.Data[n] = gen.Pick(w.G, c09Vals)
			w.vars = append(w.vars, n)
		}
	}
	if w.P(4) {
		c.Data["loop"] = DInt(1)
	}
	for len(c.Prog) < 1 {
		c.Prog = append(c.Prog, w.block(3)...)
		c.Prog = append(c.Prog, w.stmt(3))
	}
	c.Layout = w.Layout()
	return c
}

func judge09Site(c *SiteCase) core.Verdict {
	in := &Interp{Site: c.Files, Steps: 3000}
	ref := in.Page(c.Page, c.Data)
	wildFor, maxLine := false, 0
	src := c.sources()
	for n, f := range c.Files {
		wildFor = wildFor || hasWildFor(f)
		maxLine = max(maxLine, strings.Count(src[n+c.ext()], "\n")+1)
	}
	if ref.Endless || ref.Unspec && wildFor {
		return core.OK(false, "endless")
	}
	writeTree(filepath.Clean(c.dir()), src)
	os.MkdirAll(c.dir(), 0o755)
	tpl, err := load(c.dir(), c.ext(), false)
	if (tpl == nil) != (err != nil) {
		return core.Failf("NewTemplate gives %v and %v\n%s", tpl, err, files(src))
	}
	out := ""
	if err == nil {
		o, ferr := tpl.String(c.Page, c.Data.Native())
		if out = o; ferr != nil {
			err = ferr.Error()
		}
	} else if ref.Err || ref.Unspec {
		out = ""
	}
	if d := diff(files(src), ref, out, err); d != "" {
		return core.Failf("%s\ndata: %v", d, c.Data.Native())
	}
	if d := checkErr09(err, maxLine, c.Data["loop"] != nil); d != "" {
		return core.Failf("%s\n%s", d, files(src))
	}
	return core.OK(true, class(ref))
}

// NatKinds is a catalogue of data that has no description as a type.
type node struct {
	Name string
	Next *node
	Any  any
	Kids []*node
	M    map[string]any
}
type iface interface{ F() }
type withIface struct{ I iface }
type deepPtr struct{ P ***int }
type embedded struct {
	node
	*withIface
	X int
}
type named string
type namedInt int
type namedSlice []string
type namedMap map[named]namedInt
type stringer struct{ n int }

func (s stringer) String() string { panic("called") }
func (s *stringer) Error() string { panic("called") }

var c09Natives = []struct {
	name string
	make func() any
}{
	{"nil pointer", func() any { return (*int)(nil) }},
	{"nil pointer to pointer", func() any { var p *int; return &p }},
	{"nil struct pointer", func() any { return (*node)(nil) }},
	{"nil pointer in struct", func() any { return node{Name: "n"} }},
	{"nil pointers in slice", func() any { return []*node{nil, {Name: "b"}, nil} }},
	{"nil in any slice", func() any { return []any{nil, (*int)(nil), []any(nil), map[string]any(nil), error(nil)} }},
	{"nil map", func() any { return map[string]int(nil) }},
	{"nil slice", func() any { return []string(nil) }},
	{"nil error", func() any { var e error; return e }},
	{"nil interface field", func() any { return withIface{} }},
	{"deep nil pointer", func() any { var a *int; b := &a; return deepPtr{&b} }},
	{"pointer chain", func() any { i := 5; a := &i; b := &a; return deepPtr{&b} }},
	{"cycle", func() any { n := &node{Name: "c"}; n.Next = n; return n }},
	{"cycle through any", func() any { n := &node{Name: "c"}; n.Any = n; return n }},
	{"cycle through slice", func() any { n := &node{}; n.Kids = []*node{n}; return n }},
	{"cycle through map", func() any { m := map[string]any{}; m["m"] = m; return m }},
	{"slice in itself", func() any { s := make([]any, 1); s[0] = s; return s }},
	{"long list", func() any {
		var n *node
		for i := 0; i < 300; i++ {
			n = &node{Name: "l", Next: n}
		}
		return n
	}},
	{"shared", func() any { n := &node{Name: "s"}; return []*node{n, n, {Next: n}} }},
	{"embedded", func() any { return embedded{node: node{Name: "e"}, X: 1} }},
	{"embedded pointer", func() any { return &embedded{withIface: &withIface{}} }},
	{"named", func() any { return []any{named("a"), namedInt(5), namedSlice{"x"}, namedMap{"k": 1}} }},
	{"stringer", func() any { return []any{stringer{1}, &stringer{2}} }},
	{"chan", func() any { return make(chan int) }},
	{"nil chan", func() any { return (chan int)(nil) }},
	{"func", func() any { return func() {} }},
	{"nil func", func() any { return (func())(nil) }},
	{"array", func() any { return [2]int{1, 2} }},
	{"array of pointers", func() any { return [2]*int{} }},
	{"complex", func() any { return complex(1, 2) }},
	{"int map", func() any { return map[int]string{1: "a"} }},
	{"any map", func() any { return map[any]any{"a": 1} }},
	{"struct with chan", func() any { return struct{ C chan int }{make(chan int)} }},
	{"struct with hidden chan", func() any { return struct{ c chan int }{make(chan int)} }},
	{"slice of func", func() any { return []func(){nil, func() {}} }},
	{"map of func", func() any { return map[string]any{"f": func() {}} }},
	{"deep func", func() any { return []any{map[string]any{"a": &struct{ F any }{func() {}}}} }},
	{"pointer to func", func() any { f := func() {}; return &f }},
	{"uintptr", func() any { return uintptr(5) }},
	{"huge uint", func() any { return ^uint64(0) }},
	{"nan", func() any { z := 0.0; return []float64{z / z, 1 / z, -1 / z} }},
	{"bytes", func() any { return []byte("abc") }},
	{"rune", func() any { return 'é' }},
	{"any pointer", func() any { var a any = 5; return &a }},
	{"nil any pointer", func() any { return (*any)(nil) }},
	{"error", func() any { return os.ErrNotExist }},
	{"empty struct", func() any { return struct{}{} }},
	{"many fields", func() any {
		return struct {
			A, B, C int
			D       []struct{ E *string }
		}{D: []struct{ E *string }{{nil}, {}}}
	}},
}

var c09Unsupported = map[string]bool{"chan": true, "nil chan": true, "func": true, "nil func": true, "array": true, "array of pointers": true, "complex": true, "int map": true, "any map": true,
	"struct with chan": true, "slice of func": true, "map of func": true, "deep func": true, "pointer to func": true}

type c09Native struct {
	Name string `json:"name"`
	Src  string `json:"src"`
}

func judge09Native(c c09Native) core.Verdict {
	for _, n := range c09Natives {
		if n.name != c.Name {
			continue
		}
		out, err := textwire.EvaluateString(c.Src, map[string]any{"x": n.make(), "y": 1})
		if err != nil && out != "" {
			return core.Failf("output %q and error %q\nsource: %q, data: %s", out, err, c.Src, c.Name)
		}
		if c09Unsupported[c.Name] && err == nil {
			return core.Failf("unsupported data (%s) gives output %q\nsource: %q", c.Name, out, c.Src)
		}
		if d := checkErr09(err, strings.Count(c.Src, "\n")+1, true); d != "" {
			return core.Failf("%s\nsource: %q, data: %s", d, c.Src, c.Name)
		}
		if err != nil {
			return core.OK(true, "error")
		}
		return core.OK(true, "output")
	}
	return core.Failf("no data %s", c.Name)
}

var c09Srcs = []string{"{{ x }}", "{{ x.name }}", "{{ x.Name }}", "{{ x.next.name }}", "{{ x[0] }}", "{{ x[0].name }}", "{{ x[''] }}", "{{ x['a'] }}", "{{ -x }}", "{{ !x }}", "{{ x++ }}", "{{ x + x }}", "{{ x == x }}", "{{ x.len() }}", "{{ x.kids[0].kids }}",
	"@each(v in x){{ v }}@end", "@each(v in x){{ v.name }}@else e@end", "@if(x)t@else f@end", "@dump(x)", "@dump(x, x)", "{{ x ? 1 : 2 }}", "{{ k = x; k }}", "{{ [x, x].len() }}", "{{ {a: x}.a }}", "\n\n{{ x.m.a.b }}", "@for(i = x; i < 3; i++){{ i }}@end",
	"@for(i = 0; i < x; i++){{ i }}@break@end", "{{ [x].contains(x) }}", "{{ x.contains(1) }}", "{{ x.reverse().append(x).len() }}", "{{ y }}", "{{ x.p }}", "{{ x.i }}", "{{ x.node.name }}", "{{ x.x }}", "{{ x.any }}", "{{ x.str() }}", "{{ x.int() }}", "{{ x.join('-') }}", "", "text"}

func init() {
	register(&core.Prop{ID: "C09", Level: "exploration", Families: []core.Family{
		core.New(core.Fam[*Case]{
			Name:  "operands",
			Rule:  "exhaustive: 120 constructs (operators, index, property, call, headers of @if/@each/@for with every clause present or absent, directive arguments) x 32 values of every kind, all pairs for two operands, in rotating (thorough: all) 5 contexts; non-trivial: an error, a result that is not defined, or a context",
			Enum:  c09Enum,
			Judge: judge09,
		}),
		core.New(core.Fam[*Case]{
			Name: "builtins",
			Rule: "exhaustive: every built-in name and 4 others x 32 receivers x argument lists: none, one of 32, two of 12 (thorough 32), some of three and four; the result is compared with the reference; non-trivial: an error or a result that is not defined",
			Enum: func(th bool, yield func(func() *Case)) {
				few := []*D{c09Vals[4], c09Vals[5], c09Vals[8], c09Vals[9], c09Vals[17], c09Vals[16], c09Vals[0], c09Vals[1], c09Vals[13], c09Vals[24], c09Vals[29], c09Vals[10]}
				if th {
					few = c09Vals
				}
				for _, name := range allBuiltins() {
					for _, r := range c09Vals {
						c09Args(c09Vals, few, func(args []*D) {
							yield(func() *Case { return callCase(r, name, args, 0) })
						})
					}
				}
			},
			Judge: judge09,
		}),
		core.New(core.Fam[*Case]{
			Name:  "chains",
			Rule:  "exhaustive: every built-in with arguments that fit, and after it every built-in (thorough: with every argument list), an index, a property, a loop or a call on the receiver again, on the result; non-trivial: all",
			Enum:  c09Chains,
			Judge: judge09,
		}),
		core.New(core.Fam[*Case]{
			Name: "random",
			Rule: "random templates without a type discipline: any expression at any place, any loop header, data of every kind; loops that the reference runs for over 3000 passes are not rendered; non-trivial: an error, a result that is not defined, or three statements",
			Gen:  c09Random, Quick: 150000, Thorough: 5000000,
			Judge: judge09,
		}),
		core.New(core.Fam[*SiteCase]{
			Name: "files",
			Rule: "random sites with layouts, components and slots in which one of four expressions is an untyped one; non-trivial: all",
			Gen: func(r *rapid.T) *SiteCase {
				return genSiteWith(r, 3, rapid.Bool().Draw(r, "layout"), func(g *gen.G) {
					g.Faults = []int{50, 250}[g.N(2)]
					g.FaultExpr = func(g *gen.G, d int) *E {
						w := newWild(g)
						for k := range g.Types() {
							w.vars = append(w.vars, k)
						}
						sortStrings(w.vars)
						return w.expr(2)
					}
				})
			}, Quick: 30000, Thorough: 800000,
			Judge: judge09Site,
		}),
		core.New(core.Fam[c09Native]{
			Name: "data",
			Rule: "exhaustive: 49 Go values (nil at every place, cycles, unsupported kinds at every depth, embedded and named types, huge and non-finite numbers) x 41 templates; non-trivial: all",
			Enum: func(th bool, yield func(func() c09Native)) {
				for _, n := range c09Natives {
					for _, s := range c09Srcs {
						yield(func() c09Native { return c09Native{n.name, s} })
					}
				}
			},
			Judge: judge09Native,
		}),
		core.New(core.Fam[*NatCase]{
			Name: "typed data",
			Rule: "random templates without a type discipline over random Go data, unsupported kinds included; non-trivial: all",
			Gen: func(r *rapid.T) *NatCase {
				w := newWild(gen.New(r))
				c := &NatCase{Vars: map[string]*Nat{}}
				for _, n := range []string{"x", "y"} {
					c.Vars[n] = natDraw(w.G, 4, []int{0, 20}[w.N(2)])
					w.vars = append(w.vars, n)
				}
				for len(c.Prog) < 1 {
					c.Prog = append(c.Prog, w.block(2)...)
					c.Prog = append(c.Prog, w.stmt(2))
				}
				c.Layout = w.Layout()
				return c
			}, Quick: 30000, Thorough: 800000,
			Judge: func(c *NatCase) core.Verdict {
				data, st := c.data()
				src := PrintB(c.Prog, &Layout{B: c.Layout})
				ref := Result{Unspec: true}
				if st == natOK {
					ref = (&Interp{Steps: 3000}).Eval(c.Prog, data)
				} else if st == natUnsupported {
					ref = Result{Err: true, Msg: "unsupported data"}
				}
				if ref.Endless || ref.Unspec && hasWildFor(c.Prog) {
					return core.OK(false, "endless")
				}
				out, err := textwire.EvaluateString(src, c.native())
				if d := diff(src, ref, out, err); d != "" {
					return core.Failf("%s\ndata: %#v", d, c.native())
				}
				if d := checkErr09(err, strings.Count(src, "\n")+1, st != natOK); d != "" {
					return core.Failf("%s\nsource: %q\ndata: %#v", d, src, c.native())
				}
				return core.OK(true, class(ref))
			},
		}),
	}, Assumptions: []string{
		"loops are bounded: a loop that runs for millions of passes may exhaust memory or the stack",
		"faults in the data itself, which have no construct, carry line 0",
	}})
}
