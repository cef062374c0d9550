package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	textwire "github.com/textwire/textwire/v2"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// The custom function probe of integers hands values of a template to the
// judge, as they are and not as they print.
var probed [][]any
var probeReady bool

func readyProbe() {
	if probeReady {
		return
	}
	probeReady = true
	err := textwire.RegisterIntFunc("probe", func(n int, args ...any) int {
		probed = append(probed, args)
		return n
	})
	if err != nil {
		panic(err)
	}
}

// fromGo is the reference value of a plain Go value.
func fromGo(x any) (V, error) {
	switch x := x.(type) {
	case nil:
		return VNil(), nil
	case bool:
		return VBool(x), nil
	case int:
		return VInt(int64(x)), nil
	case int64:
		return VInt(x), nil
	case float64:
		return VFloat(x), nil
	case string:
		return VStr(x), nil
	case []any:
		out := VArr()
		for _, y := range x {
			v, err := fromGo(y)
			if err != nil {
				return v, err
			}
			out.A = append(out.A, v)
		}
		return out, nil
	case map[string]any:
		out := VObj(map[string]V{})
		for k, y := range x {
			v, err := fromGo(y)
			if err != nil {
				return v, err
			}
			out.O[k] = v
		}
		return out, nil
	}
	return V{}, fmt.Errorf("a %T", x)
}

// show writes a value for messages, types apart.
func show(v V) string {
	switch v.K {
	case KStr:
		return fmt.Sprintf("%q", v.S)
	case KFloat:
		return fmt.Sprintf("float(%v)", v.F)
	case KBool:
		return fmt.Sprint(v.B)
	case KInt:
		return fmt.Sprint(v.I)
	case KArr:
		var p []string
		for _, x := range v.A {
			p = append(p, show(x))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case KObj:
		var p []string
		for _, k := range v.Keys() {
			p = append(p, fmt.Sprintf("%q: %s", k, show(v.O[k])))
		}
		return "{" + strings.Join(p, ", ") + "}"
	}
	return "nil"
}

func showAll(vs []V) string {
	return strings.TrimPrefix(strings.TrimSuffix(show(VArr(vs...)), "]"), "[")
}

func validV(v V) bool {
	if v.K == KStr {
		return utf8.ValidString(v.S)
	}
	for _, x := range v.A {
		if !validV(x) {
			return false
		}
	}
	for k, x := range v.O {
		if !utf8.ValidString(k) || !validV(x) {
			return false
		}
	}
	return true
}

// c11Case is a template with calls of probe. Poison: custom functions with the
// names of the built-in functions are registered.
type c11Case struct {
	Case
	Poison bool `json:"poison,omitempty"`
	// Loose: the outcome does not depend on the order that shuffle makes.
	Loose bool `json:"loose,omitempty"`
}

const poison = "POISON\xff"

var poisoned bool

func readyPoison() {
	if poisoned {
		return
	}
	poisoned = true
	check := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	for _, n := range Builtins[KStr] {
		check(textwire.RegisterStrFunc(n, func(string, ...any) string { return poison }))
	}
	for _, n := range Builtins[KArr] {
		check(textwire.RegisterArrFunc(n, func([]any, ...any) []any { return []any{poison} }))
	}
	for _, n := range Builtins[KInt] {
		check(textwire.RegisterIntFunc(n, func(int, ...any) int { return 666 }))
	}
	for _, n := range Builtins[KFloat] {
		check(textwire.RegisterFloatFunc(n, func(float64, ...any) float64 { return 666 }))
	}
	for _, n := range Builtins[KBool] {
		check(textwire.RegisterBoolFunc(n, func(b bool, _ ...any) bool { return b }))
	}
}

func judge11(c *c11Case) core.Verdict {
	readyProbe()
	if c.Poison {
		readyPoison()
	}
	var want [][]V
	in := &Interp{Steps: 3000, Loose: c.Loose, Funcs: Funcs{"iprobe": func(r V, args []V) V {
		want = append(want, args)
		return r
	}}}
	ref := in.Eval(c.Prog, c.Data)
	if ref.Endless {
		return core.OK(false, "endless")
	}
	src := c.Source()
	data := c.Data.Native()
	probed = nil
	out, err := textwire.EvaluateString(src, data)
	got := probed
	if d := diff(src, ref, out, err); d != "" {
		return core.Failf("%s\ndata: %s", d, show(dataV(c.Data)))
	}
	if !reflect.DeepEqual(data, c.Data.Native()) {
		return core.Failf("the data changed from %v to %v\nsource: %q", c.Data.Native(), data, src)
	}
	valid := utf8.ValidString(src) && validV(dataV(c.Data))
	var gotV [][]V
	for _, args := range got {
		v, err := fromGo(args)
		if err != nil {
			return core.Failf("the probe got %v\nsource: %q", err, src)
		}
		if valid && !validV(v) {
			return core.Failf("invalid UTF-8 from valid input: %s\nsource: %q\ndata: %s", show(v), src, show(dataV(c.Data)))
		}
		gotV = append(gotV, v.A)
	}
	if valid && !utf8.ValidString(out) {
		return core.Failf("invalid UTF-8 output %q from valid input\nsource: %q", out, src)
	}
	if ref.Unspec {
		return core.OK(false, "unspecified")
	}
	if len(want) > len(gotV) || !ref.Err && len(want) != len(gotV) {
		return core.Failf("%d probes of %d\nsource: %q", len(gotV), len(want), src)
	}
	for i := range want {
		if !equalAll(want[i], gotV[i]) {
			return core.Failf("probe %d: expected %s, got %s\nsource: %q\ndata: %s", i, showAll(want[i]), showAll(gotV[i]), src, show(dataV(c.Data)))
		}
	}
	return core.OK(true, class(ref))
}

func equalAll(a, b []V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func dataV(d Data) V {
	out := VObj(map[string]V{})
	for k, x := range d {
		out.O[k] = x.Value()
	}
	return out
}

// deepLit writes a value as a literal, or returns nil.
func deepLit(d *D) *E {
	switch d.K {
	case "nil":
		return Nil()
	case "bool":
		return Bool(d.B)
	case "float":
		if _, ok := FloatText(d.F); !ok || d.B {
			return nil
		}
	case "str":
		if !quotable(string(d.S)) || strings.ContainsAny(string(d.S), "<>&\\\x00") {
			return nil
		}
	case "arr":
		e := Arr()
		for i := range d.A {
			x := deepLit(&d.A[i])
			if x == nil {
				return nil
			}
			e.A = append(e.A, x)
		}
		return e
	case "obj":
		var keys []string
		for k := range d.O {
			if strings.ContainsAny(k, "<>&\\\x00") {
				return nil
			}
			keys = append(keys, k)
		}
		sort.Strings(keys)
		e := Obj(nil)
		for _, k := range keys {
			x := deepLit(d.O[k])
			if x == nil {
				return nil
			}
			e.N, e.A = append(e.N, k), append(e.A, x)
		}
		return e
	}
	return literal(d)
}

func probe(args ...*E) *S { return Print(Call(Int("0"), "probe", args...)) }

// c11Call is one call; the receiver and arguments are probed afterwards. The
// turn selects how they are written.
func c11Call(recv *D, name string, args []*D, turn int) *c11Case {
	c := &c11Case{Case: Case{Data: Data{"r": recv}}}
	rv := Var("r")
	re := rv
	var ea, ev []*E
	for i, a := range args {
		n := "a" + itoa(i)
		c.Data[n] = a
		ev = append(ev, Var(n))
		if l := deepLit(a); l != nil && (turn+i)%3 == 0 {
			ea = append(ea, l)
		} else {
			ea = append(ea, Var(n))
		}
	}
	var pre []*S
	in := func(body ...*S) []*S { return append(pre, body...) }
	wrap := in
	switch turn % 9 {
	case 1:
		if l := deepLit(recv); l != nil {
			re = l
		}
	case 2:
		c.Data["l"] = DArr(*DInt(1), *recv)
		re = Idx(Var("l"), Int("1"))
		rv = re
	case 3:
		c.Data["o"] = DObj(map[string]*D{"k": recv})
		re = Dot(Var("o"), "k")
		rv = re
	case 4:
		re = Call(Bool(true), "then", Var("r"))
	case 5:
		if recv.K != "nil" {
			pre = append(pre, Assign("w", Var("r")))
			re = Var("w")
			rv = re
		}
	case 6:
		wrap = func(body ...*S) []*S { return []*S{Each("w", Arr(Var("r"), Var("r")), body...)} }
		re = Var("w")
		rv = re
	case 7:
		re = Tern(Bool(false), Int("1"), Var("r"))
	case 8:
		re = Idx(Arr(Var("r")), Int("0"))
	}
	call := Call(re, name, ea...)
	again := append([]*E{call, rv, Var("r")}, ev...)
	c.Prog = wrap(Assign("v", call), probe(again...), probe(Var("v")), Print(Var("v")))
	if turn%9 == 6 {
		// the variable of a loop body starts anew in every pass or keeps its type
		c.Prog = wrap(probe(again...), probe(call))
	}
	return c
}

var c11Strs = []string{
	"", "a", "ab", "aba", " ", "é", "日本語", "🙂x", "e\u0301", "ß", "İstanbul", "ŉ", "ǆ", "éa", "ÿ", "  pad \t\n", "\u00a0x\u00a0", "a,b,,c", ",", "aaa", "12", "-5", "0", "007", "+7", "1e3", "9223372036854775807",
	"99999999999999999999", "1.5", "-", " 12", "<b>&amp;\"'", "&lt;", "&#39;", "a b  c", "ΑΒΓς", "a\x00b", "\ufffd", "nil", "Hello, World", "x\r\ny", "\U0010ffff", "ǅabc", "ŭ", "𐐨q", "ﬁn", "\\", "%d",
}

func c11Recvs() []*D {
	out := []*D{DNil(), DBool(true), DBool(false)}
	for _, i := range []int64{0, 1, -1, 5, 9, 10, -10, 99, 100, -100, 1000000, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, -9223372036854775, 1 << 53, 1<<53 + 1} {
		out = append(out, DInt(i))
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 0.5, -0.5, 1, -1, 1.5, -1.5, 2.5, -2.5, 0.49999999999999994, -0.49999999999999994, 0.1, 99.99, 1e15 + 0.5, 4503599627370495.5, 4503599627370497.5, 1e300, -1e300, -1e-9, 123.456, 5e-324, 1e18, 3.0000000000000004, -7.999999} {
		out = append(out, DFloat(f))
	}
	for _, s := range c11Strs {
		out = append(out, DStr(s))
	}
	return append(out, c11Arrs()...)
}

func c11Arrs() []*D {
	ints := func(xs ...int64) *D {
		d := DArr()
		for _, x := range xs {
			d.A = append(d.A, *DInt(x))
		}
		return d
	}
	strs := func(xs ...string) *D {
		d := DArr()
		for _, x := range xs {
			d.A = append(d.A, *DStr(x))
		}
		return d
	}
	obj := func(k string, v *D) *D { return DObj(map[string]*D{k: v}) }
	return []*D{
		DArr(), ints(1), ints(1, 2, 3), ints(3, 1, 2, 1), ints(0, 0, 0, 0, 0), strs("a"), strs("a", "b"), strs("", ""), strs("é", "日本", "🙂"), strs("a, b", "c"), strs("1", "2"),
		DArr(*DNil()), DArr(*DNil(), *DNil()), DArr(*DBool(true), *DBool(false)), DArr(*DFloat(1), *DInt(1)), DArr(*DFloat(1.5), *DFloat(-0.25)), DArr(*DInt(1), *DStr("1"), *DBool(true), *DFloat(1), *DNil()),
		DArr(*DArr()), DArr(*ints(1), *ints(1, 2), *ints()), DArr(*strs("a"), *ints(1), *DArr(*ints(1))), DArr(*obj("a", DInt(1)), *obj("a", DInt(2))), DArr(*DObj(map[string]*D{}), *DArr()),
		DArr(*obj("k", ints(1, 2)), *DInt(3)), ints(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17), DArr(*DArr(*DArr(*DNil())), *DNil()),
		DObj(map[string]*D{}), obj("len", DInt(3)), DObj(map[string]*D{"a": DInt(1), "b": ints(1)}),
	}
}

var c11Args = []*D{
	DInt(0), DInt(1), DInt(2), DInt(-1), DStr(""), DStr("a"), DNil(), DBool(true), DArr(), DObj(map[string]*D{}), DFloat(1), DFloat(2.5), // the few
	DInt(3), DInt(5), DInt(-3), DInt(100), DInt(-100), DInt(math.MaxInt64), DInt(math.MinInt64), DInt(1 << 32), DInt(1<<63 - 2), DStr(" "), DStr(","), DStr("é"), DStr("日"), DStr("ab"), DStr("aé🙂"), DStr("…"), DStr("\n"),
	DStr("1"), DFloat(0), DFloat(-0.25), DBool(false), DArr(*DInt(1)), DArr(*DInt(1), *DInt(2)), DArr(*DArr()), DArr(*DStr("a")), DArr(*DNil()), DArr(*DFloat(1)), DArr(*DInt(1), *DStr("1")), DArr(*DArr(*DInt(1))),
	DObj(map[string]*D{"a": DInt(1)}), DObj(map[string]*D{"a": DInt(2)}), DObj(map[string]*D{"a": DInt(1), "b": DArr(*DInt(1))}), DObj(map[string]*D{"k": DArr(*DInt(1), *DInt(2))}), DObj(map[string]*D{"a": DFloat(1)}),
}

func c11Lists(f func(args []*D)) {
	f(nil)
	for _, a := range c11Args {
		f([]*D{a})
	}
	few := c11Args[:12]
	for _, a := range few {
		for _, b := range few {
			f([]*D{a, b})
		}
	}
	for i, a := range few {
		f([]*D{a, few[(i+5)%12], few[(i+7)%12]})
		f([]*D{few[(i+3)%12], a, a, few[0]})
	}
}

// c11Small enumerates the functions over small domains. f gets the receiver,
// the name and the arguments.
func c11Small(th bool, f func(r *D, name string, args ...*D)) {
	bound := func(a, b int) int {
		if th {
			return b
		}
		return a
	}
	// slice: all lengths, starts and ends
	n := bound(6, 9)
	elems := []D{*DInt(1), *DStr("é"), *DArr(*DInt(2)), *DNil(), *DFloat(0.5), *DBool(true), *DStr(""), *DInt(8), *DInt(9)}
	for l := 0; l <= n; l++ {
		arr := DArr(elems[:l]...)
		for s := -4; s <= n+3; s++ {
			f(arr, "slice", DInt(int64(s)))
			for e := -4; e <= n+3; e++ {
				f(arr, "slice", DInt(int64(s)), DInt(int64(e)))
			}
		}
	}
	// words over a small alphabet
	var words func(alpha []string, max int, g func(string, int))
	words = func(alpha []string, max int, g func(string, int)) {
		var rec func(s string, n int)
		rec = func(s string, n int) {
			g(s, n)
			if n < max {
				for _, a := range alpha {
					rec(s+a, n+1)
				}
			}
		}
		rec("", 0)
	}
	words([]string{"a", "é", "日", "🙂"}, bound(3, 5), func(s string, n int) {
		for _, name := range []string{"len", "reverse", "upper", "lower", "capitalize", "first", "last", "at", "raw", "trim"} {
			f(DStr(s), name)
		}
		for i := -n - 2; i <= n+2; i++ {
			f(DStr(s), "at", DInt(int64(i)))
		}
		for i := 0; i <= n+2; i++ {
			f(DStr(s), "truncate", DInt(int64(i)))
			f(DStr(s), "truncate", DInt(int64(i)), DStr(""))
			f(DStr(s), "truncate", DInt(int64(i)), DStr("…é"))
		}
		for i := 0; i <= 4; i++ {
			f(DStr(s), "repeat", DInt(int64(i)))
		}
		f(DStr(s), "split", DStr(""))
		f(DStr(s), "split", DStr("é"))
	})
	words([]string{"a", "b", " "}, bound(4, 6), func(s string, n int) {
		f(DStr(s), "split")
		for _, name := range []string{"trim", "trimLeft", "trimRight"} {
			f(DStr(s), name)
			for _, set := range []string{"", "a", "b", "ab", " ", "a b", "ba"} {
				f(DStr(s), name, DStr(set))
			}
		}
		words([]string{"a", "b", " "}, 2, func(t string, _ int) {
			f(DStr(s), "split", DStr(t))
			f(DStr(s), "contains", DStr(t))
		})
	})
	words([]string{"\t", "\n", "\r", "x", "\v", "\u00a0", "é"}, bound(3, 4), func(s string, n int) {
		for _, name := range []string{"trim", "trimLeft", "trimRight"} {
			f(DStr(s), name)
			f(DStr(s), name, DStr("é\n"))
		}
	})
	words([]string{"&", "l", "t", ";", "<"}, bound(4, 5), func(s string, n int) { f(DStr(s), "raw") })
	words([]string{"-", "0", "7", ".", " "}, bound(3, 4), func(s string, n int) {
		f(DStr(s), "decimal")
		f(DStr(s), "decimal", DStr(","), DInt(3))
	})
	// contains: all pairs of values, alone and nested
	vals := append(append([]*D{}, c11Args...), c11Arrs()...)
	for _, a := range vals {
		for _, b := range vals {
			f(DArr(*a), "contains", b)
			f(DArr(*DArr(*a)), "contains", DArr(*b))
			f(DArr(*DInt(77), *DObj(map[string]*D{"k": a})), "contains", DObj(map[string]*D{"k": b}))
			if th {
				f(DArr(*DArr(*DStr("z"), *a), *DArr(*a, *DStr("z"))), "contains", DArr(*b, *DStr("z")))
				f(DArr(*DObj(map[string]*D{"k": a, "z": DNil()})), "contains", DObj(map[string]*D{"k": b}))
			}
		}
		f(DArr(*DStr("x")), "append", a)
		f(DArr(*DStr("x")), "prepend", a)
		f(DArr(*DStr("x")), "append", a, DInt(1), a)
		f(DArr(*DStr("x"), *DInt(2)), "prepend", a, DInt(1), a)
		f(DBool(true), "then", a)
		f(DBool(false), "then", a)
		f(DBool(true), "then", a, DInt(1))
		f(DBool(false), "then", DInt(1), a)
		f(DArr(*a, *a), "reverse")
		f(DArr(*a, *DInt(5)), "join", DStr("-"))
		f(DArr(*DInt(5), *a, *a), "join")
		f(DArr(*DInt(5), *a, *a), "join", DStr(""))
		f(DArr(*a), "rand")
		f(DArr(*a, *a), "shuffle")
	}
	// numbers
	for i := -bound(1100, 20000); i <= bound(1100, 20000); i++ {
		for _, name := range []string{"len", "abs", "str", "float", "decimal"} {
			f(DInt(int64(i)), name)
		}
		if i%7 == 0 {
			for n := 0; n < 5; n++ {
				f(DInt(int64(i)), "decimal", DStr(","), DInt(int64(n)))
				f(DStr(itoa(i)), "decimal", DStr(""), DInt(int64(n)))
			}
		}
	}
	for p := int64(1); p > 0 && p < math.MaxInt64/10; p *= 10 {
		for _, x := range []int64{p - 1, p, p + 1, -p, 1 - p, p * 9} {
			for _, name := range []string{"len", "abs", "str", "float", "decimal"} {
				f(DInt(x), name)
			}
		}
	}
	for i := -bound(400, 4000); i <= bound(400, 4000); i++ {
		for _, name := range []string{"int", "ceil", "floor", "round", "abs", "str"} {
			f(DFloat(float64(i)/8), name)
			f(DFloat(float64(i)/10), name)
			f(DFloat(math.Nextafter(float64(i)/2, math.Inf(1))), name)
			f(DFloat(math.Nextafter(float64(i)/2, math.Inf(-1))), name)
		}
	}
}

// Sequences of calls on one array, for values that share memory.
var c11Bases = []func() (*E, []*S){
	func() (*E, []*S) { return Var("d"), nil },
	func() (*E, []*S) { return Var("b"), []*S{Assign("b", Arr(Int("1"), Int("2"), Int("3")))} },
	func() (*E, []*S) { return Var("b"), []*S{Assign("b", Arr())} },
	func() (*E, []*S) {
		return Var("b"), []*S{Assign("b", Call(Arr(Int("1")), "append", Int("2"), Int("3")))}
	},
	func() (*E, []*S) { return Var("b"), []*S{Assign("b", Call(Var("d"), "append", Int("2")))} },
	func() (*E, []*S) { return Var("b"), []*S{Assign("b", Call(Var("d"), "prepend", Int("2")))} },
	func() (*E, []*S) { return Var("b"), []*S{Assign("b", Call(Var("d"), "slice", Int("1")))} },
	func() (*E, []*S) { return Var("b"), []*S{Assign("b", Call(Var("d"), "slice", Int("0"), Int("2")))} },
	func() (*E, []*S) { return Var("b"), []*S{Assign("b", Call(Var("d"), "reverse"))} },
	func() (*E, []*S) { return Var("b"), []*S{Assign("b", Call(Str("p q r s"), "split"))} },
	func() (*E, []*S) {
		return Var("b"), []*S{Assign("b", Call(Call(Var("d"), "append", Int("7")), "append", Int("8")))}
	},
	func() (*E, []*S) { return Idx(Var("n"), Int("0")), nil },
	func() (*E, []*S) { return Dot(Var("o"), "k"), nil },
	func() (*E, []*S) { return Var("b"), []*S{Assign("b", Call(Bool(true), "then", Var("d")))} },
}

var c11Derive = []func(b *E, k string) *E{
	func(b *E, k string) *E { return Call(b, "append", Str(k)) },
	func(b *E, k string) *E { return Call(b, "append", Str(k), b) },
	func(b *E, k string) *E { return Call(b, "prepend", Str(k)) },
	func(b *E, k string) *E { return Call(b, "prepend", Str(k), Int("0"), b) },
	func(b *E, k string) *E { return Call(b, "slice", Int("1")) },
	func(b *E, k string) *E { return Call(b, "slice", Int("0"), Int("1")) },
	func(b *E, k string) *E { return Call(b, "slice", Int("0")) },
	func(b *E, k string) *E { return Call(b, "reverse") },
	func(b *E, k string) *E { return Call(Call(b, "reverse"), "append", Str(k)) },
	func(b *E, k string) *E { return Call(Call(b, "slice", Int("0"), Int("1")), "append", Str(k)) },
	func(b *E, k string) *E { return Arr(Call(Call(b, "shuffle"), "len")) },
	func(b *E, k string) *E { return Arr(Call(Arr(Call(b, "rand")), "len")) },
	func(b *E, k string) *E { return Arr(Call(b, "join", Str("-")), Call(b, "contains", Str(k))) },
	func(b *E, k string) *E { return Arr(b, Str(k)) },
}

func c11Seqs(th bool, yield func(func() *c11Case)) {
	data := func() Data {
		return Data{"d": DArr(*DInt(10), *DInt(20), *DInt(30)), "n": DArr(*DArr(*DStr("in"), *DStr("ner")), *DInt(1)), "o": DObj(map[string]*D{"k": DArr(*DInt(5), *DArr(*DInt(6)))})}
	}
	for _, base := range c11Bases {
		for i, x := range c11Derive {
			for j, y := range c11Derive {
				for k, z := range c11Derive {
					if !th && (i+j+k)%2 == 1 {
						continue
					}
					for from := 0; from < 3; from++ {
						yield(func() *c11Case {
							b, pre := base()
							c := &c11Case{Case: Case{Data: data(), Prog: pre}, Loose: true}
							src := []*E{b, Var("x"), Var("y")}[from]
							c.Prog = append(c.Prog, Assign("x", x(b, "X")), Assign("y", y(b, "Y")), Assign("z", z(src, "Z")),
								probe(b, Var("x"), Var("y"), Var("z"), Var("d"), Var("n"), Var("o")))
							return c
						})
					}
				}
			}
		}
	}
}

// sig are the kinds of the arguments and of the result: s i f b a v(any).
var c11Sig = map[string]string{
	"slen": ">i", "ssplit": "s>a", "sraw": ">s", "strim": "s>s", "strimRight": "s>s", "strimLeft": "s>s", "supper": ">s", "slower": ">s", "scapitalize": ">s", "sreverse": ">s",
	"scontains": "s>b", "struncate": "is>s", "sdecimal": "si>s", "sat": "i>v", "sfirst": ">v", "slast": ">v", "srepeat": "i>s",
	"alen": ">i", "ajoin": "s>s", "arand": ">v", "areverse": ">a", "aslice": "ii>a", "ashuffle": ">a", "acontains": "v>b", "aappend": "vvv>a", "aprepend": "vvv>a",
	"ifloat": ">f", "iabs": ">i", "istr": ">s", "ilen": ">i", "idecimal": "si>s", "fint": ">i", "fstr": ">s", "fabs": ">f", "fceil": ">i", "ffloor": ">i", "fround": ">i", "bbinary": ">i", "bthen": "vv>v",
}

var c11Runes = []rune("aábcdeéèzZñßøŁłαΩжЖאبजक日本語한글🙂🎉𐐨𝒜 ,.-_0123456789\t\n\"'/{}@")

func c11Rand(g *gen.G, max int) string {
	var b strings.Builder
	for i, n := 0, g.N(max+1); i < n; i++ {
		switch g.N(8) {
		case 7:
			r := rune(rapid.IntRange(1, 0x10ffff).Draw(g.R, "rune"))
			if r >= 0xd800 && r < 0xe000 {
				r = 'x'
			}
			b.WriteRune(r)
		case 6:
			b.WriteString(gen.Pick(g, []string{"&amp;", "<b>", "&lt;", "e\u0301", "\u200d", "\r\n", "  ", "ab", "ab"}))
		default:
			b.WriteRune(gen.Pick(g, c11Runes))
		}
	}
	return b.String()
}

func c11Datum(g *gen.G, d int) *D {
	n := 9
	if d <= 0 {
		n = 6
	}
	switch g.N(n) {
	case 0, 1:
		return DStr(c11Rand(g, 12))
	case 2:
		return DInt(rapid.Int64().Draw(g.R, "i"))
	case 3:
		f := rapid.Float64Range(-1e12, 1e12).Draw(g.R, "f")
		if g.N(2) == 1 {
			f = math.Trunc(f*100) / 100
		}
		return DFloat(f)
	case 4:
		return DBool(g.N(2) == 1)
	case 5:
		if g.N(3) == 2 {
			return DNil()
		}
		return DInt(int64(g.N(12) - 2))
	case 6, 7:
		out := DArr()
		for i, n := 0, g.N(6); i < n; i++ {
			out.A = append(out.A, *c11Datum(g, d-1))
		}
		return out
	}
	out := DObj(map[string]*D{})
	for i, n := 0, g.N(3); i < n; i++ {
		out.O[gen.Pick(g, []string{"a", "b", "é"})] = c11Datum(g, d-1)
	}
	return out
}

type c11Var struct {
	e *E
	k byte
}

// c11Program draws a sequence of calls on each other's results.
func c11Program(r *rapid.T) *c11Case {
	g := gen.New(r)
	c := &c11Case{Case: Case{Data: Data{}}}
	var vars []c11Var
	for i, n := 0, 2+g.N(4); i < n; i++ {
		d := c11Datum(g, 2)
		name := "d" + itoa(i)
		c.Data[name] = d
		vars = append(vars, c11Var{Var(name), d.Value().K})
	}
	pick := func(kind byte) *E {
		var fit []c11Var
		for _, v := range vars {
			if v.k == kind || kind == 'v' {
				fit = append(fit, v)
			}
		}
		if len(fit) > 0 && g.N(3) > 0 {
			return fit[g.N(len(fit))].e
		}
		switch kind {
		case 'i':
			n := g.N(12) - 3
			if n < 0 {
				return Un("-", Int(itoa(-n)))
			}
			return Int(itoa(n))
		case 's':
			return Str(gen.Pick(g, []string{"", " ", "a", "é", "ab", ", ", "日", "-"}))
		case 'a':
			return gen.Pick(g, []*E{Arr(), Arr(Int("1"), Int("2")), Arr(Str("é"))})
		case 'b':
			return Bool(g.N(2) == 1)
		case 'f':
			return Flt(gen.Pick(g, []string{"1.5", "0.0", "2.49"}))
		}
		return gen.Pick(g, []*E{Int("1"), Str("x"), Arr(Int("1")), Nil(), Flt("1.0")})
	}
	var all []*E
	for i, n := 0, 1+g.N(7); i < n; i++ {
		rk := gen.Pick(g, []byte{KStr, KStr, KStr, KArr, KArr, KArr, KInt, KFloat, KBool})
		name := gen.Pick(g, Builtins[rk])
		sig := c11Sig[string(rk)+name]
		args, res, _ := strings.Cut(sig, ">")
		if name == "shuffle" || name == "rand" {
			name = "reverse"
			res = "a"
		}
		recv := pick(rk)
		if g.N(40) == 39 {
			recv = pick('v')
		}
		e := Call(recv, name)
		for j := 0; j < len(args); j++ {
			if g.N(5) == 4 {
				break
			}
			k := args[j]
			if g.N(40) == 39 {
				k = 'v'
			}
			e.A = append(e.A, pick(k))
		}
		rv := res[0]
		if rv == 'v' { // the kind is not known, the value can be a part of others
			all = append(all, e)
			continue
		}
		v := Var("v" + itoa(i))
		c.Prog = append(c.Prog, Assign(v.S, e))
		vars = append(vars, c11Var{v, rv})
	}
	for _, v := range vars {
		all = append(all, v.e)
	}
	c.Prog = append(c.Prog, probe(all...))
	return c
}

// c11Rnd is an array for shuffle and rand.
type c11Rnd struct {
	Arr    *D   `json:"arr"`
	Poison bool `json:"poison,omitempty"`
}

func judge11Rnd(c *c11Rnd) core.Verdict {
	readyProbe()
	if c.Poison {
		readyPoison()
	}
	probed = nil
	data := map[string]any{"r": c.Arr.Native()}
	src := "{{ x = r.shuffle(); y = r.shuffle(); z = r.rand() }}{{ 0.probe(x, y, z, r, x.shuffle(), x) }}"
	if len(c.Arr.A) == 0 {
		src = "{{ x = r.shuffle(); y = r.shuffle() }}{{ 0.probe(x, y, r.rand(), r, x.shuffle(), x) }}"
	}
	want := c.Arr.Value()
	if len(want.A) > 0 {
		for _, x := range want.A {
			if x.K == KNil {
				src = "{{ x = r.shuffle(); y = r.shuffle() }}{{ 0.probe(x, y, r.rand(), r, x.shuffle(), x) }}"
			}
		}
	}
	out, err := textwire.EvaluateString(src, data)
	if err != nil || out != "0" || len(probed) != 1 || len(probed[0]) != 6 {
		return core.Failf("%q gives %q, %v with %v", src, out, err, c.Arr.Native())
	}
	v, err := fromGo(probed[0])
	if err != nil {
		return core.Failf("%q: the probe got %v", src, err)
	}
	sorted := func(v V) string {
		var p []string
		for _, x := range v.A {
			p = append(p, show(x))
		}
		sort.Strings(p)
		return strings.Join(p, ";")
	}
	for _, i := range []int{0, 1, 4, 5} {
		if v.A[i].K != KArr || sorted(v.A[i]) != sorted(want) {
			return core.Failf("shuffle gives %s of %s", show(v.A[i]), show(want))
		}
	}
	if !Equal(v.A[3], want) {
		return core.Failf("shuffle changed the receiver from %s to %s", show(want), show(v.A[3]))
	}
	member := len(want.A) == 0 && v.A[2].K == KNil
	for _, x := range want.A {
		member = member || Equal(x, v.A[2])
	}
	if !member {
		return core.Failf("rand gives %s of %s", show(v.A[2]), show(want))
	}
	return core.OK(len(want.A) > 1, "random")
}

func c11Random(r *rapid.T) *c11Rnd {
	g := gen.New(r)
	d := DArr()
	for i, n := 0, g.N(12); i < n; i++ {
		d.A = append(d.A, *c11Datum(g, 1))
	}
	return &c11Rnd{Arr: d}
}

func init() {
	calls := func(th bool, yield func(func() *c11Case)) {
		turn := 0
		for _, r := range c11Recvs() {
			for _, name := range allBuiltins() {
				known := IsBuiltin(r.Value().K, name)
				c11Lists(func(args []*D) {
					if !known && len(args) > 1 {
						return
					}
					turn++
					t, a := turn, args
					for w := 0; w < 9; w++ {
						if !th && (w != t%9 && (!known || w%4 != t%4)) {
							continue
						}
						yield(func() *c11Case { return c11Call(r, name, a, w+9*(t%2)) })
					}
				})
			}
		}
	}
	small := func(th bool, yield func(func() *c11Case)) {
		turn := 0
		c11Small(th, func(r *D, name string, args ...*D) {
			turn++
			t := turn
			yield(func() *c11Case { return c11Call(r, name, args, t) })
		})
	}
	register(&core.Prop{
		ID: "C11", Level: "exploration",
		Families: []core.Family{
			core.New(core.Fam[*c11Case]{
				Name: "calls", Rule: "every built-in name (and unknown names) x a catalogue of receivers of every kind x argument lists of 0 to 4 arguments of every kind, written as variables, literals, elements, properties, results; a custom probe function receives the result, receiver and arguments as Go values; non-trivial: the contract defines the result or demands an error",
				Enum: calls, Judge: judge11,
			}),
			core.New(core.Fam[*c11Case]{
				Name: "small", Rule: "all (length, start, end) for slice, positions for at, limits for truncate, words over small alphabets for the string functions, all pairs of values for contains, integer and float grids around every rounding boundary; non-trivial: the contract defines the result",
				Enum: small, Judge: judge11,
			}),
			core.New(core.Fam[*c11Case]{
				Name: "sequences", Rule: "three calls derived from one array (14 ways to make it, 14 calls each, from the array or from earlier results), all values probed afterwards, so that values sharing memory show; non-trivial: always",
				Enum: c11Seqs, Judge: judge11,
			}),
			core.New(core.Fam[*c11Case]{
				Name: "programs", Rule: "random sequences of up to 7 calls on data and earlier results, with random Unicode strings, nested values and occasional wrong kinds; non-trivial: the contract defines the outcome",
				Gen: c11Program, Quick: 60000, Thorough: 3000000, Judge: judge11,
			}),
			core.New(core.Fam[*c11Rnd]{
				Name: "random", Rule: "shuffle and rand on random arrays: permutation, member, receiver unchanged; non-trivial: more than one element",
				Gen: c11Random, Quick: 8000, Thorough: 400000, Judge: judge11Rnd,
			}),
			core.New(core.Fam[*c11Case]{
				Name: "precedence", Rule: "the families calls and small thinned out, and random programs, with custom functions registered under the name of every built-in of the receiver type; non-trivial: the contract defines the outcome",
				Enum: func(th bool, yield func(func() *c11Case)) {
					n := 0
					thin := func(f func() *c11Case) {
						n++
						if !th && n%11 != 0 || th && n%3 != 0 {
							return
						}
						yield(func() *c11Case {
							c := f()
							c.Poison = true
							return c
						})
					}
					calls(false, thin)
					small(false, thin)
				},
				Gen: func(r *rapid.T) *c11Case {
					c := c11Program(r)
					c.Poison = true
					return c
				}, Quick: 6000, Thorough: 300000, Judge: judge11,
			}),
			core.New(core.Fam[*c11Rnd]{
				Name: "precedence-random", Rule: "the family random with the custom functions registered; non-trivial: more than one element",
				Gen: func(r *rapid.T) *c11Rnd {
					c := c11Random(r)
					c.Poison = true
					return c
				}, Quick: 1000, Thorough: 40000, Judge: judge11Rnd,
			}),
			escapedFam(nil,
				&textCase{Src: `{{ "<".len() }}`, Want: "1"},
				&textCase{Src: `{{ "a&b".at(2) }}`, Want: "b"},
				&textCase{Src: `{{ "a>b".reverse().len() }}`, Want: "3"},
			),
		},
		Assumptions: []string{
			"more arguments than a function knows, negative or enormous counts, case mappings that differ between upper and title case, numbers outside the integer range are only checked for purity, valid UTF-8 and the absence of a crash",
			"string literals with & < > are not used as receivers or arguments (known finding: they are escaped before the function sees them)",
		},
	})
}
