package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// sameData tells whether the data is as it was; functions are not comparable.
func sameData(a, b map[string]any, c *NatCase) bool {
	if len(a) != len(b) {
		return false
	}
	for k, n := range c.Vars {
		x, ok := a[k]
		if !ok || reflect.TypeOf(x) != reflect.TypeOf(b[k]) {
			return false
		}
		if _, st := n.Value(); st == natOK && !reflect.DeepEqual(x, b[k]) {
			return false
		}
		if st := reflect.ValueOf(x); st.Kind() == reflect.Slice && st.Cap() > st.Len() {
			// the spare capacity must still be zero
			full := st.Slice(0, st.Cap())
			for i := st.Len(); i < st.Cap(); i++ {
				if !full.Index(i).IsZero() {
					return false
				}
			}
		}
	}
	return true
}

func judgeNat(c *NatCase) core.Verdict { return judgeNatBy(c, textwire.EvaluateString) }

// judgeNatFile renders a page of a directory that has a layout and a component.
func judgeNatFile(c *NatCase) core.Verdict {
	return judgeNatBy(c, func(src string, data map[string]any) (string, error) {
		f := map[string]string{"page.tw": src, "layouts/l.tw": "@reserve('r')", "components/c.tw": "@slot", "in.tw": "@use('~l')@insert('r')" + src + "@end", "slot.tw": "@component('~c')@slot" + src + "@end@end"}
		writeTree("t", f)
		tpl, err := load("t", ".tw", false)
		if err != nil {
			return "", err
		}
		var outs, errs []string
		for _, page := range []string{"page", "in", "slot"} {
			out, ferr := tpl.String(page, data)
			msg := ""
			if ferr != nil {
				msg, err = ferr.Message(), ferr.Error()
			}
			outs, errs = append(outs, out), append(errs, msg)
		}
		for i := range outs {
			if outs[i] != outs[0] || errs[i] != errs[0] {
				panic(fmt.Sprintf("the page, the insert and the slot see different data: %q %q\nsource: %q", outs, errs, src))
			}
		}
		return outs[0], err
	})
}

func judgeNatBy(c *NatCase, render func(string, map[string]any) (string, error)) core.Verdict {
	data, st := c.data()
	src := PrintB(c.Prog, &Layout{B: c.Layout})
	native, before := c.native(), c.native()
	var ref Result
	if st == natOK && c.Hidden == "" {
		ref = (&Interp{}).Eval(c.Prog, data)
		if ref.Endless {
			return core.OK(false, "endless")
		}
	}
	out, err := render(src, native)
	if !sameData(native, before, c) {
		return core.Failf("rendering changed the data\nbefore: %#v\nafter: %#v\nsource: %q", before, native, src)
	}
	switch {
	case c.Hidden != "":
		if err == nil && strings.Contains(out, c.Hidden) {
			return core.Failf("an unexported field is reachable: %q\nsource: %q\ndata: %#v", out, src, native)
		}
		return core.OK(true, "unexported")
	case st == natUnsupported:
		if err == nil {
			return core.Failf("unsupported data gave output %q\nsource: %q\ndata: %#v", out, src, native)
		}
		if out != "" {
			return core.Failf("the error %q came with output %q", err, out)
		}
		return core.OK(true, "unsupported")
	case st == natUnclear:
		return core.OK(false, "unclear")
	}
	d := diff(src, ref, out, err)
	if d != "" {
		return core.Failf("%s\ndata: %#v", d, native)
	}
	return core.OK(!ref.Unspec, class(ref))
}

// c12Wrap wraps a value once more, and says how to reach it.
var c12Wraps = []struct {
	name string
	wrap func(n *Nat) *Nat
	path func(e *E, turn int) *E
}{
	{"ptr", func(n *Nat) *Nat { return &Nat{&NT{K: "ptr", Elem: n.T}, &NV{A: []*NV{n.V}}} }, func(e *E, turn int) *E { return e }},
	{"any", func(n *Nat) *Nat { return &Nat{&NT{K: "any"}, &NV{Dyn: n.T, A: []*NV{n.V}}} }, func(e *E, turn int) *E { return e }},
	{"first", func(n *Nat) *Nat { return &Nat{&NT{K: "slice", Elem: n.T}, &NV{A: []*NV{n.V}}} }, func(e *E, turn int) *E { return Idx(e, Int("0")) }},
	{"third", func(n *Nat) *Nat { return &Nat{&NT{K: "slice", Elem: n.T}, &NV{A: []*NV{n.V, n.V, n.V, n.V}}} }, func(e *E, turn int) *E { return Idx(e, Int("2")) }},
	{"map", func(n *Nat) *Nat {
		return &Nat{&NT{K: "map", Elem: n.T}, &NV{Keys: [][]byte{[]byte("a"), []byte("key"), []byte("Key2")}, A: []*NV{n.V, n.V, n.V}}}
	}, func(e *E, turn int) *E {
		if turn%3 == 1 {
			return Idx(e, Str("key"))
		}
		return Dot(e, []string{"key", "a", "Key2"}[turn%3])
	}},
	{"struct", func(n *Nat) *Nat {
		i := &NT{K: "int"}
		return &Nat{&NT{K: "struct", Fields: []NF{{"First", i}, {"hidden", i}, {"Field", n.T}, {"Last", i}}}, &NV{A: []*NV{{I: 1}, {I: 424242}, n.V, {I: 3}}}}
	}, func(e *E, turn int) *E {
		switch turn % 4 {
		case 0:
			return Dot(e, "Field")
		case 1:
			return Dot(e, "field")
		case 2:
			return Idx(e, Str("field"))
		}
		return Idx(e, Str("Field"))
	}},
}

// c12Leaves are values without structure, nil and empty ones.
func c12Leaves() []*Nat {
	var out []*Nat
	add := func(k string, v *NV) { out = append(out, &Nat{&NT{K: k}, v}) }
	for _, k := range natInts {
		lo, hi := natRange(k)
		for _, i := range []int64{0, 1, lo, hi, 100} {
			add(k, &NV{I: i})
		}
	}
	for _, k := range []string{"float64", "float32"} {
		for _, f := range []float64{0, 1, -1.5, 0.25, 1e10, 0.1, 16777217, 1e-7, 3.3e38, -2.7} {
			add(k, &NV{F: f})
		}
	}
	add("float64", &NV{F: float64(float32(0.1))})
	add("float64", &NV{F: 1.7e308})
	add("float64", &NV{F: 5e-324})
	add("float64", &NV{F: math.MaxInt32})
	for _, s := range natStrs {
		add("string", &NV{S: []byte(s)})
	}
	add("bool", &NV{B: true})
	add("bool", &NV{})
	add("any", &NV{Nil: true})
	str := &NT{K: "string"}
	for _, k := range []string{"ptr", "slice", "map"} {
		out = append(out, &Nat{&NT{K: k, Elem: str}, &NV{Nil: true}})
		out = append(out, &Nat{&NT{K: k, Elem: &NT{K: "struct", Fields: []NF{{"A", str}}}}, &NV{Nil: true}})
	}
	out = append(out, &Nat{&NT{K: "slice", Elem: str}, &NV{}}, &Nat{&NT{K: "map", Elem: str}, &NV{}}, &Nat{&NT{K: "struct"}, &NV{}})
	for _, b := range natBad {
		add(b, &NV{})
		add(b, &NV{Nil: true})
	}
	return out
}

func c12Enum(th bool, yield func(func() *NatCase)) {
	depth := 3
	if th {
		depth = 4
	}
	turn := 0
	var rec func(n *Nat, path []int, left int)
	emit := func(n *Nat, path []int, read func(e *E) []*S) {
		turn++
		t := turn
		path = append([]int{}, path...)
		yield(func() *NatCase {
			e := Var("x")
			// the last wrapper is the outermost one
			for i := len(path) - 1; i >= 0; i-- {
				e = c12Wraps[path[i]].path(e, t>>(2*uint(i)))
			}
			return &NatCase{Prog: read(e), Vars: map[string]*Nat{"x": n}}
		})
	}
	reads := []func(e *E) []*S{
		func(e *E) []*S { return []*S{Text("<"), Print(e), Text(">")} },
		func(e *E) []*S { return []*S{Assign("y", e), Text("|"), Print(Var("y"))} },
		func(e *E) []*S { return []*S{Each("y", Arr(e, e), Print(Var("y")), Text("|"))} },
		func(e *E) []*S {
			return []*S{Print(Dot(Obj([]string{"q"}, e), "q")), Text("|"), Print(Tern(Bool(true), e, Nil()))}
		},
		func(e *E) []*S { return []*S{If(e, Text("T")), Print(e), Print(Var("x"))} },
	}
	rec = func(n *Nat, path []int, left int) {
		emit(n, path, reads[turn%len(reads)])
		if left == 0 {
			return
		}
		for i, w := range c12Wraps {
			if w.name == "any" && n.T.K == "any" {
				continue
			}
			rec(w.wrap(n), append(path[:len(path):len(path)], i), left-1)
		}
	}
	for _, l := range c12Leaves() {
		rec(l, nil, depth)
	}
	// keys
	one := &Nat{&NT{K: "int"}, &NV{I: 1}}
	for _, k := range append(append([]string{}, natKeys...), natStrs...) {
		for _, other := range append([]string{"", "zz"}, natKeys...) {
			if other == k {
				continue
			}
			for how := 0; how < 3; how++ {
				if how == 0 && !dotKey(k) || how == 1 && !quotable(k) {
					continue
				}
				yield(func() *NatCase {
					m := &Nat{&NT{K: "map", Elem: &NT{K: "string"}}, &NV{Keys: [][]byte{[]byte(k), []byte(other)}, A: []*NV{{S: []byte("hit")}, {S: []byte("miss")}}}}
					c := &NatCase{Vars: map[string]*Nat{"m": m}}
					e := Dot(Var("m"), k)
					if how == 1 {
						e = Idx(Var("m"), Str(k))
					} else if how == 2 {
						c.Vars["k"] = &Nat{&NT{K: "string"}, &NV{S: []byte(k)}}
						e = Idx(Var("m"), Var("k"))
					}
					c.Prog = []*S{Print(e)}
					return c
				})
			}
		}
	}
	// fields, exported or not
	for _, a := range append(append([]string{}, natFields...), natHidden...) {
		for _, b := range append(append([]string{""}, natFields...), natHidden...) {
			if a == b {
				continue
			}
			names := []string{a, lowerFirst(a), strings.ToUpper(a[:1]) + a[1:], strings.ToLower(a), strings.ToUpper(a)}
			for i, use := range names {
				for how := 0; how < 3; how++ {
					if how == 0 && !dotKey(use) {
						continue
					}
					yield(func() *NatCase {
						t := &NT{K: "struct", Fields: []NF{{a, &NT{K: "string"}}}}
						v := &NV{A: []*NV{{S: []byte("val-" + a)}}}
						if b != "" {
							t.Fields = append(t.Fields, NF{b, one.T})
							v.A = append(v.A, &NV{I: 5})
						}
						c := &NatCase{Vars: map[string]*Nat{"s": {t, v}}}
						e := Dot(Var("s"), use)
						if how == 1 {
							e = Idx(Var("s"), Str(use))
						} else if how == 2 {
							c.Vars["k"] = &Nat{&NT{K: "string"}, &NV{S: []byte(use)}}
							e = Idx(Var("s"), Var("k"))
						}
						c.Prog = []*S{Text("["), Print(e), Text("]")}
						if !exported(a) {
							c.Hidden = "val-" + a
						} else if i > 1 && use != a && use != lowerFirst(a) {
							c.Prog = []*S{Print(Dot(Var("s"), a))}
							if !dotKey(a) {
								c.Prog = []*S{Print(Idx(Var("s"), Str(a)))}
							}
						}
						return c
					})
				}
			}
		}
	}
}

// c12Touch are expressions that work on arrays and objects.
func c12Touch(g *gen.G, e *E, v V) *E {
	switch v.K {
	case KArr:
		switch g.N(8) {
		case 0:
			return Call(Call(e, "append", Int("1"), Str("z")), "len")
		case 1:
			return Call(e, "reverse")
		case 2:
			return Call(e, "prepend", Nil())
		case 3:
			return Call(Call(e, "slice", Int("0"), Int("1")), "append", Int("99"))
		case 4:
			return Call(Call(e, "shuffle"), "len")
		case 5:
			return Call(e, "join", Str("+"))
		case 6:
			return Call(e, "contains", Int("1"))
		}
		return Call(e, "len")
	case KStr:
		return Call(e, gen.Pick(g, []string{"len", "trim", "first", "reverse"}))
	case KInt:
		return Bin("+", e, Int("1"))
	}
	return e
}

func c12Gen(bad int) func(r *rapid.T) *NatCase {
	return func(r *rapid.T) *NatCase {
		g := gen.New(r)
		c := &NatCase{Vars: map[string]*Nat{}}
		names := []string{"x", "y", "user"}
		for i, n := 0, 1+g.N(3); i < n; i++ {
			c.Vars[names[i]] = natDraw(g, 4, bad)
			// something with structure, most of the time
			if k := c.Vars[names[i]].T.K; g.N(4) > 0 && k != "struct" && k != "map" && k != "slice" {
				t := &NT{K: gen.Pick(g, []string{"slice", "map"}), Elem: natType(g, 3, bad)}
				c.Vars[names[i]] = &Nat{t, natValue(g, t, 4, bad)}
			}
		}
		extra := map[string]*Nat{}
		for i, n := 0, 1+g.N(4); i < n; i++ {
			root := gen.Pick(g, names[:len(c.Vars)])
			if _, st := c.Vars[root].Value(); st != natOK {
				c.Prog = append(c.Prog, Print(Var(root)))
				continue
			}
			e, v := natPath(g, root, c.Vars[root], extra)
			if g.N(3) == 2 {
				e = c12Touch(g, e, v)
			}
			switch g.N(5) {
			case 0:
				c.Prog = append(c.Prog, Assign("t"+itoa(i), e), Print(Var("t"+itoa(i))))
			case 1:
				c.Prog = append(c.Prog, &S{K: "dump", X: []*E{Int("1")}}, Print(e))
				c.Prog = c.Prog[:len(c.Prog)-2]
				c.Prog = append(c.Prog, Each("q", Arr(e), Print(Var("q"))))
			case 2:
				c.Prog = append(c.Prog, If(e, Text("yes")), Print(e))
			default:
				c.Prog = append(c.Prog, Print(e))
			}
			c.Prog = append(c.Prog, Text("|"))
		}
		for k, n := range extra {
			c.Vars[k] = n
		}
		c.Layout = g.Layout()
		return c
	}
}

func init() {
	register(&core.Prop{ID: "C12", Level: "exploration", Families: []core.Family{
		core.New(core.Fam[*NatCase]{
			Name:  "shapes",
			Rule:  "exhaustive: 110 leaves (every integer width at its bounds, floats, strings, nil and empty values of every kind, every unsupported kind) under every sequence of up to 3 (thorough 4) of 6 wrappers (pointer, interface, slice positions, map, struct), read by dot, index, through assignments, loops, objects; every pair of keys by dot, literal and variable; every pair of field names, exported and not, in every spelling; non-trivial: the reference defines the result",
			Enum:  c12Enum,
			Judge: judgeNat,
		}),
		core.New(core.Fam[*NatCase]{
			Name: "random",
			Rule: "random types and values to depth 5, random paths into them, read and used by functions that must not change them; the data is compared with an equal copy afterwards, spare slice capacity included; non-trivial: the reference defines the result",
			Gen:  c12Gen(0), Quick: 300000, Thorough: 4000000,
			Judge: judgeNat,
		}),
		core.New(core.Fam[*NatCase]{
			Name: "unsupported",
			Rule: "the same with unsupported kinds at random places; non-trivial: the reference defines the result, an error included",
			Gen:  c12Gen(60), Quick: 100000, Thorough: 1000000,
			Judge: judgeNat,
		}),
		core.New(core.Fam[*NatCase]{
			Name: "files",
			Rule: "random data as in random and unsupported, read by a page, an insert of a layout and a slot of a component that are rendered by Template.String; non-trivial: the reference defines the result",
			Gen:  c12Gen(20), Quick: 20000, Thorough: 200000,
			Judge: judgeNatFile,
		}),
		escapedFam(nil, &textCase{Src: `{{ k = "a&b"; o[k] }}`, Data: Data{"o": DObj(map[string]*D{"a&b": DInt(7)})}, Want: "7"}),
	}, Assumptions: []string{
		"unsigned values beyond int64 and uintptr are outside of the statement",
		"whether a nil pointer to, an empty slice of, or an unexported field of an unsupported type is an error is not judged",
	}})
}
