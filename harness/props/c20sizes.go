package props

import (
	"fmt"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"verif/harness/core"
	. "verif/harness/lang"
)

// szC20 are programs with id20, for the reference evaluator.
var szC20 = []szKind{
	{name: "calls in a row", max: 300, more: 1000, vs: 5, prog: func(c sz) *Case {
		r := []*E{Str("s"), Arr(), Int("1"), Flt("1.5"), Bool(true)}[c.V]
		return one(Print(nestE(c.N, r, func(i int, e *E) *E { return Call(e, "id20") })))
	}},
	{name: "calls in arguments", max: 150, more: 400, vs: 4, prog: func(c sz) *Case {
		r := []*E{Str("s"), Int("1"), Flt("1.5"), Bool(true)}[c.V]
		return one(Print(nestE(c.N, Int("7"), func(i int, e *E) *E { return Call(r, "id20", e, Int(itoa(i))) })))
	}},
	{name: "passes", max: 3000, more: 20000, vs: 5, prog: func(c sz) *Case {
		r := []*E{Str("s"), Arr(Int("1")), Int("1"), Flt("1.5"), Bool(true)}[c.V]
		return one(&S{K: "for", Init: &Part{N: "i", E: Int("0")}, Cond: Bin("<", Var("i"), Int(itoa(c.N))), Post: &Part{E: Post("++", Var("i"))}, B: []*S{Print(Call(r, "id20", Var("i"))), Text(" ")}})
	}},
	{name: "calls one after the other", max: 2000, more: 10000, vs: 5, prog: func(c sz) *Case {
		return one(stmts(c.N, func(i int) *S {
			r := []*E{Str("s"), Arr(Int("1")), Int("1"), Flt("1.5"), Bool(true)}[(c.V+i)%5]
			return Print(Call(r, "id20", Int(itoa(i))))
		})...)
	}},
	{name: "elements", max: 2000, more: 20000, vs: 2, prog: func(c sz) *Case {
		r := Arr(exprs(c.N, func(i int) *E { return Int(itoa(i)) })...)
		if c.V == 1 {
			return one(Assign("x", Call(r, "id20", Int("1"))), Print(Call(Var("x"), "len")), Text(" "), Print(Idx(Var("x"), Int(itoa(c.N-1)))), Print(Var("x")))
		}
		return one(Print(Call(Call(r, "id20"), "id20", Str("z"))))
	}},
}

// c20Size calls rec20 with something long, or works with many functions.
type c20Size struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	V    int    `json:"v"`
}

var c20Unique int

// c20SizeKinds give the receiver and the arguments.
var c20SizeKinds = []struct {
	name string
	max  int
	make func(n, v int) (*D, []*D)
}{
	{"arguments", 1100, func(n, v int) (*D, []*D) {
		var args []*D
		for i := 0; i < n; i++ {
			args = append(args, c11Elem([]string{"mixed", "ints", "objects", "strings"}[v%4], i, n))
		}
		return []*D{DStr("r"), DArr(), DInt(1), DFloat(2.5), DBool(true)}[v%5], args
	}},
	{"elements of the receiver", 5000, func(n, v int) (*D, []*D) {
		r := DArr()
		for i := 0; i < n; i++ {
			r.A = append(r.A, *c11Elem([]string{"mixed", "ints", "objects", "arrays"}[v%4], i, n))
		}
		return r, []*D{DInt(1)}
	}},
	{"elements of an argument", 5000, func(n, v int) (*D, []*D) {
		r := DArr()
		for i := 0; i < n; i++ {
			r.A = append(r.A, *c11Elem([]string{"mixed", "ints", "objects", "arrays"}[v%4], i, n))
		}
		return DStr("x"), []*D{r, DInt(1), r}
	}},
	{"entries of an argument", 3000, func(n, v int) (*D, []*D) {
		r := DObj(map[string]*D{})
		for i := 0; i < n; i++ {
			r.O["k"+itoa(i)] = c11Elem("mixed", i, n)
		}
		return DInt(5), []*D{r, DArr(*r)}
	}},
	{"depth", 300, func(n, v int) (*D, []*D) {
		d := DStr("deep")
		for i := 0; i < n; i++ {
			if (i+v)%2 == 0 {
				d = DArr(*DInt(int64(i)), *d)
			} else {
				d = DObj(map[string]*D{"k": d, "l": DNil()})
			}
		}
		return DArr(*d), []*D{d}
	}},
	{"string", 70000, func(n, v int) (*D, []*D) {
		s := strings.Repeat([]string{"x", "é", "\xff", "<"}[v%4], n)
		return DStr(s), []*D{DStr(s + "!"), DArr(*DStr(s))}
	}},
	{"key", 5000, func(n, v int) (*D, []*D) {
		k := strings.Repeat([]string{"x", "é", "a b", "&"}[v%4], n)
		return DFloat(1.5), []*D{DObj(map[string]*D{k: DInt(1), k + "1": DInt(2)})}
	}},
}

func judge20Size(c c20Size) core.Verdict {
	switch c.Kind {
	case "functions", "names":
		return judge20Many(c)
	}
	for _, k := range c20SizeKinds {
		if k.name != c.Kind {
			continue
		}
		r, args := k.make(c.N, c.V)
		x := &c20Conv{Recv: r, Args: args}
		x.Data = Data{}
		write := func(n string, d *D, lit bool) *E {
			if l := deepLit(d); l != nil && lit {
				return l
			}
			x.Data[n] = d
			return Var(n)
		}
		var es []*E
		for i, a := range args {
			es = append(es, write("a"+itoa(i), a, (c.V+i)%2 == 0))
		}
		x.Prog = []*S{Print(Call(write("r", r, c.V%3 == 0), "rec20", es...))}
		v := judge20Conv(x)
		v.Class = c.Kind
		return v
	}
	return core.Failf("no kind %s", c.Kind)
}

// judge20Many registers many functions, or functions with long names, and
// then calls them all.
func judge20Many(c c20Size) core.Verdict {
	c20Unique++
	var names []string
	if c.Kind == "functions" {
		for i := 0; i < c.N; i++ {
			names = append(names, fmt.Sprintf("u%d_%d", c20Unique, i))
		}
	} else {
		base := "n" + itoa(c20Unique) + strings.Repeat([]string{"x", "_", "Aa", "z9"}[c.V%4], c.N)
		names = []string{base, base + "1", base + "_", base[:len(base)-1] + "Q", strings.ToUpper(base[:1]) + base[1:], base + base}
	}
	kind := func(i int) string { return kinds20[(i+c.V)%5] }
	kind2 := func(i int) string { return kinds20[(i+c.V+2)%5] }
	for i, n := range names {
		for j, k := range []string{kind(i), kind2(i)} {
			if err := reg20(k, n, 2*i+j); err != nil {
				return core.Failf("registering %s (%d of %d) for %s fails: %v", n, i+1, len(names), k, err)
			}
		}
	}
	for i, n := range names {
		if err := reg20(kind(i), n, 999999); err == nil {
			return core.Failf("registering %s for %s again (%d functions) succeeds", n, kind(i), len(names))
		}
	}
	for i, n := range names {
		for j, k := range kinds20 {
			id := -1
			if k == kind(i) {
				id = 2 * i
			} else if k == kind2(i) {
				id = 2*i + 1
			}
			log20 = nil
			out, err := textwire.EvaluateString("{{ "+recv20[k][0].lit+"."+n+"(1) }}", nil)
			switch {
			case id < 0:
				if err == nil {
					return core.Failf("%s was not registered for %s (%d functions) but gives %q", n, k, len(names), out)
				}
				if !strings.Contains(err.Error(), n) || !strings.Contains(strings.ToLower(err.Error()), type20[k][0]) {
					return core.Failf("the error %q does not name %s and %s", err, n, k)
				}
			case err != nil:
				return core.Failf("%s was registered for %s (function %d of %d) but fails: %v", n, k, i+1, len(names), err)
			case len(log20) != 1 || !strings.HasPrefix(log20[0], fmt.Sprintf("%s.%s#%d(", k, n, id)):
				return core.Failf("%s of %s calls %q instead of function %d", n, k, log20, id)
			}
			_ = j
		}
	}
	return core.OK(true, c.Kind)
}

// ---- functions that use the library

type c20Re struct {
	Kind string `json:"kind"`
	What int    `json:"what"`
	How  int    `json:"how"`
}

var re20 func() string
var ready20Re bool

var c20ReSrcs = []string{"{{ %s.re20() }}", "{{ x = %s.re20(); x }}{{ x }}", "@each(i in [1, 2]){{ %s.re20() }}{{ i }}{{ loop.index }}@end{{ y }}", "@if(true){{ %s.re20() }}@end{{ y }}", "{{ [%s.re20(), y, %s.re20()].len() }}", "{{ y }}{{ %s.re20(y, %s.re20()) }}{{ y }}"}

func judge20Re(c c20Re) core.Verdict {
	if !ready20Re {
		ready20Re = true
		for _, err := range []error{
			textwire.RegisterStrFunc("re20", func(s string, _ ...any) string { return s + re20() }),
			textwire.RegisterArrFunc("re20", func(s []any, _ ...any) []any { return append([]any{re20()}, s...) }),
			textwire.RegisterIntFunc("re20", func(s int, _ ...any) int { re20(); return s + 1 }),
			textwire.RegisterFloatFunc("re20", func(s float64, _ ...any) float64 { re20(); return s + 1 }),
			textwire.RegisterBoolFunc("re20", func(s bool, _ ...any) bool { re20(); return !s }),
		} {
			if err != nil {
				panic(err)
			}
		}
	}
	src := strings.ReplaceAll(c20ReSrcs[c.How], "%s", recv20[c.Kind][0].lit)
	data := map[string]any{"y": "Y", "v": recv20[c.Kind][0].d.Native()}
	page := strings.ReplaceAll(c20ReSrcs[c.How], "%s", "v")
	writeTree("t", map[string]string{"p.tw": page, "in.tw": "inner {{ y }}", "bad.tw": "{{ none }}", "u.tw": "@use('l')@insert('r')" + page + "@end", "l.tw": "<@reserve('r')>", "k.tw": "@component('c')@slot" + page + "@end@end", "c.tw": "[@slot]"})
	tpl, err := load("t", ".tw", false)
	if err != nil {
		return core.Failf("loading failed: %v", err)
	}
	n := 0
	deep := 0
	inner := []func() string{
		func() string { return "" },
		func() string {
			out, err := textwire.EvaluateString("inner {{ y = 5; y }}", map[string]any{"z": 1})
			if err != nil || out != "inner 5" {
				return fmt.Sprintf("WRONG %q %v", out, err)
			}
			return ""
		},
		func() string {
			out, err := textwire.EvaluateString("a {{ none }}", nil)
			if err == nil || out != "" {
				return fmt.Sprintf("WRONG %q %v", out, err)
			}
			return ""
		},
		func() string {
			out, err := tpl.String("in", map[string]any{"y": 3})
			if err != nil || out != "inner 3" {
				return fmt.Sprintf("WRONG %q %v", out, err)
			}
			return ""
		},
		func() string {
			out, err := tpl.String("bad", map[string]any{"y": 3})
			if err == nil || out != "" {
				return fmt.Sprintf("WRONG %q %v", out, err)
			}
			return ""
		},
		func() string {
			out, err := textwire.EvaluateFile("t/in.tw", map[string]any{"y": true})
			if err != nil || out != "inner 1" {
				return fmt.Sprintf("WRONG %q %v", out, err)
			}
			return ""
		},
		func() string {
			c20Unique++
			name := fmt.Sprintf("late%d_%d", c20Unique, n)
			n++
			if err := textwire.RegisterStrFunc(name, func(s string, _ ...any) string { return "late" }); err != nil {
				return "WRONG " + err.Error()
			}
			if out, err := textwire.EvaluateString("{{ 'a'."+name+"() }}", nil); err != nil || out != "late" {
				return fmt.Sprintf("WRONG %q %v", out, err)
			}
			return ""
		},
		func() string {
			if _, err := load("t", ".tw", false); err != nil {
				return "WRONG " + err.Error()
			}
			return ""
		},
		func() string {
			if deep > 3 {
				return ""
			}
			deep++
			defer func() { deep-- }()
			out, err := textwire.EvaluateString("{{ 1.re20() }}", nil)
			if err != nil || out != "2" {
				return fmt.Sprintf("WRONG %q %v", out, err)
			}
			return ""
		},
	}
	outs := func(f func() string) []string {
		re20 = f
		var all []string
		add := func(out string, err error) { all = append(all, fmt.Sprintf("%q %v", out, err)) }
		add(textwire.EvaluateString(src, data))
		for _, p := range []string{"p", "u", "k"} {
			out, ferr := tpl.String(p, data)
			if ferr != nil {
				add(out, ferr.Error())
			} else {
				add(out, nil)
			}
		}
		add(textwire.EvaluateFile("t/p.tw", data))
		return all
	}
	want, got := outs(inner[0]), outs(inner[c.What])
	for i := range want {
		if want[i] != got[i] || strings.Contains(got[i], "WRONG") {
			return core.Failf("with a function that uses the library (%d): %s instead of %s\nsource: %q", c.What, got[i], want[i], src)
		}
	}
	return core.OK(c.What > 0, "re-entrant")
}

func init() {
	p := Get("C20")
	p.Families = append(p.Families,
		szFamBy("programs with many calls", "programs with calls of custom functions", szC20, judge20Prog),
		core.New(core.Fam[c20Size]{
			Name: "sizes",
			Rule: "N arguments, receivers and arguments of N elements, entries, bytes or levels, N registered functions, names of N bytes; N to 40 and within 2 of the powers of two and ten (arguments to 1100, elements 5000, strings 70000, functions 1100); non-trivial: all",
			Enum: func(th bool, yield func(func() c20Size)) {
				for ki, k := range c20SizeKinds {
					max := k.max
					if th {
						max *= 5
					}
					if k.name == "depth" {
						max = k.max
					}
					for i, n := range szNumbers(max) {
						for v := 0; v < 5; v++ {
							if !th && n > 40 && (i+v+ki)%2 != 0 {
								continue
							}
							yield(func() c20Size { return c20Size{k.name, n, v} })
						}
					}
				}
				for i, n := range szNumbers(1100) {
					if i%3 == 0 || n > 40 {
						yield(func() c20Size { return c20Size{"functions", n, i} })
					}
					yield(func() c20Size { return c20Size{"names", n, i} })
				}
			},
			Judge: judge20Size,
		}),
		core.New(core.Fam[c20Re]{
			Name: "functions that use the library",
			Rule: "functions of the five types that evaluate strings, files and loaded templates, fail, load, register others or call themselves through a template, in six templates evaluated five ways: the outcome is that of functions that do nothing; non-trivial: the function uses the library",
			Enum: func(_ bool, yield func(func() c20Re)) {
				for _, k := range kinds20 {
					for w := 0; w < 9; w++ {
						for h := range c20ReSrcs {
							yield(func() c20Re { return c20Re{k, w, h} })
						}
					}
				}
			},
			Judge: judge20Re,
		}))
}
