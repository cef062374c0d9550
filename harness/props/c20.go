package props

import (
	"fmt"
	"slices"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// log20 lists the custom functions that were called, with what they received.
var log20 []string

// reg20 registers a function that tells which one it is.
func reg20(kind, name string, id int) error {
	call := func(recv any, args []any) {
		log20 = append(log20, fmt.Sprintf("%s.%s#%d(%s)", kind, name, id, goAll(append([]any{recv}, args...))))
	}
	switch kind {
	case "str":
		return textwire.RegisterStrFunc(name, func(s string, args ...any) string { call(s, args); return fmt.Sprintf("%s#%d", s, id) })
	case "arr":
		return textwire.RegisterArrFunc(name, func(a []any, args ...any) []any { call(a, args); return []any{len(a), id} })
	case "int":
		return textwire.RegisterIntFunc(name, func(n int, args ...any) int { call(n, args); return 1000 + id })
	case "float":
		return textwire.RegisterFloatFunc(name, func(f float64, args ...any) float64 { call(f, args); return 0.5 + float64(id) })
	case "bool":
		return textwire.RegisterBoolFunc(name, func(b bool, args ...any) bool { call(b, args); return id%2 == 1 })
	}
	panic("bad kind " + kind)
}

func goAll(xs []any) string {
	var p []string
	for _, x := range xs {
		v, err := fromGo(x)
		if err != nil {
			p = append(p, err.Error())
		} else {
			p = append(p, show(v))
		}
	}
	return strings.Join(p, ", ")
}

var kinds20 = []string{"str", "arr", "int", "float", "bool"}

// recv20 are receivers: how they are written, and as data.
var recv20 = map[string][]struct {
	lit string
	d   *D
}{
	"str":   {{"'x'", DStr("x")}, {`""`, DStr("")}, {"('a' + 'b')", DStr("ab")}, {"'é\n'", DStr("é\n")}, {"['p', 'q'][1]", DStr("q")}, {"{k: 'v'}.k", DStr("v")}, {"(true ? 'y' : 'n')", DStr("y")}},
	"arr":   {{"[1, 'a']", DArr(*DInt(1), *DStr("a"))}, {"[]", DArr()}, {"[[1], nil, {k: [2.5]}]", DArr(*DArr(*DInt(1)), *DNil(), *DObj(map[string]*D{"k": DArr(*DFloat(2.5))}))}, {"{k: [true]}.k", DArr(*DBool(true))}},
	"int":   {{"7", DInt(7)}, {"0", DInt(0)}, {"(-3)", DInt(-3)}, {"9223372036854775807", DInt(9223372036854775807)}, {"(1 + 2 * 3)", DInt(7)}, {"[5][0]", DInt(5)}},
	"float": {{"1.5", DFloat(1.5)}, {"0.0", DFloat(0)}, {"(-2.25)", DFloat(-2.25)}, {"(1.0 + 0.5)", DFloat(1.5)}},
	"bool":  {{"true", DBool(true)}, {"false", DBool(false)}, {"(1 < 2)", DBool(true)}, {"(!true)", DBool(false)}},
}

// type20 are words of which a message about the type has one.
var type20 = map[string][]string{"str": {"str"}, "arr": {"arr"}, "int": {"int"}, "float": {"float"}, "bool": {"bool"}, "obj": {"obj"}, "nil": {"nil", "null"}}

// c20Case is a history of registrations, loads and calls.
type c20Case struct {
	Steps []c20Step `json:"steps"`
	// All makes every call after every step.
	All bool `json:"all,omitempty"`
	// Names of the functions.
	Names []string `json:"names"`
}

// c20Step registers (reg), loads the templates (load), configures (configure)
// or calls.
type c20Step struct {
	K    string `json:"k"` // reg, load, eval, file, string, response
	Kind string `json:"kind,omitempty"`
	Name string `json:"name,omitempty"`
	Recv int    `json:"recv,omitempty"`
	Var  bool   `json:"var,omitempty"`
}

func (c *c20Case) builtin(kind, name string) bool {
	return IsBuiltin(map[string]byte{"str": KStr, "arr": KArr, "int": KInt, "float": KFloat, "bool": KBool}[kind], name)
}

func c20Src(st c20Step) (string, Data) {
	r := recv20[st.Kind][st.Recv%len(recv20[st.Kind])]
	if st.Var {
		return "<{{ v." + st.Name + "(1) }}>", Data{"v": r.d}
	}
	return "<{{ " + r.lit + "." + st.Name + "(1) }}>", nil
}

func judge20(c *c20Case) core.Verdict {
	f := map[string]string{"plain.tw": "plain"}
	for _, k := range kinds20 {
		for _, n := range c.Names {
			f["p/"+k+"-"+n+".tw"] = "<{{ v." + n + "(1) }}>"
			f["q/"+k+"-"+n+".tw"] = "@component('p/" + k + "-" + n + "', {v: v})"
		}
	}
	writeTree("t", f)
	type expect struct {
		st c20Step
		id int // of the first function, or -1
	}
	var ops []Op
	var exp []*expect
	regs := map[string]int{}
	loaded, id := false, 0
	call := func(st c20Step) {
		o := Op{K: st.K}
		src, d := c20Src(st)
		r := recv20[st.Kind][st.Recv%len(recv20[st.Kind])]
		switch st.K {
		case "eval":
			o.Src, o.Data = []byte(src), d
		case "file":
			o.Name, o.Data = "t/p/"+st.Kind+"-"+st.Name+".tw", Data{"v": r.d}
		default:
			if !loaded {
				return
			}
			o.Name, o.Data = []string{"p/", "q/"}[st.Recv%2]+st.Kind+"-"+st.Name, Data{"v": r.d}
		}
		e := &expect{st: st, id: -1}
		if i, ok := regs[st.Kind+" "+st.Name]; ok {
			e.id = i
		}
		ops = append(ops, o)
		exp = append(exp, e)
	}
	all := func(n int) {
		for i, k := range kinds20 {
			for j, name := range c.Names {
				call(c20Step{K: "eval", Kind: k, Name: name, Recv: n + i + j})
				call(c20Step{K: "eval", Kind: k, Name: name, Recv: n + i + 2*j, Var: true})
				call(c20Step{K: []string{"string", "response", "file"}[(n+i+j)%3], Kind: k, Name: name, Recv: n + j})
			}
		}
	}
	if c.All {
		all(0)
	}
	for i, st := range c.Steps {
		switch st.K {
		case "reg":
			ops = append(ops, Op{K: "reg", Ext: st.Kind, Name: st.Name, ID: id})
			e := &expect{st: st, id: -1}
			if old, ok := regs[st.Kind+" "+st.Name]; ok {
				e.id = old
			} else {
				regs[st.Kind+" "+st.Name] = id
			}
			exp = append(exp, e)
			id++
		case "load":
			ops = append(ops, Op{K: "load", Dir: "t", Ext: ".tw", Debug: i%2 == 1})
			exp = append(exp, &expect{st: st})
			loaded = true
		default:
			call(st)
		}
		if c.All {
			all(i + 1)
		}
	}
	if !c.All {
		all(len(c.Steps))
	}
	res, err := (&Script{Ops: ops}).fresh()
	if err != nil {
		return core.Failf("%v", err)
	}
	used := false
	for i, e := range exp {
		r := res[i]
		fail := func(format string, a ...any) core.Verdict {
			var before []string
			for _, o := range ops[:i] {
				if o.K == "reg" || o.K == "load" {
					before = append(before, fmt.Sprintf("%s %s %s", o.K, o.Ext, o.Name))
				}
			}
			return core.Failf("%s %s.%s (%s) after %v: %s\n%s, functions called: %q", ops[i].K, e.st.Kind, e.st.Name, ops[i].Src, before, fmt.Sprintf(format, a...), r, r.Log)
		}
		if r.Panic != "" {
			return fail("panic")
		}
		switch e.st.K {
		case "load":
			if r.Failed {
				return fail("loading fails")
			}
			continue
		case "reg":
			if r.Failed != (e.id >= 0) {
				return fail("registering should fail: %v", e.id >= 0)
			}
			continue
		}
		rd := recv20[e.st.Kind][e.st.Recv%len(recv20[e.st.Kind])].d
		if c.builtin(e.st.Kind, e.st.Name) {
			// the built-in function, whatever was registered
			if len(r.Log) > 0 {
				return fail("a custom function instead of the built-in one")
			}
			continue
		}
		if e.id < 0 {
			// Response has the message in its error as well
			msg := strings.ToLower(string(r.Err))
			named := slices.ContainsFunc(type20[e.st.Kind], func(w string) bool { return strings.Contains(msg, w) })
			if !r.Failed || len(r.Log) > 0 || !strings.Contains(string(r.Err), e.st.Name) || !named {
				return fail("an error that names the function and the type was expected")
			}
			continue
		}
		used = true
		log := fmt.Sprintf("%s.%s#%d(%s, 1)", e.st.Kind, e.st.Name, e.id, show(rd.Value()))
		if len(r.Log) != 1 || r.Log[0] != log {
			return fail("the call %s was expected", log)
		}
		want := ""
		switch e.st.Kind {
		case "str":
			want = fmt.Sprintf("%s#%d", rd.S, e.id)
		case "arr":
			want = fmt.Sprintf("%d, %d", len(rd.A), e.id)
		case "int":
			want = fmt.Sprint(1000 + e.id)
		case "float":
			want = fmt.Sprintf("%d.5", e.id)
		case "bool":
			want = fmt.Sprint(e.id % 2)
		}
		if r.Failed || string(r.Out) != "<"+want+">" {
			return fail("the output <%s> was expected", want)
		}
	}
	return core.OK(used, map[bool]string{true: "calls", false: "unregistered"}[used])
}

func c20Enum(th bool, yield func(func() *c20Case)) {
	l := 3
	if th {
		l = 4
	}
	var steps []c20Step
	for _, k := range kinds20 {
		for _, n := range []string{"f", "upper"} {
			steps = append(steps, c20Step{K: "reg", Kind: k, Name: n})
		}
	}
	steps = append(steps, c20Step{K: "load"})
	var rec func(at []c20Step)
	rec = func(at []c20Step) {
		mine := slices.Clone(at)
		yield(func() *c20Case { return &c20Case{Steps: mine, All: true, Names: []string{"f", "upper"}} })
		if len(at) < l {
			for _, s := range steps {
				rec(append(at, s))
			}
		}
	}
	rec(nil)
}

var c20Names = []string{"f", "g", "F", "ff", "f1", "_f", "upper", "len", "abs", "then", "append", "Upper", "reverse", "int", "float", "in2", "nilx", "contains", "raw", "str", "json", "loop", "true1"}

func c20Hist(r *rapid.T) *c20Case {
	g := gen.New(r)
	c := &c20Case{}
	for i, n := 0, 1+g.N(4); i < n; i++ {
		if x := gen.Pick(g, c20Names); !slices.Contains(c.Names, x) {
			c.Names = append(c.Names, x)
		}
	}
	for i, n := 0, 1+g.N(30); i < n; i++ {
		st := c20Step{K: gen.Pick(g, []string{"reg", "reg", "load", "eval", "file", "string", "response"}), Kind: gen.Pick(g, kinds20), Name: gen.Pick(g, c.Names), Recv: g.N(8), Var: g.N(2) == 1}
		c.Steps = append(c.Steps, st)
	}
	c.All = g.N(4) == 3
	return c
}

// ---- conversion

// c20Conv calls a function with arguments that are written or passed as data.
type c20Conv struct {
	Case
	Recv   *D     `json:"recv"`
	Args   []*D   `json:"args,omitempty"`
	Ret    *Nat   `json:"ret,omitempty"`    // what the function returns
	Use    []byte `json:"use,omitempty"`    // a template of y
	Spread bool   `json:"spread,omitempty"` // the template calls the function at every use of y
}

var ready20 bool
var got20 [][]any
var ret20 any

func ready20funcs() {
	if ready20 {
		return
	}
	ready20 = true
	for _, err := range []error{
		textwire.RegisterStrFunc("rec20", func(s string, a ...any) string { got20 = append(got20, append([]any{s}, a...)); return s }),
		textwire.RegisterArrFunc("rec20", func(s []any, a ...any) []any { got20 = append(got20, append([]any{s}, a...)); return s }),
		textwire.RegisterIntFunc("rec20", func(s int, a ...any) int { got20 = append(got20, append([]any{s}, a...)); return s }),
		textwire.RegisterFloatFunc("rec20", func(s float64, a ...any) float64 { got20 = append(got20, append([]any{s}, a...)); return s }),
		textwire.RegisterBoolFunc("rec20", func(s bool, a ...any) bool { got20 = append(got20, append([]any{s}, a...)); return s }),
		textwire.RegisterStrFunc("ret20", func(string, ...any) string { return ret20.(string) }),
		textwire.RegisterArrFunc("ret20", func([]any, ...any) []any { return ret20.([]any) }),
		textwire.RegisterIntFunc("ret20", func(int, ...any) int { return ret20.(int) }),
		textwire.RegisterFloatFunc("ret20", func(float64, ...any) float64 { return ret20.(float64) }),
		textwire.RegisterBoolFunc("ret20", func(bool, ...any) bool { return ret20.(bool) }),
		textwire.RegisterStrFunc("id20", func(s string, a ...any) string { return s + "(" + goAll(a) + ")" }),
		textwire.RegisterArrFunc("id20", func(s []any, a ...any) []any { return append(slices.Clone(s), append(a, len(a))...) }),
		textwire.RegisterIntFunc("id20", func(s int, a ...any) int { return s + len(a) }),
		textwire.RegisterFloatFunc("id20", func(s float64, a ...any) float64 { return s + float64(len(a))/2 }),
		textwire.RegisterBoolFunc("id20", func(s bool, a ...any) bool { return s != (len(a)%2 == 1) }),
		textwire.RegisterStrFunc("esc20", func(s string, _ ...any) string { return s }),
	} {
		if err != nil {
			panic(err)
		}
	}
}

func funcs20() Funcs {
	id := "id20"
	return Funcs{
		string(KStr) + id: func(r V, a []V) V {
			var p []string
			for _, x := range a {
				p = append(p, show(x))
			}
			return VStr(r.S + "(" + strings.Join(p, ", ") + ")")
		},
		string(KArr) + id: func(r V, a []V) V {
			return VArr(append(append(slices.Clone(r.A), a...), VInt(int64(len(a))))...)
		},
		string(KInt) + id:   func(r V, a []V) V { return VInt(r.I + int64(len(a))) },
		string(KFloat) + id: func(r V, a []V) V { return VFloat(r.F + float64(len(a))/2) },
		string(KBool) + id:  func(r V, a []V) V { return VBool(r.B != (len(a)%2 == 1)) },
	}
}

// types20 checks that the Go value has the types of the statement.
func types20(x any, top bool) string {
	switch x := x.(type) {
	case nil, bool, int64, float64, string:
		return ""
	case int:
		return ""
	case []any:
		for _, y := range x {
			if s := types20(y, false); s != "" {
				return s
			}
		}
		return ""
	case map[string]any:
		for _, y := range x {
			if s := types20(y, false); s != "" {
				return s
			}
		}
		return ""
	}
	return fmt.Sprintf("%T", x)
}

func judge20Conv(c *c20Conv) core.Verdict {
	ready20funcs()
	src := c.Source()
	got20 = nil
	out, err := textwire.EvaluateString(src, c.Data.Native())
	if err != nil {
		return core.Failf("%q with %s fails: %v", src, show(dataV(c.Data)), err)
	}
	want := append([]V{c.Recv.Value()}, nil...)
	for _, a := range c.Args {
		want = append(want, a.Value())
	}
	if len(got20) != 1 {
		return core.Failf("%q calls the function %d times", src, len(got20))
	}
	var got []V
	for i, x := range got20[0] {
		if t := types20(x, true); t != "" {
			return core.Failf("%q with %s passes a %s in value %d", src, show(dataV(c.Data)), t, i)
		}
		v, err := fromGo(x)
		if err != nil {
			return core.Failf("%q passes %v", src, err)
		}
		got = append(got, v)
	}
	if !equalAll(got, want) || showAll(got) != showAll(want) {
		return core.Failf("%q with %s passes %s instead of %s", src, show(dataV(c.Data)), showAll(got), showAll(want))
	}
	_ = out
	return core.OK(len(c.Args) > 0, c.Recv.K)
}

// c20Conversion draws the call of a function.
func c20Conversion(r *rapid.T) *c20Conv {
	g := gen.New(r)
	c := &c20Conv{}
	c.Data = Data{}
	recv := func() *D {
		for {
			if d := c11Datum(g, 3); slices.Contains(kinds20, d.K) {
				return d
			}
		}
	}
	write := func(name string, d *D) *E {
		if l := deepLit(d); l != nil && g.N(2) == 1 {
			return l
		}
		switch g.N(4) {
		case 0: // a part of another value
			c.Data[name] = DArr(*DInt(1), *d)
			return Idx(Var(name), Int("1"))
		case 1:
			c.Data[name] = DObj(map[string]*D{"k": d, "l": DInt(2)})
			return Dot(Var(name), "k")
		}
		c.Data[name] = d
		return Var(name)
	}
	c.Recv = recv()
	re := write("r", c.Recv)
	n := []int{0, 1, 1, 2, 3, 5, 12}[g.N(7)]
	var args []*E
	for i := 0; i < n; i++ {
		d := c11Datum(g, 4)
		c.Args = append(c.Args, d)
		args = append(args, write("a"+itoa(i), d))
	}
	call := Call(re, "rec20", args...)
	switch g.N(5) {
	case 0:
		c.Prog = []*S{If(Bool(true), Print(call))}
	case 1:
		c.Prog = []*S{Assign("z20", call)}
	case 2:
		c.Prog = []*S{Print(Arr(call))}
	default:
		c.Prog = []*S{Print(call)}
	}
	c.Layout = g.Layout()
	return c
}

// c20Uses are templates of the result.
var c20Uses = []string{
	"{{ y }}", "@dump(y)", "{{ [y, y] }}", "{{ {a: y} }}", "@each(x in y){{ x }}|{{ loop.index }}@end", "{{ y[0] }}{{ y[1] }}", "{{ y.len() }}", "{{ y[0].Name }}", "{{ y[0].a }}", "{{ y[0][0] }}", "{{ y + y }}", "{{ y == y }}", "{{ y ? 1 : 2 }}", "{{ y.join('-') }}", "@if(y)a@else b@end", "{{ y.reverse() }}", "{{ y - y }}", "{{ 0.probe(y) }}", "{{ y.raw() }}", "{{ y.upper() }}", "{{ y.str() }}{{ y.int() }}", "{{ y.append(1)[0] }}", "{{ z = y; z }}", "@for(i = 0; i < 2; i++){{ y }}@end", "{{ y.then('a', 'b') }}", "{{ -(y) }}", "{{ !(y) }}", "{{ y.abs() }}{{ y.ceil() }}", "{{ y[0].name.first }}", "{{ y.contains('a') }}", "{{ 'k' + y }}", "{{ y.id20(y, 1) }}",
}

type c20Ret struct {
	Ret *Nat   `json:"ret"`
	Use []byte `json:"use"`
}

// judge20Ret compares the result of a function with the same value as data.
func judge20Ret(c *c20Ret) core.Verdict {
	ready20funcs()
	readyProbe()
	var recv string
	ret20 = c.Ret.Native()
	switch ret20.(type) {
	case string:
		recv = "'x'"
	case []any:
		recv = "[1]"
	case int:
		recv = "1"
	case float64:
		recv = "1.5"
	case bool:
		recv = "true"
	default:
		return core.Failf("a function that returns a %T", ret20)
	}
	use := string(c.Use)
	probed = nil
	want, werr := textwire.EvaluateString(use, map[string]any{"y": c.Ret.Native()})
	wp := goAll(slices.Concat(probed...))
	if werr != nil && strings.Contains(use, "@dump") {
		return core.OK(false, "error") // a dump shows the error
	}
	// the result in the place of the variable, and in a variable
	for _, src := range []string{strings.ReplaceAll(use, "y", "Y"), "{{ y = " + recv + ".ret20() }}" + use, "@each(y in [" + recv + ".ret20()])" + use + "@end"} {
		if strings.Contains(src, "Y") {
			src = reVar20(use, recv+".ret20()")
		}
		probed = nil
		got, gerr := textwire.EvaluateString(src, nil)
		gp := goAll(slices.Concat(probed...))
		if got != want || (gerr == nil) != (werr == nil) {
			return core.Failf("%q gives %q, %v and the same value as data %q, %v (%s)", src, got, gerr, want, werr, use)
		}
		if gp != wp && !strings.Contains(use, "@for") {
			return core.Failf("%q has the value %s and as data %s", src, gp, wp)
		}
	}
	if werr != nil {
		return core.OK(false, "error")
	}
	return core.OK(true, "output")
}

// reVar20 replaces the variable y.
func reVar20(src, by string) string {
	var b strings.Builder
	for i := 0; i < len(src); i++ {
		if src[i] == 'y' && (i == 0 || !word1(src[i-1]) && src[i-1] != '.') && (i+1 == len(src) || !word1(src[i+1])) {
			b.WriteString(by)
		} else {
			b.WriteByte(src[i])
		}
	}
	return b.String()
}

func c20Result(r *rapid.T) *c20Ret {
	g := gen.New(r)
	c := &c20Ret{Use: []byte(gen.Pick(g, c20Uses))}
	if g.N(3) == 2 {
		c.Use = append(c.Use, gen.Pick(g, c20Uses)...)
	}
	scalar := func(k string) *Nat {
		for {
			t := &NT{K: k}
			n := &Nat{T: t, V: natValue(g, t, 2, 0)}
			return n
		}
	}
	switch g.N(8) {
	case 0:
		c.Ret = scalar("string")
	case 1:
		c.Ret = scalar("int")
	case 2:
		c.Ret = scalar("float64")
	case 3:
		c.Ret = scalar("bool")
	default:
		t := &NT{K: "slice", Elem: &NT{K: "any"}}
		c.Ret = &Nat{T: t, V: natValue(g, t, 4, []int{0, 0, 0, 40}[g.N(4)])}
	}
	return c
}

// ---- programs

// c20Wrap calls functions on random expressions of a program.
func c20Wrap(g *gen.G, prog []*S) {
	var spots []*E
	props := map[*E]bool{} // arguments of components are objects
	Walk(prog, func(s *S) {
		if s.K == "comp" {
			for _, x := range s.X {
				props[x] = true
			}
		}
	}, func(e *E) { spots = append(spots, e) })
	spots = slices.DeleteFunc(spots, func(e *E) bool { return props[e] })
	for n := 1 + g.N(4); n > 0 && len(spots) > 0; n-- {
		e := gen.Pick(g, spots)
		inner := *e
		name := "id20"
		if g.N(30) == 29 {
			name = "nope20"
		}
		var args []*E
		for k := g.N(3); k > 0; k-- {
			if l := deepLit(c11Datum(g, 2)); l != nil {
				args = append(args, l)
			}
		}
		*e = *Call(&inner, name, args...)
	}
}

func judge20Prog(c *Case) core.Verdict {
	ready20funcs()
	// what follows something that the reference does not define might not end
	if ref := (&Interp{Funcs: funcs20()}).Eval(c.Prog, c.Data); ref.Unspec || ref.Endless {
		return core.OK(false, class(ref))
	}
	in := &Interp{Funcs: funcs20()}
	ref, d := judgeCase(c, in)
	return verdict(d, !ref.Endless && !ref.Unspec && !ref.Err, class(ref))
}

func judge20Site(c *SiteCase) core.Verdict {
	ready20funcs()
	if ref := (&Interp{Funcs: funcs20(), Site: c.Files}).Page(c.Page, c.Data); ref.Unspec || ref.Endless {
		return core.OK(false, class(ref))
	}
	in := &Interp{Funcs: funcs20()}
	ref, d := judgeSite(c, in)
	return verdict(d, !ref.Endless && !ref.Unspec && !ref.Err, class(ref))
}

func init() {
	register(&core.Prop{
		ID: "C20", Level: "exploration",
		Families: []core.Family{
			core.New(core.Fam[*c20Case]{
				Name: "histories", Rule: "all histories of up to 3 (thorough 4) registrations of two names (one of them a built-in of strings) for the five types and loads, each in a fresh process; before, between and after all of them every name is called on literals and variables of every type through EvaluateString, EvaluateFile, String and Response; which function is called, with what, the output, and the error for names that are not registered are known; non-trivial: a registered function is called",
				Enum: c20Enum, Judge: judge20,
			}),
			core.New(core.Fam[*c20Case]{
				Name: "random histories", Rule: "histories of up to 30 steps over 1 to 4 of 23 names, built-ins and names differing in case among them; non-trivial: as before",
				Gen: c20Hist, Quick: 3000, Thorough: 80000, Judge: judge20,
			}),
			core.New(core.Fam[*c20Conv]{
				Name: "arguments", Rule: "random nested values as receiver and 0 to 12 arguments, as literals, variables and parts of other values; the Go values that the function receives are compared in content and type; non-trivial: at least one argument",
				Gen: c20Conversion, Quick: 150000, Thorough: 4000000, Judge: judge20Conv,
			}),
			core.New(core.Fam[*c20Ret]{
				Name: "results", Rule: fmt.Sprintf("random native results (arrays of any native type, scalars) under %d templates: the result in place, in a variable and in a loop against the same Go value as data; non-trivial: there is an output", len(c20Uses)),
				Gen: c20Result, Quick: 60000, Thorough: 2000000, Judge: judge20Ret,
			}),
			core.New(core.Fam[*Case]{
				Name: "programs", Rule: "random programs in which random expressions are receivers of custom functions, against the reference evaluator; non-trivial: there is an output",
				Gen: func(r *rapid.T) *Case {
					g := gen.New(r)
					g.Faults, g.Calls = []int{0, 0, 20}[g.N(3)], true
					c := &Case{Data: g.Data()}
					c.Prog = g.Block(3, 6)
					c20Wrap(g, c.Prog)
					c.Layout = g.Layout()
					return c
				}, Quick: 80000, Thorough: 2000000, Judge: judge20Prog,
			}),
			core.New(core.Fam[*SiteCase]{
				Name: "sites", Rule: "the same in pages, layouts and components; non-trivial: there is an output",
				Gen: func(r *rapid.T) *SiteCase {
					g := gen.New(r)
					c := genSite(r, 3, g.N(2) == 1)
					var names []string
					for n := range c.Files {
						names = append(names, n)
					}
					sortStrings(names)
					for _, n := range names {
						c20Wrap(g, c.Files[n])
					}
					return c
				}, Quick: 20000, Thorough: 400000, Judge: judge20Site,
			}),
			escapedFam(ready20funcs, &textCase{Src: `{{ "<".esc20() }}`, Want: "<"}),
		},
		Assumptions: []string{
			"string literals with & < > are not used as receivers or arguments (see KNOWN_FINDINGS)",
			"the type in the message is recognised by the words str, arr, int, float, bool",
		},
	})
}
