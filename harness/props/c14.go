package props

import (
	"fmt"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// c14Item is a set of files that is loaded, a page of it that is rendered, or
// a single template if Files is empty.
type c14Item struct {
	Files map[string][]byte `json:"files,omitempty"`
	Page  string            `json:"page,omitempty"`
	Src   []byte            `json:"src,omitempty"`
	Data  Data              `json:"data,omitempty"`
	Vars  map[string]*Nat   `json:"vars,omitempty"`
}

// c14Case are items, rendered over and over in this process and, if Procs is
// not zero, in that many other processes.
type c14Case struct {
	Items []*c14Item `json:"items"`
	Procs int        `json:"procs,omitempty"`
}

const c14Times = 14

func (it *c14Item) write(dir string) {
	if it.Files == nil {
		return
	}
	f := map[string]string{}
	for n, s := range it.Files {
		f[n] = string(s)
	}
	writeTree(dir, f)
}

func (it *c14Item) ops(dir string) []Op {
	if it.Files == nil {
		return []Op{{K: "eval", Src: it.Src, Data: it.Data, Vars: it.Vars}}
	}
	return []Op{
		{K: "load", Dir: dir, Ext: ".tw"},
		{K: "string", Name: it.Page, Data: it.Data, Vars: it.Vars},
		{K: "load", Dir: dir, Ext: ".tw", Debug: true},
		{K: "response", Name: it.Page, Data: it.Data, Vars: it.Vars},
		{K: "file", Name: dir + "/" + it.Page + ".tw", Data: it.Data, Vars: it.Vars},
	}
}

func (it *c14Item) String() string {
	if it.Files == nil {
		return fmt.Sprintf("template %q, data %v %v", it.Src, it.Data.Native(), natShow(it.Vars))
	}
	f := map[string]string{}
	for n, s := range it.Files {
		f[n] = string(s)
	}
	return fmt.Sprintf("page %s, data %v %v\n%s", it.Page, it.Data.Native(), natShow(it.Vars), files(f))
}

func natShow(vars map[string]*Nat) string {
	s := ""
	for k, n := range vars {
		s += fmt.Sprintf("%s=%#v ", k, n.Native())
	}
	return s
}

func differ(ops []Op, a, b []Res) string {
	for i := range a {
		if a[i].key() != b[i].key() {
			return fmt.Sprintf("%s gave %s, and then %s", ops[i], a[i], b[i])
		}
	}
	return ""
}

func judge14(c *c14Case) core.Verdict {
	ready14()
	var first []Res
	var all []Op
	nontrivial := false
	class := "output"
	for i, it := range c.Items {
		dir := "t" + itoa(i)
		it.write(dir)
		ops := it.ops(dir)
		var one []Res
		times := c14Times
		if c.Procs > 0 {
			times = 2
		}
		for n := 0; n < times; n++ {
			res := runOps(ops)
			if n == 0 {
				one = res
			} else if d := differ(ops, one, res); d != "" {
				return core.Failf("repetition %d differs: %s\n%s", n+1, d, it)
			}
		}
		for _, r := range one {
			if r.Failed {
				class = "error"
				nontrivial = true
			}
		}
		src := string(it.Src)
		for _, s := range it.Files {
			src += string(s)
		}
		nontrivial = nontrivial || strings.Contains(src, "@dump") || strings.Contains(src, "{{ {") || strings.Contains(src, "@component") || len(it.Vars)+len(it.Data) > 1
		first = append(first, one...)
		all = append(all, ops...)
	}
	for n := 0; n < c.Procs; n++ {
		s := &Script{Ops: all, Prep: "c14"}
		res, err := s.fresh()
		if err != nil {
			return core.Failf("%v", err)
		}
		if d := differ(all, first, res); d != "" {
			return core.Failf("process %d differs from this one: %s", n+1, d)
		}
	}
	return core.OK(nontrivial, class)
}

var ready bool

// ready14 registers functions whose results have several entries.
func ready14() {
	if ready {
		return
	}
	ready = true
	ch := make(chan int)
	for _, err := range []error{
		textwire.RegisterArrFunc("badmap14", func(a []any, _ ...any) []any {
			return []any{map[string]any{"a": ch, "b": [2]int{}, "c": 1, "d": complex(1, 2), "e": map[int]int{}, "f": func() {}}}
		}),
		textwire.RegisterArrFunc("map14", func(a []any, _ ...any) []any {
			m := map[string]any{}
			for i := 0; i < 12; i++ {
				m["k"+itoa(i)] = map[string]any{"x": i, "y": i, "z": []any{i}}
			}
			return []any{m}
		}),
		textwire.RegisterStrFunc("args14", func(s string, args ...any) string { return fmt.Sprint(args...) }),
	} {
		if err != nil {
			panic(err)
		}
	}
}

// expressions that fail with different messages
var c14Bad = []string{"nope1", "1 / 0", "'a' - 'b'", "-true", "1.fn()", "{a: 1}.zz", "nope2", "1[0]", "!'x'", "'a'.repeat('b')"}

func c14Keys(n int) []string {
	keys := []string{"zeta", "alpha", "mid", "Beta", "x1", "x2", "x10", "omega", "_u", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k"}
	return keys[:n]
}

func c14Src(s string, d Data) *c14Item { return &c14Item{Src: []byte(s), Data: d} }

func c14Files(page string, d Data, kv ...string) *c14Item {
	it := &c14Item{Files: map[string][]byte{}, Page: page, Data: d}
	for i := 0; i < len(kv); i += 2 {
		it.Files[kv[i]+".tw"] = []byte(kv[i+1])
	}
	return it
}

func c14Obj(n int, val func(i int, k string) string) string {
	var p []string
	for i, k := range c14Keys(n) {
		p = append(p, k+": "+val(i, k))
	}
	return "{" + strings.Join(p, ", ") + "}"
}

// c14Catalogue are templates in which a map decides.
func c14Catalogue() []*c14Item {
	var out []*c14Item
	add := func(it *c14Item) { out = append(out, it) }
	bads := func(n int) []string {
		var b []string
		for i := 0; i < n; i++ {
			b = append(b, c14Bad[i%len(c14Bad)])
		}
		return b
	}
	for n := 2; n <= 20; n++ {
		ints := c14Obj(n, func(i int, _ string) string { return itoa(i) })
		nested := c14Obj(n, func(i int, k string) string {
			return "{b: " + itoa(i) + ", a: [" + itoa(i) + ", {y: 1, x: '" + k + "'}], c: nil}"
		})
		b := bads(n)
		failing := c14Obj(n, func(i int, _ string) string { return b[i] })
		some := c14Obj(n, func(i int, k string) string {
			if i%3 == 1 {
				return b[i]
			}
			return "'" + k + "'"
		})
		for _, o := range []string{ints, nested, failing, some} {
			for _, f := range []string{"{{ %s }}", "{{ x = %s; x }}{{ x }}", "@dump(%s)", "{{ [%s, %s] }}", "@dump([%s], 1)", "@each(x in [%s, %s]){{ x }}@dump(x)@end", "@if(%s)a@end", "{{ 'a'.args14(%s) }}", "{{ [%s].join('|') }}", "{{ [%s].contains(%s) }}", "{{ {p: %s, q: 1}.p }}", "{{ true ? %s : 1 }}"} {
				add(c14Src(strings.ReplaceAll(f, "%s", o), nil))
			}
			add(c14Files("home", nil, "home", "@component('c', "+o+")", "c", "{{ zeta }}{{ alpha }}"))
			add(c14Files("home", nil, "home", "@component('c', {arg: "+o+"})", "c", "{{ arg }}@dump(arg)"))
			add(c14Files("home", nil, "home", "@use('l')@insert('t', "+o+")@insert('u')"+"{{ "+o+" }}@end", "l", "@reserve('u')@reserve('t')"))
		}
		// data with many entries
		d := Data{}
		obj := DObj(map[string]*D{})
		for i, k := range c14Keys(n) {
			d[k] = DInt(int64(i))
			obj.O[k] = DObj(map[string]*D{"v": DInt(int64(i)), "u": DArr(*DStr(k))})
		}
		d["obj"] = obj
		add(c14Src("{{ obj }}@dump(obj){{ [obj, obj] }}@dump(alpha, zeta, obj)", d))
		d2 := Data{"loop": DInt(1)}
		for k, v := range d {
			d2[k] = v
		}
		add(c14Src("{{ alpha }}", d2))
		// unsupported entries
		vars := map[string]*Nat{}
		fields := &Nat{&NT{K: "struct"}, &NV{}}
		m := &Nat{&NT{K: "map", Elem: &NT{K: "any"}}, &NV{}}
		for i, k := range c14Keys(n) {
			bad := natBad[i%len(natBad)]
			vars[k] = &Nat{&NT{K: bad}, &NV{}}
			m.V.Keys = append(m.V.Keys, []byte(k))
			m.V.A = append(m.V.A, &NV{Dyn: &NT{K: bad}, A: []*NV{{}}})
			if n <= len(natFields) {
				fields.T.Fields = append(fields.T.Fields, NF{natFields[i], &NT{K: bad}})
				fields.V.A = append(fields.V.A, &NV{})
			}
		}
		add(&c14Item{Src: []byte("x"), Vars: vars})
		add(&c14Item{Src: []byte("x"), Vars: map[string]*Nat{"m": m}})
		add(&c14Item{Src: []byte("x"), Vars: map[string]*Nat{"m": m, "z": m, "loop": {&NT{K: "int"}, &NV{}}, "c": {&NT{K: "chan"}, &NV{}}}})
		if n <= len(natFields) {
			add(&c14Item{Src: []byte("x"), Vars: map[string]*Nat{"m": fields, "n": {&NT{K: "func"}, &NV{}}}})
		}
		// several faults of templates
		var ins, slots, dups, place, comps, reserves string
		for i, k := range c14Keys(n) {
			ins += "@insert('" + k + "', " + itoa(i) + ")\n"
			slots += "@slot('" + k + "')" + k + "@end\n"
			dups += "@slot('" + k + "')1@end@slot('" + c14Keys(n)[(i*3+1)%n] + "')2@end"
			place += "@slot('" + k + "')\n"
			comps += "@component('n" + k + "')\n"
			reserves += "@reserve('" + k + "')\n"
		}
		add(c14Files("home", nil, "home", "@use('l')\n"+ins, "l", "@reserve('other')"))
		add(c14Files("home", nil, "home", "@use('l')\n"+ins, "l", "<\n"+reserves+">"))
		add(c14Files("home", nil, "home", "@use('l')\n"+ins+ins, "l", reserves))
		add(c14Files("home", nil, "home", "@component('c')\n"+slots+"@end", "c", "x"))
		add(c14Files("home", nil, "home", "@component('c')\n"+slots+"@end", "c", place))
		add(c14Files("home", nil, "home", "@component('c')\n"+dups+"@end", "c", place))
		add(c14Files("home", nil, "home", "@component('c')"+slots+"@end\n"+"@component('c')"+dups+"@end\n"+comps, "c", place))
		add(c14Files("home", nil, "home", comps))
		// inserts, slots and files with different faults
		ins, slots = "", ""
		kv := []string{"home", "ok"}
		kr := []string{"home", "ok"}
		for i, k := range c14Keys(n) {
			ins += "@insert('" + k + "', " + b[i] + ")\n"
			slots += "@slot('" + k + "'){{ " + b[i] + " }}@end\n"
			kv = append(kv, "d"+itoa(i%3)+"/"+k, strings.Repeat("\n", i)+[]string{"{{ ~ }}", "{{ 1 2 }}", "@if(", "@component('nope" + k + "')", "@use('nope" + k + "')", "{{ ) }}", "{{ 99999999999999999999 }}"}[i%7])
			kr = append(kr, k, "{{ "+b[i]+" }}")
		}
		add(c14Files("home", nil, "home", "@use('l')\n"+ins, "l", reserves))
		add(c14Files("home", nil, "home", "@component('c')"+slots+"@end", "c", place))
		add(c14Files("home", nil, kv...))
		add(c14Files("zeta", nil, kr...))
		add(c14Files("home", nil, "home", strings.Repeat("{{ ~ }}\n{{ # 1 2 }}\n", n)))
	}
	for _, s := range []string{
		"{{ [].badmap14() }}", "{{ [].map14() }}", "@dump([].map14())", "{{ [].map14()[0].k3 }}", "{{ x = [].map14(); x }}@dump(x)", "{{ 'a'.args14({b: 1, a: 2, c: [1, {z: 1, y: 2}]}, 'x', {k: nil, j: 1.5}) }}",
		"@each(x in [1, 2])@dump(loop)@end", "@each(x in [1, 2]){{ loop }}@end", "@each(x in [{a: 1, b: 2}, {b: 3, a: 4}]){{ loop }}{{ x }}@end",
		"{{ {a: 1, A: 2, b: 3, B: 4} }}{{ {a: 1, A: 2}.a }}{{ {a: 1, A: 2}.A }}", "{{ {Name: 1, name: 2}.name }}{{ {Name: 1, name: 2}['Name'] }}",
	} {
		add(c14Src(s, nil))
	}
	both := Data{"o": DObj(map[string]*D{"name": DInt(1), "Name": DInt(2), "NAME": DInt(3), "É": DInt(4), "é": DInt(5)})}
	add(c14Src("{{ o.name }}{{ o.Name }}{{ o.NAME }}{{ o['é'] }}{{ o['É'] }}{{ o.nAME }}", both))
	add(c14Src("{{ o.nAME }}", both))
	return out
}

var c14Breaks = []string{"{{ ~ }}", "{{ nope }}", "@if(1)", "{{ 1 / 0 }}", "@component('gone')", "@insert('gone', 1)", "@use('gone')", "{{ {b: nope1, a: 1 / 0, c: -true} }}", "@dump({b: 1, a: 2, c: {z: 1, y: 2}})", "{{ {b: 1, a: 2, c: {z: 1, y: 2}} }}", "@slot('gone')", "@reserve('gone')"}

// c14Random draws a random tree, or a template with native data.
func c14Random(r *rapid.T) *c14Item {
	g := gen.New(r)
	switch g.N(5) {
	case 0:
		n := c12Gen([]int{0, 60, 200}[g.N(3)])(r)
		if d, _ := n.data(); endless(n.Prog, d) {
			n.Prog = nil
		}
		it := &c14Item{Src: []byte(PrintB(n.Prog, &Layout{B: n.Layout})), Vars: n.Vars}
		for k := range n.Vars {
			if dotKey(k) && k != "loop" {
				it.Src = append(it.Src, "\n@dump("+k+"){{ "+k+" }}"...)
			}
			break
		}
		return it
	case 1:
		g.Faults = []int{0, 30, 150}[g.N(3)]
		d := g.Data()
		prog := g.Block(3, 5)
		if endless(prog, d) {
			prog = nil
		}
		src := PrintB(prog, &Layout{B: g.Layout()})
		for k := range g.Types() {
			if g.N(3) == 2 {
				src += " @dump(" + k + ")"
			}
			break
		}
		return &c14Item{Src: []byte(src), Data: d}
	}
	c := genSiteWith(r, 3, g.N(2) == 1, func(g *gen.G) { g.Faults = []int{0, 20, 100, 300}[g.N(4)] })
	for n := g.N(5); n > 0; n-- {
		siteFault(r, c, []string{"unknown insert", "duplicate insert", "missing layout", "layout in layout", "missing component", "unknown slot", "duplicate slot"})
	}
	it := &c14Item{Files: map[string][]byte{}, Page: c.Page, Data: c.Data}
	if c.endless(c.Page, c.Data) {
		it.Page = "none"
	}
	var names []string
	for n := range c.Files {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		s := PrintB(c.Files[n], &Layout{B: c.Layout})
		if g.N(6) == 5 {
			s += "\n" + gen.Pick(g, c14Breaks)
		}
		it.Files[n+".tw"] = []byte(s)
	}
	for n := g.N(4); n > 0; n-- {
		it.Files["more/"+gen.Pick(g, c14Keys(12))+".tw"] = []byte(strings.Repeat("\n", g.N(3)) + gen.Pick(g, c14Breaks))
	}
	return it
}

func init() {
	preps["c14"] = ready14
	register(&core.Prop{
		ID: "C14", Level: "exploration",
		Families: []core.Family{
			core.New(core.Fam[*c14Case]{
				Name: "catalogue", Rule: fmt.Sprintf("templates in which the order of a map could decide, with 2 to 20 entries: printed, dumped and failing object literals, component arguments, data with many or several unsupported entries, undefined and duplicate inserts and slots, several faulty files, custom functions returning maps; each loaded and rendered %d times (String, Response in debug mode, EvaluateFile); non-trivial: an error, an object, a dump, a component or several data entries", c14Times),
				Enum: func(_ bool, yield func(func() *c14Case)) {
					for _, it := range c14Catalogue() {
						yield(func() *c14Case { return &c14Case{Items: []*c14Item{it}} })
					}
				}, Judge: judge14,
			}),
			core.New(core.Fam[*c14Case]{
				Name: "random", Rule: fmt.Sprintf("random templates, native data with unsupported parts, trees of pages, layouts and components with several injected faults; each loaded and rendered %d times; non-trivial: as in catalogue", c14Times),
				Gen: func(r *rapid.T) *c14Case { return &c14Case{Items: []*c14Item{c14Random(r)}} }, Quick: 20000, Thorough: 700000, Judge: judge14,
			}),
			core.New(core.Fam[*c14Case]{
				Name: "processes", Rule: "batches of the catalogue, rendered here and in 3 fresh processes; non-trivial: as in catalogue",
				Enum: func(_ bool, yield func(func() *c14Case)) {
					all := c14Catalogue()
					for i := 0; i < len(all); i += 25 {
						yield(func() *c14Case { return &c14Case{Items: all[i:min(i+25, len(all))], Procs: 3} })
					}
				},
				Gen: func(r *rapid.T) *c14Case {
					c := &c14Case{Procs: 3}
					for i, n := 0, 1+rapid.IntRange(0, 19).Draw(r, "items"); i < n; i++ {
						c.Items = append(c.Items, c14Random(r))
					}
					return c
				}, Quick: 400, Thorough: 12000, Judge: judge14,
			}),
		},
		Assumptions: []string{"shuffle() and rand() are not used", "a divergence between two orders of a map is found with probability 1 - 2^-13 or more per case"},
	})
}
