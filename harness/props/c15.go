package props

import (
	"fmt"
	"runtime"
	"slices"
	"sync"
	"time"

	textwire "github.com/textwire/textwire/v2"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// c15Case are calls that goroutines make at the same time on one template.
type c15Case struct {
	Files     map[string][]byte `json:"files"`
	Debug     bool              `json:"debug,omitempty"`
	ErrorPage string            `json:"errorpage,omitempty"`
	Gos       [][]Op            `json:"gos"`
	Procs     int               `json:"procs"`
	Cold      bool              `json:"cold,omitempty"` // in a fresh process
	Loads     int               `json:"loads,omitempty"`
	NoLoad    bool              `json:"noload,omitempty"` // only calls that need no template
}

var ready15done bool

// ready15 registers functions that let other goroutines run.
func ready15() {
	if ready15done {
		return
	}
	ready15done = true
	for _, err := range []error{
		textwire.RegisterIntFunc("noise", func(n int, args ...any) int {
			switch n % 4 {
			case 0, 1:
				runtime.Gosched()
			case 2:
				time.Sleep(time.Duration(n) * time.Microsecond)
			default:
				for i := 0; i < 200; i++ {
					runtime.KeepAlive(i)
				}
			}
			return n
		}),
		textwire.RegisterStrFunc("echo", func(s string, args ...any) string { return fmt.Sprint(append([]any{s}, args...)...) }),
		textwire.RegisterArrFunc("twice", func(a []any, args ...any) []any { return append(append([]any{}, a...), a...) }),
		textwire.RegisterFloatFunc("echo", func(f float64, args ...any) float64 { return f }),
		textwire.RegisterBoolFunc("not", func(b bool, args ...any) bool { return !b }),
	} {
		if err != nil {
			panic(err)
		}
	}
}

func (c *c15Case) load() Op {
	return Op{K: "load", Dir: "t", Ext: ".tw", Debug: c.Debug, Page: c.ErrorPage}
}

func (c *c15Case) script() *Script {
	s := &Script{Prep: "c15", Ops: []Op{c.load()}, Gos: c.Gos, Procs: c.Procs}
	if c.NoLoad {
		s.Ops = nil
	}
	return s
}

// together runs the calls at the same time.
func (m *machine) together(gos [][]Op, procs int) [][]Res {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(max(procs, 1)))
	out := make([][]Res, len(gos))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, ops := range gos {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			var res []Res
			for _, o := range ops {
				res = append(res, m.do(o))
			}
			out[i] = res
		}()
	}
	close(start)
	wg.Wait()
	return out
}

func judge15(c *c15Case) core.Verdict {
	ready15()
	f := map[string]string{}
	for n, s := range c.Files {
		f[n+".tw"] = string(s)
	}
	writeTree("t", f)
	var runs [][][]Res
	if c.Cold {
		res, gos, err := c.script().freshGos()
		if err != nil {
			return core.Failf("%v\n%s", err, files(f))
		}
		if !c.NoLoad && res[0].Failed {
			return core.OK(false, "load error")
		}
		runs = append(runs, gos)
	} else {
		m := &machine{}
		for i := 0; i < max(c.Loads, 1); i++ {
			if r := m.do(c.load()); r.Failed {
				return core.OK(false, "load error")
			}
			runs = append(runs, m.together(c.Gos, c.Procs))
		}
	}
	// every call alone; the error page of an earlier case stays configured in
	// this process, so that a case for a fresh process needs another one
	var alones []Res
	m := &machine{}
	if !c.Cold {
		m.do(c.load())
	}
	ops := []Op{c.load()}
	if c.NoLoad {
		ops = nil
	}
	for _, o := range slices.Concat(c.Gos...) {
		if c.Cold {
			ops = append(ops, o)
		} else {
			alones = append(alones, m.do(o))
		}
	}
	if c.Cold {
		res, err := (&Script{Prep: "c15", Ops: ops}).fresh()
		if err != nil {
			return core.Failf("alone: %v\n%s", err, files(f))
		}
		alones = res[len(ops)-len(slices.Concat(c.Gos...)):]
	}
	outs, fails, n := 0, 0, 0
	for i, ops := range c.Gos {
		for j, o := range ops {
			alone := alones[n]
			n++
			if alone.Failed {
				fails++
			} else {
				outs++
			}
			for _, run := range runs {
				if got := run[i][j]; got.key() != alone.key() || got.Changed {
					return core.Failf("goroutine %d, %s gives %s alone and %s with the others (data changed: %v)\n%s", i, o, alone, got, got.Changed, files(f))
				}
			}
		}
	}
	class := "mixed"
	switch {
	case fails == 0:
		class = "outputs"
	case outs == 0:
		class = "errors"
	}
	return core.OK(len(c.Gos) > 1, class)
}

// c15Files is a tree whose pages show the data of the call everywhere.
var c15Files = map[string]string{
	"home":       "@use('~main')@insert('title', 'Home ' + uid)@insert('body'){{ 0.noise() }}<h1>{{ uid }}</h1>@component('~card', {id: uid, n: n})@slot('foot')F{{ id }}@end@slot A{{ n }}@end@end@component('~card', {id: 'x' + uid, n: n + 1})@end",
	"other":      "@use('~main')@insert('title', uid)@insert('body')@each(i in list){{ loop.index }}:{{ i }}{{ i.noise() }};@else none {{ uid }}@end@end",
	"plain":      "{{ uid }}{{ n }}{{ list }}{{ obj }}{{ obj.a }}@dump(obj, list)",
	"loops":      "@for(i = 0; i < n; i++){{ i.noise() }}{{ uid }}@if(i > 3)@break@end@end@each(x in list){{ x }}@component('row', {v: x, u: uid})@end",
	"calls":      "{{ list.append(n).prepend(uid).reverse().join('|') }}{{ uid.echo(n, list) }}{{ list.twice() }}{{ uid.upper().repeat(3) }}{{ 1.5.echo() }}{{ true.not() }}{{ list.contains(n) }}",
	"random":     "{{ [uid, uid, uid].shuffle() }}{{ [n].rand() }}{{ [uid, uid].rand() }}",
	"assign":     "{{ v = uid; w = v + uid; v = w }}@if(n > 2){{ v = 'in' }}{{ v }}@end{{ v }}{{ w }}",
	"own":        "{{ w = 'own'; v = 2; w }}{{ v }}@for(w = 0; w < 3; w++){{ w.noise() }}{{ v = w }}@end{{ w }}",
	"fail":       "start {{ uid }}{{ 1.noise() }}{{ nope }}",
	"failtype":   "@use('~main')@insert('title', uid + n)@insert('body')b@end",
	"failcomp":   "@component('bad', {id: uid})",
	"failzero":   "{{ n }}@each(x in list){{ n / 0 }}@end",
	"failfn":     "{{ uid }}{{ uid.nofn() }}",
	"failinsert": "@use('~main')@insert('title', 't')@insert('body'){{ 2.noise() }}{{ uid.missing }}@end",
	"error":      "<p>sorry {{ 3.noise() }}</p>",
	"errorbad":   "<p>{{ undefinedHere }}</p>",
	"deep/a/b":   "@component('~card', {id: uid, n: 1})@slot('foot')@component('row', {v: n, u: uid})@end@end",
	"objs":       "{{ {u: uid, n: n, o: obj} }}{{ {u: uid}.u }}@dump({u: uid, l: list})@each(o in [obj, {a: n}]){{ o.a }}@end",
	"esc":        "{{ '<b>' + uid }}{{ '&amp;'.raw() }}\\{{ x }}{{-- c --}}",

	"layouts/main":    "<title>@reserve('title')</title>{{ uid }}@reserve('body')<footer>{{ 1.noise() }}{{ n }}</footer>",
	"components/card": "<c>{{ id }}{{ n.noise() }}@slot<i>@slot('foot')</i>{{ uid }}</c>",
	"row":             "[{{ v }}/{{ u }}]",
	"bad":             "<bad>{{ id }}{{ id.missing }}</bad>",
}

var c15Pages = []string{"home", "other", "plain", "loops", "calls", "random", "assign", "fail", "failtype", "failcomp", "failzero", "failfn", "failinsert", "deep/a/b", "objs", "esc", "error", "errorbad", "no/such/page", "layouts/main", "own"}

var c15Srcs = []string{
	"{{ uid }}{{ n }}", "@each(x in list){{ x }}{{ 1.noise() }}@end{{ uid }}", "{{ uid }}{{ nope }}", "{{ ~ }}", "{{ 1 / 0 }}", "@if(n > 2)a{{ uid }}@else b@end", "{{ uid.echo(list, obj) }}", "@dump(obj)", "@component('row')", "@use('x')@insert('y', 1)", "plain text",
	"{{ 'a'.nofn() }}", "@for(i = 0; i < 3; i++){{ i.noise() }}{{ uid }}@end", "{{ v = 1; v }}{{ 1.noise() }}{{ w = 'own'; w }}{{ v }}",
}

func c15Data(i int) Data {
	uid := fmt.Sprintf("u%d-", i)
	d := Data{"uid": DStr(uid), "n": DInt(int64(i%7 + 1)), "list": DArr(), "obj": DObj(map[string]*D{"a": DInt(int64(i)), "b": DStr(uid), "c": DArr(*DInt(1))})}
	for j := 0; j < i%5; j++ {
		d["list"].A = append(d["list"].A, *DInt(int64(100*i + j)))
	}
	if i%11 == 10 {
		delete(d, "uid") // fails in most pages
	}
	return d
}

func c15Op(kind, which, i int) Op {
	o := Op{K: []string{"string", "response", "eval", "file"}[kind%4], Data: c15Data(i)}
	if i%13 == 12 {
		o.Data, o.NoMap = nil, true
	}
	switch kind % 4 {
	case 0, 1:
		o.Name = c15Pages[which%len(c15Pages)]
	case 2:
		o.Src = []byte(c15Srcs[which%len(c15Srcs)])
	case 3:
		o.Name = "t/" + []string{"plain", "fail", "random", "gone", "esc", "own"}[which%6] + ".tw"
	}
	return o
}

func c15Tree() map[string][]byte {
	out := map[string][]byte{}
	for n, s := range c15Files {
		out[n] = []byte(s)
	}
	return out
}

// c15Enum puts every kind of call beside every other.
func c15Enum(cold bool) func(th bool, yield func(func() *c15Case)) {
	return func(th bool, yield func(func() *c15Case)) {
		kinds := func(k int) int { return []int{len(c15Pages), len(c15Pages), len(c15Srcs), 6}[k] }
		n := 0
		for ka := 0; ka < 4; ka++ {
			for a := 0; a < kinds(ka); a++ {
				for kb := ka; kb < 4; kb++ {
					for b := 0; b < kinds(kb); b++ {
						n++
						if cold && n%4 != 0 {
							continue
						}
						t := n
						yield(func() *c15Case {
							c := &c15Case{Files: c15Tree(), Procs: []int{1, 2, 4, 8}[t%4], Debug: t/4%2 == 1, Cold: cold}
							for g := 0; g < 4; g++ {
								k, w := ka, a
								if g%2 == 1 {
									k, w = kb, b
								}
								c.Gos = append(c.Gos, []Op{c15Op(k, w, t+g), c15Op(k, w, t+g+4)})
							}
							return c
						})
					}
				}
			}
		}
	}
}

// c15First makes the calls that need no template as the first ones of a
// process: every source and file by all, and every pair.
func c15First(th bool, yield func(func() *c15Case)) {
	n, total := 0, len(c15Srcs)+6
	op := func(i, t int) Op {
		if i < len(c15Srcs) {
			return c15Op(2, i, t)
		}
		return c15Op(3, i-len(c15Srcs), t)
	}
	for a := 0; a < total; a++ {
		for b := a; b < total; b++ {
			n++
			if !th && a != b && n%5 != 0 {
				continue
			}
			t := n
			yield(func() *c15Case {
				c := &c15Case{Files: c15Tree(), Procs: []int{2, 4, 8}[t%3], Cold: true, NoLoad: true}
				for g := 0; g < 6; g++ {
					c.Gos = append(c.Gos, []Op{op([]int{a, b}[g%2], t+g)})
				}
				return c
			})
		}
	}
}

func c15Draw(g *gen.G) *c15Case {
	c := &c15Case{Files: c15Tree(), Procs: []int{1, 2, 3, 4, 8, 16}[g.N(6)], Debug: g.N(2) == 1}
	goros, calls := 2+g.N(11), 1+g.N(8)
	for i := 0; i < goros; i++ {
		var ops []Op
		for j := 0; j < calls; j++ {
			ops = append(ops, c15Op(g.N(4), g.N(60), i*17+g.N(17)))
		}
		c.Gos = append(c.Gos, ops)
	}
	return c
}

// c15Site draws a random tree; every goroutine has its own copy of the data.
func c15Site(r *rapid.T) *c15Case {
	g := gen.New(r)
	s := genSiteWith(r, 3, g.N(3) > 0, func(g *gen.G) { g.Faults = []int{0, 0, 10, 60}[g.N(4)] })
	c := &c15Case{Files: map[string][]byte{}, Procs: []int{1, 2, 4, 8}[g.N(4)], Debug: g.N(2) == 1, Loads: 1 + g.N(2)}
	var names []string
	for n, p := range s.Files {
		c.Files[n] = []byte(PrintB(p, &Layout{B: s.Layout}) + "{{ uid15 }}")
		if hasKind(p, "use") {
			c.Files[n] = []byte(PrintB(p, &Layout{B: s.Layout}))
		}
		names = append(names, n)
	}
	sortStrings(names)
	for i, n := 0, 2+g.N(7); i < n; i++ {
		var ops []Op
		for j, m := 0, 1+g.N(4); j < m; j++ {
			d := Data{"uid15": DStr(fmt.Sprintf("u%d.%d", i, j))}
			for k, v := range s.Data {
				d[k] = v
			}
			o := Op{K: []string{"string", "response"}[g.N(2)], Name: s.Page, Data: d}
			if g.N(4) == 3 {
				o.Name = gen.Pick(g, names)
			}
			if s.endless(o.Name, d) {
				o.Name = "none"
			}
			ops = append(ops, o)
		}
		c.Gos = append(c.Gos, ops)
	}
	return c
}

func init() {
	preps["c15"] = ready15
	register(&core.Prop{
		ID: "C15", Level: "exploration", Race: true,
		Families: []core.Family{
			core.New(core.Fam[*c15Case]{
				Name: "pairs", Rule: "every pair of calls (20 pages through String and Response, 13 sources through EvaluateString, 5 files through EvaluateFile, about half of them failing) made by 4 goroutines at once on freshly loaded templates under the race detector, GOMAXPROCS 1 to 8, debug mode on and off; every result compared with the same call alone; non-trivial: always",
				Enum: c15Enum(false), Judge: judge15,
			}),
			core.New(core.Fam[*c15Case]{
				Name: "random", Rule: "2 to 12 goroutines with 1 to 8 random calls each, functions and writers that yield in the middle; non-trivial: always",
				Gen: func(r *rapid.T) *c15Case { return c15Draw(gen.New(r)) }, Quick: 2000, Thorough: 40000, Judge: judge15,
			}),
			core.New(core.Fam[*c15Case]{
				Name: "sites", Rule: "random trees of pages, layouts and components rendered by 2 to 8 goroutines; non-trivial: the tree can be loaded",
				Gen: c15Site, Quick: 4000, Thorough: 80000, Judge: judge15,
			}),
			core.New(core.Fam[*c15Case]{
				Name: "cold", Rule: "the pairs (thinned out) and random cases as the first calls of a fresh process, after loading or (for calls that need no template) before anything else, so that lazily made state is made concurrently; results compared with another process that makes the calls one after another; non-trivial: always",
				Enum: func(th bool, yield func(func() *c15Case)) {
					c15Enum(true)(th, yield)
					c15First(th, yield)
				},
				Gen: func(r *rapid.T) *c15Case {
					g := gen.New(r)
					c := c15Draw(g)
					c.Cold = true
					c.ErrorPage = gen.Pick(g, []string{"", "", "error", "errorbad", "gone"})
					if c.ErrorPage != "" {
						c.Debug = false
					}
					return c
				}, Quick: 300, Thorough: 6000, Judge: judge15,
			}),
			core.New(core.Fam[*c15Case]{
				Name: "error page", Rule: "as random, with a custom error page that works, fails or does not exist; non-trivial: always",
				Gen: func(r *rapid.T) *c15Case {
					g := gen.New(r)
					c := c15Draw(g)
					c.ErrorPage = gen.Pick(g, []string{"error", "errorbad", "gone"})
					c.Debug = g.N(4) == 3
					return c
				}, Quick: 1200, Thorough: 20000, Judge: judge15,
			}),
		},
		Assumptions: []string{
			"schedules are those of the Go scheduler under yield noise; the race detector reports unsynchronised accesses of the calls that ran, whatever their order was",
			"the data of two goroutines shares no memory",
		},
	})
}
