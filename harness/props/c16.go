package props

import (
	"encoding/json"
	"fmt"

	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// c16Case is a history of calls on loaded templates.
type c16Case struct {
	Files map[string][]byte `json:"files,omitempty"` // nil: c16Files
	Dir   string            `json:"dir,omitempty"`
	Debug bool              `json:"debug,omitempty"`
	Page  string            `json:"page,omitempty"`
	Ops   []Op              `json:"ops"`
	// Times repeats the calls.
	Times int `json:"times,omitempty"`
	// Probe adds all distinct calls, NewTemplate(nil), and them again.
	Probe bool `json:"probe,omitempty"`
}

// c16Files is the tree of C15 and pages that keep something if anything is.
var c16Files = func() map[string]string {
	out := map[string]string{}
	for n, s := range c15Files {
		out[n+".tw"] = s
	}
	for n, s := range map[string]string{
		"lits":        "{{ [3, 1, 2].reverse() }}{{ [1].append(2, 3) }}{{ x = [1, 2]; y = x.append(3); z = x.prepend(0); x }}{{ y }}{{ z }}{{ {a: [1]}.a.append(2) }}{{ x.slice(1).append(9) }}{{ x }}",
		"inplace":     "{{ list.append(1) }}{{ list.reverse() }}{{ list.prepend(5) }}{{ list.slice(1) }}{{ list.shuffle().len() }}{{ list }}{{ obj }}{{ list.append(list).len() }}{{ list }}",
		"counter":     "@for(i = 0; i < 3; i++){{ i }}{{ n++ }}{{ n-- }}@end{{ n }}",
		"useonly":     "@use('~main')@insert('title', 'T')@insert('body')B@end",
		"slots":       "@component('~card', {id: 1, n: 2})@slot('foot')F@end@slot S@end@end@component('~card', {id: 3, n: 4})@slot('foot')G@end@slot R@end@end",
		"noslots":     "@component('~card', {id: 'q', n: 2})@slot('foot')@end@slot @end@end|@component('row', {v: 1, u: 2})",
		"shadow":      "{{ uid = 'mine' }}{{ uid }}@component('row', {v: uid, u: n}){{ n = 5 }}{{ n }}",
		"loopfail":    "@each(x in [1, 2, 3]){{ x }}@if(x == 2){{ x.nofn() }}@end@end",
		"deepfail":    "a@if(true)b@each(x in [1])c@component('bad', {id: x})@end@end",
		"dumpy":       "@dump(uid, n, list, obj, nil, 1.5)",
		"strings":     "{{ 'a b c'.split(' ').join('-') }}{{ uid.upper() }}{{ uid.reverse() }}{{ 'abc'.at(1) }}{{ uid.trim().len() }}",
		"layouts/bad": "<x>@reserve('body'){{ noSuchThing }}</x>",
		"setall":      "{{ uid = 'set'; n = 7; list = [n, uid]; obj = {a: 1}; i = 'i'; x = 1.5 }}{{ uid }}{{ n }}{{ list }}{{ obj }}",
		"setpart":     "@use('~main')@insert('title', 'P')@insert('body'){{ n = 0.5; n }}@component('row', {v: n, u: 's'})@end",
		"errorset":    "<p>sorry {{ uid = 'err'; n = 9; uid }}{{ n }}</p>@each(list in [1, 2]){{ list }}@end",
		"usebad":      "@use('~bad')@insert('body')b@end",
	} {
		out[n+".tw"] = s
	}
	return out
}()

var c16Pages = func() []string {
	out := append([]string{}, c15Pages...)
	return append(out, "lits", "inplace", "counter", "useonly", "slots", "noslots", "shadow", "loopfail", "deepfail", "dumpy", "strings", "usebad", "/home", "home.tw", "", "components/card")
}()

var c16Srcs = append([]string{"@insert('a')b@end", "@slot('x')", "@each(x in", "{{ list.append(1) }}{{ list }}", "{{ n++ }}{{ n }}", "a@end", "", "@component('~card', {id: uid, n: n})", "@use('~main')", "@reserve('title')"}, c15Srcs...)

// c16Catalogue has one call of every kind.
var c16Catalogue = func() []Op {
	var out []Op
	for i, p := range c16Pages {
		out = append(out, Op{K: "string", Name: p, Data: c15Data(4)})
		if i%2 == 0 || i > 6 && i < 14 {
			out = append(out, Op{K: "response", Name: p, Data: c15Data(3)})
		}
	}
	for _, s := range c16Srcs {
		out = append(out, Op{K: "eval", Src: []byte(s), Data: c15Data(4)})
	}
	for _, n := range []string{"plain", "fail", "home", "gone", "lits"} {
		out = append(out, Op{K: "file", Name: "t/" + n + ".tw", Data: c15Data(4)})
	}
	bad := Data{"loop": DInt(1)}
	return append(out,
		Op{K: "string", Name: "plain", Data: c15Data(8)},
		Op{K: "string", Name: "plain", NoMap: true},
		Op{K: "string", Name: "home", Data: c15Data(10)},
		Op{K: "string", Name: "plain", Data: bad},
		Op{K: "response", Name: "plain", Data: bad},
		Op{K: "string", Name: "plain", Vars: map[string]*Nat{"uid": {T: &NT{K: "chan"}, V: &NV{}}}},
		Op{K: "eval", Src: []byte("{{ uid }}"), NoMap: true},
		// assignments without data
		Op{K: "eval", Src: []byte("{{ uid = 'e'; n = 1; uid }}{{ n }}"), NoMap: true},
		Op{K: "eval", Src: []byte("{{ n = 'text'; n }}{{ list = 2.5 }}{{ list }}{{ uid }}"), NoMap: true},
		Op{K: "eval", Src: []byte("{{ obj = true; obj }}@for(n = 0; n < 2; n++){{ n }}{{ uid = n }}@end{{ n }}"), Data: Data{}},
		Op{K: "response", Name: "setall", NoMap: true},
		Op{K: "string", Name: "setall", Data: Data{}},
		Op{K: "string", Name: "setpart", NoMap: true},
		Op{K: "file", Name: "t/setall.tw", NoMap: true},
		Op{K: "response", Name: "fail", NoMap: true},
	)
}()

var c16Base = map[string]Res{}

// c16Alone is the result of a call in a fresh process.
func c16Alone(c *c16Case, tree string, load, o Op) (Res, error) {
	js, _ := json.Marshal([]any{tree, load, o})
	key := string(js)
	if r, ok := c16Base[key]; ok {
		return r, nil
	}
	res, err := (&Script{Prep: "c15", Ops: []Op{load, o}}).fresh()
	if err != nil {
		return Res{}, err
	}
	if c.Files != nil {
		return res[1], nil
	}
	c16Base[key] = res[1]
	return res[1], nil
}

var c16On bool // the common tree is written

func judge16(c *c16Case) core.Verdict {
	dir := c.Dir
	if dir == "" {
		dir = "t"
	}
	f, tree := c16Files, "common"
	if c.Files != nil {
		f, tree = map[string]string{}, ""
		for n, s := range c.Files {
			f[n+".tw"] = string(s)
		}
		dir = "site"
	}
	if c.Files != nil || !c16On {
		writeTree(dir, f)
		c16On = c16On || c.Files == nil
	}
	load := Op{K: "load", Dir: dir, Ext: ".tw", Debug: c.Debug, Page: c.Page}
	ops := []Op{load}
	for i := 0; i < max(c.Times, 1); i++ {
		ops = append(ops, c.Ops...)
	}
	seen := map[string]bool{}
	var distinct []Op
	for _, o := range c.Ops {
		js, _ := json.Marshal(o)
		if !seen[string(js)] {
			seen[string(js)] = true
			distinct = append(distinct, o)
		}
	}
	if c.Probe {
		if c.Files == nil {
			distinct = append(distinct, c16Catalogue...)
		}
		ops = append(ops, distinct...)
		ops = append(ops, Op{K: "reload"})
		ops = append(ops, distinct...)
	}
	res, err := (&Script{Prep: "c15", Ops: ops}).fresh()
	if err != nil {
		return core.Failf("%v", err)
	}
	if res[0].Failed {
		return core.OK(false, "load error")
	}
	outs, fails := 0, 0
	for i, o := range ops[1:] {
		got := res[i+1]
		if got.Changed {
			return core.Failf("call %d, %s, changed its data or an earlier result after %s\n%s", i+1, o, history(ops[1:i+1]), files(f))
		}
		if o.K == "reload" {
			if got.Failed {
				return core.Failf("NewTemplate(nil) fails with %s after %s\n%s", got, history(ops[1:i+1]), files(f))
			}
			continue
		}
		alone, err := c16Alone(c, tree, load, o)
		if err != nil {
			return core.Failf("%s: %v", o, err)
		}
		if got.Failed {
			fails++
		} else {
			outs++
		}
		if got.key() != alone.key() {
			return core.Failf("%s gives %s as the first call and %s after %s\nloaded with %s\n%s", o, alone, got, history(ops[1:i+1]), load, files(f))
		}
	}
	class := "mixed"
	switch {
	case fails == 0:
		class = "outputs"
	case outs == 0:
		class = "errors"
	}
	return core.OK(len(ops) > 2, class)
}

// judge16Local compares with the first call on templates that are loaded
// again in the same process.
func judge16Local(c *c16Case) core.Verdict {
	ready15()
	f := map[string]string{}
	for n, s := range c.Files {
		f[n+".tw"] = string(s)
	}
	writeTree("site", f)
	load := Op{K: "load", Dir: "site", Ext: ".tw", Debug: c.Debug}
	alone := map[string]Res{}
	var distinct []Op
	key := func(o Op) string {
		js, _ := json.Marshal(o)
		return string(js)
	}
	for _, o := range c.Ops {
		k := key(o)
		if _, ok := alone[k]; ok {
			continue
		}
		m := &machine{}
		if m.do(load).Failed {
			return core.OK(false, "load error")
		}
		alone[k] = m.do(o)
		distinct = append(distinct, o)
	}
	m := &machine{}
	m.do(load)
	outs, fails := 0, 0
	ops := append(append([]Op{}, c.Ops...), distinct...)
	for i, o := range ops {
		got, want := m.do(o), alone[key(o)]
		if got.Failed {
			fails++
		} else {
			outs++
		}
		if got.Changed || got.key() != want.key() {
			return core.Failf("%s gives %s as the first call and %s (data changed: %v) after %s\nloaded with %s\n%s", o, want, got, got.Changed, history(ops[:i]), load, files(f))
		}
	}
	class := "mixed"
	switch {
	case fails == 0:
		class = "outputs"
	case outs == 0:
		class = "errors"
	}
	return core.OK(len(ops) > 1, class)
}

func history(ops []Op) string {
	if len(ops) > 20 {
		return fmt.Sprintf("%d calls, the last of them %s", len(ops), history(ops[len(ops)-5:]))
	}
	return fmt.Sprint(ops)
}

var c16Configs = []struct {
	debug bool
	page  string
}{{false, ""}, {true, ""}, {false, "error"}, {false, "errorbad"}, {false, "gone"}, {true, "error"}, {false, "errorset"}}

func c16Tuples(quick, thorough int) func(th bool, yield func(func() *c16Case)) {
	return func(th bool, yield func(func() *c16Case)) {
		l := quick
		if th {
			l = thorough
		}
		n := 0
		var rec func(ops []int)
		rec = func(ops []int) {
			if len(ops) == l {
				n++
				t, mine := n, append([]int{}, ops...)
				yield(func() *c16Case {
					conf := c16Configs[(t+t/len(c16Configs))%len(c16Configs)]
					c := &c16Case{Debug: conf.debug, Page: conf.page}
					for _, o := range mine {
						c.Ops = append(c.Ops, c16Catalogue[o])
					}
					return c
				})
				return
			}
			for i := range c16Catalogue {
				rec(append(ops, i))
			}
		}
		rec(nil)
	}
}

func c16Draw(r *rapid.T) *c16Case {
	g := gen.New(r)
	conf := gen.Pick(g, c16Configs)
	c := &c16Case{Debug: conf.debug, Page: conf.page, Probe: g.N(8) == 7}
	few := 1 + g.N(6)
	for i, n := 0, 3+g.N(80); i < n; i++ {
		switch g.N(4) {
		case 0:
			c.Ops = append(c.Ops, gen.Pick(g, c16Catalogue))
		case 1:
			o := c15Op(g.N(4), g.N(60), 0)
			o.Data = c15Data(g.N(few))
			c.Ops = append(c.Ops, o)
		case 2:
			o := Op{K: []string{"string", "response"}[g.N(2)], Name: gen.Pick(g, c16Pages), Data: c15Data(g.N(few))}
			if g.N(4) == 3 {
				for k := range o.Data {
					if g.N(3) == 2 {
						delete(o.Data, k)
					}
				}
			}
			if g.N(6) == 5 {
				o.Data, o.NoMap = nil, true
			}
			c.Ops = append(c.Ops, o)
		case 3:
			if len(c.Ops) > 0 { // again
				c.Ops = append(c.Ops, gen.Pick(g, c.Ops))
			}
		}
	}
	return c
}

func c16Site(r *rapid.T) *c16Case {
	g := gen.New(r)
	s := genSiteWith(r, 3, g.N(3) > 0, func(g *gen.G) { g.Faults = []int{0, 10, 60}[g.N(3)] })
	conf := gen.Pick(g, c16Configs[:2])
	c := &c16Case{Files: map[string][]byte{}, Debug: conf.debug, Probe: true}
	var names []string
	for n, p := range s.Files {
		c.Files[n] = []byte(PrintB(p, &Layout{B: s.Layout}))
		names = append(names, n)
	}
	// other pages with the same layout and components
	var others []string
	for i, n := 0, 1+g.N(3); i < n; i++ {
		var p []*S
		for _, st := range s.Files[s.Page] {
			if st.K == "use" || g.N(3) > 0 {
				p = append(p, st)
			}
		}
		name := fmt.Sprintf("other%d", i)
		s.Files[name] = p
		c.Files[name] = []byte(PrintB(p, &Layout{B: s.Layout}))
		others = append(others, name)
	}
	sortStrings(names)
	if g.N(3) == 2 {
		c.Page = gen.Pick(g, append(names, "gone"))
		if s.endless(c.Page, nil) {
			c.Page = "gone"
		}
	}
	var pool []Op
	for i, n := 0, 2+g.N(3); i < n; i++ {
		d := Data{}
		for k, v := range s.Data {
			switch g.N(6) {
			case 4:
				v = g.Datum(g.Type(1))
			case 5:
				continue
			}
			d[k] = v
		}
		if i == 0 {
			d = s.Data
		}
		name := s.Page
		switch g.N(6) {
		case 4:
			name = gen.Pick(g, names)
		case 1, 2, 3:
			name = gen.Pick(g, others)
		}
		k := []string{"string", "string", "response", "file", "eval"}[g.N(5)]
		o := Op{K: k, Name: name, Data: d}
		if g.N(6) == 5 {
			o.Data, o.NoMap = nil, true
			d = nil
		}
		switch k {
		case "file":
			o.Name = "site/" + name + ".tw"
		case "eval":
			o.Name, o.Src = "", c.Files[name]
		}
		if k == "file" || k == "eval" {
			if hasKind(s.Files[name], "for") {
				o = Op{K: "string", Name: "none", Data: d, NoMap: o.NoMap}
			}
		} else if s.endless(name, d) {
			o.Name = "none"
		}
		pool = append(pool, o)
	}
	for i, n := 0, 2+g.N(20); i < n; i++ {
		c.Ops = append(c.Ops, gen.Pick(g, pool))
	}
	return c
}

func init() {
	register(&core.Prop{
		ID: "C16", Level: "exploration",
		Families: []core.Family{
			core.New(core.Fam[*c16Case]{
				Name: "short", Rule: "all histories of 2 (thorough 3) calls out of a catalogue of about 100 (String, Response, EvaluateString, EvaluateFile; working, failing at different points, not existing, with other data or none) under 6 configurations, each history in a process of its own; non-trivial: always",
				Enum: c16Tuples(2, 3), Judge: judge16,
			}),
			core.New(core.Fam[*c16Case]{
				Name: "repeated", Rule: "every call of the catalogue 2 to 1000 times, then the whole catalogue, then NewTemplate(nil) and the catalogue again; non-trivial: always",
				Enum: func(th bool, yield func(func() *c16Case)) {
					for i := range c16Catalogue {
						for j, times := range []int{2, 9, 70, 1000} {
							if !th && (i+j)%2 == 1 {
								continue
							}
							yield(func() *c16Case {
								conf := c16Configs[(i+j)%len(c16Configs)]
								return &c16Case{Debug: conf.debug, Page: conf.page, Ops: []Op{c16Catalogue[i]}, Times: times, Probe: true}
							})
						}
					}
				}, Judge: judge16,
			}),
			core.New(core.Fam[*c16Case]{
				Name: "long", Rule: "random histories of up to 80 calls on the same tree with varying data, repetitions of earlier calls included; every call compared with the same call first in a fresh process; non-trivial: always",
				Gen: c16Draw, Quick: 2500, Thorough: 60000, Judge: judge16,
			}),
			core.New(core.Fam[*c16Case]{
				Name: "sites", Rule: "random trees of pages, layouts and components; histories of 2 to 21 calls of 2 to 4 kinds with different data, then every call again before and after NewTemplate(nil); non-trivial: the tree can be loaded",
				Gen: c16Site, Quick: 1500, Thorough: 40000, Judge: judge16,
			}),
			core.New(core.Fam[*c16Case]{
				Name: "loaded", Rule: "histories as in sites, all in one process; every call compared with the same call on templates that were loaded for it; non-trivial: the tree can be loaded",
				Gen: func(r *rapid.T) *c16Case {
					c := c16Site(r)
					c.Page, c.Probe = "", false
					return c
				}, Quick: 20000, Thorough: 600000, Judge: judge16Local,
			}),
		},
		Assumptions: []string{"the fresh state is a new process that has loaded the same tree and registered the same functions"},
	})
}
