package props

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"verif/harness/core"
	. "verif/harness/lang"
)

// reservedSites bind names in every way at every place.
func reservedSites(th bool, yield func(func() *SiteCase)) {
	one, two := Int("1"), Int("2")
	obj := Obj([]string{"index", "iter", "first", "last"}, one, two, Bool(true), Bool(false))
	vals := []*E{one, Flt("1.5"), Str("s"), Bool(true), Nil(), Arr(one, two), obj, Var("loop"), Var("d")}
	lt := func(v, n string) *E { return Bin("<", Var(v), Int(n)) }
	binders := []func(n string, v *E) []*S{
		func(n string, v *E) []*S { return []*S{Assign(n, v), Print(Var(n))} },
		func(n string, v *E) []*S { return []*S{{K: "code", P: []Part{{E: one}, {N: n, E: v}, {E: Var(n)}}}} },
		func(n string, v *E) []*S { return []*S{Each(n, Arr(v, v), Print(Var(n)))} },
		func(n string, v *E) []*S {
			return []*S{{K: "each", S: n, X: []*E{Arr()}, B: []*S{Text("B")}, HasElse: true, Else: []*S{Text("E")}}}
		},
		func(n string, v *E) []*S {
			return []*S{{K: "for", Init: &Part{N: n, E: v}, Cond: one, B: []*S{Print(Var(n)), {K: "break"}}}}
		},
		func(n string, v *E) []*S {
			return []*S{{K: "for", Init: &Part{N: "q", E: one}, Cond: lt("q", "3"), Post: &Part{N: n, E: v}, B: []*S{Assign("q", Bin("+", Var("q"), one)), Text("p")}}}
		},
		func(n string, v *E) []*S {
			return []*S{{K: "for", Init: &Part{N: "q", E: one}, Cond: lt("q", "3"), Post: &Part{E: Post("++", Var("q"))}, B: []*S{Assign(n, v), Print(Var(n))}}}
		},
		func(n string, v *E) []*S { return []*S{Each("q", Arr(one, two), Assign(n, v), Print(Var(n)))} },
		func(n string, v *E) []*S { return []*S{Each("q", Arr(one), Each(n, Arr(v), Print(Var(n))))} },
		func(n string, v *E) []*S { return []*S{If(one, Assign(n, v), Print(Var(n))), Text(".")} },
		func(n string, v *E) []*S { return []*S{{K: "comp", S: "~p", X: []*E{Obj([]string{n}, v)}}} },
		func(n string, v *E) []*S {
			return []*S{{K: "comp", S: "~p", X: []*E{Obj([]string{"aa", n, "zz"}, one, v, two)}, Br: []Branch{{B: []*S{Text("S")}}}}}
		},
		func(n string, v *E) []*S {
			return []*S{Each("q", Arr(one, two), &S{K: "comp", S: "~p", X: []*E{Obj([]string{n}, v)}})}
		},
	}
	contexts := []func(b []*S) map[string][]*S{
		func(b []*S) map[string][]*S { return map[string][]*S{"home": b} },
		func(b []*S) map[string][]*S { return map[string][]*S{"home": {If(Var("d"), b...), Text(";")}} },
		func(b []*S) map[string][]*S {
			return map[string][]*S{"home": {{K: "if", X: []*E{Bool(false)}, Br: []Branch{{E: one, B: b}}, HasElse: true, Else: []*S{Text("E")}}}}
		},
		func(b []*S) map[string][]*S {
			return map[string][]*S{"home": {{K: "if", X: []*E{Bool(false)}, B: []*S{Text("T")}, HasElse: true, Else: b}}}
		},
		func(b []*S) map[string][]*S { return map[string][]*S{"home": {Each("e", Arr(one, two), b...)}} },
		func(b []*S) map[string][]*S {
			return map[string][]*S{"home": {{K: "each", S: "e", X: []*E{Arr()}, B: []*S{Text("B")}, HasElse: true, Else: b}}}
		},
		func(b []*S) map[string][]*S {
			return map[string][]*S{"home": {{K: "for", Init: &Part{N: "f", E: one}, Cond: lt("f", "3"), Post: &Part{E: Post("++", Var("f"))}, B: b}}}
		},
		func(b []*S) map[string][]*S {
			return map[string][]*S{"home": {Each("e", Arr(one, two), If(Dot(Var("loop"), "first"), b...), Print(Dot(Var("loop"), "iter")))}}
		},
		func(b []*S) map[string][]*S {
			return map[string][]*S{"home": {{K: "comp", S: "~c", Br: []Branch{{B: b}}}, Text("after")}}
		},
		func(b []*S) map[string][]*S {
			return map[string][]*S{"home": {Each("e", Arr(one, two), &S{K: "comp", S: "~c", Br: []Branch{{B: b}}})}}
		},
		func(b []*S) map[string][]*S {
			return map[string][]*S{"home": {{K: "use", S: "~l"}, {K: "insert", S: "r", B: b}}}
		},
		func(b []*S) map[string][]*S {
			if hasComp(b) {
				return nil
			}
			return map[string][]*S{"home": {{K: "use", S: "~m"}}, "layouts/m": append([]*S{Text("L"), {K: "reserve", S: "r"}}, b...)}
		},
		func(b []*S) map[string][]*S {
			if hasComp(b) {
				return nil
			}
			return map[string][]*S{"home": {{K: "comp", S: "~d"}, {K: "comp", S: "~d", X: []*E{Obj([]string{"e"}, one)}}}, "components/d": b}
		},
	}
	for ci, ctx := range contexts {
		for bi, b := range binders {
			for ni, n := range []string{"loop", "loops", "Loop", "lo", "_loop", "loo", "index", "lOOP", "loop_", "looop", "pool"} {
				for vi, v := range vals {
					if n != "loop" && !th && (ci+bi+ni+vi)%4 != 0 {
						continue
					}
					f := ctx(b(n, v))
					if f == nil {
						continue
					}
					f["components/p"] = []*S{Text("("), {K: "slot"}, Print(Tern(Bool(true), Int("3"), Var(n))), Text(")")}
					f["components/c"] = []*S{Text("<"), {K: "slot"}, Text(">")}
					f["layouts/l"] = []*S{Text("L"), {K: "reserve", S: "r"}}
					yield(func() *SiteCase { return &SiteCase{Files: f, Page: "home", Data: Data{"d": DInt(4)}} })
				}
			}
		}
	}
	// as data
	vs := []*D{DInt(1), DStr("x"), DNil(), DArr(), DObj(map[string]*D{"index": DInt(1)}), DBool(false), DFloat(1.5)}
	for _, n := range []string{"loop", "loops", "Loop", "_loop", "lo"} {
		for _, v := range vs {
			for _, p := range [][]*S{{Text("t")}, {Print(Var("d"))}, {Each("q", Arr(one, two), Print(Dot(Var("loop"), "index")))}, {{K: "comp", S: "~c"}}} {
				yield(func() *SiteCase {
					return &SiteCase{Files: map[string][]*S{"home": p, "components/c": {Text("c")}}, Page: "home", Data: Data{n: v, "d": DInt(1)}}
				})
			}
		}
	}
}

func hasComp(b []*S) bool {
	found := false
	Walk(b, func(s *S) { found = found || s.K == "comp" }, nil)
	return found
}

// strCase is a source whose result is not known.
type strCase struct {
	Src string `json:"src"`
}

// directiveCases are the directives of sites at every place.
func directiveCases(th bool, yield func(func() *strCase)) {
	dirs := []string{
		"@component('c')", "@component('~c')", "@component('none')", "@component('c', {v: d})", "@component('c', {})", "@component('c', {v: nope})", "@component('c')@slot A@end@end", "@component('c')@slot('s')A{{ d }}@end@slot B@end@end", "@component('c', {v: 1})\n@slot('s')@end\n@end", "@component('c', {v: [d, 2]})@slot('zz')x@end@end",
		"@component('c', d)", "@component(d)", "@component('')", "@component()", "@component",
		"@use('l')", "@use('~l')", "@use('none')", "@use('')", "@use(d)", "@use", "@use('l')@insert('t', d)", "@use('l')@insert('t')x@end@insert('b', 'y')", "@use('l')@insert('none', 1)", "@use('l')@use('l')",
		"@insert('t', d)", "@insert('t', 'x')", "@insert('t')x{{ d }}@end", "@insert('t')@end", "@insert('')x@end", "@insert('t', nope)", "@insert('t')@insert('b')x@end@end", "@insert", "@insert('t', 1)@insert('t', 2)",
		"@reserve('t')", "@reserve('')", "@reserve('t')@reserve('t')", "@reserve(d)", "@reserve",
		"@slot", "@slot('s')", "@slot('s')x@end", "@slot x@end", "@slot('')", "@slot('s')@slot('s')", "@slot('s')@slot", "@slot(d)", "@slot('s', 1)",
		"@break", "@continue", "@breakIf(d)", "@continueIf(nope)", "@end", "@else", "@elseif(d)", "@dump(d)", "@dump()", "@dump", "@if", "@each", "@for",
	}
	wraps := [][2]string{
		{"", ""}, {"a\n", "\nb"}, {"@if(true)", "@end"}, {"@if(d)x@else", "@end"}, {"@if(false)x@elseif(true)", "@else y@end"}, {"@each(x in [1, 2])", "@end"}, {"@each(x in [])a@else", "@end"}, {"@for(i = 0; i < 2; i++)", "@end"}, {"@for(i = 0; i < 0; i++)a@else", "@end"},
		{"@insert('b')", "@end"}, {"@use('l')@insert('b')", "@end"}, {"@component('c')@slot", "@end@end"}, {"@component('c', {v: 2})@slot('s')", "@end@end"}, {"@slot('s')", "@end"}, {"@slot", "@end"}, {"@component('c')", "@end"}, {"@use('l')", ""}, {"@reserve('b')", ""}, {"{{ 1 }}", "{{ d }}"}, {"@each(x in [1])@if(x)", "@end{{ loop.index }}@end"},
	}
	for i, w := range wraps {
		for j, v := range wraps {
			if i > 0 && j > 0 && !th && (i+j)%3 != 0 {
				continue
			}
			for _, d := range dirs {
				yield(func() *strCase { return &strCase{w[0] + v[0] + d + v[1] + w[1]} })
			}
		}
	}
	for _, a := range dirs {
		for _, b := range dirs {
			yield(func() *strCase { return &strCase{a + b} })
		}
	}
}

// judgeDirective evaluates the source as a string, as a file, as a page, as a
// layout and as a component.
func judgeDirective(c *strCase) core.Verdict {
	bad := ""
	failed := false
	check := func(what, out string, err error) {
		if err == nil || bad != "" {
			return
		}
		failed = true
		e, ok := parseErr(err)
		switch {
		case out != "":
			bad = fmt.Sprintf("%s: output %q and error %q", what, out, err)
		case !ok:
			bad = fmt.Sprintf("%s: %q is no Textwire error", what, err)
		case e.Line > strings.Count(c.Src, "\n")+3 || strings.TrimSpace(e.Msg) == "" || strings.Contains(e.Msg, "%!"):
			bad = fmt.Sprintf("%s: the error is %q", what, err)
		}
	}
	data := func() map[string]any { return map[string]any{"d": 5} }
	out, err := textwire.EvaluateString(c.Src, data())
	check("EvaluateString", out, err)
	if werr := os.WriteFile("f.tw", []byte(c.Src), 0o644); werr != nil {
		panic(werr)
	}
	fout, ferr := textwire.EvaluateFile(filepath.Join(cwd(), "f.tw"), data())
	check("EvaluateFile", fout, ferr)
	if fout != out || (err == nil) != (ferr == nil) {
		return core.Failf("EvaluateString gives %q, %v and EvaluateFile %q, %v\nsource: %q", out, err, fout, ferr, c.Src)
	}
	for _, as := range []string{"home", "layouts/l", "l", "components/c", "c"} {
		f := map[string]string{"home.tw": "@component('c', {v: 3})\n", "l.tw": "<@reserve('t')|@reserve('b')>", "c.tw": "[{{ 1 }}@slot('s')@slot]", "layouts/l.tw": "<@reserve('t')@reserve('b')>", "components/c.tw": "[@slot]"}
		if strings.HasSuffix(as, "l") {
			f["home.tw"] = "@use('" + as + "')@insert('t', 'T')"
		} else {
			f["home.tw"] = "@component('" + as + "', {v: 3})\n"
		}
		f[as+".tw"] = c.Src
		writeTree("t", f)
		tpl, err := load("t", ".tw", false)
		if (tpl == nil) != (err != nil) {
			return core.Failf("as %s: NewTemplate gives %v and %v\nsource: %q", as, tpl, err, c.Src)
		}
		check("loading as "+as, "", err)
		if err != nil {
			continue
		}
		for _, n := range []string{"home", as} {
			out, ferr := tpl.String(n, data())
			if ferr != nil {
				check("rendering "+n+" as "+as, out, ferr.Error())
			}
			w := &recorder{}
			rerr := tpl.Response(w, n, data())
			if (rerr == nil) != (ferr == nil) || rerr == nil && w.body.String() != out {
				return core.Failf("as %s: String gives %q, %v and Response %q, %v\nsource: %q", as, out, ferr, w.body.String(), rerr, c.Src)
			}
		}
	}
	if bad != "" {
		return core.Failf("%s\nsource: %q", bad, c.Src)
	}
	return core.OK(true, map[bool]string{true: "some fail", false: "output"}[failed])
}

// confCase is a sequence of configurations in a fresh process.
type confCase struct {
	Ops []Op `json:"ops"`
}

var confDirs = []string{"", "other", "templates/sub", "other/", "templates"}
var confExts = []string{"", ".tw", ".html", ".tw.html"}
var confFiles = []string{"a.tw.html", "b.tw", "c.html", "sub/a.tw.html", "sub/b.tw", "sub/c.html", "d.tw.htm", "tw.html",
	"u.tw.html", "u.tw", "u.html", "sub/u.tw.html", "sub/u.tw", "sub/u.html", "k.tw.html", "k.tw", "k.html", "sub/k.tw.html", "sub/k.tw", "sub/k.html"}

func confCases(th bool, yield func(func() *confCase)) {
	var steps [][]Op
	steps = append(steps, []Op{{K: "reload"}})
	for _, d := range confDirs {
		for _, e := range confExts {
			steps = append(steps, []Op{{K: "load", Dir: d, Ext: e}}, []Op{{K: "configure", Dir: d, Ext: e}, {K: "reload"}})
			steps = append(steps, []Op{{K: "load", Dir: d, Ext: e, Debug: true, Page: "a"}})
		}
	}
	n := 0
	for _, a := range steps {
		yield(func() *confCase { return &confCase{a} })
		for _, b := range steps {
			if n++; !th && n%3 != 0 {
				continue
			}
			yield(func() *confCase { return &confCase{append(append([]Op{}, a...), b...)} })
		}
	}
}

func judgeConf(c *confCase) core.Verdict {
	f := map[string]string{}
	for _, d := range []string{"templates/", "other/", ""} {
		for _, n := range confFiles {
			if d != "" || !strings.Contains(n, "/") {
				f[d+n] = "in " + d + n
			}
		}
	}
	// pages that use a layout and a component
	texts := map[string]string{}
	for n := range f {
		switch base := path.Base(n); {
		case strings.HasPrefix(base, "u."):
			texts[n] = "@use('m')@insert('x')" + f[n] + "@end"
		case strings.HasPrefix(base, "k."):
			texts[n] = f[n] + "@component('q')"
		default:
			texts[n] = f[n]
		}
	}
	for _, d := range []string{"templates/", "other/", "", "templates/sub/", "other/sub/"} {
		for _, e := range confExts[1:] {
			texts[d+"m"+e] = "<" + d + "m" + e + " @reserve('x')>"
			texts[d+"q"+e] = "(" + d + "q" + e + ")"
		}
	}
	writeTree("conf", texts)
	var ops []Op
	type want struct {
		i    int
		file string
		out  string
	}
	var wants []want
	dir, ext := "templates", ".tw.html"
	for _, o := range c.Ops {
		if o.Dir != "" {
			dir = strings.Trim(o.Dir, "/")
		}
		if o.Ext != "" {
			ext = o.Ext
		}
		ops = append(ops, o)
		if o.K == "configure" {
			continue
		}
		for _, n := range confFiles {
			for _, e := range confExts[1:] {
				name, ok := strings.CutSuffix(n, e)
				if !ok || name == "" {
					continue
				}
				w := want{i: len(ops)}
				if e == ext && f[dir+"/"+n] != "" {
					w.file = dir + "/" + n
				} else if f[dir+"/"+name+ext] != "" {
					w.file = dir + "/" + name + ext
				}
				w.out = f[w.file]
				switch base := path.Base(w.file); {
				case strings.HasPrefix(base, "u."):
					w.out = "<" + dir + "/m" + ext + " " + w.out + ">"
				case strings.HasPrefix(base, "k."):
					w.out += "(" + dir + "/q" + ext + ")"
				}
				wants = append(wants, w)
				ops = append(ops, Op{K: "string", Name: name})
			}
		}
	}
	wd := cwd()
	if err := os.Chdir("conf"); err != nil {
		panic(err)
	}
	res, err := (&Script{Ops: ops}).fresh()
	if cerr := os.Chdir(wd); cerr != nil {
		panic(cerr)
	}
	if err != nil {
		return core.Failf("%v: %v", c.Ops, err)
	}
	for _, w := range wants {
		r := res[w.i]
		switch {
		case r.Panic != "":
			return core.Failf("%v: %s: %s", c.Ops, ops[w.i], r)
		case w.file == "" && !r.Failed:
			return core.Failf("%v: %s gives %s and there is no such template", c.Ops, ops[w.i], r)
		case w.file != "" && (r.Failed || string(r.Out) != w.out):
			return core.Failf("%v: %s gives %s instead of %q, the output of %s", c.Ops, ops[w.i], r, w.out, w.file)
		}
	}
	return core.OK(len(c.Ops) > 1, "")
}

// use13 looks where the errors are.
func use13(c *useCase) core.Verdict {
	pre := map[string]int{"home": 3, "layouts/l": 6, "components/c": 9, "components/d": 12, "aside": 15}
	want := map[int]string{}
	site := map[string][]*S{}
	src := map[string]string{}
	for n, b := range c.Files {
		site[n] = append([]*S{Text(strings.Repeat("\n", pre[n]))}, b...)
		src[n+".tw"] = PrintB(site[n], nil)
		want[pre[n]+1] = n
		if strings.Count(src[n+".tw"], "\n") != pre[n] {
			return core.Failf("more than one line: %q", src[n+".tw"])
		}
	}
	run := func(d Data) (string, error) { return textwire.EvaluateString(src["home.tw"], d.Native()) }
	if len(src) > 1 {
		writeTree("u", src)
		tpl, err := load("u", ".tw", false)
		if err != nil {
			return core.Failf("loading failed: %v\n%s", err, files(src))
		}
		run = func(d Data) (string, error) {
			out, ferr := tpl.String(c.Page, d.Native())
			if ferr != nil {
				return out, ferr.Error()
			}
			return out, nil
		}
	}
	in := &Interp{Site: site}
	n := 0
	for _, i := range c.Sets {
		in.Steps = 3000
		ref := in.Page(c.Page, useData(i))
		if ref.Endless {
			return core.OK(false, "endless")
		}
		out, err := run(useData(i))
		if err == nil {
			if ref.Err && !ref.Unspec {
				return core.Failf("%s, data %d: no error but %q\n%s", c.Place, i, out, files(src))
			}
			continue
		}
		n++
		e, ok := parseErr(err)
		if !ok || want[e.Line] == "" {
			return core.Failf("%s, data %d: the error %q is on line %d\n%s", c.Place, i, err, e.Line, files(src))
		}
		if name := want[e.Line]; name == "home" && len(src) > 1 && e.Path != filepath.Join(cwd(), "u", "home.tw") {
			return core.Failf("%s, data %d: the error %q is in %q\n%s", c.Place, i, err, e.Path, files(src))
		}
	}
	return core.OK(n > 0, fmt.Sprintf("%d errors", min(n, 1)))
}

func init() {
	c04 := Get("C04")
	c04.Families = append(c04.Families, core.New(core.Fam[*SiteCase]{
		Name: "reserved", Rule: "exhaustive: 13 ways to bind a name (assignment, loop variables, clauses of @for, component arguments) x 13 places x 11 names (loop and names that resemble it) x 9 values, and loop as data; against the reference; quick: every fourth of the other names; non-trivial: the result is defined",
		Enum: reservedSites, Judge: siteJudge(0),
	}))
	c09 := Get("C09")
	c09.Families = append(c09.Families, core.New(core.Fam[*strCase]{
		Name: "directives", Rule: "every directive with fitting, unfitting and missing arguments (58) in 20 x 20 places and all pairs of them, as a string, a file, a page, a layout and a component, with String and Response: output or an error, no panic; non-trivial: all",
		Enum: directiveCases, Judge: judgeDirective,
	}))
	c13 := Get("C13")
	c13.Families = append(c13.Families, core.New(core.Fam[*useCase]{
		Name: "uses", Rule: "every form of expression (260) in every place of a template (70) of files that are on one line each behind different numbers of empty lines, rendered with data that lack names or have other types: the line of every error is that of one of the files, and its path that of the page if it is the page's; non-trivial: some error",
		Enum: useCases("", nil, []int{0, 1, 4, 5}, 1), Judge: use13,
	}))
	c18 := Get("C18")
	c18.Families = append(c18.Families, core.New(core.Fam[*confCase]{
		Name: "configurations", Rule: "all sequences of 1 and 2 configurations (quick: a third of the pairs) of 61 with and without a directory, an extension or anything, by NewTemplate or Configure, in a process of its own: exactly the files of the directory and extension, by default templates and .tw.html, can be rendered, with the layouts and components of the directory and extension; non-trivial: more than one call",
		Enum: confCases, Judge: judgeConf,
	}))
}
