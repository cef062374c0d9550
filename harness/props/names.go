package props

import (
	"fmt"
	"os"
	"path/filepath"

	"verif/harness/core"
	. "verif/harness/lang"
)

// This file has names of reserves, slots and files that resemble each other.

var partNames = []string{"a", "A", "a.b", "a/b", "a b", "a-b", "a_b", "ab", "aa", "b", "b.a", ".a", "a.", " a", "a ", "é", "É", "e\u0301", "1", "01", "title", "Title", "titles", "~a", "%s", "%!s", "a\nb", "a\tb", "a\\b", "a'b", `a"b`, "a{{b", "@end", "a&b", "a&amp;b", "<a>", "default", "slot", "nil", "body", "\u00a0", "😀", "a,b", "a:b", "[a]", "(a)"}

var pathNames = []string{"a", "A", "a.b", "a/b", "A/B", "a b", "a-b", "a_b", "ab", "b.a", "é", "É/é", "1", "Title", "title", "a~b", "b/~a", "100%s", "a%20b", "x.tw", "x.tw.y", "layouts", "a'b", "a,b", "[a]", "(a)", "a+b", "$a", "#a", "😀", "deep/er/Still/m.n/o p", "layouts/a", "components/a", "a&b", "a;b", "Index", "a:b", "a=b", "a!", "a@end"}

func nameSites(th bool, yield func(func() *SiteCase), six bool) {
	n := 0
	emit := func(c *SiteCase) {
		n++
		if n%7 == 3 {
			c.Dir, c.Ext = siteDirs[n%len(siteDirs)], siteExts[n/7%len(siteExts)]
		}
		c.Page, c.Data = "home", Data{"d": DInt(7)}
		yield(func() *SiteCase { return c })
	}
	ins := func(name string, k int) *S {
		if k%2 == 0 {
			return &S{K: "insert", S: name, B: []*S{Text("I"), Print(Var("d"))}}
		}
		return &S{K: "insert", S: name, X: []*E{Bin("+", Var("d"), Int("1"))}}
	}
	fill := func(name string) Branch { return Branch{Name: name, B: []*S{Text("S"), Print(Var("d"))}} }
	for i, x := range partNames {
		for j, y := range partNames {
			if i == j {
				continue
			}
			if six {
				layout := []*S{Text("<"), {K: "reserve", S: x}, Text("|"), {K: "reserve", S: y}, Text(">")}
				site := func(page ...*S) map[string][]*S {
					return map[string][]*S{"layouts/l": layout, "home": append([]*S{{K: "use", S: "~l"}}, page...)}
				}
				k := i + j
				emit(&SiteCase{Files: site(ins(x, k))})
				emit(&SiteCase{Files: site(ins(y, k))})
				emit(&SiteCase{Files: site(ins(y, k+1), ins(x, k))})
				if k%3 == 0 {
					layout := []*S{{K: "reserve", S: x}}
					emit(&SiteCase{Files: map[string][]*S{"layouts/l": layout, "home": {{K: "use", S: "~l"}, ins(y, k)}}, Expect: "load", Names: []string{y}})
				}
				continue
			}
			card := []*S{Text("<"), {K: "slot", S: x}, Text("|"), {K: "slot", S: y}, Text(">")}
			site := func(br ...[]Branch) map[string][]*S {
				f := map[string][]*S{"components/c": card}
				for _, b := range br {
					f["home"] = append(f["home"], &S{K: "comp", S: "~c", Br: b}, Text(","))
				}
				return f
			}
			one := func(n string) []Branch { return []Branch{fill(n)} }
			emit(&SiteCase{Files: site(one(x))})
			emit(&SiteCase{Files: site(one(y), one(x))})
			emit(&SiteCase{Files: site([]Branch{fill(y), fill(x)}, nil)})
			if (i+j)%3 == 0 {
				card := []*S{{K: "slot", S: x}}
				emit(&SiteCase{Files: map[string][]*S{"components/c": card, "home": {{K: "comp", S: "~c", Br: one(y)}}}, Expect: "load", Names: []string{"c", y}})
			}
		}
	}
	// files
	for i, x := range pathNames {
		for j, y := range pathNames {
			if i == j {
				continue
			}
			for _, form := range []string{"", "~", "full"} {
				dir, use := map[bool]string{true: "layouts", false: "components"}[six], func(n string) string { return n }
				switch form {
				case "~":
					use = func(n string) string { return "~" + n }
				case "full":
					use = func(n string) string { return dir + "/" + n }
				}
				if (i+j)%3 != 0 && form != "~" && !th {
					continue
				}
				f := map[string][]*S{}
				file := func(n string, b ...*S) { f[Resolve(use(n), dir)] = b }
				if six {
					file(x, Text("X"), &S{K: "reserve", S: "r"})
					file(y, Text("Y"), &S{K: "reserve", S: "r"})
					f["home"] = []*S{{K: "use", S: use(x)}, ins("r", i+j)}
					f["other"] = []*S{{K: "use", S: use(y)}}
				} else {
					file(x, Text("X"), &S{K: "slot"}, Print(Var("v")))
					file(y, Text("Y"), Print(Var("v")))
					v := func(n string) []*E { return []*E{Obj([]string{"v"}, Int(n))} }
					f["home"] = []*S{{K: "comp", S: use(x), X: v("1"), Br: []Branch{fill("")}}, {K: "comp", S: use(y), X: v("2")}, {K: "comp", S: use(x), X: v("3")}}
				}
				if len(f) < map[bool]int{true: 4, false: 3}[six] {
					continue
				}
				emit(&SiteCase{Files: f})
				missing := map[string][]*S{}
				for k, b := range f {
					missing[k] = b
				}
				delete(missing, Resolve(use(x), dir))
				if (i+j)%4 == 0 {
					emit(&SiteCase{Files: missing, Expect: "load", Names: []string{x}})
				}
			}
		}
	}
}

// faultFile is a fault in the file of a name.
type faultFile struct {
	Name  string `json:"name"`
	Fault int    `json:"fault"`
	Dir   string `json:"dir"`
	Ext   string `json:"ext"`
}

// fileFaults are on the third line.
var fileFaults = []struct {
	src  string
	load bool
}{
	{"a\nb\n{{ nope }}", false},
	{"a\nb\n{{ 1 / 0 }}\nc", false},
	{"@if(true)\nb\n{{ 'a'.nofn() }}\n@end", false},
	{"a\n@each(x in [1])\n{{ x.k }}@end", false},
	{"a\n\n{{ ~ }}\n", true},
	{"a\n{{ 1 +\n }}", true},
	{"a\nb\n@if(x", true},
	{"@use('~zqlay')\n\n@insert('nowhere', 1)", true},
	{"@use('~zqlay')\n@insert('r', 1)\n@insert('r', 2)", true},
	{"a\n\n@component('~zqnone')", true},
}

func judgeFault(c *faultFile) core.Verdict {
	f := fileFaults[c.Fault]
	writeTree(filepath.Clean(c.Dir), map[string]string{c.Name + c.Ext: f.src, "layouts/zqlay" + c.Ext: "@reserve('r')", "zqok" + c.Ext: "{{ 1 }}"})
	os.MkdirAll(c.Dir, 0o755) // and the parents that are only part of the spelling
	want := filepath.Join(cwd(), c.Dir, filepath.FromSlash(c.Name)) + c.Ext
	check := func(what string, line int, path string, err error) string {
		if e, ok := parseErr(err); !ok || e.Line != 3 || e.Path != want || line != 3 && line != -1 || path != want && line != -1 {
			return fmt.Sprintf("%s: the error of line 3 of %s is %q (line %d, path %q)\n%s", what, want, err, line, path, f.src)
		}
		return ""
	}
	tpl, err := load(c.Dir, c.Ext, false)
	if f.load {
		if err == nil {
			return core.Failf("loading does not fail: %q in %s", f.src, want)
		}
		if d := check("NewTemplate", -1, "", err); d != "" {
			return core.Failf("%s", d)
		}
		return core.OK(true, "load")
	}
	if err != nil {
		return core.Failf("loading fails: %v", err)
	}
	for i := 0; i < 2; i++ {
		_, ferr := tpl.String(c.Name, nil)
		if ferr == nil {
			return core.Failf("rendering %s does not fail: %q", c.Name, f.src)
		}
		if d := check("String", int(ferr.Line()), ferr.Filepath(), ferr.Error()); d != "" {
			return core.Failf("%s", d)
		}
	}
	return core.OK(true, "render")
}

func init() {
	for _, id := range []string{"C06", "C07"} {
		p := Get(id)
		what, hit := "reserves and layouts", []string{"reserve:filled", "reserve:empty"}
		if id == "C07" {
			what, hit = "slots and components", []string{"comp"}
		}
		p.Families = append(p.Families, core.New(core.Fam[*SiteCase]{
			Name: "names", Rule: fmt.Sprintf("exhaustive: all pairs out of %d names of %s that differ in case, accents, dots, slashes, spaces, quotes, entities or are parts of each other, one or both of them used, and all pairs out of %d file names, loaded and missing; non-trivial: something was filled or a fault expected", len(partNames), what, len(pathNames)),
			Enum:  func(th bool, yield func(func() *SiteCase)) { nameSites(th, yield, id == "C06") },
			Judge: siteJudge(1, hit...),
		}))
	}
	p := Get("C13")
	p.Families = append(p.Families, core.New(core.Fam[*faultFile]{
		Name: "names", Rule: fmt.Sprintf("exhaustive: %d file names (capitals, dots, spaces, accents, nested) x %d faults on line 3, found while loading and rendering, in all directories and extensions (quick: rotating); line and path; non-trivial: always", len(pathNames), len(fileFaults)),
		Enum: func(th bool, yield func(func() *faultFile)) {
			n := 0
			for _, name := range append([]string{"zqpage"}, pathNames...) {
				for i := range fileFaults {
					for _, dir := range append([]string{"Views", "My Templates/x.y", "é/t"}, siteDirs...) {
						for _, ext := range siteExts {
							if n++; th || n%9 == 0 {
								yield(func() *faultFile { return &faultFile{name, i, dir, ext} })
							}
						}
					}
				}
			}
		}, Judge: judgeFault,
	}))
}
