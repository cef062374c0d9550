package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// SiteCase is a set of files and a page to render.
type SiteCase struct {
	Files  map[string][]*S `json:"files"` // by name without the extension
	Page   string          `json:"page"`
	Data   Data            `json:"data,omitempty"`
	Layout []byte          `json:"layout,omitempty"`
	Dir    string          `json:"dir,omitempty"`
	Ext    string          `json:"ext,omitempty"`
	// Expect: "" the rendering of the reference; "load" loading fails with an
	// error that contains Names; "error" loading or rendering fails with one.
	Expect string   `json:"expect,omitempty"`
	Names  []string `json:"names,omitempty"`
}

var siteDirs = []string{"t", "tpl/deep", "t/", "./t", "x/../t", "a.b", "t//u"}
var siteExts = []string{".tw", ".tw.html", ".html", ".t"}

func (c *SiteCase) dir() string {
	if c.Dir == "" {
		return "t"
	}
	return c.Dir
}

func (c *SiteCase) ext() string {
	if c.Ext == "" {
		return ".tw"
	}
	return c.Ext
}

// sources prints the files.
func (c *SiteCase) sources() map[string]string {
	out := map[string]string{}
	for n, p := range c.Files {
		out[n+c.ext()] = PrintB(p, &Layout{B: c.Layout})
	}
	return out
}

// judgeSite loads the files, renders the page and compares the result.
func judgeSite(c *SiteCase, in *Interp) (Result, string) {
	in.Site = c.Files
	var ref Result
	if c.Expect == "" {
		ref = in.Page(c.Page, c.Data)
		if ref.Endless {
			return ref, ""
		}
	}
	src := c.sources()
	writeTree(filepath.Clean(c.dir()), src)
	os.MkdirAll(c.dir(), 0o755) // and the parents that are only part of the spelling
	show := func() string { return files(src) }
	tpl, err := load(c.dir(), c.ext(), false)
	if (tpl == nil) != (err != nil) {
		return ref, fmt.Sprintf("NewTemplate returned %v and error %v\n%s", tpl, err, show())
	}
	if c.Expect != "" {
		if err == nil && c.Expect == "error" {
			out, ferr := tpl.String(c.Page, c.Data.Native())
			if ferr == nil {
				return ref, fmt.Sprintf("expected an error, got output %q\n%s", out, show())
			}
			if out != "" {
				return ref, fmt.Sprintf("the error %s came with output %q\n%s", ferr, out, show())
			}
			err = ferr.Error()
		}
		if err == nil {
			return ref, fmt.Sprintf("expected loading to fail\n%s", show())
		}
		for _, n := range c.Names {
			if !strings.Contains(err.Error(), n) {
				return ref, fmt.Sprintf("the error %q does not name %q\n%s", err, n, show())
			}
		}
		return ref, ""
	}
	if err != nil {
		if ref.Err || ref.Unspec {
			return ref, "" // found while loading
		}
		return ref, fmt.Sprintf("loading failed: %v\n%s", err, show())
	}
	data := c.Data.Native()
	out, ferr := tpl.String(c.Page, data)
	err = nil
	if ferr != nil {
		err = ferr.Error()
	}
	return ref, diff(show(), ref, out, err)
}

func endless(prog []*S, data Data) bool {
	in := &Interp{Steps: 3000}
	return in.Eval(prog, data).Endless
}

// endless tells whether rendering the file might not end soon.
func (c *SiteCase) endless(name string, data Data) bool {
	in := &Interp{Site: c.Files, Steps: 3000}
	ref := in.Page(name, data)
	return ref.Endless
}

var argNames = []string{"title", "n", "d1", "items", "v", "Name"}

// genSite draws a page with components and perhaps a layout.
func genSite(r *rapid.T, maxComps int, layout bool) *SiteCase {
	return genSiteWith(r, maxComps, layout, func(g *gen.G) { g.Faults = []int{0, 0, 0, 10, 40}[g.N(5)] })
}

func genSiteWith(r *rapid.T, maxComps int, layout bool, prep func(*gen.G)) *SiteCase {
	g := gen.New(r)
	prep(g)
	c := &SiteCase{Files: map[string][]*S{}, Page: gen.Pick(g, []string{"home", "sub/page", "layouts2/p", "a/b/c"})}
	c.Data = g.Data()
	types := g.Types()

	var comps []gen.Comp
	n := g.N(maxComps + 1)
	if !layout {
		n = 1 + g.N(maxComps)
	}
	for i := 0; i < n; i++ {
		comp := gen.Comp{Name: gen.Pick(g, []string{"~card", "components/card", "btn", "~deep/x", "parts/row", "~card", "ui~2/box", "~v~1/x", "end~", "~row.small", "my box", "~größe", "~100%s"}), Args: map[string]*gen.T{}}
		file := Resolve(comp.Name, "components")
		if c.Files[file] != nil {
			continue
		}
		for j, m := 0, g.N(3); j < m; j++ {
			comp.Args[gen.Pick(g, argNames)] = g.Type(1)
		}
		env := map[string]*gen.T{}
		for k, t := range types {
			env[k] = t
		}
		for k, t := range comp.Args {
			env[k] = t
		}
		undo := g.Fresh(env)
		placed := map[string]bool{}
		slotNames := gen.Pick(g, [][]string{{"", "head", "foot", "x y"}, {"", "head", "foot", "x y"}, {"", "head", "Head", "header"}, {"", "default", "%v", "~é"}})
		g.Extra, g.ExtraW = func(g *gen.G, depth int) []*S {
			n := gen.Pick(g, slotNames)
			if placed[n] && g.N(3) > 0 {
				return []*S{Text("-")}
			}
			placed[n] = true
			return []*S{{K: "slot", S: n}}
		}, 8
		g.Budget(12)
		body := append([]*S{Text("[" + itoa(i))}, g.Block(2, 5)...)
		body = append(body, Text("]"))
		g.Extra = nil
		undo()
		for _, n := range slotNames {
			if placed[n] {
				comp.Slots = append(comp.Slots, n)
			}
		}
		c.Files[file] = body
		comps = append(comps, comp)
	}

	var reserves []string
	if layout {
		undo := g.Fresh(types)
		left := gen.Pick(g, [][]string{{"title", "body", "side bar", "x"}, {"title", "Title", "title2", "titl"}, {"", "~x", "ü%d", "a/b"}})
		g.Extra, g.ExtraW = func(g *gen.G, depth int) []*S {
			if len(left) == 0 {
				return []*S{Text("=")}
			}
			i := g.N(len(left))
			n := left[i]
			left = append(append([]string{}, left[:i]...), left[i+1:]...)
			reserves = append(reserves, n)
			return []*S{{K: "reserve", S: n}}
		}, 8
		g.Budget(16)
		body := append([]*S{Text("(")}, g.Block(2, 6)...)
		body = append(body, Text(")"))
		g.Extra = nil
		undo()
		name := gen.Pick(g, []string{"~main", "layouts/main", "base", "~a/b", "~main", "a~b", "old~/main", "~v~1/x", "~main.v2", "my base", "~ñ", "50%d"})
		c.Files[Resolve(name, "layouts")] = body
		g.Comps = comps
		g.Budget(24)
		page := []*S{}
		outside := func() {
			if g.N(3) == 2 {
				page = append(page, g.Block(1, 2)...)
			}
		}
		outside()
		use := &S{K: "use", S: name}
		first := g.N(3) > 0
		if first {
			page = append(page, use)
		}
		for _, i := range rapid.Permutation(reserves).Draw(r, "order") {
			outside()
			if g.N(4) == 3 {
				continue
			}
			ins := &S{K: "insert", S: i}
			undo := g.Fresh(types)
			if g.N(3) == 2 {
				ins.X = []*E{g.Expr(g.Type(1), 2)}
			} else {
				ins.B = g.Block(2, 4)
			}
			undo()
			page = append(page, ins)
		}
		if !first {
			page = append(page, use)
		}
		outside()
		c.Files[c.Page] = page
	} else {
		g.Comps = comps
		g.Wt = map[string]int{"comp": 14, "each": 5, "if": 5}
		g.Budget(24)
		page := []*S{Text("<")}
		for i, n := 0, 2+g.N(3); i < n; i++ {
			page = append(page, g.Block(3, 3)...)
			page = append(page, g.CompStmt(2))
		}
		c.Files[c.Page] = append(page, Text(">"))
	}
	c.Layout = g.Layout()
	if g.N(3) == 2 {
		c.Dir = gen.Pick(g, siteDirs)
		c.Ext = gen.Pick(g, siteExts)
	}
	return c
}

// faultOn draws one fault into the site; it returns false when it does not fit.
func siteFault(r *rapid.T, c *SiteCase, kinds []string) bool {
	kind := rapid.SampledFrom(kinds).Draw(r, "fault")
	page := c.Files[c.Page]
	var use *S
	var inserts, uses []*S
	Walk(page, func(s *S) {
		switch s.K {
		case "use":
			use = s
		case "insert":
			inserts = append(inserts, s)
		case "comp":
			uses = append(uses, s)
		}
	}, nil)
	pick := func(x []*S) *S { return x[rapid.IntRange(0, len(x)-1).Draw(r, "which")] }
	switch kind {
	case "unknown insert":
		if use == nil {
			return false
		}
		ins := &S{K: "insert", S: "nowhere", B: []*S{Text("x")}}
		if len(inserts) > 0 && rapid.Bool().Draw(r, "expr") {
			ins = &S{K: "insert", S: "nowhere", X: []*E{Int("1")}}
		}
		at := rapid.IntRange(0, len(page)).Draw(r, "at")
		c.Files[c.Page] = append(append(append([]*S{}, page[:at]...), ins), page[at:]...)
		c.Expect, c.Names = "load", []string{"nowhere"}
	case "duplicate insert":
		if len(inserts) == 0 {
			return false
		}
		ins := *pick(inserts)
		at := rapid.IntRange(0, len(page)).Draw(r, "at")
		c.Files[c.Page] = append(append(append([]*S{}, page[:at]...), &ins), page[at:]...)
		c.Expect, c.Names = "load", []string{ins.S}
	case "missing layout":
		if use == nil {
			return false
		}
		delete(c.Files, Resolve(use.S, "layouts"))
		c.Expect = "load"
	case "layout in layout":
		if use == nil {
			return false
		}
		name := Resolve(use.S, "layouts")
		c.Files["layouts/other"] = []*S{Text("o")}
		if len(inserts) > 0 {
			c.Files["layouts/other"] = append(c.Files["layouts/other"], &S{K: "reserve", S: "zz"})
		}
		c.Files[name] = append([]*S{{K: "use", S: "~other"}}, c.Files[name]...)
		c.Expect = "error"
	case "missing component":
		if len(uses) == 0 {
			return false
		}
		u := pick(uses)
		delete(c.Files, Resolve(u.S, "components"))
		c.Expect, c.Names = "load", []string{strings.TrimPrefix(u.S, "~")}
	case "unknown slot":
		if len(uses) == 0 {
			return false
		}
		u := pick(uses)
		name := "nowhere"
		if rapid.Bool().Draw(r, "default") {
			has := false
			Walk(c.Files[Resolve(u.S, "components")], func(s *S) { has = has || s.K == "slot" && s.S == "" }, nil)
			if !has {
				name = ""
			}
		}
		u.Br = append(u.Br, Branch{Name: name, B: []*S{Text("x")}})
		c.Expect, c.Names = "load", []string{strings.TrimPrefix(u.S, "~"), name}
	case "duplicate slot":
		var with []*S
		for _, u := range uses {
			if len(u.Br) > 0 {
				with = append(with, u)
			}
		}
		if len(with) == 0 {
			return false
		}
		u := pick(with)
		b := u.Br[rapid.IntRange(0, len(u.Br)-1).Draw(r, "slot")]
		at := rapid.IntRange(0, len(u.Br)).Draw(r, "at")
		u.Br = append(append(append([]Branch{}, u.Br[:at]...), b), u.Br[at:]...)
		c.Expect, c.Names = "load", []string{strings.TrimPrefix(u.S, "~"), b.Name}
	}
	for _, p := range c.Files {
		if c.Expect != "" && !LiteralsOK(p) {
			c.Names = nil // there is a second fault, which may come first
		}
	}
	return true
}

func siteClass(c *SiteCase, ref Result) string {
	if c.Expect != "" {
		return "fault"
	}
	return class(ref)
}

func siteJudge(min int, hits ...string) func(c *SiteCase) core.Verdict {
	return func(c *SiteCase) core.Verdict {
		in := &Interp{Trace: map[string]int{}}
		ref, d := judgeSite(c, in)
		n := 0
		for _, h := range hits {
			n += in.Trace[h]
		}
		return verdict(d, c.Expect != "" || n >= min && !ref.Unspec, siteClass(c, ref))
	}
}
