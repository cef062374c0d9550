package props

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"syscall"

	textwire "github.com/textwire/textwire/v2"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// ---- names

// c18Tree is a tree with a template directory in it.
type c18Tree struct {
	Cwd   string            `json:"cwd,omitempty"` // below the root of the tree
	Dir   string            `json:"dir"`           // the spelling, seen from Cwd
	Ext   string            `json:"ext"`
	Files []string          `json:"files,omitempty"` // below the root
	Kinds string            `json:"kinds,omitempty"` // of the files: p page, l layout, u page with a layout, c page with a component, e page without text or of one or two characters
	Links map[string]string `json:"links,omitempty"` // file -> file
	Dirs  []string          `json:"dirs,omitempty"`
	Ask   []string          `json:"ask,omitempty"`
	Again *c18Tree          `json:"again,omitempty"` // loaded after it
}

func (c *c18Tree) clean() string {
	return strings.TrimPrefix(path.Join(c.Cwd, c.Dir), "../root/")
}

// inDir is the path relative to the template directory.
func (c *c18Tree) inDir(file string) (string, bool) {
	d := c.clean()
	if d == "." {
		return file, true
	}
	return strings.CutPrefix(file, d+"/")
}

// spelling tells whether the file would be a directory of the spelling.
func (c *c18Tree) spelling(f string) bool {
	for _, p := range []string{c.clean(), c.Cwd, path.Join(c.Cwd, "x"), c.clean() + "/t", c.clean() + "/u", "t", "t/t", "t/u", "w"} {
		if strings.HasPrefix(p+"/", f+"/") {
			return true
		}
	}
	return false
}

// registered lists the names.
func (c *c18Tree) registered() map[string]string {
	out := map[string]string{}
	all := append([]string{}, c.Files...)
	for l := range c.Links {
		all = append(all, l)
	}
	for _, f := range all {
		rel, ok := c.inDir(f)
		if !ok || !strings.HasSuffix(path.Base(f), c.Ext) {
			continue
		}
		out[strings.TrimSuffix(rel, c.Ext)] = f
	}
	return out
}

func judge18(c *c18Tree) core.Verdict {
	if err := os.RemoveAll("root"); err != nil {
		panic(err)
	}
	v := core.OK(true, "empty")
	for ; c != nil; c = c.Again {
		if v = c.judge(); v.Fail != "" {
			return v
		}
	}
	return v
}

// tails are ends of pages, with what they print: no reserves.
var tails = [7][2]string{3: {"\\@reserve('x')", "@reserve('x')"}, 4: {"{{-- @reserve('x') --}}", ""}, 5: {"{{ '@reserve' }}", "@reserve"}, 6: {"@reserv('x') reserve('x')", "@reserv('x') reserve('x')"}}

// bare are whole contents, which print as they are.
var bare = []string{"", "\n", "x", "", " ", "0", "\r\n", "\t\n\n", "\x00"}

// safe is a name that is only text in a template.
var safe = strings.NewReplacer("{", "(", "}", ")", "@", "a", "\\", "/").Replace

func (c *c18Tree) judge() core.Verdict {
	home := cwd()
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.MkdirAll("root", 0o755))
	names := c.registered()
	var sorted, pages, layouts []string
	for n := range names {
		sorted = append(sorted, n)
	}
	sort.Strings(sorted)
	kind := map[string]byte{}
	for i, f := range c.Files {
		kind[f] = 'p'
		if i < len(c.Kinds) {
			kind[f] = c.Kinds[i]
		}
	}
	for _, n := range sorted {
		switch kind[names[n]] {
		case 'p', 'e':
			if n != "" {
				pages = append(pages, n)
			}
		case 'l':
			if n != "" {
				layouts = append(layouts, n)
			}
		}
	}
	// what a page has and prints
	own := func(i int) (string, string) {
		if kind[c.Files[i]] == 'e' {
			return bare[i%len(bare)], bare[i%len(bare)]
		}
		s := fmt.Sprintf("F%d %s;", i, safe(c.Files[i]))
		return s + tails[i%7][0], s + tails[i%7][1]
	}
	odd := false // a layout with inserts, which perhaps is a fault
	content, want := map[string]string{}, map[string]string{}
	for i, f := range c.Files {
		s := fmt.Sprintf("F%d %s;", i, safe(f))
		switch k := kind[f]; {
		case k == 'l':
			content[f] = s + "@reserve('x')" + s
			switch i % 5 {
			case 1:
				content[f] = s + "@if(true)@reserve('x')@end" + s
			case 2:
				content[f] = s + "@each(e in [1])@reserve('x')@end" + s
			case 3:
				content[f] = s + "@for(;false;)@else@reserve('x')@end" + s
			case 4:
				if odd = !strings.Contains(c.Kinds, "u"); odd {
					content[f] = s + "@insert('y', 1)@reserve('x')" + s
					if i%2 == 0 {
						content[f] = "@reserve('y')@insert('x')A@end" + s + "@reserve('x')"
					}
				}
			}
		case k == 'u' && len(layouts) > 0:
			l := layouts[i%len(layouts)]
			content[f] = fmt.Sprintf("@use('%s')@insert('x', 'i%d')", l, i)
			for j, g := range c.Files {
				if g == names[l] {
					t := fmt.Sprintf("F%d %s;", j, safe(g))
					want[f] = t + fmt.Sprintf("i%d", i) + t
				}
			}
		case k == 'c' && len(pages) > 0:
			p := pages[i%len(pages)]
			content[f] = fmt.Sprintf("<@component('%s')%d>", p, i)
			t := names[p]
			if to, ok := c.Links[t]; ok {
				t = to
			}
			for j, g := range c.Files {
				if g == t {
					_, out := own(j)
					want[f] = fmt.Sprintf("<%s%d>", out, i)
				}
			}
		default:
			content[f], want[f] = own(i)
		}
	}
	for _, d := range c.Dirs {
		must(os.MkdirAll("root/"+d, 0o755))
	}
	for f, s := range content {
		must(os.MkdirAll("root/"+path.Dir(f), 0o755))
		must(os.WriteFile("root/"+f, []byte(s), 0o644))
	}
	for l, f := range c.Links {
		must(os.MkdirAll("root/"+path.Dir(l), 0o755))
		must(os.Symlink(home+"/root/"+f, "root/"+l))
		content[l], want[l] = content[f], want[f]
		if kind[f] == 'l' {
			kind[l] = 'l'
		}
	}
	// the directories that are only part of the spelling
	must(os.MkdirAll("root/"+c.Cwd, 0o755))
	must(os.Chdir("root/" + c.Cwd))
	defer os.Chdir(home)
	for i := range c.Dir {
		if c.Dir[i] == '/' {
			must(os.MkdirAll(c.Dir[:i+1], 0o755))
		}
	}
	must(os.MkdirAll(c.Dir, 0o755))
	tpl, err := load(c.Dir, c.Ext, false)
	if err != nil && odd {
		return core.OK(false, "odd layout")
	}
	if err != nil || tpl == nil {
		return core.Failf("loading %q (%q) from %q failed: %v\n%s", c.Dir, c.Ext, c.Cwd, err, files(content))
	}
	for _, n := range sorted {
		f := names[n]
		out, ferr := tpl.String(n, nil)
		if kind[f] == 'l' {
			if ferr == nil {
				return core.Failf("the layout %q can be rendered: %q\n%s", n, out, files(content))
			}
			continue
		}
		if ferr != nil || out != want[f] {
			return core.Failf("with the directory %q (from %q) and extension %q, %q gives %q, %v instead of %q\n%s", c.Dir, c.Cwd, c.Ext, n, out, ferr, want[f], files(content))
		}
	}
	// other names
	ask := map[string]bool{}
	add := func(n string) {
		ask[n] = true
		ask[strings.TrimSuffix(n, c.Ext)] = true
		ask[n+c.Ext] = true
		ask[strings.ReplaceAll(n, c.Ext, "")] = true
		if i := strings.LastIndex(n, "."); i >= 0 {
			ask[n[:i]] = true
		}
		if i := strings.Index(n, "."); i >= 0 {
			ask[n[:i]] = true
		}
	}
	for _, n := range c.Ask {
		ask[n] = true
	}
	for f := range content {
		add(f)
		add(path.Base(f))
		add(path.Join(c.Dir, f))
		add(home + "/root/" + f)
		if rel, ok := c.inDir(f); ok {
			add(rel)
			add(strings.ReplaceAll(rel, "/", "."))
			add(strings.ToUpper(rel))
			for i := 0; i < len(rel); i++ {
				if rel[i] == '/' {
					ask[rel[:i]] = true
					ask[rel[i+1:]] = true
				}
			}
		}
	}
	clean := map[string]bool{}
	for n := range names {
		clean[path.Clean("/"+n)] = true
	}
	unknown := 0
	for n := range ask {
		if clean[path.Clean("/"+n)] {
			continue // perhaps another spelling
		}
		unknown++
		out, ferr := tpl.String(n, nil)
		if ferr == nil || out != "" {
			return core.Failf("with the directory %q (from %q) and extension %q, %q gives %q, %v and not that it is not found\n%s", c.Dir, c.Cwd, c.Ext, n, out, ferr, files(content))
		}
		if !strings.Contains(strings.ToLower(ferr.Message()), "not found") {
			return core.Failf("with the directory %q and extension %q, %q gives the error %q\n%s", c.Dir, c.Ext, n, ferr.Message(), files(content))
		}
	}
	if len(sorted) == 0 {
		return core.OK(false, "no template")
	}
	return core.OK(len(c.Files) > len(sorted) || len(sorted) > 1, "templates")
}

var c18Exts = []string{".tw", ".tw.html", ".html", ".t", "tw", ".w", "t", ".tw.tw", "-x", ".TW"}

// c18Dirs are spellings, and the working directory below the root.
var c18Dirs = [][2]string{
	{"", "t"}, {"", "t/"}, {"", "t//"}, {"", "./t"}, {"", "t/."}, {"", "x/../t"}, {"", "t/u/.."}, {"", "t/u/../"}, {"", "a/b/c"}, {"", "a/b/c/"}, {"", "a//b"}, {"", "."}, {"", "./"},
	{"w", ".."}, {"w", "../"}, {"w", "../t"}, {"w", "../t/"}, {"w/v", "../../t"}, {"w/v", "../u"}, {"w", "../w/t"}, {"w", "../../root/t"}, {"", "t.tw"}, {"", "a.tw/t.tw/"}, {"", "t t"}, {"", "tü/x"}, {"", "t.tw.html"}, {"", ".t"}, {"", "..t"}, {"", "t.."}, {"", "tw"}, {"t", "t"}, {"t/t", "t/t"}, {"", "./x/.././t"}, {"", "t/t/../../t"},
}

func c18Strings(alpha string, max int) []string {
	out := []string{}
	last := []string{""}
	for i := 0; i < max; i++ {
		var next []string
		for _, s := range last {
			for _, c := range alpha {
				next = append(next, s+string(c))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func c18Names(th bool, yield func(func() *c18Tree)) {
	l := 4
	if th {
		l = 6
	}
	for _, ext := range c18Exts {
		for di, d := range c18Dirs {
			if !th && di > 8 && di%3 != 0 {
				continue
			}
			yield(func() *c18Tree {
				c := &c18Tree{Cwd: d[0], Dir: d[1], Ext: ext}
				if di%4 == 1 {
					c.Kinds = strings.Repeat("pe", 3000)
				}
				for _, n := range c18Strings("at.w", l) {
					if n == "." || n == ".." {
						continue
					}
					if c.spelling(strings.TrimPrefix(c.clean()+"/"+n, "./")) {
						continue
					}
					if len(n) < 4 || th || di%5 == 0 {
						c.Files = append(c.Files, strings.TrimPrefix(c.clean()+"/"+n, "./"))
					}
				}
				c.Ask = append(c18Strings("at.w", 3), "", "/", "no/such", "a/b", "t/a")
				return c
			})
		}
	}
	// every character in every place of the name of a file or directory
	var chars []string
	for r := rune(1); r < 256; r++ {
		if r != '/' {
			chars = append(chars, string(r))
		}
	}
	chars = append(chars, "\xff", "日", "\u2028", "\ufeff", "é", "😀", "İ", "..", "...", "index", "layouts", "components", "node_modules", "vendor", "errors", "con", "nul", "tmp", "new", "copy", "~~", "__", "{{", "}}", "@if(", "{{ 1 }}", "%s", "%2f", "$HOME", "testdata", "_test", "README", "default", "404", "0", "00", "1e3", "true", "nil", "\\@end")
	for i, ch := range chars {
		for j, ext := range []string{".tw", ".html", "tw", ".tw.html"} {
			for k, d := range c18Dirs {
				if (i+j+k)%len(c18Dirs) != 0 && !(th && (i+j+k)%3 == 0) {
					continue
				}
				yield(func() *c18Tree {
					c := &c18Tree{Cwd: d[0], Dir: d[1], Ext: ext, Kinds: "pepppppcc"}
					for _, n := range []string{ch, "a" + ch, ch + "a", "a" + ch + "a", ch + "d/x", "d" + ch + "/x", "d" + ch + "d/" + ch, "b", "c/c"} {
						for _, e := range []string{ext, ""} {
							f := strings.TrimPrefix(c.clean()+"/"+n+e, "./")
							if b := path.Base(f); b == "." || b == ".." || path.Clean(f) != f || c.spelling(f) || e == "" && k%4 != 0 {
								continue
							}
							clash := false
							for _, g := range c.Files {
								clash = clash || strings.HasPrefix(g+"/", f+"/") || strings.HasPrefix(f+"/", g+"/")
							}
							if !clash {
								c.Files = append(c.Files, f)
							}
						}
					}
					if strings.ContainsAny(ch, "'\"\\<>&~@{}\x00") {
						c.Kinds = ""
					}
					return c
				})
			}
		}
	}
	// deep, long and many
	for di, d := range c18Dirs {
		if !th && di%3 != 0 {
			continue
		}
		for i, ext := range []string{".tw", "tw"} {
			yield(func() *c18Tree { // depths
				c := &c18Tree{Cwd: d[0], Dir: d[1], Ext: ext, Kinds: strings.Repeat("pppc", 40)}
				for k := 0; k < 70; k++ {
					c.Files = append(c.Files, strings.TrimPrefix(c.clean()+"/zd"+strings.Repeat("/d", k)+"/f"+ext, "./"))
				}
				return c
			})
			yield(func() *c18Tree { // lengths
				c := &c18Tree{Cwd: d[0], Dir: d[1], Ext: ext, Kinds: strings.Repeat("pcp", 40)}
				for _, k := range []int{30, 31, 32, 33, 62, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 199, 200, 201, 240, 248} {
					c.Files = append(c.Files, strings.TrimPrefix(c.clean()+"/"+strings.Repeat("n", k)+ext, "./"), strings.TrimPrefix(c.clean()+"/"+strings.Repeat("m", k)+"/f"+ext, "./"))
				}
				c.Files = append(c.Files, strings.TrimPrefix(c.clean()+"/"+strings.Repeat(strings.Repeat("p", 200)+"/", 12)+"f"+ext, "./"))
				return c
			})
			yield(func() *c18Tree { // directories that are nested and that are spelled
				c := &c18Tree{Cwd: strings.Repeat("w/", 20*i) + "w", Dir: strings.Repeat("t/", 9+9*i) + "t", Ext: ext}
				if di%2 == 0 {
					c.Dir = strings.Repeat("../", 1+20*i) + c.Dir
				}
				for k := 0; k < 9; k++ {
					c.Files = append(c.Files, c.clean()+strings.Repeat("/d", 5*k)+"/f"+ext)
				}
				return c
			})
		}
	}
	for i, n := range []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 2049, 4100} {
		yield(func() *c18Tree {
			c := &c18Tree{Dir: "t", Ext: ".tw", Kinds: strings.Repeat("p", n-4) + "lucp"}
			for k := 0; k < n; k++ {
				f := fmt.Sprintf("t/f%d", k)
				if i%2 == 1 {
					f = fmt.Sprintf("t/d%d/f", k)
				}
				c.Files = append(c.Files, f+".tw")
			}
			return c
		})
	}
	// every small tree
	parts := []string{"a", "b.tw", "t", "a.tw.html", "x.twx", ".tw", "a.tw.tw", "tw", "T.TW", "a.html"}
	for _, ext := range []string{".tw", ".tw.html", ".html"} {
		for di, d := range c18Dirs {
			for i, p := range parts {
				for j, q := range parts {
					if !th && (di+i+j)%4 != 0 {
						continue
					}
					yield(func() *c18Tree {
						c := &c18Tree{Cwd: d[0], Dir: d[1], Ext: ext, Kinds: "pplu"[i%3:] + []string{"cpcl", "ecpe", "eecl"}[j%3]}
						in := func(n string) {
							f := strings.TrimPrefix(c.clean()+"/"+n, "./")
							if c.spelling(f) {
								return
							}
							for _, g := range c.Files {
								if strings.HasPrefix(g+"/", f+"/") || strings.HasPrefix(f+"/", g+"/") {
									return
								}
							}
							c.Files = append(c.Files, f)
						}
						in("d/" + p + "/" + q)
						in("d/x" + q)
						in(p + ext)
						in("e/" + q + ext)
						in(q)
						in("d/d/d/" + p)
						in("t/" + q + ext)
						if c.clean() != "." {
							c.Files = append(c.Files, "zz/"+p+ext, "other"+ext)
						}
						return c
					})
				}
			}
		}
	}
}

func c18Rand(r *rapid.T) *c18Tree {
	g := gen.New(r)
	one := func() *c18Tree {
		d := gen.Pick(g, c18Dirs)
		c := &c18Tree{Cwd: d[0], Dir: d[1], Ext: gen.Pick(g, c18Exts), Links: map[string]string{}}
		seg := func() string {
			return gen.Pick(g, []string{"a", "b", "t", "tw", "home", "u", "w", "x", "a.tw", "é", "A", "a b", "-x", ".h", "a" + c.Ext, c.Ext + "a", "a.tw.html"})
		}
		file := func() string {
			n := seg()
			if g.N(4) > 0 {
				n += c.Ext
			}
			if g.N(8) == 7 {
				n += gen.Pick(g, []string{".bak", "~", "x", ".gz", "."})
			}
			for k := g.N(4); k > 0; k-- {
				n = seg() + "/" + n
			}
			if g.N(6) > 0 {
				n = strings.TrimPrefix(c.clean()+"/"+n, "./")
			}
			return n
		}
		free := func(f string) bool {
			if f == "" || strings.HasPrefix(f, "../") {
				return false
			}
			for _, g := range append(append([]string{}, c.Files...), c.Dirs...) {
				if strings.HasPrefix(g+"/", f+"/") || strings.HasPrefix(f+"/", g+"/") {
					return false
				}
			}
			for l := range c.Links {
				if strings.HasPrefix(l+"/", f+"/") || strings.HasPrefix(f+"/", l+"/") {
					return false
				}
			}
			if c.spelling(f) {
				return false
			}
			return true
		}
		for i, n := 0, 1+g.N(12); i < n; i++ {
			if f := file(); free(f) {
				c.Files = append(c.Files, f)
				c.Kinds += string("pppelucc"[g.N(8)])
			}
		}
		if len(c.Files) > 0 && g.N(4) == 3 {
			if l := file(); free(l) {
				if i := g.N(len(c.Files)); c.Kinds[i] == 'p' || c.Kinds[i] == 'e' {
					c.Links[l] = c.Files[i]
				}
			}
		}
		if g.N(4) == 3 {
			if d := file(); free(d) {
				c.Dirs = append(c.Dirs, d)
			}
		}
		for i := 0; i < 4; i++ {
			c.Ask = append(c.Ask, file(), seg())
		}
		return c
	}
	return one()
}

// ---- faults

// c18Fault is a valid tree with one fault.
type c18Fault struct {
	Files map[string][]byte   `json:"files"` // names without the extension
	Uses  map[string][]string `json:"uses"`  // file -> the files that use it
	Data  Data                `json:"data,omitempty"`
	File  string              `json:"file"`
	What  string              `json:"what"` // deleted, content, dangling, loop, dirlink, dir
	Text  []byte              `json:"text,omitempty"`
	Wrong bool                `json:"wrong,omitempty"` // the text is no template
	Dir   string              `json:"dir,omitempty"`
	Skip  []string            `json:"skip,omitempty"` // is not rendered
	// Link puts layouts and components into a directory outside, behind links,
	// which loading finds by name and need not find by walking.
	Link bool `json:"link,omitempty"`
}

// outside tells if a file is found by its name only.
func (c *c18Fault) outside(n string) bool {
	return strings.HasPrefix(n, "../") || c.Link && (strings.HasPrefix(n, "layouts/") || strings.HasPrefix(n, "components/"))
}

func judge18Fault(c *c18Fault) core.Verdict {
	dir := c.Dir
	if dir == "" {
		dir = "t"
	}
	f := map[string]string{}
	for n, s := range c.Files {
		f[n+".tw"] = string(s)
		if strings.HasPrefix(n, "../") {
			if err := os.RemoveAll(filepath.Join(filepath.Clean(dir), n) + ".tw"); err != nil {
				panic(err)
			}
		}
	}
	show := func() string {
		return fmt.Sprintf("%s: %s %q\n%s", c.File, c.What, c.Text, files(f))
	}
	writeTree(filepath.Clean(dir), f)
	os.MkdirAll("x", 0o755) // of x/../t
	before := map[string]string{}
	if c.Link {
		real := filepath.Join(cwd(), "linked")
		if err := os.RemoveAll(real); err != nil {
			panic(err)
		}
		for _, d := range []string{"layouts", "components"} {
			at := filepath.Join(filepath.Clean(dir), d)
			if _, err := os.Stat(at); err != nil {
				continue
			}
			if err := os.MkdirAll(real, 0o755); err != nil {
				panic(err)
			}
			if err := os.Rename(at, filepath.Join(real, d)); err != nil {
				panic(err)
			}
			if err := os.Symlink(filepath.Join(real, d), at); err != nil {
				panic(err)
			}
		}
	}
	tpl, err := load(dir, ".tw", false)
	if err != nil {
		return core.OK(false, "load error")
	}
	var names []string
	for n := range c.Files {
		names = append(names, n)
	}
	sortStrings(names)
	names = slices.DeleteFunc(names, func(n string) bool { return slices.Contains(c.Skip, n) })
	get := func(tpl *textwire.Template, n string) string {
		out, ferr := tpl.String(n, c.Data.Native())
		return fmt.Sprintf("%q %v", out, ferr)
	}
	for _, n := range names {
		before[n] = get(tpl, n)
	}
	p := filepath.Join(filepath.Clean(dir), filepath.FromSlash(c.File)+".tw")
	if err := os.Remove(p); err != nil {
		panic(err)
	}
	switch c.What {
	case "deleted":
		err = nil
	case "content":
		err = os.WriteFile(p, c.Text, 0o644)
	case "dangling":
		err = os.Symlink("no-such-file", p)
	case "loop":
		err = os.Symlink(filepath.Base(p), p)
	case "dirlink":
		err = os.Symlink(".", p)
	case "dir":
		err = os.MkdirAll(p, 0o755)
	case "dirfull":
		if err = os.MkdirAll(p, 0o755); err == nil {
			err = os.WriteFile(p+"/inner.tw", []byte("I"), 0o644)
		}
	}
	if err != nil {
		panic(err)
	}
	tpl, err = load(dir, ".tw", false)
	if (tpl == nil) != (err != nil) {
		return core.Failf("NewTemplate returned %v and error %v\n%s", tpl, err, show())
	}
	users := c.Uses[c.File]
	abs := filepath.Join(cwd(), p)
	base := path.Base(c.File)
	absent := c.What == "deleted" || c.What == "dir" || c.What == "dirfull" || c.What == "dangling" || c.What == "dirlink" || c.What == "loop"
	mustFail := false
	switch c.What {
	case "deleted", "dir", "dirfull":
		mustFail = len(users) > 0
	case "content":
		mustFail = c.Wrong
	default:
		mustFail = true
	}
	if c.outside(c.File) && len(users) == 0 {
		return core.OK(false, "not used")
	}
	if err == nil {
		if mustFail {
			return core.Failf("loading succeeds\n%s", show())
		}
		for _, n := range names {
			if n == c.File {
				if absent {
					if out, ferr := tpl.String(n, nil); ferr == nil {
						return core.Failf("%q gives %q although there is no such file\n%s", n, out, show())
					}
				}
				continue
			}
			if slices.Contains(users, n) {
				continue
			}
			if now := get(tpl, n); now != before[n] {
				return core.Failf("%q gives %s and gave %s\n%s", n, now, before[n], show())
			}
		}
		return core.OK(true, c.What+": loads")
	}
	if strings.TrimSpace(err.Error()) == "" {
		return core.Failf("loading fails with an empty error\n%s", show())
	}
	switch {
	case c.What == "content" && c.Wrong || c.What == "content" && len(users) == 0:
		if !strings.Contains(err.Error(), abs) && !(c.Link && strings.Contains(err.Error(), base+".tw")) {
			return core.Failf("the error %q does not name %s\n%s", err, abs, show())
		}
	case c.What == "content":
		// perhaps a layout or component that lacks something
		ok := strings.Contains(err.Error(), abs) || c.Link && strings.Contains(err.Error(), base+".tw")
		for _, u := range users {
			ok = ok || strings.Contains(err.Error(), filepath.Join(cwd(), dir, u)+".tw")
		}
		if !ok {
			return core.Failf("the error %q names neither %s nor a file that uses it\n%s", err, abs, show())
		}
	case c.What == "deleted" && len(users) == 0:
		return core.Failf("loading fails with %q although no file is at fault\n%s", err, show())
	default:
		if !strings.Contains(err.Error(), abs) && !strings.Contains(err.Error(), base) {
			return core.Failf("the error %q names neither %s nor %s\n%s", err, abs, base, show())
		}
	}
	return core.OK(true, c.What+": fails")
}

// c18Perm is a tree with a file or directory that cannot be read.
type c18Perm struct {
	What string `json:"what"` // a file without the extension, or a directory with a slash at the end
	Mode int    `json:"mode"`
}

// unprivileged runs f without the rights of root.
func unprivileged(f func()) bool {
	if os.Geteuid() == 0 {
		if syscall.Setresuid(-1, 65534, -1) != nil {
			return false
		}
		defer func() {
			if err := syscall.Setresuid(-1, 0, -1); err != nil {
				panic(err)
			}
		}()
	}
	f()
	return true
}

func judge18Perm(c *c18Perm) core.Verdict {
	os.Chmod(cwd(), 0o711)
	f := map[string]string{}
	for n, s := range c18Base.Files {
		f[n+".tw"] = string(s)
	}
	writeTree("p", f)
	filepath.Walk("p", func(p string, i os.FileInfo, err error) error {
		if i.IsDir() {
			return os.Chmod(p, 0o755)
		}
		return os.Chmod(p, 0o644)
	})
	p := "p/" + strings.TrimSuffix(c.What, "/")
	if !strings.HasSuffix(c.What, "/") {
		p += ".tw"
	}
	p = path.Clean(p)
	readable := false
	if !unprivileged(func() {
		_, err := load("p", ".tw", false)
		readable = err == nil
	}) || !readable {
		return core.OK(false, "no unprivileged access")
	}
	if err := os.Chmod(p, os.FileMode(c.Mode)); err != nil {
		panic(err)
	}
	defer os.Chmod(p, 0o755)
	var tpl *textwire.Template
	var err, ferr error
	out := ""
	unprivileged(func() {
		tpl, err = load("p", ".tw", false)
		if !strings.HasSuffix(c.What, "/") {
			out, ferr = textwire.EvaluateFile(p, c18Base.Data.Native())
		}
	})
	if err == nil || tpl != nil {
		return core.Failf("%s has the mode %o and loading gives %v, %v", p, c.Mode, tpl, err)
	}
	if !strings.Contains(err.Error(), filepath.Join(cwd(), p)) && !strings.Contains(err.Error(), p) {
		return core.Failf("%s has the mode %o and loading gives the error %q", p, c.Mode, err)
	}
	if e, ok := parseErr(err); !ok || e.Path != "" && !strings.HasPrefix(e.Path, filepath.Join(cwd(), "p")) {
		return core.Failf("%s has the mode %o and loading gives the error %q with the path %q", p, c.Mode, err, e.Path)
	}
	if !strings.HasSuffix(c.What, "/") && (ferr == nil || out != "" || !strings.Contains(ferr.Error(), p)) {
		return core.Failf("%s has the mode %o and EvaluateFile gives %q, %v", p, c.Mode, out, ferr)
	}
	return core.OK(true, "unreadable")
}

func c18PermEnum(th bool, yield func(func() *c18Perm)) {
	names := []string{}
	for n := range c18Base.Files {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		for _, m := range []int{0, 0o200, 0o111, 0o600} {
			yield(func() *c18Perm { return &c18Perm{n, m} })
		}
	}
	for _, n := range []string{"sub/", "layouts/", "components/", "sub/deep/", "/"} {
		for _, m := range []int{0, 0o444, 0o111, 0o700, 0o666} {
			yield(func() *c18Perm { return &c18Perm{n, m} })
		}
	}
}

// c18Wrong tells for every prefix of a valid template whether it certainly is
// no template: it ends inside of braces, a comment, the arguments of a
// directive or a block.
func c18Wrong(src string) []bool {
	m := scan(src)
	out := make([]bool, len(src)+1)
	var stack []string
	last := ""       // the last directive, if only space followed
	pending := false // a keyword that needs arguments
	put := func(p int, inside bool) { out[p] = inside || len(stack) > 0 || pending }
	for i := 0; i < len(src); {
		switch m[i] {
		case mOpen:
			last = ""
			put(i+1, false) // {
			i += 2
			for i < len(src) && m[i] != mOpen {
				put(i, true)
				i++
			}
			put(i, true)
			put(i+1, true)
			i += 2
			put(i, false)
		case mComment:
			j := i + 4 + strings.Index(src[i+4:], "--}}") + 4
			put(i+1, false)
			for i += 2; i < j; i++ {
				put(i, true)
			}
			put(i, false)
		case mKeyword:
			k := keyword(src[i:])
			for j := 0; j < len(k); j++ { // text
				i++
				// @else is a part of @elseif
				put(i, false)
			}
			i++
			switch k {
			case "if", "each", "for":
				stack = append(stack, k)
			case "slot":
				if last == "component" {
					stack = append(stack, "component")
				}
				if len(stack) > 0 && stack[len(stack)-1] == "component" {
					stack = append(stack, "slot")
				}
			case "end":
				if len(stack) > 0 {
					stack = stack[:len(stack)-1]
				}
			}
			// arguments
			j := i
			for j < len(src) && strings.IndexByte(" \t\r\n", src[j]) >= 0 {
				j++
			}
			has := j < len(src) && src[j] == '(' && m[j] == mCode && !(k == "else" || k == "end" || k == "break" || k == "continue")
			if has {
				pending = k != "slot"
				for ; i < j; i++ {
					put(i, false)
				}
				pending = false
				put(i, k != "slot")
				i++
				depth, comma := 1, false
				for depth > 0 && i < len(src) {
					put(i, true)
					if m[i] == mCode {
						switch src[i] {
						case '(', '[', '{':
							depth++
						case ')', ']', '}':
							depth--
						case ',':
							comma = comma || depth == 1
						}
					}
					i++
				}
				if k == "insert" && !comma {
					stack = append(stack, "insert")
				}
			}
			put(i, false)
			last = k
		default:
			if strings.IndexByte(" \t\r\n", src[i]) < 0 {
				last = ""
			}
			i++
			put(i, false)
		}
	}
	return out
}

// c18Base is a valid tree with files of every kind.
var c18Base = func() *c18Fault {
	f := map[string]string{
		"home":            "@use('~main')\n@insert('title', 'Home')\n@insert('body')\n  <p>{{ name }}</p>\n  @component('~card', { title: name, n: 1 })\n    @slot('foot')F{{ 1 }}@end\n    @slot D @end\n  @end\n  @if(n > 1)a@elseif(n == 0)b@else c@end\n@end\n",
		"about":           "{{-- about --}}<h1>{{ 'A' + \"b\" }}</h1>@each(x in [1, 2]){{ x }}@else none @end@for(i = 0; i < 2; i++){{ i }}@breakIf(i == 1)@end\\{{ x }} \\@if(x)\n",
		"sub/deep/page":   "@component('sub/row', {v: [1, {a: 2}]})text@component('sub/plain')",
		"alone":           "@dump(1, 'a'){{ n ? 1 : 2 }}{{ m = 3; m++ }}",
		"text":            "no code at all\n",
		"second":          "@use('~main')@insert('title')T{{ n }}@end",
		"layouts/main":    "<html><title>@reserve('title')</title>\n{{ 'x'.upper() }}@reserve('body')@if(true)z@end</html>",
		"layouts/unused":  "<u>@reserve('u')</u>",
		"components/card": "<c>{{ title }}@slot<i>@slot('foot')</i>{{ [n, n].join('-') }}</c>",
		"sub/row":         "@each(x in [v[0]])<r>{{ x }}</r>@end",
		"sub/plain":       "plain",
	}
	c := &c18Fault{Files: map[string][]byte{}, Data: Data{"name": DStr("N"), "n": DInt(2)}, Uses: map[string][]string{
		"layouts/main": {"home", "second"}, "components/card": {"home"}, "sub/row": {"sub/deep/page"}, "sub/plain": {"sub/deep/page"}}}
	for n, s := range f {
		c.Files[n] = []byte(s)
	}
	return c
}()

// c18Outside is c18Base with the layouts and components beside the directory.
var c18Outside = func() *c18Fault {
	move := strings.NewReplacer("'~main'", "'../shared/main'", "'~card'", "'../card'", "'sub/row'", "'../shared/x/row'", "'sub/plain'", "'../shared/plain'")
	names := map[string]string{"layouts/main": "../shared/main", "components/card": "../card", "sub/row": "../shared/x/row", "sub/plain": "../shared/plain"}
	c := &c18Fault{Files: map[string][]byte{}, Data: c18Base.Data, Uses: map[string][]string{}}
	for n, s := range c18Base.Files {
		m := names[n]
		if m == "" {
			m = n
		}
		c.Files[m] = []byte(move.Replace(string(s)))
		if users := c18Base.Uses[n]; users != nil {
			c.Uses[m] = users
		}
	}
	return c
}()

var c18Garbage = []string{"{{ ~ }}", "\x00\xff\xfe{{", "@if(", "{{ 1 2 }}", "{{--", "text {{ 'a }} text", "@use(1)", "@each(x of y)@end", "@component()", "{{ [1, }}", "@insert", "{{ {a: } }}", "@for(;;", "\xef\xbb\xbf{{ # }}", "PK\x03\x04{{\x00\x01", "@reserve()", "{{ }}"}

func (c *c18Fault) with(file, what, text string, wrong bool) *c18Fault {
	d := *c
	d.File, d.What, d.Text, d.Wrong = file, what, []byte(text), wrong
	return &d
}

var c18Whats = []string{"deleted", "dangling", "loop", "dirlink", "dir", "dirfull"}

func c18Enum(th bool, yield func(func() *c18Fault)) {
	c18EnumOf(c18Base, th, yield)
	for _, b := range []*c18Fault{c18Base, c18Outside} {
		c18EnumOf(b, th, func(mk func() *c18Fault) {
			if b == c18Base {
				was := mk
				mk = func() *c18Fault { c := was(); c.Link = true; return c }
			}
			if c := mk(); c.outside(c.File) && len(c.Uses[c.File]) > 0 {
				yield(func() *c18Fault { return mk() })
			}
		})
	}
}

func c18EnumOf(b *c18Fault, _ bool, yield func(func() *c18Fault)) {
	var names []string
	for n := range b.Files {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		src := string(b.Files[n])
		for _, w := range c18Whats {
			for _, d := range []string{"", "t/", "x/../t", "./a/b"} {
				yield(func() *c18Fault {
					c := b.with(n, w, "", false)
					c.Dir = d
					return c
				})
			}
		}
		for _, t := range c18Garbage {
			yield(func() *c18Fault { return b.with(n, "content", t, true) })
			yield(func() *c18Fault { return b.with(n, "content", src+t, true) })
			if strings.Count(t, "{{") == strings.Count(t, "}}") && !strings.ContainsAny(t, "('[") {
				yield(func() *c18Fault { return b.with(n, "content", "\n\n"+t+"\n"+src, true) })
			}
		}
		wrong := c18Wrong(src)
		for p := 0; p < len(src); p++ {
			yield(func() *c18Fault { return b.with(n, "content", src[:p], wrong[p]) })
		}
	}
}

func c18FaultRand(r *rapid.T) *c18Fault {
	g := gen.New(r)
	s := genSiteWith(r, 3, g.N(4) > 0, func(g *gen.G) {})
	c := &c18Fault{Files: map[string][]byte{}, Uses: map[string][]string{}, Data: s.Data, Dir: gen.Pick(g, []string{"", "", "t/", "x/../t", "./d/e", "a.tw/t"})}
	var names []string
	for n, p := range s.Files {
		c.Files[n] = []byte(PrintB(p, &Layout{B: s.Layout}))
		names = append(names, n)
	}
	for _, n := range names {
		Walk(s.Files[n], func(st *S) {
			to := ""
			switch st.K {
			case "use":
				to = Resolve(st.S, "layouts")
			case "comp":
				to = Resolve(st.S, "components")
			}
			if to != "" && !slices.Contains(c.Uses[to], n) {
				c.Uses[to] = append(c.Uses[to], n)
			}
		}, nil)
	}
	sortStrings(names)
	for _, n := range names {
		if s.endless(n, s.Data) {
			c.Skip = append(c.Skip, n)
		}
	}
	c.Link = g.N(4) == 3
	n := gen.Pick(g, names)
	src := string(c.Files[n])
	switch g.N(6) {
	case 0:
		return c.with(n, gen.Pick(g, c18Whats), "", false)
	case 1:
		return c.with(n, "content", gen.Pick(g, []string{"", src, "\n"})+gen.Pick(g, c18Garbage), true)
	}
	p := g.N(len(src) + 1)
	return c.with(n, "content", src[:p], p < len(src) && c18Wrong(src)[p])
}

// ---- sizes

// c18Size is a tree with one long file.
type c18Size struct {
	Kind  string `json:"kind"` // page, layout, component, insert
	Lead  int    `json:"lead"`
	N     int    `json:"n"` // bytes before the end
	End   int    `json:"end"`
	Lines int    `json:"lines,omitempty"` // before it
}

var c18Leads = [][2]string{{"x", "x"}, {"line\n", "line\n"}, {"é", "é"}, {"{{ 'a' }}", "a"}, {"<p>{{ 1 }}</p>\r\n", "<p>1</p>\r\n"}, {"{{-- c --}}", ""}, {" ", " "}, {"\\{{", "{{"}, {"@if(true)b@end ", "b "}}

var c18Ends = []struct {
	src, out string
	bad      bool
}{{"", "", false}, {"{{ 1 + 1 }}", "2", false}, {"@if(true)e@end", "e", false}, {"\n", "\n", false}, {"z{{-- c --}}", "z", false}, {"\\@end", "@end", false}, {"{{ nope", "", true}, {"@if(true)e", "", true}, {"@each(x in [1])", "", true}, {"{{-- c", "", true}, {"x{{ 1 + }}y", "", true}, {"{{ # }}", "", true}}

func judge18Size(c *c18Size) core.Verdict {
	lead, end := c18Leads[c.Lead], c18Ends[c.End]
	k := c.N / len(lead[0])
	pad := c.N - k*len(lead[0])
	body := strings.Repeat("\n", c.Lines) + strings.Repeat("p", pad) + strings.Repeat(lead[0], k) + end.src
	want := strings.Repeat("\n", c.Lines) + strings.Repeat("p", pad) + strings.Repeat(lead[1], k) + end.out
	line := 1 + strings.Count(body, "\n")
	f := map[string]string{"t/a.tw": "A", "t/other.tw": "other {{ 1 }}", "t/zz.tw": "Z"}
	file := "t/home.tw"
	switch c.Kind {
	case "page":
		f[file] = body
	case "layout":
		file = "t/layouts/l.tw"
		f["t/home.tw"], f[file] = "@use('~l')@insert('i', 'I')", body+"@reserve('i')."
		want += "I."
	case "component":
		file = "t/components/c.tw"
		f["t/home.tw"], f[file] = "[@component('~c')]", body
		want = "[" + want + "]"
	case "insert":
		f["t/layouts/l.tw"], f[file] = "<@reserve('i')>", "@use('~l')@insert('i')"+body+"@end"
		want = "<" + want + ">"
	case "slot":
		f["t/c.tw"], f[file] = "<@slot>", "(@component('c')@slot "+body+"@end@end)"
		want = "(< " + want + ">)"
	}
	in := map[string]string{}
	for n, s := range f {
		in[n[2:]] = s
	}
	writeTree("t", in)
	what := fmt.Sprintf("a %s of %d bytes (%q repeated, ending with %q)", c.Kind, len(f[file]), lead[0], end.src)
	tpl, err := load("t", ".tw", false)
	if end.bad {
		if err == nil || tpl != nil {
			return core.Failf("loading %s gives %v, %v", what, tpl, err)
		}
		if !strings.Contains(err.Error(), filepath.Join(cwd(), file)) {
			return core.Failf("loading %s fails with %q, which does not name the file", what, err)
		}
		if c.Kind == "page" {
			if out, err := textwire.EvaluateFile(file, nil); err == nil || out != "" {
				return core.Failf("EvaluateFile of %s gives %s, %v", what, short([]byte(out)), err)
			} else if c.End == len(c18Ends)-1 && !strings.Contains(err.Error(), fmt.Sprintf(":%d]", line)) {
				return core.Failf("EvaluateFile of %s fails with %q; the fault is in line %d", what, err, line)
			}
		}
		return core.OK(true, "fault")
	}
	if err != nil || tpl == nil {
		return core.Failf("loading %s fails: %v", what, err)
	}
	out, ferr := tpl.String("home", nil)
	if ferr != nil || out != want {
		return core.Failf("%s gives %s, %v instead of %s", what, short([]byte(out)), ferr, short([]byte(want)))
	}
	for n, w := range map[string]string{"a": "A", "other": "other 1", "zz": "Z"} {
		if out, ferr := tpl.String(n, nil); ferr != nil || out != w {
			return core.Failf("beside %s, %q gives %q, %v", what, n, out, ferr)
		}
	}
	if c.Kind == "page" {
		out, err := textwire.EvaluateFile(file, nil)
		if err != nil || out != want {
			return core.Failf("EvaluateFile of %s gives %s, %v instead of %s", what, short([]byte(out)), err, short([]byte(want)))
		}
	}
	return core.OK(true, c.Kind)
}

var c18Kinds = []string{"page", "layout", "component", "insert", "slot"}

func c18SizeEnum(th bool, yield func(func() *c18Size)) {
	for i, n := range sizes(200, 140000) {
		for k, kind := range c18Kinds {
			for l := range c18Leads {
				for e := range c18Ends {
					if !th && (i+k+l+e)%11 != 0 {
						continue
					}
					if kind != "page" && c18Ends[e].bad && c18Ends[e].src != "x{{ 1 + }}y" && c18Ends[e].src != "{{ # }}" {
						continue
					}
					yield(func() *c18Size { return &c18Size{Kind: kind, Lead: l, N: n, End: e, Lines: (i + e) % 3 * 300} })
				}
			}
		}
	}
	big := []int{1 << 18, 1<<18 + 1, 1<<18 - 1, 1 << 19, 1<<19 + 1, 1 << 20, 1<<20 - 1, 1<<20 + 1, 1000000, 1<<21 + 1, 3 << 20}
	if th {
		big = append(big, 1<<22, 1<<22+1, 1<<23+1, 1<<24+1, 1<<25+1)
	}
	for i, n := range big {
		for k, kind := range c18Kinds {
			for e := range c18Ends {
				if (i+k+e)%4 != 0 || kind != "page" && c18Ends[e].bad && c18Ends[e].src != "x{{ 1 + }}y" && c18Ends[e].src != "{{ # }}" {
					continue
				}
				yield(func() *c18Size { return &c18Size{Kind: kind, Lead: (i + k + e) % 3, N: n, End: e} })
			}
		}
	}
}

func c18SizeRand(r *rapid.T) *c18Size {
	g := gen.New(r)
	c := &c18Size{Kind: gen.Pick(g, c18Kinds), Lead: g.N(len(c18Leads)), N: drawSize(r, g, 300000), End: g.N(len(c18Ends)), Lines: drawSize(r, g, 70000) * g.N(2)}
	if c.Kind != "page" && c18Ends[c.End].bad {
		c.End = 10 + g.N(2)
	}
	return c
}

// ---- files

// c18File is a file that is evaluated, with several contents one after the
// other.
type c18File struct {
	Name  string   `json:"name"`
	Texts [][]byte `json:"texts"`
	Data  Data     `json:"data,omitempty"`
	Rel   bool     `json:"rel,omitempty"`
	Load  bool     `json:"load,omitempty"` // templates are loaded before
}

func judge18File(c *c18File) core.Verdict {
	writeTree("f", map[string]string{"t/page.tw": "page", "keep": ""})
	if c.Load {
		if _, err := load("f/t", ".tw", false); err != nil {
			panic(err)
		}
	}
	p := filepath.Join(cwd(), "f", c.Name)
	if c.Rel {
		p = "f/" + c.Name
	}
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(err)
	}
	ok := false
	for i, t := range c.Texts {
		if err := os.WriteFile(p, t, 0o644); err != nil {
			panic(err)
		}
		got, gerr := textwire.EvaluateFile(p, c.Data.Native())
		want, werr := textwire.EvaluateString(string(t), c.Data.Native())
		if got != want || (gerr == nil) != (werr == nil) {
			return core.Failf("content %d of %s, %q: EvaluateFile gives %q, %v and EvaluateString %q, %v", i, c.Name, t, got, gerr, want, werr)
		}
		if gerr != nil {
			// the text of the error may name the file
			a, _ := parseErr(gerr)
			b, _ := parseErr(werr)
			if a.Msg != b.Msg || a.Line != b.Line {
				return core.Failf("content %d of %s, %q: EvaluateFile fails with %v and EvaluateString with %v", i, c.Name, t, gerr, werr)
			}
		}
		ok = ok || gerr == nil
	}
	if err := os.Remove(p); err != nil {
		panic(err)
	}
	for _, name := range []string{p, p + "/x", filepath.Dir(p), ""} {
		if out, err := textwire.EvaluateFile(name, c.Data.Native()); err == nil || out != "" {
			return core.Failf("EvaluateFile(%q), which is no file, gives %q, %v", name, out, err)
		} else if !strings.Contains(err.Error(), name) {
			return core.Failf("EvaluateFile(%q), which is no file, gives the error %q", name, err)
		}
	}
	return core.OK(true, map[bool]string{true: "outputs", false: "errors"}[ok])
}

func c18FileRand(r *rapid.T) *c18File {
	g := gen.New(r)
	c := &c18File{Name: gen.Pick(g, []string{"a.tw", "t/page.tw", "t/new.tw", "x/y/z", "a b.html", "é", "%s", "{{ 1 }}"}), Data: g.Data(), Rel: g.N(4) == 3, Load: g.N(2) == 1}
	undo := g.Fresh(g.Types())
	for i, n := 0, 1+g.N(4); i < n; i++ {
		var t string
		switch g.N(6) {
		case 0:
			t = gen.Pick(g, c18Garbage)
		case 1:
			t = c13Pieces(g, 6)
		case 2:
			t = gen.Pick(g, c18Garbage) + c13Pieces(g, 2)
		case 3:
			b := rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(r, "bytes")
			t = string(b)
		default:
			g.Faults = []int{0, 0, 40}[g.N(3)]
			g.Budget(15)
			b := g.Block(3, 4)
			if endless(b, c.Data) {
				b = nil
			}
			t = PrintB(b, &Layout{B: g.Layout()})
		}
		switch g.N(8) {
		case 5:
			t = crlf(t)
		case 6:
			t = "\xef\xbb\xbf" + t
		case 7:
			t += strings.Repeat(gen.Pick(g, []string{"\n", " ", "\x00", "x", "\x1a"}), 1+g.N(5000))
		}
		c.Texts = append(c.Texts, []byte(t))
	}
	undo()
	return c
}

func init() {
	register(&core.Prop{
		ID: "C18", Level: "exploration",
		Families: []core.Family{
			core.New(core.Fam[*c18Tree]{
				Name: "names", Rule: fmt.Sprintf("all file names of up to 4 (thorough 6) characters over {a t . w} x %d extensions x %d spellings of the directory (nested, slashes, parent segments, from other working directories), every byte and some 60 other characters and words at the beginning, in the middle and at the end of the names of files and directories, depths to 70, names to 253 bytes, paths to 2.4 KB, up to 4100 files, and small nested trees with layouts, components and files outside; the registered names and what they render are known, some 100 other names per tree must not be found; non-trivial: several templates or files that are none", len(c18Exts), len(c18Dirs)),
				Enum: c18Names, Judge: judge18,
			}),
			core.New(core.Fam[*c18Tree]{
				Name: "trees", Rule: "random trees (files, links, directories with the names of files), spellings and extensions; non-trivial: as before",
				Gen: c18Rand, Quick: 60000, Thorough: 1000000, Judge: judge18,
			}),
			core.New(core.Fam[*c18Fault]{
				Name: "faults", Rule: "every file of a valid tree of 11 x {deleted, cut at every byte, 17 kinds of garbage alone, before and after the content, dangling link, link loop, link to a directory, empty and full directory} x spellings; the same for layouts and components behind links to directories and beside the directory of the templates, which only the pages that use them lead to; non-trivial: always but for such files that are not used",
				Enum: c18Enum, Judge: judge18Fault,
			}),
			core.New(core.Fam[*c18Fault]{
				Name: "random faults", Rule: "the same with random trees of pages, layouts and components; non-trivial: the tree without the fault can be loaded",
				Gen: c18FaultRand, Quick: 120000, Thorough: 2000000, Judge: judge18Fault,
			}),
			core.New(core.Fam[*c18Size]{
				Name: "sizes", Rule: fmt.Sprintf("a page, layout, component, insert or slot of %d texts or blocks repeated up to sizes within 2 of the powers of two and ten and multiples of 4096 to 140 KB and some to 3 MB (thorough 32 MB), with one of %d ends, half of them faults: what it renders is known, or loading fails and names the file; also EvaluateFile; non-trivial: always", len(c18Leads), len(c18Ends)),
				Enum: c18SizeEnum, Gen: c18SizeRand, Quick: 600, Thorough: 30000, Judge: judge18Size,
			}),
			core.New(core.Fam[*c18Perm]{
				Name: "permissions", Rule: "every file and directory of the tree with modes that an ordinary user cannot read, as an ordinary user: loading fails and names it; non-trivial: the tree with readable files can be loaded",
				Enum: c18PermEnum, Judge: judge18Perm,
			}),
			core.New(core.Fam[*c18File]{
				Name: "files", Rule: "EvaluateFile and EvaluateString on the same random content, 1 to 4 contents in one file after another; and paths that are no file; non-trivial: always",
				Gen: c18FileRand, Quick: 60000, Thorough: 1000000, Judge: judge18File,
			}),
		},
		Assumptions: []string{
			"the names ./x, /x and a//b are neither required nor forbidden to be x and a/b",
			"a deleted page, or a directory in its place, is not known to loading; its name must not be found",
			"whether a prefix that ends outside of all constructs is a template is not judged, only that an error names the file or a file that uses it",
			"unreadable files are made by taking permissions away and loading as an ordinary user, and by links without a target",
		},
	})
}
