package props

import (
	"bytes"
	"fmt"
	"html"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// c17Call asks for a page.
type c17Call struct {
	Name string          `json:"name"`
	Data Data            `json:"data,omitempty"`
	Vars map[string]*Nat `json:"vars,omitempty"`
	// Fails: 1 it fails, 2 it succeeds, 0 as String does
	Fails int     `json:"fails,omitempty"`
	Want  *string `json:"want,omitempty"`
}

// c17Case are pages that are asked for under a sequence of configurations.
type c17Case struct {
	Files map[string][]byte `json:"files"`
	Calls []c17Call         `json:"calls"`
	Pages []string          `json:"pages"` // the error pages, in their order
	Loads bool              `json:"loads,omitempty"`
	// Pad is text before the content of the files.
	Pad int `json:"pad,omitempty"`
	// Long is the length of the error pages errors/long and errors/longcode
	// and of the pages zqlong and zqlongcode.
	Long int `json:"long,omitempty"`
}

// c17Errors are the error pages; "" is the text of a page that fails.
var c17Errors = map[string]struct{ src, out string }{
	"errors/fine":   {"<p>Custom {{ 1 + 1 }}</p>@each(x in [1, 2]){{ x }},@end\n", "<p>Custom 2</p>1,2,\n"},
	"errors/rich":   {"@use('errors/lay')@insert('b')<b>@component('errors/comp', {a: 7})@slot S @end@end</b>@end", "<html><b>[7 S ]</b></html>"},
	"errors/large":  {strings.Repeat("<i>large</i>\n", 9000), strings.Repeat("<i>large</i>\n", 9000)},
	"errors/own":    {"{{ zqv = 5; zqs = 6; zqv + zqs }}", "11"},
	"errors/spaces": {"  \n ", "  \n "},
	"errors/tricky": {"\\{{ message }} 100% <%s> {{ '%d' }}\x00", "{{ message }} 100% <%s> %d\x00"},
	"errors/bad0":   {"{{ undefinedHere }}", ""},
	"errors/bad1":   {"<p>zqe1.</p>@each(x in [1, 2, 3])zqe2.{{ x }}@if(x == 3){{ x / 0 }}@end@end", ""},
	"errors/bad2":   {strings.Repeat("zqe3.", 30000) + "{{ 'a'.nope() }}", ""},
	"errors/bad3":   {"@use('errors/lay')zqe4.@insert('b')zqe5.@component('errors/badcomp')@end", ""},
	"errors/bad4":   {"zqe6.@component('errors/comp', {b: 1})zqe7.", ""},
}

// c17Parts are not error pages.
var c17Parts = map[string]string{
	"errors/lay":     "<html>@reserve('b')</html>",
	"errors/comp":    "[{{ a }}@slot]",
	"errors/badcomp": "zqe8.{{ nope }}",
}

var c17Pages = []string{"errors/fine", "errors/bad1", "errors/rich", "errors/none", "errors/own", "errors/bad0", "errors/large", "errors/bad2", "errors/lay", "errors/spaces", "errors/bad3", "errors/tricky", "errors/bad4", "errors/comp", "zqhome"}

var reMarker = regexp.MustCompile(`zq[me]\d+\.`)

// mentions tells whether the body shows the text, perhaps escaped.
func mentions(body, text string) bool {
	return strings.Contains(body, text) || strings.Contains(body, html.EscapeString(text)) || strings.Contains(html.UnescapeString(body), text)
}

func without(body, text string) string {
	if text == "" {
		return body
	}
	return strings.ReplaceAll(strings.ReplaceAll(body, text, "*"), html.EscapeString(text), "*")
}

func judge17(c *c17Case) core.Verdict {
	dir := "zqdir/t"
	f := map[string]string{}
	pad := strings.Repeat("zqm0.", c.Pad)
	for n, s := range c.Files {
		f[n+".tw"] = string(s)
		if !strings.Contains(string(s), "@use") {
			f[n+".tw"] = pad + string(s)
		}
	}
	errors := map[string]struct{ src, out string }{}
	for n, e := range c17Errors {
		errors[n] = e
	}
	calls := append([]c17Call{{Name: "zqnope", Fails: 1}}, c.Calls...)
	if c.Long > 0 {
		text := strings.Repeat("0123456789abcde\n", c.Long/16) + strings.Repeat("=", c.Long%16)
		code := fmt.Sprintf("@if(true){{ 'y'.repeat(%d) }}@end{{ 'z' }}", c.Long-1)
		out := strings.Repeat("y", c.Long-1) + "z"
		errors["errors/long"] = struct{ src, out string }{text, text}
		errors["errors/longcode"] = struct{ src, out string }{code, out}
		f["zqlong.tw"], f["zqlongcode.tw"] = text, code
		calls = append(calls, c17Call{Name: "zqlong", Want: &text, Fails: 2}, c17Call{Name: "zqlongcode", Want: &out, Fails: 2})
	}
	for n, e := range errors {
		f[n+".tw"] = e.src
	}
	for n, s := range c17Parts {
		f[n+".tw"] = s
	}
	writeTree(dir, f)
	conf := func(k, page string, debug bool) Op { return Op{K: k, Dir: dir, Ext: ".tw", Page: page, Debug: debug} }
	confs := []Op{conf("load", "", false), conf("configure", "", true), conf("configure", "", false)}
	for i, p := range c.Pages {
		k := "configure"
		if c.Loads {
			k = "load"
		}
		confs = append(confs, conf(k, p, i%2 == 1), conf("configure", p, i%2 == 0))
	}
	confs = append(confs, conf("configure", "", false)) // the error page stays
	var ops []Op
	for _, co := range confs {
		ops = append(ops, co)
		for _, ca := range calls {
			ops = append(ops, Op{K: "string", Name: ca.Name, Data: ca.Data, Vars: ca.Vars}, Op{K: "response", Name: ca.Name, Data: ca.Data, Vars: ca.Vars})
		}
	}
	res, err := (&Script{Ops: ops}).fresh()
	if err != nil {
		return core.Failf("%v\n%s", err, c.show())
	}
	if res[0].Failed {
		return core.OK(false, "load error")
	}
	page := ""
	failed, succeeded := 0, 0
	builtin := ""
	for at, i := 0, 0; i < len(confs); i++ {
		co := confs[i]
		if res[at].Failed || res[at].Panic != "" {
			return core.Failf("%s fails: %s\n%s", co, res[at], c.show())
		}
		at++
		if co.Page != "" {
			page = co.Page
		}
		for _, ca := range calls {
			str, got := res[at], res[at+1]
			at += 2
			fail := func(format string, a ...any) core.Verdict {
				return core.Failf("Response(%q) with the error page %q and debug mode %v: %s\nbody %s\nerror %q\nString gives %s\n%s", ca.Name, page, co.Debug, fmt.Sprintf(format, a...), short(got.Out), got.Err, str, c.show())
			}
			if got.Panic != "" || str.Panic != "" {
				return fail("panic %s%s", str.Panic, got.Panic)
			}
			if ca.Fails == 1 && !str.Failed || ca.Fails == 2 && str.Failed {
				return fail("the page should fail: %v", ca.Fails == 1)
			}
			body := string(got.Out)
			if !str.Failed {
				succeeded++
				if got.Failed {
					return fail("an error, although the page can be rendered")
				}
				if !bytes.Equal(got.Out, str.Out) {
					return fail("the body is not the page")
				}
				if ca.Want != nil && body != *ca.Want {
					return fail("the page should be %s", short([]byte(*ca.Want)))
				}
				continue
			}
			failed++
			if !got.Failed {
				return fail("no error")
			}
			msg, path, line := string(str.Fail.Msg), string(str.Fail.Path), str.Fail.Line
			if co.Debug {
				if !strings.Contains(body, msg) {
					return fail("the body lacks the message %q", msg)
				}
				if !strings.Contains(body, path) {
					return fail("the body lacks the path %q", path)
				}
				rest := without(without(body, msg), path)
				if !regexp.MustCompile(`\*\D{0,40}\b`+strconv.Itoa(line)+`\b|\b`+strconv.Itoa(line)+`\D{0,40}\*`).MatchString(rest) && path != "" {
					return fail("the body lacks the line %d", line)
				}
				if m := reMarker.FindString(rest); m != "" {
					return fail("the body contains a part of the page or error page: %q", m)
				}
				if w, ok := errors[page]; ok && len(w.out) > 4 && strings.Contains(rest, w.out) {
					return fail("the custom error page in debug mode")
				}
				continue
			}
			// the page that is expected
			if w, ok := errors[page]; ok && w.out != "" {
				if body != w.out {
					return fail("the body is not the error page")
				}
				continue
			}
			if page == "" && body == "" {
				return fail("the body is empty")
			}
			if body == "" {
				continue // the error page fails
			}
			// the built-in page
			if builtin == "" {
				builtin = body
			}
			if body != builtin {
				return fail("the built-in page should be %s", short([]byte(builtin)))
			}
			if strings.Contains(body, "zq") || strings.Contains(body, cwd()) || len(msg) > 3 && mentions(body, msg) || path != "" && mentions(body, path) {
				return fail("the body shows a detail")
			}
		}
	}
	return core.OK(failed > 0, map[bool]string{true: "with successes", false: "failures"}[succeeded > 0])
}

func short(b []byte) string {
	if len(b) > 3000 {
		return fmt.Sprintf("%q ... %q (%d bytes)", b[:1500], b[len(b)-1500:], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func (c *c17Case) show() string {
	out := map[string]string{}
	for n, s := range c.Files {
		out[n] = string(s)
	}
	return files(out)
}

// c17Places puts a source that fails into a tree around the page zqhome.
var c17Places = []func(src string) map[string]string{
	func(s string) map[string]string { return map[string]string{"zqhome": s} },
	func(s string) map[string]string {
		return map[string]string{"zqhome": "zqm1.@component('c')@component('d')zqm2.@slot('s')zqm3.@end@slot zqm4.@end@end" + s, "c": "zqm5.", "d": "zqm6.@slot('s')zqm7.@slot"}
	},
	func(s string) map[string]string {
		return map[string]string{"zqhome": "@use('~l')zqm1.@insert('t', 'zqm2.')@insert('b')zqm3." + s + "zqm4.@end", "layouts/l": "zqm5.@reserve('t')zqm6.@reserve('b')zqm7."}
	},
	func(s string) map[string]string {
		return map[string]string{"zqhome": "@use('~l')@insert('t')zqm1.@end@insert('b', 'zqm2.')", "layouts/l": "zqm3.@reserve('t')zqm4.@reserve('b')zqm5." + s + "zqm6."}
	},
	func(s string) map[string]string {
		return map[string]string{"zqhome": "zqm1.@component('c')zqm2.", "c": "zqm3." + s + "zqm4."}
	},
	func(s string) map[string]string {
		return map[string]string{"zqhome": "zqm1.@each(x in [1, 2])zqm2.@component('c', {a: x})@slot('s')zqm3." + s + "zqm4.@end@end@end", "c": "zqm5.@slot('s')zqm6."}
	},
	func(s string) map[string]string {
		return map[string]string{"zqhome": "@use('l')@insert('b')zqm1.@component('~c')@slot zqm2.@end@end zqm3.@end", "l": "zqm4.@reserve('b')", "components/c": "zqm5.@slot zqm6." + s}
	},
	func(s string) map[string]string {
		return map[string]string{"zqhome": "zqm1.@component('c', {zqa: [1, undefinedName]})zqm2." + s, "c": "zqm3."}
	},
	func(s string) map[string]string {
		return map[string]string{"zqhome": "@use('l')@insert('t', 1 / 0)" + s, "l": "zqm1.@reserve('t')"}
	},
}

func c17Files(m map[string]string) map[string][]byte {
	out := map[string][]byte{}
	for n, s := range m {
		out[n] = []byte(s)
	}
	// pages that work
	out["zqok"] = []byte("zqm80.{{ 1 + 1 }}@each(x in [1, 2])zqm81.{{ x }}@end")
	return out
}

func c17Rotate(n, k int) []string {
	var out []string
	for i := 0; i < k; i++ {
		out = append(out, c17Pages[(n+i*4)%len(c17Pages)])
	}
	return out
}

func c17Enum(th bool, yield func(func() *c17Case)) {
	n := 0
	for fi, f := range c13Faults {
		if !f.run || !c13Plain(f) {
			continue
		}
		for pi, place := range c17Places {
			for wi := range c13Wraps {
				n++
				t := n
				if !th && (fi+pi+wi)%4 != 0 {
					continue
				}
				yield(func() *c17Case {
					src, _ := c13Build(f, "zqm90.\n", []int{wi}, []string{"zqm91."}, "zqm92.")
					pad := []int{0, 0, 1, 1, 20, 900, 15000}[t%7]
					c := &c17Case{Files: c17Files(place(src)), Pages: c17Rotate(t, 4), Loads: t%2 == 1, Pad: pad}
					ok := strings.Repeat("zqm0.", pad) + "zqm80.2zqm81.1zqm81.2"
					c.Calls = []c17Call{{Name: "zqhome", Fails: 1}, {Name: "zqok", Fails: 2, Want: &ok}, {Name: "errors/bad1", Fails: 1}}
					return c
				})
			}
		}
	}
	// long and odd messages, paths and lines
	word := strings.Repeat("abcdefghij", 1000)
	for i, w := range []int{1, 40, 100, 150, 200, 300, 1000, 5000, 10000} {
		for j, src := range []string{
			"{{ " + word[:w] + " }}", "{{ 1." + word[:w] + "() }}", "{{ {z: 1}." + word[:w] + " }}", "{{ {z: 1}['" + word[:w] + "'] }}", "{{ {a: 1}['x\n\n y%s<i>" + word[:w] + "'] }}", "{{ [" + strings.Repeat("1, ", w) + "nope] }}",
			"{{ 1 + '" + word[:w] + "' }}", "{{ '" + word[:w] + "' + 1 }}", strings.Repeat("\n", w) + "{{ nope }}", strings.Repeat("x\r\n", w) + "{{ 1 / 0 }}", strings.Repeat("@if(true)\n", w/10) + "{{ nope }}" + strings.Repeat("@end", w/10), "{{ -'" + word[:w] + "' }}", "{{ 'q'." + word[:w] + "('" + word[:w] + "') }}", "{{ _" + word[:w] + "\n\n }}",
		} {
			if !th && (i+j)%2 != 0 && w > 300 {
				continue
			}
			yield(func() *c17Case {
				c := &c17Case{Files: c17Files(c17Places[(i+j)%len(c17Places)](src)), Pages: c17Rotate(j, 2), Loads: j%2 == 1}
				c.Calls = []c17Call{{Name: "zqhome", Fails: 1}, {Name: "zqok", Fails: 2}, {Name: "zq/" + word[:w]}, {Name: word[:min(w, 240)] + strings.Repeat("/d", i)}}
				return c
			})
		}
	}
	for i, n := range []string{word[:200], "zq" + strings.Repeat("d/", 60) + "page", "zq " + strings.Repeat("é", 90), "zq" + strings.Repeat("'<b>&", 40)} {
		yield(func() *c17Case {
			c := &c17Case{Files: c17Files(map[string]string{n: "zqm1.\n\n{{ nope }}", "zqhome": "zqm2.@component('" + "c" + "')", "c": "zqm3.{{ [1].x }}"}), Pages: c17Rotate(i, 3)}
			c.Calls = []c17Call{{Name: n, Fails: 1}, {Name: "zqhome", Fails: 1}}
			return c
		})
	}
	// lengths of pages and error pages
	for i, n := range sizes(100, 140000) {
		if !th && i%2 == 1 && n%4096 != 0 {
			continue
		}
		yield(func() *c17Case {
			c := &c17Case{Files: c17Files(c17Places[i%len(c17Places)]("{{ nope }}")), Pages: []string{"errors/long", "errors/fine", "errors/longcode", "errors/bad1"}, Loads: i%2 == 1, Long: n}
			c.Calls = []c17Call{{Name: "zqhome", Fails: 1}, {Name: "zqok", Fails: 2}}
			return c
		})
	}
	for i, n := range []int{1 << 18, 1<<18 + 1, 1 << 20, 1<<20 + 1, 1000000, 1<<21 + 7} {
		yield(func() *c17Case {
			c := &c17Case{Files: c17Files(c17Places[i%len(c17Places)]("{{ nope }}")), Pages: []string{"errors/long", "errors/longcode"}, Loads: i%2 == 1, Long: n}
			c.Calls = []c17Call{{Name: "zqhome", Fails: 1}}
			return c
		})
	}
	// names and data
	odd := []string{"zqhome", "/zqhome", "zqhome.tw", "zq/no/such", "../zqhome", "", ".", "zq<b>\"'&", "zq{{ 1 }}", "zq\x00", "zq é", "zq%s%d", "zq\n2", "layouts/zql", "errors/lay", "errors/fine", "errors/bad0", "errors/none", "./zqhome", "zqhome/"}
	for i := range odd {
		for j := range c17Pages {
			if !th && (i+j)%3 != 0 {
				continue
			}
			yield(func() *c17Case {
				c := &c17Case{Files: c17Files(map[string]string{"zqhome": "zqm1.{{ zqv }}{{ zqs }}", "layouts/zql": "zqm2.@reserve('x')", "zq<b>'&": "zqm3.{{ x.y }}", "zq{{ 1 }}": "zqm4.{{ nope }}", "zq %s%d": "zqm5.{{ nope }}"}), Pages: c17Rotate(j, 3), Pad: i % 2}
				c.Calls = []c17Call{
					{Name: odd[i]}, {Name: "zqhome", Data: Data{"zqv": DStr("zqm9."), "zqs": DStr("<b>")}, Fails: 2}, {Name: "zqhome", Data: Data{"zqv": DInt(1)}, Fails: 1}, {Name: "zq<b>'&", Fails: 1}, {Name: "zq{{ 1 }}", Fails: 1}, {Name: "zq %s%d", Fails: 1},
					{Name: "zqhome", Data: Data{"zqv": DInt(1), "zqs": DInt(1), "loop": DInt(1)}, Fails: 1},
					{Name: "zqhome", Vars: map[string]*Nat{"zqv": {T: &NT{K: natBad[i%len(natBad)]}, V: &NV{}}}, Fails: 1},
					{Name: odd[i], Data: Data{"loop": DInt(1)}, Fails: 1},
				}
				return c
			})
		}
	}
}

func c17Site(r *rapid.T) *c17Case {
	g := gen.New(r)
	s := genSiteWith(r, 3, g.N(3) > 0, func(g *gen.G) { g.Faults = []int{10, 40, 120}[g.N(3)] })
	in := &Interp{Site: s.Files, Steps: 3000}
	ref := in.Page(s.Page, s.Data)
	c := &c17Case{Files: map[string][]byte{}, Loads: g.N(2) == 1, Pad: 0}
	for n, p := range s.Files {
		src := PrintB(p, &Layout{B: s.Layout})
		if !hasKind(p, "use") {
			src = "zqm1." + src
		}
		c.Files[n] = []byte(src)
	}
	call := c17Call{Name: s.Page, Data: s.Data}
	if !ref.Unspec && !ref.Endless {
		call.Fails = 2
		if ref.Err {
			call.Fails = 1
		}
	}
	if ref.Endless {
		call = c17Call{Name: "zqother"}
	}
	c.Calls = []c17Call{call}
	for i, n := 0, 1+g.N(4); i < n; i++ {
		c.Pages = append(c.Pages, gen.Pick(g, c17Pages))
	}
	return c
}

func c17Rand(r *rapid.T) *c17Case {
	g := gen.New(r)
	c := &c17Case{Loads: g.N(2) == 1, Pad: []int{0, 0, 1, 5, 3000}[g.N(5)]}
	var src string
	for {
		var f c13Fault
		f, src, _ = c13Draw(g, true)
		if c13Plain(f) {
			break
		}
	}
	c.Files = c17Files(gen.Pick(g, c17Places)("zqm90." + src + "zqm91."))
	c.Calls = []c17Call{{Name: "zqhome", Fails: 1}, {Name: "zqok", Fails: 2}}
	for i, n := 0, 1+g.N(5); i < n; i++ {
		c.Pages = append(c.Pages, gen.Pick(g, c17Pages))
	}
	return c
}

func init() {
	register(&core.Prop{
		ID: "C17", Level: "exploration",
		Families: []core.Family{
			core.New(core.Fam[*c17Case]{
				Name: "points", Rule: fmt.Sprintf("every run-time fault of C13 in 11 wraps and %d places of a tree (page, layout, component, insert, slot, arguments), after up to 75 KB of output, beside a working page, a failing error page and names that do not exist or data that is refused, and pages and error pages of 100 bytes to 2 MB around powers of two and ten; each in a fresh process under debug on and off x no error page and several of %d working, failing or missing ones, in sequence; all texts of the pages, names and directories carry markers; non-trivial: at least one failure", len(c17Places), len(c17Pages)),
				Enum: c17Enum, Judge: judge17,
			}),
			core.New(core.Fam[*c17Case]{
				Name: "random", Rule: "random faults in up to 3 nested wraps among random pieces, random sequences of error pages; non-trivial: at least one failure",
				Gen: c17Rand, Quick: 1500, Thorough: 60000, Judge: judge17,
			}),
			core.New(core.Fam[*c17Case]{
				Name: "sites", Rule: "random trees whose outcome the reference evaluator gives, random sequences of error pages; non-trivial: at least one failure",
				Gen: c17Site, Quick: 1500, Thorough: 60000, Judge: judge17,
			}),
		},
		Assumptions: []string{
			"which page a failing or missing custom error page leaves (empty or the built-in one) is not judged, only that it is one of the two",
			"message, path and line are those of the error of Template.String for the same page and data",
		},
	})
}
