package props

import (
	"fmt"
	"html"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/lang"
)

// c10Case are two literals in a context.
type c10Case struct {
	A   []byte `json:"a"`
	B   []byte `json:"b"`
	QA  string `json:"qa"`
	QB  string `json:"qb"`
	Ctx int    `json:"ctx"`
	Raw bool   `json:"raw,omitempty"`
}

// c10Ctx is a template with the places %a and %b, and what it prints, a and b
// being the texts of the literals.
type c10Ctx struct {
	src   string
	out   string
	files map[string]string
}

var c10Ctxs = []c10Ctx{
	{"{{ %a }}", "a", nil},
	{"{{%a}}{{%b}}", "ab", nil},
	{"{{ %a + %b }}", "ab", nil},
	{"{{ %a + %b + %a }}", "aba", nil},
	{"{{ (%a) }}", "a", nil},
	{"{{ v = %a }}{{ v }}", "a", nil},
	{"{{ v = %a; v }}", "a", nil},
	{"{{ v = %a; w = v + %b; w + v }}", "aba", nil},
	{"{{ v = %a; v = v + %b; v = v + v; v }}", "abab", nil},
	{"{{ d + %a + d }}", "-a-", nil},
	{"{{ %a + '' }}{{ \"\" + %a }}", "aa", nil},
	{"{{ [%a] }}", "a", nil},
	{"{{ [%a, %b] }}", "a, b", nil},
	{"{{ [%a, %b][1] }}{{ [%a, %b][0] }}", "ba", nil},
	{"{{ [[%a], [%b]] }}", "a, b", nil},
	{"{{ l = [%a, %b]; l[0] + l[1] }}", "ab", nil},
	{"{{ l = [%a, [%b]]; l[1][0] }}", "b", nil},
	{"@each(x in [%a, %b]){{ x }}@end", "ab", nil},
	{"@each(x in [%a, %b]){{ x + %a }}@end", "aaba", nil},
	{"@each(x in [1, 2]){{ %a }}@end", "aa", nil},
	{"@for(s = %a; s != ''; s = ''){{ s }}@break@end", "?", nil},
	{"@for(i = 0; i < 2; i++){{ v = %a; v + %b }}@end", "abab", nil},
	{"@if(true){{ %a }}@else{{ %b }}@end", "a", nil},
	{"@if(false)@elseif(1){{ %b }}@end", "b", nil},
	{"{{ true ? %a : %b }}{{ false ? %a : %b }}", "ab", nil},
	{"{{ {k: %a}.k }}", "a", nil},
	{"{{ o = {k: %a, m: {n: %b}}; o.k + o.m.n }}", "ab", nil},
	{"{{ {k: [%a, %b]}.k[1] }}", "b", nil},
	{"{{ [%a].append(%b) }}", "a, b", nil},
	{"{{ [%a].prepend(%b)[0] }}", "b", nil},
	{"{{ [%a, %b].reverse() }}", "b, a", nil},
	{"{{ [%a, %b].join('-') }}", "a-b", nil},
	{"{{ [1, 2].join(%a) }}", "1a2", nil},
	{"{{ true.then(%a, %b) }}{{ false.then(%a, %b) }}", "ab", nil},
	{"{{ %a.repeat(2) }}", "aa", nil},
	{"{{\n%a\n}}", "a", nil},
	{"{{ 1; %a }}", "1a", nil},
	{"", "a", map[string]string{"home": "@use('~l')@insert('x', %a)", "layouts/l": "@reserve('x')"}},
	{"", "ab", map[string]string{"home": "@use('~l')@insert('x', %a + %b)", "layouts/l": "@reserve('x')"}},
	{"", "ba", map[string]string{"home": "@use('~l')@insert('x'){{ %a }}@end@insert('y', %b)", "layouts/l": "@reserve('y')@reserve('x')"}},
	{"", "ab", map[string]string{"home": "@use('~l')", "layouts/l": "{{ %a }}{{ v = %b; v }}"}},
	{"", "a", map[string]string{"home": "@component('c', {p: %a})", "c": "{{ p }}"}},
	{"", "ab", map[string]string{"home": "@component('c', {p: %a, q: %b})", "c": "{{ p + q }}"}},
	{"", "a, b-b", map[string]string{"home": "@component('~c', {p: [%a, %b]})", "components/c": "{{ p }}-{{ p[1] }}"}},
	{"", "ab", map[string]string{"home": "@component('c', {p: {q: %a}}){{ %b }}", "c": "{{ p.q }}"}},
	{"", "aba", map[string]string{"home": "@component('c', {p: %a})@slot{{ %b }}@end@end", "c": "{{ p }}@slot{{ p }}"}},
	{"", "b", map[string]string{"home": "@component('c')@slot('s'){{ %b }}@end@end", "c": "@slot('s')"}},
	{"", "ba", map[string]string{"home": "{{ v = %a }}@component('c', {p: v}){{ v }}", "c": "{{ %b }}"}},
	{"", "ab", map[string]string{"home": "@use('~l')@insert('x')@component('c', {p: %a})@end", "layouts/l": "@reserve('x')", "c": "{{ p + %b }}"}},
	{"", "abab", map[string]string{"home": "@each(x in [%a, %b])@component('c', {p: x})@end@each(x in [%a, %b])@component('c', {p: x})@end", "c": "{{ p }}"}},
}

// c10RawCtxs call raw themselves.
var c10RawCtxs = []c10Ctx{
	{"{{ %a.raw() }}", "a", nil},
	{"{{ (%a + %b).raw() }}", "ab", nil},
	{"{{ v = %a; v.raw() }}", "a", nil},
	{"{{ v = %a; v = v + %b; v.raw() }}", "ab", nil},
	{"{{ [%a, %b][1].raw() }}", "b", nil},
	{"{{ {k: %a}.k.raw() }}", "a", nil},
	{"@each(x in [%a, %b]){{ x.raw() }}@end", "ab", nil},
	{"{{ [%a, %b].join('-').raw() }}", "a-b", nil},
	{"{{ (true ? %a : %b).raw() }}", "a", nil},
	{"{{ %a.repeat(2).raw() }}", "aa", nil},
	{"", "a", map[string]string{"home": "@use('~l')@insert('x', %a.raw())", "layouts/l": "@reserve('x')"}},
	{"", "ab", map[string]string{"home": "@component('c', {p: %a, q: %b})", "c": "{{ p.raw() }}{{ q.raw() }}"}},
	{"", "a", map[string]string{"home": "@component('c', {p: %a.raw()})", "c": "{{ p }}"}},
	{"", "b", map[string]string{"home": "@component('c')@slot('s'){{ %b.raw() }}@end@end", "c": "@slot('s')"}},
}

func (c c10Case) ctx() c10Ctx {
	if c.Ctx >= len(c10Ctxs) {
		return c10RawCtxs[c.Ctx-len(c10Ctxs)]
	}
	return c10Ctxs[c.Ctx]
}

func c10Quote(s []byte, q string) string {
	return q + strings.ReplaceAll(string(s), q, `\`+q) + q
}

func judge10(c c10Case) core.Verdict {
	x := c.ctx()
	raw := c.Raw || c.Ctx >= len(c10Ctxs)
	a, b := c10Quote(c.A, c.QA), c10Quote(c.B, c.QB)
	if c.Raw {
		a, b = a+".raw()", b+".raw()"
	}
	fill := strings.NewReplacer("%a", a, "%b", b)
	want := strings.NewReplacer("a", string(c.A), "b", string(c.B)).Replace(x.out)
	if x.out == "?" { // the loop is not entered for the empty string
		want = string(c.A)
	}
	var out, src string
	var err error
	if x.files != nil {
		f := map[string]string{}
		for n, s := range x.files {
			f[n+".tw"] = fill.Replace(s)
		}
		src = files(f)
		writeTree("t", f)
		tpl, lerr := load("t", ".tw", false)
		if lerr != nil {
			return core.Failf("loading failed: %v\n%s", lerr, src)
		}
		o, ferr := tpl.String("home", map[string]any{"d": "-"})
		if out = o; ferr != nil {
			err = ferr.Error()
		}
	} else {
		src = fill.Replace(x.src)
		out, err = textwire.EvaluateString(src, map[string]any{"d": "-"})
		src = fmt.Sprintf("%q", src)
	}
	if err != nil {
		return core.Failf("unexpected error %q\nsource: %s", err, src)
	}
	if raw {
		if out != want {
			return core.Failf("raw() gives %q, the literal is %q\nsource: %s", out, want, src)
		}
	} else {
		special := strings.Count(want, "&") + strings.Count(want, "<") + strings.Count(want, ">")
		switch {
		case strings.ContainsAny(out, "<>"):
			return core.Failf("raw < or > in the output %q\nsource: %s", out, src)
		case html.UnescapeString(out) != want:
			return core.Failf("the output %q unescapes to %q, not to %q\nsource: %s", out, html.UnescapeString(out), want, src)
		case strings.Count(out, "&") != special:
			return core.Failf("the output %q has %d entities, not %d\nsource: %s", out, strings.Count(out, "&"), special, src)
		case strings.Count(out, `"`) != strings.Count(want, `"`) || strings.Count(out, "'") != strings.Count(want, "'"):
			return core.Failf("the output %q changes quotes of %q\nsource: %s", out, want, src)
		}
	}
	cls := "escaped"
	if raw {
		cls = "raw"
	}
	return core.OK(strings.ContainsAny(want, "<>&\"'\\"), cls)
}

var c10Pieces = []string{"<", ">", "&", ";", "#", `"`, "'", `\`, "a", "é", "&lt;", "&amp;", "&#34;", "&quot;", "&#39;", "lt;", "amp;", " ", "\n", "{{", "}}", "@if(", "&lt", "&#x3c;", "日", "&copy;", "34;", "<b>"}
var c10More = append([]string{"&amp;lt;", "&notin", "&AMP", "&#0;", "&nbsp;", "\x00", "\r\n", "\t", "😀", "\xff", "quot;", "39;", "&&", "</script>", "x=\"1\"", "{", "}", "%", "$1", "--}}", "{{--", "1", "&#", "&;", "&#;", "&#x;", "&#60", "\\'", "\\\"", "\\n", "\u2028", "&gt;"}, c10Pieces...)

func c10Enum(th bool, yield func(func() c10Case)) {
	n := 3
	if th {
		n = 4
	}
	all := len(c10Ctxs) + len(c10RawCtxs)
	turn := 0
	emit := func(a, b string, ctx int, raw bool, q int) {
		if !quotable(a) || !quotable(b) {
			return
		}
		if (ctx == 20) && a == "" {
			return // the loop does not run
		}
		yield(func() c10Case {
			qs := []string{`"`, "'"}
			return c10Case{A: []byte(a), B: []byte(b), QA: qs[q&1], QB: qs[q>>1&1], Ctx: ctx, Raw: raw}
		})
	}
	others := append([]string{""}, c10Pieces...)
	for i := 0; i <= n; i++ {
		strs(c10Pieces, i, func(s string) {
			if !quotable(s) {
				return
			}
			if i <= 1 {
				for ctx := 0; ctx < all; ctx++ {
					for q := 0; q < 4; q++ {
						for _, raw := range []bool{false, true} {
							if raw && ctx >= len(c10Ctxs) {
								continue
							}
							turn++
							emit(s, others[turn%len(others)], ctx, raw, q)
							emit(others[turn%len(others)], s, ctx, raw, q)
						}
					}
				}
				return
			}
			reps := 8
			if i > 2 {
				reps = 1
			}
			for r := 0; r < reps; r++ {
				turn++
				ctx := turn % all
				if i > 2 && turn%4 > 0 {
					ctx = turn % 36 // without files
				}
				emit(s, others[turn%len(others)], ctx, turn%3 == 0 && ctx < len(c10Ctxs), turn>>1)
			}
			for q := 0; q < 2; q++ {
				emit(s, "", 0, false, q)
				emit(s, "", 0, true, q)
			}
		})
	}
	for i := 1; i <= 2; i++ {
		strs(c10More, i, func(s string) {
			for q := 0; q < 2; q++ {
				emit(s, s, 1, false, q*3)
				emit(s, s, 2, true, q*3)
				emit(s, s, 12, false, q*3)
			}
		})
	}
	for x := 0; x < 256; x++ {
		for _, w := range []string{"%", "<%>", "&%;", "%&", "%&lt;", "\\%x"} {
			s := strings.ReplaceAll(w, "%", string([]byte{byte(x)}))
			for q := 0; q < 4; q++ {
				emit(s, "", 0, false, q)
				emit(s, "", 0, true, q)
				emit(s, s, 2, q > 1, q)
			}
		}
	}
}

func init() {
	register(&core.Prop{ID: "C10", Level: "exploration", Families: []core.Family{
		core.New(core.Fam[c10Case]{
			Name:  "literals",
			Rule:  "exhaustive: every literal of up to 3 (thorough 4) of 28 pieces (specials, quotes, backslash, entities whole and cut, UTF-8) in both quote styles, up to 1 piece in all 50 contexts and 14 raw() contexts, with raw() on the literals too; pairs of 60 pieces; every byte next to specials; non-trivial: the literals hold < > & quotes or backslashes",
			Enum:  c10Enum,
			Judge: judge10,
		}),
		core.New(core.Fam[c10Case]{
			Name: "random",
			Rule: "random pairs of literals of up to 12 pieces in random contexts; non-trivial: the literals hold < > & quotes or backslashes",
			Gen: func(r *rapid.T) c10Case {
				g := gen.New(r)
				lit := func() []byte {
					s := ""
					for i, n := 0, g.N(13); i < n; i++ {
						s += gen.Pick(g, c10More)
					}
					if g.N(10) == 9 {
						s += string(rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(r, "bytes"))
					}
					if !quotable(s) {
						s += "x"
					}
					return []byte(s)
				}
				qs := []string{`"`, "'"}
				c := c10Case{A: lit(), B: lit(), QA: gen.Pick(g, qs), QB: gen.Pick(g, qs), Ctx: g.N(len(c10Ctxs) + len(c10RawCtxs)), Raw: g.N(3) == 2}
				if c.Ctx >= len(c10Ctxs) {
					c.Raw = false
				}
				if c.Ctx == 20 && len(c.A) == 0 {
					c.Ctx = 0
				}
				return c
			}, Quick: 400000, Thorough: 4000000,
			Judge: judge10,
		}),
		core.New(core.Fam[*Case10]{
			Name: "templates",
			Rule: "random valid templates with literals of specials and entities at any place, against the reference; non-trivial: the reference defines the result",
			Gen:  c10Template, Quick: 200000, Thorough: 2000000,
			Judge: func(c *Case10) core.Verdict {
				ref, d := judgeCase(c, &lang.Interp{})
				return verdict(d, !ref.Unspec, class(ref))
			},
		}),
	}, Assumptions: []string{
		"a literal that ends in a backslash cannot be written",
		"keys of object literals and the results of functions other than raw, repeat, join, append, prepend, reverse (of arrays) and then are not judged",
	}})
}

// Case10 is a plain template.
type Case10 = Case

// c10Template draws a template and puts specials into its printed literals.
func c10Template(r *rapid.T) *Case {
	c := blockGen(nil, 3, 4, 20, func(g *gen.G) { g.Calls = false; g.Faults = 0 })(r)
	g := gen.New(r)
	lit := func() *lang.E {
		s := ""
		for i, n := 0, 1+g.N(5); i < n; i++ {
			s += gen.Pick(g, c10Pieces)
		}
		if !quotable(s) {
			s += "."
		}
		return lang.Str(s)
	}
	lang.Walk(c.Prog, func(s *lang.S) {
		if s.K != "code" {
			return
		}
		for i, p := range s.P {
			if p.N == "" && g.N(2) == 1 {
				e := lit()
				switch g.N(5) {
				case 0:
					e = lang.Bin("+", e, lit())
				case 1:
					e = lang.Arr(e, p.E)
				case 2:
					e = lang.Idx(lang.Arr(p.E, e), lang.Int("1"))
				case 3:
					e = lang.Call(e, "raw")
				}
				s.P[i].E = e
			}
		}
	}, nil)
	return c
}
