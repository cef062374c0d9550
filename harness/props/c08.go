package props

import (
	"fmt"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/lexer"
	"github.com/textwire/textwire/v2/parser"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// c08Case is a source; Reject tells why it is known to be wrong, Accept that it
// is known to be right.
type c08Case struct {
	Src    []byte `json:"src"`
	Txt    string `json:"txt"`
	Reject string `json:"reject,omitempty"`
	Accept bool   `json:"accept,omitempty"`
	// As is the place of the source: a page, layout or component file.
	As string `json:"as,omitempty"`
}

func c08Of(s string) c08Case { return c08Case{Src: []byte(s), Txt: fmt.Sprintf("%.2000q", s)} }

// parse08 parses and checks that there is a program or there are errors.
func parse08(src string) (errs int, fail string) {
	p := parser.New(lexer.New(src), "")
	prog := p.ParseProgram()
	errors := p.Errors()
	if p.HasErrors() != (len(errors) > 0) {
		return 0, fmt.Sprintf("HasErrors is %v with %d errors", p.HasErrors(), len(errors))
	}
	if len(errors) == 0 && prog == nil {
		return 0, "neither a program nor an error"
	}
	lines := strings.Count(src, "\n") + 1
	for _, e := range errors {
		if e == nil {
			return 0, "a nil error"
		}
		if e.Line() < 1 || int(e.Line()) > lines {
			return 0, fmt.Sprintf("the error %q has line %d of a source of %d lines", e.String(), e.Line(), lines)
		}
		if e.Message() == "" {
			return 0, "an error without a message"
		}
	}
	return len(errors), ""
}

func judge08(c c08Case) core.Verdict {
	src := string(c.Src)
	if len(src) > 1<<20 {
		// the text is kept short in the message
		c.Txt = c.Txt[:200]
	}
	n, bad := parse08(src)
	if bad != "" {
		return core.Failf("%s\nsource: %s", bad, c.Txt)
	}
	if n == 0 && c.Reject != "" {
		return core.Failf("accepted, but %s\nsource: %s", c.Reject, c.Txt)
	}
	if n > 0 && c.Accept {
		return core.Failf("a valid template is rejected: %s\nsource: %s", parser08(src), c.Txt)
	}
	if n == 0 {
		if _, open := scanAll(src); open != "" {
			return core.Failf("accepted with %s\nsource: %s", open, c.Txt)
		}
		return core.OK(len(src) > 0, "program")
	}
	out, err := textwire.EvaluateString(src, nil)
	if err == nil {
		return core.Failf("the parser reports errors, EvaluateString gives %q\nsource: %s", out, c.Txt)
	}
	if e, ok := parseErr(err); !ok || e.Line < 1 || e.Line > strings.Count(src, "\n")+1 || out != "" {
		return core.Failf("EvaluateString gives output %q and error %q\nsource: %s", out, err, c.Txt)
	}
	cls := "error"
	if c.Reject != "" {
		cls = "rejected: " + strings.SplitN(c.Reject, ":", 2)[0]
	}
	return core.OK(true, cls)
}

func parser08(src string) string {
	p := parser.New(lexer.New(src), "")
	p.ParseProgram()
	return p.Errors()[0].String()
}

// judge08File loads the source as a file of a template directory.
func judge08File(c c08Case) core.Verdict {
	src := string(c.Src)
	n, bad := parse08(src)
	if bad != "" {
		return core.Failf("%s\nsource: %s", bad, c.Txt)
	}
	f := map[string]string{"home.tw": "@use('~main')\n@insert('a', 1)\n@component('~card')", "layouts/main.tw": "@reserve('a')", "components/card.tw": "card"}
	switch c.As {
	case "layout":
		f["layouts/main.tw"] = src
		if len(src)%2 == 1 {
			f["home.tw"] = "@use('~main')"
		}
	case "component":
		f["components/card.tw"] = src
	case "nested":
		f["home.tw"] = "@component('~card')\n@slot('a')\nx\n@end\n@end"
		f["components/card.tw"] = src
	default:
		f["home.tw"] = src
	}
	writeTree("t", f)
	tpl, err := load("t", ".tw", false)
	if (tpl == nil) != (err != nil) {
		return core.Failf("NewTemplate gives %v and error %v\nsource (%s): %s", tpl, err, c.As, c.Txt)
	}
	if err == nil {
		if n > 0 {
			return core.Failf("the parser reports errors, NewTemplate does not\nsource (%s): %s", c.As, c.Txt)
		}
		return core.OK(true, c.As+" loaded")
	}
	e, ok := parseErr(err)
	if !ok {
		return core.Failf("NewTemplate gives the error %q, which has no line\nsource (%s): %s", err, c.As, c.Txt)
	}
	if n > 0 && (e.Line < 1 || e.Line > strings.Count(src, "\n")+1) {
		return core.Failf("NewTemplate gives the error %q with a line that does not exist\nsource (%s): %s", err, c.As, c.Txt)
	}
	return core.OK(true, c.As+" refused")
}

// c08Illegal are the characters that no token has.
var c08Illegal = []string{"#", "$", "&", "|", "^", "~", "`", "\\", "é", "日", "\x00", "\x01", "\xff", "\u00a0", "@", "😀", "\v", "\f", "\u2028", "\xc3"}

// cuts are the prefixes of a printed template that end inside a statement.
func cuts(prog []*S, src string, at []int, f func(end int, why string)) {
	mask := scan(src)
	for i, s := range prog {
		a, b := at[i], len(src)
		if i+1 < len(at) {
			b = at[i+1]
		}
		min := 2
		switch s.K {
		case "text", "slot", "break", "cont":
			if s.K != "slot" || s.S == "" {
				continue
			}
			min = len("@slot(")
		case "comment":
			min = 4
		case "code":
		default:
			k := keyword(src[a:])
			min = 1 + len(k)
		}
		// the part between the arguments and the slots of a component may end there
		okFrom, okTo := -1, -1
		if s.K == "comp" && len(s.Br) > 0 {
			j := a + 1
			for j < b && mask[j] == mKeyword {
				j++
			}
			for j < b && mask[j] != mText && mask[j] != mKeyword {
				j++
			}
			okFrom = j
			for j < b && mask[j] != mKeyword {
				j++
			}
			okTo = j + len("@slot") - 1
		}
		for c := a + min; c < b; c++ {
			if c >= okFrom && c <= okTo {
				continue
			}
			why := "it ends inside of " + s.K
			switch mask[c-1] {
			case mComment:
				why = "unclosed comment: " + why
			case mString:
				why = "unclosed string or code: " + why
			case mText:
				why = "unclosed block: " + why
			default:
				why = "unclosed code or arguments: " + why
			}
			f(c, why)
		}
	}
}

var c08Valid = []string{
	"{{ a }}", "{{ a = 1; b = a + 2; b }}", "{{ {a: 1, 'b c': [1, 2, {}], d} }}", "{{ \"x\" + 'y' }}", "{{ a ? b : c }}", "{{ x.y.z(1, 'a')[2].w }}", "{{ -1 + !b }}", "{{ n++ }}", "{{ n-- }}",
	"@if(a)x@end", "@if(a)x@elseif(b)y@else z@end", "@each(v in [1, 2])x@end", "@each(v in list)@breakIf(v)@continueIf(!v)@else e@end",
	"@for(i = 0; i < 3; i++)x@end", "@for(;;)@break@end", "@for(i = 0; ; )@continue@end", "@for(;;)x@else y@end", "@use('~main')@insert('a', 1)@insert('b')x@end", "@reserve('a')", "@component('~c')",
	"@component('~c', {a: 1})", "@component('~c')\n@slot\nx@end\n@slot('f')y@end\n@end", "@slot", "@slot('x')", "@dump(a, {b: 1})", "{{-- c --}}", "\\{{ a }}", "\\@if(x)",
	"<p>@if(a){{ a.b(\"}}\") }}@end</p>\n", "{{ [1, [2, [3]]][0][1] }}", "{{ ((1)) }}", "@if(x.f({a: {b: 1}}))x@end", "{{ 'a\\'b' }}",
}

var c08Syntax = []string{"", "{{", "}}", "@if(", "@if", "@elseif(1)", "@else", "@end", "@for(", "@each(", "@each(v in ", ")", "(", "@break", "@breakIf(", "@continue", "@use('a')", "@insert('a'", "@insert('a')", "@reserve('r')", "@component('~card'", "@component('~card')",
	"@slot", "@slot('a')", "@dump(", "{{--", "--}}", ";", ",", "a", "1", "'s'", "{", "}", "[", "]", ":", "=", "==", "+", "-", "!", "?", ".", "++", "in", "a: 1", "x = 2", "\n", " "}

var c08Small = []string{"{{", "}}", "@if(1)", "@else", "@end", "@for(", "@each(v in", ")", "(", ";", ",", "a", "1", "{", "}", "[", "]", ":", "=", "-", "?", ".", "++", "'s'", "@slot", "@slot('a')", "@component('c'", "@insert('a'"}

// c08Deep are repetitions of openers.
var c08Deep = []struct{ pre, rep, mid, end string }{
	{"{{ ", "(", "1", ")"}, {"{{ ", "[", "", "]"}, {"{{ ", "{a:", "1", "}"}, {"{{ ", "-", "1", ""}, {"{{ ", "- ", "1", ""}, {"{{ ", "!", "1", ""}, {"{{ ", "1 + ", "1", ""}, {"{{ 1", "++", "", ""}, {"{{ a", ".b", "", ""}, {"{{ a", ".b()", "", ""}, {"{{ a", "[b", "", "]"},
	{"{{ ", "a ? ", "1", ": 1"}, {"{{ ", "a ? 1 : ", "1", ""}, {"{{ a", ".f(a", "", ")"}, {"", "@if(1)", "x", "@end"}, {"", "@each(a in b)", "", "@end"}, {"", "@for(;;)", "", "@end"}, {"@if(1)", "@elseif(1)", "", ""}, {"@if(1)", "@else", "", ""},
	{"", "@component('c')@slot", "", "@end@end"}, {"", "@component('c')", "", ""}, {"", "@insert('a')", "", "@end"}, {"", "@dump(", "1", ")"}, {"", "{{ a }}", "", ""}, {"{{ ", "a;", "a", ""}, {"", "{{--", "", "--}}"}, {"", "{{", "", "}}"}, {"", "\\{{", "", ""}, {"", "@", "", ""}, {"", "\\", "", ""},
	{"{{ '", "\\'", "", ""}, {"{{ '", "\\", "", ""}, {"", "}}", "", ""}, {"", "@end", "", ""}, {"{{ ", ")", "", ""}, {"{{ [", "1,", "1]", ""}, {"{{ ", "9", "", ""}, {"{{ ", "1.", "", ""}, {"{{ ", "#", "", ""}, {"", "@break", "", ""}, {"", "@slot('a')", "", "@end"}, {"{{ {", "a,", "a}", ""}, {"", "\n", "", ""}, {"{{ ", "a = ", "1", ""}, {"@insert(", "(", "", ""}, {"@for(", ";", "", ""}, {"", "@reserve('a')", "", ""}, {"", "@use('a')", "", ""}, {"@component('c')", "@slot", "", "@end"}, {"@component('c')", "@slot('a')x@end", "", ""}, {"", "é", "", ""}, {"{{ ", "é", "", ""}, {"", "{", "", "}"}}

func c08Enum(th bool, yield func(func() c08Case)) {
	emit := func(s string) { yield(func() c08Case { return c08Of(s) }) }
	n, m, k := 2, 3, 3
	if th {
		n, m, k = 3, 4, 4
	}
	for i := 0; i <= n; i++ {
		strs(lexemes, i, func(s string) {
			emit(s)
			emit("{{ " + s + " }}x")
			emit("@if(" + s + ")x@end")
			emit("{{ {a: " + s)
			if i < 3 {
				for _, w := range []string{"@each(v in %)y@end", "@for(%;%;%)y@end", "@for(i = 0; i < 2; %)y@end", "@component('c', %)", "@component('c')%@end", "@insert('a', %)", "@insert('a')%@end", "{{ x[%] }}", "{{ [%] }}", "{{ x.f(%) }}", "{{ x.% }}", "{{ {%} }}", "{{ x = % }}", "{{ x ? % : y }}", "{{ %; 1 }}", "@dump(%)", "@if(1)%", "@component('c')@slot('s')%", "@use(%)", "@reserve(%)", "@slot(%)", "@breakIf(%)", "{{-- %", "{{ 'a%"} {
					emit(strings.ReplaceAll(w, "%", s))
				}
			}
		})
	}
	for i := 0; i <= m; i++ {
		strs(c08Syntax, i, func(s string) {
			emit(s)
			if i < 3 {
				emit("{{ " + s)
			}
		})
	}
	for i := 3; i <= k; i++ {
		strs(c08Small, i, func(s string) {
			emit("{{ " + s)
			emit("@if(" + s)
			emit("@if(1)" + s)
		})
	}
	// every byte at every place of every valid template; every prefix
	for _, v := range c08Valid {
		yield(func() c08Case { c := c08Of(v); c.Accept = true; return c })
		mask := scan(v)
		for i := 0; i <= len(v); i++ {
			emit(v[:i])
			emit(v[i:])
			if i < len(v) {
				emit(v[:i] + v[i+1:])
				emit(v[:i] + v[i:i+1] + v[i:])
			}
			for j := i + 1; j <= len(v); j++ {
				emit(v[:i] + v[j:])
			}
			for b := 0; b < 256; b++ {
				emit(v[:i] + string([]byte{byte(b)}) + v[i:])
			}
			if i > 0 && i < len(v) && mask[i-1] == mCode && mask[i] == mCode {
				for _, x := range c08Illegal {
					yield(func() c08Case {
						c := c08Of(v[:i] + x + v[i:])
						c.Reject = fmt.Sprintf("illegal character: %q", x)
						return c
					})
				}
			}
			for _, x := range c08Syntax {
				emit(v[:i] + x + v[i:])
			}
		}
	}
	sizes := []int{50, 1000, 30000}
	if th {
		sizes = append(sizes, 300000, 3000000)
	}
	for i, d := range c08Deep {
		// so deep that a recursion without a limit overflows the stack
		if !th && (i < 17 && i != 3 || i == 21) {
			yield(func() c08Case { return c08Of(d.pre + strings.Repeat(d.rep, 2500000)) })
		}
		for _, n := range sizes {
			yield(func() c08Case { return c08Of(d.pre + strings.Repeat(d.rep, n)) })
			yield(func() c08Case { return c08Of(d.pre + strings.Repeat(d.rep, n) + d.mid) })
			yield(func() c08Case {
				s := d.pre + strings.Repeat(d.rep, n) + d.mid + strings.Repeat(d.end, n)
				if strings.HasPrefix(d.pre, "{{") {
					s += " }}"
				}
				return c08Of(s)
			})
		}
	}
}

// valid08 draws a valid template, of a page, layout or component.
func valid08(r *rapid.T) (*G08, []*S) {
	g := gen.New(r)
	g.Budget(20)
	names := 0
	name := func(p string) string { names++; return p + itoa(names) }
	g.Extra, g.ExtraW = func(g *gen.G, depth int) []*S {
		switch g.N(6) {
		case 0:
			return []*S{{K: "reserve", S: name("r")}}
		case 1:
			return []*S{Text("."), {K: "slot", S: gen.Pick(g, []string{"", "a b"})}}
		case 2:
			return []*S{{K: "insert", S: name("i"), B: g.Block(1, 2)}}
		case 3:
			return []*S{{K: "insert", S: name("j"), X: []*E{g.Expr(gen.TInt, 1)}}}
		}
		return []*S{Comment(" c\n")}
	}, 4
	g.Comps = []gen.Comp{{Name: "~card", Args: map[string]*gen.T{"v": gen.TInt}, Slots: []string{"", "foot"}}, {Name: "btn"}}
	g.Wt = map[string]int{"comp": 4}
	g.Data()
	var prog []*S
	for len(prog) < 2 {
		prog = append(prog, g.Stmt(3)...)
	}
	if g.N(4) == 3 {
		prog = append([]*S{{K: "use", S: "~main"}}, prog...)
	}
	l := &Layout{B: g.Layout()}
	src, at := PrintTop(prog, l)
	return &G08{g, src, at}, prog
}

type G08 struct {
	*gen.G
	src string
	at  []int
}

func c08Mutate(r *rapid.T) c08Case {
	g, prog := valid08(r)
	src := g.src
	if !LiteralsOK(prog) {
		return c08Of(src)
	}
	switch k := g.N(12); k {
	case 0:
		c := c08Of(src)
		c.Accept = true
		return c
	case 1, 2, 3, 4:
		type cut struct {
			end int
			why string
		}
		var all []cut
		cuts(prog, src, g.at, func(end int, why string) { all = append(all, cut{end, why}) })
		if len(all) == 0 {
			return c08Of(src)
		}
		x := gen.Pick(g.G, all)
		c := c08Of(src[:x.end])
		c.Reject = x.why
		return c
	case 5, 6, 7:
		mask := scan(src)
		var at []int
		for i := 1; i < len(src); i++ {
			if mask[i-1] == mCode && mask[i] == mCode {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return c08Of(src)
		}
		i := gen.Pick(g.G, at)
		x := gen.Pick(g.G, c08Illegal)
		c := c08Of(src[:i] + x + src[i:])
		c.Reject = fmt.Sprintf("illegal character: %q", x)
		return c
	}
	toks := lex(src)
	for i, n := 0, 1+g.N(3); i < n && len(toks) > 1; i++ {
		a, b := g.N(len(toks)), g.N(len(toks))
		switch g.N(5) {
		case 0:
			toks = append(toks[:a:a], toks[a+1:]...)
		case 1:
			toks = append(toks[:a:a], append([]string{toks[a]}, toks[a:]...)...)
		case 2:
			toks[a], toks[b] = toks[b], toks[a]
		case 3:
			toks[a] = gen.Pick(g.G, lexemes)
		case 4:
			toks = append(toks[:a:a], append([]string{gen.Pick(g.G, c08Syntax)}, toks[a:]...)...)
		}
	}
	return c08Of(strings.Join(toks, gen.Pick(g.G, []string{" ", ""})))
}

func judgePrefixes(c *Case) core.Verdict {
	src, at := PrintTop(c.Prog, &Layout{B: c.Layout})
	why := map[int]string{}
	if LiteralsOK(c.Prog) {
		cuts(c.Prog, src, at, func(end int, w string) { why[end] = w })
	}
	for i := 0; i <= len(src); i++ {
		p := c08Of(src[:i])
		p.Reject = why[i]
		if v := judge08(p); v.Fail != "" {
			return v
		}
	}
	return core.OK(len(why) > 5, "prefixes")
}

func init() {
	register(&core.Prop{ID: "C08", Level: "exploration", Families: []core.Family{
		core.New(core.Fam[c08Case]{
			Name:  "sequences",
			Rule:  "exhaustive: every sequence of up to 2 (thorough 3) of 75 lexemes bare and inside {{ }}, @if(), an open object, and 23 other surroundings, up to 3 (4) of 47 syntax pieces, up to 3 (4) of 28 pieces inside open code, arguments and blocks; every byte inserted at every place of 33 valid templates, every substring deleted, every illegal character at every place of their code; 50 kinds of nesting and repetition up to 30000, nesting up to 2500000 (3000000); non-trivial: not empty",
			Enum:  c08Enum,
			Judge: judge08,
		}),
		core.New(core.Fam[c08Case]{
			Name: "mutations",
			Rule: "random valid templates and what comes of them: prefixes that end inside a statement and illegal characters in code (both must be rejected), tokens deleted, duplicated, swapped, replaced; non-trivial: not empty",
			Gen:  c08Mutate, Quick: 120000, Thorough: 4000000,
			Judge: judge08,
		}),
		core.New(core.Fam[*Case]{
			Name: "prefixes",
			Rule: "every prefix of random valid templates; those that end inside a statement must be rejected, those between statements accepted; non-trivial: at least 5 prefixes",
			Gen: func(r *rapid.T) *Case {
				g, prog := valid08(r)
				return &Case{Prog: prog, Layout: g.Layout()}
			}, Quick: 4000, Thorough: 150000,
			Judge: judgePrefixes,
		}),
		core.New(core.Fam[c08Case]{
			Name: "soup",
			Rule: "random sequences of up to 40 lexemes and bytes; non-trivial: not empty",
			Gen:  func(r *rapid.T) c08Case { return c08Of(lexSoup(r, 40)) }, Quick: 100000, Thorough: 3000000,
			Judge: judge08,
		}),
		core.New(core.Fam[c08Case]{
			Name: "files",
			Rule: "mutated templates and soups as the page, layout or component file of a directory; non-trivial: all",
			Enum: func(th bool, yield func(func() c08Case)) {
				for _, as := range []string{"page", "layout", "component", "nested"} {
					emit := func(s string) {
						yield(func() c08Case { c := c08Of(s); c.As = as; return c })
					}
					for _, v := range c08Valid {
						for i := 0; i <= len(v); i++ {
							emit(v[:i])
							emit(v[i:])
						}
					}
					n := 1
					if th {
						n = 2
					}
					for i := 1; i <= n; i++ {
						strs(lexemes, i, emit)
						strs(c08Syntax, i, emit)
					}
				}
			},
			Gen: func(r *rapid.T) c08Case {
				var c c08Case
				if rapid.Bool().Draw(r, "soup") {
					c = c08Of(lexSoup(r, 20))
				} else {
					c = c08Mutate(r)
					c.Accept, c.Reject = false, ""
				}
				c.As = rapid.SampledFrom([]string{"page", "layout", "component", "nested"}).Draw(r, "as")
				return c
			}, Quick: 30000, Thorough: 600000,
			Judge: judge08File,
		}),
	}, Assumptions: []string{
		"a prefix that ends between two statements, or in the text of the top level, is a template of its own and need not be rejected",
		"a case must end within 15 s of wall time in a busy process, or 20 s of processor time alone",
	}})
}
