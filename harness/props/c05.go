package props

import (
	"fmt"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
)

// c05Case is the source of a template.
type c05Case struct {
	Src []byte `json:"src"`
	Txt string `json:"txt"` // the same, readable
}

func newC05(s string) c05Case { return c05Case{[]byte(s), fmt.Sprintf("%q", s)} }

// c05Code are blocks whose output is known.
var c05Code = []struct{ src, out string }{
	{"{{ 1 }}", "1"},
	{`{{"a"}}`, "a"},
	{`{{ '}}' }}`, "}}"},
	{`{{ "x{{" }}`, "x{{"},
	{"{{ {a: {b: 2}}.a.b }}", "2"},
	{"{{ v = 1; v }}", "1"},
	{`{{ "@if(true)" }}`, "@if(true)"},
	{`{{ "--}}" }}`, "--}}"},
	{"{{\n3\n}}", "3"},
	{`{{ "\"" }}`, `"`},
	{"{{ [{}, 4][1] }}", "4"},
}

// c05Dirs open or close a block.
var c05Dirs = []struct {
	src  string
	kind byte // 'b' begin, 'e' end, '|' else
	n    int  // passes, for begin
}{
	{"@if(true)", 'b', 1},
	{"@if(false)", 'b', 0},
	{"@if({a: [1, (2)]}.a[0] == 1)", 'b', 1},
	{`@if(")" == ")")`, 'b', 1},
	{"@each(q in [7, 8])", 'b', 2},
	{"@for(i = 0; i < 3; i++)", 'b', 3},
	{"@each(\nq in []\n)", 'b', 0},
	{"@end", 'e', 0},
	{"@else", '|', 0},
}

var keywords = []string{"if", "elseif", "else", "end", "use", "reserve", "insert", "for", "each", "continueIf", "continue", "breakIf", "break", "component", "slot", "dump"}

// keyword returns the longest directive keyword at the start of s.
func keyword(s string) string {
	if len(s) == 0 || s[0] != '@' {
		return ""
	}
	best := ""
	for _, k := range keywords {
		if strings.HasPrefix(s[1:], k) && len(k) > len(best) {
			best = k
		}
	}
	return best
}

// oracle05 scans a template that consists of text, escapes, comments and the
// known blocks. What it cannot judge it leaves out.
type oracle05 struct {
	src                             string
	pos                             int
	skip, unclosed                  bool
	escapes, comments, blocks, code int
}

// seq scans to the end, or to the directive that ends the block.
func (o *oracle05) seq(depth int) (out string, ended byte) {
	var b strings.Builder
	for o.pos < len(o.src) && !o.skip && !o.unclosed {
		s := o.src[o.pos:]
		switch {
		case strings.HasPrefix(s, `\{{`):
			if strings.HasPrefix(s, `\{{{{`) {
				o.skip = true // is it an escape, or an escape and a block?
				return
			}
			b.WriteString("{{")
			o.pos += 3
			o.escapes++
		case s[0] == '\\' && keyword(s[1:]) != "":
			b.WriteString("@" + keyword(s[1:]))
			o.pos += 2 + len(keyword(s[1:]))
			o.escapes++
		case strings.HasPrefix(s, "{{--"):
			rest := s[4:]
			if strings.HasPrefix(rest, "}}") || strings.HasPrefix(rest, "-}}") {
				o.skip = true // the dashes could belong to both ends
				return
			}
			i := strings.Index(rest, "--}}")
			if i < 0 {
				o.unclosed = true
				return
			}
			o.pos += 4 + i + 4
			o.comments++
		case strings.HasPrefix(s, "{{"):
			found := false
			for _, c := range c05Code {
				if strings.HasPrefix(s, c.src) {
					b.WriteString(c.out)
					o.pos += len(c.src)
					o.code++
					found = true
					break
				}
			}
			if !found {
				o.skip = true
				return
			}
		case keyword(s) != "":
			found := false
			for _, d := range c05Dirs {
				if !strings.HasPrefix(s, d.src) {
					continue
				}
				if d.src == "@else" && keyword(s) != "else" {
					break
				}
				found = true
				o.pos += len(d.src)
				if d.kind != 'b' {
					if depth == 0 {
						o.skip = true
					}
					return b.String(), d.kind
				}
				o.blocks++
				body, e := o.seq(depth + 1)
				other := ""
				if e == '|' {
					other, e = o.seq(depth + 1)
				}
				if e != 'e' {
					o.skip = o.skip || !o.unclosed // unterminated, or a second @else
					return
				}
				if d.n == 0 {
					b.WriteString(other)
				}
				b.WriteString(strings.Repeat(body, d.n))
				break
			}
			if !found {
				o.skip = true
				return
			}
		default:
			b.WriteByte(s[0])
			o.pos++
		}
	}
	return b.String(), 0
}

func judge05(c c05Case) core.Verdict { return judgeText05(string(c.Src), fmt.Sprintf("%q", c.Src)) }

func judgeRope05(c rope) core.Verdict { return judgeText05(c.String(), c.show()) }

// c05Lead are texts that are repeated to a length.
var c05Lead = []string{"x", "\n", " ", "é", "{", "@", "-", "\\", "a{", "@brea ", "\r\n", "\x00", "日", "abc\n", "\\{{", "\\@end", "{{ 1 }}", "{{-- c --}}", "@if(true)y@end", "\"", "(", "}}"}

// c05Tail follow them.
var c05Tail = []string{"", "x", "\\{{ a }}", "\\@end", "\\@breakIf", "{{ 1 }}", "{{-- c --}}", "{{----}}", "@if(true)y@end", "@if(false)y@end", "@each(q in [7, 8]),@end", "\\", "{", "{ {", "@", "@brea", "é", "日", "\xff", "\n", "{{-- c --}}\\{{", "{{ 1 }}\\@if", "\\@if\\@end"}

func c05Sizes(th bool, yield func(func() rope)) {
	max := 70000
	if th {
		max = 1100000
	}
	for li, lead := range c05Lead {
		for si, n := range sizes(30, max) {
			for ti, tail := range c05Tail {
				if !th && (li+si+ti)%3 != 0 && n > 1000 || !th && n > 20000 && (li+ti+si)%6 != 0 {
					continue
				}
				// lead to exactly n bytes before the tail
				yield(func() rope {
					r := rope{rep("x", n%len(lead)), rep(lead, n/len(lead)), rep(tail, 1), rep("z", 3)}
					switch (ti + si) % 8 {
					case 1: // inside a block
						r = append(append(rope{rep("@if(true)", 1)}, r...), rep("@end", 1))
					case 2: // after code
						r = append(rope{rep("{{ 1 }}", 1)}, r...)
					case 3: // after a comment of that length
						r = append(rope{rep("{{--", 1), rep("c", n), rep("--}}", 1)}, r[2:]...)
					case 4: // twice
						r = append(r, r...)
					case 5: // far from the end
						r = append(r, rep("tail ", 300))
					}
					return r
				})
			}
		}
	}
	// long comments
	for _, n := range sizes(30, max) {
		for _, in := range []string{"c", "-", "--}", "}}", "\n", "{{ ", "@if(", "\\", "'", "é"} {
			for _, post := range []string{"", "x", "\\{{", "{{ 1 }}", "-", "}"} {
				yield(func() rope {
					return rope{rep("a", 1), rep("{{-- ", 1), rep(in, n), rep(" --}}", 1), rep(post, 1)}
				})
			}
		}
	}
}

func c05Rope(r *rapid.T) rope {
	g := gen.New(r)
	var out rope
	total := 0
	open := 0
	for i, n := 0, 2+g.N(7); i < n; i++ {
		switch g.N(6) {
		case 0, 1:
			s := gen.Pick(g, c05Lead)
			n := drawSize(r, g, 1+max(0, 200000-total)/len(s))
			total += n * len(s)
			out = append(out, rep(s, n))
		case 2:
			if open < 3 {
				out = append(out, rep(gen.Pick(g, c05Dirs[:7]).src, 1))
				open++
				if total > 2000 {
					total = 200000
				}
			}
		case 3:
			if open > 0 {
				out = append(out, rep("@end", 1))
				open--
			}
		default:
			out = append(out, rep(gen.Pick(g, c05Tail), 1))
		}
	}
	if open > 0 {
		out = append(out, rep("@end", open))
	}
	return out
}

func judgeText05(src, show string) core.Verdict {
	o := &oracle05{src: src}
	want, _ := o.seq(0)
	if o.skip {
		return core.OK(false, "outside the grammar")
	}
	out, err := textwire.EvaluateString(o.src, nil)
	if o.unclosed {
		if err == nil {
			return core.Failf("an unclosed comment gave output %s\nsource: %s", short([]byte(out)), show)
		}
		return core.OK(true, "unclosed comment")
	}
	if err != nil {
		return core.Failf("expected output %s, got error %q\nsource: %s", short([]byte(want)), err, show)
	}
	if out != want {
		i := 0
		for i < len(out) && i < len(want) && out[i] == want[i] {
			i++
		}
		return core.Failf("expected output %s, got %s, which differs at byte %d\nsource: %s", short([]byte(want)), short([]byte(out)), i, show)
	}
	cls := "text"
	switch {
	case o.blocks > 0:
		cls = "text and blocks"
	case o.code > 0:
		cls = "text and code"
	case o.comments > 0:
		cls = "text and comments"
	case o.escapes > 0:
		cls = "text and escapes"
	}
	return core.OK(strings.ContainsAny(o.src, "@{}\\-"), cls)
}

var c05Small = []string{"@", "\\", "{", "}", "-", "{{--", "--}}", "if", "end", "@if(true)", "@end", "{{ 1 }}", " ", "x", "\n"}
var c05Big = append([]string{"(", ")", "\r\n", "é", "\x00", "\xff", "@else", "@elseif", "elseif", "@brea", "\\{{", "\\@if", "}}", "{{", `"`, "'", "@use", "@each(q in [7, 8])", "\\@end", "{{\"a\"}}", "user@example.com", "--", "{{-- c --}}", "@i", "break", "If", "continue", "@slot", "\t", "\\\\", "日"}, c05Small...)

func strs(alphabet []string, n int, f func(string)) {
	if n == 0 {
		f("")
		return
	}
	strs(alphabet, n-1, func(p string) {
		for _, a := range alphabet {
			f(p + a)
		}
	})
}

func c05Gen(r *rapid.T) c05Case {
	g := gen.New(r)
	var b strings.Builder
	open := 0
	for i, n := 0, 1+g.N(14); i < n; i++ {
		switch g.N(10) {
		case 0, 1, 2, 3:
			b.WriteString(gen.Pick(g, c05Big))
		case 4:
			b.WriteString(gen.Pick(g, c05Code).src)
		case 5:
			d := gen.Pick(g, c05Dirs[:7])
			b.WriteString(d.src)
			open++
		case 6:
			if open > 0 {
				b.WriteString("@end")
				open--
			}
		case 7:
			b.WriteString("\\@" + gen.Pick(g, keywords))
		case 8:
			b.WriteString("{{--")
			for j, m := 0, g.N(5); j < m; j++ {
				b.WriteString(gen.Pick(g, []string{" ", "-", "}", "}}", "{{", "@if(", "@end", "'", "\"", "\n", "x", "{{--", "é", "\\", "--}", "{{ 1 }}"}))
			}
			b.WriteString(gen.Pick(g, []string{" --}}", "--}}", "x--}}"}))
		default:
			b.Write(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(r, "bytes"))
		}
	}
	for ; open > 0; open-- {
		if g.N(4) == 3 {
			b.WriteString(gen.Pick(g, c05Big))
		}
		b.WriteString("@end")
	}
	return newC05(b.String())
}

func init() {
	register(&core.Prop{ID: "C05", Level: "exploration", Families: []core.Family{
		core.New(core.Fam[c05Case]{
			Name: "strings",
			Rule: "exhaustive: every string of up to 4 (thorough 5) lexemes of a 15 lexeme alphabet and up to 3 (thorough 4) of a 46 lexeme alphabet, every single byte and pair of bytes, every keyword and proper prefix with and without a backslash in every surrounding; non-trivial: judged and holds @ { } \\ or -",
			Enum: func(th bool, yield func(func() c05Case)) {
				n, m := 4, 3
				if th {
					n, m = 5, 4
				}
				emit := func(s string) { yield(func() c05Case { return newC05(s) }) }
				for i := 0; i <= n; i++ {
					strs(c05Small, i, emit)
				}
				for i := 1; i <= m; i++ {
					strs(c05Big, i, emit)
				}
				for a := 0; a < 256; a++ {
					emit(string([]byte{byte(a)}))
					emit("{{ 1 }}" + string([]byte{byte(a)}) + "{{ 1 }}")
					emit("@if(true)" + string([]byte{byte(a)}) + "@end")
					emit("{{-- " + string([]byte{byte(a)}) + " --}}")
					for b := 0; b < 256; b++ {
						emit(string([]byte{byte(a), byte(b)}))
					}
				}
				around := []string{"", " ", "a", "\n", "}}", "{{ 1 }}", "{{-- c --}}", "@if(true)", "é", "\\", "(", ")", "@", "{", "\x00"}
				for _, k := range keywords {
					for cut := 0; cut <= len(k); cut++ {
						for _, pre := range around {
							for _, esc := range []string{"", "\\", "\\\\"} {
								for _, post := range around {
									end := ""
									if strings.HasPrefix(pre, "@if") != strings.HasPrefix(post, "@if") {
										end = "@end"
									} else if strings.HasPrefix(pre, "@if") {
										end = "@end@end"
									}
									emit(pre + esc + "@" + k[:cut] + post + end)
								}
							}
						}
					}
				}
				for _, pre := range around {
					for _, esc := range []string{"\\{{", "\\{{ 1 }}", "\\{{-- c --}}", "\\\\{{ 1 }}", "\\{ {", "{\\{", "\\{{{", "\\{{}}", "\\ {{ 1 }}"} {
						for _, post := range around {
							if !strings.HasPrefix(pre, "@if") && !strings.HasPrefix(post, "@if") {
								emit(pre + esc + post)
							}
						}
					}
				}
			},
			Judge: judge05,
		}),
		core.New(core.Fam[c05Case]{
			Name: "random",
			Rule: "random sequences of adversarial lexemes, bytes, known blocks, escapes and comments; non-trivial: judged and holds @ { } \\ or -",
			Gen:  c05Gen, Quick: 600000, Thorough: 8000000,
			Judge: judge05,
		}),
		core.New(core.Fam[rope]{
			Name: "sizes",
			Rule: fmt.Sprintf("every one of %d texts, escapes, comments or blocks repeated to lengths within 2 of the powers of two and ten and multiples of 4096 up to 70 KB (thorough 1.1 MB), followed by each of %d lexemes, plain, in a block, after code, after a comment of that length, twice; comments of those lengths; non-trivial: judged and holds @ { } \\ or -", len(c05Lead), len(c05Tail)),
			Enum: c05Sizes, Judge: judgeRope05,
		}),
		core.New(core.Fam[rope]{
			Name: "random sizes",
			Rule: "random sequences of repeated texts, lexemes and blocks up to 200 KB; non-trivial: judged and holds @ { } \\ or -",
			Gen:  c05Rope, Quick: 3000, Thorough: 100000, Judge: judgeRope05,
		}),
	}, Assumptions: []string{
		"strings with code or directives outside a list of known blocks are left to C08",
		`\{{{{ and {{--}} / {{---}} are ambiguous and not judged`,
		"a comment inside a {{ }} block or directive arguments is not defined",
	}})
}
