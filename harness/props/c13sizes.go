package props

import (
	"strings"

	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
)

// c13Size is a fault after a long piece of a source.
type c13Size struct {
	F    int  `json:"f"`
	N    int  `json:"n"`
	Kind int  `json:"kind"`
	Site int  `json:"site"` // -1: a string
	W    int  `json:"w"`
	CRLF bool `json:"crlf,omitempty"`
}

// c13Long are pieces of about n lines or bytes. The fault can be within one.
var c13Long = []struct {
	name string
	max  int
	pre  func(n int) string
	post string
}{
	{"empty lines", 70000, func(n int) string { return strings.Repeat("\n", n) }, ""},
	{"lines of text", 70000, func(n int) string { return strings.Repeat("<p>\n", n) }, ""},
	{"a long line", 70000, func(n int) string { return "a\n" + strings.Repeat("x", n) + " " }, ""},
	{"a line of text in UTF-8", 70000, func(n int) string { return "\n\n" + strings.Repeat("é", n) + " " }, ""},
	{"a string", 70000, func(n int) string { return "{{ '" + strings.Repeat("\n", n) + "' }}" }, ""},
	{"a string of characters", 70000, func(n int) string { return "\n{{ \"" + strings.Repeat("日", n) + "\n\" }}" }, ""},
	{"strings with escaped quotes", 10000, func(n int) string { return "{{ '" + strings.Repeat("\\'\n", n) + "' }}" }, ""},
	{"a comment", 70000, func(n int) string { return "{{--" + strings.Repeat("\n", n) + "--}}" }, ""},
	{"a comment of dashes", 70000, func(n int) string { return "\n{{--" + strings.Repeat("-", n) + "\n--}}" }, ""},
	{"comments", 5000, func(n int) string { return strings.Repeat("{{-- \n --}}", n) }, ""},
	{"lines in code", 70000, func(n int) string { return "{{" + strings.Repeat("\n", n) + "1 }}" }, ""},
	{"statements", 3000, func(n int) string { return "{{ 1" + strings.Repeat(";\n 1", n) + " }}" }, ""},
	{"code blocks", 3000, func(n int) string { return strings.Repeat("{{ 1 }}\n", n) }, ""},
	{"one line of code blocks", 3000, func(n int) string { return "\n" + strings.Repeat("{{ 1 }}", n) }, ""},
	{"an array", 3000, func(n int) string { return "{{ [1" + strings.Repeat(",\n1", n) + "] }}" }, ""},
	{"an object", 3000, func(n int) string { return "{{ { a: 1" + strings.Repeat(",\na: 1", n) + "} }}" }, ""},
	{"a sum", 300, func(n int) string { return "{{ 1" + strings.Repeat("\n+ 1", n) + " }}" }, ""},
	{"calls", 300, func(n int) string { return "{{ 'a'" + strings.Repeat("\n.trim()", n) + " }}" }, ""},
	{"conditions", 3000, func(n int) string { return strings.Repeat("@if(true)\n@end", n) }, ""},
	{"branches", 1000, func(n int) string { return "@if(false)" + strings.Repeat("\n@elseif(false)", n) + "\n@end" }, ""},
	{"loops", 2000, func(n int) string { return strings.Repeat("@each(q in [1])\n{{ q }}@end", n) }, ""},
	{"escapes", 10000, func(n int) string { return strings.Repeat("\\{{\n\\@if\n", n) + " " }, ""},
	{"nested conditions", 300, func(n int) string { return strings.Repeat("@if(true)\n", n) }, "@end"},
	{"nested loops", 100, func(n int) string { return strings.Repeat("@each(q in [1])\n", n) }, "\n@end"},
	{"nested else", 300, func(n int) string { return strings.Repeat("@if(false)\n@else", n) }, "@end\n"},
	{"numbers", 3000, func(n int) string { return "{{ " + strings.Repeat("1;", n) + "\n1 }}" }, ""},
	{"names", 3000, func(n int) string { return "{{ " + strings.Repeat("n", n) + " = 1 }}\n" }, ""},
	{"carriage returns", 70000, func(n int) string { return strings.Repeat("\r", n) + "\n" }, ""},
	{"tabs", 70000, func(n int) string { return "\n" + strings.Repeat("\t", n) }, ""},
	{"tabs in code", 70000, func(n int) string { return "\n{{" + strings.Repeat("\t", n) + "1 }}" }, ""},
	// the fault itself is long: %f
	{"a long name", 3000, func(n int) string { return "\n{{ 1;\n%f" + strings.Repeat("n", n) + " }}" }, ""},
	{"a function of a long name", 3000, func(n int) string { return "\n{{ 1.\n%f" + strings.Repeat("n", n) + "() }}" }, ""},
	{"a property of a long name", 3000, func(n int) string { return "\n{{ {a: 1}\n.%f" + strings.Repeat("n", n) + " }}" }, ""},
	{"an unexpected long string", 70000, func(n int) string { return "\n{{ 1 '" + strings.Repeat("\n", n) + "%f' }}" }, ""},
	{"an unexpected long number", 3000, func(n int) string { return "\n{{ 1 %f" + strings.Repeat("7", n) + " }}" }, ""},
	{"a large number", 3000, func(n int) string { return "\n{{ %f9999999999999999999" + strings.Repeat("7", n) + " }}" }, ""},
	{"in an array", 3000, func(n int) string {
		return "{{ [1" + strings.Repeat(",\n1", n) + ",\n%fundef13" + strings.Repeat(",\n1", n) + "] }}"
	}, ""},
	{"illegal in an array", 3000, func(n int) string {
		return "{{ [1" + strings.Repeat(",\n1", n) + ",\n%f~" + strings.Repeat(",\n1", n) + "] }}"
	}, ""},
	{"in an object", 3000, func(n int) string {
		return "{{ {a: 1" + strings.Repeat(",\na: 1", n) + ",\nb: %fundef13" + strings.Repeat(",\nc: 1", n) + "} }}"
	}, ""},
	{"in a sum", 300, func(n int) string {
		return "{{ 1" + strings.Repeat("\n + 1", n) + " +\n %fundef13" + strings.Repeat("\n + 1", n) + " }}"
	}, ""},
	{"in parentheses", 300, func(n int) string {
		return "{{ " + strings.Repeat("(\n", n) + "%fundef13" + strings.Repeat("\n)", n) + " }}"
	}, ""},
	{"illegal in parentheses", 300, func(n int) string { return "{{ " + strings.Repeat("(\n", n) + "%f$" + strings.Repeat("\n)", n) + " }}" }, ""},
	{"in arguments", 600, func(n int) string {
		return "{{ [1].append(1" + strings.Repeat(",\n1", n) + ", %fundef13" + strings.Repeat(",\n1", n) + ") }}"
	}, ""},
	{"in statements", 3000, func(n int) string {
		return "{{ 1" + strings.Repeat(";\n1", n) + ";\n%fundef13" + strings.Repeat(";\n1", n) + " }}"
	}, ""},
	{"in ternaries", 200, func(n int) string { return "{{ false ? 1" + strings.Repeat("\n : false ? 1", n) + "\n : %fundef13 }}" }, ""},
	{"in a dump", 600, func(n int) string { return "@dump(1" + strings.Repeat(",\n1", n) + ",\n%f~)" }, ""},
	{"in a branch", 600, func(n int) string {
		return "@if(false)" + strings.Repeat("\n@elseif(false)", n) + "\n@elseif(%fundef13)\n@end"
	}, ""},
}

func (c c13Size) make() *c13Case {
	l := c13Long[c.Kind]
	pre := l.pre(c.N)
	f := c13Faults[c.F]
	var src string
	var line int
	if before, after, ok := strings.Cut(pre, "%f"); ok {
		f = c13Fault{before, "", after, true, "", false}
		if strings.HasPrefix(after, "~") || strings.HasPrefix(after, "$") || strings.Contains(l.name, "unexpected") || strings.Contains(l.name, "large") {
			f.run = false
		}
		src, line = c13Build(f, "", []int{c.W}, nil, "\n")
	} else {
		src, line = c13Build(f, pre, []int{c.W}, nil, "")
		for i := 0; l.post != "" && i < c.N; i++ {
			if i == 0 {
				src += strings.Repeat(l.post, c.N)
			}
		}
	}
	if c.CRLF {
		src = crlf(src)
	}
	if c.Site < 0 {
		return c13Single(src, line, f)
	}
	s := c13Sites[c.Site]
	if s.all {
		if strings.Contains(pre, "%f") || l.post != "" {
			return c13Single(src, line, f)
		}
		return c13Tree(s, c13Fault{}, pre, 0)
	}
	if !c13Plain(f) {
		return c13Single(src, line, f)
	}
	return c13Tree(s, f, src, line)
}

func init() {
	p := Get("C13")
	p.Families = append(p.Families,
		core.New(core.Fam[c13Size]{
			Name: "sizes",
			Rule: "faults behind (or in the middle of) 47 kinds of long pieces: lines, long lines, strings, comments, code, arrays, nested blocks, long tokens, of N lines, elements or bytes, N to 40 and within 2 of the powers of two and ten to 70000 (nesting to 300), the faults and places in turn, in strings and in trees of files; non-trivial: the line is not the first",
			Enum: func(th bool, yield func(func() c13Size)) {
				turn := 0
				for k, l := range c13Long {
					for i, n := range szNumbers(l.max) {
						reps := 6
						if n > 40 {
							reps = 4
						}
						if n > 10000 {
							reps = 2
						}
						if th {
							reps *= 4
						}
						for r := 0; r < reps; r++ {
							turn++
							t := turn
							c := c13Size{F: (t*7 + i) % len(c13Faults), N: n, Kind: k, Site: -1, W: t % len(c13Wraps), CRLF: t%7 == 0}
							if r%2 == 1 {
								c.Site = (t / 2) % len(c13Sites)
							}
							yield(func() c13Size { return c })
						}
					}
				}
			},
			Judge: func(c c13Size) core.Verdict {
				v := judge13(c.make())
				v.Class = c13Long[c.Kind].name
				return v
			},
		}),
		core.New(core.Fam[c13Size]{
			Name: "random sizes",
			Rule: "random faults behind a long piece of a random length at a random place; non-trivial: the line is not the first",
			Gen: func(r *rapid.T) c13Size {
				g := gen.New(r)
				c := c13Size{F: g.N(len(c13Faults)), Kind: g.N(len(c13Long)), Site: g.N(2*len(c13Sites)) - len(c13Sites), W: g.N(len(c13Wraps)), CRLF: g.N(4) == 3}
				c.N = drawSize(r, g, min(c13Long[c.Kind].max, 20000))
				if c.Site < 0 {
					c.Site = -1
				}
				return c
			}, Quick: 20000, Thorough: 400000,
			Judge: func(c c13Size) core.Verdict { return judge13(c.make()) },
		}))
}
