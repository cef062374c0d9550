package props

import (
	"fmt"
	"path/filepath"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// c13Case are sources with one fault at a known place. With a single file
// named "" the source is evaluated as a string.
type c13Case struct {
	Files map[string]string `json:"files"` // names without the extension
	Page  string            `json:"page,omitempty"`
	Line  int               `json:"line"`
	Span  int               `json:"span,omitempty"` // that many lines before are right too
	File  string            `json:"file,omitempty"` // of the fault
	Load  bool              `json:"load,omitempty"` // loading must fail
	Path  bool              `json:"path,omitempty"` // the path of the error is that of the file
	Data  Data              `json:"data,omitempty"`
	Word  string            `json:"word,omitempty"` // the message mentions it
	Dir   string            `json:"dir,omitempty"`
}

func judge13(c *c13Case) core.Verdict {
	if src, ok := c.Files[""]; ok {
		out, err := textwire.EvaluateString(src, c.Data.Native())
		if err == nil {
			return core.Failf("no error but output %q\nsource: %q", out, src)
		}
		return check13(c, err, src)
	}
	dir := c.Dir
	if dir == "" {
		dir = "t"
	}
	f := map[string]string{}
	for n, s := range c.Files {
		f[n+".tw"] = s
	}
	writeTree(dir, f)
	show := files(f)
	tpl, err := load(dir, ".tw", false)
	if c.Load {
		if err == nil {
			return core.Failf("loading succeeded\n%s", show)
		}
		return check13(c, err, show)
	}
	if err != nil {
		return core.Failf("loading failed: %v\n%s", err, show)
	}
	out, ferr := tpl.String(c.Page, c.Data.Native())
	if ferr == nil {
		return core.Failf("no error but output %q\n%s", out, show)
	}
	if !c.on(int(ferr.Line())) || c.Path && ferr.Filepath() != c.path() {
		return core.Failf("the error is at %s:%d instead of %s:%d (%s)\n%s", ferr.Filepath(), ferr.Line(), c.path(), c.Line, ferr.Message(), show)
	}
	return check13(c, ferr.Error(), show)
}

func (c *c13Case) on(line int) bool { return line <= c.Line && line >= c.Line-c.Span }

func (c *c13Case) path() string {
	dir := c.Dir
	if dir == "" {
		dir = "t"
	}
	return filepath.Join(cwd(), dir, c.File+".tw")
}

func check13(c *c13Case, err error, show string) core.Verdict {
	e, ok := parseErr(err)
	if !ok {
		return core.Failf("%q is no Textwire error", err)
	}
	if !c.on(e.Line) {
		return core.Failf("the error %q is on line %d instead of %d\n%s", err, e.Line, c.Line, show)
	}
	if c.Path && e.Path != c.path() {
		return core.Failf("the error %q is in %q instead of %q\n%s", err, e.Path, c.path(), show)
	}
	if !strings.Contains(e.Msg, c.Word) {
		return core.Failf("the error %q is about something else than %q\n%s", err, c.Word, show)
	}
	return core.OK(c.Line > 1, "line")
}

// c13Fault is a faulty construct: the error is on the line where tok ends.
type c13Fault struct {
	pre, tok, post string
	run            bool // found when it runs
	word           string
	span           bool // any line of tok is right
}

var c13Faults = []c13Fault{
	// found by the evaluator
	{"{{ ", "undefinedName", " }}", true, "undefinedName", false},
	{"{{ [1,\n 2,\n ", "undefinedName", ",\n 3] }}", true, "undefinedName", false},
	{"{{ {\n a: 1,\n b: ", "undefinedName", ",\n c: 2\n} }}", true, "undefinedName", false},
	{"{{ (\n\n", "undefinedName", "\n) }}", true, "undefinedName", false},
	{"{{ 1 +\n ", "undefinedName", "\n}}", true, "undefinedName", false},
	{"{{ \"a\n\" + \n ", "undefinedName", " + \"\n\" }}", true, "undefinedName", false},
	{"{{ true\n ? ", "undefinedName", "\n : 2 }}", true, "undefinedName", false},
	{"{{ false\n ? 1\n : ", "undefinedName", " }}", true, "undefinedName", false},
	{"{{ \"a\".repeat(\n ", "undefinedName", "\n) }}", true, "undefinedName", false},
	{"{{ [1,\n2].slice(0,\n ", "undefinedName", ") }}", true, "undefinedName", false},
	{"{{ [1][\n", "undefinedName", "\n] }}", true, "undefinedName", false},
	{"{{ ok13 = 1;\n\n ok14 = ", "undefinedName", ";\n ok15 = 2 }}", true, "undefinedName", false},
	{"{{ ok13 = 1;\n", "undefinedName", ";\n ok15 = 2 }}", true, "undefinedName", false},
	{"{{", "undefinedName", "}}", true, "undefinedName", false},
	{"{{ !", "undefinedName", " }}", true, "undefinedName", false},
	{"{{ ", "undefinedName", "++ }}", true, "undefinedName", false},
	{"{{ ", "undefinedName", ".a }}", true, "undefinedName", false},
	{"{{ ", "undefinedName", ".len(\n1) }}", true, "undefinedName", false},
	{"{{ ", "undefinedName", "[\n0] }}", true, "undefinedName", false},
	{"@if(", "undefinedName", ")\na\n@end", true, "undefinedName", false},
	{"@if(\n", "undefinedName", "\n)\na\n@end", true, "undefinedName", false},
	{"@if(false)\na\n@elseif(", "undefinedName", ")\nb\n@else\nc@end", true, "undefinedName", false},
	{"@if(false)\n@elseif(\nnil)\n@elseif(\n", "undefinedName", ")\nb\n@end", true, "undefinedName", false},
	{"@each(x in ", "undefinedName", ")\na\n@end", true, "undefinedName", false},
	{"@each(\nx in\n", "undefinedName", ")\na\n@else\n@end", true, "undefinedName", false},
	{"@for(i = ", "undefinedName", "; i < 2; i++)\na@end", true, "undefinedName", false},
	{"@for(\ni = 0;\n", "undefinedName", "; i++)\na@end", true, "undefinedName", false},
	{"@for(\ni = 0;\ni < 2;\n", "undefinedName", "++)a@end", true, "undefinedName", false},
	{"@each(x in [1,\n2])\n@breakIf(", "undefinedName", ")\n@end", true, "undefinedName", false},
	{"@each(x in [1,\n2])\n@continueIf(\n\n", "undefinedName", ")\n@end", true, "undefinedName", false},
	{"@each(x in [1])\n\n{{ loop.index }}\n", "{{ loop.nope }}", "@end", true, "nope", false},
	{"{{ ", "1 + 'a'", " }}", true, "", false},
	{"{{ [1,\n ", "1 + 'a'", ",\n 2] }}", true, "", false},
	{"{{ \"a\nb", "\" - 1", " }}", true, "", false},
	{"{{ 'a\r\n\n", "' * 'b'", " }}", true, "", false},
	{"{{ ", "-true", " }}", true, "", false},
	{"{{ 1;\n", "!1", " }}", true, "", false},
	{"{{ ", "'a'++", " }}", true, "", false},
	{"{{ ", "[1] + [2]", " }}", true, "", false},
	{"{{ ", "1.5 % 2.0", " }}", true, "", false},
	{"{{ ", "1 < 'a'", "\n}}", true, "", false},
	{"{{ \n", "nil + 1", " }}", true, "", false},
	{"{{ ", "1.nope()", " }}", true, "nope", false},
	{"{{ 'a\n", "'.nope()", " }}", true, "nope", false},
	{"{{ \n\n", "'a'.nope(1, 2)", " }}", true, "nope", false},
	{"{{ ", "{k: 1}.nope", " }}", true, "nope", false},
	{"{{ {k: [1,\n", "{k: 1}.nope", "]} }}", true, "nope", false},
	{"{{ ", "1.nope", " }}", true, "", false},
	{"{{ ", "'a'.repeat('b')", " }}", true, "", false},
	{"{{ ", "'a'.repeat()", "\n }}", true, "", false},
	{"{{ ", "1 / 0", " }}", true, "", false},
	{"{{ 5 +\n ", "1 / 0", " }}", true, "", false},
	{"{{ ", "7 % (1 - 1)", " }}", true, "", false},
	{"{{ ", "1[0]", " }}", true, "", false},
	{"{{ ", "[1]['a']", " }}", true, "", false},
	{"{{ v13 = 1;\n", "v13 = 'a'", " }}", true, "", false},
	{"{{ v13 = 1 }}\n{{ ", "v13 = 1.5", " }}", true, "", false},
	{"", "@each(x in 5)", "\n@end", true, "", false},
	{"{{ ", "loop = 1", " }}", true, "", false},
	{"{{ 'a'\n", ".nope()", " }}", true, "nope", false},
	{"{{ 'a'\n.\n", "nope", "(\n)\n }}", true, "nope", false},
	{"{{ 'a'\n.len()\n", ".nope", "(1,\n2) }}", true, "nope", false},
	{"{{ [1,\n2\n]\n", ".nope", "(\n) }}", true, "nope", false},
	{"{{ (1 +\n2)\n\n", ".nope()", "\n + 1 }}", true, "nope", false},
	{"{{ {k: 1}\n", ".nope", "\n }}", true, "nope", false},
	{"{{ {k: {\nj: 1}}\n.k\n", ".nope", "\n }}", true, "nope", false},
	{"{{ {k: {\nj: 1}}", ".nope", "\n.j }}", true, "nope", false},
	{"{{ {k: 1}[\n", "'nope'", "\n] }}", true, "nope", true},
	{"@each(x in [1,\n2]\n", ".nope", "())\n@end", true, "nope", false},
	{"{{ ", "1\n+\n'a'", " }}", true, "", true},
	{"{{ \n", "1\n/\n0", "\n }}", true, "", true},
	{"{{ ", "[1,\n2,\n3].len()\n %\n 0", " }}", true, "", true},
	{"{{ ", "5 /\n (1 -\n1)", "\n }}", true, "", true},
	{"{{ 1 +\n ", "2 *\n 'a'", "\n }}", true, "", true},
	{"{{ true ?\n ", "'a'\n<\n1", "\n :\n 2 }}", true, "", true},
	{"{{ ", "-\ntrue", "\n }}", true, "", true},
	{"{{ ", "-\n\n(true)", "\n }}", true, "", true},
	{"{{ ", "!\n\n'a'.len()", "\n }}", true, "", true},
	{"{{ ", "true\n++", "\n }}", true, "", true},
	{"{{ ", "'a'.len().bin()\n--", " }}", true, "", true},
	{"{{ \n", "1\n[\n0\n]", "\n }}", true, "", true},
	{"{{ ", "[1,\n2]\n[\n'a']", "\n }}", true, "", true},
	{"{{ ", "1\n.\nnope", "\n }}", true, "", true},
	{"{{ ", "'a'\n.repeat(\n'b'\n)", "\n }}", true, "", true},
	{"{{ ", "'a'\n.repeat\n(\n)", "\n }}", true, "", true},
	{"{{ y13 = 1;\n", "y13\n=\n'a'", "\n }}", true, "", true},
	{"", "@each(\nx\nin\n5\n)", "\n@end\n", true, "", true},
	{"", "@each(x in {a:\n1})", "\n@end\n", true, "", true},
	// found by the parser
	{"{{ ", "~", " }}", false, "", false},
	{"{{ 1 ", "#", " 2 }}", false, "", false},
	{"{{ [1,\n2\n", "^", "] }}", false, "", false},
	{"{{ \"\n\" + ", "é", " }}", false, "", false},
	{"@if(", "$", ")\n@end", false, "", false},
	{"@each(x in\n", "`", ")\n@end", false, "", false},
	{"{{ 1 ", "2", " }}", false, "", false},
	{"{{ 1\n\n", "2", "\n}}", false, "", false},
	{"{{ 1 ", "\"a\nb\r\nc\"", " }}", false, "", false},
	{"{{ 'x' ", "'\n'", "\n }}", false, "", false},
	{"{{ ", ")", " }}", false, "", false},
	{"{{ ", ",", " }}", false, "", false},
	{"{{ ", "*", " 2 }}", false, "", false},
	{"{{ 1 +\n", "*", " 2 }}", false, "", false},
	{"{{ 1 + ", "}}", "", false, "", false},
	{"{{ 1 +\n\n", "}}", "", false, "", false},
	{"{{ (1 ", "}}", "", false, "", false},
	{"{{ (1\n", "}}", "", false, "", false},
	{"{{ [1, 2\n", "}}", "", false, "", false},
	{"{{ 'a'.len(1\n", "}}", "", false, "", false},
	{"{{ 1 ? 2\n", "}}", "", false, "", false},
	{"{{ 1 ?\n2 ", ",", "3 }}", false, "", false},
	{"{{ a.", "1", " }}", false, "", false},
	{"{{ [1][0\n", "}", " }}", false, "", false},
	{"{{ ", "99999999999999999999", " }}", false, "", false},
	{"{{ [1,\n", "9223372036854775808", "\n] }}", false, "", false},
	{"{{ ", "1.2.3", " }}", false, "", false},
	{"{{ 1.5 +\n 1.5.\n", "0", " }}", false, "", false},
	{"{{ [", strings.Repeat("9", 400) + ".5", "\n] }}", false, "", false},
	{"@if(\n", "0.0.0", "\n)\n@end", false, "", false},
	{"{{ 1 ", "2.5", "\n}}", false, "", false},
	{"{{ 1\n.\n", "2", "\n}}", false, "", false},
	{"@each(x in [1]\n", "2", "\n)@end", false, "", false},
	{"@each(x in xs\n\n", "'y\n'", "\n)@end", false, "", false},
	{"@each(x in (1\n", "]", "\n)@end", false, "", false},
	{"@if(true\n", "'y'", "\n)@end", false, "", false},
	{"@if(true)\na\n@elseif(true\n", "2", "\n)\n@end", false, "", false},
	{"@for(i = 0\n", "1", "; i < 1; i++)\n@end", false, "", false},
	{"@for(i = 0; i < 1\n", "2", "; i++)\n@end", false, "", false},
	{"@for(i = 0; i < 1; i++\n", "3", "\n)\n@end", false, "", false},
	{"@breakIf(true\n", "1", "\n)\n", false, "", false},
	{"@continueIf(true\n", "1", "\n)\n", false, "", false},
	{"@dump(1\n", "2", "\n)\n", false, "", false},
	{"@insert('a'\n", "2", "\n)\n", false, "", false},
	{"@insert('a', 'b'\n", "2", "\n)\n", false, "", false},
	{"@component('c'\n", "2", "\n)\n", false, "", false},
	{"@component('c', {\n}\n", "2", "\n)\n", false, "", false},
	{"@slot('s'\n", "2", "\n)\n", false, "", false},
	{"@use('u'\n", "2", "\n)\n", false, "", false},
	{"@reserve('r'\n", "2", "\n)\n", false, "", false},
	{"{{ true ? 1\n", "2", "\n: 3 }}", false, "", false},
	{"{{ true ? 1\n:\n", ":", "\n 3 }}", false, "", false},
	{"{{ (1\n", "2", "\n) }}", false, "", false},
	{"{{ [1\n", "2", "\n] }}", false, "", false},
	{"{{ [1,\n", ",", "\n2] }}", false, "", false},
	{"{{ 'a'.len(1\n", "2", "\n) }}", false, "", false},
	{"{{ {a: 1\n", "2", "\n} }}", false, "", false},
	{"{{ {a: 1,\n b: 2\n", "c", ": 3\n} }}", false, "", false},
	{"{{ x = 1\n", "2", "\n }}", false, "", false},
	{"{{ x = \n", "=", "\n2 }}", false, "", false},
	{"{{ [1][0\n", "1", "\n] }}", false, "", false},
	{"{{ 1++\n", "2", "\n }}", false, "", false},
	{"{{ -\n", "*", "\n2 }}", false, "", false},
	{"{{ {a\n: 1,\nb: ", "}", " }}", false, "", false},
	{"{{ {a ", "1", "} }}", false, "", false},
	{"{{ ", "}}", "", false, "", false},
	{"{{\n\n", "}}", "", false, "", false},
	{"@each(", "1", " in [1])\n@end", false, "", false},
	{"@each(x ", "of", " [1])\n@end", false, "", false},
	{"@each(x\n", "[", "1])\n@end", false, "", false},
	{"@for(i = 0; i < 1\n", ")", "\n@end", false, "", false},
	{"@for(i = 0", ",", " i < 1; i++)\n@end", false, "", false},
	{"@if(true ", "1", ")\n@end", false, "", false},
	{"@if(", ")", "a@end", false, "", false},
	{"@if(\n", ")", "a@end", false, "", false},
	{"@if(true)\na\n@else\nb\n", "@elseif", "(true)c@end", false, "", false},
	{"@if(true)\n@elseif(\n", "*", ")c@end", false, "", false},
	{"@breakIf(", ")", "\n", false, "", false},
	{"@dump(1,\n", "*", "2)\n", false, "", false},
	{"@insert(", "1", ", 2)\n", false, "", false},
	{"@component(", "x", ")\n", false, "", false},
	{"@component('c', ", "1", ")\n", false, "", false},
	{"@component(\n'c',\n", "[1]", ")\n", false, "", false},
	{"@component(", "''", ")\n", false, "", false},
	{"@use(", "1", ")\n", false, "", false},
	{"@reserve(", "nil", ")\n", false, "", false},
}

// c13Fill are valid pieces that span lines.
var c13Fill = []string{
	"", "\n", "\r\n", "\n\n\n", "text\n", "text\r\nmore\n", " \t\n \n", "<p class=\"a\">\n</p>\n", "user@example.com\n", "a } b { c\n", "a\rb\r\n", "\v\f\n", "é日\n🙂\n", "\"quote\n", "it's\n", "@\n", "@@ @foo\n@@\n", "\\\n\\\n", "/* \n */ // \n",
	"\\{{ x\n}}\n", "\\@if(x)\n", "\\@end\n", "\\@else\n\\@each\n",
	"{{-- a comment --}}\n", "{{-- a\ncomment --}}", "{{--\r\n\r\n--}}\n", "{{-- {{ 1\n }} @if( \n\"--}}", "{{-- - -- }}\n--}}", "{{----}}\n",
	"{{ 1 }}\n", "{{\n1\n}}", "{{ \"a\nb\" }}", "{{ 'a\r\n\r\nb' }}\n", "{{ \"\\\"\n\" }}", "{{ '\\'\n\\'' }}", "{{ \"}}\n{{\" }}", "{{ \"{{--\n\" }}", "{{ '@if(\n)' }}", "{{ \"a\n\" + 'b\n' }}", "{{ \"\n\" }}{{ \"\n\" }}",
	"{{ w1 = 1;\n w2 = 'x\n';\n w2 }}", "{{ [1,\n 2,\r\n 3] }}\n", "{{ {\n a: 1,\n 'b\n': 2\n}\n.a }}", "{{ true\n ? 1\n : 2 }}", "{{ (1\n +\n 2) * \n3 }}", "{{ 'a'\n.\nlen\n(\n)\n}}", "{{ [1]\n[\n0\n]\n}}", "{{ -\n1 }}", "{{ 2\n++ }}", "{{ 1;\n2;\n3 }}", "{{\t1\n}}\t\n", "{{\r1\r\n}}",
	"@if(true)\na\n@end", "@if(true) a @end\n", "@if(\nfalse\n)\na\n@elseif(\nnil)\nb\n@else\nc\n@end\n", "@if(false)\n@end", "@if(1)@if(1)\n@end@end\n", "@if(\"a\nb\" == 'x')\n@else\n@end",
	"@each(x in [1,\n2])\n{{ x }}\n@end", "@each(x in [])\n@else\nnone\n@end\n", "@each(\nx\nin\n[\n1]\n)@break\n@end", "@for(i = 0; i < 2; i++)\n{{ i }}\n@end", "@for(\ni = 0;\ni < 2;\ni++\n)@continue\n@end\n", "@for(i = 0; i < 0; i++)\n@else\n@end",
	"@each(x in [1, 2])\n@breakIf(\nx == 1\n)\n@end", "@each(x in [1])\n@continueIf(true)\n@end\n", "@dump(1,\n'a\n')\n", "@dump({\na: 1\n})\n", "@if(true)\n{{-- \n --}}\n@each(y in ['p\n'])\n{{ y }}@end\n@end",
}

// c13Wraps are places for a construct that runs.
var c13Wraps = [][2]string{
	{"", ""},
	{"@if(true)\n", "\n@end"},
	{"@if(true)", "@end"},
	{"@if(false)\nno\n@elseif(\n1)\n", "@else\n@end"},
	{"@if(nil)\nno\n@else\n", "\n@end\n"},
	{"@each(e13 in [1,\n 2])\n", "\n@end"},
	{"@each(e13 in [])\n@else\n", "@end"},
	{"@for(i13 = 0;\n i13 < 2; i13++)", "\n@end"},
	{"@for(i13 = 0; i13 < 0; i13++)\nno\n@else\n", "@end"},
	{"<div>\n @if(true)\n  @each(s13 in ['a\n'])\n", "\n  @end\n @else\n @end\n</div>"},
	{"@if(true)\n@if(false)\n@else\n@for(i13 = 0; i13 < 1; i13++)\n", "@end\n@end\n@end"},
}

// c13Build puts a fault after the text before, inside of a wrap.
func c13Build(f c13Fault, pre string, wraps []int, fill []string, post string) (src string, line int) {
	src = pre
	end := ""
	for i, w := range wraps {
		src += c13Wraps[w][0]
		end = c13Wraps[w][1] + end
		if i < len(fill) {
			src += fill[i]
		}
	}
	src += f.pre + f.tok
	return src + f.post + end + post, strings.Count(src, "\n") + 1
}

func crlf(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\n", "\r\n")
}

func (f c13Fault) lines() int {
	if f.span {
		return lines(f.tok)
	}
	return 0
}

func c13Single(src string, line int, f c13Fault) *c13Case {
	return &c13Case{Files: map[string]string{"": src}, Line: line, Word: f.word, Span: f.lines()}
}

func c13Enum(th bool, yield func(func() *c13Case)) {
	n := 0
	for _, f := range c13Faults {
		for _, a := range c13Fill {
			for w := range c13Wraps {
				n++
				odd := n % 2
				yield(func() *c13Case {
					src, line := c13Build(f, a, []int{w}, nil, []string{"\n\n", ""}[odd])
					if odd == 1 && w%3 == 0 {
						src = crlf(src)
					}
					return c13Single(src, line, f)
				})
			}
		}
	}
	// pairs of pieces
	for i, f := range c13Faults {
		if !th && i%12 != 0 {
			continue
		}
		for _, a := range c13Fill {
			for _, b := range c13Fill {
				yield(func() *c13Case {
					src, line := c13Build(f, a+b, nil, nil, "\nend\n")
					return c13Single(src, line, f)
				})
			}
		}
	}
	// one kind of piece many times
	for _, a := range c13Fill {
		for _, k := range []int{3, 50, 700} {
			for i, f := range c13Faults {
				if k > 3 && i%40 != 0 {
					continue
				}
				yield(func() *c13Case {
					src, line := c13Build(f, strings.Repeat(a, k), nil, nil, "")
					return c13Single(src, line, f)
				})
			}
		}
	}
}

// c13Block draws a random block that runs without an error.
func c13Block(g *gen.G, data Data) string {
	undo := g.Fresh(map[string]*gen.T{})
	defer undo()
	g.Budget(8)
	b := g.Block(2, 3)
	in := &Interp{Steps: 500}
	ref := in.Eval(b, data)
	if ref.Err || ref.Unspec || ref.Endless {
		return "-\n"
	}
	return PrintB([]*S{If(Bool(true), b...)}, &Layout{B: g.Layout()})
}

func c13Piece(g *gen.G) string {
	if g.N(4) == 3 {
		s := c13Block(g, nil)
		if strings.HasSuffix(s, "{") || strings.HasSuffix(s, `\`) {
			s += " "
		}
		return s
	}
	return gen.Pick(g, c13Fill)
}

func c13Pieces(g *gen.G, max int) string {
	s := ""
	for i, n := 0, g.N(max+1); i < n; i++ {
		s += c13Piece(g)
		if strings.HasSuffix(s, "\\\n") || strings.HasSuffix(s, "@\n") {
			s += "."
		}
	}
	return s
}

func c13Draw(g *gen.G, run bool) (c13Fault, string, int) {
	f := gen.Pick(g, c13Faults)
	for run && !f.run {
		f = gen.Pick(g, c13Faults)
	}
	var wraps []int
	var fill []string
	for i, n := 0, g.N(4); i < n; i++ {
		wraps = append(wraps, g.N(len(c13Wraps)))
		fill = append(fill, c13Pieces(g, 2))
	}
	src, line := c13Build(f, c13Pieces(g, 6), wraps, fill, c13Pieces(g, 3))
	if g.N(4) == 3 {
		src = crlf(src)
	}
	return f, src, line
}

func c13Gen(r *rapid.T) *c13Case {
	g := gen.New(r)
	f, src, line := c13Draw(g, false)
	return c13Single(src, line, f)
}

// Faulty expressions on one line that can stand for any expression.
var c13Run = []string{"undefinedName", "undefinedName", "(1 / 0)", "(2 - 'a')", "(-true)", "(!1)", "(1.nope())", "('b'.nope)", "({k: 1}.nope)", "('a'.repeat('b'))", "(1 % 0)", "([1]['a'])", "([1, undefinedName][0])"}
var c13Parse = []string{"~", "#", "1 2", "(*)", "99999999999999999999", "(1 +)", "[1, , 2]", "{a: }", "é", "$x", "(1 ? 2)", "a.1", "a.''"}

const c13Hole = "undefinedName"

// c13Placed replaces any expression of a random program, printed over several
// lines, by a faulty one.
func c13Placed(r *rapid.T) *c13Case {
	g := gen.New(r)
	g.Budget(20)
	data := g.Data()
	prog := g.Block(4, 5)
	var spots []*E
	Walk(prog, nil, func(e *E) { spots = append(spots, e) })
	if len(spots) == 0 {
		e := Var("")
		prog = append(prog, Print(Arr(Int("1"), e)))
		spots = append(spots, e)
	}
	*spots[g.N(len(spots))] = *Var(c13Hole)
	c := &c13Case{Data: data}
	in := &Interp{Steps: 300}
	ref := in.Eval(prog, data)
	src := PrintB(prog, &Layout{B: g.Layout()})
	for n := g.N(4); n > 0; n-- {
		if p := gen.Pick(g, c13Fill); !strings.Contains(p, "@each") && !strings.Contains(p, "@for") && !strings.Contains(p, "w1") {
			src = p + "." + src
		}
	}
	f := gen.Pick(g, c13Parse)
	if ref.Err && strings.HasSuffix(ref.Msg, " "+c13Hole) && g.N(4) > 0 {
		f = gen.Pick(g, c13Run)
		if strings.Contains(f, c13Hole) {
			c.Word = c13Hole
		}
	} else if strings.Count(src, c13Hole) != 1 {
		src = "{{\n" + c13Hole + " }}"
	}
	before, after, _ := strings.Cut(src, c13Hole)
	if strings.Contains(after, c13Hole) { // one expression at two places: the fault is at both
		before, after = "{{ 'a\nb' +\n", "}}"
	}
	c.Line = lines(before) + 1
	src = before + f + after
	if g.N(4) == 3 {
		src = crlf(src)
	}
	c.Files = map[string]string{"": src}
	return c
}

// ---- trees

const c13Good = "fine\n"

// c13Site places a faulty source in a tree of files.
type c13Site struct {
	name string
	make func(f c13Fault, src string, line int) *c13Case
	run  bool // only for faults that are found by the evaluator
	all  bool // no fault is inserted, src is only text before
}

func lines(s string) int { return strings.Count(s, "\n") }

// c13Plain tells whether the fault can be inside of a page: directives of
// templates would have another meaning there.
func c13Plain(f c13Fault) bool {
	for _, d := range []string{"@insert", "@component", "@use", "@reserve", "@slot"} {
		if strings.Contains(f.pre, d) {
			return false
		}
	}
	return true
}

var c13Sites = []c13Site{
	{name: "page", make: func(f c13Fault, src string, line int) *c13Case {
		return &c13Case{Files: map[string]string{"home": src, "a": c13Good, "z/b": "\n" + c13Good}, Page: "home", File: "home", Line: line, Path: true, Load: !f.run}
	}},
	{name: "nested page", make: func(f c13Fault, src string, line int) *c13Case {
		return &c13Case{Files: map[string]string{"a/b/c.d": src, "a": c13Good}, Page: "a/b/c.d", File: "a/b/c.d", Line: line, Path: true, Load: !f.run, Dir: "deep/tpl"}
	}},
	{name: "page with components before", make: func(f c13Fault, src string, line int) *c13Case {
		pre := "@component('c', {\nx: 1\n})\n@component('d')\n@slot('s')\nA\n\n@end\n@end\n"
		return &c13Case{Files: map[string]string{"home": pre + src, "c": "\n\n\n{{ x }}", "d": "\n@slot('s')\n\n"}, Page: "home", File: "home", Line: line + lines(pre), Path: true, Load: !f.run}
	}},
	{name: "insert", make: func(f c13Fault, src string, line int) *c13Case {
		pre := "@use('layouts/l')\n\n@insert('t',\n'x')\n@insert('b')\n"
		return &c13Case{Files: map[string]string{"home": pre + src + "\n@end\n", "layouts/l": "\n\n<b>\n@reserve('t')\n\n@reserve('b')"}, Page: "home", File: "home", Line: line + lines(pre), Path: true, Load: !f.run}
	}},
	{name: "slot", make: func(f c13Fault, src string, line int) *c13Case {
		pre := "@component('c')\n@slot\nD\n@end\n\n@slot('s')\n"
		return &c13Case{Files: map[string]string{"home": pre + src + "\n@end\n@end\n", "c": "1\n2\n@slot\n4\n@slot('s')"}, Page: "home", File: "home", Line: line + lines(pre), Path: true, Load: !f.run}
	}},
	{name: "layout", make: func(f c13Fault, src string, line int) *c13Case {
		return &c13Case{Files: map[string]string{"home": "@use('l')\n\n\n@insert('t', 'x')\n", "l": "@reserve('t')" + src}, Page: "home", File: "l", Line: line, Path: !f.run, Load: !f.run}
	}},
	{name: "layout after the reserve", make: func(f c13Fault, src string, line int) *c13Case {
		pre := "<h1>\n@reserve('t')\n</h1>\n"
		return &c13Case{Files: map[string]string{"home": "@use('l')@insert('t')\n\na\n\n\n@end", "l": pre + src + "@reserve('u')"}, Page: "home", File: "l", Line: line + lines(pre), Path: !f.run, Load: !f.run}
	}},
	{name: "component", make: func(f c13Fault, src string, line int) *c13Case {
		return &c13Case{Files: map[string]string{"home": "\n\n\n@component('c/x')", "c/x": src}, Page: "home", File: "c/x", Line: line, Path: !f.run, Load: !f.run}
	}},
	{name: "component with slots", make: func(f c13Fault, src string, line int) *c13Case {
		pre := "<i>\n@slot('s')\n</i>\n"
		return &c13Case{Files: map[string]string{"home": "\n@component('c', {a: 'x\n'})@slot('s')\n\n\nA@end\n@end\n", "c": pre + src}, Page: "home", File: "c", Line: line + lines(pre), Path: !f.run, Load: !f.run}
	}},
	{name: "component in an insert", make: func(f c13Fault, src string, line int) *c13Case {
		return &c13Case{Files: map[string]string{"home": "@use('l')\n@insert('t')\n@component('c')\n@end", "l": "\n\n@reserve('t')", "c": src}, Page: "home", File: "c", Line: line, Path: !f.run, Load: !f.run}
	}},
	{name: "other page", make: func(f c13Fault, src string, line int) *c13Case {
		return &c13Case{Files: map[string]string{"home": c13Good, "m/other": src}, Page: "m/other", File: "m/other", Line: line, Path: true, Load: !f.run}
	}},
	// faults between files; the source is the text before
	{name: "undefined insert", all: true, make: func(_ c13Fault, src string, _ int) *c13Case {
		pre := "@use('l')" + src + "@insert('t', 'x')\n"
		return &c13Case{Files: map[string]string{"home": pre + "@insert('nope', 'x')\n\n", "l": "\n\n\n\n@reserve('t')"}, File: "home", Line: lines(pre) + 1, Path: true, Load: true, Word: "nope"}
	}},
	{name: "undefined insert with a body", all: true, make: func(_ c13Fault, src string, _ int) *c13Case {
		pre := "@use('l')\n@insert('t')" + src + "@end\n"
		return &c13Case{Files: map[string]string{"home": pre + "@insert('nope')\n\nb\n@end", "l": "@reserve('t')"}, File: "home", Line: lines(pre) + 1, Path: true, Load: true, Word: "nope"}
	}},
	{name: "unknown component", all: true, make: func(_ c13Fault, src string, _ int) *c13Case {
		return &c13Case{Files: map[string]string{"home": src + "@component('nope')\n\n\n", "c": "x"}, File: "home", Line: lines(src) + 1, Path: true, Load: true, Word: "nope"}
	}},
	{name: "unknown component in blocks", all: true, make: func(_ c13Fault, src string, _ int) *c13Case {
		pre := "@component('c')\n@if(false)\n" + src + "@each(x in [])\n"
		return &c13Case{Files: map[string]string{"home": pre + "@component('nope', { a: 1,\n b: 2})\n\n\n@end\n@end", "c": "x"}, File: "home", Line: lines(pre) + 1, Path: true, Load: true, Word: "nope"}
	}},
	{name: "unknown component in an insert", all: true, make: func(_ c13Fault, src string, _ int) *c13Case {
		pre := "@use('l')\n@insert('t')" + src
		return &c13Case{Files: map[string]string{"home": pre + "@component('nope')\n@end\n", "l": "\n\n\n\n\n@reserve('t')"}, File: "home", Line: lines(pre) + 1, Path: true, Load: true, Word: "nope"}
	}},
	{name: "unknown layout", all: true, make: func(_ c13Fault, src string, _ int) *c13Case {
		return &c13Case{Files: map[string]string{"home": src + "@use('nope')\n\n"}, File: "home", Line: lines(src) + 1, Path: true, Load: true, Word: "nope"}
	}},
	{name: "undefined slot", all: true, make: func(_ c13Fault, src string, _ int) *c13Case {
		pre := src + "@component('c')\n@slot('s')\na\n@end\n"
		return &c13Case{Files: map[string]string{"home": pre + "@slot('nope')\nb\n@end\n@end\n", "c": "@slot('s')"}, File: "home", Line: lines(pre) + 1, Path: true, Load: true, Word: "nope"}
	}},
	{name: "undefined default slot", all: true, make: func(_ c13Fault, src string, _ int) *c13Case {
		pre := src + "@component('c')\n\n"
		return &c13Case{Files: map[string]string{"home": pre + "@slot\nb\n@end\n@end\n", "c": "\n\n\n@slot('s')"}, File: "home", Line: lines(pre) + 1, Path: true, Load: true}
	}},
	{name: "component argument", all: true, make: func(_ c13Fault, src string, _ int) *c13Case {
		pre := src + "@component('c', {\n a: 1,\n\n b: "
		return &c13Case{Files: map[string]string{"home": pre + "undefinedName,\n c: 2\n})\n", "c": "\n\n{{ b }}"}, Page: "home", File: "home", Line: lines(pre) + 1, Path: true, Word: "undefinedName"}
	}},
	{name: "insert argument", all: true, make: func(_ c13Fault, src string, _ int) *c13Case {
		pre := "@use('l')" + src + "@insert('t',\n"
		return &c13Case{Files: map[string]string{"home": pre + "undefinedName)\n\n", "l": "\n\n\n\n\n\n@reserve('t')"}, Page: "home", File: "home", Line: lines(pre) + 1, Path: true, Word: "undefinedName"}
	}},
}

func c13Tree(s c13Site, f c13Fault, src string, line int) *c13Case {
	c := s.make(f, src, line)
	c.Span = f.lines()
	if c.Word == "" && !s.all {
		c.Word = f.word
	}
	return c
}

func c13Trees(th bool, yield func(func() *c13Case)) {
	for si, s := range c13Sites {
		if s.all {
			for _, a := range c13Fill {
				yield(func() *c13Case { return c13Tree(s, c13Fault{}, a, 0) })
				yield(func() *c13Case { return c13Tree(s, c13Fault{}, crlf(a)+"\r\n"+a, 0) })
			}
			continue
		}
		for i, f := range c13Faults {
			if !c13Plain(f) {
				continue
			}
			for k, a := range c13Fill {
				if !th && (i+k+si)%4 != 0 {
					continue
				}
				w := (i + k) % len(c13Wraps)
				yield(func() *c13Case {
					src, line := c13Build(f, a, []int{w}, nil, "\n")
					return c13Tree(s, f, src, line)
				})
			}
		}
	}
}

func c13TreeGen(r *rapid.T) *c13Case {
	g := gen.New(r)
	s := gen.Pick(g, c13Sites)
	if s.all {
		return c13Tree(s, c13Fault{}, c13Pieces(g, 8), 0)
	}
	for {
		f, src, line := c13Draw(g, s.run)
		if c13Plain(f) {
			return c13Tree(s, f, src, line)
		}
	}
}

func init() {
	register(&core.Prop{
		ID: "C13", Level: "exploration",
		Families: []core.Family{
			core.New(core.Fam[*c13Case]{
				Name: "single", Rule: fmt.Sprintf("%d faulty constructs x %d multi-line pieces before x %d places, all pairs of pieces, pieces repeated up to 700 times; LF and CRLF; the line is known by construction; non-trivial: the line is not the first", len(c13Faults), len(c13Fill), len(c13Wraps)),
				Enum: c13Enum, Judge: judge13,
			}),
			core.New(core.Fam[*c13Case]{
				Name: "random", Rule: "a random fault in up to 3 nested places behind up to 6 random pieces, random generated blocks with random layouts among them; non-trivial: the line is not the first",
				Gen: c13Gen, Quick: 400000, Thorough: 4000000, Judge: judge13,
			}),
			core.New(core.Fam[*c13Case]{
				Name: "placed", Rule: "random programs with random layouts in which any expression is replaced by a faulty one; run-time faults only where the reference evaluator says that this expression fails first; non-trivial: the line is not the first",
				Gen: c13Placed, Quick: 150000, Thorough: 3000000, Judge: judge13,
			}),
			core.New(core.Fam[*c13Case]{
				Name: "trees", Rule: fmt.Sprintf("the faults in %d places of trees of pages, layouts and components, and faults between files (undefined inserts, slots, components, layouts); line and, where the statement gives it, absolute path; non-trivial: the line is not the first", len(c13Sites)),
				Enum: c13Trees, Gen: c13TreeGen, Quick: 40000, Thorough: 500000, Judge: judge13,
			}),
		},
		Assumptions: []string{
			"a fault whose tokens are on several lines may be reported on any of its lines (the statement names the token, not which of them)",
			"the path of a run-time fault inside of a layout or component file is not judged (the statement leaves it open), its line is",
		},
	})
}
