package props

import (
	"fmt"
	"strings"

	"github.com/textwire/textwire/v2/lexer"
	"github.com/textwire/textwire/v2/token"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
)

// lineCol is the zero-based line and byte column of an offset.
type lineCol struct{ line, col int }

func positions(src string) (at []lineCol, lines []int) {
	line, col := 0, 0
	lines = []int{0}
	for i := 0; i < len(src); i++ {
		at = append(at, lineCol{line, col})
		col++
		if src[i] == '\n' {
			line, col = line+1, 0
			lines = append(lines, i+1)
		}
	}
	return append(at, lineCol{line, col}), lines
}

// argless directives are not followed by arguments.
var argless = map[token.TokenType]bool{token.ELSE: true, token.END: true, token.BREAK: true, token.CONTINUE: true}

func tokenText(t token.Token, text string) bool {
	switch t.Type {
	case token.EOF:
		return text == "" && t.Literal == ""
	case token.HTML:
		// without the backslashes of the escapes
		var b strings.Builder
		for i := 0; i < len(text); i++ {
			if text[i] == '\\' {
				if strings.HasPrefix(text[i+1:], "{{") {
					b.WriteString("{{")
					i += 2
					continue
				}
				if keyword(text[i+1:]) != "" {
					continue
				}
			}
			b.WriteByte(text[i])
		}
		return b.String() == t.Literal
	case token.STR:
		if text == "" || text[0] != '"' && text[0] != '\'' {
			return false
		}
		q := text[:1]
		inner := text[1:]
		if inner == t.Literal {
			return true // not closed
		}
		if strings.HasSuffix(inner, q) {
			if strings.ReplaceAll(inner[:len(inner)-1], `\`+q, q) == t.Literal {
				return true
			}
		}
		return strings.ReplaceAll(inner, `\`+q, q) == t.Literal
	}
	return text == t.Literal
}

func judge19(c c05Case) core.Verdict { return judgeText19(string(c.Src), fmt.Sprintf("%q", c.Src)) }

func judgeRope19(c rope) core.Verdict { return judgeText19(c.String(), c.show()) }

func judgeText19(src, show string) core.Verdict {
	at, lines := positions(src)
	l := lexer.New(src)
	var toks []token.Token
	for {
		t := l.NextToken()
		toks = append(toks, t)
		if t.Type == token.EOF {
			break
		}
		if len(toks) > len(src)+2 {
			return core.Failf("more tokens than bytes\nsource: %s", show)
		}
	}
	offset := func(line, col uint) int {
		if int(line) >= len(lines) {
			return -1
		}
		o := lines[line] + int(col)
		if o > len(src) || at[o] != (lineCol{int(line), int(col)}) {
			return -1
		}
		return o
	}
	fail := func(i int, format string, a ...any) core.Verdict {
		return core.Failf("token %d (%s %s at %+v): %s\nsource: %s", i, token.String(toks[i].Type), short([]byte(toks[i].Literal)), toks[i].Pos, fmt.Sprintf(format, a...), show)
	}
	cover := make([]int, len(src)+1) // token index + 1
	end := 0                         // just past the previous token
	code, parens, inDir, illegal := false, 0, false, false
	kinds := map[token.TokenType]bool{}
	for i, t := range toks {
		kinds[t.Type] = true
		from := offset(t.Pos.StartLine, t.Pos.StartCol)
		to := offset(t.Pos.EndLine, t.Pos.EndCol)
		if from < 0 || to < 0 {
			return fail(i, "the position is no byte of the source")
		}
		if t.Type == token.EOF {
			if from != len(src) || to != len(src) {
				return fail(i, "the end of the input is at %d, not at %d", from, len(src))
			}
			to = from - 1
		}
		if to < from && t.Type != token.EOF {
			return fail(i, "it ends before it starts")
		}
		if from < end {
			return fail(i, "it overlaps the token before")
		}
		// the gap
		gap := src[end:from]
		for gap != "" {
			if strings.HasPrefix(gap, "{{--") {
				j := strings.Index(gap, "--}}")
				if j < 0 {
					break
				}
				gap = gap[max(j, 2)+4:]
				code = false
				continue
			}
			if strings.IndexByte(" \t\r\n", gap[0]) < 0 {
				return fail(i, "%q before it is in no token", gap)
			}
			if !code && !illegal {
				return fail(i, "whitespace %q of the text before it is in no token", gap)
			}
			gap = gap[1:]
		}
		if illegal && t.Type == token.EOF && gap != "" {
			gap = ""
		}
		if gap != "" {
			return fail(i, "%q before it is in no token", gap)
		}
		if !tokenText(t, src[from:to+1]) {
			return fail(i, "its bytes are %q", src[from:to+1])
		}
		for j := from; j <= to; j++ {
			cover[j] = i + 1
		}
		if t.Type == token.EOF {
			cover[len(src)] = i + 1
		}
		end = to + 1
		// the mode after the token
		switch {
		case t.Type == token.ILLEGAL:
			illegal = true
			if t.Literal == "{{--" {
				end = len(src) // the rest of an unclosed comment
			}
		case t.Type == token.LBRACES:
			code = true
		case t.Type == token.RBRACES:
			code = false
		case t.Type >= token.IF && t.Type <= token.DUMP:
			if argless[t.Type] || t.Type == token.SLOT && !strings.HasPrefix(src[end:], "(") {
				code, inDir = false, false
			} else {
				code, inDir = true, true
			}
		case t.Type == token.LPAREN && inDir:
			parens++
		case t.Type == token.RPAREN && inDir:
			if parens--; parens == 0 {
				code, inDir = false, false
			}
		}
	}
	// every cursor
	cursor := func(line, col int) *core.Verdict {
		in := 0
		for i, t := range toks {
			if t.Pos.Contains(uint(line), uint(col)) {
				if in != 0 {
					v := fail(i, "it and token %d both contain the cursor %d:%d", in-1, line, col)
					return &v
				}
				in = i + 1
			}
		}
		if o := offset(uint(line), uint(col)); o >= 0 && in != cover[o] {
			v := core.Failf("the cursor %d:%d is in token %d, its byte is in token %d\nsource: %s", line, col, in-1, cover[o]-1, show)
			return &v
		}
		return nil
	}
	if len(src) < 600 {
		for line := range lines {
			width := len(src)
			if line+1 < len(lines) {
				width = lines[line+1] - 1
			}
			width -= lines[line]
			for col := 0; col <= width+2; col++ {
				if v := cursor(line, col); v != nil {
					return *v
				}
			}
		}
	} else {
		// the first and last tokens and some between, and bytes at sizes
		step := 1 + len(toks)/20
		if len(toks) < 200 {
			step = 1
		}
		var some []int
		for i := range toks {
			if i%step == 0 || i < 4 || i > len(toks)-5 {
				from, to := offset(toks[i].Pos.StartLine, toks[i].Pos.StartCol), offset(toks[i].Pos.EndLine, toks[i].Pos.EndCol)
				some = append(some, from-1, from, from+1, (from+to)/2, to-1, to, to+1)
			}
		}
		for n := 256; n <= len(src); n *= 2 {
			some = append(some, n-1, n)
		}
		for _, o := range some {
			if o >= 0 && o <= len(src) {
				if v := cursor(at[o].line, at[o].col); v != nil {
					return *v
				}
			}
		}
	}
	cls := "text"
	switch {
	case kinds[token.ILLEGAL]:
		cls = "illegal"
	case kinds[token.LBRACES]:
		cls = "code"
	case len(toks) > 2:
		cls = "directives"
	}
	return core.OK(len(toks) >= 3, cls)
}

// lexemes of the whole language.
var lexemes = []string{
	"{{", "}}", "{", "}", "(", ")", "[", "]", "\"", "'", "\"a\"", "'b\nc'", "\"\\\"\"", "\\", "@", "@if", "@else", "@elseif", "@end", "@for", "@each", "@break",
	"@breakIf", "@continue", "@continueIf", "@use", "@insert", "@reserve", "@component", "@slot", "@dump", "{{--", "--}}", "-", "--", "+", "++", "!", "!=", "=", "==", "<", "<=",
	">", ">=", "*", "/", "%", "?", ":", ",", ".", ";", "1", "12.5", "1.2.3", "x", "true", "false", "nil", "in", "loop", " ", "\n", "\r\n", "\t", "é", "#", "&", "\x00", "\xff", "\\{{", "\\@if", "text", "$",
}

var lexSmall = []string{"{{", "}}", "{", "}", "(", ")", "\"", "'", "\\", "@if", "@end", "@slot", "{{--", "--}}", "\n", " ", "x", "1", ".", "é", "@", "#", "\r\n", "@else"}

func lexSoup(r *rapid.T, max int) string {
	g := gen.New(r)
	var b strings.Builder
	for i, n := 0, 1+g.N(max); i < n; i++ {
		switch g.N(12) {
		case 0:
			b.Write(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(r, "bytes"))
		case 1:
			b.WriteString("{{ ")
		case 2:
			b.WriteString(" }}")
		case 3:
			b.WriteString(gen.Pick(g, c05Code).src)
		case 4:
			b.WriteString(gen.Pick(g, c05Dirs).src)
		default:
			b.WriteString(gen.Pick(g, lexemes))
		}
	}
	return b.String()
}

// c19Lead are repeated, in text, in {{ }} and in arguments.
var c19Lead = []string{"x", "\n", " ", "é", "{", "1", "x ", "1, ", "\r\n", "(", "'a' ", "-", "a\n", "1.2", "\"q\n\" ", "日", "true ", "\t", "{{ 1 }}", "{{-- c\n --}}", "\\{{", "@end", "ab.", "\\\"", "@if(1)\n"}

var c19Tail = []string{"", "x", "{{ y\n+ 1 }}", "'s' }}\n{{ a }}", " 12 }}", "\n@if(a)\nb", "\\{{ x", "\n", "}}{{ \"é\" }}", "é", "#", "{{-- c --}}{{ 1", ") z", "\"\" 'q\nr' 1"}

func c19Sizes(th bool, yield func(func() rope)) {
	max := 70000
	if th {
		max = 300000
	}
	for li, lead := range c19Lead {
		for si, n := range sizes(30, max) {
			for ti, tail := range c19Tail {
				for pi, pre := range []string{"", "{{ ", "@if(", "{{ '", "\n\n{{--"} {
					if n > 40 && (li+si+ti+pi)%5 != 0 || n > 5000 && (ti+pi+si+si/5)%7 != 0 {
						continue
					}
					yield(func() rope {
						k := n
						if (si+ti)%2 == 0 {
							k = n / len(lead) // so many bytes
						}
						r := rope{rep(pre, 1), rep("x", n-k*len(lead)), rep(lead, k), rep(tail, 1)}
						if k == n {
							r = rope{rep(pre, 1), rep(lead, k), rep(tail, 1)}
						}
						if (si+li)%5 == 0 {
							r = append(rope{rep("text\n", 1)}, append(r, rep("\ntext {{ 1 }}", 1))...)
						}
						return r
					})
				}
			}
		}
	}
}

func c19Rope(r *rapid.T) rope {
	g := gen.New(r)
	var out rope
	total := 0
	for i, n := 0, 2+g.N(8); i < n; i++ {
		switch g.N(4) {
		case 0, 1:
			s := gen.Pick(g, append(c19Lead, lexemes...))
			n := drawSize(r, g, 1+max(0, 150000-total)/len(s))
			total += n * len(s)
			out = append(out, rep(s, n))
		default:
			out = append(out, rep(gen.Pick(g, c19Tail), 1))
		}
	}
	return out
}

func init() {
	register(&core.Prop{ID: "C19", Level: "exploration", Families: []core.Family{
		core.New(core.Fam[c05Case]{
			Name: "lexemes",
			Rule: "exhaustive: every sequence of up to 2 (thorough 3) of all 75 lexemes in text, in {{ }} and in directive arguments, up to 4 (thorough 5) of 24 lexemes; every cursor; non-trivial: at least two tokens before the end",
			Enum: func(th bool, yield func(func() c05Case)) {
				emit := func(s string) { yield(func() c05Case { return newC05(s) }) }
				n, m := 2, 4
				if th {
					n, m = 3, 5
				}
				for i := 0; i <= n; i++ {
					strs(lexemes, i, func(s string) {
						emit(s)
						emit("{{ " + s + " }}x")
						emit("{{" + s)
						emit("@if(" + s + ")x@end\n")
						emit("a\n b" + s + "\n\nc")
						if i < 3 {
							emit("{{-- \n --}}" + s + "{{ 1\n }}")
							emit("\\{{" + s + "\\@end")
							emit("{{ '\n' \n" + s + "\n\"é\" }}")
						}
					})
				}
				for i := 3; i <= m; i++ {
					strs(lexSmall, i, emit)
				}
				for a := 0; a < 256; a++ {
					for _, w := range []string{"%s", "{{ %s }}", "{{ \"%s\" }}", "\n%s\n", "@if(%s)", "{{-- %s --}}", "{{ 1%s2 }}", "@each(x in %s)"} {
						emit(strings.ReplaceAll(w, "%s", string([]byte{byte(a)})))
					}
				}
			},
			Judge: judge19,
		}),
		core.New(core.Fam[c05Case]{
			Name: "random",
			Rule: "random sequences of up to 24 lexemes and bytes; non-trivial: at least two tokens before the end",
			Gen:  func(r *rapid.T) c05Case { return newC05(lexSoup(r, 24)) }, Quick: 300000, Thorough: 6000000,
			Judge: judge19,
		}),
		core.New(core.Fam[rope]{
			Name: "sizes",
			Rule: fmt.Sprintf("each of %d lexemes repeated so often, or up to so many bytes, in text, {{ }}, arguments, a string and a comment, for numbers within 2 of the powers of two and ten up to 70000 (thorough 300000), before each of %d ends; positions and texts of all tokens, cursors at the borders of up to 200 tokens; non-trivial: at least two tokens before the end", len(c19Lead), len(c19Tail)),
			Enum: c19Sizes, Judge: judgeRope19,
		}),
		core.New(core.Fam[rope]{
			Name: "random sizes",
			Rule: "random sequences of repeated lexemes up to 150 KB; non-trivial: at least two tokens before the end",
			Gen:  c19Rope, Quick: 3000, Thorough: 100000, Judge: judgeRope19,
		}),
		core.New(core.Fam[*Case]{
			Name: "templates",
			Rule: "random valid templates in random layouts; non-trivial: at least two tokens before the end",
			Gen:  blockGen(nil, 3, 4, 25, nil), Quick: 30000, Thorough: 600000,
			Judge: func(c *Case) core.Verdict { return judge19(newC05(c.Source())) },
		}),
	}, Assumptions: []string{
		"after an unclosed comment the lexer reports one illegal token for its beginning and then the end of the input",
		"an unclosed string ends with the input",
	}})
}
