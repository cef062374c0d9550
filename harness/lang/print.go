package lang

import "strings"

// Layout is a stream of layout choices. The empty layout is the canonical one,
// any other one is repeated as often as needed.
type Layout struct {
	B []byte
	i int
}

func (l *Layout) next(n int) int {
	if l == nil || len(l.B) == 0 {
		return 0
	}
	v := int(l.B[l.i%len(l.B)])
	l.i++
	return v % n
}

var spaces = []string{" ", "\n", "\t", "  ", "\r\n", " \n\t"}

// opt returns optional whitespace, canonically none.
func (l *Layout) opt() string {
	c := l.next(12)
	if c < 8 && c != 3 {
		return ""
	}
	return spaces[c%len(spaces)]
}

// sp returns optional whitespace, canonically one space.
func (l *Layout) sp() string {
	switch c := l.next(10); c {
	case 0, 1, 2, 3:
		return " "
	case 4, 5:
		return ""
	default:
		return spaces[c%len(spaces)]
	}
}

// must returns whitespace that cannot be left out.
func (l *Layout) must() string {
	return spaces[l.next(len(spaces))]
}

const (
	pTern = iota + 1
	pEq
	pCmp
	pAdd
	pMul
	pDot
	pUn
	pIdx
	pPost
	pAtom
)

func opPrec(op string) int {
	switch op {
	case "==", "!=":
		return pEq
	case "<", ">", "<=", ">=":
		return pCmp
	case "+", "-":
		return pAdd
	}
	return pMul
}

// PrintE prints an expression.
func PrintE(e *E, l *Layout) string {
	s, _ := printE(e, l)
	return s
}

func sub(e *E, l *Layout, min int) (string, int) {
	s, p := printE(e, l)
	if p < min {
		return "(" + l.opt() + s + l.opt() + ")", pAtom
	}
	return s, p
}

// glue joins tokens and keeps two signs apart that would make one token.
func glue(a, ws, b string) string {
	if ws == "" && a != "" && b != "" {
		x, y := a[len(a)-1], b[0]
		if x == y && (x == '+' || x == '-' || x == '=' || x == '{' || x == '}') ||
			y == '=' && strings.IndexByte("<>!=", x) >= 0 || word(x) && word(y) {
			ws = " "
		}
	}
	return a + ws + b
}

func word(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// printE returns the source and the precedence of its loosest part that an
// operator on the outside could break apart.
func printE(e *E, l *Layout) (string, int) {
	s, p := print1(e, l)
	if n := l.next(16); n >= 14 {
		s, p = "("+l.opt()+s+l.opt()+")", pAtom
		if n == 15 {
			s = "(" + s + l.opt() + ")"
		}
	}
	return s, p
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func print1(e *E, l *Layout) (string, int) {
	switch e.K {
	case "int", "float":
		s := e.S
		switch n := l.next(14); {
		case n == 13:
			s = "0" + s
		case n == 12:
			s = "000" + s
		case n == 11 && e.K == "float":
			s += "0"
		}
		return s, pAtom
	case "var":
		return e.S, pAtom
	case "true", "false", "nil":
		return e.K, pAtom
	case "str":
		return Quote(e.S, l), pAtom
	case "un":
		s, _ := sub(e.A[0], l, pUn)
		return glue(e.S, l.opt(), s), pUn
	case "post":
		s, p := left(e.A[0], l)
		return glue(s, l.opt(), e.S), minInt(pPost, p)
	case "bin":
		p := opPrec(e.S)
		a, _ := sub(e.A[0], l, p)
		b, _ := sub(e.A[1], l, p+1)
		return glue(glue(a, l.sp(), e.S), l.sp(), b), p
	case "tern":
		c, _ := sub(e.A[0], l, pTern+1)
		a, _ := sub(e.A[1], l, pTern+1)
		b, _ := sub(e.A[2], l, pTern)
		return c + l.sp() + "?" + l.sp() + a + l.sp() + ":" + l.sp() + b, pTern
	case "idx":
		s, p := left(e.A[0], l)
		return s + l.opt() + "[" + l.opt() + PrintE(e.A[1], l) + l.opt() + "]", minInt(pIdx, p)
	case "dot":
		s := recv(e.A[0], l)
		return s + l.opt() + "." + l.opt() + e.S, pDot
	case "call":
		s := recv(e.A[0], l)
		return s + l.opt() + "." + l.opt() + e.S + l.opt() + "(" + list(e.A[1:], l) + ")", pDot
	case "arr":
		return "[" + list(e.A, l) + "]", pAtom
	case "obj":
		return PrintObj(e, l), pAtom
	}
	panic("bad expression " + e.K)
}

// recv prints what stands before a dot.
func recv(e *E, l *Layout) string {
	s, _ := sub(e, l, pDot)
	return s
}

// left prints the operand of an index or a postfix operator. A member access
// before them needs no parentheses, they apply to all of it.
func left(e *E, l *Layout) (string, int) {
	s, p := printE(e, l)
	if p >= pIdx || p == pDot && (e.K == "dot" || e.K == "call" || e.K == "idx" || e.K == "post") {
		return s, p
	}
	return "(" + l.opt() + s + l.opt() + ")", pAtom
}

func list(a []*E, l *Layout) string {
	var out strings.Builder
	out.WriteString(l.opt())
	for i, x := range a {
		if i > 0 {
			out.WriteString("," + l.sp())
		}
		out.WriteString(PrintE(x, l) + l.opt())
	}
	if len(a) > 0 && l.next(16) == 13 {
		out.WriteString(",")
	}
	return out.String()
}

// PrintObj prints an object literal without parentheses around it.
func PrintObj(e *E, l *Layout) string {
	if len(e.A) == 0 {
		return "{" + l.opt() + "}"
	}
	var out strings.Builder
	out.WriteString("{" + l.opt())
	for i, x := range e.A {
		if i > 0 {
			out.WriteString("," + l.sp())
		}
		k := e.N[i]
		if x.K == "var" && x.S == k && l.next(2) == 1 {
			out.WriteString(k + l.opt())
			continue
		}
		if !isIdent(k) || l.next(4) == 3 {
			k = Quote(k, l)
		}
		out.WriteString(k + l.opt() + ":" + l.sp() + PrintE(x, l) + l.opt())
	}
	if l.next(16) == 13 {
		out.WriteString("," + l.opt())
	}
	return out.String() + "}"
}

func isIdent(k string) bool {
	if k == "" || k[0] >= '0' && k[0] <= '9' {
		return false
	}
	for i := 0; i < len(k); i++ {
		if !word(k[i]) {
			return false
		}
	}
	return true
}

// Quote prints a string literal. Quotes inside are escaped when they must be;
// content that ends in a backslash cannot be written.
func Quote(s string, l *Layout) string {
	q := `"`
	if l.next(2) == 1 {
		q = "'"
	}
	if strings.Contains(s, q) && l.next(2) == 0 {
		if q == `"` && !strings.Contains(s, "'") {
			q = "'"
		} else if q == "'" && !strings.Contains(s, `"`) {
			q = `"`
		}
	}
	return q + strings.ReplaceAll(s, q, `\`+q) + q
}

// Print prints a template.
func PrintB(b []*S, l *Layout) string {
	var out strings.Builder
	for _, s := range b {
		printS(&out, s, l)
	}
	return out.String()
}

// PrintTop prints a template and tells where its top level statements begin.
func PrintTop(b []*S, l *Layout) (string, []int) {
	var out strings.Builder
	var at []int
	for _, s := range b {
		at = append(at, out.Len())
		printS(&out, s, l)
	}
	return out.String(), at
}

func (l *Layout) dir(name string) string { return name + l.opt() + "(" + l.opt() }

func printS(out *strings.Builder, s *S, l *Layout) {
	w := out.WriteString
	block := func(b []*S) { w(PrintB(b, l)) }
	els := func() {
		if s.HasElse {
			w("@else")
			block(s.Else)
		}
		w("@end")
	}
	switch s.K {
	case "text":
		w(s.S)
	case "comment":
		w("{{--" + s.S + "--}}")
	case "code":
		w("{{" + l.sp())
		for i, p := range s.P {
			if i > 0 {
				w(l.opt() + ";" + l.sp())
			}
			w(printPart(&p, l))
		}
		w(l.sp() + "}}")
	case "dump":
		w(l.dir("@dump") + list(s.X, l) + ")")
	case "if":
		w(l.dir("@if") + PrintE(s.X[0], l) + l.opt() + ")")
		block(s.B)
		for _, br := range s.Br {
			w(l.dir("@elseif") + PrintE(br.E, l) + l.opt() + ")")
			block(br.B)
		}
		els()
	case "each":
		w(l.dir("@each") + s.S + l.must() + "in" + l.must() + PrintE(s.X[0], l) + l.opt() + ")")
		block(s.B)
		els()
	case "for":
		w(l.dir("@for"))
		if s.Init != nil {
			w(printPart(s.Init, l))
		}
		w(l.opt() + ";" + l.sp())
		if s.Cond != nil {
			w(PrintE(s.Cond, l))
		}
		w(l.opt() + ";" + l.sp())
		if s.Post != nil {
			w(printPart(s.Post, l))
		}
		w(l.opt() + ")")
		block(s.B)
		els()
	case "break":
		w("@break")
	case "cont":
		w("@continue")
	case "breakif":
		w(l.dir("@breakIf") + PrintE(s.X[0], l) + l.opt() + ")")
	case "contif":
		w(l.dir("@continueIf") + PrintE(s.X[0], l) + l.opt() + ")")
	case "comp":
		w(l.dir("@component") + Quote(s.S, l))
		if len(s.X) > 0 {
			w(l.opt() + "," + l.sp() + PrintObj(s.X[0], l))
		}
		w(l.opt() + ")")
		if len(s.Br) > 0 {
			for _, br := range s.Br {
				w(l.opt())
				if br.Name == "" {
					w("@slot")
				} else {
					w("@slot(" + l.opt() + Quote(br.Name, l) + l.opt() + ")")
				}
				block(br.B)
				w("@end")
			}
			w(l.opt() + "@end")
		}
	case "slot":
		if s.S == "" {
			w("@slot")
		} else {
			w("@slot(" + l.opt() + Quote(s.S, l) + l.opt() + ")")
		}
	case "reserve":
		w(l.dir("@reserve") + Quote(s.S, l) + l.opt() + ")")
	case "insert":
		w(l.dir("@insert") + Quote(s.S, l) + l.opt())
		if len(s.X) > 0 {
			w("," + l.sp() + PrintE(s.X[0], l) + l.opt() + ")")
			return
		}
		w(")")
		block(s.B)
		w("@end")
	case "use":
		w(l.dir("@use") + Quote(s.S, l) + l.opt() + ")")
	default:
		panic("bad statement " + s.K)
	}
}

func printPart(p *Part, l *Layout) string {
	if p.N == "" {
		return PrintE(p.E, l)
	}
	return p.N + l.sp() + "=" + l.sp() + PrintE(p.E, l)
}
