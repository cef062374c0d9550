// Package gen generates templates of the language model with rapid.
package gen

import (
	"fmt"
	"strconv"

	"pgregory.net/rapid"
	. "verif/harness/lang"
)

// T is a type of the generator. Its kinds are those of the values.
type T struct {
	K     byte
	Elem  *T            // of arrays
	Props map[string]*T // of objects
}

var (
	TInt   = &T{K: KInt}
	TFloat = &T{K: KFloat}
	TStr   = &T{K: KStr}
	TBool  = &T{K: KBool}
	TNil   = &T{K: KNil}
)

func TArr(e *T) *T { return &T{K: KArr, Elem: e} }

type binding struct {
	name string
	typ  *T
}

// G generates one case.
type G struct {
	R *rapid.T
	// Faults is how many of 1000 expressions are deliberately wrong.
	Faults int
	// Calls allows built-in functions.
	Calls bool
	// Wild allows literals at the edges of the ranges.
	Wild bool
	// NoAssign forbids assignments.
	NoAssign bool
	// Comps are the components that can be used.
	Comps []Comp
	// Wt scales the frequency of statement kinds.
	Wt map[string]int
	// Names of the variables that can be assigned.
	Names []string
	// Extra draws other statements, with weight ExtraW.
	Extra  func(g *G, depth int) []*S
	ExtraW int
	// FaultExpr draws another wrong expression.
	FaultExpr func(g *G, d int) *E

	frames [][]binding
	loops  int
	budget int
}

// Comp describes a component for its callers.
type Comp struct {
	Name  string
	Args  map[string]*T
	Slots []string
}

func New(r *rapid.T) *G {
	return &G{R: r, Calls: true, frames: [][]binding{nil}, budget: 40}
}

// N draws a number in [0, n).
func (g *G) N(n int) int {
	if n <= 1 {
		return 0
	}
	return rapid.IntRange(0, n-1).Draw(g.R, "n")
}

// P is true in p of 1000 cases.
func (g *G) P(p int) bool {
	if p <= 0 {
		return false
	}
	// small draws are the common case, so that shrinking removes the rare one
	return rapid.IntRange(0, 999).Draw(g.R, "p") >= 1000-p
}

func Pick[X any](g *G, xs []X) X { return xs[g.N(len(xs))] }

func (g *G) Push() { g.frames = append(g.frames, nil) }
func (g *G) Pop()  { g.frames = g.frames[:len(g.frames)-1] }

// Bind makes a name visible in the current frame.
func (g *G) Bind(name string, t *T) {
	i := len(g.frames) - 1
	for j, b := range g.frames[i] {
		if b.name == name {
			g.frames[i][j].typ = t
			return
		}
	}
	g.frames[i] = append(g.frames[i], binding{name, t})
}

// Visible returns the type of a visible name.
func (g *G) Visible(name string) *T {
	for i := len(g.frames) - 1; i >= 0; i-- {
		for _, b := range g.frames[i] {
			if b.name == name {
				return b.typ
			}
		}
	}
	return nil
}

func (g *G) vars(k byte) []binding {
	seen := map[string]bool{}
	var out []binding
	for i := len(g.frames) - 1; i >= 0; i-- {
		for _, b := range g.frames[i] {
			if !seen[b.name] {
				seen[b.name] = true
				if k == 0 || b.typ.K == k {
					out = append(out, b)
				}
			}
		}
	}
	return out
}

// Type draws a type.
func (g *G) Type(depth int) *T {
	n := 8
	if depth > 0 {
		n = 11
	}
	switch g.N(n) {
	case 0, 1, 2:
		return TInt
	case 3, 4:
		return TStr
	case 5:
		return TBool
	case 6:
		return TFloat
	case 7:
		if g.N(3) == 0 {
			return TNil
		}
		return TInt
	case 8, 9:
		return TArr(g.Type(depth - 1))
	default:
		t := &T{K: KObj, Props: map[string]*T{}}
		for i, n := 0, g.N(3); i < n; i++ {
			t.Props[Pick(g, propNames)] = g.Type(depth - 1)
		}
		return t
	}
}

var propNames = []string{"a", "bc", "name", "k1", "x_y", "Z"}
var words = []string{"", "a", "b", "ab", "Zz", " ", "x y", "é", "日本", "a\nb", "'", `"`, "}}", "{{", "@if(", "0", "-1", "\\n", "ü.", "--}}", "5%", "%s%v", "$0"}
var ints = []string{"0", "1", "2", "3", "5", "7", "10", "42", "100"}
var wildInts = []string{"9223372036854775807", "4294967296", "9223372036854775806", "2147483648", "1000000007"}
var floats = []string{"0.0", "1.0", "1.5", "2.25", "0.1", "0.2", "3.75", "10.5", "100.0"}
var wildFloats = []string{"123456789.125", "0.000001", "1000000000000.5", "9007199254740993.0", "0.3333333333333333"}

// Lit draws a literal of a basic type.
func (g *G) Lit(t *T) *E {
	switch t.K {
	case KInt:
		if g.Wild && g.N(6) == 5 {
			return Int(Pick(g, wildInts))
		}
		return Int(Pick(g, ints))
	case KFloat:
		if g.Wild && g.N(6) == 5 {
			return Flt(Pick(g, wildFloats))
		}
		return Flt(Pick(g, floats))
	case KStr:
		return Str(Pick(g, words))
	case KBool:
		return Bool(g.N(2) == 1)
	case KArr:
		e := Arr()
		for i, n := 0, g.N(4); i < n; i++ {
			e.A = append(e.A, g.Lit(t.Elem))
		}
		return e
	case KObj:
		e := Obj(nil)
		for _, k := range sortedProps(t) {
			e.N = append(e.N, k)
			e.A = append(e.A, g.Lit(t.Props[k]))
		}
		return e
	}
	return Nil()
}

func sortedProps(t *T) []string {
	var out []string
	for _, k := range propNames {
		if t.Props[k] != nil {
			out = append(out, k)
		}
	}
	return out
}

// Datum draws a data value of the type.
func (g *G) Datum(t *T) *D {
	switch t.K {
	case KInt:
		if g.Wild && g.N(5) == 4 {
			i, _ := strconv.ParseInt(Pick(g, wildInts), 10, 64)
			if g.N(2) == 1 {
				i = -i - 1
			}
			return DInt(i)
		}
		return DInt(int64(g.N(9) - 3))
	case KFloat:
		f, _ := strconv.ParseFloat(Pick(g, floats), 64)
		if g.N(3) == 2 {
			f = -f
		}
		return DFloat(f)
	case KStr:
		return DStr(Pick(g, words))
	case KBool:
		return DBool(g.N(2) == 1)
	case KArr:
		d := DArr()
		for i, n := 0, g.N(5); i < n; i++ {
			d.A = append(d.A, *g.Datum(t.Elem))
		}
		return d
	case KObj:
		d := DObj(map[string]*D{})
		for _, k := range sortedProps(t) {
			d.O[k] = g.Datum(t.Props[k])
		}
		return d
	}
	return DNil()
}

// path finds ways to get a value of kind k out of a visible variable.
func (g *G) path(k byte) *E {
	var cands []func() *E
	var collect func(e func() *E, t *T, depth int)
	collect = func(e func() *E, t *T, depth int) {
		if t.K == k {
			cands = append(cands, e)
		}
		if depth == 0 {
			return
		}
		switch t.K {
		case KObj:
			for _, p := range sortedProps(t) {
				p := p
				collect(func() *E {
					if g.N(3) == 2 {
						return Idx(e(), Str(p))
					}
					return Dot(e(), p)
				}, t.Props[p], depth-1)
			}
		}
	}
	for _, b := range g.vars(0) {
		b := b
		collect(func() *E { return Var(b.name) }, b.typ, 2)
	}
	if len(cands) == 0 {
		return nil
	}
	return cands[g.N(len(cands))]()
}

// Expr draws an expression of the type, now and then a wrong one.
func (g *G) Expr(t *T, depth int) *E {
	if g.P(g.Faults) {
		return g.fault(t, depth)
	}
	if depth <= 0 || g.N(4) == 0 {
		if g.N(3) > 0 {
			if e := g.path(t.K); e != nil && (t.K != KArr && t.K != KObj || g.sameVar(e, t)) {
				return e
			}
		}
		return g.Lit(t)
	}
	d := depth - 1
	switch g.N(12) {
	case 0:
		return Tern(g.Cond(d), g.Expr(t, d), g.Expr(t, d))
	case 1:
		if t.K != KArr && t.K != KObj || t.Elem != nil {
			return g.index(t, d)
		}
	case 2:
		if g.Calls {
			if e := g.call(t, d); e != nil {
				return e
			}
		}
	}
	switch t.K {
	case KInt:
		switch g.N(8) {
		case 0, 1:
			return Bin("+", g.Expr(TInt, d), g.Expr(TInt, d))
		case 2:
			return Bin("-", g.Expr(TInt, d), g.Expr(TInt, d))
		case 3:
			return Bin("*", g.Expr(TInt, d), g.Expr(TInt, d))
		case 4:
			if g.P(30) {
				return Bin(Pick(g, []string{"/", "%"}), g.Expr(TInt, d), g.Expr(TInt, d))
			}
			return Bin(Pick(g, []string{"/", "%"}), g.Expr(TInt, d), Int(Pick(g, ints[1:])))
		case 5:
			return Un("-", g.Expr(TInt, d))
		default:
			return Post(Pick(g, []string{"++", "--"}), g.Expr(TInt, d))
		}
	case KFloat:
		switch g.N(5) {
		case 0:
			return Un("-", g.Expr(TFloat, d))
		case 1:
			return Post("++", g.Expr(TFloat, d))
		default:
			return Bin(Pick(g, []string{"+", "-", "*", "/"}), g.Expr(TFloat, d), g.Expr(TFloat, d))
		}
	case KStr:
		return Bin("+", g.Expr(TStr, d), g.Expr(TStr, d))
	case KBool:
		switch g.N(4) {
		case 0:
			return Un("!", g.Expr(Pick(g, []*T{TBool, TBool, TNil}), d))
		case 1:
			return Bin(Pick(g, Ops[5:7]), g.Expr(TStr, d), g.Expr(TStr, d))
		}
		n := Pick(g, []*T{TInt, TInt, TFloat})
		return Bin(Pick(g, Ops[5:]), g.Expr(n, d), g.Expr(n, d))
	case KArr:
		e := Arr()
		for i, n := 0, g.N(4); i < n; i++ {
			e.A = append(e.A, g.Expr(t.Elem, d))
		}
		return e
	case KObj:
		e := Obj(nil)
		for _, k := range sortedProps(t) {
			e.N = append(e.N, k)
			e.A = append(e.A, g.Expr(t.Props[k], d))
		}
		return e
	}
	return g.Lit(t)
}

func (g *G) sameVar(e *E, t *T) bool {
	if e.K != "var" {
		return false
	}
	v := g.Visible(e.S)
	return v != nil && v.K == t.K && (t.K != KArr || sameT(v.Elem, t.Elem)) && (t.K != KObj || len(t.Props) == 0 || sameT(v, t))
}

func sameT(a, b *T) bool {
	if a == nil || b == nil || a.K != b.K || len(a.Props) != len(b.Props) {
		return a == b
	}
	for k, x := range a.Props {
		if !sameT(x, b.Props[k]) {
			return false
		}
	}
	return a.K != KArr || sameT(a.Elem, b.Elem)
}

func (g *G) index(t *T, d int) *E {
	if g.N(2) == 0 {
		key := Pick(g, propNames)
		o := Obj([]string{key}, g.Expr(t, d))
		if g.N(2) == 0 {
			return Dot(o, key)
		}
		return Idx(o, Str(key))
	}
	e := Arr()
	n := 1 + g.N(3)
	for i := 0; i < n; i++ {
		e.A = append(e.A, g.Expr(t, d))
	}
	return Idx(e, Int(strconv.Itoa(g.N(n))))
}

func (g *G) call(t *T, d int) *E {
	i := func() *E { return Int(Pick(g, ints[:5])) }
	switch t.K {
	case KInt:
		switch g.N(6) {
		case 0:
			return Call(g.Expr(TStr, d), "len")
		case 1:
			return Call(g.Expr(TArr(TInt), d), "len")
		case 2:
			return Call(g.Expr(TInt, d), Pick(g, []string{"abs", "len"}))
		case 3:
			return Call(g.Expr(TBool, d), "binary")
		case 4:
			return Call(g.Lit(TFloat), Pick(g, []string{"ceil", "floor", "round", "int"}))
		default:
			return Call(g.Expr(TBool, d), "then", g.Expr(TInt, d), g.Expr(TInt, d))
		}
	case KFloat:
		return Call(g.Expr(TInt, d), "float")
	case KStr:
		s := g.Expr(TStr, d)
		switch g.N(7) {
		case 0:
			return Call(g.Expr(TInt, d), "str")
		case 1:
			return Call(s, "repeat", i())
		case 2:
			return Call(s, "truncate", i(), Str("~"))
		case 3:
			return Call(g.Expr(TArr(TInt), d), "join", g.Lit(TStr))
		default:
			return Call(s, Pick(g, []string{"trim", "reverse", "upper", "lower", "capitalize", "trimLeft", "trimRight"}))
		}
	case KBool:
		return Call(g.Expr(TStr, d), "contains", g.Expr(TStr, d))
	case KArr:
		a := g.Expr(t, d)
		switch g.N(4) {
		case 0:
			return Call(a, "reverse")
		case 1:
			return Call(a, "slice", i(), i())
		default:
			return Call(a, Pick(g, []string{"append", "prepend"}), g.Expr(t.Elem, d))
		}
	}
	return nil
}

// Cond draws a condition of any type.
func (g *G) Cond(d int) *E {
	if g.N(3) > 0 {
		return g.Expr(TBool, d)
	}
	return g.Expr(g.Type(1), d)
}

// fault draws an expression that fails, or at least has another type.
func (g *G) fault(t *T, d int) *E {
	if d < 0 {
		d = 0
	}
	d = minInt(d, 1)
	sub := func(t *T) *E {
		saved := g.Faults
		g.Faults = 0
		e := g.Expr(t, d)
		g.Faults = saved
		return e
	}
	if g.FaultExpr != nil && g.N(3) > 0 {
		return g.FaultExpr(g, d)
	}
	switch g.N(12) {
	case 0, 1:
		return Var(Pick(g, []string{"undefinedVar", "nope", "loop"}))
	case 2:
		return Bin(Pick(g, Ops), sub(TInt), sub(TStr))
	case 3:
		return Bin(Pick(g, []string{"/", "%"}), sub(TInt), Int("0"))
	case 4:
		return Int("9223372036854775808")
	case 5:
		return Bin(Pick(g, Ops), sub(TFloat), sub(TInt))
	case 6:
		return Un("-", sub(Pick(g, []*T{TStr, TBool, TNil})))
	case 7:
		return Dot(sub(Pick(g, []*T{TInt, TStr, TNil})), "a")
	case 8:
		return Dot(sub(&T{K: KObj, Props: map[string]*T{}}), "missing")
	case 9:
		return Call(sub(g.Type(1)), "noSuchFunc")
	case 10:
		return Un("!", sub(Pick(g, []*T{TInt, TStr, TFloat})))
	default:
		return sub(g.Type(1))
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Texts are safe anywhere: they cannot merge with a directive before or
// after them.
var Texts = []string{".", "-", " ", "\n", "<b>", "a b", "é\n", "}}", "} { ", "\t", "x\r\n", "#1", "\\ ", "@x ", "1", "100%", "%d", "$1", "It", "is", "Ix"}

func (g *G) Text() *S {
	n := 1 + g.N(2)
	s := ""
	for i := 0; i < n; i++ {
		s += Pick(g, Texts)
	}
	return Text(s)
}

// Marker is a text that identifies its place in the output.
func (g *G) Marker() *S { return Text(fmt.Sprintf("%c%d.", 'a'+g.N(6), g.N(10))) }

func (g *G) w(kind string, def int) int {
	if w, ok := g.Wt[kind]; ok {
		return w
	}
	return def
}

// Block draws the statements of a block; the caller has pushed its frame.
func (g *G) Block(depth, max int) []*S {
	var out []*S
	n := g.N(max + 1)
	for i := 0; i < n && g.budget > 0; i++ {
		g.budget--
		out = append(out, g.Stmt(depth)...)
	}
	return out
}

func (g *G) scoped(depth, max int) []*S {
	g.Push()
	defer g.Pop()
	return g.Block(depth, max)
}

type choice struct {
	w int
	f func() []*S
}

// Stmt draws a statement (or a few that belong together).
func (g *G) Stmt(depth int) []*S {
	cs := []choice{
		{g.w("text", 4), func() []*S { return []*S{g.Marker()} }},
		{g.w("rawtext", 2), func() []*S { return []*S{g.Text()} }},
		{g.w("comment", 1), func() []*S {
			return []*S{Comment(Pick(g, []string{" c ", "", " {{ 1 }} ", " @if(true) ", "-", "\n\n", " @end ", "'"}))}
		}},
		{g.w("print", 6), func() []*S { return []*S{g.Code()} }},
	}
	if !g.NoAssign {
		cs = append(cs, choice{g.w("assign", 4), func() []*S { return []*S{g.AssignCode()} }})
	}
	if g.loops > 0 {
		cs = append(cs,
			choice{g.w("ctl", 2), func() []*S {
				switch g.N(4) {
				case 0:
					return []*S{{K: "break"}}
				case 1:
					return []*S{{K: "cont"}}
				case 2:
					return []*S{{K: "breakif", X: []*E{g.Cond(1)}}}
				}
				return []*S{{K: "contif", X: []*E{g.Cond(1)}}}
			}},
			choice{g.w("loopvar", 2), func() []*S {
				return []*S{Print(Dot(Var("loop"), Pick(g, []string{"index", "iter", "first", "last"})))}
			}})
		if !g.NoAssign && g.w("keep", 0) > 0 {
			cs = append(cs, choice{g.w("keep", 0), g.keep})
		}
	}
	if depth > 0 {
		cs = append(cs,
			choice{g.w("if", 4), func() []*S { return []*S{g.IfStmt(depth - 1)} }},
			choice{g.w("each", 3), func() []*S { return []*S{g.EachStmt(depth - 1)} }},
			choice{g.w("for", 2), func() []*S { return g.ForStmt(depth - 1) }})
		if len(g.Comps) > 0 {
			cs = append(cs, choice{g.w("comp", 3), func() []*S { return []*S{g.CompStmt(depth - 1)} }})
		}
	}
	if g.Extra != nil && g.ExtraW > 0 {
		cs = append(cs, choice{g.ExtraW, func() []*S { return g.Extra(g, depth) }})
	}
	total := 0
	for _, c := range cs {
		total += c.w
	}
	n := g.N(total)
	for _, c := range cs {
		if n < c.w {
			return c.f()
		}
		n -= c.w
	}
	panic("unreachable")
}

// keep draws statements that keep a value of one pass for the later ones.
func (g *G) keep() []*S {
	k := Pick(g, []string{"k1", "k2", "k3"})
	t := g.Visible(k)
	var x *E
	switch g.N(4) {
	case 0:
		if v := g.vars(0); len(v) > 0 {
			b := Pick(g, v)
			if t != nil && !sameT(t, b.typ) {
				return []*S{Print(Var(k))}
			}
			g.Bind(k, b.typ)
			return []*S{Assign(k, Tern(Dot(Var("loop"), "first"), Var(b.name), Var(k))), Print(Var(k))}
		}
		fallthrough
	case 1:
		x = Var("loop")
	case 2:
		x = Obj([]string{"index"}, Var("loop"))
	case 3:
		if t == nil {
			g.Bind(k, TArr(loopT))
		}
		return []*S{Assign(k, Tern(Dot(Var("loop"), "first"), Arr(Var("loop")), Call(Var(k), "append", Var("loop")))), Print(Var(k))}
	}
	if t == nil {
		g.Bind(k, loopT)
	}
	return []*S{Assign(k, Tern(Dot(Var("loop"), "first"), x, Var(k))), Print(Dot(Var(k), "index"))}
}

// Code draws a {{ }} block that prints.
func (g *G) Code() *S {
	s := Print(g.Expr(g.Type(1), 2))
	for g.N(6) == 5 {
		if !g.NoAssign && g.N(2) == 1 {
			s.P = append(s.P, g.assign())
		} else {
			s.P = append(s.P, Part{E: g.Expr(g.Type(0), 1)})
		}
	}
	return s
}

func (g *G) names() []string {
	if g.Names != nil {
		return g.Names
	}
	return []string{"v", "w", "x_1", "Yz", "foo"}
}

func (g *G) assign() Part {
	name := Pick(g, g.names())
	t := g.Visible(name)
	if t == nil || g.P(g.Faults) {
		t = g.Type(2)
	}
	if g.P(g.Faults / 2) {
		name = "loop"
	}
	e := g.Expr(t, 2)
	g.Bind(name, t)
	return Part{N: name, E: e}
}

// AssignCode draws a {{ }} block that assigns.
func (g *G) AssignCode() *S { return &S{K: "code", P: []Part{g.assign()}} }

func (g *G) IfStmt(depth int) *S {
	s := If(g.Cond(2))
	s.B = g.scoped(depth, 3)
	for g.N(3) == 2 {
		s.Br = append(s.Br, Branch{E: g.Cond(2), B: g.scoped(depth, 2)})
	}
	if g.N(2) == 1 {
		s.HasElse = true
		s.Else = g.scoped(depth, 3)
	}
	return s
}

func (g *G) loopName(t *T) string {
	for i := 0; i < 4; i++ {
		n := Pick(g, []string{"i", "el", "v", "w", "n2"})
		if vt := g.Visible(n); vt == nil || vt.K == t.K || g.P(g.Faults) {
			return n
		}
	}
	return fmt.Sprintf("l%d", len(g.frames))
}

var loopT = &T{K: KObj, Props: map[string]*T{}}

func (g *G) EachStmt(depth int) *S {
	el := g.Type(1)
	arr := g.Expr(TArr(el), 1)
	name := g.loopName(el)
	s := Each(name, arr)
	g.Push()
	if g.N(3) == 2 {
		s.HasElse = true
		s.Else = g.scoped(depth, 2)
	}
	g.Bind(name, el)
	g.loops++
	s.B = g.Block(depth, 4)
	g.loops--
	g.Pop()
	return s
}

func (g *G) ForStmt(depth int) []*S {
	name := g.loopName(TInt)
	from, n := g.N(3), g.N(5)
	s := &S{K: "for", S: "safe"}
	outer := !g.NoAssign && g.N(5) == 4
	if outer {
		g.Bind(name, TInt)
	}
	g.Push()
	s.Init = &Part{N: name, E: Int(strconv.Itoa(from))}
	var stop []*S
	switch g.N(6) {
	case 4: // left by a directive
		s.Cond = Pick(g, []*E{nil, Bool(true), Int("1"), Str("x")})
		s.Post = &Part{E: Post("++", Var(name))}
		stop = []*S{{K: "breakif", X: []*E{Bin(">=", Var(name), Int(strconv.Itoa(from+n)))}}}
		if g.N(3) == 2 {
			stop = []*S{If(stop[0].X[0], &S{K: "break"})}
		}
	case 0:
		s.Init.E = Int(strconv.Itoa(from + n))
		s.Cond = Bin(">", Var(name), Int(strconv.Itoa(from)))
		s.Post = &Part{E: Post("--", Var(name))}
	case 1:
		s.Cond = Bin("<", Var(name), Int(strconv.Itoa(from+2*n)))
		s.Post = &Part{N: name, E: Bin("+", Var(name), Int("2"))}
	default:
		s.Cond = Bin(Pick(g, []string{"<", "<=", "!="}), Var(name), Int(strconv.Itoa(from+n)))
		s.Post = &Part{E: Post("++", Var(name))}
	}
	if g.N(3) == 2 {
		s.HasElse = true
		s.Else = g.scoped(depth, 2)
	}
	g.Bind(name, TInt)
	g.loops++
	saved := g.NoAssign
	// an assignment to the loop variable could make the loop endless
	g.NoAssign = saved || contains(g.names(), name)
	s.B = append(stop, g.Block(depth, 3)...)
	g.NoAssign = saved
	g.loops--
	g.Pop()
	if outer {
		// the loop counts with a variable of the scope around it
		before := Assign(name, s.Init.E)
		s.Init = nil
		return []*S{before, s}
	}
	return []*S{s}
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

// CompStmt draws a use of a component.
func (g *G) CompStmt(depth int) *S {
	c := Pick(g, g.Comps)
	s := &S{K: "comp", S: c.Name}
	obj := Obj(nil)
	for _, k := range sortedKeys(c.Args) {
		if g.P(g.Faults) {
			continue
		}
		obj.N = append(obj.N, k)
		if v := g.Visible(k); v != nil && sameT(v, c.Args[k]) && g.N(3) == 2 {
			obj.A = append(obj.A, Var(k)) // the shorthand
			continue
		}
		obj.A = append(obj.A, g.Expr(c.Args[k], 1))
	}
	if len(obj.A) > 0 || g.N(3) == 2 {
		s.X = []*E{obj}
	}
	loops := g.loops
	g.loops = 0
	for _, n := range c.Slots {
		if g.N(4) > 0 {
			s.Br = append(s.Br, Branch{Name: n, B: g.scoped(depth, 3)})
		}
	}
	if len(s.Br) == 2 && g.N(2) == 1 {
		s.Br[0], s.Br[1] = s.Br[1], s.Br[0]
	}
	g.loops = loops
	return s
}

func sortedKeys(m map[string]*T) []string {
	var out []string
	for k := range m {
		i := len(out)
		for i > 0 && out[i-1] > k {
			i--
		}
		out = append(out[:i], append([]string{k}, out[i:]...)...)
	}
	return out
}

// Data draws the data of a call and makes its names visible.
func (g *G) Data() Data {
	d := Data{}
	for _, n := range []string{"d1", "d2", "d3", "Name", "list", "v"} {
		if g.N(3) == 0 {
			continue
		}
		t := g.Type(2)
		if n == "list" {
			t = TArr(g.Type(1))
		}
		d[n] = g.Datum(t)
		g.Bind(n, t)
	}
	return d
}

// Layout draws layout choices.
func (g *G) Layout() []byte {
	if g.N(2) == 0 {
		return nil
	}
	return rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(g.R, "layout")
}

// Reset gives a new statement budget.
func (g *G) Budget(n int) { g.budget = n }

// Fresh starts over with the given bindings only, returning what undoes it.
func (g *G) Fresh(d map[string]*T) func() {
	frames, loops := g.frames, g.loops
	g.frames, g.loops = [][]binding{nil}, 0
	for _, k := range sortedKeys(d) {
		g.Bind(k, d[k])
	}
	return func() { g.frames, g.loops = frames, loops }
}

// Types returns the bindings of the outermost frame.
func (g *G) Types() map[string]*T {
	out := map[string]*T{}
	for _, b := range g.frames[0] {
		out[b.name] = b.typ
	}
	return out
}

// Loops tells whether the statements are inside a loop.
func (g *G) SetLoops(n int) { g.loops = n }
