package lang

import (
	"math"
	"strconv"
	"strings"
)

// Scope is a block scope.
type Scope struct {
	vars  map[string]V
	outer *Scope
}

func NewScope(outer *Scope) *Scope { return &Scope{vars: map[string]V{}, outer: outer} }

func (s *Scope) get(n string) (V, bool) {
	for ; s != nil; s = s.outer {
		if v, ok := s.vars[n]; ok {
			return v, true
		}
	}
	return V{}, false
}

// set assigns in this scope; a visible name keeps its type.
func (s *Scope) set(n string, v V) {
	if n == "loop" {
		fail("loop is reserved")
	}
	if old, ok := s.get(n); ok && old.K != v.K {
		fail("type change of " + n)
	}
	s.vars[n] = v
}

// Site is a set of files, by name without the extension.
type Site map[string][]*S

// Funcs are custom functions: kind + name.
type Funcs map[string]func(r V, args []V) V

type ctl int

const (
	cNone ctl = iota
	cBreak
	cContinue
)

// Interp is the reference evaluator.
type Interp struct {
	Site  Site
	Funcs Funcs
	// Steps limits the number of loop passes; beyond it the result is not defined.
	Steps int
	// Loose: shuffle leaves the order, rand takes the first element. For
	// templates whose result does not depend on it.
	Loose bool
	// Trace collects the classes of constructs that were exercised.
	Trace   map[string]int
	inserts map[string]*S // of the page while a layout is rendered
	slots   []map[string]*Branch
	work    int // size of the values that were made
}

// maxWork is the work beyond which a template takes too long to be rendered.
const maxWork = 24 << 20

func (in *Interp) did(n int) {
	if in.work += n; in.work > maxWork {
		panic(&Err{Unspec: true, Endless: true, Msg: "too much work"})
	}
}

func (in *Interp) hit(c string) {
	if in.Trace != nil {
		in.Trace[c]++
	}
}

// Result of a reference evaluation.
type Result struct {
	Out    string
	Err    bool
	Unspec bool
	// Endless: the template may run forever, it cannot be rendered.
	Endless bool
	Msg     string
}

func (in *Interp) run(data Data, f func(env *Scope) string) (res Result) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(*Err)
			if !ok {
				panic(r)
			}
			res = Result{Err: !e.Unspec, Unspec: e.Unspec, Endless: e.Endless, Msg: e.Msg}
		}
	}()
	if in.Steps == 0 {
		in.Steps = 20000
	}
	in.work = 0
	env := NewScope(nil)
	for k, d := range data {
		env.set(k, d.Value())
	}
	return Result{Out: f(env)}
}

// Eval evaluates a template given as a string.
func (in *Interp) Eval(prog []*S, data Data) Result {
	return in.run(data, func(env *Scope) string {
		literals(prog)
		var out strings.Builder
		in.top(&out, prog, env)
		return out.String()
	})
}

// LiteralsOK tells whether all integer literals are in range.
func LiteralsOK(prog []*S) (ok bool) {
	defer func() {
		if _, bad := recover().(*Err); bad {
			ok = false
		}
	}()
	literals(prog)
	return true
}

// literals rejects integer literals out of range, evaluated or not.
func literals(prog []*S) {
	Walk(prog, nil, func(e *E) {
		if e.K == "int" {
			if _, err := strconv.ParseInt(e.S, 10, 64); err != nil {
				fail("integer literal out of range")
			}
		}
	})
}

// Page renders a page of the site, through its layout when it uses one.
func (in *Interp) Page(name string, data Data) Result {
	return in.run(data, func(env *Scope) string {
		prog := in.Site[name]
		for _, file := range in.Site {
			literals(file)
		}
		var use *S
		in.inserts = map[string]*S{}
		Walk(prog, func(s *S) {
			switch s.K {
			case "use":
				use = s
			case "insert":
				in.inserts[s.S] = s
			}
		}, nil)
		if use == nil {
			in.inserts = nil
			var out strings.Builder
			in.top(&out, prog, env)
			return out.String()
		}
		layout := Resolve(use.S, "layouts")
		var out strings.Builder
		in.top(&out, in.Site[layout], env)
		return out.String()
	})
}

// Resolve expands the "~name" shortcut.
func Resolve(name, dir string) string {
	if strings.HasPrefix(name, "~") {
		return dir + "/" + name[1:]
	}
	return name
}

func (in *Interp) top(out *strings.Builder, prog []*S, env *Scope) {
	for _, s := range prog {
		if c := in.stmt(out, s, env); c != cNone {
			unspec("break or continue outside of a loop")
		}
	}
}

func (in *Interp) block(out *strings.Builder, b []*S, env *Scope) ctl {
	for _, s := range b {
		if c := in.stmt(out, s, env); c != cNone {
			return c
		}
	}
	return cNone
}

// closed runs a block whose control statements have no defined target.
func (in *Interp) closed(out *strings.Builder, b []*S, env *Scope) {
	if c := in.block(out, b, env); c != cNone {
		unspec("break or continue leaves a slot or an insert")
	}
}

func (in *Interp) part(out *strings.Builder, p Part, env *Scope) {
	v := in.E(p.E, env)
	if p.N != "" {
		env.set(p.N, v)
		return
	}
	t := v.Text()
	in.did(len(t))
	out.WriteString(t)
}

func (in *Interp) stmt(out *strings.Builder, s *S, env *Scope) ctl {
	switch s.K {
	case "text":
		out.WriteString(s.S)
	case "comment":
	case "code":
		for _, p := range s.P {
			in.part(out, p, env)
		}
	case "if":
		if in.E(s.X[0], env).Truthy() {
			in.hit("if:then")
			return in.block(out, s.B, NewScope(env))
		}
		for _, br := range s.Br {
			if in.E(br.E, env).Truthy() {
				in.hit("if:elseif")
				return in.block(out, br.B, NewScope(env))
			}
		}
		if s.HasElse {
			in.hit("if:else")
			return in.block(out, s.Else, NewScope(env))
		}
	case "each":
		return in.each(out, s, env)
	case "for":
		return in.forLoop(out, s, env)
	case "break":
		return cBreak
	case "cont":
		return cContinue
	case "breakif":
		if in.E(s.X[0], env).Truthy() {
			return cBreak
		}
	case "contif":
		if in.E(s.X[0], env).Truthy() {
			return cContinue
		}
	case "comp":
		in.comp(out, s, env)
	case "slot":
		if len(in.slots) > 0 {
			if br := in.slots[len(in.slots)-1][s.S]; br != nil {
				in.hit("slot:filled")
				// the body belongs to the caller: its own placeholders are not defined
				saved := in.slots
				in.slots = saved[: len(saved)-1 : len(saved)-1]
				in.closed(out, br.B, env)
				in.slots = saved
			}
		}
	case "reserve":
		ins := in.inserts[s.S]
		if ins == nil {
			in.hit("reserve:empty")
			break
		}
		in.hit("reserve:filled")
		if len(ins.X) > 0 {
			t := in.E(ins.X[0], env).Text()
			in.did(len(t))
			out.WriteString(t)
			break
		}
		in.closed(out, ins.B, env)
	case "insert", "use":
	case "dump":
		unspec("dump")
	default:
		panic("bad statement " + s.K)
	}
	return cNone
}

func (in *Interp) comp(out *strings.Builder, s *S, env *Scope) {
	in.hit("comp")
	scope := NewScope(env)
	if len(s.X) > 0 {
		obj := in.E(s.X[0], env)
		for k, v := range obj.O {
			if k == "loop" {
				fail("loop is reserved")
			}
			scope.vars[k] = v
		}
	}
	slots := map[string]*Branch{}
	for i := range s.Br {
		slots[s.Br[i].Name] = &s.Br[i]
	}
	in.slots = append(in.slots, slots)
	for _, st := range in.Site[Resolve(s.S, "components")] {
		if c := in.stmt(out, st, scope); c != cNone {
			unspec("break or continue at the top of a component")
		}
	}
	in.slots = in.slots[:len(in.slots)-1]
}

func (in *Interp) pass() {
	if in.Steps--; in.Steps < 0 {
		panic(&Err{Unspec: true, Endless: true, Msg: "too many passes"})
	}
}

func (in *Interp) each(out *strings.Builder, s *S, env *Scope) ctl {
	scope := NewScope(env)
	arr := in.E(s.X[0], env)
	if arr.K != KArr {
		fail("not an array")
	}
	if len(arr.A) == 0 {
		if s.HasElse {
			in.hit("each:else")
			return in.block(out, s.Else, scope)
		}
		return cNone
	}
	for i, x := range arr.A {
		in.pass()
		in.hit("each:pass")
		scope.set(s.S, x)
		scope.vars["loop"] = VObj(map[string]V{
			"index": VInt(int64(i)),
			"iter":  VInt(int64(i + 1)),
			"first": VBool(i == 0),
			"last":  VBool(i == len(arr.A)-1),
		})
		c := in.block(out, s.B, scope)
		if c == cBreak {
			in.hit("each:break")
			break
		}
		if c == cContinue {
			in.hit("each:continue")
		}
	}
	return cNone
}

func (in *Interp) forLoop(out *strings.Builder, s *S, env *Scope) ctl {
	scope := NewScope(env)
	if s.Init != nil {
		var sink strings.Builder
		in.part(&sink, *s.Init, scope)
	}
	first := true
	for {
		if s.Cond != nil && !in.E(s.Cond, scope).Truthy() {
			if first && s.HasElse {
				in.hit("for:else")
				return in.block(out, s.Else, scope)
			}
			return cNone
		}
		first = false
		in.pass()
		in.hit("for:pass")
		if c := in.block(out, s.B, scope); c == cBreak {
			in.hit("for:break")
			return cNone
		} else if c == cContinue {
			in.hit("for:continue")
		}
		if s.Post == nil {
			continue
		}
		v := in.E(s.Post.E, scope)
		switch {
		case s.Post.N != "":
			scope.set(s.Post.N, v)
		case s.Init != nil && s.Init.N != "":
			scope.set(s.Init.N, v)
		case s.Init == nil && s.Post.E.K == "post" && s.Post.E.A[0].K == "var":
			scope.set(s.Post.E.A[0].S, v)
		}
	}
}

// Escape is how the text of a string literal reaches the output.
func Escape(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

// maxSize is the size of a value beyond which the result is not compared.
const maxSize = 1 << 21

func size(v V) int {
	n := 1 + len(v.S)
	for _, x := range v.A {
		if n += size(x); n > maxSize {
			return n
		}
	}
	for _, x := range v.O {
		if n += size(x); n > maxSize {
			return n
		}
	}
	return n
}

// E evaluates an expression.
func (in *Interp) E(e *E, env *Scope) V {
	v := in.e(e, env)
	if e.K == "call" || e.K == "bin" || e.K == "arr" || e.K == "obj" {
		n := size(v)
		if n > maxSize {
			panic(&Err{Unspec: true, Endless: true, Msg: "too large"})
		}
		in.did(n)
	}
	return v
}

func (in *Interp) e(e *E, env *Scope) V {
	switch e.K {
	case "int":
		i, err := strconv.ParseInt(e.S, 10, 64)
		if err != nil {
			fail("integer literal out of range")
		}
		return VInt(i)
	case "float":
		f, err := strconv.ParseFloat(e.S, 64)
		if err != nil {
			unspec("float literal out of range")
		}
		return VFloat(f)
	case "str":
		return VStr(Escape(e.S))
	case "true", "false":
		return VBool(e.K == "true")
	case "nil":
		return VNil()
	case "var":
		v, ok := env.get(e.S)
		if !ok {
			fail("unknown identifier " + e.S)
		}
		return v
	case "un":
		v := in.E(e.A[0], env)
		switch {
		case e.S == "-" && v.K == KInt:
			return VInt(-v.I)
		case e.S == "-" && v.K == KFloat:
			return VFloat(-v.F)
		case e.S == "!" && v.K == KBool:
			return VBool(!v.B)
		case e.S == "!" && v.K == KNil:
			return VBool(true)
		}
		fail("bad operand of " + e.S)
	case "post":
		v := in.E(e.A[0], env)
		d := int64(1)
		if e.S == "--" {
			d = -1
		}
		switch v.K {
		case KInt:
			return VInt(v.I + d)
		case KFloat:
			f := v.F + float64(d)
			if d < 0 && f != decimalDec(v.F) {
				unspec("binary or decimal subtraction")
			}
			return VFloat(f)
		}
		fail("bad operand of " + e.S)
	case "bin":
		return Binary(e.S, in.E(e.A[0], env), in.E(e.A[1], env))
	case "tern":
		if in.E(e.A[0], env).Truthy() {
			return in.E(e.A[1], env)
		}
		return in.E(e.A[2], env)
	case "arr":
		out := VArr()
		for _, a := range e.A {
			out.A = append(out.A, in.E(a, env))
		}
		return out
	case "obj":
		out := VObj(map[string]V{})
		for i, a := range e.A {
			if _, dup := out.O[e.N[i]]; dup {
				unspec("duplicate key")
			}
			out.O[e.N[i]] = in.E(a, env)
		}
		return out
	case "dot":
		v := in.E(e.A[0], env)
		if v.K != KObj {
			fail("property of a value that is no object")
		}
		return prop(v, e.S)
	case "idx":
		v := in.E(e.A[0], env)
		i := in.E(e.A[1], env)
		switch {
		case v.K == KArr && i.K == KInt:
			if i.I < 0 || i.I >= int64(len(v.A)) {
				return VNil()
			}
			return v.A[i.I]
		case v.K == KObj && i.K == KStr:
			if e.A[1].K == "str" {
				return prop(v, e.A[1].S)
			}
			return prop(v, i.S)
		}
		fail("index not supported")
	case "call":
		r := in.E(e.A[0], env)
		var args []V
		for _, a := range e.A[1:] {
			args = append(args, in.E(a, env))
		}
		if !IsBuiltin(r.K, e.S) {
			if f := in.Funcs[string(r.K)+e.S]; f != nil {
				return f(r, args)
			}
		}
		if in.Loose && r.K == KArr && len(r.A) > 0 && len(args) == 0 {
			switch e.S {
			case "shuffle":
				return r
			case "rand":
				return r.A[0]
			}
		}
		return CallBuiltin(r, e.S, args)
	}
	panic("bad expression " + e.K)
}

// decimalDec subtracts one from the decimal digits of the float.
func decimalDec(f float64) float64 {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	i, frac, ok := strings.Cut(s, ".")
	n, err := strconv.ParseUint(i, 10, 64)
	if !ok || err != nil || n < 1 {
		return f - 1
	}
	g, err := strconv.ParseFloat(strconv.FormatUint(n-1, 10)+"."+frac, 64)
	if err != nil {
		return math.NaN()
	}
	return g
}

func prop(v V, name string) V {
	if x, ok := v.O[name]; ok {
		return x
	}
	// a field of a Go struct is also reachable with its first letter lower-cased
	r := []rune(name)
	if len(r) > 0 {
		up := strings.ToUpper(string(r[0])) + string(r[1:])
		if x, ok := v.O[up]; ok {
			return x
		}
	}
	fail("unknown property " + name)
	return V{}
}

// Binary applies a binary operator.
func Binary(op string, a, b V) V {
	if a.K != b.K {
		fail("mixed operand types")
	}
	switch a.K {
	case KInt:
		x, y := a.I, b.I
		switch op {
		case "+":
			return VInt(x + y)
		case "-":
			return VInt(x - y)
		case "*":
			return VInt(x * y)
		case "/", "%":
			if y == 0 {
				fail("division by zero")
			}
			if y == -1 {
				// the one overflowing division wraps
				if op == "%" {
					return VInt(0)
				}
				return VInt(-x)
			}
			if op == "/" {
				return VInt(x / y)
			}
			return VInt(x % y)
		}
		return cmp(op, x == y, x < y, x > y)
	case KFloat:
		x, y := a.F, b.F
		switch op {
		case "+":
			return VFloat(x + y)
		case "-":
			return VFloat(x - y)
		case "*":
			return VFloat(x * y)
		case "/":
			return VFloat(x / y)
		case "%":
			fail("modulo of floats")
		}
		return cmp(op, x == y, x < y, x > y)
	case KStr:
		switch op {
		case "+":
			return VStr(a.S + b.S)
		case "==":
			return VBool(a.S == b.S)
		case "!=":
			return VBool(a.S != b.S)
		}
		fail("operator not defined for strings")
	case KBool, KNil:
		if op == "==" || op == "!=" {
			unspec("equality of booleans and nil")
		}
		fail("operator not defined")
	case KArr, KObj:
		if op == "==" || op == "!=" {
			unspec("equality of arrays and objects")
		}
	}
	fail("operator not defined")
	return V{}
}

func cmp(op string, eq, lt, gt bool) V {
	switch op {
	case "==":
		return VBool(eq)
	case "!=":
		return VBool(!eq)
	case "<":
		return VBool(lt)
	case ">":
		return VBool(gt)
	case "<=":
		return VBool(lt || eq)
	case ">=":
		return VBool(gt || eq)
	}
	panic("bad operator " + op)
}
