// Package lang is an independent model of the textwire language: a JSON
// serialisable AST, a printer with a controllable layout and a reference
// evaluator. It shares no code with textwire.
package lang

// E is an expression.
//
//	int   S=decimal digits       float S="1.5"     str S=content
//	true false nil               var S=name
//	un    S="-"|"!" A[0]         post S="++"|"--" A[0]
//	bin   S=op A[0] A[1]         tern A[0..2]
//	idx   A[0] A[1]              dot S=prop A[0]
//	call  S=func A[0]=receiver A[1:]=args
//	arr   A                      obj N=keys A=values
type E struct {
	K string   `json:"k"`
	S string   `json:"s,omitempty"`
	A []*E     `json:"a,omitempty"`
	N []string `json:"n,omitempty"`
}

// Part is one part of a {{ a; b = c }} block: an assignment when N is not
// empty, otherwise a printed expression.
type Part struct {
	N string `json:"n,omitempty"`
	E *E     `json:"e"`
}

// Branch is an @elseif or a slot passed by a caller.
type Branch struct {
	E    *E     `json:"e,omitempty"`
	Name string `json:"name,omitempty"`
	B    []*S   `json:"b,omitempty"`
}

// S is a statement.
//
//	text  S                       comment S
//	code  P                       dump X
//	if    X[0] B Br Else          each S=var X[0] B Else
//	for   Init Cond Post B Else   break cont
//	breakif X[0]  contif X[0]
//	comp  S=name X[0]=obj or none Br=slots
//	slot  S=name ("" = default)   reserve S
//	insert S=name X[0] or B       use S
type S struct {
	K       string   `json:"k"`
	S       string   `json:"s,omitempty"`
	X       []*E     `json:"x,omitempty"`
	P       []Part   `json:"p,omitempty"`
	Init    *Part    `json:"init,omitempty"`
	Cond    *E       `json:"cond,omitempty"`
	Post    *Part    `json:"post,omitempty"`
	B       []*S     `json:"b,omitempty"`
	Br      []Branch `json:"br,omitempty"`
	HasElse bool     `json:"haselse,omitempty"`
	Else    []*S     `json:"else,omitempty"`
}

func Int(s string) *E { return &E{K: "int", S: s} }
func Flt(s string) *E { return &E{K: "float", S: s} }
func Str(s string) *E { return &E{K: "str", S: s} }
func Bool(b bool) *E {
	if b {
		return &E{K: "true"}
	}
	return &E{K: "false"}
}
func Nil() *E                   { return &E{K: "nil"} }
func Var(s string) *E           { return &E{K: "var", S: s} }
func Un(op string, a *E) *E     { return &E{K: "un", S: op, A: []*E{a}} }
func Post(op string, a *E) *E   { return &E{K: "post", S: op, A: []*E{a}} }
func Bin(op string, a, b *E) *E { return &E{K: "bin", S: op, A: []*E{a, b}} }
func Tern(a, b, c *E) *E        { return &E{K: "tern", A: []*E{a, b, c}} }
func Idx(a, b *E) *E            { return &E{K: "idx", A: []*E{a, b}} }
func Dot(a *E, p string) *E     { return &E{K: "dot", S: p, A: []*E{a}} }
func Call(r *E, f string, a ...*E) *E {
	return &E{K: "call", S: f, A: append([]*E{r}, a...)}
}
func Arr(a ...*E) *E             { return &E{K: "arr", A: a} }
func Obj(n []string, a ...*E) *E { return &E{K: "obj", N: n, A: a} }

func Text(s string) *S         { return &S{K: "text", S: s} }
func Comment(s string) *S      { return &S{K: "comment", S: s} }
func Print(e *E) *S            { return &S{K: "code", P: []Part{{E: e}}} }
func Assign(n string, e *E) *S { return &S{K: "code", P: []Part{{N: n, E: e}}} }
func If(c *E, b ...*S) *S      { return &S{K: "if", X: []*E{c}, B: b} }
func Each(v string, a *E, b ...*S) *S {
	return &S{K: "each", S: v, X: []*E{a}, B: b}
}

// Ops is the list of binary operators.
var Ops = []string{"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">="}

// Walk visits the statements and everything nested in them.
func Walk(b []*S, fs func(*S), fe func(*E)) {
	for _, s := range b {
		if s == nil {
			continue
		}
		if fs != nil {
			fs(s)
		}
		for _, x := range s.X {
			WalkE(x, fe)
		}
		for _, p := range s.P {
			WalkE(p.E, fe)
		}
		if s.Init != nil {
			WalkE(s.Init.E, fe)
		}
		WalkE(s.Cond, fe)
		if s.Post != nil {
			WalkE(s.Post.E, fe)
		}
		Walk(s.B, fs, fe)
		for _, br := range s.Br {
			WalkE(br.E, fe)
			Walk(br.B, fs, fe)
		}
		Walk(s.Else, fs, fe)
	}
}

// WalkE visits the expression and everything nested in it.
func WalkE(e *E, f func(*E)) {
	if e == nil || f == nil {
		return
	}
	f(e)
	for _, a := range e.A {
		WalkE(a, f)
	}
}
