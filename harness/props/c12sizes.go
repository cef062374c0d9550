package props

import (
	"encoding/json"
	"errors"
	"math"
	"math/big"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	textwire "github.com/textwire/textwire/v2"
	"pgregory.net/rapid"
	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

type szNat struct {
	name string
	max  int
	more int
	nat  func(c sz) *NatCase
}

func natInt(i int) *NV    { return &NV{I: int64(i)} }
func natStr(s string) *NV { return &NV{S: []byte(s)} }

var tInt, tStr, tAny = &NT{K: "int"}, &NT{K: "string"}, &NT{K: "any"}

func natVals(n int, f func(i int) *NV) []*NV {
	var out []*NV
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return out
}

// keyOf is a key with a place in a row of n.
func keyOf(v, i int) []byte {
	s := itoa(i)
	switch v {
	case 0:
		return []byte("k" + s)
	case 1:
		return []byte("K" + strings.Repeat("é", i%7) + s)
	}
	return []byte(strings.Repeat("x", i%300) + s)
}

func natReads(x *E, at, n int, sub func(e *E) *E) []*S {
	var out []*S
	for _, i := range []int{at, 0, n - 1, n / 2} {
		out = append(out, Print(sub(Idx(x, Int(itoa(i))))), Text("|"))
	}
	return append(out, Print(Call(x, "len")), Print(Idx(x, Int(itoa(n)))))
}

var szC12 = []szNat{
	{"slices of numbers", 5000, 100000, func(c sz) *NatCase {
		k := []string{"int", "uint8", "float32", "any"}[c.V]
		t := &NT{K: "slice", Elem: &NT{K: k}}
		v := &NV{A: natVals(c.N, func(i int) *NV {
			switch k {
			case "float32":
				return &NV{F: float64(i) + 0.5}
			case "uint8":
				return natInt(i % 256)
			case "any":
				return &NV{Dyn: tInt, A: []*NV{natInt(i)}}
			}
			return natInt(i)
		})}
		return &NatCase{Vars: map[string]*Nat{"x": {t, v}}, Prog: natReads(Var("x"), c.At, c.N, func(e *E) *E { return e })}
	}},
	{"slices printed", 3000, 30000, func(c sz) *NatCase {
		t := &NT{K: "slice", Elem: []*NT{tInt, tStr, {K: "slice", Elem: tInt}, {K: "ptr", Elem: tInt}}[c.V]}
		v := &NV{A: natVals(c.N, func(i int) *NV {
			switch c.V {
			case 1:
				return natStr("é" + itoa(i))
			case 2:
				return &NV{A: []*NV{natInt(i), natInt(i + 1)}}
			case 3:
				return &NV{A: []*NV{natInt(i)}, Nil: i == c.At}
			}
			return natInt(i)
		})}
		return &NatCase{Vars: map[string]*Nat{"x": {t, v}}, Prog: []*S{Print(Var("x"))}}
	}},
	{"slices in a loop", 2000, 20000, func(c sz) *NatCase {
		st := &NT{K: "struct", Fields: []NF{{"Name", tStr}, {"hidden", tInt}, {"ID", tInt}}}
		t := &NT{K: "slice", Elem: st}
		if c.V%2 == 1 {
			t.Elem = &NT{K: "ptr", Elem: st}
		}
		v := &NV{A: natVals(c.N, func(i int) *NV {
			x := &NV{A: []*NV{natStr("n" + itoa(i)), natInt(1), natInt(i)}}
			if c.V%2 == 1 {
				return &NV{A: []*NV{x}}
			}
			return x
		})}
		return &NatCase{Vars: map[string]*Nat{"x": {t, v}}, Prog: []*S{Each("e", Var("x"), Print(Dot(Var("e"), "name")), Text(":"), Print(Dot(Var("e"), "ID")), Text(" "))}}
	}},
	{"maps", 5000, 50000, func(c sz) *NatCase {
		t := &NT{K: "map", Elem: tInt}
		v := &NV{A: natVals(c.N, natInt)}
		for i := 0; i < c.N; i++ {
			v.Keys = append(v.Keys, keyOf(c.V%3, i))
		}
		at := min(c.At, c.N-1)
		b := []*S{}
		for _, i := range []int{at, 0, c.N - 1} {
			b = append(b, Print(Idx(Var("x"), Str(string(keyOf(c.V%3, i))))), Text("|"))
		}
		if c.V == 3 && c.N <= 1000 {
			b = append(b, Print(Var("x")))
		}
		return &NatCase{Vars: map[string]*Nat{"x": {t, v}}, Prog: b}
	}},
	{"structs", 300, 2000, func(c sz) *NatCase {
		t, v := &NT{K: "struct"}, &NV{}
		for i := 0; i < c.N; i++ {
			name := "Field" + itoa(i)
			if c.V%2 == 1 {
				name = "F" + strings.Repeat("o", i%70) + itoa(i)
			}
			if i%5 == 3 {
				name = "hidden" + itoa(i)
			}
			ft, fv := tInt, natInt(i)
			if c.V > 1 && i%3 == 0 {
				ft, fv = tStr, natStr("s"+itoa(i))
			}
			t.Fields = append(t.Fields, NF{name, ft})
			v.A = append(v.A, fv)
		}
		at := min(c.At, c.N-1)
		b := []*S{}
		for _, i := range []int{at, 0, c.N - 1, c.N / 2} {
			if n := t.Fields[i].Name; exported(n) {
				b = append(b, Print(Dot(Var("x"), n)), Text(" "), Print(Dot(Var("x"), lowerFirst(n))), Text("|"))
			}
		}
		b = append(b, Print(Var("x")))
		return &NatCase{Vars: map[string]*Nat{"x": {t, v}}, Prog: b}
	}},
	{"pointers to pointers", 100, 300, func(c sz) *NatCase {
		t, v := tStr, natStr("end")
		for i := 0; i < c.N; i++ {
			nv := &NV{A: []*NV{v}}
			if c.V == 1 && i == c.At {
				nv = &NV{Nil: true}
			}
			t, v = &NT{K: "ptr", Elem: t}, nv
		}
		return &NatCase{Vars: map[string]*Nat{"x": {t, v}}, Prog: []*S{Print(Var("x")), Text("|"), If(Var("x"), Text("T"))}}
	}},
	{"depth", 1000, 2400, func(c sz) *NatCase {
		t, v := tStr, natStr("end")
		e := Var("x")
		var es []func(e *E) *E
		for i := 0; i < c.N; i++ {
			// any at every level: the types stay few
			in := &NV{Dyn: t, A: []*NV{v}}
			switch (c.V + i*(c.V/3)) % 3 {
			case 0:
				t, v = &NT{K: "slice", Elem: tAny}, &NV{A: []*NV{in}}
				es = append(es, func(e *E) *E { return Idx(e, Int("0")) })
			case 1:
				t, v = &NT{K: "map", Elem: tAny}, &NV{A: []*NV{in}, Keys: [][]byte{[]byte("k")}}
				es = append(es, func(e *E) *E { return Dot(e, "k") })
			case 2:
				t, v = &NT{K: "struct", Fields: []NF{{"A", tAny}, {"B", tInt}}}, &NV{A: []*NV{in, natInt(i)}}
				es = append(es, func(e *E) *E { return Dot(e, "a") })
			}
		}
		b := []*S{}
		if c.N <= 400 {
			for i := len(es) - 1; i >= 0; i-- {
				e = es[i](e)
			}
			b = append(b, Print(e), Text("|"))
		}
		b = append(b, Print(Var("x")))
		return &NatCase{Vars: map[string]*Nat{"x": {t, v}}, Prog: b}
	}},
	{"unsupported last", 2000, 20000, func(c sz) *NatCase {
		t := &NT{K: "slice", Elem: tAny}
		bad := natBad[(c.N+c.V)%len(natBad)]
		at := min(c.At, c.N-1)
		v := &NV{A: natVals(c.N, func(i int) *NV {
			if i == at {
				return &NV{Dyn: &NT{K: bad}, A: []*NV{{}}}
			}
			return &NV{Dyn: tInt, A: []*NV{natInt(i)}}
		})}
		if c.V%2 == 1 {
			t = &NT{K: "map", Elem: tAny}
			for i := 0; i < c.N; i++ {
				v.Keys = append(v.Keys, keyOf(0, i))
			}
		}
		return &NatCase{Vars: map[string]*Nat{"x": {t, v}}, Prog: []*S{Text("a"), Print(Int("1"))}}
	}},
	{"strings", 70000, 1000000, func(c sz) *NatCase {
		s := strings.Repeat([]string{"x", "é", "<b>", "\xff"}[c.V], c.N)
		s = s[:min(c.At, len(s))] + "\x00" + s[min(c.At, len(s)):]
		b := []*S{Print(Var("x")), Text("|")}
		if c.V < 3 {
			b = append(b, Print(Call(Var("x"), "len")))
		}
		return &NatCase{Vars: map[string]*Nat{"x": {tStr, natStr(s)}}, Prog: b}
	}},
	{"keys", 5000, 50000, func(c sz) *NatCase {
		k := strings.Repeat([]string{"x", "é", "a b", "x"}[c.V], c.N)
		t, v := &NT{K: "map", Elem: tStr}, &NV{Keys: [][]byte{[]byte(k), []byte(k + "1"), []byte(k[:len(k)-1])}, A: []*NV{natStr("hit"), natStr("longer"), natStr("shorter")}}
		b := []*S{Print(Idx(Var("x"), Str(k))), Text("|"), Print(Idx(Var("x"), Var("k")))}
		if dotKey(k) {
			b = append(b, Print(Dot(Var("x"), k)))
		}
		return &NatCase{Vars: map[string]*Nat{"x": {t, v}, "k": {tStr, natStr(k)}}, Prog: b}
	}},
	{"field names", 2000, 20000, func(c sz) *NatCase {
		k := "F" + strings.Repeat("x", c.N)
		if c.V%2 == 1 {
			k = "F" + strings.Repeat("_X9", c.N)
		}
		t, v := &NT{K: "struct", Fields: []NF{{k, tStr}, {k + "1", tInt}}}, &NV{A: []*NV{natStr("hit"), natInt(1)}}
		return &NatCase{Vars: map[string]*Nat{"x": {t, v}}, Prog: []*S{Print(Dot(Var("x"), k)), Print(Dot(Var("x"), lowerFirst(k))), Print(Idx(Var("x"), Str(k))), Print(Var("x"))}}
	}},
	{"variables", 3000, 30000, func(c sz) *NatCase {
		x := &NatCase{Vars: map[string]*Nat{}}
		for i := 0; i < c.N; i++ {
			x.Vars["v"+strings.Repeat("a", c.V*10)+itoa(i)] = &Nat{tInt, natInt(i)}
		}
		for _, i := range []int{min(c.At, c.N-1), 0, c.N - 1} {
			x.Prog = append(x.Prog, Print(Var("v"+strings.Repeat("a", c.V*10)+itoa(i))), Text("|"))
		}
		return x
	}},
	{"slices of slices", 200, 1000, func(c sz) *NatCase {
		t := &NT{K: "slice", Elem: &NT{K: "slice", Elem: &NT{K: "map", Elem: tInt}}}
		row := func(i int) *NV {
			return &NV{A: natVals(1+i%3, func(j int) *NV { return &NV{Keys: [][]byte{[]byte("k")}, A: []*NV{natInt(i*10 + j)}} })}
		}
		v := &NV{A: natVals(c.N, row)}
		return &NatCase{Vars: map[string]*Nat{"x": {t, v}}, Prog: []*S{Print(Dot(Idx(Idx(Var("x"), Int(itoa(min(c.At, c.N-1)))), Int("0")), "k")), Text("|"), Each("r", Var("x"), Each("m", Var("r"), Print(Dot(Var("m"), "k")), Text(",")))}}
	}},
}

// c12Alias makes values of the data shared: a pointer, slice or map at two places.
func c12Alias(r *rapid.T) *NatCase {
	c := c12Gen(0)(r)
	g := gen.New(r)
	type place struct {
		t *NT
		v *NV
	}
	var all []place
	var walk func(t *NT, v *NV)
	walk = func(t *NT, v *NV) {
		all = append(all, place{t, v})
		if v.Nil {
			return
		}
		switch t.K {
		case "any":
			walk(v.Dyn, v.A[0])
		case "ptr", "slice", "map":
			for _, e := range v.A {
				walk(t.Elem, e)
			}
		case "struct":
			for i, e := range v.A {
				walk(t.Fields[i].T, e)
			}
		}
	}
	var names []string
	for k := range c.Vars {
		names = append(names, k)
	}
	sortStrings(names)
	// somewhere to put things
	for i, n := 0, 1+g.N(2); i < n; i++ {
		k := "z" + itoa(i)
		t := gen.Pick(g, []*NT{{K: "slice", Elem: tAny}, {K: "struct", Fields: []NF{{"A", tAny}, {"B", tAny}, {"C", tInt}}}, {K: "map", Elem: tAny}})
		v := &NV{}
		for j := 0; j < 3; j++ {
			if t.K == "struct" && j == 2 {
				v.A = append(v.A, natInt(5))
				break
			}
			v.A = append(v.A, &NV{Nil: true})
			v.Keys = append(v.Keys, []byte("k"+itoa(j)))
		}
		if t.K != "map" {
			v.Keys = nil
		}
		c.Vars[k] = &Nat{t, v}
		names = append(names, k)
	}
	contains := func(root *NV, x *NV) bool {
		found := false
		var rec func(v *NV)
		rec = func(v *NV) {
			found = found || v == x
			for _, e := range v.A {
				rec(e)
			}
		}
		rec(root)
		return found
	}
	for i, n := 0, 2+g.N(4); i < n; i++ {
		all = nil
		for _, k := range names {
			walk(c.Vars[k].T, c.Vars[k].V)
		}
		var refs, to []place
		for _, p := range all {
			if (p.t.K == "ptr" || p.t.K == "slice" || p.t.K == "map") && !p.v.Nil {
				refs = append(refs, p)
			}
		}
		if len(refs) == 0 || len(all) > 400 {
			break
		}
		src := refs[g.N(len(refs))]
		key := src.t.goType()
		for _, p := range all {
			if contains(src.v, p.v) || contains(p.v, src.v) {
				continue
			}
			if p.t.K == "any" || p.t.goType() == key {
				to = append(to, p)
			}
		}
		if len(to) == 0 {
			continue
		}
		dst := to[g.N(len(to))]
		if src.v.Ref == 0 {
			src.v.Ref = i + 1
		}
		if dst.t.K == "any" {
			*dst.v = NV{Dyn: src.t, A: []*NV{src.v}}
		} else {
			*dst.v = *src.v
		}
	}
	c.Prog = nil
	extra := map[string]*Nat{}
	for _, k := range names {
		e, v := natPath(g, k, c.Vars[k], extra)
		if g.N(3) == 2 {
			e = c12Touch(g, e, v)
		}
		c.Prog = append(c.Prog, Print(e), Text("|"))
		if g.N(2) == 1 {
			c.Prog = append(c.Prog, Print(Var(k)), Text("|"))
		}
	}
	for k, n := range extra {
		c.Vars[k] = n
	}
	return c
}

// ---- values of declared types

type c12Base struct {
	ID   int
	Name string
}
type c12Meta struct{ Tags []string }
type c12User struct {
	c12Base
	Base   c12Meta
	Age    *uint8
	Active bool
	priv   string
	Score  float32
	Extra  map[string]any
	Next   *c12User
	Any    any
	JSON   string `json:"other" xml:"x"`
}
type C12Pub struct{ Title string }
type c12Emb struct {
	C12Pub
	N int
}
type c12EmbPtr struct {
	*C12Pub
	N int
}
type c12Str string
type c12Int int16
type c12Bool bool
type c12Float float32
type c12List []c12Str
type c12Map map[c12Str]c12Int
type c12Rec []c12Rec
type c12RecMap map[string]c12RecMap
type c12Hidden struct {
	*c12Base
	c12List
	c12Int
	N int
}
type c12Opt[T any] struct {
	V  T
	OK bool
}
type c12Stringer struct{ X int }

func (c12Stringer) String() string               { return "CALLED" }
func (c12Stringer) MarshalText() ([]byte, error) { return nil, errors.New("CALLED") }
func (c12Int) String() string                    { return "CALLED" }
func (c12Str) Error() string                     { return "CALLED" }
func (c12Stringer) MarshalJSON() ([]byte, error) { return nil, errors.New("CALLED") }
func (c c12Stringer) Get() int                   { return c.X }
func c12Ptr[T any](x T) *T                       { return &x }
func c12Chain(n int) (head *c12User) {
	for i := n; i > 0; i-- {
		head = &c12User{c12Base: c12Base{ID: i}, Score: float32(i), JSON: itoa(i), Next: head}
	}
	return head
}

type c12Typed struct {
	name string
	make func() any
	src  string
	want string // "ERR": an error
}

var c12Types = []c12Typed{
	{"struct", func() any { return c12User{Age: c12Ptr(uint8(7)), Active: true, priv: "P", Score: 1.5} }, "{{ x.age }} {{ x.Age }} {{ x.active }} {{ x.score }} {{ x.next }}|{{ x.any }}|{{ x.extra }}", "7 7 1 1.5 ||{}"},
	{"embedded below a field", func() any { return c12User{Base: c12Meta{[]string{"a", "b"}}} }, "{{ x.base.tags[1] }}{{ x.Base.Tags }}", "ba, b"},
	{"tags of fields", func() any { return c12User{JSON: "j"} }, "{{ x.JSON }}{{ x['jSON'] }}", "jj"},
	{"a tag is no name", func() any { return c12User{JSON: "j"} }, "{{ x.other }}", "ERR"},
	{"unexported", func() any { return c12User{priv: "P"} }, "{{ x.priv }}", "ERR"},
	{"unexported printed", func() any { return struct{ A, b int }{1, 424242} }, "{{ x }}", "{A: 1}"},
	{"unexported embedded struct", func() any { return c12User{c12Base: c12Base{ID: 424242, Name: "hid"}} }, "{{ x.c12Base.ID }}", "ERR"},
	{"unexported embedded struct by index", func() any { return c12User{c12Base: c12Base{ID: 424242, Name: "hid"}} }, "{{ x['c12Base'].name }}", "ERR"},
	{"unexported embedded struct with a capital", func() any { return c12User{c12Base: c12Base{ID: 424242, Name: "hid"}} }, "{{ x.C12Base.name }}", "ERR"},
	{"unexported embedded pointer", func() any { return c12Hidden{&c12Base{ID: 424242}, c12List{"hid"}, 5, 6} }, "{{ x.c12Base.id }}", "ERR"},
	{"unexported embedded slice", func() any { return c12Hidden{&c12Base{ID: 424242}, c12List{"hid"}, 5, 6} }, "{{ x.c12List[0] }}", "ERR"},
	{"unexported embedded integer", func() any { return c12Hidden{nil, nil, 4242, 6} }, "{{ x.c12Int }}", "ERR"},
	{"beside unexported embedded fields", func() any { return c12Hidden{&c12Base{ID: 424242}, c12List{"hid"}, 5, 6} }, "{{ x.N }}{{ x.n }}{{ x }}", "66{N: 6}"},
	{"unexported fields of unsupported kinds", func() any {
		return struct {
			N  int
			ch chan int
			f  func()
			m  map[int]int
			a  [2]int
			mu sync.Mutex
		}{N: 5}
	}, "{{ x.n }}{{ x }}", "5{N: 5}"},
	{"tags", func() any {
		return struct {
			A string `json:"-"`
			B int    `json:"-,"`
			C int    `json:"c,omitempty"`
			D string `json:",string"`
			E int    `yaml:"-"`
			F int    `xml:"-"`
			G int    `db:"-" textwire:"-"`
			H int    `textwire:"hh" template:"-" mapstructure:"-"`
			I []int  `json:",inline" yaml:",flow"`
			J *int   `json:"j,omitempty"`
			K bool   `a:""`
		}{"a", 2, 0, "", 5, 6, 7, 8, nil, nil, true}
	}, "{{ x.A }}{{ x.b }}{{ x.C }}{{ x.d }}{{ x.e }}{{ x.f }}{{ x.G }}{{ x.h }}{{ x.i.len() }}{{ x.j }}{{ x.K }}", "a20567801"},
	{"tagged fields printed", func() any {
		return struct {
			A int `json:"-"`
			B int `json:"b2,omitempty"`
		}{1, 0}
	}, "{{ x }}", "{A: 1, B: 0}"},
	{"a tag of another field", func() any {
		return struct {
			A int `json:"B"`
			B int `json:"A"`
		}{1, 2}
	}, "{{ x.A }}{{ x.a }}{{ x.B }}{{ x.b }}", "1122"},
	{"omitempty is no name", func() any {
		return struct {
			A int `json:"omitempty"`
		}{1}
	}, "{{ x.omitempty }}", "ERR"},
	{"header", func() any { return http.Header{"A": {"1", "2"}, "Content-Type": nil} }, "{{ x.A[1] }}{{ x.A }}|{{ x['Content-Type'].len() }}", "21, 2|0"},
	{"raw message", func() any { return json.RawMessage("{}") }, "{{ x }}{{ x.len() }}", "123, 1252"},
	{"number as text", func() any { return []json.Number{"1.50", "x"} }, "{{ x[0] }}{{ x[0].len() }}{{ x[1] }}", "1.504x"},
	{"big integer", func() any { return big.NewInt(5) }, "{{ x }}", "{}"},
	{"url", func() any { u, _ := url.Parse("http://h/p?q=1"); return u }, "{{ x.host }}{{ x.Path }}{{ x.rawQuery }}{{ x.User }}{{ x.forceQuery }}", "h/pq=10"},
	{"optional", func() any {
		return struct {
			S c12Opt[string]
			T *c12Opt[int]
		}{c12Opt[string]{"v", true}, nil}
	}, "{{ x.s.v }}{{ x.S.OK }}{{ x.t }}", "v1"},
	{"atomic", func() any { var x atomic.Int64; x.Store(5); return &x }, "{{ x }}", "{}"},
	{"nil slices and maps", func() any {
		return struct {
			A []int
			B []string
			C map[string]int
			D []any
			E map[string]any
		}{}
	}, "{{ x.a.len() }}{{ x.B.len() }}{{ x.C }}{{ x.d }}{{ x.e }}{{ x.a.append(1) }}", "00{}{}1"},
	{"pointers to pointers", func() any { a := 5; b := &a; c := &b; d := &c; return []any{d, &d, struct{ P ***int }{d}} }, "{{ x[0] + 1 }}{{ x[1] }}{{ x[2].p }}", "655"},
	{"pointer to nil pointer", func() any { var a *int; b := &a; return []any{b, &b} }, "[{{ x[0] }}{{ x[1] }}]{{ x.len() }}", "[]2"},
	{"typed nil in an interface", func() any {
		var u *c12User
		var e error
		return []any{any(u), e, (*int)(nil), []int(nil), map[string]int(nil)}
	}, "[{{ x[0] }}{{ x[1] }}{{ x[2] }}]{{ x[3].len() }}{{ x[4] }}", "[]0{}"},
	{"float32", func() any { return []float32{0.1, 1, 16777216, -2.5} }, "{{ x[1] }} {{ x[2] }} {{ x[3] }}", "1.0 16777216.0 -2.5"},
	{"embedded exported struct", func() any { return c12Emb{C12Pub{"t"}, 5} }, "{{ x.C12Pub.Title }}{{ x.c12Pub.title }}{{ x.n }}", "tt5"},
	{"embedded pointer", func() any { return c12EmbPtr{&C12Pub{"t"}, 5} }, "{{ x.C12Pub.Title }}{{ x.N }}", "t5"},
	{"named kinds", func() any {
		return []any{c12Str("s"), c12Int(-3), c12Bool(true), c12Float(0.5), c12List{"l"}, c12Map{"k": 4}}
	}, "{{ x[0] }}{{ x[1] }}{{ x[2] }}{{ x[3] }}{{ x[4][0] }}{{ x[5].k }}", "s-310.5l4"},
	{"named kinds printed", func() any { return []any{c12Str("s"), c12Int(-3), c12List{"l", "m"}, c12Map{"k": 4}} }, "{{ x }}", "s, -3, l, m, {k: 4}"},
	{"methods", func() any { return []any{c12Stringer{3}, &c12Stringer{4}} }, "{{ x[0].x }}{{ x[1].X }}{{ x[0] }}", "34{X: 3}"},
	{"methods are not fields", func() any { return c12Stringer{3} }, "{{ x.Get }}", "ERR"},
	{"recursive type", func() any { return c12Rec{c12Rec{}, c12Rec{c12Rec{}, nil}} }, "{{ x.len() }}{{ x[1].len() }}{{ x[1][0].len() }}{{ x[1][1].len() }}", "2200"},
	{"recursive map", func() any { return c12RecMap{"a": {"b": {"c": nil}}} }, "{{ x.a.b.c }}|{{ x }}", "{}|{a: {b: {c: {}}}}"},
	{"time", func() any { return time.Unix(5, 5) }, "{{ x }}", "{}"},
	{"duration", func() any { return time.Second }, "{{ x }}", "1000000000"},
	{"month", func() any { return time.March }, "{{ x + 1 }}", "4"},
	{"error value", func() any { return errors.New("secret") }, "{{ x }}", "{}"},
	{"bytes", func() any { return []byte("ab") }, "{{ x[0] }} {{ x }}", "97 97, 98"},
	{"rune", func() any { return 'é' }, "{{ x }}", "233"},
	{"pointer to slice", func() any { return &[]string{"a", "b"} }, "{{ x[1] }}{{ x.len() }}", "b2"},
	{"pointer to map", func() any { return &map[string]int{"a": 1} }, "{{ x.a }}", "1"},
	{"pointer to any", func() any { var a any = 5; return &a }, "{{ x }}", "5"},
	{"any in any", func() any { var a any = 5; var b any = &a; return &b }, "{{ x + 1 }}", "6"},
	{"nil pointers in a slice", func() any { return []*int{nil, c12Ptr(1), nil} }, "{{ x[0] }}-{{ x[1] }}-{{ x.len() }}", "-1-3"},
	{"nil interface", func() any { return []error{nil} }, "{{ x[0] }}-{{ x.len() }}", "-1"},
	{"nil", func() any { return nil }, "[{{ x }}]{{ x ? 1 : 2 }}", "[]2"},
	{"smallest and largest", func() any {
		return []any{int8(math.MinInt8), int16(math.MinInt16), int32(math.MinInt32), int64(math.MinInt64), uint8(math.MaxUint8), uint16(math.MaxUint16), uint32(math.MaxUint32), uint64(math.MaxInt64), uint(math.MaxInt64)}
	}, "{{ x }}", "-128, -32768, -2147483648, -9223372036854775808, 255, 65535, 4294967295, 9223372036854775807, 9223372036854775807"},
	{"one pointer twice", func() any { u := &c12User{Score: 2.5}; return []*c12User{u, u, {Next: u}} }, "{{ x[0].score }}{{ x[1].score }}{{ x[2].next.score }}", "2.52.52.5"},
	{"one slice twice", func() any { s := []int{1, 2, 3}; return map[string]any{"a": s, "b": s, "c": s[:2], "d": s[1:]} }, "{{ x.a }}|{{ x.b }}|{{ x.c }}|{{ x.d }}", "1, 2, 3|1, 2, 3|1, 2|2, 3"},
	{"one map twice", func() any { m := map[string]any{"k": 1}; return []any{m, map[string]any{"m": m}, m} }, "{{ x[0].k }}{{ x[1].m.k }}{{ x[2].k }}", "111"},
	{"prefixes of one slice", func() any {
		s := []any{1, 2, 3}
		return []any{s, s[:0], s[:1], s[:2], s}
	}, "{{ x[0] }}|{{ x[1] }}|{{ x[2] }}|{{ x[3] }}|{{ x[4] }}", "1, 2, 3||1|1, 2|1, 2, 3"},
	{"a slice of its own elements", func() any {
		s := make([]any, 3)
		s[0], s[1] = 1, 2
		s[2] = s[:2]
		return s
	}, "{{ x[2] }}{{ x.len() }}", "1, 23"},
	{"a struct and its first field", func() any {
		type in struct{ A int }
		type out struct{ In in }
		o := &out{in{5}}
		return []any{o, &o.In, &o.In.A, o}
	}, "{{ x[0].In.a }}{{ x[1].a }}{{ x[2] }}{{ x[3].In.a }}", "5555"},
	{"a pointer to its own first field", func() any {
		type T struct {
			P *int
			N int
		}
		t := &T{N: 3}
		t.P = &t.N
		return t
	}, "{{ x.p }}{{ x.n }}", "33"},
	{"empty slices and structs", func() any {
		type E struct{}
		type S struct {
			A, B *E
			C    []E
			D    []*E
		}
		e := &E{}
		return S{e, e, []E{{}, {}}, []*E{e, e}}
	}, "{{ x.a }}{{ x.b }}{{ x.c.len() }}{{ x.d.len() }}{{ x.d[1] }}", "{}{}22{}"},
	{"empty slices in empty slices", func() any {
		type L [][]struct{}
		return []any{L{{}, {}}, [][]int{{}, {}}, []any{[]any{}, []any{}}}
	}, "{{ x[0].len() }}{{ x[1].len() }}{{ x[2].len() }}", "222"},
	{"long chain", func() any { return c12Chain(500) }, "{{ x.score }}{{ x.next.next.JSON }}", "1.03"},
	{"very long chain", func() any { return c12Chain(20000) }, "{{ x.next.next.next.JSON }}", "4"},
	{"diamond", func() any {
		l := &c12User{Score: 1}
		for i := 0; i < 12; i++ {
			l = &c12User{Next: l, Any: l}
		}
		return l
	}, "{{ x.next.any.next.any.next.any.next.any.next.any.next.any.score }}", "1.0"},
	{"cycle", func() any { u := &c12User{}; u.Next = &c12User{Next: u}; return u }, "a", "ERR"},
	{"cycle in data", func() any { m := map[string]any{}; m["m"] = []any{m}; return m }, "a", "ERR"},
	{"array", func() any { return [2]int{1, 2} }, "a", "ERR"},
	{"array in struct", func() any { return struct{ A [3]string }{} }, "a", "ERR"},
	{"pointer to array", func() any { return &[1]int{1} }, "a", "ERR"},
	{"func in any", func() any { return struct{ F any }{func() {}} }, "a", "ERR"},
	{"named func", func() any { return []time.Month{} }, "{{ x.len() }}", "0"},
	{"int keys", func() any { return map[int]string{1: "a"} }, "a", "ERR"},
	{"struct keys", func() any { return map[c12Base]int{{1, "a"}: 1} }, "a", "ERR"},
	{"named int keys", func() any { return map[c12Int]int{1: 1} }, "a", "ERR"},
	{"any keys", func() any { return map[any]any{"a": 1} }, "a", "ERR"},
	{"complex", func() any { return []complex128{1} }, "a", "ERR"},
	{"channel", func() any { return struct{ C <-chan int }{make(chan int)} }, "a", "ERR"},
	{"anonymous", func() any {
		return struct {
			A, B int
			C    []struct{ D *string }
		}{1, 2, []struct{ D *string }{{nil}, {c12Ptr("d")}}}
	}, "{{ x.a }}{{ x.B }}{{ x.c[0].d }}{{ x.c[1].D }}", "12d"},
	{"like a property of others", func() any { return map[string]any{"len": 1, "Len": 2, "index": 3, "": 4} }, "{{ x.len }}{{ x.Len }}{{ x.index }}{{ x['Len'] }}", "1232"},
	{"keys that differ in case", func() any { return map[string]int{"name": 1, "Name": 2, "NAME": 3, "nAME": 4} }, "{{ x.name }}{{ x.Name }}{{ x.NAME }}{{ x.nAME }}", "1234"},
	{"fields that differ in case", func() any { return struct{ Name, NAME, NamE int }{1, 2, 3} }, "{{ x.Name }}{{ x.NAME }}{{ x.NamE }}{{ x.name }}{{ x.nAME }}{{ x.namE }}", "123123"},
	{"lower-case field behind", func() any { return struct{ name, Name, Other string }{"hid", "vis", "o"} }, "{{ x.name }}{{ x.Name }}", "visvis"},
}

type c12TypedCase struct {
	Name string `json:"name"`
	How  int    `json:"how"`
}

func judge12Typed(c c12TypedCase) core.Verdict {
	for _, t := range c12Types {
		if t.name != c.Name {
			continue
		}
		src, want := t.src, t.want
		wrap := func(x any) map[string]any {
			data := map[string]any{"x": x, "other": 1}
			switch c.How {
			case 1:
				data = map[string]any{"o": map[string]any{"x": x, "y": 1}}
			case 2:
				data = map[string]any{"o": []any{0, x, x}}
			case 3:
				data = map[string]any{"o": struct {
					Y int
					X any
				}{1, &x}}
			case 4:
				data = map[string]any{"x": x, "y": x, "z": &x}
			}
			return data
		}
		switch c.How {
		case 1:
			src = strings.NewReplacer("{{ x.", "{{ o.x.", "{{ x[", "{{ o.x[", "{{ x ", "{{ o.x ").Replace(src)
		case 2:
			src = strings.NewReplacer("{{ x.", "{{ o[2].", "{{ x[", "{{ o[2][", "{{ x ", "{{ o[2] ").Replace(src)
		case 3:
			src = strings.NewReplacer("{{ x.", "{{ o.x.", "{{ x[", "{{ o.X[", "{{ x ", "{{ o['x'] ").Replace(src)
		case 4:
			src += "|" + strings.NewReplacer("{{ x", "{{ z").Replace(src)
			want += "|" + want
		case 5:
			src = "@each(q in [1, 2])" + src + "@end"
			want += want
		}
		data := wrap(t.make())
		twin := wrap(t.make())
		for i := 0; i < 2; i++ {
			out, err := textwire.EvaluateString(src, data)
			if t.want == "ERR" {
				if err == nil || out != "" {
					return core.Failf("%s: %q gives %q, %v instead of an error (call %d)", c.Name, src, out, err, i+1)
				}
			} else if err != nil || out != want {
				return core.Failf("%s: %q gives %q, %v instead of %q (call %d)", c.Name, src, out, err, want, i+1)
			}
		}
		if !reflect.DeepEqual(data, twin) && !strings.Contains(c.Name, "func") && !strings.Contains(c.Name, "channel") {
			return core.Failf("%s: the data changed: %#v", c.Name, data)
		}
		return core.OK(true, "typed")
	}
	return core.Failf("no value %s", c.Name)
}

func init() {
	by := map[string]szNat{}
	for _, k := range szC12 {
		by[k.name] = k
	}
	p := Get("C12")
	p.Families = append(p.Families,
		core.New(core.Fam[sz]{
			Name: "sizes",
			Rule: "slices, maps, structs (to 300 fields), chains of pointers, nesting, strings, keys, field names and data maps of every size to 40 and within 2 of the powers of two and ten to 5000 (strings 70000), an unsupported value first, last or between; non-trivial: the reference defines the result",
			Enum: func(th bool, yield func(func() sz)) {
				for ki, k := range szC12 {
					max := k.max
					if th {
						max = k.more
					}
					for i, n := range szNumbers(max) {
						seen := map[int]bool{}
						for j, at := range []int{0, n - 1, n / 2, n - 2} {
							if at < 0 || seen[at] {
								continue
							}
							seen[at] = true
							for v := 0; v < 4; v++ {
								if !th && n > 40 && (i+j+v+ki)%3 != 0 {
									continue
								}
								yield(func() sz { return sz{k.name, n, at, v} })
							}
						}
					}
				}
			},
			Judge: func(c sz) core.Verdict {
				v := judgeNat(by[c.Kind].nat(c))
				v.Class = c.Kind + " " + v.Class
				return v
			},
		}),
		core.New(core.Fam[*NatCase]{
			Name: "shared",
			Rule: "random data in which pointers, slices and maps are put at further places (no cycles), so that one value is reached by several paths; non-trivial: the reference defines the result",
			Gen:  c12Alias, Quick: 60000, Thorough: 1500000,
			Judge: judgeNat,
		}),
		core.New(core.Fam[c12TypedCase]{
			Name: "declared types",
			Rule: "90 values of declared types (embedded, tagged, recursive, with methods, shared and cyclic references, time, errors) with the expected output, at the top, in a map, slice and struct, behind pointers, twice; non-trivial: all",
			Enum: func(th bool, yield func(func() c12TypedCase)) {
				for _, t := range c12Types {
					for how := 0; how < 6; how++ {
						yield(func() c12TypedCase { return c12TypedCase{t.name, how} })
					}
				}
			},
			Judge: judge12Typed,
		}))
}
