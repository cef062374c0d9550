package lang

import (
	"math"
	"sort"
	"strconv"
	"strings"
)

// Kinds of values.
const (
	KNil   = 'n'
	KBool  = 'b'
	KInt   = 'i'
	KFloat = 'f'
	KStr   = 's'
	KArr   = 'a'
	KObj   = 'o'
)

// V is a value of the language.
type V struct {
	K byte
	B bool
	I int64
	F float64
	S string
	A []V
	O map[string]V
}

func VNil() V               { return V{K: KNil} }
func VBool(b bool) V        { return V{K: KBool, B: b} }
func VInt(i int64) V        { return V{K: KInt, I: i} }
func VFloat(f float64) V    { return V{K: KFloat, F: f} }
func VStr(s string) V       { return V{K: KStr, S: s} }
func VArr(a ...V) V         { return V{K: KArr, A: a} }
func VObj(o map[string]V) V { return V{K: KObj, O: o} }

// Truthy tells whether a condition holds for the value.
func (v V) Truthy() bool {
	switch v.K {
	case KNil:
		return false
	case KBool:
		return v.B
	case KInt:
		return v.I != 0
	case KFloat:
		return v.F != 0
	case KStr:
		return v.S != ""
	}
	return true
}

// FloatText is how a float prints.
func FloatText(f float64) (string, bool) {
	if math.IsNaN(f) || math.IsInf(f, 0) || math.Abs(f) >= 1<<62 {
		return "", false
	}
	if f == math.Trunc(f) {
		return strconv.FormatFloat(f, 'f', 1, 64), true
	}
	return strconv.FormatFloat(f, 'f', -1, 64), true
}

// Text is how a value prints. It panics with Unspec when that is not defined.
func (v V) Text() string {
	switch v.K {
	case KBool:
		if v.B {
			return "1"
		}
		return "0"
	case KInt:
		return strconv.FormatInt(v.I, 10)
	case KFloat:
		s, ok := FloatText(v.F)
		if !ok {
			panic(&Err{Unspec: true, Msg: "text of a huge or non-finite float"})
		}
		return s
	case KStr:
		return v.S
	case KArr:
		var p []string
		for _, x := range v.A {
			p = append(p, x.Text())
		}
		return strings.Join(p, ", ")
	case KObj:
		var p []string
		for _, k := range v.Keys() {
			p = append(p, k+": "+v.O[k].Text())
		}
		return "{" + strings.Join(p, ", ") + "}"
	}
	return ""
}

// Keys returns the keys of an object in order.
func (v V) Keys() []string {
	var keys []string
	for k := range v.O {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// Equal is structural equality, of values of one type.
func Equal(a, b V) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case KBool:
		return a.B == b.B
	case KInt:
		return a.I == b.I
	case KFloat:
		return a.F == b.F
	case KStr:
		return a.S == b.S
	case KArr:
		if len(a.A) != len(b.A) {
			return false
		}
		for i := range a.A {
			if !Equal(a.A[i], b.A[i]) {
				return false
			}
		}
	case KObj:
		if len(a.O) != len(b.O) {
			return false
		}
		for k, x := range a.O {
			y, ok := b.O[k]
			if !ok || !Equal(x, y) {
				return false
			}
		}
	}
	return true
}

// D is a JSON serialisable data value, turned into native Go data by Native
// and into a reference value by Value.
type D struct {
	K string        `json:"k"` // nil bool int float str arr obj
	B bool          `json:"b,omitempty"`
	I int64         `json:"i,omitempty"`
	F float64       `json:"f,omitempty"`
	S []byte        `json:"s,omitempty"`
	A []D           `json:"a,omitempty"`
	O map[string]*D `json:"o,omitempty"`
}

func DNil() *D                { return &D{K: "nil"} }
func DBool(b bool) *D         { return &D{K: "bool", B: b} }
func DInt(i int64) *D         { return &D{K: "int", I: i} }
func DFloat(f float64) *D     { return &D{K: "float", F: f, B: f == 0 && math.Signbit(f)} }
func DStr(s string) *D        { return &D{K: "str", S: []byte(s)} }
func DArr(a ...D) *D          { return &D{K: "arr", A: a} }
func DObj(o map[string]*D) *D { return &D{K: "obj", O: o} }

// Native returns fresh Go data.
func (d *D) Native() any {
	switch d.K {
	case "bool":
		return d.B
	case "int":
		return int(d.I)
	case "float":
		if d.B {
			return math.Copysign(0, -1) // JSON leaves it out
		}
		return d.F
	case "str":
		return string(d.S)
	case "arr":
		out := make([]any, len(d.A))
		for i := range d.A {
			out[i] = d.A[i].Native()
		}
		return out
	case "obj":
		out := map[string]any{}
		for k, x := range d.O {
			out[k] = x.Native()
		}
		return out
	}
	return nil
}

// Value returns the reference value of the data.
func (d *D) Value() V {
	switch d.K {
	case "bool":
		return VBool(d.B)
	case "int":
		return VInt(d.I)
	case "float":
		return VFloat(d.Native().(float64))
	case "str":
		return VStr(string(d.S))
	case "arr":
		out := VArr()
		for i := range d.A {
			out.A = append(out.A, d.A[i].Value())
		}
		return out
	case "obj":
		out := VObj(map[string]V{})
		for k, x := range d.O {
			out.O[k] = x.Value()
		}
		return out
	}
	return VNil()
}

// Data is the data of a call.
type Data map[string]*D

// Native returns a fresh data map.
func (d Data) Native() map[string]any {
	if d == nil {
		return nil
	}
	out := map[string]any{}
	for k, x := range d {
		out[k] = x.Native()
	}
	return out
}
