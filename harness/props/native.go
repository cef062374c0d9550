package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unsafe"

	"verif/harness/gen"
	. "verif/harness/lang"
)

// NT describes a Go type.
//
//	bool string int..uint64 float32 float64 any ptr slice map struct
//	unsupported: chan func array complex64 complex128 mapint mapany unsafe
type NT struct {
	K      string `json:"k"`
	Elem   *NT    `json:"elem,omitempty"`
	Fields []NF   `json:"fields,omitempty"`
}

// NF is a field of a struct. Lower case names are not exported.
type NF struct {
	Name string `json:"name"`
	T    *NT    `json:"t"`
}

// NV is a value of such a type.
type NV struct {
	Nil  bool     `json:"nil,omitempty"` // of pointers, slices, maps, any, chan, func
	B    bool     `json:"b,omitempty"`
	I    int64    `json:"i,omitempty"`
	F    float64  `json:"f,omitempty"`
	S    []byte   `json:"s,omitempty"`
	A    []*NV    `json:"a,omitempty"` // elements; fields; the value behind a pointer or interface
	Keys [][]byte `json:"keys,omitempty"`
	Dyn  *NT      `json:"dyn,omitempty"` // the type inside of an interface
	Ref  int      `json:"ref,omitempty"` // values with one number are one pointer, slice or map
}

type natRef struct {
	ref int
	t   reflect.Type
}

// natShared are the references of the data that is being built.
var natShared map[natRef]reflect.Value

// Nat is a Go value of a Go type.
type Nat struct {
	T *NT `json:"t"`
	V *NV `json:"v"`
}

var natKinds = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "string": reflect.TypeOf(""),
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "any": reflect.TypeOf((*any)(nil)).Elem(),
	"chan": reflect.TypeOf(make(chan int)), "func": reflect.TypeOf(func() {}), "array": reflect.TypeOf([2]int{}), "complex64": reflect.TypeOf(complex64(0)), "complex128": reflect.TypeOf(complex128(0)),
	"mapint": reflect.TypeOf(map[int]string{}), "mapany": reflect.TypeOf(map[any]int{}), "mapbool": reflect.TypeOf(map[bool]int{}), "array0": reflect.TypeOf([0]string{}), "unsafe": reflect.TypeOf(unsafe.Pointer(nil)),
}

// natTags are tags that some fields have. They mean nothing.
var natTags = []reflect.StructTag{`json:"-"`, `json:"other,omitempty"`, `json:",omitempty" xml:"-"`, `yaml:"-" db:"-" textwire:"-"`, `json:"a"`, `json:"ID" textwire:"name"`, `odd`}

var natBad = []string{"chan", "func", "array", "array0", "complex64", "complex128", "mapint", "mapany", "mapbool", "unsafe"}

func isBad(k string) bool {
	for _, b := range natBad {
		if b == k {
			return true
		}
	}
	return false
}

func exported(name string) bool {
	return name != "" && strings.ToLower(name[:1]) != name[:1] || name[0] >= 0x80
}

// goType builds the type.
func (t *NT) goType() reflect.Type {
	switch t.K {
	case "ptr":
		return reflect.PointerTo(t.Elem.goType())
	case "slice":
		return reflect.SliceOf(t.Elem.goType())
	case "map":
		return reflect.MapOf(natKinds["string"], t.Elem.goType())
	case "struct":
		var fs []reflect.StructField
		for _, f := range t.Fields {
			sf := reflect.StructField{Name: f.Name, Type: f.T.goType()}
			if n := (len(fs) + 3*len(t.Fields) + 5*len(f.Name)) % (3 * len(natTags)); n < len(natTags) {
				sf.Tag = natTags[n]
			}
			if !exported(f.Name) {
				sf.PkgPath = "verif/harness/props"
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	r, ok := natKinds[t.K]
	if !ok {
		panic("bad type " + t.K)
	}
	return r
}

// Native builds fresh Go data.
func (n *Nat) Native() any {
	v := reflect.New(n.T.goType()).Elem()
	n.V.set(n.T, v)
	return v.Interface()
}

func (n *NV) set(t *NT, v reflect.Value) {
	if n.Nil {
		return
	}
	if n.Ref != 0 {
		k := natRef{n.Ref, v.Type()}
		if x, ok := natShared[k]; ok {
			v.Set(x)
			return
		}
		if natShared == nil {
			natShared = map[natRef]reflect.Value{}
		}
		defer func() { natShared[k] = v }()
	}
	switch t.K {
	case "bool":
		v.SetBool(n.B)
	case "string":
		v.SetString(string(n.S))
	case "float32", "float64":
		v.SetFloat(n.F)
	case "any":
		x := reflect.New(n.Dyn.goType()).Elem()
		n.A[0].set(n.Dyn, x)
		v.Set(x)
	case "ptr":
		x := reflect.New(t.Elem.goType())
		n.A[0].set(t.Elem, x.Elem())
		v.Set(x)
	case "slice":
		// with spare capacity, so that an append in place would show
		x := reflect.MakeSlice(v.Type(), len(n.A), len(n.A)+2)
		for i, e := range n.A {
			e.set(t.Elem, x.Index(i))
		}
		v.Set(x)
	case "map":
		x := reflect.MakeMap(v.Type())
		for i, e := range n.A {
			y := reflect.New(v.Type().Elem()).Elem()
			e.set(t.Elem, y)
			x.SetMapIndex(reflect.ValueOf(string(n.Keys[i])), y)
		}
		v.Set(x)
	case "struct":
		for i, e := range n.A {
			f := v.Field(i)
			if !exported(t.Fields[i].Name) {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			e.set(t.Fields[i].T, f)
		}
	case "chan":
		v.Set(reflect.ValueOf(make(chan int)))
	case "func":
		v.Set(reflect.ValueOf(func() {}))
	case "mapint":
		v.Set(reflect.ValueOf(map[int]string{1: "a"}))
	case "mapany":
		v.Set(reflect.ValueOf(map[any]int{"a": 1}))
	case "mapbool":
		v.Set(reflect.ValueOf(map[bool]int{}))
	case "array":
		v.Index(0).SetInt(1)
	case "unsafe":
		v.Set(reflect.ValueOf(unsafe.Pointer(n)))
	case "array0", "complex64", "complex128":
	default:
		if strings.HasPrefix(t.K, "uint") {
			v.SetUint(uint64(n.I))
		} else {
			v.SetInt(n.I)
		}
	}
}

// status of the support for a value
const (
	natOK = iota
	natUnclear
	natUnsupported
)

// hasBad tells whether the type mentions an unsupported one.
func (t *NT) hasBad() bool {
	if t == nil {
		return false
	}
	if isBad(t.K) || t.Elem.hasBad() {
		return true
	}
	for _, f := range t.Fields {
		if f.T.hasBad() {
			return true
		}
	}
	return false
}

// Value is the reference value of the data and whether it is supported.
func (n *Nat) Value() (V, int) { return n.V.value(n.T) }

func (n *NV) value(t *NT) (V, int) {
	if isBad(t.K) {
		return V{}, natUnsupported
	}
	st := natOK
	sub := func(e *NV, t *NT) V {
		v, s := e.value(t)
		st = max(st, s)
		return v
	}
	switch t.K {
	case "bool":
		return VBool(n.B), st
	case "string":
		return VStr(string(n.S)), st
	case "float32":
		return VFloat(float64(float32(n.F))), st
	case "float64":
		return VFloat(n.F), st
	case "any", "ptr":
		if n.Nil {
			if t.hasBad() {
				return VNil(), natUnclear
			}
			return VNil(), st
		}
		if t.K == "any" {
			v := sub(n.A[0], n.Dyn)
			return v, st
		}
		v := sub(n.A[0], t.Elem)
		return v, st
	case "slice":
		out := VArr()
		for _, e := range n.A {
			out.A = append(out.A, sub(e, t.Elem))
		}
		if len(n.A) == 0 && t.hasBad() {
			st = max(st, natUnclear)
		}
		return out, st
	case "map":
		out := VObj(map[string]V{})
		for i, e := range n.A {
			out.O[string(n.Keys[i])] = sub(e, t.Elem)
		}
		if len(n.A) == 0 && t.hasBad() {
			st = max(st, natUnclear)
		}
		return out, st
	case "struct":
		out := VObj(map[string]V{})
		for i, e := range n.A {
			f := t.Fields[i]
			if !exported(f.Name) {
				if _, s := e.value(f.T); s != natOK {
					st = max(st, natUnclear)
				}
				continue
			}
			out.O[f.Name] = sub(e, f.T)
		}
		return out, st
	}
	return VInt(n.I), st
}

// datum turns a reference value into data for the reference evaluator.
func datum(v V) *D {
	switch v.K {
	case KBool:
		return DBool(v.B)
	case KInt:
		return DInt(v.I)
	case KFloat:
		return DFloat(v.F)
	case KStr:
		return DStr(v.S)
	case KArr:
		d := DArr()
		for _, x := range v.A {
			d.A = append(d.A, *datum(x))
		}
		return d
	case KObj:
		d := DObj(map[string]*D{})
		for k, x := range v.O {
			d.O[k] = datum(x)
		}
		return d
	}
	return DNil()
}

// NatCase is a template and native data.
type NatCase struct {
	Prog   []*S            `json:"prog"`
	Vars   map[string]*Nat `json:"vars"`
	Layout []byte          `json:"layout,omitempty"`
	// Hidden is the text of an unexported field that the template reads.
	Hidden string `json:"hidden,omitempty"`
}

func (c *NatCase) native() map[string]any {
	out := map[string]any{}
	natShared = nil
	for k, n := range c.Vars {
		out[k] = n.Native()
	}
	return out
}

func (c *NatCase) data() (Data, int) {
	out, st := Data{}, natOK
	for k, n := range c.Vars {
		v, s := n.Value()
		st = max(st, s)
		if s == natOK {
			out[k] = datum(v)
		}
	}
	return out, st
}

// ---- generation

var natInts = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}

// natRange is the range of an integer type within int64.
func natRange(k string) (lo, hi int64) {
	bits := map[string]uint{"int": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64, "uint": 64, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}[k]
	if k[0] == 'u' {
		if bits == 64 {
			return 0, math.MaxInt64
		}
		return 0, 1<<bits - 1
	}
	return -1 << (bits - 1), 1<<(bits-1) - 1
}

var natStrs = []string{"", "a", "é日", "<b>&amp;\"'", "\xff\xfe", "a\x00b", "line\r\nline", "{{ x }}", "@if(1)", "  ", "&lt;", "\\", "-12", "nil"}
var natKeys = []string{"a", "b", "Name", "name", "a b", "", "é", "É", "<k>", "x-y", "0", "loop", "a&b", "\"q\"", "it's", "Ünder", "\xff", "a.b", "ID", "_u", "a1", "1a", "len"}
var natFields = []string{"Name", "ID", "A", "B2", "Élan", "URL", "X_y", "Items", "Len"}
var natHidden = []string{"name", "id", "secret", "_x", "items"}
var natFloats = []float64{0, 1, -1, 0.5, -2.25, 3.125, 1e6, 123456.75, -0.125, 1.5e15, 0.1, -0.7, float64(float32(0.1)), 0.30000000000000004, 16777217, 1e300, 5e-324}

// natType draws a type. Bad is how many of 1000 leaves are unsupported.
func natType(g *gen.G, depth, bad int) *NT {
	if g.P(bad) {
		return &NT{K: gen.Pick(g, natBad)}
	}
	n := 14
	if depth <= 0 {
		n = 7
	}
	switch g.N(n) {
	case 0:
		return &NT{K: "string"}
	case 1:
		return &NT{K: gen.Pick(g, natInts)}
	case 2:
		return &NT{K: "bool"}
	case 3:
		return &NT{K: "float64"}
	case 4:
		return &NT{K: "float32"}
	case 5, 6:
		return &NT{K: "any"}
	case 7, 8:
		return &NT{K: "slice", Elem: natType(g, depth-1, bad)}
	case 9, 10:
		return &NT{K: "map", Elem: natType(g, depth-1, bad)}
	case 11:
		return &NT{K: "ptr", Elem: natType(g, depth-1, bad)}
	}
	t := &NT{K: "struct"}
	seen := map[string]bool{}
	for i, n := 0, g.N(4)+1; i < n; i++ {
		name := gen.Pick(g, natFields)
		if g.N(5) == 4 {
			name = gen.Pick(g, natHidden)
		}
		if !seen[name] {
			seen[name] = true
			t.Fields = append(t.Fields, NF{name, natType(g, depth-1, bad)})
		}
	}
	return t
}

func natValue(g *gen.G, t *NT, depth, bad int) *NV {
	switch t.K {
	case "string":
		return &NV{S: []byte(gen.Pick(g, natStrs))}
	case "bool":
		return &NV{B: g.N(2) == 1}
	case "float32", "float64":
		return &NV{F: gen.Pick(g, natFloats)}
	case "any":
		if g.N(5) == 4 {
			return &NV{Nil: true}
		}
		dyn := natType(g, depth-1, bad)
		if dyn.K == "any" {
			dyn = &NT{K: "string"}
		}
		return &NV{Dyn: dyn, A: []*NV{natValue(g, dyn, depth-1, bad)}}
	case "ptr":
		if g.N(5) == 4 {
			return &NV{Nil: true}
		}
		return &NV{A: []*NV{natValue(g, t.Elem, depth-1, bad)}}
	case "slice", "map":
		if g.N(8) == 7 {
			return &NV{Nil: true}
		}
		v := &NV{}
		seen := map[string]bool{}
		for i, n := 0, g.N(4); i < n; i++ {
			if t.K == "map" {
				k := gen.Pick(g, natKeys)
				if seen[k] {
					continue
				}
				seen[k] = true
				v.Keys = append(v.Keys, []byte(k))
			}
			v.A = append(v.A, natValue(g, t.Elem, depth-1, bad))
		}
		return v
	case "struct":
		v := &NV{}
		for _, f := range t.Fields {
			v.A = append(v.A, natValue(g, f.T, depth-1, bad))
		}
		return v
	}
	if isBad(t.K) {
		return &NV{Nil: g.N(3) == 2}
	}
	lo, hi := natRange(t.K)
	return &NV{I: gen.Pick(g, []int64{0, 1, lo, hi, lo + 1, hi - 1, 7, hi / 3})}
}

func natDraw(g *gen.G, depth, bad int) *Nat {
	t := natType(g, depth, bad)
	return &Nat{t, natValue(g, t, depth, bad)}
}

var identKeywords = map[string]bool{"true": true, "false": true, "nil": true, "in": true}

func dotKey(k string) bool {
	if k == "" || identKeywords[k] {
		return false
	}
	for i := 0; i < len(k); i++ {
		if !word1(k[i]) || i == 0 && k[i] >= '0' && k[i] <= '9' {
			return false
		}
	}
	return true
}

// quotable strings can be written as a literal.
func quotable(s string) bool { return !strings.HasSuffix(s, `\`) }

// natPath draws an access path into the value; extra gets the variables that
// hold keys and positions.
func natPath(g *gen.G, root string, n *Nat, extra map[string]*Nat) (*E, V) {
	e := Var(root)
	t, v := n.T, n.V
	val, _ := n.Value()
	for {
		for t.K == "ptr" && !v.Nil {
			t, v = t.Elem, v.A[0]
		}
		if t.K == "any" && !v.Nil {
			t, v = v.Dyn, v.A[0]
			continue
		}
		if v.Nil || t.K != "slice" && t.K != "map" && t.K != "struct" || len(v.A) == 0 || g.N(8) == 7 {
			return e, val
		}
		name := func(s string) *Nat { return &Nat{&NT{K: "string"}, &NV{S: []byte(s)}} }
		switch t.K {
		case "slice":
			i := g.N(len(v.A))
			if g.N(4) == 3 {
				extra["i"+itoa(i)] = &Nat{&NT{K: "int"}, &NV{I: int64(i)}}
				e = Idx(e, Var("i"+itoa(i)))
			} else {
				e = Idx(e, Int(itoa(i)))
			}
			t, v, val = t.Elem, v.A[i], val.A[i]
		case "map", "struct":
			i := g.N(len(v.A))
			var key string
			var et *NT
			if t.K == "map" {
				key, et = string(v.Keys[i]), t.Elem
			} else {
				key, et = t.Fields[i].Name, t.Fields[i].T
				if !exported(key) {
					return e, val
				}
			}
			use := key
			if t.K == "struct" && g.N(2) == 1 {
				low := lowerFirst(key)
				if _, taken := val.O[low]; !taken {
					use = low
				}
			}
			switch {
			case dotKey(use) && g.N(3) > 0:
				e = Dot(e, use)
			case quotable(use) && g.N(3) > 0:
				e = Idx(e, Str(use))
			default:
				k := "k" + itoa(len(extra))
				extra[k] = name(use)
				e = Idx(e, Var(k))
			}
			next, ok := val.O[key]
			if !ok {
				panic(fmt.Sprintf("no %q in the value", key))
			}
			t, v, val = et, v.A[i], next
		}
	}
}

func lowerFirst(s string) string {
	r := []rune(s)
	return strings.ToLower(string(r[0])) + string(r[1:])
}
