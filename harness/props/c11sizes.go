package props

import (
	"math"
	"unicode"

	"verif/harness/core"
	. "verif/harness/lang"
)

// c11Size is a call on a long string (T) or array (N elements of a kind).
type c11Size struct {
	T    rope   `json:"t,omitempty"`
	N    int    `json:"n,omitempty"`
	Kind string `json:"kind,omitempty"`
	Name string `json:"name"`
	Args []*D   `json:"args,omitempty"`
	Long rope   `json:"long,omitempty"` // a long last argument
	Turn int    `json:"turn"`
}

func c11Elem(kind string, i, n int) *D {
	switch kind {
	case "ints":
		return DInt(int64(i))
	case "strings":
		return DStr("é" + itoa(i))
	case "arrays":
		return DArr(*DInt(int64(i)))
	case "objects":
		return DObj(map[string]*D{"k": DInt(int64(i))})
	case "floats":
		return DFloat(float64(i) + 0.5)
	case "same":
		return DStr("x")
	}
	// mixed
	switch i % 5 {
	case 0:
		return DInt(int64(i))
	case 1:
		return DStr(itoa(i))
	case 2:
		return DNil()
	case 3:
		return DBool(i%2 == 0)
	}
	return DArr(*DFloat(float64(i)))
}

func (c c11Size) call() *c11Case {
	var r *D
	if c.Kind == "" {
		r = DStr(c.T.String())
	} else {
		r = DArr()
		for i := 0; i < c.N; i++ {
			r.A = append(r.A, *c11Elem(c.Kind, i, c.N))
		}
	}
	args := c.Args
	if c.Long != nil {
		args = append(append([]*D{}, args...), DStr(c.Long.String()))
	}
	return c11Call(r, c.Name, args, c.Turn)
}

func c11SizeEnum(th bool, yield func(func() c11Size)) {
	maxS, maxA := 70000, 5000
	if th {
		maxS, maxA = 300000, 70000
	}
	turn := 0
	emit := func(c c11Size) {
		turn++
		c.Turn = turn
		yield(func() c11Size { return c })
	}
	i64 := func(n int) *D { return DInt(int64(n)) }
	for _, n := range szNumbers(maxS) {
		if n < 3 {
			continue
		}
		for fi, f := range []string{"x", "é", "日", "🙂", "ab ", "é\u0301", " ", "7"} {
			if n > 40 && !th && (fi+n)%2 == 1 {
				continue
			}
			if n*len(f) > 4*maxS {
				continue
			}
			for mi, mark := range []string{"", "Z", "é", "🙂"} {
				if n > 40 && (mi+n/2)%2 == 1 {
					continue
				}
				big := n > 5000
				t := rope{rep(f, n), rep(mark, 1)}
				if mi%2 == 1 {
					t = rope{rep(mark, 1), rep(f, n-1), rep(mark, 1)}
				}
				size := n * len([]rune(f))
				for k, name := range []string{"len", "reverse", "upper", "lower", "capitalize", "first", "last", "trim", "trimLeft", "trimRight", "raw", "at"} {
					if big && (k+turn)%3 != 0 {
						continue
					}
					emit(c11Size{T: t, Name: name})
				}
				for _, at := range []int{0, 1, size - 2, size - 1, size, size + 1, size / 2, -1, -size, -size + 1, -size - 1, -size - 2} {
					if big && (at+turn)%3 != 0 {
						continue
					}
					emit(c11Size{T: t, Name: "at", Args: []*D{i64(at)}})
				}
				for _, at := range []int{0, 1, size - 1, size, size + 1, size / 2} {
					emit(c11Size{T: t, Name: "truncate", Args: []*D{i64(at)}})
					if !big {
						emit(c11Size{T: t, Name: "truncate", Args: []*D{i64(at), DStr("…")}})
					}
				}
				if !big {
					emit(c11Size{T: t, Name: "trim", Args: []*D{DStr(f)}})
					emit(c11Size{T: t, Name: "trimLeft", Args: []*D{DStr(mark)}})
					emit(c11Size{T: t, Name: "trimRight", Args: []*D{DStr(f + mark)}})
					emit(c11Size{T: t, Name: "split"})
					emit(c11Size{T: t, Name: "split", Args: []*D{DStr(f)}})
					emit(c11Size{T: t, Name: "split", Args: []*D{DStr("")}})
					emit(c11Size{T: t, Name: "decimal"})
				}
				emit(c11Size{T: t, Name: "contains", Args: []*D{DStr(mark)}})
				emit(c11Size{T: t, Name: "contains", Long: t})
				emit(c11Size{T: t, Name: "contains", Long: rope{rep(f, n-1), rep(mark, 1)}})
				emit(c11Size{T: t, Name: "contains", Long: rope{rep(f, n+1)}})
				emit(c11Size{T: t, Name: "contains", Long: rope{rep(f, n-1), rep("!", 1)}})
				if n <= 3000 {
					emit(c11Size{T: rope{rep(f+mark, 1)}, Name: "repeat", Args: []*D{i64(n)}})
					emit(c11Size{T: rope{rep("a,b", 1), rep(",", 1)}, Name: "truncate", Args: []*D{i64(1)}, Long: t})
					emit(c11Size{T: rope{rep("7", 1)}, Name: "decimal", Args: []*D{DStr(mark + "."), i64(n)}})
					emit(c11Size{T: rope{rep("7", 1)}, Name: "trim", Long: t})
					emit(c11Size{T: rope{rep("7", n)}, Name: "decimal", Args: []*D{DStr(","), i64(n % 9)}})
				}
				emit(c11Size{T: rope{rep(" ", n), rep(mark, 1), rep("\t", n)}, Name: []string{"trim", "trimLeft", "trimRight"}[turn%3]})
			}
		}
	}
	for _, n := range szNumbers(maxA) {
		for ki, kind := range []string{"ints", "strings", "arrays", "objects", "floats", "same", "mixed"} {
			if n > 600 && (ki+n)%3 != 0 {
				continue
			}
			e := func(name string, args ...*D) { emit(c11Size{N: n, Kind: kind, Name: name, Args: args}) }
			e("len")
			e("reverse")
			e("join")
			e("join", DStr("é"))
			e("append", DStr("new"))
			e("append", DInt(1), DStr("new"), DNil())
			e("prepend", DStr("new"), DNil())
			for _, at := range []int{0, 1, n - 2, n - 1, n / 2, n} {
				e("contains", c11Elem(kind, at, n))
			}
			e("contains", DStr("none"))
			marks := []int{0, 1, n / 2, n - 1, n, n + 1, -1, -n}
			for i, a := range marks {
				e("slice", i64(a))
				for j, b := range marks {
					if n > 40 && (i+j+n)%3 != 0 {
						continue
					}
					e("slice", i64(a), i64(b))
				}
			}
		}
	}
	// many arguments
	for _, n := range szNumbers(600) {
		var args []*D
		for i := 0; i < n; i++ {
			args = append(args, c11Elem("mixed", i, n))
		}
		for _, k := range []int{0, 1, 3} {
			emit(c11Size{N: k, Kind: "ints", Name: "append", Args: args})
			emit(c11Size{N: k, Kind: "ints", Name: "prepend", Args: args})
		}
	}
}

// c11Runs are words with the runes From to From+N-1.
type c11Runs struct {
	From rune   `json:"from"`
	N    int    `json:"n"`
	Name string `json:"name"`
	Args []*D   `json:"args,omitempty"`
	Word string `json:"word"` // % is the rune
}

func judge11Runs(c c11Runs) core.Verdict {
	one := func(from rune, n int) core.Verdict {
		d := DArr()
		for r := from; r < from+rune(n); r++ {
			if r >= 0xd800 && r < 0xe000 || r > unicode.MaxRune {
				continue
			}
			var w []rune
			for _, x := range c.Word {
				if x == '%' {
					x = r
				}
				w = append(w, x)
			}
			d.A = append(d.A, *DStr(string(w)))
		}
		var args []*E
		x := &c11Case{Case: Case{Data: Data{"r": d}}}
		for i, a := range c.Args {
			x.Data["a"+itoa(i)] = a
			args = append(args, Var("a"+itoa(i)))
		}
		x.Prog = []*S{Each("x", Var("r"), probe(Call(Var("x"), c.Name, args...), Var("x")))}
		return judge11(x)
	}
	v := one(c.From, c.N)
	if v.Fail == "" && !v.NonTrivial && c.N > 1 { // one rune is unspecified
		any := false
		for i := 0; i < c.N; i++ {
			w := one(c.From+rune(i), 1)
			if w.Fail != "" {
				return w
			}
			any = any || w.NonTrivial
		}
		return core.OK(any, "rune by rune")
	}
	return v
}

func c11RunsEnum(th bool, yield func(func() c11Runs)) {
	type op struct {
		name string
		args []*D
	}
	ops := []op{{"upper", nil}, {"lower", nil}, {"capitalize", nil}, {"reverse", nil}, {"trim", nil}, {"trimLeft", nil}, {"trimRight", nil}, {"len", nil}, {"first", nil}, {"last", nil},
		{"at", []*D{DInt(1)}}, {"at", []*D{DInt(-2)}}, {"split", []*D{DStr("")}}, {"split", nil}, {"truncate", []*D{DInt(1)}}, {"truncate", []*D{DInt(2)}}, {"repeat", []*D{DInt(2)}},
		{"contains", []*D{DStr("a")}}, {"trim", []*D{DStr("aé")}}, {"raw", nil}, {"decimal", nil}}
	const n = 64
	turn := 0
	for from := rune(0); from <= unicode.MaxRune; from += n {
		full := th || from < 0x3000 || from >= 0xa000 && from < 0xac00 || from >= 0xf900 && from < 0x10000 || from >= 0x10000 && from < 0x11000 || from >= 0x1d400 && from < 0x1e000
		for i, o := range ops {
			for j, w := range []string{"%", "a%", "%é", "%%", " % "} {
				if !full && (int(from/n)+i*5+j)%29 != 0 || full && !th && (i+j+int(from/n))%2 != 0 && i > 2 {
					continue
				}
				turn++
				yield(func() c11Runs { return c11Runs{from, n, o.name, o.args, w} })
			}
		}
	}
}

// numbers near the powers of two and ten
func c11NumbersEnum(th bool, yield func(func() *c11Case)) {
	turn := 0
	emit := func(r *D, name string, args ...*D) {
		turn++
		t := turn
		yield(func() *c11Case { return c11Call(r, name, args, t) })
	}
	seen := map[uint64]bool{}
	num := func(x int64) {
		if seen[uint64(x)] {
			return
		}
		seen[uint64(x)] = true
		for _, name := range []string{"len", "abs", "str", "float", "decimal"} {
			emit(DInt(x), name)
		}
		emit(DStr(DInt(x).Value().Text()), "decimal", DStr(" "), DInt(x&7))
	}
	for b := 0; b < 64; b++ {
		for d := int64(-3); d <= 3; d++ {
			num(int64(1)<<b + d)
			num(-(int64(1) << b) + d)
			num(math.MaxInt64 - int64(1)<<b + d)
		}
	}
	for p := int64(1); ; p *= 10 {
		for m := int64(1); m < 10; m++ {
			for d := int64(-2); d <= 2; d++ {
				num(p*m + d)
				num(-p*m + d)
			}
		}
		if p >= 1e17 {
			break
		}
	}
	fseen := map[uint64]bool{}
	fl := func(f float64) {
		if fseen[math.Float64bits(f)] || math.IsInf(f, 0) || math.IsNaN(f) {
			return
		}
		fseen[math.Float64bits(f)] = true
		for _, name := range []string{"int", "ceil", "floor", "round", "abs", "str"} {
			emit(DFloat(f), name)
		}
	}
	for b := -60; b <= 64; b++ {
		for _, m := range []float64{1, 1.5, 1.25, 1.999999} {
			f := math.Ldexp(m, b)
			for _, g := range []float64{f, math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1)), f + 0.5, f - 0.5, f + 1, f - 1, f + 0.25} {
				fl(g)
				fl(-g)
			}
		}
	}
	for k := -20; k <= 22; k++ {
		for _, m := range []float64{1, 2.5, 3, 9.99, 1.23456789} {
			f := m * math.Pow(10, float64(k))
			fl(f)
			fl(-f)
			fl(math.Nextafter(f, 0))
			fl(math.Floor(f) + 0.5)
		}
	}
}

func init() {
	p := Get("C11")
	p.Families = append(p.Families,
		core.New(core.Fam[c11Size]{
			Name:  "sizes",
			Rule:  "every string function on strings of N one- to four-byte characters with a mark at the ends, N to 40 and within 2 of the powers of two and ten to 70000 (thorough 300000), every array function on arrays of N elements of seven kinds to 5000 (thorough 70000), with boundary positions, and to 600 arguments; non-trivial: the contract defines the outcome",
			Enum:  c11SizeEnum,
			Judge: func(c c11Size) core.Verdict { return judge11(c.call()) },
		}),
		core.New(core.Fam[c11Runs]{
			Name: "runes",
			Rule: "every Unicode character (quick: all below U+3000 and the other ranges with cases and marks, every 29th block of the rest) in 5 words, through 21 calls of string functions; non-trivial: the contract defines the outcome",
			Enum: c11RunsEnum, Judge: judge11Runs,
		}),
		core.New(core.Fam[*c11Case]{
			Name: "numbers",
			Rule: "every function on integers within 3 of a power of two, and of multiples of powers of ten, and on floats next to powers of two and ten and to halves; non-trivial: the contract defines the outcome",
			Enum: c11NumbersEnum, Judge: judge11,
		}))
}
