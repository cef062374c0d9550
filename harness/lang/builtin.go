package lang

import (
	"html"
	"math"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Err is a failed evaluation. Unspec means that the language does not define
// the result: any output and any error are fine, only a crash is not.
type Err struct {
	Unspec  bool
	Endless bool
	Msg     string
}

func fail(msg string)   { panic(&Err{Msg: msg}) }
func unspec(msg string) { panic(&Err{Unspec: true, Msg: msg}) }

// Builtins lists the names of the built-in functions by receiver kind.
var Builtins = map[byte][]string{
	KStr: {"len", "split", "raw", "trim", "trimRight", "trimLeft", "upper", "lower", "capitalize",
		"reverse", "contains", "truncate", "decimal", "at", "first", "last", "repeat"},
	KArr:   {"len", "join", "rand", "reverse", "slice", "shuffle", "contains", "append", "prepend"},
	KInt:   {"float", "abs", "str", "len", "decimal"},
	KFloat: {"int", "str", "abs", "ceil", "floor", "round"},
	KBool:  {"binary", "then"},
}

// IsBuiltin tells whether the function exists for the kind.
func IsBuiltin(k byte, name string) bool {
	for _, n := range Builtins[k] {
		if n == name {
			return true
		}
	}
	return false
}

// maxArgs is how many arguments a function knows; more are not defined.
var maxArgs = map[string]int{
	"slen": 0, "ssplit": 1, "sraw": 0, "strim": 1, "strimRight": 1, "strimLeft": 1, "supper": 0,
	"slower": 0, "scapitalize": 0, "sreverse": 0, "scontains": 1, "struncate": 2, "sdecimal": 2, "sat": 1,
	"sfirst": 0, "slast": 0, "srepeat": 1,
	"alen": 0, "ajoin": 1, "arand": 0, "areverse": 0, "aslice": 2, "ashuffle": 0, "acontains": 1,
	"aappend": 1 << 30, "aprepend": 1 << 30,
	"ifloat": 0, "iabs": 0, "istr": 0, "ilen": 0, "idecimal": 2,
	"fint": 0, "fstr": 0, "fabs": 0, "fceil": 0, "ffloor": 0, "fround": 0,
	"bbinary": 0, "bthen": 2,
}

// CallBuiltin is the reference implementation of the built-in functions.
func CallBuiltin(r V, name string, args []V) V {
	if !IsBuiltin(r.K, name) {
		fail("no function " + name)
	}
	if len(args) > maxArgs[string(r.K)+name] {
		unspec("more arguments than the function knows")
	}
	if r.K == KStr && !utf8.ValidString(r.S) && name != "raw" {
		unspec("invalid UTF-8")
	}
	str := func(i int, def string) string {
		if i >= len(args) {
			return def
		}
		if args[i].K != KStr {
			fail("argument must be a string")
		}
		if !utf8.ValidString(args[i].S) {
			unspec("invalid UTF-8")
		}
		return args[i].S
	}
	num := func(i int, def int64) int64 {
		if i >= len(args) {
			return def
		}
		if args[i].K != KInt {
			fail("argument must be an integer")
		}
		return args[i].I
	}
	need := func(n int) {
		if len(args) < n {
			fail("missing argument")
		}
	}
	switch r.K {
	case KStr:
		return strFunc(r.S, name, args, str, num, need)
	case KArr:
		n := int64(len(r.A))
		switch name {
		case "len":
			return VInt(n)
		case "join":
			sep := str(0, ",")
			out := ""
			for i, x := range r.A {
				if i > 0 {
					out += sep
				}
				out += x.Text()
			}
			return VStr(out)
		case "rand", "shuffle":
			if n == 0 && name == "rand" {
				return VNil()
			}
			if n == 0 {
				return r
			}
			for _, x := range r.A {
				if !Equal(x, r.A[0]) {
					unspec("random")
				}
			}
			if name == "rand" {
				return r.A[0]
			}
			return r
		case "reverse":
			out := VArr()
			for i := len(r.A) - 1; i >= 0; i-- {
				out.A = append(out.A, r.A[i])
			}
			return out
		case "slice":
			need(1)
			from, to := num(0, 0), num(1, n)
			if from < 0 {
				from = 0
			}
			if from > n {
				from = n
			}
			if to < 0 || to > n {
				to = n
			}
			out := VArr()
			for i := from; i < to; i++ {
				out.A = append(out.A, r.A[i])
			}
			return out
		case "contains":
			need(1)
			for _, x := range r.A {
				if Equal(x, args[0]) {
					return VBool(true)
				}
			}
			return VBool(false)
		case "append":
			need(1)
			return VArr(append(append([]V{}, r.A...), args...)...)
		case "prepend":
			need(1)
			return VArr(append(append([]V{}, args...), r.A...)...)
		}
	case KInt:
		switch name {
		case "float":
			return VFloat(float64(r.I))
		case "abs":
			if r.I == math.MinInt64 {
				unspec("overflow")
			}
			if r.I < 0 {
				return VInt(-r.I)
			}
			return r
		case "str":
			return VStr(strconv.FormatInt(r.I, 10))
		case "len":
			return VInt(int64(len(strings.TrimPrefix(strconv.FormatInt(r.I, 10), "-"))))
		case "decimal":
			return decimal(strconv.FormatInt(r.I, 10), args, str, num)
		}
	case KFloat:
		toInt := func(f float64) V {
			if !(math.Abs(f) < 1<<62) {
				unspec("float out of the integer range")
			}
			return VInt(int64(f))
		}
		switch name {
		case "int":
			return toInt(math.Trunc(r.F))
		case "ceil":
			return toInt(math.Ceil(r.F))
		case "floor":
			return toInt(math.Floor(r.F))
		case "round":
			a := math.Abs(r.F)
			n := math.Floor(a)
			if a-n >= 0.5 {
				n++
			}
			return toInt(math.Copysign(n, r.F))
		case "abs":
			return VFloat(math.Abs(r.F))
		case "str":
			if _, ok := FloatText(r.F); !ok || r.F == math.Trunc(r.F) {
				unspec("5 or 5.0")
			}
			return VStr(r.Text())
		}
	case KBool:
		switch name {
		case "binary":
			if r.B {
				return VInt(1)
			}
			return VInt(0)
		case "then":
			need(1)
			if r.B {
				return args[0]
			}
			if len(args) > 1 {
				return args[1]
			}
			return VNil()
		}
	}
	panic("unreachable")
}

func strFunc(s, name string, args []V, str func(int, string) string, num func(int, int64) int64, need func(int)) V {
	r := []rune(s)
	n := int64(len(r))
	at := func(i int64) V {
		if i < 0 {
			i += n
		}
		if i < 0 || i >= n {
			return VNil()
		}
		return VStr(string(r[i]))
	}
	cut := func(left, right bool) V {
		set := str(0, "\t \n\r")
		a, b := 0, len(r)
		for left && a < b && strings.ContainsRune(set, r[a]) {
			a++
		}
		for right && a < b && strings.ContainsRune(set, r[b-1]) {
			b--
		}
		return VStr(string(r[a:b]))
	}
	mapped := func(f func(rune) rune) V {
		out := make([]rune, len(r))
		for i, c := range r {
			out[i] = f(c)
		}
		return VStr(string(out))
	}
	switch name {
	case "len":
		return VInt(n)
	case "split":
		sep := str(0, " ")
		out := VArr()
		if sep == "" {
			for _, c := range r {
				out.A = append(out.A, VStr(string(c)))
			}
			return out
		}
		for {
			i := strings.Index(s, sep)
			if i < 0 {
				break
			}
			out.A = append(out.A, VStr(s[:i]))
			s = s[i+len(sep):]
		}
		out.A = append(out.A, VStr(s))
		return out
	case "raw":
		return VStr(html.UnescapeString(s))
	case "trim":
		return cut(true, true)
	case "trimLeft":
		return cut(true, false)
	case "trimRight":
		return cut(false, true)
	case "upper":
		return mapped(unicode.ToUpper)
	case "lower":
		return mapped(unicode.ToLower)
	case "capitalize":
		if n == 0 {
			return VStr("")
		}
		if unicode.ToUpper(r[0]) != unicode.ToTitle(r[0]) {
			unspec("title case")
		}
		return VStr(string(unicode.ToUpper(r[0])) + string(r[1:]))
	case "reverse":
		out := make([]rune, 0, n)
		for i := len(r) - 1; i >= 0; i-- {
			out = append(out, r[i])
		}
		return VStr(string(out))
	case "contains":
		need(1)
		return VBool(strings.Contains(s, str(0, "")))
	case "truncate":
		need(1)
		limit := num(0, 0)
		if limit < 0 {
			unspec("negative count")
		}
		if limit >= n {
			if len(args) > 1 && args[1].K != KStr {
				unspec("unused argument of a wrong kind")
			}
			return VStr(s)
		}
		return VStr(string(r[:limit]) + str(1, "..."))
	case "decimal":
		return decimal(s, args, str, num)
	case "at":
		return at(num(0, 0))
	case "first":
		return at(0)
	case "last":
		return at(-1)
	case "repeat":
		need(1)
		c := num(0, 0)
		if c < 0 {
			unspec("negative count")
		}
		if s == "" || c == 0 {
			return VStr("")
		}
		if c > 1<<16 {
			unspec("oversized count")
		}
		return VStr(strings.Repeat(s, int(c)))
	}
	panic("unreachable")
}

func decimal(s string, args []V, str func(int, string) string, num func(int, int64) int64) V {
	if _, err := strconv.ParseInt(s, 10, 64); err != nil {
		for i, k := range []byte{KStr, KInt} {
			if i < len(args) && args[i].K != k {
				unspec("unused argument of a wrong kind")
			}
		}
		return VStr(s)
	}
	if s[0] == '+' {
		unspec("a number with a plus sign")
	}
	sep, n := str(0, "."), num(1, 2)
	if n < 0 {
		unspec("negative count")
	}
	if n > 1<<16 {
		unspec("oversized count")
	}
	if n == 0 {
		return VStr(s)
	}
	return VStr(s + sep + strings.Repeat("0", int(n)))
}
