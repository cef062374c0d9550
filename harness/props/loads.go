package props

import (
	"encoding/json"
	"fmt"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

// c16Loads is a history of loads with configurations that leave nothing open,
// each with calls behind it.
type c16Loads struct {
	Loads []Op `json:"loads"`
}

var c16LoadDirs = []string{"one", "two", "one/sub", "bad", "none", "two/"}
var c16LoadExts = []string{".tw", ".html", ".tw.html"}
var c16LoadPages = []string{"err", "errfail", "missing"}

// c16LoadFiles are directories with the same names and different contents.
var c16LoadFiles = func() map[string]string {
	out := map[string]string{}
	for _, d := range []string{"one/", "two/", "one/sub/", "bad/"} {
		for _, e := range c16LoadExts {
			m := d + "|" + e
			for n, s := range map[string]string{
				"home":         "@use('~m')@insert('a')A{{ n }}@component('~c', {v: n})@end@insert('b', 'B')",
				"use":          "@use('m')@insert('x', n)",
				"m":            "m " + m + " @reserve('x')",
				"layouts/m":    "<" + m + " @reserve('a')|@reserve('b')>",
				"components/c": "(" + m + " {{ v }}@slot)",
				"comp":         "@component('~c', {v: 1})@slot S @end@end@component('c2')",
				"c2":           "c2 " + m,
				"plain":        m + " {{ n }}",
				"fail":         m + "{{ nope }}",
				"late":         m + "\n@use('~m')@insert('a')\n{{ 1 / 0 }}@end",
				"err":          "sorry " + m,
				"errfail":      "sorry {{ nope }} " + m,
			} {
				out[d+n+e] = s
			}
			out[d+"only-"+m[:3]+e] = m
		}
	}
	out["bad/broken.tw"] = "{{ 1 2 }}"
	out["bad/broken.html"] = "@if("
	return out
}()

var c16LoadOps = func() []Op {
	n := Data{"n": DInt(7)}
	out := []Op{}
	for _, p := range []string{"home", "use", "comp", "plain", "fail", "late", "m", "only-one", "only-two", "sub/home", "sub/use"} {
		out = append(out, Op{K: "string", Name: p, Data: n})
	}
	for _, p := range []string{"home", "fail", "late", "gone"} {
		out = append(out, Op{K: "response", Name: p, Data: n})
	}
	return append(out, Op{K: "eval", Src: []byte("{{ n }}@component('c')"), Data: n}, Op{K: "eval", Src: []byte("{{ n + 1 }}"), Data: n}, Op{K: "file", Name: "loads/one/plain.tw", Data: n})
}()

var c16LoadsOn bool

var c16LoadBase = map[string][]Res{}

func judge16Loads(c *c16Loads) core.Verdict {
	if !c16LoadsOn {
		writeTree("loads", c16LoadFiles)
		c16LoadsOn = true
	}
	alone := func(l Op) ([]Res, error) {
		js, _ := json.Marshal(l)
		if r, ok := c16LoadBase[string(js)]; ok {
			return r, nil
		}
		r, err := (&Script{Ops: append([]Op{l}, c16LoadOps...)}).fresh()
		if err == nil {
			c16LoadBase[string(js)] = r
		}
		return r, err
	}
	var ops []Op
	for _, l := range c.Loads {
		ops = append(ops, l)
		if l.K == "load" {
			ops = append(ops, c16LoadOps...)
		}
	}
	res, err := (&Script{Ops: ops}).fresh()
	if err != nil {
		return core.Failf("%v: %v", c.Loads, err)
	}
	i := 0
	for k, l := range c.Loads {
		if l.K != "load" {
			i++
			continue
		}
		want, err := alone(l)
		if err != nil {
			return core.Failf("%v: %v", l, err)
		}
		for j, w := range want {
			if got := res[i+j]; got.key() != w.key() {
				return core.Failf("%s gives %s in a fresh process that only loads with %s, and %s after %s", ops[i+j], w, l, got, history(c.Loads[:k+1]))
			}
		}
		i += len(want)
	}
	return core.OK(len(c.Loads) > 1, fmt.Sprint(len(c.Loads)))
}

func c16LoadOf(d, e, p int, debug bool) Op {
	return Op{K: "load", Dir: "loads/" + c16LoadDirs[d], Ext: c16LoadExts[e], Page: c16LoadPages[p], Debug: debug}
}

func c16LoadsEnum(th bool, yield func(func() *c16Loads)) {
	var all []Op
	for d := range c16LoadDirs {
		for e := range c16LoadExts {
			for p := range c16LoadPages {
				for _, debug := range []bool{false, true} {
					if (p == 0 || !debug) && (th || p == (d+e)%3 || p == 0) {
						all = append(all, c16LoadOf(d, e, p, debug))
					}
				}
			}
		}
	}
	n := 0
	for _, a := range all {
		for _, b := range all {
			if n++; th || n%2 == 0 {
				yield(func() *c16Loads { return &c16Loads{[]Op{a, b}} })
			}
		}
	}
}

func c16LoadsRand(r *rapid.T) *c16Loads {
	g := gen.New(r)
	c := &c16Loads{}
	for i, n := 0, 2+g.N(6); i < n; i++ {
		o := c16LoadOf(g.N(len(c16LoadDirs)), g.N(3), g.N(3), g.N(2) == 1)
		if g.N(4) == 3 && i > 0 {
			o.K = "configure"
		}
		c.Loads = append(c.Loads, o)
	}
	return c
}

func init() {
	p := Get("C16")
	p.Families = append(p.Families, core.New(core.Fam[*c16Loads]{
		Name: "loads", Rule: "pairs of configurations (6 directories with the same names, one with a fault and one that does not exist, 3 extensions that end in each other, error pages that work, fail and lack, debug mode), and random sequences of up to 8 with Configure in between: after every load 18 renders give what they give in a fresh process with that load alone; non-trivial: more than one load",
		Enum: c16LoadsEnum, Gen: c16LoadsRand, Quick: 150, Thorough: 6000, Judge: judge16Loads,
	}))
}
