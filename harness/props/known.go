package props

import (
	textwire "github.com/textwire/textwire/v2"
	"verif/harness/core"
	. "verif/harness/lang"
)

// textCase is a template with its output. The few that there are show one
// known defect: a string literal is escaped when it is evaluated, so that
// functions, comparisons and keys see &lt; where the literal says <.
type textCase struct {
	Src  string `json:"src"`
	Data Data   `json:"data,omitempty"`
	Want string `json:"want"`
}

func escapedFam(prep func(), cases ...*textCase) core.Family {
	return core.New(core.Fam[*textCase]{
		Name: "escaped-literals", Rule: "the inputs of the known finding about literals with < > &; non-trivial: always",
		Enum: func(_ bool, yield func(func() *textCase)) {
			for _, c := range cases {
				yield(func() *textCase { return c })
			}
		},
		Judge: func(c *textCase) core.Verdict {
			if prep != nil {
				prep()
			}
			out, err := textwire.EvaluateString(c.Src, c.Data.Native())
			if err != nil || out != c.Want {
				return core.Failf("%q gives %q, %v instead of %q", c.Src, out, err, c.Want)
			}
			return core.OK(true, "output")
		},
	})
}
