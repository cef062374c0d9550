// Package props states the properties as generated cases and oracles.
package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"

	"verif/harness/core"
	"verif/harness/gen"
	. "verif/harness/lang"
)

var registry []*core.Prop

func register(p *core.Prop) { registry = append(registry, p) }

func Get(id string) *core.Prop {
	for _, p := range registry {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func IDs() []string {
	var out []string
	for _, p := range registry {
		out = append(out, p.ID)
	}
	sort.Strings(out)
	return out
}

// Case is a template made from a tree, and its data.
type Case struct {
	Prog   []*S   `json:"prog"`
	Data   Data   `json:"data,omitempty"`
	Layout []byte `json:"layout,omitempty"`
}

func (c *Case) Source() string { return PrintB(c.Prog, &Layout{B: c.Layout}) }

var reErr = regexp.MustCompile(`^\[Textwire ERROR(?: in (.*?))?:(\d+)\]:\n(?s)(.*)$`)

// TwErr is a parsed Textwire error.
type TwErr struct {
	Path string
	Line int
	Msg  string
	Raw  string
}

// parseErr takes an error of the API apart. ok is false for other errors.
func parseErr(err error) (e TwErr, ok bool) {
	e.Raw = err.Error()
	m := reErr.FindStringSubmatch(e.Raw)
	if m == nil {
		return e, false
	}
	e.Path, e.Msg = m[1], m[3]
	e.Line, _ = strconv.Atoi(m[2])
	return e, true
}

func cut(s string) string { return short([]byte(s)) }

// diff compares a result of textwire with the reference.
func diff(src string, ref Result, out string, err error) string {
	switch {
	case ref.Unspec:
		return ""
	case ref.Err && err == nil:
		return fmt.Sprintf("expected an error (%s), got output %s\nsource: %s", ref.Msg, cut(out), cut(src))
	case ref.Err:
		if out != "" {
			return fmt.Sprintf("the error %q came with output %s\nsource: %s", err, cut(out), cut(src))
		}
		return ""
	case err != nil:
		return fmt.Sprintf("expected output %s, got error %q\nsource: %s", cut(ref.Out), err, cut(src))
	case out != ref.Out:
		return fmt.Sprintf("expected output %s, got %s\nsource: %s", cut(ref.Out), cut(out), cut(src))
	}
	return ""
}

// judgeCase renders a single template and compares it with the reference.
func judgeCase(c *Case, in *Interp) (Result, string) {
	ref := in.Eval(c.Prog, c.Data)
	if ref.Endless {
		return ref, ""
	}
	src := c.Source()
	out, err := textwire.EvaluateString(src, c.Data.Native())
	return ref, diff(src, ref, out, err)
}

func class(ref Result) string {
	switch {
	case ref.Endless:
		return "endless"
	case ref.Unspec:
		return "unspecified"
	case ref.Err:
		return "error"
	}
	return "output"
}

// verdict builds a verdict out of a difference.
func verdict(d string, nontrivial bool, class string) core.Verdict {
	if d != "" {
		return core.Failf("%s", d)
	}
	return core.Verdict{NonTrivial: nontrivial, Class: class}
}

// writeTree makes a fresh directory with the files.
func writeTree(dir string, files map[string]string) {
	if err := os.RemoveAll(dir); err != nil {
		panic(err)
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	for name, content := range files {
		p := filepath.Join(dir, filepath.FromSlash(name))
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
			panic(err)
		}
	}
}

// load loads the templates of a directory that is relative to the working
// directory.
func load(dir, ext string, debug bool) (*textwire.Template, error) {
	return textwire.NewTemplate(&config.Config{TemplateDir: dir, TemplateExt: ext, DebugMode: debug})
}

func cwd() string {
	d, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if r, err := filepath.EvalSymlinks(d); err == nil {
		return r
	}
	return d
}

// str joins lines for messages.
func files(m map[string]string) string {
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, "--- %s\n%s\n", n, m[n])
	}
	return b.String()
}

func hasKind(prog []*S, kinds ...string) bool {
	found := false
	Walk(prog, func(s *S) {
		for _, k := range kinds {
			if s.K == k {
				found = true
			}
		}
	}, nil)
	return found
}

var _ = gen.New

func sortStrings(xs []string) { sort.Strings(xs) }
