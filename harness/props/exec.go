package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"reflect"
	"runtime/debug"
	"sync"
	"time"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"github.com/textwire/textwire/v2/fail"

	. "verif/harness/lang"
)

// Op is one call of the API.
//
//	load      NewTemplate with Dir, Ext, Page, Debug
//	string    Template.String of Name
//	response  Template.Response of Name
//	eval      EvaluateString of Src
//	file      EvaluateFile of Name below the working directory
//	configure Configure with Dir, Ext, Page, Debug
//	reg       registers the function Name for the type Ext, number ID
//	reload    NewTemplate without a configuration
type Op struct {
	K     string          `json:"k"`
	Dir   string          `json:"dir,omitempty"`
	Ext   string          `json:"ext,omitempty"`
	Page  string          `json:"page,omitempty"`
	Debug bool            `json:"debug,omitempty"`
	Name  string          `json:"name,omitempty"`
	Src   []byte          `json:"src,omitempty"`
	Data  Data            `json:"data,omitempty"`
	Vars  map[string]*Nat `json:"vars,omitempty"`
	ID    int             `json:"id,omitempty"`
	NoMap bool            `json:"nomap,omitempty"` // the data is a nil map
}

func (o Op) native() map[string]any {
	if o.NoMap {
		return nil
	}
	out := map[string]any{}
	for k, d := range o.Data {
		out[k] = d.Native()
	}
	for k, n := range o.Vars {
		out[k] = n.Native()
	}
	return out
}

func (o Op) String() string {
	switch o.K {
	case "load", "configure":
		return fmt.Sprintf("%s(dir=%q ext=%q page=%q debug=%v)", o.K, o.Dir, o.Ext, o.Page, o.Debug)
	case "eval":
		return fmt.Sprintf("eval(%q, %v)", o.Src, o.native())
	}
	return fmt.Sprintf("%s(%q, %v)", o.K, o.Name, o.native())
}

// Res is what a call returns.
type Res struct {
	Out     []byte `json:"out,omitempty"` // the output or the body
	Err     []byte `json:"err,omitempty"`
	Failed  bool   `json:"failed,omitempty"`
	Nil     bool   `json:"nil,omitempty"` // no template
	Panic   string `json:"panic,omitempty"`
	Changed bool   `json:"changed,omitempty"` // the data was changed
	Fail    *Fault `json:"fail,omitempty"`    // of String
	// Log are the custom functions that were called.
	Log []string `json:"log,omitempty"`
}

// Fault is what the accessors of an error return.
type Fault struct {
	Line int    `json:"line,omitempty"`
	Path []byte `json:"path,omitempty"`
	Msg  []byte `json:"msg,omitempty"`
}

func (r Res) key() string {
	return fmt.Sprintf("%q %q %v %v %v", r.Out, r.Err, r.Failed, r.Nil, r.Panic != "")
}

func (r Res) String() string {
	s := "output " + short(r.Out)
	if r.Failed {
		s += fmt.Sprintf(", error %q", r.Err)
	}
	if r.Panic != "" {
		s += ", panic " + r.Panic
	}
	return s
}

func (m *machine) fail(r *Res, err error) {
	if err != nil {
		r.Failed, r.Err = true, []byte(err.Error())
		if m.hold {
			m.held = append(m.held, heldErr{err: err, text: err.Error()})
		}
	}
}

// failError makes an error that is formatted when it is asked for.
type failError struct{ err *fail.Error }

func (e failError) Error() string {
	return fmt.Sprintf("%s | %d %s %s", e.err.Error(), e.err.Line(), e.err.Filepath(), e.err.Message())
}

// recorder is an http.ResponseWriter.
type recorder struct {
	body   bytes.Buffer
	header http.Header
	code   int
	writes int
	fail   bool // of the connection
}

func (w *recorder) Header() http.Header {
	if w.header == nil {
		w.header = http.Header{}
	}
	return w.header
}
func (w *recorder) WriteHeader(code int) { w.code = code }
func (w *recorder) Write(b []byte) (int, error) {
	w.writes++
	if w.fail {
		return 0, errBroken
	}
	return w.body.Write(b)
}

var errBroken = errors.New("broken connection")

// machine runs calls.
type machine struct {
	tpl *textwire.Template
	// held are errors that were returned, and their texts.
	hold bool
	held []heldErr
}

type heldErr struct {
	err  error
	text string
}

func (m *machine) do(o Op) (r Res) {
	data := o.native()
	defer func() {
		if p := recover(); p != nil {
			r = Res{Panic: fmt.Sprintf("%v\n%s", p, debug.Stack())}
		}
	}()
	conf := &config.Config{TemplateDir: o.Dir, TemplateExt: o.Ext, ErrorPagePath: o.Page, DebugMode: o.Debug}
	if m.tpl == nil && (o.K == "string" || o.K == "response") {
		return Res{Nil: true}
	}
	switch o.K {
	case "load":
		tpl, err := textwire.NewTemplate(conf)
		m.tpl = tpl
		r.Nil = tpl == nil
		m.fail(&r, err)
	case "reg":
		m.fail(&r, reg20(o.Ext, o.Name, o.ID))
	case "reload":
		tpl, err := textwire.NewTemplate(nil)
		m.tpl = tpl
		r.Nil = tpl == nil
		m.fail(&r, err)
	case "configure":
		textwire.Configure(conf)
	case "string":
		out, err := m.tpl.String(o.Name, data)
		r.Out = []byte(out)
		if err != nil {
			// the accessors are part of the error
			m.fail(&r, failError{err})
			r.Fail = &Fault{Line: int(err.Line()), Path: []byte(err.Filepath()), Msg: []byte(err.Message())}
		}
	case "response":
		w := &recorder{}
		err := m.tpl.Response(w, o.Name, data)
		r.Out = w.body.Bytes()
		m.fail(&r, err)
	case "eval":
		out, err := textwire.EvaluateString(string(o.Src), data)
		r.Out = []byte(out)
		m.fail(&r, err)
	case "file":
		out, err := textwire.EvaluateFile(cwd()+"/"+o.Name, data)
		r.Out = []byte(out)
		m.fail(&r, err)
	default:
		panic("bad operation " + o.K)
	}
	// (some values are not equal to themselves)
	if again := o.native(); !reflect.DeepEqual(data, again) && reflect.DeepEqual(again, o.native()) {
		r.Changed = true
	}
	return r
}

// Script is work for a fresh process in the same directory.
type Script struct {
	Ops []Op `json:"ops"`
	// Prep names a preparation.
	Prep string `json:"prep,omitempty"`
	// Gos are calls that are made at the same time after the Ops.
	Gos   [][]Op `json:"gos,omitempty"`
	Procs int    `json:"procs,omitempty"`
}

// scriptRes are the results of a script.
type scriptRes struct {
	Ops []Res   `json:"ops"`
	Gos [][]Res `json:"gos,omitempty"`
}

var preps = map[string]func(){}

func (s *Script) run() (out scriptRes) {
	if f := preps[s.Prep]; f != nil {
		f()
	}
	m := &machine{}
	m.hold = len(s.Ops) < 1000
	for _, o := range s.Ops {
		log20 = nil
		out.Ops = append(out.Ops, m.do(o))
		out.Ops[len(out.Ops)-1].Log = log20
		for _, h := range m.held {
			if h.err.Error() != h.text {
				out.Ops[len(out.Ops)-1].Changed = true
			}
		}
	}
	m.hold = false
	if len(s.Gos) > 0 {
		out.Gos = m.together(s.Gos, s.Procs)
	}
	return out
}

func runOps(ops []Op) []Res {
	m := &machine{}
	var out []Res
	for _, o := range ops {
		out = append(out, m.do(o))
	}
	return out
}

// Exec runs a script that is read from in.
func Exec(in io.Reader, out io.Writer) {
	var s Script
	if err := json.NewDecoder(in).Decode(&s); err != nil {
		panic(err)
	}
	if err := json.NewEncoder(out).Encode(s.run()); err != nil {
		panic(err)
	}
}

// fresh runs a script in a fresh process.
func (s *Script) fresh() ([]Res, error) {
	res, _, err := s.freshGos()
	return res, err
}

func (s *Script) freshGos() ([]Res, [][]Res, error) {
	js, err := json.Marshal(s)
	if err != nil {
		return nil, nil, err
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, nil, err
	}
	cmd := exec.Command(exe, "exec")
	cmd.Stdin = bytes.NewReader(js)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		return nil, nil, err
	}
	var once sync.Once
	t := time.AfterFunc(60*time.Second, func() { once.Do(func() { cmd.Process.Kill() }) })
	err = cmd.Wait()
	t.Stop()
	if err != nil {
		e := se.String()
		if len(e) > 2000 {
			e = e[:2000]
		}
		return nil, nil, fmt.Errorf("the process failed: %v: %s", err, e)
	}
	var res scriptRes
	if err := json.Unmarshal(so.Bytes(), &res); err != nil {
		return nil, nil, err
	}
	if len(res.Ops) != len(s.Ops) {
		return nil, nil, fmt.Errorf("%d results of %d calls", len(res.Ops), len(s.Ops))
	}
	return res.Ops, res.Gos, nil
}
