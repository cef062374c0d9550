package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

const shards = 8

// Run decides a property and returns the exit code of the check.
func Run(p *Prop, thorough bool, seed uint64, verif string) int {
	begin := time.Now()
	if seed == 0 {
		seed = 0x5eed
	}
	scratch, err := makeScratch("verif-" + p.ID + "-")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	r := &runner{p: p, thorough: thorough, seed: seed, verif: verif, scratch: scratch}

	if err := r.known(); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}

	results := make([]*shardOutcome, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[i] = r.shard(i, "a")
		}()
	}
	wg.Wait()

	// the first failure of each family, simplest case first
	var fails []Failure
	for i, o := range results {
		if o.err != nil {
			fmt.Printf("ERROR: shard %d: %v\n", i, o.err)
			return 2
		}
		fails = append(fails, o.fails...)
	}
	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
	violations := 0
	seen := map[string]int{}
	for _, f := range fails {
		if r.isKnown(f.Family, f.Case) || seen[f.Family] >= 1 {
			continue
		}
		seen[f.Family]++
		violations++
		path := r.saveReplay(f)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  family %s: %s\n  case: %s\n", f.Family, clip(f.Msg, 1500), clip(string(f.Case), 1500))
	}

	if err := r.evidence(results, violations, time.Since(begin)); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	if violations > 0 {
		return 1
	}
	return 0
}

// makeScratch prefers memory, the cases write many small files.
func makeScratch(pattern string) (string, error) {
	d, err := os.MkdirTemp("/dev/shm", pattern)
	if err != nil {
		d, err = os.MkdirTemp("", pattern)
	}
	if err == nil {
		err = os.Chmod(d, 0o711) // for the cases that run without the rights of root
	}
	return d, err
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type knownFinding struct {
	Property string          `json:"property"`
	Family   string          `json:"family"`
	Case     json.RawMessage `json:"case"`
	What     string          `json:"what"`
}

type runner struct {
	p        *Prop
	thorough bool
	seed     uint64
	verif    string
	scratch  string
	findings []knownFinding
	mu       sync.Mutex
	n        int
}

// known reads the listed findings and reports those that still fail.
func (r *runner) known() error {
	b, err := os.ReadFile(filepath.Join(r.verif, "KNOWN_FINDINGS"))
	if errors.Is(err, os.ErrNotExist) {
		return nil
	}
	if err != nil {
		return err
	}
	for n, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "finding: ")
		if !ok {
			continue
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(rest), &k); err != nil {
			return fmt.Errorf("KNOWN_FINDINGS line %d: %v", n+1, err)
		}
		if k.Property != r.p.ID {
			continue
		}
		r.findings = append(r.findings, k)
		out := r.judge(k.Family, k.Case, 1)
		if out.fail != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
		} else if out.err != nil {
			return out.err
		}
	}
	return nil
}

// compact writes JSON in one way.
func compact(js []byte) string {
	d := json.NewDecoder(bytes.NewReader(js))
	d.UseNumber()
	var x any
	if d.Decode(&x) != nil {
		return string(js)
	}
	b, err := json.Marshal(x)
	if err != nil {
		return string(js)
	}
	return string(b)
}

func (r *runner) isKnown(fam string, js []byte) bool {
	for _, k := range r.findings {
		if k.Family == fam && compact(k.Case) == compact(js) {
			return true
		}
	}
	return false
}

func (r *runner) dir(prefix string) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n++
	d := filepath.Join(r.scratch, fmt.Sprintf("%s%d", prefix, r.n))
	os.MkdirAll(d, 0o755)
	return d
}

func (r *runner) child(dir string, limit time.Duration, args ...string) (code int, stdout, stderr string, err error) {
	exe, err := os.Executable()
	if err != nil {
		return 0, "", "", err
	}
	cmd := exec.Command(exe, args...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &limited{b: &se}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=10", "VERIF_SCRATCH="+dir)
	if err := cmd.Start(); err != nil {
		return 0, "", "", err
	}
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	timer.Stop()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		return 0, "", "", err
	}
	return cmd.ProcessState.ExitCode(), so.String(), se.String(), nil
}

// limited keeps the first bytes that are written.
type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if room := 1<<16 - l.b.Len(); room > 0 {
		l.b.Write(p[:min(room, len(p))])
	}
	return len(p), nil
}

type judged struct {
	fail string
	err  error
	died int // exit code of a process that did not end by itself
}

// judge judges a case alone in a fresh process.
func (r *runner) judge(fam string, js []byte, tries int) judged {
	dir := r.dir("judge")
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "case.json")
	if err := os.WriteFile(file, js, 0o644); err != nil {
		return judged{err: err}
	}
	code, out, stderr, err := r.child(dir, 10*time.Minute, "judge", r.p.ID, fam, file, fmt.Sprint(tries), dir)
	switch {
	case err != nil:
		return judged{err: err}
	case code == 0:
		return judged{}
	case code == 1:
		return judged{fail: out}
	case code == exitHang:
		return judged{fail: "the case does not end", died: code}
	case code == exitMemory:
		return judged{fail: "the case exhausts the memory", died: code}
	case code == exitRace:
		return judged{fail: "data race:\n" + clip(stderr, 4000), died: code}
	case code == 3:
		return judged{err: errors.New(out + stderr)}
	}
	return judged{fail: fmt.Sprintf("the process died (exit %d):\n%s", code, clip(stderr, 3000)), died: code}
}

type shardOutcome struct {
	res   *ShardResult
	fails []Failure
	err   error
	dir   string
}

// shard runs a shard and confirms what it reports.
func (r *runner) shard(i int, label string) *shardOutcome {
	o := &shardOutcome{}
	args := ShardArgs{Prop: r.p.ID, Thorough: r.thorough, Seed: r.seed, Index: i, Count: shards}
	res, died, stderr, dir, err := r.runShard(args, label)
	o.dir = dir
	if err != nil {
		o.err = err
		return o
	}
	if died == 0 {
		o.res = res
		if res.Error != "" {
			o.err = errors.New(res.Error)
		}
		for _, f := range res.Failures {
			if r.isKnown(f.Family, f.Case) {
				continue
			}
			if ok, g := r.confirm(args, f); ok {
				o.fails = append(o.fails, g)
			} else {
				fmt.Printf("note: a failure of family %s did not reproduce: %s\n", f.Family, clip(f.Msg, 300))
			}
		}
		return o
	}
	// the process died while a case was judged
	fam, js, ok := readCurrent(filepath.Join(dir, "current"))
	if died == exitRace {
		f := Failure{Property: r.p.ID, Family: fam, Case: js, Msg: "data race:\n" + clip(stderr, 6000)}
		o.fails = append(o.fails, f)
		return o
	}
	if !ok {
		o.err = fmt.Errorf("shard died (exit %d) before its first case: %s", died, clip(stderr, 2000))
		return o
	}
	j := r.judge(fam, js, 1)
	if j.err != nil {
		o.err = j.err
		return o
	}
	if j.fail != "" {
		f := Failure{Property: r.p.ID, Family: fam, Case: js, Msg: j.fail}
		if j.died != 0 {
			f.Case, f.Msg = r.shrink(fam, js, j)
		}
		o.fails = append(o.fails, f)
		return o
	}
	// not confirmed: once more, the whole shard
	res, died2, stderr2, dir2, err := r.runShard(args, label+"again")
	o.dir = dir2
	if err != nil {
		o.err = err
		return o
	}
	if died2 == 0 {
		o.res = res
		if res.Error != "" {
			o.err = errors.New(res.Error)
		}
		for _, f := range res.Failures {
			if ok, g := r.confirm(args, f); ok {
				o.fails = append(o.fails, g)
			}
		}
		return o
	}
	if died2 == exitHang || died2 == exitMemory || died2 < 0 {
		o.err = fmt.Errorf("shard ended with exit %d, its case is fine alone: %s", died2, clip(string(js), 500))
		return o
	}
	o.fails = append(o.fails, Failure{Property: r.p.ID, Family: fam, Case: js, Shard: &args,
		Msg: fmt.Sprintf("the process died (exit %d) at this case after the cases before it: %s", died2, clip(stderr2, 3000))})
	return o
}

func (r *runner) runShard(a ShardArgs, label string) (res *ShardResult, died int, stderr, dir string, err error) {
	dir = r.dir(fmt.Sprintf("shard%d%s-", a.Index, label))
	js, _ := json.Marshal(a)
	code, out, stderr, err := r.child(dir, 6*time.Hour, "shard", string(js), dir)
	if err != nil {
		return nil, 0, "", dir, err
	}
	if code == 3 {
		return nil, 0, "", dir, errors.New(out + stderr)
	}
	if code != 0 {
		return nil, code, stderr, dir, nil
	}
	b, err := os.ReadFile(filepath.Join(dir, "result.json"))
	if err != nil {
		return nil, 0, "", dir, err
	}
	res = &ShardResult{}
	return res, 0, "", dir, json.Unmarshal(b, res)
}

// confirm repeats a failure in a fresh process, first the case alone, then the
// whole shard.
func (r *runner) confirm(a ShardArgs, f Failure) (bool, Failure) {
	for i := 0; i < 3; i++ {
		j := r.judge(f.Family, f.Case, 1+10*i)
		if j.fail != "" {
			f.Msg = j.fail
			return true, f
		}
	}
	for i := 0; i < 2; i++ {
		res, died, _, dir, err := r.runShard(a, "confirm")
		os.RemoveAll(dir)
		if err != nil {
			return false, f
		}
		if died != 0 {
			f.Shard = &a
			return true, f
		}
		for _, g := range res.Failures {
			if g.Family == f.Family && !r.isKnown(g.Family, g.Case) {
				g.Shard = &a
				g.Msg = "after the cases before it in the shard: " + g.Msg
				return true, g
			}
		}
	}
	return false, f
}

// shrink makes the case of a dying process smaller.
func (r *runner) shrink(fam string, js []byte, j judged) ([]byte, string) {
	best, msg := js, j.fail
	deadline := time.Now().Add(60 * time.Second)
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		var v any
		if json.Unmarshal(best, &v) != nil {
			break
		}
		for _, cand := range candidates(v) {
			if time.Now().After(deadline) {
				break
			}
			b, err := json.Marshal(cand)
			if err != nil || len(b) >= len(best) {
				continue
			}
			if k := r.judge(fam, b, 1); k.died == j.died && k.fail != "" {
				best, msg, progress = b, k.fail, true
				break
			}
		}
	}
	return best, msg
}

// candidates returns smaller versions of a JSON value.
func candidates(v any) []any {
	var out []any
	switch x := v.(type) {
	case string:
		if n := len(x); n > 1 {
			out = append(out, x[:n/2], x[n/2:], x[:n-1], x[1:])
		}
	case []any:
		for i := range x {
			out = append(out, append(append([]any{}, x[:i]...), x[i+1:]...))
		}
		for i := range x {
			for _, c := range candidates(x[i]) {
				y := append([]any{}, x...)
				y[i] = c
				out = append(out, y)
			}
		}
	case map[string]any:
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			for _, c := range candidates(x[k]) {
				y := map[string]any{}
				for a, b := range x {
					y[a] = b
				}
				y[k] = c
				out = append(out, y)
			}
		}
	}
	return out
}

func (r *runner) saveReplay(f Failure) string {
	dir := filepath.Join(r.verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", f.Property, strings.ReplaceAll(f.Family, " ", "-"), hash(f.Family, f.Case)))
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// Replay judges a saved failure again.
func Replay(p *Prop, f Failure, verif string) int {
	scratch, err := makeScratch("verif-replay-")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	r := &runner{p: p, verif: verif, scratch: scratch}
	if f.Shard != nil {
		r.thorough, r.seed = f.Shard.Thorough, f.Shard.Seed
		res, died, stderr, _, err := r.runShard(*f.Shard, "replay")
		if err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
		if died != 0 {
			fmt.Printf("the shard died (exit %d): %s\n", died, stderr)
			return 1
		}
		for _, g := range res.Failures {
			fmt.Printf("family %s: %s\ncase: %s\n", g.Family, g.Msg, g.Case)
		}
		if len(res.Failures) > 0 {
			return 1
		}
		fmt.Println("does not fail")
		return 0
	}
	j := r.judge(f.Family, f.Case, 20)
	if j.err != nil {
		fmt.Println("ERROR:", j.err)
		return 2
	}
	if j.fail != "" {
		fmt.Println(j.fail)
		return 1
	}
	fmt.Println("does not fail")
	return 0
}

// evidence writes what the run covered.
func (r *runner) evidence(results []*shardOutcome, violations int, wall time.Duration) error {
	total := map[string]*FamStats{}
	distinct := map[uint64]struct{}{}
	var samples []Sample
	for _, o := range results {
		if o.res == nil {
			continue
		}
		for name, s := range o.res.Stats {
			t := total[name]
			if t == nil {
				t = &FamStats{Classes: map[string]int{}}
				total[name] = t
			}
			t.Evaluations += s.Evaluations
			t.Enumerated += s.Enumerated
			t.NonTrivial += s.NonTrivial
			for c, n := range s.Classes {
				t.Classes[c] += n
			}
		}
		samples = append(samples, o.res.Samples...)
		b, err := os.ReadFile(filepath.Join(o.dir, "hashes"))
		if err != nil {
			return err
		}
		for ; len(b) >= 8; b = b[8:] {
			distinct[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
	}
	evals := 0
	var rules []string
	for _, f := range r.p.Families {
		if t := total[f.Name]; t != nil {
			evals += t.Evaluations
		}
		rules = append(rules, f.Name+": "+f.Rule)
	}
	// a few samples of every family
	per := map[string]int{}
	picked := []Sample{}
	for _, s := range samples {
		if per[s.Family] < 6 {
			per[s.Family]++
			picked = append(picked, s)
		}
	}
	tier := "quick"
	if r.thorough {
		tier = "thorough"
	}
	ev := map[string]any{
		"property": r.p.ID,
		"tier":     tier,
		"seed":     r.seed,
		"level":    r.p.Level,
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": len(distinct),
			"rule":                strings.Join(rules, " | "),
			"samples":             picked,
			"families":            total,
		},
		"assumptions": r.p.Assumptions,
		"wall_s":      wall.Seconds(),
		"violations":  violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(r.verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s\n", r.p.ID, tier, evals, len(distinct), violations, wall.Seconds())
	return os.WriteFile(filepath.Join(dir, r.p.ID+".json"), append(b, '\n'), 0o644)
}
