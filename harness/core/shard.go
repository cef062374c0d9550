package core

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Exit codes of child processes.
const (
	exitHang   = 77
	exitMemory = 78
	exitRace   = 66
)

const (
	maxShardWall = 15 * time.Second // of one case, before it is looked at alone
	maxJudgeCPU  = 20 * time.Second
	maxJudgeWall = 120 * time.Second
	maxRSS       = 2800 << 20
)

// current is the file with the case that is being judged. It is written before
// each case, so that it is known when the process dies.
type current struct {
	f     *os.File
	start atomic.Int64
	cpu   atomic.Int64
	buf   []byte
}

func openCurrent(path string) (*current, error) {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		return nil, err
	}
	return &current{f: f}, nil
}

func (c *current) set(fam string, js []byte) {
	c.buf = binary.LittleEndian.AppendUint32(c.buf[:0], uint32(len(fam)))
	c.buf = binary.LittleEndian.AppendUint32(c.buf, uint32(len(js)))
	c.buf = append(c.buf, fam...)
	c.buf = append(c.buf, js...)
	c.f.WriteAt(c.buf, 0)
	c.cpu.Store(-1)
	c.start.Store(time.Now().UnixNano())
}

func (c *current) done() { c.start.Store(0) }

func readCurrent(path string) (fam string, js []byte, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return "", nil, false
	}
	n, m := int(binary.LittleEndian.Uint32(b)), int(binary.LittleEndian.Uint32(b[4:]))
	if len(b) < 8+n+m {
		return "", nil, false
	}
	return string(b[8 : 8+n]), b[8+n : 8+n+m], true
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// watch ends the process when a case takes too long or too much memory.
func (c *current) watch(alone bool) {
	go func() {
		for {
			time.Sleep(25 * time.Millisecond)
			if rss() > maxRSS {
				os.Exit(exitMemory)
			}
			at := c.start.Load()
			if at == 0 {
				continue
			}
			d := time.Duration(time.Now().UnixNano() - at)
			c.cpu.CompareAndSwap(-1, int64(cpuTime()))
			used := cpuTime() - time.Duration(c.cpu.Load())
			if !alone && d > maxShardWall || alone && (d > maxJudgeWall || used > maxJudgeCPU) {
				os.Exit(exitHang)
			}
		}
	}()
}

type tb struct {
	failed bool
	logs   []string
}

type failNow struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(f string, a ...any)   { t.add(fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.add(fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { t.Logf(f, a...); panic(failNow{}) }
func (t *tb) Skip(a ...any)             { t.Log(a...); panic(failNow{}) }
func (t *tb) SkipNow()                  { panic(failNow{}) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.failed = true; panic(failNow{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }
func (t *tb) add(s string) {
	if len(t.logs) < 50 {
		t.logs = append(t.logs, s)
	}
}

func initRapid() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "10s")
}

// Shard runs its part of all families and writes its result into dir.
func Shard(p *Prop, a ShardArgs, dir string) error {
	runtime.GOMAXPROCS(2)
	if p.Race {
		runtime.GOMAXPROCS(4)
	}
	initRapid()
	Thorough = a.Thorough
	cur, err := openCurrent(filepath.Join(dir, "current"))
	if err != nil {
		return err
	}
	work := filepath.Join(dir, "work")
	if err := os.MkdirAll(work, 0o755); err != nil {
		return err
	}
	if err := os.Chdir(work); err != nil {
		return err
	}
	cur.watch(false)

	res := &ShardResult{Stats: map[string]*FamStats{}}
	distinct := map[uint64]struct{}{}
	only := os.Getenv("VERIF_FAMILY")

	for i := range p.Families {
		f := &p.Families[i]
		if only != "" && only != f.Name {
			continue
		}
		st := &FamStats{Classes: map[string]int{}}
		res.Stats[f.Name] = st
		perClass := map[string]int{}

		// one judges a case and tells whether it failed
		one := func(c any) (bool, []byte, string) {
			js, err := json.Marshal(c)
			if err != nil {
				panic(fmt.Sprintf("case of %s: %v", f.Name, err))
			}
			cur.set(f.Name, js)
			v := f.judgeSafe(c)
			cur.done()
			st.Evaluations++
			st.Classes[v.Class]++
			if v.NonTrivial {
				st.NonTrivial++
				distinct[hash(f.Name, js)] = struct{}{}
			}
			if perClass[v.Class] < 2 && v.NonTrivial && len(js) < 3000 && a.Index == 0 {
				perClass[v.Class]++
				res.Samples = append(res.Samples, Sample{f.Name, v.Class, js})
			}
			return v.Fail != "", js, v.Fail
		}

		failed := false
		if f.HasEnum {
			idx := 0
			f.enum(a.Thorough, func(c func() any) {
				mine := idx%a.Count == a.Index
				idx++
				if !mine || failed {
					return
				}
				st.Enumerated++
				if bad, js, msg := one(c()); bad {
					failed = true
					res.Failures = append(res.Failures, Failure{Property: p.ID, Family: f.Name, Case: js, Msg: msg})
				}
			})
		}
		n := f.Quick
		if a.Thorough {
			n = f.Thorough
		}
		if f.HasGen && n > 0 && !failed {
			n = (n + a.Count - 1) / a.Count
			seed := mix(a.Seed ^ mix(uint64(a.Index)^hash(p.ID+f.Name, nil)))
			flag.Set("rapid.checks", strconv.Itoa(n))
			flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
			var last *Failure
			t := &tb{}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(failNow); !ok {
							panic(r)
						}
					}
				}()
				rapid.Check(t, func(r *rapid.T) {
					bad, js, msg := one(f.gen(r))
					if bad {
						last = &Failure{Property: p.ID, Family: f.Name, Case: js, Msg: msg}
						r.Fatalf("the property does not hold")
					}
				})
			}()
			if last != nil {
				res.Failures = append(res.Failures, *last)
			} else if t.failed {
				res.Error = fmt.Sprintf("generator of %s: %s", f.Name, strings.Join(t.logs, "\n"))
			}
		}
	}

	hs := make([]byte, 0, 8*len(distinct))
	for h := range distinct {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	if err := os.WriteFile(filepath.Join(dir, "hashes"), hs, 0o644); err != nil {
		return err
	}
	js, err := json.Marshal(res)
	if err != nil {
		return err
	}
	tmp := filepath.Join(dir, "result.tmp")
	if err := os.WriteFile(tmp, js, 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, filepath.Join(dir, "result.json"))
}

// Judge judges one case, tries times, in this process. It returns the message
// of a failure.
func Judge(p *Prop, fam string, js []byte, tries int, dir string) (string, error) {
	initRapid()
	var f *Family
	for i := range p.Families {
		if p.Families[i].Name == fam {
			f = &p.Families[i]
		}
	}
	if f == nil {
		return "", fmt.Errorf("property %s has no family %q", p.ID, fam)
	}
	c, err := f.decode(js)
	if err != nil {
		return "", err
	}
	cur, err := openCurrent(filepath.Join(dir, "current"))
	if err != nil {
		return "", err
	}
	work := filepath.Join(dir, "work")
	if err := os.MkdirAll(work, 0o755); err != nil {
		return "", err
	}
	if err := os.Chdir(work); err != nil {
		return "", err
	}
	cur.watch(true)
	for i := 0; i < tries; i++ {
		cur.set(fam, js)
		if v := f.judgeSafe(c); v.Fail != "" {
			return v.Fail, nil
		}
	}
	return "", nil
}
