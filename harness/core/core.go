// Package core runs the checks: it spreads the generated cases over shard
// processes, watches over them, confirms failures and writes the evidence.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"runtime/debug"

	"pgregory.net/rapid"
)

// Verdict is the result of judging one case.
type Verdict struct {
	Fail       string // empty when the property held
	NonTrivial bool
	Class      string // for the distribution in the evidence
}

func OK(nontrivial bool, class string) Verdict { return Verdict{NonTrivial: nontrivial, Class: class} }

func Failf(format string, a ...any) Verdict {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 40000 {
		msg = msg[:20000] + "\n[...]\n" + msg[len(msg)-20000:]
	}
	return Verdict{Fail: msg, NonTrivial: true, Class: "fail"}
}

// Fam is a family of cases of one property.
type Fam[T any] struct {
	Name string
	Rule string // how cases are made and what makes one non-trivial
	// Enum enumerates a finite space.
	Enum func(thorough bool, yield func(func() T))
	// Gen draws a random case.
	Gen             func(*rapid.T) T
	Quick, Thorough int
	Judge           func(T) Verdict
}

// Family is a Fam without its type.
type Family struct {
	Name, Rule      string
	Quick, Thorough int
	HasEnum, HasGen bool
	enum            func(bool, func(func() any))
	gen             func(*rapid.T) any
	judge           func(any) Verdict
	decode          func([]byte) (any, error)
}

// New erases the type of a family.
func New[T any](f Fam[T]) Family {
	out := Family{Name: f.Name, Rule: f.Rule, Quick: f.Quick, Thorough: f.Thorough}
	if f.Enum != nil {
		out.HasEnum = true
		out.enum = func(th bool, y func(func() any)) {
			f.Enum(th, func(c func() T) { y(func() any { return c() }) })
		}
	}
	if f.Gen != nil {
		out.HasGen = true
		out.gen = func(r *rapid.T) any { return f.Gen(r) }
	}
	out.judge = func(c any) Verdict { return f.Judge(c.(T)) }
	out.decode = func(b []byte) (any, error) {
		var c T
		err := json.Unmarshal(b, &c)
		return c, err
	}
	return out
}

// Prop is a property and the families that decide it.
type Prop struct {
	ID          string
	Level       string
	Race        bool // built with the race detector
	Families    []Family
	Assumptions []string
}

// Thorough tells which tier runs.
var Thorough bool

// judgeSafe judges a case; a panic is a failure.
func (f *Family) judgeSafe(c any) (v Verdict) {
	defer func() {
		if r := recover(); r != nil {
			v = Failf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return f.judge(c)
}

func hash(fam string, c []byte) uint64 {
	h := fnv.New64a()
	h.Write([]byte(fam))
	h.Write([]byte{0})
	h.Write(c)
	return h.Sum64()
}

// mix derives a seed (splitmix64), never zero.
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	x ^= x >> 31
	if x == 0 {
		x = 1
	}
	return x >> 1
}

// Failure of a case.
type Failure struct {
	Property string          `json:"property"`
	Family   string          `json:"family"`
	Case     json.RawMessage `json:"case,omitempty"`
	Msg      string          `json:"msg"`
	// Shard is set when the failure depends on the cases before it: the whole
	// shard is the reproduction.
	Shard *ShardArgs `json:"shard,omitempty"`
}

// ShardArgs identify a shard.
type ShardArgs struct {
	Prop     string `json:"prop"`
	Thorough bool   `json:"thorough"`
	Seed     uint64 `json:"seed"`
	Index    int    `json:"index"`
	Count    int    `json:"count"`
}

// FamStats is what a shard did in a family.
type FamStats struct {
	Evaluations int            `json:"evaluations"`
	Enumerated  int            `json:"enumerated"`
	NonTrivial  int            `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
}

// ShardResult is written by a shard that ran to its end.
type ShardResult struct {
	Stats    map[string]*FamStats `json:"stats"`
	Samples  []Sample             `json:"samples"`
	Failures []Failure            `json:"failures"`
	Error    string               `json:"error,omitempty"`
}

// Sample is a case of the run.
type Sample struct {
	Family string          `json:"family"`
	Class  string          `json:"class"`
	Case   json.RawMessage `json:"case"`
}
