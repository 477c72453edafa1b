// Package main is the verification harness: every property of properties.jsonl is an executable
// check over generated cases, driven by rapid, with shrinking and replay files.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what one case did.
type Obs struct {
	classes    map[string]int
	nontrivial bool
	known      map[string]string
}

// Class counts the case under a label (once per case and label).
func (o *Obs) Class(f string, a ...interface{}) {
	if len(a) > 0 {
		f = fmt.Sprintf(f, a...)
	}
	o.classes[f] = 1
}

// ClassIf is Class under a condition.
func (o *Obs) ClassIf(c bool, f string) {
	if c {
		o.classes[f] = 1
	}
}

// NonTrivial marks the case as non-trivial by the rule of its property.
func (o *Obs) NonTrivial() { o.nontrivial = true }

// Known records that the case showed exactly the recorded deviation `key`. It is an error if the
// known-findings file does not list it.
func (o *Obs) Known(key string, detail string) error {
	if _, ok := knownFindings[key]; !ok {
		return fmt.Errorf("%s (%s is not a listed finding)", detail, key)
	}
	if _, ok := o.known[key]; !ok {
		o.known[key] = detail
	}
	return nil
}

// Prop is one property, erased over its case type.
type Prop struct {
	ID          string
	Level       string
	Technique   string
	Rule        string
	Note        string
	Assumptions []string
	Quick       int
	Thorough    int
	// CaseCPU is the CPU seconds one case may use before it counts as endless (default 60).
	CaseCPU float64

	drive   func(r *run) // random search
	sweep   func(r *run) // deterministic cases
	runJSON func(data []byte, o *Obs) error
	fuzz    func(r *run, t *rapid.T) *failure // one generated case
}

// Spec is a property over cases of type C.
type Spec[C any] struct {
	ID          string
	Level       string
	Rule        string
	Note        string
	Technique   string
	Assumptions []string
	Quick       int
	Thorough    int
	CaseCPU     float64
	Gen         func(t *rapid.T) C
	Check       func(c C, o *Obs) error
	// Sweep yields deterministic cases: corner cases and finite spaces that are enumerated.
	Sweep func(thorough bool, yield func(C))
	// Shrink yields smaller cases; failing cases of the sweep are shrunk with it.
	Shrink func(c C) []C
}

var props = map[string]*Prop{}

func register[C any](s Spec[C]) {
	p := &Prop{ID: s.ID, Level: s.Level, Rule: s.Rule, Note: s.Note, Technique: s.Technique, Assumptions: s.Assumptions,
		Quick: s.Quick, Thorough: s.Thorough, CaseCPU: s.CaseCPU}
	if p.Level == "" {
		p.Level = "exploration"
	}
	if p.CaseCPU == 0 {
		p.CaseCPU = 60
	}
	p.runJSON = func(data []byte, o *Obs) error {
		var c C
		if err := json.Unmarshal(data, &c); err != nil {
			return &badReplay{err}
		}
		return guarded(s.Check, c, o)
	}
	one := func(r *run, c C) error {
		data, err := json.Marshal(c)
		if err != nil {
			panic(fmt.Sprintf("case does not marshal: %v", err))
		}
		return r.evaluate(data, func(o *Obs) error { return guarded(s.Check, c, o) })
	}
	p.drive = func(r *run) {
		if s.Gen == nil {
			return
		}
		r.search(func(t *rapid.T) {
			c := s.Gen(t)
			if one(r, c) != nil {
				t.Fatalf("violation")
			}
		})
	}
	p.fuzz = func(r *run, t *rapid.T) *failure {
		c := s.Gen(t)
		r.failures = nil
		one(r, c)
		return r.smallest()
	}
	p.sweep = func(r *run) {
		if s.Sweep == nil {
			return
		}
		i := 0
		s.Sweep(r.thorough, func(c C) {
			i++
			if r.failed() || i%r.shards != r.shard {
				return
			}
			if one(r, c) == nil || s.Shrink == nil {
				return
			}
			for start, again := time.Now(), true; again; {
				again = false
				for _, d := range s.Shrink(c) {
					if time.Since(start) < 20*time.Second && one(r, d) != nil {
						c, again = d, true
						break
					}
				}
			}
		})
	}
	if props[s.ID] != nil {
		panic("duplicate " + s.ID)
	}
	props[s.ID] = p
}

type badReplay struct{ err error }

func (b *badReplay) Error() string { return "unreadable case: " + b.err.Error() }

// guarded runs a check and turns a panic into its error.
func guarded[C any](check func(C, *Obs) error, c C, o *Obs) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v\n%s", e, shortStack())
		}
	}()
	return check(c, o)
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "goav") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// run is the state of one shard.
type run struct {
	prop     *Prop
	thorough bool
	shard    int
	shards   int
	seed     uint64
	checks   int
	journal  *os.File

	evals    int
	distinct map[uint64]bool // distinct cases
	nontriv  map[uint64]bool // distinct non-trivial cases
	classes  map[string]int
	known    map[string]string
	samples  map[string]sample
	failures []failure
	noncount bool // while shrinking, evaluations are not counted
	firstIdx int
}

type sample struct {
	hash uint64
	data string
}

type failure struct {
	Data []byte
	Msg  string
}

func (r *run) failed() bool { return len(r.failures) > 0 }

// current case, for the watchdog
var curCase atomic.Pointer[[]byte]
var curSerial atomic.Int64

func (r *run) evaluate(data []byte, f func(o *Obs) error) error {
	if r.journal != nil {
		r.journal.Truncate(0)
		r.journal.WriteAt(data, 0)
	}
	o := &Obs{classes: map[string]int{}, known: map[string]string{}}
	curCase.Store(&data)
	curSerial.Add(1)
	err := f(o)
	curCase.Store(nil)

	if !r.failed() && r.distinct != nil {
		r.evals++
		h := fnv.New64a()
		h.Write(data)
		sum := h.Sum64()
		r.distinct[sum] = true
		for k := range o.classes {
			r.classes[k]++
			// keep per class the sample with the smallest mixed hash: a stable choice of cases
			if o.nontrivial {
				m := sum * 0x9E3779B97F4A7C15
				if s, ok := r.samples[k]; !ok || m < s.hash {
					r.samples[k] = sample{m, clip(string(data), 600)}
				}
			}
		}
		if o.nontrivial {
			r.nontriv[sum] = true
			if len(o.classes) == 0 {
				m := sum * 0x9E3779B97F4A7C15
				if s, ok := r.samples[""]; !ok || m < s.hash {
					r.samples[""] = sample{m, clip(string(data), 600)}
				}
			}
		}
		for k, d := range o.known {
			if _, ok := r.known[k]; !ok {
				r.known[k] = d
			}
		}
	}
	if err != nil {
		r.failures = append(r.failures, failure{append([]byte(nil), data...), err.Error()})
	}
	return err
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// smallest returns the smallest failing case seen.
func (r *run) smallest() *failure {
	if len(r.failures) == 0 {
		return nil
	}
	fs := append([]failure(nil), r.failures...)
	sort.SliceStable(fs, func(i, j int) bool { return len(fs[i].Data) < len(fs[j].Data) })
	return &fs[0]
}

// search drives rapid.
func (r *run) search(prop func(*rapid.T)) {
	done := make(chan struct{})
	tb := &fakeTB{}
	go func() {
		defer close(done)
		rapid.Check(tb, prop)
	}()
	<-done
	if tb.failed.Load() && !r.failed() {
		fmt.Fprintf(os.Stderr, "generator failure: %s\n", tb.log.String())
		os.Exit(2)
	}
}

// fakeTB is the testing interface rapid needs.
type fakeTB struct {
	failed atomic.Bool
	log    bytes.Buffer
}

func (f *fakeTB) Helper()      {}
func (f *fakeTB) Name() string { return "verif" }
func (f *fakeTB) add(s string) {
	if f.log.Len() < 1<<16 {
		f.log.WriteString(s + "\n")
	}
}
func (f *fakeTB) Logf(format string, args ...any)   { f.add(fmt.Sprintf(format, args...)) }
func (f *fakeTB) Log(args ...any)                   { f.add(fmt.Sprintln(args...)) }
func (f *fakeTB) Skipf(format string, args ...any)  { f.Logf(format, args...); f.SkipNow() }
func (f *fakeTB) Skip(args ...any)                  { f.Log(args...); f.SkipNow() }
func (f *fakeTB) SkipNow()                          { runtime.Goexit() }
func (f *fakeTB) Errorf(format string, args ...any) { f.Logf(format, args...); f.Fail() }
func (f *fakeTB) Error(args ...any)                 { f.Log(args...); f.Fail() }
func (f *fakeTB) Fatalf(format string, args ...any) { f.Logf(format, args...); f.FailNow() }
func (f *fakeTB) Fatal(args ...any)                 { f.Log(args...); f.FailNow() }
func (f *fakeTB) FailNow()                          { f.Fail(); runtime.Goexit() }
func (f *fakeTB) Fail()                             { f.failed.Store(true) }
func (f *fakeTB) Failed() bool                      { return f.failed.Load() }
