package main

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
)

// Op is one step of a scenario. A scenario is explicit: running it draws nothing
// at random, so it can be minimised step by step and replayed exactly.
type Op struct {
	K   string `json:"k"`
	N   int64  `json:"n,omitempty"`
	M   int64  `json:"m,omitempty"`
	L   int64  `json:"l,omitempty"`
	S   string `json:"s,omitempty"`
	B   []byte `json:"b,omitempty"`
	Rec *Rec   `json:"rec,omitempty"`
	F   *Fault `json:"f,omitempty"`
}

type Scenario struct {
	Prop string           `json:"prop"`
	Seed uint64           `json:"seed"`
	Cfg  map[string]int64 `json:"cfg"`
	Strs []string         `json:"strs,omitempty"`
	Ops  []Op             `json:"ops"`
	// Client is a scenario of the client simulator.
	Client json.RawMessage `json:"client,omitempty"`
}

func (s *Scenario) clone() *Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

// Violation is a broken property. Class is stable under minimisation; Sig
// identifies a known finding.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Step  int    `json:"step"`
	Sig   string `json:"sig,omitempty"`
}

func (v *Violation) Error() string { return v.Class + ": " + v.Msg }

func viol(class, format string, a ...any) *Violation {
	return &Violation{Class: class, Msg: fmt.Sprintf(format, a...), Step: -1}
}

// Stats of runs.
type Stats struct {
	Runs     int64            `json:"runs"`
	Ops      int64            `json:"ops"`
	Steps    int64            `json:"steps"` // storage operations
	Faults   map[string]int64 `json:"faults"`
	Probes   map[string]int64 `json:"probes"`
	Known    map[string]int64 `json:"known"`
	Redone   int64            `json:"redone"`
	Diverged int64            `json:"diverged"`
	NonTriv  int64            `json:"nontrivial"`
	hash     Hash
	curTriv  bool
}

func NewStats() *Stats {
	return &Stats{Faults: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int64{}}
}
func (s *Stats) Fault(k string)           { s.Faults[k]++ }
func (s *Stats) FaultN(k string, n int64) { s.Faults[k] += n }
func (s *Stats) Probe(k string)           { s.Probes[k]++ }
func (s *Stats) Merge(o *Stats) {
	s.Runs += o.Runs
	s.Ops += o.Ops
	s.Steps += o.Steps
	s.Redone += o.Redone
	s.Diverged += o.Diverged
	s.NonTriv += o.NonTriv
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
	for k, v := range o.Known {
		s.Known[k] += v
	}
}

// Prop is a property with its simulation.
type Prop interface {
	Gen(r *Rng, big bool) *Scenario
	Run(sc *Scenario, st *Stats) *Violation
}

// runSafe runs a scenario; a panic of the code under test is a violation unless
// the property handles it.
func runSafe(p Prop, sc *Scenario, st *Stats) (v *Violation) {
	st.hash = 0
	defer func() {
		if e := recover(); e != nil {
			if b, ok := e.(budgetSignal); ok {
				v = viol("no-progress", "a call used more than %d storage operations", b.n-1)
				return
			}
			v = viol("panic", "%v at %s", e, panicSite(string(debug.Stack())))
		}
	}()
	return p.Run(sc, st)
}

// panicSite names the topmost functions of the repository in a stack.
func panicSite(stack string) string {
	var fs []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/kevmo314/appendable/") {
			f := strings.TrimPrefix(l, "github.com/kevmo314/appendable/")
			if i := strings.LastIndexByte(f, '('); i > 0 {
				f = f[:i]
			}
			fs = append(fs, f)
			if len(fs) == 3 {
				break
			}
		}
	}
	if len(fs) == 0 {
		return "HARNESS " + stack
	}
	return strings.Join(fs, " < ")
}

// try calls f, turning a panic of the code under test into an error. Crash and
// budget signals pass through.
func try(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case crashSignal, budgetSignal:
				panic(e)
			}
			site := panicSite(string(debug.Stack()))
			if strings.HasPrefix(site, "HARNESS") {
				panic(e)
			}
			err = &panicError{fmt.Sprint(e), site}
		}
	}()
	return f()
}

type panicError struct{ msg, site string }

func (p *panicError) Error() string { return "panic: " + p.msg + " at " + p.site }

func isPanic(err error) bool {
	_, ok := err.(*panicError)
	return ok
}

// crashed runs f and reports whether the simulated process died in it.
func crashed(f func()) (c bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(crashSignal); ok {
				c = true
				return
			}
			panic(e)
		}
	}()
	f()
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
