package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"verifsim"
)

// Record is everything that decides one run: replaying it repeats the run.
type Record struct {
	Property string          `json:"property"`
	Scenario string          `json:"scenario"`
	Race     bool            `json:"race"`            // which build: with the race detector or without
	Base     uint64          `json:"base"`            // VERIF_SEED
	Index    int             `json:"index"`           // run number within the scenario
	Prelude  []int           `json:"prelude"`         // runs made before it in the same process
	Spec     json.RawMessage `json:"spec"`            // the workload
	Choices  []int           `json:"choices"`         // the scenario's own choices: fault positions and the like
	Sims     []SimRec        `json:"sims"`            // schedule and faults of each simulated execution
	Class    string          `json:"class"`           // what went wrong
	Detail   string          `json:"detail"`          // in words
	Trace    string          `json:"trace,omitempty"` // hash of the schedules
	Explore  bool            `json:"explore,omitempty"`
	Salt     uint64          `json:"salt,omitempty"`
}

// SimRec is one simulated execution of a run.
type SimRec struct {
	Knobs     uint64         `json:"knobs"`
	Policy    string         `json:"policy,omitempty"` // how it was found
	Seed      uint64         `json:"seed,omitempty"`
	Decisions []sim.Decision `json:"decisions"`
	Faults    []sim.Fault    `json:"faults"`
	Limit     int64          `json:"limit,omitempty"`
}

// Scenario is a workload family together with its oracle.
type Scenario interface {
	// Gen makes a workload.
	Gen(r *sim.Rng, e *Env) any
	// New returns a pointer to an empty workload.
	New() any
	// Run runs it and calls e.Fail if the property does not hold.
	Run(e *Env, spec any)
}

// Stats is what a batch of runs covered.
type Stats struct {
	Runs       int            `json:"runs"`
	Sims       int            `json:"sims"`
	Steps      int64          `json:"steps"`
	MaxSteps   int64          `json:"maxSteps"`
	Time       int64          `json:"time"`
	Switches   int64          `json:"switches"`
	Tasks      int64          `json:"tasks"`
	Faults     map[string]int `json:"faults"`
	Probes     map[string]int `json:"probes"`
	Policies   map[string]int `json:"policies"`
	NonTrivial int            `json:"nontrivial"`
	Traces     []uint64       `json:"traces"`
	Samples    []string       `json:"samples"`
	Digest     uint64         `json:"digest"`
	Digests    []uint64       `json:"digests,omitempty"`
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Probes: map[string]int{}, Policies: map[string]int{}}
}

func (s *Stats) add(o *Stats) {
	s.Runs += o.Runs
	s.Sims += o.Sims
	s.Steps += o.Steps
	s.MaxSteps = max(s.MaxSteps, o.MaxSteps)
	s.Time += o.Time
	s.Switches += o.Switches
	s.Tasks += o.Tasks
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
	for k, v := range o.Policies {
		s.Policies[k] += v
	}
	s.NonTrivial += o.NonTrivial
	s.Traces = append(s.Traces, o.Traces...)
	if len(s.Samples) < 4 {
		s.Samples = append(s.Samples, o.Samples...)
	}
	s.Digest ^= o.Digest
}

// Env is the surroundings of one run.
type Env struct {
	rec       *Record
	rng       sim.Rng
	replay    bool
	out       Record // what actually happened, for the record
	chPos     int
	simPos    int
	stats     *Stats
	class     string
	detail    string
	trace     uint64
	nontriv   bool
	race0     int
	inSim     bool
	typeBase  int
	tier      string
	forceRand bool
}

type stopRun struct{}

// Fail ends the run with a violation.
func (e *Env) Fail(class, format string, args ...any) {
	e.failed(class, format, args...)
	panic(stopRun{})
}

func (e *Env) failed(class, format string, args ...any) {
	if e.class == "" {
		e.class = class
		e.detail = plain(fmt.Sprintf(format, args...))
	}
}

// plain replaces what a terminal or grep would not take for text.
func plain(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c == '\n' || c == '\t' || (c >= ' ' && c < 127) || c > 159 && c != '\uFFFD' && strconv.IsPrint(c):
			b.WriteRune(c)
		default:
			fmt.Fprintf(&b, "\\x%02x", c)
		}
	}
	return b.String()
}

// Choose is a choice of the scenario in [0,n), replayed from the record.
func (e *Env) Choose(n int) int {
	if n <= 1 {
		n = 1
	}
	v := 0
	if e.replay {
		if e.chPos < len(e.rec.Choices) {
			v = e.rec.Choices[e.chPos]
		}
		if v < 0 {
			v = 0
		}
		if v >= n {
			v = n - 1
		}
	} else {
		v = e.rng.Intn(n)
	}
	e.chPos++
	e.out.Choices = append(e.out.Choices, v)
	return v
}

// Probe counts that a condition worth reaching was reached.
func (e *Env) Probe(name string) { e.stats.Probes[name]++ }

// NonTrivial marks the run as one in which something happened that the
// property is about.
func (e *Env) NonTrivial() { e.nontriv = true }

// SimOpts configures one simulated execution of a run.
type SimOpts struct {
	Quiet    bool // the default schedule, no exploration
	Faults   []sim.Fault
	Handlers map[string]func(string)
	Limit    int64
	LeakOK   bool // tasks may be left blocked
	Sync     bool // prefer switching at synchronisation only
}

// Sim runs main under the simulator.
func (e *Env) Sim(o SimOpts, main func()) sim.Result {
	var cfg sim.Config
	idx := e.simPos
	e.simPos++
	cfg.StepLimit = o.Limit
	if e.replay && idx < len(e.rec.Sims) {
		r := e.rec.Sims[idx]
		cfg.Policy = "replay"
		cfg.Decisions = r.Decisions
		cfg.Knobs = r.Knobs
	} else if e.replay || o.Quiet {
		cfg.Policy = "default"
		cfg.Knobs = e.knob()
	} else {
		cfg.Seed = e.rng.Uint64()
		cfg.Knobs = e.knob()
		switch k := e.rng.Intn(16); {
		case k < 2:
			cfg.Policy, cfg.P = "walk", 1
		case k < 4:
			cfg.Policy, cfg.P = "walk", 4
		case k < 6:
			cfg.Policy, cfg.P = "walk", 16
		case k < 8:
			cfg.Policy, cfg.P = "walk", 64
		case k < 11:
			cfg.Policy = "sync"
		case k < 14:
			cfg.Policy, cfg.Depth = "pct", 1+e.rng.Intn(4)
			cfg.Horizon = int64(50 << e.rng.Intn(6))
		default:
			cfg.Policy, cfg.P = "starve", 8
		}
	}
	cfg.Faults = o.Faults
	e.inSim = true
	res := sim.Run(cfg, o.Handlers, main)
	e.inSim = false
	e.out.Sims = append(e.out.Sims, SimRec{Knobs: cfg.Knobs, Policy: cfg.Policy, Seed: cfg.Seed, Decisions: orEmpty(res.Decisions), Faults: o.Faults, Limit: o.Limit})
	if cfg.Policy == "replay" {
		e.out.Sims[len(e.out.Sims)-1].Decisions = orEmpty(cfg.Decisions)
	}
	st := e.stats
	st.Sims++
	st.Steps += res.Steps
	st.MaxSteps = max(st.MaxSteps, res.Steps)
	st.Time += res.Time
	st.Switches += int64(res.Switches)
	st.Tasks += int64(res.Tasks)
	for k, v := range res.FaultsHit {
		st.Faults[k] += v
	}
	if !o.Quiet {
		st.Policies[cfg.Policy]++
	}
	e.trace = sim.Mix(e.trace, res.Trace)
	for _, f := range o.Faults {
		e.trace = sim.Mix(e.trace, uint64(f.N)*31+uint64(len(f.T)))
	}
	e.trace = sim.Mix(e.trace, uint64(res.Steps))
	if res.Crash != nil {
		e.Fail("crash", "an unrecovered panic in goroutine %s would have ended the process: %s\n%s", res.Crash.Task, res.Crash.Value, res.Crash.Stack)
	}
	if res.Livelock {
		e.Fail("livelock", "no end after %d steps; %s", res.Steps, stuckText(res.Deadlock))
	}
	if len(res.Deadlock) > 0 {
		if !res.RootDone {
			e.Fail("deadlock", "calls never return: %s", stuckText(res.Deadlock))
		}
		if !o.LeakOK {
			e.Fail("leak", "goroutines left behind for ever: %s", stuckText(res.Deadlock))
		}
	}
	e.checkRace()
	return res
}

func orEmpty(d []sim.Decision) []sim.Decision {
	if d == nil {
		return []sim.Decision{}
	}
	return d
}

// knob is the same for all executions of a run, so that they differ in nothing
// but schedule and faults.
func (e *Env) knob() uint64 { return sim.Mix(e.rec.Salt^e.rec.Base, uint64(e.rec.Index)) | 1 }

// quietSim is an execution under the default schedule that only observes: it
// is not part of the record.
func (e *Env) quietSim(o SimOpts, main func()) sim.Result {
	return sim.Run(sim.Config{Policy: "default", Knobs: e.knob(), Faults: o.Faults, StepLimit: max(o.Limit, 20000000)}, o.Handlers, main)
}

func (e *Env) checkRace() {
	if n := sim.RaceErrors(); n != e.race0 {
		e.race0 = n
		e.Fail("race", "the race detector reports a data race\n%s", raceText())
	}
}

func raceText() string {
	base := os.Getenv("VERIF_RACE_LOG")
	if base == "" {
		return ""
	}
	b, _ := os.ReadFile(fmt.Sprintf("%s.%d", base, os.Getpid()))
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000] + "\n..."
	}
	return s
}

var siteTable []string

func site(i int32) string {
	if int(i) < len(siteTable) {
		return siteTable[i]
	}
	return "?"
}

func stuckText(l []sim.Stuck) string {
	var p []string
	for i, s := range l {
		if i == 12 {
			p = append(p, fmt.Sprintf("and %d more", len(l)-i))
			break
		}
		p = append(p, fmt.Sprintf("%s in %s at %s", s.Task, s.On, site(s.Site)))
	}
	return strings.Join(p, "; ")
}

// runOne makes one run, exploring or replaying.
func runOne(rec *Record, replay bool, st *Stats, tier string) (out Record) {
	sc := scenarios[rec.Scenario]
	if sc == nil {
		panic("no scenario " + rec.Scenario)
	}
	seed := sim.Mix(sim.Mix(rec.Base, hash(rec.Scenario+"/"+rec.Property)), uint64(rec.Index)) + rec.Salt
	e := &Env{rec: rec, rng: sim.NewRng(seed), replay: replay, stats: st, race0: sim.RaceErrors(), tier: tier}
	setStyle(e.knob())
	e.out = *rec
	e.out.Choices = []int{}
	e.out.Sims = nil
	e.out.Class, e.out.Detail = "", ""
	spec := sc.New()
	if rec.Spec != nil {
		if err := json.Unmarshal(rec.Spec, spec); err != nil {
			panic(err)
		}
		_ = e.rng.Uint64()
	} else {
		g := sim.NewRng(e.rng.Uint64())
		spec = sc.Gen(&g, e)
	}
	b, err := json.Marshal(spec)
	if err != nil {
		panic(err)
	}
	e.out.Spec = b
	func() {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(stopRun); ok {
					return
				}
				panic(fmt.Sprintf("harness: %v\n%s\nspec %s", v, debug.Stack(), b))
			}
		}()
		sc.Run(e, spec)
		e.checkRace()
	}()
	st.Runs++
	if e.nontriv {
		st.NonTrivial++
		st.Traces = append(st.Traces, sim.Mix(e.trace, hash(string(b))))
	}
	d := sim.Mix(e.trace, hash(string(b))) + uint64(len(e.class))
	st.Digest ^= sim.Mix(d, uint64(rec.Index))
	if st.Digests != nil {
		st.Digests = append(st.Digests, d)
	}
	e.out.Trace = fmt.Sprintf("%016x", e.trace)
	e.out.Class, e.out.Detail = e.class, e.detail
	if len(st.Samples) < 1 && e.nontriv {
		st.Samples = append(st.Samples, sample(&e.out))
	}
	return e.out
}

func sample(r *Record) string {
	s := fmt.Sprintf("%s run %d: workload %s", r.Scenario, r.Index, short(string(r.Spec), 900))
	for i, x := range r.Sims {
		s += fmt.Sprintf("; execution %d (%s seed %d): %d schedule decisions, faults %v", i, x.Policy, x.Seed, len(x.Decisions), x.Faults)
	}
	return s
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
