package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifsim"
)

// exit codes of the check: 0 held, 1 violated, 2 trouble in the check itself
const exitTrouble = 2

func fatalf(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", a...)
	os.Exit(exitTrouble)
}

var (
	fSites   = flag.String("sites", "", "table of yield points")
	fPlain   = flag.String("plain", "", "worker binary without race detector")
	fRace    = flag.String("racebin", "", "worker binary with race detector")
	fProp    = flag.String("prop", "", "property")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Uint64("seed", 1, "base seed")
	fEvid    = flag.String("evidence", "", "evidence file")
	fReplays = flag.String("replays", "", "directory for replay files")
	fScratch = flag.String("scratch", "", "scratch directory")
	fWorkers = flag.Int("workers", runtime.NumCPU(), "worker processes")
	fScale   = flag.Float64("scale", 1, "scales the number of runs")
	fCap     = flag.Duration("cap", 0, "wall clock cap of the search")
	fOnly    = flag.String("only", "", "only this scenario (debugging)")
	fDump    = flag.String("dump", "", "write one digest per run to this file (determinism test)")
	fStart   = flag.Int64("t0", 0, "start of the check, unix ms")
)

func main() {
	log.SetOutput(io.Discard)
	if len(os.Args) < 2 {
		fatalf("usage: harness check|worker|exec|replay")
	}
	mode := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	if *fSites != "" {
		b, err := os.ReadFile(*fSites)
		if err != nil {
			fatalf("%v", err)
		}
		siteTable = strings.Split(string(b), "\n")
	}
	switch mode {
	case "check":
		check()
	case "worker":
		workerSetup()
		worker()
	case "exec":
		workerSetup()
		execMode()
	case "replay":
		replayFile(flag.Arg(0))
	default:
		fatalf("mode %q", mode)
	}
}

func workerSetup() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	go func() {
		for last := int64(-1); ; {
			time.Sleep(120 * time.Second)
			now := atomic.LoadInt64(&progress)
			if now == last {
				fmt.Fprintln(os.Stderr, "WATCHDOG: a run made no progress for 120 s")
				os.Exit(4)
			}
			last = now
		}
	}()
}

var progress int64

// job is a batch of runs for one process.
type job struct {
	Scenario string
	Property string
	Race     bool
	Base     uint64
	From, To int
	Tier     string
	Dump     bool
	Mark     string // file that always holds the number of the run under way
}

type jobResult struct {
	Stats *Stats  `json:"stats"`
	Bad   *Record `json:"bad"`
}

func worker() {
	var j job
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		fatalf("%v", err)
	}
	res := jobResult{Stats: newStats()}
	if j.Dump {
		res.Stats.Digests = []uint64{}
	}
	var prelude []int
	for i := j.From; i < j.To; i++ {
		if j.Mark != "" {
			os.WriteFile(j.Mark, []byte(fmt.Sprint(i)), 0o644)
		}
		rec := &Record{Property: j.Property, Scenario: j.Scenario, Race: j.Race, Base: j.Base, Index: i}
		out := runOne(rec, false, res.Stats, j.Tier)
		atomic.AddInt64(&progress, 1)
		if out.Class != "" {
			out.Prelude = prelude
			res.Bad = &out
			break
		}
		prelude = append(prelude, i)
	}
	if len(res.Stats.Digests) == 0 && !j.Dump {
		res.Stats.Digests = nil
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

// execMode carries out candidate records one after another and reports the
// first that fails in the wanted class.
type execJob struct {
	Recs  []*Record
	Class string // wanted; "" for any
	Tier  string
}

type execResult struct {
	Hit int // -1 none
	Out *Record
}

func execMode() {
	var j execJob
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		fatalf("%v", err)
	}
	res := execResult{Hit: -1}
	st := newStats()
	for i, rec := range j.Recs {
		for _, p := range rec.Prelude {
			runOne(&Record{Property: rec.Property, Scenario: rec.Scenario, Race: rec.Race, Base: rec.Base, Index: p}, false, st, j.Tier)
		}
		out := runOne(rec, !rec.Explore, st, j.Tier)
		atomic.AddInt64(&progress, 1)
		out.Explore = false
		if out.Class != "" && (j.Class == "" || out.Class == j.Class) {
			res.Hit, res.Out = i, &out
			break
		}
		if len(j.Recs) == 1 {
			res.Out = &out
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

func binFor(race bool) string {
	if race {
		return *fRace
	}
	return *fPlain
}

var procSeq int64

func runProc(race bool, mode string, in, out any, timeout time.Duration) error {
	b, _ := json.Marshal(in)
	cmd := exec.Command(binFor(race), mode, "-sites", *fSites)
	raceLog := filepath.Join(*fScratch, fmt.Sprintf("race%d", atomic.AddInt64(&procSeq, 1)))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 history_size=2 log_path="+raceLog, "VERIF_RACE_LOG="+raceLog)
	cmd.Stdin = bytes.NewReader(b)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		return err
	}
	t := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if m, _ := filepath.Glob(raceLog + ".*"); race {
		for _, f := range m {
			os.Remove(f)
		}
	}
	if err != nil {
		return fmt.Errorf("%s process: %v\n%s", mode, err, short(se.String(), 4000))
	}
	if err := json.Unmarshal(so.Bytes(), out); err != nil {
		return fmt.Errorf("%s process output: %v\n%s", mode, err, short(so.String()+se.String(), 2000))
	}
	return nil
}

// ---- check --------------------------------------------------------------------

func check() {
	start := time.Now()
	t0 := start
	if *fStart > 0 {
		t0 = time.UnixMilli(*fStart)
	}
	plan := plans[*fProp]
	if plan == nil {
		fatalf("no check for property %q", *fProp)
	}
	capd := *fCap
	if capd == 0 {
		capd = 240 * time.Second
		if *fTier == "thorough" {
			capd = 40 * time.Minute
		}
	}
	var jobs []job
	total := 0
	for _, it := range plan {
		if *fOnly != "" && it.Scenario != *fOnly {
			continue
		}
		for _, race := range []bool{false, true} {
			n := it.Plain
			base := 0
			batch := it.Batch
			if race {
				n = it.Race
				base = 1 << 24
			}
			if batch == 0 {
				batch = 200
			}
			if *fTier == "thorough" {
				n *= it.Thorough
			}
			n = int(float64(n) * *fScale)
			total += n
			for a := 0; a < n; a += batch {
				b := min(a+batch, n)
				jobs = append(jobs, job{Scenario: it.Scenario, Property: *fProp, Race: race, Base: *fSeed, From: base + a, To: base + b, Tier: *fTier, Dump: *fDump != ""})
			}
		}
	}
	// spread the kinds of jobs evenly over the time
	sort.SliceStable(jobs, func(i, k int) bool {
		return frac(jobs, i) < frac(jobs, k)
	})
	rng := sim.NewRng(7)
	for i := len(jobs) - 1; i > 0; i-- {
		k := rng.Intn(i + 1)
		jobs[i], jobs[k] = jobs[k], jobs[i]
	}
	stats := newStats()
	perScn := map[string]*Stats{}
	var mu sync.Mutex
	var bad []*Record
	var firstErr error
	next := 0
	capped := false
	dump := map[string][]uint64{}
	var wg sync.WaitGroup
	for w := 0; w < *fWorkers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(jobs) || len(bad) > 0 || firstErr != nil {
					mu.Unlock()
					return
				}
				if time.Since(start) > capd {
					capped = true
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				var r jobResult
				j.Mark = filepath.Join(*fScratch, fmt.Sprintf("mark%d", w))
				err := runProc(j.Race, "worker", j, &r, 15*time.Minute)
				mu.Lock()
				if at, ok := diedAt(j, err); ok {
					bad = append(bad, at)
				} else if err != nil {
					if firstErr == nil {
						firstErr = fmt.Errorf("%s race=%v runs %d-%d: %v", j.Scenario, j.Race, j.From, j.To, err)
					}
				} else {
					stats.add(r.Stats)
					k := j.Scenario
					if j.Race {
						k += "+race"
					}
					if perScn[k] == nil {
						perScn[k] = newStats()
					}
					perScn[k].add(r.Stats)
					if r.Bad != nil {
						bad = append(bad, r.Bad)
					}
					if *fDump != "" {
						dump[fmt.Sprintf("%s %v %09d", j.Scenario, j.Race, j.From)] = r.Stats.Digests
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if *fDump != "" {
		writeDump(dump)
	}
	searchTime := time.Since(start)
	code := 0
	if len(bad) > 0 {
		sort.Slice(bad, func(i, k int) bool { return bad[i].Index < bad[k].Index })
		code = report(bad)
	} else if firstErr != nil {
		fatalf("%v", firstErr)
	}
	evidence(stats, perScn, searchTime, time.Since(t0), capped, total, len(bad))
	if code == 0 {
		fmt.Printf("OK property=%s runs=%d executions=%d distinct=%d search=%.1fs%s\n", *fProp, stats.Runs, stats.Sims, distinct(stats.Traces), searchTime.Seconds(), map[bool]string{true: " (wall-clock cap reached)", false: ""}[capped])
	}
	os.Exit(code)
}

// diedAt is the run in which a worker process met a fatal error.
func diedAt(j job, err error) (*Record, bool) {
	if err == nil || !strings.Contains(err.Error(), "fatal error: ") || strings.Contains(err.Error(), "out of memory") {
		return nil, false
	}
	b, _ := os.ReadFile(j.Mark)
	var i int
	if _, e := fmt.Sscan(string(b), &i); e != nil {
		return nil, false
	}
	return &Record{Property: j.Property, Scenario: j.Scenario, Race: j.Race, Base: j.Base, Index: i, Choices: []int{}, Class: classDied, Detail: plain(short(err.Error(), 3000))}, true
}

func frac(jobs []job, i int) int { return jobs[i].From & 0xffffff }

func distinct(t []uint64) int {
	m := map[uint64]bool{}
	for _, x := range t {
		m[x] = true
	}
	return len(m)
}

func writeDump(d map[string][]uint64) {
	f, err := os.Create(*fDump)
	if err != nil {
		fatalf("%v", err)
	}
	w := bufio.NewWriter(f)
	for _, k := range sortedKeys(d) {
		p := strings.Fields(k)
		var from int
		fmt.Sscan(p[2], &from)
		for i, x := range d[k] {
			fmt.Fprintf(w, "%s race=%s %d %016x\n", p[0], p[1], from+i, x)
		}
	}
	w.Flush()
	f.Close()
}

func evidence(st *Stats, per map[string]*Stats, search, wall time.Duration, capped bool, planned, violations int) {
	if *fEvid == "" {
		return
	}
	h := search.Hours()
	scn := map[string]any{}
	for k, s := range per {
		scn[k] = map[string]any{"runs": s.Runs, "executions": s.Sims, "steps": s.Steps, "most_steps": s.MaxSteps, "switches": s.Switches, "distinct_nontrivial": distinct(s.Traces), "faults": s.Faults, "probes": s.Probes}
	}
	cov := map[string]any{
		"evaluations":            st.Runs,
		"distinct_nontrivial":    distinct(st.Traces),
		"rule":                   "A case is one simulated run: a generated workload together with one schedule and fault sequence, all drawn from VERIF_SEED. " + rules[*fProp] + " Distinct: the pair of workload and hash over every scheduling decision (which task left the processor at which of its own steps, which task followed, which select case was taken), the fault positions and the run length.",
		"samples":                st.Samples,
		"simulated_executions":   st.Sims,
		"seeds":                  st.Runs,
		"runs_per_hour":          int(float64(st.Runs) / h),
		"seeds_per_hour":         int(float64(st.Runs) / h),
		"simulated_time_us":      st.Time,
		"scheduler_steps":        st.Steps,
		"context_switches":       st.Switches,
		"simulated_tasks":        st.Tasks,
		"faults_injected":        st.Faults,
		"conditions_reached":     st.Probes,
		"schedule_policies":      st.Policies,
		"per_scenario":           scn,
		"planned_runs":           planned,
		"wall_clock_cap_reached": capped,
		"search_wall_s":          search.Seconds(),
		"real_code":              "every non-test package of /repo, instrumented at statement level from the working tree of this run",
		"stubbed_or_modelled":    "goroutine scheduling, channels and select, sync.Mutex/RWMutex/WaitGroup/Once/Cond/Pool, context cancellation and deadlines, the clock and timers, map iteration order, CPU count; the data path has no stub",
		"exhaustive":             false,
	}
	ev := map[string]any{
		"property": *fProp, "tier": *fTier, "seed": *fSeed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"seeded sampling of schedules, faults and workloads: a clean run is evidence, not proof",
			"interleavings are explored between statements; inside a statement, memory accesses are covered by the race detector in the race build",
			"sequentially consistent memory; the race detector covers what goes beyond",
		},
		"wall_s": wall.Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(*fEvid), 0o755)
	if err := os.WriteFile(*fEvid, append(b, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
}
