package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim"
)

// tryAll carries out candidates, in parallel batches, and returns the first
// (lowest) one that fails in the class.
func tryAll(recs []*Record, class string) (*Record, int) {
	if len(recs) == 0 {
		return nil, -1
	}
	race := recs[0].Race
	w := *fWorkers
	per := (len(recs) + w - 1) / w
	if per > 25 {
		per = 25
	}
	type span struct{ a, b int }
	var spans []span
	for a := 0; a < len(recs); a += per {
		spans = append(spans, span{a, min(a+per, len(recs))})
	}
	var mu sync.Mutex
	best, bestAt := (*Record)(nil), -1
	next := 0
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(spans) || bestAt >= 0 {
					mu.Unlock()
					return
				}
				sp := spans[next]
				next++
				mu.Unlock()
				var r execResult
				if err := runProc(race, "exec", execJob{recs[sp.a:sp.b], class, *fTier}, &r, 3*time.Minute); err != nil {
					continue
				}
				if r.Hit >= 0 {
					mu.Lock()
					if at := sp.a + r.Hit; bestAt < 0 || at < bestAt {
						best, bestAt = r.Out, at
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return best, bestAt
}

func clone(r *Record) *Record {
	b, _ := json.Marshal(r)
	c := &Record{}
	json.Unmarshal(b, c)
	return c
}

// reproduces runs a record alone in fresh processes.
func reproduces(r *Record, times int) bool {
	for i := 0; i < times; i++ {
		var x execResult
		if err := runProc(r.Race, "exec", execJob{[]*Record{r}, r.Class, *fTier}, &x, 5*time.Minute); err != nil || x.Hit != 0 {
			return false
		}
		if r.Trace != "" && x.Out.Trace != r.Trace {
			return false
		}
		r.Trace = x.Out.Trace
		r.Detail = x.Out.Detail
	}
	return true
}

// report minimises the first violation that replays, writes its replay file
// and prints the verdict.
func report(bad []*Record) int {
	budget := 25 * time.Second
	if *fTier == "thorough" {
		budget = 5 * time.Minute
	}
	deadline := time.Now().Add(budget)
	for _, b := range bad {
		if b.Class == classDied {
			if !dies(b) {
				fmt.Fprintf(os.Stderr, "run %d of %s ended its process but does not when repeated\n%s\n", b.Index, b.Scenario, b.Detail)
				continue
			}
			path := save(b)
			fmt.Printf("seed %d, scenario %s, run %d: %s\n%s\nreplay with: bash /verif/bin/replay.sh %s\n", b.Base, b.Scenario, b.Index, b.Class, b.Detail, path)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, path)
			return 1
		}
		r := clone(b)
		r.Trace = ""
		// with no runs before it, if it can do without
		alone := clone(r)
		alone.Prelude = nil
		if reproduces(alone, 1) {
			r = alone
		} else if reproduces(r, 1) {
			r = shrinkPrelude(r, deadline)
		} else {
			fmt.Fprintf(os.Stderr, "run %d of %s fails (%s: %s) but does not replay\n", b.Index, b.Scenario, b.Class, short(b.Detail, 2000))
			continue
		}
		m := r
		if len(r.Prelude) == 0 {
			m = minimise(r, deadline)
			if !reproduces(m, 2) {
				fmt.Fprintf(os.Stderr, "the minimised run does not replay; keeping the original\n")
				m = r
			}
		}
		if !reproduces(m, 1) {
			continue
		}
		path := save(m)
		fmt.Printf("seed %d, scenario %s, run %d: %s\n%s\n", m.Base, m.Scenario, m.Index, m.Class, m.Detail)
		fmt.Printf("workload %s\n", plain(string(m.Spec)))
		n := 0
		for _, s := range m.Sims {
			n += len(s.Decisions)
		}
		fmt.Printf("minimised to %d schedule decisions; replay with: bash /verif/bin/replay.sh %s\n", n, path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, path)
		return 1
	}
	fatalf("violations were seen but none replays")
	return exitTrouble
}

const classDied = "process ended"

// dies says whether a run, alone in a process, ends the process: by a fatal
// error of the runtime, which no recover stops.
func dies(r *Record) bool {
	for i := 0; i < 2; i++ {
		var x execResult
		c := clone(r)
		c.Explore = len(c.Sims) == 0
		err := runProc(r.Race, "exec", execJob{[]*Record{c}, "", *fTier}, &x, 5*time.Minute)
		if err == nil || !strings.Contains(err.Error(), "fatal error: ") {
			return false
		}
	}
	return true
}

func save(m *Record) string {
	os.MkdirAll(*fReplays, 0o755)
	path := filepath.Join(*fReplays, fmt.Sprintf("%s-%s-%d-%d.json", *fProp, m.Scenario, m.Base, m.Index))
	j, _ := json.MarshalIndent(m, "", " ")
	if err := os.WriteFile(path, append(j, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
	return path
}

func shrinkPrelude(r *Record, deadline time.Time) *Record {
	for n := (len(r.Prelude) + 1) / 2; n >= 1 && time.Now().Before(deadline); {
		done := false
		for a := 0; a < len(r.Prelude) && time.Now().Before(deadline); a += n {
			c := clone(r)
			c.Trace = ""
			c.Prelude = append(append([]int{}, r.Prelude[:a]...), r.Prelude[min(a+n, len(r.Prelude)):]...)
			if reproduces(c, 1) {
				r = c
				done = true
				break
			}
		}
		if !done {
			if n == 1 {
				break
			}
			n /= 2
		}
	}
	return r
}

func minimise(r *Record, deadline time.Time) *Record {
	class := r.Class
	for round := 0; round < 6 && time.Now().Before(deadline); round++ {
		before := size(r)
		r = shrinkSchedule(r, class, deadline)
		r = shrinkSpec(r, class, deadline)
		if size(r) >= before {
			break
		}
	}
	return shrinkSchedule(r, class, deadline)
}

func size(r *Record) int {
	n := len(r.Spec) * 4
	for _, s := range r.Sims {
		n += len(s.Decisions)
	}
	return n
}

type decRef struct{ sim, i int }

func decRefs(r *Record) []decRef {
	var d []decRef
	for s := range r.Sims {
		for i := range r.Sims[s].Decisions {
			d = append(d, decRef{s, i})
		}
	}
	return d
}

func without(r *Record, drop map[decRef]bool) *Record {
	c := clone(r)
	for s := range c.Sims {
		keep := []sim.Decision{}
		for i, d := range r.Sims[s].Decisions {
			if !drop[decRef{s, i}] {
				keep = append(keep, d)
			}
		}
		c.Sims[s].Decisions = keep
	}
	return c
}

// shrinkSchedule drops scheduling decisions (delta debugging).
func shrinkSchedule(r *Record, class string, deadline time.Time) *Record {
	n := 2
	for time.Now().Before(deadline) {
		refs := decRefs(r)
		if len(refs) == 0 {
			return r
		}
		if n > len(refs) {
			n = len(refs)
		}
		var cands []*Record
		chunk := (len(refs) + n - 1) / n
		if n == 2 {
			all := map[decRef]bool{}
			for _, x := range refs {
				all[x] = true
			}
			cands = append(cands, without(r, all))
		}
		for a := 0; a < len(refs); a += chunk {
			keepOnly := map[decRef]bool{}
			drop := map[decRef]bool{}
			for i, x := range refs {
				if i >= a && i < a+chunk {
					drop[x] = true
				} else {
					keepOnly[x] = true
				}
			}
			if len(cands) < 600 {
				if n > 2 && n <= 16 {
					cands = append(cands, without(r, keepOnly))
				}
				cands = append(cands, without(r, drop))
			}
		}
		if b, _ := tryAll(cands, class); b != nil {
			b.Trace = ""
			r = b
			if n > 2 {
				n--
			}
			continue
		}
		if chunk == 1 {
			return r
		}
		n *= 2
	}
	return r
}

// shrinkSpec makes the workload smaller, keeping the schedule or searching a
// new one.
func shrinkSpec(r *Record, class string, deadline time.Time) *Record {
	for time.Now().Before(deadline) {
		var v any
		dec := json.NewDecoder(strings.NewReader(string(r.Spec)))
		dec.UseNumber()
		if dec.Decode(&v) != nil {
			return r
		}
		var cands []*Record
		var specs []string
		seen := map[string]bool{string(r.Spec): true}
		for _, s := range smaller(v) {
			b, _ := json.Marshal(s)
			if !seen[string(b)] && len(specs) < 400 {
				seen[string(b)] = true
				specs = append(specs, string(b))
			}
		}
		sort.SliceStable(specs, func(i, j int) bool { return len(specs[i]) < len(specs[j]) })
		for _, s := range specs {
			c := clone(r)
			c.Spec = json.RawMessage(s)
			cands = append(cands, c)
		}
		if b, _ := tryAll(cands, class); b != nil {
			b.Trace = ""
			r = b
			continue
		}
		// with a fresh search for a schedule
		cands = nil
		for _, s := range specs {
			for k := uint64(1); k <= 8; k++ {
				c := clone(r)
				c.Spec = json.RawMessage(s)
				c.Sims, c.Choices = nil, nil
				c.Explore, c.Salt = true, k*7919
				cands = append(cands, c)
			}
		}
		b, at := tryAll(cands, class)
		if b == nil {
			return r
		}
		_ = at
		b.Trace = ""
		b.Explore = false
		r = shrinkSchedule(b, class, deadline)
	}
	return r
}

// smaller lists simplifications of a JSON value.
func smaller(v any) []any {
	var out []any
	switch x := v.(type) {
	case map[string]any:
		for _, k := range sortedKeys(x) {
			for _, s := range smaller(x[k]) {
				c := map[string]any{}
				for kk, vv := range x {
					c[kk] = vv
				}
				c[k] = s
				out = append(out, c)
			}
		}
	case []any:
		for n := len(x); n >= 1; n /= 2 {
			for a := 0; a+n <= len(x); a += n {
				c := append(append([]any{}, x[:a]...), x[a+n:]...)
				out = append(out, c)
			}
		}
		for i := range x {
			for _, s := range smaller(x[i]) {
				c := append([]any{}, x...)
				c[i] = s
				out = append(out, c)
			}
		}
	case json.Number:
		n, err := x.Int64()
		if err != nil || n == 0 {
			return nil
		}
		for _, t := range []int64{0, 1, n / 2, n - 1} {
			if t != n && abs64(t) <= abs64(n) {
				out = append(out, t)
			}
		}
	case bool:
		if x {
			out = append(out, false)
		}
	}
	return out
}

func abs64(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

func replayFile(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	r := &Record{}
	if err := json.Unmarshal(b, r); err != nil {
		fatalf("%v", err)
	}
	if r.Class == classDied {
		if dies(r) {
			fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", r.Class, r.Detail, r.Property, path)
			os.Exit(1)
		}
		fmt.Printf("no violation on replay\n")
		return
	}
	var x execResult
	if err := runProc(r.Race, "exec", execJob{[]*Record{r}, "", *fTier}, &x, 10*time.Minute); err != nil {
		fatalf("%v", err)
	}
	if x.Out != nil && x.Out.Class != "" {
		same := ""
		if r.Trace != "" && r.Trace == x.Out.Trace {
			same = " (same execution, trace " + r.Trace + ")"
		}
		fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s%s\n", x.Out.Class, x.Out.Detail, r.Property, path, same)
		os.Exit(1)
	}
	fmt.Printf("no violation on replay\n")
}
