package main

import (
	"context"
	"fmt"

	"github.com/rossmerr/graphblas/breadthfirst"

	g "github.com/rossmerr/graphblas"
	"verifsim"
)

// breadth-first searches, some cancelled, sharing a graph (C14)

type bfsClient struct {
	S    int `json:"s"`    // source
	Stop int `json:"stop"` // the callback asks to stop at this call; 0: never, -1: when nothing was reached
	At   int `json:"at"`   // per mille of a whole search at which it is cancelled; 1000: never
}

type bfsSpec struct {
	T string      `json:"type"`
	A Mat         `json:"a"`
	P []bfsClient `json:"clients"`
	Q bool        `json:"quarter"` // weights are quarters (float64)
	W int         `json:"wrap,omitempty"`
}

type bfsCancel struct{ wrap bool }

func (bfsCancel) New() any { return &bfsSpec{} }
func (h bfsCancel) Gen(r *sim.Rng, e *Env) any {
	s := &bfsSpec{T: []string{"int64", "float64", "uint32"}[r.Intn(3)]}
	if h.wrap {
		s.W = 1 + r.Intn(3)
	}
	n := side(r, 7)
	wide := r.Intn(300) == 0
	if wide {
		n = 20 + r.Intn(60)
	}
	s.Q = r.Intn(2) == 0
	s.A = genMat(r, pick(r, matFormats), n, n, []int{1, 2, 3, 4, 6}[r.Intn(5)])
	for i := range s.A.E {
		s.A.E[i][2] = 1 + r.Intn(3)
	}
	if r.Intn(3) == 0 {
		// a path makes many levels
		s.A.E = nil
		for i := 0; i+1 < n; i++ {
			s.A.E = append(s.A.E, [3]int{i + 1, i, 1 + r.Intn(3)})
		}
	}
	for k := []int{1, 1, 2, 3}[r.Intn(4)]; k > 0; k-- {
		c := bfsClient{S: r.Intn(n), At: r.Intn(1000)}
		if r.Intn(3) == 0 {
			c.S = 0
		}
		if r.Intn(3) == 0 {
			c.At = 1000
		}
		if r.Intn(3) == 0 {
			c.Stop = 1 + r.Intn(n)
		}
		if r.Intn(4) == 0 {
			c.Stop = -1
		}
		if wide {
			// few levels of many vertices
			c.Stop = 1 + r.Intn(3)
		}
		s.P = append(s.P, c)
		if wide {
			break
		}
	}
	return s
}

func (bfsCancel) Run(e *Env, spec any) {
	s := spec.(*bfsSpec)
	if s.A.isVec() {
		s.A.F = "dense"
	}
	s.A.norm()
	s.A.R = min(s.A.R, 80)
	s.A.C = s.A.R
	for i := range s.A.E {
		if s.A.E[i][2] < 1 {
			s.A.E[i][2] = 1
		}
		if s.A.E[i][2] > 3 {
			s.A.E[i][2] = 3
		}
	}
	if len(s.P) > 4 {
		s.P = s.P[:4]
	}
	for i := range s.P {
		s.P[i].S = mod(s.P[i].S, s.A.R)
	}
	switch s.T {
	case "float64":
		bfsRun[float64](e, s)
	case "uint32":
		if s.A.R <= 6 { // no sum of walks overflows
			bfsRun[uint32](e, s)
			return
		}
		bfsRun[int64](e, s)
	default:
		bfsRun[int64](e, s)
	}
}

// bfsLevels gives the vertices first reached at each level.
func bfsLevels[T Num](a *grid[T], s int) [][]bool {
	n := a.r
	seen := make([]bool, n)
	seen[s] = true
	front := []int{s}
	var out [][]bool
	for d := 0; d < n; d++ {
		l := make([]bool, n)
		var next []int
		for r := 0; r < n; r++ {
			if seen[r] {
				continue
			}
			for _, f := range front {
				if a.at(r, f) != 0 {
					l[r] = true
				}
			}
			if l[r] {
				next = append(next, r)
			}
		}
		for _, r := range next {
			seen[r] = true
		}
		front = next
		out = append(out, l)
	}
	return out
}

type bfsSeen struct {
	levels [][]bool
	ret    []bool
	retNil bool
	struck bool
}

func nonzero[T Num](v g.Vector[T]) []bool {
	l := make([]bool, v.Length())
	for i := range l {
		l[i] = v.AtVec(i) != 0
	}
	return l
}

func anyOf(l []bool) bool {
	for _, b := range l {
		if b {
			return true
		}
	}
	return false
}

func bfsRun[T Num](e *Env, s *bfsSpec) {
	truth := cells[T](s.A)
	graph := func() g.Matrix[T] {
		a := build[T](s.A)
		if s.Q && s.T == "float64" {
			for i, v := range truth.v {
				if v != 0 {
					a.Set(i/truth.c, i%truth.c, v)
				}
			}
		}
		return a
	}
	if s.Q && s.T == "float64" {
		for i := range truth.v {
			truth.v[i] /= 4
		}
	}
	search := func(ctx context.Context, a g.Matrix[T], c bfsClient) *bfsSeen {
		o := &bfsSeen{}
		v := breadthfirst.Search[T](wrapCtx(ctx, s.W), a, c.S, func(v g.Vector[T]) bool {
			sim.Yield()
			o.levels = append(o.levels, nonzero(v))
			return len(o.levels) == c.Stop || c.Stop < 0 && !anyOf(o.levels[len(o.levels)-1])
		})
		o.retNil = v == nil
		if v != nil {
			o.ret = nonzero(v)
		}
		return o
	}
	check := func(c bfsClient, o *bfsSeen) {
		want := bfsLevels(truth, c.S)
		if c.Stop > 0 && c.Stop < len(want) {
			want = want[:c.Stop]
		}
		if c.Stop < 0 {
			till := want
			if o.struck {
				till = o.levels // a level cut short may be empty
			}
			for i := range till {
				if !anyOf(till[i]) {
					want = want[:min(i+1, len(want))]
					break
				}
			}
		}
		say := func(class, f string, a ...any) {
			e.Fail(class, "search from %d (stop at %d, cancelled %v) of %v: %s; levels %v, true levels %v", c.S, c.Stop, o.struck, truth, fmt.Sprintf(f, a...), o.levels, want)
		}
		if len(o.levels) != len(want) {
			say("levels", "%d calls instead of %d", len(o.levels), len(want))
		}
		if !o.struck {
			for i := range want {
				if fmt.Sprint(o.levels[i]) != fmt.Sprint(want[i]) {
					say("levels", "level %d differs", i+1)
				}
			}
		} else {
			phase := 0
			for i := range want {
				switch {
				case phase == 0 && fmt.Sprint(o.levels[i]) == fmt.Sprint(want[i]):
				case phase == 0:
					phase = 1
					for k, b := range o.levels[i] {
						if b && !want[i][k] {
							say("levels", "level %d has vertex %d", i+1, k)
						}
					}
					e.Probe("a level cut short")
				default:
					for k, b := range o.levels[i] {
						if b {
							say("levels", "level %d, after the level cut short, has vertex %d", i+1, k)
						}
					}
				}
			}
		}
		if o.retNil || fmt.Sprint(o.ret) != fmt.Sprint(o.levels[len(o.levels)-1]) {
			say("result", "the returned vector has the vertices %v, not those of the last call", o.ret)
		}
	}
	var a g.Matrix[T]
	var steps []int64
	for i := range s.P {
		c := s.P[i]
		var o *bfsSeen
		res := e.Sim(SimOpts{Quiet: true}, func() {
			a = graph()
			o = search(newCtx(), a, c)
		})
		steps = append(steps, res.TaskSteps["0"])
		check(c, o)
		if x := readGrid[T](a); !x.eq(truth) {
			e.Fail("operand-changed", "the graph was %v and is %v", truth, x)
		}
	}
	n := len(s.P)
	boxes := make([]ctxBox, n)
	outs := make([]*bfsSeen, n)
	o := SimOpts{Quiet: n == 1, Handlers: map[string]func(string){"cancel": func(i string) { boxes[i[0]-'0'].strike("") }}}
	for i, c := range s.P {
		if c.At < 1000 {
			o.Faults = append(o.Faults, sim.Fault{T: fmt.Sprintf("0.%d", i), N: int64(c.At) * steps[i] / 1000, Name: fmt.Sprintf("cancel:%d", i)})
		}
	}
	e.Sim(o, func() {
		a = graph()
		var wg sim.WaitGroup
		for i := range s.P {
			i := i
			wg.Add(1)
			sim.Spawn(func() {
				defer wg.Done()
				ctx := boxes[i].set(newCtx())
				outs[i] = search(ctx, a, s.P[i])
				outs[i].struck = ctx.Struck()
			})
		}
		wg.Wait()
	})
	for i := range outs {
		check(s.P[i], outs[i])
		if outs[i].struck {
			e.Probe("cancelled searches")
		}
		if outs[i].struck || n > 1 {
			e.NonTrivial()
		}
	}
	if n > 1 {
		e.Probe("several searches at once")
	}
	if x := readGrid[T](a); !x.eq(truth) {
		e.Fail("operand-changed", "the graph was %v and is %v", truth, x)
	}
}
