package main

import (
	"context"
	"fmt"
	"os"

	"github.com/rossmerr/graphblas/breadthfirst"

	g "github.com/rossmerr/graphblas"
	"verifsim"
)

// stopother: comparing, rendering, sorting and searching return soon after
// they are cancelled (C11).

type soSpec struct {
	K string `json:"k"`
	A Mat    `json:"a"`
	N int    `json:"n"`
	W int    `json:"wrap,omitempty"`
	B string `json:"b,omitempty"` // the format of the other matrix
}

type stopOther struct{ wrap bool }

var soOps = []string{"equal", "compare", "less", "greater", "string", "sortrow", "sortcol", "bfs", "bfs"}

func (stopOther) New() any { return &soSpec{} }
func (h stopOther) Gen(r *sim.Rng, e *Env) any {
	s := &soSpec{K: pick(r, soOps), N: 1 + r.Intn(5)}
	if h.wrap {
		s.W = 1 + r.Intn(3)
	}
	switch s.K {
	case "sortrow", "sortcol":
		s.A = genRune(r, pick(r, matFormats), 5+r.Intn(5), 5+r.Intn(5))
	case "bfs":
		n := 7 + r.Intn(6)
		s.A = genMat(r, pick(r, matFormats), n, n, 2+r.Intn(3))
		for i := 0; i+1 < n; i++ {
			s.A.E = append(s.A.E, [3]int{i + 1, i, 1})
		}
	default:
		s.A = genRune(r, pick(r, matFormats), 8+r.Intn(6), 8+r.Intn(6))
		s.B = pick(r, matFormats)
		if r.Intn(4) == 0 {
			// everything in one row or column
			long := 200 + r.Intn(300)
			switch r.Intn(4) {
			case 0, 1:
				s.A = genRune(r, s.A.F, 1, long)
			case 2:
				s.A = genRune(r, s.A.F, long, 1)
			default:
				s.A, s.B = genRune(r, pick(r, vecFormats), long, 1), pick(r, vecFormats)
			}
			// much of it stored
			for i := 0; i < s.A.R*s.A.C; i++ {
				s.A.E = append(s.A.E, [3]int{i / s.A.C, i % s.A.C, 1 + i%3})
			}
		}
	}
	return s
}

func (stopOther) Run(e *Env, spec any) {
	s := spec.(*soSpec)
	compares := false
	switch s.K {
	case "equal", "compare", "less", "greater", "string":
		compares = true
	}
	if s.A.isVec() && !compares {
		s.A.F = "dense"
	}
	s.A.norm()
	if !compares || s.A.R > 1 && s.A.C > 1 {
		s.A.R, s.A.C = min(s.A.R, 16), min(s.A.C, 16)
	}
	other := s.A
	if s.B != "" && (s.A.C == 1 || s.B != "dvec" && s.B != "svec") {
		other.F = s.B
		other.norm()
	}
	if s.K == "bfs" {
		s.A.C = s.A.R
	}
	do := func(ctx context.Context, f func()) {
		ctx = wrapCtx(ctx, s.W)
		if s.K == "bfs" {
			m := s.A
			for i := range m.E {
				m.E[i][2] = 1
			}
			a := build[float64](m)
			f()
			breadthfirst.Search[float64](ctx, a, 0, func(g.Vector[float64]) bool { return false })
			return
		}
		a, b := buildRune(s.A), buildRune(other)
		f()
		switch s.K {
		case "sortrow", "sortcol":
			doSort(ctx, s.K == "sortcol", a)
		case "equal":
			g.Equal[rune](ctx, a, b)
		case "compare":
			b.Set(s.A.R-1, s.A.C-1, '~')
			g.Compare(ctx, a, b)
		case "less":
			g.Less(ctx, a, b)
		case "greater":
			g.Greater(ctx, a, b)
		default:
			g.String(ctx, a)
		}
	}
	var first int64
	res := e.Sim(SimOpts{Quiet: true}, func() {
		do(newCtx(), func() { first = sim.Steps() })
	})
	steps := res.TaskSteps["0"]
	for k := 0; k < clamp(s.N, 1, 8); k++ {
		at := first + 1 + int64(e.Choose(int(steps-first)))
		var box ctxBox
		res := e.Sim(SimOpts{Quiet: true, Faults: []sim.Fault{{T: "0", N: at, Name: "cancel"}}, Handlers: map[string]func(string){"cancel": box.strike}}, func() {
			do(box.set(newCtx()), func() {})
		})
		after, rest := res.TaskSteps["0"]-at, steps-at
		if x := os.Getenv("VERIF_DEBUG"); x != "" {
			dbg, _ := os.OpenFile(x, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
			defer dbg.Close()
			fmt.Fprintf(dbg, "DBG %s %s total %d at %d after %d rest %d %.2f\n", s.K, s.A.F, steps-first, at, after, rest, float64(after)/float64(rest+1))
		}
		e.NonTrivial()
		e.Probe("cancelled during the call")
		if rest > 3000 {
			e.Probe("cancelled with much left to do")
		}
		lim := stopLimit(rest)
		if compares {
			lim = max(1500, rest/4)
		}
		if after > lim {
			e.Fail("late-return", "%s took %d steps to return after it was cancelled at step %d; %d steps remained", s.K, after, at, rest)
		}
	}
}
