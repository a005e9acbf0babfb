package main

import (
	"fmt"

	g "github.com/rossmerr/graphblas"
	"verifsim"
)

// redmask: reductions masked by a locked matrix that others are changing (C19).

type rmSpec struct {
	T string      `json:"type"`
	K string      `json:"monoid"`
	R string      `json:"reduction"` // m2s, v2s, m2v
	M Mat         `json:"matrix"`
	X Mat         `json:"mask"`
	N int         `json:"calls"`
	W [][]lmWrite `json:"writers"`
	I int         `json:"wait"`
}

type redMask struct{}

func (redMask) New() any { return &rmSpec{} }
func (redMask) Gen(r *sim.Rng, e *Env) any {
	s := &rmSpec{T: pick(r, wideTypes), K: []string{"affine", "affine", "affine", "add", "max"}[r.Intn(5)], R: []string{"m2s", "v2s", "m2v"}[r.Intn(3)], N: 1 + r.Intn(2), I: r.Intn(8)}
	f := matFormats
	if s.R == "v2s" {
		f = vecFormats
	}
	a, b := 1+r.Intn(4), 1+r.Intn(4)
	if r.Intn(20) == 0 {
		a, b = 1+r.Intn(12), 1+r.Intn(3)
	}
	s.M = genWide(r, pick(r, f), a, b, density(r))
	s.X = genMat(r, pick(r, matFormats), a, b, 4)
	n := 1 + r.Intn(2)
	for i := 0; i < n; i++ {
		var w []lmWrite
		for k := 1 + r.Intn(6); k > 0; k-- {
			x := lmWrite{K: []string{"set", "set", "set", "update"}[r.Intn(4)], R: r.Intn(a), C: r.Intn(b), V: r.Intn(3) - 1, Y: r.Intn(12)}
			if n == 1 && r.Intn(5) == 0 {
				x.K = "clear"
			}
			w = append(w, x)
		}
		s.W = append(s.W, w)
	}
	return s
}

func (redMask) Run(e *Env, spec any) {
	s := spec.(*rmSpec)
	s.N = clamp(s.N, 1, 3)
	if s.R == "v2s" {
		mkVec(&s.M)
	} else {
		mkMat(&s.M)
	}
	s.M.norm()
	s.M.R, s.M.C = min(s.M.R, 16), min(s.M.C, 16)
	for i := range s.M.E {
		s.M.E[i][2] = min(s.M.E[i][2], 60000)
	}
	mkMat(&s.X)
	if s.R == "m2v" {
		s.X.resize(s.M.R, 1)
	} else {
		s.X.resize(s.M.R, s.M.C)
	}
	normWriters(&s.W, s.X.R, s.X.C)
	switch s.T {
	case "float64":
		rmRun[float64](e, s)
	case "uint32":
		rmRun[uint32](e, s)
	case "int64":
		rmRun[int64](e, s)
	default:
		rmRun[int](e, s)
	}
}

func rmRun[T wide](e *Env, s *rmSpec) {
	kind := s.K
	if kind == "mul" || kind == "min" {
		kind = "affine"
	}
	start := cells[T](s.X)
	x := cells[T](s.M)
	m := build[T](s.M)
	mk := g.NewMutexMatrix(build[T](s.X))
	ws := newWriters(mk, s.W, start)
	zero, op, mono := monoidOf[T](kind)
	type elem struct {
		j int
		v T
	}
	var seqs [][]elem
	quiet(func() {
		list := func(it g.Enumerate[T]) (l []elem) {
			for it.HasNext() {
				r, c, v := it.Next()
				l = append(l, elem{r*start.c + c, v})
			}
			return
		}
		if s.R != "m2v" {
			seqs = append(seqs, list(m.Enumerate()))
			return
		}
		for c := 0; c < x.c; c++ {
			seqs = append(seqs, list(m.ColumnsAt(c).Enumerate()))
		}
	})
	spans := make([]lmEvent, s.N)
	got := make([][]T, s.N)
	errs := make([]caught, s.N)
	e.Sim(SimOpts{}, func() {
		var wg sim.WaitGroup
		ws.spawn(&wg)
		for i := 0; i < s.N; i++ {
			i := i
			wg.Add(1)
			sim.Spawn(func() {
				defer wg.Done()
				for k := 0; k < s.I && k < 50; k++ {
					sim.Yield()
				}
				sim.Yield()
				spans[i].inv = sim.Seq()
				errs[i] = try(func() {
					switch s.R {
					case "m2v":
						v := g.ReduceMatrixToVectorWithMonoID[T](idleCtx(), m, mono, mk)
						for k := 0; k < v.Length(); k++ {
							got[i] = append(got[i], v.AtVec(k))
						}
					case "v2s":
						got[i] = []T{g.ReduceVectorToScalarWithMonoID[T](idleCtx(), m.(g.Vector[T]), mono, mk)}
					default:
						got[i] = []T{g.ReduceMatrixToScalarWithMonoID[T](idleCtx(), m, mono, mk)}
					}
				})
				spans[i].ret = sim.Seq()
			})
		}
		wg.Wait()
	})
	for i := range got {
		if errs[i].panicked {
			e.Fail("panic", "%s panics under a mask that is being changed: %v", s.R, errs[i].val)
		}
		if len(got[i]) != len(seqs) {
			e.Fail("shape", "%s of a %dx%d matrix gives %d values", s.R, x.r, x.c, len(got[i]))
		}
		for c, l := range seqs {
			// the folds of the elements that may have been seen open
			can := map[T]bool{zero: true}
			var states string
			for _, el := range l {
				closed, open, during := ws.states(el.j, spans[i])
				if during {
					e.NonTrivial()
					e.Probe("writes of the mask during the call")
				}
				states += fmt.Sprintf(" %v(closed %v, open %v)", el.v, closed, open)
				if closed && open {
					e.Probe("cells whose mask changed during the call")
				}
				if !open {
					continue
				}
				next := map[T]bool{}
				for v := range can {
					next[op(v, el.v)] = true
					if closed {
						next[v] = true
					}
				}
				if can = next; len(can) > 5000 {
					e.Probe("too many folds")
					break
				}
			}
			if len(can) <= 5000 && !can[got[i][c]] {
				e.Fail("mask", "%s (%s), column %d: %v is the fold of no choice of the open elements; %s", s.R, kind, c, got[i][c], states)
			}
		}
	}
	if y := readGrid[T](m); !y.eq(x) {
		e.Fail("operand-changed", "the operand was %v and is %v", x, y)
	}
}
