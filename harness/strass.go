package main

import (
	"context"
	"fmt"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/math/strassen"
	"verifsim"
)

// strass: Strassen products, several at once, whole (C05) or cancelled (C06).

type stProd struct {
	A  int `json:"a"`
	B  int `json:"b"`
	X  int `json:"crossover"`
	At int `json:"at"` // per mille of the whole run at which it is cancelled; -1: before; 1000: never
	By int `json:"by"` // which task's steps count: 0 the caller's, n the n-th of its goroutines
}

type stSpec struct {
	T string   `json:"type"`
	M []Mat    `json:"matrices"`
	P []stProd `json:"products"`
	D bool     `json:"default"` // Multiply rather than MultiplyCrossoverPoint
	W int      `json:"wrap"`
}

type strass struct {
	mode string
	wrap bool
}

// "product", "cancel"

func (strass) New() any { return &stSpec{} }
func (h strass) Gen(r *sim.Rng, e *Env) any {
	s := &stSpec{T: []string{"int", "float64", "int8", "uint16", "int64"}[r.Intn(5)]}
	n := []int{1, 2, 2, 3, 4, 4, 4, 4, 5, 6, 6, 7, 8}[r.Intn(13)]
	big := r.Intn(100)
	if big < 5 {
		n = []int{9, 10, 12, 16}[r.Intn(4)]
	}
	huge := r.Intn(400) == 0 && !sim.RaceBuild
	if huge {
		n = []int{65, 66, 68}[r.Intn(3)]
	}
	deep := r.Intn(300) == 0 && !huge && !sim.RaceBuild
	if deep {
		n = 16
	}
	de := func() int { return []int{2, 5, 8, 10, 10}[r.Intn(5)] }
	s.M = append(s.M, genMat(r, pick(r, matFormats), n, n, de()))
	for i := r.Intn(3); i >= 0; i-- {
		a, b := n, n
		switch r.Intn(6) {
		case 0:
			b = 1 + r.Intn(6)
		case 1:
			a = 1 + r.Intn(6)
		}
		f := pick(r, matFormats)
		if huge {
			a, b, f = n, n, "dense"
		} else if r.Intn(12) == 0 {
			f, b = pick(r, vecFormats), 1
		}
		s.M = append(s.M, genMat(r, f, a, b, de()))
	}
	if huge {
		s.M[0].F = "dense"
	}
	k := []int{1, 1, 1, 2, 3}[r.Intn(5)]
	if n >= 8 {
		k = 1
	}
	for ; k > 0; k-- {
		if huge {
			s.P = append(s.P, stProd{A: 0, B: len(s.M) - 1, X: []int{64, 33, 17}[r.Intn(3)], At: 1000})
			if h.mode == "cancel" {
				s.P[0].At = r.Intn(1000)
			}
			s.D = r.Intn(2) == 0
			return s
		}
		p := stProd{A: r.Intn(len(s.M)), B: r.Intn(len(s.M)), X: []int{0, 1, 1, 1, 2, 2, 3, 4, 64}[r.Intn(9)], At: 1000}
		if h.mode == "cancel" {
			p.At = r.Intn(1000)
			p.By = r.Intn(9)
			switch r.Intn(10) {
			case 0:
				p.At = -1
			case 1:
				p.At = 1000
			}
		}
		if n > 8 && p.X < n/4 {
			p.X = n / 4
		}
		if deep {
			p.X = 1 // down to single elements, 2401 of them
		}
		s.P = append(s.P, p)
	}
	s.D = r.Intn(20) == 0
	if h.mode == "cancel" {
		s.W = r.Intn(3)
		if h.wrap {
			s.W = 1 + r.Intn(3)
		}
	}
	return s
}

func (s *stSpec) norm() {
	if len(s.M) == 0 {
		s.M = []Mat{{F: "dense", R: 1, C: 1}}
	}
	for i := range s.M {
		s.M[i].norm()
		s.M[i].R, s.M[i].C = min(s.M[i].R, 70), min(s.M[i].C, 70)
	}
	if len(s.P) == 0 {
		s.P = []stProd{{At: 1000}}
	}
	if len(s.P) > 3 {
		s.P = s.P[:3]
	}
	for i := range s.P {
		p := &s.P[i]
		p.A, p.B = mod(p.A, len(s.M)), mod(p.B, len(s.M))
		for k := 0; k < len(s.M) && s.M[p.A].C != s.M[p.B].R; k++ {
			p.B = mod(p.B+1, len(s.M))
		}
		for k := 0; k < len(s.M) && s.M[p.A].C != s.M[p.B].R; k++ {
			p.A = mod(p.A+1, len(s.M))
		}
		if s.M[p.A].C != s.M[p.B].R {
			s.M[p.B].R = s.M[p.A].C
		}
		// recursion below one element never ends; its smallest size is 1
		p.X = clamp(p.X, 0, 64)
	}
}

func (h strass) Run(e *Env, spec any) {
	s := spec.(*stSpec)
	s.norm()
	// a change of size for one product may unfit another
	for _, p := range s.P {
		if s.M[p.A].C != s.M[p.B].R {
			s.P = []stProd{s.P[len(s.P)-1]}
			s.norm()
			break
		}
	}
	switch s.T {
	case "float64":
		stRun[float64](e, s, h.mode)
	case "int8":
		stRun[int8](e, s, h.mode)
	case "uint16":
		stRun[uint16](e, s, h.mode)
	case "int64":
		stRun[int64](e, s, h.mode)
	default:
		stRun[int](e, s, h.mode)
	}
}

func product[T Num](a, b *grid[T]) *grid[T] {
	x := newGrid[T](a.r, b.c)
	for i := 0; i < a.r; i++ {
		for k := 0; k < b.c; k++ {
			var v T
			for l := 0; l < a.c; l++ {
				v += a.at(i, l) * b.at(l, k)
			}
			x.set(i, k, v)
		}
	}
	return x
}

func stRun[T Num](e *Env, s *stSpec, mode string) {
	n := len(s.P)
	mul := func(ctx context.Context, p stProd, m []g.Matrix[T]) g.Matrix[T] {
		if s.D {
			return strassen.Multiply(ctx, m[p.A], m[p.B])
		}
		return strassen.MultiplyCrossoverPoint(ctx, m[p.A], m[p.B], p.X)
	}
	fresh := func() []g.Matrix[T] {
		var m []g.Matrix[T]
		for _, d := range s.M {
			m = append(m, build[T](d))
		}
		return m
	}
	// how long each takes alone, and which goroutines it has
	alone := make([]sim.Result, n)
	var whole int64
	if mode == "cancel" {
		for i, p := range s.P {
			m := fresh()
			alone[i] = e.quietSim(SimOpts{}, func() {
				sim.Spawn(func() { mul(wrapCtx(newCtx(), s.W), p, m) })
			})
			whole += alone[i].Steps
		}
	}
	m := fresh()
	outs := make([]g.Matrix[T], n)
	boxes := make([]ctxBox, n)
	cancelled := make([]bool, n)
	returned := make([]bool, n)
	var errs = make([]caught, n)
	// explore with long runs, too
	o := SimOpts{Handlers: map[string]func(string){"cancel": func(i string) { boxes[i[0]-'0'].strike("") }}}
	for i, p := range s.P {
		if p.At >= 0 && p.At < 1000 && mode == "cancel" {
			t := fmt.Sprintf("0.%d", i)
			if k := fmt.Sprintf("0.0.%d", p.By-1); p.By > 0 && alone[i].TaskSteps[k] > 0 {
				at := 1 + int64(p.At)*alone[i].TaskSteps[k]/1000
				o.Faults = append(o.Faults, sim.Fault{T: fmt.Sprintf("0.%d.%d", i, p.By-1), N: at, Name: fmt.Sprintf("cancel:%d", i)})
			} else {
				at := 1 + int64(p.At)*alone[i].TaskSteps["0.0"]/1000
				o.Faults = append(o.Faults, sim.Fault{T: t, N: at, Name: fmt.Sprintf("cancel:%d", i)})
			}
		}
	}
	o.Limit = 20000000
	var doneAt = make([]int64, n)
	res := e.Sim(o, func() {
		for i, p := range s.P {
			i, p := i, p
			sim.Spawn(func() {
				ctx := boxes[i].set(newCtx())
				if p.At < 0 && mode == "cancel" {
					ctx.Cancel()
				}
				errs[i] = try(func() { outs[i] = mul(wrapCtx(ctx, s.W), p, m) })
				cancelled[i] = ctx.Struck()
				doneAt[i] = sim.Seq()
				returned[i] = true
			})
		}
	})
	for i := range s.M {
		if x, y := readGrid[T](m[i]), cells[T](s.M[i]); !x.eq(y) {
			e.Fail("operand-changed", "a %s operand was %v and is %v", s.M[i].F, y, x)
		}
	}
	for i, p := range s.P {
		a, b := cells[T](s.M[p.A]), cells[T](s.M[p.B])
		if errs[i].panicked {
			e.Fail("panic", "the product of %dx%d and %dx%d (crossover %d) panics: %v", a.r, a.c, b.r, b.c, p.X, errs[i].val)
		}
		if !returned[i] {
			e.Fail("deadlock", "a product did not return")
		}
		if outs[i] == nil {
			e.Fail("shape", "no product")
		}
		x := readGrid(outs[i])
		if x.r != a.r || x.c != b.c {
			e.Fail("shape", "the product of %dx%d and %dx%d (crossover %d, cancelled %v) is %dx%d", a.r, a.c, b.r, b.c, p.X, cancelled[i], x.r, x.c)
		}
		want := product(a, b)
		if !cancelled[i] && !x.eq(want) {
			e.Fail("wrong-product", "%v times %v (crossover %d) is %v and came out as %v", a, b, p.X, want, x)
		}
		if cancelled[i] {
			e.Probe("cancelled products")
			if !x.eq(want) {
				e.Probe("cut short")
			}
			if p.At >= 0 {
				e.Probe("cancelled during the product")
			}
		}
	}
	if res.Tasks > n+1 {
		e.Probe("products with concurrent sub-products")
		e.NonTrivial()
	}
	if res.Tasks > n+9 {
		e.Probe("nested sub-products")
	}
	if mode == "cancel" {
		if lim := 2*whole + 4000; res.Steps > lim {
			e.Fail("late-return", "took %d steps; uncancelled and alone they take %d", res.Steps, whole)
		}
	}
}
