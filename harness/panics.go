package main

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/unaryop"
	"verifsim"
)

// panics: a callback of an operation panics at a chosen one of its calls (C16).

type pnSpec struct {
	T    string `json:"type"`
	K    string `json:"k"`    // op, update, map, bfs, equal, text, strassen
	From string `json:"from"` // op: mask, a, b, operator
	Op   opSpec `json:"op"`
	R    int    `json:"r"`
	C    int    `json:"c"`
	N    int    `json:"n"`
	L    opSpec `json:"later"`
	V    int    `json:"value"` // what it panics with
}

type panics struct{}

func (panics) New() any { return &pnSpec{} }
func (panics) Gen(r *sim.Rng, e *Env) any {
	s := &pnSpec{T: pickType(r), N: 1 + r.Intn(3), R: r.Intn(4), C: r.Intn(4)}
	s.K = []string{"op", "op", "op", "op", "op", "op", "op", "op", "update", "update", "map", "map", "bfs", "equal", "strassen"}[r.Intn(15)]
	max := 4
	if r.Intn(20) == 0 {
		max = 9
		s.N = 1 + r.Intn(6)
		s.R, s.C = r.Intn(9), r.Intn(9)
	}
	s.Op = genOp(r, outOps, max)
	s.From = []string{"mask", "mask", "a", "a", "b"}[r.Intn(5)]
	if s.Op.K == "apply" && r.Intn(3) > 0 {
		s.From = "operator"
	}
	if s.From == "mask" && s.Op.Mask == "" {
		s.Op.Mask = "empty"
	}
	s.L = genOp(r, []string{"add", "sub", "apply", "ewma"}, 4)
	if r.Intn(2) == 0 {
		s.V = r.Intn(8)
	}
	if s.K == "strassen" {
		n := 2 + r.Intn(3)
		s.Op.A = genMat(r, pick(r, matFormats), n, n, 8)
		s.Op.B = genMat(r, pick(r, matFormats), n, n, 8)
	}
	return s
}

func (panics) Run(e *Env, spec any) {
	s := spec.(*pnSpec)
	s.Op.norm(1200)
	if s.From == "mask" && s.Op.Mask == "" {
		s.Op.Mask = "empty"
	}
	s.N = clamp(s.N, 1, 64)
	registerSpies()
	switch s.T {
	case "float64":
		pnRun[float64](e, s)
	case "int8":
		pnRun[int8](e, s)
	case "uint16":
		pnRun[uint16](e, s)
	default:
		pnRun[int](e, s)
	}
}

// spies are operands that tell of each time they are read.

type spyPoint struct {
	calls, at int
	r, c      int
	val       any
}

func (p *spyPoint) hit(r, c int) {
	p.calls++
	if p.calls == p.at {
		p.r, p.c = r, c
		if p.val == nil {
			// a run-time error
			_ = []int{1, 2}[p.calls+1]
		}
		panic(p.val)
	}
}

type spyEnum[T Num] struct {
	g.Enumerate[T]
	p *spyPoint
}

func (e *spyEnum[T]) Next() (int, int, T) {
	r, c, v := e.Enumerate.Next()
	e.p.hit(r, c)
	return r, c, v
}

type spyDense[T Num] struct {
	g.Matrix[T]
	p *spyPoint
}

func (m *spyDense[T]) At(r, c int) T                  { m.p.hit(r, c); return m.Matrix.At(r, c) }
func (m *spyDense[T]) RowsAt(r int) g.VectorLogial[T] { m.p.hit(r, -1); return m.Matrix.RowsAt(r) }
func (m *spyDense[T]) ColumnsAt(c int) g.VectorLogial[T] {
	m.p.hit(-1, c)
	return m.Matrix.ColumnsAt(c)
}
func (m *spyDense[T]) RowsAtToArray(r int) []T   { m.p.hit(r, -1); return m.Matrix.RowsAtToArray(r) }
func (m *spyDense[T]) Enumerate() g.Enumerate[T] { return &spyEnum[T]{m.Matrix.Enumerate(), m.p} }
func (m *spyDense[T]) Copy() g.Matrix[T]         { m.p.hit(-1, -1); return m.Matrix.Copy() }

type spySparse[T Num] struct{ spyDense[T] }

type spyDenseVec[T Num] struct {
	g.Vector[T]
	p *spyPoint
}

func (m *spyDenseVec[T]) At(r, c int) T                  { m.p.hit(r, c); return m.Vector.At(r, c) }
func (m *spyDenseVec[T]) AtVec(i int) T                  { m.p.hit(i, 0); return m.Vector.AtVec(i) }
func (m *spyDenseVec[T]) RowsAt(r int) g.VectorLogial[T] { m.p.hit(r, -1); return m.Vector.RowsAt(r) }
func (m *spyDenseVec[T]) ColumnsAt(c int) g.VectorLogial[T] {
	m.p.hit(-1, c)
	return m.Vector.ColumnsAt(c)
}
func (m *spyDenseVec[T]) RowsAtToArray(r int) []T   { m.p.hit(r, -1); return m.Vector.RowsAtToArray(r) }
func (m *spyDenseVec[T]) Enumerate() g.Enumerate[T] { return &spyEnum[T]{m.Vector.Enumerate(), m.p} }
func (m *spyDenseVec[T]) Copy() g.Matrix[T]         { m.p.hit(-1, -1); return m.Vector.Copy() }

type spySparseVec[T Num] struct{ spyDenseVec[T] }

var spiesOnce sync.Once

func registerSpies() {
	spiesOnce.Do(func() {
		g.RegisterMatrix(reflect.TypeOf(spySparse[float64]{}))
		g.RegisterMatrix(reflect.TypeOf(spySparseVec[float64]{}))
	})
}

func spy[T Num](m g.Matrix[T], f string, p *spyPoint) g.Matrix[T] {
	switch f {
	case "csr", "csc":
		return &spySparse[T]{spyDense[T]{m, p}}
	case "dvec":
		return &spyDenseVec[T]{m.(g.Vector[T]), p}
	case "svec":
		return &spySparseVec[T]{spyDenseVec[T]{m.(g.Vector[T]), p}}
	}
	return &spyDense[T]{m, p}
}

type spyMask struct {
	g.Mask
	p *spyPoint
}

func (m *spyMask) Element(r, c int) bool {
	m.p.hit(r, c)
	return m.Mask.Element(r, c)
}

type pnValue struct{ n int }

// pnVal is a value to panic with; nil stands for a run-time error.
func pnVal(kind, at int) any {
	switch mod(kind, 8) {
	case 1:
		return "text"
	case 2:
		return at
	case 3:
		return context.Canceled
	case 4:
		return context.DeadlineExceeded
	case 5:
		return fmt.Errorf("wrapped: %w", context.Canceled)
	case 6:
		return pnValue{at}
	case 7:
		return nil
	}
	return &pnValue{at}
}

// pnInst is an instance with the spy in place.
type pnInst[T Num] struct {
	op       *opInst[T]
	bare     []g.Matrix[T] // the structures themselves, to look at afterwards
	formats  []string
	out      g.Matrix[T]
	run      func(ctx context.Context)
	seen     T // operand of the operator at the panic
	allowOld bool
}

func pnBuild[T Num](s *pnSpec, p *spyPoint) *pnInst[T] {
	o := &s.Op
	x := &pnInst[T]{}
	switch s.K {
	case "update":
		m := build[T](o.A)
		x.bare, x.formats, x.out = []g.Matrix[T]{m}, []string{o.A.F}, m
		f := unary[T](o.U)
		x.run = func(context.Context) {
			m.Update(mod(s.R, o.A.R), mod(s.C, o.A.C), func(v T) T {
				p.hit(mod(s.R, o.A.R), mod(s.C, o.A.C))
				return f(v)
			})
		}
		return x
	case "map":
		m := build[T](o.A)
		x.bare, x.formats, x.out = []g.Matrix[T]{m}, []string{o.A.F}, m
		f := unary[T](o.U)
		x.run = func(context.Context) {
			for it := m.Map(); it.HasNext(); {
				it.Map(func(r, c int, v T) T {
					p.hit(r, c)
					return f(v)
				})
			}
		}
		return x
	case "bfs":
		d := o.A
		mkMat(&d)
		n := min(d.R, 9)
		d.resize(n, n)
		m := build[T](d)
		x.bare, x.formats = []g.Matrix[T]{m}, []string{d.F}
		x.run = func(ctx context.Context) {
			breadthfirst.Search(ctx, m, mod(s.R, d.R), func(g.Vector[T]) bool {
				p.hit(-1, -1)
				return false
			})
		}
		return x
	case "equal":
		a := build[T](o.A)
		bm := Mat{F: o.B.F, R: o.A.R, C: o.A.C, E: o.A.E}
		if bm.isVec() {
			bm.F = o.A.F
		}
		b := build[T](bm)
		x.bare, x.formats = []g.Matrix[T]{a, b}, []string{o.A.F, formatOf(b)}
		sa, sb := spy(a, o.A.F, p), spy(b, formatOf(b), p)
		x.run = func(ctx context.Context) { g.Equal[T](ctx, sa, sb) }
		return x
	case "strassen":
		a, b := o.A, o.B
		mkMat(&a)
		mkMat(&b)
		n := min(a.R, 20)
		a.resize(n, n)
		b.resize(n, n)
		ma, mb := build[T](a), build[T](b)
		x.bare, x.formats = []g.Matrix[T]{ma, mb}, []string{a.F, b.F}
		sa, sb := spy(ma, a.F, p), mb
		if s.From == "b" {
			sa, sb = ma, spy(mb, b.F, p)
		}
		x.run = func(ctx context.Context) { strassen.MultiplyCrossoverPoint(ctx, sa, sb, 1+mod(s.C, 3)) }
		return x
	}
	op := newOp[T](o)
	x.op = op
	x.bare = []g.Matrix[T]{op.a, op.b, op.out}
	if op.maskM != nil {
		x.bare = append(x.bare, op.maskM)
	}
	x.out = op.out
	for _, m := range x.bare {
		x.formats = append(x.formats, formatOf(m))
	}
	r := *op // the operation as it runs
	switch s.From {
	case "a", "b":
		m := op.a
		if s.From == "b" {
			m = op.b
		}
		sp := spy(m, formatOf(m), p)
		if r.a == m {
			r.a = sp
		}
		if r.b == m {
			r.b = sp
		}
		if r.out == m {
			r.out = sp
		}
	case "operator":
		f := unary[T](o.U)
		r.u = unaryop.NewUnaryOp(func(v T) T {
			x.seen = v
			p.hit(-1, -1)
			return f(v)
		})
	default:
		if r.mask != nil {
			r.mask = &spyMask{r.mask, p}
		}
	}
	x.run = func(ctx context.Context) { r.run(ctx) }
	return x
}

func pnRun[T Num](e *Env, s *pnSpec) {
	var base *pnInst[T]
	p := &spyPoint{}
	var c caught
	var old, final []*grid[T]
	all := func(x *pnInst[T]) (l []*grid[T]) {
		for _, m := range x.bare {
			l = append(l, readGrid[T](m))
		}
		return
	}
	e.Sim(SimOpts{Quiet: true}, func() {
		base = pnBuild[T](s, p)
		old = all(base)
		c = try(func() { base.run(idleCtx()) })
	})
	if c.panicked {
		e.Probe("refused")
		return
	}
	quiet(func() { final = all(base) })
	calls := p.calls
	if calls == 0 {
		e.Probe("no callback")
		return
	}
	e.NonTrivial()
	for k := 0; k < s.N; k++ {
		at := 1 + e.Choose(calls)
		p := &spyPoint{at: at, val: pnVal(s.V, at)}
		var x *pnInst[T]
		var done caught
		e.Sim(SimOpts{Quiet: true}, func() {
			x = pnBuild[T](s, p)
			done = try(func() { x.run(idleCtx()) })
		})
		p.at = 0
		e.stats.Faults["panic:"+s.K+":"+s.From]++
		name := s.K
		if s.K == "op" {
			name = s.Op.K + " (" + s.From + " panics)"
		}
		if !done.panicked {
			e.Fail("panic-lost", "%s: the panic of callback %d of %d did not reach the caller", name, at, calls)
		}
		if p.val == nil {
			if x, ok := done.val.(runtime.Error); !ok || !strings.Contains(x.Error(), "index out of range") {
				e.Fail("panic-changed", "%s: the callback ran out of range, the caller got %v", name, done.val)
			}
		} else if done.val != p.val {
			e.Fail("panic-changed", "%s: the callback panicked with %v, the caller got %v", name, p.val, done.val)
		}
		var bad string
		quiet(func() {
			now := all(x)
			for i, m := range x.bare {
				if x.out != nil && m == x.out {
					if x.op != nil {
						if t := x.op.checkCells(readFinal(x, base)); t != "" {
							bad = t
						}
					} else {
						for j, v := range now[i].v {
							if v != old[i].v[j] && v != final[i].v[j] {
								bad = fmt.Sprintf("cell (%d,%d) held %v, holds %v; a whole call leaves %v", j/now[i].c, j%now[i].c, old[i].v[j], v, final[i].v[j])
							}
						}
					}
					continue
				}
				if !now[i].eq(old[i]) {
					bad = fmt.Sprintf("structure %d was %v and is %v", i, old[i], now[i])
				}
			}
			if bad != "" {
				return
			}
			// the cell being computed
			if x.out != nil && s.K != "op" || s.K == "op" && s.From == "mask" && s.Op.K != "ewma" && s.Op.K != "ewva" {
				o := x.outIndex()
				if p.r < 0 || p.r >= now[o].r || p.c < 0 || p.c >= now[o].c {
					bad = fmt.Sprintf("the callback was asked about (%d,%d), outside", p.r, p.c)
				} else if v := now[o].at(p.r, p.c); v != old[o].at(p.r, p.c) {
					bad = fmt.Sprintf("cell (%d,%d), being computed at the panic, held %v and holds %v", p.r, p.c, old[o].at(p.r, p.c), v)
				}
			}
			if s.K == "op" && s.From == "operator" {
				// the element the operator was given, if only one has that value
				r, c, n := 0, 0, 0
				for j, v := range old[0].v {
					if v == x.seen {
						r, c, n = j/old[0].c, j%old[0].c, n+1
					}
				}
				o := x.outIndex()
				if n == 1 && now[o].at(r, c) != old[o].at(r, c) {
					bad = fmt.Sprintf("cell (%d,%d), being computed at the panic, held %v and holds %v", r, c, old[o].at(r, c), now[o].at(r, c))
				}
			}
			for i, m := range x.bare {
				if t := wellFormed[T](m, x.formats[i] == "csr" || x.formats[i] == "csc" || x.formats[i] == "svec"); t != "" {
					bad = fmt.Sprintf("structure %d (%s): %s", i, x.formats[i], t)
				}
			}
		})
		if bad != "" {
			e.Fail("corrupted", "%s, panic at callback %d of %d: %s", name, at, calls, bad)
		}
		// still usable: an operation gives what it gives on fresh structures
		for i, m := range x.bare {
			want, got := "", ""
			l := s.L
			l.A = Mat{F: x.formats[i], R: old[i].r, C: old[i].c}
			l.norm(16)
			l.A.R, l.A.C = old[i].r, old[i].c
			if l.A.F != x.formats[i] {
				continue
			}
			do := func(a g.Matrix[T]) string {
				y := newOp[T](&l)
				was := y.a
				y.a = a
				if y.b == was {
					y.b = a
				}
				if y.out == was {
					y.out = a
				}
				r := ""
				c := try(func() {
					y.run(idleCtx())
					r = readGrid[T](y.out).key()
				})
				if c.panicked {
					return fmt.Sprint("panic: ", c.val)
				}
				return r
			}
			e.quietSim(SimOpts{}, func() {
				want = do(fromGrid(x.formats[i], readGrid[T](m)))
				got = do(m)
			})
			if got != want {
				e.Fail("usable", "after %s panicked, %s on structure %d (%s) gives %s; on a fresh one with the same elements %s", name, l.K, i, x.formats[i], got, want)
			}
		}
	}
}

func (x *pnInst[T]) outIndex() int {
	for i, m := range x.bare {
		if m == x.out {
			return i
		}
	}
	return 0
}

func readFinal[T Num](x, base *pnInst[T]) *grid[T] { return readGrid[T](base.op.out) }
