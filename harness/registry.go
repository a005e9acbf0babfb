package main

import (
	"fmt"
	"reflect"

	g "github.com/rossmerr/graphblas"
	other "verifharness/other/graphblas"
	"verifsim"
)

// registry: matrix types are registered while others register, ask and
// compute (C17).

type rgOp struct {
	K string `json:"k"` // reg, ask, never, builtin, again, op, opnew, read
	I int    `json:"i"` // which type of the run
	F bool   `json:"float"`
	W bool   `json:"twin"`    // the type of the same name in another package
	R bool   `json:"pointer"` // registered by its pointer
	Y int    `json:"y"`
}

type rgSpec struct {
	N  int      `json:"types"`
	P  [][]rgOp `json:"clients"`
	Op opSpec   `json:"op"`
	Rd rdSpec   `json:"read"` // what calls of other kinds share
}

type registry struct{}

func (registry) New() any { return &rgSpec{} }
func (registry) Gen(r *sim.Rng, e *Env) any {
	s := &rgSpec{N: 1 + r.Intn(3)}
	for i := 2 + r.Intn(3); i > 0; i-- {
		var p []rgOp
		for k := 1 + r.Intn(5); k > 0; k-- {
			p = append(p, rgOp{K: []string{"reg", "reg", "reg", "ask", "ask", "ask", "never", "builtin", "again", "op", "opnew", "read", "read"}[r.Intn(13)], I: r.Intn(6), F: r.Intn(2) == 0, W: r.Intn(3) == 0, R: r.Intn(3) == 0, Y: r.Intn(6)})
		}
		s.P = append(s.P, p)
	}
	s.Rd = *readers{}.Gen(r, e).(*rdSpec)
	s.Rd.shrink(4)
	s.Op = genOp(r, []string{"add", "sub", "ewma", "mxm", "apply"}, 3)
	return s
}

// regNext is the first of the types that no run of this process has used.
var regNext int

type rgRec struct {
	op       *rgOp
	inv, ret int64
	ok       bool
	resp     string
	panicked bool
}

func isSparse(t *regType, f bool) bool {
	if f || t.int_ == nil {
		return g.IsSparseMatrix[float64](t.float_())
	}
	return g.IsSparseMatrix[int](t.int_())
}

func (registry) Run(e *Env, spec any) {
	s := spec.(*rgSpec)
	s.N = clamp(s.N, 1, 4)
	s.Op.norm(4)
	if len(s.P) > 5 {
		s.P = s.P[:5]
	}
	if regNext+s.N+1 > len(regTypes) {
		// used up; the sizes of batches see to it that this is rare
		e.Probe("types used up")
		return
	}
	// type i, and at i+N its namesake
	types := append(append([]regType{}, regTypes[regNext:regNext+s.N]...), twins[regNext:regNext+s.N]...)
	which := func(o *rgOp) int {
		if o.W {
			return mod(o.I, s.N) + s.N
		}
		return mod(o.I, s.N)
	}
	last := len(regTypes) - 1
	nevers := []func(o *rgOp) bool{
		func(o *rgOp) bool { return isSparse(&regTypes[last], o.F) },
		func(o *rgOp) bool { return isSparse(&twins[last], o.F) },
		func(o *rgOp) bool {
			return g.IsSparseMatrix[float64](&other.CSRMatrix{g.NewDenseMatrixN[float64](2, 2)})
		},
		func(o *rgOp) bool {
			if o.F {
				return g.IsSparseMatrix[float64](&other.CSCMatrix[float64]{g.NewDenseMatrixN[float64](2, 2)})
			}
			return g.IsSparseMatrix[int](&other.CSCMatrix[int]{g.NewDenseMatrixN[int](2, 2)})
		},
		func(o *rgOp) bool {
			if o.F {
				return g.IsSparseMatrix[float64](&other.SparseVector[float64]{g.NewDenseMatrixN[float64](2, 2)})
			}
			return g.IsSparseMatrix[int](&other.SparseVector[int]{g.NewDenseMatrixN[int](2, 2)})
		},
	}
	regNext += s.N
	want := ""
	quiet(func() {
		x := newOp[int](&s.Op)
		try(func() { x.run(idleCtx()) })
		want = readGrid[int](x.out).key()
	})
	// sums of matrices of the registered kinds do not depend on the registry
	sum := func(t *regType, f bool) string {
		r := ""
		c := try(func() {
			if f || t.int_ == nil {
				m := t.float_()
				m.Set(0, 1, 3)
				x := g.NewCSRMatrix[float64](2, 2)
				x.Set(1, 1, 5)
				o := g.NewDenseMatrixN[float64](2, 2)
				g.Add[float64](idleCtx(), m, x, nil, o)
				r = readGrid[float64](o).key()
			} else {
				m := t.int_()
				m.Set(0, 1, 3)
				x := g.NewCSRMatrix[int](2, 2)
				x.Set(1, 1, 5)
				o := g.NewDenseMatrixN[int](2, 2)
				g.Add[int](idleCtx(), m, x, nil, o)
				r = readGrid[int](o).key()
			}
		})
		if c.panicked {
			return fmt.Sprint("panic: ", c.val)
		}
		return r
	}
	// calls of every other kind
	s.Rd.shrink(6)
	s.Rd.norm()
	var calls []*rdOp
	for i := range s.Rd.P {
		for k := range s.Rd.P[i] {
			calls = append(calls, &s.Rd.P[i][k])
		}
	}
	calls = calls[:min(len(calls), 6)]
	alone := make([]string, len(calls))
	for i, o := range calls {
		e.quietSim(SimOpts{}, func() { alone[i] = newShared[int](&s.Rd).do(o, nil) })
	}
	d := newShared[int](&s.Rd)
	hist := make([][]*rgRec, len(s.P)+1)
	e.Sim(SimOpts{}, func() {
		var wg sim.WaitGroup
		for i := range s.P {
			i := i
			for k := range s.P[i] {
				hist[i] = append(hist[i], &rgRec{op: &s.P[i][k]})
			}
			wg.Add(1)
			sim.Spawn(func() {
				defer wg.Done()
				for _, x := range hist[i] {
					o := x.op
					t := &types[which(o)]
					for y := 0; y < o.Y && y < 20; y++ {
						sim.Yield()
					}
					sim.Yield()
					x.inv = sim.Seq()
					c := try(func() {
						switch o.K {
						case "reg":
							if o.R {
								g.RegisterMatrix(reflect.PtrTo(t.t))
							} else {
								g.RegisterMatrix(t.t)
							}
						case "ask":
							x.ok = isSparse(t, o.F)
						case "never":
							x.ok = nevers[mod(o.I+o.Y, len(nevers))](o)
						case "builtin":
							switch mod(o.I, 5) {
							case 0:
								x.ok = g.IsSparseMatrix[int8](g.NewCSRMatrix[int8](1, 1))
							case 1:
								x.ok = g.IsSparseMatrix[float64](g.NewCSCMatrix[float64](1, 1))
							case 2:
								x.ok = g.IsSparseMatrix[uint16](g.NewSparseVector[uint16](1))
							case 3:
								x.ok = !g.IsSparseMatrix[int](g.NewDenseMatrixN[int](1, 1))
							default:
								x.ok = !g.IsSparseMatrix[rune](g.NewDenseVector[rune](1))
							}
						case "again":
							switch mod(o.I, 3) {
							case 0:
								g.RegisterMatrix(reflect.TypeOf(g.CSRMatrix[float64]{}))
							case 1:
								g.RegisterMatrix(reflect.TypeOf(g.CSCMatrix[float64]{}))
							default:
								g.RegisterMatrix(reflect.TypeOf(g.SparseVector[float64]{}))
							}
						case "opnew":
							x.resp = sum(t, o.F)
						case "read":
							if len(calls) > 0 {
								x.resp = d.do(calls[mod(o.I, len(calls))], nil)
							}
						default:
							y := newOp[int](&s.Op)
							try(func() { y.run(idleCtx()) })
							x.resp = readGrid[int](y.out).key()
						}
					})
					x.panicked = c.panicked
					x.ret = sim.Seq()
				}
			})
		}
		wg.Wait()
		for k := range types {
			for f := 0; f < 2; f++ {
				o := &rgOp{K: "ask", I: k % s.N, F: f == 0, W: k >= s.N}
				x := &rgRec{op: o}
				sim.Yield()
				x.inv = sim.Seq()
				x.ok = isSparse(&types[k], o.F)
				x.ret = sim.Seq()
				hist[len(s.P)] = append(hist[len(s.P)], x)
			}
		}
	})
	text := func() string {
		t := ""
		for i := range hist {
			for _, x := range hist[i] {
				t += fmt.Sprintf("\n  client %d [%d,%d] %s type %d twin %v pointer %v float %v -> %v panic %v %s", i, x.inv, x.ret, x.op.K, mod(x.op.I, s.N), x.op.W, x.op.R, x.op.F, x.ok, x.panicked, x.resp)
			}
		}
		return t
	}
	for k := range types {
		var won *rgRec
		var regs []*rgRec
		for i := range hist {
			for _, x := range hist[i] {
				if x.op.K == "reg" && which(x.op) == k {
					regs = append(regs, x)
					if !x.panicked {
						if won != nil {
							e.Fail("registered-twice", "two registrations of one type succeeded:%s", text())
						}
						won = x
					}
				}
			}
		}
		if len(regs) > 0 && won == nil {
			e.Fail("not-registered", "no registration of a type succeeded:%s", text())
		}
		if len(regs) > 1 {
			e.Probe("several registrations of one type")
			e.NonTrivial()
			for _, x := range regs {
				if x.ret < won.inv {
					e.Fail("order", "a registration failed before the one that succeeded began:%s", text())
				}
			}
		}
		for i := range hist {
			for _, x := range hist[i] {
				if x.op.K != "ask" || which(x.op) != k {
					continue
				}
				if x.panicked {
					e.Fail("panic", "asking about a type panics:%s", text())
				}
				if won != nil && won.inv < x.ret && x.inv < won.ret {
					e.Probe("questions during a registration")
					e.NonTrivial()
				}
				if x.ok && (won == nil || x.ret < won.inv) {
					e.Fail("early", "a type was answered sparse before its registration:%s", text())
				}
				if !x.ok && won != nil && won.ret < x.inv {
					e.Fail("forgotten", "a registered type was answered not sparse:%s", text())
				}
			}
		}
	}
	for i := range hist {
		for _, x := range hist[i] {
			e.stats.Probes["op:"+x.op.K]++
			switch x.op.K {
			case "never":
				if x.ok || x.panicked {
					e.Fail("never", "a type never registered was answered sparse:%s", text())
				}
			case "builtin":
				if !x.ok || x.panicked {
					e.Fail("builtin", "a wrong answer about a type of the library (%d):%s", mod(x.op.I, 5), text())
				}
			case "again":
				if !x.panicked {
					e.Fail("registered-twice", "a type of the library was registered again:%s", text())
				}
			case "opnew":
				if w := "2x2 0 3 0 5"; x.resp != w {
					e.Fail("disturbed", "a sum is %s instead of %s:%s", x.resp, w, text())
				}
			case "read":
				if len(calls) == 0 {
					break
				}
				c := mod(x.op.I, len(calls))
				e.stats.Probes["call:"+calls[c].K]++
				if x.resp != alone[c] {
					e.Fail("disturbed", "%s gives %s instead of %s:%s", calls[c].K, x.resp, alone[c], text())
				}
			case "op":
				if x.resp != want {
					e.Fail("disturbed", "%s gives %s instead of %s:%s", x.op.K, x.resp, want, text())
				}
			}
		}
	}
}
