package main

import (
	"fmt"
	"strings"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/operators"
	"verifsim"
)

// ---- monoids ------------------------------------------------------------------

// wide is the element types that hold an affine map.
type wide interface{ int | int64 | uint32 | float64 }

var wideTypes = []string{"int", "int64", "uint32", "float64"}

// An element is read as the affine map x -> a*x+b over the integers modulo 251;
// composing such maps is associative and sensitive to order, repetition and
// omission.
func unpackMap[T Num](v T) (a, b int64) {
	x := int64(v)
	if x < 0 {
		x = -x
	}
	x &= 0xffff
	return 1 + (x>>8+5)%250, x & 0xff % 251
}

func packMap[T Num](a, b int64) T { return T((a-1+245)%250<<8 | b) }

func composeMaps[T Num](x, y T) T {
	a, b := unpackMap(x)
	c, d := unpackMap(y)
	return packMap[T](a*c%251, (a*d+b)%251)
}

// monoidOf gives a monoid and a function computing its operation.
func monoidOf[T wide](k string) (zero T, op func(x, y T) T, m binaryop.MonoID[T]) {
	if len(k) > 1 && k[0] == '.' {
		// the same operator from the package of operators
		by := map[string]func() binaryop.BinaryOp[T]{"max": operators.Maximum[T], "min": operators.Minimum[T], "add": operators.Addition[T], "mul": operators.Multiplication[T],
			"sub": operators.Subtraction[T], "first": operators.FirstArgument[T], "second": operators.SecondArgument[T]}[k[1:]]
		if by != nil {
			zero, op, _ = monoidOf[T](k[1:])
			return zero, op, binaryop.NewMonoID(zero, by())
		}
	}
	switch k {
	case "add":
		return 0, func(x, y T) T { return x + y }, g.DefaultMonoIDAddition[T]()
	case "max":
		return 0, func(x, y T) T { return max(x, y) }, g.DefaultMonoIDMaximum[T]()
	case "min":
		op := func(x, y T) T { return min(x, y) }
		return 1 << 30, op, binaryop.NewMonoID(T(1<<30), binaryop.Minimum[T]())
	case "mul":
		op := func(x, y T) T { return x * y }
		return 1, op, binaryop.NewMonoID(T(1), binaryop.Multiplication[T]())
	}
	switch k { // no monoids in the strict sense: folded from the left all the same
	case "sub":
		return 3, func(x, y T) T { return x - y }, binaryop.NewMonoID(T(3), binaryop.Subtraction[T]())
	case "first":
		return 9, func(x, y T) T { return x }, binaryop.NewMonoID(T(9), binaryop.FirstArgument[T]())
	case "second":
		return 9, func(x, y T) T { return y }, binaryop.NewMonoID(T(9), binaryop.SecondArgument[T]())
	case "div", ".div":
		if _, ok := any(T(0)).(float64); ok {
			op, f := func(x, y T) T { return x / y }, binaryop.Division[T]()
			if k == ".div" {
				f = operators.Division[T]()
			}
			return 1 << 30, op, binaryop.NewMonoID(T(1<<30), f)
		}
		op := func(x, y T) T { return x*7 + y*5 }
		return 77, op, binaryop.NewMonoID(T(77), binaryop.NewBinaryOp(op))
	case "horner":
		op := func(x, y T) T { return x*3 + y }
		if _, ok := any(T(0)).(float64); ok {
			op = func(x, y T) T { return x/2 + y }
		}
		return 5, op, binaryop.NewMonoID(T(5), binaryop.NewBinaryOp(op))
	}
	// the library's own code calls this operator: let others run meanwhile
	f := func(x, y T) T {
		sim.Yield()
		return composeMaps[T](x, y)
	}
	return packMap[T](1, 0), composeMaps[T], binaryop.NewMonoID(packMap[T](1, 0), binaryop.NewBinaryOp(f))
}

func foldOf[T wide](k string, l []T) T {
	z, op, _ := monoidOf[T](k)
	for _, v := range l {
		z = op(z, v)
	}
	return z
}

var monoKinds = []string{"affine", "affine", "affine", "affine", "affine", "affine", "horner", "add", "max", "min", "mul", "horner", "horner", "sub", "second", "first", "div", ".add", ".max", ".min", ".mul", ".sub", ".first", ".second", ".div"}

// ---- streams (C07) --------------------------------------------------------------

type mnStream struct {
	V     []int `json:"values"`
	N     int   `json:"senders"`
	Close bool  `json:"close"` // done by closing, not by a message
	SS    []int `json:"sender_stalls"`
	RS    int   `json:"receiver_stall"` // turns given away, or, above 50, a sleep
	DS    int   `json:"done_stall"`
	Keep  bool  `json:"keep"`   // the slice channel is never closed
	Buf   int   `json:"buffer"` // capacity of the slice channel
	Early bool  `json:"early"`  // the slice channel is closed before done
}

type mnSpec struct {
	T string     `json:"type"`
	K string     `json:"monoid"`
	S []mnStream `json:"streams"`
}

type mono struct{}

func (mono) New() any { return &mnSpec{} }
func (mono) Gen(r *sim.Rng, e *Env) any {
	s := &mnSpec{T: pick(r, wideTypes), K: pick(r, monoKinds)}
	for i := []int{1, 1, 2, 3}[r.Intn(4)]; i > 0; i-- {
		x := mnStream{N: []int{1, 1, 2, 3}[r.Intn(4)], Close: r.Intn(2) == 0, Keep: r.Intn(2) == 0, Early: r.Intn(4) == 0, RS: r.Intn(70), DS: r.Intn(66)}
		if r.Intn(3) == 0 {
			x.Buf = 1 + r.Intn([]int{2, 8, 90}[r.Intn(3)])
		}
		nv := r.Intn(9)
		if r.Intn(12) == 0 {
			nv = r.Intn(80)
		}
		if r.Intn(600) == 0 {
			nv = vast(r)
			if x.Buf > 0 {
				x.Buf = nv
			}
		}
		for k := nv; k > 0; k-- {
			x.V = append(x.V, genElem(r))
		}
		if s.K == "mul" || s.K == ".mul" {
			for k := range x.V {
				x.V[k] = 1 + mod(x.V[k], 5)
			}
		}
		for k := r.Intn(4); k > 0; k-- {
			x.SS = append(x.SS, r.Intn(68))
		}
		if r.Intn(2) == 0 {
			x.RS = 0
		}
		if r.Intn(2) == 0 {
			x.DS = 0
		}
		s.S = append(s.S, x)
	}
	return s
}

func (mono) Run(e *Env, spec any) {
	s := spec.(*mnSpec)
	if len(s.S) > 5 {
		s.S = s.S[:5]
	}
	for i := range s.S {
		s.S[i].N = clamp(s.S[i].N, 1, 4)
		if len(s.S[i].V) > 1200 {
			s.S[i].V = s.S[i].V[:1200]
		}
	}
	switch s.T {
	case "float64":
		mnRun[float64](e, s)
	case "uint32":
		mnRun[uint32](e, s)
	case "int64":
		mnRun[int64](e, s)
	default:
		mnRun[int](e, s)
	}
}

func stall(n int) {
	if n > 60 {
		// seconds to minutes
		n -= 60
		sim.Sleep(usec(int64(n*n*n) * 1000000))
		return
	}
	if n > 50 {
		sim.Sleep(usec(int64(n) * 10))
		return
	}
	for i := 0; i < n; i++ {
		sim.Yield()
	}
}

func mnRun[T wide](e *Env, s *mnSpec) {
	_, _, m := monoidOf[T](s.K)
	type result struct {
		order  []T
		first  T
		ok     bool
		closed bool
		second T
		again  bool
	}
	n := len(s.S)
	res := make([]result, n)
	var overlap bool
	var live int
	e.Sim(SimOpts{}, func() {
		var all sim.WaitGroup
		for i := range s.S {
			x, r := &s.S[i], &res[i]
			all.Add(1)
			sim.Spawn(func() {
				defer all.Done()
				done := make(chan struct{})
				slice := make(chan T, clamp(x.Buf, 0, 1200))
				out := m.Reduce(done, slice)
				mnLive(&live, 1, &overlap)
				var turn sim.Mutex
				var wg sim.WaitGroup
				var senders sim.WaitGroup
				next := 0
				for k := 0; k < x.N; k++ {
					k := k
					senders.Add(1)
					sim.Spawn(func() {
						defer senders.Done()
						for q := 0; ; q++ {
							turn.Lock()
							if next >= len(x.V) {
								turn.Unlock()
								return
							}
							v := num[T](mnElem(s.K, x.V[next]))
							next++
							r.order = append(r.order, v)
							sim.SendTo(slice)(v)
							turn.Unlock()
							if len(x.SS) > 0 {
								stall(x.SS[(q+k)%len(x.SS)])
							}
						}
					})
				}
				wg.Add(1)
				sim.Spawn(func() {
					defer wg.Done()
					stall(x.RS)
					r.first, r.ok = sim.Recv2(out)
					v, again := sim.Recv2(out)
					r.closed, r.second = !again, v
				})
				// done only after every value has been taken
				senders.Wait()
				if x.Early {
					sim.Close(slice)
				}
				stall(x.DS)
				if x.Close {
					sim.Close(done)
				} else {
					sim.SendTo(done)(struct{}{})
				}
				wg.Wait()
				mnLive(&live, -1, &overlap)
				if !x.Keep {
					if !x.Early {
						sim.Close(slice)
					}
					if !x.Close {
						sim.Close(done)
					}
				}
			})
		}
		all.Wait()
	})
	if n > 1 && overlap {
		e.Probe("reductions sharing a monoid at once")
	}
	for i := range s.S {
		r := &res[i]
		if len(s.S[i].V) > 0 {
			e.NonTrivial()
		}
		if s.S[i].Close {
			e.Probe("done by closing")
		} else {
			e.Probe("done by a message")
		}
		if s.S[i].Early {
			e.Probe("slice closed before done")
		}
		if s.S[i].Buf > 0 {
			e.Probe("buffered hand-over")
		}
		if s.S[i].RS+s.S[i].DS > 0 {
			e.stats.Faults["stalled-receiver-or-done"]++
		}
		if len(s.S[i].SS) > 0 {
			e.stats.Faults["stalled-sender"]++
		}
		want := foldOf(s.K, r.order)
		if !r.ok {
			e.Fail("not-delivered", "reduction %d closed its output without a result; handed over %v", i, r.order)
		}
		if !same(r.first, want) {
			e.Fail("wrong-fold", "reduction %d (%s) of %v, in this order, delivered %v instead of %v", i, s.K, r.order, r.first, want)
		}
		if !r.closed {
			e.Fail("delivered-twice", "reduction %d delivered %v and then %v", i, r.first, r.second)
		}
	}
}

//go:norace
func mnLive(n *int, d int, over *bool) {
	*n += d
	if *n > 1 {
		*over = true
	}
}

// ---- reductions of matrices (C08, C09) ----------------------------------------------

type rcCall struct {
	K    string `json:"k"` // m2s, v2s, m2v, sum, vsum, max
	M    int    `json:"m"`
	Mask int    `json:"mask"` // 0 none, 1 matrix, 2 empty, 3 wrong size
	At   int    `json:"at"`   // per mille; -1 before; 1000 never
	By   int    `json:"by"`
	W    int    `json:"wrap"`
}

type rcSpec struct {
	T  string   `json:"type"`
	K  string   `json:"monoid"`
	M  []Mat    `json:"matrices"`
	X  []Mat    `json:"masks"`
	VX []Mat    `json:"column_masks"`
	P  []rcCall `json:"calls"`
}

type reduce struct {
	mode string
	wrap bool
}

// "whole", "cancel"

func (reduce) New() any { return &rcSpec{} }

// genElem gives an element to fold; those above 60000 are no numbers or
// infinite when they are of a type that has such values.
func genElem(r *sim.Rng) int {
	switch x := r.Intn(64); {
	case x < 2:
		return 60001 + r.Intn(3)
	case x < 6:
		return 0
	case x < 14:
		return -1 - r.Intn(60000)
	}
	return 1 + r.Intn(60000)
}

// mnElem leaves out what the operator has no answer for.
func mnElem(k string, v int) int {
	if (strings.HasSuffix(k, "max") || strings.HasSuffix(k, "min")) && v == 60001 {
		return 60002
	}
	return v
}

func genWide(r *sim.Rng, f string, rows, cols, den int) Mat {
	m := genMat(r, f, rows, cols, den)
	for i := range m.E {
		m.E[i][2] = genElem(r)
	}
	return m
}

func (h reduce) Gen(r *sim.Rng, e *Env) any {
	s := &rcSpec{T: pick(r, wideTypes), K: pick(r, monoKinds)}
	for i := r.Intn(2); i >= 0; i-- {
		f, a, b := pick(r, formats), 1+r.Intn(4), 1+r.Intn(4)
		switch r.Intn(40) {
		case 0, 1:
			a, b = 1+r.Intn(9), 1+r.Intn(9)
		case 2:
			a, b = 1+r.Intn(20), 1+r.Intn(20)
		case 3:
			f, a = pick(r, vecFormats), 30+r.Intn(100)
		}
		if r.Intn(700) == 0 {
			f, a, b = pick(r, formats), vast(r), 1
			if r.Intn(2) == 0 {
				a, b = b, a
			}
		}
		m := genWide(r, f, a, b, density(r))
		s.M = append(s.M, m)
		s.X = append(s.X, genMat(r, pick(r, matFormats), m.R, m.C, 4))
		s.VX = append(s.VX, genMat(r, pick(r, vecFormats), m.R, 1, 3))
	}
	for k := []int{1, 1, 2, 3}[r.Intn(4)]; k > 0; k-- {
		c := rcCall{K: []string{"m2s", "m2s", "m2s", "v2s", "m2v", "m2v", "sum", "vsum", "max"}[r.Intn(9)], M: r.Intn(len(s.M)), Mask: r.Intn(3), At: 1000}
		if h.mode == "cancel" {
			c.At, c.By, c.W = r.Intn(1000), r.Intn(9), r.Intn(3)
			if h.wrap {
				c.W = 1 + r.Intn(3)
			}
			switch r.Intn(10) {
			case 0:
				c.At = -1
			case 1:
				c.At = 1000
			case 2:
				c.Mask = 3
			}
		}
		s.P = append(s.P, c)
	}
	return s
}

func (s *rcSpec) norm() {
	if len(s.M) == 0 {
		s.M = []Mat{{F: "dense", R: 1, C: 1}}
	}
	for len(s.X) < len(s.M) {
		s.X = append(s.X, Mat{F: "dense"})
	}
	for len(s.VX) < len(s.M) {
		s.VX = append(s.VX, Mat{F: "dvec"})
	}
	for i := range s.M {
		s.M[i].norm()
		for k := range s.M[i].E {
			if s.K == "mul" || s.K == ".mul" {
				s.M[i].E[k][2] = mod(s.M[i].E[k][2], 4)
			}
			s.M[i].E[k][2] = mnElem("max", s.M[i].E[k][2])
		}
		mkMat(&s.X[i])
		s.X[i].resize(s.M[i].R, s.M[i].C)
		mkVec(&s.VX[i])
		s.VX[i].resize(s.M[i].R, 1)
	}
	if len(s.P) > 4 {
		s.P = s.P[:4]
	}
	for i := range s.P {
		p := &s.P[i]
		p.M = mod(p.M, len(s.M))
		if (p.K == "v2s" || p.K == "vsum") && !s.M[p.M].isVec() {
			p.K = "m2s"
		}
		if p.K == "max" {
			p.Mask = 0
		}
		// a vector's columns cannot be masked by element; the mask of a column
		// has the column's size
	}
}

func (h reduce) Run(e *Env, spec any) {
	s := spec.(*rcSpec)
	s.norm()
	switch s.T {
	case "float64":
		rcRun[float64](e, s, h.mode)
	case "uint32":
		rcRun[uint32](e, s, h.mode)
	case "int64":
		rcRun[int64](e, s, h.mode)
	default:
		rcRun[int](e, s, h.mode)
	}
}

// rcEnv is the live structures.
type rcEnv[T wide] struct {
	m, x, vx []g.Matrix[T]
	mono     binaryop.MonoID[T]
}

func rcBuild[T wide](s *rcSpec) *rcEnv[T] {
	d := &rcEnv[T]{}
	for i := range s.M {
		d.m = append(d.m, build[T](s.M[i]))
		d.x = append(d.x, build[T](s.X[i]))
		d.vx = append(d.vx, build[T](s.VX[i]))
	}
	_, _, d.mono = monoidOf[T](s.K)
	return d
}

func (p *rcCall) vector() bool { return p.K == "m2v" || p.K == "max" }

func (d *rcEnv[T]) mask(p *rcCall) g.Mask {
	m := d.m[p.M]
	r, c := m.Rows(), m.Columns()
	if p.vector() {
		c = 1
	}
	switch p.Mask {
	case 1:
		if p.vector() {
			return d.vx[p.M]
		}
		return d.x[p.M]
	case 2:
		return g.NewEmptyMask(r, c)
	case 3:
		if p.By%2 == 0 {
			return g.NewEmptyMask(r+1, c)
		}
		return g.NewEmptyMask(r, c+1)
	}
	return nil
}

// call gives the result, one value for each column when it is a vector.
func (d *rcEnv[T]) call(ctx *sim.Ctx, p *rcCall) []T {
	c := wrapCtx(ctx, p.W)
	m := d.m[p.M]
	switch p.K {
	case "v2s":
		return []T{g.ReduceVectorToScalarWithMonoID[T](c, m.(g.Vector[T]), d.mono, d.mask(p))}
	case "sum":
		return []T{g.ReduceMatrixToScalar[T](c, m, d.mask(p))}
	case "vsum":
		return []T{g.ReduceVectorToScalar[T](c, m.(g.Vector[T]), d.mask(p))}
	case "m2v", "max":
		var v g.Vector[T]
		if p.K == "max" {
			v = g.ReduceMatrixToVector(c, m)
		} else {
			v = g.ReduceMatrixToVectorWithMonoID(c, m, d.mono, d.mask(p))
		}
		l := make([]T, v.Length())
		for i := range l {
			l[i] = v.AtVec(i)
		}
		return l
	}
	return []T{g.ReduceMatrixToScalarWithMonoID[T](c, m, d.mono, d.mask(p))}
}

// seqs gives what is folded, in order: one list, or one for each column.
func (d *rcEnv[T]) seqs(s *rcSpec, p *rcCall) (l [][]T, odd string) {
	x := cells[T](s.M[p.M])
	mask := func(r, c int) bool { return false }
	if p.Mask == 1 {
		if p.vector() {
			k := cells[T](s.VX[p.M])
			mask = func(r, c int) bool { return k.at(r, 0) > 0 }
		} else {
			k := cells[T](s.X[p.M])
			mask = func(r, c int) bool { return k.at(r, c) > 0 }
		}
	}
	list := func(it g.Enumerate[T], at func(r, c int) T, rows, cols int) []T {
		var o []T
		seen := map[[2]int]bool{}
		for it.HasNext() {
			r, c, v := it.Next()
			if r < 0 || c < 0 || r >= rows || c >= cols || seen[[2]int{r, c}] || !same(v, at(r, c)) {
				odd = fmt.Sprintf("the enumeration lists (%d,%d)=%v", r, c, v)
				return o
			}
			seen[[2]int{r, c}] = true
			if !mask(r, c) {
				o = append(o, v)
			}
		}
		for r := 0; r < rows; r++ {
			for c := 0; c < cols; c++ {
				if !seen[[2]int{r, c}] && at(r, c) != 0 {
					odd = fmt.Sprintf("the enumeration leaves out (%d,%d)=%v", r, c, at(r, c))
				}
			}
		}
		return o
	}
	if !p.vector() {
		return [][]T{list(d.m[p.M].Enumerate(), x.at, x.r, x.c)}, odd
	}
	for c := 0; c < x.c; c++ {
		l = append(l, list(d.m[p.M].ColumnsAt(c).Enumerate(), func(r, _ int) T { return x.at(r, c) }, x.r, 1))
	}
	return l, odd
}

func (s *rcSpec) monoid(p *rcCall) string {
	switch p.K {
	case "sum", "vsum":
		return "add"
	case "max":
		return "max"
	}
	return s.K
}

func rcRun[T wide](e *Env, s *rcSpec, mode string) {
	n := len(s.P)
	seqs := make([][][]T, n)
	alone := make([]sim.Result, n)
	var whole int64
	for i := range s.P {
		p := &s.P[i]
		var odd string
		quiet(func() { seqs[i], odd = rcBuild[T](s).seqs(s, p) })
		if odd != "" {
			e.Fail("enumeration", "%s matrix %v: %s", s.M[p.M].F, cells[T](s.M[p.M]), odd)
		}
		if mode == "cancel" {
			d := rcBuild[T](s)
			alone[i] = e.quietSim(SimOpts{}, func() {
				sim.Spawn(func() { try(func() { d.call(newCtx(), p) }) })
			})
			whole += alone[i].Steps
		}
	}
	boxes := make([]ctxBox, n)
	o := SimOpts{Handlers: map[string]func(string){"cancel": func(i string) { boxes[i[0]-'0'].strike("") }}}
	for i, p := range s.P {
		if mode == "cancel" && p.At >= 0 && p.At < 1000 {
			by, path := "0.0", fmt.Sprintf("0.%d", i)
			if k := fmt.Sprintf("0.0.%d", p.By-1); p.By > 0 && alone[i].TaskSteps[k] > 0 {
				by, path = k, fmt.Sprintf("0.%d.%d", i, p.By-1)
			}
			o.Faults = append(o.Faults, sim.Fault{T: path, N: 1 + int64(p.At)*alone[i].TaskSteps[by]/1000, Name: fmt.Sprintf("cancel:%d", i)})
		}
	}
	d := rcBuild[T](s)
	got := make([][]T, n)
	cancelled := make([]bool, n)
	errs := make([]caught, n)
	res := e.Sim(o, func() {
		for i := range s.P {
			i := i
			p := &s.P[i]
			sim.Spawn(func() {
				ctx := boxes[i].set(newCtx())
				if mode == "cancel" && p.At < 0 {
					ctx.Cancel()
				}
				errs[i] = try(func() { got[i] = d.call(ctx, p) })
				cancelled[i] = ctx.Struck()
			})
		}
	})
	if n > 1 {
		e.Probe("several reductions at once")
		e.NonTrivial()
	}
	for i := range s.P {
		p := &s.P[i]
		if p.Mask == 3 {
			e.Probe("mask of the wrong size")
			e.NonTrivial()
			if !errs[i].panicked && !(p.vector() && s.M[p.M].C == 0) {
				e.Fail("mask-accepted", "%s of a %dx%d matrix accepted a mask of the wrong size", p.K, s.M[p.M].R, s.M[p.M].C)
			}
			continue
		}
		if errs[i].panicked {
			e.Fail("panic", "%s of a %s matrix %v panics: %v", p.K, s.M[p.M].F, cells[T](s.M[p.M]), errs[i].val)
		}
		if len(got[i]) != len(seqs[i]) {
			e.Fail("shape", "%s of a %dx%d matrix gives %d values", p.K, s.M[p.M].R, s.M[p.M].C, len(got[i]))
		}
		k := s.monoid(p)
		cut := false
		for c, v := range got[i] {
			l := seqs[i][c]
			if len(l) > 1 {
				e.NonTrivial()
			}
			if same(v, foldOf(k, l)) {
				continue
			}
			cut = true
			if !cancelled[i] {
				e.Fail("wrong-fold", "%s (%s) of the elements %v in this order gives %v instead of %v (column %d; %s matrix %v, mask %d)", p.K, k, l, v, foldOf(k, l), c, s.M[p.M].F, cells[T](s.M[p.M]), p.Mask)
			}
			ok := false
			for q := range l {
				ok = ok || same(v, foldOf(k, l[:q]))
			}
			if !ok {
				e.Fail("not-prefix", "%s (%s), cancelled, of the elements %v in this order gives %v, the fold of no leading part (column %d)", p.K, k, l, v, c)
			}
		}
		if cancelled[i] {
			e.Probe("cancelled during or before the call")
			if cut {
				e.Probe("cut short")
			}
		}
	}
	for i := range s.M {
		if x, y := readGrid[T](d.m[i]), cells[T](s.M[i]); !x.eq(y) {
			e.Fail("operand-changed", "the operand was %v and is %v", y, x)
		}
	}
	if mode == "cancel" {
		if lim := 2*whole + 2000; res.Steps > lim {
			e.Fail("late-return", "took %d steps; uncancelled and alone they take %d", res.Steps, whole)
		}
	}
}
