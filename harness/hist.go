package main

import (
	"context"
	"fmt"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/unaryop"
	"verifsim"
)

// hist: histories of operations on a pool of structures, some of them cut
// short; every structure stays well formed, and an operation that is not cut
// does what it does on fresh structures with the same elements (C18).

type hsStep struct {
	K   string `json:"k"`
	A   int    `json:"a"`
	B   int    `json:"b"`
	O   int    `json:"o"`
	X   int    `json:"mask"` // 0 none, else a structure
	R   int    `json:"r"`
	C   int    `json:"c"`
	V   int    `json:"v"`
	W   int    `json:"w,omitempty"`   // which index out of range
	Bad int    `json:"bad,omitempty"` // an index out of range, or a mask or operand of the wrong size
	Cut string `json:"cut,omitempty"` // cancel, panic
	At  int    `json:"at"`            // per mille of the operation
}

type hsSpec struct {
	T string   `json:"type"`
	M []Mat    `json:"matrices"` // all n x n
	V []Mat    `json:"vectors"`  // all of length n
	S []hsStep `json:"steps"`
}

type hist struct{}

var hsOps = []string{"set", "set", "set", "zero", "zero", "update", "update", "clear", "map", "map", "vset", "vset", "vzero", "vupdate", "vmap", "vclear",
	"mxm", "mxv", "vxm", "ewmm", "ewvm", "add", "add", "sub", "sub", "ewma", "ewva", "apply", "apply", "applyin", "neg", "trans", "vadd", "vsub", "vapply", "vapplyin", "vneg",
	"scalar", "tcsr", "tcsc", "copy", "vcopy", "vscalar", "msub", "madd", "mneg", "setvec", "setp", "resize", "updp"}

// hsRect is what can be done with matrices of any one size.
var hsRect = []string{"set", "set", "zero", "update", "setp", "clear", "clear", "map", "add", "sub", "apply", "applyin", "neg", "scalar", "copy", "madd", "msub", "mneg",
	"vset", "vzero", "vadd", "vsub", "vneg", "vmap", "vclear", "vcopy", "ewvm", "ewva"}

func (hist) New() any { return &hsSpec{} }
func (hist) Gen(r *sim.Rng, e *Env) any {
	s := &hsSpec{T: pickType(r)}
	n := 1 + r.Intn(5)
	if r.Intn(12) == 0 {
		n = 6 + r.Intn(5)
	}
	cols := n
	rect := r.Intn(3) == 0
	if rect {
		cols = 1 + r.Intn(6)
	}
	if r.Intn(300) == 0 {
		rect = true
		n, cols = 17+r.Intn(130), 1+r.Intn(2)
		if r.Intn(3) == 0 {
			n, cols = cols, n
		} else if r.Intn(4) == 0 {
			n, cols = 33+r.Intn(3), 32+r.Intn(3)
		}
	}
	for _, f := range append([]string{"dense", "csr", "csc"}, pick(r, matFormats)) {
		if r.Intn(5) > 0 || len(s.M) == 0 {
			s.M = append(s.M, genMat(r, f, n, cols, density(r)))
		}
	}
	s.V = append(s.V, genMat(r, "svec", n, 1, density(r)))
	if r.Intn(2) == 0 {
		s.V = append(s.V, genMat(r, "dvec", n, 1, density(r)))
	}
	focus := r.Intn(3) == 0
	kinds := hsOps
	if focus {
		// element changes on one structure
		kinds = []string{"set", "zero", "update", "map", "vset", "vzero", "vupdate", "vmap", "applyin", "setvec", "setp", "updp"}
	}
	if rect && !focus {
		// most of what else there is needs square matrices
		kinds = append([]string{}, hsRect...)
		if r.Intn(4) == 0 {
			kinds = append(kinds, "trans", "tcsr", "tcsc", "mxm", "mxv")
		}
	}
	steps := 2 + r.Intn(12)
	if r.Intn(30) == 0 {
		steps = 14 + r.Intn(50)
	}
	for k := steps; k > 0; k-- {
		x := hsStep{K: pick(r, kinds), A: r.Intn(8), B: r.Intn(8), O: r.Intn(8), R: r.Intn(n), C: r.Intn(cols), V: genVal(r), At: r.Intn(1000)}
		if focus && r.Intn(3) > 0 {
			x.O, x.A = 0, 0
		}
		if r.Intn(4) == 0 {
			x.X = 1 + r.Intn(8)
		}
		switch r.Intn(3) {
		case 0:
			x.Cut = "cancel"
		case 1:
			x.Cut = "panic"
		}
		if r.Intn(10) == 0 {
			x.Bad, x.W = 1+r.Intn(4), r.Intn(32)
			if r.Intn(4) > 0 {
				x.Cut = ""
			}
		}
		s.S = append(s.S, x)
	}
	return s
}

func (s *hsSpec) norm() {
	if len(s.M) == 0 {
		s.M = []Mat{{F: "dense", R: 1, C: 1}}
	}
	n, cols := clamp(s.M[0].R, 1, 150), clamp(s.M[0].C, 1, 150)
	if n*cols > 300 {
		n, cols = min(n, 10), min(cols, 10)
	}
	if len(s.V) == 0 {
		s.V = []Mat{{F: "svec", R: n, C: 1}}
	}
	for i := range s.M {
		mkMat(&s.M[i])
		s.M[i].resize(n, cols)
	}
	for i := range s.V {
		mkVec(&s.V[i])
		s.V[i].resize(n, 1)
	}
	for i := range s.S {
		x := &s.S[i]
		x.R, x.C = mod(x.R, n), mod(x.C, cols)
	}
}

func (hist) Run(e *Env, spec any) {
	s := spec.(*hsSpec)
	s.norm()
	switch s.T {
	case "float64":
		hsRun[float64](e, s)
	case "int8":
		hsRun[int8](e, s)
	case "uint16":
		hsRun[uint16](e, s)
	default:
		hsRun[int](e, s)
	}
}

// pool is the live structures with their formats.
type pool[T Num] struct {
	m, v   []g.Matrix[T]
	fm, fv []string
}

func (p *pool[T]) fresh() *pool[T] {
	q := &pool[T]{fm: append([]string{}, p.fm...), fv: append([]string{}, p.fv...)}
	for i, m := range p.m {
		q.m = append(q.m, fromGrid(p.fm[i], readGrid[T](m)))
	}
	for i, m := range p.v {
		q.v = append(q.v, fromGrid(p.fv[i], readGrid[T](m)))
	}
	return q
}

func (p *pool[T]) String() string {
	t := ""
	for i, m := range p.m {
		t += fmt.Sprintf(" %s%v", p.fm[i], readGrid[T](m))
	}
	for i, m := range p.v {
		t += fmt.Sprintf(" %s%v", p.fv[i], readGrid[T](m))
	}
	return t
}

// bomb makes a callback panic at its at-th call; calls counts them.
type bomb struct {
	calls, at int
}

type bombValue struct{ n int }

func (b *bomb) tick() {
	b.calls++
	if b.calls == b.at {
		panic(bombValue{b.at})
	}
}

type bombMask struct {
	g.Mask
	b *bomb
}

func (m *bombMask) Element(r, c int) bool {
	m.b.tick()
	return m.Mask.Element(r, c)
}

// do makes the step; out describes what the call gave back.
func (p *pool[T]) do(ctx context.Context, x *hsStep, b *bomb) (resp string) {
	vec := x.K[0] == 'v' && x.K != "vxm"
	M := func(i int) g.Matrix[T] { return p.m[mod(i, len(p.m))] }
	V := func(i int) g.Vector[T] { return p.v[mod(i, len(p.v))].(g.Vector[T]) }
	a, bb, o := M(x.A), M(x.B), M(x.O)
	if vec {
		a, bb, o = V(x.A), V(x.B), V(x.O)
		x = &hsStep{K: x.K[1:], A: x.A, B: x.B, O: x.O, X: x.X, R: x.R, C: 0, V: x.V, Bad: x.Bad, W: x.W}
	}
	var mask g.Mask
	if x.X > 0 {
		k := g.Mask(M(x.X))
		if vec || x.K == "mxv" || x.K == "vxm" || x.K == "ewvm" || x.K == "ewva" {
			k = V(x.X)
		}
		// a mask that is the output would change while it is obeyed
		if k == g.Mask(o) || k == g.Mask(V(x.O)) {
			k = nil
		}
		if k != nil {
			mask = &bombMask{k, b}
		}
	}
	if x.Bad > 0 {
		t := *x
		x = &t
		out := o
		if x.K == "mxv" || x.K == "vxm" || x.K == "ewvm" || x.K == "ewva" {
			out = V(x.O)
		}
		dr, dc := (x.Bad&1)*(1-x.Bad&2), (1-x.Bad&1)*(1-x.Bad&2)
		switch x.K {
		case "set", "zero", "update", "setp", "updp", "setvec":
			if dr != 0 || x.K == "setvec" {
				x.R = wild(o.Rows(), x.W)
				if x.K == "setvec" {
					x.R = wild(V(x.O).Length(), x.W)
				}
			} else {
				x.C = wild(o.Columns(), x.W)
			}
		case "add", "sub", "madd", "msub":
			if mask == nil || x.K[0] == 'm' {
				bb = g.NewDenseMatrixN[T](max(bb.Rows()+dr, 0), max(bb.Columns()+dc, 0))
				break
			}
			fallthrough
		default:
			mask = &bombMask{g.NewEmptyMask(max(out.Rows()+dr, 0), max(out.Columns()+dc, 0)), b}
		}
	}
	f := unary[T](x.V)
	u := unaryop.NewUnaryOp(func(v T) T { b.tick(); return f(v) })
	up := func(v T) T { b.tick(); return f(v) }
	put := func(m g.Matrix[T], f string) {
		if vec {
			i := mod(x.O, len(p.v))
			p.v[i], p.fv[i] = m, f
		} else {
			i := mod(x.O, len(p.m))
			p.m[i], p.fm[i] = m, f
		}
	}
	fa := p.fm[mod(x.A, len(p.m))]
	if vec {
		fa = p.fv[mod(x.A, len(p.v))]
	}
	switch x.K {
	case "set":
		o.Set(x.R, x.C, num[T](x.V))
	case "zero":
		o.Set(x.R, x.C, 0)
	case "setvec":
		V(x.O).SetVec(x.R, num[T](x.V))
	case "update":
		o.Update(x.R, x.C, up)
	case "setp", "updp":
		// the compressed formats say where the element is
		type pointers interface {
			SetReturnPointer(r, c int, v T) (int, int)
			UpdateReturnPointer(r, c int, f func(T) T) (int, int)
		}
		if q, ok := o.(pointers); !ok {
			o.Set(x.R, x.C, num[T](x.V))
		} else if x.K == "setp" {
			q.SetReturnPointer(x.R, x.C, num[T](x.V))
		} else {
			q.UpdateReturnPointer(x.R, x.C, up)
		}
	case "resize":
		if q, ok := p.v[mod(x.O, len(p.v))].(*g.DenseVectorNumber[T]); ok {
			q.ReSize(1 + x.R)
		}
	case "clear":
		o.Clear()
	case "map":
		for it := o.Map(); it.HasNext(); {
			it.Map(func(r, c int, v T) T { return up(v) })
		}
	case "mxm":
		g.MatrixMatrixMultiply(ctx, a, bb, mask, o)
	case "mxv":
		g.MatrixVectorMultiply(ctx, a, V(x.B), mask, V(x.O))
	case "vxm":
		g.VectorMatrixMultiply(ctx, V(x.B), a, mask, V(x.O))
	case "ewmm":
		g.ElementWiseMatrixMultiply(ctx, a, bb, mask, o)
	case "ewvm":
		g.ElementWiseVectorMultiply(ctx, V(x.A), V(x.B), mask, V(x.O))
	case "ewma":
		g.ElementWiseMatrixAdd(ctx, a, bb, mask, o)
	case "ewva":
		g.ElementWiseVectorAdd(ctx, V(x.A), V(x.B), mask, V(x.O))
	case "add":
		g.Add(ctx, a, bb, mask, o)
	case "sub":
		g.Subtract(ctx, a, bb, mask, o)
	case "apply":
		g.Apply(ctx, a, mask, u, o)
	case "applyin":
		g.Apply(ctx, o, mask, u, o)
	case "neg":
		g.Negative(ctx, a, mask, o)
	case "trans":
		if a != o {
			g.Transpose[T](ctx, a, mask, o)
		}
	case "scalar":
		put(g.Scalar(ctx, a, num[T](x.V)), fa)
	case "tcsr":
		put(g.TransposeToCSR(ctx, a), "csr")
	case "tcsc":
		put(g.TransposeToCSC(ctx, a), "csc")
	case "copy":
		put(a.Copy(), fa)
	case "madd":
		put(a.Add(bb), "")
	case "msub":
		put(a.Subtract(bb), "")
	case "mneg":
		if m, ok := a.Negative().(g.Matrix[T]); ok {
			put(m, "")
		}
	}
	for i := range p.fm {
		if p.fm[i] == "" {
			p.fm[i] = formatOf[T](p.m[i])
		}
	}
	return
}

// formatOf tells the storage format of a matrix by its type.
func formatOf[T Num](m g.Matrix[T]) string {
	switch m.(type) {
	case *g.CSRMatrix[T]:
		return "csr"
	case *g.CSCMatrix[T]:
		return "csc"
	case *g.SparseVector[T]:
		return "svec"
	case *g.DenseVectorNumber[T]:
		return "dvec"
	}
	return "dense"
}

func (p *pool[T]) malformed() string {
	for i, m := range p.m {
		if t := wellFormed[T](m, p.fm[i] != "dense"); t != "" {
			return fmt.Sprintf("matrix %d (%s): %s", i, p.fm[i], t)
		}
	}
	for i, m := range p.v {
		if t := wellFormed[T](m, p.fv[i] == "svec"); t != "" {
			return fmt.Sprintf("vector %d (%s): %s", i, p.fv[i], t)
		}
	}
	return ""
}

func (p *pool[T]) large() bool {
	for _, l := range [][]g.Matrix[T]{p.m, p.v} {
		for _, m := range l {
			for _, v := range readGrid[T](m).v {
				if float64(v) > 1e12 || float64(v) < -1e12 {
					return true
				}
			}
		}
	}
	return false
}

func hsRun[T Num](e *Env, s *hsSpec) {
	p := &pool[T]{}
	for _, m := range s.M {
		p.m, p.fm = append(p.m, build[T](m)), append(p.fm, m.F)
	}
	for _, m := range s.V {
		p.v, p.fv = append(p.v, build[T](m)), append(p.fv, m.F)
	}
	if len(s.S) > 64 {
		s.S = s.S[:64]
	}
	text := ""
	cuts := 0
	for i := range s.S {
		x := &s.S[i]
		before := p.String()
		// on fresh structures: how long, how many callbacks, what it gives
		var ref *pool[T]
		var first, last int64
		rb := &bomb{}
		var refErr caught
		e.quietSim(SimOpts{}, func() {
			ref = p.fresh()
			ctx := idleCtx()
			first = sim.Steps()
			refErr = try(func() { ref.do(ctx, x, rb) })
			last = sim.Steps()
		})
		b := &bomb{}
		var box ctxBox
		o := SimOpts{Quiet: true}
		switch x.Cut {
		case "cancel":
			at := 1 + int64(x.At)*(last-first+1)/1000
			o.Faults = []sim.Fault{{T: "0", N: at, Name: "cancel"}}
			o.Handlers = map[string]func(string){"cancel": box.strike}
		case "panic":
			if rb.calls > 0 {
				b.at = 1 + x.At*rb.calls/1000
			}
		}
		var done caught
		var cut bool
		e.Sim(o, func() {
			ctx := box.set(newCtx())
			done = try(func() { p.do(ctx, x, b) })
			cut = ctx.Struck()
		})
		now := ""
		quiet(func() { now = p.String() })
		text += fmt.Sprintf("\n  %s(out %d, operands %d %d, mask %d, cell %d %d, value %d) %s", x.K, x.O, x.A, x.B, x.X, x.R, x.C, x.V, x.Cut)
		if x.Bad > 0 {
			text += fmt.Sprintf(" wrong index or size %d", x.Bad)
		}
		if b.at > 0 {
			e.stats.Faults["panic"]++
			cuts++
			e.NonTrivial()
			if v, ok := done.val.(bombValue); !done.panicked || !ok || v.n != b.at {
				e.Fail("panic-lost", "%s: a callback panicked at call %d of %d; the caller got %v", x.K, b.at, rb.calls, done.val)
			}
		} else if done.panicked != refErr.panicked && !(cut && !done.panicked) {
			e.Fail("usable", "%s on%s gives panic %v; on fresh structures with the same elements %v; history:%s", x.K, before, done.val, refErr.val, text)
		}
		if cut {
			cuts++
			e.NonTrivial()
			e.Probe("cancelled")
		}
		bad := ""
		quiet(func() { bad = p.malformed() })
		if bad != "" {
			e.Fail("malformed", "after%s\nfrom%s: %s", text, before, bad)
		}
		if b.at == 0 && !cut {
			if cuts > 0 {
				e.Probe("whole operations after an interruption")
			}
			want := ""
			quiet(func() { want = ref.String() })
			if now != want {
				e.Fail("differs", "%s on%s leaves%s; on fresh structures with the same elements%s; history:%s", x.K, before, now, want, text)
			}
		}
		if x.Bad > 0 && b.at == 0 && done.panicked {
			e.Probe("calls rejected for an index or a size")
			if now != before {
				e.Fail("rejected-changes", "%s rejected with %v on%s leaves%s; history:%s", x.K, done.val, before, now, text)
			}
		}
		big := false
		quiet(func() { big = p.large() })
		if big {
			break
		}
	}
}
