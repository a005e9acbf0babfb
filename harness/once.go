package main

import (
	"context"
	"fmt"
	"sort"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/unaryop"
	"verifsim"
)

// calledOnce: the code that a call is given runs once for each element it is
// for, one at a time, and only while the call runs (C23).

type onCall struct {
	K    string `json:"k"`
	Op   opSpec `json:"op"`
	L    int    `json:"locked"` // which locked matrix (lupdate)
	R    int    `json:"r"`
	C    int    `json:"c"`
	X    int    `json:"ctx,omitempty"`
	W    int    `json:"wraps,omitempty"`
	Fail int    `json:"fail,omitempty"` // this call of its code panics
	N    int    `json:"n,omitempty"`    // the search stops at this level
	Mono int    `json:"mono,omitempty"` // calls of one number share a monoid
}

type onStrike struct {
	Task int `json:"task"` // which of the tasks, in order of their paths
	At   int `json:"at"`   // permille of its steps
	Ctx  int `json:"ctx"`
}

type onSpec struct {
	T string     `json:"type"`
	L []Mat      `json:"locked"`
	P [][]onCall `json:"programs"`
	F []onStrike `json:"strikes,omitempty"`
}

type calledOnce struct{}

func (calledOnce) New() any { return &onSpec{} }

var onKinds = []string{"lupdate", "lupdate", "lupdate", "update", "map", "map", "apply", "apply", "applyin", "applyin", "foldm", "foldv", "foldc", "bfs", "op", "strassen"}

func (calledOnce) Gen(r *sim.Rng, e *Env) any {
	s := &onSpec{T: pickType(r)}
	for i := 1 + r.Intn(2); i > 0; i-- {
		a, b := 1+r.Intn(3), 1+r.Intn(3)
		if r.Intn(250) == 0 {
			a, b = shape(r, 20)
		}
		s.L = append(s.L, genMat(r, pick(r, matFormats), a, b, density(r)))
	}
	max := 4
	switch x := r.Intn(40); {
	case x == 0:
		max = 10
	case x < 4:
		max = 7
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		var p []onCall
		for k := 1 + r.Intn(3); k > 0; k-- {
			p = append(p, genOnce(r, max))
		}
		s.P = append(s.P, p)
	}
	for k := r.Intn(4); k > 0; k-- {
		s.F = append(s.F, onStrike{r.Intn(12), r.Intn(1000), 1 + r.Intn(3)})
	}
	return s
}

func genOnce(r *sim.Rng, max int) onCall {
	c := onCall{K: pick(r, onKinds), L: r.Intn(2), R: r.Intn(max + 1), C: r.Intn(max + 1), Mono: r.Intn(2)}
	kind := []string{"apply"}
	if c.K == "op" {
		kind = outOps
	}
	c.Op = genOp(r, kind, max)
	if r.Intn(2) == 0 {
		c.X = 1 + r.Intn(3)
		c.W = r.Intn(3)
	}
	if r.Intn(5) == 0 {
		c.Fail = 1 + r.Intn(6)
	}
	c.N = 1 + r.Intn(max+2)
	if c.K == "lupdate" {
		c.R, c.C = r.Intn(3), r.Intn(3)
	}
	if c.K == "update" && r.Intn(8) > 0 {
		c.R, c.C = r.Intn(c.Op.A.R), r.Intn(c.Op.A.C)
	}
	if r.Intn(40) == 0 {
		c.R = wild(c.Op.A.R, r.Intn(32))
		if c.K == "lupdate" {
			c.R = -1 - r.Intn(2)
		}
	}
	return c
}

func (calledOnce) Run(e *Env, spec any) {
	s := spec.(*onSpec)
	if len(s.L) == 0 {
		s.L = []Mat{{F: "dense", R: 1, C: 1}}
	}
	for i := range s.L {
		mkMat(&s.L[i])
		s.L[i].norm()
		s.L[i].R, s.L[i].C = min(s.L[i].R, 80), min(s.L[i].C, 80)
	}
	s.P = s.P[:min(len(s.P), 5)]
	for i := range s.P {
		for k := range s.P[i] {
			c := &s.P[i][k]
			o := &c.Op
			switch c.K {
			case "op":
			case "applyin":
				o.K, o.Alias = "apply", "a"
			case "apply":
				o.K = "apply"
				if o.Alias != "" {
					o.Alias = ""
				}
			default:
				o.K, o.Alias = "apply", ""
			}
			o.norm(1200)
			switch c.K {
			case "foldv":
				mkVec(&o.A)
			case "foldm", "foldc":
				mkMat(&o.A)
			case "bfs", "strassen":
				mkMat(&o.A)
				n := min(o.A.R, 9)
				if c.K == "strassen" && n > 1 {
					n &^= 1
				}
				o.A.resize(n, n)
				o.B = o.A
			}
			o.A.norm()
			if c.K == "foldm" || c.K == "foldv" {
				o.fitMask(o.A.R, o.A.C)
			}
			if c.K == "foldc" {
				o.fitMask(o.A.R, 1)
			}
		}
	}
	switch s.T {
	case "float64":
		onRun[float64](e, s)
	case "int8":
		onRun[int8](e, s)
	case "uint16":
		onRun[uint16](e, s)
	default:
		onRun[int](e, s)
	}
}

// fitMask makes the mask, if any, a matrix of the size.
func (o *opSpec) fitMask(r, c int) {
	if o.Mask == "" {
		return
	}
	o.Mask = "matrix"
	if o.M.isVec() && c != 1 {
		mkMat(&o.M)
	}
	o.M.resize(r, c)
}

// onArgs are the arguments of one call of the code.
type onArgs[T Num] struct {
	r, c int
	a, b T
}

// onLog records what a call did with its code. Its fields are plain: whoever
// gives code to a call may count on its runs being ordered.
type onLog[T Num] struct {
	open, busy bool
	bad        string
	in         []onArgs[T]
}

func (l *onLog[T]) enter(a onArgs[T]) {
	if !l.open && l.bad == "" {
		l.bad = "while the call does not run"
	}
	if l.busy && l.bad == "" {
		l.bad = "while an earlier run of it goes on"
	}
	l.busy = true
	l.in = append(l.in, a)
	sim.Yield()
}

func (l *onLog[T]) leave() { l.busy = false }

type onBoom struct{ n int }

type onState[T Num] struct {
	spec   *onCall
	log    *onLog[T]
	x      *opInst[T]
	ctx    context.Context
	c      *sim.Ctx
	err    caught
	ran    bool
	cut    bool
	within T // what the fold gave
}

// onWorld is what the calls of a run share.
type onWorld[T Num] struct {
	mats   []Mat
	locked []*g.MutexMatrix[T]
	inLock []*onLog[T] // the updates of each, whosever they are
}

func onMake[T Num](s *onSpec) *onWorld[T] {
	w := &onWorld[T]{mats: s.L}
	for _, m := range s.L {
		w.locked = append(w.locked, g.NewMutexMatrix(build[T](m)))
		w.inLock = append(w.inLock, &onLog[T]{open: true})
	}
	return w
}

// onFold is the operator of the folds.
func onFold[T Num](a, b T) T { return a*3 + b }

// call runs one call.
func (w *onWorld[T]) call(st *onState[T]) {
	s := st.spec
	l := st.log
	code := func(a onArgs[T]) {
		l.enter(a)
		if len(l.in) == s.Fail {
			panic(onBoom{s.Fail})
		}
	}
	f := unary[T](s.Op.U)
	one := func(v T) T {
		defer l.leave()
		code(onArgs[T]{a: v})
		return f(v)
	}
	mono := binaryop.NewMonoID[T](1, binaryop.NewBinaryOp(func(a, b T) T {
		defer l.leave()
		l.enter(onArgs[T]{a: a, b: b})
		return onFold(a, b)
	}))
	x := st.x
	mask := x.mask
	seen := func() {
		if !l.open && l.bad == "" {
			l.bad = "(a mask or an operand) while the call does not run"
		}
	}
	if mask != nil {
		mask = cbMask{mask, seen}
	}
	var a g.Matrix[T] = x.a
	if !s.Op.A.isVec() {
		a = &cbMat[T]{x.a, seen}
	}
	l.open = true
	defer func() { l.open = false }()
	switch s.K {
	case "lupdate":
		k := mod(s.L, len(w.locked))
		lk := w.inLock[k]
		w.locked[k].Update(s.R, s.C, func(v T) T {
			lk.enter(onArgs[T]{})
			defer lk.leave()
			return one(v)
		})
	case "update":
		x.a.Update(s.R, s.C, one)
	case "map":
		for it := x.a.Map(); it.HasNext(); {
			it.Map(func(r, c int, v T) T {
				defer l.leave()
				code(onArgs[T]{r: r, c: c, a: v})
				return f(v)
			})
		}
	case "apply", "applyin":
		g.Apply[T](st.ctx, x.a, mask, unaryop.NewUnaryOp(one), x.out)
	case "foldm":
		st.within = g.ReduceMatrixToScalarWithMonoID[T](st.ctx, a, mono, mask)
	case "foldv":
		st.within = g.ReduceVectorToScalarWithMonoID[T](st.ctx, x.a.(g.Vector[T]), mono, mask)
	case "foldc":
		g.ReduceMatrixToVectorWithMonoID[T](st.ctx, a, mono, mask)
	case "bfs":
		breadthfirst.Search[T](st.ctx, a, mod(s.R, s.Op.A.R), func(v g.Vector[T]) bool {
			defer l.leave()
			code(onArgs[T]{})
			return len(l.in) == s.N
		})
	case "strassen":
		strassen.MultiplyCrossoverPoint[T](st.ctx, a, &cbMat[T]{x.b, seen}, 1+mod(s.C, 3))
	default:
		y := *x
		y.mask = mask
		if s.Op.Alias == "" && !s.Op.A.isVec() {
			y.a = a
		}
		y.run(st.ctx)
	}
}

// expected is what the code must be called with, in any order; ok tells
// whether the call knows.
func (w *onWorld[T]) expected(s *onCall) (l []onArgs[T], ok bool) {
	x := newOp[T](&s.Op)
	masked := func(r, c int) bool { return x.mask != nil && x.mask.Element(r, c) }
	switch s.K {
	case "lupdate", "update":
		m := s.Op.A
		if s.K == "lupdate" {
			m = w.mats[mod(s.L, len(w.mats))]
		}
		if s.R >= 0 && s.C >= 0 && s.R < m.R && s.C < m.C {
			l = append(l, onArgs[T]{a: cells[T](m).at(s.R, s.C)})
		}
	case "map":
		for it := x.a.Enumerate(); it.HasNext(); {
			r, c, v := it.Next()
			l = append(l, onArgs[T]{r: r, c: c, a: v})
		}
	case "apply", "applyin":
		for it := x.a.Enumerate(); it.HasNext(); {
			r, c, v := it.Next()
			if !masked(r, c) {
				l = append(l, onArgs[T]{a: v})
			}
		}
	case "foldm", "foldv", "foldc":
		fold := func(it g.Enumerate[T]) {
			acc := T(1)
			for it.HasNext() {
				r, c, v := it.Next()
				if !masked(r, c) {
					l = append(l, onArgs[T]{a: acc, b: v})
					acc = onFold(acc, v)
				}
			}
		}
		if s.K != "foldc" {
			fold(x.a.Enumerate())
			break
		}
		for c := 0; c < x.a.Columns(); c++ {
			fold(x.a.ColumnsAt(c).Enumerate())
		}
	case "bfs":
		for i := 0; i < min(s.N, x.a.Rows()); i++ {
			l = append(l, onArgs[T]{})
		}
	default:
		return nil, false
	}
	return l, true
}

func onText[T Num](l []onArgs[T]) []string {
	var t []string
	for _, a := range l {
		t = append(t, fmt.Sprintf("%d,%d:%v,%v", a.r, a.c, a.a+0, a.b+0))
	}
	sort.Strings(t)
	return t
}

// partOf says whether a is part of b, both sorted.
func partOf(a, b []string) bool {
	i := 0
	for _, x := range b {
		if i < len(a) && a[i] == x {
			i++
		}
	}
	return i == len(a)
}

func onRun[T Num](e *Env, s *onSpec) {
	type made struct {
		w   *onWorld[T]
		st  [][]*onState[T]
		ctx []*sim.Ctx
	}
	mk := func() *made {
		m := &made{w: onMake[T](s), ctx: nsCtxs()}
		for i := range s.P {
			var l []*onState[T]
			for k := range s.P[i] {
				c := &s.P[i][k]
				st := &onState[T]{spec: c, log: &onLog[T]{}, x: newOp[T](&c.Op), ctx: idleCtx()}
				if c.X > 0 {
					st.c = m.ctx[mod(c.X-1, 3)]
					st.ctx = wrapCtx(st.c, c.W)
				}
				l = append(l, st)
			}
			m.st = append(m.st, l)
		}
		return m
	}
	var boxes [3]ctxBox
	run := func(m *made) func() {
		return func() {
			for i := range boxes {
				boxes[i].set(m.ctx[i])
			}
			var wg sim.WaitGroup
			for _, p := range m.st {
				p := p
				wg.Add(1)
				sim.Spawn(func() {
					defer wg.Done()
					for _, st := range p {
						sim.Yield()
						st.ran = true
						st.err = try(func() { m.w.call(st) })
						st.cut = st.c != nil && st.c.Struck()
					}
				})
			}
			wg.Wait()
		}
	}
	var first *made
	quiet(func() { first = mk() })
	o := SimOpts{Handlers: map[string]func(string){"cancel": func(i string) { boxes[i[0]-'0'].strike("") }}}
	if len(s.F) > 0 {
		steps := e.quietSim(SimOpts{}, run(first)).TaskSteps
		quiet(func() { first = mk() })
		paths := sortedKeys(steps)
		for _, f := range s.F {
			t := paths[mod(f.Task, len(paths))]
			o.Faults = append(o.Faults, sim.Fault{T: t, N: int64(f.At) * steps[t] / 1000, Name: fmt.Sprintf("cancel:%d", mod(f.Ctx-1, 3))})
		}
	}
	e.Sim(o, run(first))
	for i, l := range first.w.inLock {
		if l.bad != "" {
			e.Fail("at-once", "an update function of locked matrix %d runs %s", i, l.bad)
		}
		if l.busy {
			e.Fail("at-once", "an update function of locked matrix %d never ended", i)
		}
	}
	for i, p := range first.st {
		for k, st := range p {
			c := st.spec
			name := fmt.Sprintf("call %d.%d (%s)", i, k, c.K)
			e.stats.Probes["op:"+c.K]++
			l := st.log
			if l.bad != "" {
				e.Fail("outside", "%s: the code given to it runs %s", name, l.bad)
			}
			if len(l.in) > 0 {
				e.NonTrivial()
			}
			if st.cut {
				e.Probe("cancelled calls")
			}
			var want []onArgs[T]
			ok := false
			quiet(func() { want, ok = onMake[T](s).expected(c) })
			if !ok {
				continue
			}
			if st.err.panicked {
				if b, ok := st.err.val.(onBoom); ok {
					e.Probe("code that panics")
					if len(l.in) != b.n {
						e.Fail("after-panic", "%s: its code ran %d times and panicked at the run %d", name, len(l.in), b.n)
					}
				} else if c.K != "lupdate" && c.K != "update" || len(want) > 0 {
					e.Fail("panic", "%s panics: %v", name, st.err.val)
				} else {
					e.Probe("invalid index")
				}
			}
			if c.K == "lupdate" {
				// the element may have changed meanwhile
				n := len(want)
				want = append([]onArgs[T]{}, l.in...)
				if len(want) != n {
					e.Fail("times", "%s at (%d,%d) of a %dx%d matrix: its function ran %d times", name, c.R, c.C, s.L[mod(c.L, len(s.L))].R, s.L[mod(c.L, len(s.L))].C, len(l.in))
				}
				continue
			}
			a, b := onText(l.in), onText(want)
			if !partOf(a, b) {
				e.Fail("arguments", "%s: its code ran with %v; it is for %v (%s, mask %q %v)", name, a, b, cells[T](c.Op.A), c.Op.Mask, c.Op.M)
			}
			if len(a) == len(b) || st.err.panicked {
				continue
			}
			if !st.cut || c.K == "update" || c.K == "map" || c.K == "bfs" {
				e.Fail("times", "%s: its code ran with %v only; it is for %v (%s, mask %q %v)", name, a, b, cells[T](c.Op.A), c.Op.Mask, c.Op.M)
			}
			e.Probe("cut short")
			if c.K == "foldm" || c.K == "foldv" {
				acc := T(1)
				for _, x := range l.in {
					acc = onFold(acc, x.b)
				}
				if acc != st.within {
					e.Fail("fold", "%s, cancelled: its operator ran with %v, and the result is %v", name, l.in, st.within)
				}
			}
		}
	}
}
