package main

import (
	"context"
	"fmt"
	"strings"

	g "github.com/rossmerr/graphblas"
	"verifsim"
)

// nest: the caller's code that a call is given (operators, masks, operands,
// callbacks) calls the library itself (C21); and calls of which some are
// cancelled under contexts of their own or fail (C22).

// cbMask and cbMat are a mask and an operand that run the caller's code.
type cbMask struct {
	g.Mask
	cb func()
}

func (m cbMask) Element(r, c int) bool { m.cb(); return m.Mask.Element(r, c) }

type cbMat[T Num] struct {
	g.Matrix[T]
	cb func()
}

func (m *cbMat[T]) At(r, c int) T                     { m.cb(); return m.Matrix.At(r, c) }
func (m *cbMat[T]) RowsAt(r int) g.VectorLogial[T]    { m.cb(); return m.Matrix.RowsAt(r) }
func (m *cbMat[T]) ColumnsAt(c int) g.VectorLogial[T] { m.cb(); return m.Matrix.ColumnsAt(c) }
func (m *cbMat[T]) Enumerate() g.Enumerate[T]         { m.cb(); return m.Matrix.Enumerate() }

type nsOp struct {
	rdOp
	At   int    `json:"at,omitempty"`   // called at this call of the outer call's code
	Par  int    `json:"par,omitempty"`  // 1 in a goroutine waited for there, 2 waited for at the end
	X    int    `json:"ctx,omitempty"`  // its context, 0 that is never cancelled
	Wctx int    `json:"wctx,omitempty"` // wrapped so many times
	Fail int    `json:"fail,omitempty"` // this call of its code panics
	Wrap int    `json:"wrap,omitempty"`
	Rep  int    `json:"repeated,omitempty"` // made so many times more
	Sub  []nsOp `json:"sub,omitempty"`
}

type nsStrike struct {
	Client int `json:"client"`
	At     int `json:"at"` // permille of the client's steps
	Ctx    int `json:"ctx"`
}

type nsSpec struct {
	rdSpec
	Q []([]nsOp) `json:"programs"`
	F []nsStrike `json:"strikes,omitempty"`

	few []string // the kinds of calls to generate, if not all
}

// nest is the scenario; own: contexts of their own and failures as well.
type nest struct{ own bool }

var nsOuter = []string{"apply", "applyin", "update", "vupdate", "map", "vmap", "foldm", "foldshared", "foldv", "foldcols", "lockupdate", "lockmul",
	"bfs", "mxm", "mxv", "vxm", "ewmm", "ewma", "add", "sub", "neg", "trans", "reduce", "reducecols", "vewm", "vewa", "vreduce", "strassen", "tcsr", "scalar", "equal", "madd", "mmul"}
var nsBad = []string{"badadd", "badaddc", "badsub", "badsubc", "badmul", "badewmm", "badewma", "badmadd", "badmaddc", "badmsub", "badmsubc", "badmmul", "badstrassen", "badvec", "badvmul", "badmxv",
	"badat", "badvat", "badrow", "badcol", "badarr", "badset", "badsetc", "badupdate", "badvset", "badvupdate"}

// nsHelper are the calls that run their code on goroutines of the library.
var nsHelper = map[string]bool{"foldm": true, "foldshared": true, "foldv": true, "foldcols": true, "reduce": true, "reducemax": true, "reducevec": true, "reducecols": true, "vreduce": true, "strassen": true}

// nsLight are those that large structures are used with.
var nsLight = []string{"apply", "applyin", "update", "vupdate", "map", "vmap", "foldm", "foldshared", "foldv", "foldcols", "ewmm", "ewma", "add", "sub", "neg", "trans", "reduce", "reducecols", "vewm", "vewa", "vreduce", "scalar", "equal", "madd"}

func nsIsLight(l []nsOp) bool {
	for _, o := range l {
		ok := false
		for _, k := range nsLight {
			ok = ok || o.K == k
		}
		if !ok || !nsIsLight(o.Sub) {
			return false
		}
	}
	return true
}

func (nest) New() any { return &nsSpec{} }

func (h nest) genOp(r *sim.Rng, s *nsSpec, n, depth int, left *int) nsOp {
	kinds := [][]string{nsOuter, nsOuter, rdMat, rdVec, rdText}[r.Intn(5)]
	if depth == 0 && !h.own {
		kinds = nsOuter
	}
	if n > 8 {
		kinds = nsLight
		if len(s.few) > 0 {
			kinds = s.few
		}
	}
	if h.own && r.Intn(12) == 0 {
		kinds = nsBad
	}
	o := nsOp{rdOp: rdOp{K: pick(r, kinds), S: r.Intn(len(s.M)), O: r.Intn(len(s.M)), R: r.Intn(n), C: r.Intn(n), V: r.Intn(6), F: pick(r, matFormats), Mask: 1 + r.Intn(2), N: 1}}
	if r.Intn(4) == 0 {
		o.Mask = 0
	}
	if r.Intn(4) == 0 {
		o.Wrap = 1 + r.Intn(3)
	}
	if h.own {
		o.X = r.Intn(4)
		o.Wctx = []int{0, 0, 0, 1, 2}[r.Intn(5)]
		if r.Intn(5) == 0 {
			o.Fail = 1 + r.Intn(6)
		}
		if r.Intn(16) == 0 {
			o.Mask = 3 + r.Intn(2)
		}
	}
	if h.own && n <= 4 && r.Intn(60) == 0 {
		// many calls that fail, or are cancelled, one after the other
		o.Rep = 70 + r.Intn(200)
		switch r.Intn(4) {
		case 0:
			o.K = pick(r, nsBad)
		case 1, 2:
			o.K = pick(r, []string{"reduce", "foldm", "apply", "add", "foldcols", "mxm", "reducemax"})
			o.Mask = 3 + r.Intn(2)
		default:
			o.Fail = 1
		}
		return o
	}
	if depth < 3 {
		k := 1 + r.Intn(2)
		if h.own || depth > 0 {
			k = r.Intn(2)
		}
		for ; k > 0 && *left > 0; k-- {
			*left--
			x := h.genOp(r, s, n, depth+1, left)
			x.At = 1 + r.Intn(1+r.Intn(5))
			x.Par = []int{0, 0, 1, 2}[r.Intn(4)]
			if r.Intn(4) == 0 {
				// the same call within itself
				x.K, x.Mask, x.Wrap = o.K, o.Mask, o.Wrap
			}
			o.Sub = append(o.Sub, x)
		}
	}
	return o
}

func (h nest) Gen(r *sim.Rng, e *Env) any {
	s := &nsSpec{}
	s.T = pickType(r)
	n := 1 + r.Intn(4)
	if r.Intn(60) == 0 {
		n = 5 + r.Intn(4)
	}
	large := r.Intn(150) == 0
	if large {
		n = []int{13, 17, 33, 33}[r.Intn(4)] + r.Intn(3)
		if r.Intn(3) > 0 {
			s.few = []string{pick(r, nsLight), pick(r, nsLight)}[:1+r.Intn(2)]
		}
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		s.M = append(s.M, genMat(r, pick(r, matFormats), n, n, density(r)))
		s.V = append(s.V, genMat(r, pick(r, vecFormats), n, 1, density(r)))
		s.rdSpec.X = append(s.rdSpec.X, genRune(r, pick(r, formats), n, 1+r.Intn(3)))
	}
	s.K = genMat(r, pick(r, matFormats), n, n, 4)
	if r.Intn(24) == 0 && !large {
		h.genCrowd(r, s, n)
		return s
	}
	left := 6
	if large {
		left = 2
	}
	c := 1 + r.Intn(2)
	if h.own {
		c = 2 + r.Intn(2)
	}
	for i := 0; i < c; i++ {
		var p []nsOp
		for k := 1 + r.Intn(2+btoi(h.own)); k > 0; k-- {
			p = append(p, h.genOp(r, s, n, 0, &left))
		}
		s.Q = append(s.Q, p)
	}
	if h.own {
		for k := r.Intn(4); k > 0; k-- {
			s.F = append(s.F, nsStrike{r.Intn(c), r.Intn(1000), 1 + r.Intn(3)})
		}
	}
	return s
}

// genCrowd: the same call by many clients at once, each with one more within
// it, or within itself many times over.
func (h nest) genCrowd(r *sim.Rng, s *nsSpec, n int) {
	left := 0
	one := func(k string) nsOp {
		o := h.genOp(r, s, n, 3, &left)
		o.K, o.At, o.Mask, o.Wrap = k, 1, r.Intn(3), 0
		if r.Intn(3) > 0 {
			o.Fail = 0
		}
		return o
	}
	k := pick(r, nsOuter)
	in := k
	if r.Intn(2) == 0 {
		in = pick(r, nsOuter)
	}
	if r.Intn(3) == 0 {
		o := one(k)
		for i := 3 + r.Intn(7); i > 0; i-- {
			x := one([]string{k, in}[i%2])
			x.Par = []int{0, 0, 1}[r.Intn(3)]
			x.Sub = []nsOp{o}
			o = x
		}
		s.Q = [][]nsOp{{o}}
	} else {
		for i := 6 + r.Intn(11); i > 0; i-- {
			o, x := one(k), one(in)
			x.Par = []int{0, 0, 1}[r.Intn(3)]
			o.Sub = []nsOp{x}
			s.Q = append(s.Q, []nsOp{o})
		}
	}
	if h.own {
		for k := r.Intn(4); k > 0; k-- {
			s.F = append(s.F, nsStrike{r.Intn(len(s.Q)), r.Intn(1000), 1 + r.Intn(3)})
		}
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (h nest) Run(e *Env, spec any) {
	s := spec.(*nsSpec)
	s.P = nil
	s.M = s.M[:min(len(s.M), 3)]
	if len(s.V) > 0 {
		most, calls := 36, 0
		for _, p := range s.Q {
			calls += len(p)
			if !nsIsLight(p) {
				most = 8
			}
		}
		if calls > 8 {
			most = 8
		}
		s.V[0].R = min(s.V[0].R, most)
	}
	s.rdSpec.norm()
	switch s.T {
	case "float64":
		nsRun[float64](e, h, s)
	case "int8":
		nsRun[int8](e, h, s)
	case "uint16":
		nsRun[uint16](e, h, s)
	default:
		nsRun[int](e, h, s)
	}
}

type nsBoom struct{ n int }

// nsNode is a call in the tree of calls.
type nsNode struct {
	o    *nsOp
	name string
	want string
	got  string
	ran  bool
	cut  bool // its context had been cancelled when it returned
	sub  []*nsNode
}

type nsWorld[T Num] struct {
	d    *shared[T]
	ctx  []*sim.Ctx
	late *sim.WaitGroup
}

// start tells whether the node has yet to run; unseen by the race detector.
//
//go:norace
func (x *nsNode) start() bool {
	if x.ran {
		return false
	}
	x.ran = true
	return true
}

// counter counts unseen by the race detector.
type counter struct{ n int }

//go:norace
func (c *counter) next() int { c.n++; return c.n }

//go:norace
func (c *counter) reset() { c.n = 0 }

// call runs a node and whatever its callbacks call.
func (w *nsWorld[T]) call(x *nsNode) {
	var ctx context.Context = idleCtx()
	var c *sim.Ctx
	if k := x.o.X; k > 0 {
		c = w.ctx[k-1]
		ctx = c
	}
	var calls counter
	cb := func() {
		n := calls.next()
		for _, y := range x.sub {
			y := y
			if y.o.At != n || !y.start() {
				continue
			}
			switch y.o.Par {
			case 0:
				w.call(y)
			case 1:
				var wg sim.WaitGroup
				wg.Add(1)
				sim.Spawn(func() { defer wg.Done(); w.call(y) })
				wg.Wait()
			default:
				w.late.Add(1)
				sim.Spawn(func() { defer w.late.Done(); w.call(y) })
			}
		}
		if n == x.o.Fail && !nsHelper[x.o.K] {
			panic(nsBoom{n})
		}
	}
	x.got = w.d.do(&x.o.rdOp, &rdCall{wrapCtx(ctx, x.o.Wctx), cb, x.o.Wrap})
	for i := 0; i < min(x.o.Rep, 300) && len(x.o.Sub) == 0 && !(c != nil && c.Struck()); i++ {
		calls.reset()
		if got := w.d.do(&x.o.rdOp, &rdCall{wrapCtx(ctx, x.o.Wctx), cb, x.o.Wrap}); got != x.got {
			x.got = got
			break
		}
	}
	x.cut = c != nil && c.Struck()
}

func nsRun[T Num](e *Env, h nest, s *nsSpec) {
	n := s.M[0].R
	var all []*nsNode
	var mk func(o *nsOp, name string, depth int) *nsNode
	mk = func(o *nsOp, name string, depth int) *nsNode {
		o.R, o.C, o.X = mod(o.R, n), mod(o.C, n), mod(o.X, 4)
		if !h.own {
			o.X, o.Fail = 0, 0
		}
		x := &nsNode{o: o, name: name}
		all = append(all, x)
		for i := range o.Sub {
			if depth < 10 && len(all) < 34 {
				x.sub = append(x.sub, mk(&o.Sub[i], fmt.Sprintf("%s.%d", name, i), depth+1))
			}
		}
		return x
	}
	var prog [][]*nsNode
	for i := range s.Q {
		var p []*nsNode
		for k := range s.Q[i] {
			if len(all) < 34 {
				p = append(p, mk(&s.Q[i][k], fmt.Sprintf("%d.%d", i, k), 0))
			}
		}
		prog = append(prog, p)
	}
	for _, x := range all {
		alone := *x
		alone.sub = nil
		e.quietSim(SimOpts{}, func() {
			w := &nsWorld[T]{d: newShared[T](&s.rdSpec), ctx: nsCtxs()}
			w.call(&alone)
		})
		x.want = alone.got
	}
	var boxes [3]ctxBox
	var d *shared[T]
	root := func() {
		d = newShared[T](&s.rdSpec)
		w := &nsWorld[T]{d: d, ctx: nsCtxs(), late: &sim.WaitGroup{}}
		for i := range boxes {
			boxes[i].set(w.ctx[i])
		}
		var wg sim.WaitGroup
		for _, p := range prog {
			p := p
			wg.Add(1)
			sim.Spawn(func() {
				defer wg.Done()
				for _, x := range p {
					sim.Yield()
					if x.start() {
						w.call(x)
					}
				}
			})
		}
		wg.Wait()
		w.late.Wait()
	}
	o := SimOpts{Handlers: map[string]func(string){"cancel": func(i string) { boxes[i[0]-'0'].strike("") }}}
	if h.own && len(s.F) > 0 {
		steps := e.quietSim(SimOpts{}, root).TaskSteps
		for _, x := range all {
			x.ran, x.got, x.cut = false, "", false
		}
		for _, f := range s.F {
			t := fmt.Sprintf("0.%d", mod(f.Client, len(prog)))
			o.Faults = append(o.Faults, sim.Fault{T: t, N: int64(f.At) * steps[t] / 1000, Name: fmt.Sprintf("cancel:%d", mod(f.Ctx-1, 3))})
		}
	}
	e.Sim(o, root)
	if len(prog) > 5 {
		e.Probe("runs with six clients or more, each with a call in its call")
	}
	for _, x := range all {
		if !x.ran {
			continue
		}
		if strings.Count(x.name, ".") > 5 {
			e.Probe("calls five deep or deeper")
		}
		nested := strings.Count(x.name, ".") > 1
		if nested {
			e.Probe("calls made by the code of another call")
			if !h.own {
				e.NonTrivial()
			}
		}
		e.stats.Probes["op:"+x.o.K]++
		if x.cut {
			e.Probe("cancelled calls")
			e.NonTrivial()
			continue
		}
		if len(x.want) > 6 && x.want[:6] == "panic:" {
			e.Probe("failing calls")
			if h.own {
				e.NonTrivial()
			}
		}
		if x.got != x.want {
			e.Fail("disturbed", "call %s (%s) gives %s, and %s alone; matrices %v, vectors %v, mask %v", x.name, x.o.K, x.got, x.want, s.M, s.V, s.K)
		}
	}
	d.unchanged(e, &s.rdSpec)
}

func nsCtxs() []*sim.Ctx { return []*sim.Ctx{newCtx(), newCtx(), newCtx()} }
