package main

import (
	"fmt"

	g "github.com/rossmerr/graphblas"
	"verifsim"
)

// livemask: operations masked by a locked matrix that others are changing (C19).

type lmWrite struct {
	K string `json:"k"` // set, update, clear
	R int    `json:"r"`
	C int    `json:"c"`
	V int    `json:"v"`
	Y int    `json:"y"` // turns given away before
}

type lmSpec struct {
	T  string      `json:"type"`
	Op []opSpec    `json:"ops"`
	W  [][]lmWrite `json:"writers"`
	I  int         `json:"wait"`
	Q  []lmWrite   `json:"reader"` // reads of the mask
}

type liveMask struct{}

func (liveMask) New() any { return &lmSpec{} }
func (liveMask) Gen(r *sim.Rng, e *Env) any {
	s := &lmSpec{T: pickType(r), I: r.Intn(10)}
	max := 4
	if r.Intn(25) == 0 {
		max = 9
	}
	o := genOp(r, outOps, max)
	o.Mask = "matrix"
	s.Op = append(s.Op, o)
	if r.Intn(3) == 0 {
		s.Op = append(s.Op, genOp(r, outOps, max))
	}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		var w []lmWrite
		for k := 1 + r.Intn(8); k > 0; k-- {
			x := lmWrite{K: []string{"set", "set", "set", "update"}[r.Intn(4)], R: r.Intn(max), C: r.Intn(max), V: r.Intn(3) - 1, Y: r.Intn(12)}
			if n == 1 && r.Intn(5) == 0 {
				x.K = "clear"
			}
			w = append(w, x)
		}
		s.W = append(s.W, w)
	}
	for k := r.Intn(4); k > 0; k-- {
		s.Q = append(s.Q, lmWrite{K: "read", R: r.Intn(max), C: r.Intn(max), Y: r.Intn(8)})
	}
	return s
}

func (s *lmSpec) norm() {
	if len(s.Op) == 0 {
		s.Op = []opSpec{{K: "apply", A: Mat{F: "dense", R: 1, C: 1}}}
	}
	if len(s.Op) > 3 {
		s.Op = s.Op[:3]
	}
	for i := range s.Op {
		o := &s.Op[i]
		if isNew(o.K) {
			o.K = "apply"
		}
		switch o.K {
		case "mxm", "mxv", "vxm", "ewmm", "ewvm":
			o.Alias = ""
		default:
			if o.Alias != "a" {
				o.Alias = ""
			}
		}
		o.Mask = "matrix"
		o.norm(1200)
	}
	// the others fit the first one's mask, or are left out
	r, c := s.Op[0].M.R, s.Op[0].M.C
	l := s.Op[:1]
	for i := 1; i < len(s.Op); i++ {
		if s.Op[i].M.R == r && s.Op[i].M.C == c {
			l = append(l, s.Op[i])
		}
	}
	s.Op = l
	normWriters(&s.W, r, c)
	for k := range s.Q {
		s.Q[k].R, s.Q[k].C = mod(s.Q[k].R, r), mod(s.Q[k].C, c)
	}
}

// normWriters makes the writers fit a mask of r by c elements, each element
// with one writer.
func normWriters(p *[][]lmWrite, r, c int) {
	if len(*p) > 4 {
		*p = (*p)[:4]
	}
	W := *p
	for i := range W {
		for k := range W[i] {
			w := &W[i][k]
			w.R, w.C = mod(w.R, r), mod(w.C, c)
			// a cell has one writer
			if n := len(W); n > 1 {
				if w.K == "clear" {
					w.K = "set"
				}
				cell := w.R*c + w.C
				cell = cell/n*n + i
				if cell >= r*c {
					cell = i
				}
				if cell >= r*c {
					w.K = "read"
					cell = 0
				}
				w.R, w.C = cell/c, cell%c
			}
		}
	}
}

func (liveMask) Run(e *Env, spec any) {
	s := spec.(*lmSpec)
	s.norm()
	switch s.T {
	case "float64":
		lmRun[float64](e, s)
	case "int8":
		lmRun[int8](e, s)
	case "uint16":
		lmRun[uint16](e, s)
	default:
		lmRun[int](e, s)
	}
}

type lmEvent struct {
	inv, ret int64
	open     bool
}

// lmWriters change a mask and note when.
type lmWriters[T Num] struct {
	mk     *g.MutexMatrix[T]
	w      [][]lmWrite
	start  *grid[T]
	events [][][]lmEvent // by writer and cell
}

func newWriters[T Num](mk *g.MutexMatrix[T], w [][]lmWrite, start *grid[T]) *lmWriters[T] {
	x := &lmWriters[T]{mk: mk, w: w, start: start, events: make([][][]lmEvent, len(w))}
	for i := range x.events {
		x.events[i] = make([][]lmEvent, len(start.v))
	}
	return x
}

func (x *lmWriters[T]) spawn(wg *sim.WaitGroup) {
	mk, events := x.mk, x.events
	for i := range x.w {
		i := i
		wg.Add(1)
		sim.Spawn(func() {
			defer wg.Done()
			now := x.start.clone()
			for _, w := range x.w[i] {
				for k := 0; k < w.Y && k < 50; k++ {
					sim.Yield()
				}
				ev := lmEvent{}
				sim.Yield()
				ev.inv = sim.Seq()
				switch w.K {
				case "clear":
					mk.Clear()
					ev.ret = sim.Seq()
					for j := range now.v {
						now.v[j] = 0
						events[i][j] = append(events[i][j], ev)
					}
					continue
				case "update":
					v := T(0)
					mk.Update(w.R, w.C, func(x T) T {
						sim.Yield()
						v = 1
						if x > 0 {
							v = 0
						}
						return v
					})
					now.set(w.R, w.C, v)
				case "read":
					mk.Element(w.R, w.C)
					continue
				default:
					mk.Set(w.R, w.C, num[T](w.V))
					now.set(w.R, w.C, num[T](w.V))
				}
				ev.ret = sim.Seq()
				ev.open = now.at(w.R, w.C) > 0
				events[i][w.R*now.c+w.C] = append(events[i][w.R*now.c+w.C], ev)
			}
		})
	}
}

// states gives the states the mask had at cell j during a call, and whether it
// was written then.
func (x *lmWriters[T]) states(j int, span lmEvent) (closed, open, during bool) {
	note := func(m bool) {
		if m {
			closed = true
		} else {
			open = true
		}
	}
	last := lmEvent{open: x.start.v[j] > 0}
	for k := range x.events {
		for _, ev := range x.events[k][j] {
			if ev.ret < span.inv {
				last = ev
			} else if ev.inv <= span.ret {
				note(ev.open)
				during = true
			}
		}
	}
	note(last.open)
	return
}

func lmRun[T Num](e *Env, s *lmSpec) {
	// what each operation does where its mask is open
	news := make([]*grid[T], len(s.Op))
	for i := range s.Op {
		o := s.Op[i]
		o.Mask = ""
		var c caught
		e.quietSim(SimOpts{}, func() {
			x := newOp[T](&o)
			c = try(func() { x.run(idleCtx()) })
			news[i] = readGrid[T](x.out)
		})
		if c.panicked {
			e.Probe("refused")
			return
		}
	}
	start := cells[T](s.Op[0].M)
	mk := g.NewMutexMatrix(build[T](s.Op[0].M))
	ins := make([]*opInst[T], len(s.Op))
	for i := range s.Op {
		ins[i] = newOp[T](&s.Op[i])
		ins[i].maskM = nil
		ins[i].mask = mk
	}
	ws := newWriters(mk, s.W, start)
	spans := make([]lmEvent, len(ins))
	errs := make([]caught, len(ins))
	e.Sim(SimOpts{}, func() {
		var wg sim.WaitGroup
		ws.spawn(&wg)
		for i := range ins {
			i := i
			wg.Add(1)
			sim.Spawn(func() {
				defer wg.Done()
				for k := 0; k < s.I && k < 50; k++ {
					sim.Yield()
				}
				sim.Yield()
				spans[i].inv = sim.Seq()
				errs[i] = try(func() { ins[i].run(idleCtx()) })
				spans[i].ret = sim.Seq()
			})
		}
		if len(s.Q) > 0 {
			wg.Add(1)
			sim.Spawn(func() {
				defer wg.Done()
				for _, q := range s.Q {
					for k := 0; k < q.Y && k < 50; k++ {
						sim.Yield()
					}
					mk.At(q.R, q.C)
					mk.Element(q.R, q.C)
				}
			})
		}
		wg.Wait()
	})
	for i, x := range ins {
		o := &s.Op[i]
		if errs[i].panicked {
			e.Fail("panic", "%s panics under a mask that is being changed: %v", o.K, errs[i].val)
		}
		if d := x.operandsChanged(); d != "" {
			e.Fail("operand-changed", "%s: %s", o.K, d)
		}
		now := readGrid[T](x.out)
		for j, v := range now.v {
			closed, open, during := ws.states(j, spans[i])
			if during {
				e.NonTrivial()
				e.Probe("writes of the mask during the call")
			}
			if closed && open {
				e.Probe("cells whose mask changed during the call")
			}
			ok := closed && v == x.old.v[j] || open && v == news[i].v[j]
			if (o.K == "ewma" || o.K == "ewva") && closed && open && v == x.before[0].v[j] {
				ok = true
			}
			if !ok {
				e.Fail("mask", "%s: cell (%d,%d) held %v, would get %v and holds %v; during the call its mask was closed: %v, open: %v\nmask %v, writers %v", o.K, j/start.c, j%start.c, x.old.v[j], news[i].v[j], v, closed, open, start, fmt.Sprint(s.W))
			}
		}
	}
}
