package main

import "verifsim"

// opcancel: an operation with an output is cancelled at chosen instants; the
// output is compared cell by cell with before and with the whole operation.

type ocSpec struct {
	T    string `json:"type"`
	Op   opSpec `json:"op"`
	N    int    `json:"n"`    // cancellations tried
	Way  string `json:"way"`  // step, task, deadline
	Wrap int    `json:"wrap"` // contexts wrapped around it
	Jump int    `json:"jump"` // clock jumps (deadline)
}

type opCancel struct{ mode string } // "cells", "stop", "ctx"

func (opCancel) New() any { return &ocSpec{} }

func (h opCancel) Gen(r *sim.Rng, e *Env) any {
	max := 4
	switch x := r.Intn(100); {
	case x < 2:
		max = 12
	case x < 9:
		max = 8
	}
	if h.mode == "stop" {
		max = []int{4, 7, 7, 7, 14, 14, 24}[r.Intn(7)]
	}
	kinds := append(append([]string{}, outOps...), newOps...)
	s := &ocSpec{T: pickType(r), Op: genOp(r, kinds, max), N: 1 + r.Intn(4)}
	s.Way = "step"
	switch h.mode {
	case "cells":
		s.Way = []string{"step", "step", "task", "deadline"}[r.Intn(4)]
	case "ctx":
		s.Way = []string{"step", "task", "deadline", "deadline", "deadline"}[r.Intn(5)]
		s.Wrap = 1 + r.Intn(3)
		s.Jump = r.Intn(3)
	}
	return s
}

func (h opCancel) Run(e *Env, spec any) {
	s := spec.(*ocSpec)
	s.Op.norm(1200)
	switch s.T {
	case "float64":
		ocRun[float64](e, s, h.mode)
	case "int8":
		ocRun[int8](e, s, h.mode)
	case "uint16":
		ocRun[uint16](e, s, h.mode)
	default:
		ocRun[int](e, s, h.mode)
	}
}

func ocRun[T Num](e *Env, s *ocSpec, mode string) {
	var base *opInst[T]
	c := caught{}
	res := e.Sim(SimOpts{Quiet: true}, func() {
		base = newOp[T](&s.Op)
		ctx := wrapCtx(newCtx(), s.Wrap)
		sim.Yield()
		c = try(func() { base.run(ctx) })
	})
	if c.panicked {
		// not an interruption: the operation refuses its input
		e.Probe("refused")
		return
	}
	final := readGrid[T](base.out)
	if d := base.operandsChanged(); d != "" {
		e.Fail("operand-changed", "%s, not cancelled: %s", s.Op.K, d)
	}
	if mode == "ctx" {
		// the same operation under a plain context
		var plain *opInst[T]
		e.Sim(SimOpts{Quiet: true}, func() {
			plain = newOp[T](&s.Op)
			try(func() { plain.run(idleCtx()) })
		})
		if x := readGrid[T](plain.out); !x.eq(final) {
			e.Fail("wrapped-differs", "%s gives %v under a wrapped context and %v under a plain one", s.Op.K, final, x)
		}
	}
	// how many cells had changed at each step of the whole operation, or, of a
	// large one, at the steps before an instant
	steps := res.TaskSteps["0"]
	counts := mode == "stop" && !sim.RaceBuild && !isNew(s.Op.K)
	changes := func(from, to int64) []int {
		out := make([]int, to+2)
		var x *opInst[T]
		var faults []sim.Fault
		var at []int64
		for i := int64(1); i <= to; i++ {
			if i >= from || i%(1+to/64) == 0 {
				faults = append(faults, sim.Fault{T: "0", N: i, Name: "snap"})
				at = append(at, i)
			}
		}
		k, most := 0, 0
		e.quietSim(SimOpts{Quiet: true, Faults: faults, Handlers: map[string]func(string){"snap": func(string) {
			if x != nil {
				try(func() {
					if x.checkCells(final) == "" {
						if n := x.changed(); n > most {
							most = n
						}
					}
				})
			}
			if k < len(at) {
				out[at[k]] = most
			}
			k++
		}}}, func() {
			y := newOp[T](&s.Op)
			x = y
			ctx := wrapCtx(newCtx(), s.Wrap)
			sim.Yield()
			x.run(ctx)
		})
		return out
	}
	var changedAt []int
	if counts && steps < 20000 {
		changedAt = changes(1, steps)
	}
	for k := 0; k < clamp(s.N, 1, 8); k++ {
		at := int64(e.Choose(int(steps) + 1))
		if e.Choose(10) == 0 {
			at = 0
		}
		var x *opInst[T]
		var box ctxBox
		var cancelled bool
		var done caught
		pre := at == 0
		o := SimOpts{Quiet: s.Way == "step"}
		if s.Way == "step" && !pre {
			o.Faults = []sim.Fault{{T: "0", N: at, Name: "cancel"}}
			o.Handlers = map[string]func(string){"cancel": box.strike}
		}
		if s.Way == "deadline" && s.Jump > 0 {
			for j := 0; j < s.Jump; j++ {
				o.Faults = append(o.Faults, sim.Fault{T: "0", N: int64(e.Choose(int(steps) + 1)), Name: []string{"jump:5000", "jump:200", "jump:-300", "jump:40"}[e.Choose(4)]})
			}
		}
		var returned once
		res := e.Sim(o, func() {
			x = newOp[T](&s.Op)
			ctx := box.set(newCtx())
			w := wrapCtx(ctx, s.Wrap)
			switch {
			case pre:
				ctx.Cancel()
			case s.Way == "deadline":
				ctx.ExpireAt(usec(at))
			case s.Way == "task":
				sim.Spawn(func() {
					for i := int64(0); i < at && !returned.get(); i += 7 {
						sim.Yield()
					}
					ctx.Cancel()
				})
			}
			sim.Yield()
			done = try(func() { x.run(w) })
			returned.set()
			cancelled = ctx.Struck()
		})
		if done.panicked {
			e.Fail("panic", "%s panics when cancelled: %v", s.Op.K, done.val)
		}
		if cancelled {
			e.NonTrivial()
			e.Probe("cancelled during or before the call")
			if pre {
				e.Probe("cancelled before the call")
			}
		}
		if d := x.operandsChanged(); d != "" {
			e.Fail("operand-changed", "%s, cancelled at step %d of %d: %s", s.Op.K, at, steps, d)
		}
		now := readGrid[T](x.out)
		if !cancelled {
			if !now.eq(final) {
				e.Fail("incomplete", "%s returned %v before any cancellation; the result is %v", s.Op.K, now, final)
			}
			continue
		}
		if d := x.checkCells(final); d != "" && mode != "stop" {
			e.Fail("cell", "%s cancelled at step %d of %d: %s", s.Op.K, at, steps, d)
		}
		if !now.eq(final) && !now.eq(x.old) {
			e.Probe("cut in the middle")
		}
		if mode != "stop" {
			continue
		}
		if pre {
			if !now.eq(x.old) {
				e.Fail("pre-cancelled", "%s changed its output though its context was cancelled before the call: %v, now %v", s.Op.K, x.old, now)
			}
			continue
		}
		if counts {
			changedAt := changedAt
			if changedAt == nil {
				e.Probe("changes counted in a large operation")
				changedAt = changes(at-300, at)
			}
			if n, was := x.changed(), changedAt[at]; n > was+1 {
				e.Fail("late-change", "%s changed %d cells after it was cancelled at step %d of %d: before %v, now %v", s.Op.K, n-was, at, steps, x.old, now)
			}
		}
		after, rest := res.TaskSteps["0"]-at, steps-at
		if lim := stopLimit(rest); after > lim {
			e.Fail("late-return", "%s took %d steps to return after it was cancelled at step %d; %d steps remained", s.Op.K, after, at, rest)
		}
		if rest > 3000 {
			e.Probe("cancelled with much left to do")
		}
	}
}

// stopLimit is how many steps an operation may take from its cancellation to
// its return when rest steps remained.
func stopLimit(rest int64) int64 { return max(1500, rest/2) }
