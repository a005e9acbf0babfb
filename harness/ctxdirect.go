package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	g "github.com/rossmerr/graphblas"
	"verifsim"
)

// ctxdirect: a chain of contexts, some of them wrapped with a mode; each
// wrapper must behave as what it wraps (C15).

type cdLink struct {
	K string `json:"k"` // mode, cancel, deadline, value
	V int    `json:"v"` // the mode, the deadline in microseconds, the key
}

type cdAct struct {
	K string `json:"k"` // observers: wait, back, poll, child, timeout, func; actors: cancel
	L int    `json:"l"` // link
	N int    `json:"n"` // turns given away before
}

type cdSpec struct {
	C []cdLink `json:"chain"`
	P []cdAct  `json:"tasks"`
	S []int    `json:"strikes"` // step, link: the link fails with an error of its own
	J []int    `json:"jumps"`
}

type ctxDirect struct{}

type cdKey int

// cdKeys are what values are stored under.
var cdKeys = []any{cdKey(0), cdKey(1), cdKey(2), "mode", "Mode", "blocking", "graphblas", 0, 1, 2, g.Blocking, g.NonBlocking, struct{}{}, [0]int{}, cdKey(2), true, "deadline"}

var errOwn = errors.New("an error of its own")

func (ctxDirect) New() any { return &cdSpec{} }
func (ctxDirect) Gen(r *sim.Rng, e *Env) any {
	s := &cdSpec{}
	links := 1 + r.Intn(5)
	if r.Intn(60) == 0 {
		links = 7
	}
	for i := links; i > 0; i-- {
		l := cdLink{K: []string{"mode", "mode", "mode", "cancel", "deadline", "value"}[r.Intn(6)], V: r.Intn(2)}
		if l.K == "deadline" {
			l.V = r.Intn(400)
		}
		if l.K == "value" {
			l.V = r.Intn(2 * len(cdKeys))
		}
		s.C = append(s.C, l)
	}
	s.C = append(s.C, cdLink{"mode", r.Intn(2)})
	for i := 1 + r.Intn(5); i > 0; i-- {
		s.P = append(s.P, cdAct{[]string{"wait", "wait", "back", "poll", "poll", "child", "timeout", "cancel", "func"}[r.Intn(9)], r.Intn(7), r.Intn(30)})
	}
	for i := r.Intn(3); i > 0; i-- {
		s.S = append(s.S, 1+r.Intn(120), r.Intn(7))
	}
	for i := r.Intn(3); i > 0; i-- {
		s.J = append(s.J, 1+r.Intn(120), r.Intn(5))
	}
	return s
}

func (ctxDirect) Run(e *Env, spec any) {
	s := spec.(*cdSpec)
	if len(s.C) > 8 {
		s.C = s.C[:8]
	}
	if len(s.P) > 8 {
		s.P = s.P[:8]
	}
	n := len(s.C)
	boxes := make([]ctxBox, n+1)
	o := SimOpts{Handlers: map[string]func(string){"strike": func(i string) {
		if c := boxes[int(i[0]-'0')%(n+1)].get(); c != nil {
			c.Strike(errOwn)
		}
	}}}
	for i := 0; i+1 < len(s.S) && i < 8; i += 2 {
		o.Faults = append(o.Faults, sim.Fault{T: "0", N: int64(s.S[i]), Name: fmt.Sprintf("strike:%d", mod(s.S[i+1], n+1))})
	}
	for i := 0; i+1 < len(s.J) && i < 8; i += 2 {
		o.Faults = append(o.Faults, sim.Fault{T: "0", N: int64(s.J[i]), Name: []string{"jump:5000", "jump:100", "jump:-200", "jump:20", "jump:1000000"}[mod(s.J[i+1], 5)]})
	}
	var bad, badText string
	fail := func(class, format string, a ...any) {
		if bad == "" {
			bad, badText = class, fmt.Sprintf(format, a...)
		}
	}
	hit := map[string]bool{}
	e.Sim(o, func() {
		top := boxes[0].set(sim.NewCtx(nil))
		chain := []context.Context{top}
		var cancels = []func(){top.Cancel}
		var wraps []int
		for i, l := range s.C {
			prev := chain[i]
			var c context.Context
			switch l.K {
			case "cancel":
				x, cancel := sim.WithCancel(prev)
				boxes[i+1].set(x.(*sim.Ctx))
				cancels = append(cancels, cancel)
				c = x
			case "deadline":
				x, cancel := sim.WithDeadline(prev, sim.TimeNow().Add(usec(int64(clamp(l.V, 0, 100000)))))
				boxes[i+1].set(x.(*sim.Ctx))
				cancels = append(cancels, cancel)
				c = x
			case "value":
				c = context.WithValue(prev, cdKeys[mod(l.V, len(cdKeys))], []any{i, nil, "value", 0, false, prev}[mod(l.V+i, 6)])
			default:
				wraps = append(wraps, i+1)
				c = g.NewContext(prev, mod(l.V, 2))
				if m, ok := g.BlockingMode(c); !ok || m != mod(l.V, 2) {
					fail("mode", "a context wrapped with mode %d reports %d, %v", mod(l.V, 2), m, ok)
				}
				if x, ok := c.(g.Context); !ok || x.Mode() != mod(l.V, 2) {
					fail("mode", "a context wrapped with mode %d has another", mod(l.V, 2))
				}
			}
			chain = append(chain, c)
		}
		if _, ok := g.BlockingMode(top); ok {
			fail("mode", "a plain context reports a mode")
		}
		// the same wrappers and values on a context that is never cancelled
		type pair struct {
			p, w context.Context
			mode int
		}
		var never []pair
		base := []context.Context{context.Background(), context.TODO()}[len(s.P)%2]
		for i, l := range s.C {
			switch l.K {
			case "value":
				base = context.WithValue(base, cdKeys[mod(l.V, len(cdKeys))], i)
			case "mode":
				w := g.NewContext(base, mod(l.V, 2))
				never = append(never, pair{base, w, mod(l.V, 2)})
				base = w
			}
		}
		if len(wraps) == 0 {
			return
		}
		still := func() { // what does not change
			for _, i := range wraps {
				p, w := chain[i-1], chain[i]
				pd, pok := p.Deadline()
				wd, wok := w.Deadline()
				if pok != wok || !pd.Equal(wd) {
					fail("deadline", "the wrapped context's deadline is %v, %v, the wrapper's %v, %v", pd, pok, wd, wok)
				}
				for _, k := range cdKeys {
					if x, y := p.Value(k), w.Value(k); x != y {
						fail("value", "the wrapped context's value of %T %v is %v, the wrapper's %v", k, k, x, y)
					}
				}
				if m, ok := g.BlockingMode(w); !ok || m != mod(s.C[i-1].V, 2) {
					fail("mode", "a context wrapped with mode %d reports %d, %v later", mod(s.C[i-1].V, 2), m, ok)
				}
			}
		}
		closed := func(c context.Context) bool {
			sel := sim.NewSel()
			sim.SelRecv(sel, c.Done())
			sel.Default()
			return sel.Do() == 0
		}
		calm := func() { // what holds of those never cancelled
			for _, x := range never {
				if x.w.Err() != nil || closed(x.w) {
					fail("never", "a wrapper of a context that is never cancelled is done: error %v", x.w.Err())
				}
				if _, ok := x.w.Deadline(); ok {
					fail("never", "a wrapper of a context without a deadline has one")
				}
				if m, ok := g.BlockingMode(x.w); !ok || m != x.mode {
					fail("mode", "a context wrapped with mode %d reports %d, %v", x.mode, m, ok)
				}
				for _, k := range cdKeys {
					if a, b := x.p.Value(k), x.w.Value(k); a != b {
						fail("value", "the wrapped context's value of %T %v is %v, the wrapper's %v", k, k, a, b)
					}
				}
			}
		}
		still()
		calm()
		after := func(i int, how string) { // once either is known to be cancelled
			p, w := chain[i-1], chain[i]
			if p.Err() == nil {
				fail("early", "a wrapper was done (%s) before what it wraps", how)
				return
			}
			if w.Err() != p.Err() {
				fail("error", "the wrapped context's error is %v, the wrapper's %v (%s)", p.Err(), w.Err(), how)
			}
			if x, y := sim.Cause(p), sim.Cause(w); x != y {
				fail("cause", "the wrapped context was cancelled because of %v, the wrapper of %v (%s)", x, y, how)
			}
			if !closed(w) || !closed(p) {
				fail("done", "a cancelled context is not done (%s): wrapped %v, wrapper %v", how, closed(p), closed(w))
			}
		}
		var wg sim.WaitGroup
		for _, t := range s.P {
			t := t
			i := wraps[mod(t.L, len(wraps))]
			hit[t.K] = true
			wg.Add(1)
			sim.Spawn(func() {
				defer wg.Done()
				p, w := chain[i-1], chain[i]
				for k := 0; k < t.N && k < 100; k++ {
					sim.Yield()
				}
				switch t.K {
				case "wait":
					sim.Recv(w.Done())
					after(i, "wait")
				case "back":
					sim.Recv(p.Done())
					after(i, "back")
					sim.Recv(w.Done())
				case "child":
					c, _ := sim.WithCancel(w)
					sim.Recv(c.Done())
					after(i, "child")
				case "func":
					var ran sim.WaitGroup
					ran.Add(1)
					sim.AfterFunc(w, func() {
						defer ran.Done()
						after(i, "func")
					})
					ran.Wait()
				case "timeout":
					c, _ := sim.WithTimeout(w, usec(int64(t.N)*10))
					cd, ok := c.Deadline()
					pd, pok := p.Deadline()
					if !ok || pok && cd.After(pd) {
						fail("deadline", "a context made from a wrapper has deadline %v, %v; the wrapped one %v", cd, ok, pd)
					}
					sim.Recv(c.Done())
				case "cancel":
					cancels[mod(t.L, len(cancels))]()
				default:
					for k := 0; k < 6; k++ {
						a := p.Err()
						x := w.Err()
						b := p.Err()
						if x != a && x != b {
							fail("error", "the wrapper's error is %v while the wrapped context's is %v", x, a)
						}
						ca := closed(p)
						cx := closed(w)
						cb := closed(p)
						if cx != ca && cx != cb {
							fail("done", "the wrapper is done: %v, while the wrapped context is: %v", cx, ca)
						}
						if x != nil && x != w.Err() {
							fail("error", "the wrapper's error changed from %v to %v", x, w.Err())
						}
						for y := 0; y < t.N%7; y++ {
							sim.Yield()
						}
					}
					still()
				}
			})
		}
		for k := 0; k < 200; k++ {
			sim.Yield()
		}
		sim.Sleep(time.Millisecond)
		top.Cancel()
		wg.Wait()
		for _, i := range wraps {
			after(i, "end")
		}
		still()
		calm()
	})
	if bad != "" {
		e.Fail(bad, "%s; chain %v", badText, s.C)
	}
	for k := range hit {
		e.Probe("observer:" + k)
	}
	e.NonTrivial()
}
