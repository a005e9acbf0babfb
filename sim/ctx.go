package sim

import (
	"context"
	"errors"
	"time"
	"unsafe"
)

// Ctx is a context whose cancellation and deadline belong to the simulator.
type Ctx struct {
	parent   context.Context
	ch       chan struct{}
	hb       byte
	err      error
	cause    error
	deadline time.Time
	hasDL    bool
	kids     []*Ctx
	after    []func()
}

type ctxKeyType struct{}

var ctxKey ctxKeyType

// base is the wall-clock instant of simulated time zero.
var base = time.Unix(1_700_000_000, 0)

// NewCtx makes a cancellable context for the harness; it may be called outside
// an execution.
func NewCtx(parent context.Context) *Ctx {
	if parent == nil {
		parent = context.Background()
	}
	return &Ctx{parent: parent, ch: make(chan struct{})}
}

// Deadline implements context.Context.
func (c *Ctx) Deadline() (time.Time, bool) {
	if d, ok := c.deadlineOwn(); ok {
		return d, true
	}
	return c.parent.Deadline()
}

//go:norace
func (c *Ctx) deadlineOwn() (time.Time, bool) { return c.deadline, c.hasDL }

// Done implements context.Context.
func (c *Ctx) Done() <-chan struct{} { return c.ch }

// Err implements context.Context.
func (c *Ctx) Err() error {
	e := c.errOf()
	if e != nil {
		raceAcquire(unsafe.Pointer(&c.hb))
	}
	return e
}

//go:norace
func (c *Ctx) errOf() error { return c.err }

//go:norace
func (c *Ctx) causeOf() error { return c.cause }

// Value implements context.Context.
func (c *Ctx) Value(k any) any {
	if k == ctxKey {
		return c
	}
	return c.parent.Value(k)
}

// cancelNow runs on the scheduler's side, or outside an execution.
//
//go:norace
func (c *Ctx) cancelNow(s *Sched, r *Req, err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if s != nil {
		st := s.chanState(&chanReq{chanKey(c.ch), c.ch, 0, nil})
		if !st.closed {
			s.closeState(st, r)
		}
	} else {
		close(c.ch)
	}
	for _, k := range c.kids {
		k.cancelNow(s, r, err, cause)
	}
	c.kids = nil
	for _, f := range c.after {
		f()
	}
	c.after = nil
}

type ctxReq struct {
	c          *Ctx
	err, cause error
	parent     *Ctx
	d          time.Duration
	f          func()
}

func ctxCancel(s *Sched, t *Task, r *Req) bool {
	q := r.arg.(*ctxReq)
	q.c.cancelNow(s, r, q.err, q.cause)
	return true
}

//go:norace
func ctxAttach(s *Sched, t *Task, r *Req) bool {
	q := r.arg.(*ctxReq)
	q.c.attach(s, r, q.parent)
	return true
}

//go:norace
func (c *Ctx) attach(s *Sched, r *Req, p *Ctx) {
	if p == nil {
		return
	}
	if p.err != nil {
		c.cancelNow(s, r, p.err, p.cause)
		return
	}
	p.kids = append(p.kids, c)
}

// Cancel cancels the context from a task, or outside an execution.
func (c *Ctx) Cancel() { c.cancelWith(context.Canceled, nil) }

func (c *Ctx) cancelWith(err, cause error) {
	raceReleaseMerge(unsafe.Pointer(&c.hb))
	if !Active() {
		c.cancelNow(nil, nil, err, cause)
		return
	}
	if Aborting() {
		return
	}
	op(&Req{try: ctxCancel, what: "cancel", arg: &ctxReq{c: c, err: err, cause: cause}})
}

// Strike cancels the context as an injected fault, on the scheduler's side.
func (c *Ctx) Strike(err error) { c.cancelNow(theS, nil, err, nil) }

// Struck is Err for scheduler-side code.
func (c *Ctx) Struck() bool { return c.errOf() != nil }

func tryTimer(s *Sched, t *Task, r *Req) bool {
	q := r.arg.(*ctxReq)
	r.val = s.addTimer(s.now+q.d.Microseconds(), q.f)
	return true
}

// ExpireAt gives the context a deadline d after now; call it from a task.
func (c *Ctx) ExpireAt(d time.Duration) { c.expireAt(d, nil) }

func (c *Ctx) expireAt(d time.Duration, cause error) {
	c.setDeadline(base.Add(time.Duration(Now())*time.Microsecond + d))
	s := sched()
	op(&Req{try: tryTimer, what: "timer", arg: &ctxReq{d: d, f: func() { c.cancelNow(s, nil, context.DeadlineExceeded, cause) }}})
}

// SetDeadline gives the context a deadline that it does not keep by itself.
func (c *Ctx) SetDeadline(d time.Duration) *Ctx {
	c.setDeadline(base.Add(d))
	return c
}

//go:norace
func (c *Ctx) setDeadline(t time.Time) { c.deadline, c.hasDL = t, true }

//go:norace
func sched() *Sched { return theS }

func newChild(parent context.Context) *Ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := NewCtx(parent)
	p, _ := parent.Value(ctxKey).(*Ctx)
	done := parent.Done()
	if done == nil {
		return c // a context that is never done, or WithoutCancel
	}
	if p == nil || done != p.Done() {
		// a context of another kind, told of as package context does
		if parent.Err() != nil {
			c.cancelWith(parent.Err(), Cause(parent))
			return c
		}
		if a, ok := parent.(interface{ AfterFunc(func()) func() bool }); ok {
			a.AfterFunc(func() { c.cancelWith(parent.Err(), Cause(parent)) })
		} else if Active() && !Aborting() {
			Go(func() {
				sel := NewSel()
				sel.hook = true
				SelRecv(sel, done)
				SelRecv(sel, c.Done())
				if sel.Do() == 0 {
					c.cancelWith(parent.Err(), Cause(parent))
				}
			})
		}
		return c
	}
	if Active() {
		if !Aborting() {
			op(&Req{try: ctxAttach, what: "context", arg: &ctxReq{c: c, parent: p}})
		}
	} else {
		c.attach(nil, nil, p)
	}
	return c
}

// WithCancel stands in for context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newChild(parent)
	return c, c.Cancel
}

// WithCancelCause stands in for context.WithCancelCause.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newChild(parent)
	return c, func(cause error) { c.cancelWith(context.Canceled, cause) }
}

// WithDeadline stands in for context.WithDeadline.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithTimeoutCause stands in for context.WithTimeoutCause.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, TimeNow().Add(d), cause)
}

// WithDeadlineCause stands in for context.WithDeadlineCause.
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newChild(parent)
	if p, ok := parent.Deadline(); ok && !p.After(d) {
		return c, c.Cancel
	}
	if Active() {
		c.expireAt(d.Sub(TimeNow()), cause)
	}
	return c, c.Cancel
}

// WithTimeout stands in for context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, TimeNow().Add(d))
}

// Cause stands in for context.Cause.
func Cause(c context.Context) error {
	if p, _ := c.Value(ctxKey).(*Ctx); p != nil {
		if e := p.causeOf(); e != nil {
			return e
		}
	}
	return c.Err()
}

// AfterFunc stands in for context.AfterFunc.
func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	child, cancel := WithCancel(ctx)
	var mu Mutex
	stopped, ran := false, false
	Go(func() {
		hookWait(child.Done())
		mu.Lock()
		if stopped {
			mu.Unlock()
			return
		}
		ran = true
		mu.Unlock()
		f()
	})
	return func() bool {
		mu.Lock()
		r := !ran && !stopped
		stopped = true
		mu.Unlock()
		cancel()
		return r
	}
}

// ErrInjected is the error of a context that fails for a reason of its own.
var ErrInjected = errors.New("injected failure")

// TimeNow stands in for time.Now.
func TimeNow() time.Time { return base.Add(time.Duration(Now()) * time.Microsecond) }

// Since stands in for time.Since.
func Since(t time.Time) time.Duration { return TimeNow().Sub(t) }

// Until stands in for time.Until.
func Until(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func trySleep(s *Sched, t *Task, r *Req) bool {
	s.addTimer(s.now+r.n, func() { s.ready(t) })
	return false
}

// Sleep stands in for time.Sleep.
func Sleep(d time.Duration) {
	if !Active() || Aborting() {
		return
	}
	us := d.Microseconds()
	if us <= 0 {
		Yield()
		return
	}
	op(&Req{try: trySleep, what: "Sleep", n: us})
}

// After stands in for time.After.
func After(d time.Duration) <-chan time.Time {
	return NewTimer(d).C
}

// Timer stands in for time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	tm *timer
}

// NewTimer stands in for time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

// TimeAfterFunc stands in for time.AfterFunc.
func TimeAfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	stop := t.c
	Go(func() {
		if !hookWait(stop) {
			return
		}
		f()
	})
	t.start(d)
	return t
}

func (t *Timer) start(d time.Duration) {
	if !Active() || Aborting() {
		return
	}
	s := sched()
	r := &Req{try: tryTimer, what: "timer", arg: &ctxReq{d: d, f: func() {
		st := s.chanState(&chanReq{chanKey(t.c), t.c, 1, nil})
		if st.canSend() {
			s.doSend(st, &Req{}, base.Add(time.Duration(s.now)*time.Microsecond))
		}
	}}}
	if op(r) {
		v, _ := r.result()
		t.tm, _ = v.(*timer)
	}
}

//go:norace
func tryStop(s *Sched, t *Task, r *Req) bool {
	tm := r.arg.(*timer)
	for i, x := range s.timers {
		if x == tm {
			s.timers = append(s.timers[:i], s.timers[i+1:]...)
			r.ok = true
			break
		}
	}
	return true
}

// Stop stops the timer.
func (t *Timer) Stop() bool {
	if t.tm == nil || !Active() || Aborting() {
		return false
	}
	r := &Req{try: tryStop, what: "timer", arg: t.tm}
	op(r)
	_, ok := r.result()
	return ok
}

// Reset restarts the timer.
func (t *Timer) Reset(d time.Duration) bool {
	ok := t.Stop()
	t.start(d)
	return ok
}

// Ticker stands in for time.Ticker.
type Ticker struct {
	C   <-chan time.Time
	c   chan time.Time
	off tickState
}

type tickState struct {
	gen int
}

// NewTicker stands in for time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan time.Time, 1)}
	t.C = t.c
	t.Reset(d)
	return t
}

// Tick stands in for time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

//go:norace
func (t *Ticker) next() int { t.off.gen++; return t.off.gen }

//go:norace
func (t *Ticker) gen() int { return t.off.gen }

// Stop stops the ticker.
func (t *Ticker) Stop() { t.next() }

// Reset restarts the ticker with a new interval.
func (t *Ticker) Reset(d time.Duration) {
	if !Active() || Aborting() {
		return
	}
	s, gen := sched(), t.next()
	us := max(d.Microseconds(), 1)
	var tick func()
	tick = func() {
		if t.gen() != gen {
			return
		}
		st := s.chanState(&chanReq{chanKey(t.c), t.c, 1, nil})
		if st.canSend() {
			s.doSend(st, &Req{}, base.Add(time.Duration(s.now)*time.Microsecond))
		}
		s.addTimer(s.now+us, tick)
	}
	op(&Req{try: tryTimer, what: "timer", arg: &ctxReq{d: time.Duration(us) * time.Microsecond, f: tick}})
}

// hook marks the requests of tasks that stand for what is no goroutine until
// it happens; they are not left behind when it never does.
const hook = "hook"

func hookWait[T any](ch <-chan T) bool {
	return op(&Req{try: tryRecv, what: hook, arg: &chanReq{chanKey(ch), ch, cap(ch), nil}})
}
