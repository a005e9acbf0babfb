package sim

import (
	"reflect"
	"unsafe"
)

// Channels stay the channel values of the program, used only for identity and
// capacity; their state lives here.
type chanState struct {
	ref    any
	cap    int
	buf    []item
	freed  []*Req
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	wasCl  bool
	closer *Req
}

type item struct {
	val any
	req *Req
}

type waiter struct {
	t   *Task
	r   *Req
	idx int
	val any
}

type chanReq struct {
	key unsafe.Pointer
	ref any
	cap int
	val any
}

func chanKey[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (s *Sched) chanState(c *chanReq) *chanState {
	st := s.chans[c.key]
	if st == nil {
		st = &chanState{ref: c.ref, cap: c.cap}
		s.chans[c.key] = st
		// content and closing from outside a simulated execution
		v := reflect.ValueOf(c.ref)
		if v.Type().ChanDir()&reflect.RecvDir != 0 {
			for {
				x, ok := v.TryRecv()
				if !ok {
					if x.IsValid() {
						st.closed, st.wasCl = true, true
					}
					break
				}
				st.buf = append(st.buf, item{val: x.Interface()})
			}
		}
	}
	return st
}

// flushChans puts what the channels hold at the end of the execution back into
// the channels, for those that outlive it.
func (s *Sched) flushChans() {
	for _, st := range s.chans {
		v := reflect.ValueOf(st.ref)
		if v.Type().ChanDir() != reflect.BothDir {
			continue
		}
		for _, it := range st.buf {
			x := reflect.ValueOf(it.val)
			if !x.IsValid() {
				x = reflect.Zero(v.Type().Elem())
			}
			if !v.TrySend(x) {
				break
			}
		}
		if st.closed && !st.wasCl {
			v.Close()
		}
	}
	s.chans = nil
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.r.done {
			return w
		}
	}
	return nil
}

func waiting(q []*waiter) bool {
	for _, w := range q {
		if !w.r.done {
			return true
		}
	}
	return false
}

// finish completes a blocked request.
func (s *Sched) finish(w *waiter) {
	w.r.done = true
	w.r.idx = w.idx
	s.ready(w.t)
}

func (st *chanState) canSend() bool {
	return st.closed || waiting(st.recvq) || len(st.buf) < st.cap
}

func (st *chanState) canRecv() bool {
	return st.closed || len(st.buf) > 0 || waiting(st.sendq)
}

// doSend completes a send that can go ahead.
func (s *Sched) doSend(st *chanState, r *Req, val any) {
	if st.closed {
		r.panic = "send on closed channel"
		return
	}
	if w := popWaiter(&st.recvq); w != nil {
		w.r.val, w.r.ok, w.r.peer = val, true, r
		if st.cap == 0 {
			r.peer = w.r
		}
		s.finish(w)
		return
	}
	if len(st.freed) > 0 {
		r.peer = st.freed[0]
		st.freed = st.freed[1:]
	}
	st.buf = append(st.buf, item{val, r})
}

// doRecv completes a receive that can go ahead.
func (s *Sched) doRecv(st *chanState, r *Req) {
	if len(st.buf) > 0 {
		it := st.buf[0]
		st.buf = st.buf[1:]
		r.val, r.ok, r.peer = it.val, true, it.req
		st.freed = append(st.freed, r)
		if w := popWaiter(&st.sendq); w != nil {
			w.r.peer = r
			st.buf = append(st.buf, item{w.val, w.r})
			s.finish(w)
		}
		return
	}
	if w := popWaiter(&st.sendq); w != nil {
		r.val, r.ok, r.peer = w.val, true, w.r
		w.r.peer = r
		s.finish(w)
		return
	}
	r.val, r.ok, r.peer = nil, false, st.closer
}

func (s *Sched) closeState(st *chanState, r *Req) {
	st.closed = true
	st.closer = r
	for {
		w := popWaiter(&st.recvq)
		if w == nil {
			break
		}
		w.r.val, w.r.ok, w.r.peer = nil, false, r
		s.finish(w)
	}
	for {
		w := popWaiter(&st.sendq)
		if w == nil {
			break
		}
		w.r.panic = "send on closed channel"
		s.finish(w)
	}
}

func trySend(s *Sched, t *Task, r *Req) bool {
	c := r.arg.(*chanReq)
	if c.key == nil {
		return false
	}
	st := s.chanState(c)
	if st.canSend() {
		s.doSend(st, r, c.val)
		return true
	}
	st.sendq = append(st.sendq, &waiter{t: t, r: r, val: c.val})
	return false
}

func tryRecv(s *Sched, t *Task, r *Req) bool {
	c := r.arg.(*chanReq)
	if c.key == nil {
		return false
	}
	st := s.chanState(c)
	if st.canRecv() {
		s.doRecv(st, r)
		return true
	}
	st.recvq = append(st.recvq, &waiter{t: t, r: r})
	return false
}

func tryClose(s *Sched, t *Task, r *Req) bool {
	c := r.arg.(*chanReq)
	if c.key == nil {
		r.panic = "close of nil channel"
		return true
	}
	st := s.chanState(c)
	if st.closed {
		r.panic = "close of closed channel"
		return true
	}
	s.closeState(st, r)
	return true
}

func tryLen(s *Sched, t *Task, r *Req) bool {
	c := r.arg.(*chanReq)
	if c.key != nil {
		r.n = int64(len(s.chanState(c).buf))
	}
	return true
}

//go:norace
func (r *Req) result() (any, bool) { return r.val, r.ok }

//go:norace
func (r *Req) num() int64 { return r.n }

//go:norace
func (r *Req) index() int { return r.idx }

func outside(what string) {
	panic("verifsim: " + what + " outside a simulated execution")
}

// SendTo is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !Active() {
			select {
			case ch <- v:
			default:
				outside("blocking send")
			}
			return
		}
		op(&Req{try: trySend, what: "channel send", arg: &chanReq{chanKey(ch), ch, cap(ch), v}})
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		select {
		case v, ok := <-ch:
			return v, ok
		default:
			outside("blocking receive")
		}
	}
	r := &Req{try: tryRecv, what: "channel receive", arg: &chanReq{chanKey(ch), ch, cap(ch), nil}}
	if !op(r) {
		var z T
		return z, false
	}
	x, ok := r.result()
	v, _ := x.(T)
	return v, ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if !Active() {
		close(ch)
		return
	}
	op(&Req{try: tryClose, what: "close", arg: &chanReq{chanKey(ch), ch, cap(ch), nil}})
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if !Active() {
		return len(ch)
	}
	r := &Req{try: tryLen, what: "len", arg: &chanReq{chanKey(ch), ch, cap(ch), nil}}
	op(r)
	return int(r.num())
}

// LenSend is len(ch) of a send-only channel.
func LenSend[T any](ch chan<- T) int {
	if !Active() {
		return len(ch)
	}
	r := &Req{try: tryLen, what: "len", arg: &chanReq{chanKey(ch), ch, cap(ch), nil}}
	op(r)
	return int(r.num())
}

// Range is for v := range ch.
type Range[T any] struct{ ch <-chan T }

// NewRange starts ranging over a channel.
func NewRange[T any](ch <-chan T) *Range[T] { return &Range[T]{ch} }

// Zero is the initial value of the loop variable.
func (r *Range[T]) Zero() (z T) { return }

// Next receives into v.
func (r *Range[T]) Next(v *T) bool {
	x, ok := Recv2(r.ch)
	if ok {
		*v = x
	}
	return ok
}

// Skip receives and drops.
func (r *Range[T]) Skip() bool {
	_, ok := Recv2(r.ch)
	return ok
}

// Sel is a select statement being carried out.
type Sel struct {
	hook  bool
	cases []*selCase
	def   bool
	req   *Req
}

type selCase struct {
	send bool
	c    *chanReq
}

// NewSel starts a select statement.
func NewSel() *Sel { return &Sel{} }

// Default adds a default case.
func (s *Sel) Default() { s.def = true }

// RecvCase is a receive case.
type RecvCase[T any] struct {
	sel *Sel
	i   int
}

// SelRecv adds a receive case.
func SelRecv[T any](s *Sel, ch <-chan T) *RecvCase[T] {
	s.cases = append(s.cases, &selCase{false, &chanReq{chanKey(ch), ch, cap(ch), nil}})
	return &RecvCase[T]{s, len(s.cases) - 1}
}

// Get gives the value received and whether the channel was open.
func (c *RecvCase[T]) Get() (T, bool) {
	x, ok := c.sel.req.result()
	v, _ := x.(T)
	return v, ok
}

// V gives the value received.
func (c *RecvCase[T]) V() T {
	v, _ := c.Get()
	return v
}

// SelSend adds a send case.
func SelSend[T any](s *Sel, ch chan<- T) func(T) {
	return func(v T) {
		s.cases = append(s.cases, &selCase{true, &chanReq{chanKey(ch), ch, cap(ch), v}})
	}
}

func trySelect(s *Sched, t *Task, r *Req) bool {
	sel := r.arg.(*Sel)
	var ready []int
	for i, c := range sel.cases {
		if c.c.key == nil {
			continue
		}
		st := s.chanState(c.c)
		if c.send && st.canSend() || !c.send && st.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[s.choose(t, len(ready))]
		c := sel.cases[i]
		r.idx = i
		r.done = true
		if c.send {
			s.doSend(s.chanState(c.c), r, c.c.val)
		} else {
			s.doRecv(s.chanState(c.c), r)
		}
		return true
	}
	if sel.def {
		r.idx = -1
		r.done = true
		return true
	}
	for i, c := range sel.cases {
		if c.c.key == nil {
			continue
		}
		st := s.chanState(c.c)
		w := &waiter{t: t, r: r, idx: i, val: c.c.val}
		if c.send {
			st.sendq = append(st.sendq, w)
		} else {
			st.recvq = append(st.recvq, w)
		}
	}
	return false
}

// Do waits for a case and returns its index, -1 for the default.
func (s *Sel) Do() int {
	if !Active() {
		return s.doOutside()
	}
	r := &Req{try: trySelect, what: "select", arg: s}
	if s.hook {
		r.what = hook
	}
	s.req = r
	if !op(r) {
		return -1
	}
	return r.index()
}

func (s *Sel) doOutside() int {
	s.req = &Req{}
	for i, c := range s.cases {
		if c.c.key == nil {
			continue
		}
		v := reflect.ValueOf(c.c.ref)
		if c.send {
			x := reflect.ValueOf(c.c.val)
			if !x.IsValid() {
				x = reflect.Zero(v.Type().Elem())
			}
			if v.TrySend(x) {
				return i
			}
		} else if x, ok := v.TryRecv(); ok || x.IsValid() {
			if ok {
				s.req.val = x.Interface()
			}
			s.req.ok = ok
			return i
		}
	}
	if !s.def {
		outside("blocking select")
	}
	return -1
}
