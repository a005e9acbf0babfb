package sim

import (
	"sync"
	"unsafe"
)

// The lock types keep their state in the object, touched by the scheduler
// only, and are reset when an execution finds them left over from another.

// Mutex stands in for sync.Mutex.
type Mutex struct {
	epoch uint32
	held  bool
	wait  []*Task
	hb    byte
}

//go:norace
func (m *Mutex) fresh(s *Sched) {
	if m.epoch != s.epoch {
		m.epoch = s.epoch
		m.held = false
		m.wait = nil
	}
}

//go:norace
func mutexLock(s *Sched, t *Task, r *Req) bool {
	m := (*Mutex)(r.obj)
	m.fresh(s)
	if m.held {
		if r.n == 1 {
			r.ok = false
			return true
		}
		m.wait = append(m.wait, t)
		return false
	}
	m.held = true
	r.ok = true
	return true
}

//go:norace
func mutexUnlock(s *Sched, t *Task, r *Req) bool {
	m := (*Mutex)(r.obj)
	m.fresh(s)
	if !m.held {
		s.crash = &Crash{Task: t.path, Value: "fatal error: sync: unlock of unlocked mutex"}
		return true
	}
	m.held = false
	for _, w := range m.wait {
		s.readyRetry(w)
	}
	m.wait = nil
	return true
}

// Lock locks.
func (m *Mutex) Lock() {
	if !Active() {
		return
	}
	if op(&Req{try: mutexLock, what: "Mutex.Lock", obj: unsafe.Pointer(m)}) {
		raceAcquire(unsafe.Pointer(&m.hb))
	}
}

// TryLock locks if it can do so at once.
func (m *Mutex) TryLock() bool {
	if !Active() {
		return true
	}
	r := &Req{try: mutexLock, what: "Mutex.TryLock", obj: unsafe.Pointer(m), n: 1}
	if !op(r) {
		return false
	}
	_, ok := r.result()
	if ok {
		raceAcquire(unsafe.Pointer(&m.hb))
	}
	return ok
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if !Active() || Aborting() {
		return
	}
	raceRelease(unsafe.Pointer(&m.hb))
	op(&Req{try: mutexUnlock, what: "Mutex.Unlock", obj: unsafe.Pointer(m)})
}

// RWMutex stands in for sync.RWMutex, writer preference included: once a
// writer waits, new readers wait behind it.
type RWMutex struct {
	epoch   uint32
	writer  *Task // holds the lock or waits for the readers to leave
	granted bool  // the writer holds the lock
	readers int
	waitW   []*Task
	waitR   []*Task
	hbR     byte // released by writers, acquired by readers and writers
	hbW     byte // released by readers, acquired by writers
}

//go:norace
func (m *RWMutex) fresh(s *Sched) {
	if m.epoch != s.epoch {
		m.epoch = s.epoch
		m.writer, m.granted, m.readers, m.waitW, m.waitR = nil, false, 0, nil, nil
	}
}

//go:norace
func rwLock(s *Sched, t *Task, r *Req) bool {
	m := (*RWMutex)(r.obj)
	m.fresh(s)
	if r.n == 1 {
		if r.ok = m.writer == nil && m.readers == 0; r.ok {
			m.writer, m.granted = t, true
		}
		return true
	}
	if m.writer != nil {
		m.waitW = append(m.waitW, t)
		return false
	}
	m.writer = t
	m.granted = m.readers == 0
	r.ok = true
	// a pending writer is granted the lock by the last reader
	return m.granted
}

//go:norace
func rwUnlock(s *Sched, t *Task, r *Req) bool {
	m := (*RWMutex)(r.obj)
	m.fresh(s)
	if !m.granted {
		s.crash = &Crash{Task: t.path, Value: "fatal error: sync: Unlock of unlocked RWMutex"}
		return true
	}
	m.writer, m.granted = nil, false
	for _, w := range m.waitR {
		m.readers++
		s.ready(w)
	}
	m.waitR = nil
	for _, w := range m.waitW {
		s.readyRetry(w)
	}
	m.waitW = nil
	return true
}

//go:norace
func rwRLock(s *Sched, t *Task, r *Req) bool {
	m := (*RWMutex)(r.obj)
	m.fresh(s)
	if m.writer != nil {
		if r.n == 1 {
			r.ok = false
			return true
		}
		m.waitR = append(m.waitR, t)
		return false
	}
	m.readers++
	r.ok = true
	return true
}

//go:norace
func rwRUnlock(s *Sched, t *Task, r *Req) bool {
	m := (*RWMutex)(r.obj)
	m.fresh(s)
	if m.readers == 0 {
		s.crash = &Crash{Task: t.path, Value: "fatal error: sync: RUnlock of unlocked RWMutex"}
		return true
	}
	m.readers--
	if m.readers == 0 && m.writer != nil && !m.granted {
		m.granted = true
		s.ready(m.writer)
	}
	return true
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if !Active() {
		return
	}
	if op(&Req{try: rwLock, what: "RWMutex.Lock", obj: unsafe.Pointer(m)}) {
		raceAcquire(unsafe.Pointer(&m.hbR))
		raceAcquire(unsafe.Pointer(&m.hbW))
	}
}

// TryLock locks for writing if it can do so at once.
func (m *RWMutex) TryLock() bool {
	if !Active() {
		return true
	}
	r := &Req{try: rwLock, what: "RWMutex.TryLock", obj: unsafe.Pointer(m), n: 1}
	if !op(r) {
		return false
	}
	_, ok := r.result()
	if ok {
		raceAcquire(unsafe.Pointer(&m.hbR))
		raceAcquire(unsafe.Pointer(&m.hbW))
	}
	return ok
}

// Unlock unlocks a writer.
func (m *RWMutex) Unlock() {
	if !Active() || Aborting() {
		return
	}
	raceRelease(unsafe.Pointer(&m.hbR))
	op(&Req{try: rwUnlock, what: "RWMutex.Unlock", obj: unsafe.Pointer(m)})
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if !Active() {
		return
	}
	if op(&Req{try: rwRLock, what: "RWMutex.RLock", obj: unsafe.Pointer(m)}) {
		raceAcquire(unsafe.Pointer(&m.hbR))
	}
}

// TryRLock locks for reading if it can do so at once.
func (m *RWMutex) TryRLock() bool {
	if !Active() {
		return true
	}
	r := &Req{try: rwRLock, what: "RWMutex.TryRLock", obj: unsafe.Pointer(m), n: 1}
	if !op(r) {
		return false
	}
	_, ok := r.result()
	if ok {
		raceAcquire(unsafe.Pointer(&m.hbR))
	}
	return ok
}

// RUnlock unlocks a reader.
func (m *RWMutex) RUnlock() {
	if !Active() || Aborting() {
		return
	}
	raceReleaseMerge(unsafe.Pointer(&m.hbW))
	op(&Req{try: rwRUnlock, what: "RWMutex.RUnlock", obj: unsafe.Pointer(m)})
}

// RLocker is the reading side as a Locker.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	epoch uint32
	n     int64
	wait  []*Task
	hb    byte
}

//go:norace
func wgAdd(s *Sched, t *Task, r *Req) bool {
	g := (*WaitGroup)(r.obj)
	if g.epoch != s.epoch {
		g.epoch, g.n, g.wait = s.epoch, 0, nil
	}
	g.n += r.n
	if g.n < 0 {
		r.panic = "sync: negative WaitGroup counter"
		return true
	}
	if g.n == 0 {
		for _, w := range g.wait {
			s.ready(w)
		}
		g.wait = nil
	}
	return true
}

//go:norace
func wgWait(s *Sched, t *Task, r *Req) bool {
	g := (*WaitGroup)(r.obj)
	if g.epoch != s.epoch {
		g.epoch, g.n, g.wait = s.epoch, 0, nil
	}
	if g.n == 0 {
		return true
	}
	g.wait = append(g.wait, t)
	return false
}

// Add adds to the counter.
func (g *WaitGroup) Add(n int) {
	if !Active() || Aborting() {
		return
	}
	if n < 0 {
		raceReleaseMerge(unsafe.Pointer(&g.hb))
	}
	op(&Req{try: wgAdd, what: "WaitGroup.Add", obj: unsafe.Pointer(g), n: int64(n)})
}

// Done takes one off the counter.
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait waits for the counter to reach zero.
func (g *WaitGroup) Wait() {
	if !Active() {
		return
	}
	if op(&Req{try: wgWait, what: "WaitGroup.Wait", obj: unsafe.Pointer(g)}) {
		raceAcquire(unsafe.Pointer(&g.hb))
	}
}

// Go runs f as a counted task.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

// Once stands in for sync.Once.
type Once struct {
	epoch uint32
	state int // 1: running, 2: done
	wait  []*Task
	hb    byte
}

//go:norace
func onceEnter(s *Sched, t *Task, r *Req) bool {
	o := (*Once)(r.obj)
	if o.epoch != s.epoch {
		o.epoch, o.wait = s.epoch, nil
		if o.state == 1 {
			o.state = 0
		}
	}
	switch o.state {
	case 0:
		o.state = 1
		r.ok = true
		return true
	case 1:
		o.wait = append(o.wait, t)
		return false
	}
	return true
}

//go:norace
func onceLeave(s *Sched, t *Task, r *Req) bool {
	o := (*Once)(r.obj)
	o.state = 2
	for _, w := range o.wait {
		s.ready(w)
	}
	o.wait = nil
	return true
}

//go:norace
func (o *Once) claim() bool {
	if o.state == 2 {
		return false
	}
	o.state = 2
	return true
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	if !Active() {
		if o.claim() {
			f()
		}
		return
	}
	r := &Req{try: onceEnter, what: "Once.Do", obj: unsafe.Pointer(o)}
	if !op(r) {
		return
	}
	if _, run := r.result(); run {
		defer func() {
			raceRelease(unsafe.Pointer(&o.hb))
			if !Aborting() {
				op(&Req{try: onceLeave, what: "Once.Do", obj: unsafe.Pointer(o)})
			}
		}()
		f()
		return
	}
	raceAcquire(unsafe.Pointer(&o.hb))
}

// OnceFunc stands in for sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	var p any
	bad := true
	return func() {
		o.Do(func() {
			defer func() {
				if bad {
					p = recover()
					panic(p)
				}
			}()
			f()
			bad = false
		})
		if bad {
			panic(p)
		}
	}
}

// OnceValue stands in for sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

// OnceValues stands in for sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

// Cond stands in for sync.Cond.
type Cond struct {
	L    sync.Locker
	wait []*Req
	hb   byte
}

// NewCond returns a Cond with the locker.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

type condTicket struct {
	done bool
	t    *Task
}

//go:norace
func condJoin(s *Sched, t *Task, r *Req) bool {
	c := (*Cond)(r.obj)
	tk := &condTicket{}
	r.val = tk
	c.wait = append(c.wait, &Req{arg: tk})
	return true
}

//go:norace
func condWait(s *Sched, t *Task, r *Req) bool {
	tk := r.arg.(*condTicket)
	if tk.done {
		return true
	}
	tk.t = t
	return false
}

//go:norace
func condSignal(s *Sched, t *Task, r *Req) bool {
	c := (*Cond)(r.obj)
	for n := r.n; n > 0 && len(c.wait) > 0; n-- {
		tk := c.wait[0].arg.(*condTicket)
		c.wait = c.wait[1:]
		tk.done = true
		if tk.t != nil {
			s.ready(tk.t)
		}
	}
	return true
}

// Wait waits for a signal.
func (c *Cond) Wait() {
	if !Active() {
		outside("Cond.Wait")
	}
	r := &Req{try: condJoin, what: "Cond.Wait", obj: unsafe.Pointer(c)}
	if !op(r) {
		return
	}
	tk, _ := r.result()
	c.L.Unlock()
	op(&Req{try: condWait, what: "Cond.Wait", arg: tk})
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	if Active() && !Aborting() {
		op(&Req{try: condSignal, what: "Cond.Signal", obj: unsafe.Pointer(c), n: 1})
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	if Active() && !Aborting() {
		op(&Req{try: condSignal, what: "Cond.Broadcast", obj: unsafe.Pointer(c), n: 1 << 30})
	}
}

// Pool stands in for sync.Pool: it hands back what was put in last, or
// nothing, as the scheduler decides.
type Pool struct {
	New   func() any
	epoch uint32
	items []*Req
}

//go:norace
func poolGet(s *Sched, t *Task, r *Req) bool {
	p := (*Pool)(r.obj)
	if p.epoch != s.epoch {
		p.epoch, p.items = s.epoch, nil
	}
	if n := len(p.items); n > 0 && (s.choose(t, 8) != 7) {
		it := p.items[n-1]
		p.items = p.items[:n-1]
		r.val, r.ok, r.peer = it.arg, true, it
	}
	return true
}

//go:norace
func poolPut(s *Sched, t *Task, r *Req) bool {
	p := (*Pool)(r.obj)
	if p.epoch != s.epoch {
		p.epoch, p.items = s.epoch, nil
	}
	p.items = append(p.items, r)
	return true
}

// Get takes an item.
func (p *Pool) Get() any {
	if Active() {
		r := &Req{try: poolGet, what: "Pool.Get", obj: unsafe.Pointer(p)}
		if op(r) {
			if v, ok := r.result(); ok {
				return v
			}
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(v any) {
	if v != nil && Active() && !Aborting() {
		op(&Req{try: poolPut, what: "Pool.Put", obj: unsafe.Pointer(p), arg: v})
	}
}
