// Package sim is the deterministic simulator that the checks run the library
// under. The instrumented copy of the library calls into it at every
// statement and for every operation whose outcome is not decided by the
// program text: starting a goroutine, channel operations and select, locks,
// wait groups, contexts, timers, map iteration order. One task runs at a
// time; which one is decided here, from a seed or from a recorded trace.
package sim

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

// Decision is one deviation from the default schedule. The default schedule
// keeps running the current task until it blocks, then takes the task that has
// been ready longest, and takes the first ready case of a select.
type Decision struct {
	T string `json:"t"`           // task at whose step the decision falls
	N int64  `json:"n"`           // that task's own step number
	K string `json:"k"`           // "p": which task runs next; "s": which select case
	I int    `json:"i,omitempty"` // several decisions at one step are numbered
	C string `json:"c"`           // the choice: a task, or an index
}

// Fault is an injected event that happens when the task reaches the step.
type Fault struct {
	T    string `json:"t"`
	N    int64  `json:"n"`
	Name string `json:"name"`
}

// Config says how one simulated execution is decided.
type Config struct {
	Policy    string     `json:"policy"` // walk, sync, pct, starve, default or replay
	Seed      uint64     `json:"seed"`
	P         int        `json:"p,omitempty"` // walk: mean steps between preemptions
	Depth     int        `json:"depth,omitempty"`
	Horizon   int64      `json:"horizon,omitempty"` // pct: where change points may fall
	Knobs     uint64     `json:"knobs"`             // seeds map order, CPU count and the like
	Decisions []Decision `json:"decisions,omitempty"`
	Faults    []Fault    `json:"faults,omitempty"`
	StepLimit int64      `json:"stepLimit,omitempty"`
}

// Stuck describes a task that can never finish.
type Stuck struct {
	Task string
	On   string
	Site int32
}

// Result is what one simulated execution came to.
type Result struct {
	Steps      int64
	Time       int64 // simulated microseconds
	Tasks      int
	Switches   int
	Trace      uint64 // hash of the whole schedule
	Decisions  []Decision
	FaultsHit  map[string]int
	Livelock   bool
	Deadlock   []Stuck // root task among them: the scenario itself is stuck
	RootDone   bool
	Crash      *Crash
	TaskSteps  map[string]int64
	ClockJumps int
}

// Crash is a panic that no one in its goroutine recovered: it would have
// ended the process.
type Crash struct {
	Task  string
	Value string
	Stack string
}

const (
	stRunnable = iota
	stBlocked
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	path     string
	hash     uint64
	kids     int
	wake     chan struct{}
	steps    int64
	stop     int64
	site     int32
	state    int
	req      *Req
	retry    *Req
	prio     uint64
	exiting  bool
	abortY   int
	faults   []Fault
	decs     []Decision
	decPos   int
	lastNote int64
	subN     int64
	subI     int
	seq      int64
}

const (
	kYield = iota
	kForcedYield
	kOp
	kSpawn
	kExit
)

// Req is one request of a task to the scheduler.
type Req struct {
	kind  int
	task  *Task
	try   func(s *Sched, t *Task, r *Req) bool
	what  string
	obj   unsafe.Pointer
	arg   any
	n     int64
	hb    byte
	done  bool
	val   any
	ok    bool
	idx   int
	peer  *Req
	panic string
	kid   *Task
	crash *Crash
}

type timer struct {
	when int64
	seq  int64
	fn   func()
	dead bool
}

// Sched is one simulated execution.
type Sched struct {
	cfg      Config
	rng      Rng
	tasks    []*Task
	runq     []*Task
	steps    int64
	grant    int64
	now      int64
	seq      int64
	skew     int64
	timers   []*timer
	chans    map[unsafe.Pointer]*chanState
	hb       byte
	reqCh    chan *Req
	doneCh   chan struct{}
	abortCh  chan struct{}
	aborting bool
	finished bool
	livelock bool
	crash    *Crash
	res      Result
	handlers map[string]func(arg string)
	change   []int64
	lowPrio  uint64
	fair     bool
	root     *Task
	epoch    uint32
	inFault  bool
	afterY   func()
}

var (
	active bool
	cur    *Task
	left   int64
	theS   *Sched
	epochs uint32
)

// Y marks a point between two statements at which another task may run.
//
//go:norace
func Y(site int32) {
	if !active {
		return
	}
	t := cur
	t.steps++
	t.site = site
	left--
	if left > 0 && t.steps < t.stop {
		return
	}
	slowY(t)
}

//go:norace
func slowY(t *Task) {
	s := theS
	if s.aborting {
		if !t.exiting {
			t.exiting = true
			runtime.Goexit()
		}
		t.abortY++
		if t.abortY > 100000 {
			runtime.Goexit()
		}
		left = 0
		return
	}
	s.request(t, &Req{kind: kYield, task: t})
}

// Yield is a point at which a task offers to let others run (Gosched).
//
//go:norace
func Yield() {
	if !active {
		return
	}
	t := cur
	if theS.aborting {
		slowY(t)
		return
	}
	t.steps++
	theS.request(t, &Req{kind: kForcedYield, task: t})
}

// Active reports whether a simulated execution is in progress.
//
//go:norace
func Active() bool { return active }

// Aborting reports whether the caller is being torn down after the execution.
//
//go:norace
func Aborting() bool { return active && theS != nil && theS.aborting }

// request hands control to the scheduler and returns when the task runs again.
//
//go:norace
func (s *Sched) request(t *Task, r *Req) {
	if RaceBuild {
		raceReleaseMerge(unsafe.Pointer(&s.hb))
		raceDisable()
		s.reqCh <- r
		<-t.wake
		raceEnable()
	} else {
		n := s.handle(t, r)
		if n != t {
			s.pass(n)
			<-t.wake
		}
	}
	if s.aborting {
		t.exiting = true
		runtime.Goexit()
	}
}

//go:norace
func (s *Sched) pass(n *Task) {
	if n == nil {
		s.doneCh <- struct{}{}
	} else {
		n.wake <- struct{}{}
	}
}

// op performs one simulated operation. It reports false when the task is being
// torn down and the operation must be skipped.
//
//go:norace
func op(r *Req) bool {
	t := cur
	s := theS
	if s.aborting {
		if !t.exiting {
			t.exiting = true
			runtime.Goexit()
		}
		return false
	}
	r.kind = kOp
	r.task = t
	t.steps++
	raceReleaseMerge(unsafe.Pointer(&r.hb))
	s.request(t, r)
	if r.peer != nil {
		raceAcquire(unsafe.Pointer(&r.peer.hb))
	}
	if r.panic != "" {
		panic(plainError(r.panic))
	}
	return true
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

// Go starts f as a new task.
func Go(f func()) {
	if !Active() {
		panic("verifsim: goroutine started outside a simulated execution")
	}
	k := spawn("")
	if k == nil {
		return
	}
	go k.main(f)
	Yield()
}

// Spawn is Go for the harness: the name becomes part of the task's path.
func Spawn(f func()) { Go(f) }

//go:norace
func spawn(_ string) *Task {
	t := cur
	s := theS
	if s.aborting {
		return nil
	}
	r := &Req{kind: kSpawn, task: t}
	s.request(t, r)
	return r.kid
}

func (t *Task) main(f func()) {
	normal := false
	defer func() {
		v := recover()
		var c *Crash
		if !normal && !t.isExiting() && v != nil {
			c = &Crash{Task: t.getPath(), Value: fmt.Sprint(v), Stack: trimStack(string(debug.Stack()))}
		} else if !normal && !t.isExiting() && v == nil {
			normal = true // runtime.Goexit by the code under test
		}
		t.exit(c)
	}()
	if !t.first() {
		return
	}
	f()
	normal = true
}

//go:norace
func (t *Task) isExiting() bool { return t.exiting }

//go:norace
func (t *Task) getPath() string { return t.path }

//go:norace
func (t *Task) first() bool {
	raceDisable()
	<-t.wake
	raceEnable()
	if theS.aborting {
		t.exiting = true
		return false
	}
	return true
}

//go:norace
func (t *Task) exit(c *Crash) {
	s := theS
	raceReleaseMerge(unsafe.Pointer(&s.hb))
	if s.aborting {
		raceDisable()
		s.abortCh <- struct{}{}
		raceEnable()
		return
	}
	t.steps++
	r := &Req{kind: kExit, task: t, crash: c}
	if RaceBuild {
		raceDisable()
		s.reqCh <- r
		raceEnable()
		return
	}
	s.pass(s.handle(t, r))
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// ---- scheduler side -------------------------------------------------------

func (s *Sched) newTask(parent *Task) *Task {
	path := "0"
	if parent != nil {
		path = parent.path + "." + strconv.Itoa(parent.kids)
		parent.kids++
	}
	t := &Task{path: path, hash: hashString(path), wake: make(chan struct{}, 1), stop: math.MaxInt64}
	for _, f := range s.cfg.Faults {
		if f.T == path {
			t.faults = append(t.faults, f)
		}
	}
	sort.SliceStable(t.faults, func(i, j int) bool { return t.faults[i].N < t.faults[j].N })
	for _, d := range s.cfg.Decisions {
		if d.T == path {
			t.decs = append(t.decs, d)
		}
	}
	sort.SliceStable(t.decs, func(i, j int) bool {
		a, b := t.decs[i], t.decs[j]
		if a.N != b.N {
			return a.N < b.N
		}
		return a.I < b.I
	})
	t.prio = mix(s.cfg.Seed^t.hash, 0x9e37) | 1<<63
	s.tasks = append(s.tasks, t)
	s.runq = append(s.runq, t)
	return t
}

// Run executes main as the root task until nothing can run any more.
func Run(cfg Config, handlers map[string]func(arg string), main func()) Result {
	if active {
		panic("verifsim: nested run")
	}
	epochs++
	s := &Sched{cfg: cfg, rng: NewRng(cfg.Seed), chans: map[unsafe.Pointer]*chanState{},
		reqCh: make(chan *Req), doneCh: make(chan struct{}, 1), abortCh: make(chan struct{}),
		handlers: handlers, epoch: epochs}
	if s.cfg.StepLimit == 0 {
		s.cfg.StepLimit = 24000000
	}
	s.res.FaultsHit = map[string]int{}
	if cfg.Policy == "pct" {
		h := cfg.Horizon
		if h < 10 {
			h = 2000
		}
		for i := 0; i < cfg.Depth; i++ {
			s.change = append(s.change, int64(s.rng.Intn(int(h))))
		}
		sort.Slice(s.change, func(i, j int) bool { return s.change[i] < s.change[j] })
		s.lowPrio = 1 << 40
	}
	theS = s
	s.root = s.newTask(nil)
	s.root.setStop(s)
	go s.root.main(main)
	active = true
	setCur(s.root, s.newGrant())
	s.root.wake <- struct{}{}
	if RaceBuild {
		s.loop()
	} else {
		<-s.doneCh
	}
	s.teardown()
	active = false
	cur = nil
	return s.res
}

func (s *Sched) loop() {
	for {
		raceDisable()
		r := <-s.reqCh
		raceEnable()
		raceAcquire(unsafe.Pointer(&s.hb))
		n := s.handle(r.task, r)
		if n == nil {
			return
		}
		raceDisable()
		n.wake <- struct{}{}
		raceEnable()
	}
}

//go:norace
func setCur(t *Task, g int64) {
	cur = t
	left = g
	theS.grant = g
}

func (s *Sched) teardown() {
	s.finished = true
	s.res.Steps = s.steps
	s.res.Time = s.now
	s.res.Tasks = len(s.tasks)
	s.res.Livelock = s.livelock
	s.res.Crash = s.crash
	s.res.RootDone = s.root.state == stDone
	s.res.TaskSteps = map[string]int64{}
	for _, t := range s.tasks {
		s.res.TaskSteps[t.path] = t.steps
		if t.state != stDone && !(t.state == stBlocked && t.req != nil && t.req.what == hook) {
			on := "running"
			if t.state == stBlocked && t.req != nil {
				on = t.req.what
			}
			s.res.Deadlock = append(s.res.Deadlock, Stuck{Task: t.path, On: on, Site: t.site})
		}
	}
	s.aborting = true
	for _, t := range s.tasks {
		if t.state == stDone {
			continue
		}
		setCur(t, 0)
		t.stop = 0
		raceDisable()
		t.wake <- struct{}{}
		<-s.abortCh
		raceEnable()
		raceAcquire(unsafe.Pointer(&s.hb))
	}
	s.flushChans()
}

// handle carries out one request and says which task runs next; nil ends the
// execution.
//
//go:norace
func (s *Sched) handle(t *Task, r *Req) *Task {
	s.steps += s.grant - left
	s.now += s.grant - left
	s.grant = left
	if r.kind == kSpawn {
		k := s.newTask(t)
		s.seq++
		k.seq = s.seq
		r.kid = k
		return t
	}
	if r.kind != kYield {
		s.steps++
		s.now++
	}
	s.fireFaults(t)
	switch r.kind {
	case kExit:
		t.state = stDone
		s.dequeue(t)
		if r.crash != nil {
			s.crash = r.crash
			return nil
		}
	case kOp:
		t.req = r
		if !r.try(s, t, r) {
			t.state = stBlocked
			s.dequeue(t)
		} else {
			t.req = nil
		}
	}
	s.fireTimers()
	if s.crash != nil {
		return nil
	}
	return s.schedule(t, r.kind)
}

func (s *Sched) fireFaults(t *Task) {
	for len(t.faults) > 0 && t.faults[0].N <= t.steps {
		f := t.faults[0]
		t.faults = t.faults[1:]
		s.fire(f.Name)
	}
}

func (s *Sched) fire(name string) {
	arg := ""
	key := name
	if i := strings.IndexByte(name, ':'); i >= 0 {
		key, arg = name[:i], name[i+1:]
	}
	h := s.handlers[key]
	if key == "jump" {
		d, _ := strconv.ParseInt(arg, 10, 64)
		s.now += d
		s.res.ClockJumps++
		s.res.FaultsHit["clock_jump"]++
		return
	}
	if h == nil {
		return
	}
	s.res.FaultsHit[key]++
	s.quietly(func() { h(arg) })
}

// quietly runs scheduler-side harness code during which the instrumented code
// must neither yield nor synchronise.
func (s *Sched) quietly(f func()) {
	setActive(false)
	s.inFault = true
	f()
	s.inFault = false
	setActive(true)
}

//go:norace
func setActive(b bool) { active = b }

func (s *Sched) fireTimers() {
	for len(s.timers) > 0 && s.timers[0].when <= s.now {
		tm := s.timers[0]
		s.timers = s.timers[1:]
		if !tm.dead {
			tm.fn()
		}
	}
}

func (s *Sched) addTimer(when int64, fn func()) *timer {
	s.seq++
	tm := &timer{when: when, seq: s.seq, fn: fn}
	s.timers = append(s.timers, tm)
	sort.SliceStable(s.timers, func(i, j int) bool { return s.timers[i].when < s.timers[j].when })
	return tm
}

func (s *Sched) dequeue(t *Task) {
	for i, x := range s.runq {
		if x == t {
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			return
		}
	}
}

func (s *Sched) ready(t *Task) {
	if t.state != stBlocked {
		return
	}
	t.state = stRunnable
	t.req = nil
	s.runq = append(s.runq, t)
}

// readyRetry makes a blocked task runnable to try its request again.
func (s *Sched) readyRetry(t *Task) {
	if t.state != stBlocked {
		return
	}
	t.retry = t.req
	t.state = stRunnable
	s.runq = append(s.runq, t)
}

func (t *Task) setStop(s *Sched) {
	t.stop = math.MaxInt64
	if len(t.faults) > 0 {
		t.stop = t.faults[0].N
	}
	if s.cfg.Policy == "replay" {
		for t.decPos < len(t.decs) && t.decs[t.decPos].N <= t.steps {
			t.decPos++
		}
		if t.decPos < len(t.decs) && t.decs[t.decPos].N < t.stop {
			t.stop = t.decs[t.decPos].N
		}
	}
}

func (s *Sched) newGrant() int64 {
	g := s.cfg.StepLimit + 1 - s.steps
	if s.fair {
		if g > 20 {
			g = 20
		}
		return g
	}
	half := s.cfg.StepLimit/2 + 1 - s.steps
	if half < 1 {
		half = 1
	}
	if half < g {
		g = half
	}
	if len(s.timers) > 0 {
		if d := s.timers[0].when - s.now; d < g {
			g = d
		}
	}
	switch s.cfg.Policy {
	case "walk", "starve":
		p := s.cfg.P
		if p < 1 {
			p = 16
		}
		// geometric with mean p
		x := s.rng.Float()
		k := int64(math.Ceil(math.Log(1-x) / math.Log(1-1/float64(p+1))))
		if k < 1 {
			k = 1
		}
		if k < g {
			g = k
		}
	case "pct":
		for len(s.change) > 0 && s.change[0] <= s.steps {
			s.change = s.change[1:]
		}
		if len(s.change) > 0 {
			if d := s.change[0] - s.steps; d < g {
				g = d
			}
		}
	}
	if g < 1 {
		g = 1
	}
	return g
}

// schedule picks the next task.
//
//go:norace
func (s *Sched) schedule(t *Task, kind int) *Task {
	from := t
	ticks := 0
	for {
		if s.steps >= s.cfg.StepLimit {
			s.livelock = true
			return nil
		}
		if !s.fair && s.steps >= s.cfg.StepLimit/2 {
			s.fair = true
		}
		if len(s.runq) == 0 {
			if len(s.timers) > 0 {
				// a ticker nobody listens to would go on for ever
				if ticks++; ticks == 1000000 || ticks == 100 && s.allDone() {
					return nil
				}
				if s.timers[0].when > s.now {
					s.now = s.timers[0].when
				}
				s.fireTimers()
				continue
			}
			return nil
		}
		next := s.pick(t, kind)
		if next.retry != nil {
			r := next.retry
			next.retry = nil
			next.req = r
			if !r.try(s, next, r) {
				next.state = stBlocked
				s.dequeue(next)
				kind = kForcedYield
				continue
			}
			next.req = nil
		}
		if next != from {
			s.res.Switches++
			s.res.Trace = mix(s.res.Trace^from.hash, uint64(from.steps)) ^ next.hash
			s.seq++
			next.seq = s.seq
		} else if left > 0 && kind == kYield {
			// only stopped for a fault or a decision: keep the grant
			next.setStop(s)
			setCur(next, left)
			return next
		}
		next.setStop(s)
		setCur(next, s.newGrant())
		return next
	}
}

func (s *Sched) pick(t *Task, kind int) *Task {
	def := s.runq[0]
	if t.state == stRunnable && t.retry == nil {
		def = t
	}
	if kind == kForcedYield && len(s.runq) > 1 && def == t && s.cfg.Policy == "default" {
		def = t
	}
	var c *Task
	switch s.cfg.Policy {
	case "default":
		c = def
		if s.fair && t.state == stRunnable && left <= 0 {
			c = s.rotate(t)
		}
	case "replay":
		c = def
		if d := s.lookup(t, "p"); d != nil {
			for _, x := range s.runq {
				if x.path == d.C {
					c = x
				}
			}
		} else if s.fair && left <= 0 {
			c = def
		}
		return c
	default:
		c = s.policyPick(t, kind, def)
	}
	if c != def {
		s.note(t, "p", c.path)
	} else {
		s.skip(t)
	}
	return c
}

func (s *Sched) rotate(t *Task) *Task {
	// least recently run first
	best := s.runq[0]
	for _, x := range s.runq {
		if x.seq < best.seq {
			best = x
		}
	}
	return best
}

func (s *Sched) allDone() bool {
	for _, t := range s.tasks {
		if t.state != stDone {
			return false
		}
	}
	return true
}

func (s *Sched) policyPick(t *Task, kind int, def *Task) *Task {
	if len(s.runq) == 1 {
		return s.runq[0]
	}
	if s.fair {
		if left <= 0 || t.state != stRunnable || kind != kYield {
			return s.rotate(t)
		}
		return def
	}
	switch s.cfg.Policy {
	case "walk":
		if def == t && kind == kYield && left > 0 {
			return def
		}
		if def == t && kind == kOp && s.rng.Intn(4) != 0 {
			return def
		}
		return s.runq[s.rng.Intn(len(s.runq))]
	case "sync":
		if def == t && kind == kYield {
			return def
		}
		if def == t && s.rng.Intn(2) == 0 {
			return def
		}
		return s.runq[s.rng.Intn(len(s.runq))]
	case "starve":
		if def == t && kind == kYield && left > 0 {
			return def
		}
		var live []*Task
		for _, x := range s.runq {
			if mix(x.hash, s.cfg.Seed)%3 != 0 {
				live = append(live, x)
			}
		}
		if len(live) == 0 {
			live = s.runq
		}
		return live[s.rng.Intn(len(live))]
	case "pct":
		if t.state == stRunnable && left <= 0 {
			t.prio = s.lowPrio
			s.lowPrio--
		}
		best := s.runq[0]
		for _, x := range s.runq {
			if x.prio > best.prio {
				best = x
			}
		}
		return best
	}
	return def
}

// Several decisions can fall at one step of a task; they are numbered.
func (s *Sched) index(t *Task) int {
	if t.subN != t.steps {
		t.subN = t.steps
		t.subI = 0
	}
	i := t.subI
	t.subI++
	return i
}

func (s *Sched) skip(t *Task) { s.index(t) }

func (s *Sched) note(t *Task, k, c string) {
	i := s.index(t)
	s.res.Decisions = append(s.res.Decisions, Decision{T: t.path, N: t.steps, K: k, I: i, C: c})
}

func (s *Sched) lookup(t *Task, k string) *Decision {
	i := s.index(t)
	lo := sort.Search(len(t.decs), func(j int) bool { return t.decs[j].N >= t.steps })
	for ; lo < len(t.decs) && t.decs[lo].N == t.steps; lo++ {
		if t.decs[lo].K == k && t.decs[lo].I == i {
			return &t.decs[lo]
		}
	}
	return nil
}

// choose decides among n equally possible outcomes at t's current step.
func (s *Sched) choose(t *Task, n int) int {
	if n <= 1 {
		return 0
	}
	if s.cfg.Policy == "replay" {
		if d := s.lookup(t, "s"); d != nil {
			i, _ := strconv.Atoi(d.C)
			if i >= 0 && i < n {
				s.res.Trace = mix(s.res.Trace, uint64(i))
				return i
			}
		}
		s.res.Trace = mix(s.res.Trace, 0)
		return 0
	}
	i := 0
	if s.cfg.Policy != "default" {
		i = s.rng.Intn(n)
	}
	if i != 0 {
		s.note(t, "s", strconv.Itoa(i))
	} else {
		s.skip(t)
	}
	s.res.Trace = mix(s.res.Trace, uint64(i))
	return i
}

// Seq is a number that grows with every step of the execution; the harness
// stamps the events of a history with it.
//
//go:norace
func Seq() int64 {
	if theS == nil {
		return 0
	}
	s := theS
	return s.steps + s.grant - left
}

// Steps is the number of steps the calling task has taken.
//
//go:norace
func Steps() int64 {
	if cur == nil {
		return 0
	}
	return cur.steps
}

// TotalSteps is the number of steps of the whole execution so far; unlike Seq
// it may be read by scheduler-side code.
//
//go:norace
func TotalSteps() int64 { return Seq() }

// Path names the calling task.
//
//go:norace
func Path() string {
	if cur == nil {
		return ""
	}
	return cur.path
}

// Now is the simulated clock in microseconds.
//
//go:norace
func Now() int64 {
	if theS == nil {
		return 0
	}
	return theS.now + theS.grant - left
}

// ---- randomness -------------------------------------------------------------

// Rng is splitmix64.
type Rng struct{ x uint64 }

// NewRng seeds a generator.
func NewRng(seed uint64) Rng { return Rng{x: seed ^ 0x6a09e667f3bcc909} }

// Uint64 returns the next value.
func (r *Rng) Uint64() uint64 {
	r.x += 0x9e3779b97f4a7c15
	z := r.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Float returns a value in [0,1).
func (r *Rng) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b + 0x7f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix combines two hashes.
func Mix(a, b uint64) uint64 { return mix(a, b) }

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
