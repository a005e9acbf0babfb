package p

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Number interface{ ~int | ~float64 }

type Box[T Number] struct {
	sync.RWMutex
	v    []T
	once sync.Once
	pool *sync.Pool
	m    map[string]T
	f    func(T) T
}

func NewBox[T Number](n int) *Box[T] {
	return &Box[T]{v: make([]T, n), m: map[string]T{}, pool: &sync.Pool{New: func() interface{} { return new(T) }}}
}

func (b *Box[T]) Set(i int, x T) {
	b.Lock()
	defer b.Unlock()
	b.v[i] = x
	b.once.Do(func() { b.m["once"]++ })
}

func (b *Box[T]) Sum() (s T) {
	b.RLock()
	defer func() { b.RUnlock(); s *= 2 }()
	for _, x := range b.v {
		s += x
	}
	return
}

type locker struct{ sync.Locker }

var table = func() map[int]string {
	m := map[int]string{}
	for i := 0; i < 3; i++ {
		m[i] = strings.Repeat("x", i)
	}
	return m
}()

var errX = errors.New("x")

func init() { table[9] = "init" }

// Reset undoes what Run does to the package.
func Reset() { table = map[int]string{0: "", 1: "x", 2: "xx", 9: "init"} }

type shape interface{ Area() float64 }
type sq struct{ a float64 }
type ci struct{ r float64 }

func (s sq) Area() float64  { return s.a * s.a }
func (c *ci) Area() float64 { return 3 * c.r * c.r }

func kind(x interface{}) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case int, int8:
		return fmt.Sprintf("int %v", v)
	case sq:
		return "sq" + fmt.Sprint(v.a)
	case shape:
		return "shape" + fmt.Sprint(v.Area())
	case func() string:
		return v()
	case error:
		return v.Error()
	default:
		return "other"
	}
}

func labels() (out []int) {
outer:
	for i := 0; ; i++ {
		switch {
		case i == 2:
			continue outer
		case i > 6:
			break outer
		case i == 4:
			fallthrough
		case i == 5:
			out = append(out, 100+i)
		default:
			for j := 0; j < 5; j++ {
				if j == 3 {
					continue outer
				}
				out = append(out, i*10+j)
			}
		}
	}
	n := 0
again:
	n++
	if n < 4 {
		goto again
	}
	out = append(out, n)
	ch := make(chan int, 3)
	ch <- 1
	ch <- 2
	close(ch)
loop:
	for {
		select {
		case v, ok := <-ch:
			if !ok {
				break loop
			}
			out = append(out, v)
		}
	}
	return
}

func rec(d int) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("rec %v %w", r, errX)
		}
	}()
	if d == 0 {
		var m map[string]int
		m["a"] = 1
	}
	if d == 1 {
		panic("one")
	}
	a := []int{1, 2, 3}
	_ = a[d]
	return nil
}

type node struct {
	next *node
	val  int
}

func (n *node) each(f func(*node) bool) {
	for ; n != nil && f(n); n = n.next {
	}
}

func gen(ctx context.Context, n int) <-chan int {
	ch := make(chan int)
	go func(ch chan<- int) {
		defer close(ch)
		for i := 0; i < n; i++ {
			select {
			case ch <- i:
			case <-ctx.Done():
				return
			}
		}
	}(ch)
	return ch
}

func merge(cs ...<-chan int) <-chan int {
	out := make(chan int)
	var wg sync.WaitGroup
	wg.Add(len(cs))
	for _, c := range cs {
		c := c
		go func() {
			defer wg.Done()
			for v := range c {
				out <- v
			}
		}()
	}
	go func() { wg.Wait(); close(out) }()
	return out
}

type acc struct{ n int64 }

func (a *acc) add(k int64, done chan struct{}) { atomic.AddInt64(&a.n, k); done <- struct{}{} }

func two() (int, chan struct{}) { return 5, make(chan struct{}, 1) }

func Map[A, B any](xs []A, f func(A) B) []B {
	out := make([]B, 0, len(xs))
	for i := range xs {
		out = append(out, f(xs[i]))
	}
	return out
}

func ctx2() context.Context { return context.Background() }

func Run() string {
	var sb strings.Builder
	p := func(f string, a ...interface{}) { fmt.Fprintf(&sb, f+"\n", a...) }
	b := NewBox[float64](4)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); b.Set(i, float64(i)) }(i)
	}
	wg.Wait()
	p("%v %v", b.Sum(), b.m["once"])
	keys := []int{}
	for k := range table {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	p("%v", keys)
	for k, v := range table {
		if v == "" {
			delete(table, k)
		}
	}
	p("%d", len(table))
	p("%s %s %s %s %s %s %s", kind(nil), kind(int8(3)), kind(sq{2}), kind(&ci{1}), kind(func() string { return "f" }), kind(errX), kind(1.5))
	p("%v", labels())
	p("%v %v %v %v", rec(0), rec(1), rec(2), rec(7))
	p("%v", errors.Is(rec(1), errX))
	l := &node{&node{&node{nil, 3}, 2}, 1}
	s := 0
	l.each(func(n *node) bool { s += n.val; return n.val < 2 })
	p("%d", s)
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), "k", "v"))
	t := 0
	for v := range merge(gen(ctx, 10), gen(ctx, 20)) {
		t += v
	}
	cancel()
	p("%d %v %v", t, ctx.Err(), ctx.Value("k"))
	a := &acc{}
	d := make(chan struct{})
	go a.add(3, d)
	<-d
	f := a.add
	go f(4, d)
	<-d
	go (*acc).add(a, 2, d)
	<-d
	p("%d", atomic.LoadInt64(&a.n))
	k, q := two()
	go func(k int, q chan struct{}) { a.n += int64(k); q <- struct{}{} }(k, q)
	_, ok := <-q
	p("%d %v", a.n, ok)
	go func(int, chan struct{}) { q <- struct{}{} }(two())
	<-q
	cc := make(chan chan int, 1)
	cc <- make(chan int, 1)
	x := <-cc
	x <- 42
	p("%d %d %d", len(x), cap(x), <-x)
	var mu sync.Mutex
	var lk sync.Locker = &mu
	lk.Lock()
	locker{lk}.Unlock()
	p("%v", mu.TryLock())
	mu.Unlock()
	c := sync.NewCond(&mu)
	ready := false
	go func() { mu.Lock(); ready = true; c.Broadcast(); mu.Unlock() }()
	mu.Lock()
	for !ready {
		c.Wait()
	}
	mu.Unlock()
	tctx, tc := context.WithTimeout(context.Background(), 20*time.Millisecond)
	defer tc()
	select {
	case <-tctx.Done():
		p("%v", tctx.Err())
	case <-time.After(5 * time.Second):
		p("late")
	}
	select {
	case <-tctx.Done():
	default:
		p("no")
	}
	tk := time.NewTicker(2 * time.Millisecond)
	t0 := time.Now()
	<-tk.C
	<-tk.C
	tk.Stop()
	p("ticks %v", time.Since(t0) >= 4*time.Millisecond)
	cx, cxc := context.WithTimeoutCause(ctx2(), time.Millisecond, errX)
	<-cx.Done()
	p("%v %v", cx.Err(), context.Cause(cx) == errX)
	cxc()
	oc, occ := context.WithCancel(context.Background())
	wo, woc := context.WithCancel(context.WithoutCancel(oc))
	occ()
	p("%v %v", oc.Err(), wo.Err())
	woc()
	p("%v", wo.Err())
	ran := make(chan bool, 1)
	stop := context.AfterFunc(oc, func() { ran <- true })
	p("%v %v", <-ran, stop())
	tm := time.NewTimer(time.Hour)
	p("%v", tm.Stop())
	start := time.Now()
	time.Sleep(3 * time.Millisecond)
	p("%v", time.Since(start) >= 3*time.Millisecond)
	runtime.Gosched()
	p("%v", Map([]int{1, 2, 3}, func(i int) string { return fmt.Sprint(i * i) }))
	var nilch chan int
	select {
	case nilch <- 1:
	case v := <-nilch:
		_ = v
	default:
		p("default")
	}
	v := b.pool.Get().(*float64)
	b.pool.Put(v)
	arr := [3][2]int{{1, 2}, {3}}
	for i, r := range arr {
		for j := range r {
			arr[i][j]++
		}
	}
	p("%v", arr)
	anon := struct {
		A int
		B []string
	}{1, []string{"q"}}
	p("%+v", anon)
	func() {
		defer func() { p("rec %v", recover()) }()
		var ch chan int
		close(ch)
	}()
	func() {
		defer func() { p("rec %v", recover()) }()
		ch := make(chan int)
		close(ch)
		ch <- 1
	}()
	func() {
		defer func() { p("rec %v", recover()) }()
		var w sync.WaitGroup
		w.Done()
	}()
	if n, err := fmt.Sscan("7", &k); err == nil && n == 1 {
		p("%d", k)
	} else if err != nil {
		p("%v", err)
	}
	var sm sync.Map
	sm.Store(1, 2)
	y, _ := sm.LoadOrStore(1, 3)
	p("%v", y)
	time := 5
	p("%d", time)
	const big = iota + 3
	p("%d", big)
	var i8 int8 = 127
	i8++
	p("%d %v", i8, 5&^3)
	var e atomic.Value
	e.Store("z")
	p("%v", e.Load())
	ctx3, c3 := context.WithCancelCause(ctx)
	c3(errX)
	p("%v %v", context.Cause(ctx3), ctx3.Err())
	return sb.String()
}
