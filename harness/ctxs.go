package main

import (
	"context"
	"time"

	g "github.com/rossmerr/graphblas"
	"verifsim"
)

func usec(n int64) time.Duration { return time.Duration(n) * time.Microsecond }

// wrapCtx wraps a context n times in a mode.
func wrapCtx(c context.Context, n int) context.Context {
	for i := 0; i < n && i < 6; i++ {
		c = g.NewContext(c, []g.Mode{g.Blocking, g.NonBlocking}[i%2])
	}
	return c
}

// ctxBox passes a context from a task to the scheduler's side, unseen by the
// race detector.
type ctxBox struct{ c *sim.Ctx }

//go:norace
func (b *ctxBox) set(c *sim.Ctx) *sim.Ctx { b.c = c; return c }

//go:norace
func (b *ctxBox) get() *sim.Ctx { return b.c }

// strike is the handler that cancels the context in the box.
func (b *ctxBox) strike(string) {
	if c := b.get(); c != nil {
		c.Strike(strikeErr())
	}
}

// theStrikeErr is the error of contexts struck in this run: most often that of
// a cancellation, else that of a deadline passed.
var theStrikeErr error

//go:norace
func strikeErr() error { return theStrikeErr }

// theStyle is what the contexts of this run are like.
var theStyle uint64

//go:norace
func style() uint64 { return theStyle }

type styleKey struct{ n int }

// newCtx makes a context to be cancelled; in some runs such contexts have
// deadlines far ahead, or are made from contexts with values.
func newCtx() *sim.Ctx {
	k := style()
	var parent context.Context
	if k%4 == 0 {
		parent = context.WithValue(context.WithValue(context.Background(), styleKey{1}, "one"), styleKey{2}, nil)
	}
	c := sim.NewCtx(parent)
	if k/4%3 == 0 {
		c.SetDeadline([]time.Duration{time.Hour, time.Minute, 100000 * time.Hour}[k/12%3])
	}
	return c
}

// idleCtx makes a context that is never cancelled; in some runs it cannot be.
func idleCtx() context.Context {
	switch style() / 36 % 4 {
	case 0:
		return context.Background()
	case 1:
		return context.WithValue(context.TODO(), styleKey{3}, 3)
	}
	return newCtx()
}

//go:norace
func setStyle(knob uint64) {
	theStyle = knob >> 24 & 0xffff
	setStrikeErr(knob)
}

//go:norace
func setStrikeErr(knob uint64) {
	theStrikeErr = context.Canceled
	if knob>>20%3 == 0 {
		theStrikeErr = context.DeadlineExceeded
	}
}

// once is a variable that tasks share unseen by the race detector.
type once struct{ v bool }

//go:norace
func (f *once) set() { f.v = true }

//go:norace
func (f *once) get() bool { return f.v }
