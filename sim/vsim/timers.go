package vsim

import (
	"context"
	"sync"
	"sync/atomic"
	"time"
)

const never = time.Duration(1<<63 - 1)

// clockwork is a timer or ticker of the code under test.  That it is waiting
// shows in a real timer, which is never let fire.
type clockwork struct {
	t     *time.Timer
	tick  *time.Ticker
	every time.Duration
	gen   int
	c     chan time.Time
	f     func()
	sync  atomic.Int32 // setting a timer happens before it fires
}

//go:norace
func (k *clockwork) start(d time.Duration) {
	k.gen++
	k.sync.Store(1)
	w.addTimer(d, k)
}

// went is called when the time has come.
//
//go:norace
func (k *clockwork) went(gen int, now time.Time) {
	if gen != k.gen {
		return
	}
	if k.tick != nil {
		k.gen++
		w.addTimer(k.every, k)
		if len(k.c) > 0 {
			return
		}
	} else if k.t != nil && !k.t.Stop() {
		return // somebody stopped it
	}
	if k.f != nil {
		w.pollTotal = ^uint64(0) // it may close a channel of its own
		add(daemon(func() {
			k.sync.Load()
			k.f()
		}))
		return
	}
	k.c <- now
	Wake(keyOf(&k.c))
}

//go:norace
func workOf(t *time.Timer, tick *time.Ticker) *clockwork {
	if !active {
		return nil
	}
	for _, k := range w.works {
		if (t != nil && k.t == t) || (tick != nil && k.tick == tick) {
			return k
		}
	}
	return nil
}

// NewTimer is time.NewTimer on the simulated clock.
//
//go:norace
func NewTimer(d time.Duration) *time.Timer {
	if !active {
		return time.NewTimer(d)
	}
	t := time.NewTimer(never)
	c := make(chan time.Time, 1)
	t.C = c
	k := &clockwork{t: t, c: c}
	w.works = Push(w.works, k)
	k.start(d)
	return t
}

// AfterFunc is time.AfterFunc on the simulated clock.
//
//go:norace
func AfterFunc(d time.Duration, f func()) *time.Timer {
	if !active {
		return time.AfterFunc(d, f)
	}
	t := time.AfterFunc(never, func() {})
	k := &clockwork{t: t, f: f}
	w.works = Push(w.works, k)
	k.start(d)
	return t
}

// NewTicker is time.NewTicker on the simulated clock.
//
//go:norace
func NewTicker(d time.Duration) *time.Ticker {
	if !active || d <= 0 {
		return time.NewTicker(d)
	}
	t := time.NewTicker(never)
	c := make(chan time.Time, 1)
	t.C = c
	k := &clockwork{tick: t, every: d, c: c}
	w.works = Push(w.works, k)
	k.start(d)
	return t
}

// Tick is time.Tick on the simulated clock.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// TimerOf has the methods of a timer.
type TimerOf struct{ *time.Timer }

// Timer gives the methods of t.
func Timer(t *time.Timer) TimerOf { return TimerOf{t} }

// Reset is that of time.Timer.
//
//go:norace
func (o TimerOf) Reset(d time.Duration) bool {
	k := workOf(o.Timer, nil)
	if k == nil {
		return o.Timer.Reset(d)
	}
	was := o.Timer.Reset(never)
	k.start(d)
	return was
}

// Stop is that of time.Timer.
//
//go:norace
func (o TimerOf) Stop() bool {
	if k := workOf(o.Timer, nil); k != nil {
		k.gen++
		w.drop(k)
	}
	return o.Timer.Stop()
}

// TickerOf has the methods of a ticker.
type TickerOf struct{ *time.Ticker }

// Ticker gives the methods of t.
func Ticker(t *time.Ticker) TickerOf { return TickerOf{t} }

// Reset is that of time.Ticker.
//
//go:norace
func (o TickerOf) Reset(d time.Duration) {
	k := workOf(nil, o.Ticker)
	if k == nil || d <= 0 {
		o.Ticker.Reset(d)
		return
	}
	k.every = d
	k.start(d)
}

// Stop is that of time.Ticker.
//
//go:norace
func (o TickerOf) Stop() {
	if k := workOf(nil, o.Ticker); k != nil {
		k.gen++
		w.drop(k)
	}
	o.Ticker.Stop()
}

// drop forgets the timers that will do nothing when they fire; a timer that was
// stopped may be set again.
//
//go:norace
func (w *world) drop(k *clockwork) {
	for i := 0; i < len(w.timers); {
		if w.timers[i].k == k {
			w.timers = Cut(w.timers, i)
			continue
		}
		i++
	}
}

// deadline is a context that ends at a time of the simulated clock.
type deadline struct {
	context.Context
	at   time.Time
	over atomic.Bool
}

func (d *deadline) Deadline() (time.Time, bool) { return d.at, true }

func (d *deadline) Err() error {
	err := d.Context.Err()
	if err != nil && d.over.Load() {
		return context.DeadlineExceeded
	}
	return err
}

// WithDeadline is context.WithDeadline on the simulated clock.
func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, at, nil)
}

// WithDeadlineCause is context.WithDeadlineCause on the simulated clock.
func WithDeadlineCause(parent context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	if !isActive() || parent == nil {
		return context.WithDeadlineCause(parent, at, cause)
	}
	return withTimeout(parent, Until(at), at, cause)
}

// WithTimeout is context.WithTimeout on the simulated clock.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}

// WithTimeoutCause is context.WithTimeoutCause on the simulated clock.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	if !isActive() || parent == nil {
		return context.WithTimeoutCause(parent, d, cause)
	}
	return withTimeout(parent, d, Now().Add(d), cause)
}

func withTimeout(parent context.Context, d time.Duration, at time.Time, cause error) (context.Context, context.CancelFunc) {
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	if cur, ok := parent.Deadline(); ok && cur.Before(at) {
		return context.WithCancel(parent) // the parent ends before
	}
	ctx, cancel := context.WithCancelCause(parent)
	c := &deadline{Context: ctx, at: at}
	t := AfterFunc(d, func() {
		if ctx.Err() == nil {
			c.over.Store(true)
			cancel(cause)
		}
	})
	var once sync.Once
	return c, func() {
		once.Do(func() { Timer(t).Stop() })
		cancel(context.Canceled)
	}
}
