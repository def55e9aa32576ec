//go:build go1.21

package vsched

import (
	"time"
	"unsafe"
)

// Now is the virtual clock.
//
//go:noinline
func Now() time.Time {
	e, _ := current()
	if e == nil {
		return time.Now()
	}
	return time.Unix(0, e.now)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Advance moves the virtual clock (driver use); timers that become due fire when nothing else runs first.
//
//go:noinline
func Advance(d time.Duration) {
	e, _ := current()
	if e != nil {
		e.now += int64(d)
	}
}

//go:noinline
func Sleep(d time.Duration) {
	e, t := current()
	if e == nil {
		time.Sleep(d)
		return
	}
	if t.exiting {
		return
	}
	fired := false
	e.addTimer(int64(d), func() { fired = true })
	e.yield(t, "sleep", func() bool { return fired })
}

//go:noinline
func After(d time.Duration) <-chan time.Time {
	e, t := current()
	if e == nil {
		return time.After(d)
	}
	ch := make(chan time.Time, 1)
	if t.exiting {
		return ch
	}
	key := chanPtr(ch)
	e.chanFor(key, 1)
	keep(ch)
	e.addTimer(int64(d), func() { e.push(key, 1, time.Unix(0, e.now)) })
	return ch
}

// Timer mirrors time.Timer.
type Timer struct {
	C    <-chan time.Time
	ch   chan time.Time
	slot int
	seq  int
	f    func()
	real *time.Timer
}

//go:noinline
func NewTimer(d time.Duration) *Timer {
	e, _ := current()
	if e == nil {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	ch := make(chan time.Time, 1)
	keep(ch)
	t := &Timer{C: ch, ch: ch}
	t.arm(e, d)
	return t
}

//go:noinline
func AfterFunc(d time.Duration, f func()) *Timer {
	e, _ := current()
	if e == nil {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.arm(e, d)
	return t
}

func (t *Timer) arm(e *Exec, d time.Duration) {
	t.slot = e.addTimer(int64(d), func() {
		if t.f != nil {
			e.spawn("timer", false, t.f)
			return
		}
		e.push(chanPtr(t.ch), 1, time.Unix(0, e.now))
	})
	t.seq = e.timers[t.slot].seq
}

//go:noinline
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	e, _ := current()
	if e == nil {
		return false
	}
	tm := &e.timers[t.slot]
	if tm.active && tm.seq == t.seq {
		tm.active = false
		return true
	}
	return false
}

//go:noinline
func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	e, _ := current()
	w := t.Stop()
	if e != nil {
		t.arm(e, d)
	}
	return w
}

// Ticker mirrors time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	ch   chan time.Time
	d    time.Duration
	slot int
	seq  int
	real *time.Ticker
}

//go:noinline
func NewTicker(d time.Duration) *Ticker {
	e, _ := current()
	if e == nil {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	ch := make(chan time.Time, 1)
	keep(ch)
	t := &Ticker{C: ch, ch: ch, d: d}
	t.arm(e)
	return t
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

func (t *Ticker) arm(e *Exec) {
	t.slot = e.addTimer(int64(t.d), func() {
		e.push(chanPtr(t.ch), 1, time.Unix(0, e.now))
		t.arm(e)
	})
	t.seq = e.timers[t.slot].seq
}

//go:noinline
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	e, _ := current()
	if e == nil {
		return
	}
	tm := &e.timers[t.slot]
	if tm.active && tm.seq == t.seq {
		tm.active = false
	}
}

// keep prevents a channel used as an identity key from being collected and its
// address reused within an execution.
func keep(ch chan time.Time) {
	e, _ := current()
	e.kept = &keptChan{ch: ch, next: e.kept}
}

type keptChan struct {
	ch   interface{}
	next *keptChan
}

var _ = unsafe.Pointer(nil)

// BlockUntil waits, as one scheduling point, until cond holds or the virtual
// clock reaches the deadline (zero: none); it reports whether cond held.
//
//go:noinline
func BlockUntil(label string, cond func() bool, deadline time.Time) bool {
	e, t := current()
	if e == nil || t.exiting {
		return true
	}
	if deadline.IsZero() {
		e.yield(t, label, cond)
		return true
	}
	fired := deadline.UnixNano() <= e.now
	slot, seq := -1, 0
	if !fired {
		slot = e.addTimer(deadline.UnixNano()-e.now, func() { fired = true })
		seq = e.timers[slot].seq
	}
	e.yield(t, label, func() bool { return fired || cond() })
	if slot >= 0 && e.timers[slot].active && e.timers[slot].seq == seq {
		e.timers[slot].active = false
	}
	return cond()
}

// Background starts a thread of the environment; it need not end.
//
//go:noinline
func (x *X) Background(name string, f func()) {
	x.e.spawn(name, false, f)
}

// Background is the same for code without an X.
//
//go:noinline
func Background(name string, f func()) {
	if e, t := current(); e != nil && !t.exiting {
		e.spawn(name, false, f)
	}
}
