// Package time replaces the clock-dependent part of the standard time package.
package time

import (
	"time"

	"ustack/zzsim"
)

// Now ...
func Now() time.Time { return zzsim.Now() }

// Since ...
func Since(t time.Time) time.Duration { return zzsim.Now().Sub(t) }

// Until ...
func Until(t time.Time) time.Duration { return t.Sub(zzsim.Now()) }

// Sleep ...
func Sleep(d time.Duration) { zzsim.SleepNano(int64(d)) }

// Timer ...
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	tm *zzsim.Timer
}

func fire(c chan time.Time) {
	zzsim.Push(c, zzsim.Now())
}

func (t *Timer) start(d time.Duration) {
	if zzsim.Dying() {
		return
	}
	n := zzsim.CurNode()
	if d < 0 {
		d = 0
	}
	t.tm = zzsim.After(int64(d), func() {
		if n.Dead {
			return
		}
		if t.f != nil {
			zzsim.GoOn(n, "AfterFunc", t.f)
		} else {
			fire(t.c)
		}
	})
}

// NewTimer ...
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

// AfterFunc ...
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// After ...
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop ...
func (t *Timer) Stop() bool {
	zzsim.S(-40)
	p := zzsim.Cancel(t.tm)
	if t.c != nil {
		select {
		case <-t.c:
			p = true
		default:
		}
	}
	return p
}

// Reset ...
func (t *Timer) Reset(d time.Duration) bool {
	p := t.Stop()
	t.start(d)
	return p
}

// Ticker ...
type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	d  time.Duration
	tm *zzsim.Timer
}

// NewTicker ...
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	if zzsim.Dying() {
		return
	}
	n := zzsim.CurNode()
	var tick func()
	tick = func() {
		if n.Dead {
			return
		}
		fire(t.c)
		t.tm = zzsim.After(int64(t.d), tick)
	}
	t.tm = zzsim.After(int64(t.d), tick)
}

// Stop ...
func (t *Ticker) Stop() {
	zzsim.S(-41)
	zzsim.Cancel(t.tm)
	select {
	case <-t.c:
	default:
	}
}

// Reset ...
func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	t.arm()
}

// Tick ...
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
