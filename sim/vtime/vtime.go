// Package time: the clock is virtual.
package time

import (
	"time"

	"github.com/oov/psd/verifsim/vsim"
)

var epoch = time.Unix(1700000000, 0)

func Now() time.Time                         { return epoch.Add(time.Duration(vsim.VNow() + 1000*vsim.Steps())) }
func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { vsim.Sleep(int64(d)) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time  { return NewTicker(d).C }

type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *vsim.Timer
}

func (t *Timer) arm(d time.Duration) {
	t.t = vsim.AfterVirtual(int64(d), func() {
		if t.f != nil {
			vsim.Go(t.f)
			return
		}
		select {
		case t.c <- Now():
		default:
		}
		vsim.Poke()
	})
}
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}
func (t *Timer) Stop() bool { return t.t.Stop() }
func (t *Timer) Reset(d time.Duration) bool {
	r := t.t.Stop()
	t.arm(d)
	return r
}

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *vsim.Timer
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.arm(d)
	return t
}
func (t *Ticker) arm(d time.Duration) {
	t.t = vsim.AfterVirtual(int64(d), func() {
		select {
		case t.c <- Now():
		default:
		}
		vsim.Poke()
		t.arm(d)
	})
}
func (t *Ticker) Stop()                 { t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) { t.t.Stop(); t.arm(d) }
