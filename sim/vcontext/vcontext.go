// Package context: cancellations wake simulated goroutines, deadlines are
// virtual.
package context

import (
	"context"
	"sync/atomic"
	"time"

	vtime "github.com/oov/psd/verifsim/vtime"

	"github.com/oov/psd/verifsim/vsim"
)

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c, f := context.WithCancel(parent)
	return c, func() { f(); vsim.Poke() }
}
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c, f := context.WithCancelCause(parent)
	return c, func(e error) { f(e); vsim.Poke() }
}

type deadlineCtx struct {
	context.Context
	at  time.Time
	exp *atomic.Bool
}

func (d deadlineCtx) Deadline() (time.Time, bool) { return d.at, true }
func (d deadlineCtx) Err() error {
	if e := d.Context.Err(); e != nil {
		if d.exp.Load() {
			return context.DeadlineExceeded
		}
		return e
	}
	return nil
}
func WithTimeout(parent context.Context, t time.Duration) (context.Context, context.CancelFunc) {
	c, f := context.WithCancel(parent)
	exp := new(atomic.Bool)
	tm := vsim.AfterVirtual(int64(t), func() { exp.Store(true); f(); vsim.Poke() })
	return deadlineCtx{c, vtime.Now().Add(t), exp}, func() { tm.Stop(); f(); vsim.Poke() }
}
func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, vtime.Until(t))
}

// AfterFunc calls f in a goroutine of its own after ctx is done.
// As with the real one stop reports false from the cancellation on.
func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	stopped := make(chan struct{})
	var over atomic.Int32 // 1: f is or will be called, 2: stopped
	vsim.Go(func() {
		switch vsim.Select(false, vsim.RecvCase(ctx.Done()), vsim.RecvCase((<-chan struct{})(stopped))) {
		case 0:
			if over.CompareAndSwap(0, 1) || over.Load() == 1 {
				f()
			}
		}
	})
	return func() bool {
		vsim.Yield()
		if ctx.Err() != nil {
			over.CompareAndSwap(0, 1)
			return false
		}
		if !over.CompareAndSwap(0, 2) {
			return false
		}
		vsim.Close(stopped)
		return true
	}
}
