package scomp

import (
	"context"
	"fmt"
	"image"

	"github.com/oov/psd/composite"

	"github.com/oov/psd/verifsim/vh"
	"github.com/oov/psd/verifsim/vsim"
)

func init() {
	vh.Register(&vh.Property{
		ID: "C12",
		Scens: []vh.Scenario{
			{Name: "history", Weight: 6, Fn: c12History},
			{Name: "toggle", Weight: 3, Fn: c12Toggle},
		},
		Rule: "a generated RGB document, 1..9 rounds of attribute changes announced with SetDirtyByLayer, with completed and cancelled Render and RenderDiff calls under random GOMAXPROCS and schedules; every completed call is compared with a new tree in the same state; distinct = digest of document, history and schedule; trivial = no layer with pixels",
		Real: realParts, Stub: stubParts,
	})
	vh.Register(&vh.Property{
		ID: "C13",
		Scens: []vh.Scenario{
			{Name: "cancel", Weight: 12, Fn: c13Cancel},
			{Name: "prompt", Weight: 1, Fn: c13Prompt},
		},
		Rule: "Render and RenderDiff cancelled at a step drawn from the measured length of an undisturbed render, 1..5 times in a row, then completed; tall documents cancelled under a fair schedule, for the work that is left out (prompt); distinct = digest of document, cancellation points and schedule; trivial = no cancellation took place during a call",
		Real: realParts, Stub: stubParts,
	})
}

func hasPixels(t *composite.Tree) bool { return !t.Rect.Empty() }

// screen is a tree with a destination that shows its last result.
type screen struct {
	w     *world
	t     *composite.Tree
	ls    []*composite.Layer
	cur   *image.NRGBA       // nil: nothing shown yet
	base  *image.NRGBA       // cur before its first render
	steps int64              // length of an undisturbed render
	full  int64              // length of an undisturbed render of everything, 0: not measured
	late  []*composite.Layer // changed; to be announced while the next call runs
}

func newScreen(w *world) *screen {
	s := &screen{w: w}
	s.t = w.build()
	s.ls = layers(s.t)
	return s
}

// render runs one call and checks its outcome.
func (s *screen) render(diffOnly bool, cancelAt int64) {
	w, c := s.w, s.w.c
	procs(c)
	dst := s.cur
	base := s.base
	adopt := false
	if dst == nil || !diffOnly && c.Gen.P(1, 2) {
		dst = newDest(c.Gen, s.t.CanvasRect)
		base = copyOf(dst)
		adopt = true
		diffOnly = false
	}
	ctx := context.Background()
	var k *canceller
	if cancelAt >= 0 {
		k = cancelAfter(c, cancelAt)
		ctx = k.ctx
	}
	var err error
	what := "Render"
	var g vh.Group
	late := s.late
	s.late = nil
	if len(late) > 0 {
		at := int64(c.Fault.Int(int(s.steps) + 1))
		if cancelAt >= 0 && c.Fault.P(2, 3) {
			at = int64(c.Fault.Int(int(cancelAt) + 1))
		}
		c.Go(&g, "announcer", func() {
			vsim.WaitSteps(at)
			for _, l := range late {
				s.announce(l)
			}
		})
		c.Probe("announced during a call")
	}
	before := vsim.Steps()
	if diffOnly {
		what = "RenderDiff"
		c.Call(what, func() { err = s.t.Renderer.RenderDiff(ctx, dst) })
	} else {
		c.Call(what, func() { err = s.t.Renderer.Render(ctx, dst) })
	}
	n := vsim.Steps() - before
	var over int64
	if k != nil {
		over = k.end()
		k.cancel()
	}
	g.Wait()
	if k != nil {
		if over > 20000 && s.full == 0 {
			s.measure()
		}
		if over > 20000+4*s.full {
			c.Fail("late", "%s went on for %d steps after its context was cancelled (rendering everything takes %d)", what, over, s.full)
		}
	}
	c.Desc(func() string { return fmt.Sprintf("%s cancel=%d -> %v (%d steps)", what, cancelAt, err, n) })
	if err != nil {
		if k == nil || !k.fired() {
			c.Fail("error", "%s that was not cancelled returns %v", what, err)
		}
		if err != composite.ErrAborted {
			c.Fail("error", "cancelled %s returns %v", what, err)
		}
		c.Probe("aborted " + what)
		return
	}
	if k != nil && k.fired() {
		c.Probe("completed although cancelled")
	}
	if !diffOnly && k == nil && s.steps == 0 {
		s.steps = n
	}
	if adopt {
		s.cur, s.base = dst, base
	}
	if len(late) > 0 {
		return // this one need not show them yet
	}
	want := w.renderFresh(getState(s.t), base)
	if d := diff(dst, want); d != "" {
		c.Fail(what, "%s differs from a new tree in the same state: %s; state %v", what, d, getState(s.t))
	}
}

// measure finds out how long rendering everything takes.
func (s *screen) measure() {
	t := s.w.fresh()
	for _, l := range layers(t) {
		l.Visible, l.Opacity, l.MaskEnabled = true, 255, true
	}
	before := vsim.Steps()
	s.w.renderOne(t, image.NewNRGBA(t.CanvasRect))
	s.full = vsim.Steps() - before
}

func (s *screen) change(l *composite.Layer) {
	m := mutate(s.w.c.Gen, l)
	s.w.c.Desc(func() string { return "change " + m })
}

func (s *screen) announce(l *composite.Layer) {
	s.w.c.Call("SetDirtyByLayer", func() { s.t.Renderer.SetDirtyByLayer(l) })
}

func c12History(c *vh.Ctx) {
	w := newWorld(c, 12, 7)
	s := newScreen(w)
	if len(s.ls) == 0 || !hasPixels(s.t) {
		c.Trivial()
		return
	}
	if c.Gen.P(3, 4) {
		s.render(false, -1)
	}
	for n := c.Gen.Range(1, 9); n > 0; n-- {
		k := 1
		if c.Gen.P(1, 3) {
			k = c.Gen.Range(2, 4)
		}
		var pend []*composite.Layer
		for ; k > 0; k-- {
			l := s.ls[c.Gen.Int(len(s.ls))]
			s.change(l)
			pend = append(pend, l)
			if c.Gen.P(1, 2) {
				s.announce(l)
				pend = pend[:len(pend)-1]
			}
		}
		for len(pend) > 0 {
			i := c.Gen.Int(len(pend))
			s.announce(pend[i])
			pend = append(pend[:i], pend[i+1:]...)
		}
		if c.Gen.P(1, 5) {
			continue
		}
		if c.Gen.P(1, 4) {
			lim := s.steps
			if lim == 0 {
				lim = 20000
			}
			s.render(c.Gen.P(1, 2), int64(c.Fault.Int(int(lim)+1)))
		}
		s.render(c.Gen.P(2, 3), -1)
	}
	s.render(true, -1)
	c.NoLeak("rendering")
}

// c12Toggle changes one layer there and back and around its relatives.
func c12Toggle(c *vh.Ctx) {
	w := newWorld(c, 8, 8)
	s := newScreen(w)
	if len(s.ls) == 0 || !hasPixels(s.t) {
		c.Trivial()
		return
	}
	// everything visible and strong
	for _, l := range s.ls {
		if c.Gen.P(3, 4) {
			l.Visible = true
			if l.Opacity < 40 {
				l.Opacity = 255
			}
		}
	}
	s.render(false, -1)
	l := s.ls[c.Gen.Int(len(s.ls))]
	for n := 0; n < 4 && !l.Folder; n++ {
		l = s.ls[c.Gen.Int(len(s.ls))]
	}
	var near []*composite.Layer
	near = append(near, l)
	if l.Parent != nil && l.Parent.SeqID != composite.SeqIDRoot {
		near = append(near, l.Parent)
	}
	if l.ClippedBy != nil {
		near = append(near, l.ClippedBy)
	}
	near = append(near, l.Clip...)
	for i := range l.Children {
		near = append(near, &l.Children[i])
	}
	for n := c.Gen.Range(2, 6); n > 0; n-- {
		x := near[c.Gen.Int(len(near))]
		old := getAttr(x)
		s.change(x)
		s.announce(x)
		s.render(true, -1)
		if c.Gen.P(1, 3) {
			old.put(x)
			s.announce(x)
			s.render(true, -1)
		}
	}
}

func c13Cancel(c *vh.Ctx) {
	w := newWorld(c, 14, 6)
	s := newScreen(w)
	if len(s.ls) == 0 || !hasPixels(s.t) {
		c.Trivial()
		return
	}
	// measure on a tree of its own
	m := &screen{w: w, t: w.fresh()}
	m.ls = layers(m.t)
	m.render(false, -1)
	s.steps = m.steps
	aborted := false
	for n := c.Gen.Range(1, 3); n > 0; n-- {
		if c.Gen.P(1, 2) {
			l := s.ls[c.Gen.Int(len(s.ls))]
			s.change(l)
			s.announce(l)
		}
		for k := c.Fault.Range(1, 4); k > 0; k-- {
			at := int64(c.Fault.Int(int(s.steps*5/4) + 1))
			diffOnly := c.Gen.P(1, 2)
			if c.Gen.P(1, 4) {
				l := s.ls[c.Gen.Int(len(s.ls))]
				s.change(l)
				s.late = append(s.late, l)
			}
			if c.Fault.P(1, 8) {
				at = int64(c.Fault.Int(60))
			} else if diffOnly {
				at = at * int64(c.Fault.Int(9)) / 8
			}
			s.render(diffOnly, at)
			aborted = true
			if c.Gen.P(1, 4) {
				l := s.ls[c.Gen.Int(len(s.ls))]
				s.change(l)
				s.announce(l)
			}
		}
		if c.Gen.P(1, 3) {
			c.NoLeak("a cancelled render")
		}
		s.render(c.Gen.P(2, 3), -1)
	}
	if !aborted {
		c.Trivial()
	}
	c.NoLeak("a cancelled render")
}
