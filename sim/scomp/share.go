package scomp

import (
	"context"
	"fmt"
	"image"

	"github.com/oov/psd/composite"

	"github.com/oov/psd/verifsim/vh"
	"github.com/oov/psd/verifsim/vsim"
	vsync "github.com/oov/psd/verifsim/vsync"
)

func init() {
	vh.Register(&vh.Property{
		ID: "C16",
		Scens: []vh.Scenario{
			{Name: "own", Weight: 4, Fn: c16Own},
			{Name: "shared", Weight: 3, Fn: c16Shared},
			{Name: "free", Weight: 4, Fn: c16Free},
			{Name: "clones", Weight: 3, Fn: c16Clones},
		},
		Rule: "several goroutines render, change and announce on one tree, or use clones of it, under random schedules and cancellations; the pixels of every completed render, and of the last one, are compared with a new tree in that state; distinct = digest of document, schedule and GOMAXPROCS; trivial = no layers or no pixels",
		Real: realParts, Stub: stubParts,
	})
}

// counter is shared by clients without ordering them.
type counter struct{ n int }

//go:norace
func (k *counter) add(d int) { k.n += d }

//go:norace
func (k *counter) get() int { return k.n }

// shot is a completed render and the state that it should show.
type shot struct {
	st        state
	base, got *image.NRGBA
	what      string
}

// client is one goroutine; what it records is its own.
type client struct {
	log   []string
	shots []shot
}

func (k *client) logf(f string, a ...any) { k.log = append(k.log, fmt.Sprintf(f, a...)) }

// party runs clients on a tree.
type party struct {
	w    *world
	t    *composite.Tree
	ls   []*composite.Layer
	mu   vsync.RWMutex // the clients' own: guards the layers' attributes
	open counter       // changes that have not been announced
	g    vh.Group
	cs   []*client
	lim  int64
}

func newParty(c *vh.Ctx) *party {
	w := newWorld(c, 11, 6)
	p := &party{w: w}
	p.t = w.build()
	p.ls = layers(p.t)
	p.lim = 8000
	if len(p.ls) == 0 || !hasPixels(p.t) {
		c.Trivial()
		return nil
	}
	return p
}

func (p *party) spawn(name string, fn func(k *client)) {
	k := &client{}
	p.cs = append(p.cs, k)
	p.w.c.Go(&p.g, name, func() { fn(k) })
}

func (p *party) wait() {
	p.g.Wait()
	for i, k := range p.cs {
		for _, s := range k.log {
			p.w.c.Desc(func() string { return fmt.Sprintf("client %d: %s", i, s) })
		}
	}
}

// check compares up to max of the recorded renders with new trees.
func (p *party) check(max int) {
	var all []shot
	for _, k := range p.cs {
		all = append(all, k.shots...)
	}
	for ; max > 0 && len(all) > 0; max-- {
		i := p.w.c.Gen.Int(len(all))
		s := all[i]
		all = append(all[:i], all[i+1:]...)
		if d := diff(s.got, p.w.renderFresh(s.st, s.base)); d != "" {
			p.w.c.Fail("pixels", "%s differs from a new tree in the state it had: %s; state %v", s.what, d, s.st)
		}
	}
}

// last renders once more when everything is announced.
func (p *party) last(t *composite.Tree, what string) {
	w, c := p.w, p.w.c
	base := newDest(c.Gen, t.CanvasRect)
	m := copyOf(base)
	var err error
	c.Call("Render", func() { err = t.Renderer.Render(context.Background(), m) })
	if err != nil {
		c.Fail("error", "Render that was not cancelled returns %v", err)
	}
	st := getState(t)
	if d := diff(m, w.renderFresh(st, base)); d != "" {
		c.Fail("lost", "%s: the last Render differs from a new tree in the same state: %s; state %v", what, d, st)
	}
}

// edit changes some layers and announces them, sooner or later.
func (p *party) edit(k *client, rounds int, locked bool) {
	c := p.w.c
	var pend []*composite.Layer
	announce := func(i int) {
		l := pend[i]
		pend = append(pend[:i], pend[i+1:]...)
		c.Call("SetDirtyByLayer", func() { p.t.Renderer.SetDirtyByLayer(l) })
		k.logf("announced #%d", l.SeqID)
		p.open.add(-1)
	}
	for ; rounds > 0; rounds-- {
		if locked {
			p.mu.Lock()
		}
		for n := c.Gen.Range(1, 2); n > 0; n-- {
			l := p.ls[c.Gen.Int(len(p.ls))]
			k.logf("change %s", mutate(c.Gen, l))
			pend = append(pend, l)
			p.open.add(1)
		}
		inside := c.Gen.P(1, 3)
		if inside {
			for len(pend) > 0 {
				announce(c.Gen.Int(len(pend)))
			}
		}
		if locked {
			p.mu.Unlock()
		}
		vsim.Y()
		for len(pend) > 0 && (rounds == 1 || c.Gen.P(3, 4)) {
			if locked {
				p.mu.RLock()
			}
			announce(c.Gen.Int(len(pend)))
			if locked {
				p.mu.RUnlock()
			}
			vsim.Y()
		}
		if c.Gen.P(1, 3) {
			vsim.WaitSteps(int64(c.Gen.Int(4000)))
		}
	}
}

// render renders once; own destinations are recorded for a check.
func (p *party) render(k *client, dst *image.NRGBA, locked bool) {
	c := p.w.c
	own := dst == nil
	var base *image.NRGBA
	if own {
		dst = newDest(c.Gen, p.t.CanvasRect)
		base = copyOf(dst)
	}
	ctx := context.Background()
	var ca *canceller
	if c.Fault.P(1, 5) {
		ca = cancelAfter(c, int64(c.Fault.Int(int(p.lim))))
		ctx = ca.ctx
	}
	diffOnly := !own && c.Gen.P(2, 3)
	var st state
	known := false
	if locked {
		p.mu.RLock()
		known = p.open.get() == 0
		st = getState(p.t)
	}
	var err error
	what := "Render"
	if diffOnly {
		what = "RenderDiff"
		c.Call(what, func() { err = p.t.Renderer.RenderDiff(ctx, dst) })
	} else {
		c.Call(what, func() { err = p.t.Renderer.Render(ctx, dst) })
	}
	if locked {
		p.mu.RUnlock()
	}
	if ca != nil {
		ca.end()
		ca.cancel()
	}
	k.logf("%s -> %v", what, err)
	if err != nil {
		if ca == nil || !ca.fired() || err != composite.ErrAborted {
			c.Fail("error", "%s returns %v", what, err)
		}
		return
	}
	if own && known {
		k.shots = append(k.shots, shot{st, base, dst, what})
	}
}

// c16Own: clients with destinations of their own; a lock of theirs guards the
// attributes of the layers, but neither the renderer nor the announcements.
func c16Own(c *vh.Ctx) {
	p := newParty(c)
	if p == nil {
		return
	}
	for i := c.Gen.Range(1, 3); i > 0; i-- {
		n := c.Gen.Range(1, 3)
		p.spawn("renderer", func(k *client) {
			for j := 0; j < n; j++ {
				p.render(k, nil, true)
				vsim.Y()
			}
		})
	}
	for i := c.Gen.Range(1, 2); i > 0; i-- {
		n := c.Gen.Range(1, 3)
		p.spawn("editor", func(k *client) { p.edit(k, n, true) })
	}
	p.wait()
	c.NoLeak("rendering")
	p.check(4)
	p.last(p.t, "several clients")
}

// c16Shared: all clients render into one destination.
func c16Shared(c *vh.Ctx) {
	p := newParty(c)
	if p == nil {
		return
	}
	dst := newDest(c.Gen, p.t.CanvasRect)
	base := copyOf(dst)
	c.Call("Render", func() { p.t.Renderer.Render(context.Background(), dst) })
	for i := c.Gen.Range(1, 3); i > 0; i-- {
		n := c.Gen.Range(1, 3)
		p.spawn("renderer", func(k *client) {
			for j := 0; j < n; j++ {
				p.render(k, dst, true)
				vsim.Y()
			}
		})
	}
	for i := c.Gen.Range(1, 2); i > 0; i-- {
		n := c.Gen.Range(1, 3)
		p.spawn("editor", func(k *client) { p.edit(k, n, true) })
	}
	p.wait()
	c.NoLeak("rendering")
	var err error
	c.Call("RenderDiff", func() { err = p.t.Renderer.RenderDiff(context.Background(), dst) })
	if err != nil {
		c.Fail("error", "RenderDiff that was not cancelled returns %v", err)
	}
	st := getState(p.t)
	if d := diff(dst, p.w.renderFresh(st, base)); d != "" {
		c.Fail("lost", "the last RenderDiff leaves pixels that differ from a new tree in the same state: %s; state %v", d, st)
	}
	p.last(p.t, "one destination")
}

// c16Free: layers change while renders run, as with a user interface that
// renders in the background. What such a render shows is undefined, but once
// all changes are announced the next one must be right.
func c16Free(c *vh.Ctx) {
	p := newParty(c)
	if p == nil {
		return
	}
	if vsim.RaceBuild {
		c.Trivial() // the clients themselves race
		return
	}
	dst := newDest(c.Gen, p.t.CanvasRect)
	base := copyOf(dst)
	c.Call("Render", func() { p.t.Renderer.Render(context.Background(), dst) })
	for i := c.Gen.Range(1, 2); i > 0; i-- {
		n := c.Gen.Range(1, 4)
		p.spawn("renderer", func(k *client) {
			for j := 0; j < n; j++ {
				p.render(k, dst, false)
				vsim.Y()
			}
		})
	}
	for i := c.Gen.Range(1, 2); i > 0; i-- {
		n := c.Gen.Range(1, 4)
		p.spawn("editor", func(k *client) { p.edit(k, n, false) })
	}
	p.wait()
	c.NoLeak("rendering")
	var err error
	c.Call("RenderDiff", func() { err = p.t.Renderer.RenderDiff(context.Background(), dst) })
	if err != nil {
		c.Fail("error", "RenderDiff that was not cancelled returns %v", err)
	}
	st := getState(p.t)
	if d := diff(dst, p.w.renderFresh(st, base)); d != "" {
		c.Fail("lost", "the last RenderDiff leaves pixels that differ from a new tree in the same state: %s; state %v", d, st)
	}
	p.last(p.t, "changes while rendering")
}

// c16Clones: every client has a clone of the tree, made while others work.
func c16Clones(c *vh.Ctx) {
	p := newParty(c)
	if p == nil {
		return
	}
	type own struct {
		t    *composite.Tree
		want state
	}
	var owns []*own
	var use func(k *client, t *composite.Tree, o *own, rounds int)
	use = func(k *client, t *composite.Tree, o *own, rounds int) {
		o.t = t
		o.want = getState(t)
		ls := layers(t)
		for ; rounds > 0; rounds-- {
			if c.Gen.P(2, 3) {
				i := c.Gen.Int(len(ls))
				k.logf("clone: change %s", mutate(c.Gen, ls[i]))
				o.want[i] = getAttr(ls[i])
				c.Call("SetDirtyByLayer", func() { t.Renderer.SetDirtyByLayer(ls[i]) })
			}
			m := newDest(c.Gen, t.CanvasRect)
			base := copyOf(m)
			var err error
			c.Call("Render", func() { err = t.Renderer.Render(context.Background(), m) })
			if err != nil {
				c.Fail("error", "Render that was not cancelled returns %v", err)
			}
			k.shots = append(k.shots, shot{append(state(nil), o.want...), base, m, "Render of a clone"})
		}
	}
	for i := c.Gen.Range(1, 3); i > 0; i-- {
		n := c.Gen.Range(1, 2)
		again := c.Gen.P(1, 4)
		o, o2 := &own{}, &own{}
		owns = append(owns, o)
		if again {
			owns = append(owns, o2)
		}
		p.spawn("cloner", func(k *client) {
			if c.Gen.P(1, 2) {
				vsim.WaitSteps(int64(c.Gen.Int(4000)))
			}
			p.mu.RLock()
			var t *composite.Tree
			c.Call("Clone", func() { t = p.t.Clone() })
			st := getState(p.t)
			p.mu.RUnlock()
			if s := links(t); s != "" {
				c.Fail("links", "clone: %s", s)
			}
			if got := getState(t); got.String() != st.String() {
				c.Fail("attributes", "the clone's layers are %v, the original's %v", got, st)
			}
			use(k, t, o, n)
			if again {
				var t2 *composite.Tree
				c.Call("Clone", func() { t2 = t.Clone() })
				if s := links(t2); s != "" {
					c.Fail("links", "clone of a clone: %s", s)
				}
				use(k, t2, o2, 1)
			}
		})
	}
	for i := c.Gen.Range(1, 2); i > 0; i-- {
		n := c.Gen.Range(1, 2)
		p.spawn("renderer", func(k *client) {
			for j := 0; j < n; j++ {
				p.render(k, nil, true)
				vsim.Y()
			}
		})
	}
	if c.Gen.P(1, 2) {
		n := c.Gen.Range(1, 2)
		p.spawn("editor", func(k *client) { p.edit(k, n, true) })
	}
	p.wait()
	c.NoLeak("rendering")
	for _, o := range owns {
		if got := getState(o.t); got.String() != o.want.String() {
			c.Fail("attributes", "a clone's layers are %v, its owner left them as %v", got, o.want)
		}
	}
	p.check(4)
	p.last(p.t, "original of clones")
	p.last(owns[c.Gen.Int(len(owns))].t, "clone")
	p.w.checkLinks(p.t)
}
