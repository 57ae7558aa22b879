// Package vh runs scenarios under the simulator, shrinks and replays failures
// and counts what was covered.
package vh

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	vsync "github.com/oov/psd/verifsim/vsync"

	"github.com/oov/psd/verifsim/vsim"
)

// Scenario is one kind of simulated run.
type Scenario struct {
	Name   string
	Weight int
	Limit  int64 // steps
	Fn     func(c *Ctx)
}

// Property is what a check decides.
type Property struct {
	ID    string
	Scens []Scenario
	// Rule describes how cases are made and what makes one non-trivial.
	Rule string
	Real []string
	Stub []string
}

var props = map[string]*Property{}

// Register adds a property.
func Register(p *Property) { props[p.ID] = p }

type counter struct {
	name string
	n    int
}

// Ctx is one run.
type Ctx struct {
	Prop    string
	Scen    string
	Gen     *vsim.Stream
	Sched   *vsim.Stream
	Fault   *vsim.Stream
	Verbose bool

	faults  [48]counter
	nfaults int
	probes  [48]counter
	nprobes int
	digest  uint64
	trivial bool
	desc    []string
	sample  string
}

// Hit counts a fault that really happened.
//
//go:norace
func (c *Ctx) Hit(kind string) { hit(c.faults[:], &c.nfaults, kind) }

// Probe counts a condition that was reached.
//
//go:norace
func (c *Ctx) Probe(kind string) { hit(c.probes[:], &c.nprobes, kind) }

//go:norace
func hit(l []counter, n *int, kind string) {
	for i := 0; i < *n; i++ {
		if l[i].name == kind {
			l[i].n++
			return
		}
	}
	if *n < len(l) {
		l[*n].name, l[*n].n = kind, 1
		*n++
	}
}

// Digest mixes v into the identity of the run's input.
//
//go:norace
func (c *Ctx) Digest(v uint64) { c.digest = vsim.Mix(c.digest ^ v) }

// DigestBytes mixes b into the identity of the run's input.
func (c *Ctx) DigestBytes(b []byte) {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	c.Digest(h)
}

// Trivial marks the run as one that tested nothing.
func (c *Ctx) Trivial() { c.trivial = true }

// Desc adds to the human readable description of the run.
func (c *Ctx) Desc(f func() string) {
	if c.Verbose && len(c.desc) < 400 {
		c.desc = append(c.desc, f())
	}
}

// Sig is set on violations: what kind of violation it is, without details.
type vioMsg struct{ sig, msg string }

// Fail ends the run with a violation.
func (c *Ctx) Fail(sig string, format string, a ...any) {
	vsim.Abort("wrong:"+sig, fmt.Sprintf(format, a...))
}

// Call runs code of the library; a panic in it is a violation.
func (c *Ctx) Call(what string, fn func()) {
	defer func() {
		if e := recover(); e != nil {
			if vsim.Killing() {
				panic(e)
			}
			vsim.AbortStack("panic", fmt.Sprintf("%s panics: %v", what, e), string(debug.Stack()))
		}
	}()
	fn()
}

// CallRecover runs fn and returns its panic value.
func (c *Ctx) CallRecover(fn func()) (p any, stack string) {
	defer func() {
		if e := recover(); e != nil {
			p, stack = e, string(debug.Stack())
		}
	}()
	fn()
	return nil, ""
}

// Group is a set of simulated client tasks.
type Group struct {
	wg vsync.WaitGroup
}

// Go starts a client task; panics in it outside Call are faults of the harness.
func (c *Ctx) Go(g *Group, name string, fn func()) {
	if g != nil {
		g.wg.Add(1)
	}
	vsim.GoNamed(name, func() {
		if g != nil {
			defer g.wg.Done()
		}
		defer func() {
			if e := recover(); e != nil {
				if vsim.Killing() {
					return
				}
				vsim.AbortStack("harness", fmt.Sprintf("panic in harness task %s: %v", name, e), string(debug.Stack()))
			}
		}()
		fn()
	})
}

// Wait waits for all tasks of the group.
func (g *Group) Wait() { g.wg.Wait() }

// NoLeak lets everything else run and fails if goroutines are left blocked.
func (c *Ctx) NoLeak(what string) {
	if left := vsim.Drain(); len(left) > 0 {
		c.Fail("leak", "%s left goroutines blocked for ever: %s", what, strings.Join(left, "; "))
	}
}

// Pick draws an index weighted by w.
func Pick(s *vsim.Stream, w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	n := s.Int(t)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return 0
}

func (p *Property) choose(h uint64) *Scenario {
	t := 0
	for i := range p.Scens {
		t += p.Scens[i].Weight
	}
	n := int(h % uint64(t))
	for i := range p.Scens {
		if n < p.Scens[i].Weight {
			return &p.Scens[i]
		}
		n -= p.Scens[i].Weight
	}
	return &p.Scens[0]
}

func (p *Property) scen(name string) *Scenario {
	for i := range p.Scens {
		if p.Scens[i].Name == name {
			return &p.Scens[i]
		}
	}
	return nil
}

// PropIDs lists the registered properties.
func PropIDs() []string {
	var l []string
	for k := range props {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
