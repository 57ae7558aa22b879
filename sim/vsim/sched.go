package vsim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

type taskState uint8

const (
	tsRunnable taskState = iota
	tsBlocked
	tsDone
)

// Task is one simulated goroutine.
type Task struct {
	id      int
	name    string
	wake    chan struct{}
	state   taskState
	why     string
	prio    uint64
	exiting bool
	onChan  bool // blocked on channels: re-examined when native channels may have changed
	daemon  bool
	starve  bool
	since   int64 // step since which it waits to run (if it can)
}

type timer struct {
	step int64 // fires when steps >= step (step timers), or
	at   int64 // at virtual time at
	virt bool
	t    *Task
	seq  int
	fn   func()
	dead bool
}

// Verdict is what ended a run abnormally.
type Verdict struct {
	Class string
	Msg   string
	Stack string
}

// Sched is one simulated execution.
type Sched struct {
	gen      int64
	tasks    []*Task
	cur      *Task
	main     *Task
	host     chan struct{}
	sched    *Stream
	steps    int64
	armed    int64 // value countdown was last set to
	Limit    int64
	limitMsg string
	procs    int
	policy   int
	mean     int64
	syncNum  int
	pctLeft  int
	nextPre  int64 // step of next preemption
	lastFair int64
	boosted  uint64
	verdict  *Verdict
	killing  bool
	finished bool
	timers   []*timer
	tseq     int
	vnow     int64
	fair     bool
	doneNum  int   // ended tasks that are still in tasks
	lastTick int64 // step at which virtual time moved last
	chans    []*chanQ

	Switches int
	Hash     uint64
	Spawned  int
	alloc    int64
	extended int64 // by this much of alloc the limit has been raised
	AllocMax int64 // single allocation budget
	AllocTot int64
	Events   []string
	TraceOn  bool
	hostSync uint64 // orders the tasks of a run before what follows the run
	maxTasks int
	pokeStep int64
	runnable []*Task
}

var (
	cur       *Sched // active simulation
	countdown int64  = 1 << 62
	genCount  int64
)

// Y is the yield point the rewriter puts before statements.
//
//go:norace
func Y() {
	countdown--
	if countdown < 0 {
		slowY()
	}
}

//go:norace
func slowY() {
	s := cur
	if s == nil {
		countdown = 1 << 62
		return
	}
	if s.killing {
		countdown = 1 << 62
		return
	}
	s.account()
	if s.steps >= s.Limit && s.alloc > s.extended {
		// whoever has asked for much memory may take long to fill it
		s.Limit += 24 * (s.alloc - s.extended)
		s.extended = s.alloc
	}
	if s.steps >= s.Limit {
		s.abort("hang", fmt.Sprintf("no end after %d steps: %s", s.steps, s.describe()), string(debug.Stack()))
	}
	s.fireStepTimers()
	if s.steps-s.lastTick > busy {
		s.tick()
	}
	if s.steps-s.lastFair > fairness {
		// fairness: nobody that could run waits for ever
		s.lastFair = s.steps
		if n := s.oldest(); n != nil && s.steps-n.since > fairness {
			n.starve = false
			if s.policy == polPCT {
				s.boosted++
				n.prio = 1<<32 + s.boosted
			}
			s.arm()
			s.switchTo(n)
		}
	} else if s.nextPre > 0 && s.steps >= s.nextPre {
		s.armPreempt()
		s.reschedule(true)
	}
	s.arm()
}

const fairness = 300000

// busy is the number of steps after which time passes although something can run.
const busy = 1000000

//go:norace
func (s *Sched) account() {
	s.steps += s.armed - countdown
	s.armed = countdown
}

// arm sets the countdown to the next interesting step.
//
//go:norace
func (s *Sched) arm() {
	s.account()
	n := s.Limit - s.steps
	if s.nextPre > 0 && s.nextPre-s.steps < n {
		n = s.nextPre - s.steps
	}
	if f := s.lastFair + fairness + 1 - s.steps; f < n {
		n = f
	}
	for _, t := range s.timers {
		if !t.virt && !t.dead && t.step-s.steps < n {
			n = t.step - s.steps
		}
	}
	if n < 1 {
		n = 1
	}
	countdown = n - 1
	s.armed = countdown
}

//go:norace
func (s *Sched) armPreempt() {
	if s.mean <= 0 {
		s.nextPre = 0
		return
	}
	// 0 means: no more preemption (simplest)
	v := int64(s.sched.N(uint64(2 * s.mean)))
	if v == 0 && s.fair {
		v = s.mean
	}
	if v == 0 {
		s.nextPre = 0
		if !s.sched.replay {
			s.nextPre = s.steps + 2*s.mean
			// keep record and replay alike
			s.sched.Rec[len(s.sched.Rec)-1] = uint64(2*s.mean - 1)
			s.nextPre = s.steps + 2*s.mean - 1
		}
		return
	}
	s.nextPre = s.steps + v
}

// syncPoint is a scheduling opportunity at a synchronisation operation.
//
//go:norace
func (s *Sched) syncPoint() {
	if s.killing {
		return
	}
	s.steps++
	if s.syncNum > 0 && s.multi() && s.sched.P(s.syncNum, 16) {
		s.reschedule(true)
	}
}

//go:norace
func (s *Sched) multi() bool {
	n := 0
	for _, t := range s.tasks {
		if t.state == tsRunnable {
			n++
			if n > 1 {
				return true
			}
		}
	}
	return false
}

//go:norace
func (s *Sched) compact() {
	if s.doneNum < 6 {
		return
	}
	out := s.tasks[:0]
	for _, t := range s.tasks {
		if t.state != tsDone {
			out = append(out, t)
		}
	}
	for i := len(out); i < len(s.tasks); i++ {
		s.tasks[i] = nil
	}
	s.tasks, s.doneNum = out, 0
}

// oldest is the task that waits to run longest.
//
//go:norace
func (s *Sched) oldest() *Task {
	var best *Task
	for _, t := range s.tasks {
		if t.state == tsRunnable && t != s.cur && (best == nil || t.since < best.since) {
			best = t
		}
	}
	return best
}

// pick chooses the next task. curOK tells whether the current task may go on.
//
//go:norace
func (s *Sched) pick(curOK bool) *Task {
	s.compact()
	for {
		c := s.runnable[:0]
		if curOK || s.cur.state == tsRunnable {
			// (a task that blocks may be woken by the clock while it looks for another one)
			c = append(c, s.cur)
		}
		for _, t := range s.tasks {
			if t.state == tsRunnable && t != s.cur {
				c = append(c, t)
			}
		}
		s.runnable = c
		if len(c) > 0 {
			break
		}
		if s.pokeBlocked() {
			continue
		}
		if s.advanceClock() {
			continue
		}
		return nil
	}
	c := s.runnable
	if len(c) == 1 {
		return c[0]
	}
	switch s.policy {
	case polPCT:
		if curOK && s.pctLeft > 0 {
			s.pctLeft--
			s.cur.prio = uint64(s.pctLeft) // below all spawn priorities
		}
		best := c[0]
		for _, t := range c[1:] {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	case polStarve:
		// one kind of task runs only when nobody else can
		var ok []*Task
		for _, t := range c {
			if !t.starve {
				ok = append(ok, t)
			}
		}
		if len(ok) > 0 {
			c = ok
		}
	}
	return c[s.sched.Int(len(c))]
}

const (
	polRandom = iota
	polPCT
	polStarve
	polCount
)

// reschedule gives another task the chance to run.
//
//go:norace
func (s *Sched) reschedule(curOK bool) {
	n := s.pick(curOK)
	if n == nil {
		s.deadlock()
		return
	}
	s.switchTo(n)
}

//go:norace
func (s *Sched) switchTo(t *Task) {
	me := s.cur
	if t == me {
		return
	}
	s.Switches++
	me.since = s.steps
	s.Hash = (s.Hash ^ uint64(t.id+1)) * 1099511628211
	s.Hash = (s.Hash ^ uint64(s.steps)) * 1099511628211
	if s.TraceOn && len(s.Events) < 4000 {
		s.Events = append(s.Events, fmt.Sprintf("step %d: switch %s -> %s", s.steps, me, t))
	}
	s.cur = t
	raceOff()
	t.wake <- struct{}{}
	<-me.wake
	raceOn()
	s.afterWake(me)
}

//go:norace
func (s *Sched) afterWake(me *Task) {
	if s.killing {
		me.exiting = true
		runtime.Goexit()
	}
}

// block parks the current task until something calls ready on it.
//
//go:norace
func (s *Sched) block(why string) {
	me := s.cur
	if s.killing {
		me.exiting = true
		runtime.Goexit()
	}
	s.account()
	me.state = tsBlocked
	me.why = why
	n := s.pick(false)
	if n == nil {
		s.deadlock()
		return
	}
	if n == me { // woken while picking (timer, poke)
		return
	}
	s.switchTo(n)
	s.arm()
}

//go:norace
func (s *Sched) ready(t *Task) {
	if t.state == tsBlocked {
		t.state = tsRunnable
		t.since = s.steps
		t.why = ""
		t.onChan = false
	}
}

// pokeBlocked lets tasks blocked on channels look again (a channel the
// simulator does not manage may have been closed). True if any was woken.
// It does so once per step, so that a real deadlock is still seen.
//
//go:norace
func (s *Sched) pokeBlocked() bool {
	if s.pokeStep == s.steps {
		return false
	}
	s.pokeStep = s.steps
	woke := false
	for _, t := range s.tasks {
		if t.state == tsBlocked && t.onChan {
			s.ready(t)
			woke = true
		}
	}
	return woke
}

//go:norace
func (s *Sched) deadlock() {
	s.abort("deadlock", "all goroutines are blocked: "+s.describe(), "")
}

//go:norace
func (s *Sched) describe() string {
	var b strings.Builder
	n := 0
	for _, t := range s.tasks {
		if t.state == tsDone {
			continue
		}
		if n > 0 {
			b.WriteString("; ")
		}
		if n > 12 {
			b.WriteString("...")
			break
		}
		n++
		b.WriteString(t.String())
		if t.state == tsBlocked {
			b.WriteString(" blocked on " + t.why)
		} else if t == s.cur {
			b.WriteString(" running")
		} else {
			b.WriteString(" runnable")
		}
	}
	return b.String()
}

//go:norace
func (t *Task) String() string { return fmt.Sprintf("g%d(%s)", t.id, t.name) }

// abort ends the run with a verdict; it does not return.
//
//go:norace
func (s *Sched) abort(class, msg, stack string) {
	if s.verdict == nil {
		s.verdict = &Verdict{Class: class, Msg: msg, Stack: stack}
	}
	s.endRun()
}

//go:norace
func (s *Sched) endRun() {
	me := s.cur
	s.killing = true
	countdown = 1 << 62
	me.exiting = true
	runtime.Goexit()
}

// endKilled unwinds a goroutine that tries to go on after the run's end.
//
//go:norace
func (s *Sched) endKilled() {
	s.cur.exiting = true
	runtime.Goexit()
}

// Abort ends the current run with a verdict. It does not return.
//
//go:norace
func Abort(class, msg string) {
	s := cur
	if s == nil {
		panic(class + ": " + msg)
	}
	if s.killing {
		runtime.Goexit()
	}
	s.abort(class, msg, "")
}

// AbortStack is Abort with a stack trace.
//
//go:norace
func AbortStack(class, msg, stack string) {
	s := cur
	if s == nil {
		panic(class + ": " + msg + "\n" + stack)
	}
	if s.killing {
		runtime.Goexit()
	}
	s.abort(class, msg, stack)
}

//go:norace
func (s *Sched) newTask(name string) *Task {
	t := &Task{id: s.Spawned, name: name, wake: make(chan struct{}, 1), since: s.steps}
	s.Spawned++
	if s.policy == polPCT {
		t.prio = 1000 + s.sched.N(1<<20)
	}
	if s.policy == polStarve {
		t.starve = s.sched.P(1, 3)
	}
	s.tasks = append(s.tasks, t)
	if len(s.tasks) > s.maxTasks {
		s.maxTasks = len(s.tasks)
	}
	return t
}

// Go starts a simulated goroutine.
//
//go:norace
func Go(fn func()) {
	GoNamed(callerName(fn), fn)
}

//go:norace
func callerName(fn func()) string {
	pc := **(**uintptr)(unsafe.Pointer(&fn))
	f := runtime.FuncForPC(pc)
	if f == nil {
		return "?"
	}
	n := f.Name()
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

//go:norace
func GoNamed(name string, fn func()) {
	s := cur
	if s == nil {
		go fn()
		return
	}
	if s.killing {
		return
	}
	if s.Spawned > 200000 {
		s.abort("resource", "too many goroutines", "")
	}
	t := s.newTask(name)
	s.start(t, fn)
	s.syncPoint()
}

//go:norace
func (s *Sched) start(t *Task, fn func()) {
	go s.taskMain(t, fn)
}

//go:norace
func (s *Sched) taskMain(t *Task, fn func()) {
	raceOff()
	<-t.wake
	raceOn()
	if s.killing {
		s.taskExit(t)
		return
	}
	defer s.taskExit(t)
	defer s.taskRecover(t)
	fn()
}

//go:norace
func (s *Sched) taskRecover(t *Task) {
	if e := recover(); e != nil {
		if s.killing {
			return
		}
		st := string(debug.Stack())
		if s.verdict == nil {
			s.verdict = &Verdict{Class: "panic", Msg: fmt.Sprintf("panic in goroutine %s: %v", t, e), Stack: st}
		}
		s.killing = true
		countdown = 1 << 62
	}
}

//go:norace
func (s *Sched) taskExit(t *Task) {
	t.state = tsDone
	s.doneNum++
	raceRelease(unsafe.Pointer(&s.hostSync))
	if s.killing || t == s.main {
		if t == s.main && !s.killing {
			s.account()
			s.killing = true
			countdown = 1 << 62
		}
		raceOff()
		s.host <- struct{}{}
		raceOn()
		return
	}
	s.account()
	n := s.pick(false)
	if n == nil {
		s.verdict = &Verdict{Class: "deadlock", Msg: "all goroutines are blocked: " + s.describe()}
		s.killing = true
		countdown = 1 << 62
		raceOff()
		s.host <- struct{}{}
		raceOn()
		return
	}
	s.Switches++
	s.Hash = (s.Hash ^ uint64(n.id+1)) * 1099511628211
	s.cur = n
	s.arm()
	raceOff()
	n.wake <- struct{}{}
	raceOn()
}

// Config is the schedule part of a run.
type Config struct {
	Limit    int64
	AllocMax int64
	AllocTot int64
	Trace    bool
}

// Result is what a run leaves behind.
type Result struct {
	Verdict  *Verdict
	Steps    int64
	Switches int
	Spawned  int
	Hash     uint64
	Now      int64
	Events   []string
	Alloc    int64
}

// Run executes fn as the main task of a new simulation.
//
//go:norace
func Run(cfg Config, sched *Stream, fn func()) Result {
	if cur != nil {
		panic("vsim: nested Run")
	}
	genCount++
	s := &Sched{
		gen:      genCount,
		host:     make(chan struct{}, 4),
		sched:    sched,
		Limit:    cfg.Limit,
		AllocMax: cfg.AllocMax,
		AllocTot: cfg.AllocTot,
		TraceOn:  cfg.Trace,
		procs:    1,
		pokeStep: -1,
		Hash:     14695981039346656037,
	}
	if s.Limit == 0 {
		s.Limit = 50 << 20
	}
	// schedule policy of this run (swarm)
	means := [...]int64{0, 3000, 400, 60, 12, 3, 1}
	s.mean = means[sched.Int(len(means))]
	s.policy = sched.Int(polCount)
	s.syncNum = [...]int{0, 2, 8, 15}[sched.Int(4)]
	if s.policy == polPCT {
		s.pctLeft = 1 + sched.Int(200)
	}
	s.main = s.newTask("main")
	s.cur = s.main
	cur = s
	if s.mean > 0 {
		s.armPreempt()
	}
	s.armed = 0
	countdown = 0
	s.arm()
	s.start(s.main, fn)
	s.main.wake <- struct{}{}
	<-s.host
	// end every task that is left
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state == tsDone {
			continue
		}
		s.cur = t
		t.wake <- struct{}{}
		<-s.host
	}
	cur = nil
	raceAcquire(unsafe.Pointer(&s.hostSync))
	countdown = 1 << 62
	return Result{Verdict: s.verdict, Steps: s.steps, Switches: s.Switches, Spawned: s.Spawned, Hash: s.Hash, Now: s.vnow, Events: s.Events, Alloc: s.alloc}
}

// Active tells whether a simulation runs.
//
//go:norace
func Active() bool { return cur != nil }

// Gen is the number of the current run; 0 outside runs.
//
//go:norace
func Gen() int64 {
	if cur == nil {
		return 0
	}
	return cur.gen
}

//go:norace
func Steps() int64 {
	s := cur
	if s == nil {
		return 0
	}
	s.account()
	return s.steps
}

// SetLimit bounds the number of further steps.
//
//go:norace
func SetLimit(more int64) (old int64) {
	s := cur
	s.account()
	old = s.Limit - s.steps
	s.Limit = s.steps + more
	s.arm()
	return old
}

// SetProcs sets the simulated GOMAXPROCS.
//
//go:norace
func SetProcs(n int) {
	if cur != nil {
		cur.procs = n
	}
}

// Fair makes the rest of the run change tasks at random every mean steps or
// so, whatever policy was drawn for it.
//
//go:norace
func Fair(mean int64) {
	if cur == nil {
		return
	}
	cur.policy, cur.mean, cur.fair = polRandom, mean, true
	cur.account()
	cur.armPreempt()
	cur.arm()
}

//go:norace
func Procs() int {
	if cur == nil {
		return 1
	}
	return cur.procs
}

// Note adds a line to the run's trace.
//
//go:norace
func Note(f func() string) {
	s := cur
	if s != nil && s.TraceOn && len(s.Events) < 4000 {
		s.account()
		s.Events = append(s.Events, fmt.Sprintf("step %d: %s", s.steps, f()))
	}
}

//go:norace
func TaskID() int {
	if cur == nil {
		return -1
	}
	return cur.cur.id
}

// Yield lets others run.
//
//go:norace
func Yield() {
	s := cur
	if s == nil || s.killing {
		return
	}
	s.account()
	s.steps++
	s.reschedule(true)
	s.arm()
}

// Drain runs all other tasks until none of them can go on and returns a
// description of those that are left (blocked for ever).
//
//go:norace
func Drain() []string {
	s := cur
	if s == nil || s.killing {
		return nil
	}
	me := s.cur
	for {
		s.account()
		var n *Task
		c := s.runnable[:0]
		for _, t := range s.tasks {
			if t != me && t.state == tsRunnable {
				c = append(c, t)
			}
		}
		s.runnable = c
		if len(c) == 0 {
			if s.pokeBlocked() {
				continue
			}
			if s.advanceClock() {
				continue
			}
			break
		}
		n = c[s.sched.Int(len(c))]
		s.switchTo(n)
		s.arm()
	}
	var left []string
	for _, t := range s.tasks {
		if t != me && t.state == tsBlocked && !t.daemon {
			left = append(left, fmt.Sprintf("%s blocked on %s", t, t.why))
		}
	}
	return left
}

// ---- time ----

//go:norace
func (s *Sched) fireStepTimers() {
	for i := 0; i < len(s.timers); i++ {
		t := s.timers[i]
		if t.virt || t.dead || t.step > s.steps {
			continue
		}
		t.dead = true
		s.dropTimers()
		i = -1
		if t.t != nil {
			s.ready(t.t)
			s.switchTo(t.t)
		} else {
			t.fn()
		}
	}
}

//go:norace
func (s *Sched) dropTimers() {
	out := s.timers[:0]
	for _, t := range s.timers {
		if !t.dead {
			out = append(out, t)
		}
	}
	s.timers = out
}

// tick lets the next virtual timer fire although something can run.
//
//go:norace
func (s *Sched) tick() {
	s.lastTick = s.steps
	for _, t := range s.timers {
		if t.virt && !t.dead {
			s.advanceTo(true)
			return
		}
	}
}

// advanceClock jumps to the next timer when nothing can run.
//
//go:norace
func (s *Sched) advanceClock() bool { return s.advanceTo(false) }

//go:norace
func (s *Sched) advanceTo(virt bool) bool {
	var best *timer
	for _, t := range s.timers {
		if t.dead || virt && !t.virt {
			continue
		}
		if best == nil || t.less(best) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if best.virt {
		s.lastTick = s.steps
		if best.at > s.vnow {
			s.vnow = best.at
		}
	} else if best.step > s.steps {
		s.steps = best.step
	}
	best.dead = true
	s.dropTimers()
	if best.t != nil {
		s.ready(best.t)
	} else {
		best.fn()
	}
	return true
}

//go:norace
func (t *timer) less(o *timer) bool {
	if t.virt != o.virt {
		return !t.virt // step timers first
	}
	if t.virt {
		if t.at != o.at {
			return t.at < o.at
		}
	} else if t.step != o.step {
		return t.step < o.step
	}
	return t.seq < o.seq
}

// WaitSteps blocks the task until n more steps were executed (or nothing else
// can run).
//
//go:norace
func WaitSteps(n int64) {
	s := cur
	if s == nil || s.killing {
		return
	}
	s.account()
	s.tseq++
	s.timers = append(s.timers, &timer{step: s.steps + n, t: s.cur, seq: s.tseq})
	s.cur.daemon = true
	s.block("step timer")
	s.cur.daemon = false
}

// Timer is a virtual timer.
type Timer struct{ t *timer }

// AfterVirtual calls fn (in scheduler context, it must not block) after d
// virtual nanoseconds.
//
//go:norace
func AfterVirtual(d int64, fn func()) *Timer {
	s := cur
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timer{virt: true, at: s.vnow + d, fn: fn, seq: s.tseq}
	s.timers = append(s.timers, t)
	return &Timer{t}
}

// Stop stops a virtual timer.
//
//go:norace
func (t *Timer) Stop() bool {
	was := !t.t.dead
	t.t.dead = true
	if cur != nil {
		cur.dropTimers()
	}
	return was
}

// Sleep blocks for d virtual nanoseconds.
//
//go:norace
func Sleep(d int64) {
	s := cur
	if s == nil || s.killing {
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	s.tseq++
	s.timers = append(s.timers, &timer{virt: true, at: s.vnow + d, t: s.cur, seq: s.tseq})
	s.block("sleep")
}

//go:norace
func VNow() int64 {
	if cur == nil {
		return 0
	}
	return cur.vnow
}

// ---- allocations ----

type ints interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// Len passes an allocation length through the budget of the run.
func Len[I ints](n I, size uintptr) I {
	if n > 0 {
		checkAlloc(uint64(n), uint64(size))
	}
	return n
}

//go:norace
func checkAlloc(n, size uint64) {
	s := cur
	if s == nil || s.killing || s.AllocMax == 0 || size == 0 {
		return
	}
	if n > (1<<47)/size {
		return // the runtime refuses this with a panic
	}
	if n > uint64(s.AllocMax)/size {
		s.abort("resource", fmt.Sprintf("allocation of %d x %d bytes", n, size), "")
	}
	s.alloc += int64(n * size)
	if s.AllocTot > 0 && s.alloc > s.AllocTot {
		s.abort("resource", fmt.Sprintf("total allocation of %d bytes", s.alloc), "")
	}
}

// Choose draws from the schedule stream (0 outside runs): for choices the
// environment makes, such as which pooled buffer is handed out.
//
//go:norace
func Choose(n int) int {
	s := cur
	if s == nil || s.killing {
		return 0
	}
	return s.sched.Int(n)
}

// SyncPoint is a scheduling opportunity.
//
//go:norace
func SyncPoint() {
	if s := cur; s != nil {
		s.syncPoint()
	}
}

// Killing tells that the run is over and goroutines are being unwound.
//
//go:norace
func Killing() bool { return cur != nil && cur.killing }

// WaitQ is a list of blocked tasks.
type WaitQ struct {
	gen int64
	q   []*Task
}

// Wait blocks the current task in q.
//
//go:norace
func (w *WaitQ) Wait(why string) {
	s := cur
	if s == nil {
		panic("vsim: blocked outside a simulation: " + why)
	}
	if w.gen != s.gen {
		w.gen, w.q = s.gen, nil
	}
	w.q = append(w.q, s.cur)
	s.block(why)
}

// WakeAll makes all tasks in q runnable.
//
//go:norace
func (w *WaitQ) WakeAll() {
	s := cur
	if s == nil || w.gen != s.gen {
		return
	}
	for _, t := range w.q {
		s.ready(t)
	}
	w.q = w.q[:0]
}

// WakeOne makes one (chosen) task in q runnable.
//
//go:norace
func (w *WaitQ) WakeOne() {
	s := cur
	if s == nil || w.gen != s.gen || len(w.q) == 0 {
		return
	}
	i := s.sched.Int(len(w.q))
	t := w.q[i]
	var out []*Task
	for j, o := range w.q {
		if j != i {
			out = append(out, o)
		}
	}
	w.q = out
	s.ready(t)
}

//go:norace
func (w *WaitQ) Len() int {
	if cur == nil || w.gen != cur.gen {
		return 0
	}
	return len(w.q)
}

//go:norace
func Acquire(p unsafe.Pointer) { raceAcquire(p) }

//go:norace
func Release(p unsafe.Pointer) { raceRelease(p) }

// Crash ends the run like an unrecoverable runtime error.
//
//go:norace
func Crash(msg string) {
	s := cur
	if s == nil {
		panic(msg)
	}
	if s.killing {
		runtime.Goexit()
	}
	s.abort("panic", "fatal error: "+msg, string(debug.Stack()))
}

// Ticket is a queued, not yet parked task (for condition variables).
type Ticket struct {
	t       *Task
	fired   bool
	blocked bool
	sync    byte
}

// CondQ is the queue of a condition variable.
type CondQ struct {
	gen int64
	q   []*Ticket
}

//go:norace
func (w *CondQ) Prepare() *Ticket {
	s := cur
	if w.gen != s.gen {
		w.gen, w.q = s.gen, nil
	}
	t := &Ticket{t: s.cur}
	w.q = append(w.q, t)
	return t
}

//go:norace
func (w *CondQ) Park(t *Ticket, why string) {
	s := cur
	for !t.fired {
		if s.killing {
			s.endKilled()
		}
		t.blocked = true
		s.block(why)
	}
	raceAcquire(unsafe.Pointer(&t.sync))
}

//go:norace
func (w *CondQ) Signal(all bool) {
	s := cur
	if s == nil || s.killing || w.gen != s.gen {
		return
	}
	for len(w.q) > 0 {
		i := 0
		if !all {
			i = s.sched.Int(len(w.q))
		}
		t := w.q[i]
		var out []*Ticket
		for j, o := range w.q {
			if j != i {
				out = append(out, o)
			}
		}
		w.q = out
		t.fired = true
		raceRelease(unsafe.Pointer(&t.sync))
		if t.blocked {
			s.ready(t.t)
		}
		if !all {
			return
		}
	}
}
