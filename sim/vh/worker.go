package vh

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/oov/psd/verifsim/vsim"
)

// Outcome is what one run produced.
type Outcome struct {
	Class    string `json:"class,omitempty"` // empty: held
	Sig      string `json:"sig,omitempty"`
	Msg      string `json:"msg,omitempty"`
	Stack    string `json:"stack,omitempty"`
	Steps    int64  `json:"steps"`
	Switches int    `json:"switches"`
	Tasks    int    `json:"tasks"`
	VTime    int64  `json:"vtime"`
	Hash     string `json:"hash"` // of everything the run did
	Trivial  bool   `json:"trivial,omitempty"`

	Faults map[string]int `json:"faults,omitempty"`
	Probes map[string]int `json:"probes,omitempty"`
	Desc   []string       `json:"desc,omitempty"`
	Events []string       `json:"events,omitempty"`

	sched, digest uint64
	recs          [3][]uint64
	over          bool
}

// Violation tells whether the outcome is one.
func (o *Outcome) Violation() bool {
	return o.Class != "" && o.Class != "resource" && o.Class != "harness"
}

// Replay is the file that reproduces a violation.
type Replay struct {
	Property string      `json:"property"`
	Runs     []ReplayRun `json:"runs"`
	Race     bool        `json:"race_build"`
	Class    string      `json:"class"`
	Sig      string      `json:"sig"`
	Msg      string      `json:"msg"`
	Stack    string      `json:"stack,omitempty"`
	Desc     []string    `json:"description,omitempty"`
	Events   []string    `json:"schedule,omitempty"`
	Faults   any         `json:"faults_injected,omitempty"`
	Note     string      `json:"note,omitempty"`
}

// ReplayRun is one run of a replay file: a seed, or recorded choices.
type ReplayRun struct {
	Scenario string   `json:"scenario"`
	Seed     uint64   `json:"seed"`
	Index    int64    `json:"index"`
	Choices  bool     `json:"choices"`
	Gen      []uint64 `json:"gen,omitempty"`
	Sched    []uint64 `json:"sched,omitempty"`
	Fault    []uint64 `json:"fault,omitempty"`
}

var (
	raceLog  string
	stepScan int64 = 60 << 20
)

// exec performs one run.
func exec(p *Property, sc *Scenario, gen, sched, fault *vsim.Stream, verbose bool) *Outcome {
	c := &Ctx{Prop: p.ID, Scen: sc.Name, Gen: gen, Sched: sched, Fault: fault, Verbose: verbose}
	r0 := vsim.RaceErrors()
	var off int64
	if raceLog != "" {
		if fi, err := os.Stat(raceLog); err == nil {
			off = fi.Size()
		}
	}
	limit := sc.Limit
	if limit == 0 {
		limit = 40 << 20
	}
	res := vsim.Run(vsim.Config{Limit: limit, AllocMax: 64 << 20, AllocTot: 256 << 20, Trace: verbose}, sched, func() {
		defer func() {
			if e := recover(); e != nil {
				if vsim.Killing() {
					return
				}
				vsim.AbortStack("harness", fmt.Sprintf("panic in harness: %v", e), string(debug.Stack()))
			}
		}()
		sc.Fn(c)
	})
	o := &Outcome{
		Steps: res.Steps, Switches: res.Switches, Tasks: res.Spawned, VTime: res.Now, Trivial: c.trivial,
		Faults: map[string]int{}, Probes: map[string]int{}, Desc: c.desc, Events: res.Events,
		sched: res.Hash, digest: c.digest,
	}
	for _, f := range c.faults[:c.nfaults] {
		o.Faults[f.name] = f.n
	}
	for _, f := range c.probes[:c.nprobes] {
		o.Probes[f.name] = f.n
	}
	if v := res.Verdict; v != nil {
		o.Class, o.Msg, o.Stack = v.Class, v.Msg, v.Stack
		o.Sig = o.Class
		switch {
		case strings.HasPrefix(o.Class, "wrong:"):
		case o.Class == "panic":
			o.Sig = "panic@" + topFrame(o.Stack)
		}
	}
	if n := vsim.RaceErrors() - r0; n > 0 && (o.Class == "" || o.Class == "resource") {
		o.Class = "race"
		txt := ""
		if raceLog != "" {
			if b, err := os.ReadFile(raceLog); err == nil && int64(len(b)) > off {
				txt = string(b[off:])
			}
		}
		o.Sig = "race@" + raceSig(txt)
		o.Msg = fmt.Sprintf("%d data race(s) between goroutines", n)
		o.Stack = txt
	}
	h := vsim.Mix(o.sched ^ vsim.Mix(o.digest^uint64(o.Steps)))
	h = vsim.Mix(h ^ uint64(o.Switches)<<32 ^ uint64(o.Tasks) ^ vsim.HashString(o.Class))
	for _, k := range keys(o.Faults) {
		h = vsim.Mix(h ^ vsim.HashString(k) ^ uint64(o.Faults[k]))
	}
	for i, s := range []*vsim.Stream{gen, sched, fault} {
		o.recs[i] = s.Rec
		o.over = o.over || s.Over
		h = vsim.Mix(h ^ uint64(len(s.Rec)))
	}
	o.Hash = fmt.Sprintf("%016x", h)
	return o
}

func keys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var frameRe = regexp.MustCompile(`(?m)^(github\.com/oov/psd[^\s(]*(?:\([^)]*\))?[^\s(]*)\(`)

func topFrame(st string) string {
	for _, m := range frameRe.FindAllStringSubmatch(st, -1) {
		if !strings.Contains(m[1], "/verifsim/") {
			return shortFn(m[1])
		}
	}
	return "?"
}

func shortFn(s string) string {
	s = strings.TrimPrefix(s, "github.com/oov/psd")
	return strings.TrimLeft(s, "./")
}

var raceFnRe = regexp.MustCompile(`(?m)^  (github\.com/oov/psd[^\s]*)\(\)$`)

// raceSig names the functions whose accesses race.
func raceSig(txt string) string {
	i := strings.Index(txt, "WARNING: DATA RACE")
	if i < 0 {
		return "?"
	}
	txt = txt[i:]
	if j := strings.Index(txt[10:], "=================="); j > 0 {
		txt = txt[:j+10]
	}
	var fns []string
	for _, blk := range strings.Split(txt, "\n\n") {
		if strings.HasPrefix(blk, "Goroutine") {
			break
		}
		for _, m := range raceFnRe.FindAllStringSubmatch(blk, -1) {
			if !strings.Contains(m[1], "/verifsim/") {
				fns = append(fns, shortFn(m[1]))
				break
			}
		}
	}
	sort.Strings(fns)
	return strings.Join(fns, "|")
}

func runSeed(seed uint64, prop string, idx int64) uint64 {
	return vsim.Mix(vsim.Mix(seed^vsim.HashString(prop)) ^ uint64(idx)*0x9e3779b97f4a7c15)
}

func streams(s uint64) (gen, sched, fault *vsim.Stream) {
	return vsim.NewStream("gen", s), vsim.NewStream("sched", s), vsim.NewStream("fault", s)
}

func (p *Property) byIndex(seed uint64, idx int64, only string) (*Scenario, uint64) {
	rs := runSeed(seed, p.ID, idx)
	sc := p.choose(vsim.Mix(rs ^ 0x5ce4a210))
	if only != "" {
		sc = p.scen(only)
	}
	return sc, rs
}

// Stats is what a worker reports.
type Stats struct {
	Runs      int64             `json:"runs"`
	Trivial   int64             `json:"trivial"`
	Steps     int64             `json:"steps"`
	Switches  int64             `json:"switches"`
	VTime     int64             `json:"vtime"`
	MaxTasks  int               `json:"max_tasks"`
	Resource  int64             `json:"resource"`
	Wall      float64           `json:"wall"`
	Faults    map[string]int64  `json:"faults"`
	FaultRuns map[string]int64  `json:"fault_runs"`
	Probes    map[string]int64  `json:"probes"`
	Scens     map[string]int64  `json:"scenarios"`
	Known     map[string]int64  `json:"known"`
	Starts    int64             `json:"process_starts"`
	First     int64             `json:"first"` // of the runs of this process
	Samples   []string          `json:"samples"`
	Hashes    map[string]string `json:"hashes"` // index -> run hash, for the determinism check
	Violation *Replay           `json:"violation,omitempty"`
	Harness   *Replay           `json:"harness,omitempty"`
	RaceBuild bool              `json:"race_build"`
}

// Main is the entry point of the worker binaries.
func Main() {
	args := map[string]string{}
	mode := ""
	if len(os.Args) > 1 {
		mode = os.Args[1]
	}
	for i := 2; i+1 < len(os.Args); i += 2 {
		args[strings.TrimLeft(os.Args[i], "-")] = os.Args[i+1]
	}
	out := os.Stdout
	if fd, err := syscall.Dup(1); err == nil {
		syscall.CloseOnExec(fd)
		out = os.NewFile(uintptr(fd), "out")
		if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
			syscall.Dup2(int(null.Fd()), 1)
		}
	}
	log.SetOutput(io.Discard)
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	if l := os.Getenv("VERIF_RACELOG"); l != "" {
		raceLog = l + "." + strconv.Itoa(os.Getpid())
	}
	switch mode {
	case "list":
		for _, id := range PropIDs() {
			p := props[id]
			for _, s := range p.Scens {
				fmt.Fprintln(out, id, s.Name)
			}
		}
	case "info":
		p := props[args["prop"]]
		json.NewEncoder(out).Encode(map[string]any{"rule": p.Rule, "real": p.Real, "stub": p.Stub})
	case "run":
		os.Exit(workerRun(args, out))
	case "distinct":
		for _, k := range []string{".d", ".s"} {
			fmt.Fprintln(out, countDistinct(strings.Split(args["files"], ","), k))
		}
	case "one":
		os.Exit(workerOne(args, out))
	case "seeds":
		p := getProp(args)
		var l []ReplayRun
		for _, f := range strings.Split(args["idx"], ",") {
			idx := atoi(f, 0)
			sc, rs := p.byIndex(uint64(atoi(args["seed"], 1)), idx, "")
			l = append(l, ReplayRun{Scenario: sc.Name, Seed: rs, Index: idx})
		}
		json.NewEncoder(out).Encode(l)
	case "replay":
		os.Exit(workerReplay(args, out))
	default:
		fmt.Fprintln(os.Stderr, "usage: list|info|run|one|replay")
		os.Exit(2)
	}
}

func atoi(s string, d int64) int64 {
	if s == "" {
		return d
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func getProp(args map[string]string) *Property {
	p := props[args["prop"]]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", args["prop"])
		os.Exit(2)
	}
	return p
}

func workerRun(args map[string]string, out *os.File) int {
	p := getProp(args)
	seed := uint64(atoi(args["seed"], 1))
	start, stride := atoi(args["start"], 0), atoi(args["stride"], 1)
	minRuns := atoi(args["min"], 0)
	maxRuns := atoi(args["max"], 1<<60)
	dur := time.Duration(atoi(args["time"], 10)) * time.Second
	hard := time.Duration(atoi(args["hard"], 120)) * time.Second
	life := time.Duration(atoi(args["life"], 1<<40)) * time.Millisecond
	first := atoi(args["first"], 0)
	shrinkT := time.Duration(atoi(args["shrink"], 15)) * time.Second
	known := map[string]bool{}
	for _, k := range strings.Split(args["known"], "\n") {
		if k != "" {
			known[k] = true
		}
	}
	var prog *os.File
	if f := args["progress"]; f != "" {
		prog, _ = os.Create(f)
	}
	st := &Stats{Faults: map[string]int64{}, FaultRuns: map[string]int64{}, Probes: map[string]int64{}, Scens: map[string]int64{}, Known: map[string]int64{}, Hashes: map[string]string{}, RaceBuild: vsim.RaceBuild}
	distinct := map[uint64]struct{}{}
	scheds := map[uint64]struct{}{}
	t0 := time.Now()
	born := t0
	if first > 0 {
		b, err := os.ReadFile(args["out"])
		if err == nil {
			err = json.Unmarshal(b, st)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		os.Remove(args["out"])
		t0 = t0.Add(-time.Duration(st.Wall * float64(time.Second)))
	}
	st.Starts++
	st.First = first
	code := 0
	for i := first; i < maxRuns; i++ {
		el := time.Since(t0)
		if (i >= minRuns && el > dur) || el > hard {
			break
		}
		// Now and then the process starts anew, with everything the code
		// under test keeps in global variables as it is at first. It does not
		// within the runs that are repeated for comparison.
		if i >= keepHashes && i > first && time.Since(born) > life && args["out"] != "" {
			st.Wall = time.Since(t0).Seconds()
			saveDistinct(args["out"]+".d", distinct)
			saveDistinct(args["out"]+".s", scheds)
			b, _ := json.Marshal(st)
			if err := os.WriteFile(args["out"], b, 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			again := append([]string{}, os.Args...)
			if first == 0 {
				again = append(again, "-first", "")
			}
			again[len(again)-1] = strconv.FormatInt(i, 10)
			exe, err := os.Executable()
			if err == nil {
				err = syscall.Exec(exe, again, os.Environ())
			}
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		idx := start + i*stride
		if prog != nil {
			prog.WriteAt([]byte(fmt.Sprintf("%020d", idx)), 0)
		}
		sc, rs := p.byIndex(seed, idx, args["scen"])
		g, s, f := streams(rs)
		sample := len(st.Samples) < 3
		o := exec(p, sc, g, s, f, sample)
		st.Runs++
		st.Steps += o.Steps
		st.Switches += int64(o.Switches)
		st.VTime += o.VTime
		st.Scens[sc.Name]++
		if o.Tasks > st.MaxTasks {
			st.MaxTasks = o.Tasks
		}
		for k, n := range o.Faults {
			st.Faults[k] += int64(n)
			st.FaultRuns[k]++
		}
		for k, n := range o.Probes {
			st.Probes[k] += int64(n)
		}
		if o.Trivial {
			st.Trivial++
		} else {
			h := vsim.Mix(o.sched ^ vsim.Mix(o.digest))
			for _, k := range keys(o.Faults) {
				h = vsim.Mix(h ^ vsim.HashString(k) ^ uint64(o.Faults[k]))
			}
			if len(distinct) < 2000000 {
				distinct[h] = struct{}{}
			}
			if o.Switches > 0 && len(scheds) < 2000000 {
				scheds[o.sched] = struct{}{}
			}
		}
		if i < keepHashes {
			st.Hashes[strconv.FormatInt(idx, 10)] = o.Hash
		}
		if sample && !o.Trivial && o.Class == "" {
			d := strings.Join(o.Desc, "; ")
			if len(d) > 700 {
				d = d[:700] + "..."
			}
			st.Samples = append(st.Samples, fmt.Sprintf("run %d scenario %s: steps=%d switches=%d tasks=%d faults=%v: %s", idx, sc.Name, o.Steps, o.Switches, o.Tasks, o.Faults, d))
		}
		if o.Class == "resource" {
			st.Resource++
		}
		if o.Class == "harness" {
			st.Harness = mkReplay(p, sc, rs, idx, o, nil)
			code = 2
			break
		}
		if o.Violation() {
			if known[o.Sig] {
				st.Known[o.Sig]++
				continue
			}
			if os.Getenv("VERIF_NOSHRINK") != "" {
				shrinkT = 0
			}
			recs, best, tries := shrink(p, sc, o, known, shrinkT)
			r := mkReplay(p, sc, rs, idx, best, recs)
			if recs != nil {
				r.Note = fmt.Sprintf("shrunk with %d executions from gen/sched/fault choices %d/%d/%d to %d/%d/%d", tries,
					len(o.recs[0]), len(o.recs[1]), len(o.recs[2]), len(recs[0]), len(recs[1]), len(recs[2]))
			}
			st.Violation = r
			code = 1
			break
		}
	}
	st.Wall = time.Since(t0).Seconds()
	saveDistinct(args["out"]+".d", distinct)
	saveDistinct(args["out"]+".s", scheds)
	b, _ := json.MarshalIndent(st, "", " ")
	if f := args["out"]; f != "" {
		os.WriteFile(f, b, 0644)
	} else {
		out.Write(b)
	}
	return code
}

// keepHashes is how many runs of a worker are kept for comparison.
const keepHashes = 40

// saveDistinct adds hashes to a file, for countDistinct.
func saveDistinct(name string, m map[uint64]struct{}) {
	f, err := os.OpenFile(name, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		return
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil || fi.Size() > 8*4000000 {
		return
	}
	b := make([]byte, 0, 8*len(m))
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	f.Write(b)
}

func countDistinct(files []string, ext string) int {
	var all []uint64
	for _, f := range files {
		b, err := os.ReadFile(f + ext)
		if err != nil {
			continue
		}
		for ; len(b) >= 8; b = b[8:] {
			all = append(all, binary.LittleEndian.Uint64(b))
		}
	}
	slices.Sort(all)
	return len(slices.Compact(all))
}

func mkReplay(p *Property, sc *Scenario, rs uint64, idx int64, o *Outcome, recs *[3][]uint64) *Replay {
	r := &Replay{Property: p.ID, Race: vsim.RaceBuild, Class: o.Class, Sig: o.Sig, Msg: o.Msg, Stack: clip(o.Stack, 6000), Desc: o.Desc, Events: o.Events, Faults: o.Faults}
	if len(r.Events) > 400 {
		r.Events = append(r.Events[:400:400], "...")
	}
	rr := ReplayRun{Scenario: sc.Name, Seed: rs, Index: idx}
	if recs != nil {
		rr.Choices = true
		rr.Gen, rr.Sched, rr.Fault = recs[0], recs[1], recs[2]
	}
	r.Runs = []ReplayRun{rr}
	return r
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func execRR(p *Property, rr *ReplayRun, verbose bool) *Outcome {
	sc := p.scen(rr.Scenario)
	if sc == nil {
		fmt.Fprintf(os.Stderr, "unknown scenario %q\n", rr.Scenario)
		os.Exit(2)
	}
	if rr.Choices {
		return exec(p, sc, vsim.ReplayStream("gen", rr.Gen), vsim.ReplayStream("sched", rr.Sched), vsim.ReplayStream("fault", rr.Fault), verbose)
	}
	g, s, f := streams(rr.Seed)
	return exec(p, sc, g, s, f, verbose)
}

// workerOne executes runs by index and prints their outcomes.
func workerOne(args map[string]string, out *os.File) int {
	p := getProp(args)
	seed := uint64(atoi(args["seed"], 1))
	code := 0
	enc := json.NewEncoder(out)
	for _, f := range strings.Split(args["idx"], ",") {
		idx := atoi(f, 0)
		sc, rs := p.byIndex(seed, idx, args["scen"])
		g, s, fl := streams(rs)
		o := exec(p, sc, g, s, fl, args["verbose"] != "")
		if o.Violation() {
			code = 1
		}
		if args["full"] == "" {
			o.Events = nil
		}
		enc.Encode(map[string]any{"idx": idx, "scenario": sc.Name, "seed": rs, "outcome": o, "lens": []int{len(o.recs[0]), len(o.recs[1]), len(o.recs[2])}})
	}
	return code
}

func workerReplay(args map[string]string, out *os.File) int {
	b, err := os.ReadFile(args["file"])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[r.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "property not in this binary")
		return 2
	}
	var o *Outcome
	for i := range r.Runs {
		last := i == len(r.Runs)-1
		o = execRR(p, &r.Runs[i], last && args["quiet"] == "")
		if o.Violation() && !last && o.Sig == r.Sig {
			break
		}
	}
	json.NewEncoder(out).Encode(o)
	if o.Class == "harness" {
		return 2
	}
	if o.Violation() {
		return 1
	}
	return 0
}

// shrink minimises the choices of a violating run.
func shrink(p *Property, sc *Scenario, o *Outcome, known map[string]bool, limit time.Duration) (*[3][]uint64, *Outcome, int) {
	if o.over || limit == 0 {
		return nil, o, 0
	}
	t0 := time.Now()
	cur := [3][]uint64{append([]uint64{}, o.recs[0]...), append([]uint64{}, o.recs[1]...), append([]uint64{}, o.recs[2]...)}
	best := o
	tries := 0
	seen := map[string]bool{}
	try := func(cand [3][]uint64) bool {
		if time.Since(t0) > limit {
			return false
		}
		h := sha256.New()
		for _, l := range cand {
			for _, v := range l {
				var b [8]byte
				for i := range b {
					b[i] = byte(v >> (8 * i))
				}
				h.Write(b[:])
			}
			h.Write([]byte("|"))
		}
		k := hex.EncodeToString(h.Sum(nil))
		if seen[k] {
			return false
		}
		seen[k] = true
		tries++
		n := exec(p, sc, vsim.ReplayStream("gen", cand[0]), vsim.ReplayStream("sched", cand[1]), vsim.ReplayStream("fault", cand[2]), false)
		if n.Class != o.Class || known[n.Sig] || n.over {
			return false
		}
		// the choices really drawn are the candidate, trimmed
		for i := range cand {
			c := n.recs[i]
			for len(c) > 0 && c[len(c)-1] == 0 {
				c = c[:len(c)-1]
			}
			cand[i] = append([]uint64{}, c...)
		}
		if !smaller(cand, cur) {
			// same size is fine the first time (normalisation)
			if tries > 1 {
				return false
			}
		}
		cur = cand
		best = n
		return true
	}
	if !try(cur) { // must reproduce in replay mode
		return nil, o, tries
	}
	with := func(i int, l []uint64) [3][]uint64 {
		c := cur
		c[i] = l
		return c
	}
	order := []int{2, 1, 0}
	for round := 0; round < 8 && time.Since(t0) < limit; round++ {
		changed := false
		for _, i := range order {
			// drop a tail / everything
			for frac := 0; frac < 6; frac++ {
				n := len(cur[i])
				if n == 0 {
					break
				}
				keep := 0
				if frac > 0 {
					keep = n - n>>uint(frac)
					if keep == n {
						break
					}
				}
				if try(with(i, cur[i][:keep])) {
					changed = true
				}
			}
			// delete chunks
			for size := len(cur[i]) / 2; size >= 1; size /= 2 {
				if size > 64 && len(cur[i])/size > 200 {
					continue
				}
				for at := len(cur[i]) - size; at >= 0 && time.Since(t0) < limit; at -= size {
					if at+size > len(cur[i]) {
						continue
					}
					l := append(append([]uint64{}, cur[i][:at]...), cur[i][at+size:]...)
					if try(with(i, l)) {
						changed = true
					}
				}
				if size == 1 || len(cur[i]) == 0 {
					break
				}
			}
			// zero chunks, then reduce values
			for size := len(cur[i]) / 2; size >= 1; size /= 2 {
				for at := 0; at+size <= len(cur[i]) && time.Since(t0) < limit; at += size {
					nz := false
					for _, v := range cur[i][at : at+size] {
						nz = nz || v != 0
					}
					if !nz {
						continue
					}
					l := append([]uint64{}, cur[i]...)
					for j := at; j < at+size; j++ {
						l[j] = 0
					}
					if try(with(i, l)) {
						changed = true
					}
				}
				if size == 1 {
					break
				}
			}
			for at := 0; at < len(cur[i]) && at < 400 && time.Since(t0) < limit; at++ {
				for at < len(cur[i]) && cur[i][at] > 0 {
					v := cur[i][at]
					ok := false
					for _, nv := range []uint64{v / 2, v - 1} {
						if nv == v {
							continue
						}
						l := append([]uint64{}, cur[i]...)
						l[at] = nv
						if try(with(i, l)) {
							ok = true
							break
						}
					}
					if !ok {
						break
					}
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	// once more, with a trace
	n := exec(p, sc, vsim.ReplayStream("gen", cur[0]), vsim.ReplayStream("sched", cur[1]), vsim.ReplayStream("fault", cur[2]), true)
	if n.Class == o.Class {
		best = n
	}
	return &cur, best, tries
}

// smaller orders candidates by total length, then by sum.
func smaller(a, b [3][]uint64) bool {
	la, lb := 0, 0
	var sa, sb uint64
	for i := range a {
		la += len(a[i])
		lb += len(b[i])
		for _, v := range a[i] {
			sa += min(v, 1<<40)
		}
		for _, v := range b[i] {
			sb += min(v, 1<<40)
		}
	}
	return la < lb || la == lb && sa < sb
}
