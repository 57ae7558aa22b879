#!/usr/bin/env python3
"""Deterministic simulation of oov/psd: builds the instrumented tree and runs one property.

  check.py ID                  run the check of property ID (VERIF_TIER, VERIF_SEED)
  check.py --replay FILE       rebuild and re-execute a replay file
  check.py --selftest ID [N]   run N seeds twice in different processes and compare

Exit 0: held on everything explored; 1: VIOLATION; anything else: error of the check.
"""
import collections, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
OUT = os.path.join(HERE, "out")

# property -> (binary, has a race-detector half)
PROPS = {
    "C01": ("dec", False), "C02": ("dec", False), "C03": ("dec", False), "C04": ("dec", False),
    "C05": ("dec", False), "C06": ("dec", False), "C07": ("dec", True), "C08": ("dec", False),
    "C09": ("dec", True),
    "C10": ("comp", True), "C11": ("comp", True), "C12": ("comp", False), "C13": ("comp", False),
    "C14": ("comp", True), "C15": ("comp", False), "C16": ("comp", True), "C17": ("comp", True),
    "C18": ("comp", True), "C20": ("comp", False), "C21": ("comp", True),
    "C22": ("comp", False),
    "C19": ("exp", False),
}
TIME = {"quick": 30, "thorough": 480}
HARD = {"quick": 150, "thorough": 640}
MINRUNS = {"quick": 60, "thorough": 200}
SHRINK = {"quick": 12, "thorough": 40}
LIFE = 800  # ms after which a worker process starts anew

ASSUME = [
    "interleavings are explored at the granularity of basic blocks and synchronisation operations of the instrumented packages; "
    "code of the standard library and golang.org/x runs atomically between them",
    "the memory model is sequential consistency; weaker effects are covered only as far as the race detector (race builds) excludes data races",
    "a sample of seeds, not an enumeration: a clean run is evidence, not proof",
]


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def goenv(scratch):
    env = dict(os.environ)
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "")
    env.setdefault("HOME", "/root")
    env["GOFLAGS"] = "-mod=mod"
    env["GOPROXY"] = "off"
    env["GOTOOLCHAIN"] = "local"
    env["GOSUMDB"] = "off"
    env["CGO_ENABLED"] = "1"
    env.pop("GORACE", None)
    env.pop("GOGC", None)
    env.pop("GODEBUG", None)
    cache = env.get("GOCACHE") or os.path.join(env["HOME"], ".cache", "go-build")
    try:
        os.makedirs(cache, exist_ok=True)
        with tempfile.NamedTemporaryFile(dir=cache):
            pass
    except OSError:
        cache = os.path.join(scratch, "gocache")
    env["GOCACHE"] = cache
    return env


def sh(cmd, env, cwd, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    if p.returncode != 0:
        raise CheckError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def build(scratch, env, binary, plain=True, race=False):
    tool = os.path.join(scratch, "tool")
    tree = os.path.join(scratch, "tree")
    sh(["go", "build", "-o", tool, "."], env, os.path.join(SIM, "tool"))
    info = sh([tool, "-repo", REPO, "-out", tree], env, SIM).strip().split("\n")[-1]
    res = {}
    jobs = []
    for r in ([False] if plain else []) + ([True] if race else []):
        dst = os.path.join(scratch, binary + ("_race" if r else ""))
        cmd = ["go", "build"] + (["-race"] if r else []) + ["-o", dst, "./verifsim/cmd/" + binary]
        jobs.append((r, dst, cmd, subprocess.Popen(cmd, env=env, cwd=tree, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
    for r, dst, cmd, p in jobs:
        o, _ = p.communicate(timeout=900)
        if p.returncode != 0:
            raise CheckError("%s failed:\n%s" % (" ".join(cmd), o[-4000:]))
        res[r] = dst
    return res, info


def worker_env(env, scratch, tag):
    e = dict(env)
    e["VERIF_RACELOG"] = os.path.join(scratch, "race." + tag)
    e["GORACE"] = ("suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0 log_path=" + e["VERIF_RACELOG"])
    e["GOTRACEBACK"] = "all"
    return e


def known_findings(prop):
    l = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                l.append((m.group(2), m.group(3)))
    return l


FATAL = re.compile(r"^(fatal error: .*|panic: .*|SIG\w+: .*|runtime: goroutine stack exceeds.*|unexpected fault address.*)$", re.M)
OOM = re.compile(r"out of memory|cannot allocate memory|signal: killed")


def fatal_sig(rc, err):
    """A crash of the worker process that the code under test can be blamed for."""
    if rc == -signal.SIGKILL or OOM.search(err):
        return None
    m = FATAL.search(err)
    if not m:
        return None
    s = m.group(1)
    if "stack exceeds" in s or "stack overflow" in s:
        s = "stack overflow"
    return "fatal:" + re.sub(r"0x[0-9a-f]+", "#", s)[:80].replace(" ", "_")


class Worker:
    def __init__(self, scratch, env, bins, race, prop, seed, start, stride, tier, known, extra=(), tag=None):
        self.race, self.start, self.stride = race, start, stride
        self.tag = tag or "w%d" % start
        self.out = os.path.join(scratch, "out.%s.json" % self.tag)
        self.prog = os.path.join(scratch, "prog.%s" % self.tag)
        self.errf = os.path.join(scratch, "err.%s" % self.tag)
        cmd = [bins[race], "run", "-prop", prop, "-seed", str(seed), "-start", str(start), "-stride", str(stride),
               "-min", str(MINRUNS[tier]), "-time", str(TIME[tier]), "-hard", str(HARD[tier]), "-shrink", str(SHRINK[tier]), "-life", str(LIFE),
               "-known", "\n".join(k for k, _ in known), "-progress", self.prog, "-out", self.out] + list(extra)
        self.p = subprocess.Popen(cmd, env=worker_env(env, scratch, self.tag), stdout=subprocess.DEVNULL, stderr=open(self.errf, "wb"), cwd=scratch)

    def wait(self, deadline):
        try:
            self.rc = self.p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise CheckError("worker %s did not end in time (last run %s)" % (self.tag, self.index()))
        self.err = open(self.errf, errors="replace").read()
        self.stats = None
        if os.path.exists(self.out):
            with open(self.out) as f:
                self.stats = json.load(f)

    def index(self):
        try:
            return int(open(self.prog).read() or "-1")
        except (OSError, ValueError):
            return -1


def run_replay(bins, env, scratch, r, tag, timeout=300):
    """Executes a replay in a fresh process; returns (signature or None, output)."""
    race = bool(r.get("race_build"))
    f = os.path.join(scratch, "replay.%s.json" % tag)
    with open(f, "w") as fh:
        json.dump(r, fh)
    p = subprocess.run([bins[race], "replay", "-file", f, "-quiet", "1"], env=worker_env(env, scratch, "r" + tag), cwd=scratch,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    if p.returncode == 1:
        try:
            o = json.loads(p.stdout)
            return o["sig"], o
        except (ValueError, KeyError):
            pass
    if p.returncode == 0:
        return None, None
    s = fatal_sig(p.returncode, p.stderr)
    if s:
        return s, {"sig": s, "class": "fatal", "msg": (FATAL.search(p.stderr) or [""])[0], "stack": p.stderr[:6000]}
    raise CheckError("replay ended with %s:\n%s" % (p.returncode, (p.stdout + p.stderr)[-3000:]))


def same(a, b):
    """Whether two signatures are the same violation class."""
    if a is None or b is None:
        return False
    return a.split("@")[0] == b.split("@")[0]


def confirm(bins, env, scratch, prop, seed, w, v, known):
    """Reproduces a violation in fresh processes; returns the replay to report."""
    cands = [("as minimised", v)]
    rr = v["runs"][-1]
    if rr.get("choices"):
        u = dict(v)
        u["runs"] = [{"scenario": rr["scenario"], "seed": rr["seed"], "index": rr["index"], "choices": False}]
        cands.append(("not minimised", u))
    for note, c in cands:
        for k in range(3 if v["race_build"] else 1):
            s, o = run_replay(bins, env, scratch, c, "c")
            if same(s, v["sig"]):
                return note, c
    # it may need state that earlier runs of the process left behind
    idx = rr["index"]
    prefix = list(range(w.start + w.stats["first"] * w.stride, idx, w.stride))
    for n in (1, 4, 16, 64, 256, 100000):
        part = prefix[-n:] if n < len(prefix) else prefix
        p = subprocess.run([bins[v["race_build"]], "seeds", "-prop", prop, "-seed", str(seed), "-idx", ",".join(map(str, part + [idx]))],
                           env=env, stdout=subprocess.PIPE, text=True, check=True)
        u = dict(v)
        u["runs"] = json.loads(p.stdout)
        s, o = run_replay(bins, env, scratch, u, "c")
        if same(s, v["sig"]):
            return "with the %d runs before it" % len(part), u
        if len(part) == len(prefix):
            break
    return None, None


def violation(prop, r, note):
    os.makedirs(OUT, exist_ok=True)
    if note != "as minimised":
        r = dict(r)
        r["note"] = (r.get("note", "") + "; " if r.get("note") else "") + "replay " + note
    h = hashlib.sha256(json.dumps(r["runs"]).encode()).hexdigest()[:10]
    path = os.path.join(OUT, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump(r, f, indent=1)
    print("property %s is violated: %s" % (prop, r["sig"]))
    print("  " + r["msg"][:1500].replace("\n", "\n  "))
    for d in (r.get("description") or [])[:30]:
        print("  | " + d[:300])
    if r.get("faults_injected"):
        print("  faults injected: %s" % r["faults_injected"])
    if r.get("note"):
        print("  " + r["note"])
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1


def merge(workers, bins, env):
    m = collections.Counter()
    p = subprocess.run([bins[False], "distinct", "-files", ",".join(w.out for w in workers)], env=env, stdout=subprocess.PIPE, text=True, check=True)
    distinct = [int(n) for n in p.stdout.split()]
    for w in workers:
        for k, v in w.stats.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                m[k] += v
    m["distinct"], m["distinct_schedules"] = distinct
    d = {}
    for k in ("faults", "fault_runs", "probes", "scenarios", "known"):
        c = collections.Counter()
        for w in workers:
            for n, v in (w.stats.get(k) or {}).items():
                c[n] += v
        d[k] = dict(sorted(c.items()))
    m["max_tasks"] = max(w.stats["max_tasks"] for w in workers)
    samples = []
    for w in workers:
        samples += (w.stats.get("samples") or [])[:1]
    return m, d, samples


def compare(a, b):
    """Indices whose run hashes differ between two stats."""
    return [i for i, h in (a.get("hashes") or {}).items() if i in (b.get("hashes") or {}) and b["hashes"][i] != h]


def check(prop, tier, seed, scratch):
    t0 = time.time()
    binary, race = PROPS[prop]
    env = goenv(scratch)
    known = known_findings(prop)
    for sig, what in known:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what, sig), flush=True)
    bins, info = build(scratch, env, binary, True, race)
    tb = time.time() - t0
    n = max(2, min(8, os.cpu_count() or 2))
    deadline = time.time() + HARD[tier] + SHRINK[tier] + 60
    workers = []
    for i in range(n):
        workers.append(Worker(scratch, env, bins, race and i % 2 == 1, prop, seed, i, n, tier, known))
    errors = []
    for w in workers:
        try:
            w.wait(deadline)
        except CheckError as e:
            errors.append(str(e))
            w.stats, w.rc, w.err = None, None, ""
    # violations first: they stand on their own replay
    bad = [w for w in workers if w.stats and w.stats.get("violation")]
    bad.sort(key=lambda w: sum(len(w.stats["violation"]["runs"][-1].get(k) or []) for k in ("gen", "sched", "fault")))
    for w in bad[:4]:
        v = w.stats["violation"]
        note, r = confirm(bins, env, scratch, prop, seed, w, v, known)
        if r:
            evidence(prop, tier, seed, [w for w in workers if w.stats], bins, env, tb, t0, info, 1, [])
            return violation(prop, r, note)
        errors.append("a violation was not reproduced in a fresh process: %s\n%s" % (v["sig"], v["msg"][:2000]))
    for w in workers:
        if w.stats is not None or w.rc is None:
            continue
        sig = fatal_sig(w.rc, w.err)
        idx = w.index()
        if sig is None or idx < 0:
            errors.append("worker %s ended with %s at run %d:\n%s" % (w.tag, w.rc, idx, w.err[-2000:]))
            continue
        p = subprocess.run([bins[w.race], "seeds", "-prop", prop, "-seed", str(seed), "-idx", str(idx)], env=env, stdout=subprocess.PIPE, text=True, check=True)
        r = {"property": prop, "race_build": w.race, "class": "fatal", "sig": sig, "msg": w.err[:300], "stack": w.err[:6000], "runs": json.loads(p.stdout)}
        s, o = run_replay(bins, env, scratch, r, "f")
        if same(s, sig):
            evidence(prop, tier, seed, [w for w in workers if w.stats], bins, env, tb, t0, info, 1, [])
            return violation(prop, r, "not minimised: the process dies")
        errors.append("a crash was not reproduced: %s" % w.err[:2000])
    for w in workers:
        if w.stats and w.stats.get("harness"):
            h = w.stats["harness"]
            errors.append("harness failure in run %s: %s\n%s" % (h["runs"], h["msg"], h.get("stack", "")[:3000]))
    if errors:
        raise CheckError("\n".join(errors))
    # the same seeds once more in other processes: the runs must be identical
    twice = []
    for w in workers[:4]:
        k = min(40, w.stats["runs"], max(3, int(w.stats["runs"] * 4 / max(w.stats["wall"], 0.1))))
        e2 = dict(env)
        e2["GOGC"] = "50"
        twice.append((w, Worker(scratch, e2, bins, w.race, prop, seed, w.start, w.stride, tier, known, ("-max", str(k)), "t%d" % w.start)))
    ncmp = 0
    for w, t in twice:
        t.wait(time.time() + 120)
        if t.stats is None:
            raise CheckError("worker %s: %s" % (t.tag, t.err[-2000:]))
        diff = compare(w.stats, t.stats)
        ncmp += len([i for i in w.stats["hashes"] if i in t.stats["hashes"]])
        if diff:
            raise CheckError("not deterministic: runs %s differ when repeated" % diff[:10])
    evidence(prop, tier, seed, workers, bins, env, tb, t0, info, 0, ["%d runs repeated in other processes were identical" % ncmp])
    m, d, _ = merge(workers, bins, env)
    print("%s: held on %d runs (%d distinct, %d steps, faults %s) in %.0f s" % (prop, m["runs"], m["distinct"], m["steps"], d["faults"], time.time() - t0))
    return 0


def evidence(prop, tier, seed, workers, bins, env, tb, t0, info, nviol, notes):
    if not workers:
        return
    m, d, samples = merge(workers, bins, env)
    p = subprocess.run([bins[False], "info", "-prop", prop], env=env, stdout=subprocess.PIPE, text=True, check=True)
    pi = json.loads(p.stdout)
    wall = sum(w.stats["wall"] for w in workers) / len(workers)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(m["runs"]),
            "distinct_nontrivial": int(m["distinct"]),
            "rule": pi["rule"],
            "samples": [s[:1500] for s in samples],
            "simulated_runs": int(m["runs"]),
            "trivial_runs": int(m["trivial"]),
            "runs_per_hour": int(m["runs"] / max(wall, 0.001) * 3600),
            "seeds_per_hour": int(m["runs"] / max(wall, 0.001) * 3600),
            "seeds": "run i uses mix(VERIF_SEED, property, i), i in 0..%d" % int(m["runs"]),
            "simulated_steps": int(m["steps"]),
            "simulated_time_ns": int(m["vtime"]),
            "simulated_time_note": "oov/psd has no timers: simulated time is counted in executed basic blocks (steps)",
            "context_switches": int(m["switches"]),
            "max_tasks_in_a_run": int(m["max_tasks"]),
            "distinct_interleavings": int(m["distinct_schedules"]),
            "distinct_measure": "hash of the whole schedule (which task ran at which step), of the result digest and of the faults that fired; distinct_interleavings: hash of the schedule of runs that switched tasks",
            "faults_injected": d["faults"], "runs_with_fault": d["fault_runs"],
            "conditions_reached": d["probes"], "scenarios": d["scenarios"],
            "runs_stopped_by_resource_limit": int(m["resource"]),
            "known_findings_hit": d["known"],
            "race_detector_workers": sum(1 for w in workers if w.stats["race_build"]),
            "race_detector_runs": sum(w.stats["runs"] for w in workers if w.stats["race_build"]),
            "workers": len(workers),
            "process_starts": int(m["process_starts"]),
            "real_components": pi["real"], "stub_components": pi["stub"],
            "instrumentation": info,
            "determinism": notes,
            "build_s": round(tb, 1),
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 1),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path, scratch):
    r = json.load(open(path))
    env = goenv(scratch)
    race = bool(r.get("race_build"))
    bins, _ = build(scratch, env, PROPS[r["property"]][0], not race, race)
    s, o = run_replay(bins, env, scratch, r, "x")
    if s is None:
        print("replay of %s: the property held" % path)
        return 0
    print("replay of %s: %s (recorded: %s)\n%s\n%s" % (path, s, r["sig"], o["msg"], (o.get("stack") or "")[:4000]))
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


def selftest(prop, n, scratch):
    """Determinism on a large sample: many seeds, each twice, in different processes and worker counts."""
    env = goenv(scratch)
    binary, race = PROPS[prop]
    bins, _ = build(scratch, env, binary, True, race)
    bad = total = 0
    for r in ([False, True] if race else [False]):
        ws = []
        for i in range(n):
            a = Worker(scratch, env, bins, r, prop, 1000 + i, 0, 1, "quick", [], ("-max", "40"), "a%d%d" % (r, i))
            b = Worker(scratch, dict(env, GOGC="20"), bins, r, prop, 1000 + i, 0, 1, "quick", [], ("-max", "40"), "b%d%d" % (r, i))
            ws.append((a, b))
            if len(ws) >= 4 or i == n - 1:
                for a, b in ws:
                    a.wait(time.time() + 300)
                    b.wait(time.time() + 300)
                    if not (a.stats and b.stats):
                        raise CheckError("worker died: " + a.err[-1000:] + b.err[-1000:])
                    total += len(a.stats["hashes"])
                    df = compare(a.stats, b.stats)
                    bad += len(df)
                    if df:
                        print("seed", 1000 + i, "race" if r else "plain", "differs:", df)
                ws = []
    print("%s: %d runs repeated, %d differ" % (prop, total, bad))
    return 0 if bad == 0 else 2


def main():
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    scratch = tempfile.mkdtemp(prefix="verif-psd-")
    try:
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2], scratch)
        if sys.argv[1] == "--selftest":
            return selftest(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 20, scratch)
        if sys.argv[1] == "--setup":
            # warms the build cache; every check builds what it needs itself
            env = goenv(scratch)
            for b in ("dec", "comp", "exp"):
                if os.path.isdir(os.path.join(SIM, "cmd", b)):
                    build(scratch, env, b, True, any(x[0] == b and x[1] for x in PROPS.values()))
            return 0
        prop = sys.argv[1]
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in TIME:
            raise CheckError("VERIF_TIER=%s" % tier)
        seed = int(os.environ.get("VERIF_SEED", "1"))
        print("%s tier=%s VERIF_SEED=%d" % (prop, tier, seed), flush=True)
        return check(prop, tier, seed, scratch)
    except (CheckError, subprocess.SubprocessError) as e:
        log("ERROR of the check: %s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
