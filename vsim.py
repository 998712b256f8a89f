#!/usr/bin/env python3
"""Deterministic simulation of soypat/sdf: driver.

  vsim.py check ID quick|thorough   decide one property (exit 0 / 1 / 2)
  vsim.py replay FILE               re-execute a replay file (exit 1 if it still fails)
  vsim.py determinism [N]           run every property's first N runs in two ways and compare
  vsim.py setup                     verify that the simulator builds
  vsim.py seeded [ID...]            apply each planted bug to a copy of /repo and run its check

Environment: VERIF_SEED (default 1), VSIM_SECS (override the search time),
VSIM_JOBS (default: number of cores), VSIM_REPO (default /repo).
"""
import concurrent.futures, glob, hashlib, json, os, select, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build as simbuild  # noqa: E402

JOBS = int(os.environ.get("VSIM_JOBS", "0")) or min(8, os.cpu_count() or 1)
SILENCE = 240      # seconds without a finished run before a worker counts as stuck
RUN_LIMIT = 240    # seconds for one run in a fresh process
RACE_BASE = 1 << 40
SECS = {"quick": 60.0, "thorough": 600.0}
MINIMISE = {"quick": 90.0, "thorough": 240.0}


def cleanup_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "TSAN"))}
    e["GORACE"] = "exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 halt_on_error=0"
    e["GOTRACEBACK"] = "single"
    return e


ENV = cleanup_env()


class Trouble(Exception):
    """The machinery could not decide: exit 2, never a VIOLATION."""


class BuildDir:
    def __enter__(self):
        root = os.path.join(VERIF, ".build")
        os.makedirs(root, exist_ok=True)
        for d in os.listdir(root):  # left behind by killed processes
            pid = d.split("-")[0]
            if pid.isdigit() and not os.path.exists("/proc/" + pid):
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
        self.path = tempfile.mkdtemp(prefix="%d-" % os.getpid(), dir=root)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def make(out, flavours):
    try:
        return simbuild.build(out, flavours)
    except simbuild.BuildError as e:
        raise Trouble("build: %s" % e)


def props(exe):
    out = subprocess.run([exe, "props"], stdout=subprocess.PIPE, text=True, env=ENV).stdout
    return {l.split()[0]: l.split()[1] == "true" for l in out.splitlines()}


# ------------------------------------------------------------------ one run

def run_specs(exe, specs, limit=RUN_LIMIT):
    """Executes specs in order in one fresh process; the last one's result."""
    data = "\n".join(json.dumps(s) for s in specs) + "\n"
    try:
        p = subprocess.run([exe, "run", "-"], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, env=ENV, timeout=limit, errors="replace")
    except subprocess.TimeoutExpired:
        return {"stuck": True, "viol": []}
    if p.returncode == 0:
        try:
            r = json.loads(p.stdout)
        except ValueError:
            raise Trouble("unreadable result: %r" % p.stdout[:300])
        r.setdefault("viol", [])
        if r.get("skip"):
            r["viol"] = []
        if any(v["class"] == "data-race" for v in r["viol"]):
            r["race_report"] = race_report(p.stderr)
        return r
    if p.returncode == 3:
        raise Trouble("simulator: %s" % p.stderr[-500:])
    return {"viol": [crash_violation(specs[-1]["prop"], p.returncode, p.stderr)], "crash": True}


def crash_violation(prop, rc, err):
    lines = [l for l in err.splitlines() if l.startswith(("panic:", "fatal error:", "runtime:", "SIG"))]
    where = [l.strip().split(" +0x")[0] for l in err.splitlines() if l.startswith("\t/repo/") and "zzverifsim" not in l]
    return {"prop": prop, "class": "crash",
            "msg": "the process died (exit %s): %s; at %s" % (rc, "; ".join(lines[:3]) or err[-300:], " <- ".join(where[:4]))}


def race_report(err):
    out = []
    for l in err.splitlines():
        if "WARNING: DATA RACE" in l:
            if out:
                break
            out = [l]
        elif out:
            out.append(l.rstrip())
        if len(out) > 60:
            break
    return out


def classes(r):
    return {v["class"] for v in r["viol"]}


# ------------------------------------------------------------------ search

class Agg:
    def __init__(self):
        self.runs = self.nontrivial = self.evals = 0
        self.steps = self.points = self.switches = self.sim_ns = self.max_steps = 0
        self.fired, self.probe, self.skips, self.modes = {}, {}, {}, {}
        self.samples, self.slow, self.restarts = [], 0.0, 0

    def add(self, s):
        for k in ("runs", "nontrivial", "evals", "steps", "points", "switches", "sim_ns"):
            setattr(self, k, getattr(self, k) + s[k])
        self.max_steps = max(self.max_steps, s["max_steps"])
        self.slow = max(self.slow, s["slowest_s"])
        for k in ("fired", "probe", "skips", "modes"):
            d = getattr(self, k)
            for n, c in (s[k] or {}).items():
                d[n] = d.get(n, 0) + c
        if len(self.samples) < 3:
            self.samples += (s.get("samples") or [])[:1]


class Searcher:
    """One worker slot: keeps a worker process busy until the deadline, starting
    a new one after a run that left goroutines behind."""

    def __init__(self, exe, prop, seed, start, stride, flavour, deadline, stop, known, tmp, slot):
        self.exe, self.prop, self.seed, self.stride, self.flavour = exe, prop, seed, stride, flavour
        self.start = self.next = start
        self.deadline, self.stop, self.known = deadline, stop, known
        self.hashes = os.path.join(tmp, "hashes-%s-%d" % (flavour, slot))
        self.err = os.path.join(tmp, "err-%s-%d" % (flavour, slot))
        self.agg, self.found, self.known_hits = Agg(), [], []

    def run(self):
        while time.time() < self.deadline and not self.stop.is_set():
            self.session()
            if self.found:
                self.stop.set()

    def session(self):
        first = self.next
        with open(self.err, "w") as ef:
            p = subprocess.Popen(
                [self.exe, "worker", "-prop", self.prop, "-seed", str(self.seed), "-start", str(first),
                 "-stride", str(self.stride), "-secs", "%.2f" % max(0.5, self.deadline - time.time()),
                 "-hashes", self.hashes], stdout=subprocess.PIPE, stderr=ef, env=ENV)
        buf, last, current, summary, killed = b"", time.time(), first, False, False
        fd = p.stdout.fileno()
        while True:
            ready, _, _ = select.select([fd], [], [], 0.5)
            if ready:
                chunk = os.read(fd, 1 << 16)
                if not chunk:
                    break
                last = time.time()
                buf += chunk
                *lines, buf = buf.split(b"\n")
                for l in lines:
                    if l.startswith(b"b "):
                        current = int(l[2:])
                    elif l.startswith(b"v "):
                        self.violation(json.loads(l[2:]), first)
                    elif l.startswith(b"s "):
                        s = json.loads(l[2:])
                        self.agg.add(s)
                        self.next = s["next"]
                        summary = True
            elif time.time() - last > SILENCE:
                p.kill()
                p.wait()
                raise Trouble("run %d of %s (seed %d, %s) did not finish within %d s of real time" %
                              (current, self.prop, self.seed, self.flavour, SILENCE))
            if not killed and self.stop.is_set() and not summary:
                killed = True
                p.kill()
        p.wait()
        self.agg.restarts += 1
        if summary or killed:
            return
        with open(self.err, errors="replace") as f:
            err = f.read()
        if p.returncode == 3 or p.returncode == -signal.SIGKILL:
            raise Trouble("worker ended with %s at run %d: %s" % (p.returncode, current, err[-400:]))
        v = crash_violation(self.prop, p.returncode, err)
        spec = json.loads(subprocess.run([self.exe, "gen", self.prop, str(self.seed), str(current)],
                                         stdout=subprocess.PIPE, env=ENV, timeout=RUN_LIMIT).stdout or b"null")
        self.next = current + self.stride
        self.violation({"index": current, "viol": [v], "spec": spec}, first)

    def violation(self, v, first):
        fresh = [x for x in v["viol"] if not match_known(self.known, x)]
        self.known_hits += [x for x in v["viol"] if match_known(self.known, x)]
        if fresh:
            self.found.append(dict(v, viol=fresh, first=first, stride=self.stride, flavour=self.flavour))
            self.stop.set()


def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(path):
        with open(path) as f:
            for k in json.load(f)["findings"]:
                if k.get("status") == "known" and k["property"] == prop:
                    out.append(k)
    return out


def match_known(known, v):
    return any(v["class"] == k["class"] and k["contains"] in v["msg"] for k in known)


# ------------------------------------------------------------------ minimise

class Minimiser:
    def __init__(self, exe, deadline):
        self.exe, self.deadline, self.tries = exe, deadline, 0
        self.pool = concurrent.futures.ThreadPoolExecutor(JOBS)

    def fails(self, specs, want):
        self.tries += 1
        r = run_specs(self.exe, specs, 60)
        return r if classes(r) & want else None

    def first(self, lists, want):
        """Index and result of the first list that still fails."""
        for i in range(0, len(lists), JOBS):
            if time.time() > self.deadline:
                return None
            futs = [self.pool.submit(self.fails, l, want) for l in lists[i:i + JOBS]]
            for j, f in enumerate(futs):
                r = f.result()
                if r:
                    return i + j, r
        return None

    def minimise(self, found, prop, seed):
        want = {v["class"] for v in found["viol"]}
        spec = found["spec"]
        prefix, res = [], None
        for _ in range(2):
            res = self.fails([spec], want)
            if res:
                break
        if not res:
            # Depends on what the process did before: replay its earlier runs too.
            idx = list(range(found["first"], found["index"], found["stride"]))[-4000:]
            earlier = [json.loads(subprocess.run([self.exe, "gen", prop, str(seed), str(i)], stdout=subprocess.PIPE,
                                                 env=ENV).stdout) for i in idx[-400:]]
            n = 1
            while n <= len(earlier) * 2 and not res:
                prefix = earlier[-n:]
                res = self.fails(prefix + [spec], want)
                n *= 2
            if not res:
                return None
            step = max(1, len(prefix) // 2)
            while step and time.time() < self.deadline:
                cuts = [prefix[:i] + prefix[i + step:] for i in range(0, len(prefix), step)]
                hit = self.first([c + [spec] for c in cuts], want)
                if hit:
                    prefix, res = cuts[hit[0]], hit[1]
                    step = min(step, max(1, len(prefix) // 2)) if prefix else 0
                else:
                    step //= 2
        # the concrete schedule instead of the seed that produced it
        if res.get("tape") is not None and not res.get("tape_trunc") and spec["sched"]["mode"] in (1, 2):
            t = json.loads(json.dumps(spec))
            t["sched"] = {"mode": 3, "tape": res["tape"]}
            r = self.fails(prefix + [t], want)
            if r:
                spec, res = t, r
        elif spec["sched"]["mode"] in (1, 2) and not res.get("tape"):
            t = json.loads(json.dumps(spec))
            t["sched"] = {"mode": 0}
            r = self.fails(prefix + [t], want)
            if r:
                spec, res = t, r
        rounds = 0
        while time.time() < self.deadline:
            try:
                out = subprocess.run([self.exe, "candidates", "-"], input=json.dumps(spec), stdout=subprocess.PIPE,
                                     env=ENV, text=True, timeout=60).stdout
            except subprocess.TimeoutExpired:
                break
            cands = [json.loads(l) for l in out.splitlines()]
            hit = self.first([prefix + [c] for c in cands], want)
            if not hit:
                break
            spec, res = cands[hit[0]], hit[1]
            rounds += 1
        final = self.fails(prefix + [spec], want)
        return prefix, spec, final or res, rounds, bool(final)


# ------------------------------------------------------------------ check

LEVEL = "exploration"

REAL = ["render (all of it)", "sdf", "form2, form3 and sub-packages", "helpers/matter, helpers/sdfexp", "internal/*",
        "gonum, x/exp/rand, archive/zip, compress/flate, encoding/xml, encoding/binary, bufio, io, os (compiled from source)",
        "Go runtime (allocator, channels, locks, select, maps) apart from the choice of the next goroutine, the clock and the random source"]
STUB = ["operating system: file system calls are served by the simulator's kernel (in-memory, fault plan, crash images)",
        "goroutine choice: seeded PRNG or recorded tape, one preemption point before every statement of the library",
        "clock and timers: simulated", "runtime randomness (map seeds, map iteration, select): seeded PRNG"]


def distinct(files):
    runs, scheds = set(), set()
    import array
    for f in files:
        if os.path.exists(f):
            a = array.array("Q")
            with open(f, "rb") as h:
                b = h.read()
            a.frombytes(b[:len(b) // 16 * 16])
            runs.update(a[0::2])
            scheds.update(a[1::2])
    return len(runs), len(scheds)


def determinism_sample(exe, prop, seed, n=18):
    """The same runs in one process and spread over several."""
    def hashes(start, count):
        p = subprocess.run([exe, "worker", "-prop", prop, "-seed", str(seed), "-start", str(start), "-count", str(count),
                            "-nomark", "-list"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, timeout=RUN_LIMIT)
        return {l.split()[1]: l for l in p.stdout.decode(errors="replace").splitlines() if l.startswith("h ")}
    a = hashes(0, n)
    b = {}
    for s in range(0, n, n // 3):
        b.update(hashes(s, n // 3))
    return len(a), sum(1 for k in a if a[k] != b.get(k))


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    secs = float(os.environ.get("VSIM_SECS", "0")) or SECS[tier]
    known = load_known(prop)
    print("vsim: property %s, %s, VERIF_SEED=%d, %d workers" % (prop, tier, seed, JOBS), flush=True)
    with BuildDir() as tmp:
        racy = prop in RACE_PROPS
        bins, info = make(tmp, ("plain", "race") if racy else ("plain",))
        table = props(bins["plain"])
        if prop not in table or table[prop] != racy:
            raise Trouble("unknown property or wrong race setting: %s" % prop)
        det_n, det_bad = 0, 0
        try:
            det_n, det_bad = determinism_sample(bins["plain"], prop, seed)
        except subprocess.TimeoutExpired:
            pass
        t1 = time.time()
        deadline, stop = t1 + secs, threading.Event()
        nrace = max(1, JOBS * 3 // 8) if racy else 0
        slots = []
        nplain = max(1, JOBS - nrace)
        for w in range(nplain):
            slots.append(Searcher(bins["plain"], prop, seed, w, nplain, "plain", deadline, stop, known, tmp, w))
        for w in range(nrace):
            slots.append(Searcher(bins["race"], prop, seed, RACE_BASE + w, nrace, "race", deadline, stop, known, tmp, w))
        with concurrent.futures.ThreadPoolExecutor(len(slots)) as ex:
            futs = [ex.submit(s.run) for s in slots]
            trouble = [f.exception() for f in futs if f.exception()]
        searched = time.time() - t1
        found = [v for s in slots for v in s.found]
        if trouble and not found:
            raise trouble[0]
        hits = sorted({k["what"] for s in slots for k in known for v in s.known_hits if match_known([k], v)})
        replay = None
        if found:
            found.sort(key=lambda v: (v["flavour"] != "plain", v["index"]))
            replay = report(bins, found, prop, seed, time.time() + MINIMISE[tier])
        agg, per = Agg(), {}
        for s in slots:
            for k in ("runs", "nontrivial", "evals", "steps", "points", "switches", "sim_ns", "restarts"):
                setattr(agg, k, getattr(agg, k) + getattr(s.agg, k))
            agg.max_steps = max(agg.max_steps, s.agg.max_steps)
            agg.slow = max(agg.slow, s.agg.slow)
            for k in ("fired", "probe", "skips", "modes"):
                for n, c in getattr(s.agg, k).items():
                    getattr(agg, k)[n] = getattr(agg, k).get(n, 0) + c
            agg.samples += s.agg.samples[:1]
            per[s.flavour] = per.get(s.flavour, 0) + s.agg.runs
        nd, ns = distinct([s.hashes for s in slots])
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
            "coverage": {
                "evaluations": agg.runs,
                "distinct_nontrivial": nd,
                "rule": RULES.get(prop, "") + " One evaluation is one simulated run generated from (VERIF_SEED, run index): "
                        "workload, fault plan, crash point, schedule, clock and map seeds. A run counts as distinct and non-trivial when it met the "
                        "property's precondition and its hash over schedule decisions, outputs and final states differs from every other counted run.",
                "samples": agg.samples[:3],
                "oracle_evaluations": agg.evals,
                "nontrivial_runs": agg.nontrivial,
                "distinct_interleavings": ns,
                "interleaving_measure": "distinct sequences of (number of runnable goroutines, choice) over all scheduling decisions of the run",
                "runs_by_build": per,
                "runs_per_hour": int(agg.runs / max(searched, 1e-9) * 3600),
                "seeds_per_hour": int(agg.runs / max(searched, 1e-9) * 3600),
                "search_s": round(searched, 2),
                "simulated_seconds": round(agg.sim_ns / 1e9, 3),
                "scheduling_steps": agg.steps,
                "scheduling_decisions": agg.points,
                "preemptions_taken": agg.switches,
                "longest_run_steps": agg.max_steps,
                "schedulers": {{"0": "run-to-block", "1": "random walk", "2": "random priorities", "3": "tape"}[k]: v
                               for k, v in sorted(agg.modes.items())},
                "faults_injected": dict(sorted(agg.fired.items())),
                "probes": dict(sorted(agg.probe.items())),
                "skipped_runs": agg.skips,
                "determinism": {"runs_executed_twice_in_different_processes": det_n, "differences": det_bad},
                "real_components": REAL, "stubbed_components": STUB,
                "preemption_points_in_code": info["yield_points"], "files_instrumented": info["files"],
                "build_s": info["build_s"],
                "known_findings_seen": hits,
            },
            "assumptions": ASSUME,
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if found else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        print("vsim: %s: %d runs (%d distinct non-trivial), %d oracle evaluations, %d steps, faults %s, %.1f s" %
              (prop, agg.runs, nd, agg.evals, agg.steps, json.dumps(dict(sorted(agg.fired.items()))), time.time() - t0))
        if found:
            print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
            return 1
        if agg.runs == 0:
            raise Trouble("no run completed")
        if agg.skips and sum(agg.skips.values()) * 2 > agg.runs:
            raise Trouble("most runs used system calls the simulator does not model: %s" % agg.skips)
        return 0


def report(bins, found, prop, seed, deadline):
    """Minimises the first reproducible violation and writes its replay file."""
    out, best = None, found[0]
    for f in found[:4]:
        m = Minimiser(bins[f["flavour"]], deadline)
        out = m.minimise(f, prop, seed)
        if out:
            best = f
            break
    d = {"property": prop, "verif_seed": seed, "run_index": best["index"], "build": best["flavour"],
         "found": best["viol"]}
    if out:
        prefix, spec, res, rounds, again = out
        d.update(violation=res["viol"], reproduced_in_fresh_process=again, reductions=rounds, attempts=m.tries,
                 result_hash=res.get("hash"), trace=res.get("trace"), race_report=res.get("race_report"),
                 specs=prefix + [spec])
    else:
        d.update(violation=best["viol"], reproduced_in_fresh_process=False, specs=[best["spec"]])
    body = json.dumps(d, indent=1)
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s.json" % (prop, hashlib.sha1(json.dumps(d["specs"]).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(body + "\n")
    for v in d["violation"][:3]:
        print("vsim: [%s] %s" % (v["class"], v["msg"]))
    for l in (d.get("race_report") or [])[:30]:
        print("vsim:   " + l)
    return path


def replay(path):
    with open(path) as f:
        d = json.load(f)
    with BuildDir() as tmp:
        bins, _ = make(tmp, (d["build"],))
        r = run_specs(bins[d["build"]], d["specs"])
        want = {v["class"] for v in d["violation"]}
        for v in r["viol"]:
            print("vsim: [%s] %s" % (v["class"], v["msg"]))
        if classes(r) & want:
            same = r.get("hash") == d.get("result_hash")
            print("vsim: reproduced%s" % (", identical execution" if same else ", different execution hash"))
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        print("vsim: not reproduced")
        return 0


def determinism(n):
    with BuildDir() as tmp:
        bins, _ = make(tmp, ("plain", "race"))
        bad = 0
        for prop, racy in props(bins["plain"]).items():
            for fl in ("plain", "race") if racy else ("plain",):
                for seed in (1, 2, 3):
                    k, b = determinism_sample(bins[fl], prop, seed, n)
                    bad += b
                    print("%s %s seed %d: %d runs, %d differ" % (prop, fl, seed, k, b), flush=True)
        return 1 if bad else 0


def seeded(ids):
    """Runs each planted bug's check against a patched copy of /repo."""
    ids = ids or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(VERIF + "/seeded/*/meta.json"))
    for i in ids:
        with open("%s/seeded/%s/meta.json" % (VERIF, i)) as f:
            prop = json.load(f)["property"]
        tmp = tempfile.mkdtemp(prefix="vsim-seeded-")
        try:
            subprocess.check_call(["cp", "-a", "/repo/.", tmp])
            subprocess.check_call(["git", "-C", tmp, "apply", "%s/seeded/%s/patch.diff" % (VERIF, i)])
            t = time.time()
            p = subprocess.run([sys.executable, os.path.abspath(__file__), "check", prop, "quick"],
                               env=dict(os.environ, VSIM_REPO=tmp), stdout=subprocess.PIPE, text=True)
            got = [l for l in p.stdout.splitlines() if l.startswith(("VIOLATION", "vsim: ["))]
            print("%s %s rc=%d %.0fs %s" % (i, prop, p.returncode, time.time() - t, " | ".join(got)[:400]), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return 0


def _table(name):
    with open(os.path.join(VERIF, "sim", "properties.json")) as f:
        return json.load(f)[name]


RACE_PROPS = _table("race")
RULES = _table("rules")
ASSUME = _table("assumptions")


def main():
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        a = sys.argv[1:]
        if a[:1] == ["check"] and len(a) == 3 and a[2] in SECS:
            return check(a[1], a[2])
        if a[:1] == ["replay"] and len(a) == 2:
            return replay(a[1])
        if a[:1] == ["determinism"]:
            return determinism(int(a[1]) if len(a) > 1 else 30)
        if a[:1] == ["seeded"]:
            return seeded(a[1:])
        if a[:1] == ["setup"]:
            with BuildDir() as tmp:
                bins, info = make(tmp, ("plain", "race"))
                print("vsim: built", info, sorted(props(bins["plain"])))
            return 0
        print(__doc__)
        return 2
    except Trouble as e:
        print("vsim: ERROR: %s" % e, flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
