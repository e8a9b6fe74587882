#!/usr/bin/env python3
"""Decides one property by seeded simulation of the real program.

  check.py <property>            tier and seed from VERIF_TIER / VERIF_SEED
  check.py --replay <plan file>  run one recorded violation again
  check.py --build               build the simulator only
Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. 2: the check itself failed.
"""
import collections, fcntl, json, os, queue, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "build")
SIM = {v: os.path.join(OUT, "mcsim-" + v) for v in "ab"}
NEEDS_B = {"C16"}
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MCSIM_OTHER=SIM["b"], LC_ALL="C")
RULES = {
    "default": "A seed is expanded into a plan: a random rig (cameras, lens models, boards, frames), a configuration, the "
               "random-device stream, clock, core count, initial memory contents and a list of faults; the real program is "
               "run on it under the simulator. Non-trivial: the oracle had something to decide on this plan. Distinct: by the "
               "fingerprint of the executed scenario (observation pattern, partition and configuration, fault list "
               "and, where threads matter, the hash of the executed interleaving)."}
BUDGET = {"quick": 75.0, "thorough": 660.0}


def build(variants):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for v in variants:
            r = subprocess.run(["make", "-s", "-j8", "VARIANT=" + v, "OUT=" + OUT], cwd=os.path.join(HERE, "sim"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(r.stdout[-4000:])
                print("check.py: build of the simulator failed")
                sys.exit(2)


def run_plan(path, timeout=600):
    try:
        r = subprocess.run([SIM["a"], "run", path], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, timeout=timeout)
        return json.loads(r.stdout.strip().splitlines()[-1])
    except (subprocess.TimeoutExpired, ValueError, IndexError):
        return None


def classes(d):
    return {f[0] for f in d["fail"]} if d else set()


def known_findings(prop):
    res = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append({"cls": m.group(2), "re": re.compile(m.group(3)), "text": m.group(4)})
    return res


def unlisted(d, known):
    return [f for f in d["fail"] if not any(k["cls"] == f[0] and k["re"].search(f[1]) for k in known)]


class Explorer:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.results, self.lock = [], threading.Lock()
        self.suspects = queue.Queue()
        self.dead = 0
        self.stop = threading.Event()
        corpus = []
        path = os.path.join(HERE, "corpus", prop + ".txt")
        if os.path.exists(path):
            corpus = [int(x) for l in open(path) for x in l.split("#")[0].split()]
        self.corpus = corpus
        self.seeds = self._seeds()

    def _seeds(self):
        yield from self.corpus
        i = 0
        while True:
            i += 1
            yield self.seed * 10_000_000 + i

    def _worker(self, deadline):
        p = None
        while not self.stop.is_set() and time.time() < deadline:
            with self.lock:
                s = next(self.seeds)
            if p is None:
                p = subprocess.Popen([SIM["a"], "worker", self.prop, self.tier], env=ENV, stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                with self.lock:
                    self.procs.append(p)
            try:
                p.stdin.write("%d\n" % s)
                p.stdin.flush()
                line = p.stdout.readline()
            except (BrokenPipeError, ValueError):
                line = ""
            try:
                d = json.loads(line)
            except ValueError:
                if not self.stop.is_set():
                    with self.lock:
                        self.dead += 1
                        if not hasattr(self, "dead_seeds"):
                            self.dead_seeds = []
                        self.dead_seeds.append(s)
                p = None
                continue
            with self.lock:
                self.results.append(d)
            if d["fail"]:
                self.suspects.put(d)
        if p is not None:
            p.stdin.close()
            p.wait()

    def explore(self, budget, known):
        """Runs seeds until the budget is used up or an unlisted failure was seen; returns the suspects."""
        self.procs = []
        t0 = time.time()
        n = min(8, os.cpu_count() or 8)
        th = [threading.Thread(target=self._worker, args=(t0 + budget,), daemon=True) for _ in range(n)]
        for t in th:
            t.start()
        sus = []
        grace = None
        while any(t.is_alive() for t in th):
            try:
                d = self.suspects.get(timeout=0.2)
                if unlisted(d, known):
                    sus.append(d)
            except queue.Empty:
                pass
            if sus and grace is None:
                grace = time.time() + 4
            if (grace and (time.time() > grace or len(sus) >= 6)) or time.time() > t0 + budget + 90:
                self.stop.set()
                for p in self.procs:
                    p.kill()
                break
        for t in th:
            t.join(10)
        return sus, time.time() - t0


def confirm(ex, sus, known):
    """Gate: a violation counts when it is seen again in fresh processes; then it is minimised."""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for d in sorted(sus, key=lambda d: d["wall"])[:6]:
        plan = os.path.join(HERE, "replays", "%s-%d.plan" % (ex.prop, d["seed"]))
        txt = subprocess.run([SIM["a"], "gen", ex.prop, str(d["seed"]), ex.tier], env=ENV, stdout=subprocess.PIPE, text=True).stdout
        with open(plan, "w") as f:
            f.write(txt)
        cls = {f[0] for f in unlisted(d, known)}
        a = run_plan(plan)
        b = run_plan(plan) if d["wall"] < 40 else a
        if not (classes(a) & cls and classes(b) & cls):
            print("note: seed %d reported %s but a fresh process did not: not counted" % (d["seed"], sorted(cls)))
            continue
        exact = a["hash"] == b["hash"] == d["hash"]
        if d["wall"] < 15:
            small = plan + ".min"
            try:
                subprocess.run([SIM["a"], "min", plan, small, "45" if ex.tier == "quick" else "240"], env=ENV,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400)
                m = run_plan(small)
                if m and unlisted(m, known) and classes(m) & cls:
                    os.replace(small, plan)
                    a = m
            except (subprocess.TimeoutExpired, OSError):
                pass
        if os.path.exists(plan + ".min"):
            os.remove(plan + ".min")
        return plan, a, exact
    return None


def evidence(ex, wall, spent, verdict, extra):
    R = ex.results
    sigs = {}
    for d in R:
        if d["sig"] and not d["inconclusive"]:
            sigs.setdefault(d["sig"], d["seed"])
    rt, probes, items, worst = (collections.Counter() for _ in range(4))
    for d in R:
        rt.update(d["rt"])
        probes.update(d["probes"])
        items.update(d["items"])
        for k, v in d["worst"].items():
            worst[k] = max(worst[k], v)
    samples = []
    for s in list(sigs.values())[:2]:
        p = subprocess.run([SIM["a"], "gen", ex.prop, str(s), ex.tier], env=ENV, stdout=subprocess.PIPE, text=True).stdout
        lines = p.splitlines()
        samples.append({"seed": s, "plan": lines[:60] + (["... %d more lines" % (len(lines) - 60)] if len(lines) > 60 else [])})
    cov = {
        "evaluations": len(R),
        "distinct_nontrivial": len(sigs),
        "rule": RULES.get(ex.prop, RULES["default"]),
        "samples": samples,
        "program_runs": rt["runs"],
        "runs_per_hour": round(rt["runs"] / max(spent, 1e-3) * 3600),
        "seeds_per_hour": round(len(R) / max(spent, 1e-3) * 3600),
        "simulated_seconds": round(rt["sim_ns"] * 1e-9, 3),
        "program_endings": {k[4:]: v for k, v in sorted(rt.items()) if k.startswith("end_")},
        "injected": {
            "plan_items_by_kind": dict(items),
            "io_steps_seen": rt["io_steps"], "io_faults_fired": rt["io_fired"], "clock_jumps": rt["clock_jumps"],
            "short_or_interrupted_writes": rt["short_writes"],
            "spurious_wakeups": rt["spurious"], "preemptions": rt["preemptions"],
        },
        "scheduling": {"scheduling_points": rt["points"], "context_switches": rt["switches"], "threads": rt["threads"]},
        "random_draws_served": rt["draws"], "clock_reads_served": rt["clock_reads"],
        "probes": dict(probes),
        "largest_deviation_seen": {k: round(v, 4) for k, v in worst.items()},
        "inconclusive": dict(collections.Counter(d["inconclusive"] for d in R if d["inconclusive"])),
        "workers_lost": ex.dead,
        "corpus_seeds": len(ex.corpus),
        "real_components": "all of McCalib/src and apps/calibrate (compiled from /repo), OpenCV, Ceres, Boost",
        "simulated_components": "thread scheduling, std::random_device, clocks, core count, file I/O results (open, read, "
                                "write, close, rename), allocation contents, process crash; the world (cameras, boards, images) is generated",
        "verdict": verdict,
    }
    cov.update(extra)
    e = {"property": ex.prop, "tier": ex.tier, "seed": ex.seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", ex.prop + ".json"), "w") as f:
        json.dump(e, f, indent=1, sort_keys=True)


def main():
    t0 = time.time()
    if len(sys.argv) == 2 and sys.argv[1] == "--build":
        build("ab")
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        build("ab")
        d = run_plan(sys.argv[2])
        print(json.dumps(d, indent=1))
        return 1 if d and d["fail"] else 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in BUDGET else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    build("ab" if prop in NEEDS_B else "a")
    known = known_findings(prop)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    ex = Explorer(prop, tier, seed)
    budget = float(os.environ.get("MCSIM_BUDGET", BUDGET[tier]))
    sus, spent = ex.explore(budget, known)
    hit = confirm(ex, sus, known) if sus else None
    held = hit is None
    evidence(ex, time.time() - t0, spent, "held" if held else "violated",
             {} if held else {"violation": {"replay": hit[0], "classes": hit[1]["fail"][:5], "exact_replay": hit[2]}})
    n = len(ex.results)
    sig = len({d["sig"] for d in ex.results if d["sig"]})
    print("%s: %d seeds, %d distinct non-trivial, %d inconclusive, %.0f s" %
          (prop, n, sig, sum(1 for d in ex.results if d["inconclusive"]), time.time() - t0))
    if not held:
        for f in hit[1]["fail"][:5]:
            print("  %s: %s" % (f[0], f[1]))
        print("VIOLATION property=%s replay=%s" % (prop, hit[0]))
        return 1
    if sig == 0:
        print("check.py: nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
