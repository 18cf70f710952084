#!/usr/bin/env python3
"""Decides one property by deterministic simulation of /repo's current working tree.

  check.py <property> [quick|thorough]     search seeded runs; exit 0, or 1 with a VIOLATION line
  check.py replay <file>                   run a replay file again in a fresh process
  check.py build                           build the simulator only
  check.py determinism [n]                 every property, n seeds, repeated in several processes

Every run is a function of (property, VERIF_SEED, run number).  Trouble of the check itself
(build failure, watchdog) ends with exit 2.
"""
import collections, fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
REPLAYS = os.path.join(ROOT, "replays")
EVID = os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "known_findings.txt")

# runs of the quick tier, sized for roughly 20 s on 8 cores
RUNS = dict(C01=36000, C02=20000, C03=28000, C04=48000, C05=36000, C06=80000, C07=64000, C08=56000, C09=48000, C10=28000,
            C11=48000, C12=14000, C13=28000, C14=44000, C15=44000, C16=30000, C17=32000, C18=28000, C19=32000, C20=32000)
QUICK_LIMIT = 150.0      # wall seconds of search, however slow the machine
THOROUGH_LIMIT = 660.0
WORKERS = max(2, min(8, os.cpu_count() or 8))
STUCK = 60.0             # a run takes milliseconds; one that takes this long is tried again alone
MEMORY = 7 << 29         # address space of a worker


def die(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


def env():
    e = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    e.setdefault("HOME", "/root")
    e["GOPATH"] = "/root/go"
    cache = "/root/.cache/go-build"
    try:
        os.makedirs(cache, exist_ok=True)
        t = tempfile.TemporaryFile(dir=cache)
        t.close()
    except OSError:
        cache = os.path.join(BUILD, "gocache")
    e["GOCACHE"] = cache
    for k in ("GOROOT", "GOEXPERIMENT", "GODEBUG", "GOOS", "GOARCH", "GOGC", "GOMEMLIMIT"):
        e.pop(k, None)
    return e


def tree_key():
    h = hashlib.sha256()
    def add(base, pat):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in (".git", "node_modules", ".build"))
            for f in sorted(fs):
                if pat(f):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, base).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    add(REPO, lambda f: f.endswith(".go") or f in ("go.mod", "go.sum"))
    add(os.path.join(ROOT, "sim"), lambda f: f.endswith(".go") or f == "go.mod")
    h.update(REPO.encode())
    h.update(subprocess.run(["go", "version"], capture_output=True, env=env()).stdout)
    return h.hexdigest()[:20]


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = tree_key()
        out = os.path.join(BUILD, key)
        exe = os.path.join(out, "sim.test")
        if os.path.exists(exe) and os.path.exists(os.path.join(out, "ok")):
            return exe, open(os.path.join(out, "ok")).read().strip()
        old = sorted((d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d) and len(os.path.basename(d)) == 20),
                     key=os.path.getmtime)
        for d in old[:-2]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        instr = os.path.join(out, "instr")
        r = subprocess.run(["go", "build", "-o", instr, "."], cwd=os.path.join(ROOT, "sim", "instr"), env=env(), capture_output=True, text=True)
        if r.returncode:
            die("cannot build the instrumenter:\n" + r.stderr[-3000:])
        logs = ""
        for level in ("2", "1"):
            gen = os.path.join(out, "gen")
            shutil.rmtree(gen, ignore_errors=True)
            r = subprocess.run([instr, "-repo", REPO, "-out", gen, "-sim", os.path.join(ROOT, "sim"), "-level", level],
                               env=env(), capture_output=True, text=True)
            if r.returncode == 0:
                r = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", os.path.join(gen, "overlay.json"), "-o", exe, "./zzsim/cli/harness"],
                                   cwd=REPO, env=env(), capture_output=True, text=True)
            if r.returncode == 0:
                open(os.path.join(out, "ok"), "w").write(level)
                return exe, level
            logs += "level %s:\n%s\n" % (level, (r.stdout + r.stderr)[-2500:])
        die("cannot build the simulator from %s:\n%s" % (REPO, logs))


def known():
    """Signatures of findings that are recorded, per property, and nothing else."""
    k = collections.defaultdict(dict)
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l.strip())
            if m:
                k[m.group(1)][m.group(2)] = m.group(3)
    return k


class Worker:
    def __init__(self, exe, d, name, job, procs="1"):
        self.job, self.out = job, os.path.join(d, name + ".out")
        self.log = os.path.join(d, name + ".log")
        job["out"] = self.out
        jf = os.path.join(d, name + ".job")
        json.dump(job, open(jf, "w"))
        e = env()
        e.update(VSIM_JOB=jf, GOMAXPROCS=procs, GOGC="200", GOMEMLIMIT="2GiB", TMPDIR=d, GOTRACEBACK="single")
        self.p = subprocess.Popen([exe, "-test.run", "^TestSim$", "-test.timeout", "0"], cwd=d, env=e, stdin=subprocess.DEVNULL,
                                  stdout=open(self.log, "w"), stderr=subprocess.STDOUT,
                                  preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY)))
        self.t0 = self.moved = time.time()
        self.at = None

    def stuck(self):
        """No run came to an end for a long time."""
        try:
            at = open(self.out + ".cur").read()
        except OSError:
            at = None
        if at != self.at:
            self.at, self.moved = at, time.time()
        return time.time() - self.moved > STUCK

    def result(self):
        with open(self.out) as f:
            return json.load(f)

    def tail(self, n=2500):
        t = open(self.log, errors="replace").read()
        i = max(t.find("fatal error:"), t.find("panic:"))
        return t[i:i + n] if i >= 0 else t[-n:]


def run_one(exe, d, name, job, limit, procs="1"):
    w = Worker(exe, d, name, job, procs)
    try:
        w.p.wait(limit)
    except subprocess.TimeoutExpired:
        w.p.kill()
        w.p.wait()
        return w, "timeout"
    return w, w.p.returncode


def report(prop, rep, note=""):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, rep.get("seed", "x")))
    json.dump(rep, open(path, "w"), indent=1, ensure_ascii=False)
    print("%s: %s" % (rep.get("sig", "?"), rep.get("message", "")))
    sc = rep.get("scenario") or {}
    steps = sum(len(a.get("ops") or []) for a in sc.get("actors") or [])
    print("  seed %s, %d steps by %d actors, %s deviating choices%s%s" % (
        rep.get("seed"), steps, len(sc.get("actors") or []), len(rep.get("choices") or []), ", minimised" if rep.get("minimised") else "", note))
    for l in (rep.get("trace") or [])[-40:]:
        print("  | " + l[:200])
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    deep = tier == "thorough"
    exe, level = build()
    built = time.time() - t0
    kn = known().get(prop, {})
    limit = THOROUGH_LIMIT if deep else QUICK_LIMIT
    total = RUNS[prop] * (200 if deep else 1)
    d = tempfile.mkdtemp(prefix="vsim-")
    try:
        ws = []
        per = -(-total // WORKERS)
        for k in range(WORKERS):
            ws.append(Worker(exe, d, "w%d" % k, dict(mode="run", prop=prop, seed=seed, first=k, step=WORKERS, count=per,
                                                      limit=limit, deep=deep, known=sorted(kn))))
        res, dead, hung, replay = [], [], [], None
        left = list(ws)
        hard = t0 + built + limit + 120
        while left:
            time.sleep(0.05)
            for w in list(left):
                if w.p.poll() is None:
                    if w.stuck() or time.time() > hard:
                        hung.append(w)
                        for x in left:
                            x.p.kill()
                            x.p.wait()
                        left = []
                        break
                    continue
                left.remove(w)
                if w.p.returncode == 0:
                    r = w.result()
                    res.append(r)
                    if r.get("replay"):
                        if replay is None or r["replay"]["seed"] < 0:
                            replay = r["replay"]
                        for x in left:  # one is enough
                            x.p.kill()
                            x.p.wait()
                        left = []
                        break
                else:
                    dead.append(w)
                    for x in left:
                        x.p.kill()
                        x.p.wait()
                    left = []
                    break
        # how deterministic: a sample again in another process with another degree of parallelism
        det = None
        if not replay and not dead and not hung:
            n = 24
            job = dict(mode="determinism", prop=prop, seed=seed, first=0, step=1, count=n, deep=deep)
            outs = []
            for i, procs in enumerate(("1", "4")):
                w, rc = run_one(exe, d, "det%d" % i, dict(job), 300, procs)
                outs.append(w.result() if rc == 0 else {})
            det = dict(seeds=n, processes=2, identical=sum(1 for k, v in outs[0].items() if outs[1].get(k) == v))
        viol = 0
        if replay:
            viol = 1
            rep = finish(exe, d, prop, replay, deep)
        elif dead or hung:
            viol = 1
            rep = death(exe, d, prop, (dead + hung)[0], deep, not dead)
        evidence(prop, tier, seed, res, det, viol, time.time() - t0, built, level, deep)
        if viol:
            note = "; replayed exactly in a fresh process" if rep.get("replayed") else ""
            report(prop, rep, note)
            return 1
        if det and det["identical"] != det["seeds"]:
            print("warning: only %(identical)d of %(seeds)d runs repeated identically" % det)
        seen = collections.Counter()
        for r in res:
            seen.update(r.get("known") or {})
        for sig, what in sorted(kn.items()):
            print("KNOWN-FINDING: property=%s %s %s (seen %d times)" % (prop, sig, what, seen[sig]))
        runs = sum(r["runs"] for r in res)
        print("%s: %d runs, %.0f s simulated, no violation (%.0f s)" % (prop, runs, sum(r["sim_sec"] for r in res), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def finish(exe, d, prop, rep, deep):
    """Minimise, then replay in a fresh process."""
    f = os.path.join(d, "found.json")
    json.dump(rep, open(f, "w"))
    lim = 120 if deep else 45
    w, rc = run_one(exe, d, "min", dict(mode="minimise", prop=prop, **{"in": f}, limit=float(lim)), lim + 120)
    small = w.result() if rc == 0 else None
    for cand in (small, rep):
        if not cand:
            continue
        json.dump(cand, open(f, "w"))
        w, rc = run_one(exe, d, "rep", dict(mode="replay", prop=prop, **{"in": f}), 300)
        if rc != 0:
            continue
        rr = w.result()
        if rr["same"]:
            cand = rr["replay"]
            cand["replayed"] = True
            return cand
        if any(v["sig"] == cand["sig"] and prop in v["props"] for v in rr["viol"]):
            cand["hash"], cand["trace"] = rr["hash"], rr["replay"].get("trace")
            cand["note"] = "the violation comes back, the schedule differs: the code under test has a source of nondeterminism of its own"
            return cand
    # the code under test decides something the simulator does not control: the seed is the replay
    for i in range(5):
        w, rc = run_one(exe, d, "again%d" % i, dict(mode="run", prop=prop, seed=1, one=rep["seed"], count=1, deep=deep), 300)
        if rc == 0 and w.result().get("replay"):
            rep["note"] = "comes back with its seed, not with its recorded choices"
            return rep
    die("violation %s (seed %s) does not come back: %s" % (rep["sig"], rep["seed"], rep["message"]))


def death(exe, d, prop, w, deep, hang=False):
    """A worker process died or hangs: that is a violation if the run it was in does it to a fresh process too."""
    text = w.tail()
    head = "\n".join(text.split("\n")[:8])
    cur = open(w.out + ".cur").read().split() if os.path.exists(w.out + ".cur") else []
    if len(cur) < 2:
        die("a worker ended with status %s:\n%s" % (w.p.returncode, text))
    n, seed = int(cur[0]), int(cur[1])
    oom = "out of memory" in text or "cannot allocate memory" in text
    if not hang and w.p.returncode > 0 and not oom:
        if not ("fatal error:" in text or "panic:" in text or "goroutine" in text):
            die("a worker ended with status %s:\n%s" % (w.p.returncode, text))
        if "zzsim" in head and "harness" in head:
            die("the harness failed in run %d (seed %d):\n%s" % (n, seed, text))
    for i in range(2):
        w2, rc = run_one(exe, d, "die%d" % i, dict(mode="run", prop=prop, seed=1, one=seed, first=n, step=1, count=1, deep=deep), 2 * STUCK)
        if rc == 0 or (rc == "timeout") != hang:
            die("a worker %s in run %d (seed %d), which does not come back:\n%s" % ("hung" if hang else "died", n, seed, text))
    what = "the process hangs: one run of milliseconds does not end in %d s" % (2 * STUCK)
    if not hang:
        what = "the process is killed by the Go runtime: " + text.split("\n")[0]
    return dict(property=prop, sig="process-hang" if hang else "process-death", seed=seed, run=n, message=what,
                trace=[] if hang else text.split("\n")[:40], replayed=True, deep=deep)


REAL = ["main.go and test/client (server and simulated terminals, entry points included)", "internal/server", "internal/protocol", "internal/protocol/model",
        "internal/storage", "internal/api with the real gin router", "internal/config", "internal/codec", "pkg/container", "pkg/routines", "pkg/logger", "third-party gin, zerolog, gron, viper"]
STUB = ["TCP (simnet: segments, windows, half-close, reset, loss of the peer; bytes in order as TCP guarantees)", "net/http server loop (requests call the router's ServeHTTP)",
        "goroutine scheduler, mutexes, channels, timers and clock (simrt, simsync, testing/synctest)", "math/rand, map iteration order (drawn from the seed)",
        "terminals and HTTP callers (harness with a wire codec of its own)",
        "the rolling log file (lumberjack) and its disk: full, failing, short and slow writes"]
ASSUME = ["sequential consistency: goroutines interleave at statements and synchronisation operations, weak memory effects are not simulated",
          "TCP delivers a prefix of the bytes in order", "third-party packages are scheduled at their synchronisation operations only",
          "a clean batch of seeds is evidence, not proof"]


def evidence(prop, tier, seed, res, det, viol, wall, built, level, deep):
    os.makedirs(EVID, exist_ok=True)
    st, pb, kinds = collections.Counter(), collections.Counter(), collections.Counter()
    hs, hist = set(), set()
    tot = collections.Counter()
    samples = []
    for r in res:
        st.update(r["stats"] or {})
        pb.update(r["probes"] or {})
        kinds.update(r["kinds"] or {})
        hs.update(r["hashes"] or [])
        hist.update(r["hist"] or [])
        for k in ("runs", "sim_sec", "slices", "switches", "stmts", "ops", "nontrivial", "judged"):
            tot[k] += r[k]
        samples += r["samples"] or []
    search = max([r["wall_sec"] for r in res] or [0.001])
    cov = dict(
        evaluations=int(tot["runs"]), distinct_nontrivial=len(hs),
        rule="one evaluation is one simulated run of the whole system: scenario, schedule and faults drawn from (property, VERIF_SEED, run number); "
             "non-trivial: more than 20 context switches and at least one judgement by the oracle; distinct: another schedule hash (sequence of scheduled goroutines, steps and times)",
        samples=samples[:6], scenario_families=dict(kinds),
        runs_per_hour=int(tot["runs"] / search * 3600), seeds_per_hour=int(tot["runs"] / search * 3600),
        simulated_seconds=round(tot["sim_sec"], 1), faults_injected={k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault:")},
        other_counts={k: v for k, v in sorted(st.items()) if not k.startswith("fault:")}, probes=dict(sorted(pb.items())),
        distinct_schedules=len(hs), distinct_observed_histories=len(hist), context_switches=int(tot["switches"]), statements_scheduled=int(tot["stmts"]),
        actor_steps=int(tot["ops"]), oracle_judgements=int(tot["judged"]), timed_out_workers=sum(1 for r in res if r["timed_out"]),
        components_real=REAL, components_stubbed=STUB, determinism_sample=det, instrumentation_level=int(level), build_s=round(built, 1), exhaustive=False)
    json.dump(dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=ASSUME, wall_s=round(wall, 2), violations=viol),
              open(os.path.join(EVID, prop + ".json"), "w"), indent=1)


def replay(path):
    exe, _ = build()
    rep = json.load(open(path))
    d = tempfile.mkdtemp(prefix="vsim-")
    try:
        if rep.get("sig") in ("process-death", "process-hang"):
            w, rc = run_one(exe, d, "rep", dict(mode="run", prop=rep["property"], seed=1, one=rep["seed"], first=rep["run"], step=1, count=1, deep=rep.get("deep", False)), 2 * STUCK)
            print(w.tail())
            print("the process %s" % ("ends normally" if rc == 0 else "hangs again" if rc == "timeout" else "dies again"))
            return 0 if rc == 0 else 1
        w, rc = run_one(exe, d, "rep", dict(mode="replay", prop=rep["property"], **{"in": os.path.abspath(path)}), 300)
        if rc != 0:
            die("replay failed:\n" + w.tail())
        rr = w.result()
        for l in rr["replay"].get("trace") or []:
            print(l)
        print("same violation and same schedule: %s (hash %s)" % (rr["same"], rr["hash"]))
        return 1 if rr["same"] or any(v["sig"] == rep["sig"] for v in rr["viol"]) else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def determinism(n):
    exe, _ = build()
    d = tempfile.mkdtemp(prefix="vsim-")
    bad = tot = 0
    try:
        for prop in sorted(RUNS):
            jobs = []
            for i, procs in enumerate(("1", "1", "2", "4", "8", "1", "3", "8")):
                jobs.append(Worker(exe, d, "%s-%d" % (prop, i), dict(mode="determinism", prop=prop, seed=12345, first=0, step=1, count=n), procs))
            for w in jobs:
                w.p.wait()
            outs = [w.result() for w in jobs]
            dif = [k for k in outs[0] if any(o.get(k) != outs[0][k] for o in outs)]
            tot += len(outs[0])
            bad += len(dif)
            print(prop, len(outs[0]), "seeds x 8 processes,", len(dif), "differ", dif[:3], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print("%d of %d seeds differ" % (bad, tot))
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "build":
        t = time.time()
        print("built %s (instrumentation level %s) in %.1f s" % (*build(), time.time() - t))
        return 0
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "determinism":
        return determinism(int(a[1]) if len(a) > 1 else 60)
    if a[0] not in RUNS:
        die("unknown property " + a[0])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], "thorough" if tier == "thorough" else "quick")


if __name__ == "__main__":
    sys.exit(main())
