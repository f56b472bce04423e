#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE] [--seeds N] [--seconds S] [--workers W] [--only LO:HI]

Decides one property by deterministic simulation: generate plans from VERIF_SEED (sim/gen.py), run
each in the simulator (sim/worker.R in a zygote process per core), judge it (sim/judge.R), and on a
violation gate it, minimise it and write a replay file.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check failed.
"""
import argparse, collections, copy, hashlib, json, os, queue, select, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, SIM)
import gen  # noqa: E402

# what the statement of each property covers, of what the judge can see
CLASSES = {
    "C01": {"value", "outcome", "crash", "unbounded"},
    "C02": {"value", "outcome", "crash", "fit", "unbounded"},
    "C03": {"value", "outcome", "crash", "heap", "unbounded", "fit", "state"},
    "C04": {"interrupt-lost", "value", "outcome", "crash", "heap", "state", "unbounded", "fit"},
    "C05": {"cause", "start", "fit", "outcome", "value", "crash", "unbounded"},
    "C06": {"state"},
    "C07": {"stream", "value", "outcome"},
    "C08": {"fit", "value", "outcome", "unbounded", "crash"},
    "C09": {"value", "outcome", "crash", "fit", "unbounded"},
    "C10": {"crash", "heap", "value", "outcome", "fit", "unbounded"},
    "C11": {"leak"},
    "C12": {"output", "cadence", "transcript"},
    "C21": {"value", "outcome", "fit", "crash", "unbounded"},
    "C22": {"value", "outcome", "fit", "crash", "unbounded"},
}
QUICK_S = {"C01": 100, "C02": 105, "C03": 100, "C04": 105, "C05": 105, "C06": 90, "C07": 85, "C08": 110, "C09": 90, "C10": 105, "C11": 100, "C12": 85, "C21": 85, "C22": 80}
MIN_RUNS = 24


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def environment():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("R_", "LD_", "MAKE", "OMP_", "OPENBLAS", "LC_", "MALLOC_"))}
    e.update(R_HOME="/usr/lib/R", R_LIBS="", R_LIBS_USER="NULL", R_ENVIRON_USER="", R_PROFILE_USER="", R_ENABLE_JIT="0",
             R_SHARE_DIR="/usr/share/R/share", R_INCLUDE_DIR="/usr/share/R/include", R_DOC_DIR="/usr/share/R/doc",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TZ="UTC", LC_ALL="C.UTF-8", LANG="C.UTF-8", HOME="/nonexistent",
             R_MAX_VSIZE="6Gb", LD_LIBRARY_PATH="/usr/lib/R/lib", LD_PRELOAD=os.path.join(BUILD, "simrt.so"))
    for k in ("VERIF_SEED", "VERIF_TIER"):
        e.pop(k, None)
    return e


class SimError(Exception):
    pass


class Zygote:
    """One simulator process: reads plan file names, forks a world for each."""

    def __init__(self, scratch):
        self.tmp = tempfile.mkdtemp(prefix="z", dir=scratch)
        env = environment()
        env["TMPDIR"] = self.tmp
        aslr = ["setarch", "-R"] if ASLR_OFF else []
        self.err = open(os.path.join(self.tmp, "stderr"), "wb")
        self.p = subprocess.Popen(aslr + ["/usr/lib/R/bin/exec/R", "--vanilla", "--no-echo", "--no-restore",
                                          "--file=" + os.path.join(SIM, "boot.R"), "--args",
                                          os.path.join(BUILD, "lib"), os.path.join(BUILD, "simR.so"), SIM],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.tmp, start_new_session=True)
        self.buf = b""
        if self.line(180) != "READY":
            raise SimError("the simulator did not start: " + self.errors())

    def errors(self):
        try:
            return open(os.path.join(self.tmp, "stderr"), errors="replace").read()[-2000:]
        except OSError:
            return ""

    def line(self, timeout):
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return None
            b = os.read(self.p.stdout.fileno(), 65536)
            if not b:
                return None
            self.buf += b
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode()

    def run(self, path, timeout=900):
        self.p.stdin.write((path + "\n").encode())
        self.p.stdin.flush()
        l = self.line(timeout)
        if l is None:
            raise SimError("the simulator stopped answering: " + self.errors())
        if not l.startswith("OK"):
            raise SimError(l)
        return json.load(open(path + ".out"))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            pass
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.err.close()


def aslr_off():
    try:
        return subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError:
        return False


ASLR_OFF = aslr_off()


class Lab:
    """Zygotes that run plans side by side.  What a plan does does not depend on which one runs it."""

    def __init__(self, workers):
        self.scratch = tempfile.mkdtemp(prefix="glmmsr-sim-")
        self.n = 0
        self.lock = threading.Lock()
        self.idle = queue.Queue()
        zs = [None] * workers
        errs = []

        def start(i):
            try:
                zs[i] = Zygote(self.scratch)
            except Exception as e:  # noqa
                errs.append(e)
        ts = [threading.Thread(target=start, args=(i,)) for i in range(workers)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0]
        self.zs = zs
        for z in zs:
            self.idle.put(z)

    def path(self):
        with self.lock:
            self.n += 1
            return os.path.join(self.scratch, "p%06d.json" % self.n)

    def run(self, plan, fresh=False):
        path = self.path()
        json.dump(plan, open(path, "w"))
        z = Zygote(self.scratch) if fresh else self.idle.get()
        try:
            try:
                return z.run(path)
            except SimError:
                if not fresh:
                    z.close()
                    z = Zygote(self.scratch)
                raise
        finally:
            if fresh:
                z.close()
            else:
                self.idle.put(z)
            for f in (path, path + ".out"):
                if os.path.exists(f):
                    os.unlink(f)

    def map(self, plans, fresh=False, stop=None):
        """Results in order; stop(result) ends early (later ones are None)."""
        out = [None] * len(plans)
        todo = queue.Queue()
        for i, p in enumerate(plans):
            todo.put((i, p))
        halt = threading.Event()

        def work():
            while not halt.is_set():
                try:
                    i, p = todo.get_nowait()
                except queue.Empty:
                    return
                try:
                    out[i] = self.run(p, fresh)
                except SimError as e:
                    out[i] = {"error": str(e)}
                if stop and stop(out[i]):
                    halt.set()
        ts = [threading.Thread(target=work) for _ in range(len(self.zs))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return out

    def close(self):
        for z in self.zs:
            z.close()
        shutil.rmtree(self.scratch, ignore_errors=True)


def hits(prop, out):
    """The violations of this property in a result."""
    if not out or out.get("error"):
        return []
    return [v for v in out.get("violations") or [] if v["cls"] in CLASSES[prop]]


# ------------------------------------------------------------------------------ minimisation
def drop_orphans(plan):
    """Operations on what is no longer made do nothing; leave them out."""
    have, files = set(), set()

    def keep(ops):
        out = []
        for o in ops:
            k = o["op"]
            need = {"lfun": "m", "fit": "m", "eval": "f", "post": "f", "save": "id", "join": "f"}.get(k)
            if need and o[need] not in have:
                continue
            if k == "load" and o["file"] not in files:
                continue
            if o.get("prev") and o["prev"] not in have:
                continue
            o = dict(o)
            if o.get("ops") is not None:
                o["ops"] = keep(o["ops"])
                if not o["ops"]:
                    continue
            if o.get("fault"):
                fs = []
                for f in o["fault"]:
                    if f.get("ops") is not None:
                        f = {**f, "ops": keep(f["ops"])}
                        if not f["ops"]:
                            continue
                    fs.append(f)
                o["fault"] = fs
            if k in ("modfr", "lfun", "fit", "load") or (k == "fork" and o.get("id")):
                have.add(o["id"])
            if k == "save":
                files.add(o["file"])
            out.append(o)
        return out
    p = copy.deepcopy(plan)
    p["epochs"] = [keep(e) for e in p["epochs"]]
    while len(p["epochs"]) > 1 and not p["epochs"][-1]:
        p["epochs"].pop()
    return p


def size(plan):
    def s(ops):
        return sum(1 + s(o.get("ops") or []) + sum(1 + s(f.get("ops") or []) for f in o.get("fault") or []) for o in ops)
    return sum(s(e) for e in plan["epochs"])


def minimise(lab, plan, prop, cls, seconds):
    end = time.monotonic() + seconds
    tried = 0

    def bad(out):
        return any(v["cls"] == cls for v in hits(prop, out))

    def attempt(cands):
        """The first candidate, in order, that still fails."""
        nonlocal tried
        cands = [drop_orphans(c) for c in cands]
        n = len(lab.zs)
        for i in range(0, len(cands), n):
            if time.monotonic() > end:
                return None
            part = cands[i:i + n]
            tried += len(part)
            for c, o in zip(part, lab.map(part)):
                if bad(o):
                    return c
        return None

    if plan["prop"] != "C11":
        # nothing after the violation matters, mostly
        chunk = True
        while chunk:
            flat = [(e, i) for e, ops in enumerate(plan["epochs"]) for i in range(len(ops))]
            chunk = False
            k = max(1, len(flat) // 2)
            while k >= 1 and time.monotonic() < end:
                cands = []
                for s in range(len(flat) - k, -1, -k):
                    gone = set(flat[s:s + k])
                    c = copy.deepcopy(plan)
                    c["epochs"] = [[o for i, o in enumerate(ops) if (e, i) not in gone] for e, ops in enumerate(plan["epochs"])]
                    cands.append(c)
                g = attempt(cands)
                if g is not None and size(g) < size(plan):
                    plan = g
                    chunk = True
                    break
                k //= 2
    else:
        mems = [i for i, o in enumerate(plan["epochs"][0]) if o["op"] == "mem"]
        # drop one operation from every cycle
        names = {json.dumps({k: v for k, v in o.items()}, sort_keys=True) for o in plan["epochs"][0] if o["op"] == "eval"}
        for nm in sorted(names):
            c = copy.deepcopy(plan)
            c["epochs"][0] = [o for o in c["epochs"][0] if json.dumps(o, sort_keys=True) != nm]
            g = attempt([c])
            if g is not None:
                plan = g
    # simpler operations
    more = True
    while more and time.monotonic() < end:
        more = False
        cands = []
        for e, ops in enumerate(plan["epochs"]):
            for i, o in enumerate(ops):
                def variant(f):
                    c = copy.deepcopy(plan)
                    f(c["epochs"][e][i])
                    cands.append(c)
                for j in range(len(o.get("fault") or [])):
                    variant(lambda q, j=j: q["fault"].pop(j))
                    for l in range(len(o["fault"][j].get("ops") or [])):
                        if len(o["fault"][j]["ops"]) > 1:
                            variant(lambda q, j=j, l=l: q["fault"][j]["ops"].pop(l))
                for l in range(len(o.get("ops") or [])):
                    if len(o["ops"]) > 1:
                        variant(lambda q, l=l: q["ops"].pop(l))
                if o["op"] == "modfr":
                    for k in ("weights", "offset", "home", "resp", "link"):
                        if k in o["spec"] and not (k == "resp" and o["spec"][k] == "int"):
                            variant(lambda q, k=k: q["spec"].pop(k))
        for k in ("poison", "quarantine", "options", "globals"):
            if plan["world"].get(k):
                c = copy.deepcopy(plan)
                c["world"].pop(k)
                cands.append(c)
        g = attempt(cands)
        if g is not None:
            plan = g
            more = True
    return plan, tried


# ------------------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    f = os.path.join(HERE, "known_findings.json")
    if os.path.exists(f):
        for k in json.load(open(f)).get("known", []):
            if k["property"] == prop:
                out.append(k)
    return out


def describe(o):
    k = o["op"]
    t = k
    if k == "modfr":
        t += " %s := %s" % (o["id"], ", ".join("%s=%s" % (a, b) for a, b in o["spec"].items()))
    elif k in ("lfun", "fit"):
        t += " %s := %s(%s %s)" % (o["id"], o["method"], o["m"], json.dumps(o["control"]))
        if o.get("prev"):
            t += " from %s" % o["prev"]
    elif k == "eval":
        t += " %s(%s)" % (o["f"], ", ".join(str(v) for v in o["x"]))
    elif k == "post":
        t += " %s(%s)" % (o["what"], o["f"])
    for f in o.get("fault") or []:
        t += " !" + ",".join("%s=%s" % (a, ("[" + "; ".join(describe(q) for q in b) + "]") if a == "ops" else b) for a, b in f.items())
    if k in ("fork", "join"):
        t += " %s%s" % (o.get("id") or o.get("f") or "", "".join(" %s=%s" % (a, o[a]) for a in ("hold", "hold_op", "die") if a in o))
    if k == "env":
        t += " " + ", ".join("%s=%s" % (a, json.dumps(b)) for a, b in o.items() if a != "op")
    if o.get("ops"):
        t += " {" + "; ".join(describe(q) for q in o["ops"]) + "}"
    return t


def narrate(plan):
    return ["epoch %d: %s" % (e + 1, describe(o)) for e, ops in enumerate(plan["epochs"]) for o in ops]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--hashes")
    a = ap.parse_args()
    prop = a.prop
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t_start = time.monotonic()
    log("check %s: VERIF_SEED=%d tier=%s" % (prop, seed, tier))
    b = subprocess.run(["bash", os.path.join(SIM, "build.sh"), BUILD, REPO])
    if b.returncode:
        log("check: the build failed")
        return 2
    build_s = time.monotonic() - t_start

    if a.replay:
        rp = json.load(open(a.replay))
        lab = Lab(1)
        try:
            out = lab.run(rp["plan"], fresh=True)
        finally:
            lab.close()
        vs = hits(prop, out)
        for v in vs:
            print("%s at %s (%s %s): %s" % (v["cls"], v["path"], v["op"], v["id"], v["text"]))
        if out.get("error"):
            log("check: " + out["error"])
            return 2
        print("hash %s (recorded %s)" % (out["hash"], rp.get("hash")))
        if any(v["cls"] == rp["cls"] for v in vs):
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0

    seconds = a.seconds or (QUICK_S[prop] if tier == "quick" else 840 - build_s - 150)
    lab = Lab(a.workers)
    try:
        return search(a, lab, prop, seed, tier, seconds, t_start, build_s)
    finally:
        lab.close()


def search(a, lab, prop, seed, tier, seconds, t_start, build_s):
    t0 = time.monotonic()
    found = []            # (index, plan, out)
    results = {}
    errors = []
    lock = threading.Lock()
    nxt = [a.start]
    halt = threading.Event()

    def plan_of(i):
        return gen.make(prop, "%d.%d" % (seed, i), tier)

    def work():
        while not halt.is_set():
            with lock:
                i = nxt[0]
                done = i - a.start
                if a.runs is not None:
                    if done >= a.runs:
                        return
                elif time.monotonic() - t0 > seconds and done >= MIN_RUNS:
                    return
                nxt[0] += 1
            plan = plan_of(i)
            try:
                out = lab.run(plan)
            except SimError as e:
                out = {"error": str(e)}
            except Exception as e:  # noqa
                out = {"error": repr(e)}
            with lock:
                results[i] = out
                if out.get("error"):
                    errors.append((i, out["error"]))
                    if len(errors) >= 3 and not a.keep_going:
                        halt.set()
                elif hits(prop, out):
                    found.append(i)
                    if a.keep_going:
                        for v in hits(prop, out):
                            log("seed %d.%d: %s at %s (%s %s): %s" % (seed, i, v["cls"], v["path"], v["op"], v["id"], v["text"]))
                    elif len(found) >= 1:
                        halt.set()
    ts = [threading.Thread(target=work) for _ in range(len(lab.zs))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    sim_wall = time.monotonic() - t0
    if a.hashes:
        json.dump({str(i): (o.get("hash") or o.get("error")) for i, o in sorted(results.items())}, open(a.hashes, "w"), indent=0)
    for i, e in errors:
        log("run %d.%d: %s" % (seed, i, e))

    code, replay, verdict, minimised = 0, None, None, None
    known = known_findings(prop)
    for i in sorted(found):
        plan, out = plan_of(i), results[i]
        v0 = hits(prop, out)[0]
        log("run %d.%d: %s at %s (%s %s): %s" % (seed, i, v0["cls"], v0["path"], v0["op"], v0["id"], v0["text"]))
        cls = v0["cls"]
        if a.keep_going:
            code = 1
            continue
        # gate: the same plan, twice, in processes of their own
        two = lab.map([plan, plan], fresh=True)
        ok = all(any(v["cls"] == cls for v in hits(prop, o)) for o in two)
        if not ok or two[0].get("hash") != two[1].get("hash"):
            log("check: the violation does not replay (%s)" % [(o.get("hash"), o.get("error"), [(v["cls"], v["path"]) for v in hits(prop, o)]) for o in [out] + two])
            code = 2
            continue
        small, tried = minimise(lab, plan, prop, cls, 75 if tier == "quick" else 150)
        two = lab.map([small, small], fresh=True)
        good = all(any(v["cls"] == cls for v in hits(prop, o)) for o in two) and two[0].get("hash") == two[1].get("hash")
        if not good:
            log("check: the minimised plan does not replay; keeping the original")
            small = plan
            two = lab.map([small, small], fresh=True)
        v = [v for v in hits(prop, two[0]) if v["cls"] == cls][0]
        matched = [k for k in known if k.get("cls") == cls and k.get("match", "\0") in v["text"]]
        if matched:
            print("KNOWN-FINDING: property=%s %s" % (prop, matched[0]["what"]))
            continue
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        replay = os.path.join(HERE, "replays", "%s-%s.json" % (prop, hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:12]))
        minimised = {"operations": [size(plan), size(small)], "candidates": tried}
        json.dump({"property": prop, "seed": "%d.%d" % (seed, i), "cls": cls, "violation": v, "hash": two[0]["hash"],
                   "minimised": minimised, "narrative": narrate(small), "plan": small}, open(replay, "w"), indent=1)
        verdict = v
        for l in narrate(small):
            print("  " + l)
        print("%s: %s" % (cls, v["text"]))
        print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
        code = 1
        break
    if code == 0 and errors and len(errors) * 50 > max(1, len(results)):
        code = 2
    evidence(prop, seed, tier, results, errors, code, verdict, replay, minimised, sim_wall, build_s, t_start, a, plan_of)
    log("check %s: %d runs in %.0f s (build %.0f s), exit %d" % (prop, len(results), sim_wall, build_s, code))
    return code


def evidence(prop, seed, tier, results, errors, code, verdict, replay, minimised, sim_wall, build_s, t_start, a, plan_of):
    fired, outcomes = collections.Counter(), collections.Counter()
    tot = collections.Counter()
    sigs, nontrivial, ended = set(), set(), collections.Counter()
    for i, o in results.items():
        if o.get("error"):
            continue
        for k, v in (o.get("fired") or {}).items():
            fired[k] += v
        for k, v in (o.get("outcomes") or {}).items():
            outcomes[k] += v
        for k in ("events", "steps", "hits", "allocs"):
            tot[k] += o.get(k) or 0
        tot["sim_s"] += o.get("sim_s") or 0
        st = o.get("stat") or {}
        tot["compared"] += st.get("compared") or 0
        tot["refs"] += st.get("ref_runs") or 0
        h = hashlib.sha256((o.get("path_sig") or "").encode()).hexdigest()
        sigs.add(h)
        e = o.get("ended")
        for x in e if isinstance(e, list) else [e]:
            ended[x] += 1
        if (o.get("fired") or (o.get("events") or 0) > 8):
            nontrivial.add(h)
    samples = []
    for i in sorted(results)[:2]:
        o = results[i]
        samples.append({"seed": "%d.%d" % (seed, i), "schedule": narrate(plan_of(i))[:14], "hash": o.get("hash"), "fired": o.get("fired")})
    n = len(results)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(nontrivial),
            "rule": "one evaluation = one simulated run: a plan made from VERIF_SEED and the run number by the property's own generator (models, "
                    "operations, schedule, faults, clock, memory contents), carried out in fresh forked worlds and judged against references in pristine "
                    "processes; distinct = different execution signature (per operation: kind, outcome, faults that fired, yield points passed); "
                    "non-trivial = at least one fault fired or more than eight operations ran",
            "samples": samples,
            "runs_per_hour": round(n / max(sim_wall, 1e-9) * 3600),
            "operations": tot["events"],
            "likelihood_evaluations": tot["steps"],
            "results_compared_with_reference": tot["compared"],
            "reference_executions": tot["refs"],
            "simulated_seconds": round(tot["sim_s"], 3),
            "native_allocations_tracked": tot["allocs"],
            "faults_fired": dict(sorted(fired.items())),
            "operation_outcomes": dict(sorted(outcomes.items())),
            "distinct_interleavings": len(sigs),
            "epoch_endings": dict(ended),
            "simulator_errors": len(errors),
            "real_components": ["all of glmmsr's R code", "all of glmmsr's C++ code (as shipped, no hooks)", "R, lme4, Matrix, Rcpp, numDeriv (installed)",
                                "optim, saveRDS/readRDS on a scratch directory"],
            "stubs": ["clocks (clock_gettime, gettimeofday, time, times, clock, getrusage)", "entropy (getrandom, getpid, std::random_device)",
                      "allocator of glmmsr.so (redzones, poison, quarantine, failure) over the real malloc", "failure of R's large vector allocations",
                      "interrupt delivery (R's pending flag; no real signal)",
                      "yield point inside lme4's PIRLS entry (calls the real one)"],
        },
        "assumptions": ["a reference in a pristine forked process is the truth about what an operation computes alone",
                        "agreement to 1e-8 (evaluations) or 1e-6 (fits), relative",
                        "address space randomisation off: %s" % ASLR_OFF],
        "wall_s": round(time.monotonic() - t_start, 1),
        "violations": 1 if code == 1 else 0,
    }
    if verdict:
        ev["coverage"]["violation"] = {**verdict, "replay": replay, "minimised": minimised}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
