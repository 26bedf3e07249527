"""Seeded simulation driver.

One simulated run = one integer seed -> one JSON "plan" (every workload, schedule and fault decision) -> one
execution of the plan in a process forked from a pristine zygote that has only imported the code under test.
The result of a run is a pure function of (plan, code under test); nothing else is read.

A check module provides a Check object (see class Check).  The driver generates plans, executes them on several
worker processes, shrinks the first violation, writes a replay file and confirms it in a brand-new interpreter.
"""
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")


def rng_for(*names):
    h = hashlib.sha256(repr(names).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


class HarnessError(Exception):
    """Something is wrong with the simulator itself (never reported as a violation)."""


class Check:
    id = "P00"
    technique = "deterministic simulation"
    runs = {"quick": 100, "thorough": 1000}  # number of simulated runs
    wall = {"quick": 300, "thorough": 3300}  # stop starting new runs after this many seconds
    run_timeout = 120  # wall seconds a single run may take before it is given up (counted as unfinished)
    workers = 8
    rule = ""
    assumptions = []
    real = []  # components that ran real code
    stubs = []  # components that ran a stub

    def warm(self):
        """Imports done once in the zygote (must not execute code under test)."""

    def gen(self, rng, tier, idx):
        raise NotImplementedError

    def run(self, plan, log):
        """Execute a plan. Returns a list of violations: dicts with 'kind' (class of failure), 'where', 'msg'."""
        raise NotImplementedError

    def shrink(self, plan):
        return iter(())

    def describe(self, plan):
        return plan


class Log:
    """Event log and statistics of one run.  Never draws random numbers, never reads a clock."""

    def __init__(self):
        self.events = []
        self.stats = {}
        self.shapes = set()
        self.sim_time = 0.0
        self._h = hashlib.sha256()

    def ev(self, *a):
        s = " ".join(str(x) for x in a)
        self._h.update(s.encode() + b"\n")
        if len(self.events) < 400:
            self.events.append(s)

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def shape(self, s):
        self.shapes.add(hashlib.sha1(repr(s).encode()).hexdigest()[:16])

    def digest(self):
        return self._h.hexdigest()[:24]


# ---------------------------------------------------------------------------------------------------------
# forked execution
# ---------------------------------------------------------------------------------------------------------
def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _read_exact(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _quiet():
    dn = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(dn, fd)
    os.close(dn)
    import io

    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()


def reset_process(seed=0):
    """Put the interpreter-wide state of a forked child in a known state."""
    random.seed(seed)
    try:
        import numpy as np

        np.random.seed(seed % (2**32))
        import openmdao.core.problem as _p

        _p._problem_names = []
    except Exception:
        pass


def fork_call(fn, *args, timeout=None, quiet=True):
    """Run fn(*args) in a forked child and return its pickled result. Exceptions of fn are returned as ("exc", ...)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if quiet:
                _quiet()
            try:
                res = ("ok", fn(*args))
            except BaseException as e:  # noqa
                res = ("exc", type(e).__name__, str(e)[:2000], traceback.format_exc()[-4000:])
            data = pickle.dumps(res, protocol=4)
            _write_all(w, struct.pack("<Q", len(data)) + data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        if timeout:
            if not select.select([r], [], [], timeout)[0]:
                os.kill(pid, signal.SIGKILL)
                return ("timeout",)
        try:
            n = struct.unpack("<Q", _read_exact(r, 8))[0]
            data = _read_exact(r, n)
            return pickle.loads(data)
        except EOFError:
            return ("died",)
    finally:
        os.close(r)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass


def execute(check, plan):
    """Executed in a forked child."""
    reset_process(0)
    log = Log()
    t0 = time.perf_counter()
    base = os.environ["DST_SCRATCH"]
    mine = os.path.join(base, "r%d" % os.getpid())
    os.makedirs(mine, exist_ok=True)
    os.chdir(mine)
    try:
        viol = check.run(plan, log)
    except Exception as e:  # a run on the unchanged library never ends this way
        tb = traceback.format_exc()
        if os.path.join(REPO, "openconcept") + os.sep not in tb + str(e):
            raise
        viol = [dict(kind="the library fails in a simulated run", where=type(e).__name__, msg=(str(e)[-700:] if isinstance(e, HarnessError) else tb[-700:]))]
    finally:
        os.chdir(base)
        shutil.rmtree(mine, ignore_errors=True)
    return dict(violations=viol, events=log.events, stats=log.stats, shapes=sorted(log.shapes), sim_time=log.sim_time,
                digest=log.digest(), wall=time.perf_counter() - t0)


class Pool:
    """At most n concurrently running forked runs; results are returned in submission order by collect()."""

    def __init__(self, n, timeout):
        self.n, self.timeout = n, timeout
        self.live = {}  # fd -> (pid, key, buf, start)

    def submit(self, key, fn, *args):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for fd in list(self.live):
                    os.close(fd)
                os.setsid()
                _quiet()
                try:
                    res = ("ok", fn(*args))
                except BaseException as e:  # noqa
                    res = ("exc", type(e).__name__, str(e)[:2000], traceback.format_exc()[-6000:])
                _write_all(w, pickle.dumps(res, protocol=4))
            finally:
                os._exit(0)
        os.close(w)
        self.live[r] = [pid, key, bytearray(), time.time()]

    def poll(self, block=True):
        """Yield (key, result) of finished runs."""
        out = []
        if not self.live:
            return out
        rd, _, _ = select.select(list(self.live), [], [], 1.0 if block else 0)
        for fd in rd:
            pid, key, buf, t0 = self.live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                buf += b
                continue
            os.close(fd)
            del self.live[fd]
            os.waitpid(pid, 0)
            try:
                res = pickle.loads(bytes(buf))
            except Exception:
                res = ("died",)
            out.append((key, res))
        now = time.time()
        for fd in list(self.live):
            pid, key, buf, t0 = self.live[fd]
            if now - t0 > self.timeout:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                del self.live[fd]
                out.append((key, ("timeout",)))
        return out

    def kill(self):
        for fd, (pid, *_) in list(self.live.items()):
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
            os.close(fd)
        self.live = {}


# ---------------------------------------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------------------------------------
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("status") == "known" and d["property"] == pid:
                out.append(d)
    return out


def match_known(v, known):
    for k in known:
        m = k["match"]
        if all(str(v.get(f)) == str(val) for f, val in m.items()):
            return k
    return None


# ---------------------------------------------------------------------------------------------------------
# driver
# ---------------------------------------------------------------------------------------------------------
def vkey(v):
    return (v["kind"], v.get("where", ""))


def shrink_plan(check, plan, key, budget_s, log=print, workers=8):
    """Greedy, deterministic: take the first candidate (in generation order) that still fails with the same key."""
    t_end = time.time() + budget_s
    steps = 0
    improved = True
    while improved and time.time() < t_end:
        improved = False
        cands = []
        it = check.shrink(plan)
        exhausted = False
        while not exhausted and time.time() < t_end:
            batch = []
            while len(batch) < workers:
                try:
                    batch.append(next(it))
                except StopIteration:
                    exhausted = True
                    break
            if not batch:
                break
            pool = Pool(workers, check.run_timeout)
            for i, c in enumerate(batch):
                pool.submit(i, execute, check, c)
            res = {}
            while pool.live:
                for k, r in pool.poll():
                    res[k] = r
            hit = None
            for i in range(len(batch)):
                r = res.get(i)
                steps += 1
                if r and r[0] == "ok" and any(vkey(v) == key for v in r[1]["violations"]):
                    hit = i
                    break
            if hit is not None:
                plan = batch[hit]
                improved = True
                break
    return plan, steps


def write_replay(check, plan, viol, seed, tier, idx, events):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=check.id, seed=seed, tier=tier, run=idx, violation=viol, plan=plan, events=events)
    h = hashlib.sha1(json.dumps([plan, vkey(viol)], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (check.id, h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path


def confirm_replay(path):
    """Replay in a brand-new interpreter; True if it reproduces the same violation."""
    import subprocess

    env = dict(os.environ)
    r = subprocess.run([sys.executable, "-m", "dst.main", "replay", path], cwd=VERIF, env=env, capture_output=True, text=True)
    return r.returncode == 1, r.stdout[-2000:] + r.stderr[-2000:]


def warm(check):
    from .speed import memo_splines, cheap_singular_message

    check.warm()
    memo_splines()
    cheap_singular_message()


def drive(check, tier, seed):
    t0 = time.time()
    print("dst: property=%s tier=%s VERIF_SEED=%d" % (check.id, tier, seed), flush=True)
    warm(check)
    check.tier = tier
    n = check.runs[tier]
    wall = check.wall[tier]
    min_runs = getattr(check, "min_runs", {}).get(tier, 1)  # a slow machine gets more time for these
    known = known_findings(check.id)
    pool = Pool(check.workers, check.run_timeout)
    plans = {}
    done = 0
    started = 0
    stats, shapes, sim_time, run_wall = {}, set(), 0.0, 0.0
    digests = {}
    samples = []
    harness = []
    unfinished = []
    bad = {}  # idx -> result
    known_hits = {}
    stop_after = None
    while True:
        while len(pool.live) < check.workers and started < n and stop_after is None and time.time() - t0 < (wall if started >= min_runs else wall + 400):
            plan = check.gen(rng_for(check.id, seed, tier, started), tier, started)
            plans[started] = plan
            pool.submit(started, execute, check, plan)
            started += 1
        if not pool.live:
            break
        for idx, res in pool.poll():
            done += 1
            if res[0] == "timeout":
                # the budget is wall time, so a slow machine must not turn into an alarm: the run is dropped, not judged
                unfinished.append(idx)
                plans.pop(idx, None)
                if len(unfinished) > max(4, n // 20):
                    harness.append((idx, ("exc", "Timeout", "more than 5 % of the runs took longer than %d s" % check.run_timeout, "")))
                    stop_after = idx
                continue
            if res[0] != "ok":
                harness.append((idx, res))
                if len(harness) > 3:
                    stop_after = idx
                continue
            res = res[1]
            for k, v in res["stats"].items():
                stats[k] = stats.get(k, 0) + v
            shapes.update(res["shapes"])
            sim_time += res["sim_time"]
            run_wall += res["wall"]
            digests[idx] = res["digest"]
            if len(samples) < 3 and not res["violations"]:
                samples.append({"run": idx, "plan": check.describe(plans[idx]), "events": res["events"][:25]})
            new = []
            for v in res["violations"]:
                k = match_known(v, known)
                if k is None:
                    new.append(v)
                else:
                    known_hits.setdefault(k["id"], (k, v, idx))
            if new:
                bad[idx] = (new, res)
                if stop_after is None:
                    stop_after = idx
            else:
                plans.pop(idx, None)
    wall_search = time.time() - t0
    rc = 0
    violations = []
    for kid, (k, v, idx) in sorted(known_hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (check.id, k["what"]), flush=True)
    if bad:
        idx = min(bad)
        new, res = bad[idx]
        v = new[0]
        print("run %d: %s at %s: %s" % (idx, v["kind"], v.get("where"), v["msg"]), flush=True)
        plan, steps = shrink_plan(check, plans[idx], vkey(v), 60 if tier == "quick" else 300, workers=check.workers)
        final = fork_call(execute, check, plan)
        ev = []
        if final[0] == "ok":
            ev = final[1]["events"]
            for vv in final[1]["violations"]:
                if vkey(vv) == vkey(v):
                    v = vv
        path = write_replay(check, plan, v, seed, tier, idx, ev)
        ok, out = confirm_replay(path)
        print("shrunk with %d executions; replay in a fresh process: %s" % (steps, "reproduced" if ok else "NOT REPRODUCED\n" + out))
        print("  %s at %s: %s" % (v["kind"], v.get("where"), v["msg"]), flush=True)
        if not ok:
            # fall back on the unshrunk plan
            path = write_replay(check, plans[idx], new[0], seed, tier, idx, res["events"])
            ok, out = confirm_replay(path)
        if ok:
            print("VIOLATION property=%s replay=%s" % (check.id, path), flush=True)
            rc = 1
            violations.append({"replay": path, "kind": v["kind"], "where": v.get("where"), "msg": v["msg"], "seed": seed, "run": idx})
        else:
            harness.append((idx, ("exc", "NotReproducible", out, "")))
    if harness and rc == 0:
        rc = 2
        for idx, h in harness[:3]:
            print("HARNESS ERROR in run %s: %s" % (idx, "\n".join(map(str, h))), flush=True)
    if rc == 0 and done < min_runs:
        print("HARNESS ERROR: only %d of the required %d runs finished within the wall limit" % (done, min_runs))
        rc = 2
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in stats.items() if k.startswith("probe:")}
    other = {k: v for k, v in stats.items() if not k.startswith(("fault:", "probe:"))}
    ev = dict(
        property=check.id, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=done, distinct_nontrivial=len(shapes), rule=check.rule, samples=samples or [{"note": "no clean run"}],
            runs_per_hour=int(done / max(wall_search, 1e-9) * 3600), runs_note="one simulated run has exactly one derived seed",
            simulated_time_s=round(sim_time, 1), faults_injected=faults, probes=probes, counters=other,
            runs_requested=n, runs_given_up=len(unfinished), real_code=check.real, stubs=check.stubs,
            history_digest=hashlib.sha256(json.dumps(sorted(digests.items())).encode()).hexdigest()[:24],
            known_findings_seen=sorted(known_hits),
        ),
        assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations), violation_details=violations,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("dst: %d runs, %d distinct, %.0f s, faults %s, exit %d" % (done, len(shapes), time.time() - t0, faults, rc), flush=True)
    return rc


def replay(check, path):
    body = json.load(open(path))
    warm(check)
    check.tier = body["tier"]
    r = fork_call(execute, check, body["plan"])
    if r[0] != "ok":
        print("HARNESS ERROR", r)
        return 2
    for v in r[1]["violations"]:
        if vkey(v) == vkey(body["violation"]):
            print("reproduced: %s at %s: %s" % (v["kind"], v.get("where"), v["msg"]))
            for e in r[1]["events"]:
                print("   ", e)
            print("VIOLATION property=%s replay=%s" % (check.id, path))
            return 1
    print("not reproduced; violations seen: %s" % [vkey(v) for v in r[1]["violations"]])
    return 0


def determinism(check, tier, seed, n, workers):
    """Digests of the first n runs (used by the self test, which compares them across interpreters)."""
    warm(check)
    check.tier = tier
    pool = Pool(workers, check.run_timeout)
    out = {}
    i = 0
    while i < n or pool.live:
        while i < n and len(pool.live) < workers:
            pool.submit(i, execute, check, check.gen(rng_for(check.id, seed, tier, i), tier, i))
            i += 1
        for k, r in pool.poll():
            out[k] = r[1]["digest"] if r[0] == "ok" else repr(r)[:300]
    for k in sorted(out):
        print(k, out[k])
    return 0
