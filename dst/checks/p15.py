"""P15: the same script gives the same numbers in every process."""
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import catalog, enveval, missions, oas, traj
from ..compare import dict_differ
from ..core import REPO, VERIF, Check, HarnessError, fork_call
from .p02 import slow_spec
from .p07 import STATEFUL_CTOR, sdiff
from .p08 import compare as close

NEUTRAL = dict(hash="0", threads="1", rng=0, drawn=0, clock=None, cpus=None, gc=None, print=0, order=[], argv=["script.py"], cwd="plain", tz="UTC", workers=2, lag=0.5, bar=False)
MODULES = ["openconcept.thermal", "openconcept.propulsion", "openconcept.mission", "openconcept.aerodynamics", "openconcept.utilities", "openconcept.weights", "openconcept.geometry", "openconcept.atmospherics",
           "openconcept.energy_storage", "openconcept.costs", "openconcept.stability", "openconcept.examples.HybridTwin", "openconcept.aerodynamics.openaerostruct", "openmdao.api", "scipy.interpolate",
           "openconcept.utilities.math", "openconcept.propulsion.systems", "matplotlib.pyplot"]


class P15(Check):
    id = "P15"
    runs = {"quick": 42, "thorough": 2500}
    min_runs = {"quick": 20, "thorough": 300}
    wall = {"quick": 62, "thorough": 3000}
    run_timeout = 400
    rule = ("a run = a batch of library components, generated trajectories, mission profiles, trained drag polars or a shipped example, evaluated in a neutral fresh interpreter and in fresh interpreters with seeded hash seed, thread count, "
            "random-stream state, simulated clocks (any start, rate and jumps), processor count, worker schedule, working directory with decoy files, import order, garbage-collector setting, time zone and arguments; "
            "structure, declared values, results, derivatives and the caller's random streams are compared; distinct = different (item, environment)")
    assumptions = ["with the same number of BLAS threads results agree to 1e-12 of their scale (1e-9 where a Newton solver stops at its tolerance), otherwise to 1e-9 (1e-5)"]
    real = ["openconcept components, groups, trajectories, missions and examples", "OpenMDAO 3.39", "fresh CPython interpreters"]
    stubs = ["clocks, processor count, worker pool of the trainings (simulated)", "jet engine of the simulated twin jet", "vehicle model of synthetic trajectories", "flow solver of most drag-polar items"]

    def warm(self):
        import openmdao.api  # noqa

        catalog.ensure_caches()
        self.specs = [s for s in fork_call(catalog.all_specs)[1] if s["cls"] not in catalog.HEAVY]
        catalog.discover()
        self.by_cls = {}
        for s in self.specs:
            self.by_cls.setdefault(s["cls"], []).append(s)
        self.classes = sorted(self.by_cls)

    def environment(self, rng):
        e = dict(NEUTRAL, hash=str(rng.randrange(1, 4294967295)), rng=rng.getrandbits(32))
        e["drawn"] = rng.choice([0, 1, 7, 1000])
        if rng.random() < 0.35:
            e["threads"] = rng.choice(["2", "4", "3"])
        if rng.random() < 0.6:
            e["clock"] = dict(seed=rng.getrandbits(32), start=rng.choice([0.0, 1e9, -5e8, 4.1e9, 1.7e9]), rate=rng.choice([0.0, 1.0, -1.0, 1e6]), jump=rng.choice([0.0, 0.01, 0.3]))
        e["cpus"] = rng.choice([None, 1, 2, 3, 64])
        e["gc"] = rng.choice([None, [], [1, 1, 1], [50, 2, 2]])
        e["print"] = rng.choice([0, 1, 2, 17])
        e["order"] = rng.sample(MODULES, rng.choice([0, 3, len(MODULES)]))
        e["argv"] = rng.choice([["script.py"], ["pytest", "-n", "4"], ["run", "--debug"], [""]])
        e["cwd"] = rng.choice(["plain", "decoys", "decoys", "gone", "space"])
        e["tz"] = rng.choice(["UTC", "Asia/Kathmandu", "America/St_Johns"])
        e["workers"], e["lag"], e["bar"] = rng.choice([1, 2, 3, 4, 8]), rng.choice([0.0, 0.5, 0.9]), rng.random() < 0.4
        return e

    def item(self, rng, idx, j):
        r = rng.random()
        c = idx * 9 + j
        if r < 0.6 or c < len(self.classes):
            cls = self.classes[c] if c < len(self.classes) else rng.choice(self.classes)
            return dict(kind="cat", spec=dict(rng.choice(self.by_cls[cls]), nn=rng.choice([1, 2, 3, 5])), s=rng.getrandbits(32), what=rng.choice(["run", "part", "tot"]))
        if r < 0.8:
            return dict(kind="traj", plan={"kind": "traj", "variants": [traj.gen_spec(rng)]}, s=rng.getrandbits(32), what=rng.choice(["run", "tot"]))
        if r < 0.9:
            a = missions.gen_spec(rng, profiles=("basic", "basic", "reserve", "full"), kinds=("jet", "jet", "twin", "single", "elec", "hybrid"), nns=(3, 3, 5))
            return dict(kind="mission", plan={"kind": "mission", "variants": [a], "designs": [missions.gen_design(rng, a)]}, s=0, what=rng.choice(["run", "tot"]))
        fake = rng.random() < 0.7
        sp = oas.gen_spec(rng, fake, level="polar" if fake and rng.random() < 0.3 else "gen", maxpts=8 if fake else 2)
        return dict(kind="oas", plan=dict(fake=fake, spec=sp, code=[rng.getrandbits(32)]), what="run")

    def gen(self, rng, tier, idx):
        ex = sorted(enveval.EXAMPLES)
        if idx % 6 == 5:
            name = ex[(idx // 6) % len(ex)]
            return dict(items=[dict(kind="example", name=name, what="run")], envs=[self.environment(rng)])
        items, envs = [self.item(rng, idx - idx // 6, j) for j in range(9)], [self.environment(rng) for _ in range(2)]
        if any(it["kind"] == "oas" for it in items):  # worker processes of a process with BLAS threads hang in the BLAS library itself
            for e in envs:
                e["threads"] = "1"
        return dict(items=items, envs=envs)

    # -- execution ----------------------------------------------------------------------------------------------------------
    def spawn(self, env, items, k):
        here = os.getcwd()
        cwd = os.path.join(here, "e%d" % k, {"space": "a b (c)"}.get(env["cwd"], "w"))
        os.makedirs(cwd)
        if env["cwd"] == "decoys":  # files named like the library's own in the working directory
            for n in ("cfm56thrust.npy", "cfm56wf.npy", "cfm56t4.npy", "thrust.npy", "wf.npy", "SMW.npy", "cfm56thrust_trained.zip", "prop_maps.py", "numbers.py", "random.py", "openconcept.py"):
                with open(os.path.join(cwd, n), "w") as f:
                    f.write("raise RuntimeError('decoy')\n")
            for d in ("empirical_data", "openconcept", "propulsion", "aircraft_data"):
                os.makedirs(os.path.join(cwd, d))
        job, out = os.path.join(here, "job%d.json" % k), os.path.join(here, "out%d.pkl" % k)
        json.dump(dict(env=env, items=items, out=out, path=[VERIF, REPO]), open(job, "w"))
        e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
        e.update(PYTHONHASHSEED=env["hash"], OMP_NUM_THREADS=env["threads"], OPENBLAS_NUM_THREADS=env["threads"], TZ=env["tz"], PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", MPLBACKEND="Agg", OPENMDAO_REPORTS="0",
                 OPENMDAO_WORKDIR=os.path.join(here, "e%d" % k), MPLCONFIGDIR=os.path.join(os.environ["DST_SCRATCH"], "mpl"))
        code = "import os, sys; os.chdir(%r); %sexec(compile(open(%r).read(), %r, 'exec'))" % (
            cwd, "import shutil; shutil.rmtree(%r); " % cwd if env["cwd"] == "gone" else "", os.path.join(VERIF, "dst", "envworker.py"), os.path.join(VERIF, "dst", "envworker.py"))
        with open(out + ".py", "w") as f:
            f.write("__file__ = %r\n%s\n" % (os.path.join(VERIF, "dst", "envworker.py"), code))
        p = subprocess.run([sys.executable, out + ".py", job, "-"], env=e, cwd=here, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        try:
            return pickle.load(open(out, "rb")), None
        except Exception:
            return None, p.stderr.decode(errors="replace")[-1500:]

    def run(self, plan, log):
        items = []
        for it in plan["items"]:
            if it["kind"] == "cat":
                r = fork_call(catalog.build_spec, dict(it["spec"]), it["spec"]["nn"])
                if r[0] != "ok":
                    log.count("probe:unbuildable")
                    continue
                spec, mt, _ = r[1]
                if spec["mode"] == "newton" and slow_spec(spec):
                    spec["mode"] = "explicit"
                it = dict(it, plan={"kind": "cat", "variants": [spec], "meta": [mt]}, mode=spec["mode"])
            items.append(it)
        # JSON turns tuples into lists; the items go through the same conversion for every environment
        base, err = self.spawn(NEUTRAL, items, 0)
        if base is None:
            return [dict(kind="the library cannot be used in a fresh process", where="neutral", msg=err)]
        for k, env in enumerate(plan["envs"]):
            got, err = self.spawn(env, items, k + 1)
            if got is None:
                return [dict(kind="the library cannot be used in a fresh process", where="environment", msg="%s: %s" % (json.dumps(env), err))]
            for d, v in NEUTRAL.items():
                if env[d] != v:
                    log.count("fault:%s" % {"hash": "another hash seed", "threads": "another thread count", "rng": "another random state", "drawn": "random numbers drawn before", "clock": "simulated clocks", "cpus": "another processor count",
                                            "gc": "another collector setting", "print": "another print precision", "order": "another import order", "argv": "other arguments", "cwd": "another working directory", "tz": "another time zone",
                                            "workers": "another worker count", "lag": "another worker schedule", "bar": "progress bar"}[d])
            for it, a, b in zip(items, base, got):
                w = it.get("name") or (it["spec"]["cls"].split(":")[1] if it["kind"] == "cat" else it["kind"])
                for x in (a, b):
                    if x[0] != "ok":
                        return [dict(kind="an item cannot be evaluated", where=w, msg=str(x[1:3])[:600])]
                a, b = a[1], b[1]
                for x, e in ((a, NEUTRAL), (b, env)):
                    if x["rng"]:
                        return [dict(kind="the caller's random stream is disturbed", where=w, msg=x["rng"])]
                log.shape((w, json.dumps(it, sort_keys=True, default=str), json.dumps(env, sort_keys=True)))
                if "err" in a or "err" in b:
                    if a.get("err") != b.get("err"):
                        return [dict(kind="the outcome depends on the process", where=w, msg="%s instead of %s in %s" % (b.get("err", "an answer") + " " + b.get("msg", ""), a.get("err", "an answer") + " " + a.get("msg", ""), json.dumps(env)))]
                    log.count("probe:fails everywhere alike")
                    continue
                d = sdiff(a["structure"], b["structure"])
                if d:
                    return [dict(kind="the model depends on the process", where=w, msg="%s in %s" % (d, json.dumps(env)))]
                d = dict_differ(b["declared"], a["declared"], 0.0)
                if d:
                    return [dict(kind="declared values depend on the process", where=w, msg="%s is %s in %s" % (d[0], d[1], json.dumps(env)))]
                exact = all(np.array_equal(a["values"][q], b["values"].get(q), equal_nan=True) for q in a["values"])
                log.count("items identical to the last bit" if exact else "items equal within tolerance", 1)
                log.ev(w, it["what"], "bits equal" if exact else "close", env["threads"])
                if exact:
                    continue
                if env["threads"] == NEUTRAL["threads"]:
                    d = dict_differ(b["values"], a["values"], 1e-12 if it["kind"] in ("traj", "oas") or it["kind"] == "cat" and it["mode"] != "newton" else 1e-9)
                elif it["kind"] == "cat" and it["mode"] != "newton":
                    d = dict_differ(b["values"], a["values"], 1e-9)
                elif it["kind"] == "oas":
                    d = dict_differ(b["values"], a["values"], 1e-6, 1e-8)
                else:
                    d = close(a["values"], b["values"], 1e-5)
                if d:
                    return [dict(kind="results depend on the process", where=w, msg="%s is %s in %s" % (d[0], d[1], json.dumps(env)))]
        return []

    def shrink(self, plan):
        n = len(plan["items"])
        step = max(1, n // 2)
        while step >= 1:
            for i in range(0, n, step):
                if n > step:
                    yield dict(plan, items=plan["items"][:i] + plan["items"][i + step:])
            step //= 2
        if len(plan["envs"]) > 1:
            for i in range(len(plan["envs"])):
                yield dict(plan, envs=[plan["envs"][i]])
        for i, e in enumerate(plan["envs"]):
            for k, v in NEUTRAL.items():
                if e[k] != v:
                    yield dict(plan, envs=plan["envs"][:i] + [dict(e, **{k: v})] + plan["envs"][i + 1:])


CHECK = P15()
