"""A fresh interpreter of P15: puts the process into the environment described by its job, imports the library in the job's
order and evaluates the job's items, each in a forked child.  usage: envworker.py <job.json> <result.pkl>"""
import json
import os
import sys


def fake_clocks(spec):
    """Seeded clocks that start anywhere, run at any rate and jump, also backwards."""
    import random
    import time

    r = random.Random(spec["seed"])

    class C:
        t = spec["start"]

        @classmethod
        def now(cls):
            cls.t += spec["rate"] * 1e-4
            if r.random() < spec["jump"]:
                cls.t += r.uniform(-1e5, 1e5)
            return cls.t

    for n in ("time", "perf_counter", "monotonic", "process_time", "thread_time"):
        setattr(time, n, C.now)
        setattr(time, n + "_ns", lambda: int(C.now() * 1e9))
    real_local, real_gm = time.localtime, time.gmtime
    time.localtime = lambda s=None: real_local(abs(C.now()) % 4e9 if s is None else s)
    time.gmtime = lambda s=None: real_gm(abs(C.now()) % 4e9 if s is None else s)


def main():
    job = json.load(open(sys.argv[1]))
    env = job["env"]
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.dirname(os.path.realpath(__file__))]
    sys.path[:0] = job["path"]
    sys.argv[:] = env["argv"]
    if env["clock"]:
        fake_clocks(env["clock"])
    if env["cpus"]:
        os.cpu_count = lambda: env["cpus"]
        if hasattr(os, "process_cpu_count"):
            os.process_cpu_count = lambda: env["cpus"]
        os.sched_getaffinity = lambda pid=0: set(range(env["cpus"]))
    import gc

    if env["gc"] is not None:
        gc.set_threshold(*env["gc"]) if env["gc"] else gc.disable()
    from dst import pool

    pool.install()
    pool.Sched.cur = pool.Sched(1, 2)
    import importlib
    import pickle
    import random

    import numpy as np

    if env["print"]:
        np.set_printoptions(precision=env["print"], threshold=3, suppress=True)
    for m in env["order"]:
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    from dst import core, speed
    from dst import enveval

    speed.memo_splines()
    out = []
    for it in job["items"]:
        r = core.fork_call(enveval.evaluate, it, env)
        out.append(r)
    with open(job["out"], "wb") as f:
        pickle.dump(out, f, protocol=4)


if __name__ == "__main__":
    main()
    os._exit(0)
