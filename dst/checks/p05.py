"""P05: drag-polar surrogates with different settings coexist in one model and in one process."""
import copy

from .. import oas
from ..core import fork_call
from .p03 import Training
from .p04 import Model, alone, check_answers, name


class P05(Training):
    id = "P05"
    runs = {"quick": 300, "thorough": 20000}
    min_runs = {"quick": 100, "thorough": 2000}
    wall = {"quick": 62, "thorough": 3000}
    rule = ("a run = one to three problems with one to three surrogates each, whose training grids, panel counts, surface options, wings, temperatures and non-wing drag partly coincide and partly differ, and a seeded interleaving of "
            "setups, changed inputs, evaluations, derivative requests and failing trainings; every surrogate is compared with what it answers alone in a pristine process; distinct = different (configurations, sequence of operations)")
    assumptions = ["a combination may be rejected at setup if surface options differ from those of any surrogate set up before, or training grids differ within one model (the documented limits)"]

    @staticmethod
    def relative(rng, s, fake):
        b = copy.deepcopy(s)
        if rng.random() < 0.3:
            b["surf"] = oas.other_surface(rng, b["model"], b["surf"], fake)
            return b
        for _ in range(rng.choice([0, 1, 1, 2])):
            k = rng.choice(["M", "a", "h", "size", "nx", "ny", "surf", "grid"])
            if k in ("M", "a", "h"):  # same size, other values
                lo, hi, dec = {"M": (0.15, 0.8, 2), "a": (-4, 10, 1), "h": (0, 11000, 0)}[k]
                b[k] = oas.grid(rng, len(b[k]), lo, hi, dec)
            elif k == "size" and b["level"] == "gen":
                q = rng.choice(["M", "a", "h"])
                b[q] = b[q][:-1] if len(b[q]) > 1 else oas.grid(rng, 2, *{"M": (0.15, 0.8, 2), "a": (-4, 10, 1), "h": (0, 11000, 0)}[q])
            elif k == "grid" and b["level"] == "gen" and len(b["M"]) == len(b["h"]):  # same numbers of points, axes of equal length permuted
                b["a"], b["M"] = b["a"][::-1][:len(b["a"])], b["M"]
                b["a"] = sorted(b["a"])
            elif k == "nx" and not (b["model"] == "oas" and not fake):
                b["nx"] = rng.choice([1, 2])
            elif k == "ny" and isinstance(b["ny"], int):
                b["ny"] = rng.choice([2, 3])
            elif k == "surf" and rng.random() < 0.5:
                b["surf"] = oas.other_surface(rng, b["model"], b["surf"], fake)
        return b

    def gen(self, rng, tier, idx):
        fake = rng.random() < 0.88
        level = "polar" if fake and rng.random() < 0.12 else "gen"
        plan = self.environment(rng, fake)
        base = oas.gen_spec(rng, fake, level=level, maxpts=8 if fake else 3)
        pool = [base, self.relative(rng, base, fake), self.relative(rng, base, fake)]
        if rng.random() < 0.2:
            pool.append(oas.gen_spec(rng, fake, model="oas" if base["model"] == "vlm" else "vlm", maxpts=4 if fake else 2))
        probs = []
        for _ in range(rng.choice([1, 2, 2, 3]) if level == "gen" else rng.choice([1, 2])):
            probs.append([rng.randrange(len(pool)) for _ in range(rng.choice([1, 2, 2, 3]) if level == "gen" else rng.choice([1, 2]))])
        plan["pool"], plan["probs"] = pool, probs
        plan["codes"] = [[rng.getrandbits(32)] for _ in range(2)]
        plan["codes"].append(plan["codes"][0] + [rng.getrandbits(32)])
        ops = []
        for k in range(len(probs)):
            ops.append({"op": "setup", "p": k})
        rng.shuffle(ops)
        if rng.random() < 0.4:  # setups come between the runs of others
            ops = ops[:1]
        for k, pr in enumerate(probs):
            for i in range(len(pr)):
                ops.append({"op": "set", "p": k, "i": i, "c": 0 if rng.random() < 0.6 else rng.randrange(3)})
        for _ in range(rng.randint(3, 9) if level == "gen" else rng.randint(2, 5)):
            k = rng.randrange(len(probs))
            r = rng.random()
            if r < 0.12:
                ops.append({"op": "setup", "p": k})
            elif r < 0.3:
                ops.append({"op": "set", "p": k, "i": rng.randrange(len(probs[k])), "c": rng.randrange(3)})
            o = {"op": rng.choice(["run", "run", "slopes"]), "p": k}
            if rng.random() < 0.12:
                o["fault"] = {"kind": rng.choice(["task", "start", "wait"]), "exc": "KeyboardInterrupt", "at": rng.choice([0, 1, 2, 3])}
            ops.append(o)
        for k in range(len(probs)):
            ops.append({"op": "run", "p": k})
        for k in range(len(probs)):
            ops.append({"op": "slopes", "p": k})
        plan["ops"] = ops
        return plan

    def run(self, plan, log):
        S = oas.prepare(plan)
        refs = {}

        def ref(spec, code):
            k = repr((spec, code))
            if k not in refs:
                refs[k] = fork_call(alone, plan, spec, code)
            return refs[k][1]

        for o in plan["ops"]:
            if o["op"] == "set":
                ref(plan["pool"][plan["probs"][o["p"]][o["i"]]], plan["codes"][o["c"]])
        if any(r[0] != "ok" for r in refs.values()):
            log.count("probe:flow solver fails at a point")
            return []
        try:
            return self.history(plan, S, ref, log)
        finally:
            log.count("worker tasks", S.tasks)
            S.cleanup()

    def history(self, plan, S, ref, log):
        oas.GIVEN = {}  # from here on training arrays and surface options are objects of the caller, shared by all surrogates
        ms = [Model([plan["pool"][i] for i in pr]) for pr in plan["probs"]]
        state = ["new"] * len(ms)
        seen = {"vlm": [], "oas": []}  # surface options of surrogates that were set up
        hist = []
        for j, o in enumerate(plan["ops"]):
            k, op = o["p"], o["op"]
            m = ms[k]
            if op == "set":
                m.codes[o["i"]] = plan["codes"][o["c"]]
                if state[k] == "ready":
                    m.set(o["i"], plan["codes"][o["c"]])
                hist.append("set p%d.%d=%d" % (k, o["i"], o["c"]))
                continue
            if state[k] == "rejected":
                continue
            if op == "setup" or state[k] == "new":
                hist.append("setup p%d" % k)
                surfs = [(s["model"], s["surf"]) for s in m.specs]
                grids = {(s["model"], repr((s["M"], s["a"], s["h"]))) for s in m.specs}
                unsupported = any(x != y for md, x in surfs for y in seen[md] + [z for q, z in surfs if q == md]) or len(grids) > len({s["model"] for s in m.specs})
                for md, x in surfs:
                    seen[md].append(x)
                try:
                    m.setup()
                    state[k] = "ready"
                except Exception as e:
                    if not unsupported:
                        return [dict(kind="a supported combination is rejected", where=name(m.specs[0]), msg="%s: %s [%s]" % (type(e).__name__, str(e)[:200], "; ".join(hist[-8:])))]
                    log.count("probe:combination rejected")
                    log.ev(j, "rejected", k)
                    state[k] = "rejected"
                    continue
                if op == "setup":
                    continue
            if None in m.codes:
                continue
            if op == "slopes" and not m.ran:
                op = "run"
            f = o.get("fault")
            hist.append("%s p%d%s" % (op, k, " with a failing training" if f else ""))
            S.arm(f)
            got, err = None, None
            try:
                got = m.run() if op == "run" else m.slopes()
            except BaseException as e:  # noqa
                err = e
            fired = S.fired
            S.arm(None)
            if fired:
                log.count("fault:training fails (%s)" % f["kind"])
            log.ev(j, op, k, fired, type(err).__name__ if err else "ok", len(S.trace))
            if err is not None:
                if not fired:
                    return [dict(kind="a surrogate fails beside others", where=name(m.specs[0]), msg="%s: %s in problem %d of %s [%s]" % (type(err).__name__, str(err)[:200], k, plan["probs"], "; ".join(hist[-8:])))]
                continue
            d = check_answers(m, op, got, ref)
            if not d and oas.given_changed():
                return [dict(kind="data of the caller changed", where=name(m.specs[0]), msg="%s [%s]" % (oas.given_changed()[0], "; ".join(hist[-8:])))]
            if d:
                return [dict(kind="a surrogate's answer depends on the others", where=name(m.specs[d[0]]),
                             msg="problem %d surrogate %d of %s: %s is %s [%s]" % (k, d[0], plan["probs"], d[1][0], d[1][1], "; ".join(hist[-8:])))]
            log.count("answers compared", len(m.specs))
        log.shape((plan["pool"], plan["probs"], hist))
        return []

    def shrink(self, plan):
        ops = plan["ops"]
        n, step = len(ops), max(1, len(ops) // 2)
        while step >= 1:
            for i in range(0, n, step):
                yield dict(plan, ops=ops[:i] + ops[i + step:])
            step //= 2
        for k, v in (("workers", 1), ("lag", 0.0), ("bar", False)):
            if plan[k] != v:
                yield dict(plan, **{k: v})


CHECK = P05()
