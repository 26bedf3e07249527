"""P04: a training that fails or is interrupted never poisons later answers of a drag-polar surrogate."""
import numpy as np

from .. import oas
from ..compare import dict_differ
from ..core import fork_call
from ..crash import LineFault
from ..pool import Sched
from .p03 import Training

FILES = ("drag_polar.py", "aerostructural.py")


def alone(plan, spec, code):
    """What a newly created surrogate answers, without faults."""
    Sched.cur = Sched(1, 2)
    if spec["level"] == "gen":
        return ("ok",) + oas.expected(spec, oas.values(spec, code))
    p = oas.build([spec])
    oas.setup(p)
    v = oas.polar_values(spec, code)
    oas.put_polar(p, 0, spec, v)
    try:
        p.run_model()
        return "ok", oas.polar_out(p, 0, spec), oas.polar_slopes(p, 0, spec, v)
    finally:
        Sched.cur.cleanup()


class Model:
    """A problem with several surrogates and the inputs each of them has been given."""

    def __init__(self, specs):
        self.specs = specs
        self.p = oas.build(specs)
        self.codes = [None] * len(specs)
        self.ran = False

    def setup(self):
        self.ran = False
        oas.setup(self.p)
        self.initial = self.p.model._outputs.asarray(copy=True)
        self.put()

    def put(self):
        for i, c in enumerate(self.codes):
            if c is not None:
                self.set(i, c)

    def set(self, i, code):
        s = self.specs[i]
        self.codes[i], self.ran = code, False
        if s["level"] == "gen":
            oas.put(self.p, i, s, oas.values(s, code))
        else:
            oas.put_polar(self.p, i, s, oas.polar_values(s, code))

    def run(self):
        self.ran = False
        self.p.run_model()
        self.ran = True
        return [(oas.tables if s["level"] == "gen" else oas.polar_out)(self.p, i, s) for i, s in enumerate(self.specs)]

    def unsettled(self):
        """Only for drag polars: the solver around the surrogate swallowed the error and did not converge."""
        if self.specs[0]["level"] != "polar":
            return False
        self.p.model.run_apply_nonlinear()
        return not np.linalg.norm(self.p.model._residuals.asarray()) <= 1e-6

    def restart(self):
        """The declared starting guesses again (a failed solve may leave anything in them)."""
        if self.specs[0]["level"] == "polar":
            self.p.model._outputs.set_val(self.initial)
            self.put()

    def slopes(self):
        return [oas.slopes(self.p, i, s) if s["level"] == "gen" else oas.polar_slopes(self.p, i, s, oas.polar_values(s, self.codes[i])) for i, s in enumerate(self.specs)]


def check_answers(m, op, got, ref):
    for i, s in enumerate(m.specs):
        r = ref(s, m.codes[i])
        polar = s["level"] == "polar"
        if op == "run":
            d = dict_differ(r[1], got[i], 1e-6 if polar else 1e-9, 1e-8 if polar else 0.0)
        else:
            d = dict_differ(r[2], got[i], 1e-5 if polar else 1e-8, 1e-9 if polar else 1e-13)
        if d:
            return i, d
    return None


def name(s):
    return {"vlm": {"gen": "VLMDataGen", "polar": "VLMDragPolar"}, "oas": {"gen": "OASDataGen", "polar": "AerostructDragPolar"}}[s["model"]][s["level"]]


class P04(Training):
    id = "P04"
    runs = {"quick": 700, "thorough": 20000}
    min_runs = {"quick": 100, "thorough": 2000}
    wall = {"quick": 62, "thorough": 3000}
    rule = ("a run = a model with one to three equal surrogates (as the phases of a mission have) and a history of changed wings, evaluations, derivative requests and setups, some of which are struck by a worker exception, a flow solver failing at one training point, "
            "a pool that cannot start, an interrupt while waiting, or an error at a seeded source line of the training code; every answer is compared with direct analysis, every call without a fault must succeed; "
            "distinct = different (configuration, sequence of operations and faults)")
    assumptions = ["workers do not die silently (the standard pool then waits forever)"]

    def gen(self, rng, tier, idx):
        fake = rng.random() < 0.85
        level = "polar" if fake and rng.random() < 0.15 else "gen"
        plan = self.environment(rng, fake)
        spec = oas.gen_spec(rng, fake, level=level, maxpts=8 if fake else 3)
        n = 1 if level == "polar" else rng.choice([1, 1, 2, 3])
        plan["specs"] = [spec] * n
        base = [[rng.getrandbits(32)]]
        base.append(base[0] + [rng.getrandbits(32)])
        base.append([rng.getrandbits(32)])
        plan["codes"] = base
        ops = [{"op": "set", "i": i, "c": 0 if rng.random() < 0.7 else rng.randrange(3)} for i in range(n)]
        for _ in range(rng.randint(3, 8) if level == "gen" else rng.randint(2, 4)):
            r = rng.random()
            if r < 0.35:
                c = rng.randrange(3)
                for i in (range(n) if rng.random() < 0.7 else [rng.randrange(n)]):
                    ops.append({"op": "set", "i": i, "c": c})
            if r > 0.93:
                ops.append({"op": "setup"})
            o = {"op": "run" if rng.random() < 0.7 else "slopes"}
            if rng.random() < 0.5:
                k = rng.choice(["task", "task", "point", "point", "late", "start", "wait", "line", "line"])
                o["fault"] = {"kind": k, "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "OSError", "Injected"])}
                if k == "point":
                    o["fault"].update(exc=rng.choice(["AnalysisError", "AnalysisError", "FloatingPointError", "LinAlgError", "ValueError"]), k=rng.choice([0, 0, 1]))
                o["fault"]["at"] = rng.random() if k == "line" else rng.choice([0, 0, 1, 2, 3, 5, 8])
            ops.append(o)
        plan["ops"] = ops + [{"op": "run"}, {"op": "slopes"}]
        return plan

    def run(self, plan, log):
        S = oas.prepare(plan)
        refs = {}

        def ref(spec, code):
            k = repr((spec, code))
            if k not in refs:
                refs[k] = fork_call(alone, plan, spec, code)
            return refs[k][1]

        used = {(repr(plan["specs"][o["i"]]), o["c"]): (plan["specs"][o["i"]], plan["codes"][o["c"]]) for o in plan["ops"] if o["op"] == "set"}
        for s, c in used.values():
            ref(s, c)
        if any(r[0] != "ok" for r in refs.values()):
            log.count("probe:flow solver fails at a point")
            return []
        m = Model(plan["specs"])
        m.setup()
        try:
            return self.history(plan, m, S, ref, log)
        finally:
            log.count("worker tasks", S.tasks)
            S.cleanup()

    def history(self, plan, m, S, ref, log):
        hist = []
        struck = 0
        where = name(plan["specs"][0])
        for j, o in enumerate(plan["ops"]):
            op = o["op"]
            if op == "set":
                if o["i"] < len(m.specs):
                    m.set(o["i"], plan["codes"][o["c"]])
                    hist.append("set %d" % o["c"])
                continue
            if None in m.codes:
                continue
            if op == "setup":
                m.setup()
                hist.append("setup")
                continue
            if op == "slopes" and not m.ran:
                op = "run"
            call = m.run if op == "run" else m.slopes
            f = o.get("fault")
            hist.append(op + (" with %s %s" % (f["kind"], f["exc"] if f["kind"] in ("wait", "line") else "") if f else ""))
            fired, err, got = None, None, None
            if f and f["kind"] == "line":
                c = fork_call(self.lines, call)
                n = c[1] if c[0] == "ok" else 0
                lf = LineFault(1 + int(f["at"] * n) % n if n else None, f["exc"], only=FILES)
                with lf:
                    try:
                        got = call()
                    except BaseException as e:  # noqa
                        err = e
                fired = lf.fired
            else:
                S.arm(f)
                try:
                    got = call()
                except BaseException as e:  # noqa
                    err = e
                fired = S.fired
                S.arm(None)
            if fired:
                struck += 1
                log.count("fault:" + {"task": "worker exception", "late": "worker exception after the analysis", "point": "%s in the flow solver at one point" % f["exc"], "start": "pool cannot start", "wait": "%s while waiting for workers" % f["exc"],
                                      "line": "%s at a source line of the training" % f["exc"]}[f["kind"]])
            log.ev(j, op, fired, type(err).__name__ if err else "ok", len(S.trace))
            tail = "%s [%s]" % (hist[-1], "; ".join(hist[-6:]))
            if err is not None:
                if not fired:
                    return [dict(kind="a call without a fault fails", where=where, msg="%s: %s in %s" % (type(err).__name__, str(err)[:200], tail))]
                m.restart()
                continue
            if fired and m.unsettled():
                log.count("probe:the solver around a failed training gave up")
                m.restart()
                continue
            d = check_answers(m, op, got, ref)
            if d:
                return [dict(kind="wrong answer after a failed training" if struck else "wrong answer", where=where, msg="surrogate %d: %s is %s in %s" % (d[0], d[1][0], d[1][1], tail))]
            log.count("answers compared")
        log.shape((plan["specs"], hist))
        return []

    @staticmethod
    def lines(call):
        with LineFault(None, only=FILES) as lf:
            try:
                call()
            except BaseException:  # noqa
                pass
        return lf.n

    def shrink(self, plan):
        ops = plan["ops"]
        n, step = len(ops), max(1, len(ops) // 2)
        while step >= 1:
            for i in range(0, n, step):
                yield dict(plan, ops=ops[:i] + ops[i + step:])
            step //= 2
        if len(plan["specs"]) > 1:
            yield dict(plan, specs=plan["specs"][:-1])
        s = plan["specs"][0]
        if s["level"] == "gen":
            for k in ("M", "a", "h"):
                if len(s[k]) > 1:
                    yield dict(plan, specs=[dict(s, **{k: s[k][:1]})] * len(plan["specs"]))
        for k, v in (("workers", 1), ("lag", 0.0), ("bar", False)):
            if plan[k] != v:
                yield dict(plan, **{k: v})


CHECK = P04()
