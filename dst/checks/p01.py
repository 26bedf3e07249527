"""P01: answers are a function of the current inputs only.

A run builds one live model and takes it through a seeded history of evaluations, derivative requests and faults; every
answer is compared with the answer of a newly built model in a process that has done nothing else."""
import json

import numpy as np

from .. import catalog
from ..compare import dict_differ
from ..core import Check, HarnessError, fork_call, rng_for
from ..crash import LineFault

RT = 1e-9


def outputs_at(spec):
    """Finite outputs as a function of the inputs (a model kept for the purpose)."""
    m = catalog.Model(spec)
    m.setup()

    def f(p):
        m.set_point(p)
        m.run()
        return {k: v for k, v in m.get_outputs().items() if np.isfinite(v).all()}
    return f


def derive_points(plan, spec, meta):
    """In a process of its own where the model is needed to find the points."""
    if spec["mode"] == "explicit" and not plan.get("resid") and any(r["k"] == "edge" for r in plan["points"]):
        r = fork_call(_derive_points, plan, spec, meta, True)
        if r[0] == "ok":
            return r[1]
    return _derive_points(plan, spec, meta)


def _derive_points(plan, spec, meta, probe=False):
    """The inputs of every point of the plan, from its recipe: base, one/two inputs changed, one element changed, permuted,
    tiny change, zeros, mixture of two points, next to where the outputs bend or jump."""
    f = None
    pts = []
    names = sorted(meta)
    # element-wise changes of a wing mesh would fold the wing (openaerostruct's WaveDrag then keeps partials of its own)
    shuf = [n for n in names if not n.endswith("OAS_mesh")] or names
    for i, r in enumerate(plan["points"]):
        rng = rng_for("pt", r["s"])
        kind = r["k"]
        if kind == "new" or not pts:
            pts.append(catalog.sample_point(rng, spec, meta))
            continue
        base = {k: list(v) for k, v in pts[r["b"] % len(pts)].items()}
        if not names:
            pts.append(base)
            continue
        fresh = catalog.sample_point(rng, spec, meta)
        if kind == "one":
            n = names[r["i"] % len(names)]
            base[n] = fresh[n]
        elif kind == "edge":
            ks = rng.sample(names, min(len(names), rng.randint(1, 2)))

            def way(t):
                return dict(base, **{k: [a + t * (b - a) for a, b in zip(base[k], fresh[k])] for k in ks})
            e = None
            if probe:
                f = f or outputs_at(spec)
                e = catalog.kink(lambda t: f(way(t)))
            base = way(rng.random() if e is None else e + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-3, -1))
        elif kind == "two":
            for n in (names[r["i"] % len(names)], names[(r["i"] * 7 + 1) % len(names)]):
                base[n] = fresh[n]
        elif kind == "elem":
            vec = [n for n in shuf if len(base[n]) > 1] or shuf
            n = vec[r["i"] % len(vec)]
            j = rng.randrange(len(base[n]))
            base[n][j] = fresh[n][j]
        elif kind == "perm":
            vec = [n for n in shuf if len(base[n]) > 1] or shuf
            n = vec[r["i"] % len(vec)]
            base[n] = base[n][::-1]
        elif kind == "inner":  # smallest, largest, first and last element stay
            vec = [n for n in shuf if len(base[n]) > 2] or shuf
            n = vec[r["i"] % len(vec)]
            v = base[n]
            keep = {0, len(v) - 1, v.index(min(v)), v.index(max(v))}
            base[n] = [x if j in keep else rng.uniform(min(v), max(v)) for j, x in enumerate(v)]
        elif kind == "conserve":  # the sum stays
            vec = [n for n in shuf if len(base[n]) > 1] or shuf
            n = vec[r["i"] % len(vec)]
            v = base[n]
            a, b = rng.randrange(len(v)), rng.randrange(len(v))
            t = rng.random()
            v[a], v[b] = t * v[a] + (1 - t) * v[b], (1 - t) * v[a] + t * v[b]
        elif kind == "ends":  # everything but the first and last element stays
            vec = [n for n in shuf if len(base[n]) > 2] or shuf
            n = vec[r["i"] % len(vec)]
            base[n][0], base[n][-1] = fresh[n][0], fresh[n][-1]
        elif kind == "tiny":
            n = names[r["i"] % len(names)]
            e = 10.0 ** -rng.randint(5, 8)
            base[n] = [x * (1 + e) if x else e for x in base[n]]
        elif kind == "zero":
            n = names[r["i"] % len(names)]
            base[n] = [0.0] * len(base[n])
        elif kind == "swap":
            other = pts[rng.randrange(len(pts))]
            for n in names:
                if rng.random() < 0.5:
                    base[n] = list(other[n])
        pts.append(base)
    return pts


def attempt(fn):
    try:
        return ("val", fn())
    except Exception as e:
        return ("exc", type(e).__name__)


def evaluate(m, point, what, s):
    """One answer of a model: dictionary of arrays, or the class of the exception."""
    m.set_point(point)
    if what == "resid":
        def f():
            m.set_states(rng_for("states", s))
            r = m.residuals()
            r.update(m.partials())
            return r
        return attempt(f)

    def f():
        m.run()
        out = m.get_outputs()
        if what == "part":
            out.update(m.partials())
        elif what == "tot":
            out.update(m.totals())
        return out
    return attempt(f)


def fresh_answers(spec, jobs):
    """Answers of newly built models: the model is built once and every answer is given by a copy of it in a process of its own.
    jobs: [(key, point, what, seed)] -> {key: answer}"""
    def mother():
        m = catalog.Model(spec)
        m.setup()
        return [(k, fork_call(evaluate, m, pt, what, s)) for k, pt, what, s in jobs]

    r = fork_call(mother)
    bad = [x for x in r[1] if x[1][0] != "ok"] if r[0] == "ok" else r
    if bad:
        raise HarnessError("reference failed: %r" % (bad,))
    return {k: a[1] for k, a in r[1]}


def same(a, b, rt=RT):
    if a[0] != b[0]:
        return ("<outcome>", "%s instead of %s" % (a[1] if a[0] == "exc" else "an answer", b[1] if b[0] == "exc" else "an answer"))
    if a[0] == "exc":
        return None
    return dict_differ(a[1], b[1], rt)


class P01(Check):
    id = "P01"
    runs = {"quick": 1300, "thorough": 20000}
    min_runs = {"quick": 200, "thorough": 1000}
    wall = {"quick": 75, "thorough": 3000}
    rule = ("a run = one model class with drawn options and vector length, a pool of input points (random, one/two inputs or one element changed, "
            "only inner or outer elements changed, sum kept, permuted, 1e-5..1e-8 changed, zeros, mixtures, next to where the outputs bend or jump) and a history of evaluations, derivative requests, residual calls, overwritten outputs "
            "and faults raised at a seeded source line; non-trivial = at least two answers compared with a fresh model; distinct = "
            "different (class, options, vector length, sequence of operation kinds)")
    assumptions = ["a newly built model in a newly forked process is the reference; the property says nothing about whether that answer itself is right",
                   "models with feedback or implicit states are started from their declared guesses before each solve; warm starts are covered by P08"]
    real = ["openconcept components and groups (all importable classes)", "OpenMDAO 3.39", "openaerostruct for VLM groups (below the critical Mach number: its wave-drag component keeps old partials there)", "stored Kriging training files"]
    stubs = ["time of an interrupt or allocation failure: raised by a trace function at a seeded source line"]

    def warm(self):
        import os
        import openmdao.api  # noqa

        catalog.ensure_caches()
        self.specs = fork_call(catalog.all_specs)[1]
        catalog.discover()

    def gen(self, rng, tier, idx):
        spec = self.specs[idx % len(self.specs)] if idx < 3 * len(self.specs) else rng.choice(self.specs)
        slow = "propulsion.systems" in spec["cls"] and ("Hybrid" in spec["cls"] or "Thermal" in spec["cls"]) or "ExternalHX" in spec["cls"]
        heavy = spec["cls"] in catalog.HEAVY or "VLM" in spec["cls"] or slow
        nn = rng.choice([1, 3] if heavy else [1, 2, 3, 5, 7, 9])
        npts = rng.randint(3, 5) if heavy else rng.randint(6, 12)
        pts = [{"k": "new", "s": rng.getrandbits(32)}]
        for i in range(1, npts):
            k = rng.choices(["new", "one", "two", "elem", "perm", "tiny", "zero", "swap", "inner", "conserve", "ends", "edge"], [2, 4, 1, 1.5, 1, 1.5, 0.7, 1, 2, 0.7, 0.7, 0 if heavy else 1])[0]
            if idx // len(self.specs) == 2 and not heavy and i % 2 == 0:  # the third time round, mainly next to bends and jumps
                k = "edge"
            pts.append({"k": k, "b": i - 1 if rng.random() < 0.6 else rng.randrange(i), "i": rng.randrange(1000), "s": rng.getrandbits(32)})
        resid = rng.random() < 0.4 and idx // len(self.specs) != 2 or slow
        ops = []
        last = 0
        for i in range(npts + rng.randint(2, 6)):
            j = i if i < npts else rng.randrange(npts)
            last = j
            what = rng.choices(["run", "part", "tot"], [2, 2, 1 if heavy else 3])[0]
            pre = rng.random()
            if pre < 0.12:
                ops.append({"op": "scribble", "s": rng.getrandbits(32)})
            elif pre < 0.32:
                ops.append({"op": "crash", "at": rng.random(), "during": rng.choice(["run", "tot", "part"]), "p": rng.randrange(npts),
                            "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "AnalysisError", "FloatingPointError"])})
            elif pre < 0.40 and not heavy:
                ops.append({"op": "eval", "p": rng.randrange(npts), "what": "tot"})
            elif pre < 0.48:
                ops.append({"op": "apply"})
            ops.append({"op": "eval", "p": j, "what": what})
            if rng.random() < 0.25:
                ops.append({"op": "again", "what": rng.choice(["part", "tot"])})
        return {"spec": spec, "nn": nn, "points": pts, "ops": ops, "resid": resid}

    def run(self, plan, log):
        spec = dict(plan["spec"])
        r = fork_call(catalog.build_spec, spec, plan["nn"])
        if r[0] != "ok":
            log.count("probe:unbuildable")
            log.ev("unbuildable", spec["cls"], r[1])
            return []
        spec, meta, outs = r[1]
        if spec["mode"] == "newton" and plan["resid"]:
            spec["mode"] = "explicit"
            resid = True
        else:
            resid = False
        pts = derive_points(plan, spec, meta)
        # every reference is computed before the live model exists
        cur, keys = 0, []
        for o in plan["ops"]:
            if o["op"] == "eval":
                cur = o["p"]
                keys.append((cur, "resid" if resid else o["what"]))
            elif o["op"] == "again" and not resid:
                keys.append((cur, o["what"]))
        cache = fresh_answers(spec, [((p, w), pts[p], w, plan["points"][p]["s"]) for p, w in sorted(set(keys))])

        def ref(p, what):
            return cache[p, what]

        m = catalog.Model(spec)
        m.setup()
        viol = []
        cur = 0
        name = spec["cls"].split(":")[1]
        compared = 0
        hist = []
        for n, o in enumerate(plan["ops"]):
            hist.append(o["op"] + o.get("what", ""))
            if o["op"] == "scribble":
                m.scribble(rng_for(o["s"]))
                log.count("fault:overwritten outputs")
            elif o["op"] == "apply":
                attempt(lambda: m.prob.model.run_apply_nonlinear())
            elif o["op"] == "crash":
                self.crash(m, pts[o["p"]], o, resid, plan["points"][o["p"]]["s"], log)
            elif o["op"] in ("eval", "again"):
                if o["op"] == "eval":
                    cur = o["p"]
                    what = "resid" if resid else o["what"]
                    if spec["mode"] == "newton":
                        m.restore_guesses()
                    got = evaluate(m, pts[cur], what, plan["points"][cur]["s"])
                else:
                    if resid:
                        continue
                    what = o["what"]

                    def f():
                        out = m.get_outputs()
                        out.update(m.totals() if what == "tot" else m.partials())
                        return out
                    if got[0] == "exc":
                        continue
                    got = attempt(f)
                d = same(got, ref(cur, what))
                compared += 1
                log.ev(n, o["op"], what, "p%d" % cur, got[0], "same" if not d else "DIFFERENT %s" % (d,))
                if d:
                    viol.append(dict(kind="history dependent answer", where=name,
                                     msg="%s (%s, n=%s): %s is %s after %s" % (name, json.dumps(spec["kw"]), spec["nn"], d[0], d[1], "/".join(hist[-5:]))))
                    break
        if compared >= 2:
            log.shape((spec["cls"], spec["kw"], spec["nn"], spec.get("var"), hist))
        log.count("answers compared", compared)
        log.count("probe:mode " + ("residual" if resid else spec["mode"]))
        return viol

    def crash(self, m, pt, o, resid, s, log):
        what = "resid" if resid else o["during"]
        if m.mode == "newton":
            m.restore_guesses()
        c = fork_call(self.count, m, pt, what, s)
        if c[0] != "ok" or c[1] < 1:
            return
        at = 1 + int(o["at"] * c[1]) % c[1]
        with LineFault(at, o["exc"]) as lf:
            try:
                evaluate(m, pt, what, s)
            except BaseException:
                pass
        if lf.fired:
            log.count("fault:%s at a source line" % o["exc"])
            log.ev("crash", o["exc"], lf.fired)

    @staticmethod
    def count(m, pt, what, s):
        with LineFault(None) as lf:
            try:
                evaluate(m, pt, what, s)
            except BaseException:
                pass
        return lf.n

    def shrink(self, plan):
        ops = plan["ops"]
        n = len(ops)
        step = n // 2
        while step >= 1:
            for i in range(0, n, step):
                yield dict(plan, ops=ops[:i] + ops[i + step:])
            step //= 2
        for nn in (1, 2, 3):
            if nn < plan["nn"]:
                yield dict(plan, nn=nn)
        used = sorted({o["p"] for o in ops if "p" in o})
        for i, o in enumerate(ops):
            if o["op"] == "eval" and o["what"] != "run":
                yield dict(plan, ops=ops[:i] + [dict(o, what="run")] + ops[i + 1:])


CHECK = P01()
