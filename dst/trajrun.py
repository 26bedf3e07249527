"""Histories over one trajectory or mission object: designs flown one after another, with faults in between; invariants are checked on
every run that reports convergence.

 plan = {"kind": "traj"|"mission", "spec", "designs": [...], "ops": [...]}
 ops: {"op": "run", "d": i, "guess": "cold"|"warm"}
      {"op": "fault", "d", "at": n, "exc": ..}      n-th evaluation of the vehicle model raises or returns NaN
      {"op": "interrupt", "d", "at": n, "exc": ..}  n-th executed source line of the library raises
      {"op": "limit", "d", "maxiter": k}            the solver is cut short
      {"op": "scribble", "s"}                       garbage is left in the outputs (starting guesses)
      {"op": "totals"}                              total derivatives are requested
      {"op": "setup"}                               the same objects are set up again
"""
import math
import random

import numpy as np

import openmdao.api as om

from . import flight, loops, missions, traj
from .core import rng_for
from .crash import LineFault
from .traj import Fault

EXC = ["KeyboardInterrupt", "MemoryError", "AnalysisError", "FloatingPointError"]


def gen_ops(rng, nd, n, resetup=True):
    ops = []
    for i in range(n):
        d = i if i < nd else rng.randrange(nd)
        r = rng.random()
        if i and r < 0.16:
            ops.append({"op": "fault", "d": rng.randrange(nd), "at": int(round(math.exp(rng.uniform(0, math.log(60))))), "exc": rng.choice(EXC[1:] + ["nan", "nan"])})
        elif i and r < 0.28:
            ops.append({"op": "interrupt", "d": rng.randrange(nd), "at": int(math.exp(rng.uniform(math.log(20), math.log(20000)))), "exc": rng.choice(EXC)})
        elif i and r < 0.38:
            ops.append({"op": "limit", "d": rng.randrange(nd), "maxiter": rng.choice([1, 1, 2, 3])})
        elif i and r < 0.46:
            ops.append({"op": "scribble", "s": rng.getrandbits(32)})
        elif i and r < 0.52:
            ops.append({"op": "totals"})
        elif i and resetup and r < 0.60:
            ops.append({"op": "setup"})
        ops.append({"op": "run", "d": d, "guess": "cold" if i == 0 or rng.random() < 0.65 else "warm"})
    return ops


def mutate_design(rng, spec, d):
    """Another design that differs in a few requests."""
    import copy

    new = missions.gen_design(rng, spec)
    out = copy.deepcopy(d)
    for k in rng.sample(sorted(set(out) | set(new)), rng.randint(1, 3)):
        if k in new:
            out[k] = new[k]
        else:
            out.pop(k, None)
    return out


def gen_traj(rng, **kw):
    spec = traj.gen_spec(rng, **kw)
    nd = rng.randint(2, 4)
    return {"kind": "traj", "spec": spec, "designs": [rng.getrandbits(32) for _ in range(nd)], "ops": gen_ops(rng, nd, rng.randint(3, 7))}


def gen_mission(rng, n=(2, 5), **kw):
    spec = missions.gen_spec(rng, **kw)
    nd = rng.randint(1, 3)
    ds = [missions.gen_design(rng, spec)]
    while len(ds) < nd:
        ds.append(missions.gen_design(rng, spec) if rng.random() < 0.5 else mutate_design(rng, spec, ds[-1]))
    return {"kind": "mission", "spec": spec, "designs": ds, "ops": gen_ops(rng, nd, rng.randint(*n))}


def gen_loop(rng, n=(4, 8), field=None, nd=None):
    spec = loops.gen_spec(rng, field)
    few = spec["loop"] == "part"  # cheap: a longer history between more designs
    nd = rng.randint(*nd) if nd else rng.randint(3, 6) if few else rng.randint(2, 4)
    return {"kind": "loop", "spec": spec, "designs": [loops.gen_design(rng, spec) for _ in range(nd)], "ops": gen_ops(rng, nd, rng.randint(*n) + (4 if few else 0))}


class Live:
    """One trajectory or mission problem under a history."""

    def __init__(self, plan):
        self.kind, self.spec, self.designs = plan["kind"], plan["spec"], plan["designs"]
        self.mod = {"traj": traj, "loop": loops, "mission": missions}[self.kind]
        self.prob = self.mod.build_problem(self.spec)
        self.setup()

    def setup(self):
        p = self.prob
        p.setup()
        p.set_solver_print(level=-1)
        p.final_setup()
        p._dst_initial = p.model._outputs.asarray(copy=True)

    def set_design(self, i):
        if self.kind == "traj":
            return traj.set_design(self.prob, self.spec, random.Random(self.designs[i]))
        self.mod.set_design(self.prob, self.spec, self.designs[i])

    def cold(self):
        self.prob.model._outputs.set_val(self.prob._dst_initial)

    def solvers(self):
        out = [loops.inner(self.prob, self.spec).nonlinear_solver if self.kind == "loop" else self.prob.model.nonlinear_solver]
        if self.kind == "traj" and self.spec["solver"] == "phase":
            out = [s.nonlinear_solver for s in self.prob.model.system_iter(typ=traj.Phase)]
        return out

    def fly(self, i, guess="cold"):
        if guess == "cold":
            self.cold()
        self.warm = guess != "cold"
        own = self.set_design(i)
        before = self.independents()
        self.prob.run_model()
        self.drifted = self.drift(before)
        return own

    def independents(self):
        meta = self.prob.model._var_allprocs_abs2meta["output"]
        return {n: v.copy() for n, v in self.prob.model._outputs._abs_item_iter(flat=True) if n.startswith("_auto_ivc.") or "openmdao:indep_var" in meta[n]["tags"]}

    def drift(self, before):
        """Name of an independent variable that the solve changed: a Newton step through a near-singular point can leave round-off
        of the linear solver in them (OpenMDAO does not restore them), so that the run no longer has the requested inputs."""
        now = self.prob.model._outputs
        for n, v in before.items():
            s = float(np.max(np.abs(v), initial=0.0))
            if not np.max(np.abs(now._abs_get_val(n) - v), initial=0.0) <= 1e-9 * s + (1e-7 if s == 0 else 0):
                return n
        return None


def scribble(prob, r):
    """Garbage in every computed output (design variables keep their values)."""
    k = r.choice([0.5, 2.0, 1.1])
    meta = prob.model._var_allprocs_abs2meta["output"]
    for n, v in prob.model._outputs._abs_item_iter(flat=True):
        if n.startswith("_auto_ivc.") or "openmdao:indep_var" in meta[n]["tags"]:
            continue
        v[:] = v * np.array([1 + (k - 1) * r.random() for _ in range(v.size)])


def run(plan, log, check, extra=None):
    """check(live, own, design index) -> [(kind, where, msg)]; returns violations."""
    live = Live(plan)
    viol = []
    ok = 0
    hist = []
    for n, o in enumerate(plan["ops"]):
        op = o["op"]
        hist.append(op + (o.get("guess", "")[:1]) + o.get("exc", "")[:2])
        own, good, err = None, False, None
        Fault.at, Fault.n, Fault.fired = None, 0, 0
        try:
            if op == "run":
                own = live.fly(o["d"], o["guess"])
                good = True
            elif op == "fault":
                Fault.at, Fault.exc = o["at"], o["exc"]
                own = live.fly(o["d"])
                good = True
            elif op == "interrupt":
                with LineFault(o["at"], o["exc"]) as lf:
                    try:
                        own = live.fly(o["d"])
                        good = True
                    finally:
                        if lf.fired:
                            log.count("fault:%s at a source line" % o["exc"])
                            log.ev(n, "fired in", lf.fired)
            elif op == "limit":
                keep = [(s, s.options["maxiter"]) for s in live.solvers() if s is not None and "maxiter" in s.options]
                try:
                    for s, _ in keep:
                        s.options["maxiter"] = max(o["maxiter"], 2) if isinstance(s, om.NonlinearBlockGS) else o["maxiter"]  # one sweep is never tested for convergence
                    own = live.fly(o["d"])
                    good = True
                finally:
                    for s, m in keep:
                        s.options["maxiter"] = m
            elif op == "scribble":
                scribble(live.prob, rng_for(o["s"]))
                log.count("fault:overwritten starting guesses")
            elif op == "totals":
                of, wrt = totals_vars(live)
                live.prob.compute_totals(of=of, wrt=wrt)
            elif op == "setup":
                live.setup()
                log.count("fault:set up again")
        except BaseException as e:  # noqa
            err = "%s: %s" % (type(e).__name__, str(e)[:80])
        if Fault.fired:
            log.count("fault:%s in the vehicle model" % o["exc"])
        if err and op == "limit":
            log.count("fault:solver cut short")
        Fault.at = None
        if err and op == "setup":
            viol.append(dict(kind="setting up again fails", where=plan["kind"], msg=err))
            break
        if err and op in ("run", "fault", "limit", "interrupt"):
            log.count("probe:not converged")
        log.ev(n, op, o.get("d"), "converged" if good else (err or "done"))
        if good and op != "setup" and (Fault.fired or o.get("guess") == "warm") and not np.isfinite(live.prob.model._outputs.asarray()).all():
            log.count("probe:not a number left in a warm start")  # the solver found nothing; no converged run to check
            continue
        if good and op in ("run", "fault", "limit", "interrupt") and live.drifted:
            log.count("probe:round-off of the linear solver changed the inputs")
            continue
        if good and op != "setup":
            ok += 1
            if plan["kind"] == "mission":
                log.sim_time += sum(float(live.prob.get_val(missions.Names(live.spec)(p + ".duration"), units="s")[0]) for p in missions.phases_of(live.spec)
                                    if p != "engineoutclimb" and not (p == "rotate" and live.spec.get("transition") != "ode"))
            for kind, where, msg in check(live, own, o["d"])[:4]:
                viol.append(dict(kind=kind, where=where if plan["kind"] != "traj" else "trajectory", msg="%s [%s]" % (msg, "/".join(hist[-4:]))))
            if viol:
                break
    if not viol and extra:
        Fault.at = None
        for kind, where, msg in extra(live)[:4]:
            viol.append(dict(kind=kind, where=where if plan["kind"] != "traj" else "trajectory", msg="%s [%s]" % (msg, "/".join(hist[-4:]))))
    log.count("converged runs checked", ok)
    if ok:
        log.shape((plan["kind"], shape_of(plan), hist))
    return viol


def totals_vars(live):
    if live.kind == "traj":
        sp = traj.state_paths(live.spec)
        return [sp[-1][2]["final"]], [sp[0][2]["base"]]
    if live.kind == "loop":
        pre = "loop." if live.spec.get("wrap") else ""
        if live.spec["loop"] == "part":
            return [pre + "solved|x"], [pre + "solved|asked"]
        return [pre + ("v1" if live.spec["loop"] == "field" else "throttle")], [pre + ("rot" if live.spec["loop"] == "field" else "asked")]
    N = missions.Names(live.spec)
    return [N("descent.fuel_used_final" if live.spec["ac"]["fuel"] == "integ" else "descent.fuel_used_final")], ["ac|weights|MTOW", N("cruise|h0")]


def shape_of(plan):
    s = plan["spec"]
    if plan["kind"] == "loop":
        return [s["loop"], s.get("sys"), s.get("nn"), s.get("wrap"), s.get("part", {}).get("cls"), s.get("x"), s.get("y")]
    if plan["kind"] == "mission":
        return [s["profile"], s["nn"], s["ac"], s.get("transition"), s.get("ground_roll"), s.get("sub")]
    return [s["where"], s["style"], s["solver"], [[p["nn"], [(b["kind"], b["method"], b["prom"], bool(b.get("sub")), len(b["states"])) for b in p["blocks"]]] for p in s["phases"]],
            [[x["a"], x["b"], len(x["skip_keys"])] for x in s["links"]]]


def shrink(plan):
    ops = plan["ops"]
    n = len(ops)
    step = max(1, n // 2)
    while step >= 1:
        for i in range(0, n, step):
            yield dict(plan, ops=ops[:i] + ops[i + step:])
        step //= 2
    if plan["kind"] == "traj":
        import copy

        s = plan["spec"]
        for i in range(len(s["links"])):
            q = copy.deepcopy(plan)
            del q["spec"]["links"][i]
            yield q
        for i in reversed(range(len(s["phases"]))):
            if len(s["phases"]) > 1:
                q = copy.deepcopy(plan)
                del q["spec"]["phases"][i]
                q["spec"]["links"] = [dict(x, a=x["a"] - (x["a"] > i), b=x["b"] - (x["b"] > i)) for x in q["spec"]["links"] if i not in (x["a"], x["b"])]
                yield q
            for j in reversed(range(len(s["phases"][i]["blocks"]))):
                if len(s["phases"][i]["blocks"]) > 1:
                    q = copy.deepcopy(plan)
                    del q["spec"]["phases"][i]["blocks"][j]
                    yield q
    elif plan["kind"] == "mission":
        s = plan["spec"]
        if s["nn"] > 3:
            yield dict(plan, spec=dict(s, nn=3), designs=[clip(d, 3) for d in plan["designs"]])
        if s["profile"] == "fullres":
            yield dict(plan, spec=dict(s, profile="full"))
            yield dict(plan, spec={k: v for k, v in s.items() if k != "transition"} | {"profile": "reserve"})
        if s.get("sub"):
            yield dict(plan, spec=dict(s, sub=False))
        if s.get("ground_roll"):
            yield dict(plan, spec=dict(s, ground_roll=False))
        if s["ac"]["kind"] != "jet":
            yield dict(plan, spec=dict(s, ac=dict(s["ac"], kind="jet")))
    for o in ops:
        if o.get("guess") == "warm":
            i = ops.index(o)
            yield dict(plan, ops=ops[:i] + [dict(o, guess="cold")] + ops[i + 1:])


def clip(d, nn):
    import copy

    d = copy.deepcopy(d)
    for q in d["phases"].values():
        if "fail" in q:
            q["fail"] = [min(q["fail"][0], nn - 1), min(max(q["fail"][1], 1), nn)]
    return d
