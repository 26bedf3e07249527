"""P10: integrated histories are the time integral of the reported rates."""
import math
import random

import numpy as np

from .. import catalog, flight, missions, traj, trajrun
from ..core import Check, fork_call, rng_for
from ..crash import LineFault
from ..traj import CONV, DUR_UNITS, quad

PARTS = ["SOCBattery", "LiquidCooledBattery", "LiquidCooledMotor", "LiquidCooledComp", "CoolantReservoir", "LH2TankNoBoilOff", "TwinSeriesHybridElectricPropulsionSystem",
         "SingleSeriesHybridElectricPropulsionSystem", "ThermalComponentWithMass", "AllElectricSinglePropulsionSystem", "TwinSeriesHybridElectricThermalPropulsionSystem",
         "TwinSeriesHybridElectricThermalPropulsionRefrigerated"]
UN = {"kg": ["kg", "lbm", "g"], "m": ["m", "km", "ft"], "J": ["J", "kJ", "MJ"], None: [None]}


def gen_direct(rng):
    old = rng.random() < 0.4
    method = rng.choice(["simpson", "bdf3"])
    nn = 2 * rng.randint(1, 6) + 1
    if method == "bdf3":
        nn = max(nn, 5)
    diff = rng.choice(["s", "s", "min", "h"])
    p = {"kind": "direct", "cls": "old" if old else "new", "nn": nn, "method": method, "ts": rng.choice(["dt", "duration", "bounds"]), "diff": diff, "states": []}
    if old:
        if rng.random() < 0.5:
            p["ts"] = "dt"
            segs = rng.sample(["a", "b", "climb", "cruise", "c2"], rng.randint(1, 4))
            p["segs"] = segs
            if rng.random() < 0.5:
                p["count"] = [s for s in segs if rng.random() < 0.6]
                if not p["count"] or rng.random() < 0.1:
                    p["count"] = [rng.choice(segs)]
        p["states"] = [{"name": "q", "units": rng.choice(["kg", "m", "J", None]), "zero": rng.random() < 0.3, "final_only": rng.random() < 0.2}]
        if p["states"][0]["units"] is None:
            p["diff"] = rng.choice([None, "s"])
    else:
        for k in range(rng.randint(1, 4)):
            n = ["fuel", "SOC", "q", "x"][k]
            s = {"name": n, "units": rng.choice(["kg", "m", "J", None]), "zero": rng.random() < 0.2, "final_only": rng.random() < 0.15, "rate_first": rng.random() < 0.2}
            if rng.random() < 0.3:  # bounds are for solvers and optimisers
                s.update(rng.choice([{"lower": rng.uniform(-20, 5)}, {"upper": rng.uniform(-5, 20)}, {"lower": 0.0, "upper": 1.0}]))
            if rng.random() < 0.4:
                s.update(rate="d%s" % n, start="%s0" % n, end="%sEnd" % n)
            p["states"].append(s)
    p["ops"] = []
    for i in range(rng.randint(3, 8)):
        r = rng.random()
        if i and r < 0.15:
            p["ops"].append({"op": "interrupt", "at": int(math.exp(rng.uniform(0, 4))), "exc": rng.choice(trajrun.EXC), "s": rng.getrandbits(32)})
        elif i and r < 0.3:
            p["ops"].append({"op": "totals"})
        elif i and r < 0.4:
            p["ops"].append({"op": "setup"})
        p["ops"].append({"op": "run", "s": rng.getrandbits(32)})
    return p


class Direct:
    def __init__(self, p):
        import openmdao.api as om
        from openconcept.utilities import Integrator
        from openconcept.utilities.math.integrals import OldIntegrator

        self.p = p
        self.prob = om.Problem(reports=False)
        if p["cls"] == "old":
            s = p["states"][0]
            self.c = OldIntegrator(num_nodes=p["nn"], method=p["method"], time_setup=p["ts"], diff_units=p["diff"], quantity_units=s["units"], zero_start=s["zero"], final_only=s["final_only"],
                                   segment_names=list(p["segs"]) if p.get("segs") else None, segments_to_count=list(p["count"]) if p.get("count") else None)
        else:
            self.c = Integrator(num_nodes=p["nn"], method=p["method"], time_setup=p["ts"], diff_units=p["diff"])
        self.prob.model.add_subsystem("i", Wrap(c=self.c, p=p))
        self.setup()

    def setup(self):
        self.prob.setup()
        self.prob.final_setup()

    def design(self, seed):
        """Set inputs in drawn units; remember them in declared units."""
        p, rng = self.p, random.Random(seed)
        du = DUR_UNITS[p["diff"]] if p["diff"] else 1.0
        own = {}
        segs = p.get("segs") or [None]
        own["T"] = []
        for sg in segs:
            h = rng.uniform(0.2, 20.0) / du  # step in declared units
            if rng.random() < 0.05:
                h = 0.0
            tu = rng.choice(["s", "min", "h"]) if p["diff"] else None
            cv = du / DUR_UNITS[tu] if tu else 1.0
            if sg is not None:
                self.set(sg + "|dt", h * cv, tu)
            elif p["ts"] == "dt":
                self.set("dt", h * cv, tu)
            elif p["ts"] == "duration":
                self.set("duration", h * (p["nn"] - 1) * cv, tu)
            else:
                t0 = rng.uniform(-50.0, 50.0) / du
                self.set("t_initial", t0 * cv, tu)
                self.set("t_final", (t0 + h * (p["nn"] - 1)) * cv, tu)
            own["T"].append(h * (p["nn"] - 1))
        for s in p["states"]:
            n = p["nn"] * len(segs)
            x = np.linspace(0, 1, n)
            r = rng.uniform(-3, 3) + rng.uniform(-3, 3) * x + rng.uniform(-3, 3) * x * x
            k = rng.random()
            if k < 0.4:
                r = r + (x >= rng.random()) * rng.uniform(-9, 9)
            elif k < 0.5:
                r = np.zeros(n)
            elif k < 0.6:
                r = np.array([rng.uniform(-5, 5) for _ in range(n)])
            elif k < 0.7:
                r[rng.randrange(n)] = 1e4
            own[s["name"]] = [0.0, r]
            self.set(self.rate(s), r, None)
            if not s["zero"]:
                q0 = rng.uniform(-10, 10)
                q = q0
                u = s["units"] and s["units"]
                alt = rng.choice(UN[s["units"]])
                if p["cls"] == "new" and s.get("rate_first"):
                    alt = None
                if alt:
                    q = q0 * CONV[u] / CONV[alt]
                self.set(self.start(s), q, alt)
                own[s["name"]][0] = q0
        return own

    def set(self, n, v, u):
        self.prob.set_val("i.c." + n, v, units=u)

    def rate(self, s):
        return "dqdt" if self.p["cls"] == "old" else s.get("rate") or s["name"] + "_rate"

    def start(self, s):
        return "q_initial" if self.p["cls"] == "old" else s.get("start") or s["name"] + "_initial"

    def check(self, own):
        p = self.p
        bad = []
        segs = p.get("segs") or [None]
        for s in p["states"]:
            q0, r = own[s["name"]]
            want = []
            x = q0
            for j, sg in enumerate(segs):
                rr = r[j * p["nn"]:(j + 1) * p["nn"]]
                d = quad(p["method"], rr, own["T"][j])
                if p.get("count") and sg not in p["count"]:
                    d = np.zeros(p["nn"])
                want.append(x + d)
                x = want[-1][-1]
            want = np.concatenate(want)
            scale = max(1e-6, np.max(np.abs(want)), np.max(np.abs(r)) * max(own["T"]))
            if not s["final_only"]:
                got = np.array(self.prob.get_val("i.c." + s["name"]))
                e = np.abs(got - want)
                if got.shape != want.shape or not np.max(e) <= 1e-9 * scale:
                    k = int(np.nanargmax(e)) if got.shape == want.shape and np.isfinite(e).any() else 0
                    bad.append(("history is not the integral of its rate", "integrator", "%s node %d: %.10g instead of %.10g" % (s["name"], k, got.ravel()[k], want[k])))
            got = float(np.ravel(self.prob.get_val("i.c." + ("q_final" if p["cls"] == "old" else s.get("end") or s["name"] + "_final")))[0])
            if not abs(got - want[-1]) <= 1e-9 * scale:
                bad.append(("final value is not the end of the integral", "integrator", "%s: final %.10g instead of %.10g" % (s["name"], got, want[-1])))
        return bad


def _wrap():
    import openmdao.api as om

    class Wrap(om.Group):
        """Adds the integrands each time it is set up, as the library's own phases do."""

        def initialize(self):
            self.options.declare("c", recordable=False)
            self.options.declare("p")

        def setup(self):
            p = self.options["p"]
            if p["cls"] == "new":
                from openconcept.utilities import Integrator

                c = Integrator(num_nodes=p["nn"], method=p["method"], time_setup=p["ts"], diff_units=p["diff"])
            else:
                c = self.options["c"]
            self.add_subsystem("c", c)
            if p["cls"] == "new":
                for s in p["states"]:
                    kw = {}
                    if s["units"]:
                        kw = {"rate_units": "%s/%s" % (s["units"], p["diff"])} if s.get("rate_first") else {"units": s["units"]}
                    c.add_integrand(s["name"], rate_name=s.get("rate"), start_name=s.get("start"), end_name=s.get("end"), zero_start=s["zero"], final_only=s["final_only"], **kw, **{b: s[b] for b in ("lower", "upper") if b in s})
    return Wrap


def Wrap(**kw):
    return _wrap()(**kw)


def run_direct(p, log):
    m = Direct(p)
    viol, hist = [], []
    n = 0
    for o in p["ops"]:
        hist.append(o["op"])
        try:
            if o["op"] == "run":
                own = m.design(o["s"])
                m.prob.run_model()
                n += 1
                log.sim_time += sum(own["T"]) * (DUR_UNITS[p["diff"]] if p["diff"] else 1.0)
                for b in m.check(own)[:3]:
                    viol.append(dict(kind=b[0], where=b[1], msg="%s [%s %s %s] %s" % (b[2], p["cls"], p["method"], p["ts"], "/".join(hist[-4:]))))
            elif o["op"] == "interrupt":
                m.design(o["s"])
                with LineFault(o["at"], o["exc"]) as lf:
                    try:
                        m.prob.run_model()
                        m.prob.compute_totals(of=["i.c." + (p["states"][0].get("end") or ("q_final" if p["cls"] == "old" else p["states"][0]["name"] + "_final"))], wrt=["i.c." + m.rate(p["states"][0])])
                    finally:
                        if lf.fired:
                            log.count("fault:%s at a source line" % o["exc"])
            elif o["op"] == "totals":
                m.prob.compute_totals(of=["i.c." + (p["states"][0].get("end") or ("q_final" if p["cls"] == "old" else p["states"][0]["name"] + "_final"))], wrt=["i.c." + m.rate(p["states"][0])])
            else:
                m.setup()
                log.count("fault:set up again")
        except BaseException as e:  # noqa
            log.ev(o["op"], type(e).__name__, str(e)[:60])
            if o["op"] in ("run", "setup", "totals"):
                viol.append(dict(kind="integration fails", where="integrator", msg="%s: %s [%s]" % (type(e).__name__, str(e)[:200], "/".join(hist[-4:]))))
        if viol:
            break
    log.count("converged runs checked", n)
    log.ev("direct", p["cls"], n, viol)
    log.shape(("direct", p["cls"], p["nn"], p["method"], p["ts"], p["diff"], p.get("segs"), p.get("count"), len(p["states"]), hist))
    return viol


def recorded():
    """Remember the integrands each Integrator was given (its public declaration)."""
    from openconcept.utilities import Integrator

    orig = Integrator.add_integrand

    def add(self, name, **kw):
        orig(self, name, **kw)
        self.__dict__.setdefault("_dst_states", []).append((name, dict(kw)))

    Integrator.add_integrand = add


def check_all(prob, viol, label, durs=None):
    """Every Integrator of a converged model, from what it reports itself; its time span must be the span of the phase around it."""
    from openconcept.utilities import Integrator

    n = 0
    for s in prob.model.system_iter(recurse=True, typ=Integrator):
        nn, ts = s.options["num_nodes"], s.options["time_setup"]
        if nn == 1:
            continue
        pre = s.pathname + "."
        meta = s._var_rel2meta if hasattr(s, "_var_rel2meta") else None  # noqa
        T = {"dt": lambda: s.get_val("dt")[0] * (nn - 1), "duration": lambda: s.get_val("duration")[0], "bounds": lambda: s.get_val("t_final")[0] - s.get_val("t_initial")[0]}[ts]()
        for name, kw in s._dst_states[-len(set(x for x, _ in s._dst_states)):]:
            r = np.array(s.get_val(kw.get("rate_name") or name + "_rate"))
            x0 = 0.0 if kw.get("zero_start") else float(s.get_val(kw.get("start_name") or name + "_initial")[0])
            xf = float(s.get_val(kw.get("end_name") or name + "_final")[0])
            want = x0 + quad(s.options["method"], r, float(T))
            scale = max(1e-6, np.max(np.abs(want)), np.max(np.abs(r)) * abs(float(T)))
            n += 1
            if not kw.get("final_only"):
                got = np.array(s.get_val(name))
                e = np.abs(got - want)
                if not np.max(e) <= 1e-7 * scale:
                    k = int(np.nanargmax(e)) if np.isfinite(e).any() else 0
                    viol.append(("history is not the integral of its rate", label, "%s%s node %d: %.10g instead of %.10g" % (pre, name, k, got[k], want[k])))
            if not abs(xf - want[-1]) <= 1e-7 * scale:
                viol.append(("final value is not the end of the integral", label, "%s%s: final %.10g instead of %.10g" % (pre, name, xf, want[-1])))
        if durs:
            for ph, d in durs.items():
                if (pre.startswith(ph + ".") or ("." + ph + ".") in pre) and not abs(float(s.get_val("duration", units="s")[0] if ts == "duration" else d) - d) <= 1e-9 * max(1.0, abs(d)):
                    viol.append(("integrated over another time span than the phase's", label, "%s: %.10g s, phase %s lasts %.10g s" % (pre, float(s.get_val("duration", units="s")[0]), ph, d)))
    return n


def run_parts(plan, log):
    recorded()
    r = fork_call(catalog.build_spec, dict(plan["spec"]), plan["nn"])
    if r[0] != "ok":
        log.count("probe:unbuildable")
        return []
    spec, meta, outs = r[1]
    m = catalog.Model(spec)
    m.setup()
    name = spec["cls"].split(":")[1]
    pts = [catalog.sample_point(rng_for("pt", s), spec, meta) for s in plan["points"]]
    viol, hist = [], []
    total = 0
    for o in plan["ops"]:
        hist.append(o["op"])
        if o["op"] == "scribble":
            m.scribble(rng_for(o["s"]))
            continue
        m.set_point(pts[o["p"]])
        if o.get("guess") != "warm":
            m.restore_guesses()
        try:
            if o["op"] == "interrupt":
                with LineFault(o["at"], o["exc"]) as lf:
                    try:
                        m.run()
                    finally:
                        if lf.fired:
                            log.count("fault:%s at a source line" % o["exc"])
            else:
                m.run()
        except BaseException as e:  # noqa
            log.ev(o["op"], type(e).__name__)
            continue
        if not np.isfinite(m.prob.model._outputs.asarray()).all():
            log.count("probe:not finite")
            continue
        v = []
        n = check_all(m.prob, v, name)
        total += n
        for b in v[:3]:
            viol.append(dict(kind=b[0], where=b[1], msg=b[2] + " [" + "/".join(hist[-4:]) + "]"))
        log.ev(o["op"], o["p"], "integrals", n)
        if viol:
            break
    log.count("integrals in library parts", total)
    if total:
        log.count("converged runs checked")
        log.shape(("parts", spec["cls"], spec["kw"], plan["nn"], hist))
    return viol


class P10(Check):
    id = "P10"
    runs = {"quick": 650, "thorough": 20000}
    min_runs = {"quick": 150, "thorough": 1000}
    wall = {"quick": 62, "thorough": 3000}
    rule = ("a run = a synthetic trajectory (rates driven by the integrated states, abrupt events), a library mission, a library part with internal states, or an integrator used "
            "directly (all rules, time arguments, units, segments, several integrands), taken through a history of designs, faults, interrupts, cut-short solves and repeated setups; "
            "after every converged run each history is recomputed from the reported rate, initial value and duration; distinct = different (structure, operation kinds)")
    assumptions = ["the rule named by the method option (parabola through pairs of intervals; third-order backward differences with third-order start-up) defines the integral on the nodes"]
    real = ["Integrator, OldIntegrator", "IntegratorGroup, PhaseGroup, TrajectoryGroup", "library parts with internal states", "mission profiles", "OpenMDAO solvers"]
    stubs = ["vehicle model of synthetic trajectories (affine rates)", "jet engine of the simulated twin jet"]

    def warm(self):
        import openmdao.api  # noqa

        catalog.discover()
        self.specs = [s for s in fork_call(catalog.all_specs)[1] if s["cls"].split(":")[1] in PARTS]

    def gen(self, rng, tier, idx):
        r = rng.random()
        if r < 0.5:
            return trajrun.gen_traj(rng)
        if r < 0.75:
            return gen_direct(rng)
        if r < 0.88:
            npts = rng.randint(2, 4)
            ops = []
            for i in range(rng.randint(2, 5)):
                x = rng.random()
                if i and x < 0.2:
                    ops.append({"op": "interrupt", "p": rng.randrange(npts), "at": int(math.exp(rng.uniform(0, 7))), "exc": rng.choice(trajrun.EXC)})
                elif i and x < 0.3:
                    ops.append({"op": "scribble", "s": rng.getrandbits(32)})
                ops.append({"op": "run", "p": i % npts, "guess": rng.choice(["cold", "cold", "warm"])})
            return {"kind": "parts", "spec": rng.choice(self.specs), "nn": rng.choice([3, 5, 7]), "points": [rng.getrandbits(32) for _ in range(npts)], "ops": ops}
        return trajrun.gen_mission(rng, nns=(3, 5))

    def run(self, plan, log):
        if plan["kind"] == "direct":
            return run_direct(plan, log)
        if plan["kind"] == "parts":
            return run_parts(plan, log)
        recorded()

        def check(live, own, i):
            if live.kind == "traj":
                snap, dur = traj.snapshot(live.prob, live.spec)
                log.sim_time += sum(dur.values())
                log.count("histories checked", len(snap))
                left = float(np.linalg.norm(live.prob.model._residuals.asarray())) if live.spec["solver"] == "gs" else 0.0
                return traj.check_integrals(snap, dur, live.spec, left=min(left, 1e-6))
            N = missions.Names(live.spec)
            durs = {p: float(live.prob.get_val(N(p + ".duration"), units="s")[0]) for p in missions.phases_of(live.spec) if p != "engineoutclimb"}
            bad = []
            log.count("histories checked", check_all(live.prob, bad, "mission", durs))
            return bad + [b for b in flight.ledger(live.prob, live.spec, live.designs[i]) if "engines consumed" in b[0] or "energy drawn" in b[0]] + \
                [b for b in flight.profile(live.prob, live.spec, live.designs[i]) if "inconsistent with speed" in b[0]]
        return trajrun.run(plan, log, check)

    def shrink(self, plan):
        if plan["kind"] in ("direct", "parts"):
            ops = plan["ops"]
            for i in range(len(ops)):
                yield dict(plan, ops=ops[:i] + ops[i + 1:])
            if plan["kind"] == "direct":
                for i in range(len(plan["states"])):
                    if len(plan["states"]) > 1:
                        yield dict(plan, states=plan["states"][:i] + plan["states"][i + 1:])
        else:
            yield from trajrun.shrink(plan)


CHECK = P10()
