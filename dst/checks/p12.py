"""P12: a propulsor failure removes that propulsor and nothing else."""
import math

import numpy as np

from .. import catalog, missions, trajrun
from ..core import Check, HarnessError, fork_call, rng_for
from ..crash import LineFault

MOD = "openconcept.propulsion.systems."
SYS = {
    "TwinTurbopropPropulsionSystem": MOD + "simple_turboprop", "TwinSeriesHybridElectricPropulsionSystem": MOD + "simple_series_hybrid",
    "TwinSeriesHybridElectricThermalPropulsionSystem": MOD + "thermal_series_hybrid", "TwinSeriesHybridElectricThermalPropulsionRefrigerated": MOD + "thermal_series_hybrid",
}
SC = {  # scalar inputs: base value in the given units
    "ac|propulsion|engine|rating": (900.0, "kW"), "ac|propulsion|generator|rating": (800.0, "kW"), "ac|propulsion|motor|rating": (400.0, "kW"), "ac|propulsion|propeller|diameter": (2.3, "m"),
    "ac|weights|W_battery": (1000.0, "kg"), "ac|propulsion|battery|specific_energy": (400.0, "W*h/kg"), "duration": (600.0, "s"), "ac|propulsion|thermal|hx|channel_height": (3.0, "mm"),
    "batteryheatsink.T_initial": (288.0, "K"), "motorheatsink.T_initial": (288.0, "K"), "reservoir.T_initial": (288.0, "K"), "ac|propulsion|thermal|refrig|rating": (10.0, "kW"),
    "duct.area_nozzle": (150.0, "inch**2"), "ac|propulsion|thermal|duct|area_nozzle": (150.0, "inch**2"), "hx.channel_height_cold": (14.0, "mm"), "hx.channel_height_hot": (1.0, "mm"),
}
VEC = {"fltcond|rho": (0.6, 1.2), "fltcond|Utrue": (45.0, 110.0), "fltcond|T": (260.0, 300.0)}


def gen_unit(rng):
    name = rng.choices(sorted(SYS), [1, 2, 2, 4] if False else [3, 1, 1, 4])[0]
    heavy = "Thermal" in name
    nn = rng.choice([3, 5] if heavy else [3, 5, 7])
    n = rng.randint(2, 3 if heavy else 6)
    ops = []
    for i in range(n):
        sch = [1] * nn
        if rng.random() < 0.85:
            for _ in range(rng.randint(1, 2)):
                a = rng.randrange(nn)
                b = nn if rng.random() < 0.4 else rng.randint(a + 1, nn)
                for k in range(a, b):
                    sch[k] = 0
        if rng.random() < 0.15:
            sch = [rng.randint(0, 1) for _ in range(nn)]
        o = {"op": "run", "s": rng.getrandbits(32) if i == 0 or rng.random() < 0.35 else None, "active": sch, "guess": rng.choice(["cold", "cold", "warm"])}
        if i and rng.random() < 0.2:
            ops.append({"op": "interrupt", "at": int(math.exp(rng.uniform(0, 6))), "exc": rng.choice(trajrun.EXC), "active": [rng.randint(0, 1) for _ in range(nn)]})
        if i and rng.random() < 0.12:
            ops.append({"op": "totals"})
        ops.append(o)
    return {"kind": "unit", "sys": name, "nn": nn, "ops": ops}


class Unit:
    """One propulsion system alone, at given throttle and flight condition."""

    def __init__(self, name, nn):
        import openmdao.api as om

        self.name, self.nn = name, nn
        self.prob = om.Problem(reports=False)
        self.prob.model.add_subsystem("c", catalog.get_class({"cls": "%s:%s" % (SYS[name], name)})(num_nodes=nn), promotes=["*"])
        nl = self.prob.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=40, atol=1e-9, rtol=1e-99, iprint=-1)
        nl.options["err_on_non_converge"] = True
        self.prob.model.linear_solver = om.DirectSolver(assemble_jac=False)
        self.prob.setup()
        self.prob.set_solver_print(level=-1)
        self.prob.final_setup()
        self.initial = self.prob.model._outputs.asarray(copy=True)
        self.point = None

    def has(self, n):
        try:
            self.prob.get_val(n)
            return True
        except KeyError:
            return False

    def set(self, pt, active, guess="cold"):
        if guess == "cold":
            self.prob.model._outputs.set_val(self.initial)
        self.point = pt
        for k, (v, u) in pt.items():
            if self.has(k):
                self.prob.set_val(k, v, units=u)
        self.prob.set_val("propulsor_active", np.array(active, dtype=float))

    def run(self):
        self.prob.run_model()

    def __call__(self, n, u=None):
        return np.array(self.prob.get_val(n, units=u), dtype=float).ravel().copy()

    def read(self):
        return read(self, self.name)


def read(get, name):
    o = {"t1": get("prop1.thrust", "N"), "t2": get("prop2.thrust", "N"), "thrust": get("thrust", "N"), "fuel": get("fuel_flow", "kg/s")}
    if name == "TwinTurbopropPropulsionSystem":
        for i in "12":
            o["p" + i], o["f" + i] = get("eng%s.shaft_power_out" % i, "W"), get("eng%s.fuel_flow" % i, "kg/s")
    else:
        for i in "12":
            o["p" + i], o["l" + i] = get("motor%s.shaft_power_out" % i, "W"), get("motor%s.elec_load" % i, "W")
        o["load"] = get("hybrid_split.power_in", "W")
        o["gen"], o["need"] = get("gen1.elec_power_out", "W"), get("hybrid_split.power_out_B", "W")
    return o


def draw(seed, nn):
    rng = rng_for("unit", seed)
    pt = {k: (v * rng.uniform(0.9, 1.1), u) for k, (v, u) in SC.items()}
    for k in list(pt):
        if k.endswith("T_initial"):
            pt[k] = (rng.uniform(285.0, 300.0), "K")
    for k, (a, b) in VEC.items():
        x, y = rng.uniform(a, b), rng.uniform(a, b)
        pt[k] = ([x + (y - x) * i / (nn - 1) for i in range(nn)], {"fltcond|rho": "kg/m**3", "fltcond|Utrue": "m/s", "fltcond|T": "K"}[k])
    pt["throttle"] = ([rng.uniform(0.01, 0.15) if rng.random() < 0.2 else rng.uniform(0.15, 1.0) for _ in range(nn)], None)
    for p in ("prop1.rpm", "prop2.rpm"):
        pt[p] = ([rng.uniform(1800.0, 2100.0)] * nn, "rpm")
    pt["prop2.rpm"] = pt["prop1.rpm"]
    pt["hybrid_split.power_split_fraction"] = ([rng.uniform(0.0, 0.9) for _ in range(nn)], None)
    return pt


def nominal(name, nn, pt):
    u = Unit(name, nn)
    u.set(pt, [1] * nn)
    u.run()
    return u.read()


def compare(got, nom, active, where):
    """got: under the failure schedule; nom: both running, same throttle."""
    bad = []
    off = np.array(active) == 0
    on = ~off

    def eq(kind, what, a, b, mask, scale=None):
        if not mask.any():
            return
        sc = max(np.max(np.abs(b)), 1e-12) if scale is None else scale
        d = np.abs(a - b) / sc
        if not np.max(d[mask]) <= 1e-6:
            k = int(np.argmax(np.where(mask, d, 0)))
            bad.append((kind, "%s %s" % (where, what), "%s %s at node %d: %.9g instead of %.9g (schedule %s)" % (where, what, k, a[k], b[k], list(active))))

    labels = {"t": "thrust", "p": "power", "f": "fuel flow", "l": "electrical load"}
    for q, lab in labels.items():
        if q + "1" not in got:
            continue
        sc = max(np.max(np.abs(nom[q + "1"])), np.max(np.abs(nom[q + "2"])), 1e-12)
        eq("failed propulsor still contributes", lab, got[q + "2"], 0 * nom[q + "2"], off, sc)
        eq("survivor changed by the failure", lab, got[q + "1"], nom[q + "1"], off, sc)
        eq("instants without the failure are affected", lab + " 1", got[q + "1"], nom[q + "1"], on, sc)
        eq("instants without the failure are affected", lab + " 2", got[q + "2"], nom[q + "2"], on, sc)
    want = nom["thrust"] - np.where(off, nom["t2"], 0)
    eq("total is not what the running propulsors give", "thrust", got["thrust"], want, off | on)
    if "f1" in got:
        eq("total is not what the running propulsors give", "fuel flow", got["fuel"], nom["fuel"] - np.where(off, nom["f2"], 0), off | on)
    else:
        load = nom["load"] - np.where(off, nom["l2"], 0)
        eq("total is not what the running propulsors give", "electrical load", got["load"], load, off | on)
        eq("generator does not follow the load", "generator power", got["gen"], got["need"], off | on)
        eq("total is not what the running propulsors give", "fuel flow", got["fuel"], nom["fuel"] * load / np.where(nom["load"] == 0, 1, nom["load"]), off | on)
    return bad


def run_unit(plan, log):
    name, nn = plan["sys"], plan["nn"]
    refs = {}
    for o in plan["ops"]:
        if o.get("s") is not None:
            refs[o["s"]] = fork_call(nominal, name, nn, draw(o["s"], nn))
    u = Unit(name, nn)
    viol, hist = [], []
    s = None
    compared = 0
    for o in plan["ops"]:
        hist.append(o["op"][:4])
        try:
            if o["op"] == "totals":
                if s is not None:
                    u.prob.compute_totals(of=["thrust"], wrt=["throttle", "propulsor_active"])
                continue
            if o.get("s") is not None:
                s = o["s"]
            if s is None:
                continue
            u.set(draw(s, nn), o["active"], o.get("guess", "cold"))
            if o["op"] == "interrupt":
                with LineFault(o["at"], o["exc"]) as lf:
                    try:
                        u.run()
                    finally:
                        if lf.fired:
                            log.count("fault:%s at a source line" % o["exc"])
            else:
                u.run()
        except BaseException as e:  # noqa
            log.ev(o["op"], type(e).__name__)
            log.count("probe:not converged")
            continue
        nom = refs[s]
        if nom[0] != "ok":
            log.count("probe:nominal does not converge")
            continue
        if not np.isfinite(u.prob.model._outputs.asarray()).all():
            continue
        compared += 1
        if 0 in o["active"]:
            log.count("fault:propulsor failed in flight")
            if any(a == 0 and b == 1 for a, b in zip(o["active"], o["active"][1:])):
                log.count("fault:propulsor recovered in flight")
        log.sim_time += float(u("duration", "s")[0]) if u.has("duration") else 600.0
        for b in compare(u.read(), nom[1], o["active"], name)[:3]:
            viol.append(dict(kind=b[0], where=b[1], msg="%s [%s]" % (b[2], "/".join(hist[-4:]))))
        log.ev(o["op"], s, o["active"], "same" if not viol else "DIFFERENT")
        if viol:
            break
    log.count("runs compared", compared)
    if compared:
        log.shape((name, nn, [(o["op"], tuple(o.get("active", ()))) for o in plan["ops"]]))
    return viol


FLIGHT_SYS = {"twin": "TwinTurbopropPropulsionSystem", "hybrid": "TwinSeriesHybridElectricPropulsionSystem"}


def flight_points(live, d):
    """Per phase: the throttle, flight condition and settings the converged mission used, and what its propulsion system gave."""
    from ..flight import View

    v = View(live.prob, live.spec)
    name = FLIGHT_SYS[live.spec["ac"]["kind"]]
    out = {}
    for ph in missions.phases_of(live.spec):
        if ph in ("engineoutclimb", "rotate", "v1v0", "groundroll"):
            continue
        pre = ph + ".propmodel."
        thr = v(ph + ".throttle") if v.has(ph + ".throttle") else None
        act = v(ph + ".propulsor_active") if v.has(ph + ".propulsor_active") else None
        if thr is None or act is None:
            continue
        pt = {"throttle": (thr.tolist(), None), "fltcond|rho": (v(ph + ".fltcond|rho", "kg/m**3").tolist(), "kg/m**3"), "fltcond|Utrue": (v(ph + ".fltcond|Utrue", "m/s").tolist(), "m/s"),
              "prop1.rpm": (v(ph + ".proprpm", "rpm").tolist(), "rpm"), "prop2.rpm": (v(ph + ".proprpm", "rpm").tolist(), "rpm")}
        for n, (_, u) in missions.AC_VARS[live.spec["ac"]["kind"]].items():
            pt[n] = (np.ravel(live.prob.get_val(n, units=u)).tolist()[0], u)
        if live.spec["ac"]["kind"] == "hybrid":
            pt["hybrid_split.power_split_fraction"] = ([float(v(ph + ".hybridization")[0])] * live.spec["nn"], None)
            pt["duration"] = (v.s(ph + ".duration", "s"), "s")
        got = read(lambda n, u=None: v((ph + "." if n in ("thrust", "fuel_flow") else pre) + n, u), name)
        out[ph] = (pt, act.tolist(), got)
    return name, out


class P12(Check):
    id = "P12"
    runs = {"quick": 180, "thorough": 10000}
    min_runs = {"quick": 60, "thorough": 400}
    wall = {"quick": 62, "thorough": 3000}
    rule = ("a run = a twin propulsion system alone (turboprop, series hybrid, both thermal series hybrids) under a sequence of failure and recovery schedules over its nodes, with interrupts, "
            "derivative requests and warm starts in between, or a twin turboprop or series hybrid mission with in-flight failures whose phases are compared with the same system alone; "
            "each answer is compared with the same system at the same throttle and flight condition with both propulsors running")
    assumptions = ["'failed' is propulsor_active = 0, 'running' is 1; the failed propulsor is the second one"]
    real = ["twin propulsion systems with their propellers, engines, motors, generator, power split, battery, thermal parts", "mission profiles", "OpenMDAO solvers"]
    stubs = []

    def warm(self):
        import openmdao.api  # noqa

        catalog.discover()

    def gen(self, rng, tier, idx):
        if rng.random() < 0.75:
            return gen_unit(rng)
        p = trajrun.gen_mission(rng, n=(1, 3), kinds=("twin", "twin", "hybrid"), nns=(3, 5))
        for d in p["designs"]:
            ph = rng.choice([x for x in missions.phases_of(p["spec"]) if x in d["phases"]])
            if "fail" not in d["phases"][ph]:
                a = rng.randrange(p["spec"]["nn"])
                d["phases"][ph]["fail"] = [a, rng.randint(a + 1, p["spec"]["nn"])]
        return p

    def run(self, plan, log):
        if plan["kind"] == "unit":
            return run_unit(plan, log)

        def check(live, own, i):
            name, pts = flight_points(live, live.designs[i])
            bad = []
            for ph, (pt, act, got) in pts.items():
                log.count("flown phases compared")
                if not all(a in (0.0, 1.0) for a in act):
                    continue
                r = fork_call(nominal, name, live.spec["nn"], pt)
                if r[0] != "ok":
                    log.count("probe:nominal does not converge")
                    continue
                if 0.0 in act:
                    log.count("fault:propulsor failed in flight")
                bad += compare(got, r[1], act, ph)
            return bad
        return trajrun.run(plan, log, check)

    def shrink(self, plan):
        if plan["kind"] == "unit":
            ops = plan["ops"]
            for i in range(len(ops)):
                yield dict(plan, ops=ops[:i] + ops[i + 1:])
        else:
            yield from trajrun.shrink(plan)


CHECK = P12()
