"""P18: total derivatives are the slopes of the reported results."""
import math

import numpy as np

from ..pool import install

install()  # before the library is imported

from .. import catalog, loops, oas, slopes, trajrun  # noqa: E402
from ..core import Check, fork_call, rng_for  # noqa: E402
from ..crash import LineFault  # noqa: E402


def computed(prob):
    import openmdao.api as om

    iv = {s.pathname for s in prob.model.system_iter(recurse=True, include_self=False, typ=om.IndepVarComp)}
    return [k for k in prob.model._var_allprocs_abs2meta["output"] if k.rsplit(".", 1)[0] not in iv and not k.startswith("_auto_ivc.")]


EDGE = {"throttle": (0.0,), "propulsor_active": (0.0, 1.0), "fltcond|Utrue": (0.0,), "fltcond|vs": (0.0,), "elec_load": (0.0,), "shaft_power_in": (0.0,), "power_in": (0.0,), "power_split_fraction": (0.0, 1.0),
        "power_split_amount": (0.0,), "bypass": (0.0, 1.0), "q_in": (0.0,), "fltcond|CL": (0.0,), "braking": (0.0,), "fltcond|h": (0.0,), "hybridization": (0.0, 1.0), "mdot_split_fraction": (0.0, 1.0),
        "alpha": (0.0,), "twist": (0.0,), "c4sweep": (0.0,), "heat_in": (0.0,), "thrust": (0.0,), "fltcond|TempIncrement": (0.0,), "fltcond|M": (0.0,), "SOC_initial": (0.0, 1.0)}


def at_edge(rng, point, cls):
    """Standing still, no power, level flight, everything to one side ...: some elements at the end of their range."""
    ks = [k for k in sorted(point) if k.split(".")[-1] in EDGE or k.split("|")[-1] in EDGE]
    if ".propulsion." not in cls and ".mission." not in cls:  # friction laws have no value at rest
        ks = [k for k in ks if not k.endswith(("fltcond|Utrue", "fltcond|M"))]
    out = dict(point)
    for k in rng.sample(ks, min(len(ks), rng.choice([1, 1, 2]))):
        x = np.array(out[k], dtype=float)
        e = EDGE.get(k.split(".")[-1]) or EDGE[k.split("|")[-1]]
        for i in range(x.size) if rng.random() < 0.4 else [rng.randrange(x.size)]:
            x.flat[i] = rng.choice(e)
        out[k] = x.tolist()
    return out, bool(ks)


def look(prob, rng, nwrt, steps, tol, floor, log, run, label, prefer=None):
    src = slopes.sources(prob)
    names = sorted(src)
    if not names:
        return []
    ofs = computed(prob)
    viol = []
    for s in rng.sample(names, min(nwrt, len(names))):
        n = prob.model._outputs._abs_get_val(s, flat=True).size
        u = np.array([rng.uniform(0.3, 1.0) * rng.choice([-1, 1]) for _ in range(n)])
        bad, k, skip = slopes.compare(prob, s, src[s], u, ofs, steps, run, tol, floor)
        if bad is None:
            log.count("probe:neighbouring point not converged")
            continue
        log.count("slopes compared", k)
        log.count("probe:entries not smooth there", skip)
        for name, text in bad[:2]:
            viol.append(("derivative is not the slope", label, text))
        if viol:
            break
    return viol


def run_parts(plan, log):
    r = fork_call(catalog.build_spec, dict(plan["spec"]), plan["nn"])
    if r[0] != "ok":
        log.count("probe:unbuildable")
        return []
    spec, meta, outs = r[1]
    m = catalog.Model(spec)
    m.setup()
    name = spec["cls"].split(":")[1]
    pts = [catalog.sample_point(rng_for("pt", s), spec, meta) for s in plan["points"]]
    viol, hist = [], []
    now = None
    newton = m.mode == "newton"

    def again():
        try:
            m.run()
            return True
        except Exception:
            return False
    for o in plan["ops"]:
        hist.append(o["op"])
        if o["op"] == "scribble":
            m.scribble(rng_for(o["s"]))
            continue
        if o["op"] == "setup":
            m.setup()
            log.count("fault:set up again")
            continue
        if o.get("few"):  # only one or two inputs differ from the point before
            ks = sorted(pts[o["p"]])
            now = dict(now, **{k: pts[o["p"]][k] for k in rng_for("few", o["s"]).sample(ks, min(len(ks), o["few"]))}) if now else dict(pts[o["p"]])
        else:
            now = dict(pts[o["p"]])
        if o.get("edge"):
            now, any_ = at_edge(rng_for("edge", o["s"]), now, spec["cls"])
            log.count("fault:inputs at the end of their range" if any_ else "probe:no such input")
        m.set_point(now)
        if newton:
            m.restore_guesses()
        try:
            if o["op"] == "interrupt":
                with LineFault(o["at"], o["exc"]) as lf:
                    try:
                        m.run()
                        m.totals()
                    finally:
                        if lf.fired:
                            log.count("fault:%s at a source line" % o["exc"])
                continue
            m.run()
            if not np.isfinite(m.prob.model._outputs.asarray()).all():
                log.count("probe:not finite")
                continue
            bad = look(m.prob, rng_for("look", o["s"]), o["n"], (1e-4, 3e-5) if not newton else (1e-3, 3e-4), 3e-3, 1e-7 if not newton else 1e-4, log, again, name)
        except BaseException as e:  # noqa
            log.ev(o["op"], type(e).__name__)
            log.count("probe:not converged")
            continue
        log.count("converged runs checked")
        log.ev(o["op"], o["p"], len(bad))
        viol = [dict(kind=k, where=w, msg="%s [%s]" % (t, "/".join(hist[-4:]))) for k, w, t in bad]
        if viol:
            break
    log.shape(("parts", spec["cls"], str(spec["kw"]), plan["nn"], hist))
    return viol


def run_polar(plan, log):
    """A drag-polar surrogate whose flow solver is the stand-in, through changes of the wing and failing trainings."""
    spec = plan["spec"]
    S = oas.prepare(plan)
    try:
        p = oas.build([spec])
        oas.setup(p)
        start = p.model._outputs.asarray(copy=True)
        vals, viol, hist = {}, [], []

        def again():
            try:
                p.run_model()
                return True
            except Exception:
                return False
        for o in plan["ops"]:
            if spec["level"] == "gen":
                new = {k: (v, oas.names(spec)[0][k]) for k, v in oas.values(spec, o["code"]).items()}
            else:
                p.model._outputs.set_val(start)
                new = oas.polar_values(spec, o["code"])
                r = rng_for("off grid", o["s"])
                for k in ("fltcond|M", "fltcond|h"):
                    lo, hi = min(spec[k[-1]]), max(spec[k[-1]])
                    new[k] = (np.array([r.uniform(lo + 0.02 * (hi - lo), hi - 0.02 * (hi - lo)) for _ in range(spec["nn"])]), new[k][1])
            if o.get("few") and vals:
                ks = sorted(new)
                new = dict(vals, **{k: new[k] for k in rng_for("few", o["s"]).sample(ks, min(len(ks), o["few"]))})
            vals = new
            oas.put_polar(p, 0, spec, vals)
            hist.append("run")
            S.arm(o.get("fault"))
            try:
                p.run_model()
                if o.get("totals"):
                    p.compute_totals(of=["g0." + n for n in (oas.names(spec)[1] if spec["level"] == "gen" else ["drag"])], wrt=["g0." + sorted(vals)[0]])
            except BaseException as e:  # noqa
                log.count("fault:training fails (%s)" % type(e).__name__)
                hist.append("failing training")
                log.ev("failed", type(e).__name__, str(e)[:300])
                continue
            finally:
                S.arm(None)
            if spec["level"] == "polar" and not oas_settled(p):
                log.count("probe:not converged")
                continue
            bad = look(p, rng_for("look", o["s"]), o["n"], (1e-4, 3e-5), 3e-3, 1e-6, log, again, {"vlm": "VLM", "oas": "Aerostruct"}[spec["model"]] + (" drag polar" if spec["level"] == "polar" else " training"))
            log.count("converged runs checked")
            log.ev("run", len(bad))
            viol = [dict(kind=k, where=w, msg="%s [%s]" % (t, "/".join(hist[-4:]))) for k, w, t in bad]
            if viol:
                break
        log.shape(("polar", spec["model"], spec["level"], spec.get("geo"), hist))
        return viol
    finally:
        log.count("worker tasks", S.tasks)
        S.cleanup()


def oas_settled(p):
    p.model.run_apply_nonlinear()
    return bool(np.linalg.norm(p.model._residuals.asarray()) <= 1e-6)


class P18(Check):
    id = "P18"
    runs = {"quick": 500, "thorough": 15000}
    min_runs = {"quick": 120, "thorough": 800}
    wall = {"quick": 75, "thorough": 3000}
    rule = ("a run = a library part or system alone, a closed loop, a drawn trajectory of linked phases, a mission, or a drag-polar surrogate trained in a simulated worker pool, taken through a history of operating points or designs (some differing from the one before in one or two inputs only) with interrupts (also inside "
            "derivative requests), faults, overwritten guesses, cut-short solves and repeated setups; after converged runs the total derivatives of every computed quantity with respect to drawn inputs are "
            "compared with central differences of further analyses of the same model at two step sizes; distinct = different (structure, operation kinds)")
    assumptions = ["entries whose slope differs between the two step sizes (kinks, switches) are counted and not compared", "equal within 2e-3 of the larger of derivative and slope"]
    real = ["all parts of the library that can be built alone", "mission profiles, trajectories, integrators", "OpenMDAO solvers and total derivatives"]
    stubs = ["jet engine of the simulated twin jet", "vehicle model of synthetic trajectories", "flow solver and worker pool of the drag polars"]

    def warm(self):
        oas.modules()
        import openmdao.api  # noqa

        catalog.discover()
        self.specs = [s for s in fork_call(catalog.all_specs)[1] if s["cls"] not in catalog.HEAVY]
        self.names = sorted({s["cls"] for s in self.specs})

    def gen(self, rng, tier, idx):
        x = rng.random()
        # three of five runs go through every part in every listed configuration
        spec = self.specs[(idx // 5 * 3 + idx % 5) % len(self.specs)] if idx % 5 < 3 else None
        if x > 0.88 and not spec:
            level = rng.choice(["gen", "polar"])
            p = {"kind": "polar", "fake": True, "bar": rng.random() < 0.3, "workers": rng.choice([1, 2, 4]), "lag": 0.5, "sched": rng.getrandbits(32),
                 "spec": oas.gen_spec(rng, True, level=level, maxpts=8), "ops": []}
            first = [rng.getrandbits(32)]
            for i in range(rng.randint(1, 3) if level == "gen" else rng.randint(1, 2)):
                o = {"op": "run", "code": first if not i else rng.choice([[rng.getrandbits(32)], first + [rng.getrandbits(32)]]), "n": rng.randint(1, 2), "s": rng.getrandbits(32)}
                if i and rng.random() < 0.4:
                    o["few"] = rng.randint(1, 2)
                if rng.random() < 0.3:
                    p["ops"].append(dict(o, n=0, totals=rng.random() < 0.5, fault={"kind": rng.choice(["task", "start", "wait", "late"]), "exc": "KeyboardInterrupt", "at": rng.choice([0, 1, 2, 5])}))
                p["ops"].append(o)
            return p
        if x < 0.1 or spec:
            spec = spec or rng.choice([s for s in self.specs if s["cls"] == rng.choice(self.names)] or self.specs)
            c = spec["cls"]
            slow = "Thermal" in c or "Compressible" in c or "VLM" in c or "OAS" in c or "Aerostruct" in c
            npts = rng.randint(1, 2) if slow else rng.randint(2, 3)
            ops = []
            for i in range(rng.randint(1, 2) if slow else rng.randint(2, 4)):
                y = rng.random()
                if i and y < 0.25:
                    ops.append({"op": "interrupt", "p": rng.randrange(npts), "at": int(math.exp(rng.uniform(0, 7))), "exc": rng.choice(trajrun.EXC)})
                elif i and y < 0.35:
                    ops.append({"op": "scribble", "s": rng.getrandbits(32)})
                elif i and y < 0.43:
                    ops.append({"op": "setup"})
                ops.append({"op": "run", "p": i % npts, "s": rng.getrandbits(32), "n": rng.randint(1, 2) if slow else rng.randint(2, 5)})
                if i and rng.random() < 0.4:
                    ops[-1]["few"] = rng.randint(1, 2)
                if rng.random() < 0.4:
                    ops[-1]["edge"] = 1
            return {"kind": "parts", "spec": spec, "nn": rng.choice([1, 3] if slow else [1, 3, 5]), "points": [rng.getrandbits(32) for _ in range(npts)], "ops": ops}
        if x < 0.3:
            p = trajrun.gen_loop(rng, n=(2, 4))
        elif x < 0.5:
            p = trajrun.gen_traj(rng)
        else:
            p = trajrun.gen_mission(rng, n=(1, 2), nns=(3,), kinds=("jet", "jet", "twin", "single", "elec", "hybrid"), profiles=("basic", "basic", "reserve", "full"))
        p["s"] = rng.getrandbits(32)
        return p

    def run(self, plan, log):
        if plan["kind"] == "parts":
            return run_parts(plan, log)
        if plan["kind"] == "polar":
            return run_polar(plan, log)
        rng = rng_for("look", plan["s"])
        plan = loops.resolve(plan)
        if plan is None:
            log.count("probe:nothing to solve for")
            return []

        def inv(live, own, i):
            def again():
                try:
                    live.prob.run_model()
                    return bool(np.isfinite(live.prob.model._outputs.asarray()).all())
                except Exception:
                    return False
            return look(live.prob, rng, 2, (1e-3, 3e-4), 3e-3, 1e-4, log, again, live.spec.get("profile", live.kind))
        return trajrun.run(plan, log, inv)

    def shrink(self, plan):
        if plan["kind"] in ("parts", "polar"):
            for i in range(len(plan["ops"])):
                yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
        else:
            yield from trajrun.shrink(plan)


CHECK = P18()
