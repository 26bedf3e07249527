"""P03: training a drag-polar surrogate in parallel gives at every grid point what analysing that point alone gives."""
import numpy as np

from .. import oas
from ..compare import dict_differ
from ..core import Check, fork_call
from ..pool import install


class Training(Check):
    real = ["VLMDataGen, OASDataGen, VLMDragPolar, AerostructDragPolar, compute_training_data, compute_aerodynamic_data", "OpenAeroStruct 2.7.1 (share of the runs)", "OpenMDAO 3.39"]
    stubs = ["multiprocessing pool: simulated pool of forked workers driven in lock step by a seeded scheduler", "tqdm: pass-through shim (present or absent by seed)",
             "flow solvers: smooth stand-in component with the interface of VLM / Aerostruct (share of the runs)"]

    def warm(self):
        install()
        import openmdao.api  # noqa

        oas.modules()

    @staticmethod
    def environment(rng, fake):
        return {"fake": fake, "bar": rng.random() < 0.4, "workers": rng.choice([1, 2, 2, 3, 4, 4, 7, 8, 16]), "lag": rng.choice([0.0, 0.2, 0.5, 0.8, 0.95]), "sched": rng.getrandbits(32)}


class P03(Training):
    id = "P03"
    runs = {"quick": 900, "thorough": 20000}
    min_runs = {"quick": 100, "thorough": 2000}
    wall = {"quick": 62, "thorough": 3000}
    rule = ("a run = one surrogate configuration (model, grid of Mach x alpha x altitude, panels, wing, surface options, geometry) trained one to three times in a simulated worker pool (worker count, which worker takes which task, "
            "order of results, progress bar); tables, derivatives and drag at grid points are compared with the flow solver run directly at each point; distinct = different (configuration, schedule)")
    assumptions = ["a process worker shares nothing with other workers except what it inherited when the pool started", "workers do not die silently (the standard pool then waits forever)"]

    def gen(self, rng, tier, idx):
        fake = rng.random() < 0.6
        level = "polar" if fake and rng.random() < 0.3 else "gen"
        plan = self.environment(rng, fake)
        plan["spec"] = oas.gen_spec(rng, fake, level=level)
        first = [rng.getrandbits(32)]
        codes = [first]
        if level == "gen":
            for _ in range(rng.choice([0, 0, 1, 2])):
                codes.append(rng.choice([first + [rng.getrandbits(32)], [rng.getrandbits(32)], first]))
        plan["codes"] = codes
        return plan

    def run(self, plan, log):
        spec = plan["spec"]
        S = oas.prepare(plan)
        p = oas.build([spec])
        try:
            return (self.polar if spec["level"] == "polar" else self.tables)(plan, spec, p, S, log)
        finally:
            log.count("worker tasks", S.tasks)
            log.count("fault:results delivered out of order", S.overtakes)
            log.count("probe:real flow solver" if not plan["fake"] else "probe:stand-in flow solver")
            S.cleanup()

    def tables(self, plan, spec, p, S, log):
        oas.setup(p)
        where = "VLMDataGen" if spec["model"] == "vlm" else "OASDataGen"
        for i, code in enumerate(plan["codes"]):
            vals = oas.values(spec, code)
            r = fork_call(oas.expected, spec, vals)
            if r[0] != "ok":
                log.count("probe:flow solver fails at a point")
                return []
            oas.put(p, 0, spec, vals)
            try:
                p.run_model()
                T = oas.tables(p, 0, spec)
                G = oas.slopes(p, 0, spec)
            except Exception as e:
                return [dict(kind="training fails although every point can be analysed", where=where, msg="%s: %s" % (type(e).__name__, str(e)[:300]))]
            log.ev(i, "trained", len(S.trace), S.trace[-6:], {k: "%.12g" % float(np.sum(v)) for k, v in T.items()})
            d = dict_differ(r[1][0], T, 1e-9) or dict_differ(r[1][1], G, 1e-8, 1e-13)
            if d:
                return [dict(kind="table differs from direct analysis", where=where, msg="training %d, %s workers, progress bar %s: %s is %s" % (i, plan["workers"], plan["bar"], d[0], d[1]))]
            log.count("tables compared")
        log.shape((spec, plan["workers"], plan["bar"], S.trace))
        return []

    def polar(self, plan, spec, p, S, log):
        where = "VLMDragPolar" if spec["model"] == "vlm" else "AerostructDragPolar"
        vals = oas.polar_values(spec, plan["codes"][0])
        try:
            oas.setup(p)
            oas.put_polar(p, 0, spec, vals)
            p.run_model()
            if spec["model"] == "vlm":  # the wing the group hands to the flow solver
                mesh = p.get_val("g0." + ("ac|geom|wing|OAS_mesh" if spec["geo"] == "mesh" else "twisted_mesh"), units="m")
                toc = p.get_val("g0.ac|geom|wing|toverc" if spec["geo"] == "mesh" else "g0.t_over_c_interp.panel_toverc")
                w = {"ac|geom|wing|OAS_mesh": np.array(mesh), "ac|geom|wing|toverc": np.array(toc), "fltcond|TempIncrement": vals["fltcond|TempIncrement"][0]}
                cdn = vals["ac|aero|CD_nonwing"][0]
            else:
                w = {k: vals[k][0] for k in oas.A_IN}
                cdn = vals["ac|aero|CD_nonwing"][0]
            M, h, q, S_ref = vals["fltcond|M"][0], vals["fltcond|h"][0], vals["fltcond|q"][0], vals["ac|geom|wing|S_ref"][0]
            al = np.array([spec["a"][(k + plan["sched"]) % len(spec["a"])] for k in range(spec["nn"])])
            ny = w["ac|geom|wing|OAS_mesh"].shape[1] - 1 if spec["model"] == "vlm" else None
            r = fork_call(oas.direct, spec, w, list(zip(M, al, h)), ny)
            if r[0] != "ok":
                return []
            rows = r[1]
            p.set_val("g0.fltcond|CL", np.array([x[0]["CL_train"] for x in rows]))
            p.run_model()
            got = oas.polar_out(p, 0, spec)
        except Exception as e:
            return [dict(kind="training fails although every point can be analysed", where=where, msg="%s: %s" % (type(e).__name__, str(e)[:300]))]
        want = {"alpha": al, "drag": q * S_ref * (np.array([x[0]["CD_train"] for x in rows]) + cdn)}
        if spec["model"] == "oas":
            want["failure"] = np.array([x[0]["failure_train"] for x in rows])
            want["W_wing"] = np.array([rows[0][0]["W_wing"]])
        d = dict_differ(want, got, 1e-6, 1e-7)
        log.ev("polar", {k: "%.10g" % float(np.sum(v)) for k, v in got.items()})
        if d:
            return [dict(kind="drag at a grid point differs from direct analysis", where=where, msg="%s workers, progress bar %s: %s is %s" % (plan["workers"], plan["bar"], d[0], d[1]))]
        log.count("drag polars compared")
        log.shape((spec, plan["workers"], plan["bar"], S.trace))
        return []

    def shrink(self, plan):
        if len(plan["codes"]) > 1:
            for i in range(len(plan["codes"])):
                yield dict(plan, codes=plan["codes"][:i] + plan["codes"][i + 1:])
        s = plan["spec"]
        if s["level"] == "gen":
            for k in ("M", "a", "h"):
                for i in range(len(s[k])):
                    if len(s[k]) > 1:
                        yield dict(plan, spec=dict(s, **{k: s[k][:i] + s[k][i + 1:]}))
        for k, v in (("workers", 1), ("workers", 2), ("lag", 0.0), ("bar", False), ("fake", True)):
            if plan[k] != v and not (k == "workers" and plan[k] < v):
                yield dict(plan, **{k: v})


CHECK = P03()
