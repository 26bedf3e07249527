"""P08: a converged mission does not depend on how the solver got there."""
import numpy as np

from .. import loops, missions, trajrun
from ..core import Check, fork_call, HarnessError


def outputs(prob):
    return {k: np.array(prob.model._outputs._abs_get_val(k, flat=False)).copy() for k in prob.model._var_allprocs_abs2meta["output"]}


def totals(live):
    of, wrt = total_names(live)
    J = live.prob.compute_totals(of=of, wrt=wrt)
    return {"d %s / d %s" % k: np.array(v) for k, v in J.items()}


def total_names(live):
    if live.kind == "traj":
        from .. import traj

        sp = traj.state_paths(live.spec)
        return [x[2]["final"] for x in sp[-2:]], [sp[0][2]["base"], sp[0][2]["initial"]] if not traj.feeds(live.spec).get((sp[0][0], sp[0][1])) else [sp[0][2]["base"]]
    if live.kind == "loop":
        return trajrun.totals_vars(live)
    N = missions.Names(live.spec)
    of = [N("descent.fuel_used_final"), N("climb.throttle")]
    if live.spec["profile"] in ("full", "fullres"):
        of.append(N("rotate.range_final"))
    return of, ["ac|weights|MTOW", "ac|geom|wing|S_ref", N("cruise|h0")]


def fresh(plan, i, want_totals):
    live = trajrun.Live(plan)
    try:
        live.fly(i, "cold")
    except Exception as e:  # the analysis reports that it did not converge
        return None, "%s: %s" % (type(e).__name__, str(e)[:100]), None, None
    o = outputs(live.prob)
    it = live.prob.model.nonlinear_solver._iter_count if live.prob.model.nonlinear_solver is not None else 0
    vec = live.prob.model._outputs.asarray()
    if not np.isfinite(vec).all():
        return None, "not finite", None, None
    return o, None, totals(live) if want_totals else None, it


def same_from_there(plan, i, got, rt):
    """Whether a newly built analysis started at the given outputs stays there (the equations have more than one solution)."""
    live = trajrun.Live(plan)
    for k, v in got.items():
        live.prob.model._outputs._abs_set_val(k, v)
    live.fly(i, "warm")
    return compare(got, outputs(live.prob), rt) is None


def switch(o):
    """Distance of the decision speed from rotation speed (None without a take-off analysis)."""
    v1 = [v for k, v in o.items() if k.endswith("takeoff|v1") and "v1vr" not in k]
    vr = [v for k, v in o.items() if k.endswith("takeoff|vr")]
    if not v1 or not vr:
        return None
    return float(vr[0].ravel()[0] - v1[0].ravel()[0])


def compare(a, b, rtol):
    """Worst entry of b against the reference a; each variable on its own scale."""
    if set(a) != set(b):
        k = sorted(set(a) ^ set(b))[0]
        return k, "present in only one"
    worst = None
    size = {}
    for k in a:  # a quantity counts as small only against its namesakes in the other phases (thrust1, thrust2, ...)
        n = base(k)
        size[n] = max(size.get(n, 0.0), float(np.max(np.abs(a[k]), initial=0.0)))
    for k in sorted(a):
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return k, "shape %s instead of %s" % (y.shape, x.shape)
        if x.size == 0:
            continue
        scale = max(float(np.max(np.abs(x))), float(np.max(np.abs(y))), min(1e6, size[base(k)]) * 1e-2)
        d = np.abs(x - y)
        e = float(np.max(d))
        if not e <= rtol * scale + 1e-7:
            r = e / (scale + 1e-300)
            if worst is None or not r <= worst[2]:
                j = int(np.nanargmax(d.ravel())) if np.isfinite(d).any() else 0
                worst = (k, "%.10g instead of %.10g (entry %d)" % (y.ravel()[j], x.ravel()[j], j), r)
    return worst


def base(k):
    return k.split(".")[-1].rstrip("0123456789")


class P08(Check):
    id = "P08"
    runs = {"quick": 260, "thorough": 8000}
    min_runs = {"quick": 40, "thorough": 400}
    wall = {"quick": 75, "thorough": 3000}
    rule = ("a run = a mission profile of the library flown by a drawn aircraft, a drawn trajectory of linked phases, or a propulsion system throttled to a demanded thrust, taken through a history of designs, cold and warm starts, overwritten guesses, "
            "iteration limits, errors and NaN from the vehicle model, interrupts at source lines and repeated setups; every run that reports convergence is compared, output by output (and totals), "
            "with a newly built analysis in a pristine process; afterwards every design must converge again from the declared guesses; distinct = different (structure, sequence of operation kinds)")
    assumptions = ["where decision speed is within 0.5 m/s of rotation speed without being equal to it the branch of the take-off analysis is not compared",
                   "equal within 1e-5 of each variable's largest magnitude (solver tolerance 1e-8 on the residual norm)"]
    real = ["mission profiles and phases", "TrajectoryGroup, PhaseGroup, IntegratorGroup, Integrator", "library propulsion systems, drag polar", "OpenMDAO solvers"]
    stubs = ["jet engine of the simulated twin jet", "vehicle model of synthetic trajectories"]

    def warm(self):
        import openmdao.api  # noqa

    def gen(self, rng, tier, idx):
        x = rng.random()
        if x < 0.33:
            p = trajrun.gen_traj(rng)
        elif x < 0.42:  # the decision-speed equation: cheap, so a longer history of more designs
            p = trajrun.gen_loop(rng, n=(8, 12), field=True, nd=(4, 7))
        elif x < 0.7:
            p = trajrun.gen_loop(rng)
        else:
            p = trajrun.gen_mission(rng, n=(2, 4), profiles=("basic", "basic", "reserve", "full", "full", "fullres"), kinds=("jet", "jet", "jet", "twin", "single", "elec", "elec", "hybrid"), nns=(3, 3, 5))
        p["tot"] = rng.random() < 0.5
        return p

    def run(self, plan, log):
        plan = loops.resolve(plan)
        if plan is None:
            log.count("probe:nothing to solve for")
            return []
        used = sorted({o["d"] for o in plan["ops"] if "d" in o})
        ref = {}
        for i in used:
            r = fork_call(fresh, plan, i, plan["tot"])
            if r[0] != "ok":
                raise HarnessError("reference failed: %r" % (r,))
            ref[i] = r[1]
            log.count("probe:fresh analysis did not converge", int(r[1][0] is None))
        rt = 1e-5

        def check(live, own, i, final=False):
            o, err, J, it = ref[i]
            if o is None:
                log.count("probe:converged where a fresh analysis does not")
                return []
            got = outputs(live.prob)
            a, b = (switch(o), switch(got)) if live.kind != "loop" else (None, None)
            if a is not None and (1e-6 < abs(a) < 0.5 or 1e-6 < abs(b) < 0.5):
                log.count("probe:too close to the decision-speed switch")
                return []
            log.count("converged runs compared")
            w = compare(o, got, rt)
            if w and live.kind == "loop" and live.warm and fork_call(same_from_there, plan, i, got, rt) == ("ok", True):
                log.count("probe:another solution of the same equations")
                return []
            if w:
                return [("converged result depends on history", live.spec.get("profile", ""), "%s is %s" % (w[0], w[1]))]
            if J is not None:
                w = compare(J, totals(live), 1e-4)
                log.count("totals compared")
                if w:
                    return [("total derivatives depend on history", live.spec.get("profile", ""), "%s is %s" % (w[0], w[1]))]
            return []

        def after(live):
            bad = []
            for i in used:
                if ref[i][0] is None:
                    continue
                try:
                    live.fly(i, "cold")
                except Exception as e:
                    bad.append(("no convergence after the faults stopped", live.spec.get("profile", ""), "design %d converges in a fresh analysis (%s iterations) but here: %s %s" % (i, ref[i][3], type(e).__name__, str(e)[:80])))
                    continue
                log.count("recoveries checked")
                if not live.drifted:
                    bad += check(live, None, i)
            return bad
        return trajrun.run(plan, log, check, after)

    def shrink(self, plan):
        return trajrun.shrink(plan)


CHECK = P08()
