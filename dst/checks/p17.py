"""P17: power, heat and flow are conserved by every part at every instant."""
import math

import numpy as np

from .. import catalog, energy, trajrun
from ..core import Check, fork_call, rng_for
from ..crash import LineFault


def run_parts(plan, log):
    r = fork_call(catalog.build_spec, dict(plan["spec"]), plan["nn"])
    if r[0] != "ok":
        log.count("probe:unbuildable")
        return []
    spec, meta, outs = r[1]
    m = catalog.Model(spec)
    m.setup()
    name = spec["cls"].split(":")[1]
    pts = []
    for s in plan["points"]:
        rng = rng_for("pt", s)
        p = catalog.sample_point(rng, spec, meta)
        if rng.random() < 0.25:  # two streams at the same temperature
            t = [k for k in p if k.startswith("T_") and k not in ("T_initial",)]
            for k in t:
                p[k] = (np.asarray(p[k], float) * 0 + 300.0).tolist()
        pts.append(p)
    viol, hist, total = [], [], 0
    for o in plan["ops"]:
        hist.append(o["op"])
        if o["op"] == "scribble":
            m.scribble(rng_for(o["s"]))
            continue
        if o["op"] == "setup":
            m.setup()
            log.count("fault:set up again")
            continue
        m.set_point(pts[o["p"]])
        if o.get("guess") != "warm":
            m.restore_guesses()
        try:
            if o["op"] == "interrupt":
                with LineFault(o["at"], o["exc"]) as lf:
                    try:
                        m.run()
                    finally:
                        if lf.fired:
                            log.count("fault:%s at a source line" % o["exc"])
                continue
            m.run()
        except BaseException as e:  # noqa
            log.ev(o["op"], type(e).__name__)
            if o["op"] == "run":
                bad, n = energy.check(m.prob, name, wires_only=True)
                total += n
                viol += [dict(kind=b[0], where=b[1], msg=b[2] + " [" + "/".join(hist[-4:]) + "]") for b in bad[:3]]
                if viol:
                    break
            continue
        finite = np.isfinite(m.prob.model._outputs.asarray()).all()
        if not finite:
            log.count("probe:not finite")
            if m.mode == "newton":
                continue
        elif m.mode == "newton" and not energy.settled(m.prob):
            log.count("probe:not settled")
            continue
        bad, n = energy.check(m.prob, name)
        if not finite:
            bad = [b for b in bad if "is a number" in b[0]]
        total += n
        for b in bad[:3]:
            viol.append(dict(kind=b[0], where=b[1], msg=b[2] + " [" + "/".join(hist[-4:]) + "]"))
        log.ev(o["op"], o["p"], "balances", n)
        if viol:
            break
    log.count("balances checked", total)
    if total:
        log.count("converged runs checked")
        log.shape(("parts", spec["cls"], spec["kw"], plan["nn"], hist))
    return viol


class P17(Check):
    id = "P17"
    runs = {"quick": 210, "thorough": 12000}
    min_runs = {"quick": 120, "thorough": 800}
    wall = {"quick": 62, "thorough": 3000}
    rule = ("a run = a library part or propulsion/thermal system alone, or a mission flown by an electric, hybrid, hybrid with cooling loop or turboprop aircraft, taken through a history of operating "
            "points or designs with failures in flight, interrupts, overwritten guesses, cut-short solves and repeated setups; after every converged run the power, heat and flow balances of every part "
            "in the model, and the hand-over from part to part, are recomputed from the reported numbers; distinct = different (structure, operation kinds)")
    assumptions = ["the options of a part (efficiency, specific heat, consumption) are the numbers it works with"]
    real = ["motors, generators, splitters, turboshafts, batteries", "cold plates, heat exchangers, ducts, reservoirs, heat pumps, manifolds, pumps", "propulsion systems", "mission profiles", "OpenMDAO solvers"]
    stubs = []

    def warm(self):
        import openmdao.api  # noqa

        catalog.discover()
        self.specs = [s for s in fork_call(catalog.all_specs)[1] if s["cls"].split(":")[1] in energy.CLASSES]
        self.names = sorted({s["cls"] for s in self.specs})

    def gen(self, rng, tier, idx):
        # the first runs go through every part in every listed configuration
        spec = self.specs[idx // 2 % len(self.specs)] if idx % 2 and idx < 4 * len(self.specs) else None
        if spec or rng.random() < 0.3:
            spec = spec or rng.choice([s for s in self.specs if s["cls"] == rng.choice(self.names)] or self.specs)
            c = spec["cls"]
            slow = "Thermal" in c or "Compressible" in c
            npts = rng.randint(1, 2) if slow else rng.randint(4, 7)
            ops = []
            for i in range(rng.randint(2, 3) if slow else rng.randint(6, 10)):
                x = rng.random()
                if i and x < 0.2:
                    ops.append({"op": "interrupt", "p": rng.randrange(npts), "at": int(math.exp(rng.uniform(0, 7))), "exc": rng.choice(trajrun.EXC)})
                elif i and x < 0.3:
                    ops.append({"op": "scribble", "s": rng.getrandbits(32)})
                elif i and x < 0.38:
                    ops.append({"op": "setup"})
                ops.append({"op": "run", "p": i % npts, "guess": rng.choice(["cold", "cold", "warm"])})
            return {"kind": "parts", "spec": spec, "nn": rng.choice([1, 3] if slow else [1, 3, 5, 7]), "points": [rng.getrandbits(32) for _ in range(npts)], "ops": ops}
        kind = rng.choice(["elec", "hybrid", "hybrid", "thermal", "thermal", "twin", "single"])
        return trajrun.gen_mission(rng, nns=(3, 5), kinds=(kind,), profiles=("basic", "basic", "reserve") if kind == "thermal" else ("basic", "basic", "reserve", "full"))

    def run(self, plan, log):
        if plan["kind"] == "parts":
            return run_parts(plan, log)

        def inv(live, own, i):
            bad, n = energy.check(live.prob, "mission")
            log.count("balances checked", n)
            return bad
        return trajrun.run(plan, log, inv)

    def shrink(self, plan):
        if plan["kind"] == "parts":
            for i in range(len(plan["ops"])):
                yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
        else:
            yield from trajrun.shrink(plan)


CHECK = P17()
