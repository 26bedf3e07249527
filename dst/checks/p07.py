"""P07: a model can be set up again and again with the same result.

A run keeps one problem with one set of model objects alive and takes it through option changes, setups, failing setups and runs;
after every setup that succeeds the model (variables, units, shapes, connections, declared values) and its results must be those
of a newly created object with the same options, obtained in a pristine process."""
import copy
import json
import random

import numpy as np

from .. import catalog, missions, traj, trajrun
from ..compare import dict_differ
from ..core import Check, HarnessError, fork_call
from ..crash import LineFault
from .p01 import derive_points, same
from .p02 import slow_spec
from .p08 import compare as close

SETUP_EXC = ["KeyboardInterrupt", "MemoryError", "OSError", "Injected"]
STATEFUL_CTOR = ("recipe:",)  # given their equations by calls, not by options: repeated setups only


def structure(prob):
    m = prob.model
    out = {}
    for io in ("input", "output"):
        for k, meta in m._var_allprocs_abs2meta[io].items():
            if not k.startswith("_auto_ivc."):
                out["%s %s" % (io, k)] = (tuple(meta["shape"]), meta["units"], m._resolver.abs2prom(k, io))
    for t, s in m._conn_global_abs_in2out.items():
        out["source of %s" % t] = "a free input" if s.startswith("_auto_ivc.") else s
    return out


def declared(prob):
    m = prob.model
    out = {k: np.array(m._outputs._abs_get_val(k, flat=False), dtype=float).copy() for k in m._var_allprocs_abs2meta["output"] if not k.startswith("_auto_ivc.")}
    out.update((k, np.array(m._inputs._abs_get_val(k, flat=False), dtype=float).copy()) for k in m._var_allprocs_abs2meta["input"])
    return out


def answers(prob):
    m = prob.model
    return {k: np.array(m._outputs._abs_get_val(k, flat=False), dtype=float).copy() for k in m._var_allprocs_abs2meta["output"] if not k.startswith("_auto_ivc.")}


def sdiff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return "%s is %s instead of %s" % (k, b.get(k, "absent"), a.get(k, "absent"))
    return None


# ---- kinds of models -----------------------------------------------------------------------------------------------------
class Cat:
    """A library component or group; variants differ in options."""

    def __init__(self, plan):
        import openmdao.api as om

        self.plan = plan
        outer = self

        class Parent(om.Group):
            def setup(self):
                spec = outer.spec
                for prom, (sh, units, val) in spec.get("defaults", {}).items():
                    self.set_input_defaults(prom, val=np.array(val, dtype=float).reshape(sh), units=units)
                if spec.get("mode") == "newton":
                    nl = self.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=25, atol=1e-10, rtol=1e-10, iprint=-1)
                    nl.options["err_on_non_converge"] = True
                    self.linear_solver = om.DirectSolver(assemble_jac=False)
                else:
                    self.nonlinear_solver = om.NonlinearRunOnce()
                    self.linear_solver = om.LinearRunOnce()

        self.m = catalog.Model.__new__(catalog.Model)
        self.spec = plan["variants"][0]
        self.m.inst = catalog.make_instance(self.spec)
        root = Parent()
        root.add_subsystem("c", self.m.inst, promotes=["*"])
        self.m.prob = self.prob = om.Problem(root, reports=False)

    def options(self, v):
        import openmdao.api as om

        self.spec = self.plan["variants"][v]
        if self.spec["cls"].startswith(STATEFUL_CTOR):
            return
        if isinstance(self.m.inst, om.ExplicitComponent):
            self.m.inst._declared_partials_patterns = {}  # OpenMDAO keeps what earlier setups of a component declared, even of variables that are gone
        other = catalog.make_instance(self.spec)
        for k, meta in other.options.items():
            if k in ("assembled_jac_type", "derivs_method", "distributed", "run_root_only", "always_opt", "use_jit", "default_shape"):
                continue
            self.m.inst.options[k] = meta

    def setup(self):
        forget(self.prob)
        self.m.spec, self.m.mode = self.spec, self.spec.get("mode", "explicit")
        self.m.setup()

    def result(self, v, s, what):
        m = self.m
        pts = derive_points({"points": [{"k": "new", "s": s}]}, self.spec, self.plan["meta"][v])
        m.restore_guesses()
        m.set_point(pts[0])
        m.run()
        out = m.get_outputs()
        if what == "part":
            out.update(m.partials())
        elif what == "tot":
            out.update(m.totals())
        return out

    @property
    def rtol(self):
        return 1e-5 if self.m.mode == "newton" else 1e-9


def forget(prob):
    """OpenMDAO 3.39 keeps two things of earlier setups in groups that persist (the line search's bounds array; which variables belong to the scope of a linear
    solve), however the variables have changed since.  They belong to OpenMDAO and the user's solvers, not to the library, so they are cleared here."""

    def walk(s):
        s._scope_cache = {}
        ls = getattr(s._nonlinear_solver, "linesearch", None)
        if ls is not None and hasattr(ls, "_lower_bounds"):
            ls._lower_bounds = ls._upper_bounds = None
        for q in getattr(s, "_static_subsystems_allprocs", {}).values():
            walk(q.system)

    walk(prob.model)


class TrajModel:
    def __init__(self, plan):
        self.plan, self.spec = plan, plan["variants"][0]
        self.prob = traj.build_problem(self.spec)

    def traj_obj(self):
        m = self.prob.model
        return m if self.spec["where"] == "top" else m

    def options(self, v):
        self.spec = self.plan["variants"][v]
        m = self.prob.model
        if self.spec["where"] == "deep":
            m._get_subsystem("outer").options["spec"] = self.spec
        elif self.spec["where"] == "sub":
            m._static_subsystems_allprocs["traj"].system.options["spec"] = self.spec
        else:
            m.options["spec"] = self.spec

    def setup(self):
        forget(self.prob)
        self.prob.setup()
        self.prob.set_solver_print(level=-1)
        self.prob.final_setup()
        self.initial = self.prob.model._outputs.asarray(copy=True)

    def result(self, v, s, what):
        self.prob.model._outputs.set_val(self.initial)
        traj.set_design(self.prob, self.spec, random.Random(s))
        self.prob.run_model()
        out = answers(self.prob)
        if what == "tot":
            sp = traj.state_paths(self.spec)
            J = self.prob.compute_totals(of=[sp[-1][2]["final"]], wrt=[sp[0][2]["base"]])
            out.update({"d %s / d %s" % k: np.array(x) for k, x in J.items()})
        return out

    rtol = 1e-7


class MissionModel:
    def __init__(self, plan):
        self.plan, self.spec = plan, plan["variants"][0]
        self.prob = missions.build_problem(self.spec)

    def options(self, v):
        self.spec = self.plan["variants"][v]
        m = self.prob.model._static_subsystems_allprocs["m"].system
        m.options["num_nodes"] = self.spec["nn"]
        m.options["aircraft_model"] = missions.aircraft(self.spec["ac"])
        if "transition" in self.spec:
            m.options["transition_method"] = self.spec["transition"]
        if self.spec["profile"] == "basic":
            m.options["include_ground_roll"] = bool(self.spec.get("ground_roll"))

    def setup(self):
        forget(self.prob)
        missions.setup(self.prob)

    def result(self, v, s, what):
        d = self.plan["designs"][v]
        missions.restore_guesses(self.prob, self.spec, d)
        self.prob.run_model()
        out = answers(self.prob)
        if what == "tot":
            N = missions.Names(self.spec)
            J = self.prob.compute_totals(of=[N("descent.fuel_used_final")], wrt=["ac|weights|MTOW"])
            out.update({"d %s / d %s" % k: np.array(x) for k, x in J.items()})
        return out

    rtol = 1e-5


KIND = {"cat": Cat, "traj": TrajModel, "mission": MissionModel}


def reference(plan, v, s, what):
    """A newly created object with variant v's options."""
    q = dict(plan, variants=[plan["variants"][v]], designs=[plan["designs"][v]] if "designs" in plan else None, meta=[plan["meta"][v]] if "meta" in plan else None)
    m = KIND[plan["kind"]](q)
    try:
        m.setup()
    except Exception as e:
        return "setup", "%s: %s" % (type(e).__name__, str(e)[:150])
    st, de = structure(m.prob), declared(m.prob)
    try:
        return "ok", st, de, ("val", m.result(0, s, what))
    except Exception as e:
        return "ok", st, de, ("exc", type(e).__name__)


class P07(Check):
    id = "P07"
    runs = {"quick": 450, "thorough": 15000}
    min_runs = {"quick": 100, "thorough": 1000}
    wall = {"quick": 62, "thorough": 3000}
    rule = ("a run = one library component or group (every class with its option variants and lengths), one trajectory of linked phases or one mission profile, taken through a seeded sequence of option "
            "changes, setups, setups that fail at a seeded source line of the library, setups with an invalid option and runs; after every successful setup variables, units, connections, declared values, "
            "results and derivatives are compared with a newly created object; distinct = different (class or structure, variants, sequence of operation kinds)")
    assumptions = ["options are changed through the option dictionaries; equations given by method calls before setup stay as they are"]
    real = ["openconcept components and groups (all importable classes)", "PhaseGroup, IntegratorGroup, TrajectoryGroup, mission profiles", "OpenMDAO 3.39"]
    stubs = ["vehicle model of synthetic trajectories", "jet engine of the simulated twin jet", "setup failures: raised by a trace function at a seeded source line"]

    def warm(self):
        import openmdao.api  # noqa

        catalog.ensure_caches()
        self.specs = [s for s in fork_call(catalog.all_specs)[1] if s["cls"] not in catalog.HEAVY]
        catalog.discover()
        self.by_cls = {}
        for s in self.specs:
            self.by_cls.setdefault(s["cls"], []).append(s)
        self.classes = sorted(self.by_cls)

    # -- plans --------------------------------------------------------------------------------------------------------------
    def gen(self, rng, tier, idx):
        r = rng.random()
        if r < 0.5 or idx < len(self.classes):
            cls = self.classes[idx] if idx < len(self.classes) else rng.choice(self.classes)
            k = 1 if cls.startswith(STATEFUL_CTOR) else 2 if slow_spec(self.by_cls[cls][0]) else rng.choice([2, 3])
            plan = {"kind": "cat", "variants": [dict(rng.choice(self.by_cls[cls]), nn=rng.choice([1, 2, 3, 5])) for _ in range(k)]}
            if rng.random() < 0.05 and idx >= len(self.classes):
                nn, ts = rng.randint(1, 4), rng.choice(["dt", "duration", "bounds"])
                plan["variants"] = [{"cls": "tunable:Integrator", "nn": nn, "kw": {"method": m, "time_setup": ts}} for m in rng.sample(["simpson", "bdf3"], 2)]
        elif r < 0.85:
            a = traj.gen_spec(rng)
            vs = [a]
            if a["style"] == "setup":
                while len(vs) < rng.choice([2, 3]):
                    b = traj.gen_spec(rng) if rng.random() < 0.4 else self.vary(rng, vs[0])
                    vs.append(dict(b, where=a["where"], solver=a["solver"], style="setup"))
            plan = {"kind": "traj", "variants": vs}
        else:
            a = missions.gen_spec(rng, profiles=("basic", "basic", "reserve", "full", "fullres"), kinds=("jet", "jet", "jet", "jet", "twin", "single", "elec", "hybrid"), nns=(3, 3, 5))
            vs = [a]
            for _ in range(rng.choice([1, 1, 2])):
                b = copy.deepcopy(a)
                b["nn"] = rng.choice([3, 3, 5, 7])
                b["ac"]["fuel"] = rng.choice(["integ", "og"])
                if "transition" in b:
                    b["transition"] = rng.choice(["simplified", "ode"])
                if "ground_roll" in b:
                    b["ground_roll"] = rng.random() < 0.5
                vs.append(b)
            plan = {"kind": "mission", "variants": vs, "designs": [missions.gen_design(rng, x) for x in vs]}
        n = len(plan["variants"])
        ops, cur = [], 0
        for i in range(rng.randint(2, 4) if plan["kind"] != "mission" else rng.randint(2, 3)):
            if i and rng.random() < 0.6:
                cur = rng.randrange(n)
            if i:
                ops.append({"op": "options", "v": cur})
                q = rng.random()
                if q < 0.35:
                    ops.append({"op": "failing setup", "at": rng.random(), "exc": rng.choice(SETUP_EXC)})
                    if rng.random() < 0.4:  # another attempt, with other options first
                        c2 = rng.randrange(n)
                        ops += [{"op": "options", "v": c2}, {"op": "setup"}, {"op": "options", "v": cur}]
                elif q < 0.5 and plan["kind"] != "cat":
                    ops.append({"op": "invalid option"})
                    ops.append({"op": "options", "v": cur})
            ops.append({"op": "setup"})
            for _ in range(rng.choice([0, 1, 1, 2])):
                ops.append({"op": "run", "s": rng.randrange(3), "what": rng.choice(["run", "part", "tot"])})
            if rng.random() < 0.15:
                ops.append({"op": "interrupted run", "s": rng.randrange(3), "at": rng.random(), "exc": rng.choice(SETUP_EXC)})
            if rng.random() < 0.3:
                ops.append({"op": "setup"})
        if ops[-1]["op"] != "run":
            ops.append({"op": "run", "s": 0, "what": "tot"})
        if plan["variants"][0].get("cls", "").startswith("tunable:"):
            for o in ops:  # its derivatives refuse (with an error) a rule that was changed after the equations were given
                o.update({"what": "run"} if o["op"] == "run" else {})
        plan["ops"] = ops
        plan["s"] = rng.getrandbits(32)
        return plan

    @staticmethod
    def vary(rng, a):
        """A relative of trajectory a: a phase less, links changed, other node counts, a state less."""
        b = copy.deepcopy(a)
        for _ in range(rng.randint(1, 2)):
            k = rng.randrange(4)
            if k == 0 and len(b["phases"]) > 1:
                i = rng.randrange(len(b["phases"]))
                del b["phases"][i]
                b["links"] = [dict(x, a=x["a"] - (x["a"] > i), b=x["b"] - (x["b"] > i)) for x in b["links"] if i not in (x["a"], x["b"])]
            elif k == 1 and b["links"]:
                del b["links"][rng.randrange(len(b["links"]))]
            elif k == 2:
                p = rng.choice(b["phases"])
                p["nn"] = p["nn"] + 2 * rng.choice([1, 2])
            else:
                p = rng.choice(b["phases"])
                bl = rng.choice(p["blocks"])
                if len(bl["states"]) > 1:
                    bl["states"] = bl["states"][:-1]
                    bl["B"] = [r[:-1] for r in bl["B"][:-1]]
        return b

    # -- execution ----------------------------------------------------------------------------------------------------------
    def run(self, plan, log):
        kind = plan["kind"]
        if kind == "cat":
            meta, vs = [], []
            for v in plan["variants"]:
                r = fork_call(catalog.build_spec, dict(v), v["nn"])
                if r[0] != "ok":
                    log.count("probe:unbuildable")
                    return []
                spec, mt, _ = r[1]
                if spec["mode"] == "newton" and slow_spec(spec):
                    spec["mode"] = "explicit"
                vs.append(spec)
                meta.append(mt)
            plan = dict(plan, variants=vs, meta=meta)
        name = plan["variants"][0]["cls"].split(":")[1] if kind == "cat" else "trajectory" if kind == "traj" else plan["variants"][0]["profile"]
        seeds = [(plan["s"] + i) % 2**32 for i in range(3)]
        refs = {}

        def ref(v, s, what):
            k = (v, s, what)
            if k not in refs:
                r = fork_call(reference, plan, v, s, what)
                if r[0] != "ok":
                    raise HarnessError("reference failed: %r" % (r,))
                refs[k] = r[1]
            return refs[k]

        # all reference answers first, from this still pristine process
        cur, fresh_ok = 0, True
        for o in plan["ops"]:
            if o["op"] == "options":
                cur = o["v"]
            elif o["op"] == "setup":
                ref(cur, seeds[0], "run")
            elif o["op"] == "run":
                ref(cur, seeds[o["s"]], o["what"])
        if any(r[0] == "setup" for r in refs.values()):
            log.count("probe:a variant cannot be set up at all")
            return []
        m = KIND[kind](plan)
        cur, ready, hist, n = 0, False, [], 0

        def bad(k, msg):
            return [dict(kind=k, where=name, msg="%s: %s [%s; %s]" % (name, msg, "/".join(hist[-6:]), json.dumps(plan["variants"][cur])[:120] if kind == "cat" else ""))]

        for i, o in enumerate(plan["ops"]):
            op = o["op"]
            hist.append(op + (str(o["v"]) if op == "options" else ""))
            if op == "options":
                cur, ready = o["v"], False
                m.options(cur)
            elif op == "invalid option":
                ready = False
                if kind == "mission":
                    m.prob.model._static_subsystems_allprocs["m"].system.options["num_nodes"] = 4
                else:
                    s = copy.deepcopy(m.spec)
                    s["links"] = s["links"] + [{"a": 0, "b": 0, "skip": None, "skip_keys": []}]
                    s["phases"][-1]["nn"] = 4
                    m.plan = dict(plan, variants=[s])
                    m.options(0)
                    m.plan = plan
                try:
                    m.setup()
                    log.count("probe:invalid option accepted")
                except Exception as e:
                    log.count("fault:setup with an invalid option")
                    log.ev(i, op, type(e).__name__)
            elif op == "failing setup":
                ready = False
                c = fork_call(self.count, m.setup)
                lines = c[1] if c[0] == "ok" else 0
                if not lines:
                    continue
                with LineFault(1 + int(o["at"] * lines) % lines, o["exc"]) as lf:
                    try:
                        m.setup()
                    except BaseException as e:  # noqa
                        log.ev(i, op, lf.fired, type(e).__name__)
                if lf.fired:
                    log.count("fault:%s while setting up" % o["exc"])
            elif op == "setup":
                try:
                    m.setup()
                except Exception as e:
                    return bad("setting up again fails", "%s: %s" % (type(e).__name__, str(e)[:300]))
                ready = True
                r = ref(cur, seeds[0], "run")
                d = sdiff(r[1], structure(m.prob))
                if d:
                    return bad("setting up again gives another model", d)
                d = dict_differ(r[2], declared(m.prob), 0.0)
                if d:
                    return bad("setting up again gives other declared values", "%s is %s" % d)
                n += 1
                log.ev(i, op, "same")
            elif op == "interrupted run" and ready:
                c = fork_call(self.count, lambda: m.result(cur, seeds[o["s"]], "tot"))
                if c[0] != "ok" or not c[1]:
                    continue
                with LineFault(1 + int(o["at"] * c[1]) % c[1], o["exc"]) as lf:
                    try:
                        m.result(cur, seeds[o["s"]], "tot")
                    except BaseException:  # noqa
                        pass
                if lf.fired:
                    log.count("fault:%s while running" % o["exc"])
            elif op == "run" and ready:
                try:
                    g = ("val", m.result(cur, seeds[o["s"]], o["what"]))
                except Exception as e:
                    g = ("exc", type(e).__name__, str(e)[:200])
                r = ref(cur, seeds[o["s"]], o["what"])[3]
                if g[0] == "exc" or r[0] == "exc":
                    if g[0] != r[0]:
                        return bad("results differ after setting up again", "the outcome is %s instead of %s" % (g[1:] if g[0] == "exc" else "an answer", r[1] if r[0] == "exc" else "an answer"))
                    continue
                d = dict_differ(r[1], g[1], m.rtol) if kind == "cat" else close(r[1], g[1], m.rtol)
                log.count("answers compared")
                log.ev(i, op, o["what"], "same" if not d else d)
                if d:
                    return bad("results differ after setting up again", "%s is %s" % (d[0], d[1]))
        log.count("setups compared", n)
        if n > 1:
            log.shape((kind, name, [(v.get("kw"), v.get("nn")) if kind == "cat" else v for v in plan["variants"]], hist))
        return []

    @staticmethod
    def count(fn):
        with LineFault(None) as lf:
            try:
                fn()
            except BaseException:  # noqa
                pass
        return lf.n

    def shrink(self, plan):
        ops = plan["ops"]
        n = len(ops)
        step = max(1, n // 2)
        while step >= 1:
            for i in range(0, n, step):
                yield dict(plan, ops=ops[:i] + ops[i + step:])
            step //= 2
        for i, o in enumerate(ops):
            if o["op"] == "run" and o["what"] != "run":
                yield dict(plan, ops=ops[:i] + [dict(o, what="run")] + ops[i + 1:])


CHECK = P07()
