"""Synthetic trajectories: random nests of phases, integrators and linked states around a small rate model whose rates are
affine in the integrated states (so that phases couple and need a solver), with seams for faults inside the model.

A trajectory spec is JSON:
 where    "top" (the TrajectoryGroup is the model), "sub" or "deep"
 style    "setup" (phases and links created in setup), "static" (created before setup), "mixed" (phases before, links in setup)
 phases   [{name, nn, dur, dur_units, blocks: [block]}]
 links    [{a, b, skip: [names] or None}]
 solver   "newton" | "phase" (a Newton solver in each phase) | "gs"
 block    {name, kind: "integ"|"og", prom, sub, method, states: [{name, units, rate, base: [...], init, start, end, prom}], B: [[...]]}
"""
import numpy as np

import openmdao.api as om
from openconcept.mission.mission_groups import IntegratorGroup, PhaseGroup, TrajectoryGroup
from openconcept.utilities import Integrator

UNITS = {"mass": ["kg", "lbm", "g"], "len": ["m", "km", "ft"], "temp": ["degK"], "none": [None], "energy": ["J", "kJ", "MJ"], "speed": ["m/s", "kn"]}
DUR_UNITS = {"s": 1.0, "min": 60.0, "h": 3600.0}


class Fault:
    """Seam inside the synthetic model: at the n-th evaluation of any rate component raise an error or return garbage."""

    at = None
    n = 0
    exc = None
    fired = 0


class Rates(om.ExplicitComponent):
    def initialize(self):
        self.options.declare("nn")
        self.options.declare("rates")  # list of (rate name, rate units, tags)
        self.options.declare("states")  # list of (name, units)
        self.options.declare("B")  # d rate_r / d state_j

    def setup(self):
        nn = self.options["nn"]
        ar = np.arange(nn)
        B = self.options["B"]
        for s, u in self.options["states"]:
            self.add_input("in_" + s, val=np.zeros(nn), units=u)
        for r, (name, u, tags) in enumerate(self.options["rates"]):
            self.add_input("base_" + name, val=np.zeros(nn), units=u)
            self.add_output(name, val=np.zeros(nn), units=u, tags=tags)
            self.declare_partials(name, "base_" + name, rows=ar, cols=ar, val=1.0)
            for j, (s, _) in enumerate(self.options["states"]):
                if B[r][j]:
                    self.declare_partials(name, "in_" + s, rows=ar, cols=ar, val=B[r][j])

    def compute(self, inputs, outputs):
        Fault.n += 1
        if Fault.at is not None and Fault.n == Fault.at:
            Fault.fired += 1
            if Fault.exc == "nan":
                for name, _, _ in self.options["rates"]:
                    outputs[name] = np.nan
                return
            from .crash import exc_type

            raise exc_type(Fault.exc)("injected fault in the vehicle model")
        B = self.options["B"]
        for r, (name, _, _) in enumerate(self.options["rates"]):
            v = inputs["base_" + name].copy()
            for j, (s, _) in enumerate(self.options["states"]):
                if B[r][j]:
                    v += B[r][j] * inputs["in_" + s]
            outputs[name] = v


def rate_units(u, tu="s"):
    return "1/%s" % tu if u is None else "%s/%s" % (u, tu)


def make_rates(nn, b, tags=False):
    rates = []
    for s in b["states"]:
        tg = None
        if tags:
            tg = ["integrate", "state_name:" + s["name"], "state_val:%r" % s.get("val", 0.0)]
            if s["units"] is not None:
                tg.append("state_units:" + s["units"])
            if s.get("prom"):
                tg.append("state_promotes:True")
            for q in ("lower", "upper"):
                if q in s:
                    tg.append("state_%s:%r" % (q, s[q]))
        rates.append((s["rate"], rate_units(s["units"]), tg))
    return Rates(nn=nn, rates=rates, states=[(s["name"], s["units"]) for s in b["states"]], B=b["B"])


class IntegBlock(om.Group):
    def initialize(self):
        self.options.declare("nn")
        self.options.declare("b")

    def setup(self):
        b, nn = self.options["b"], self.options["nn"]
        self.add_subsystem("r", make_rates(nn, b))
        integ = Integrator(num_nodes=nn, method=b.get("method", "simpson"), diff_units="s", time_setup="duration")
        self.add_subsystem("i", integ, promotes_inputs=["duration"] if b.get("pdur") else [])
        for s in b["states"]:
            integ.add_integrand(s["name"], rate_name=s["rate"], start_name=s.get("start"), end_name=s.get("end"), units=s["units"], val=s.get("val", 0.0),
                                **{k: s[k] for k in ("lower", "upper") if k in s})
            self.connect("r." + s["rate"], "i." + s["rate"])
            self.connect("i." + s["name"], "r.in_" + s["name"])


class OdeBlock(IntegratorGroup):
    def initialize(self):
        super().initialize()
        self.options.declare("b")

    def setup(self):
        b, nn = self.options["b"], self.options["num_nodes"]
        self.add_subsystem("r", make_rates(nn, b, tags=True))
        for s in b["states"]:
            self.connect(s["name"] if s.get("prom") else "ode_integ." + s["name"], "r.in_" + s["name"])


class Sub(om.Group):
    def initialize(self):
        self.options.declare("nn")
        self.options.declare("b")

    def setup(self):
        b = self.options["b"]
        add_block(self, b, self.options["nn"], b["prom"])


def add_block(group, b, nn, prom):
    if b["kind"] == "og":
        g = OdeBlock(num_nodes=nn, b=b)
        # states that the group promotes climb to the phase
        group.add_subsystem(b["name"], g, promotes_outputs=[s["name"] for s in b["states"] if s.get("prom")] if prom else [])
    else:
        g = IntegBlock(nn=nn, b=b)
        group.add_subsystem(b["name"], g)


class Phase(PhaseGroup):
    def initialize(self):
        super().initialize()
        self.options.declare("spec")
        self.options.declare("own_solver", default=False)

    def setup(self):
        p = self.options["spec"]
        iv = self.add_subsystem("const", om.IndepVarComp(), promotes_outputs=["*"])
        iv.add_output("duration", val=p["dur"], units=p["dur_units"])
        for b in p["blocks"]:
            if b.get("sub"):
                self.add_subsystem(b["sub"], Sub(nn=p["nn"], b=b), promotes_outputs=[s["name"] for s in b["states"] if s.get("prom")] if b["prom"] and b["kind"] == "og" else [])
            else:
                add_block(self, b, p["nn"], b["prom"])
        if self.options["own_solver"]:
            self.nonlinear_solver = newton()
            self.linear_solver = om.DirectSolver(assemble_jac=False)


def newton(**kw):
    s = om.NewtonSolver(solve_subsystems=True, maxiter=20, atol=1e-11, rtol=1e-12, iprint=-1, **kw)
    s.options["err_on_non_converge"] = True
    return s


class Traj(TrajectoryGroup):
    """Phases and links come from the 'spec' option, in one of three styles."""

    def initialize(self):
        super().initialize()
        self.options.declare("spec", default=None)

    def __init__(self, **kw):
        super().__init__(**kw)
        spec = self.options["spec"]
        self._made = {}
        if spec["style"] != "setup":
            self.make_phases(spec)
        if spec["style"] == "static":
            self.make_links(spec)

    def make_phases(self, spec):
        for p in spec["phases"]:
            self._made[p["name"]] = self.add_subsystem(p["name"], Phase(num_nodes=p["nn"], spec=p, own_solver=spec["solver"] == "phase"))

    def make_links(self, spec):
        for ln in spec["links"]:
            a, b = self._made[spec["phases"][ln["a"]]["name"]], self._made[spec["phases"][ln["b"]]["name"]]
            if ln["skip"] is None:
                self.link_phases(a, b)
            else:
                self.link_phases(a, b, states_to_skip=list(ln["skip"]))

    def setup(self):
        spec = self.options["spec"]
        if spec["style"] == "setup":
            self.make_phases(spec)
        if spec["style"] != "static":
            self.make_links(spec)


class Deep(om.Group):
    def initialize(self):
        self.options.declare("spec")

    def setup(self):
        self.add_subsystem("traj", Traj(spec=self.options["spec"]))


PREFIX = {"top": "", "sub": "traj.", "deep": "outer.traj."}


def build_model(spec):
    if spec["where"] == "top":
        model = Traj(spec=spec)
    elif spec["where"] == "sub":
        model = om.Group()
        model.add_subsystem("traj", Traj(spec=spec))
    else:
        model = om.Group()
        model.add_subsystem("outer", Deep(spec=spec))
    if spec["solver"] == "newton":
        model.nonlinear_solver = newton()
        model.linear_solver = om.DirectSolver(assemble_jac=False)
    elif spec["solver"] == "gs":
        model.nonlinear_solver = om.NonlinearBlockGS(maxiter=60, atol=1e-8, rtol=1e-300, iprint=-1, reraise_child_analysiserror=True)
        model.nonlinear_solver.options["err_on_non_converge"] = True
        model.linear_solver = om.DirectSolver(assemble_jac=False)
    return model


def build_problem(spec):
    p = om.Problem(build_model(spec), reports=False)
    return p


def block_path(b):
    return (b["sub"] + "." if b.get("sub") else "") + b["name"]


def state_paths(spec):
    """[(phase index, key, {x, initial, final, rate, base, units, block})] with absolute names; key identifies the state inside
    its phase (two phases share a state when it has the same key)."""
    out = []
    pre = PREFIX[spec["where"]]
    for i, p in enumerate(spec["phases"]):
        for b in p["blocks"]:
            bp = block_path(b)
            integ = bp + (".ode_integ." if b["kind"] == "og" else ".i.")
            for s in b["states"]:
                base = pre + p["name"] + "."
                out.append((i, integ + s["name"], dict(
                    x=base + integ + s["name"], initial=base + integ + (s.get("start") or s["name"] + "_initial"),
                    final=base + integ + (s.get("end") or s["name"] + "_final"), rate=base + bp + ".r." + s["rate"], base=base + bp + ".r.base_" + s["rate"],
                    units=s["units"], s=s, b=b, part=bp + "." + s["name"] if s.get("prom") and b["kind"] == "og" and not b["prom"] else None, prom=s["name"] if (s.get("prom") and b["prom"] and b["kind"] == "og") else None)))
    return out


def set_design(prob, spec, rng):
    """Draw rates, initial values and durations (in declared units)."""
    own = {}
    for i, key, d in state_paths(spec):
        p = spec["phases"][i]
        nn = p["nn"]
        s = np.linspace(0, 1, nn)
        c = [rng.uniform(-3, 3) for _ in range(3)]
        v = c[0] + c[1] * s + c[2] * s * s
        if rng.random() < 0.5 and nn > 1:
            v = v + (s >= rng.random()) * rng.uniform(-5, 5)  # an abrupt event along the flight
        prob.set_val(d["base"], v)
        x0 = rng.uniform(-4, 4) if rng.random() < 0.8 else 0.0
        own[(i, key)] = x0
        try:
            prob.set_val(d["initial"], x0)
        except Exception:  # e.g. the input is connected to a constant: the link wins
            pass
    pre = PREFIX[spec["where"]]
    for p in spec["phases"]:
        prob.set_val(pre + p["name"] + ".const.duration", rng.uniform(0.5, 3.0) / DUR_UNITS[p["dur_units"]])
    return own


def gen_spec(rng, max_phases=4, where=None, small=False):
    """Draw a trajectory."""
    nph = rng.randint(1, max_phases)
    templates = []
    # names that contain each other, equal last names in different blocks
    pool = rng.choice([["m", "m2", "mass", "m|a", "ma"], ["soc", "soc_b", "SOC", "so", "s"], ["h", "fltcond|h", "h|x", "hx", "fltcond|h2"], ["fuel_used", "fuel", "fuel_used2", "used", "fu"]])
    bnames = rng.choice([["b0", "b1", "b2"], ["b", "bb", "b1"], ["acmodel", "ac", "acmodel2"]])
    taken = set()
    for t in range(rng.randint(1, 2 if small else 3)):
        kind = rng.choice(["integ", "og"])
        ns = rng.randint(1, 3)
        dims = [rng.choice(["mass", "len", "none", "energy", "speed"]) for _ in range(ns)]
        states = []
        bprom = rng.random() < 0.6
        for k, n in enumerate(rng.sample(pool, ns)):
            st = {"name": n, "rate": rng.choice([n + "_rate", "d" + n]), "prom": kind == "og" and rng.random() < 0.6 and not (bprom and n in taken), "dim": dims[k]}
            if st["prom"] and bprom:
                taken.add(n)
            if kind == "og":
                st["val"] = rng.choice([0.0, 1.0, 2.5])
            else:
                st["val"] = rng.choice([0.0, 1.0])
                if rng.random() < 0.3:
                    st["start"] = n + "0"
                    st["end"] = n + "End"
            if rng.random() < 0.15:
                st.update(rng.choice([{"lower": 0.0}, {"upper": 1.0}, {"lower": rng.uniform(-5, 0), "upper": rng.uniform(0, 5)}]))
            states.append(st)
        B = [[0.0] * ns for _ in range(ns)]
        if rng.random() < 0.6:
            for r in range(ns):
                for j in range(ns):
                    if rng.random() < 0.5:
                        B[r][j] = rng.choice([-0.3, 0.2, 0.1, -0.1])
        templates.append({"name": bnames[t], "kind": kind, "prom": bprom, "sub": rng.choice([None, None, "g%d" % t]),
                          "method": rng.choice(["simpson", "simpson", "bdf3"]), "pdur": rng.random() < 0.4, "states": states, "B": B})
        if templates[-1]["sub"]:
            templates[-1]["pdur"] = False
    names = rng.sample(["climb", "cruise", "descent", "p1", "p11", "v0v1", "loiter", "cl", "climb2", "taxi"], nph)
    phases = []
    for i in range(nph):
        bl = []
        for t in templates:
            if rng.random() < 0.8 or not bl and t is templates[-1]:
                b = dict(t, states=[dict(s, units=rng.choice(UNITS[s["dim"]]) if rng.random() < 0.3 else UNITS[s["dim"]][0]) for s in t["states"]])
                if b["kind"] == "integ" and rng.random() < 0.2 and len(b["states"]) > 1:  # a phase may lack a state
                    b["states"] = b["states"][:-1]
                    b["B"] = [r[:-1] for r in b["B"][:-1]]
                bl.append(b)
        nn = 2 * rng.randint(1, 5) + 1
        if any(b["kind"] == "integ" and b["method"] == "bdf3" for b in bl):
            nn = max(nn, 5)
        phases.append({"name": names[i], "nn": nn, "dur": 1.0, "dur_units": rng.choice(["s", "s", "min", "h"]), "blocks": bl})
    spec = {"where": where or rng.choice(["top", "sub", "deep"]), "style": rng.choice(["setup", "static", "mixed"]), "phases": phases, "links": [],
            "solver": rng.choice(["newton", "newton", "phase", "gs"])}
    if spec["solver"] != "gs":  # Newton's line search would keep the states within their bounds
        for p in phases:
            for b in p["blocks"]:
                b["states"] = [{k: v for k, v in s.items() if k not in ("lower", "upper")} for s in b["states"]]
    keys = {}
    for i, key, d in state_paths(spec):
        keys.setdefault(i, {})[key] = d
    fed = {}  # phase -> keys already fed by a link
    for j in range(1, nph):
        preds = [j - 1] if rng.random() < 0.75 else sorted({rng.randrange(j), j - 1})
        if rng.random() < 0.1:
            continue
        for a in preds:
            shared = [k for k in keys[a] if k in keys[j]]
            must = [k for k in shared if k in fed.get(j, set())]
            sk = must + [k for k in shared if k not in must and rng.random() < 0.2]
            skip = []
            for k in sk:
                pr = keys[a][k]["prom"] or keys[a][k]["part"]
                skip.append(pr if pr and rng.random() < 0.6 else k)
            if rng.random() < 0.2:
                skip.append("no_such_state")
            fed.setdefault(j, set()).update(k for k in shared if k not in sk)
            handed = [k for k in shared if k not in sk]
            if len(handed) > 1 and rng.random() < 0.3:  # handed over in two calls, each skipping what the other carries
                cut = rng.randint(1, len(handed) - 1)
                rng.shuffle(handed)
                for part in (handed[:cut], handed[cut:]):
                    other = [k for k in handed if k not in part]
                    spec["links"].append({"a": a, "b": j, "skip": skip + other, "skip_keys": sk + other})
                continue
            spec["links"].append({"a": a, "b": j, "skip": skip if skip or rng.random() < 0.5 else None, "skip_keys": sk})
    rng.shuffle(spec["links"])
    return spec


def feeds(spec):
    """{(phase, key): source phase} of every handed-over state."""
    keys = {}
    for i, key, d in state_paths(spec):
        keys.setdefault(i, {})[key] = d
    out = {}
    for ln in spec["links"]:
        for k in keys.get(ln["a"], {}):
            if k in keys.get(ln["b"], {}) and k not in ln["skip_keys"]:
                out[(ln["b"], k)] = ln["a"]
    return out


CONV = {"kg": 1.0, "lbm": 0.45359237, "g": 1e-3, "m": 1.0, "km": 1000.0, "ft": 0.3048, "degK": 1.0, None: 1.0, "J": 1.0, "kJ": 1e3, "MJ": 1e6, "m/s": 1.0, "kn": 1852.0 / 3600.0}


def snapshot(prob, spec):
    """Everything the invariants need, read from the live model: {(phase, key): dict}, {phase: duration in s}."""
    pre = PREFIX[spec["where"]]
    out = {}
    for i, key, d in state_paths(spec):
        out[(i, key)] = dict(x=np.array(prob.get_val(d["x"])), x0=float(np.ravel(prob.get_val(d["initial"]))[0]), xf=float(np.ravel(prob.get_val(d["final"]))[0]),
                             rate=np.array(prob.get_val(d["rate"])), units=d["units"], method="simpson" if d["b"]["kind"] == "og" else d["b"]["method"])
    dur = {i: float(np.ravel(prob.get_val(pre + p["name"] + ".const.duration"))[0]) * DUR_UNITS[p["dur_units"]] for i, p in enumerate(spec["phases"])}
    return out, dur


def simpson(rate, T):
    """Integral from the first node of the parabola through each pair of intervals."""
    n = len(rate)
    q = np.zeros(n)
    h = T / (n - 1)
    for i in range(0, n - 1, 2):
        a, b, c = rate[i], rate[i + 1], rate[i + 2]
        q[i + 1] = q[i] + h / 12.0 * (5 * a + 8 * b - c)
        q[i + 2] = q[i] + h / 3.0 * (a + 4 * b + c)
    return q


def bdf3(rate, T):
    """Solution of the third-order backward-difference equations with third-order start-up stencils."""
    n = len(rate)
    h = T / (n - 1)
    A = np.zeros((n, n))
    r = np.zeros(n)
    A[0, 0] = 1.0
    A[1, 0:4] = [-1 / 3, -1 / 2, 1.0, -1 / 6]
    A[2, 0:4] = [1 / 6, -1.0, 1 / 2, 1 / 3]
    r[1:] = h * np.asarray(rate)[1:]
    for i in range(3, n):
        A[i, i - 3:i + 1] = [-1 / 3, 3 / 2, -3.0, 11 / 6]
    return np.linalg.solve(A, r)


def quad(method, rate, T):
    if len(rate) == 1:
        return np.zeros(1)
    return bdf3(rate, T) if method == "bdf3" else simpson(rate, T)


def check_links(snap, spec, own, rtol=1e-9):
    """P09 on one converged snapshot."""
    fd = feeds(spec)
    bad = []
    for (i, key), v in snap.items():
        name = "%s.%s" % (spec["phases"][i]["name"], key)
        scale = max(1e-6, np.max(np.abs(v["x"])))
        if (i, key) in fd:
            a = fd[(i, key)]
            src = snap[(a, key)]
            want = src["x"][-1] * CONV[src["units"]] / CONV[v["units"]]
            scale = max(scale, abs(want))
            if abs(v["x"][0] - want) > rtol * scale:
                bad.append(("jump in a linked state", name, "%s starts at %.10g but %s ended at %.10g" % (name, v["x"][0], spec["phases"][a]["name"], want)))
        else:
            want = own[(i, key)]
            scale = max(scale, abs(want))
            if abs(v["x"][0] - want) > rtol * scale:
                bad.append(("unlinked state lost its own initial value", name, "%s starts at %.10g instead of its own %.10g" % (name, v["x"][0], want)))
        if not abs(v["xf"] - v["x"][-1]) <= rtol * scale:
            bad.append(("final value differs from the last node", name, "%s final %.10g, last node %.10g" % (name, v["xf"], v["x"][-1])))
    return bad


def check_integrals(snap, dur, spec, rtol=1e-7, left=0.0):
    """P10 on one converged snapshot; left = norm of what block Gauss-Seidel left in the residuals (the histories lag the rates by that)."""
    bad = []
    for (i, key), v in snap.items():
        name = "%s.%s" % (spec["phases"][i]["name"], key)
        want = v["x0"] + quad(v["method"], v["rate"], dur[i])
        scale = max(1e-6, np.max(np.abs(want)), np.max(np.abs(v["rate"])) * dur[i])
        d = np.abs(v["x"] - want)
        if not np.max(d) <= rtol * scale + 10 * left:
            k = int(np.nanargmax(d)) if np.isfinite(d).any() else 0
            bad.append(("history is not the integral of its rate", name, "%s node %d is %.10g, the integral of the reported rate gives %.10g" % (name, k, v["x"][k], want[k])))
        if not abs(v["xf"] - v["x"][-1]) <= rtol * scale:
            bad.append(("final value differs from the last node", name, "%s final %.10g, last node %.10g" % (name, v["xf"], v["x"][-1])))
    return bad
