"""Drag-polar surrogates (vortex lattice and aerostructural) under simulated training pools.

The flow solvers themselves run for real on small wings, or are replaced by light components with the same interface (documented
inputs, outputs and options of VLM and Aerostruct) so that many schedules and larger grids can be explored."""
import copy
import math
import random

import numpy as np
import openmdao.api as om

from .pool import Sched

V_IN = {"ac|geom|wing|OAS_mesh": "m", "ac|geom|wing|toverc": None, "fltcond|TempIncrement": "degC"}
A_IN = {"ac|geom|wing|S_ref": "m**2", "ac|geom|wing|AR": None, "ac|geom|wing|taper": None, "ac|geom|wing|c4sweep": "deg", "ac|geom|wing|twist": "deg", "ac|geom|wing|toverc": None,
        "ac|geom|wing|skin_thickness": "m", "ac|geom|wing|spar_thickness": "m", "ac|aero|CD_nonwing": None, "fltcond|TempIncrement": "degC"}
V_OUT = {"CL_train": "fltcond|CL", "CD_train": "fltcond|CD"}
A_OUT = {"CL_train": "fltcond|CL", "CD_train": "fltcond|CD", "failure_train": "failure", "W_wing": "ac|weights|W_wing"}


def modules():
    from openconcept.aerodynamics.openaerostruct import aerostructural, drag_polar

    return drag_polar, aerostructural


# ---- stand-ins ---------------------------------------------------------------------------------------------------------
def surf_number(surf):
    return sum((k + 1) * 0.01 * float(np.sum(np.asarray(v, dtype=float))) for k, (_, v) in enumerate(sorted((surf or {}).items())))


class FakeAero(om.ExplicitComponent):
    """Smooth stand-in: monotone in the angle of attack, every input matters, no two flight conditions agree."""

    def initialize(self):
        self.options.declare("inputs")
        self.options.declare("surf")
        self.options.declare("extra", default=False)

    def setup(self):
        for n, (shape, units) in self.options["inputs"].items():
            self.add_input(n, shape=shape, units=units, val=np.full(shape, 0.1))
        for n, u in (("fltcond|alpha", "deg"), ("fltcond|M", None), ("fltcond|h", "m")):
            self.add_input(n, units=u, val=0.1)
        for o in ["fltcond|CL", "fltcond|CD"] + (["failure"] if self.options["extra"] else []):
            self.add_output(o)
            self.declare_partials(o, "*")
        if self.options["extra"]:
            self.add_output("ac|weights|W_wing", units="kg")
            self.declare_partials("ac|weights|W_wing", list(self.options["inputs"]))

    def size(self, inputs):
        s, d = 0.0, {}
        for k, n in enumerate(sorted(self.options["inputs"])):
            x = inputs[n].ravel()
            w = 0.002 * (k + 1) * np.cos(0.7 * np.arange(x.size) + k)
            s += float(np.dot(w, x))
            d[n] = w
        return s + surf_number(self.options["surf"]), d

    def f(self, s, a, M, h):
        e = math.exp(-h / 2e4)
        CL = 0.1 * (a + 1) * (1 + 0.3 * M) + 0.05 * math.tanh(s) + 0.02 * e
        dCL = dict(s=0.05 / math.cosh(s) ** 2, a=0.1 * (1 + 0.3 * M), M=0.03 * (a + 1), h=-0.02 * e / 2e4)
        CD = 0.02 + 0.001 * a * a + 0.01 * M * M * (1 + 0.1 * math.sin(s)) + 0.003 * e
        dCD = dict(s=0.001 * M * M * math.cos(s), a=0.002 * a, M=0.02 * M * (1 + 0.1 * math.sin(s)), h=-0.003 * e / 2e4)
        F = -0.5 + 0.02 * a * M + 0.1 * math.sin(s) - 0.1 * e
        dF = dict(s=0.1 * math.cos(s), a=0.02 * M, M=0.02 * a, h=0.1 * e / 2e4)
        W = 1000 * (2 + math.sin(s))
        return {"fltcond|CL": (CL, dCL), "fltcond|CD": (CD, dCD), "failure": (F, dF), "ac|weights|W_wing": (W, dict(s=1000 * math.cos(s)))}

    def all(self, inputs):
        s, d = self.size(inputs)
        return self.f(s, float(inputs["fltcond|alpha"][0]), float(inputs["fltcond|M"][0]), float(inputs["fltcond|h"][0])), d

    def compute(self, inputs, outputs):
        r, _ = self.all(inputs)
        for o in self._var_rel_names["output"]:
            outputs[o] = r[o][0]

    def compute_partials(self, inputs, J):
        r, d = self.all(inputs)
        for o in self._var_rel_names["output"]:
            g = r[o][1]
            for n in self.options["inputs"]:
                J[o, n] = g["s"] * d[n]
            if o != "ac|weights|W_wing":
                J[o, "fltcond|alpha"], J[o, "fltcond|M"], J[o, "fltcond|h"] = g["a"], g["M"], g["h"]


class FakeVLM(om.Group):
    def initialize(self):
        self.options.declare("num_x", default=2)
        self.options.declare("num_y", default=6)
        self.options.declare("surf_options", default=None)

    def setup(self):
        nx, ny = int(self.options["num_x"]), int(self.options["num_y"])
        ins = {"ac|geom|wing|OAS_mesh": ((nx + 1, ny + 1, 3), "m"), "ac|geom|wing|toverc": ((ny,), None), "fltcond|TempIncrement": ((1,), "degC")}
        self.add_subsystem("c", FakeAero(inputs=ins, surf=self.options["surf_options"]), promotes=["*"])


class FakeAerostruct(om.Group):
    def initialize(self):
        for n in ("num_x", "num_y", "num_twist", "num_toverc", "num_skin", "num_spar"):
            self.options.declare(n, default=2)
        self.options.declare("surf_options", default=None)

    def setup(self):
        o = self.options
        ins = {"ac|geom|wing|S_ref": ((1,), "m**2"), "ac|geom|wing|AR": ((1,), None), "ac|geom|wing|taper": ((1,), None), "ac|geom|wing|c4sweep": ((1,), "deg"),
               "ac|geom|wing|twist": ((o["num_twist"],), "deg"), "ac|geom|wing|toverc": ((o["num_toverc"],), None), "ac|geom|wing|skin_thickness": ((o["num_skin"],), "m"),
               "ac|geom|wing|spar_thickness": ((o["num_spar"],), "m"), "fltcond|TempIncrement": ((1,), "degC")}
        surf = dict(o["surf_options"] or {}, _nx=float(o["num_x"]), _ny=float(o["num_y"]))
        self.add_subsystem("c", FakeAero(inputs=ins, surf=surf, extra=True), promotes=["*"])
        pt = self.add_subsystem("aerostruct_point", om.Group())
        co = pt.add_subsystem("coupled", om.Group())
        co.nonlinear_solver = om.NonlinearBlockGS()


def prepare(plan):
    """Seams of one run: solver stand-ins, progress bar, scheduler."""
    d, a = modules()
    if plan["fake"]:
        d.VLM, a.Aerostruct = FakeVLM, FakeAerostruct
    for m in (d, a):
        if hasattr(m, "progress_bar"):
            m.progress_bar = bool(plan["bar"])
    Sched.cur = Sched(plan["sched"], plan["workers"], plan["lag"])
    return Sched.cur


# ---- configurations ----------------------------------------------------------------------------------------------------
SURF = {"vlm": [{}, {"k_lam": 0.1}, {"CL0": 0.02, "with_viscous": False}, {"c_max_t": 0.35}], "oas": [{}, {"CD0": 0.01}, {"CL0": 0.03, "k_lam": 0.2}]}


def surface_options(spec):
    """The dictionary as the user would write it (lists stand for arrays)."""
    return {k: np.array(v) if isinstance(v, list) else v for k, v in spec["surf"].items()}


def other_surface(rng, model, surf, fake):
    """Surface options that differ in one respect: another value, one array element, one more key, one key less."""
    b = dict(surf)
    r = rng.random()
    arrays = [k for k, v in b.items() if isinstance(v, list)]
    if r < 0.35 and arrays:
        k = rng.choice(arrays)
        b[k] = list(b[k])
        b[k][rng.randrange(len(b[k]))] += 0.05
    elif r < 0.55 and fake and "data_x_upper" not in b:
        b["data_x_upper"] = [0.1, 0.3, 0.6]
    elif r < 0.7 and b:
        b.pop(rng.choice(sorted(b)))
    elif r < 0.9:
        b[rng.choice(["CL0", "CD0", "k_lam"])] = rng.choice([0.01, 0.02, 0.04])
    else:
        b = dict(rng.choice(SURF[model]))
    return b



def grid(rng, n, lo, hi, dec):
    while True:
        v = sorted({round(rng.uniform(lo, hi), dec) for _ in range(n)})
        if len(v) == n:
            return v


def gen_spec(rng, fake, model=None, maxpts=None, level="gen"):
    model = model or rng.choice(["vlm", "vlm", "oas"])
    cap = maxpts or (24 if fake else 6 if model == "vlm" else 4)
    while True:
        n = [rng.choice([1, 1, 2, 2, 3, 4]) for _ in range(3)] if level == "gen" else [4, 4, 4]
        if level != "gen" or n[0] * n[1] * n[2] <= cap:
            break
    s = {"model": model, "level": level, "M": grid(rng, n[0], 0.15, 0.8, 2), "a": grid(rng, n[1], -4, 10, 1), "h": grid(rng, n[2], 0, 11000, 0)}
    s["nx"], s["ny"] = (rng.choice([1, 1, 2]), rng.choice([2, 3])) if not fake else (rng.choice([1, 2, 3]), rng.choice([2, 3, 4, 5]))
    s["surf"] = dict(rng.choice(SURF[model]))
    if fake and rng.random() < 0.35:
        s["surf"]["data_x_upper"] = [0.1, 0.3, 0.6]
    if model == "oas":
        s["n"] = {k: rng.choice([2, 3]) if fake else 2 for k in ("num_twist", "num_toverc", "num_skin", "num_spar")}
        if not fake:
            s["nx"], s["ny"] = 1, rng.choice([2, 3])
    if level == "polar":
        s["nn"] = rng.choice([1, 2, 3])
        if model == "vlm":
            s["geo"] = rng.choice(["trapezoidal", "trapezoidal", "section", "section", "mesh"])
            s["nsec"] = rng.choice([2, 3])
            if s["geo"] == "section" and rng.random() < 0.5:
                s["ny"] = [rng.choice([1, 2]) for _ in range(s["nsec"] - 1)]
            s["vec"] = rng.random() < 0.5
            s["ntw"] = rng.choice([2, 3, 4])
    return s


def wing(rng, spec):
    """Seeded values of the wing inputs of the data generator of a configuration."""
    out = {}
    if spec["model"] == "vlm":
        nx, ny = spec["nx"], spec["ny"]
        c, b = rng.uniform(1.5, 4), rng.uniform(5, 12)
        m = np.zeros((nx + 1, ny + 1, 3))
        for i in range(nx + 1):
            for j in range(ny + 1):
                y = -b * (1 - j / ny)
                m[i, j] = [c * i / nx * (1 + 0.05 * y / b) - 0.2 * y, y, 0.02 * rng.uniform(-1, 1)]
        out["ac|geom|wing|OAS_mesh"] = m
        out["ac|geom|wing|toverc"] = np.array([rng.uniform(0.08, 0.16) for _ in range(ny)])
    else:
        out["ac|geom|wing|S_ref"] = np.array([rng.uniform(50, 120)])
        out["ac|geom|wing|AR"] = np.array([rng.uniform(7, 12)])
        out["ac|geom|wing|taper"] = np.array([rng.uniform(0.2, 0.9)])
        out["ac|geom|wing|c4sweep"] = np.array([rng.uniform(0, 30)])
        n = spec["n"]
        out["ac|geom|wing|twist"] = np.array([rng.uniform(-2, 3) for _ in range(n["num_twist"])])
        out["ac|geom|wing|toverc"] = np.array([rng.uniform(0.09, 0.15) for _ in range(n["num_toverc"])])
        out["ac|geom|wing|skin_thickness"] = np.array([rng.uniform(0.004, 0.012) for _ in range(n["num_skin"])])
        out["ac|geom|wing|spar_thickness"] = np.array([rng.uniform(0.004, 0.012) for _ in range(n["num_spar"])])
        out["ac|aero|CD_nonwing"] = np.array([rng.uniform(0.005, 0.03)])
    out["fltcond|TempIncrement"] = np.array([rng.choice([0.0, rng.uniform(-20, 20)])])
    return out


def nudge(rng, spec, vals):
    """One input changed a little (what an optimiser does)."""
    out = {k: v.copy() for k, v in vals.items()}
    k = rng.choice(sorted(out))
    i = rng.randrange(out[k].size)
    out[k].flat[i] += rng.choice([1e-10, 1e-6, 1e-3, 0.05]) * (1.0 if abs(out[k].flat[i]) < 1e-9 else abs(out[k].flat[i]))
    return out


def values(spec, code):
    """code = [seed] or [seed, nudge seed, ...]"""
    rng = random.Random(code[0])
    v = wing(rng, spec)
    for c in code[1:]:
        v = nudge(random.Random(c), spec, v)
    return v


GIVEN = None  # a dict: training arrays and surface options are the caller's, one object per distinct value, given to every surrogate


def given(v):
    if GIVEN is None:
        return copy.deepcopy(v)
    return GIVEN.setdefault(repr(v), (v, copy.deepcopy(v)))[0]


def given_changed():
    return ["%s became %s" % (k[:100], repr(v)[:100]) for k, (v, _) in (GIVEN or {}).items() if repr(v) != k]


def arr(spec, k):
    return given(np.array(spec[k], dtype=float))


def component(spec):
    d, a = modules()
    kw = dict(num_x=spec["nx"], num_y=spec["ny"], Mach_train=arr(spec, "M"), alpha_train=arr(spec, "a"), alt_train=arr(spec, "h"), surf_options=given(surface_options(spec)))
    if spec["level"] == "polar":
        kw["num_nodes"] = spec["nn"]
        if spec["model"] == "vlm":
            kw["geometry"] = spec["geo"]
            kw["vec_CD_nonwing"] = spec["vec"]
            if spec["geo"] == "section":
                kw["num_sections"] = spec["nsec"]
            if spec["geo"] == "trapezoidal":
                kw["num_twist"] = spec["ntw"]
            return d.VLMDragPolar(**kw)
        return a.AerostructDragPolar(**kw, **spec["n"])
    if spec["model"] == "vlm":
        return d.VLMDataGen(**kw)
    return a.OASDataGen(**kw, **spec["n"])


def names(spec):
    ins = V_IN if spec["model"] == "vlm" else A_IN
    outs = V_OUT if spec["model"] == "vlm" else A_OUT
    return ins, outs


def build(specs):
    """One problem with one data generator (or drag polar) per configuration, unconnected to each other."""
    p = om.Problem(reports=False)
    for i, s in enumerate(specs):
        p.model.add_subsystem("g%d" % i, component(s))
    if any(s["level"] == "polar" for s in specs):
        n = p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=30, atol=1e-12, rtol=1e-13, iprint=-1)
        n.options["err_on_non_converge"] = False
        p.model.linear_solver = om.DirectSolver(assemble_jac=False)
    return p


def setup(p):
    p.setup()
    p.set_solver_print(level=-1)
    p.final_setup()


def put(p, i, spec, vals):
    ins, _ = names(spec)
    for n, v in vals.items():
        p.set_val("g%d.%s" % (i, n), v, units=ins[n])


def tables(p, i, spec):
    _, outs = names(spec)
    return {o: np.array(p.get_val("g%d.%s" % (i, o))).copy() for o in outs}


def slopes(p, i, spec):
    ins, outs = names(spec)
    J = p.compute_totals(of=["g%d.%s" % (i, o) for o in outs], wrt=["g%d.%s" % (i, n) for n in ins])
    return {"d %s / d %s" % (k[0].split(".", 1)[1], k[1].split(".", 1)[1]): np.array(v).copy() for k, v in J.items()}


# ---- drag polar groups --------------------------------------------------------------------------------------------------
def polar_values(spec, code):
    """Seeded inputs of a drag-polar group at nodes that lie on the training grid in Mach number and altitude."""
    rng = random.Random(code[0])
    out = {}
    nn = spec["nn"]
    out["fltcond|M"] = (np.array([rng.choice(spec["M"]) for _ in range(nn)]), None)
    out["fltcond|h"] = (np.array([rng.choice(spec["h"]) for _ in range(nn)]), "m")
    out["fltcond|q"] = (np.array([rng.uniform(2e3, 1.2e4) for _ in range(nn)]), "Pa")
    out["fltcond|CL"] = (np.array([rng.uniform(0.2, 0.7) for _ in range(nn)]), None)
    out["fltcond|TempIncrement"] = (np.array([rng.choice([0.0, rng.uniform(-20, 20)])]), "degC")
    if spec["model"] == "vlm":
        n = nn if spec["vec"] else 1
        out["ac|aero|CD_nonwing"] = (np.array([rng.uniform(0.005, 0.03) for _ in range(n)]), None)
        out["ac|geom|wing|S_ref"] = (np.array([rng.uniform(50, 120)]), "m**2")
        if spec["geo"] == "trapezoidal":
            out["ac|geom|wing|AR"] = (np.array([rng.uniform(7, 12)]), None)
            out["ac|geom|wing|taper"] = (np.array([rng.uniform(0.2, 0.9)]), None)
            out["ac|geom|wing|c4sweep"] = (np.array([rng.uniform(0, 30)]), "deg")
            out["ac|geom|wing|twist"] = (np.array([rng.uniform(-2, 3) for _ in range(spec["ntw"])]), "deg")
            out["ac|geom|wing|toverc"] = (np.array([rng.uniform(0.09, 0.15) for _ in range(2)]), None)
        elif spec["geo"] == "section":
            k = spec["nsec"]
            y = sorted(rng.uniform(-15, -2) for _ in range(k - 1))
            out["ac|geom|wing|x_LE_sec"] = (np.array([2.0 * (k - 1 - i) + rng.uniform(0, 0.5) for i in range(k)]), "m")
            out["ac|geom|wing|y_sec"] = (np.array(y), "m")
            out["ac|geom|wing|chord_sec"] = (np.array([1.0 + i + rng.uniform(0, 0.5) for i in range(k)]), "m")
            out["ac|geom|wing|twist"] = (np.array([rng.uniform(-2, 3) for _ in range(k)]), "deg")
            out["ac|geom|wing|toverc"] = (np.array([rng.uniform(0.09, 0.15) for _ in range(k)]), None)
        else:
            w = wing(rng, spec)
            out["ac|geom|wing|OAS_mesh"] = (w["ac|geom|wing|OAS_mesh"], "m")
            out["ac|geom|wing|toverc"] = (w["ac|geom|wing|toverc"], None)
    else:
        for k, v in wing(rng, spec).items():
            out[k] = (v, A_IN[k])
    return out


def put_polar(p, i, spec, vals):
    for n, (v, u) in vals.items():
        p.set_val("g%d.%s" % (i, n), v, units=u)


def polar_out(p, i, spec):
    out = {"drag": p.get_val("g%d.drag" % i, units="N"), "alpha": p.get_val("g%d.alpha_bal.alpha" % i, units="deg")}
    if spec["model"] == "oas":
        out["failure"] = p.get_val("g%d.failure" % i)
        out["W_wing"] = p.get_val("g%d.ac|weights|W_wing" % i, units="kg")
    return {k: np.array(v).copy() for k, v in out.items()}


def polar_slopes(p, i, spec, vals):
    of = ["g%d.drag" % i] + (["g%d.failure" % i, "g%d.ac|weights|W_wing" % i] if spec["model"] == "oas" else [])
    J = p.compute_totals(of=of, wrt=["g%d.%s" % (i, n) for n in vals])
    return {"d %s / d %s" % (k[0].split(".", 1)[1], k[1].split(".", 1)[1]): np.array(v).copy() for k, v in J.items()}


# ---- direct analysis of single points -----------------------------------------------------------------------------------
def direct(spec, vals, points, ny=None):
    """Analyse flight conditions one by one with the flow solver itself: [{output: value}], [{(output, input): row}]."""
    d, a = modules()
    ins, outs = names(spec)
    vals = {k: v for k, v in vals.items() if k != "ac|aero|CD_nonwing"}
    cdn = 0.0
    rows = []
    for M, al, h in points:
        p = om.Problem(reports=False)
        if spec["model"] == "vlm":
            g = d.VLM(num_x=spec["nx"], num_y=ny or spec["ny"], surf_options=surface_options(spec))
        else:
            g = a.Aerostruct(num_x=spec["nx"], num_y=spec["ny"], surf_options=surface_options(spec), **spec["n"])
        p.model.add_subsystem("aero", g, promotes=["*"])
        if spec["model"] == "oas":
            for n, v in vals.items():
                p.model.set_input_defaults(n, val=v, units=ins[n])
        p.setup(mode="rev" if spec["model"] == "vlm" else "auto")
        p.set_solver_print(level=-1)
        for n, v in vals.items():
            p.set_val(n, v, units=ins[n])
        p.set_val("fltcond|M", M)
        p.set_val("fltcond|alpha", al, units="deg")
        p.set_val("fltcond|h", h, units="m")
        p.run_model()
        val = {o: float(p.get_val(s, units="kg" if o == "W_wing" else None).ravel()[0]) for o, s in outs.items()}
        J = p.compute_totals(of=list(outs.values()), wrt=list(vals))
        rows.append((val, {(o, n): np.array(J[s, n]).ravel() for o, s in outs.items() for n in vals}))
    return rows


def expected(spec, vals):
    """Tables and slopes by direct analysis of every grid point, one at a time, in the same layout as tables() and slopes()."""
    ins, outs = names(spec)
    shape = (len(spec["M"]), len(spec["a"]), len(spec["h"]))
    idx = [(i, j, k) for i in range(shape[0]) for j in range(shape[1]) for k in range(shape[2])]
    rows = direct(spec, vals, [(spec["M"][i], spec["a"][j], spec["h"][k]) for i, j, k in idx])
    T, S = {}, {}
    for o in outs:
        if o == "W_wing":
            T[o] = np.array([rows[0][0][o]])
        else:
            T[o] = np.zeros(shape)
            for ix, (v, _) in zip(idx, rows):
                T[o][ix] = v[o]
        for n in ins:
            k = "d %s / d %s" % (o, n)
            if n == "ac|aero|CD_nonwing":
                S[k] = (np.ones if o == "CD_train" else np.zeros)((T[o].size, 1))
            else:
                S[k] = np.array([r[1][o, n] for r in (rows[:1] if o == "W_wing" else rows)])
    if spec["model"] == "oas":
        T["CD_train"] = T["CD_train"] + vals["ac|aero|CD_nonwing"][0]
    return T, S
