"""Small closed loops around single library parts: a propulsion system whose throttle is solved for a demanded thrust, and the
decision-speed equation of the balanced field around drawn distance models, or any part of the library with one of its inputs solved
for a demanded value of one of its outputs.

A loop spec is JSON:
 loop  "thrust" | "field" | "part"
 sys   name of the propulsion system ("thrust")
 nn    nodes ("thrust", "part")
 part  catalogue entry, pick: which of its inputs and outputs ("part"); resolve() turns both into names and numbers
 wrap  True: the loop is a subsystem of the model
Designs are JSON as well."""
import math

import numpy as np

import openmdao.api as om
from openconcept import propulsion
from openconcept.mission.phases import BFLImplicitSolve
from openconcept.propulsion import SimplePropeller, SimpleTurboshaft

from . import catalog
from .core import fork_call, rng_for
from .speed import bounds_ls
from .traj import Fault

SYSTEMS = ["TurbopropPropulsionSystem", "TwinTurbopropPropulsionSystem", "SingleSeriesHybridElectricPropulsionSystem", "TwinSeriesHybridElectricPropulsionSystem", "propeller"]
RATING = {"ac|propulsion|engine|rating": (600.0, "kW"), "ac|propulsion|motor|rating": (500.0, "kW"), "ac|propulsion|generator|rating": (600.0, "kW"), "ac|propulsion|propeller|diameter": (2.3, "m"),
          "ac|weights|W_battery": (1000.0, "kg"), "ac|propulsion|battery|specific_energy": (400.0, "W*h/kg")}


class Gate(om.ExplicitComponent):
    """Passes its input through; the seam for faults inside the loop."""

    def initialize(self):
        self.options.declare("nn")

    def setup(self):
        nn = self.options["nn"]
        self.add_input("a", val=np.ones(nn))
        self.add_output("b", val=np.ones(nn))
        self.declare_partials("b", "a", rows=np.arange(nn), cols=np.arange(nn), val=1.0)

    def compute(self, inputs, outputs):
        Fault.n += 1
        if Fault.at is not None and Fault.n == Fault.at:
            Fault.fired += 1
            if Fault.exc == "nan":
                outputs["b"] = np.nan
                return
            from .crash import exc_type

            raise exc_type(Fault.exc)("injected fault in the loop")
        outputs["b"] = inputs["a"]


class Bare(om.Group):
    """A turboshaft and a propeller."""

    def initialize(self):
        self.options.declare("num_nodes")

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("eng1", SimpleTurboshaft(num_nodes=nn), promotes_inputs=["throttle", ("shaft_power_rating", "ac|propulsion|engine|rating")])
        self.add_subsystem("prop1", SimplePropeller(num_nodes=nn, num_blades=4, design_cp=0.2, design_J=2.2), promotes_inputs=["fltcond|*", ("diameter", "ac|propulsion|propeller|diameter"), ("power_rating", "ac|propulsion|engine|rating")], promotes_outputs=["thrust"])
        self.connect("eng1.shaft_power_out", "prop1.shaft_power_in")


class Field(om.ExplicitComponent):
    """Distance to continue falls with decision speed, distance to abort grows with it."""

    def setup(self):
        self.add_input("v1", units="m/s")
        self.add_input("rot", units="m/s")
        for n in ("c0", "c1", "a0", "a2"):
            self.add_input(n, val=1.0)
        self.add_output("cont", units="m")
        self.add_output("abort", units="m")
        self.add_output("vr", units="m/s")
        self.declare_partials("cont", ["v1", "c0", "c1"])
        self.declare_partials("abort", ["v1", "a0", "a2"])
        self.declare_partials("vr", "rot", val=1.0)

    def compute(self, inputs, outputs):
        Fault.n += 1
        if Fault.at is not None and Fault.n == Fault.at:
            Fault.fired += 1
            if Fault.exc == "nan":
                outputs["cont"] = np.nan
                return
            from .crash import exc_type

            raise exc_type(Fault.exc)("injected fault in the loop")
        v = inputs["v1"]
        outputs["cont"] = inputs["c0"] - inputs["c1"] * v
        outputs["abort"] = inputs["a0"] + inputs["a2"] * v ** 2
        outputs["vr"] = inputs["rot"]

    def compute_partials(self, inputs, J):
        J["cont", "v1"] = -inputs["c1"]
        J["cont", "c0"] = 1.0
        J["cont", "c1"] = -inputs["v1"]
        J["abort", "v1"] = 2 * inputs["a2"] * inputs["v1"]
        J["abort", "a0"] = 1.0
        J["abort", "a2"] = inputs["v1"] ** 2


SLOW = ("propulsion.systems", "ExternalHX", "VLM", "OAS", "Aerostruct", "aerostructural", "drag_polar", "Compressible", "BFLImplicit", "N3", "CFM56", "Rubberized", "recipe:")


def parts():
    if not PARTS:
        PARTS.extend(s for s in fork_call(catalog.all_specs)[1] if not any(x in s["cls"] for x in SLOW) and s["cls"] not in catalog.HEAVY)
    return PARTS


PARTS = []


def gen_spec(rng, field=None):
    if field:
        return {"loop": "field", "wrap": rng.random() < 0.3}
    if rng.random() < 0.45:
        return {"loop": "part", "part": rng.choice(parts()), "nn": rng.choice([1, 3, 5]), "wrap": rng.random() < 0.3, "pick": rng.getrandbits(32)}
    if field is None and rng.random() < 0.25:
        return {"loop": "field", "wrap": rng.random() < 0.3}
    return {"loop": "thrust", "sys": rng.choice(SYSTEMS), "nn": rng.choice([1, 3, 5, 7, 9]), "wrap": rng.random() < 0.3}


def gen_design(rng, spec):
    if spec["loop"] == "part":
        return {"s": rng.getrandbits(32), "few": rng.random() < 0.75, "to": rng.random(), "edge": rng.random() < 0.6}
    if spec["loop"] == "field":
        # distances are equal at speed eq (m/s); rotation speed lies beyond it, before it, or next to it
        eq = rng.uniform(25.0, 70.0)
        near = rng.random() < 0.5
        c1 = rng.uniform(5.0, 40.0)
        a2 = rng.uniform(0.1, 0.6)
        a0 = rng.uniform(50.0, 400.0)
        off = rng.choice([-1, 1]) * math.exp(rng.uniform(math.log(0.005), math.log(0.6))) if near else rng.uniform(-15.0, 15.0)
        return {"c1": c1, "a2": a2, "a0": a0, "c0": a0 + a2 * eq ** 2 + c1 * eq, "rot": eq + off, "guess": rng.uniform(15.0, 80.0)}
    nn = spec["nn"]
    slow = rng.random() < 0.6  # near standstill the propeller maps change over to their static branch
    a = rng.uniform(20.0, 110.0)
    V = [math.exp(rng.uniform(math.log(4.0), math.log(30.0))) for _ in range(nn)] if slow else np.linspace(a, a * rng.uniform(0.8, 1.2), nn).tolist()
    d = {"V": V, "rho": rng.uniform(0.5, 1.225), "T": rng.uniform(230.0, 310.0), "rpm": rng.uniform(1400.0, 2200.0), "load": rng.uniform(0.15, 0.8), "split": rng.uniform(0.0, 1.0),
         "ac": {k: rng.uniform(0.8, 1.2) for k in sorted(RATING)}}
    if rng.random() < 0.4:
        d["active"] = [rng.choice([1.0, 1.0, 0.0]) for _ in range(nn)]
    return d


def resolve(plan):
    """A plan with names and numbers for the drawn part, or None when it has no pair of an input and an output to solve for."""
    if plan["kind"] != "loop" or plan["spec"]["loop"] != "part":
        return plan
    r = fork_call(_resolve, plan)
    return r[1] if r[0] == "ok" else None


def _resolve(plan):
    import warnings

    warnings.simplefilter("ignore")
    spec, meta, outs = catalog.build_spec(dict(plan["spec"]["part"]), plan["spec"]["nn"])
    m = catalog.Model(spec)
    m.setup()
    rng = rng_for("pick", plan["spec"]["pick"])
    pts = []

    def run(p):
        m.set_point(p)
        m.restore_guesses()
        m.run()
        o = {m.prob.model._resolver.abs2prom(k, "output"): v for k, v in m.get_outputs().items()}
        return {k: v for k, v in o.items() if np.isfinite(v).all()}

    for d in plan["designs"]:
        r = rng_for("pt", d["s"])
        p = catalog.sample_point(r, spec, meta)
        if pts and d["few"]:  # on the way from the first design to this one in one or two inputs
            ks = r.sample(sorted(p), min(len(p), r.randint(1, 2)))

            def way(t):
                return dict(pts[0], **{k: [a + t * (b - a) for a, b in zip(pts[0][k], p[k])] for k in ks})
            t = d["to"]
            if d.get("edge"):  # next to where the part changes over to another formula, if it does
                e = catalog.kink(lambda t: run(way(t)))
                if e is not None:
                    t = e + r.choice([-1, 1]) * math.exp(r.uniform(math.log(1e-3), math.log(0.1)))
            p = way(t)
        pts.append(p)
    base = run(pts[0])
    xs = [k for k, sh in meta.items() if len(sh[0]) == 1 and k not in spec.get("defaults", {})]
    rng.shuffle(xs)
    for x in xs[:8]:
        p = dict(pts[0])
        p[x] = [v * 1.01 + 1e-6 for v in p[x]]
        moved = run(p)
        ys = sorted(k for k in base if k in moved and base[k].shape == (len(p[x]),) and np.all(np.abs(moved[k] - base[k]) > 1e-4 * (np.abs(base[k]) + 1e-12)))
        if ys:
            y = rng.choice(ys)
            break
    else:
        return None
    asked = []
    for p in pts:
        try:
            asked.append(run(p)[y].tolist())
        except Exception:
            asked.append(base[y].tolist())
    X = np.array([p[x] for p in pts])
    lo, hi = float(X.min()), float(X.max())
    w = 0.5 * max(abs(lo), abs(hi)) + 0.5 * (hi - lo)
    lo, hi = (lo * 0.3 if lo > 0 else lo - w), hi + w
    guess = [rng.uniform(lo + 0.2 * (hi - lo), hi - 0.2 * (hi - lo))] * X.shape[1]
    ds = [{"in": {k: list(v) for k, v in p.items() if k != x}, "asked": a} for p, a in zip(pts, asked)]
    return dict(plan, spec=dict(plan["spec"], part=spec, x=x, y=y, lo=lo, hi=hi, guess=guess, shapes={k: list(v[0]) for k, v in meta.items()}), designs=ds)


def build_problem(spec):
    model = om.Group()
    g = model
    if spec.get("wrap"):
        g = model.add_subsystem("loop", om.Group())
    if spec["loop"] == "field":
        g.add_subsystem("field", Field(), promotes=["*"])
        g.add_subsystem("bfl", BFLImplicitSolve(), promotes_inputs=[("distance_continue", "cont"), ("distance_abort", "abort"), ("takeoff|vr", "vr")], promotes_outputs=[("takeoff|v1", "v1")])
    elif spec["loop"] == "part":
        n = len(spec["guess"])
        g.add_subsystem("gate", Gate(nn=n), promotes_inputs=[("a", "solved|x")])
        g.add_subsystem("c", catalog.make_instance(spec["part"]), promotes=["*"])
        for prom, (sh, units, val) in spec["part"].get("defaults", {}).items():
            g.set_input_defaults(prom, val=np.array(val, dtype=float).reshape(sh), units=units)
        g.connect("gate.b", spec["x"])
        g.add_subsystem("demand", om.BalanceComp("solved|x", val=np.array(spec["guess"]), lhs_name="got", rhs_name="asked", lower=spec["lo"], upper=spec["hi"], rhs_val=np.ones(n), normalize=True),
                        promotes_inputs=[("asked", "solved|asked")], promotes_outputs=["solved|x"])
        g.connect(spec["y"], "demand.got")
    else:
        nn = spec["nn"]
        g.add_subsystem("gate", Gate(nn=nn), promotes_inputs=[("a", "throttle")])
        if spec["sys"] == "propeller":
            g.add_subsystem("pm", Bare(num_nodes=nn), promotes_inputs=["fltcond|*", "ac|*"], promotes_outputs=["thrust"])
        else:
            g.add_subsystem("pm", getattr(propulsion, spec["sys"])(num_nodes=nn), promotes_inputs=["fltcond|*", "ac|*"], promotes_outputs=["thrust"])
        g.connect("gate.b", "pm.motor1.throttle" if spec["sys"].startswith("SingleSeries") else "pm.throttle")
        iv = g.add_subsystem("numbers", om.IndepVarComp(), promotes_outputs=["*"])
        for k, (v, u) in RATING.items():
            iv.add_output(k, val=v, units=u)
        g.add_subsystem("demand", om.BalanceComp("throttle", val=0.5 * np.ones(nn), lhs_name="thrust", rhs_name="asked", eq_units="N", lower=0.01, upper=3.0, rhs_val=np.ones(nn), normalize=True),
                        promotes_inputs=["thrust", "asked"], promotes_outputs=["throttle"])
    p = om.Problem(model, reports=False)
    ns = g.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=30, atol=1e-10, rtol=1e-99, iprint=-1)
    ns.options["err_on_non_converge"] = True
    ns.linesearch = bounds_ls()
    g.linear_solver = om.DirectSolver()
    return p


def inner(prob, spec):
    return prob.model.loop if spec.get("wrap") else prob.model


def set_design(prob, spec, d):
    g = inner(prob, spec)
    pre = "loop." if spec.get("wrap") else ""

    def put(name, val, units=None):
        prob.set_val(pre + name, val, units=units)
    if spec["loop"] == "field":
        for k in ("c0", "c1", "a0", "a2"):
            put(k, d[k])
        put("rot", d["rot"], "m/s")
        return
    if spec["loop"] == "part":
        for k, v in d["in"].items():
            put(k, np.array(v).reshape(spec["shapes"][k]))
        put("solved|asked", np.array(d["asked"]))
        return
    have = {m["prom_name"] for _, m in g.list_inputs(val=False, prom_name=True, out_stream=None)}
    nn = spec["nn"]
    V = np.array(d["V"])
    put("fltcond|rho", np.full(nn, d["rho"]), "kg/m**3")
    put("fltcond|Utrue", V, "m/s")
    if "fltcond|T" in have:
        put("fltcond|T", np.full(nn, d["T"]), "degK")
    for k, (v, u) in RATING.items():
        put(k, v * d["ac"][k], u)
    for k in sorted(have):
        leaf = k.split(".")[-1]
        if leaf == "rpm":
            put(k, np.full(nn, d["rpm"]), "rpm")
        elif leaf == "propulsor_active":
            put(k, np.array(d.get("active", [1.0] * nn)))
        elif leaf == "power_split_fraction":
            put(k, np.full(nn, d["split"]))
    power = 500e3 * d["ac"]["ac|propulsion|motor|rating"] * d["load"]
    put("asked", 0.7 * power / np.maximum(V, 30.0), "N")


def field_rules(prob, spec, d):
    """The decision speed is the balanced one, or rotation speed when one can still stop there."""
    pre = "loop." if spec.get("wrap") else ""
    v1, vr, cont, abort = (float(prob.get_val(pre + n)[0]) for n in ("v1", "vr", "cont", "abort"))
    bad = []
    if v1 > vr + 1e-6:
        bad.append(("decision speed above rotation speed", "field", "%.8g against %.8g m/s" % (v1, vr)))
    elif abs(cont - abort) > 1e-6 * max(cont, abort) and abs(v1 - vr) > 1e-6:
        bad.append(("field neither balanced nor decided at rotation", "field", "v1 %.8g, vr %.8g, continue %.8g m, abort %.8g m" % (v1, vr, cont, abort)))
    elif abs(v1 - vr) <= 1e-6 and abort > cont * (1 + 1e-6):
        bad.append(("decided at rotation although stopping takes longer than continuing", "field", "v1 %.8g, vr %.8g, continue %.8g m, abort %.8g m" % (v1, vr, cont, abort)))
    return bad
