"""Simulated flights: the library's mission profiles flown by small aircraft assembled from its own parts.

A mission spec is JSON:
 profile   "basic" | "reserve" | "full" | "fullres"
 nn        nodes per phase (odd)
 ac        {"kind": "jet"|"twin"|"hybrid"|"single", "fuel": "integ"|"og"|"split"}
 transition "simplified" | "ode" (take-off profiles)
 ground_roll bool (basic profile)
 sub       True: the mission is a subsystem that is not promoted
Designs are JSON too (see gen_design); nothing is drawn outside the plan."""
import math

import numpy as np

import openmdao.api as om
from openconcept.aerodynamics import PolarDrag
from openconcept.mission import BasicMission, FullMissionAnalysis, FullMissionWithReserve, IntegratorGroup, MissionWithReserve
from openconcept.propulsion import AllElectricSinglePropulsionSystemWithThermal_Incompressible, TurbopropPropulsionSystem, TwinSeriesHybridElectricPropulsionSystem, TwinTurbopropPropulsionSystem
from openconcept.propulsion import TwinSeriesHybridElectricThermalPropulsionSystem
from openconcept.utilities import AddSubtractComp, ElementMultiplyDivideComp, Integrator, LinearInterpolator

from .speed import bounds_ls
from .traj import Fault

HYBRID = ("hybrid", "thermal")  # series hybrids: turbogenerator and battery drive two motors
BATTERY = HYBRID + ("elec",)
THERMAL = {"elec": ("motorheatsink", "reservoir"), "thermal": ("motorheatsink", "reservoir", "batteryheatsink")}  # parts whose temperature is a state

TAKEOFF = ["v0v1", "v1vr", "v1v0", "rotate"]


class JetThrust(om.ExplicitComponent):
    """A twin jet: thrust and fuel flow of each engine; the seam for faults inside the vehicle model."""

    def initialize(self):
        self.options.declare("num_nodes")

    def setup(self):
        nn = self.options["num_nodes"]
        ar = np.arange(nn)
        for n in ("throttle", "propulsor_active"):
            self.add_input(n, val=np.ones(nn))
        self.add_input("fltcond|rho", val=np.ones(nn), units="kg/m**3")
        self.add_input("max_thrust", val=2e4, units="N")
        self.add_input("tsfc", val=1.5e-5, units="kg/N/s")
        self.add_output("thrust1", val=np.ones(nn) * 1e3, units="N")
        self.add_output("thrust2", val=np.ones(nn) * 1e3, units="N")
        self.add_output("flow1", val=np.ones(nn) * 0.01, units="kg/s")
        self.add_output("flow2", val=np.ones(nn) * 0.01, units="kg/s")
        for o in ("thrust1", "thrust2", "flow1", "flow2"):
            for i in ("throttle", "fltcond|rho", "propulsor_active"):
                self.declare_partials(o, i, rows=ar, cols=ar)
            self.declare_partials(o, "max_thrust", rows=ar, cols=np.zeros(nn))
        for o in ("flow1", "flow2"):
            self.declare_partials(o, "tsfc", rows=ar, cols=np.zeros(nn))

    def compute(self, inputs, outputs):
        Fault.n += 1
        if Fault.at is not None and Fault.n == Fault.at:
            Fault.fired += 1
            if Fault.exc == "nan":
                for o in outputs:
                    outputs[o] = np.nan
                return
            from .crash import exc_type

            raise exc_type(Fault.exc)("injected fault in the vehicle model")
        s = (inputs["fltcond|rho"] / 1.225) ** 0.7
        t = inputs["throttle"] * inputs["max_thrust"] * s
        a = inputs["propulsor_active"]
        outputs["thrust1"] = t
        outputs["thrust2"] = t * a
        outputs["flow1"] = t * inputs["tsfc"]
        outputs["flow2"] = t * a * inputs["tsfc"]

    def compute_partials(self, inputs, J):
        r = inputs["fltcond|rho"] / 1.225
        s, ds = r ** 0.7, 0.7 * r ** (-0.3) / 1.225
        th, tm, a, c = inputs["throttle"], inputs["max_thrust"], inputs["propulsor_active"], inputs["tsfc"]
        for o, act, k in (("thrust1", 1.0, 1.0), ("thrust2", a, 1.0), ("flow1", 1.0, c), ("flow2", a, c)):
            J[o, "throttle"] = tm * s * act * k
            J[o, "fltcond|rho"] = tm * th * ds * act * k
            J[o, "max_thrust"] = th * s * act * k
            J[o, "propulsor_active"] = th * tm * s * k * (0.0 if o.endswith("1") else 1.0)
        J["flow1", "tsfc"] = th * tm * s
        J["flow2", "tsfc"] = th * tm * s * a


class Jet(om.Group):
    def initialize(self):
        self.options.declare("num_nodes")

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("eng", JetThrust(num_nodes=nn), promotes_inputs=["throttle", "propulsor_active", "fltcond|rho", ("max_thrust", "ac|propulsion|max_thrust"), ("tsfc", "ac|propulsion|tsfc")])
        add = AddSubtractComp("thrust", ["t1", "t2"], vec_size=nn, units="N")
        add.add_equation("fuel_flow", ["f1", "f2"], vec_size=nn, units="kg/s")
        self.add_subsystem("add", add, promotes_outputs=["*"])
        for a, b in (("thrust1", "t1"), ("thrust2", "t2"), ("flow1", "f1"), ("flow2", "f2")):
            self.connect("eng." + a, "add." + b)


class FaultPoint(om.ExplicitComponent):
    """Passes the throttle through; the seam for faults inside vehicle models made of library parts only."""

    def initialize(self):
        self.options.declare("num_nodes")

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_input("a", val=np.ones(nn))
        self.add_output("b", val=np.ones(nn))
        self.declare_partials("b", "a", rows=np.arange(nn), cols=np.arange(nn), val=1.0)

    def compute(self, inputs, outputs):
        Fault.n += 1
        if Fault.at is not None and Fault.n == Fault.at:
            Fault.fired += 1
            if Fault.exc == "nan":
                outputs["b"] = np.nan
                return
            from .crash import exc_type

            raise exc_type(Fault.exc)("injected fault in the vehicle model")
        outputs["b"] = inputs["a"]


def _body(g, nn, phase, ac):
    kind = ac["kind"]
    if kind == "jet":
        g.add_subsystem("propmodel", Jet(num_nodes=nn), promotes_inputs=["throttle", "propulsor_active", "fltcond|rho", "ac|propulsion|*"], promotes_outputs=["thrust", "fuel_flow"])
    else:
        g.add_subsystem("fp", FaultPoint(num_nodes=nn), promotes_inputs=[("a", "throttle")])
        iv = g.add_subsystem("controls", om.IndepVarComp(), promotes_outputs=["*"])
        iv.add_output("proprpm", val=np.ones(nn) * 1900.0, units="rpm")
        if kind == "twin":
            g.add_subsystem("propmodel", TwinTurbopropPropulsionSystem(num_nodes=nn), promotes_inputs=["fltcond|*", "ac|propulsion|*", "propulsor_active"], promotes_outputs=["fuel_flow", "thrust"])
            g.connect("proprpm", ["propmodel.prop1.rpm", "propmodel.prop2.rpm"])
        elif kind == "elec":
            iv.add_output("fuel_flow", val=np.ones(nn) * 0.002, units="kg/s")  # an auxiliary burner
            g.add_subsystem("propmodel", AllElectricSinglePropulsionSystemWithThermal_Incompressible(num_nodes=nn, specific_energy=500), promotes_inputs=["fltcond|*", "ac|propulsion|*", "ac|weights|*", "duration"], promotes_outputs=["thrust"])
            g.connect("proprpm", "propmodel.prop1.rpm")
        elif kind == "single":
            g.add_subsystem("propmodel", TurbopropPropulsionSystem(num_nodes=nn), promotes_inputs=["fltcond|*", "ac|propulsion|*"], promotes_outputs=["fuel_flow", "thrust"])
            g.connect("proprpm", "propmodel.prop1.rpm")
        else:
            iv.add_output("hybridization", val=0.5)
            g.add_subsystem("hybrid_factor", LinearInterpolator(num_nodes=nn), promotes_inputs=[("start_val", "hybridization"), ("end_val", "hybridization")])
            sysm = {"hybrid": TwinSeriesHybridElectricPropulsionSystem, "thermal": TwinSeriesHybridElectricThermalPropulsionSystem}[kind]
            g.add_subsystem("propmodel", sysm(num_nodes=nn), promotes_inputs=["fltcond|*", "ac|propulsion|*", "propulsor_active", "ac|weights*", "duration"],
                            promotes_outputs=["fuel_flow", "thrust"] + (["ac|propulsion|thermal|duct|area_nozzle"] if kind == "thermal" else []))
            if kind in THERMAL:
                iv.add_output("ac|propulsion|thermal|hx|mdot_coolant", val=np.ones(nn) * 0.1, units="kg/s")
            g.connect("proprpm", ["propmodel.prop1.rpm", "propmodel.prop2.rpm"])
            g.connect("hybrid_factor.vec", "propmodel.hybrid_split.power_split_fraction")
        g.connect("fp.b", "propmodel.throttle")
    cd0 = "ac|aero|polar|CD0_TO" if phase in TAKEOFF else "ac|aero|polar|CD0_cruise"
    g.add_subsystem("drag", PolarDrag(num_nodes=nn), promotes_inputs=["fltcond|CL", "ac|geom|*", ("CD0", cd0), "fltcond|q", ("e", "ac|aero|polar|e")], promotes_outputs=["drag"])


def _weight(g, nn):
    g.add_subsystem("weight", AddSubtractComp("weight", ["ac|weights|MTOW", "fuel_used"], units="kg", vec_size=[1, nn], scaling_factors=[1, -1]), promotes_inputs=["*"], promotes_outputs=["weight"])


def aircraft(ac):
    if ac["fuel"] == "og":
        class SimAircraftOG(IntegratorGroup):
            def initialize(self):
                self.options.declare("num_nodes", default=1)
                self.options.declare("flight_phase", default=None)

            def setup(self):
                nn = self.options["num_nodes"]
                _body(self, nn, self.options["flight_phase"], ac)
                self.add_subsystem("burn", ElementMultiplyDivideComp("fuel_rate", input_names=["fuel_flow"], input_units=["kg/s"], vec_size=[nn], scaling_factor=1.0,
                                   tags=["integrate", "state_name:fuel_used", "state_units:kg", "state_val:1.0", "state_promotes:True"]), promotes_inputs=["*"], promotes_outputs=["*"])
                _weight(self, nn)

        return SimAircraftOG

    class SimAircraft(om.Group):
        def initialize(self):
            self.options.declare("num_nodes", default=1)
            self.options.declare("flight_phase", default=None)

        def setup(self):
            nn = self.options["num_nodes"]
            _body(self, nn, self.options["flight_phase"], ac)
            integ = self.add_subsystem("intfuel", Integrator(num_nodes=nn, method="simpson", diff_units="s", time_setup="duration"), promotes_inputs=["*"], promotes_outputs=["*"])
            integ.add_integrand("fuel_used", rate_name="fuel_flow", val=1.0, units="kg")
            _weight(self, nn)

    return SimAircraft


AC_VARS = {  # name: (value, units) per aircraft kind
    "jet": {"ac|weights|MTOW": (8000.0, "kg"), "ac|geom|wing|S_ref": (28.0, "m**2"), "ac|geom|wing|AR": (9.0, None), "ac|aero|CLmax_TO": (1.8, None), "ac|aero|polar|e": (0.8, None),
            "ac|aero|polar|CD0_TO": (0.03, None), "ac|aero|polar|CD0_cruise": (0.022, None), "ac|propulsion|max_thrust": (1.5e4, "N"), "ac|propulsion|tsfc": (1.6e-5, "kg/N/s")},
    "twin": {"ac|weights|MTOW": (4581.0, "kg"), "ac|geom|wing|S_ref": (27.308, "m**2"), "ac|geom|wing|AR": (8.5834, None), "ac|aero|CLmax_TO": (1.52, None), "ac|aero|polar|e": (0.78, None),
             "ac|aero|polar|CD0_TO": (0.04, None), "ac|aero|polar|CD0_cruise": (0.022, None), "ac|propulsion|engine|rating": (750.0, "hp"), "ac|propulsion|propeller|diameter": (2.28, "m")},
    "single": {"ac|weights|MTOW": (3353.0, "kg"), "ac|geom|wing|S_ref": (18.0, "m**2"), "ac|geom|wing|AR": (8.95, None), "ac|aero|CLmax_TO": (1.7, None), "ac|aero|polar|e": (0.78, None),
               "ac|aero|polar|CD0_TO": (0.03, None), "ac|aero|polar|CD0_cruise": (0.0205, None), "ac|propulsion|engine|rating": (850.0, "hp"), "ac|propulsion|propeller|diameter": (2.31, "m")},
    "elec": {"ac|weights|MTOW": (3353.0, "kg"), "ac|geom|wing|S_ref": (18.0, "m**2"), "ac|geom|wing|AR": (8.95, None), "ac|aero|CLmax_TO": (1.7, None), "ac|aero|polar|e": (0.78, None),
             "ac|aero|polar|CD0_TO": (0.03, None), "ac|aero|polar|CD0_cruise": (0.0205, None), "ac|propulsion|motor|rating": (850.0, "hp"), "ac|propulsion|propeller|diameter": (2.31, "m"),
             "ac|weights|W_battery": (907.0, "kg")},
    "hybrid": {"ac|weights|MTOW": (4581.0, "kg"), "ac|geom|wing|S_ref": (27.308, "m**2"), "ac|geom|wing|AR": (8.5834, None), "ac|aero|CLmax_TO": (1.52, None), "ac|aero|polar|e": (0.78, None),
               "ac|aero|polar|CD0_TO": (0.04, None), "ac|aero|polar|CD0_cruise": (0.022, None), "ac|propulsion|engine|rating": (1117.2, "hp"), "ac|propulsion|propeller|diameter": (2.2, "m"),
               "ac|propulsion|motor|rating": (527.2, "hp"), "ac|propulsion|generator|rating": (1083.7, "hp"), "ac|weights|W_battery": (1000.0, "kg"),
               "ac|propulsion|battery|specific_energy": (450.0, "W*h/kg")},
}
HX = {"coolant_mass": (10.0, "kg"), "channel_width": (1.0, "mm"), "channel_height": (20.0, "mm"), "channel_length": (0.2, "m"), "n_parallel": (50.0, None), "n_wide_cold": (430.0, None)}
AC_VARS["thermal"] = dict(AC_VARS["hybrid"], **{"ac|propulsion|thermal|hx|" + k: v for k, v in HX.items()})

STEADY = ["climb", "cruise", "descent"]
RES = ["reserve_climb", "reserve_cruise", "reserve_descent", "loiter"]
SPEED = {"jet": 1.35, "twin": 1.0, "single": 1.0, "elec": 1.0, "hybrid": 0.95, "thermal": 0.95}


def phases_of(spec):
    to = ["v0v1", "v1vr", "v1v0", "rotate", "engineoutclimb"] if spec["profile"] in ("full", "fullres") else (["groundroll"] if spec.get("ground_roll") else [])
    return to + STEADY + (RES if spec["profile"] in ("reserve", "fullres") else [])


def build_problem(spec):
    cls = {"basic": BasicMission, "reserve": MissionWithReserve, "full": FullMissionAnalysis, "fullres": FullMissionWithReserve}[spec["profile"]]
    kw = dict(num_nodes=spec["nn"], aircraft_model=aircraft(spec["ac"]))
    if spec["profile"] in ("full", "fullres"):
        kw["transition_method"] = spec.get("transition", "simplified")
    if spec["profile"] == "basic" and spec.get("ground_roll"):
        kw["include_ground_roll"] = True
    model = om.Group()
    iv = model.add_subsystem("dv", om.IndepVarComp(), promotes_outputs=["*"])
    for n, (v, u) in AC_VARS[spec["ac"]["kind"]].items():
        iv.add_output(n, val=v, units=u)
    if spec.get("sub"):
        model.add_subsystem("m", cls(**kw), promotes_inputs=["ac|*"])
    else:
        model.add_subsystem("m", cls(**kw), promotes=["*"])
    p = om.Problem(model, reports=False)
    ns = model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=spec.get("maxiter", 25), atol=1e-8, rtol=1e-99, iprint=-1)
    ns.options["err_on_non_converge"] = True
    ns.linesearch = bounds_ls()
    model.linear_solver = om.DirectSolver(assemble_jac=True)
    model.options["assembled_jac_type"] = "csc"
    return p


def setup(prob):
    prob.setup()
    prob.set_solver_print(level=-1)
    prob.final_setup()
    prob._dst_initial = prob.model._outputs.asarray(copy=True)


def gen_spec(rng, profiles=("basic", "reserve", "full", "fullres"), kinds=("jet", "jet", "twin", "single", "elec", "hybrid"), nns=(3, 5, 7, 9)):
    prof = rng.choice(profiles)
    spec = {"profile": prof, "nn": rng.choice(nns), "ac": {"kind": rng.choice(kinds), "fuel": rng.choice(["integ", "og"])}, "sub": rng.random() < 0.3}
    if prof in ("full", "fullres"):
        spec["transition"] = "simplified" if rng.random() < 0.7 else "ode"
        if spec["ac"]["kind"] in ("single", "elec"):
            spec["ac"]["kind"] = "twin"
    if prof == "basic":
        spec["ground_roll"] = rng.random() < 0.3
    return spec


def gen_design(rng, spec, events=True):
    """Requested profile, aircraft numbers and in-flight failures."""
    k = SPEED[spec["ac"]["kind"]]
    full = spec["profile"] in ("full", "fullres")
    hi = 15000.0 if rng.random() < 0.5 else 22000.0
    d = {"cruise|h0": rng.uniform(8000.0, hi), "mission_range": rng.uniform(250.0, 600.0), "takeoff|h": 0.0 if full or rng.random() < 0.6 else rng.uniform(100.0, 2000.0),
         "reserve_range": rng.uniform(80.0, 200.0), "reserve|h0": rng.uniform(6000.0, 12000.0), "loiter|h0": rng.uniform(1000.0, 3000.0), "loiter_duration": rng.uniform(600.0, 2400.0),
         "ac": {n: rng.uniform(0.95, 1.05) for n in sorted(AC_VARS[spec["ac"]["kind"]])}, "phases": {}, "hybridization": {}}
    if spec["ac"]["kind"] in ("elec", "hybrid") and rng.random() < 0.6:  # from a battery asked for more than it is rated for to a generous one
        d["ac"]["ac|weights|W_battery"] = math.exp(rng.uniform(math.log(0.03), math.log(rng.choice([0.2, 1.5]))))
    if full and rng.random() < 0.4:  # enough power to be over the obstacle before the climb begins
        f = rng.uniform(1.0, 1.5)
        for n in d["ac"]:
            if n.endswith(("max_thrust", "rating")):
                d["ac"][n] *= f
        d["ac"]["ac|weights|MTOW"] *= rng.uniform(0.85, 1.0)
    strong = rng.random() < 0.3
    if rng.random() < 0.1:
        d["payload"] = rng.uniform(500, 1500)
    for ph in STEADY + RES:
        kind = ph.split("_")[-1]
        vs = {"climb": rng.uniform(400, 800), "cruise": 0.01, "descent": -rng.uniform(400, 800), "loiter": 0.01}[kind]
        ue = {"climb": rng.uniform(115, 130), "cruise": rng.uniform(135, 160), "descent": rng.uniform(125, 145), "loiter": rng.uniform(115, 135)}[kind] * k
        taper = rng.uniform(0.85, 1.15) if rng.random() < 0.5 else 1.0
        d["phases"][ph] = {"vs": vs, "Ueas": ue, "taper": taper}
        d["hybridization"][ph] = rng.uniform(0.0, 1.0 if strong else 0.15)
        if events and rng.random() < 0.25 and spec["ac"]["kind"] not in ("single", "elec"):
            # one propulsor fails at some node and may come back
            a = rng.randrange(spec["nn"])
            b = spec["nn"] if rng.random() < 0.6 else rng.randint(a + 1, spec["nn"])
            d["phases"][ph]["fail"] = [a, b]
    for ph in TAKEOFF + ["engineoutclimb", "groundroll"]:
        d["hybridization"][ph] = rng.uniform(0.0, 1.0)
    if rng.random() < 0.25:
        d["own_fuel"] = rng.uniform(1.0, 60.0)
    if spec["ac"]["kind"] in THERMAL:
        d["own_T"] = [rng.uniform(285, 310) for _ in THERMAL[spec["ac"]["kind"]]]
    if spec["ac"]["kind"] == "thermal":
        d["mdot"] = {ph: [rng.uniform(0.05, 0.3), rng.uniform(0.8, 1.25)] for ph in phases_of(spec)}
    if rng.random() < 0.25:
        d["own_SOC"] = rng.uniform(0.6, 0.98)
    if rng.random() < 0.25:
        d["own_h"] = rng.uniform(50.0, 800.0)
    d["v2"] = rng.uniform(95, 110) * (1.15 if k > 1 else 1.0)
    return d


class Names:
    def __init__(self, spec):
        self.pre = "m." if spec.get("sub") else ""

    def __call__(self, n):
        return self.pre + n


def set_design(prob, spec, d):
    N = Names(spec)
    nn = spec["nn"]
    for n, f in d["ac"].items():
        prob.set_val(n, AC_VARS[spec["ac"]["kind"]][n][0] * f)
    prob.set_val(N("cruise|h0"), d["cruise|h0"], units="ft")
    prob.set_val(N("mission_range"), d["mission_range"], units="NM")
    prob.set_val(N("takeoff|h"), d["takeoff|h"], units="ft")
    prob.set_val(N("payload"), d.get("payload", 1000.0), units="lbm")
    res = spec["profile"] in ("reserve", "fullres")
    if res:
        prob.set_val(N("reserve_range"), d["reserve_range"], units="NM")
        prob.set_val(N("reserve|h0"), d["reserve|h0"], units="ft")
        prob.set_val(N("loiter|h0"), d["loiter|h0"], units="ft")
        prob.set_val(N("loiter_duration"), d["loiter_duration"], units="s")
    first = phases_of(spec)[0]
    prob.set_val(N(first + ".fuel_used_initial"), d.get("own_fuel", 0.0), units="kg")
    kind = spec["ac"]["kind"]
    if kind in BATTERY:
        prob.set_val(N(first + ".propmodel.batt1.SOC_initial"), d.get("own_SOC", 1.0))
    if kind in THERMAL:
        for c, t in zip(THERMAL[kind], d["own_T"]):
            prob.set_val(N(first + ".propmodel." + c + ".T_initial"), t, units="degK")
    if res:
        prob.set_val(N("reserve_climb.ode_integ_phase.fltcond|h_initial"), d.get("own_h", 0.0), units="m")
    for ph in STEADY + (RES if res else []):
        q = d["phases"][ph]
        t = np.linspace(1.0, q["taper"], nn)
        prob.set_val(N(ph + ".fltcond|vs"), q["vs"] * t if ph.split("_")[-1] in ("climb", "descent") else np.full(nn, q["vs"]), units="ft/min")
        prob.set_val(N(ph + ".fltcond|Ueas"), q["Ueas"] * np.linspace(1.0, 1 + (q["taper"] - 1) / 3, nn), units="kn")
        act = np.ones(nn)
        if "fail" in q:
            act[q["fail"][0]:q["fail"][1]] = 0.0
        prob.set_val(N(ph + ".propulsor_active"), act)
    if kind in HYBRID:
        for ph in phases_of(spec):
            prob.set_val(N(ph + ".hybridization"), d["hybridization"][ph])
    for ph, (m, t) in d.get("mdot", {}).items():
        prob.set_val(N(ph + ".ac|propulsion|thermal|hx|mdot_coolant"), np.linspace(m, m * t, 1 if ph == "engineoutclimb" else nn), units="kg/s")
    if spec["profile"] in ("full", "fullres"):
        prob.set_val(N("v0v1.fltcond|Utrue"), np.full(nn, 50.0), units="kn")
        prob.set_val(N("v1vr.fltcond|Utrue"), np.full(nn, 85.0), units="kn")
        prob.set_val(N("v1v0.fltcond|Utrue"), np.full(nn, 85.0), units="kn")
        if spec.get("transition") == "ode":
            prob.set_val(N("rotate.fltcond|Utrue"), np.full(nn, 95.0), units="kn")
            prob.set_val(N("rotate.accel_vert"), np.full(nn, 2.0), units="m/s**2")
    if spec.get("ground_roll"):
        prob.set_val(N("takeoff|v2"), d["v2"], units="kn")
        prob.set_val(N("groundroll.fltcond|Utrue"), np.full(nn, 60.0), units="kn")


def restore_guesses(prob, spec, d):
    """The declared starting guesses (and the user's own guesses) again; design values are kept."""
    prob.model._outputs.set_val(prob._dst_initial)
    set_design(prob, spec, d)


def converged(prob):
    prob.model.run_apply_nonlinear()
    return float(np.linalg.norm(prob.model._residuals.asarray()))


def outputs(prob):
    """Every output of the model by absolute name."""
    v = prob.model._outputs
    return {k: np.array(v._abs_get_val(k, flat=False)).copy() for k in prob.model._var_allprocs_abs2meta["output"]}
