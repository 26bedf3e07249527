"""Catalogue of buildable models: every component and group class found in the library, with option variants and input
ranges, plus hand-written recipes for the ones that need constructor arguments or a solver.

A "spec" is JSON: {"cls": "pkg.mod:Class" or "recipe:<name>", "kw": {...}, "nn": int or None, "var": variant number}.
Nothing here depends on private details of the library; classes that cannot be built are skipped (and counted)."""
import copy
import importlib
import inspect
import json
import io
import contextlib
import pkgutil
import warnings

import numpy as np

SKIP = {
    # abstract helpers / need an aircraft model / covered by other checks
    "SteadyFlightPhase", "GroundRollPhase", "ClimbAnglePhase", "RotationPhase", "RobustRotationPhase",
    "DictIndepVarComp", "DymosDesignParamsFromDict", "DVLabel", "Integrator", "PhaseGroup", "IntegratorGroup", "TrajectoryGroup",
    "SeriesHybridElectricPropulsionSystem",  # cannot be set up on the pinned tree (promotes names its parts do not have)
    "BasicMission", "FullMissionAnalysis", "FullMissionWithReserve", "MissionWithReserve",
    # trained surrogates have their own checks (P03-P05)
    "VLMDragPolar", "VLMDataGen", "AerostructDragPolar", "OASDataGen", "AerostructDragPolarExact", "Aerostruct",
}

_found = None


def discover():
    """[(module, class name)] of every component/group class defined by the library (examples and tests excluded)."""
    global _found
    if _found is not None:
        return _found
    import openmdao.api as om
    import openconcept

    out = []
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        for m in pkgutil.walk_packages(openconcept.__path__, "openconcept."):
            if ".tests" in m.name or ".examples" in m.name:
                continue
            try:
                mod = importlib.import_module(m.name)
            except Exception:
                continue
            for n, c in sorted(vars(mod).items()):
                if inspect.isclass(c) and c.__module__ == m.name and issubclass(c, (om.ExplicitComponent, om.ImplicitComponent, om.Group)):
                    out.append((m.name, n))
    _found = out
    return out


# ---- option variants: class name -> list of kwargs (JSON-able); "nn" is drawn separately when declared ------------------
VARIANTS = {
    "CleanCLmax": [{}, {"fudge_factor": 1.1}],
    "FlapCLmax": [{}, {"flap_chord_frac": 0.2, "slat_chord_frac": 0.0, "slat_span_frac": 0.0}, {"fudge_factor": 0.9}],
    "PolarDrag": [{}, {"vec_CD0": True}],
    "ParasiteDragCoefficient_BWB": [{}, {"configuration": "clean"}, {"configuration": "takeoff"}],
    "ParasiteDragCoefficient_JetTransport": [{}, {"configuration": "clean"}, {"configuration": "takeoff"}, {"include_wing": False}],
    "SkinFrictionCoefficient_JetTransport": [{"laminar_frac": 0.0}, {"laminar_frac": 0.1}, {"laminar_frac": 0.5}],
    "CLmaxCriticalSectionVLM": [{"num_x": 1, "num_y": 3}, {"num_x": 1, "num_y": 2, "surf_options": {"with_viscous": False}}],
    "VLM": [{"num_x": 1, "num_y": 3}, {"num_x": 2, "num_y": 2}, {"num_x": 1, "num_y": 2, "surf_options": {"with_viscous": False}}, {"num_x": 2, "num_y": 3, "surf_options": {"with_viscous": False}},
            {"num_x": 1, "num_y": 4, "surf_options": {"k_lam": 0.3, "with_wave": False}}],
    "SectionLinearInterp": [{"num_sections": 2, "num_y": 3}, {"num_sections": 3, "num_y": [2, 4], "cos_spacing": True}, {"num_sections": 4, "num_y": 2, "units": "deg"}],
    "SectionPlanformMesh": [{"num_x": 2, "num_y": 3, "num_sections": 2, "scale_area": True}, {"num_x": 1, "num_y": [2, 3], "num_sections": 3, "scale_area": False},
                            {"num_x": 2, "num_y": 2, "num_sections": 4, "scale_area": True}, {"num_x": 2, "num_y": 3, "num_sections": 2, "scale_area": False}],
    "ThicknessChordRatioInterp": [{"num_sections": 2, "num_y": 3}, {"num_sections": 3, "num_y": [2, 3], "cos_spacing": False}],
    "TrapezoidalPlanformMesh": [{"num_x": 2, "num_y": 3}, {"num_x": 1, "num_y": 4}],
    "WaveDragFromSections": [{"num_sections": 2}, {"num_sections": 3, "specify_area_norm": True}, {"num_sections": 4, "idx_sec_start": 1, "idx_sec_end": 3, "airfoil_tech_level": 0.87}],
    "ComputeAtmosphericProperties": [{}, {"true_airspeed_in": True}],
    "TurbopropOperatingCost": [{}, {"n_components": 3, "n_batteries": 1}, {"n_components": 2}],
    "SimpleBattery": [{}, {"efficiency": 0.9, "cost_inc": 50.0}],
    "SOCBattery": [{}, {"efficiency": 0.9}],
    "WingAreaFromSections": [{"num_sections": 2}, {"num_sections": 3}, {"num_sections": 4, "idx_sec_start": 1, "idx_sec_end": 3, "chord_frac_start": 0.1, "chord_frac_end": 0.7}],
    "WingMACFromSections": [{"num_sections": 2}, {"num_sections": 4, "idx_sec_start": 1}],
    "WingSweepFromSections": [{"num_sections": 2}, {"num_sections": 4, "idx_sec_end": 2}],
    "FlipVectorComp": [{"units": "m"}, {"negative": True, "units": "m/s"}],
    "TakeoffTransition": [{}],
    "PowerSplit": [{"rule": "fraction"}, {"rule": "fixed"}, {"rule": "fixed", "efficiency": 0.95}, {"rule": "fraction", "efficiency": 0.9}],
    "FlowSplit": [{}],
    "SimpleMotor": [{}, {"efficiency": 0.95, "cost_inc": 5.0}],
    "SimpleGenerator": [{}, {"efficiency": 0.95}],
    "SimpleTurboshaft": [{}, {"psfc": 9.4e-8}],
    "SimplePropeller": [{}, {"num_blades": 4, "design_cp": 0.2, "design_J": 2.2}],
    "WeightCalc": [{}],
    "LiquidCooledBattery": [{"quasi_steady": False}, {"quasi_steady": True}],
    "LiquidCooledMotor": [{"quasi_steady": False}, {"quasi_steady": True}],
    "LiquidCooledComp": [{"quasi_steady": False}, {"quasi_steady": True}],
    "HeatPumpWithIntegratedCoolantLoop": [{}, {"nonlinear_bypass_control": True}],
    "LinearInterpolator": [{"units": "m"}, {}],
    "MaxComp": [{"units": "m"}, {}],
    "MinComp": [{"units": "kg"}, {}],
    "FirstDerivative": [{"num_intervals": 3}, {"num_intervals": 2, "order": 2, "quantity_units": "m", "diff_units": "s"}, {"segment_names": ["a", "b"], "num_intervals": 2}],
    "OldIntegrator": [{"method": "simpson", "time_setup": "dt"}, {"method": "bdf3", "time_setup": "duration", "zero_start": True}, {"method": "simpson", "time_setup": "duration", "diff_units": "s"},
                      {"segment_names": ["a", "b"], "time_setup": "dt", "quantity_units": "kg", "method": "simpson"}, {"final_only": True, "time_setup": "duration", "method": "simpson"}],
    "SelectorComp": [{"input_names": ["A", "B", "C"]}, {"input_names": ["A", "B"], "units": "m"}],
    "COPExplicit": [{}],
}

# ---- input ranges: (class, variable) or variable leaf name -> (lo, hi) in declared units ---------------------------------
RANGES = {
    "fltcond|h": (0.0, 11500.0), "fltcond|M": (0.1, 0.85), "fltcond|T": (215.0, 310.0), "fltcond|p": (2.0e4, 1.0e5),
    "fltcond|rho": (0.3, 1.3), "fltcond|Utrue": (30.0, 250.0), "fltcond|Ueas": (30.0, 160.0), "fltcond|vs": (-10.0, 10.0),
    "fltcond|q": (800.0, 12000.0), "fltcond|CL": (0.1, 1.2), "fltcond|a": (290.0, 345.0), "fltcond|TempIncrement": (-20.0, 20.0),
    "fltcond|alpha": (-3.0, 8.0), "throttle": (0.05, 1.0), "hybridization": (0.0, 1.0), "propulsor_active": (0.0, 1.0),
    "T_in": (280.0, 340.0), "T_out": (285.0, 345.0), "T_surface": (300.0, 360.0), "T_initial": (290.0, 310.0), "T": (290.0, 360.0), "T_object": (290.0, 340.0),
    "T_in_cold": (250.0, 300.0), "T_in_hot": (310.0, 360.0), "T_c": (280.0, 300.0), "T_h": (320.0, 360.0), "T_h_set": (330.0, 370.0), "T_c_set": (270.0, 290.0),
    "T_in_hot_side": (310.0, 360.0), "T_in_cold_side": (270.0, 300.0), "T_evap": (290.0, 350.0), "T_cond": (280.0, 340.0), "temp": (290.0, 350.0), "design_temp": (300.0, 360.0),
    "T_design": (300.0, 360.0), "T_boundary": (280.0, 340.0),
    "T_1": (290.0, 320.0), "T_2": (300.0, 340.0), "p_0": (5e4, 1e5),
    "mdot_coolant": (0.5, 6.0), "mdot": (0.5, 6.0), "mdot_air": (0.5, 3.0), "duration": (50.0, 900.0), "time_elapsed": (50.0, 900.0),
    "ac|geom|wing|S_ref": (20.0, 130.0), "ac|geom|wing|AR": (6.0, 12.0), "ac|geom|wing|taper": (0.15, 0.6), "ac|geom|wing|c4sweep": (0.0, 35.0), "ac|geom|wing|toverc": (0.09, 0.16),
    "AR": (6.0, 12.0), "S": (20.0, 130.0), "taper": (0.15, 0.6), "sweep": (0.0, 35.0), "toverc": (0.09, 0.16), "c4sweep": (0.0, 35.0), "cl_max_airfoil": (1.2, 1.7),
    "ac|geom|hstab|toverc": (0.09, 0.14), "ac|geom|vstab|toverc": (0.09, 0.14), "ac|geom|hstab|taper": (0.2, 0.6), "ac|geom|vstab|taper": (0.2, 0.6),
    "ac|geom|hstab|c4sweep": (0.0, 35.0), "ac|geom|vstab|c4sweep": (0.0, 35.0), "ac|geom|hstab|S_ref": (5.0, 35.0), "ac|geom|vstab|S_ref": (4.0, 28.0),
    "ac|geom|hstab|AR": (3.0, 6.0), "ac|geom|vstab|AR": (1.2, 2.2), "ac|geom|hstab|c4_to_wing_c4": (6.0, 18.0), "ac|geom|vstab|c4_to_wing_c4": (6.0, 18.0),
    "ac|geom|fuselage|length": (12.0, 40.0), "ac|geom|fuselage|width": (1.5, 4.0), "ac|geom|fuselage|height": (1.5, 4.2), "ac|geom|fuselage|S_wet": (40.0, 400.0),
    "ac|geom|nosegear|length": (1.0, 2.5), "ac|geom|maingear|length": (1.0, 3.0), "ac|weights|MTOW": (4.0e3, 8.0e4), "ac|weights|MLW": (3.5e3, 7e4), "ac|weights|W_fuel_max": (800.0, 2e4),
    "ac|propulsion|engine|rating": (600.0, 2.0e4), "ac|num_passengers_max": (8.0, 180.0), "ac|q_cruise": (4000.0, 12000.0), "ac|num_engines": (2.0, 4.0),
    "takeoff|flap_deg": (5.0, 25.0), "flap_extension": (0.0, 40.0), "ac|aero|takeoff_flap_deg": (5.0, 25.0), "takeoff|vr": (40.0, 70.0), "takeoff|v1": (30.0, 60.0), "takeoff|v2": (45.0, 75.0),
    "ac|aero|polar|e": (0.7, 0.9), "e": (0.7, 0.9), "CD0": (0.015, 0.04), "ac|aero|CLmax_TO": (1.6, 2.4), "CLmax": (1.5, 2.5),
    "power_split_fraction": (0.0, 1.0), "SOC_initial": (0.5, 1.0), "selector": (0.0, 1.0), "bypass": (0.0, 1.0), "bypass_heat_pump": (0.0, 1.0), "control": (0.0, 1.0),
    "eff_factor": (0.3, 0.6), "NTU": (0.5, 5.0), "effectiveness": (0.3, 0.9), "M_1": (0.1, 0.4), "M_2": (0.1, 0.4), "M": (0.1, 0.7), "M_3": (0.1, 0.4),
    "radius": (0.8, 1.6), "length": (1.0, 4.0), "design_pressure_differential": (1.5e5, 4e5), "environment_design_pressure": (8e4, 1.1e5), "max_expected_operating_pressure": (2e5, 4e5),
    "t_over_c": (0.09, 0.16), "sectional_CL": (0.2, 1.0), "n_layers": (10.0, 40.0), "N_layers": (10.0, 40.0), "fill_level": (0.5, 0.95), "W_LH2": (10.0, 500.0),
    "J": (0.05, 3.0), "cp": (0.05, 0.5), "rpm": (1200.0, 2400.0), "diameter": (1.8, 3.5), "eta_prop": (0.5, 0.9), "ct_over_cp": (0.8, 2.0), "shaft_power_in": (1e5, 8e5), "power_rating": (300.0, 1200.0),
}
CLASS_RANGES = {
    # gentle and steep climbs: the obstacle is cleared before or after the end of the transition
    ("TakeoffTransition", "gamma"): (0.02, 0.3), ("TakeoffClimb", "gamma"): (0.02, 0.3), ("TakeoffTransition", "fltcond|Utrue"): (30.0, 90.0), ("TakeoffClimb", "hTransition"): (0.0, 15.0),
    ("SelectorComp", "selector"): "int", ("COPHeatPump", "T_c"): (270.0, 290.0),
    ("TemperatureComp", "fltcond|TempIncrement"): (-20.0, 20.0),
    ("SimpleHose", "T_in"): (290.0, 340.0),
    # across the boundary of the layers at 11 km
    ("TemperatureComp", "fltcond|h"): (0.0, 18000.0), ("PressureComp", "fltcond|h"): (0.0, 18000.0), ("ComputeAtmosphericProperties", "fltcond|h"): (0.0, 18000.0),
    # openaerostruct's WaveDrag keeps old partials below the critical Mach number (third-party); stay below it
    ("VLM", "fltcond|M"): (0.1, 0.4), ("VLM", "fltcond|alpha"): (-2.0, 4.0), ("CLmaxCriticalSectionVLM", "fltcond|M"): (0.1, 0.4),
    ("FlapCLmax", "ac|geom|wing|c4sweep"): (0.0, 0.6), ("FlapCLmax", "flap_extension"): (0.0, 0.7),
    ("WingWeight_SmallTurboprop", "ac|geom|wing|c4sweep"): (0.0, 0.6), ("SingleTurboPropEmptyWeight", "ac|geom|wing|c4sweep"): (0.0, 0.6),
    ("TwinSeriesHybridEmptyWeight", "ac|geom|wing|c4sweep"): (0.0, 0.6),
    ("BFLImplicitSolve", "distance_abort"): (500.0, 900.0), ("BFLImplicitSolve", "distance_continue"): (500.0, 900.0),
    ("DuctExitMachNumber", "nozzle_pressure_ratio"): (0.6, 0.99), ("DuctExitPressureRatioImplicit", "p_exit"): (3e4, 6e4), ("DuctExitPressureRatioImplicit", "pt"): (7e4, 1e5),
    ("MachNumberDuct", "a"): (290.0, 340.0), ("MachNumberDuct", "area"): (0.05, 0.2), ("MachNumberDuct", "rho"): (0.5, 1.2), ("MachNumberDuct", "mdot"): (1.0, 4.0),
    ("DuctStation", "Tt_in"): (260.0, 320.0), ("DuctStation", "pt_in"): (6e4, 1.1e5), ("DuctStation", "area"): (0.1, 0.3), ("DuctStation", "cp"): (1003.0, 1006.0), ("DuctStation", "mdot"): (1.0, 4.0),
    ("DuctStation", "delta_p"): (-500.0, 0.0), ("DuctStation", "heat_in"): (0.0, 2e4), ("DuctStation", "pressure_recovery"): (0.9, 1.0), ("DuctStation", "dynamic_pressure_loss_factor"): (0.0, 0.1),
    ("OutletNozzle", "Tt"): (260.0, 320.0), ("OutletNozzle", "area"): (0.02, 0.08), ("OutletNozzle", "dynamic_pressure_loss_factor"): (0.0, 0.1), ("OutletNozzle", "p_exit"): (5e4, 7e4), ("OutletNozzle", "pt_in"): (8e4, 1e5),
    ("HeatPipe", "T_design"): (40.0, 70.0), ("HeatPipe", "T_evap"): (10.0, 70.0), ("HeatPipe", "q"): (100.0, 5000.0), ("HeatPipe", "n_pipes"): (1.0, 5.0),
    ("HeatPipe", "inner_diam"): (0.01, 0.02), ("QMaxAnalyticalPart", "temp"): (0.0, 80.0), ("QMaxHeatPipe", "temp"): (0.0, 80.0), ("QMaxHeatPipe", "design_temp"): (20.0, 80.0), ("AmmoniaProperties", "temp"): (0.0, 80.0),
    ("DeltaTHeatPipe", "temp"): (0.0, 80.0), ("HeatPipeWeight", "T_design"): (20.0, 80.0), ("HeatPipeThermalResistance", "T_design"): (20.0, 80.0), ("HeatPipeVaporTempDrop", "temp"): (0.0, 80.0),
    ("JetTransportEmptyWeight", "ac|aero|Mach_max"): (0.7, 0.9), ("JetTransportEmptyWeight", "ac|aero|Vstall_land"): (50.0, 70.0), ("JetTransportEmptyWeight", "ac|cabin_pressure"): (6.0, 9.0),
}

def get_class(spec):
    mod, name = spec["cls"].split(":")
    return getattr(importlib.import_module(mod), name)


# ---- caller-owned objects: lists, arrays and dictionaries handed to constructors -------------------------------------------
OWNED = None  # None: every model gets its own copies; a dict: one object per distinct value, shared by all models (P02)


def _key(v):
    return json.dumps(v, sort_keys=True, default=lambda x: ["ndarray", np.asarray(x).tolist()])


def own(v):
    if OWNED is None:
        return copy.deepcopy(v)
    return OWNED.setdefault(_key(v), copy.deepcopy(v))


def owned_changed():
    """Caller-owned objects whose value is no longer the one the caller gave."""
    return ["%s became %s" % (k[:120], _key(v)[:120]) for k, v in (OWNED or {}).items() if _key(v) != k]


# ---- recipes -------------------------------------------------------------------------------------------------------------
def _r_addsub(nn, var):
    from openconcept.utilities import AddSubtractComp

    if var == 3:
        return AddSubtractComp("m", own(["one", "many"]), vec_size=own([1, nn]), length=2, scaling_factors=own([2.0, 3.0]))
    if var % 3 == 0:
        c = AddSubtractComp("out", own(["a", "b", "c"]), vec_size=nn, scaling_factors=own([1, -2.5, 0.5]), units="m")
        c.add_equation("out2", own(["e", "d"]), vec_size=nn, units="m")
        return c
    if var % 3 == 1:
        c = AddSubtractComp()
        c.add_equation("w", own(["big", "v"]), vec_size=own([1, nn]), scaling_factors=own([1, -1]), units="kg")
        c.add_equation("w2", own(["z", "u"]), vec_size=nn, units="kg")
        return c
    return AddSubtractComp("m", own(["p", "q"]), vec_size=nn, length=3, scaling_factors=own([2.0, 3.0]))


def _r_muldiv(nn, var):
    from openconcept.utilities import ElementMultiplyDivideComp

    if var == 3:
        return ElementMultiplyDivideComp("o", own(["one", "many"]), vec_size=own([1, nn]), length=2, divide=own([False, True]))
    if var % 3 == 0:
        return ElementMultiplyDivideComp("out", own(["a", "b", "c"]), vec_size=nn, divide=own([False, True, False]), scaling_factor=1.5)
    if var % 3 == 1:
        c = ElementMultiplyDivideComp()
        c.add_equation("o", own(["s", "v"]), vec_size=own([1, nn]), input_units=own(["m", "s"]), divide=own([False, True]))
        c.add_equation("o2", own(["z", "u"]), vec_size=nn, input_units=own(["s", "kg"]))
        return c
    return ElementMultiplyDivideComp("o", own(["p", "q"]), vec_size=nn, length=2, scaling_factor=-2.0)


def _r_concat(nn, var):
    from openconcept.utilities import VectorConcatenateComp

    c = VectorConcatenateComp("out", own(["a", "b"]), vec_sizes=own([nn, nn + 1]), units="m")
    if var % 2:
        c.add_relation("o2", own(["c", "d", "e"]), vec_sizes=own([1, nn, 2]), length=2)
    return c


def _r_split(nn, var):
    from openconcept.utilities import VectorSplitComp

    c = VectorSplitComp(own(["a", "b"]), "inp", vec_sizes=own([nn, nn + 1]), units="kg")
    if var % 2:
        c.add_relation(own(["c", "d"]), "inp2", vec_sizes=own([2, nn]), length=2)
    return c


def _r_integ(nn, var):
    from openconcept.utilities import Integrator

    nn = 2 * nn + (5 if var % 4 == 3 else 1)
    ts = ["duration", "dt", "bounds"][var % 3]
    c = Integrator(num_nodes=nn, diff_units="s", time_setup=ts, method="bdf3" if var % 4 == 3 else "simpson")
    c.add_integrand("q", rate_name="dq", val=1.0, units="kg")
    if var % 2:
        c.add_integrand("x", rate_name="xdot", start_name="x0", end_name="xf", start_val=2.0, units="m")
    return c


def _r_dvlabel(nn, var):
    from openconcept.utilities import DVLabel

    return DVLabel(own([["a", "a2", 1.0, "m"], ["b", "b2", np.ones(nn), "kg"]]))


DATA = {"ac": {"aero": {"CLmax_TO": {"value": 1.7}, "polar": {"e": {"value": 0.78}, "CD0": {"value": np.array([0.02, 0.03])}}},
               "geom": {"wing": {"S_ref": {"value": 18.0, "units": "m**2"}, "c4sweep": {"value": 1.0, "units": "deg"}, "twist": {"value": np.array([1.0, 2.0, 3.0]), "units": "deg"}}},
               "weights": {"MTOW": {"value": 3353, "units": "kg"}}}}


def _r_dictiv(nn, var):
    from openconcept.utilities import DictIndepVarComp

    c = DictIndepVarComp(own(DATA))
    for k in ["ac|aero|CLmax_TO", "ac|geom|wing|twist", "ac|geom|wing|c4sweep", "ac|aero|polar|CD0", "ac|weights|MTOW"][: 2 + 2 * (var % 2)]:
        c.add_output_from_dict(k)
    return c


def _r_propmap(nn, var):
    import openconcept.propulsion.empirical_data.prop_maps as pm

    fs = [f for f in ("propeller_map_Raymer", "propeller_map_highpower", "static_propeller_map_Raymer", "static_propeller_map_highpower", "propeller_map_scaled", "propeller_map_constant_prop_efficiency") if hasattr(pm, f)]
    f = getattr(pm, fs[var % len(fs)])
    try:
        return f(nn)
    except TypeError:
        return f(nn, 0.2, 2.2)


def _r_rubber(nn, var):
    from openconcept.propulsion import RubberizedTurbofan

    return RubberizedTurbofan(num_nodes=nn, engine=["CFM56", "N3"][var % 2])


def _r_cfm56(nn, var):
    from openconcept.propulsion import CFM56

    return CFM56(num_nodes=nn)


def _r_n3(nn, var):
    from openconcept.propulsion import N3

    return N3(num_nodes=nn)


def _r_n3h(nn, var):
    from openconcept.propulsion import N3Hybrid

    return N3Hybrid(num_nodes=nn)


def _r_promoting(nn, var):
    """A vehicle group that sums and scales its parts' results with the group's own helpers and integrates one of them."""
    import openmdao.api as om
    from openconcept.mission import IntegratorGroup

    class Promoting(IntegratorGroup):
        def setup(self):
            n = self.options["num_nodes"]
            self.nonlinear_solver = om.NonlinearBlockGS(maxiter=10, iprint=-1, atol=1e-14, rtol=1e-14)  # the group's integrator comes before the rates
            self.linear_solver = om.DirectSolver(assemble_jac=False)
            for i in range(3):
                self.add_subsystem("e%d" % i, om.ExecComp("y = 2.0 * x + %d" % i, x={"shape": n, "units": "kg/s"}, y={"shape": n, "units": "kg/s"}), promotes_inputs=[("x", "x%d" % i)],
                                   promotes_outputs=[("y", "own")] if i == 2 and var else [])
            if var == 0:
                self.promote_add(own(["e0.y", "e1.y", "e2.y"]), "flow", vec_size=n, units="kg/s", factors=own([1.0, -0.5, 2.0]))
            else:
                self.promote_add(own(["e0.y", "e1.y"]), "flow", promoted_sources=own(["own"]), vec_size=n, units="kg/s", factors=own([1.0, 2.0, -1.0]) if var == 1 else None)
            self.promote_mult("e0.y", "burn", 3.0, vec_size=n, units="kg/s", tags=["integrate", "state_name:fuel", "state_units:kg", "state_val:1.0", "state_promotes:True"])
    return Promoting(num_nodes=2 * nn + 1)


RECIPES = {
    "promoting": (_r_promoting, 3),
    "addsub": (_r_addsub, 4), "muldiv": (_r_muldiv, 4), "concat": (_r_concat, 2), "split": (_r_split, 2), "integrator": (_r_integ, 12),
    "dvlabel": (_r_dvlabel, 1), "dictiv": (_r_dictiv, 3), "propmap": (_r_propmap, 6), "rubber": (_r_rubber, 2), "cfm56": (_r_cfm56, 1), "n3": (_r_n3, 1), "n3h": (_r_n3h, 1),
}
HEAVY = {"recipe:rubber", "recipe:cfm56", "recipe:n3", "recipe:n3h"}
RECIPE_RANGES = {
    ("recipe:propmap", "cp"): (0.0, 1.0), ("recipe:propmap", "J"): (0.1, 3.0),
}


def make_instance(spec):
    if spec["cls"].startswith("recipe:"):
        return RECIPES[spec["cls"][7:]][0](spec["nn"], spec.get("var", 0))
    if spec["cls"].startswith("tunable:"):
        return tunable(spec)
    cls = get_class(spec)
    kw = {k: own(v) if isinstance(v, (list, dict)) else v for k, v in spec["kw"].items()}
    if spec["nn"] is not None:
        nn = spec["nn"]
        if spec["cls"].endswith(("OldIntegrator", "DynamicGroup", "EngineIntegrator")):
            nn = 2 * nn + 5
        kw["num_nodes"] = nn
    return cls(**kw)


def tunable(spec):
    """An integrator given its equations by calls; its rule is an option that may be changed afterwards."""
    from openconcept.utilities import Integrator

    it = Integrator(num_nodes=2 * spec["nn"] + 3, diff_units="s", **spec["kw"])
    it.add_integrand("q", rate_name="dq", units="m")
    it.add_integrand("x", zero_start=True, final_only=bool(spec["nn"] % 2), units="kg")
    return it


def all_specs():
    """Every (class, option variant) with num_nodes left to be drawn (nn = None: class has no such option)."""
    out = []
    for mod, name in discover():
        if name in SKIP:
            continue
        for kw in VARIANTS.get(name, [{}]):
            out.append({"cls": "%s:%s" % (mod, name), "kw": kw, "nn": 0})
            if name == "VLM":
                out[-1]["mode"] = "explicit"  # its implicit part solves itself
    for r, (f, nvar) in RECIPES.items():
        for v in range(nvar):
            out.append({"cls": "recipe:" + r, "kw": {}, "nn": 0, "var": v})
    return out


class Model:
    """One live model built from a spec."""

    def __init__(self, spec):
        import openmdao.api as om

        self.spec = spec
        self.prob = om.Problem(reports=False)
        self.inst = make_instance(spec)
        self.prob.model.add_subsystem("c", self.inst, promotes=["*"])
        for prom, (sh, units, val) in spec.get("defaults", {}).items():
            self.prob.model.set_input_defaults(prom, val=np.array(val, dtype=float).reshape(sh), units=units)
        self.mode = spec.get("mode", "explicit")
        if self.mode == "newton":
            nl = self.prob.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=25, atol=1e-10, rtol=1e-10, iprint=-1)
            nl.options["err_on_non_converge"] = True
            self.prob.model.linear_solver = om.DirectSolver(assemble_jac="VLM" in spec["cls"])

    def setup(self):
        self.prob.setup()
        self.prob.set_solver_print(level=-1)
        self.prob.final_setup()
        self._meta()
        self.initial = self.prob.model._outputs.asarray(copy=True)

    def restore_guesses(self):
        """Put every solver state back to its declared starting guess (inputs chosen by the user are kept)."""
        v = self.prob.model._outputs
        keep = {k: np.array(self.prob.get_val(k)) for k in self.inputs}
        v.set_val(self.initial)
        for k, x in keep.items():
            self.prob.set_val(k, x)

    def comps(self):
        import openmdao.api as om

        return [s for s in self.prob.model.system_iter(recurse=True, include_self=False, typ=(om.ExplicitComponent, om.ImplicitComponent)) if s.name != "_auto_ivc"]

    def is_cyclic(self):
        """Structural: an implicit part, or parts that feed back into themselves.  (Parts merely listed in the wrong order are
        no feedback: running such a model once has to give its answer.)"""
        import openmdao.api as om

        comps = {s.pathname for s in self.comps()}
        if any(isinstance(s, om.ImplicitComponent) for s in self.comps()):
            return True
        feeds = {}
        for tgt, src in self.prob.model._conn_global_abs_in2out.items():
            a, b = tgt.rsplit(".", 1)[0], src.rsplit(".", 1)[0]
            if a in comps and b in comps:
                feeds.setdefault(b, set()).add(a)
        need = {c: 0 for c in comps}
        for t in feeds.values():
            for c in t:
                need[c] += 1
        ready = [c for c in comps if not need[c]]
        done = 0
        while ready:
            c = ready.pop()
            done += 1
            for t in feeds.get(c, ()):
                need[t] -= 1
                if not need[t]:
                    ready.append(t)
        return done < len(comps)

    def conflicts(self):
        """Promoted inputs whose parts declare different units or values: the parent has to choose (as a user would)."""
        m = self.prob.model
        seen = {}
        out = {}
        conns = m._conn_global_abs_in2out
        for a, meta in m._var_allprocs_abs2meta["input"].items():
            prom = m._resolver.abs2prom(a, "input")
            full = m._var_abs2meta["input"].get(a, meta)
            val = np.asarray(full.get("val", 1.0), dtype=float)
            if a in conns and not conns[a].startswith("_auto_ivc."):
                continue
            if prom in seen:
                u0, v0 = seen[prom]
                if u0 != meta["units"] or v0.shape != val.shape or not np.array_equal(v0, val):
                    big = v0 if v0.size >= val.size else val
                    out[prom] = [list(big.shape), u0, big.ravel().tolist()]
            else:
                seen[prom] = (meta["units"], val)
        return out

    def _meta(self):
        m = self.prob.model
        ins = {}
        for abs_name, src in m._conn_global_abs_in2out.items():
            if src.startswith("_auto_ivc."):
                meta = m._var_allprocs_abs2meta["input"][abs_name]
                prom = m._resolver.abs2prom(abs_name, "input")
                if prom not in ins:
                    ins[prom] = tuple(np.shape(self.prob.get_val(prom)))
        self.inputs = dict(sorted(ins.items()))
        outs = {}
        for abs_name, meta in m._var_allprocs_abs2meta["output"].items():
            if abs_name.startswith("_auto_ivc."):
                continue
            outs[abs_name] = tuple(meta["shape"])
        self.outputs = dict(sorted(outs.items()))

    def defaults(self):
        return {k: np.array(self.prob.get_val(k), dtype=float) for k in self.inputs}

    def set_point(self, point):
        for k, v in point.items():
            if k in self.inputs:
                self.prob.set_val(k, np.asarray(v, dtype=float).reshape(self.inputs[k]))

    def run(self):
        self.prob.run_model()

    def get_outputs(self):
        return {k: np.array(self.prob.model._outputs._abs_get_val(k, flat=False), dtype=float).copy() for k in self.outputs}

    def computed(self):
        """Names of the outputs that parts compute (constants held by IndepVarComps belong to whoever built the model)."""
        import openmdao.api as om

        iv = {s.pathname for s in self.prob.model.system_iter(recurse=True, include_self=False, typ=om.IndepVarComp)}
        return [k for k in self.outputs if k.rsplit(".", 1)[0] not in iv]

    def overwrite(self, fn):
        v = self.prob.model._outputs
        for k in self.computed():
            x = v._abs_get_val(k, flat=True)
            v.set_var(k, np.array([fn(i) for i in x]).reshape(self.outputs[k]))

    def scribble(self, rng):
        self.overwrite(lambda x: x * rng.uniform(-2, 3) + rng.uniform(-5, 5))

    def set_states(self, rng):
        """Overwrite every computed output with values near its declared one (used to evaluate residuals at chosen states)."""
        self.restore_guesses()
        self.overwrite(lambda x: (x if x != 0 else 0.5) * rng.uniform(0.7, 1.3))

    def residuals(self):
        self.prob.model.run_apply_nonlinear()
        return {k: np.array(self.prob.model._residuals._abs_get_val(k, flat=False), dtype=float).copy() for k in self.outputs}

    def partials(self):
        self.prob.model.run_linearize()
        out = {}
        for s in self.comps():
            j = s._jacobian
            if j is None:
                continue
            for k in j.keys():
                v = j[k]
                if hasattr(v, "toarray"):
                    v = v.toarray()
                out["%s wrt %s" % k] = np.array(v, dtype=float)
        return out

    def totals(self):
        r = self.prob.compute_totals(of=list(self.outputs), wrt=list(self.inputs), return_format="flat_dict")
        return {"%s wrt %s" % k: np.array(v) for k, v in r.items()}


def sample_input(rng, spec, name, shape, default, units):
    cls = spec["cls"].split(":")[1] if not spec["cls"].startswith("recipe:") else spec["cls"]
    leaf = name.split(".")[-1]
    r = CLASS_RANGES.get((cls, leaf)) or RECIPE_RANGES.get((cls, leaf)) or RANGES.get(name) or RANGES.get(leaf)
    n = int(np.prod(shape)) if shape else 1
    if r == "int":
        hi = len(spec["kw"].get("input_names", [1])) - 1
        return [float(rng.randint(0, hi)) for _ in range(n)]
    if r == (0.0, 1.0):  # a share: some close to none or all
        return [rng.choice([x, 1.0 - x]) if rng.random() < 0.3 else rng.uniform(0.0, 1.0) for x in [10 ** rng.uniform(-2.3, -1.0) for _ in range(n)]]
    if r is not None:
        return [rng.uniform(*r) for _ in range(n)]
    d = np.asarray(default, dtype=float).ravel()
    if leaf.startswith(("y_sec",)):
        v = sorted([-rng.uniform(1.0, 15.0) for _ in range(n)])
        return v
    if leaf.startswith("x_LE"):
        return sorted([rng.uniform(0.0, 3.0) for _ in range(n)], reverse=True)
    if "mesh" in leaf and len(shape) == 3:
        nx, ny, _ = shape
        half = rng.uniform(5.0, 15.0)
        c0 = rng.uniform(1.5, 3.0)
        tap = rng.uniform(0.3, 0.9)
        sw = rng.uniform(0.0, 2.0)
        m = np.zeros(shape)
        for j in range(ny):
            f = 1 - j / (ny - 1)
            ch = c0 * (1 - f * (1 - tap))
            for i in range(nx):
                m[i, j] = [sw * f + ch * i / (nx - 1), -half * f, 0.0]
        return m.ravel().tolist()
    signs = 0.3 if spec["cls"].startswith("openconcept.utilities") and rng.random() < 0.7 else 0.0  # mathematics takes numbers of either sign
    return [float((dd if dd != 0 else 1.0) * rng.uniform(0.6, 1.5) * (-1.0 if rng.random() < signs else 1.0)) for dd in (d if d.size == n else np.ones(n))]


def describe(spec):
    """Metadata of a spec (evaluated in a throw-away fork by the caller): [spec with defaults, {input: (shape, default)}, outputs]."""
    spec = dict(spec)
    m = Model(spec)
    m.prob.setup()
    c = m.conflicts()
    if c:
        spec["defaults"] = c
    m = Model(spec)
    m.setup()
    if "mode" not in spec:
        spec["mode"] = "newton" if m.is_cyclic() else "explicit"
        m = Model(spec)
        m.setup()
    d = m.defaults()
    return spec, {k: (list(sh), d[k].ravel().tolist()) for k, sh in m.inputs.items()}, {k: list(v) for k, v in m.outputs.items()}


def build_spec(spec, nn):
    """describe() with num_nodes = nn, or without that option when the class has none."""
    import openmdao.api as om  # noqa

    try:
        return describe(dict(spec, nn=nn))
    except (TypeError, KeyError) as e:
        if "num_nodes" not in str(e):
            raise
    return describe(dict(spec, nn=None))


NOT_VARIED = ("surf_options", "input_names", "output_name", "name", "names", "units", "method", "engine")


def sibling(rng, spec):
    """The spec with one option changed a little: a list in another order, another count, a number next to it, a flag turned."""
    kw = dict(spec["kw"])
    names = [k for k, v in sorted(kw.items()) if k not in NOT_VARIED and isinstance(v, (bool, int, float, list)) and (not isinstance(v, list) or v and all(isinstance(x, (int, float)) for x in v))]
    if not names:
        return spec
    lists = [k for k in names if isinstance(kw[k], list) and len(set(kw[k])) > 1]
    k = rng.choice(lists if lists and rng.random() < 0.75 else names)
    v = kw[k]
    if isinstance(v, list):
        w = list(v)
        if len(set(w)) > 1 and rng.random() < 0.8:
            while w == v:
                rng.shuffle(w)
        elif isinstance(w[0], int) and not isinstance(w[0], bool):
            w[rng.randrange(len(w))] += 1
        else:
            i = rng.randrange(len(w))
            w[i] = w[i] * 1.25
        kw[k] = w
    elif isinstance(v, bool):
        kw[k] = not v
    elif isinstance(v, int):
        kw[k] = v + 1
    else:
        kw[k] = v * rng.choice([0.9, 1.1]) if v else v
    return dict({a: b for a, b in spec.items() if a != "defaults"}, kw=kw)


def kink(f, n=24):
    """Where on the way from f(0) to f(1) the outputs bend or jump most sharply, or None when they are smooth."""
    ts = np.linspace(0.0, 1.0, n + 1)
    try:
        a = [f(t) for t in ts]
    except Exception:
        return None
    ks = [k for k in a[0] if all(k in x for x in a)]
    if not ks:
        return None
    Y = np.array([np.concatenate([x[k].ravel() for k in ks]) for x in a])
    span = Y.max(axis=0) - Y.min(axis=0)
    D = np.abs(Y[2:] - 2 * Y[1:-1] + Y[:-2])[:, span > 1e-12 * (np.abs(Y).max(axis=0) + 1e-300)]
    if not D.size:
        return None
    D /= span[span > 1e-12 * (np.abs(Y).max(axis=0) + 1e-300)]
    sharp = D.max(axis=0) - 8 * np.median(D, axis=0)
    j = int(np.argmax(sharp))
    if sharp[j] < 1e-4:
        return None
    i = int(np.argmax(D[:, j]))
    return float(ts[i + 1])


def sample_point(rng, spec, meta):
    return {k: sample_input(rng, spec, k, tuple(sh), np.array(d).reshape(sh), None) for k, (sh, d) in meta.items()}


def probe(spec, seed):
    """Build, run at sampled points; returns counts (used while developing the catalogue)."""
    from .core import rng_for

    rng = rng_for("probe", seed, str(spec))
    spec, meta, outs = describe(spec)
    m = Model(spec)
    m.setup()
    bad = 0
    err = ""
    for i in range(4):
        m.set_point(sample_point(rng, spec, meta))
        try:
            m.run()
        except Exception as e:
            bad += 1
            err = repr(e)[:150]
            continue
        o = m.get_outputs()
        nf = [k for k, v in o.items() if not np.all(np.isfinite(v))]
        if nf:
            bad += 1
            err = "nonfinite " + ",".join(nf[:3])
    return {"bad": bad, "nin": len(meta), "nout": len(outs), "err": err}


def ensure_caches():
    """The engine decks train themselves when their stored training files are missing (minutes, and written into the package
    directory, which git ignores).  Copy the sandbox's stored files when they exist and the package has none."""
    import glob
    import os
    import shutil
    import openconcept

    root = os.path.join(os.path.dirname(os.path.abspath(openconcept.__file__)), "propulsion", "empirical_data")
    for d in ("cfm56", "n+3", "n+3_hybrid"):
        for f in glob.glob(os.path.join("/opt/vp/kriging", d, "*.zip")):
            t = os.path.join(root, d, os.path.basename(f))
            if not os.path.exists(t):
                tmp = t + ".%d.tmp" % os.getpid()
                shutil.copy(f, tmp)
                os.replace(tmp, t)
