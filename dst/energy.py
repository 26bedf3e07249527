"""First-law books of a solved model, from what its parts report themselves: for every library part found in the model, power or heat
in equals power or heat out plus losses plus storage; and what one part gives is what the next part takes."""
import numpy as np


def _v(s):
    def get(name, units=None):
        if "." in name:  # a part's own number, which may be promoted to another name
            part, leaf = name.split(".", 1)
            sub = s._get_subsystem(part)
            if sub is not None:
                return np.array(sub.get_val(leaf, units=units), dtype=float).ravel()
        return np.array(s.get_val(name, units=units), dtype=float).ravel()
    return get


# ---- balances of single parts: (what, left, right, kind) with kind "eq" or "le" ----------------------------------------------------
def motor(s, v):
    e, sh, q = v("elec_load", "W"), v("shaft_power_out", "W"), v("heat_out", "W")
    yield "electricity = shaft power + heat", e, sh + q
    yield "shaft power = efficiency x electricity", sh, s.options["efficiency"] * e
    yield "electricity = throttle x rating", e, v("throttle") * v("elec_power_rating", "W")


def generator(s, v):
    sh, e, q = v("shaft_power_in", "W"), v("elec_power_out", "W"), v("heat_out", "W")
    yield "shaft power = electricity + heat", sh, e + q
    yield "electricity = efficiency x shaft power", e, s.options["efficiency"] * sh


def split(s, v):
    p, a, b, q = v("power_in", "W"), v("power_out_A", "W"), v("power_out_B", "W"), v("heat_out", "W")
    eta = s.options["efficiency"]
    yield "power in = A + B + heat", p, a + b + q
    if s.options["rule"] == "fraction":
        yield "A = fraction of the power in", a, eta * p * v("power_split_fraction")
    else:
        yield "A = the requested amount, or all there is", a, eta * np.minimum(p, v("power_split_amount", "W"))


def turboshaft(s, v):
    yield "power = throttle x rating", v("shaft_power_out", "W"), v("throttle") * v("shaft_power_rating", "W")
    yield "fuel = specific consumption x power", v("fuel_flow", "kg/s"), s.options["psfc"] * v("shaft_power_out", "W")


def battery(s, v):
    yield "heat = (1 - efficiency) x load", v("heat_out", "W"), (1 - s.options["efficiency"]) * v("elec_load", "W")


def soc(s, v):
    yield "charge drawn = load / capacity", v("dSOCdt", "1/s"), -v("elec_load", "W") / v("max_energy", "J")


def perfect(s, v):
    c = s.options["specific_heat"] * v("mdot_coolant", "kg/s")
    yield "heat = flow x heat capacity x temperature rise", v("q", "W"), c * (v("T_out", "K") - v("T_in", "K")), c * v("T_out", "K")


def plate(s, v):
    c = s.options["specific_heat"] * v("mdot_coolant", "kg/s")
    ti, to, ts, q = v("T_in", "K"), v("T_out", "K"), v("T_surface", "K"), v("q", "W")
    yield "heat = flow x heat capacity x temperature rise", q, c * (to - ti), c * to
    if np.all(c > 0) and all(np.all(v(n) > 0) for n in ("channel_width", "channel_height", "channel_length", "n_parallel")):
        yield from between("the coolant leaves between its inlet and the surface temperature", to, ti, ts)


def between(what, x, a, b, scale=None):
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    yield what, np.clip(x, lo, hi), x, scale


def mass(s, v):
    k = s.options["specific_heat"] * v("mass", "kg")
    yield "stored heat = heat in - heat out", k * v("dTdt", "K/s"), v("q_in", "W") - v("q_out", "W"), np.abs(v("q_in", "W")) + np.abs(v("q_out", "W"))


def massless(s, v):
    yield "heat in = heat out", v("q_in", "W"), v("q_out", "W")


def reservoir(s, v):
    m = v("mdot_coolant", "kg/s")
    yield "stored heat = heat carried in - heat carried out", v("mass", "kg") * v("dTdt", "K/s"), m * (v("T_in", "K") - v("T_out", "K")), m * v("T_in", "K")


def bandolier(s, v):
    c = s.options["coolant_specific_heat"] * v("mdot_coolant", "kg/s")
    q, qi = v("q", "W"), v("q_in", "W")
    yield "heat = flow x heat capacity x temperature rise", q, c * (v("T_out", "K") - v("T_in", "K")), c * v("T_out", "K")
    m = v("battery_weight", "kg") * s.options["battery_weight_fraction"] * s.options["cell_specific_heat"]
    yield "stored heat = heat in - heat out", m * v("dTdt", "K/s"), qi - q, np.abs(qi) + np.abs(q)
    yield from between("the surface is between coolant and cell temperature", v("T_surface", "K"), v("T_in", "K"), v("T_battery", "K"))
    yield "the mean cell temperature is the mean of core and surface", v("T_core", "K") + v("T_surface", "K"), 2 * v("T_battery", "K")


def jacket(s, v):
    c = s.options["coolant_specific_heat"] * v("mdot_coolant", "kg/s")
    q, qi = v("q", "W"), v("q_in", "W")
    yield "heat = flow x heat capacity x temperature rise", q, c * (v("T_out", "K") - v("T_in", "K")), c * v("T_out", "K")
    yield "stored heat = heat in - heat out", v("motor_weight", "kg") * s.options["motor_specific_heat"] * v("dTdt", "K/s"), qi - q, np.abs(qi) + np.abs(q)
    yield from between("the coolant leaves between its inlet and the winding temperature", v("T_out", "K"), v("T_in", "K"), v("T", "K"))


def quasi(s, v):
    if s.options["quasi_steady"]:
        yield "no heat stored", v("q_in", "W"), v("hex.q", "W"), np.abs(v("q_in", "W")) + 1.0, 1e-6


def outlet(s, v):
    q = v("heat_transfer", "W")
    cc, ch = v("mdot_cold", "kg/s") * v("cp_cold", "J/kg/K"), v("mdot_hot", "kg/s") * v("cp_hot", "J/kg/K")
    yield "heat gained by the cold stream", cc * (v("T_out_cold", "K") - v("T_in_cold", "K")), q, cc * v("T_out_cold", "K")
    yield "heat lost by the hot stream", ch * (v("T_in_hot", "K") - v("T_out_hot", "K")), q, ch * v("T_out_hot", "K")


def hx(s, v):
    cc, ch = v("mdot_cold", "kg/s") * v("cp_cold", "J/kg/K"), v("mdot_hot", "kg/s") * v("cp_hot", "J/kg/K")
    qc, qh = cc * (v("T_out_cold", "K") - v("T_in_cold", "K")), ch * (v("T_in_hot", "K") - v("T_out_hot", "K"))
    big = (cc + ch) * 600.0
    yield "cold stream gains what the hot stream loses", qc, qh, big
    if np.all(cc > 0) and np.all(ch > 0):
        qmax = np.minimum(cc, ch) * (v("T_in_hot", "K") - v("T_in_cold", "K"))
        yield from between("heat between none and the most the streams allow", qh, 0.0, qmax, big)


def cop(s, v):
    yield "rejected heat = absorbed heat + power", v("q_in_2", "W") + v("q_in_1", "W"), v("power_rating", "W") + 0 * v("q_in_1", "W")
    yield "absorbed heat = COP x power", -v("q_in_1", "W"), v("COP") * v("power_rating", "W")


def copx(s, v):
    x = v("COP")
    yield "the coefficient of performance is a number", np.where(np.isfinite(x), 0.0, 1.0), 0.0 * v("T_c", "K")


def refrig(s, v):
    c = s.options["specific_heat"] * v("mdot_coolant", "kg/s")
    net = c * (v("T_out_cold", "K") + v("T_out_hot", "K") - v("T_in_cold", "K") - v("T_in_hot", "K"))
    big = c * (np.abs(v("T_out_hot", "K")) + np.abs(v("T_out_cold", "K")))
    yield "net heat into the coolant = shaft work (95 % of the electricity)", net, 0.95 * v("elec_load", "W"), big
    b = v("bypass")
    yield "electricity = rating x share not bypassed", 0.95 * v("elec_load", "W"), (1 - b) * v("power_rating", "W")


def flowsplit(s, v):
    yield "flow in = A + B", v("mdot_in", "kg/s"), v("mdot_out_A", "kg/s") + v("mdot_out_B", "kg/s")
    yield "A = fraction of the flow in", v("mdot_out_A", "kg/s"), v("mdot_in", "kg/s") * v("mdot_split_fraction")


def flowcombine(s, v):
    a, b = v("mdot_in_A", "kg/s"), v("mdot_in_B", "kg/s")
    yield "flow out = A + B", v("mdot_out", "kg/s"), a + b
    yield "heat carried out = heat carried in", v("mdot_out", "kg/s") * v("T_out", "K"), a * v("T_in_A", "K") + b * v("T_in_B", "K")


def station(s, v):
    yield "total temperature rise = heat / (flow x heat capacity)", v("mdot", "kg/s") * v("cp", "J/kg/K") * (v("Tt_out", "K") - v("Tt_in", "K")), v("heat_in", "W"), \
        v("mdot", "kg/s") * v("cp", "J/kg/K") * v("Tt_in", "K")


def pump(s, v):
    yield "electricity = flow work / efficiency", v("elec_load", "W") * s.options["efficiency"], v("mdot_coolant", "kg/s") / v("rho_coolant", "kg/m**3") * v("delta_p", "Pa")


def compressible(s, v):
    yield "the flow through the nozzle is the flow through the duct", v("mdot_actual", "kg/s"), v("mdot", "kg/s"), None, 1e-6
    if type(s).__name__ == "ImplicitCompressibleDuct":
        yield "the air takes the heat the exchanger gives", v("sta3.heat_in", "W"), v("hx.heat_transfer", "W"), None, 1e-6


def propeller(s, v):
    J, cp, n, d, rho = v("J"), v("cp"), v("rpm", "rpm") / 60.0, v("diameter", "m"), v("fltcond|rho", "kg/m**3")
    t = v("thrust", "N") / (rho * n ** 2 * d ** 4)
    stat = v("ct_over_cp") * cp
    power = v("eta_prop") * cp  # thrust x speed and shaft power, both over rho n^3 d^5
    dyn = power / np.where(J > 0, J, 1.0)
    yield "thrust x speed = efficiency x shaft power", np.where(J >= 0.2, t * J, 0.0), np.where(J >= 0.2, power, 0.0)
    yield "static thrust from the power", np.where(J <= 0.1, t, 0.0), np.where(J <= 0.1, stat, 0.0)
    yield from between("the thrust near standstill is between the static and the moving one", t, np.where(J < 0.2, stat, t), np.where(J > 0.1, dyn, t))


def liquid(s, v):
    r, L = v("radius", "m"), v("length", "m")
    full = s.options["LH2_density"] * (4 / 3 * np.pi * r ** 3 + np.pi * r ** 2 * L)
    yield "liquid left + liquid taken = first filling", v("m_liq", "kg") + v("delta_m_liq", "kg"), full * s.options["fill_level_init"], full
    yield "liquid = fill level x tank", v("m_liq", "kg"), full * v("fill_level"), full


def tank(s, v):
    yield "weight = tank + liquid", v("total_weight", "kg"), v("tank_weight", "kg") + v("m_liq", "kg")


def pipe(s, v):
    q = v("q", "W")
    if np.all(q >= 0):
        te, tc = v("T_evap", "K"), v("T_cond", "K")
        yield "heat flows from the warm to the cold end", np.minimum(tc, te), tc, te


def turbofan(s, v):
    k = v("ac|propulsion|engine|rating", "lbf")
    yield "thrust in proportion to the rating", v("thrust", "lbf") * v("scale_engine.orig_rating_thrust", "lbf"), v("engine_deck.thrust", "lbf") * k
    heat = 43.0 / 120.0 if s.options["hydrogen"] else 1.0  # the same energy in other fuel
    yield "fuel energy in proportion to the rating", v("fuel_flow", "lbm/s") * v("scale_engine.orig_rating_fuel_flow", "lbf"), v("engine_deck.fuel_flow", "lbm/s") * k * heat


PARTS = {"ThrustCalc": propeller, "InitialLH2MassModification": liquid, "LH2TankNoBoilOff": tank, "HeatPipe": pipe, "RubberizedTurbofan": turbofan, "SimpleMotor": motor, "SimpleGenerator": generator, "PowerSplit": split, "SimpleTurboshaft": turboshaft, "SimpleBattery": battery, "SOCBattery": soc, "PerfectHeatTransferComp": perfect,
         "ConstantSurfaceTemperatureColdPlate_NTU": plate, "ThermalComponentWithMass": mass, "ThermalComponentMassless": massless, "CoolantReservoirRate": reservoir,
         "BandolierCoolingSystem": bandolier, "MotorCoolingJacket": jacket, "LiquidCooledComp": quasi, "LiquidCooledMotor": quasi, "OutletTemperatures": outlet, "HXGroup": hx, "COPHeatPump": cop,
         "COPExplicit": copx, "HeatPumpWithIntegratedCoolantLoop": refrig, "FlowSplit": flowsplit, "FlowCombine": flowcombine, "HeatAdditionPressureLoss": station, "SimplePump": pump,
         "ImplicitCompressibleDuct": compressible}

# ---- what one part gives is what the next takes; the aircraft's numbers are the ones every part works with --------------------------
_TWIN = [("hybrid_split.power_in", "motor1.elec_load + motor2.elec_load", "W"), ("batt1.elec_load", "hybrid_split.power_out_A", "W"), ("gen1.elec_power_out", "hybrid_split.power_out_B", "W"),
         ("gen1.shaft_power_in", "eng1.shaft_power_out", "W"), ("prop1.shaft_power_in", "motor1.shaft_power_out", "W"), ("prop2.shaft_power_in", "motor2.shaft_power_out", "W"),
         ("thrust", "prop1.thrust + prop2.thrust", "N"), ("motor1.throttle", "throttle", None), ("motor2.throttle", "throttle * propulsor_active", None),
         ("motor1.elec_power_rating", "ac|propulsion|motor|rating", "W"), ("motor2.elec_power_rating", "ac|propulsion|motor|rating", "W"), ("gen1.elec_power_rating", "ac|propulsion|generator|rating", "W"),
         ("eng1.shaft_power_rating", "ac|propulsion|engine|rating", "W"), ("batt1.battery_weight", "ac|weights|W_battery", "kg"), ("prop1.diameter", "ac|propulsion|propeller|diameter", "m"),
         ("prop2.diameter", "ac|propulsion|propeller|diameter", "m")]
_ENERGY = [("batt1.max_energy", "ac|weights|W_battery * ac|propulsion|battery|specific_energy", ("J", "kg", "J/kg"))]
_HOT = [("motorheatsink.q_in", "motor1.heat_out + motor2.heat_out", "W"), ("batteryheatsink.q_in", "batt1.heat_out", "W"), ("motorheatsink.mass", "motor1.component_weight + motor2.component_weight", "kg"),
        ("batteryheatsink.mass", "ac|weights|W_battery", "kg"), ("hx.mdot_cold", "duct.mdot", "kg/s"), ("duct.delta_p_hex", "hx.delta_p_cold", "Pa"), ("hx.T_in_cold", "fltcond|T", "K"),
        ("motorheatsink.T_in", "batteryheatsink.T_out", "K"), ("motorheatsink.mdot_coolant", "ac|propulsion|thermal|hx|mdot_coolant", "kg/s"),
        ("batteryheatsink.mdot_coolant", "ac|propulsion|thermal|hx|mdot_coolant", "kg/s"), ("hx.mdot_hot", "ac|propulsion|thermal|hx|mdot_coolant", "kg/s"),
        ("duct.area_nozzle", "ac|propulsion|thermal|duct|area_nozzle", "m**2")]
_RES = [("reservoir.T_in", "hx.T_out_hot", "K"), ("reservoir.mdot_coolant", "ac|propulsion|thermal|hx|mdot_coolant", "kg/s"), ("reservoir.mass", "ac|propulsion|thermal|hx|coolant_mass", "kg"),
        ("batteryheatsink.T_in", "reservoir.T_out", "K"), ("hx.T_in_hot", "motorheatsink.T_out", "K")]
_ELEC = [("batt1.elec_load", "motor1.elec_load", "W"), ("prop1.shaft_power_in", "motor1.shaft_power_out", "W"), ("motorheatsink.q_in", "motor1.heat_out", "W"),
         ("motorheatsink.mass", "motor1.component_weight", "kg"), ("motorheatsink.T_in", "reservoir.T_out", "K"), ("motor1.throttle", "throttle", None), ("reservoir.mass", "coolant_mass", "kg"),
         ("motor1.elec_power_rating", "ac|propulsion|motor|rating", "W"), ("batt1.battery_weight", "ac|weights|W_battery", "kg"), ("prop1.diameter", "ac|propulsion|propeller|diameter", "m"),
         ("motorheatsink.mdot_coolant", "mdot_coolant", "kg/s"), ("reservoir.mdot_coolant", "mdot_coolant", "kg/s")]
WIRES = {
    "TwinSeriesHybridElectricPropulsionSystem": _TWIN + _ENERGY,
    "SingleSeriesHybridElectricPropulsionSystem": [("hybrid_split.power_in", "motor1.elec_load", "W"), ("batt1.elec_load", "hybrid_split.power_out_A", "W"), ("gen1.shaft_power_in", "eng1.shaft_power_out", "W"),
                                                   ("prop1.shaft_power_in", "motor1.shaft_power_out", "W"), ("motor1.elec_power_rating", "ac|propulsion|motor|rating", "W"),
                                                   ("gen1.elec_power_rating", "ac|propulsion|generator|rating", "W"), ("eng1.shaft_power_rating", "ac|propulsion|engine|rating", "W"),
                                                   ("batt1.battery_weight", "ac|weights|W_battery", "kg"), ("prop1.diameter", "ac|propulsion|propeller|diameter", "m")],
    "TwinSeriesHybridElectricThermalPropulsionSystem": _TWIN + _ENERGY + _HOT + _RES,
    "TwinSeriesHybridElectricThermalPropulsionRefrigerated": [("hybrid_split.power_in", "motor1.elec_load + motor2.elec_load + refrig.elec_load", "W")] + _TWIN[1:] + _ENERGY + _HOT + [
        ("refrig.T_in_cold", "motorheatsink.T_out", "K"), ("batteryheatsink.T_in", "refrig.T_out_cold", "K"), ("hx.T_in_hot", "refrig.T_out_hot", "K"), ("refrig.T_in_hot", "hx.T_out_hot", "K"),
        ("refrig.mdot_coolant", "ac|propulsion|thermal|hx|mdot_coolant", "kg/s"), ("refrig.power_rating", "ac|propulsion|thermal|refrig|rating", "W"),
        ("refrig.eff_factor", "ac|propulsion|thermal|refrig|eff", None), ("refrig.specific_power", "ac|propulsion|thermal|refrig|specific_power", "W/kg")],
    "AllElectricSinglePropulsionSystemWithThermal_Incompressible": _ELEC + [("reservoir.T_in", "hx.T_out_hot", "K"), ("hx.T_in_hot", "motorheatsink.T_out", "K"), ("hx.mdot_hot", "mdot_coolant", "kg/s"),
                                                                            ("hx.mdot_cold", "duct.mdot", "kg/s"), ("hx.T_in_cold", "fltcond|T", "K"), ("duct.area_nozzle", "area_nozzle", "m**2")],
    "AllElectricSinglePropulsionSystemWithThermal_Compressible": _ELEC + [("reservoir.T_in", "duct.T_out_hot", "K"), ("duct.T_in_hot", "motorheatsink.T_out", "K"), ("duct.mdot_hot", "mdot_coolant", "kg/s")],
    "TwinTurbopropPropulsionSystem": [("prop1.shaft_power_in", "eng1.shaft_power_out", "W"), ("prop2.shaft_power_in", "eng2.shaft_power_out", "W"), ("thrust", "prop1.thrust + prop2.thrust", "N"),
                                      ("fuel_flow", "eng1.fuel_flow + eng2.fuel_flow", "kg/s"), ("eng1.throttle", "throttle", None), ("eng2.throttle", "throttle * propulsor_active", None),
                                      ("eng1.shaft_power_rating", "ac|propulsion|engine|rating", "W"), ("eng2.shaft_power_rating", "ac|propulsion|engine|rating", "W")],
    "TurbopropPropulsionSystem": [("prop1.shaft_power_in", "eng1.shaft_power_out", "W"), ("eng1.throttle", "throttle", None), ("eng1.shaft_power_rating", "ac|propulsion|engine|rating", "W"),
                                  ("prop1.diameter", "ac|propulsion|propeller|diameter", "m")],
}


def _expr(v, expr, units):
    if " * " in expr:
        a, b = expr.split(" * ")
        ua, ub = units[1:] if isinstance(units, tuple) else (units, units)
        return v(a, ua) * v(b, ub)
    return sum(v(x, units) for x in expr.split(" + "))


def settled(prob, tol=1e-8):
    """Whether the solver left the equations of the model satisfied (a loop can stop on a residual that is small only next to where it began)."""
    prob.model.run_apply_nonlinear()
    for s in prob.model.system_iter(recurse=True, include_self=False):
        if s._subsystems_allprocs:
            continue
        for k in s._outputs:
            r, o = np.abs(np.asarray(s._residuals[k])), np.abs(np.asarray(s._outputs[k]))
            if not np.all(r <= tol * (np.max(o, initial=0.0) + 1e-3)):
                return False
    return True


def wire(v, a, expr, units):
    yield "%s = %s" % (a, expr), v(a, units[0] if isinstance(units, tuple) else units), _expr(v, expr, units), None, 1e-6


def guarded(rows):
    """The balances up to the first that needs a number the part does not (any longer) have under that name."""
    out = []
    try:
        for r in rows:
            out.append(r)
    except KeyError:
        pass
    return out


def check(prob, label, tol=1e-7, wires_only=False):
    """[(kind, where, text)] and how many balances were looked at.  wires_only: only the numbers the aircraft hands to its parts, which
    need no converged model."""
    bad, n = [], 0
    if wires_only:
        # a run that failed leaves unfinished values in every output; what only carries a number on is carried on again
        for _ in range(3):
            for g in prob.model.system_iter(recurse=True, include_self=True):
                if g._subsystems_allprocs:
                    g._transfer("nonlinear", "fwd")
            for g in prob.model.system_iter(recurse=True):
                if type(g).__name__ == "DVLabel":
                    g.run_solve_nonlinear()
    for s in prob.model.system_iter(recurse=True, include_self=True):
        name = type(s).__name__
        if not type(s).__module__.startswith("openconcept."):
            continue
        v = _v(s)
        rows = []
        if name in PARTS and not wires_only:
            rows += guarded(PARTS[name](s, v))
        for a, expr, units in WIRES.get(name, ()):
            if wires_only and "." in expr:
                continue
            rows += guarded(wire(v, a, expr, units))
        for r in rows:
            what, left, right = r[:3]
            scale = r[3] if len(r) > 3 and r[3] is not None else np.maximum(np.abs(left), np.abs(right))
            t = r[4] if len(r) > 4 else tol
            n += 1
            left, right = np.broadcast_arrays(np.asarray(left, float), np.asarray(right, float))
            scale = np.maximum(np.max(np.abs(scale)), 1e-9)
            e = np.abs(left - right)
            if not np.all(e <= t * scale):
                k = int(np.argmax(np.where(np.isfinite(e), e, np.inf)))
                bad.append(("balance broken: " + what, name, "%s%s node %d: %.10g against %.10g" % (label + " ", s.pathname, k, left.ravel()[k], right.ravel()[k])))
    return bad, n


CLASSES = sorted(set(PARTS) | set(WIRES) | {"CoolantReservoir", "LiquidCooledBattery", "SimplePropeller", "ImplicitCompressibleDuct_ExternalHX", "AllElectricSinglePropulsionSystemWithThermal_Compressible"})
