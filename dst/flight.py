"""Invariants over a converged simulated flight (P09, P10, P11, P13, P14).  Everything is read through public variable names and
recomputed with the formulas stated in the properties; each function returns [(kind, where, message)]."""
import numpy as np

from . import missions as M
from .missions import BATTERY, HYBRID, THERMAL
from .traj import simpson

G = 9.80665
RT = 1e-6


class View:
    """Read access to one mission problem in SI units."""

    def __init__(self, prob, spec):
        self.p, self.spec, self.N = prob, spec, M.Names(spec)

    def __call__(self, name, units=None):
        return np.array(self.p.get_val(self.N(name), units=units), dtype=float).ravel()

    def s(self, name, units=None):
        return float(self(name, units)[0])

    def has(self, name):
        try:
            self.p.get_val(self.N(name))
            return True
        except KeyError:
            return False


def near(a, b, scale, rt=RT):
    return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= rt * scale))


def seq(spec):
    """Consecutive flown phases (the abort branch v1v0 and the climb-angle point are not part of the flight)."""
    pr = spec["profile"]
    out = ["v0v1", "v1vr", "rotate"] if pr in ("full", "fullres") else (["groundroll"] if spec.get("ground_roll") else [])
    out += M.STEADY
    if pr in ("reserve", "fullres"):
        out += M.RES
    return out


def soc_name(ph):
    return ph + ".propmodel.batt1.SOC"


def initial_name(ph, q):
    if q == "fuel":
        return ph + ".fuel_used_initial"
    if q == "SOC":
        return ph + ".propmodel.batt1.SOC_initial"
    steady = ph in M.STEADY + M.RES
    if q == "range":
        return ph + (".ode_integ_phase.range_initial" if steady else ".range_initial")
    return ph + ".ode_integ_phase.fltcond|h_initial"


def state(v, ph, q):
    """(history, units scale) of a shared quantity in a phase, or None when the phase has no history of it."""
    if q == "fuel":
        return v(ph + ".fuel_used", "kg")
    if q == "SOC":
        return v(soc_name(ph))
    if q == "T motor":
        return v(ph + ".propmodel.motorheatsink.T", "degK")
    if q == "T battery":
        return v(ph + ".propmodel.batteryheatsink.T", "degK")
    if q == "T reservoir":
        return v(ph + ".propmodel.reservoir.T_out", "degK")
    if q == "range":
        return v(ph + ".range", "m")
    return v(ph + ".fltcond|h", "m")


SCALE = {"fuel": 100.0, "SOC": 1.0, "range": 1e5, "h": 5e3, "T motor": 300.0, "T reservoir": 300.0, "T battery": 300.0}
TNAME = {"motorheatsink": "T motor", "reservoir": "T reservoir", "batteryheatsink": "T battery"}


def handovers(spec):
    """[(quantity, from, to, how)] for every pair of phases the profile links; how is 'link' or 'skip'."""
    out = []
    hyb = spec["ac"]["kind"] in BATTERY
    s = seq(spec)
    pairs = list(zip(s[:-1], s[1:]))
    if "v0v1" in s:
        pairs.append(("v0v1", "v1v0"))
    for a, b in pairs:
        out.append(("fuel", a, b, "link"))
        if hyb:
            out.append(("SOC", a, b, "link"))
        out += [(TNAME[c], a, b, "link") for c in THERMAL.get(spec["ac"]["kind"], ())]
        out.append(("range", a, b, "link"))
        if b == "reserve_climb":
            out.append(("h", a, b, "own"))
        elif b == "loiter":
            out.append(("h", a, b, "loiter|h0"))
        elif b in ("v1vr", "rotate", "v1v0"):
            pass
        elif b == "climb":
            out.append(("h", a, b, "h_obstacle" if a == "rotate" else "takeoff|h"))
        else:
            out.append(("h", a, b, "link"))
    return out


def links(prob, spec, d):
    v = View(prob, spec)
    bad = []
    for q, a, b, how in handovers(spec):
        x = state(v, b, q)
        if how == "link":
            want = state(v, a, q)[-1]
        elif how == "own":
            want = d.get("own_h", 0.0)
        elif how == "h_obstacle":
            want = v.s(a + ".fltcond|h_final", "m")
        else:
            want = v.s(how, "m")
        sc = max(SCALE[q], abs(want))
        if not near(x[0], want, sc, 1e-9):
            bad.append(("jump in a linked state" if how == "link" else "a skipped state lost its own start", "%s at %s" % (q, b),
                        "%s starts %s at %.9g, %s (%s) says %.9g" % (q, b, x[0], a, how, want)))
    s = seq(spec)
    if "v0v1" in s:
        for a, b, x0, want in (("v0v1", "v1vr", v("v1vr.fltcond|Utrue", "m/s")[0], v("v0v1.fltcond|Utrue", "m/s")[-1]),
                               ("v0v1", "v1v0", v("v1v0.fltcond|Utrue", "m/s")[0], v("v0v1.fltcond|Utrue", "m/s")[-1])):
            if not near(x0, want, 50.0, 1e-6):
                bad.append(("jump in a linked state", "speed at %s" % b, "%s ends at %.9g m/s, %s starts at %.9g m/s" % (a, want, b, x0)))
    # the first phase starts with its own values
    first = s[0]
    own_T = dict(zip([TNAME[c] for c in THERMAL.get(spec["ac"]["kind"], ())], d.get("own_T", ())))
    for q in ["fuel"] + (["SOC"] if spec["ac"]["kind"] in BATTERY else []) + list(own_T):
        want = own_T[q] if q[0] == "T" else d.get("own_" + q, 1.0 if q == "SOC" else 0.0)
        x = state(v, first, q)[0]
        if not near(x, want, SCALE[q], 1e-9):
            bad.append(("first phase lost its own start", "%s at %s" % (q, first), "%s starts %s at %.9g instead of %.9g" % (q, first, x, want)))
    return bad


def profile(prob, spec, d):
    """P14."""
    v = View(prob, spec)
    bad = []

    def eq(what, got, want, scale, rt=RT):
        if not near(got, want, scale, rt):
            bad.append((what[0], what[1], "%s: %.9g instead of %.9g" % (what[1], got, want)))

    NM, ft = 1852.0, 0.3048
    eq(("requested range not flown", "range at the end of descent"), v("descent.range", "m")[-1], d["mission_range"] * NM, 1e5)
    eq(("requested altitude not reached", "altitude at the end of climb"), v("climb.fltcond|h", "m")[-1], d["cruise|h0"] * ft, 1e3)
    eq(("requested altitude not reached", "altitude at the end of descent"), v("descent.fltcond|h", "m")[-1], d["takeoff|h"] * ft, 1e3)
    res = spec["profile"] in ("reserve", "fullres")
    if res:
        eq(("requested range not flown", "reserve range"), v("reserve_descent.range", "m")[-1] - v("descent.range", "m")[-1], d["reserve_range"] * NM, 1e5)
        eq(("requested altitude not reached", "altitude at the end of reserve climb"), v("reserve_climb.fltcond|h", "m")[-1], d["reserve|h0"] * ft, 1e3)
        eq(("requested altitude not reached", "altitude at the end of reserve descent"), v("reserve_descent.fltcond|h", "m")[-1], d["takeoff|h"] * ft, 1e3)
        eq(("requested altitude not reached", "loiter altitude"), v("loiter.fltcond|h", "m")[0], d["loiter|h0"] * ft, 1e3)
        eq(("holding time differs", "loiter duration"), v.s("loiter.duration", "s"), d["loiter_duration"], 1e3)
    S = v.s_ref if False else float(prob.get_val("ac|geom|wing|S_ref", units="m**2")[0])
    for ph in M.STEADY + (M.RES if res else []):
        q = d["phases"][ph]
        nn = spec["nn"]
        vs, ut = v(ph + ".fltcond|vs", "m/s"), v(ph + ".fltcond|Utrue", "m/s")
        t = np.linspace(1.0, q["taper"], nn)
        vs_cmd = (q["vs"] * t if ph.split("_")[-1] in ("climb", "descent") else np.full(nn, q["vs"])) * 0.3048 / 60.0
        ue_cmd = q["Ueas"] * np.linspace(1.0, 1 + (q["taper"] - 1) / 3, nn) * NM / 3600.0
        rho, h = v(ph + ".fltcond|rho", "kg/m**3"), v(ph + ".fltcond|h", "m")
        if not near(vs, vs_cmd, 1.0):
            bad.append(("commanded vertical speed not flown", ph, "%s: %s vs %s" % (ph, vs[:3], vs_cmd[:3])))
        # International standard atmosphere below 11 km
        std = 1.225 * (1 - 0.0065 * h / 288.15) ** (G * 0.0289644 / (8.31446 * 0.0065) - 1)
        if not near(rho, std, 1.0, 4e-3):
            k = int(np.argmax(np.abs(rho - std)))
            bad.append(("air density does not belong to the flown altitude", ph, "%s node %d: density %.6g, at %.1f m it is %.6g" % (ph, k, rho[k], h[k], std[k])))
        if not near(ut, ue_cmd * np.sqrt(1.225 / rho), 100.0, 1e-4):
            k = int(np.argmax(np.abs(ut - ue_cmd * np.sqrt(1.225 / rho))))
            bad.append(("commanded airspeed not flown", ph, "%s node %d: true airspeed %.9g, commanded %.9g" % (ph, k, ut[k], (ue_cmd * np.sqrt(1.225 / rho))[k])))
        gs = np.sqrt(np.maximum(ut ** 2 - vs ** 2, 0))
        sing, cosg = vs / ut, gs / ut
        T, D, W = v(ph + ".thrust", "N"), v(ph + ".drag", "N"), v(ph + ".weight", "kg")
        r = T - D - W * G * sing
        if not near(r, 0.0, np.max(W) * G, 1e-6):
            k = int(np.argmax(np.abs(r)))
            bad.append(("thrust does not balance drag and weight", ph, "%s node %d: thrust %.9g, drag %.9g, weight along the path %.9g N" % (ph, k, T[k], D[k], (W * G * sing)[k])))
        L = v(ph + ".fltcond|CL") * 0.5 * rho * ut ** 2 * S
        if not near(L, W * G * cosg, np.max(W) * G, 1e-4):
            k = int(np.argmax(np.abs(L - W * G * cosg)))
            bad.append(("lift does not carry the weight", ph, "%s node %d: lift %.9g, weight across the path %.9g N" % (ph, k, L[k], (W * G * cosg)[k])))
        dur = v.s(ph + ".duration", "s")
        for nm, hist, rate in (("altitude", h, vs), ("ground distance", v(ph + ".range", "m"), gs)):
            want = hist[0] + simpson(rate, dur)
            if not near(hist, want, max(1e3, np.max(np.abs(want))), 1e-6):
                k = int(np.argmax(np.abs(hist - want)))
                bad.append(("%s inconsistent with speed and time" % nm, ph, "%s node %d: %s %.9g, speed and time give %.9g" % (ph, k, nm, hist[k], want[k])))
        if not dur > 0:
            bad.append(("phase has no duration", ph, "%s lasts %.6g s" % (ph, dur)))
    return bad


def engine_flow(v, ph, spec):
    """Sum of what the engines of the aircraft consume, kg/s."""
    k = spec["ac"]["kind"]
    pm = ph + ".acmodel.propmodel."
    if k == "jet":
        return v(ph + ".propmodel.eng.flow1", "kg/s") + v(ph + ".propmodel.eng.flow2", "kg/s")
    if k == "twin":
        return v(ph + ".propmodel.eng1.fuel_flow", "kg/s") + v(ph + ".propmodel.eng2.fuel_flow", "kg/s")
    return v(ph + ".fuel_flow", "kg/s")


def ledger(prob, spec, d):
    """P11."""
    v = View(prob, spec)
    bad = []
    mtow = float(prob.get_val("ac|weights|MTOW", units="kg")[0])
    burned = {}
    phases = seq(spec) + (["v1v0"] if "v0v1" in seq(spec) else [])
    start = d.get("own_fuel", 0.0)
    soc = d.get("own_SOC", 1.0)
    kind = spec["ac"]["kind"]
    hyb = kind in HYBRID
    end_fuel, end_soc = {}, {}
    prev = {b: a for a, b in zip(seq(spec)[:-1], seq(spec)[1:])}
    prev["v1v0"] = "v0v1"
    for ph in phases:
        dur = v.s(ph + ".duration", "s")
        flow = engine_flow(v, ph, spec)
        own = simpson(flow, dur)
        f0 = start if ph not in prev else end_fuel[prev[ph]]
        want = f0 + own
        end_fuel[ph] = want[-1]
        got, w = v(ph + ".fuel_used", "kg"), v(ph + ".weight", "kg")
        if not near(got, want, max(10.0, np.max(np.abs(want))), 1e-6):
            k = int(np.argmax(np.abs(got - want)))
            bad.append(("fuel burned is not what the engines consumed", ph, "%s node %d: fuel burned %.9g kg, engines consumed %.9g kg so far" % (ph, k, got[k], want[k])))
        if not near(w, mtow - want, mtow, 1e-8):
            k = int(np.argmax(np.abs(w - (mtow - want))))
            bad.append(("weight is not take-off weight minus fuel burned", ph, "%s node %d: weight %.9g kg, take-off weight minus fuel %.9g kg" % (ph, k, w[k], (mtow - want)[k])))
        if np.all(flow >= 0) and np.max(flow) <= 8 * max(np.min(flow), 1e-30):
            if np.min(np.diff(got)) < -1e-9 * max(1.0, np.max(got)):
                bad.append(("fuel burned decreases", ph, "%s: fuel burned %s" % (ph, got)))
        elif got[-1] < got[0] - 1e-6 and np.all(flow >= 0):
            bad.append(("fuel burned decreases", ph, "%s: fuel burned %s" % (ph, got)))
        if kind == "elec":
            cap = float(prob.get_val("ac|weights|W_battery", units="kg")[0]) * 500.0 * 3600.0
            s0 = soc if ph not in prev else end_soc[prev[ph]]
            want = s0 - simpson(v(ph + ".propmodel.motor1.elec_load", "W"), dur) / cap
            end_soc[ph] = want[-1]
            got = v(soc_name(ph))
            if not near(got, want, 1.0, 1e-6):
                k = int(np.argmax(np.abs(got - want)))
                bad.append(("battery charge differs from the energy drawn", ph, "%s node %d: charge %.9g, energy drawn gives %.9g" % (ph, k, got[k], want[k])))
        if hyb:
            pm = ph + ".propmodel."
            load = v(pm + "motor1.elec_load", "W") + v(pm + "motor2.elec_load", "W")
            frac = v(ph + ".hybridization")[0]
            cap = float(prob.get_val("ac|weights|W_battery", units="kg")[0]) * float(prob.get_val("ac|propulsion|battery|specific_energy", units="J/kg")[0])
            s0 = soc if ph not in prev else end_soc[prev[ph]]
            want = s0 - simpson(load * frac, dur) / cap
            end_soc[ph] = want[-1]
            got = v(soc_name(ph))
            if not near(got, want, 1.0, 1e-6):
                k = int(np.argmax(np.abs(got - want)))
                bad.append(("battery charge differs from the energy drawn", ph, "%s node %d: charge %.9g, energy drawn gives %.9g" % (ph, k, got[k], want[k])))
            gen, need = v(pm + "gen1.elec_power_out", "W"), load * (1 - frac)
            if not near(gen, need, max(1e4, np.max(np.abs(need))), 1e-6):
                bad.append(("electrical load not covered", ph, "%s: generator gives %s W, motors need %s W beyond the battery" % (ph, gen[:3], need[:3])))
    return bad


def takeoff(prob, spec, d):
    """P13."""
    v = View(prob, spec)
    bad = []

    def eq(kind, where, got, want, scale, rt=1e-6):
        if not near(got, want, scale, rt):
            bad.append((kind, where, "%s: %.9g, expected %.9g" % (where, got, want)))

    v1 = v.s("takeoff|v1", "m/s")
    vr = v.s("v1vr.takeoff|vr", "m/s")
    mtow, S, cl = (float(prob.get_val(n, units=u)[0]) for n, u in (("ac|weights|MTOW", "kg"), ("ac|geom|wing|S_ref", "m**2"), ("ac|aero|CLmax_TO", None)))
    vs = np.sqrt(2 * mtow * G / (1.225 * S * cl))
    eq("rotation speed is not 1.1 times the stall speed", "rotation speed", vr, 1.1 * vs, vs, 1e-4)
    cont, abort = v.s("rotate.range_final", "m"), v.s("v1v0.range_final", "m")
    if v1 > vr + 0.11:
        bad.append(("decision speed above rotation speed", "v1", "v1 %.6g m/s, vr %.6g m/s" % (v1, vr)))
    balanced = near(cont, abort, 1e3, 1e-6)
    at_vr = abs(v1 - vr) <= 0.11
    if not balanced and not (at_vr and abort <= cont + 1e-3 * cont):
        bad.append(("field is not balanced", "v1", "continue %.6g m, stop %.6g m, v1 %.6g, vr %.6g m/s" % (cont, abort, v1, vr)))
    u = {p: v(p + ".fltcond|Utrue", "m/s") for p in ("v0v1", "v1vr", "v1v0", "rotate")}
    eq("speed gap along the take-off", "start of the roll", u["v0v1"][0], 2.0, 10.0)
    eq("speed gap along the take-off", "end of v0v1 at the decision speed", u["v0v1"][-1], v1, 50.0)
    eq("speed gap along the take-off", "start of v1vr at the decision speed", u["v1vr"][0], v1, 50.0)
    eq("speed gap along the take-off", "end of v1vr at the rotation speed", u["v1vr"][-1], vr, 50.0)
    eq("speed gap along the take-off", "start of the stop at the decision speed", u["v1v0"][0], v1, 50.0)
    eq("speed gap along the take-off", "end of the stop", u["v1v0"][-1], 2.0, 10.0)
    if spec.get("transition") == "ode":
        eq("speed gap along the take-off", "start of rotation", u["rotate"][0], u["v1vr"][-1], 50.0)
    else:
        rho = v("rotate.fltcond|rho", "kg/m**3")
        eq("speed gap along the take-off", "start of rotation", u["rotate"][0], vr * np.sqrt(1.225 / rho[0]), 50.0, 1e-4)
        eq("speed gap along the take-off", "lift-off safety speed", u["rotate"][-1], 1.2 * vs * np.sqrt(1.225 / rho[-1]), 50.0, 1e-4)
    r = {p: v(p + ".range", "m") for p in ("v0v1", "v1vr", "v1v0", "rotate")}
    eq("distance gap along the take-off", "start of the roll", r["v0v1"][0], 0.0, 100.0)
    eq("distance gap along the take-off", "start of v1vr", r["v1vr"][0], r["v0v1"][-1], 1e3)
    eq("distance gap along the take-off", "start of rotation", r["rotate"][0], r["v1vr"][-1], 1e3)
    eq("distance gap along the take-off", "start of the stop", r["v1v0"][0], r["v0v1"][-1], 1e3)
    eq("distance gap along the take-off", "distance over the obstacle", r["rotate"][-1], cont, 1e3)
    eq("obstacle height not met", "height at the end of rotation", v.s("rotate.fltcond|h_final", "m"), 35 * 0.3048, 10.0, 2e-3)
    eq("distance gap along the take-off", "start of climb", v("climb.range", "m")[0], cont, 1e3)
    for p in ("v0v1", "v1vr", "v1v0", "rotate"):
        dur = v.s(p + ".duration", "s")
        if not dur > -1e-6:
            bad.append(("time gap along the take-off", p, "%s lasts %.6g s" % (p, dur)))
        if p != "rotate" or spec.get("transition") == "ode":
            gs = np.sqrt(np.maximum(u[p] ** 2 - v(p + ".fltcond|vs", "m/s") ** 2, 0))
            want = r[p][0] + simpson(gs, dur)
            if not near(r[p], want, 1e3, 1e-6):
                bad.append(("distance gap along the take-off", "%s distance against speed and time" % p, "%s: %.9g m, speed and time give %.9g m" % (p, r[p][-1], want[-1])))
    # which engine runs when
    kind = spec["ac"]["kind"]
    for p in ("v0v1", "v1vr", "rotate", "v1v0", "engineoutclimb"):
        if kind == "jet":
            t2, t1 = v(p + ".propmodel.eng.thrust2", "N"), v(p + ".propmodel.eng.thrust1", "N")
        elif kind == "twin":
            t2, t1 = v(p + ".propmodel.eng2.shaft_power_out", "W"), v(p + ".propmodel.eng1.shaft_power_out", "W")
        else:
            t2, t1 = v(p + ".propmodel.motor2.shaft_power_out", "W"), v(p + ".propmodel.motor1.shaft_power_out", "W")
        if p == "v0v1":
            if not near(t1, t2, np.max(np.abs(t1)) + 1e-9) or not np.all(t1 > 0):
                bad.append(("engine state wrong for the segment", p, "%s: engines give %s and %s" % (p, t1[:2], t2[:2])))
        elif p == "v1v0":
            if np.max(np.abs(t1)) > 1e-6 or np.max(np.abs(t2)) > 1e-6:
                bad.append(("engine state wrong for the segment", p, "%s: engines give %s and %s" % (p, t1[:2], t2[:2])))
        elif np.max(np.abs(t2)) > 1e-6 or not np.all(t1 > 0):
            bad.append(("engine state wrong for the segment", p, "%s: engines give %s and %s" % (p, t1[:2], t2[:2])))
    return bad
