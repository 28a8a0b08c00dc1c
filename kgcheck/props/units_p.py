"""P23-P24: physical units."""
import math

import kerrgeopy as kg
import numpy as np
from hypothesis import strategies as st
from kerrgeopy import plunge as kgp
from kerrgeopy import stable as kgs
from kerrgeopy import units as ku

from .. import gen
from .frequencies_p import ref_orbit
from .plunge_p import ref_p, s_mild as s_plunge

C = 299792458.0
GM = 1.32712440018e20      # IAU heliocentric gravitational constant, known to 1e-10
MSUN = 1.98841e30          # GM / G (CODATA 2018), known to 2e-5
AU, LY = 1.495978707e11, 9.4607304725808e15
T = GM / C ** 3            # 4.9254909e-6 s
# name -> (value for one natural unit and one solar mass, power of the mass, accuracy of the constants involved)
FUNCS = {
    "mass_in_kg": None,
    "distance_in_meters": (GM / C ** 2, 1, 1e-5), "distance_in_cm": (GM / C ** 2 * 100, 1, 1e-5),
    "distance_in_km": (GM / C ** 2 / 1000, 1, 1e-5), "distance_in_lightyears": (GM / C ** 2 / LY, 1, 1e-4),
    "distance_in_au": (GM / C ** 2 / AU, 1, 1e-4), "time_in_seconds": (T, 1, 1e-5), "time2_in_seconds2": (T * T, 2, 1e-5),
    "time_in_days": (T / 86400, 1, 1e-5), "energy_in_joules": (MSUN * C ** 2, 1, 2e-4),
    "energy_in_ergs": (MSUN * C ** 2 * 1e7, 1, 2e-4), "angular_momentum_in_mks": (GM * MSUN / C, 2, 2e-4),
    "angular_momentum_in_cgs": (GM * MSUN / C * 1e7, 2, 2e-4), "carter_constant_in_mks": ((GM * MSUN / C) ** 2, 4, 4e-4),
    "carter_constant_in_cgs": ((GM * MSUN / C * 1e7) ** 2, 4, 4e-4), "frequency_in_Hz": (1 / T, -1, 1e-5),
    "frequency_in_mHz": (1e3 / T, -1, 1e-5),
}


@st.composite
def s_conv(draw):
    num = lambda: 0.0 if draw(gen.oneof([False] * 9 + [True])) else gen.sign(draw) * gen.LOG(draw, -6, 8)
    return {"fn": draw(gen.oneof(sorted(FUNCS))), "v": [num() for _ in range(draw(st.integers(1, 4)))],
            "M": gen.LOG(draw, -1, 10), "M2": gen.LOG(draw, -1, 10), "int": draw(st.booleans())}


def run_conv(ctx, k):
    f = getattr(ku, k["fn"])
    M, M2 = k["M"], k["M2"]
    if k["fn"] == "mass_in_kg":
        for m in k["v"] + [M]:
            ctx.close("mass in kg", f(m), m * MSUN, 2e-4 * abs(m) * MSUN + 1e-300)
        ctx.close("linear", f(M) * M2, f(M2) * M, 4e-15 * M * M2 * 2e30)
        ctx.close("arrays", f(np.array(k["v"])), np.array(k["v"]) * MSUN, 2e-4 * np.abs(k["v"]) * MSUN + 1e-300)
        ctx.label(k["fn"])
        return
    one, n, acc = FUNCS[k["fn"]]
    for v in k["v"]:
        ctx.close(f"{k['fn']}", f(v, M), v * one * M ** n, acc * abs(v) * one * M ** n + 1e-300, info=f"M={M}")
        # exact linearity and power law
        ctx.close(f"{k['fn']} is linear", f(v, M), v * f(1.0, M), 5e-15 * abs(v * f(1.0, M)) + 1e-300)
        ctx.close(f"{k['fn']} scales with the mass", f(v, M2), f(v, M) * (M2 / M) ** n, 1e-14 * abs(f(v, M2)) + 1e-300)
    a = np.array(k["v"])
    ctx.close(f"{k['fn']} of arrays", f(a, M), [f(v, M) for v in k["v"]], 5e-15 * np.abs(a * f(1.0, M)) + 1e-300)
    b = np.array([[1.0], [2.0]]) * a
    ctx.close(f"{k['fn']} of matrices", f(b, M), b * f(1.0, M), 5e-15 * np.abs(b * f(1.0, M)) + 1e-300)
    if k["int"]:
        ctx.close(f"{k['fn']} of integers", f(3, 10), f(3.0, 10.0), 5e-15 * abs(f(3.0, 10.0)))
    ctx.label(k["fn"])


def run_relations(ctx, k):
    """relations between the functions which hold to rounding"""
    M = k["M"]
    for v in k["v"]:
        def rel(name, x, y):
            ctx.close(name, x, y, 1e-14 * abs(y) + 1e-300)
        m = ku.distance_in_meters(v, M)
        rel("cm = 100 m", ku.distance_in_cm(v, M), 100 * m)
        rel("km = m / 1000", ku.distance_in_km(v, M), m / 1000)
        ctx.close("au", ku.distance_in_au(v, M), m / AU, 1e-4 * abs(m / AU) + 1e-300)
        ctx.close("light years", ku.distance_in_lightyears(v, M), m / LY, 1e-4 * abs(m / LY) + 1e-300)
        s = ku.time_in_seconds(v, M)
        rel("light crosses a distance in the time of the same number of natural units", m, C * s)
        rel("days", ku.time_in_days(v, M), s / 86400)
        rel("seconds squared", ku.time2_in_seconds2(v * v, M), s * s)
        if v:
            rel("frequency = 1 / time", ku.frequency_in_Hz(1 / v, M), 1 / s)
        rel("mHz", ku.frequency_in_mHz(v, M), 1e3 * ku.frequency_in_Hz(v, M))
        E = ku.energy_in_joules(v, M)
        rel("E = m c^2", E, v * ku.mass_in_kg(M) * C ** 2)
        rel("erg", ku.energy_in_ergs(v, M), 1e7 * E)
        L = ku.angular_momentum_in_mks(v, M)
        rel("action = energy times time", L, E * ku.time_in_seconds(1.0, M))
        rel("cgs action", ku.angular_momentum_in_cgs(v, M), 1e7 * L)
        rel("Carter constant is an action squared", ku.carter_constant_in_mks(v * v, M), L * L)
        rel("cgs Carter constant", ku.carter_constant_in_cgs(v, M), 1e14 * ku.carter_constant_in_mks(v, M))
    ctx.label("relations")


# ---------------------------------------------------------------- P24
DIST = {"natural": (1.0, 0, 1e-15), "mks": FUNCS["distance_in_meters"], "cgs": FUNCS["distance_in_cm"],
        "au": FUNCS["distance_in_au"], "km": FUNCS["distance_in_km"]}
TIME = {"natural": (1.0, 0, 1e-15), "mks": FUNCS["time_in_seconds"], "cgs": FUNCS["time_in_seconds"],
        "days": FUNCS["time_in_days"]}
DU = {"mks": ku.distance_in_meters, "cgs": ku.distance_in_cm, "au": ku.distance_in_au, "km": ku.distance_in_km,
      "natural": lambda d, M: d}
TU = {"mks": ku.time_in_seconds, "cgs": ku.time_in_seconds, "days": ku.time_in_days, "natural": lambda t, M: t}
BAD = ["m", "", "MKS", "seconds", "SI", "feet", "natural "]


@st.composite
def s_orbit(draw):
    kind = draw(gen.oneof(["stable", "plunging", "ic_stable", "ic_plunging", "constants_stable"]))
    if "stable" in kind:
        k = draw(gen.stable_params(emin=-1.5, xmin=-1, dlo=-1.5, dhi=1, high_e=False, high_a=False))
        if abs(k["x"]) < 0.2:
            k["x"] = math.copysign(0.2, k["x"])
            k["p"] = gen.sep(k["a"], k["e"], k["x"]) * (1 + k["d"])
    else:
        k = draw(s_plunge())
    k["kind"] = kind
    k["phases"] = [gen.U(draw, -50, 50), gen.U(draw, 0.4, 2.6), gen.U(draw, 0.4, 2.6), gen.U(draw, -3, 3)]
    k["M"], k["mu"] = gen.LOG(draw, 0, 8), gen.LOG(draw, -1, 3)
    k["du"], k["tu"] = draw(gen.oneof(sorted(DIST))), draw(gen.oneof(sorted(TIME)))
    k["lam"] = gen.U(draw, 0, 1.2)
    k["bad"] = draw(gen.oneof(BAD))
    return k


def orbit(k, M=None, mu=None):
    ph = tuple(k["phases"])
    if "p" in k:
        args = (k["a"], k["p"], k["e"], k["x"])
        mk = kg.StableOrbit
    else:
        args = (k["a"], k["E"], k["L"], k["Q"])
        mk = kg.PlungingOrbit
    kw = {}
    if M is not None:
        kw["M"] = M
    if mu is not None:
        kw["mu"] = mu
    if k["kind"].startswith("constants"):
        E, L, Q = kg.constants_of_motion(*args)
        # constants of motion refer to the spin axis: those of a < 0 are the ones of the mirror image
        return kg.StableOrbit.from_constants(k["a"], E, -L if k["a"] < 0 else L, Q, ph, **kw)
    if not k["kind"].startswith("ic"):
        return mk(*args, ph, **kw)
    o = mk(*args, ph)
    return kg.Orbit(o.a, o.initial_position, o.initial_velocity, **kw)


def run_orbit(ctx, k):
    from ..harness import Reject
    M, mu = k["M"], k["mu"]
    R = ref_orbit(k) if "p" in k else ref_p(k)
    ph = tuple(k["phases"])
    if k["kind"].startswith("ic"):
        if "p" in k and (k["e"] < 0.01 or (0 < R.zm < 0.05)):
            raise Reject()
        if "p" not in k:
            r, th = (float(v) for v in R.trajectory(0.0, ph)[1:3])
            if min(abs(r - R.rp), abs(r - R.rm), abs(r - R.rmin), abs(r - R.rmax)) < 0.02 or r * r + (R.a * math.cos(th)) ** 2 < 0.02:
                raise Reject()
            if 0 < R.zm < 0.05 or R.sep_scale < 0.01:
                raise Reject()
    if k["kind"].startswith("constants") and k["e"] < 0.01:
        raise Reject()
    o0, o = orbit(k), orbit(k, M, mu)
    if not k["kind"].startswith("ic"):
        ctx.same("initial phases", o.initial_phases, ph)
    nat = o0.constants_of_motion()
    ctx.same("natural constants", o.constants_of_motion(), nat)
    ctx.same("natural constants by name", o.constants_of_motion(units="natural"), nat)
    ctx.same("constants are the attributes", nat, (o0.E, o0.L, o0.Q))
    E, L, Q = nat
    for units, e in (("mks", 1), ("cgs", 1e7)):
        got = o.constants_of_motion(units)
        w = (E * mu * MSUN * C ** 2 * e, L * mu * M * GM * MSUN / C * e, Q * (mu * M * GM * MSUN / C * e) ** 2)
        ctx.close(f"constants in {units}", got, w, np.array([2e-4, 2e-4, 4e-4]) * np.abs(w) + 1e-300)
        x = np.array([E * mu * ku.energy_in_joules(1.0, 1.0) * e, L * mu * M * ku.angular_momentum_in_mks(1.0, 1.0) * e,
                      Q * (mu * M * ku.angular_momentum_in_mks(1.0, 1.0) * e) ** 2])
        ctx.close(f"constants in {units}, against the unit functions", got, x, 1e-13 * np.abs(x) + 1e-300)
        for kw in ({}, dict(M=M), dict(mu=mu)):
            ctx.raises(f"constants in {units} with {sorted(kw)} only", ValueError, orbit(k, **kw).constants_of_motion, units)
    ctx.raises("constants in unknown units", ValueError, o.constants_of_motion, k["bad"])
    # frequencies
    if k["kind"] in ("stable", "constants_stable"):
        m0, f0 = np.array(o0.mino_frequencies()), np.array(o0.fundamental_frequencies())
        for units in ("mks", "cgs"):
            w = m0 * [T * M, T * M, T * M, (T * M) ** 2]
            ctx.close(f"Mino frequencies in {units}", o.mino_frequencies(units), w, 2e-5 * np.abs(w))
            s = ku.time_in_seconds(1.0, M)
            w = m0 * [s, s, s, s * s]
            ctx.close(f"Mino frequencies in {units}, against the unit functions", o.mino_frequencies(units), w, 1e-13 * np.abs(w))
        for units, e in (("mks", 1), ("cgs", 1), ("mHz", 1e3)):
            w = f0 / (T * M) * e
            ctx.close(f"frequencies in {units}", o.fundamental_frequencies(units), w, 1e-5 * np.abs(w))
            w = f0 * ku.frequency_in_Hz(1.0, M) * e
            ctx.close(f"frequencies in {units}, against the unit functions", o.fundamental_frequencies(units), w, 1e-13 * np.abs(w))
            ctx.raises(f"frequencies in {units} without M", ValueError, o0.fundamental_frequencies, units)
        ctx.raises("Mino frequencies without M", ValueError, o0.mino_frequencies, "mks")
        ctx.raises("Mino frequencies without M", ValueError, o0.mino_frequencies, "cgs")
        ctx.raises("Mino frequencies in unknown units", ValueError, o.mino_frequencies, k["bad"])
        ctx.raises("frequencies in unknown units", ValueError, o.fundamental_frequencies, k["bad"])
    # trajectories
    lam = k["lam"] * 2 * math.pi / R.upsilon_r * np.array([0.0, 0.3, 1.0])
    nat = [f(lam) for f in o0.trajectory()]
    du, tu = k["du"], k["tu"]
    routes = [("method", o.trajectory(distance_units=du, time_units=tu)), ("positional", o.trajectory(None, du, tu)),
              ("method with phases", o.trajectory(o.initial_phases, du, tu))]
    if k["kind"] == "stable":
        routes.append(("function", kgs.stable_trajectory(k["a"], k["p"], k["e"], k["x"], ph, M, du, tu)))
    elif k["kind"] == "plunging":
        routes.append(("function", kgp.plunging_trajectory(k["a"], k["E"], k["L"], k["Q"], ph, M, du, tu)))
    tv, rv, tacc, racc = TIME[tu][0] * M ** TIME[tu][1], DIST[du][0] * M ** DIST[du][1], TIME[tu][2], DIST[du][2]
    for nm, f in routes:
        got = [g(lam) for g in f]
        ctx.close(f"t in {tu} ({nm})", got[0], nat[0] * tv, (tacc + 1e-15) * np.abs(nat[0]) * tv + 1e-12 * tv)
        ctx.close(f"r in {du} ({nm})", got[1], nat[1] * rv, (racc + 1e-15) * np.abs(nat[1]) * rv)
        ctx.close(f"t in {tu} ({nm}), against the unit functions", got[0], TU[tu](nat[0], M), 1e-12 * tv * (1 + np.abs(nat[0])))
        ctx.close(f"r in {du} ({nm}), against the unit functions", got[1], DU[du](nat[1], M), 1e-12 * rv * np.abs(nat[1]))
        ctx.close("theta has no units", got[2], nat[2], 1e-13)
        ctx.close("phi has no units", got[3], nat[3], 1e-12 * (1 + np.abs(nat[3])))
    ctx.close("natural units are the default", [f(lam) for f in o.trajectory()], nat, 1e-15 + 0 * np.abs(nat))
    if du != "natural":
        ctx.raises(f"distance in {du} without M", ValueError, o0.trajectory, distance_units=du)
    if tu != "natural":
        ctx.raises(f"time in {tu} without M", ValueError, o0.trajectory, time_units=tu)
    ctx.raises("trajectory in unknown distance units", Exception, lambda: [f(0.5) for f in o.trajectory(distance_units=k["bad"])])
    ctx.raises("trajectory in unknown time units", Exception, lambda: [f(0.5) for f in o.trajectory(time_units=k["bad"])])
    # masses are only units: nothing else depends on them
    ctx.same("initial velocity", o.initial_velocity, o0.initial_velocity)
    ctx.same("initial position", o.initial_position, o0.initial_position)
    ctx.check("M and mu", o.M == M and o.mu == mu and o0.M is None and o0.mu is None, f"{o.M} {o.mu}")
    ctx.close("four-velocity is in natural units", [f(lam[1]) for f in o.four_velocity()], [f(lam[1]) for f in o0.four_velocity()], 1e-15)
    ctx.label(k["kind"], "distance " + du, "time " + tu)


@st.composite
def s_scale(draw):
    return {"c": [gen.U(draw, -1, 1), gen.U(draw, -20, 20), gen.U(draw, 0, 200)], "M": gen.LOG(draw, -2, 8), "mu": gen.LOG(draw, -6, 3)}


def run_scale(ctx, k):
    M, mu = k["M"], k["mu"]
    E, L, Q = k["c"]
    got = kg.constants.scale_constants(tuple(k["c"]), M, mu)
    w = np.array([E * mu, L * mu * M, Q * mu ** 2 * M ** 2])
    ctx.close("scaled constants", got, w, 1e-14 * np.abs(w) + 1e-300)
    ctx.label("scale_constants")


PROPS = [
    dict(id="P23", rule="every conversion function with generated values (including 0, negative, arrays, matrices, integers) and "
         "masses 0.1 to 1e10. Non-trivial: every distinct case.",
         oracles=[dict(name="values", strategy=s_conv(), run=run_conv, n=4000),
                  dict(name="relations", strategy=s_conv(), run=run_relations, n=1600)]),
    dict(id="P24", rule="stable and plunging orbits, by parameters, by constants of motion and by initial conditions, with generated masses and each "
         "combination of units; unknown units and missing masses. Non-trivial: every distinct case.",
         oracles=[dict(name="orbits", strategy=s_orbit(), run=run_orbit, n=1200),
                  dict(name="scaling", strategy=s_scale(), run=run_scale, n=800)]),
]
