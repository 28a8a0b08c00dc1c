"""P31: numeric types and containers of arguments."""
import fractions
import math

import kerrgeopy as kg
import numpy as np
from hypothesis import strategies as st
from kerrgeopy import constants as kgc
from kerrgeopy import frequencies as kgf
from kerrgeopy import initial_conditions as kgi
from kerrgeopy import plunge as kgp
from kerrgeopy import stable as kgs
from kerrgeopy import units as ku

from .. import gen, ref
from ..harness import Reject

KINDS = ["int", "int64", "int32", "float64", "zero-dim"]
BOXES = ["tuple", "list", "array"]


def conv(kind, v):
    whole = float(v).is_integer()
    if kind == "int":
        return int(v) if whole else float(v)
    if kind == "int64":
        return np.int64(v) if whole else np.float64(v)
    if kind == "int32":
        return np.int32(v) if whole and abs(v) < 2e9 else np.float64(v)
    if kind == "float64":
        return np.float64(v)
    return np.array(float(v))


def box(kind, vs):
    if kind == "list":
        return list(vs)
    if kind == "array":
        return np.array(vs)
    return tuple(vs)


@st.composite
def s_stable(draw):
    a = draw(gen.oneof([0, 0, 0.5, -0.5, 0.25, -0.75, 0.9375]))
    e = draw(gen.oneof([0, 0, 0.25, 0.5, 0.75]))
    x = draw(gen.oneof([1, -1, 1, -1, 0.5, -0.5, 0.25]))
    p = math.ceil(gen.sep(a, e, x) + draw(gen.oneof([0.25, 1, 3, 20, 200, 5000])))
    return {"a": a, "p": p, "e": e, "x": x, "kinds": [draw(gen.oneof(KINDS)) for _ in range(4)],
            "num": draw(gen.oneof(KINDS)), "box": draw(gen.oneof(BOXES)),
            "phases": [draw(st.integers(-20, 20)) / draw(gen.oneof([1, 1, 2])) for _ in range(4)], "lam": draw(st.integers(-3, 3))}


def flat(v):
    """all numbers in a nested result"""
    if isinstance(v, (tuple, list)):
        return [w for u in v for w in flat(u)]
    v = np.asarray(v)
    return [v.item()] if v.ndim == 0 else [w for u in v for w in flat(u)]


def compare(ctx, name, f, plain, other, rel=1e-9):
    want = [float(w) if not isinstance(w, complex) else w for w in flat(f(*plain))]
    got = flat(f(*other))
    ctx.check(f"{name}: number of results", len(got) == len(want), f"{got!r} instead of {want!r}")
    for i, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, complex):
            ctx.close(f"{name} {i} (real part)", complex(g).real, w.real, rel * (1 + abs(w)))
            ctx.close(f"{name} {i} (imaginary part)", abs(complex(g).imag), abs(w.imag), rel * (1 + abs(w)))
        elif math.isfinite(w):
            ctx.close(f"{name} {i}", g, w, rel * (1 + abs(w)), info=f"arguments {other!r}")
        else:
            ctx.same(f"{name} {i}", float(g), w, info=f"arguments {other!r}")


def run_stable(ctx, k):
    plain = tuple(float(k[n]) for n in "apex")
    other = tuple(conv(c, k[n]) for c, n in zip(k["kinds"], "apex"))
    ph, lam = tuple(float(v) for v in k["phases"]), float(k["lam"]) / 4
    ph2 = box(k["box"], [conv(k["num"], v) for v in k["phases"]])
    lam2 = conv(k["num"], k["lam"]) / 4
    # constants
    fs = [("constants_of_motion", kg.constants_of_motion), ("energy", kg.energy), ("angular_momentum", kg.angular_momentum),
          ("carter_constant", kg.carter_constant), ("stable_radial_roots", kgc.stable_radial_roots),
          ("mino_frequencies", kg.mino_frequencies), ("fundamental_frequencies", kg.fundamental_frequencies),
          ("r_frequency", kgf.r_frequency), ("theta_frequency", kgf.theta_frequency), ("phi_frequency", kgf.phi_frequency),
          ("gamma", kgf.gamma)]
    for nm, f in fs:
        compare(ctx, nm, f, plain, other)
    compare(ctx, "stable_polar_roots", lambda *q: kgc.stable_polar_roots(*q)[:1 if k["a"] == 0 else 2], plain, other)
    if k["a"] >= 0:
        compare(ctx, "separatrix", kg.separatrix, (plain[0], plain[2], plain[3]), (other[0], other[2], other[3]))
        ctx.check("is_stable", bool(kg.is_stable(*other)) is True, repr(other))
        compare(ctx, "methods of the spacetime", lambda a, p, e, x: (float(kg.KerrSpacetime(a).separatrix(e, x)),
                float(kg.KerrSpacetime(a).is_stable(p, e, x)), kg.KerrSpacetime(a).inner_horizon, kg.KerrSpacetime(a).outer_horizon), plain, other)
    # the constants and frequencies in any container
    cons = kg.constants_of_motion(*plain)
    c2 = box(k["box"], cons)
    for nm, f in (("stable_radial_roots", kgc.stable_radial_roots), ("r_frequency", kgf.r_frequency), ("theta_frequency", kgf.theta_frequency),
                  ("phi_frequency", kgf.phi_frequency), ("gamma", kgf.gamma)):
        compare(ctx, nm + " with constants", lambda c, *q: f(*q, c), (cons,) + plain, (c2,) + other)
    if k["e"] > 0 and k["a"] >= 0:
        compare(ctx, "apex_from_constants", kg.apex_from_constants, (plain[0],) + tuple(cons), (other[0],) + tuple(np.float64(c) for c in cons))
    # objects

    def parts(o, q):
        return [o.E, o.L, o.Q, o.upsilon_r, o.upsilon_theta, o.upsilon_phi, o.gamma, o.initial_position, o.initial_velocity,
                o.constants_of_motion(), o.mino_frequencies(), o.fundamental_frequencies(), o.a, o.p, o.e, o.x]

    def motion(fs, t):
        return [f(t) for f in fs]
    compare(ctx, "StableOrbit", lambda q, *w: parts(kg.StableOrbit(*w, q), q), (ph,) + plain, (ph2,) + other)
    compare(ctx, "trajectory", lambda q, t, *w: motion(kg.StableOrbit(*w, q).trajectory(), t), (ph, lam) + plain, (ph2, lam2) + other)
    compare(ctx, "stable_trajectory", lambda q, t, *w: motion(kgs.stable_trajectory(*w, q), t), (ph, lam) + plain, (ph2, lam2) + other)
    o, o2 = kg.StableOrbit(*plain), kg.StableOrbit(*other)
    for nm in ("trajectory", "four_velocity", "trajectory_deltas"):
        compare(ctx, nm + " of other phases", lambda ob, q, t: motion(getattr(ob, nm)(initial_phases=q), t), (o, ph, lam), (o2, ph2, lam2))
    # whole Mino times
    compare(ctx, "trajectory at whole Mino times", lambda ob, t: motion(ob.trajectory(), t), (o, float(k["lam"])), (o2, conv(k["num"], k["lam"])))
    # units
    M = 10 ** (2 + int(abs(k["phases"][0])) % 8)
    compare(ctx, "units", lambda m: motion(kg.StableOrbit(*plain, M=m, mu=m).trajectory(distance_units="km", time_units="days"), lam)
            + list(kg.StableOrbit(*plain, M=m, mu=m).constants_of_motion("mks")), (float(M),), (conv(k["num"], M),))
    compare(ctx, "scale_constants", lambda c, m, mu: kgc.scale_constants(c, m, mu), (cons, float(M), float(M // 100)),
            (c2, conv(k["num"], M), conv(k["num"], M // 100)))
    ctx.label("numbers: " + "/".join(sorted(set(k["kinds"]))), "container: " + k["box"])


@st.composite
def s_plunge(draw):
    k = draw(gen.plunge_params(amin=0.05, lmin=0.03, emax=1e-3))
    k["Lq"] = draw(st.booleans())
    if k["Lq"]:
        k["L"] = float(round(k["L"])) or 1.0
        k["Q"] = float(round(k["Q"]))
    k["kinds"] = [draw(gen.oneof(KINDS)) for _ in range(4)]
    k["num"], k["box"] = draw(gen.oneof(KINDS)), draw(gen.oneof(BOXES))
    k["phases"] = [draw(st.integers(-20, 20)) / draw(gen.oneof([1, 1, 2])) for _ in range(4)]
    k["lam"] = draw(st.integers(-3, 3))
    return k


def run_plunge(ctx, k):
    P = gen.ref_plunge(k)
    if P.kind != "complex" and abs(P.others[0] - P.others[1]) < 1e-3:
        raise Reject()
    plain = tuple(float(k[n]) for n in "aELQ")
    other = tuple(conv(c, k[n]) for c, n in zip(k["kinds"], "aELQ"))
    ph, lam = tuple(float(v) for v in k["phases"]), float(k["lam"]) / 4
    ph2, lam2 = box(k["box"], [conv(k["num"], v) for v in k["phases"]]), conv(k["num"], k["lam"]) / 4

    def motion(fs, t):
        return [f(t) for f in fs]
    compare(ctx, "plunging_radial_roots", kgc.plunging_radial_roots, plain, other)
    compare(ctx, "plunging_mino_frequencies", kg.plunging_mino_frequencies, plain, other)
    o, o2 = kg.PlungingOrbit(*plain, ph), kg.PlungingOrbit(*other, ph2)
    compare(ctx, "PlungingOrbit", lambda ob: [ob.E, ob.L, ob.Q, ob.upsilon_r, ob.upsilon_theta, ob.constants_of_motion()], (o,), (o2,))
    for q, r in ((P.upsilon_r * lam + ph[1], None), (ph[1], None)):
        r = float(P.r_of(np.float64(q)))
        if min(abs(r - P.rp), abs(r - P.rm)) < 0.02:
            raise Reject()
    compare(ctx, "trajectory", lambda ob, t: motion(ob.trajectory(), t), (o, lam), (o2, lam2))
    compare(ctx, "plunging_trajectory", lambda q, t, *w: motion(kgp.plunging_trajectory(*w, q), t), (ph, lam) + plain, (ph2, lam2) + other)
    o, o2 = kg.PlungingOrbit(*plain), kg.PlungingOrbit(*other)
    for nm in ("trajectory", "trajectory_deltas"):
        compare(ctx, nm + " of other phases", lambda ob, q, t: motion(getattr(ob, nm)(initial_phases=q), t), (o, ph, lam), (o2, ph2, lam2))
    ctx.label("numbers: " + "/".join(sorted(set(k["kinds"]))), "container: " + k["box"], P.kind)


@st.composite
def s_event(draw):
    return {"a": draw(gen.oneof([0, 0, 0.5, -0.5, 0.75])), "r": draw(st.one_of(st.integers(3, 40), st.integers(3, 40), st.integers(50000, 10**6))), "th": draw(gen.oneof([1, 2, 1.5, 0.5])),
            "t": draw(st.integers(-9, 9)), "phi": draw(st.integers(-9, 9)), "v": [draw(gen.oneof([0.0, 0.25, -0.125, 0.0625])) for _ in range(3)],
            "w": [draw(st.integers(-5, 5)) / draw(gen.oneof([1, 1, 2])) for _ in range(4)],
            "kinds": [draw(gen.oneof(KINDS)) for _ in range(5)], "num": draw(gen.oneof(KINDS)),
            "box": draw(gen.oneof(BOXES)), "box2": draw(gen.oneof(BOXES))}


def run_event(ctx, k):
    from .initial_p import zamo
    names = ("a", "t", "r", "th", "phi")
    plain = [float(k[n]) for n in names]
    other = [conv(c, k[n]) for c, n in zip(k["kinds"], names)]
    compare(ctx, "metric", lambda a, t, r, th, phi: kg.KerrSpacetime(a).metric(t, r, th, phi), plain, other)
    w, w2 = tuple(float(v) for v in k["w"]), box(k["box2"], [conv(k["num"], v) for v in k["w"]])
    compare(ctx, "norm", lambda v, a, t, r, th, phi: kg.KerrSpacetime(a).norm(t, r, th, phi, v), [w] + plain, [w2] + other)
    u = tuple(float(v) for v in zamo(plain[0], plain[2], plain[3], k["v"]))
    u2 = box(k["box2"], [conv(k["num"], v) for v in u])
    pos2 = box(k["box"], other[1:])
    compare(ctx, "constants_from_initial_conditions", kg.constants_from_initial_conditions, (plain[0], tuple(plain[1:]), u), (other[0], pos2, u2))

    # the same orbit (or the same refusal)
    def orbit(a, pos, vel):
        try:
            o = kg.Orbit(a, pos, vel)
        except ValueError as ex:
            return None, str(ex)
        return o, ""
    E, L, Q = ref.conserved(plain[0], plain[2], plain[3], u)
    if abs(plain[0]) > 0 and abs(L) < 0.03 or E > 0.995 or min(abs(v) for v in k["v"][:2]) < 0.05:
        return ctx.label("metric only")
    o, m = orbit(plain[0], tuple(plain[1:]), u)
    o2, m2 = orbit(other[0], pos2, u2)
    ctx.check("Orbit", (o is None) == (o2 is None), f"{m!r} {m2!r}")
    if o is not None:
        ctx.check("stability", bool(o.stable) == bool(o2.stable), f"{o.stable} {o2.stable}")
        compare(ctx, "Orbit", lambda ob: [ob.E, ob.L, ob.Q, ob.upsilon_r, ob.upsilon_theta] + [f(0.25) for f in ob.trajectory()], (o,), (o2,))
    ctx.label("container: " + k["box"], "orbit" if o else "refused")


@st.composite
def s_whole(draw):
    k = {"a": draw(gen.oneof([0.5, -0.5, 0.25, 0.9375])), "kinds": [draw(gen.oneof(KINDS)) for _ in range(2)], "box": draw(gen.oneof(BOXES)),
         "q": gen.U(draw, -6, 6)}
    k["stable"] = draw(st.booleans())
    if k["stable"]:
        return {**k, "p": gen.LOG(draw, 3, 10.6), "e": gen.U(draw, 0.1, 0.8), "x": draw(st.sampled_from([-1, 1])) * gen.U(draw, 0.2, 0.98)}
    return {**k, "E": gen.U(draw, 0.3, 0.95), "L": draw(st.sampled_from([-1, 1])) * draw(st.integers(1000, 10**6)), "Q": draw(st.integers(10**5, 2 * 10**9))}


def run_whole(ctx, k):
    """constants of motion which are whole numbers, of any size: their squares do not fit the small integer types"""
    a, q = k["a"], k["q"]
    if not k["stable"]:
        E, L, Q = k["E"], float(k["L"]), float(k["Q"])
    else:
        apex = (a, k["p"], k["e"], k["x"])
        E, L, Q = kg.constants_of_motion(*apex)
        L, Q = float(round(L)), float(round(Q))
    plain, other = (L, Q), (conv(k["kinds"][0], L), conv(k["kinds"][1], Q))

    def both(name, f):
        compare(ctx, name, f, plain, other, 1e-7)
    if k["stable"]:
        cons = lambda L, Q: [E, L, Q] if k["box"] == "list" else (E, L, Q)
        for nm in ("stable_radial_roots", "stable_polar_roots"):
            both(nm + " with whole constants", lambda L, Q: getattr(kgc, nm)(*apex, cons(L, Q)))
        for nm in ("r_frequency", "theta_frequency", "phi_frequency", "gamma"):
            both(nm + " with whole constants", lambda L, Q: getattr(kgf, nm)(*apex, cons(L, Q)))
        if a > 0:
            both("carter_constant with whole angular momentum", lambda L, Q: kg.carter_constant(*apex, E, L))
            both("apex_from_constants", lambda L, Q: kg.apex_from_constants(a, E, L, Q))
            roots = kgc.stable_polar_roots(*apex)
            both("polar_solutions", lambda L, Q: [f(q) for f in kgs.polar_solutions(a, (E, L, Q), roots)])
            o = kg.StableOrbit(*apex, (0, 1.0, 0.5, 0))
            state = o.initial_position, o.initial_velocity
            rr = kgc.stable_radial_roots(*apex)
            both("stable_orbit_initial_phases", lambda L, Q: kgi.stable_orbit_initial_phases(a, *state, constants=(E, L, Q), radial_roots=rr))
    else:
        both("plunging_radial_roots", lambda L, Q: kgc.plunging_radial_roots(a, E, L, Q))
        both("plunging_mino_frequencies", lambda L, Q: kg.plunging_mino_frequencies(a, E, L, Q))
        both("plunging_polar_solutions", lambda L, Q: kgp.plunging_polar_solutions(a, E, L, Q)[0](q))
        both("PlungingOrbit", lambda L, Q: [kg.PlungingOrbit(a, E, L, Q).upsilon_r, kg.PlungingOrbit(a, E, L, Q).trajectory()[2](q / abs(L))])
        both("four-velocity", lambda L, Q: [f(0.0) for f in kg.KerrSpacetime(a).four_velocity(
            *[lambda t, v=v: v for v in (0.0, 3.0, 1.5, 0.0)], (E, L, Q), 1.0, 1.0, (0, 0.5, 0.5, 0))])
    ctx.label("numbers: " + "/".join(sorted(set(k["kinds"]))), "stable" if k["stable"] else "plunging")
    if max(abs(L), 1) ** 2 > 2**31 or 2 * Q > 2**31:
        ctx.label("squares beyond 32 bits")


PROPS = [dict(id="P31", rule="stable orbits with parameters which are integers or exact binary fractions, plunging orbits, events and "
              "four-velocities; each argument independently an int, numpy integer, numpy float or zero-dimensional array, sequences as "
              "tuple, list or array; compared with python floats in tuples. Non-trivial: every distinct case.",
              oracles=[dict(name="stable", strategy=s_stable(), run=run_stable, n=800),
                       dict(name="plunging", strategy=s_plunge(), run=run_plunge, n=800),
                       dict(name="events", strategy=s_event(), run=run_event, n=1600),
                       dict(name="whole_constants", strategy=s_whole(), run=run_whole, n=1600)])]
