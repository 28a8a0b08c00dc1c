"""P17-P21: orbits defined by initial conditions."""
import math

import kerrgeopy as kg
import numpy as np
from hypothesis import strategies as st
from kerrgeopy import constants as kgc
from kerrgeopy import initial_conditions as kgi

from .. import gen, ref
from ..harness import Reject
from .constants_p import orbit_labels
from .frequencies_p import plunge_labels, ptol, ref_orbit, rtol
from .plunge_p import PScale, ref_p
from .stable_p import Scale, vel_tol

PI = math.pi


# ---------------------------------------------------------------- velocities
def zamo(a, r, th, v):
    """four-velocity with spatial momentum v = (v_r, v_theta, v_phi) in the frame of the
    zero angular momentum observer"""
    g = ref.metric(a, r, th)
    w = -g[0, 3] / g[3, 3]
    alpha = math.sqrt(g[0, 3] ** 2 / g[3, 3] - g[0, 0])
    gam = math.sqrt(1 + v[0] ** 2 + v[1] ** 2 + v[2] ** 2)
    ut = gam / alpha
    return [ut, v[0] / math.sqrt(g[1, 1]), v[1] / math.sqrt(g[2, 2]), w * ut + v[2] / math.sqrt(g[3, 3])]


@st.composite
def s_event(draw, far=2.5):
    a = gen.spin(draw)
    rp = 1 + math.sqrt(1 - a * a)
    r = rp + gen.LOG(draw, -1.5, draw(gen.oneof([2.5, 2.5, far])))
    k = draw(gen.oneof(["generic", "generic", "equator", "pole"]))
    th = {"generic": lambda: gen.U(draw, 0.1, PI - 0.1), "equator": lambda: PI / 2,
          "pole": lambda: gen.LOG(draw, -7, -1)}[k]()
    if draw(gen.oneof([False, False, True])):
        th = PI - th
    v = [0.0 if draw(gen.oneof([False, False, True])) else gen.sign(draw) * gen.LOG(draw, -4, 0.7) for _ in range(3)]
    return {"a": a, "r": r, "th": th, "v": v, "t": gen.U(draw, -50, 50), "phi": gen.U(draw, -10, 10)}


def run_constants(ctx, k):
    a, r, th = k["a"], k["r"], k["th"]
    u = zamo(a, r, th, k["v"])
    E, L, Q = ref.conserved(a, r, th, u)
    got = kg.constants_from_initial_conditions(a, (k["t"], r, th, k["phi"]), tuple(u))
    ctx.check("three constants", len(got) == 3, repr(got))
    s = math.sin(th)
    dl = r * r - 2 * r + a * a
    u = np.abs(u)
    g = np.abs(ref.metric(a, r, th)) @ u
    amp = 1 + 4 * r / abs(dl) + 0.2 / s
    tE = 2e-15 * amp * (g[0] + g[3] / r + 1)
    tL = 2e-15 * amp * (g[3] + r * s * g[0])
    ctx.close("E", got[0], E, tE)
    ctx.close("L", got[1], L, tL)
    z2 = math.cos(th) ** 2
    tQ = 2e-15 * amp * (g[2] ** 2 + 1 + abs(L) ** 2 / s ** 2) + 20 * z2 * (a * a * abs(E) * tE + abs(L) * tL / s ** 2) + 1e-14
    ctx.close("Q", got[2], Q, 10 * tQ)
    ctx.label("a=0" if a == 0 else "a<0" if a < 0 else "a>0", "equator" if th == PI / 2 else "off equator",
              "E>=1" if E >= 1 else "E<1")


def run_constants_orbits(ctx, k):
    """at every point of an orbit the constants are those of the orbit"""
    if "p" in k:
        R = ref_orbit(k)
        a = R.a
    else:
        R = ref_p(k)
        a = R.a
    lam = k["lam"] * 2 * PI / R.upsilon_r
    pos = [float(v) for v in R.trajectory(lam, k["phases"])]
    u = [float(v) for v in R.velocity(lam, k["phases"])]
    if min(abs(pos[1] - R.rp), abs(pos[1] - R.rm)) < 1e-2 or pos[1] ** 2 + (a * math.cos(pos[2])) ** 2 < 1e-2:
        raise Reject()
    got = kg.constants_from_initial_conditions(a, tuple(pos), tuple(u))
    r, th = pos[1], pos[2]
    s2 = max(math.sin(th) ** 2, 1e-12)
    dl = abs(r * r - 2 * r + a * a)
    size = (r * r + 1) * (1 + (r * r + 1) / dl) * (1 + abs(R.L)) / s2
    t = 1e-13 * size * (1 + 1 / (r * r + (a * math.cos(th)) ** 2)) * (1 + R.tail * 1e13)
    if t > 1e-4:
        raise Reject()
    ctx.close("E along the orbit", got[0], R.E, t)
    ctx.close("L along the orbit", got[1], R.L, t * (1 + r))
    ctx.close("Q along the orbit", got[2], R.Q, 20 * t * (1 + r) * (1 + abs(R.L) + R.Q))
    ctx.label("stable" if "p" in k else "plunging " + R.kind)


@st.composite
def s_points(draw):
    if draw(st.booleans()):
        k = draw(gen.stable_params(emin=-3, xmin=-5, dlo=-2.5, dhi=3, high_e=False))
    else:
        k = draw(gen.plunge_params(amin=1e-6, lmin=1e-6, emax=1e-3))
    k["phases"] = draw(gen.phases())
    k["lam"] = gen.U(draw, -2, 2)
    return k


# ---------------------------------------------------------------- P18-P20 shared
@st.composite
def s_stable_ic(draw):
    k = draw(gen.stable_params(emin=-2, xmin=-5, dlo=-2, dhi=2.7, high_e=False, near1=False, high_a=True))
    q = draw(gen.phases())
    for i in (1, 2):
        kind = draw(gen.oneof(["free", "free", "min", "max"]))
        if kind == "min":
            q[i] = 2 * PI * draw(gen.oneof([0, 0, 1, -1]))
        elif kind == "max":
            q[i] = PI * draw(gen.oneof([1, 1, -1, 3]))
    k["phases"] = q
    k["other"] = draw(gen.phases())
    k["lam"] = draw(gen.mino_times(1, 4, 1.5))
    return k


@st.composite
def s_plunge_ic(draw):
    k = draw(gen.plunge_params(amin=1e-6, lmin=1e-6, emax=1e-3))
    q = draw(gen.phases())
    for i in (1, 2):
        kind = draw(gen.oneof(["free", "free", "min", "max"]))
        if kind == "min":
            q[i] = 2 * PI * draw(gen.oneof([0, 0, 1, -1]))
        elif kind == "max":
            q[i] = PI * draw(gen.oneof([1, 1, -1, 3]))
    k["phases"] = q
    k["other"] = draw(gen.phases())
    k["lam"] = draw(gen.mino_times(1, 4, 1.0))
    return k


def turning(q):
    """distance of a phase from the nearest turning point"""
    return abs(q / PI - round(q / PI)) * PI


def state(R, q):
    """position and four-velocity on the reference orbit; exact at turning points"""
    pos = [float(v) for v in R.trajectory(0.0, q)]
    u = [float(v) for v in R.velocity(0.0, q)]
    pos[0], pos[3] = q[0], q[3]
    if turning(q[1]) < 1e-12:
        u[1] = 0.0
    if turning(q[2]) < 1e-12 or R.zm == 0:
        u[2] = 0.0
    return pos, u


def mirror(k, q):
    return [q[0], q[1], q[2], -q[3]] if k["a"] < 0 else q


def msign(k):
    return -1.0 if "p" in k and k["a"] < 0 else 1.0


def stable_state(k):
    R = ref_orbit(k)
    q = k["phases"]
    if 0 < R.zm < 1e-3:
        raise Reject()
    # the reference describes orbits with a < 0 by their mirror image with a > 0
    pos, u = state(R, mirror(k, q))
    if k["a"] < 0:
        pos[3], u[3] = -pos[3], -u[3]
    if k["e"] > 0 and turning(q[1]) > 1e-12 and min(pos[1] - R.r2, R.r1 - pos[1]) < 2e-4:
        raise Reject()
    if R.zm > 0 and turning(q[2]) > 1e-12 and abs(abs(pos[2] - PI / 2) - math.asin(R.zm)) < 2e-4:
        raise Reject()
    return R, pos, u


def plunge_state(k):
    P = ref_p(k)
    q = k["phases"]
    pos, u = state(P, q)
    if min(abs(pos[1] - P.rp), abs(pos[1] - P.rm)) < 2e-2:
        raise Reject()
    if pos[1] ** 2 + (P.a * math.cos(pos[2])) ** 2 < 1e-2:
        raise Reject()
    if turning(q[1]) > 1e-12 and min(pos[1] - P.rmin, P.rmax - pos[1]) < 2e-4:
        raise Reject()
    if 0 < P.zm < 1e-2:
        raise Reject()
    if P.zm > 0 and turning(q[2]) > 1e-12 and abs(abs(pos[2] - PI / 2) - math.asin(P.zm)) < 2e-4:
        raise Reject()
    if P.kind != "complex" and abs(P.others[0] - P.others[1]) < 1e-3:
        raise Reject()
    if not (P.rmin < P.rm and P.rmax > P.rp):
        raise Reject()
    return P, pos, u


# ---------------------------------------------------------------- P18
def run_is_stable(ctx, k):
    if "p" in k:
        R, pos, u = stable_state(k)
        a, want = k["a"], True
        ctx.label("stable", *orbit_labels(k))
    else:
        R, pos, u = plunge_state(k)
        a, want = k["a"], False
        ctx.label(*plunge_labels(k, R))
    pos, u = tuple(pos), tuple(u)
    s = kgi.is_stable(a, pos, u)
    ctx.check("is_stable", bool(s) is want, f"is_stable = {s!r}, expected {want}")
    if not ("p" in k and k["e"] == 0):
        s = kgi.is_stable(a, pos, u, constants=(R.E, msign(k) * R.L, R.Q))
        ctx.check("is_stable (constants passed in)", bool(s) is want, f"is_stable = {s!r}, expected {want}")
    # the constants alone do not settle it: the same constants at a radius where no motion is possible
    if "p" in k and k["e"] > 0.01 and R.gap23 > 1e-2:
        for r in (R.r2 - 0.5 * R.gap23, R.r1 * 1.1 + 1):
            ctx.raises("is_stable where no motion is possible", ValueError, kgi.is_stable, a,
                       (pos[0], r, pos[2], pos[3]), u, (R.E, msign(k) * R.L, R.Q))


# ---------------------------------------------------------------- P19
def mod_close(ctx, name, got, want, tol, info=""):
    d = (float(got) - want) / (2 * PI)
    ctx.close(name, (d - round(d)) * 2 * PI if math.isfinite(d) else got, 0.0, tol, info or f"got {got!r} for {want!r} (modulo 2 pi)")


def run_stable_phases(ctx, k):
    R, pos, u = stable_state(k)
    a, p, e, x = (k[n] for n in "apex")
    q = k["phases"]
    A = ic_amp(R)
    cons = (R.E, msign(k) * R.L, R.Q)
    roots = (R.r1, R.r2, R.r3, R.r4)
    ur, ut = R.upsilon_r, R.upsilon_theta
    calls = [("no options", {}), ("constants", dict(constants=cons)), ("roots", dict(constants=cons, radial_roots=roots)),
             ("everything", dict(constants=cons, radial_roots=roots, upsilon_r=ur, upsilon_theta=ut)),
             ("frequencies", dict(upsilon_r=ur, upsilon_theta=ut))]
    for nm, kw in calls:
        got = kgi.stable_orbit_initial_phases(a, tuple(pos), tuple(u), **kw)
        ctx.check("four phases", len(got) == 4, repr(got))
        ctx.close(f"q_t ({nm})", got[0], q[0], 1e-15)
        ctx.close(f"q_phi ({nm})", got[3], q[3], 1e-15)
        if e > 0:
            mod_close(ctx, f"q_r ({nm})", got[1], q[1], phase_tol(A, turning(q[1]), e))
        if R.zm > 0:
            mod_close(ctx, f"q_theta ({nm})", got[2], q[2], phase_tol(A / abs(x), turning(q[2]), R.zm))
        ctx.close(f"r at the phase found ({nm})", R.r_of(got[1]), pos[1], 1e-8 * A + 1e-12 * pos[1])
        ctx.close(f"theta at the phase found ({nm})", R.theta_of(got[2]), pos[2], 1e-8 * A)
    ctx.label(*orbit_labels(k), "r turning" if turning(q[1]) < 1e-12 else "r generic",
              "theta turning" if turning(q[2]) < 1e-12 else "theta generic")


def ic_amp(R):
    """amplification of rounding in a state: constants -> turning points"""
    g = R.gap23 / R.r2
    # (next to the axis theta, close to pi, has few digits of its distance)
    return (1 + R.p / (1 - R.e)) ** 2 * (1 + 0.1 / g) * (1 + 0.01 / (1 - R.a)) * (1 + 5e-3 / abs(R.x))


def phase_tol(A, dist, ampl):
    """a phase close to a turning point is determined by a square root"""
    t = 2e-13 * A / ampl * (1 + 0.05 / ampl)  # the two turning points merge as the amplitude vanishes
    if dist < 1e-12:
        return 1e-12 + 1e-14
    return t / dist + t + 1e-13


def run_plunge_phases(ctx, k):
    P, pos, u = plunge_state(k)
    q = k["phases"]
    T = p_ic_tol(P, pos)
    cons = (P.E, P.L, P.Q)
    roots = kgc.plunging_radial_roots(k["a"], *cons)
    for nm, kw in (("no options", {}), ("constants", dict(constants=cons)), ("roots", dict(constants=cons, radial_roots=roots))):
        got = kgi.plunging_orbit_initial_phases(k["a"], tuple(pos), tuple(u), **kw)
        ctx.check("four phases", len(got) == 4, repr(got))
        ctx.close(f"q_t ({nm})", got[0], q[0], 1e-15)
        ctx.close(f"q_phi ({nm})", got[3], q[3], 1e-15)
        fr = P.ar.f(P.ar.psi_of_q(q[1])) / P.ar.ser.mean
        mod_close(ctx, f"q_r ({nm}, {P.kind})", got[1], q[1], (T * max(fr, 1) / max(turning(P.ar.psi_of_q(q[1])), 1e-2)
                                                                    if turning(q[1]) > 1e-12 else 1e-12) + 1e-13)
        if P.zm > 0:
            mod_close(ctx, f"q_theta ({nm}, {P.kind})", got[2], q[2], (T / P.zm / math.sqrt(P.omz2) / max(turning(q[2]), 1e-3)
                                                                            if turning(q[2]) > 1e-12 else 1e-12) + 1e-13)
    ctx.label(*plunge_labels(k, P), "r turning" if turning(q[1]) < 1e-12 else "r generic",
              "theta turning" if turning(q[2]) < 1e-12 else "theta generic")


def p_ic_tol(P, pos):
    """relative error of everything derived from the constants recovered from a state"""
    r, th = pos[1], pos[2]
    s2 = math.sin(th) ** 2
    dl = abs(r * r - 2 * r + P.a ** 2)
    sg = r * r + (P.a * math.cos(th)) ** 2
    size = (1 + (r * r + 1) / dl) * (1 + 1 / s2) * (1 + 1 / sg) * (1 + abs(P.L)) ** 2 * (1 + P.rmax / 5) ** 2
    return 1e-12 * size * (1 + 1e-2 / P.sep_scale) * (1 + 0.01 / (1 - P.E)) * (1 + 0.05 / P.omz2)


# ---------------------------------------------------------------- P20
def run_orbit_stable(ctx, k):
    R, pos, u = stable_state(k)
    a, p, e, x = (k[n] for n in "apex")
    q = k["phases"]
    A = ic_amp(R)
    if A * 1e-13 > 1e-6:
        raise Reject()
    o = kg.Orbit(a, tuple(pos), tuple(u))
    ctx.check("stable", o.stable is True or o.stable == True, repr(o.stable))  # noqa: E712
    ctx.same("initial position kept", o.initial_position, tuple(pos))
    ctx.same("initial velocity kept", o.initial_velocity, tuple(u))
    t = 3e-13 * A
    ctx.close("E", o.E, R.E, t)
    m = msign(k)
    ctx.close("L", o.L, m * R.L, t * 20)
    ctx.close("Q", o.Q, R.Q, t * 400)
    te = math.sqrt(t) * 3 if e == 0 else min(t / e, math.sqrt(t) * 3)
    t2 = t + te * te
    ctx.close("a", o.a, a, 0 * t + 1e-15)
    ctx.close("p", o.p, p, 20 * p * t2)
    ctx.close("e", o.e, e, 20 * te)
    ctx.close("x", o.x, x, 20 * t / abs(x))
    want = (R.upsilon_r, R.upsilon_theta, m * R.upsilon_phi, R.gamma)
    tr = t2 * (1 + 0.1 * R.r2 / R.gap23) * 100
    ctx.close("frequencies", (o.upsilon_r, o.upsilon_theta, o.upsilon_phi, o.gamma), want, tr * np.abs(want))
    bl = np.array(want[:3]) / R.gamma
    ctx.close("omega", (o.omega_r, o.omega_theta, o.omega_phi), bl, 3 * tr * np.abs(bl))
    # the trajectory passes through the initial state ...
    f = o.trajectory()
    loose = 1e-6 * A ** 0.5 + 100 * t2 if e == 0 else 1e-9 * A ** 0.5 + 100 * t2
    # a Carter constant of zero comes back as rounding, and cos(theta) is its square root
    flat = 1e-7 if R.zm == 0 else 0
    for i, n in enumerate(("t", "r", "theta", "phi")):
        ctx.close(f"{n} at the start", f[i](0.0), pos[i], loose * max(1, abs(pos[i])) + (flat if i == 2 else 0))
    v = [g(0.0) for g in o.four_velocity()]
    rs = np.abs(u)
    for i, n in enumerate(("u^t", "u^r", "u^theta", "u^phi")):
        # u^r and u^theta vanish like square roots at the turning points
        s = math.sqrt(loose) * 0.1 if i in (1, 2) else 0
        ctx.close(f"{n} at the start", v[i], u[i], loose * 10 * max(1, abs(u[i])) / x ** 2 + s)
    # ... and is the geodesic
    lam = np.clip(np.array(k["lam"]), -8, 8) * (2 * PI / R.upsilon_r)
    S = Scale(R, tr)
    d = S(lam, q)
    w = list(R.trajectory(lam, mirror(k, q)))
    w[3] = m * np.asarray(w[3])
    pt = (phase_tol(A, turning(q[1]), e) if e > 0 else 0)
    ptt = phase_tol(A / abs(x), turning(q[2]), R.zm) if R.zm > 0 else 0
    ex = np.abs(R.velocity(lam, q)) * (w[1] ** 2 + 1) * (pt / R.upsilon_r + ptt / R.upsilon_theta) * 3
    ex0 = S.Tr * pt / R.upsilon_r + S.Tt * ptt / R.upsilon_theta
    ex3 = S.Pr * pt / R.upsilon_r + S.Pt * ptt / R.upsilon_theta
    ecc = 30 * te * R.r1 if e == 0 else 0
    for n, g, ww, tt, xx in zip(("t", "r", "theta", "phi"), f, w, (d[0] + 3 * ex0 + 10 * ecc * R.r1, d[1] + ecc,
                                                                    d[2] + 1e-9 * A ** .5 + flat, d[3] + 3 * ex3 + 10 * ecc), ex):
        ctx.close(f"{n} along the orbit", g(lam), ww, tt + xx, info=f"lambda={lam.tolist()}")
    # other initial phases
    q2 = k["other"]
    d = S(lam, q2)
    w = list(R.trajectory(lam, mirror(k, q2)))
    w[3] = m * np.asarray(w[3])
    for n, g, ww, tt in zip(("t", "r", "theta", "phi"), o.trajectory(tuple(q2)), w,
                            (d[0] + 10 * ecc * R.r1, d[1] + ecc, d[2] + 1e-9 * A ** .5 + flat, d[3] + 10 * ecc)):
        ctx.close(f"{n} with other initial phases", g(lam), ww, tt, info=f"lambda={lam.tolist()}")
    if e > 0:
        vref = R.velocity(lam, mirror(k, q2))
        uo = [g(lam) for g in o.four_velocity(tuple(q2))]
        for i, n in ((0, "u^t"), (3, "u^phi")):
            ww = vref[i] * (m if i == 3 else 1)
            ctx.close(f"{n} with other initial phases", uo[i], ww, 1e-9 * A ** .5 * (1 + np.abs(ww)) / x ** 2
                      + 1e3 * tr * (1 + np.abs(ww)) / x ** 2, info=f"lambda={lam.tolist()}")
    # deltas
    td = o.trajectory_deltas((0.0, 1.0, 2.0, 0.0))
    ctx.close("deltas", [g(0.5) for g in td], [R.dt_r(1.5), R.dt_t(2.5), m * R.dphi_r(1.5), m * R.dphi_t(2.5)],
              np.array([S.Tr / R.upsilon_r, S.Tt / R.upsilon_theta, S.Pr / R.upsilon_r, S.Pt / R.upsilon_theta]) * tr * 20
              + 1e-9 + ecc * R.r1 * 10)
    ctx.label(*orbit_labels(k), "r turning" if turning(q[1]) < 1e-12 else "r generic",
              "theta turning" if turning(q[2]) < 1e-12 else "theta generic")


@st.composite
def s_small_ic(draw):
    """states of orbits with a tiny eccentricity or inclination to the equatorial plane"""
    small = draw(gen.oneof(["e", "e", "x", "both"]))
    a = draw(gen.oneof([0.0, 1, 1, 1, 1, -1])) * gen.U(draw, 0.02, 0.97)
    e = gen.LOG(draw, -7, -2) if small != "x" else gen.U(draw, 0.05, 0.6)
    x = gen.sign(draw) * (1 - gen.LOG(draw, -10, -2) if small != "e" else gen.U(draw, 0.2, 1.0))
    d = gen.LOG(draw, -1, 0.7)
    q = draw(gen.phases())
    for i in (1, 2):
        q[i] = gen.sign(draw) * gen.U(draw, 0.7, 2.4)
    return {"a": a, "e": e, "x": x, "d": d, "p": gen.sep(a, e, x) * (1 + d), "phases": q, "other": draw(gen.phases()),
            "lam": draw(gen.mino_times(1, 4, 1.5))}


def run_orbit_small(ctx, k):
    R = ref_orbit(k)
    q = k["phases"]
    pos, u = state(R, mirror(k, q))
    if k["a"] < 0:
        pos[3], u[3] = -pos[3], -u[3]
    m = msign(k)
    a, p, e, x = k["a"], k["p"], k["e"], k["x"]
    A = ic_amp(R)
    t = 3e-13 * A
    o = kg.Orbit(a, tuple(pos), tuple(u))
    ctx.check("stable", bool(o.stable), repr(o.stable))
    te = min(t / e, 3 * math.sqrt(t))
    t2 = t + te * te
    # the inclination is recovered from cos(theta), a square root of the Carter constant
    tz = min(20 * t / R.zm, 5 * math.sqrt(t)) if R.zm > 0 else 5 * math.sqrt(t)
    ctx.close("E", o.E, R.E, t)
    ctx.close("L", o.L, m * R.L, t * 20)
    ctx.close("Q", o.Q, R.Q, t * 400)
    ctx.close("p", o.p, p, 20 * p * t2)
    ctx.close("e", o.e, e, 20 * te)
    ctx.close("x", o.x, x, 20 * t / abs(x))
    tr = t2 * (1 + 0.1 * R.r2 / R.gap23) * 100
    want = np.array([R.upsilon_r, R.upsilon_theta, m * R.upsilon_phi, R.gamma])
    ctx.close("frequencies", (o.upsilon_r, o.upsilon_theta, o.upsilon_phi, o.gamma), want, tr * np.abs(want))
    lam = np.clip(np.array(k["lam"]), -8, 8) * (2 * PI / R.upsilon_r)
    S = Scale(R, tr)
    # with phases of one's own the motion is that of the orbit, whatever phases the state has
    q2 = k["other"]
    d = S(lam, q2)
    w = list(R.trajectory(lam, mirror(k, q2)))
    w[3] = m * np.asarray(w[3])
    ecc = 30 * te * R.r1
    for n, g, ww, tt in zip(("t", "r", "theta", "phi"), o.trajectory(tuple(q2)), w,
                            (d[0] + 10 * ecc * R.r1, d[1] + ecc, d[2] + tz, d[3] + 10 * ecc + tz)):
        ctx.close(f"{n} with other initial phases", g(lam), ww, tt, info=f"lambda={lam.tolist()}")
    # the state's own phases are rounded to a turning point less than 1e-4 away
    d = S(lam, q)
    w = R.trajectory(lam, mirror(k, q))

    def snap(dist, ampl, err):
        return 2.5 * math.sqrt(2 * ampl * 1e-4) + 2e-4 if dist < 1.05e-4 + err else 0.0
    Ar = (R.r1 - R.r2) / 2
    inc = math.asin(min(R.zm, 1.0))
    sr = min(snap(min(R.r1 - pos[1], pos[1] - R.r2), Ar, ecc), 2 * Ar)
    stt = min(snap(inc - abs(pos[2] - PI / 2), inc, tz), 2 * inc)
    pt = phase_tol(A, turning(q[1]), e)
    ex = 3 * pt * Ar
    f = o.trajectory()
    ctx.close("r along the orbit", f[1](lam), w[1], d[1] + ecc + ex + sr, info=f"lambda={lam.tolist()}")
    ctx.close("theta along the orbit", f[2](lam), w[2], d[2] + 10 * tz + stt, info=f"lambda={lam.tolist()}")
    ctx.label("a=0" if a == 0 else "a<0" if a < 0 else "a>0", f"e<1e{math.ceil(math.log10(e))}",
              f"1-|x|<1e{math.ceil(math.log10(max(1 - abs(x), 1e-16)))}", "r snapped" if sr else "r not snapped")


def run_orbit_plunge(ctx, k):
    P, pos, u = plunge_state(k)
    q = k["phases"]
    T = p_ic_tol(P, pos)
    g = ref.metric(P.a, pos[1], pos[2])
    nrm = np.array(u) @ g @ np.array(u)
    if abs(nrm + 1) > 1e-7:
        raise Reject()  # not normalised to rounding this close to a singularity
    if T > 1e-6:
        raise Reject()
    o = kg.Orbit(k["a"], tuple(pos), tuple(u))
    ctx.check("not stable", not o.stable, repr(o.stable))
    ctx.close("a", o.a, k["a"], 1e-15)
    ctx.close("E", o.E, P.E, T)
    ctx.close("L", o.L, P.L, T * (1 + abs(P.L)))
    ctx.close("Q", o.Q, P.Q, T * 10 * (1 + P.Q))
    ctx.close("frequencies", [o.upsilon_r, o.upsilon_theta], [P.upsilon_r, P.upsilon_theta],
              [10 * T * P.upsilon_r * (1 + 1 / P.sep_scale), 10 * T * P.upsilon_theta])
    f = o.trajectory()
    # phases are exact at a turning point, and ill-conditioned like 1/distance close to one
    tr, tt = turning(P.ar.psi_of_q(q[1])), turning(q[2])
    tq = T * 0.1 * ((1 if tr < 1e-12 else 1 / tr) + (1 if tt < 1e-12 else 1 / tt)) / max(P.zm, 1e-2) / math.sqrt(P.omz2)
    lam0 = np.array([0.0])
    S = PScale(P, tq)
    for i, n in enumerate(("t", "r", "theta", "phi")):
        ctx.close(f"{n} at the start", f[i](0.0), pos[i], S(lam0, q)[i][0] + tq)
    from .plunge_p import away
    lam = away(P, np.clip(np.array(k["lam"]), -3, 3) * (2 * PI / P.upsilon_r), q, 2e-2)
    d, w = S(lam, q), P.trajectory(lam, q)
    for n, g, ww, tt in zip(("t", "r", "theta", "phi"), f, w, d):
        ctx.close(f"{n} along the orbit ({P.kind})", g(lam), ww, tt + tq, info=f"lambda={lam.tolist()}")
    # other initial phases
    q2 = k["other"]
    try:
        lam = away(P, np.clip(np.array(k["lam"]), -3, 3) * (2 * PI / P.upsilon_r), q2, 2e-2)
    except Reject:
        lam = None
    if lam is not None:
        S = PScale(P, T)
        d, w = S(lam, q2), P.trajectory(lam, q2)
        for n, g, ww, tt in zip(("t", "r", "theta", "phi"), o.trajectory(tuple(q2)), w, d):
            ctx.close(f"{n} with other initial phases ({P.kind})", g(lam), ww, tt, info=f"lambda={lam.tolist()}")
        po = kg.PlungingOrbit(o.a, o.E, o.L, o.Q, tuple(q2))
        for nm, F, G in (("four-velocity", o.four_velocity(tuple(q2)), po.four_velocity()),
                         ("deltas", o.trajectory_deltas(tuple(q2)), po.trajectory_deltas())):
            for i in range(4):
                ww = np.asarray(G[i](lam), float)
                ok = np.isfinite(ww)
                ctx.close(f"{nm} {i} with other initial phases", np.asarray(F[i](lam))[ok], ww[ok], 1e-12 * (1 + np.abs(ww[ok])))
    ctx.label(*plunge_labels(k, P), "r turning" if turning(q[1]) < 1e-12 else "r generic",
              "theta turning" if turning(q[2]) < 1e-12 else "theta generic")


# ---------------------------------------------------------------- P21
@st.composite
def s_bad(draw):
    k = draw(s_event())
    k["kind"] = draw(gen.oneof(["scaled", "spacelike", "null", "barely"]))
    k["s"] = {"scaled": lambda: draw(gen.oneof([0.5, 2.0, 0.1, 10.0, 1 + 1e-3, 1 - 1e-3])),
              "barely": lambda: 1 + gen.sign(draw) * gen.LOG(draw, -5.6, -1),
              "spacelike": lambda: gen.LOG(draw, -3, 1), "null": lambda: 1.0}[k["kind"]]()
    return k


def run_bad(ctx, k):
    a, r, th, v = k["a"], k["r"], k["th"], list(k["v"])
    if k["kind"] in ("spacelike", "null"):
        if max(abs(w) for w in v) < 0.1:
            v[2] = 0.5
        n = math.sqrt(sum(w * w for w in v))
        # component along the observer's time: 0 (spacelike) .. n (null)
        g = ref.metric(a, r, th)
        ut = (n if k["kind"] == "null" else n * (1 - min(k["s"], 1) * 0.99)) / math.sqrt(g[0, 3] ** 2 / g[3, 3] - g[0, 0])
        u = [ut, v[0] / math.sqrt(g[1, 1]), v[1] / math.sqrt(g[2, 2]), -g[0, 3] / g[3, 3] * ut + v[2] / math.sqrt(g[3, 3])]
    else:
        u = [k["s"] * w for w in zamo(a, r, th, v)]
    ctx.raises(f"four-velocity ({k['kind']}, {k['s']})", ValueError, kg.Orbit, a, (k["t"], r, th, k["phi"]), tuple(u))
    ctx.label(k["kind"], "a=0" if a == 0 else "a<0" if a < 0 else "a>0")


@st.composite
def s_good(draw):
    k = draw(s_stable_ic() if draw(st.booleans()) else s_plunge_ic())
    k["s"] = gen.U(draw, -4.6e-7, 4.6e-7)
    return k


@st.composite
def s_off(draw):
    k = draw(s_stable_ic() if draw(st.booleans()) else s_plunge_ic())
    k["s"] = gen.sign(draw) * gen.LOG(draw, -6.27, draw(gen.oneof([-6.1, -5, -1])))
    return k


def run_off(ctx, k):
    """velocities of bound orbits with a norm off by more than 1.02e-6: nothing but the norm is wrong with them"""
    R, pos, u = stable_state(k) if "p" in k else plunge_state(k)
    g = ref.metric(k["a"], pos[1], pos[2])
    v = np.abs(u)
    nrm = np.array(u) @ g @ np.array(u)
    # the norm is a sum of terms which cancel
    noise = 1e-14 * (v @ np.abs(g) @ v) * (1 + 4 * (1 + pos[1] ** 2) / abs(pos[1] ** 2 - 2 * pos[1] + R.a ** 2))
    if abs(nrm + 1) + noise > 2e-8:
        raise Reject()
    u = [w * (1 + k["s"]) for w in u]
    ctx.raises(f"norm off by {2 * k['s']:.3g}", ValueError, kg.Orbit, k["a"], tuple(pos), tuple(u))
    ctx.label("stable" if "p" in k else "plunging", "u^t>5" if abs(u[0]) > 5 else "u^t<5")


def run_good(ctx, k):
    """velocities normalised to 9.3e-7 are accepted, as any iterable of numbers"""
    R, pos, u = stable_state(k) if "p" in k else plunge_state(k)
    g = ref.metric(k["a"], pos[1], pos[2])
    nrm = np.array(u) @ g @ np.array(u)
    if abs(nrm + 1) > 1e-8 or pos[1] > 30:
        raise Reject()
    # the turning points move with the error: stay away from them and from the separatrix
    if "p" in k and (R.gap23 < 0.5 or R.r1 > 30 or min(pos[1] - R.r2, R.r1 - pos[1]) < 0.02 * R.r1):
        raise Reject()
    if "p" not in k and (R.rmax > 30 or R.sep_scale < 0.05 or R.rmax - pos[1] < 0.02 * R.rmax):
        raise Reject()
    u = [w * (1 + k["s"]) for w in u]
    for nm, P, V in (("tuples", tuple(pos), tuple(u)), ("lists", list(pos), list(u)), ("arrays", np.array(pos), np.array(u))):
        o = kg.Orbit(k["a"], P, V)
        ctx.check(f"accepted ({nm})", bool(o.stable) is ("p" in k), f"stable = {o.stable!r}")
    ctx.label("stable" if "p" in k else "plunging")


@st.composite
def s_schw(draw):
    return {"r": 2 + gen.LOG(draw, -1, 1), "th": gen.U(draw, 0.2, PI - 0.2), "vr": -gen.LOG(draw, -3, 0),
            "L2": gen.U(draw, 0, 11.5), "psi": gen.U(draw, 0, 2 * PI), "E": gen.U(draw, 0.05, 0.999)}


def run_schw(ctx, k):
    """Schwarzschild: without a centrifugal barrier (L^2 + Q < 12) every bound motion plunges"""
    r, th = k["r"], k["th"]
    Lt = math.sqrt(k["L2"])
    v = [k["vr"], Lt / r * math.cos(k["psi"]), Lt / r * math.sin(k["psi"])]
    u = zamo(0.0, r, th, v)
    E = ref.conserved(0.0, r, th, u)[0]
    if E > 0.999:
        raise Reject()
    ctx.raises("Schwarzschild plunge from initial conditions", ValueError, kg.Orbit, 0.0, (0.0, r, th, 0.0), tuple(u))
    ctx.raises("Schwarzschild plunge from constants", ValueError, kg.PlungingOrbit, 0, k["E"], Lt * math.cos(k["psi"]),
               k["L2"] * math.sin(k["psi"]) ** 2)
    ctx.label("r<6" if r < 6 else "r>6")


# ---------------------------------------------------------------- parts of P14-P16 for orbits given by a state
def run_object(what):
    def run(ctx, k):
        m = 1.0
        if "p" in k:
            R, pos, u = stable_state(k)
            A = ic_amp(R)
            if A * 1e-13 > 1e-6 or (0 < k["e"] < 0.02):
                raise Reject()
            o = kg.Orbit(k["a"], tuple(pos), tuple(u))
            if k["e"] == 0:
                raise Reject()
            ctx.check("stable", o.stable, repr(o.stable))
            twin = kg.StableOrbit(k["a"], k["p"], k["e"], k["x"], tuple(mirror(k, o.initial_phases)))
            m = msign(k)
            t = 3e-13 * A
            te = min(t / k["e"], math.sqrt(t) * 3)
            tr = (t + te * te) * (1 + 0.1 * R.r2 / R.gap23) * 100
            S = Scale(R, tr)
            q2 = k["other"]
            lams = [np.clip(np.array(k["lam"]), -8, 8) * (2 * PI / R.upsilon_r)] * 2
            ctx.label(*orbit_labels(k))
        else:
            R, pos, u = plunge_state(k)
            if p_ic_tol(R, pos) > 1e-6 or abs(np.array(u) @ ref.metric(R.a, pos[1], pos[2]) @ np.array(u) + 1) > 1e-7:
                raise Reject()
            o = kg.Orbit(k["a"], tuple(pos), tuple(u))
            ctx.check("not stable", not o.stable, repr(o.stable))
            twin = kg.PlungingOrbit(o.a, o.E, o.L, o.Q, o.initial_phases)
            q2 = k["other"]
            from .plunge_p import away
            base = np.clip(np.array(k["lam"]), -3, 3) * (2 * PI / R.upsilon_r)
            lams = []
            for q in (k["phases"], q2):
                try:
                    lm = away(R, base, q, 2e-2)
                    rr, th = R.trajectory(lm, q)[1:3]
                    lams.append(lm[rr * rr + (R.a * np.cos(th)) ** 2 > 1e-2])
                except Reject:
                    lams.append(base[:0])
            ctx.label(*plunge_labels(k, R))
        for own, q, lam in ((True, k["phases"], lams[0]), (False, q2, lams[1])):
            if len(lam) == 0:
                continue
            nm = "own phases" if own else "other phases"
            qm = mirror(k, list(q)) if "p" in k else q
            if what == "deltas":
                F = o.trajectory_deltas() if own else o.trajectory_deltas(tuple(q))
                G = twin.trajectory_deltas() if own else twin.trajectory_deltas(tuple(qm))
                ups = (R.upsilon_r, R.upsilon_theta, R.upsilon_r, R.upsilon_theta)
            elif what == "velocity":
                F = o.four_velocity() if own else o.four_velocity(initial_phases=tuple(q))
                G = twin.four_velocity() if own else twin.four_velocity(initial_phases=tuple(qm))
            else:
                F = o.numerical_four_velocity() if own else o.numerical_four_velocity(1e-5, tuple(q))
                G = o.four_velocity() if own else o.four_velocity(tuple(q))
            ctx.check("four functions", len(F) == 4, repr(F))
            if "p" in k:
                w = R.velocity(lam, qm)
                tv = vel_tol(R, S, lam, qm, w)
            for i in range(4):
                arg = lam * ups[i] if what == "deltas" else lam
                ww = np.asarray(G[i](arg), float)
                if i >= (2 if what == "deltas" else 3) and what != "numerical":
                    ww = m * ww
                got = np.asarray(F[i](arg))
                ok = np.isfinite(ww)
                if what == "numerical":
                    # the step is 1e-6 or 1e-5: only gross disagreement is meaningful
                    g2 = np.asarray(G[i](np.array([lam - 1e-4, lam + 1e-4])), float)
                    if not np.all(np.isfinite(g2)):
                        continue
                    x = np.abs(np.asarray(o.trajectory()[i](lam) if own else o.trajectory(tuple(q))[i](lam), float)) + 10
                    sg = R.trajectory(lam, qm)[1] ** 2 + 1e-2
                    tol = 1e-4 * (np.abs(ww) + 1 / sg) + 3 * np.abs(g2 - ww).max(axis=0) + 1e-6 * x / sg
                    if "p" in k:
                        tol = tol + tv[i]
                    elif i == 0:  # the closed form of t contains squares of the outermost root, which cancel
                        tol = tol + 1e-15 * max(R.rmax, *np.abs(R.others)) ** 2 / 1e-6 / sg
                elif "p" in k:
                    if what == "deltas":
                        size = (S.Tr / R.upsilon_r, S.Tt / R.upsilon_theta, S.Pr / R.upsilon_r, S.Pt / R.upsilon_theta)[i]
                        tol = size * tr * (1 + np.abs(arg)) + 1e-10
                    else:
                        tol = 0.1 * tv[i] + 1e-9 * (1 + np.abs(ww))
                        if i == 2:  # a Carter constant of zero comes back as rounding, and u^theta is its square root
                            tol = tol + math.sqrt(1e-14 * (R.L ** 2 + R.Q + 1)) / R.r2 ** 2
                else:
                    tol = 1e-10 * (1 + np.abs(ww))
                    if what == "deltas":
                        tol = 1e-10 * (10 + np.abs(ww) + np.abs(arg))
                ctx.close(f"{what} {i} ({nm})", got[ok], ww[ok], (tol + 0 * ww)[ok], info=f"argument {arg.tolist()}")
    return run


@st.composite
def s_any_ic(draw):
    return draw(s_stable_ic() if draw(st.booleans()) else s_plunge_ic())


@st.composite
def s_tol(draw):
    k = draw(s_any_ic())
    k["coord"], k["end"], k["side"] = draw(gen.oneof(["r", "theta"])), draw(gen.oneof([0, 1])), gen.sign(draw)
    k["dist"] = gen.LOG(draw, -6.5, -2.5)
    k["ratio"] = draw(gen.oneof([gen.U(draw, 0.05, 0.9), gen.LOG(draw, 0.05, 2)]))
    return k


def run_tol(ctx, k):
    """states within the tolerance passed in of a turning point are at it, others have their own phase"""
    stable = "p" in k
    R = ref_orbit(k) if stable else ref_p(k)
    d, tol = k["dist"], k["dist"] / k["ratio"]
    i = 1 if k["coord"] == "r" else 2
    lo, hi = ((R.r2, R.r1) if stable else (R.rmin, R.rmax)) if i == 1 else (PI / 2 - math.asin(R.zm), PI / 2 + math.asin(R.zm))
    if hi - lo < 4 * max(tol, d) or tol < 1e-8 or hi - lo < 0.02:
        raise Reject()
    f = R.r_of if i == 1 else R.theta_of
    want = hi - d if k["end"] else lo + d
    # the phase at which the coordinate is at that distance from the end
    A, B = 0.0, PI
    for _ in range(60):
        C = (A + B) / 2
        A, B = (C, B) if float(f(np.float64(C))) < want else (A, C)
    q = list(k["phases"])
    q[i] = k["side"] * C
    j = 3 - i
    if turning(q[j]) < 0.3:
        q[j] = 1.0
    k2 = dict(k, phases=q)
    pos, u = state(R, mirror(k2, q) if stable else q)
    if stable and k["a"] < 0:
        pos[3], u[3] = -pos[3], -u[3]
    if abs(pos[i] - want) > 1e-3 * d:
        raise Reject()
    if stable:
        amp = 1e-13 * ic_amp(R) / abs(k["x"])
        get = kgi.stable_orbit_initial_phases
    else:
        if min(abs(pos[1] - R.rp), abs(pos[1] - R.rm)) < 2e-2 or pos[1] ** 2 + (R.a * math.cos(pos[2])) ** 2 < 1e-2:
            raise Reject()
        if R.kind != "complex" and abs(R.others[0] - R.others[1]) < 1e-3 or R.zm < 1e-2:
            raise Reject()
        amp = p_ic_tol(R, pos) / (R.zm * math.sqrt(R.omz2) if i == 2 else 1)
        get = kgi.plunging_orbit_initial_phases
    if amp * (1 + hi) > 1e-3 * d:
        raise Reject()
    got = get(k["a"], tuple(pos), tuple(u), tol=tol)[i]
    if k["ratio"] < 1:
        mod_close(ctx, f"{k['coord']} phase within tolerance of a turning point", got, PI * k["end"], 1e-12, f"{got!r}, tol={tol!r}")
    else:
        # an error dr in the position of the turning point moves the phase by dr/d of itself
        mod_close(ctx, f"{k['coord']} phase near a turning point", got, q[i], 1e-2 * turning(q[i]), f"got {got!r} for {q[i]!r}, tol={tol!r}")
    ctx.label("stable" if stable else "plunging " + R.kind, k["coord"], "within" if k["ratio"] < 1 else "beyond")


EXTRA = {pid: [dict(name="orbit_from_state_" + what, strategy=s_any_ic(), run=run_object(what), n=600)]
         for pid, what in (("P14", "deltas"), ("P15", "velocity"), ("P16", "numerical"))}

PROPS = [
    dict(id="P17", rule="events outside the horizon with generated timelike four-velocities (any direction, speed, near the "
         "pole and equator), and points on generated stable and plunging orbits incl. inside the horizons. Non-trivial: every distinct case.",
         oracles=[dict(name="events", strategy=s_event(far=6.0), run=run_constants, n=4000),
                  dict(name="along_orbits", strategy=s_points(), run=run_constants_orbits, n=1600)]),
    dict(id="P18", rule="states taken from generated stable and plunging orbits (all root configurations; incl. plunges sharing "
         "their constants with a stable orbit), at turning points and elsewhere. Non-trivial: every distinct state.",
         oracles=[dict(name="stable", strategy=s_stable_ic(), run=run_is_stable, n=1600),
                  dict(name="plunging", strategy=s_plunge_ic(), run=run_is_stable, n=1600)]),
    dict(id="P19", rule="as P18; all combinations of optional arguments. Non-trivial: every distinct state.",
         oracles=[dict(name="stable_phases", strategy=s_stable_ic(), run=run_stable_phases, n=1600),
                  dict(name="plunging_phases", strategy=s_plunge_ic(), run=run_plunge_phases, n=1600),
                  dict(name="tolerance", strategy=s_tol(), run=run_tol, n=1600)]),
    dict(id="P20", rule="as P18, and 1-4 Mino times. Non-trivial: every distinct case.",
         oracles=[dict(name="stable_orbit", strategy=s_stable_ic(), run=run_orbit_stable, n=1200),
                  dict(name="small_amplitudes", strategy=s_small_ic(), run=run_orbit_small, n=1200),
                  dict(name="plunging_orbit", strategy=s_plunge_ic(), run=run_orbit_plunge, n=1200)]),
    dict(id="P21", rule="timelike velocities scaled by a factor, spacelike and null velocities at generated events; states of "
         "generated orbits with a normalisation error below 9.3e-7 or above 1.04e-6; bound Schwarzschild motion without a barrier. "
         "Non-trivial: every distinct case.",
         oracles=[dict(name="bad_velocity", strategy=s_bad(), run=run_bad, n=4000),
                  dict(name="nearly_normalised", strategy=s_off(), run=run_off, n=2400),
                  dict(name="good_velocity", strategy=s_good(), run=run_good, n=1600),
                  dict(name="schwarzschild_plunge", strategy=s_schw(), run=run_schw, n=1600)]),
]
