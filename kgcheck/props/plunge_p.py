"""P13 and the plunging parts of P14-P16."""
import math

import kerrgeopy as kg
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..harness import Reject
from .frequencies_p import plunge_labels, ptol, ref_orbit

PI = math.pi


class PScale:
    """error budget of a plunging trajectory"""

    def __init__(self, P, t):
        self.P, self.t = P, t
        self.k = t

    def __call__(self, lam, ph):
        P = self.P
        _, qr, qth, _ = ph
        A, B = P.upsilon_r * lam + qr, P.upsilon_theta * lam + qth
        psi = P.ar.psi_of_q(A)
        r = P._r(psi)
        n = np.abs(A) + np.abs(B) + abs(qr) + abs(qth) + 4
        dpsi = self.t * n * (1 + P.ar.ser.mean / P.ar.f(psi))
        dr = dpsi * P.half + 1e-14 * P.rmax
        # conditioning of t and phi at the horizons
        def sing(x):
            rr = P._r(P.ar.psi_of_q(x))
            return (abs(P.kp) / np.abs(rr - P.rp) * (1 + P.rp) + abs(P.km) / np.abs(rr - P.rm) * (1 + P.rm))
        rdot = P.half * np.abs(np.sin(psi)) / P.ar.f(psi)
        lam_err = self.t * n / P.upsilon_r
        smooth = (P.E * (P.rmax ** 2 + 2) + 4 + abs(P.kp) + abs(P.km)) * n * (1 / P.upsilon_r + 1 / P.upsilon_theta)
        pole = lam_err * (sing(A) + sing(qr))
        logs = (abs(P.kp) * 2 * P.rp + abs(P.km) * 2 * P.rm) * 10 * (abs(P.fp) + abs(P.fm) + 1) / (P.rp - P.rm)
        # with four real roots the closed form of t contains the square of the outermost one, which cancels
        rbig = max(P.others) if P.kind == "real_inner" else P.rmax
        dt = self.k * (smooth + logs) + pole + 1e-15 * abs(ph[0]) + 1e-15 * rbig ** 2 * n
        s2 = P.omz2
        th, th0 = P.theta_of(B), P.theta_of(np.float64(qth))
        turn = self.t * n * (1 / np.sin(th) ** 2 + 1 / np.sin(th0) ** 2) * abs(P.L) / P.upsilon_theta * 3
        # next to the axis phi is as uncertain as the time of closest approach, whatever the time
        dp = (self.k * (smooth + logs) + pole + 1e-15 * abs(ph[3]) + np.minimum(turn, self.t * n * abs(P.L) / s2 / P.upsilon_theta * 3)
              + 1e-14 * n / math.sqrt(s2))
        dth = self.t * n * (1 + P.zm / math.sqrt(s2)) + 1e-15 / math.sqrt(s2)
        return dt, dr, dth, dp


@st.composite
def s_params(draw):
    return draw(gen.plunge_params())


@st.composite
def s_mild(draw):
    return draw(gen.plunge_params(amin=0.02, lmin=0.03, emax=3e-3))


def ref_p(k):
    P = gen.ref_plunge(k)
    if P.psi_p is None or P.psi_m is None:
        raise Reject()
    if P.rm - P.rmin < 1e-12 * P.rm:
        raise Reject()  # the inner turning point is within rounding of the inner horizon
    return P


def away(P, lam, ph, gap=1e-6):
    """drop the times at which the particle is within `gap` of a horizon, where t and phi diverge"""
    r = P.r_of(P.upsilon_r * lam + ph[1])
    r0 = P.r_of(np.float64(ph[1]))
    if min(abs(r0 - P.rp), abs(r0 - P.rm)) < gap:
        raise Reject()
    lam = lam[(np.abs(r - P.rp) > gap) & (np.abs(r - P.rm) > gap)]
    if len(lam) == 0:
        raise Reject()
    return lam


@st.composite
def s_near(draw):
    """an instant next to a horizon crossing: which horizon, distance, outgoing or ingoing, radial turns"""
    if draw(gen.oneof([True, False])):
        return None
    return [draw(gen.oneof(["p", "m"])), gen.sign(draw) * gen.LOG(draw, -5.5, -1), draw(gen.oneof([-1, 1])), draw(gen.oneof([0, 0, 1, -2]))]


def near_horizon(P, near):
    """radial phase of the instant described by s_near; None if the radius is not reached"""
    which, d, branch, turns = near
    r = (P.rp if which == "p" else P.rm * 1.0) + d * (1 if which == "p" else min(1.0, P.rm))
    y = (r - P.rmin) / (P.rmax - P.rmin)
    if not 0 < y < 1:
        return None
    psi = branch * 2 * math.asin(math.sqrt(y))
    return float(psi + P.ar.ser.osc(psi) / P.ar.ser.mean) + 2 * PI * turns


@st.composite
def s_traj(draw):
    k = draw(s_params())
    k["phases"] = draw(gen.phases())
    k["lam"] = draw(gen.mino_times(1, 6, 1.5))
    k["entry"] = draw(gen.oneof(["object", "override", "function"]))
    k["near"] = draw(s_near())
    return k


def times(k, P):
    lam = np.clip(np.array(k["lam"]), -10, 10) * (2 * PI / P.upsilon_r)
    if k.get("near"):
        q = near_horizon(P, k["near"])
        if q is not None:
            lam = np.append(lam, (q - k["phases"][1]) / P.upsilon_r)
    return away(P, lam, k["phases"])


def run_traj(ctx, k):
    P = ref_p(k)
    a, E, L, Q = (k[n] for n in "aELQ")
    ph = tuple(k["phases"])
    lam = times(k, P)
    S = PScale(P, ptol(P))
    given = (ph,) if any(ph) or k["lam"][0] > 0 else ()  # phases of zero are also those of a call without any
    if k["entry"] == "function":
        from kerrgeopy.plunge import plunging_trajectory
        f = plunging_trajectory(a, E, L, Q, *given)
    elif k["entry"] == "object":
        f = kg.PlungingOrbit(a, E, L, Q, *given).trajectory()
    else:
        f = kg.PlungingOrbit(a, E, L, Q).trajectory(ph)
    want, tol = P.trajectory(lam, ph), S(lam, ph)
    for n, g, w, t in zip(("t", "r", "theta", "phi"), f, want, tol):
        ctx.close(f"{n} ({P.kind})", g(lam), w, t, info=f"lambda={lam.tolist()}")
    ctx.label(k["entry"], *plunge_labels(k, P))


# ---------------------------------------------------------------- P14
@st.composite
def s_deltas(draw):
    k = draw(s_params())
    k["phases"] = draw(gen.phases())
    k["q"] = [gen.U(draw, -12, 12) for _ in range(draw(st.integers(1, 4)))]
    k["entry"] = draw(gen.oneof(["object", "override"]))
    return k


def run_deltas(ctx, k):
    P = ref_p(k)
    if P.kind != "complex" and abs(P.others[0] - P.others[1]) < 1e-4 * abs(P.others[0]):
        raise Reject()  # real and complex are not distinguishable by rounding, and the convention differs
    a, E, L, Q = (k[n] for n in "aELQ")
    ph = tuple(k["phases"])
    S = PScale(P, ptol(P))
    q = np.array(k["q"])
    away(P, np.array([0.0]), ph)
    q = away(P, q / P.upsilon_r, ph) * P.upsilon_r
    o = kg.PlungingOrbit(a, E, L, Q, ph) if k["entry"] == "object" else kg.PlungingOrbit(a, E, L, Q, (1.0, 2.0, 3.0, 4.0))
    f = o.trajectory_deltas() if k["entry"] == "object" else o.trajectory_deltas(ph)
    A, B = q + ph[1], q + ph[2]
    T, F = P.rad(A)
    T0, F0 = P.rad(np.float64(ph[1]))
    U, V = P.pol(B)
    U0, V0 = P.pol(np.float64(ph[2]))
    # two complex roots: the deltas are the whole radial and polar solutions
    if P.kind == "complex":
        aL = a * L
        sec = [0, 0, 0, 0]
        # the package counts a*L*lambda - a^2*E*lambda in the radial and polar parts respectively
        wt_r, wt_t = (T - T0), (U - U0)
        extra = aL * q
        want = (wt_r + extra / P.upsilon_r, wt_t - extra / P.upsilon_theta, F - F0, V - V0)
    else:
        Tc, Fc = P.rad(np.float64(2 * PI))
        Uc, Vc = P.pol(np.float64(2 * PI))
        want = (T - T0 - q * Tc / (2 * PI), U - U0 - q * Uc / (2 * PI),
                F - F0 - q * Fc / (2 * PI), V - V0 - q * Vc / (2 * PI))
    d = S(q / P.upsilon_r, ph)
    got = [g(q) - g(0.0) for g in f]
    for nm, g, w, t in zip(("t_r", "t_theta", "phi_r", "phi_theta"), got, want, (d[0], d[0], d[3], d[3])):
        ctx.close(f"{nm} ({P.kind})", g, w, 2 * t * (1 + P.upsilon_r / P.upsilon_theta + P.upsilon_theta / P.upsilon_r))
    ctx.label(k["entry"], *plunge_labels(k, P))


# ---------------------------------------------------------------- P15
def run_vel(ctx, k):
    P = ref_p(k)
    a, E, L, Q = (k[n] for n in "aELQ")
    ph = tuple(k["phases"])
    lam = times(k, P)
    S = PScale(P, ptol(P))
    o = kg.PlungingOrbit(a, E, L, Q, ph) if k["entry"] == "object" else kg.PlungingOrbit(a, E, L, Q)
    u = o.four_velocity() if k["entry"] == "object" else o.four_velocity(initial_phases=ph)

    def compare(lam, got, what):
        want = P.velocity(lam, ph)
        d = S(lam, ph)
        r, th = P.trajectory(lam, ph)[1:3]
        s2 = np.sin(th) ** 2
        s1 = np.sqrt(s2)
        sg = r * r + a * a * np.cos(th) ** 2
        dl = np.abs((r - P.rp) * (r - P.rm))
        ut, ur, uth, up = (np.abs(w) for w in want)
        rel = (d[1] * (2 * r + 2) + 2 * a * a * d[2]) / sg + 1e-14
        K = np.abs(E * (r * r + a * a) - a * L) + abs(a * L) * 1e-3
        dK = (2 * E * r * d[1] + 1e-14 * (E * (r * r + a * a) + abs(a * L)))
        pole = (dK + K * d[1] * (1 / np.abs(r - P.rp) + 1 / np.abs(r - P.rm)) + K * 1e-15 * (r * r + 3) / dl) / dl
        dsin = np.abs(np.cos(th)) / s1 * d[2] + 1e-15
        tt = ((r * r + a * a) * pole + (K / dl) * r * d[1] * 2 + (a * a * E + abs(a * L)) * 1e-14) / sg + rel * ut
        tp = (abs(a) * pole + abs(L) / s2 * 3 * dsin + 1e-14 * (abs(a * E) + abs(L) / s2)) / sg + rel * up
        co = ref.R_coeffs(a, E, L, Q)
        R1 = np.abs(sum(n * co[n] * r ** (n - 1) for n in range(1, 5)))
        dR = 2e-14 * ((E * (r * r + a * a)) ** 2 + (a * L) ** 2 + (r * r + 2 * r + a * a) * (r * r + (a * E - L) ** 2 + Q)) + 2 * R1 * d[1]
        er = 2 * np.minimum(np.sqrt(dR), dR / np.maximum(ur * sg, 1e-300)) / sg + rel * ur
        cz = np.abs(np.cos(th))
        dZ = 2e-14 * (Q + cz ** 2 * (Q + L * L + P.bb)) + 4 * cz * (Q + L * L + P.bb) * s1 * d[2]
        eth = (2 * np.minimum(np.sqrt(dZ), dZ / np.maximum(uth * sg * s1, 1e-300)) / sg / s1 + rel * uth + 3 * dsin * uth)
        for n, g, w, t in zip(("u^t", "u^r", "u^theta", "u^phi"), got, want, (tt, er, eth, tp)):
            ctx.close(f"{what}{n} ({P.kind})", g, w, 2 * t + 1e-14, info=f"lambda={np.asarray(lam).tolist()}")

    def sigma(lam):
        r, th = P.trajectory(lam, ph)[1:3]
        return r * r + a * a * np.cos(th) ** 2

    # the four-velocity diverges at the ring singularity, and cos(theta) does not resolve the axis below 1e-8
    lam = lam[(sigma(lam) > 1e-3) & (P.trajectory(lam, ph)[2] % PI > 1e-6)]
    if len(lam) == 0:
        raise Reject()
    got = [f(lam) for f in u]
    compare(lam, got, "")
    if k["entry"] == "object" and sigma(np.float64(0.0)) > 1e-3 and P.trajectory(np.float64(0.0), ph)[2] % PI > 1e-6:
        compare(np.float64(0.0), o.initial_velocity, "initial ")
        w = P.trajectory(np.float64(0.0), ph)
        d = S(np.float64(0.0), ph)
        for i, n in enumerate(("t", "r", "theta", "phi")):
            ctx.close("initial " + n, o.initial_position[i], w[i], d[i] + 1e-14)
    ctx.label(k["entry"], *plunge_labels(k, P))


@st.composite
def s_vel(draw):
    k = draw(s_traj())
    k["entry"] = draw(gen.oneof(["object", "override"]))
    return k


# ---------------------------------------------------------------- P16
@st.composite
def s_num(draw):
    if draw(gen.oneof([True, True, False])):
        k = draw(gen.stable_params(emin=-3, xmin=-5, dlo=-2.5, dhi=4, high_e=False))
    else:
        k = draw(gen.plunge_params(amin=1e-5, lmin=0.01, emax=1e-3))
    k["phases"] = draw(gen.phases())
    k["lam"] = draw(gen.mino_times(1, 3, 1.5))
    k["dx"] = draw(gen.oneof([None, 1e-5, 1e-4, 1e-3]))
    k["entry"] = draw(gen.oneof(["object", "override"]))
    return k


def run_num(ctx, k):
    ph = tuple(k["phases"])
    dx = 1e-6 if k["dx"] is None else k["dx"]
    kw = {} if k["dx"] is None else {"dx": dx}
    if "p" in k:
        R = ref_orbit(k)
        args = (k["a"], k["p"], k["e"], k["x"])
        mk = kg.StableOrbit
        lam = np.clip(np.array(k["lam"]), -10, 10) * (2 * PI / R.upsilon_r)
        # derivatives grow with the sharpest feature of the motion
        w = max(R.upsilon_r * (1 + 3 * k["e"]) / (1 - k["e"]) / math.sqrt(R.gap23 / R.r2), R.upsilon_theta / abs(R.x))
        ctx.label("stable")
    else:
        R = ref_p(k)
        args = (k["a"], k["E"], k["L"], k["Q"])
        mk = kg.PlungingOrbit
        # keep the stencil away from the singularities
        lam = np.clip(np.array(k["lam"]), -10, 10) * (2 * PI / R.upsilon_r)
        lam = away(R, lam, ph, 0.1)
        r, th = R.trajectory(lam, ph)[1:3]
        lam = lam[r * r + (k["a"] * np.cos(th)) ** 2 > 0.05]
        if len(lam) == 0:
            raise Reject()
        rp = R.half / R.ar.f(np.linspace(0, PI, 33)).min()
        w = max(R.upsilon_r * 3, rp / 0.1, R.upsilon_theta / math.sqrt(R.omz2))
        ctx.label("plunging")
    if w * dx > 0.02:
        raise Reject()
    o = mk(*args, ph) if k["entry"] == "object" else mk(*args)
    u = o.numerical_four_velocity(**kw) if k["entry"] == "object" else o.numerical_four_velocity(
        initial_phases=ph, **kw)
    ctx.check("four components", len(u) == 4, repr(u))
    x = R.trajectory(lam, ph)
    want = R.velocity(lam, ph)
    sg = x[1] ** 2 + k["a"] ** 2 * np.cos(x[2]) ** 2
    size = (1 + np.abs(x[0]) + abs(ph[0]) + 3 * (R.p / (1 - R.e ** 2)) ** 1.5 * (1 + 0.01 * R.r2 / R.gap23) if "p" in k else 30 + np.abs(x[0]) + abs(ph[0]),
            np.max(x[1]) + 0 * sg, 3 + 0 * sg, (3 + np.abs(x[3]) + abs(ph[3])) * (1 + 0.2 / abs(k.get("x", 1))))
    amp = 1 + 0.2 * (R.r2 / (R.r2 - R.rp)) ** 2 if "p" in k else 100
    for n, f, v, s in zip(("u^t", "u^r", "u^theta", "u^phi"), u, want, size):
        noise = 2e-15 * s * amp * (1 + np.abs(lam) * R.upsilon_theta) * (1 + w * 1e-3) / dx / sg
        trunc = (w * dx) ** 4 * (np.abs(v) + w * s / sg)
        if "p" not in k and n == "u^t":  # (see PScale)
            noise = noise + 1e-17 * max(R.rmax, *np.abs(R.others)) ** 2 / dx / sg
        ctx.close(f"numerical {n}", f(lam), v, 150 * noise + trunc + 1e-10 * (np.abs(v) + 1), info=f"dx={dx}")
    ctx.label(f"dx={k['dx']}", k["entry"])


PROPS = [
    dict(id="P16", rule="stable (|x|>=0.05) and plunging orbits with generated phases, times and step sizes 1e-6 (default) to "
         "1e-3; rejected when the step is not small against the motion or within 0.1 of a horizon. Non-trivial: every distinct case.",
         oracles=[dict(name="numerical", strategy=s_num(), run=run_num, n=1600)]),
    dict(id="P13", rule="plunging constants as P07, generated phases and Mino times up to 10 radial "
         "periods; times within 1e-6 of a horizon dropped. Non-trivial: every distinct case.",
         oracles=[dict(name="trajectory", strategy=s_traj(), run=run_traj, n=1600)]),
]
EXTRA = {"P14": [dict(name="plunging_deltas", strategy=s_deltas(), run=run_deltas, n=1200)],
         "P15": [dict(name="plunging_velocity", strategy=s_vel(), run=run_vel, n=1200)]}
