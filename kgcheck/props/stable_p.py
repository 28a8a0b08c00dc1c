"""P12, P14-P16: trajectories, trajectory deltas and four-velocities."""
import math

import kerrgeopy as kg
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..harness import Reject
from .constants_p import orbit_labels
from .frequencies_p import plunge_labels, ptol, ref_orbit, rtol

PI = math.pi
PSI = np.linspace(0, PI, 33)


class Scale:
    """error budget of a stable trajectory: relative error of the frequencies
    times the phase travelled, propagated through the motion"""

    def __init__(self, R, t):
        self.R, self.t = R, t
        self.Tr, self.Pr = np.max(np.abs(R._Tr(PSI))), np.max(np.abs(R._Pr(PSI)))
        self.Tt, self.Pt = np.max(np.abs(R._Tt(PSI))), np.max(np.abs(R._Pt(PSI)))
        r = R._rr(PSI)[0]
        self.rdot = np.max(R.p * R.e * np.abs(np.sin(PSI)) / R._rr(PSI)[2] ** 2 / R.ar.f(PSI)) / R.upsilon_r
        self.r = r.max()

    def __call__(self, lam, phases):
        """tolerances on t, r, theta, phi"""
        R, t = self.R, self.t
        _, qr, qth, _ = phases
        lr = np.abs(R.upsilon_r * lam) + abs(qr) + 4
        lt = np.abs(R.upsilon_theta * lam) + abs(qth) + 4
        dt = t * (lr * self.Tr / R.upsilon_r + lt * self.Tt / R.upsilon_theta) + 1e-15 * abs(phases[0])
        dp = t * (lr * self.Pr / R.upsilon_r + lt * self.Pt / R.upsilon_theta) + 1e-15 * abs(phases[3])
        dr = t * lr * (self.rdot + self.r * 0.01) + 4e-15 * self.r
        dth = t * lt * R.zm / abs(R.x) * 0.05 + t * lt + 1e-15 / abs(R.x)
        return dt, dr, dth, dp


S_PARAMS = gen.stable_params(emin=-9, xmin=-6, dlo=-3, dhi=6, e_near1=-4)
S_PARAMS_E = gen.stable_params(emin=-3.5, xmin=-6, dlo=-3, dhi=6, e_near1=-4)


@st.composite
def s_traj(draw):
    k = draw(S_PARAMS)
    k["phases"] = draw(gen.phases())
    k["lam"] = draw(gen.mino_times(1, 6))
    k["entry"] = draw(gen.oneof(["object", "override", "function", "from_constants"]))
    return k


def lam_of(k, ups):
    return np.array(k["lam"]) * (2 * PI / ups)


def run_stable(ctx, k):
    R = ref_orbit(k)
    S = Scale(R, 2 * rtol(R))
    a, p, e, x = (k[n] for n in "apex")
    ph = tuple(k["phases"])
    lam = lam_of(k, R.upsilon_r)
    entry = k["entry"]
    given = (ph,) if any(ph) or k["lam"][0] > 0 else ()  # phases of zero are also those of a call without any
    if entry == "function":
        f = kg.stable.stable_trajectory(a, p, e, x, *given)
    elif entry == "object":
        f = kg.StableOrbit(a, p, e, x, *given).trajectory()
    elif entry == "from_constants" and a >= 0 and e > 1e-2 and abs(x) > 0.05 and k["d"] > 0.05:
        o = kg.StableOrbit.from_constants(a, R.E, R.L, R.Q, *given)
        f = o.trajectory()
        S.t = 300 * S.t * (1 + p / (1 - e)) / e
    else:
        f = kg.StableOrbit(a, p, e, x).trajectory(initial_phases=ph)
    ctx.check("four components", len(f) == 4, repr(f))
    want = R.trajectory(lam, ph)
    tol = S(lam, ph)
    for n, g, w, t in zip(("t", "r", "theta", "phi"), f, want, tol):
        ctx.close(f"{n} ({entry})", g(lam), w, t, info=f"lambda={lam.tolist()}")
    ctx.label(entry, *orbit_labels(k))


# period and shift relations, which need no reference trajectory
@st.composite
def s_shift(draw):
    k = draw(S_PARAMS_E)
    k["phases"] = draw(gen.phases())
    k["lam"] = gen.U(draw, -2, 2)
    k["shift"] = gen.U(draw, -4, 4)
    k["n"] = draw(st.integers(-3, 3))
    return k


def run_shift(ctx, k):
    R = ref_orbit(k)
    S = Scale(R, 4 * rtol(R))
    a, p, e, x = (k[n] for n in "apex")
    q = tuple(k["phases"])
    u = 2 * PI / R.upsilon_r
    lam, sh = k["lam"] * u, k["shift"] * u
    o = kg.StableOrbit(a, p, e, x)
    t, r, th, ph = o.trajectory(q)
    d = S(abs(lam) + abs(sh), q)
    # moving the start along the orbit
    q2 = (0.0, q[1] + o.upsilon_r * sh, q[2] + o.upsilon_theta * sh, 0.0)
    t2, r2, th2, ph2 = o.trajectory(q2)
    ctx.close("t after a shift of the start", t2(lam), t(lam + sh) - t(sh), 3 * d[0])
    ctx.close("phi after a shift of the start", ph2(lam), ph(lam + sh) - ph(sh), 3 * d[3])
    ctx.close("r after a shift of the start", r2(lam), r(lam + sh), 3 * d[1])
    ctx.close("theta after a shift of the start", th2(lam), th(lam + sh), 3 * d[2])
    # whole periods
    lr, lt = k["n"] * 2 * PI / o.upsilon_r, k["n"] * 2 * PI / o.upsilon_theta
    d = S(abs(lam) + abs(lr) + abs(lt), q)
    ctx.close("r is periodic", r(lam + lr), r(lam), 3 * d[1])
    ctx.close("theta is periodic", th(lam + lt), th(lam), 3 * d[2])
    # start
    ctx.close("t(0)", t(0), q[0], 1e-15 * abs(q[0]) + 3 * d[0])
    ctx.close("phi(0)", ph(0), q[3], 1e-15 * abs(q[3]) + 3 * d[3])
    zmin, zmax = PI / 2 - math.asin(R.zm), PI / 2 + math.asin(R.zm)
    lam = np.linspace(-3, 3, 61) * u
    d = S(lam, q)
    ctx.check("r within turning points", np.all((r(lam) >= R.r2 - d[1]) & (r(lam) <= R.r1 + d[1])), "")
    zt = 1e-14 / abs(R.x) + 1e-9
    ctx.check("theta within turning points", np.all((th(lam) >= zmin - zt) & (th(lam) <= zmax + zt)), "")
    ctx.check("t increases", np.all(np.diff(t(lam)) > -2 * d[0][1:]), "")
    ctx.label(*orbit_labels(k))


# ---------------------------------------------------------------- P14
@st.composite
def s_deltas(draw):
    k = draw(S_PARAMS_E)
    k["phases"] = draw(gen.phases())
    k["q"] = [gen.U(draw, -20, 20) for _ in range(draw(st.integers(1, 4)))] + [0.0]
    k["entry"] = draw(gen.oneof(["object", "override"]))
    return k


def run_deltas(ctx, k):
    R = ref_orbit(k)
    S = Scale(R, 2 * rtol(R))
    a, p, e, x = (k[n] for n in "apex")
    ph = tuple(k["phases"])
    q = np.array(k["q"])
    f = (kg.StableOrbit(a, p, e, x, ph).trajectory_deltas() if k["entry"] == "object" else
         kg.StableOrbit(a, p, e, x, (1.0, 2.0, 3.0, 4.0)).trajectory_deltas(ph))
    ctx.check("four functions", len(f) == 4, repr(f))
    cancel = 1e-14 * (1 + math.sqrt(R.l2) * R.p / (1 - R.e ** 2))  # t_theta is a difference of elliptic integrals of this size
    A, B = q + ph[1], q + ph[2]
    want = (R.dt_r(A), R.dt_t(B), R.dphi_r(A), R.dphi_t(B))
    n = np.abs(q) + abs(ph[1]) + abs(ph[2]) + 4
    tol = (S.t * n * S.Tr / R.upsilon_r, S.t * n * S.Tt / R.upsilon_theta,
           S.t * n * S.Pr / R.upsilon_r, S.t * n * S.Pt / R.upsilon_theta)
    for nm, g, w, t in zip(("t_r", "t_theta", "phi_r", "phi_theta"), f, want, tol):
        ctx.close(nm, g(q), w, t + cancel * n)
    # secular + oscillating = trajectory
    o = kg.StableOrbit(a, p, e, x)
    tt, _, _, pp = o.trajectory(ph)
    lam = q[0] / R.upsilon_r
    qq = (o.upsilon_r * lam, o.upsilon_theta * lam)
    ctx.close("t from deltas", ph[0] + o.gamma * lam + f[0](qq[0]) - f[0](0) + f[1](qq[1]) - f[1](0), tt(lam),
              3 * S(lam, ph)[0] + 1e-13)
    ctx.close("phi from deltas", ph[3] + o.upsilon_phi * lam + f[2](qq[0]) - f[2](0) + f[3](qq[1]) - f[3](0), pp(lam),
              3 * S(lam, ph)[3] + 1e-13)
    ctx.label(k["entry"], *orbit_labels(k))


# ---------------------------------------------------------------- P15
@st.composite
def s_vel(draw):
    k = draw(S_PARAMS_E)
    k["phases"] = draw(gen.phases())
    k["lam"] = draw(gen.mino_times(1, 5))
    k["entry"] = draw(gen.oneof(["object", "override"]))
    k["M"] = draw(gen.oneof([None, None, 10.0, 1e6]))
    return k


def vel_tol(R, S, lam, ph, want):
    """tolerances on u^t, u^r, u^theta, u^phi"""
    d = S(lam, ph)
    t = S.t
    r, th = R.trajectory(lam, ph)[1:3]
    ut, ur, uth, up = (np.abs(w) for w in want)
    sg = r * r + R.a ** 2 * np.cos(th) ** 2
    s2 = np.sin(th) ** 2
    rel = 20 * (d[1] / (r - R.rp)) + t
    # u^r and u^theta are square roots of potentials which vanish at the turning points
    co = ref.R_coeffs(R.a, R.E, R.L, R.Q)
    R1 = np.abs(sum(n * co[n] * r ** (n - 1) for n in range(1, 5)))
    dR = (4e-15 + t) * ((R.E * (r * r + R.a ** 2)) ** 2 + r * r * (r * r + R.L ** 2 + R.Q)) + 3 * R1 * d[1]
    er = 2 * np.minimum(np.sqrt(dR), dR / np.maximum(ur * sg, 1e-300)) / sg + rel * ur
    cz = np.abs(np.cos(th))
    Z1 = 2 * cz * (R.Q + R.L ** 2 + R.b)
    dZ = (4e-15 + t) * (cz ** 2 * (R.Q + R.L ** 2 + R.b) + abs(R.Q)) + 1e-16 * (R.L ** 2 + R.b) + 3 * Z1 * np.sqrt(s2) * (d[2] + 2e-16)
    s1 = np.sqrt(s2)
    eth = (2 * np.minimum(np.sqrt(dZ), dZ / np.maximum(uth * sg * s1, 1e-300)) / sg / s1
           + rel * uth + 3 * d[2] / s1 * uth)
    ep = rel * (R.a / sg * (np.abs(S.Pr) + S.Pt)) + rel * up + 10 * (d[2] / np.sqrt(s2) + t) * abs(R.L) / s2 / sg
    et = rel * (S.Tr + S.Tt) / sg + rel * ut
    return et + 1e-14, er + 1e-15, eth + 1e-15, ep + 1e-15


def run_vel(ctx, k):
    R = ref_orbit(k)
    S = Scale(R, 2 * rtol(R))
    a, p, e, x = (k[n] for n in "apex")
    ph = tuple(k["phases"])
    lam = lam_of(k, R.upsilon_r)
    o = kg.StableOrbit(a, p, e, x, ph, M=k["M"])
    o2 = o
    if k["entry"] == "object":
        u = o.four_velocity()
    else:
        o2 = kg.StableOrbit(a, p, e, x)
        u = o2.four_velocity(initial_phases=ph)
    want = R.velocity(lam, ph)
    tol = vel_tol(R, S, lam, ph, want)
    got = [f(lam) for f in u]
    for n, g, w, t in zip(("u^t", "u^r", "u^theta", "u^phi"), got, want, tol):
        ctx.close(n, g, w, t, info=f"lambda={lam.tolist()}")
    # the four-velocity has norm -1 at the position the trajectory reports
    pos = [f(lam) for f in o2.trajectory(ph)]
    for i in range(len(lam)):
        g = ref.metric(R.a, float(pos[1][i]), float(pos[2][i]))
        v = np.array([c[i] for c in got])
        n = v @ g @ v
        s = np.abs(v) @ np.abs(g) @ np.abs(v)
        ctx.close("norm of the four-velocity", n, -1.0, 1e-13 * s + s * 10 * S.t * (1 + 1 / (R.r2 - R.rp))
                  + s * 1e-15 / math.sin(float(pos[2][i])) ** 2)
    # stored initial state
    w0, v0 = R.trajectory(0.0, ph), R.velocity(0.0, ph)
    t0 = S(0.0, ph)
    for i, n in enumerate(("t", "r", "theta", "phi")):
        ctx.close("initial " + n, o.initial_position[i], w0[i], t0[i] + 1e-14)
    tv = vel_tol(R, S, np.array(0.0), ph, v0)
    for i, n in enumerate(("u^t", "u^r", "u^theta", "u^phi")):
        ctx.close("initial " + n, o.initial_velocity[i], v0[i], tv[i])
    ctx.label(k["entry"], *orbit_labels(k))


PROPS = [
    dict(id="P12", rule="stable orbits by class (as P09), initial phases zero / generic / at turning points / several "
         "turns / negative, 1-6 Mino times incl. 0, negative, whole and half periods and up to 40 periods; four entry "
         "points. Non-trivial: every distinct case.",
         oracles=[dict(name="trajectory", strategy=s_traj(), run=run_stable, n=2400),
                  dict(name="shift_and_period", strategy=s_shift(), run=run_shift, n=1200)]),
    dict(id="P15", rule="stable and plunging orbits by class with generated phases and Mino times. Non-trivial: every distinct case.",
         oracles=[dict(name="stable_velocity", strategy=s_vel(), run=run_vel, n=1600)]),
    dict(id="P14", rule="stable and plunging orbits by class with generated phases. Non-trivial: every distinct case.",
         oracles=[dict(name="stable_deltas", strategy=s_deltas(), run=run_deltas, n=1600)]),
]
