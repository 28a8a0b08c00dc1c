"""P30: the published building blocks of trajectories."""
import math

import kerrgeopy as kg
import numpy as np
from hypothesis import strategies as st
from kerrgeopy import constants as kc
from kerrgeopy import plunge as kp
from kerrgeopy import stable as ks

from .. import gen
from ..harness import Reject
from .frequencies_p import orbit_labels, plunge_labels, ptol, ref_orbit, rtol
from .plunge_p import PScale, away, ref_p, s_params
from .stable_p import S_PARAMS_E, Scale

PI = math.pi


@st.composite
def s_stable(draw):
    k = draw(S_PARAMS_E)
    k["q"] = [gen.U(draw, -20, 20) for _ in range(draw(st.integers(1, 4)))] + [0.0]
    return k


def run_stable(ctx, k):
    R = ref_orbit(k)
    S = Scale(R, 2 * rtol(R))
    a, p, e, x = (k[n] for n in "apex")
    if a < 0:
        a, x = -a, -x  # the building blocks take constants, which do not say the sign of the spin
    q = np.array(k["q"])
    c = kc.constants_of_motion(a, p, e, x)
    rr, pr = kc.stable_radial_roots(a, p, e, x), kc.stable_polar_roots(a, p, e, x)
    r, tr, fr = ks.radial_solutions(a, c, rr)
    th, tt, ft = ks.polar_solutions(a, c, pr)
    n = np.abs(q) + 4
    d = S(q / R.upsilon_r, (0, 0, 0, 0))
    cancel = 3e-14 * (1 + math.sqrt(R.l2) * R.p / (1 - R.e ** 2)) * n
    ctx.close("r", r(q), R.r_of(q), d[1])
    ctx.close("theta", th(q), R.theta_of(q), S(q / R.upsilon_theta, (0, 0, 0, 0))[2])
    ctx.close("t_r", tr(q), R.dt_r(q), S.t * n * S.Tr / R.upsilon_r + cancel)
    ctx.close("t_theta", tt(q), R.dt_t(q), S.t * n * S.Tt / R.upsilon_theta + cancel)
    ctx.close("phi_r", fr(q), R.dphi_r(q), S.t * n * S.Pr / R.upsilon_r + cancel)
    ctx.close("phi_theta", ft(q), R.dphi_t(q), S.t * n * S.Pt / R.upsilon_theta + cancel)
    ctx.label(*orbit_labels(k))


@st.composite
def s_plunge(draw):
    k = draw(s_params())
    k["q"] = [gen.U(draw, -20, 20) for _ in range(draw(st.integers(1, 4)))]
    return k


def run_plunge(ctx, k):
    P = ref_p(k)
    args = a, E, L, Q = tuple(k[n] for n in "aELQ")
    if P.kind != "complex" and abs(P.others[0] - P.others[1]) < 1e-4 * abs(P.others[0]):
        raise Reject()  # real and complex are not distinguishable by rounding
    S = PScale(P, ptol(P))
    q = away(P, np.array(k["q"]) / P.upsilon_r, (0, 0, 0, 0)) * P.upsilon_r
    d = S(q / P.upsilon_r, (0, 0, 0, 0))
    # polar solutions: from the equator towards the north, q counted from there
    th, tt, ft = kp.plunging_polar_solutions(*args)
    dq = S(q / P.upsilon_theta, (0, 0, PI / 2, 0))
    ctx.close("theta", th(q), P.theta_of(q - PI / 2), dq[2])
    U, V = P.pol(q - PI / 2)
    U0, V0 = P.pol(np.float64(-PI / 2))
    ctx.close("t_theta", tt(q), U - U0 - a * L * q / P.upsilon_theta, 2 * dq[0] * (1 + P.upsilon_r / P.upsilon_theta))
    ctx.close("phi_theta", ft(q), V - V0, 2 * dq[3] * (1 + P.upsilon_r / P.upsilon_theta))
    ctx.label(*plunge_labels(k, P))
    if P.kind != "complex":
        try:
            kp.plunging_radial_solutions_complex(*args)
        except ValueError:
            return
        ctx.check("four real roots refused", False, "plunging_radial_solutions_complex returned")
    r, tr, fr = kp.plunging_radial_solutions_complex(*args)
    T, F = P.rad(q)
    ctx.close("r", r(q), P.r_of(q), d[1])
    ctx.close("t_r", tr(q), T + a * L * q / P.upsilon_r, 2 * d[0])
    ctx.close("phi_r", fr(q), F + 0 * q, 2 * d[3])
    I = kp.plunging_radial_integrals(*args)
    W = P.integrals(q)
    rr = P.r_of(q)
    k1 = S.k * (np.abs(q) + 4) / P.upsilon_r
    poles = ((P.rp, P.fp, P.psi_p), (P.rm, P.fm, P.psi_m))
    lam_err = S.t * (np.abs(q) + 4) / P.upsilon_r
    ctx.close("I_r", I[0](q), W[0], 10 * k1 * (P.rmax + 2))
    ctx.close("I_r2", I[1](q), W[1], 10 * k1 * (P.rmax + 2) ** 2)
    for name, g, w, (rh, f, ps) in zip(("I_r+", "I_r-"), I[2:], W[2:], poles):
        amp = abs(f) / (math.sin(ps) * P.half)
        ctx.close(name, g(q), w, 10 * k1 * (1 + amp * P.upsilon_r) + lam_err * (1 / np.abs(rr - rh) + 1 / abs(P.rmin - rh)) + 20 * S.k * amp)


PROPS = [
    dict(id="P30", rule="stable orbits and plunging constants by class, phases in +-20 and 0; instants within 1e-6 of a horizon "
         "dropped. Non-trivial: every distinct case.",
         oracles=[dict(name="stable_solutions", strategy=s_stable(), run=run_stable, n=1600),
                  dict(name="plunging_solutions", strategy=s_plunge(), run=run_plunge, n=1200)]),
]
