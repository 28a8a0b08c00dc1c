"""P09-P11: frequencies of stable and plunging orbits."""
import math

import kerrgeopy as kg
import numpy as np
from hypothesis import strategies as st
from kerrgeopy import frequencies as kgf

from .. import gen, ref
from ..harness import Reject
from .constants_p import orbit_labels


def ref_orbit(k, tail=1e-12):
    c = gen.ref_stable(k)
    R = ref.Stable(k["a"], k["p"], k["e"], k["x"], c)
    if R.tail > tail:
        raise Reject()
    return R


def rtol(R):
    """relative accuracy demanded of the frequencies: rounding in the constants of
    motion amplified by distant apoapsis, near separatrix and high spin"""
    A = (1 + R.p / (1 - R.e)) * (1 + 0.05 / (1 - R.a))
    g = R.gap23 / R.r2
    return 1e-13 * A * (1 + 0.1 / g)


S_FREQ = gen.stable_params(emin=-9, xmin=-10, dlo=-3, dhi=6, e_near1=-4)


def four(ctx, name, got, R, t, abs_theta=True):
    ctx.check(name + " length", len(got) == 4, repr(got))
    ctx.close(name + " upsilon_r", got[0], R.upsilon_r, t * R.upsilon_r)
    ctx.close(name + " upsilon_theta", got[1] if abs_theta else abs(got[1]), R.upsilon_theta, t * R.upsilon_theta)
    ctx.close(name + " upsilon_phi", got[2], R.upsilon_phi, t * (abs(R.phi_r) + abs(R.phi_t)))
    ctx.close(name + " gamma", got[3], R.gamma, t * R.gamma * 3)


def run_mino(ctx, k):
    R = ref_orbit(k)
    four(ctx, "mino_frequencies", kg.mino_frequencies(k["a"], k["p"], k["e"], k["x"]), R, rtol(R))
    ctx.label(*orbit_labels(k))


def run_routes(ctx, k):
    R = ref_orbit(k)
    t = rtol(R)
    a, p, e, x = (k[n] for n in "apex")
    want = [R.upsilon_r / R.gamma, R.upsilon_theta / R.gamma, R.upsilon_phi / R.gamma]
    tol = 4 * t * (np.abs(want) + [0, 0, (abs(R.phi_r) + abs(R.phi_t)) / R.gamma])
    m = kg.mino_frequencies(a, p, e, x)
    ctx.close("fundamental_frequencies", kg.fundamental_frequencies(a, p, e, x), want, tol)
    cons = kg.constants_of_motion(a, p, e, x)
    ur, ut = kgf.r_frequency(a, p, e, x), kgf.theta_frequency(a, p, e, x)
    four(ctx, "separate functions", (ur, ut, kgf.phi_frequency(a, p, e, x), kgf.gamma(a, p, e, x)), R, t, False)
    four(ctx, "with constants", (kgf.r_frequency(a, p, e, x, cons), kgf.theta_frequency(a, p, e, x, cons),
                                 kgf.phi_frequency(a, p, e, x, cons), kgf.gamma(a, p, e, x, cons)), R, t, False)
    four(ctx, "with constants and frequencies",
         (kgf.r_frequency(a, p, e, x, constants=cons), kgf.theta_frequency(a, p, e, x, constants=cons),
          kgf.phi_frequency(a, p, e, x, cons, ur, ut), kgf.gamma(a, p, e, x, cons, ur, ut)), R, t, False)
    four(ctx, "with some frequencies",
         (ur, ut, kgf.phi_frequency(a, p, e, x, upsilon_r=ur) if k["which"] else
          kgf.phi_frequency(a, p, e, x, upsilon_theta=ut),
          kgf.gamma(a, p, e, x, upsilon_theta=ut) if k["which"] else kgf.gamma(a, p, e, x, upsilon_r=ur)), R, t, False)
    o = kg.StableOrbit(a, p, e, x)
    four(ctx, "attributes", (o.upsilon_r, o.upsilon_theta, o.upsilon_phi, o.gamma), R, t)
    four(ctx, "StableOrbit.mino_frequencies()", o.mino_frequencies(), R, t)
    four(ctx, "StableOrbit.mino_frequencies('natural')", o.mino_frequencies(units="natural"), R, t)
    ctx.close("omega attributes", [o.omega_r, o.omega_theta, o.omega_phi], want, tol)
    ctx.close("StableOrbit.fundamental_frequencies()", o.fundamental_frequencies(), want, tol)
    ctx.close("StableOrbit.fundamental_frequencies('natural')", o.fundamental_frequencies("natural"), want, tol)
    if a != 0:
        four(ctx, "mirror image (-a, -x)", kg.mino_frequencies(-a, p, e, -x), R, t)
        ctx.close("fundamental, mirror image", kg.fundamental_frequencies(-a, p, e, -x), want, tol)
    ctx.check("positive rates", min(m[0], m[1], m[3]) > 0, repr(m))
    ctx.label(*orbit_labels(k))


@st.composite
def s_routes(draw):
    k = draw(S_FREQ)
    k["which"] = draw(st.booleans())
    return k


# ---------------------------------------------------------------- P11
def kappa(P):
    """first order relative change of the gaps between the radial roots due to rounding in the coefficients"""
    co = np.abs(np.array(ref.R_coeffs(P.a, P.E, P.L, P.Q), float))
    R = [complex(P.rmin), complex(P.rmax), complex(P.others[0]), complex(P.others[1])]
    tot = 0.0
    for i in range(4):
        gaps = [max(abs(R[i] - R[j]), 1e-12) for j in range(4) if j != i]
        tot += 2.3e-16 * sum(c * abs(R[i]) ** n for n, c in enumerate(co)) / (co[4] * gaps[0] * gaps[1] * gaps[2] * min(gaps))
    return tot


def ptol(P):
    s = P.sep_scale
    return min(10 * kappa(P), 1e-9) + 1e-11 * (1 + 1e-2 / s) * (1 + 0.01 / (1 - abs(P.E)))


def plunge_labels(k, P):
    return [P.kind, "equatorial" if k["Q"] == 0 else "inclined", "a<0" if k["a"] < 0 else "a>0",
            "L<0" if k["L"] < 0 else "L>0"]


def run_plunge(ctx, k):
    P = gen.ref_plunge(k)
    t = ptol(P)
    got = kg.plunging_mino_frequencies(k["a"], k["E"], k["L"], k["Q"])
    ctx.check("two frequencies", len(got) == 2, repr(got))
    ctx.close("upsilon_r", got[0], P.upsilon_r, t * P.upsilon_r)
    ctx.close("upsilon_theta", got[1], P.upsilon_theta, t * P.upsilon_theta)
    got = kg.plunging_mino_frequencies(-k["a"], k["E"], -k["L"], k["Q"])
    ctx.close("upsilon_r of mirror image", got[0], P.upsilon_r, t * P.upsilon_r)
    ctx.close("upsilon_theta of mirror image", got[1], P.upsilon_theta, t * P.upsilon_theta)
    o = kg.PlungingOrbit(k["a"], k["E"], k["L"], k["Q"])
    ctx.close("attributes", [o.upsilon_r, o.upsilon_theta], [P.upsilon_r, P.upsilon_theta],
              [t * P.upsilon_r, t * P.upsilon_theta])
    ctx.label(*plunge_labels(k, P))


PROPS = [
    dict(id="P09", rule="stable orbits generated class by class (spin zero/tiny/generic/near 1/negative; e zero/tiny/"
         "generic/high; x equatorial/near-equatorial/generic/small; p=p_sep(1+d), d 1e-3..1e3). Rejected only if the "
         "reference series did not converge. Non-trivial: every distinct set.",
         oracles=[dict(name="mino", strategy=S_FREQ, run=run_mino, n=6000)]),
    dict(id="P10", rule="as P09; all optional-argument subsets, object attributes and methods, mirror image. "
         "Non-trivial: every distinct set.",
         oracles=[dict(name="routes", strategy=s_routes(), run=run_routes, n=1600)]),
    dict(id="P11", rule="plunging constants as P07. Non-trivial: every distinct set.",
         oracles=[dict(name="plunging", strategy=gen.plunge_params(), run=run_plunge, n=3000)]),
]
