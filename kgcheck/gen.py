"""Structured generators: every class of orbit by construction, with boundary
classes drawn deliberately.  All cases are JSON dictionaries of floats."""
import math

import numpy as np
from hypothesis import strategies as st

from . import ref
from .harness import Reject

# [0, 1], close to uniform: a single bounded integer is drawn by magnitude (half
# of the values below 0.02), so the fraction is assembled from four digits
_digit = st.sampled_from(range(32))
ufrac = st.tuples(_digit, _digit, _digit, _digit).map(
    lambda t: (((t[0] * 32 + t[1]) * 32 + t[2]) * 32 + t[3]) / (32 ** 4 - 1))
oneof = st.sampled_from


def U(draw, lo, hi):
    return lo + (hi - lo) * draw(ufrac)


def LOG(draw, lo, hi):
    """10**uniform(lo, hi)"""
    return 10.0 ** U(draw, lo, hi)


def sign(draw):
    return draw(oneof([1.0, -1.0]))


NICE_A = [0.1, 0.25, 0.5, 0.9, 0.998]
NICE_X = [0.5, -0.5, math.cos(math.pi / 6), -math.cos(math.pi / 3), 0.1]
NICE_E = [0.1, 0.2, 0.3, 0.5, 0.8]


def spin(draw, neg=True, zero=True, tiny=True, high=True):
    kinds = ["generic", "generic", "nice"]
    if zero:
        kinds.append("zero")
    if tiny:
        kinds.append("tiny")
    if high:
        kinds.append("high")
    k = draw(oneof(kinds))
    if k == "generic":
        a = U(draw, 0.02, 0.98)
    elif k == "nice":
        a = draw(oneof(NICE_A))
    elif k == "zero":
        return 0.0
    elif k == "tiny":
        a = LOG(draw, *draw(oneof([(-5, -2), (-5, -2), (-9, -5)])))
    else:
        a = 1 - LOG(draw, -4, -1)
    if neg and draw(oneof([False, False, True])):
        a = -a
    return a


def ecc(draw, zero=True, one=False, emin=-3.5, high=True, near1=None):
    kinds = ["generic", "generic", "nice", "small"]
    if zero:
        kinds.append("zero")
    if high:
        kinds.append("high")
    if one:
        kinds.append("one")
    if near1:
        kinds.append("near1")
    k = draw(oneof(kinds))
    if k == "generic":
        return U(draw, 0.01, 0.9)
    if k == "near1":
        return 1 - LOG(draw, near1, -2)
    if k == "nice":
        return draw(oneof(NICE_E))
    if k == "small":
        return LOG(draw, emin, -1)
    if k == "zero":
        return 0.0
    if k == "one":
        return 1.0
    return 1 - LOG(draw, -2, -0.5)


def incl(draw, zero=False, xmin=-2.0, near1=True):
    kinds = ["generic", "generic", "nice", "equatorial", "small"]
    if zero:
        kinds.append("zero")
    if near1:
        kinds.append("near1")
    k = draw(oneof(kinds))
    if k == "nice":
        return draw(oneof(NICE_X))
    if k == "zero":
        return 0.0
    if k == "generic":
        x = U(draw, 0.02, 0.98)
    elif k == "equatorial":
        x = 1.0
    elif k == "small":
        x = LOG(draw, xmin, -1)
    else:
        x = 1 - LOG(draw, -8, -1)
    return x * sign(draw)


def pdelta(draw, lo=-3.0, hi=3.0):
    """relative distance above the separatrix"""
    k = draw(oneof(["near", "mid", "mid", "far"]))
    if k == "near":
        return LOG(draw, lo, -1)
    if k == "mid":
        return LOG(draw, -1, 0.7)
    return LOG(draw, 0.7, hi)


def sep(a, e, x):
    return ref.fsep(a, e, x)


@st.composite
def stable_params(draw, neg=True, zero_a=True, tiny=True, high_a=True, zero_e=True, one_e=False,
                  emin=-3.5, high_e=True, polar=False, xmin=-2.0, near1=True, dlo=-3.0, dhi=3.0, e_near1=None):
    a = spin(draw, neg, zero_a, tiny, high_a)
    e = ecc(draw, zero_e, one_e, emin, high_e, e_near1)
    x = incl(draw, polar, xmin, near1)
    d = pdelta(draw, dlo, dhi)
    p = sep(a, e, x) * (1 + d)
    return {"a": a, "p": p, "e": e, "x": x, "d": d}


def phase(draw):
    k = draw(oneof(["zero", "generic", "generic", "pi", "big", "neg", "near"]))
    if k == "zero":
        return 0.0
    if k == "generic":
        return U(draw, 0, 2 * math.pi)
    if k == "pi":
        return draw(oneof([math.pi, math.pi / 2, 3 * math.pi / 2, 2 * math.pi, -math.pi]))
    if k == "near":
        # close to a turning point or an equatorial crossing
        return draw(oneof([0.0, 0.5, 1.0, 1.5, 2.0, -1.0])) * math.pi + sign(draw) * LOG(draw, -9, -3)
    if k == "big":
        return U(draw, 2 * math.pi, 60)
    return -U(draw, 0, 20)


@st.composite
def phases(draw):
    if draw(oneof([False, False, True])):
        return [0.0, 0.0, 0.0, 0.0]
    return [U(draw, -100, 100) if draw(st.booleans()) else 0.0, phase(draw), phase(draw),
            U(draw, -10, 10) if draw(st.booleans()) else 0.0]


@st.composite
def mino_times(draw, nmin=1, nmax=5, span=3.0):
    """times in units of the radial period (converted by the check), with 0,
    negative and long times"""
    n = draw(st.integers(nmin, nmax))
    out = []
    for _ in range(n):
        k = draw(oneof(["zero", "pos", "pos", "neg", "long", "half", "verylong"]))
        if k == "zero":
            out.append(0.0)
        elif k == "verylong":
            out.append(sign(draw) * LOG(draw, 1.6, 5))
        elif k == "pos":
            out.append(U(draw, 0, span))
        elif k == "neg":
            out.append(-U(draw, 0, span))
        elif k == "half":
            out.append(draw(oneof([0.25, 0.5, 0.75, 1.0, -0.5, -1.0, 2.0])))
        else:
            out.append(sign(draw) * U(draw, span, 40))
    return out


def ref_stable(case):
    """Reference orbit of a case, or Reject when the case is degenerate."""
    c = ref.constants(case["a"], case["p"], case["e"], case["x"])
    if c is None or not c.ok:
        raise Reject()
    return c


# ----------------------------------------------------------------------------
# plunging orbits
# ----------------------------------------------------------------------------
@st.composite
def plunge_params(draw, neg=True, equatorial=True, amin=1e-9, lmin=1e-8, emax=1e-5):
    kind = draw(oneof(["free", "free", "free", "inner", "lowL", "deep", "three", "balanced", "marginal", "noL", "quarter"]))
    if kind == "quarter":
        return quarter(draw, neg, equatorial)
    if kind == "three":
        return three_inside(draw, neg, equatorial)
    if kind == "balanced":
        return balanced(draw, neg, equatorial)
    k = draw(oneof(["generic", "generic", "nice", "high", "small"]))
    if k == "generic":
        a = U(draw, max(amin, 0.05), 0.98)
    elif k == "nice":
        a = draw(oneof(NICE_A))
    elif k == "small":
        a = 10 ** U(draw, math.log10(amin), -1)
    else:
        a = 1 - LOG(draw, -3, -1)
    if neg and draw(oneof([False, False, False, True])):
        a = -a
    if kind == "inner":
        e, x = U(draw, 0, 0.9), incl(draw, False, -1.5, False)
        d = LOG(draw, -1.5, 1.5)
        p = sep(a, e, x) * (1 + d)
        c = ref.constants(abs(a), p, e, x if a > 0 else -x, dps=25)
        if c is None or not c.ok:
            raise_reject()
        E, L, Q = float(c.E), float(c.L), float(c.Q)
        if a < 0:
            L = -L
        if x in (1.0, -1.0):
            Q = 0.0
        if not equatorial and Q < 1e-3:
            raise_reject()
        return {"a": a, "E": E, "L": L, "Q": Q}
    if kind == "marginal":
        E = 1 - LOG(draw, math.log10(emax), -2)
    else:
        E = U(draw, 0.3, 0.999) if kind != "deep" else U(draw, 0.001, 0.7)
    if kind == "noL" and lmin < 1e-3:
        # no angular momentum, and not enough Carter constant to reach the axis
        return {"a": a, "E": E, "L": 0.0, "Q": 0.0 if equatorial and draw(st.booleans()) else U(draw, 0.05, 0.9) * a * a * (1 - E * E)}
    if kind == "lowL":
        L = sign(draw) * LOG(draw, draw(oneof([-1.5, math.log10(lmin)])), 0)
    else:
        L = sign(draw) * U(draw, 0.05, 6)
    q = draw(oneof(["generic", "generic", "zero", "small"] if equatorial else ["generic", "small"]))
    Q = 0.0 if q == "zero" else (LOG(draw, draw(oneof([-2, -10])), 0) if q == "small" else U(draw, 0.05, 16))
    return {"a": a, "E": E, "L": L, "Q": Q}


def turning_solutions(a, r2, r3, z2):
    """(E, L, Q), 0 < E < 1, for which r2 and r3 are radial turning points and cos^2(theta) = z2 the polar one"""
    x2 = 1 - z2

    def c(r):
        D = r * r - 2 * r + a * a
        return r ** 4 + a * a * (r * (r + 2) + z2 * D), 2 * a * r, r * (r - 2) + z2 / x2 * D, (r * r + a * a * z2) * D
    (f1, g1, h1, d1), (f2, g2, h2, d2) = c(r2), c(r3)
    K, rho, s, e, n = d1 * h2 - h1 * d2, f1 * h2 - h1 * f2, g1 * h2 - h1 * g2, d1 * g2 - g1 * d2, f1 * g2 - g1 * f2
    disc, den, out = s * (s * e * e + rho * e * K - n * K * K), rho ** 2 + 4 * n * s, []
    if disc < 0 or den == 0 or h1 == 0:
        return out
    for sg in (1, -1):
        E2 = (K * rho + 2 * e * s + sg * 2 * math.sqrt(disc)) / den
        if not 0.01 < E2 < 0.998:
            continue
        E, dd = math.sqrt(E2), g1 * g1 * E2 + (f1 * E2 - d1) * h1
        for s2 in (1, -1) if dd >= 0 else ():
            L = (-g1 * E + s2 * math.sqrt(dd)) / h1
            if abs(f2 * E2 - 2 * g2 * E * L - h2 * L * L - d2) < 1e-7 and abs(L) > 0.03:
                out.append((E, L, z2 * (a * a * (1 - E2) + L * L / x2)))
    return out


def three_inside(draw, neg, equatorial):
    """plunges with four real roots, three of them within the inner horizon"""
    a = 1 - LOG(draw, -3, -0.5)
    rm = 1 - math.sqrt(1 - a * a)
    r2 = rm * (1 - LOG(draw, -2, -0.1))
    r3 = r2 * U(draw, 0.2, 0.99)
    z2 = LOG(draw, -4, -0.01) if not equatorial or draw(st.booleans()) else 0.0
    sol = turning_solutions(a, r2, r3, z2)
    i = draw(oneof([0, 1, 2, 3]))
    if not sol:
        raise_reject()
    E, L, Q = sol[i % len(sol)]
    if not equatorial and Q < 1e-3:
        raise_reject()
    if neg and draw(oneof([False, False, False, True])):
        a, L = -a, -L
    return {"a": a, "E": E, "L": L, "Q": Q}


def balanced(draw, neg, equatorial):
    """plunges whose real roots sum to (nearly) half of the sum of all four, so that the closed
    forms of the radial integrals in terms of A - B are degenerate"""
    a = U(draw, 0.05, 0.99)
    E = U(draw, 0.3, 0.9)
    S = 1 / (1 - E * E)
    if equatorial and draw(st.booleans()):
        Q = 0.0
    else:
        Q = U(draw, 0.05, 16)
    # S (L^2 + Q) - 2 ((a E - L)^2 + Q) = S^2 - a^2
    A, B, C = S - 2, 4 * a * E, (S - 2) * Q - 2 * a * a * E * E - S * S + a * a
    disc = B * B - 4 * A * C
    if disc < 0 or abs(A) < 1e-3:
        raise_reject()
    L = (-B + sign(draw) * math.sqrt(disc)) / (2 * A)
    if not 0.03 < abs(L) < 8:
        raise_reject()
    if draw(oneof([True, True, False])):
        L *= 1 + sign(draw) * LOG(draw, -16, -4)
    if neg and draw(oneof([False, False, False, True])):
        a, L = -a, -L
    return {"a": a, "E": E, "L": L, "Q": Q}


def quarter(draw, neg, equatorial):
    """plunges with two complex roots which cross a horizon (nearly) a quarter of a radial period after
    the turning point, where the closed forms of the radial integrals are zero times infinity"""
    a = U(draw, 0.05, 0.98)
    E = U(draw, 0.3, 0.99)
    Q = 0.0 if equatorial and draw(oneof([False, False, True])) else LOG(draw, -2, 1)
    rh = 1 + draw(oneof([1, -1])) * math.sqrt(1 - a * a)

    def g(L):
        z = np.roots([E * E - 1, 2, a * a * (E * E - 1) - L * L - Q, 2 * ((a * E - L) ** 2 + Q), -a * a * Q] if Q else
                     [E * E - 1, 2, a * a * (E * E - 1) - L * L, 2 * (a * E - L) ** 2])
        z = np.append(z, 0.0) if not Q else z
        c = z[np.abs(z.imag) > 1e-9]
        if len(c) != 2:
            return None
        r1, r2 = sorted(z[np.abs(z.imag) <= 1e-9].real)
        A, B = (math.hypot(r - c[0].real, c[0].imag) for r in (r2, r1))
        return A * (rh - r1) - B * (r2 - rh)
    lo = gen0 = U(draw, -4, 3)
    va = g(lo)
    while va is not None and lo < gen0 + 4:
        hi = lo + 0.5
        vb = g(hi)
        if vb is None:
            break
        if va * vb < 0:
            for _ in range(60):
                mid = 0.5 * (lo + hi)
                v = g(mid)
                if v is None or mid in (lo, hi):
                    break
                lo, hi = (mid, hi) if v * va > 0 else (lo, mid)
            L = lo
            if not 0.03 < abs(L) < 8:
                raise_reject()
            if draw(oneof([True, True, False])):
                L *= 1 + sign(draw) * LOG(draw, -16, -4)
            if neg and draw(oneof([False, False, False, True])):
                a, L = -a, -L
            return {"a": a, "E": E, "L": L, "Q": Q}
        lo, va = hi, vb
    raise_reject()


def raise_reject():
    from hypothesis import reject
    reject()


def ref_plunge(case, gap=1e-3):
    """Reference plunging orbit; Reject outside the stated domain."""
    try:
        P = ref.Plunge(case["a"], case["E"], case["L"], case["Q"])
    except ref.PlungeError:
        raise Reject()
    if P.sep_scale < gap or P.tail > 1e-13 or P.rmax - P.rp < gap or P.rm - P.rmin < 0:
        raise Reject()
    return P
