"""P01-P08: constants of motion, separatrix, validity, roots, inverse map."""
import math

import kerrgeopy as kg
import mpmath as mp
import numpy as np
from hypothesis import strategies as st
from kerrgeopy import constants as kgc
from kerrgeopy import frequencies as kgf

from .. import gen, ref
from ..harness import HarnessError, Reject

EPS = 2.2e-16


def amp(c):
    """error amplification of the documented closed forms: distant orbits, nearly
    extremal spin"""
    return (1 + float(c.p)) * (1 + 0.05 / (1 - float(c.a)))


def tols(c):
    """absolute tolerances for E, L, Q"""
    A = amp(c)
    l = abs(float(c.l))
    x2 = float(c.x) ** 2
    tE = 1e-14 * (1 + 0.01 / (1 - float(c.a)))
    tl = 20 * EPS * A * l
    return tE, tl * abs(float(c.x)) + 1e-300, (1 - x2) * (4 * l * tl + 1e-12) + 1e-14 + 20 * EPS * l * l


# ---------------------------------------------------------------- P01
def run_constants(ctx, k):
    c = gen.ref_stable(k)
    got = kg.constants_of_motion(k["a"], k["p"], k["e"], k["x"])
    ctx.check("three constants", len(got) == 3, repr(got))
    tE, tL, tQ = tols(c)
    ctx.close("energy", got[0], float(c.E), tE)
    ctx.close("angular momentum", got[1], float(c.L), tL)
    ctx.close("Carter constant", got[2], float(c.Q), tQ)
    ctx.label(*orbit_labels(k))


def orbit_labels(k):
    a, e, x, d = k["a"], k["e"], k["x"], k.get("d", 1)
    out = ["a=0" if a == 0 else "a<0" if a < 0 else "a>0.9" if a > 0.9 else "0<a<=0.01" if a <= 0.01 else "0.01<a<=0.9"]
    out.append("e=0" if e == 0 else "e=1" if e == 1 else "e<0.01" if e < 0.01 else "e>0.99" if e > 0.99 else "e>0.9" if e > 0.9 else "0.01<=e<=0.9")
    out.append("polar" if x == 0 else "equatorial" if abs(x) == 1 else "prograde" if x * math.copysign(1, a) > 0 else "retrograde")
    if 0 < abs(x) < 0.1:
        out.append("nearly polar")
    if 0.99 < abs(x) < 1:
        out.append("nearly equatorial")
    out.append("within 10% of separatrix" if d < 0.1 else "p>10 p_sep" if d > 9 else "0.1<d<9")
    return out


S_CONST = gen.stable_params(one_e=True, polar=True, emin=-16, xmin=-10, dlo=-4, dhi=7, e_near1=-15)


@st.composite
def s_special(draw):
    """prograde orbits at the radii where the textbook closed forms are 0/0: r2 = 2M in
    the equatorial plane, and the radius of the retrograde photon orbit"""
    which = draw(gen.oneof(["r=2", "r=2 e=1", "r=2 ecc", "light ring"]))
    w = gen.LOG(draw, -16, -6) * gen.sign(draw) if draw(st.booleans()) else 0.0
    x = draw(gen.oneof([1.0, 1.0, 1 - 1e-15, 1 - 1e-9]))
    if which == "light ring":
        a = gen.U(draw, 0.65, 0.95)
        p, e = 2 * (1 + math.cos(2 / 3 * math.acos(a))), 0.0
    else:
        e = {"r=2": 0.0, "r=2 e=1": 1.0, "r=2 ecc": gen.U(draw, 0, 1)}[which]
        lo = 0.95 if e < 1 else 0.84
        a, p = gen.U(draw, lo, 0.999), 2 * (1 + e)
    return {"a": a, "p": p * (1 + w), "e": e, "x": x, "d": 1.0}


# ---------------------------------------------------------------- P02
@st.composite
def s_routes(draw):
    k = draw(S_CONST)
    k["ty"] = draw(gen.oneof(["float", "np", "int"]))
    if k["ty"] == "int":
        a = draw(gen.oneof([0, 0, k["a"]]))
        e = draw(gen.oneof([0, 1, k["e"]]))
        x = draw(gen.oneof([1, -1, 0, k["x"]]))
        p = int(math.ceil(gen.sep(a, e, x) * (1 + k["d"]) + 1))
        k.update(a=a, e=e, x=x, p=p)
    return k


def run_routes(ctx, k):
    c = gen.ref_stable(k)
    conv = np.float64 if k["ty"] == "np" else (lambda v: v)
    a, p, e, x = (conv(k[n]) for n in "apex")
    E, L, Q = kg.constants_of_motion(a, p, e, x)
    tE, tL, tQ = tols(c)

    def eq(name, got, ref3):
        ctx.close(name + " E", got[0], ref3[0], tE)
        ctx.close(name + " L", got[1], ref3[1], tL)
        ctx.close(name + " Q", got[2], ref3[2], tQ)

    base = (E, L, Q)
    eq("separate functions", (kg.energy(a, p, e, x), kg.angular_momentum(a, p, e, x),
                              kg.carter_constant(a, p, e, x)), base)
    eq("E passed in", (E, kg.angular_momentum(a, p, e, x, E=E), kg.carter_constant(a, p, e, x, E=E)), base)
    eq("E and L passed in", (E, kg.angular_momentum(a, p, e, x, E), kg.carter_constant(a, p, e, x, E, L)), base)
    eq("L passed in", (E, L, kg.carter_constant(a, p, e, x, L=L)), base)
    if a != 0:
        eq("mirror image (-a, -x)", kg.constants_of_motion(-a, p, e, -x), base)
        eq("separate functions of mirror image",
           (kg.energy(-a, p, e, -x), kg.angular_momentum(-a, p, e, -x), kg.carter_constant(-a, p, e, -x)), base)
        if k["x"] != 0:
            c2 = ref.constants(k["a"], k["p"], k["e"], -k["x"])
            if c2 is not None and c2.ok and float(c2.slope) > 1e-3:
                E2, L2, Q2 = kg.constants_of_motion(a, p, e, -x)
                E3, L3, Q3 = kg.constants_of_motion(-a, p, e, x)
                t2 = tols(c2)
                ctx.close("E of (a,-x) vs (-a,x)", E2, E3, t2[0])
                ctx.close("L of (a,-x) vs (-a,x)", L2, L3, t2[1])
                ctx.close("Q of (a,-x) vs (-a,x)", Q2, Q3, t2[2])
    if x != 0 and e < 0.99 and (e == 0 or e > 1e-3) and abs(x) > 1e-2:
        o = kg.StableOrbit(a, p, e, x)
        eq("StableOrbit attributes", (o.E, o.L, o.Q), base)
        eq("StableOrbit.constants_of_motion()", o.constants_of_motion(), base)
        eq("StableOrbit.constants_of_motion('natural')", o.constants_of_motion("natural"), base)
    ctx.label("inputs " + k["ty"], *orbit_labels(k))


# ---------------------------------------------------------------- P03
@st.composite
def s_sep(draw):
    k = draw(gen.oneof(["zero", "generic", "generic", "generic", "tiny", "high", "vhigh"]))
    a = {"zero": lambda: 0.0, "generic": lambda: gen.U(draw, 0.01, 0.99), "tiny": lambda: gen.LOG(draw, -16, -2),
         "high": lambda: 1 - gen.LOG(draw, -4, -1), "vhigh": lambda: 1 - gen.LOG(draw, -9, -4)}[k]()
    k = draw(gen.oneof(["zero", "one", "generic", "generic", "small", "high"]))
    e = {"zero": lambda: 0.0, "one": lambda: 1.0, "generic": lambda: gen.U(draw, 0.01, 0.99),
         "small": lambda: gen.LOG(draw, -17, -2), "high": lambda: 1 - gen.LOG(draw, -12, -2)}[k]()
    k = draw(gen.oneof(["zero", "one", "generic", "generic", "generic", "small", "high"]))
    x = gen.sign(draw) * {"zero": lambda: 0.0, "one": lambda: 1.0, "generic": lambda: gen.U(draw, 0.01, 0.99),
                          "small": lambda: gen.LOG(draw, -17, -2), "high": lambda: 1 - gen.LOG(draw, -16, -2)}[k]()
    return {"a": a, "e": e, "x": x + 0.0}


def sep_tol(a, e, x):
    """relative accuracy demanded of the separatrix: the roots for +x and -x
    (and, as x -> +-1, the equatorial ones) merge in degenerate limits"""
    s = abs(a * x)
    t = 1e-10
    if a != 0 and x != 0:
        t += min(2e-6, 1e-14 / s if s > 0 else 1)
    if a > 0.9999:
        t += 1e-7
    if 0 < 1 - abs(x) < 0.01:
        t += 1e-9
    return t


def run_sep(ctx, k):
    a, e, x = k["a"], k["e"], k["x"]
    ps = kg.separatrix(a, e, x)
    d = sep_tol(a, e, x)
    above = ref.constants(a, mp.mpf(float(ps)) * (1 + mp.mpf(d)), e, x)
    below = ref.constants(a, mp.mpf(float(ps)) * (1 - mp.mpf(d)), e, x)
    ctx.check("orbits just above the separatrix are stable", above is not None and above.ok,
              f"separatrix({a},{e},{x})={ps!r} but p={ps!r}*(1+{d}) is not stable")
    ctx.check("orbits just below the separatrix are not stable", not (below is not None and below.ok),
              f"separatrix({a},{e},{x})={ps!r} but p={ps!r}*(1-{d}) is stable")
    ctx.check("spacetime method agrees", kg.KerrSpacetime(a).separatrix(e, x) == ps,
              f"{kg.KerrSpacetime(a).separatrix(e, x)!r} != {ps!r}")
    if a == 0:
        ctx.close("Schwarzschild separatrix", ps, 6 + 2 * e, 1e-12 * ps)
    ctx.label("a=0" if a == 0 else "a tiny" if a < 1e-2 else "a>0.9999" if a > 0.9999 else "a generic",
              "polar" if x == 0 else "equatorial" if abs(x) == 1 else "x<0" if x < 0 else "x>0",
              "e=0" if e == 0 else "e=1" if e == 1 else "0<e<1")
    if 0 < abs(x) < 1e-6 or 0 < a < 1e-6 or 0 < 1 - abs(x) < 1e-8:
        ctx.label("degenerate limit")


@st.composite
def s_isstable(draw):
    k = draw(s_sep())
    m = draw(gen.oneof(["above", "below", "far", "deep"]))
    ps = gen.sep(k["a"], k["e"], k["x"])
    f = {"above": lambda: 1 + gen.LOG(draw, -5, -1), "below": lambda: 1 - gen.LOG(draw, -5, -1),
         "far": lambda: 1 + gen.LOG(draw, -1, 4), "deep": lambda: gen.U(draw, 0.05, 0.9)}[m]()
    k["p"] = ps * f
    k["m"] = m
    return k


def run_isstable(ctx, k):
    a, p, e, x = k["a"], k["p"], k["e"], k["x"]
    c = ref.constants(a, p, e, x)
    want = c is not None and c.ok
    got = kgc.is_stable(a, p, e, x)
    ctx.check("is_stable", bool(got) is want, f"is_stable({a},{p},{e},{x}) = {got!r}, expected {want}")
    got = kg.KerrSpacetime(a).is_stable(p, e, x)
    ctx.check("KerrSpacetime.is_stable", bool(got) is want, f"KerrSpacetime({a}).is_stable({p},{e},{x}) = {got!r}, expected {want}")
    if want:
        if e == 1 or e < 0.999:
            E = kg.energy(a, p, e, x)
            ctx.check("energy of a stable orbit", 0 < E <= 1, repr(E))
    else:
        ctx.raises("energy of an unstable orbit", ValueError, kg.energy, a, p, e, x)
        ctx.raises("energy of an unstable orbit (mirror)", ValueError, kg.energy, -a if a else a, p, e, -x if a else x)
    ctx.label("stable" if want else "unstable", "case " + k["m"])


# ---------------------------------------------------------------- P04
@st.composite
def s_fast(draw):
    a = draw(gen.oneof([0.9, 0.5, 0.1, 0.0])) if draw(st.booleans()) else gen.U(draw, draw(gen.oneof([0, 0.9])), 0.97)
    h = draw(gen.oneof([0.02, 0.05, 0.04, 0.025, 0.1]))
    pts = [[draw(gen.ufrac), gen.U(draw, -1, 1)] for _ in range(20)]
    pts += [[0.0, 1.0], [1.0, -1.0], [0.0, -1.0], [1.0, 1.0], [draw(gen.ufrac), 0.0], [draw(gen.ufrac), 1.0],
            [draw(gen.ufrac), -1.0]]
    return {"a": a, "h": h, "pts": pts}


def run_fast(ctx, k):
    a, h = k["a"], k["h"]
    f = kg.fast_separatrix(a, grid_spacing=h)
    es = np.array([v[0] for v in k["pts"]])
    xs = np.array([v[1] for v in k["pts"]])
    want = np.array([ref.fsep(a, e, x) for e, x in k["pts"]])
    got = f(es, xs, grid=False)
    # cubic interpolation; the prograde separatrix steepens as a -> 1
    tol = 1e-7 + 6.0 * h ** 4 * (0.05 + 0.5 * a * a / (1 - a) ** 1.2)
    ctx.close("interpolated separatrix", got, want, tol, info=f"a={a} spacing={h}")
    j = 3
    ctx.close("scalar evaluation", float(np.squeeze(f(es[j], xs[j]))), want[j], tol)
    ctx.label(f"spacing {h}", "a=0" if a == 0 else "a>0")


def run_fast_default(ctx, k):
    f = kg.fast_separatrix(k["a"])
    es = np.array([v[0] for v in k["pts"]])
    xs = np.array([v[1] for v in k["pts"]])
    want = np.array([ref.fsep(k["a"], e, x) for e, x in k["pts"]])
    ctx.close("interpolated separatrix, default spacing", f(es, xs, grid=False), want, 1e-6)
    ctx.label("default spacing")


@st.composite
def s_fast_default(draw):
    k = draw(s_fast())
    k["a"] = min(k["a"], 0.9)
    return k


# ---------------------------------------------------------------- P05
FOURS = {
    "energy": lambda a, p, e, x: kg.energy(a, p, e, x),
    "angular_momentum": lambda a, p, e, x: kg.angular_momentum(a, p, e, x),
    "angular_momentum(E)": lambda a, p, e, x: kg.angular_momentum(a, p, e, x, 0.9),
    "carter_constant": lambda a, p, e, x: kg.carter_constant(a, p, e, x),
    "carter_constant(E,L)": lambda a, p, e, x: kg.carter_constant(a, p, e, x, 0.9, 1.0),
    "constants_of_motion": lambda a, p, e, x: kg.constants_of_motion(a, p, e, x),
}
FREQS = {
    "r_frequency": lambda a, p, e, x: kgf.r_frequency(a, p, e, x),
    "r_frequency(constants)": lambda a, p, e, x: kgf.r_frequency(a, p, e, x, (0.95, 2.0, 3.0)),
    "theta_frequency": lambda a, p, e, x: kgf.theta_frequency(a, p, e, x),
    "theta_frequency(constants)": lambda a, p, e, x: kgf.theta_frequency(a, p, e, x, (0.95, 2.0, 3.0)),
    "phi_frequency": lambda a, p, e, x: kgf.phi_frequency(a, p, e, x),
    "phi_frequency(...)": lambda a, p, e, x: kgf.phi_frequency(a, p, e, x, (0.95, 2.0, 3.0), 2.0, 3.0),
    "gamma": lambda a, p, e, x: kgf.gamma(a, p, e, x),
    "gamma(...)": lambda a, p, e, x: kgf.gamma(a, p, e, x, (0.95, 2.0, 3.0), 2.0, 3.0),
    "mino_frequencies": lambda a, p, e, x: kg.mino_frequencies(a, p, e, x),
    "fundamental_frequencies": lambda a, p, e, x: kg.fundamental_frequencies(a, p, e, x),
    "StableOrbit": lambda a, p, e, x: kg.StableOrbit(a, p, e, x),
    "stable_trajectory": lambda a, p, e, x: kg.stable.stable_trajectory(a, p, e, x),
}
BAD = ["a>1", "a<-1", "a=1", "a=-1", "e<0", "e>1", "x>1", "x<-1", "nan a", "nan p", "nan e", "nan x", "unstable",
       "polar", "e=1", "p=0", "p<0"]


@st.composite
def s_valid(draw):
    k = draw(gen.stable_params(emin=-3, xmin=-2, dlo=-2, dhi=2))
    bad = draw(gen.oneof(["none", "none"] + BAD))
    tiny = draw(gen.oneof([1e-15, 1e-9, 1e-3, 0.5, 3.0]))
    if bad == "a>1":
        k["a"] = 1 + tiny
    elif bad == "a<-1":
        k["a"] = -1 - tiny
    elif bad == "a=1":
        k["a"] = draw(gen.oneof([1, 1.0]))
    elif bad == "a=-1":
        k["a"] = draw(gen.oneof([-1, -1.0]))
    elif bad == "e<0":
        k["e"] = -tiny
    elif bad == "e>1":
        k["e"] = 1 + tiny
    elif bad == "x>1":
        k["x"] = 1 + tiny
    elif bad == "x<-1":
        k["x"] = -1 - tiny
    elif bad.startswith("nan"):
        k[bad[-1]] = "nan"
    elif bad == "unstable":
        k["p"] = k["p"] / (1 + k["d"]) * (1 - gen.LOG(draw, -4, -0.3))
    elif bad == "p=0":
        k["p"] = 0.0
    elif bad == "p<0":
        k["p"] = -k["p"]
    elif bad == "polar":
        k["x"] = draw(gen.oneof([0, 0.0]))
        k["p"] = gen.sep(k["a"], k["e"], 0.0) * (1 + k["d"])
    elif bad == "e=1":
        k["e"] = draw(gen.oneof([1, 1.0]))
        k["p"] = gen.sep(k["a"], 1.0, k["x"]) * (1 + k["d"])
    k["bad"] = bad
    return k


def finite(v):
    if isinstance(v, tuple):
        return all(finite(u) for u in v)
    return callable(v) or bool(np.all(np.isfinite(v)))


def run_valid(ctx, k):
    a, p, e, x = (float("nan") if k[n] == "nan" else k[n] for n in "apex")
    bad = k["bad"]
    ctx.label(bad)
    for name, f in FOURS.items():
        if bad in ("none", "polar", "e=1"):
            out = f(a, p, e, x)
            if not name.endswith(")"):
                ctx.check(name + " accepts valid parameters", finite(out), f"{name}{(a, p, e, x)} = {out!r}")
        else:
            ctx.raises(f"{name} rejects {bad}", ValueError, f, a, p, e, x)
    for name, f in FREQS.items():
        if bad == "none":
            out = f(a, p, e, x)
            if name == "StableOrbit":
                out = (out.E, out.L, out.Q, out.upsilon_r, out.upsilon_theta, out.upsilon_phi, out.gamma)
            elif name.endswith(")"):
                continue
            ctx.check(name + " accepts valid parameters", finite(out), f"{name}{(a, p, e, x)} = {out!r}")
        else:
            ctx.raises(f"{name} rejects {bad}", ValueError, f, a, p, e, x)
    if bad in ("a>1", "a<-1", "a=1", "a=-1", "e<0", "e>1", "x>1", "x<-1", "nan a", "nan e", "nan x"):
        ctx.raises("separatrix rejects " + bad, ValueError, kg.separatrix, a, e, x)
        ctx.raises("is_stable rejects " + bad, ValueError, kgc.is_stable, a, p, e, x)
        if abs(a) <= 1:
            s = kg.KerrSpacetime(a)
            ctx.raises("KerrSpacetime.separatrix rejects " + bad, ValueError, s.separatrix, e, x)
            ctx.raises("KerrSpacetime.is_stable rejects " + bad, ValueError, s.is_stable, p, e, x)
    elif a < 0:
        ctx.raises("separatrix rejects a<0", ValueError, kg.separatrix, a, e, x)
    else:
        ctx.check("separatrix accepts", finite(kg.separatrix(a, e, x)))
    inr = 0 <= a <= 1 and 0 <= e <= 1 and -1 <= x <= 1
    ctx.check("valid_params", bool(kgc.valid_params(a, e, x)) is inr, f"valid_params({a},{e},{x})")


# ---------------------------------------------------------------- P06
S_ROOTS = gen.stable_params(emin=-12, xmin=-3, dlo=-3.5, dhi=7, e_near1=-6)


def run_stable_roots(ctx, k):
    c = gen.ref_stable(k)
    a, p, e, x = (k[n] for n in "apex")
    cons = kg.constants_of_motion(a, p, e, x)
    A = amp(c)
    for nm, rr, zz in (("", kgc.stable_radial_roots(a, p, e, x), kgc.stable_polar_roots(a, p, e, x)),
                       (" (constants passed in)", kgc.stable_radial_roots(a, p, e, x, cons),
                        kgc.stable_polar_roots(a, p, e, x, constants=cons))):
        ctx.check("four radial roots" + nm, len(rr) == 4, repr(rr))
        ctx.check("two polar roots" + nm, len(zz) == 2, repr(zz))
        # relative error of r3 + r4 from that of L, and of r3 r4 from that of 1 - E^2
        s = float(c.r3 + c.r4)
        t = s * (60 * EPS * A + 2e-15 / float(c.mE)) + 1e-14
        split = float(c.r3 - c.r4) if c.r3 != c.r4 else 1e-8
        t34 = t * (1 + s / max(split, 1e-7))
        ctx.close("r1" + nm, rr[0], float(c.r1), 1e-13 * float(c.r1))
        ctx.close("r2" + nm, rr[1], float(c.r2), 1e-13 * float(c.r2))
        ctx.close("r3" + nm, rr[2], float(c.r3), t34)
        ctx.close("r4" + nm, rr[3], float(c.r4), t34)
        ctx.close("r3+r4" + nm, rr[2] + rr[3], float(c.r3 + c.r4), 4 * t)
        ctx.check("radial roots decrease" + nm, rr[0] >= rr[1] > rr[2] >= rr[3] - t34, repr(rr))
        ctx.close("z-" + nm, zz[0], float(1 - c.x ** 2), 1e-13)
        if a == 0:
            continue
        zp = float(1 + c.l ** 2 / c.b)
        ctx.close("z+" + nm, zz[1], zp, zp * (1e-12 * A + 3e-15 / float(c.x) ** 2 + 2e-15 / float(c.mE)))
        ctx.check("z- < 1 < z+" + nm, 0 <= zz[0] < 1 < zz[1], repr(zz))
    ctx.label(*orbit_labels(k))


# ---------------------------------------------------------------- P07
def run_plunge_roots(ctx, k):
    P = gen.ref_plunge(k)
    if P.kind != "complex" and abs(P.others[0] - P.others[1]) < 1e-4 * abs(P.others[0]):
        raise Reject()  # real and complex are not distinguishable by rounding
    rr = kgc.plunging_radial_roots(k["a"], k["E"], k["L"], k["Q"])
    ctx.check("four roots", len(rr) == 4, repr(rr))
    r1, r2, r3, r4 = rr
    co = np.abs(np.array(ref.R_coeffs(k["a"], k["E"], k["L"], k["Q"]), float))
    allr = [complex(P.rmin), complex(P.rmax), complex(P.others[0]), complex(P.others[1])]

    def cond(i):
        """first order sensitivity of a root to rounding in the coefficients"""
        d = co[4]
        for j in range(4):
            if j != i:
                d *= abs(allr[i] - allr[j])
        m = abs(allr[i])
        return 100 * EPS * (sum(c * m ** n for n, c in enumerate(co)) + m ** 4) / max(d, 1e-300)
    t0, t, t1, t2 = (min(cond(i) + 1e-13 * (1 + abs(allr[i])), 1e-6 * (1 + abs(allr[i]))) for i in range(4))
    t0 += 1e-7 * (P.rmin < 1e-3)  # two roots may merge at r = 0
    if P.kind == "complex":
        ctx.check("r1, r2 real", np.isreal(r1) and np.isreal(r2), repr(rr))
        ctx.close("r1", r1, P.rmin, t0)
        ctx.close("r2", r2, P.rmax, t)
        ctx.check("r3, r4 complex conjugates", np.iscomplex(r3) and np.iscomplex(r4) and
                  abs(r3 - np.conj(r4)) < t1, repr(rr))
        ctx.close("Re r3", float(np.real(r3)), P.others[0].real, t1)
        ctx.close("|Im r3|", abs(float(np.imag(r3))), abs(P.others[0].imag), t1)
    else:
        ctx.check("all roots real", all(np.isreal(v) for v in rr), repr(rr))
        ctx.close("motion between r1 and r2", [max(r1, r2), min(r1, r2)], [P.rmax, P.rmin], [t, t0])
        ctx.close("remaining roots in decreasing order", [r3, r4], [max(P.others), min(P.others)],
                  [max(t1, t2)] * 2)
        ctx.close("r1 is the outer turning point", r1, P.rmax, t)
    ctx.label(P.kind, "equatorial" if k["Q"] == 0 else "inclined", "a<0" if k["a"] < 0 else "a>0")


# ---------------------------------------------------------------- P08
S_APEX = gen.stable_params(neg=True, emin=-3, xmin=-8, dlo=-2.5, dhi=6)


def run_apex(ctx, k):
    c = gen.ref_stable(k)
    E, L, Q = float(c.E), float(c.L), float(c.Q)
    a0 = abs(k["a"])
    x0 = float(c.x)
    e, p = k["e"], k["p"]
    d = float(c.r2 - c.r3) / float(c.r2)
    # sensitivity of the turning points to rounding in the constants
    t = 1.2e-13 * p * (1 + 1 / d) * (1 + 1 / (1 - e)) + 1e-13
    te = t / e if e > 0 else 0.0
    te = min(te, math.sqrt(t)) + 10 * math.sqrt(t) * (e == 0) + t
    # the two turning points of a circular orbit are resolved to sqrt(eps) only
    tx = 1e-14 * abs(x0)
    todo = [("apex", (a0, E, L, Q), x0)]
    if a0 != 0:
        todo.append(("apex of mirror image", (-a0, E, -L, Q), -x0))
    for nm, args, xx in todo:
        got = kg.apex_from_constants(*args)
        ctx.check(nm, len(got) == 4, repr(got))
        ctx.close(nm + " a", got[0], args[0], 1e-15)
        ctx.close(nm + " p", got[1], p, p * (t + te * te))
        ctx.close(nm + " e", got[2], e, te)
        ctx.close(nm + " x", got[3], xx, tx)
    o = kg.StableOrbit.from_constants(a0, E, L, Q)
    ctx.close("from_constants p", o.p, p, p * (t + te * te))
    ctx.close("from_constants e", o.e, e, te)
    ctx.close("from_constants x", o.x, x0, tx)
    tE = 1e-13 + t + te * te
    ctx.close("from_constants keeps E", o.E, E, tE)
    ctx.close("from_constants keeps L", o.L, L, abs(L) * (t + te * te) * 10 + 10 * tx * float(c.l))
    ctx.same("from_constants starts with phases of zero", tuple(o.initial_phases), (0.0, 0.0, 0.0, 0.0))
    ctx.check("from_constants has no masses", o.M is None and o.mu is None, f"{o.M} {o.mu}")
    ctx.close("from_constants keeps Q", o.Q, Q, (t + te * te) * 20 * float(c.l) ** 2 + 20 * tx * float(c.l) ** 2)
    ctx.label(*orbit_labels(k))


PROPS = [
    dict(id="P01", rule="stable orbits generated class by class (spin zero/tiny/generic/near 1/negative; e zero/small/"
         "generic/high/1; x equatorial/near-equatorial/generic/small/0; p = p_sep(1+d), d in 1e-4..3e3 log-uniform). "
         "Every distinct accepted parameter set is non-trivial.",
         oracles=[dict(name="constants", strategy=S_CONST, run=run_constants, n=6000),
                  dict(name="special_radii", strategy=s_special(), run=run_constants, n=800)]),
    dict(id="P02", rule="as P01, with float, numpy-scalar and integer arguments; non-trivial: every distinct set.",
         oracles=[dict(name="routes", strategy=s_routes(), run=run_routes, n=2400)]),
    dict(id="P03", rule="(a,e,x) over all boundary classes including rounding-level distances from a=0, x=0, |x|=1, "
         "e=1; p above/below the separatrix by 1e-5..1e4 relative. Non-trivial: every distinct set.",
         oracles=[dict(name="separatrix", strategy=s_sep(), run=run_sep, n=6000),
                  dict(name="is_stable", strategy=s_isstable(), run=run_isstable, n=5000)]),
    dict(id="P04", rule="spin and grid spacing generated, surface compared at 27 generated (e,x) points incl. corners "
         "and edges. Non-trivial: every distinct surface.",
         oracles=[dict(name="interpolant", strategy=s_fast(), run=run_fast, n=96),
                  dict(name="default_spacing", strategy=s_fast_default(), run=run_fast_default, n=16, limit=120)]),
    dict(id="P05", rule="valid stable parameters, or the same with exactly one of 17 defects injected (bounds exceeded "
         "by 1e-15..3, NaN, extremal spin, unstable p, polar, parabolic); all 18 entry points called. Non-trivial: "
         "every distinct set.",
         oracles=[dict(name="validation", strategy=s_valid(), run=run_valid, n=2400)]),
    dict(id="P06", rule="stable orbits as P01 with e<1, x!=0. Non-trivial: every distinct set.",
         oracles=[dict(name="stable_roots", strategy=S_ROOTS, run=run_stable_roots, n=5000)]),
    dict(id="P07", rule="plunging constants: free (E,L,Q), low angular momentum, deep, and the inner plunge sharing the "
         "constants of a stable orbit; equatorial and inclined; a of both signs. Rejected when roots are within 1e-3 "
         "of merging. Non-trivial: every distinct set.",
         oracles=[dict(name="plunging_roots", strategy=gen.plunge_params(), run=run_plunge_roots, n=4000)]),
    dict(id="P08", rule="stable orbits as P01 with e<1, x!=0. Non-trivial: every distinct set.",
         oracles=[dict(name="round_trip", strategy=S_APEX, run=run_apex, n=2400)]),
]
