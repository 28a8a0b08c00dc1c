"""P22: the Kerr metric.  Oracle: Carter's canonical (Boyer-Lindquist) tetrad form of the line element, written
from the literature and evaluated in exact rational/multi-precision arithmetic where cancellation occurs."""
import math

import kerrgeopy as kg
import numpy as np
from hypothesis import strategies as st
from mpmath import mp

from .. import gen

PI = math.pi


@st.composite
def s_event(draw):
    a = gen.spin(draw)
    if draw(gen.oneof([False] * 9 + [True])):
        a = draw(gen.oneof([1.0, -1.0]))
    rp = 1 + math.sqrt(1 - a * a)
    rm = a * a / rp
    k = draw(gen.oneof(["outside", "outside", "near", "inside", "deep"]))
    r = {"outside": lambda: rp + gen.LOG(draw, -1, draw(gen.oneof([3, 3, 7]))), "near": lambda: rp * (1 + gen.sign(draw) * gen.LOG(draw, -6, -1)),
         "inside": lambda: gen.U(draw, rm, rp), "deep": lambda: (gen.U(draw, 0.01, 1) if draw(st.booleans()) else gen.LOG(draw, -7, -1)) * max(rm, 0.05)}[k]()
    th = gen.U(draw, 0.0, PI)
    c = draw(gen.oneof(["generic", "generic", "equator", "pole"]))
    if c == "equator":
        th = PI / 2
    elif c == "pole":
        th = gen.LOG(draw, draw(gen.oneof([-3, -6])), -1)
        if draw(st.booleans()):
            th = PI - th
    comp = lambda: draw(gen.oneof([0.0, 1.0, -1.0, None])) if draw(st.booleans()) else gen.sign(draw) * gen.LOG(draw, -3, 3)
    v, w = ([gen.sign(draw) * gen.LOG(draw, -2, 2) if (x := comp()) is None else x for _ in range(4)] for _ in range(2))
    return {"a": a, "r": r, "th": th, "t": gen.U(draw, -100, 100), "phi": gen.U(draw, -10, 10), "region": k,
            "v": v, "w": w, "int": draw(gen.oneof([False, False, False, True]))}


def forms(a, r, th):
    """the four one-forms and signs of the canonical form:
    -Delta/Sigma (dt - a s^2 dphi)^2 + s^2/Sigma ((r^2+a^2) dphi - a dt)^2 + Sigma/Delta dr^2 + Sigma dtheta^2"""
    with mp.workdps(50):
        a, r = mp.mpf(a), mp.mpf(r)
        s2, c2 = mp.sin(mp.mpf(th)) ** 2, mp.cos(mp.mpf(th)) ** 2
        S = r * r + a * a * c2
        D = r * r - 2 * r + a * a
        return [(-D / S, [1, 0, 0, -a * s2]), (s2 / S, [-a, 0, 0, r * r + a * a]),
                (S / D if D != 0 else mp.inf, [0, 1, 0, 0]), (S, [0, 0, 1, 0])]


def product(F, v, w):
    with mp.workdps(50):
        t = size = mp.mpf(0)
        for c, f in F:
            x, y = (mp.fsum(mp.mpf(p) * q for p, q in zip(f, z)) for z in (v, w))
            xs, ys = (mp.fsum(abs(mp.mpf(p) * q) for p, q in zip(f, z)) for z in (v, w))
            if x == 0 or y == 0:
                t, size = t, size + (abs(c) * xs * ys if xs and ys else 0)
                continue
            t += c * x * y
            size += abs(c) * xs * ys
        return t, size


def run_metric(ctx, k):
    a, r, th, t, phi = (k[n] for n in ("a", "r", "th", "t", "phi"))
    if k["int"]:
        r = float(max(3, round(r)))
    S = kg.KerrSpacetime(a)
    F = forms(a, r, th)
    rp = 1 + math.sqrt(1 - a * a)
    dl = abs(r * r - 2 * r + a * a)
    if dl < 1e-9:
        from ..harness import Reject
        raise Reject()
    # rounding: Delta by cancellation, Sigma near the ring, sin(theta) next to pi
    amp = 1 + (r * r + 2 * r + a * a) / dl + 1 / math.sin(th) if math.sin(th) > 0 else 1e17
    if amp > 1e9:
        from ..harness import Reject
        raise Reject()
    ri = int(r) if k["int"] else r
    G = S.metric(t, ri, th, phi)
    ctx.check("4x4 matrix", np.shape(G) == (4, 4), repr(np.shape(G)))
    ctx.check("symmetric", np.array_equal(G, np.transpose(G)), repr(G))
    I = np.eye(4).astype(int).tolist()
    for i in range(4):
        for j in range(i, 4):
            w, s = product(F, I[i], I[j])
            if s == 0:
                ctx.check(f"g[{i},{j}] = 0", G[i][j] == 0, repr(G[i][j]))
            else:
                ctx.close(f"g[{i},{j}]", G[i][j], float(w), 4e-16 * (amp + 10) * float(s) + 1e-300)
    ctx.same("independent of t and phi", S.metric(t + 1.5, ri, th, phi - 0.7), G)
    ctx.same("independent of the mass", kg.KerrSpacetime(a, M=1e6).metric(t, ri, th, phi), G)
    v, u = k["v"], k["w"]
    for nm, z in (("list", v), ("tuple", tuple(v)), ("array", np.array(v))):
        w, s = product(F, v, v)
        if s == 0:
            continue
        ctx.close(f"norm ({nm})", S.norm(t, ri, th, phi, z), float(w), 2e-15 * (amp + 10) * float(s))
    # polarisation: the norm is a quadratic form with the metric as its bilinear form
    w, s = product(F, v, u)
    s2 = float(product(F, v, v)[1] + product(F, u, u)[1] + 2 * s)
    if s2 > 0:
        n = (S.norm(t, ri, th, phi, np.add(v, u)) - S.norm(t, ri, th, phi, np.subtract(v, u))) / 4
        ctx.close("polarised norm", n, float(w), 4e-15 * (amp + 10) * s2)
    ctx.label(k["region"], "a=0" if a == 0 else "a<0" if a < 0 else "a>0", *(["|a|=1"] if abs(a) == 1 else []))


@st.composite
def s_spin(draw):
    a = gen.spin(draw)
    if draw(gen.oneof([False] * 6 + [True])):
        a = draw(gen.oneof([1.0, -1.0, 0, 1, -1]))
    return {"a": a, "M": draw(gen.oneof([None, 1.0, 1e6]))}


def run_horizons(ctx, k):
    a, M = k["a"], k["M"]
    S = kg.KerrSpacetime(a) if M is None else kg.KerrSpacetime(a, M)
    with mp.workdps(30):
        q = mp.sqrt(1 - mp.mpf(a) ** 2)
        ro, ri = 1 + q, mp.mpf(a) ** 2 / (1 + q)
    ctx.close("outer horizon", S.outer_horizon, float(ro), 1e-15 / max(float(q), 1e-8) + 1e-15)
    ctx.close("inner horizon", S.inner_horizon, float(ri), 1e-15 / max(float(q), 1e-8) + 1e-15)
    ctx.check("a", S.a == a, repr(S.a))
    ctx.check("M", S.M == M, repr(S.M))
    # light signals: constant-r hypersurfaces become null exactly at the horizons
    if 0.01 < abs(a) < 0.9999:
        for h in (S.outer_horizon, S.inner_horizon):
            g = [S.metric(0, h * (1 + d), 1.0, 0)[1][1] for d in (1e-6, -1e-6)]
            ctx.check("g_rr changes sign at the horizon", g[0] * g[1] < 0, repr(g))
    ctx.label("a=0" if a == 0 else "|a|=1" if abs(a) == 1 else "a<0" if a < 0 else "a>0")


PROPS = [
    dict(id="P22", rule="events with generated spin, radius (outside, near, between and inside the horizons), latitude "
         "(near poles, equator) and pairs of vectors. Non-trivial: every distinct event with Delta not within 1e-9 of 0.",
         oracles=[dict(name="metric", strategy=s_event(), run=run_metric, n=3000),
                  dict(name="horizons", strategy=s_spin(), run=run_horizons, n=800)]),
]
