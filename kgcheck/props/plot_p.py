"""P27-P29: visibility, plots, animations (judged on the matplotlib figure, whatever drew it)."""
import re
import math
import os
import stat
import tempfile

import kerrgeopy as kg
import matplotlib
import matplotlib.animation as mpa
import matplotlib.colors as mcolors
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from mpl_toolkits.mplot3d.art3d import Line3DCollection, Path3DCollection, Poly3DCollection

from .. import gen
from ..harness import Reject, Violation
from .api_p import make, s_obj

PI = math.pi


def direction(elev, azim):
    e, z = math.radians(elev), math.radians(azim)
    return np.array([math.cos(e) * math.cos(z), math.cos(e) * math.sin(z), math.sin(e)])


def seen(points, rh, elev, azim):
    """(+1 visible, -1 hidden, 0 too close to call): a ray from the point to the camera misses the ball"""
    n = direction(elev, azim)
    out = []
    for P in np.asarray(points, float).reshape(-1, 3):
        # closest approach of the ray P + s n, s >= 0, to the origin
        s = max(0.0, -float(P @ n))
        d = float(np.linalg.norm(P + s * n))
        d0 = float(np.linalg.norm(P))
        if abs(d - rh) < 1e-9 * (1 + d0) or abs(d0 - rh) < 1e-9 or (abs(P @ n) < 1e-9 * (1 + d0) and d < rh + 1e-6):
            out.append(0)
        else:
            out.append(1 if d > rh else -1)
    return np.array(out)


# ---------------------------------------------------------------- P27
@st.composite
def s_vis(draw):
    elev, azim = gen.U(draw, -90, 90), gen.U(draw, -360, 360)
    if draw(gen.oneof([False, False, True])):
        elev = gen.U(draw, -400, 400)  # looking from beyond a pole
    if draw(gen.oneof([False, False, True])):
        elev, azim = draw(gen.oneof([0.0, 90.0, -90.0, 30.0])), draw(gen.oneof([0.0, 90.0, -60.0, 180.0]))
    a = gen.spin(draw)
    rh = 1 + math.sqrt(1 - a * a)
    n = direction(elev, azim)
    u = np.cross(n, [0.3, -0.5, 0.8])
    u /= np.linalg.norm(u)
    w = np.cross(n, u)
    pts = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(gen.oneof(["any", "front", "behind", "edge", "inside"]))
        if k == "any":
            P = [gen.sign(draw) * gen.LOG(draw, -2, 2) for _ in range(3)]
        elif k == "inside":
            f, g = gen.U(draw, 0, 2 * PI), math.acos(gen.U(draw, -1, 1))
            P = gen.U(draw, 0, 0.999) * rh * np.array([math.sin(g) * math.cos(f), math.sin(g) * math.sin(f), math.cos(g)])
        else:
            b = rh * ((1 + gen.sign(draw) * gen.LOG(draw, -6, -1)) if k == "edge" else gen.U(draw, 0, 1.5))
            f = gen.U(draw, 0, 2 * PI)
            s = gen.LOG(draw, -1, 2) * (-1 if k == "behind" else 1 if k == "front" else gen.sign(draw))
            P = b * (math.cos(f) * u + math.sin(f) * w) + s * n
        pts.append([float(c) for c in P])
    o = draw(s_obj()) if draw(gen.oneof([False] * 3 + [True])) else {"kind": "plain", "a": a}
    k = {"a": a, "elev": elev, "azim": azim, "pts": pts, "obj": o}
    if draw(gen.oneof([False] * 9 + [True])):
        k["copies"] = draw(st.integers(20, 400))  # (a long list: the points again and again, turned about the axis)
    return k


def run_vis(ctx, k):
    if k["obj"]["kind"] == "plain":
        o = kg.StableOrbit(k["a"], 20, 0.1, 0.5)
    else:
        o = make(k["obj"])[1]
    rh = 1 + math.sqrt(1 - o.a ** 2)
    pts = [list(q) for q in k["pts"]]
    for i in range(1, k.get("copies", 0)):
        c, s = math.cos(i), math.sin(i)
        pts += [[c * x - s * y, s * x + c * y, z] for x, y, z in k["pts"]]
    want = seen(pts, rh, k["elev"], k["azim"])
    for nm, p in (("list", pts), ("array", np.array(pts)), ("tuples", [tuple(q) for q in pts])):
        got = np.asarray(o.is_visible(p, k["elev"], k["azim"]))
        ctx.check(f"one boolean per point ({nm})", got.shape == (len(pts),) and got.dtype == bool, repr(got))
        for i, w in enumerate(want):
            ctx.check(f"visible ({nm})", w == 0 or bool(got[i]) == (w > 0), f"point {i} of {len(pts)}, {pts[i]}, reported {'visible' if got[i] else 'hidden'}")
    # one at a time, and in another order
    one = [bool(np.asarray(o.is_visible([p], k["elev"], k["azim"]))[0]) for p in k["pts"]]
    for i, w in enumerate(one):
        ctx.check("points do not affect each other", want[i] == 0 or w == bool(got[i]), repr(k["pts"][i]))
    if "copies" in k:
        ctx.label("many points")
    ctx.label(k["obj"]["kind"], *{"hidden" if w < 0 else "visible" if w > 0 else "boundary" for w in want})


# ---------------------------------------------------------------- P28
COLORS = ["red", "blue", "#12ab34", "k", "tab:orange"]


def start(draw, far):
    """first Mino time: zero, around it, long before or after it"""
    return draw(gen.oneof([lambda: 0.0, lambda: gen.U(draw, -1, 1), lambda: gen.U(draw, -1, 1), lambda: gen.U(draw, -far, far)]))()


@st.composite
def s_plot(draw):
    k = draw(s_obj())
    k["span"] = [start(draw, 12), gen.U(draw, 0.2, 2)]
    k["n"] = draw(st.integers(5, 150))
    k["elev"], k["azim"] = gen.U(draw, -90, 90), gen.U(draw, -180, 180)
    k["opt"] = {n: draw(st.booleans()) for n in ("view", "phases", "grid", "axes", "lw", "color", "tau")}
    k["q2"] = [0.0, gen.U(draw, 0.4, 6), gen.U(draw, 0.4, 6), gen.U(draw, -3, 3)]
    k["lw"], k["color"], k["tau"] = gen.U(draw, 0.2, 5), draw(gen.oneof(COLORS)), gen.LOG(draw, -2, 2)
    k["grid"], k["axes"] = draw(st.booleans()), draw(st.booleans())
    k["style"] = draw(gen.oneof(["keywords"] * 3 + ["positional", "default range"]))
    if draw(gen.oneof([False] * 7 + [True])):
        k["n"] = draw(st.integers(500, 3000))
    return k


ORDER = ["lambda0", "lambda1", "elevation", "azimuth", "initial_phases", "grid", "axes", "lw", "color", "tau", "point_density"]
DEFAULTS = [0, 10, 30, -60, None, True, True, 1, "red", np.inf, 200]


def cartesian(f, time):
    t, r, th, ph = f
    r, th, ph = r(time), th(time), ph(time)
    return np.column_stack((r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th)))


def ref_points(k, R, o, time, phases):
    """trajectory from the reference model where one exists (orbits by parameters), else from the orbit"""
    if k["kind"].startswith("ic"):
        return cartesian(o.trajectory(phases), time)
    w = R.trajectory(time, phases)
    return np.column_stack((w[1] * np.sin(w[2]) * np.cos(w[3]), w[1] * np.sin(w[2]) * np.sin(w[3]), w[1] * np.cos(w[2])))


def find(ax, cls):
    return [c for c in ax.collections if isinstance(c, cls)]


def sphere_of(ax):
    return max(find(ax, Poly3DCollection), key=lambda c: len(c.get_facecolor()))


def vertices(poly):
    v = getattr(poly, "_vec", None)
    if v is not None:
        return np.asarray(v)[:3].T
    f = np.asarray(poly._faces)
    return f.reshape(-1, f.shape[-1])


def near(x, y, tol):
    return np.all(np.abs(np.asarray(x, float) - np.asarray(y, float)) <= tol)


def segments(line):
    return [np.array(np.ma.filled(np.ma.asarray(g, dtype=float), np.nan)) for g in line._segments3d]


def tail_of(seg, P, s, size):
    """positions in P of the first points of the drawn segments; raises when the drawing is not the polyline through P
    without its hidden points (s<0), which may be broken by nan in any coordinate or by leaving segments out"""
    index, m = [], 0
    for g in seg:
        if np.shape(g) != (2, 3):
            raise Violation(f"segment of shape {np.shape(g)}")
        while True:
            if m >= len(P) - 1:
                raise Violation(f"{len(seg)} segments for {len(P)} points, or one which is not of the orbit: {g.tolist()}")
            why = None
            for e in (0, 1):
                q, w, v = g[e], P[m + e], s[m + e]
                hidden = np.isnan(q).any()
                fin = ~np.isnan(q)
                if v and hidden != (v < 0):
                    why = f"{q} for the point {w}, which is {'visible' if v > 0 else 'hidden'}"
                elif not near(q[fin], w[fin], size):
                    why = f"{q} for the point {w}"
            if why is None:
                break
            # only segments with a hidden end may be left out
            if len(seg) == len(P) - 1 or (s[m] > 0 and s[m + 1] > 0):
                raise Violation(f"segment {m} of the orbit: {why}")
            m += 1
        index.append(m)
        m += 1
    if (np.minimum(s[m:-1], s[m + 1:]) > 0).any():
        raise Violation(f"{len(seg)} segments for {len(P)} points")
    return np.array(index, int)


def run_plot(ctx, k):
    R, o = make(k)
    rh = 1 + math.sqrt(1 - o.a ** 2)
    u = 2 * PI / R.upsilon_r
    l0, l1 = k["span"][0] * u, (k["span"][0] + k["span"][1]) * u
    density = max(1, int(math.ceil(k["n"] / (l1 - l0))))
    opt = k["opt"]
    kw = dict(lambda0=l0, lambda1=l1, point_density=density)
    if opt["view"]:
        kw.update(elevation=k["elev"], azimuth=k["azim"])
    if opt["phases"]:
        kw["initial_phases"] = tuple(k["q2"])
    for n in ("lw", "color", "tau", "grid", "axes"):
        if opt[n]:
            kw[n] = k[n]
    before = plt.get_fignums()
    style = k.get("style", "keywords")
    if style == "positional":
        fig, ax = o.plot(*[kw.get(n, d) for n, d in zip(ORDER, DEFAULTS)])
    elif style == "default range":
        l0, l1, density = 0, 10, 200
        fig, ax = o.plot(**{n: v for n, v in kw.items() if n not in ("lambda0", "lambda1", "point_density")})
    else:
        fig, ax = o.plot(**kw)
    try:
        ctx.check("one figure", len(plt.get_fignums()) == len(before) + 1 and fig.number in plt.get_fignums(), "")
        ctx.check("axes belong to the figure", ax in fig.axes, "")
        elev, azim = kw.get("elevation", 30), kw.get("azimuth", -60)
        ctx.check("camera", near([ax.elev, (ax.azim - azim + 180) % 360 - 180 + azim], [elev, azim], 1e-9), f"{ax.elev} {ax.azim}")
        ctx.check("orthographic projection", not np.isfinite(ax._focal_length), repr(ax._focal_length))
        ctx.check("grid", bool(ax._draw_grid) == kw.get("grid", True), repr(ax._draw_grid))
        ctx.check("axes shown", bool(ax._axis3don) == kw.get("axes", True), "")
        n = int((l1 - l0) * density)
        phases = kw.get("initial_phases", o.initial_phases)
        time = np.linspace(l0, l1, n)
        P = cartesian(o.trajectory(phases), time)
        if not k["kind"].startswith("ic"):
            W = ref_points(k, R, o, time, phases)
            bad = np.abs(W - P).max(axis=1) > 1e-5 * (1 + np.abs(W).max(axis=1))
            # azimuth diverges at the horizons
            r = np.linalg.norm(W, axis=1)
            bad &= np.minimum(abs(r - R.rp), abs(r - R.rm)) > 1e-2
            ctx.check("trajectory", not bad.any(), "")
        (line,) = find(ax, Line3DCollection) or [None]
        ctx.check("orbit drawn", line is not None, "")
        s = seen(P, rh, elev, azim)
        size = 1e-9 * (1 + np.abs(P).max())
        index = tail_of(segments(line), P, s, size)
        ctx.evals += n
        ctx.check("color", np.allclose(line.get_color()[0][:3], mcolors.to_rgb(kw.get("color", "red")), atol=1e-6), repr(line.get_color()))
        lw, tau = kw.get("lw", 1), kw.get("tau", np.inf)
        w = np.asarray(line.get_linewidth(), float).ravel()
        if len(w) == 1:
            w = np.full(len(index), w[0])
        want = (0.1 + lw * np.exp(-(time[-1] - time) / tau))[index]
        step = (time[-1] - time[0]) / (n - 1)
        tol = 1e-9 + lw * np.abs(np.exp(-(time[-1] - time[index]) / tau) * (math.expm1(min(step / tau, 50)))) * 1.0000001
        ctx.check("line width decays with age", len(w) >= len(index) and np.all(np.abs(w[: len(index)] - want) <= tol),
                  f"{w[:3]}...{w[-3:]} against {want[:3]}...{want[-3:]}")
        (body,) = [c for c in find(ax, Path3DCollection)] or [None]
        ctx.check("smaller body drawn", body is not None, "")
        pos = np.array([float(np.ravel(c)[0]) for c in body._offsets3d])
        ctx.check("smaller body at the end of the orbit", near(pos, P[-1], size), f"{pos} {P[-1]}")
        V = np.linalg.norm(vertices(sphere_of(ax)), axis=1)
        ctx.check("black hole has the radius of the outer horizon", near(V, rh, 1e-6 * rh), f"{V.min()} {V.max()} {rh}")
        lo, hi = np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()]).T
        ctx.check("everything within the axes", np.all(lo <= P.min(axis=0) + size) and np.all(hi >= P.max(axis=0) - size)
                  and np.all(lo <= -rh * 0.99) and np.all(hi >= rh * 0.99), f"{lo} {hi}")
        b = np.asarray(ax._box_aspect, float)
        ctx.check("equal scales", near(b / b[0], (hi - lo) / (hi - lo)[0], 1e-6), f"{b} {hi - lo}")
    finally:
        plt.close(fig)
    ctx.label(k["kind"], style, *[n for n, v in opt.items() if v], *(["hidden points"] if (s < 0).any() else []))
    if n < 2:
        ctx.is_trivial()


# ---------------------------------------------------------------- P29
FAKE = """#!/bin/sh
for a in "$@"; do printf '%s\\n' "$a"; done > "{args}"
exec wc -c > "{count}"
"""
LIM = {"grow": lambda t: 60 + t, "const": lambda t: 15.0}
PAN = {"turn": lambda t: 50 * t - 20, "const": lambda t: 12.5, "spin": lambda t: 900 * t + 30, "back": lambda t: -700 * t}


@st.composite
def s_anim(draw):
    k = draw(s_obj())
    k["l0"], k["dl"] = start(draw, 40), gen.U(draw, 0.15, 0.5)
    k["speed"] = draw(gen.oneof([1, 0.5, 2, 0.125, 1.25, 4]))
    k["opt"] = {n: draw(st.booleans()) for n in ("view", "phases", "grid", "axes", "lw", "color", "tau", "tail", "azim_pan", "elev_pan",
                                                 "roll", "limit", "components", "background")}
    k["q2"] = [0.0, gen.U(draw, 0.4, 6), gen.U(draw, 0.4, 6), gen.U(draw, -3, 3)]
    k["elev"], k["azim"] = gen.U(draw, -90, 90), gen.U(draw, -180, 180)
    k["lw"], k["color"], k["tau"] = gen.U(draw, 0.2, 5), draw(gen.oneof(COLORS)), gen.LOG(draw, -2, 1)
    k["tail"] = draw(gen.oneof([0.1, 0.05, 0.25, 1, 0.0333, 5, 0.3]))
    k["grid"], k["axes"] = draw(st.booleans()), draw(st.booleans())
    k["bg"] = draw(gen.oneof(["black", "white", "#abcdef"]))
    k["fn"] = draw(gen.oneof(["grow", "const"]))
    k["pan"] = draw(gen.oneof(["turn", "const", "spin", "back"]))
    k["style"] = draw(gen.oneof(["keywords", "keywords", "positional"]))
    if draw(gen.oneof([False, False, True])):  # long enough for the usual tail to be cut
        k["dl"], k["speed"] = gen.U(draw, 2, 8), draw(gen.oneof([8, 16, 20]))
        k["tail"] = draw(gen.oneof([0.5, 1, 2, 3.1]))
    return k


ORDER_A = ["lambda0", "lambda1", "elevation", "azimuth", "initial_phases", "grid", "axes", "color", "tau", "tail_length", "lw",
           "azimuthal_pan", "elevation_pan", "roll", "speed", "background_color", "axis_limit", "plot_components"]
DEFAULTS_A = [0, 10, 30, -60, None, True, True, "red", 2, 5, 2, None, None, None, 1, None, None, False]


def run_anim(ctx, k):
    R, o = make(k)
    opt = k["opt"]
    kw = dict(lambda0=k["l0"], lambda1=k["l0"] + k["dl"], speed=k["speed"])
    if opt["view"]:
        kw.update(elevation=k["elev"], azimuth=k["azim"])
    if opt["phases"]:
        kw["initial_phases"] = tuple(k["q2"])
    for n in ("lw", "color", "tau", "grid", "axes"):
        if opt[n]:
            kw[n] = k[n]
    if opt["tail"]:
        kw["tail_length"] = k["tail"]
    for n, key in (("azim_pan", "azimuthal_pan"), ("elev_pan", "elevation_pan"), ("roll", "roll")):
        if opt[n]:
            kw[key] = PAN[k["pan"]]
    if opt["limit"]:
        kw["axis_limit"] = LIM[k["fn"]]
    if opt["components"]:
        kw["plot_components"] = True
    if opt["background"]:
        kw["background_color"] = k["bg"]
    rh = 1 + math.sqrt(1 - o.a ** 2)
    l0, l1 = kw["lambda0"], kw["lambda1"]
    npts = int((l1 - l0) * 240)
    phases = kw.get("initial_phases", o.initial_phases)
    f = o.trajectory(phases)
    time = np.linspace(l0, l1, npts)
    P = cartesian(f, time)
    if not k["kind"].startswith("ic"):
        W = ref_points(k, R, o, time, phases)
        r = np.linalg.norm(W, axis=1)
        bad = (np.abs(W - P).max(axis=1) > 1e-5 * (1 + r)) & (np.minimum(abs(r - R.rp), abs(r - R.rm)) > 1e-2)
        ctx.check("trajectory", not bad.any(), "")
    mult = int(k["speed"] * 8)
    frames = []

    def snap(self, **sk):
        fig = self.fig
        ax = [x for x in fig.axes if hasattr(x, "get_zlim3d")][0]
        line = find(ax, Line3DCollection)[0]
        body = find(ax, Path3DCollection)[0]
        comp = [[np.array(l.get_xydata()) for l in x.lines] for x in fig.axes if x is not ax]
        al = line.get_alpha()
        frames.append(dict(
            seg=segments(line), pos=[float(np.ravel(c)[0]) for c in body._offsets3d],
            cam=(ax.elev, ax.azim, ax.roll), lim=[ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()],
            alpha=None if al is None else np.atleast_1d(np.array(al, float)), lw=float(np.ravel(line.get_linewidth())[0]),
            color=np.array(line._original_edgecolor if isinstance(line._original_edgecolor, np.ndarray) else mcolors.to_rgb(line._original_edgecolor)).ravel()[:3]
            if hasattr(line, "_original_edgecolor") else None, focal=ax._focal_length,
            sphere=vertices(sphere_of(ax)), grid=ax._draw_grid, axes=ax._axis3don, comp=comp, text=" ".join(x.get_text() for x in ax.texts),
            fig=mcolors.to_rgb(fig.get_facecolor()), save=sk))

    with tempfile.TemporaryDirectory(dir=os.environ.get("KG_SCRATCH")) as d:
        exe = os.path.join(d, "ffmpeg")
        with open(exe, "w") as h:
            h.write(FAKE.format(args=os.path.join(d, "args"), count=os.path.join(d, "count")))
        os.chmod(exe, os.stat(exe).st_mode | stat.S_IXUSR)
        path = os.path.join(d, "out.mp4")
        keep = mpa.FFMpegWriter.grab_frame
        figs = plt.get_fignums()
        try:
            mpa.FFMpegWriter.grab_frame = snap
            with matplotlib.rc_context({"animation.ffmpeg_path": exe}), open(os.devnull, "w") as null:
                import contextlib
                with contextlib.redirect_stderr(null):
                    if k.get("style") == "positional":
                        o.animate(path, *[kw.get(n, d) for n, d in zip(ORDER_A, DEFAULTS_A)])
                    else:
                        o.animate(path, **kw)
        finally:
            mpa.FFMpegWriter.grab_frame = keep
            for n in plt.get_fignums():
                if n not in figs:
                    plt.close(n)
                    figs = None
        ctx.check("figure closed", figs is not None, "")
        with open(os.path.join(d, "args")) as h:
            args = h.read().split("\n")
    ctx.check("output file", path in args, repr(args))
    rates = [float(args[i + 1]) for i, x in enumerate(args[:-1]) if x in ("-r", "-framerate")]
    ctx.check("30 frames per second", set(rates) == {30.0}, repr(args))
    want_n = npts // mult
    ctx.check("number of frames", len(frames) == want_n, f"{len(frames)} frames, expected {want_n}")
    limit = max(np.abs(P).max(), rh)
    size = 1e-9 * (1 + np.abs(P).max())
    tail = int(kw.get("tail_length", 5) * 240)
    for i, fr in enumerate(frames):
        j = mult * i
        now = time[j]
        ctx.check("body position", near(fr["pos"], P[j], size), f"frame {i}: {fr['pos']} instead of {P[j]}")
        elev = PAN[k["pan"]](now) if opt["elev_pan"] else kw.get("elevation", 30)
        azim = PAN[k["pan"]](now) if opt["azim_pan"] else kw.get("azimuth", -60)
        roll = PAN[k["pan"]](now) if opt["roll"] else 0
        d = (np.array(fr["cam"]) - [elev, azim, roll] + 180) % 360 - 180
        ctx.check("camera", near(d, 0, 1e-9), f"frame {i}: {fr['cam']} instead of {(elev, azim, roll)}")
        L = LIM[k["fn"]](now) if opt["limit"] else limit
        ctx.check("axis limits", near(np.array(fr["lim"]), [[-L, L]] * 3, 1e-6 * L), f"frame {i}: {fr['lim']}, expected +-{L}")
        # the tail: the points of the last tail_length units of Mino time, hidden ones broken out
        j0s = {max(0, j - tail), max(0, j - tail - 1)} if kw.get("tail_length", 5) * 240 != tail else {max(0, j - tail)}
        for j0 in sorted(j0s):
            try:
                index = tail_of(fr["seg"], P[j0:j], seen(P[j0:j], rh, elev, azim), size) if j > j0 else tail_of(fr["seg"], P[:0], [], size)
                break
            except Violation as e:
                why = e
        else:
            raise Violation(f"tail: frame {i}, {j} points so far, tail of {tail} points: {why}")
        ctx.check("tail", True, "")
        n = len(index)
        if n and fr["alpha"] is not None:
            al = np.full(n, fr["alpha"][0]) if len(fr["alpha"]) == 1 else fr["alpha"][:n]
            ctx.check("one opacity per segment", len(al) == n, f"{len(al)} for {n} segments")
            tau = kw.get("tau", 2)
            want = 0.1 + 0.9 * np.exp(-(time[j - 1] - time[j0 + index]) / tau)
            tol = 0.9 * np.abs(np.expm1(-3 * (time[1] - time[0]) / tau)) + 1e-9
            ctx.check("opacity of the tail decays with age", np.all(np.abs(al - want) <= tol), f"frame {i}: {al[:3]}..{al[-3:]}, expected {want[:3]}..{want[-3:]}")
        ctx.check("line width", abs(fr["lw"] - kw.get("lw", 2)) < 1e-9, repr(fr["lw"]))
        ctx.check("orthographic projection", not np.isfinite(fr["focal"]), "")
        ctx.check("grid", bool(fr["grid"]) == kw.get("grid", True), "")
        ctx.check("axes shown", bool(fr["axes"]) == kw.get("axes", True), "")
        if fr["color"] is not None:
            ctx.check("color", near(fr["color"], mcolors.to_rgb(kw.get("color", "red")), 1e-6), repr(fr["color"]))
        if opt["background"]:
            ctx.check("background", near(fr["fig"], mcolors.to_rgb(k["bg"]), 1e-6), repr(fr["fig"]))
        if opt["components"]:
            data = [c for x in fr["comp"] for c in x]
            nums = [float(x) for x in re.findall(r"-?\d+\.?\d*(?:e[-+]?\d+)?", fr["text"])]
            for v in [o.a, now] + ([o.p, o.e, o.x] if o.stable else [o.E, o.L, o.Q]):
                ctx.check("parameters and time shown", any(abs(v - x) <= 6e-3 for x in nums), f"frame {i}: {v} not in {fr['text']!r}")
            ctx.check("four component plots", len(data) >= 4, repr(len(data)))
            for c, g in zip(data[:4], f):
                m = len(c)
                ctx.check("component plotted up to now", abs(m - j) <= 1, f"frame {i}: {m} points, expected {j}")
                if m:
                    w = g(time[:m])
                    good = np.isfinite(w)
                    ctx.check("component data", near(c[:, 0], time[:m], 1e-9) and near(c[good, 1], w[good], 1e-9 * (1 + np.abs(w[good]))), f"frame {i}")
    for fr in frames:
        V = np.linalg.norm(fr["sphere"], axis=1)
        ctx.check("black hole has the radius of the outer horizon", near(V, rh, 1e-6 * rh), f"{V.min()} {V.max()} {rh}")
    ctx.label(k["kind"], *[n for n, v in opt.items() if v], f"speed {k['speed']}", k.get("style", "keywords"), "long" if k["dl"] > 1 else "short", "frames" if len(frames) > 1 else "no frames")
    if len(frames) < 2:
        ctx.is_trivial()


PROPS = [
    dict(id="P27", rule="points anywhere, in front of, behind and inside the horizon, and within 1e-6..0.1 of its outline, seen from "
         "generated directions (incl. along the axes). Non-trivial: every distinct case.",
         oracles=[dict(name="visibility", strategy=s_vis(), run=run_vis, n=3000)]),
    dict(id="P28", rule="stable, plunging and initial-condition orbits with generated time span, density, camera and options. "
         "Non-trivial: at least two points drawn.",
         oracles=[dict(name="plot", strategy=s_plot(), run=run_plot, n=400)]),
    dict(id="P29", rule="as P28 for animations: every frame inspected as it is handed to the movie writer. Non-trivial: at least two frames.",
         oracles=[dict(name="animation", strategy=s_anim(), run=run_anim, n=128, limit=120)]),
]
