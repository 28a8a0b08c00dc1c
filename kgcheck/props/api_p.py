"""P25-P26: arrays, purity, histories of calls."""
import math
import random
import warnings
from concurrent.futures import ThreadPoolExecutor

import kerrgeopy as kg
import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from kerrgeopy import constants as kgc
from kerrgeopy import frequencies as kgf
from kerrgeopy import initial_conditions as kgi
from kerrgeopy import plunge as kgp
from kerrgeopy import stable as kgs

from .. import fresh, gen
from ..harness import Reject
from .frequencies_p import ref_orbit
from .plunge_p import ref_p, s_mild as s_plunge

PI = math.pi


# ---------------------------------------------------------------- P25
@st.composite
def s_obj(draw):
    kind = draw(gen.oneof(["stable", "plunging", "ic_stable", "ic_plunging"]))
    if "stable" in kind:
        k = draw(gen.stable_params(emin=-1.5, xmin=-1, dlo=-1.5, dhi=1, high_e=False, high_a=False))
        if kind == "ic_stable" and k["e"] < 0.02:
            k["e"] += 0.05
            k["p"] = gen.sep(k["a"], k["e"], k["x"]) * (1 + k["d"])
        if abs(k["x"]) < 0.2:
            k["x"] = math.copysign(0.2, k["x"])
            k["p"] = gen.sep(k["a"], k["e"], k["x"]) * (1 + k["d"])
    else:
        k = draw(s_plunge())
    k["kind"] = kind
    k["phases"] = [gen.U(draw, -50, 50), gen.U(draw, 0.4, 2.6), gen.U(draw, 0.4, 2.6), gen.U(draw, -3, 3)]
    return k


def make(k):
    """the orbit of a case, or Reject outside the domain of P12/P13/P20"""
    ph = tuple(k["phases"])
    if "p" in k:
        R = ref_orbit(k)
        if k["kind"].startswith("ic") and 0 < R.zm < 0.05:
            raise Reject()
        o = kg.StableOrbit(k["a"], k["p"], k["e"], k["x"], ph)
    else:
        R = ref_p(k)
        r, th = (float(v) for v in R.trajectory(0.0, ph)[1:3])
        if min(abs(r - R.rp), abs(r - R.rm), abs(r - R.rmin), abs(r - R.rmax)) < 0.02 or r * r + (R.a * math.cos(th)) ** 2 < 0.02:
            raise Reject()
        if k["kind"].startswith("ic") and (0 < R.zm < 0.05 or R.sep_scale < 0.01):
            raise Reject()
        o = kg.PlungingOrbit(k["a"], k["E"], k["L"], k["Q"], ph)
    if k["kind"].startswith("ic"):
        o = kg.Orbit(o.a, o.initial_position, o.initial_velocity)
    return R, o


@st.composite
def s_arr(draw):
    k = draw(s_obj())
    k["shape"] = draw(gen.oneof([[3], [2, 3], [1], [], [0], [2, 1, 2], [1, 3], [6], [1500], [41, 29]]))
    n = int(np.prod(k["shape"])) if k["shape"] else 1
    # (large arrays repeat a few values with a drift)
    k["v"] = [0.0 if draw(gen.oneof([False] * 5 + [True])) else gen.U(draw, -2, 2) for _ in range(min(n, 12))]
    k["int"] = draw(gen.oneof([False, False, True]))
    k["layout"] = draw(gen.oneof(["plain", "plain", "fortran", "reversed", "every other", "read only", "sorted", "descending", "repeated", "whole"]))
    return k


def layout(k, scale):
    """the array of a case, and the positions at which it is compared"""
    n = int(np.prod(k["shape"])) if k["shape"] else 1
    v = np.array(k["v"] + [0.0]) if k["v"] else np.zeros(1)
    v = v[np.arange(n) % max(1, len(k["v"]))] * np.where(np.arange(n) < 12, 1, 0.3 + 0.7 * np.cos(np.arange(n)))
    how = k.get("layout", "plain")
    if how in ("sorted", "descending"):
        v = np.sort(v)[:: 1 if how == "sorted" else -1]
    if how == "repeated" and n:
        v = np.repeat(v[: n // 2 + 1], 2)[:n]
    v = v * scale
    if how == "whole":
        v = np.round(v).astype(np.int64)
    v = v.reshape(k["shape"])
    if how == "fortran" and v.ndim:
        v = np.asfortranarray(v)
    if how == "reversed" and v.ndim:
        v = v[::-1]
    if how == "every other" and v.ndim:
        v = np.repeat(v, 2, axis=-1)[..., ::2]
    if how == "read only":
        v.flags.writeable = False
    at = list(np.ndindex(*k["shape"]))
    if n > 24:
        at = at[:6] + at[-6:] + at[6:-6:n // 12]
    return v, tuple(np.array(at, int).reshape(len(at), len(k["shape"])).T)


def run_arrays(ctx, k):
    R, o = make(k)
    fr = [("trajectory", o.trajectory(), True), ("four_velocity", o.four_velocity(), True),
          ("trajectory_deltas", o.trajectory_deltas(), False), ("numerical_four_velocity", o.numerical_four_velocity(dx=1e-4), True)]
    for nm, fs, mino in fr:
        lam, at = layout(k, 2 * PI / R.upsilon_r if mino else 6)
        keep = lam.copy()
        for i, f in enumerate(fs):
            got = f(lam)
            ctx.check(f"shape of {nm}[{i}]", np.shape(got) == tuple(k["shape"]), f"{np.shape(got)} for input {k['shape']}")
            ctx.same(f"argument of {nm}[{i}] unchanged", lam, keep)
            got = np.asarray(got)[at]
            one = np.array([float(f(float(v))) for v in lam[at].ravel()]).reshape(np.shape(got))
            if nm == "numerical_four_velocity":
                # differences of nearly equal numbers
                t = 1e-6 * (1 + np.abs(one))
            else:
                t = 1e-9 * (1 + np.abs(one)) if nm == "four_velocity" else 1e-10 * (1 + np.abs(one))
            bad = np.isnan(one) | (np.abs(one) > 1e8)
            ctx.close(f"{nm}[{i}] of an array", np.where(bad, 0, got), np.where(bad, 0, one), t if t.size and not np.isnan(t).any() else np.where(np.isnan(t), 1, t))
            if k["int"]:
                for v in (0, 1, np.int64(1), np.float64(0.5), np.array(1)):
                    a, b = f(v), f(float(v))
                    if np.isfinite(b) and abs(b) < 1e8:
                        ctx.close(f"{nm}[{i}] of {type(v).__name__}", a, b, 1e-9 * (1 + abs(b)) if nm[0] != "n" else 1e-6 * (1 + abs(b)))
    ctx.label(k["kind"], "shape " + "x".join(map(str, k["shape"])), k.get("layout", "plain"))


# ---------------------------------------------------------------- P26
OPS = ["trajectory", "trajectory_phases", "four_velocity", "four_velocity_phases", "deltas", "deltas_phases", "numerical",
       "constants", "mks", "units_trajectory", "frequencies", "eval", "eval", "eval", "module", "module", "remake", "plot",
       "visible", "spacetime", "failing"]


@st.composite
def s_history(draw):
    objs = [draw(s_obj()) for _ in range(draw(st.integers(1, 3)))]
    ops = [{"op": draw(gen.oneof(OPS)), "o": draw(st.integers(0, 2)), "q": draw(st.integers(0, 3)), "l": draw(st.integers(0, 4)),
            "h": draw(st.integers(0, 9)), "m": draw(st.integers(0, 11))} for _ in range(draw(st.integers(4, 24)))]
    return {"objs": objs, "ops": ops, "threads": draw(gen.oneof([False, False, False, True]))}


def public(o):
    return {n: (tuple(v) if isinstance(v, (list, tuple)) else v) for n, v in vars(o).items() if not n.startswith("_")}


def same(x, y):
    x, y = np.asarray(x), np.asarray(y)
    if x.dtype == object or y.dtype == object:
        return x.shape == y.shape and all(u is v or u == v for u, v in zip(x.ravel(), y.ravel()))
    return x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind in "fc" and y.dtype.kind in "fc")


def run_history(ctx, k):
    objs, Rs = [], []
    for c in k["objs"]:
        try:
            R, o = make(c)
        except Reject:
            continue
        Rs.append((R, c))
        objs.append(o)
    if not objs:
        raise Reject()
    for o in objs:
        o.M, o.mu = 1e6, 10.0
    snap = [public(o) for o in objs]
    memo = {}
    handles = []
    err, rng, filters = np.geterr(), np.random.get_state(), list(warnings.filters)
    rc, prints, rng2 = dict(matplotlib.rcParams), np.get_printoptions(), random.getstate()
    PH = [(0.0, 0.0, 0.0, 0.0), (1.0, 2.0, 0.7, -1.0), [0.5, 1.0, 2.0, 0.1], np.array([0.2, 1.5, 0.4, 0.3])]
    LAM = [0.0, 0.3, -0.4, 1.1, 2.3]

    def record(key, value, what):
        """equal calls give equal values whatever was called in between"""
        if key in memo:
            ctx.check(f"{what} repeats", same(value, memo[key]), f"{value!r} after {memo[key]!r} for the same call {key}")
        else:
            memo[key] = value

    def step(op, out):
        i = op["o"] % len(objs)
        o, (R, c) = objs[i], Rs[i]
        ph = PH[op["q"]]
        keep = tuple(ph)
        name = op["op"]
        if name == "remake":
            o2 = make(c)[1]
            o2.M, o2.mu = 1e6, 10.0
            for n, v in public(o2).items():
                ctx.check(f"attribute {n} of an orbit made again", n in snap[i] and same(v, snap[i][n]), f"{v!r} instead of {snap[i].get(n)!r}")
            handles.append((("trajectory", i, None), o2.trajectory()))
            record(("trajectory", i, None, "made"), [float(g(0.7)) for g in handles[-1][1]], name)
            return
        calls = {"trajectory": (None, lambda: o.trajectory()), "trajectory_phases": (keep, lambda: o.trajectory(ph)),
                 "four_velocity": (None, lambda: o.four_velocity()), "four_velocity_phases": (keep, lambda: o.four_velocity(ph)),
                 "deltas": (None, lambda: o.trajectory_deltas()), "deltas_phases": (keep, lambda: o.trajectory_deltas(ph)),
                 "numerical": (None, lambda: o.numerical_four_velocity(1e-4)),
                 "units_trajectory": (None, lambda: o.trajectory(None, "km", "days"))}
        if name in calls:
            q, f = calls[name]
            handles.append(((name, i, q), f()))
            h = handles[-1]
            record(h[0] + ("made",), [float(g(0.7)) for g in h[1]], name)
        elif name == "eval":
            if handles:
                h = handles[op["h"] % len(handles)]
                record(h[0] + (op["l"],), [float(g(LAM[op["l"]])) for g in h[1]], "a component evaluated")
        elif name == "constants":
            record(("constants", i), o.constants_of_motion(), name)
        elif name == "mks":
            record(("mks", i), o.constants_of_motion("mks"), name)
        elif name == "frequencies":
            if c["kind"] == "stable":
                f = (o.mino_frequencies, o.fundamental_frequencies)[op["q"] % 2]
                units = ("natural", "mks")[op["l"] % 2]
                record(("freq", i, op["q"] % 2, units), f(units), name)
        elif name == "visible":
            pts = [[3.0, 0.1, 0.2], [-3.0, 0.1, 0.2], [0.1, 0.1, 0.1]]
            record(("visible", i), o.is_visible(pts, 30, -60), name)
            ctx.check("points unchanged", pts == [[3.0, 0.1, 0.2], [-3.0, 0.1, 0.2], [0.1, 0.1, 0.1]], repr(pts))
        elif name == "plot":
            if out is not None:
                fig, ax = o.plot(0, 0.5 * 2 * PI / R.upsilon_r, point_density=int(40 * R.upsilon_r))
                try:
                    record(("plot", i), ax.get_xlim3d() + ax.get_ylim3d() + ax.get_zlim3d(), name)
                finally:
                    plt.close(fig)
        elif name == "spacetime":
            S = kg.KerrSpacetime(o.a)
            record(("metric", i), S.metric(0, 3.3, 1.0, 0.2), name)
            record(("norm", i), S.norm(0, 3.3, 1.0, 0.2, [1.0, 0.1, 0.2, 0.3]), name)
        elif name == "module":
            module(op, i, o, c)
        elif name == "failing":
            # a call which must fail leaves no trace either
            bad = [lambda: kg.constants_of_motion(0.9, 1.01, 0.3, 0.5), lambda: kg.mino_frequencies(1.0, 6, 0.3, 0.5),
                   lambda: kg.StableOrbit(0.9, -6, 0.3, 0.5), lambda: kg.fundamental_frequencies(0.9, 6, 1.3, 0.5),
                   lambda: kg.Orbit(0.5, (0, 8, 1.5, 0), (1, 0, 0, 0.5)), lambda: o.constants_of_motion("furlongs"),
                   lambda: o.trajectory(distance_units="furlongs")[1](0.7), lambda: kg.Orbit(0, (0, 3, PI / 2, 0), (1, 1, 1, 1)),
                   lambda: kg.separatrix(0.5, 2, 0.3), lambda: kg.StableOrbit.from_constants(0.9, 1.5, 0.1, 0.2),
                   lambda: kg.KerrSpacetime(0.5).norm(0, 8, 1, 0, [1, 2]), lambda: o.trajectory((1, 2))]
            try:
                bad[op["m"] % len(bad)]()
                how = None
            except Exception as ex:  # noqa: BLE001
                how = type(ex).__name__
            record(("failing", i, op["m"] % len(bad)), how, name)
        ctx.check("phases unchanged", tuple(ph) == keep, repr(ph))

    def module(op, i, o, c):
        m = op["m"]
        if c["kind"] == "stable":
            a, p, e, x = (c[n] for n in "apex")
            cons = (o.E, o.L, o.Q)
            fs = [lambda: kg.constants_of_motion(a, p, e, x), lambda: kg.mino_frequencies(a, p, e, x),
                  lambda: kg.fundamental_frequencies(a, p, e, x), lambda: kg.separatrix(abs(a), e, x),
                  lambda: kg.is_stable(abs(a), p, e, x), lambda: kgc.stable_radial_roots(a, p, e, x),
                  lambda: kgc.stable_polar_roots(a, p, e, x, cons), lambda: kgf.gamma(a, p, e, x, cons),
                  lambda: kgc.apex_from_constants(o.a, *cons), lambda: kg.energy(a, p, e, x),
                  lambda: [float(g(0.3)) for g in kgs.stable_trajectory(a, p, e, x)], lambda: kgc.scale_constants(cons, 2.0, 3.0)]
        elif "p" in c:
            P, U = o.initial_position, o.initial_velocity
            fs = [lambda: kg.constants_from_initial_conditions(o.a, P, U), lambda: kgi.is_stable(o.a, P, U),
                  lambda: kgi.stable_orbit_initial_phases(o.a, P, U)]
        else:
            a, E, L, Q = (c[n] for n in "aELQ")
            P, U = o.initial_position, o.initial_velocity
            fs = [lambda: kg.plunging_mino_frequencies(a, E, L, Q), lambda: kgc.plunging_radial_roots(a, E, L, Q),
                  lambda: kgi.plunging_orbit_initial_phases(a, P, U), lambda: kgi.is_stable(a, P, U),
                  lambda: [float(g(0.3)) for g in kgp.plunging_trajectory(a, E, L, Q)]]
        record(("module", i, m % len(fs)), fs[m % len(fs)](), "module function")

    for op in k["ops"]:
        step(op, True)
        for i, o in enumerate(objs):
            now = public(o)
            for n, v in snap[i].items():
                ctx.check(f"attribute {n} unchanged by {op['op']}", n in now and same(now[n], v), f"{now.get(n)!r} instead of {v!r}")
        ctx.check("floating-point error handling untouched", np.geterr() == err, repr(np.geterr()))
        st2 = np.random.get_state()
        ctx.check("random state untouched", st2[0] == rng[0] and np.array_equal(st2[1], rng[1]) and st2[2:] == rng[2:], "")
        ctx.check("warning filters untouched", list(warnings.filters) == filters, "")
        ctx.check("plotting settings untouched", dict(matplotlib.rcParams) == rc, "")
        ctx.check("settings of numpy and random untouched", np.get_printoptions() == prints and random.getstate() == rng2, "")
    # the same history again, in reverse order, and from several threads at once
    n = len(handles)
    for op in reversed(k["ops"]):
        if op["op"] not in ("plot", "eval"):
            step(op, None)
    if k["threads"]:
        ops = [op for op in k["ops"] if op["op"] not in ("plot", "eval", "remake")] * 2
        with ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(_quiet, step, op) for op in ops]:
                f.result()
        ctx.label("threads")
    for key, fs in handles:
        record(key + ("made",), [float(g(0.7)) for g in fs], "a component evaluated at the end")
        for j, l in enumerate(LAM):
            if key + (j,) in memo:
                record(key + (j,), [float(g(l)) for g in fs], "a component evaluated at the end")
    ctx.label(*{c["kind"] for _, c in Rs}, *{op["op"] for op in k["ops"]}, f"{len(objs)} orbits")
    if n == 0 and len(k["ops"]) < 5:
        ctx.is_trivial()


def _quiet(step, op):
    with np.errstate(all="ignore"):
        step(op, None)


# calls on parameters which agree in all but one place
STABLE_FNS = sorted(fresh.STABLE) + sorted(fresh.BOTH) + fresh.METHODS
PLUNGE_FNS = sorted(fresh.PLUNGE) * 3 + ["metric", "horizons"] + fresh.METHODS
FIELDS = ["a", "p", "e", "x", "E", "L", "Q", "phases", "lam", "M", "mu", "other", "du", "tu", "cu", "state", "none"]


@st.composite
def s_twins(draw):
    k = draw(s_obj())
    k.pop("d", None)
    k["state"] = k.pop("kind").startswith("ic")
    k["lam"] = gen.U(draw, -2, 2)
    k["other"] = [0.5, gen.U(draw, 0, 6), gen.U(draw, 0, 6), 0.1]
    k["M"], k["mu"] = gen.LOG(draw, 0, 6), gen.LOG(draw, 0, 2)
    k.update(du="natural", tu="natural", cu="natural")
    fns = STABLE_FNS if "p" in k else PLUNGE_FNS
    fn = draw(gen.oneof(fns))
    calls = [{"fn": fn, "k": dict(k)}]
    for _ in range(draw(st.integers(1, 4))):
        t = dict(k if draw(st.booleans()) else calls[-1]["k"])
        f = draw(gen.oneof([f for f in FIELDS if f in t or f == "none"]))
        if f in ("phases", "other"):
            i = draw(st.integers(0, 3))
            t[f] = list(t[f])
            t[f][i] += sign_log(draw)
        elif f in ("du", "tu", "cu"):
            t[f] = draw(gen.oneof({"du": ["mks", "cgs", "au", "km", "natural"], "tu": ["mks", "cgs", "days", "natural"],
                                   "cu": ["mks", "cgs", "natural"]}[f]))
        elif f == "state":
            t[f] = not t[f]
        elif f != "none":
            how = draw(gen.oneof(["near", "near", "near", "sign", "far"]))
            if how == "near":
                t[f] *= 1 + sign_log(draw)
            elif how == "sign" and f in ("a", "x", "L", "lam"):
                t[f] = -t[f]
            else:
                t[f] *= gen.U(draw, 0.5, 1.1)
        if draw(gen.oneof([True, True, False])):
            fn = draw(gen.oneof(fns))
        calls.append({"fn": fn, "k": t})
    return {"calls": calls}


def sign_log(draw):
    return gen.sign(draw) * gen.LOG(draw, -10, -0.5)


def alike(x, y):
    """the same numbers up to rounding"""
    if isinstance(x, list) or isinstance(y, list):
        return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(alike(u, v) for u, v in zip(x, y))
    if isinstance(x, float) and isinstance(y, float):
        return x == y or (x != x and y != y) or abs(x - y) <= 1e-12 * max(abs(x), abs(y))
    return x == y


def run_twins(ctx, k):
    """every call of a history gives what it gives in a process which has made no other call"""
    got = []
    for i, c in enumerate(k["calls"]):
        got.append(fresh.evaluate(c))
        w = fresh.fresh(c)
        ctx.check(f"{c['fn']} as in a new process", alike(got[-1], w),
                  f"call {i + 1} of {len(k['calls'])} gives {str(got[-1])[:200]} instead of {str(w)[:200]}")
    ctx.label(*{c["fn"] for c in k["calls"]}, *{g[0] for g in got}, "stable" if "p" in k["calls"][0]["k"] else "plunging")
    if all(g[0] != "value" for g in got):
        ctx.is_trivial()


PROPS = [
    dict(id="P25", rule="stable, plunging and initial-condition orbits; arrays of shapes () (0,) (1,) (3,) (6,) (2,3) (1,3) (2,1,2) (1500,) "
         "(41,29), ascending, descending, repeated, of integers, not contiguous or read-only; integers and numpy scalars. Non-trivial: every distinct case.",
         oracles=[dict(name="arrays", strategy=s_arr(), run=run_arrays, n=1200)]),
    dict(id="P26", rule="histories of 4-24 operations on 1-3 orbits (21 kinds: trajectories, velocities, deltas, evaluations of "
         "functions obtained earlier, units, frequencies, module functions, plots, construction again, calls which fail), replayed in reverse and "
         "on a quarter of the histories concurrently from 4 threads; `twins`: 2-5 calls of the public functions on parameters which "
         "differ in one place (by 1e-10..1, in sign, in units), each compared with the same call in a process that made no other. "
         "Non-trivial: at least 5 operations or one function obtained; twins: a call that returned a value.",
         oracles=[dict(name="history", strategy=s_history(), run=run_history, n=640),
                  dict(name="twins", strategy=s_twins(), run=run_twins, n=800)]),
]
