"""Calls of the package described as data, evaluated in this process or in a
process which has made no other call (forked from one that only imported it)."""
import json
import os
import struct
import subprocess
import sys

import numpy as np


def _flat(v):
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, (tuple, list)):
        return [_flat(x) for x in v]
    if isinstance(v, np.ndarray):
        return [_flat(x) for x in v] if v.ndim else _flat(v.item())
    if isinstance(v, (complex, np.complexfloating)):
        return ["complex", float(v.real), float(v.imag)]
    return float(v)


def _orbit(k):
    """the orbit object a description asks for"""
    import kerrgeopy as kg
    ph, M, mu = tuple(k["phases"]), k.get("M"), k.get("mu")
    if "p" in k:
        o = kg.StableOrbit(k["a"], k["p"], k["e"], k["x"], ph, M, mu)
    else:
        o = kg.PlungingOrbit(k["a"], k["E"], k["L"], k["Q"], ph, M, mu)
    if k.get("state"):
        o = kg.Orbit(o.a, o.initial_position, o.initial_velocity, M, mu)
    return o


def _cons(k):
    import kerrgeopy as kg
    return kg.constants_of_motion(k["a"], k["p"], k["e"], k["x"])


def _methods(k, fn):
    o, l = _orbit(k), k["lam"]
    if fn == "attributes":
        return [[n, v] for n, v in sorted(vars(o).items()) if not n.startswith("_") and isinstance(v, (bool, int, float, tuple, list, np.floating))]
    if fn == "trajectory_units":
        return [f(l) for f in o.trajectory(distance_units=k["du"], time_units=k["tu"])]
    if fn == "constants_units":
        return o.constants_of_motion(k["cu"])
    if fn == "frequencies_units":
        return [o.mino_frequencies(k["cu"]), o.fundamental_frequencies(k["cu"])] if hasattr(o, "mino_frequencies") else 0
    if fn == "trajectory_other":
        return [f(l) for f in o.trajectory(tuple(k["other"]))]
    if fn == "velocity_other":
        return [f(l) for f in o.four_velocity(tuple(k["other"]))]
    if fn == "visible":
        return o.is_visible([[3.0, 0.1, 0.2], [-3.0, 0.1, 0.2], [-1.5, 1.2, -2.0]], 30 + 10 * l, 5 * l)
    return [f(l) for f in getattr(o, fn)()]


STABLE = {
    "constants_of_motion": lambda kg, kgc, k: kg.constants_of_motion(*_apex(k)),
    "energy": lambda kg, kgc, k: kg.energy(*_apex(k)),
    "angular_momentum": lambda kg, kgc, k: kg.angular_momentum(*_apex(k)),
    "carter_constant": lambda kg, kgc, k: kg.carter_constant(*_apex(k)),
    "separatrix": lambda kg, kgc, k: kg.separatrix(abs(k["a"]), k["e"], k["x"]),
    "is_stable": lambda kg, kgc, k: kg.is_stable(abs(k["a"]), k["p"], k["e"], k["x"]),
    "r_frequency": lambda kg, kgc, k: kg.r_frequency(*_apex(k)),
    "theta_frequency": lambda kg, kgc, k: kg.theta_frequency(*_apex(k)),
    "phi_frequency": lambda kg, kgc, k: kg.phi_frequency(*_apex(k)),
    "gamma": lambda kg, kgc, k: kg.gamma(*_apex(k)),
    "mino_frequencies": lambda kg, kgc, k: kg.mino_frequencies(*_apex(k)),
    "fundamental_frequencies": lambda kg, kgc, k: kg.fundamental_frequencies(*_apex(k)),
    "stable_radial_roots": lambda kg, kgc, k: kgc.stable_radial_roots(*_apex(k)),
    "stable_polar_roots": lambda kg, kgc, k: kgc.stable_polar_roots(*_apex(k)),
    "apex_from_constants": lambda kg, kgc, k: kgc.apex_from_constants(k["a"], *_cons(k)),
    "from_constants": lambda kg, kgc, k: list(vars(kg.StableOrbit.from_constants(k["a"], *_cons(k))).values()),
}
PLUNGE = {
    "plunging_radial_roots": lambda kg, kgc, k: kgc.plunging_radial_roots(k["a"], k["E"], k["L"], k["Q"]),
    "plunging_mino_frequencies": lambda kg, kgc, k: kg.plunging_mino_frequencies(k["a"], k["E"], k["L"], k["Q"]),
}
BOTH = {
    "metric": lambda kg, kgc, k: kg.KerrSpacetime(k["a"]).metric(0, 3.3 + k["lam"] ** 2, 1.0, 0.2),
    "norm": lambda kg, kgc, k: kg.KerrSpacetime(k["a"]).norm(0, 3.3 + k["lam"] ** 2, 1.0, 0.2, [1.0, 0.1, 0.2, 0.3]),
    "horizons": lambda kg, kgc, k: sorted((n, v) for n, v in vars(kg.KerrSpacetime(k["a"])).items() if n[0] != "_"),
    "fast_separatrix": lambda kg, kgc, k: kgc.fast_separatrix(abs(k["a"]), 0.2)(0.3, 0.4),
}
METHODS = ["attributes", "trajectory", "four_velocity", "numerical_four_velocity", "trajectory_deltas", "trajectory_units",
           "constants_units", "frequencies_units", "trajectory_other", "velocity_other", "visible"]


def _apex(k):
    return k["a"], k["p"], k["e"], k["x"]


def evaluate(call):
    """[kind, result] of a call {"fn":, "k":}"""
    import kerrgeopy as kg
    from kerrgeopy import constants as kgc
    fn, k = call["fn"], call["k"]
    table = {**BOTH, **(STABLE if "p" in k else PLUNGE)}
    try:
        with np.errstate(all="ignore"):
            v = table[fn](kg, kgc, k) if fn in table else _methods(k, fn)
        return ["value", _flat(v)]
    except Exception as ex:  # noqa: BLE001
        return ["raises", type(ex).__name__]


# ---------------------------------------------------------------------------
_servers = {}


def fresh(call):
    """evaluate(call) in a process of its own"""
    pid = os.getpid()
    if pid not in _servers:
        _servers.clear()
        _servers[pid] = subprocess.Popen(
            [sys.executable, "-W", "ignore", os.path.abspath(__file__), *[p for p in sys.path if p]],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    s = _servers[pid]
    data = json.dumps(call).encode()
    try:
        s.stdin.write(struct.pack("<I", len(data)) + data)
        s.stdin.flush()
        n = struct.unpack("<I", s.stdout.read(4))[0]
        return json.loads(s.stdout.read(n))
    except BaseException:
        _servers.pop(pid).kill()  # (an answer to this question must not be taken for one to the next)
        raise


def _serve():
    import kerrgeopy  # noqa: F401  (imported, never called, in this process)
    src, dst = os.fdopen(0, "rb"), os.fdopen(1, "wb")
    while True:
        h = src.read(4)
        if len(h) < 4:
            return
        call = json.loads(src.read(struct.unpack("<I", h)[0]))
        r, w = os.pipe()
        child = os.fork()
        if child == 0:
            try:
                os.close(r)
                with os.fdopen(w, "wb") as f:
                    f.write(json.dumps(evaluate(call)).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            out = f.read() or b'["died", null]'
        os.waitpid(child, 0)
        dst.write(struct.pack("<I", len(out)) + out)
        dst.flush()


if __name__ == "__main__":
    sys.path[:0] = sys.argv[1:]
    try:
        _serve()
    except (BrokenPipeError, KeyboardInterrupt):
        pass  # the check which asked is gone
    os._exit(0)
