"""Property-check runner: Hypothesis-driven generated search, sharded over
processes, with shrinking, replay files and measured evidence."""
import hashlib
import json
import math
import multiprocessing
import os
import signal
import sys
import time
import traceback

import numpy as np
from hypothesis import HealthCheck, Phase, Verbosity, given, seed, settings
from hypothesis.errors import UnsatisfiedAssumption

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KG_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "kerrgeopy") + os.sep


class Violation(Exception):
    """The property does not hold on this case."""


class Reject(Exception):
    """The case is outside the domain (not counted)."""


class HarnessError(Exception):
    """The machinery itself failed (exit 2, never a violation)."""


class Hang(Exception):
    pass


def _jsonable(v):
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [_jsonable(x) for x in v]
    if isinstance(v, dict):
        return {k: _jsonable(x) for k, x in v.items()}
    return v


class Ctx:
    """Collects labels, margins and the verdict of one case."""

    def __init__(self):
        self.labels = []
        self.trivial = False
        self.margins = {}
        self.evals = 0

    def label(self, *names):
        self.labels.extend(names)

    def is_trivial(self):
        self.trivial = True

    # -- verdicts ---------------------------------------------------------
    def fail(self, name, msg):
        raise Violation(f"{name}: {msg}")

    def check(self, name, cond, msg=""):
        self.evals += 1
        if not bool(cond):
            raise Violation(f"{name}: {msg}")

    def close(self, name, got, want, tol, info=""):
        """|got - want| <= tol (tol scalar or array, already scaled)"""
        self.evals += 1
        try:
            g = np.asarray(got)
            if g.dtype == object:
                g = g.astype(float)
            if np.iscomplexobj(g):
                if np.any(np.imag(g) != 0):
                    raise Violation(f"{name}: complex result {got!r} {info}")
                g = np.real(g)
            g = g.astype(float)
        except (TypeError, ValueError) as ex:
            raise Violation(f"{name}: not a number: {got!r} ({ex})")
        w = np.asarray(want, float)
        if not np.all(np.isfinite(w)):
            # (the reference model is finite wherever it accepts a case: this value came from the package)
            raise Violation(f"{name}: got {got!r}, compared with {want!r} {info}")
        if g.shape != w.shape:
            try:
                np.broadcast_shapes(g.shape, w.shape)
            except ValueError:
                raise Violation(f"{name}: shape {g.shape} instead of {w.shape}")
        t = np.asarray(tol, float)
        if not np.all(np.isfinite(t)):
            raise Violation(f"{name}: got {got!r}, expected {want!r}, tolerance {tol!r} {info}")
        ratio = np.abs(g - w) / t
        if ratio.size == 0:
            return
        i = int(np.argmax(np.where(np.isnan(ratio), np.inf, ratio)))
        m = float(ratio.flat[i])
        if not m <= 1.0:
            gg, ww, tt = (np.broadcast_to(v, ratio.shape).flat[i] for v in (g, w, t))
            raise Violation(f"{name}: got {gg!r}, expected {ww!r} (tolerance {tt:.3g}, "
                            f"error/tolerance {m:.3g}) {info}")
        if m > self.margins.get(name, -1):
            self.margins[name] = m

    def same(self, name, got, want, info=""):
        """exact equality of floats / tuples of floats (nan == nan)"""
        self.evals += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w, equal_nan=(g.dtype.kind in "fc" and w.dtype.kind in "fc")):
            raise Violation(f"{name}: got {got!r}, expected {want!r} {info}")

    def raises(self, name, exc, fn, *args, **kw):
        self.evals += 1
        try:
            out = fn(*args, **kw)
        except exc:
            return
        except (Hang, Reject, HarnessError):
            raise
        except Exception as ex:  # noqa: BLE001
            raise Violation(f"{name}: raised {type(ex).__name__}({ex}) instead of {_excname(exc)}")
        raise Violation(f"{name}: returned {out!r} instead of raising {_excname(exc)}")


def _excname(exc):
    return "/".join(e.__name__ for e in exc) if isinstance(exc, tuple) else exc.__name__


def _in_pkg(tb):
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(PKG):
            return True
        tb = tb.tb_next
    return False


UNUSABLE = (AttributeError, TypeError, ValueError, LookupError, ArithmeticError)


def _in_oracle(tb):
    """whether the reference model or a generator raised, rather than the comparison itself"""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if os.path.basename(f) in ("ref.py", "gen.py", "fresh.py") or "mpmath" in f or "hypothesis" in f:
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise Hang()


CASE_LIMIT = float(os.environ.get("KG_CASE_LIMIT", "60"))


def run_case(oracle, case):
    """Run one case; returns Ctx, raises Violation / Reject / HarnessError."""
    ctx = Ctx()
    # the limit is on processor time, so that a busy machine is no alarm; waiting for nothing is caught by the clock
    limit = oracle.get("limit", CASE_LIMIT)
    old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, 5 * limit)
    try:
        with np.errstate(all="ignore"):
            oracle["run"](ctx, case)
    except (Violation, Reject, HarnessError, UnsatisfiedAssumption):
        raise
    except Hang:
        raise Violation(f"no result within {limit} s")
    except Exception as ex:  # noqa: BLE001
        if _in_pkg(ex.__traceback__) or getattr(ex, "name", None) == "kerrgeopy" or (
                isinstance(ex, AttributeError) and getattr(getattr(ex, "obj", None), "__name__", "").startswith("kerrgeopy")):
            last = traceback.extract_tb(ex.__traceback__)[-1]
            raise Violation(f"raised {type(ex).__name__}: {ex} (at {os.path.basename(last.filename)}:{last.name})")
        if isinstance(ex, UNUSABLE) and not _in_oracle(ex.__traceback__):
            # what the package returned could not be compared: not a number, not of the documented shape, ...
            last = traceback.extract_tb(ex.__traceback__)[-1]
            raise Violation(f"result that cannot be used: {type(ex).__name__}: {ex} (at {os.path.basename(last.filename)}:{last.lineno})")
        raise HarnessError("".join(traceback.format_exception(ex)))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])
    return ctx


class Stats:
    def __init__(self):
        self.n = 0
        self.rejected = 0
        self.hashes = set()
        self.labels = {}
        self.margins = {}
        self.samples = []
        self.evals = 0
        self.per_oracle = {}

    def add(self, oname, case, ctx):
        self.n += 1
        self.per_oracle[oname] = self.per_oracle.get(oname, 0) + 1
        self.evals += ctx.evals
        for l in set(ctx.labels):
            self.labels[l] = self.labels.get(l, 0) + 1
        for k, v in ctx.margins.items():
            if v > self.margins.get(k, (-1,))[0]:
                self.margins[k] = (v, case)
        if not ctx.trivial:
            h = hashlib.blake2b((oname + json.dumps(case, sort_keys=True)).encode(), digest_size=8).digest()
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 3 or (len(self.hashes) % 211 == 0 and len(self.samples) < 6):
                    self.samples.append({"oracle": oname, "labels": sorted(set(ctx.labels)), **case})


SHRINK_S = 30.0


def _worker(prop, wid, nworkers, tier, base_seed, scale, budget_s, queue):
    try:
        stats = Stats()
        viol = None
        t0 = time.time()
        for oracle in prop["oracles"]:
            n = oracle["n"] * scale
            k = max(1, int(math.ceil(n / nworkers)))
            last = {}

            def body(case):
                if time.time() - t0 > budget_s and "case" not in last:
                    return
                if "t" in last and time.time() - last["t"] > SHRINK_S:
                    return
                case = _jsonable(case)
                try:
                    ctx = run_case(oracle, case)
                except (Reject, UnsatisfiedAssumption):
                    stats.rejected += 1
                    from hypothesis import reject
                    reject()
                except Violation as v:
                    last.setdefault("t", time.time())
                    last["case"], last["msg"] = case, str(v)
                    raise
                stats.add(oracle["name"], case, ctx)

            sd = int.from_bytes(hashlib.blake2b(
                f"{base_seed}/{prop['id']}/{oracle['name']}/{wid}".encode(), digest_size=7).digest(), "big")
            test = seed(sd)(settings(
                max_examples=k, deadline=None, database=None, derandomize=False,
                phases=(Phase.generate, Phase.shrink), verbosity=Verbosity.quiet,
                suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                print_blob=False)(given(oracle["strategy"])(body)))
            try:
                test()
            except HarnessError:
                raise
            except BaseException as ex:  # noqa: BLE001
                if "case" not in last:
                    if type(ex).__name__ == "Unsatisfiable":
                        raise HarnessError(f"no valid cases generated for {oracle['name']}")
                    raise
            if "case" in last:
                viol = {"property": prop["id"], "oracle": oracle["name"], "case": last["case"],
                        "message": last["msg"], "seed": base_seed, "tier": tier}
                break
        queue.put(("ok", wid, stats, viol))
    except BaseException as ex:  # noqa: BLE001
        queue.put(("err", wid, "".join(traceback.format_exception(ex)), None))


def _write_replay(v):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps(v["case"], sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, f"{v['property']}-{v['oracle']}-{h}.json")
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    return path


def _corpus(pid):
    path = os.path.join(ROOT, "corpus", pid + ".jsonl")
    if os.path.exists(path):
        with open(path) as f:
            return [json.loads(line) for line in f if line.strip()]
    return []


def _known(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def report(v):
    path = _write_replay(v)
    print(f"{v['property']} [{v['oracle']}] {v['message']}")
    print("case: " + json.dumps(v["case"], sort_keys=True))
    print(f"VIOLATION property={v['property']} replay={path}", flush=True)


# cheap properties run this many times the cases given with their oracles
QUICK = dict(P01=3, P02=2, P03=3, P05=3, P06=3, P07=3, P08=2.5, P09=3, P10=2, P11=4, P12=1.5, P13=4, P17=3, P18=2, P20=1.5, P22=3,
             P23=2, P25=2, P26=2, P27=1.5, P28=3, P29=1.25, P30=3)


def run_property(prop, tier, base_seed, nworkers=8):
    t0 = time.time()
    scale = QUICK.get(prop["id"], 1) if tier == "quick" else prop.get("thorough_scale", 20)
    stats = Stats()
    viol = None
    oracles = {o["name"]: o for o in prop["oracles"]}

    # known findings: probe exactly the listed inputs
    for k in _known(prop["id"]):
        o = oracles.get(k["oracle"])
        if o is None:
            raise HarnessError(f"known finding names unknown oracle {k['oracle']}")
        try:
            run_case(o, k["case"])
        except Violation:
            print(f"KNOWN-FINDING: property={prop['id']} {k['what']}")

    # committed regression corpus (shrunk cases of repaired defects and planted bugs)
    for c in _corpus(prop["id"]):
        o = oracles.get(c["oracle"])
        if o is None:
            raise HarnessError(f"corpus names unknown oracle {c['oracle']}")
        try:
            ctx = run_case(o, c["case"])
            stats.add(o["name"], c["case"], ctx)
        except Reject:
            pass
        except Violation as v:
            viol = {"property": prop["id"], "oracle": o["name"], "case": c["case"], "message": str(v),
                    "seed": base_seed, "tier": tier}
            break

    if viol is None:
        budget = 420.0 if tier == "quick" else 3000.0
        q = multiprocessing.get_context("fork").Queue()
        ps = [multiprocessing.get_context("fork").Process(
            target=_worker, args=(prop, w, nworkers, tier, base_seed, scale, budget, q))
            for w in range(nworkers)]
        for p in ps:
            p.start()
        errs = []
        left = nworkers
        while left:
            try:
                kind, wid, a, b = q.get(timeout=2)
            except Exception:
                if not any(p.is_alive() for p in ps) and q.empty():
                    errs.append("a worker died without reporting: exit codes "
                                + str([p.exitcode for p in ps]))
                    break
                continue
            left -= 1
            if kind == "err":
                errs.append(a)
                continue
            stats.n += a.n
            stats.rejected += a.rejected
            stats.evals += a.evals
            stats.hashes |= a.hashes
            for k, v in a.labels.items():
                stats.labels[k] = stats.labels.get(k, 0) + v
            for k, v in a.per_oracle.items():
                stats.per_oracle[k] = stats.per_oracle.get(k, 0) + v
            for k, v in a.margins.items():
                if v[0] > stats.margins.get(k, (-1,))[0]:
                    stats.margins[k] = v
            stats.samples += a.samples[: max(0, 8 - len(stats.samples))]
            if b is not None:
                viol = b
                break
        for p in ps:
            if p.is_alive() and (viol is not None or errs):
                p.terminate()
            p.join(20)
            if p.is_alive():
                p.kill()
        if viol is None and errs:
            raise HarnessError("\n".join(errs[:2]))

    ev = {
        "property": prop["id"], "tier": tier, "seed": base_seed, "level": "exploration",
        "coverage": {
            "evaluations": stats.n,
            "distinct_nontrivial": len(stats.hashes),
            "rule": prop["rule"],
            "samples": stats.samples[:8],
            "rejected": stats.rejected,
            "comparisons": stats.evals,
            "cases_per_oracle": stats.per_oracle,
            "classes": dict(sorted(stats.labels.items())),
            "largest_error_over_tolerance": {k: float(f"{v[0]:.3g}") for k, v in sorted(stats.margins.items())},
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 0 if viol is None else 1,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{prop['id']}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", prop["id"] + ".json"))
    if os.environ.get("KG_MARGINS"):
        for k, v in sorted(stats.margins.items(), key=lambda t: -t[1][0]):
            print(f"  margin {k}: {v[0]:.3g}  {json.dumps(v[1])[:300]}")
    if viol is not None:
        report(viol)
        return 1
    print(f"{prop['id']} held on {stats.n} cases ({len(stats.hashes)} distinct non-trivial, "
          f"{stats.evals} comparisons) in {ev['wall_s']} s")
    return 0


def replay(props, path):
    with open(path) as f:
        v = json.load(f)
    prop = props[v["property"]]
    o = {o["name"]: o for o in prop["oracles"]}[v["oracle"]]
    try:
        run_case(o, v["case"])
    except Violation as ex:
        print(f"{v['property']} [{v['oracle']}] {ex}")
        print(f"VIOLATION property={v['property']} replay={path}")
        return 1
    print("replay: property holds on this case")
    return 0
