import argparse
import importlib
import os
import sys
import traceback

from . import harness

MODULES = ["constants_p", "frequencies_p", "stable_p", "plunge_p", "initial_p", "spacetime_p", "units_p", "api_p", "plot_p", "blocks_p", "types_p"]


def load(want=None):
    props, extra = {}, []
    for m in MODULES:
        mod = importlib.import_module("kgcheck.props." + m)
        for p in mod.PROPS:
            if p["id"] in props:
                raise harness.HarnessError("duplicate property " + p["id"])
            props[p["id"]] = dict(p, oracles=list(p["oracles"]))
        extra.append(getattr(mod, "EXTRA", {}))
    for e in extra:
        for pid, oracles in e.items():
            props[pid]["oracles"] += oracles
    return props


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    args = ap.parse_args()
    try:
        props = load()
        if args.list:
            for p in props.values():
                print(p["id"], [(o["name"], o["n"]) for o in p["oracles"]])
            return 0
        if args.replay:
            return harness.replay(props, args.replay)
        return harness.run_property(props[args.property], args.tier, args.seed, args.workers)
    except harness.HarnessError as ex:
        print("HARNESS ERROR:", ex, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
