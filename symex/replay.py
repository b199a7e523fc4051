"""Replay witnesses on the real, un-instrumented code.

    replay.py FILE        one replay file written by a check; exit 1 if the violation reproduces
    replay.py --batch     a batch on stdin (used by the driver)
"""

import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup(prop):
    sys.dont_write_bytecode = True
    sys.path[0] = HERE  # instead of the directory of this script
    from symex import run, schedule

    run.setup_paths()
    if prop in schedule.SWITCHING:
        schedule.install_plain()
    importlib.import_module(f"props.{prop.lower()}")
    run.check_origin()


def run_item(prop, tier, it):
    from symex import ctx as C
    from symex import harness as H

    h = H.find(prop, it["harness"])
    params = h.shard_list(tier)[it["shard"]]
    c = C.ConcreteCtx(it["witness"])
    r = {"violation": None, "discard": None, "error": None, "obs": None, "cover": None}
    try:
        h.fn(c, **params)
    except C.Violation as exc:
        r["violation"] = str(exc)
    except C.Discard as exc:
        r["discard"] = str(exc) or "discard"
    except Exception as exc:  # noqa: BLE001
        r["error"] = "".join(traceback.format_exception(exc))[-1500:]
    r["obs"] = c.observations
    r["cover"] = sorted(c.covered)
    return r


def main():
    if sys.argv[1] == "--batch":
        data = json.load(sys.stdin)
        out = sys.stdout
        sys.stdout = sys.stderr
        setup(data["property"])
        res = [run_item(data["property"], data["tier"], it) for it in data["items"]]
        out.write(json.dumps(res) + "\n")
        return 0
    it = json.load(open(sys.argv[1]))
    try:
        setup(it["property"])
    except Exception as exc:  # noqa: BLE001
        print(f"reproduced: property={it['property']} the scenarios cannot be set up: {type(exc).__name__}: {exc}")
        return 1
    if it["kind"] == "setup":
        return 0
    r = run_item(it["property"], it.get("tier", "quick"), it)
    if r["violation"] or r["error"]:
        print(f"reproduced: property={it['property']} {r['violation'] or r['error']}")
        return 1
    print(f"not reproduced: {r}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
