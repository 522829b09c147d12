"""Replays a reported counterexample on the unmodified code.

    /opt/venv/bin/python -m sx.replay FILE      (in /verif)
"""

import importlib
import json
import sys

from . import conc


def main(path):
    with open(path) as f:
        r = json.load(f)
    conc.setup(r["openssl"], r.get("points", False))
    m = importlib.import_module("props." + r["module"])
    res = conc.run_one(m.HARNESSES[r["harness"]].fn, r["params"],
                       r["assignment"])
    print(json.dumps(res, indent=1))
    return 1 if res["violations"] else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
