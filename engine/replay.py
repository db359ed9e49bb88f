"""replay.py <file.json>: run a recorded counterexample on the real kasa."""

from __future__ import annotations

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import run  # noqa: E402


def main():
    d = json.load(open(sys.argv[1]))
    sys.path.insert(0, run.REPO)
    run.quiet()
    sys.modules["kasa_crypt"] = None
    import kasa  # noqa: F401

    run.load_known()
    mod = run.load_check(d["property"])
    run.import_all()
    from engine.hook import StateKeeper

    keeper = StateKeeper()
    for s in run.scenarios(mod, d.get("tier", "quick")):
        if s[0] == d["scenario"]:
            r = run.run_concrete(s, d["inputs"], d.get("tier", "quick"), keeper)
            print(json.dumps(r, indent=1, default=str))
            sys.exit(1 if r["failures"] else 0)
    sys.exit("scenario not found")


if __name__ == "__main__":
    main()
