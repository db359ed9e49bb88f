"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []  # claimed
NA = []  # not applicable: (entry, reason)


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), note="", na=None):
    e = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": w} for a, b, w in state],
            "mechanism": [{"name": a, "where": w} for a, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }
    (NA.append((e, na)) if na else P.append((e, note)))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

TECH = "symbolic execution of the kasa sources with z3 (all paths within bounds), counterexamples replayed on the real package"
COMMON = (
    "Every assertion is decided by z3 for all values of the symbolic inputs on every path within the bounds printed in the "
    "evidence; floats are treated as exact rationals, text as 8-bit characters; the environment (socket, HTTP session, clock, "
    "device) is a stand-in written in /verif; counterexamples are only reported after they reproduce on the uninstrumented package. "
)


def main():
    ids = [e["id"] for e, _ in P + NA]
    assert len(ids) == len(set(ids)), "duplicate ids"
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for e, _ in sorted(P + NA, key=lambda x: x[0]["id"]):
            assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
            fh.write(json.dumps(e, ensure_ascii=False) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./check --selftest",
        "checks": [
            {
                "property": e["id"],
                "quick_cmd": f"./check {e['id']} quick",
                "thorough_cmd": f"./check {e['id']} thorough",
                "evidence_file": f"evidence/{e['id']}.json",
                "technique": TECH,
                "level": "other",
                "level_note": (COMMON + note).strip(),
            }
            for e, note in sorted(P, key=lambda x: x[0]["id"])
        ],
        "not_applicable": [{"property": e["id"], "reason": r} for e, r in NA],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1, ensure_ascii=False)
        fh.write("\n")


main()
