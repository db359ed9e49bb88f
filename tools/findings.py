"""Writes known_findings.jsonl: python3 tools/findings.py

FIXED: (property, commit subject) - the commit id is looked up in /repo.
KNOWN: genuine defects that are recorded, not repaired; `id` is what checks name.
"""

import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = []
KNOWN = []
exec(open(os.path.join(HERE, "tools", "findings_data.py")).read())


def entries():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    by = {s.split(" ", 1)[1]: s.split(" ", 1)[0] for s in log}
    out = []
    for prop, subj, what in FIXED:
        c = by.pop(f"fix: {subj}")
        out.append({"property": prop, "status": "fixed", "commit": c, "what": what, "line": f"fixed: property={prop} {c} {what}"})
    left = [s for s in by if s.startswith("fix:")]
    assert not left, left
    for k in KNOWN:
        out.append({**k, "status": "known"})
    return out


if __name__ == "__main__":
    with open(os.path.join(HERE, "known_findings.jsonl"), "w") as fh:
        for e in entries():
            fh.write(json.dumps(e, ensure_ascii=False) + "\n")
