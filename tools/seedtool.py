"""Planted bugs: python3 tools/seedtool.py build|check|tests|all [ids...]

Definitions in tools/seeds_data.py; writes seeded/<id>/ and tools/seed_results.json.
"""

import json
import os
import shutil
import subprocess
import sys
import textwrap
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/seedwork"
PY = "/opt/venv/bin/python"
SEEDS = {}


def S(id, prop, breaks, needs, edits, demo):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, breaks=breaks, needs=needs, edits=edits, demo=textwrap.dedent(demo).lstrip())


exec(open(os.path.join(HERE, "tools", "seeds_data.py")).read())


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def copy(n):
    d = f"{WORK}/{n}"
    if not os.path.isdir(d):
        os.makedirs(WORK, exist_ok=True)
        sh("cp", "-a", "/repo", d)
    sh("git", "-C", d, "checkout", "-q", "--", ".")
    head = sh("git", "-C", "/repo", "rev-parse", "HEAD").stdout.strip()
    if sh("git", "-C", d, "rev-parse", "HEAD").stdout.strip() != head:
        shutil.rmtree(d)
        return copy(n)
    return d


def demo(sid, tree):
    r = sh("bash", os.path.join(HERE, "seeded", sid, "demo.sh"), cwd=tree, timeout=300, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
    return r.returncode, (r.stdout + r.stderr)[-600:]


def build(sid, n="b"):
    s = SEEDS[sid]
    t = copy(n)
    for f, old, new in s["edits"]:
        p = os.path.join(t, f)
        x = open(p).read()
        if x.count(old) != 1:
            return f"{sid}: old text occurs {x.count(old)} times in {f}"
        open(p, "w").write(x.replace(old, new))
    diff = sh("git", "-C", t, "diff").stdout
    d = os.path.join(HERE, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(s["demo"])
    shutil.copy(os.path.join(HERE, "tools", "demolib.py"), d)
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here" exec /opt/venv/bin/python "$here/demo.py"\n')
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    bad = demo(sid, t)
    sh("git", "-C", t, "checkout", "-q", "--", ".")
    good = demo(sid, t)
    if good[0] != 0:
        return f"{sid}: demo fails on the clean tree: {good[1]}"
    if bad[0] == 0:
        return f"{sid}: demo passes with the patch"
    return f"{sid}: built ({bad[1].strip().splitlines()[-1][:110] if bad[1].strip() else ''})"


def apply(sid, n):
    t = copy(n)
    r = sh("git", "-C", t, "apply", os.path.join(HERE, "seeded", sid, "patch.diff"))
    return t, r


def check(sid, props=None, n="c"):
    t, r = apply(sid, n)
    if r.returncode:
        return [], f"does not apply: {r.stderr}"
    caught, odd = [], []
    for p in props or [SEEDS[sid]["prop"]]:
        r = sh("./check", p, "quick", cwd=HERE, env={**os.environ, "KASA_REPO": t})
        if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout:
            caught.append(p)
        elif r.returncode != 0:
            odd.append((p, r.returncode, (r.stdout + r.stderr)[-300:]))
    sh("git", "-C", t, "checkout", "-q", "--", ".")
    return caught, str(odd) if odd else ""


def tests(sid, n):
    t, r = apply(sid, n)
    if r.returncode:
        return f"{sid}: does not apply"
    env = {**os.environ, "PYTHONPATH": t, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "TZ": "UTC", "LANG": "C.UTF-8"}
    r = sh(PY, "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "-p", "no:sugar", "--timeout=60", cwd=t, env=env)
    tail = [x for x in r.stdout.splitlines() if x.startswith(("FAILED", "ERROR"))][:5] + r.stdout.strip().splitlines()[-1:]
    sh("git", "-C", t, "checkout", "-q", "--", ".")
    return f"{sid}: " + " | ".join(x[:150] for x in tail)


def main():
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    ids = ids or list(SEEDS)
    rp = os.path.join(HERE, "tools", "seed_results.json")
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    if cmd in ("build", "all"):
        for i in ids:
            print(build(i), flush=True)
    if cmd in ("check", "all"):
        for i in ids:
            c, odd = check(i)
            res[i] = ", ".join(c) if c else "MISSED"
            print(i, SEEDS[i]["prop"], res[i], odd, flush=True)
            json.dump(dict(sorted(res.items())), open(rp, "w"), indent=1)
    if cmd in ("tests", "all"):
        with ThreadPoolExecutor(2) as ex:
            q = list(enumerate(ids))
            for line in ex.map(lambda a: tests(a[1], f"t{a[0] % 2}") if False else None, []):
                pass
            lanes = [q[0::2], q[1::2]]

            def lane(k):
                for _, i in lanes[k]:
                    print(tests(i, f"t{k}"), flush=True)

            list(ex.map(lane, [0, 1]))


if __name__ == "__main__":
    main()
