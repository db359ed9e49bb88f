"""Writes DESIGN.md from tools/design_head.md, the property list, the checks and seeded/."""

import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import findings  # noqa: E402


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    claimed = {c["property"] for c in man["checks"]}
    oracle = {}
    exec(open(os.path.join(HERE, "tools", "oracles.py")).read(), {"O": oracle})
    seeds = {}
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        seeds[os.path.basename(os.path.dirname(m))] = d
    res = {}
    rp = os.path.join(HERE, "tools", "seed_results.json")
    if os.path.exists(rp):
        res = json.load(open(rp))
    cost = {}
    cp = os.path.join(HERE, "tools", "costs.json")
    if os.path.exists(cp):
        cost = json.load(open(cp))
    o = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
    for p in props:
        i = p["id"]
        o.append(f"### {i} {p['title']}")
        o.append("")
        o.append(p["statement"])
        o.append("")
        if i not in claimed:
            na = [x for x in man["not_applicable"] if x["property"] == i]
            o += [f"Not applicable: {na[0]['reason'] if na else ''}", ""]
            continue
        f = glob.glob(os.path.join(HERE, "checks", i + "_*.py"))[0]
        k = consts(f)
        o.append(f"- Check: `checks/{os.path.basename(f)}`; code: {', '.join('`' + x + '`' for x in p['anchors']['files'])}")
        o.append(f"- Decided for: {k['BOUNDS']}.")
        o.append(f"- Outside: {k['OUTSIDE']}.")
        o.append(f"- Oracle: {oracle.get(i, 'stated in the check from the documented behaviour, independent of the implementation')}.")
        o.append(f"- Why tests do not settle it: {p['why_tests_cant']}")
        if i in cost:
            o.append(f"- Cost (8 cores): {cost[i]}.")
        o.append("")
    o += ["## Findings", ""]
    for e in findings.entries():
        if e["status"] == "fixed":
            o.append(f"- fixed, {e['property']}, {e['commit']}: {e['what']}")
        else:
            o.append(f"- known, {e['property']}, {e['id']}: {e['what']}")
    o += ["", "## Planted bugs", "", "| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    for s, d in seeds.items():
        o.append(f"| {s} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {res.get(s, 'not run yet')} |")
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(o) + "\n")


main()
