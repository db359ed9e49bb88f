"""Multi-request splitting: every requested method answered exactly once."""

from __future__ import annotations

import sim
from engine.ctx import acatch, sym_eq

BOUNDS = (
    "queries of n methods (quick n<=5, thorough n<=7) with a batch size chosen from 1..n+1 by configuration; for every "
    "method the solver picks how the device treats it: a result (symbolic value), success without a result, an error, dropped "
    "from the batch reply, or a reply lacking its name; the device may also stop a batch at the first error; some methods "
    "may be ones that must never be batched; the whole batch may be rejected as undecodable once"
)
OUTSIDE = "more methods than the bound (the splitting loop is uniform in n)"
WITNESSES = ["all", "requery", "forced-single", "fallback", "batch-size-1", "stopped"]
QUICK_S, THOROUGH_S = 60, 700
SINGLE = "scanApList"


def split(c, kind, n, size, forced=False, fallback=False, stop=False, lite=False):
    from kasa import Credentials, DeviceConfig
    from kasa.exceptions import SmartErrorCode
    from kasa.protocols import SmartProtocol
    from kasa.protocols.smartcamprotocol import SmartCamProtocol

    modes = ["value", "none", "error"] + ([] if stop else ["drop", "noname"])
    if lite:
        modes = ["value", "error"] + ([] if stop else ["drop"])
    names = [f"getM{i}" for i in range(n)]
    if forced:
        names[c.pick("forcedpos", n)] = SINGLE
    behave = {m: c.choice(f"mode-{i}", modes) for i, m in enumerate(names)}
    params = {m: ({"p": {"i": i}} if kind == "cam" or (i % 2 == 0 if lite else c.bool(f"params{i}")) else None) for i, m in enumerate(names)}
    vals = {m: c.int(f"val{i}", -5, 5) for i, m in enumerate(names)}
    batches, singles = [], []
    state = {"rejected": False}

    def ans(m, as_single=False):
        b = behave[m]
        if b == "error":
            return {"method": m, "error_code": -1301}
        if b == "none":
            return {"method": m, "error_code": 0}
        return {"method": m, "error_code": 0, "result": {"v": vals[m]}}

    def handler(r):
        if r["method"] == "multipleRequest":
            reqs = r["params"]["requests"]
            batches.append([q["method"] for q in reqs])
            for q in reqs:
                c.check(q.get("params") == params[q["method"]], "each method keeps its own parameters", lambda: (q, params))
            if fallback and not state["rejected"]:
                state["rejected"] = True
                return {"error_code": -1003}
            out = []
            for q in reqs:
                m = q["method"]
                if behave[m] == "drop":
                    continue
                a = ans(m)
                if behave[m] == "noname":
                    del a["method"]
                out.append(a)
                if stop and behave[m] == "error":
                    c.reach("stopped")
                    break
            return {"error_code": 0, "result": {"responses": out}}
        m = r["method"]
        singles.append(m)
        c.check(r.get("params") == params[m], "a single request keeps its parameters")
        a = ans(m, True)
        a.pop("method")
        return a

    cfg = DeviceConfig("127.0.0.1", credentials=Credentials("a", "b"), batch_size=size)
    t = sim.make_transport(handler, config=cfg)
    p = (SmartProtocol if kind == "smart" else SmartCamProtocol)(transport=t)

    async def go():
        return await acatch(p.query(dict(params)))

    o = c.run(go())
    c.check(o.ok, "a batched query succeeds whatever its members answer", lambda: (repr(o), behave))
    if not o.ok:
        return
    c.check(set(o.value) == set(names), "every requested method is answered, and no other", lambda: (repr(o), names))
    for m in names:
        if m not in o.value:
            return
        got = o.value[m]
        if behave[m] == "error":
            c.check(isinstance(got, SmartErrorCode) and sym_eq(got, -1301), "a failed method is reported as its error code", lambda: (m, repr(o)))
        elif behave[m] == "none":
            c.check(got is None, "a method without result is None", lambda: (m, repr(o)))
        else:
            c.check(sym_eq(got, {"v": vals[m]}), "a method's result is its own", lambda: (m, repr(o)))
    c.check(all(0 < len(b) <= size for b in batches), "batches are non-empty and within the size limit", lambda: (batches, size))
    c.check(not any(SINGLE in b for b in batches), "unbatchable methods are never batched", lambda: batches)
    if size == 1:
        c.check(not batches, "batch size one means no batches", lambda: batches)
        c.reach("batch-size-1")
    if fallback and batches:
        c.check(len(batches) == 1, "batching stays off after an undecodable batch", lambda: batches)
        c.reach("fallback")
    else:
        for m in names:
            seen = sum(b.count(m) for b in batches)
            if behave[m] not in ("drop", "noname") and not stop:
                c.check(seen + singles.count(m) == 1, "an answered method is sent exactly once", lambda: (m, batches, singles))
            c.check(seen <= 1 and singles.count(m) <= 1, "no method is sent twice the same way", lambda: (m, batches, singles))
    if singles:
        c.reach("forced-single" if SINGLE in singles else "requery")
    if n == len(names):
        c.reach("all")


def scenarios(tier):
    N, L = (3, 5) if tier == "quick" else (4, 7)
    out = []
    for kind in ("smart", "cam"):
        for n in range(2, L + 1):
            lite = n >= N
            for size in range(1, n + 2):
                if n >= N and size not in (1, 2, n - 1, n):
                    continue
                a = {"kind": kind, "n": n, "size": size, "lite": lite}
                out.append((f"{kind}-n{n}-size{size}", split, a))
                if n <= L - 1:
                    out.append((f"{kind}-n{n}-size{size}-forced", split, {**a, "forced": True}))
                out.append((f"{kind}-n{n}-size{size}-stop", split, {**a, "stop": True}))
            out.append((f"{kind}-n{n}-fallback", split, {"kind": kind, "n": n, "size": n, "fallback": True, "lite": lite}))
    return out
