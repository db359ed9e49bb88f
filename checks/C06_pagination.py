"""Paged list results are completed, in order, without loss or duplication."""

from __future__ import annotations

import sim
from engine.ctx import acatch

BOUNDS = (
    "device lists of up to N entries (quick N=4, thorough N=8), the announced total any value 0..N+2, every page 0..3 "
    "entries long as the device pleases; single requests, members of a multi-request, methods re-queried individually, "
    "and disabled batching, on the SMART and camera protocols; list results with no list in them"
)
OUTSIDE = "lists that change between pages"
WITNESSES = ["one-page", "many-pages", "empty-page", "short"]
QUICK_S, THOROUGH_S = 60, 600


def paged(c, kind, n):
    from kasa import Credentials, DeviceConfig
    from kasa.protocols import SmartProtocol
    from kasa.protocols.smartcamprotocol import SmartCamProtocol

    cam = kind.startswith("cam")
    total = c.int("sum", 0, n + 2)
    items = [{"device_id": f"d{i}"} for i in range(n)]
    method = "getChildDeviceList" if cam else "get_child_device_list"
    starts = []
    st = {"empty": False, "batches": 0}

    def page(params):
        if cam:
            (mod, inner), = params.items()
            c.check(mod == "childControl", "the next page is asked from the same module", lambda: params)
            s = inner["start_index"]
        else:
            s = (params or {}).get("start_index", 0)
        c.check(s not in starts[1:], "no page is asked twice", lambda: (starts, s))
        if s in starts[1:]:
            raise RuntimeError("no end to the pages")
        starts.append(s)
        k = min(c.pick(f"page{len(starts)}", 4), n - s)
        if k <= 0:
            k = 0
            st["empty"] = True
        return {"child_device_list": [dict(x) for x in items[s : s + k]], "start_index": s, "sum": total, "other": "kept"}

    def one(m, params):
        if m == method:
            return {"method": m, "error_code": 0, "result": page(params)}
        return {"method": m, "error_code": 0, "result": {"v": m}}

    def handler(r):
        if r["method"] == "multipleRequest":
            st["batches"] += 1
            out = []
            for q in r["params"]["requests"]:
                if kind.endswith("requery") and st["batches"] == 1 and q["method"] == method:
                    continue
                out.append(one(q["method"], q.get("params")))
            return {"error_code": 0, "result": {"responses": out}}
        return one(r["method"], r.get("params"))

    size = 1 if kind.endswith("nobatch") else None
    cfg = DeviceConfig("127.0.0.1", credentials=Credentials("a", "b"), batch_size=size)
    p = (SmartCamProtocol if cam else SmartProtocol)(transport=sim.make_transport(handler, config=cfg))
    par = {"childControl": {"start_index": 0}} if cam else {"start_index": 0}
    req = {method: par}
    if not kind.endswith("single"):
        req["getOther"] = {"x": {}}

    async def go():
        return await acatch(p.query(req))

    o = c.run(go())
    c.check(o.ok, "a paged query completes", lambda: repr(o))
    if not o.ok:
        return
    got = o.value[method]
    lst = got["child_device_list"]
    c.check(lst == items[: len(lst)], "entries are in order, none lost or duplicated", lambda: lst)
    c.check(got["other"] == "kept" and got["sum"] == total, "the other result fields are the first page's")
    c.check(starts[0] == 0 and len(set(starts[1:])) == len(starts[1:]), "no page is asked twice", lambda: starts)
    if not kind.endswith("single"):
        c.check(o.value["getOther"] == {"v": "getOther"}, "other methods keep their results")
    if len(lst) < n and not (st["empty"] and len(starts) > 1):
        c.check(total <= len(lst), "the list is only shorter when the device announced no more", lambda: (lst, starts))
        c.reach("short")
    elif st["empty"]:
        c.reach("empty-page")
    c.reach("many-pages" if len(starts) > 1 else "one-page")


def nolist(c, kind):
    """start_index/sum without any list, or an ordinary result, is passed through."""
    from kasa.protocols import SmartProtocol

    res = c.choice("res", [{"start_index": 0, "sum": 3}, {"start_index": 0}, {"sum": 3, "x": [1]}, {"start_index": 0, "sum": 1, "x": [1]}])
    multi = c.bool("multi")
    sends = []

    def handler(r):
        sends.append(1)
        if r["method"] == "multipleRequest":
            return {"error_code": 0, "result": {"responses": [{"method": q["method"], "error_code": 0, "result": dict(res)} for q in r["params"]["requests"]]}}
        return {"error_code": 0, "result": dict(res)}

    p = SmartProtocol(transport=sim.make_transport(handler))
    req = {"get_a": None, "get_b": None} if multi else {"get_a": None}

    async def go():
        return await acatch(p.query(req))

    o = c.run(go())
    c.check(o.ok and o.value["get_a"] == res, "results that are not paged lists are untouched", lambda: repr(o))
    c.check(len(sends) == 1, "no further page is asked")


def scenarios(tier):
    N = 4 if tier == "quick" else 8
    out = [
        (f"{k}-n{n}", paged, {"kind": k, "n": n})
        for k in ("smart-single", "smart-multi", "smart-requery", "smart-nobatch", "cam-single", "cam-multi", "cam-requery", "cam-nobatch")
        for n in (0, 1, 2, N)
    ]
    return out + [("nolist", nolist, {"kind": "smart"})]
