"""One query at a time per connection; every caller gets its own reply."""

from __future__ import annotations

import asyncio

import sim
from engine.ctx import acatch

BOUNDS = (
    "M concurrent callers on one protocol (quick M=3, thorough M=4), each sending 1-2 requests, over the legacy, SMART, "
    "camera protocols and child wrappers sharing their parent's protocol; at every quiescent point the solver picks which "
    "event comes next: the outstanding exchange completes, fails with a retryable error, fails with a device error, or any "
    "one caller is cancelled (at most C cancellations/failures, quick C=2, thorough C=3)"
)
OUTSIDE = "preemption between threads (the library is single threaded asyncio)"
WITNESSES = ["all-served", "cancelled-in-flight", "cancelled-waiting", "failed", "serialized"]
QUICK_S, THOROUGH_S = 60, 700


def race(c, kind, m, faults, first):
    from kasa import exceptions as E
    from kasa.protocols import IotProtocol, SmartProtocol
    from kasa.protocols.smartcamprotocol import SmartCamProtocol, _ChildCameraProtocolWrapper
    from kasa.protocols.smartprotocol import _ChildProtocolWrapper

    pending = []  # (future, owner)
    order = []
    state = {"inflight": 0, "overlap": False}

    def owner(req):
        if kind == "iot":
            return req["sys"]["get"]["who"]
        if req["method"] == "multipleRequest":
            r = req["params"]["requests"][0]
            if r["method"] == "controlChild":
                return r["params"]["childControl"]["request_data"]["params"]["who"]
            return r["params"]["who"]
        if req["method"] == "control_child":
            return req["params"]["requestData"]["params"]["who"]
        return req["params"]["who"]

    def reply(req):
        w = owner(req)
        if kind == "iot":
            return {"sys": {"get": {"who": w}}}
        if req["method"] == "multipleRequest":
            out = []
            for r in req["params"]["requests"]:
                if r["method"] == "controlChild":
                    out.append({"method": "controlChild", "error_code": 0, "result": {"response_data": {"error_code": 0, "result": {"who": w}}}})
                else:
                    out.append({"method": r["method"], "error_code": 0, "result": {"who": r["params"]["who"]}})
            return {"error_code": 0, "result": {"responses": out}}
        if req["method"] == "control_child":
            return {"error_code": 0, "result": {"responseData": {"error_code": 0, "result": {"who": w}}}}
        return {"error_code": 0, "result": {"who": w}}

    async def handler(req):
        state["inflight"] += 1
        if state["inflight"] > 1:
            state["overlap"] = True
        w = owner(req)
        order.append(w)
        f = asyncio.get_running_loop().create_future()
        pending.append((f, w))
        try:
            act = await f
        finally:
            state["inflight"] -= 1
            pending.remove((f, w))
        if act == "retry":
            raise E._RetryableError("r")
        if act == "fail":
            raise E.DeviceError("d", error_code=E.SmartErrorCode.PARAMS_ERROR)
        return reply(req)

    t = sim.make_transport(handler)
    if kind == "iot":
        p = IotProtocol(transport=t)
    elif kind.startswith("cam"):
        p = SmartCamProtocol(transport=t)
    else:
        p = SmartProtocol(transport=t)

    async def caller(i):
        if kind == "iot":
            r = await p.query({"sys": {"get": {"who": i}}})
            return r["sys"]["get"]["who"] == i
        if kind == "smart":
            r = await p.query({"get_x": {"who": i}})
            return r["get_x"]["who"] == i
        if kind == "smart-multi":
            r = await p.query({f"get_{j}": {"who": i} for j in range(7)})
            return all(r[f"get_{j}"]["who"] == i for j in range(7))
        if kind == "cam":
            r = await p.query({"getX": {"who": i}})
            return r["getX"]["who"] == i
        if kind == "cam-child":
            q = p if i == 0 else _ChildCameraProtocolWrapper(f"C{i}", p)
            r = await q.query({"getX": {"who": i}})
            return r["getX"]["who"] == i
        if kind == "child":
            q = p if i == 0 else _ChildProtocolWrapper(f"C{i}", p)
            r = await q.query({"get_x": {"who": i}})
            return r["get_x"]["who"] == i

    async def go():
        nonlocal faults
        tasks = []
        served, cancelled, failed = set(), set(), set()
        for i in range(m):
            tasks.append(asyncio.ensure_future(acatch(caller(i))))
        step = 0
        while not all(x.done() for x in tasks):
            for _ in range(12):
                await asyncio.sleep(0)
            if all(x.done() for x in tasks):
                break
            if not pending:
                await asyncio.sleep(1.01)  # a retry backoff
                for _ in range(12):
                    await asyncio.sleep(0)
                if not pending and not all(x.done() for x in tasks):
                    c.fail("waiting callers always make progress", lambda: order)
                    return
                continue
            step += 1
            if step > 40:
                c.fail("callers are served in bounded steps")
                return
            alive = [i for i in range(m) if not tasks[i].done()]
            acts = [("ok", 0)]
            if faults > 0:
                acts += [("retry", 0), ("fail", 0)] + [("cancel", i) for i in alive]
            if step == 1 and first is not None:
                if first >= len(acts):
                    return
                a, i = acts[first]
            else:
                a, i = c.choice("event", acts)
            f, w = pending[0]
            if a == "cancel":
                faults -= 1
                c.reach("cancelled-in-flight" if i == w else "cancelled-waiting")
                cancelled.add(i)
                tasks[i].cancel()
            else:
                if a != "ok":
                    faults -= 1
                if a == "fail":
                    failed.add(w)
                    c.reach("failed")
                f.set_result(a)
        c.check(not state["overlap"], "at most one exchange is outstanding on a connection", lambda: order)
        for i in range(m):
            if tasks[i].cancelled():
                o = None
            else:
                o = tasks[i].result()
            if i in cancelled:
                if o is not None and o.ok:
                    c.check(o.value, "own reply")
                else:
                    c.check(o is None or o.raised(asyncio.CancelledError), "a cancelled caller sees its cancellation", lambda: repr(o))
            elif i in failed:
                c.check(o is not None and o.raised(E.DeviceError), "a device error reaches its caller", lambda: repr(o))
            else:
                c.check(o is not None and o.ok and o.value, "every caller gets the reply to its own request", lambda: (i, repr(o)))
        # one query's exchanges are not interleaved with another query's
        runs = [order[k] for k in range(len(order)) if k == 0 or order[k] != order[k - 1]]
        c.check(len(runs) == len(set(runs)), "the exchanges of one query are not interleaved", lambda: order)
        c.reach("serialized")
        if not cancelled and not failed:
            c.reach("all-served")

    c.run(go())


def scenarios(tier):
    m, f = (3, 2) if tier == "quick" else (4, 3)
    return [
        (f"{k}-first{a}", race, {"kind": k, "m": m, "faults": f, "first": a})
        for k in ("iot", "smart", "smart-multi", "cam", "child", "cam-child")
        for a in range(3 + m)
    ]
