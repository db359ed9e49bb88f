"""Requests to a child device reach that child; its replies come back under their methods."""

from __future__ import annotations

import sim
from engine.ctx import And, Not, Or, acatch, sym_eq

BOUNDS = (
    "a hub or strip with three children; one to three (quick) / five (thorough) methods per query with any integer "
    "parameter and result values, an error code in [-50000, 50000] for the envelope or for one member; up to two lost "
    "connections before the answer; SMART control_child and camera controlChild envelopes; batch members answered in any order; queries for two children "
    "and the parent in any order"
)
OUTSIDE = "children that answer a different number of requests than they were sent"
WITNESSES = ["refused", "single", "batch", "envelope-error", "member-error", "retried", "two-children", "reordered"]
QUICK_S, THOROUGH_S = 60, 400

KIDS = ["KID_A", "KID_B", "KID_C"]
RETRYABLE = {1002, 1112, -1001, 9999, -40401, -40413}
AUTH = {-1501, 1111, -1005, 1100, 1003, -40412}


def isin(e, s):
    return Or(*[e == x for x in sorted(s)])


class Peer:
    def __init__(self, kind, val, member_code=None, env_code=0, drop=0):
        self.kind, self.val = kind, val
        self.member_code = member_code or (lambda t, m: 0)
        self.env_code = env_code
        self.drop = drop
        self.calls: list = []
        self.sends = 0

    def one(self, target, rd):
        m = rd["method"]
        if m == "multipleRequest":
            out = []
            for q in rd["params"]["requests"]:
                r = self.one(target, q)
                r["method"] = q["method"]
                out.append(r)
            return {"error_code": 0, "result": {"responses": out}}
        self.calls.append((target, m, rd.get("params")))
        code = self.member_code(target, m)
        return {"error_code": code, "result": {"v": self.val(target, m)}}

    def handle(self, r):
        from kasa.exceptions import _ConnectionError

        self.sends += 1
        if self.sends <= self.drop:
            raise _ConnectionError("lost")
        return self.answer(r)

    def answer(self, r):
        m = r["method"]
        if m == "multipleRequest" and self.kind == "cam":
            out = []
            for q in r["params"]["requests"]:
                x = self.answer(q)
                x["method"] = q["method"]
                out.append(x)
            return {"error_code": 0, "result": {"responses": out}}
        if m == "control_child":
            if not self.env_code == 0:
                return {"error_code": self.env_code}
            return {"error_code": 0, "result": {"responseData": self.one(r["params"]["device_id"], r["params"]["requestData"])}}
        if m == "controlChild":
            if not self.env_code == 0:
                return {"error_code": self.env_code}
            cc = r["params"]["childControl"]
            return {"error_code": 0, "result": {"response_data": self.one(cc["device_id"], cc["request_data"])}}
        return self.one(None, r)


def make(kind, peer):
    from kasa.protocols import SmartProtocol
    from kasa.protocols.smartcamprotocol import SmartCamProtocol, _ChildCameraProtocolWrapper
    from kasa.protocols.smartprotocol import _ChildProtocolWrapper

    t = sim.make_transport(peer.handle)
    if kind == "cam":
        p = SmartCamProtocol(transport=t)
        return t, p, {k: _ChildCameraProtocolWrapper(k, p) for k in KIDS}
    p = SmartProtocol(transport=t)
    return t, p, {k: _ChildProtocolWrapper(k, p) for k in KIDS}


def routing(c, kind, n, form="dict"):
    """n methods to one child; any parameters."""
    vals = {}
    names = [f"getM{i}" for i in range(n)]
    for k in KIDS:
        for m in names:
            vals[k, m] = c.int(f"val_{k}_{m}", -1000, 1000)
    args = [c.int(f"arg{i}", -1000, 1000) for i in range(n)]
    has = [c.choice(f"has{i}", ["value", "empty", "none"]) if kind == "smart" else "value" for i in range(n)]
    drop = c.choice("drop", [0, 1, 2])
    peer = Peer(kind, lambda t, m: vals[t, m], drop=drop)
    kid = c.choice("kid", KIDS)
    params = [{"x": a} if h == "value" else ({} if h == "empty" else None) for a, h in zip(args, has)]
    req = {m: p for m, p in zip(names, params)} if form == "dict" else names[0]
    retries = c.choice("retries", [0, 1, 3])

    async def go():
        t, p, w = make(kind, peer)
        return await acatch(w[kid].query(req, retry_count=retries))

    o = c.run(go())
    if drop > retries:
        from kasa.exceptions import _ConnectionError

        c.check(o.raised(_ConnectionError), "the retry budget of a child query is the caller's", lambda: repr(o))
        c.check(peer.sends == retries + 1, "the retry budget of a child query is the caller's", lambda: peer.sends)
        return
    c.check(o.ok, "an answered child query succeeds", lambda: repr(o))
    if drop:
        c.reach("retried")
    c.check(peer.sends == drop + 1, "one exchange for a child query", lambda: peer.sends)
    c.check([t for t, _, _ in peer.calls] == [kid] * n, "only the addressed child is asked", lambda: peer.calls)
    c.check([m for _, m, _ in peer.calls] == names, "every method is asked once", lambda: peer.calls)
    for i, (_, _, p) in enumerate(peer.calls):
        if form == "dict" and has[i] == "value":
            c.check(p is not None and set(p) == {"x"} and sym_eq(p["x"], args[i]), "a child request keeps its own parameters", lambda: peer.calls)
        else:
            c.check(not p, "a child request without parameters stays without", lambda: peer.calls)
    c.check(set(o.value) == set(names), "an entry for every method asked", lambda: repr(o))
    c.check(And(*[sym_eq(o.value[m], {"v": vals[kid, m]}) for m in names]), "each method has its own child's result", lambda: repr(o))
    c.reach("single" if n == 1 else "batch")


def envelope(c, kind, n):
    """The parent refuses to forward (child unknown, offline, busy...)."""
    from kasa import exceptions as E

    e = c.int("code", -50000, 50000)
    peer = Peer(kind, lambda t, m: 1, env_code=e)
    names = [f"getM{i}" for i in range(n)]

    async def go():
        t, p, w = make(kind, peer)
        return await acatch(w["KID_A"].query({m: {"x": 1} for m in names}, retry_count=0))

    o = c.run(go())
    if e == 0:
        c.check(o.ok, "a forwarded request succeeds", lambda: repr(o))
        return
    c.reach("envelope-error")
    known = {int(x) for x in E.SmartErrorCode}
    if n > 1 and kind == "cam":
        c.check(o.ok, "an unforwarded member is an error of that method only", lambda: repr(o))
        for m in names:
            got = o.value.get(m)
            c.check(isinstance(got, E.SmartErrorCode), "an unforwarded member is reported by its error code", lambda: repr(o))
            c.check(Or(sym_eq(got, e), And(Not(isin(e, known)), sym_eq(got, -100_000))), "an unforwarded member is reported by its error code", lambda: repr(o))
        return
    c.check(o.raised(E.DeviceError), "a request the parent does not forward is a device error", lambda: repr(o))
    c.check(o.raised(E.AuthenticationError) if isin(e, AUTH) else not o.raised(E.AuthenticationError), "credential codes of the envelope")
    ec = o.exc.error_code
    c.check(Or(sym_eq(ec, e), And(Not(isin(e, known)), sym_eq(ec, -100_000))), "the error carries the parent's code", lambda: (repr(o), repr(ec)))


def one_member(c, kind, n):
    """One member fails: the others keep their results, in any position."""
    from kasa.exceptions import SmartErrorCode

    bad = c.pick("bad", n)
    e = c.int("code", -50000, 50000)
    c.assume(Not(e == 0))
    names = [f"getM{i}" for i in range(n)]
    vals = {m: c.int(f"val_{m}", -1000, 1000) for m in names}
    peer = Peer(kind, lambda t, m: vals[m], member_code=lambda t, m: e if m == names[bad] else 0)

    async def go():
        t, p, w = make(kind, peer)
        return await acatch(w["KID_B"].query({m: {"x": 1} for m in names}, retry_count=0))

    o = c.run(go())
    c.check(o.ok, "a member's error does not hide the others", lambda: repr(o))
    c.check(set(o.value) == set(names), "an entry for every method asked", lambda: repr(o))
    for i, m in enumerate(names):
        if i == bad:
            c.check(isinstance(o.value[m], SmartErrorCode), "the failing member is an error code", lambda: repr(o))
        else:
            c.check(sym_eq(o.value[m], {"v": vals[m]}), "the other members keep their results", lambda: repr(o))
    c.reach("member-error")


def refusal(c, kind):
    """The child itself refuses a single request, with or without a (partial) result."""
    from kasa.exceptions import DeviceError, SmartErrorCode, _RetryableError

    e = c.int("code", -50000, 50000)
    partial = c.choice("result", ["none", "null", "empty", "data"])
    peer = Peer(kind, lambda t, m: 1)

    def one(target, rd):
        r = {"error_code": e}
        if partial != "none":
            r["result"] = {"null": None, "empty": {}, "data": {"v": 1}}[partial]
        return r

    peer.one = one

    async def go():
        t, p, w = make(kind, peer)
        return await acatch(w["KID_A"].query({"getM0": {"x": 1}}, retry_count=0))

    o = c.run(go())
    if e == 0:
        want = {"data": {"v": 1}, "empty": {}}.get(partial)
        c.check(o.ok and (o.value["getM0"] == want or not want), "an accepted request succeeds", lambda: (partial, repr(o)))
        return
    c.check(o.raised(DeviceError, _RetryableError), "a request the child refuses is an error, whatever comes with it", lambda: (partial, repr(o)))
    c.reach("refused")


def reordered(c, n):
    """A child may answer the members of a batch in any order."""
    names = [f"getM{i}" for i in range(n)]
    vals = {m: c.int(f"val_{m}", -1000, 1000) for m in names}
    order = []
    left = list(range(n))
    while left:
        order.append(left.pop(c.pick("next", len(left))))
    peer = Peer("smart", lambda t, m: vals[m])
    one = peer.one

    def shuffled(target, rd):
        r = one(target, rd)
        if rd["method"] == "multipleRequest":
            rs = r["result"]["responses"]
            r["result"]["responses"] = [rs[i] for i in order]
        return r

    peer.one = shuffled

    async def go():
        t, p, w = make("smart", peer)
        return await acatch(w["KID_B"].query({m: {"x": 1} for m in names}))

    o = c.run(go())
    c.check(o.ok and set(o.value) == set(names), "an entry for every method asked", lambda: repr(o))
    if o.ok:
        c.check(And(*[sym_eq(o.value[m], {"v": vals[m]}) for m in names]), "each method has its own result", lambda: repr(o))
    c.reach("reordered")


def several(c, kind):
    """Two children and the parent asked the same method in any order, concurrently or not."""
    order = c.choice("order", [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)])
    conc = c.choice("concurrent", [False, True])
    vals = {k: c.int(f"val_{k}", -1000, 1000) for k in [None, *KIDS]}
    args = [c.int(f"arg{i}", -1000, 1000) for i in range(3)]
    peer = Peer(kind, lambda t, m: vals[t])
    targets = [None, KIDS[0], KIDS[1]]

    async def go():
        import asyncio

        t, p, w = make(kind, peer)

        async def ask(i):
            q = p if targets[i] is None else w[targets[i]]
            return await acatch(q.query({"getA": {"x": args[i]}, "getB": {"x": args[i]}}))

        if conc:
            return await asyncio.gather(*[ask(i) for i in order])
        return [await ask(i) for i in order]

    rs = c.run(go())
    for i, o in zip(order, rs):
        v = vals[targets[i]]
        c.check(o.ok, "every query succeeds", lambda: repr(o))
        c.check(sym_eq(o.value, {"getA": {"v": v}, "getB": {"v": v}}), "each caller gets the reply of the device it asked", lambda: repr(o))
    for i in range(3):
        got = [p["x"] for t, _, p in peer.calls if t == targets[i]]
        c.check(len(got) == 2 and And(*[sym_eq(g, args[i]) for g in got]), "each device gets its own parameters", lambda: peer.calls)
    c.reach("two-children")


def close_kids(c, kind):
    """Closing a child's connection leaves the shared one open."""
    peer = Peer(kind, lambda t, m: 1)

    async def go():
        t, p, w = make(kind, peer)
        await w["KID_A"].close()
        a = t.closes
        o = await acatch(w["KID_B"].query({"getA": {"x": 1}}))
        return a, o

    a, o = c.run(go())
    c.check(a == 0, "closing a child does not close its parent's connection")
    c.check(o.ok, "other children keep working", lambda: repr(o))


def scenarios(tier):
    N = 3 if tier == "quick" else 4
    out = [(f"route-{k}-{n}", routing, {"kind": k, "n": n}) for k in ("smart", "cam") for n in range(1, N + 1)]
    out += [("route-str", routing, {"kind": "smart", "n": 1, "form": "str"})]
    out += [(f"envelope-{k}-{n}", envelope, {"kind": k, "n": n}) for k in ("smart", "cam") for n in (1, 2, 3)]
    out += [(f"member-{k}-{n}", one_member, {"kind": k, "n": n}) for k in ("smart", "cam") for n in range(2, N + 2)]
    out += [(f"reordered-{n}", reordered, {"n": n}) for n in range(2, N + 1)]
    out += [(f"several-{k}", several, {"kind": k}) for k in ("smart", "cam")]
    out += [(f"close-{k}", close_kids, {"kind": k}) for k in ("smart", "cam")]
    return [(f"refusal-{k}", refusal, {"kind": k}) for k in ("smart", "cam")] + out
