"""Retry contract of a query, for the IOT, SMART and SMARTCAM protocols."""

from __future__ import annotations

import asyncio

import sim
from engine.ctx import acatch

BOUNDS = (
    "retry budgets 0..R (quick R=3, thorough R=5) and every sequence of R+2 per-attempt outcomes from "
    "{success, connection error, retryable error, timeout, authentication error, other library error, device "
    "error} for the legacy, SMART and camera protocols, plus an already exhausted or still healthy transport"
)
OUTSIDE = "exceptions that are not library exceptions (the transports map those; see C02, C14)"
WITNESSES = ["success", "success-after-retry", "gave-up", "final-error", "backoff"]
QUICK_S, THOROUGH_S = 60, 600

OUT = ["ok", "conn", "retry", "timeout", "auth", "kasa", "device"]
FINAL = {"ok", "auth", "kasa", "device"}


def contract(c, kind, budget):
    from kasa import exceptions as E
    from kasa.protocols import IotProtocol, SmartProtocol
    from kasa.protocols.smartcamprotocol import SmartCamProtocol

    seq = []
    raised = []

    def mk(o, i):
        if o == "conn":
            return E._ConnectionError("c")
        if o == "retry":
            return E._RetryableError("r")
        if o == "timeout":
            return E.TimeoutError("t")
        if o == "auth":
            return E.AuthenticationError("a")
        if o == "kasa":
            return E.KasaException("k")
        return E.DeviceError("d", error_code=E.SmartErrorCode.PARAMS_ERROR)

    times = []

    def handler(req):
        i = len(seq)
        times.append(asyncio.get_running_loop().time())
        o = c.choice(f"attempt{i}", OUT) if i <= budget else "ok"
        seq.append(o)
        if o == "ok":
            if kind == "iot":
                return {"system": {"n": i}}
            if kind == "smart":
                return {"result": {"n": i}, "error_code": 0}
            return {"system": {"n": i}, "error_code": 0}
        ex = mk(o, i)
        raised.append(ex)
        raise ex

    t = sim.make_transport(handler)
    p = {"iot": IotProtocol, "smart": SmartProtocol, "cam": SmartCamProtocol}[kind](transport=t)
    req = {"iot": {"system": {"get": {}}}, "smart": {"get_x": {"a": 1}}, "cam": {"get": {"system": {"name": ["n"]}}}}[kind]

    async def go():
        return await acatch(p.query(req, retry_count=budget))

    o = c.run(go())
    # oracle
    exp = None
    for i in range(budget + 1):
        if i >= len(seq):
            c.fail("a retryable failure is retried while budget remains", lambda: (seq, repr(o)))
            return
        if seq[i] in FINAL:
            exp = i
            break
    n = (exp if exp is not None else budget) + 1
    c.check(len(seq) == n, "attempts stop at the first final outcome and never exceed the budget", lambda: (seq, budget))
    if len(seq) != n:
        return
    if exp is not None and seq[exp] == "ok":
        want = {"iot": {"system": {"n": exp}}, "smart": {"get_x": {"n": exp}}, "cam": {"get": {"system": {"n": exp}}}}[kind]
        c.check(o.ok and o.value == want, "the successful response is returned", lambda: repr(o))
        c.reach("success-after-retry" if exp else "success")
    else:
        c.check(o.exc is raised[-1], "the last failure is what the caller sees", lambda: repr(o))
        c.reach("final-error" if exp is not None else "gave-up")
    failures = [s for s in seq if s not in ("ok", "conn")]
    c.check(t.resets == len(failures), "the transport is reset after each protocol failure and only then", lambda: (seq, t.resets))
    for a in range(n - 1):
        if seq[a] == "timeout" or (kind != "iot" and seq[a] == "retry"):
            c.check(times[a + 1] - times[a] >= 1, "a retry after a timeout backs off first")
            c.reach("backoff")


def scenarios(tier):
    R = 3 if tier == "quick" else 5
    return [(f"{k}-budget{b}", contract, {"kind": k, "budget": b}) for k in ("iot", "smart", "cam") for b in range(R + 1)]
