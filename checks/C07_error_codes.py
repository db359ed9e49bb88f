"""Device error codes are classified the same way everywhere, never swallowed."""

from __future__ import annotations

import sim
from engine.ctx import And, Not, Or, acatch, sym_eq

BOUNDS = (
    "the error_code of a response is any integer in [-200000, 200000] (plus a missing code), for single requests, "
    "whole batches, members of a batch, and responses wrapped for a child, on the SMART and camera protocols; of answers to 12 legacy commands, at the service or at the command"
)
OUTSIDE = "error_code values that are not integers"
WITNESSES = ["success", "retried", "auth", "device-error", "unknown-code", "member-error", "child-error", "legacy success", "legacy error"]
QUICK_S, THOROUGH_S = 60, 600

# documented meaning of the codes (numbers, not names, so the table cannot follow a change)
RETRYABLE = {1002, 1112, -1001, 9999, -40401, -40413}
AUTH = {-1501, 1111, -1005, 1100, 1003, -40412}
MALFORMED_BATCH = {-1003, -100_000}


def isin(e, s):
    return Or(*[e == x for x in sorted(s)])


def known_codes():
    from kasa.exceptions import SmartErrorCode

    return {int(x) for x in SmartErrorCode}


def code_of(c, e):
    """What error_code attribute the caller should see."""
    return e


def expect_single(c, o, e, sends, resets, budget, known, ok_value, allow_batch_fallback=False):
    from kasa import exceptions as E

    if o.ok:
        c.check(e == 0, "only code 0 is a success", lambda: repr(o))
        c.check(sym_eq(o.value, ok_value), "the result is returned", lambda: repr(o))
        c.reach("success")
        return
    c.check(not e == 0, "code 0 is not an error", lambda: repr(o))
    ret = isin(e, RETRYABLE)
    auth = isin(e, AUTH)
    if o.raised(E._RetryableError):
        c.check(ret, "only session/transport codes are retried", lambda: repr(o))
        c.check(sends == budget + 1, "retryable codes use the retry budget", lambda: sends)
        c.reach("retried")
    else:
        c.check(Not(ret), "session/transport codes are retryable", lambda: repr(o))
        c.check(sends == 1, "other codes are not retried", lambda: sends)
        if o.raised(E.AuthenticationError):
            c.check(auth, "only credential codes are authentication errors", lambda: repr(o))
            c.reach("auth")
        else:
            c.check(o.raised(E.DeviceError), "an error code is a device error", lambda: repr(o))
            c.check(Not(auth), "credential codes are authentication errors", lambda: repr(o))
            c.reach("device-error")
    ec = o.exc.error_code if o.raised(E.DeviceError) else None
    kn = isin(e, known)
    # exceptions carry the device's code, or the internal unknown code
    want_unknown = sym_eq(ec, -100_000)
    c.check(Or(And(kn, sym_eq(ec, e)), And(Not(kn), want_unknown)), "the exception carries the device's error code", lambda: (repr(o), repr(ec)))
    if not kn:
        c.reach("unknown-code")


def single(c, kind):
    from kasa.protocols import SmartProtocol
    from kasa.protocols.smartcamprotocol import SmartCamProtocol

    e = c.int("code", -200000, 200000)
    budget = c.choice("budget", [0, 1, 3])
    if kind == "smart":
        t = sim.make_transport(lambda r: {"error_code": e, "result": {"v": 1}})
        p = SmartProtocol(transport=t)
        req, ok = {"get_x": None}, {"get_x": {"v": 1}}
    elif kind == "smart-str":
        t = sim.make_transport(lambda r: {"error_code": e, "result": {"v": 1}})
        p = SmartProtocol(transport=t)
        req, ok = "get_x", {"get_x": {"v": 1}}
    elif kind == "cam":
        t = sim.make_transport(lambda r: {"error_code": e, "sys": {"v": 1}})
        p = SmartCamProtocol(transport=t)
        req, ok = {"get": {"sys": {"name": ["v"]}}}, {"get": {"sys": {"v": 1}}}
    elif kind == "cam-str":
        t = sim.make_transport(lambda r: {"error_code": e, "some_thing": {"v": 1}})
        p = SmartCamProtocol(transport=t)
        req, ok = "getSomeThing", {"getSomeThing": {"some_thing": {"v": 1}}}
    elif kind == "cam-set":
        t = sim.make_transport(lambda r: {"error_code": e})
        p = SmartCamProtocol(transport=t)
        req, ok = {"set": {"sys": {"v": 1}}}, {}
    elif kind == "cam-batch1":
        # one call is sent as a batch of one; its error is raised
        t = sim.make_transport(
            lambda r: {"error_code": 0, "result": {"responses": [{"method": "getA", "error_code": e, "result": {"v": 1}}]}}
        )
        p = SmartCamProtocol(transport=t)
        req, ok = {"getA": {"a": {}}}, {"getA": {"v": 1}}

    async def go():
        return await acatch(p.query(req, retry_count=budget))

    o = c.run(go())
    expect_single(c, o, e, t.sends, t.resets, budget, known_codes(), ok)


def member(c, kind, n):
    """A failing member of a batch neither raises nor hides the others."""
    from kasa.exceptions import SmartErrorCode
    from kasa.protocols import SmartProtocol
    from kasa.protocols.smartcamprotocol import SmartCamProtocol

    codes = [c.int(f"code{i}", -200000, 200000) for i in range(n)]
    names = [f"getM{i}" for i in range(n)]

    def handler(r):
        out = []
        for q in r["params"]["requests"]:
            i = int(q["method"][4:])
            out.append({"method": q["method"], "error_code": codes[i], "result": {"v": i}})
        return {"error_code": 0, "result": {"responses": out}}

    t = sim.make_transport(handler)
    p = (SmartProtocol if kind == "smart" else SmartCamProtocol)(transport=t)

    async def go():
        return await acatch(p.query({m: {"p": {}} for m in names}))

    o = c.run(go())
    c.check(o.ok, "a member's error does not fail the whole query", lambda: repr(o))
    check_members(c, o, codes, names, SmartErrorCode, lambda i: {"v": i})


def check_members(c, o, codes, names, SmartErrorCode, val):
    known = known_codes()
    c.check(set(o.value) == set(names), "every requested method is answered", lambda: repr(o))
    for i, m in enumerate(names):
        got = o.value.get(m)
        e = codes[i]
        if sym_eq(got, val(i)) is True or isinstance(got, dict):
            c.check(e == 0, "an error code is not reported as a result", lambda: (i, repr(o)))
            c.check(sym_eq(got, val(i)), "each method keeps its own result")
        else:
            c.check(isinstance(got, SmartErrorCode), "a failing member is an error code object", lambda: (m, repr(got)))
            kn = isin(e, known)
            c.check(And(Not(e == 0), Or(And(kn, sym_eq(got, e)), And(Not(kn), sym_eq(got, -100_000)))), "each method keeps its own error code", lambda: (i, repr(o)))
            c.reach("member-error")


def batch(c, kind):
    """Error code of the whole batch."""
    from kasa import exceptions as E
    from kasa.protocols import SmartProtocol
    from kasa.protocols.smartcamprotocol import SmartCamProtocol

    e = c.int("code", -200000, 200000)
    log = []

    def handler(r):
        log.append(r["method"])
        if r["method"] == "multipleRequest":
            return {"error_code": e, "result": {"responses": [{"method": q["method"], "error_code": 0, "result": {"v": q["method"]}} for q in r["params"]["requests"]]}}
        return {"error_code": 0, "result": {"v": r["method"]}}

    t = sim.make_transport(handler)
    p = (SmartProtocol if kind == "smart" else SmartCamProtocol)(transport=t)
    budget = c.choice("budget", [0, 1, 3])

    async def go():
        return await acatch(p.query({"getA": {"p": {}}, "getB": {"p": {}}}, retry_count=budget))

    o = c.run(go())
    known = known_codes()
    bad = Or(isin(e, MALFORMED_BATCH), Not(isin(e, known)))
    if o.ok:
        c.check(o.value == {"getA": {"v": "getA"}, "getB": {"v": "getB"}}, "results belong to their methods", lambda: repr(o))
        if len(log) == 1:
            c.check(e == 0, "only code 0 is a success")
            c.reach("success")
        else:
            c.check(bad, "only an undecodable batch falls back to single requests", lambda: log)
            c.check("multipleRequest" not in log[1:], "batches stay disabled after an undecodable batch", lambda: log)
            c.reach("batch-fallback")
    else:
        c.check(not e == 0, "code 0 is not an error", lambda: repr(o))
        if o.raised(E._RetryableError):
            c.check(Or(isin(e, RETRYABLE), And(bad, budget == 0)), "retryable batch codes", lambda: repr(o))
        elif o.raised(E.AuthenticationError):
            c.check(isin(e, AUTH), "credential batch codes", lambda: repr(o))
            c.check(len(log) == 1, "credential errors are not retried", lambda: log)
        else:
            c.check(o.raised(E.DeviceError), "a failed batch is a device error", lambda: repr(o))
            c.check(And(Not(isin(e, RETRYABLE)), Not(isin(e, AUTH)), Not(bad)), "other batch codes are final", lambda: repr(o))
            c.check(len(log) == 1, "device errors are not retried", lambda: log)


def child(c, kind, n):
    """Errors of requests wrapped for a child device."""
    from kasa import exceptions as E
    from kasa.protocols import SmartProtocol
    from kasa.protocols.smartcamprotocol import SmartCamProtocol, _ChildCameraProtocolWrapper
    from kasa.protocols.smartprotocol import _ChildProtocolWrapper

    codes = [c.int(f"code{i}", -200000, 200000) for i in range(n)]
    names = [f"getM{i}" for i in range(n)]

    def one(q):
        i = int(q["method"][4:])
        return {"method": q["method"], "error_code": codes[i], "result": {"v": i}}

    def handler(r):
        if kind == "cam":
            out = []
            for q in r["params"]["requests"]:
                rd = q["params"]["childControl"]["request_data"]
                x = one(rd)
                out.append({"method": "controlChild", "error_code": 0, "result": {"response_data": x}})
            return {"error_code": 0, "result": {"responses": out}}
        rd = r["params"]["requestData"]
        if rd["method"] == "multipleRequest":
            inner = {"error_code": 0, "result": {"responses": [one(q) for q in rd["params"]["requests"]]}}
        else:
            inner = one(rd)
        return {"error_code": 0, "result": {"responseData": inner}}

    t = sim.make_transport(handler)
    if kind == "cam":
        p = _ChildCameraProtocolWrapper("CHILD", SmartCamProtocol(transport=t))
    else:
        p = _ChildProtocolWrapper("CHILD", SmartProtocol(transport=t))

    async def go():
        return await acatch(p.query({m: {"p": i} for i, m in enumerate(names)}))

    o = c.run(go())
    if n > 1:
        c.check(o.ok, "a member's error does not fail the whole child query", lambda: repr(o))
        check_members(c, o, codes, names, E.SmartErrorCode, lambda i: {"v": i})
        return
    e = codes[0]
    if o.ok:
        c.check(e == 0, "only code 0 is a success", lambda: repr(o))
        c.check(o.value == {names[0]: {"v": 0}}, "the child's result is unwrapped", lambda: repr(o))
    else:
        c.check(not e == 0, "code 0 is not an error", lambda: repr(o))
        c.check(o.raised(E.DeviceError), "a child's error code is a device error", lambda: repr(o))
        c.check(isin(e, AUTH) if o.raised(E.AuthenticationError) else Not(isin(e, AUTH)), "credential codes of a child")
        c.check(isin(e, RETRYABLE) if o.raised(E._RetryableError) else Not(isin(e, RETRYABLE)), "session codes of a child")
        c.reach("child-error")


def missing(c, kind):
    """A response with no code at all is not a success (except cameras' plain section replies)."""
    from kasa import exceptions as E
    from kasa.protocols import SmartProtocol

    t = sim.make_transport(lambda r: {"result": {"v": 1}})
    p = SmartProtocol(transport=t)

    async def go():
        return await acatch(p.query({"get_x": None}))

    o = c.run(go())
    c.check(o.raised(E.DeviceError), "a response with no error code is an error", lambda: repr(o))


IOT_COMMANDS = {
    "on": ("HS110v1", "system", "set_relay_state", lambda d: d.turn_on()),
    "alias": ("HS110v1", "system", "set_dev_alias", lambda d: d.set_alias("x")),
    "info": ("HS110v1", "system", "get_sysinfo", lambda d: d.get_sys_info()),
    "led": ("HS110v1", "system", "set_led_off", lambda d: d.modules["Led"].set_led(True)),
    "rules": ("HS110v1", "schedule", "delete_all_rules", lambda d: d.modules["schedule"].delete_all_rules()),
    "energy": ("HS110v1", "emeter", "erase_emeter_stat", lambda d: d.modules["Energy"].erase_stats()),
    "colour": ("KL130", "smartlife.iot.smartbulb.lightingservice", "transition_light_state", lambda d: d.modules["Light"].set_hsv(1, 2, 3)),
    "effect": ("KL430", "smartlife.iot.lighting_effect", "set_lighting_effect", lambda d: d.modules["LightEffect"].set_effect("Aurora")),
    "dimmer": ("HS220", "smartlife.iot.dimmer", "set_dimmer_transition", lambda d: d.modules["Light"].set_brightness(7, transition=1000)),
    "motion": ("ES20M", "smartlife.iot.PIR", "set_cold_time", lambda d: d.modules["motion"].set_inactivity_timeout(60)),
    "socket": ("HS300", "system", "set_relay_state", lambda d: d.children[1].turn_on()),
    "strip": ("HS300", "system", "set_led_off", lambda d: d.modules["Led"].set_led(True)),
}


def legacy(c, what):
    """Legacy devices have no table of codes: 0 is success, anything else is not."""
    import C19_features as feats
    from kasa import KasaException

    name, mod, cmd, call = IOT_COMMANDS[what]
    dev, s = feats.make(name)
    base = s.handle
    e = c.int("err_code", -200000, 200000)
    where = c.choice("where", ["module", "command", "no code", "no command", "no module"])

    def handle(req):
        out = base(req)
        if mod in req and cmd in req[mod] and box:
            box[0] += 1
            if where == "module":
                out[mod] = {"err_code": e, "err_msg": "x"}
                if c.bool("with the command"):
                    out[mod][cmd] = {"err_code": 0}
            elif where == "command":
                out[mod][cmd] = {**out[mod][cmd], "err_code": e}
            elif where == "no code":
                out[mod][cmd] = {k: v for k, v in out[mod][cmd].items() if k != "err_code"}
            elif where == "no command":
                out[mod] = {}
            else:
                out = {}
        return out

    box: list = []

    async def go():
        await dev.update()
        dev.protocol._transport.send = send
        box.append(0)
        o = await acatch(call(dev))
        c.check(box[0] == 1, "a command the device answers is sent once", lambda: (what, box, repr(o)))
        if where in ("no command", "no module"):
            c.check(o.raised(KasaException), "an answer without what was asked is an error", lambda: (what, repr(o)))
        elif where == "no code":
            c.check(o.ok, "an answer without a code is a success", lambda: (what, repr(o)))
        elif o.ok:
            c.check(e == 0, "only code 0 is a success", lambda: (what, where, repr(o)))
            c.reach("legacy success")
        else:
            c.check(o.raised(KasaException), "an error code is an error of the device", lambda: (what, repr(o)))
            c.check(Or(Not(e == 0), where == "module"), "code 0 is not an error", lambda: (what, where, repr(o)))
            c.reach("legacy error")

    async def send(request):
        return handle(sim.loads(request))

    c.run(go())


def scenarios(tier):
    out = [(f"single-{k}", single, {"kind": k}) for k in ("smart", "smart-str", "cam", "cam-str", "cam-set", "cam-batch1")]
    out += [(f"batch-{k}", batch, {"kind": k}) for k in ("smart", "cam")]
    N = 2 if tier == "quick" else 3
    out += [(f"member-{k}-{n}", member, {"kind": k, "n": n}) for k in ("smart", "cam") for n in range(2, N + 1)]
    out += [(f"child-{k}-{n}", child, {"kind": k, "n": n}) for k in ("smart", "cam") for n in range(1, N + 1)]
    out += [("missing", missing, {"kind": "smart"})]
    out += [(f"legacy-{k}", legacy, {"what": k}) for k in IOT_COMMANDS]
    return out
