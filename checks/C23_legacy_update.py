"""Legacy devices: an update asks for everything in portions the device can answer, and everyone gets its own data."""

from __future__ import annotations

import sim
from engine.ctx import And, Not, Or, acatch, sym_eq

BOUNDS = (
    "nine recorded devices (plugs, bulbs, a strip light, dimmers, two power strips), any response size limit of 0..20000, three updates, every subset of the modules that the device may lack "
    "(reported per module or for the whole answer), any rssi and socket states at each update, and any of the requests of the second update failing"
)
OUTSIDE = "modules that change from supported to unsupported later; answers that are not JSON objects (C03, C07)"
WITNESSES = ["split", "single", "unsupported", "failed", "recovered", "child", "shared", "toplevel"]
QUICK_S, THOROUGH_S = 240, 700

CLS = {"KL130": "IotBulb", "KL125": "IotBulb", "KL430": "IotLightStrip", "HS220": "IotDimmer", "ES20M": "IotDimmer", "HS110v1": "IotPlug", "HS110v4": "IotPlug", "HS300": "IotStrip", "KP303": "IotStrip"}
MAYBE = {
    "KL130": ["smartlife.iot.common.schedule", "smartlife.iot.common.anti_theft", "countdown"],
    "KL125": ["countdown"],
    "KL430": ["countdown", "smartlife.iot.common.anti_theft"],
    "HS220": ["smartlife.iot.PIR", "smartlife.iot.LAS", "schedule"],
    "ES20M": ["smartlife.iot.PIR", "smartlife.iot.LAS", "smartlife.iot.dimmer"],
    "HS110v1": ["schedule", "anti_theft", "cnCloud"],
    "HS110v4": ["anti_theft", "cnCloud"],
    "HS300": ["countdown", "anti_theft"],
    "KP303": ["countdown", "schedule"],
}


class Dead(Exception):
    pass


def update(c, name, mode):
    import kasa.iot as iot
    from kasa import KasaException, exceptions

    cls = getattr(iot, CLS[name])
    d = sim.data(name)
    dev, s = sim.iot_device(d, cls)
    limit = c.int("limit", 0, 20000) if mode == "split" else (4096 if name.startswith("KL") else 16384)
    if mode == "split":
        c.patch(cls, "max_device_response_size", property(lambda self: limit))
    lacking = [m for m in MAYBE[name] if c.bool(f"lacks {m}")] if mode in ("lacking", "toplevel") else []
    st = {"round": 0, "dead": None, "n": 0}
    seen: list = []

    def handle(req):
        seen.append(req)
        if st["dead"] is not None:
            st["n"] += 1
            if st["n"] > st["dead"]:
                c.reach("failed")
                raise exceptions.KasaException("connection lost")
        out: dict = {}
        ids = req.get("context", {}).get("child_ids")
        for mod, cmds in req.items():
            if mod == "context":
                continue
            if mod in lacking:
                if mode == "toplevel":
                    out["err_code"], out["err_msg"] = -1, "module not support"
                else:
                    out[mod] = {"err_code": -1, "err_msg": "module not support"}
                continue
            out[mod] = {}
            for cmd, args in cmds.items():
                r = s._get(ids, mod, cmd)
                if mod == "system" and cmd == "get_sysinfo":
                    si = r
                    si["rssi"] = rssi[st["round"]]
                    for i, k in enumerate(si.get("children", [])):
                        k["state"] = states[st["round"]][i]
                elif isinstance(r, dict):
                    r.pop("err_code", None)
                    r = {**r, "stamp": st["round"], "who": ids, "err_code": 0}
                out[mod][cmd] = r
        return out

    async def send(request):
        return handle(sim.loads(request))

    dev.protocol._transport.send = send
    nkids = len(d["system"]["get_sysinfo"].get("children", []))
    rssi = [c.int(f"rssi{i}", -120, 0) for i in range(3)]
    states = [[c.int(f"st{i}.{j}", 0, 1) if j == 0 else (i + j) % 2 for j in range(nkids)] for i in range(3)]
    fail_at = c.choice("fail", [0, 1, 2, 3, 4]) if mode == "failing" else None

    def portions(r, own):
        """Names and estimates of the modules a request carries."""
        out = []
        for n, m in own.items():
            q = {k: v for k, v in m.query().items() if k != "context"}
            if q and all(k in r and next(iter(v)) in r[k] for k, v in q.items()):
                out.append((n, m.estimated_query_response_size))
        return out

    async def go():
        for i in range(3):
            st["round"] = i
            st["dead"] = fail_at if i == 1 else None
            st["n"] = 0
            seen.clear()
            o = await acatch(dev.update())
            if i == 1 and fail_at is not None and st["n"] > fail_at:
                c.check(o.raised(KasaException), "a failing request fails the update", lambda: repr(o))
                continue
            c.check(o.ok, "an update succeeds", lambda: repr(o))
            if not o.ok:
                c.fail("stop")
                return
            own = [r for r in seen if "context" not in r]
            if i == 0:
                c.check(own and list(own[0]) == ["system"] and list(own[0]["system"]) == ["get_sysinfo"], "system information is asked for first, alone", lambda: own[0])
                own = own[1:]
            c.check(sum("system" in r for r in own) == 1, "system information is asked for once per update", lambda: own)
            for r in own:
                ps = portions(r, dev._modules)
                # modules that share their request count both; what counts is that they fit
                total = (1024 if "system" in r else 0) + sum(e for _, e in ps)
                alone = len(ps) + ("system" in r) <= 1
                c.check(alone or total <= limit, "a request stays within what the device can answer", lambda: (ps, limit))
            c.reach("split" if len(own) > 1 else "single")
            asked = {(k, x) for r in own for k, v in r.items() for x in v}
            c.check(sym_eq(dev.rssi, rssi[i]), "system information is current", lambda: (dev.rssi, rssi))
            for n, m in dev._modules.items():
                q = m.query()
                for k, cmds in q.items():
                    lack = k in lacking
                    if lack:
                        c.reach("toplevel" if mode == "toplevel" else "unsupported")
                    if lack and mode == "lacking":
                        c.check(n not in dev.modules and not m.is_supported, "a module the device lacks is not offered", lambda: (n, list(dev.modules)))
                        c.check(all((k, x) not in asked for x in cmds) or i == 0, "a module the device lacks is asked for once", lambda: (n, asked))
                        continue
                    if lack:
                        continue
                    c.check(n in dev.modules, "every other module is offered", lambda: (n, list(dev.modules)))
                    for x in cmds:
                        got = m.data.get(x)
                        c.check((k, x) in asked and isinstance(got, dict) and got.get("stamp") == i and got.get("who") is None, "a module has the device's latest answer", lambda: (n, x, got, i))
            for j, kid in enumerate(dev.children):
                c.reach("child")
                c.check(sym_eq(kid.is_on, states[i][j] == 1), "a socket shows its own state", lambda: (kid.is_on, states))
                for n, m in kid._modules.items():
                    for k, cmds in m.query().items():
                        if k == "context" or k in lacking:
                            continue
                        for x in cmds:
                            got = m.data.get(x)
                            c.check(isinstance(got, dict) and got.get("stamp") == i and got.get("who") == [kid.child_id], "a socket has its own latest answer", lambda: (j, n, x, got, i, kid.child_id))
                            c.reach("shared")
            if i == 2 and fail_at is not None:
                c.reach("recovered")

    c.run(go())


def scenarios(tier):
    out = []
    for n in CLS:
        for mode in ("split", "lacking", "failing") + (("toplevel",) if n in ("HS110v1", "KL130", "HS110v4") else ()):
            out.append((f"{mode}-{n}", update, {"name": n, "mode": mode}))
    return out
