"""Energy readings: the right numbers in the right units, whatever form the device reports them in."""

from __future__ import annotations

import sim
from engine.ctx import And, Not, Or, acatch, sym_eq

BOUNDS = (
    "recorded legacy plugs (both firmware generations), bulbs, and SMART plugs with either version of the energy component; every reading absent, or present in either unit (or both, in either order), "
    "voltage 0..300 V, current 0..20 A, power 0..5 kW, total and statistics 0..10 MWh; daily and monthly lists of up to three entries in any order, in either unit, with any of them being the current one, asked for any year 2000..2100 and month, each given or left out; "
    "any subset of the SMART answers and their keys missing, two updates"
)
OUTSIDE = "rounding of floating point results (compared within 1e-6); readings looked at in a later month than the update they come from; the local clock differing from the device's"
WITNESSES = ["both", "small", "large", "none", "today", "no-today", "kwh", "wh", "usage", "v1", "v2", "optional", "voltage", "no-voltage", "total", "unsupported"]
QUICK_S, THOROUGH_S = 240, 700

UNIT = {"voltage": "voltage_mv", "current": "current_ma", "power": "power_mw", "total": "total_wh", "energy": "energy_wh"}
TOP = {"voltage": 300, "current": 20, "power": 5000, "total": 10**4, "energy": 10**4}


def near(a, b):
    if a is None or b is None:
        return a is None and b is None
    d = a - b
    return And(d < 1e-6, d > -1e-6)


def reading(c, n, forms=("none", "big", "small", "both", "htob")):
    """(raw entries in the device's order, value in the big unit or None)."""
    form = c.choice(f"{n} form", list(forms))
    big = c.real(n, 0, TOP[n], 1000) if form in ("big", "both", "htob") else None
    small = c.int(UNIT[n], 0, TOP[n] * 1000) if form in ("small", "both", "htob") else None
    out = []
    if form in ("big", "both"):
        out.append((n, big))
    if small is not None:
        out.append((UNIT[n], small))
    if form == "htob":
        out.append((n, big))
    c.reach({"none": "none", "big": "large", "small": "small", "both": "both", "htob": "both"}[form])
    return out, (big if big is not None else None if small is None else small / 1000), small, big


def status(c, focus):
    """Every form of one reading, next to the others."""
    from kasa.emeterstatus import EmeterStatus

    raw: dict = {}
    want = {}
    names = list(UNIT)
    k = names.index(focus)
    for n in names[k:] + names[:k]:
        forms = ("none", "big", "small", "both", "htob") if n == focus else ("none", "small") if n == names[(k + 1) % 5] else ("small",) if n != names[(k + 2) % 5] else ("big",)
        entries, v, small, big = reading(c, n, forms)
        for key, x in entries:
            raw[key] = x
        want[n] = (v, small, big)
    if c.bool("err_code"):
        raw["err_code"] = 0
    st = EmeterStatus(raw)
    for n in ("voltage", "current", "power", "total"):
        c.check(near(getattr(st, n), want[n][0]), "a reading is given in its unit", lambda: (n, raw, want))
    for n in UNIT:
        v, small, big = want[n]
        c.check(near(st[n], v), "a reading can be asked for in its unit", lambda: (n, raw, want))
        if small is not None or big is not None:
            w = small if small is not None else big * 1000
            c.check(near(st[UNIT[n]], w), "a reading can be asked for in its small unit", lambda: (n, raw, want))
    o = c.attempt(lambda: st["humidity"])
    c.check(o.raised(KeyError), "an unknown reading is refused", lambda: repr(o))
    o = c.attempt(lambda: repr(st))
    c.check(o.ok, "a status can be shown", lambda: repr(o))


class Clock:
    def __init__(self, month, day):
        self.year, self.month, self.day = 2024, month, day


def legacy(c, name, mode):
    import kasa.iot as iot
    from kasa.iot.modules import emeter, usage
    from kasa.interfaces import Energy
    from kasa.module import Module

    cls = {"HS110v1": "IotPlug", "HS110v4": "IotPlug", "KL130": "IotBulb", "KL125": "IotBulb"}[name]
    d = sim.data(name)
    em = "emeter" if name.startswith("HS") else "smartlife.iot.common.emeter"
    month = c.choice("month", [1, 5])
    day = c.choice("day", [7, 31])

    class DT:
        @staticmethod
        def now(tz=None):
            return Clock(month, day)

    for m in (emeter, usage):
        c.patch(m, "datetime", DT)

    def entries(key, unit, top, now, n):
        out = []
        for i in range(n):
            if not c.bool(f"{key}{i}"):
                continue
            when = c.choice(f"{key}{i} when", [now, 1 if now != 1 else 2, 6])
            out.append((when, c.int(f"{key}{i} {unit}", 0, top) if unit != "energy" else c.real(f"{key}{i} energy", 0, 10**4, 1000)))
        return out

    raw: dict = {"err_code": 0}
    want: dict = {}
    days: list = []
    months: list = []
    unit = "energy_wh"
    n = 3 if c.deep else 2
    if mode == "realtime":
        for r in ("power", "voltage", "current", "total"):
            e, v, _, _ = reading(c, r, ("none", "big", "small"))
            raw.update(e)
            want[r] = v
    elif mode == "stats":
        unit = c.choice("unit", ["energy_wh", "energy"])
        which = c.choice("which", ["day", "month"])
        if which == "day":
            days = entries("day", unit, 10**7, day, n)
        else:
            months = entries("month", unit, 10**7, month, n)
    elif mode == "usage":
        unit = "time"
        which = c.choice("which", ["day", "month"])
        if which == "day":
            days = entries("day", unit, 1440, day, n)
        else:
            months = entries("month", unit, 44640, month, n)
    rows = {
        "get_daystat": {"day_list": [{"year": 2024, "month": month, "day": w, unit: v} for w, v in days]},
        "get_monthstat": {"month_list": [{"year": 2024, "month": w, unit: v} for w, v in months]},
    }
    lacking = mode == "lacking"
    sched = "schedule" if name.startswith("HS") else "smartlife.iot.common.schedule"
    dev, s = sim.iot_device(d, getattr(iot, cls))
    base = s._get

    def get(ctx, mod, cmd):
        if mod == em and lacking:
            return {"err_code": -1, "err_msg": "module not support"}
        if mod == em and mode == "lacking-command" and cmd == "get_realtime":
            return {"err_code": -2, "err_msg": "member not support"}
        if mod == em and mode != "usage" or mod == sched and mode == "usage":
            if cmd == "get_realtime":
                return dict(raw)
            if cmd in rows:
                return {k: [dict(x) for x in v] for k, v in rows[cmd].items()} | {"err_code": 0}
        if cmd in ("get_daystat", "get_monthstat"):
            return {"day_list" if cmd == "get_daystat" else "month_list": [], "err_code": 0}
        if cmd == "get_realtime":
            return {"err_code": 0, "power_mw": 1}
        return base(ctx, mod, cmd)

    s._get = get
    whole = s.handle

    def handle(req):
        out = whole(req)
        if lacking and em in out:
            out[em] = {"err_code": -1, "err_msg": "module not support"}
        return out

    dev.protocol._transport.send = sim.make_transport(handle).send

    # the time statistics are asked for: any year and month, each given or left out
    given = {}
    if mode in ("stats", "usage"):
        if c.bool("year given"):
            given["year"] = c.int("year", 2000, 2100)
        if which == "day" and c.bool("month given"):
            given["month"] = c.int("month", 1, 12)
    query = {"day": {"year": 2024, "month": month, **given}, "month": {"year": 2024, **given}}

    async def go():
        o = await acatch(dev.update())
        c.check(o.ok, "an update succeeds whatever the meter reports", lambda: (repr(o), raw))
        if not o.ok:
            return
        if lacking:
            c.reach("unsupported")
            c.check(Module.Energy not in dev.modules and not any("consumption" in f for f in dev.features), "a missing meter is not offered", lambda: list(dev.features))
            return
        if mode == "lacking-command":
            return
        e = dev.modules[Module.Energy]
        if mode == "realtime":
            F = Energy.ModuleFeature
            for st in (e.status, await e.get_status()):
                for r in want:
                    c.check(near(getattr(st, r), want[r]), "a reading is given in its unit", lambda: (r, raw, dict(st)))
            c.check(And(near(e.current_consumption, want["power"]), near(e.consumption_total, want["total"]), near(e.voltage, want["voltage"]), near(e.current, want["current"])), "the module gives the readings in W, kWh, V and A", lambda: (raw, want))
            c.check(e.supports(F.VOLTAGE_CURRENT) == (want["voltage"] is not None), "voltage is offered when it is reported", lambda: raw)
            c.check(e.supports(F.CONSUMPTION_TOTAL) == (want["total"] is not None), "the total is offered when it is reported", lambda: raw)
            c.check(e.supports(F.PERIODIC_STATS), "statistics are offered", lambda: raw)
            c.reach("voltage" if want["voltage"] is not None else "no-voltage")
            for fid, v, on in (("current_consumption", want["power"], True), ("voltage", want["voltage"], want["voltage"] is not None), ("current", want["current"], want["voltage"] is not None), ("consumption_total", want["total"], want["total"] is not None)):
                c.check((fid in dev.features) == on, "features are there when reported", lambda: (fid, list(dev.features)))
                if fid in dev.features:
                    c.check(near(dev.features[fid].value, v), "features give the readings", lambda: (fid, raw))
            if want["total"] is not None:
                c.reach("total")
            return
        m = e if mode == "stats" else dev.modules[Module.IotUsage]
        year = {k: v for k, v in given.items() if k == "year"}
        query["month"] = {k: v for k, v in query["month"].items() if k != "month"}
        for kind, rows_, now in (("day", days, day), ("month", months, month)):
            last = next((v for w, v in reversed(rows_) if w == now), None)
            by: dict = {}
            for w, v in rows_:
                by[w] = v
            if mode == "stats":
                f = 1 if unit == "energy" else 0.001
                got = e.consumption_today if kind == "day" else e.consumption_this_month
                c.check(near(got, 0 if last is None else last * f), "the current consumption is the current entry, in kWh", lambda: (kind, rows_, got, now))
                c.reach("today" if last is not None else "no-today")
                for kwh in (True, False):
                    res = await (m.get_daily_stats(**given, kwh=kwh) if kind == "day" else m.get_monthly_stats(**year, kwh=kwh))
                    c.check(set(res) == set(by) and And(True, *[near(res[w], v * f * (1 if kwh else 1000)) for w, v in by.items()]), "statistics give every entry in the unit asked for", lambda: (kind, rows_, res, kwh))
                    c.reach("kwh" if kwh else "wh")
            else:
                got = m.usage_today if kind == "day" else m.usage_this_month
                c.check((got is None) == (last is None) and (last is None or sym_eq(got, last)), "the current usage is the current entry", lambda: (kind, rows_, got))
                res = await (m.get_daystat(**given) if kind == "day" else m.get_monthstat(**year))
                c.check(set(res) == set(by) and And(True, *[sym_eq(res[w], v) for w, v in by.items()]), "usage statistics give every entry", lambda: (kind, rows_, res))
                c.reach("usage")
            asked = [a for _, mod, cmd, a in s.log if cmd == f"get_{kind}stat" and mod == (em if mode == "stats" else sched)]
            c.check(asked[0] == ({"year": 2024, "month": month, "day": day}[kind] and ({"year": 2024, "month": month} if kind == "day" else {"year": 2024})), "an update asks for the current statistics", lambda: asked)
            c.check(set(asked[1]) == set(query[kind]) and And(True, *[sym_eq(asked[1][k], v) for k, v in query[kind].items()]), "statistics are asked for the given time, the current one where none is given", lambda: (asked, query))
            n0 = len(asked)
            await (m.get_raw_daystat() if kind == "day" else m.get_raw_monthstat())
            asked = [a for _, mod, cmd, a in s.log if cmd == f"get_{kind}stat" and mod == (em if mode == "stats" else sched)]
            c.check(asked[n0] == ({"year": 2024, "month": month} if kind == "day" else {"year": 2024}), "statistics default to the current time", lambda: asked)
        s.clear()
        await m.erase_stats()
        c.check([x[1:3] for x in s.log] == [((em, "erase_emeter_stat") if mode == "stats" else (sched, "erase_runtime_stat"))], "erasing statistics erases those of the meter", lambda: s.log)

    c.run(go())


def smart(c, version):
    from kasa import exceptions
    from kasa.interfaces import Energy
    from kasa.module import Module

    d = sim.data("P110M")
    for e in d["component_nego"]["component_list"]:
        if e["id"] == "energy_monitoring":
            e["ver_code"] = version
    err = exceptions.SmartErrorCode.UNKNOWN_METHOD_ERROR.value
    rounds = []
    for i in range(2):
        usage: dict | None = {}
        for k, top in (("current_power", 5 * 10**6), ("today_energy", 10**7), ("month_energy", 10**7)):
            if (i == 0 and c.bool(f"has {k}")) or (i == 1 and (k != "current_power" or version == 2)):
                usage[k] = c.int(f"{k}{i}", 0, top)
        usage["today_runtime"] = 5
        em: dict = {"energy_wh": 1}
        if version == 2:
            if c.bool(f"no usage{i}"):
                usage = None
                c.reach("optional")
            for k, top in (("voltage_mv", 300000), ("current_ma", 20000), ("power_mw", 5 * 10**6)):
                if i == 1 or c.bool(f"has {k}"):
                    em[k] = c.int(f"{k}{i}", 0, top)
        cur = {"current_power": c.int(f"cp{i}", 0, 5000)} if i == 1 or c.bool("has cp") else {}
        rounds.append((usage, em, cur))
    st = {"i": 0}
    dev, s = sim.smart_device(d)

    def on(target, method, params):
        usage, em, cur = rounds[st["i"]]
        if method == "get_energy_usage":
            return {"error_code": 0, "result": dict(usage)} if usage is not None else {"error_code": err}
        if method == "get_emeter_data":
            return {"error_code": 0, "result": dict(em)}
        if method == "get_current_power":
            return {"error_code": 0, "result": dict(cur)}
        return None

    s.on = on
    F = Energy.ModuleFeature

    async def go():
        for i in range(2):
            st["i"] = i
            usage, em, cur = rounds[i]
            o = await acatch(dev.update())
            c.check(o.ok and Module.Energy in dev.modules, "an update succeeds whatever the meter reports", lambda: (repr(o), rounds))
            if not o.ok:
                return
            e = dev.modules[Module.Energy]
            u = usage or {}
            if u.get("current_power") is not None:
                power = u["current_power"] / 1000
            elif version == 2 and "power_mw" in em:
                power = em["power_mw"] / 1000
            elif version == 2 and "current_power" in cur:
                power = cur["current_power"]
            else:
                power = None
            kwh = lambda k: None if u.get(k) is None else u[k] / 1000  # noqa: E731
            c.check(near(e.current_consumption, power), "power is the most precise reading reported, in W", lambda: (e.current_consumption, rounds[i]))
            c.check(near(e.consumption_today, kwh("today_energy")), "today's consumption is given in kWh", lambda: (e.consumption_today, rounds[i]))
            c.check(near(e.consumption_this_month, kwh("month_energy")), "this month's consumption is given in kWh", lambda: (e.consumption_this_month, rounds[i]))
            v = em["voltage_mv"] / 1000 if version == 2 and "voltage_mv" in em else None
            a = em["current_ma"] / 1000 if version == 2 and "current_ma" in em else None
            c.check(And(near(e.voltage, v), near(e.current, a)), "voltage and current are given in V and A", lambda: (e.voltage, e.current, rounds[i]))
            c.check(e.consumption_total is None, "no total is made up", lambda: e.consumption_total)
            if i == 0:
                c.check(e.supports(F.VOLTAGE_CURRENT) == (v is not None), "voltage is offered when it is reported", lambda: rounds)
                c.check(("voltage" in dev.features) == (v is not None) and ("current" in dev.features) == (v is not None), "features are there when reported", lambda: rounds)
                c.reach("voltage" if v is not None else "no-voltage")
            c.check(not e.supports(F.PERIODIC_STATS) and not e.supports(F.CONSUMPTION_TOTAL), "what the device does not report is not offered", lambda: rounds)
            for fid, val in (("current_consumption", power), ("consumption_today", kwh("today_energy")), ("consumption_this_month", kwh("month_energy")), ("voltage", v), ("current", a)):
                if fid in dev.features:
                    c.check(near(dev.features[fid].value, val), "features give the readings", lambda: (fid, rounds[i]))
            for stat in (e.status, await e.get_status()):
                if version == 2:
                    c.check(And(near(stat.voltage, v), near(stat.current, a), near(stat.power, em["power_mw"] / 1000 if "power_mw" in em else None)), "the status gives the meter's readings", lambda: (dict(stat), rounds[i]))
                else:
                    c.check(near(stat.power, u.get("current_power", 0) / 1000), "the status gives the meter's readings", lambda: (dict(stat), rounds[i]))
            c.reach(f"v{version}")

    c.run(go())


def scenarios(tier):
    out = [(f"status-{n}", status, {"focus": n}) for n in UNIT]
    for n in ("HS110v1", "HS110v4", "KL130", "KL125"):
        for mode in ("realtime", "stats", "usage", "lacking", "lacking-command"):
            out.append((f"{mode}-{n}", legacy, {"name": n, "mode": mode}))
    out += [("smart-v1", smart, {"version": 1}), ("smart-v2", smart, {"version": 2})]
    return out
