"""Clock, time zone and on-since times, as the device has them."""

from __future__ import annotations

from datetime import UTC, datetime, timedelta, timezone
from zoneinfo import ZoneInfo

import sim
import statesim
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq

BOUNDS = (
    "recorded SMART plugs, bulbs, strips and hubs, a camera, legacy plugs, dimmers and strips; every second of 2023-01 to 2026-12 in UTC, in fixed offsets and in zones with daylight saving (transitions included), "
    "on times up to 300 days, three updates (four in thorough) with any clock, on time, power state and zone at each; any time set, naive or aware, in eight zones, on devices in six; every zone of the legacy list, shown and set; unknown, missing and malformed zones"
)
OUTSIDE = "devices without a clock (their on-since times use the local one); the repeated hour at the end of daylight saving on legacy devices, whose clock cannot name it; setting a legacy device to another year in a zone it does not list by name; the C implementation of datetime (modelled in engine/sym.py, compared with Python by tools/test_symdt.py)"
WITNESSES = ["table", "on", "off", "jitter", "moved", "back", "dst", "set-naive", "set-aware", "zone-change", "unknown-zone", "no-zone", "strip", "no-on-time"]
QUICK_S, THOROUGH_S = 300, 800

LO, HI = datetime(2023, 1, 1), datetime(2026, 12, 30)
EPOCH = datetime(1970, 1, 1)
T0 = int((LO - EPOCH).total_seconds())
ZONES = {
    "UTC": (4, UTC),
    "Berlin": (None, ZoneInfo("Europe/Berlin")),
    "NewYork": (None, ZoneInfo("America/New_York")),
    "Kolkata": (None, ZoneInfo("Asia/Kolkata")),
    "+05:30": (None, timezone(timedelta(hours=5, minutes=30))),
    "-03:00": (None, timezone(timedelta(hours=-3))),
    "Etc": (None, ZoneInfo("Etc/GMT+5")),
    "StJohns": (None, ZoneInfo("America/St_Johns")),
}


def ts(dt):
    return dt.timestamp()


def instant(c, name):
    return T0 + c.int(name, 0, int((HI - LO).total_seconds()))


def on_since(c, kind, n):
    """The reference: within five seconds of clock minus on time, unchanged while that is so."""
    from kasa.iot import IotPlug, IotStrip
    from kasa.iot.iottimezone import TIMEZONE_INDEX

    zones = ["Europe/Amsterdam", "UCT"] if kind.startswith("iot") else ["Europe/Berlin", "UTC", "No/Where"]
    st: dict = {}
    if kind == "smart":
        d = sim.data("P110M")
        dev, s = sim.smart_device(d)
    elif kind == "smart-strip":
        d = sim.data("P304M")
        dev, s = sim.smart_device(d)
    elif kind == "iot":
        d = sim.data("HS110v4")
        dev, s = sim.iot_device(d, IotPlug)
    else:
        d = sim.data("KP303")
        dev, s = sim.iot_device(d, IotStrip)
    region = c.choice("region", zones)
    change = c.bool("zone changes") if c.deep and kind in ("smart", "iot") else False

    if kind.startswith("smart"):

        def on(target, method, params):
            if method == "get_device_time":
                r = {"timestamp": st["now"], "time_diff": 60, "region": st["region"]}
                return {"error_code": 0, "result": r}
            if method == "get_device_info" and target is None and kind == "smart":
                return {"error_code": 0, "result": {**d["get_device_info"], "device_on": st["on"], "on_time": st["on_time"]}}
            if method == "get_child_device_list":
                r = {**d["get_child_device_list"]}
                r["child_device_list"] = [{**k, "device_on": st["on"], "on_time": st["on_time"]} if i == 0 else k for i, k in enumerate(r["child_device_list"])]
                return {"error_code": 0, "result": r}
            return None

        s.on = on
    else:
        si = d["system"]["get_sysinfo"]

        def on(ctx, mod, cmd, args):
            if cmd == "get_time":
                t = st["wall"]
                return {"year": t[0], "month": t[1], "mday": t[2], "hour": t[3], "min": t[4], "sec": t[5], "err_code": 0}
            if cmd == "get_timezone":
                return {"index": {v: k for k, v in TIMEZONE_INDEX.items()}[st["region"]], "err_code": 0}
            if cmd == "get_sysinfo":
                r = {**si}
                if kind == "iot":
                    r.update(relay_state=st["on"], on_time=st["on_time"])
                else:
                    r["children"] = [{**k, "state": st["on"] if i == 0 else 0, "on_time": st["on_time"] if i == 0 else 0} for i, k in enumerate(si["children"])]
                return r
            return None

        s.on = on

    async def go():
        prev = None
        for i in range(n):
            st["region"] = region if not (change and i == n - 1) else zones[(zones.index(region) + 1) % len(zones)]
            st["on"] = c.bool(f"on{i}") if kind.startswith("smart") else c.int(f"on{i}", 0, 1)
            st["on_time"] = c.int(f"on_time{i}", 0, 300 * 86400)
            if kind.startswith("smart"):
                st["now"] = instant(c, f"now{i}")
            else:
                # the days around the changes of daylight saving, and others
                y, m = c.choice(f"month{i}", [(2024, 3), (2024, 10), (2025, 7)] if c.deep or i != 1 else [(2024, 3), (2024, 10)])
                st["wall"] = (y, m, c.int(f"day{i}", 1, 31), c.int(f"hour{i}", 0, 23), c.int(f"min{i}", 0, 59), c.int(f"sec{i}", 0, 59))
                if m == 10:
                    c.assume(Not(And(st["wall"][2] == 27, st["wall"][3] == 2)))
            await dev.update()
            x = dev
            if kind == "smart-strip":
                x = dev.children[0]
            elif kind == "iot-strip":
                x = dev.children[0]
            got = x.on_since
            if not st["on"]:
                c.check(got is None, "a device that is off has no on-since time", lambda: repr(got))
                c.reach("off")
                prev = None
                if kind == "iot-strip":
                    c.check(dev.on_since is None, "a strip that is off has no on-since time", lambda: dev.on_since)
                continue
            c.reach("on")
            c.check(got is not None and got.tzinfo is not None, "an on-since time is aware", lambda: repr(got))
            clock = x.time if kind.startswith("smart") else dev.time
            if kind.startswith("smart"):
                c.check(sym_eq(ts(clock), st["now"]), "the time is the device's", lambda: (clock, st))
            else:
                w = st["wall"]
                c.check(And(sym_eq(clock.year, w[0]), sym_eq(clock.month, w[1]), sym_eq(clock.day, w[2]), sym_eq(clock.hour, w[3]), sym_eq(clock.minute, w[4]), sym_eq(clock.second, w[5])), "the time is the device's", lambda: (clock, st))
            want = ts(clock) - st["on_time"]
            diff = ts(got) - want
            c.check(And(diff <= 5, diff >= -5), "the on-since time is the device's clock minus its on time, within five seconds", lambda: (got, want, st, i))
            if prev is not None:
                near = And(prev - want < 5, prev - want > -5)
                c.check(Implies(near, sym_eq(ts(got), prev)), "the on-since time does not jitter", lambda: (got, prev, want))
                if near:
                    c.reach("jitter")
                else:
                    c.reach("back" if want < prev else "moved")
            else:
                c.check(sym_eq(ts(got), want), "a device just switched on shows its exact on-since time", lambda: (got, want))
            c.check(sym_eq(ts(x.on_since), ts(got)), "reading the on-since time does not change it", lambda: got)
            if kind == "iot-strip":
                c.check(sym_eq(ts(dev.on_since), ts(got)), "a strip is on since its first socket is", lambda: dev.on_since)
                c.reach("strip")
            if i == 1 and region.startswith("Europe"):
                c.reach("dst")
            prev = ts(got)

    c.run(go())


def strip_min(c):
    """The strip is on since the earliest of its sockets."""
    from kasa.iot import IotStrip

    d = sim.data("KP303")
    dev, s = sim.iot_device(d, IotStrip)
    kids = d["system"]["get_sysinfo"]["children"]
    for i, k in enumerate(kids):
        k["state"] = c.int(f"on{i}", 0, 1)
        k["on_time"] = c.int(f"on_time{i}", 0, 10**7)

    async def go():
        await dev.update()
        got = dev.on_since
        on = [k for k in kids if k["state"]]
        if not on:
            c.check(got is None, "a strip that is off has no on-since time", lambda: got)
            return
        now = ts(dev.time)
        for k in dev.children:
            o = c.attempt(lambda k=k: (k.time, k.timezone))
            c.check(o.ok and ts(o.value[0]) == now and o.value[1] is dev.timezone, "a socket's time is its strip's", lambda: repr(o))
        c.check(And(*[ts(got) <= now - k["on_time"] for k in on]), "a strip is on since its first socket is", lambda: (got, on))
        c.check(Or(*[sym_eq(ts(got), now - k["on_time"]) for k in on]), "a strip is on since its first socket is", lambda: (got, on))
        c.reach("strip")

    c.run(go())


def no_on_time(c):
    """Devices that do not report how long they are on."""
    from kasa.iot import IotBulb

    kind = c.choice("kind", ["smart", "iot"])
    if kind == "smart":
        dev, s = sim.smart_device(sim.data("L530E"))
    else:
        dev, s = sim.iot_device(sim.data("KL125"), IotBulb)

    async def go():
        await dev.update()
        c.check(dev.on_since is None, "no on-since time is made up", lambda: dev.on_since)
        c.reach("no-on-time")

    c.run(go())


def set_time(c, kind, zone):
    from kasa.iot import IotPlug
    from kasa.iot.iottimezone import TIMEZONE_INDEX, get_timezone_index
    from kasa.iot import iottimezone
    from kasa.module import Module

    st: dict = {"sets": []}
    dev_zone = c.choice("device zone", ["Europe/Berlin", "UTC", "America/New_York"] if kind != "iot" else ["Europe/Amsterdam", "UCT", "CST6CDT"])
    if kind == "smart":
        dev, s = sim.smart_device(sim.data("P110M"))
        st.update(timestamp=T0 + 10**6, time_diff=60, region=dev_zone)

        def on(target, method, params):
            if method == "get_device_time":
                return {"error_code": 0, "result": {k: v for k, v in st.items() if k != "sets"}}
            if method == "set_device_time":
                st["sets"].append(params)
                st.update(params)
                return {"error_code": 0, "result": {}}
            return None
    elif kind == "cam":
        dev, s = sim.cam_device(sim.data("C210"))
        st.update(timestamp=T0 + 10**6, zone_id=dev_zone, timezone="UTC-00:00")

        def on(target, method, params):
            if method == "getClockStatus":
                return {"error_code": 0, "result": {"system": {"clock_status": {"local_time": "x", "seconds_from_1970": st["timestamp"]}}}}
            if method == "getTimezone":
                return {"error_code": 0, "result": {"system": {"basic": {"timezone": st["timezone"], "timing_mode": "ntp", "zone_id": st["zone_id"]}}}}
            if method == "setTimezone":
                p = params["system"]
                st["sets"].append(p)
                if "clock_status" in p:
                    st["timestamp"] = p["clock_status"]["seconds_from_1970"]
                if "basic" in p:
                    st["zone_id"] = p["basic"]["zone_id"]
                return {"error_code": 0, "result": {}}
            return None
    else:
        dev, s = sim.iot_device(sim.data("HS110v4"), IotPlug)
        st.update(year=2023, month=5, mday=6, hour=7, min=8, sec=9, index={v: k for k, v in TIMEZONE_INDEX.items()}[dev_zone])

        def on(ctx, mod, cmd, args):
            if cmd == "get_time":
                return {**{k: st[k] for k in ("year", "month", "mday", "hour", "min", "sec")}, "err_code": 0}
            if cmd == "get_timezone":
                return {"index": st["index"], "err_code": 0}
            if cmd in ("set_time", "set_timezone"):
                st["sets"].append((cmd, args))
                if cmd == "set_time" and "index" in args:
                    return {"err_code": -3, "err_msg": "invalid argument"}
                st.update(args)
                return {"err_code": 0}
            return None

    s.on = on
    tz = None if zone == "naive" else ZONES[zone][1]
    if kind == "iot":
        # legacy clocks name wall times: months around the changes of daylight saving and others
        y, m, d = c.choice("month", [(2024, 3, 31), (2024, 10, 31), (2025, 7, 31), (2024, 11, 30)])
        dt = c.datetime("dt", datetime(y, m, 1), datetime(y, m, d, 23, 59, 59), tz)
    else:
        dt = c.datetime("dt", LO, HI, tz, micro=kind == "smart")

    if kind == "iot":

        class DT(datetime):
            """Now is in the year that is set."""

            @classmethod
            def now(cls, tz=None):
                return datetime(y, 5, 6)

        c.patch(iottimezone, "datetime", DT)

    async def go():
        await dev.update()
        t = dev.modules[Module.Time]
        before = t.timezone
        o = await acatch(t.set_time(dt))
        c.check(o.ok, "any time can be set", lambda: (repr(o), dt))
        if not o.ok:
            return
        await dev.update()
        c.reach("set-naive" if tz is None else "set-aware")
        got = t.time
        meant = dt.replace(tzinfo=before) if tz is None else dt
        if kind == "iot":
            # the device's clock shows the given wall time, in the same zone
            c.check(And(sym_eq(got.hour, dt.hour), sym_eq(got.minute, dt.minute), sym_eq(got.second, dt.second), sym_eq(got.day, dt.day), sym_eq(got.month, dt.month), sym_eq(got.year, dt.year)), "the clock shows the time that was set", lambda: (got, dt))
            c.check(len(st["sets"]) == 1, "one request sets the time", lambda: st["sets"])
        else:
            d = ts(meant) - ts(got)
            c.check(And(d >= 0, d < 1), "the device has the time that was set", lambda: (got, dt))
        if tz is None:
            c.check(t.timezone is before or str(t.timezone) == str(before), "a naive time keeps the zone", lambda: (t.timezone, before))
        elif kind != "cam" or isinstance(tz, ZoneInfo):
            new = meant.astimezone(t.timezone) if kind != "iot" else got.replace(fold=0)
            ref = meant if kind != "iot" else dt.replace(fold=0)
            c.check(sym_eq(new.utcoffset(), ref.utcoffset()), "the device has the zone that was set", lambda: (t.timezone, tz, dt))
            c.reach("zone-change")
        if kind == "smart":
            c.check(sym_eq(st["time_diff"] * 60, meant.utcoffset().total_seconds()), "the offset sent is that of the time", lambda: (st, dt))
        if kind == "cam" and tz is None:
            c.check(all("basic" not in p for p in st["sets"]), "a naive time keeps the zone", lambda: st["sets"])

    c.run(go())


def zones(c, kind):
    """Zones a device may report."""
    from kasa.iot import IotPlug
    from kasa.iot.iottimezone import TIMEZONE_INDEX
    from kasa.module import Module

    now = instant(c, "now")
    if kind == "iot":
        dev, s = sim.iot_device(sim.data("HS110v4"), IotPlug)
        odd = c.choice("odd", ["index", "none", "error", "null"])
        idx = c.choice("index", [0, 1, 39, 109]) if c.bool("known") else c.int("unknown", -5, 500)
        if odd == "index":
            c.assume(Or(*[idx == k for k in (0, 1, 39, 109)], idx < 0, idx > 109))
        tz = {"index": {"index": idx}, "none": {}, "error": {"err_code": -2, "err_msg": "member not support"}, "null": {"index": None}}[odd]

        def on(ctx, mod, cmd, args):
            if cmd == "get_timezone":
                return {"err_code": 0, **tz}
            return None

        s.on = on

        async def go():
            o = await acatch(dev.update())
            c.check(o.ok, "an update succeeds whatever the zone is", lambda: (repr(o), tz))
            if not o.ok:
                return
            if odd != "index":
                c.reach("no-zone")
                return
            name = str(dev.timezone)
            known = next((TIMEZONE_INDEX[k] for k in (0, 1, 39, 109) if idx == k), None)
            if known is None:
                c.check(dev.timezone.utcoffset(datetime(2024, 7, 1)) == timedelta(0), "an unknown zone is shown as UTC", lambda: (name, tz))
                c.reach("unknown-zone")
            else:
                c.check(name == known, "the zone is the device's", lambda: (name, tz))

        c.run(go())
        return
    sign, hh, mm = c.choice("offset", [("+", 0, 0), ("-", 0, 0), ("+", 5, 45), ("-", 3, 30), ("+", 13, 0), ("-", 11, 0)])
    off = (hh * 60 + mm) * (1 if sign == "+" else -1)
    region = c.choice("region", [None, "", "Nowhere", "Not/A/Zone", "America/Sao_Paulo", "UTC+05:30"]) if kind == "smart" else c.choice("region", ["", "Nowhere", "America/Sao_Paulo"])
    if kind == "smart":
        dev, s = sim.smart_device(sim.data("P110M"))

        def on(target, method, params):
            if method == "get_device_time":
                return {"error_code": 0, "result": {"timestamp": now, "time_diff": off} | ({"region": region} if region is not None else {})}
            return None
    else:
        dev, s = sim.cam_device(sim.data("C210"))

        def on(target, method, params):
            if method == "getClockStatus":
                return {"error_code": 0, "result": {"system": {"clock_status": {"local_time": "x", "seconds_from_1970": now}}}}
            if method == "getTimezone":
                return {"error_code": 0, "result": {"system": {"basic": {"timezone": f"UTC{sign}{hh:02}:{mm:02}", "timing_mode": "ntp", "zone_id": region}}}}
            return None

    s.on = on

    async def go():
        o = await acatch(dev.update())
        c.check(o.ok and Module.Time in dev.modules, "an update succeeds whatever the zone is", lambda: (repr(o), region))
        if not o.ok:
            return
        t = dev.modules[Module.Time]
        o = c.attempt(lambda: t.time)
        c.check(o.ok, "the time is available whatever the zone is", lambda: (repr(o), region))
        if not o.ok:
            return
        c.check(sym_eq(ts(t.time), now), "the time is the device's", lambda: (t.time, region))
        if region == "America/Sao_Paulo":
            c.check(t.timezone is not None and str(t.timezone) == region, "the zone is the device's", lambda: t.timezone)
        else:
            c.check(t.time.utcoffset() == timedelta(minutes=off), "an unknown zone is shown with the reported offset", lambda: (t.timezone, off))
            c.reach("unknown-zone")

    c.run(go())


def table(c):
    """Every zone of the legacy list, shown and set by its index; times before and after the changes of the year."""
    from kasa.iot import IotPlug
    from kasa.iot.iottimezone import TIMEZONE_INDEX, get_matching_timezones
    from kasa.module import Module

    dev, s = sim.iot_device(sim.data("HS110v4"), IotPlug)
    i = c.int("index", 0, 109)
    idx = next(k for k in range(110) if bool(i == k))
    month = c.int("month", 1, 12)
    st: dict = {"index": 39, "sets": []}

    def on(ctx, mod, cmd, args):
        if cmd == "get_time":
            return {"year": 2024, "month": month, "mday": 7, "hour": 5, "min": 4, "sec": 3, "err_code": 0}
        if cmd == "get_timezone":
            return {"index": st["index"], "err_code": 0}
        if cmd == "set_timezone":
            st["sets"].append(args)
            st["index"] = args["index"]
            return {"err_code": 0}
        return None

    s.on = on

    async def go():
        name = TIMEZONE_INDEX[idx]
        await dev.update()
        t = dev.modules[Module.Time]
        o = await acatch(t.set_time(datetime(2024, 3, 4, 5, tzinfo=ZoneInfo(name))))
        c.check(o.ok, "any time can be set", lambda: (repr(o), name))
        c.check(len(st["sets"]) <= 1 and sym_eq(st["index"], idx), "a zone of the list is set by its own index", lambda: (name, st))
        await dev.update()
        c.check(str(dev.timezone) == name, "the zone shown is the one set", lambda: (name, dev.timezone))
        c.check(And(sym_eq(t.time.month, month), sym_eq(t.time.hour, 5)), "the time shown is the device's", lambda: t.time)
        c.check((await get_matching_timezones(ZoneInfo(name)))[0] == name, "a zone of the list matches itself first", lambda: name)
        c.reach("table")

    c.run(go())


def unsupported(c):
    """A legacy device only knows its list of zones."""
    from kasa import KasaException
    from kasa.iot import IotPlug
    from kasa.module import Module

    dev, s = sim.iot_device(sim.data("HS110v4"), IotPlug)
    tz = timezone(timedelta(hours=2, minutes=c.choice("minutes", [15, 10])))

    async def go():
        await dev.update()
        s.clear()
        o = await acatch(dev.modules[Module.Time].set_time(datetime(2024, 5, 6, 7, 8, 9, tzinfo=tz)))
        c.check(o.raised(ValueError, KasaException) and not o.raised(UnboundLocalError), "a zone the device does not know is refused", lambda: repr(o))
        c.check(not s.sets(), "a zone the device does not know is not sent", lambda: s.log)

    c.run(go())


def scenarios(tier):
    return [("table", table), *others(tier)]


def others(tier):
    n = 4 if tier == "thorough" else 3
    out = [(f"on-since-{k}", on_since, {"kind": k, "n": n if k.startswith("smart") else 2 if tier != "thorough" else 3}) for k in ("smart", "smart-strip", "iot", "iot-strip")]
    out += [("strip-min", strip_min, {}), ("no-on-time", no_on_time, {})]
    for kind in ("smart", "cam", "iot"):
        for z in ("naive", *ZONES):
            out.append((f"set-{kind}-{z}", set_time, {"kind": kind, "zone": z}))
        out.append((f"zones-{kind}", zones, {"kind": kind}))
    out.append(("unsupported-zone", unsupported, {}))
    return out
