"""Firmware updates are started only when there is one, and followed to their end."""

from __future__ import annotations

import asyncio

import sim
import statesim
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq

BOUNDS = (
    "a plug and a hub child (firmware component version 1 or 2) with any cloud state and any announced firmware (any type number, present, absent or malformed fields, or an error of four kinds); "
    "an update during which the device gives up to 3 (thorough: 4) answers, each any status number with any flashing time of -2..400 s or one of four errors, and is idle afterwards; any auto-update settings"
)
OUTSIDE = "what the device does with the firmware; the text of release notes; mashumaro's conversions (a stand-in is used for symbolic answers; replays use the library)"
WITNESSES = ["available", "up-to-date", "no-cloud", "check-failed", "refused", "finished", "failed", "flashed", "rebooted", "timeout", "unknown-status", "auto", "no-auto", "not-started"]
QUICK_S, THOROUGH_S = 200, 800

FAULTS = ["device error", "connection error", "timeout", "no data"]


def fault(kind):
    from kasa.exceptions import KasaException, TimeoutError, _ConnectionError

    if kind == "device error":
        return {"error_code": -1}
    if kind == "no data":
        return {"result": {}, "error_code": 0}
    raise {"connection error": _ConnectionError, "timeout": TimeoutError}[kind]("lost")


def device(c, name="P110M"):
    d = sim.data(name)
    from kasa.smart.modules.firmware import DownloadState, UpdateInfo

    sim.model_from_dict(c, DownloadState, UpdateInfo)
    return d


def announce(c):
    """What the device answers when asked for the latest firmware."""
    kind = c.choice("announced", ["complete", "minimal", "no type", "bad date", *FAULTS[:3]])
    if kind in FAULTS:
        return kind, None
    fw = {"type": c.int("type", -5, 10), "need_to_upgrade": bool(c.bool("needed"))}
    if kind == "no type":
        del fw["type"]
    if kind in ("complete", "bad date"):
        fw.update({"fw_ver": c.str("ver", 3), "release_date": "soon" if kind == "bad date" else c.choice("date", ["2024-02-29", ""]), "release_note": "-", "fw_size": c.int("size", 0, 2**40), "oem_id": "x", "extra": 1})
    return kind, fw


def check(c):
    """What is shown about the firmware."""
    from datetime import date

    from kasa import Module

    d = device(c)
    cloud = c.int("cloud", -3, 3)
    d["get_connect_cloud_state"] = {"status": cloud}
    version = c.choice("fwcomp", [1, 2])
    next(x for x in d["component_nego"]["component_list"] if x["id"] == "firmware")["ver_code"] = version
    dev, s = sim.smart_device(d)
    statesim.smart(s)
    kinds = [announce(c)]
    again = bool(c.bool("checked before"))

    def on(target, method, params):
        if method != "get_latest_fw":
            return base(target, method, params)
        kind, fw = kinds[0]
        return fault(kind) if fw is None else {"result": fw, "error_code": 0}

    base, s.on = s.on, on

    async def go():
        await dev.update()
        mod = dev.modules[Module.Firmware]
        c.check(mod.update_available is None and mod.latest_firmware is None and mod.firmware_update_info is None, "nothing is announced before it was asked for")
        c.check(sym_eq(mod.current_firmware, d["get_device_info"]["fw_ver"]), "the firmware of the device is shown")
        if again:
            # a successful check earlier on
            keep, kinds[0] = kinds[0], ("minimal", {"type": 1, "need_to_upgrade": True, "fw_ver": "earlier"})
            await mod.check_latest_firmware()
            c.check(mod.latest_firmware == "earlier", "the announced firmware is shown")
            kinds[0] = keep
        s.clear()
        o = await acatch(mod.check_latest_firmware())
        kind, fw = kinds[0]
        c.check(o.ok, "asking for the latest firmware never fails", lambda: repr(o))
        c.check(not s.sets(), "asking for the latest firmware changes nothing")
        if kind not in ("complete", "minimal"):
            c.check(o.value is None and mod.firmware_update_info is None and mod.update_available is None and mod.latest_firmware is None, "an answer that cannot be used is not shown, nor an older one", lambda: (kind, repr(o)))
            c.reach("check-failed")
        else:
            info = mod.firmware_update_info
            c.check(o.value is info and info is not None, "the announced firmware is returned")
            c.check(sym_eq(mod.latest_firmware, fw.get("fw_ver")), "the announced version is shown")
            c.check(info.release_date == (date(2024, 2, 29) if fw.get("release_date") else None), "the release date is shown")
            c.check(info.needs_upgrade is fw["need_to_upgrade"], "whether the update is needed is shown")
            up = mod.update_available
            if not sym_eq(cloud, 0):
                c.check(up is None, "whether there is an update is not known without the cloud", lambda: up)
                c.reach("no-cloud")
            else:
                c.check(sym_eq(up, Not(sym_eq(fw["type"], 0))), "there is an update unless the device says there is none", lambda: (fw, up))
                c.reach("available" if up else "up-to-date")
        # the update itself
        s.clear()
        allowed = mod.update_available
        if not allowed:
            o = await acatch(mod.update())
            from kasa import KasaException

            c.check(o.raised(KasaException) and not s.sets(), "no update is started without one", lambda: (repr(o), s.sets()))
            c.reach("refused")

    c.run(go())


def update(c):
    """Following an update."""
    from kasa import Module

    d = device(c)
    d["get_connect_cloud_state"] = {"status": 0}
    dev, s = sim.smart_device(d)
    statesim.smart(s)
    n = 4 if c.deep else 3
    plan = []
    for i in range(c.pick("answers", n + 1)):
        k = c.choice("answer", ["state", *FAULTS])
        st = {"download_progress": c.int("progress", 0, 100), "reboot_time": 5, "auto_upgrade": False, "upgrade_time": 5, "status": 0}
        if k == "state":
            st["status"] = c.int("status", -5, 6)
            st["upgrade_time"] = c.int("flash", -2, 400)
        plan.append((k, st))
    dl = c.choice("download", ["ok", "device error", "connection error"])
    queries, started = [], []

    def on(target, method, params):
        if method == "fw_download":
            started.append(c.loop.time())
            return {"error_code": 0, "result": {}} if dl == "ok" else fault(dl)
        if method == "get_fw_download_state":
            now = c.loop.time()
            k, st = plan[0] if plan else ("state", {"download_progress": 100, "reboot_time": 5, "auto_upgrade": False, "upgrade_time": 5, "status": 0})
            queries.append((now, k, st))
            if k == "state":
                if plan:
                    plan.pop(0)
                return {"result": dict(st), "error_code": 0}
            if k == "device error" or len([q for q in queries if q[1] == k and q[2] is st]) == (4 if k != "no data" else 1):
                plan.pop(0)
            return fault(k)
        return base(target, method, params)

    base, s.on = s.on, on

    async def go():
        await dev.update()
        mod = dev.modules[Module.Firmware]
        d["get_latest_fw"] = {"type": 1, "need_to_upgrade": True, "fw_ver": "2.0"}
        await mod.check_latest_firmware()
        s.clear()
        seen = []

        async def progress(state):
            seen.append(state)

        cb = progress if c.bool("callback") else None
        t0 = c.loop.time()
        o = await acatch(mod.update(cb) if cb else mod.update())
        end = c.loop.time()
        await asyncio.sleep(0)
        if dl != "ok":
            c.check(not o.ok and not queries, "an update that could not be started is not followed", lambda: (repr(o), queries))
            c.reach("not-started")
            return
        c.check(len(started) == 1 and len(s.sets()) == 1, "the update is started once", lambda: s.sets())
        states = [(t, st) for t, k, st in queries if k == "state"]
        for i, (t, st) in enumerate(states):
            final = i == len(states) - 1
            fin = Or(sym_eq(st["status"], 0), st["status"] < 0)
            if not final:
                c.check(Not(fin), "an update that ended is not asked about again", lambda: states)
            prev = states[i - 1] if i else None
            if prev is not None:
                c.check(Implies(sym_eq(prev[1]["status"], 3), t - prev[0] >= prev[1]["upgrade_time"]), "the device is left alone while it flashes", lambda: queries)
                c.check(t - prev[0] >= 0.5, "the device is not asked without pause", lambda: queries)
                if sym_eq(prev[1]["status"], 3):
                    c.reach("flashed")
                elif not sym_eq(prev[1]["status"], 2):
                    c.reach("unknown-status")
        # nothing at all is asked while the device flashes
        for (ta, ka, sa), (tb, _, _) in zip(queries, queries[1:]):
            if ka == "state":
                c.check(Implies(sym_eq(sa["status"], 3), tb - ta >= sa["upgrade_time"]), "nothing is asked while the device flashes", lambda: queries)
        c.check(end - t0 <= 301, "an update is given up after five minutes", lambda: (t0, end))
        if any(k != "state" for _, k, _ in queries) and len(states):
            c.reach("rebooted")
        if o.raised(TimeoutError):
            c.check(end - t0 >= 299, "an update is not given up before its time", lambda: (t0, end, queries))
            c.reach("timeout")
        else:
            c.check(o.ok, "trouble while the device reboots does not end the update", lambda: repr(o))
            if not o.ok:
                return
            st = states[-1][1]
            c.check(Or(sym_eq(st["status"], 0), st["status"] < 0), "the update ends when the device says so", lambda: states)
            c.check(And(sym_eq(o.value["status"], st["status"]), sym_eq(o.value["progress"], st["download_progress"])), "the last state of the device is returned", lambda: (o.value, st))
            c.reach("finished" if sym_eq(st["status"], 0) else "failed")
        if cb:
            c.check(len(seen) == len(states), "every state is reported once", lambda: (seen, states))
            for x, (_, st) in zip(seen, states):
                c.check(And(sym_eq(x.status, st["status"]), sym_eq(x.progress, st["download_progress"])), "states are reported in order", lambda: (seen, states))

    c.run(go())


def auto(c):
    from kasa import Module

    d = device(c)
    version = c.choice("fwcomp", [1, 2, 3])
    next(x for x in d["component_nego"]["component_list"] if x["id"] == "firmware")["ver_code"] = version
    stored = {"enable": bool(c.bool("e0")), "random_range": c.int("range", 0, 2000), "time": c.int("time", 0, 1440)}
    d["get_auto_update_info"] = dict(stored)
    dev, s = sim.smart_device(d)
    statesim.smart(s)

    async def go():
        await dev.update()
        mod = dev.modules[Module.Firmware]
        if version == 1:
            c.check("auto_update_enabled" not in dev.features and not any(m == "get_auto_update_info" for _, m, _ in s.log), "firmware that cannot update itself is not asked about it")
            c.reach("no-auto")
            return
        c.check(mod.auto_update_enabled is stored["enable"], "whether the device updates itself is shown")
        e = bool(c.bool("e"))
        s.clear()
        if c.bool("by feature"):
            await dev.features["auto_update_enabled"].set_value(e)
        else:
            await mod.set_auto_update_enabled(e)
        c.check(sym_eq([x[1:] for x in s.sets()], [("set_auto_update_info", {**stored, "enable": e})]), "only whether the device updates itself is changed", lambda: s.sets())
        await dev.update()
        c.check(mod.auto_update_enabled is e, "the device updates itself as asked")
        c.reach("auto")

    c.run(go())


def scenarios(tier):
    return [("check", check, {}), ("update", update, {}), ("auto-update", auto, {})]
