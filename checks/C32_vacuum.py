"""Vacuums: commands fit the state the vacuum is in, and what is shown is what it reports."""

from __future__ import annotations

import copy
from datetime import timedelta
from unittest import mock

import sim
import statesim
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq
from engine.hook import freeze

BOUNDS = (
    "a vacuum with any status code of +-2000, up to 2 error codes of +-2000 (or none reported), any counters of 0..10^6 minutes, any areas and any time of records in 2024 and 2025 (three time zones), any subset of the five consumables it may report, two vacuums updated in either order, "
    "every command, every listed value and any other text of 4 characters"
)
OUTSIDE = "maps and schedules, which the library does not offer; which of several errors is shown first"
WITNESSES = ["resumed", "started", "paused", "held", "home", "error", "unknown-error", "unknown-status", "ok", "records", "consumable", "reset", "no-such", "two", "refused", "set", "emptied", "located"]
QUICK_S, THOROUGH_S = 200, 600


def vacuum(c, d, host=None):
    dev, s = sim.smart_device(d)
    statesim.smart(s)
    return dev, s


class Logged(list):
    """Warnings already logged: a set would need concrete codes."""

    add = list.append


def clean(c):
    from kasa import Module
    from kasa.smart.modules.clean import Clean
    from kasa.smart.modules.clean import ErrorCode, Status

    d = sim.data("RV20")
    st = d["getVacStatus"]
    code = c.int("status", -2000, 2000)
    errs = c.choice("errors", ["none", "empty", 0, 1, 2])
    st["status"] = code
    if errs == "none":
        del st["err_status"]
        errs = []
    elif errs == "empty":
        st["err_status"] = errs = []
    else:
        st["err_status"] = errs = [c.int("err", -2000, 2000) for _ in range(max(errs, 1))]
    d["getCleanInfo"] = info = {"clean_area": c.int("area", 0, 10**6), "clean_percent": c.int("percent", 0, 100), "clean_time": c.int("minutes", 0, 10**6)}
    d["getBatteryInfo"]["battery_percentage"] = c.int("battery", 0, 100)
    d["getCleanAttr"]["clean_number"] = c.int("count", 1, 3)
    if c.symbolic and hasattr(Clean, "_logged_error_code_warnings"):
        c.patch(Clean, "_logged_error_code_warnings", Logged())
        c._stack.enter_context(mock.patch.object(Clean, "_logged_status_code_warnings", Logged(), create=True))
    told = copy.deepcopy({k: freeze(d[k]) for k in ("getVacStatus", "getCleanInfo", "getBatteryInfo", "getCleanAttr", "getCleanRecords")})
    dev, s = vacuum(c, d)

    async def go():
        if c.bool("updated again"):
            # What the vacuum told before is forgotten.
            now = dict(st)
            st.update({"status": 0, "err_status": [2]})
            await dev.update()
            st.clear()
            st.update(now)
        await dev.update()
        mod = dev.modules[Module.Clean]
        for k, v in told.items():
            c.check(sym_eq(dev.internal_state[k], v), "the state kept is the one the vacuum told", lambda: (k, dev.internal_state[k], v))
        known_err = {e.value: e for e in ErrorCode if e is not ErrorCode.UnknownInternal}
        known = {x.value: x for x in Status if x not in (Status.UnknownInternal, Status.Error)}
        if not errs or sym_eq(errs[0], 0):
            c.check(sym_eq(mod.error, ErrorCode.Ok), "a vacuum without errors has none", lambda: mod.error)
            for v, e in known.items():
                if sym_eq(code, v):
                    c.check(sym_eq(mod.status, e), "the status is the one reported", lambda: (code, mod.status))
                    break
            else:
                if not sym_eq(code, 100):
                    c.check(sym_eq(mod.status, Status.UnknownInternal), "a status that is not known is shown as unknown", lambda: (code, mod.status))
                    c.reach("unknown-status")
            c.reach("ok")
        else:
            c.check(sym_eq(mod.status, Status.Error), "a vacuum with an error shows it", lambda: (errs, mod.status))
            hit = [e for v, e in known_err.items() if sym_eq(errs[0], v)]
            c.check(sym_eq(mod.error, hit[0] if hit else ErrorCode.UnknownInternal), "the error is the one reported", lambda: (errs, mod.error))
            c.reach("error" if hit else "unknown-error")
        c.check(sym_eq(mod.clean_area, info["clean_area"]) and sym_eq(mod.clean_progress, info["clean_percent"]), "the progress is the one reported")
        c.check(sym_eq(mod.clean_time.total_seconds(), info["clean_time"] * 60), "the cleaning time is the one reported", lambda: mod.clean_time)
        c.check(sym_eq(mod.battery, told["getBatteryInfo"]["battery_percentage"]), "the battery is the one reported")
        c.check(sym_eq(mod.clean_count, told["getCleanAttr"]["clean_number"]), "the number of rounds is the one reported")
        status = mod.status
        s.clear()
        cmd = c.choice("cmd", ["start", "pause", "resume", "return_home", "dustbin", "locate"])
        go_ = {"start": mod.start, "pause": mod.pause, "resume": mod.resume, "return_home": mod.return_home, "dustbin": dev.modules[Module.Dustbin].start_emptying, "locate": dev.modules[Module.Speaker].locate}[cmd]
        feat = {"start": "vacuum_start", "pause": "vacuum_pause", "return_home": "vacuum_return_home", "dustbin": "dustbin_empty", "locate": "locate"}.get(cmd)
        o = await acatch(dev.features[feat].set_value(None) if feat and c.bool("by feature") else go_())
        sent = [x[1:] for x in s.sets()]
        c.check(o.ok and len(sent) == 1, "a command is one request", lambda: (repr(o), sent))
        if not o.ok or len(sent) != 1:
            return
        m, p = sent[0]
        if cmd == "start" and not sym_eq(status, Status.Paused):
            c.check(m == "setSwitchClean" and p["clean_on"] is True and p["force_clean"] is False, "cleaning is started", lambda: sent)
            c.reach("started")
        elif cmd in ("start", "resume"):
            c.check((m, p) == ("setRobotPause", {"pause": False}), "a paused vacuum goes on", lambda: sent)
            c.reach("resumed")
        elif cmd == "pause" and sym_eq(status, Status.GoingHome):
            c.check((m, p) == ("setSwitchCharge", {"switch_charge": False}), "a vacuum on its way home is held", lambda: sent)
            c.reach("held")
        elif cmd == "pause":
            c.check((m, p) == ("setRobotPause", {"pause": True}), "cleaning is paused", lambda: sent)
            c.reach("paused")
        elif cmd == "return_home":
            c.check((m, p) == ("setSwitchCharge", {"switch_charge": True}), "the vacuum goes home", lambda: sent)
            c.reach("home")
        elif cmd == "dustbin":
            c.check((m, p) == ("setSwitchDustCollection", {"switch_dust_collection": True}), "the dustbin is emptied", lambda: sent)
            c.reach("emptied")
        else:
            c.check((m, p) == ("playSelectAudio", {"audio_type": "seek_me"}), "the vacuum makes itself heard", lambda: sent)
            c.reach("located")

    c.run(go())


def words(c):
    """Settings with names."""
    from kasa import Module

    d = sim.data("RV20")
    dev, s = vacuum(c, d)
    attr = d["getCleanAttr"]
    attr["cistern"] = c.int("water", 0, 3)
    attr["suction"] = c.int("fan", 1, 5)
    dust = d["getDustCollectionInfo"]
    dust.update({"auto_dust_collection": bool(c.bool("auto")), "dust_collection_mode": c.int("mode", 0, 3)})
    before = freeze({**attr, **dust})

    async def go():
        await dev.update()
        what = c.choice("what", ["fan", "water", "dust", "volume"])
        names = {
            "fan": {"Quiet": 1, "Standard": 2, "Turbo": 3, "Max": 4, "Ultra": 5},
            "water": {"Disable": 0, "Low": 1, "Medium": 2, "High": 3},
            "dust": {"Smart": 0, "Light": 1, "Balanced": 2, "Max": 3, "Off": None},
        }
        s.clear()
        if what == "volume":
            v = c.int("v", -(2**31), 2**31)
            mod = dev.modules[Module.Speaker]
            o = await acatch(mod.set_volume(v))
            if Or(v < 0, v > 100):
                c.check(o.raised(ValueError) and not s.sets(), "a volume out of range is refused", lambda: repr(o))
                c.reach("refused")
            else:
                await dev.update()
                c.check(o.ok and sym_eq(mod.volume, v), "the volume is set", lambda: repr(o))
                c.reach("set")
            return
        mod = dev.modules[{"fan": Module.Clean, "water": Module.Mop, "dust": Module.Dustbin}[what]]
        setter = {"fan": "set_fan_speed_preset", "water": "set_waterlevel", "dust": "set_mode"}[what]
        key = {"fan": "suction", "water": "cistern", "dust": "dust_collection_mode"}[what]

        def shown():
            return {"fan": lambda: mod.fan_speed_preset, "water": lambda: mod.waterlevel, "dust": lambda: mod.mode}[what]()

        for n, v in names[what].items():
            off = what == "dust" and not before["auto_dust_collection"]
            if n == "Off":
                c.check((shown() == "Off") is off, "emptying is shown as off when it is", lambda: (before, shown()))
            elif not off:
                c.check(Implies(sym_eq(before[key], v), shown() == n), "the setting is shown by its name", lambda: (before, shown()))
        if c.bool("listed"):
            n = c.choice("name", list(names[what]))
            o = await acatch(getattr(mod, setter)(n))
            c.check(o.ok, "a listed name is accepted", lambda: repr(o))
            now = {**attr, **dust}
            for k, v in before.items():
                want = v
                if k == key and n != "Off":
                    want = names[what][n]
                if k == "auto_dust_collection" and what == "dust":
                    want = n != "Off"
                c.check(sym_eq(now[k], want), "the setting asked for is stored, others stay", lambda: (n, k, before, now))
            await dev.update()
            c.check(shown() == n, "the setting asked for is shown", lambda: (n, shown()))
            c.reach("set")
        else:
            n = c.str("text", c.choice("length", [0, 3, 4]))
            for m in names[what]:
                c.assume(Not(sym_eq(n, m)))
            o = await acatch(getattr(mod, setter)(n))
            c.check(o.raised(ValueError) and not s.sets(), "a name that is not listed is refused", lambda: (n, repr(o), s.sets()))
            c.reach("refused")

    c.run(go())


def records(c):
    from datetime import datetime
    from zoneinfo import ZoneInfo

    from kasa import Module
    from kasa.smart.modules.cleanrecords import Records

    sim.model_from_dict(c, Records)
    d = sim.data("RV20")
    region = c.choice("zone", ["Europe/Berlin", "America/Los_Angeles", "Asia/Kolkata"])
    d["get_device_time"]["region"] = region
    r = d["getCleanRecords"]
    last = [c.int("t", 1704067200, 1767225599), c.int("minutes", 0, 10**6), c.int("area", 0, 10**6), c.choice("dust", [0, 1])]
    r["lastest_day_record"] = last
    tot = {"total_time": c.int("tt", 0, 10**7), "total_area": c.int("ta", 0, 10**7), "total_number": c.int("tn", 0, 10**5)}
    r.update(tot)
    unit = c.pick("unit", 3)
    d["getAreaUnit"]["area_unit"] = unit
    told = freeze(r)
    dev, s = vacuum(c, d)

    async def go():
        await dev.update()
        if c.bool("updated again"):
            await dev.update()
        mod = dev.modules[Module.CleanRecords]
        c.check(sym_eq(dev.internal_state["getCleanRecords"], told), "the state kept is the one the vacuum told", lambda: (dev.internal_state["getCleanRecords"], told))
        c.check(sym_eq(mod.total_clean_time.total_seconds(), tot["total_time"] * 60), "the total time is the one reported", lambda: mod.total_clean_time)
        c.check(And(sym_eq(mod.total_clean_area, tot["total_area"]), sym_eq(mod.total_clean_count, tot["total_number"])), "the totals are the ones reported")
        c.check(sym_eq(mod.last_clean_time.total_seconds(), last[1] * 60), "the last cleaning time is the one reported", lambda: mod.last_clean_time)
        c.check(sym_eq(mod.last_clean_area, last[2]), "the last area is the one reported")
        c.check(sym_eq(mod.last_clean_timestamp.timestamp(), last[0]), "the time of the last cleaning is the one reported", lambda: mod.last_clean_timestamp)
        c.check(mod.last_clean_timestamp.tzinfo == ZoneInfo(region), "times are in the time zone of the vacuum", lambda: mod.last_clean_timestamp)
        c.check(dev.features["total_clean_area"].unit == unit and dev.features["last_clean_area"].unit == unit, "areas are in the unit of the vacuum")
        recs = mod.parsed_data.records
        c.check(len(recs) == len(r["record_list"]) and all(sym_eq(a.clean_area, b["clean_area"]) for a, b in zip(recs, r["record_list"])), "the records are the ones reported, in order")
        c.reach("records")

    c.run(go())


KEYS = {"main_brush": ("roll_brush_time", 400), "side_brush": ("edge_brush_time", 200), "filter": ("filter_time", 200), "sensor": ("sensor_time", 30), "charging_contacts": ("charge_contact_time", 30)}


def consumables(c, two):
    from kasa import Module

    devs = []
    for i in range(2 if two else 1):
        d = sim.data("RV20")
        info = {"main_brush_lid_time": 7, "rag_time": 8}
        for k, (key, _) in KEYS.items():
            if two and k not in ("main_brush", "filter"):
                continue
            if c.bool(f"{i} has {k}"):
                info[key] = c.int(f"{i} {k}", 0, 10**6)
        d["getConsumablesInfo"] = info
        devs.append((*vacuum(c, d), info))

    def shown(i):
        dev, _, info = devs[i]
        mod = dev.modules[Module.Consumables]
        have = {k for k, (key, _) in KEYS.items() if key in info}
        c.check(set(mod.consumables) == have, "the consumables are those the vacuum reports", lambda: (have, list(mod.consumables)))
        for k, (key, hours) in KEYS.items():
            c.check((f"{k}_used" in dev.features) is (k in have) and (f"{k}_remaining" in dev.features) is (k in have) and (f"{k}_reset" in dev.features) is (k in have), "consumables have features if reported", lambda: (k, have))
            if k not in have:
                continue
            used, left = dev.features[f"{k}_used"].value, dev.features[f"{k}_remaining"].value
            con = mod.consumables[k]
            c.check(sym_eq(used.total_seconds(), info[key] * 60), "the time used is the one reported", lambda: (i, k, info, used))
            c.check(sym_eq((used + left).total_seconds(), hours * 3600), "the time left is what remains of the lifetime", lambda: (i, k, used, left))
            c.check(con.used is used and con.remaining is left and con.lifetime == timedelta(hours=hours) and con.id == k, "consumables say the same as features")
        return have

    async def go():
        for dev, *_ in devs:
            await dev.update()
        for i in range(len(devs)):
            shown(i)
        if two:
            c.reach("two")
        which = c.pick("which", len(devs))
        dev, s, info = devs[which]
        # later readings
        for key in list(info):
            if key in dict(KEYS.values()) and c.bool(f"new {key}"):
                info[key] = c.int(f"later {key}", 0, 10**6)
        await dev.update()
        before = {}
        if two:
            for i in range(2):
                shown(i)
        have = shown(which)
        mod = dev.modules[Module.Consumables]
        k = c.choice("reset", list(KEYS))
        s.clear()
        o = await acatch(mod.reset_consumable(k) if k not in have or c.bool("by module") else dev.features[f"{k}_reset"].set_value(None))
        if k not in have:
            c.check(not o.ok and not s.sets(), "a consumable the vacuum lacks is not reset", lambda: (k, repr(o), s.sets()))
            c.reach("no-such")
            return
        c.check(o.ok and [x[1:] for x in s.sets()] == [("resetConsumablesTime", {"reset_list": [KEYS[k][0].removesuffix("_time")]})], "only the consumable asked for is reset", lambda: (repr(o), s.sets()))
        info[KEYS[k][0]] = 0
        await dev.update()
        shown(which)
        c.reach("reset")
        c.reach("consumable")

    c.run(go())


def scenarios(tier):
    return [
        ("clean", clean, {}),
        ("words", words, {}),
        ("records", records, {}),
        ("consumables", consumables, {"two": False}),
        ("consumables-two", consumables, {"two": True}),
    ]
