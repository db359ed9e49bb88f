"""Readings: what a device reports is what its features show."""

from __future__ import annotations

import copy
import time as _time
from datetime import timezone

import sim
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq

BOUNDS = (
    "temperature and humidity, contact, water leak, motion and heating sensors as one of two children of a hub, a plug with protections, a wall dimmer with HomeKit, a vacuum with mop, a camera, a camera hub with a battery camera, an older plug and dimmer; "
    "two reports in a row with every reading any value of its kind (integers, fractions, switches, texts, times in 2024 and 2025), every optional reading reported or not"
)
OUTSIDE = "readings that appear or disappear between two reports; energy (C25), times (C26), firmware (C31), vacuums (C32), alarms, timers and heating (C30)"
WITNESSES = ["night", "T315", "T110", "T300", "T100", "KE100", "optional-missing", "never-triggered", "plug", "cloud-error", "cloud", "homekit", "mop", "camera", "battery", "charging", "matter", "logs", "iot", "ambient"]
QUICK_S, THOROUGH_S = 120, 400

MISSING = object()


def integer(lo, hi):
    return lambda c, n: c.int(n, lo, hi)


def number(lo, hi):
    return lambda c, n: c.real(n, lo, hi)


def flag(c, n):
    return c.bool(n)


def oneof(*xs):
    return lambda c, n: c.choice(n, list(xs))


RADIO = {"rssi": integer(-200, -1), "signal_level": integer(0, 3), "report_interval": integer(0, 10**5)}
RADIO_F = {"rssi": ("rssi", "dBm"), "signal_level": ("signal_level", None), "report_interval": ("report_interval", "s")}
LOW = {"at_low_battery": flag}


def low(r):
    return r["at_low_battery"] if "at_low_battery" in r else r["is_low"]


# what is reported; which of it may be missing; which features show it and in which unit
SENSORS = {
    "T315": (
        {
            **RADIO,
            **LOW,
            "current_humidity": integer(0, 100),
            "current_humidity_exception": integer(-100, 100),
            "current_temp": number(-50, 100),
            "current_temp_exception": number(-100, 100),
            "temp_unit": oneof("celsius", "fahrenheit"),
            "battery_percentage": integer(0, 100),
        },
        ["current_temp_exception", "battery_percentage", "at_low_battery", "at_low_battery>is_low", "rssi", "signal_level"],
        {
            **RADIO_F,
            "humidity": ("current_humidity", "%"),
            "humidity_warning": (lambda r: Not(sym_eq(r["current_humidity_exception"], 0)), None),
            "temperature": ("current_temp", lambda r: r["temp_unit"]),
            "temperature_warning": (lambda r: Not(sym_eq(r["current_temp_exception"], 0)), None),
            "temperature_unit": ("temp_unit", None),
            "battery_level": ("battery_percentage", "%"),
            "battery_low": (low, None),
        },
    ),
    "T110": ({**RADIO, **LOW, "open": flag}, ["at_low_battery", "at_low_battery>is_low", "open"], {**RADIO_F, "is_open": ("open", None), "battery_low": (low, None)}),
    "T300": (
        {**RADIO, **LOW, "water_leak_status": oneof("normal", "water_leak", "water_dry"), "in_alarm": flag, "trigger_timestamp": integer(1704067200 + 86400, 1767225600 - 86400), "battery_percentage": integer(0, 100)},
        ["trigger_timestamp", "battery_percentage"],
        {
            **RADIO_F,
            "water_leak": (lambda r: leak(r["water_leak_status"]), None),
            "water_alert": ("in_alarm", None),
            "battery_level": ("battery_percentage", "%"),
            "battery_low": (low, None),
        },
    ),
    "T100": ({**RADIO, **LOW, "detected": flag}, ["at_low_battery"], {**RADIO_F, "motion_detected": ("detected", None), "battery_low": (low, None)}),
    "KE100": (
        {"rssi": integer(-200, -1), "signal_level": integer(0, 3), **LOW, "current_temp": number(-50, 100), "battery_percentage": integer(0, 100)},
        ["battery_percentage", "at_low_battery"],
        {
            "rssi": ("rssi", "dBm"),
            "signal_level": ("signal_level", None),
            "temperature": ("current_temp", lambda r: "celsius"),
            "battery_level": ("battery_percentage", "%"),
            "battery_low": (low, None),
        },
    ),
}


def leak(v):
    from kasa.smart.modules.waterleaksensor import WaterleakStatus as W

    return {"normal": W.Normal, "water_leak": W.LeakDetected, "water_dry": W.Drying}[v]


def report(c, fields, gone, tag):
    out = {}
    for k, gen in fields.items():
        if gone is not None and gone.split(">")[0] == k:
            if ">" in gone:
                out[gone.split(">")[1]] = gen(c, f"{k}{tag}")
            continue
        out[k] = gen(c, f"{k}{tag}")
    return out


def shown(c, dev, r, features):
    for fid, (src, unit) in features.items():
        try:
            want = r[src] if isinstance(src, str) else src(r)
        except KeyError:
            want = MISSING
        f = dev.features.get(fid)
        if want is MISSING:
            c.check(f is None, "a reading that is not reported is not shown", lambda: fid)
            continue
        c.check(f is not None, "a reading that is reported is shown", lambda: (fid, list(dev.features)))
        if f is None:
            continue
        o = c.attempt(lambda: f.value)
        c.check(o.ok, "a reading can be read", lambda: (fid, repr(o)))
        c.check(o.ok and sym_eq(o.value, want), "a reading is the one reported", lambda: (fid, o, want))
        u = unit(r) if callable(unit) else unit
        c.check(sym_eq(f.unit, u) if u is not None else f.unit is None, "a reading has its unit", lambda: (fid, f.unit, u))


def sensor(c, model):
    fields, optional, features = SENSORS[model]
    from kasa import Module

    hub = sim.data("H100")
    src = sim.data(model)
    tpl = src["get_device_info"]
    other = sim.data("T315" if model != "T315" else "T110")
    names = [model, "T315" if model != "T315" else "T110"]
    if c.bool("listed second"):
        names.reverse()
    gone = c.choice("missing", [None, *optional])
    datas = {model: src, names[0] if names[1] == model else names[1]: other}
    kids, comps, infos, told = {}, [], {}, {}

    def state(i):
        for n in names:
            f, _, _ = SENSORS[n]
            r = report(c, f, gone if n == model else None, f" {n} {i}")
            base = {k: v for k, v in copy.deepcopy(datas[n]["get_device_info"]).items() if k not in f}
            infos[n] = {**base, **r, "device_id": f"ID-{n}", "parent_device_id": "HUB"}
            told[n] = r
        hub["get_child_device_list"] = {"child_device_list": [infos[n] for n in names], "start_index": 0, "sum": 2}

    for n in names:
        comps.append({"component_list": datas[n]["component_nego"]["component_list"], "device_id": f"ID-{n}"})
        kids[f"ID-{n}"] = {k: v for k, v in datas[n].items() if k != "get_device_info"}
        kids[f"ID-{n}"]["get_connect_cloud_state"] = {"status": 0}
    hub["get_child_device_component_list"] = {"child_component_list": comps, "start_index": 0, "sum": 2}
    dev, s = sim.smart_device(hub)
    s.children = kids

    async def go():
        for i in range(2):
            state(i)
            await dev.update()
            c.check(len(dev.children) == 2, "the hub has both sensors", lambda: dev.children)
            for n in names:
                child = next((x for x in dev.children if x.device_id == f"ID-{n}"), None)
                c.check(child is not None and child.model == n, "the sensor is the one listed", lambda: n)
                if child is None:
                    return
                feats = dict(SENSORS[n][2])
                if "report_interval" in feats and not any(x["id"] == "report_mode" for x in datas[n]["component_nego"]["component_list"]):
                    feats["report_interval"] = (lambda r: {}["not supported"], None)
                shown(c, child, told[n], feats)
                if n == "T300":
                    ts = told[n].get("trigger_timestamp", None)
                    f = child.features["water_alert_timestamp"]
                    if ts is None:
                        c.check(f.value is None, "an alert that never was has no time", lambda: f.value)
                        c.reach("never-triggered")
                    else:
                        c.check(f.value is not None and sym_eq(f.value.timestamp(), ts), "the last alert is when it was reported", lambda: (f.value, ts))
                if "rssi" in told[n]:
                    c.check(sym_eq(child.rssi, told[n]["rssi"]), "the signal strength is the one reported", lambda: child.rssi)
        c.reach(model)
        if gone:
            c.reach("optional-missing")

    c.run(go())


def plug(c):
    """A plug: protections, cloud, Matter codes, network."""
    d = sim.data("P110M")
    clock = [0.0]
    if c.symbolic:
        c.patch(_time, "monotonic", lambda: clock[0])
    kind = c.choice("overheat", ["status", "flag", "both", "none"])
    cloud = c.choice("cloud", ["status", "error", "late error"])
    dev, s = sim.smart_device(d)
    told: dict = {}
    none = c.choice("missing", [None, "rssi", "signal_level", "ssid"])

    def state(i):
        info = d["get_device_info"]
        for k in ("overheat_status", "overheated"):
            info.pop(k, None)
        r = {
            "rssi": c.int(f"rssi{i}", -200, -1),
            "signal_level": c.int(f"level{i}", 0, 3),
            "power_protection_status": c.choice(f"protection{i}", ["normal", "overloaded", "something_new"]),
            "device_on": c.bool(f"on{i}"),
        }
        if kind in ("status", "both"):
            r["overheat_status"] = c.choice(f"heat{i}", ["normal", "cool_down", "overheated", "something_new"])
        if kind in ("flag", "both"):
            r["overheated"] = c.bool(f"hot{i}")
        info.update(r)
        info["ssid"] = ["bXkgbmV0", "I8O8w7wg8J+YgA=="][i]
        for k in ("rssi", "signal_level", "ssid"):
            if k == none:
                info.pop(k, None)
                r.pop(k, None)
        r["ssid text"] = ["my net", "#üü 😀"][i]
        r["code"], r["payload"] = c.str(f"code{i}", 11, 48, 57), c.str(f"payload{i}", 6, 48, 90)
        d["get_matter_setup_info"] = {"setup_code": r["code"], "setup_payload": r["payload"]}
        if cloud == "error" or (cloud == "late error" and i == 1):
            d["get_connect_cloud_state"] = -1001
            r["cloud"] = False
        else:
            st = c.int(f"cloud{i}", -3, 10)
            d["get_connect_cloud_state"] = {"status": st}
            r["cloud"] = sym_eq(st, 0)
        told.clear()
        told.update(r)

    features = {
        "rssi": ("rssi", "dBm"),
        "signal_level": ("signal_level", None),
        "state": ("device_on", None),
        "overloaded": (lambda r: r["power_protection_status"] == "overloaded", None),
        "overheated": (lambda r: (r["overheat_status"] != "normal") if "overheat_status" in r else r["overheated"], None),
        "matter_setup_code": ("code", None),
        "matter_setup_payload": ("payload", None),
    }

    async def go():
        for i in range(2):
            state(i)
            clock[0] += 3600
            if not c.symbolic:
                for m in dev.modules.values():
                    m._last_update_time = None
            await dev.update()
            shown(c, dev, told, features)
            f = dev.features.get("ssid")
            c.check((f is None) if none == "ssid" else (f is not None and f.value == told["ssid text"]), "the network is the one reported", lambda: f and f.value)
            f = dev.features.get("cloud_connection")
            if cloud == "error":
                c.check(f is None or f.value is False, "a device that does not tell is not shown connected", lambda: f.value)
                c.reach("cloud-error")
            elif cloud == "late error" and i == 1:
                c.check(f is None or f.value is False, "a device that no longer tells is not shown connected", lambda: f.value)
            else:
                c.check(f is not None and sym_eq(f.value, told["cloud"]), "the cloud connection is as reported", lambda: (f, told))
                c.reach("cloud")
        c.reach("plug")

    c.run(go())


def homekit(c):
    d = sim.data("KS240")
    dev, s = sim.smart_device(d)

    async def go():
        for i in range(2):
            code = c.str(f"code{i}", 10, 45, 57)
            d["get_homekit_info"]["mfi_setup_code"] = code
            await dev.update()
            c.check(sym_eq(dev.features["homekit_setup_code"].value, code), "the HomeKit code is the one reported")
        c.reach("homekit")

    c.run(go())


def mop(c):
    d = sim.data("RV20")
    dev, s = sim.smart_device(d)

    async def go():
        for i in range(2):
            on = c.bool(f"mop{i}")
            d["getMopState"] = {"mop_state": on}
            await dev.update()
            c.check(sym_eq(dev.features["mop_attached"].value, on), "the mop is attached when reported")
        c.reach("mop")

    c.run(go())


def night(c):
    """The indicator's mode and its night hours."""
    from kasa import Module

    d = sim.data("P110M")
    dev, s = sim.smart_device(d)
    clock = [0.0]
    if c.symbolic:
        c.patch(_time, "monotonic", lambda: clock[0])

    async def go():
        for i in range(2):
            clock[0] += 3600
            if not c.symbolic:
                for m in dev.modules.values():
                    m._last_update_time = None
            rule = c.choice(f"rule{i}", ["always", "never", "night_mode"])
            n = {k: c.int(f"{k}{i}", -(2**31), 2**31) for k in ("start_time", "end_time", "sunrise_offset", "sunset_offset")}
            kind = c.choice(f"kind{i}", ["sunrise_sunset", "custom", "unknown"])
            d["get_led_info"] = {"bri_config": {"bri_type": "overall", "overall_bri": 50}, "led_rule": rule, "led_status": c.bool(f"lit{i}"), "night_mode": {**n, "night_mode_type": kind}}
            await dev.update()
            led = dev.modules[Module.Led]
            c.check(led.mode == rule and led.led == (rule != "never") and dev.features["led"].value == (rule != "never"), "the indicator is shown as reported")
            o = c.attempt(lambda: led.night_mode_settings)
            want = {"start": n["start_time"], "end": n["end_time"], "type": kind, "sunrise_offset": n["sunrise_offset"], "sunset_offset": n["sunset_offset"]}
            c.check(o.ok and sym_eq(o.value, want), "the night hours are the ones reported", lambda: repr(o))
        c.reach("night")

    c.run(go())


def logs(c, n):
    """The log of a contact sensor."""
    from kasa import Module
    from kasa.smart.modules.triggerlogs import LogEntry

    if c.symbolic:
        sim.model_from_dict(c, LogEntry)
    d = sim.data("T110")
    d["get_connect_cloud_state"] = {"status": 0}
    dev, s = sim.smart_device(d)
    entries = [{"id": c.int(f"id{i}", 0, 10**6), "eventId": f"event{i}", "timestamp": c.int(f"at{i}", 0, 2**31), "event": c.choice(f"e{i}", ["open", "close", "keepOpen"])} for i in range(n)]
    d["get_trigger_logs"] = {"logs": entries, "start_id": 0, "sum": n}

    async def go():
        await dev.update()
        got = dev.modules[Module.TriggerLogs].logs
        c.check(len(got) == n, "every event is in the log", lambda: got)
        for g, e in zip(got, entries):
            c.check(And(sym_eq(g.id, e["id"]), sym_eq(g.timestamp, e["timestamp"]), g.event == e["event"], g.event_id == e["eventId"]), "an event is as reported", lambda: (g, e))
        c.reach("logs")

    c.run(go())


def camera(c):
    d = sim.data("C210")
    wired = bool(c.bool("wired"))
    dev, s = sim.cam_device(d)

    async def go():
        for i in range(2):
            rssi, level = c.int(f"rssi{i}", -200, -1), c.choice(f"level{i}", ["0", "1", "2", "3", "4"])
            d["getConnectionType"] = {"link_type": "ethernet"} if wired else {"link_type": "wifi", "rssi": level, "rssiValue": rssi, "ssid": "x"}
            await dev.update()
            f, g = dev.features.get("rssi"), dev.features.get("signal_level")
            if wired:
                c.check(f is None and g is None, "a camera on a cable has no signal", lambda: (f, g))
            else:
                c.check(f is not None and sym_eq(f.value, rssi) and f.unit == "dBm", "the signal strength is the one reported", lambda: (f, rssi))
                c.check(g is not None and str(g.value) == level, "the signal level is the one reported", lambda: (g, level))
        c.reach("camera")

    c.run(go())


BATTERY = (
    {
        "battery_percent": integer(0, 100),
        "low_battery": flag,
        "battery_temperature": integer(-50, 100),
        "battery_voltage": integer(0, 20000),
        "battery_charging": oneof("NO", "YES", "FULL"),
    },
    {
        "battery_level": ("battery_percent", "%"),
        "battery_low": ("low_battery", None),
        "battery_temperature": ("battery_temperature", "celsius"),
        "battery_charging": (lambda r: r["battery_charging"] != "NO", None),
    },
)


def battery(c):
    """A camera hub with a battery camera."""
    d = sim.data("H200")
    fields, features = BATTERY
    base = d["getChildDeviceList"]["child_device_list"][0]
    kid = {k: v for k, v in sim.data("D230").items() if k.startswith("get") and k != "getDeviceInfo"}
    dev, s = sim.cam_device(d)
    cid = base["device_id"]
    s.children = {cid: kid}

    async def go():
        for i in range(2):
            r = report(c, fields, None, f" {i}")
            code = c.str(f"code{i}", 11, 48, 57)
            payload = c.str(f"payload{i}", 4, 48, 90)
            d["getChildDeviceList"]["child_device_list"][0] = {**base, **r}
            d["getMatterSetupInfo"] = {"setup_code": code, "setup_payload": payload}
            await dev.update()
            c.check(And(sym_eq(dev.features["matter_setup_code"].value, code), sym_eq(dev.features["matter_setup_payload"].value, payload)), "the Matter codes are the ones reported")
            c.check(len(dev.children) == 1, "the hub has its camera")
            child = dev.children[0]
            shown(c, child, r, features)
            f = child.features["battery_voltage"]
            v = f.value * 1000 - r["battery_voltage"]
            c.check(And(v < 1e-3, v > -1e-3) and f.unit == "V", "the voltage is the one reported, in volts", lambda: (f.value, r))
            if r["battery_charging"] == "YES":
                c.reach("charging")
        c.reach("battery")
        c.reach("matter")

    c.run(go())


def iot(c, kind):
    from kasa.iot import IotDimmer, IotPlug
    from kasa.iot.modules.cloud import CloudInfo

    if c.symbolic:
        sim.model_from_dict(c, CloudInfo)
    d = sim.data("HS110v4" if kind == "plug" else "ES20M")
    dev, s = sim.iot_device(d, IotPlug if kind == "plug" else IotDimmer)

    async def go():
        for i in range(2):
            rssi = c.int(f"rssi{i}", -200, 0)
            d["system"]["get_sysinfo"]["rssi"] = rssi
            con = c.int(f"cloud{i}", 0, 1)
            d.setdefault("cnCloud", {})["get_info"] = {
                "binded": 1, "cld_connection": con, "fwDlPage": "", "fwNotifyType": 0, "illegalType": 0, "server": "s", "stopConnect": 0, "tcspInfo": "", "tcspStatus": 1, "username": "u", "err_code": 0,
            }  # fmt: skip
            brt = c.int(f"brt{i}", 0, 100)
            if kind == "dimmer":
                d["smartlife.iot.LAS"]["get_current_brt"] = {"value": brt}
            await dev.update()
            f = dev.features["rssi"]
            c.check(sym_eq(f.value, rssi) and f.unit == "dBm" and sym_eq(dev.rssi, rssi), "the signal strength is the one reported", lambda: (f.value, rssi))
            f = dev.features.get("cloud_connection")
            c.check(f is not None and sym_eq(f.value, sym_eq(con, 1)), "the cloud connection is as reported", lambda: (f.value, con))
            if kind == "dimmer":
                f = dev.features["ambient_light"]
                c.check(sym_eq(f.value, brt) and f.unit == "%", "the ambient light is the one reported", lambda: (f.value, brt))
                c.reach("ambient")
        c.reach("iot")

    c.run(go())


def scenarios(tier):
    out = [(f"sensor-{m}", lambda c, m=m: sensor(c, m)) for m in SENSORS]
    out += [("plug", plug), ("homekit", homekit), ("mop", mop), ("night", night), ("camera", camera), ("battery", battery), ("iot-plug", lambda c: iot(c, "plug")), ("iot-dimmer", lambda c: iot(c, "dimmer"))]
    out += [(f"logs-{n}", lambda c, n=n: logs(c, n)) for n in ((0, 2) if tier == "quick" else (0, 2, 4))]
    return out
