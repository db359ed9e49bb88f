"""A device offers what it declares: modules, features and queries follow its components."""

from __future__ import annotations

import C19_features as feats
import sim
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq
from engine.hook import freeze

BOUNDS = "18 kinds of devices and their children, up to two of their components missing or all but two, every version of the components from 0 to 20, any kind flags and feature words of legacy devices"
OUTSIDE = "devices without the component `device`, which all have; values of on_since without a clock and of presets of lamps that cannot be dimmed; component names as any text (they are keys)"
WITNESSES = ["offered", "missing", "only", "newer", "older", "child", "camera", "legacy", "value"]
QUICK_S, THOROUGH_S = 240, 800

ALWAYS_V = object()


def over(n):
    return lambda v: v > n


# component -> [(module, methods, features)]; a method or feature may be (name, condition on the version)
SMART = {
    "device": [("DeviceModule", ["get_device_info", ("get_device_usage", over(1))], [])],
    "time": [("Time", ["get_device_time"], ["device_time"])],
    "cloud_connect": [("Cloud", ["get_connect_cloud_state"], ["cloud_connection"])],
    "firmware": [("Firmware", [("get_auto_update_info", over(1))], ["available_firmware_version", "check_latest_firmware", "current_firmware_version", "update_available", ("auto_update_enabled", over(1))])],
    "led": [("Led", ["get_led_info"], ["led"])],
    "brightness": [("Brightness", [], ["brightness"])],
    "color": [("Color", [], ["hsv"])],
    "color_temperature": [("ColorTemperature", [], ["color_temperature"])],
    "preset": [("LightPreset", ["get_preset_rules"], ["light_preset"])],
    "on_off_gradually": [
        ("LightTransition", ["get_on_off_gradually_info"], [("smooth_transitions", lambda v: v < 2), ("smooth_transition_on", over(1)), ("smooth_transition_off", over(1))]),
    ],
    "light_effect": [("LightEffect", ["get_dynamic_light_effect_rules"], ["light_effect"])],
    "light_strip_lighting_effect": [("LightEffect", [], ["light_effect"])],
    "fan_control": [("Fan", [], ["fan_sleep_mode", "fan_speed_level"])],
    "homekit": [("HomeKit", ["get_homekit_info"], ["homekit_setup_code"])],
    "matter": [("Matter", ["get_matter_setup_info"], ["matter_setup_code", "matter_setup_payload"])],
    "auto_off": [("AutoOff", ["get_auto_off_config"], ["auto_off_at", "auto_off_enabled", "auto_off_minutes"])],
    "energy_monitoring": [
        ("Energy", ["get_energy_usage", ("get_current_power", over(1)), ("get_emeter_data", over(1)), ("get_emeter_vgain_igain", over(1))], ["consumption_this_month", "consumption_today", "current_consumption", ("current", over(1)), ("voltage", over(1))]),
    ],
    "power_protection": [("PowerProtection", ["get_protection_power", "get_max_power"], ["overloaded", "power_protection_threshold"])],
    "child_device": [("ChildDevice", ["get_child_device_list", "get_child_device_component_list"], [])],
    "child_quick_setup": [("ChildSetup", ["get_support_child_device_category"], ["pair"])],
    "alarm": [("Alarm", ["get_alarm_configure", "get_support_alarm_type_list"], ["alarm", "alarm_duration", "alarm_sound", "alarm_source", "alarm_volume", "alarm_volume_level", "stop_alarm", "test_alarm"])],
    "battery_detect": [("BatterySensor", [], ["battery_low", "battery_level"])],
    "frost_protection": [("FrostProtection", [], [])],
    "child_protection": [("ChildProtection", [], ["child_lock"])],
    "temperature": [("TemperatureSensor", [], ["temperature", "temperature_unit", "temperature_warning"])],
    "temp_control": [("TemperatureControl", [], ["state", "target_temperature", "temperature_offset", "thermostat_mode"])],
    "humidity": [("HumiditySensor", [], ["humidity", "humidity_warning"])],
    "report_mode": [("ReportMode", [], ["report_interval"])],
    "trigger_log": [("TriggerLogs", ["get_trigger_logs"], [])],
    "sensor_alarm": [("WaterleakSensor", [], ["water_alert", "water_leak", "water_alert_timestamp"])],
    "sensitivity": [("MotionSensor", [], ["motion_detected"])],
    "button_and_led": [("ChildLock", ["getChildLockInfo"], ["child_lock"])],
    "clean": [
        (
            "Clean",
            ["getVacStatus", "getCleanInfo", "getCarpetClean", "getAreaUnit", "getBatteryInfo", "getCleanStatus", "getCleanAttr"],
            ["battery_level", "carpet_boost", "clean_area", "clean_count", "clean_progress", "clean_time", "vacuum_error", "vacuum_fan_speed", "vacuum_pause", "vacuum_return_home", "vacuum_start", "vacuum_status"],
        )
    ],
    "clean_percent": [("CleanRecords", ["getCleanRecords"], ["last_clean_area", "last_clean_time", "last_clean_timestamp", "total_clean_area", "total_clean_count", "total_clean_time"])],
    "consumables": [("Consumables", ["getConsumablesInfo"], [f"{a}_{b}" for a in ("charging_contacts", "filter", "main_brush", "sensor", "side_brush") for b in ("remaining", "reset", "used")])],
    "dust_bucket": [("Dustbin", ["getAutoDustCollection", "getDustCollectionInfo"], ["dustbin_autocollection_enabled", "dustbin_empty", "dustbin_mode"])],
    "speaker": [("Speaker", ["getVolume"], ["locate", "volume"])],
    "mop": [("Mop", ["getMopState", "getCleanAttr"], ["mop_attached", "mop_waterlevel"])],
}  # fmt: skip
# what needs its state in the device's own information as well: parents list components of their children
NEEDS = {"brightness": "brightness", "preset": "brightness", "on_off_gradually": "brightness", "fan_control": "fan_speed_level", "auto_off": "auto_off_status", "energy_monitoring": "device_on", "power_protection": "power_protection_status"}
# features there only when reported
REPORTED = {"temperature_warning": "current_temp_exception", "temperature_unit": "temp_unit", "battery_level": "battery_percentage", "battery_low": "at_low_battery", "humidity_warning": "current_humidity_exception", "alarm_source": None}
# information -> feature of the device itself
OWN = {"device_on": "state", "signal_level": "signal_level", "rssi": "rssi", "ssid": "ssid", "on_time": "on_since"}
PARENT_ONLY = {"device", "time", "firmware", "cloud_connect"}

CAM = {
    "led": [("Led", ["getLedStatus"], ["led"])],
    "video": [("Camera", [], ["state"])],
    "ptz": [("PanTilt", [], ["pan_left", "pan_right", "pan_step", "tilt_down", "tilt_step", "tilt_up"])],
    "lensMask": [("LensMask", ["getLensMaskConfig"], [])],
    "detection": [("MotionDetection", ["getDetectionConfig"], ["motion_detection"])],
    "babyCryDetection": [("BabyCryDetection", ["getBCDConfig"], ["baby_cry_detection"])],
    "personDetection": [("PersonDetection", ["getPersonDetectionConfig"], ["person_detection"])],
    "tamperDetection": [("TamperDetection", ["getTamperDetectionConfig"], ["tamper_detection"])],
    "petDetection": [("PetDetection", ["getPetDetectionConfig"], ["pet_detection"])],
    "siren": [("Alarm", ["getSirenStatus", "getSirenConfig", "getSirenTypeList"], ["alarm", "alarm_duration", "alarm_sound", "alarm_volume", "stop_alarm", "test_alarm"])],
    "childControl": [("childdevice", ["getChildDeviceList", "getChildDeviceComponentList"], [])],
    "childQuickSetup": [("ChildSetup", ["getSupportChildDeviceCategory"], ["pair"])],
    "matter": [("Matter", ["getMatterSetupInfo"], ["matter_setup_code", "matter_setup_payload"])],
    "homekit": [("HomeKit", ["getHomekitInfo"], ["homekit_setup_code"])],
    "battery": [("Battery", [], ["battery_charging", "battery_low", "battery_level", "battery_temperature", "battery_voltage"])],
}  # fmt: skip
CAM_ALWAYS = [("devicemodule", ["getDeviceInfo", "getConnectionType"], ["device_id", "rssi", "signal_level"]), ("Time", ["getTimezone", "getClockStatus"], ["device_time"])]

# (data, child or None, mandatory: what the rest of the kind stands on)
DEVS = {
    "L530E": ("L530E", None), "L900": ("L900", None), "HS220s": ("HS220s", None), "KS225": ("KS225", None), "P110M": ("P110M", None), "H100": ("H100", None), "P300": ("P300", None),
    "KS240": ("KS240", None), "RV20": ("RV20", None), "KE100": ("H100", 0), "T315": ("H100", 1), "outlet": ("P300", 0), "fan": ("KS240", 1), "dimmer": ("KS240", 0), "P304M": ("P304M", None), "metered outlet": ("P304M", 0),
}  # fmt: skip
KEEP = {"device", "child_device", "control_child"}
# a light stands on its brightness
LIGHT = {"color", "color_temperature", "preset", "on_off_gradually", "light_effect", "light_strip_lighting_effect"}


def plan(c, known, mode):
    """Which of the known components are listed."""
    n = len(known)
    if mode == "without":
        i = c.pick("gone", n + 1)
        j = c.pick("also gone", i + 1) if c.tier == "thorough" else i
        gone = {known[k] for k in (i, j) if k < n}
        if gone:
            c.reach("missing")
        return [k for k in known if k not in gone]
    i = c.pick("only", n)
    j = c.pick("and", i + 1)
    c.reach("only")
    return [known[k] for k in sorted({i, j})]


def wanted(names, listed, table, sysinfo, versions):
    """(module names, features, methods) of the listed components."""
    mods, fs, ms = set(), set(), set()
    for comp in names:
        if comp not in listed or comp not in table:
            continue
        if comp in NEEDS and table is SMART and NEEDS[comp] not in sysinfo:
            continue
        for m, methods, features in table[comp]:
            mods.add(m)
            for x in methods:
                if isinstance(x, str) or x[1](versions[comp]):
                    ms.add(x if isinstance(x, str) else x[0])
            for x in features:
                name = x if isinstance(x, str) else x[0]
                if (isinstance(x, str) or x[1](versions[comp])) and (table is CAM or name not in REPORTED or REPORTED[name] is None or REPORTED[name] in sysinfo or comp == "clean"):
                    fs.add(name)
    return mods, fs, ms


def smart(c, kind, mode):
    name, at = DEVS[kind]
    d = sim.data(name)
    kids = d.get("get_child_device_component_list", {}).get("child_component_list", [])
    cid = kids[at]["device_id"] if at is not None else None
    raw = d["component_nego"] if at is None else kids[at]
    comps = raw["component_list"]
    known = [x["id"] for x in comps if x["id"] in SMART and x["id"] not in KEEP]
    listed = plan(c, known, mode)
    if any(x in LIGHT for x in listed) and "brightness" in known and "brightness" not in listed:
        listed.append("brightness")
    versions = {}
    for x in comps:
        versions[x["id"]] = x["ver_code"]
        if x["id"] in SMART:
            versions[x["id"]] = x["ver_code"] = c.int(f"v {x['id']}", 0, 20)
    if kind == "dimmer":
        c.assume(versions["on_off_gradually"] > 1)  # its state has two directions
    raw["component_list"] = [x for x in comps if x["id"] in listed or x["id"] not in known]
    listed += [x["id"] for x in comps if x["id"] not in known]

    state = {"enable": True, "duration": 1, "max_duration": 60}
    grad = {"enable": True, "on_state": dict(state), "off_state": dict(state)}

    meter = {
        "get_energy_usage": {"today_runtime": 1, "month_runtime": 2, "today_energy": 3, "month_energy": 4, "local_time": "2024-03-01 10:00:00", "electricity_charge": [0, 0, 0], "current_power": 7000},
        "get_current_power": {"current_power": 7},
        "get_emeter_data": {"current_ma": 10, "energy_wh": 100, "power_mw": 7000, "voltage_mv": 230000},
        "get_emeter_vgain_igain": {"igain": 1, "vgain": 1},
        "get_protection_power": {"enabled": False, "protection_power": 0},
        "get_max_power": {"max_power": 3000},
    }

    def on(target, method, params):
        if target is not None and method in meter:
            return {"result": freeze(meter[method]), "error_code": 0}
        if method == "get_on_off_gradually_info":
            return {"result": freeze(grad), "error_code": 0}
        if method == "get_device_usage":
            return {"result": {"time_usage": {"today": 1, "past7": 1, "past30": 1}}, "error_code": 0}
        if method == "get_connect_cloud_state" and target is not None:
            return {"result": {"status": 0}, "error_code": 0}
        if method == "get_current_power" and "get_emeter_data" not in d:
            return {"result": {"current_power": 7}, "error_code": 0}
        return None

    dev, s = sim.smart_device(freeze(d))
    s.on = on

    async def go():
        for _ in range(2):  # usage is asked for from the second on
            o = await acatch(dev.update())
            c.check(o.ok, "a device is updated whatever components it has", lambda: (listed, repr(o)))
            if not o.ok:
                return
        x = dev if at is None else dev.get_child_device(cid)
        c.check(x is not None, "a child is there whatever components it has")
        if x is None:
            return
        info = x.sys_info
        names = [k["id"] for k in comps]
        hub_child = at is not None and kind in ("KE100", "T315")
        if hub_child:
            names.remove("time")
        if at is not None and not hub_child:
            names = [k for k in names if k not in PARENT_ONLY]
        mods, fs, ms = wanted(names, listed, SMART, info, versions)
        if "ColorTemperature" in mods and info["color_temp_range"][0] == info["color_temp_range"][1]:
            mods.discard("ColorTemperature"), fs.discard("color_temperature")
        if mods & {"Brightness", "Color", "ColorTemperature"}:
            mods.add("Light")
        if {"TemperatureControl", "TemperatureSensor"} <= mods:
            mods.add("Thermostat")
        if "overheated" in info or "overheat_status" in info:
            mods.add("OverheatProtection"), fs.add("overheated")
        fs |= {"device_id", "reboot"} | {f for k, f in OWN.items() if k in info}
        if hub_child:
            fs.add("unpair")
        got = {str(m) for m in x.modules}
        c.check(got == mods, "a device has the modules of its components and no others", lambda: (kind, sorted(got - mods), sorted(mods - got), listed))
        if hub_child:
            fs.discard("alarm")
        opt = {"current", "voltage"} if "Energy" in mods else set()
        gf = set(x.features)
        c.check(gf - opt == fs - opt, "a device has the features of its components and no others", lambda: (kind, sorted(gf - fs), sorted(fs - gf)))
        for m in x.modules.values():
            c.check(not m.disabled and m._last_update_error is None, "every module works whatever else is there", lambda: (m, m._last_update_error))
        asked = {m for t, m, p in s.log if t == cid}
        extra = asked - ms - {"component_nego", "get_device_info", "get_child_device_list", "get_child_device_component_list", "get_connect_cloud_state"}
        c.check(not extra, "a device is asked only for what it has", lambda: (kind, extra))
        state_in_info = {"get_preset_rules", "get_on_off_gradually_info"} if at is not None else set()
        left = {m for m in ms if m not in asked} - state_in_info - ({"get_device_info", "get_device_usage"} if hub_child else set())
        c.check(not left, "a device is asked for everything it has", lambda: (kind, left, sorted(asked)))
        for f in x.features.values():
            if f.type is not f.Type.Action:
                o = c.attempt(lambda f=f: f.value)
                c.check(o.ok, "every feature of a device has a value", lambda: (kind, f.id, repr(o)))
                c.reach("value")
        v = versions.get("firmware", 0)
        c.reach("newer" if v > 1 else "older")
        c.reach("offered")
        if at is not None:
            c.reach("child")

    c.run(go())


def camera(c, kind, mode):
    d = sim.data(kind)
    comps = d["getAppComponentList"]["app_component"]["app_component_list"]
    known = [x["name"] for x in comps if x["name"] in CAM and x["name"] != "childControl"]
    listed = plan(c, known, mode)
    for x in comps:
        if x["name"] in CAM:
            x["version"] = c.int(f"v {x['name']}", 0, 20)
    d["getAppComponentList"]["app_component"]["app_component_list"] = [x for x in comps if x["name"] in listed or x["name"] not in known]
    listed += [x["name"] for x in comps if x["name"] not in known]
    d.setdefault("getConnectionType", {"link_type": "wifi", "rssi": "3", "rssiValue": -50, "ssid": "x"})
    dev, s = sim.cam_device(freeze(d))

    async def go():
        o = await acatch(dev.update())
        c.check(o.ok, "a device is updated whatever components it has", lambda: (listed, repr(o)))
        if not o.ok:
            return
        mods, fs, ms = wanted([x["name"] for x in comps], listed, CAM, {}, {})
        if "LensMask" not in mods:
            fs.discard("state")
        if "Battery" in mods:
            fs -= {k for k in ("battery_temperature", "battery_voltage") if k not in dev.sys_info}
        for m, methods, features in CAM_ALWAYS:
            mods.add(m)
            ms |= set(methods)
            fs |= set(features)
        got = {str(m) for m in dev.modules}
        c.check(got == mods, "a device has the modules of its components and no others", lambda: (kind, sorted(got - mods), sorted(mods - got), listed))
        gf = set(dev.features)
        opt = {"rssi", "signal_level"}
        c.check(gf - opt == fs - opt, "a device has the features of its components and no others", lambda: (kind, sorted(gf - fs), sorted(fs - gf)))
        asked = {m for t, m, p in s.log if t is None}
        c.check(asked - {"getAppComponentList"} <= ms | {"getChildDeviceList", "getChildDeviceComponentList"} and ms <= asked, "a device is asked for what it has and nothing else", lambda: (kind, asked ^ ms))
        for m in dev.modules.values():
            c.check(not m.disabled, "every module works whatever else is there", lambda: m)
        for f in dev.features.values():
            if f.type is not f.Type.Action:
                o = c.attempt(lambda f=f: f.value)
                c.check(o.ok, "every feature of a device has a value", lambda: (kind, f.id, repr(o)))
        c.reach("camera")

    c.run(go())


METER = ["consumption_this_month", "consumption_today", "current_consumption"]
COMMON = {"schedule": ("schedule", []), "usage": ("schedule", []), "anti_theft": ("anti_theft", []), "Time": ("time", []), "cloud": ("cnCloud", ["cloud_connection"])}
LAMP = {
    "schedule": ("smartlife.iot.common.schedule", []), "usage": ("smartlife.iot.common.schedule", []), "anti_theft": ("smartlife.iot.common.anti_theft", []), "Time": ("smartlife.iot.common.timesetting", []),
    "cloud": ("smartlife.iot.common.cloud", ["cloud_connection"]), "countdown": ("countdown", []), "Energy": ("smartlife.iot.common.emeter", METER), "Light": ("", []), "LightPreset": ("", ["light_preset"]),
}  # fmt: skip
SENSORS = {"motion": ("smartlife.iot.PIR", [f"pir_{k}" for k in ("adc_max", "adc_mid", "adc_min", "adc_value", "enabled", "percent", "range", "threshold", "triggered", "value")]), "ambient": ("smartlife.iot.LAS", ["ambient_light", "ambient_light_enabled"])}
FADES = ["dimmer_fade_off_time", "dimmer_fade_on_time", "dimmer_gentle_off_time", "dimmer_gentle_on_time", "dimmer_ramp_rate", "dimmer_threshold_min"]
# data -> (class, service -> features)
LEGACY = {
    "HS100": ("IotPlug", COMMON),
    "HS110v4": ("IotPlug", COMMON),
    "ES20M": ("IotWallSwitch", COMMON | SENSORS),
    "HS220": ("IotDimmer", COMMON | SENSORS | {"dimmer": ("smartlife.iot.dimmer", FADES), "Light": ("", ["brightness"])}),
    "KL130": ("IotBulb", LAMP),
    "KL430": ("IotLightStrip", LAMP | {"LightEffect": ("", ["light_effect"])}),
    "HS300": ("IotStrip", COMMON | {"countdown": ("countdown", [])}),
}
LIGHT_FLAGS = {"is_dimmable": "brightness", "is_color": "hsv", "is_variable_color_temp": "color_temperature"}
OPTIONAL = {"consumption_total", "current", "voltage"}


ANSWERS = {
    "time": {"get_time": {"year": 2024, "month": 1, "mday": 2, "hour": 3, "min": 4, "sec": 5}, "get_timezone": {"index": 39}},
    "schedule": {"get_rules": {"rule_list": [], "enable": 1}, "get_next_action": {"type": -1}, "get_realtime": {}, "get_daystat": {"day_list": []}, "get_monthstat": {"month_list": []}},
    "anti_theft": {"get_rules": {"rule_list": [], "enable": 1}},
    "countdown": {"get_rules": {"rule_list": []}},
    "emeter": {"get_realtime": {"power_mw": 1500}, "get_daystat": {"day_list": []}, "get_monthstat": {"month_list": []}},
    "cnCloud": {"get_info": {"binded": 1, "cld_connection": 1, "username": "u", "fwDlPage": "", "fwNotifyType": -1, "illegalType": 0, "server": "n-devs.tplinkcloud.com", "stopConnect": 0, "tcspInfo": "", "tcspStatus": 1}},
    "cloud": {"get_info": {"binded": 1, "cld_connection": 1, "username": "u", "fwDlPage": "", "fwNotifyType": -1, "illegalType": 0, "server": "n-devs.tplinkcloud.com", "stopConnect": 0, "tcspInfo": "", "tcspStatus": 1}},
    "PIR": {"get_config": {"enable": 0, "cold_time": 60000, "trigger_index": 3, "min_adc": 0, "max_adc": 4095, "array": [80, 50, 20, 0]}, "get_adc_value": {"value": 2107}},
    "LAS": {"get_current_brt": {"value": 7}, "get_config": {"devs": [{"enable": 0, "dark_index": 1, "min_adc": 0, "max_adc": 2450, "level_array": [{"name": "dark", "adc": 490, "value": 20}]}]}},
    "dimmer": {"get_dimmer_parameters": {"minThreshold": 17, "fadeOnTime": 1000, "fadeOffTime": 1000, "gentleOnTime": 3000, "gentleOffTime": 10000, "rampRate": 30, "bulb_type": 1}, "get_default_behavior": {}},
    "timesetting": {"get_time": {"year": 2024, "month": 1, "mday": 2, "hour": 3, "min": 4, "sec": 5}, "get_timezone": {"index": 39}},
}


class Without(sim.IotSim):
    """A legacy device that does not know some services."""

    refused: set = set()

    def handle(self, req):
        out = super().handle({k: v for k, v in req.items() if k not in self.refused})
        return out | {k: {"err_code": -1, "err_msg": "module not support"} for k in req if k in self.refused}


def legacy(c, name):
    import kasa.iot as iot

    cls, table = LEGACY[name]
    d = sim.data(name)
    si = d["system"]["get_sysinfo"]
    flags = {}
    lamp = name in ("KL130", "KL430")
    if lamp:
        for k in LIGHT_FLAGS:
            flags[k] = si[k] = c.int(k, 0, 1)
        c.assume(Or(flags["is_dimmable"] == 1, flags["is_color"] == 0))  # every colourful lamp is dimmable
    words = c.choice("feature", ["TIM", "TIM:ENE", "ENE", ""]) if not lamp else ""
    if not lamp:
        si["feature"] = words
    led = lamp or bool(c.bool("indicator"))
    if not led:
        si.pop("led_off", None)
    since = "on_time" in si and bool(c.bool("on time"))
    if not since:
        si.pop("on_time", None)
    pir = name == "ES20M" and bool(c.bool("senses"))
    if name == "ES20M":
        si["dev_name"] = "Smart Light Switch" + (" with PIR" if pir else "")
    services = sorted({v[0] for v in table.values() if v[0]} | ({"emeter"} if not lamp else set()))
    i = c.pick("refused", len(services) + 1)
    j = c.pick("refused too", i + 1) if c.tier == "thorough" else i
    refused = {services[k] for k in (i, j) if k < len(services)}
    s = Without(d)
    s.refused = refused
    for m in services:
        d.setdefault(m, {})
        for k, v in ANSWERS.get(m.rsplit(".", 1)[-1], {}).items():
            d[m].setdefault(k, v)
    dev, s = sim.iot_device(d, getattr(iot, cls), s)

    async def go():
        o = await acatch(dev.update())
        c.check(o.ok, "a device is updated whatever services it has", lambda: (name, refused, repr(o)))
        if not o.ok:
            return
        mods, fs = set(), {"state", "rssi", "reboot"}
        here = dict(table)
        if not lamp:
            here["Led"] = ("", ["led"])
            if "ENE" in words:
                here["Energy"] = ("emeter", METER)
        if not led:
            here.pop("Led")
        if not pir and name == "ES20M":
            for k in SENSORS:
                here.pop(k)
        for m, (service, features) in here.items():
            if service not in refused:
                mods.add(m)
                fs |= set(features)
        if since or name == "HS300":
            fs.add("on_since")
        for k, v in flags.items():
            if v == 1:
                fs.add(LIGHT_FLAGS[k])
        got = {str(m) for m in dev.modules}
        if name == "HS300" and "emeter" in refused:
            got.discard("Energy"), mods.discard("Energy")
            fs -= set(METER)
            gf = set(dev.features) - set(METER)
        else:
            gf = set(dev.features)
        c.check(got == mods, "a device has the modules of its services and no others", lambda: (name, sorted(got - mods), sorted(mods - got)))
        c.check(gf - OPTIONAL == fs, "a device has the features of its services and no others", lambda: (name, sorted(gf - fs), sorted(fs - gf)))
        s.clear()
        o = await acatch(dev.update())
        c.check(o.ok, "a device is updated whatever services it has", lambda: (name, refused, repr(o)))
        c.check({str(m) for m in dev.modules} - {"Energy"} == mods - {"Energy"}, "the services of a device stay as they are", lambda: (name, list(dev.modules)))
        for f in dev.features.values():
            if f.type is not f.Type.Action and not (name == "HS300" and "emeter" in refused and f.id in OPTIONAL | set(METER)):
                o = c.attempt(lambda f=f: f.value)
                if (f.id == "on_since" and "time" in refused) or (f.id == "light_preset" and bool(flags["is_dimmable"] == 0)):
                    continue  # there are no such devices
                c.check(o.ok, "every feature of a device has a value", lambda f=f: (name, f.id, repr(o)))
        c.reach("legacy")
        if flags:
            light = dev.modules["Light"]
            for k, f in LIGHT_FLAGS.items():
                attr = {"color_temperature": "color_temp"}.get(f, f)
                o = c.attempt(getattr, light, attr)
                c.check(o.ok if flags[k] == 1 else not o.ok, "what a lamp cannot is not shown", lambda: (name, k, repr(o)))
                c.check(light.has_feature(attr) is bool(flags[k] == 1), "has_feature tells whether a lamp can", lambda: (name, k))

    c.run(go())


def scenarios(tier):
    out = []
    for k in DEVS:
        out += [(f"without-{k}", smart, {"kind": k, "mode": "without"}), (f"only-{k}", smart, {"kind": k, "mode": "only"})]
    for k in ("C210", "C220", "H200", "D230"):
        out += [(f"without-{k}", camera, {"kind": k, "mode": "without"}), (f"only-{k}", camera, {"kind": k, "mode": "only"})]
    out += [(f"legacy-{k}", legacy, {"name": k}) for k in LEGACY]
    return out
