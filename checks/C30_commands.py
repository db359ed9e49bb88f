"""Alarms, heating, timers, protection, dimmer buttons and motion sensors: commands say exactly what was asked."""

from __future__ import annotations

from datetime import timedelta

import C19_features as feats
import sim
import statesim
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq

BOUNDS = (
    "alarm hub (SMART and camera protocol), heating valve, plug with timer and power protection, light with transitions, fan, wall dimmer with buttons and motion sensor, each in any stored state (any integers, switches, "
    "choices); every command that takes several or optional arguments, with any integers in +-2^31, any listed or other text and every combination of given and omitted ones"
)
OUTSIDE = "what the device does after storing a command; percentages of a motion sensor whose range is empty"
WITNESSES = ["alarm-played", "alarm-refused", "alarm-set", "stopped", "heating", "idle", "frost", "battery", "unknown-state", "heated", "timer", "no-timer", "protected", "protection-refused", "button", "fade", "triggered", "quiet", "range", "fan-refused", "fan-started", "fan-set", "range name", "enabled", "threshold", "timeout", "look", "ambient", "wall", "wall-refused", "switched"]
QUICK_S, THOROUGH_S = 200, 700


def ringing(c):
    """Whether the alarm rings and why is what the hub says, one without the other as well."""
    from kasa import Module

    d = sim.data("H100")
    rings, cause = bool(c.bool("ringing")), ["", "hub", "other"][c.pick("cause", 3)]
    d["get_device_info"].update({"in_alarm": rings, "in_alarm_source": cause})
    dev, s = sim.smart_device(d)

    async def go():
        await dev.update()
        mod = dev.modules[Module.Alarm]
        c.check(mod.active is rings and mod.source == (cause or None), "whether and why the alarm rings or rang is shown", lambda: (rings, cause, mod.active, mod.source))
        c.check(dev.features["alarm"].value is rings and dev.features["alarm_source"].value == (cause or None), "whether and why the alarm rings or rang is shown")

    c.run(go())


def alarm(c, kind):
    from kasa import Module

    cam = kind == "camera"
    d = sim.data("H200" if cam else "H100")
    if cam:
        conf, sounds = d["getSirenConfig"], d["getSirenTypeList"]["siren_type_list"]
        kd, kv, ks, lo, hi = "duration", "volume", "siren_type", 0, 10
        dmin, dmax = 0, 6000
        conf[kd] = c.int("d0", dmin, dmax)
    else:
        conf, sounds = d["get_alarm_configure"], d["get_support_alarm_type_list"]["alarm_type_list"]
        kd, kv, ks, lo, hi = "duration", "volume", "type", 0, 3
        dmin, dmax = 1, 600
        conf[kd] = c.int("d0", dmin, dmax)
        conf[kv] = ["mute", "low", "normal", "high"][c.pick("v0", 4)]
    conf[ks] = sounds[c.pick("s0", 2)]
    dev, s = sim.cam_device(d) if cam else sim.smart_device(d)
    (statesim.cam if cam else statesim.smart)(s)
    before = dict(conf)

    def stored(v):
        return ["mute", "low", "normal", "high"][v]

    async def go():
        await dev.update()
        mod = dev.modules[Module.Alarm]
        s.clear()
        cmd = ["play", "stop", "set"][c.pick("cmd", 3)]
        if cmd == "stop":
            o = await acatch(mod.stop())
            want = (("setSirenStatus", {"siren": {"status": "off"}}) if cam else ("stop_alarm", None))
            c.check(o.ok and len(s.sets()) == 1 and s.sets()[0][-2] == want[0] and (not cam or sym_eq(s.sets()[0][-1], want[1])), "stopping stops the alarm", lambda: (repr(o), s.sets()))
            c.reach("stopped")
            return
        given, valid = {}, []
        which = [cmd == "play" and bool(c.bool(f"with {k}")) for k in ("duration", "volume", "sound")]
        if cmd == "set":
            which[c.pick("what", 3)] = True
        if which[0]:
            given["duration"] = c.int("d", -(2**31), 2**31)
            valid.append(And(given["duration"] >= dmin, given["duration"] <= dmax))
        if which[1]:
            if not cam and c.bool("volume by name"):
                given["volume"] = c.choice("vn", ["mute", "low", "normal", "high", "loud", ""])
                valid.append(given["volume"] in ("mute", "low", "normal", "high"))
            else:
                given["volume"] = c.int("v", -(2**31), 2**31)
                valid.append(And(given["volume"] >= lo, given["volume"] <= hi))
        if which[2]:
            given["sound"] = c.choice("s", [*sounds[:3], "No such", "", "alarm 1"])
            valid.append(given["sound"] in sounds)
        if cmd == "set":
            ((k, v),) = given.items()
            o = await acatch(getattr(mod, f"set_alarm_{k}")(v))
        else:
            o = await acatch(mod.play(**given))
        sent = [(r[-2], r[-1]) for r in s.sets()]
        ok = And(*valid) if valid else True
        if not ok:
            c.check(o.raised(ValueError), "a value the alarm does not have is refused", lambda: (given, repr(o), sent))
            c.check(not sent, "nothing is sent for a refused alarm", lambda: (given, sent))
            c.reach("alarm-refused")
            return
        c.check(o.ok, "an alarm is accepted", lambda: (given, repr(o)))
        if not o.ok:
            return

        def same_volume(got, v):
            if isinstance(v, str):
                return sym_eq(got, v)
            return Or(*[And(sym_eq(v, i), sym_eq(got, stored(i))) for i in range(lo, hi + 1)])

        if cmd == "set" or cam:
            confs = [p for m, p in sent if m == ("setSirenConfig" if cam else "set_alarm_configure")]
            c.check(len(confs) == (1 if given else 0), "the settings are sent once", lambda: sent)
            c.check(sym_eq(conf[kd], given.get("duration", before[kd])), "the duration is as asked, or as it was", lambda: (given, conf, sent))
            c.check(sym_eq(conf[ks], given.get("sound", before[ks])), "the sound is as asked, or as it was", lambda: (given, conf, sent))
            if "volume" not in given:
                c.check(sym_eq(conf[kv], before[kv]), "the volume is as it was", lambda: (given, conf, sent))
            elif cam:
                c.check(isinstance(conf[kv], str), "cameras are sent the volume as text", lambda: sent)
                await dev.update()
                c.check(sym_eq(mod.alarm_volume, given["volume"]), "the volume is as asked", lambda: (given, mod.alarm_volume, sent))
            else:
                c.check(same_volume(conf[kv], given["volume"]), "the volume is as asked", lambda: (given, conf, sent))
        if cmd == "play":
            if cam:
                c.check(sent[-1][0] == "setSirenStatus" and sym_eq(sent[-1][1], {"siren": {"status": "on"}}), "the siren is started last", lambda: sent)
                c.check(len(sent) == (2 if given else 1), "nothing else is sent", lambda: sent)
            else:
                c.check(len(sent) == 1 and sent[0][0] == "play_alarm", "one alarm is played", lambda: sent)
                p = sent[0][1] or {}
                names = {"duration": "alarm_duration", "volume": "alarm_volume", "sound": "alarm_type"}
                c.check(set(p) == {names[k] for k in given}, "only what was asked for is overridden", lambda: (given, p))
                for k in ("duration", "sound"):
                    c.check(k not in given or sym_eq(p.get(names[k]), given[k]), "the alarm is played as asked", lambda: (given, p))
                c.check("volume" not in given or same_volume(p.get("alarm_volume"), given["volume"]), "the alarm is played at the volume asked", lambda: (given, p))
            c.reach("alarm-played")
        else:
            await dev.update()
            if "duration" in given:
                c.check(sym_eq(mod.alarm_duration, given["duration"]), "the duration set is shown")
            c.reach("alarm-set")

    c.run(go())


STATES = ["heating", "progress_calibration", "low_battery", "something_new"]


def thermostat(c):
    from kasa import Module
    from kasa.interfaces.thermostat import ThermostatState as TS

    d = sim.data("KE100")
    info = d["get_device_info"]
    states = [x for x in STATES if c.bool(x)]
    if len(states) > 1 and c.bool("reversed"):
        states.reverse()
    frost = bool(c.bool("frost"))
    lo, hi = c.int("min", -20, 20), c.int("max", 21, 60)
    info.update({"trv_states": states, "frost_protection_on": frost, "min_control_temp": lo, "max_control_temp": hi})
    dev, s = sim.smart_device(d)
    statesim.smart(s)

    async def go():
        await dev.update()
        mod = dev.modules[Module.Thermostat]
        mode = mod.mode
        c.check(mod.state is not frost, "the valve is on unless it only protects against frost")
        known = [x for x in states if x in ("heating", "progress_calibration")]
        if frost:
            c.check(mode is TS.Off, "a valve that only protects against frost is off", lambda: (states, mode))
            c.reach("frost")
        elif known:
            c.check(mode.value in known, "what the valve does is shown", lambda: (states, mode))
            c.reach("heating")
        elif set(states) <= {"low_battery"}:
            c.check(mode is TS.Idle, "a valve that does nothing is idle", lambda: (states, mode))
            c.reach("battery" if states else "idle")
        else:
            c.check(mode is TS.Unknown, "a state that is not known is shown as unknown", lambda: (states, mode))
            c.reach("unknown-state")
        s.clear()
        if c.bool("turned by someone since"):
            s.d["get_device_info"]["frost_protection_on"] = not frost
        t = c.real("t", -100, 100)
        o = await acatch(mod.set_target_temperature(t))
        if Or(t < lo, t > hi):
            c.check(o.raised(ValueError) and not s.sets(), "a temperature the valve cannot keep is refused", lambda: (repr(o), s.sets()))
            return
        c.check(o.ok, "a temperature within range is set", lambda: repr(o))
        await dev.update()
        c.check(sym_eq(mod.target_temperature, t), "the valve has the temperature asked for", lambda: s.sets())
        c.check(mod.state is True, "setting a temperature turns heating on", lambda: s.sets())
        await mod.set_state(False)
        await dev.update()
        c.check(mod.state is False and mod.mode is TS.Off, "heating is turned off", lambda: s.sets())
        c.check(sym_eq(mod.target_temperature, t), "the temperature stays")
        c.reach("heated")
        keep = bool(c.bool("protect"))
        o = await acatch(dev.modules[Module.FrostProtection].set_enabled(keep) if hasattr(Module, "FrostProtection") else dev.modules["FrostProtection"].set_enabled(keep))
        unit = c.choice("unit", ["fahrenheit", "celsius"])
        o2 = await acatch((mod if c.bool("by the thermostat") else dev.modules[Module.TemperatureSensor]).set_temperature_unit(unit))
        await dev.update()
        c.check(o.ok and o2.ok, "frost protection and unit are set", lambda: (repr(o), repr(o2)))
        c.check(mod.state is not keep and dev.modules["FrostProtection"].enabled is keep, "frost protection is as asked", lambda: s.sets())
        c.check(mod.temperature_unit == unit and dev.modules[Module.TemperatureSensor].temperature_unit == unit, "the unit is the one asked for", lambda: s.sets())
        c.check(sym_eq(mod.target_temperature, t), "the temperature stays")

    c.run(go())


def timer(c):
    """The time at which a plug turns itself off."""
    from kasa import Module

    d = sim.data("P110M")
    info = d["get_device_info"]
    on = bool(c.bool("counting"))
    left = c.int("left", 0, 86400)
    ts = c.int("clock", 1700000000, 1700086400)
    info["auto_off_status"] = "on" if on else "off"
    info["auto_off_remain_time"] = left
    d["get_auto_off_config"]["enable"] = bool(c.bool("configured"))
    d["get_device_time"] = {"region": "UTC", "time_diff": 0, "timestamp": ts}
    dev, s = sim.smart_device(d)
    statesim.smart(s)

    async def go():
        await dev.update()
        mod = dev.modules[Module.AutoOff]
        at = mod.auto_off_at
        c.check(mod.is_timer_active is on, "a running timer is shown")
        if not on:
            c.check(at is None, "without a timer there is no time", lambda: at)
            c.reach("no-timer")
            return
        c.check(sym_eq((at - dev.time).total_seconds(), left), "the plug turns off when the time left has passed", lambda: at)
        c.check(sym_eq((at).timestamp(), ts + left), "the plug turns off when the time left has passed on its clock", lambda: at)
        c.reach("timer")

    c.run(go())


def protection(c):
    from kasa import Module

    d = sim.data("P110M")
    top = c.int("max", 2, 4000)
    t0 = c.int("t0", 0, 4000)
    c.assume(t0 <= top)
    e0 = bool(c.bool("e0"))
    d["get_max_power"]["max_power"] = top
    st = d["get_protection_power"]
    st.update({"enabled": e0, "protection_power": t0})
    never = bool(c.bool("never configured"))
    if never:
        st.pop("protection_power")
        t0 = 0
    dev, s = sim.smart_device(d)
    statesim.smart(s)

    async def go():
        await dev.update()
        mod = dev.modules[Module.PowerProtection]
        c.check(sym_eq(mod.protection_threshold, t0), "the limit is shown")
        shown = dev.features["power_protection_threshold"].value
        c.check(sym_eq(shown, t0 if e0 else 0), "the limit in force is shown, none while the protection is off", lambda: shown)
        s.clear()
        kind = c.pick("cmd", 3)
        en = bool(c.bool("enable"))
        t = c.int("t", -(2**31), 2**31)
        if kind == 0:
            o = await acatch(mod.set_enabled(en))
            t = None
        elif kind == 1:
            o = await acatch(mod.set_enabled(en, threshold=t))
        else:
            o = await acatch(mod.set_protection_threshold(t))
            en = e0
        if t is not None and Or(t < 0, t > top):
            c.check(o.raised(ValueError) and not s.sets(), "a limit out of range is refused", lambda: (repr(o), s.sets()))
            c.reach("protection-refused")
            return
        c.check(o.ok, "the protection is set", lambda: repr(o))
        if not o.ok:
            return
        await dev.update()
        c.check(mod.enabled is en, "the protection is on or off as asked", lambda: s.sets())
        if t is not None:
            c.check(sym_eq(mod.protection_threshold, t), "the limit is the one asked for", lambda: s.sets())
        elif en and sym_eq(t0, 0):
            got = mod.protection_threshold
            c.check(And(got * 2 <= top, got * 2 >= top - 1), "a protection that never had a limit gets half of what the plug can carry", lambda: got)
        else:
            c.check(sym_eq(mod.protection_threshold, t0), "the limit stays", lambda: s.sets())
        c.reach("protected")

    c.run(go())


def dimmer(c):
    from kasa.iot.iotdimmer import ActionType, ButtonAction, FadeType

    import kasa.iot as iot

    dev, s = sim.iot_device(sim.data("ES20M"), iot.IotDimmer)
    statesim.iot(s)

    async def go():
        await dev.update()
        s.clear()
        if c.bool("button"):
            ty = list(ActionType)[c.pick("type", 2)]
            act = list(ButtonAction)[c.pick("action", 4)]
            idx = c.int("index", 0, 10) if c.bool("with index") else None
            o = await acatch(dev.set_button_action(ty, act, idx))
            want = ("set_" + {"DoubleClick": "double_click_action", "LongPress": "long_press_action"}[ty.name], {"mode": act.value, **({} if idx is None else {"index": idx})})
            c.reach("button")
        else:
            ty = list(FadeType)[c.pick("type", 2)]
            t = c.int("t", 0, 10000)
            o = await acatch(dev.set_fade_time(ty, t))
            want = ({"FadeOn": "set_fade_on_time", "FadeOff": "set_fade_off_time"}[ty.name], {"fadeTime": t})
            c.reach("fade")
        sent = s.sets()
        c.check(o.ok, "the command is accepted", lambda: repr(o))
        c.check(len(sent) == 1 and sent[0][-2] == want[0] and sent[0][-3] == "smartlife.iot.dimmer", "the command names what is to change", lambda: (sent, want))
        c.check(len(sent) == 1 and sym_eq(sent[0][-1], want[1]), "the command has the values asked for", lambda: (sent, want))

    c.run(go())


WALL = {
    # name: (kind, the least and the greatest value, command, its parameter)
    "threshold_min": (int, 0, 51, "calibrate_brightness", "minThreshold"),
    "fade_off_time": (timedelta, 0, 10000, "set_fade_off_time", "fadeTime"),
    "fade_on_time": (timedelta, 0, 10000, "set_fade_on_time", "fadeTime"),
    "gentle_off_time": (timedelta, 0, 120000, "set_gentle_off_time", "duration"),
    "gentle_on_time": (timedelta, 0, 120000, "set_gentle_on_time", "duration"),
    "ramp_rate": (int, 10, 50, "set_button_ramp_rate", "rampRate"),
}


def wall(c, name):
    """How a wall dimmer dims."""
    from kasa import KasaException, Module

    import kasa.iot as iot

    kind, lo, hi, cmd, par = WALL[name]
    d = sim.data("HS220")
    stored = d["smartlife.iot.dimmer"]["get_dimmer_parameters"]
    start = {k: c.int(k, 0, 100000) for k in ("minThreshold", "fadeOnTime", "fadeOffTime", "gentleOnTime", "gentleOffTime", "rampRate")}
    stored.update(start)
    key = {"threshold_min": "minThreshold", "ramp_rate": "rampRate"}.get(name) or name.split("_")[0] + name.split("_")[1].title() + "Time"
    dev, s = sim.iot_device(d, iot.IotDimmer)
    statesim.iot(s)
    v = c.int("v", -(2**20), 2**20)
    given = v
    if kind is timedelta and c.bool("as a duration"):
        v = c.choice("ms", [0, 1, 1500, 10000, 10001, 120000, 120001, -1])
        given = timedelta(milliseconds=v)

    async def go():
        await dev.update()
        mod = dev.modules[Module.IotDimmer]

        def show():
            got = getattr(mod, name)
            return got if kind is int else got / timedelta(milliseconds=1)

        c.check(sym_eq(show(), start[key]), "the setting is the one stored", lambda: (name, show(), start))
        s.clear()
        o = await acatch(getattr(mod, "set_" + name)(given))
        sent = s.sets()
        if Or(v < lo, v > hi):
            c.check(o.raised(KasaException, ValueError) and not sent, "a setting outside its range is refused", lambda: (repr(o), sent))
            c.reach("wall-refused")
            return
        c.check(o.ok and len(sent) == 1 and sent[0][-3:-1] == ("smartlife.iot.dimmer", cmd), "the command names what is to change", lambda: (repr(o), sent))
        c.check(len(sent) == 1 and sym_eq(sent[0][-1], {par: v}), "the command has the value asked for", lambda: (sent, v))
        await dev.update()
        c.check(sym_eq(show(), v), "the setting is the one asked for", lambda: (show(), v))
        c.reach("wall")

    c.run(go())


def motion(c):
    from kasa import KasaException, Module
    from kasa.iot.modules.motion import Range

    import kasa.iot as iot

    d = sim.data("ES20M")
    conf = d["smartlife.iot.PIR"]["get_config"]
    n = c.choice("ranges", [4, 3])
    arr = [c.int(f"a{i}", 0, 100) for i in range(n)]
    idx = c.pick("range", n)
    en = c.int("enable", 0, 1)
    top = c.choice("top", [4095, 1000, 255])
    adc = c.int("adc", 0, 4095)
    cold = conf["cold_time"] = c.int("cold", 0, 10**7)
    conf.update({"array": list(arr), "trigger_index": idx, "enable": en, "min_adc": 0, "max_adc": top})
    d["smartlife.iot.PIR"]["get_adc_value"]["value"] = adc
    dev, s = sim.iot_device(d, iot.IotDimmer)
    statesim.iot(s)

    async def go():
        await dev.update()
        mod = dev.modules[Module.IotMotion]
        names = ["Far", "Mid", "Near", "Custom"]
        c.check(mod.ranges == names[:n], "the ranges are those of the sensor", lambda: mod.ranges)
        c.check(mod.range is Range[names[idx]], "the range is the one stored", lambda: mod.range)
        c.check(sym_eq(mod.threshold, arr[idx]), "the threshold is that of the range", lambda: mod.threshold)
        mid = top // 2
        val = mid - adc
        c.check(sym_eq(mod.pir_value, val), "the value is the distance from the middle", lambda: mod.pir_value)
        # percent of the half it is in, so |value| / half > 1 - threshold
        half = mid if val < 0 else top - mid
        far = abs(val) * 100 > (100 - arr[idx]) * half
        trig = mod.pir_triggered
        want = And(sym_eq(en, 1), far)
        # floats: within a thousandth of a percent of the limit both answers stand
        near = And(abs(val) * 100000 <= (100 - arr[idx]) * 1000 * half + half, abs(val) * 100000 >= (100 - arr[idx]) * 1000 * half - half)
        c.check(Or(near, want if trig else Not(want)), "the sensor is triggered when enabled and past its threshold", lambda: (trig, adc, arr, top))
        c.reach("triggered" if trig else "quiet")
        shown = {"pir_enabled": sym_eq(en, 1), "pir_threshold": arr[idx], "pir_value": val, "pir_adc_value": adc, "pir_adc_min": 0, "pir_adc_mid": mid, "pir_adc_max": top}
        for f, v in shown.items():
            got = dev.features[f].value
            c.check(sym_eq(got, v), f"{f} shows what the sensor reports", lambda: (got, v))
        c.check(dev.features["pir_range"].value is Range[names[idx]], "the range is shown")
        pct = mod.pir_percent
        c.check(And(pct * half - val * 100 <= half / 1000, val * 100 - pct * half <= half / 1000), "the percentage is of the half the value is in", lambda: (pct, val, half))
        timeout = mod.inactivity_timeout
        c.check(sym_eq(timeout, cold), "the inactivity timeout is the one stored", lambda: timeout)
        s.clear()
        what = c.choice("command", ["range", "range name", "enabled", "timeout", "look", "threshold"][: 6 if n == 4 else 5])
        if what == "look":
            now = c.int("adc now", 0, 4095)
            d["smartlife.iot.PIR"]["get_adc_value"]["value"] = now
            o = await acatch(mod.get_pir_state())
            c.check(o.ok and sym_eq(o.value.adc_value, now) and sym_eq(o.value.pir_value, mid - now) and sym_eq(mod.pir_value, mid - now), "asking for the state shows the newest value", lambda: repr(o))
            c.check(not s.sets(), "looking changes nothing", lambda: s.sets())
        else:
            if what == "range":
                k = c.pick("set", 4)
                o = await acatch(mod.set_range(Range[names[k]]))
                want = ("set_trigger_sens", {"index": k})
            elif what == "range name":
                k = c.pick("set", 5)
                o = await acatch(dev.features["pir_range"].set_value((names + ["Off"])[k]))
                want = ("set_trigger_sens", {"index": k}) if k < n else None
            elif what == "enabled":
                on = bool(c.bool("on"))
                o = await acatch(dev.features["pir_enabled"].set_value(on))
                want = ("set_enable", {"enable": int(on)})
            elif what == "threshold":
                v = c.int("v", 0, 100)
                o = await acatch(dev.features["pir_threshold"].set_value(v))
                want = ("set_trigger_sens", {"index": 3, "value": v})
            else:
                v = c.int("v", 0, 10**7)
                o = await acatch(mod.set_inactivity_timeout(v))
                want = ("set_cold_time", {"cold_time": v})
            sent = s.sets()
            if want is None:
                c.check(not o.ok and not sent, "a range the sensor does not have is refused", lambda: (repr(o), sent))
            else:
                c.check(o.ok and len(sent) == 1 and sent[0][-3:-1] == ("smartlife.iot.PIR", want[0]), "the command names what is to change", lambda: (repr(o), sent))
                c.check(len(sent) == 1 and sym_eq(sent[0][-1], want[1]), "the command has the values asked for", lambda: (sent, want))
        c.reach(what)

    c.run(go())


def ambient(c):
    """The ambient light sensor's commands."""
    from kasa import Module

    import kasa.iot as iot

    d = sim.data("ES20M")
    las = d["smartlife.iot.LAS"]
    las["get_config"]["devs"][0]["enable"] = c.int("enable", 0, 1)
    dev, s = sim.iot_device(d, iot.IotDimmer)
    statesim.iot(s)

    async def go():
        await dev.update()
        mod = dev.modules[Module.IotAmbientLight]
        c.check(sym_eq(mod.enabled, sym_eq(las["get_config"]["devs"][0]["enable"], 1)), "the sensor is on or off as stored")
        s.clear()
        if c.bool("look"):
            now = c.int("brt", 0, 100)
            las["get_current_brt"] = {"value": now}
            o = await acatch(mod.current_brightness())
            c.check(o.ok and sym_eq(o.value, {"value": now}) and not s.sets(), "asking for the brightness shows the newest value", lambda: repr(o))
            return
        if c.bool("limit"):
            v = c.int("v", 0, 100)
            o = await acatch(mod.set_brightness_limit(v))
            want = ("set_brt_level", {"index": 0, "value": v})
        else:
            on = bool(c.bool("on"))
            o = await acatch(mod.set_enabled(on))
            want = ("set_enable", {"enable": int(on)})
        sent = s.sets()
        c.check(o.ok and len(sent) == 1 and sent[0][-3:-1] == ("smartlife.iot.LAS", want[0]), "the command names what is to change", lambda: (repr(o), sent))
        c.check(len(sent) == 1 and sym_eq(sent[0][-1], want[1]), "the command has the values asked for", lambda: (sent, want))
        c.reach("ambient")

    c.run(go())


def fan(c):
    """A fan that is on or off, with any speed stored."""
    from kasa import Module

    d = sim.data("KS240")
    kids = d["get_child_device_list"]["child_device_list"]
    info = next(k for k in kids if "fan_speed_level" in k)
    on, level, sleep = bool(c.bool("on")), c.int("level", 1, 4), bool(c.bool("sleep"))
    info.update({"device_on": on, "fan_speed_level": level, "fan_sleep_mode_on": sleep})
    dev, s = sim.smart_device(d)
    statesim.smart(s)

    async def go():
        await dev.update()
        k = next(k for k in dev.children if Module.Fan in k.modules)
        mod = k.modules[Module.Fan]
        c.check(sym_eq(mod.fan_speed_level, level if on else 0), "a fan shows its speed, none while off", lambda: mod.fan_speed_level)
        shown, want_on, asleep = level if on else 0, on, sleep
        for i in range(2 if c.deep else 1):
            s.clear()
            n = f"{i}"
            if c.bool("sleep command" + n):
                asleep = bool(c.bool("asleep" + n))
                o = await acatch(mod.set_sleep_mode(asleep))
                c.check(o.ok, "the sleep mode is set", lambda: repr(o))
            else:
                v = c.int("v" + n, -(2**31), 2**31)
                how = c.pick("how" + n, 2)
                o = await acatch(mod.set_fan_speed_level(v) if how else k.features["fan_speed_level"].set_value(v))
                if Or(v < 0, v > 4):
                    c.check(o.raised(ValueError) and not s.sets(), "a speed the fan does not have is refused", lambda: (repr(o), s.sets()))
                    c.reach("fan-refused")
                    continue
                c.check(o.ok and len(s.sets()) == 1, "a speed is set with one command", lambda: (repr(o), s.sets()))
                shown, want_on = v, bool(v > 0)
                c.reach("fan-started" if want_on and not on else "fan-set")
            await dev.update()
            c.check(sym_eq(mod.fan_speed_level, shown), "the fan runs at the speed asked for", lambda: (shown, s.sets()))
            c.check(k.is_on is want_on or sym_eq(k.is_on, want_on), "the fan is on unless its speed is 0", lambda: (k.is_on, s.sets()))
            c.check(mod.sleep_mode is asleep, "the sleep mode is as asked, or as it was", lambda: s.sets())

    c.run(go())


SWITCHED = {"P110M": None, "L530E": None, "KS225": None, "HS110v4": "IotPlug", "KL130": "IotBulb", "HS220": "IotDimmer", "KL430": "IotLightStrip", "HS300": "IotStrip", "C210": "cam", "H200": "cam", "H100": "none"}


def switch(c, name):
    """Turning a whole device on and off."""
    import kasa.iot as iot

    kind = SWITCHED[name]
    d = sim.data(name)
    start = bool(c.bool("on"))
    if kind == "cam":
        if name == "C210":
            d["getLensMaskConfig"]["lens_mask"]["lens_mask_info"]["enabled"] = "off" if start else "on"
        dev, s = sim.cam_device(d)
        statesim.cam(s)
    elif kind in (None, "none"):
        if kind is None:
            d["get_device_info"]["device_on"] = start
        dev, s = sim.smart_device(d)
        statesim.smart(s)
    else:
        si = d["system"]["get_sysinfo"]
        if "light_state" in si:
            now = {k: v for k, v in {**si["light_state"], **si["light_state"].get("dft_on_state", {})}.items() if k not in ("on_off", "dft_on_state")}
            si["light_state"] = {"on_off": 1, **now} if start else {"on_off": 0, "dft_on_state": now}
        elif "children" in si:
            for k in si["children"]:
                k["state"] = int(start)
        else:
            si["relay_state"] = int(start)
        dev, s = sim.iot_device(d, getattr(iot, kind))
        statesim.iot(s)
    fixed = name in ("H200", "H100")

    async def go():
        await dev.update()
        if fixed:
            start_ = dev.is_on
        else:
            start_ = start
        c.check(dev.is_on is start_ and dev.is_off is not start_, "whether the device is on is shown", lambda: dev.is_on)
        for i in range(3 if c.deep else 2):
            want, how = bool(c.bool(f"want{i}")), c.pick(f"how{i}", 3)
            s.clear()
            f = dev.features.get("state")
            if how == 2 and f is not None:
                o = await acatch(f.set_value(want))
            elif how == 1:
                o = await acatch(dev.set_state(want))
            else:
                o = await acatch(dev.turn_on() if want else dev.turn_off())
            if name == "H200":
                c.check(not s.sets(), "a hub that cannot be turned off is left alone", lambda: s.sets())
                continue
            c.check(o.ok and (len(s.sets()) == 1 or name == "HS300"), "a device is switched with one command", lambda: (repr(o), s.sets()))
            await dev.update()
            if name == "H100":
                continue
            c.check(dev.is_on is want and dev.is_off is not want, "the device is on or off as asked", lambda: (want, s.sets()))
            if f is not None:
                c.check(f.value is want, "the switch shows it", lambda: f.value)
        c.reach("switched")

    c.run(go())


def scenarios(tier):
    return [
        *[(f"switch-{n}", switch, {"name": n}) for n in SWITCHED],
        ("fan", fan, {}),
        ("ringing", ringing, {}),
        ("alarm-smart", alarm, {"kind": "smart"}),
        ("alarm-camera", alarm, {"kind": "camera"}),
        ("thermostat", thermostat, {}),
        ("timer", timer, {}),
        ("protection", protection, {}),
        ("dimmer", dimmer, {}),
        ("motion", motion, {}),
        ("ambient", ambient, {}),
        *[(f"wall-{n}", wall, {"name": n}) for n in WALL],
    ]
