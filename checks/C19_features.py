"""Features: a value is validated before the device sees it, and what was set is what is read back."""

from __future__ import annotations

from datetime import timedelta
from enum import Enum

import sim
import statesim
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq

BOUNDS = (
    "a feature of every type with any integer range in +-2^31 and any integer or quarter value, any text of up to 6 characters against three choices, either kind of getter and setter; "
    "on 20 recorded devices every settable feature with any integer in +-2^31 (numbers), every quarter degree (temperature), every listed choice, any other text of "
    "up to 8 characters and both switch positions, against a device that remembers what it is told"
)
OUTSIDE = "what a device does beyond storing its setting; HSV (not a validated feature type; see C20); light presets and effects (C23, C24)"
WITNESSES = ["number", "number-rejected", "choice", "choice-rejected", "switch", "action", "device-number", "device-choice", "device-switch", "device-rejected", "wrong-type", "no-number", "history"]
QUICK_S, THOROUGH_S = 200, 600


class Thing:
    def __init__(self):
        self.calls = []
        self.v = 0
        self.lo, self.hi = 0, 0
        self.names = []

    @property
    def rng(self):
        return (self.lo, self.hi)

    @property
    def prop(self):
        return self.v

    async def setter(self, *a):
        self.calls.append(a)
        return "done"


def generic(c, kind):
    from kasa import Feature

    t = Thing()
    other = Thing()
    named = bool(c.bool("named"))
    contained = bool(c.bool("contained"))
    holder = t if contained else None
    dev = other if contained else t
    T = {"number": Feature.Type.Number, "real": Feature.Type.Number, "choice": Feature.Type.Choice, "switch": Feature.Type.Switch, "action": Feature.Type.Action, "bad": Feature.Type.Number, "nan": Feature.Type.Number}[kind]
    kw: dict = {"attribute_getter": "prop" if named else (lambda o: o.v), "attribute_setter": "setter" if named else t.setter}
    if kind == "action":
        kw["attribute_getter"] = None
    ranged = True
    if T is Feature.Type.Number:
        ranged = bool(c.bool("ranged"))
        t.lo, t.hi = c.int("lo", -(2**31), 2**31), c.int("hi", -(2**31), 2**31)
        if kind == "nan":
            t.lo, t.hi = c.choice("span", [(0, 100), (-5, -1), (0, 0), (2500, 6500)])
        if ranged:
            kw["range_getter"] = "rng" if named else (lambda: (t.lo, t.hi))
    if kind == "choice":
        t.names = ["Off", "On", "Blink"]
        kw["choices_getter"] = "names" if named else (lambda: t.names)
    f = Feature(device=dev, container=holder, id="x", name="X", type=T, **kw)
    if kind in ("number", "real"):
        v = c.int("v", -(2**31), 2**31) if kind == "number" else c.real("v", -(2**20), 2**20)
        o = c.attempt(f.set_value(v))
        lo, hi = (t.lo, t.hi) if ranged else (0, 2**16)
        inside = And(v >= lo, v <= hi)
        if inside:
            c.check(o.ok and len(t.calls) == 1 and sym_eq(t.calls[0][0], v), "a value in range is set as given", lambda: repr(o))
            c.reach("number")
        else:
            c.check(o.raised(ValueError) and not t.calls, "a value out of range is refused before anything is sent", lambda: (repr(o), t.calls))
            c.reach("number-rejected")
        c.check(sym_eq(f.minimum_value, lo) and sym_eq(f.maximum_value, hi), "the advertised range is the getter's")
    elif kind == "bad":
        v = c.choice("v", [None, "5", [], {}, "x"])
        o = c.attempt(f.set_value(v))
        c.check(o.raised(ValueError) and not t.calls, "a number feature takes numbers only", lambda: repr(o))
        c.reach("wrong-type")
    elif kind == "nan":
        v = float(c.choice("v", ["nan", "inf", "-inf"]))
        o = c.attempt(f.set_value(v))
        c.check(o.raised(ValueError) and not t.calls, "what is no number in the range is refused before anything is sent", lambda: (v, repr(o)))
        c.reach("no-number")
    elif kind == "choice":
        k = c.choice("known", ["Off", "On", "Blink", None])
        v = k if k is not None else c.str("v", c.choice("len", [0, 1, 2, 3, 5, 6]), 0, 0x2FF)
        o = c.attempt(f.set_value(v))
        if Or(*[sym_eq(v, n) for n in t.names]):
            c.check(o.ok and len(t.calls) == 1 and sym_eq(t.calls[0][0], v), "a listed choice is set as given", lambda: repr(o))
            c.reach("choice")
        else:
            c.check(o.raised(ValueError) and not t.calls, "an unlisted choice is refused before anything is sent", lambda: repr(o))
            c.reach("choice-rejected")
    elif kind == "switch":
        b = c.bool("v")
        o = c.attempt(f.set_value(b))
        c.check(o.ok and len(t.calls) == 1 and sym_eq(t.calls[0][0], b), "a switch is set as given")
        c.reach("switch")
    else:
        o = c.attempt(f.set_value(c.choice("v", [None, 1, "x"])))
        c.check(o.ok and t.calls == [()], "an action takes no value", lambda: t.calls)
        c.check(f.value == "<Action>", "an action has no value")
        c.reach("action")
    c.check(not other.calls, "the container, if any, is what is set")


def readonly(c):
    from kasa import Feature

    t = Thing()
    ty = c.choice("type", list(Feature.Type))
    v = c.int("v", -10, 10)

    def make(setter):
        return Feature(device=t, id="x", name="X", type=ty, attribute_getter="prop", attribute_setter=setter)

    f = c.attempt(make, None)
    c.check(f.ok, "a feature without a setter", lambda: repr(f))
    o = c.attempt(f.value.set_value(v))
    c.check(o.raised(ValueError) and not t.calls, "a read-only feature refuses to be set", lambda: repr(o))
    if ty in (Feature.Type.Sensor, Feature.Type.BinarySensor):
        o = c.attempt(make, "setter")
        c.check(o.raised(ValueError), "a sensor has no setter", lambda: repr(o))


IOTCLS = {"KL130": "IotBulb", "KL120": "IotBulb", "KL125": "IotBulb", "KL430": "IotLightStrip", "HS220": "IotDimmer", "ES20M": "IotDimmer", "HS110v1": "IotPlug", "HS300": "IotStrip", "KP303": "IotStrip"}
CAM = ("C210", "C220", "H200")

# (device, child index or None, features)
DEVICES = [
    ("L530E", None, ["state", "brightness", "color_temperature", "auto_update_enabled", "smooth_transition_on", "smooth_transition_off"]),
    ("L900", None, ["state", "brightness", "smooth_transitions"]),
    ("L920", None, ["state", "brightness"]),
    ("HS220s", None, ["state", "brightness", "led"]),
    ("KS240", 1, ["state", "brightness", "smooth_transition_on", "smooth_transition_off"]),
    ("KS240", 0, ["fan_speed_level", "fan_sleep_mode"]),
    ("P110M", None, ["state", "led", "auto_off_enabled", "auto_off_minutes", "power_protection_threshold"]),
    ("P300", 0, ["state", "auto_off_enabled"]),
    ("P304M", 1, ["state", "power_protection_threshold"]),
    ("H100", None, ["alarm_sound", "alarm_volume", "alarm_volume_level", "alarm_duration", "led"]),
    ("KE100", None, ["child_lock", "target_temperature", "temperature_offset", "state"]),
    ("H100", 0, ["temperature_unit", "child_lock", "target_temperature", "temperature_offset"]),
    ("RV20", None, ["child_lock", "vacuum_fan_speed", "clean_count", "carpet_boost", "dustbin_autocollection_enabled", "dustbin_mode", "mop_waterlevel", "volume"]),
    ("C210", None, ["baby_cry_detection", "state", "led", "motion_detection", "pan_step", "tilt_step", "person_detection", "tamper_detection"]),
    ("C220", None, ["pet_detection"]),
    ("H200", None, ["alarm_sound", "alarm_volume", "alarm_duration"]),
    ("KL130", None, ["state", "brightness", "color_temperature"]),
    ("KL120", None, ["state", "brightness", "color_temperature"]),
    ("KL430", None, ["state", "brightness", "color_temperature"]),
    ("HS220", None, ["state", "brightness", "led", "dimmer_threshold_min", "dimmer_fade_off_time", "dimmer_fade_on_time", "dimmer_gentle_off_time", "dimmer_gentle_on_time", "dimmer_ramp_rate"]),
    ("ES20M", None, ["pir_enabled", "pir_range", "pir_threshold", "ambient_light_enabled"]),
    ("HS110v1", None, ["state", "led"]),
    ("HS300", None, ["state", "led"]),
    ("HS300", 2, ["state"]),
    ("KP303", 1, ["state"]),
]


def make(name):
    if name in IOTCLS:
        import kasa.iot as iot

        dev, s = sim.iot_device(sim.data(name), getattr(iot, IOTCLS[name]))
        return dev, statesim.iot(s)
    if name in CAM:
        dev, s = sim.cam_device(sim.data(name))
        return dev, statesim.cam(s)
    dev, s = sim.smart_device(sim.data(name))
    return dev, statesim.smart(s)


def _shown(v):
    if isinstance(v, timedelta):
        return v
    return v.name if isinstance(v, Enum) and not isinstance(v, int) else v


def device(c, name, child, fid, bad=False):
    """One feature of a recorded device, against a device that remembers."""
    from kasa import Feature, KasaException
    import kasa.iot.modules.lightpreset  # noqa: F401  (complete the package under the hook)

    box = {}

    async def start():
        dev, s = make(name)
        await dev.update()
        d = dev if child is None else dev.children[child]
        return dev, s, d

    dev, s, d = c.run(start())
    c.check(fid in d.features, "the feature exists", lambda: (fid, list(d.features)))
    f = d.features[fid]
    ty = f.type
    s.clear()
    if bad:
        if ty is Feature.Type.Number:
            v = c.choice("v", [None, "1", "x", []])
        elif ty is Feature.Type.Choice:
            v = c.str("v", c.choice("len", [0, 1, 3, 8]), 0, 0x2FF)
            c.assume(Not(Or(*[sym_eq(v, x) for x in f.choices])))
        else:
            return
        o = c.attempt(f.set_value(v))
        c.check(o.raised(ValueError), "a value that is no option is refused", lambda: repr(o))
        c.check(not s.sets(), "nothing is sent for a refused value", lambda: s.sets())
        c.reach("device-rejected")
        return
    if ty is Feature.Type.Number:
        if fid == "target_temperature" and c.bool("fraction"):
            v = c.real("t", -(2**10), 2**10)
        else:
            v = c.int("v", -(2**31), 2**31)
        lo, hi = f.minimum_value, f.maximum_value
    elif ty is Feature.Type.Choice:
        v = c.choice("choice", list(f.choices))
        lo = hi = None
    else:
        v = bool(c.bool("on"))
        lo = hi = None

    async def go():
        box["o"] = None
        from engine.ctx import acatch

        box["o"] = await acatch(f.set_value(v))
        if box["o"].ok:
            box["n"] = len(s.sets())
            await dev.update()
            return f.value
        return None

    got = c.run(go())
    o = box["o"]
    if lo is not None and Or(v < lo, v > hi):
        c.check(o.raised(ValueError), "a value out of the advertised range is refused", lambda: repr(o))
        c.check(not s.sets(), "nothing is sent for a refused value", lambda: s.sets())
        c.reach("device-rejected")
        return
    c.check(o.ok, "an advertised value is accepted", lambda: (fid, repr(v), repr(o)))
    if not o.ok:
        return
    if fid not in ("pan_step", "tilt_step") and not (name == "HS300" and child is None):
        c.check(box["n"] >= 1, "the device is told")
    got = _shown(got)
    if isinstance(got, timedelta):
        c.check(sym_eq(got.total_seconds() * 1000, v), "what was set is what is read back", lambda: (got, v))
    elif fid == "brightness" and v == 0:
        c.check(d.is_on is False, "brightness 0 turns the light off", lambda: (got, d.is_on))
    elif fid == "state" and ty is Feature.Type.Switch and name == "KE100":
        c.check(got == v, "what was set is what is read back", lambda: (got, v))
    else:
        c.check(sym_eq(got, v) if not isinstance(v, str) else sym_eq(got, v) or str(got) == v, "what was set is what is read back", lambda: (fid, repr(got), repr(v)))
    c.reach({Feature.Type.Number: "device-number", Feature.Type.Choice: "device-choice"}.get(ty, "device-switch"))


def history(c, name, child, fid, part=0, parts=1):
    """A feature set again after itself, after any other one, and after itself again."""
    import C29_independence as ind
    import kasa.iot.modules.lightpreset  # noqa: F401

    async def go():
        dev, s = make(name)
        await dev.update()
        d = dev if child is None else dev.children[child]
        f = d.features[fid]
        others = [k for k in ind.settable(d) if k != fid and k not in ind.ABSENT.get(name, ())]
        steps = [(f, "v0")] if c.tier == "thorough" else []
        if others:
            steps.append((d.features[others[c.pick("other", len(others))]], "w"))
        steps += [(f, "v1"), (f, "v2")]
        for g, lab in steps:
            v = ind.value(c, g, lab, 3)
            o = await acatch(g.set_value(v))
            c.check(o.ok, "an advertised value is accepted", lambda: (g.id, lab, v, repr(o)))
            if not o.ok:
                return
            await dev.update()
            if g is f:
                got = ind.shown(f.value)
                c.check(sym_eq(got, v), "what was set is what is read back, whatever was set before", lambda: (fid, [x[0].id for x in steps], lab, v, got))
        c.reach("history")

    c.run(go())


def scenarios(tier):
    out = [(f"generic-{k}", generic, {"kind": k}) for k in ("number", "real", "bad", "nan", "choice", "switch", "action")]
    out += [("readonly", readonly)]
    for name, child, fids in DEVICES:
        for fid in fids:
            lab = f"{name}{'' if child is None else child}-{fid}"
            if fid not in ("pan_step", "tilt_step"):
                out.append((lab + "-history", history, {"name": name, "child": child, "fid": fid}))
            out.append((lab, device, {"name": name, "child": child, "fid": fid}))
            out.append((lab + "-bad", device, {"name": name, "child": child, "fid": fid, "bad": True}))
    return out
