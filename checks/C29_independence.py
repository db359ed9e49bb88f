"""Settings are independent: changing one leaves every other one as it was."""

from __future__ import annotations

from datetime import timedelta
from enum import Enum

import C19_features as feats
from engine.ctx import Implies, acatch, sym_eq

BOUNDS = (
    "on 24 recorded devices and children, every settable feature after any other one (thorough: any two), or itself and any other one, was set: any advertised values, an update after each; then every other settable feature is read, "
    "against a device that remembers what it is told"
)
OUTSIDE = "two commands without an update in between; settings that depend on each other by design (listed in COUPLED)"
WITNESSES = ["kept", "first", "second", "number", "choice", "switch", "transitions"]
QUICK_S, THOROUGH_S = 300, 800

DEVICES = [
    ("L530E", None), ("L900", None), ("L920", None), ("HS220s", None), ("KS240", 0), ("KS240", 1), ("P110M", None), ("P300", 0), ("P304M", 1), ("H100", None), ("H100", 0), ("KE100", None),
    ("RV20", None), ("C210", None), ("C220", None), ("H200", None), ("KL130", None), ("KL120", None), ("KL430", None), ("HS220", None), ("ES20M", None), ("HS110v1", None), ("HS300", 2), ("KP303", 1),
]
IGNORE = {"light_preset", "light_effect", "hsv", "reboot", "pan_step", "tilt_step"}
ABSENT: dict[str, set] = {"HS220": {"ambient_light_enabled"}}
# setting the first may change the second
LIGHT = ["state", "brightness", "color_temperature", "hsv"]
COUPLED = {
    "state": ["fan_speed_level"],
    "dustbin_mode": ["dustbin_autocollection_enabled"],
    "dustbin_autocollection_enabled": ["dustbin_mode"],
    "brightness": ["state"],
    "color_temperature": ["state"],
    "fan_speed_level": ["state"],
    "target_temperature": ["state"],
    "alarm_volume": ["alarm_volume_level"],
    "alarm_volume_level": ["alarm_volume"],
    "pir_range": ["pir_threshold"],
    "pir_threshold": ["pir_range"],
    "power_protection_enabled": ["power_protection_threshold"],
    "power_protection_threshold": ["power_protection_enabled"],
    "vacuum_state": ["state"],
}


def shown(v):
    if isinstance(v, timedelta):
        return v.total_seconds() * 1000
    return v.name if isinstance(v, Enum) and not isinstance(v, int) else v


def settable(d):
    from kasa import Feature

    ok = (Feature.Type.Number, Feature.Type.Choice, Feature.Type.Switch)
    return [k for k, f in d.features.items() if f.attribute_setter and f.type in ok and k not in IGNORE]


def value(c, f, label, most=None):
    """Any value the feature takes."""
    from kasa import Feature

    if f.type is Feature.Type.Number:
        c.reach("number")
        v = c.int(label, 0, 2**31)
        c.assume(f.minimum_value <= v)
        c.assume(v <= f.maximum_value)
        if f.id == "brightness":
            c.assume(v >= 1)
        return v
    if f.type is Feature.Type.Choice:
        c.reach("choice")
        options = list(f.choices)
        if most and len(options) > most:
            options = options[: most - 1] + options[-1:]
        return c.choice(label, options)
    c.reach("switch")
    return bool(c.bool(label))


def read(d, keys):
    out = {}
    for k in keys:
        try:
            out[k] = shown(d.features[k].value)
        except Exception as ex:  # noqa: BLE001
            out[k] = f"{type(ex).__name__}"
    return out


def pairs(c, name, child, part, parts, prior):
    import kasa.iot.modules.lightpreset  # noqa: F401

    async def go():
        dev, s = feats.make(name)
        await dev.update()
        d = dev if child is None else dev.children[child]
        keys = settable(d)
        # sensors the device does not have
        gone = [k for k, v in read(d, keys).items() if isinstance(v, str) and v.endswith("Error")]
        c.check(set(gone) <= ABSENT.get(name, set()), "every setting can be read", lambda: gone)
        keys = [k for k in keys if k not in gone]
        todo = [k for i, k in enumerate(keys) if i % parts == part]
        if not todo or len(keys) < 2:
            return
        second = todo[c.pick("second", len(todo))]
        g = d.features[second]
        past = []
        again = bool(c.bool("again"))
        for i in range(prior + again):
            if again and i == 0:
                first = second
            else:
                first = keys[c.pick(f"first{i - again}", len(keys))]
                if first == second or first in [p[0] for p in past]:
                    return
            f = d.features[first]
            w = value(c, f, f"w{i}", 3 if prior + again > 1 else None)
            past.append((first, w))
            o = await acatch(f.set_value(w))
            c.check(o.ok, "an advertised value is accepted", lambda: (past, repr(o)))
            if not o.ok:
                return
            c.reach("first")
            await dev.update()
        before = read(d, keys)
        v = value(c, g, "v")
        o = await acatch(g.set_value(v))
        c.check(o.ok, "an advertised value is accepted after another setting", lambda: (second, v, repr(o)))
        if not o.ok:
            return
        c.reach("second")
        await dev.update()
        after = read(d, keys)
        for k in keys:
            if k == second or k in COUPLED.get(second, ()):
                continue
            c.check(sym_eq(after[k], before[k]), f"other settings are left alone", lambda: (past, second, v, k, before[k], after[k], s.sets()[-3:]))
        c.reach("kept")

    c.run(go())


def transitions(c, name):
    """Turning the smooth transitions off and on again keeps both of their lengths."""
    import kasa.iot.modules.lightpreset  # noqa: F401
    from kasa import Module

    async def go():
        dev, s = feats.make(name)
        await dev.update()
        on, off = dev.features["smooth_transition_on"], dev.features["smooth_transition_off"]
        want = []
        for f, lab in ((on, "on"), (off, "off")):
            v = value(c, f, lab)
            c.assume(v >= 1)
            want.append(v)
            await f.set_value(v)
            await dev.update()
        m = dev.modules[Module.LightTransition]
        for x in (bool(c.bool("first")), True):
            await m.set_enabled(x)
            await dev.update()
            c.check(m.enabled is x, "smooth transitions are as asked", lambda: (x, m.enabled))
            for f, v in ((on, want[0]), (off, want[1])):
                c.check(sym_eq(f.value, v if x else 0), "switching smooth transitions keeps their lengths", lambda: (f.id, f.value, v))
        c.reach("transitions")

    c.run(go())


def scenarios(tier):
    out = [("transitions", transitions, {"name": "L530E"})]
    prior = 1 if tier == "quick" else 2
    for name, child in DEVICES:
        n = 4 if name in ("RV20", "H100", "C210", "HS220") and child is None else 1
        for p in range(n):
            out.append((f"{name}{'' if child is None else child}-{p}", pairs, {"name": name, "child": child, "part": p, "parts": n, "prior": prior}))
    return out
