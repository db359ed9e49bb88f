"""Old names: what existed before modules does what the modules do."""

from __future__ import annotations

import warnings

import C19_features as feats
import sim
import statesim
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq
from engine.hook import freeze

BOUNDS = (
    "17 kinds of devices with any brightness, colour, effect, indicator and energy state; every old name of devices, light and energy modules, every old setter with any integers in +-2^31, every old class name; two devices in the same state side by side"
)
OUTSIDE = "which old name a deprecation message suggests; old names of protocols and of connection types inside configurations (C16)"
WITNESSES = ["value", "raises", "absent", "sent", "refused", "kind", "preset", "class", "module", "unknown"]
QUICK_S, THOROUGH_S = 120, 400

NAMES = ["L530E", "L900", "L920", "HS220s", "KS225", "P110M", "H100", "KE100", "C210", "HS110v4", "HS110v1", "KL130", "KL120", "KL430", "HS220", "HS300", "KP303"]
CLS = {**feats.IOTCLS, "HS110v4": "IotPlug"}


def state(c, name):
    """What the device has, to be given to one device or two."""
    d = sim.data(name)
    if name in CLS:
        si = d["system"]["get_sysinfo"]
        ls = si.get("light_state")
        if ls is not None:
            ls["on_off"] = 1
            now = {"mode": "normal", "brightness": c.int("b", 1, 100), "hue": c.int("h", 0, 360), "saturation": c.int("s", 0, 100), "color_temp": c.choice("ct", [0, 3000])}
            ls.clear()
            ls.update({"on_off": 1, **now} if c.bool("lit") else {"on_off": 0, "dft_on_state": now})
        if "brightness" in si:
            si["brightness"] = c.int("b", 1, 100)
        if "led_off" in si:
            si["led_off"] = c.int("led", 0, 1)
        if "lighting_effect_state" in si:
            k = c.int("eb", 1, 100)
            si["lighting_effect_state"].update(c.choice("effect", [{"enable": 0, "custom": 0, "name": "", "id": "", "brightness": k}, {"enable": 1, "custom": 0, "name": "Aurora", "id": "xqUxDhbAhNLqulcuRMyPBmVGyTOyEMEu", "brightness": k}]))
        if "emeter" in d and "get_realtime" in d["emeter"]:
            d["emeter"]["get_realtime"] = {"power_mw": c.int("mw", 0, 10**7), "voltage_mv": 230000, "current_ma": 10, "total_wh": c.int("wh", 0, 10**6), "err_code": 0}
        return d
    if name in feats.CAM:
        return d
    gi = d["get_device_info"]
    for k, lo, hi in (("brightness", 1, 100), ("hue", 0, 360), ("saturation", 0, 100)):
        if k in gi:
            gi[k] = c.int(k, lo, hi)
    if gi.get("color_temp") is not None and "color_temp" in gi:
        gi["color_temp"] = c.choice("ct", [0, 3000])
    if "trv_states" in gi:
        gi["trv_states"] = c.choice("states", [["heating"], ["low_battery"], ["low_battery", "heating"], ["heating", "shutdown"], []])
        gi["frost_protection_on"] = bool(c.bool("frost"))
    if "get_emeter_data" in d and isinstance(d["get_emeter_data"], dict):
        d["get_emeter_data"]["power_mw"] = c.int("mw", 0, 10**7)
    return d


def make(name, d):
    import kasa.iot as iot

    d = freeze(d)
    if name in CLS:
        dev, s = sim.iot_device(d, getattr(iot, CLS[name]))
        return dev, statesim.iot(s)
    if name in feats.CAM:
        dev, s = sim.cam_device(d)
        return dev, statesim.cam(s)
    dev, s = sim.smart_device(d)
    return dev, statesim.smart(s)


class Absent:
    def __repr__(self):
        return "absent"


ABSENT = Absent()


def mod(d, name):
    return d.modules.get(name)


def values():
    """Old name -> what it stands for (written from the 0.7 migration notes)."""
    from kasa import DeviceType as T
    from kasa import Module as M
    from kasa.interfaces.light import ColorTempRange

    def of(module, f):
        return lambda d: ABSENT if mod(d, module) is None else f(mod(d, module))

    def span(m):
        f = m.get_feature("color_temp")
        if not f:
            from kasa import KasaException

            raise KasaException("no")
        return ColorTempRange(f.minimum_value, f.maximum_value)

    def effect(m):
        for k in ("lighting_effect_state", "lighting_effect"):
            if isinstance(m.data, dict) and k in m.data:
                return m.data[k]
        return m.effect

    def effects(m):
        names = list(m.effect_list)
        strips = type(m).__name__ in ("LightEffect",) and "iot" in type(m).__module__ or type(m).__name__ == "LightStripEffect"
        return [x for x in names if x != "Off"] if strips else names

    kinds = {"is_bulb": T.Bulb, "is_dimmer": T.Dimmer, "is_light_strip": T.LightStrip, "is_plug": T.Plug, "is_wallswitch": T.WallSwitch, "is_strip": T.Strip, "is_strip_socket": T.StripSocket}
    out = {k: (lambda d, t=t: d.device_type is t) for k, t in kinds.items()}
    out |= {
        "is_dimmable": of(M.Light, lambda m: m.has_feature("brightness")),
        "is_color": of(M.Light, lambda m: m.has_feature("hsv")),
        "is_variable_color_temp": of(M.Light, lambda m: m.has_feature("color_temp")),
        "has_effects": lambda d: ABSENT if mod(d, M.Light) is None else M.LightEffect in d.modules,
        "valid_temperature_range": of(M.Light, span),
        "brightness": of(M.Light, lambda m: m.brightness),
        "hsv": of(M.Light, lambda m: m.hsv),
        "color_temp": of(M.Light, lambda m: m.color_temp),
        "led": of(M.Led, lambda m: m.led),
        "effect": of(M.LightEffect, effect),
        "effect_list": of(M.LightEffect, effects),
        "emeter_realtime": of(M.Energy, lambda m: m.status),
        "emeter_today": of(M.Energy, lambda m: m.consumption_today),
        "emeter_this_month": of(M.Energy, lambda m: m.consumption_this_month),
        "current_consumption": of(M.Energy, lambda m: m.current_consumption),
        "supported_modules": lambda d: d.modules,
    }
    return out


def agree(c, name, old, new):
    if not new.ok:
        c.check(not old.ok and type(old.exc) is type(new.exc), "an old name fails as what it stands for", lambda: (name, repr(old), repr(new)))
        c.reach("raises")
    elif new.value is ABSENT:
        c.check(old.raised(AttributeError), "an old name of something the device has not is no attribute", lambda: (name, repr(old)))
        c.reach("absent")
    else:
        c.check(old.ok and sym_eq(old.value, new.value), "an old name tells what it stands for", lambda: (name, repr(old), repr(new)))
        c.reach("value")


def read(c, name):
    from kasa import Module as M

    dev, s = make(name, state(c, name))

    async def go():
        await dev.update()
        s.clear()
        with warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            for d in [dev, *dev.children[:1]]:
                for old, new in values().items():
                    if old == "led" and (name in ("HS300", "KP303") and d is not dev):
                        continue  # sockets have their own
                    agree(c, old, c.attempt(getattr, d, old), c.attempt(new, d))
                for junk in ("no_such_thing", "is_toaster", "set_nothing"):
                    c.check(c.attempt(getattr, d, junk).raised(AttributeError), "there is no attribute of another name", lambda: junk)
                light, energy = d.modules.get(M.Light), d.modules.get(M.Energy)
                if light is not None:
                    for old in ("is_color", "is_dimmable", "is_variable_color_temp", "has_effects", "valid_temperature_range"):
                        agree(c, old, c.attempt(getattr, light, old), c.attempt(values()[old], d))
                    c.check(c.attempt(getattr, light, "no_such_thing").raised(AttributeError), "a light has no attribute of another name")
                if energy is not None:
                    for old, new in {"emeter_today": "consumption_today", "emeter_this_month": "consumption_this_month", "realtime": "status"}.items():
                        agree(c, old, c.attempt(getattr, energy, old), c.attempt(getattr, energy, new))
                    for old, new in {"get_realtime": "get_status", "erase_emeter_stats": "erase_stats", "get_daystat": "get_daily_stats", "get_monthstat": "get_monthly_stats"}.items():
                        c.check(getattr(energy, old) == getattr(energy, new), "an old command is the new one", lambda: old)
                    c.check(c.attempt(getattr, energy, "no_such_thing").raised(AttributeError), "energy has no attribute of another name")
                if light is not None or energy is not None:
                    c.reach("module")
        c.check(not s.log, "looking at a device sends nothing", lambda: s.log)
        c.reach("kind")
        c.reach("unknown")

    c.run(go())


def write(c, name):
    from kasa import Module as M

    d = state(c, name)
    (a, sa), (b, sb) = make(name, d), make(name, d)
    big = 2**31

    def num(n):
        return c.int(n, -big, big)

    def over():
        return num("t") if c.bool("transition") else None

    def custom():
        return {"custom": 1, "id": "x1", "brightness": num("k"), "name": "Mine", "segments": [0], "expansion_strategy": 1, "enable": 1, "type": "sequence", "duration": 0, "transition": 0, "direction": 1, "repeat_times": 0, "space": 1, "sequence": [[1, 2, 3]]}

    def flag():
        return bool(c.bool("on"))

    calls = {
        "set_brightness": (M.Light, "set_brightness", lambda: (num("v"),), lambda: {"transition": over()}),
        "set_hsv": (M.Light, "set_hsv", lambda: (num("h"), num("s"), num("v")), lambda: {"transition": over()}),
        "set_hsv 2": (M.Light, "set_hsv", lambda: (num("h"), num("s")), dict),
        "set_color_temp": (M.Light, "set_color_temp", lambda: (num("k"),), lambda: {"brightness": None, "transition": over()}),
        "set_color_temp 2": (M.Light, "set_color_temp", lambda: (num("k"),), lambda: {"brightness": num("v")}),
        "set_led": (M.Led, "set_led", lambda: (flag(),), dict),
        "set_effect": (M.LightEffect, "set_effect", lambda: (c.choice("effect name", ["Aurora", "Off", "No such", "Party"]),), dict),
        "set_effect 2": (M.LightEffect, "set_effect", lambda: ("Aurora",), lambda: {"brightness": num("v"), "transition": over()}),
        "set_custom_effect": (M.LightEffect, "set_custom_effect", lambda: (custom(),), dict),
        "get_emeter_realtime": (M.Energy, "get_status", tuple, dict),
        "get_emeter_daily": (M.Energy, "get_daily_stats", tuple, lambda: {"year": c.choice("year", [None, 2024]), "month": c.choice("month", [None, 3]), "kwh": flag()}),
        "get_emeter_monthly": (M.Energy, "get_monthly_stats", tuple, lambda: {"year": 2024, "kwh": flag()}),
    }

    async def go():
        await a.update()
        await b.update()
        has = [o for o, (m, *_) in calls.items() if m in a.modules]
        for o in calls:
            if o not in has:
                with warnings.catch_warnings(record=True):
                    r = c.attempt(getattr, a, o.split()[0])
                c.check(r.raised(AttributeError), "an old command of something the device has not is no attribute", lambda: (o, repr(r)))
        if not has:
            return
        old = has[c.pick("name", len(has))]
        module, new, args, kw = calls[old]
        args, kw = args(), kw()
        sa.clear(), sb.clear()
        with warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            try:
                f = getattr(a, old.split()[0])
            except AttributeError as ex:
                f = None
                c.check(False, "an old command exists", lambda: (old, repr(ex)))
            oa = await acatch(f(*args, **kw))
        ob = await acatch(getattr(b.modules[module], new)(*args, **kw))
        c.check(oa.ok == ob.ok and type(oa.exc) is type(ob.exc), "an old command ends as the new one", lambda: (old, args, kw, repr(oa), repr(ob)))
        c.check(len(sa.log) == len(sb.log) and sym_eq(list(sa.log), list(sb.log)), "an old command sends what the new one sends", lambda: (old, sa.log, sb.log))
        if oa.ok and ob.ok:
            c.check(sym_eq(oa.value, ob.value), "an old command returns what the new one returns", lambda: (old, repr(oa), repr(ob)))
            c.reach("sent")
        else:
            c.reach("refused")

    c.run(go())


def presets(c):
    """Presets of older bulbs by their old names."""
    from kasa import KasaException
    from kasa.iot.modules.lightpreset import IotLightPreset

    d = sim.data("KL130")
    stored = d["system"]["get_sysinfo"]["preferred_state"]
    for i, p in enumerate(stored):
        p.clear()
        p.update({"index": i, "brightness": c.int(f"b{i}", 0, 100), "hue": c.int(f"h{i}", 0, 360), "saturation": c.int(f"s{i}", 0, 100), "color_temp": c.int(f"c{i}", 0, 9000)})
    n = len(stored)
    dev, s = sim.iot_device(d, __import__("kasa.iot").iot.IotBulb)
    if c.symbolic:
        sim.model_from_dict(c, IotLightPreset)
        plain(c, IotLightPreset)

    async def go():
        await dev.update()
        s.clear()
        with warnings.catch_warnings(record=True):
            got = dev.presets
            c.check(len(got) == n, "every preset is listed", lambda: got)
            for p, q in zip(got, stored):
                c.check(And(*[sym_eq(getattr(p, k), q[k]) for k in ("index", "brightness", "hue", "saturation", "color_temp")]), "a preset is as stored", lambda: (p, q))
            p = got[c.pick("which", n)]
            i = c.int("index", 0, 2**31)
            p.index, p.brightness, p.hue = i, c.int("b", 0, 100), c.int("h", 0, 360)
            o = await acatch(dev.save_preset(p))
        if i >= n:
            c.check(o.raised(KasaException) and not s.log, "a preset the bulb has not is refused", lambda: repr(o))
            return
        c.check(o.ok and len(s.log) == 1, "a preset is stored with one request", lambda: (repr(o), s.log))
        _, m, cmd, args = s.log[0]
        c.check(cmd == "set_preferred_state" and sym_eq(args, {"index": i, "brightness": p.brightness, "hue": p.hue, "saturation": p.saturation, "color_temp": p.color_temp}), "a preset is stored as given", lambda: (args, p))
        c.reach("preset")

    c.run(go())


def plain(c, cls):
    real = cls.to_dict

    def to_dict(self, *a, **k):
        import dataclasses

        return {f.name: v for f in dataclasses.fields(self) if (v := getattr(self, f.name)) is not None}

    c.patch(cls, "to_dict", to_dict)


def classes(c):
    """Old names in the package."""
    import kasa
    import kasa.iot as iot
    from kasa import exceptions as E
    from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
    from kasa.iot.modules.lightpreset import IotLightPreset

    want = {
        "SmartDevice": iot.IotDevice, "SmartPlug": iot.IotPlug, "SmartBulb": iot.IotBulb, "SmartLightStrip": iot.IotLightStrip, "SmartStrip": iot.IotStrip, "SmartDimmer": iot.IotDimmer,
        "SmartBulbPreset": IotLightPreset, "SmartDeviceException": E.KasaException, "UnsupportedDeviceException": E.UnsupportedDeviceError, "AuthenticationException": E.AuthenticationError,
        "TimeoutException": E.TimeoutError, "ConnectionType": DeviceConnectionParameters, "EncryptType": DeviceEncryptionType, "DeviceFamilyType": DeviceFamily,
    }  # fmt: skip
    n = sorted(want)[c.pick("name", len(want))]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        o = c.attempt(getattr, kasa, n)
    c.check(o.ok and o.value is want[n], "an old class is the new one", lambda: (n, repr(o)))
    c.check(any(issubclass(x.category, DeprecationWarning) for x in w), "using an old class warns", lambda: n)
    c.check(c.attempt(getattr, kasa, n + "s").raised(AttributeError), "there are no other classes")
    c.reach("class")


def scenarios(tier):
    out = [(f"read-{n}", read, {"name": n}) for n in NAMES] + [(f"write-{n}", write, {"name": n}) for n in NAMES]
    return out + [("presets", presets, {}), ("classes", classes, {})]
