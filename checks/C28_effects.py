"""Light effects: the one chosen runs, as chosen, and nothing else about the effects changes."""

from __future__ import annotations

import base64
import copy

import sim
import statesim
from engine.ctx import And, Not, Or, acatch, sym_eq

BOUNDS = (
    "a colour bulb with two scenes (own, encoded or plain names; any brightness of every colour), two SMART light strips and a legacy one with all built-in effects, each in any state (any or no effect "
    "running, any brightness); up to two commands (effect with or without brightness and transition, brightness, custom effect) or changes made by others, each followed by an update"
)
OUTSIDE = "scenes edited by others within the day the list is kept, the brightness shown while a custom effect runs, brightness values outside 0 to 100 given with an effect of a bulb, outside 1 to 100 with one of a strip"
WITNESSES = ["bulb-set", "bulb-off", "bulb-unknown", "bulb-brightness", "others", "strip-set", "strip-off", "strip-unknown", "strip-brightness", "strip-dimmed-out", "legacy-set", "legacy-off", "custom"]
QUICK_S, THOROUGH_S = 200, 700


def b64(s):
    return base64.b64encode(s.encode()).decode()


# what the device stores, what the user sees
NAMES = [
    {"L1": ("", "Party"), "L2": ("", "Relax")},
    {"L1": (b64("Movie night"), "Movie night"), "L2": ("Movie", "Movie")},
    {"L1": ("Birthday", "Birthday"), "L2": (b64("Tee"), "Tee")},
    {"L1": ("", "Party"), "L2": (b64("Sömmer"), "Sömmer")},
]


class Bulb:
    def __init__(self, c, n):
        self.c = c
        d = sim.data("L530E")
        self.rules = d["get_dynamic_light_effect_rules"]
        self.names = NAMES[c.pick("names", len(NAMES))]
        for r in self.rules["rule_list"]:
            r["scene_name"] = self.names[r["id"]][0]
            r["color_status_list"] = [[c.int(f"{r['id']}b{i}", 0, 100), *r["color_status_list"][i][1:]] for i in range(n)]
        self.info = d["get_device_info"]
        self.b = c.int("b0", 1, 100)
        self.info["brightness"] = self.b
        self.info["device_on"] = True
        self.run_others([None, "L1", "L2"][c.pick("running", 3)])
        self.dev, self.s = sim.smart_device(d)
        statesim.smart(self.s)

    def run_others(self, which):
        """The effect is chosen on the device or in another app."""
        self.running = which
        self.rules["enable"] = self.info["dynamic_light_effect_enable"] = which is not None
        if which:
            self.rules["current_rule_id"] = self.info["dynamic_light_effect_id"] = which
        else:
            self.rules.pop("current_rule_id", None)
            self.info.pop("dynamic_light_effect_id", None)

    async def start(self):
        from kasa import Module

        await self.dev.update()
        c = self.c
        c.check(Module.LightEffect in self.dev.modules, "the lamp has effects")
        self.mod = self.dev.modules[Module.LightEffect]
        self.light = self.dev.modules[Module.Light]
        self.s.clear()

    def shown(self, label, changed=None):
        """What is shown is what runs."""
        c = self.c
        c.check(self.mod._last_update_error is None, "the effects are read", lambda: self.mod._last_update_error)
        c.check(self.mod.effect_list == ["Off", *[self.names[r["id"]][1] for r in self.rules["rule_list"]]], "every effect has its name", lambda: self.mod.effect_list)
        want = self.names[self.running][1] if self.running else "Off"
        c.check(sym_eq(self.mod.effect, want), label, lambda: (self.mod.effect, want))
        c.check(sym_eq(self.dev.features["light_effect"].value, want), "the feature shows the effect", lambda: want)
        c.check(self.mod.is_active is bool(self.running), "an effect is active when one runs")
        b = self.bright(self.running)
        c.check(sym_eq(self.light.brightness, b), "the brightness is that of the effect, or the light's own", lambda: self.light.brightness)

    def bright(self, which):
        return self.rule(which)["color_status_list"][0][0] if which else self.info["brightness"]

    def rule(self, which):
        return [r for r in self.rules["rule_list"] if r["id"] == which][0]

    def edited(self, before, which, brightness):
        """Only the brightness of the one effect is changed on the device."""
        c = self.c
        for r, o in zip(self.rules["rule_list"], before, strict=True):
            for k in o:
                if k == "color_status_list" and r["id"] == which:
                    continue
                c.check(sym_eq(r.get(k), o[k]), "the effect keeps everything but its brightness", lambda: (k, r.get(k), o[k], self.s.sets()))
            if r["id"] == which:
                c.check(len(r["color_status_list"]) == len(o["color_status_list"]), "the effect keeps its colours")
                for x, y in zip(r["color_status_list"], o["color_status_list"]):
                    c.check(sym_eq(list(x[1:]), list(y[1:])), "the effect keeps its colours", lambda: (x, y))
                    c.check(sym_eq(x[0], brightness), "the effect has the brightness wanted", lambda: (x, brightness))


def bulb_set(c, n):
    lamp = Bulb(c, n)

    async def go():
        await lamp.start()
        lamp.shown("the running effect is shown")
        before = copy.deepcopy(lamp.rules["rule_list"])
        ids = [None, "L1", "L2", "?"]
        which = ids[c.pick("which", 4)]
        name = "Off" if which is None else "No such" if which == "?" else lamp.names[which][1]
        now = lamp.bright(lamp.running)
        if c.bool("feature"):
            b = None
            o = await acatch(lamp.dev.features["light_effect"].set_value(name))
        else:
            b = c.int("b", 0, 100) if c.bool("with brightness") else None
            o = await acatch(lamp.mod.set_effect(name, brightness=b))
        if which == "?":
            c.check(o.raised(ValueError) and not lamp.s.sets(), "an unknown effect is refused with nothing sent", lambda: (repr(o), lamp.s.sets()))
            c.reach("bulb-unknown")
            return
        c.check(o.ok, "an effect of the list is set", lambda: repr(o))
        if not o.ok:
            return
        c.check(sym_eq(lamp.info.get("dynamic_light_effect_id"), which), "the effect runs on the device", lambda: lamp.s.sets())
        c.check(lamp.info["dynamic_light_effect_enable"] is (which is not None), "the device has effects on or off", lambda: lamp.s.sets())
        lamp.edited(before, which, now if b is None else b)
        lamp.running = which
        await lamp.dev.update()
        lamp.shown("the effect set is shown")
        c.reach("bulb-set" if which else "bulb-off")

    c.run(go())


def bulb_brightness(c, n):
    lamp = Bulb(c, n)

    async def go():
        await lamp.start()
        before = copy.deepcopy(lamp.rules["rule_list"])
        b = c.int("b", 1, 100)
        o = await acatch(lamp.light.set_brightness(b))
        c.check(o.ok, "a brightness is set", lambda: repr(o))
        if not o.ok:
            return
        lamp.edited(before, lamp.running, b)
        c.check(sym_eq(lamp.info["brightness"], lamp.b if lamp.running else b), "the light's own brightness is set when no effect runs", lambda: lamp.s.sets())
        c.check(lamp.info["dynamic_light_effect_enable"] is bool(lamp.running), "an effect keeps running", lambda: lamp.s.sets())
        await lamp.dev.update()
        lamp.shown("the effect is still shown")
        c.check(sym_eq(lamp.light.brightness, b), "the brightness set is shown")
        c.reach("bulb-brightness")

    c.run(go())


def bulb_others(c, n, steps):
    lamp = Bulb(c, n)

    async def go():
        await lamp.start()
        for i in range(steps):
            lamp.run_others([None, "L1", "L2"][c.pick(f"others{i}", 3)])
            o = await acatch(lamp.dev.update())
            c.check(o.ok, "the lamp is updated", lambda: repr(o))
            lamp.shown("the effect started elsewhere is shown")
            c.reach("others")

    c.run(go())


class Strip:
    def __init__(self, c, name):
        self.c, self.legacy = c, name == "KL430"
        d = sim.data(name)
        self.b = c.int("b0", 1, 100)
        self.eb = c.int("eb0", 1, 100)
        if self.legacy:
            from kasa.iot.effects import EFFECT_MAPPING_V1 as table

            import kasa.iot as iot

            si = d["system"]["get_sysinfo"]
            si["light_state"] = {"on_off": 1, "brightness": self.b, "hue": 0, "saturation": 0, "color_temp": 2700, "mode": "normal"}
            self.state = lambda: si["lighting_effect_state"]
        else:
            from kasa.smart.effects import EFFECT_MAPPING as table

            info = d["get_device_info"]
            info["brightness"], info["device_on"] = self.b, True
            self.state = lambda: info["lighting_effect"]
        self.table = table
        self.copy = copy.deepcopy(dict(table))
        self.all = list(self.copy)
        self.custom = False
        k = c.pick("running", 4)
        if k == 0:
            self.run("Off", enable=0)
        elif k == 1:
            self.run("Sunrise" if "Sunrise" in self.copy else "Icicle")
        elif k == 2:
            self.run("Aurora")
        else:
            self.run("My own", custom=1)
        if self.legacy:
            self.dev, self.s = sim.iot_device(d, iot.IotLightStrip)
            statesim.iot(self.s)
        else:
            self.dev, self.s = sim.smart_device(d)
            statesim.smart(self.s)

    def run(self, name, enable=1, custom=0):
        self.name = name if enable else "Off"
        self.custom = bool(custom)
        self.state().update({"enable": enable, "name": name if name != "Off" else "Ocean", "custom": custom, "brightness": self.eb, "id": self.copy.get(name, {}).get("id", "x")})

    async def start(self):
        from kasa import Module

        await self.dev.update()
        self.mod = self.dev.modules[Module.LightEffect]
        self.light = self.dev.modules[Module.Light]
        self.s.clear()
        self.c.check(self.mod.effect_list == ["Off", *self.all], "all effects are listed", lambda: self.mod.effect_list)

    def shown(self, label):
        c = self.c
        c.check(sym_eq(self.mod.effect, self.name), label, lambda: (self.mod.effect, self.name))
        c.check(sym_eq(self.dev.features["light_effect"].value, self.name), "the feature shows the effect", lambda: self.name)
        if not self.custom:
            b = self.b if self.name == "Off" else self.state()["brightness"]
            c.check(sym_eq(self.light.brightness, b), "the brightness is that of the effect, or the light's own", lambda: (self.light.brightness, b))

    def untouched(self):
        self.c.check(dict(self.table) == self.copy, "the built-in effects stay as they are", lambda: [k for k in self.copy if self.table[k] != self.copy[k]])


def sent_effect(lamp):
    reqs = [r[-1] for r in lamp.s.sets() if r[-2] == "set_lighting_effect"]
    lamp.c.check(len(reqs) == 1 and len(lamp.s.sets()) == 1, "one effect is sent", lambda: lamp.s.sets())
    return reqs[0]


def strip_set(c, name, twice):
    lamp = Strip(c, name)

    async def go():
        await lamp.start()
        lamp.shown("the running effect is shown")
        for i in range(2 if twice else 1):
            names = ["Off", "No such", *lamp.all]
            eff = names[c.pick(f"effect{i}", len(names))]
            b = c.int(f"b{i}", 1, 100) if c.bool(f"with brightness{i}") else None
            t = c.int(f"t{i}", 0, 100000) if c.bool(f"with transition{i}") else None
            now = lamp.light.brightness
            custom = lamp.custom
            lamp.s.clear()
            o = await acatch(lamp.mod.set_effect(eff, brightness=b, transition=t))
            if eff == "No such":
                c.check(o.raised(ValueError) and not lamp.s.sets(), "an unknown effect is refused with nothing sent", lambda: (repr(o), lamp.s.sets()))
                c.reach("strip-unknown")
                return
            c.check(o.ok, "an effect of the list is set", lambda: repr(o))
            if not o.ok:
                return
            req = sent_effect(lamp)
            if eff == "Off":
                c.check(sym_eq(req["enable"], 0), "the effects are turned off", lambda: req)
                lamp.name, lamp.custom = "Off", False
                c.reach("legacy-off" if lamp.legacy else "strip-off")
            else:
                base = lamp.copy[eff]
                want = dict(base)
                if b is not None:
                    want["brightness"] = b
                elif not lamp.legacy:
                    want["brightness"] = now
                if t is not None:
                    want["transition"] = t
                c.check(set(req) == set(want), "the built-in effect is sent", lambda: (req, want))
                for k in want:
                    if k == "brightness" and b is None and custom:
                        continue
                    c.check(sym_eq(req.get(k), want[k]), "the built-in effect is sent, with what was asked for", lambda: (k, req, want))
                lamp.name, lamp.custom = eff, False
                c.reach("legacy-set" if lamp.legacy else "strip-set")
            await lamp.dev.update()
            lamp.shown("the effect set is shown")
        lamp.untouched()

    c.run(go())


def strip_brightness(c, name):
    lamp = Strip(c, name)

    async def go():
        await lamp.start()
        if lamp.custom:
            return
        b = c.int("b", 0, 100)
        on_effect = bool(c.bool("of the effect"))
        o = await acatch((lamp.mod if on_effect else lamp.light).set_brightness(b))
        c.check(o.ok, "a brightness is set", lambda: repr(o))
        if not o.ok:
            return
        if b == 0:
            await lamp.dev.update()
            if on_effect:
                c.check(sym_eq(lamp.mod.effect, "Off"), "an effect without brightness is off", lambda: lamp.s.sets())
            else:
                c.check(lamp.dev.is_on is False, "a light without brightness is off", lambda: lamp.s.sets())
            c.reach("strip-dimmed-out")
            lamp.untouched()
            return
        if on_effect or lamp.name != "Off":
            req = sent_effect(lamp)
            c.check(sym_eq(req.get("brightness"), b), "the effect gets the brightness", lambda: req)
            c.check("name" not in req or sym_eq(req["name"], lamp.name), "the effect stays the same", lambda: req)
            c.check("enable" not in req or sym_eq(req["enable"], 1), "the effect stays on", lambda: req)
        else:
            lamp.b = b
        await lamp.dev.update()
        lamp.shown("the effect is still shown")
        if not (on_effect and lamp.name == "Off"):
            c.check(sym_eq(lamp.light.brightness, b), "the brightness set is shown", lambda: lamp.s.sets())
        lamp.untouched()
        c.reach("strip-brightness")

    c.run(go())


def strip_custom(c, name):
    lamp = Strip(c, name)

    async def go():
        await lamp.start()
        nm = ["", "Mine"][c.pick("named", 2)]
        eff = {"custom": 1, "id": "abc", "brightness": c.int("b", 1, 100), "name": nm, "enable": 1, "type": "sequence", "segments": [0], "sequence": [[c.int("h", 0, 360), 100, 100]], "transition": c.int("t", 0, 10000)}
        given = copy.deepcopy(eff)
        o = await acatch(lamp.mod.set_custom_effect(eff))
        c.check(o.ok, "a custom effect is set", lambda: repr(o))
        req = sent_effect(lamp)
        c.check(set(req) == set(given), "a custom effect is sent as it is", lambda: req)
        for k in given:
            c.check(sym_eq(req[k], given[k]), "a custom effect is sent as it is", lambda: req)
        await lamp.dev.update()
        c.check(sym_eq(lamp.mod.effect, nm or "Custom"), "a custom effect is shown by its name", lambda: lamp.mod.effect)
        lamp.untouched()
        c.reach("custom")

    c.run(go())


def scenarios(tier):
    deep = tier != "quick"
    n = 3 if deep else 2
    out = [
        ("bulb-set", bulb_set, {"n": n}),
        ("bulb-brightness", bulb_brightness, {"n": n}),
        ("bulb-others", bulb_others, {"n": 1, "steps": 3 if deep else 2}),
    ]
    for name in ("L900", "L920", "KL430"):
        out.append((f"set-{name}", strip_set, {"name": name, "twice": False}))
        if deep:
            out.append((f"set-twice-{name}", strip_set, {"name": name, "twice": True}))
        if name != "KL430":  # its light handles effects by itself
            out.append((f"brightness-{name}", strip_brightness, {"name": name}))
        out.append((f"custom-{name}", strip_custom, {"name": name}))
    return out
