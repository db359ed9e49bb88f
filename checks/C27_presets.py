"""Light presets: a name stands for the values the device lists, and saving changes that preset alone."""

from __future__ import annotations

import copy

import C20_light_commands as lights
import sim
import statesim
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq

BOUNDS = (
    "nine lights (colour, temperature, dimming only, a switch, child of a switch, strips that list effects among their presets), each in any state, with 3 or 4 presets of any values listed in any "
    "arrangement with effects; one command (set, save, unknown name; any values within range, any combination of given and omitted ones), then an update"
)
OUTSIDE = "saving values the light cannot have, presets while an effect is running, devices listing presets without a brightness that are no effects"
WITNESSES = ["set", "set-not-set", "unknown", "saved", "saved-behind-effect", "no-brightness", "named", "not-set"]
QUICK_S, THOROUGH_S = 200, 800

IOT = {"KL130": "IotBulb", "KL120": "IotBulb", "KL125": "IotBulb", "KL430v1": "IotLightStrip"}
SMART = {"L530E": None, "L900": None, "L920": None, "HS220s": None, "KS240": 1}
EFFECTS = ("KL430v1", "L920")  # lights that list effects among their presets
COLOR_KEYS = ("hue", "saturation", "color_temp")


def decode(c):
    """mashumaro's generated decoder (not code under test), for values that are symbolic."""
    from kasa.iot.modules.lightpreset import IotLightPreset

    fields = IotLightPreset.__dataclass_fields__
    c.patch(IotLightPreset, "from_dict", lambda vals: IotLightPreset(**{k: v for k, v in vals.items() if k in fields}))


class Preset(lights.Lamp):
    """A lamp with symbolic presets."""

    def __init__(self, c, name, n):
        lights.IOT, lights.SMART = {**lights.IOT, **IOT}, {**lights.SMART, **SMART}
        self.n = n
        real = sim.data
        try:
            sim.data = lambda nm: self.fill(c, nm, real(nm))
            super().__init__(c, name)
        finally:
            sim.data = real

    def entry(self, c, i, keys):
        e = {"brightness": c.int(f"pb{i}", 1, 100)}
        if "hue" in keys:
            e["hue"], e["saturation"] = c.int(f"ph{i}", 0, 360), c.int(f"ps{i}", 0, 100)
        if "color_temp" in keys:
            e["color_temp"] = c.int(f"pt{i}", 0, 9000)
        return e

    def fill(self, c, name, d):
        n = self.n
        self.kinds = [name not in EFFECTS or not c.bool(f"effect{i}") for i in range(n)]  # True: a light preset
        if name in IOT:
            decode(c)
            si = d["system"]["get_sysinfo"]
            old = si["preferred_state"]
            effect = [e for e in old if "id" in e] or [None]
            normal = [e for e in old if "id" not in e][0]
            lst = []
            for i, k in enumerate(self.kinds):
                e = {**self.entry(c, i, normal), "index": i} if k else {**effect[0], "index": i}
                if k and "mode" in normal:
                    e["mode"] = normal["mode"]
                lst.append(e)
            si["preferred_state"] = lst
            self.listed = lambda: si["preferred_state"]
            self.keys = [k for k in COLOR_KEYS if k in normal]
            self.pname = lambda pos: f"Light preset {pos + 1}"
        elif name == "KS240":
            (e,) = [e for e in d["get_child_device_list"]["child_device_list"] if "brightness" in e]
            e["preset_state"] = [self.entry(c, i, ()) for i in range(n)]
            own = d["child_devices"][e["device_id"]] if "child_devices" in d else {}
            own.get("get_device_info", {})["preset_state"] = e["preset_state"]
            self.listed = lambda: e["preset_state"]
            self.keys = []
            self.pname = lambda pos: f"Light preset {pos + 1}"
        else:
            p = d["get_preset_rules"]
            if "brightness" in p:
                p["brightness"] = [self.entry(c, i, ())["brightness"] for i in range(n)]
                self.listed = lambda: [{"brightness": b} for b in p["brightness"]]
                self.keys = []
                self.pname = lambda pos: f"Brightness preset {pos + 1}"
            else:
                effect = [e for e in p["states"] if "lighting_effect" in e] or [None]
                p["states"] = [self.entry(c, i, COLOR_KEYS) if k else copy.deepcopy(effect[0]) for i, k in enumerate(self.kinds)]
                p["sum"] = n
                self.listed = lambda: p["states"]
                self.keys = list(COLOR_KEYS)
                self.pname = lambda pos: f"Light preset {sum(self.kinds[:pos]) + 1}"
        self.names = {self.pname(i): i for i, k in enumerate(self.kinds) if k}
        return d

    async def start(self):
        from kasa import Module

        await super().start()
        self.mod = self.light_dev.modules[Module.LightPreset]
        if self.name == "KS240":
            # the sim answers the child's own info
            self.listed = lambda: self.s_.children[self.cid]["get_device_info"]["preset_state"]
        c = self.c
        c.check(self.mod.preset_list == ["Not set", *self.names], "every light preset has its name, effects have none", lambda: (self.mod.preset_list, self.names))
        self.before = copy.deepcopy(self.listed())
        self.same_states("the presets are listed with the values of the device")

    def same_states(self, label):
        for st, pos in zip(self.mod.preset_states_list, self.names.values(), strict=True):
            e = self.before[pos]
            for k in ("brightness", *self.keys):
                self.c.check(sym_eq(getattr(st, k), e[k]), label, lambda: (k, st, e))

    def matches(self, pos):
        """Whether the light is as the preset says."""
        e = self.before[pos]
        conds = [sym_eq(self.now("brightness"), e["brightness"])]
        if self.color:
            hsv = self.now("hsv")
            conds += [sym_eq(hsv[0], e["hue"]), sym_eq(hsv[1], e["saturation"])]
        if self.temp:
            conds.append(sym_eq(self.now("color_temp"), e["color_temp"]))
        return And(*conds)

    def named_right(self):
        c = self.c
        got = self.mod.preset
        earlier = []
        for nm, pos in self.names.items():
            m = self.matches(pos)
            if nm == got:
                c.check(m, "the preset named is the one the light has", lambda: (got, self.before))
                c.check(Not(Or(*earlier)) if earlier else True, "the first preset the light has is named", lambda: (got, self.before))
                c.reach("named")
                return got
            earlier.append(m)
        c.check(sym_eq(got, "Not set"), "a preset of the list is named", lambda: got)
        c.check(Not(Or(*earlier)) if earlier else True, "no preset is named only when the light has none", lambda: self.before)
        c.reach("not-set")
        return got


def name_preset(c, name, n):
    lamp = Preset(c, name, n)

    async def go():
        await lamp.start()
        lamp.named_right()

    c.run(go())


def set_preset(c, name, n):
    lamp = Preset(c, name, n)

    async def go():
        from kasa import Module

        await lamp.start()
        choices = ["Not set", "Light preset 9", "", *lamp.names]
        nm = choices[c.pick("which", len(choices))]
        via = bool(c.bool("feature"))
        feat = lamp.light_dev.features["light_preset"]
        await lamp.do(feat.set_value(nm) if via else lamp.mod.set_preset(nm))
        if nm not in ["Not set", *lamp.names]:
            lamp.refused("an unknown preset is refused")
            c.reach("unknown")
            return
        c.check(lamp.o.ok, "a preset of the list is set", lambda: repr(lamp.o))
        if not lamp.o.ok:
            return
        lamp.is_on(True, "setting a preset turns the light on")
        if nm == "Not set":
            c.check(sym_eq(lamp.now("brightness"), 100), "'Not set' is full brightness", lambda: lamp.sent)
            c.reach("set-not-set")
            return
        c.check(lamp.matches(lamp.names[nm]), "the light is as the preset says", lambda: (nm, lamp.sent))
        got = lamp.named_right()
        c.check(got in lamp.names and lamp.names[got] <= lamp.names[nm], "the preset that was set is named", lambda: (nm, got))
        c.reach("set")

    c.run(go())


def unchanged(c, lamp, but=()):
    after = lamp.listed()
    c.check(len(after) == len(lamp.before), "the device keeps its presets", lambda: (lamp.before, after))
    for i, (b, a) in enumerate(zip(lamp.before, after)):
        if i not in but:
            c.check(set(a) == set(b), "no other preset or effect changes", lambda: (i, b, a))
            for k in b:
                c.check(sym_eq(a.get(k), b[k]), "no other preset or effect changes", lambda: (i, b, a, lamp.sent))


def save_preset(c, name, n):
    from kasa import LightState

    lamp = Preset(c, name, n)

    async def go():
        await lamp.start()
        names = [*lamp.names, "Light preset 9", "Not set"]
        nm = names[c.pick("which", len(names))]
        st = LightState()
        given = {}
        if not c.bool("no brightness") or lamp.keys:
            given["brightness"] = c.int("b", 1, 100)
        if "hue" in lamp.keys:
            if c.bool("with hs"):
                given["hue"], given["saturation"] = c.int("h", 0, 360), c.int("s", 0, 100)
        if "color_temp" in lamp.keys:
            if c.bool("with temp"):
                given["color_temp"] = c.int("t", 0, 9000)
        for k, v in given.items():
            setattr(st, k, v)
        if c.bool("taken from the light"):
            st.light_on = True
        if c.bool("with transition"):
            st.transition = 0
        await lamp.do(lamp.mod.save_preset(nm, st))
        if nm not in lamp.names:
            lamp.refused("an unknown preset is not saved") if lamp.names else c.check(not lamp.o.ok and not lamp.sent, "nothing is saved where there is no preset")
            unchanged(c, lamp)
            return
        if "brightness" not in given:
            lamp.refused("a preset without a brightness is not saved")
            unchanged(c, lamp)
            c.reach("no-brightness")
            return
        c.check(lamp.o.ok, "a preset of the list is saved", lambda: repr(lamp.o))
        if not lamp.o.ok:
            return
        pos = lamp.names[nm]
        unchanged(c, lamp, (pos,))
        e = lamp.listed()[pos]
        want = {**lamp.before[pos], **given}
        c.check(set(e) == set(want), "a preset has light values only", lambda: (e, lamp.sent))
        for k, v in want.items():
            c.check(sym_eq(e.get(k), v), "the preset has the values given", lambda: (k, e, want, lamp.sent))
        lamp.before = copy.deepcopy(lamp.listed())
        c.check(lamp.mod.preset_list == ["Not set", *lamp.names], "the names stay", lambda: lamp.mod.preset_list)
        lamp.same_states("the saved presets are listed")
        c.reach("saved")
        if not all(lamp.kinds[:pos]):
            c.reach("saved-behind-effect")

    c.run(go())


def scenarios(tier):
    deep = tier != "quick"
    out = []
    for name in [*SMART, *IOT]:
        n = 4 if deep else 3
        out.append((f"name-{name}", name_preset, {"name": name, "n": n}))
        out.append((f"set-{name}", set_preset, {"name": name, "n": n}))
        out.append((f"save-{name}", save_preset, {"name": name, "n": n}))
    return out
