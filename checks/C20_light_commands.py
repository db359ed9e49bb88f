"""Lights: every command is validated, and the light then is what was asked for."""

from __future__ import annotations

import sim
import statesim
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq

BOUNDS = (
    "five SMART and five IOT lights (colour, temperature, dimming only, dimmer switch, child of a switch), each in any prior state (on or off, any brightness, hue, saturation, temperature within "
    "range), one command (brightness, hsv, colour temperature, state) with any integers in +-2^31 and every combination of given and omitted arguments, then an update"
)
OUTSIDE = "active light effects (C24); what the device does beyond storing what it is sent; brightness 0 within hsv and colour temperature commands"
WITNESSES = ["brightness", "off", "hsv", "color_temp", "state", "refused", "unsupported", "transition"]
QUICK_S, THOROUGH_S = 200, 700

IOT = {"KL130": "IotBulb", "KL120": "IotBulb", "KL430": "IotLightStrip", "HS220": "IotDimmer", "ES20M": "IotDimmer"}
SMART = {"L530E": None, "L900": None, "L920": None, "HS220s": None, "KS240": 1}


class Lamp:
    """The light, its simulator and its prior state (symbolic)."""

    def __init__(self, c, name, on=None):
        self.c, self.name = c, name
        on = bool(c.bool("on")) if on is None else on
        self.on = on
        d = sim.data(name)
        if name in IOT:
            import kasa.iot as iot

            si = d["system"]["get_sysinfo"]
            cls = getattr(iot, IOT[name])
            self.dimmer = IOT[name] == "IotDimmer"
            self.color = bool(si.get("is_color"))
            self.temp = bool(si.get("is_variable_color_temp"))
            self.b = c.int("b0", 1, 100)
            self.h, self.s = c.int("h0", 0, 360), c.int("s0", 0, 100)
            self.t = 0
            if self.temp:
                self.t = c.int("t0", 2500, 6500)
            if self.dimmer:
                si["brightness"] = self.b
                si["relay_state"] = int(on)
            else:
                inner = {"brightness": self.b, "hue": self.h, "saturation": self.s, "color_temp": self.t, "mode": "normal"}
                si["light_state"] = {**inner, "on_off": 1} if on else {"on_off": 0, "dft_on_state": inner}
            if "lighting_effect_state" in si:
                si["lighting_effect_state"].update({"enable": 0})
            self.dev, self.s_ = sim.iot_device(d, cls)
            statesim.iot(self.s_)
            self.light_dev = self.dev
        else:
            self.dimmer = False
            child = SMART[name]
            di = d["get_device_info"]
            cid = None
            if child is not None:
                cid = [e for e in d["get_child_device_list"]["child_device_list"] if "brightness" in e][0]["device_id"]
                di = [e for e in d["get_child_device_list"]["child_device_list"] if e["device_id"] == cid][0]
            self.color, self.temp = "hue" in di, "color_temp" in di and di.get("color_temp_range", [0, 1])[0] != di.get("color_temp_range", [0, 1])[-1]
            self.b = c.int("b0", 1, 100)
            self.h, self.s = c.int("h0", 0, 360), c.int("s0", 0, 100)
            self.t = c.int("t0", 2500, 6500) if self.temp else 0
            di["brightness"] = self.b
            di["device_on"] = on
            if self.color:
                di["hue"], di["saturation"] = self.h, self.s
            if self.temp:
                di["color_temp"] = self.t
            if "lighting_effect" in di:
                di["lighting_effect"]["enable"] = 0
            if "dynamic_light_effect_enable" in di:
                di["dynamic_light_effect_enable"] = False
            self.dev, self.s_ = sim.smart_device(d)
            statesim.smart(self.s_)
            self.cid = cid

    async def start(self):
        from kasa import Module

        await self.dev.update()
        self.light_dev = self.dev
        if self.name in SMART and SMART[self.name] is not None:
            self.light_dev = [k for k in self.dev.children if Module.Light in k.modules][0]
        self.light = self.light_dev.modules[Module.Light]
        self.s_.clear()

    async def do(self, coro):
        """Run the command, note what was sent, update."""
        self.o = await acatch(coro)
        self.sent = list(self.s_.sets())
        if self.o.ok:
            await self.dev.update()

    def now(self, what):
        return getattr(self.light, what)

    def untouched(self, *but):
        c = self.c
        if "brightness" not in but:
            c.check(sym_eq(self.now("brightness"), self.b), "brightness is left alone", lambda: self.sent)
        if self.color and "hs" not in but:
            hsv = self.now("hsv")
            c.check(And(sym_eq(hsv[0], self.h), sym_eq(hsv[1], self.s)), "the colour is left alone", lambda: self.sent)
        if self.temp and "temp" not in but:
            c.check(sym_eq(self.now("color_temp"), self.t), "the colour temperature is left alone", lambda: self.sent)

    def is_on(self, want, label):
        self.c.check(self.light_dev.is_on is want, label, lambda: (self.light_dev.is_on, self.sent))
        self.c.check(self.light.state.light_on is want, "the reported state follows")

    def refused(self, label):
        self.c.check(self.o.raised(ValueError, TypeError), label, lambda: repr(self.o))
        self.c.check(not self.sent, "nothing is sent for a refused command", lambda: self.sent)
        self.c.reach("refused")

    def range(self):
        from kasa import Module

        f = self.light.get_feature("color_temp") if hasattr(self.light, "get_feature") else None
        f = self.light_dev.features["color_temperature"]
        return f.minimum_value, f.maximum_value


def darkened(c, L):
    """Brightness 0, given with a colour or temperature to a legacy light, is not taken for none given (newer ones refuse it)."""
    if L.name not in IOT:
        return
    def found(v):
        if isinstance(v, dict):
            return any(k in ("brightness", "on_off", "device_on") and x is not None and bool(sym_eq(x, 0)) or found(x) for k, x in v.items())
        return isinstance(v, (list, tuple)) and any(found(x) for x in v)

    c.check(found(L.sent), "a brightness of 0 is what was asked", lambda: L.sent)


def brightness(c, name):
    L = Lamp(c, name)
    b = c.int("b", -(2**31), 2**31)
    tr = c.choice("transition", [None, 0, 700])

    async def go():
        await L.start()
        await L.do(L.light.set_brightness(b, transition=tr))

    c.run(go())
    if Or(b < 0, b > 100):
        L.refused("a brightness outside 0..100 is refused")
        return
    c.check(L.o.ok, "a brightness within 0..100 is accepted", lambda: repr(L.o))
    if not L.o.ok:
        return
    if b == 0:
        L.is_on(False, "brightness 0 turns the light off")
        c.reach("off")
        return
    c.check(sym_eq(L.now("brightness"), b), "the brightness is what was asked", lambda: (L.sent, L.now("brightness")))
    L.untouched("brightness")
    if name in IOT:
        L.is_on(True, "setting a brightness turns a legacy light on")
        if tr is not None:
            want = tr if not L.dimmer else (tr or 1)
            got = [a.get("duration", a.get("transition_period")) for _, _, _, a in L.sent]
            c.check(got == [want], "the transition is what was asked", lambda: L.sent)
            c.reach("transition")
    c.reach("brightness")


def hsv(c, name):
    from kasa import KasaException

    L = Lamp(c, name)
    h, s = c.int("h", -(2**31), 2**31), c.int("s", -(2**31), 2**31)
    given = bool(c.bool("given"))
    v = c.int("v", -(2**31), 2**31) if given else None

    async def go():
        await L.start()
        await L.do(L.light.set_hsv(h, s, v))

    c.run(go())
    if not L.color:
        c.check(L.o.raised(KasaException) and not L.sent, "a light without colour refuses colours", lambda: repr(L.o))
        c.reach("unsupported")
        return
    bad = Or(h < 0, h > 360, s < 0, s > 100)
    if given:
        bad = Or(bad, v < 0, v > 100)
    if bad:
        L.refused("a colour outside its ranges is refused")
        return
    c.check(L.o.ok, "a colour within its ranges is accepted", lambda: repr(L.o))
    if not L.o.ok:
        return
    if given and v == 0:
        darkened(c, L)
        return
    got = L.now("hsv")
    c.check(And(sym_eq(got[0], h), sym_eq(got[1], s)), "the colour is what was asked", lambda: (got, L.sent))
    c.check(sym_eq(got[2], v if given else L.b), "the value is what was asked, or is left alone", lambda: (got, L.sent))
    if L.temp:
        c.check(sym_eq(L.now("color_temp"), 0), "a colour ends the white mode", lambda: L.sent)
    c.reach("hsv")


def color_temp(c, name):
    from kasa import KasaException

    L = Lamp(c, name)
    t = c.int("t", -(2**31), 2**31)
    given = bool(c.bool("given"))
    b = c.int("b", -(2**31), 2**31) if given else None

    async def go():
        await L.start()
        await L.do(L.light.set_color_temp(t, brightness=b))

    c.run(go())
    if not L.temp:
        c.check(L.o.raised(KasaException) and not L.sent, "a light without white modes refuses them", lambda: repr(L.o))
        c.reach("unsupported")
        return
    lo, hi = L.range()
    bad = Or(t < lo, t > hi)
    if given:
        bad = Or(bad, b < 0, b > 100)
    if bad:
        L.refused("a temperature or brightness outside its range is refused")
        return
    c.check(L.o.ok, "a temperature within its range is accepted", lambda: repr(L.o))
    if not L.o.ok:
        return
    if given and b == 0:
        darkened(c, L)
        return
    c.check(sym_eq(L.now("color_temp"), t), "the temperature is what was asked", lambda: L.sent)
    c.check(sym_eq(L.now("brightness"), b if given else L.b), "the brightness is what was asked, or is left alone", lambda: L.sent)
    L.untouched("brightness", "temp")
    c.reach("color_temp")


def state(c, name, part):
    """set_state with every combination of given fields."""
    from kasa import LightState

    L = Lamp(c, name)
    st = LightState()
    st.light_on = c.choice("light_on", [None, True, False])
    if part != "rest" and c.bool("b_given"):
        st.brightness = c.int("b", -(2**31), 2**31)
    if part == "rest":
        if L.color and c.bool("hs_given"):
            st.hue, st.saturation = c.int("h", 0, 360), c.int("s", 0, 100)
        if L.temp and c.bool("t_given"):
            st.color_temp = c.int("t", 2500, 6500)
        st.brightness = c.int("b", 1, 100)
        st.transition = c.choice("transition", [None, 0, 700])

    async def go():
        await L.start()
        await L.do(L.light.set_state(st))

    c.run(go())
    b = st.brightness
    if b is not None and Or(b < 0, b > 100) and not (L.dimmer and st.light_on is False):
        L.refused("a brightness outside 0..100 is refused")
        return
    c.check(L.o.ok, "a valid state is accepted", lambda: (st, repr(L.o)))
    if not L.o.ok:
        return
    c.check(len(L.sent) == 1, "one command")
    off = st.light_on is False or (b is not None and bool(b == 0))
    if name in SMART:
        keys = set(L.sent[0][2])
        c.check(keys <= {"device_on", "brightness", "hue", "saturation", "color_temp"}, "only settings of the device are sent", lambda: L.sent)
    elif not L.dimmer:
        keys = set(L.sent[0][3])
        c.check(keys <= {"on_off", "brightness", "hue", "saturation", "color_temp", "transition_period", "ignore_default"}, "only settings of the device are sent", lambda: L.sent)
    L.is_on(not off, "the light is on unless the state says off")
    if off:
        c.reach("off")
        return
    c.check(sym_eq(L.now("brightness"), b if b is not None else L.b), "the brightness is what was asked, or is left alone", lambda: (st, L.sent))
    if L.color:
        g = L.now("hsv")
        c.check(And(sym_eq(g[0], st.hue if st.hue is not None else L.h), sym_eq(g[1], st.saturation if st.saturation is not None else L.s)), "the colour is what was asked, or is left alone", lambda: (st, L.sent))
    if L.temp:
        c.check(sym_eq(L.now("color_temp"), st.color_temp if st.color_temp is not None else L.t), "the temperature is what was asked, or is left alone", lambda: (st, L.sent))
    r = L.light.state
    c.check(sym_eq(r.brightness, L.now("brightness")), "the reported state follows")
    c.reach("state")


def power(c, name):
    """Turning on and off keeps every other setting."""
    L = Lamp(c, name)
    want = bool(c.bool("want"))
    tr = c.choice("transition", [None, 0, 700]) if name in IOT else None

    async def go():
        await L.start()
        k = {} if tr is None else {"transition": tr}
        await L.do(L.light_dev.turn_on(**k) if want else L.light_dev.turn_off(**k))

    c.run(go())
    c.check(L.o.ok, "switching succeeds", lambda: repr(L.o))
    if not L.o.ok:
        return
    L.is_on(want, "the light is switched as asked")
    L.untouched()
    if tr is not None:
        got = [a.get("duration", a.get("transition_period")) for _, _, _, a in L.sent]
        c.check(got == [tr if not L.dimmer else (tr or 1)], "the transition is what was asked", lambda: L.sent)
        if L.dimmer:
            c.check(sym_eq(L.sent[0][3]["brightness"], L.b if want else 0), "the transition ends at the brightness, or off", lambda: L.sent)


def wrong_type(c, name, what):
    """Numbers that are not whole, and texts, are refused."""
    from kasa import KasaException

    L = Lamp(c, name)
    x = c.real("x", -100, 200) if c.bool("real") else c.str("text", 3)
    if what == "brightness" and sym_eq(x, 0):
        return  # off

    async def go():
        await L.start()
        if what == "brightness":
            await L.do(L.light.set_brightness(x))
        elif what == "hue":
            await L.do(L.light.set_hsv(x, 50, 50))
        elif what == "saturation":
            await L.do(L.light.set_hsv(50, x, 50))
        else:
            await L.do(L.light.set_hsv(50, 50, x))

    c.run(go())
    if what != "brightness" and not L.color:
        c.check(L.o.raised(KasaException) and not L.sent, "a light without colour refuses colours", lambda: repr(L.o))
        return
    L.refused("a setting that is no whole number is refused")


def scenarios(tier):
    out = []
    for n in list(SMART) + list(IOT):
        out += [(f"type-{n}-{w}", wrong_type, {"name": n, "what": w}) for w in ("brightness", "hue", "saturation", "value")]
        out += [(f"brightness-{n}", brightness, {"name": n}), (f"hsv-{n}", hsv, {"name": n}), (f"temp-{n}", color_temp, {"name": n}), (f"power-{n}", power, {"name": n})]
        out += [(f"state-{n}-{p}", state, {"name": n, "part": p}) for p in ("brightness", "rest")]
    return out
