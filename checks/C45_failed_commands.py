"""A command that fails leaves no trace: nothing shown changes, and what is sent later is what would have been sent."""

from __future__ import annotations

import asyncio
import warnings

import C19_features as feats
import C29_independence as ind
from C41_looking import look
from engine.ctx import And, Outcome, acatch, sym_eq

BOUNDS = (
    "24 recorded devices and children, three also with an effect running; every settable feature and 20 further commands (names, colours, effects, presets, time, alarms, sounds, pairing, rules), with any advertised value, refused by the device, "
    "cut off, timed out or cancelled; then everything public is looked at, and all of these commands are given in two orders (thorough: any one right away), compared with a twin that never saw the failure"
)
OUTSIDE = "commands of several messages of which only some fail; failures while the device is updated after the command (C41)"
WITNESSES = ["refused", "cut off", "timed out", "cancelled", "same", "next", "feature", "command"]
QUICK_S, THOROUGH_S = 300, 800

DEVICES = ind.DEVICES
HOW = ["refused", "cut off", "timed out", "cancelled"]


class Trouble:
    """Makes the commands (not the questions) of a device fail, at the device or on the way there."""

    def __init__(self, dev, s):
        self.dev, self.s, self.how = dev, s, None
        t = dev.protocol._transport
        inner, on = t.send, s.on
        self.waiting = asyncio.Event()

        async def send(request):
            from kasa.exceptions import TimeoutError, _ConnectionError

            if self.how == "cut off":
                raise _ConnectionError("gone")
            if self.how == "timed out":
                raise TimeoutError("slow")
            if self.how == "cancelled":
                self.waiting.set()
                await asyncio.Event().wait()
            return await inner(request)

        def refuse(*a):
            if self.how == "refused" and not (a[2] if len(a) == 4 else a[1]).startswith("get"):
                return {"err_code": -3, "err_msg": "no"} if len(a) == 4 else {"error_code": -1008}
            return on(*a) if on else None

        t.send = send
        s.on = refuse

    async def fail(self, how, command):
        """The outcome of a command that cannot succeed."""
        self.how = how
        self.waiting.clear()
        task = asyncio.ensure_future(acatch(command()))
        if how == "cancelled":
            w = asyncio.ensure_future(self.waiting.wait())
            await asyncio.wait([w, task], return_when=asyncio.FIRST_COMPLETED)
            w.cancel()
            task.cancel()
        try:
            o = await task
        except asyncio.CancelledError as ex:
            o = Outcome(exc=ex)
        self.how = None
        return o


def alike(c, a, b, label, what):
    """Two looks show the same."""
    wrong = [k for k in {*a, *b} if (k in a) != (k in b)]
    terms = []
    for k in a:
        if k in b:
            r = sym_eq(a[k], b[k])
            if r is True:
                continue
            if r is False:
                wrong.append(k)
            else:
                terms.append(r)
    c.check(not wrong, label, lambda: (what, [(k, a.get(k), b.get(k)) for k in wrong[:3]]))
    if terms:
        c.check(And(*terms), label, lambda: what)


def fixed(c, f):
    """A value the feature takes that is not the one it has."""
    from kasa import Feature

    if f.type is Feature.Type.Number:
        return max(f.minimum_value, 1) if f.minimum_value >= 0 else 0
    if f.type is Feature.Type.Choice:
        return list(f.choices)[-1]
    return f.value is not True


def commands(c, d, tag=None):
    """Everything that can be told to the device, as {name: (values, call)}; call(values) gives a coroutine."""
    from datetime import UTC, datetime

    from kasa import LightState, Module

    out: dict = {}
    for k in ind.settable(d):
        f = d.features[k]
        if not c.attempt(lambda f=f: f.value).ok:
            continue
        out[k] = (lambda f=f: ind.value(c, f, f"{tag} value", 2) if tag else fixed(c, f), lambda d, v, k=k: d.features[k].set_value(v))

    def add(name, call, value=lambda: None):
        out["do " + name] = (value, call)

    def number(lo, hi):
        return lambda: c.int(f"{tag} number", lo, hi) if tag else (lo + hi) // 3

    add("alias", lambda d, v: d.set_alias("Another name"))
    add("on", lambda d, v: d.turn_on())
    add("off", lambda d, v: d.turn_off())
    m = d.modules
    if (t := m.get(Module.Time)) is not None:
        add("time", lambda d, v: d.modules[Module.Time].set_time(datetime(2024, 5, 6, 7, 8, 9, tzinfo=UTC)))
    if (light := m.get(Module.Light)) is not None:
        if light.has_feature("hsv"):
            add("hsv", lambda d, v: d.modules[Module.Light].set_hsv(v, 50, 60), number(0, 360))
        if light.has_feature("brightness"):
            add("light state", lambda d, v: d.modules[Module.Light].set_state(LightState(light_on=True, brightness=v)), number(1, 100))
    if (e := m.get(Module.LightEffect)) is not None:
        names = [x for x in e.effect_list if x != "Off"]
        for x in ("Off", names[0], names[-1]):
            add("effect " + x, lambda d, v, x=x: d.modules[Module.LightEffect].set_effect(x))
        add("effect dimmed", lambda d, v: d.modules[Module.LightEffect].set_effect(names[-1], brightness=v), number(1, 100))
    if (p := m.get(Module.LightPreset)) is not None and len(p.preset_list) > 1:
        add("preset", lambda d, v: d.modules[Module.LightPreset].set_preset(p.preset_list[-1]))
        add("save preset", lambda d, v: d.modules[Module.LightPreset].save_preset(p.preset_list[1], LightState(brightness=v)), number(1, 100))
    if (a := m.get(Module.Alarm)) is not None:
        add("alarm", lambda d, v: d.modules[Module.Alarm].play(duration=v), number(1, 300))
        add("no alarm", lambda d, v: d.modules[Module.Alarm].stop())
    if m.get(Module.ChildSetup) is not None:
        add("unpair", lambda d, v: d.modules[Module.ChildSetup].unpair("no one"))
    if (lt := m.get(Module.LightTransition)) is not None:
        add("transitions", lambda d, v: d.modules[Module.LightTransition].set_enabled(v), lambda: bool(c.bool(f"{tag} enable")) if tag else True)
    if m.get(Module.Clean) is not None:
        add("clean", lambda d, v: d.modules[Module.Clean].start())
        add("pause", lambda d, v: d.modules[Module.Clean].pause())
        add("home", lambda d, v: d.modules[Module.Clean].return_home())
    if m.get(Module.Consumables) is not None:
        add("reset", lambda d, v: d.modules[Module.Consumables].reset_consumable(next(iter(d.modules[Module.Consumables].consumables))))
    if m.get("PanTilt") is not None:
        add("pan", lambda d, v: d.modules["PanTilt"].pan(v), number(-100, 100))
    if m.get(Module.IotSchedule) is not None:
        add("no rules", lambda d, v: d.modules[Module.IotSchedule].delete_all_rules())
    if m.get(Module.Energy) is not None and hasattr(d, "_sys_info"):
        add("erase", lambda d, v: d.modules[Module.Energy].erase_stats())
    if (mo := m.get(Module.IotMotion)) is not None:
        add("motion", lambda d, v: d.modules[Module.IotMotion].set_inactivity_timeout(v), number(1, 10000))
    if (di := m.get(Module.IotDimmer)) is not None:
        add("fade", lambda d, v: d.modules[Module.IotDimmer].set_fade_on_time(v), number(0, 10000))
    return out


def sent(s):
    return [list(x) for x in s.sets()]


def failing(c, name, child, part, parts, later, effect=False):
    import kasa.iot.modules.lightpreset  # noqa: F401
    from kasa import KasaException

    async def go():
        a, sa = feats.make(name)
        b, sb = feats.make(name)
        with warnings.catch_warnings(record=True):
            await a.update()
            await b.update()
            if effect:
                for d in (a, b):
                    m = d.modules["LightEffect"]
                    await m.set_effect(m.effect_list[-1])
                    await d.update()
            da, db = (a, b) if child is None else (a.children[child], b.children[child])
            first = commands(c, da, "first")
            keys = [k for i, k in enumerate(first) if i % parts == part]
            if not keys:
                return
            k = keys[c.pick("first", len(keys))]
            how = HOW[c.pick("how", len(HOW))]
            trouble = Trouble(a, sa)
            v = first[k][0]()
            before = look(c, a)
            sa.clear()
            o = await trouble.fail(how, lambda: first[k][1](da, v))
            if how == "cancelled":
                if not isinstance(o.exc, asyncio.CancelledError):
                    return
            elif o.ok and not sa.log:
                await first[k][1](db, v)
                c.check(not sent(sb), "a command that does not reach the device fails", lambda: (k, how, sent(sb)))
                return
            elif o.ok and sa.log and not sent(sa):
                return
            else:
                c.check(not o.ok and isinstance(o.exc, (KasaException, NotImplementedError, ValueError)), "a command the device did not follow fails with a Kasa error", lambda: (k, how, repr(o)))
                if o.ok or not isinstance(o.exc, KasaException):
                    return
            c.reach(how)
            c.reach("command" if k.startswith("do ") else "feature")
            alike(c, before, look(c, a), "a command that failed changes nothing that is shown", (name, k, how))
            c.reach("same")
            sa.clear()
            sb.clear()
            second = commands(c, db)
            order = list(second)
            if later == "any":
                order = [order[c.pick("later", len(order))]]
            elif c.bool("other way round"):
                order.reverse()
            for k2 in order:
                w = second[k2][0]()
                x, y = await acatch(second[k2][1](da, w)), await acatch(second[k2][1](db, w))
                c.check(x.ok == y.ok and type(x.exc) is type(y.exc), "a later command ends as it would have", lambda: (k, how, k2, repr(x), repr(y)))
                c.check(sym_eq(sent(sa), sent(sb)), "a later command says what it would have said", lambda: (k, how, k2, sent(sa), sent(sb)))
            await a.update()
            await b.update()
            alike(c, look(c, a), look(c, b), "later everything is as if the failed command had not been given", (name, k, how))
            c.reach("next")

    c.run(go())


def scenarios(tier):
    out = []
    for name, child in DEVICES:
        n = 4 if name in ("RV20", "H100", "C210", "KL430", "L530E") and child is None else 1
        for p in range(n):
            out.append((f"{name}{'' if child is None else child}-{p}", failing, {"name": name, "child": child, "part": p, "parts": n, "later": "all" if tier == "quick" else "any"}))
    for name in ("L530E", "L900", "KL430"):
        out.append((f"{name}-effect", failing, {"name": name, "child": None, "part": 0, "parts": 1, "later": "all" if tier == "quick" else "any", "effect": True}))
    return out
