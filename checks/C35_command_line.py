"""Command line: a command acts on the device, socket and values it names, and on nothing else."""

from __future__ import annotations

import asyncio
import base64
import copy
import json
import re
import sys
from datetime import datetime, timezone
from zoneinfo import ZoneInfo

import C20_light_commands as lights
import C27_presets as presets
import sim
import statesim
from engine import hook
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq

BOUNDS = (
    "the light, preset, turn-on, device, feature, time, energy, usage, schedule, vacuum, hub and wifi commands on thirteen recorded devices in any stored state, with any integers in +-2^31 (any text for names), every combination of given and "
    "omitted arguments and any way of naming a child (by index, id or alias)"
)
OUTSIDE = "the parsing of the words of a command line (asyncclick); the layout of what is printed; the interactive shell; the confirmation prompts"
WITNESSES = ["line", "line-json", "line-shown", "line-failed", "config", "config-none", "raw", "raw-redacted", "time-sync", "time-sync-refused", "listed-children", "listed-categories", "listed-parts", "listed-records", "listed-totals", "brightness", "temperature", "hsv", "shown", "refused", "not-supported", "faded", "preset-refused", "preset-modified", "preset-behind-effect", "preset-listed", "no-child", "child-switched", "strip-switched", "behaviour-shown", "behaviour-last", "behaviour-preset", "behaviour-kept"]
QUICK_S, THOROUGH_S = 240, 700


class Refused(Exception):
    pass


def shell(c):
    """What is printed is collected."""
    from kasa.cli import common

    out: list = []
    c.patch(common, "_echo", lambda *a, **k: out.append(a[0] if a else ""))
    return out


async def kasa(c, cmd, dev, **given):
    """Run a command as the command line does once its words are parsed."""
    import asyncclick as click
    from kasa.cli.main import cli

    root = click.Context(cli, info_name="kasa", obj=dev)
    root.params = {"json": False}
    try:
        async with root:
            ctx = click.Context(cmd, parent=root, info_name=cmd.name, obj=dev)
            for p in cmd.params:
                if p.name in given:
                    v = given.pop(p.name)
                    t = p.type
                    if isinstance(t, click.IntRange) and v is not None:
                        if (t.min is not None and v < t.min) or (t.max is not None and v > t.max):
                            raise Refused
                    if isinstance(t, click.Choice):
                        assert v is None or v in t.choices
                elif p.expose_value:
                    assert not p.required, p.name
                    v = p.get_default(ctx)
                if p.expose_value:
                    ctx.params[p.name] = v
            assert not given, given
            async with ctx:
                return await ctx.invoke(cmd.callback, **ctx.params)
    except SystemExit as ex:
        if ex.code:
            raise Refused from ex
    except click.ClickException as ex:
        raise Refused from ex


async def tried(coro):
    o = await acatch(coro)
    return o


def command(name):
    from kasa.cli import device, energy  # noqa


def light(c, name, what):
    """Brightness, colour temperature and colour, set or shown."""
    from kasa.cli import light as m

    out = shell(c)
    L = lights.Lamp(c, name)
    kid = {"child_index": 1} if name == "KS240" else {}
    cmd = getattr(m, what)
    B = 2**31
    v = {"brightness": ["brightness"], "temperature": ["temperature"], "hsv": ["h", "s", "v"]}[what]
    show = bool(c.bool("show"))
    given = {} if show else {k: c.int(k, -B, B) for k in v}
    if not show and c.bool("fade"):
        given["transition"] = c.int("transition", 0, 10000)
    part = not show and what == "hsv" and c.choice("leave out", [None, "s", "v"])
    if part:
        given[part] = None

    async def go():
        await L.start()
        if kid:
            kid["child_index"] = L.dev.children.index(L.light_dev)
        await L.do(kasa(c, cmd, L.dev, **kid, **given))

    c.run(go())
    has = {"brightness": True, "temperature": L.temp, "hsv": L.color}[what]
    if not has or part:
        c.check(L.o.raised(Refused), "what the light cannot do is refused", lambda: repr(L.o))
        c.check(not L.sent, "a refused command sends nothing", lambda: L.sent)
        c.reach("not-supported")
        return
    if show:
        c.check(L.o.ok and not L.sent, "showing a value sends nothing", lambda: (repr(L.o), L.sent))
        if what == "brightness":
            c.check(sym_eq(L.o.value, L.now("brightness")), "the value of the light is shown", lambda: repr(L.o))
        elif what == "hsv":
            c.check(And(*[sym_eq(a, b) for a, b in zip(L.o.value, L.now("hsv"), strict=True)]), "the value of the light is shown", lambda: repr(L.o))
        else:
            lo, hi = L.range()
            c.check(And(sym_eq(L.o.value[0], lo), sym_eq(L.o.value[1], hi)), "the range of the light is shown", lambda: repr(L.o))
        c.reach("shown")
        return
    if what == "brightness":
        ok = And(given["brightness"] >= 0, given["brightness"] <= 100)
    elif what == "temperature":
        lo, hi = L.range()
        ok = And(given["temperature"] >= lo, given["temperature"] <= hi)
    else:
        h, s, b = (given[k] for k in v)
        ok = And(h >= 0, h <= 360, s >= 0, s <= 100, b >= 0, b <= 100)
    if not ok:
        c.check(not L.o.ok, "a value the light cannot have is refused", lambda: (given, repr(L.o)))
        c.check(not L.sent, "a refused command sends nothing", lambda: L.sent)
        c.reach("refused")
        return
    c.check(L.o.ok, "a value the light can have is accepted", lambda: (given, repr(L.o)))
    if not L.o.ok:
        return
    if what == "brightness":
        if given["brightness"] == 0:
            L.is_on(False, "brightness 0 turns the light off")
            return
        c.check(sym_eq(L.now("brightness"), given["brightness"]), "the light has the brightness given", lambda: (given, L.sent))
        L.untouched("brightness")
    elif what == "temperature":
        c.check(sym_eq(L.now("color_temp"), given["temperature"]), "the light has the temperature given", lambda: (given, L.sent))
        L.untouched("temp", "hs")
    else:
        if Not(b >= 1):
            return
        hsv = L.now("hsv")
        c.check(And(sym_eq(hsv[0], h), sym_eq(hsv[1], s), sym_eq(hsv[2], b)), "the light has the colour given", lambda: (given, hsv, L.sent))
    if name in lights.IOT:
        L.is_on(True, "a legacy light is on then")
        if given.get("transition") is not None and not L.dimmer:
            got = [a.get("duration", a.get("transition_period")) for _, _, _, a in L.sent]
            c.check(len(got) == 1 and sym_eq(got[0], given["transition"]), "the transition is as given", lambda: (given, L.sent))
            c.reach("faded")
    c.reach(what)


PARTS = {"brightness": "brightness", "hue": "hue", "saturation": "saturation", "temperature": "color_temp"}


def preset(c, name):
    """Modify and list presets."""
    from kasa.cli import light as m

    out = shell(c)
    lamp = presets.Preset(c, name, 3)
    kid = {"child_index": 1} if name == "KS240" else {}
    index = c.int("index", -(2**31), 2**31)
    given = {}
    limits = {"brightness": (0, 100), "hue": (0, 360), "saturation": (0, 100), "temperature": (0, 9000)}
    for k in c.choice("given", [(), ("hue",), ("temperature",), ("hue", "saturation"), ("brightness",), tuple(limits)]) if not c.deep else [k for k in limits if c.bool(f"with {k}")]:
        given[k] = c.int(k, *limits[k])

    async def go():
        await lamp.start()
        if kid:
            kid["child_index"] = lamp.dev.children.index(lamp.light_dev)
        await lamp.do(kasa(c, m.presets_modify, lamp.dev, **kid, index=index, **given))
        n = len(lamp.names)
        if not (given and And(index >= 0, index < n)):
            c.check(lamp.o.raised(Refused), "a preset that does not exist, or no change, is refused", lambda: (index, n, given, repr(lamp.o)))
            c.check(not lamp.sent, "a refused command sends nothing", lambda: lamp.sent)
            presets.unchanged(c, lamp)
            c.reach("preset-refused")
            return
        c.check(lamp.o.ok, "a preset of the list is modified", lambda: (index, given, repr(lamp.o)))
        if not lamp.o.ok:
            return
        pos = list(lamp.names.values())[int(index)]
        presets.unchanged(c, lamp, (pos,))
        e, b = lamp.listed()[pos], lamp.before[pos]
        for k, key in PARTS.items():
            if key in b:
                c.check(sym_eq(e.get(key), given.get(k, b[key])), "the preset has the values given and keeps the others", lambda: (k, given, b, e, lamp.sent))
        lamp.before = copy.deepcopy(lamp.listed())
        lamp.same_states("the preset is listed as modified")
        c.reach("preset-modified")
        if pos != int(index):
            c.reach("preset-behind-effect")

    c.run(go())


def preset_list(c, name):
    """Every preset is printed with its values (0 as nothing)."""
    from kasa.cli import light as m

    out = shell(c)
    lamp = presets.Preset(c, name, 2)

    async def go():
        await lamp.start()
        kid = {"child_index": lamp.dev.children.index(lamp.light_dev)} if name == "KS240" else {}
        o = await acatch(kasa(c, m.presets if c.bool("by the group") else m.presets_list, lamp.dev, **kid))
        c.check(o.ok and not lamp.s_.sets(), "listing sends nothing", lambda: (repr(o), out))
        lines = [x for x in out if "Hue" in x]
        c.check(o.ok and len(o.value) == len(lamp.names) == len(lines), "every preset is listed", lambda: (repr(o), out))
        for i, (line, pos) in enumerate(zip(lines, lamp.names.values(), strict=True)):
            e = lamp.before[pos]
            c.check(line.startswith(f"[{i}] "), "presets are numbered as they are modified", lambda: line)
            for k, key in {"Hue": "hue", "Saturation": "saturation", "Brightness/Value": "brightness", "Temp": "color_temp"}.items():
                got = re.sub(r"\s\s[A-Z].*", "", line.split(k + ": ", 1)[1]).strip()
                v = e.get(key)
                c.check(shown(got, v), "a preset is listed with its values", lambda: (k, got, v, line))
        c.reach("preset-listed")

    c.run(go())


def shown(text, v):
    """Whether the text printed is that of the number (nothing for 0 or none)."""
    if v is None or (not hasattr(v, "e") and v == 0):
        return text == ""
    if text == "":
        return v == 0
    n = hook.untoken(text)
    return sym_eq(v, n if n is not None else int(text))


def turn_on(c):
    """What a bulb does when it is turned on."""
    from kasa.cli import light as m
    from kasa.iot import IotBulb
    from kasa.iot.iotbulb import TurnOnBehavior, TurnOnBehaviors

    shell(c)
    d = sim.data("KL130")
    now = {}
    for k in ("soft_on", "hard_on"):
        mode = c.choice(f"{k} mode", ["last_status", "customize_preset", "circadian"])
        now[k] = {"mode": mode}
        if mode == "customize_preset":
            now[k]["index"] = c.int(f"{k} index", 0, 7)
    d["smartlife.iot.smartbulb.lightingservice"]["get_default_behavior"] = now
    sim.model_from_dict(c, TurnOnBehavior, TurnOnBehaviors)
    dev, s = sim.iot_device(d, IotBulb)
    type_ = c.choice("type", [None, "soft", "hard"])
    last = bool(c.bool("last"))
    pre = c.int("preset", 0, 7) if c.bool("with preset") else None
    before = copy.deepcopy(now)

    async def go():
        await dev.update()
        s.clear()
        o = await acatch(kasa(c, m.turn_on_behavior, dev, type=type_, last=last, preset=pre))
        sent = s.sets()
        if type_ is None:
            c.check(not sent, "nothing is sent without --type", lambda: (last, pre, sent))
            if not last and pre is None:
                c.check(o.ok and o.value is not None, "the behaviour is shown", lambda: repr(o))
            c.reach("behaviour-shown")
            return
        c.check(o.ok, "a behaviour is accepted", lambda: repr(o))
        if not o.ok:
            return
        c.check(len(sent) == 1 and sent[0][2] == "set_default_behavior", "the behaviour is sent once", lambda: sent)
        got = sent[0][3]
        c.check(set(got) == {"soft_on", "hard_on"}, "both behaviours are sent", lambda: got)
        for k in got:
            want = before[k]
            if k == f"{type_}_on" and (last or pre is not None):
                want = {"mode": "last_status"} if last else {"mode": "customize_preset", "index": pre}
            g = {**got[k], "mode": getattr(got[k]["mode"], "value", got[k]["mode"])}
            c.check(g.keys() == want.keys() and And(*[sym_eq(g[x], want[x]) for x in want]), "the behaviour named is as given, the other is kept", lambda: (k, type_, last, pre, before, got))
        c.reach("behaviour-last" if last else "behaviour-preset" if pre is not None else "behaviour-kept")

    c.run(go())




def same_name(a, b):
    """Equal but for the case of letters."""
    return sym_eq(a.lower(), b.lower())


def child(c, kind, way):
    """Sockets by index, id or alias: the one named is switched and no other."""
    from kasa.cli import device as m
    from kasa.iot import IotStrip

    shell(c)
    names = [c.str(f"alias{i}", 2, 63, 91) for i in range(2)] + ["Socket"]
    n = 3
    states = [bool(c.bool("on0")), bool(c.bool("on1")), True]
    if kind == "iot":
        d = sim.data("KP303")
        kids = d["system"]["get_sysinfo"]["children"]
        for k, nm, on in zip(kids, names, states, strict=True):
            k["alias"], k["state"] = nm, int(on)
        dev, s = sim.iot_device(d, IotStrip)
        statesim.iot(s)
    else:
        d = sim.data("P300")
        kids = d["get_child_device_list"]["child_device_list"]
        for k, nm, on in zip(kids, names, states, strict=True):
            nick = hook.H[base64.b64encode](base64.b64encode, nm.encode()).decode()
            for e in (k, d["child_devices"][k["device_id"]]["get_device_info"]):
                e["nickname"], e["device_on"] = nick, on
        dev, s = sim.smart_device(d)
        statesim.smart(s)

    async def go():
        await dev.update()
        ids = [k.device_id for k in dev.children]
        given = {}
        target = None  # the child meant; False: refused
        if way == "index":
            i = given["child_index"] = c.int("index", -(2**31), 2**31)
            target = int(i) if And(i >= 0, i < n) else False
        elif way == "id":
            t = given["child"] = c.choice("id", [*ids, dev.device_id, ids[1][:-1], ""])
            target = ids.index(t) if t in ids else False
        elif way == "alias":
            t = given["child"] = c.str("name", 2, 63, 91) if c.bool("of two letters") else "sockeT"
            target = next((i for i, nm in enumerate(names) if len(nm) == len(t) and same_name(nm, t)), False)
        elif way == "both":
            given = {"child": ids[1], "child_index": c.int("index", 0, 2)}
            target = False
        cmd = c.choice("cmd", ["on", "off", "toggle"])
        kid = dev.children[target] if type(target) is int else None
        was = list(states)
        s.clear()
        o = await acatch(kasa(c, getattr(m, cmd), dev, **given))
        sent = s.sets()
        if target is False:
            c.check(o.raised(Refused), "a child that does not exist is refused", lambda: (given, repr(o)))
            c.check(not sent, "a refused command sends nothing", lambda: sent)
            c.reach("no-child")
            return
        c.check(o.ok, "a child that exists is accepted", lambda: (given, repr(o)))
        await dev.update()
        for i, k in enumerate(dev.children):
            if target is None:
                want = cmd == "on" or (cmd == "toggle" and not any(was))
            elif i != target:
                want = was[i]
            else:
                want = {"on": True, "off": False, "toggle": not was[i]}[cmd]
            if target is None and kind != "iot" and not sent:
                continue
            if target is None and kind != "iot":
                # the strip switches its own relay; its sockets are up to the device
                continue
            c.check(sym_eq(k.is_on, want), "the socket named is switched, others are as they were", lambda: (cmd, target, i, k.is_on, was, sent))
            c.check("update" not in vars(k) or getattr(k.update, "__self__", None) is k, "a child keeps its own methods", lambda: k.update)
        c.reach("child-switched" if target is not None else "strip-switched")

    c.run(go())


def unpairing(s, inner):
    def on(target, method, params):
        if method == "remove_child_device_list":
            gone = [e["device_id"] for e in params["child_device_list"]]
            for k in ("get_child_device_list", "get_child_device_component_list"):
                lst = "child_device_list" if k == "get_child_device_list" else "child_component_list"
                s.d[k][lst] = [e for e in s.d[k][lst] if e["device_id"] not in gone]
                s.d[k]["sum"] = len(s.d[k][lst])
        return inner(target, method, params)

    return on


def twins(c, name):
    """Two devices in the same state: one for the command, one for what it stands for."""
    import kasa.iot as iot

    out = []
    for _ in range(2):
        d = sim.data(name)
        if name in IOTCLS:
            if "schedule" in d or name == "HS110v4":
                d.setdefault("schedule", {}).update({"get_rules": {"rule_list": [copy.deepcopy(RULE) | {"id": i} for i in ("R12", "R1", "r1", "R")], "err_code": 0}})
            for mod, unit in (("emeter", "energy_wh"), ("schedule", "time")):
                if mod in d:
                    d[mod]["get_daystat"] = {"day_list": [{"year": 2024, "month": 5, "day": 3, unit: 7}], "err_code": 0}
                    d[mod]["get_monthstat"] = {"month_list": [{"year": 2024, "month": 5, unit: 70}], "err_code": 0}
            dev, s = sim.iot_device(d, getattr(iot, IOTCLS[name]))
            statesim.iot(s)
        elif name in ("C210", "H200"):
            dev, s = sim.cam_device(d)
            statesim.cam(s)
        else:
            dev, s = sim.smart_device(d)
            statesim.smart(s)
            if name == "H100":
                s.on = unpairing(s, s.on)
        out.append((dev, s, d))
    return out


IOTCLS = {"KL130": "IotBulb", "HS110v4": "IotPlug", "HS220": "IotDimmer", "KP303": "IotStrip", "HS300": "IotStrip", "KL430": "IotLightStrip"}
RULE = {"name": "name", "enable": 1, "wday": [1, 0, 0, 0, 0, 0, 0], "stime_opt": 0, "smin": 480, "sact": 1, "etime_opt": -1, "emin": 0, "eact": -1, "repeat": 1}
DONE = ("no command",)
INSTANTS = [datetime(2024, 1, 15, 12, 0, 1, tzinfo=timezone.utc), datetime(2024, 7, 1, 23, 59, 59, tzinfo=timezone.utc), datetime(2024, 10, 27, 1, 30, tzinfo=timezone.utc)]


def same_sent(a, b):
    return len(a) == len(b) and And(*[sym_eq(list(x), list(y)) for x, y in zip(a, b, strict=True)]) if a or b else True


def meaning(c, what, name):
    """A command does what the library call of its name does."""
    import asyncclick as click
    from kasa import Module
    from kasa.cli import device as mdev
    from kasa.cli import feature as mfeat
    from kasa.cli import hub as mhub
    from kasa.cli import light as mlight
    from kasa.cli import main as mmain
    from kasa.cli import schedule as msched
    from kasa.cli import time as mtime
    from kasa.cli import usage as muse
    from kasa.cli import vacuum as mvac
    from kasa.cli import wifi as mwifi

    shell(c)
    import builtins

    c.patch(click, "echo", lambda *a, **k: None)
    asked: list = []
    agree = bool(c.bool("agreed"))

    def confirm(text, abort=False, **k):
        asked.append(text)
        if not agree and abort:
            raise click.exceptions.Abort
        return agree

    c.patch(click, "confirm", confirm)
    (dev, s, d), (dev2, s2, d2) = twins(c, name)

    def build():
        """(command, given, meaning on the twin or None where it must be refused, shown value on the device or DONE)"""
        M = dev2.modules
        if what == "reboot":
            given = {"delay": c.int("delay", 0, 1000)} if c.bool("with delay") else {}
            return mdev.reboot, given, lambda: dev2.reboot(given.get("delay", 1)), DONE
        if what == "reset":
            return mdev.factory_reset, {}, (lambda: dev2.factory_reset()) if agree else None, DONE
        if what == "alias":
            if c.bool("show"):
                return mdev.alias, {}, DONE, lambda: dev.alias
            t = c.str("alias", c.choice("length", [0, 3]))
            return mdev.alias, {"new_alias": t}, lambda: dev2.set_alias(t), DONE
        if what == "led":
            if Module.Led not in M:
                return mdev.led, {"state": c.choice("state", [None, True, False])}, None, DONE
            st = c.choice("state", [None, True, False])
            if st is None:
                return mdev.led, {}, DONE, lambda: dev.modules[Module.Led].led
            return mdev.led, {"state": st}, lambda: M[Module.Led].set_led(st), DONE
        if what == "sysinfo":
            return mdev.sysinfo, {}, DONE, lambda: dev.sys_info
        if what == "state":
            return mdev.state, {}, DONE, lambda: dev.internal_state
        if what == "credentials":
            u, p = c.str("username", 3), c.str("password", 3)
            ok = name not in IOTCLS and agree
            return mdev.update_credentials, {"username": u, "password": p}, (lambda: dev2.update_credentials(u, p)) if ok else None, DONE
        if what == "time":
            day = c.choice("day", [(2024, 1, 31), (2024, 2, 29), (2025, 7, 1), (2026, 12, 31)]) if not c.deep else (c.int("year", 2023, 2026), c.choice("month", [1, 2, 7, 12]), c.int("mday", 1, 28))
            clock = c.int("hour", 0, 23), c.int("minute", 0, 59), c.int("second", 0, 59)
            zone = c.choice("zone", [None, "Europe/Berlin", "America/New_York", "No/Where"])
            given = dict(zip(("year", "month", "day", "hour", "minute"), (*day, *clock), strict=False))
            sec = bool(c.bool("with seconds"))
            if sec:
                given["seconds"] = clock[2]
            skip = bool(c.bool("skip"))
            if zone:
                given |= {"timezone": zone, "skip_confirm": skip}
            if zone == "No/Where":
                return mtime.time_set, given, None, DONE
            t = hook.s_call(datetime, *day, *clock[:2], clock[2] if sec else 0, 0, ZoneInfo(zone) if zone else None)
            asks = name in IOTCLS and zone and not skip and zone not in iot_zones()
            if asks and not agree:
                return mtime.time_set, given, None, DONE
            if not asks:
                c.check(not asked, "nothing is asked", lambda: asked)
            return mtime.time_set, given, lambda: M[Module.Time].set_time(t), DONE
        if what == "time-shown":
            return mtime.time if c.bool("by the group") else mtime.time_get, {}, DONE, lambda: dev.time
        if what == "time-sync":
            now = c.choice("now", INSTANTS)

            class Clock(datetime):
                @classmethod
                def now(cls, tz=None):
                    return now.astimezone(tz) if tz else now.replace(tzinfo=None)

            c.patch(mtime, "datetime", Clock)
            zone = c.choice("zone", [None, "Africa/Abidjan", "Europe/London", "America/New_York", "No/Where"])
            skip = bool(c.bool("skip")) if zone else False
            given = {"timezone": zone, "skip_confirm": skip} if zone else {}
            mod = M[Module.Time]
            if zone is None:
                return mtime.time_sync, given, lambda: mod.set_time(now.astimezone(mod.timezone).replace(tzinfo=None)), DONE
            if zone == "Europe/London" and now is INSTANTS[2]:
                return DONE  # the hour that London has twice
            if zone == "No/Where" or now.astimezone(ZoneInfo(zone)).utcoffset():
                return mtime.time_sync, given, None, DONE  # the clock of the computer shows another time
            if name in IOTCLS and not skip and zone not in iot_zones() and not agree:
                return mtime.time_sync, given, None, DONE
            return mtime.time_sync, given, lambda: mod.set_time(now.astimezone(ZoneInfo(zone))), DONE
        if what in ("energy", "usage"):
            cmd = getattr(muse, what)
            mod = M.get(Module.Energy) if what == "energy" else M.get("usage")
            how = c.choice("how", ["year", "month", "erase", "shown"])
            when = c.datetime("when", datetime(2015, 1, 1), datetime(2026, 12, 30))
            given = {how: True if how == "erase" else when} if how != "shown" else {}
            if what == "energy" and (mod is None or (how != "shown" and name not in IOTCLS)):
                return cmd, given, None, DONE
            if how == "shown":
                return cmd, {}, DONE, (lambda: dev.modules[Module.Energy].status) if what == "energy" else DONE
            names = ("get_monthly_stats", "get_daily_stats") if what == "energy" else ("get_monthstat", "get_daystat")
            if how == "erase":
                return cmd, given, lambda: mod.erase_stats(), DONE
            if how == "year":
                return cmd, given, lambda: getattr(mod, names[0])(year=when.year), DONE
            return cmd, given, lambda: getattr(mod, names[1])(year=when.year, month=when.month), DONE
        if what == "rules":
            if c.bool("list"):
                return msched._schedule_list, {}, DONE, lambda: dev.modules["schedule"].rules
            i = c.str("id", c.choice("len", [1, 2, 3]), 48, 122)
            known = [r for r in M["schedule"].rules if sym_eq(r.id, i)]
            return msched.delete_rule, {"id": i}, (lambda: M["schedule"].delete_rule(known[0])) if known else None, DONE
        if what == "wifi":
            if c.bool("join"):
                a = [c.str(n, 3) for n in ("ssid", "password")]
                k = c.choice("keytype", ["3", "none", "wpa2_psk"])
                return mwifi.join, {"ssid": a[0], "password": a[1], "keytype": k}, lambda: dev2.wifi_join(a[0], a[1], keytype=k), DONE
            return mwifi.scan, {}, lambda: dev2.wifi_scan(), DONE
        if what == "consumable":
            cons = M[Module.Consumables]
            i = c.choice("id", [*cons.consumables, "roll_brush", "", "other"])
            return mvac.reset_consumable, {"consumable_id": i}, (lambda: cons.reset_consumable(i)) if i in cons.consumables else None, DONE
        if what == "hub":
            if name != "H100":
                return mhub.hub, {}, None, DONE
            if c.bool("pair"):
                given = {"timeout": c.int("timeout", 0, 600)} if c.bool("with timeout") else {}
                return mhub.hub_pair, given, lambda: M[Module.ChildSetup].pair(timeout=given.get("timeout", 10)), DONE
            ids = [k.device_id for k in dev2.children]
            i = c.choice("id", [*ids[:2], ids[0][:-1], ""])

            async def unpair():
                r = await M[Module.ChildSetup].unpair(device_id=i)
                return r

            return mhub.hub_unpair, {"device_id": i}, unpair if i in ids else None, DONE
        if what == "effect":
            fx = M.get(Module.LightEffect)
            e = c.choice("effect", [None, "Off", "Party", "Aurora", "No such", ""])
            if e is None and fx:
                return mlight.effect, {}, DONE, lambda: dev.modules[Module.LightEffect].effect
            return mlight.effect, {"effect": e}, (lambda: fx.set_effect(e)) if fx and e in fx.effect_list else None, DONE
        if what == "feature":
            names = [n for n in ("state", "auto_off_minutes", "auto_off_enabled", "alarm_sound", "alarm_volume", "rssi", "led", "reboot", "test_alarm", "brightness", "color_temperature", "light_preset") if n in dev2.features]
            n = c.choice("name", [*names, "no_such", "State"])
            n_ = c.int("number", -(2**31), 2**31)
            texts = {
                None: None,
                "number": n_,
                "True": True,
                "False": False,
                "'Doorbell Ring 2'": "Doorbell Ring 2",
                '"low"': "low",
                "None": None,
                "low": Refused,
                "[1": Refused,
                "1 +": Refused,
                "on(": Refused,
                "": Refused,
                "5 # five": 5,
                " 5": 5,
                "5x": Refused,
            }
            t = c.choice("text", list(texts))
            given = {"name": n}
            if t is not None:
                given["value"] = f"{n_}" if t == "number" else t
            if n not in dev2.features:
                return mfeat.feature, given, None, DONE
            f = dev2.features[n]
            from kasa import Feature

            if t is None:
                if f.type is Feature.Type.Action:
                    return mfeat.feature, given, lambda: f.set_value(None), DONE
                return mfeat.feature, given, DONE, lambda: dev.features[n].value
            if texts[t] is Refused:
                return mfeat.feature, given, None, DONE
            return mfeat.feature, given, lambda: f.set_value(texts[t]), DONE
        if what == "raw":
            m, k, p = c.choice("call", [("system", "get_sysinfo", None), ("system", "set_relay_state", {"state": 1}), (None, "get_device_time", None), ("time", "get_time", {}), (None, "set_device_info", {"device_on": True}), ("nothing", "here", None)])
            if (m is None) is (name in IOTCLS):
                return DONE
            given = {"command": k}
            if m is not None:
                given["module"] = m
            if p is not None:
                given["parameters"] = repr(p)
            return mmain.cmd_command, given, (lambda: dev2._query_helper(m, k, p)) if name in IOTCLS else (lambda: dev2._query_helper(k, p)), DONE
        raise AssertionError(what)

    async def go():
        await dev.update()
        await dev2.update()
        r = build()
        if r is DONE:
            return
        cmd, given, lib, value = r
        s.clear(), s2.clear()
        o = await acatch(kasa(c, cmd, dev, **given))
        sent = s.sets()
        if lib is None:
            c.check(not o.ok, "what is not there is refused", lambda: (given, repr(o), asked))
            c.check(not sent, "a refused command sends nothing", lambda: sent)
            c.reach(f"{what}-refused")
            return
        if lib is DONE:
            c.check(o.ok, "a value is shown", lambda: (given, repr(o)))
            c.check(not sent, "showing a value sends nothing", lambda: (given, sent))
            if value is not DONE and o.ok:
                v = value()
                c.check(sym_eq(o.value, v) if not isinstance(v, list) else repr(o.value) == repr(v), "the value shown is that of the device", lambda: (repr(o), v))
            c.reach(f"{what}-shown")
            return
        o2 = await acatch(lib())
        c.check(type(o.exc) is type(o2.exc), "the command succeeds when its meaning does", lambda: (given, repr(o), repr(o2)))
        c.check(same_sent(sent, s2.sets()), "the command sends what its meaning sends", lambda: (given, sent, s2.sets()))
        if o.ok and o2.ok and what not in ("wifi", "hub"):
            c.check(sym_eq(o.value, o2.value) if what not in ("consumable", "time", "time-sync") else True, "the command returns what its meaning returns", lambda: (repr(o), repr(o2)))
        c.reach(what)

    c.patch(builtins, "print", lambda *a, **k: None)
    c.run(go())


def iot_zones():
    from kasa.iot.iottimezone import TIMEZONE_INDEX

    return set(TIMEZONE_INDEX.values())


MEANINGS = {
    "reboot": ["P110M", "HS110v4", "H100"],
    "reset": ["P110M", "HS110v4"],
    "alias": ["P110M", "HS110v4", "KL130"],
    "led": ["P110M", "HS110v4", "KL130", "L530E"],
    "sysinfo": ["P110M", "HS110v4"],
    "state": ["P110M", "HS110v4", "L530E"],
    "credentials": ["P110M", "HS110v4"],
    "time": ["P110M", "HS110v4"],
    "time-shown": ["P110M", "HS110v4"],
    "time-sync": ["P110M", "HS110v4"],
    "energy": ["P110M", "HS110v4", "HS220"],
    "usage": ["HS110v4"],
    "rules": ["HS110v4"],
    "wifi": ["P110M", "HS110v4"],
    "consumable": ["RV20"],
    "hub": ["H100", "P110M"],
    "effect": ["L530E", "KL430", "L920", "HS220"],
    "feature": ["P110M", "H100", "L530E", "KL130", "HS220"],
    "raw": ["P110M", "HS110v4"],
}


class Thing:
    """A device as the command line sees it."""

    def __init__(self, host, alias="Lamp", error=None, cls=None):
        from kasa import DeviceConfig
        from kasa.device import Device

        self.__class__ = type("Thing", (Thing, Device), {"__abstractmethods__": frozenset()}) if type(self) is Thing else type(self)
        self.host_, self.alias_, self.error = host, alias, error
        self.events: list = []
        self.config_ = DeviceConfig(host)

    host = property(lambda self: self.host_)
    alias = property(lambda self: self.alias_)
    model = property(lambda self: "M1")
    config = property(lambda self: self.config_)
    internal_state = property(lambda self: {"who": self.host_})
    _discovery_info: dict = {"who": "cares"}

    @property
    def protocol(self):
        return self

    async def update(self, *a, **k):
        self.events.append("update")
        if self.error is not None:
            raise self.error

    async def disconnect(self):
        self.events.append("close")

    async def close(self):
        self.events.append("protocol closed")

    def __repr__(self):
        return f"<{self.host_}>"


THING = [
    "host", "alias", "model", "config", "internal_state", "protocol", "update", "disconnect", "__repr__", "_discovery_info"
]


def thing(host, alias="Lamp", error=None):
    return Thing(host, alias, error)


def options(c, n):
    """Any value of an option, or none."""
    return c.int(n, 1, 65535) if c.bool(f"with {n}") else None


def connect(c, way):
    """The options of the command line say which device is used, and how."""
    import logging

    import asyncclick as click
    import kasa.iot as iot
    from kasa import Credentials, Device, Discover
    from kasa.cli import device as mdev
    from kasa.cli.main import DEFAULT_TARGET, TYPES, cli
    from kasa.deviceconfig import DeviceEncryptionType, DeviceFamily

    out = shell(c)
    c.patch(logging, "basicConfig", lambda **k: None)
    c.patch(sys, "argv", ["kasa"])
    P = {p.name: p.get_default(click.Context(cli)) for p in cli.params if p.expose_value}
    calls: list = []
    made = thing("10.0.0.1", "KITCHEN")
    gone = way == "alias" and bool(c.bool("not found"))

    async def dconnect(*, host=None, config=None):
        calls.append(("connect", host, config))
        return made

    async def single(host, **k):
        calls.append(("single", host, k))
        made.host_ = host
        return made if not c.bool("silent") else None

    async def every(**k):
        calls.append(("discover", k))
        if k.get("on_discovered") and not gone:
            await k["on_discovered"](made)
        return {} if gone else {"10.0.0.1": made}

    c.patch(Device, "connect", staticmethod(dconnect))
    c.patch(Discover, "discover_single", staticmethod(single))
    c.patch(Discover, "discover", staticmethod(every))
    updates: list = []

    async def upd(self, *a, **k):
        updates.append(self)

    c.patch(iot.IotDevice, "update", upd)
    c.patch(iot.IotStrip, "update", upd)
    closed: list = []

    async def bye(self):
        closed.append(self)

    c.patch(iot.IotDevice, "disconnect", bye)
    states: list = []

    async def shown_state(*a, **k):
        states.append(a)

    c.patch(mdev.state, "callback", shown_state)
    sub = c.choice("sub", [None, "on", "command", "discover"] if way in ("host", "none") else [None, "on", "command"])
    host = c.choice("host", ["10.0.0.1", "kitchen.lan"]) if way not in ("none", "alias") else None
    P["host"] = host
    if way in ("alias", "both"):
        P["alias"] = "Kitchen"
    P["port"] = options(c, "port")
    P["timeout"], P["discovery_timeout"] = c.int("timeout", 1, 100), c.int("discovery timeout", 1, 100)
    cred = c.choice("credentials", ["none", "both", "username", "password"])
    if cred in ("both", "username"):
        P["username"] = "me"
    if cred in ("both", "password"):
        P["password"] = "secret"
    if way == "direct":
        P["type"] = c.choice("type", [None, *TYPES])
        if P["type"] is None or c.bool("with encryption"):
            P["encrypt_type"] = c.choice("encryption", [e.value for e in DeviceEncryptionType])
        if c.bool("with family"):
            P["device_family"] = c.choice("family", [e.value for e in DeviceFamily][: 6 if c.deep else 2])
        P["https"] = bool(c.bool("https"))
        P["login_version"] = c.int("login version", 1, 3)
        if c.bool("with hash"):
            P["credentials_hash"] = "hash"
    if way == "host":
        P["target"] = c.choice("target", [DEFAULT_TARGET, "192.168.1.255"])
    given = dict(P)
    seen: dict = {}

    async def go():
        ctx = click.Context(cli, info_name="kasa")
        ctx.params = P
        ctx.invoked_subcommand = sub
        try:
            async with ctx:
                r = cli.callback(**P)
                r = (await r) if hasattr(r, "__await__") else r
                seen["obj"] = ctx.obj
                seen["events"] = list(made.events)
                seen["updates"] = len(updates)
                return r
        except SystemExit as ex:
            raise Refused from ex
        except click.ClickException as ex:
            raise Refused from ex

    o = c.attempt(go())
    creds = Credentials("me", "secret") if cred == "both" else None
    info = lambda: (given, sub, repr(o), calls, made.events)  # noqa: E731

    def refused(label):
        c.check(o.raised(Refused), label, info)
        c.check(not calls and not updates, "nothing is contacted by a refused command", info)
        c.reach("line-refused")

    if host and P["target"] != DEFAULT_TARGET:
        return refused("a target and a host are not both given")
    if sub == "discover":
        c.check(o.ok and not calls and not updates, "discovery is left to its own command", info)
        return
    if way == "both":
        return refused("an alias and a host are not both given")
    if cred in ("username", "password"):
        return refused("a user name needs its password and the other way round")
    if way == "none":
        if sub:
            return refused("commands need a device")
        c.check(o.ok and len(calls) == 1 and calls[0][0] == "discover", "without a device the network is searched", info)
        if o.ok and calls:
            k = calls[0][1]
            c.check(k["target"] == P["target"] and And(sym_eq(k["timeout"], P["timeout"]), sym_eq(k["discovery_timeout"], P["discovery_timeout"]), sym_eq(k["port"], P["port"])) and k["credentials"] == creds, "the search is as the options say", info)
            c.check(o.value == {"10.0.0.1": made} and made.events[-1] == "close", "every device found is returned, and closed", info)
        c.reach("searched")
        return
    if way == "alias":
        c.check(calls and calls[0][0] == "discover" and calls[0][1]["credentials"] == creds and calls[0][1]["target"] == P["target"], "an alias is searched for", info)
        if gone:
            c.check(o.ok and o.value is None, "no device is used when none has the alias", info)
            c.reach("alias-gone")
            return
        c.check(o.ok and seen.get("obj") is made, "the device with the alias is used", info)
        c.reach("alias-used")
    elif way == "host":
        c.check(len(calls) == 1 and calls[0][:2] == ("single", host), "a host is asked who it is", info)
        k = calls[0][2]
        c.check(And(sym_eq(k["timeout"], P["timeout"]), sym_eq(k["discovery_timeout"], P["discovery_timeout"]), sym_eq(k["port"], P["port"])) and k["credentials"] == creds, "the host is asked as the options say", info)
        if made.host_ is not host or o.raised(Refused):
            c.check(o.raised(Refused), "a host that does not answer is an error", info)
            c.reach("host-silent")
            return
        c.check(o.ok and seen.get("obj") is made, "the device at the host is used", info)
        c.reach("host-used")
    elif P["type"] not in (None, "smart", "camera"):
        dev = seen.get("obj")
        want = {"plug": "IotPlug", "switch": "IotWallSwitch", "bulb": "IotBulb", "dimmer": "IotDimmer", "strip": "IotStrip", "lightstrip": "IotLightStrip"}[P["type"]]
        c.check(o.ok and type(dev) is getattr(iot, want) and not calls, "a legacy type is used as it is", info)
        if o.ok:
            cfg = dev.config
            c.check(dev.host == host and cfg.host == host and And(sym_eq(cfg.port_override, P["port"]), sym_eq(cfg.timeout, P["timeout"])), "the device is at the host and port given", info)
            c.check(seen["updates"] == (sub != "command"), "the device is updated once, unless the command needs no update", lambda: (sub, updates))
            c.check(closed == [dev], "the device is closed", lambda: closed)
        c.reach("legacy-type")
    else:
        c.check(o.ok and len(calls) == 1 and calls[0][0] == "connect" and seen.get("obj") is made, "the device is connected to as the options say", info)
        if not (o.ok and calls):
            return
        cfg = calls[0][2]
        ct = cfg.connection_type
        if P["type"] == "camera":
            want = ("AES", True, 2, "SMART.IPCAMERA")
        else:
            want = (P.get("encrypt_type") or "KLAP", P["https"], P["login_version"], P["device_family"])
        c.check(cfg.host == host and And(sym_eq(cfg.port_override, P["port"]), sym_eq(cfg.timeout, P["timeout"])) and cfg.credentials == creds and cfg.credentials_hash == P["credentials_hash"], "host, port, timeout and credentials are as given", info)
        c.check(ct.encryption_type.value == want[0] and ct.https is want[1] and ct.device_family.value == want[3] and sym_eq(ct.login_version, want[2]), "the connection is as the options say", info)
        c.check("update" not in seen["events"], "a device connected to has been updated already", info)
        c.reach("direct")
    if way in ("alias", "host"):
        n = seen["events"].count("update")
        c.check(n == (0 if way == "host" and sub == "command" else 1) or (way == "host" and sub is None and n > 0), "the device is updated once, unless the command needs no update", info)
    if "obj" in seen and seen["obj"] is made:
        c.check(made.events[-1] == "close", "the device is closed in the end", info)
    c.check(o.ok and (len(states) == 1 if sub is None else not states), "without a command the state is shown", lambda: (sub, way, states))


def found(c, what):
    """Everything the network answers is reported, whatever goes wrong with one device."""
    import asyncclick as click
    from kasa import AuthenticationError, Discover, KasaException, TimeoutError, UnsupportedDeviceError
    from kasa.cli import device as mdev
    from kasa.cli import discover as m
    from kasa.cli.main import cli

    out = shell(c)
    errors = [c.choice(f"error{i}", [None, AuthenticationError("no"), TimeoutError("late"), KasaException("odd"), OSError("reset")]) for i in range(2)]
    devs = [thing(f"10.0.0.{i + 1}", f"Lamp{i}", e) for i, e in enumerate(errors)]
    odd = bool(c.bool("unsupported"))

    async def every(**k):
        tasks = [k["on_discovered"](d) for d in devs]
        if odd:
            tasks.append(k["on_unsupported"](UnsupportedDeviceError("what", host="10.0.0.9", discovery_result={"host": "10.0.0.9"})))
        await asyncio.gather(*[asyncio.ensure_future(t) for t in tasks])
        return {d.host: d for d in devs}

    c.patch(Discover, "discover", staticmethod(every))
    states: list = []

    async def shown_state(*a, **k):
        states.append(click.get_current_context().obj)

    c.patch(mdev.state, "callback", shown_state)

    async def go():
        root = click.Context(cli, info_name="kasa")
        root.params = {p.name: p.get_default(root) for p in cli.params if p.expose_value}
        root.invoked_subcommand = "discover"
        async with root:
            ctx = click.Context(m.discover, parent=root, info_name="discover")
            async with ctx:
                sub = click.Context(getattr(m, what), parent=ctx, info_name=what)
                async with sub:
                    r = await sub.invoke(getattr(m, what).callback)
                return await ctx.invoke(m.discover._result_callback, r)

    o = c.attempt(go(), schedule=c.deep)
    c.check(o.ok and o.value == {d.host: d for d in devs}, "every device that answered is returned", lambda: (errors, repr(o)))
    text = "\n".join(str(x) for x in out)
    for d, e in zip(devs, errors, strict=True):
        c.check(d.events == ["update", "close"], "every device is asked once, then closed", lambda: (d, d.events))
        if what == "detail":
            c.check((d in states) is (e is None), "the state of every device that can be asked is shown", lambda: (errors, states))
            if e is not None and not isinstance(e, AuthenticationError):
                c.check(d.host in text, "a device that cannot be asked is reported", lambda: text)
        else:
            lines = [x for x in out if str(x).startswith(d.host)]
            c.check(len(lines) == 1 and (d.alias in lines[0]) is (e is None), "every device is listed", lambda: out)
    if odd:
        c.check("10.0.0.9" in text, "an unsupported device is reported", lambda: text)
    c.reach("detailed" if what == "detail" else "listed")
    if any(errors):
        c.reach("one-failed")


def config(c, mode):
    """The options that are printed are those with which the device is reached."""
    import asyncclick as click
    from kasa import Credentials, Device, DeviceConfig, Discover
    from kasa.cli import device as mdev
    from kasa.cli import discover as m
    from kasa.cli.main import cli
    from kasa.device_factory import get_protocol
    from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily

    out = shell(c)
    made = thing("10.0.0.1")
    family = c.choice("family", list(DeviceFamily))
    ct = DeviceConnectionParameters(family, c.choice("encryption", list(DeviceEncryptionType)), c.choice("version", [None, 1, 2]), https=bool(c.bool("https")))
    made.config_ = DeviceConfig("10.0.0.1", connection_type=ct)
    hit = mode != "none"
    calls: list = []

    async def every(host, **k):
        from kasa.discover import ConnectAttempt
        from kasa.iot import IotPlug
        from kasa.protocols import IotProtocol
        from kasa.transports import XorTransport

        calls.append((host, k))
        a = ConnectAttempt(IotProtocol, XorTransport, IotPlug, True)
        k["on_attempt"](a, False)
        k["on_attempt"](a, True)
        return made if hit else None

    async def dconnect(*, host=None, config=None):
        calls.append(config)
        return made

    c.patch(Discover, "try_connect_all", staticmethod(every))
    c.patch(Device, "connect", staticmethod(dconnect))

    async def shown_state(*a, **k):
        pass

    c.patch(mdev.state, "callback", shown_state)
    import logging

    c.patch(logging, "basicConfig", lambda **k: None)
    c.patch(sys, "argv", ["kasa"])
    P = {p.name: p.get_default(click.Context(cli)) for p in cli.params if p.expose_value}
    given = bool(c.bool("with host"))
    P |= {"host": "10.0.0.1" if given else None, "port": options(c, "port"), "timeout": c.int("timeout", 1, 100)}
    cred = bool(c.bool("credentials"))
    if cred:
        P |= {"username": "me", "password": "secret"}

    async def run(sub):
        root = click.Context(cli, info_name="kasa")
        root.params = dict(P)
        root.invoked_subcommand = "discover"
        try:
            async with root:
                ctx = click.Context(m.config, parent=root, info_name="config")
                async with ctx:
                    return await ctx.invoke(m.config.callback)
        except SystemExit as ex:
            raise Refused from ex

    o = c.attempt(run("config"))
    if not given:
        c.check(o.raised(Refused) and not calls, "a host is needed", lambda: repr(o))
        return
    k = calls[0][1]
    c.check(len(calls) == 1 and calls[0][0] == "10.0.0.1" and And(sym_eq(k["timeout"], P["timeout"]), sym_eq(k["port"], P["port"])), "the host is tried as the options say", lambda: calls)
    c.check(k["credentials"] == (Credentials("me", "secret") if cred else None), "the host is tried with the credentials given", lambda: calls)
    text = [str(x) for x in out]
    c.check(any("failed" in x and "XorTransport" in x for x in text) and any("succeeded" in x for x in text), "every attempt is shown", lambda: text)
    if not hit:
        c.check(o.raised(Refused), "a host that cannot be reached is an error", lambda: repr(o))
        c.reach("config-none")
        return
    c.check(o.ok and o.value == {"10.0.0.1": made}, "the device is returned", lambda: repr(o))
    words = next((x for x in text if x.startswith("--device-family")), "").split()
    calls.clear()

    async def again():
        r = cli.make_parser(click.Context(cli)).parse_args(["--host", "10.0.0.1", *words])
        opts, rest, _ = (await r) if hasattr(r, "__await__") else r
        c.check(not rest, "the options printed are options", lambda: words)
        P.update({**opts, "https": opts.get("https") in (True, "True"), "login_version": int(opts.get("login_version", P["login_version"]))})
        ctx = click.Context(cli, info_name="kasa")
        ctx.params = P
        async with ctx:
            r = cli.callback(**P)
            return (await r) if hasattr(r, "__await__") else r

    o = c.attempt(again())
    c.check(o.ok and len(calls) == 1, "the options printed connect", lambda: (words, repr(o), calls))
    if not calls:
        return
    got = calls[0].connection_type
    c.check(got.device_family is ct.device_family and got.encryption_type is ct.encryption_type and got.https is ct.https, "the options printed are those of the device", lambda: (words, got, ct))
    # only version 2 is special
    c.check((got.login_version == 2) is (ct.login_version == 2), "the login is the one that worked", lambda: (words, got, ct))
    c.reach("config")


def raw(c):
    """The answers of the network as they came, with or without what is private."""
    import asyncclick as click
    from kasa import Discover
    from kasa.cli import discover as m
    from kasa.cli.main import cli

    out = shell(c)
    hidden = bool(c.bool("redact"))
    one = bool(c.bool("host"))
    port = c.choice("port", [9999, 20002])
    mac = "50:C7:BF:00:00:01"
    sys_ = {"mac": mac, "deviceId": "0123456789ABCDEF", "alias": "Kitchen", "model": "HS100"}
    if port == 9999:
        info = {"system": {"get_sysinfo": sys_}}
    else:
        info = {"result": {"mac": mac.replace(":", "-"), "device_id": "0123456789ABCDEF", "ip": "10.0.0.1", "device_model": "P100", "owner": "SECRETOWNER"}, "error_code": 0}
    before = copy.deepcopy(info)
    told = {"discovery_response": info, "meta": {"ip": "10.0.0.1", "port": port}}
    dev = thing("10.0.0.1")

    async def every(**k):
        k["on_discovered_raw"](told)
        c.check(k["on_discovered"] is None if "on_discovered" in k else True, "raw answers are all that is shown")
        return {"10.0.0.1": dev}

    async def single(host, **k):
        k["on_discovered_raw"](told)
        return dev

    c.patch(Discover, "discover", staticmethod(every))
    c.patch(Discover, "discover_single", staticmethod(single))

    async def go():
        root = click.Context(cli, info_name="kasa")
        root.params = {p.name: p.get_default(root) for p in cli.params if p.expose_value}
        root.params["host"] = "10.0.0.1" if one else None
        async with root:
            ctx = click.Context(m.raw, parent=root, info_name="raw")
            async with ctx:
                return await ctx.invoke(m.raw.callback, redact=hidden)

    o = c.attempt(go())
    c.check(o.ok and o.value == {"10.0.0.1": dev}, "what answered is returned", lambda: repr(o))
    shown = [x for x in out if str(x).startswith("{")]
    c.check(len(shown) == 1, "one answer is shown", lambda: out)
    text = shown[0]
    got = json.loads(text)
    c.check(got["meta"] == {"ip": "10.0.0.1", "port": port}, "where the answer came from is shown", lambda: got)
    c.check(info == before, "the answer itself stays as it came", lambda: info)
    if hidden:
        c.check(not any(x in text for x in (mac[9:], mac[9:].replace(":", "-"), "01234567", "SECRETOWNER", "Kitchen")), "nothing private is shown", lambda: text)
        c.reach("raw-redacted")
    else:
        c.check(got["discovery_response"] == before, "the answer is shown as it came", lambda: got)
        c.reach("raw")


def listed(c, what):
    """Children, their kinds, parts and cleanings are listed."""
    import asyncclick as click
    from kasa import Module
    from kasa.cli import hub as mhub
    from kasa.cli import vacuum as mvac

    lines: list = shell(c)
    c.patch(click, "echo", lambda x="", *a, **k: lines.append(x))
    name = "H100" if what in ("children", "categories") else "RV20"
    d = sim.data(name)
    if what == "parts":
        used = {k: c.choice(k, [0, 60, v]) for k, v in d["getConsumablesInfo"].items() if k in ("roll_brush_time", "filter_time")}
        d["getConsumablesInfo"].update(used)
    if what in ("records", "totals"):
        from kasa.smart.modules.cleanrecords import Records

        n = c.pick("records", 3)
        d["getCleanRecords"]["record_list"] = d["getCleanRecords"]["record_list"][:n]
    dev, s = sim.smart_device(d)
    statesim.smart(s)
    cmd = {"children": mhub.hub_list, "categories": mhub.hub_supported, "parts": mvac.consumables, "records": mvac.records_list, "totals": mvac.records_group}[what]

    async def go():
        await dev.update()
        s.clear()
        o = await acatch(kasa(c, cmd, dev))
        c.check(o.ok and not s.sets(), "listing sends no command", lambda: (repr(o), s.sets()))
        text = [str(x) for x in lines]
        if what == "children":
            c.check(len(text) == len(dev.children) and all(t.startswith(k.device_id + ":") for t, k in zip(text, dev.children, strict=True)), "every child is listed once", lambda: text)
        elif what == "categories":
            want = [x["category"] for x in d["get_support_child_device_category"]["device_category_list"]]
            c.check([t.split(": ")[1] for t in text] == want, "every category is listed once", lambda: (text, want))
        elif what == "parts":
            parts = dev.modules[Module.Consumables].consumables
            c.check(len(text) == len(parts) and all(p.id in t and str(p.used) in t and str(p.remaining) in t for t, p in zip(text, parts.values(), strict=True)), "every part is listed with its times", lambda: text)
        elif what == "records":
            recs = dev.modules[Module.CleanRecords].parsed_data.records
            c.check(len(text) == n == len(recs) and all(str(r.timestamp) in t and str(r.clean_area) in t and str(r.clean_time) in t for t, r in zip(text, recs, strict=True)), "every cleaning is listed", lambda: text)
        else:
            m = dev.modules[Module.CleanRecords]
            c.check(all(any(str(v) in t for t in text) for v in (m.total_clean_area, m.total_clean_time, m.total_clean_count, m.last_clean_area, m.last_clean_time)), "the totals are shown", lambda: text)
        c.reach("listed-" + what)

    c.run(go())


LINES = {
    # words: what they stand for (on a second device in the same state), or None where they are refused
    ("on",): lambda d: d.turn_on(),
    ("device", "on"): lambda d: d.turn_on(),
    ("off",): lambda d: d.turn_off(),
    ("device", "off"): lambda d: d.turn_off(),
    ("alias", "New name"): lambda d: d.set_alias("New name"),
    ("device", "alias", "New name"): lambda d: d.set_alias("New name"),
    ("feature", "state", "False"): lambda d: d.features["state"].set_value(False),
    ("brightness", "77"): lambda d: light_of(d).set_brightness(77),
    ("light", "brightness", "77"): lambda d: light_of(d).set_brightness(77),
    ("light", "brightness", "0"): lambda d: light_of(d).set_brightness(0),
    ("hsv", "10", "20", "30"): lambda d: light_of(d).set_hsv(10, 20, 30),
    ("light", "temperature", "3000"): lambda d: light_of(d).set_color_temp(3000),
    ("light", "brightness", "101"): None,
    ("light", "brightness", "7x"): None,
    ("on", "twice"): None,
    ("nonesuch",): None,
    ("light", "nonesuch"): None,
    ("--nonesuch", "on"): None,
    ("feature", "nonesuch", "1"): None,
    ("sysinfo",): DONE,
    ("device", "sysinfo"): DONE,
    ("time",): DONE,
    ("time", "get"): DONE,
    ("feature",): DONE,
}


def light_of(d):
    from kasa import Module

    return d.modules[Module.Light]


def line(c, name):
    """Whole lines: the words are parsed, the command is found, errors are reported as such."""
    import builtins
    import logging

    import asyncclick as click
    from kasa import AuthenticationError, Discover, KasaException
    from kasa.cli.main import cli

    out = shell(c)
    printed: list = []
    c.patch(logging, "basicConfig", lambda **k: None)
    c.patch(builtins, "print", lambda *a, **k: printed.append(a[0] if a else ""))
    c.patch(click, "echo", lambda *a, **k: printed.append(a[0] if a else ""))
    (dev, s, d), (dev2, s2, d2) = twins(c, name)
    words = c.choice("words", list(LINES))
    means = LINES[words]
    debug = bool(c.bool("debug"))
    as_json = bool(c.bool("json"))
    fault = c.choice("fault", [None, KasaException("odd"), AuthenticationError("who"), OSError("reset"), ValueError("x")])
    args = ["--host", "10.0.0.1", *(["--debug"] if debug else []), *(["--json"] if as_json else []), *words]
    c.patch(sys, "argv", ["kasa", *args])

    async def single(host, **k):
        if fault is not None:
            raise fault
        return dev

    c.patch(Discover, "discover_single", staticmethod(single))

    async def go():
        await dev2.update()
        try:
            return await cli.main(args=list(args), prog_name="kasa", standalone_mode=False)
        except SystemExit as ex:
            if ex.code:
                raise Refused from ex
        except click.ClickException as ex:
            raise Refused from ex

    o = c.attempt(go())
    sent = s.sets()
    lit = name in ("L530E", "KL130")
    texts = [str(x) for x in out]
    info = lambda: (args, repr(o), sent, texts[-3:])  # noqa: E731
    if means is None or (fault is None and not lit and any(w in words for w in ("light", "brightness", "hsv"))):
        c.check(not o.ok and not sent, "a line that means nothing is refused", info)
        c.reach("line-refused")
        return
    if fault is not None:
        c.check(not sent, "nothing is sent to a device that failed", info)
        if debug:
            c.check(o.exc is fault, "with debugging the error itself is shown", info)
        else:
            c.check(o.raised(Refused), "an error is an error of the line", info)
            c.check(as_json or any(str(fault) in x for x in texts), "the error is shown", info)
        c.reach("line-failed")
        return
    c.check(o.ok, "the line is accepted", info)
    if not o.ok:
        return
    if as_json:
        text = [p for p in printed if p is not None]
        c.check(len(text) == 1, "exactly one JSON document is printed", lambda: (args, text))
        try:
            json.loads(str(text[0]) if text else "")
        except ValueError:
            c.fail("what is printed is JSON", lambda: (args, text))
        c.reach("line-json")
    if means is DONE:
        c.check(not sent, "showing a value sends nothing", info)
        c.reach("line-shown")
        return

    async def twin():
        await means(dev2)

    o2 = c.attempt(twin())
    c.check(o2.ok and same_sent(sent, s2.sets()), "the line sends what it stands for", lambda: (args, sent, s2.sets()))
    c.reach("line")


def by_alias(c):
    """A device is found by its alias on any attempt; the search ends."""
    from kasa import Discover, KasaException
    from kasa.cli.discover import find_dev_from_alias

    shell(c)
    want = c.str("alias", 2, 63, 91)
    devs = [thing("10.0.0.1", c.str("alias0", 2, 63, 91), c.choice("error0", [None, KasaException("odd")])), thing("10.0.0.2", None), thing("10.0.0.3", "AB")]
    when = [c.choice(f"answers{i}", [0, 1, 2, 9]) for i in range(3)]
    broken = c.choice("breaks", [None, 0, 1])
    rounds: list = []

    async def every(**k):
        r = len(rounds)
        rounds.append(k)
        if broken is not None and r == broken:
            raise KasaException("no network")
        for i, d in enumerate(devs):
            if when[i] <= r:
                await k["on_discovered"](d)
        await asyncio.sleep(5)
        return {}

    c.patch(Discover, "discover", staticmethod(every))
    import asyncclick as click
    from kasa.cli.main import cli

    async def go():
        root = click.Context(cli, info_name="kasa")
        root.params = {"json": False}
        async with root:
            return await find_dev_from_alias(alias=want, credentials=None, target="10.0.0.255")

    o = c.attempt(go())
    match = [devs[0].error is None and bool(same_name(devs[0].alias, want)), False, bool(same_name("AB", want))]
    rs = 3 if broken is None else broken
    first = next((r for r in range(rs) if any(match[i] and when[i] <= r for i in range(3))), None)
    info = lambda: (want, when, broken, repr(o), len(rounds))  # noqa: E731
    if first is None:
        c.check(o.raised(KasaException) if broken is not None else (o.ok and o.value is None), "a search without a match ends", info)
        c.reach("none-by-alias")
        return
    c.check(o.ok and o.value in [devs[i] for i in range(3) if match[i] and when[i] <= first], "a device with the alias is found", info)
    c.check(all(r["target"] == "10.0.0.255" for r in rounds), "the target given is searched", info)
    c.reach("by-alias")


def told(c):
    """The options `discover config` prints make the same connection."""
    import asyncclick as click
    from kasa import Device, DeviceConfig, Discover
    from kasa.cli import discover as m
    from kasa.cli.main import cli
    from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily

    import logging

    out = shell(c)
    c.patch(logging, "basicConfig", lambda **k: None)
    c.patch(sys, "argv", ["kasa"])
    d = thing("10.0.0.1")
    ct = DeviceConnectionParameters(c.choice("family", list(DeviceFamily)), c.choice("encryption", list(DeviceEncryptionType)), c.choice("login version", [None, 1, 2, 3]), bool(c.bool("https")))
    d.config_ = DeviceConfig("10.0.0.1", connection_type=ct)
    ok = bool(c.bool("connects"))
    port = options(c, "port")
    calls: list = []

    async def all_(host, **k):
        calls.append((host, k))
        return d if ok else None

    async def dconnect(*, host=None, config=None):
        calls.append(config)
        return d

    c.patch(Discover, "try_connect_all", staticmethod(all_))
    c.patch(Device, "connect", staticmethod(dconnect))

    async def go():
        root = click.Context(cli, info_name="kasa")
        root.params = {p.name: p.get_default(root) for p in cli.params if p.expose_value}
        root.params |= {"host": "10.0.0.1", "port": port, "username": "me", "password": "secret"}
        async with root:
            try:
                r = await root.invoke(m.config.callback)
            except SystemExit as ex:
                c.check(bool(ex.code) and not ok, "an error is reported when no connection works")
                c.reach("no-connection")
                return
        c.check(ok and r == {"10.0.0.1": d}, "the device found is returned", lambda: r)
        k = calls.pop()[1]
        c.check(sym_eq(k["port"], port) and k["credentials"].username == "me" and k["credentials"].password == "secret", "the connections are tried as the options say", lambda: k)
        (line,) = [x for x in out if str(x).startswith("--device-family")]
        async with await cli.make_context("kasa", ["--host", "10.0.0.1", *str(line).split(), "on"]) as ctx:
            ctx.invoked_subcommand = "on"
            await cli.callback(**ctx.params)
        got = calls.pop().connection_type
        # where the device does not say, any version works
        lv = got.login_version if ct.login_version is not None else None
        c.check((got.device_family, got.encryption_type, got.https, lv) == (ct.device_family, ct.encryption_type, ct.https, ct.login_version), "the options printed make the same connection", lambda: (line, ct, got))
        c.reach("told")

    c.run(go())


def as_json(c):
    """JSON output is the state of the device asked, or of every device found."""
    import builtins

    from kasa.cli.common import json_formatter_cb

    printed: list = []
    c.patch(builtins, "print", lambda *a, **k: printed.append(a[0]))
    a, b = thing("10.0.0.1"), thing("10.0.0.2")
    kind = c.choice("result", ["device", "found", "value", "nothing"])
    host = c.choice("host", [None, "10.0.0.1", "10.0.0.3"])
    on = c.choice("json", [True, False])
    result = {"device": a, "found": {"10.0.0.1": a, "10.0.0.2": b}, "value": {"x": [1, None, "text"]}, "nothing": None}[kind]
    json_formatter_cb(result, json=on, host=host)
    if not on:
        c.check(not printed, "nothing is printed as JSON unless asked for")
        return
    want = {"device": {"who": "10.0.0.1"}, "found": {"10.0.0.1": {"who": "10.0.0.1"}, "10.0.0.2": {"who": "10.0.0.2"}}, "value": result, "nothing": None}[kind]
    if kind == "found" and host == "10.0.0.1":
        want = {"who": "10.0.0.1"}
    c.check(len(printed) == 1 and json.loads(printed[0]) == want, "JSON output is the state of what was asked", lambda: (kind, host, printed))
    c.reach("json")


def scenarios(tier):
    out = []
    for n in ("KL130", "KL120", "L530E", "HS220", "KS240"):
        for w in ("brightness", "temperature", "hsv"):
            out.append((f"light-{n}-{w}", light, {"name": n, "what": w}))
    for n in ("KL130", "L530E", "L920", "KL430v1", "HS220s", "KS240"):
        out.append((f"preset-{n}", preset, {"name": n}))
        out.append((f"presets-{n}", preset_list, {"name": n}))
    for k in ("iot", "smart"):
        for w in ("none", "index", "id", "alias", "both"):
            out.append((f"child-{k}-{w}", child, {"kind": k, "way": w}))
    for w, names in MEANINGS.items():
        for n in names:
            out.append((f"{w}-{n}", meaning, {"what": w, "name": n}))
    for w in ("none", "host", "alias", "both", "direct"):
        out.append((f"connect-{w}", connect, {"way": w}))
    out += [("found-detail", found, {"what": "detail"}), ("found-list", found, {"what": "list"}), ("by-alias", by_alias, {}), ("told", told, {}), ("json", as_json, {})]
    out.append(("turn-on", turn_on, {}))
    out += [(f"line-{n}", line, {"name": n}) for n in ("P110M", "L530E", "KL130", "HS110v4")]
    out += [("config", config, {"mode": "one"}), ("config-none", config, {"mode": "none"}), ("raw", raw, {})]
    out += [(f"listed-{w}", listed, {"what": w}) for w in ("children", "categories", "parts", "records", "totals")]
    return out
