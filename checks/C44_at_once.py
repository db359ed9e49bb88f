"""C44: at the same time. Updates and commands of one device running at the same time do what they do one after another."""

from __future__ import annotations

import asyncio

import C22_children as hubs
import C39_old_names as names
import C41_looking as looking
from engine.ctx import acatch, sym_eq
from engine.hook import freeze

BOUNDS = "17 kinds of devices with any light, indicator, effect and energy state; two first updates or two later updates, the second starting while any of the first one's requests is under way; the first one cancelled at any of its requests; an update and one of the device's commands, starting at any request of the update; two commands for different things at once; the list of a hub's up to three children becoming any other while an update is at any of its requests, with another starting then"
OUTSIDE = "commands for the same thing at once; three or more at once; a state other than the list of children changing at the device by itself meanwhile; requests failing while two updates run (a failed update alone: C41; failing modules: C21); Python threads"
WITNESSES = ["two first updates", "two later updates", "cancelled", "during an update", "two commands", "children changed"]
QUICK_S, THOROUGH_S = 200, 800


OUTPUT = {"on", "off", "child off", "brightness", "hsv", "effect"}  # these change the same thing


class Gate:
    """Tells when a device's n-th request is under way; each request takes some turns of the event loop."""

    def __init__(self, dev):
        self.n = 0
        self.at: dict = {}
        t = dev.protocol._transport
        real = t.send

        async def send(request):
            k = self.n
            self.n += 1
            f = self.at.pop(k, None)
            if f is not None:
                f()
            for _ in range(4):
                await asyncio.sleep(0)
            r = await real(request)
            for _ in range(4):
                await asyncio.sleep(0)
            return r

        t.send = send


def seen(c, dev):
    """What is known of a device, and what its features show."""
    out: dict = {}
    for i, d in enumerate([dev, *dev.children]):
        out[i, "modules"] = sorted(map(str, d.modules))
        out[i, "features"] = sorted(d.features)
        for n in ("alias", "is_on", "sys_info", "device_type", "model"):
            looking.get(c, out, (i, n), lambda d=d, n=n: getattr(d, n))
        for k, f in d.features.items():
            if k not in looking.CLOCK:
                looking.get(c, out, (i, k), lambda f=f: f.value)
    return out


def updates(c, name, when, how):
    """Two updates at the same time leave what one leaves; a cancelled one leaves nothing."""
    d = names.state(c, name)
    (a, _), (b, _) = names.make(name, d), names.make(name, d)
    ga, gb = Gate(a), Gate(b)

    async def go():
        if when == "later":
            await a.update()
            await b.update()
            ga.n = gb.n = 0
        await a.update()
        n = ga.n
        j = c.pick("starts", n)
        tasks: list = []

        def start():
            tasks.append(asyncio.ensure_future(acatch(b.update())))

        gb.at[j] = start
        one = asyncio.ensure_future(acatch(b.update()))
        if how == "cancelled":
            f = c.pick("cancelled", n)
            if f == j:
                gb.at[j] = lambda: (start(), one.cancel())
            else:
                gb.at[f] = one.cancel
        try:
            o = await one
            ok = o.ok
        except asyncio.CancelledError:
            ok = None
        if how == "both":
            c.check(ok, "updates at the same time succeed", lambda: (name, repr(o)))
            c.reach(f"two {when} updates")
        elif not tasks:
            start()  # the first was cancelled before the second began
            c.reach("cancelled")
        else:
            c.reach("cancelled")
        kids = list(b.children)
        if how == "both":
            c.check(all(k.modules and k.features for k in kids), "an update that is done leaves children ready to use", lambda: (name, j))
        o = await tasks[0]
        c.check(o.ok, "updates at the same time succeed", lambda: (name, j, repr(o)))
        if how == "both":
            c.check(len(kids) == len(b.children) and all(x is y for x, y in zip(kids, b.children)), "children stay the devices they are", lambda: (name, j))
        if how == "cancelled":
            # what a cancelled update left to do
            await a.update()
            await b.update()
        x, y = seen(c, a), seen(c, b)
        looking.same(c, x, y, "updates at the same time leave what one leaves", (name, j))
        c.check(len(a.children) == len(b.children) and len({id(k) for k in b.children}) == len(b.children), "updates at the same time leave what one leaves")

    c.run(go())


def commands(dev, name):
    """What a device can be told: name -> coroutine function."""
    from kasa import Module

    out = {"off": dev.turn_off, "on": dev.turn_on} if name not in ("H100", "KE100", "C210") else {}
    if kids := dev.children:
        out["child off"] = kids[-1].turn_off if name in ("HS300", "KP303") else kids[0].update
    if light := dev.modules.get(Module.Light):
        if light.has_feature("brightness"):
            out["brightness"] = lambda: light.set_brightness(33)
        if light.has_feature("hsv"):
            out["hsv"] = lambda: light.set_hsv(120, 50, 60)
    if led := dev.modules.get(Module.Led):
        out["led"] = lambda: led.set_led(False)
    if t := dev.modules.get(Module.TemperatureControl):
        out["target"] = lambda: t.set_target_temperature(21)
    if e := dev.modules.get(Module.LightEffect):
        out["effect"] = lambda: e.set_effect("Off")
    if cam := dev.modules.get(Module.Camera):
        out["camera"] = lambda: cam.set_state(False)
    out["alias"] = lambda: dev.set_alias("Some name")
    return out


def told(s):
    return [freeze(x) for x in s.sets()]


def among(c, x, xs):
    """Position of an equal request, or None."""
    for i, y in enumerate(xs):
        if sym_eq(x, y):
            return i
    return None


def equal(c, xs, ys):
    """The same requests, in any order."""
    ys = list(ys)
    for x in xs:
        i = among(c, x, ys)
        if i is None:
            return False
        ys.pop(i)
    return not ys


def command(c, name, what):
    """A command given while an update, or another command, is under way is what it is alone."""
    d = names.state(c, name)
    (a, sa), (b, sb) = names.make(name, d), names.make(name, d)
    ga, gb = Gate(a), Gate(b)

    async def go():
        await a.update()
        await b.update()
        ca, cb = commands(a, name), commands(b, name)
        which = c.choice("command", sorted(ca))
        sa.clear(), sb.clear()
        ga.n = gb.n = 0
        if what == "update":
            await a.update()
            n = ga.n
            ra = await acatch(ca[which]())
            first = b.update
        else:
            other = c.choice("other", [k for k in sorted(ca) if not {k, which} <= OUTPUT])
            await acatch(ca[other]())
            n = ga.n
            if n == 0:
                return
            ra = await acatch(ca[which]())
            first = cb[other]
        j = c.pick("starts", n)
        tasks: list = []
        gb.at[j] = lambda: tasks.append(asyncio.ensure_future(acatch(cb[which]())))
        o = await acatch(first())
        rb = await tasks[0]
        c.check(o.ok == True, "what runs at the same time succeeds", lambda: (name, which, repr(o)))  # noqa: E712
        c.check(ra.ok == rb.ok, "a command has the same outcome as alone", lambda: (name, which, j, repr(ra), repr(rb)))
        c.check(equal(c, told(sa), told(sb)), "a command sends what it sends alone", lambda: (name, which, j, told(sa), told(sb)))
        await a.update()
        await b.update()
        looking.same(c, seen(c, a), seen(c, b), "a command does what it does alone", (name, which, j))
        c.reach("during an update" if what == "update" else "two commands")

    c.run(go())


def children(c, kind):
    """The list of a hub's children changes while an update is under way and another one starts."""
    h = hubs.Hub(c, kind, None)
    g = Gate(h.dev)

    async def go():
        before = [x for x in hubs.IDS if c.bool(f"{x} before")]
        after = [x for x in hubs.IDS if c.bool(f"{x} after")]
        h.rssi = {x: c.int(f"r{x}", -1000, 1000) for x in hubs.IDS}
        h.listed = before
        await h.dev.update()
        g.n = 0
        await h.dev.update()
        j = c.pick("starts", g.n)
        g.n = 0
        tasks: list = []

        def start():
            h.listed = after
            tasks.append(asyncio.ensure_future(acatch(h.dev.update())))

        g.at[j] = start
        one = await acatch(h.dev.update())
        two = await tasks[0]
        c.check(one.ok, "updates at the same time succeed", lambda: (kind, before, after, j, repr(one)))
        c.check(two.ok, "updates at the same time succeed", lambda: (kind, before, after, j, repr(two)))
        now = {k.device_id: k for k in h.dev.children}
        c.check(sorted(now) == sorted(after) and len(h.dev.children) == len(after), "the children are those listed last", lambda: (kind, before, after, j, list(now)))
        for x, k in now.items():
            c.check(bool(k.modules) and bool(k.features), "each child is ready to use", lambda: (kind, before, after, j, x))
            c.check(sym_eq(k.sys_info.get("rssi"), h.rssi[x]), "each child shows its own entry", lambda: (x, k.sys_info.get("rssi")))
        if before != after:
            c.reach("children changed")

    c.run(go())


def scenarios(tier):
    out = [(f"children-{k}", children, {"kind": k}) for k in ("smart", "cam")]
    for n in names.NAMES:
        for when in ("first", "later"):
            for how in ("both", "cancelled"):
                out.append((f"{when}-{how}-{n}", updates, {"name": n, "when": when, "how": how}))
        out += [(f"command-{n}", command, {"name": n, "what": "update"}), (f"commands-{n}", command, {"name": n, "what": "command"})]
    return out
