"""Looking at a device changes nothing and sends nothing; what was not fetched is not made up; failed updates leave no trace."""

from __future__ import annotations

import warnings
from datetime import datetime

import C39_old_names as names
import sim
from engine.ctx import And, Implies, Not, Or, acatch, sym_eq
from engine.hook import freeze

BOUNDS = "17 kinds of devices with any light, indicator, effect and energy state; every public property of devices, children, modules and features, in two orders; a first update failing at any one request in three ways, with everything looked at in between"
OUTSIDE = "values that follow the clock (time, device_time, on_since); objects handed out that the caller then changes; two failed updates in a row; first updates in which only some modules fail (C21)"
WITNESSES = ["passive", "not updated", "failed", "partial", "recovered"]
QUICK_S, THOROUGH_S = 240, 800

NAMES = names.NAMES
CLOCK = {"time", "device_time", "on_since", "timezone", "config", "update_interval", "modules", "features", "children", "internal_state", "device", "device_info", "sys_info", "parent", "info", "logger", "credentials", "data"}


def plain(v, depth=0):
    """What can be compared of a value; None when it is an object of its own."""
    import dataclasses
    import enum

    from engine import sym

    if v is None or isinstance(v, (bool, int, float, str, bytes, enum.Enum)) or type(v).__module__.endswith("engine.sym"):
        return v
    if isinstance(v, (list, tuple)) and depth < 4:
        return [plain(x, depth + 1) for x in v]
    if isinstance(v, dict) and depth < 4:
        return {str(k): plain(x, depth + 1) for k, x in v.items()}
    if dataclasses.is_dataclass(v) and depth < 4:
        return {f.name: plain(getattr(v, f.name), depth + 1) for f in dataclasses.fields(v)}
    return type(v).__name__


def get(c, out, key, f):
    o = c.attempt(f)
    if o.ok:
        out[key] = plain(o.value)
    else:
        out[key] = ("raises", type(o.exc).__name__)


def props(t):
    return [n for n in sorted(dir(t)) if not n.startswith("_") and n not in CLOCK and isinstance(getattr(t, n, None), property)]


def look(c, dev, back=False):
    """Everything there is to see."""
    out: dict = {}
    todo = []
    for i, d in enumerate([dev, *dev.children]):
        for n in props(type(d)):
            todo.append(((i, n), lambda d=d, n=n: getattr(d, n)))
        todo.append(((i, "repr"), lambda d=d: type(repr(d)).__name__))
        todo.append(((i, "child"), lambda d=d: d.get_child_device("no such child")))
        mods = c.attempt(lambda d=d: list(d.modules.items()))
        for k, m in mods.value if mods.ok else []:
            for n in props(type(m)):
                todo.append(((i, str(k), n), lambda m=m, n=n: getattr(m, n)))
                todo.append(((i, str(k), n, "feature"), lambda m=m, n=n: m.has_feature(n)))
            todo.append(((i, str(k), "repr"), lambda m=m: type(repr(m)).__name__))
        fs = c.attempt(lambda d=d: list(d.features.items()))
        for k, f in fs.value if fs.ok else []:
            for n in ("value", "unit", "choices", "minimum_value", "maximum_value", "range", "name", "icon", "category", "type", "precision_hint"):
                if not (k in CLOCK and n == "value"):
                    todo.append(((i, "feature", k, n), lambda f=f, n=n: getattr(f, n)))
    todo.append(("names", lambda: [sorted(map(str, d.modules)) for d in [dev, *dev.children]]))
    todo.append(("features", lambda: [sorted(d.features) for d in [dev, *dev.children]]))
    for key, f in reversed(todo) if back else todo:
        get(c, out, key, f)
    return out


def same(c, a, b, label, name):
    c.check(a.keys() == b.keys(), label, lambda: (name, [k for k in {*a, *b} if (k in a) != (k in b)][:5]))
    for k in a:
        if k in b:
            c.check(sym_eq(a[k], b[k]), label, lambda k=k: (name, k, a[k], b[k]))


def raw(dev):
    return [freeze(d.internal_state) for d in [dev, *dev.children]]


def passive(c, name):
    dev, s = names.make(name, names.state(c, name))

    async def go():
        await dev.update()
        s.clear()
        said = s.d["system"]["get_sysinfo"] if name in names.CLS else s.d.get("get_device_info")
        if said is not None:
            c.check(sym_eq(plain(dev.sys_info), plain(freeze(said))), "what is kept of a device is what it said", lambda: (name, dev.sys_info, said))
        before = raw(dev)
        with warnings.catch_warnings(record=True):
            first = look(c, dev)
            second = look(c, dev, back=True)
        c.check(not s.log, "looking sends nothing", lambda: (name, s.log))
        same(c, first, second, "what is seen does not depend on what was looked at before", name)
        after = raw(dev)
        c.check(sym_eq(before, after), "looking changes nothing", lambda: name)
        c.reach("passive")

    c.run(go())


def unknown(c, name):
    """Before the first update."""
    from kasa import KasaException

    dev, s = names.make(name, names.state(c, name))
    legacy = name in names.CLS
    with warnings.catch_warnings(record=True):
        got = look(c, dev)
    c.check(not s.log, "looking sends nothing", lambda: (name, s.log))
    c.check(sym_eq(got[(0, "state_information")], {}) and not dev.children, "nothing is known before the first update", lambda: name)
    c.check("update() needed" in repr(dev), "a device tells that an update is needed", lambda: repr(dev))
    if legacy:
        for n in ("is_on", "is_off", "mac", "model", "rssi", "hw_info", "location", "has_emeter", "device_id"):
            c.check(got[(0, n)] == ("raises", "KasaException"), "nothing is told before the first update", lambda n=n: (name, n, got[(0, n)]))
        for n in ("time", "timezone", "on_since", "modules", "features", "sys_info"):
            c.check(c.attempt(getattr, dev, n).raised(KasaException), "nothing is told before the first update", lambda n=n: (name, n))
    else:
        c.check(not dev.modules and not dev.features, "nothing is known before the first update", lambda: name)
    c.reach("not updated")


def failed(c, name):
    from kasa import exceptions as E

    d = names.state(c, name)
    (a, sa), (b, sb) = names.make(name, d), names.make(name, d)

    async def go():
        transport = a.protocol._transport
        real = transport.send
        count = [0]
        at = c.pick("fails", 12)
        how = c.pick("how", 3)

        async def send(request):
            count[0] += 1
            if count[0] > at:
                raise [E.AuthenticationError("no"), E._ConnectionError("gone"), E.TimeoutError("late")][how]
            return await real(request)

        transport.send = send
        o = await acatch(a.update())
        if o.ok:
            c.reach("partial")
            return  # modules may fail alone
        c.check(isinstance(o.exc, E.KasaException), "an update fails with an error of the library", lambda: (name, repr(o)))
        c.reach("failed")
        with warnings.catch_warnings(record=True):
            look(c, a)
        transport.send = real
        o = await acatch(a.update())
        c.check(o.ok, "an update succeeds after a failed one", lambda: (name, at, repr(o)))
        await b.update()
        if not o.ok:
            return
        await a.update()
        await b.update()
        with warnings.catch_warnings(record=True):
            x, y = look(c, a), look(c, b)
        same(c, x, y, "a failed update leaves no trace", name)
        c.reach("recovered")

    c.run(go())


def scenarios(tier):
    out = []
    for n in NAMES:
        out += [(f"passive-{n}", passive, {"name": n}), (f"unknown-{n}", unknown, {"name": n}), (f"failed-{n}", failed, {"name": n})]
    return out
