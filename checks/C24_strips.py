"""Legacy power strips: sockets are addressed one by one, the strip is the sum of its sockets."""

from __future__ import annotations

import sim
import statesim
from engine.ctx import And, Not, Or, acatch, sym_eq

BOUNDS = (
    "the recorded six-socket strip with energy meter and the recorded three-socket strip, with the recorded socket identifiers or ones that differ at the end, at the start, by case or by length; any state of every socket, any socket and any of its commands, "
    "sequences of strip and socket power commands up to three long with an update after each (two in quick), any voltage 0..300 V, current 0..20 A, power and total of two free sockets, any daily and monthly statistics of two entries per socket, "
    "any of the requests failing"
)
OUTSIDE = "rounding of floating point sums (compared within 1e-6); parent-level commands that are not about sockets (C19, C23)"
WITNESSES = ["socket", "strip-on", "strip-off", "skipped", "sums", "daily", "monthly", "failed", "energyless", "fresh"]
QUICK_S, THOROUGH_S = 240, 700

COMMANDS = {
    "turn_on": lambda k, K: k.turn_on(),
    "turn_off": lambda k, K: k.turn_off(),
    "set_state_on": lambda k, K: k.set_state(True),
    "set_state_off": lambda k, K: k.set_state(False),
    "feature_on": lambda k, K: k.features["state"].set_value(True),
    "feature_off": lambda k, K: k.features["state"].set_value(False),
    "set_alias": lambda k, K: k.set_alias("Kettle"),
    "usage_day": lambda k, K: k.modules[K.IotUsage].get_daystat(year=2024, month=5),
    "usage_month": lambda k, K: k.modules[K.IotUsage].get_monthstat(year=2024),
    "usage_erase": lambda k, K: k.modules[K.IotUsage].erase_stats(),
    "schedule_off": lambda k, K: k.modules[K.IotSchedule].set_enabled(False),
    "schedule_clear": lambda k, K: k.modules[K.IotSchedule].delete_all_rules(),
    "countdown_clear": lambda k, K: k.modules[K.IotCountdown].delete_all_rules(),
    "antitheft_off": lambda k, K: k.modules[K.IotAntitheft].set_enabled(False),
    "update": lambda k, K: k.update(),
}
ENERGY = {
    "energy_status": lambda k, K: k.modules[K.Energy].get_status(),
    "energy_erase": lambda k, K: k.modules[K.Energy].erase_stats(),
    "energy_day": lambda k, K: k.modules[K.Energy].get_daily_stats(year=2024, month=5),
    "energy_month": lambda k, K: k.modules[K.Energy].get_monthly_stats(year=2024),
}
# as recorded, differing at the end, at the start, and identifiers that contain each other
IDS = {
    "recorded": lambda i, k: k,
    "end": lambda i, k: "8006F1A2" * 4 + f"{i:02d}",
    "start": lambda i, k: f"{i}006F1A2" + "8006F1A2" * 4,
    "nested": lambda i, k: "1" * (i + 1),
    "case": lambda i, k: "".join(ch.upper() if i >> n & 1 else ch for n, ch in enumerate("abcd")),
}
STAT = {"get_daystat": {"day_list": []}, "get_monthstat": {"month_list": []}}


def build(c, name, ids=("recorded", "nested")):
    from kasa.iot import IotStrip

    d = sim.data(name)
    for mod in ("schedule", "emeter"):
        if mod == "emeter" and "emeter" not in d:
            continue
        d.setdefault(mod, {})
        for k, v in STAT.items():
            d[mod].setdefault(k, v)
    d.setdefault("schedule", {})["get_rules"] = {"rule_list": []}
    for m in ("anti_theft", "countdown"):
        d[m] = {"get_rules": {"rule_list": []}, "get_next_action": {"type": -1}}
    d["schedule"]["get_next_action"] = {"type": -1}
    d["schedule"]["get_realtime"] = {"time": 1}
    kids = d["system"]["get_sysinfo"]["children"]
    how = c.choice("ids", list(ids))
    for i, k in enumerate(kids):
        k["id"] = IDS[how](i, k["id"])
    dev, s = sim.iot_device(d, IotStrip)
    statesim.iot(s)
    return dev, s, kids


def targets(ctx, kids):
    return [k["id"] for k in kids if ctx and k["id"] in ctx]


def command(c, name):
    from kasa.module import Module

    dev, s, kids = build(c, name, IDS)
    st = [c.int(f"st{i}", 0, 1) if i < 3 else i % 2 for i in range(len(kids))]
    for k, v in zip(kids, st):
        k["state"] = v
    which = c.choice("socket", list(range(len(kids))) if c.deep else [0, 1, len(kids) - 1])
    table = {**COMMANDS, **(ENERGY if name == "HS300" else {})}
    cmd = c.choice("cmd", list(table))

    async def go():
        await dev.update()
        c.check(len(dev.children) == len(kids) and [k.child_id for k in dev.children] == [k["id"] for k in kids], "every socket is a child", lambda: dev.children)
        c.check(len({k.device_id for k in dev.children}) == len(kids), "sockets have distinct ids", lambda: dev.children)
        sock = dev.children[which]
        before = [k["alias"] for k in kids]
        c.check(sock.alias == before[which] and sym_eq(sock.is_on, st[which] == 1), "a socket shows its own name and state", lambda: sock)
        s.clear()
        o = await acatch(table[cmd](sock, Module))
        c.check(o.ok, "a socket takes its commands", lambda: repr(o))
        c.check(len(s.log) > 0 and all(targets(x[0], kids) == [kids[which]["id"]] for x in s.log), "a socket's requests are addressed to that socket alone", lambda: (which, s.log))
        c.check(cmd == "update" or len(s.log) == 1, "one request per command", lambda: s.log)
        c.reach("socket")
        await dev.update()
        for i, k in enumerate(dev.children):
            want = st[i]
            if i == which:
                want = 1 if cmd.endswith("_on") else 0 if cmd in ("turn_off", "set_state_off", "feature_off") else st[i]
            c.check(sym_eq(k.is_on, want == 1), "only the addressed socket changes", lambda: (i, which, cmd, k.is_on, want))
            c.check(k.alias == ("Kettle" if i == which and cmd == "set_alias" else before[i]), "only the addressed socket is renamed", lambda: (i, k.alias))

    c.run(go())


def power(c, name, n):
    """Strip-wide and socket commands mixed."""
    dev, s, kids = build(c, name)
    want = [c.int(f"st{i}", 0, 1) if i < 4 else i % 2 for i in range(len(kids))]
    for k, v in zip(kids, want):
        k["state"] = v
    rssi = [c.int(f"rssi{i}", -120, 0) for i in range(n + 1)]
    si = s.d["system"]["get_sysinfo"]
    fail = c.choice("fail", [None, 0, 1, 2])
    count = {"n": -1, "on": False}

    base = s.on

    def on(ctx, mod, cmd, args):
        if cmd == "set_relay_state" and count["on"]:
            count["n"] += 1
            if fail is not None and count["n"] == fail:
                from kasa import KasaException

                raise KasaException("connection lost")
        return base(ctx, mod, cmd, args)

    s.on = on

    async def go():
        nonlocal want
        si["rssi"] = rssi[0]
        await dev.update()
        from kasa import KasaException

        for step in range(n):
            act = c.choice(f"act{step}", ["on", "off", "set_on", "set_off", "feature_on", "feature_off", "socket_on", "socket_off"])
            count["on"] = step == 0
            s.clear()
            target = 1 if act.endswith("on") else 0
            sock = dev.children[step % len(kids)]
            call = {
                "on": lambda: dev.turn_on(),
                "off": lambda: dev.turn_off(),
                "set_on": lambda: dev.set_state(True),
                "set_off": lambda: dev.set_state(False),
                "feature_on": lambda: dev.features["state"].set_value(True),
                "feature_off": lambda: dev.features["state"].set_value(False),
                "socket_on": lambda: sock.turn_on(),
                "socket_off": lambda: sock.turn_off(),
            }[act]
            o = await acatch(call())
            sent = [(targets(x[0], kids), x[3]) for x in s.sets()]
            failing = step == 0 and fail is not None and count["n"] >= fail
            if failing:
                c.reach("failed")
                c.check(o.raised(KasaException), "a failing command raises a library error", lambda: repr(o))
                # the one that failed did not happen
                done = sent[:fail]
                want = [target if any(k["id"] in t for t, _ in done) else w for k, w in zip(kids, want)]
            else:
                c.check(o.ok, "a power command succeeds", lambda: repr(o))
                if act.startswith("socket"):
                    i = step % len(kids)
                    c.check([t for t, _ in sent] == [[kids[i]["id"]]], "a socket command goes to that socket", lambda: sent)
                    want = [target if j == i else w for j, w in enumerate(want)]
                else:
                    for k, w in zip(kids, want):
                        n_sent = sum(t == [k["id"]] for t, _ in sent)
                        c.check(sym_eq(n_sent, 1) if n_sent else sym_eq(w, target), "a strip command goes to every socket not yet in that state", lambda: (k, w, target, sent))
                        if n_sent == 0:
                            c.reach("skipped")
                        else:
                            c.check(sym_eq(w, 1 - target), "a strip command leaves alone the sockets already in that state", lambda: (k, w, target, sent))
                    want = [target] * len(kids)
                    c.reach("strip-on" if target else "strip-off")
            si["rssi"] = rssi[step + 1]
            await dev.update(update_children=bool(step % 2))
            for k, w in zip(dev.children, want):
                c.check(sym_eq(k.is_on, w == 1), "every socket is as commanded", lambda: (k.child_id, k.is_on, want))
                c.check(sym_eq(k.is_off, w != 1), "off is the opposite of on", lambda: (k.child_id, want))
                c.check(sym_eq(k.rssi, rssi[step + 1]), "a socket shows the strip's current data", lambda: (k.rssi, rssi, step))
                c.reach("fresh")
            anyon = Or(*[w == 1 for w in want])
            c.check(sym_eq(dev.is_on, anyon), "the strip is on when any socket is", lambda: (dev.is_on, want))

    c.run(go())


class Now:
    year, month, day = 2024, 5, 7


class DT:
    @staticmethod
    def now(tz=None):
        return Now


def near(a, b):
    d = a - b
    return And(d < 1e-6, d > -1e-6)


def sums(c, mode):
    from kasa.module import Module

    dev, s, kids = build(c, "HS300")
    from kasa.iot.modules import emeter, usage

    for m in (emeter, usage):
        c.patch(m, "datetime", DT)
    n = len(kids)
    which = c.pick("on", 4) if mode == "status" or c.deep else 2
    for i, k in enumerate(kids):
        k["state"] = [1, 0, i % 2, int(i > 1)][which]
    rt = []
    for i in range(n):
        free = i < 2
        rt.append({
            "slot_id": i,
            "voltage_mv": c.int(f"v{i}", 0, 300000) if free else 120000 + i,
            "current_ma": c.int(f"c{i}", 0, 20000) if free else 10 * i,
            "power_mw": c.int(f"p{i}", 0, 5000000) if free else 1000 * i,
            "total_wh": c.int(f"t{i}", 0, 10**7) if free else 100 * i,
            "err_code": 0,
        })

    def stat(kind, i):
        if mode != kind or i > 1:
            return []
        out = []
        for j in range(2):
            day = c.choice(f"{kind}{i}.{j}", [None, 5, 7, 9][: 4 if c.deep or j == 0 else 3])
            if day is not None and day not in [e["day"] for e in out]:
                out.append({"year": 2024, "month": day if kind == "monthly" else 5, "day": day, "energy_wh": c.int(f"{kind}-e{i}.{j}", 0, 10**6)})
        return out

    lists = {"get_daystat": [stat("daily", i) for i in range(n)], "get_monthstat": [stat("monthly", i) for i in range(n)]}
    base = s.on

    def on(ctx, mod, cmd, args):
        i = next((i for i, k in enumerate(kids) if ctx and k["id"] in ctx), None)
        if mod == "emeter" and i is not None:
            if cmd == "get_realtime":
                return dict(rt[i]) if seen else {"slot_id": i, "voltage_mv": 1, "current_ma": 2, "power_mw": 3, "total_wh": 4, "err_code": 0}
            if cmd in lists:
                if not seen:
                    return {("day_list" if cmd == "get_daystat" else "month_list"): [{"year": 2024, "month": 5, "day": 7, "energy_wh": 11}], "err_code": 0}
                return {("day_list" if cmd == "get_daystat" else "month_list"): [dict(e) for e in lists[cmd][i]], "err_code": 0}
        return base(ctx, mod, cmd, args)

    s.on = on

    given = {}
    if mode != "status":
        if c.bool("year given"):
            given["year"] = c.int("year", 2000, 2100)
        if mode == "daily" and c.bool("month given"):
            given["month"] = c.int("month", 1, 12)

    def total(kind, key, day):
        return sum((e["energy_wh"] for l in lists[kind] for e in l if e[key] == day), 0)

    seen: list = []

    async def go():
        await dev.update()
        seen.append(True)
        await dev.update()
        e = dev.modules[Module.Energy]
        if mode == "status":
            sock = dev.children[0].modules[Module.Energy]
            c.check(And(near(sock.current_consumption, rt[0]["power_mw"] / 1000), near(sock.voltage, rt[0]["voltage_mv"] / 1000), near(sock.current, rt[0]["current_ma"] / 1000), near(sock.consumption_total, rt[0]["total_wh"] / 1000)), "a socket shows its own readings", lambda: (sock.status, rt[0]))
            for what, got in (("status", e.status), ("get_status", await e.get_status())):
                c.check(near(got.power, sum(r["power_mw"] for r in rt) / 1000), "the strip's power is the sum of its sockets", lambda: (what, got, rt))
                c.check(near(got.current, sum(r["current_ma"] for r in rt) / 1000), "the strip's current is the sum of its sockets", lambda: (what, got, rt))
                c.check(near(got.total, sum(r["total_wh"] for r in rt) / 1000), "the strip's total is the sum of its sockets", lambda: (what, got, rt))
                v = sum(r["voltage_mv"] for r in rt) / n / 1000
                c.check(And(got.voltage <= v + 1e-6, got.voltage > v - 0.001001), "the strip's voltage is the average of its sockets", lambda: (what, got, rt))
            c.check(near(e.current_consumption, sum(r["power_mw"] for r in rt) / 1000), "the strip's power is the sum of its sockets", lambda: (e.current_consumption, rt))
            c.check(near(e.consumption_total, sum(r["total_wh"] for r in rt) / 1000), "the strip's total is the sum of its sockets", lambda: (e.consumption_total, rt))
            c.check(And(near(e.current, e.status.current), near(e.voltage, e.status.voltage)), "readings agree with the status", lambda: e.status)
            c.reach("sums")
            return
        kind, key, now = ("get_daystat", "day", 7) if mode == "daily" else ("get_monthstat", "month", 5)
        today = e.consumption_today if mode == "daily" else e.consumption_this_month
        c.check(near(today, total(kind, key, now) / 1000), "the strip's consumption is the sum of its sockets", lambda: (today, lists))
        for kwh in (True, False):
            s.clear()
            got = await (e.get_daily_stats(**given, kwh=kwh) if mode == "daily" else e.get_monthly_stats(**given, kwh=kwh))
            asked = [x[3] for x in s.log]
            when = {"year": 2024, "month": 5, **given} if mode == "daily" else {"year": 2024, **given}
            c.check(len(asked) == n and all(set(a) == set(when) for a in asked) and And(*[sym_eq(a[k], when[k]) for a in asked for k in when]), "statistics are asked for the given time", lambda: asked)
            days = {x[key] for l in lists[kind] for x in l}
            c.check(set(got) == days, "statistics name the days any socket has", lambda: (dict(got), lists))
            for d in days:
                c.check(near(got[d], total(kind, key, d) / (1000 if kwh else 1)), "the strip's statistics are the sum of its sockets", lambda: (dict(got), lists, kwh))
        c.reach(mode)
        if not any(lists[kind]):
            c.reach("energyless")
        s.clear()
        await e.erase_stats()
        c.check([(targets(x[0], kids), x[2]) for x in s.log] == [([k["id"]], "erase_emeter_stat") for k in kids], "erasing statistics erases those of every socket", lambda: s.log)

    c.run(go())


def scenarios(tier):
    n = 3 if tier == "thorough" else 2
    return [
        ("command-HS300", command, {"name": "HS300"}),
        ("command-KP303", command, {"name": "KP303"}),
        ("power-HS300", power, {"name": "HS300", "n": 3 if tier == "thorough" else 1}),
        ("power-KP303", power, {"name": "KP303", "n": n}),
        ("sums-status", sums, {"mode": "status"}),
        ("sums-daily", sums, {"mode": "daily"}),
        ("sums-monthly", sums, {"mode": "monthly"}),
    ]
