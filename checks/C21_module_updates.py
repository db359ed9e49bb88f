"""SMART modules: queried when due, isolated from each other's failures, always current."""

from __future__ import annotations

import time

import sim
from engine.ctx import And, Not, Or, acatch, sym_eq

BOUNDS = (
    "a plug, a bulb, a camera, an outlet of a strip and a sensor of a hub: the first update and two more (quick) or three more (thorough), any whole number of seconds up to 200000 apart, at each update every "
    "choice of one failing query or none and of the combined request failing as a whole; one of two or three updates at which the combined request and one query asked alone both fail, in five ways; twelve updates, any equal time of at least 330 s apart, with one query failing at every one but a chosen one; one of three updates failing for lack of device info or of any answer"
)
OUTSIDE = "modules that fail in two different queries at once; update intervals of modules not in these devices"
WITNESSES = ["alone", "skipped", "queried", "failed", "recovered", "disabled", "individual", "child", "hub-child", "device-info", "backoff"]
QUICK_S, THOROUGH_S = 240, 800

DAY, HOUR = 86400, 3600
# the modules with own queries: name -> (methods, base interval, initialised during negotiation)
PLUG = {
    "Time": (["get_device_time"], 0),
    "AutoOff": (["get_auto_off_config"], 0),
    "Cloud": (["get_connect_cloud_state"], 60),
    "Energy": (["get_energy_usage", "get_current_power", "get_emeter_data", "get_emeter_vgain_igain"], 0),
    "Firmware": (["get_auto_update_info"], DAY),
    "Led": (["get_led_info"], HOUR),
    "PowerProtection": (["get_protection_power", "get_max_power"], 0),
}
BULB = {
    "Time": (["get_device_time"], 0),
    "Cloud": (["get_connect_cloud_state"], 60),
    "Firmware": (["get_auto_update_info"], DAY),
    "LightPreset": (["get_preset_rules"], 60),
    "LightTransition": (["get_on_off_gradually_info"], 60),
}
SENSOR = {"Cloud": (["get_connect_cloud_state"], DAY), "TriggerLogs": (["get_trigger_logs"], DAY)}
OUTLET = {"AutoOff": (["get_auto_off_config"], 0)}
CAM = {
    "Time": (["getClockStatus", "getTimezone"], 0),
    "Led": (["getLedStatus"], 0),
    "MotionDetection": (["getDetectionConfig"], 0),
    "BabyCryDetection": (["getBCDConfig"], 0),
}

# (fixture, child index or None, modules, methods that may fail)
DEVS = {
    "plug": ("P110M", None, PLUG, ["get_auto_off_config", "get_led_info"]),
    "plug2": ("P110M", None, PLUG, ["get_auto_update_info", "get_emeter_data"]),
    "plug3": ("P110M", None, PLUG, ["get_connect_cloud_state"]),
    "bulb": ("L530E", None, BULB, ["get_preset_rules", "get_connect_cloud_state", "get_on_off_gradually_info"]),
    "sensor": ("H100", 1, SENSOR, ["get_connect_cloud_state", "get_trigger_logs"]),
    "cam": ("C210", None, CAM, ["getLedStatus", "getClockStatus"]),
    "outlet": ("P300", 0, OUTLET, ["get_auto_off_config"]),
}


class World:
    def __init__(self, c, kind):
        from kasa import exceptions

        self.c = c
        fixture, self.child, self.mods, self.faulty = DEVS[kind]
        d = sim.data(fixture)
        self.dev, self.s = sim.cam_device(d) if kind == "cam" else sim.smart_device(d)
        self.t = 1000
        self.tried = set()
        self.fail = None  # method answered with an error; "all": the combined request fails as a whole
        self.round = 0
        self.ex = exceptions
        c.patch(time, "monotonic", lambda: self.t)
        if self.child is not None:
            self.target = d["get_child_device_list"]["child_device_list"][self.child]["device_id"]
        else:
            self.target = None
        # every device answers every query here
        own = self.s.d if self.target is None else self.s.children.setdefault(self.target, {})
        for ms, _ in self.mods.values():
            for m in ms:
                if not isinstance(own.get(m), dict):
                    own[m] = dict(sim.MISSING_GETTERS.get(m, {"status": 0}))
        if fixture == "H100":
            for cid in {e["device_id"] for e in d["get_child_device_list"]["child_device_list"]}:
                self.s.children.setdefault(cid, {}).setdefault("get_connect_cloud_state", {"status": 0})
                if not isinstance(self.s.children[cid]["get_connect_cloud_state"], dict):
                    self.s.children[cid]["get_connect_cloud_state"] = {"status": 0}
        self.s.on = self.on
        inner = self.s.handle

        def handle(req):
            self.tried |= {m for t, m in self.names(req) if t == self.target}
            if self.fail == "all" and self.combined(req):
                c.reach("individual")
                raise exceptions.TimeoutError("no answer")
            if isinstance(self.fail, tuple):
                # the combined request fails, and so does one query when asked alone
                err, method = self.fail
                if self.combined(req):
                    raise err("no answer")
                if self.names(req) == [(self.target, method)]:
                    c.reach("alone")
                    raise err("no answer")
            return inner(req)

        self.dev.protocol._transport.send = self.send(handle)
        self.last = {m: None for m in self.mods}
        self.count = {m: 0 for m in self.mods}
        self.fresh = {m: None for m in self.mods}

    def send(self, handle):
        async def send(request):
            return handle(sim.loads(request))

        return send

    def names(self, req, target=None):
        """The (target, method) pairs of a request."""
        m = req["method"]
        if m == "multipleRequest":
            return [p for r in req["params"]["requests"] for p in self.names(r, target)]
        if m == "control_child":
            return self.names(req["params"]["requestData"], req["params"]["device_id"])
        return [(target, m)]

    def combined(self, req):
        """Does the request carry several queries for the device in question?"""
        if self.target is None:
            return req["method"] == "multipleRequest" and len(req["params"]["requests"]) > 1 and not any(r["method"] in ("component_nego", "getAppComponentList", "control_child", "get_child_device_component_list") for r in req["params"]["requests"])
        one = [req] if req["method"] == "control_child" else (req.get("params") or {}).get("requests", [])
        for r in one:
            if r["method"] == "control_child" and r["params"]["device_id"] == self.target:
                return r["params"]["requestData"]["method"] == "multipleRequest"
        return False

    def on(self, target, method, params):
        if target != self.target:
            return None
        if method == self.fail:
            return {"error_code": -1001}
        if method.startswith("get") and any(method in ms for ms, _ in self.mods.values()):
            d = self.s.d if target is None else self.s.children[target]
            deep = {k: {**v, "stamp": self.round} if isinstance(v, dict) else v for k, v in d[method].items()}
            return {"result": {**deep, "stamp": self.round}, "error_code": 0}
        return None

    @property
    def d(self):
        return self.dev if self.child is None else [k for k in self.dev.children if k.device_id == self.target][0]

    def due(self, m):
        base = self.mods[m][1]
        if self.count[m] >= 10:
            return False
        wait = 30 * self.count[m] if self.count[m] else base
        if self.last[m] is None or wait == 0:
            return True
        return bool(self.t - self.last[m] >= wait)

    async def update(self, first=False):
        """One update, compared with the reference."""
        c = self.c
        due = [m for m in self.mods if first or self.due(m)]
        self.s.clear()
        self.tried = set()
        o = await acatch(self.dev.update())
        c.check(o.ok, "an update survives failing queries", lambda: repr(o))
        if not o.ok:
            c.fail("stop")
            return
        asked = {m for t, m, _ in self.s.log if t == self.target}
        if isinstance(self.fail, tuple) and any(self.fail[1] in self.mods[m][0] for m in due):
            # that query did go out, but nothing of it arrived
            c.check(self.fail[1] in self.tried, "a failing query was sent", lambda: (self.fail, self.tried))
            asked |= {self.fail[1]}
        for m in self.mods:
            ms = self.mods[m][0]
            got = [x in asked for x in ms]
            c.check(all(got) if m in due else not any(got), "a module is queried exactly when due", lambda: (m, m in due, ms, asked, self.t, self.last, self.count))
            c.reach("queried" if m in due else "skipped")
            if m in due:
                if self.count[m]:
                    c.reach("backoff")
                self.last[m] = self.t
                if self.fail in ms or (isinstance(self.fail, tuple) and self.fail[1] in ms):
                    self.count[m] += 1
                    c.reach("failed")
                else:
                    if self.count[m]:
                        c.reach("recovered")
                    self.count[m] = 0
                    self.fresh[m] = self.round
            mod = self.d.modules.get(m)
            c.check(mod is not None, "the module stays", lambda: m)
            c.check(mod.disabled is (self.count[m] >= 10), "a module is disabled after ten failures in a row", lambda: (m, self.count))
            r = await acatch(self._data(mod))
            if self.count[m]:
                c.check(r.raised(self.ex.KasaException), "the data of a failed module raises", lambda: (m, repr(r)))
                if mod.disabled:
                    c.reach("disabled")
            else:
                c.check(r.ok, "a module that works keeps its data", lambda: (m, repr(r), self.count))
                if r.ok:
                    v = r.value if "stamp" in r.value or len(ms) == 1 else r.value[ms[0]]
                    c.check(v.get("stamp") == self.fresh[m], "the data is from the module's last query", lambda: (m, v, self.fresh))
        self.round += 1

    async def _data(self, mod):
        return mod.data


def schedule(c, kind, n):
    w = World(c, kind)

    async def go():
        w.fail = c.choice("f0", [None, "all", *w.faulty])
        await w.update(first=True)
        for i in range(n):
            w.t = w.t + c.int(f"dt{i}", 1, 200000)
            w.fail = c.choice(f"f{i + 1}", [None, "all", *w.faulty])
            await w.update()
        if w.child is not None:
            c.reach("hub-child" if kind == "sensor" else "child")

    c.run(go())


def alone(c, kind, n):
    """The combined request fails, and one query fails alone as well, in several ways."""
    w = World(c, kind)
    errs = [w.ex.TimeoutError, w.ex._ConnectionError, w.ex.AuthenticationError, w.ex.KasaException, w.ex.DeviceError]

    async def go():
        # (the cloud state is part of the first combined request: it is never asked alone then)
        first = [m for m in w.faulty if m != "get_connect_cloud_state" or w.child is not None]
        at = c.choice("at", list(range(n)) if first else list(range(1, n)))
        for i in range(n):
            err = c.choice(f"err{i}", errs) if i == at else None
            w.fail = (err, c.choice(f"m{i}", w.faulty if i else first)) if err else None
            await w.update(first=i == 0)
            w.t = w.t + c.int(f"dt{i}", 1, 200000)

    c.run(go())


def many(c, kind, fail):
    """One query that fails every time, but once."""
    w = World(c, kind)
    good = c.choice("good", [None, *range(12)])
    dt = c.int("dt", 330, 100000)

    async def go():
        for i in range(12):
            w.fail = None if i == good else fail
            await w.update(first=i == 0)
            w.t = w.t + dt

    c.run(go())


def info(c, kind, how):
    """An update that fails, the first one included, does not spoil the device."""
    w = World(c, kind)
    when = c.choice("when", [0, 1]) if how != "nego" else 0
    inner = w.dev.protocol._transport.send

    async def send(request):
        if w.fail == "dead":
            raise w.ex.TimeoutError("no answer")
        return await inner(request)

    w.dev.protocol._transport.send = send

    async def go():
        for i in range(3):
            w.fail = None
            if i == when:
                w.fail = {"dead": "dead", "info": "getDeviceInfo" if kind == "cam" else "get_device_info", "nego": "getAppComponentList" if kind == "cam" else "component_nego"}[how]
            o = await acatch(w.dev.update())
            if i == when:
                c.check(o.raised(w.ex.KasaException), "without device info an update raises a library error", lambda: repr(o))
                c.reach("device-info")
            else:
                c.check(o.ok, "other updates succeed", lambda: repr(o))
            if i == when + 1:
                w.t = w.t + 100000
                o = await acatch(w.dev.update())
                c.check(o.ok, "other updates succeed", lambda: repr(o))
                for m in w.mods:
                    mod = w.dev.modules.get(m)
                    r = await acatch(w._data(mod)) if mod is not None else None
                    c.check(r is not None and r.ok, "the device recovers completely", lambda: (m, r))
                c.check("device_id" in w.dev.features or kind == "cam", "the features are there")
            w.t = w.t + c.int(f"dt{i}", 1, 200000)

    c.run(go())


def scenarios(tier):
    n = 2 if tier == "quick" else 3
    out = [(f"schedule-{k}", schedule, {"kind": k, "n": n}) for k in DEVS]
    out += [(f"alone-{k}", alone, {"kind": k, "n": n}) for k in DEVS]
    out += [("many-plug", many, {"kind": "plug", "fail": "get_auto_off_config"}), ("many-cloud", many, {"kind": "bulb", "fail": "get_connect_cloud_state"}), ("many-cam", many, {"kind": "cam", "fail": "getLedStatus"}), ("many-outlet", many, {"kind": "outlet", "fail": "get_auto_off_config"})]
    out += [(f"info-{k}-{h}", info, {"kind": k, "how": h}) for k in ("plug", "cam", "bulb") for h in ("info", "dead", "nego")]
    return out
