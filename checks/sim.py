"""Device simulators used by the scenarios (environment, not code under test)."""

from __future__ import annotations

import asyncio
import copy
import enum
import json
import os

from engine.hook import BoxedBytes, BoxedStr, boxed, freeze
from engine.sym import has_sym

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")

_cache: dict = {}


def data(name) -> dict:
    if name not in _cache:
        with open(os.path.join(DATA, f"{name}.json")) as fh:
            _cache[name] = fh.read()
    return json.loads(_cache[name])


def loads(s):
    if type(s) in (BoxedStr, BoxedBytes):
        return freeze(s.obj)
    return json.loads(s)


def dumps(o):
    """JSON text (boxed when it carries symbolic values)."""
    if has_sym(o, 12):
        return boxed(o).decode()
    return json.dumps(o)


MISSING_GETTERS = {
    "get_led_info": {"led_rule": "never", "led_status": False, "night_mode": {"end_time": 420, "night_mode_type": "sunrise_sunset", "start_time": 1140, "sunrise_offset": 0, "sunset_offset": 0}},
    "get_alarm_configure": {"duration": 10, "type": "Doorbell Ring 2", "volume": "low"},
    "get_device_usage": {},
    "get_frost_protection": {"enabled": False, "min_temp": 5, "temp_unit": "celsius"},
    "get_auto_update_info": {"enable": True, "random_range": 120, "time": 180},
    "get_temperature_unit": {},
    "getChildLockInfo": {"child_lock_status": False},
    "get_overheat_protection": {},
    "get_trigger_logs": {"logs": [], "start_id": 0, "sum": 0},
    "get_device_time": {"region": "UTC", "time_diff": 0, "timestamp": 1700000000},
}


def _transport_base():
    from kasa.transports.basetransport import BaseTransport

    return BaseTransport


def make_transport(handler, host="127.0.0.1", credentials=None, config=None):
    """A transport whose send() calls handler(request_dict) -> response dict."""
    from kasa import Credentials, DeviceConfig

    Base = _transport_base()

    class SimTransport(Base):
        def __init__(self, *, config):
            super().__init__(config=config)
            self.resets = 0
            self.closes = 0
            self.sends = 0

        @property
        def default_port(self):
            return 80

        @property
        def credentials_hash(self):
            return "hash"

        async def send(self, request):
            self.sends += 1
            r = handler(loads(request))
            if asyncio.iscoroutine(r):
                r = await r
            return r

        async def close(self):
            self.closes += 1

        async def reset(self):
            self.resets += 1

    cfg = config or DeviceConfig(host, credentials=credentials or Credentials("user", "pass"))
    return SimTransport(config=cfg)


class SmartSim:
    """A SMART (tapo/kasa) device answering method calls from a data dict.

    `log` has every (target, method, params) that reached the device; target is
    None for the device itself or the child's device id.
    """

    def __init__(self, d, children=None):
        self.d = d
        self.children = children or d.get("child_devices", {}) or {}
        self.log: list = []
        self.on = None  # optional override: on(target, method, params) -> resp|None

    def handle(self, req):
        if req["method"] == "multipleRequest":
            out = []
            for r in req["params"]["requests"]:
                resp = dict(self.one(None, r["method"], r.get("params")))
                resp["method"] = r["method"]
                out.append(resp)
            return {"result": {"responses": out}, "error_code": 0}
        return self.one(None, req["method"], req.get("params"))

    def one(self, target, method, params):
        if method == "control_child":
            rd = params["requestData"]
            cid = params["device_id"]
            if rd["method"] == "multipleRequest":
                out = []
                for r in rd["params"]["requests"]:
                    resp = dict(self.one(cid, r["method"], r.get("params")))
                    resp["method"] = r["method"]
                    out.append(resp)
                inner = {"result": {"responses": out}, "error_code": 0}
            else:
                inner = self.one(cid, rd["method"], rd.get("params"))
            return {"result": {"responseData": inner}, "error_code": 0}
        self.log.append((target, method, freeze(params)))
        if self.on is not None:
            r = self.on(target, method, params)
            if r is not None:
                return r
        d = self.d if target is None else self.children.get(target, {})
        if method in d:
            v = d[method]
            if isinstance(v, int) and not isinstance(v, bool):
                return {"error_code": v}
            return {"result": freeze(v), "error_code": 0}
        if method in MISSING_GETTERS:
            return {"result": copy.deepcopy(MISSING_GETTERS[method]), "error_code": 0}
        if method.startswith("get"):
            return {"error_code": -1008}
        return {"error_code": 0}

    def sets(self, target="any"):
        """Calls that are not plain getters."""
        return [
            (t, m, p)
            for t, m, p in self.log
            if not m.startswith(("get", "component_nego")) and (target == "any" or t == target)
        ]

    def clear(self):
        self.log.clear()


def smart_device(d, cls=None, sim=None):
    """(device, sim): not updated yet."""
    from kasa.protocols import SmartProtocol
    from kasa.smart import SmartDevice

    sim = sim or SmartSim(d)
    proto = SmartProtocol(transport=make_transport(sim.handle))
    dev = (cls or SmartDevice)("127.0.0.1", protocol=proto)
    return dev, sim


class CamSim:
    """A SMARTCAM device."""

    def __init__(self, d, children=None):
        self.d = d
        self.children = children or {}
        self.log: list = []
        self.on = None

    def handle(self, req):
        return self.one(None, req)

    def one(self, target, req):
        method = req["method"]
        params = req.get("params")
        if method == "multipleRequest":
            out = []
            for r in params["requests"]:
                resp = dict(self.one(target, r))
                resp["method"] = r["method"]
                out.append(resp)
            return {"result": {"responses": out}, "error_code": 0}
        if method == "controlChild":
            cc = params["childControl"]
            cid = cc["device_id"]
            inner = self.one(cid, cc["request_data"])
            return {"result": {"response_data": inner}, "error_code": 0}
        rest = {k: v for k, v in req.items() if k != "method"}
        p = params if params is not None else rest
        self.log.append((target, method, freeze(p)))
        if self.on is not None:
            r = self.on(target, method, p)
            if r is not None:
                return r
        d = self.d if target is None else self.children.get(target, {})
        if method in d:
            v = d[method]
            if isinstance(v, int) and not isinstance(v, bool):
                return {"error_code": v}
            return {"result": freeze(v), "error_code": 0}
        if method in MISSING_GETTERS and target is not None:
            return {"result": copy.deepcopy(MISSING_GETTERS[method]), "error_code": 0}
        if method.startswith("get"):
            return {"error_code": -60203}
        return {"error_code": 0, "result": {}}

    sets = SmartSim.sets
    clear = SmartSim.clear


def cam_device(d, sim=None, cls=None):
    from kasa.protocols.smartcamprotocol import SmartCamProtocol
    from kasa.smartcam import SmartCamDevice

    sim = sim or CamSim(d)
    proto = SmartCamProtocol(transport=make_transport(sim.handle))
    dev = (cls or SmartCamDevice)("127.0.0.1", protocol=proto)
    return dev, sim


class IotSim:
    """A legacy IOT device: {module: {command: result}}."""

    def __init__(self, d):
        self.d = d
        self.log: list = []  # (child_ids, module, command, args)
        self.on = None
        self.requests: list = []

    def handle(self, req):
        self.requests.append(freeze(req))
        ctxt = req.get("context", {}).get("child_ids")
        out: dict = {}
        for mod, cmds in req.items():
            if mod == "context":
                continue
            out[mod] = {}
            for cmd, args in cmds.items():
                self.log.append((ctxt, mod, cmd, freeze(args)))
                r = self.on(ctxt, mod, cmd, args) if self.on else None
                if r is None:
                    r = self._get(ctxt, mod, cmd)
                out[mod][cmd] = r
        return out

    def _get(self, ctxt, mod, cmd):
        if mod in ("time", "smartlife.iot.common.timesetting") and mod not in self.d:
            if cmd == "get_time":
                return {"err_code": 0, "year": 2024, "month": 1, "mday": 2, "hour": 3, "min": 4, "sec": 5}
            if cmd == "get_timezone":
                return {"err_code": 0, "index": 39}
        if mod in ("schedule", "anti_theft", "count_down", "smartlife.iot.common.schedule", "smartlife.iot.common.anti_theft") and mod not in self.d and cmd == "get_rules":
            return {"err_code": 0, "rule_list": []}
        m = self.d.get(mod)
        if m is None:
            if cmd.startswith("get"):
                return {"err_code": -1, "err_msg": "module not support"}
            return {"err_code": 0}
        if cmd in m:
            v = freeze(m[cmd])
            if isinstance(v, dict):
                v.setdefault("err_code", 0)
            return v
        if cmd.startswith("get"):
            return {"err_code": -2, "err_msg": "member not support"}
        return {"err_code": 0}

    def sets(self):
        return [x for x in self.log if not x[2].startswith("get")]

    def clear(self):
        self.log.clear()
        self.requests.clear()


def iot_device(d, cls, sim=None):
    from kasa.protocols import IotProtocol

    sim = sim or IotSim(d)
    proto = IotProtocol(transport=make_transport(sim.handle))
    dev = cls("127.0.0.1", protocol=proto)
    return dev, sim


def _plain(cls, d, dialect=None):
    """What mashumaro's from_dict does, without its int() conversions (data with symbolic values)."""
    import dataclasses
    import datetime as dt
    import types
    import typing

    from mashumaro.exceptions import MissingField
    from mashumaro.types import Alias

    if any("__pre_deserialize__" in vars(k) for k in cls.__mro__ if not k.__module__.startswith("mashumaro")):
        d = cls.__pre_deserialize__(d)
    hints = typing.get_type_hints(cls, include_extras=True)
    strategies = getattr(dialect, "serialization_strategy", {}) if dialect else {}
    out = {}
    for f in dataclasses.fields(cls):
        t, key = hints[f.name], f.metadata.get("alias") or f.name
        if typing.get_origin(t) is typing.Annotated:
            key = next((a.name for a in t.__metadata__ if isinstance(a, Alias)), key)
            t = t.__origin__
        if key not in d:
            if f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING:
                raise MissingField(f.name, t, cls)
            continue
        v = d[key]
        if isinstance(t, types.UnionType):
            t = next((a for a in typing.get_args(t) if dataclasses.is_dataclass(a) and isinstance(v, dict)), t)
        if f.metadata.get("deserialize"):
            v = f.metadata["deserialize"](v)
        elif dataclasses.is_dataclass(t):
            v = _plain(t, v, dialect)
        elif typing.get_origin(t) is list and dataclasses.is_dataclass(typing.get_args(t)[0]):
            v = [_plain(typing.get_args(t)[0], x, dialect) for x in v]
        elif t in strategies:
            v = strategies[t].deserialize(v)
        elif isinstance(t, type) and issubclass(t, enum.Enum):
            v = t(v)
        elif t is dt.datetime:
            v = dt.datetime.fromisoformat(v)
        out[f.name] = v
    return cls(**out)


def model_from_dict(c, *classes):
    """Symbolic values do not survive mashumaro's generated code: stand in for it when there are any."""
    for cls in classes:
        real = cls.from_dict

        def from_dict(d, dialect=None, *, _cls=cls, _real=real):
            if has_sym(d, 12):
                return _plain(_cls, d, dialect)
            return _real(d, dialect=dialect) if dialect else _real(d)

        c.patch(cls, "from_dict", from_dict)
