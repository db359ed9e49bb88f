"""Protocol, transport and device class selection; connect() owns what it opens."""

from __future__ import annotations

import asyncio

import sim
from engine.ctx import And, Not, Or, acatch, sym_eq

BOUNDS = (
    "every device family x encryption type x https x login version x strict for the protocol; every family and any other "
    "8-bit family name of up to 16 characters for the device class; system information with any type text of 11 characters, any device name of 9, "
    "children, length and nested camera shape present or absent; connect() for an XOR device, a SMART device, a camera and an IOT device over KLAP, failing "
    "with any of six exceptions at any request or at none"
)
OUTSIDE = "the families' set itself, which is the code's own enumeration"
WITNESSES = ["protocol", "none", "class", "sysinfo", "connected", "failed", "cancelled"]
QUICK_S, THOROUGH_S = 60, 400


def protocol(c):
    from kasa import DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
    from kasa.device_factory import get_protocol

    fam = c.choice("family", list(DeviceFamily))
    enc = c.choice("enc", list(DeviceEncryptionType))
    https, strict = bool(c.bool("https")), bool(c.bool("strict"))
    lv = c.choice("login", [None, 2])
    port = c.choice("port", [None, 4567])
    hp = c.choice("http_port", [None, 8443])
    cfg = DeviceConfig("127.0.0.1", port_override=port, connection_type=DeviceConnectionParameters(fam, enc, lv, https, http_port=hp))
    f, e = fam.value, enc.value
    if f in ("SMART.IPCAMERA", "SMART.TAPODOORBELL"):
        want = ("SmartCamProtocol", "SslAesTransport") if not strict or e == "AES" else None
    elif f == "IOT.IPCAMERA":
        want = ("IotProtocol", "LinkieTransportV2") if not strict or e == "XOR" else None
    elif f == "SMART.TAPOROBOVAC" and e == "AES":
        want = ("SmartProtocol", "SslTransport")
    else:
        want = {
            ("IOT", "XOR", False): ("IotProtocol", "XorTransport"),
            ("IOT", "KLAP", False): ("IotProtocol", "KlapTransport"),
            ("SMART", "AES", False): ("SmartProtocol", "AesTransport"),
            ("SMART", "KLAP", False): ("SmartProtocol", "KlapTransportV2"),
            ("SMART", "KLAP", True): ("SmartProtocol", "KlapTransportV2"),
            ("SMART", "AES", True): ("SmartCamProtocol", "SslAesTransport"),
        }.get((f.split(".")[0], e, https))

    async def go():
        return get_protocol(cfg, strict=strict)

    o = c.attempt(go())
    if want is None:
        c.check(o.ok and o.value is None, "no protocol for an unsupported combination", lambda: repr(o))
        c.reach("none")
        return
    c.check(o.ok and o.value is not None, "supported combinations get a protocol", lambda: repr(o))
    if not (o.ok and o.value is not None):
        return
    p = o.value
    c.check((type(p).__name__, type(p._transport).__name__) == want, "the protocol and transport belong to the connection type", lambda: (f, e, https, type(p).__name__, type(p._transport).__name__))
    c.check(p.config is cfg and p._transport._config is cfg, "the configuration is used as given")
    defaults = {"XorTransport": 9999, "LinkieTransportV2": 10443, "SslAesTransport": 443, "SslTransport": 4433, "AesTransport": 80}
    d = defaults.get(want[1], 4433 if https else 80)
    hp_eff = hp if want[1] != "XorTransport" else None
    c.check(p._transport._port == (port or hp_eff or d), "the port is the override, else the announced port, else the default", lambda: p._transport._port)
    c.reach("protocol")


TABLE = {
    "SMART.TAPOPLUG": "SmartDevice",
    "SMART.TAPOBULB": "SmartDevice",
    "SMART.TAPOSWITCH": "SmartDevice",
    "SMART.KASAPLUG": "SmartDevice",
    "SMART.TAPOHUB": "SmartDevice",
    "SMART.TAPOHUB.HTTPS": "SmartCamDevice",
    "SMART.KASAHUB": "SmartDevice",
    "SMART.KASASWITCH": "SmartDevice",
    "SMART.IPCAMERA.HTTPS": "SmartCamDevice",
    "SMART.TAPODOORBELL.HTTPS": "SmartCamDevice",
    "SMART.TAPOROBOVAC.HTTPS": "SmartDevice",
    "IOT.SMARTPLUGSWITCH": "IotPlug",
    "IOT.SMARTBULB": "IotBulb",
}


def family(c):
    from kasa import DeviceFamily
    from kasa.device_factory import get_device_class_from_family

    https, exact = bool(c.bool("https")), bool(c.bool("exact"))
    names = [x.value for x in DeviceFamily] + ["SMART.", "SMART.NEWTHING", "IOT.NEWTHING", "", "SMART.TAPOHUB.HTTPS", "smart.tapoplug"]
    name = c.choice("name", names)
    o = c.attempt(get_device_class_from_family, name, https=https, require_exact=exact)
    want = TABLE.get(name + (".HTTPS" if https else ""))
    if want is None and name.startswith("SMART.") and not exact:
        want = "SmartDevice"
    c.check(o.ok and (o.value.__name__ if o.value else None) == want, "the device class belongs to the family", lambda: (name, https, exact, repr(o)))
    c.reach("class")


def sysinfo(c):
    """get_device_class_from_sys_info over shapes and symbolic texts."""
    from kasa import KasaException
    from kasa.device_factory import get_device_class_from_sys_info

    si: dict = {}
    shape = c.choice("shape", ["ok", "no-system", "no-sysinfo", "camera", "empty", "error"])
    ty = c.str("type", 11, 0, 127)
    key = c.choice("key", ["type", "mic_type", "none"])
    if key != "none":
        si[key] = ty
    nm = None
    if c.bool("has_name"):
        nm = c.str("name", 9, 0, 127)
        si["dev_name"] = nm
    kids = bool(c.bool("children"))
    if kids:
        si["children"] = []
    length = bool(c.bool("length"))
    if length:
        si["length"] = 16
    if shape == "camera":
        info = {"system": {"get_sysinfo": {"err_code": 0, "system": si}}}
    elif shape == "no-system":
        info = {"emeter": {}}
    elif shape == "no-sysinfo":
        info = {"system": {"err_code": -1}}
    elif shape == "empty":
        info = {}
    elif shape == "error":
        info = {"system": {"get_sysinfo": {"err_code": -1, "err_msg": "no"}}}
    else:
        info = {"system": {"get_sysinfo": si}}
    o = c.attempt(get_device_class_from_sys_info, info)
    c.reach("sysinfo")
    if shape != "ok" or key == "none":
        c.check(o.raised(KasaException), "unrecognisable devices are library errors", lambda: (shape, repr(o)))
        return
    c.check(o.ok, "every device with a type has a class", lambda: repr(o))
    if not o.ok:
        return
    got = o.value.__name__
    low = ty.lower()
    plug, bulb = "smartplug" in low, "smartbulb" in low
    dim = nm is not None and "Dimmer" in nm
    light = nm is not None and "light" in nm.lower()
    if dim:
        want = "IotDimmer"
    elif plug:
        want = "IotStrip" if kids else "IotWallSwitch" if light else "IotPlug"
    elif bulb:
        want = "IotLightStrip" if length else "IotBulb"
    else:
        want = "IotPlug"
    c.check(got == want, "the class follows the reported type", lambda: (got, want))


def _connections(kind, t):
    from kasa import DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType as E, DeviceFamily as F

    fam, enc, https = {
        "xor": (F.IotSmartPlugSwitch, E.Xor, False),
        "xorbulb": (F.IotSmartPlugSwitch, E.Xor, False),
        "klap": (F.IotSmartPlugSwitch, E.Klap, False),
        "smart": (F.SmartTapoBulb, E.Klap, False),
        "cam": (F.SmartIpCamera, E.Aes, True),
        "unsupported": (F.IotSmartPlugSwitch, E.Aes, False),
        "noclass": (F.IotIpCamera, E.Xor, True),
    }[kind]
    return DeviceConfig("127.0.0.1", connection_type=DeviceConnectionParameters(fam, enc, 2, https))


FAIL = ["kasa", "auth", "timeout", "conn", "runtime", "cancel"]


def connect(c, kind):
    import kasa.device_factory as df
    from kasa import AuthenticationError, KasaException, TimeoutError as KTimeout, UnsupportedDeviceError
    from kasa.exceptions import _ConnectionError
    from kasa.protocols import IotProtocol, SmartProtocol
    from kasa.protocols.smartcamprotocol import SmartCamProtocol
    from kasa.transports import XorTransport

    cfg = _connections(kind, c)
    seen = {"n": 0}
    at = c.pick("fail_at", 7) if kind not in ("unsupported", "noclass") else 0
    what = c.choice("what", FAIL) if at else "none"
    exc = {
        "kasa": KasaException("x"),
        "auth": AuthenticationError("x"),
        "timeout": KTimeout("x"),
        "conn": _ConnectionError("x"),
        "runtime": RuntimeError("x"),
        "cancel": asyncio.CancelledError(),
        "none": None,
    }[what]
    s = {"xor": lambda: sim.IotSim(sim.data("HS100")), "xorbulb": lambda: sim.IotSim(sim.data("KL120")), "klap": lambda: sim.IotSim(sim.data("HS100")), "noclass": lambda: sim.IotSim({}),
         "smart": lambda: sim.SmartSim(sim.data("L530E")), "cam": lambda: sim.CamSim(sim.data("C210")), "unsupported": lambda: None}[kind]()

    closes = []
    made = []

    def proto(config, **k):
        if kind == "unsupported":
            return None
        base = {"xor": IotProtocol, "xorbulb": IotProtocol, "klap": IotProtocol, "noclass": IotProtocol, "smart": SmartProtocol, "cam": SmartCamProtocol}[kind]

        class P(base):
            async def query(self, request, retry_count=3):
                seen["n"] += 1
                if exc is not None and seen["n"] == at:
                    raise exc
                await asyncio.sleep(0)
                return await super().query(request, retry_count)

            async def close(self):
                closes.append(self)
                await super().close()

        tr = sim.make_transport(s.handle, config=config)
        if kind in ("xor", "xorbulb"):
            # an XOR connection without a socket
            cls = type("X", (type(tr), XorTransport), {"__init__": lambda self, config: type(tr).__mro__[1].__init__(self, config=config)})
            x = cls(config=config)
            x.resets = x.closes = x.sends = 0
            x.writer = x.reader = x.loop = None
            tr = x
        p = P(transport=tr)
        made.append(p)
        return p

    if kind != "unsupported":
        c.patch(df, "get_protocol", proto)

    async def go():
        from kasa import Device

        return await Device.connect(config=cfg)

    o = c.attempt(go())
    if kind == "unsupported" or kind == "noclass":
        c.check(o.raised(UnsupportedDeviceError), "unsupported connections are reported as such", lambda: repr(o))
        c.check(len(closes) == len(made), "what was opened is closed")
        c.reach("failed")
        return
    failed = exc is not None and seen["n"] >= at
    if failed and not o.ok:
        ok = o.exc is exc or (isinstance(exc, KasaException) and isinstance(o.exc, KasaException))
        c.check(ok, "the failure is reported to the caller", lambda: repr(o))
        c.check(len(closes) >= 1, "a failed connect closes the connection it opened", lambda: (what, at))
        if what == "runtime":
            c.check(isinstance(o.exc, (RuntimeError, KasaException)), "the failure is reported", lambda: repr(o))
        if what == "cancel":
            c.reach("cancelled")
            c.check(isinstance(o.exc, asyncio.CancelledError), "cancellation is not swallowed", lambda: repr(o))
        c.reach("failed")
        return
    if failed:
        # what is tolerated is neither the first exchange nor a cancellation
        c.check(at > 1 and what != "cancel", "the failure is not swallowed", lambda: (what, at, repr(o)))
    c.check(o.ok, "connect succeeds when the device answers", lambda: repr(o))
    if not o.ok:
        return
    dev = o.value
    want = {"xor": "IotPlug", "xorbulb": "IotBulb", "klap": "IotPlug", "smart": "SmartDevice", "cam": "SmartCamDevice"}[kind]
    c.check(type(dev).__name__ == want, "the device class belongs to the device", lambda: type(dev).__name__)
    c.check(dev.protocol is made[0] and len(made) == 1, "the device uses the connection")
    c.check(not closes, "a successful connect leaves the connection open")
    c.check(bool(dev.sys_info) and dev.model is not None, "the device is updated")
    c.reach("connected")


def arguments(c):
    from kasa import Device, DeviceConfig, KasaException

    h, g = c.choice("host", [None, "", "127.0.0.1"]), bool(c.bool("config"))
    cfg = _connections("unsupported", c) if g else None

    async def go():
        return await Device.connect(host=h, config=cfg)

    if h and not g:
        return
    o = c.attempt(go())
    c.check(o.raised(KasaException), "exactly one of host and config", lambda: repr(o))


def scenarios(tier):
    return [("protocol", protocol), ("family", family), ("sysinfo", sysinfo), ("arguments", arguments)] + [
        (f"connect-{k}", connect, {"kind": k}) for k in ("xor", "xorbulb", "klap", "smart", "cam", "unsupported", "noclass")
    ]
