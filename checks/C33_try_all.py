"""Trying every way to connect finds the device, whatever it speaks, and says how to reach it again."""

from __future__ import annotations

import base64
import copy
import json

import sim
from httpsim import FakeSession
from engine.ctx import Not, Or, acatch, sym_eq

BOUNDS = (
    "a host that speaks exactly one of the ten ways to connect that devices use (or none), on its usual port or on any other port given by the caller; attempts to speak otherwise fail with one of six errors or with one of nine answers that make no sense; "
    "with and without credentials, any timeout, with and without callback; a later connection with the stored configuration"
)
OUTSIDE = "the exchange itself (C01-C14); legacy devices other than plugs, switches, dimmers, bulbs and strips"
WITNESSES = ["found", "nothing", "again", "port", "refused-port", "no-credentials", "callback"]
QUICK_S, THOROUGH_S = 200, 800

#: kind -> data, protocol, transport, device class, https, port
KINDS = {
    "plug": ("HS100", "IotProtocol", "XorTransport", "IotPlug", False, 9999),
    "bulb": ("KL130", "IotProtocol", "XorTransport", "IotBulb", False, 9999),
    "strip": ("HS300", "IotProtocol", "XorTransport", "IotStrip", False, 9999),
    "dimmer": ("HS220", "IotProtocol", "XorTransport", "IotDimmer", False, 9999),
    "plug-klap": ("HS100", "IotProtocol", "KlapTransport", "IotPlug", False, 80),
    "smart-aes": ("P110M", "SmartProtocol", "AesTransport", "SmartDevice", False, 80),
    "smart-aes2": ("P110M", "SmartProtocol", "AesTransport", "SmartDevice", False, 80),
    "smart-klap": ("L530E", "SmartProtocol", "KlapTransportV2", "SmartDevice", False, 80),
    "vacuum-klap": ("RV20", "SmartProtocol", "KlapTransportV2", "SmartDevice", True, 4433),
    "vacuum": ("RV20", "SmartProtocol", "SslTransport", "SmartDevice", True, 4433),
    "camera": ("C210", "SmartCamProtocol", "SslAesTransport", "SmartCamDevice", True, 443),
    "nothing": (None,) * 6,
}


class Address(str):
    """Stand-in for addresses with a symbolic port, which are not used by this check."""

    def __truediv__(self, o):
        return Address(f"{self}/{o}")


NONSENSE = {
    "empty": {},
    "list": [],
    "text": "hello",
    "null": None,
    "no result": {"error_code": 0},
    "text result": {"error_code": 0, "result": "?", "system": {"get_sysinfo": "?"}},
    "null result": {"error_code": 0, "result": None, "system": {"get_sysinfo": None}},
    "list result": {"error_code": 0, "result": {"responses": []}, "system": {"get_sysinfo": {"err_code": 0}}},
    "odd responses": {"error_code": 0, "result": {"responses": [{"method": "get_device_info", "error_code": 0, "result": {}}, {"error_code": 0}]}, "system": []},
}


class Host:
    """What answers at the address."""

    def __init__(self, c, kind, port, wrong):
        self.c, self.kind, self.wrong = c, kind, wrong
        name, self.proto, self.tr, self.cls, self.https, dport = KINDS[kind]
        self.port = dport if port is None else port
        self.d = name and sim.data(name)
        self.sim = None if not name else {"IotProtocol": sim.IotSim, "SmartProtocol": sim.SmartSim, "SmartCamProtocol": sim.CamSim}[self.proto](self.d)
        self.tried, self.closed = [], []
        import kasa.transports as t

        if c.symbolic:
            # addresses with a symbolic port
            for m in list(vars(t).values()):
                if getattr(m, "__name__", "").startswith("kasa.transports.") and hasattr(m, "URL"):
                    c.patch(m, "URL", Address)
        host = self
        for n in ("XorTransport", "KlapTransport", "KlapTransportV2", "AesTransport", "SslTransport", "SslAesTransport", "LinkieTransportV2"):
            cls = getattr(t, n, None)
            if cls is None:
                continue

            async def send(tr, request):
                return await host.answer(tr, request)

            async def close(tr):
                host.closed.append(tr)

            c.patch(cls, "send", send)
            c.patch(cls, "close", close)

    def speaks(self, tr):
        if type(tr).__name__ != self.tr or not sym_eq(tr._port, self.port) or tr._config.connection_type.https is not self.https:
            return False
        if self.kind.startswith("smart-aes"):
            h = tr.credentials_hash
            if h is None:
                # no credentials: the same for both, but sent in different ways
                return (tr._config.connection_type.login_version == 2) == (self.kind == "smart-aes2")
            v2 = "password2" in json.loads(base64.b64decode(h))
            return v2 == (self.kind == "smart-aes2")
        return True

    async def answer(self, tr, request):
        import kasa.exceptions as ke

        if tr not in self.tried:
            self.tried.append(tr)
        if self.speaks(tr):
            return self.sim.handle(sim.loads(request))
        if self.wrong in NONSENSE:
            return copy.deepcopy(NONSENSE[self.wrong])
        if self.wrong == "value":
            raise ValueError("bad padding")
        ex = {"auth": ke.AuthenticationError, "timeout": ke.TimeoutError, "connection": ke._ConnectionError, "kasa": ke.KasaException, "device": ke.DeviceError}[self.wrong]
        raise ex("no")


def search(c):
    from kasa import Credentials, Device, Discover

    kind = c.choice("kind", list(KINDS))
    wrong = c.choice("wrong", ["auth", "timeout", "connection", "kasa", "device", "value", *NONSENSE])
    port = None
    listen = None
    if c.bool("port given"):
        port = c.int("port", 1, 65535)
        listen = port
        if c.bool("elsewhere"):
            listen = c.int("listens", 1, 65535)
            c.assume(Not(sym_eq(port, listen)))
    host = Host(c, kind, listen, wrong)
    creds = None
    if c.bool("credentials"):
        creds = Credentials(c.choice("user", ["user@example.com", ""]), c.choice("pw", ["secret", ""]))
    timeout = c.int("timeout", 1, 100)
    calls = []
    cb = (lambda a, ok: calls.append((a, ok))) if c.bool("callback") else None
    session = FakeSession(lambda r: None) if cb else None

    async def go():
        dev = await Discover.try_connect_all("10.0.0.1", port=port, timeout=timeout, credentials=creds, on_attempt=cb, http_client=session)
        tried = host.tried
        for tr in tried:
            c.check(tr._host == "10.0.0.1" and sym_eq(tr._timeout, timeout), "every attempt is made at the host, with the timeout given")
            c.check(tr._config.http_client is session, "every attempt uses the session given", lambda: tr._config)
            c.check(port is None or sym_eq(tr._port, port), "every attempt is made at the port given", lambda: (port, tr._port))
            c.check(host.closed.count(tr) >= 1, "every attempt is closed", lambda: type(tr))
        found = kind != "nothing" and (port is None or sym_eq(port, listen))
        if cb:
            c.check(len(calls) >= len(tried) and [ok for _, ok in calls] == [False] * (len(calls) - bool(found)) + [True] * bool(found), "every attempt is reported, the last one as working", lambda: calls)
            for a, _ in calls:
                c.check(isinstance(a.protocol, type) and isinstance(a.https, bool) and a.transport.__name__.endswith(("Transport", "TransportV2")), "attempts say how they were made", lambda: a)
            if found:
                a = calls[-1][0]
                c.check((a.protocol.__name__, a.transport.__name__, a.https) == (host.proto, host.tr, host.https), "the last attempt reported is the one that worked", lambda: (kind, a))
            c.reach("callback")
        if not found:
            c.check(dev is None, "nothing is found where no device answers", lambda: dev)
            ways = {(type(tr).__name__, tr._config.connection_type.https) for tr in tried}
            want = {(k[2], k[4]) for k in KINDS.values() if k[0]}
            c.check(want <= ways, "every way to connect is tried", lambda: (want - ways))
            c.reach("nothing" if kind == "nothing" else "refused-port")
            return
        c.check(dev is not None, "the device is found", lambda: (kind, [type(t) for t in tried]))
        if dev is None:
            return
        c.check(type(dev).__name__ == host.cls and type(dev.protocol).__name__ == host.proto and type(dev.protocol._transport).__name__ == host.tr, "the device is what it is, reached as it is", lambda: (kind, dev, dev.protocol))
        c.check(dev.host == "10.0.0.1" and sym_eq(dev.config.timeout, timeout) and dev.config.credentials == creds, "the configuration is the one given", lambda: dev.config)
        c.check(dev.config.port_override is None if port is None else sym_eq(dev.config.port_override, port), "the configuration has the port given", lambda: dev.config)
        c.check(dev.config.http_client is session and (session is None or not session.closed_count), "the session given is the caller's", lambda: dev.config)
        c.check(dev.alias is not None and dev.model, "the device has been updated")
        n = len(tried)
        o = await acatch(dev.update())
        c.check(o.ok, "the device can be used", lambda: repr(o))
        c.check(len(host.tried) == n, "the device keeps its connection")
        c.reach("found")
        c.reach("port" if port is not None else "no-credentials" if creds is None else "found")
        # as documented: connect with the configuration later on
        cfg = dev.config
        o = await acatch(Device.connect(config=cfg))
        c.check(o.ok and type(o.value).__name__ == host.cls and type(o.value.protocol._transport).__name__ == host.tr, "the configuration reaches the device again", lambda: (repr(o), cfg))
        c.reach("again")

    c.run(go())


def scenarios(tier):
    return [("search", search, {})]
