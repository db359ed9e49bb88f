"""Discovery: any datagram, from anyone, in any order, leads to one truthful outcome per host."""

from __future__ import annotations

import asyncio

import sim
from engine.ctx import And, Not, Or, sym_eq

BOUNDS = (
    "one answer from the legacy port and one from the new port with every reported field absent, null, a list, a dict, one of four integers or a text (type texts of up to 15 free "
    "characters and every known family, every encryption type, lists of up to three login versions); sequences of 3 datagrams (thorough: 4, of devices and garbage) from three hosts with any "
    "source port, carrying a device, an unsupported device, an invalid answer or garbage; discover_single and discover over up to two datagrams arriving at any "
    "of three moments, or none, or cancelled"
)
OUTSIDE = "the JSON text itself (the parser is native), sockets and broadcast, decryption of encrypt_info (a stand-in succeeds or fails)"
WITNESSES = ["legacy-device", "legacy-refused", "new-device", "new-refused", "history", "single-device", "single-error", "single-timeout", "all-device", "cancelled"]
QUICK_S, THOROUGH_S = 120, 400

H1, H2, H3 = "10.0.0.1", "10.0.0.2", "10.0.0.3"


def _setup(c, infos):
    """Discovery with the JSON parser replaced: the payload's number selects the parsed value."""
    import kasa.discover as d

    def loads(x):
        k = bytes(x)
        v = infos.get(k[-1] if k else None, ValueError("not json"))
        if isinstance(v, Exception):
            raise v
        return v

    class XE:
        @staticmethod
        def encrypt(req):
            return b"\0\0\0\0" + req.encode()

        @staticmethod
        def decrypt(data):
            return data

    c.patch(d, "json_loads", loads)
    c.patch(d, "XorEncryption", XE)
    c.patch(d._AesDiscoveryQuery, "keypair", object())
    c.patch(d._AesDiscoveryQuery, "generate_query", classmethod(lambda cls: b"probe"))
    return d


class Transport:
    def __init__(self):
        self.sent, self.closed = [], 0

    def get_extra_info(self, name):
        return self

    def setsockopt(self, *a):
        pass

    def sendto(self, data, addr):
        self.sent.append((bytes(data), addr))

    def close(self):
        self.closed += 1


def _value(c, name, texts, kinds=("absent", "null", "list", "int", "text")):
    """A field as a device might send it."""
    k = c.choice(name + "_kind", list(kinds))
    if k == "absent":
        return ABSENT
    if k == "null":
        return None
    if k == "list":
        return []
    if k == "dict":
        return {}
    if k == "int":
        return c.choice(name + "_i", [0, 2, -1, 2**33])
    return texts()


ABSENT = object()


def _put(d, k, v):
    if v is not ABSENT:
        d[k] = v


def _partition(c, p, hosts):
    for h in hosts:
        n = (h in p.discovered_devices) + (h in p.unsupported_device_exceptions) + (h in p.invalid_device_exceptions)
        c.check(n <= 1, "a host has one outcome", lambda: h)


def legacy(c, part):
    from kasa import DeviceConfig, KasaException, UnsupportedDeviceError

    top = "ok"
    si = {"model": "M", "alias": "a", "mac": "50:C7:BF:00:00:01", "deviceId": "1", "hw_ver": "1", "sw_ver": "1"}
    if part == "shape":
        top = c.choice("top", ["list", "null", "text", "int", "empty", "no-system", "system-list", "system-null", "sysinfo-list", "sysinfo-null", "sysinfo-text", "nested-null"])
    elif part == "fields":
        for k in ("type", "mic_type"):
            _put(si, k, _value(c, k, lambda: c.choice(k + "_t", ["IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", "SMART.TAPOBULB"])))
        _put(si, "dev_name", _value(c, "dev_name", lambda: c.choice("dev_name_t", ["Smart Wi-Fi Dimmer", "Plug"])))
    elif part == "others":
        si["type"] = c.choice("t", ["IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB"])
        f = c.choice("which", ["children", "length", "alias", "model", "mac", "deviceId", "hw_ver", "child_num", "system"])
        si.pop(f, None)
        _put(si, f, _value(c, f, lambda: "x", ("absent", "null", "list", "int", "text", "dict")))
    else:
        si["type"] = c.str("ty", 15, 0, 127)
    info = {
        "list": [],
        "null": None,
        "text": "x",
        "int": 7,
        "empty": {},
        "no-system": {"emeter": {}},
        "system-list": {"system": []},
        "system-null": {"system": None},
        "sysinfo-list": {"system": {"get_sysinfo": []}},
        "sysinfo-null": {"system": {"get_sysinfo": None}},
        "sysinfo-text": {"system": {"get_sysinfo": "x"}},
        "nested-null": {"system": {"get_sysinfo": {"system": None}}},
        "ok": {"system": {"get_sysinfo": si}},
    }[top]
    d = _setup(c, {1: info})
    seen = []
    box = {}

    async def go():
        async def cb(dev):
            seen.append(("device", dev))

        async def un(ex):
            seen.append(("unsupported", ex))

        p = d._DiscoverProtocol(on_discovered=cb, on_unsupported=un)
        box["p"] = p
        p.datagram_received(b"\1", (H1, 9999))
        await asyncio.gather(*p.callback_tasks)
        return p

    o = c.attempt(go())
    c.check(o.ok, "no datagram raises into the event loop", lambda: (info, repr(o)))
    p = box["p"]
    _partition(c, p, [H1])
    if not o.ok:
        return
    if H1 in p.discovered_devices:
        dev = p.discovered_devices[H1]
        c.check(top == "ok", "only system information makes a device")
        c.check(dev.protocol is not None, "a discovered device can be used", lambda: info)
        c.check(dev.host == H1, "the device has the host that answered")
        c.check(len(seen) == 1 and seen[0][0] == "device" and seen[0][1] is dev, "the device is reported once")
        c.reach("legacy-device")
    else:
        c.check(H1 in p.unsupported_device_exceptions or H1 in p.invalid_device_exceptions, "every answer has an outcome", lambda: info)
        c.check(len(seen) == (H1 in p.unsupported_device_exceptions), "unsupported devices are reported once")
        if part == "type":
            low = si["type"].lower()
            c.check(not ("smartplug" in low and "iot.smartplugswitch" == low), "known devices are discovered")
        c.reach("legacy-refused")


def new(c, part):
    from kasa import DeviceEncryptionType, DeviceFamily

    r = {"device_type": "SMART.TAPOBULB", "device_model": "L530E(EU)", "device_id": "x" * 32, "ip": H1, "mac": "50-C7-BF-00-00-01"}
    scheme = {"is_support_https": False, "encrypt_type": "KLAP", "http_port": 8081, "lv": 2}
    r["mgt_encrypt_schm"] = scheme
    decrypt_ok = True
    info: object = {"result": r}
    if part == "shape":
        t = c.choice("top", ["list", "null", "text", "int", "empty", "result-list", "result-null", "result-text", "result-empty"])
        info = {
            "list": [],
            "null": None,
            "text": "x",
            "int": 7,
            "empty": {},
            "result-list": {"result": []},
            "result-null": {"result": None},
            "result-text": {"result": "x"},
            "result-empty": {"result": {}},
        }[t]
    elif part == "fields":
        f = c.choice("field", ["device_type", "device_model", "device_id", "ip", "mac", "mgt_encrypt_schm", "encrypt_info", "device_name", "hw_ver", "firmware_version", "factory_default"])
        r.pop(f, None)
        _put(r, f, _value(c, f, lambda: "x", ("absent", "null", "list", "int", "text", "dict")))
    elif part == "scheme":
        for f in scheme:
            g = c.choice("field", list(scheme))
            if f == g:
                scheme.pop(f)
                _put(scheme, f, _value(c, f, lambda: "x", ("absent", "null", "list", "int", "text", "dict")))
                break
    elif part == "version":
        scheme["lv"] = c.choice("lv", [None, 0, 2])
        if scheme["lv"] is None:
            del scheme["lv"]
        n = c.pick("n", 4)
        if n:
            r["encrypt_type"] = [c.choice(f"e{i}", ["1", "2", "3", "", "x", "-1", "2.5"]) for i in range(n - 1)]
    elif part == "encrypt":
        scheme["encrypt_type"] = c.choice("enc", [e.value for e in DeviceEncryptionType] + ["", "NEW", None])
        if scheme["encrypt_type"] is None:
            del scheme["encrypt_type"]
        scheme["is_support_https"] = bool(c.bool("https"))
        r["device_type"] = c.choice("family", [f.value for f in DeviceFamily] + ["SMART.NEW", "NEW", ""])
        if c.bool("info"):
            r["encrypt_info"] = {"sym_schm": c.choice("sym", ["AES", "KLAP", ""]), "key": "a", "data": "b"}
            decrypt_ok = bool(c.bool("decrypts"))
    else:
        r["device_type"] = c.str("ty", 15, 32, 126)
    d = _setup(c, {1: info})

    def decrypt(dr):
        if not decrypt_ok:
            raise ValueError("cannot decrypt")
        dr.decrypted_data = {"a": 1}

    c.patch(d.Discover, "_decrypt_discovery_data", staticmethod(decrypt))
    seen, box = [], {}

    async def go():
        async def cb(dev):
            seen.append(("device", dev))

        async def un(ex):
            seen.append(("unsupported", ex))

        p = d._DiscoverProtocol(on_discovered=cb, on_unsupported=un)
        box["p"] = p
        p.datagram_received(b"\1" * 17, (H1, 20002))
        await asyncio.gather(*p.callback_tasks)
        return p

    o = c.attempt(go())
    c.check(o.ok, "no datagram raises into the event loop", lambda: (info, repr(o)))
    if not o.ok:
        return
    p = box["p"]
    _partition(c, p, [H1])
    if H1 not in p.discovered_devices:
        c.check(H1 in p.unsupported_device_exceptions or H1 in p.invalid_device_exceptions, "every answer has an outcome", lambda: info)
        c.check(len(seen) == (H1 in p.unsupported_device_exceptions), "unsupported devices are reported once")
        if part == "encrypt":
            f, e = r["device_type"], scheme.get("encrypt_type") or ("AES" if "encrypt_info" in r and r["encrypt_info"]["sym_schm"] == "AES" else "KLAP" if "encrypt_info" in r and r["encrypt_info"]["sym_schm"] == "KLAP" else None)
            c.check(not (e == "KLAP" and f in ("SMART.TAPOBULB", "SMART.KASASWITCH", "IOT.SMARTPLUGSWITCH") and not scheme["is_support_https"]), "supported devices are discovered", lambda: info)
        if part == "version":
            bad = [e for e in r.get("encrypt_type", []) if e not in ("1", "2", "3", "-1")]
            c.check(bool(bad), "supported devices are discovered", lambda: info)
        c.reach("new-refused")
        return
    dev = p.discovered_devices[H1]
    c.check(part not in ("shape",), "only a discovery result makes a device", lambda: info)
    c.check(dev.protocol is not None, "a discovered device can be used")
    c.check(dev.host == H1, "the device has the host that answered", lambda: dev.host)
    c.check(len(seen) == 1 and seen[0][0] == "device" and seen[0][1] is dev, "the device is reported once")
    ct = dev.config.connection_type
    if part == "encrypt":
        c.check(ct.device_family.value == r["device_type"], "the announced family is used")
        e = scheme.get("encrypt_type") or r.get("encrypt_info", {}).get("sym_schm")
        c.check(ct.encryption_type.value == e, "the announced encryption is used", lambda: (ct, e))
        c.check(ct.https is scheme["is_support_https"], "the announced scheme is used")
    if part in ("version", "encrypt"):
        c.check(ct.http_port == 8081, "the announced port is used", lambda: ct)
    if part == "version":
        lv = scheme.get("lv")
        et = r.get("encrypt_type")
        want = lv if lv else max(int(x) for x in et) if et else lv
        c.check(ct.login_version == want, "the announced login version is used", lambda: (ct.login_version, want))
    c.reach("new-device")


BULB = {"result": {"device_type": "SMART.TAPOBULB", "device_model": "L530E(EU)", "device_id": "x" * 32, "ip": H1, "mac": "50-C7-BF-00-00-01", "mgt_encrypt_schm": {"is_support_https": False, "encrypt_type": "KLAP", "http_port": 80, "lv": 2}}}
PLUG = {"system": {"get_sysinfo": {"type": "IOT.SMARTPLUGSWITCH", "model": "HS100(UK)", "alias": "a", "mac": "50:C7:BF:00:00:01", "deviceId": "1", "hw_ver": "1", "sw_ver": "1"}}}
KIND = {"device": 1, "unsupported": 2, "invalid": 3, "garbage": 4}


def _infos(port20002, kind):
    if kind == "device":
        return BULB if port20002 else PLUG
    if kind == "unsupported":
        return {"result": {"nothing": 1}} if port20002 else {"system": {"get_sysinfo": {"type": "SMART.TAPOBULB"}}}
    if kind == "invalid":
        return {"x": 1}
    return None


def _dispatch(c, d, customport):
    """The payload names its kind; what it parses to depends on the port it came from."""


def history(c, n):
    """A sequence of datagrams against a per-host reference."""
    custom = c.choice("custom", [None, 12345])
    target = c.choice("target", ["255.255.255.255", H1])
    infos = {}
    d = _setup(c, infos)
    legacy_port = custom or 9999
    seq, expect, raws, seen = [], {}, [], []
    box = {}
    for i in range(n):
        host = [H1, H2, H3][c.pick(f"h{i}", min(i + 1, 3))]
        port = c.int(f"p{i}", 0, 65535)
        kind = c.choice(f"k{i}", ["device", "unsupported", "garbage"] if n < 4 else ["device", "garbage"])
        seq.append((host, port, kind))

    async def go():
        async def cb(dev):
            seen.append(("device", dev.host, dev))

        async def un(ex):
            seen.append(("unsupported", None, ex))

        p = d._DiscoverProtocol(on_discovered=cb, on_unsupported=un, target=target, port=custom, on_discovered_raw=raws.append)
        box["p"] = p
        t = Transport()
        p.connection_made(t)
        await asyncio.sleep(0)
        for i, (host, port, kind) in enumerate(seq):
            is_legacy, is_new = bool(port == legacy_port), bool(port == 20002)
            infos[10 + i] = _infos(is_new, kind) if kind != "garbage" else ValueError("x")
            p.datagram_received(bytes([10 + i]) * 17, (host, port))
            if (is_legacy or is_new) and host not in expect:
                k = kind
                if kind == "unsupported" and not is_new:
                    k = "unsupported"
                expect[host] = (k, is_new)
            # stop asking exactly when the target has answered
            await asyncio.sleep(0)
            c.check(p.target_discovered == (target in expect), "asking stops when and only when the target has answered", lambda: (seq, target))
            c.check(p.discover_task.done() == (target in expect), "the discovery task ends when the target has answered")
        await asyncio.gather(*p.callback_tasks)
        p.discover_task.cancel()
        return p

    o = c.attempt(go())
    c.check(o.ok, "no datagram raises into the event loop", lambda: repr(o))
    if not o.ok:
        return
    p = box["p"]
    _partition(c, p, [H1, H2, H3])
    for h in (H1, H2, H3):
        k = expect.get(h, (None, None))
        c.check((h in p.discovered_devices) == (k[0] == "device"), "a host's first answer decides: device", lambda: (seq, h, k))
        c.check((h in p.unsupported_device_exceptions) == (k[0] == "unsupported"), "a host's first answer decides: unsupported", lambda: (seq, h, k))
        c.check((h in p.invalid_device_exceptions) == (k[0] == "garbage"), "a host's first answer decides: invalid", lambda: (seq, h, k))
        if k[0] == "device":
            dev = p.discovered_devices[h]
            c.check(dev.host == h and type(dev).__name__ == ("SmartDevice" if k[1] else "IotPlug"), "the device is what its host announced", lambda: (h, type(dev)))
            c.check(len([s for s in seen if s[1] == h]) == 1, "one report per device")
    c.check(len([s for s in seen if s[0] == "unsupported"]) == len(p.unsupported_device_exceptions), "one report per unsupported device")
    c.check(sorted(x["meta"]["ip"] for x in raws) == sorted(h for h, k in expect.items() if k[0] != "garbage"), "each readable answer is passed on once", lambda: raws)
    c.reach("history")


def api(c, mode):
    """discover() and discover_single() around the arrival of answers."""
    from kasa import Discover, KasaException, TimeoutError as KTimeout, UnsupportedDeviceError

    infos = {}
    d = _setup(c, infos)
    tr = Transport()
    n = c.pick("n", 3)
    events = []
    for i in range(n):
        events.append((c.choice(f"host{i}", [H1, H2]), c.choice(f"kind{i}", ["device", "unsupported", "garbage"]), c.choice(f"port{i}", [9999, 20002]), c.choice(f"at{i}", [0.0, 1.0, 30.0])))
    cancel = bool(c.bool("cancel")) if mode == "all" else False
    handler = bool(c.bool("on_unsupported"))
    told = []
    made = {}

    async def endpoint(factory, **kw):
        p = factory()
        made["p"] = p
        loop = asyncio.get_running_loop()
        loop.call_soon(p.connection_made, tr)
        for i, (h, k, port, at) in enumerate(events):
            infos[10 + i] = _infos(port == 20002, k) if k != "garbage" else ValueError("x")
            loop.call_later(at, p.datagram_received, bytes([10 + i]) * 17, (h, port))
        return tr, p

    async def go():
        loop = asyncio.get_running_loop()
        loop.create_datagram_endpoint = endpoint

        async def un(ex):
            told.append(ex)

        if mode == "single":
            return await Discover.discover_single(H1, discovery_timeout=5, on_unsupported=un if handler else None)
        t = asyncio.ensure_future(Discover.discover(discovery_timeout=5, on_unsupported=un if handler else None))
        if cancel:
            await asyncio.sleep(2)
            t.cancel()
        return await t

    closed = []
    from kasa.protocols import IotProtocol, SmartProtocol

    for cls in (IotProtocol, SmartProtocol):
        orig = cls.close

        async def close(self, _o=orig):
            closed.append(self)
            await _o(self)

        c.patch(cls, "close", close)
    o = c.attempt(go())
    c.check(tr.closed >= 1, "the socket is closed")
    first = {}
    for h, k, port, at in sorted(events, key=lambda e: e[3]):
        if at < 5 and h not in first:
            first[h] = (k, port)
    if mode == "single":
        k = first.get(H1)
        if k is None:
            c.check(o.raised(KTimeout), "no answer is a timeout", lambda: (events, repr(o)))
            c.reach("single-timeout")
        elif k[0] == "device":
            c.check(o.ok and o.value is not None and o.value.host == H1, "the device that answered is returned", lambda: (events, repr(o)))
            c.reach("single-device")
        elif k[0] == "unsupported":
            if handler:
                c.check(o.ok and o.value is None and len(told) == 1, "unsupported devices are told to the handler", lambda: (events, repr(o), told))
            else:
                c.check(o.raised(UnsupportedDeviceError), "unsupported devices are reported as such", lambda: (events, repr(o)))
            c.reach("single-error")
        else:
            c.check(o.raised(KasaException) and not o.raised(KTimeout, UnsupportedDeviceError), "an unreadable answer is an error", lambda: (events, repr(o)))
        return
    if cancel:
        c.check(o.raised(asyncio.CancelledError), "cancelling discovery is not swallowed", lambda: repr(o))
        for h, dev in made["p"].discovered_devices.items():
            c.check(any(x is dev.protocol for x in closed), "cancelled discovery closes what it opened", lambda: h)
        c.reach("cancelled")
        return
    c.check(o.ok, "discovery ends normally whatever arrives", lambda: (events, repr(o)))
    if not o.ok:
        return
    want = sorted(h for h, k in first.items() if k[0] == "device")
    c.check(sorted(o.value) == want, "exactly the devices that answered in time are returned", lambda: (events, o.value))
    c.check(not closed, "discovered devices stay usable")
    c.check(len(told) == (sum(k[0] == "unsupported" for k in first.values()) if handler else 0), "unsupported devices are told once")
    c.check(len(tr.sent) == 6 and {a for _, a in tr.sent} == {("255.255.255.255", 9999), ("255.255.255.255", 20002)}, "each packet goes to both ports", lambda: tr.sent)
    c.reach("all-device")


def scenarios(tier):
    return (
        [(f"legacy-{p}", legacy, {"part": p}) for p in ("shape", "fields", "others", "type")]
        + [(f"new-{p}", new, {"part": p}) for p in ("shape", "fields", "scheme", "version", "encrypt", "type")]
        + [("history", history, {"n": 4 if tier == "thorough" else 3})]
        + [(f"api-{m}", api, {"mode": m}) for m in ("single", "all")]
    )
